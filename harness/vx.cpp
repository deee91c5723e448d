#include "vx.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

namespace vx {

std::string fmt(const char* f, ...)
{
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

static const int MAXCH = 4096;
struct Shared
{
  volatile uint64_t execs, steps, validated, known;
  volatile int scenario, n, running, done, aborted;
  volatile int ch[MAXCH];
};
static Shared* gSh = nullptr;            // of this worker
static std::unordered_set<uint64_t>* gStates;
static std::unordered_set<uint64_t>* gOutcomes;
static std::map<std::string, uint64_t>* gOutcomeNames;
static std::set<std::string> gKnown;
static std::map<std::string, uint64_t> gKnownHits;

int Ctx::choose(int n)
{
  if (n <= 0) { fprintf(stderr, "vx: choose(%d)\n", n); _exit(99); }
  if (mPeriod && mRound >= 0 && mRound < mLassoLen)
  {
    if (mRound == 0) return 0;
    if (mRound > mPeriod) { auto& w = mWord[1 + (mRound - 1) % mPeriod]; return mDraw < w.size() ? w[mDraw++] % n : 0; }
    int v = draw(n); mWord[mRound].push_back(v); return v;
  }
  return draw(n);
}
int Ctx::draw(int n)
{
  int c;
  if (mPos < mChoices.size())
  {
    c = mChoices[mPos];
    if (mReplay) { if (mPos < mRadix.size()) mRadix[mPos] = n; else mRadix.push_back(n); }
    else if (mRadix[mPos] != n) { fprintf(stderr, "vx: divergence while replaying a prefix (radix %d != %d at %zu)\n", mRadix[mPos], n, mPos); _exit(98); }
    if (c < 0 || c >= n) { fprintf(stderr, "vx: choice out of range while replaying\n"); _exit(98); }
  }
  else
  {
    c = 0; mChoices.push_back(0); mRadix.push_back(n);
  }
  if (gSh && mPos < (size_t)MAXCH) { gSh->ch[mPos] = c; gSh->n = (int)mPos + 1; }
  mPos++;
  if (!mReplay && (int)mPos == mSplitDepth)
  {
    // every worker meets the same sequence of distinct prefixes; they are dealt out round robin
    std::vector<int> pre(mChoices.begin(), mChoices.begin() + mSplitDepth);
    if (pre != mLastPrefix) { mLastPrefix = pre; mPrefixCounter++; }
    mOwned = (mPrefixCounter % mWorkers) == (uint64_t)mWorker;
    if (!mOwned) throw SkipExec();
  }
  return c;
}
void Ctx::step(uint64_t n) { if (gSh) gSh->steps += n; }
void Ctx::validated(uint64_t n) { if (gSh) gSh->validated += n; }
void Ctx::state(uint64_t h) { if (gStates) gStates->insert(Hasher().i(mScenario).u(h).h); }
void Ctx::outcome(const std::string& o) { if (gOutcomeNames) (*gOutcomeNames)[o]++; }
void Ctx::fail(const std::string& key, const std::string& msg)
{
  if (gKnown.count(key)) { gKnownHits[key]++; note("known finding " + key + ": " + msg); throw Known{key}; }
  throw Violation{key, msg};
}

static std::string esc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Result { bool violated = false; std::string key, msg; };

static Result runOne(const Scenario& sc, Ctx& c)
{
  Result r;
  try { sc.fn(c); }
  catch (Violation& v) { r.violated = true; r.key = v.key; r.msg = v.msg; }
  catch (Known&) { if (gSh) gSh->known++; }
  catch (SkipExec&) { throw; }
  catch (std::exception& e) { r.violated = true; r.key = "exception"; r.msg = std::string("unexpected exception: ") + e.what(); }
  return r;
}

static void writeReplay(const std::string& path, const std::string& scenario, const std::vector<int>& ch,
                        const std::string& key, const std::string& msg)
{
  std::ofstream f(path);
  f << scenario << "\n";
  for (int c : ch) f << c << " ";
  f << "\n" << key << "\n" << msg << "\n";
}

// advances to the next choice sequence; false when the space is exhausted
static bool advance(Ctx& c)
{
  while (!c.mChoices.empty())
  {
    size_t i = c.mChoices.size() - 1;
    if (++c.mChoices[i] < c.mRadix[i]) return true;
    c.mChoices.pop_back(); c.mRadix.pop_back();
  }
  return false;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

} // namespace vx
using namespace vx;

static int worker(int w, int W, bool quick, const std::vector<Scenario>& scs, const std::string& dir)
{
  int maxfail = 1, fails = 0;
  for (size_t s = 0; s < scs.size(); s++)
  {
    gSh->scenario = (int)s;
    Ctx c; c.quick = quick; c.mScenario = (int)s; c.mSplitDepth = scs[s].split; c.mWorker = w; c.mWorkers = W;
    for (;;)
    {
      c.mPos = 0; gSh->n = 0;
      c.mOwned = true;
      bool skipped = false; Result r;
      gSh->running = 1;
      // executions that never reach the split depth are run by every worker but counted by worker 0 only
      uint64_t steps0 = gSh->steps, val0 = gSh->validated;
      try { r = runOne(scs[s], c); } catch (SkipExec&) { skipped = true; }
      if (!skipped && (int)c.mPos < c.mSplitDepth && w != 0) { gSh->steps = steps0; gSh->validated = val0; skipped = true; }
      gSh->running = 0;
      if (!skipped) { gSh->execs++; if (gSh->validated == val0) gSh->validated++; }
      else { gSh->steps = steps0; gSh->validated = val0; }
      if (!skipped && r.violated)
      {
        writeReplay(dir + "/viol." + std::to_string(w) + "." + std::to_string(s), scs[s].name,
                    std::vector<int>(c.mChoices.begin(), c.mChoices.begin() + c.mPos), r.key, r.msg);
        if (++fails >= maxfail) break;
      }
      // a scenario must consume exactly its choices
      if (c.mPos < c.mChoices.size()) { c.mChoices.resize(c.mPos); c.mRadix.resize(c.mPos); }
      if (!advance(c)) break;
    }
    if (fails >= maxfail) break;
  }
  std::ofstream f(dir + "/states." + std::to_string(w), std::ios::binary);
  for (uint64_t h : *gStates) f.write((const char*)&h, 8);
  f.close();
  std::ofstream o(dir + "/outcomes." + std::to_string(w));
  for (auto& p : *gOutcomeNames) o << p.second << " " << p.first << "\n";
  o.close();
  std::ofstream k(dir + "/known." + std::to_string(w));
  for (auto& p : gKnownHits) k << p.second << " " << p.first << "\n";
  k.close();
  gSh->done = 1;
  return 0;
}

static bool parseReplay(const std::string& path, std::string& sc, std::vector<int>& ch)
{
  std::ifstream f(path); if (!f) return false;
  std::string line; if (!std::getline(f, sc)) return false;
  std::getline(f, line); std::istringstream is(line); int v; while (is >> v) ch.push_back(v);
  return true;
}

// runs one choice list in a child with a time limit. returns 0 ok, 1 violation, 2 crash, 3 hang, 4 known
static int replayChild(const std::vector<Scenario>& scs, int s, const std::vector<int>& ch, bool quick, int limit,
                       const std::string& outPath, bool trace)
{
  pid_t p = fork();
  if (p == 0)
  {
    gSh = nullptr;
    Ctx c; c.quick = quick; c.mReplay = true; c.mChoices = ch; c.mScenario = s; c.mTrace = trace;
    std::ofstream f(outPath);
    Result r = runOne(scs[s], c);
    bool known = false;
    for (auto& n : c.mNotes) f << n << "\n";
    if (r.violated) f << "VIOLATED " << r.key << ": " << r.msg << "\n";
    f.close();
    _exit(r.violated ? 1 : known ? 4 : 0);
  }
  double t0 = now(); int st;
  for (;;)
  {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 3; }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
  return 2;
}

int main(int argc, char** argv)
{
  bool quick = true; std::string dir, replay, only; int W = 8; int hang = 60;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--tier") quick = std::string(argv[++i]) != "thorough";
    else if (a == "--dir") dir = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--workers") W = atoi(argv[++i]);
    else if (a == "--known") gKnown.insert(argv[++i]);
    else if (a == "--only") only = argv[++i];
  }
  std::vector<Scenario> scs = vx_scenarios();
  if (!only.empty()) { std::vector<Scenario> k; for (auto& s : scs) if (only == s.name) k.push_back(s); scs = k; }

  // the code under test may print; keep our own stdout clean
  if (!replay.empty())
  {
    std::string sc; std::vector<int> ch;
    if (!parseReplay(replay, sc, ch)) { fprintf(stderr, "cannot read replay\n"); return 97; }
    int s = -1; for (size_t i = 0; i < scs.size(); i++) if (sc == scs[i].name) s = (int)i;
    if (s < 0) { fprintf(stderr, "no such scenario\n"); return 97; }
    std::string o = replay + ".out";
    int rc = replayChild(scs, s, ch, quick, 120, o, true);
    std::ifstream f(o); std::cout << f.rdbuf();
    printf("replay result: %s\n", rc == 0 ? "no violation" : rc == 1 ? "violation" : rc == 3 ? "hang" : rc == 2 ? "crash" : "known");
    return rc ? 1 : 0;
  }

  std::vector<Shared*> sh(W);
  std::vector<pid_t> pid(W);
  double t0 = now();
  for (int w = 0; w < W; w++)
  {
    sh[w] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout); fflush(stderr);
    pid[w] = fork();
    if (pid[w] == 0)
    {
      gSh = sh[w]; gStates = new std::unordered_set<uint64_t>; gOutcomeNames = new std::map<std::string, uint64_t>;
      int fd = open((dir + "/stderr." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      // the library logs a line per rejected message: keep only the last part of what is written
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1); (void)fd; dup2(fd, 2);
      // std::cerr of the library is silenced (it would fill the disk); the sanitizer still writes to fd 2
      std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); std::clog.rdbuf(nullptr);
      _exit(worker(w, W, quick, scs, dir));
    }
  }
  struct Cand { int s; std::vector<int> ch; std::string key, msg, kind; };
  std::vector<Cand> cands;
  std::vector<bool> fin(W, false);
  std::vector<uint64_t> last(W, ~0ull); std::vector<double> lastT(W, t0);
  std::vector<std::vector<int>> lastCh(W);
  int left = W; bool harnessError = false; std::string herr;
  while (left)
  {
    usleep(5000);
    for (int w = 0; w < W; w++) if (!fin[w])
    {
      int st; pid_t q = waitpid(pid[w], &st, WNOHANG);
      bool crashed = false, hung = false;
      if (q == pid[w])
      {
        fin[w] = true; left--;
        if (sh[w]->done) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 97) { harnessError = true; herr = "worker exit " + std::to_string(WEXITSTATUS(st)); continue; }
        crashed = true;
      }
      else
      {
        uint64_t p = sh[w]->execs * 1000003 + sh[w]->steps + sh[w]->scenario + sh[w]->n;
        if (p != last[w] || !sh[w]->running) { last[w] = p; lastT[w] = now(); }
        else if (now() - lastT[w] > hang)
        { hung = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); fin[w] = true; left--; }
      }
      if (crashed || hung)
      {
        Cand c; c.s = sh[w]->scenario; c.kind = crashed ? "crash" : "hang";
        for (int i = 0; i < sh[w]->n; i++) c.ch.push_back((int)sh[w]->ch[i]);
        c.key = c.kind; c.msg = c.kind + std::string(" in the code under test");
        cands.push_back(c);
      }
    }
    // stop early once a violation is known: the others cannot change the verdict
    bool any = !cands.empty();
    for (int w = 0; w < W && !any; w++) for (size_t s = 0; s < scs.size() && !any; s++)
      any = access((dir + "/viol." + std::to_string(w) + "." + std::to_string(s)).c_str(), R_OK) == 0;
    if (any && left) { usleep(1500000); for (int w = 0; w < W; w++) if (!fin[w]) { int st; if (waitpid(pid[w], &st, WNOHANG) != pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); } } left = 0; }
  }
  for (int w = 0; w < W; w++) for (size_t s = 0; s < scs.size(); s++)
  {
    std::string p = dir + "/viol." + std::to_string(w) + "." + std::to_string(s);
    std::string sc; Cand c; if (!parseReplay(p, sc, c.ch)) continue;
    std::ifstream f(p); std::string l; std::getline(f, l); std::getline(f, l); std::getline(f, c.key); std::getline(f, c.msg);
    c.s = (int)s; c.kind = "violation"; cands.push_back(c);
  }
  uint64_t execs = 0, steps = 0, val = 0, known = 0;
  for (int w = 0; w < W; w++) { execs += sh[w]->execs; steps += sh[w]->steps; val += sh[w]->validated; known += sh[w]->known; }
  std::unordered_set<uint64_t> all; std::map<std::string, uint64_t> outs, knowns;
  for (int w = 0; w < W; w++)
  {
    std::ifstream f(dir + "/states." + std::to_string(w), std::ios::binary); uint64_t h;
    while (f.read((char*)&h, 8)) all.insert(h);
    auto rd = [&](const char* n, std::map<std::string, uint64_t>& m) {
      std::ifstream g(dir + "/" + n + "." + std::to_string(w)); uint64_t k; std::string s;
      while (g >> k) { g.get(); std::getline(g, s); m[s] += k; } };
    rd("outcomes", outs); rd("known", knowns);
  }
  double explore = now() - t0;

  // samples: traced re-executions of each scenario (first execution, and a mid-space one)
  std::vector<std::string> samples;
  for (size_t s = 0; s < scs.size() && cands.empty() && !harnessError; s++)
  {
    for (int variant = 0; variant < 2; variant++)
    {
      std::string o = dir + "/sample";
      pid_t p = fork();
      if (p == 0)
      {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
        gSh = nullptr;
        Ctx c; c.quick = quick; c.mTrace = true; c.mScenario = (int)s; c.mReplay = false;
        // variant 1: walk the space with a fixed stride using the radices met on the way
        if (variant == 0) runOne(scs[s], c);
        else
        {
          for (int d = 0; d < 4096; d++)
          {
            Ctx e; e.quick = quick; e.mTrace = true; e.mReplay = true; e.mScenario = (int)s; e.mChoices = c.mChoices; e.mRadix = c.mRadix;
            try { runOne(scs[s], e); } catch (...) {}
            if ((size_t)d >= e.mPos) { c = e; break; }
            c.mChoices.assign(e.mChoices.begin(), e.mChoices.begin() + d);
            c.mChoices.push_back((e.mRadix[d] * 2) / 3); c.mRadix.clear();
            c.mNotes = e.mNotes;
          }
        }
        std::ofstream f(o); f << scs[s].name << ":";
        for (auto& n : c.mNotes) { f << " " << n << ";"; }
        f.close(); _exit(0);
      }
      int st; waitpid(p, &st, 0);
      std::ifstream f(o); std::string l; std::getline(f, l); if (l.size() > 900) l = l.substr(0, 900) + "...";
      if (!l.empty()) samples.push_back(l);
    }
  }

  // pick the shortest candidate and replay it before reporting
  std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.ch.size() < b.ch.size(); });
  std::string rep; bool confirmed = false; std::string rkey, rmsg, rsc, rtext; std::vector<int> rch;
  for (size_t i = 0; i < cands.size() && !confirmed; i++)
  {
    Cand& c = cands[i];
    for (int attempt = 0; attempt < 3 && !confirmed; attempt++)
    {
      int rc = replayChild(scs, c.s, c.ch, quick, c.kind == "hang" ? 180 : 120, dir + "/replay.out", true);
      if (rc != 0)
      {
        confirmed = true; rkey = c.key; rmsg = c.msg; rsc = scs[c.s].name; rch = c.ch;
        std::ifstream f(dir + "/replay.out"); std::stringstream ss; ss << f.rdbuf(); rtext = ss.str();
        if (rc == 2) rtext += "\n(crash or sanitizer report in the code under test)";
        if (rc == 3) rtext += "\n(no progress: hang)";
      }
    }
  }
  if (!cands.empty() && !confirmed && cands[0].kind == "violation")
  {
    // the code under test answered differently for the same history: report it, marked as such
    confirmed = true; rkey = cands[0].key; rmsg = cands[0].msg + " (not reproduced on replay: the code's answer is not a function of its inputs)"; rsc = scs[cands[0].s].name; rch = cands[0].ch;
  }
  std::ofstream j(dir + "/result.json");
  j << "{\"execs\":" << execs << ",\"steps\":" << steps << ",\"validated\":" << val << ",\"states\":" << all.size()
    << ",\"explore_s\":" << explore << ",\"harness_error\":\"" << esc(herr) << "\",\"unconfirmed\":" << (cands.size() && !confirmed ? 1 : 0)
    << ",\"violated\":" << (confirmed ? "true" : "false") << ",\"key\":\"" << esc(rkey) << "\",\"msg\":\"" << esc(rmsg)
    << "\",\"scenario\":\"" << esc(rsc) << "\",\"trace\":\"" << esc(rtext) << "\",\"choices\":[";
  for (size_t i = 0; i < rch.size(); i++) j << (i ? "," : "") << rch[i];
  j << "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) j << (i ? "," : "") << "\"" << esc(samples[i]) << "\"";
  j << "],\"outcomes\":{";
  { bool first = true; for (auto& p : outs) { j << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; } }
  j << "},\"known\":{";
  { bool first = true; for (auto& p : knowns) { j << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; } }
  j << "},\"scenarios\":[";
  for (size_t i = 0; i < scs.size(); i++) j << (i ? "," : "") << "\"" << scs[i].name << "\"";
  j << "]}\n";
  j.close();
  return harnessError ? 97 : confirmed ? 1 : 0;
}
