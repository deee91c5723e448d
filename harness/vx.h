// Bounded exhaustive explorer ("stateless model checking" of sequential code).
//
// A scenario is a deterministic function of the choices it draws with Ctx::choose(n).
// The explorer enumerates *every* choice sequence by depth-first backtracking, i.e. every
// operation sequence / input / configuration / interleaving the scenario can express.
// Each run drives the real code of /repo and compares it with a reference model.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <cstdarg>
#include <sstream>
#include <iostream>
#include <fstream>

namespace vx {

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.12g", v); return b; }

struct Violation { std::string key, msg; };
struct Known     { std::string key; };
struct SkipExec  { };

struct Hasher
{
  uint64_t h = 1469598103934665603ull;
  Hasher& u(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ull; } return *this; }
  Hasher& i(long long v) { return u((uint64_t)v); }
  // doubles are hashed on a 1e-6 grid
  Hasher& d(double v) { if (!(std::fabs(v) < 1e12)) return u(std::isnan(v) ? 1 : v > 0 ? 2 : 3); return i((long long)std::llround(v * 1e6)); }
  Hasher& s(const std::string& v) { for (char c : v) { h ^= (unsigned char)c; h *= 1099511628211ull; } return u(v.size()); }
};

class Ctx
{
public:
  bool quick = true;
  int draw(int n);
  int choose(int n);                        // 0..n-1, enumerated exhaustively
  bool flip() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  int tier(int q, int t) const { return quick ? q : t; }
  // the number of rounds of a history, asked for as each round i begins; in a lasso (see Lasso) the history is long and periodic
  int rounds(int q, int t, int i) { mRound = i; mDraw = 0; return mPeriod ? mLassoLen : quick ? q : t; }
  void step(uint64_t n = 1);                // one transition of the system under test was executed and checked
  void state(uint64_t h);                   // a distinct reached (observable/model) state
  void validated(uint64_t n = 1);           // model trace(s) compared against the real code (default: 1 per execution)
  void outcome(const std::string& o);       // vacuity accounting: distinct observed outcomes
  bool tracing() const { return mTrace; }
  void note(const std::string& s) { if (mTrace) mNotes.push_back(s); }
  void fail(const std::string& key, const std::string& msg);
  void check(bool ok, const char* key, const std::string& msg) { if (!ok) fail(key, msg); }
  void near(double got, double want, double tol, const char* key, const std::string& what)
  {
    if (std::isnan(want) && std::isnan(got)) return;
    double lim = tol * std::max(1.0, std::fabs(want));
    if (!(std::fabs(got - want) <= lim)) fail(key, what + ": got " + num(got) + ", expected " + num(want));
  }
  // --- explorer internals
  bool mTrace = false;
  std::vector<std::string> mNotes;
  std::vector<int> mChoices, mRadix;
  size_t mPos = 0;
  bool mReplay = false;
  int mScenario = 0;
  int mSplitDepth = 0; uint64_t mPrefixCounter = 0; int mWorker = 0, mWorkers = 1; bool mOwned = true;
  std::vector<int> mLastPrefix;
  int mPeriod = 0, mLassoLen = 0, mRound = -1; size_t mDraw = 0; std::map<int, std::vector<int>> mWord;
};

// Long histories, explored exhaustively as lassos: in the first round every choice is the first one, the next p rounds
// are any rounds, and they are repeated until the history has its length.
struct Lasso
{
  Ctx& c;
  explicit Lasso(Ctx& c_, int len1 = 300, int len2 = 120, int periods = 2) : c(c_)
  { int p = 1 + c.choose(periods); c.mWord.clear(); c.mRound = -1; c.mLassoLen = (p == 1 ? len1 : len2) * c.tier(1, 3); c.mPeriod = p; }
  ~Lasso() { c.mPeriod = 0; }
};

typedef void (*ScenarioFn)(Ctx&);
template <ScenarioFn F, int L1 = 300, int L2 = 120, int P = 2> void lasso(Ctx& c) { Lasso l(c, L1, L2, P); F(c); }
struct Scenario { const char* name; ScenarioFn fn; int split; };

} // namespace vx

// every harness defines:
extern const char* VX_PROPERTY;
std::vector<vx::Scenario> vx_scenarios();
