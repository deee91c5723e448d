// C02 clients are independent of each other and of the contents of memory
#include "client_util.h"
#include <new>
#include <atomic>
#include <alloca.h>
using namespace cl;
const char* VX_PROPERTY = "C02";
// fresh and freed heap memory is filled with a pattern; the stack below a call as well
static unsigned char gFill = 0;
static void* filled(size_t n) { char* p = (char*)malloc(n + 16); if (!p) throw std::bad_alloc(); *(size_t*)p = n; memset(p + 16, gFill, n); return p + 16; }
static void dropped(void* q) { if (!q) return; char* p = (char*)q - 16; memset(q, gFill, *(size_t*)p); free(p); }
void* operator new(size_t n) { return filled(n); }
void* operator new[](size_t n) { return filled(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return filled(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return filled(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dropped(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dropped(p); }
void operator delete(void* p) noexcept { dropped(p); }
void operator delete[](void* p) noexcept { dropped(p); }
void operator delete(void* p, size_t) noexcept { dropped(p); }
void operator delete[](void* p, size_t) noexcept { dropped(p); }
namespace {
__attribute__((noinline)) void dirtyStack() { volatile char* p = (volatile char*)alloca(24000); memset((void*)p, gFill, 24000); asm volatile("" ::"r"(p) : "memory"); }
const long long T0 = 1600000000000LL;
struct A { Ev e; long long dt; };
const std::vector<A>& alphabet()
{
  static const std::vector<A> v{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"e", -60}, {"f", -86}, {"g", -74}}), 1100}, {fixEv("fix", 22, 8, 6), 700}, {walk(20), 40}, {one("azimuth", mSensor(0, ST::ORIENTATION, 0.5, 0.1, 0.2)), 300}, {heard("a", -66), 6000}, {fixEv("outside", 120, 8, 6), 100}, {one("nmea", mNmea(0, 1, 3)), 10} };
  return v;
}
typedef std::vector<std::vector<Measurement>> Calls;
Calls calls(const std::vector<int>& ev, std::string& h, long long t = T0)
{ Calls r{prime(t)}; for (int i : ev) { auto& a = alphabet()[i]; t += a.dt; r.push_back(shifted(a.e.m, t)); t = r.back().back().ts; h += " " + a.e.name; } return r; }
std::shared_ptr<NavigationClient> fresh(int k, unsigned char fill) { gFill = fill; dirtyStack(); return client(k); }
void feedF(NavigationClient& c, const std::vector<Measurement>& m, Run& r, unsigned char fill) { gFill = fill; dirtyStack(); feed(c, m, r); }
Run solo(int k, const Calls& m, unsigned char fill) { Run r; auto c = fresh(k, fill); for (auto& x : m) feedF(*c, x, r, fill); return r; }
const std::vector<std::vector<int>>& others() { static const std::vector<std::vector<int>> v{{1, 1}, {2, 0}, {3, 4}, {5, 6}, {0, 2}, {7, 1}}; return v; }
// all interleavings of the calls of two clients on one map; creation and destruction are calls as well
void interleave(Ctx& c)
{
  int k = c.choose(6), l = c.quick ? (k + c.pick(std::vector<int>{0, 1, 3})) % 6 : c.choose(6); std::vector<int> ev; int n = c.tier(2, 3); for (int i = 0; i < n; i++) ev.push_back(c.choose((int)alphabet().size())); auto& ov = c.pick(others());
  std::string ha, hb; Calls a = calls(ev, ha), b = calls(ov, hb, T0 + 5000); Run wa = solo(k, a, 0), wb = solo(l, b, 0); std::string h = std::string(configs()[k].name) + ":" + ha + " | " + configs()[l].name + ":" + hb; c.step(a.size() + b.size());
  for (auto& o : wa.out) c.state(hash(o)); c.outcome(std::string(configs()[k].name) + " " + src(wa.out.back())); c.note(h);
  int na = (int)a.size() + 1, nb = (int)b.size() + 2;   // create a, calls of a; create b, calls of b, destroy b
  for (int mask = 0; mask < 1 << (na + nb); mask++)
  {
    if (__builtin_popcount(mask) != na) continue; std::shared_ptr<NavigationClient> A, B; Run ra, rb; int i = 0, j = 0; std::string o;
    for (int s = 0; s < na + nb; s++)
      if (mask >> s & 1) { o += 'A'; if (i == 0) A = client(k); else feed(*A, a[i - 1], ra); i++; }
      else { o += 'B'; if (j == 0) B = client(l); else if (j <= (int)b.size()) feed(*B, b[j - 1], rb); else B.reset(); j++; }
    c.step(na + nb); auto d = diff(ra, wa); c.check(d.empty(), "interleaved", h + " in the order " + o + ": first client: " + d); d = diff(rb, wb); c.check(d.empty(), "interleaved", h + " in the order " + o + ": second client: " + d);
  }
}
// long blocks of equal messages (votes for a floor, pressure samples, steps, fixes) of two clients, interleaved block by block
const std::vector<A>& blocks()
{
  static const std::vector<A> v = [] {
    auto rep = [](const char* n, int k, long long dt, std::function<Measurement(int)> f) { Ev e; e.name = fmt("%s#%d", n, k); for (int i = 0; i < k; i++) { auto m = f(i); m.ts = i * dt; e.m.push_back(m); } return A{e, dt}; };
    auto l1 = [](int i) { return mRadio(0, "a", -58 - i % 3); }; auto l2 = [](int i) { return mRadio(0, "e", -58 - i % 3); };
    return std::vector<A>{rep("L1", 2, 1100, l1), rep("L2", 4, 1100, l2), rep("L1", 6, 1100, l1), rep("fix", 3, 900, [](int i) { return fix(0, 22 + i, 8, 6); }), rep("pressure", 110, 20, [](int i) { return mSensor(0, ST::BAROMETER, 1000 - 0.01 * i, 0, 0); }), {walk(40), 40}}; }();
  return v;
}
void floors(Ctx& c)
{
  static const int K[] = {0, 5, 3, 2}; int k = K[c.choose(4)], l = K[c.choose(4)]; std::string ha, hb; Calls a, b; long long t = T0, u = T0 + 300; a.push_back(prime(t)); b.push_back(prime(u));
  auto add = [](Calls& q, long long& now, int i, std::string& h) { auto& x = blocks()[i]; q.push_back(shifted(x.e.m, now + x.dt)); now = q.back().back().ts; h += " " + x.e.name; };
  for (int i = 0; i < c.tier(2, 3); i++) add(a, t, c.choose((int)blocks().size()), ha); static const std::vector<std::vector<int>> O{{1, 1}, {4, 5}, {3, 2}, {2, 1}}; for (int i : c.pick(O)) add(b, u, i, hb);
  Run wa = solo(k, a, 0), wb = solo(l, b, 0); std::string h = std::string(configs()[k].name) + ":" + ha + " | " + configs()[l].name + ":" + hb; c.outcome(std::string("blocks ") + configs()[k].name + " " + src(wa.out.back())); c.note(h); for (auto& o : wa.out) c.state(hash(o));
  int na = (int)a.size(), nb = (int)b.size();
  for (int mask = 0; mask < 1 << (na + nb); mask++)
  {
    if (__builtin_popcount(mask) != na) continue; auto A = client(k), B = client(l); Run ra, rb; int i = 0, j = 0; std::string o; for (int s = 0; s < na + nb; s++) if (mask >> s & 1) { o += 'A'; feed(*A, a[i++], ra); } else { o += 'B'; feed(*B, b[j++], rb); }
    c.step(na + nb); auto d = diff(ra, wa); c.check(d.empty(), "interleaved", h + " in the order " + o + ": first client: " + d); d = diff(rb, wb); c.check(d.empty(), "interleaved", h + " in the order " + o + ": second client: " + d);
  }
}
// the same history with different contents of fresh memory and after other clients
void memory(Ctx& c)
{
  int k = c.choose(6); std::vector<int> ev; for (int i = 0; i < c.rounds(4, 5, i); i++) ev.push_back(c.choose((int)alphabet().size())); std::string h = std::string(configs()[k].name) + ":"; Calls m = calls(ev, h); Run want = solo(k, m, 0); c.step(m.size());
  for (auto& o : want.out) c.state(hash(o)); c.outcome(std::string("memory ") + configs()[k].name + " " + src(want.out.back())); c.note(h);
  for (unsigned char f : {0xff, 0x41, 0x01}) { Run r = solo(k, m, f); c.step(m.size()); auto d = diff(r, want); c.check(d.empty(), "memory", h + fmt(" with memory filled with %02x: ", f) + d); }
}
// clients on different maps which share the ids of levels, transmitters and reference points: against runs on maps whose ids were never used before
LevelSpec variant(int v, int lev, const std::string& sfx)
{
  const char* n[] = {"L1", "L2"}; GeoPoint b = v == 2 ? geo(4, -3) : BIND; double dx = v == 1 ? 3 : 0, dy = v == 1 ? -2 : 0, A = v == 0 ? -60 : v == 1 ? -66 : -57, B = v == 1 ? 2.5 : v == 2 ? 3.5 : 3; auto id = [&](const char* q) { return std::string(q) + sfx; };
  auto tx = [&](LevelSpec& l, const char* q, double x, double y, double z) { l.tx(id(q), x + dx, y + dy, z + v, A, B); };
  if (lev == 0)
  {
    LevelSpec a(id(n[v == 1]), {Poly{rect(0, 0, 40 + 2 * v, 30 - v), {rect(18 + v, 12, 22 + v, 16)}}}, b); tx(a, "a", 5, 5, 3); tx(a, "b", 35, 5, 2.5); tx(a, "c", 20, 25, 3.5); if (v == 2) tx(a, "e", 12, 14, 2);
    auto r = [&](const char* q, double x, double y, double s, double t, double u) { a.rp(id(q), x + dx, y + dy, {{id("a"), s - 2 * v}, {id("b"), t + v}, {id("c"), u}}); };
    const char* q[] = {"r1", "r2", "r3", "r4"}; auto p = [&](int i) { return q[(i + v) % 4]; }; r(p(0), 4, 6, -55, -85, -80); r(p(1), 33, 7, -88, -56, -79); r(p(2), 19, 27, -78, -81, -54); r(p(3), 21, 9, -70, -72, -73); a.graph({{2, 10.0 + v}, {38, 10.0 + v}, {38.0 - v, 27}}, {{0, 1}, {1, 2}}); return a;
  }
  LevelSpec a(id(n[v != 1]), {Poly{rect(8, -5 + v, 50, 20 + v), {}}}, b); tx(a, v == 2 ? "a2" : "e", 15, 0, 2); tx(a, "f", 45, 15, 3); tx(a, "g", 31, 12, 2.5);
  auto r = [&](const char* q, double x, double y, double s, double t, double u) { a.rp(id(q), x + dx, y + dy + v, {{id("e"), s + 3 * v}, {id("f"), t}, {id("g"), u - v}}); };
  r(v == 2 ? "r1" : "q1", 14, 1, -57, -90, -75); r("q2", 46, 13, -91, -54, -76); r("q3", 32, 13, -77, -70, -52); r(v == 0 ? "q4" : "q0", 16, 16, -66, -84, -69); a.graph({{12, 3.0 + v}, {28, 3.0 + v}, {28.0 + v, 17}}, {{0, 1}, {1, 2}}); return a;
}
struct World { std::shared_ptr<LevelCollector> map; NavigationSettings set; };
World world(int v, int k, const std::string& sfx)
{
  std::vector<LevelSpec> l{variant(v, v == 1, sfx), variant(v, v != 1, sfx)}; World w{collector(l), settings(l, -60 - v, 3)}; configs()[k].f(w.set.commonSettings);
  int i = 0; for (auto& q : l) { auto& s = w.set.levelsSettings[q.id]; s.normalModeA = -60 - v - i; s.normalModeB = 3 + 0.2 * v; i++; } return w;
}
Calls renamed(const Calls& m, const std::string& sfx)
{ Calls r = m; for (auto& q : r) for (auto& x : q) if (auto* d = boost::get<RadioMeasurementData>(&x.data)) d->id = TransmitterId(d->id.value + sfx); return r; }
void maps(Ctx& c)
{
  static int unique = 0; int k = c.choose(6), l = c.quick ? (k + c.pick(std::vector<int>{0, 1, 3})) % 6 : c.choose(6), va = c.choose(3), vb = (va + 1 + c.choose(2)) % 3; std::vector<int> ev; int n = c.tier(2, 3); for (int i = 0; i < n; i++) ev.push_back(c.choose(6)); auto& ov = c.pick(others());
  if (c.quick && (vb + ov[0] + ev[0]) % 3) throw SkipExec();
  std::string ha, hb; Calls a = calls(ev, ha), b = calls(ov, hb, T0 + 5000); std::string h = fmt("map %d %s:", va, configs()[k].name) + ha + fmt(" | map %d %s:", vb, configs()[l].name) + hb; c.note(h);
  auto strip = [](Run r, size_t n) { for (auto& o : r.out) if (o.posLevel.value.size() > n) o.posLevel = LevelId(o.posLevel.value.substr(0, o.posLevel.value.size() - n)); return r; };
  auto reference = [&](int v, int q, const Calls& m) { std::string sfx = fmt("#%09d", unique++); World w = world(v, q, sfx); auto cl = createNavigationClient(w.map, w.set); Run r; for (auto& x : renamed(m, sfx)) feed(*cl, x, r); return strip(r, sfx.size()); };
  Run wa = reference(va, k, a), wb = reference(vb, l, b); c.step(a.size() + b.size()); for (auto& o : wa.out) c.state(hash(o)); c.outcome(std::string("maps ") + configs()[k].name + " " + src(wa.out.back()));
  auto cmp = [&](const char* how, const Run& ra, const Run& rb) { auto d = diff(ra, wa, 1e-9); c.check(d.empty(), "maps", h + " " + how + ": first client: " + d); d = diff(rb, wb, 1e-9); c.check(d.empty(), "maps", h + " " + how + ": second client: " + d); };
  auto all = [](const World& w, const Calls& m) { Run r; auto cl = createNavigationClient(w.map, w.set); for (auto& x : m) feed(*cl, x, r); return r; };
  { World A = world(va, k, ""), B = world(vb, l, ""); Run ra, rb; auto ca = createNavigationClient(A.map, A.set), cb = createNavigationClient(B.map, B.set); for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { if (i < a.size()) feed(*ca, a[i], ra); if (i < b.size()) feed(*cb, b[i], rb); } cmp("alternating", ra, rb); }
  { Run ra, rb; { World A = world(va, k, ""); ra = all(A, a); } { World B = world(vb, l, ""); rb = all(B, b); } cmp("one after the other", ra, rb); }
  { World B = world(vb, l, ""), A = world(va, k, ""); Run rb = all(B, b), ra = all(A, a); cmp("the second before the first", ra, rb); }
  c.step(3 * (a.size() + b.size()));
}
// a map is not changed by navigating on it
void map_unchanged(Ctx& c)
{
  auto dump = [] { std::string s; for (auto& l : map()->levels()) { s += l.id().value + ""; for (auto id : {"a", "b", "c", "w", "e", "f", "g"}) if (l.containsTransmitter(TransmitterId(id))) { auto t = l.transmitter(TransmitterId(id)); s += fmt(" %s %.9f %.9f %.9f", t.id.value.c_str(), t.point.x, t.point.y, t.point.z); } for (auto& r : l.radiomap().referencePoints()) { s += fmt(" %s %.9f %.9f", r.id.value.c_str(), r.point.x, r.point.y); for (auto& q : r.fingerprints) s += fmt(" %s=%g", q.first.value.c_str(), q.second.mean); } for (auto it = l.graph().edgesBegin(); it != l.graph().edgesEnd(); ++it) s += fmt(" %d-%d", it->first, it->second); } return s; };
  std::string before = dump(), h; int k = c.choose(6); std::vector<int> ev; for (int i = 0; i < 3; i++) ev.push_back(c.choose((int)alphabet().size())); Calls m = calls(ev, h); Run r = solo(k, m, 0); c.step(m.size()); c.check(dump() == before, "map", std::string(configs()[k].name) + ":" + h + ": the map has changed"); c.outcome("map"); c.state(Hasher().s(before).h);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"interleave", interleave, 3}, {"floors", floors, 3}, {"memory", memory, 3}, {"maps", maps, 3}, {"map_unchanged", map_unchanged, 3}, {"memory_lasso", lasso<memory, 300, 30, 1>, 4} }; }
