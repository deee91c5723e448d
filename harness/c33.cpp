// C33 clients in different threads on one map: no conflicting access, so every schedule gives the results of the sequential one
#include "client_util.h"
#include <thread>
#include <atomic>
using namespace cl;
const char* VX_PROPERTY = "C33";
namespace {
const long long T0 = 1600000000000LL;
struct A { Ev e; long long dt; };
const std::vector<A>& alphabet()
{
  static const std::vector<A> v{ {scan({{"a", -58}, {"b", -82}, {"c", -78}, {"w", -70}}), 1100}, {scan({{"e", -60}, {"f", -86}, {"g", -74}}), 1100}, {fixEv("fix", 22, 8, 6), 700}, {walk(30), 40}, {fixEv("outside", 120, 8, 6), 100}, {scan({{"b", -50}, {"zz", -50}}), 2100}, {one("azimuth", mSensor(0, ST::ORIENTATION, 0.5, 0.1, 0.2)), 300}, {one("baro", mSensor(0, ST::BAROMETER, 1000, 0, 0)), 300} };
  return v;
}
typedef std::vector<std::vector<Measurement>> Calls;
Calls calls(const std::vector<int>& ev, std::string& h)
{ long long t = T0; Calls r{prime(t)}; for (int i : ev) { auto& a = alphabet()[i]; t += a.dt; r.push_back(shifted(a.e.m, t)); t = r.back().back().ts; h += " " + a.e.name; } return r; }
// each thread has a reference count of its own: the atomic operations on a common one would order the threads and hide conflicts
std::shared_ptr<LevelCollector> alias(const std::shared_ptr<LevelCollector>& m) { return std::shared_ptr<LevelCollector>(m.get(), [](LevelCollector*) {}); }
Run life(int k, const Calls& m, const std::shared_ptr<LevelCollector>& map) { Run r; auto c = createNavigationClient(map, settingsOf(k)); for (auto& x : m) feed(*c, x, r); auto d = createNavigationClient(map, settingsOf(k)); d->navigate(m.back()); return r; }
// two threads, each creating, using and destroying clients without any synchronisation with the other
void together(Ctx& c)
{
  int k = c.choose(6), l = c.choose(6); if (l < k) throw SkipExec(); std::string ha, hb; std::vector<int> ea, eb; int n = c.tier(2, 3), N = (int)alphabet().size();
  for (int i = 0; i < n; i++) ea.push_back(c.choose(N)); if (c.quick) { int r = c.choose(4); for (int i = 0; i < n; i++) eb.push_back((ea[i] * (i + 1) + r * 2) % N); } else { eb.push_back(c.choose(N)); eb.push_back(c.choose(3)); eb.push_back((eb[0] + ea[0]) % N); }
  Calls a = calls(ea, ha), b = calls(eb, hb); std::string h = std::string(configs()[k].name) + ":" + ha + " | " + configs()[l].name + ":" + hb; c.note(h);
  settingsOf(k); settingsOf(l); auto shared = map(), s1 = alias(shared), s2 = alias(shared); Run ra, rb;
  std::thread t1([&] { ra = life(k, a, s1); }), t2([&] { rb = life(l, b, s2); }); t1.join(); t2.join();
  c.step(a.size() + b.size() + 2); Run wa = life(k, a, shared), wb = life(l, b, shared);
  auto d = diff(ra, wa); c.check(d.empty(), "threads", h + ": first client: " + d); d = diff(rb, wb); c.check(d.empty(), "threads", h + ": second client: " + d);
  for (auto& o : ra.out) c.state(hash(o)); c.outcome(std::string(configs()[k].name) + " " + src(ra.out.back()) + " | " + src(rb.out.back()));
}
// two threads, each building and reading its own map and reading the shared one
void maps(Ctx& c)
{
  int k = c.choose(6), e = c.choose((int)alphabet().size()), f = c.choose((int)alphabet().size()); std::string h; Calls a = calls({e, f}, h), b = calls({f, e}, h); settingsOf(k); auto shared = map(); specs(); Run ra, rb;
  std::thread t1([&] { auto own = collector(specs()); ra = life(k, a, own); }), t2([&] { auto own = collector(specs()); rb = life(k, b, own); for (auto& l : shared->levels()) (void)l; }); t1.join(); t2.join();
  c.step(a.size() + b.size() + 4); auto d = diff(ra, life(k, a, shared)); c.check(d.empty(), "maps", h + ": " + d); c.outcome(configs()[k].name); c.state(hash(ra.out.back())); c.note(h);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"together", together, 3}, {"maps", maps, 2} }; }
