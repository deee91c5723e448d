// C03 shifting all timestamps changes nothing
#include "client_util.h"
using namespace cl;
const char* VX_PROPERTY = "C03";
namespace {
struct A { Ev e; long long dt; };
const std::vector<A>& alphabet()
{
  static const std::vector<A> v{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"e", -60}, {"f", -86}, {"g", -74}}), 1100}, {heard("b", -64), 450}, {fixEv("fix", 22, 8, 6), 700}, {fixEv("fix2", 31, 12, 4), 1300}, {walk(20), 40}, {one("azimuth", mSensor(0, ST::ORIENTATION, 0.5, 0.1, 0.2)), 300}, {heard("a", -66), 5700}, {one("nmea", mNmea(0, 1, 3)), 21000} };
  return v;
}
// wall-clock times; some bases place the log across a power of two
const std::vector<long long>& bases() { static const std::vector<long long> v{1000000000LL, (1LL << 31) - 1500, (1LL << 32) - 1500, (1LL << 33) + 7, 1600000000001LL, 1LL << 41, 4102444800123LL}; return v; }
Run run(int k, const std::vector<int>& ev, long long t0, std::string* h)
{
  Run r; auto c = client(k); long long t = t0; feed(*c, prime(t), r);
  for (int i : ev) { auto& a = alphabet()[i]; t += a.dt; auto m = shifted(a.e.m, t); if (h) *h += fmt(" %s@%lld", a.e.name.c_str(), t - t0); feed(*c, m, r); t = m.back().ts; } return r;
}
void compare(Ctx& c, int k, const std::vector<int>& ev)
{
  std::string h = std::string(configs()[k].name) + ":"; Run want = run(k, ev, 1600000000000LL, &h); c.step(want.out.size()); for (auto& o : want.out) c.state(hash(o)); c.outcome(std::string(configs()[k].name) + " " + src(want.out.back())); c.note(h + " -> " + show(want.out.back()));
  for (long long b : bases()) { Run r = run(k, ev, b, nullptr); c.step(r.out.size()); auto d = diff(r, want, 1e-9); c.check(d.empty(), "time-origin", h + fmt(" starting at %lld instead of 1600000000000: ", b) + d); }
}
void histories(Ctx& c) { int k = c.choose(6); std::vector<int> ev; for (int i = 0; i < c.rounds(4, 5, i); i++) ev.push_back(c.choose((int)alphabet().size())); compare(c, k, ev); }
// pressure windows and floors
void barometer(Ctx& c)
{
  static const double P[] = {1013, 1011.5}; std::vector<int> ps, fs; int n = c.tier(3, 4); std::string h = "barometer log:"; for (int i = 0; i < n; i++) { ps.push_back(c.choose(2)); fs.push_back(c.choose(2)); h += fmt(" %g/%s", P[ps[i]], fs[i] ? "e" : "a"); }
  auto go = [&](long long t) { Run r; auto cl = client(3); std::vector<Measurement> m = prime(t); for (int b = 0; b < n; b++) for (int i = 0; i < 120; i++) { t += 50; m.push_back(mSensor(t, ST::BAROMETER, P[ps[b]], 0, 0)); if (i % 21 == 20) m.push_back(mRadio(t, fs[b] ? "e" : "a", -55)); } feed(*cl, m, r); return r; };
  Run want = go(1600000000000LL); c.step(want.out.size()); c.outcome("barometer " + want.out.back().posLevel.value); c.state(hash(want.out.back())); c.note(h);
  for (long long b : bases()) { Run r = go(b); c.step(r.out.size()); auto d = diff(r, want, 1e-9); c.check(d.empty(), "time-origin", h + fmt(" starting at %lld: ", b) + d); }
}
// long walks: steps, standstill and orientation
void walks(Ctx& c)
{
  int k = c.choose(6), n = c.tier(3, 4); std::vector<int> s; std::string h = std::string(configs()[k].name) + " walk:"; for (int i = 0; i < n; i++) { s.push_back(c.choose(4)); h += fmt(" %d", s.back()); }
  auto go = [&](long long t) { Run r; auto cl = client(k); std::vector<Measurement> m = prime(t); for (int x : s) { if (x == 0) { auto w = shifted(walk(50).m, t + 40); m.insert(m.end(), w.begin(), w.end()); } else if (x == 1) { for (int i = 0; i < 60; i++) m.push_back(mSensor(t + 40 + 50 * i, i % 3 == 0 ? ST::ACCELEROMETER : i % 3 == 1 ? ST::GYROSCOPE : ST::MAGNETOMETER, 0.1 + i % 3 * 0.2, -0.3, 9.7)); } else if (x == 2) m.push_back(mRadio(t + 2600, "a", -57)); else m.push_back(mRadio(t + 900, "b", -63)); t = m.back().ts; m.push_back(mRadio(t, "a", -59)); } feed(*cl, m, r); return r; };
  Run want = go(1600000000000LL); c.step(want.out.size()); c.outcome(std::string("walk ") + src(want.out.back())); for (auto& o : want.out) c.state(hash(o)); c.note(h);
  for (long long b : bases()) { Run r = go(b); c.step(r.out.size()); auto d = diff(r, want, 1e-9); c.check(d.empty(), "time-origin", h + fmt(" starting at %lld: ", b) + d); }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"histories", histories, 3}, {"barometer", barometer, 3}, {"walks", walks, 3}, {"histories_lasso", lasso<histories, 300, 50, 2>, 4} }; }
