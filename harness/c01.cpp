// C01 every split of a measurement stream into calls gives the same outputs
#include "client_util.h"
using namespace cl;
const char* VX_PROPERTY = "C01";
namespace {
const long long T0 = 1600000000000LL;
struct A { Ev e; long long dt; };
const std::vector<A>& alphabet()
{
  static const std::vector<A> v{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"f", -86}, {"e", -60}, {"g", -74}}), 1100}, {heard("a", -70), 400}, {heard("zz", -40), 400}, {fixEv("fix", 22, 8, 6), 1100}, {fixEv("fix2", 30, 14, 3), 0},
    {one("nmea", mNmea(0, 1, 3)), 200}, {one("acc", mSensor(0, ST::ACCELEROMETER, 1, 2, 9)), 40}, {one("azimuth", mSensor(0, ST::ORIENTATION, 0.5, 0.1, 0.2)), 300}, {heard("b", -60), 6000} };
  return v;
}
std::string H(const std::vector<Measurement>& m, const std::string& names) { return names; }
void partitions(Ctx& c, int n, int cfgs, const std::vector<A>& al)
{
  int k = c.choose(cfgs); long long t = T0; std::string h = std::string(configs()[k].name) + ":"; std::vector<Measurement> m = prime(t); std::vector<int> cutHere, inner;
  for (int i = 0; i < n; i++) { auto& a = c.pick(al); t += a.dt; cutHere.resize(m.size(), -1); cutHere.push_back(i); for (auto& x : shifted(a.e.m, t)) m.push_back(x); cutHere.resize(m.size(), -1); if (m.size() > 2 && a.e.m.size() > 1) inner.push_back((int)m.size() - 1); t = m.back().ts; h += fmt(" %s@%lld", a.e.name.c_str(), t - T0); }
  auto all = client(k); Run want; feed(*all, m, want); c.step(m.size());
  c.check(want.out.size() == m.size() && want.st.size() == m.size(), "one-per-measurement", h + fmt(": %d outputs and %d states for %d measurements", (int)want.out.size(), (int)want.st.size(), (int)m.size()));
  c.outcome(std::string(configs()[k].name) + " " + src(want.out.back())); for (auto& o : want.out) c.state(hash(o)); c.note(h + " -> " + show(want.out.back()));
  size_t pr = 2;
  for (int i : inner) cutHere[i] = 0;   // scans are cut in two as well
  for (int mask = 1; mask < 1 << n; mask++)
  {
    auto cli = client(k); Run r; std::vector<Measurement> call; std::string part;
    for (size_t i = 0; i < m.size(); i++)
    {
      if (i >= pr && cutHere[i] >= 0 && (mask >> cutHere[i] & 1)) { feed(*cli, call, r); part += fmt(" %d", (int)call.size()); call.clear(); if (mask & 2) { auto before = cli->getStates().size(); auto o = cli->navigate({}); c.check(o.empty(), "empty-call", h + ": an empty call returned outputs"); c.check(cli->getStates().size() == before, "empty-call", h + ": an empty call changed the states"); } }
      call.push_back(m[i]);
    }
    feed(*cli, call, r); c.step(m.size()); auto d = diff(r, want); c.check(d.empty(), "split", h + " in calls of" + part + fmt(" %d: ", (int)call.size()) + d);
  }
  // measurements older than an earlier one of the same call
  for (size_t i = 1; i <= m.size(); i++) for (int j = 0; j < 3; j++) if (!c.quick || j == (int)i % 3)
  {
    auto q = m; Measurement old = j == 0 ? mRadio(m[i - 1].ts - 1, "b", -45) : j == 1 ? fix(m[i - 1].ts - 3000, 12, 12, 5) : mSensor(m[i - 1].ts - 500, ST::ORIENTATION, 1, 0, 0); q.insert(q.begin() + i, old);
    auto cli = client(k); Run r; feed(*cli, q, r); c.step(q.size()); auto d = diff(r, want); c.check(d.empty(), "late-skipped", h + fmt(" with an older measurement after the %d. in the same call: ", (int)i) + d);
  }
}
void all(Ctx& c) { partitions(c, c.tier(4, 5), 6, alphabet()); }
// steps, pressure and radio: long logs cut at every single place, in pieces of every size
void cuts(Ctx& c)
{
  int k = c.choose(6); static const std::vector<A> al{ {walk(20), 40}, {heard("a", -55), 1100}, {scan({{"e", -58}, {"g", -66}}), 1100}, {fixEv("fix", 22, 8, 6), 300}, {one("magnet", mSensor(0, ST::MAGNETOMETER, 20, 5, -40)), 40}, {one("pressure", mSensor(0, ST::BAROMETER, 1013, 0, 0)), 40} };
  long long t = T0; std::string h = std::string(configs()[k].name) + ":"; std::vector<Measurement> m = prime(t); int n = c.tier(2, 3);
  for (int i = 0; i < n; i++) { auto& a = c.pick(al); t += a.dt; for (auto& x : shifted(a.e.m, t)) m.push_back(x); t = m.back().ts; h += " " + a.e.name; }
  t += 1000; m.push_back(mRadio(t, "a", -60)); h += " a:-60"; Run want; { auto all = client(k); feed(*all, m, want); c.step(m.size()); } c.outcome(std::string("cuts ") + src(want.out.back())); for (auto& o : want.out) c.state(hash(o)); c.note(h);
  for (size_t cut = 1; cut < m.size(); cut++) { auto cli = client(k); Run r; feed(*cli, {m.begin(), m.begin() + cut}, r); feed(*cli, {m.begin() + cut, m.end()}, r); c.step(m.size()); auto d = diff(r, want); c.check(d.empty(), "cut", h + fmt(" cut after %d: ", (int)cut) + d); }
  for (size_t sz = 1; sz < m.size(); sz++) { auto cli = client(k); Run r; for (size_t i = 0; i < m.size(); i += sz) feed(*cli, {m.begin() + i, m.begin() + std::min(m.size(), i + sz)}, r); c.step(m.size()); auto d = diff(r, want); c.check(d.empty(), "pieces", h + fmt(" in calls of %d: ", (int)sz) + d); }
}
// floors and the barometer: three hundred pressure samples between the radio measurements
void long_log(Ctx& c)
{
  int k = 3; long long t = T0; std::vector<Measurement> m = prime(t); std::string h = "barometer log:"; static const double P[] = {1013, 1011.5}; int n = c.tier(3, 4);
  for (int b = 0; b < n; b++) { int p = c.choose(2), f = c.choose(2); h += fmt(" %g/%s", P[p], f ? "e" : "a"); for (int i = 0; i < 120; i++) { t += 50; m.push_back(mSensor(t, ST::BAROMETER, P[p], 0, 0)); if (i % 21 == 20) m.push_back(mRadio(t, f ? "e" : "a", -55)); } }
  Run want; { auto all = client(k); feed(*all, m, want); c.step(m.size()); } c.outcome(std::string("long ") + src(want.out.back()) + " " + want.out.back().posLevel.value); c.state(hash(want.out.back())); c.note(h);
  for (size_t sz : {1, 2, 7, 100, 126, 127, 251}) { auto cli = client(k); Run r; for (size_t i = 0; i < m.size(); i += sz) feed(*cli, {m.begin() + i, m.begin() + std::min(m.size(), i + sz)}, r); c.step(m.size()); auto d = diff(r, want); c.check(d.empty(), "pieces", h + fmt(" in calls of %d: ", (int)sz) + d); }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"partitions", all, 3}, {"cuts", cuts, 3}, {"long_log", long_log, 4} }; }
