// C16 floor detection from one set of averaged radio measurements
#include "core_util.h"
#include "level_estimator/level_estimator_transmitters.h"
#include "level_estimator/level_estimator_radiomap.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C16";
namespace {
SensorMeasurement sensor()
{ SensorMeasurement s; s.ts = 0; s.data.type = SensorMeasurementData::Type::ACCELEROMETER; s.data.values = Vector3d(0, 0, 9.8); return s; }
struct Lv { std::string id; std::map<std::string, double> A; };
// L2 shares "b" with L1; L3 has many transmitters
const std::vector<Lv> TX{{"L1", {{"a", -60}, {"b", -70}}}, {"L2", {{"b", -70}, {"c", -50}}}, {"L3", {{"d", -60}, {"e", -65}, {"f", -80}}}};
std::vector<LevelSpec> txMap(const std::vector<int>& order)
{
  std::vector<LevelSpec> l;
  for (int i : order) { l.emplace_back(TX[i].id, 30.0, 20.0); double x = 1; for (auto& t : TX[i].A) l.back().tx(t.first, x++, 2, 0, t.second); }
  return l;
}
// the set of acceptable answers of a freshly started estimator
std::set<std::string> best(const std::vector<std::pair<std::string, double>>& score, double floor_)
{
  double b = floor_; std::set<std::string> s;
  for (auto& p : score) b = std::max(b, p.second);
  for (auto& p : score) if (p.second > floor_ && p.second >= b - 1e-9) s.insert(p.first);
  if (s.empty()) s.insert("");
  return s;
}
std::vector<std::pair<std::string, double>> txScore(const RadioMeasurementsData& m, bool power, const std::vector<Lv>& TX = ::TX)
{
  std::vector<std::pair<std::string, double>> sc;
  for (auto& l : TX)
  {
    double r = 0, a = 0; int n = 0;
    for (auto& x : m) { auto it = l.A.find(x.id.value); if (it != l.A.end()) { r += x.rssi; a += it->second; n++; } }
    if (n) sc.push_back({l.id, (r / n + (power ? a / n : 0)) / (1 + 0.1 * n / m.size())});
  }
  return sc;
}
void transmitters(Ctx& c)
{
  static const std::vector<std::string> ids{"a", "b", "c", "d", "e", "f", "zz"};
  static const std::vector<double> R{-60, -75, -90};
  static std::shared_ptr<LevelCollector> C[2]; static std::vector<LevelSpec> L[2];
  int o = c.choose(2); if (!C[o]) { L[o] = txMap(o ? std::vector<int>{2, 1, 0} : std::vector<int>{0, 1, 2}); C[o] = collector(L[o]); }
  NavigationSettings s = settings(L[o]); s.commonSettings.useTxPower = c.flip();
  RadioMeasurementsData m;
  for (auto& id : ids) { int k = c.choose(c.quick && id == "zz" ? 2 : 4); if (k) m.push_back(radio(id, R[k - 1])); }
  LevelEstimatorTransmitters e(C[o], s);
  std::string got = e.calculateLevel(m, sensor()).value;
  auto want = best(txScore(m, s.commonSettings.useTxPower), -1000);
  c.step(); Hasher h; for (auto& x : m) h.s(x.id.value).d(x.rssi); c.state(h.h);
  if (c.tracing()) { std::string t = "heard"; for (auto& x : m) t += fmt(" %s:%g", x.id.value.c_str(), x.rssi); c.note(t + " -> level '" + got + "'"); }
  c.check(want.count(got), "tx-level", "level '" + got + "', expected '" + *want.begin() + "'");
  c.outcome("tx:" + got);
}
// two epochs: the second detection is drowned by hysteresis, five repetitions of it are not
void switching(Ctx& c)
{
  static std::vector<LevelSpec> L = txMap({0, 1, 2}); static auto C = collector(L);
  NavigationSettings s = settings(L); s.commonSettings.useTxPower = c.flip();
  LevelEstimatorTransmitters e(C, s); RadioMeasurementsData m[2]; std::set<std::string> w[2];
  static const std::vector<std::string> ids{"a", "b", "c", "d"};
  for (int k = 0; k < 2; k++) { for (auto& id : ids) { int q = c.choose(3); if (q) m[k].push_back(radio(id, q == 1 ? -62 : -85)); } w[k] = best(txScore(m[k], s.commonSettings.useTxPower), -1000); if (w[k].size() > 1) return; }
  std::string a = *w[0].begin(), b = *w[1].begin(), got; if (a.empty() || b.empty() || a == b) return;
  got = e.calculateLevel(m[0], sensor()).value; c.check(got == a, "tx-level", "first level '" + got + "' expected '" + a + "'");
  for (int i = 0; i < 4; i++) { got = e.calculateLevel(m[1], sensor()).value; c.step(); c.check(got == a, "tx-switch", "level changed after " + std::to_string(i + 1) + " detections"); }
  got = e.calculateLevel(RadioMeasurementsData(), sensor()).value; c.check(got == a, "tx-switch", "an epoch without signals changed the level");
  got = e.calculateLevel(m[1], sensor()).value; c.step();
  c.check(got == b, "tx-switch", "level '" + got + "' after five detections of '" + b + "'");
  c.state(Hasher().s(a).s(b).h); c.outcome("switch:" + a + b);
}
// ---- fingerprints
struct Rp { std::string id; std::map<std::string, double> fp; };
struct Rl { std::string id; std::vector<Rp> rps; };
const std::vector<Rl> RM{
  {"R1", {{"p1", {{"a", -60}, {"b", -70}, {"c", -80}}}, {"p2", {{"a", -75}, {"b", -62}, {"c", -70}}}, {"p3", {{"a", -80}, {"b", -80}}}}},
  {"R2", {{"q1", {{"a", -85}, {"b", -90}, {"c", -60}, {"d", -65}}}, {"q2", {{"b", -88}, {"c", -66}, {"d", -60}}}}},
  {"R3", {}}};
std::vector<std::pair<std::string, double>> rmScore(const RadioMeasurementsData& m, const std::vector<Rl>& RM = ::RM)
{
  std::vector<std::pair<std::string, double>> sc;
  for (auto& l : RM)
  {
    double w = 0; int uniq = 0;
    for (auto& x : m)
    {
      double s = 0; int n = 0;
      for (auto& r : l.rps) { auto it = r.fp.find(x.id.value); if (it != r.fp.end()) { s += 1 / (std::fabs(std::fabs(x.rssi) - std::fabs(it->second)) + 0.1); n++; } }
      if (n) { w += s / n; uniq++; }
    }
    sc.push_back({l.id, w * uniq});
  }
  return sc;
}
std::vector<std::pair<std::string, double>> rpScore(const RadioMeasurementsData& m, const std::vector<Rl>& RM = ::RM)
{
  std::vector<std::pair<std::string, double>> sc;
  std::map<std::string, double> tw; double sum = 0;
  for (auto& x : m) { double d = std::pow(10, (-10.0 - x.rssi) / 30.0); tw[x.id.value] = std::pow(d, -1.8); sum += tw[x.id.value]; }
  for (auto& l : RM)
  {
    double b = 0;
    for (auto& r : l.rps)
    {
      std::vector<std::pair<double, double>> v; std::vector<double> t;
      for (auto& x : m) { auto it = r.fp.find(x.id.value); if (it != r.fp.end()) { v.push_back({x.rssi, it->second}); t.push_back(tw[x.id.value] / sum); } }
      if (v.size() < 3) continue;
      double pen = 0, nor = 0;
      for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++)
      { double k = t[i] * t[j]; nor += k; pen += std::max(std::fabs((v[i].second - v[j].second) - (v[i].first - v[j].first)) * k, 1e-6); }
      if (nor > 1e-8) pen /= nor;
      b = std::max(b, v.size() / std::sqrt(pen));
    }
    sc.push_back({l.id, b});
  }
  return sc;
}
void fingerprints(Ctx& c)
{
  static std::shared_ptr<LevelCollector> C[2]; static std::vector<LevelSpec> L[2];
  int o = c.choose(2);
  if (!C[o]) { std::vector<Rl> v = RM; if (o) std::reverse(v.begin(), v.end()); for (auto& l : v) { L[o].emplace_back(l.id, 30.0, 20.0); double x = 1; for (auto& r : l.rps) L[o].back().rp(r.id, x++, 3, r.fp); } C[o] = collector(L[o]); }
  NavigationSettings s = settings(L[o]); bool bestRp = s.commonSettings.useBestRefPointLevel = c.flip(); s.commonSettings.useRadiomap = true;
  static const std::vector<double> R{-60, -66, -75, -88};
  RadioMeasurementsData m; for (auto id : {"a", "b", "c", "d", "zz"}) { int k = c.choose(std::string(id) == "zz" ? 2 : 5); if (k) m.push_back(radio(id, R[k - 1])); }
  LevelEstimatorRadiomap e(C[o], s);
  std::string got = e.calculateLevel(m, sensor()).value;
  auto sc = bestRp ? rpScore(m) : rmScore(m); auto want = best(sc, 0.0);
  // near ties (relative) accept either
  double b = 0; for (auto& p : sc) b = std::max(b, p.second); for (auto& p : sc) if (p.second > 0 && p.second >= b * (1 - 1e-9)) want.insert(p.first);
  c.step(); Hasher h; h.i(bestRp); for (auto& x : m) h.s(x.id.value).d(x.rssi); c.state(h.h);
  if (c.tracing()) { std::string t = bestRp ? "best point, heard" : "all points, heard"; for (auto& x : m) t += fmt(" %s:%g", x.id.value.c_str(), x.rssi); c.note(t + " -> level '" + got + "'"); }
  c.check(want.count(got), "rm-level", "level '" + got + "', expected '" + *want.begin() + "'");
  c.outcome(std::string(bestRp ? "best:" : "map:") + got);
}
// buildings of many levels, with many transmitters and reference points
void many(Ctx& c)
{
  int F = c.pick(std::vector<int>{3, 12, 40}), N = c.pick(std::vector<int>{2, 9, 40}), form = c.choose(3), kind = c.choose(4), top = std::min(F - 1, c.pick(std::vector<int>{0, 1, 9, 10, 11, 31, 32, 39})), heard = c.choose(3); bool rev = c.flip();
  struct Wd { std::vector<Lv> tx; std::vector<Rl> rm; std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; }; static std::map<int, Wd> ws; Wd& w = ws[((F * 100 + N) * 4 + form) * 4 + (kind > 1)];
  if (!w.c)
  {
    for (int l = 0; l < F; l++)
    {
      w.l.emplace_back("F" + bigId(form, l), 30.0, 20.0); double x = 1;
      if (kind < 2) { Lv v{"F" + bigId(form, l), {}}; for (int i = 0; i < N; i++) { std::string id = bigId(form, i * F + l); v.A[id] = -55 - (i * 7 + l) % 13; w.l.back().tx(id, x += 0.1, 2, 0, v.A[id]); } w.tx.push_back(v); }
      else { Rl r{"F" + bigId(form, l), {}}; for (int i = 0; i < N; i++) { Rp p{fmt("p%d_", i) + bigId(form, i), {}}; for (int k = 0; k < 9; k++) p.fp[bigId(form, k * (k < 5 ? 1 : 1 + l))] = -50 - (i * 13 + l * 5 + k * 17) % 43; w.l.back().rp(p.id, x += 0.1, 3, p.fp); r.rps.push_back(p); } w.rm.push_back(r); }
    }
    w.c = collector(w.l);
  }
  NavigationSettings s = settings(w.l); s.commonSettings.useRadiomap = kind > 1; s.commonSettings.useTxPower = kind == 1; s.commonSettings.useBestRefPointLevel = kind == 3; RadioMeasurementsData m; std::set<std::string> want; std::string got;
  if (kind < 2)
  {
    for (int i = 0; i < N * F; i++) { bool of = i % F == top; if (of ? (heard < 2 || i / F < 3) : heard == 0 || (heard == 2 && i % 7 == 3)) m.push_back(radio(bigId(form, i), (of ? -60 : -64) - 0.25 * ((i * 29) % 37))); }
    if (rev) std::reverse(m.begin(), m.end()); LevelEstimatorTransmitters e(w.c, s); got = e.calculateLevel(m, sensor()).value; want = best(txScore(m, kind == 1, w.tx), -1000);
  }
  else
  {
    const Rp& p = w.rm[top].rps[N / 2]; for (auto& f : p.fp) m.push_back(radio(f.first, f.second - (heard == 1 ? 1.5 : 0))); if (heard == 2) for (int i = 0; i < 9; i++) if (!p.fp.count(bigId(form, i))) m.push_back(radio(bigId(form, i), -71));
    if (rev) std::reverse(m.begin(), m.end()); LevelEstimatorRadiomap e(w.c, s); got = e.calculateLevel(m, sensor()).value;
    auto sc = kind == 3 ? rpScore(m, w.rm) : rmScore(m, w.rm); want = best(sc, 0.0); double b = 0; for (auto& q : sc) b = std::max(b, q.second); for (auto& q : sc) if (q.second > 0 && q.second >= b * (1 - 1e-9)) want.insert(q.first);
  }
  c.step(); c.state(Hasher().i(F).i(N).i(form).i(kind).i(top).i(heard).h); c.outcome(fmt("many %d:%d", kind, want.size() > 1 ? -1 : got == "F" + bigId(form, top))); c.note(fmt("%d levels, %d each, kind %d, %zu heard -> ", F, N, kind, m.size()) + got);
  c.check(want.count(got), kind < 2 ? "tx-level" : "rm-level", fmt("%d levels, %d each, form %d, kind %d, %zu heard: level '", F, N, form, kind, m.size()) + got + "', expected '" + *want.begin() + "'");
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"many", many, 3}, {"transmitters", transmitters, 4}, {"switching", switching, 4}, {"fingerprints", fingerprints, 4} }; }
