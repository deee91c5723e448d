// C05 zone positioning
#include "core_util.h"
#include "position_estimator/position_estimator_zone.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C05";
namespace {
struct T { const char* id; double x, y, z; };
// L1 and L2 overlap; "s" is on both levels at different places
const std::vector<T> ON[2] = { {{"a", 3, 4, 0}, {"b", 17, 5, 2.5}, {"c", 9, 16, 0}, {"s", 12, 11, 1}}, {{"d", 6, 2, 0}, {"e", 1, 13, 3}, {"s", 20, 8, 0}} };
const char* ALL[] = {"a", "b", "c", "s", "d", "e", "zz"};
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world(int v)
{
  static World w[2]; World& q = w[v]; if (q.c) return q;
  for (int k = 0; k < 2; k++)
  {
    int i = v ? 1 - k : k; q.l.emplace_back(i ? "L2" : "L1", 26.0, 20.0, i ? GeoPoint(60.0, 30.01) : BIND); auto t = ON[i]; if (v) std::reverse(t.begin(), t.end());
    for (auto& x : t) q.l.back().tx(x.id, x.x, x.y, x.z, -40 - k, 7);     // the transmitter's own model is not the level's
  }
  q.c = collector(q.l); return q;
}
struct AB { double A, B; };
const std::vector<AB> MODELS{{-82, 3}, {-60, 4.5}, {-70, 12}};
NavigationSettings make(World& w, int m) { NavigationSettings s = settings(w.l); for (int i = 0; i < 2; i++) { auto& q = s.levelsSettings[LevelId(i ? "L2" : "L1")]; q.normalModeA = MODELS[(m + i) % 3].A; q.normalModeB = MODELS[(m + i) % 3].B; } return s; }
struct Want { bool any = false; double rssi = -1e9; std::vector<T> at; };
Want want(int lvl, const std::map<std::string, double>& heard)
{
  Want w; for (auto& t : ON[lvl]) { auto it = heard.find(t.id); if (it == heard.end()) continue; w.any = true; if (it->second > w.rssi + 1e-9) { w.rssi = it->second; w.at.clear(); } if (std::fabs(it->second - w.rssi) <= 1e-9) w.at.push_back(t); }
  return w;
}
double precision(int lvl, int m, double rssi) { auto& q = MODELS[(m + lvl) % 3]; return 1 + std::sqrt(std::exp((q.A - rssi) / q.B)); }
std::string show(const RadioMeasurementsData& d) { std::string s; for (auto& m : d) s += fmt(" %s:%g", m.id.value.c_str(), m.rssi); return s; }
void compare(Ctx& c, const Want& w, int lvl, int m, const Position& p, NavigationStatus st, long long ts, const std::string& t)
{
  if (!w.any) { c.check(st == NavigationStatus::NO_SOLUTION && p.isEmpty, "no-solution", t + fmt(": status %d, %s, nothing of the level was heard", (int)st, p.isEmpty ? "empty" : "a position")); c.outcome("none"); return; }
  c.check(st == NavigationStatus::OK && !p.isEmpty, "solution", t + ": no position"); bool at = false; for (auto& q : w.at) at |= std::fabs(p.x - q.x) < 1e-6 && std::fabs(p.y - q.y) < 1e-6;
  c.check(at, "position", t + fmt(": position (%.6f, %.6f), strongest is %s at (%g, %g)", p.x, p.y, w.at[0].id, w.at[0].x, w.at[0].y));
  c.check(p.levelId.value == (lvl ? "L2" : "L1") && p.ts == ts && p.provider == Provider::INDOOR, "attributes", t + ": level, time or source");
  c.near(p.deviationM, precision(lvl, m, w.rssi), 1e-9, "accuracy", t + ": accuracy"); c.outcome(fmt("L%d %s", lvl + 1, w.at[0].id));
}
// one epoch: every combination of signals, rotated and reversed orders
void epoch(Ctx& c)
{
  int v = c.choose(2), m = c.choose(3); World& w = world(v); static const std::vector<double> R{-95.5, -71, -48}; RadioMeasurementsData d; std::map<std::string, double> heard;
  int all = c.tier(6, 7); for (int i = 0; i < 7; i++) { int k = i < all ? c.choose(i < 4 ? 4 : 3) : 0; if (i == 6 && all == 6) k = 1; if (k) { heard[ALL[i]] = R[k - 1]; d.push_back(radio(ALL[i], R[k - 1])); } }
  if (d.size() > 1) { int r = c.choose(c.tier(2, 3)); if (r == 1) std::reverse(d.begin(), d.end()); if (r == 2) std::rotate(d.begin(), d.begin() + d.size() / 2, d.end()); }
  PositionEstimatorZone e(w.c, make(w, m));
  for (int l = 0; l < 2; l++) { NavigationStatus st = NavigationStatus::NAVIGATION_ERROR; Position p = e.calculatePosition(w.c->level(LevelId(l ? "L2" : "L1")), 777000 + l, d, MotionInfo(), st); c.step(); compare(c, want(l, heard), l, m, p, st, 777000 + l, fmt("L%d", l + 1) + show(d)); c.note(fmt("L%d", l + 1) + show(d) + fmt(" -> %d (%.3f, %.3f) +- %.4f", (int)st, p.x, p.y, p.deviationM)); }
  Hasher h; for (auto& q : heard) h.s(q.first).d(q.second); c.state(h.i(m).h);
}
// several epochs on one estimator: no epoch influences a later one
void history(Ctx& c)
{
  World& w = world(0); int m = c.choose(3); PositionEstimatorZone e(w.c, make(w, m)); typedef std::vector<std::pair<const char*, double>> S;
  static const std::vector<S> SS{{}, {{"a", -70}, {"b", -60}}, {{"a", -50}, {"d", -40}}, {{"e", -80}, {"s", -81}}, {{"zz", -30}}, {{"c", -99}, {"s", -99}, {"d", -99}}};
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int l = c.choose(2); auto& s = SS[c.choose((int)SS.size())]; RadioMeasurementsData d; std::map<std::string, double> heard; for (auto& q : s) { d.push_back(radio(q.first, q.second)); heard[q.first] = q.second; }
    if (c.choose(2) == 1) e.reInit();
    NavigationStatus st = NavigationStatus::NAVIGATION_ERROR; long long ts = 1600000000000LL + 350 * i; Position p = e.calculatePosition(w.c->level(LevelId(l ? "L2" : "L1")), ts, d, MotionInfo(), st); c.step();
    std::string t = fmt("epoch %d L%d:", i + 1, l + 1) + show(d); compare(c, want(l, heard), l, m, p, st, ts, t); c.note(t); c.state(Hasher().i(i).i(l).d(p.x).d(p.y).d(p.deviationM).i(p.isEmpty).h);
  }
}
// through the client: the averaged signals of a one second window decide
void client(Ctx& c)
{
  int v = c.choose(2), m = c.choose(2); World& w = world(v); NavigationSettings s = make(w, m); auto& q = s.commonSettings; q.useAlgorithm = CommonSettings::UseAlgorithm::ZONES; q.useSmoothing = false; q.signalsToUse = CommonSettings::SignalsToUse::BOTH;
  static const std::vector<std::pair<double, double>> R{{-80, -61}, {-66, -66}, {-50, -97.5}};   // means -70.5, -66, -73.75
  auto cl = createNavigationClient(w.c, s); long long t0 = 1700000000000LL; cl->navigate({mSensor(t0, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0)});
  std::map<std::string, double> heard; std::vector<Measurement> first, second; const char* ids[] = {"a", "b", "d", "e", "s"};
  for (int i = 0; i < 5; i++) { int k = c.choose(4); if (!k) continue; heard[ids[i]] = (R[k - 1].first + R[k - 1].second) / 2; first.push_back(mRadio(t0 + 10 + 10 * i, ids[i], R[k - 1].first)); second.push_back(mRadio(t0 + 500 + 10 * i, ids[i], R[k - 1].second)); }
  if (heard.empty()) return;
  first.insert(first.end(), second.begin(), second.end()); int unk = c.choose(2); if (unk) first.push_back(mRadio(t0 + 900, "zz", -20)); 
  // a measurement of a transmitter heard before, at its mean, closes the window
  Measurement close = mRadio(first[0].ts + 1000, heard.begin()->first, heard.begin()->second); first.push_back(close); auto out = cl->navigate(first); c.step(out.size()); c.check(out.size() == first.size(), "outputs", "one output per measurement");
  for (size_t i = 0; i + 1 < out.size(); i++) c.check(out[i].status != NavigationStatus::OK, "early", "a position before the first window was complete");
  // the detected level: the one with the strongest single (mean) signal is not part of this property; take the reported one
  const auto& o = out.back(); std::string t; for (auto& h : heard) t += fmt(" %s:%g", h.first.c_str(), h.second);
  c.check(o.status == NavigationStatus::OK, "client-status", t + fmt(": status %d", (int)o.status)); int l = o.posLevel.value == "L2"; Want x = want(l, heard); c.check(x.any, "client-level", t + ": a level nothing of which was heard");
  XYPoint p = xy(o.posLatitude, o.posLongitude, w.c->level(o.posLevel).bindingPoint()); bool at = false; for (auto& z : x.at) at |= p.x < z.x + 1e-4 && p.x > z.x - 0.0101 && p.y < z.y + 1e-4 && p.y > z.y - 0.0101;
  c.check(at, "client-position", t + fmt(": output (%.4f, %.4f) on L%d", p.x, p.y, l + 1)); c.near(o.posR, precision(l, m, x.rssi), 1e-9, "client-accuracy", t + ": radius"); c.check(o.provider == Provider::INDOOR, "client-source", "source");
  Hasher h; for (auto& g : heard) h.s(g.first).d(g.second); c.state(h.i(v).i(m).h); c.outcome(fmt("client L%d %s", l + 1, x.at[0].id)); c.note(t);
}
// many transmitters on many levels, many of them heard: the strongest of the level decides
void many(Ctx& c)
{
  int N = c.pick(std::vector<int>{1, 2, 9, 17, 33, 65, 70, 130, 257, 300}), F = c.pick(std::vector<int>{1, 2, 12}), form = c.choose(3);
  static std::map<int, World> ws; World& w = ws[N * 100 + F * 4 + form];
  auto owner = [&](int i) { return i % F; }; auto X = [](int i) { return 1 + 0.25 * ((i * 37) % 97); }; auto Y = [](int i) { return 1 + 0.25 * ((i * 11) % 67); };
  if (!w.c) { for (int l = 0; l < F; l++) { w.l.emplace_back(bigId(form, l), 26.0, 20.0); for (int i = 0; i < N; i++) if (owner(i) == l) w.l.back().tx(bigId(form, i), X(i), Y(i), 0, -50, 4); } w.c = collector(w.l); }
  NavigationSettings s = settings(w.l, -60, 4.5); PositionEstimatorZone e(w.c, s);
  int top = std::min(N - 1, c.pick(std::vector<int>{0, 1, 8, 16, 32, 64, 65, 128, 256, 299})), heard = c.choose(3), order = c.choose(3); RadioMeasurementsData d;
  for (int i = 0; i < N; i++) if (i == top || heard == 0 || (heard == 1 && i % 3 != 1) || (heard == 2 && i >= top)) d.push_back(radio(bigId(form, i), i == top ? -41.5 : -45 - 0.125 * ((i * 53) % 401)));
  if (order == 1) std::reverse(d.begin(), d.end()); if (order == 2) std::rotate(d.begin(), d.begin() + d.size() / 2, d.end());
  for (int l = 0; l < F; l++)
  {
    double best = -1e9; int b = -1; for (auto& m : d) for (int i = l; i < N; i += F) if (bigId(form, i) == m.id.value && m.rssi > best) { best = m.rssi; b = i; }
    std::string t = fmt("%d transmitters on %d levels, form %d, %zu heard, level %d", N, F, form, d.size(), l); NavigationStatus st = NavigationStatus::NAVIGATION_ERROR; Position p = e.calculatePosition(w.c->level(LevelId(bigId(form, l))), 9000 + l, d, MotionInfo(), st); c.step();
    if (b < 0) { c.check(st == NavigationStatus::NO_SOLUTION && p.isEmpty, "no-solution", t + ": a position, nothing of the level was heard"); continue; }
    bool at = false; for (auto& m : d) if (m.rssi >= best - 1e-9) for (int i = l; i < N; i += F) if (bigId(form, i) == m.id.value) at |= std::fabs(p.x - X(i)) < 1e-5 && std::fabs(p.y - Y(i)) < 1e-5;
    c.check(st == NavigationStatus::OK && !p.isEmpty && at, "position", t + fmt(": status %d, position (%.4f, %.4f), strongest is transmitter %d at (%g, %g)", (int)st, p.x, p.y, b, X(b), Y(b)));
    c.check(p.levelId.value == bigId(form, l) && p.ts == 9000 + l, "attributes", t + ": level or time"); c.near(p.deviationM, 1 + std::sqrt(std::exp((-60 - best) / 4.5)), 1e-9, "accuracy", t + ": accuracy"); c.outcome(fmt("many L%d", l));
  }
  c.state(Hasher().i(N).i(F).i(form).i(top).i(heard).i(order).h); c.note(fmt("%d transmitters, %d levels, %zu heard", N, F, d.size()));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"many", many, 3}, {"epoch", epoch, 4}, {"history", history, 4}, {"client", client, 4}, {"history_lasso", lasso<history>, 4} }; }
