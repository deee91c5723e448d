// C15 fingerprint positioning
#include <array>
#include "knn_model.h"
#include "position_estimator/position_estimator_knn.h"
using namespace cu; using namespace vx; using km::RP; using km::M;
const char* VX_PROPERTY = "C15";
namespace {
const std::vector<std::string> TX{"a", "b", "c", "d", "e"};
// every point hears a different subset
const std::vector<RP> R{
  {"p1", 2, 3, {{"a", -50}, {"b", -62}, {"c", -71}, {"d", -80}}}, {"p2", 14, 0.5, {{"a", -58}, {"b", -55}, {"c", -66}, {"e", -83}}}, {"p3", 7, 15, {{"a", -66}, {"b", -70}, {"c", -52}, {"d", -61}, {"e", -77}}},
  {"p4", 22, 17, {{"b", -64}, {"c", -59}, {"d", -68}, {"e", -54}}}, {"p5", 27, 6, {{"a", -81}, {"b", -67}, {"e", -60}}}, {"p6", 12, 9.5, {{"a", -61}, {"d", -73}}}};
const std::vector<double> RSSI{-50, -66, -81.5};
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world(int kind)
{
  static World w[6]; World& v = w[kind]; if (v.c) return v;
  v.l.emplace_back("L1", 30.0, 20.0);
  if (kind < 2) { km::addRps(v.l[0], R, kind == 1); }
  else if (kind == 2) { km::addRps(v.l[0], {R[0], R[1], R[2]}, false); v.l.emplace_back("L2", 30.0, 20.0); km::addRps(v.l[1], R, false); }                  // too few points for triangles
  else if (kind == 3) { std::vector<RP> q; for (int i = 0; i < 5; i++) { RP p = R[i]; p.x = 3 + 4 * i; p.y = 7; q.push_back(p); } km::addRps(v.l[0], q, false); v.l.emplace_back("L2", 30.0, 20.0); km::addRps(v.l[1], R, false); } // collinear
  else if (kind == 4) { km::addRps(v.l[0], R, false); v.l.emplace_back("L2", 30.0, 20.0); std::vector<RP> q = R; for (auto& p : q) { p.x = 29 - p.x; for (auto& f : p.fp) f.second -= 3; } q.pop_back(); km::addRps(v.l[1], q, false); }
  else { v.l[0] = LevelSpec("L1", 12.0, 12.0); km::addRps(v.l[0], R, false); }                                                                            // edge limit 12 m
  v.c = collector(v.l); return v;
}
RadioMeasurementsData signals(Ctx& c, std::vector<M>& ms, int vals, bool foreign)
{
  RadioMeasurementsData d; for (auto& t : TX) { int k = c.choose(vals + 1); if (k) ms.push_back({t, RSSI[k - 1], 0}); }
  if (c.flip()) for (auto& m : ms) if (m.id == "b") m.power = 4;
  for (auto& m : ms) { d.push_back(radio(m.id, m.rssi)); d.back().power = m.power; }
  if (foreign) d.insert(d.begin(), radio("zz", -40));
  return d;
}
std::string show(const RadioMeasurementsData& d) { std::string s; for (auto& m : d) s += fmt(" %s:%g", m.id.value.c_str(), m.rssi); return s; }
void verdict(Ctx& c, const Position& p, NavigationStatus st, const std::vector<XYPoint>& want, const std::string& lvl, long long ts, const std::string& d, const Position* prev = nullptr)
{
  if (want.empty())
  {
    c.check(st != NavigationStatus::OK, "no-solution", d + fmt(": status OK, position (%.4f, %.4f), expected no solution", p.x, p.y));
    c.check(p.isEmpty || (prev && !prev->isEmpty && p.ts == prev->ts && p.x == prev->x && p.y == prev->y), "no-solution", d + ": a new position without a solution"); c.outcome("none"); return;
  }
  c.check(st == NavigationStatus::OK && !p.isEmpty, "solution", d + fmt(": status %d, expected a position", (int)st));
  c.check(km::any(want, p.x, p.y, 1e-6), "position", d + fmt(": position (%.9f, %.9f), expected (%.9f, %.9f)", p.x, p.y, want[0].x, want[0].y));
  c.check(p.levelId.value == lvl && p.ts == ts && p.provider == Provider::INDOOR && std::isfinite(p.deviationM) && p.deviationM > 0, "attributes", d + ": level, time, source or accuracy of the position");
  c.outcome(fmt("%s %d,%d", lvl.c_str(), (int)p.x / 4, (int)p.y / 4));
}
void kmode(Ctx& c)
{
  World& w = world(c.choose(2)); NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useTriangles = false; q.useDiffMode = c.flip(); q.kNeighbors = c.pick(std::vector<int>{1, 2, 3, 8}); q.minNumOfMeasurementsForPositionCalculation = 3 + c.choose(2);
  std::vector<M> ms; auto d = signals(c, ms, c.tier(3, 3), c.flip()); if (c.flip()) std::reverse(d.begin(), d.end());
  PositionEstimatorKnn e(w.c, s); NavigationStatus st = NavigationStatus::OK; Position p = e.calculatePosition(w.c->levels()[0], 5000, d, MotionInfo(), st); c.step();
  auto want = ms.size() < q.minNumOfMeasurementsForPositionCalculation ? std::vector<XYPoint>() : km::kBest(R, km::weights(R, ms, q.useDiffMode), q.kNeighbors);
  Hasher h; for (auto& m : ms) h.s(m.id).d(m.rssi).d(m.power); c.state(h.i(q.kNeighbors).i(q.useDiffMode).h);
  std::string t = fmt("K=%u%s", q.kNeighbors, q.useDiffMode ? " diff" : "") + show(d); c.note(t + fmt(" -> %d (%.4f, %.4f)", (int)st, p.x, p.y)); verdict(c, p, st, want, "L1", 5000, t);
}
void triangles(Ctx& c)
{
  int kind = c.choose(3); if (kind == 2) kind = 5; World& w = world(kind); NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useTriangles = true; q.useDiffMode = c.flip(); q.minNumOfMeasurementsForPositionCalculation = 3 + c.choose(2);
  std::vector<M> ms; auto d = signals(c, ms, 3, false); if (c.flip()) std::reverse(d.begin(), d.end());
  PositionEstimatorKnn e(w.c, s); NavigationStatus st = NavigationStatus::OK; Position p = e.calculatePosition(w.c->levels()[0], 5000, d, MotionInfo(), st); c.step();
  auto tr = km::delaunay(R, kind == 5 ? 12.0 : 30.0);
  auto want = ms.size() < q.minNumOfMeasurementsForPositionCalculation ? std::vector<XYPoint>() : km::triBest(R, km::weights(R, ms, q.useDiffMode), tr);
  Hasher h; for (auto& m : ms) h.s(m.id).d(m.rssi).d(m.power); c.state(h.i(kind).i(q.useDiffMode).h);
  std::string t = fmt("triangles%s", q.useDiffMode ? " diff" : "") + show(d); c.note(t + fmt(" -> %d (%.4f, %.4f)", (int)st, p.x, p.y)); verdict(c, p, st, want, "L1", 5000, t);
}
// several levels, and several calls on one estimator: results depend on the present call and level only
void history(Ctx& c)
{
  int kind = 2 + c.choose(3); World& w = world(kind); NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useTriangles = c.flip(); q.useDiffMode = true; q.kNeighbors = 2; q.minNumOfMeasurementsForPositionCalculation = 4;
  std::vector<std::vector<RP>> rps(2, R); std::vector<std::vector<std::vector<std::string>>> tr(2);
  if (kind == 2) rps[0] = {R[0], R[1], R[2]}; if (kind == 3) { rps[0].clear(); for (int i = 0; i < 5; i++) { RP p = R[i]; p.x = 3 + 4 * i; p.y = 7; rps[0].push_back(p); } }
  if (kind == 4) { for (auto& p : rps[1]) { p.x = 29 - p.x; for (auto& f : p.fp) f.second -= 3; } rps[1].pop_back(); }
  for (int i = 0; i < 2; i++) if (rps[i].size() > 3 && !(kind == 3 && i == 0)) tr[i] = km::delaunay(rps[i], 30);
  static const std::vector<std::vector<M>> MS{{}, {{"a", -50, 0}, {"b", -66, 0}, {"c", -70, 0}}, {{"a", -52, 0}, {"b", -61, 0}, {"c", -70, 0}, {"d", -82, 0}}, {{"e", -55, 0}, {"d", -66, 0}, {"c", -60, 0}, {"b", -64.5, 0}}, {{"a", -81, 0}, {"b", -50, 0}, {"c", -66, 0}, {"d", -50, 0}, {"e", -70, 0}}, {{"x1", -50, 0}, {"x2", -50, 0}, {"x3", -50, 0}, {"x4", -50, 0}}};
  PositionEstimatorKnn e(w.c, s); Position prev; std::string t;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int l = c.choose(2); auto& ms = MS[c.choose((int)MS.size())]; RadioMeasurementsData d; for (auto& m : ms) d.push_back(radio(m.id, m.rssi)); std::vector<M> known; for (auto& m : ms) if (m.id[0] != 'x') known.push_back(m);
    NavigationStatus st = NavigationStatus::OK; long long ts = 1000 * (i + 1); Position p = e.calculatePosition(w.c->levels()[l], ts, d, MotionInfo(), st); c.step();
    auto wt = km::weights(rps[l], known, true); auto want = known.size() < 4 ? std::vector<XYPoint>() : q.useTriangles ? km::triBest(rps[l], wt, tr[l]) : km::kBest(rps[l], wt, 2);
    t = fmt("map %d, call %d on L%d%s:", kind, i + 1, l + 1, q.useTriangles ? " triangles" : "") + show(d); c.note(t + fmt(" -> %d (%.4f, %.4f)", (int)st, p.x, p.y)); verdict(c, p, st, want, fmt("L%d", l + 1), ts, t, &prev); if (st == NavigationStatus::OK) prev = p;
    c.state(Hasher().i(kind).i(l).i(ms.size()).d(prev.x).d(prev.y).i(q.useTriangles).h);
  }
}
// through the navigation client: one second windows, positions on the level of the fingerprints
void client(Ctx& c)
{
  static World w; if (!w.c) { w.l.emplace_back("L1", 30.0, 20.0); km::addRps(w.l[0], R, false); double x = 1; for (auto& t : TX) w.l[0].tx(t, x += 4, 3); w.c = collector(w.l); }
  NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useAlgorithm = CommonSettings::UseAlgorithm::KNN; q.signalsToUse = CommonSettings::SignalsToUse::BOTH; q.useSmoothing = false; q.useTriangles = c.flip(); q.useDiffMode = c.flip(); q.kNeighbors = 3; q.minNumOfMeasurementsForPositionCalculation = 3;
  auto tr = km::delaunay(R, 30); auto cl = createNavigationClient(w.c, s); long long t0 = 1700000000000LL; cl->navigate({mSensor(t0, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0)});
  std::vector<M> ms; Ctx& k = c; std::vector<Measurement> in; for (auto& t : TX) { int v = k.choose(c.tier(3, 4)); if (v) { ms.push_back({t, RSSI[v - 1], 0}); in.push_back(mRadio(t0 + 10 * (long long)in.size() + 10, t, RSSI[v - 1])); } }
  if (ms.size() < 3) { c.outcome("few"); return; }
  // the same signals again closes the window; the averages equal the signals
  in.push_back(mRadio(in[0].ts + 1000, ms[0].id, ms[0].rssi)); auto out = cl->navigate(in); c.step(out.size()); c.check(out.size() == in.size(), "outputs", "one output per measurement");
  auto wt = km::weights(R, ms, q.useDiffMode); auto want = q.useTriangles ? km::triBest(R, wt, tr) : km::kBest(R, wt, 3); const auto& o = out.back();
  Hasher h; for (auto& m : ms) h.s(m.id).d(m.rssi); c.state(h.i(q.useTriangles * 2 + q.useDiffMode).h);
  if (want.empty()) { c.check(o.status != NavigationStatus::OK, "client-none", "a position without a solution"); c.outcome("none"); return; }
  c.check(o.status == NavigationStatus::OK && o.posLevel.value == "L1" && o.provider == Provider::INDOOR, "client-status", fmt("status %d, expected a position", (int)o.status));
  XYPoint p = xy(o.posLatitude, o.posLongitude); c.check(km::any(want, p.x, p.y, 0.011), "client-position", fmt("output (%.4f, %.4f), expected (%.4f, %.4f)", p.x, p.y, want[0].x, want[0].y)); c.outcome("position");
}
// many reference points: every neighbour and every triangle counts, wherever it is in the map
void many(Ctx& c)
{
  int N = c.pick(c.quick ? std::vector<int>{9, 17, 33, 65, 100} : std::vector<int>{9, 17, 33, 65, 130, 200}), form = c.choose(3), mode = c.choose(4); bool diff = c.flip();
  struct Wd { std::vector<RP> r; std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; std::vector<std::vector<std::string>> tr; }; static std::map<int, Wd> ws; Wd& w = ws[N * 8 + form * 2 + (mode == 3)];
  if (!w.c) { w.r = km::crowd(N, form); if (mode == 3) w.l.emplace_back("L1", 6.0, 5.5); else w.l.emplace_back("L1", 30.0, 20.0); km::addRps(w.l[0], w.r, form == 1); w.c = collector(w.l); }
  if (mode > 1 && w.tr.empty()) w.tr = km::delaunay(w.r, mode == 3 ? 6.0 : 30.0);
  NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useTriangles = mode > 1; q.useDiffMode = diff; q.kNeighbors = mode == 0 ? 3 : 70; q.minNumOfMeasurementsForPositionCalculation = 3; PositionEstimatorKnn e(w.c, s);
  for (int k = 0; k < N; k += c.tier(N > 40 ? 3 : 1, 1))
  { // near the fingerprint of each point
    std::vector<M> ms; RadioMeasurementsData d; int i = 0; for (auto& f : w.r[k].fp) ms.push_back({f.first, f.second - 1.25 * (i++ % 3), 0}); for (auto& m : ms) d.push_back(radio(m.id, m.rssi)); if (k & 1) std::reverse(d.begin(), d.end());
    NavigationStatus st = NavigationStatus::OK; Position p = e.calculatePosition(w.c->levels()[0], 5000 + k, d, MotionInfo(), st); c.step(); auto wt = km::weights(w.r, ms, diff); auto want = mode > 1 ? km::triBest(w.r, wt, w.tr) : km::kBest(w.r, wt, q.kNeighbors);
    verdict(c, p, st, want, "L1", 5000 + k, fmt("%d points, form %d, mode %d%s, at point %d:", N, form, mode, diff ? " diff" : "", k)); c.state(Hasher().i(N).i(form).i(mode).i(diff).i(k).h);
  }
  c.note(fmt("%d points, form %d, mode %d", N, form, mode));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"many", many, 3}, {"k_best", kmode, 4}, {"triangle", triangles, 4}, {"history", history, 3}, {"client", client, 3}, {"history_lasso", lasso<history>, 4} }; }
