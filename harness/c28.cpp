// C28 radio map likelihood
#include <array>
#include "knn_model.h"
#include "likelihood/likelihood_radiomap.h"
using namespace cu; using namespace vx; using km::RP; using km::M;
const char* VX_PROPERTY = "C28";
namespace {
const std::vector<std::string> TX{"a", "b", "c", "d", "e"};
const std::vector<RP> R1{
  {"p1", 2, 3, {{"a", -50}, {"b", -62}, {"c", -71}, {"d", -80}}}, {"p2", 14, 0.5, {{"a", -58}, {"b", -55}, {"c", -66}, {"e", -83}}}, {"p3", 7, 15, {{"a", -66}, {"b", -70}, {"c", -52}, {"d", -61}, {"e", -77}}},
  {"p4", 22, 17, {{"b", -64}, {"c", -59}, {"d", -68}, {"e", -54}}}, {"p5", 27, 6, {{"a", -81}, {"b", -67}, {"e", -60}}}};
const std::vector<RP> R2{   // other transmitters are in the radio map of the second level
  {"s1", 3, 2, {{"d", -51}, {"e", -70}, {"f", -66}}}, {"s2", 25, 4, {{"d", -77}, {"e", -56}, {"f", -70}}}, {"s3", 12, 17, {{"d", -69}, {"e", -66}, {"f", -52}}}, {"s4", 14, 8, {{"d", -63}, {"e", -64}, {"f", -65}}}};
const std::vector<double> RSSI{-50, -66, -81.5};
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world() { static World v; if (v.c) return v; v.l.emplace_back("L1", 30.0, 20.0); km::addRps(v.l[0], R1, false); v.l.emplace_back("L2", 30.0, 20.0, geo(100, 50)); km::addRps(v.l[1], R2, true); v.c = collector(v.l); return v; }
std::vector<XYParticle> many(int n) { std::vector<XYParticle> v; for (int i = 0; i < n; i++) v.push_back(XYParticle(0.25 * ((i * 37) % 121), 0.25 * ((i * 53) % 83), i % 7)); return v; }
const std::vector<std::vector<XYParticle>>& particles()
{
  static const std::vector<std::vector<XYParticle>> v{ {}, {XYParticle(5, 5, 0)}, {XYParticle(0, 0, 0), XYParticle(30, 20, 1), XYParticle(14, 8, 2), XYParticle(-50, 900, 3)}, {XYParticle(7, 9, 0), XYParticle(7, 9, 1), XYParticle(2, 3, 0), XYParticle(22, 17, 0), XYParticle(12, 6, 0), XYParticle(14, 8, 0)}, {XYParticle(1e9, -1e9, 0), XYParticle(-1e9, 1e9, 0)}, many(65), many(300), many(2000) };
  return v;
}
const std::vector<std::vector<std::string>>& tris(int l) { static const std::vector<std::vector<std::string>> t[2]{km::delaunay(R1, 30), km::delaunay(R2, 30)}; return t[l]; }
struct Cfg { bool tri, diff; unsigned k, minPos, minMut; };
struct Sys
{
  World& w = world(); Cfg f; LikelihoodRadiomap e; int epochs = 0; bool pre = false; std::vector<XYPoint> point;   // possible points after the last preparation
  static NavigationSettings mk(const Cfg& f) { NavigationSettings s = settings(world().l); auto& q = s.commonSettings; q.useTriangles = f.tri; q.useDiffMode = f.diff; q.kNeighbors = f.k; q.minNumOfMeasurementsForPositionCalculation = f.minPos; q.minMsrNumForMutation = f.minMut; return s; }
  Sys(const Cfg& f_) : f(f_), e(w.c, mk(f_)) {}
  std::vector<XYPoint> fingerprint(int l, const std::vector<M>& all, size_t* n)
  {
    std::vector<M> ms; for (auto& m : all) { bool in = false; for (auto& r : l ? R2 : R1) in |= r.fp.count(m.id); if (in) ms.push_back(m); } *n = ms.size(); if (ms.size() < f.minPos) return {};
    auto wt = km::weights(l ? R2 : R1, ms, f.diff); return f.tri ? km::triBest(l ? R2 : R1, wt, tris(l)) : km::kBest(l ? R2 : R1, wt, f.k);
  }
  static double wt(const XYPoint& p, const XYPoint& q) { return 1 / (0.1 + std::hypot(p.x - q.x, p.y - q.y)); }
  void epoch(Ctx& c, int l, const std::vector<M>& ms, int op, int ps, const std::string& h)
  {
    RadioMeasurementsData d; for (auto& m : ms) d.push_back(radio(m.id, m.rssi)); const Level& L = w.c->level(LevelId(l ? "L2" : "L1")); size_t n; auto want = fingerprint(l, ms, &n); c.step();
    c.check(e.hasSufficientMeasurementsForUpdate(L, d) == (n >= f.minPos), "enough", h + ": enough for an update?"); c.check(e.hasSufficientMeasurementsForMutation(L, d) == (n >= f.minMut), "enough", h + ": enough for a mutation?");
    if (op == 0) // weights of particles
    {
      auto& P = particles()[ps]; auto g = e.calculateWeights(L, d, P); c.check(g.size() == P.size(), "size", h + ": number of weights"); if (P.empty()) return; bool ok = false; std::string got; for (double x : g) got += fmt(" %.9g", x);
      if (n < f.minPos) { ok = true; for (double x : g) ok &= std::fabs(x - 1.0 / P.size()) < 1e-12; c.outcome("too few"); }
      else if (want.empty()) { ok = true; for (double x : g) ok &= x == 0; c.outcome("no point"); }
      else for (auto& q : want) { double s = 0; for (auto& p : P) s += wt(p, q); bool all = true; for (size_t i = 0; i < P.size(); i++) { double v = wt(P[i], q); if (s > 1e-8) v /= s; all &= std::fabs(g[i] - v) <= 1e-6 * std::max(v, 1e-3); } ok |= all; c.outcome(s > 1e-8 ? "weights" : "far away"); }
      c.check(ok, "weights", h + fmt(" (%d usable, %d possible points", (int)n, (int)want.size()) + (want.empty() ? ")" : fmt(", first (%.6f, %.6f))", want[0].x, want[0].y)) + ": weights" + got); c.note(h + " ->" + got);
    }
    else
    {
      std::vector<XYPoint> s; if (op == 1) { s = e.calculateSamplingCenters(L, d); c.check(s.size() == (want.empty() ? 0u : 1u), "centre", h + fmt(": %d sampling centres, expected %d", (int)s.size(), want.empty() ? 0 : 1)); if (!s.empty()) c.check(km::any(want, s[0].x, s[0].y, 1e-6), "centre", h + fmt(": centre (%.6f, %.6f), expected (%.6f, %.6f)", s[0].x, s[0].y, want[0].x, want[0].y)); }
      else e.doPreliminaryCalculations(L, d);
      for (auto& p : particles()[3]) { double g = e.getWeight(L, d, p.x, p.y); bool ok = want.empty() ? g == 0 : false; for (auto& q : want) ok |= std::fabs(g - wt(p, q)) <= 1e-6 * wt(p, q); c.check(ok, "prepared", h + fmt(": weight %.9g of (%g, %g)", g, p.x, p.y) + (want.empty() ? " without a fingerprint position" : "")); }
      c.outcome(want.empty() ? "nothing prepared" : "prepared"); c.note(h);
    }
    auto m2 = e.getOnlyCorrectlyIntersectedMeasurements(L, d); c.check(m2.size() == d.size(), "unchanged", h + ": measurements lost"); Hasher q; for (auto& p : want) q.d(p.x).d(p.y); c.state(q.i(op).i(ps).i(n).h);
  }
};
std::vector<M> draw(Ctx& c, int vals, bool f) { std::vector<M> ms; for (auto& t : TX) { int k = c.choose(vals + 1); if (k) ms.push_back({t, RSSI[k - 1], 0}); } if (f && c.flip()) ms.insert(ms.begin(), M{"f", -60, 0}); if (c.flip()) std::reverse(ms.begin(), ms.end()); return ms; }
std::string S(const std::vector<M>& v) { std::string s; for (auto& m : v) s += fmt(" %s:%g", m.id.c_str(), m.rssi); return s; }
const std::vector<Cfg>& cfgs() { static const std::vector<Cfg> v{{true, false, 8, 3, 4}, {false, false, 2, 4, 3}, {true, true, 3, 4, 2}, {false, true, 8, 3, 3}, {false, false, 1, 1, 1}}; return v; }
void single(Ctx& c) { auto& f = c.pick(cfgs()); Sys y(f); int l = c.choose(2), op = c.choose(3), ps = op == 0 ? c.choose(5) : 0; auto ms = draw(c, 3, true); y.epoch(c, l, ms, op, ps, fmt("%s%s K=%u min %u/%u L%d:", f.tri ? "triangles" : "K best", f.diff ? " diff" : "", f.k, f.minPos, f.minMut, l + 1) + S(ms)); }
// earlier epochs, of other levels too, have no influence
void history(Ctx& c)
{
  auto& f = c.pick(cfgs()); Sys y(f); std::string h = fmt("%s%s K=%u min %u/%u", f.tri ? "triangles" : "K best", f.diff ? " diff" : "", f.k, f.minPos, f.minMut);
  static const std::vector<std::vector<M>> E{ {{"a", -50, 0}, {"b", -66, 0}, {"c", -70, 0}, {"d", -79, 0}}, {{"d", -55, 0}, {"e", -66, 0}, {"f", -60, 0}}, {{"e", -50, 0}}, {{"a", -66, 0}, {"b", -52, 0}, {"d", -81, 0}, {"e", -62, 0}, {"f", -71, 0}}, {} };
  for (int i = 0; i < c.rounds(3, 4, i); i++) { int l = c.choose(2), op = c.choose(3); auto& m = c.pick(E); h += fmt("; L%d op %d", l + 1, op) + S(m); y.epoch(c, l, m, op, op == 0 ? 3 : 0, h); }
}
// a point is in the intersection area exactly when it is within every measured range
void intersection(Ctx& c)
{
  static std::vector<LevelSpec> l; static std::shared_ptr<LevelCollector> m; if (!m) { l.emplace_back("L1", 30.0, 20.0); l[0].tx("t1", 3, 4, 7).tx("t2", 15, 4, 1).tx("t3", 9, 12, 0); m = collector(l); } const Level& L = m->levels()[0];
  static const double X[3] = {3, 15, 9}, Y[3] = {4, 4, 12}; RadioMeasurementsData d; bool in = true, unsure = false; double x = c.choose(13) * 1.5, y = c.choose(9) * 2, r[3]; std::string h = fmt("(%g, %g):", x, y);
  for (int i = 0; i < 3; i++) { int k = c.choose(5); static const double D[] = {-1, 0, 5, 10, 1e6}; r[i] = D[k]; if (k == 0) continue; d.push_back(radio(fmt("t%d", i + 1), -60, RadioMeasurementData::Type::BEACON, r[i])); double q = std::hypot(x - X[i], y - Y[i]) - r[i]; if (std::fabs(q) < 1e-6 && std::fabs(q) > 1e-8) unsure = true; if (q > 5e-8) in = false; h += fmt(" t%d:%g", i + 1, r[i]); }
  if (unsure) return; bool g = isParticleInIntersectionArea(L, d, x, y); c.step(); c.check(g == in, "intersection", h + fmt(": %s", g ? "inside" : "outside")); c.outcome(g ? "in" : "out"); c.state(Hasher().d(x).d(y).d(r[0]).d(r[1]).d(r[2]).h); c.note(h);
}
// many particles
void crowd(Ctx& c) { auto& f = c.pick(cfgs()); Sys y(f); int l = c.choose(2), ps = 5 + c.choose(3); auto ms = draw(c, c.tier(1, 2), true); y.epoch(c, l, ms, 0, ps, fmt("%d particles, %s%s K=%u min %u/%u L%d:", (int)particles()[ps].size(), f.tri ? "triangles" : "K best", f.diff ? " diff" : "", f.k, f.minPos, f.minMut, l + 1) + S(ms)); }
// many reference points and many transmitters
void manyPoints(Ctx& c)
{
  int N = c.pick(std::vector<int>{9, 33, 65, 130}), form = c.choose(3), tri = c.flip(); bool diff = c.flip(); unsigned K = c.pick(std::vector<unsigned>{2, 70}); if (tri && K > 2) throw SkipExec(); if (c.quick && tri && N > 65) throw SkipExec();
  struct Wd { std::vector<RP> r; std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; std::vector<std::vector<std::string>> tr; }; static std::map<int, Wd> ws; Wd& w = ws[N * 4 + form]; if (!w.c) { w.r = km::crowd(N, form); w.l.emplace_back("L1", 30.0, 20.0); km::addRps(w.l[0], w.r, form == 1); w.c = collector(w.l); } if (tri && w.tr.empty()) w.tr = km::delaunay(w.r, 30);
  NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useTriangles = tri; q.useDiffMode = diff; q.kNeighbors = K; q.minNumOfMeasurementsForPositionCalculation = 3; q.minMsrNumForMutation = 3; LikelihoodRadiomap e(w.c, s); const Level& L = w.c->levels()[0]; auto& P = particles()[3];
  for (int k = 0; k < N; k += c.tier(3, 1))
  {
    std::vector<M> ms; RadioMeasurementsData d; int i = 0; for (auto& f : w.r[k].fp) ms.push_back({f.first, f.second - 1.25 * (i++ % 3), 0}); for (auto& m : ms) d.push_back(radio(m.id, m.rssi)); auto wt = km::weights(w.r, ms, diff); auto want = tri ? km::triBest(w.r, wt, w.tr) : km::kBest(w.r, wt, K); auto g = e.calculateWeights(L, d, P); c.step(); std::string h = fmt("%d points, form %d, K=%u%s%s, at point %d", N, form, K, tri ? " triangles" : "", diff ? " diff" : "", k);
    bool ok = false; for (auto& t : want) { double sum = 0; for (auto& p : P) sum += Sys::wt(p, t); bool all = true; for (size_t i = 0; i < P.size(); i++) all &= std::fabs(g[i] - Sys::wt(P[i], t) / sum) <= 1e-6; ok |= all; } if (want.empty()) { ok = true; for (double x : g) ok &= x == 0; } c.check(ok, "weights", h + ": weights"); auto sc = e.calculateSamplingCenters(L, d); c.check(sc.size() == (want.empty() ? 0u : 1u) && (want.empty() || km::any(want, sc[0].x, sc[0].y, 1e-6)), "centre", h + ": sampling centre"); c.outcome(want.empty() ? "many none" : "many"); c.state(Hasher().i(N).i(form).i(tri).i(diff).i(K).i(k).h);
  }
  c.note(fmt("%d points, form %d", N, form));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"single", single, 4}, {"history", history, 4}, {"intersection", intersection, 3}, {"history_lasso", lasso<history, 200, 80, 2>, 4}, {"crowd", crowd, 3}, {"many_points", manyPoints, 3} }; }
