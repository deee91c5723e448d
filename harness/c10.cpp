// C10 freshness, standstill, graph projection and map box
#include "core_util.h"
#include "position_postprocessor/position_postprocessor.h"
#include "position_postprocessor/position_smoother_ab.h"
#include "position_postprocessor/position_smoother_lstsq.h"
#include "position_postprocessor/navigation_time_smoother.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C10";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
typedef std::vector<std::pair<XYPoint, XYPoint>> Segs;
struct L { const char* id; double w, h; double ox, oy; std::vector<XYPoint> v; std::vector<std::pair<int, int>> e; };
// L1 with a bent graph that leaves the box, L2 smaller and shifted
const L LV[2] = { {"L1", 60, 40, 0, 0, {{5, 5}, {30, 5}, {30, 30}, {70, 45}}, {{0, 1}, {1, 2}, {2, 3}}}, {"L2", 30, 25, 20, 10, {{3, 20}, {12, 20}, {12, 20.05}}, {{0, 1}, {1, 2}}} };
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world()
{
  static World w; if (w.c) return w;
  for (auto& q : LV) { w.l.emplace_back(q.id, q.w, q.h, geo(q.ox, q.oy)); w.l.back().graph(q.v, q.e); w.l.back().tx(fmt("t%s", q.id), 7, 6); w.l.back().tx(fmt("u%s", q.id), 25, 14); w.l.back().tx(fmt("weak%s", q.id), 7, 6); }
  w.c = collector(w.l); return w;
}
struct Cfg { bool stops, graph, outside; double dead, detect, update, thr, gdist; };
NavigationSettings make(World& w, const Cfg& f)
{ NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useSmoothing = false; q.useTimeSmoothing = false; q.useStops = f.stops; q.useGraphProjection = f.graph; q.useGpsOutsideMap = f.outside; q.deadReckoningTime = f.dead; q.stopDetectionTime = f.detect; q.stopUpdateTime = f.update; q.useStopsDistanceThresholdM = f.thr; q.graphProjDist = f.gdist; return s; }
struct P { int l = 0; double x = 0, y = 0, dev = 0; Provider p = Provider::NONE; double heading = 0; };
// candidates of the nearest graph point
std::vector<XYPoint> nearest(const L& l, double x, double y, double& best)
{
  std::vector<std::pair<double, XYPoint>> all; best = 1e18;
  for (auto& e : l.e) { XYPoint a = l.v[e.first], b = l.v[e.second]; double dx = b.x - a.x, dy = b.y - a.y, k = ((x - a.x) * dx + (y - a.y) * dy) / (dx * dx + dy * dy); k = std::min(1.0, std::max(0.0, k)); XYPoint q(a.x + k * dx, a.y + k * dy); double d = std::hypot(q.x - x, q.y - y); all.push_back({d, q}); best = std::min(best, d); }
  std::vector<XYPoint> r; for (auto& a : all) if (a.first <= best + 1e-9) r.push_back(a.second); return r;
}
struct Model
{
  Cfg f; bool has = false; P last; long long step = 0, upd = 0; bool unsure = false; const char* rule = "";
  // empty result: no position; otherwise acceptable exact coordinates before rounding; held: exactly the previous output
  bool run(const P* in, long long age, long long now, long long motion, std::vector<XYPoint>& want, P& res, bool& held)
  {
    unsure = held = false; want.clear(); if (motion > 0) step = motion;
    if (!in) { rule = "missing"; return false; } const L& l = LV[in->l];
    if (!f.outside && (in->x < 0 || in->y < 0 || in->x > l.w || in->y > l.h)) { rule = "outside"; return false; }
    if (age >= (long long)(f.dead * 1000)) { rule = "old"; return false; }
    bool rest = f.stops && step > 0 && now - step >= (long long)(1000 * f.detect) && has;
    if (rest)
    {
      double dist = std::hypot(last.x + LV[last.l].ox - in->x - l.ox, last.y + LV[last.l].oy - in->y - l.oy); if (std::fabs(dist - f.thr) < 0.02) unsure = true;
      if (!(now - upd > (long long)(1000 * f.update) && dist < f.thr)) { held = true; res = last; rule = "held"; return true; }
      upd = now; rule = "rest update";
    }
    else rule = "moving";
    res = *in; double g; auto c = nearest(l, in->x, in->y, g); std::vector<XYPoint> q{XYPoint(in->x, in->y)}; if (std::fabs(g - f.gdist) < 1e-6) unsure = true; if (f.graph && g < f.gdist) { q = c; rule = f.stops && rest ? "rest update on graph" : "on graph"; }
    for (auto& p : q) want.push_back(XYPoint(std::min(std::max(p.x, 0.0), l.w), std::min(std::max(p.y, 0.0), l.h))); has = true; return true;
  }
};
bool compare(Ctx& c, Model& m, bool some, const std::vector<XYPoint>& want, const P& res, bool held, const Position& g, long long now, const std::string& t)
{
  c.note(t + fmt(" (%s)", m.rule) + (g.isEmpty ? " -> none" : fmt(" -> %s (%.3f, %.3f) +- %g", g.levelId.value.c_str(), g.x, g.y, g.deviationM))); if (m.unsure) return false;
  c.check(g.isEmpty == !some, "presence", t + fmt(" (%s): %s", m.rule, g.isEmpty ? "no position" : "a position")); c.outcome(m.rule); if (!some) return true;
  bool ok = false; if (held) ok = std::fabs(g.x - res.x) < 1e-9 && std::fabs(g.y - res.y) < 1e-9; for (auto& p : want) ok |= g.x <= p.x + 1e-6 && g.x >= p.x - 0.0101 && g.y <= p.y + 1e-6 && g.y >= p.y - 0.0101;
  c.check(ok, held ? "held" : "position", t + fmt(" (%s): (%.4f, %.4f), expected (%.4f, %.4f)", m.rule, g.x, g.y, held ? res.x : want[0].x, held ? res.y : want[0].y));
  c.check(g.levelId.value == LV[res.l].id, "level", t + ": level " + g.levelId.value); c.check(g.provider == res.p, "source", t + ": source"); c.near(g.deviationM, res.dev, 1e-9, "accuracy", t + fmt(" (%s): accuracy", m.rule)); c.check(g.heading == res.heading, "heading", t + ": heading"); c.check(g.ts == now, "time", t + ": time");
  m.last = res; m.last.x = g.x; m.last.y = g.y; return true;
}
const std::vector<P> IN{{0, 29.29, 5.57, 2, Provider::INDOOR, 0.5}, {0, 10, 7, 3, Provider::INDOOR, 0.5}, {0, 59, 39.5, 6, Provider::GNSS, 0}, {0, 61, 20, 4, Provider::INDOOR, 0.5}, {0, 31.14, 21.7, 2.5, Provider::FUSED, 0.5}, {1, 9, 17, 2, Provider::INDOOR, -0.5}, {1, 12, 12, 5, Provider::INDOOR, -0.5}};
std::string D(const P* p) { return p ? fmt("%s (%g, %g)", LV[p->l].id, p->x, p->y) : std::string("none"); }
void state(Ctx& c, const Model& m, long long now) { c.state(Hasher().i(m.has).i(m.last.l).d(m.last.x).d(m.last.y).d(m.last.dev).i(m.step ? std::min(now - m.step, 20000LL) : -1).i(m.upd ? std::min(now - m.upd, 20000LL) : -1).i(m.f.stops).i(m.f.graph).h); }
void history(Ctx& c)
{
  World& w = world(); Model m; int sw = c.choose(8); m.f = Cfg{bool(sw & 1), bool(sw & 2), bool(sw & 4), 5.0, 3.0, 4.0, 10.0, 5.0}; PositionPostprocessor e(w.c, make(w, m.f)); long long now = 1700000000000LL, motion = 0; bool walks = m.f.stops;
  for (int i = 0; i < c.rounds(3, 4, i); i++)
  {
    now += c.pick(gPause ? std::vector<long long>{300, WEEKS + 100, WEEKS2 + 100} : std::vector<long long>{300, 4001}); if (walks && c.choose(2)) motion = now; int a = gPause ? c.choose(3) * 2 : c.choose((int)IN.size() + 1); const P* in = a ? &IN[a - 1] : nullptr; long long age = in ? c.pick(gPause ? std::vector<long long>{0, WEEKS + 20, WEEKS2 + 20} : std::vector<long long>{0, 4999, 5000}) : 0;
    Position q; if (in) q = Position(in->x, in->y, LevelId(LV[in->l].id), in->dev, now - age, false, in->p, in->heading);
    MotionInfo mi; mi.lastMotionTs = motion; std::vector<XYPoint> want; P res; bool held; bool some = m.run(in, age, now, motion, want, res, held); Position g = e.getProcessedPosition(q, now, mi, w.c->level(LevelId(LV[in ? in->l : 0].id))); c.step();
    if (!compare(c, m, some, want, res, held, g, now, fmt("+%lld ms, step %lld ms ago: ", now - 1700000000000LL, motion ? now - motion : -1) + D(in) + fmt(" age %lld", age))) return; state(c, m, now);
  }
}
void pauses(Ctx& c) { Pause p; history(c); }
// long rests: many epochs, with detection and update times
void rest(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{true, c.flip(), false, 5.0, c.flip() ? 3.0 : 0.5, c.flip() ? 4.0 : 0.0, 10.0, 2.0}; PositionPostprocessor e(w.c, make(w, m.f)); long long now = 1700000000000LL, motion = 0;
  static const std::vector<int> U{0, 1, 4, 5};
  for (int i = 0; i < c.rounds(gPause ? 4 : 6, gPause ? 6 : 7, i); i++)
  {
    int a = c.choose(c.tier(6, 7)); if (gPause && a == 4) now += WEEKS + 600; else if (a == 6) now += 8000; else now += 1400; if (a == 5) motion = now; const P* in = a < 4 ? &IN[U[a]] : a == 5 ? &IN[4] : a == 6 ? &IN[1] : nullptr;
    Position q; if (in) q = Position(in->x, in->y, LevelId(LV[in->l].id), in->dev, now, false, in->p, in->heading);
    MotionInfo mi; mi.lastMotionTs = motion; std::vector<XYPoint> want; P res; bool held; bool some = m.run(in, 0, now, motion, want, res, held); Position g = e.getProcessedPosition(q, now, mi, w.c->level(LevelId(LV[in ? in->l : 0].id))); c.step();
    if (!compare(c, m, some, want, res, held, g, now, fmt("+%lld ms, step %lld ms ago: ", now - 1700000000000LL, motion ? now - motion : -1) + D(in))) return; state(c, m, now);
  }
}
void longRest(Ctx& c) { Pause p; rest(c); }
// graph projection of a lattice of positions
void graph(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{false, true, c.flip(), 5.0, 3.0, 4.0, 10.0, c.pick(std::vector<double>{0.0, 3.3, 5.0, 1e9})}; PositionPostprocessor e(w.c, make(w, m.f)); P p; p.l = c.choose(2); int n = c.tier(26, 80); p.x = -4 + (LV[p.l].w + 8) * c.choose(n) / (n - 1) + 0.0037; p.y = -4 + (LV[p.l].h + 8) * c.choose(n) / (n - 1) + 0.0041; p.dev = 3; p.p = Provider::INDOOR; long long now = 1700000000000LL;
  MotionInfo mi; std::vector<XYPoint> want; P res; bool held; bool some = m.run(&p, 0, now, 0, want, res, held); Position g = e.getProcessedPosition(Position(p.x, p.y, LevelId(LV[p.l].id), 3, now, false, p.p, 0), now, mi, w.c->level(LevelId(LV[p.l].id))); c.step(); compare(c, m, some, want, res, held, g, now, D(&p)); c.state(Hasher().i(p.l).d(g.x).d(g.y).i(g.isEmpty).h);
}
// through the client: satellite positions found on the large floor while the user is on the small one
void floors(Ctx& c)
{
  World& w = world(); Cfg f{false, c.flip(), false, c.flip() ? 5.0 : 2.0, 3.0, 4.0, 10.0, 5.0}; NavigationSettings s = make(w, f); auto& q = s.commonSettings; q.useAlgorithm = CommonSettings::UseAlgorithm::ZONES; q.useGps = true; q.useInstantGpsPosition = true; q.gpsValidTimeWindowSec = 0.5; q.signalsToUse = CommonSettings::SignalsToUse::BOTH; q.positionIsTooOldSec = 0; q.minGpsDeviation = 4;
  auto cl = createNavigationClient(w.c, s); long long now = 1700000000000LL; cl->navigate({mSensor(now, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0), mRadio(now, "weakL2", -80)}); Model m; m.f = f; struct F { double x, y; }; static const std::vector<F> FX{{10, 7}, {55, 30}, {33, 32}}; bool radio = false; std::vector<Position> hist; P ind, cur; long long indTs = 0, curTs = 0; bool haveOut = false;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    now += 1000; int a = c.choose(6); Measurement me; std::string t; const P* in = nullptr;
    if (a < 3) { GeoPoint g = geo(FX[a].x, FX[a].y); me = mSensor(now, SensorMeasurementData::Type::LOCATION, g.latitude, g.longitude, 6); P p{0, FX[a].x, FX[a].y, 6, Provider::GNSS, 0}; t = fmt("fix (%g, %g)", FX[a].x, FX[a].y); cur = p; curTs = now; haveOut = haveOut || radio; }
    else if (a < 5) { const char* id = a == 3 ? "tL2" : "uL2"; me = mRadio(now, id, -60); t = id; radio = true; ind = P{1, a == 3 ? 7.0 : 25.0, a == 3 ? 6.0 : 14.0, 2, Provider::INDOOR, 0}; indTs = now; }
    else { me = mSensor(now, SensorMeasurementData::Type::BAROMETER, 1000, 0, 0); t = "pressure"; }
    auto o = cl->navigate({me}); c.step(); if (!radio) continue;                       // the floor is known from the first signal on
    // positions older than this epoch are too old for combining: a new one of this epoch, else the satellite one if both are old
    P use; long long uts; if (a < 3) { use = cur; uts = now; } else if (a < 5) { use = ind; uts = now; if (!haveOut) {} } else { if (haveOut) { use = cur; uts = curTs; } else { use = ind; uts = indTs; } }
    in = &use; std::vector<XYPoint> want; P res; bool held; bool some = m.run(in, now - uts, now, 0, want, res, held); c.note(t + fmt(" (%s) -> %d on %s", m.rule, (int)o[0].status, o[0].posLevel.value.c_str())); if (m.unsure) return;
    c.check((o[0].status == NavigationStatus::OK) == some, "floors-status", t + fmt(" (%s): status %d", m.rule, (int)o[0].status)); c.outcome(std::string("floors ") + m.rule); if (!some) continue;
    XYPoint g = xy(o[0].posLatitude, o[0].posLongitude, geo(LV[use.l].ox, LV[use.l].oy)); c.check(o[0].posLevel.value == LV[use.l].id && o[0].provider == use.p, "floors-level", t + fmt(" (%s): level %s, source %d", m.rule, o[0].posLevel.value.c_str(), (int)o[0].provider));
    bool ok = false; for (auto& p : want) ok |= g.x <= p.x + 1e-4 && g.x >= p.x - 0.0102 && g.y <= p.y + 1e-4 && g.y >= p.y - 0.0102; c.check(ok, "floors-position", t + fmt(" (%s): output (%.4f, %.4f) on %s, expected (%.4f, %.4f)", m.rule, g.x, g.y, o[0].posLevel.value.c_str(), want[0].x, want[0].y)); c.near(o[0].posR, use.dev, 1e-9, "floors-accuracy", t + ": radius"); c.state(Hasher().d(g.x).d(g.y).i(use.l).h);
  }
}
// with smoothing: the smoothers (real objects here, their own behaviour is the subject of other properties) see exactly the positions that
// are present, inside and fresh, start anew when the floor of the last output is another one, and the rules of rest, graph and box apply to their result
void smoothed(Ctx& c)
{
  World& w = world(); int kind = c.choose(3); bool times = c.flip(); Model m; m.f = Cfg{c.flip(), false, false, 5.0, 2.0, 1.5, 10.0, 5.0}; NavigationSettings s = make(w, m.f); auto& q = s.commonSettings; q.useSmoothing = kind < 2; q.useAbFilter = kind == 0; q.useTimeSmoothing = times; q.smoothing = 0.6; q.useAccuracyForSmoothing = kind == 0;
  PositionPostprocessor e(w.c, s); PositionSmootherAB ab(s); PositionSmootherLstsq ls(s); PositionSmoother& sm = kind == 0 ? (PositionSmoother&)ab : (PositionSmoother&)ls; NavigationTimeSmoother ti; long long now = 1700000000000LL, motion = 0, lastTs = 0; P cur; bool any = false;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int a = c.choose(9); now += a == 7 ? 3500 : 900; P in; long long age = 0; bool some = true; if (a == 8) { motion = now; if (!any) return; in = cur; age = now - lastTs; }   // a step, the position is the previous one
    else if (a == 3) some = false; else { static const std::vector<P> Q{{0, 10.004, 7.004, 3, Provider::INDOOR, 0.5}, {0, 14.504, 9.004, 5, Provider::GNSS, 0}, {1, 9.004, 17.004, 2, Provider::INDOOR, -0.5}, {}, {0, 61, 20, 4, Provider::INDOOR, 0.5}, {0, 12.004, 12.004, 6, Provider::FUSED, 0.5}, {1, 11.004, 12.004, 4, Provider::INDOOR, 0.5}, {0, 12.504, 6.504, 2, Provider::INDOOR, 0.5}}; in = Q[a]; if (a == 5) age = 5000; if (a < 3 || a > 5) { cur = in; lastTs = now; any = true; } }
    Position raw; if (some) raw = Position(in.x, in.y, LevelId(LV[in.l].id), in.dev, now - age, false, in.p, in.heading); MotionInfo mi; mi.lastMotionTs = motion; Position g = e.getProcessedPosition(raw, now, mi, w.c->level(LevelId(LV[some ? in.l : 0].id))); c.step();
    std::vector<XYPoint> want; P res; bool held, ok = some && !(in.x > LV[in.l].w || in.y > LV[in.l].h) && age < 5000; std::string t = fmt("%s%s, epoch %d at %lld, step %lld ms ago: ", kind == 0 ? "alpha-beta" : kind == 1 ? "least squares" : "no filter", times ? ", time smoothing" : "", i + 1, now - 1700000000000LL, motion ? now - motion : -1) + D(some ? &in : nullptr) + fmt(" age %lld", age);
    if (!ok) { m.run(some ? &in : nullptr, age, now, motion, want, res, held); if (!compare(c, m, false, want, res, false, g, now, t)) return; continue; }
    Position r = raw; const Level& lv = w.c->level(LevelId(LV[in.l].id)); if (kind < 2) { if (!m.has || m.last.l != in.l) sm.reset(r); r = sm.smoothPosition(r, lv); } if (times) r = ti.getTimeSmoothedPosition(r, now);
    P sp{in.l, r.x, r.y, r.deviationM, r.provider, r.heading}; m.f.outside = true; m.run(&sp, 0, now, motion, want, res, held); m.f.outside = false; if (!held && std::string(m.rule) == "moving") res.dev = in.dev;
    if (!compare(c, m, true, want, res, held, g, now, t)) return; c.state(Hasher().d(r.x).d(r.y).i(kind).i(times).d(m.last.x).d(m.last.y).i(m.last.l).i(motion ? std::min(now - motion, 20000LL) : -1).h);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"history", history, 4}, {"rest", rest, 4}, {"pauses", pauses, 4}, {"long_rest", longRest, 4}, {"graph", graph, 3}, {"floors", floors, 4}, {"smoothed", smoothed, 4}, {"smoothed_lasso", lasso<smoothed, 300, 120, 2>, 5}, {"history_lasso", lasso<history>, 4}, {"rest_lasso", lasso<rest, 600, 300, 2>, 4}, {"floors_lasso", lasso<floors, 300, 120, 2>, 4} }; }
