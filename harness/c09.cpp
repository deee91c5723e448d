// C09 combination of indoor and satellite positions
#include "core_util.h"
#include "position_postprocessor/position_postprocessor.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C09";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
struct Obs { double x, y, dev; };
const std::vector<Obs> IN{{10, 20, 2}, {14, 17, 7}, {40, 45, 3.5}, {11, 21, 60}};
const std::vector<Obs> OUT{{13, 24, 5}, {38, 40, 12}, {90, 10, 6}, {12, 19, 55}};
Position pos(const Obs& o, long long ts, Provider p) { return Position(o.x, o.y, LevelId("L1"), o.dev, ts, false, p, p == Provider::INDOOR ? 0.25 : 0.0); }
std::shared_ptr<LevelCollector> plain() { static std::shared_ptr<LevelCollector> c = collector({LevelSpec("L1", 200, 200)}); return c; }
struct Cfg { bool gps, instant, prefer, fuse; double prior, border, speed, old; };
NavigationSettings make(const Cfg& f)
{ NavigationSettings s; auto& q = s.commonSettings; q.useGps = f.gps; q.useInstantGpsPosition = f.instant; q.preferIndoorSolution = f.prefer; q.fuseGps = f.fuse; q.priorDeviation = f.prior; q.fuseGpsBorderM = f.border; q.averageMovSpeed = f.speed; q.positionIsTooOldSec = f.old; return s; }
struct Side { bool has = false; Position p; double dev = 0; };
struct Model
{
  Cfg f; Side in, out; const char* rule = ""; bool unsure = false;
  void take(Side& s, const Position& p) { double prior = f.prior; if (s.has) prior = std::min(prior, s.dev + f.speed * (p.ts - s.p.ts) / 1000.0); s.dev = (prior + p.deviationM) / 2; s.p = p; s.has = true; }
  Position run(long long now, const Position& i, const Position& o, bool ok)
  {
    unsure = false; if (!i.isEmpty) take(in, i); if (!o.isEmpty) take(out, o);
    if (f.instant && !o.isEmpty) { rule = "instant"; return o; }
    if (f.prefer && !i.isEmpty && ok) { rule = "prefer indoor"; return i; }
    if (!f.gps || !out.has) { rule = in.has ? "indoor only" : "none"; return in.has ? in.p : Position(); }
    if (!in.has) { rule = "outdoor only"; return out.p; }
    double ti = std::max(0.0, (now - in.p.ts) / 1000.0), to = std::max(0.0, (now - out.p.ts) / 1000.0);
    if (ti > f.old) { rule = "indoor too old"; return out.p; } if (to > f.old) { rule = "outdoor too old"; return in.p; }
    double di = in.dev + f.speed * ti, dq = out.dev + f.speed * to, dist = std::hypot(in.p.x - out.p.x, in.p.y - out.p.y), reach = in.p.deviationM + out.p.deviationM + f.border;
    if (std::fabs(reach - dist) < 1e-9 || std::fabs(di - dq) < 1e-9) unsure = true;
    if (f.fuse && dist < reach)
    {
      double k = di / (di + dq); Position r = in.p; r.x = in.p.x + k * (out.p.x - in.p.x); r.y = in.p.y + k * (out.p.y - in.p.y); r.ts = std::max(in.p.ts, out.p.ts); r.deviationM = std::min(di, dq); r.provider = Provider::FUSED; rule = "fused"; return r;
    }
    rule = di < dq ? "better indoor" : "better outdoor"; return di < dq ? in.p : out.p;
  }
};
void compare(Ctx& c, const Position& g, const Position& w, const std::string& t)
{
  c.check(g.isEmpty == w.isEmpty, "presence", t + fmt(": %s", g.isEmpty ? "no position" : "a position")); if (w.isEmpty) return;
  c.near(g.x, w.x, 1e-9, "position", t + ": x"); c.near(g.y, w.y, 1e-9, "position", t + ": y"); c.near(g.deviationM, w.deviationM, 1e-9, "deviation", t + ": deviation");
  c.check(g.ts == w.ts, "time", t + fmt(": time %lld, expected %lld", g.ts, w.ts)); c.check(g.provider == w.provider, "source", t + fmt(": source %d, expected %d", (int)g.provider, (int)w.provider)); c.check(g.levelId.value == w.levelId.value, "level", t + ": level");
}
std::string D(const char* n, const Position& p) { return p.isEmpty ? "" : fmt(" %s (%g, %g) +- %g at %lld", n, p.x, p.y, p.deviationM, p.ts % 1000000); }
void rules(Ctx& c)
{
  static const std::vector<Cfg> PAR{{0, 0, 0, 0, 50, 10, 1, 20}, {0, 0, 0, 0, 20, 0, 0, 6}, {0, 0, 0, 0, 8, 4, 2.5, 6}}; int sw = c.choose(16);
  Model m; m.f = c.pick(PAR); m.f.gps = sw & 1; m.f.fuse = sw & 2; m.f.prefer = sw & 4; m.f.instant = sw & 8; PositionPostprocessor e(plain(), make(m.f)); long long now = 1700000000000LL;
  int nin = c.tier(4, 3), nout = c.tier(4, 3);
  for (int i = 0; i < c.rounds(2, 3, i); i++)
  {
    if (i) now += c.pick(std::vector<long long>{1000, 7000, 13000});
    Position in, out; int a = c.choose(nin + 1), b = c.choose(nout + 1); bool ok = true;
    if (a) in = pos(IN[a - 1], now, Provider::INDOOR);
    if (b) { long long age = c.choose(2) ? 900 : 0; out = pos(OUT[b - 1], now - age, Provider::GNSS); if (m.out.has && out.ts < m.out.p.ts) return; }
    if (a && m.f.prefer) ok = !c.flip();
    Position w = m.run(now, in, out, ok), g = e.fusePositions(now, in, out, ok ? NavigationStatus::OK : NavigationStatus::NO_SOLUTION); c.step();
    std::string t = fmt("epoch %d at %lld:", i + 1, now % 1000000) + D("indoor", in) + D("satellite", out) + " by rule '" + m.rule + "'"; c.note(t + D("->", g)); if (m.unsure) return; compare(c, g, w, t); c.outcome(m.rule);
    if (m.in.has) { Position q = e.getIndoorPosition(); c.check(q.x == m.in.p.x && q.ts == m.in.p.ts, "last-indoor", t + ": remembered indoor position"); } if (m.out.has) { Position q = e.getOutdoorPosition(); c.check(q.x == m.out.p.x && q.ts == m.out.p.ts, "last-outdoor", t + ": remembered satellite position"); }
    Hasher h; h.i(m.in.has).d(m.in.dev).d(m.in.p.x).i(m.in.has ? now - m.in.p.ts : -1).i(m.out.has).d(m.out.dev).d(m.out.p.x).i(m.out.has ? now - m.out.p.ts : -1); c.state(h.i(sw).h);
  }
}
// all switches over longer histories of a small alphabet
void switches(Ctx& c)
{
  int sw = c.choose(16); Model m; m.f = Cfg{bool(sw & 1), bool(sw & 8), bool(sw & 4), bool(sw & 2), 12, 6, 1, 6}; PositionPostprocessor e(plain(), make(m.f)); long long now = 1700000000000LL;
  for (int i = 0; i < c.rounds(gPause ? 3 : 4, gPause ? 4 : 5, i); i++)
  {
    int d = c.choose(gPause ? 3 : 2); now += d == 0 ? 800 : !gPause ? 5000 : d == 1 ? WEEKS + 900 : WEEKS2 + 900; int a = c.choose(5); Position in, out; if (a == 1) in = pos(IN[1], now, Provider::INDOOR); if (a == 2) out = pos(OUT[0], now, Provider::GNSS); if (a == 3) out = pos(OUT[2], now, Provider::GNSS); if (a == 4) { in = pos(IN[2], now, Provider::INDOOR); out = pos(OUT[1], now, Provider::GNSS); }
    bool ok = in.isEmpty || i % 2 == 0; Position w = m.run(now, in, out, ok), g = e.fusePositions(now, in, out, ok ? NavigationStatus::OK : NavigationStatus::NO_SOLUTION); c.step(); std::string t = fmt("epoch %d at %lld:", i + 1, now % 1000000) + D("indoor", in) + D("satellite", out) + " by rule '" + m.rule + "'"; c.note(t + D("->", g)); if (m.unsure) return; compare(c, g, w, t); c.outcome(m.rule);
    Hasher h; h.i(sw).d(m.in.dev).d(m.in.p.x).i(m.in.has ? now - m.in.p.ts : -1).d(m.out.dev).d(m.out.p.x).i(m.out.has ? now - m.out.p.ts : -1); c.state(h.h);
  }
}
void pauses(Ctx& c) { Pause p; switches(c); }
// longer histories with one set of switches: the deviations follow their recursion
void deviations(Ctx& c)
{
  Model m; m.f = Cfg{true, false, false, true, 30, c.flip() ? 1000.0 : -1000.0, 1.5, 6}; PositionPostprocessor e(plain(), make(m.f)); long long now = 1700000000000LL;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    now += c.choose(2) ? 4000 : 500; int a = c.choose(6); Position in, out; if (a == 5) { if (!m.in.has) return; in = m.in.p; out = m.out.has ? m.out.p : Position(); }   /* both report the position they reported before */ if (a == 1 || a == 3) in = pos(IN[a == 3 ? 1 : 0], now, Provider::INDOOR); if (a == 2 || a == 3) out = pos(OUT[a == 3 ? 1 : 0], now, Provider::GNSS); if (a == 4) in = pos(IN[2], now, Provider::INDOOR);
    Position w = m.run(now, in, out, true), g = e.fusePositions(now, in, out, NavigationStatus::OK); c.step(); std::string t = fmt("epoch %d at %lld:", i + 1, now % 1000000) + D("indoor", in) + D("satellite", out) + " by rule '" + m.rule + "'"; c.note(t + D("->", g)); if (m.unsure) return; compare(c, g, w, t); c.outcome(m.rule);
    Hasher h; h.d(m.in.dev).d(m.in.p.x).i(m.in.has ? now - m.in.p.ts : -1).d(m.out.dev).d(m.out.p.x).i(m.out.has ? now - m.out.p.ts : -1); c.state(h.h);
  }
}
// through the client, on a building whose floors have different local origins: the satellite position is found on the first
// floor of the map, the user is on the second one; the result must lie between the two positions on the earth
void floors(Ctx& c)
{
  static std::vector<LevelSpec> l; static std::shared_ptr<LevelCollector> col; const GeoPoint B2 = geo(-20, -10);
  if (!col) { l.emplace_back("L1", 80.0, 60.0); l.emplace_back("L2", 120.0, 90.0, B2); l[0].tx("g", 5, 5); for (int i = 0; i < 3; i++) l[1].tx(fmt("t%d", i), 40 + 8 * i, 30 + 5 * i); l[1].tx("weak", 70, 70); col = collector(l); }
  NavigationSettings s = settings(l); auto& q = s.commonSettings; q.useAlgorithm = CommonSettings::UseAlgorithm::ZONES; q.useSmoothing = false; q.useGps = true; q.fuseGps = c.flip(); q.preferIndoorSolution = c.flip(); q.useInstantGpsPosition = c.flip(); q.gpsValidTimeWindowSec = 3; q.fuseGpsBorderM = 200; q.signalsToUse = CommonSettings::SignalsToUse::BOTH; q.deadReckoningTime = 100;
  auto cl = createNavigationClient(col, s); long long now = 1700000000000LL; cl->navigate({mSensor(now, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0)}); cl->navigate({mRadio(now, "weak", -80)});
  Model m; m.f = Cfg{true, q.useInstantGpsPosition, q.preferIndoorSolution, q.fuseGps, q.priorDeviation, q.fuseGpsBorderM, q.averageMovSpeed, q.positionIsTooOldSec}; Position fix; long long fixTs = 0; bool level = false; Position lastOut; long long radioAt = now;
  static const std::vector<Obs> FX{{30, 25, 6}, {10, 40, 9}, {-10, -5, 7}};    // the last one is covered by the second floor only
  long long buffered = 0;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int a = c.choose(5); now += 1000; std::string t; Position in, out; int tx = -1;
    Measurement me; if (a < 3) { GeoPoint g = geo(FX[a].x, FX[a].y); me = mSensor(now, SensorMeasurementData::Type::LOCATION, g.latitude, g.longitude, FX[a].dev); fix = pos(FX[a], now, Provider::GNSS); t = fmt("fix (%g, %g)", FX[a].x, FX[a].y); }
    else { tx = a - 3; me = mRadio(now, fmt("t%d", tx), -60); t = fmt("transmitter t%d", tx); }
    if (!fix.isEmpty && now - fix.ts <= 3000) out = fix;
    if (tx >= 0) { level = true; Obs o{40.0 + 8 * tx - 20, 30.0 + 5 * tx - 10, 2.0}; in = pos(o, now, Provider::INDOOR); }
    auto o = cl->navigate({me}); c.step(); c.check(o.size() == 1, "outputs", "one output"); radioAt = tx >= 0 ? now : radioAt;
    if (!level) { if (!out.isEmpty) lastOut = out; continue; }
    Position w = m.run(now, in, out, tx >= 0); if (m.unsure) return; c.note(t + fmt(" by rule '%s' -> %d on %s", m.rule, (int)o[0].status, o[0].posLevel.value.c_str()));
    // a second transmitter in the averaging window of the first would be averaged; only the newest is heard in this window
    if (w.isEmpty) { c.outcome("none"); continue; }
    c.check(o[0].status == NavigationStatus::OK, "floors-status", t + ": no position"); XYPoint p = xy(o[0].posLatitude, o[0].posLongitude); c.outcome(fmt("floors %s", m.rule));
    c.check(std::fabs(p.x - w.x) < 0.011 && std::fabs(p.y - w.y) < 0.011, "floors-position", t + fmt(" by rule '%s': output is (%.3f, %.3f) from the first floor's origin, expected (%.3f, %.3f)", m.rule, p.x, p.y, w.x, w.y));
    c.state(Hasher().d(w.x).d(w.y).d(m.in.dev).d(m.out.dev).h);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"rules", rules, 4}, {"switches", switches, 4}, {"pauses", pauses, 3}, {"deviations", deviations, 4}, {"floors", floors, 3}, {"switches_lasso", lasso<switches, 600, 200, 2>, 4}, {"deviations_lasso", lasso<deviations, 600, 200, 2>, 4}, {"floors_lasso", lasso<floors, 300, 120, 2>, 4} }; }
