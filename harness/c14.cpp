// C14 acceptance and holding of satellite fixes
#include "core_util.h"
#include "position_estimator/position_estimator_outdoor.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C14";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
// L1 is a part of L2's area; both have their own local origin
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
const GeoPoint B2 = geo(-40, -30);
World& world(int v)
{
  static World w[2]; World& q = w[v]; if (q.c) return q;
  LevelSpec a("L1", 60, 50), b("L2", 150, 120, B2); if (v) { q.l.push_back(b); q.l.push_back(a); } else { q.l.push_back(a); q.l.push_back(b); }
  q.c = collector(q.l); return q;
}
struct Fix { double x, y, dev; };                    // metres from BIND
bool covers(int l, double x, double y) { return l == 0 ? x >= 0 && x <= 60 && y >= 0 && y <= 50 : x >= -40 && x <= 110 && y >= -30 && y <= 90; }
// reference model
struct Model
{
  bool outside, sigma; unsigned window; double delta; int minSats; double minDev, maxDev, valid; int order;
  std::deque<XYPoint> buf; bool has = false; long long ts = 0; int lvl = 0; double x = 0, y = 0, dev = 0; bool unsure = false;
  long long lastTs = -1; bool lastOk = false; Fix lastFix{0, 0, 0};
  // 0 none, 1 position (lvl, x, y, dev, ts)
  int run(long long now, const Fix* f, int sats, bool indoor)
  {
    unsure = false; if (indoor) buf.clear();
    if (!f) return has && now - ts <= valid * 1000 ? 1 : 0;
    lastFix = *f; double d = std::max(f->dev, minDev); if (d > maxDev) { buf.clear(); return 0; }
    int l = -1; for (int i = 0; i < 2 && l < 0; i++) { int k = order ? 1 - i : i; if (outside || covers(k, f->x, f->y)) l = k; } if (l < 0) return 0;
    XYPoint p = l ? xy(geo(f->x, f->y).latitude, geo(f->x, f->y).longitude, B2) : XYPoint(f->x, f->y); bool ok = true;
    if (sigma && window && lastTs == now) ok = lastOk; else if (sigma && window)
    {
      ok = false;
      if (buf.size() == window)
      {
        double mx = 0, my = 0, sx = 0, sy = 0; for (auto& q : buf) { mx += q.x / window; my += q.y / window; } for (auto& q : buf) { sx += (q.x - mx) * (q.x - mx) / window; sy += (q.y - my) * (q.y - my) / window; }
        double ex = std::fabs(p.x - mx) - (3 * std::sqrt(sx) + delta), ey = std::fabs(p.y - my) - (3 * std::sqrt(sy) + delta); ok = ex <= 0 && ey <= 0; if (std::fabs(ex) < 1e-6 || std::fabs(ey) < 1e-6) unsure = true; buf.pop_front();
      }
      buf.push_back(p); lastTs = now; lastOk = ok;
    }
    if (!ok || (sats > 0 && sats < minSats)) return 0;
    has = true; ts = now; lvl = l; x = p.x; y = p.y; dev = d; return 1;
  }
};
NavigationSettings make(World& w, const Model& m)
{
  NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useGps = true; q.useGpsOutsideMap = m.outside; q.useGpsSigmaFilter = m.sigma; q.sigmaFilterWindow = m.window; q.sigmaFilterDelta = m.delta; q.minNumSats = m.minSats; q.minGpsDeviation = m.minDev; q.maxGpsDeviation = m.maxDev; q.gpsValidTimeWindowSec = m.valid; return s;
}
SensorMeasurement loc(long long ts, const Fix& f, SensorMeasurementData::Type t = SensorMeasurementData::Type::LOCATION)
{ GeoPoint g = geo(f.x, f.y); SensorMeasurement m; m.ts = ts; m.data.type = t; m.data.values = Vector3d(g.latitude, g.longitude, f.dev); return m; }
NmeaMeasurement nm(long long ts, int s, int n) { NmeaMeasurement m; m.ts = ts; m.data.sentenceNumber = s; m.data.satellitesNumber = n; return m; }
bool compare(Ctx& c, Model& m, int want, const Position& p, const std::string& t)
{
  if (m.unsure) return false;
  c.note(t + (p.isEmpty ? " -> none" : fmt(" -> %s (%.3f, %.3f) +- %g", p.levelId.value.c_str(), p.x, p.y, p.deviationM)));
  if (!want) { c.check(p.isEmpty, "accepted", t + fmt(": position (%.3f, %.3f), expected none", p.x, p.y)); c.outcome("none"); return true; }
  c.check(!p.isEmpty, "missing", t + fmt(": no position, expected (%.3f, %.3f)", m.x, m.y));
  c.check(p.levelId.value == (m.lvl ? "L2" : "L1"), "level", t + ": level " + p.levelId.value); c.near(p.x, m.x, 1e-6, "position", t + ": x"); c.near(p.y, m.y, 1e-6, "position", t + ": y");
  c.near(p.deviationM, m.dev, 1e-9, "accuracy", t + ": accuracy"); c.check(p.ts == m.ts && p.provider == Provider::GNSS, "attributes", t + fmt(": time %lld (expected %lld) or source", p.ts, m.ts)); c.outcome(fmt("%s%s", p.levelId.value.c_str(), "")); return true;
}
void state(Ctx& c, const Model& m, long long now) { Hasher h; h.i(m.has).i(m.has ? now - m.ts : 0).d(m.x).d(m.y).i(m.lvl).d(m.dev); for (auto& q : m.buf) h.d(q.x).d(q.y); c.state(h.i(m.window).i(m.sigma).i(m.outside).h); }
// acceptance and holding without the sigma filter
void accept(Ctx& c)
{
  Model m; m.order = c.choose(2); m.outside = c.flip(); m.sigma = false; m.window = 1; m.delta = 0; m.minSats = 7; m.minDev = 5; m.maxDev = c.flip() ? 25 : INFINITY; m.valid = c.flip() ? 1.0 : 2.5; World& w = world(m.order); PositionEstimatorOutdoor e(w.c, make(w, m));
  static const std::vector<Fix> F{{20, 30, 2}, {59.9, 0.1, 25}, {-20, 10, 8}, {300, 10, 12}, {30, 20, 40}}; long long now = 1700000000000LL; NmeaMeasurement n = nm(0, 0, 0); int sats = 0; SensorMeasurement s = loc(now - 60000, F[0]); long long lastFixTs = now - 60000; Fix lastFix = F[0];
  for (int i = 0; i < c.rounds(3, 4, i); i++)
  {
    now += c.pick(gPause ? std::vector<long long>{100, WEEKS + 400, WEEKS2 + 400} : std::vector<long long>{100, 1000, 1001, 1500}); int a = c.choose(8); const Fix* f = nullptr; std::string t = fmt("+%lld ms ", now - 1700000000000LL);
    if (a < 5) { f = &F[a]; s = loc(now, *f); t += fmt("fix (%g, %g) +- %g", f->x, f->y, f->dev); }
    else if (a == 5) { s = loc(now, F[0], SensorMeasurementData::Type::ACCELEROMETER); t += "other sensor"; }
    else if (a == 6) { static const int S[4][3] = {{1, 5, 5}, {1, 7, 7}, {2, 5, 0}, {1, 0, 0}}; int k = c.choose(4); n = nm(now, S[k][0], S[k][1]); sats = S[k][2]; t += fmt("satellites: sentence %d, %d", S[k][0], S[k][1]); }
    else { t += "radio"; }
    int want = m.run(now, f, sats, false); Position p = e.calculatePosition(now, s, n, false); c.step(); compare(c, m, want, p, t); state(c, m, now);
    if (f) { // the epoch of another message at the same time sees the same fix again
      want = m.run(now, f, sats, false); p = e.calculatePosition(now, s, n, false); c.step(); compare(c, m, want, p, t + " (again)"); }
  }
}
void pauses(Ctx& c) { Pause p; accept(c); }
// the window of recent fixes
void sigma(Ctx& c)
{
  Model m; m.order = 0; m.outside = false; m.sigma = true; m.window = 1 + c.choose(3); m.delta = c.pick(std::vector<double>{0.5, 6}); m.minSats = 7; m.minDev = 5; m.maxDev = 25; m.valid = 1.0; World& w = world(0); PositionEstimatorOutdoor e(w.c, make(w, m));
  static const std::vector<Fix> F{{20, 30, 6}, {21.3, 30.4, 6}, {24, 27, 6}, {52, 31, 6}, {20, 30, 40}}; long long now = 1700000000000LL; int sats = 0; NmeaMeasurement n = nm(0, 0, 0); SensorMeasurement s;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    int a = c.choose(7); bool indoor = false; const Fix* f = nullptr; int rep = 1; now += 700; std::string t;
    if (a < 5) { f = &F[a]; s = loc(now, *f); t = fmt("fix (%g, %g) +- %g", f->x, f->y, f->dev); } else if (a == 5) { indoor = true; t = "after an indoor position"; } else { sats = sats ? 0 : 4; n = nm(now, 1, sats); t = fmt("%d satellites", sats); rep = 1; f = nullptr; }
    if (f && c.choose(2)) rep = 2;                // another message at the same time
    for (int r = 0; r < rep; r++) { int want = m.run(now, f, sats, indoor); Position p = e.calculatePosition(now, s, n, indoor); c.step(); if (!compare(c, m, want, p, fmt("window %u: ", m.window) + t + (r ? " (again)" : ""))) return; }
    state(c, m, now);
  }
}
// switching the filter off, empty window
void nowindow(Ctx& c)
{
  Model m; m.order = 0; m.outside = c.flip(); m.sigma = c.flip(); m.window = 0; m.delta = 0; m.minSats = 4; m.minDev = c.flip() ? 5 : 0; m.maxDev = INFINITY; m.valid = 1.0; World& w = world(0); PositionEstimatorOutdoor e(w.c, make(w, m)); long long now = 1700000000000LL;
  static const std::vector<Fix> F{{20, 30, 6}, {1, 49, 0}, {100, 80, 3}, {110.5, 0, 3}};
  for (int i = 0; i < 4; i++) { now += 1000; auto& f = F[c.choose(4)]; int want = m.run(now, &f, 0, false); Position p = e.calculatePosition(now, loc(now, f), nm(0, 0, 0), false); c.step(); compare(c, m, want, p, fmt("fix (%g, %g)", f.x, f.y)); state(c, m, now); }
}
// through the client: a position outside every floor's signals is the fix itself
void client(Ctx& c)
{
  Model m; m.order = c.choose(2); m.outside = false; m.sigma = c.flip(); m.window = 2; m.delta = 4; m.minSats = 6; m.minDev = 5; m.maxDev = 25; m.valid = 1.0; World& w = world(m.order); auto cl = createNavigationClient(w.c, make(w, m)); long long now = 1700000000000LL; int sats = 0;
  static const std::vector<Fix> F{{20, 30, 2}, {-20, 10, 8}, {300, 10, 12}, {22, 31, 40}}; Fix held{0, 0, 0}; bool have = false; int lvl = 0; double dev = 0; const Fix* cur = nullptr; long long curTs = 0;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    now += c.pick(std::vector<long long>{0, 400, 1200}); int a = c.choose(7); Measurement q; std::string t;
    if (a < 4) { if (cur && curTs == now) return; cur = &F[a]; curTs = now; GeoPoint g = geo(F[a].x, F[a].y); q = mSensor(now, SensorMeasurementData::Type::LOCATION, g.latitude, g.longitude, F[a].dev); t = fmt("fix (%g, %g)", F[a].x, F[a].y); }
    else if (a == 4) { sats = sats ? 0 : 3; q = mNmea(now, 1, sats); t = fmt("%d satellites", sats); } else if (a == 5) { q = mRadio(now, "unknown", -60); t = "unknown transmitter"; } else { cur = nullptr; q = mSensor(now, SensorMeasurementData::Type::BAROMETER, 1000, 0, 0); t = "pressure"; }
    int want = m.run(now, cur && curTs == now ? cur : nullptr, sats, false); if (m.unsure) return; if (want) { have = true; lvl = m.lvl; held = m.lastFix; dev = m.dev; held.x = m.lvl ? m.x - 40 : m.x; held.y = m.lvl ? m.y - 30 : m.y; }
    auto out = cl->navigate({q}); c.step(); c.check(out.size() == 1, "outputs", "one output per message"); auto& o = out[0]; c.note(t + fmt(" -> %d (%.6f, %.6f)", (int)o.status, o.posLatitude, o.posLongitude));
    if (!have) { c.check(o.status != NavigationStatus::OK, "client-none", t + ": a position before any accepted fix"); c.outcome("client none"); }
    else if (want) { XYPoint p = xy(o.posLatitude, o.posLongitude); c.check(o.status == NavigationStatus::OK && o.provider == Provider::GNSS && o.posLevel.value == (lvl ? "L2" : "L1"), "client-status", t + ": status, source or level"); c.check(std::fabs(p.x - held.x) < 1e-3 && std::fabs(p.y - held.y) < 1e-3, "client-position", t + fmt(": (%.4f, %.4f), expected (%.4f, %.4f)", p.x, p.y, held.x, held.y)); c.near(o.posR, dev, 1e-9, "client-accuracy", "radius"); c.outcome("client GNSS"); }
    state(c, m, now);
  }
}
// long windows of recent fixes
void longWindow(Ctx& c)
{
  Model m; m.order = 0; m.outside = false; m.sigma = true; m.window = c.pick(std::vector<int>{4, 9, 17, 40, 65, 130, 300}); m.delta = c.pick(std::vector<double>{0.5, 6}); m.minSats = 7; m.minDev = 5; m.maxDev = 25; m.valid = 1.0; World& w = world(0); PositionEstimatorOutdoor e(w.c, make(w, m)); int noise = c.choose(3), jump = c.choose(4), gap = c.choose(3); long long now = 1700000000000LL;
  for (int i = 0; i < (int)m.window * 2 + 40; i++)
  {
    now += 700; Fix f{20 + 0.25 * ((i * 37) % (noise ? 23 : 5)), 30 + 0.25 * ((i * 11) % (noise == 2 ? 31 : 3)), 6}; if (jump && i >= (int)m.window + 5 && i % (7 * jump) < jump) f.x += 17; bool in = gap == 1 && i == (int)m.window + 9; if (gap == 2 && i == (int)m.window / 2) f.dev = 40; int want = m.run(now, &f, 0, in); Position p = e.calculatePosition(now, loc(now, f), nm(0, 0, 0), in); c.step(); if (!compare(c, m, want, p, fmt("window %u, fix %d (%g, %g): ", m.window, i, f.x, f.y))) return; state(c, m, now);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"accept", accept, 5}, {"pauses", pauses, 4}, {"sigma", sigma, 4}, {"empty_window", nowindow, 3}, {"client", client, 5}, {"accept_lasso", lasso<accept>, 4}, {"sigma_lasso", lasso<sigma, 600, 300, 2>, 4}, {"client_lasso", lasso<client>, 4}, {"long_window", longWindow, 3} }; }
