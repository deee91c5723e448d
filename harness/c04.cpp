// C04 invariants of every output of the client
#include "client_util.h"
using namespace cl;
const char* VX_PROPERTY = "C04";
namespace {
const long long T0 = 1600000000000LL;
struct A { Ev e; long long dt; };
struct Watch
{
  int k; CS cs; std::shared_ptr<NavigationClient> cl; std::string h; NavigationOutput prev; bool heardAny = false, valid = false; long long lastSignal = -1, lastFix = -1, t = T0; std::set<std::string> onLevel;
  Watch(int k_, const NavigationSettings& s) : k(k_), cs(s.commonSettings), cl(createNavigationClient(map(), s)) { h = std::string(configs()[k].name) + ":"; }
  static const char* levelOf(const std::string& id) { return id == "a" || id == "b" || id == "c" || id == "w" ? "L1" : id == "e" || id == "f" || id == "g" ? "L2" : nullptr; }
  void feedAll(Ctx& c, const std::vector<Measurement>& v, const std::string& name)
  {
    if (!name.empty()) h += fmt(" %s@%lld", name.c_str(), v[0].ts - T0);
    for (auto& m : v)
    {
      t = m.ts; if (auto r = boost::get<RadioMeasurementData>(&m.data)) { const char* l = levelOf(r->id.value); bool wifi = r->type == RT::WIFI || r->type == RT::WIFI_RTT; if (l && r->rssi < 0 && r->rssi > -100 && (wifi ? cs.signalsToUse != CS::SignalsToUse::BLE : cs.signalsToUse != CS::SignalsToUse::WIFI)) { lastSignal = t; onLevel.insert(l); } }
      if (auto s = boost::get<SensorMeasurementData>(&m.data)) if (s->type == ST::LOCATION) lastFix = t;
      auto o = cl->navigate({m}); c.step(); c.check(o.size() == 1, "one-output", h + fmt(": %d outputs for a measurement", (int)o.size())); look(c, o[0]); prev = o[0]; valid = true;
    }
  }
  void look(Ctx& c, const NavigationOutput& o)
  {
    std::string w = h + " -> " + show(o);
    if (o.status != NavigationStatus::OK)
    {
      c.check(o.status == NavigationStatus::NO_LEVEL || o.status == NavigationStatus::NO_SOLUTION || o.status == NavigationStatus::NAVIGATION_ERROR || o.status == NavigationStatus::NO_RPS, "status", w + ": undocumented status");
      c.check(o.posLevel.value.empty() && o.posLatitude == 0 && o.posLongitude == 0 && o.posR == 0 && o.provider == Provider::NONE, "error-with-position", w + ": a position with an error"); return;
    }
    c.check(lastSignal >= 0 || lastFix >= 0, "position-of-nothing", w + ": a position before anything was heard");
    c.check(std::isfinite(o.posLatitude) && std::isfinite(o.posLongitude) && std::isfinite(o.posAltitude), "finite", w + ": not finite"); c.check(o.posR > 0 && std::isfinite(o.posR), "radius", w + ": radius"); c.check(std::fabs(o.posOrientation) <= M_PI, "orientation", w + ": orientation out of range");
    c.check(o.posLevel.value == "L1" || o.posLevel.value == "L2", "level", w + ": a level that is not in the map");
    c.check(o.provider == Provider::INDOOR || o.provider == Provider::GNSS || o.provider == Provider::FUSED, "source", w + ": unknown source");
    if (o.provider == Provider::INDOOR) c.check(onLevel.count(o.posLevel.value), "source", w + ": an indoor position on a level nothing of which was heard");
    if (o.provider == Provider::GNSS) c.check(lastFix >= 0, "source", w + ": a satellite position without a fix");
    if (o.provider == Provider::FUSED) c.check(lastFix >= 0 && onLevel.size() && cs.fuseGps && cs.useGps, "source", w + ": fused without its parts");
    if (!cs.useGpsOutsideMap)
    {   // bounding boxes of the outlines, in metres from the binding point of the map
      auto p = xy(o.posLatitude, o.posLongitude); bool one = o.posLevel.value == "L1"; double x0 = one ? 0 : 10, y0 = one ? 0 : -5, x1 = one ? 40 : 50, y1 = one ? 30 : 20, tol = 0.011;
      c.check(p.x >= x0 - tol && p.x <= x1 + tol && p.y >= y0 - tol && p.y <= y1 + tol, "outside", w + fmt(": (%.3f, %.3f) is outside of the level", p.x, p.y));
    }
    long long quiet = t - (lastSignal < 0 ? 0 : lastSignal);
    if (quiet >= cs.noSignalTimeThreshold * 1000 && valid && prev.status == NavigationStatus::OK && (lastFix < 0 || t - lastFix > cs.gpsValidTimeWindowSec * 1000))
      c.check(same(o.posLatitude, prev.posLatitude, 0) && same(o.posLongitude, prev.posLongitude, 0) && o.posLevel == prev.posLevel && o.provider == prev.provider && o.posR == prev.posR, "no-signal", w + fmt(": a new position %.3f s after the last signal", quiet / 1000.0));
    if (quiet >= cs.noSignalTimeThreshold * 1000 && (!valid || prev.status != NavigationStatus::OK)) c.check(o.provider == Provider::GNSS, "no-signal", w + ": a position without a signal");
    c.state(hash(o));
  }
};
void run(Ctx& c, int n, const std::vector<A>& al, const std::function<void(CS&)>& mod, const std::string& tag)
{
  int k = c.choose(6); NavigationSettings s = make(k); if (mod) mod(s.commonSettings); Watch w(k, s); w.h = tag + w.h; if (c.choose(2)) w.feedAll(c, prime(T0), "");
  for (int i = 0; i < c.rounds(n, n, i); i++) { auto& a = c.pick(al); w.feedAll(c, shifted(a.e.m, w.t + a.dt), a.e.name); } c.outcome(std::string(configs()[k].name) + " " + src(w.prev)); c.note(w.h + " -> " + show(w.prev));
}
void histories(Ctx& c)
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"e", -60}, {"f", -86}, {"g", -74}}), 1100}, {heard("b", -20), 1000}, {heard("f", -99), 1000}, {fixEv("fix", 22, 8, 6), 700}, {fixEv("corner", 39.9, 0.1, 40), 300}, {fixEv("outside", 160, -40, 2), 500}, {one("nmea", mNmea(0, 1, 3)), 2000}, {one("azimuth", mSensor(0, ST::ORIENTATION, 3.1, 0.1, -3)), 5000}, {heard("zz", -40), 36000} };
  run(c, c.tier(5, 6), al, nullptr, "");
}
// odd readings: signals, fixes and sensor values that are no measurements
void odd(Ctx& c)
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {heard("a", 0), 1000}, {heard("a", 40), (1LL << 32) + 1000}, {heard("a", -1e6), (1LL << 31) + 1000}, {heard("e", -1e-3), 1100}, {fixEv("fix", 22, 8, 0), 700}, {fixEv("fix-", 22, 8, -5), 300}, {one("pole", mSensor(0, ST::LOCATION, 90, 180, 5)), 500}, {one("zero", mSensor(0, ST::LOCATION, 0, 0, 5)), 500}, {one("az", mSensor(0, ST::ORIENTATION, 1e9, 0, 100)), 200}, {one("mag0", mSensor(0, ST::MAGNETOMETER, 0, 0, 0)), 40}, {one("acc0", mSensor(0, ST::ACCELEROMETER, 0, 0, 0)), 40}, {one("bar0", mSensor(0, ST::BAROMETER, 0, 0, 0)), 40} };
  run(c, c.tier(3, 4), al, nullptr, "");
}
// post-processing switches crossed with the configurations: smoothing overshoots, stops, graph, barriers
void switches(Ctx& c)
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"b", -58}, {"a", -82}, {"c", -78}}), 1100}, {heard("c", -50), 1300}, {scan({{"f", -55}, {"e", -86}, {"g", -74}}), 1100}, {walk(18), 40}, {heard("zz", -60), 3000} };
  int sw = c.choose(c.tier(16, 32)); run(c, c.tier(3, 4), al, [&](CS& q) { q.useGraphProjection = sw & 1; q.useTimeSmoothing = sw & 2; q.useAbFilter = !(sw & 4); q.useSmoothing = true; q.useStops = sw & 8; q.useBarriers = sw & 16; q.useSpeedConstraint = !(sw & 2); q.smoothing = sw & 8 ? 1 : 0; q.graphProjDist = 12; q.stopDetectionTime = 1; q.stopUpdateTime = 1; }, fmt("switches %d ", sw));
}
// runs along the edge: the filter overshoots the map
void overshoot(Ctx& c)
{
  int k = c.pick(std::vector<int>{0, 3, 4}), ab = c.choose(2); NavigationSettings s = make(k); auto& q = s.commonSettings; q.useAbFilter = ab; q.useSmoothing = true; q.useSpeedConstraint = false; q.useBarriers = false; q.useTimeSmoothing = false; q.deadReckoningTime = 30; q.smoothing = 0; q.useGraphProjection = false; Watch w(k, s); w.h = fmt("%s filter ", ab ? "ab" : "line") + w.h; w.feedAll(c, prime(T0), "");
  static const char* ids[] = {"a", "b", "c", "f", "e"}; for (int i = 0; i < c.rounds(5, 6, i); i++) { int j = c.choose(c.tier(4, 5)); w.feedAll(c, {mRadio(w.t + (i % 2 ? 1000 : 2500), ids[j], -50)}, ids[j]); w.feedAll(c, {mSensor(w.t + 500, ST::GYROSCOPE, 0, 0, 0)}, "."); } c.outcome(std::string("overshoot ") + src(w.prev)); c.note(w.h);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"histories", histories, 3}, {"odd_readings", odd, 3}, {"switches", switches, 4}, {"overshoot", overshoot, 4}, {"histories_lasso", lasso<histories, 300, 40, 2>, 4}, {"switches_lasso", lasso<switches, 200, 40, 1>, 4}, {"overshoot_lasso", lasso<overshoot, 100, 60, 2>, 4} }; }
