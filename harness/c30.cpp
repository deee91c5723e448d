// C30 the client connects its stages as documented: each message passes through all of them, in order
// The stages (radio window, motion, floor, indoor, satellite, combination, post-processing) are real objects here; their own behaviour is the subject of other properties.
#include "client_util.h"
#include "measurements/measurement_preprocessor.h"
#include "sensor_fusion/sensor_fusion.h"
#include "level_estimator/level_estimator_radiomap.h"
#include "level_estimator/level_estimator_transmitters.h"
#include "position_estimator/position_estimator_zone.h"
#include "position_estimator/position_estimator_knn.h"
#include "position_estimator/position_estimator_outdoor.h"
#include "position_postprocessor/position_postprocessor.h"
#include "trilateration.h"
using namespace cl;
const char* VX_PROPERTY = "C30";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
const long long T0 = 1600000000000LL;
struct Assembly
{
  NavigationSettings s; CS q; std::shared_ptr<LevelCollector> m = map();
  MeasurementsPreprocessor radio; SensorFusion motion; std::unique_ptr<LevelEstimator> floor; std::unique_ptr<PositionEstimator> indoor; PositionEstimatorOutdoor sat; PositionPostprocessor post; Trilateration tri;
  SensorMeasurement lastSensor; NmeaMeasurement lastNmea; long long lastSignal = 0; bool wasIndoor = false; Position pos; std::string how; bool azimuthKnown = false, onFloor = false;
  explicit Assembly(const NavigationSettings& s_) : s(s_), q(s.commonSettings), radio(m, s), motion(s), sat(m, s), post(m, s)
  {
    bool knn = q.useAlgorithm == CS::UseAlgorithm::KNN;
    if (knn || q.useRadiomap) floor.reset(new LevelEstimatorRadiomap(m, s)); else floor.reset(new LevelEstimatorTransmitters(m, s));
    if (knn) indoor.reset(new PositionEstimatorKnn(m, s)); else indoor.reset(new PositionEstimatorZone(m, s));
  }
  bool usable(const RadioMeasurementData& r) const
  {
    static const std::set<std::string> known{"a", "b", "c", "w", "e", "f", "g"}; bool wifi = r.type == RT::WIFI;
    return known.count(r.id.value) && r.rssi < 0 && r.rssi > -100 && (wifi ? q.signalsToUse != CS::SignalsToUse::BLE : q.signalsToUse != CS::SignalsToUse::WIFI);
  }
  std::pair<NavigationOutput, NavigationState> take(const Measurement& msg)
  {
    const long long t = msg.ts; boost::optional<SensorMeasurement> fresh;
    if (auto r = boost::get<RadioMeasurementData>(&msg.data)) { if (usable(*r)) lastSignal = t; }
    if (auto d = boost::get<SensorMeasurementData>(&msg.data)) { lastSensor.data = *d; lastSensor.ts = t; fresh = lastSensor; }
    if (auto d = boost::get<NmeaMeasurementData>(&msg.data)) { lastNmea.data = *d; lastNmea.ts = t; }
    radio.updateMeasurements(msg);
    MotionInfo mi = motion.calculateDisplacement(fresh, t);
    RadioMeasurementsData heard = radio.extractRadioMeasurements(mi.lastMotionTs);
    LevelId on = floor->calculateLevel(heard, fresh);
    Position out = sat.calculatePosition(t, lastSensor, lastNmea, wasIndoor); wasIndoor = false;
    if (t - lastSignal >= (long long)(1000 * q.noSignalTimeThreshold)) { indoor->reInit(); on = LevelId(); }
    NavigationStatus st = NavigationStatus::OK; azimuthKnown = mi.isAzimuthValid; onFloor = m->hasLevel(on);
    if (onFloor)
    {
      Position in = indoor->calculatePosition(m->level(on), t, heard, mi, st); wasIndoor = !in.isEmpty;
      Position both = post.fusePositions(t, in, out, st);
      pos = post.getProcessedPosition(both, t, mi, m->level(both.isEmpty ? on : both.levelId)); how = "on a floor";
    }
    else if (!out.isEmpty) { pos = out; how = "satellite only"; }
    else { st = NavigationStatus::NO_LEVEL; how = "no floor"; }
    NavigationState ns; ns.setStepCounter(mi.stepCounter); ns.setStepLen(mi.distance); ns.setIndoorPosition(XYPoint(post.getIndoorPosition().x, post.getIndoorPosition().y)); ns.setOutdoorPosition(XYPoint(post.getOutdoorPosition().x, post.getOutdoorPosition().y));
    NavigationOutput o;
    if (pos.isEmpty) { o.status = st == NavigationStatus::OK ? NavigationStatus::NAVIGATION_ERROR : st; return {o, ns}; }
    o.status = NavigationStatus::OK; o.posLevel = pos.levelId; GeoPoint g = geo(pos.x, pos.y, m->level(pos.levelId).bindingPoint()); o.posLatitude = g.latitude; o.posLongitude = g.longitude; o.posR = pos.deviationM; o.provider = pos.provider;
    if (q.useAltitude) if (auto z = tri.calculateAltitude(m->level(pos.levelId), heard)) o.posAltitude = *z;
    double az = mi.azimuth; if (q.useEnuAzimuth) az = M_PI / 2 - az; o.posOrientation = std::atan2(std::sin(az), std::cos(az));
    return {o, ns};
  }
};
struct A { Ev e; long long dt; };
struct Pair
{
  Assembly a; std::shared_ptr<NavigationClient> cl; std::string h; long long t = T0; NavigationOutput last;
  Pair(const NavigationSettings& s, const std::string& n) : a(s), cl(createNavigationClient(map(), s)), h(n) {}
  void feedAll(Ctx& c, const std::vector<Measurement>& v, const std::string& name)
  {
    if (!name.empty()) h += fmt(" %s@%lld", name.c_str(), v[0].ts - T0);
    for (auto& m : v)
    {
      t = m.ts; auto want = a.take(m); auto o = cl->navigate({m}); auto st = cl->getStates(); c.step(); c.check(o.size() == 1 && st.size() == 1, "one-output", h + ": not one output for a measurement");
      NavigationOutput got = o[0], w = want.first;
      if (got.status == NavigationStatus::OK && w.status == NavigationStatus::OK)
      {
        double d = std::fabs(std::remainder(got.posOrientation - w.posOrientation, 2 * M_PI)); if (a.azimuthKnown) c.check(d < 1e-9, "orientation", h + fmt(": orientation %.9g instead of %.9g (%s)", got.posOrientation, w.posOrientation, a.how.c_str()));
        w.posOrientation = got.posOrientation;
      }
      c.check(same(got, w, 1e-12), "output", h + " -> " + show(got) + " instead of " + show(w) + " (" + a.how + ")");
      c.check(same(st[0], want.second, 1e-12), "state", h + fmt(": state: steps %d, length %g, indoor (%g, %g), outdoor (%g, %g)", st[0].getStepCounter(), st[0].getStepLen(), st[0].getIndoorPosition().x, st[0].getIndoorPosition().y, st[0].getOutdoorPosition().x, st[0].getOutdoorPosition().y));
      last = got; c.state(hash(got));
    }
    c.outcome(a.how + " " + src(last));
  }
};
const std::vector<A>& alphabet()
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"e", -60}, {"f", -86}, {"g", -74}}), 1100}, {heard("b", -50), 1000}, {heard("f", -70), 2100}, {fixEv("fix", 22, 8, 6), 700}, {fixEv("corner", 38, 2, 40), 300}, {fixEv("outside", 160, -40, 2), 500}, {one("nmea", mNmea(0, 1, 3)), 2000}, {one("azimuth", mSensor(0, ST::ORIENTATION, 2.5, 0.1, -0.3)), 900}, {heard("zz", -40), 36000}, {walk(26), 40} };
  return al;
}
void histories(Ctx& c)
{
  int k = c.choose(6); Pair p(make(k), std::string(configs()[k].name) + ":"); if (c.choose(2)) p.feedAll(c, prime(T0), "");
  for (int i = 0; i < c.rounds(4, 5, i); i++) { auto& a = c.pick(alphabet()); p.feedAll(c, shifted(a.e.m, p.t + a.dt), a.e.name); } c.note(p.h + " -> " + show(p.last));
}
// the switches of the client itself
void switches(Ctx& c)
{
  NavigationSettings s = settings(specs()); auto& q = s.commonSettings; q.useAlgorithm = c.choose(2) ? CS::UseAlgorithm::KNN : CS::UseAlgorithm::ZONES; q.useRadiomap = c.choose(2); q.useEnuAzimuth = c.choose(2); q.useGps = c.choose(2); q.useCalculatedAzimuth = c.quick ? q.useGps != q.useEnuAzimuth : c.choose(2);
  q.minNumOfMeasurementsForPositionCalculation = 1; q.useTriangles = false; q.useDiffMode = false; q.kNeighbors = 2; q.noSignalTimeThreshold = c.pick(std::vector<double>{0.5, 2, 30}); q.useAltitude = q.useGps; q.sigAveragingTime = 1; q.sigWindowShift = 1; q.deviceAzimuthLifetimeSeconds = 2; q.useGpsOutsideMap = q.useEnuAzimuth; q.gpsValidTimeWindowSec = 1; q.signalsToUse = q.useRadiomap ? CS::SignalsToUse::BOTH : CS::SignalsToUse::BLE; q.useGpsSigmaFilter = q.useGps; q.sigmaFilterWindow = 2; q.sigmaFilterDelta = 15; q.maxGpsDeviation = 100;
  Pair p(s, fmt("algorithm %d, radio map %d, ENU %d, calculated azimuth %d, GPS %d, no signal after %g s:", (int)q.useAlgorithm, (int)q.useRadiomap, (int)q.useEnuAzimuth, (int)q.useCalculatedAzimuth, (int)q.useGps, q.noSignalTimeThreshold)); p.feedAll(c, prime(T0), "");
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}, {"g", -88}}), 1100}, {scan({{"f", -55}, {"e", -86}, {"g", -74}, {"a", -90}}), 1100}, /* another floor by fingerprints than by transmitters */ {scan({{"f", -20}, {"a", -55}}), 1100}, {fixEv("fix", 22, 8, 6), 400}, {fixEv("outside", 160, -40, 5), 300}, {one("azimuth", mSensor(0, ST::ORIENTATION, -2, 0.1, -0.3)), 300}, {one("field", mSensor(0, ST::MAGNETOMETER, -20, 12, -30)), 100}, {one("rest", mSensor(0, ST::GYROSCOPE, 0, 0, 0)), 1600}, {one("w:-45", mRadio(0, "w", -45, RT::WIFI)), 1000}, {one("fix at the same time", fix(0, 24, 9, 9)), 0} };
  for (int i = 0; i < c.rounds(4, 5, i); i++) { auto& a = c.pick(al); p.feedAll(c, shifted(a.e.m, p.t + a.dt), a.e.name); } c.note(p.h + " -> " + show(p.last));
}
// floors: repeated scans of the two floors in every order, with pauses around the no-signal time
void floors(Ctx& c)
{
  int k = c.pick(std::vector<int>{0, 1, 2, 5}); NavigationSettings s = make(k); s.commonSettings.noSignalTimeThreshold = 3; Pair p(s, std::string(configs()[k].name) + ":"); p.feedAll(c, prime(T0), "");
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int j = c.choose(6); if (j < 4) { int n = j & 1 ? 5 : 1; for (int r = 0; r < n; r++) p.feedAll(c, shifted((j & 2 ? scan({{"e", -60}, {"f", -86 + r}, {"g", -74}}) : scan({{"a", -58}, {"b", -82 - r}, {"c", -78}})).m, p.t + 1100), fmt("%s%d", j & 2 ? "L2#" : "L1#", n)); }
    else if (j == 4) { long long w = !gPause ? 0 : i & 1 ? WEEKS - 2000 : WEEKS2; p.feedAll(c, {mSensor(p.t + w + 2990, ST::GYROSCOPE, 0, 0, 0), mSensor(p.t + w + 3000, ST::GYROSCOPE, 0, 0, 0)}, "pause"); } else p.feedAll(c, shifted(fixEv("", 22, 8, 6).m, p.t + 500), "fix");
  }
  c.note(p.h + " -> " + show(p.last));
}
void pauses(Ctx& c) { Pause p; floors(c); }
}
std::vector<vx::Scenario> vx_scenarios() { return { {"histories", histories, 3}, {"switches", switches, 4}, {"floors", floors, 3}, {"pauses", pauses, 3}, {"histories_lasso", lasso<histories, 300, 50, 2>, 4}, {"switches_lasso", lasso<switches, 100, 50, 1>, 4}, {"floors_lasso", lasso<floors, 60, 40, 1>, 4} }; }
