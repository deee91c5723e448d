// a map, configurations and a measurement alphabet for the properties of the whole navigation client
#pragma once
#include "core_util.h"
namespace cl {
using namespace cu; using namespace vx;
typedef RadioMeasurementData::Type RT; typedef SensorMeasurementData::Type ST; typedef CommonSettings CS;
inline GeoPoint at(double x, double y) { return geo(x, y); }          // metres from BIND, not from a level's own corner
inline const std::vector<LevelSpec>& specs()
{
  static std::vector<LevelSpec> v;
  if (v.empty())
  {
    LevelSpec a("L1", { Poly{ rect(0, 0, 40, 30), { rect(18, 12, 22, 16) } } }); a.tx("a", 5, 5, 3).tx("b", 35, 5, 2.5, -62, 4).tx("c", 20, 25, 3.5).tx("w", 8, 22, 2, -58, 3, TransmitterType::WIFI);
    a.rp("r1", 4, 6, {{"a", -55}, {"b", -85}, {"c", -80}}).rp("r2", 33, 7, {{"a", -88}, {"b", -56}, {"c", -79}}).rp("r3", 19, 27, {{"a", -78}, {"b", -81}, {"c", -54}}).rp("r4", 21, 9, {{"a", -70}, {"b", -72}, {"c", -73}}).rp("r5", 6, 24, {{"a", -69}, {"c", -68}});
    a.graph({{2, 10}, {38, 10}, {38, 28}}, {{0, 1}, {1, 2}});
    LevelSpec b("L2", { Poly{ {{10, -5}, {10, 20}, {50, 20}, {50, 5}, {30, 5}, {30, -5}, {10, -5}}, {} } }); b.tx("e", 15, 0, 2).tx("f", 45, 15, 3, -61, 3).tx("g", 31, 12, 2.5);
    b.rp("q1", 14, 1, {{"e", -57}, {"f", -90}, {"g", -75}}).rp("q2", 46, 13, {{"e", -91}, {"f", -54}, {"g", -76}}).rp("q3", 32, 13, {{"e", -77}, {"f", -70}, {"g", -52}}).rp("q4", 16, 18, {{"e", -66}, {"f", -84}, {"g", -69}});
    b.graph({{12, 3}, {28, 3}, {28, 17}}, {{0, 1}, {1, 2}});
    v = {a, b};
  }
  return v;
}
inline std::shared_ptr<LevelCollector>& map() { static std::shared_ptr<LevelCollector> m = collector(specs()); return m; }
struct Config { const char* name; std::function<void(CS&)> f; };
inline const std::vector<Config>& configs()
{
  static const std::vector<Config> v{
    {"zone", [](CS& q) { q.useAlgorithm = CS::UseAlgorithm::ZONES; }},
    {"knn", [](CS& q) { q.useAlgorithm = CS::UseAlgorithm::KNN; q.useTriangles = false; q.kNeighbors = 2; q.useDiffMode = false; q.minNumOfMeasurementsForPositionCalculation = 1; q.signalsToUse = CS::SignalsToUse::BOTH; q.sigAveragingTime = 3; q.sigWindowShift = 1; q.useStops = true; q.stopDetectionTime = 1; q.stopUpdateTime = 2; }},
    {"fused", [](CS& q) { q.useEnuAzimuth = true; q.useAlgorithm = CS::UseAlgorithm::ZONES; q.useGps = q.fuseGps = true; q.fuseGpsBorderM = 30; q.useGpsSigmaFilter = true; q.sigmaFilterWindow = 1; q.sigmaFilterDelta = 15; q.minNumSats = 5; q.gpsValidTimeWindowSec = 3; q.useSmoothing = false; q.noSignalTimeThreshold = 4; }},
    {"least-squares", [](CS& q) { q.useAlgorithm = CS::UseAlgorithm::ZONES; q.useAbFilter = false; q.useTimeSmoothing = true; q.useGraphProjection = true; q.useStops = true; q.stopDetectionTime = 1; q.useBarometer = true; q.useCalculatedAzimuth = true; q.useEnuAzimuth = true; q.sigAveragingTime = 2; q.sigWindowShift = 1; }},
    {"outside", [](CS& q) { q.useAlgorithm = CS::UseAlgorithm::ZONES; q.useGps = q.useGpsOutsideMap = q.preferIndoorSolution = true; q.useBarriers = q.useAccuracyForSmoothing = true; q.useClosestAps = true; q.numClosestAps = 2; q.useAltitude = true; q.deadReckoningTime = 2; q.stepMultiplier = 2; q.deviceAzimuthLifetimeSeconds = 1; q.positionIsTooOldSec = 2; }},
    {"radiomap", [](CS& q) { q.useAlgorithm = CS::UseAlgorithm::KNN; q.useTriangles = true; q.useDiffMode = true; q.minNumOfMeasurementsForPositionCalculation = 1; q.useBestRefPointLevel = true; q.useRadiomap = true; q.sigAveragingTime = 4; q.sigWindowShift = 1; q.useGps = q.useInstantGpsPosition = true; q.useTimeSmoothing = true; q.useSmoothing = false; q.noSignalTimeThreshold = 3; q.maxGpsDeviation = 30; }},
  };
  return v;
}
inline NavigationSettings make(int k) { NavigationSettings s = settings(specs()); configs()[k].f(s.commonSettings); return s; }
struct Ev { std::string name; std::vector<Measurement> m; };            // times relative to the time of the event
inline Measurement fix(long long ts, double x, double y, double dev) { GeoPoint g = at(x, y); return mSensor(ts, ST::LOCATION, g.latitude, g.longitude, dev); }
inline Ev one(const std::string& n, Measurement m) { return Ev{n, {m}}; }
inline Ev heard(const char* id, double rssi) { return one(fmt("%s:%g", id, rssi), mRadio(0, id, rssi)); }
inline Ev scan(const std::vector<std::pair<const char*, double>>& l) { Ev e; e.name = "scan"; for (auto& q : l) { e.name += fmt(" %s:%g", q.first, q.second); e.m.push_back(mRadio((long long)e.m.size() * 10, q.first, q.second)); } return e; }
inline Ev fixEv(const char* n, double x, double y, double dev) { return one(n, fix(0, x, y, dev)); }
inline Ev walk(int n = 24) { Ev e; e.name = "steps"; for (int i = 0; i < n; i++) e.m.push_back(mSensor(40 * i, ST::ACCELEROMETER, 0.2, -0.1, 9.8 + 3 * std::sin(2 * M_PI * i * 0.04 / 0.52))); return e; }
inline std::vector<Measurement> shifted(const std::vector<Measurement>& v, long long d) { auto r = v; for (auto& m : r) m.ts += d; return r; }
inline bool same(double a, double b, double tol) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return tol == 0 ? a == b : std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)); }
inline std::string show(const NavigationOutput& o) { return fmt("{status %d, level '%s', %.9f %.9f alt %.6g, radius %.9g, orientation %.9g, source %d}", (int)o.status, o.posLevel.value.c_str(), o.posLatitude, o.posLongitude, o.posAltitude, o.posR, o.posOrientation, (int)o.provider); }
inline bool same(const NavigationOutput& a, const NavigationOutput& b, double tol = 0)
{ return a.status == b.status && a.posLevel == b.posLevel && same(a.posLatitude, b.posLatitude, tol) && same(a.posLongitude, b.posLongitude, tol) && same(a.posAltitude, b.posAltitude, tol) && same(a.posR, b.posR, tol) && same(a.posOrientation, b.posOrientation, tol) && a.provider == b.provider; }
inline bool same(const NavigationState& a, const NavigationState& b, double tol = 0)
{
  auto p = a.getIndoorPosition(), q = b.getIndoorPosition(), r = a.getOutdoorPosition(), s = b.getOutdoorPosition();
  return a.getStepCounter() == b.getStepCounter() && same(a.getStepLen(), b.getStepLen(), tol) && same(p.x, q.x, tol) && same(p.y, q.y, tol) && same(r.x, s.x, tol) && same(r.y, s.y, tol) && same(a.getHeading(), b.getHeading(), tol) && a.getParticles().size() == b.getParticles().size() && a.getLevelRadioMeasurements().size() == b.getLevelRadioMeasurements().size();
}
struct Run { std::vector<NavigationOutput> out; std::vector<NavigationState> st; };
inline void feed(NavigationClient& c, const std::vector<Measurement>& m, Run& r)
{ auto o = c.navigate(m); r.out.insert(r.out.end(), o.begin(), o.end()); if (m.empty()) return; auto s = c.getStates(); r.st.insert(r.st.end(), s.begin(), s.end()); }
inline std::string diff(const Run& a, const Run& b, double tol = 0)
{
  if (a.out.size() != b.out.size()) return fmt("%d outputs instead of %d", (int)a.out.size(), (int)b.out.size()); if (a.st.size() != b.st.size()) return fmt("%d states instead of %d", (int)a.st.size(), (int)b.st.size());
  for (size_t i = 0; i < a.out.size(); i++) if (!same(a.out[i], b.out[i], tol)) return fmt("output %d is ", (int)i) + show(a.out[i]) + " instead of " + show(b.out[i]);
  for (size_t i = 0; i < a.st.size(); i++) if (!same(a.st[i], b.st[i], tol)) return fmt("state %d differs: steps %d length %g indoor (%g, %g) outdoor (%g, %g) instead of %d %g (%g, %g) (%g, %g)", (int)i, a.st[i].getStepCounter(), a.st[i].getStepLen(), a.st[i].getIndoorPosition().x, a.st[i].getIndoorPosition().y, a.st[i].getOutdoorPosition().x, a.st[i].getOutdoorPosition().y, b.st[i].getStepCounter(), b.st[i].getStepLen(), b.st[i].getIndoorPosition().x, b.st[i].getIndoorPosition().y, b.st[i].getOutdoorPosition().x, b.st[i].getOutdoorPosition().y);
  return "";
}
inline uint64_t hash(const NavigationOutput& o) { return Hasher().i(o.status).s(o.posLevel.value).d(o.posLatitude * 1e5).d(o.posLongitude * 1e5).d(o.posR).d(o.posOrientation).i((int)o.provider).h; }
inline const char* src(const NavigationOutput& o) { return o.status != NavigationStatus::OK ? (o.status == NavigationStatus::NO_LEVEL ? "no level" : o.status == NavigationStatus::NAVIGATION_ERROR ? "error" : "no solution") : o.provider == Provider::GNSS ? "GNSS" : o.provider == Provider::INDOOR ? "indoor" : o.provider == Provider::FUSED ? "fused" : "none"; }
// the first messages of every log: afterwards each radio measurement at least a second later completes a window
inline std::vector<Measurement> prime(long long t0) { return { mSensor(t0, ST::GYROSCOPE, 0, 0, 0), mRadio(t0, "c", -91) }; }
inline NavigationSettings& settingsOf(int k) { static std::map<int, NavigationSettings> m; if (!m.count(k)) m[k] = make(k); return m[k]; }
inline std::shared_ptr<NavigationClient> client(int k) { return createNavigationClient(map(), settingsOf(k)); }
} // namespace cl
