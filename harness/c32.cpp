// C32 odd maps: every output is still well formed, whatever the map lacks
#include "client_util.h"
using namespace cl;
const char* VX_PROPERTY = "C32";
namespace {
const long long T0 = 1600000000000LL;
struct M { const char* name; std::vector<LevelSpec> l; };
LevelSpec three(LevelSpec l) { l.tx("a", 5, 5, 2).tx("b", 30, 6, 2).tx("c", 20, 25, 2); return l; }
const std::vector<M>& maps()
{
  static std::vector<M> v;
  if (v.empty())
  {
    typedef std::map<std::string, double> F; const F f1{{"a", -55}, {"b", -80}, {"c", -75}}, f2{{"a", -80}, {"b", -55}, {"c", -78}}, f3{{"a", -78}, {"b", -79}, {"c", -56}};
    auto L = [] (const char* id = "L1") { return LevelSpec(id, 40, 30); };
    v.push_back({"no level", {}});
    v.push_back({"outline only", {L()}});
    v.push_back({"one transmitter", {L().tx("a", 5, 5)}});
    v.push_back({"transmitters at one place", {L().tx("a", 5, 5).tx("b", 5, 5).tx("c", 5, 5)}});
    v.push_back({"transmitters in line", {L().tx("a", 5, 5).tx("b", 15, 10).tx("c", 25, 15)}});
    v.push_back({"one reference point", {three(L()).rp("r", 5, 5, f1)}});
    v.push_back({"two reference points", {three(L()).rp("r", 5, 5, f1).rp("s", 30, 6, f2)}});
    v.push_back({"reference points in line", {three(L()).rp("r", 5, 5, f1).rp("s", 15, 10, f2).rp("t", 25, 15, f3)}});
    v.push_back({"reference points at one place", {three(L()).rp("r", 5, 5, f1).rp("s", 5, 5, f2).rp("t", 5, 5, f3).rp("u", 20, 20, f3)}});
    v.push_back({"empty fingerprints", {three(L()).rp("r", 5, 5, {}).rp("s", 30, 6, {}).rp("t", 20, 25, {})}});
    v.push_back({"fingerprints of one", {three(L()).rp("r", 5, 5, {{"a", -50}}).rp("s", 30, 6, {{"b", -50}}).rp("t", 20, 25, {{"c", -50}}).rp("u", 20, 12, {})}});
    v.push_back({"equal fingerprints", {three(L()).rp("r", 5, 5, f1).rp("s", 30, 6, f1).rp("t", 20, 25, f1)}});
    v.push_back({"fingerprints of strangers", {L().rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    v.push_back({"graph of a point", {three(L()).graph({{3, 3}}, {}).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    v.push_back({"graph without length", {three(L()).graph({{3, 3}, {3, 3}, {9, 9}}, {{0, 1}, {2, 2}}).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    v.push_back({"everything outside", {L().tx("a", 105, 5).tx("b", 130, 6).tx("c", 120, 25).graph({{100, 0}, {100, 30}}, {{0, 1}}).rp("r", 105, 5, f1).rp("s", 130, 6, f2).rp("t", 120, 25, f3)}});
    v.push_back({"same transmitters on two levels", {three(L()).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3), three(L("L2")).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    v.push_back({"a good and a bare level", {L("L0"), three(L()).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    v.push_back({"wall of no width", {three(LevelSpec("L1", { Poly{ rect(0, 0, 40, 30), { rect(18, 12, 18, 16) } } })).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    v.push_back({"outline of no area", {three(LevelSpec("L1", { Poly{ rect(0, 0, 40, 0), {} } })).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3)}});
    { auto a = L(); for (int i = 0; i < 30; i++) { a.tx(fmt("n%d", i), 1 + i, 3); a.rp(fmt("p%d", i), 1 + i, 3 + i % 4, {{fmt("n%d", i), -50}, {"a", -70}}); } v.push_back({"many", {three(a)}}); }
    { auto a = L("L1"); a = three(a).graph({{2, 10}, {38, 10}, {38, 28}}, {{0, 1}, {1, 2}}).rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3).rp("u", 33, 22, {{"a", -70}, {"b", -66}, {"c", -71}}); auto b = L("L2").tx("e", 15, 3).tx("f", 35, 15).rp("q", 14, 3, {{"e", -57}, {"f", -90}}).rp("w", 36, 13, {{"e", -91}, {"f", -54}}).rp("z", 32, 3, {{"e", -77}, {"f", -70}}); v.push_back({"usual", {a, b}}); }
    v.push_back({"without a name", {L().tx("", 5, 5).tx("a", 30, 6).tx("b", 8, 8).rp("", 5, 5, {{"", -50}, {"a", -60}, {"b", -70}}).rp("s", 30, 6, {{"", -60}, {"a", -50}, {"b", -70}}).rp("t", 20, 25, {{"", -70}, {"a", -70}, {"b", -50}})}});
  }
  return v;
}
struct A { Ev e; long long dt; };
void run(Ctx& c, int n, const std::vector<A>& al, int mi, const std::function<void(CS&)>& mod, const std::vector<M>& maps = ::maps())
{
  auto& m = maps[mi]; int k = c.choose(6); NavigationSettings s = settings(m.l); configs()[k].f(s.commonSettings); if (mod) mod(s.commonSettings);
  static std::map<const M*, std::shared_ptr<LevelCollector>> made; auto& lc = made[&m]; if (!lc) lc = collector(m.l);
  auto cl = createNavigationClient(lc, s); std::string h = fmt("map '%s', %s:", m.name, configs()[k].name); long long t = T0; NavigationOutput last; bool fixed = false;
  auto look = [&](const NavigationOutput& o)
  {
    if (o.status != NavigationStatus::OK) { if (o.posLatitude != 0 || o.posLongitude != 0 || o.provider != Provider::NONE) c.fail("error-with-position", h + " -> " + show(o)); return; }
    std::string w = h + " -> " + show(o);
    c.check(std::isfinite(o.posLatitude) && std::isfinite(o.posLongitude) && std::isfinite(o.posAltitude) && std::isfinite(o.posR) && std::isfinite(o.posOrientation), "finite", w + ": not finite"); c.check(o.posR > 0, "radius", w + ": radius");
    if (o.provider != Provider::INDOOR) c.check(fixed, "source", w + ": no fix was given");
    bool known = false; for (auto& l : m.l) known |= l.id == o.posLevel; c.check(known, "level", w + ": not a level of the map");
    if (!s.commonSettings.useGpsOutsideMap)
    { auto p = xy(o.posLatitude, o.posLongitude); bool flat = std::string(m.name) == "outline of no area"; c.check(p.x >= -0.011 && p.x <= 40.011 && p.y >= -0.011 && p.y <= (flat ? 0 : 30) + 0.011, "outside", w + fmt(": (%.3f, %.3f) is outside of the level", p.x, p.y)); }
  };
  auto feed = [&](const Ev& e, long long dt)
  {
    long long t1 = t + dt; h += fmt(" %s@%lld", e.name.c_str(), t1 - T0);
    for (auto& q : shifted(e.m, t1))
    { t = q.ts; if (auto x = boost::get<SensorMeasurementData>(&q.data)) { if (x->type == ST::LOCATION) fixed = true; } auto o = cl->navigate({q}); c.step(); if (o.size() != 1) c.fail("one-output", h + fmt(": %d outputs", (int)o.size())); look(o[0]); last = o[0]; }
    auto st = cl->getStates(); c.check(st.size() == 1, "one-state", h + fmt(": %d states", (int)st.size()));
  };
  for (auto& q : prime(t)) { cl->navigate({q}); }
  for (int i = 0; i < c.rounds(n, n, i); i++) { auto& a = c.pick(al); feed(a.e, a.dt); }
  c.outcome(fmt("%s: %s", m.name, src(last))); c.state(Hasher().u(mi).u(hash(last)).h); c.note(h + " -> " + show(last));
}
void histories(Ctx& c)
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"c", -55}, {"a", -55}}), 1100}, {heard("b", -20), 1000}, {heard("", -50), (1LL << 32) + 1100}, {fixEv("fix", 22, 8, 6), 700}, {fixEv("outside", 160, -40, 2), 500}, {heard("zz", -40), 4000}, {walk(20), 40} };
  int mi = c.choose((int)maps().size()); run(c, c.tier(4, 5), al, mi, nullptr);
}
void switches(Ctx& c)
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"b", -58}, {"a", -82}, {"c", -79}}), 2100}, {fixEv("fix", 22, 8, 6), 700}, {heard("zz", -40), 4000} };
  int mi = c.choose((int)maps().size()); int sw = c.choose(32); run(c, c.tier(3, 4), al, mi, [&](CS& q) { q.useGraphProjection = sw & 1; q.useTimeSmoothing = sw & 2; q.useAbFilter = !(sw & 4); q.useSmoothing = true; q.useBarriers = sw & 8; q.graphProjDist = 12; if (sw & 16) { q.kNeighbors = 1; q.minNumOfMeasurementsForPositionCalculation = 1; q.useTriangles = !q.useTriangles; q.useBestRefPointLevel = !q.useBestRefPointLevel; q.useDiffMode = !q.useDiffMode; } });
}
// one or two settings at an end of their range
struct Odd { const char* name; std::function<void(CS&)> f; };
const std::vector<Odd> odds{
  {"usual", [](CS&) {}}, {"no neighbours", [](CS& q) { q.kNeighbors = 0; }}, {"many neighbours", [](CS& q) { q.kNeighbors = 1000000; }}, {"no measurements needed", [](CS& q) { q.minNumOfMeasurementsForPositionCalculation = 0; }}, {"many measurements needed", [](CS& q) { q.minNumOfMeasurementsForPositionCalculation = 1000; }},
  {"no averaging", [](CS& q) { q.sigAveragingTime = 0; }}, {"long shift", [](CS& q) { q.sigWindowShift = 7; }}, {"no shift", [](CS& q) { q.sigWindowShift = 0; }}, {"no cut-off", [](CS& q) { q.sigCutOffRss = -1e9; }}, {"all cut off", [](CS& q) { q.sigCutOffRss = 0; }}, {"closest none", [](CS& q) { q.useClosestAps = true; q.numClosestAps = 0; }},
  {"no smoothing", [](CS& q) { q.useSmoothing = true; q.smoothing = 0; }}, {"all smoothing", [](CS& q) { q.useSmoothing = true; q.smoothing = 1; }}, {"no reckoning", [](CS& q) { q.deadReckoningTime = 0; }}, {"stops at once", [](CS& q) { q.useStops = true; q.stopDetectionTime = 0; q.stopUpdateTime = 0; }}, {"stops never", [](CS& q) { q.useStops = true; q.stopDetectionTime = 1e6; q.stopUpdateTime = 1e6; }}, {"stops near", [](CS& q) { q.useStops = true; q.stopDetectionTime = 1; q.useStopsDistanceThresholdM = 0; }},
  {"graph at 0 m", [](CS& q) { q.useGraphProjection = true; q.graphProjDist = 0; }}, {"graph anywhere", [](CS& q) { q.useGraphProjection = true; q.graphProjDist = 1e9; }}, {"no sigma window", [](CS& q) { q.useGps = q.useGpsSigmaFilter = true; q.sigmaFilterWindow = 0; q.sigmaFilterDelta = 0; }}, {"wide sigma window", [](CS& q) { q.useGps = q.useGpsSigmaFilter = true; q.sigmaFilterWindow = 100; }},
  {"no accuracy", [](CS& q) { q.useGps = true; q.minGpsDeviation = 0; q.maxGpsDeviation = 0; }}, {"fusion without border", [](CS& q) { q.useGps = q.fuseGps = true; q.fuseGpsBorderM = 0; }}, {"fusion of old", [](CS& q) { q.useGps = q.fuseGps = true; q.fuseGpsBorderM = 1e9; q.positionIsTooOldSec = 1e6; q.gpsValidTimeWindowSec = 1e6; }}, {"times of 0", [](CS& q) { q.useGps = true; q.noSignalTimeThreshold = 0; q.noActionTimeThreshold = 0; q.positionIsTooOldSec = 0; q.gpsValidTimeWindowSec = 0; }},
  {"steps of 0", [](CS& q) { q.stepMultiplier = 0; }}, {"no sensors", [](CS& q) { q.hasAccelerometer = q.hasGyroscope = false; }}, {"azimuth at once", [](CS& q) { q.deviceAzimuthLifetimeSeconds = 0; q.useCalculatedAzimuth = true; }}, {"any satellites", [](CS& q) { q.useGps = q.preferIndoorSolution = true; q.minNumSats = 0; }}, {"barometer and points", [](CS& q) { q.useBarometer = q.useBestRefPointLevel = q.useRadiomap = true; }}, {"fine steps of accuracy", [](CS& q) { q.useAccuracyForSmoothing = q.useSmoothing = true; q.minDeviationM = 0; q.averageMovSpeed = 0; }}, {"ranges", [](CS& q) { q.measurementType = CS::MeasurementType::DISTANCE_V1; q.useAltitude = true; q.wiFiRttOffset = 100; q.signalsToUse = CS::SignalsToUse::BOTH; }},
};
void extremes(Ctx& c)
{
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}}), 1100}, {scan({{"e", -58}, {"f", -72}}), 2100}, {fixEv("fix", 22, 8, 6), 700}, {one("range", mRadio(0, "b", -50, RT::WIFI_RTT, 3)), 1000}, {walk(16), 40}, {heard("zz", -40), 4000} };
  int usual = 0; for (auto& m : maps()) { if (!strcmp(m.name, "usual")) break; usual++; }
  int a = c.choose((int)odds.size()), b = c.choose(c.tier(1, (int)odds.size())); if (b > a) throw SkipExec(); run(c, c.tier(4, 3), al, usual, [&](CS& q) { odds[a].f(q); odds[b].f(q); });
}
// two levels, each of any kind: what one has the other may lack
const char* KINDS[] = {"bare", "transmitters", "fingerprints of strangers", "one point", "three points", "four points", "points in line", "empty fingerprints", "weak fingerprints", "no transmitters"};
LevelSpec kind(int k, const char* id, const char* x, const char* y, const char* z)
{
  typedef std::map<std::string, double> F; const F f1{{x, -55}, {y, -80}, {z, -75}}, f2{{x, -80}, {y, -55}, {z, -78}}, f3{{x, -78}, {y, -79}, {z, -56}}; LevelSpec l(id, 40, 30);
  if (k != 0 && k != 2 && k != 9) l.tx(x, 5, 5, 2).tx(y, 30, 6, 2).tx(z, 20, 25, 2); if (k == 9) k = 5;
  switch (k)
  {
    case 2: l.rp("r", 5, 5, {{"k", -50}}).rp("s", 30, 6, {{"k", -60}}).rp("t", 20, 25, {{"k", -70}}).rp("u", 33, 22, {{"k", -72}}); break;
    case 3: l.rp("r", 5, 5, f1); break;
    case 4: l.rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3); break;
    case 5: l.rp("r", 5, 5, f1).rp("s", 30, 6, f2).rp("t", 20, 25, f3).rp("u", 33, 22, {{x, -70}, {y, -66}, {z, -71}}).graph({{2, 10}, {38, 10}}, {{0, 1}}); break;
    case 6: l.rp("r", 5, 5, f1).rp("s", 15, 10, f2).rp("t", 25, 15, f3).rp("u", 35, 20, f3); break;
    case 7: l.rp("r", 5, 5, {}).rp("s", 30, 6, {}).rp("t", 20, 25, {}).rp("u", 33, 22, {}); break;
    case 8: l.rp("r", 5, 5, {{x, -50}}).rp("s", 30, 6, {{y, -50}}).rp("t", 20, 25, {{z, -50}}).rp("u", 20, 12, {}); break;
  }
  return l;
}
void pairs(Ctx& c)
{
  static std::vector<M> v; static std::vector<std::string> names; const int K = sizeof(KINDS) / sizeof(*KINDS);
  if (v.empty()) { names.reserve(K * K); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { names.push_back(fmt("%s / %s", KINDS[i], KINDS[j])); v.push_back({names.back().c_str(), {kind(i, "L1", "a", "b", "c"), kind(j, "L2", "e", "f", "g")}}); } }
  static const std::vector<A> al{ {scan({{"a", -58}, {"b", -82}, {"c", -78}, {"a", -57}}), 1100}, {scan({{"e", -58}, {"f", -82}, {"g", -78}, {"e", -57}}), 1100}, {fixEv("fix", 22, 8, 6), 700}, {heard("a", -66), 2100}, {heard("zz", -40), 4000} };
  int mi = c.choose(K * K); int sw = c.choose(8); run(c, c.tier(2, 4), al, mi, [&](CS& q) { if (sw & 1) q.useTriangles = !q.useTriangles; if (sw & 2) q.useDiffMode = !q.useDiffMode; if (sw & 4) { q.useBestRefPointLevel = !q.useBestRefPointLevel; q.useAltitude = true; q.minNumOfMeasurementsForPositionCalculation = 2; } }, v);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"histories", histories, 2}, {"switches", switches, 3}, {"extremes", extremes, 3}, {"pairs", pairs, 2}, {"histories_lasso", lasso<histories, 300, 40, 2>, 4}, {"switches_lasso", lasso<switches, 100, 40, 1>, 4} }; }
