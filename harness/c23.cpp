// C23 settings, logs and maps are read as written
#include "client_util.h"
#include "tools/verification/helpers.h"
#include <unistd.h>
using namespace cl;
const char* VX_PROPERTY = "C23";
namespace {
struct Scratch { std::string d, f; Scratch() { const char* b = getenv("VX_SCRATCH"); std::string t = std::string(b ? b : "/tmp") + "/vx_c23_XXXXXX"; d = mkdtemp(&t[0]); f = d + "/file.json"; } ~Scratch() { unlink(f.c_str()); rmdir(d.c_str()); } std::string put(const std::string& s) { FILE* o = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); return f; } };
// one scratch file per process, below the directory check.py makes and removes
std::string N(double v) { return fmt("%.17g", v); }
struct Quiet { std::streambuf *a, *b; std::ostringstream s; Quiet() : a(std::cerr.rdbuf(s.rdbuf())), b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); } };
struct Setting { const char* key; std::vector<std::string> values; std::function<std::string(const CS&)> get; };
std::string txt(bool v) { return v ? "true" : "false"; } std::string txt(double v) { return N(v); } std::string txt(unsigned v) { return fmt("%u", v); } std::string txt(long long v) { return fmt("%lld", v); }
std::string txt(CS::UseAlgorithm v) { static const char* n[] = {"PF_PDR", "PF_NOPDR", "ZONES", "GRAPH", "KNN"}; return std::string("\"") + n[(int)v] + "\""; } std::string txt(CS::MeasurementType v) { static const char* n[] = {"rssi", "distance_v1", "distance_v2"}; return std::string("\"") + n[(int)v] + "\""; } std::string txt(CS::SignalsToUse v) { static const char* n[] = {"ble", "wifi", "both"}; return std::string("\"") + n[(int)v] + "\""; }
// the documented names (include/navigine/navigation-core/navigation_settings.h) and the settings they stand for
const std::vector<Setting>& table()
{
#define B(k, f) {k, {"true", "false"}, [](const CS& s) { return txt(s.f); }}
#define D(k, f) {k, {"0.375", "17", "-2.5"}, [](const CS& s) { return txt(s.f); }}
#define U(k, f) {k, {"7", "0", "1234"}, [](const CS& s) { return txt(s.f); }}
  static const std::vector<Setting> t{
    {"Use_algorithm", {"\"PF_PDR\"", "\"PF_NOPDR\"", "\"ZONES\"", "\"GRAPH\"", "\"KNN\""}, [](const CS& s) { return txt(s.useAlgorithm); }}, D("Correction_noise", lklCorrectionNoise), B("Use_enu_azimuth", useEnuAzimuth), B("Differention_mode", useDifferentionMode), B("Use_beacon_power", useTxPower), B("Use_radiomap", useRadiomap), B("Use_stops", useStops), B("Use_tracking", useTracking),
    D("Stop_detection_time", stopDetectionTime), D("Min_deviation_m", minDeviationM), D("Average_speed", averageMovSpeed), {"Measurement_type", {"\"rssi\"", "\"distance_v1\"", "\"distance_v2\""}, [](const CS& s) { return txt(s.measurementType); }}, B("Use_best_ref_point_level", useBestRefPointLevel), B("Use_barometer", useBarometer), B("Use_unknown_beacons", useUnknownTransmitters), D("Cutoff_rss", sigCutOffRss), B("Use_closest_aps", useClosestAps), U("N_closest_aps", numClosestAps),
    D("Sig_averaging_time", sigAveragingTime), D("Sig_window_shift", sigWindowShift), {"Use_Signals", {"\"ble\"", "\"wifi\"", "\"both\""}, [](const CS& s) { return txt(s.signalsToUse); }}, U("N_particles", numParticles), U("Min_msr_num_for_mutation", minMsrNumForMutation), D("Resampling_threshold_num", resamplingThreshold), U("Min_num_of_particles", minNumParticlesAlive), D("Gyro_noise_degree", gyroNoiseDegree), D("Step_noise_deviation_meters", stepNoiseDeviationMeters), B("Use_projection_to_white_area", useProjectionToWhiteArea),
    U("N_particles_around_closest_AP", numParticlesAroundClosestAp), U("N_particles_to_mutate", numParticlesToMutate), U("Num_sampling_attempts", numSamplingAttempts), U("Num_initialization_attempts", numInitializationAttempts), B("Use_uniform_sampling", useUniformSampling), U("K_neighbors", kNeighbors), B("Use_triangles", useTriangles), B("Use_diff_mode", useDiffMode), U("Min_num_of_measurements_for_position_calculation", minNumOfMeasurementsForPositionCalculation), D("Smoothing", smoothing), D("Dead_reckon_time", deadReckoningTime),
    D("Stop_update_time", stopUpdateTime), D("Graph_prog_distance", graphProjDist), D("Stopped_distance_threshold_m", useStopsDistanceThresholdM), B("Use_smoothing", useSmoothing), B("Use_graph_projection", useGraphProjection), B("Use_accuracy_for_smoothing", useAccuracyForSmoothing), B("Use_speed_constraint", useSpeedConstraint), B("Use_barriers", useBarriers), B("Use_time_smoothing", useTimeSmoothing), B("Use_ab_filter", useAbFilter), B("Use_altitude", useAltitude), B("Use_gps", useGps), B("Use_instant_gps_position", useInstantGpsPosition),
    B("Prefer_indoor_solution", preferIndoorSolution), B("Fuse_gps", fuseGps), B("Use_gps_outside_map", useGpsOutsideMap), B("Use_gps_sigma_filter", useGpsSigmaFilter), U("Sigma_filter_window", sigmaFilterWindow), D("Sigma_filter_delta", sigmaFilterDelta), U("Min_num_sats", minNumSats), D("Prior_deviation", priorDeviation), D("Gps_deviation", minGpsDeviation), D("Maximum_to_accept_gps_measurement", maxGpsDeviation), D("Fuse_gps_border", fuseGpsBorderM), U("No_signal_time_threshold", noSignalTimeThreshold), U("No_action_time_threshold", noActionTimeThreshold),
    D("Position_old_for_fusing_sec", positionIsTooOldSec), D("Gps_valid_time_window_sec", gpsValidTimeWindowSec), B("Use_calculated_azimuth", useCalculatedAzimuth), D("Device_azimuth_lifetime_seconds", deviceAzimuthLifetimeSeconds), D("Step_multiplier", stepMultiplier), B("Has_accelerometer", hasAccelerometer), B("Has_gyroscope", hasGyroscope), D("WiFi_RTT_Offset", wiFiRttOffset) };
#undef B
#undef D
#undef U
  return t;
}
const CS& defaults() { static CS d; return d; }
void compare(Ctx& c, const CS& got, const std::map<std::string, std::string>& set, const std::string& h)
{
  for (auto& s : table()) { auto it = set.find(s.key); std::string want = it == set.end() ? s.get(defaults()) : it->second, g = s.get(got); bool ok = g == want; if (!ok && want[0] != '"' && want[0] != 't' && want[0] != 'f') ok = std::stod(g) == std::stod(want); c.check(ok, it == set.end() ? "default" : "setting", h + ": " + s.key + " is " + g + ", expected " + want); }
  c.step();
}
NavigationSettings read(Ctx& c, Scratch& s, const std::string& body, const std::string& h, int want = 0)
{ Quiet q; int e = 77; NavigationSettings r; try { r = CreateSettingsFromJson(s.put(body), e); } catch (std::exception& x) { c.fail("settings-exception", h + ": exception " + x.what()); } c.check(e == want, "error-code", h + fmt(": error code %d", e)); return r; }
std::string doc(const std::string& common, const std::string& levels, bool swap) { std::string a = "\"level_settings\": [" + levels + "]", b = "\"common_settings\": [{" + common + "}]"; return "{" + (swap ? b + ",\n" + a : a + ",\n" + b) + "}"; }
// every setting alone, every pair of settings, in both orders, with an unknown or unreadable one among them
void common_settings(Ctx& c)
{
  static Scratch s; auto& t = table(); int n = (int)t.size(); int i = c.choose(n), j = c.choose(n + 1); auto& a = t[i]; std::string v = a.values[c.choose((int)a.values.size())]; std::map<std::string, std::string> set{{a.key, v}}; std::vector<std::string> e{std::string("\"") + a.key + "\": " + v};
  if (j < n) { if (j == i) return; auto& b = t[j]; std::string w = b.values[(i + j) % b.values.size()]; set[b.key] = w; e.push_back(std::string("\"") + b.key + "\": " + w); }
  int odd = c.choose(j < n ? (c.quick ? 1 : 3) : 7); if (odd == 1) e.insert(e.begin(), "\"A_unknown\": 3"); if (odd == 2) e.push_back("\"zz_unknown\": {\"x\": [1]}"); if (odd == 3) e.push_back("\"Smoothin\": 9"); if (odd > 3) { int k = (i * 7 + odd) % n; if (k == i) k = (k + 1) % n; static const char* bad[] = {"null", "[1, 2]", "{\"a\": 1}"}; if (t[k].values[0][0] == '"') return; e.insert(e.begin(), std::string("\"") + t[k].key + "\": " + bad[odd - 4]); }
  if (c.flip()) std::reverse(e.begin(), e.end()); std::string b; for (auto& x : e) b += (b.empty() ? "" : ", ") + x; compare(c, read(c, s, doc(b, "", i % 2), b).commonSettings, set, b); c.state(Hasher().s(b).h); c.outcome(odd ? "with odd entries" : fmt("%d settings", (int)set.size())); c.note(b);
}
// all settings at once, every value rotation, K as another name
void all_settings(Ctx& c)
{
  static Scratch s; int r = c.choose(15), rev = c.choose(2), alt = c.choose(3); std::map<std::string, std::string> set; std::vector<std::string> e; for (auto& x : table()) { std::string v = x.values[r % x.values.size()]; set[x.key] = v; std::string key = x.key; if (alt == 1 && key == "K_neighbors") key = "K"; if (alt == 1 && key == "Fuse_gps_border") key = "Fuse_gps_border_m"; if (alt == 2 && (set.size() % 3) == 0) { set.erase(x.key); continue; } e.push_back("\"" + key + "\": " + v); }
  if (rev) std::reverse(e.begin(), e.end()); std::string b; for (auto& x : e) b += (b.empty() ? "" : ", ") + x; compare(c, read(c, s, doc(b, "", rev), "all settings").commonSettings, set, fmt("all settings, rotation %d", r)); c.state(Hasher().s(b).h); c.outcome("all");
}
void level_settings(Ctx& c)
{
  static Scratch s; static const std::vector<std::pair<std::string, int>> V{ {"{\"A\": -70.5, \"B\": 2.25}", 3}, {"{\"B\": 2.25}", 2}, {"{\"A\": -70.5}", 1}, {"{}", 0}, {"{\"C\": 1, \"B\": 2.25, \"A\": \"x\"}", 2}, {"{\"A\": -70.5, \"GP\": 1, \"B\": null}", 1} }; static const std::vector<std::string> L{"L1", "L2", "-1", ""};
  int n = c.choose(4); std::map<std::string, int> want; std::string ls, h = "levels:"; for (int i = 0; i < n; i++) { auto& v = c.pick(V); auto& l = c.pick(L); if (want.count(l)) return; want[l] = v.second; ls += std::string(i ? ", " : "") + (c.flip() ? "{\"level\": \"" + l + "\", \"settings\": [" + v.first + "]}" : "{\"settings\": [" + v.first + "], \"level\": \"" + l + "\"}"); }
  auto r = read(c, s, doc("\"Smoothing\": 0.25", ls, c.flip()), h + ls); c.check(r.levelsSettings.size() == want.size(), "levels", h + ls + fmt(": %d levels", (int)r.levelsSettings.size())); compare(c, r.commonSettings, {{"Smoothing", "0.25"}}, h + ls);
  for (auto& w : want) { c.check(r.levelsSettings.count(LevelId(w.first)), "levels", h + ls + ": level " + w.first + " is missing"); auto& q = r.levelsSettings[LevelId(w.first)]; c.check(q.normalModeA == (w.second & 1 ? -70.5 : LevelSettings().normalModeA) && q.normalModeB == (w.second & 2 ? 2.25 : LevelSettings().normalModeB), "level-setting", h + ls + fmt(": A %g, B %g of '%s'", q.normalModeA, q.normalModeB, w.first.c_str())); }
  c.outcome(fmt("%d levels", n)); c.state(Hasher().s(ls).h); c.note(h + ls);
}
void missing_file(Ctx& c) { static Scratch s; unlink(s.f.c_str()); Quiet q; int e = 0; auto r = CreateSettingsFromJson(s.d + "/none.json", e); c.step(); c.check(e != 0, "missing-file", "a missing settings file is not reported"); c.check(GetNavMessages(s.d + "/none.json").empty(), "missing-file", "measurements from a missing file"); c.outcome("missing"); c.choose(1); }
// logs
struct Line { std::string json; int kind; int type; long long ts; double a, b, d; std::string id; };
const std::vector<Line>& lines()
{
  typedef ST S; static std::vector<Line> v; if (!v.empty()) return v;
  auto sens = [&](int code, S t, double x, double y, double z, long long ts, bool first) { v.push_back({first ? fmt("{\"type\": %d, \"values\": [%.17g, %.17g, %.17g], \"timestamp\": %lld}", code, x, y, z, ts) : fmt("{\"timestamp\": %lld, \"values\": [%.17g, %.17g, %.17g], \"type\": %d, \"more\": {\"x\": 1}}", ts, x, y, z, code), 1, (int)t, ts, x, y, z, ""}); };
  sens(101, S::ACCELEROMETER, 0.25, -1.125, 9.8, 1600000000000LL, false); sens(102, S::GYROSCOPE, 1e-9, -3, 0.1, 1600000000001LL, true); sens(103, S::MAGNETOMETER, 20, -40.5, 3, 5, false); sens(104, S::BAROMETER, 1013.25, 0, 0, 4102444800000LL, true); sens(105, S::ORIENTATION, 3.14, -0.5, 0.75, 1600000000002LL, false); sens(106, S::LOCATION, 59.123456789012, -30.987654321, 4.5, 1600000000003LL, true);
  auto rad = [&](int code, RT t, const char* id, bool rssi, bool dist, long long ts) { v.push_back({fmt("{\"timestamp\": %lld, \"type\": %d, \"bssid\": \"%s\"", ts, code, id) + (rssi ? ", \"rssi\": -71.5" : "") + (dist ? ", \"distance\": 3.25" : "") + "}", 2, (int)t, ts, rssi ? -71.5 : 0, dist ? 3.25 : 0, 0, id}); };
  rad(201, RT::WIFI, "AA:BB", true, false, 1600000000004LL); rad(202, RT::BLUETOOTH, "bt", true, true, 1600000000005LL); rad(203, RT::BEACON, "(1,2,UUID)", true, true, 1600000000006LL); rad(204, RT::EDDYSTONE, "ed dy", false, true, 1600000000007LL); rad(205, RT::WIFI_RTT, "", false, true, 1600000000008LL); rad(203, RT::BEACON, "b2", false, false, 0);
  v.push_back({"{\"sentence_number\": 1, \"num_sats\": 12, \"type\": 300, \"timestamp\": 1600000000009}", 3, 0, 1600000000009LL, 1, 12, 0, ""}); v.push_back({"{\"timestamp\": 1600000000010, \"type\": 300, \"num_sats\": 0, \"sentence_number\": 3}", 3, 0, 1600000000010LL, 3, 0, 0, ""});
  v.push_back({"{\"timestamp\": 1600000000011, \"type\": 999}", 0, 0, 0, 0, 0, 0, ""}); v.push_back({"{\"type\": 200, \"timestamp\": 3, \"bssid\": \"x\", \"values\": []}", 0, 0, 0, 0, 0, 0, ""}); v.push_back({"{\"type\": 100, \"timestamp\": 3}", 0, 0, 0, 0, 0, 0, ""}); v.push_back({"{\"type\": 107, \"timestamp\": 3}", 0, 0, 0, 0, 0, 0, ""}); v.push_back({"{\"type\": 206, \"timestamp\": 3}", 0, 0, 0, 0, 0, 0, ""}); v.push_back({"{\"type\": 0, \"timestamp\": 3}", 0, 0, 0, 0, 0, 0, ""});
  return v;
}
void logs(Ctx& c)
{
  static Scratch s; int n = c.choose(c.tier(4, 5)); std::vector<const Line*> l; std::string b; for (int i = 0; i < n; i++) { l.push_back(&c.pick(lines())); b += l.back()->json + "\n"; } std::vector<Measurement> m; { Quiet q; try { m = GetNavMessages(s.put(b)); } catch (std::exception& x) { c.fail("log-exception", b + x.what()); } } c.step();
  size_t k = 0; for (auto x : l) if (x->kind)
  {
    c.check(k < m.size(), "log-entries", "log\n" + b + fmt("has only %d measurements", (int)m.size())); auto& g = m[k++]; c.check(g.ts == x->ts, "log-time", b + fmt("time %lld, expected %lld", g.ts, x->ts));
    if (x->kind == 1) { auto p = boost::get<SensorMeasurementData>(&g.data); c.check(p && (int)p->type == x->type, "log-type", b + "kind of " + x->json); c.check(p->values.x == x->a && p->values.y == x->b && p->values.z == x->d, "log-values", b + "values of " + x->json); }
    if (x->kind == 2) { auto p = boost::get<RadioMeasurementData>(&g.data); c.check(p && (int)p->type == x->type, "log-type", b + "kind of " + x->json); c.check(p->id.value == x->id && p->rssi == x->a && p->distance == x->b, "log-values", b + "values of " + x->json); }
    if (x->kind == 3) { auto p = boost::get<NmeaMeasurementData>(&g.data); c.check(p, "log-type", b + "kind of " + x->json); c.check(p->sentenceNumber == (int)x->a && p->satellitesNumber == (int)x->b, "log-values", b + "values of " + x->json); }
  }
  c.check(k == m.size(), "log-entries", "log\n" + b + fmt("gives %d measurements, expected %d", (int)m.size(), (int)k)); c.state(Hasher().s(b).h); c.outcome(fmt("log %d/%d", (int)k, n)); c.note(b);
}
// maps
struct F { const char* kind; std::string level, id, json; double lat, lon, z, A, B; TransmitterType t; std::map<std::string, std::pair<double, int>> fp; std::vector<std::vector<std::pair<double, double>>> lines; };
std::string feature(const std::string& props, const std::string& geom, const std::string& coords, bool swap) { std::string a = "\"properties\": {" + props + "}", b = "\"geometry\": {\"type\": \"" + geom + "\", \"coordinates\": " + coords + "}"; return "{\"type\": \"Feature\", " + (swap ? b + ", " + a : a + ", " + b) + "}"; }
const std::vector<F>& pool()
{
  static std::vector<F> v; if (!v.empty()) return v; auto lv = [&](const char* l, const std::string& coords) { F f{"level", l, l, feature(std::string("\"type\": \"level\", \"level\": \"") + l + "\"", "MultiPolygon", coords, v.size() % 2), 0, 0, 0, 0, 0, TransmitterType::BEACON, {}, {}}; v.push_back(f); };
  lv("L1", "[[[[30, 60], [30.001, 60], [30.001, 60.0004], [30, 60.0004], [30, 60]], [[30.0002, 60.0001], [30.0002, 60.0002], [30.0004, 60.0002], [30.0004, 60.0001], [30.0002, 60.0001]]], [[[30.002, 60], [30.003, 60], [30.003, 60.0002], [30.002, 60.0002], [30.002, 60]]]]");
  lv("L2", "[[[[-70.5, -33.5], [-70.499, -33.5], [-70.499, -33.4995], [-70.5, -33.4995], [-70.5, -33.5]]]]");
  auto tx = [&](const char* l, const char* id, const char* type, TransmitterType t, double lon, double lat, double z, bool dim, double A, double B, bool model) { F f{"tx", l, id, feature(fmt("\"type\": \"transmitter\", \"level\": \"%s\", \"uuid\": \"%s\", \"transmitter_type\": \"%s\"", l, id, type) + (model ? fmt(", \"A\": %g, \"B\": %g", A, B) : ""), "Point", dim ? fmt("[%.12g, %.12g, %g]", lon, lat, z) : fmt("[%.12g, %.12g]", lon, lat), v.size() % 2), lat, lon, dim ? z : 0, model ? A : -80, model ? B : 3, t, {}, {}}; v.push_back(f); };
  tx("L1", "a", "BEACON", TransmitterType::BEACON, 30.0001, 60.0003, 2.5, true, -61.5, 2.25, true); tx("L1", "b", "WIFI", TransmitterType::WIFI, 30.0009, 60.0001, 0, false, 0, 0, false); tx("L2", "c", "LOCATOR", TransmitterType::LOCATOR, -70.4993, -33.4997, -1, true, -55, 4, true); tx("L9", "d", "EDDYSTONE", TransmitterType::EDDYSTONE, 30, 60, 1, true, 0, 0, false);
  auto rp = [&](const char* l, const char* id, double lon, double lat, const std::string& entries, std::map<std::string, std::pair<double, int>> fp) { F f{"rp", l, id, feature(fmt("\"type\": \"reference_point\", \"level\": \"%s\", \"uuid\": \"%s\", \"entries\": [", l, id) + entries + "]", "Point", fmt("[%.12g, %.12g]", lon, lat), v.size() % 2), lat, lon, 0, 0, 0, TransmitterType::BEACON, fp, {}}; v.push_back(f); };
  rp("L1", "r1", 30.0005, 60.00015, "{\"bssid\": \"a\", \"type\": \"BEACON\", \"value\": [{\"rssi\": 60, \"count\": 3}, {\"rssi\": 71, \"count\": 1}]}, {\"bssid\": \"b\", \"type\": \"WIFI\", \"value\": [{\"rssi\": 80, \"count\": 2}]}", {{"a", {-62.75, 4}}, {"b", {-80, 2}}}); rp("L2", "r2", -70.4999, -33.4999, "{\"bssid\": \"c\", \"type\": \"LOCATOR\", \"value\": [{\"rssi\": 50, \"count\": 1}, {\"rssi\": 52, \"count\": 1}, {\"rssi\": 57, \"count\": 2}]}", {{"c", {-54, 4}}}); rp("L1", "r3", 30.0026, 60.0001, "", {});
  auto gr = [&](const char* l, const std::vector<std::vector<std::pair<double, double>>>& ln) { std::string s; for (auto& e : ln) s += (s.empty() ? "[[" : ", [[") + N(e[0].first) + ", " + N(e[0].second) + "], [" + N(e[1].first) + ", " + N(e[1].second) + "]]"; F f{"graph", l, l, feature(std::string("\"type\": \"graph\", \"level\": \"") + l + "\"", "MultiLineString", "[" + s + "]", v.size() % 2), 0, 0, 0, 0, 0, TransmitterType::BEACON, {}, ln}; v.push_back(f); };
  gr("L1", {{{30.0001, 60.0001}, {30.0008, 60.0001}}, {{30.0008, 60.0001}, {30.0008, 60.0003}}, {{30.0008, 60.0003}, {30.0001, 60.0001}}, {{30.0008, 60.00030000001}, {30.0024, 60.0001}}, {{30.0001, 60.0001}, {30.0008, 60.0001}}}); gr("L2", {{{-70.4999, -33.4999}, {-70.4992, -33.4996}}, {{-70.4995, -33.4996}, {-70.4998, -33.4997}}});
  v.push_back(F{"other", "L1", "x", feature("\"type\": \"room\", \"level\": \"L1\", \"uuid\": \"x\"", "Point", "[30, 60]", false), 0, 0, 0, 0, 0, TransmitterType::BEACON, {}, {}}); return v;
}
void level(Ctx& c, const GeoLevel& l, const std::vector<const F*>& use, const std::string& names)
{
  std::string h = names + ", level " + l.id.value; bool one = l.id.value == "L1"; size_t nt = 0, nr = 0; const F* gr = nullptr;
  auto bb = l.geometry.boundingBox(); double w[4] = {one ? 60 : -33.5, one ? 30 : -70.5, one ? 60.0004 : -33.4995, one ? 30.003 : -70.499}; c.check(std::fabs(bb.min_corner().x() - w[0]) < 1e-9 && std::fabs(bb.min_corner().y() - w[1]) < 1e-9 && std::fabs(bb.max_corner().x() - w[2]) < 1e-9 && std::fabs(bb.max_corner().y() - w[3]) < 1e-9, "map-outline", h + ": bounding box");
  auto& area = l.geometry.allowedArea(); c.check(area.size() == (one ? 2u : 1u) && area[0].inners().size() == (one ? 1u : 0u), "map-outline", h + ": polygons and holes"); c.near(boost::geometry::area(area) * 1e6, one ? 0.4 - 0.02 + 0.2 : 0.5, 1e-6, "map-outline", h + ": area");
  for (auto f : use) if (f->level == l.id.value)
  {
    if (std::string(f->kind) == "tx") { nt++; bool ok = false; for (auto& t : l.transmitters) if (t.id.value == f->id) ok = std::fabs(t.point.latitude - f->lat) < 1e-11 && std::fabs(t.point.longitude - f->lon) < 1e-11 && t.point.altitude == f->z && t.pathlossModel.A == f->A && t.pathlossModel.B == f->B && t.type == f->t; c.check(ok, "map-transmitter", h + ": transmitter " + f->id); }
    if (std::string(f->kind) == "rp") { nr++; bool ok = false; for (auto& r : l.referencePoints) if (r.id.value == f->id) { ok = std::fabs(r.point.latitude - f->lat) < 1e-11 && std::fabs(r.point.longitude - f->lon) < 1e-11 && r.fingerprints.size() == f->fp.size(); for (auto& q : f->fp) { auto it = r.fingerprints.find(TransmitterId(q.first)); ok = ok && it != r.fingerprints.end() && std::fabs(it->second.mean - q.second.first) < 1e-9 && (int)it->second.nMeasurements == q.second.second; } } c.check(ok, "map-reference-point", h + ": reference point " + f->id); }
    if (std::string(f->kind) == "graph") gr = f;
  }
  c.check(l.transmitters.size() == nt, "map-transmitter", h + fmt(": %d transmitters, expected %d", (int)l.transmitters.size(), (int)nt)); c.check(l.referencePoints.size() == nr, "map-reference-point", h + fmt(": %d reference points, expected %d", (int)l.referencePoints.size(), (int)nr));
  // vertices closer than 0.1 m are one; edges as pairs of places
  std::vector<std::pair<double, double>> vs; auto idx = [&](std::pair<double, double> q) { for (size_t i = 0; i < vs.size(); i++) if (std::fabs(vs[i].first - q.first) < 1e-7 && std::fabs(vs[i].second - q.second) < 1e-7) return (int)i; vs.push_back(q); return (int)vs.size() - 1; };
  std::set<std::pair<int, int>> want, got; if (gr) for (auto& e : gr->lines) { int a = idx(e[0]), b = idx(e[1]); want.insert({std::min(a, b), std::max(a, b)}); } size_t nv = vs.size(), have = 0; for (auto it = l.graph.vertexBegin(); it != l.graph.vertexEnd(); ++it) { have++; idx({it->point.longitude, it->point.latitude}); }
  c.check(have == nv && vs.size() == nv, "map-graph", h + fmt(": %d graph vertices, expected %d", (int)have, (int)nv)); for (auto it = l.graph.edgesBegin(); it != l.graph.edgesEnd(); ++it) { auto u = l.graph.getVertex(it->first).point, v = l.graph.getVertex(it->second).point; int a = idx({u.longitude, u.latitude}), b = idx({v.longitude, v.latitude}); got.insert({std::min(a, b), std::max(a, b)}); } c.check(got == want, "map-graph", h + ": graph edges");
}
void maps(Ctx& c)
{
  static Scratch s; auto& p = pool(); std::vector<const F*> use; std::vector<bool> in(p.size(), false); std::string names; int n = c.tier(4, 5); for (int i = 0; i < n; i++) { int k = c.choose((int)p.size() + 1); if (k == (int)p.size()) break; if (in[k]) return; in[k] = true; use.push_back(&p[k]); names += std::string(" ") + p[k].kind + ":" + p[k].id; }
  std::string b; for (auto f : use) b += (b.empty() ? "" : ",\n") + f->json; GeoLevels g; int e = 9; { Quiet q; try { g = ParseGeojson(s.put("{\"type\": \"FeatureCollection\", \"features\": [" + b + "]}"), e); } catch (std::exception& x) { c.fail("map-exception", names + ": " + x.what()); } } c.step(); c.check(e == 0, "map-error", names + fmt(": error %d", e));
  std::set<std::string> lv; for (auto f : use) if (std::string(f->kind) == "level") lv.insert(f->level); c.check(g.size() == lv.size(), "map-levels", names + fmt(": %d levels, expected %d", (int)g.size(), (int)lv.size())); std::set<std::string> seen; for (auto& l : g) { c.check(lv.count(l->id.value) && seen.insert(l->id.value).second, "map-levels", names + ": level " + l->id.value); level(c, *l, use, names); }
  c.state(Hasher().s(b).h); c.outcome(fmt("map of %d levels", (int)lv.size())); c.note(names);
}
// read from files, the client gives the same outputs as with the map, settings and log built in memory
std::string poly(const std::vector<XYPoint>& r) { std::string s = "["; for (auto& p : r) { GeoPoint g = at(p.x, p.y); s += (s.size() > 1 ? ", [" : "[") + N(g.longitude) + ", " + N(g.latitude) + "]"; } return s + "]"; }
void end_to_end(Ctx& c)
{
  static Scratch s; static std::shared_ptr<LevelCollector> direct, parsed; bool rev = c.choose(2); static bool wasRev = false;
  if (!direct || rev != wasRev)
  {
    direct = createLevelCollector(); parsed = createLevelCollector(); wasRev = rev; std::vector<std::string> f; f.push_back(feature("\"type\": \"level\", \"level\": \"L1\"", "MultiPolygon", "[[" + poly(rect(0, 0, 40, 30)) + ", " + poly(rect(18, 12, 22, 16)) + "]]", false)); f.push_back(feature("\"type\": \"level\", \"level\": \"L2\"", "MultiPolygon", "[[" + poly({{10, -5}, {10, 20}, {50, 20}, {50, 5}, {30, 5}, {30, -5}, {10, -5}}) + "]]", false));
    for (auto l : specs())
    {
      auto g = l.g; g.altitude = 100; for (auto& r : g.referencePoints) for (auto& q : r.fingerprints) q.second.mean = std::round(q.second.mean); direct->addGeoLevel(g); std::string lv = "\"level\": \"" + l.id.value + "\", ";
      for (auto& t : g.transmitters) f.push_back(feature("\"type\": \"transmitter\", " + lv + "\"uuid\": \"" + t.id.value + "\", \"transmitter_type\": \"" + (t.type == TransmitterType::WIFI ? "WIFI" : "BEACON") + "\", \"A\": " + N(t.pathlossModel.A) + ", \"B\": " + N(t.pathlossModel.B), "Point", "[" + N(t.point.longitude) + ", " + N(t.point.latitude) + ", " + N(t.point.altitude) + "]", false));
      for (auto& r : g.referencePoints) { std::string e; for (auto& q : r.fingerprints) e += (e.empty() ? "" : ", ") + fmt("{\"bssid\": \"%s\", \"type\": \"BEACON\", \"value\": [{\"rssi\": %d, \"count\": 3}]}", q.first.value.c_str(), (int)-q.second.mean); f.push_back(feature("\"type\": \"reference_point\", " + lv + "\"uuid\": \"" + r.id.value + "\", \"entries\": [" + e + "]", "Point", "[" + N(r.point.longitude) + ", " + N(r.point.latitude) + "]", false)); }
      std::string e; for (auto it = g.graph.edgesBegin(); it != g.graph.edgesEnd(); ++it) { auto u = g.graph.getVertex(it->first).point, v = g.graph.getVertex(it->second).point; e += (e.empty() ? "[[" : ", [[") + N(u.longitude) + ", " + N(u.latitude) + "], [" + N(v.longitude) + ", " + N(v.latitude) + "]]"; } f.push_back(feature("\"type\": \"graph\", \"level\": \"" + l.id.value + "\"", "MultiLineString", "[" + e + "]", false));
    }
    if (rev) std::reverse(f.begin(), f.end()); std::string b; for (auto& x : f) b += (b.empty() ? "" : ",\n") + x; Quiet q; int e = 0; for (auto& l : ParseGeojson(s.put("{\"features\": [" + b + "]}"), e)) parsed->addGeoLevel(*l);
  }
  int k = c.choose(6); NavigationSettings set; set.commonSettings = settingsOf(k).commonSettings; std::string b; for (auto& x : table()) if (x.get(set.commonSettings) != x.get(defaults())) b += (b.empty() ? "\"" : ", \"") + std::string(x.key) + "\": " + x.get(set.commonSettings); std::string ls; for (auto& l : settingsOf(k).levelsSettings) ls += (ls.empty() ? "" : ", ") + fmt("{\"level\": \"%s\", \"settings\": [{\"A\": %g, \"B\": %g}]}", l.first.value.c_str(), l.second.normalModeA, l.second.normalModeB);
  auto rs = read(c, s, doc(b, ls, rev), b); auto A = createNavigationClient(direct, settingsOf(k)), P = createNavigationClient(parsed, rs); long long t = 1600000000000LL; std::vector<Measurement> m = prime(t); std::string h = std::string(configs()[k].name) + ":";
  static const std::vector<Ev> al{ scan({{"a", -58}, {"b", -82}, {"c", -78}}), scan({{"e", -60}, {"f", -86}, {"g", -74}}), fixEv("fix", 22, 8, 6), heard("b", -61), one("az", mSensor(0, ST::ORIENTATION, 0.5, 0.1, 0.2)), one("nmea", mNmea(0, 1, 3)) }; for (int i = 0; i < c.tier(3, 4); i++) { auto& a = c.pick(al); for (auto& x : shifted(a.m, t + 1100)) m.push_back(x); t = m.back().ts; h += " " + a.name; }
  std::string log; for (auto& x : m) { if (auto r = boost::get<RadioMeasurementData>(&x.data)) log += fmt("{\"timestamp\": %lld, \"type\": %d, \"bssid\": \"%s\", \"rssi\": %s}\n", x.ts, r->type == RT::WIFI ? 201 : 203, r->id.value.c_str(), N(r->rssi).c_str()); else if (auto q = boost::get<SensorMeasurementData>(&x.data)) log += fmt("{\"timestamp\": %lld, \"type\": %d, \"values\": [%s, %s, %s]}\n", x.ts, q->type == ST::LOCATION ? 106 : q->type == ST::ORIENTATION ? 105 : 102, N(q->values.x).c_str(), N(q->values.y).c_str(), N(q->values.z).c_str()); else if (auto w = boost::get<NmeaMeasurementData>(&x.data)) log += fmt("{\"timestamp\": %lld, \"type\": 300, \"sentence_number\": %d, \"num_sats\": %d}\n", x.ts, w->sentenceNumber, w->satellitesNumber); }
  std::vector<Measurement> pm; { Quiet q; pm = GetNavMessages(s.put(log)); } Run ra, rp; feed(*A, m, ra); feed(*P, pm, rp); c.step(m.size()); auto d = diff(rp, ra, 1e-7); c.check(d.empty(), "end-to-end", h + ": " + d); c.outcome(std::string("end to end ") + src(ra.out.back())); for (auto& o : ra.out) c.state(hash(o)); c.note(h);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"common_settings", common_settings, 2}, {"all_settings", all_settings, 2}, {"level_settings", level_settings, 3}, {"missing_file", missing_file, 1}, {"logs", logs, 3}, {"maps", maps, 3}, {"end_to_end", end_to_end, 3} }; }
