// C19 orientation filter
#include <array>
#include "core_util.h"
#include "sensor_fusion/complementary_filter.h"
#include "sensor_fusion/sensor_fusion.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C19";
namespace {
typedef SensorMeasurementData::Type ST;
SensorMeasurement sm(long long t, ST ty, double x, double y, double z) { SensorMeasurement m; m.ts = t; m.data.type = ty; m.data.values = Vector3d(x, y, z); return m; }
typedef std::array<double, 3> V; typedef std::array<V, 3> Mat;
V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double len(const V& a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
V unit(const V& a) { double l = len(a); return l > 1e-12 ? V{a[0] / l, a[1] / l, a[2] / l} : V{0, 0, 0}; }
V mul(const Mat& r, const V& v) { V o; for (int i = 0; i < 3; i++) o[i] = r[i][0] * v[0] + r[i][1] * v[1] + r[i][2] * v[2]; return o; }
V tmul(const Mat& r, const V& v) { V o; for (int i = 0; i < 3; i++) o[i] = r[0][i] * v[0] + r[1][i] * v[1] + r[2][i] * v[2]; return o; }
Mat mm(const Mat& a, const Mat& b) { Mat o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; return o; }
// rotation of the sensor frame to the world; a small turn w is the quaternion (1, w/2) normalised, i.e. the angle 2 atan(|w|/2) about w
Mat turn(const V& w)
{
  double l = len(w); if (l < 1e-300) return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; double a = 2 * std::atan(l / 2), s = std::sin(a), c = std::cos(a); V u = unit(w); if (l < 1e-12) u = V{w[0] / l, w[1] / l, w[2] / l};
  Mat r; V K[3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = (i == j ? c : 0) + s * K[i][j] + (1 - c) * u[i] * u[j]; return r;
}
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
struct Model
{
  double ka, km, ki; Mat r{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; V in{0, 0, 0}; long long gyro = -1; double magAz = 0, gyroHead = 0, device = 0; long long devTs = -1, now = -1; bool magSure = true, sure = true; 
  void apply(const V& w) { r = mm(r, turn(w)); }
  double yaw() const { return std::atan2(r[1][0], r[0][0]); }
  bool vertical() const { return std::fabs(r[2][0]) > 1 - 1e-7; }
  void step(long long t, ST ty, V v)
  {
    now = t;
    if (ty == ST::ACCELEROMETER) { V g = tmul(r, {0, 0, 1}), e = cross(unit(v), g); for (auto& q : e) q *= 1; V w{ka * e[0], ka * e[1], ka * e[2]}; apply(w); for (int i = 0; i < 3; i++) in[i] += ki * e[i]; }
    if (ty == ST::MAGNETOMETER)
    {
      V m = unit(v); if (gyro < 0 && len(m) > 0) { V g = mul(r, m); V h{0, std::hypot(g[0], g[1]), g[2]}; V e = cross(m, tmul(r, h)); apply({km * e[0], km * e[1], km * e[2]}); for (int i = 0; i < 3; i++) in[i] += ki * e[i]; }
      V g = mul(r, m); double a = std::atan2(g[1], g[0]) - yaw(); magSure = !vertical() && std::hypot(g[0], g[1]) > 1e-6; magAz = wrap(a - M_PI / 2);
    }
    if (ty == ST::GYROSCOPE) { if (gyro < 0) gyro = t; double dt = (t - gyro) / 1000.0; gyro = t; apply({(v[0] + in[0]) * dt, (v[1] + in[1]) * dt, (v[2] + in[2]) * dt}); gyroHead = -yaw(); gyroSure = !vertical(); }
    if (ty == ST::ORIENTATION) { device = v[0]; devTs = t; }
  }
  bool gyroSure = true;
};
struct R { ST t; V v; const char* n; };
const std::vector<R> READ{
  {ST::ACCELEROMETER, {0, 0, 9.8}, "acc flat"}, {ST::ACCELEROMETER, {9.8, 0, 0}, "acc x"}, {ST::ACCELEROMETER, {0.5, -6, 7}, "acc tilted"}, {ST::ACCELEROMETER, {0, 0, 0}, "acc zero"},
  {ST::MAGNETOMETER, {0, 20, -40}, "mag north"}, {ST::MAGNETOMETER, {-20, 3, 10}, "mag west"}, {ST::MAGNETOMETER, {0, 0, 0}, "mag zero"},
  {ST::GYROSCOPE, {0, 0, 1.5}, "gyro z"}, {ST::GYROSCOPE, {2, -1, 0.3}, "gyro mixed"}, {ST::GYROSCOPE, {0, 0, 0}, "gyro zero"}, {ST::ORIENTATION, {0.7, 9, 9}, "device 0.7"}, {ST::BAROMETER, {1013, 5, 5}, "pressure"} };
bool anglesClose(double a, double b, double tol) { return std::fabs(wrap(a - b)) <= tol; }
void compare(Ctx& c, const ComplementaryFilter& f, const Model& m, const std::string& s)
{
  Orientation o = f.getFusedOrientation(); c.check(std::isfinite(o.roll) && std::isfinite(o.pitch) && std::isfinite(o.yaw), "finite", s + ": angle not finite"); c.check(std::fabs(o.roll) <= M_PI + 1e-12 && std::fabs(o.yaw) <= M_PI + 1e-12 && std::fabs(o.pitch) <= M_PI / 2 + 1e-12, "range", s + ": angle out of range");
  c.check(o.ts == m.now, "time", s + ": time of the orientation"); c.near(f.getFusedAzimuth(), -o.yaw, 1e-12, "azimuth-sign", s + ": azimuth is minus yaw");
  if (!m.vertical())
  {
    double cr = cos(o.roll), sr = sin(o.roll), cp = cos(o.pitch), sp = sin(o.pitch), cy = cos(o.yaw), sy = sin(o.yaw); Mat g{{{cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr}, {sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr}, {-sp, cp * sr, cp * cr}}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.near(g[i][j], m.r[i][j], 1e-6, "orientation", s + fmt(": roll %.6f pitch %.6f yaw %.6f, matrix element %d %d", o.roll, o.pitch, o.yaw, i, j));
  }
  if (m.magSure) c.check(anglesClose(f.getMagneticAzimuth(), m.magAz, 1e-5), "magnetic", s + fmt(": magnetic azimuth %.7f, expected %.7f", f.getMagneticAzimuth(), m.magAz)); c.check(std::fabs(f.getMagneticAzimuth()) <= M_PI + 1e-12, "range", s + ": magnetic azimuth out of range");
  if (m.gyroSure) c.check(anglesClose(f.getGyroHeading(), m.gyroHead, 1e-6), "gyro-heading", s + fmt(": gyro heading %.7f, expected %.7f", f.getGyroHeading(), m.gyroHead));
  c.near(f.getDeviceAzimuth(), m.device, 1e-12, "device", s + ": device azimuth");
}
void readings(Ctx& c)
{
  NavigationSettings n; n.commonSettings.deviceAzimuthLifetimeSeconds = 1.5; bool ki = c.flip(); Model m{ki ? 0.3 : 0.1, ki ? 0.2 : 0.05, ki ? 0.02 : 0.0}; auto f = ki ? ComplementaryFilter(n, 0.3, 0.2, 0.02) : ComplementaryFilter(n); long long t = 1600000000000LL; std::string s = ki ? "gains 0.3 0.2 0.02:" : "";
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    auto& r = c.pick(READ); int rep = c.choose(!c.quick || i < 2 ? 3 : i == 2 ? 2 : 1); long long dt = rep == 0 ? 20 : rep == 1 ? 700 : 30; int k = rep == 2 ? 12 : 1; s += fmt(" %s %lldms*%d", r.n, dt, k);
    for (int q = 0; q < k; q++) { t += dt; f.update(sm(t, r.t, r.v[0], r.v[1], r.v[2])); m.step(t, r.t, r.v); c.step(); bool old = m.devTs < 0 || t - m.devTs > 1500; c.check(f.isDeviceAzimuthOutdated() == old, "lifetime", s + fmt(": device azimuth is %soutdated", old ? "" : "not ")); compare(c, f, m, s); }
    if (c.tracing()) { auto o = f.getFusedOrientation(); c.note(s + fmt(" -> roll %.5f pitch %.5f yaw %.5f magnetic %.5f", o.roll, o.pitch, o.yaw, f.getMagneticAzimuth())); }
    if (m.vertical()) { c.outcome("vertical"); return; } Hasher h; for (auto& a : m.r) for (double d : a) h.d(d); c.state(h.d(m.magAz).d(m.gyroHead).i(m.gyro < 0).i(m.devTs < 0 ? -1 : std::min<long long>(t - m.devTs, 1501)).h); c.outcome(m.gyro < 0 ? "before gyro" : m.devTs < 0 ? "with gyro" : "device");
  }
}
// pauses of weeks, longer than 2^31 and 2^32 milliseconds
void pauses(Ctx& c)
{
  NavigationSettings n; n.commonSettings.deviceAzimuthLifetimeSeconds = 1.5; Model m{0.1, 0.05, 0}; ComplementaryFilter f(n); long long t = 1600000000000LL; std::string s;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    static const int Q[] = {2, 4, 7, 8, 10}; auto& r = READ[Q[c.choose(5)]]; long long dt = c.pick(std::vector<long long>{20, (1LL << 31) + 50, (1LL << 32) + 20}); s += fmt(" %s after %lldms", r.n, dt); t += dt; f.update(sm(t, r.t, r.v[0], r.v[1], r.v[2])); m.step(t, r.t, r.v); c.step();
    bool old = m.devTs < 0 || t - m.devTs > 1500; c.check(f.isDeviceAzimuthOutdated() == old, "lifetime", s + fmt(": device azimuth is %soutdated", old ? "" : "not ")); compare(c, f, m, s); if (m.vertical()) return; Hasher h; for (auto& a : m.r) for (double d : a) h.d(d); c.state(h.i(old).h);
  }
  c.note(s); c.outcome("pauses");
}
// a device at rest: its tilt follows from gravity, in every attitude, and its azimuth from the magnetic field
void still(Ctx& c)
{
  double roll = -2.8 + 0.4 * c.choose(15), pitch = -1.4 + 0.35 * c.choose(9), az = c.quick ? -3.0 + c.choose(7) : -3.0 + 0.5 * c.choose(13); int order = c.choose(3); NavigationSettings n; ComplementaryFilter f(n);
  double cr = cos(roll), sr = sin(roll), cp = cos(pitch), sp = sin(pitch), ca = cos(-az), sa = sin(-az); Mat g{{{ca * cp, ca * sp * sr - sa * cr, ca * sp * cr + sa * sr}, {sa * cp, sa * sp * sr + ca * cr, sa * sp * cr - ca * sr}, {-sp, cp * sr, cp * cr}}};
  V a = tmul(g, {0, 0, 9.81}), b = tmul(g, {0, 22, -38}); if (a[2] / 9.81 < -0.93) return; long long t = 1600000000000LL; int N = 15000;
  for (int i = 0; i < N; i++) { t += 20; if (order != 1 || i % 3) f.update(sm(t, ST::ACCELEROMETER, a[0], a[1], a[2])); if (order == 2 && i > N / 2) f.update(sm(t, ST::GYROSCOPE, 0, 0, 0)); f.update(sm(t, ST::MAGNETOMETER, b[0], b[1], b[2])); c.step(); }
  Orientation o = f.getFusedOrientation(); std::string s = fmt("at rest, roll %.2f pitch %.2f azimuth %.2f", roll, pitch, az); c.note(s + fmt(" -> %.4f %.4f %.4f, magnetic azimuth %.4f", o.roll, o.pitch, f.getFusedAzimuth(), f.getMagneticAzimuth())); c.outcome("still");
  c.check(anglesClose(o.roll, roll, 2e-2) && anglesClose(o.pitch, pitch, 2e-2), "still-tilt", s + fmt(": roll %.4f, pitch %.4f", o.roll, o.pitch)); c.check(anglesClose(f.getMagneticAzimuth(), az, 2e-2), "still-azimuth", s + fmt(": magnetic azimuth %.4f", f.getMagneticAzimuth())); if (std::fabs(pitch) < 1.3 && order != 2) c.check(anglesClose(f.getFusedAzimuth(), az, 0.1), "still-fused", s + fmt(": fused azimuth %.4f", f.getFusedAzimuth())); c.state(Hasher().d(o.roll).d(o.pitch).d(f.getMagneticAzimuth()).h);
}
// long rotation: nothing drifts out of range, a full turn returns
void spinning(Ctx& c)
{
  NavigationSettings n; ComplementaryFilter f(n); Model m{0.1, 0.05, 0}; double rate = c.pick(std::vector<double>{M_PI / 5, -M_PI / 2, 3.0, -60.0, 4000}); int ax = c.choose(4), dt = c.pick(std::vector<int>{5, 20, 1000}), acc = c.choose(2); long long t = 1600000000000LL; f.update(sm(t, ST::GYROSCOPE, 0, 0, 0)); m.step(t, ST::GYROSCOPE, {0, 0, 0}); V w{ax == 0 ? rate : 0, ax == 1 ? rate : 0, ax >= 2 ? rate : 0}; if (ax == 3) w = {rate / 2, rate / 3, rate};
  for (int i = 0; i < c.tier(2000, 20000); i++) { t += dt; if (acc && i % 2 == 0) { f.update(sm(t, ST::ACCELEROMETER, 0.1, 0.2, 9.8)); m.step(t, ST::ACCELEROMETER, {0.1, 0.2, 9.8}); } f.update(sm(t, ST::GYROSCOPE, w[0], w[1], w[2])); m.step(t, ST::GYROSCOPE, w); c.step(); if (i % 50 == 0) { Orientation o = f.getFusedOrientation(); c.check(std::isfinite(o.yaw) && std::isfinite(o.roll) && std::isfinite(o.pitch) && std::fabs(o.yaw) <= M_PI + 1e-12 && std::fabs(o.pitch) <= M_PI / 2 + 1e-12, "spin-range", fmt("spinning, step %d: yaw %g", i, o.yaw)); if (!acc && !m.vertical() && std::fabs(m.r[2][0]) < 0.99) c.check(anglesClose(o.yaw, m.yaw(), 1e-5), "spin", fmt("spinning at %g about %d every %d ms, step %d: yaw %.8f, expected %.8f", rate, ax, dt, i, o.yaw, m.yaw())); } }
  c.state(Hasher().d(f.getFusedAzimuth()).h); c.outcome("spin");
}
// what the client is told about the azimuth
void fusion(Ctx& c)
{
  std::vector<LevelSpec> l; l.emplace_back("L1", 40.0, 30.0); auto n = settings(l); n.commonSettings.useCalculatedAzimuth = c.flip(); n.commonSettings.deviceAzimuthLifetimeSeconds = c.flip() ? 1.0 : 0.0; SensorFusion e(n); Model m{0.1, 0.05, 0}; long long t = 1600000000000LL; std::string s = n.commonSettings.useCalculatedAzimuth ? "calculated azimuth:" : fmt("device azimuth for %g s:", n.commonSettings.deviceAzimuthLifetimeSeconds);
  static const std::vector<int> Q{0, 2, 4, 5, 7, 8, 10, 11, -1}; long long dts[] = {20, 600, 1001, 0, (1LL << 32) + 20};
  for (int i = 0; i < c.rounds(3, 4, i); i++)
  {
    int q = c.pick(Q); t += dts[c.choose(5)]; MotionInfo g; if (q < 0) { g = e.calculateDisplacement(boost::none, t); s += " other"; } else { auto& r = READ[q]; g = e.calculateDisplacement(sm(t, r.t, r.v[0], r.v[1], r.v[2]), t); m.step(t, r.t, r.v); s += std::string(" ") + r.n; } s += fmt("@%lld", t - 1600000000000LL); c.step();
    bool dev = m.devTs >= 0 && m.now - m.devTs <= n.commonSettings.deviceAzimuthLifetimeSeconds * 1000; bool valid = n.commonSettings.useCalculatedAzimuth || dev; c.note(s + fmt(" -> azimuth %s %.5f, heading %.5f", g.isAzimuthValid ? "valid" : "invalid", g.azimuth, g.heading));
    c.check(g.isAzimuthValid == valid, "azimuth-valid", s + fmt(": azimuth is%s valid", g.isAzimuthValid ? "" : " not")); if (valid) { if (!n.commonSettings.useCalculatedAzimuth) c.near(g.azimuth, m.device, 1e-12, "azimuth-device", s + ": azimuth"); else if (m.magSure) c.check(anglesClose(g.azimuth, m.magAz, 1e-5), "azimuth-magnetic", s + fmt(": azimuth %.6f, expected %.6f", g.azimuth, m.magAz)); }
    if (!m.vertical()) c.check(anglesClose(g.heading, m.yaw(), 1e-6), "heading", s + fmt(": heading %.6f, expected %.6f", g.heading, m.yaw())); if (m.gyroSure) c.check(anglesClose(g.gyroHeading, m.gyroHead, 1e-6), "gyro-heading", s + ": gyro heading"); c.check(!g.isStepDetected, "no-step", s + ": step"); Hasher h; for (auto& a : m.r) for (double d : a) h.d(d); c.state(h.i(valid).h); c.outcome(valid ? "azimuth" : "no azimuth");
  }
}
void reduction(Ctx& c)
{
  int k = c.choose(c.tier(400, 4000)) - c.tier(200, 2000); double x = k * M_PI / 8; int u = c.choose(5); for (int i = 2; i < u; i++) x = std::nextafter(x, 1e300); for (int i = u; i < 2; i++) x = std::nextafter(x, -1e300); int sc = c.choose(4); x *= std::vector<double>{1, 1e3, 1e9, 1e300}[sc];
  double g = to_minus_Pi_Pi(x); c.step(); c.check(g >= -M_PI && g <= M_PI, "reduction-range", fmt("reduction of %.17g is %.17g", x, g)); double tol = 1e-12 + std::fabs(x) * 1e-15; if (sc < 3) c.check(std::fabs(wrap(g - x)) <= std::max(tol, std::fabs(x) * 4e-16) * 4, "reduction", fmt("reduction of %.17g is %.17g", x, g)); c.state(Hasher().d(g).h); c.outcome("reduced");
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"readings", readings, 3}, {"pauses", pauses, 3}, {"still", still, 2}, {"spinning", spinning, 2}, {"fusion", fusion, 3}, {"reduction", reduction, 1}, {"readings_lasso", lasso<readings>, 4}, {"fusion_lasso", lasso<fusion>, 4} }; }
