// C26 standalone copies against the navigation core
#include "core_util.h"
#include "c26_api.h"
#include "sensor_fusion/pedometer.h"
#include "sensor_fusion/complementary_filter.h"
using namespace vx;
namespace N = navigine::navigation_core;
const char* VX_PROPERTY = "C26";
typedef N::SensorMeasurementData::Type ST;
static const ST TY[] = {ST::ACCELEROMETER, ST::MAGNETOMETER, ST::GYROSCOPE, ST::BAROMETER, ST::LOCATION, ST::ORIENTATION};
static N::SensorMeasurement conv(const Reading& q) { N::SensorMeasurement s; s.ts = q.ts; s.data.type = TY[q.type]; s.data.values = N::Vector3d(q.v[0], q.v[1], q.v[2]); return s; }
struct PedCore : PedApi
{
  N::Pedometer p; std::vector<StepR> got;
  void update(const std::vector<Reading>& r) override { for (auto& q : r) { p.update(conv(q)); for (auto& s : p.calculateSteps()) got.push_back({s.ts, s.len}); } }
  std::vector<StepR> steps() override { auto o = got; got.clear(); return o; }
};
struct CfCore : CfApi
{
  N::NavigationSettings n; N::ComplementaryFilter f; CfCore(double a, double m, double i) : f(n, a, m, i) {} CfCore() : f(n) {}
  void update(const Reading& q) override { f.update(conv(q)); }
  std::array<double, 6> out() override { auto o = f.getFusedOrientation(); return {o.roll, o.pitch, o.yaw, f.getFusedAzimuth(), f.getMagneticAzimuth(), f.getDeviceAzimuth()}; }
};
std::unique_ptr<PedApi> core_ped() { return std::make_unique<PedCore>(); }
std::unique_ptr<CfApi> core_cf(double a, double m, double i) { if (a < 0) return std::make_unique<CfCore>(); return std::make_unique<CfCore>(a, m, i); }
VEC_IMPL(core_vec, navigine::navigation_core)
QUAT_IMPL(core_quat, navigine::navigation_core)
double core_reduce(double x) { return N::to_minus_Pi_Pi(x); }
namespace {
V3 dir(double m, int k) { k %= 3; return k == 0 ? V3{0, 0, m} : k == 1 ? V3{0.6 * m, 0, -0.8 * m} : V3{-0.48 * m, 0.6 * m, 0.64 * m}; }
// readings of one segment, continuing at time t
std::vector<Reading> segment(int a, long long& t, int period, int& k)
{
  std::vector<Reading> r; int n = 400 / period; const double g = 9.80665;
  for (int i = 0; i < n; i++) { double ph = 2 * M_PI * (i + 1) / n, v = g; if (a == 1) v += 4 * sin(ph); if (a == 2) v += 0.9 * sin(ph); if (a == 3) v += 5 * sin(2 * ph); if (a == 4) v = 0.7; if (a == 5) v = 13.3; if (a == 6) v += (i % 4 == 0) ? 25 : -2; t += a != 7 || i ? period : k / n % 3 == 0 ? 2750 : k / n % 3 == 1 ? (1LL << 32) + 40 : (1LL << 31) + 100; r.push_back({t, 0, dir(v, k++)}); }
  return r;
}
const char* SEG[] = {"rest", "step", "weak", "fast", "fall", "raised", "stamp", "gap"};
void compareSteps(Ctx& c, std::vector<StepR>& a, std::vector<StepR>& b, const std::string& s, long long t0)
{
  c.step(); c.check(a.size() == b.size(), "steps", s + fmt(": standalone counts %d step(s), core %d", (int)a.size(), (int)b.size()));
  for (size_t i = 0; i < a.size(); i++) { c.note(s + fmt(": step at %lld, %.5f m", a[i].ts - t0, a[i].len)); c.check(a[i].ts == b[i].ts, "step-time", s + fmt(": step at %lld and %lld", a[i].ts - t0, b[i].ts - t0)); c.near(a[i].len, b[i].len, 1e-12, "step-length", s + ": step length"); }
}
void pedometer(Ctx& c)         // reading by reading
{
  auto sa = sa_ped(), co = core_ped(); int period = c.pick(std::vector<int>{50, 100}), k = 0, total = 0; long long t0 = 1600000000000LL, t = t0; std::string s;
  for (int i = 0; i < (period > 50 ? c.tier(5, 6) : c.tier(4, 5)); i++)
  {
    int a = c.choose(8); s += std::string(" ") + SEG[a]; for (auto& r : segment(a, t, period, k)) { sa->update({r}); co->update({r}); auto x = sa->steps(), y = co->steps(); total += x.size(); compareSteps(c, x, y, s, t0); }
    c.state(Hasher().s(s).i(period).h);
  }
  c.outcome(fmt("%d steps", total));
}
void batches(Ctx& c)           // the standalone pedometer is given several readings at once
{
  auto sa = sa_ped(), co = core_ped(); int period = c.pick(std::vector<int>{20, 50}), k = 0, total = 0; long long t0 = 1600000000000LL, t = t0; std::string s; std::vector<Reading> buf; int size = 0;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    int a = c.choose(c.quick && i > 1 ? 4 : 7); if (i % 2 == 0) { size = c.pick(!c.quick ? std::vector<int>{1, 3, 8, 29, 200} : i == 0 ? std::vector<int>{1, 8, 200} : i == 2 ? std::vector<int>{3, 29} : std::vector<int>{11}); s += fmt(" [%d at once]", size); } s += std::string(" ") + SEG[a]; if (i == 0) for (auto& r : segment(0, t, period, k)) { buf.push_back(r); co->update({r}); }
    for (auto& r : segment(a, t, period, k)) { buf.push_back(r); co->update({r}); if ((int)buf.size() >= size) { sa->update(buf); buf.clear(); auto x = sa->steps(), y = co->steps(); total += x.size(); compareSteps(c, x, y, s, t0); } }
    c.state(Hasher().s(s).i(period).h);
  }
  if (!buf.empty()) { sa->update(buf); auto x = sa->steps(), y = co->steps(); compareSteps(c, x, y, s, t0); auto z = sa->steps(); }
  c.outcome(fmt("batches %d steps", total));
}
struct R { int type; V3 v; const char* n; };
const std::vector<R> READ{ {0, {0, 0, 9.8}, "acc flat"}, {0, {9.8, 0, 0}, "acc x"}, {0, {0.5, -6, 7}, "acc tilted"}, {0, {0, 0, 0}, "acc zero"}, {1, {0, 20, -40}, "mag north"}, {1, {-20, 3, 10}, "mag west"}, {1, {0, 0, 0}, "mag zero"}, {2, {0, 0, 1.5}, "gyro z"}, {2, {2, -1, 0.3}, "gyro mixed"}, {2, {0, 0, 0}, "gyro zero"}, {5, {0.7, 9, 9}, "device"}, {3, {1013, 5, 5}, "pressure"}, {4, {60, 30, 5}, "location"} };
void filter(Ctx& c)
{
  int g = c.choose(3); double ka = g == 0 ? -1 : g == 1 ? 0.3 : 0.1, km = g == 1 ? 0.2 : 0.05, ki = g == 1 ? 0.02 : 1e-5; auto sa = sa_cf(ka, km, ki), co = core_cf(ka, km, ki); long long t = 1600000000000LL; std::string s = fmt("gains %d:", g);
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    auto& r = c.pick(READ); int k = c.choose(i < 2 || !c.quick ? 2 : 1) ? 10 : 1; s += fmt(" %s*%d", r.n, k);
    for (int q = 0; q < k; q++) { t += q || (r.type != 5 && r.type != 3) ? 37 : r.type == 5 ? (1LL << 32) + 20 : (1LL << 31) + 20; sa->update({t, r.type, r.v}); co->update({t, r.type, r.v}); c.step(); auto x = sa->out(), y = co->out(); static const char* F[] = {"roll", "pitch", "yaw", "fused azimuth", "magnetic azimuth", "device azimuth"}; for (int f = 0; f < 6; f++) { double d = x[f] - y[f]; c.check(std::fabs(f == 5 ? d : std::remainder(d, 2 * M_PI)) < 1e-6, "angles", s + fmt(": %s standalone %.9f, core %.9f", F[f], x[f], y[f])); } }
    auto x = sa->out(); Hasher h; for (double d : x) h.d(d); c.state(h.h); c.note(s + fmt(" -> roll %.5f pitch %.5f yaw %.5f", x[0], x[1], x[2]));
  }
  c.outcome("filter");
}
// vectors and quaternions: three copies, and their arithmetic laws
void arithmetic(Ctx& c)
{
  static const std::vector<double> L{-2, 0, 0.5, 3}; V3 a, b; for (auto& x : a) x = c.pick(L); for (auto& x : b) x = c.pick(L); double s = c.pick(std::vector<double>{-1.5, 0, 4});
  VecR v[3] = {core_vec(a, b, s), ped_vec(a, b, s), cf_vec(a, b, s)}; c.step(3); std::string t = fmt("(%g %g %g) (%g %g %g) %g", a[0], a[1], a[2], b[0], b[1], b[2], s);
  for (int k = 0; k < 3; k++)
  {
    static const char* WH[] = {"core", "pedometer", "filter"}; std::string q = t + " in " + WH[k]; std::vector<V3> w; double l = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    auto put = [&](auto f) { V3 o; for (int i = 0; i < 3; i++) o[i] = f(i); w.push_back(o); }; auto add = [&](int i) { return a[i] + b[i]; }; auto sub = [&](int i) { return a[i] - b[i]; }; auto mu = [&](int i) { return a[i] * s; }; auto di = [&](int i) { return a[i] / s; }; auto no = [&](int i) { return l > 0 ? a[i] / l : a[i]; };
    put(add); put(sub); put(mu); put(mu); if (s != 0) put(di); put([&](int i) { return -a[i]; }); put([&](int i) { int j = (i + 1) % 3, n = (i + 2) % 3; return a[j] * b[n] - a[n] * b[j]; }); put(no); put(add); put(sub); put(mu); if (s != 0) put(di); put(no);
    for (size_t i = 0; i < w.size(); i++) for (int j = 0; j < 3; j++) c.near(v[k].v[i][j], w[i][j], 1e-12, "vector", q + fmt(": operation %d, component %d", (int)i, j));
    c.near(v[k].dot, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1e-12, "vector", q + ": dot product"); c.near(v[k].mag, l, 1e-12, "vector", q + ": magnitude"); c.check(v[k].null == (l == 0), "vector", q + ": isNull"); c.check(v[k].eq == (a == b) && v[k].ne == !(a == b), "vector", q + ": comparison");
  }
  c.state(Hasher().s(t).h); c.outcome("vectors");
}
void quaternions(Ctx& c)
{
  static const std::vector<double> L{-1, 0, 0.5}; Q4 a, b; for (auto& x : a) x = c.pick(L); for (auto& x : b) x = c.pick(L); double s = c.pick(std::vector<double>{-1.5, 4}); QuatR v[2] = {core_quat(a, b, s), cf_quat(a, b, s)}; c.step(2);
  std::string t = fmt("(%g %g %g %g) (%g %g %g %g)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]); auto pr = [](const Q4& p, const Q4& q) { return Q4{p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2], p[0] * q[2] + p[2] * q[0] + p[3] * q[1] - p[1] * q[3], p[0] * q[3] + p[3] * q[0] + p[1] * q[2] - p[2] * q[1]}; };
  double l = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]); auto lin = [&](double x, double y) { Q4 o; for (int i = 0; i < 4; i++) o[i] = x * a[i] + y * b[i]; return o; }; Q4 as = lin(s, 0); std::vector<Q4> w{lin(1, 1), lin(1, -1), pr(a, b), as, as, l > 0 ? lin(1 / l, 0) : a, {a[0], -a[1], -a[2], -a[3]}, {0, a[1], a[2], a[3]}, {0, 1, 2, 3}, {1, 0, 0, 0}, lin(1, 1), lin(1, -1), pr(a, b), as, pr(as, as)};
  for (int k = 0; k < 2; k++)
  {
    std::string q = t + (k ? " in filter" : " in core"); for (size_t i = 0; i < w.size(); i++) for (int j = 0; j < 4; j++) c.near(v[k].q[i][j], w[i][j], 1e-12, "quaternion", q + fmt(": operation %d, component %d", (int)i, j));
    for (double e : v[k].euler) c.check(std::isfinite(e) && std::fabs(e) <= M_PI + 1e-12, "euler", q + ": Euler angle"); if (l > 0) { Q4 n = lin(1 / l, 0); double sp = 2 * (n[0] * n[2] - n[3] * n[1]); c.near(std::sin(v[k].euler[1]), std::max(-1.0, std::min(1.0, sp)), 1e-9, "euler", q + ": pitch"); if (std::fabs(sp) < 1 - 1e-9) { c.near(std::remainder(v[k].euler[0] - std::atan2(2 * (n[0] * n[1] + n[2] * n[3]), 1 - 2 * (n[1] * n[1] + n[2] * n[2])), 2 * M_PI), 0, 1e-9, "euler", q + ": roll"); c.near(std::remainder(v[k].euler[2] - std::atan2(2 * (n[0] * n[3] + n[1] * n[2]), 1 - 2 * (n[2] * n[2] + n[3] * n[3])), 2 * M_PI), 0, 1e-9, "euler", q + ": yaw"); } }
  }
  c.state(Hasher().s(t).h); c.outcome("quaternions");
}
void reduction(Ctx& c)
{
  double x = (c.choose(801) - 400) * M_PI / 8 + c.pick(std::vector<double>{0, 1e-9, -1e-9, 0.1}); x *= c.choose(2) ? 1e6 : 1; double a = cf_reduce(x), b = core_reduce(x); c.step(2); c.check(std::fabs(std::remainder(a - b, 2 * M_PI)) < 1e-9 + std::fabs(x) * 1e-14 && a >= -M_PI && a <= M_PI, "reduction", fmt("%.17g: standalone %.12f, core %.12f", x, a, b)); c.state(Hasher().d(a).h); c.outcome("reduction");
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"pedometer", pedometer, 3}, {"batches", batches, 3}, {"filter", filter, 3}, {"arithmetic", arithmetic, 3}, {"quaternions", quaternions, 3}, {"reduction", reduction, 1}, {"batches_lasso", lasso<batches, 60, 30, 1>, 4}, {"filter_lasso", lasso<filter, 200, 100, 2>, 4} }; }
