// C27 altitude from ranges
#include <array>
#include <list>
#include "core_util.h"
#include "trilateration.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C27";
namespace {
struct T { const char* id; double x, y, z[2]; };
const std::vector<T> TX{ {"a", 2, 3, {3, 2.5}}, {"b", 25, 4, {3, 4.5}}, {"c", 12.5, 17, {3, 3.25}}, {"d", 6, 11.5, {3, 0.5}}, {"e", 21, 14, {3, 6}}, {"f", 15, 1.5, {3, 1.75}} };
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world(int v)
{
  static World w[2]; World& q = w[v]; if (q.c) return q; q.l.emplace_back("L1", 30.0, 20.0); for (auto& t : TX) q.l[0].tx(t.id, t.x, t.y, t.z[v], -55, 12);
  q.l.emplace_back("L2", 30.0, 20.0, geo(0, 100)); q.l[1].tx("o1", 4, 4, 9).tx("o2", 20, 9, 9); q.c = collector(q.l); return q;
}
struct R { const T* t; double r, z; };
// pseudo-inverse by the eigenvectors of the normal matrix (Jacobi)
bool solve(const std::vector<std::array<double, 3>>& m, const std::vector<double>& b, double out[3])
{
  double A[3][3] = {}, V[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, g[3] = {}; for (size_t i = 0; i < m.size(); i++) for (int p = 0; p < 3; p++) { g[p] += m[i][p] * b[i]; for (int q = 0; q < 3; q++) A[p][q] += m[i][p] * m[i][q]; }
  for (int s = 0; s < 60; s++) for (int p = 0; p < 3; p++) for (int q = p + 1; q < 3; q++)
  {
    if (A[p][q] == 0) continue; double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th < 0 ? -1 : 1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
    for (int k = 0; k < 3; k++) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - sn * y; A[k][q] = sn * x + c * y; } for (int k = 0; k < 3; k++) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - sn * y; A[q][k] = sn * x + c * y; } for (int k = 0; k < 3; k++) { double x = V[k][p], y = V[k][q]; V[k][p] = c * x - sn * y; V[k][q] = sn * x + c * y; }
  }
  double mx = std::max({A[0][0], A[1][1], A[2][2]}); for (int k = 0; k < 3; k++) out[k] = 0;
  for (int e = 0; e < 3; e++) { double l = A[e][e]; if (l < 1e-13 * mx) { if (std::fabs(l) > 1e-20 * mx && l > 1e-18 * mx) return false; continue; } if (l < 1e-4 * mx) return false; double d = (V[0][e] * g[0] + V[1][e] * g[1] + V[2][e] * g[2]) / l; for (int k = 0; k < 3; k++) out[k] += d * V[k][e]; }
  return true;
}
enum Verdict { NONE, VALUE, UNSURE };
Verdict want(std::vector<R> v, double& alt)
{
  std::sort(v.begin(), v.end(), [](const R& p, const R& q) { return p.r < q.r; }); std::vector<R> k;
  for (auto& x : v) { bool ok = true; for (auto& y : k) { double d = std::sqrt(std::pow(x.t->x - y.t->x, 2) + std::pow(x.t->y - y.t->y, 2) + std::pow(x.z - y.z, 2)) - (x.r + y.r); if (std::fabs(d) < 1e-6) return UNSURE; ok &= d < 0; } if (ok) k.push_back(x); }
  if (k.size() < 4) return NONE; std::vector<std::array<double, 3>> m; std::vector<double> b; auto& o = k[0];
  for (size_t i = 1; i < k.size(); i++) { double dx = k[i].t->x - o.t->x, dy = k[i].t->y - o.t->y, dz = k[i].z - o.z; m.push_back({dx, dy, dz}); b.push_back((o.r * o.r - k[i].r * k[i].r + dx * dx + dy * dy + dz * dz) / 2); }
  double s[3]; if (!solve(m, b, s)) return UNSURE; bool any = false; alt = 0;
  for (auto& x : k) { double q = x.r * x.r - std::pow(o.t->x + s[0] - x.t->x, 2) - std::pow(o.t->y + s[1] - x.t->y, 2); if (std::fabs(q) < 1e-4) return UNSURE; if (q > 0) { any = true; alt += (x.z + std::sqrt(q)) / x.r; } }
  return any ? VALUE : NONE;
}
void compare(Ctx& c, World& w, const std::vector<R>& v, const std::string& h, bool foreign)
{
  double a; auto k = want(v, a); if (k == UNSURE) { c.outcome("not judged"); return; } Hasher q; for (auto& x : v) q.s(x.t->id).d(x.r).d(x.z); c.state(q.h);
  std::vector<RadioMeasurementData> base; for (auto& x : v) base.push_back(radio(x.t->id, -60 - x.r, RadioMeasurementData::Type::BEACON, x.r)); if (foreign) { base.insert(base.begin(), radio("o1", -40, RadioMeasurementData::Type::BEACON, 0.5)); base.push_back(radio("zz", -30, RadioMeasurementData::Type::WIFI_RTT, 100)); }
  size_t n = base.size(); for (int o = 0; o < 5; o++)   // orders
  {
    RadioMeasurementsData d = base; if (o == 1) std::reverse(d.begin(), d.end()); if (o >= 2 && n) std::rotate(d.begin(), d.begin() + (o - 1) % n, d.end()); if (o == 4) for (size_t i = 0; i + 1 < n; i += 2) std::swap(d[i], d[i + 1]);
    auto g = Trilateration().calculateAltitude(w.c->level(LevelId("L1")), d); c.step(); std::string t = h + fmt(" (order %d)", o);
    if (k == NONE) c.check(!g, "none", t + fmt(": altitude %.9g, expected none", g ? *g : 0)); else { c.check(bool(g), "some", t + fmt(": no altitude, expected %.9g", a)); c.near(*g, a, 1e-6, "altitude", t + ": altitude"); c.check(std::isfinite(*g), "finite", t); }
  }
  c.outcome(k == NONE ? "none" : fmt("%d ranges", (int)v.size())); c.note(h + (k == VALUE ? fmt(" -> %.6f", a) : " -> none"));
}
void ranges(Ctx& c)
{
  int v = c.choose(2); World& w = world(v); bool f = c.flip(); std::vector<R> r; std::string h = fmt("map %d%s:", v, f ? " with foreign" : "");
  static const std::vector<double> D{4, 9, 14, 40}, E{3, 6.5, 9, 12, 15, 21, 60}; for (int i = 0; i < 6; i++) { auto& L = c.quick ? D : E; int k = c.choose((int)L.size() + 1); if (!k) continue; r.push_back({&TX[i], L[k - 1] + 0.137 * i, TX[i].z[v]}); h += fmt(" %s:%g", TX[i].id, r.back().r); }
  compare(c, w, r, h, f);
}
// ranges of a real place: the vertical parts are the true ones
void place(Ctx& c)
{
  int v = c.choose(2); World& w = world(v); double x = 1.7 + 3.1 * c.choose(9), y = 0.9 + 3.3 * c.choose(6), z = c.pick(std::vector<double>{0.3, 1.1, 2.2, 7.7}); int mask = c.choose(64); std::vector<R> r; double truth = 0; std::string h = fmt("at (%g, %g, %g) of map %d, transmitters", x, y, z, v);
  for (int i = 0; i < 6; i++) if (mask >> i & 1) { double d = std::sqrt(std::pow(x - TX[i].x, 2) + std::pow(y - TX[i].y, 2) + std::pow(z - TX[i].z[v], 2)); r.push_back({&TX[i], d, TX[i].z[v]}); truth += (TX[i].z[v] + std::fabs(z - TX[i].z[v])) / d; h += std::string(" ") + TX[i].id; }
  double a; auto k = want(r, a); if (k == VALUE) c.near(a, truth, 1e-4, "oracle", h + ": reference computation"); compare(c, w, r, h, false);
}
// through the client: model distances from the signals; only with the setting, only in the epoch of the signals
void client(Ctx& c)
{
  int v = c.choose(2), on = c.choose(2); World& w = world(v); NavigationSettings s = settings(w.l); auto& q = s.commonSettings; q.useAlgorithm = CommonSettings::UseAlgorithm::ZONES; q.useAltitude = on; q.signalsToUse = CommonSettings::SignalsToUse::BOTH; auto cl = createNavigationClient(w.c, s); long long t = 1600000000000LL;
  std::vector<R> r; std::string h = fmt("client, map %d%s:", v, on ? "" : ", altitude off"); std::vector<Measurement> m{mSensor(t, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0)};
  for (int i = 0; i < 6; i++) { int k = c.choose(4); if (!k) continue; double rssi = -68 - 9 * k - 0.43 * i; m.push_back(mRadio(t + 10 * i, TX[i].id, rssi)); r.push_back({&TX[i], std::exp((-55 - rssi) / 12), TX[i].z[v]}); h += fmt(" %s:%g", TX[i].id, rssi); }
  if (r.empty()) return; Measurement again = m[1]; again.ts += 1000; m.push_back(again); auto out = cl->navigate(m); c.step(out.size()); double a; auto k = want(r, a); if (k == UNSURE) { c.outcome("not judged"); return; }
  for (size_t i = 0; i + 1 < out.size(); i++) c.check(out[i].posAltitude == 0, "early", h + ": altitude before the window was complete"); auto& o = out.back(); c.check(o.status == NavigationStatus::OK, "status", h + ": no position");
  c.near(o.posAltitude, on && k == VALUE ? a : 0, 1e-6, "client-altitude", h + ": altitude"); auto later = cl->navigate({mSensor(again.ts + 100, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0)}); c.check(later[0].posAltitude == 0, "client-later", h + ": altitude without new signals"); c.outcome(on && k == VALUE ? "client altitude" : "client none"); c.state(Hasher().d(o.posAltitude).h); c.note(h);
}
// many transmitters in range
void many(Ctx& c)
{
  int N = c.pick(std::vector<int>{8, 17, 33, 65, 130, 257}), v = c.choose(2), hear = c.choose(3), bent = c.choose(3); double x = 3.3 + 4.7 * (c.quick ? 3 * c.choose(2) : c.choose(6)), y = 2.1 + 5.3 * (c.quick ? 2 * c.choose(2) : c.choose(4)), z = c.pick(std::vector<double>{0.3, 2.2, 7.7});
  struct Wd { std::list<std::string> ids; std::vector<T> tx; World w; }; static std::map<int, Wd> ws; Wd& q = ws[N * 2 + v];
  if (!q.w.c) { q.w.l.emplace_back("L1", 30.0, 20.0); for (int i = 0; i < N; i++) { q.ids.push_back(bigId(v, i)); double h = v ? 0.5 + 0.25 * ((i * 5) % 23) : 3; q.tx.push_back(T{q.ids.back().c_str(), 0.25 * ((i * 37) % 119), 0.25 * ((i * 11) % 79) + 0.01 * (i % 13), {h, h}}); q.w.l[0].tx(q.tx[i].id, q.tx[i].x, q.tx[i].y, h, -55, 12); } q.w.c = collector(q.w.l); }
  std::vector<R> r; for (int i = 0; i < N; i++) { if (hear == 1 && i % 3 == 0) continue; if (hear == 2 && i < N / 2) continue; auto& t = q.tx[i]; double d = std::sqrt(std::pow(x - t.x, 2) + std::pow(y - t.y, 2) + std::pow(z - t.z[v], 2)); if (bent == 1 && i % 8 == 5) d *= 0.6; if (bent == 2) d += 0.1 * (i % 5); r.push_back({&t, d, t.z[v]}); }
  compare(c, q.w, r, fmt("%d transmitters of %d, at (%g, %g, %g), bent %d:", (int)r.size(), N, x, y, z, bent), false);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"ranges", ranges, 4}, {"place", place, 3}, {"client", client, 4}, {"many", many, 3} }; }
