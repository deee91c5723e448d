// C20 geographic <-> local coordinates
#include "core_util.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C20";
namespace {
const double D = M_PI / 180;
double norm(double l) { while (l > 180) l -= 360; while (l <= -180) l += 360; return l; }
std::vector<double> lats(Ctx& c) { return c.quick ? std::vector<double>{0, 60.0, -60.0, 45.123456, -33.3, 84.9, -84.9, 0.001} : std::vector<double>{0, 60, -60, 45.123456, -33.3, 84.9, -84.9, 0.001, 12, 23.43, 30, 51.5, 55.75, 59.93, 66.5, 71, 78.2, -1, -12, -45, -54.8, -70}; }
std::vector<double> lons() { return {0, 30.0, -30.0, 179.9995, -179.9995, 180.0, -179.0, 90.25, -122.4, 0.0003}; }
const std::vector<double> OFF{0, 0.5, -0.5, 12.25, -37.125, 150, -480, 2000, -9000};
void toLocal(Ctx& c)
{
  GeoPoint b(c.pick(lats(c)), c.pick(lons())); double x = c.pick(OFF), y = c.pick(OFF);
  GeoPoint g(b.latitude + y / (40008000.0 / 360), norm(b.longitude + x / (40075160.0 * std::cos(b.latitude * D) / 360)));
  XYPoint p = gpsToLocal(g, b); c.step(); c.state(Hasher().d(b.latitude).d(b.longitude).d(x).d(y).h);
  std::string d = fmt("binding (%.6f, %.6f), point (%.9f, %.9f)", b.latitude, b.longitude, g.latitude, g.longitude); c.note(d + fmt(" -> (%.4f, %.4f) m", p.x, p.y));
  double tol = 1e-6 + 1e-9 * std::fabs(x);
  c.check(std::fabs(p.x - x) < tol * 10, "to-local-x", d + fmt(": %.6f m east, expected %.6f", p.x, x)); c.check(std::fabs(p.y - y) < tol * 10, "to-local-y", d + fmt(": %.6f m north, expected %.6f", p.y, y));
  GeoPoint q = localToGps(p, b);
  c.check(std::fabs(q.latitude - g.latitude) < 1e-10, "round-trip-lat", d + fmt(": back to latitude %.12f", q.latitude));
  c.check(std::fabs(norm(q.longitude - g.longitude)) < 1e-10 || std::fabs(std::fabs(q.longitude - g.longitude) - 360) < 1e-9, "round-trip-lon", d + fmt(": back to longitude %.12f", q.longitude));
  c.check(q.longitude > -180 - 1e-12 && q.longitude <= 180 + 1e-12, "lon-range", d + fmt(": longitude %.12f out of range", q.longitude));
  // distances agree with the sphere (loosely) so that a metre is a metre
  if (std::hypot(x, y) > 1 && std::hypot(x, y) < 1000)
  {
    double la = b.latitude * D, lb = g.latitude * D, dl = norm(g.longitude - b.longitude) * D, s = std::pow(std::sin((lb - la) / 2), 2) + std::cos(la) * std::cos(lb) * std::pow(std::sin(dl / 2), 2);
    double gc = 2 * 6371000 * std::asin(std::sqrt(s)); c.check(std::fabs(std::hypot(p.x, p.y) / gc - 1) < 0.006, "scale", d + fmt(": local distance %.3f, on the sphere %.3f", std::hypot(p.x, p.y), gc));
  }
  c.outcome((p.x > 0 ? "E" : p.x < 0 ? "W" : "0") + std::string(p.y > 0 ? "N" : p.y < 0 ? "S" : "0"));
}
void toGps(Ctx& c)
{
  GeoPoint b(c.pick(lats(c)), c.pick(lons())); XYPoint p(c.pick(OFF), c.pick(OFF)); GeoPoint g = localToGps(p, b);
  std::string d = fmt("binding (%.6f, %.6f), local (%.3f, %.3f)", b.latitude, b.longitude, p.x, p.y); c.note(d + fmt(" -> (%.9f, %.9f)", g.latitude, g.longitude)); c.step(); c.state(Hasher().d(b.latitude).d(b.longitude).d(p.x).d(p.y).h);
  c.check(std::fabs(g.latitude - (b.latitude + p.y * 360 / 40008000.0)) < 1e-10, "to-gps-lat", d + fmt(": latitude %.12f", g.latitude));
  double wl = norm(b.longitude + p.x * 360 / (40075160.0 * std::cos(b.latitude * D)));
  c.check(std::fabs(norm(g.longitude - wl)) < 1e-10, "to-gps-lon", d + fmt(": longitude %.12f, expected %.12f", g.longitude, wl));
  c.check(g.longitude > -180 - 1e-12 && g.longitude <= 180 + 1e-12, "lon-range", d + fmt(": longitude %.12f out of range", g.longitude));
  XYPoint q = gpsToLocal(g, b); c.check(std::fabs(q.x - p.x) < 1e-5 && std::fabs(q.y - p.y) < 1e-5, "round-trip-xy", d + fmt(": back to (%.6f, %.6f)", q.x, q.y));
  c.outcome(std::fabs(g.longitude - b.longitude) > 180 ? "wrapped" : "plain");
}
// order: further east/north is larger, and local axes are independent
void order(Ctx& c)
{
  GeoPoint b(c.pick(lats(c)), c.pick(lons())); double step = c.pick(std::vector<double>{1e-6, 1e-4, 0.01}); int i = c.choose(7) - 3, j = c.choose(7) - 3;
  GeoPoint g(b.latitude + i * step, norm(b.longitude + j * step)); XYPoint p = gpsToLocal(g, b); c.step(); c.state(Hasher().d(b.latitude).d(b.longitude).d(step).i(i).i(j).h);
  auto sg = [](double v) { return v > 1e-7 ? 1 : v < -1e-7 ? -1 : 0; };
  c.check(sg(p.y) == sg(i) && sg(p.x) == sg(j), "direction", fmt("offset of %d lat / %d lon steps maps to (%.9f, %.9f)", i, j, p.x, p.y));
  c.outcome(fmt("%d%d", sg(p.x), sg(p.y)));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"to_local", toLocal, 2}, {"to_gps", toGps, 2}, {"order", order, 2} }; }
