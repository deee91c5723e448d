// C21 geometry primitives, exactly, on integer lattices
#include "core_util.h"
#include "geometry.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C21";
namespace {
typedef long long ll;
struct P { ll x, y; };
ll cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
ll dot(P a, P b, P c) { return (b.x - a.x) * (c.x - a.x) + (b.y - a.y) * (c.y - a.y); }
int sg(ll v) { return (v > 0) - (v < 0); }
bool onSeg(P p, P a, P b) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
P pt(Ctx& c, int n, int off = 0) { int k = c.choose(n * n); return P{k % n - off, k / n - off}; }
std::string S(P p) { return fmt("(%lld,%lld)", p.x, p.y); }

// scale/shift: lattice coordinates are mapped to metres by an exact affine map so that no rounding is involved
struct Map { double s, ox, oy; double X(P p) const { return p.x * s + ox; } double Y(P p) const { return p.y * s + oy; } };
const std::vector<Map> MAPS{{1, 0, 0}, {0.5, -1, 2}, {4, 1024, -512}};

void segments(Ctx& c)
{
  Map m = MAPS[c.choose(c.tier(2, 3))]; int n = c.tier(4, 5); P a = pt(c, n), b = pt(c, n), q = pt(c, n), r = pt(c, n);
  bool got = CheckIntersection(m.X(a), m.Y(a), m.X(b), m.Y(b), m.X(q), m.Y(q), m.X(r), m.Y(r));
  bool want = sg(cross(a, b, q)) * sg(cross(a, b, r)) < 0 && sg(cross(q, r, a)) * sg(cross(q, r, b)) < 0;
  c.step(); c.state(Hasher().i(a.x).i(a.y).i(b.x).i(b.y).i(q.x).i(q.y).i(r.x).i(r.y).h); c.outcome(got ? "cross" : "apart");
  std::string d = "[" + S(a) + S(b) + "] and [" + S(q) + S(r) + "]"; c.note(d + (got ? " cross" : " apart"));
  c.check(got == want, "segments-cross", d + (want ? " cross in an interior point but are reported apart" : " do not properly cross but are reported crossing"));

  // intersection of the vector a->b with the segment qr
  double x = 77, y = 77; double k = GetIntersection(m.X(a), m.Y(a), m.X(b), m.Y(b), m.X(q), m.Y(q), m.X(r), m.Y(r), &x, &y);
  ll det = (b.x - a.x) * (r.y - q.y) - (b.y - a.y) * (r.x - q.x);
  if (det == 0) c.check(std::isnan(k), "isect-parallel", d + ": parallel, expected no intersection");
  else
  {
    ll kn = (q.x - a.x) * (r.y - q.y) - (q.y - a.y) * (r.x - q.x), ln = (q.x - a.x) * (b.y - a.y) - (q.y - a.y) * (b.x - a.x);
    if (det < 0) { kn = -kn; ln = -ln; det = -det; }
    bool in = kn >= 0 && kn <= det && ln >= 0 && ln <= det;
    c.check(in == !std::isnan(k), "isect-exists", d + (in ? ": meet, reported apart" : ": do not meet, reported meeting"));
    if (in)
    {
      double t = (double)kn / det; c.near(k, t, 1e-9, "isect-fraction", d + " fraction along the vector");
      c.near(x, m.X(a) + t * (m.X(b) - m.X(a)), 1e-9, "isect-point", d + " x"); c.near(y, m.Y(a) + t * (m.Y(b) - m.Y(a)), 1e-9, "isect-point", d + " y");
      double k2 = GetIntersection(m.X(a), m.Y(a), m.X(b), m.Y(b), m.X(q), m.Y(q), m.X(r), m.Y(r), nullptr, nullptr); c.near(k2, t, 1e-9, "isect-null", "without output pointers");
    }
  }
}
void pointSegment(Ctx& c)
{
  Map m = c.pick(MAPS); int n = c.tier(6, 8); P a = pt(c, n, 2), b = pt(c, n, 2), p = pt(c, n, 2);
  std::string d = "point " + S(p) + " segment [" + S(a) + S(b) + "]"; c.note(d);
  c.step(); c.state(Hasher().i(a.x).i(a.y).i(b.x).i(b.y).i(p.x).i(p.y).d(m.s).h);
  double L2 = (double)((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y));
  double t = L2 > 0 ? dot(a, b, p) / L2 : 0;
  double px = 9, py = 9; double k = GetProjection(m.X(a), m.Y(a), m.X(b), m.Y(b), m.X(p), m.Y(p), &px, &py);
  c.near(k, t, 1e-9, "projection", d + ": projection parameter");
  c.near(px, m.X(a) + t * (m.X(b) - m.X(a)), 1e-9, "projection", d + ": projected x"); c.near(py, m.Y(a) + t * (m.Y(b) - m.Y(a)), 1e-9, "projection", d + ": projected y");
  double tc = std::min(1.0, std::max(0.0, t)); double sx = m.X(a) + tc * (m.X(b) - m.X(a)) - m.X(p), sy = m.Y(a) + tc * (m.Y(b) - m.Y(a)) - m.Y(p);
  double dist = SegmentPointDist(XYPoint(m.X(a), m.Y(a)), XYPoint(m.X(b), m.Y(b)), XYPoint(m.X(p), m.Y(p)));
  c.near(dist, std::sqrt(sx * sx + sy * sy), 1e-9, "segment-distance", d + ": distance");
  bool on = PointOnLine(m.X(p), m.Y(p), m.X(a), m.Y(a), m.X(b), m.Y(b));
  c.check(on == onSeg(p, a, b), "point-on-segment", d + (on ? ": reported on it" : ": reported off it")); c.outcome(on ? "on" : "off");
  double da = GetDist(m.X(a), m.Y(a), m.X(b), m.Y(b)); c.near(da, std::sqrt(L2) * m.s, 1e-9, "distance", d + ": length");
  double ar = GetArea(m.X(a), m.Y(a), m.X(b), m.Y(b), m.X(p), m.Y(p)); c.near(ar, cross(a, b, p) / 2.0 * m.s * m.s, 1e-9, "area", d + ": oriented area");
  // level-aware variants
  int lv = c.choose(3); LevelId u("U"), v("V");
  LocationPoint A{u, m.X(a), m.Y(a)}, B{lv == 1 ? v : u, m.X(b), m.Y(b)}, C{lv == 2 ? v : u, m.X(p), m.Y(p)};
  if (lv == 1) c.check(std::isnan(GetDist(A, B)), "level-distance", "distance across levels must be undefined"); else c.near(GetDist(A, B), da, 1e-9, "level-distance", d);
  double ld = GetDist(A, B, C), la = GetArea(A, B, C);
  if (lv) { c.check(std::isnan(ld), "level-line-distance", "distance across levels must be undefined"); c.check(std::isnan(la), "level-area", "area across levels must be undefined"); }
  else { c.near(la, ar, 1e-9, "level-area", d); if (L2 == 0) c.check(std::isnan(ld), "line-distance", "distance to a degenerate line must be undefined"); else c.near(ld, std::fabs((double)cross(a, b, p)) / std::sqrt(L2) * m.s, 1e-9, "line-distance", d + ": distance to the line"); }
}
// the ray rule must give the even-odd answer for every polygon and every point off its boundary
void rays(Ctx& c)
{
  int n = c.tier(4, 5), k = c.choose(2) + 3; std::vector<P> g; for (int i = 0; i < k; i++) g.push_back(pt(c, c.quick && k == 4 ? 3 : n));
  // simple polygons only
  for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++)
  {
    P a = g[i], b = g[(i + 1) % k], q = g[j], r = g[(j + 1) % k];
    if (j == i + 1 || (i == 0 && j == k - 1)) { P s = j == i + 1 ? b : a, e1 = j == i + 1 ? a : b, e2 = j == i + 1 ? r : q; if (onSeg(e1, s, e2) || onSeg(e2, s, e1)) return; }
    else if (onSeg(a, q, r) || onSeg(b, q, r) || onSeg(q, a, b) || onSeg(r, a, b) || (sg(cross(a, b, q)) * sg(cross(a, b, r)) < 0 && sg(cross(q, r, a)) * sg(cross(q, r, b)) < 0)) return;
  }
  for (ll X = -1; X <= n; X++) for (ll Y = -1; Y <= n; Y++)
  {
    P p{X, Y}; bool edge = false; int cnt = 0; double wn = 0;
    for (int i = 0; i < k; i++) { P a = g[i], b = g[(i + 1) % k]; if (onSeg(p, a, b)) edge = true; }
    if (edge) continue;
    for (int i = 0; i < k; i++)
    {
      P a = g[i], b = g[(i + 1) % k];
      if (XRayIntersectsLine((double)p.x, (double)p.y, (double)a.x, (double)a.y, (double)b.x, (double)b.y)) cnt++;
      wn += std::atan2((double)cross(p, a, b), (double)dot(p, a, b));
    }
    bool inside = std::fabs(wn) > 3; c.step();
    c.check((cnt % 2 == 1) == inside, "ray-parity", "point " + S(p) + (inside ? " inside" : " outside") + fmt(" a polygon of %d vertices: %d ray crossings", k, cnt));
    c.outcome(inside ? "inside" : "outside");
  }
  Hasher h; for (auto& p : g) h.i(p.x).i(p.y); c.state(h.h); std::string d; for (auto& p : g) d += S(p); c.note("polygon " + d);
}
void determinants(Ctx& c)
{
  ll a[9]; for (int i = 0; i < 9; i++) a[i] = c.choose(c.quick && i % 2 ? 2 : 3) - 1 + (i == 4 ? 2 : 0);
  ll want = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
  double got = Determinant(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); c.step(); c.state(Hasher().i(want).i(a[0]).i(a[1]).h);
  c.near(got, (double)want, 1e-12, "determinant", "3x3 determinant"); c.near(Determinant(a[0], a[1], a[3], a[4]), (double)(a[0] * a[4] - a[1] * a[3]), 1e-12, "determinant", "2x2 determinant");
  c.outcome(want == 0 ? "singular" : "regular");
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"segments", segments, 3}, {"point_segment", pointSegment, 3}, {"rays", rays, 3}, {"determinants", determinants, 4} }; }
