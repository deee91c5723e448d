// C17 triangulation of reference points is a Delaunay triangulation trimmed by the maximum edge length
#include "core_util.h"
#include "triangulation.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C17";
namespace {
typedef long long ll; struct P { ll x, y; };
ll cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
ll d2(P a, P b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
// >0: d strictly inside the circumcircle of (a,b,c)
ll inCircle(P a, P b, P c, P d)
{
  ll ax = a.x - d.x, ay = a.y - d.y, bx = b.x - d.x, by = b.y - d.y, cx = c.x - d.x, cy = c.y - d.y;
  ll det = (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay);
  return cross(a, b, c) > 0 ? det : -det;
}
typedef std::set<std::set<int>> Tris;
Tris run(Ctx& c, const std::vector<P>& pts, const std::vector<int>& order, double maxedge)
{
  std::vector<TriangleVertex> v; for (int i : order) v.push_back(TriangleVertex((double)pts[i].x, (double)pts[i].y, ReferencePointId("v" + std::to_string(i))));
  std::vector<Triangle> t = TriangulateVertices(v, maxedge); Tris r;
  for (auto& q : t)
  {
    std::set<int> s;
    for (const TriangleVertex& w : {q.getA(), q.getB(), q.getC()})
    {
      c.check(w.id.value[0] == 'v', "foreign-vertex", "a triangle uses a vertex that is not a reference point: " + w.id.value);
      int i = atoi(w.id.value.c_str() + 1); s.insert(i);
      c.check(w.x == (double)pts[i].x && w.y == (double)pts[i].y, "vertex-moved", "a vertex changed its coordinates");
    }
    c.check(s.size() == 3, "degenerate", "a triangle repeats a vertex");
    c.check(r.insert(s).second, "duplicate", "a triangle is reported twice");
  }
  return r;
}
std::string D(const std::vector<P>& p) { std::string s; for (auto& q : p) s += fmt("(%lld,%lld)", q.x, q.y); return s; }

void judge(Ctx& c, const std::vector<P>& pts, const Tris& got, double maxedge, int o);
// general position (no 4 co-circular, no 3 collinear): the Delaunay triangulation is unique
void unique_(Ctx& c)
{
  // a fixed irregular pool: subsets of it, in several insertion orders
  static const std::vector<P> pool{{0, 0}, {17, 3}, {5, 14}, {23, 19}, {11, 29}, {31, 7}, {2, 24}, {27, 33}, {13, 8}, {37, 21}};
  int N = c.tier(9, 10); std::vector<P> pts; for (int i = 0; i < N; i++) if (c.flip()) pts.push_back(pool[i]);
  size_t n = pts.size(); if (n < 3) { c.check(run(c, pts, std::vector<int>(), 100).empty(), "few", "triangles from fewer than three points"); return; }
  for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++)
  { if (!cross(pts[i], pts[j], pts[k])) return; for (size_t l = k + 1; l < n; l++) if (!inCircle(pts[i], pts[j], pts[k], pts[l])) return; }
  double maxedge = c.pick(std::vector<double>{1e9, 20.0, 26.5});
  std::vector<int> order; for (size_t i = 0; i < n; i++) order.push_back((int)i);
  int o = c.choose(c.tier(4, 8)); if (o == 1) std::reverse(order.begin(), order.end()); else if (o >= 2) { unsigned r = 12345 * o; for (size_t i = n - 1; i > 0; i--) { r = r * 1103515245 + 12345; std::swap(order[i], order[(r >> 16) % (i + 1)]); } }
  Tris got = run(c, pts, order, maxedge);
  judge(c, pts, got, maxedge, o);
}
void judge(Ctx& c, const std::vector<P>& pts, const Tris& got, double maxedge, int o)
{
  size_t n = pts.size(); bool trim = maxedge < 1e6;
  Tris full, want;
  for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++)
  {
    bool empty = true; for (size_t l = 0; l < n && empty; l++) if (l != i && l != j && l != k && inCircle(pts[i], pts[j], pts[k], pts[l]) > 0) empty = false;
    if (!empty) continue; std::set<int> s{(int)i, (int)j, (int)k}; full.insert(s);
    if (!trim || (d2(pts[i], pts[j]) <= maxedge * maxedge && d2(pts[j], pts[k]) <= maxedge * maxedge && d2(pts[i], pts[k]) <= maxedge * maxedge)) want.insert(s);
  }
  c.step(); Hasher h; for (auto& p : pts) h.i(p.x).i(p.y); h.d(maxedge).i(o); c.state(h.h);
  c.note(D(pts) + fmt(" maxedge %g order %d -> %zu triangles", maxedge, o, got.size())); c.outcome(fmt("triangles=%zu", got.size()));
  for (auto& s : got) c.check(want.count(s), full.count(s) ? "untrimmed-edge" : "not-delaunay", D(pts) + ": a triangle that is not Delaunay or has a too long edge");
  // flat hull triangles whose circumcircle reaches a corner of the auxiliary outer triangle (10 m around the points)
  // belong to that corner; every other Delaunay triangle must be there
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& p : pts) { x0 = std::min(x0, (double)p.x); x1 = std::max(x1, (double)p.x); y0 = std::min(y0, (double)p.y); y1 = std::max(y1, (double)p.y); }
  x0 -= 10; y0 -= 10; x1 += 10; y1 += 10;
  double sx[3] = {x0 - (y1 - y0), x1 + (y1 - y0), (x0 + x1) / 2}, sy[3] = {y0, y0, y1 + (x1 - x0) / 2};
  for (auto& s : want) if (!got.count(s))
  {
    std::vector<P> t; for (int i : s) t.push_back(pts[i]);
    double ax = t[0].x, ay = t[0].y, bx = t[1].x - ax, by = t[1].y - ay, ex = t[2].x - ax, ey = t[2].y - ay, d = 2 * (bx * ey - by * ex);
    double ux = (ey * (bx * bx + by * by) - by * (ex * ex + ey * ey)) / d, uy = (bx * (ex * ex + ey * ey) - ex * (bx * bx + by * by)) / d, R = std::sqrt(ux * ux + uy * uy);
    bool reach = false; for (int q = 0; q < 3; q++) if (std::hypot(sx[q] - ax - ux, sy[q] - ay - uy) < R + 1e-6) reach = true;
    c.check(reach, "missing-triangle", D(pts) + fmt(": a Delaunay triangle (circumradius %.2f) is missing", R));
  }
}
// lattice point sets (co-circular and collinear cases included): every output triangle is a real empty-circle triangle, no overlaps
void lattice(Ctx& c)
{
  int W = c.tier(4, 4), H = 4; std::vector<P> pts; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (c.flip()) pts.push_back({x * 5, y * 5});
  size_t n = pts.size(); if (n < 3) return;
  std::vector<int> order; for (size_t i = 0; i < n; i++) order.push_back((int)i);
  double maxedge = c.flip() ? 1e9 : 8.0; Tris got = run(c, pts, order, maxedge); double area = 0;
  for (auto& s : got)
  {
    std::vector<P> t; for (int i : s) t.push_back(pts[i]);
    ll a = cross(t[0], t[1], t[2]); c.check(a != 0, "flat", D(pts) + ": a triangle of zero area"); area += std::fabs((double)a) / 2;
    for (size_t l = 0; l < n; l++) if (!s.count((int)l)) c.check(inCircle(t[0], t[1], t[2], pts[l]) <= 0, "not-delaunay", D(pts) + ": a reference point lies inside a triangle's circumcircle");
    for (int u = 0; u < 3; u++) c.check(d2(t[u], t[(u + 1) % 3]) <= maxedge * maxedge, "untrimmed-edge", D(pts) + ": an edge longer than the limit survived");
  }
  // interiors are disjoint: no triangle centroid in another triangle, total area within the hull
  for (auto& s : got)
  {
    P g{0, 0}; for (int i : s) { g.x += pts[i].x; g.y += pts[i].y; }    // 3x centroid
    for (auto& r : got) if (r != s)
    {
      std::vector<P> t; for (int i : r) t.push_back({pts[i].x * 3, pts[i].y * 3});
      ll a = cross(t[0], t[1], g), b = cross(t[1], t[2], g), e = cross(t[2], t[0], g);
      c.check(!((a > 0 && b > 0 && e > 0) || (a < 0 && b < 0 && e < 0)), "overlap", D(pts) + ": two triangles overlap");
    }
  }
  c.step(); Hasher h; for (auto& p : pts) h.i(p.x).i(p.y); h.d(maxedge); c.state(h.h); c.outcome(fmt("lattice=%zu", got.size())); c.note(D(pts) + fmt(" -> %zu triangles", got.size()));
}
// many points in general position, on and inside a circle or all over a square
void many(Ctx& c)
{
  int N = c.pick(c.quick ? std::vector<int>{12, 33, 60, 100} : std::vector<int>{12, 33, 60, 100, 150, 200}), kind = c.choose(2), seed = c.choose(c.tier(2, 6)); static std::map<int, std::vector<P>> ws; std::vector<P>& pts = ws[N * 100 + kind * 10 + seed];
  if (pts.empty())
  {
    unsigned q = 777 + N + 1000 * seed; auto rnd = [&] { q = q * 1103515245u + 12345u; return ((q >> 8) & 0xffff) / 65536.0; }; int hull = kind ? 0 : std::max(8, N / 5);
    while ((int)pts.size() < N)
    {
      int i = (int)pts.size(); double a = 2 * M_PI * (i < hull ? (i + 0.3 * rnd()) / hull : rnd()), d = i < hull ? 9000 + 20 * rnd() : 8300 * std::sqrt(rnd()); P p = kind ? P{(ll)(18000 * rnd()), (ll)(18000 * rnd())} : P{(ll)(9000 + d * std::cos(a)), (ll)(9000 + d * std::sin(a))};
      bool ok = true; for (auto& r : pts) if (d2(p, r) < 90000) ok = false; for (size_t i = 0; i < pts.size() && ok; i++) for (size_t j = i + 1; j < pts.size() && ok; j++) if (std::llabs(cross(p, pts[i], pts[j])) < 20000) ok = false;
      if (ok) pts.push_back(p);
    }
  }
  double maxedge = c.pick(std::vector<double>{1e9, 3500.0}); std::vector<int> order; for (int i = 0; i < N; i++) order.push_back(i); int o = c.choose(3); if (o == 1) std::reverse(order.begin(), order.end()); if (o == 2) { unsigned r = 99; for (int i = N - 1; i > 0; i--) { r = r * 1103515245 + 12345; std::swap(order[i], order[(r >> 16) % (i + 1)]); } }
  judge(c, pts, run(c, pts, order, maxedge), maxedge, o);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"many", many, 3}, {"general_position", unique_, 4}, {"lattice", lattice, 5} }; }
