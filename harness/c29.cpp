// C29 walls: a path is free iff it stays inside one allowed zone and touches no obstacle
#include "core_util.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C29";
namespace {
typedef long long ll; struct P { ll x, y; };       // lattice in half metres
ll cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
bool onSeg(P p, P a, P b) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
typedef std::vector<P> Rg;
int where(double x, double y, const Rg& r)          // 1 inside, 0 boundary, -1 outside
{
  bool in = false; size_t n = r.size();
  for (size_t i = 0; i < n; i++)
  {
    P a = r[i], b = r[(i + 1) % n]; double cr = (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x);
    if (std::fabs(cr) < 1e-9 && x >= std::min(a.x, b.x) - 1e-9 && x <= std::max(a.x, b.x) + 1e-9 && y >= std::min(a.y, b.y) - 1e-9 && y <= std::max(a.y, b.y) + 1e-9) return 0;
    if ((a.y > y) != (b.y > y)) { double xi = a.x + (y - a.y) * (b.x - a.x) / (double)(b.y - a.y); if (x < xi) in = !in; }
  }
  return in ? 1 : -1;
}
// parameters where the segment meets edges of the ring, then samples between them: exact classification
std::vector<double> cuts(P a, P b, const Rg& r)
{
  std::vector<double> t{0, 1}; size_t n = r.size();
  for (size_t i = 0; i < n; i++)
  {
    P q = r[i], s = r[(i + 1) % n]; ll det = (b.x - a.x) * (s.y - q.y) - (b.y - a.y) * (s.x - q.x);
    if (det) { double k = ((q.x - a.x) * (s.y - q.y) - (q.y - a.y) * (s.x - q.x)) / (double)det; if (k > 0 && k < 1) t.push_back(k); }
    for (P v : {q, s}) if (onSeg(v, a, b)) { ll L = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y); if (L) t.push_back(((v.x - a.x) * (b.x - a.x) + (v.y - a.y) * (b.y - a.y)) / (double)L); }
  }
  std::sort(t.begin(), t.end()); std::vector<double> u; for (size_t i = 0; i < t.size(); i++) { u.push_back(t[i]); if (i + 1 < t.size()) u.push_back((t[i] + t[i + 1]) / 2); } return u;
}
bool covered(P a, P b, const Rg& r) { for (double t : cuts(a, b, r)) if (where(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y), r) < 0) return false; return true; }
bool touches(P a, P b, const Rg& r) { for (double t : cuts(a, b, r)) if (where(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y), r) >= 0) return true; return false; }
struct Zone { Rg outer; std::vector<Rg> holes; };
Rg rc(ll x0, ll y0, ll x1, ll y1) { return {{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}}; }
Zone hall() { Zone z{rc(0, 0, 60, 60), {}}; for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) z.holes.push_back(rc(5 * i + 2, 5 * j + 2, 5 * i + 3, 5 * j + 3)); return z; }
std::vector<Zone> rooms() { std::vector<Zone> v; for (int i = 0; i < 40; i++) v.push_back({rc(6 * i, 0, 6 * i + 5, 8), {rc(6 * i + 2, 3, 6 * i + 3, 4)}}); return v; }
const std::vector<std::vector<Zone>> MAPS{
  {{rc(0, 0, 8, 8), {}}},
  {{rc(0, 0, 8, 8), {rc(3, 3, 5, 5)}}},
  {{rc(0, 0, 8, 8), {rc(1, 1, 2, 7), rc(4, 4, 6, 5), {{4, 0}, {6, 2}, {7, 1}}}}},
  {{{{0, 0}, {0, 8}, {3, 8}, {3, 3}, {8, 3}, {8, 0}}, {rc(1, 4, 2, 5)}}},                       // L shape
  {{rc(0, 0, 3, 8), {rc(1, 2, 2, 3)}}, {rc(5, 0, 8, 8), {rc(6, 5, 7, 6)}}},                     // two rooms apart
  {{rc(0, 0, 4, 8), {}}, {rc(4, 0, 8, 8), {rc(5, 5, 6, 6)}}},                                   // two rooms sharing a wall line
  {{{{0, 0}, {0, 8}, {8, 8}, {8, 0}, {6, 0}, {6, 5}, {2, 5}, {2, 0}}, {rc(3, 6, 5, 7)}}},        // U shape
  {hall()},                                                                                      // a hall with 144 pillars
  rooms(),                                                                                       // 40 rooms side by side, a pillar in each
};
const size_t SMALL = 7;      // the maps on the small lattice
const LevelGeometry& geom(size_t i, bool rev)
{
  static std::map<std::pair<size_t, bool>, LevelGeometry> g; auto k = std::make_pair(i, rev); auto it = g.find(k); if (it != g.end()) return it->second;
  std::vector<Poly> ps;
  for (auto& z : MAPS[i])
  {
    Poly p; auto cv = [&](const Rg& r) { std::vector<XYPoint> v; for (auto& q : r) v.push_back({q.x * 0.5, q.y * 0.5}); v.push_back(v[0]); if (rev) std::reverse(v.begin(), v.end()); return v; };
    p.outer = cv(z.outer); for (auto& h : z.holes) p.holes.push_back(cv(h)); ps.push_back(p);
  }
  return g[k] = geometry(ps, false);
}
bool freePath(const std::vector<P>& path, size_t m)
{
  bool in = false; for (auto& z : MAPS[m]) { bool ok = true; for (size_t i = 0; i + 1 < path.size(); i++) if (!covered(path[i], path[i + 1], z.outer)) ok = false; in |= ok; }
  if (!in) return false;
  for (auto& z : MAPS[m]) for (auto& h : z.holes) for (size_t i = 0; i + 1 < path.size(); i++) if (touches(path[i], path[i + 1], h)) return false;
  return true;
}
void ask(Ctx& c, size_t m, bool rev, const std::vector<P>& path)
{
  Linestring l; std::string d = fmt("map %zu path", m); for (auto& p : path) { boost::geometry::append(l, Point(p.x * 0.5, p.y * 0.5)); d += fmt(" (%.1f,%.1f)", p.x * 0.5, p.y * 0.5); }
  bool got = !geom(m, rev).isPathTouchesBarriers(l), want = freePath(path, m); c.step();
  c.outcome(got ? "free" : "blocked"); c.check(got == want, "barrier", d + (want ? " is free but reported blocked" : " is blocked but reported free")); c.note(d + (got ? " free" : " blocked"));
}
void paths2(Ctx& c)
{
  size_t m = c.choose((int)SMALL); bool rev = c.flip(); int n = 10; int a = c.choose(n * n), b = c.choose(n * n);
  P p{a % n - 1, a / n - 1}, q{b % n - 1, b / n - 1}; if (c.quick && rev && (a % 2)) return; if (p.x == q.x && p.y == q.y) return;
  ask(c, m, rev, {p, q}); c.state(Hasher().i(m).i(a).i(b).h);
}
void paths3(Ctx& c)
{
  size_t m = c.choose((int)SMALL); int n = c.tier(4, 5), s = c.tier(3, 2); P p[3]; for (auto& q : p) { int k = c.choose(n * n); q = P{(k % n) * s - (c.quick ? 1 : 0), (k / n) * s - (c.quick ? 1 : 0)}; }
  if ((p[0].x == p[1].x && p[0].y == p[1].y) || (p[2].x == p[1].x && p[2].y == p[1].y)) return;
  // a path that folds back onto itself is not a path the library is asked about
  if (cross(p[0], p[1], p[2]) == 0 && (p[0].x - p[1].x) * (p[2].x - p[1].x) + (p[0].y - p[1].y) * (p[2].y - p[1].y) > 0) return;
  ask(c, m, false, {p[0], p[1], p[2]}); c.state(Hasher().i(m).i(p[0].x).i(p[0].y).i(p[1].x).i(p[1].y).i(p[2].x).i(p[2].y).h);
}
void shape(Ctx& c)
{
  size_t m = c.choose((int)SMALL); bool rev = c.flip(); const LevelGeometry& g = geom(m, rev); double want = 0; double x1 = -1e9, y1 = -1e9, x0 = 1e9, y0 = 1e9;
  auto ar = [](const Rg& r) { ll s = 0; for (size_t i = 0; i < r.size(); i++) { P a = r[i], b = r[(i + 1) % r.size()]; s += a.x * b.y - b.x * a.y; } return std::fabs((double)s) / 2 * 0.25; };
  for (auto& z : MAPS[m]) { want += ar(z.outer); for (auto& h : z.holes) want -= ar(h); for (auto& p : z.outer) { x0 = std::min(x0, p.x * 0.5); x1 = std::max(x1, p.x * 0.5); y0 = std::min(y0, p.y * 0.5); y1 = std::max(y1, p.y * 0.5); } }
  c.step(); c.near(boost::geometry::area(g.allowedArea()), want, 1e-9, "area", "free area"); c.near(g.boundingBox().min_corner().x(), x0, 1e-12, "box", "box"); c.near(g.boundingBox().max_corner().x(), x1, 1e-12, "box", "box"); c.near(g.boundingBox().min_corner().y(), y0, 1e-12, "box", "box"); c.near(g.boundingBox().max_corner().y(), y1, 1e-12, "box", "box");
  // point containment of the allowed area
  for (int x = -1; x <= 9; x++) for (int y = -1; y <= 9; y++)
  {
    int w = -1; bool bd = false; for (auto& z : MAPS[m]) { int o = where(x, y, z.outer); if (o == 0) bd = true; if (o > 0) { w = 1; for (auto& h : z.holes) { int q = where(x, y, h); if (q == 0) bd = true; if (q > 0) w = -1; } } }
    if (bd) continue; c.step(); bool got = boost::geometry::within(Point(x * 0.5, y * 0.5), g.allowedArea()); c.check(got == (w > 0), "within", fmt("point (%.1f, %.1f) of map %zu", x * 0.5, y * 0.5, m)); c.state(Hasher().i(m).i(x).i(y).h);
  }
  c.outcome("shape"); 
}
// large maps: straight paths near every pillar and in every room
void large(Ctx& c)
{
  size_t m = SMALL + c.choose(2); int k = c.choose(m == SMALL ? 144 : 40); P o = m == SMALL ? P{5 * (k % 12), 5 * (k / 12)} : P{6 * k, 0}; int a = c.choose(30), b = c.choose(30); P p{o.x + a % 6, o.y + a / 6 + (m == SMALL ? 0 : 1)}, q{o.x + b % 6, o.y + b / 6 + (m == SMALL ? 0 : 1)}; if (p.x == q.x && p.y == q.y) return; if (c.quick && (a + b + k) % 3) return;
  ask(c, m, c.flip(), {p, q}); c.state(Hasher().i(m).i(k).i(a).i(b).h);
}
// long paths through the aisles of the hall, free except where one detour meets a pillar
void longPaths(Ctx& c)
{
  int n = c.pick(std::vector<int>{3, 8, 17, 33, 65, 130}), at = c.choose(n), d = c.choose(5), s = c.choose(2); std::vector<P> w; ll x = 0, y = s ? 5 : 0; int dir = 1; w.push_back({x, y});
  for (int i = 0; (int)w.size() <= n; i++) { if (i % 2 == 0) { x += dir * 5; if (x >= 60 || x <= 0) dir = -dir; } else { y += 5; if (y > 60) { y = 0; break; } } w.push_back({x, y}); if (y >= 60) break; }
  if (at < (int)w.size()) { P& p = w[at]; if (d == 1) p.x += 2, p.y += 2; if (d == 2) p.x -= 1; if (d == 3) p.y += 1; if (d == 4) p.x -= 61; } ask(c, SMALL, false, w); c.state(Hasher().i(n).i(at).i(d).i(s).h);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"straight_paths", paths2, 3}, {"bent_paths", paths3, 3}, {"shapes", shape, 1}, {"large_maps", large, 3}, {"long_paths", longPaths, 3} }; }
