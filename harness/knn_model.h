// independent computation of fingerprint weights and positions
#pragma once
#include "core_util.h"
namespace km {
using namespace cu;
struct RP { std::string id; double x, y; std::map<std::string, double> fp; };
struct M { std::string id; double rssi, power; };
typedef std::map<std::string, double> W;
// similarity of every reference point that shares at least three transmitters with the measurements
inline W weights(const std::vector<RP>& rps, const std::vector<M>& ms, bool diff)
{
  std::map<std::string, double> trust; double sum = 0;
  for (auto& m : ms) { double p = m.power < 1e-5 ? -10 : m.power; double t = std::pow(10.0, -1.8 * (p - m.rssi) / 30.0); trust[m.id] = t; sum += t; }
  for (auto& t : trust) t.second /= sum;
  W w;
  for (auto& r : rps)
  {
    std::vector<const M*> v; for (auto& m : ms) if (r.fp.count(m.id)) v.push_back(&m);
    if (v.size() < 3) continue;
    double pen = 0, norm = 0;
    auto f = [&](const M* m) { return r.fp.at(m->id); };
    if (diff) for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++)
    { double t = trust[v[i]->id] * trust[v[j]->id]; norm += t; pen += std::max(std::fabs((v[i]->rssi - v[j]->rssi) - (f(v[i]) - f(v[j]))) * t, 1e-6); }
    else for (auto m : v) { double t = trust[m->id]; norm += t; pen += std::max(std::fabs(m->rssi - f(m)) * t, 1e-6); }
    if (norm > 1e-8) pen /= norm;
    w[r.id] = v.size() / std::sqrt(pen);
  }
  return w;
}
// many points on and inside a circle: the ones on it keep the hull triangles from being flat
inline std::vector<RP> crowd(int n, int form, int txs = 9)
{
  std::vector<RP> r; int hull = std::min(n, std::max(8, n / 4)); unsigned q = 12345 + n;
  auto rnd = [&] { q = q * 1103515245u + 12345u; return ((q >> 8) & 0xffff) / 65536.0; };
  for (int i = 0; i < n; i++)
  {
    RP p; p.id = bigId(form, i); double a, d; if (i < hull) { a = 2 * M_PI * (i + 0.3 * rnd()) / hull; d = 9 + 0.02 * rnd(); } else { a = 2 * M_PI * rnd(); d = 8.2 * std::sqrt(rnd()); }
    p.x = 15 + d * std::cos(a); p.y = 10 + d * std::sin(a); int from = (int)(rnd() * txs), k = 4 + (int)(rnd() * (txs - 4)); for (int t = 0; t < k; t++) p.fp[bigId(form, (from + t) % txs)] = -50 - std::floor(rnd() * 160) / 4; r.push_back(p);
  }
  return r;
}
inline const RP& find(const std::vector<RP>& r, const std::string& id) { for (auto& p : r) if (p.id == id) return p; abort(); }
// all positions the K heaviest points can give (several only when points tie at the boundary)
inline std::vector<XYPoint> kBest(const std::vector<RP>& rps, const W& w, size_t k)
{
  std::vector<std::pair<double, const RP*>> v; for (auto& p : w) v.push_back({p.second, &find(rps, p.first)});
  std::vector<XYPoint> out; if (v.empty() || k == 0) return out;
  std::sort(v.begin(), v.end(), [](const std::pair<double, const RP*>& a, const std::pair<double, const RP*>& b) { return a.first > b.first; });
  k = std::min(k, v.size());
  double cut = v[k - 1].first; std::vector<const RP*> tied; double x = 0, y = 0, n = 0; size_t in = 0;
  for (auto& p : v) if (p.first > cut * (1 + 1e-9)) { x += p.first * p.second->x; y += p.first * p.second->y; n += p.first; in++; } else if (p.first >= cut * (1 - 1e-9)) tied.push_back(p.second);
  size_t need = k - in; std::vector<bool> sel(tied.size(), false); std::fill(sel.begin(), sel.begin() + need, true);
  do { double X = x, Y = y, N = n; for (size_t i = 0; i < tied.size(); i++) if (sel[i]) { X += cut * tied[i]->x; Y += cut * tied[i]->y; N += cut; } out.push_back(XYPoint(X / N, Y / N)); } while (std::prev_permutation(sel.begin(), sel.end()));
  return out;
}
// Delaunay triangles of points in general position, without those that have an edge longer than maxedge
inline std::vector<std::vector<std::string>> delaunay(const std::vector<RP>& p, double maxedge)
{
  std::vector<std::vector<std::string>> t; size_t n = p.size();
  auto cross = [](const RP& a, const RP& b, const RP& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); };
  for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++)
  {
    double s = cross(p[i], p[j], p[k]); if (std::fabs(s) < 1e-9) continue; bool ok = true;
    for (size_t l = 0; l < n && ok; l++) if (l != i && l != j && l != k)
    {
      auto d = [&](size_t q) { double X = p[q].x - p[l].x, Y = p[q].y - p[l].y; return std::array<double, 3>{X, Y, X * X + Y * Y}; };
      auto a = d(i), b = d(j), c = d(k); double det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
      if ((s > 0 ? det : -det) > 0) ok = false;
    }
    auto e = [&](size_t a, size_t b) { return std::hypot(p[a].x - p[b].x, p[a].y - p[b].y); };
    if (ok && e(i, j) <= maxedge && e(j, k) <= maxedge && e(i, k) <= maxedge) t.push_back({p[i].id, p[j].id, p[k].id});
    if (ok)
    { // the point sets must not have flat triangles at the hull: whether those are found depends on the auxiliary outer triangle
      double bx = p[j].x - p[i].x, by = p[j].y - p[i].y, ex = p[k].x - p[i].x, ey = p[k].y - p[i].y, q = 2 * (bx * ey - by * ex), R = std::hypot(bx, by) * std::hypot(ex, ey) * e(j, k) / std::fabs(q);
      double ux = p[i].x + (ey * (bx * bx + by * by) - by * (ex * ex + ey * ey)) / q, uy = p[i].y + (bx * (ex * ex + ey * ey) - ex * (bx * bx + by * by)) / q;
      double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& r : p) { x0 = std::min(x0, r.x); x1 = std::max(x1, r.x); y0 = std::min(y0, r.y); y1 = std::max(y1, r.y); }
      x0 -= 10; y0 -= 10; x1 += 10; y1 += 10; double sx[3] = {x0 - (y1 - y0), x1 + (y1 - y0), (x0 + x1) / 2}, sy[3] = {y0, y0, y1 + (x1 - x0) / 2};
      for (int c = 0; c < 3; c++) if (std::hypot(sx[c] - ux, sy[c] - uy) < R + 1) { fprintf(stderr, "flat hull triangle %s %s %s\n", p[i].id.c_str(), p[j].id.c_str(), p[k].id.c_str()); abort(); }
    }
  }
  return t;
}
inline std::vector<XYPoint> triBest(const std::vector<RP>& rps, const W& w, const std::vector<std::vector<std::string>>& tris)
{
  auto g = [&](const std::string& i) { auto it = w.find(i); return it == w.end() ? 0.0 : it->second; };
  double best = 0; for (auto& t : tris) best = std::max(best, g(t[0]) + g(t[1]) + g(t[2]));
  std::vector<XYPoint> out; if (best < 1e-15) return out;
  for (auto& t : tris)
  {
    double n = g(t[0]) + g(t[1]) + g(t[2]); if (n < best * (1 - 1e-9)) continue; double x = 0, y = 0;
    for (auto& i : t) { x += g(i) * find(rps, i).x; y += g(i) * find(rps, i).y; } out.push_back(XYPoint(x / n, y / n));
  }
  return out;
}
inline bool any(const std::vector<XYPoint>& c, double x, double y, double tol) { for (auto& p : c) if (std::fabs(p.x - x) < tol && std::fabs(p.y - y) < tol) return true; return false; }
inline LevelSpec& addRps(LevelSpec& l, const std::vector<RP>& r, bool rev) { for (size_t i = 0; i < r.size(); i++) { auto& p = r[rev ? r.size() - 1 - i : i]; l.rp(p.id, p.x, p.y, p.fp); } return l; }
}
