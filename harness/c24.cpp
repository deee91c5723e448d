// C24 standalone trilateration
#include "vx.h"
#include <memory>
#include "trilateration.h"
using namespace vx;
const char* VX_PROPERTY = "C24";
namespace {
struct B { const char* id; double x, y; };
struct M { int b; double d; };
const B POOL[] = { {"(1,1,F7)", 54.5, 29.5}, {"(1,2,F7)", 34.0, 29.5}, {"(2,1,F7)", 49.25, -12.0}, {"(10,1,F7)", -3.5, 8.0}, {"(1,1,F8)", 7.0, 70.0}, {"(9,9,F7)", 1000, 1000} };   // the last one is on no map
void quiet(Ctx& c) { static bool done = false; if (!done && !c.mReplay) { done = true; if (!freopen("/dev/null", "w", stdout)) abort(); } }
struct Res { int err; double x, y; bool sum; };
// independent model: average per beacon, weights 1/distance over the beacons of the map
Res model(const std::vector<M>& ms, const std::vector<int>& map)
{
  std::map<int, std::pair<double, int>> avg; bool neg = false;
  for (auto& m : ms) { avg[m.b].first += m.d; avg[m.b].second++; if (m.d < 0) neg = true; }
  if (neg) return {28, 0, 0, false};
  if (avg.size() < 3) return {4, 0, 0, false};
  double sw = 0, sx = 0, sy = 0; int n = 0;
  for (auto& a : avg) if (std::find(map.begin(), map.end(), a.first) != map.end())
  { double d = a.second.first / a.second.second, w = 1 / std::max(d, 1e-6); n++; sw += w; sx += w * POOL[a.first].x; sy += w * POOL[a.first].y; }
  if (!n) return {4, 0, 0, false};
  return {0, sx / sw, sy / sw, true};
}
std::vector<BeaconMeas> meas(const std::vector<M>& ms)
{ std::vector<BeaconMeas> r; int k = 0; for (auto& m : ms) { BeaconMeas b; b.setBeaconId(POOL[m.b].id); b.setRssi(-60 - 7 * (k++ % 3)); b.setDistance(m.d); r.push_back(b); } return r; }
std::vector<Beacon> beacons(const std::vector<int>& map) { std::vector<Beacon> r; for (int i : map) { Beacon b; b.fillData(POOL[i].x, POOL[i].y, POOL[i].id, "n", "floor"); r.push_back(b); } return r; }
std::string show(const std::vector<M>& ms) { std::string s; for (auto& m : ms) s += fmt(" %s:%g", POOL[m.b].id, m.d); return s; }
void judge(Ctx& c, Trilateration& t, const std::vector<M>& ms, const std::vector<int>& map, const std::string& what)
{
  Res w = model(ms, map); int e = t.calculateCoordinates(); c.step();
  std::string s = what + show(ms); c.note(s + fmt(" -> code %d, (%.6f, %.6f), expected %d, (%.6f, %.6f)", e, t.getX(), t.getY(), w.err, w.x, w.y));
  c.outcome(fmt("code %d", e));
  c.check((e == 0) == (w.err == 0), "error-code", s + fmt(": code %d, expected %d", e, w.err));
  c.check(e == w.err, "error-kind", s + fmt(": code %d, expected %d", e, w.err));
  if (e) return;
  c.near(t.getX(), w.x, 1e-9, "coordinates", s + ": x"); c.near(t.getY(), w.y, 1e-9, "coordinates", s + ": y");
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (int i : map) { x0 = std::min(x0, POOL[i].x); x1 = std::max(x1, POOL[i].x); y0 = std::min(y0, POOL[i].y); y1 = std::max(y1, POOL[i].y); }
  c.check(t.getX() >= x0 - 1e-9 && t.getX() <= x1 + 1e-9 && t.getY() >= y0 - 1e-9 && t.getY() <= y1 + 1e-9, "hull", s + ": outside the beacons");
}
const std::vector<std::vector<int>> MAPS{{0, 1, 2, 3}, {3, 0, 2}, {4, 1}, {}};
void sets(Ctx& c)
{
  quiet(c); const auto& map = MAPS[c.choose(2)]; Trilateration t; auto bs = beacons(map); t.fillLocationBeacons(bs);
  std::vector<M> ms; int n = c.tier(5, 6);
  for (int i = 0; i < n; i++) { int b = c.choose(6); if (b == 5) break; static const int ID[] = {0, 1, 2, 3, 5}; ms.push_back({ID[b], c.pick(std::vector<double>{0.5, 4.0, 0.0})}); }
  auto v = meas(ms); t.updateMeasurements(v); judge(c, t, ms, map, "set:"); Hasher h; std::map<int, double> k; for (auto& m : ms) k[m.b] += m.d + 100; for (auto& q : k) h.i(q.first).d(q.second); c.state(h.i(map.size()).h);
}
// many different measurements of few beacons, and all distances
void distances(Ctx& c)
{
  quiet(c); std::vector<int> map{0, 1, 2, 3, 4}; std::vector<M> ms; static const std::vector<double> D{0, 1e-9, 1e-3, 0.3, 1, 2.5, 40, 3e4};
  int k = 3 + c.choose(3); for (int i = 0; i < k; i++) ms.push_back({(i * 2) % 5, c.pick(D)}); if (c.flip()) std::reverse(ms.begin(), ms.end());
  Trilateration t; auto bs = beacons(map); t.fillLocationBeacons(bs); auto v = meas(ms); t.updateMeasurements(v); judge(c, t, ms, map, "distances:"); c.state(Hasher().s(show(ms)).h);
}
// sequences of calls on one object
void history(Ctx& c)
{
  quiet(c); static const std::vector<std::vector<M>> SETS{
    {{0, 2}, {1, 5}, {2, 1}, {5, 3}}, {{4, 1}, {1, 2}, {5, 3}, {4, 3}}, {{0, 2}, {1, 3}, {0, 4}}, {{0, 2}, {1, -1}, {2, 3}}, {{5, 1}, {0, 0}, {3, 8}, {1, 8}, {0, 2}}, {} };
  auto t = std::make_unique<Trilateration>(); std::vector<M> ms; std::vector<int> map; std::vector<std::vector<Beacon>> keep;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    int a = c.choose(12);
    if (a < 6) { ms = SETS[a]; auto v = meas(ms); t->updateMeasurements(v); c.note("update" + show(ms)); }
    else if (a < 10) { map = MAPS[a - 6]; auto b = beacons(map); t->fillLocationBeacons(b); c.note(fmt("map of %d beacons", (int)map.size())); }
    else if (a == 10) judge(c, *t, ms, map, fmt("call %d:", i + 1));
    else { auto u = std::make_unique<Trilateration>(*t); t = std::move(u); c.note("copied"); }
    Hasher h; for (auto& m : ms) h.i(m.b).d(m.d); c.state(h.i(map.size()).i(map.empty() ? -1 : map[0]).h);
  }
  judge(c, *t, ms, map, "last call:"); judge(c, *t, ms, map, "called again:");
}
// many beacons, measured many times
void many(Ctx& c)
{
  quiet(c); int N = c.pick(std::vector<int>{3, 9, 33, 65, 130, 257, 300}), each = c.pick(std::vector<int>{1, 2, 20}), form = c.choose(2), out = c.choose(3); bool rev = c.flip();
  auto id = [&](int i) { return form ? fmt("(%d,%d,F7)", i / 16, i % 16) : std::string(1 + i, 'x'); }; auto X = [](int i) { return 0.5 * ((i * 37) % 113); }; auto Y = [](int i) { return 0.5 * ((i * 11) % 79); }; auto D = [](int i, int e) { return 0.5 + ((i * 29 + e * 7) % 83) * 0.75; };
  std::vector<Beacon> bs; int on = 0; for (int i = 0; i < N; i++) if (out == 0 || (out == 1 ? i % 3 != 1 : i >= N / 2)) { Beacon b; b.fillData(X(i), Y(i), id(i), "n", "floor"); bs.push_back(b); on++; } if (rev) std::reverse(bs.begin(), bs.end());
  std::vector<BeaconMeas> ms; for (int e = 0; e < each; e++) for (int i = 0; i < N; i++) { int k = (i * 7) % N; if (N % 7 == 0) k = i; BeaconMeas b; b.setBeaconId(id(k)); b.setRssi(-60 - k % 30); b.setDistance(D(k, e)); ms.push_back(b); }
  double sw = 0, sx = 0, sy = 0; for (int i = 0; i < N; i++) if (out == 0 || (out == 1 ? i % 3 != 1 : i >= N / 2)) { double d = 0; for (int e = 0; e < each; e++) d += D(i, e); double w = each / d; sw += w; sx += w * X(i); sy += w * Y(i); }
  Trilateration t; t.fillLocationBeacons(bs); t.updateMeasurements(ms); int e = t.calculateCoordinates(); c.step(); std::string s = fmt("%d beacons, %d on the map, %d measurements each, form %d", N, on, each, form); c.note(s + fmt(" -> %d (%.6f, %.6f)", e, t.getX(), t.getY())); c.check(e == 0, "error-code", s + fmt(": code %d", e));
  c.near(t.getX(), sx / sw, 1e-9, "coordinates", s + ": x"); c.near(t.getY(), sy / sw, 1e-9, "coordinates", s + ": y"); c.outcome(fmt("many %d", N)); c.state(Hasher().i(N).i(each).i(form).i(out).i(rev).h);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"sets", sets, 4}, {"distances", distances, 3}, {"history", history, 3}, {"history_lasso", lasso<history, 300, 120, 3>, 4}, {"many", many, 3} }; }
