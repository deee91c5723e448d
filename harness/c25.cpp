// C25 standalone position estimation: preprocessor, nearest transmitter, smoother
#include "vx.h"
#include <memory>
#include <numeric>
#include "measurement_preprocessor.h"
#include "nearest_transmitter_estimator.h"
#include "position_smoother.h"
using namespace vx; using namespace navigine::navigation_core;
const char* VX_PROPERTY = "C25";
namespace {
typedef RadioMeasurement::Type T;
const long long T0 = 1600000000000LL;
struct Tx { const char* id; double x, y; }; const std::vector<Tx> TX{{"a", 2, 3}, {"b", 14, 3}, {"c", 8, 11.5}, {"d", 20, 20}, {"e", -5, 1}, {"f", 30, 2}, {"g", 1, 40}};
struct E { long long ts; std::string id; double rssi, dist; };
struct Pre
{
  long long shift, keep; bool wifi, ble; std::vector<E> buf; long long last = -1, cur = -1; std::string why;
  Pre(double avg, double sh, bool w, bool b) : wifi(w), ble(b) { long long a = avg * 1000; shift = sh * 1000; if (shift == 0 || shift > a) shift = a; keep = a - shift; }
  void update(T t, const E& e)
  {
    if (t == T::WIFI ? !wifi : !ble) { why = "type"; return; } if (!(e.rssi > -100 && e.rssi < 0)) { why = "signal"; return; }
    if (cur < 0) cur = last = e.ts; why = "used"; if (e.ts >= last) buf.push_back(e); else why = "late"; cur = std::max(cur, e.ts);
  }
  std::vector<E> extract()
  {
    std::vector<E> o; if (cur - last < shift) return o; last = cur; std::map<std::string, std::vector<E>> by; for (auto& e : buf) by[e.id].push_back(e);
    for (auto& q : by) { E r{0, q.first, 0, 0}; for (auto& e : q.second) { r.rssi += e.rssi / q.second.size(); r.dist += e.dist / q.second.size(); r.ts = std::max(r.ts, e.ts); } o.push_back(r); }
    std::vector<E> k; if (keep > 0) for (auto& e : buf) if (e.ts >= cur - keep) k.push_back(e); buf = k; std::sort(o.begin(), o.end(), [](const E& p, const E& q) { return p.rssi > q.rssi; }); return o;
  }
};
struct Smooth
{
  double al; bool on = false; double x = 0, y = 0, vx_ = 0, vy = 0, pr = 0; long long ts = -1; const char* rule = "";
  Smooth(double s) { s = std::min(1.0, std::max(0.0, s)); al = 0.9 - 0.8 * s; }
  void step(double X, double Y, double p, long long t)
  {
    if (t <= ts) { rule = "repeated"; return; } double d = (t - ts) / 1000.0, be = al * al / (2 - al);
    if (!on || d > 10) { x = X; y = Y; vx_ = vy = 0; rule = on ? "gap" : "first"; on = true; }
    else { double px = x + vx_ * d, py = y + vy * d; vx_ += be / d * (X - px); vy += be / d * (Y - py); x = px + al * (X - px); y = py + al * (Y - py); rule = "filtered"; }
    pr = p; ts = t;
  }
};
RadioMeasurement conv(const E& e, T t) { RadioMeasurement m; m.type = t; m.ts = e.ts; m.id = e.id; m.rssi = e.rssi; m.distance = e.dist; return m; }
std::vector<Transmitter> transmitters(int n) { std::vector<Transmitter> v; for (int i = 0; i < n; i++) { Transmitter t; t.id = TX[i].id; t.x = TX[i].x; t.y = TX[i].y; t.type = Transmitter::Type::BEACON; v.push_back(t); } return v; }
struct System
{
  MeasurementsPreprocessor p; NearestTransmitterPositionEstimator e; Pre m; Smooth s{0.9}; int known; long long cur = -1; bool unsure = false; std::string h;
  System(double avg, double sh, bool w, bool b, int k, bool dflt) : p(dflt ? MeasurementsPreprocessor() : MeasurementsPreprocessor(avg, sh, w, b)), e(transmitters(k)), m(avg, sh, w, b), known(k) {}
  void one(Ctx& c, T t, const E& x, bool extract)
  {
    p.update(conv(x, t)); m.update(t, x); cur = std::max(cur, x.ts); c.check(p.getCurrentTs() == cur, "current-time", h + ": current time"); if (!extract) return; auto g = p.extractRadioMeasurements(); auto w = m.extract(); c.step();
    c.check(g.size() == std::min<size_t>(5, w.size()), "packet-size", h + fmt(": packet of %d, expected %d", (int)g.size(), (int)std::min<size_t>(5, w.size())));
    for (size_t i = 0; i + 1 < w.size(); i++) if (w[i].rssi - w[i + 1].rssi < 1e-9) { unsure = true; return; }
    for (size_t i = 0; i < g.size(); i++) { c.check(g[i].id == w[i].id, "packet", h + fmt(": entry %d is '%s', expected '%s'", (int)i, g[i].id.c_str(), w[i].id.c_str())); c.near(g[i].rssi, w[i].rssi, 1e-9, "packet", h + ": mean signal of " + g[i].id); c.near(g[i].distance, w[i].dist, 1e-9, "packet", h + ": mean distance of " + g[i].id); c.check(g[i].ts == w[i].ts, "packet-time", h + fmt(": time of '%s' %lld, expected %lld", g[i].id.c_str(), g[i].ts - T0, w[i].ts - T0)); }
    if (g.empty()) { c.outcome("no packet"); return; } w.resize(g.size()); position(c, g, w);
  }
  void position(Ctx& c, const std::vector<RadioMeasurement>& g, const std::vector<E>& w)
  {
    Position q = e.calculatePosition(g); c.step(); const E* best = nullptr; long long ts = -1; const Tx* tx = nullptr; for (auto& x : w) for (int i = 0; i < known; i++) if (x.id == TX[i].id) { ts = std::max(ts, x.ts); if (best && std::fabs(best->rssi - x.rssi) < 1e-9 && best->id != x.id) { unsure = true; return; } if (!best || x.rssi > best->rssi) best = &x, tx = &TX[i]; }
    if (!best) { c.check(q.isEmpty, "no-position", h + ": a position without a known transmitter"); c.outcome("unknown only"); return; }
    c.check(!q.isEmpty, "position", h + ": no position"); s.step(tx->x, tx->y, 1 + std::sqrt(std::exp((-82 - best->rssi) / 3)), ts); c.note(h + fmt(" -> %s (%.4f, %.4f), precision %.4f", tx->id, q.x, q.y, q.precision)); c.outcome(s.rule);
    c.near(q.x, s.x, 1e-9, "position", h + fmt(" (%s, %s): x", tx->id, s.rule)); c.near(q.y, s.y, 1e-9, "position", h + fmt(" (%s, %s): y", tx->id, s.rule)); c.near(q.precision, s.pr, 1e-9, "precision", h + ": precision"); c.check(q.ts == s.ts, "position-time", h + fmt(": time %lld, expected %lld", q.ts - T0, s.ts - T0));
  }
  uint64_t hash() { Hasher q; for (auto& x : m.buf) q.s(x.id).d(x.rssi).i(m.cur - x.ts); return q.i(m.cur - m.last).d(s.x).d(s.y).d(s.vx_).h; }
};
struct S { T t; const char* id; double rssi; };
void history(Ctx& c)
{
  static const std::vector<S> A{{T::BEACON, "a", -50}, {T::BEACON, "a", -72.3}, {T::BEACON, "b", -60.1}, {T::WIFI, "c", -55.7}, {T::BEACON, "zz", -40}, {T::BEACON, "b", -100}, {T::WIFI, "a", 0}};
  struct Cf { double a, s; bool w, b, d; }; static const std::vector<Cf> CF{{3, 2, true, true, true}, {4, 1, true, true, false}, {2, 0, true, false, false}, {2, 3, false, true, false}}; auto& f = c.pick(CF); System y(f.a, f.s, f.w, f.b, 3, f.d); y.h = fmt("window %g s, shift %g s:", f.a, f.s); long long t = T0;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    auto& a = c.pick(A); long long dt = c.pick(i == 0 ? std::vector<long long>{0} : c.quick && i > 1 ? std::vector<long long>{700, 2100} : std::vector<long long>{0, 700, 2100, i == 2 ? 12000 : i == 1 ? (1LL << 32) + 700 : (1LL << 31) + 700}); bool late = i > 0 && dt == 700 && c.flip(); t += late ? 0 : dt; E e{late ? t - 1500 : t, a.id, a.rssi, 3.0 + i}; bool x = i == c.tier(4, 5) - 1 || i == 0 || c.choose(2) == 0;
    y.h += fmt(" %s:%g@%lld%s", a.id, a.rssi, e.ts - T0, x ? "" : "(no extraction)"); y.one(c, a.t, e, x); if (y.unsure) return; c.state(y.hash());
  }
}
// scans: several transmitters heard at the same time
void scans(Ctx& c)
{
  int known = c.choose(2) ? 7 : 2; System y(3, 2, true, true, known, true); y.h = fmt("%d transmitters known:", known); long long t = T0;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    long long dt = c.pick(std::vector<long long>{1000, 2600}); t += dt; int set = c.choose(6); bool rev = (i > 1 || !c.quick) && c.flip(); static const int M[] = {0x7f, 0x05, 0x3e, 0x02, 0x60, 0x41}; std::vector<int> o; for (int k = 0; k < 7; k++) if (M[set] >> k & 1) o.push_back(k); if (rev) std::reverse(o.begin(), o.end());
    y.h += fmt(" scan %02x%s@%lld", M[set], rev ? "r" : "", t - T0); for (int k : o) { y.one(c, k % 2 ? T::WIFI : T::BEACON, E{t, TX[k].id, -50.0 - ((k * 5 + i * 3) % 7) * 4 - k * 0.13, 1.0 + k}, true); if (y.unsure) return; } c.state(y.hash());
  }
}
// the estimator given packets directly: order and unknown transmitters have no influence
void packets(Ctx& c)
{
  System y(3, 2, true, true, 3, true); long long t = T0;
  for (int i = 0; i < c.rounds(3, 3, i); i++)
  {
    t += c.pick(std::vector<long long>{1000, 0, 9999, i == 1 ? (1LL << 32) + 1000 : 10001}); std::vector<E> w; std::vector<RadioMeasurement> g; int n = c.choose(4); y.h += " packet"; for (int k = 0; k < n; k++) { int a = c.choose(k == 0 ? 4 : 3); static const char* ID[] = {"b", "zz", "a", "c"}; E e{t - 500 * ((a + k) % 2), ID[a], -60.0 - 9 * ((a + i + k) % 3) - 0.1 * k, 2}; w.push_back(e); g.push_back(conv(e, T::BEACON)); y.h += fmt(" %s:%g@%lld", e.id.c_str(), e.rssi, e.ts - T0); }
    for (size_t p = 0; p < w.size(); p++) for (size_t q = 0; q < p; q++) if (w[p].id == w[q].id) return; y.position(c, g, w); if (y.unsure) return; c.state(y.hash());
  }
}
void smoother(Ctx& c)
{
  double sm = c.pick(std::vector<double>{0.5, 0, 1, 0.9, -3, 7}); PositionSmoother e = sm == 0.5 ? PositionSmoother() : PositionSmoother(sm); Smooth m(sm); long long t = c.choose(2) ? T0 : 0; std::string h = fmt("smoothing %g:", sm);
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    static const std::vector<Tx> P{{"", 0, 0}, {"", 10, -4}, {"", 3, 30}}; auto& q = c.pick(P); t += c.pick(std::vector<long long>{1000, 0, 10000, i == 1 ? (1LL << 32) + 1000 : i == 3 ? (1LL << 31) + 1000 : 10001}); Position p; p.x = q.x; p.y = q.y; p.precision = 1 + i; p.ts = t; p.isEmpty = false; Position g = e.smoothPosition(p); m.step(q.x, q.y, 1 + i, t); c.step(); h += fmt(" (%g,%g)@%lld", q.x, q.y, t);
    c.note(h + fmt(" -> (%.5f, %.5f)", g.x, g.y)); c.near(g.x, m.x, 1e-9, "smoother", h + fmt(" (%s): x", m.rule)); c.near(g.y, m.y, 1e-9, "smoother", h + fmt(" (%s): y", m.rule)); c.check(g.ts == m.ts && g.precision == m.pr && !g.isEmpty, "smoother-fields", h + ": other fields"); c.outcome(std::string("smoother ") + m.rule); c.state(Hasher().d(m.x).d(m.y).d(m.vx_).d(m.vy).d(sm).h);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"history", history, 4}, {"scans", scans, 3}, {"packets", packets, 3}, {"smoother", smoother, 3}, {"history_lasso", lasso<history>, 4}, {"scans_lasso", lasso<scans>, 4}, {"packets_lasso", lasso<packets, 200, 60, 1>, 4}, {"smoother_lasso", lasso<smoother>, 4} }; }
