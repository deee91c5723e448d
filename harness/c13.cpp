// C13 least squares smoothing
#include <array>
#include "core_util.h"
#include "position_postprocessor/position_smoother_lstsq.h"
#include "position_postprocessor/position_postprocessor.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C13";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
bool allowed(double x, double y) { bool in = x >= 0 && y >= 0 && x <= 40 && y <= 30, hole = x > 18 && x < 22 && y > 5 && y < 25; return in && !hole; }
double margin(double x, double y) { double m = std::min({std::fabs(x), std::fabs(y), std::fabs(x - 40), std::fabs(y - 30)}); for (double v : {18.0, 22.0}) m = std::min(m, std::fabs(x - v)); for (double v : {5.0, 25.0}) m = std::min(m, std::fabs(y - v)); return m; }
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world() { static World w; if (!w.c) { w.l.emplace_back("L1", std::vector<Poly>{Poly{rect(0, 0, 40, 30), {{{18, 5}, {22, 5}, {22, 25}, {18, 25}, {18, 5}}}}}); w.l.emplace_back("L2", 40.0, 30.0); w.c = collector(w.l); } return w; }
struct Cfg { double w, window, shift; bool bars; };
NavigationSettings make(World& q, const Cfg& f) { NavigationSettings n = settings(q.l); auto& s = n.commonSettings; s.smoothing = f.w; s.sigAveragingTime = f.window; s.sigWindowShift = f.shift; s.useBarriers = f.bars; s.useAbFilter = false; s.useSmoothing = true; return n; }
struct Model
{
  Cfg f; bool started = false, unsure = false; std::vector<std::array<double, 3>> win; double lx = 0, ly = 0; const char* rule = "";
  XYPoint step(double X, double Y, long long T, bool bars)
  {
    unsure = false; double t = T / 1000.0; if (!started) { started = true; rule = "first"; return XYPoint(X, Y); }
    if (!win.empty() && win.back()[0] == t) { win.back()[1] = X; win.back()[2] = Y; } else win.push_back({t, X, Y});
    while (win.back()[0] - win.front()[0] > f.window + 1e-9) win.erase(win.begin()); 
    double x, y, w = std::min(1.0, std::max(0.0, f.w));
    if (win.size() == 1) { x = X; y = Y; rule = "single"; }
    else
    {
      double n = win.size(), mt = 0, mx = 0, my = 0, tt = 0, tx = 0, ty = 0; for (auto& p : win) { mt += (p[0] - t) / n; mx += p[1] / n; my += p[2] / n; } for (auto& p : win) { double d = p[0] - t - mt; tt += d * d; tx += d * (p[1] - mx); ty += d * (p[2] - my); }
      double at = -f.shift - mt; x = mx + at * tx / tt; y = my + at * ty / tt; x = w * x + (1 - w) * lx; y = w * y + (1 - w) * ly; rule = "fitted";
    }
    lx = x; ly = y; if (f.bars && bars) { if (margin(x, y) < 1e-5) unsure = true; if (!allowed(x, y)) { win.clear(); rule = "barrier"; return XYPoint(X, Y); } }
    return XYPoint(x, y);
  }
  void reset() { win.clear(); }
};
struct O { double x, y; };
const std::vector<O> OB{{5, 10}, {7.5, 12}, {5, 13}, {16, 11}, {24, 14}};
void history(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{c.pick(std::vector<double>{1.0, 0.4, 1.8, 0.0}), c.flip() ? 2.05 : 30.05, c.flip() ? 0.6 : 0.0, c.flip()}; PositionSmootherLstsq e(make(w, m.f)); long long now = 1700000000000LL; const Level& lv = w.c->level(LevelId("L1"));
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int a = c.choose((int)OB.size() + 1); if (a == (int)OB.size()) { if (!m.started) return; e.reset(Position(1, 1, LevelId("L1"), 1, now, false, Provider::INDOOR, 0)); m.reset(); c.note("reset"); continue; }
    now += c.pick(gPause ? std::vector<long long>{700, WEEKS + 300, WEEKS2 + 300} : i < 3 ? std::vector<long long>{700, 0, 4000} : std::vector<long long>{700, 1300}); auto& o = OB[a]; XYPoint q = m.step(o.x, o.y, now - 1700000000000LL, true); Position p(o.x, o.y, LevelId("L1"), 2.5, now, false, Provider::FUSED, 0.2), g = e.smoothPosition(p, lv); c.step();
    std::string t = fmt("weight %g window %g shift %g%s, call %d at %lld: (%g, %g) (%s)", m.f.w, m.f.window, m.f.shift, m.f.bars ? " barriers" : "", i + 1, now - 1700000000000LL, o.x, o.y, m.rule); c.note(t + fmt(" -> (%.4f, %.4f)", g.x, g.y)); if (m.unsure) return; c.outcome(m.rule);
    c.near(g.x, q.x, 1e-6, "position", t + ": x"); c.near(g.y, q.y, 1e-6, "position", t + ": y"); c.check(g.ts == now && g.provider == Provider::FUSED && g.deviationM == 2.5 && g.heading == 0.2 && g.levelId.value == "L1", "attributes", t + ": other fields changed"); Hasher h; for (auto& p : m.win) h.d(now / 1000.0 - p[0] - 1.7e9).d(p[1]).d(p[2]); c.state(h.d(m.lx).d(m.ly).i(m.f.bars).h);
  }
}
void pauses(Ctx& c) { Pause p; history(c); }
// long runs: the fit does not lose its precision, and a track at rest stays where it is
void lasting(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{c.flip() ? 1.0 : 0.5, c.flip() ? 3.05 : 5.05, 0.5, false}; PositionSmootherLstsq e(make(w, m.f)); long long now = 1700000000000LL; const Level& lv = w.c->level(LevelId("L1")); double x = 5, y = 5;
  for (int i = 0; i < c.rounds(6, 7, i); i++)
  {
    int a = c.choose(4), n = a == 3 ? 40 : 4; if (a == 3 && c.flip()) now += 7200000;
    for (int k = 0; k < n; k++) { now += 1000; if (a == 1) x += 0.5; if (a == 2) { x -= 0.25; y += 0.75; } XYPoint q = m.step(x, y, now - 1700000000000LL, true); Position g = e.smoothPosition(Position(x, y, LevelId("L1"), 2.5, now, false, Provider::INDOOR, 0), lv); c.step(); std::string t = fmt("block %d, call %d: (%g, %g)", i, k, x, y); if (std::fabs(g.x - q.x) > 1e-4 || k == n - 1) c.note(t + fmt(" -> (%.4f, %.4f)", g.x, g.y)); c.near(g.x, q.x, 1e-4, "position", t + ": x"); c.near(g.y, q.y, 1e-4, "position", t + ": y"); if (a == 3 && k > 30) { c.near(g.x, x, 1e-3, "rest", t + ": at rest, x"); c.near(g.y, y, 1e-3, "rest", t + ": at rest, y"); } c.outcome(m.rule); }
    c.state(Hasher().d(x).d(y).d(m.lx).d(m.ly).h);
  }
}
void post(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{0.7, 2.05, 0.0, c.flip()}; auto s = make(w, m.f); s.commonSettings.deadReckoningTime = 1e6; PositionPostprocessor e(w.c, s); long long now = 1700000000000LL, pts = 0; int lvl = -1; O cur{}; int curL = 0;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    int a = c.choose(7); now += 900; if (a < 6) { static const O Q[3] = {{5.004, 10.004}, {7.504, 12.004}, {16.004, 11.004}}; cur = Q[a % 3]; curL = a / 3; pts = now; } else if (!pts) return;
    if (lvl != curL) m.reset(); lvl = curL; XYPoint q = m.step(cur.x, cur.y, pts - 1700000000000LL, curL == 0); const char* L = curL ? "L2" : "L1";
    Position g = e.getProcessedPosition(Position(cur.x, cur.y, LevelId(L), 2, pts, false, Provider::INDOOR, 0), now, MotionInfo(), w.c->level(LevelId(L))); c.step(); std::string t = fmt("epoch %d: %s (%g, %g) (%s)", i + 1, L, cur.x, cur.y, m.rule); double X = std::min(40.0, std::max(0.0, q.x)), Y = std::min(30.0, std::max(0.0, q.y)); c.note(t + fmt(" -> (%.3f, %.3f), fit (%.4f, %.4f)", g.x, g.y, q.x, q.y)); if (m.unsure) return; c.outcome(std::string("post ") + m.rule);
    c.check(!g.isEmpty && g.x <= X + 1e-5 && g.x >= X - 0.0101 && g.y <= Y + 1e-5 && g.y >= Y - 0.0101, "post-position", t + fmt(": (%.4f, %.4f), expected (%.4f, %.4f)", g.x, g.y, X, Y)); c.state(Hasher().d(m.lx).d(m.ly).i(curL).i(m.win.size()).h);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"history", history, 5}, {"pauses", pauses, 5}, {"lasting", lasting, 3}, {"post", post, 3}, {"history_lasso", lasso<history>, 4}, {"lasting_lasso", lasso<lasting, 60, 40, 2>, 4}, {"post_lasso", lasso<post>, 4} }; }
