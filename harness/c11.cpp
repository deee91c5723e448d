// C11 alpha-beta smoothing
#include "core_util.h"
#include "position_postprocessor/position_smoother_ab.h"
#include "position_postprocessor/position_postprocessor.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C11";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
// a room with an obstacle
bool allowed(double x, double y) { bool in = x >= 0 && y >= 0 && x <= 40 && y <= 30, hole = x > 18 && x < 22 && y > 5 && y < 25; return in && !hole; }
double margin(double x, double y)   // distance to the nearest border line
{ double m = std::min({std::fabs(x), std::fabs(y), std::fabs(x - 40), std::fabs(y - 30)}); for (double v : {18.0, 22.0}) m = std::min(m, std::fabs(x - v)); for (double v : {5.0, 25.0}) m = std::min(m, std::fabs(y - v)); return m; }
struct World { std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> c; };
World& world() { static World w; if (!w.c) { w.l.emplace_back("L1", std::vector<Poly>{Poly{rect(0, 0, 40, 30), {{{18, 5}, {22, 5}, {22, 25}, {18, 25}, {18, 5}}}}}); w.l.emplace_back("L2", 40.0, 30.0); w.c = collector(w.l); } return w; }
struct Cfg { double s; bool acc, speed, bars; };
NavigationSettings make(World& w, const Cfg& f) { NavigationSettings n = settings(w.l); auto& q = n.commonSettings; q.smoothing = f.s; q.useAccuracyForSmoothing = f.acc; q.useSpeedConstraint = f.speed; q.useBarriers = f.bars; q.useAbFilter = true; q.useSmoothing = true; return n; }
struct Model
{
  Cfg f; bool started = false, has = false, unsure = false; double x = 0, y = 0, dev = 0, vx = 0, vy = 0; long long ts = 0; const char* rule = "";
  void raw(double X, double Y, double D, long long T) { x = X; y = Y; dev = D; ts = T; vx = vy = 0; }
  void step(double X, double Y, double D, long long T, bool bars)
  {
    unsure = false; if (T <= ts) { rule = "unchanged"; return; }
    double t = (T - ts) / 1000.0, s = std::min(1.0, std::max(0.0, f.s)), a = 0.1 * s + 0.9 * (1 - s);
    if (f.acc) a = std::min(0.9, std::max(0.1, dev / (D + dev + 0.5)));
    double b = a * a / (2 - a), px = x + vx * t, py = y + vy * t, rx = X - px, ry = Y - py, nvx = vx + b / t * rx, nvy = vy + b / t * ry, sx = px + a * rx, sy = py + a * ry, v = std::hypot(nvx, nvy);
    if (!started) { rule = "first"; started = true; raw(X, Y, D, T); return; }
    if (t > 10) { rule = "gap"; raw(X, Y, D, T); return; }
    if (f.speed && std::fabs(v - 4) < 1e-9) unsure = true; if (f.speed && v > 4) { rule = "speed"; raw(X, Y, D, T); return; }
    if (f.bars && bars) { if (margin(sx, sy) < 1e-6) unsure = true; if (!allowed(sx, sy)) { rule = "barrier"; raw(X, Y, D, T); return; } }
    x = sx; y = sy; vx = nvx; vy = nvy; ts = T; dev = D; if (f.acc) dev = (1 - a) * (D + t * std::hypot(vx, vy)) + a * D; rule = "filtered";
  }
  void reset(double X, double Y, double D, long long T) { raw(X, Y, D, T); }
};
struct O { double x, y, dev; };
const std::vector<O> OB{{5, 10, 2}, {7.5, 12, 6}, {16, 11, 2}, {24, 14, 3}, {9, 28, 0.4}};
void history(Ctx& c)
{
  World& w = world(); Model m; m.f.s = c.pick(std::vector<double>{0.5, 0, 1, 1.7}); int sw = c.choose(8); m.f.acc = sw & 1; m.f.speed = sw & 2; m.f.bars = sw & 4; PositionSmootherAB e(make(w, m.f)); long long now = 1700000000000LL; const Level& lv = w.c->level(LevelId("L1"));
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int a = c.choose((int)OB.size() + 1); 
    if (a == (int)OB.size()) { if (i == 0) now += 500; auto& o = OB[1]; Position p(o.x, o.y, LevelId("L1"), o.dev, now, false, Provider::INDOOR, 0); e.reset(p); m.reset(o.x, o.y, o.dev, now); p = e.smoothPosition(p, lv); c.step(); c.note("reset"); c.near(p.x, o.x, 1e-9, "reset", "position after a reset: x"); c.near(p.y, o.y, 1e-9, "reset", "position after a reset: y"); continue; }
    now += c.pick(i < c.tier(2, 5) ? std::vector<long long>{700, 3000, 10001, 15} : std::vector<long long>{700, 15}); auto& o = OB[a]; Position p(o.x, o.y, LevelId("L1"), o.dev, now, false, i % 2 ? Provider::FUSED : Provider::INDOOR, 0.3); m.step(o.x, o.y, o.dev, now, true); Position g = e.smoothPosition(p, lv); c.step();
    std::string t = fmt("smoothing %g%s%s%s, call %d: (%g, %g) +- %g (%s)", m.f.s, m.f.acc ? " accuracy" : "", m.f.speed ? " speed" : "", m.f.bars ? " barriers" : "", i + 1, o.x, o.y, o.dev, m.rule); c.note(t + fmt(" -> (%.4f, %.4f) +- %g", g.x, g.y, g.deviationM)); if (m.unsure) return; c.outcome(m.rule);
    c.near(g.x, m.x, 1e-9, "position", t + ": x"); c.near(g.y, m.y, 1e-9, "position", t + ": y"); c.check(g.ts == now && g.provider == p.provider && g.levelId.value == "L1" && g.heading == p.heading && !g.isEmpty, "attributes", t + ": time, source, level or heading changed"); c.near(g.deviationM, m.dev, 1e-9, "accuracy", t + ": accuracy");
    if (i < 2 && c.choose(2)) { Position h = e.smoothPosition(p, lv); c.step(); c.near(h.x, g.x, 1e-12, "unchanged-time", t + ": the same position again changed x"); c.near(h.y, g.y, 1e-12, "unchanged-time", t + ": the same position again changed y"); }
    c.state(Hasher().d(m.x).d(m.y).d(m.vx).d(m.vy).d(m.dev).i(sw).h);
  }
}
// longer tracks, few switches: the velocity recursion over many steps
void track(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{c.flip() ? 0.3 : 0.8, c.flip(), c.flip(), false}; PositionSmootherAB e(make(w, m.f)); long long now = 1700000000000LL; double x = 5, y = 5; const Level& lv = w.c->level(LevelId("L1"));
  for (int i = 0; i < c.rounds(gPause ? 5 : 7, gPause ? 6 : 8, i); i++)
  {
    int a = c.choose(c.mPeriod ? 5 : 6); now += a == 5 ? 20 : a == 4 ? (gPause ? (i & 1 ? WEEKS : WEEKS2) + 700 : 10300) : a == 3 ? 2500 : 1000; if (a == 1) x += 1.5; if (a == 5) y += 0.05; if (a == 2) { x += 1; y += 2; } if (a == 3) { x += 6; y -= 3; } double dev = a == 2 ? 6 : 2; Position p(x, y, LevelId("L1"), dev, now, false, Provider::INDOOR, 0); m.step(x, y, dev, now, true); Position g = e.smoothPosition(p, lv); c.step();
    std::string t = fmt("call %d: (%g, %g) (%s)", i + 1, x, y, m.rule); c.note(t + fmt(" -> (%.4f, %.4f)", g.x, g.y)); if (m.unsure) return; c.outcome(m.rule); c.near(g.x, m.x, 1e-9, "position", t + ": x"); c.near(g.y, m.y, 1e-9, "position", t + ": y"); c.near(g.deviationM, m.dev, 1e-9, "accuracy", t + ": accuracy"); c.state(Hasher().d(m.x).d(m.y).d(m.vx).d(m.vy).d(m.dev).h);
  }
}
void pauses(Ctx& c) { Pause p; track(c); }
// inside post-processing: a change of the floor starts the track anew, an unchanged time holds the position
void post(Ctx& c)
{
  World& w = world(); Model m; m.f = Cfg{0.6, false, true, c.flip()}; auto s = make(w, m.f); s.commonSettings.deadReckoningTime = 1e6; PositionPostprocessor e(w.c, s); long long now = 1700000000000LL, pts = 0; int lvl = -1; O cur{}; int curL = 0; 
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    int a = c.choose(7); now += 900; if (a < 6) { static const O Q[3] = {{5.004, 10.004, 2}, {7.504, 12.004, 2}, {16.004, 11.004, 3}}; cur = Q[a % 3]; curL = a / 3; pts = now; } else if (!pts) return;
    if (lvl != curL) { m.reset(cur.x, cur.y, cur.dev, pts); } else { m.step(cur.x, cur.y, cur.dev, pts, curL == 0); } lvl = curL; const char* L = curL ? "L2" : "L1";
    Position g = e.getProcessedPosition(Position(cur.x, cur.y, LevelId(L), cur.dev, pts, false, Provider::INDOOR, 0), now, MotionInfo(), w.c->level(LevelId(L))); c.step(); std::string t = fmt("epoch %d: %s (%g, %g)", i + 1, L, cur.x, cur.y); c.note(t + fmt(" -> (%.3f, %.3f), filter (%.4f, %.4f)", g.x, g.y, m.x, m.y)); if (m.unsure) return; c.outcome(std::string("post ") + m.rule);
    c.check(!g.isEmpty && g.levelId.value == L, "post-level", t + ": level"); c.check(g.x <= m.x + 1e-6 && g.x >= m.x - 0.0101 && g.y <= m.y + 1e-6 && g.y >= m.y - 0.0101, "post-position", t + fmt(": (%.4f, %.4f), expected (%.4f, %.4f)", g.x, g.y, m.x, m.y)); c.state(Hasher().d(m.x).d(m.y).d(m.vx).d(m.vy).i(curL).h);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"history", history, 4}, {"track", track, 4}, {"pauses", pauses, 3}, {"post", post, 3}, {"history_lasso", lasso<history>, 4}, {"track_lasso", lasso<track, 600, 300, 3>, 4}, {"post_lasso", lasso<post, 300, 120, 2>, 4} }; }
