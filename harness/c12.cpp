// C12 time smoothing
#include "core_util.h"
#include "position_postprocessor/navigation_time_smoother.h"
#include "position_postprocessor/position_postprocessor.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C12";
namespace {
// set while a scenario runs with pauses of weeks, longer than 2^31 and 2^32 milliseconds
bool gPause = false; struct Pause { Pause() { gPause = true; } ~Pause() { gPause = false; } }; const long long WEEKS = 1LL << 32, WEEKS2 = 1LL << 31;
struct P { double x, y; long long ts; int l; };
struct Model
{
  std::vector<P> last; const char* rule = "";      // the last two different positions of one floor
  XYPoint run(const P& p, long long now)
  {
    if (!last.empty() && last.back().l != p.l) last.clear();
    if (last.empty() || p.ts > last.back().ts) { last.push_back(p); if (last.size() > 2) last.erase(last.begin()); }
    if (last.size() < 2) { rule = "first"; return XYPoint(last[0].x, last[0].y); }
    double k = double(now - last[1].ts) / double(last[1].ts - last[0].ts); if (k > 1) { rule = "reached"; k = 1; } else rule = "moving";
    return XYPoint(last[0].x + k * (last[1].x - last[0].x), last[0].y + k * (last[1].y - last[0].y));
  }
};
const P Q[4] = {{5.004, 10.004, 0, 0}, {17.504, 22.004, 0, 0}, {30.004, 3.004, 0, 0}, {12.004, 9.004, 0, 1}};
void direct(Ctx& c)
{
  NavigationTimeSmoother e; Model m; P cur{}; bool has = false; long long now = 1700000000000LL;
  for (int i = 0; i < c.rounds(gPause ? 4 : 5, gPause ? 5 : 7, i); i++)
  {
    now += c.pick(gPause ? std::vector<long long>{400, WEEKS + 300, WEEKS2 + 300} : std::vector<long long>{400, 1000, 2700}); int a = c.choose(5); if (a < 4) { cur = Q[a]; cur.ts = now; has = true; } else if (!has) return;
    XYPoint w = m.run(cur, now); Position g = e.getTimeSmoothedPosition(Position(cur.x, cur.y, LevelId(cur.l ? "L2" : "L1"), 3, cur.ts, false, Provider::FUSED, 0.7), now); c.step();
    std::string t = fmt("+%lld ms: %s (%g, %g) (%s)", now - 1700000000000LL, a < 4 ? "new" : "repeated", cur.x, cur.y, m.rule); c.note(t + fmt(" -> (%.4f, %.4f)", g.x, g.y)); c.outcome(m.rule);
    c.near(g.x, w.x, 1e-9, "position", t + ": x"); c.near(g.y, w.y, 1e-9, "position", t + ": y"); c.check(g.levelId.value == (cur.l ? "L2" : "L1") && g.provider == Provider::FUSED && g.deviationM == 3 && !g.isEmpty && g.heading == 0.7, "attributes", t + ": other fields changed");
    c.state(Hasher().d(g.x).d(g.y).i(cur.l).i(m.last.size()).i(now - m.last.back().ts).h);
  }
}
void pauses(Ctx& c) { Pause p; direct(c); }
// regular updates: no jump larger than the time passed allows
void steady(Ctx& c)
{
  NavigationTimeSmoother e; long long now = 1700000000000LL; P cur{}; XYPoint prev(0, 0); bool has = false; double vmax = 0; P before{};
  for (int i = 0; i < c.rounds(6, 8, i); i++)
  {
    before = cur; cur = Q[c.choose(3)]; cur.ts = now; 
    for (int k = 0; k < 4; k++)
    {
      Position g = e.getTimeSmoothedPosition(Position(cur.x, cur.y, LevelId("L1"), 3, cur.ts, false, Provider::INDOOR, 0), now + 250 * k); c.step(); double lim = 0; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) lim = std::max(lim, std::hypot(Q[u].x - Q[v].x, Q[u].y - Q[v].y));
      if (has && i > 1) { double d = std::hypot(g.x - prev.x, g.y - prev.y); c.check(d <= lim / 4 + 1e-6, "jump", fmt("update %d +%d ms: the position jumped %.3f m within 250 ms", i, 250 * k, d)); }
      if (i > 1) { double q = k / 4.0; c.near(g.x, before.x + q * (cur.x - before.x), 1e-9, "line", "x"); c.near(g.y, before.y + q * (cur.y - before.y), 1e-9, "line", "y"); }
      prev = XYPoint(g.x, g.y); has = true; c.state(Hasher().d(g.x).d(g.y).h); c.outcome("steady");
    }
    now += 1000;
  }
}
// inside post-processing
void post(Ctx& c)
{
  static std::vector<LevelSpec> l; static std::shared_ptr<LevelCollector> col; if (!col) { l.emplace_back("L1", 40.0, 30.0); l.emplace_back("L2", 40.0, 30.0); col = collector(l); }
  auto s = settings(l); s.commonSettings.useSmoothing = false; s.commonSettings.useTimeSmoothing = true; s.commonSettings.deadReckoningTime = 4; PositionPostprocessor e(col, s); Model m; P cur{}; bool has = false; long long now = 1700000000000LL;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    now += c.pick(std::vector<long long>{400, 1000, 2700}); int a = c.choose(5); if (a < 4) { cur = Q[a]; cur.ts = now; has = true; } else if (!has) return; const char* L = cur.l ? "L2" : "L1";
    Position g = e.getProcessedPosition(Position(cur.x, cur.y, LevelId(L), 3, cur.ts, false, Provider::INDOOR, 0), now, MotionInfo(), col->level(LevelId(L))); c.step(); if (now - cur.ts >= 4000) { c.check(g.isEmpty, "post-old", "a position older than the dead reckoning time"); continue; }
    XYPoint w = m.run(cur, now); std::string t = fmt("+%lld ms: %s (%g, %g) (%s)", now - 1700000000000LL, a < 4 ? "new" : "repeated", cur.x, cur.y, m.rule); c.note(t + fmt(" -> (%.3f, %.3f)", g.x, g.y)); c.outcome(std::string("post ") + m.rule);
    c.check(!g.isEmpty && g.x <= w.x + 1e-6 && g.x >= w.x - 0.0101 && g.y <= w.y + 1e-6 && g.y >= w.y - 0.0101, "post-position", t + fmt(": (%.4f, %.4f), expected (%.4f, %.4f)", g.x, g.y, w.x, w.y)); c.state(Hasher().d(w.x).d(w.y).i(cur.l).h);
  }
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"direct", direct, 4}, {"pauses", pauses, 4}, {"steady", steady, 3}, {"post", post, 4}, {"direct_lasso", lasso<direct>, 4}, {"post_lasso", lasso<post>, 4} }; }
