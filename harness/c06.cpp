// C06 level hysteresis: the reported level follows a five-detections rule for every detection history
#include "core_util.h"
#include "level_estimator/level_estimator.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C06";
namespace {
// the detection of a single epoch is injected; everything above it is the code under test
struct Injected : LevelEstimator
{
  LevelId next;
  Injected(const NavigationSettings& s) : LevelEstimator(s) {}
  LevelId detectCurrentLevel(const RadioMeasurementsData&) override { return next; }
};
struct Model
{
  std::string cur; std::map<std::string, int> votes; bool init = false;
  std::string step(const std::string& d)
  {
    if (d.empty()) return cur;                         // nothing detected: level kept
    if (!init) { init = true; cur = d; }               // first detection is taken at once
    if (++votes[d] >= 5) { votes.clear(); votes[d] = 4; cur = d; }  // confirmed: competitors start over
    return cur;
  }
  uint64_t hash() const { Hasher h; h.s(cur); for (auto& v : votes) h.s(v.first).i(v.second); return h.h; }
};
SensorMeasurement sensor()
{ SensorMeasurement s; s.ts = 0; s.data.type = SensorMeasurementData::Type::ACCELEROMETER; s.data.values = Vector3d(0, 0, 9.8); return s; }

void seq(Ctx& c, const std::vector<std::string>& alphabet, int depth, const std::vector<std::string>& prefix)
{
  NavigationSettings s; s.commonSettings.useBarometer = false;
  Injected e(s); Model m;
  auto one = [&](const std::string& d) {
    e.next = LevelId(d);
    std::string got = e.calculateLevel(RadioMeasurementsData(), sensor()).value, want = m.step(d);
    c.step(); c.state(m.hash());
    if (c.tracing()) c.note("detect '" + d + "' -> '" + got + "'");
    c.check(got == want, "level-history", "after detecting '" + d + "' the level is '" + got + "', expected '" + want + "'");
    return got; };
  for (auto& d : prefix) one(d);
  std::string out; for (int i = 0; i < c.rounds(depth, depth, i); i++) out = one(c.pick(alphabet));
  c.outcome("final=" + out);
}
// floors whose names agree in a long prefix, in a suffix or in all but one character
void three(Ctx& c) { seq(c, {"building-0017-floor-0001-north", "building-0017-floor-0001-south", "building-0018-floor-0001-north", ""}, c.tier(9, 11), {}); }
void two(Ctx& c) { seq(c, {"A", "B", ""}, c.tier(11, 13), {}); }
void fromSettled(Ctx& c) { seq(c, {"A", "B", "C"}, c.tier(10, 12), {"A", "A", "A", "A", "A", "A", "A", "A", "B", "C", "B", "B"}); }
// long runs: blocks of equal detections, so that votes accumulate far beyond the threshold
void blocks(Ctx& c)
{
  NavigationSettings s; s.commonSettings.useBarometer = false; Injected e(s); Model m;
  static const std::vector<int> lens{1, 3, 4, 5, 40};
  static const std::vector<std::string> al{"A", "B", "C", ""};
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    std::string d = c.pick(al); int n = c.pick(lens);
    for (int k = 0; k < n; k++)
    {
      e.next = LevelId(d); std::string got = e.calculateLevel(RadioMeasurementsData(), sensor()).value, want = m.step(d);
      c.step(); c.state(m.hash());
      c.check(got == want, "level-history", fmt("block %d (%s), item %d: level '%s', expected '%s'", i, d.c_str(), k, got.c_str(), want.c_str()));
    }
    if (c.tracing()) c.note(fmt("%d x '%s' -> '%s'", n, d.c_str(), m.cur.c_str()));
  }
  c.outcome("blocks=" + m.cur);
}
// two estimators never share votes
void isolation(Ctx& c)
{
  NavigationSettings s; Injected e1(s), e2(s); Model m1, m2; static const std::vector<std::string> al{"A", "B"};
  for (int i = 0; i < c.rounds(9, 10, i); i++)
  {
    bool first = c.flip(); std::string d = c.pick(al); Injected& e = first ? e1 : e2; Model& m = first ? m1 : m2;
    e.next = LevelId(d); std::string got = e.calculateLevel(RadioMeasurementsData(), sensor()).value, want = m.step(d);
    c.step(); c.state(Hasher().u(m1.hash()).u(m2.hash()).h);
    c.check(got == want, "level-isolation", "interleaved estimators: '" + got + "' expected '" + want + "'");
  }
  c.outcome("iso=" + m1.cur + m2.cur);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"two_levels", two, 4}, {"three_levels", three, 4}, {"from_settled", fromSettled, 4}, {"blocks", blocks, 4}, {"isolation", isolation, 6}, {"three_lasso", lasso<three, 300, 300, 5>, 4}, {"isolation_lasso", lasso<isolation, 300, 200, 3>, 4}, {"blocks_lasso", lasso<blocks, 60, 60, 2>, 4} }; }
