// C07 barometer gate: with the barometer on, a level change is let through only with a matching pressure change
#include "core_util.h"
#include "level_estimator/level_estimator.h"
#include <deque>
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C07";
namespace {
struct Injected : LevelEstimator
{
  LevelId next;
  Injected(const NavigationSettings& s) : LevelEstimator(s) {}
  LevelId detectCurrentLevel(const RadioMeasurementsData&) override { return next; }
};
struct Model
{
  // hysteresis as in C06
  std::string cur; std::map<std::string, int> votes; bool init = false;
  std::string hist(const std::string& d)
  { if (d.empty()) return cur; if (!init) { init = true; cur = d; } if (++votes[d] >= 5) { votes.clear(); votes[d] = 4; cur = d; } return cur; }
  // barometer: recent window of 101 samples, older window of up to 101 samples before it
  bool started = false; std::string out; std::vector<double> p; size_t n = 0;
  std::string step(const std::string& d, bool isBaro, double v)
  {
    std::string l = hist(d);
    if (!started) { started = true; return l; }        // the very first epoch bypasses the barometer
    if (isBaro) p.push_back(v);
    n = p.size();
    // recent = last 101; older = the (at most 101) samples before them; both needed before the gate closes
    if (n >= 201)
    {
      if (out != l)
      {
        size_t older = std::min<size_t>(n - 101, 101);
        double rec = 0, old = 0;
        for (size_t i = n - 101; i < n; i++) rec += p[i];
        for (size_t i = n - 101 - older; i < n - 101; i++) old += p[i];
        rec /= 101; old /= older;
        if (rec > 1e-15 && old > 1e-15)
        {
          double dh = 8.31 * 288.0 / (9.8 * 0.0289) * std::log(rec / old);
          margin = std::fabs(std::fabs(dh) - 2.0);
          if (std::fabs(dh) > 2.0) out = l;
        }
      }
    }
    else out = l;
    return out;
  }
  double margin = 1;
};
SensorMeasurement sensor(bool baro, double v)
{ SensorMeasurement s; s.ts = 0; s.data.type = baro ? SensorMeasurementData::Type::BAROMETER : SensorMeasurementData::Type::ACCELEROMETER; s.data.values = Vector3d(v, 0, 9.8); return s; }

struct Run
{
  NavigationSettings s; std::unique_ptr<Injected> e; Model m; Ctx& c;
  Run(Ctx& c_) : c(c_) { s.commonSettings.useBarometer = true; e.reset(new Injected(s)); }
  bool one(const std::string& d, bool baro, double v)
  {
    e->next = LevelId(d);
    std::string got = e->calculateLevel(RadioMeasurementsData(), sensor(baro, v)).value;
    m.margin = 1; std::string want = m.step(d, baro, v);
    c.step();
    if (m.margin < 1e-6) return false;       // exactly on the 2 m threshold: either answer is acceptable, stop here
    c.check(got == want, "barometer-gate", fmt("detected '%s', %s %.3f, %zu pressure samples: level '%s', expected '%s'", d.c_str(), baro ? "pressure" : "accelerometer", v, m.n, got.c_str(), want.c_str()));
    return true;
  }
  bool block(const std::string& d, bool baro, double v, int n)
  { for (int i = 0; i < n; i++) if (!one(d, baro, v)) return false;
    c.state(Hasher().s(m.out).s(m.cur).i(m.n).d(v).h);
    if (c.tracing()) c.note(fmt("%d x (%s, %s %.2f) -> %s", n, d.c_str(), baro ? "baro" : "acc", v, m.out.c_str())); return true; }
};
const std::vector<double> P{1013.0, 1012.80, 1012.75, 1012.5, 1013.5};   // 0, ~1.67, ~2.09, ~4.2 m up, ~4.2 m down
void warm(Ctx& c)      // from the initial state: before the windows are full the gate is open
{
  Run r(c);
  static const std::vector<std::string> L{"A", "B", ""}; static const std::vector<int> N{1, 60, 99, 101};
  std::string o;
  for (int i = 0; i < c.rounds(3, 4, i); i++)
  {
    const std::string& d = c.pick(L); int n = c.pick(N); int kind = c.choose(3); bool baro = kind != 2; double v = P[kind == 1 ? 3 : 0];
    if (!r.block(d, baro, v, n)) return;
    o += r.m.out + ",";
  }
  c.outcome("warm:" + r.m.out);
}
void gated(Ctx& c)     // from a settled state (both windows full of 1013 mbar on level A)
{
  Run r(c);
  int pre = 200 + c.choose(5);              // boundary of "both windows full"
  if (!r.block("A", true, 1013.0, pre)) return;
  static const std::vector<std::string> L{"A", "B", ""}; static const std::vector<int> N{6, 50, 101, 1};
  for (int i = 0; i < c.rounds(3, 3, i); i++)
  {
    const std::string& d = L[c.choose(c.tier(2, 3))]; double v = c.pick(P); int n = N[c.choose(c.tier(3, 4))];
    if (!r.block(d, true, v, n)) return;
  }
  c.outcome("gated:" + r.m.cur + "/" + r.m.out);
}
void nonbaro(Ctx& c)   // other sensors never fill the windows and never block
{
  Run r(c);
  if (!r.block("A", true, 1013.0, c.choose(2) ? 201 : 100)) return;
  static const std::vector<std::string> L{"A", "B"}; static const std::vector<int> N{5, 150};
  for (int i = 0; i < c.rounds(3, 4, i); i++) { const std::string& d = c.pick(L); bool b = c.flip(); if (!r.block(d, b, b ? c.pick(P) : 0.0, c.pick(N))) return; }
  c.outcome("nonbaro:" + r.m.cur + "/" + r.m.out);
}
void off(Ctx& c)       // barometer switched off: pressure never matters
{
  NavigationSettings s; s.commonSettings.useBarometer = false; Injected e1(s), e2(s);
  static const std::vector<std::string> L{"A", "B", ""};
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    std::string d = c.pick(L); double v = c.flip() ? 1013 : 990; int n = c.flip() ? 1 : 80;
    for (int k = 0; k < n; k++)
    {
      e1.next = e2.next = LevelId(d);
      std::string a = e1.calculateLevel(RadioMeasurementsData(), sensor(true, v)).value, b = e2.calculateLevel(RadioMeasurementsData(), sensor(false, 0)).value;
      c.step(); c.check(a == b, "barometer-off", "pressure influenced the level although the barometer is off");
    }
    c.state(Hasher().s(d).d(v).i(i).h);
  }
  c.outcome("off");
}
// through the client: messages of other kinds between and after the pressure samples add none
void stale(Ctx& c)
{
  static std::vector<LevelSpec> ls; static std::shared_ptr<LevelCollector> col; if (!col) { ls.emplace_back("A", 40.0, 30.0); ls.emplace_back("B", 40.0, 30.0); ls[0].tx("a", 5, 5); ls[1].tx("b", 5, 5); col = collector(ls); }
  auto s = settings(ls); s.commonSettings.useBarometer = true; s.commonSettings.sigAveragingTime = 3; s.commonSettings.sigWindowShift = 1; s.commonSettings.noSignalTimeThreshold = 1000; s.commonSettings.noActionTimeThreshold = 1000;
  auto c1 = createNavigationClient(col, s), c2 = createNavigationClient(col, s); long long t = 1600000000000LL; std::string hist; double v = 1013; std::string last;
  struct Op { char k; double v; int n; }; static const std::vector<Op> OPS{{'B', 0, 8}, {'B', 0, 130}, {'A', 0, 8}, {'P', 1013, 30}, {'P', 1012.5, 104}, {'P', 1012.8, 104}, {'A', 0, 130}};
  for (int i = -2; i < c.tier(3, 5); i++)
  {
    Op o = i == -2 ? Op{'A', 0, 10} : i == -1 ? Op{'P', 1013, c.flip() ? 240 : 150} : c.pick(OPS); hist += o.k == 'P' ? fmt(" pressure %g*%d", o.v, o.n) : fmt(" radio of %c*%d", o.k, o.n);
    for (int k = 0; k < o.n; k++)
    {
      t += o.k == 'P' ? 50 : 1000; std::vector<Measurement> b{o.k == 'P' ? mSensor(t, SensorMeasurementData::Type::BAROMETER, o.v, 0, 0) : mRadio(t, o.k == 'A' ? "a" : "b", -60)};
      auto r1 = c1->navigate(b); if (o.k == 'P') b.push_back(mSensor(t, SensorMeasurementData::Type::GYROSCOPE, 0, 0, 0)); auto r2 = c2->navigate(b); c.step(2);
      std::string l1 = r1.back().posLevel.value, l2 = r2.back().posLevel.value; c.check(l1 == l2, "stale-pressure", hist + fmt(", message %d: level '%s' when the pressure is the last sample, '%s' when a gyroscope reading follows", k, l1.c_str(), l2.c_str())); if (l1 != last) c.note(hist + fmt(", message %d: ", k) + l1); last = l1;
    }
    c.state(Hasher().s(hist).s(last).h);
  }
  c.outcome("client " + last);
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"warm_up", warm, 3}, {"gated", gated, 3}, {"other_sensors", nonbaro, 3}, {"disabled", off, 3}, {"client", stale, 3}, {"warm_lasso", lasso<warm, 40, 20, 2>, 4}, {"gated_lasso", lasso<gated, 40, 20, 2>, 4}, {"nonbaro_lasso", lasso<nonbaro, 40, 20, 2>, 4} }; }
