// C18 pedometer
#include "core_util.h"
#include "sensor_fusion/pedometer.h"
#include "sensor_fusion/sensor_fusion.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C18";
namespace {
typedef SensorMeasurementData::Type ST;
const double THR = 0.05 * 9.80665;
struct Foot { long long ts; double len; };
// independent model of the step detection
struct Model
{
  struct S { long long t; double v; }; std::vector<S> raw, mag; long long last = -1; bool unsure = false; int n = 0;
  std::vector<Foot> step(long long t, double v)
  {
    unsure = false; raw.push_back({t, v}); double s = 0, f = 0; int ns = 0, nf = 0;
    for (size_t i = raw.size(); i-- > 0 && t - raw[i].t < 2500;) { s += raw[i].v; ns++; if (t - raw[i].t < 200) { f += raw[i].v; nf++; } }
    f /= nf; double m = f - (s + f) / ns; mag.push_back({t, m}); std::vector<Foot> r;
    if (mag.size() < 4) return r;
    size_t i = mag.size() - 1; if (std::fabs(mag[i].v - THR) < 1e-9 || std::fabs(mag[i - 1].v - THR) < 1e-9) unsure = true;
    if (mag[i - 1].v < THR && mag[i].v > THR && t - last > 300)
    {
      double lo = 1e300, hi = -1e300; for (size_t k = i; k-- > 0;) { lo = std::min(lo, mag[k].v); hi = std::max(hi, mag[k].v); if (t - mag[k].t > 700) break; }
      last = t; n++; r.push_back({t, 0.52 * std::pow(hi - lo, 0.25)});
    }
    size_t cut = 0; while (mag.back().t - mag[cut].t > 1400) cut++; mag.erase(mag.begin(), mag.begin() + cut);
    return r;
  }
};
Vector3d vec(double m, int k) { k %= 3; return k == 0 ? Vector3d(0, 0, m) : k == 1 ? Vector3d(0.6 * m, 0, -0.8 * m) : Vector3d(-0.48 * m, 0.6 * m, 0.64 * m); }
SensorMeasurement sm(long long t, ST ty, Vector3d v) { SensorMeasurement m; m.ts = t; m.data.type = ty; m.data.values = v; return m; }
struct In { long long dt; ST type; double v; };
const char* SEG[] = {"rest", "step", "weak", "fast", "gap", "gyro", "fall", "raised", "stamp", "49 days", "25 days"};
std::vector<In> segment(int a, int period)
{
  std::vector<In> r; int n = 400 / period; const double g = 9.80665;
  for (int i = 0; i < n; i++)
  {
    double ph = 2 * M_PI * (i + 1) / n, v = g;
    if (a == 1) v += 4 * sin(ph); if (a == 2) v += 0.9 * sin(ph); if (a == 3) v += 5 * sin(2 * ph); if (a == 6) v = 0.7; if (a == 7) v = 13.3; if (a == 8) v += (i % 4 == 0) ? 25 : -2;
    r.push_back({i ? period : a == 4 ? 2750 : a == 9 ? (1LL << 32) + 40 : a == 10 ? (1LL << 31) + 100 : period, ST::ACCELEROMETER, v});
    if (a == 5) { r.push_back({1, ST::GYROSCOPE, 40}); r.push_back({1, i % 2 ? ST::MAGNETOMETER : ST::BAROMETER, 990}); r.push_back({2, i % 2 ? ST::ORIENTATION : ST::LOCATION, 20}); }
  }
  return r;
}
std::string show(const std::vector<int>& w) { std::string s; for (int a : w) s += std::string(" ") + SEG[a]; return s; }
void waveform(Ctx& c)
{
  Pedometer e; Model m; int period = c.pick(c.quick ? std::vector<int>{50, 100} : std::vector<int>{50, 100, 20}); long long t = 1600000000000LL; std::vector<int> w; int k = 0, steps = 0; long long lastStep = 0; double prevs = 0;
  for (int i = 0; i < (period > 50 ? c.tier(5, 6) : c.tier(4, 5)); i++)
  {
    w.push_back(c.choose(9));
    for (auto& in : segment(w.back(), period))
    {
      t += in.dt; e.update(sm(t, in.type, vec(in.v, k++))); auto got = e.calculateSteps(); c.step(); std::vector<Foot> want; if (in.type == ST::ACCELEROMETER) want = m.step(t, in.v); if (m.unsure) return;
      std::string s = fmt("%d ms%s, at %lld ms", period, show(w).c_str(), t - 1600000000000LL);
      for (auto& g : got) c.note(s + fmt(": step at %lld, length %.6f", g.ts - 1600000000000LL, g.len));
      c.check(got.size() == want.size(), "steps", s + fmt(": %d step(s), expected %d", (int)got.size(), (int)want.size())); c.check(got.size() <= 1, "one-step", s + ": two steps at once");
      if (got.size()) { steps++; c.check(got[0].ts == want[0].ts && got[0].ts == t, "step-time", s + fmt(": step at %lld", got[0].ts - 1600000000000LL)); c.near(got[0].len, want[0].len, 1e-9, "step-length", s + ": step length"); c.check(lastStep == 0 || t - lastStep > 300, "spacing", s + ": step too early"); lastStep = t; c.check(std::isfinite(got[0].len) && got[0].len > 0, "step-length", s + ": length not positive"); }
    }
    Hasher h; for (auto& q : m.mag) h.d(q.v).i(t - q.t); c.state(h.i(std::min<long long>(t - m.last, 301)).h);
  }
  bool quiet = true; for (int a : w) quiet &= a == 0 || a == 5 || a == 4; c.check(!quiet || steps == 0, "rest", "steps at rest:" + show(w)); c.outcome(fmt("%d steps", steps)); (void)prevs;
}
// the same with pauses of weeks, longer than 2^31 and 2^32 milliseconds
void pauses(Ctx& c)
{
  static const int Q[] = {0, 1, 3, 9, 10}; Pedometer e; Model m; long long t = 1600000000000LL; std::vector<int> w; int k = 0, steps = 0;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    w.push_back(Q[c.choose(5)]);
    for (auto& in : segment(w.back(), 50))
    {
      t += in.dt; e.update(sm(t, in.type, vec(in.v, k++))); auto got = e.calculateSteps(); c.step(); auto want = m.step(t, in.v); if (m.unsure) return; std::string s = show(w) + fmt(", at %lld ms", t - 1600000000000LL);
      c.check(got.size() == want.size(), "steps", s + fmt(": %d step(s), expected %d", (int)got.size(), (int)want.size())); if (got.size()) { steps++; c.check(got[0].ts == t, "step-time", s + ": time of the step"); c.near(got[0].len, want[0].len, 1e-9, "step-length", s + ": step length"); }
    }
    Hasher h; for (auto& q : m.mag) h.d(q.v).i(t - q.t); c.state(h.h);
  }
  c.note(show(w) + fmt(": %d steps", steps)); c.outcome(fmt("%d steps with pauses", steps));
}
// every period and phase of regular walking; counts are those of the cycles
void walking(Ctx& c)
{
  Pedometer e; Model m; int period = c.pick(std::vector<int>{10, 20, 33, 50}), cycle = c.pick(std::vector<int>{280, 360, 480, 600, 750, 1100}); double amp = c.pick(std::vector<double>{0.8, 2, 6}); int phase = c.choose(4), irr = c.choose(3); long long t = 1600000000000LL, t0 = t + 1500; int k = 0, steps = 0, total = 0;
  while (t < t0 + c.tier(8000, 30000))
  {
    t += period + (irr == 1 ? (k % 3) * 4 : irr == 2 && k % 40 == 39 ? 180 : 0); double v = 9.80665 + (t > t0 ? amp * sin(2 * M_PI * ((t - t0) / (double)cycle + phase / 4.0)) : 0); e.update(sm(t, ST::ACCELEROMETER, vec(v, k++))); auto got = e.calculateSteps(); c.step(); auto want = m.step(t, v); if (m.unsure) return;
    std::string s = fmt("sampled every %d ms (irregular %d), cycle %d ms, amplitude %g, phase %d, at %lld", period, irr, cycle, amp, phase, t - t0); c.check(got.size() == want.size(), "steps", s + fmt(": %d step(s), expected %d", (int)got.size(), (int)want.size())); if (got.size()) { c.near(got[0].len, want[0].len, 1e-9, "step-length", s + ": step length"); c.check(got[0].ts == t, "step-time", s); steps++; } total++;
  }
  c.note(fmt("%d steps", steps)); if (amp > 1.5 && cycle >= 480 && irr == 0) { int cyc = (int)((t - t0) / cycle); c.check(std::abs(steps - cyc) <= 2, "count", fmt("%d steps in %d cycles of %d ms, amplitude %g", steps, cyc, cycle, amp)); }
  c.outcome(fmt("%d ms: %s", cycle, steps ? "steps" : "none")); c.state(Hasher().i(steps).i(cycle).d(amp).i(period).h);
}
// the motion information given to the client
void fusion(Ctx& c)
{
  std::vector<LevelSpec> l; l.emplace_back("L1", 40.0, 30.0); auto n = settings(l); double mult = c.pick(std::vector<double>{1.0, 0.7}); n.commonSettings.stepMultiplier = mult; SensorFusion e(n); Model m; long long t = 1600000000000LL; int count = 0, k = 0; std::vector<int> w; double prevHeading = 0;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    w.push_back(c.choose(7)); static const int Q[] = {0, 1, 3, 4, 5, 8, -1}; int a = Q[w.back()]; w.back() = std::max(a, 0);
    if (a < 0) { t += 5; for (int q = 0; q < 3; q++) { MotionInfo g = e.calculateDisplacement(boost::none, t); c.step(); c.check(!g.isStepDetected && g.distance == 0, "other-message", show(w) + ": a message without sensor data gives a step"); } continue; }
    for (auto& in : segment(a, 50))
    {
      t += in.dt; MotionInfo g = e.calculateDisplacement(sm(t, in.type, vec(in.v, in.type == ST::ACCELEROMETER ? 0 : k++)), t + 3); c.step(); std::vector<Foot> want; if (in.type == ST::ACCELEROMETER) want = m.step(t, in.v); if (m.unsure) return;
      std::string s = fmt("multiplier %g,%s at %lld", mult, show(w).c_str(), t - 1600000000000LL); if (g.isStepDetected) c.note(s + fmt(": step %d, distance %.5f", (int)g.stepCounter, g.distance));
      c.check(g.isStepDetected == !want.empty(), "motion-steps", s + ": step detected or not"); if (want.empty()) { c.check(g.distance == 0 && g.lastMotionTs == 0, "motion-none", s + ": motion without a step"); continue; }
      count++; c.check((int)g.stepCounter == count, "motion-counter", s + fmt(": counter %d, expected %d", (int)g.stepCounter, count)); c.near(g.distance, want[0].len * mult, 1e-9, "motion-distance", s + ": distance"); c.check(g.lastMotionTs == t + 3, "motion-time", s + ": time of the last motion"); c.near(g.deltaAngle, g.heading - prevHeading, 1e-12, "motion-turn", s + ": turn"); prevHeading = g.heading;
    }
    Hasher h; for (auto& q : m.mag) h.d(q.v).i(t - q.t); c.state(h.i(count).h);
  }
  c.outcome(fmt("fusion %d steps", count));
}
// other messages between the accelerometer readings of a walk change nothing
void client(Ctx& c)
{
  static std::vector<LevelSpec> l; static std::shared_ptr<LevelCollector> col; if (!col) { l.emplace_back("L1", 40.0, 30.0); l[0].tx("b1", 5, 5); col = collector(l); }
  auto cl = createNavigationClient(col, settings(l)); Model m; long long t = 1600000000000LL; int count = 0, k = 0; std::string hist; int nseg = c.tier(3, 4);
  for (int i = 0; i < nseg; i++)
  {
    int a = c.pick(std::vector<int>{0, 1, 8}), o = c.choose(5); int burst = o ? (c.flip() ? 12 : 1) : 0; hist += fmt(" %s+%s*%d", SEG[a], o == 0 ? "-" : o == 1 ? "radio" : o == 2 ? "nmea" : o == 3 ? "unknown radio" : "gnss", burst);
    for (auto& in : segment(a, 50))
    {
      t += in.dt; auto r = cl->navigate({mSensor(t, in.type, 0, 0, in.v)}); c.step(); auto want = m.step(t, in.v); if (m.unsure) return; count += want.size(); auto st = cl->getStates(); c.check(st.size() == 1, "states", "no state"); int sc = (int)st[0].getStepCounter();
      if (sc) c.note(hist + fmt(": step %d at %lld", sc, t - 1600000000000LL)); c.check(sc == (want.empty() ? 0 : count), "client-steps", hist + fmt(", at %lld: step counter %d, expected %d", t - 1600000000000LL, sc, want.empty() ? 0 : count)); if (want.size()) c.near(st[0].getStepLen(), want[0].len, 1e-9, "client-length", hist + ": step length");
      if (++k % 3 == 0) for (int b = 0; b < burst; b++) { Measurement x = o == 1 ? mRadio(t + b, "b1", -60) : o == 2 ? mNmea(t + b, 3, 9) : o == 3 ? mRadio(t + b, "zz", -60) : mSensor(t + b, ST::LOCATION, 60.0001, 30.0001, 10); cl->navigate({x}); c.step(); c.check(cl->getStates()[0].getStepCounter() == 0, "client-other", hist + ": a message of another kind gives a step"); }
    }
    Hasher h; for (auto& q : m.mag) h.d(q.v).i(t - q.t); c.state(h.i(count).i(o).h);
  }
  c.outcome(fmt("client %d steps", count));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"waveform", waveform, 3}, {"pauses", pauses, 2}, {"walking", walking, 3}, {"fusion", fusion, 3}, {"client", client, 3}, {"pauses_lasso", lasso<pauses, 100, 40, 2>, 4}, {"fusion_lasso", lasso<fusion, 300, 40, 2>, 4} }; }
