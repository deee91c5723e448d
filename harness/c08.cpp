// C08 radio input filtering and windowed averaging
#include "core_util.h"
#include "measurements/measurement_preprocessor.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C08";
namespace {
using RT = RadioMeasurementData::Type; using CS = CommonSettings;
struct Rec { long long ts; std::string id; double rssi, dist; RT type; };
struct Out { std::string id; double rssi, dist; };

std::vector<LevelSpec> maps()
{
  std::vector<LevelSpec> l;
  l.emplace_back("L1", 30.0, 20.0); l[0].tx("a", 5, 5, 0, -60, 3).tx("b", 15, 5, 0, -65, 2.5, TransmitterType::WIFI).tx("loc", 25, 5, 0, -60, 3, TransmitterType::LOCATOR);
  l.emplace_back("L2", 30.0, 20.0); l[1].tx("c", 5, 5, 0, -55, 4, TransmitterType::EDDYSTONE).tx("u", 6, 6, 0, -60, 3, TransmitterType::UNKNOWN);
  return l;
}
struct Cfg { double avg = 1, shift = 0; bool stops = false; double stopT = 3; int closest = 0; CS::MeasurementType mt = CS::MeasurementType::RSSI; CS::SignalsToUse sig = CS::SignalsToUse::BOTH; bool tracking = false, unknown = false; double cutoff = -100; double rtt = -1.5; };

struct Model
{
  Cfg c; std::vector<Rec> buf; bool any = false; long long cur = 0, lastExtract = 0, lastStep = 0, lastSignal = 0;
  bool accepts(const std::string& id, RT t, double rssi) const
  {
    static const std::map<std::string, bool> locator{{"a", false}, {"b", false}, {"loc", true}, {"c", false}, {"u", false}};
    if (!c.unknown) { auto it = locator.find(id); if (it == locator.end() || it->second != c.tracking) return false; }
    if (c.mt == CS::MeasurementType::RSSI) { if (!(rssi > c.cutoff && rssi < 0)) return false; }
    else if (t != RT::WIFI_RTT) return false;
    bool wifi = t == RT::WIFI || t == RT::WIFI_RTT;
    if (wifi) return c.sig != CS::SignalsToUse::BLE;
    return c.sig != CS::SignalsToUse::WIFI;
  }
  void add(const Rec& r)
  {
    if (!accepts(r.id, r.type, r.rssi)) return;
    if (!any) { any = true; lastExtract = r.ts; }
    buf.push_back(r); cur = r.ts; lastSignal = r.ts;
  }
  std::vector<Out> extract(long long step)
  {
    std::vector<Out> o;
    if (step > 0) lastStep = step;
    long long avg = (long long)(1000 * c.avg), sh = (long long)(1000 * c.shift);
    if (sh == 0 || sh > avg) sh = avg;
    if (cur - lastExtract < sh) return o;
    lastExtract = cur;
    std::map<std::string, std::vector<Rec>> g; for (auto& r : buf) g[r.id].push_back(r);
    for (auto& p : g)
    {
      Out x{p.first, 0, 0}; for (auto& r : p.second) { x.rssi += r.rssi; x.dist += r.dist; }
      x.rssi /= p.second.size(); x.dist /= p.second.size();
      static const std::map<std::string, std::pair<double, double>> pl{{"a", {-60, 3}}, {"b", {-65, 2.5}}, {"loc", {-60, 3}}, {"c", {-55, 4}}, {"u", {-60, 3}}};
      if (p.second[0].type == RT::WIFI_RTT) x.dist -= c.rtt;
      else { auto it = pl.find(p.first); if (it != pl.end()) x.dist = std::exp((it->second.first - x.rssi) / it->second.second); }
      o.push_back(x);
    }
    bool standing = c.stops && lastStep > 0 && cur - lastStep > (long long)(1000 * c.stopT);
    if (!standing)
    {
      long long keep = avg - sh; std::vector<Rec> left;
      if (keep > 0) for (auto& r : buf) if (r.ts >= cur - keep) left.push_back(r);
      buf = left;
    }
    if (c.closest)
    {
      std::stable_sort(o.begin(), o.end(), [](const Out& a, const Out& b) { return a.rssi > b.rssi; });
      if ((int)o.size() > c.closest)
      {
        // a tie across the cut: either choice is right; the caller compares rssi values only
        o.resize(c.closest);
      }
    }
    return o;
  }
  uint64_t hash() const { Hasher h; for (auto& r : buf) h.i(cur - r.ts).s(r.id).d(r.rssi).d(r.dist); h.i(cur - lastExtract).i(lastStep ? cur - lastStep : -1); return h.h; }
};
struct Sys
{
  std::vector<LevelSpec> l; std::shared_ptr<LevelCollector> col; NavigationSettings s; std::unique_ptr<MeasurementsPreprocessor> p; Model m; Ctx& c; long long now = 1000000;
  Sys(Ctx& c_, const Cfg& g) : c(c_)
  {
    static std::vector<LevelSpec> L = maps(); static std::shared_ptr<LevelCollector> C = collector(L);
    s = settings(L); CommonSettings& k = s.commonSettings;
    k.sigAveragingTime = g.avg; k.sigWindowShift = g.shift; k.useStops = g.stops; k.stopDetectionTime = g.stopT;
    k.useClosestAps = g.closest > 0; k.numClosestAps = g.closest; k.measurementType = g.mt; k.signalsToUse = g.sig;
    k.useTracking = g.tracking; k.useUnknownTransmitters = g.unknown; k.sigCutOffRss = g.cutoff; k.wiFiRttOffset = g.rtt;
    p.reset(new MeasurementsPreprocessor(C, s)); m.c = g;
  }
  size_t send(const Measurement& msg, const Rec* r, long long step)
  {
    p->updateMeasurements(msg);
    if (r) m.add(*r);
    c.check(p->getCurrentTs() == msg.ts, "current-ts", "current time is not the time of the last message");
    if (m.any) c.check(p->getLastSignalTs() == m.lastSignal, "last-signal-ts", "last signal time is not that of the last accepted signal");
    auto got = p->extractRadioMeasurements(step); auto want = m.extract(step);
    c.step(); c.state(m.hash());
    if (c.tracing()) { std::string t = r ? fmt("t=%lld %s rssi %.1f", r->ts, r->id.c_str(), r->rssi) : fmt("t=%lld sensor", msg.ts); t += " ->"; for (auto& o : got) t += fmt(" (%s %.2f %.3f)", o.id.value.c_str(), o.rssi, o.distance); c.note(t); }
    c.check(got.size() == want.size(), "window-size", fmt("%zu measurements extracted, expected %zu", got.size(), want.size()));
    if (m.c.closest)
    {
      for (size_t i = 0; i < got.size(); i++) c.near(got[i].rssi, want[i].rssi, 1e-9, "closest-order", "strongest-first rssi");
      std::set<std::string> ids; for (auto& g : got) ids.insert(g.id.value);
      c.check(ids.size() == got.size(), "closest-dup", "a transmitter is reported twice");
      for (auto& g : got) for (auto& w : want) if (w.id == g.id.value) { c.near(g.rssi, w.rssi, 1e-9, "rssi", "averaged rssi of " + w.id); c.near(g.distance, w.dist, 1e-9, "distance", "distance of " + w.id); }
    }
    else
    {
      std::map<std::string, RadioMeasurementData> by; for (auto& g : got) by[g.id.value] = g;
      for (auto& w : want)
      {
        c.check(by.count(w.id), "window-ids", "transmitter " + w.id + " missing from the averaged window");
        c.near(by[w.id].rssi, w.rssi, 1e-9, "rssi", "averaged rssi of " + w.id);
        c.near(by[w.id].distance, w.dist, 1e-9, "distance", "distance of " + w.id);
      }
    }
    return got.size();
  }
};
// ---- which single signals are admitted: every configuration x every signal
void admission(Ctx& c)
{
  Cfg g; g.avg = 0; g.shift = 0;     // every admitted signal is visible immediately
  g.mt = c.pick(std::vector<CS::MeasurementType>{CS::MeasurementType::RSSI, CS::MeasurementType::DISTANCE_V1, CS::MeasurementType::DISTANCE_V2});
  g.sig = c.pick(std::vector<CS::SignalsToUse>{CS::SignalsToUse::BLE, CS::SignalsToUse::WIFI, CS::SignalsToUse::BOTH});
  g.tracking = c.flip(); g.unknown = c.flip(); g.cutoff = c.pick(std::vector<double>{-100, -75.5}); g.rtt = c.flip() ? -1.5 : 2.0;
  Sys y(c, g); size_t n = 0;
  for (int i = 0; i < c.rounds(1, 2, i); i++)
  {
    RT t = c.pick(std::vector<RT>{RT::WIFI, RT::BEACON, RT::BLUETOOTH, RT::EDDYSTONE, RT::WIFI_RTT});
    std::string id = c.pick(std::vector<std::string>{"a", "b", "c", "u", "loc", "nobody"});
    double rssi = c.pick(std::vector<double>{-60, -75.5, -75.4, -99.9, -100, -100.1, -0.1, 0, 5});
    double dist = c.flip() ? 3.25 : 0.0;
    y.now += 700; Rec r{y.now, id, rssi, dist, t};
    n += y.send(mRadio(y.now, id, rssi, t, dist), &r, 0);
  }
  c.outcome(fmt("admitted=%zu", n));
}
// ---- windows: every configuration x every sequence of signals and time steps
void window(Ctx& c)
{
  Cfg g; static const std::vector<std::pair<double, double>> W{{1, 0}, {1, 0.4}, {2, 0.5}, {1, 3}, {0, 0}, {3, 1}};
  auto w = c.pick(W); g.avg = w.first; g.shift = w.second; g.closest = c.choose(3);
  Sys y(c, g); size_t n = 0;
  static const std::vector<long long> DT{500, 0, 400, 1000, 2600};
  int D = c.tier(4, 5);
  for (int i = 0; i < D; i++)
  {
    y.now += DT[c.choose(c.tier(4, 5))];
    int k = c.choose(6);
    if (k == 5) { n += y.send(mSensor(y.now, SensorMeasurementData::Type::ACCELEROMETER, 0, 0, 9.8), nullptr, 0); continue; }
    static const std::vector<Rec> M{{0, "a", -60, 1.5, RT::BEACON}, {0, "a", -71, 2.5, RT::BEACON}, {0, "b", -65, 4, RT::WIFI_RTT}, {0, "c", -80, 0, RT::EDDYSTONE}, {0, "nobody", -50, 0, RT::BEACON}};
    Rec r = M[k]; r.ts = y.now; n += y.send(mRadio(y.now, r.id, r.rssi, r.type, r.dist), &r, 0);
  }
  c.outcome(fmt("n=%zu", n));
}
// ---- longer streams on one configuration, started from a filled window
void stream(Ctx& c)
{
  Cfg g; static const std::vector<std::pair<double, double>> W{{1, 0.5}, {2, 0.5}, {1, 0}}; auto w = c.pick(W); g.avg = w.first; g.shift = w.second;
  Sys y(c, g); size_t n = 0;
  for (int i = 0; i < 3; i++) { y.now += 300; Rec r{y.now, i % 2 ? "b" : "a", -70.0 - i, 0, i % 2 ? RT::WIFI : RT::BEACON}; y.send(mRadio(r.ts, r.id, r.rssi, r.type, 0), &r, 0); }
  for (int i = 0; i < c.rounds(6, 8, i); i++)
  {
    y.now += c.flip() ? 500 : 200; int k = c.choose(3);
    Rec r{y.now, k == 0 ? "a" : k == 1 ? "b" : "c", -60.0 - 3 * k - i % 20, 0, k == 0 ? RT::BEACON : k == 1 ? RT::WIFI : RT::BLUETOOTH};
    n += y.send(mRadio(r.ts, r.id, r.rssi, r.type, 0), &r, 0);
  }
  c.outcome(fmt("stream=%zu", n));
}
// ---- standing still: signals are kept while no step was seen for the stop time
void stops(Ctx& c)
{
  Cfg g; static const std::vector<std::pair<double, double>> W{{1, 0}, {2, 0.5}}; auto w = c.pick(W); g.avg = w.first; g.shift = w.second; g.stops = !c.flip(); g.stopT = 2;
  Sys y(c, g); size_t n = 0;
  for (int i = 0; i < c.rounds(5, 6, i); i++)
  {
    y.now += c.pick(std::vector<long long>{600, 1000, 1400}); long long step = c.flip() ? y.now : 0; bool b = c.flip();
    Rec r{y.now, b ? "b" : "a", -60.0 - i % 20, 0, b ? RT::WIFI : RT::BEACON}; n += y.send(mRadio(r.ts, r.id, r.rssi, r.type, 0), &r, step);
  }
  c.outcome(fmt("stops=%zu", n));
}
// ---- pauses of weeks, longer than 2^31 and 2^32 milliseconds
void pauses(Ctx& c)
{
  Cfg g; static const std::vector<std::pair<double, double>> W{{1, 0}, {2, 0.5}, {3, 1}}; auto w = c.pick(W); g.avg = w.first; g.shift = w.second; g.stops = c.flip(); g.stopT = 2; Sys y(c, g); size_t n = 0;
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    y.now += c.pick(std::vector<long long>{300, 1000, (1LL << 31) + 100, (1LL << 32) + 100}); int k = c.choose(3); bool b = k == 1; long long step = k == 2 ? y.now : 0;
    Rec r{y.now, b ? "b" : "a", -60.0 - i % 20, 0, b ? RT::WIFI : RT::BEACON}; n += y.send(mRadio(r.ts, r.id, r.rssi, r.type, 0), &r, step);
  }
  c.outcome(fmt("pauses=%zu", n));
}
// ---- many transmitters, many signals of each and a long window
void crowd(Ctx& c)
{
  int N = c.pick(std::vector<int>{1, 9, 33, 70, 130, 260}), each = c.pick(std::vector<int>{1, 3, 40}), form = c.choose(3); Cfg g; g.unknown = true; g.avg = c.flip() ? 2 : 40; g.shift = c.flip() ? 1 : 2; g.closest = c.pick(std::vector<int>{0, 1, 3, 64, 100}); if (c.quick && (long long)N * each > 3000) throw SkipExec(); Sys y(c, g); size_t n = 0;
  // identifiers which differ in the last character only, in their length only, or in upper and lower case
  auto id = [&](int i) { return form == 0 ? fmt("(12345,%d,%d)", i / 100, i % 100) : form == 1 ? std::string(1 + i, 'x') : std::string(1, (i & 1) ? 'q' : 'Q') + std::string(1, (i & 2) ? 'r' : 'R') + std::to_string(i / 4); };
  for (int e = 0; e < each; e++) for (int i = 0; i < N; i++) { y.now += e == each / 2 && i == N / 2 ? 1100 : (i * 7 + e) % 5 == 0 ? 9 : 2; Rec r{y.now, id((i * 7) % N), -40.0 - 0.1 * ((i * 37 + e * 11) % 499), 0.5 * (i % 9), i % 3 ? RT::BEACON : RT::WIFI}; n += y.send(mRadio(r.ts, r.id, r.rssi, r.type, r.dist), &r, 0) > 0; }
  y.now += 2100; Rec r{y.now, id(0), -50, 0, RT::BEACON}; n += y.send(mRadio(r.ts, r.id, r.rssi, r.type, 0), &r, 0) > 0; c.outcome(fmt("crowd=%zu", n)); c.note(fmt("%d transmitters, %d signals each: %zu windows", N, each, n));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"admission", admission, 4}, {"window", window, 4}, {"stream", stream, 4}, {"standing", stops, 4}, {"pauses", pauses, 3}, {"crowd", crowd, 3}, {"stream_lasso", lasso<stream, 600, 300, 3>, 4}, {"stops_lasso", lasso<stops, 600, 300, 2>, 4}, {"pauses_lasso", lasso<pauses, 600, 200, 2>, 4} }; }
