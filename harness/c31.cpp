// C31 memory does not grow with the length of the history, and a destroyed client leaves nothing behind
#include "client_util.h"
#include <sanitizer/allocator_interface.h>
using namespace cl;
const char* VX_PROPERTY = "C31";
namespace {
const long long T0 = 1600000000000LL;
struct B { const char* name; std::vector<Measurement> m; long long len; };      // one block of messages, its length in time
std::vector<Measurement> each(int n, long long dt, ST t, double x, double y, double z) { std::vector<Measurement> v; for (int i = 0; i < n; i++) v.push_back(mSensor(dt * i, t, x, y, z)); return v; }
const std::vector<B>& blocks()
{
  static const std::vector<B> v{
    {"scan of L1", scan({{"a", -58}, {"b", -82}, {"c", -78}, {"w", -70}}).m, 1100}, {"scan of L2", scan({{"e", -60}, {"f", -86}, {"g", -74}}).m, 1100}, {"steps", walk(26).m, 1040}, {"baro", each(5, 200, ST::BAROMETER, 1000, 0, 0), 1000}, {"low baro", each(5, 200, ST::BAROMETER, 999.4, 0, 0), 1000}, {"turn", each(6, 100, ST::GYROSCOPE, 0.1, 0.2, 0.5), 600},
    {"fix", {fix(0, 22, 8, 6)}, 700}, {"fix outside", {fix(0, 160, -40, 2)}, 700}, {"nmea", {mNmea(0, 1, 9), mNmea(5, 3, 2)}, 600}, {"azimuth", each(4, 150, ST::ORIENTATION, 0.1, 0.1, 1), 600}, {"stranger", {mRadio(0, "zz", -50)}, 1200}, {"pause", {mSensor(0, ST::GYROSCOPE, 0, 0, 0)}, 20000}, {"magnet", each(4, 150, ST::MAGNETOMETER, 20, 1, 40), 600}, {"new stranger", {}, 1100}, {"wifi", {mRadio(0, "w", -61, RT::WIFI), mRadio(1, "w", -61, RT::WIFI_RTT, 4)}, 1100} };
  return v;
}
size_t live() { return __sanitizer_get_current_allocated_bytes(); }
void growth(Ctx& c)
{
  int k = c.choose(6); auto& bl = blocks(); int n = c.tier(2, 3); std::vector<int> cyc; std::string h = configs()[k].name; h += ":"; int last = -1; bool batch = c.choose(2);
  for (int i = 0; i < n; i++) { int b = c.choose((int)bl.size()); if (i && b < cyc[0]) throw SkipExec(); cyc.push_back(b); h += std::string(" ") + bl[b].name; last = b; } (void)last;
  NavigationSettings s = make(k); if (batch) { s.commonSettings.useStops = true; s.commonSettings.stopDetectionTime = 1e6; } else { s.commonSettings.useStops = false; s.commonSettings.stopDetectionTime = 1; }         // standing still the window of signals is kept on purpose
  static bool warm = false; if (!warm) { warm = true; auto q = createNavigationClient(map(), s); for (auto& b : bl) if (b.m.size()) q->navigate(shifted(b.m, T0)); live(); }
  std::vector<Measurement> buf; buf.reserve(64); size_t before = live(); long long used = 0;
  {
    auto cl = createNavigationClient(map(), s); long long t = T0; size_t m1 = 0, m2 = 0; cl->navigate(shifted(walk(52).m, t)); t += 2080; int W = 150, P1 = 150, P2 = 600, id = 0;
    for (int i = 0; i < W + P1 + P2; i++)
    {
      for (int b : cyc)
      {
        buf.clear(); for (auto& m : bl[b].m) { buf.push_back(m); buf.back().ts += t; } if (!strcmp(bl[b].name, "new stranger")) buf.push_back(mRadio(t, fmt("n%d", id++), -60));
        if (batch) { cl->navigate(buf); c.step(); } else for (auto& m : buf) { cl->navigate({m}); c.step(); } t += bl[b].len;
      }
      if (i < W) continue; size_t u = live(); (i < W + P1 ? m1 : m2) = std::max(i < W + P1 ? m1 : m2, u);
    }
    used = (long long)m1 - (long long)before; buf = std::vector<Measurement>(); buf.reserve(64);
    c.check(m2 <= m1 + 1500, "growth", h + fmt("%s: %lld bytes in use after %d rounds, up to %lld more after %d", batch ? " (in batches)" : "", used, W + P1, (long long)m2 - (long long)m1, W + P1 + P2));
  }
  size_t after = live(); c.check(after <= before + 1500, "left-behind", h + fmt(": %lld bytes are still in use when the client is gone", (long long)after - (long long)before));
  c.outcome(configs()[k].name); c.state(Hasher().i(k).i(used / 256).h); c.note(h + fmt(" uses %lld bytes", used));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"growth", growth, 4} }; }
