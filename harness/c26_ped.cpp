#include "c26_api.h"
#include <cmath>
#include <limits>
#include <list>
#include <vector>
#include <deque>
#include "pedometer.h"
#include "vector3d.h"
namespace N = navigine::navigation_core;
struct PedSa : PedApi
{
  N::Pedometer p;
  void update(const std::vector<Reading>& r) override { std::vector<N::SensorMeasurement> m; for (auto& q : r) { N::SensorMeasurement s; s.ts = q.ts; s.values = N::Vector3d(q.v[0], q.v[1], q.v[2]); m.push_back(s); } p.update(m); }
  std::vector<StepR> steps() override { std::vector<StepR> o; for (auto& s : p.calculateSteps()) o.push_back({s.ts, s.len}); return o; }
};
std::unique_ptr<PedApi> sa_ped() { return std::make_unique<PedSa>(); }
VEC_IMPL(ped_vec, navigine::navigation_core)
