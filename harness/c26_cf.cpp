#include "c26_api.h"
#include <cmath>
#include <limits>
#include <list>
#include <tuple>
#include "complementary_filter.h"
#include "vector3d.h"
#include "quaternion.h"
namespace N = navigine::navigation_core;
struct CfSa : CfApi
{
  N::ComplementaryFilter f; CfSa(double a, double m, double i) : f(a, m, i) {}
  void update(const Reading& q) override { typedef N::SensorMeasurement::Type T; static const T TY[] = {T::ACCELEROMETER, T::MAGNETOMETER, T::GYROSCOPE, T::BAROMETER, T::LOCATION, T::ORIENTATION}; N::SensorMeasurement s; s.type = TY[q.type]; s.ts = q.ts; s.values = N::Vector3d(q.v[0], q.v[1], q.v[2]); f.update(s); }
  std::array<double, 6> out() override { auto o = f.getFusedOrientation(); return {o.roll, o.pitch, o.yaw, f.getFusedAzimuth(), f.getMagneticAzimuth(), f.getDeviceAzimuth()}; }
};
std::unique_ptr<CfApi> sa_cf(double a, double m, double i) { if (a < 0) { struct D : CfSa { D() : CfSa(0, 0, 0) { f = N::ComplementaryFilter(); } }; return std::make_unique<D>(); } return std::make_unique<CfSa>(a, m, i); }
VEC_IMPL(cf_vec, navigine::navigation_core)
QUAT_IMPL(cf_quat, navigine::navigation_core)
double cf_reduce(double x) { return N::to_minus_Pi_Pi(x); }
