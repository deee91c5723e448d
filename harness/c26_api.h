// plain interfaces to the copies of the algorithms (each is compiled in a translation unit with its own headers)
#pragma once
#include <vector>
#include <array>
#include <memory>
typedef std::array<double, 3> V3; typedef std::array<double, 4> Q4;
struct StepR { long long ts; double len; };
struct Reading { long long ts; int type; V3 v; };      // type: 0 accelerometer 1 magnetometer 2 gyroscope 3 barometer 4 location 5 orientation
struct PedApi { virtual ~PedApi() {} virtual void update(const std::vector<Reading>&) = 0; virtual std::vector<StepR> steps() = 0; };
struct CfApi { virtual ~CfApi() {} virtual void update(const Reading&) = 0; virtual std::array<double, 6> out() = 0; };   // roll pitch yaw fused magnetic device
// results of vector operations: a+b a-b a*s a/s -a cross normalized, dot, |a|, isNull, ==
struct VecR { std::vector<V3> v; double dot, mag; bool null, eq, ne; };
struct QuatR { std::vector<Q4> q; V3 euler; };
std::unique_ptr<PedApi> core_ped(), sa_ped(); std::unique_ptr<CfApi> core_cf(double, double, double), sa_cf(double, double, double);
VecR core_vec(V3 a, V3 b, double s), ped_vec(V3 a, V3 b, double s), cf_vec(V3 a, V3 b, double s);
QuatR core_quat(Q4 a, Q4 b, double s), cf_quat(Q4 a, Q4 b, double s);
double core_reduce(double), cf_reduce(double);
#define VEC_IMPL(NAME, NS) VecR NAME(V3 a_, V3 b_, double s) { using NS::Vector3d; Vector3d a(a_[0], a_[1], a_[2]), b(b_[0], b_[1], b_[2]); VecR r; auto put = [&](const Vector3d& v) { r.v.push_back({v.x, v.y, v.z}); }; \
  put(a + b); put(a - b); put(a * s); put(s * a); if (s != 0) put(a / s); put(-a); put(Vector3d::crossProduct(a, b)); put(a.normalized()); { Vector3d c = a; c += b; put(c); c = a; c -= b; put(c); c = a; c *= s; put(c); if (s != 0) { c = a; c /= s; put(c); } c = a; c.normalize(); put(c); } \
  r.dot = Vector3d::dotProduct(a, b); r.mag = a.magnitude(); r.null = a.isNull(); r.eq = a == b; r.ne = a != b; return r; }
#define QUAT_IMPL(NAME, NS) QuatR NAME(Q4 a_, Q4 b_, double s) { using namespace NS; Quaternion a(a_[0], a_[1], a_[2], a_[3]), b(b_[0], b_[1], b_[2], b_[3]); QuatR r; auto put = [&](const Quaternion& q) { r.q.push_back({q.w, q.x, q.y, q.z}); }; \
  put(a + b); put(a - b); put(a * b); put(a * s); put(s * a); put(a.normalized()); put(a.conj()); put(Quaternion(a.toVector3d())); put(Quaternion(1, 2, 3)); put(Quaternion()); { Quaternion c = a; c += b; put(c); c = a; c -= b; put(c); c = a; c *= b; put(c); c = a; c *= s; put(c); c *= c; put(c); } \
  std::tie(r.euler[0], r.euler[1], r.euler[2]) = a.normalized().toEuler(); return r; }
