// helpers shared by the harnesses of the core library: maps, measurements, own coordinate conversion
#pragma once
#include "vx.h"
#include <list>
#include <memory>
#include <navigine/navigation-core/level.h>
#include <navigine/navigation-core/level_collector.h>
#include <navigine/navigation-core/geolevel.h>
#include <navigine/navigation-core/barriers_geometry_builder.h>
#include <navigine/navigation-core/navigation_input.h>
#include <navigine/navigation-core/navigation_settings.h>
#include <navigine/navigation-core/navigation_client.h>
#include <navigine/navigation-core/boost_geometry_adaptation.h>

namespace cu {
using namespace navigine::navigation_core;

static const GeoPoint BIND(60.0, 30.0);

// independent copy of the documented local projection: metres east/north of the binding point
inline double mPerLon(double lat) { return 40075160.0 * std::cos(lat * M_PI / 180.0) / 360.0; }
inline double mPerLat() { return 40008000.0 / 360.0; }
inline GeoPoint geo(double x, double y, GeoPoint b = BIND) { return GeoPoint(b.latitude + y / mPerLat(), b.longitude + x / mPerLon(b.latitude)); }
inline XYPoint  xy(double lat, double lon, GeoPoint b = BIND) { return XYPoint((lon - b.longitude) * mPerLon(b.latitude), (lat - b.latitude) * mPerLat()); }

inline Ring& ringAppend(Ring& r, const std::vector<XYPoint>& pts, bool asGeo, GeoPoint b)
{
  for (const auto& p : pts)
  {
    if (asGeo) { GeoPoint g = geo(p.x, p.y, b); boost::geometry::append(r, Point(g.latitude, g.longitude)); }
    else boost::geometry::append(r, Point(p.x, p.y));
  }
  return r;
}
inline std::vector<XYPoint> rect(double x0, double y0, double x1, double y1)
{ return { {x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}, {x0, y0} }; }

struct Poly { std::vector<XYPoint> outer; std::vector<std::vector<XYPoint>> holes; };
inline LevelGeometry geometry(const std::vector<Poly>& polys, bool asGeo, GeoPoint b = BIND)
{
  std::list<Polygon> l;
  for (const auto& p : polys)
  {
    Polygon q; ringAppend(q.outer(), p.outer, asGeo, b);
    for (const auto& h : p.holes) { q.inners().push_back(Ring()); ringAppend(q.inners().back(), h, asGeo, b); }
    l.push_back(q);
  }
  return getGeometry(l);
}
struct LevelSpec
{
  LevelId id; GeoPoint bind = BIND; GeoLevel g;
  LevelSpec(const std::string& name, const std::vector<Poly>& polys, GeoPoint b = BIND) : id(name), bind(b)
  { g.id = id; g.altitude = 0; g.geometry = geometry(polys, true, b); }
  LevelSpec(const std::string& name, double w, double h, GeoPoint b = BIND) : LevelSpec(name, { Poly{ rect(0, 0, w, h), {} } }, b) {}
  LevelSpec& tx(const std::string& tid, double x, double y, double z = 0, double A = -60, double B = 3, TransmitterType t = TransmitterType::BEACON)
  { GeoPoint p = geo(x, y, bind); g.transmitters.emplace_back(TransmitterId(tid), GeoPoint3D(p.latitude, p.longitude, z), PathlossModel{A, B, 0}, t); return *this; }
  LevelSpec& rp(const std::string& rid, double x, double y, const std::map<std::string, double>& fp)
  {
    std::map<TransmitterId, SignalStatistics> m;
    for (auto& f : fp) m[TransmitterId(f.first)] = SignalStatistics{TransmitterType::BEACON, f.second, 0.0, 1};
    g.referencePoints.emplace_back(ReferencePointId(rid), geo(x, y, bind), m); return *this;
  }
  LevelSpec& graph(const std::vector<XYPoint>& v, const std::vector<std::pair<int, int>>& e)
  { for (auto& p : v) g.graph.addVertex(geo(p.x, p.y, bind)); for (auto& p : e) g.graph.addEdge(p.first, p.second); return *this; }
};
inline std::shared_ptr<LevelCollector> collector(const std::vector<LevelSpec>& ls)
{ auto c = createLevelCollector(); for (auto& l : ls) c->addGeoLevel(l.g); return c; }
inline NavigationSettings settings(const std::vector<LevelSpec>& ls, double A = -60, double B = 3)
{ NavigationSettings s; for (auto& l : ls) { LevelSettings q; q.normalModeA = A; q.normalModeB = B; s.levelsSettings[l.id] = q; } return s; }

// many identifiers: differing in the last characters only, in their length only, or in upper and lower case
inline std::string bigId(int form, int i)
{ char b[64]; snprintf(b, sizeof b, "(12345,%d,%d)", i / 100, i % 100); return form == 0 ? std::string(b) : form == 1 ? std::string(1 + i, 'x') : std::string(1, (i & 1) ? 'q' : 'Q') + std::string(1, (i & 2) ? 'r' : 'R') + std::to_string(i / 4); }
inline RadioMeasurementData radio(const std::string& id, double rssi, RadioMeasurementData::Type t = RadioMeasurementData::Type::BEACON, double dist = 0)
{ RadioMeasurementData r; r.type = t; r.id = TransmitterId(id); r.rssi = rssi; r.distance = dist; return r; }
inline Measurement mRadio(long long ts, const std::string& id, double rssi, RadioMeasurementData::Type t = RadioMeasurementData::Type::BEACON, double dist = 0)
{ Measurement m; m.data = radio(id, rssi, t, dist); m.ts = ts; return m; }
inline Measurement mSensor(long long ts, SensorMeasurementData::Type t, double x, double y, double z)
{ Measurement m; SensorMeasurementData s; s.type = t; s.values = Vector3d(x, y, z); m.data = s; m.ts = ts; return m; }
inline Measurement mNmea(long long ts, int sentence, int sats)
{ Measurement m; NmeaMeasurementData n; n.sentenceNumber = sentence; n.satellitesNumber = sats; m.data = n; m.ts = ts; return m; }
} // namespace cu
