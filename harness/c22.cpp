// C22 the map given to the library is the map it navigates on
#include "core_util.h"
using namespace cu; using namespace vx;
const char* VX_PROPERTY = "C22";
namespace {
struct T { std::string id; double x, y, z, A, B; TransmitterType t; };
struct R { std::string id; double x, y; std::map<std::string, double> fp; };
struct Lv { std::string id; GeoPoint bind; double w, h, alt; std::vector<T> tx; std::vector<R> rp; std::vector<XYPoint> gv; std::vector<std::pair<int, int>> ge; };
const std::vector<GeoPoint> B{{60.0, 30.0}, {-33.5, -70.25}, {0.0, 0.0}, {48.5, 179.9999}};
const std::vector<T> POOL{{"t1", 3, 4, 2.5, -60, 3, TransmitterType::BEACON}, {"t2", 20, 1, 0, -71, 2.25, TransmitterType::WIFI}, {"t3", 7.5, 9, 1.25, -55, 4, TransmitterType::LOCATOR}};
void verify(Ctx& c, const LevelCollector& col, const std::vector<Lv>& ls)
{
  c.check(col.levels().size() == ls.size(), "level-count", fmt("%zu levels, expected %zu", col.levels().size(), ls.size()));
  for (size_t i = 0; i < ls.size(); i++)
  {
    const Lv& l = ls[i]; LevelId id(l.id);
    c.check(col.hasLevel(id), "has-level", "level " + l.id + " is missing");
    const Level& v = col.level(id); c.step();
    c.check(v.id() == id && col.levels()[i].id() == id, "level-id", "level " + l.id + " is found under another id");
    c.near(v.bindingPoint().latitude, l.bind.latitude, 1e-12, "binding", "binding latitude of " + l.id); c.near(v.bindingPoint().longitude, l.bind.longitude, 1e-12, "binding", "binding longitude of " + l.id);
    std::map<std::string, const T*> first; for (auto& t : l.tx) first.insert({t.id, &t});
    for (auto& t : POOL) c.check(v.containsTransmitter(TransmitterId(t.id)) == (first.count(t.id) > 0), "contains-tx", "transmitter " + t.id + " on " + l.id);
    c.check(!v.containsTransmitter(TransmitterId("")) && !v.containsTransmitter(TransmitterId("T1")), "contains-tx", "an unknown transmitter is on the level");
    for (auto& p : first)
    {
      const T& t = *p.second; const auto& g = v.transmitter(TransmitterId(t.id)); c.step();
      c.check(g.id.value == t.id && g.type == t.t, "tx-identity", "identity/type of " + t.id);
      c.check(std::fabs(g.point.x - t.x) < 1e-5 && std::fabs(g.point.y - t.y) < 1e-5, "tx-position", fmt("%s on %s at (%.6f, %.6f), expected (%.6f, %.6f)", t.id.c_str(), l.id.c_str(), g.point.x, g.point.y, t.x, t.y));
      c.check(std::fabs(g.point.z - (t.z + l.alt)) < 1e-9, "tx-height", fmt("%s at height %.3f, expected %.3f", t.id.c_str(), g.point.z, t.z + l.alt));
      c.check(g.pathlossModel.A == t.A && g.pathlossModel.B == t.B, "tx-pathloss", "path loss model of " + t.id);
      double r = 2.5; c.near(g.pathlossModel(r), t.A - t.B * std::log(r), 1e-12, "pathloss", "path loss at 2.5 m"); c.near(g.pathlossModel(0.001), t.A - t.B * std::log(0.01), 1e-12, "pathloss", "path loss below 1 cm");
    }
    const auto& rps = v.radiomap().referencePoints(); c.check(rps.size() == l.rp.size(), "rp-count", "number of reference points of " + l.id);
    for (size_t k = 0; k < l.rp.size(); k++)
    {
      c.check(v.radiomap().hasReferencePoint(ReferencePointId(l.rp[k].id)), "rp-lookup", "reference point " + l.rp[k].id);
      auto g = v.radiomap().getReferencePoint(ReferencePointId(l.rp[k].id)); c.step();
      c.check(g.id.value == l.rp[k].id && std::fabs(g.point.x - l.rp[k].x) < 1e-5 && std::fabs(g.point.y - l.rp[k].y) < 1e-5, "rp-position", "position of reference point " + l.rp[k].id);
      c.check(g.fingerprints.size() == l.rp[k].fp.size(), "rp-fingerprint", "fingerprint size of " + l.rp[k].id);
      for (auto& f : l.rp[k].fp) { auto it = g.fingerprints.find(TransmitterId(f.first)); c.check(it != g.fingerprints.end() && it->second.mean == f.second, "rp-fingerprint", "fingerprint of " + l.rp[k].id); }
    }
    c.check(!v.radiomap().hasReferencePoint(ReferencePointId("zz")), "rp-lookup", "an unknown reference point exists");
    size_t n = 0; for (auto it = v.graph().vertexBegin(); it != v.graph().vertexEnd(); ++it, ++n)
    { c.check(n < l.gv.size() && it->id == (int)n && std::fabs(it->point.x - l.gv[n].x) < 1e-5 && std::fabs(it->point.y - l.gv[n].y) < 1e-5, "graph-vertex", fmt("graph vertex %zu", n)); }
    c.check(n == l.gv.size(), "graph-vertex", "number of graph vertices");
    std::set<std::pair<int, int>> es, want; for (auto it = v.graph().edgesBegin(); it != v.graph().edgesEnd(); ++it) { c.check(es.insert({std::min(it->first, it->second), std::max(it->first, it->second)}).second, "graph-edge", "an edge is stored twice"); }
    for (auto& e : l.ge) want.insert({std::min(e.first, e.second), std::max(e.first, e.second)}); c.check(es == want, "graph-edge", "graph edges of " + l.id);
    auto bb = v.geometry().boundingBox();
    c.check(std::fabs(bb.min_corner().x()) < 1e-5 && std::fabs(bb.min_corner().y()) < 1e-5 && std::fabs(bb.max_corner().x() - l.w) < 1e-4 && std::fabs(bb.max_corner().y() - l.h) < 1e-4, "bounding-box", fmt("bounding box of %s: (%.4f, %.4f)-(%.4f, %.4f)", l.id.c_str(), bb.min_corner().x(), bb.min_corner().y(), bb.max_corner().x(), bb.max_corner().y()));
    c.check(std::fabs(boost::geometry::area(v.geometry().allowedArea()) - l.w * l.h) < 1e-2, "allowed-area", "allowed area of " + l.id);
  }
  c.check(!col.hasLevel(LevelId("none")) && !col.hasLevel(LevelId("")), "has-level", "an unknown level exists");
  for (auto& t : POOL)
  {
    auto f = col.findLevelByTransmitterId(TransmitterId(t.id)); std::string want; bool any = false;
    for (auto& l : ls) { for (auto& x : l.tx) if (x.id == t.id && !any) { any = true; want = l.id; } }
    c.check(f.is_initialized() == any, "find-level", "level of transmitter " + t.id); if (any) c.check(f.get().value == want, "find-level", "transmitter " + t.id + " is on " + f.get().value + ", expected " + want);
  }
  c.check(!col.findLevelByTransmitterId(TransmitterId("nobody")).is_initialized(), "find-level", "an unknown transmitter has a level");
}
GeoLevel make(const Lv& l)
{
  LevelSpec s(l.id, l.w, l.h, l.bind); s.g.altitude = l.alt;
  for (auto& t : l.tx) s.tx(t.id, t.x, t.y, t.z, t.A, t.B, t.t);
  for (auto& r : l.rp) s.rp(r.id, r.x, r.y, r.fp);
  s.graph(l.gv, l.ge); return s.g;
}
Lv pickLevel(Ctx& c, const std::string& id, bool small)
{
  Lv l; l.id = id; l.bind = B[c.choose(small ? 2 : 4)]; l.w = 30; l.h = c.choose(small ? 1 : 2) ? 55.5 : 12; l.alt = c.choose(2) ? 100 : 0;
  for (auto& t : POOL) if (c.flip()) { T q = t; if (id == "L2") { q.x += 1; q.A -= 5; } l.tx.push_back(q); }
  if (!small && c.flip()) { T q = POOL[0]; q.x = 11; l.tx.push_back(q); }         // the same id twice on one level: the first stays
  int g = c.choose(small ? 2 : 4);
  if (g == 1) { l.gv = {{1, 1}, {5, 6}, {9, 2}}; l.ge = {{0, 1}, {2, 1}, {1, 0}}; }
  if (g == 2) { l.gv = {{1, 1}, {5, 6}, {9, 2}, {3, 3}}; l.ge = {{3, 0}, {2, 3}, {0, 2}, {1, 1}}; }
  if (g == 3) { l.gv = {{4, 4}}; }
  if (c.flip()) { l.rp = {{"p1", 2, 3, {{"t1", -60}, {"t9", -70}}}, {"p2", 8, 9, {}}}; }
  return l;
}
void oneLevel(Ctx& c) { std::vector<Lv> ls{pickLevel(c, "L1", false)}; auto col = createLevelCollector(); col->addGeoLevel(make(ls[0])); verify(c, *col, ls); c.state(Hasher().i(ls[0].tx.size()).i(ls[0].ge.size()).d(ls[0].h).d(ls[0].alt).d(ls[0].bind.latitude).h); c.outcome(fmt("tx=%zu", ls[0].tx.size())); c.note(fmt("level with %zu transmitters, %zu graph vertices", ls[0].tx.size(), ls[0].gv.size())); }
void twoLevels(Ctx& c)
{
  std::vector<Lv> ls; static const std::vector<std::string> names{"L1", "L2", "L3"}; auto col = createLevelCollector(); verify(c, *col, ls);
  int n = c.tier(2, 2); bool rev = c.flip(); std::string d;
  for (int i = 0; i < n; i++) { ls.push_back(pickLevel(c, names[rev ? n - 1 - i : i], true)); col->addGeoLevel(make(ls.back())); verify(c, *col, ls); d += fmt("%s:%zu ", ls.back().id.c_str(), ls.back().tx.size()); c.state(Hasher().s(d).i(ls.back().ge.size()).i(ls.back().rp.size()).d(ls.back().bind.latitude).h); }
  c.note("levels " + d); c.outcome("levels=" + d);
}
// buildings of many levels with many transmitters, reference points and graph vertices
void many(Ctx& c)
{
  int F = c.pick(std::vector<int>{1, 12, 40}), N = c.pick(std::vector<int>{1, 10, 70, 300}), form = c.choose(3); bool rev = c.flip(); if (F * N > c.tier(900, 1 << 20)) throw SkipExec(); auto col = createLevelCollector(); std::vector<Lv> ls;
  for (int f = 0; f < F; f++)
  {
    Lv l; l.id = "F" + bigId(form, rev ? F - 1 - f : f); l.bind = B[f % 4]; l.w = 30 + f; l.h = 20; l.alt = 3.5 * f;
    for (int i = 0; i < N; i++)
    {
      l.tx.push_back(T{bigId(form, i * F + f), 0.25 * ((i * 37) % 113), 0.25 * ((i * 11) % 79), 0.5 * (i % 7), -40.0 - i % 50, 2 + 0.125 * (i % 9), i % 3 ? i % 3 == 1 ? TransmitterType::WIFI : TransmitterType::LOCATOR : TransmitterType::BEACON});
      R r{"r" + bigId(form, i), 0.25 * ((i * 17) % 113), 0.25 * ((i * 5) % 79), {}}; for (int k = 0; k < i % 12; k++) r.fp[bigId(form, k * 7)] = -50.0 - (k * 11 + i) % 40; l.rp.push_back(r);
      l.gv.push_back(XYPoint(0.2 * (i % 97), 0.3 * (i % 61))); for (int k : {1, 2, 10, 33}) if (i >= k) l.ge.push_back(i % 2 ? std::make_pair(i, i - k) : std::make_pair(i - k, i));
    }
    ls.push_back(l); col->addGeoLevel(make(l));
  }
  verify(c, *col, ls); for (auto& l : ls) for (auto& t : l.tx) { auto f = col->findLevelByTransmitterId(TransmitterId(t.id)); c.check(f.is_initialized() && f.get().value == l.id, "find-level", fmt("%d levels, %d each, form %d: level of transmitter ", F, N, form) + t.id); c.check(col->level(LevelId(l.id)).containsTransmitter(TransmitterId(t.id)), "contains-tx", "transmitter " + t.id + " on " + l.id); }
  for (auto& l : ls) for (auto& o : {ls.front(), ls.back()}) if (o.id != l.id) c.check(!col->level(LevelId(o.id)).containsTransmitter(TransmitterId(l.tx[0].id)), "contains-tx", "transmitter " + l.tx[0].id + " on " + o.id);
  c.state(Hasher().i(F).i(N).i(form).i(rev).h); c.outcome(fmt("many %d", F)); c.note(fmt("%d levels, %d transmitters each, form %d", F, N, form));
}
// graphs are undirected, simple, and reject edges to vertices that do not exist
void graphOps(Ctx& c)
{
  Graph<XYPoint> g; std::set<std::pair<int, int>> es; int n = 0;
  for (int n0 = c.choose(4); n < n0; n++) g.addVertex(XYPoint(n * 1.5, -n));
  for (int i = 0; i < c.rounds(4, 5, i); i++)
  {
    int op = c.choose(17);
    if (op == 0) { auto v = g.addVertex(XYPoint(n * 1.5, -n)); c.check(v.id == n && v.point.x == n * 1.5, "graph-add", "vertex ids are consecutive"); n++; }
    else
    {
      int a = (op - 1) / 4 - 1, b = (op - 1) % 4 - 1; bool ok = a >= 0 && b >= 0 && a < n && b < n, threw = false;
      try { g.addEdge(a, b); } catch (std::logic_error&) { threw = true; }
      c.check(threw == !ok, "graph-edge-check", ok ? "a valid edge was rejected" : "an edge to a missing vertex was accepted"); if (ok) es.insert({std::min(a, b), std::max(a, b)});
    }
    std::set<std::pair<int, int>> got; for (auto it = g.edgesBegin(); it != g.edgesEnd(); ++it) got.insert({std::min(it->first, it->second), std::max(it->first, it->second)});
    c.check(got == es && std::distance(g.edgesBegin(), g.edgesEnd()) == (long)es.size(), "graph-edges", "edge set"); c.check(std::distance(g.vertexBegin(), g.vertexEnd()) == n, "graph-vertices", "vertex count");
    for (int k = -1; k < 4; k++) c.check(g.hasVertex(k) == (k >= 0 && k < n), "graph-has", "hasVertex"); c.step();
  }
  Hasher h; for (auto& e : es) h.i(e.first).i(e.second); c.state(h.i(n).h); c.outcome(fmt("v=%d e=%zu", n, es.size()));
}
}
std::vector<vx::Scenario> vx_scenarios() { return { {"many", many, 3}, {"one_level", oneLevel, 3}, {"levels", twoLevels, 3}, {"graph", graphOps, 3} }; }
