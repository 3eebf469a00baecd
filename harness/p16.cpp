// P16: structure of Voronoi diagrams.
#include "vor.hpp"
namespace vf {
typedef VD::edge_type VE; typedef VD::cell_type VC; typedef VD::vertex_type VV;
static bool structure(Ctx& c, const VIn& in, const VD& vd) {
  std::vector<Site> st; if (!vsites(c, in, vd, st)) return false;
  size_t ne = vd.edges().size(), nv = vd.vertices().size(), nc = vd.cells().size();
#define F(key, cond, msg) do { if (!(cond)) { c.fail(key, msg); return false; } } while (0)
  F("counts", vd.num_edges() == ne && vd.num_vertices() == nv && vd.num_cells() == nc && ne % 2 == 0, "element counts disagree");
  const VE* e0 = ne ? &vd.edges()[0] : 0; const VV* v0 = nv ? &vd.vertices()[0] : 0; const VC* c0 = nc ? &vd.cells()[0] : 0;
  auto eok = [&](const VE* e) { return e && e >= e0 && e < e0 + ne; }; auto vok = [&](const VV* v) { return !v || (v >= v0 && v < v0 + nv); }; auto cok = [&](const VC* x) { return x && x >= c0 && x < c0 + nc; };
  auto id = [&](const VE* e) { return "edge " + std::to_string(e - e0); };
  i64 starts = 0, infs = 0, curved = 0, sec = 0;
  for (auto& e : vd.edges()) {
    const VE* t = e.twin(); F("pointers", eok(t) && eok(e.next()) && eok(e.prev()) && cok(e.cell()) && vok(e.vertex0()) && vok(e.vertex1()), id(&e) + " has a bad pointer");
    F("twin", t != &e && t->twin() == &e, id(&e) + " twin of twin is another edge"); F("twin-attributes", t->is_linear() == e.is_linear() && t->is_primary() == e.is_primary(), id(&e) + " differs from its twin");
    F("twin-cells", t->cell() != e.cell(), id(&e) + " has the same cell on both sides"); F("vertex1", e.vertex1() == t->vertex0() && e.vertex0() == t->vertex1(), id(&e) + " ends differ from its twin's");
    F("next-prev", e.next()->prev() == &e && e.prev()->next() == &e, id(&e) + " next and prev disagree"); F("next-cell", e.next()->cell() == e.cell(), id(&e) + " next belongs to another cell");
    F("next-vertex", e.next()->vertex0() == e.vertex1(), id(&e) + " does not end where next starts"); F("rotation", e.rot_next() == e.prev()->twin() && e.rot_prev() == t->next() && e.rot_next()->rot_prev() == &e && e.rot_prev()->rot_next() == &e, id(&e) + " rotation links disagree");
    F("rotation-vertex", e.rot_next()->vertex0() == e.vertex0() && e.rot_prev()->vertex0() == e.vertex0(), id(&e) + " rotation leaves the vertex");
    F("finite", e.is_finite() == (e.vertex0() && e.vertex1()) && e.is_infinite() == !e.is_finite(), id(&e) + " finite flag"); F("flags", e.is_curved() == !e.is_linear() && e.is_secondary() == !e.is_primary(), id(&e) + " flags contradict");
    const Site& a = st[e.cell() - c0]; const Site& b = st[t->cell() - c0]; bool second = vendpoint(a, b); F("secondary", e.is_secondary() == second, id(&e) + " secondary flag is wrong"); F("curved", e.is_curved() == (a.seg != b.seg && !second), id(&e) + " curved flag is wrong");
    F("color", e.color() == 0, id(&e) + " color is not zero"); if (e.vertex0()) ++starts; else ++infs; if (e.is_curved()) ++curved; if (second) ++sec;
    F("loop", e.vertex0() == 0 || e.vertex0() != e.vertex1(), id(&e) + " starts and ends at one vertex");
  }
  size_t total = 0, regular = 0, unbounded = 0;
  for (auto& x : vd.cells()) {
    F("cell-color", x.color() == 0, "cell color is not zero"); const VE* e = x.incident_edge(); F("cell-degenerate", x.is_degenerate() == (e == 0), "degenerate flag");
    if (!e) { const Site& s = st[&x - c0]; int deg = 0; for (auto& q : in.segs) deg += q.first == s.a || q.second == s.a; F("cell-empty", ne == 0 ? nc == 1 : !s.seg && deg >= 2, "cell without edges whose site is not a shared segment end"); c.count("degenerate cells"); if (ne == 0) ++regular; continue; }
    ++regular; F("cell-incident", eok(e) && e->cell() == &x, "incident edge belongs to another cell"); const VE* f = e; size_t n = 0, gaps = 0; do { ++n; if (!f->vertex1()) ++gaps; f = f->next(); } while (f != e && n <= ne); F("cell-cycle", f == e, "edges of a cell do not close"); total += n;
    F("cell-gaps", gaps <= (nv ? 1u : 2u), "cell reaches infinity more than once"); if (gaps) ++unbounded;
    std::set<const VC*> nb; bool multi = false; f = e; do { if (!nb.insert(f->twin()->cell()).second) multi = true; f = f->next(); } while (f != e); if (in.segs.empty()) F("cell-neighbours", !multi, "two edges between the same two point cells");
  }
  F("cell-partition", total == ne, "edges are not partitioned into cells");
  i64 sum = 0; for (auto& v : vd.vertices()) { F("vertex-color", v.color() == 0, "vertex color is not zero"); const VE* e = v.incident_edge(); F("vertex-incident", eok(e) && e->vertex0() == &v && !v.is_degenerate(), "incident edge of a vertex does not start there"); F("vertex-finite", v.x() == v.x() && v.y() == v.y() && fabs(v.x()) < 1e300 && fabs(v.y()) < 1e300, "vertex coordinates are not finite numbers");
    const VE* f = e; i64 n = 0; std::set<const VC*> cs; do { ++n; F("vertex-start", f->vertex0() == &v, "rotation around a vertex leaves it"); cs.insert(f->cell()); f = f->rot_next(); } while (f != e && n <= (i64)ne); F("vertex-cycle", f == e, "rotation around a vertex does not close"); F("vertex-degree", n >= 3 || (i64)cs.size() >= 2, "vertex of degree " + std::to_string(n)); if (n < 3) c.count("vertices of degree two"); if (n > 3) c.count("vertices of degree above three"); sum += n; }
  F("vertex-partition", sum == starts, "edge starts are not partitioned into vertices");
  if (nc) F("euler", (i64)nv - (i64)ne / 2 + (i64)regular == 1, "V=" + std::to_string(nv) + " E=" + std::to_string(ne / 2) + " F=" + std::to_string(regular)); else F("empty", nv == 0 && ne == 0, "elements without input");
  // rays counter-clockwise: as many infinite starts as infinite ends, one per unbounded cell
  i64 ends = 0; for (auto& e : vd.edges()) if (!e.vertex1()) ++ends; F("infinite", ends == infs && (nv == 0 || (size_t)ends == unbounded), "infinite edge ends do not match unbounded cells");
  // cells at infinity are those of the convex hull of a point set
  if (in.segs.empty() && nv) {
    for (size_t i = 0; i < nc; ++i) { P p = st[i].a; bool hull = false; // p is on the hull iff some line through p has every site on one closed side
      for (size_t j = 0; j < nc && !hull; ++j) if (j != i) { bool l = true, rr = true; for (size_t k = 0; k < nc; ++k) { int o = vori(p, st[j].a, st[k].a); if (o > 0) rr = false; if (o < 0) l = false; } hull = l || rr; }
      const VE* e = vd.cells()[i].incident_edge(); bool inf = false; const VE* f = e; do { inf = inf || !f->vertex0(); f = f->next(); } while (f != e); F("hull", inf == hull, "cell of (" + std::to_string(p.x) + "," + std::to_string(p.y) + ") is " + (inf ? "unbounded" : "bounded")); }
    c.count("hull cells compared", (i64)nc);
  }
  c.count("edges judged", (i64)ne); c.count("vertices judged", (i64)nv); c.count("cells judged", (i64)nc); c.count("infinite ends", infs); c.count("curved edges", curved); c.count("secondary edges", sec);
  // colors are independent per element and leave the categories alone
  for (auto& e : vd.edges()) e.color((&e - e0) * 3 + 1); for (auto& v : vd.vertices()) v.color((&v - v0) * 5 + 2); for (auto& x : vd.cells()) x.color((&x - c0) * 7 + ((size_t)1 << 58));
  for (auto& e : vd.edges()) F("color-store", e.color() == (size_t)(&e - e0) * 3 + 1 && e.is_secondary() == vendpoint(st[e.cell() - c0], st[e.twin()->cell() - c0]), "edge color was not kept"); for (auto& v : vd.vertices()) F("color-store", v.color() == (size_t)(&v - v0) * 5 + 2, "vertex color was not kept");
  for (auto& x : vd.cells()) { Site s; F("color-store", x.color() == (size_t)(&x - c0) * 7 + ((size_t)1 << 58) && vsource(in, x.source_index(), x.source_category(), s), "cell color was not kept"); }
  return true;
#undef F
}
static void run(Ctx& c, bool segs, int maxN) { VGen G(c.rng); VIn in = G.gen(segs, maxN); c.desc = in.str(); VD vd; vbuild(in, vd); structure(c, in, vd); if (vd.num_cells() > 1) c.nontrivial(in.hash()); }
// a few sites, then the same scene around each of the vertices found
static void tiny(Ctx& c) {
  VGen G(c.rng); VIn in = G.tiny(); c.desc = in.str(); VD vd; vbuild(in, vd); if (!structure(c, in, vd)) return; if (vd.num_cells() > 1) c.nontrivial(in.hash());
  std::vector<std::pair<double, double> > at; for (auto& v : vd.vertices()) at.push_back(std::make_pair(v.x(), v.y()));
  for (auto& v : at) { VIn o; if (!G.recentre(o, in, v.first, v.second)) continue; c.desc = o.str(); VD w; vbuild(o, w); if (!structure(c, o, w)) return; c.count("moved scenes"); }
}
// inputs whose near-simultaneous events the builder misorders (known findings)
static const char* PINNED[2] = {
  "segs:(255811660,-1729565728;255811660,-728989137)(-848605800,1478043233;-848605800,-1729565727)",
  "segs:(1507063547,1862817877;1507063547,-632759556)(1507063545,1862817876;-355962388,1862817876)(2062528716,1018583811;2062528716,1293774141)(-696991748,-1257591129;-696991748,-1944297913)(-1021636076,-1944297912;-1021636076,2144229232)(1284371032,-216123323;1284371032,-1944297914)"};
static void pinned(Ctx& c, int k) {
  VIn in; in.kind = "pinned" + std::to_string(k) + " "; const char* q = strstr(PINNED[k], "segs:") + 5; long long a, b, d, e; int n;
  while (sscanf(q, "(%lld,%lld;%lld,%lld)%n", &a, &b, &d, &e, &n) == 4) { in.segs.push_back(SG(P(a, b), P(d, e))); q += n; }
  c.desc = in.str(); VD vd; vbuild(in, vd); structure(c, in, vd);
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"points", [](Ctx& c) { run(c, false, 40); }, 30000, 1200000});
  f.push_back({"segments", [](Ctx& c) { run(c, true, 24); }, 30000, 1200000});
  f.push_back({"tiny", tiny, 50000, 2500000});
  f.push_back({"many-points", [](Ctx& c) { run(c, false, 300); }, 400, 20000});
  f.push_back({"many-segments", [](Ctx& c) { run(c, true, 120); }, 400, 20000});
  f.push_back({"pinned-0", [](Ctx& c) { pinned(c, 0); }, 1, 1});
  f.push_back({"pinned-1", [](Ctx& c) { pinned(c, 1); }, 1, 1});
  return f;
}
}
VF_MAIN()
