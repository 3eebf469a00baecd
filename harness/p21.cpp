// P21: memory safety. Built with ASan+UBSan and libstdc++'s debug iterators; the monitors are the sanitizers, the debug
// containers and an allocation balance per operation. Workloads: the expression workloads of P25, the engine workloads
// of P22, degenerate shapes, and call histories over a small pool of mutable sets, including self-application.
#include "common.hpp"
#include "msan_rt.hpp"
#undef VF_MAIN
#define VF_MAIN()
#if PART <= 5
#define families families25
#include "p25.cpp"
#undef families
#endif
#include "own.hpp"
#include "vor.hpp"
static long long g_live = 0, g_allocs = 0;
extern "C" void __sanitizer_malloc_hook(const volatile void*, std::size_t) { ++g_live; ++g_allocs; }
extern "C" void __sanitizer_free_hook(const volatile void* p) { if (p) --g_live; }
namespace vf {
// everything f creates must be gone when it returns
template <class F> void balanced(Ctx& c, const char* what, F f, std::string* more = 0) {
  long long a0 = g_allocs, l0 = g_live; f(); long long l1 = g_live, a1 = g_allocs; if (more) c.desc += " calls:" + *more;
  if (l1 != l0) c.fail(std::string("leak-") + what, std::to_string(l1 - l0) + " of " + std::to_string(a1 - a0) + " allocations made by the operation are still live after all its objects are gone");
  c.count("allocations balanced", a1 - a0); c.count("operations balanced");
}
template <class FN> void workload(Ctx& c, const char* name, FN fn) {
  u64 s = c.rng.next(); c.desc = std::string(name) + " #" + std::to_string(s); u64 obs = 0; Hash h;
  balanced(c, name, [&]() { Rng r(s); Log L; fn(r, L); obs = L.v.size(); for (auto& e : L.v) for (char ch : e.second) h.add((u64)ch); });
  c.count("observations", obs); if (obs) c.nontrivial(h.h);
}
#define W(F, G, FN, GEN) [](Rng& r, Log& L) { auto k = GEN(r); FN<ut::F, ut::G>(r, L, k); }
// rings that barely are polygons: too few points, repeated points, spikes, no area
inline std::vector<P> degenerate(Rng& r, Ring q, int dom) {
  int steps = 1 + r.below(3); std::vector<P> v = q;
  for (int k = 0; k < steps; ++k) switch (r.below(7)) {
    case 0: v.resize(std::min<size_t>(v.size(), r.below(3))); break;
    case 1: if (!v.empty()) { size_t i = r.below((int)v.size()); v.insert(v.begin() + i, v[i]); } break;
    case 2: if (!v.empty()) { size_t i = r.below((int)v.size()); P a = v[i]; i64 d = r.range(1, 9); P b = r.below(2) ? P(a.x + d, a.y) : dom == 0 || r.below(2) ? P(a.x, a.y + d) : P(a.x + d, a.y - d); v.insert(v.begin() + i + 1, b); v.insert(v.begin() + i + 2, a); } break;
    case 3: for (auto& p : v) p = v[0]; break;
    case 4: for (auto& p : v) p.y = v[0].y; break;
    case 5: { std::vector<P> w(v.rbegin(), v.rend()); v.insert(v.end(), w.begin(), w.end()); break; }
    default: if (!v.empty()) v.push_back(v[0]);
  }
  return v;
}
template <class C> std::vector<bp::point_data<C> > rawPts(const std::vector<P>& v) { std::vector<bp::point_data<C> > o; for (auto& p : v) o.push_back(bp::point_data<C>((C)p.x, (C)p.y)); return o; }
inline std::string str(const char* n, const std::vector<P>& v) { std::string s = n; for (auto& p : v) s += " (" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; return s; }
#if PART == 0
static int none(Rng&) { return 0; }
static void vorHist(Ctx& c) {
  u64 s = c.rng.next(); std::string d; int rounds = 1 + c.rng.below(3); u64 nv = 0; Hash h;
  { Rng r(s); for (int k = 0; k < rounds; ++k) { VIn in = VGen(r).gen(r.below(2), 12); d += " sites:"; for (auto& p : in.pts) d += " (" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; for (auto& g2 : in.segs) d += " (" + std::to_string(g2.first.x) + "," + std::to_string(g2.first.y) + ")-(" + std::to_string(g2.second.x) + "," + std::to_string(g2.second.y) + ")"; } } c.desc = d;
  std::vector<VIn> ins; { Rng r(s); for (int k = 0; k < rounds; ++k) { ins.push_back(VGen(r).gen(r.below(2), 12)); } }
  int mode = c.rng.below(4);
  balanced(c, "voronoi-history", [&]() {
    bp::default_voronoi_builder vb; bp::voronoi_diagram<double> vd;
    for (auto& in : ins) {
      if (mode == 1) { vd.clear(); bp::default_voronoi_builder t; t.insert_point(1, 2); t.construct(&vd); vd.clear(); }
      for (auto& p : in.pts) { vb.insert_point((int)p.x, (int)p.y); if (mode == 2) vb.insert_point((int)p.x, (int)p.y); }
      for (auto& g2 : in.segs) vb.insert_segment((int)g2.first.x, (int)g2.first.y, (int)g2.second.x, (int)g2.second.y);
      vd.clear(); vb.construct(&vd); nv += vd.num_vertices();
      for (auto& e : vd.edges()) { if (e.vertex0()) h.add((u64)(i64)(std::fmod(e.vertex0()->x(), 1e15))); if (e.rot_next()->is_primary()) h.add(1); if (e.rot_prev()->cell()->contains_point()) h.add(2); e.color(3); }
      for (auto& q : vd.cells()) { q.color(5); h.add(q.source_index()); }
      for (auto& q : vd.vertices()) { if (q.incident_edge() && q.incident_edge()->vertex0() == &q) h.add(7); q.color(1); }
      vb.clear();
    } });
  c.count("voronoi vertices", nv); c.nontrivial(h.h);
}
std::vector<Family> families() { return {
  {"primitives", [](Ctx& c) { workload(c, "primitives", W(FamL<int>, FamL<int>, primitives, none)); }, 6000, 300000},
  {"primitives-user", [](Ctx& c) { workload(c, "primitives-user", W(FamU<int>, FamD<int>, primitives, none)); }, 6000, 300000},
  {"segments", [](Ctx& c) { workload(c, "segments", W(FamL<int>, FamL<int>, segments, none)); }, 4000, 200000},
  {"segments-user", [](Ctx& c) { workload(c, "segments-user", W(FamU<long long>, FamL<long long>, segments, none)); }, 4000, 200000},
  {"voronoi", [](Ctx& c) { workload(c, "voronoi", ownV); }, 4000, 200000},
  {"voronoi-history", vorHist, 8000, 300000}}; }
#elif PART == 1
template <int D> Case1 gen1(Rng& r) { Case1 k; k.dom = D; do k.p = domPoly(r, D, k.lim); while (k.p.outer.size() < 3); for (int i = 0; i < 6; ++i) { P a = k.p.outer[r.below((int)k.p.outer.size())]; k.pts.push_back(P(a.x + r.range(-3, 3), a.y + r.range(-3, 3))); } return k; }
// queries on polygons that barely are polygons
template <class T> u64 queries(Rng& r, const T& p, bool pts, Hash& h) {
  typedef typename bp::polygon_traits<T>::coordinate_type C; u64 n = 0;
  h.add((u64)(i64)bp::area(p)); h.add((u64)(i64)bp::perimeter(p)); h.add(bp::size(p)); bp::rectangle_data<C> x(0, 0, 0, 0); h.add(bp::extents(x, p)); h.add((u64)bp::xh(x)); n += 4;
  for (auto it = bp::begin_points(p); it != bp::end_points(p); ++it) h.add((u64)bp::x(*it));
  if (pts) { for (int k = 0; k < 3; ++k) h.add(bp::contains(p, bp::point_data<C>((C)r.range(-20, 20), (C)r.range(-20, 20)), r.below(2))); n += 3; }
  { T z = p; bp::move(z, bp::VERTICAL, (C)3); bp::scale_up(z, 2); bp::transform(z, bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); T y; y = z; T w(y); std::swap(y, w); h.add(bp::size(w)); h.add(bp::equivalence(p, p)); n += 5; }
  return n;
}
static void degen(Ctx& c) {
  Rng& r = c.rng; int dom = r.below(3); i64 lim; Poly p = domPoly(r, dom, lim); std::vector<P> v = degenerate(r, p.outer, dom), hv = degenerate(r, p.outer, dom); u64 s = r.next(), n = 0; Hash h; c.desc = str("ring", v) + str(" hole", hv);
  balanced(c, "degenerate-polygon", [&]() { Rng r2(s); auto w = rawPts<int>(v), hw = rawPts<int>(hv);
    if (dom == 0) { std::vector<int> cc; int m = 2 * r2.below(4); for (int i = 0; i < m; ++i) cc.push_back((int)r2.range(-4, 4)); bp::polygon_90_data<int> q; q.set_compact(cc.begin(), cc.end()); n += queries(r2, q, m >= 4, h); bp::polygon_90_with_holes_data<int> qh; qh.set_compact(cc.begin(), cc.end()); std::vector<bp::polygon_90_data<int> > hs(r2.below(3), q); qh.set_holes(hs.begin(), hs.end()); n += queries(r2, qh, m >= 4, h); }
    if (dom == 1) { bp::polygon_45_data<int> q; q.set(w.begin(), w.end()); n += queries(r2, q, v.size() > 2, h); bp::polygon_45_with_holes_data<int> qh; qh.set(w.begin(), w.end()); std::vector<bp::polygon_45_data<int> > hs(r2.below(3)); for (auto& z : hs) z.set(hw.begin(), hw.end()); qh.set_holes(hs.begin(), hs.end()); n += queries(r2, qh, v.size() > 2, h); }
    { bp::polygon_data<int> q; q.set(w.begin(), w.end()); n += queries(r2, q, v.size() > 2, h); bp::polygon_with_holes_data<int> qh; qh.set(w.begin(), w.end()); std::vector<bp::polygon_data<int> > hs(r2.below(3)); for (auto& z : hs) z.set(hw.begin(), hw.end()); qh.set_holes(hs.begin(), hs.end()); n += queries(r2, qh, v.size() > 2, h); } });
  c.count("degenerate queries", n); c.nontrivial(h.h);
}
std::vector<Family> families() { return {
  {"polygons-90", [](Ctx& c) { workload(c, "polygons-90", W(FamL<int>, FamL<int>, polys, gen1<0>)); }, 2500, 100000},
  {"polygons-45", [](Ctx& c) { workload(c, "polygons-45", W(FamU<int>, FamU<int>, polys, gen1<1>)); }, 2500, 100000},
  {"polygons", [](Ctx& c) { workload(c, "polygons", W(FamL<int>, FamL<int>, polys, gen1<2>)); }, 2500, 100000},
  {"degenerate", degen, 12000, 500000}}; }
#else
static Case2 gen2(Rng& r) {
  Case2 k; Items v;
#if PART == 2
  Range q = pickRange(r, -(1 << 20), 1 << 20, true); q.lo = std::max<i64>(q.lo, -(1 << 20)); q.hi = std::min<i64>(q.hi, 1 << 20); if (q.hi - q.lo < 8) q.hi = q.lo + 8; Scene sc = genScene(r, q, 8); v = genItems(r, sc, 6, true, false, false);
#elif PART == 4
  Scene45 s = genScene45(r, false, -(1 << 24), 1 << 24); v = genItems45(r, s, 5, true, false);
#else
  SceneG s = genSceneG(r, 1 << 27); v = genItemsG(r, s, 5, true, false);
#endif
  for (auto& i : v) { i.p.outer = horizFirst(i.p.outer); for (auto& h : i.p.holes) h = horizFirst(h); (r.below(2) ? k.a : k.b).push_back(i); } return k;
}
#if PART == 2
#define FN set90
#define OWN own90
typedef bp::polygon_90_set_data<int> DS; typedef bp::polygon_90_data<int> PT; typedef bp::polygon_90_with_holes_data<int> PH;
enum { DOM = 0 };
#elif PART == 4
#define FN set45
#define OWN own45
typedef bp::polygon_45_set_data<int> DS; typedef bp::polygon_45_data<int> PT; typedef bp::polygon_45_with_holes_data<int> PH;
enum { DOM = 1 };
#else
#define FN setG
#define OWN ownG
typedef bp::polygon_set_data<int> DS; typedef bp::polygon_data<int> PT; typedef bp::polygon_with_holes_data<int> PH;
enum { DOM = 2 };
#endif
struct Shape { std::vector<P> v, hole; bool sub, valid; };
static std::vector<Shape> shapes(Rng& r) {
  std::vector<Shape> o; Case2 k = gen2(r); i64 lim = 1 << 16; for (auto* z : {&k.a, &k.b}) for (auto& i : *z) { Shape s; s.v = i.p.outer; s.sub = r.chance(1, 8); s.valid = true; for (auto& p : s.v) { p.x = std::max(-lim, std::min(lim, p.x)); p.y = std::max(-lim, std::min(lim, p.y)); } if (DOM != 0) { bool in = true; for (auto& p : i.p.outer) if (std::llabs(p.x) > lim || std::llabs(p.y) > lim) in = false; if (!in) { s.v.clear(); i64 a = r.range(-9, 9), b = r.range(-9, 9), d = 2 * r.range(1, 30); s.v = {P(a, b), P(a + d, b), P(a, b + d)}; } }
    if (!i.p.holes.empty() && r.below(2)) s.hole = i.p.holes[0]; if (!s.hole.empty()) for (auto& p : s.hole) if (std::llabs(p.x) > lim || std::llabs(p.y) > lim) { s.hole.clear(); break; }
    if (r.chance(1, 3)) { s.valid = false; s.v = degenerate(r, s.v, DOM); if (!s.hole.empty()) s.hole = degenerate(r, s.hole, DOM); } o.push_back(s); }
  return o;
}
static void mk(PT& p, const std::vector<P>& v) {
#if PART == 2
  std::vector<int> c; for (std::size_t i = 0; i + 1 < v.size(); i += 2) { c.push_back((int)v[i].x); c.push_back((int)v[i].y); } p.set_compact(c.begin(), c.end());
#else
  auto w = rawPts<int>(v); p.set(w.begin(), w.end());
#endif
}
static void mkh(PH& p, const Shape& s) {
  PT t; mk(t, s.v);
#if PART == 2
  p.set_compact(t.begin_compact(), t.end_compact());
#else
  p.set(t.begin(), t.end());
#endif
  std::vector<PT> hs; if (!s.hole.empty()) { hs.resize(1); mk(hs[0], s.hole); } p.set_holes(hs.begin(), hs.end());
}
template <class T> bool small(const T& s) { bp::rectangle_data<int> x(0, 0, 0, 0); if (!bp::extents(x, s)) return true; return bp::xl(x) > -(1 << 19) && bp::yl(x) > -(1 << 19) && bp::xh(x) < (1 << 19) && bp::yh(x) < (1 << 19); }
// one step of a history over three sets
static const char* step(Rng& r, DS* s, const std::vector<Shape>& sh, u64& obs) {
  using namespace bp::operators; int i = r.below(3), j = r.below(3), op = r.below(34); DS &a = s[i], &b = s[j]; int am = (int)r.range(1, 5);
  bp::rectangle_data<int> box((int)r.range(-9, 0), (int)r.range(-9, 0), (int)r.range(0, 9), (int)r.range(0, 9));
  if (!sh.empty() && op < 8) { const Shape& q = sh[r.below((int)sh.size())]; switch (op) {
    case 0: case 1: { PT p; mk(p, q.v); a.insert(p); return "insert"; } case 2: case 3: { PH p; mkh(p, q); a.insert(p); return "insert-with-holes"; }
    case 4: { PT p; mk(p, q.v); a.insert(p, true); return "insert-hole"; } case 5: { std::vector<PH> v; for (auto& z : sh) { v.push_back(PH()); mkh(v.back(), z); } bp::assign(a, v); return "assign-container"; }
    case 6: { PH p; mkh(p, q); a -= p; return "minus-polygon"; } default: { std::vector<PT> v(2); mk(v[0], q.v); mk(v[1], sh[0].v); a += v; return "plus-container"; } } }
  switch (op) {
    case 8: a.insert(b); return "insert-set";
    case 9: a += b; return "plus-assign"; case 10: a *= b; return "and-assign"; case 11: a ^= b; return "xor-assign"; case 12: a -= b; return "minus-assign";
    case 13: { DS z(a | b); s[r.below(3)] = z; return "or"; } case 14: s[r.below(3)] = a & b; return "and"; case 15: s[r.below(3)] = (a ^ b) - a; return "nested"; 
    case 16: a.clean(); return "clean"; case 17: a.clear(); return "clear"; case 18: a = b; return "assign"; case 19: { DS z(a); a = z; return "copy"; }
    case 20: { std::vector<PH> v; a.get(v); obs += v.size(); return "get-with-holes"; } case 21: { std::list<PT> v; a.get(v); obs += v.size(); return "get-polygons"; }
    case 22: { std::vector<PT> v;
#if PART == 2
      bp::get_rectangles(v, a);
#else
      bp::get_trapezoids(v, a);
#endif
      obs += v.size(); return "slice"; }
    case 23: { if (small(a)) bp::scale_up(a, 2); return "scale_up"; } case 24: bp::scale_down(a, 2); return "scale_down"; case 25: if (small(a)) a.transform(bp::transformation<int>(bp::point_data<int>(am, -am))); return "move";
    case 26: a.transform(bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); return "transform";
    case 27: a.insert(box, r.chance(1, 6)); return "insert-rectangle";
    case 28: obs += (u64)(bp::area(a) != 0) + bp::empty(b) + bp::equivalence(a, b) + (a == b) + a.size(); return "queries";
    case 29: bp::interact(a, b); return "interact"; case 30: bp::keep(a, 0u, 500u, 0u, 30u, 0u, 30u); return "keep";
#if PART == 2
    case 31: { if (!small(a)) return "none"; switch (r.below(5)) { case 0: bp::bloat(a, (unsigned)am); break; case 1: bp::shrink(a, (unsigned)am); break; case 2: a.resize(am, -am, 1, 0); break; case 3: bp::bloat(a, bp::HORIZONTAL, (unsigned)am); break; default: bp::grow_and(a, (unsigned)am); } return "resize"; }
    case 32: { std::vector<bp::rectangle_data<int> > v; if (r.below(2)) bp::get_max_rectangles(v, a); else a.get_rectangles(v, bp::HORIZONTAL); obs += v.size(); return "rectangles"; }
    default: if (r.below(2)) bp::self_intersect(a); else bp::self_xor(a); return "self";
#elif PART == 4
    case 31: { if (!small(a)) return "none"; if (r.below(2)) a.resize(r.below(2) ? am : -am, (bp::RoundingOption)r.below(5), (bp::CornerOption)r.below(3)); else if (r.below(2)) bp::bloat(a, (unsigned)am); else bp::shrink(a, (unsigned)am); return "resize"; }
    case 32: { std::vector<PT> v; a.get_trapezoids(v, bp::HORIZONTAL); obs += v.size(); obs += a.is_manhattan(); return "trapezoids"; }
    default: if (r.below(2)) a.self_intersect(); else a.self_xor(); return "self";
#else
    case 31: { if (!small(a)) return "none"; a.resize(r.below(2) ? am : -am, true, r.below(8)); return "resize"; }
    case 32: { std::vector<PT> v; a.get_trapezoids(v, bp::HORIZONTAL); obs += v.size(); return "trapezoids"; }
    default: { DS z; z.insert(a, r.below(2)); std::swap(a, z); std::swap(a, b); return "swap"; }
#endif
  }
}
static void history(Ctx& c) {
  Rng& r = c.rng; u64 s = r.next(); std::vector<Shape> sh = shapes(r); std::string d; for (auto& q : sh) d += str(q.sub ? " -" : " +", q.v) + (q.hole.empty() ? "" : str(" hole", q.hole)); int n = 3 + r.below(12); u64 obs = 0; Hash h; c.desc = "history #" + std::to_string(s) + d; std::string names; names.reserve(4000);
  balanced(c, "history", [&]() { Rng r2(s); DS set[3]; for (int k = 0; k < n; ++k) { const char* w = step(r2, set, sh, obs); names += " "; names += w; if (names.size() < 1500) { std::string t = c.desc.substr(0, 5500) + " calls:" + names; memcpy(g->status + 256, t.data(), std::min<size_t>(t.size(), 7000)); g->status[256 + std::min<size_t>(t.size(), 7000)] = 0; } for (auto& z : set) if (!small(z)) { z.clear(); } } }, &names);
  for (char ch : names) h.add((u64)ch); h.add(s); c.count("history calls", n); c.count("pieces delivered", obs); c.nontrivial(h.h);
}
#if PART == 5
// recorded finding: without GMP the intersection arithmetic of long double misjudges this arrangement and polygon formation
// walks off its scan line
static void pinned(Ctx& c) {
  using namespace bp::operators; auto ring = [](std::vector<std::pair<int, int> > v) { std::vector<bp::point_data<int> > w; for (auto& p : v) w.push_back(bp::point_data<int>(p.first, p.second)); bp::polygon_data<int> q; q.set(w.begin(), w.end()); return q; };
  bp::polygon_set_data<int> a, b; c.desc = "(a^b)^(a-a) of the pinned scene";
  a.insert(ring({{-10450440, -20900880}, {0, 10450440}, {20900880, 20900880}}));
  b.insert(ring({{10450440, 0}, {-10450440, -20900880}, {-10450440, 10450440}, {-20900880, 20900880}, {0, 31351320}, {20900880, 10450440}, {31351320, 0}}));
  b.insert(ring({{31351320, 20900880}, {-20900880, 0}, {10450440, -10450440}}));
  b.insert(ring({{-20900880, -20900880}, {31351320, -20900880}, {31351320, -10450440}, {31351320, 31351320}, {0, 31351320}, {0, 0}, {-20900880, 0}}));
  std::vector<bp::polygon_data<int> > o; bp::assign(o, (a ^ b) ^ (a - a)); c.count("pinned", o.size());
}
#endif
std::vector<Family> families() { return {
#if PART == 5 && !VF_MSAN
  {"pinned-gmp", pinned, 1, 1},
#endif
  {"expressions", [](Ctx& c) { workload(c, "expressions", W(FamL<int>, FamL<int>, FN, gen2)); }, 1200, 40000},
  {"expressions-user", [](Ctx& c) { workload(c, "expressions-user", W(FamU<int>, FamD<int>, FN, gen2)); }, 1200, 40000},
  {"engine", [](Ctx& c) { workload(c, "engine", OWN); }, 600, 30000},
  {"history", history, 10000, 250000}}; }
#endif
}
#undef VF_MAIN
#define VF_MAIN() namespace vf { State* g = 0; } int main(int argc, char** argv) { return vf::harness_main(argc, argv); }
VF_MAIN()
