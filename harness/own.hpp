// Engine workloads on the library's own types, written as functions of a random stream that log what they observe;
// shared by the thread (P22) and the memory (P21) monitors.
#ifndef VERIF_OWN_HPP
#define VERIF_OWN_HPP
#include "usertypes.hpp"
#include "set90.hpp"
#include "scene45.hpp"
#include "sceneg.hpp"
#include <boost/polygon/voronoi.hpp>
namespace vf {
using ut::Log; using ut::S;
// the engines' own entry points, on the library's types
static void own90(Rng& r, Log& L) {
  typedef int C; Range q = pickRange(r, -(1 << 20), 1 << 20, true); q.lo = std::max<i64>(q.lo, -(1 << 20)); q.hi = std::min<i64>(q.hi, 1 << 20); if (q.hi - q.lo < 8) q.hi = q.lo + 8;
  Scene sc = genScene(r, q, 8); Items v = genItems(r, sc, 7, true, true, false); bp::polygon_90_set_data<C> a, b(bp::VERTICAL); for (auto& i : v) insertItem(r.below(2) ? a : b, i);
  { std::vector<bp::rectangle_data<C> > o; a.get_rectangles(o, bp::VERTICAL); L.put("rectangles", S(o)); o.clear(); bp::get_max_rectangles(o, b); L.put("max-rectangles", S(o)); }
  { bp::polygon_90_set_data<C> z; switch (r.below(4)) { case 0: z = bp::operators::operator|(a, b); break; case 1: z = bp::operators::operator&(a, b); break; case 2: z = bp::operators::operator^(a, b); break; default: z = bp::operators::operator-(a, b); } std::vector<bp::polygon_90_with_holes_data<C> > o; z.get(o); L.put("boolean", S(o)); z.resize(r.range(-3, 5), r.range(-3, 5), r.range(-3, 5), r.range(-3, 5)); o.clear(); z.get(o); L.put("resize", S(o)); z.transform(bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); o.clear(); z.get(o); L.put("transform", S(o)); }
  { bp::polygon_90_set_data<C> z(a); bp::self_xor(z); L.num("self-xor-area", (long double)bp::area(z)); z = a; bp::self_intersect(z); L.num("self-intersect-area", (long double)bp::area(z)); z = a; z.interact(b); L.num("interact-area", (long double)bp::area(z)); }
  { bp::property_merge_90<C, int> m; for (std::size_t i = 0; i < v.size(); ++i) if (!v[i].hole) m.insert(to90h<C>(v[i].p), (int)i); std::map<std::vector<int>, bp::polygon_90_set_data<C> > res; m.merge(res); for (auto& e : res) { std::vector<bp::polygon_90_data<C> > o; e.second.get(o); L.put("merge", std::to_string(e.first.size()) + S(o)); } }
  { bp::connectivity_extraction_90<C> ce; int n = 0; for (auto& i : v) if (!i.hole) { ce.insert(to90h<C>(i.p)); ++n; } std::vector<std::set<int> > g(n); ce.extract(g); std::string o; for (auto& e : g) { for (int x : e) o += std::to_string(x) + ","; o += ";"; } L.put("connectivity", o); }
}
static void own45(Rng& r, Log& L) {
  typedef int C; Scene45 s = genScene45(r, r.chance(1, 2), -(1 << 24), 1 << 24); Items v = genItems45(r, s, 6, true, true); bp::polygon_45_set_data<C> a, b; for (auto& i : v) (r.below(2) ? a : b).insert(to45h<C>(i.p), i.hole);
  { bp::polygon_45_set_data<C> z; switch (r.below(4)) { case 0: z = bp::operators::operator|(a, b); break; case 1: z = bp::operators::operator&(a, b); break; case 2: z = bp::operators::operator^(a, b); break; default: z = bp::operators::operator-(a, b); } std::vector<bp::polygon_45_with_holes_data<C> > o; z.get(o); L.put("boolean45", S(o)); std::vector<bp::polygon_45_data<C> > t; z.get_trapezoids(t, bp::VERTICAL); L.put("trapezoids45", S(t)); z.resize((C)r.range(-4, 6), bp::CLOSEST, bp::INTERSECTION); o.clear(); z.get(o); L.put("resize45", S(o)); }
  { bp::polygon_45_set_data<C> z(a); z.self_xor(); L.num("self-xor45", (long double)bp::area(z)); z = a; z.self_intersect(); L.num("self-intersect45", (long double)bp::area(z)); }
  { bp::property_merge_45<C, int> m; for (std::size_t i = 0; i < v.size(); ++i) if (!v[i].hole) m.insert(to45h<C>(v[i].p), (int)i); std::map<std::set<int>, bp::polygon_45_set_data<C> > res; m.merge(res); for (auto& e : res) { std::vector<bp::polygon_45_with_holes_data<C> > o; e.second.get(o); L.put("merge45", std::to_string(e.first.size()) + S(o)); } }
  { bp::connectivity_extraction_45<C> ce; int n = 0; for (auto& i : v) if (!i.hole) { ce.insert(to45h<C>(i.p)); ++n; } std::vector<std::set<int> > g(n); ce.extract(g); std::string o; for (auto& e : g) { for (int x : e) o += std::to_string(x) + ","; o += ";"; } L.put("connectivity45", o); }
}
static void ownG(Rng& r, Log& L) {
  typedef int C; SceneG s = genSceneG(r, 1 << 20); Items v = genItemsG(r, s, 5, true, false); bp::polygon_set_data<C> a, b; for (auto& i : v) (r.below(2) ? a : b).insert(toGenh<C>(i.p));
  { bp::polygon_set_data<C> z; switch (r.below(4)) { case 0: z = bp::operators::operator|(a, b); break; case 1: z = bp::operators::operator&(a, b); break; case 2: z = bp::operators::operator^(a, b); break; default: z = bp::operators::operator-(a, b); } std::vector<bp::polygon_with_holes_data<C> > o; z.get(o); L.put("booleanG", S(o)); std::vector<bp::polygon_data<C> > t; z.get_trapezoids(t); L.put("trapezoidsG", S(t)); }
  { bp::polygon_set_data<C> z(a); z.clean(); L.num("cleanG", (long double)bp::area(z)); bp::polygon_set_data<C> w; w.insert(bp::rectangle_data<C>(0, 0, 20, 20)); z = b; z.interact(w); L.num("interactG", (long double)bp::area(z)); }
  { bp::property_merge<C, int> m; for (std::size_t i = 0; i < v.size(); ++i) m.insert(toGenh<C>(v[i].p), (int)(i % 3)); std::map<std::set<int>, bp::polygon_set_data<C> > res; m.merge(res); for (auto& e : res) { std::vector<bp::polygon_with_holes_data<C> > o; e.second.get(o); L.put("mergeG", std::to_string(e.first.size()) + S(o)); } }
  { bp::connectivity_extraction<C> ce; for (auto& i : v) ce.insert(toGenh<C>(i.p)); std::vector<std::set<int> > g(v.size()); ce.extract(g); std::string o; for (auto& e : g) { for (int x : e) o += std::to_string(x) + ","; o += ";"; } L.put("connectivityG", o); }
  if (!v.empty()) { bp::polygon_set_data<C> z; z.insert(toGen<C>(v[0].p.outer)); z.resize((C)(1 + s.s / 20), true, 4 + r.below(5)); /* mitred corners of needles leave the coordinate range */ std::vector<bp::polygon_with_holes_data<C> > o; z.get(o); L.put("resizeG", S(o)); }
}
static void ownV(Rng& r, Log& L) {
  bp::default_voronoi_builder vb; bp::voronoi_diagram<double> vd; int rounds = 1 + r.below(3), base = r.chance(1, 2) ? 20 : 1 << (6 + r.below(24));
  for (int k = 0; k < rounds; ++k) { if (k) { vd.clear(); vb.clear(); }
    int n = r.below(20), m = r.below(8); for (int i = 0; i < n; ++i) vb.insert_point((int)r.range(-base, base), (int)r.range(-base, base));
    std::vector<i64> xs; for (int i = 0; i < 2 * m; ++i) xs.push_back(r.range(-base, base)); std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
    if (r.below(2)) for (std::size_t i = 0; i + 1 < xs.size(); i += 2) vb.insert_segment((int)xs[i], (int)(base + 1 + r.below(9)), (int)xs[i + 1], (int)(base + 1 + r.below(9)));
    vb.construct(&vd); L.num("cells", vd.num_cells()); L.num("edges", vd.num_edges()); for (auto& v : vd.vertices()) { L.num("vertex-x", v.x()); L.num("vertex-y", v.y()); } std::string o; for (auto& e : vd.edges()) { o += e.is_primary() ? 'p' : 's'; o += e.is_linear() ? 'l' : 'c'; o += std::to_string(e.twin() - &vd.edges()[0]) + "," + std::to_string(e.cell() - &vd.cells()[0]) + " "; } L.put("edges", o); }
}
}
#endif
