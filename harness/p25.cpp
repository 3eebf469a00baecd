// P25: user-defined geometry types against the library's own: the same call sequence is executed by each type
// family through free functions and operators only, and the logs of returned values are compared.
#include "usertypes.hpp"
#if PART == 1 || PART == 2 || PART == 4 || PART == 5
#include "sceneg.hpp"
#endif
#if PART == 3
#include <boost/polygon/voronoi.hpp>
#endif
namespace vf {
using ut::Log; using ut::S;
static void diff(Ctx& c, const char* fam, const Log& a, const Log& b, u64& ops) {
  for (std::size_t i = 0; i < a.v.size() || i < b.v.size(); ++i) {
    if (i >= a.v.size() || i >= b.v.size()) { c.fail(std::string(fam) + "-length", "the runs made different numbers of observations"); return; }
    ++ops;
    if (a.v[i].second != b.v[i].second && b.v[i].second != "skip") { c.fail(std::string(fam) + "-" + a.v[i].first, std::string(a.v[i].first) + " (observation " + std::to_string(i) + ") gives " + b.v[i].second.substr(0, 500) + " with user types and " + a.v[i].second.substr(0, 500) + " with the library's types"); return; }
  }
}
static std::string logHead(const Log& l) { std::string s; for (std::size_t i = 0; i < l.v.size() && i < 4; ++i) s += std::string(l.v[i].first) + "=" + l.v[i].second.substr(0, 150) + " "; return s; }
#define RUN3(FN, DATA) { Rng r0(c.rng.next()), r1 = r0, r3 = r0; int m = c.rng.below(3); Log l0, l1, l2; FN<ut::FamL<C>, ut::FamL<C> >(r0, l0, DATA); if (c.desc.empty()) c.desc = logHead(l0); FN<ut::FamU<C>, ut::FamU<C> >(r1, l1, DATA); u64 ops = 0; diff(c, "user", l0, l1, ops); \
  if (m == 0) FN<ut::FamD<C>, ut::FamD<C> >(r3, l2, DATA); else if (m == 1) FN<ut::FamU<C>, ut::FamL<C> >(r3, l2, DATA); else FN<ut::FamL<C>, ut::FamD<C> >(r3, l2, DATA); diff(c, m == 0 ? "default" : m == 1 ? "user-native" : "native-default", l0, l2, ops); \
  c.count("observations-compared", ops); u64 tr = 0; for (auto& e : l0.v) if (e.second == "true") ++tr; c.count("predicates-true", tr); Hash h; for (auto& e : l0.v) for (char ch : e.second) h.add((u64)ch); c.nontrivial(h.h); }

template <class C> struct Coord { Rng& r; i64 lim; Coord(Rng& r_) : r(r_) { i64 l[] = {3, 8, 40, 1000, 1 << 20, 1 << 28}; lim = l[r.below(6)]; } C operator()() { return (C)r.range(-lim, lim); } };

#if PART == 0
template <class F, class G> void primitives(Rng& r, Log& L, int) {
  typedef typename F::point P; typedef typename G::point P2; typedef typename bp::point_traits<P>::coordinate_type C; Coord<C> k(r);
  C v[8]; for (auto& x : v) x = r.chance(1, 4) ? v[0] = k() : k(); if (r.chance(1, 3)) v[2] = v[0]; if (r.chance(1, 3)) v[3] = v[1];
  P a = bp::construct<P>(v[0], v[1]); P2 b = bp::construct<P2>(v[2], v[3]); L.put("point-construct", S(a)); L.put("point-construct2", S(b));
  L.num("point-x", bp::x(a)); L.num("point-y", bp::y(b)); L.num("point-get", bp::get(a, bp::VERTICAL)); L.b("point-equivalence", bp::equivalence(a, b)); L.num("point-manhattan", bp::manhattan_distance(a, b)); L.num("point-euclidean", bp::euclidean_distance(a, b)); L.num("point-squared", bp::distance_squared(a, b)); L.num("point-euclidean-axis", bp::euclidean_distance(a, b, bp::HORIZONTAL));
  { P z = a; bp::x(z, v[4]); L.put("point-set-x", S(z)); bp::y(z, v[5]); L.put("point-set-y", S(z)); bp::set(z, bp::HORIZONTAL, v[6]); L.put("point-set", S(z)); }
  { P z = a; bp::assign(z, b); L.put("point-assign", S(z)); } { P z = a; bp::convolve(z, b); L.put("point-convolve", S(z)); bp::deconvolve(z, b); bp::deconvolve(z, b); L.put("point-deconvolve", S(z)); }
  { P z = a; bp::move(z, bp::VERTICAL, v[6]); L.put("point-move", S(z)); } { P z = a; bp::scale_up(z, 3); L.put("point-scale_up", S(z)); } { P z = a; bp::scale_down(z, 3); L.put("point-scale_down", S(z)); } { P z = a; bp::scale(z, bp::anisotropic_scale_factor<double>(0.5, 1.75)); L.put("point-scale", S(z)); }
  bp::axis_transformation at((bp::axis_transformation::ATR)r.below(8)); bp::transformation<C> tr(at), tr2(b); { P z = a; bp::transform(z, at); L.put("point-transform-axis", S(z)); } { P z = a; bp::transform(z, tr2); L.put("point-transform", S(z)); }
  // intervals
  typedef typename F::ival I; typedef typename G::ival I2; I i = bp::construct<I>(v[0], v[4]); I2 j = bp::construct<I2>(v[5], v[6]); bool t = r.below(2); bp::direction_1d d(r.below(2) ? bp::HIGH : bp::LOW);
  L.put("interval-construct", S(i)); L.put("interval-construct2", S(j)); L.num("interval-low", bp::low(i)); L.num("interval-high", bp::high(i)); L.num("interval-delta", bp::delta(i)); L.num("interval-center", bp::center(i)); L.b("interval-equivalence", bp::equivalence(i, j)); L.b("interval-contains-value", bp::contains(i, v[7], t)); L.b("interval-contains", bp::contains(i, j, t)); L.b("interval-intersects", bp::intersects(i, j, t)); L.b("interval-boundaries", bp::boundaries_intersect(i, j, t)); L.b("interval-abuts", bp::abuts(i, j)); L.b("interval-abuts-dir", bp::abuts(i, j, d)); L.num("interval-distance", bp::euclidean_distance(i, j)); L.num("interval-distance-value", bp::euclidean_distance(i, v[7]));
  { I z = i; bp::assign(z, j); L.put("interval-assign", S(z)); } { I z = i; L.b("interval-intersect", bp::intersect(z, j, t)); L.put("interval-intersect-result", S(z)); } { I z = i; bp::generalized_intersect(z, j); L.put("interval-generalized", S(z)); } { I z = i; L.b("interval-join", bp::join_with(z, j)); L.put("interval-join-result", S(z)); } { I z = i; L.b("interval-encompass", bp::encompass(z, j)); L.put("interval-encompass-result", S(z)); } { I z = i; bp::encompass(z, v[7]); L.put("interval-encompass-value", S(z)); }
  { I z = i; bp::convolve(z, j); L.put("interval-convolve", S(z)); bp::deconvolve(z, j); L.put("interval-deconvolve", S(z)); bp::reflected_convolve(z, j); L.put("interval-rconvolve", S(z)); bp::reflected_deconvolve(z, j); L.put("interval-rdeconvolve", S(z)); } { I z = i; bp::bloat(z, (C)5); L.put("interval-bloat", S(z)); bp::shrink(z, (C)5); L.put("interval-shrink", S(z)); bp::bloat(z, d, (C)4); L.put("interval-bloat-dir", S(z)); } { I z = i; bp::flip(z, v[7]); L.put("interval-flip", S(z)); } { I z = i; bp::move(z, v[7]); L.put("interval-move", S(z)); } L.put("interval-half", S(bp::get_half(i, d)));
  { I z = i; bp::scale_up(z, 3); L.put("interval-scale_up", S(z)); bp::scale_down(z, 2); L.put("interval-scale_down", S(z)); bp::scale(z, 0.7); L.put("interval-scale", S(z)); } { I z = i; bp::low(z, v[7]); L.put("interval-set-low", S(z)); bp::high(z, v[6]); L.put("interval-set-high", S(z)); bp::set(z, d, v[5]); L.put("interval-set", S(z)); }
  // rectangles
  typedef typename F::rect R; typedef typename G::rect R2; R x = bp::construct<R>(std::min(v[0], v[4]), std::min(v[1], v[7]), std::max(v[0], v[4]), std::max(v[1], v[7])); R2 y = bp::construct<R2>(std::min(v[2], v[5]), std::min(v[3], v[6]), std::max(v[2], v[5]), std::max(v[3], v[6])); bp::orientation_2d o(r.below(2) ? bp::VERTICAL : bp::HORIZONTAL); bp::direction_2d d2((bp::direction_2d_enum)r.below(4));
  L.put("rect-construct", S(x)); L.put("rect-construct2", S(y)); L.num("rect-xl", bp::xl(x)); L.num("rect-yl", bp::yl(x)); L.num("rect-xh", bp::xh(y)); L.num("rect-yh", bp::yh(y)); L.put("rect-horizontal", S(bp::horizontal(x))); L.put("rect-vertical", S(bp::vertical(x))); L.num("rect-get", bp::get(x, o, d)); L.put("rect-get-interval", S(bp::get(x, o)));
  L.num("rect-delta", bp::delta(x, o)); L.num("rect-area", bp::area(x)); L.num("rect-perimeter", bp::perimeter(x)); L.num("rect-half-perimeter", bp::half_perimeter(x)); L.b("rect-orientation", bp::guess_orientation(x) == bp::VERTICAL); L.b("rect-equivalence", bp::equivalence(x, y)); L.b("rect-contains", bp::contains(x, y, t)); L.b("rect-contains-point", bp::contains(x, b, t)); L.b("rect-intersects", bp::intersects(x, y, t)); L.b("rect-boundaries", bp::boundaries_intersect(x, y, t)); L.b("rect-abuts", bp::abuts(x, y)); L.b("rect-abuts-orient", bp::abuts(x, y, o)); L.b("rect-abuts-dir", bp::abuts(x, y, d2)); 
  L.num("rect-distance", bp::euclidean_distance(x, y)); L.num("rect-distance-point", bp::euclidean_distance(x, b)); L.num("rect-distance-axis", bp::euclidean_distance(x, y, o)); L.num("rect-square", bp::square_euclidean_distance(x, y)); L.num("rect-square-point", bp::square_euclidean_distance(x, b)); L.num("rect-manhattan", bp::manhattan_distance(x, y)); L.num("rect-manhattan-point", bp::manhattan_distance(x, b));
  { P z = a; bp::center(z, x); L.put("rect-center", S(z)); bp::get_corner(z, x, bp::direction_2d((bp::direction_2d_enum)(r.below(2) * 2)), d); L.put("rect-corner", S(z)); } L.put("rect-ll", S(bp::ll(x))); L.put("rect-ur", S(bp::ur(x))); L.put("rect-ul", S(bp::ul(x))); L.put("rect-lr", S(bp::lr(x))); L.put("rect-half", S(bp::get_half(x, d2)));
  { R z = x; bp::assign(z, y); L.put("rect-assign", S(z)); } { R z = x; L.b("rect-intersect", bp::intersect(z, y, t)); L.put("rect-intersect-result", S(z)); } { R z = x; bp::generalized_intersect(z, y); L.put("rect-generalized", S(z)); } { R z = x; L.b("rect-encompass", bp::encompass(z, y)); L.put("rect-encompass-result", S(z)); L.b("rect-encompass-point", bp::encompass(z, b)); L.put("rect-encompass-point-result", S(z)); } { R z = x; L.b("rect-join", bp::join_with(z, y)); L.put("rect-join-result", S(z)); } { R z = x; bp::convolve(z, y); L.put("rect-convolve", S(z)); bp::deconvolve(z, y); L.put("rect-deconvolve", S(z)); bp::reflected_convolve(z, y); L.put("rect-rconvolve", S(z)); bp::reflected_deconvolve(z, y); L.put("rect-rdeconvolve", S(z)); bp::convolve(z, b); L.put("rect-convolve-point", S(z)); bp::deconvolve(z, b); L.put("rect-deconvolve-point", S(z)); }
  { R z = x; bp::bloat(z, (C)3); L.put("rect-bloat", S(z)); bp::bloat(z, o, (C)2); L.put("rect-bloat-orient", S(z)); bp::bloat(z, d2, (C)2); L.put("rect-bloat-dir", S(z)); bp::shrink(z, (C)1); L.put("rect-shrink", S(z)); bp::shrink(z, o, (C)1); bp::shrink(z, d2, (C)1); L.put("rect-shrink-dir", S(z)); } { R z = x; bp::move(z, o, v[5]); L.put("rect-move", S(z)); bp::transform(z, at); L.put("rect-transform", S(z)); bp::transform(z, tr2); L.put("rect-transform2", S(z)); bp::scale_up(z, 2); L.put("rect-scale_up", S(z)); bp::scale_down(z, 3); L.put("rect-scale_down", S(z)); bp::scale(z, bp::anisotropic_scale_factor<double>(1.5, 0.25)); L.put("rect-scale", S(z)); }
  { R z = x; bp::set(z, o, bp::construct<I2>(v[5], v[6])); L.put("rect-set-interval", S(z)); bp::set(z, o, d, v[7]); L.put("rect-set", S(z)); bp::xl(z, v[1]); bp::yh(z, v[2]); L.put("rect-set-xl-yh", S(z)); bp::horizontal(z, j); L.put("rect-set-horizontal", S(z)); bp::vertical(z, bp::construct<I2>(v[0], v[3])); L.put("rect-set-vertical", S(z)); } { R z = x; bp::set_points(z, b, a); L.put("rect-set_points", S(z)); }
}
template <class F, class G> void segments(Rng& r, Log& L, int) {
  typedef typename F::seg T; typedef typename G::seg T2; typedef typename F::point P; typedef typename G::point P2; typedef typename bp::point_traits<P>::coordinate_type C; Coord<C> k(r);
  C v[10]; for (auto& x : v) x = k(); if (r.chance(1, 3)) { v[4] = v[0]; v[5] = v[1]; } if (r.chance(1, 4)) v[6] = v[2]; P p0 = bp::construct<P>(v[0], v[1]), p1 = bp::construct<P>(v[2], v[3]); T s = bp::construct<T>(p0, p1); P2 q0 = bp::construct<P2>(v[4], v[5]), q1 = bp::construct<P2>(v[6], v[7]); T2 u = bp::construct<T2>(q0, q1); P2 q = bp::construct<P2>(r.chance(1, 3) ? v[0] : v[8], r.chance(1, 3) ? v[1] : v[9]); bool t = r.below(2);
  L.put("segment-construct", S(s)); L.put("segment-construct2", S(u)); L.put("segment-low", S(bp::low(s))); L.put("segment-high", S(bp::high(s))); L.put("segment-get", S(bp::get(u, bp::HIGH))); L.put("segment-center", S(bp::center(s))); L.num("segment-length", bp::length(s)); L.num("segment-orientation-point", bp::orientation(s, q)); L.num("segment-orientation", bp::orientation(s, u)); L.b("segment-contains-point", bp::contains(s, q, t)); L.b("segment-contains", bp::contains(s, u, t)); L.b("segment-equivalence", bp::equivalence(s, u)); L.b("segment-abuts", bp::abuts(s, u)); L.b("segment-abuts-dir", bp::abuts(s, u, bp::LOW)); L.b("segment-intersects", bp::intersects(s, u, t)); L.num("segment-distance", bp::euclidean_distance(s, u)); L.num("segment-distance-point", bp::euclidean_distance(s, q));
  { T z = s; bp::assign(z, u); L.put("segment-assign", S(z)); } { T z = s; bp::convolve(z, q); L.put("segment-convolve-point", S(z)); bp::deconvolve(z, q); bp::deconvolve(z, q); L.put("segment-deconvolve", S(z)); } { T z = s; bp::move(z, bp::HORIZONTAL, v[8]); L.put("segment-move", S(z)); bp::scale_up(z, 3); bp::scale_down(z, 2); L.put("segment-scale-updown", S(z)); bp::scale(z, bp::anisotropic_scale_factor<double>(0.5, 1.5)); L.put("segment-scale", S(z)); bp::transform(z, bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); L.put("segment-transform", S(z)); bp::set(z, bp::LOW, p1); bp::high(z, p0); L.put("segment-set", S(z)); }
  // many segments
  std::vector<T> vs; std::list<T2> vu; int n = r.below(12), span = 2 + r.below(30); for (int i = 0; i < n; ++i) { C e[4]; for (auto& x : e) x = (C)r.range(-span, span); vs.push_back(bp::construct<T>(bp::construct<P>(e[0], e[1]), bp::construct<P>(e[2], e[3]))); vu.push_back(bp::construct<T2>(bp::construct<P2>(e[1], e[0]), bp::construct<P2>(e[3], e[2]))); }
  { std::vector<typename G::seg> out; bp::intersect_segments(out, vs.begin(), vs.end()); L.put("intersect_segments", S(out)); } { std::vector<T> out; bp::intersect_segments(out, vu.begin(), vu.end()); L.put("intersect_segments-list", S(out)); }
  { std::vector<std::pair<std::size_t, T2> > out; bp::intersect_segments(out, vs.begin(), vs.end()); std::string o; for (auto& e : out) o += std::to_string(e.first) + S(e.second); L.put("intersect_segments-indexed", o); }
  { typename F::rect box = bp::construct<typename F::rect>((C)0, (C)0, (C)0, (C)0); bool any = bp::envelope_segments(box, vu.begin(), vu.end()); L.b("envelope", any); if (any) L.put("envelope-rect", S(box)); }
}
template <class C> void prims(Ctx& c) { RUN3(primitives, 0) }
template <class C> void segs(Ctx& c) { RUN3(segments, 0) }
std::vector<Family> families() { return {{"primitives", prims<int>, 60000, 1500000}, {"primitives-i64", prims<long long>, 30000, 700000}, {"segments", segs<int>, 15000, 300000}, {"segments-i64", segs<long long>, 8000, 150000}}; }
#endif
#if PART == 1 || PART == 2 || PART == 4 || PART == 5
template <class T> void mkPts(T& t, const Ring& q) { typedef typename bp::polygon_traits<T>::coordinate_type C; auto v = toPts<C>(q); bp::set_points(t, v.begin(), v.end()); }
template <class T> void mkCompact(T& t, const Ring& q0) { typedef typename bp::polygon_traits<T>::coordinate_type C; Ring q = horizFirst(q0); std::vector<C> v; for (std::size_t i = 0; i < q.size(); ++i) v.push_back((C)(i & 1 ? q[i].y : q[i].x)); bp::set_compact(t, v.begin(), v.end()); }
template <class H, class T> void mkHoles(T& t, const Poly& p, void (*mk)(H&, const Ring&)) { std::list<H> hs; for (auto& h : p.holes) { hs.push_back(H()); mk(hs.back(), h); } bp::set_holes(t, hs.begin(), hs.end()); }
#endif
#if PART == 1
struct Case1 { Poly p, q; int dom; i64 lim; std::vector<P> pts; };  // dom 0: Manhattan, 1: 45 degree, 2: any
template <class F, class G, class T> void common(Rng& r, Log& L, const char* nm, const T& p, const Case1& k) {
  typedef typename bp::polygon_traits<T>::coordinate_type C; typedef typename G::point P2; typedef typename G::rect R2; (void)nm; C d = (C)r.range(-9, 9), e = (C)r.range(-9, 9);
  L.put("built", S(p)); L.num("area", bp::area(p)); L.num("perimeter", bp::perimeter(p)); L.num("size", bp::size(p)); if (bp::area(p) != 0) L.b("winding", bp::winding(p) == bp::COUNTERCLOCKWISE); { R2 b = bp::construct<R2>((C)0, (C)0, (C)0, (C)0); L.b("extents", bp::extents(b, p)); L.put("extents-rect", S(b)); } { P2 z = bp::construct<P2>((C)0, (C)0); L.b("center", bp::center(z, p)); L.put("center-point", S(z)); }
  { std::string o; for (auto it = bp::begin_points(p); it != bp::end_points(p); ++it) o += S(bp::point_data<C>(bp::x(*it), bp::y(*it))); L.put("points", o); }
  for (auto& w : k.pts) { bool t = r.below(2); L.b("contains", bp::contains(p, bp::construct<P2>((C)w.x, (C)w.y), t)); }
  { T z = p; bp::move(z, bp::HORIZONTAL, d); L.put("move", S(z)); bp::move(z, bp::VERTICAL, e); L.put("move-vertical", S(z)); bp::convolve(z, bp::construct<P2>(e, d)); L.put("convolve", S(z)); bp::scale_up(z, 3); L.put("scale_up", S(z)); }
  { T z = p; bp::axis_transformation a((bp::axis_transformation::ATR)r.below(8)); bp::transform(z, a); L.put("transform", S(z)); bp::transformation<C> tr(bp::construct<P2>(d, e)); bp::transform(z, tr); L.put("transform-shift", S(z)); }
}
template <class T> void scaled(Rng& r, Log& L, const T& p) { int f = 2 + r.below(3); double g = 0.25 * (1 + r.below(9)); { T z = p; bp::scale_down(z, f); L.put("scale_down", S(z)); } { T z = p; bp::scale(z, g); L.put("scale", S(z)); } }
template <class A, class B> void conv(Log& L, const char* n, const B& b) { A a; bp::assign(a, b); L.put(n, S(a)); }
// assigning to the library's polygons with holes needs holes that have begin() and end() themselves: recorded as a limitation in DESIGN.md
template <class A, class B, bool Skip> struct ConvH { static void go(Log& L, const char* n, const B& b) { conv<A>(L, n, b); } };
template <class A, class B> struct ConvH<A, B, true> { static void go(Log& L, const char* n, const B& b) {} };
template <class F, class G> struct Skip { enum { v = 0 }; }; template <class C> struct Skip<ut::FamU<C>, ut::FamL<C> > { enum { v = 1 }; };
template <class A, class F, class G, class B> void convh(Log& L, const char* n, const B& b) { if (Skip<F, G>::v) { L.put(n, "skip"); return; } ConvH<A, B, Skip<F, G>::v>::go(L, n, b); }
template <class F, class G> void polys(Rng& r, Log& L, const Case1& k) {
  typename F::poly g; mkPts(g, k.p.outer); typename F::polyh gh; mkPts(gh, k.p.outer); mkHoles<typename F::poly>(gh, k.p, mkPts<typename F::poly>);
  common<F, G>(r, L, "polygon", g, k); common<F, G>(r, L, "polygon-with-holes", gh, k); scaled(r, L, g); scaled(r, L, gh); L.b("is_45", bp::is_45(g)); L.b("is_45-holes", bp::is_45(gh)); L.num("size_holes", bp::size_holes(gh));
  conv<typename G::poly>(L, "assign-polygon", g); convh<typename G::polyh, F, G>(L, "assign-with-holes", gh); convh<typename G::polyh, F, G>(L, "assign-polygon-to-with-holes", g); conv<typename G::poly>(L, "view-outer", bp::view_as<bp::polygon_concept>(gh));
  if (k.dom <= 1) { typename F::poly45 f; mkPts(f, k.p.outer); typename F::poly45h fh; mkPts(fh, k.p.outer); mkHoles<typename F::poly45>(fh, k.p, mkPts<typename F::poly45>); common<F, G>(r, L, "polygon_45", f, k); common<F, G>(r, L, "polygon_45_with_holes", fh, k); scaled(r, L, f);
    conv<typename G::poly45>(L, "assign-45", f); convh<typename G::poly45h, F, G>(L, "assign-45-with-holes", fh); convh<typename G::poly45h, F, G>(L, "assign-45-to-with-holes", f); conv<typename G::poly>(L, "assign-45-to-polygon", f); convh<typename G::polyh, F, G>(L, "assign-45h-to-polygon-with-holes", fh); conv<typename G::poly45>(L, "view-45", bp::view_as<bp::polygon_45_concept>(g)); convh<typename G::poly45h, F, G>(L, "view-45-with-holes", bp::view_as<bp::polygon_45_with_holes_concept>(gh)); conv<typename G::poly45>(L, "view-45-outer", bp::view_as<bp::polygon_45_concept>(fh)); }
  if (k.dom == 0) { typename F::poly90 m; mkCompact(m, k.p.outer); typename F::poly90h mh; mkCompact(mh, k.p.outer); mkHoles<typename F::poly90>(mh, k.p, mkCompact<typename F::poly90>); common<F, G>(r, L, "polygon_90", m, k); common<F, G>(r, L, "polygon_90_with_holes", mh, k); scaled(r, L, m); scaled(r, L, mh);
    { std::string o; for (auto it = bp::begin_compact(m); it != bp::end_compact(m); ++it) o += s128(*it) + " "; L.put("compact", o); } { std::string o; for (auto it = bp::begin_compact(mh); it != bp::end_compact(mh); ++it) o += s128(*it) + " "; L.put("compact-with-holes", o); }
    conv<typename G::poly90>(L, "assign-90", m); convh<typename G::poly90h, F, G>(L, "assign-90-with-holes", mh); convh<typename G::poly90h, F, G>(L, "assign-90-to-with-holes", m); conv<typename G::poly45>(L, "assign-90-to-45", m); conv<typename G::poly>(L, "assign-90-to-polygon", m); convh<typename G::poly45h, F, G>(L, "assign-90h-to-45h", mh); convh<typename G::polyh, F, G>(L, "assign-90h-to-with-holes", mh); conv<typename G::poly90>(L, "view-90", bp::view_as<bp::polygon_90_concept>(g)); convh<typename G::poly90h, F, G>(L, "view-90-with-holes", bp::view_as<bp::polygon_90_with_holes_concept>(gh)); conv<typename G::poly90>(L, "view-90-outer", bp::view_as<bp::polygon_90_concept>(mh));
    if (k.p.outer.size() == 4) { conv<typename G::rect>(L, "view-rectangle", bp::view_as<bp::rectangle_concept>(g)); conv<typename G::rect>(L, "view-rectangle-90", bp::view_as<bp::rectangle_concept>(m)); } }
  { typedef typename bp::point_traits<typename F::point>::coordinate_type C; P a = k.pts[0], b = k.pts[1]; typename F::rect x = bp::construct<typename F::rect>((C)std::min(a.x, b.x), (C)std::min(a.y, b.y), (C)std::max(a.x, b.x), (C)std::max(a.y, b.y)); conv<typename G::poly>(L, "rectangle-to-polygon", x); conv<typename G::poly90>(L, "rectangle-to-90", x); conv<typename G::poly45>(L, "rectangle-to-45", x); convh<typename G::polyh, F, G>(L, "rectangle-to-with-holes", x); convh<typename G::poly90h, F, G>(L, "rectangle-to-90-with-holes", x); }
}
static Poly domPoly(Rng& r, int dom, i64& lim) {
  if (dom == 0) { lim = r.chance(1, 2) ? 12 : 1 << 20; std::vector<i64> xs = coordPool(r, 3 + r.below(5), -lim, lim), ys = coordPool(r, 3 + r.below(5), -lim, lim); Poly p = genPoly90(r, xs, ys, true, false); p.outer = horizFirst(p.outer); for (auto& h : p.holes) h = horizFirst(h); return p; }
  if (dom == 1) { Scene45 s = genScene45(r, false, -(1 << 24), 1 << 24); lim = 60; return genPoly45(r, s, true); }
  SceneG s = genSceneG(r, 1 << 27); lim = s.s; return genPolyG(r, s, true);
}
template <class C, int D> void poly1(Ctx& c) { Rng& r = c.rng; Case1 k; k.dom = D; k.p = domPoly(r, D, k.lim); if (k.p.outer.size() < 3) return; c.desc = str(k.p);
  std::vector<P> v = k.p.outer; for (auto& h : k.p.holes) v.insert(v.end(), h.begin(), h.end()); for (int i = 0; i < 8; ++i) { P a = v[r.below((int)v.size())], b = v[r.below((int)v.size())]; k.pts.push_back(r.chance(1, 3) ? a : r.chance(1, 2) ? P((a.x + b.x) / 2, (a.y + b.y) / 2) : P(a.x + r.range(-3, 3), b.y + r.range(-3, 3))); }
  RUN3(polys, k) }
std::vector<Family> families() { return {{"manhattan", poly1<int, 0>, 5000, 120000}, {"angle45", poly1<int, 1>, 3000, 80000}, {"general", poly1<int, 2>, 3000, 80000}, {"manhattan-i64", poly1<long long, 0>, 2000, 60000}, {"general-i64", poly1<long long, 2>, 1500, 40000}}; }
#endif
#if PART == 2 || PART == 4 || PART == 5
// set expressions over user polygons, results delivered into user containers
struct Case2 { std::vector<Item> a, b; i64 k; bool off; };
template <class T> std::string regions(const T& v) { return S(v); }
template <class F, class G> void set90(Rng& r, Log& L, const Case2& k) {
  typedef typename F::poly90h PH; typedef typename G::poly90h QH; typedef typename bp::point_traits<typename F::point>::coordinate_type C; typedef bp::polygon_90_set_data<C> DS; using namespace bp::operators;
  std::vector<PH> a; std::list<QH> b; for (auto& i : k.a) { a.push_back(PH()); mkCompact(a.back(), i.p.outer); mkHoles<typename F::poly90>(a.back(), i.p, mkCompact<typename F::poly90>); } for (auto& i : k.b) { b.push_back(QH()); mkCompact(b.back(), i.p.outer); mkHoles<typename G::poly90>(b.back(), i.p, mkCompact<typename G::poly90>); }
  int op = r.below(4), am = (int)r.range(1, 4); DS s; switch (op) { case 0: s = a + b; break; case 1: s = a * b; break; case 2: s = a - b; break; default: s = a ^ b; }
  { std::vector<QH> o; s.get(o); L.put("get-with-holes", S(o)); } { std::list<typename F::poly90> o; s.get(o); L.put("get-90", S(o)); } { std::vector<typename F::rect> o; s.get(o); L.put("get-rectangles", S(o)); } { std::vector<typename G::rect> o; bp::get_rectangles(o, a, bp::HORIZONTAL); L.put("get_rectangles-horizontal", S(o)); } { std::vector<typename F::rect> o; bp::get_max_rectangles(o, b); std::vector<std::string> v; for (auto& e : o) v.push_back(S(e)); std::sort(v.begin(), v.end()); std::string z; for (auto& e : v) z += e; L.put("max-rectangles", z); } { std::vector<typename F::poly45> o; s.get(o); L.put("get-45", S(o)); } { std::vector<typename F::polyh> o; s.get(o); L.put("get-polygon-with-holes", S(o)); } { std::list<typename F::poly45h> o; s.get(o); L.put("get-45-with-holes", S(o)); } { std::vector<typename F::poly> o; s.get(o); L.put("get-polygon", S(o)); }
  { std::vector<PH> o; bp::assign(o, a | b); L.put("assign-expression", S(o)); o -= b; L.put("minus-assign", S(o)); o ^= a; L.put("xor-assign", S(o)); o += b; L.put("plus-assign", S(o)); o &= a; L.put("and-assign", S(o)); o += (C)am; L.put("bloat-assign", S(o)); o -= (C)am; L.put("shrink-assign", S(o)); bp::self_xor(o); L.put("self_xor", S(o)); bp::self_intersect(o); L.put("self_intersect", S(o)); }
  { std::vector<PH> o(a); bp::interact(o, b); L.put("interact", S(o)); } { std::vector<PH> o(a); bp::keep(o, (C)0, (C)50, (C)0, (C)10, (C)0, (C)1000); L.put("keep", S(o)); } { std::vector<PH> o(a); bp::grow_and(o, (C)am); L.put("grow_and", S(o)); } { std::vector<PH> o(a); bp::scale_up(o, 2); L.put("scale_up", S(o)); bp::move(o, (C)3, (C)-4); L.put("move", S(o)); bp::axis_transformation t((bp::axis_transformation::ATR)r.below(8)); bp::transform(o, t); L.put("transform", S(o)); bp::scale_down(o, 3); L.put("scale_down", S(o)); bp::bloat(o, (C)1, (C)2, (C)3, (C)0); L.put("bloat", S(o)); bp::shrink(o, (C)1, (C)0, (C)2, (C)1); L.put("shrink", S(o)); }
  L.num("area", bp::area(a)); L.b("equivalence", bp::equivalence(a, b)); L.b("equivalence-self", bp::equivalence(a, a + a)); { typename F::rect x = bp::construct<typename F::rect>((C)0, (C)0, (C)0, (C)0); if (bp::extents(x, b)) L.put("extents", S(x)); } L.b("empty", bp::empty(b));
  // a rectangle and a single polygon are sets too
  if (!a.empty() && !b.empty()) { typename F::rect x; bp::extents(x, a[0]); { std::vector<typename G::rect> o; bp::get_rectangles(o, x - b.front()); L.put("rectangle-minus-polygon", S(o)); } { DS o; bp::assign(o, x * a); std::vector<QH> v; o.get(v); L.put("rectangle-times-set", S(v)); } }
  // property merge and connectivity
  { bp::property_merge_90<C, int> m; m.insert(a.empty() ? PH() : a[0], 1); DS t; bp::assign(t, b); m.insert(t, 2); std::map<std::set<int>, DS> res; m.merge(res); for (auto& e : res) { std::vector<PH> o; e.second.get(o); L.put("property-merge", std::to_string(e.first.size()) + S(o)); } }
  { bp::connectivity_extraction_90<C> ce; for (auto& p : a) ce.insert(p); for (auto& p : b) ce.insert(p); std::vector<std::set<int> > gr(a.size() + b.size()); ce.extract(gr); std::string o; for (auto& g : gr) { for (int e : g) o += std::to_string(e) + ","; o += ";"; } L.put("connectivity", o); }
}
// a polygon set type that is not a container: compared by region
template <class C> void user90(Ctx& c, const Case2& k) {
  using namespace bp::operators; typedef ut::USet<ut::UPoly90H<C> > U; typedef bp::polygon_90_set_data<C> S0; S0 a, b; for (auto& i : k.a) a.insert(to90h<C>(i.p)); for (auto& i : k.b) b.insert(to90h<C>(i.p)); U ua, ub; bp::assign(ua, a); bp::assign(ub, b); u64 n = 0; auto same = [&](const char* w, const U& u, const S0& s) { ++n; S0 t; bp::assign(t, u); if (!bp::equivalence(t, s)) { S0 q = t ^ s; c.fail(std::string("set90-") + w, std::string(w) + " on a user polygon set differs from the library set over an area of " + s128((i128)bp::area(q))); } };
  same("assign", ua, a); { U u; bp::assign(u, ua + ub); same("or", u, S0(a + b)); } { U u; bp::assign(u, ua * b); same("and", u, S0(a * b)); } { U u; bp::assign(u, a - ub); same("minus", u, S0(a - b)); } { U u = ua; u ^= ub; same("xor-assign", u, S0(a ^ b)); } { U u = ua; u -= ub; same("minus-assign", u, S0(a - b)); } { U u = ua; u *= ub; same("and-assign", u, S0(a * b)); } { U u = ua; u += 2; S0 s = a; s += 2; same("bloat-assign", u, s); u -= 3; s -= 3; same("shrink-assign", u, s); }
  { U u = ua; bp::interact(u, ub); S0 s = a; bp::interact(s, b); same("interact", u, s); } { U u = ua; bp::self_intersect(u); if (!bp::empty(u)) c.fail("set90-self_intersect", "the disjoint polygons of a cleaned user set intersect themselves"); } { U u = ua; bp::move(u, (C)5, (C)-2); S0 s = a; bp::move(s, (C)5, (C)-2); same("move", u, s); bp::axis_transformation t((bp::axis_transformation::ATR)c.rng.below(8)); bp::transform(u, t); bp::transform(s, t); same("transform", u, s); bp::scale_up(u, 3); bp::scale_up(s, 3); same("scale_up", u, s); } { U u = ua; bp::grow_and(u, (C)2); S0 s = a; bp::grow_and(s, (C)2); same("grow_and", u, s); } { U u = ua; bp::keep(u, (C)2, (C)90, (C)0, (C)9, (C)0, (C)9); S0 s = a; bp::keep(s, (C)2, (C)90, (C)0, (C)9, (C)0, (C)9); same("keep", u, s); }
  if (bp::area(ua) != bp::area(a)) c.fail("set90-area", "area of a user polygon set differs"); if (bp::empty(ua) != (bp::area(a) == 0)) c.fail("set90-empty", "empty() of a user polygon set is wrong"); if (bp::equivalence(ua, ub) != bp::equivalence(a, b)) c.fail("set90-equivalence", "equivalence of user polygon sets differs"); if (bp::equivalence(ua, b) != bp::equivalence(a, b)) c.fail("set90-equivalence", "equivalence of a user polygon set and a library set differs"); { bp::rectangle_data<C> x(0, 0, 0, 0), y(0, 0, 0, 0); bool p = bp::extents(x, ua), q = bp::extents(y, a); if (p != q || (p && x != y)) c.fail("set90-extents", "extents of a user polygon set differ"); } { std::vector<bp::rectangle_data<C> > x, y; bp::get_rectangles(x, ua); bp::get_rectangles(y, a); if (x != y) c.fail("set90-get_rectangles", "get_rectangles of a user polygon set differs"); x.clear(); y.clear(); bp::get_max_rectangles(x, ua); bp::get_max_rectangles(y, a); auto lt = [](const bp::rectangle_data<C>& p, const bp::rectangle_data<C>& q) { return ut::S(p) < ut::S(q); }; std::sort(x.begin(), x.end(), lt); std::sort(y.begin(), y.end(), lt); if (x != y) c.fail("set90-get_max_rectangles", "get_max_rectangles of a user polygon set gives " + std::to_string(x.size()) + " rectangles that differ from the " + std::to_string(y.size()) + " of the library set"); }
  c.count("user-set-operations", n + 6); { U u = ua; bp::clear(u); if (!bp::empty(u)) c.fail("set90-clear", "clear leaves a user polygon set with content"); }
}
template <class F, class G> void set45(Rng& r, Log& L, const Case2& k) {
  typedef typename F::poly45h PH; typedef typename G::poly45h QH; typedef typename bp::point_traits<typename F::point>::coordinate_type C; typedef bp::polygon_45_set_data<C> DS; using namespace bp::operators;
  std::vector<PH> a; std::list<QH> b; for (auto& i : k.a) { a.push_back(PH()); mkPts(a.back(), i.p.outer); mkHoles<typename F::poly45>(a.back(), i.p, mkPts<typename F::poly45>); } for (auto& i : k.b) { b.push_back(QH()); mkPts(b.back(), i.p.outer); mkHoles<typename G::poly45>(b.back(), i.p, mkPts<typename G::poly45>); }
  int op = r.below(4); DS s; switch (op) { case 0: s = a + b; break; case 1: s = a * b; break; case 2: s = a - b; break; default: s = a ^ b; }
  { std::vector<QH> o; s.get(o); L.put("get45-with-holes", S(o)); } { std::vector<typename F::poly45> o; s.get(o); L.put("get45-polygon_45", S(o)); } { std::vector<typename F::polyh> o; s.get(o); L.put("get45-polygon-with-holes", S(o)); } { std::vector<typename G::poly> o; s.get(o); L.put("get45-polygon", S(o)); } { std::vector<typename F::poly45> o; s.get_trapezoids(o); L.put("get45_trapezoids", S(o)); }
  { std::vector<PH> o; bp::assign(o, a | b); L.put("assign45-expression", S(o)); o -= b; L.put("minus45-assign", S(o)); o ^= a; L.put("xor45-assign", S(o)); o += b; L.put("plus45-assign", S(o)); o &= a; L.put("and45-assign", S(o)); } { std::vector<PH> o(a); bp::self_intersect(o); L.put("self_intersect45", S(o)); } { std::vector<PH> o(a); bp::self_xor(o); L.put("self_xor45", S(o)); } { std::vector<PH> o(a); bp::resize(o, (C)2); L.put("resize45", S(o)); bp::scale_up(o, 2); L.put("scale_up45", S(o)); bp::transform(o, bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); L.put("transform45", S(o)); bp::scale_down(o, 3); L.put("scale_down45", S(o)); } { std::vector<PH> o(a); o += (C)2; L.put("bloat45-assign", S(o)); o -= (C)2; L.put("shrink45-assign", S(o)); }
  { std::vector<PH> o(a); bp::keep(o, (C)0, (C)900, (C)0, (C)20, (C)0, (C)20); L.put("keep45", S(o)); } L.num("area45", bp::area(a)); L.num("perimeter45", 0); L.b("equivalence45", bp::equivalence(a, b)); { typename F::rect x = bp::construct<typename F::rect>((C)0, (C)0, (C)0, (C)0); if (bp::extents(x, a)) L.put("extents45", S(x)); } L.b("empty45", bp::empty(b));
  { bp::property_merge_45<C, int> m; m.insert(a, 1); m.insert(b, 2); std::map<std::set<int>, DS> res; m.merge(res); for (auto& e : res) { std::vector<PH> o; e.second.get(o); L.put("property-merge45", std::to_string(e.first.size()) + S(o)); } } { bp::connectivity_extraction_45<C> ce; for (auto& p : a) ce.insert(p); for (auto& p : b) ce.insert(p); std::vector<std::set<int> > gr(a.size() + b.size()); ce.extract(gr); std::string o; for (auto& g : gr) { for (int e : g) o += std::to_string(e) + ","; o += ";"; } L.put("connectivity45", o); }
}
template <class C> void user45(Ctx& c, const Case2& k) {
  using namespace bp::operators; typedef ut::USet<ut::UPolyH<C, bp::polygon_45_concept> > U; typedef bp::polygon_45_set_data<C> S0; S0 a, b; for (auto& i : k.a) a.insert(to45h<C>(i.p)); for (auto& i : k.b) b.insert(to45h<C>(i.p)); U ua, ub; bp::assign(ua, a); bp::assign(ub, b); u64 n = 0; auto same = [&](const char* w, const U& u, const S0& s) { ++n; S0 t; bp::assign(t, u); if (!bp::equivalence(t, s)) { S0 q = t ^ s; c.fail(std::string("set45-") + w, std::string(w) + " on a user polygon set differs from the library set over an area of " + std::to_string((double)bp::area(q))); } };
  same("assign", ua, a); { U u; bp::assign(u, ua + ub); same("or", u, S0(a + b)); } { U u; bp::assign(u, ua * b); same("and", u, S0(a * b)); } { U u; bp::assign(u, a - ub); same("minus", u, S0(a - b)); } { U u = ua; u ^= ub; same("xor-assign", u, S0(a ^ b)); } { U u = ua; u -= ub; same("minus-assign", u, S0(a - b)); } { U u = ua; bp::transform(u, bp::axis_transformation((bp::axis_transformation::ATR)4)); S0 s = a; bp::transform(s, bp::axis_transformation((bp::axis_transformation::ATR)4)); same("transform", u, s); bp::scale_up(u, 3); bp::scale_up(s, 3); same("scale_up", u, s); }
  if (bp::area(ua) != bp::area(a)) c.fail("set45-area", "area of a user polygon set differs"); if (bp::empty(ua) != (bp::area(a) == 0)) c.fail("set45-empty", "empty() of a user polygon set is wrong"); if (bp::equivalence(ua, ub) != bp::equivalence(a, b)) c.fail("set45-equivalence", "equivalence of user polygon sets differs"); c.count("user-set-operations", n + 3); { U u = ua; bp::clear(u); if (!bp::empty(u)) c.fail("set45-clear", "clear leaves a user polygon set with content"); }
}
template <class F, class G> void setG(Rng& r, Log& L, const Case2& k) {
  typedef typename F::polyh PH; typedef typename G::polyh QH; typedef typename bp::point_traits<typename F::point>::coordinate_type C; typedef bp::polygon_set_data<C> DS; using namespace bp::operators;
  std::vector<PH> a; std::list<QH> b; for (auto& i : k.a) { a.push_back(PH()); mkPts(a.back(), i.p.outer); mkHoles<typename F::poly>(a.back(), i.p, mkPts<typename F::poly>); } for (auto& i : k.b) { b.push_back(QH()); mkPts(b.back(), i.p.outer); mkHoles<typename G::poly>(b.back(), i.p, mkPts<typename G::poly>); }
  int op = r.below(4); DS s; switch (op) { case 0: s = a + b; break; case 1: s = a * b; break; case 2: s = a - b; break; default: s = a ^ b; }
  { std::vector<QH> o; s.get(o); L.put("getG-with-holes", S(o)); } { std::list<typename F::poly> o; s.get(o); L.put("getG-polygon", S(o)); } { std::vector<typename G::poly> o; s.get_trapezoids(o); L.put("getG_trapezoids", S(o)); }
  { std::vector<PH> o; bp::assign(o, a | b); L.put("assignG-expression", S(o)); o -= b; L.put("minusG-assign", S(o)); o ^= a; L.put("xorG-assign", S(o)); o += b; L.put("plusG-assign", S(o)); o &= a; L.put("andG-assign", S(o)); } { std::vector<PH> o(a); bp::scale_up(o, 2); L.put("scale_upG", S(o)); bp::transform(o, bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); L.put("transformG", S(o)); bp::scale_down(o, 3); L.put("scale_downG", S(o)); } { std::vector<PH> o(a); bp::keep(o, (C)0, (C)900, (C)0, (C)40, (C)0, (C)40); L.put("keepG", S(o)); }
  L.num("areaG", bp::area(a)); L.b("equivalenceG", bp::equivalence(a, b)); { typename F::rect x = bp::construct<typename F::rect>((C)0, (C)0, (C)0, (C)0); if (bp::extents(x, a)) L.put("extentsG", S(x)); } L.b("emptyG", bp::empty(b));
  { bp::property_merge<C, int> m; for (auto& p : a) m.insert(p, 1); for (auto& p : b) m.insert(p, 2); std::map<std::set<int>, DS> res; m.merge(res); for (auto& e : res) { std::vector<PH> o; e.second.get(o); L.put("property-mergeG", std::to_string(e.first.size()) + S(o)); } } { bp::connectivity_extraction<C> ce; for (auto& p : a) ce.insert(p); for (auto& p : b) ce.insert(p); std::vector<std::set<int> > gr(a.size() + b.size()); ce.extract(gr); std::string o; for (auto& g : gr) { for (int e : g) o += std::to_string(e) + ","; o += ";"; } L.put("connectivityG", o); }
  // the user set type goes through the same steps as a container of library polygons
}
template <class U> void setGops(Rng& r, Log& L, const Case2& k, U*) {
  typedef int C; using namespace bp::operators; bp::polygon_set_data<C> a, b; for (auto& i : k.a) a.insert(toGenh<C>(i.p)); for (auto& i : k.b) b.insert(toGenh<C>(i.p)); U ua, ub; bp::assign(ua, a); bp::assign(ub, b); L.put("setG-assign", S(ua)); { U u; bp::assign(u, ua + ub); L.put("setG-or", S(u)); } { U u; bp::assign(u, ua * b); L.put("setG-and", S(u)); } { U u; bp::assign(u, a - ub); L.put("setG-minus", S(u)); } { U u = ua; u ^= ub; L.put("setG-xor-assign", S(u)); u -= ub; L.put("setG-minus-assign", S(u)); u += ub; L.put("setG-plus-assign", S(u)); u *= ua; L.put("setG-and-assign", S(u)); } L.num("setG-area", bp::area(ua)); L.b("setG-equivalence", bp::equivalence(ua, ub)); L.b("setG-equivalence2", bp::equivalence(ua, a)); L.b("setG-empty", bp::empty(ua)); { bp::rectangle_data<C> x(0, 0, 0, 0); if (bp::extents(x, ua)) L.put("setG-extents", S(x)); } { U u = ua; bp::transform(u, bp::axis_transformation((bp::axis_transformation::ATR)r.below(8))); L.put("setG-transform", S(u)); bp::scale_up(u, 2); L.put("setG-scale_up", S(u)); bp::scale_down(u, 3); L.put("setG-scale_down", S(u)); } { U u = ua; bp::clear(u); L.b("setG-clear", bp::empty(u)); L.put("setG-clear-set", S(u)); }
}
static void pick(Rng& r, const Items& v, Case2& k) { for (auto& i : v) (r.below(2) ? k.a : k.b).push_back(i); }
template <class C> void s90(Ctx& c) { Rng& r = c.rng; Range q = pickRange(r, -(1 << 20), 1 << 20, true); q.lo = std::max<i64>(q.lo, -(1 << 20)); q.hi = std::min<i64>(q.hi, 1 << 20); if (q.hi - q.lo < 8) q.hi = q.lo + 8; Scene sc = genScene(r, q, 8); Case2 k; Items v = genItems(r, sc, 6, true, false, false); pick(r, v, k); c.desc = "A=" + strv(k.a) + " B=" + strv(k.b); for (auto* z : {&k.a, &k.b}) for (auto& i : *z) { i.p.outer = horizFirst(i.p.outer); for (auto& h : i.p.holes) h = horizFirst(h); } RUN3(set90, k) user90<C>(c, k); }
template <class C> void s45(Ctx& c) { Rng& r = c.rng; Scene45 s = genScene45(r, false, -(1 << 24), 1 << 24); Case2 k; Items v = genItems45(r, s, 5, true, false); pick(r, v, k); c.desc = "A=" + strv(k.a) + " B=" + strv(k.b); RUN3(set45, k) Case2 k2 = k; user45<C>(c, k2); }
template <class C> void sG(Ctx& c) { Rng& r = c.rng; SceneG s = genSceneG(r, 1 << 27); Case2 k; Items v = genItemsG(r, s, 5, true, false); pick(r, v, k); c.desc = "A=" + strv(k.a) + " B=" + strv(k.b); RUN3(setG, k) if (sizeof(C) == 4) { Log a, b; Rng r0(r.next()), r1 = r0; setGops(r0, a, k, (std::vector<bp::polygon_with_holes_data<int> >*)0); setGops(r1, b, k, (ut::USet<ut::UPolyH<int, bp::polygon_concept> >*)0); u64 ops = 0; diff(c, "userset", a, b, ops); c.count("user-set-operations", ops); } }
#ifdef I64
#define FAMILY(NM, FN, Q, T) {{NM "-i64", FN<long long>, Q / 3, T / 3}}
#else
#define FAMILY(NM, FN, Q, T) {{NM, FN<int>, Q, T}}
#endif
#if PART == 2
std::vector<Family> families() { return FAMILY("set90", s90, 900, 25000); }
#elif PART == 4
std::vector<Family> families() { return FAMILY("set45", s45, 500, 15000); }
#else
std::vector<Family> families() { return FAMILY("setG", sG, 500, 15000); }
#endif
#endif
#if PART == 3
template <class P, class SG> void vorRun(Log& L, const std::vector<P>& pts, const std::vector<SG>& segs, int how) {
  bp::voronoi_diagram<double> vd; if (how == 0) bp::construct_voronoi(pts.begin(), pts.end(), segs.begin(), segs.end(), &vd); else { bp::default_voronoi_builder vb; std::string idx; std::list<P> lp(pts.begin(), pts.end()); std::list<SG> ls(segs.begin(), segs.end()); if (how == 1) { bp::insert(lp.begin(), lp.end(), &vb); bp::insert(ls.begin(), ls.end(), &vb); } else { for (auto& p : pts) idx += std::to_string(bp::insert(p, &vb)) + " "; for (auto& s : segs) idx += std::to_string(bp::insert(s, &vb)) + " "; } vb.construct(&vd); }
  L.num("cells", vd.num_cells()); L.num("edges", vd.num_edges()); L.num("vertices", vd.num_vertices()); for (auto& v : vd.vertices()) { L.num("vertex-x", v.x()); L.num("vertex-y", v.y()); } for (auto& e : vd.cells()) { L.num("cell-source", e.source_index()); L.num("cell-category", e.source_category()); L.b("cell-degenerate", e.is_degenerate()); } std::string o; for (auto& e : vd.edges()) { o += e.is_primary() ? 'p' : 's'; o += e.is_linear() ? 'l' : 'c'; o += e.is_finite() ? 'f' : 'i'; o += std::to_string(e.next() - &vd.edges()[0]) + "," + std::to_string(e.cell() - &vd.cells()[0]) + " "; } L.put("edge-structure", o);
}
template <class F, class G> void vor3(Rng& r, Log& L, int) {
  typedef typename F::point P; typedef typename G::seg SG; typedef typename G::point P2; int how = r.below(3), n = r.below(14), m = r.below(8), span = r.chance(1, 2) ? 6 + r.below(30) : 1 << (8 + r.below(22)); std::vector<P> pts; for (int i = 0; i < n; ++i) { int x = (int)r.range(-span, span), y = (int)r.range(-span, span); pts.push_back(bp::construct<P>(x, y)); }
  // segments are split against each other first, as the documentation recommends
  std::vector<SG> raw, segs; int lim = std::min(span, 1 << 20); for (int i = 0; i < m; ++i) { int e[4]; for (auto& x : e) x = (int)r.range(-lim, lim); if (e[0] != e[2] || e[1] != e[3]) raw.push_back(bp::construct<SG>(bp::construct<P2>(e[0], e[1]), bp::construct<P2>(e[2], e[3]))); } if (m < 2) segs = raw; else bp::intersect_segments(segs, raw.begin(), raw.end());
  { std::vector<P> keep; for (auto& p : pts) { bool on = false; for (auto& s : segs) if (bp::contains(s, p)) on = true; if (!on) keep.push_back(p); } pts.swap(keep); } L.num("sites", (long double)(pts.size() + segs.size())); vorRun(L, pts, segs, how);
}
void vor(Ctx& c) { typedef int C; RUN3(vor3, 0) }
std::vector<Family> families() { return {{"voronoi", vor, 6000, 150000}}; }
#endif
}
VF_MAIN()
