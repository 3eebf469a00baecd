// P12: measures, predicates and mutators of every built-in polygon type against exact geometry.
#include "scene45.hpp"
#include "sceneg.hpp"
namespace vf {
typedef boost::polygon::axis_transformation AT;
template <class T> struct Kind;
#define K(TY, H, D) template <class C> struct Kind<bp::TY<C> > { enum { holes = H, dom = D }; typedef C coord; };
K(polygon_90_data, 0, 0) K(polygon_90_with_holes_data, 1, 0) K(polygon_45_data, 0, 1) K(polygon_45_with_holes_data, 1, 1) K(polygon_data, 0, 2) K(polygon_with_holes_data, 1, 2)
template <class T, bool h = Kind<T>::holes> struct Mk { static T make(const Poly& p, int how) { T t; auto v = toPts<typename Kind<T>::coord>(p.outer); if (how & 1) bp::set_points(t, v.begin(), v.end()); else t.set(v.begin(), v.end()); return t; }
  static Poly read(const T& t) { return fromS(t); } };
template <class T> struct Mk<T, true> { static T make(const Poly& p, int how) { typedef typename bp::polygon_with_holes_traits<T>::hole_type Hl; T t; auto v = toPts<typename Kind<T>::coord>(p.outer);
    if (how & 2) { std::vector<Hl> junk(2); t.set_holes(junk.begin(), junk.end()); }
    if (how & 1) bp::set_points(t, v.begin(), v.end()); else t.set(v.begin(), v.end());
    std::vector<Hl> hs; for (auto& h : p.holes) { Hl x; auto w = toPts<typename Kind<T>::coord>(h); x.set(w.begin(), w.end()); hs.push_back(x); }
    if (how & 1) bp::set_holes(t, hs.begin(), hs.end()); else t.set_holes(hs.begin(), hs.end()); return t; }
  static Poly read(const T& t) { return fromH(t); } };
// the same cyclic sequence; a ring may visit its smallest vertex more than once, so all rotations are tried
static bool sameRing(Ring a, Ring b) { if (a.size() > 1 && a.front() == a.back()) a.pop_back(); if (b.size() > 1 && b.front() == b.back()) b.pop_back(); if (a.size() != b.size()) return false; if (a.empty() || a == b) return true; for (size_t k = 1; k < a.size(); ++k) { rotateRing(b, 1); if (a == b) return true; } return false; }
static bool samePoly(const Poly& a, const Poly& b, bool exact) {
  if (a.holes.size() != b.holes.size()) return false;
  if (exact) { if (a.outer != b.outer) return false; for (size_t i = 0; i < a.holes.size(); ++i) if (a.holes[i] != b.holes[i]) return false; return true; }
  // a ring that collapsed under scaling may come back without its repeated vertices
  auto squash = [](Ring r) { for (size_t i = 0; i < r.size() && r.size() > 1;) if (r[i] == r[(i + 1) % r.size()]) r.erase(r.begin() + i); else ++i; return r; };
  if (!sameRing(squash(a.outer), squash(b.outer))) return false;
  for (size_t i = 0; i < a.holes.size(); ++i) if (!sameRing(squash(a.holes[i]), squash(b.holes[i]))) return false;
  return true;
}
static int side(P p, const Ring& r) { // 1 strictly inside, 0 on boundary, -1 outside (parity)
  bool in = false;
  for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; if (a == b) { if (p == a) return 0; continue; }
    i128 cr = (i128)(b.x - a.x) * (p.y - a.y) - (i128)(b.y - a.y) * (p.x - a.x);
    if (cr == 0 && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) && p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y)) return 0;
    if ((a.y > p.y) != (b.y > p.y)) { bool left = a.y < b.y ? cr > 0 : cr < 0; if (left) in = !in; } }
  return in ? 1 : -1;
}
static bool covers(P p, const Poly& q, bool touch) { int s = side(p, q.outer); if (s < 0) return false; if (s == 0) return touch; for (auto& h : q.holes) { int t = side(p, h); if (t > 0) return false; if (t == 0) return touch; } return true; }
static i128 absArea2(const Ring& r) { i128 a = area2(r); return a < 0 ? -a : a; }
static long double edges(const Ring& r) { long double s = 0; for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; long double dx = (long double)a.x - b.x, dy = (long double)a.y - b.y; s += dx == 0 ? fabsl(dy) : dy == 0 ? fabsl(dx) : sqrtl(dx * dx + dy * dy); } return s; }
static Poly mapped(Poly p, const std::function<P(P)>& f) { mapPoly(p, f); return p; }
static i64 rnd(double v) { return (i64)floor(v + 0.5); }
static bool near45(const Poly& a, const Poly& b, i64 tol) { // same vertex counts, every vertex moved by at most tol
  if (a.holes.size() != b.holes.size() || a.outer.size() != b.outer.size()) return false;
  auto f = [&](const Ring& x, const Ring& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (std::llabs(x[i].x - y[i].x) > tol || std::llabs(x[i].y - y[i].y) > tol) return false; return true; };
  if (!f(a.outer, b.outer)) return false; for (size_t i = 0; i < a.holes.size(); ++i) if (!f(a.holes[i], b.holes[i])) return false; return true;
}
static bool poly45(const Poly& p) { if (!is45Ring(p.outer)) return false; for (auto& h : p.holes) if (!is45Ring(h)) return false; return true; }
// exact: 1 when coordinates and areas are small enough for the reported measure to be exact
template <class T> void measures(Ctx& c, const T& t, const Poly& p, const char* nm, bool bigArea) {
  typedef typename Kind<T>::coord C; std::string k = std::string(nm) + ":";
  i64 xl = p.outer[0].x, xh = xl, yl = p.outer[0].y, yh = yl; size_t nv = p.outer.size(); for (auto& q : p.outer) { xl = std::min(xl, q.x); xh = std::max(xh, q.x); yl = std::min(yl, q.y); yh = std::max(yh, q.y); } for (auto& h : p.holes) nv += h.size();
  bp::rectangle_data<C> b(5, 6, 7, 8); bool e = bp::extents(b, t); if (!e || bp::xl(b) != xl || bp::xh(b) != xh || bp::yl(b) != yl || bp::yh(b) != yh) c.fail(k + "extents", "wrong bounding box");
  i64 lim = (i64)(std::numeric_limits<C>::max() / 2); if (xl > -lim && xh < lim && yl > -lim && yh < lim) { bp::point_data<C> ct; bp::center(ct, t); if (std::llabs(2 * (i64)bp::x(ct) - xl - xh) > 1 || std::llabs(2 * (i64)bp::y(ct) - yl - yh) > 1) c.fail(k + "center", "centre is " + str(fromPt(ct))); else c.count("centres"); }
  if (bp::size(t) != p.outer.size()) c.fail(k + "size", "size " + std::to_string(bp::size(t)));
  i128 a2 = area2(p.outer); if (a2 != 0) { bp::direction_1d w = bp::winding(t); if (bigArea || std::max(xh - xl, yh - yl) < (1LL << 31)) { if ((w == bp::COUNTERCLOCKWISE) != (a2 > 0)) c.fail(k + "winding", "wrong winding direction"); else c.count("windings"); } }
  if (bigArea) {
    i128 ex = absArea2(p.outer); i128 tot = ex; for (auto& h : p.holes) { ex -= absArea2(h); tot += absArea2(h); }
    long double got = (long double)bp::area(t), want = (long double)ex / 2; double ext = (double)std::max(xh - xl, yh - yl) + 1;
    long double tol = Kind<T>::dom == 0 ? 0 : (ext * ext * 4 < 9e15 ? 0 : ext * ext * 4 * nv * 2.3e-16L);
    if (fabsl(got - want) > tol) c.fail(k + "area", "area " + std::to_string((double)got) + " instead of " + std::to_string((double)want)); else c.count("areas");
    long double wp = edges(p.outer); for (auto& h : p.holes) wp += edges(h); long double gp = (long double)bp::perimeter(t); long double pt = Kind<T>::dom == 0 ? 0 : (wp + 1) * nv * 1e-15L;
    if (fabsl(gp - wp) > pt) c.fail(k + "perimeter", "perimeter " + std::to_string((double)gp) + " instead of " + std::to_string((double)wp)); else c.count("perimeters");
  }
}
template <class T> void pointsIn(Ctx& c, const T& t, const Poly& p, const char* nm, i64 lo, i64 hi) {
  typedef typename Kind<T>::coord C; Rng& r = c.rng; std::vector<P> v(p.outer); for (auto& h : p.holes) v.insert(v.end(), h.begin(), h.end()); if (v.size() > 60) v.resize(60); size_t nv = v.size(); std::vector<P> q;
  for (int i = 0; i < 30; ++i) { P a = v[r.below((int)nv)], b = v[r.below((int)nv)], d = v[r.below((int)nv)]; P z;
    switch (r.below(6)) { case 0: z = a; break; case 1: z = P(a.x, b.y); break; case 2: z = P((a.x + b.x) / 2, (a.y + b.y) / 2); break; case 3: z = P((a.x + b.x + d.x) / 3, (a.y + b.y + d.y) / 3); break; case 4: { size_t i2 = r.below((int)p.outer.size()); P e = p.outer[i2], f = p.outer[(i2 + 1) % p.outer.size()]; i64 n = r.range(1, 8), m = r.range(0, n); z = P(e.x + (f.x - e.x) / n * m, e.y + (f.y - e.y) / n * m); break; } default: z = P(r.chance(1, 2) ? a.x : (b.x + d.x) / 2, (a.y + d.y) / 2); }
    if (r.chance(1, 3)) { z.x += r.range(-1, 1); z.y += r.range(-1, 1); }
    if (z.x < lo) z.x = lo; if (z.x > hi) z.x = hi; if (z.y < lo) z.y = lo; if (z.y > hi) z.y = hi; q.push_back(z); }
  for (auto& z : q) { bp::point_data<C> pt((C)z.x, (C)z.y); bool t1 = covers(z, p, true), t0 = covers(z, p, false);
    if (bp::contains(t, pt) != t1 || bp::contains(t, pt, true) != t1) { c.fail(std::string(nm) + ":contains-touch", "point " + str(z) + (t1 ? " is covered" : " is not covered")); break; }
    if (bp::contains(t, pt, false) != t0) { c.fail(std::string(nm) + ":contains-strict", "point " + str(z) + (t0 ? " is strictly inside" : " is not strictly inside")); break; }
    c.count("points located"); if (t0 != t1) c.count("points on boundaries"); if (t0) c.count("points inside"); }
}
template <class T> void mutators(Ctx& c, const T& t, const Poly& p, const char* nm, i64 m) { // m: largest absolute coordinate
  typedef typename Kind<T>::coord C; Rng& r = c.rng; typedef Mk<T> M; bool ex = Kind<T>::dom != 0; std::string k = std::string(nm) + ":"; i64 cap = sizeof(C) > 4 ? (1LL << 50) : 2147483647LL; i64 room = cap - m; if (room < 0) return;
  auto judge = [&](const char* what, const T& got, const Poly& want) { Poly g = M::read(got); if (!samePoly(g, want, ex)) c.fail(k + what, std::string(what) + " gives " + str(g) + " instead of " + str(want)); else c.count("mutations"); };
  i64 dx = r.range(-std::min<i64>(room, 1000000), std::min<i64>(room, 1000000)), dy = r.range(-room, room);
  { T u(t); bp::move(u, bp::HORIZONTAL, (C)dx); judge("move-h", u, mapped(p, [&](P q) { return P(q.x + dx, q.y); })); }
  { T u(t); bp::move(u, bp::VERTICAL, (C)dy); judge("move-v", u, mapped(p, [&](P q) { return P(q.x, q.y + dy); })); }
  { T u(t); bp::convolve(u, bp::point_data<C>((C)dx, (C)dy)); judge("convolve", u, mapped(p, [&](P q) { return P(q.x + dx, q.y + dy); })); }
  { int s = r.below(8); T u(t); AT a((AT::ATR)s); bp::transform(u, a); 
    bp::point_data<C> ex1(1, 0), ey1(0, 1); bp::transform(ex1, a); bp::transform(ey1, a); i64 a11 = ex1.x(), a21 = ex1.y(), a12 = ey1.x(), a22 = ey1.y(); if (std::llabs(a11 * a22 - a12 * a21) != 1) c.fail(k + "atr", "not a symmetry");
    judge("transform", u, mapped(p, [&](P q) { return P(a11 * q.x + a12 * q.y, a21 * q.x + a22 * q.y); })); }
  if (room > 0) { bp::transformation<C> tr(bp::point_data<C>((C)std::min<i64>(room, 77), (C)-std::min<i64>(room, 1234))); T u(t); bp::transform(u, tr); bp::point_data<C> o(0, 0); bp::transform(o, tr); i64 ox = o.x(), oy = o.y(); judge("transform-displace", u, mapped(p, [&](P q) { return P(q.x + ox, q.y + oy); })); }
  { i64 f = r.chance(1, 2) ? 1 + r.below(5) : 1 + r.range(0, 1000); if (m * f <= cap) { T u(t); bp::scale_up(u, (unsigned long long)f); judge("scale-up", u, mapped(p, [&](P q) { return P(q.x * f, q.y * f); })); T w(u); bp::scale_down(w, (unsigned long long)f); judge("scale-up-down", w, p); } }
  { i64 f = 1 + r.below(r.chance(1, 2) ? 6 : 100); T u(t); bp::scale_down(u, (unsigned long long)f); Poly want = mapped(p, [&](P q) { return P(rnd((double)q.x / (double)f), rnd((double)q.y / (double)f)); });
    if (Kind<T>::dom != 1) judge("scale-down", u, want);
    else { Poly g = M::read(u); if (!poly45(g)) c.fail(k + "scale-down-45", "scaling down by " + std::to_string(f) + " leaves " + str(g)); else if (poly45(want) && near45(g, want, 0) == false && g.outer.size() == want.outer.size() && g.outer != want.outer) c.fail(k + "scale-down-snap", "already 45 degrees but moved: " + str(g) + " / " + str(want)); else { c.count("mutations"); if (g.outer.size() == want.outer.size()) { i64 d = 0; for (size_t i = 0; i < g.outer.size(); ++i) d = std::max(d, std::max(std::llabs(g.outer[i].x - want.outer[i].x), std::llabs(g.outer[i].y - want.outer[i].y))); c.count(("drift " + std::to_string(d)).c_str()); if (d > 8) c.fail(k + "scale-down-drift", "a vertex ended " + std::to_string(d) + " units from its scaled position: " + str(g)); } } } }
  { double f = r.chance(1, 2) ? (double)r.range(1, 40) / 8 : r.unit() * 3; if (r.chance(1, 6)) f = -f; if ((double)m * fabs(f) < (double)cap - 2) { T u(t); bp::scale(u, f); Poly want = mapped(p, [&](P q) { return P(rnd((double)q.x * f), rnd((double)q.y * f)); });
    if (Kind<T>::dom != 1) judge("scale", u, want); else { Poly g = M::read(u); if (!poly45(g)) c.fail(k + "scale-45", "scaling by " + std::to_string(f) + " leaves " + str(g)); else c.count("mutations"); } } }
  { T u; u = t; judge("assign-op", u, p); T v; bp::assign(v, t); judge("assign", v, p); T w(t); judge("copy", w, p); T x(t); Poly other = mapped(p, [&](P q) { return P(q.y, q.x); }); x = M::make(other, r.below(4)); judge("reassign", x, other); judge("source", t, p); }
}
template <class S, class D> void conv(Ctx& c, const S& s, const Poly& p, const char* k) { Rng& r = c.rng; D d; if (r.chance(1, 2)) d = D(Mk<D>::make(mapped(p, [](P q) { return P(-q.x / 2 - 1, q.y / 3); }), 2)); if (r.chance(1, 2)) bp::assign(d, s); else d = s; Poly g = Mk<D>::read(d); if (!samePoly(g, p, false)) c.fail(std::string("convert:") + k, "conversion gives " + str(g)); else c.count("conversions"); }
#define CV(S, D) conv<S, D>(c, s, p, #S "->" #D)
template <class C> void conversions(Ctx& c, const Poly& p, int dom) {
  typedef bp::polygon_90_data<C> P90; typedef bp::polygon_90_with_holes_data<C> P90H; typedef bp::polygon_45_data<C> P45; typedef bp::polygon_45_with_holes_data<C> P45H; typedef bp::polygon_data<C> PG; typedef bp::polygon_with_holes_data<C> PGH;
  if (p.holes.empty()) {
    if (dom == 0) { P90 s = Mk<P90>::make(p, 0); CV(P90, P90H); CV(P90, P45); CV(P90, P45H); CV(P90, PG); CV(P90, PGH);
      { auto v = bp::view_as<bp::polygon_90_concept>(toGen<C>(p.outer)); (void)v; PG g = toGen<C>(p.outer); auto w = bp::view_as<bp::polygon_90_concept>(g); P90 d; bp::assign(d, w); if (!samePoly(fromS(d), p, false)) c.fail("view:90", "viewing as polygon_90 gives " + str(fromS(d))); if ((i128)2 * (i128)bp::area(w) != absArea2(p.outer)) c.fail("view:90-area", "area through the view differs"); c.count("views"); }
      { PG g = toGen<C>(p.outer); if (p.outer.size() == 4) { auto w = bp::view_as<bp::rectangle_concept>(g); bp::rectangle_data<C> a, b; bp::assign(a, w); bp::extents(b, g); if (a != b) c.fail("view:rect", "viewing as rectangle differs from the bounding box"); c.count("views"); } } }
    if (dom <= 1) { P45 s = Mk<P45>::make(p, 0); CV(P45, P45H); CV(P45, PG); CV(P45, PGH); PG g = toGen<C>(p.outer); auto w = bp::view_as<bp::polygon_45_concept>(g); P45 d; bp::assign(d, w); if (!samePoly(fromS(d), p, true)) c.fail("view:45", "viewing as polygon_45 differs"); c.count("views"); }
    { PG s = Mk<PG>::make(p, 0); CV(PG, PGH); }
  }
  if (dom == 0) { P90H s = Mk<P90H>::make(p, 1); CV(P90H, P45H); CV(P90H, PGH); { P90 d; bp::assign(d, bp::view_as<bp::polygon_90_concept>(s)); if (!sameRing(fromRing(d), p.outer)) c.fail("view:90h-outer", "outer ring differs"); } 
    PGH g = toGenh<C>(p); P90H d; bp::assign(d, bp::view_as<bp::polygon_90_with_holes_concept>(g)); if (!samePoly(fromH(d), p, false)) c.fail("view:90h", "viewing as polygon_90_with_holes gives " + str(fromH(d))); c.count("views"); }
  if (dom <= 1) { P45H s = Mk<P45H>::make(p, 1); CV(P45H, PGH); PGH g = toGenh<C>(p); P45H d; bp::assign(d, bp::view_as<bp::polygon_45_with_holes_concept>(g)); if (!samePoly(fromH(d), p, true)) c.fail("view:45h", "viewing as polygon_45_with_holes gives " + str(fromH(d))); c.count("views"); }
  { PGH s = Mk<PGH>::make(p, 1); PG d; bp::assign(d, bp::view_as<bp::polygon_concept>(s)); if (fromRing(d) != p.outer) c.fail("view:outer", "outer ring differs"); bool w = poly45(p); if (bp::is_45(s) != w) c.fail("is_45", w ? "is_45 is false for a 45-degree polygon" : "is_45 is true although an edge is not 45 degrees"); PG o = toGen<C>(p.outer); if (bp::is_45(o) != is45Ring(p.outer)) c.fail("is_45", "is_45 of the outer ring is wrong"); c.count("views"); }
  { // is_45 looks at every edge of every ring
    Rng& r = c.rng; Poly q; int n = r.below(5); i64 ox = r.range(-500, 500), oy = r.range(-500, 500); q.outer = rectRing(ox, oy, ox + 10 * std::max(n, 1), oy + 10); if (r.chance(1, 8)) q.outer[2].y += 1 + r.below(20);
    for (int i = 0; i < n; ++i) { i64 x = ox + 10 * i + 5, y = oy + 5, k = 1 + r.below(3); Ring h; int kind = r.below(8); if (kind < 3) h = rectRing(x - k, y - k, x + k, y + 2); else { h = {P(x - k, y), P(x, y - k), P(x + k, y), P(x, y + k)}; if (kind == 7) h[r.below(4)].x += r.chance(1, 2) ? 1 : -1; } if (r.chance(1, 2)) std::reverse(h.begin(), h.end()); std::rotate(h.begin(), h.begin() + r.below((int)h.size()), h.end()); q.holes.push_back(h); }
    PGH s = Mk<PGH>::make(q, 0); bool w = poly45(q); if (bp::is_45(s) != w) c.fail("is_45:holes", (w ? "is_45 is false for " : "is_45 is true for ") + str(q)); c.count("views"); }
  // equality of polygons is equality of their vertex sequences
  { PG a = toGen<C>(p.outer), b(a); if (!(a == b) || a != b) c.fail("equal", "a polygon differs from its copy"); Ring q(p.outer); int i = c.rng.below((int)q.size()); (c.rng.chance(1, 2) ? q[i].x : q[i].y) += q[i].x > 0 ? -1 : 1; PG d = toGen<C>(q); if (a == d || !(a != d)) c.fail("equal", "different polygons compare equal"); P45 e = to45<C>(p.outer), f = to45<C>(q); if (e == f || !(e != f) || !(e == P45(e))) c.fail("equal", "45 comparison wrong"); }
}
template <class T> bool compactOk(const T&, const Ring&, std::false_type) { return true; }
template <class T> bool compactOk(const T& t, const Ring& r, std::true_type) { std::vector<typename Kind<T>::coord> cc(bp::begin_compact(t), bp::end_compact(t)); if (cc.size() != r.size()) return false; for (size_t i = 0; i < cc.size(); ++i) if (cc[i] != (i & 1 ? r[i].y : r[i].x)) return false; return true; }
template <class T> void all(Ctx& c, const Poly& p0, const char* nm, i64 lo, i64 hi, bool bigArea) {
  Poly p = p0; if (!Kind<T>::holes) p.holes.clear(); T t = Mk<T>::make(p, c.rng.below(4)); Poly back = Mk<T>::read(t);
  if (!samePoly(back, p, Kind<T>::dom != 0)) { c.fail(std::string(nm) + ":read-back", "reads back as " + str(back)); return; }
  p = back; if (!compactOk(t, p.outer, std::integral_constant<bool, Kind<T>::dom == 0>())) c.fail(std::string(nm) + ":compact", "compact coordinates do not match the vertices");
  i64 m = 0; auto up = [&](const Ring& r) { for (auto& q : r) m = std::max(m, std::max(std::llabs(q.x), std::llabs(q.y))); }; up(p.outer); for (auto& h : p.holes) up(h);
  measures(c, t, p, nm, bigArea); pointsIn(c, t, p, nm, lo, hi); mutators(c, t, p, nm, m);
}
template <class C> void emptyOnes(Ctx& c) {
  bp::rectangle_data<C> b(1, 2, 3, 4), b0(b); bp::point_data<C> z(0, 0);
  #define EM(T) { bp::T<C> e; if (bp::extents(b, e) || b != b0) c.fail("empty:" #T, "extents of an empty polygon"); if (bp::area(e) != 0 || bp::perimeter(e) != 0 || bp::size(e) != 0) c.fail("empty:" #T, "an empty polygon has measures"); if (bp::contains(e, z)) c.fail("empty:" #T, "an empty polygon contains a point"); bp::move(e, bp::HORIZONTAL, 3); bp::scale_up(e, 3); bp::transform(e, AT(AT::ROTATE_LEFT)); bp::T<C> f(e); f = e; if (bp::size(e) != 0) c.fail("empty:" #T, "grew vertices"); c.count("empty polygons"); }
  EM(polygon_90_data) EM(polygon_90_with_holes_data) EM(polygon_45_data) EM(polygon_45_with_holes_data) EM(polygon_data) EM(polygon_with_holes_data)
}
template <class C> void p90(Ctx& c) {
  Rng& r = c.rng; bool full = r.chance(1, 3); i64 L = sizeof(C) > 4 ? (1LL << 29) : full ? 2147483647LL : (1LL << 29); i64 lo = full && sizeof(C) == 4 ? -L - 1 : -L; Range q = pickRange(r, lo, L, true); Scene s = genScene(r, q, r.chance(1, 8) ? 12 : 7);
  Poly p = genPoly90(r, s.xs, s.ys, true, false); scramble(r, p); c.desc = "90 " + str(p); i64 m = 0; for (auto& v : p.outer) m = std::max(m, std::max(std::llabs(v.x), std::llabs(v.y))); bool big = m <= (1LL << 29);
  all<bp::polygon_90_data<C> >(c, p, "polygon_90", lo, L, big); all<bp::polygon_90_with_holes_data<C> >(c, p, "polygon_90_with_holes", lo, L, big);
  all<bp::polygon_45_data<C> >(c, p, "polygon_45/90", lo, L, true); all<bp::polygon_with_holes_data<C> >(c, p, "polygon_with_holes/90", lo, L, true);
  if (m < 2147483647) conversions<C>(c, p, 0); if (r.chance(1, 50)) emptyOnes<C>(c); c.nontrivial(hashPolys({p}));
}
template <class C> void p45(Ctx& c) {
  Rng& r = c.rng; i64 L = sizeof(C) > 4 ? (1LL << 29) : 2147483647LL; Scene45 s = genScene45(r, r.chance(1, 3), -L, L); Poly p = genPoly45(r, s, true); scramble(r, p); c.desc = "45 " + str(p);
  all<bp::polygon_45_data<C> >(c, p, "polygon_45", -L, L, true); all<bp::polygon_45_with_holes_data<C> >(c, p, "polygon_45_with_holes", -L, L, true); all<bp::polygon_data<C> >(c, p, "polygon/45", -L, L, true);
  conversions<C>(c, p, 1); c.nontrivial(hashPolys({p}));
}
template <class C> void pG(Ctx& c) {
  Rng& r = c.rng; i64 L = sizeof(C) > 4 ? (1LL << 29) : r.chance(1, 2) ? (1LL << 20) : 2147483000LL; SceneG s = genSceneG(r, L); Poly p = genPolyG(r, s, true); scramble(r, p); i64 M = sizeof(C) > 4 ? 1LL << 30 : 2147483647LL; c.desc = "G " + str(p);
  for (auto& v : p.outer) if (std::llabs(v.x) > M || std::llabs(v.y) > M) return;
  all<bp::polygon_data<C> >(c, p, "polygon", -M, M, true); all<bp::polygon_with_holes_data<C> >(c, p, "polygon_with_holes", -M, M, true); conversions<C>(c, p, 2); c.nontrivial(hashPolys({p}));
}
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"p90-int", p90<int>, 30000, 1500000}); f.push_back({"p90-i64", p90<long long>, 8000, 300000});
#elif PART == 1
  f.push_back({"p45-int", p45<int>, 30000, 1500000}); f.push_back({"p45-i64", p45<long long>, 8000, 300000});
#else
  f.push_back({"pG-int", pG<int>, 40000, 2000000}); f.push_back({"pG-i64", pG<long long>, 10000, 300000});
#endif
  return f;
}
}
VF_MAIN()
