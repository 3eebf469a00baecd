// P14: point and segment functions against exact geometry, and segment splitting.
#include "scene45.hpp"
#include "sceneg.hpp"
#include <boost/polygon/segment_utils.hpp>
namespace vf {
struct Q { i64 n; Ctx* c; std::string what;
  void v(const char* f, i128 got, i128 want) { ++n; if (got != want) c->fail(f, what + " gives " + s128(got) + " instead of " + s128(want)); }
  void b(const char* f, bool got, bool want) { ++n; if (got != want) c->fail(f, what + (got ? " gives true" : " gives false")); }
  void d(const char* f, ld got, ld want, ld abs, ld rel = 1e-12L) { ++n; if (!(fabsl(got - want) <= abs + rel * fabsl(want))) c->fail(f, what + " gives " + std::to_string((double)got) + " instead of " + std::to_string((double)want)); } };
static std::string sp(P p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; }
static int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
// sign of a*b - c*d for values up to 2^65
typedef unsigned __int128 u128;
static int cmpProd(i128 a, i128 b, i128 c, i128 d) {
  int s1 = sgn(a) * sgn(b), s2 = sgn(c) * sgn(d); if (s1 != s2) return s1 > s2 ? 1 : -1; if (!s1) return 0;
  auto mul = [](u128 x, u128 y) { u64 x0 = (u64)x, x1 = (u64)(x >> 64), y0 = (u64)y, y1 = (u64)(y >> 64); u128 p = (u128)x0 * y0, q = (u128)x1 * y0, r = (u128)x0 * y1, t = (u128)x1 * y1; u128 mid = (p >> 64) + (u64)q + (u64)r; u128 lo = (p & (u64)-1) | (mid << 64); u128 hi = t + (q >> 64) + (r >> 64) + (mid >> 64); return std::make_pair(hi, lo); };
  auto u = mul((u128)(a < 0 ? -a : a), (u128)(b < 0 ? -b : b)), v = mul((u128)(c < 0 ? -c : c), (u128)(d < 0 ? -d : d)); int m = u < v ? -1 : v < u ? 1 : 0; return s1 * m;
}
static int ori(P a, P b, P c) { return cmpProd((i128)b.x - a.x, (i128)c.y - a.y, (i128)b.y - a.y, (i128)c.x - a.x); }
static bool inBox(P a, P b, P c) { return std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y); }
static bool on(P a, P b, P c) { return ori(a, b, c) == 0 && inBox(a, b, c); }
static bool meet(P a, P b, P c, P d) { if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return true; int s = ori(a, b, c), t = ori(a, b, d), u = ori(c, d, a), v = ori(c, d, b); return s * t < 0 && u * v < 0; }
// meet in a point that is not an end of both
static bool meetInner(P a, P b, P c, P d) {
  if (!meet(a, b, c, d)) return false;
  auto inner = [](P p, P q, P x) { return on(p, q, x) && !(x == p) && !(x == q); };
  if (inner(a, b, c) || inner(a, b, d) || inner(c, d, a) || inner(c, d, b)) return true;
  if ((a == c && b == d) || (a == d && b == c)) return !(a == b);
  return ori(a, b, c) * ori(a, b, d) < 0 && ori(c, d, a) * ori(c, d, b) < 0;
}
static ld dist(P a, P b) { return hypotl((ld)a.x - b.x, (ld)a.y - b.y); }
static ld distPS(P a, P b, P p) {
  ld dx = (ld)b.x - a.x, dy = (ld)b.y - a.y, l2 = dx * dx + dy * dy; if (l2 == 0) return dist(a, p);
  ld t = ((ld)p.x - a.x) * dx + ((ld)p.y - a.y) * dy; if (t <= 0) return dist(a, p); if (t >= l2) return dist(b, p);
  i128 cr = ((i128)b.x - a.x) * ((i128)p.y - a.y) - ((i128)b.y - a.y) * ((i128)p.x - a.x); return fabsl((ld)cr) / sqrtl(l2);
}
static ld distSS(P a, P b, P c, P d) { if (meet(a, b, c, d)) return 0; return std::min(std::min(distPS(a, b, c), distPS(a, b, d)), std::min(distPS(c, d, a), distPS(c, d, b))); }
template <class C> struct Gen { Rng& r; i64 lim; std::vector<i64> pool;
  Gen(Rng& r_) : r(r_) { i64 mx = (i64)std::numeric_limits<C>::max(); switch (r.below(5)) { case 0: lim = 3; break; case 1: lim = 8; break; case 2: lim = 1000; break; case 3: lim = 1 << 20; break; default: lim = mx; }
    if (sizeof(C) == 8 && lim > ((i64)1 << 31) - 1) lim = ((i64)1 << 31) - 1; // the unsigned area type has to hold areas
    int n = 2 + r.below(5); for (int i = 0; i < n; ++i) pool.push_back(r.range(-lim, lim)); if (lim == mx) { pool.push_back(-lim); pool.push_back(lim); pool.push_back((i64)std::numeric_limits<C>::min()); } }
  i64 any() { if (r.chance(1, 2)) { i64 v = pool[r.below((int)pool.size())]; if (r.chance(1, 3)) v += r.range(-1, 1); i64 lo = (i64)std::numeric_limits<C>::min(), hi = (i64)std::numeric_limits<C>::max(); if (sizeof(C) == 8) { lo = -lim; hi = lim; } return std::max(lo, std::min(hi, v)); } return r.range(-lim, lim); }
  P pt() { return P(any(), any()); } };
template <class C> void geom(Ctx& c) {
  Rng& r = c.rng; Gen<C> G(r); typedef bp::point_data<C> PT; typedef bp::segment_data<C> S; P a = G.pt(), b = G.pt(), d = G.pt(), e = G.pt();
  // steer towards contacts
  auto along = [&](P u, P v) { i64 k = r.range(-1, 3); i128 X = (i128)u.x + ((i128)v.x - u.x) / 2 * k, Y = (i128)u.y + ((i128)v.y - u.y) / 2 * k; i64 lim = G.lim; if (X > lim || X < -lim || Y > lim || Y < -lim) return u; return P((i64)X, (i64)Y); };
  switch (r.below(8)) { case 0: d = a; break; case 1: e = b; break; case 2: d = along(a, b); break; case 3: d = along(a, b); e = along(a, b); break; case 4: d = b; e = a; break; case 5: b = a; break; default: break; }
  P p = r.chance(1, 3) ? along(a, b) : r.chance(1, 4) ? b : G.pt();
  if (r.chance(1, 30)) e = d;
  Q q; q.n = 0; q.c = &c; q.what = "s1=" + sp(a) + sp(b) + " s2=" + sp(d) + sp(e) + " p=" + sp(p); c.desc = q.what;
  auto mk = [](P u) { return PT((C)u.x, (C)u.y); }; PT A = mk(a), B = mk(b), D = mk(d), E = mk(e), X = mk(p); S s1(A, B), s2(D, E); auto isP = [](const PT& g, P w) { return g.x() == w.x && g.y() == w.y; };
  i64 m = 0; for (P u : {a, b, d, e, p}) m = std::max(m, std::max(std::max(u.x, -(u.x + 1)), std::max(u.y, -(u.y + 1))));
  i64 mx = (i64)std::numeric_limits<C>::max();
  // predicates: full range
  q.v("orientation-point", bp::orientation(s1, X), ori(a, b, p)); q.v("orientation-segment", bp::orientation(s1, s2), cmpProd((i128)b.x - a.x, (i128)e.y - d.y, (i128)b.y - a.y, (i128)e.x - d.x));
  q.b("contains-point", bp::contains(s1, X, true), on(a, b, p)); q.b("contains-point-default", bp::contains(s1, X), on(a, b, p)); q.b("contains-point-inner", bp::contains(s1, X, false), on(a, b, p) && !(p == a) && !(p == b)); q.b("contains-segment", bp::contains(s1, s2, true), on(a, b, d) && on(a, b, e)); q.b("contains-segment-inner", bp::contains(s1, s2, false), on(a, b, d) && on(a, b, e) && !(d == a) && !(d == b) && !(e == a) && !(e == b));
  bool touch = meet(a, b, d, e); q.b("intersects", bp::intersects(s1, s2), touch); q.b("intersects-touch", bp::intersects(s1, s2, true), touch); q.b("intersects-symmetric", bp::intersects(s2, s1), touch);
  if (!(a == b) && !(d == e)) { q.b("intersects-inner", bp::intersects(s1, s2, false), meetInner(a, b, d, e)); c.count("proper segment pairs"); } if (touch) c.count("segments that meet");
  q.b("abuts-high", bp::abuts(s1, s2, bp::HIGH), d == b); q.b("abuts-low", bp::abuts(s1, s2, bp::LOW), a == e); q.b("abuts", bp::abuts(s1, s2), d == b || a == e);
  q.b("equivalence", bp::equivalence(s1, s2), a == d && b == e); q.b("segment==", s1 == s2, a == d && b == e); q.b("segment!=", s1 != s2, !(a == d && b == e));
  auto lessP = [](P u, P v) { return u.y != v.y ? u.y < v.y : u.x < v.x; }; (void)lessP;
  { auto lt = [&](P u, P v) { return mk(u) < mk(v); }; q.b("point-order", lt(a, d), std::make_pair(a.x, a.y) < std::make_pair(d.x, d.y)); q.b("point-order-total", (A < D) + (D < A) + (A == D) == 1 && (A <= D) == !(D < A) && (A > D) == (D < A) && (A >= D) == !(A < D) && (A != D) == !(A == D), true);
    q.b("segment-order", s1 < s2, A < D || (A == D && B < E)); q.b("segment-order-total", (s1 < s2) + (s2 < s1) + (s1 == s2) == 1 && (s1 <= s2) == !(s2 < s1) && (s1 > s2) == (s2 < s1) && (s1 >= s2) == !(s1 < s2), true); }
  q.b("accessors", isP(bp::low(s1), a) && isP(bp::high(s1), b) && isP(bp::get(s1, bp::LOW), a) && isP(bp::get(s1, bp::HIGH), b) && isP(s1.low(), a) && isP(s1.high(), b) && bp::x(A) == a.x && bp::y(A) == a.y && bp::get(A, bp::HORIZONTAL) == a.x && bp::get(A, bp::VERTICAL) == a.y, true);
  { S t = bp::construct<S>(A, B); q.b("construct", t == s1, true); t = bp::copy_construct<S>(s2); q.b("copy_construct", t == s2, true); bp::assign(t, s1); q.b("assign", t == s1, true); bp::low(t, D); q.b("set-low", isP(t.low(), d) && isP(t.high(), b), true); bp::high(t, E); q.b("set-high", t == s2, true); bp::set(t, bp::LOW, X); q.b("set-dir", isP(t.low(), p) && isP(t.high(), e), true); t.low(A); t.high(B); q.b("member-set", t == s1, true); PT z = bp::construct<PT>((C)a.x, (C)a.y); q.b("construct-point", z == A, true); bp::assign(z, B); q.b("assign-point", z == B && bp::equivalence(z, B), true); bp::x(z, (C)d.x); bp::y(z, (C)d.y); q.b("set-point", z == D, true); bp::set(z, bp::VERTICAL, (C)e.y); q.b("set-point-orient", z.x() == d.x && z.y() == e.y, true); q.b("equivalence-point", bp::equivalence(A, D), a == d); }
  { std::vector<S> v; v.push_back(s1); v.push_back(s2); bp::rectangle_data<C> rc; bool any = bp::envelope_segments(rc, v.begin(), v.end()); q.b("envelope", any && bp::xl(rc) == std::min(std::min(a.x, b.x), std::min(d.x, e.x)) && bp::xh(rc) == std::max(std::max(a.x, b.x), std::max(d.x, e.x)) && bp::yl(rc) == std::min(std::min(a.y, b.y), std::min(d.y, e.y)) && bp::yh(rc) == std::max(std::max(a.y, b.y), std::max(d.y, e.y)), true); }
  // measures and mutators: values whose differences, squares or sums stay representable
  i64 half = mx / 2; i64 sq = (i64)1 << 30;
  if (m <= half) { auto axis = [&](bp::orientation_2d o, i64 u, i64 v) { i128 g = bp::euclidean_distance(A, D, o), w = u > v ? (i128)u - v : (i128)v - u; q.v("axis-distance", g, w); }; axis(bp::HORIZONTAL, a.x, d.x); axis(bp::VERTICAL, a.y, d.y);
    PT ct = bp::center(s1); auto mid = [](i64 g, i64 u, i64 v) { i128 t = 2 * (i128)g - u - v; return t <= 1 && t >= -1; }; q.b("center", mid(ct.x(), a.x, b.x) && mid(ct.y(), a.y, b.y), true); }
  if (m <= mx / 4) { q.v("manhattan", bp::manhattan_distance(A, D), (a.x > d.x ? (i128)a.x - d.x : (i128)d.x - a.x) + (a.y > d.y ? (i128)a.y - d.y : (i128)d.y - a.y)); }
  if (m <= sq) { i128 dx = (i128)a.x - d.x, dy = (i128)a.y - d.y; if (dx * dx + dy * dy <= (i128)std::numeric_limits<i64>::max()) { q.v("distance_squared", bp::distance_squared(A, D), dx * dx + dy * dy); q.d("euclidean_distance-points", bp::euclidean_distance(A, D), dist(a, d), 0); }
    i64 s3 = m <= ((i64)1 << 29); if (s3) { q.d("length", bp::length(s1), dist(a, b), 0); ld tol = 1e-9L; q.d("distance-segment-point", bp::euclidean_distance(s1, X), distPS(a, b, p), tol, 1e-9L); q.d("distance-segments", bp::euclidean_distance(s1, s2), distSS(a, b, d, e), tol, 1e-9L); q.b("distance-zero", (bp::euclidean_distance(s1, s2) == 0), touch || distSS(a, b, d, e) < 1e-12L); c.count("distances compared", 3); } }
  if (m <= mx / 16) {
    S t = s1; bp::convolve(t, X); q.b("segment-convolve", isP(t.low(), P(a.x + p.x, a.y + p.y)) && isP(t.high(), P(b.x + p.x, b.y + p.y)), true); bp::deconvolve(t, X); q.b("segment-deconvolve", t == s1, true); PT z = A; bp::convolve(z, X); q.b("point-convolve", isP(z, P(a.x + p.x, a.y + p.y)), true); bp::deconvolve(z, X); q.b("point-deconvolve", z == A, true); bp::deconvolve(z, X); q.b("point-deconvolve2", isP(z, P(a.x - p.x, a.y - p.y)), true);
    t = s1; bp::move(t, bp::HORIZONTAL, (C)p.x); q.b("segment-move-x", isP(t.low(), P(a.x + p.x, a.y)) && isP(t.high(), P(b.x + p.x, b.y)), true); t = s1; bp::move(t, bp::VERTICAL, (C)p.y); q.b("segment-move-y", isP(t.low(), P(a.x, a.y + p.y)) && isP(t.high(), P(b.x, b.y + p.y)), true); z = A; bp::move(z, bp::VERTICAL, (C)p.y); bp::move(z, bp::HORIZONTAL, (C)p.x); q.b("point-move", isP(z, P(a.x + p.x, a.y + p.y)), true);
    C f = (C)r.range(1, 7); t = s1; bp::scale_up(t, f); q.b("segment-scale_up", isP(t.low(), P(a.x * f, a.y * f)) && isP(t.high(), P(b.x * f, b.y * f)), true); bp::scale_down(t, f); if (m <= ((i64)1 << 50)) q.b("segment-scale_up-down", t == s1, true); z = A; bp::scale_up(z, f); q.b("point-scale_up", isP(z, P(a.x * f, a.y * f)), true);
    if (m <= ((i64)1 << 50)) { t = s1; bp::scale_down(t, f); auto near = [&](i64 g, i64 v) { i64 dd = g * f - v; return dd < f && -dd < f; }; q.b("segment-scale_down", near(t.low().x(), a.x) && near(t.low().y(), a.y) && near(t.high().x(), b.x) && near(t.high().y(), b.y), true); z = B; bp::scale_down(z, f); q.b("point-scale_down", near(z.x(), b.x) && near(z.y(), b.y), true); }
    if (m <= ((i64)1 << 40)) { static const double fs[4] = {2, 0.5, 1.5, -3}; double fx = fs[r.below(4)], fy = fs[r.below(4)]; bp::anisotropic_scale_factor<double> sc(fx, fy); auto rd = [](i64 v, double k) { return (i64)floor(v * k + 0.5); }; t = s1; bp::scale(t, sc); q.b("segment-scale", isP(t.low(), P(rd(a.x, fx), rd(a.y, fy))) && isP(t.high(), P(rd(b.x, fx), rd(b.y, fy))), true); }
    { bp::transformation<C> tr(bp::axis_transformation((bp::axis_transformation::ATR)r.below(8)), X); auto ap = [&](P v) { C u = (C)v.x, w = (C)v.y; tr.transform(u, w); return P(u, w); }; t = s2; bp::transform(t, tr); q.b("segment-transform", isP(t.low(), ap(d)) && isP(t.high(), ap(e)), true); }
  }
  c.count("point and segment facts", q.n); Hash h; for (P u : {a, b, d, e, p}) { h.add((u64)u.x); h.add((u64)u.y); } c.nontrivial(h.h);
}
// ---------------------------------------------------------------- splitting
typedef std::pair<P, P> SG;
static bool chain(const std::vector<SG>& v, P a, P b) { // the pieces join up from a to b
  std::map<std::pair<i64, i64>, int> deg; for (auto& s : v) { ++deg[std::make_pair(s.first.x, s.first.y)]; ++deg[std::make_pair(s.second.x, s.second.y)]; } ++deg[std::make_pair(a.x, a.y)]; ++deg[std::make_pair(b.x, b.y)];
  for (auto& d : deg) if (d.second % 2) return false;
  return true;
}
template <class C> void split(Ctx& c) {
  Rng& r = c.rng; typedef bp::segment_data<C> S; typedef bp::point_data<C> PT; static const i64 sizes[6] = {4, 10, 40, 1000, 30000, 1 << 20}; int sz = r.below(6); i64 s = sizes[sz]; bool far = sz < 5 && r.chance(1, 4); i64 ox = far ? r.range(-(1 << 20), 1 << 20) : 0, oy = far ? r.range(-(1 << 20), 1 << 20) : 0;
  std::vector<P> pool; for (int i = 0; i < 8; ++i) pool.push_back(P(ox + r.range(0, s), oy + r.range(0, s))); int n = 1 + r.below(r.chance(1, 6) ? 24 : 9), mode = r.below(4);
  std::vector<SG> in; std::vector<S> v; for (int i = 0; i < n; ++i) { auto pt = [&]() { return r.chance(1, mode + 1) ? pool[r.below(8)] : P(ox + r.range(0, s), oy + r.range(0, s)); }; P a = pt(), b = pt(); if (mode == 0 && r.chance(1, 3)) { if (r.chance(1, 2)) b.x = a.x; else b.y = a.y; } if (a == b) { b.x += 1; } if (i && r.chance(1, 10)) { a = in[r.below(i)].second; b = in[r.below(i)].first; if (a == b) b.y += 1; } in.push_back(SG(a, b)); v.push_back(S(PT((C)a.x, (C)a.y), PT((C)b.x, (C)b.y))); }
  std::string w; for (auto& q : in) w += sp(q.first) + sp(q.second) + " "; c.desc = w;
  i64 crossings = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (meetInner(in[i].first, in[i].second, in[j].first, in[j].second)) ++crossings;
  std::vector<std::pair<std::size_t, S> > out; std::vector<S> out2; bool keep = r.chance(1, 3); if (keep) { out2.push_back(v[0]); out.push_back(std::make_pair((std::size_t)77, v[0])); }
  if (r.chance(1, 3)) { std::list<S> lst(v.begin(), v.end()); bp::intersect_segments(out, lst.begin(), lst.end()); } else bp::intersect_segments(out, v.begin(), v.end()); bp::intersect_segments(out2, v.begin(), v.end());
  if (keep) { if (out2.empty() || !(out2[0] == v[0]) || out.empty() || out[0].first != 77 || !(out[0].second == v[0])) { c.fail("split-accumulates", "earlier contents of the result were changed"); return; } out.erase(out.begin()); out2.erase(out2.begin()); }
  std::vector<std::vector<SG> > by(n); std::vector<SG> all; auto canon = [](SG q) { if (q.second < q.first) std::swap(q.first, q.second); return q; };
  for (auto& o : out) { SG q(P(o.second.low().x(), o.second.low().y()), P(o.second.high().x(), o.second.high().y())); if (o.first >= (std::size_t)n) { c.fail("split-id", "index " + std::to_string(o.first) + " names no input"); return; } by[o.first].push_back(q); all.push_back(canon(q)); }
  c.count("pieces judged", (i64)all.size()); c.count("inner contacts split", crossings);
  auto lessS = [](const SG& x, const SG& y) { return std::make_pair(std::make_pair(x.first.x, x.first.y), std::make_pair(x.second.x, x.second.y)) < std::make_pair(std::make_pair(y.first.x, y.first.y), std::make_pair(y.second.x, y.second.y)); };
  { std::vector<SG> o2; for (auto& o : out2) o2.push_back(canon(SG(P(o.low().x(), o.low().y()), P(o.high().x(), o.high().y())))); auto a1 = all; std::sort(a1.begin(), a1.end(), lessS); std::sort(o2.begin(), o2.end(), lessS); bool same = a1.size() == o2.size() && std::equal(a1.begin(), a1.end(), o2.begin(), [](const SG& x, const SG& y) { return x.first == y.first && x.second == y.second; }); if (!same) c.fail("split-forms", "the two result forms differ"); }
  for (int i = 0; i < n; ++i) {
    P a = in[i].first, b = in[i].second;
    if (!chain(by[i], a, b)) c.fail("split-chain", "pieces of input " + std::to_string(i) + " do not join its ends");
    ld len = 0; for (auto& q : by[i]) { if (q.first == q.second) c.fail("split-degenerate", "empty piece"); len += dist(q.first, q.second); for (P u : {q.first, q.second}) if (distPS(a, b, u) > 1.5L) c.fail("split-far", "piece end " + sp(u) + " of input " + std::to_string(i) + " lies " + std::to_string((double)distPS(a, b, u)) + " away"); }
    if (crossings == 0 && (by[i].size() != 1)) { bool touched = false; for (int j = 0; j < n; ++j) if (j != i) for (P u : {in[j].first, in[j].second}) if (distPS(a, b, u) <= 1.5L) touched = true; for (int j = 0; j < n; ++j) if (j != i) for (P u : {a, b}) if (distPS(in[j].first, in[j].second, u) <= 1.5L) touched = true; if (!touched) c.fail("split-needless", "untouched input was split"); }
  }
  std::sort(all.begin(), all.end(), lessS); all.erase(std::unique(all.begin(), all.end(), [](const SG& x, const SG& y) { return x.first == y.first && x.second == y.second; }), all.end());
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j) { if (std::max(all[i].first.x, all[i].second.x) < std::min(all[j].first.x, all[j].second.x)) continue; if (meetInner(all[i].first, all[i].second, all[j].first, all[j].second)) { c.fail("split-crossing", "pieces " + sp(all[i].first) + sp(all[i].second) + " and " + sp(all[j].first) + sp(all[j].second) + " meet away from their ends"); i = all.size(); break; } }
  // splitting again changes nothing
  if (r.chance(1, 3) && !c.failed) { std::vector<S> again; bp::intersect_segments(again, out2.begin(), out2.end()); std::vector<SG> o3; for (auto& o : again) o3.push_back(canon(SG(P(o.low().x(), o.low().y()), P(o.high().x(), o.high().y())))); std::sort(o3.begin(), o3.end(), lessS); o3.erase(std::unique(o3.begin(), o3.end(), [](const SG& x, const SG& y) { return x.first == y.first && x.second == y.second; }), o3.end()); bool same = o3.size() == all.size(); c.count("idempotence checks"); if (!same) c.count("idempotence differs"); (void)same; }
  Hash h; for (auto& q : in) { h.add((u64)q.first.x); h.add((u64)q.first.y); h.add((u64)q.second.x); h.add((u64)q.second.y); } if (n > 1) c.nontrivial(h.h);
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"geometry-int", [](Ctx& c) { geom<int>(c); }, 1000000, 30000000});
  f.push_back({"geometry-i64", [](Ctx& c) { geom<long long>(c); }, 300000, 10000000});
  f.push_back({"split-int", [](Ctx& c) { split<int>(c); }, 80000, 3000000});
  f.push_back({"split-i64", [](Ctx& c) { split<long long>(c); }, 20000, 600000});
  return f;
}
}
VF_MAIN()
