// P13: interval and rectangle algebra against closed-interval definitions evaluated in 128-bit integers.
#include "lib.hpp"
typedef long double ld;
namespace vf {
struct I { i128 l, h; bool operator==(const I& o) const { return l == o.l && h == o.h; } };
static std::string str(const I& a) { return "[" + s128(a.l) + "," + s128(a.h) + "]"; }
struct Q { int n; Ctx* c; std::string what;
  void b(const char* f, bool got, bool want) { ++n; if (got != want) c->fail(std::string(f), what + " gives " + (got ? "true" : "false")); }
  void v(const char* f, i128 got, i128 want) { ++n; if (got != want) c->fail(std::string(f), what + " gives " + s128(got) + " instead of " + s128(want)); }
  void i(const char* f, const I& got, const I& want) { ++n; if (!(got == want)) c->fail(std::string(f), what + " gives " + str(got) + " instead of " + str(want)); }
};
template <class T> I iv(const T& t) { I r; r.l = bp::low(t); r.h = bp::high(t); return r; }
inline bool has(const I& a, i128 x, bool t) { return t ? a.l <= x && x <= a.h : a.l < x && x < a.h; }
inline bool meet(const I& a, const I& b, bool t) { return t ? a.l <= b.h && b.l <= a.h : a.l < b.h && b.l < a.h; }
inline i128 gap(const I& a, const I& b) { return b.l > a.h ? b.l - a.h : a.l > b.h ? a.l - b.h : 0; }
// the middle two of four ends
inline I genInter(const I& a, const I& b) { i128 v[4] = {a.l, a.h, b.l, b.h}; std::sort(v, v + 4); I r; r.l = v[1]; r.h = v[2]; return r; }
inline I clampSet(I a, int d, i128 v) { if (d) a.h = v; else a.l = v; if (a.l > a.h) a.l = a.h = v; return a; }
inline I hull(const I& a, const I& b) { I r; r.l = std::min(a.l, b.l); r.h = std::max(a.h, b.h); return r; }
inline i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b < 0) --q; return q; }
inline bool ordered(const I& a) { return a.l <= a.h; }
inline i128 roundHalfUp(ld v) { return (i128)floorl(v + 0.5L); }
// values whose sums and doubles stay representable
template <class C> struct Vals {
  Rng& r; i128 lim; std::vector<i128> pool;
  Vals(Rng& r_, bool small) : r(r_) {
    i128 mx = std::numeric_limits<C>::max(); switch (r.below(5)) { case 0: lim = 4; break; case 1: lim = 12; break; case 2: lim = 1000; break; case 3: lim = 1 << 20; break; default: lim = mx / 4; } if (small) lim = std::min<i128>(lim, (i128)1 << 28); lim = std::min<i128>(lim, mx / 4);
    int n = 2 + r.below(5); for (int i = 0; i < n; ++i) pool.push_back(raw());
  }
  i128 raw() { return (i128)r.range(-(i64)lim, (i64)lim); }
  C any() { if (r.chance(2, 3)) { i128 v = pool[r.below((int)pool.size())]; if (r.chance(1, 4)) v += r.range(-1, 1); if (v > lim) v = lim; if (v < -lim) v = -lim; return (C)v; } return (C)raw(); }
  C nonneg() { C v = any(); return v < 0 ? (C)-v : v; }
};
template <class C, class T> T mk(Vals<C>& v) { C a = v.any(), b = v.r.chance(1, 8) ? a : v.any(); return bp::construct<T>(a, b); }
// ---------------------------------------------------------------- intervals
template <class C> void ivals(Ctx& c) {
  Rng& r = c.rng; Vals<C> V(r, false); typedef bp::interval_data<C> T; C e0 = V.any(), e1 = r.chance(1, 8) ? e0 : V.any();
  T a = bp::construct<T>(e0, e1); I A; A.l = std::min(e0, e1); A.h = std::max(e0, e1); T b = mk<C, T>(V); I B = iv(b); C x = V.any(); bool t = r.below(2); int d = r.below(2); bp::direction_1d dir = d ? bp::HIGH : bp::LOW;
  Q q; q.n = 0; q.c = &c; q.what = "a=" + str(A) + " b=" + str(B) + " x=" + s128(x) + " touch=" + (t ? "1" : "0") + " dir=" + (d ? "HIGH" : "LOW"); c.desc = q.what;
  q.i("construct", iv(a), A); q.v("get", bp::get(a, dir), d ? A.h : A.l); q.v("delta", bp::delta(a), A.h - A.l); { i128 m = bp::center(a), s = A.l + A.h; q.b("center", 2 * m - s <= 1 && 2 * m - s >= -1 && m >= A.l && m <= A.h, true); }
  q.b("equivalence", bp::equivalence(a, b), A == B); q.b("operator==", a == b, A == B); q.b("operator!=", a != b, !(A == B)); { bool lt = A.l < B.l || (A.l == B.l && A.h < B.h), gt = B.l < A.l || (A.l == B.l && B.h < A.h); q.b("operator<", a < b, lt); q.b("operator>", a > b, gt); q.b("operator<=", a <= b, !gt); q.b("operator>=", a >= b, !lt); }
  q.b("contains-value", bp::contains(a, x, t), has(A, x, t)); q.b("contains-value-default", bp::contains(a, x), has(A, x, true));
  q.b("contains", bp::contains(a, b, t), has(A, B.l, t) && has(A, B.h, t)); q.b("contains-default", bp::contains(a, b), has(A, B.l, true) && has(A, B.h, true));
  q.b("intersects", bp::intersects(a, b, t), meet(A, B, t)); q.b("intersects-default", bp::intersects(a, b), meet(A, B, true));
  { bool w = (has(A, B.l, t) || has(A, B.h, t)) && (has(B, A.l, t) || has(B, A.h, t)); q.b("boundaries_intersect", bp::boundaries_intersect(a, b, t), w); }
  q.b("abuts-dir", bp::abuts(a, b, dir), d ? B.l == A.h : A.l == B.h); q.b("abuts", bp::abuts(a, b), B.l == A.h || A.l == B.h);
  q.v("distance-value", bp::euclidean_distance(a, x), x < A.l ? A.l - x : x > A.h ? x - A.h : 0); q.v("distance", bp::euclidean_distance(a, b), gap(A, B));
  { T z = a; bp::assign(z, b); q.i("assign", iv(z), B); T y(a); y = b; q.i("operator=", iv(y), B); q.i("copy_construct", iv(bp::copy_construct<T>(b)), B); }
  { T z = a; bp::set(z, dir, x); q.i("set", iv(z), clampSet(A, d, x)); z = a; bp::low(z, x); q.i("low", iv(z), clampSet(A, 0, x)); z = a; bp::high(z, x); q.i("high", iv(z), clampSet(A, 1, x)); }
  { T z = a; bool ok = bp::intersect(z, b, t); bool w = t ? std::max(A.l, B.l) <= std::min(A.h, B.h) : std::max(A.l, B.l) < std::min(A.h, B.h); I W = A; if (w) { W.l = std::max(A.l, B.l); W.h = std::min(A.h, B.h); } q.b("intersect-result", ok, w); q.i("intersect", iv(z), W); }
  { T z = a; bp::generalized_intersect(z, b); q.i("generalized_intersect", iv(z), genInter(A, B)); }
  { T z = a; bool ok = bp::encompass(z, b); q.b("encompass-result", ok, !(has(A, B.l, true) && has(A, B.h, true))); q.i("encompass", iv(z), hull(A, B)); z = a; ok = bp::encompass(z, x); I X; X.l = X.h = x; q.b("encompass-value-result", ok, !has(A, x, true)); q.i("encompass-value", iv(z), hull(A, X)); }
  { T z = a; bool w = B.l == A.h || A.l == B.h; bool ok = bp::join_with(z, b); q.b("join_with-result", ok, w); q.i("join_with", iv(z), w ? hull(A, B) : A); }
  { I G = iv(bp::get_half(a, dir)); i128 m = bp::center(a); I W = A; (d ? W.l : W.h) = m; q.i("get_half", G, W); }
  { T z = a; bp::flip(z, x); I W; W.l = 2 * (i128)x - A.h; W.h = 2 * (i128)x - A.l; q.i("flip", iv(z), W); z = a; bp::flip(z); W.l = -A.h; W.h = -A.l; q.i("flip-default", iv(z), W); }
  { T z = a; bp::move(z, (typename bp::coordinate_traits<C>::coordinate_difference)x); I W; W.l = A.l + x; W.h = A.h + x; q.i("move", iv(z), W); z = a; bp::convolve(z, x); q.i("convolve-value", iv(z), W); z = a; bp::deconvolve(z, x); W.l = A.l - x; W.h = A.h - x; q.i("deconvolve-value", iv(z), W); }
  { T z = a; bp::convolve(z, b); I W; W.l = A.l + B.l; W.h = A.h + B.h; q.i("convolve", iv(z), W); z = a; bp::reflected_convolve(z, b); W.l = A.l - B.h; W.h = A.h - B.l; q.i("reflected_convolve", iv(z), W);
    z = a; bp::deconvolve(z, b); W.l = A.l - B.l; W.h = A.h - B.h; if (ordered(W)) q.i("deconvolve", iv(z), W); else q.b("deconvolve-order", ordered(iv(z)), true);
    z = a; bp::reflected_deconvolve(z, b); W.l = A.l + B.h; W.h = A.h + B.l; if (ordered(W)) q.i("reflected_deconvolve", iv(z), W); else q.b("reflected_deconvolve-order", ordered(iv(z)), true); }
  { T z = a; bp::bloat(z, x); I W; W.l = A.l - x; W.h = A.h + x; if (ordered(W)) q.i("bloat", iv(z), W); else q.b("bloat-order", ordered(iv(z)), true); z = a; bp::shrink(z, x); W.l = A.l + x; W.h = A.h - x; if (ordered(W)) q.i("shrink", iv(z), W); else q.b("shrink-order", ordered(iv(z)), true);
    z = a; bp::bloat(z, dir, x); q.i("bloat-dir", iv(z), clampSet(A, d, d ? A.h + x : A.l - x)); z = a; bp::shrink(z, dir, x); q.i("shrink-dir", iv(z), clampSet(A, d, d ? A.h - x : A.l + x)); }
  { C f = (C)r.range(1, 9); i128 m = std::numeric_limits<C>::max(); T z = a; I W; W.l = A.l * f; W.h = A.h * f; if (W.h <= m && W.l >= -m) { bp::scale_up(z, f); q.i("scale_up", iv(z), W); } z = a; bp::scale_down(z, f); I G = iv(z); auto near = [&](i128 g, i128 v) { i128 e = g * f - v; return e < f && -e < f; }; q.b("scale_down", near(G.l, A.l) && near(G.h, A.h) && ordered(G), true); }
  if (V.lim <= ((i128)1 << 28)) { static const double fs[6] = {2.0, 0.5, 1.5, 0.25, 3.0, 0.1}; double f = fs[r.below(6)]; T z = a; bp::scale(z, f); I W; W.l = roundHalfUp((ld)(double)A.l * f); W.h = roundHalfUp((ld)(double)A.h * f); I G = iv(z); auto near = [&](i128 g, i128 w) { return f == 0.1 ? g - w <= 1 && w - g <= 1 : g == w; }; q.b("scale", near(G.l, W.l) && near(G.h, W.h), true); }
  c.count("interval facts", q.n); Hash h; h.add((u64)A.l); h.add((u64)A.h); h.add((u64)B.l); h.add((u64)B.h); h.add((u64)x); h.add(t * 2 + d); c.nontrivial(h.h);
}
// ---------------------------------------------------------------- rectangles
struct R2 { I x, y; const I& o(int k) const { return k ? y : x; } I& o(int k) { return k ? y : x; } };
template <class T> R2 rv(const T& t) { R2 r; r.x = iv(bp::horizontal(t)); r.y = iv(bp::vertical(t)); return r; }
static std::string str(const R2& a) { return str(a.x) + "x" + str(a.y); }
static bool eq(const R2& a, const R2& b) { return a.x == b.x && a.y == b.y; }
template <class C> void rects(Ctx& c) {
  Rng& r = c.rng; bool small = r.chance(2, 3); Vals<C> V(r, small); typedef bp::rectangle_data<C> T; typedef bp::interval_data<C> IV; typedef bp::point_data<C> PT;
  C v[4] = {V.any(), V.any(), V.any(), V.any()}; if (r.chance(1, 8)) v[2] = v[0]; if (r.chance(1, 8)) v[3] = v[1];
  T a = bp::construct<T>(v[0], v[1], v[2], v[3]); R2 A; A.x.l = std::min(v[0], v[2]); A.x.h = std::max(v[0], v[2]); A.y.l = std::min(v[1], v[3]); A.y.h = std::max(v[1], v[3]);
  T b = bp::construct<T>(mk<C, IV>(V), mk<C, IV>(V)); if (r.chance(1, 3)) { int k = r.below(2); bp::set(b, k ? bp::VERTICAL : bp::HORIZONTAL, bp::get(a, k ? bp::VERTICAL : bp::HORIZONTAL)); } R2 B = rv(b);
  IV w = mk<C, IV>(V); I W1 = iv(w); PT p(V.any(), V.any()); if (r.chance(1, 4)) p = PT((C)(r.below(2) ? A.x.l : A.x.h), (C)(r.below(2) ? A.y.l : A.y.h));
  bool t = r.below(2); int k = r.below(2), d = r.below(2); bp::orientation_2d o = k ? bp::VERTICAL : bp::HORIZONTAL; bp::direction_1d dir = d ? bp::HIGH : bp::LOW; bp::direction_2d d2 = o.get_direction(dir); C x = V.any();
  Q q; q.n = 0; q.c = &c; q.what = "a=" + str(A) + " b=" + str(B) + " ivl=" + str(W1) + " p=(" + s128(p.x()) + "," + s128(p.y()) + ") x=" + s128(x) + " touch=" + (t ? "1" : "0") + " orient=" + (k ? "V" : "H") + " dir=" + (d ? "HIGH" : "LOW"); c.desc = q.what;
  auto R = [&](const char* f, const T& got, const R2& want) { ++q.n; R2 g = rv(got); if (!eq(g, want)) c.fail(f, q.what + " gives " + str(g) + " instead of " + str(want)); };
  R("rect-construct", a, A); R("rect-data", T((C)A.x.l, (C)A.y.l, (C)A.x.h, (C)A.y.h), A); q.i("rect-get", iv(bp::get(a, o)), A.o(k)); q.v("rect-get-dir", bp::get(a, o, dir), d ? A.o(k).h : A.o(k).l);
  q.v("xl", bp::xl(a), A.x.l); q.v("xh", bp::xh(a), A.x.h); q.v("yl", bp::yl(a), A.y.l); q.v("yh", bp::yh(a), A.y.h);
  { PT c0[4] = {bp::ll(a), bp::lr(a), bp::ul(a), bp::ur(a)}; for (int i = 0; i < 4; ++i) q.b("corners", c0[i].x() == (i & 1 ? A.x.h : A.x.l) && c0[i].y() == (i & 2 ? A.y.h : A.y.l), true); PT m; bp::center(m, a); auto mid = [](i128 m, const I& i) { i128 e = 2 * m - i.l - i.h; return e <= 1 && e >= -1 && m >= i.l && m <= i.h; }; q.b("rect-center", mid(m.x(), A.x) && mid(m.y(), A.y), true); }
  { PT m; bool ok = bp::get_corner(m, a, d2, t ? bp::HIGH : bp::LOW); i128 wx, wy; bool left = !t; if (k == 0) { wx = d ? A.x.h : A.x.l; wy = (d != 0) == left ? A.y.h : A.y.l; } else { wy = d ? A.y.h : A.y.l; wx = (d != 0) == left ? A.x.l : A.x.h; } q.b("get_corner", ok && m.x() == wx && m.y() == wy, true); }
  q.b("rect-equivalence", bp::equivalence(a, b), eq(A, B)); q.b("rect-operator==", a == b, eq(A, B)); q.b("rect-operator!=", a != b, !eq(A, B));
  q.b("rect-contains-point", bp::contains(a, p, t), has(A.x, p.x(), t) && has(A.y, p.y(), t)); q.b("rect-contains-point-default", bp::contains(a, p), has(A.x, p.x(), true) && has(A.y, p.y(), true));
  auto in = [&](const R2& u, const R2& v, bool t) { return has(u.x, v.x.l, t) && has(u.x, v.x.h, t) && has(u.y, v.y.l, t) && has(u.y, v.y.h, t); }; auto mt = [&](const R2& u, const R2& v, bool t) { return meet(u.x, v.x, t) && meet(u.y, v.y, t); };
  q.b("rect-contains", bp::contains(a, b, t), in(A, B, t)); q.b("rect-contains-default", bp::contains(a, b), in(A, B, true)); q.b("rect-intersects", bp::intersects(a, b, t), mt(A, B, t)); q.b("rect-intersects-default", bp::intersects(a, b), mt(A, B, true));
  q.b("rect-boundaries_intersect", bp::boundaries_intersect(a, b, t), mt(A, B, t) && !in(A, B, !t) && !in(B, A, !t));
  auto ab = [&](int k, int d) { const I &u = A.o(k), &z = B.o(k); return (d ? z.l == u.h : u.l == z.h) && meet(A.o(1 - k), B.o(1 - k), true); };
  q.b("rect-abuts-dir", bp::abuts(a, b, d2), ab(k, d)); q.b("rect-abuts-orient", bp::abuts(a, b, o), ab(k, 0) || ab(k, 1)); q.b("rect-abuts", bp::abuts(a, b), ab(0, 0) || ab(0, 1) || ab(1, 0) || ab(1, 1));
  q.v("rect-delta", bp::delta(a, o), A.o(k).h - A.o(k).l); if (A.x.h - A.x.l + A.y.h - A.y.l <= (i128)std::numeric_limits<i64>::max()) q.v("half_perimeter", bp::half_perimeter(a), A.x.h - A.x.l + A.y.h - A.y.l); if (2 * (A.x.h - A.x.l + A.y.h - A.y.l) <= (i128)std::numeric_limits<i64>::max()) q.v("perimeter", bp::perimeter(a), 2 * (A.x.h - A.x.l + A.y.h - A.y.l)); q.b("guess_orientation", bp::guess_orientation(a) == bp::HORIZONTAL, A.x.h - A.x.l >= A.y.h - A.y.l);
  { I X, Y; X.l = X.h = p.x(); Y.l = Y.h = p.y(); i128 dx = gap(A.x, X), dy = gap(A.y, Y), ex = gap(A.x, B.x), ey = gap(A.y, B.y);
    q.v("rect-distance-point-orient", bp::euclidean_distance(a, p, o), k ? dy : dx); q.v("rect-distance-orient", bp::euclidean_distance(a, b, o), k ? ey : ex); q.v("rect-manhattan-point", bp::manhattan_distance(a, p), dx + dy); q.v("rect-manhattan", bp::manhattan_distance(a, b), ex + ey);
    if (V.lim <= ((i128)1 << 28)) { q.v("area", bp::area(a), (A.x.h - A.x.l) * (A.y.h - A.y.l)); q.v("rect-square-point", bp::square_euclidean_distance(a, p), dx * dx + dy * dy); q.v("rect-square", bp::square_euclidean_distance(a, b), ex * ex + ey * ey);
      auto near = [&](const char* f, ld got, i128 s) { ld w = sqrtl((ld)s); ++q.n; if (fabsl(got - w) > 1e-15L * w * 4) c.fail(f, q.what + " gives a wrong distance"); }; near("rect-distance-point", bp::euclidean_distance(a, p), dx * dx + dy * dy); near("rect-distance", bp::euclidean_distance(a, b), ex * ex + ey * ey); } }
  { T z = a; bp::assign(z, b); R("rect-assign", z, B); T y(a); y = b; R("rect-operator=", y, B); R("rect-copy_construct", bp::copy_construct<T>(b), B); }
  { T z = a; R2 X = A; bp::set(z, o, w); X.o(k) = W1; R("rect-set", z, X); z = a; if (k) bp::vertical(z, w); else bp::horizontal(z, w); R("rect-set-named", z, X); z = a; bp::set(z, o, dir, x); X = A; X.o(k) = clampSet(A.o(k), d, x); R("rect-set-dir", z, X); z = a; if (k) { if (d) bp::yh(z, x); else bp::yl(z, x); } else { if (d) bp::xh(z, x); else bp::xl(z, x); } R("rect-set-side", z, X); }
  { T z = a; PT p2(V.any(), V.any()); bp::set_points(z, p, p2); R2 X; X.x.l = std::min(p.x(), p2.x()); X.x.h = std::max(p.x(), p2.x()); X.y.l = std::min(p.y(), p2.y()); X.y.h = std::max(p.y(), p2.y()); R("set_points", z, X); }
  { T z = a; bool ok = bp::intersect(z, b, t); R2 X = A; auto cut = [&](const I& u, const I& v, bool t, I& o) { i128 l = std::max(u.l, v.l), h = std::min(u.h, v.h); if (t ? l <= h : l < h) { o.l = l; o.h = h; return true; } return false; }; I ox, oy; bool okx = cut(A.x, B.x, t, ox), oky = cut(A.y, B.y, t, oy); bool degenerate = A.x.l == A.x.h || A.y.l == A.y.h || B.x.l == B.x.h || B.y.l == B.y.h;
    if (t || !degenerate) { if (okx && oky) { X.x = ox; X.y = oy; } q.b("rect-intersect-result", ok, okx && oky); R("rect-intersect", z, X); }
    z = a; ok = bp::intersect(z, w, o, t); X = A; bool okw = cut(A.o(k), W1, t, X.o(k)); q.b("rect-intersect-interval-result", ok, okw); R("rect-intersect-interval", z, X); }
  { T z = a; bp::generalized_intersect(z, b); R2 X; X.x = genInter(A.x, B.x); X.y = genInter(A.y, B.y); R("rect-generalized_intersect", z, X); }
  { T z = a; bool ok = bp::encompass(z, b); R2 X; X.x = hull(A.x, B.x); X.y = hull(A.y, B.y); q.b("rect-encompass-result", ok, !in(A, B, true)); R("rect-encompass", z, X); z = a; ok = bp::encompass(z, p); R2 Pp; Pp.x.l = Pp.x.h = p.x(); Pp.y.l = Pp.y.h = p.y(); X.x = hull(A.x, Pp.x); X.y = hull(A.y, Pp.y); q.b("rect-encompass-point-result", ok, !in(A, Pp, true)); R("rect-encompass-point", z, X); z = a; bp::encompass(z, w, o); X = A; X.o(k) = hull(A.o(k), W1); R("rect-encompass-interval", z, X); }
  { R2 X = A; bool jy = A.x == B.x && (B.y.l == A.y.h || A.y.l == B.y.h), jx = A.y == B.y && (B.x.l == A.x.h || A.x.l == B.x.h); if (jy) X.y = hull(A.y, B.y); else if (jx) X.x = hull(A.x, B.x); T z = a; q.b("rect-join_with-result", bp::join_with(z, b), jx || jy); R("rect-join_with", z, X); if (jx || jy) c.count("joins"); }
  { T g = bp::get_half(a, d2); R2 X = A; i128 m = bp::center(bp::get(a, o)); (d ? X.o(k).l : X.o(k).h) = m; R("rect-get_half", g, X); }
  { T z = a; bp::move(z, o, (typename bp::coordinate_traits<C>::coordinate_difference)x); R2 X = A; X.o(k).l += x; X.o(k).h += x; R("rect-move", z, X); }
  { T z = a; bp::convolve(z, p); R2 X = A; X.x.l += p.x(); X.x.h += p.x(); X.y.l += p.y(); X.y.h += p.y(); R("rect-convolve-point", z, X); bp::deconvolve(z, p); R("rect-deconvolve-point", z, A);
    z = a; bp::convolve(z, b); X.x.l = A.x.l + B.x.l; X.x.h = A.x.h + B.x.h; X.y.l = A.y.l + B.y.l; X.y.h = A.y.h + B.y.h; R("rect-convolve", z, X); bp::deconvolve(z, b); R("rect-deconvolve", z, A);
    z = a; bp::reflected_convolve(z, b); X.x.l = A.x.l - B.x.h; X.x.h = A.x.h - B.x.l; X.y.l = A.y.l - B.y.h; X.y.h = A.y.h - B.y.l; R("rect-reflected_convolve", z, X); if (V.lim * 3 < std::numeric_limits<C>::max()) { bp::reflected_deconvolve(z, b); R("rect-reflected_deconvolve", z, A); } }
  { C y = V.nonneg(); auto grow = [&](R2& X, int kk, i128 v) { X.o(kk).l -= v; X.o(kk).h += v; }; T z = a; R2 X = A; bp::bloat(z, y); grow(X, 0, y); grow(X, 1, y); R("rect-bloat", z, X); bp::shrink(z, y); R("rect-shrink", z, A); z = a; X = A; bp::bloat(z, o, y); grow(X, k, y); R("rect-bloat-orient", z, X); bp::shrink(z, o, y); R("rect-shrink-orient", z, A);
    z = a; X = A; bp::bloat(z, d2, y); if (d) X.o(k).h += y; else X.o(k).l -= y; R("rect-bloat-dir", z, X); bp::shrink(z, d2, y); R("rect-shrink-dir", z, A); z = a; bp::shrink(z, x); R2 S = rv(z); q.b("rect-order", ordered(S.x) && ordered(S.y), true); z = a; bp::shrink(z, d2, x); X = A; X.o(k) = clampSet(A.o(k), d, d ? A.o(k).h - x : A.o(k).l + x); R("rect-shrink-dir-over", z, X); }
  { C f = (C)r.range(1, 9); i128 m = std::numeric_limits<C>::max(); if (V.lim * f <= m) { T z = a; R2 X = A; for (int i = 0; i < 2; ++i) { X.o(i).l *= f; X.o(i).h *= f; } bp::scale_up(z, f); R("rect-scale_up", z, X); bp::scale_down(z, f); R("rect-scale_up-down", z, A); } T z = a; bp::scale_down(z, f); R2 G = rv(z); bool ok = true; for (int i = 0; i < 2; ++i) { i128 e0 = G.o(i).l * f - A.o(i).l, e1 = G.o(i).h * f - A.o(i).h; ok = ok && e0 < f && -e0 < f && e1 < f && -e1 < f && ordered(G.o(i)); } q.b("rect-scale_down", ok, true);
    if (V.lim <= ((i128)1 << 28)) { static const double fs[4] = {2.0, 0.5, 1.5, 3.0}; double fx = fs[r.below(4)], fy = fs[r.below(4)]; z = a; bp::scale(z, bp::anisotropic_scale_factor<double>(fx, fy)); R2 X; X.x.l = roundHalfUp((ld)A.x.l * fx); X.x.h = roundHalfUp((ld)A.x.h * fx); X.y.l = roundHalfUp((ld)A.y.l * fy); X.y.h = roundHalfUp((ld)A.y.h * fy); R("rect-scale", z, X); } }
  { for (int i = 0; i < 2; ++i) { typename T::interval_type dummy; (void)dummy; bool tup = true; bp::orientation_2d oo = i ? bp::VERTICAL : bp::HORIZONTAL; i128 ka[4] = {A.o(i).l, A.o(1 - i).l, A.o(i).h, A.o(1 - i).h}, kb[4] = {B.o(i).l, B.o(1 - i).l, B.o(i).h, B.o(1 - i).h}; tup = std::lexicographical_compare(ka, ka + 4, kb, kb + 4); q.b("less_rectangle_concept", bp::less_rectangle_concept<T, T>(oo)(a, b), tup); } }
  c.count("rectangle facts", q.n); Hash h; for (int i = 0; i < 2; ++i) { h.add((u64)A.o(i).l); h.add((u64)A.o(i).h); h.add((u64)B.o(i).l); h.add((u64)B.o(i).h); } h.add((u64)x); h.add((u64)p.x()); h.add(t * 4 + k * 2 + d); c.nontrivial(h.h);
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"interval-int", [](Ctx& c) { ivals<int>(c); }, 1000000, 30000000});
  f.push_back({"interval-i64", [](Ctx& c) { ivals<long long>(c); }, 300000, 10000000});
  f.push_back({"rectangle-int", [](Ctx& c) { rects<int>(c); }, 1000000, 30000000});
  f.push_back({"rectangle-i64", [](Ctx& c) { rects<long long>(c); }, 300000, 10000000});
  return f;
}
}
VF_MAIN()
