// P15: directions, orientations, axis transformations, transformations and scale factors.
#include "lib.hpp"
#include "common.hpp"
namespace vf {
typedef bp::axis_transformation AT;
typedef std::pair<i128, i128> V2;
static std::string s2(V2 v) { return "(" + s128(v.first) + "," + s128(v.second) + ")"; }
// the eight plane symmetries, spelled out per enumerator (first word: image of the x axis direction)
static V2 act(int a, V2 v) {
  switch (a) { case 0: return v; case 1: return V2(-v.first, v.second); case 2: return V2(v.first, -v.second); case 3: return V2(-v.first, -v.second);
    case 4: return V2(v.second, v.first); case 5: return V2(v.second, -v.first); case 6: return V2(-v.second, v.first); default: return V2(-v.second, -v.first); }
}
static int compose(int a, int b) { for (int k = 0; k < 8; ++k) if (act(k, V2(3, 5)) == act(b, act(a, V2(3, 5)))) return k; return -1; }
struct K { Ctx* c; i64 n; void b(const char* key, bool ok, const std::string& m) { ++n; if (!ok) c->fail(key, m); } };
#define T(key, cond) do { ++k.n; if (!(cond)) c.fail(key, std::string(#cond) + " fails for " + w); } while (0)
static V2 unit(int d) { static const int dx[4] = {-1, 1, 0, 0}, dy[4] = {0, 0, -1, 1}; return V2(dx[d], dy[d]); } // W E S N
static int dirOf(V2 u) { for (int d = 0; d < 4; ++d) if (unit(d) == u) return d; return -1; }
static bp::direction_2d d2(int d) { static const bp::direction_2d_enum e[4] = {bp::WEST, bp::EAST, bp::SOUTH, bp::NORTH}; return bp::direction_2d(e[d]); }
static int eOf(bp::direction_2d d) { for (int i = 0; i < 4; ++i) if (d == d2(i)) return i; return -1; }

static void isotropy(Ctx& c) {
  K k; k.c = &c; k.n = 0; int d = c.rng.below(4), e = c.rng.below(4), i1 = c.rng.below(2), d3 = c.rng.below(6); std::string w = "d=" + std::to_string(d) + " e=" + std::to_string(e) + " i=" + std::to_string(i1) + " d3=" + std::to_string(d3); c.desc = w;
  bp::direction_2d D = d2(d), E = d2(e); V2 u = unit(d); bool pos = u.first + u.second > 0, vert = u.second != 0;
  T("direction-eq", (D == E) == (d == e)); T("direction-ne", (D != E) == (d != e)); T("direction-order", (D < E) + (E < D) + (D == E) == 1 && (D <= E) == !(E < D) && (D > E) == (E < D) && (D >= E) == !(D < E));
  T("direction-backward", dirOf(V2(-u.first, -u.second)) == eOf(D.backward())); T("direction-left", dirOf(V2(-u.second, u.first)) == eOf(D.left())); T("direction-right", dirOf(V2(u.second, -u.first)) == eOf(D.right()));
  T("direction-turn", D.turn(bp::HIGH) == D.left() && D.turn(bp::LOW) == D.right());
  T("direction-sign", D.is_positive() == pos && D.is_negative() == !pos && D.get_sign() == (pos ? 1 : -1));
  T("direction-to-orientation", (bp::orientation_2d(D) == bp::VERTICAL) == vert); T("direction-to-1d", (bp::direction_1d(D) == bp::HIGH) == pos);
  T("orientation-get_direction", bp::orientation_2d(D).get_direction(bp::direction_1d(D)) == D);
  bp::direction_1d I(i1 ? bp::HIGH : bp::LOW), J(I); T("direction1-sign", I.get_sign() == (i1 ? 1 : -1) && (int)I.to_int() == i1); J.backward(); T("direction1-backward", J != I && J == bp::direction_1d(i1 ? bp::LOW : bp::HIGH)); T("direction1-twice", J.backward() == I);
  bp::orientation_2d O(i1 ? bp::VERTICAL : bp::HORIZONTAL), Q(O); Q.turn_90(); T("orientation-turn", Q != O && Q == O.get_perpendicular() && O.get_perpendicular().get_perpendicular() == O && !(Q == O)); T("orientation-int", (int)O.to_int() == i1);
  T("orientation-default", bp::orientation_2d() == bp::HORIZONTAL && bp::direction_1d() == bp::LOW && bp::direction_2d() == bp::WEST);
  bp::orientation_2d O2; O2 = O; bp::direction_2d D2; D2 = D; bp::direction_1d I2; I2 = I; T("copy", O2 == O && D2 == D && I2 == I && bp::direction_2d(D) == D && bp::orientation_2d(O) == O);
  bp::orientation_3d o3(d3 < 4 ? bp::orientation_3d(bp::orientation_2d(d3 / 2 ? bp::VERTICAL : bp::HORIZONTAL)) : bp::orientation_3d(bp::PROXIMAL)); bp::direction_3d D3 = o3.get_direction(d3 % 2 ? bp::HIGH : bp::LOW);
  T("direction3", (int)D3.to_int() == d3 && D3.is_positive() == (d3 % 2 == 1) && D3.is_negative() == (d3 % 2 == 0) && D3.get_sign() == (d3 % 2 ? 1 : -1) && bp::orientation_3d(D3) == o3 && bp::direction_1d(D3) == bp::direction_1d(d3 % 2 ? bp::HIGH : bp::LOW));
  if (d3 < 4) T("direction3-2d", D3 == bp::direction_3d(d2(d3)) && bp::orientation_3d(d2(d3)) == o3); else T("direction3-up", D3 == bp::direction_3d(d3 == 5 ? bp::UP : bp::DOWN));
  bp::direction_3d B3 = D3.backward(); T("direction3-backward", (int)B3.to_int() == (d3 ^ 1) && B3 != D3); bp::direction_3d E3 = bp::direction_3d(E); T("direction3-order", (D3 < E3) == ((int)D3.to_int() < (int)E3.to_int()) && (D3 <= E3) == !(E3 < D3) && (D3 > E3) == (E3 < D3) && (D3 >= E3) == !(D3 < E3) && (D3 == E3) == (d3 == e));
  c.count("isotropy facts", k.n); c.nontrivial(((d * 4 + e) * 2 + i1) * 6 + d3 + 1);
}
template <class C> C coord(Rng& r) { i64 lim; switch (r.below(4)) { case 0: lim = 3; break; case 1: lim = 50; break; case 2: lim = 1 << 20; break; default: lim = (i64)(std::numeric_limits<C>::max() / 16); } return (C)r.range(-lim, lim); }
template <class C> V2 app(const AT& t, V2 v) { C x = (C)v.first, y = (C)v.second; t.transform(x, y); return V2(x, y); }
template <class C> V2 app(const bp::transformation<C>& t, V2 v) { C x = (C)v.first, y = (C)v.second; t.transform(x, y); return V2(x, y); }
template <class C> void axis(Ctx& c) {
  Rng& r = c.rng; K k; k.c = &c; k.n = 0; int a = r.below(8), b = r.below(8); V2 v(coord<C>(r), coord<C>(r)); std::string w = "a=" + std::to_string(a) + " b=" + std::to_string(b) + " v=" + s2(v); c.desc = w;
  AT A((AT::ATR)a), B((AT::ATR)b); T("axis-act", app<C>(A, v) == act(a, v)); T("axis-compose", A + B == AT((AT::ATR)compose(a, b)) && app<C>(A + B, v) == app<C>(B, app<C>(A, v)));
  { AT S(A); S += B; T("axis-plus-assign", S == A + B); AT S2(A); S2 += S2; T("axis-plus-self", S2 == A + A); T("axis-inverse", app<C>(A.inverse(), app<C>(A, v)) == v && A + A.inverse() == AT() && A.inverse() + A == AT()); AT I(A); I.invert(); T("axis-invert", I == A.inverse()); }
  T("axis-eq", (A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b)); { AT S; S = (AT::ATR)a; AT U; U = B; T("axis-assign", S == A && U == B && AT() == AT(AT::NULL_TRANSFORM)); }
  { bp::direction_2d h, g; A.get_directions(h, g); T("axis-directions", unit(eOf(h)) == act(a, V2(1, 0)) && unit(eOf(g)) == act(a, V2(0, 1))); AT S; S.set_directions(h, g); T("axis-set-directions", S == A); }
  { AT::INDIVIDUAL_AXIS p[2], q[2]; A.populate_axis_array(p); B.populate_axis_array(q); static const AT::INDIVIDUAL_AXIS names[4] = {AT::PX, AT::NX, AT::PY, AT::NY}; static const int dx[4] = {1, -1, 0, 0}, dy[4] = {0, 0, 1, -1}; bool ok = true; for (int i = 0; i < 2; ++i) { V2 u = act(a, i ? V2(0, 1) : V2(1, 0)); int m = -1; for (int j = 0; j < 4; ++j) if (p[i] == names[j]) m = j; ok = ok && m >= 0 && V2(dx[m], dy[m]) == u; } T("axis-array", ok); AT S; S.write_back_axis_array(p); T("axis-write-back", S == A); AT::combine_axis_arrays(p, q); S.write_back_axis_array(p); T("axis-combine", S == A + B); }
  { AT S((bp::orientation_2d(a & 1 ? bp::VERTICAL : bp::HORIZONTAL))); T("axis-from-orientation", S == AT(a & 1 ? AT::EAST_NORTH : AT::NORTH_EAST)); static const AT::ATR fd[4] = {AT::SOUTH_EAST, AT::NORTH_EAST, AT::EAST_SOUTH, AT::EAST_NORTH}; AT U(d2(b & 3)); T("axis-from-direction", U == AT(fd[b & 3])); }
  // full transformations
  typedef bp::transformation<C> X; typedef bp::point_data<C> PT; V2 p(coord<C>(r), coord<C>(r)), q(coord<C>(r), coord<C>(r)); w += " p=" + s2(p) + " q=" + s2(q); c.desc = w;
  X tp(A, PT((C)p.first, (C)p.second)), tq(B, PT((C)q.first, (C)q.second)); auto sub = [](V2 a, V2 b) { return V2(a.first - b.first, a.second - b.second); }; auto add = [](V2 a, V2 b) { return V2(a.first + b.first, a.second + b.second); };
  T("tr-act", app<C>(tp, v) == act(a, sub(v, p))); T("tr-compose", app<C>(tp + tq, v) == app<C>(tq, app<C>(tp, v))); { X s(tp); s += tq; T("tr-plus-assign", s == tp + tq); X s2_(tp); s2_ += s2_; T("tr-plus-self", s2_ == tp + tp); X cc; cc = tp; T("tr-copy", cc == tp && X(tp) == tp); }
  T("tr-inverse", app<C>(tp.inverse(), app<C>(tp, v)) == v && tp + tp.inverse() == X() && tp.inverse() + tp == X()); { X s(tp); s.invert(); T("tr-invert", s == tp.inverse() && s.inverse() == tp); }
  T("tr-assoc", (tp + tq) + tp == tp + (tq + tp)); T("tr-identity", X() + tp == tp && tp + X() == tp && app<C>(X(), v) == v); T("tr-eq", (tp == tq) == (a == b && p == q) && (tp != tq) == !(tp == tq)); T("tr-order", (tp < tq) + (tq < tp) + (tp == tq) == 1);
  { X s(A, PT((C)p.first, (C)p.second), PT((C)q.first, (C)q.second)); T("tr-reference", app<C>(s, v) == add(act(a, sub(v, p)), q) && s.get_axis_transformation() == A); }
  { X s(A); T("tr-axis-only", app<C>(s, v) == act(a, v)); X s1((AT::ATR)a); T("tr-axis-only", s1 == s); X s2_(PT((C)p.first, (C)p.second)); T("tr-shift-only", app<C>(s2_, v) == sub(v, p)); PT g; tp.get_translation(g); T("tr-get", V2(g.x(), g.y()) == p && tp.get_axis_transformation() == A); s2_.set_axis_transformation(A); T("tr-set", s2_ == tp); s.set_translation(PT((C)p.first, (C)p.second)); T("tr-set-translation", s == tp); bp::direction_2d h, h2, u, u2; tp.get_directions(h, u); A.get_directions(h2, u2); T("tr-directions", h == h2 && u == u2); }
  // acting on geometry
  { PT g((C)v.first, (C)v.second); bp::transform(g, tp); V2 z = app<C>(tp, v); T("tr-point", V2(g.x(), g.y()) == z); V2 z2 = app<C>(tp, q); bp::segment_data<C> sg(PT((C)v.first, (C)v.second), PT((C)q.first, (C)q.second)); bp::transform(sg, tp); T("tr-segment", V2(sg.low().x(), sg.low().y()) == z && V2(sg.high().x(), sg.high().y()) == z2);
    bp::rectangle_data<C> rc = bp::construct<bp::rectangle_data<C> >((C)v.first, (C)v.second, (C)q.first, (C)q.second); bp::transform(rc, tp); T("tr-rectangle", bp::xl(rc) == std::min(z.first, z2.first) && bp::xh(rc) == std::max(z.first, z2.first) && bp::yl(rc) == std::min(z.second, z2.second) && bp::yh(rc) == std::max(z.second, z2.second)); }
  c.count("transformation facts", k.n); Hash h; h.add(a * 8 + b); h.add((u64)v.first); h.add((u64)v.second); h.add((u64)p.first); h.add((u64)q.second); c.nontrivial(h.h);
}
static void scales(Ctx& c) {
  Rng& r = c.rng; K k; k.c = &c; k.n = 0; static const double fs[8] = {1, 2, 4, 0.5, 0.25, 3, 8, 1.5}; auto f = [&]() { return fs[r.below(8)] * (r.chance(1, 3) ? -1 : 1); }; double ax = f(), ay = f(), bx = f(), by = f(); int t = r.below(8); i64 x = r.range(-100000, 100000), y = r.range(-100000, 100000);
  std::string w = "a=(" + std::to_string(ax) + "," + std::to_string(ay) + ") b=(" + std::to_string(bx) + "," + std::to_string(by) + ") t=" + std::to_string(t) + " v=" + s2(V2(x, y)); c.desc = w; typedef bp::anisotropic_scale_factor<double> S; S A(ax, ay), B(bx, by), M = A + B;
  T("scale-get", A.x() == ax && A.y() == ay && A.get(bp::HORIZONTAL) == ax && A.get(bp::VERTICAL) == ay); T("scale-default", S().x() == 1 && S().y() == 1); T("scale-compose", M.x() == ax * bx && M.y() == ay * by); { S q; q.x(ax); q.y(ay); T("scale-set", q.x() == ax && q.y() == ay); S q2; q2.set(bp::HORIZONTAL, ax); q2.set(bp::VERTICAL, ay); T("scale-set", q2.x() == ax && q2.y() == ay); q += B; T("scale-plus-assign", q.x() == M.x() && q.y() == M.y()); S q3(A); q3.invert(); T("scale-invert", q3.x() == 1 / ax && q3.y() == 1 / ay); q3 += A; T("scale-inverse", fabs(q3.x() - 1) < 1e-12 && fabs(q3.y() - 1) < 1e-12); }
  { int X = (int)x, Y = (int)y; A.scale(X, Y); T("scale-int", X == (int)floor(x * ax + 0.5) && Y == (int)floor(y * ay + 0.5)); double u = x, v = y; A.scale(u, v); T("scale-double", u == x * ax && v == y * ay); long long LX = x, LY = y; A.scale(LX, LY); T("scale-i64", LX == (i64)floor(x * ax + 0.5) && LY == (i64)floor(y * ay + 0.5)); int P = (int)x, Q = (int)y; bp::point_data<int> p(P, Q); bp::scale(p, A); T("scale-point", p.x() == X && p.y() == Y); }
  { // scaling then transforming equals transforming then scaling by the transformed factors
    AT R((AT::ATR)t); S q(A); q.transform(R); double u = x, v = y, u2 = x, v2 = y; A.scale(u, v); R.transform(u, v); R.transform(u2, v2); q.scale(u2, v2); T("scale-transform", u == u2 && v == v2); }
  c.count("scale facts", k.n); Hash h; h.add((u64)(i64)(ax * 64)); h.add((u64)(i64)(by * 64)); h.add((u64)(x * 8 + t)); h.add((u64)y); c.nontrivial(h.h);
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"isotropy", isotropy, 4000, 40000});
  f.push_back({"axis-int", [](Ctx& c) { axis<int>(c); }, 600000, 20000000});
  f.push_back({"axis-i64", [](Ctx& c) { axis<long long>(c); }, 300000, 10000000});
  f.push_back({"scale", scales, 600000, 20000000});
  return f;
}
}
VF_MAIN()
