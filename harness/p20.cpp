// P20: Voronoi predicates, observed online while real diagrams are built (the
// builder takes its predicates as a template parameter) and called directly.
#include <boost/multiprecision/cpp_bin_float.hpp>
#include "vor.hpp"
namespace vf {
namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_bin_float<160, mp::digit_base_2>, mp::et_off> F;
typedef bp::detail::voronoi_ctype_traits<int> CT;
typedef bp::detail::voronoi_predicates<CT> VP;
typedef bp::detail::site_event<int> SE;
typedef bp::detail::circle_event<double> CE;
typedef bp::detail::point_2d<int> PT;
static Ctx* cur;
static const double EPS = 2.220446049250313e-16;
static std::string str(const SE& s) { std::string w = "(" + std::to_string(s.x0()) + "," + std::to_string(s.y0()); if (s.is_segment()) w += ";" + std::to_string(s.x1()) + "," + std::to_string(s.y1()) + (s.is_inverse() ? ";inverse" : ""); return w + ")"; }
static std::string str(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static int sgnF(const F& f) { return f > 0 ? 1 : f < 0 ? -1 : 0; }

// ---- event order
static bool lessSpec(const SE& a, const SE& b, bool& known) { // what is specified of the order of two sites
  known = true; if (a.x0() != b.x0()) return a.x0() < b.x0(); bool as = a.is_segment(), bs = b.is_segment();
  if (!as && !bs) return a.y0() < b.y0();
  bool av = as && a.x1() == a.x0(), bv = bs && b.x1() == b.x0();
  if (!as && bs) return bv ? a.y0() <= b.y0() : true;          // a point comes before the segments that leave its column
  if (as && !bs) return av ? a.y0() < b.y0() : false;
  if (av != bv) return av;                                     // vertical segments before the others
  if (a.y0() != b.y0()) return a.y0() < b.y0();
  if (av) return false;
  known = false; return false;
}
static void siteLess(const SE& a, const SE& b, bool res, bool rev) {
  bool known; bool w = lessSpec(a, b, known);
  if (known && w != res) cur->fail("site-order", str(a) + (res ? " ordered before " : " not ordered before ") + str(b));
  if (res && rev) cur->fail("site-antisymmetry", str(a) + " and " + str(b) + " each come before the other");
  cur->count("site orders");
}
template <class S, class C> struct MonEvent : VP::event_comparison_predicate<S, C> {
  typedef VP::event_comparison_predicate<S, C> B; 
  bool operator()(const S& a, const S& b) const { bool r = B::operator()(a, b); siteLess(a, b, r, B::operator()(b, a)); return r; }
  bool operator()(const S& a, const C& b) const { bool r = B::operator()(a, b); judge(a.x0(), b.lower_x(), r, "site-circle"); return r; }
  bool operator()(const C& a, const S& b) const { bool r = B::operator()(a, b); judge(a.lower_x(), b.x0(), r, "circle-site"); return r; }
  bool operator()(const C& a, const C& b) const { bool r = B::operator()(a, b); bool w = a.lower_x() != b.lower_x() ? a.lower_x() < b.lower_x() : a.y() < b.y(); if (w != r) cur->fail("circle-order", "circle events at " + str(a.lower_x()) + " and " + str(b.lower_x()) + " misordered"); cur->count("circle orders"); return r; }
  static void judge(double a, double b, bool r, const char* k) { if (std::fabs(a - b) <= 130 * EPS * std::max(std::fabs(a), std::fabs(b))) { cur->count("simultaneous events"); if (a == b && r) cur->fail(std::string(k) + "-equal", "an event precedes one at the same position"); return; } cur->count("site circle orders"); if (r != (a < b)) cur->fail(k, str(a) + (r ? " precedes " : " does not precede ") + str(b)); }
};

// ---- beach line order
struct Arc { bool seg; F px, py, slope, at0; }; // distance to the arc along the line y=Y: point: parabola, segment: at0 + slope*(Y-Y0)
static F distPt(const SE& s, const F& X, const F& Y) { F dx = F(s.x0()) - X, dy = F(s.y0()) - Y; return (dx * dx + dy * dy) / (2 * dx); }
static F distSeg(const SE& s, const F& X, const F& Y) { F dx = F(s.x1()) - s.x0(), dy = F(s.y1()) - s.y0(); if (dx == 0) return (F(s.x0()) - X) / 2; return (dx * (Y - s.y0()) - dy * (X - s.x0())) / (sqrt(dx * dx + dy * dy) + dy); }
static F slopeSeg(const SE& s) { F dx = F(s.x1()) - s.x0(), dy = F(s.y1()) - s.y0(); if (dx == 0) return F(0); return dx / (sqrt(dx * dx + dy * dy) + dy); }
// is the breakpoint of (l, r) below the point p that lies on the sweep line? 1 yes, 0 no, -1 too close to call
static int breakBelow(const SE& l, const SE& r, const PT& p) {
  F X = p.x(), Y = p.y(); F tol = 40 * EPS;
  if (l.sorted_index() == r.sorted_index()) return vori(P(l.x0(), l.y0()), P(l.x1(), l.y1()), P(p.x(), p.y())) > 0;
  if (!l.is_segment() && !r.is_segment()) {
    if (l.x0() == r.x0()) return (i64)l.y0() + r.y0() < 2 * (i64)p.y();
    i128 dl = (i128)p.x() - l.x0(), dr = (i128)p.x() - r.x0(), el = (i128)l.y0() - p.y(), er = (i128)r.y0() - p.y();
    if (l.x0() > r.x0()) { if (p.y() <= l.y0()) return 0; } else if (p.y() >= r.y0()) return 1;
    i128 a = (dl * dl + el * el) * dr, b = (dr * dr + er * er) * dl; double fa = (double)a, fb = (double)b; if (std::fabs(fa - fb) <= 16 * EPS * std::max(fa, fb)) return -1; return a > b; // the right arc is closer to the line
  }
  if (l.is_segment() && r.is_segment()) {
    F dl = distSeg(l, X, Y), dr = distSeg(r, X, Y); if (abs(dl - dr) <= tol * (abs(dl) + abs(dr))) return -1;
    if (slopeSeg(r) <= slopeSeg(l)) { cur->count("parallel arcs"); }
    return dr > dl;
  }
  const SE& s = l.is_segment() ? l : r; const SE& q = l.is_segment() ? r : l;
  F a = distPt(q, X, Y), b = distSeg(s, X, Y), h = a - b; if (abs(h) <= tol * (abs(a) + abs(b))) return -1;
  F dx = F(q.x0()) - X; F top = F(q.y0()) + slopeSeg(s) * dx; if (abs(Y - top) <= tol * (abs(Y) + abs(top) + abs(dx))) return -1;
  if (!l.is_segment()) return h < 0 && Y > top; // upper crossing
  return !(h < 0 && Y < top);                    // lower crossing
}
template <class N> struct MonNode : VP::node_comparison_predicate<N> {
  typedef VP::node_comparison_predicate<N> B;
  static const SE& newer(const N& n) { return n.left_site().sorted_index() > n.right_site().sorted_index() ? n.left_site() : n.right_site(); }
  static PT low(const SE& s) { return !s.is_segment() || s.x0() < s.x1() || (s.x0() == s.x1() && s.y0() < s.y1()) ? s.point0() : s.point1(); }
  bool operator()(const N& a, const N& b) const {
    bool r = B::operator()(a, b); cur->count("node orders");
    if (r && B::operator()(b, a)) cur->fail("node-antisymmetry", "each of two beach line nodes precedes the other");
    PT p = low(newer(a)), q = low(newer(b));
    if (p.x() < q.x()) judge(a, q, r, "node-order-new-second"); else if (p.x() > q.x()) judge(b, p, !r, "node-order-new-first"); else { const SE &u = newer(a), &v = newer(b); bool vu = u.is_segment() && u.x0() == u.x1(), vv = v.is_segment() && v.x0() == v.x1(); if (!vu && !vv && p.y() != q.y()) { cur->count("node orders in one column"); if (r != (p.y() < q.y())) cur->fail("node-order-column", "nodes that begin at heights " + std::to_string(p.y()) + " and " + std::to_string(q.y()) + " in one column are misordered"); } else cur->count("node orders not judged"); }
    return r;
  }
  static void judge(const N& n, const PT& p, bool res, const char* k) {
    int w = breakBelow(n.left_site(), n.right_site(), p); if (w < 0) { cur->count("breakpoints too close to call"); return; }
    const char* kind = n.left_site().is_segment() ? n.right_site().is_segment() ? "segment-segment breakpoints" : "segment-point breakpoints" : n.right_site().is_segment() ? "point-segment breakpoints" : "point-point breakpoints"; cur->count(kind);
    if (w != (int)res) cur->fail(std::string(k) + ":" + kind, "breakpoint of " + str(n.left_site()) + " " + str(n.right_site()) + (w ? " is below (" : " is not below (") + std::to_string(p.x()) + "," + std::to_string(p.y()) + ")");
  }
};

// ---- circle events
static bool ends(const SE& s, const SE& p) { return s.is_segment() && !p.is_segment() && ((s.x0() == p.x0() && s.y0() == p.y0()) || (s.x1() == p.x0() && s.y1() == p.y0())); }
static int refine(const SE* s[3], F& x, F& y, F& r) {
  int sg[3]; for (int i = 0; i < 3; ++i) if (s[i]->is_segment()) { F dx = F(s[i]->x1()) - s[i]->x0(), dy = F(s[i]->y1()) - s[i]->y0(); sg[i] = sgnF(dx * (y - s[i]->y0()) - dy * (x - s[i]->x0())); }
  for (int it = 0; it < 12; ++it) {
    F m[3][4];
    for (int i = 0; i < 3; ++i) {
      if (!s[i]->is_segment()) { F dx = x - s[i]->x0(), dy = y - s[i]->y0(); m[i][0] = 2 * dx; m[i][1] = 2 * dy; m[i][2] = -2 * r; m[i][3] = -(dx * dx + dy * dy - r * r); }
      else {
        F dx = F(s[i]->x1()) - s[i]->x0(), dy = F(s[i]->y1()) - s[i]->y0(); F L = sqrt(dx * dx + dy * dy); int e = -1; for (int j = 0; j < 3; ++j) if (ends(*s[i], *s[j])) e = j;
        if (e >= 0) { m[i][0] = dx / L; m[i][1] = dy / L; m[i][2] = 0; m[i][3] = -((x - s[e]->x0()) * dx + (y - s[e]->y0()) * dy) / L; } // tangent at its own end point
        else { m[i][0] = -dy / L; m[i][1] = dx / L; m[i][2] = -sg[i]; m[i][3] = -((dx * (y - s[i]->y0()) - dy * (x - s[i]->x0())) / L - sg[i] * r); }
      }
    }
    for (int c = 0; c < 3; ++c) { int b = c; for (int i = c + 1; i < 3; ++i) if (abs(m[i][c]) > abs(m[b][c])) b = i; if (m[b][c] == 0) return 0; for (int k = 0; k < 4; ++k) std::swap(m[c][k], m[b][k]); for (int i = 0; i < 3; ++i) if (i != c) { F f = m[i][c] / m[c][c]; if (f != 0) for (int k = c; k < 4; ++k) m[i][k] -= f * m[c][k]; } }
    F ux = m[0][3] / m[0][0], uy = m[1][3] / m[1][1], ur = m[2][3] / m[2][2]; x += ux; y += uy; r += ur;
    F big = abs(x) + abs(y) + abs(r) + 1; if (abs(ux) + abs(uy) + abs(ur) < big * F(1e-32)) return r > 0;
  }
  return 0;
}
template <class S, class C, class A = typename VP::circle_existence_predicate<S>, class D = typename VP::lazy_circle_formation_functor<S, C> > struct MonCircle : VP::circle_formation_predicate<S, C, A, D> {
  typedef VP::circle_formation_predicate<S, C, A, D> B;
  bool operator()(const S& a, const S& b, const S& c, C& e) { bool r = B::operator()(a, b, c, e); judge(a, b, c, e, r); return r; }
  static void judge(const S& a, const S& b, const S& c, const C& e, bool r) {
    int ns = a.is_segment() + b.is_segment() + c.is_segment(); cur->count("circle candidates");
    if (!ns) { bool w = vori(P(a.x0(), a.y0()), P(b.x0(), b.y0()), P(c.x0(), c.y0())) < 0; if (w != r) { cur->fail("circle-existence", str(a) + str(b) + str(c) + (w ? " meet" : " do not meet")); return; } }
    if (!r) return;
    const S* s[3] = {&a, &b, &c}; F x = e.x(), y = e.y(), R = F(e.lower_x()) - x;
    std::string w = str(a) + str(b) + str(c) + " -> " + str(e.x()) + "," + str(e.y()) + " lower " + str(e.lower_x());
    if (!(std::isfinite(e.x()) && std::isfinite(e.y()) && std::isfinite(e.lower_x()))) { cur->fail("circle-not-finite", w); return; }
    if (!(R >= 0)) { cur->fail("circle-radius", w); return; }
    F x1 = x, y1 = y, R1 = R; if (!refine(s, x1, y1, R1)) { cur->count("circles not refined"); return; }
    F l0 = e.lower_x(), l1 = x1 + R1; double t = 64 * EPS; auto off = [&](const F& u, const F& v) { return abs(u - v) > t * abs(v) + 1e-30; };
    static const char* nm[4] = {"circles of points", "circles of two points and a segment", "circles of a point and two segments", "circles of three segments"}; cur->count(nm[ns]);
    if (off(x, x1) || off(y, y1) || off(l0, l1)) {
      // Newton may have left for the other tangent circle when the two nearly coincide
      F scale = abs(x1) + abs(y1) + abs(R1); if (abs(x - x1) + abs(y - y1) + abs(l0 - l1) > scale * F(1e-6)) { cur->count("circles not refined"); return; }
      cur->fail(std::string("circle-accuracy:") + nm[ns], w + " exact " + x1.str(25) + "," + y1.str(25) + " lower " + l1.str(25));
    }
  }
};
struct Mon : VP {
  template <class S, class C> struct event_comparison_predicate : MonEvent<S, C> {};
  template <class N> struct node_comparison_predicate : MonNode<N> {};
  template <class S, class C> struct circle_formation_predicate : MonCircle<S, C> {};
};
static void build(Ctx& c, bool segs, int maxN) {
  cur = &c; VGen g(c.rng); VIn in = g.gen(segs, maxN); c.desc = in.str();
  bp::voronoi_builder<int, CT, Mon> b; for (auto& p : in.pts) b.insert_point((int)p.x, (int)p.y); for (auto& s : in.segs) b.insert_segment((int)s.first.x, (int)s.first.y, (int)s.second.x, (int)s.second.y);
  VD d; b.construct(&d); c.count("diagrams"); if (in.pts.size() + in.segs.size() > 1) c.nontrivial(in.hash());
}

// nearly vertical segments at large coordinates, with points beside them
static void steep(Ctx& c) {
  cur = &c; Rng& r = c.rng; VGen g(r); VIn in; in.kind = "steep"; i64 S = 1LL << (18 + r.below(14)); i64 ox = S > (1LL << 30) ? -S / 2 : r.range(-S / 4, S / 4), oy = S > (1LL << 30) ? -S / 2 : r.range(-S / 4, S / 4); int n = 1 + r.below(4);
  for (int i = 0; i < 3 * n && (int)in.segs.size() < n; ++i) { P a = g.clamp(P(ox + r.range(0, S), oy + r.range(0, S))); i64 dx = r.chance(1, 2) ? r.range(1, 6) : r.range(1, std::max<i64>(2, S >> r.range(8, 20))), dy = r.range(S / 16, S) * (r.chance(3, 4) ? -1 : 1); SG q(a, g.clamp(P(a.x + dx, a.y + dy))); if (r.chance(1, 2)) std::swap(q.first, q.second); g.addSeg(in, q); }
  for (int i = r.below(6); i > 0; --i) g.addPt(in, g.clamp(P(ox + r.range(0, S), oy + r.range(0, S))));
  c.desc = in.str(); bp::voronoi_builder<int, CT, Mon> b; for (auto& p : in.pts) b.insert_point((int)p.x, (int)p.y); for (auto& s : in.segs) b.insert_segment((int)s.first.x, (int)s.first.y, (int)s.second.x, (int)s.second.y);
  VD d; b.construct(&d); c.count("diagrams of steep segments"); if (in.pts.size() + in.segs.size() > 1) c.nontrivial(in.hash());
}

// ---- direct calls over the full 32-bit range
static int coord(Rng& r, int m) { switch (m) { case 0: return (int)r.range(LO, HI); case 1: return (int)r.range(-8, 8); case 2: return (int)(r.chance(1, 2) ? HI - r.range(0, 3) : LO + r.range(0, 3)); case 3: return (int)r.range(-(1 << 20), 1 << 20); default: return r.chance(1, 3) ? (int)r.range(-2, 2) : r.chance(1, 2) ? (int)HI : (int)LO; } }
static void orient(Ctx& c) {
  Rng& r = c.rng; typedef VP::orientation_test OT; cur = &c; i64 n = 0; Hash h;
  for (int k = 0; k < 60; ++k) {
    int m = r.below(5); PT p(coord(r, m), coord(r, m)), q(coord(r, m), coord(r, m)), s(coord(r, m), coord(r, m));
    if (r.chance(1, 2)) { i64 dx = ((i64)q.x() - p.x()) / 4, dy = ((i64)q.y() - p.y()) / 4, f = r.range(0, 4); i64 x = p.x() + dx * f + r.range(-1, 1) * r.below(2), y = p.y() + dy * f + r.range(-1, 1) * r.below(2); s = PT((int)std::max(LO, std::min(HI, x)), (int)std::max(LO, std::min(HI, y))); }
    int w = vori(P(p.x(), p.y()), P(q.x(), q.y()), P(s.x(), s.y())); int g1 = OT::eval(p, q, s), g2 = OT::eval(q, p, s), g3 = OT::eval(q, s, p);
    if (g1 != w || g2 != -w || g3 != w) { c.desc = "points"; c.fail("orientation", "orientation of (" + std::to_string(p.x()) + "," + std::to_string(p.y()) + ")(" + std::to_string(q.x()) + "," + std::to_string(q.y()) + ")(" + std::to_string(s.x()) + "," + std::to_string(s.y()) + ") is " + std::to_string(w) + " but " + std::to_string(g1) + "," + std::to_string(-g2) + "," + std::to_string(g3)); return; }
    n += 3; h.add((u64)p.x()); h.add((u64)q.y()); h.add((u64)s.x());
    i64 M = 1LL << 32, v[4]; for (auto& z : v) z = r.chance(1, 4) ? (r.chance(1, 2) ? M - 1 - r.below(3) : 1 - M + r.below(3)) : r.range(-M + 1, M - 1); if (r.chance(1, 3)) { i64 f = r.range(1, 4); v[0] /= f; v[1] /= f; v[2] = v[0] * f; v[3] = v[1] * f + r.range(-1, 1) * r.below(2); if (std::llabs(v[3]) >= M) v[3] = v[1] * f; }
    i128 ex = (i128)v[0] * v[3] - (i128)v[1] * v[2]; double got = VP::robust_cross_product(v[0], v[1], v[2], v[3]);
    if ((int)OT::eval(v[0], v[1], v[2], v[3]) != vsgn(ex) || std::fabs((double)((long double)got - (long double)ex)) > 2 * EPS * std::fabs((double)ex)) { c.desc = "vectors"; c.fail("cross-product", std::to_string(v[0]) + "," + std::to_string(v[1]) + " x " + std::to_string(v[2]) + "," + std::to_string(v[3]) + " = " + s128(ex) + " but " + str(got)); return; }
    ++n;
  }
  c.count("orientations", n); c.nontrivial(h.h);
}
static void order(Ctx& c) { // the site order sorts any mix of points and segments
  Rng& r = c.rng; cur = &c; VP::event_comparison_predicate<SE, CE> less; std::vector<SE> v; int m = r.below(5), n = 2 + r.below(12); Hash h; std::vector<int> pool; for (int i = 0; i < 4; ++i) pool.push_back(coord(r, m));
  auto pt = [&]() { return PT(r.chance(1, 2) ? r.pick(pool) : coord(r, m), r.chance(1, 2) ? r.pick(pool) : coord(r, m)); }; PT hub = pt();
  for (int i = 0; i < n; ++i) { PT a = r.chance(1, 3) ? hub : pt(), b = pt(); if (r.chance(1, 3) || a == b) v.push_back(SE(a)); else { if (b.x() < a.x() || (b.x() == a.x() && b.y() < a.y())) std::swap(a, b); v.push_back(SE(a, b)); } h.add((u64)a.x()); h.add((u64)b.y()); }
  c.desc = "sites "; for (auto& s : v) c.desc += str(s);
  for (auto& a : v) for (auto& b : v) siteLess(a, b, less(a, b), less(b, a));
  for (auto& a : v) for (auto& b : v) if (less(a, b)) for (auto& d : v) if (less(b, d)) { if (!less(a, d)) { c.fail("site-transitivity", str(a) + " < " + str(b) + " < " + str(d) + " but not " + str(a) + " < " + str(d)); return; } c.count("transitive triples"); }
  // sites that are not ordered must be interchangeable
  for (auto& a : v) for (auto& b : v) if (!less(a, b) && !less(b, a)) { if (!(a.point0() == b.point0())) { c.fail("site-distinct", str(a) + " and " + str(b) + " are not ordered"); return; } for (auto& d : v) if (less(a, d) != less(b, d) || less(d, a) != less(d, b)) { c.fail("site-equivalence", str(a) + " and " + str(b) + " are not interchangeable against " + str(d)); return; } }
  c.nontrivial(h.h);
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"steep", steep, 20000, 1000000});
  f.push_back({"points", [](Ctx& c) { build(c, false, 30); }, 15000, 600000});
  f.push_back({"segments", [](Ctx& c) { build(c, true, 20); }, 20000, 800000});
  f.push_back({"many", [](Ctx& c) { build(c, c.rng.chance(1, 2), 120); }, 300, 10000});
  f.push_back({"orientation", orient, 20000, 2000000});
  f.push_back({"site-order", order, 20000, 1000000});
  return f;
}
}
VF_MAIN()
