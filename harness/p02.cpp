// P02: a Manhattan polygon set denotes a point set under any history.
#include "set90.hpp"
namespace vf {
using namespace boost::polygon::operators;

// Executable model: cover counts on a coordinate grid.
struct Model {
  std::vector<i64> xs, ys; W w; // w[i*(ny)+j]
  size_t nx() const { return xs.size() < 2 ? 0 : xs.size() - 1; }
  size_t ny() const { return ys.size() < 2 ? 0 : ys.size() - 1; }
  void refine(std::vector<i64> ax, std::vector<i64> ay) {
    ax.insert(ax.end(), xs.begin(), xs.end()); ay.insert(ay.end(), ys.begin(), ys.end());
    std::sort(ax.begin(), ax.end()); ax.erase(std::unique(ax.begin(), ax.end()), ax.end());
    std::sort(ay.begin(), ay.end()); ay.erase(std::unique(ay.begin(), ay.end()), ay.end());
    if (ax == xs && ay == ys) return;
    size_t mx = ax.size() < 2 ? 0 : ax.size() - 1, my = ay.size() < 2 ? 0 : ay.size() - 1;
    W v(mx * my, 0);
    if (nx() && ny()) for (size_t i = 0; i < mx; ++i) {
      if (ax[i] < xs.front() || ax[i] >= xs.back()) continue;
      size_t a = std::upper_bound(xs.begin(), xs.end(), ax[i]) - xs.begin() - 1;
      for (size_t j = 0; j < my; ++j) {
        if (ay[j] < ys.front() || ay[j] >= ys.back()) continue;
        size_t b = std::upper_bound(ys.begin(), ys.end(), ay[j]) - ys.begin() - 1;
        v[i * my + j] = w[a * ny() + b];
      }
    }
    xs = ax; ys = ay; w = v;
  }
  Grid grid() const { Grid g; g.xs = xs; g.ys = ys; g.seal(); return g; }
  void insert(const Poly& p, int mult) {
    std::vector<i64> ax, ay; for (auto& q : p.outer) { ax.push_back(q.x); ay.push_back(q.y); } for (auto& h : p.holes) for (auto& q : h) { ax.push_back(q.x); ay.push_back(q.y); }
    refine(ax, ay); Grid g = grid(); W d(g.nx * g.ny, 0); rasterPoly(g, d, p, mult); integrate(g, d);
    for (size_t k = 0; k < w.size(); ++k) w[k] += d[k];
  }
  void clean() { w = positive(w); }
  bool zeroOne() const { for (int v : w) if (v < 0 || v > 1) return false; return true; }
  bool neg() const { for (int v : w) if (v < 0) return true; return false; }
  bool empty() const { for (int v : w) if (v > 0) return false; return true; }
  i128 area() const { i128 a = 0; for (size_t i = 0; i < nx(); ++i) for (size_t j = 0; j < ny(); ++j) if (w[i * ny() + j] > 0) a += (i128)(xs[i + 1] - xs[i]) * (ys[j + 1] - ys[j]); return a; }
  bool extents(i64 e[4]) const { bool any = false; for (size_t i = 0; i < nx(); ++i) for (size_t j = 0; j < ny(); ++j) if (w[i * ny() + j] > 0) { i64 q[4] = {xs[i], xs[i + 1], ys[j], ys[j + 1]}; if (!any) { for (int k = 0; k < 4; ++k) e[k] = q[k]; any = true; } else { e[0] = std::min(e[0], q[0]); e[1] = std::max(e[1], q[1]); e[2] = std::min(e[2], q[2]); e[3] = std::max(e[3], q[3]); } } return any; }
  size_t vertices() const { // corners of the cleaned mask (points with non-zero mixed difference)
    size_t n = 0; auto at = [&](size_t i, size_t j) { return i < nx() && j < ny() && w[i * ny() + j] > 0 ? 1 : 0; };
    for (size_t i = 0; i <= nx(); ++i) for (size_t j = 0; j <= ny(); ++j) { int d = at(i, j) - (i ? at(i - 1, j) : 0) - (j ? at(i, j - 1) : 0) + (i && j ? at(i - 1, j - 1) : 0); n += (size_t)(d < 0 ? -d : d); }
    return n;
  }
  void op(const Model& o0, int k) { Model o = o0; refine(o.xs, o.ys); o.refine(xs, ys); w = boolW(w, o.w, k); }
  void addCounts(const Model& o0) { Model o = o0; refine(o.xs, o.ys); o.refine(xs, ys); for (size_t k = 0; k < w.size(); ++k) w[k] += o.w[k]; }
  // monotone non-decreasing coordinate maps
  template <class FX, class FY> void mapCoords(FX fx, FY fy) {
    std::vector<i64> ax, ay; std::vector<size_t> ix, iy;
    for (size_t i = 0; i < xs.size(); ++i) { i64 v = fx(xs[i]); if (ax.empty() || v != ax.back()) { ax.push_back(v); ix.push_back(i); } else ix.back() = i; }
    for (size_t i = 0; i < ys.size(); ++i) { i64 v = fy(ys[i]); if (ay.empty() || v != ay.back()) { ay.push_back(v); iy.push_back(i); } else iy.back() = i; }
    size_t mx = ax.size() < 2 ? 0 : ax.size() - 1, my = ay.size() < 2 ? 0 : ay.size() - 1; W v(mx * my, 0);
    for (size_t i = 0; i < mx; ++i) for (size_t j = 0; j < my; ++j) v[i * my + j] = w[ix[i] * ny() + iy[j]];
    xs = ax; ys = ay; w = v;
  }
  void flipx() { std::vector<i64> a; for (auto it = xs.rbegin(); it != xs.rend(); ++it) a.push_back(-*it); W v(w.size()); for (size_t i = 0; i < nx(); ++i) for (size_t j = 0; j < ny(); ++j) v[(nx() - 1 - i) * ny() + j] = w[i * ny() + j]; xs = a; w = v; }
  void flipy() { std::vector<i64> a; for (auto it = ys.rbegin(); it != ys.rend(); ++it) a.push_back(-*it); W v(w.size()); for (size_t i = 0; i < nx(); ++i) for (size_t j = 0; j < ny(); ++j) v[i * ny() + ny() - 1 - j] = w[i * ny() + j]; ys = a; w = v; }
  void swapxy() { W v(w.size()); for (size_t i = 0; i < nx(); ++i) for (size_t j = 0; j < ny(); ++j) v[j * nx() + i] = w[i * ny() + j]; std::swap(xs, ys); w = v; }
  i64 maxAbs() const { i64 m = 0; for (i64 v : xs) m = std::max(m, v < 0 ? -v : v); for (i64 v : ys) m = std::max(m, v < 0 ? -v : v); return m; }
  // positive cells as rectangles in random arrangement
  std::vector<Poly> cells(Rng& r) const {
    std::vector<Poly> v; bool vert = r.chance(1, 2);
    std::vector<char> used(w.size(), 0);
    for (size_t i = 0; i < nx(); ++i) for (size_t j = 0; j < ny(); ++j) if (w[i * ny() + j] > 0 && !used[i * ny() + j]) {
      size_t i2 = i, j2 = j;
      if (r.chance(2, 3)) { if (vert) while (j2 + 1 < ny() && w[i * ny() + j2 + 1] > 0 && !used[i * ny() + j2 + 1]) ++j2; else while (i2 + 1 < nx() && w[(i2 + 1) * ny() + j] > 0 && !used[(i2 + 1) * ny() + j]) ++i2; }
      for (size_t a = i; a <= i2; ++a) for (size_t b = j; b <= j2; ++b) used[a * ny() + b] = 1;
      Poly p; p.outer = rectRing(xs[i], ys[j], xs[i2 + 1], ys[j2 + 1]); v.push_back(p);
    }
    for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below((int)k)]);
    return v;
  }
};

template <class C> struct Slot { bp::polygon_90_set_data<C> s; Model m; Slot(bp::orientation_2d o) : s(o) {} };

static const char* WN[8] = {"EN", "WN", "ES", "WS", "NE", "SE", "NW", "SW"};

template <class C> void historyCase(Ctx& c, int maxSteps) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S;
  static const i64 los[5] = {0, -8, -60, -100000, 1000}, his[5] = {9, 8, 60, 100000, 1020};
  int rg = r.below(5);
  Scene sc; sc.xs = coordPool(r, 2 + r.below(8), los[rg], his[rg]); sc.ys = coordPool(r, 2 + r.below(8), los[rg], his[rg]);
  auto O = [&](int k) { return k ? bp::VERTICAL : bp::HORIZONTAL; };
  std::vector<Slot<C> > sl; int k0 = r.below(2), k1 = r.below(2);
  sl.push_back(Slot<C>(O(k0))); sl.push_back(Slot<C>(O(k1)));
  std::string& d = c.desc; d = std::string("H0=") + (k0 ? "V" : "H") + " H1=" + (k1 ? "V" : "H");
  int steps = 3 + r.below(maxSteps); Hash h; bool any = false; int mutated = 0;
  auto poly = [&]() { Poly p = genPoly90(r, sc.xs, sc.ys, r.chance(1, 2), false); scramble(r, p); return p; };
  for (int st = 0; st < steps; ++st) {
    Slot<C>& a = sl[r.below(2)]; Slot<C>& b = &a == &sl[0] ? sl[1] : sl[0];
    std::string who = &a == &sl[0] ? "0" : "1";
    auto log = [&](const std::string& t) { d += "; s" + who + "." + t; };
    int op = r.below(38); h.add(op);
    ++mutated;
    if (a.m.nx() * a.m.ny() > 1600) { a.s.clear(); a.m = Model(); log("clear"); continue; }
    switch (op) {
      case 0: case 1: case 2: { Poly p = poly(); Item it; it.p = p; it.form = p.holes.size() ? 0 : r.below(2); if (isRect(p) && r.chance(1, 2)) it.form = 2; log("insert(" + str(p) + ",form" + std::to_string(it.form) + ")"); insertItem(a.s, it); a.m.insert(p, 1); break; }
      case 3: case 4: { // subtractive insert: only well defined on a set whose counts are 0/1
        if (!a.m.zeroOne()) { log("clean"); a.s.clean(); a.m.clean(); }
        Item it; it.p = poly(); it.hole = true; it.form = it.p.holes.size() ? 0 : 1; if (isRect(it.p)) it.form = 2;
        log("insert(-" + str(it.p) + ")"); insertItem(a.s, it); a.m.insert(it.p, -1);
        if (a.m.neg()) { int how = r.below(4); log("scan" + std::to_string(how)); if (how == 0) a.s.clean(); else if (how == 1) (void)a.s.empty(); else if (how == 2) (void)observe90(a.s, 0); else { bp::rectangle_data<C> e; (void)a.s.extents(e); } a.m.clean(); }
        break; }
      case 5: { log("insert(set)"); a.s.insert(b.s); a.m.addCounts(b.m); break; }
      case 6: { log("insert(vertex range of other set)"); a.s.insert(b.s.begin(), b.s.end(), b.s.orient()); a.m.addCounts(b.m); break; }
      case 7: { int k = 1 + r.below(3); std::vector<bp::rectangle_data<C> > v; log("insert(range of " + std::to_string(k) + " rects)"); while (k--) { Poly p = poly(); bp::rectangle_data<C> q = toRect<C>(p.outer); v.push_back(q); a.m.insert(fromRect(q), 1); d += str(fromRect(q)); } if (r.chance(1, 2)) a.s.insert(v.begin(), v.end()); else { std::list<bp::rectangle_data<C> > l(v.begin(), v.end()); a.s.insert(l.begin(), l.end()); } break; }
      case 8: { log("clear"); if (r.chance(1, 2)) a.s.clear(); else bp::clear(a.s); a.m = Model(); break; }
      case 9: { log("= other"); a.s = b.s; a.m = b.m; break; }
      case 10: { int o = r.below(2); log(std::string("= copy of other scanned ") + (o ? "V" : "H")); S t(O(o), b.s); a.s = t; a.m = b.m; c.check(a.s.orient() == O(o), "orient", "orientation-converting copy has the wrong orientation"); break; }
      case 11: { log("= self"); S& ref = a.s; a.s = ref; break; }
      case 12: { log("swap"); std::swap(a.s, b.s); std::swap(a.m, b.m); break; }
      case 13: { log("assign(rects of model)"); auto v = a.m.cells(r); std::vector<bp::rectangle_data<C> > q; for (auto& p : v) q.push_back(toRect<C>(p.outer)); bp::assign(a.s, q); a.m.clean(); break; }
      case 14: { Poly p = poly(); log("=poly " + str(p)); a.s = to90h<C>(p); a.m = Model(); a.m.insert(p, 1); break; }
      case 15: case 16: case 17: case 18: { int k = op - 15; // operators with the other set, possibly orientation-mixed
        if (b.m.neg()) break;
        log(std::string("op") + std::to_string(k) + "= other");
        if (k == 0) { if (r.chance(1, 2)) { a.s |= b.s; a.m.addCounts(b.m); } else { a.s = a.s | b.s; a.m.op(b.m, 0); } }
        else if (k == 1) { a.s &= b.s; a.m.op(b.m, 1); }
        else if (k == 2) { a.s ^= b.s; a.m.op(b.m, 2); }
        else { a.s -= b.s; a.m.op(b.m, 3); }
        break; }
      case 19: { int k = r.below(4); log("op" + std::to_string(k) + "= self"); if (k == 0) { a.s |= a.s; a.m.clean(); a.s.clean(); } else if (k == 1) { a.s &= a.s; a.m.clean(); } else if (k == 2) { a.s ^= a.s; a.m = Model(); } else { a.s -= a.s; a.m = Model(); } break; }
      case 20: case 21: { i64 dx = r.range(-20, 20), dy = r.range(-20, 20); if (r.chance(1, 4) && a.m.maxAbs() < 1000000) { if (r.chance(2, 3)) dx = r.chance(1, 3) ? 0 : r.range(-1000000, 1000000); if (r.chance(2, 3)) dy = r.chance(1, 3) ? 0 : r.range(-1000000, 1000000); } log("move " + std::to_string(dx) + "," + std::to_string(dy)); if (r.chance(1, 2)) a.s.move((C)dx, (C)dy); else bp::move(a.s, (C)dx, (C)dy); a.m.mapCoords([&](i64 v) { return v + dx; }, [&](i64 v) { return v + dy; }); break; }
      case 22: case 23: case 24: { int t = r.below(8); i64 dx = 0, dy = 0; bp::axis_transformation at((bp::axis_transformation::ATR)t); log(std::string("transform ") + WN[t]);
        if (r.chance(1, 3)) { dx = r.range(-9, 9); dy = r.range(-9, 9); d += " disp " + std::to_string(dx) + "," + std::to_string(dy); bp::transformation<C> tr(at, bp::point_data<C>((C)dx, (C)dy)); a.s.transform(tr); }
        else if (r.chance(1, 2)) a.s.transform(at); else bp::transform(a.s, at);
        a.m.mapCoords([&](i64 v) { return v - dx; }, [&](i64 v) { return v - dy; });
        if (t & 1) a.m.flipx();
        if (t & 2) a.m.flipy();
        if (t & 4) a.m.swapxy();
        break; }
      case 25: { if (a.m.maxAbs() > 5000000) break; unsigned f = 1 + r.below(3); log("scale_up " + std::to_string(f)); if (r.chance(1, 2)) a.s.scale_up(f); else bp::scale_up(a.s, f); a.m.mapCoords([&](i64 v) { return v * (i64)f; }, [&](i64 v) { return v * (i64)f; }); break; }
      case 26: case 27: { unsigned f = 1 + r.below(5); log("scale_down " + std::to_string(f)); if (r.chance(1, 2)) a.s.scale_down(f); else bp::scale_down(a.s, f); auto fn = [&](i64 v) { return (i64)std::floor((double)v / f + 0.5); }; a.m.mapCoords(fn, fn); break; }
      case 28: { double f = r.chance(1, 2) ? 0.5 : 1.5; if (a.m.maxAbs() > 5000000) break; log("scale " + std::to_string(f)); a.s.scale(f); auto fn = [&](i64 v) { return (i64)std::floor(v * f + 0.5); }; a.m.mapCoords(fn, fn); break; }
      case 29: { double fx = 0.5 * (1 + r.below(4)), fy = 0.5 * (1 + r.below(4)); if (a.m.maxAbs() > 5000000) break; log("scale x" + std::to_string(fx) + " y" + std::to_string(fy)); bp::anisotropic_scale_factor<double> sf(fx, fy); int w = r.below(3); if (w == 0) a.s.scale(sf); else if (w == 1) a.s.scale_with(sf); else bp::scale(a.s, sf); a.m.mapCoords([&](i64 v) { return (i64)std::floor(v * fx + 0.5); }, [&](i64 v) { return (i64)std::floor(v * fy + 0.5); }); break; }
      case 30: { log("clean"); a.s.clean(); a.m.clean(); break; }
      case 31: { log("sort"); a.s.sort(); break; }
      case 32: { log("set(vertices of other)"); a.s.set(b.s.begin(), b.s.end(), b.s.orient()); a.m = b.m; break; }
      case 33: { log("set(value of other)"); typename S::value_type v(b.s.value()); a.s.set(v, b.s.orient()); a.m = b.m; break; }
      case 34: { int o = r.below(2); log(std::string("= S(") + (o ? "V" : "H") + ", polygon range)"); std::vector<bp::polygon_90_with_holes_data<C> > v; Model m; int k = r.below(3); while (k--) { Poly p = poly(); v.push_back(to90h<C>(p)); m.insert(p, 1); d += str(p); } S t(O(o), v.begin(), v.end()); c.check(t.orient() == O(o), "ctor-orient", "set constructed with an orientation reports another"); a.s = t; a.m = m; break; }
      case 35: { log("= S(orient, vertex range of other)"); S t(b.s.orient(), b.s.begin(), b.s.end()); a.s = t; a.m = b.m; break; }
      case 36: { // vertical edges one by one
        if (!a.m.zeroOne()) { a.s.clean(); a.m.clean(); }
        Poly p; { Scene& s = sc; int i = r.below((int)s.xs.size() - 1), j = r.below((int)s.ys.size() - 1); p.outer = rectRing(s.xs[i], s.ys[j], s.xs[i + 1], s.ys[j + 1]); }
        log("insert edges of " + str(p)); typedef bp::point_data<C> pt; i64 x1 = p.outer[0].x, y1 = p.outer[0].y, x2 = p.outer[2].x, y2 = p.outer[2].y;
        a.s.insert(std::make_pair(std::make_pair(pt((C)x1, (C)y1), pt((C)x1, (C)y2)), 1)); a.s.insert(std::make_pair(std::make_pair(pt((C)x2, (C)y1), pt((C)x2, (C)y2)), 1), true); a.m.insert(p, 1); break; }
      default: { S t(a.s); log("copy"); a.s = t; break; }
    }
    // observers
    int nobs = r.below(3);
    for (int q = 0; q < nobs; ++q) {
      // Any observer that scans turns counts into covers; with only non-negative counts that is invisible,
      // so the model keeps the raw counts (subtractive inserts force an explicit scan first).
      int ob = r.below(9); c.count("observations");
      d += " ?" + std::to_string(ob);
      switch (ob) {
        case 0: case 1: { int how = r.below(5); Grid g = a.m.grid(); if (!sameRegion(c, g, positive(a.m.w), observe90(a.s, how), "get", " (form " + std::to_string(how) + ")")) return; break; }
        case 2: { bool e = r.chance(1, 2) ? a.s.empty() : bp::empty(a.s); if (!c.check(e == a.m.empty(), "empty", std::string("empty() says ") + (e ? "true" : "false"))) return; break; }
        case 3: { i64 e[4]; bool want = a.m.extents(e); bp::rectangle_data<C> q1(7, 7, 9, 9); bool got = r.chance(1, 2) ? a.s.extents(q1) : bp::extents(q1, a.s); if (!c.check(want == got, "extents-return")) return; if (want && !c.check(bp::xl(q1) == e[0] && bp::xh(q1) == e[1] && bp::yl(q1) == e[2] && bp::yh(q1) == e[3], "extents", "got " + str(fromRect(q1)))) return; break; }
        case 4: { i128 want = a.m.area(); i128 got = (i128)bp::area(a.s); if (!c.check(want == got, "area", "expected " + s128(want) + " got " + s128(got))) return; break; }
        case 5: { size_t want = a.m.vertices(), got = a.s.size(); if (!c.check(want == got, "size", "expected " + std::to_string(want) + " got " + std::to_string(got))) return; break; }
        case 6: { // rebuilt in another order and representation it must compare equal
          int o = r.below(3); S t(o == 2 ? a.s.orient() : O(o)); auto v = a.m.cells(r); for (auto& p : v) { if (r.chance(1, 2)) t.insert(toRect<C>(p.outer)); else t.insert(to90<C>(p.outer)); }
          if (!v.empty() && r.chance(1, 3)) t.insert(toRect<C>(v[0].outer));
          bool eq = r.chance(1, 2) ? a.s == t : t == a.s; if (!c.check(eq, t.orient() == a.s.orient() ? "equal" : "equal-mixed-orient", "set differs from the same region rebuilt from rectangles")) return;
          c.check((a.s != t) == !eq, "not-equal"); c.check(bp::equivalence(a.s, t), "equivalence"); break; }
        case 7: { // a different region must compare different
          Poly p = poly(); Model m2 = a.m; m2.clean(); Model pm; pm.insert(p, 1); m2.op(pm, 2); if (r.chance(1, 2)) break; S t(a.s.orient()); for (auto& q2 : m2.cells(r)) t.insert(toRect<C>(q2.outer)); if (!c.check(!(a.s == t), "unequal", "sets of different regions compare equal")) return; break; }
        default: { int o = r.below(2); std::vector<bp::rectangle_data<C> > v; if (r.chance(1, 2)) a.s.get_rectangles(v, O(o)); else bp::get_rectangles(v, a.s, O(o)); Grid g = a.m.grid(); if (!sameRegion(c, g, positive(a.m.w), fromRects(v), "get_rectangles")) return; break; }
      }
    }
    if (!a.m.empty()) any = true;
  }
  // final full comparison of both slots, in both orders of observation
  for (int k = 0; k < 2; ++k) { Slot<C>& a = sl[k]; Grid g = a.m.grid(); if (a.m.neg()) a.m.clean(); if (!sameRegion(c, g, positive(a.m.w), observe90(a.s, r.below(5)), "final")) return; c.check(a.s.empty() == a.m.empty(), "final-empty"); }
  c.count("mutations", mutated);
  for (i64 v : sl[0].m.xs) h.add((u64)v);
  for (int v : sl[0].m.w) h.add((u64)v);
  if (any) c.nontrivial(h.h);
}

std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"history-int", [](Ctx& c) { historyCase<int>(c, 14); }, 40000, 1500000});
#elif PART == 1
  f.push_back({"history-i64", [](Ctx& c) { historyCase<long long>(c, 14); }, 12000, 400000});
  f.push_back({"long-history-i64", [](Ctx& c) { historyCase<long long>(c, 60); }, 3000, 100000});
#endif
  return f;
}
}
VF_MAIN()
