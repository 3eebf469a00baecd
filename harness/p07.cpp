// P07: Manhattan growing and shrinking are exact dilation and erosion.
#include "set90.hpp"
namespace vf {
using namespace boost::polygon::operators;

// dilate the mask by the box [-w,e]x[-s,n]
inline void dilate(const Grid& g, const W& m, i64 w, i64 e, i64 s, i64 n, Grid& og, W& o) {
  og = Grid();
  for (i64 v : g.xs) { og.xs.push_back(v - w); og.xs.push_back(v + e); og.xs.push_back(v); }
  for (i64 v : g.ys) { og.ys.push_back(v - s); og.ys.push_back(v + n); og.ys.push_back(v); }
  og.seal(); o.assign(og.nx * og.ny, 0);
  for (size_t i = 0; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) if (m[i * g.ny + j]) {
    size_t a = og.xi(g.xs[i] - w), b = og.xi(g.xs[i + 1] + e), c = og.yi(g.ys[j] - s), d = og.yi(g.ys[j + 1] + n);
    for (size_t x = a; x < b; ++x) for (size_t y = c; y < d; ++y) o[x * og.ny + y] = 1;
  }
}
// erode: points whose displaced box stays inside = complement of the dilated complement (mirrored box)
inline void erode(const Grid& g0, const W& m0, i64 w, i64 e, i64 s, i64 n, Grid& og, W& o) {
  Grid g; g.xs = g0.xs; g.ys = g0.ys;
  if (g.xs.empty()) { g.xs.push_back(0); g.xs.push_back(1); g.ys = g.xs; }
  i64 M = 4 * (w + e + s + n) + 10; i64 x1 = g.xs.front() - M, x2 = g.xs.back() + M, y1 = g.ys.front() - M, y2 = g.ys.back() + M;
  g.xs.push_back(x1); g.xs.push_back(x2); g.ys.push_back(y1); g.ys.push_back(y2); g.seal();
  W m(g.nx * g.ny, 1);
  for (size_t i = 0; i < g0.nx; ++i) for (size_t j = 0; j < g0.ny; ++j) if (m0[i * g0.ny + j]) m[(i + 1) * g.ny + j + 1] = 0;
  Grid dg; W d; dilate(g, m, e, w, n, s, dg, d);
  // restrict to inside of the artificial frame
  og = Grid(); for (i64 v : dg.xs) if (v >= x1 && v <= x2) og.xs.push_back(v);
  for (i64 v : dg.ys) if (v >= y1 && v <= y2) og.ys.push_back(v);
  og.seal(); o.assign(og.nx * og.ny, 0);
  for (size_t i = 0; i < og.nx; ++i) for (size_t j = 0; j < og.ny; ++j) o[i * og.ny + j] = !d[dg.xi(og.xs[i]) * dg.ny + dg.yi(og.ys[j])];
}
static i64 pickDist(Rng& r, const Scene& s) {
  int k = r.below(6);
  if (k == 0) return 0;
  const std::vector<i64>& v = r.chance(1, 2) ? s.xs : s.ys;
  i64 d = r.range(1, 4);
  if (k < 3) { int i = r.below((int)v.size() - 1), j = i + 1; d = v[j] - v[i]; if (k == 2 && d > 1) d = d / 2 + r.below(2); d += r.range(-1, 1); }
  if (d < 0) d = 0;
  return std::min<i64>(d, 200000);
}
template <class C> void resizeCase(Ctx& c, int mode) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S;
  static const i64 los[4] = {0, -8, -60, -100000}, his[4] = {9, 8, 60, 100000};
  int rg = r.below(4);
  Scene sc; sc.xs = coordPool(r, 2 + r.below(9), los[rg], his[rg]); sc.ys = coordPool(r, 2 + r.below(9), los[rg], his[rg]);
  Items v = genItems(r, sc, 4, true, false, false);
  Grid g; addc(g, v); g.seal(); W m = positive(rasterItems(g, v));
  i64 w = pickDist(r, sc), e = pickDist(r, sc), s = pickDist(r, sc), n = pickDist(r, sc);
  if (r.chance(1, 3)) w = e = s = n = pickDist(r, sc);
  int form = r.below(8); int grow = r.below(2);
  bp::orientation_2d o = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; int obs = r.below(5); int cont = r.below(3);
  i64 lo = r.below(2), hi = r.below(2);
  bp::direction_2d dir((bp::direction_2d_enum)r.below(4)); int dirI = dir.to_int(); (void)lo; (void)hi;
  // entry points that take fewer distances
  if (form == 2) { e = s = n = w; }
  if (form == 3) { if (r.chance(1, 2)) { s = n = 0; e = w; dirI = 0; } else { w = e = 0; n = s; dirI = 1; } }
  if (form == 4) { if (r.chance(1, 2)) { s = n = 0; dirI = 0; } else { w = e = 0; dirI = 1; } }
  if (form == 5) { i64 d = std::max(std::max(w, e), std::max(s, n)); w = e = s = n = 0; if (dir == bp::WEST) w = d; else if (dir == bp::EAST) e = d; else if (dir == bp::SOUTH) s = d; else n = d; }
  if (form == 6) { e = s = n = w; }
  i64 rw = w, re = e, rs = s, rn = n;
  if (form == 7) { // resize with mixed signs per axis: defined by the net growth of each axis after a shift
    if (r.chance(1, 2)) { rw = -w; re = -e; } if (r.chance(1, 2)) { rs = -s; rn = -n; }
  } else if (form == 1 && !grow) { rw = -w; re = -e; rs = -s; rn = -n; }
  c.desc = std::string(grow ? "grow" : "shrink") + " form=" + std::to_string(form) + " w,e,s,n=" + std::to_string(w) + "," + std::to_string(e) + "," + std::to_string(s) + "," + std::to_string(n) + (form == 7 ? " signed " + std::to_string(rw) + "," + std::to_string(re) + "," + std::to_string(rs) + "," + std::to_string(rn) : "") + " orient=" + (o == bp::HORIZONTAL ? "H" : "V") + " obs=" + std::to_string(obs) + " cont=" + std::to_string(cont) + " A=" + strv(v);
  Grid og; W want;
  if (form != 7) { if (grow) dilate(g, m, w, e, s, n, og, want); else erode(g, m, w, e, s, n, og, want); }
  else {
    // each axis separately grows or shrinks; when signs differ the shrinking is applied first
    Grid g1; W m1; bool gx = rw + re >= 0 && rw >= 0, gy = rs + rn >= 0 && rs >= 0;
    if (!gx && !gy) erode(g, m, -rw, -re, -rs, -rn, og, want);
    else if (gx && gy) dilate(g, m, rw, re, rs, rn, og, want);
    else if (!gx) { erode(g, m, -rw, -re, 0, 0, g1, m1); dilate(g1, m1, 0, 0, rs, rn, og, want); }
    else { erode(g, m, 0, 0, -rs, -rn, g1, m1); dilate(g1, m1, rw, re, 0, 0, og, want); }
  }
  S ps(o); for (auto& i : v) insertItem(ps, i);
  std::vector<bp::polygon_90_with_holes_data<C> > pv; for (auto& i : v) pv.push_back(to90h<C>(i.p));
  std::vector<bp::rectangle_data<C> > rv; if (cont == 2) { std::vector<bp::rectangle_data<C> > q; ps.get_rectangles(q, r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL); rv = q; }
  typedef typename bp::coordinate_traits<C>::unsigned_area_type U;
  std::vector<Poly> out;
  auto apply = [&](auto& X) {
    switch (form) {
      case 0: case 1: if (form == 1) bp::resize(X, (C)(grow ? w : -w), (C)(grow ? e : -e), (C)(grow ? s : -s), (C)(grow ? n : -n)); else if (grow) bp::bloat(X, (U)w, (U)e, (U)s, (U)n); else bp::shrink(X, (U)w, (U)e, (U)s, (U)n); break;
      case 2: if (r.chance(1, 2)) { if (grow) bp::bloat(X, (U)w); else bp::shrink(X, (U)w); } else bp::resize(X, (C)(grow ? w : -w)); break;
      case 3: { bp::orientation_2d q = dirI ? bp::VERTICAL : bp::HORIZONTAL; U d = (U)(dirI ? s : w); if (grow) bp::bloat(X, q, d); else bp::shrink(X, q, d); break; }
      case 4: { bp::orientation_2d q = dirI ? bp::VERTICAL : bp::HORIZONTAL; U d1 = (U)(dirI ? s : w), d2 = (U)(dirI ? n : e); if (grow) bp::bloat(X, q, d1, d2); else bp::shrink(X, q, d1, d2); break; }
      case 5: { U d = (U)(w + e + s + n); if (grow) bp::bloat(X, dir, d); else bp::shrink(X, dir, d); break; }
      case 6: if (grow) X += (C)w; else X -= (C)w; break;
      default: bp::resize(X, (C)rw, (C)re, (C)rs, (C)rn); break;
    }
  };
  if (cont == 0 && form < 1 && mode == 0) { // member functions
    if (grow) { if (r.chance(1, 2)) ps.bloat((U)w, (U)e, (U)s, (U)n); else ps.bloat2((U)w, (U)e, (U)s, (U)n); } else { if (r.chance(1, 2)) ps.shrink((U)w, (U)e, (U)s, (U)n); else ps.shrink2((U)w, (U)e, (U)s, (U)n); }
    out = observe90(ps, obs);
  } else if (cont == 0 && form == 7) { ps.resize((C)rw, (C)re, (C)rs, (C)rn); out = observe90(ps, obs); }
  else if (cont == 0) { apply(ps); out = observe90(ps, obs); }
  else if (cont == 1) { apply(pv); out = fromHs(pv); }
  else { apply(rv); out = fromRects(rv); }
  // a container resized by nothing may come back untouched: judge its point set only
  if (cont && !(rw | re | rs | rn | w | e | s | n)) {
    Grid q; q.addc(out); q.seal(); W u(q.nx * q.ny, 0); for (auto& p : out) rasterPoly(q, u, p, 1); integrate(q, u);
    bp::polygon_90_set_data<C> z; for (auto& p : out) z.insert(to90h<C>(p)); out = observe90(z, 0);
  }
  std::string key = std::string(form == 7 ? "resize-mixed" : grow ? "grow" : "shrink");
  sameRegion(c, og, want, out, key.c_str());
  bool nt = false; for (int x : want) if (x) nt = true; if (!grow && !v.empty()) nt = true;
  if (nt) { Hash h; h.add(form * 2 + grow); h.add((u64)w); h.add((u64)e); h.add((u64)s); h.add((u64)n); h.add((u64)rw); h.add((u64)rs); std::vector<Poly> all; for (auto& i : v) all.push_back(i.p); c.nontrivial(hashPolys(all, h)); }
}
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"resize-int", [](Ctx& c) { resizeCase<int>(c, 0); }, 40000, 1500000});
#elif PART == 1
  f.push_back({"resize-i64", [](Ctx& c) { resizeCase<long long>(c, 0); }, 12000, 400000});
#endif
  return f;
}
}
VF_MAIN()
