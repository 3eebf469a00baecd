// P06: rectangle and trapezoid decompositions tile the region exactly.
#include "sceneg.hpp"
namespace vf {
static Ring open1(Ring r) { while (r.size() > 1 && r.front() == r.back()) r.pop_back(); Ring q; for (auto& p : r) if (q.empty() || q.back() != p) q.push_back(p); return q; }
inline void swapP(Poly& p) { auto f = [](Ring& r) { for (auto& q : r) std::swap(q.x, q.y); reverseRing(r); }; f(p.outer); for (auto& h : p.holes) f(h); }
inline std::vector<Poly> swapped(std::vector<Poly> v) { for (auto& p : v) swapP(p); return v; }
#if PART == 0
template <class C> void rects(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; typedef bp::rectangle_data<C> R; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max();
  Range q = pickRange(r, lo, hi, true); Scene sc = genScene(r, q, r.chance(1, 8) ? 14 : 9);
  Items v = genItems(r, sc, r.chance(1, 6) ? 8 : 4, true, r.chance(1, 4), false);
  bp::orientation_2d o = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL, so = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; int form = r.below(7);
  S s(o); for (auto& i : v) insertItem(s, i);
  if (r.chance(1, 5)) s.clean();
  std::vector<bp::polygon_90_with_holes_data<C> > cont; if (form == 5 || form == 6) s.get(cont);
  c.desc = std::string("form=") + std::to_string(form) + " orient=" + (o == bp::HORIZONTAL ? "H" : "V") + " slicing=" + (so == bp::HORIZONTAL ? "H" : "V") + " A=" + strv(v);
  Grid g; addc(g, v); g.seal(); W m = positive(rasterItems(g, v)); std::vector<R> out; std::vector<R> pre(r.below(2), R(1, 2, 3, 4)); out = pre;
  switch (form) {
    case 0: s.get_rectangles(out); so = o; break;
    case 1: s.get_rectangles(out, so); break;
    case 2: bp::get_rectangles(out, s); so = bp::VERTICAL; break;
    case 3: bp::get_rectangles(out, s, so); break;
    case 4: s.get(out); so = o; break;
    case 5: bp::get_rectangles(out, cont); so = bp::VERTICAL; break;
    default: bp::get_rectangles(out, cont, so); break;
  }
  std::string key = "rects" + std::to_string(form);
  for (size_t i = 0; i < pre.size(); ++i) if (c.check(!out.empty() && out[0] == pre[0], key + ":append", "elements already in the output container were lost")) out.erase(out.begin());
  if (!sameRegion(c, g, m, fromRects(out), key.c_str())) return;
  c.count("rectangles inspected", (i64)out.size());
  // sliced only along the requested direction: the two sides across it lie on the region's boundary all along
  auto at = [&](i64 i, i64 j) { return i >= 0 && j >= 0 && i < (i64)g.nx && j < (i64)g.ny && m[i * g.ny + j]; };
  for (auto& x : out) {
    i64 a = g.xi(bp::xl(x)), b = g.xi(bp::xh(x)), d = g.yi(bp::yl(x)), e = g.yi(bp::yh(x)); bool ok = a < b && d < e;
    if (so == bp::VERTICAL) for (i64 i = a; ok && i < b; ++i) ok = !at(i, d - 1) && !at(i, e); else for (i64 j = d; ok && j < e; ++j) ok = !at(a - 1, j) && !at(b, j);
    if (!c.check(ok, key + ":direction", "rectangle " + str(fromRect(x)) + " was also cut across the slicing direction; all: " + strv(fromRects(out)))) return;
  }
  bool nt = false; for (int x : m) nt = nt || x; if (nt) { Hash h; h.add(form); h.add(o.to_int() * 2 + so.to_int()); c.nontrivial(hashPolys(polysOf(v), h)); }
}
template <class C> void maxrects(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; typedef bp::rectangle_data<C> R; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max();
  Range q = pickRange(r, lo, hi, true); Scene sc = genScene(r, q, r.chance(1, 8) ? 12 : 9);
  Items v = genItems(r, sc, r.chance(1, 6) ? 8 : 4, true, r.chance(1, 4), false); bp::orientation_2d o = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; int form = r.below(3);
  S s(o); for (auto& i : v) insertItem(s, i);
  if (r.chance(1, 5)) s.clean();
  c.desc = std::string("max form=") + std::to_string(form) + " orient=" + (o == bp::HORIZONTAL ? "H" : "V") + " A=" + strv(v);
  Grid g; addc(g, v); g.seal(); W m = positive(rasterItems(g, v)); std::vector<R> out;
  if (form == 0) bp::get_max_rectangles(out, s);
  else if (form == 1) { std::vector<bp::polygon_90_with_holes_data<C> > cont; s.get(cont); bp::get_max_rectangles(out, cont); }
  else { S e(s); std::vector<R> rr; e.get(rr); bp::get_max_rectangles(out, rr); }
  // reference: every rectangle of the raster inside the region that no side can be pushed out of
  std::vector<i64> pre((g.nx + 1) * (g.ny + 1), 0); for (size_t i = 0; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) pre[(i + 1) * (g.ny + 1) + j + 1] = pre[i * (g.ny + 1) + j + 1] + pre[(i + 1) * (g.ny + 1) + j] - pre[i * (g.ny + 1) + j] + (m[i * g.ny + j] ? 1 : 0);
  auto full = [&](i64 a, i64 b, i64 d, i64 e) { if (a < 0 || d < 0 || b > (i64)g.nx || e > (i64)g.ny) return false; size_t w = g.ny + 1; return pre[b * w + e] - pre[a * w + e] - pre[b * w + d] + pre[a * w + d] == (b - a) * (e - d); };
  std::multiset<std::vector<i64> > want, got;
  for (i64 a = 0; a < (i64)g.nx; ++a) for (i64 b = a + 1; b <= (i64)g.nx; ++b) for (i64 d = 0; d < (i64)g.ny; ++d) for (i64 e = d + 1; e <= (i64)g.ny; ++e) {
    if (!full(a, b, d, e)) break;
    if (!full(a - 1, b, d, e) && !full(a, b + 1, d, e) && !full(a, b, d - 1, e) && !full(a, b, d, e + 1)) want.insert({g.xs[a], g.ys[d], g.xs[b], g.ys[e]});
  }
  for (auto& x : out) got.insert({(i64)bp::xl(x), (i64)bp::yl(x), (i64)bp::xh(x), (i64)bp::yh(x)});
  c.count("maximal rectangles compared", (i64)want.size());
  if (want != got) {
    std::string miss, extra; for (auto& w : want) if (got.count(w) < want.count(w)) miss += str(rectRing(w[0], w[1], w[2], w[3])); for (auto& w : got) if (want.count(w) < got.count(w)) extra += str(rectRing(w[0], w[1], w[2], w[3]));
    c.fail("max" + std::to_string(form), "missing " + miss + " unexpected " + extra);
  } else c.count("checks");
  if (!want.empty()) { Hash h; h.add(form); h.add(o.to_int() * 2); c.nontrivial(hashPolys(polysOf(v), h)); }
}
#else
// every piece: at most four vertices (the winding of pieces is not specified), two sides along the slicing direction (possibly of length zero)
static bool trapezoid(const Ring& q0, bool vertical) {
  Ring q = dropCollinear(q0); if (q.size() < 3 || q.size() > 4 || area2(q) == 0) return false;
  std::map<i64, int> xs; for (auto& p : q) xs[vertical ? p.x : p.y]++;
  return xs.size() == 2;
}
template <class S, class Want> void tiling(Ctx& c, const std::string& key, const std::vector<Poly>& out, bool vertical, Arr& a, Want want, ld tol, const std::vector<Poly>& near, bool runs) {
  for (auto& p : out) {
    if (!runs && (area2(open1(p.outer)) == 0)) { c.count("pieces flattened by rounding"); continue; }
    c.count("trapezoids inspected");
    if (!c.check(p.holes.empty() && trapezoid(open1(p.outer), vertical), key + ":shape", "not a trapezoid sliced along the requested direction: " + str(p))) return;
  }
  for (auto& p : out) a.poly(p, 1, 1); a.nlab = std::max(a.nlab, 3); a.finish();
  if (!sameArr(c, a, want, [&](const Arr::Cell& q, int, int) { return tol > 0 && cellReach(q, near) <= tol; }, key.c_str(), [&]() { return " output=" + strv(out); })) return;
  if (!runs) return;
  // between two neighbouring abscissae the region is a stack of runs; no run may be split across the slicing direction
  std::map<ld, int> nr; std::map<ld, ld> last;
  a.sweep([&](const Arr::Cell& q) { if (!want(q.w)) return; ld k = (q.x0 + q.x1) / 2, l = (q.l0 + q.l1) / 2, h = (q.h0 + q.h1) / 2; auto it = last.find(k); if (it == last.end() || fabsl(it->second - l) > 1e-6L) nr[k]++; last[k] = h; });
  for (auto& e : nr) { int n = 0; for (auto& p : out) { i64 x0 = p.outer[0].x, x1 = x0; for (auto& w : p.outer) { x0 = std::min(x0, w.x); x1 = std::max(x1, w.x); } if ((ld)x0 < e.first && e.first < (ld)x1) ++n; }
    if (!c.check(n == e.second, key + ":direction", std::to_string(n) + " pieces at x=" + sld(e.first) + " where the region has " + std::to_string(e.second) + " runs: " + strv(out))) return; }
}
#if PART == 1
template <class C> void traps45(Ctx& c, bool offgrid) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S;
  Scene45 sc = genScene45(r, offgrid, sizeof(C) > 4 ? -(1LL << 41) : std::numeric_limits<C>::min(), sizeof(C) > 4 ? 1LL << 41 : std::numeric_limits<C>::max());
  Items v = genItems45(r, sc, r.chance(1, 6) ? 8 : 4, true, false); int form = r.below(7); bool vert = r.chance(1, 2); bp::orientation_2d so = vert ? bp::VERTICAL : bp::HORIZONTAL;
  S s; for (auto& i : v) insertItem45(s, i);
  c.desc = std::string("form=") + std::to_string(form) + " slicing=" + (vert ? "V" : "H") + " A=" + strv(v);
  std::vector<Poly> out; typedef bp::polygon_45_data<C> T; std::vector<T> w; std::vector<bp::polygon_45_with_holes_data<C> > wh, cont; std::vector<bp::polygon_with_holes_data<C> > wg;
  if (form >= 5) s.get(cont);
  switch (form) {
    case 0: s.get_trapezoids(w); vert = true; out = fromSs(w); break;
    case 1: s.get_trapezoids(w, so); out = fromSs(w); break;
    case 2: bp::get_trapezoids(wh, s); vert = true; out = fromHs(wh); break;
    case 3: bp::get_trapezoids(wh, s, so); out = fromHs(wh); break;
    case 4: s.get_trapezoids(wg, so); out = fromHs(wg); break;
    case 5: bp::get_trapezoids(w, cont); vert = true; out = fromSs(w); break;
    default: bp::get_trapezoids(wg, cont, so); out = fromHs(wg); break;
  }
  std::set<P> off = offCells(polysOf(v)); std::string key = "traps45:" + std::to_string(form); S e(s); std::vector<Poly> ref = observe45(e, 0); if (!vert) { out = swapped(out); ref = swapped(ref); }
  for (auto& p : out) c.check(is45Ring(p.outer), key + ":angles", "edge that is not a multiple of 45 degrees: " + str(p));
  Arr a; if (off.empty()) { std::vector<Poly> in; for (auto& i : v) { Poly p = i.p; if (!vert) swapP(p); in.push_back(p); } for (auto& p : in) a.poly(p, 2, 1); c.count("exact tilings"); } else { arrOut(a, ref, 2); c.count("scenes with off-grid crossings"); }
  bool nt = false; tiling<S>(c, key, out, true, a, [&](const int* w) { bool x = w[2] > 0; nt = nt || x; return (int)x; }, 0, ref, true);
  if (nt) { Hash h; h.add(form * 2 + vert); c.nontrivial(hashPolys(polysOf(v), h)); }
}
#else
template <class C> void trapsG(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S; SceneG sc = genSceneG(r, 1LL << 27); Items v; bool on45 = r.chance(1, 3), exact = on45 && r.chance(3, 4); // lattice scenes keep every crossing integral; small coordinates keep the default high precision arithmetic exact
  if (on45) { i64 B = exact ? 1 << 19 : 1 << 27; Scene45 q = genScene45(r, false, -B, B); v = genItems45(r, q, 4, true, false); } else v = genItemsG(r, sc, r.chance(1, 6) ? 7 : 4, true, false);
  int form = r.below(6); bool vert = r.chance(1, 2); bp::orientation_2d so = vert ? bp::VERTICAL : bp::HORIZONTAL;
  S s; for (auto& i : v) insertItemGen(s, i);
  c.desc = std::string("form=") + std::to_string(form) + " slicing=" + (vert ? "V" : "H") + " A=" + strv(v);
  std::vector<Poly> out; std::vector<bp::polygon_data<C> > w; std::vector<bp::polygon_with_holes_data<C> > wh, cont; if (form >= 4) s.get(cont);
  switch (form) {
    case 0: s.get_trapezoids(w); vert = true; out = fromSs(w); break;
    case 1: s.get_trapezoids(w, so); out = fromSs(w); break;
    case 2: bp::get_trapezoids(wh, s); vert = true; out = fromHs(wh); break;
    case 3: bp::get_trapezoids(wh, s, so); out = fromHs(wh); break;
    case 4: bp::get_trapezoids(w, cont); vert = true; out = fromSs(w); break;
    default: bp::get_trapezoids(wh, cont, so); out = fromHs(wh); break;
  }
  std::string key = "trapsG:" + std::to_string(form); S e(s); std::vector<Poly> ref = observeG(e, 0); if (!vert) { out = swapped(out); ref = swapped(ref); }
  Arr a; arrOut(a, ref, 2); bool nt = false;
  tiling<S>(c, key, out, true, a, [&](const int* w) { bool x = w[2] > 0; nt = nt || x; return (int)x; }, exact ? 0 : 3.0L, ref, exact);
  if (exact) c.count("exact tilings");
  if (nt) { Hash h; h.add(form * 2 + vert); c.nontrivial(hashPolys(polysOf(v), h)); }
}
#endif
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"rects-int", [](Ctx& c) { rects<int>(c); }, 60000, 2000000});
  f.push_back({"rects-i64", [](Ctx& c) { rects<long long>(c); }, 20000, 600000});
  f.push_back({"maxrects-int", [](Ctx& c) { maxrects<int>(c); }, 40000, 1500000});
  f.push_back({"maxrects-i64", [](Ctx& c) { maxrects<long long>(c); }, 10000, 400000});
#elif PART == 1
  f.push_back({"traps45-int", [](Ctx& c) { traps45<int>(c, false); }, 30000, 1200000});
  f.push_back({"traps45off-int", [](Ctx& c) { traps45<int>(c, true); }, 15000, 600000});
  f.push_back({"traps45-i64", [](Ctx& c) { traps45<long long>(c, false); }, 8000, 300000});
#else
  f.push_back({"trapsG-int", [](Ctx& c) { trapsG<int>(c); }, 20000, 900000});
#endif
  return f;
}
}
VF_MAIN()
