// P09: overlap, interaction and size-filter operations select the right regions.
#include "touch.hpp"
namespace vf {
using namespace boost::polygon::operators;
struct Keep { i64 amin, amax, wmin, wmax, hmin, hmax; };
// thresholds around the measures of the pieces present, so that comparisons at equality occur
template <class M> Keep genKeep(Rng& r, const std::vector<M>& ms) {
  auto around = [&](i64 v) { i64 d = r.below(4) == 0 ? r.range(-2, 2) : 0; return std::max<i64>(0, v + d); }; const i64 INF = 1LL << 62;
  Keep k = {0, INF, 0, INF, 0, INF}; if (ms.empty()) return k; int what = r.below(8);
  auto& m = ms[r.below((int)ms.size())]; auto& m2 = ms[r.below((int)ms.size())];
  if (what & 1) { if (r.chance(2, 3)) k.amin = around(m.a); if (r.chance(2, 3)) k.amax = around(m2.a); }
  if (what & 2) { if (r.chance(2, 3)) k.wmin = around(m.w); if (r.chance(2, 3)) k.wmax = around(m2.w); }
  if (what & 4) { if (r.chance(2, 3)) k.hmin = around(m.h); if (r.chance(2, 3)) k.hmax = around(m2.h); }
  return k;
}
struct Meas { i64 a, w, h; ld area; };
// extents: above the minimum, up to and including the maximum; area: both bounds included
inline bool keeps(const Keep& k, const Meas& m) { return m.w > k.wmin && m.w <= k.wmax && m.h > k.hmin && m.h <= k.hmax && m.area <= (ld)k.amax && m.area >= (ld)k.amin; }
static std::string str(const Keep& k) { return " area[" + std::to_string(k.amin) + "," + std::to_string(k.amax) + "] width(" + std::to_string(k.wmin) + "," + std::to_string(k.wmax) + "] height(" + std::to_string(k.hmin) + "," + std::to_string(k.hmax) + "]"; }
inline Meas measure(const Poly& p) {
  i64 x0 = p.outer[0].x, x1 = x0, y0 = p.outer[0].y, y1 = y0; for (auto& q : p.outer) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
  i128 a = area2(p.outer); if (a < 0) a = -a; for (auto& h : p.holes) { i128 b = area2(h); a -= b < 0 ? -b : b; }
  Meas m; m.w = x1 - x0; m.h = y1 - y0; m.area = (ld)a / 2; m.a = a / 2 > ((i128)1 << 61) ? 1LL << 61 : (i64)(a / 2); return m;
}
#if PART == 0
// edge-connected components of a mask
inline std::vector<W> comps(const Grid& g, const W& m) {
  std::vector<int> id(m.size(), -1); std::vector<W> out;
  for (size_t s = 0; s < m.size(); ++s) if (m[s] && id[s] < 0) {
    W w(m.size(), 0); std::vector<size_t> st(1, s); id[s] = 1;
    while (!st.empty()) { size_t v = st.back(); st.pop_back(); w[v] = 1; i64 i = v / g.ny, j = v % g.ny; static const int dx[4] = {1, -1, 0, 0}, dy[4] = {0, 0, 1, -1};
      for (int k = 0; k < 4; ++k) { i64 a = i + dx[k], b = j + dy[k]; if (a < 0 || b < 0 || a >= (i64)g.nx || b >= (i64)g.ny) continue; size_t u = a * g.ny + b; if (m[u] && id[u] < 0) { id[u] = 1; st.push_back(u); } } }
    out.push_back(w);
  }
  return out;
}
inline bool touching(const Grid& g, const W& a, const W& b) {
  auto at = [&](const W& w, i64 i, i64 j) { return i >= 0 && j >= 0 && i < (i64)g.nx && j < (i64)g.ny && w[i * g.ny + j]; };
  for (i64 i = 0; i <= (i64)g.nx; ++i) for (i64 j = 0; j <= (i64)g.ny; ++j) { bool x = at(a, i, j) || at(a, i - 1, j) || at(a, i, j - 1) || at(a, i - 1, j - 1), y = at(b, i, j) || at(b, i - 1, j) || at(b, i, j - 1) || at(b, i - 1, j - 1); if (x && y) return true; }
  return false;
}
template <class C> void case90(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max();
  Range q = pickRange(r, lo, hi, true); Scene sc = genScene(r, q, r.chance(1, 8) ? 14 : 9); int op = r.below(5), form = r.below(4), obs = r.below(5);
  Items A = genItems(r, sc, r.chance(1, 6) ? 8 : 5, true, op < 2 && r.chance(1, 4), op < 2 && r.chance(1, 4)), B;
  bp::orientation_2d oa = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL, ob = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL;
  if (op == 2) B = genItems(r, sc, 3, true, r.chance(1, 4), false);
  S a(oa); for (auto& i : A) insertItem(a, i);
  std::string ds = std::string(" form=") + std::to_string(form) + " obs=" + std::to_string(obs) + " orient=" + (oa == bp::HORIZONTAL ? "H" : "V") + (ob == bp::HORIZONTAL ? "H" : "V") + " A=" + strv(A);
  Grid g; addc(g, A); addc(g, B); std::vector<Poly> out;
  std::vector<bp::polygon_90_with_holes_data<C> > cont; bool nt = false;
  if (op < 2) {
    static const char* N[2] = {"self_intersect", "self_xor"}; c.desc = N[op] + ds; g.seal(); W raw = rasterItems(g, A), m(raw.size());
    bool clean = form == 2; if (clean) { a.clean(); raw = positive(raw); }
    for (size_t i = 0; i < m.size(); ++i) { m[i] = op ? (raw[i] > 0 && (raw[i] & 1)) : raw[i] > 1; nt = nt || m[i]; }
    // self_xor scans once for removal and once for xor; an inserted removal takes effect first only through the raw counts
    for (size_t i = 0; i < m.size() && op; ++i) if (raw[i] < 0) { c.count("negative counts skipped"); return; }
    if (form == 1) { if (op) bp::self_xor(a); else bp::self_intersect(a); } else if (form == 3) { S b(a); if (op) b.self_xor(); else b.self_intersect(); a = b; } else { S& z = op ? a.self_xor() : a.self_intersect(); c.check(&z == &a, "self:return", "does not return the set"); }
    if (clean) c.count("operations on cleaned sets");
    out = observe90(a, obs); sameRegion(c, g, m, out, (std::string(N[op]) + (clean ? ":clean" : "")).c_str());
  } else if (op == 2) {
    c.desc = "interact" + ds + " B=" + strv(B); g.seal(); W ma = positive(rasterItems(g, A)), mb = positive(rasterItems(g, B)), m(ma.size(), 0);
    auto cs = comps(g, ma); for (auto& w : cs) if (touching(g, w, mb)) { c.count("components kept"); for (size_t i = 0; i < m.size(); ++i) m[i] |= w[i]; } else c.count("components dropped");
    S b(ob); for (auto& i : B) insertItem(b, i); if (r.chance(1, 4)) a.clean(); if (r.chance(1, 4)) b.clean();
    if (form == 0) a.interact(b); else if (form == 1) bp::interact(a, b); else if (form == 2) { a.get(cont); bp::interact(cont, b); } else { std::vector<bp::rectangle_data<C> > vb; b.get(vb); bp::interact(a, vb); }
    nt = !cs.empty() && !B.empty();
    if (form == 2) out = fromHs(cont); else { out = observe90(a, obs);
      if (!sameRegion(c, g, m, out, "interact")) return;
      // the kept set must be usable like any other
      S d(ob); d += a; S e(a); e -= a; c.check(e.empty() , "interact:reuse", "subtracting the result from itself leaves something"); out = observe90(d, 0); }
    sameRegion(c, g, m, out, form == 2 ? "interact" : "interact:reuse");
  } else if (op == 3) {
    g.seal(); W ma = positive(rasterItems(g, A)), m(ma.size(), 0); auto cs = comps(g, ma); std::vector<Meas> ms;
    for (auto& w : cs) { i128 s = sumArea(g, w); i64 x0 = 0, x1 = 0, y0 = 0, y1 = 0; bool f = true; for (size_t i = 0; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) if (w[i * g.ny + j]) { if (f) { x0 = g.xs[i]; x1 = g.xs[i + 1]; y0 = g.ys[j]; y1 = g.ys[j + 1]; f = false; } x0 = std::min(x0, g.xs[i]); x1 = std::max(x1, g.xs[i + 1]); y0 = std::min(y0, g.ys[j]); y1 = std::max(y1, g.ys[j + 1]); }
      Meas k; k.w = x1 - x0; k.h = y1 - y0; k.area = (ld)s; k.a = s > ((i128)1 << 61) ? 1LL << 61 : (i64)s; ms.push_back(k); }
    Keep k = genKeep(r, ms); c.desc = "keep" + str(k) + ds;
    for (size_t z = 0; z < cs.size(); ++z) if (keeps(k, ms[z])) { c.count("pieces kept"); for (size_t i = 0; i < m.size(); ++i) m[i] |= cs[z][i]; } else c.count("pieces filtered");
    typedef typename bp::coordinate_traits<C>::unsigned_area_type U;
    if (form == 2) { a.get(cont); bp::keep(cont, (U)k.amin, (U)k.amax, (U)k.wmin, (U)k.wmax, (U)k.hmin, (U)k.hmax); out = fromHs(cont); } else { bp::keep(a, (U)k.amin, (U)k.amax, (U)k.wmin, (U)k.wmax, (U)k.hmin, (U)k.hmax); out = observe90(a, obs); }
    nt = !cs.empty(); sameRegion(c, g, m, out, "keep");
  } else {
    g.seal(); W ma = positive(rasterItems(g, A)); auto cs = comps(g, ma); i64 d[4]; i64 maxd = std::max<i64>(1, std::min<i64>((q.hi - q.lo), 1 << 20)); for (int i = 0; i < 4; ++i) d[i] = r.chance(1, 4) ? 0 : r.range(0, std::min<i64>(maxd, r.chance(1, 2) ? 3 : maxd / 3 + 1));
    int v = r.below(5); bp::orientation_2d oo = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; int dir = r.below(4);
    if (v == 0) d[1] = d[2] = d[3] = d[0]; if (v == 1 || v == 2) { i64 l = d[0], h = v == 1 ? d[0] : d[1]; d[0] = d[1] = d[2] = d[3] = 0; if (oo == bp::HORIZONTAL) { d[0] = l; d[1] = h; } else { d[2] = l; d[3] = h; } }
    if (v == 3) { i64 l = d[0]; d[0] = d[1] = d[2] = d[3] = 0; d[dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? 2 : 3] = l; }
    c.desc = "grow_and v=" + std::to_string(v) + " w=" + std::to_string(d[0]) + " e=" + std::to_string(d[1]) + " s=" + std::to_string(d[2]) + " n=" + std::to_string(d[3]) + ds;
    Grid og; for (i64 x : g.xs) for (i64 t : {(i64)0, -d[0], d[1]}) og.xs.push_back(x + t); for (i64 y : g.ys) for (i64 t : {(i64)0, -d[2], d[3]}) og.ys.push_back(y + t); og.seal();
    W cnt(og.nx * og.ny, 0);
    for (auto& w : cs) { W o(cnt.size(), 0); for (size_t i = 0; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) if (w[i * g.ny + j]) { size_t x0 = og.xi(g.xs[i] - d[0]), x1 = og.xi(g.xs[i + 1] + d[1]), y0 = og.yi(g.ys[j] - d[2]), y1 = og.yi(g.ys[j + 1] + d[3]); for (size_t x = x0; x < x1; ++x) for (size_t y = y0; y < y1; ++y) o[x * og.ny + y] = 1; } for (size_t i = 0; i < cnt.size(); ++i) cnt[i] += o[i]; }
    W m(cnt.size()); for (size_t i = 0; i < m.size(); ++i) { m[i] = cnt[i] > 1; nt = nt || m[i]; }
    typedef typename bp::coordinate_traits<C>::unsigned_area_type U; bp::direction_2d ds4[4] = {bp::WEST, bp::EAST, bp::SOUTH, bp::NORTH};
    auto run = [&](auto& t) { switch (v) { case 0: bp::grow_and(t, (U)d[0]); break; case 1: bp::grow_and(t, oo, (U)(oo == bp::HORIZONTAL ? d[0] : d[2])); break; case 2: bp::grow_and(t, oo, (U)(oo == bp::HORIZONTAL ? d[0] : d[2]), (U)(oo == bp::HORIZONTAL ? d[1] : d[3])); break; case 3: bp::grow_and(t, ds4[dir], (U)d[dir]); break; default: bp::grow_and(t, (U)d[0], (U)d[1], (U)d[2], (U)d[3]); } };
    if (form == 2) { a.get(cont); run(cont); out = fromHs(cont); } else { run(a); out = observe90(a, obs); }
    sameRegion(c, og, m, out, "grow_and");
  }
  if (nt) { Hash h; h.add(op * 8 + form); h.add(obs); auto all = polysOf(A); for (auto& i : B) all.push_back(i.p); c.nontrivial(hashPolys(all, h)); }
}
#elif PART == 1
template <class C> void case45(Ctx& c, bool offgrid) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S; typedef bp::polygon_45_with_holes_data<C> PH;
  int op = r.below(offgrid ? 2 : 5); Scene45 sc = op == 4 ? genScene45(r, false, -(1 << 25), 1 << 25) : genScene45(r, offgrid, sizeof(C) > 4 ? -(1LL << 41) : std::numeric_limits<C>::min(), sizeof(C) > 4 ? 1LL << 41 : std::numeric_limits<C>::max());
  int form = r.below(3), obs = r.below(6); Items A = genItems45(r, sc, r.chance(1, 6) ? 8 : 5, true, op < 2 && r.chance(1, 4)), B; if (op == 2) B = genItems45(r, sc, 3, true, false);
  S a; for (auto& i : A) insertItem45(a, i); std::string ds = " form=" + std::to_string(form) + " obs=" + std::to_string(obs) + " A=" + strv(A); std::vector<Poly> out, pa = polysOf(A); bool nt = false; Arr arr;
  auto none = [](const Arr::Cell&, int, int) { return false; }; auto show = [&]() { return " output=" + strv(out); };
  if (op < 2) {
    static const char* N[2] = {"self_intersect45", "self_xor45"}; c.desc = N[op] + ds; arrItems(arr, A, 2); std::set<P> off = offCells(pa); for (auto& q : off) arr.ring(rectRing(q.x, q.y, q.x + 1, q.y + 1), 0, 0);
    if (form == 1) { if (op) bp::self_xor(a); else bp::self_intersect(a); } else if (form == 2) { S b(a); if (op) b.self_xor(); else b.self_intersect(); a = b; } else { if (op) a.self_xor(); else a.self_intersect(); }
    out = observe45(a, obs); arrOut(arr, out, 1); arr.finish(); if (!off.empty()) c.count("scenes with off-grid crossings");
    sameArr(c, arr, [&](const int* w) { bool e = op ? w[2] > 0 && (w[2] & 1) : w[2] > 1; nt = nt || e; return (int)e; }, [&](const Arr::Cell& q, int, int g) { if (g != 0 && g != 1) return false; P cell((i64)floorl((q.x0 + q.x1) / 2), (i64)floorl((q.l0 + q.l1 + q.h0 + q.h1) / 4)); return off.count(cell) && q.x1 <= cell.x + 1 + 1e-6L && std::max(q.h0, q.h1) <= cell.y + 1 + 1e-6L && std::min(q.l0, q.l1) >= cell.y - 1e-6L; }, N[op], show);
  } else {
    S e(a); std::vector<Poly> pieces = observe45(e, 0); std::vector<PH> cont; if (form == 2) a.get(cont); nt = !pieces.empty();
    if (op == 2) {
      c.desc = "interact45" + ds + " B=" + strv(B); S b; for (auto& i : B) insertItem45(b, i); auto pb = polysOf(B);
      for (auto& p : pieces) { bool k = false; for (auto& q : pb) k = k || contact(p, q); if (k) { arr.poly(p, 2, 1); c.count("components kept"); } else c.count("components dropped"); }
      if (form == 2) { std::vector<PH> vb; b.get(vb); bp::interact(cont, vb); out = fromHs(cont); } else if (form == 1) { bp::polygon_45_set_data<C> z(a); bp::interact(z, b); a = z; out = observe45(a, obs); } else { bp::interact(a, b); out = observe45(a, obs); }
      nt = nt && !B.empty();
    } else if (op == 3) {
      std::vector<Meas> ms; for (auto& p : pieces) ms.push_back(measure(p)); Keep k = genKeep(r, ms); c.desc = "keep45" + str(k) + ds;
      for (size_t i = 0; i < pieces.size(); ++i) if (keeps(k, ms[i])) { arr.poly(pieces[i], 2, 1); c.count("pieces kept"); } else c.count("pieces filtered");
      typedef typename bp::coordinate_traits<C>::unsigned_area_type U; typedef typename bp::coordinate_traits<C>::area_type AT;
      if (form == 2) { bp::keep(cont, (AT)k.amin, (AT)k.amax, (U)k.wmin, (U)k.wmax, (U)k.hmin, (U)k.hmax); out = fromHs(cont); } else { bp::keep(a, (AT)k.amin, (AT)k.amax, (U)k.wmin, (U)k.wmax, (U)k.hmin, (U)k.hmax); out = observe45(a, obs); }
    } else {
      i64 d = sc.k * r.below(3); c.desc = "grow_and45 d=" + std::to_string(d) + ds; std::vector<Poly> gr;
      // every piece grown on its own (growing itself is judged under P08), covered at least twice
      for (auto& p : pieces) { S t; t.insert(to45h<C>(p)); bp::bloat(t, d); for (auto& q : observe45(t, 0)) { gr.push_back(q); arr.poly(q, 2, 1); } }
      if (!offCells(gr).empty()) { c.count("grown scenes off the grid skipped"); return; }
      if (form == 2) { bp::grow_and(cont, d); out = fromHs(cont); } else { bp::grow_and(a, d); out = observe45(a, obs); }
    }
    arr.nlab = std::max(arr.nlab, 3); arrOut(arr, out, 1); arr.finish(); bool any = false;
    sameArr(c, arr, [&](const int* w) { bool e = op == 4 ? w[2] > 1 : w[2] > 0; any = any || e; return (int)e; }, none, op == 2 ? "interact45" : op == 3 ? "keep45" : "grow_and45", show);
    if (op == 4) nt = any;
  }
  if (nt) { Hash h; h.add(op * 8 + form); h.add(obs); auto all = polysOf(A); for (auto& i : B) all.push_back(i.p); c.nontrivial(hashPolys(all, h)); }
}
#else
template <class C> void caseG(Ctx& c, bool lattice) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S; typedef bp::polygon_with_holes_data<C> PH; SceneG sc = genSceneG(r, 1LL << 27); Scene45 q; i64 L = 1 << 19; if (lattice) q = genScene45(r, false, -L, L);
  int op = r.below(2), form = r.below(3), obs = r.below(4); auto gen = [&](int n) { return lattice ? genItems45(r, q, n, true, false) : genItemsG(r, sc, n, true, false); };
  Items A = gen(r.chance(1, 6) ? 7 : 4), B; if (op == 0) B = gen(3);
  S a; for (auto& i : A) insertItemGen(a, i); S e(a); std::vector<Poly> pieces = observeG(e, 0), out; std::vector<PH> cont; if (form == 2) a.get(cont); std::string ds = " form=" + std::to_string(form) + " obs=" + std::to_string(obs) + " A=" + strv(A);
  Arr arr; auto pb = polysOf(B); std::vector<int> fate(pieces.size(), 1);
    // a neck thinner than the snapping distance may or may not join two parts: when reading the same set again yields other
    // pieces, only the containment of the result is judged
    bool stable = true;
    if (!lattice) { std::vector<Meas> ms; for (auto& p : pieces) ms.push_back(measure(p)); auto same = [&](const std::vector<Poly>& v) { std::vector<char> used(v.size(), 0); if (v.size() != pieces.size()) return false; for (auto& m : ms) { bool hit = false; for (size_t j = 0; j < v.size() && !hit; ++j) { if (used[j]) continue; Meas z = measure(v[j]); if (fabsl((ld)z.w - (ld)m.w) <= 3 && fabsl((ld)z.h - (ld)m.h) <= 3) used[j] = hit = true; } if (!hit) return false; } return true; };
      S t(a); std::vector<PH> v1; bp::assign(v1, t); std::vector<Poly> q1 = fromHs(v1); stable = same(q1); for (int n = 0; n < 3 && stable; ++n) { S u; for (auto& z : q1) u.insert(toGenh<C>(z)); if (n & 1) u.clean(); q1 = observeG(u, 0); stable = same(q1); }
      if (!stable) c.count("scenes whose pieces change under snapping"); }
  if (op == 0) {
    c.desc = "interactG" + ds + " B=" + strv(B); S b; for (auto& i : B) insertItemGen(b, i);
    for (size_t k = 0; k < pieces.size(); ++k) { std::vector<Poly> me(1, pieces[k]); bool t = contact(me, pb);
      if (lattice) fate[k] = t; else if (!stable) fate[k] = -1; else if (!t && gap(me, pb) > 3) fate[k] = 0; else { fate[k] = -1; if (t) { Arr x; x.poly(pieces[k], 2, 1); for (auto& p : pb) x.poly(p, 3, 1); x.nlab = 4; x.finish(); std::vector<Poly> all(pb); all.push_back(pieces[k]); x.sweep([&](const Arr::Cell& q) { if (fate[k] < 0 && q.w[2] > 0 && q.w[3] > 0 && cellReach(q, all) > 2) fate[k] = 1; }); } }
      c.count(fate[k] == 1 ? "components kept" : fate[k] == 0 ? "components dropped" : "components undecided within the snapping tolerance"); }
    if (form == 2) { std::vector<PH> vb; b.get(vb); bp::interact(cont, vb); out = fromHs(cont); } else if (form == 1) { bp::interact(a, b); out = observeG(a, obs); } else { a.interact(b); out = observeG(a, obs); }
  } else {
    // width and height thresholds against exact values of what the set reads out as
    std::vector<Meas> ms; for (auto& p : pieces) ms.push_back(measure(p)); Keep k = genKeep(r, ms); c.desc = "keepG" + str(k) + ds;
    for (size_t i = 0; i < pieces.size(); ++i) { fate[i] = stable ? (int)keeps(k, ms[i]) : -1;
      if (!lattice) { ld per = 0; auto add = [&](const Ring& q) { for (size_t j = 0; j < q.size(); ++j) per += hypotl((ld)(q[j].x - q[(j + 1) % q.size()].x), (ld)(q[j].y - q[(j + 1) % q.size()].y)); }; add(pieces[i].outer); for (auto& h : pieces[i].holes) add(h);
        // reading the set may move the piece by the snapping tolerance: measures close to a threshold decide nothing
        ld da = 3 * (per + 4); auto rng = [](ld v, ld d, ld lo, ld hi, bool open) { ld a = v - d, b = v + d; bool ina = open ? a > lo : a >= lo; if (ina && b <= hi) return 1; bool outb = open ? b <= lo : b < lo; return outb || a > hi ? 0 : -1; };
        int d[3] = {rng(ms[i].w, 3, k.wmin, k.wmax, true), rng(ms[i].h, 3, k.hmin, k.hmax, true), rng(ms[i].area, da, k.amin, k.amax, false)}; if (k.amin == 0 && ms[i].area + da <= (ld)k.amax) d[2] = 1;
        if (fate[i] >= 0) fate[i] = !d[0] || !d[1] || !d[2] ? 0 : d[0] > 0 && d[1] > 0 && d[2] > 0 ? 1 : -1; }
      c.count(fate[i] < 0 ? "pieces undecided within the snapping tolerance" : fate[i] ? "pieces kept" : "pieces filtered"); }
    typedef typename bp::coordinate_traits<C>::unsigned_area_type U; typedef typename bp::coordinate_traits<C>::area_type AT;
        if (form == 2) { bp::keep(cont, (AT)k.amin, (AT)k.amax, (U)k.wmin, (U)k.wmax, (U)k.hmin, (U)k.hmax); out = fromHs(cont); } else { bp::keep(a, (AT)k.amin, (AT)k.amax, (U)k.wmin, (U)k.wmax, (U)k.hmin, (U)k.hmax); out = observeG(a, obs); }
  }
  for (size_t k = 0; k < pieces.size(); ++k) arr.poly(pieces[k], fate[k] < 0 ? 3 : 2, fate[k] == 0 ? 0 : 1);
  arr.nlab = std::max(arr.nlab, 4); arrOut(arr, out, 1); arr.finish();
  // pieces whose fate is undecided are either there or not
  sameArr(c, arr, [&](const int* w) { return w[2] > 0 ? 1 : w[3] > 0 ? w[1] : 0; }, [&](const Arr::Cell& q, int, int g) { return !lattice && (g == 0 || g == 1) && cellReach(q, pieces) <= 3; }, op == 0 ? "interactG" : "keepG", [&]() { return " output=" + strv(out); });
  if (!pieces.empty() && (op || !B.empty())) { Hash h; h.add(op * 8 + form); h.add(obs); auto all = polysOf(A); for (auto& i : B) all.push_back(i.p); c.nontrivial(hashPolys(all, h)); }
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"select90-int", [](Ctx& c) { case90<int>(c); }, 120000, 4000000});
  f.push_back({"select90-i64", [](Ctx& c) { case90<long long>(c); }, 30000, 1000000});
#elif PART == 1
  f.push_back({"select45-int", [](Ctx& c) { case45<int>(c, false); }, 60000, 2000000});
  f.push_back({"select45off-int", [](Ctx& c) { case45<int>(c, true); }, 30000, 900000});
  f.push_back({"select45-i64", [](Ctx& c) { case45<long long>(c, false); }, 12000, 400000});
#else
  f.push_back({"selectG-int", [](Ctx& c) { caseG<int>(c, false); }, 20000, 900000});
  f.push_back({"selectGlat-int", [](Ctx& c) { caseG<int>(c, true); }, 20000, 900000});
#endif
  return f;
}
}
VF_MAIN()
