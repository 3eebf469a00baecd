// P05: polygons written out of a set are well formed and partition its area.
#include "sceneg.hpp"
namespace vf {
static Ring open1(Ring r) { if (r.size() > 1 && r.front() == r.back()) r.pop_back(); return r; }
static i64 parallel(const Ring& r) { i64 n = 0; for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()], d = r[(i + 2) % r.size()]; if ((i128)(b.x - a.x) * (d.y - b.y) == (i128)(b.y - a.y) * (d.x - b.x)) ++n; } return n; }
// structure of every ring by itself; engine 0 Manhattan, 1 45, 2 any angle
static void ringChecks(Ctx& c, const std::vector<Poly>& out0, int engine, bool holesType, const std::string& key) {
  for (auto& p0 : out0) {
    Poly p; p.outer = open1(p0.outer); for (auto& h : p0.holes) p.holes.push_back(open1(h));
    c.count("polygons inspected"); c.count("holes inspected", (i64)p.holes.size());
    auto one = [&](const Ring& q, bool hole) {
      size_t minv = engine == 0 ? 4 : 3;
      if (!c.check(q.size() >= minv && (engine || q.size() % 2 == 0), key + ":vertex-count", "ring with too few vertices: " + str(p))) return;
      c.check(hole ? area2(q) < 0 : area2(q) > 0, key + (hole ? ":hole-winding" : ":outer-winding"), "ring wound the wrong way or empty: " + str(q) + " of " + str(p));
      bool eq = false; for (size_t i = 0; i < q.size(); ++i) if (q[i] == q[(i + 1) % q.size()]) eq = true;
      if (engine != 1 || holesType) c.check(!eq, key + ":repeated-vertex", "repeated vertex in " + str(q));
      if (engine == 0) { bool ok = true; for (size_t i = 0; i < q.size(); ++i) { const P &a = q[i], &b = q[(i + 1) % q.size()]; if (a.x != b.x && a.y != b.y) ok = false; } c.check(ok, key + ":angles", "non-Manhattan edge in " + str(q)); }
      if (engine == 3) { bool ok = true; for (size_t i = 0; i < q.size(); ++i) { const P &a = q[i], &b = q[(i + 1) % q.size()]; if (a.x != b.x && a.y != b.y) ok = false; } c.check(ok, key + ":angles", "non-Manhattan edge in " + str(q)); }
      if (engine == 1) c.check(is45Ring(q), key + ":angles", "edge that is not a multiple of 45 degrees in " + str(q));
      if (engine == 0 && holesType) c.check(parallel(q) == 0, key + ":collinear", "collinear or spiked vertex in " + str(q));
    };
    one(p.outer, false); for (auto& h : p.holes) one(h, true);
    c.check(holesType || p.holes.empty(), key + ":holes", "hole in a hole-less output");
    // the polygon by itself covers no point twice or negatively: holes lie inside the outer ring and apart from each other
    Arr a; a.raw(p, 1, 1); a.finish(); bool bad = false; std::string where;
    a.sweep([&](const Arr::Cell& q) { if (!bad && (q.w[1] < 0 || q.w[1] > 1) && q.area() > 1e-6L) { if (engine == 2 && !holesType && (std::max(q.h0 - q.l0, q.h1 - q.l1) <= 1.01L || q.x1 - q.x0 <= 1.01L)) return; bad = true; where = cellStr(q) + " winding " + std::to_string(q.w[1]); } });
    c.check(!bad, key + ":self-overlap", where + " of polygon " + str(p));
  }
}
#if PART == 0
// number of edge-connected parts of a mask
static int parts(const Grid& g, const W& m) {
  std::vector<char> seen(m.size(), 0); int n = 0;
  for (size_t s = 0; s < m.size(); ++s) if (m[s] && !seen[s]) { ++n; std::vector<size_t> st(1, s); seen[s] = 1; while (!st.empty()) { size_t v = st.back(); st.pop_back(); size_t i = v / g.ny, j = v % g.ny; auto go = [&](size_t k) { if (m[k] && !seen[k]) { seen[k] = 1; st.push_back(k); } }; if (i) go(v - g.ny); if (i + 1 < g.nx) go(v + g.ny); if (j) go(v - 1); if (j + 1 < g.ny) go(v + 1); } }
  return n;
}
// the largest number of separate boundary pieces at one scan position
static int maxEvents(const Grid& g, const W& m, bool vertical) {
  size_t n = vertical ? g.nx : g.ny, k = vertical ? g.ny : g.nx; auto at = [&](size_t i, size_t j) { return (vertical ? m[i * g.ny + j] : m[j * g.ny + i]) != 0; }; int best = 0;
  for (size_t i = 0; i <= n; ++i) { int cnt = 0, prev = 0; for (size_t j = 0; j < k; ++j) { bool a = i > 0 && at(i - 1, j), b = i < n && at(i, j); int e = a == b ? 0 : b ? 1 : -1; if (e && e != prev) ++cnt; prev = e; } best = std::max(best, cnt); }
  return best;
}
// slicing into polygons of at most `lim` vertices
template <class C> void checkLimit(Ctx& c, const Items& v, bp::orientation_2d o, size_t lim, int form, const Grid& g, const W& m) {
  bp::polygon_90_set_data<C> s(o); for (auto& i : v) insertItem(s, i);
  std::vector<Poly> out; std::string key = form ? "limit:holes-type" : "limit";
  if (form) { std::vector<bp::polygon_90_with_holes_data<C> > w; s.get(w, lim); out = fromHs(w); } else { std::vector<bp::polygon_90_data<C> > w; s.get(w, lim); out = fromSs(w); }
  ringChecks(c, out, 0, false, key);
  sameRegion(c, g, m, out, key.c_str());
  for (auto& p : out) { size_t n = open1(p.outer).size(); c.check(n <= lim && p.holes.empty(), key + ":limit", std::to_string(n) + " vertices, limit " + std::to_string(lim) + ": " + str(p)); c.count("vertex limits checked"); if (n == lim) c.count("polygons at the vertex limit"); }
}
template <class C> void caseLimit(Ctx& c) {
  Rng& r = c.rng; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max(); int form = r.below(2);
  bp::orientation_2d o = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; size_t lim = 4 + (r.chance(1, 3) ? 0 : r.below(14));
  // Slicing is only monitored where each scan position has a single boundary piece: several pieces on one
  // partial figure at one position are the known finding pinned below.
  for (int t = 0; t < 60; ++t) {
    Range q = pickRange(r, lo, hi, true); bool vert = o == bp::VERTICAL; int k = 1 + r.below(6);
    std::vector<i64> us = coordPool(r, 2 * k + 2, q.lo, q.hi > q.lo + 2 * k + 4 ? q.hi : q.lo + 40), vs = coordPool(r, 3 + r.below(8), q.lo, q.hi);
    for (size_t i = us.size(); i > 1; --i) std::swap(us[i - 1], us[r.below((int)i)]);
    Items v;
    for (int i = 0; i < k && 2 * i + 1 < (int)us.size(); ++i) { i64 a = std::min(us[2 * i], us[2 * i + 1]), b = std::max(us[2 * i], us[2 * i + 1]); int y0 = r.below((int)vs.size() - 1), y1 = y0 + 1 + r.below((int)vs.size() - 1 - y0); Item it; it.form = 2; it.p.outer = vert ? rectRing(a, vs[y0], b, vs[y1]) : rectRing(vs[y0], a, vs[y1], b); it.hole = i > 0 && r.chance(1, 4); v.push_back(it); }
    Grid g; addc(g, v); g.seal(); W m = positive(rasterItems(g, v)); if (maxEvents(g, m, vert) > 1) continue;
    c.desc = std::string("form=") + std::to_string(form) + " orient=" + (o == bp::HORIZONTAL ? "H" : "V") + " limit=" + std::to_string(lim) + " A=" + strv(v);
    checkLimit<C>(c, v, o, lim, form, g, m);
    Hash h; h.add(form); h.add(lim); h.add(o.to_int()); c.nontrivial(hashPolys(polysOf(v), h)); return;
  }
}
// known finding: a left edge and a right edge at one scan position of one partial figure
static void caseLimitPinned(Ctx& c) {
  static const i64 z[8][2] = {{4,3},{4,1},{3,1},{3,2},{0,2},{0,4},{3,4},{3,3}}; Item it; it.form = 1; for (auto& p : z) it.p.outer.push_back(P(p[0], p[1]));
  Items v(1, it); Grid g; addc(g, v); g.seal(); W m = positive(rasterItems(g, v)); c.desc = "limit=4 A=" + strv(v);
  checkLimit<int>(c, v, bp::VERTICAL, 4, 0, g, m); c.nontrivial(1);
}
template <class C> void case90(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max();
  Range q = pickRange(r, lo, hi, true); Scene sc = genScene(r, q, r.chance(1, 8) ? 16 : 9);
  Items v = genItems(r, sc, r.chance(1, 6) ? 8 : 4, true, false, false);
  bp::orientation_2d o = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; int form = r.below(7);
  S s(o); for (auto& i : v) insertItem(s, i);
  if (r.chance(1, 5)) s.clean();
  c.desc = std::string("form=") + std::to_string(form) + " orient=" + (o == bp::HORIZONTAL ? "H" : "V") + " A=" + strv(v);
  Grid g; addc(g, v); g.seal(); W m = positive(rasterItems(g, v));
  std::vector<Poly> out; bool holes = false; std::string key = "90:form" + std::to_string(form);
  switch (form) {
    case 0: { std::vector<bp::polygon_90_with_holes_data<C> > w; s.get(w); out = fromHs(w); holes = true; break; }
    case 1: { std::vector<bp::polygon_90_data<C> > w; s.get(w); out = fromSs(w); break; }
    case 2: { std::list<bp::polygon_45_with_holes_data<C> > w; bp::assign(w, s); out = fromHs(w); holes = true; break; }
    case 3: { std::vector<bp::polygon_with_holes_data<C> > w; bp::assign(w, s); out = fromHs(w); holes = true; break; }
    case 4: { std::vector<bp::polygon_data<C> > w; bp::assign(w, s); out = fromSs(w); break; }
    case 5: { std::vector<bp::polygon_45_data<C> > w; s.get_polygons(w); out = fromSs(w); break; }
    default: { std::vector<bp::polygon_90_with_holes_data<C> > w; bp::assign(w, s); out = fromHs(w); holes = true; break; }
  }
  ringChecks(c, out, form >= 2 && form <= 5 ? 3 : 0, holes, key);
  sameRegion(c, g, m, out, key.c_str());
  int np = parts(g, m); c.check((int)out.size() == np, key + ":parts", std::to_string(out.size()) + " polygons for a region of " + std::to_string(np) + " connected parts: " + strv(out));
  S t; for (auto& p : out) t.insert(to90h<C>(p));
  c.check(t == s, key + ":reinsert", "inserting the output into a fresh set does not reproduce the set: " + strv(out));
  bool nt = false; for (int x : m) nt = nt || x; if (nt) { Hash h; h.add(form); h.add(o.to_int()); c.nontrivial(hashPolys(polysOf(v), h)); }
}
#elif PART == 1
template <class C> void case45(Ctx& c, bool offgrid) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S;
  Scene45 sc = genScene45(r, offgrid, sizeof(C) > 4 ? -(1LL << 41) : std::numeric_limits<C>::min(), sizeof(C) > 4 ? 1LL << 41 : std::numeric_limits<C>::max());
  Items v = genItems45(r, sc, r.chance(1, 6) ? 8 : 4, true, false); int form = r.below(6);
  S s; for (auto& i : v) insertItem45(s, i);
  c.desc = std::string("form=") + std::to_string(form) + " A=" + strv(v);
  std::vector<Poly> out = observe45(s, form); bool holes = form == 0 || form == 2 || form == 4; std::string key = "45:form" + std::to_string(form);
  std::set<P> off = offCells(polysOf(v));
  ringChecks(c, out, 1, holes, key);
  Arr a; arrItems(a, v, 2); arrOut(a, out, 1); a.nlab = 3; for (auto& q : off) a.ring(rectRing(q.x, q.y, q.x + 1, q.y + 1), 0, 0); a.finish(); bool nt = false;
  sameArr(c, a, [&](const int* w) { bool e = w[2] > 0; if (e) nt = true; return (int)e; }, [&](const Arr::Cell& q, int, int g2) { P cell((i64)floorl((q.x0 + q.x1) / 2), (i64)floorl((q.l0 + q.l1 + q.h0 + q.h1) / 4)); return (g2 == 0 || g2 == 1) && off.count(cell) > 0 && q.x1 <= cell.x + 1 + 1e-6L; }, key.c_str(), [&]() { return " output=" + strv(out); });
  if (off.empty()) {
    S t; for (auto& p : out) t.insert(to45h<C>(p)); S d = t; d ^= s; c.check(d.empty(), key + ":reinsert", "inserting the output into a fresh set does not reproduce the set: " + strv(out));
    S e(s); e.clean(); c.check(t == e, key + ":reinsert-equal", "a set rebuilt from the output does not compare equal: " + strv(out));
  } else {
    // the stored edges of the cleaned set are the reference when crossings were snapped
    S e(s); e.clean(); std::vector<Poly> o2 = observe45(e, 0); Arr b; arrOut(b, o2, 2); arrOut(b, out, 1); b.nlab = 3; b.finish();
    sameArr(c, b, [&](const int* w) { return w[2]; }, [&](const Arr::Cell&, int, int) { return false; }, (key + ":snapped").c_str(), [&]() { return " output=" + strv(out) + " with holes=" + strv(o2); });
    c.count("scenes with off-grid crossings");
  }
  if (nt) { Hash h; h.add(form); c.nontrivial(hashPolys(polysOf(v), h)); }
}
#else
template <class C> void caseG(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S;
  SceneG sc = genSceneG(r, 1LL << 27); Items v;
  if (r.chance(1, 4)) { Scene45 q = genScene45(r, r.chance(1, 3), -(1 << 27), 1 << 27); v = genItems45(r, q, 4, true, false); } else v = genItemsG(r, sc, r.chance(1, 6) ? 7 : 4, true, false);
  int form = r.below(4); S s; for (auto& i : v) insertItemGen(s, i);
  c.desc = std::string("form=") + std::to_string(form) + " A=" + strv(v);
  std::vector<Poly> out = observeG(s, form); bool holes = !(form & 1); std::string key = "gen:form" + std::to_string(form);
  ringChecks(c, out, 2, holes, key);
  std::vector<Poly> in = polysOf(v); bool nt = false;
  Arr a; arrItems(a, v, 2); arrOut(a, out, 1); a.nlab = 3; a.finish();
  sameArr(c, a, [&](const int* w) { bool e = w[2] > 0; if (e) nt = true; return (int)e; }, [&](const Arr::Cell& q, int, int g2) { return (holes ? g2 == 0 || g2 == 1 : true) && cellReach(q, in) <= 3; }, key.c_str(), [&]() { return " output=" + strv(out); });
  // against the region the cleaned set stores: exact when holes are supported, to a grid unit when they are cut open
  S e(s); e.clean(); std::vector<Poly> o2 = observeG(e, 0); Arr b; arrOut(b, o2, 2); arrOut(b, out, 1); b.nlab = 3; b.finish();
  sameArr(c, b, [&](const int* w) { return w[2]; }, [&](const Arr::Cell& q, int, int) { return !holes && cellReach(q, o2) <= 1.5L; }, (key + ":stored").c_str(), [&]() { return " output=" + strv(out) + " with holes=" + strv(o2); });
  if (holes) { S t; for (auto& p : out) t.insert(toGenh<C>(p)); c.check(t == e, key + ":reinsert", "a set rebuilt from the output does not compare equal: " + strv(out)); }
  if (nt) { Hash h; h.add(form); c.nontrivial(hashPolys(in, h)); }
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"polys90-int", [](Ctx& c) { case90<int>(c); }, 40000, 1500000});
  f.push_back({"limit90-int", [](Ctx& c) { caseLimit<int>(c); }, 12000, 500000});
  f.push_back({"limit90-pinned", [](Ctx& c) { caseLimitPinned(c); }, 1, 1});
  f.push_back({"polys90-i64", [](Ctx& c) { case90<long long>(c); }, 10000, 400000});
#elif PART == 1
  f.push_back({"polys45-int", [](Ctx& c) { case45<int>(c, false); }, 20000, 800000});
  f.push_back({"polys45off-int", [](Ctx& c) { case45<int>(c, true); }, 12000, 500000});
  f.push_back({"polys45-i64", [](Ctx& c) { case45<long long>(c, false); }, 6000, 200000});
#else
  f.push_back({"polysG-int", [](Ctx& c) { caseG<int>(c); }, 16000, 800000});
#endif
  return f;
}
}
VF_MAIN()
