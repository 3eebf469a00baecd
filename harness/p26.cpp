// P26: the Manhattan, 45-degree and arbitrary-angle engines agree on shared input, and conversions preserve the region.
#include "sceneg.hpp"
namespace vf {
using namespace boost::polygon::operators;
static const char* OPN[] = {"or", "and", "xor", "sub"};
template <class A, class B, class O> void applyOp(int op, const A& a, const B& b, O& o) { switch (op) { case 0: o = a + b; break; case 1: o = a * b; break; case 2: o = a ^ b; break; default: o = a - b; } }
template <class A, class B, class O> void applyOp2(int op, const A& a, const B& b, O& o) { switch (op) { case 0: bp::assign(o, a | b); break; case 1: bp::assign(o, a & b); break; case 2: bp::assign(o, a ^ b); break; default: bp::assign(o, a - b); } }
template <class V> std::string keyOf(const V& k) { std::string s; for (auto& x : k) s += std::to_string(x) + ","; return s; }
static std::string graphStr(const std::vector<std::set<int> >& g) { std::string s; for (size_t i = 0; i < g.size(); ++i) for (int j : g[i]) s += std::to_string(i) + "-" + std::to_string(j) + ","; return s; }
static ld areaOf(const std::vector<Poly>& v) { ld a = 0; for (auto& p : v) { a += (ld)area2(p.outer) / 2; for (auto& h : p.holes) a += (ld)area2(h) / 2; } return a; }
#if PART == 0
template <class C> bp::polygon_45_set_data<C> mk45(Rng& r, const Items& v, const bp::polygon_90_set_data<C>& s, std::string& how) {
  bp::polygon_45_set_data<C> t; int k = r.below(8); how += " 45:" + std::to_string(k);
  std::vector<bp::polygon_90_with_holes_data<C> > w; bp::polygon_90_set_data<C> cs(s);
  switch (k) { case 0: t.insert(s); break; case 1: cs.clean(); t.insert(cs); break; case 2: bp::assign(t, s); break; case 3: cs.get(w); t.insert(w.begin(), w.end()); break; case 4: cs.get(w); bp::assign(t, w); break;
    case 5: t = s; break; case 6: { std::vector<bp::rectangle_data<C> > q; cs.get(q); t.insert(q.begin(), q.end()); break; }
    default: { for (auto& i : v) if (i.form == 2) t.insert(toRect<C>(i.p.outer), i.hole); else if (i.form == 1) t.insert(to90<C>(i.p.outer), i.hole); else t.insert(to90h<C>(i.p), i.hole); } }
  return t;
}
template <class C> bp::polygon_set_data<C> mkG(Rng& r, const Items& v, const bp::polygon_90_set_data<C>& s, std::string& how) {
  bp::polygon_set_data<C> t; int k = r.below(9); how += " gen:" + std::to_string(k);
  std::vector<bp::polygon_90_with_holes_data<C> > w; bp::polygon_90_set_data<C> cs(s); bp::polygon_45_set_data<C> m;
  switch (k) { case 0: t.insert(s); break; case 1: cs.clean(); t.insert(cs); break; case 2: bp::assign(t, s); break; case 3: cs.get(w); t.insert(w.begin(), w.end()); break; case 4: cs.get(w); bp::assign(t, w); break;
    case 5: t = s; break; case 6: m.insert(s); t.insert(m); break; case 7: m.insert(s); bp::assign(t, m); break;
    default: { for (auto& i : v) if (i.form == 2) t.insert(toRect<C>(i.p.outer), i.hole); else if (i.form == 1) t.insert(to90<C>(i.p.outer), i.hole); else t.insert(to90h<C>(i.p), i.hole); } }
  return t;
}
template <class C> void man(Ctx& c) {
  Rng& r = c.rng; i64 M = 1 << 19; bool wide = r.chance(1, 4); if (wide) M = std::numeric_limits<C>::max() / 4 - 100; if (sizeof(C) > 4) M = std::min<i64>(M, 1LL << 28);
  Range q = pickRange(r, -M, M, true); if (q.hi > M) { q.lo = -M; q.hi = M; } Scene sc = genScene(r, q, r.chance(1, 8) ? 12 : 8); bool sub = r.chance(1, 4);
  Items A = genItems(r, sc, 5, true, false, false), B = genItems(r, sc, 4, true, false, false); if (sub) for (auto v : {&A, &B}) for (size_t i = 0, m = v->size(); i < m; ++i) if (r.chance(1, 3)) { Item it = (*v)[i]; it.hole = true; scramble(r, it.p); v->push_back(it); }
  int op = r.below(4), what = r.below(7), mix = r.below(9); bool useGen = true;
  bp::orientation_2d oa = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL, ob = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL;
  static const char* WN[] = {"bool", "conversion", "area", "trapezoids", "merge", "connect", "mixed"};
  c.desc = std::string(WN[what]) + " " + OPN[op] + " mix=" + std::to_string(mix) + " orient=" + (oa == bp::VERTICAL ? "V" : "H") + (ob == bp::VERTICAL ? "V" : "H") + " A=" + strv(A) + " B=" + strv(B);
  bp::polygon_90_set_data<C> a(oa), b(ob); for (auto& i : A) insertItem(a, i); for (auto& i : B) insertItem(b, i);
  std::string how; bp::polygon_45_set_data<C> a4 = mk45(r, A, a, how), b4 = mk45(r, B, b, how); bp::polygon_set_data<C> ag, bg; ag = mkG(r, A, a, how); bg = mkG(r, B, b, how); c.desc += how;
  Grid g; addc(g, A); addc(g, B); g.seal(); W wa = rasterItems(g, A), wb = rasterItems(g, B), want = boolW(wa, wb, op), pa = positive(wa);
  bool nt = false; for (int x : want) nt = nt || x;
  auto judge = [&](const W& w, const std::vector<Poly>& o, const std::string& k) { return sameRegion(c, g, w, o, k.c_str(), how); };
  switch (what) {
    case 0: { bp::polygon_90_set_data<C> o; bp::polygon_45_set_data<C> o4; bp::polygon_set_data<C> og; if (r.chance(1, 2)) { applyOp(op, a, b, o); applyOp(op, a4, b4, o4); applyOp(op, ag, bg, og); } else { applyOp2(op, a, b, o); applyOp2(op, a4, b4, o4); applyOp2(op, ag, bg, og); }
      judge(want, observe90(o, r.below(5)), "bool90"); judge(want, observe45(o4, r.below(6)), "bool45"); if (useGen) judge(want, observeG(og, r.below(4)), "boolG"); c.count("engine triples compared"); break; }
    case 1: judge(pa, observe45(a4, r.below(6)), "convert45"); judge(pa, observeG(ag, r.below(4)), "convertG"); c.count("conversions judged", 2);
      { bp::polygon_90_set_data<C> back; std::vector<bp::polygon_90_with_holes_data<C> > w; bool b4 = r.chance(1, 2); for (auto& p : b4 ? observe45(a4, 0) : observeG(ag, 0)) { Poly d; d.outer = dropCollinear(p.outer); for (auto& h : p.holes) { Ring k = dropCollinear(h); if (k.size()) d.holes.push_back(k); } w.push_back(to90h<C>(d)); } /* Manhattan rings alternate */ if (r.chance(1, 2)) back.insert(w.begin(), w.end()); else bp::assign(back, w); judge(pa, observe90(back, r.below(5)), b4 ? "convert-back45" : "convert-backG"); c.count("conversions judged"); }
      { // removing a converted set again
        bp::polygon_90_set_data<C> both(oa); both.insert(a); both.insert(b); both.clean(); bp::polygon_90_set_data<C> cb(b); cb.clean(); bool g2 = r.chance(1, 2); W rest(pa.size()); for (size_t i = 0; i < pa.size(); ++i) rest[i] = pa[i] > 0 && wb[i] <= 0;
        if (g2) { bp::polygon_set_data<C> t; t.insert(both); t.insert(cb, true); judge(rest, observeG(t, r.below(3)), "remove90fromG"); } else { bp::polygon_45_set_data<C> t; t.insert(both); t.insert(cb, true); judge(rest, observe45(t, r.below(6)), "remove90from45"); } c.count("conversions judged"); }
      break;
    case 2: { ld w = (ld)sumArea(g, pa); ld x = (ld)bp::area(a), y = (ld)bp::area(a4), z = (ld)bp::area(ag); c.count("areas compared", 3); ld tol = 1e-9L * w + 1e-9L; if (fabsl(x - w) > tol) c.fail("area90", sld(x) + " instead of " + sld(w)); if (fabsl(y - w) > tol) c.fail("area45", sld(y) + " instead of " + sld(w) + how); if (fabsl(z - w) > tol) c.fail("areaG", sld(z) + " instead of " + sld(w) + how);
      bp::rectangle_data<C> e1, e2, e3; bool r1 = bp::extents(e1, a), r2 = bp::extents(e2, a4), r3 = bp::extents(e3, ag); if (r1 != r2 || r1 != r3) c.fail("extents-emptiness", std::to_string(r1) + std::to_string(r2) + std::to_string(r3) + how); else if (r1 && (e1 != e2 || e1 != e3)) c.fail("extents", vf::str(fromRect(e1)) + vf::str(fromRect(e2)) + vf::str(fromRect(e3)) + how); break; }
    case 3: { bp::orientation_2d s = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; std::vector<bp::rectangle_data<C> > x; bp::get_rectangles(x, a, s); std::vector<bp::polygon_45_data<C> > y; bp::get_trapezoids(y, a4, s); std::vector<bp::polygon_data<C> > z; bp::get_trapezoids(z, ag, s);
      auto y2 = fromSs(y), z2 = fromSs(z); for (auto v : {&y2, &z2}) for (auto& p : *v) if (area2(p.outer) < 0) reverseRing(p.outer);
      judge(pa, fromRects(x), "slices90"); judge(pa, y2, "slices45"); judge(pa, z2, "slicesG"); c.count("decompositions compared"); break; }
    case 4: { std::map<std::set<int>, bp::polygon_90_set_data<C> > o; std::map<std::set<int>, bp::polygon_45_set_data<C> > o4; std::map<std::set<int>, bp::polygon_set_data<C> > og; bp::property_merge_90<C, int> m; bp::property_merge_45<C, int> m4; bp::property_merge<C, int> mg;
      m.insert(a, 0); m.insert(b, 1); m4.insert(a4, 0); m4.insert(b4, 1); for (auto& i : A) if (!i.hole) mg.insert(toGenh<C>(i.p), 0); for (auto& i : B) if (!i.hole) mg.insert(toGenh<C>(i.p), 1); m.merge(o); m4.merge(o4); mg.merge(og); W pb = positive(wb);
      for (int k = 1; k < 4; ++k) { std::set<int> key; if (k & 1) key.insert(0); if (k & 2) key.insert(1); W w(pa.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = (pa[i] > 0) == !!(k & 1) && (pb[i] > 0) == !!(k & 2);
        judge(w, o.count(key) ? observe90(o[key], 0) : std::vector<Poly>(), "merge90"); judge(w, o4.count(key) ? observe45(o4[key], 0) : std::vector<Poly>(), "merge45"); if (!sub) judge(w, og.count(key) ? observeG(og[key], 0) : std::vector<Poly>(), "mergeG"); }
      c.count("merges compared"); break; }
    case 5: { bp::connectivity_extraction_90<C> x; bp::connectivity_extraction_45<C> y; bp::connectivity_extraction<C> z; int n = 0; for (auto v : {&A, &B}) for (auto& i : *v) { bp::polygon_90_set_data<C> s(bp::VERTICAL); s.insert(to90h<C>(i.p)); x.insert(s); bp::polygon_45_set_data<C> s4; s4.insert(s); y.insert(s4); bp::polygon_set_data<C> sg; sg.insert(s); z.insert(sg); ++n; }
      std::vector<std::set<int> > g1(n), g2(n), g3(n); x.extract(g1); y.extract(g2); z.extract(g3); if (g1 != g2) c.fail("connect45", "90: " + graphStr(g1) + " 45: " + graphStr(g2)); if (g1 != g3) c.fail("connectG", "90: " + graphStr(g1) + " general: " + graphStr(g3)); c.count("graphs compared"); break; }
    default: { bp::polygon_set_data<C> og; bp::polygon_45_set_data<C> o4; std::vector<bp::polygon_90_with_holes_data<C> > wb2; for (auto& i : B) if (!i.hole) wb2.push_back(to90h<C>(i.p)); W w2 = want; if (mix == 8) { Items P2; for (auto& i : B) if (!i.hole) P2.push_back(i); w2 = boolW(wa, rasterItems(g, P2), op); }
      switch (mix) { case 0: applyOp(op, a, b4, o4); judge(want, observe45(o4, 0), "mixed-90-45"); break; case 1: applyOp(op, a4, b, o4); judge(want, observe45(o4, 0), "mixed-45-90"); break; case 2: applyOp(op, a, bg, og); judge(want, observeG(og, 0), "mixed-90-G"); break; case 3: applyOp(op, ag, b, og); judge(want, observeG(og, 0), "mixed-G-90"); break;
        case 4: applyOp(op, a4, bg, og); judge(want, observeG(og, 0), "mixed-45-G"); break; case 5: applyOp(op, ag, b4, og); judge(want, observeG(og, 0), "mixed-G-45"); break; case 6: o4 = a4; if (op == 0) o4 |= b4; else if (op == 1) o4 &= b4; else if (op == 2) o4 ^= b4; else o4 -= b4; judge(want, observe45(o4, 1), "self-45"); break;
        case 7: og = ag; if (op == 0) og |= b; else if (op == 1) og &= b; else if (op == 2) og ^= b; else og -= b; judge(want, observeG(og, 1), "self-G-90"); break; default: applyOp(op, a4, wb2, o4); judge(w2, observe45(o4, 0), "mixed-45-vec90"); }
      c.count("mixed operands judged"); }
  }
  if (nt || (what && !A.empty())) { Hash h; h.add(what); h.add(op); h.add(hstr(how.c_str())); auto in = polysOf(A), ib = polysOf(B); in.insert(in.end(), ib.begin(), ib.end()); c.nontrivial(hashPolys(in, h)); }
}
#else
template <class C> bp::polygon_set_data<C> mkG45(Rng& r, const Items& v, const bp::polygon_45_set_data<C>& s, std::string& how) {
  bp::polygon_set_data<C> t; int k = r.below(7); how += " gen:" + std::to_string(k); std::vector<bp::polygon_45_with_holes_data<C> > w; bp::polygon_45_set_data<C> cs(s);
  switch (k) { case 0: t.insert(s); break; case 1: cs.clean(); t.insert(cs); break; case 2: bp::assign(t, s); break; case 3: cs.get(w); t.insert(w.begin(), w.end()); break; case 4: cs.get(w); bp::assign(t, w); break; case 5: t = s; break;
    default: for (auto& i : v) if (i.form == 1) t.insert(to45<C>(i.p.outer), i.hole); else t.insert(to45h<C>(i.p), i.hole); }
  return t;
}
template <class C> void deg45(Ctx& c) {
  Rng& r = c.rng; i64 M = 1 << 19; Scene45 sc = genScene45(r, false, -M, M); Items A = genItems45(r, sc, 4, true, r.chance(1, 4)), B = genItems45(r, sc, 3, true, r.chance(1, 4)); int op = r.below(4), what = r.below(7), mix = r.below(4);
  static const char* WN[] = {"bool", "conversion", "area", "trapezoids", "merge", "connect", "mixed"};
  c.desc = std::string(WN[what]) + " " + OPN[op] + " mix=" + std::to_string(mix) + " A=" + strv(A) + " B=" + strv(B); std::string how;
  bp::polygon_45_set_data<C> a, b; for (auto& i : A) insertItem45(a, i); for (auto& i : B) insertItem45(b, i); bp::polygon_set_data<C> ag, bg; ag = mkG45(r, A, a, how); bg = mkG45(r, B, b, how); c.desc += how; bool nt = false;
  auto judge = [&](const std::function<bool(bool, bool)>& f, const std::vector<Poly>& o, const std::string& k) { Arr arr; arrItems(arr, A, 2); arrItems(arr, B, 3); arrOut(arr, o, 1); arr.nlab = 4; arr.finish(); return sameArr(c, arr, [&](const int* w) { bool e = f(w[2] > 0, w[3] > 0); nt = nt || e; return (int)e; }, [](const Arr::Cell&, int, int) { return false; }, k.c_str(), [&]() { return how + " output=" + strv(o); }); };
  auto want = [&](bool x, bool y) { return boolOp(x, y, op); }; auto onlyA = [](bool x, bool) { return x; };
  switch (what) {
    case 0: { bp::polygon_45_set_data<C> o4; bp::polygon_set_data<C> og; if (r.chance(1, 2)) { applyOp(op, a, b, o4); applyOp(op, ag, bg, og); } else { applyOp2(op, a, b, o4); applyOp2(op, ag, bg, og); } judge(want, observe45(o4, r.below(6)), "bool45"); judge(want, observeG(og, r.below(4)), "boolG"); c.count("engine pairs compared"); break; }
    case 1: judge(onlyA, observeG(ag, r.below(4)), "convertG"); { std::vector<bp::polygon_45_with_holes_data<C> > w; for (auto& p : observeG(ag, 0)) w.push_back(to45h<C>(p)); bp::polygon_45_set_data<C> back; if (r.chance(1, 2)) bp::assign(back, w); else back.insert(w.begin(), w.end()); judge(onlyA, observe45(back, r.below(6)), "convert-back"); c.count("conversions judged", 2);
        bp::polygon_45_set_data<C> down; bp::polygon_set_data<C> g2(ag); if (r.chance(1, 2)) g2.clean(); if (!g2.downcast(down)) c.fail("downcast-refused", "a set of 45-degree geometry is refused" + how); else { judge(onlyA, observe45(down, r.below(6)), "downcast"); c.count("conversions judged"); } }
      break;
    case 2: { Arr arr; arrItems(arr, A, 2); arr.nlab = 4; arr.finish(); ld w = 0; arr.sweep([&](const Arr::Cell& q) { if (q.w[2] > 0) w += q.area(); }); ld y = (ld)bp::area(a), z = (ld)bp::area(ag); c.count("areas compared", 2); ld tol = 1e-9L * w + 1e-6L; if (fabsl(y - w) > tol) c.fail("area45", sld(y) + " instead of " + sld(w)); if (fabsl(z - w) > tol) c.fail("areaG", sld(z) + " instead of " + sld(w) + how); 
      bp::rectangle_data<C> e2, e3; bool r2 = bp::extents(e2, a), r3 = bp::extents(e3, ag); if (r2 != r3) c.fail("extents-emptiness", how); else if (r2 && e2 != e3) c.fail("extents", vf::str(fromRect(e2)) + vf::str(fromRect(e3)) + how); nt = true; break; }
    case 3: { bp::orientation_2d s = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL; std::vector<bp::polygon_45_data<C> > y; bp::get_trapezoids(y, a, s); std::vector<bp::polygon_data<C> > z; bp::get_trapezoids(z, ag, s); auto y2 = fromSs(y), z2 = fromSs(z); for (auto v : {&y2, &z2}) for (auto& p : *v) if (area2(p.outer) < 0) reverseRing(p.outer); judge(onlyA, y2, "slices45"); judge(onlyA, z2, "slicesG"); c.count("decompositions compared"); break; }
    case 4: { std::map<std::set<int>, bp::polygon_45_set_data<C> > o4; std::map<std::set<int>, bp::polygon_set_data<C> > og; bp::property_merge_45<C, int> m4; bp::property_merge<C, int> mg; bool sub = false; m4.insert(a, 0); m4.insert(b, 1); for (auto& i : A) if (!i.hole) mg.insert(toGenh<C>(i.p), 0); else sub = true; for (auto& i : B) if (!i.hole) mg.insert(toGenh<C>(i.p), 1); else sub = true; m4.merge(o4); mg.merge(og);
      for (int k = 1; k < 4; ++k) { std::set<int> key; if (k & 1) key.insert(0); if (k & 2) key.insert(1); auto w = [&](bool x, bool y) { return x == !!(k & 1) && y == !!(k & 2); }; judge(w, o4.count(key) ? observe45(o4[key], 0) : std::vector<Poly>(), "merge45"); if (!sub) judge(w, og.count(key) ? observeG(og[key], 0) : std::vector<Poly>(), "mergeG"); } c.count("merges compared"); break; }
    case 5: { bp::connectivity_extraction_45<C> y; bp::connectivity_extraction<C> z; int n = 0; for (auto v : {&A, &B}) for (auto& i : *v) { bp::polygon_45_set_data<C> s4; s4.insert(to45h<C>(i.p)); y.insert(s4); bp::polygon_set_data<C> sg; sg.insert(s4); z.insert(sg); ++n; } std::vector<std::set<int> > g2(n), g3(n); y.extract(g2); z.extract(g3); if (g2 != g3) c.fail("connect", "45: " + graphStr(g2) + " general: " + graphStr(g3)); c.count("graphs compared"); nt = true; break; }
    default: { bp::polygon_set_data<C> og; switch (mix) { case 0: applyOp(op, a, bg, og); break; case 1: applyOp(op, ag, b, og); break; case 2: og = ag; if (op == 0) og |= b; else if (op == 1) og &= b; else if (op == 2) og ^= b; else og -= b; break; default: { std::vector<bp::polygon_45_with_holes_data<C> > w; b.get(w); applyOp(op, ag, w, og); } } judge(want, observeG(og, r.below(4)), "mixed"); c.count("mixed operands judged"); }
  }
  if (nt) { Hash h; h.add(what); h.add(op); h.add(hstr(how.c_str())); auto in = polysOf(A), ib = polysOf(B); in.insert(in.end(), ib.begin(), ib.end()); c.nontrivial(hashPolys(in, h)); }
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"manhattan-int", [](Ctx& c) { man<int>(c); }, 24000, 900000});
#else
  f.push_back({"deg45-int", [](Ctx& c) { deg45<int>(c); }, 16000, 600000});
#endif
  return f;
}
}
VF_MAIN()
