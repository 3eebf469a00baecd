// P01: Manhattan boolean operations are exact pointwise set operations.
#include "set90.hpp"
namespace vf {
using namespace boost::polygon::operators;
static const char* OPN[4] = {"or", "and", "xor", "sub"};

template <class T, class V> void assignTo(T& t, const V& v) { bp::assign(t, v); }

// apply op between any two operands, delivering into a polygon_90_set_data
template <class C, class L, class R> bp::polygon_90_set_data<C> applyOp(const L& l, const R& r, int op, int style) {
  bp::polygon_90_set_data<C> out;
  switch (op) {
    case 0: if (style & 1) out = l | r; else { bp::polygon_90_set_data<C> o2(l + r); out = o2; } break;
    case 1: if (style & 1) out = l & r; else { bp::polygon_90_set_data<C> o2(l * r); out = o2; } break;
    case 2: if (style & 1) out = l ^ r; else { bp::polygon_90_set_data<C> o2(l ^ r); out = o2; } break;
    default: if (style & 1) out = l - r; else { bp::polygon_90_set_data<C> o2(l - r); out = o2; } break;
  }
  return out;
}
template <class C, class L> bp::polygon_90_set_data<C> dispatchR(Ctx& c, const L& l, const Items& b, int rf, int op, int style);

template <class C> bp::polygon_90_set_data<C> buildSet(Rng& r, const Items& v, bp::orientation_2d o) {
  bp::polygon_90_set_data<C> s(o);
  for (size_t i = 0; i < v.size(); ++i) {
    insertItem(s, v[i]);
    // lazily cleaned state may be forced at any time as long as nothing subtractive is pending
  }
  switch (r.below(5)) { case 0: s.sort(); break; case 1: s.clean(); break; case 2: (void)s.size(); break; default: break; }
  return s;
}
template <class C> std::vector<bp::rectangle_data<C> > vecRect(const Items& v) { std::vector<bp::rectangle_data<C> > r; for (auto& i : v) r.push_back(toRect<C>(i.p.outer)); return r; }
template <class C> std::list<bp::polygon_90_data<C> > listPoly(const Items& v) { std::list<bp::polygon_90_data<C> > r; for (auto& i : v) r.push_back(to90<C>(i.p.outer)); return r; }
template <class C> std::vector<bp::polygon_90_with_holes_data<C> > vecPolyH(const Items& v) { std::vector<bp::polygon_90_with_holes_data<C> > r; for (auto& i : v) r.push_back(to90h<C>(i.p)); return r; }

// forms: 0 set data H, 1 set data V, 2 vector<rect>, 3 list<poly90>, 4 vector<poly90 with holes>, 5 single rect, 6 single polygon with holes
inline void conform(Rng& r, Items& v, int form, const Scene& s, bool selfX = true) {
  if (form == 0 || form == 1) return;
  if (form >= 5) { if (v.empty()) { Items w; while (w.empty()) w = genItems(r, s, 3, true, false, selfX); v = w; } v.resize(1); }
  for (auto& i : v) {
    i.hole = false;
    if (form == 2 || form == 5) { Ring q = i.p.outer; i64 x1 = q[0].x, x2 = x1, y1 = q[0].y, y2 = y1; for (auto& p : q) { x1 = std::min(x1, p.x); x2 = std::max(x2, p.x); y1 = std::min(y1, p.y); y2 = std::max(y2, p.y); } i.p.outer = rectRing(x1, y1, x2, y2); i.p.holes.clear(); }
    if (form == 3) i.p.holes.clear();
  }
}
template <class C, class L> bp::polygon_90_set_data<C> dispatchR(Ctx& c, const L& l, const Items& b, int rf, int op, int style) {
  switch (rf) {
    case 0: return applyOp<C>(l, buildSet<C>(c.rng, b, bp::HORIZONTAL), op, style);
    case 1: return applyOp<C>(l, buildSet<C>(c.rng, b, bp::VERTICAL), op, style);
    case 2: return applyOp<C>(l, vecRect<C>(b), op, style);
    case 3: return applyOp<C>(l, listPoly<C>(b), op, style);
    case 4: return applyOp<C>(l, vecPolyH<C>(b), op, style);
    case 5: return applyOp<C>(l, toRect<C>(b[0].p.outer), op, style);
    default: return applyOp<C>(l, to90h<C>(b[0].p), op, style);
  }
}

template <class C, int LF> void binaryCase(Ctx& c, bool full) {
  Rng& r = c.rng;
  Range q = pickRange(r, std::numeric_limits<C>::min(), std::numeric_limits<C>::max(), full);
  Scene s = genScene(r, q, 10);
  int lf = LF == 0 ? r.below(2) : LF, rf = r.below(7), op = r.below(4), style = r.below(2), obs = r.below(5);
  Items a = genItems(r, s, 5, true, true, true), b = genItems(r, s, 5, true, true, true);
  conform(r, a, lf, s); conform(r, b, rf, s);
  c.desc = std::string("op=") + OPN[op] + " lform=" + std::to_string(lf) + " rform=" + std::to_string(rf) + " style=" + std::to_string(style) + " obs=" + std::to_string(obs) + " A=" + strv(a) + " B=" + strv(b);
  Grid g; addc(g, a); addc(g, b); g.seal();
  W wa = rasterItems(g, a), wb = rasterItems(g, b);
  bp::polygon_90_set_data<C> res;
  if constexpr (LF == 0) { auto l = buildSet<C>(r, a, lf ? bp::VERTICAL : bp::HORIZONTAL); res = dispatchR<C>(c, l, b, rf, op, style); }
  else if constexpr (LF == 2) { auto l = vecRect<C>(a); res = dispatchR<C>(c, l, b, rf, op, style); }
  else if constexpr (LF == 3) { auto l = listPoly<C>(a); res = dispatchR<C>(c, l, b, rf, op, style); }
  else { auto l = vecPolyH<C>(a); res = dispatchR<C>(c, l, b, rf, op, style); }
  W want = boolW(wa, wb, op);
  sameRegion(c, g, want, observe90(res, obs), (std::string("binary-") + OPN[op]).c_str());
  bool nt = false; for (size_t i = 0; i < want.size(); ++i) if (want[i]) nt = true;
  if (nt && a.size() && b.size()) { Hash h; h.add(op * 64 + lf * 8 + rf); std::vector<Poly> all; for (auto& i : a) all.push_back(i.p); for (auto& i : b) all.push_back(i.p); c.nontrivial(hashPolys(all, h)); }
}

// self-assignment operators and histories of them, mixed scanning orientations
template <class C> void historyCase(Ctx& c) {
  Rng& r = c.rng;
  Range q = pickRange(r, std::numeric_limits<C>::min(), std::numeric_limits<C>::max(), false);
  Scene s = genScene(r, q, 9);
  int steps = 2 + r.below(7);
  bp::orientation_2d o = r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL;
  bp::polygon_90_set_data<C> acc(o);
  Grid g; g.xs = s.xs; g.ys = s.ys; g.seal();
  W w(g.nx * g.ny, 0); // effective covered/pending count
  Hash h; std::string d = std::string("history orient=") + (o == bp::HORIZONTAL ? "H" : "V");
  bool any = false;
  for (int k = 0; k < steps; ++k) {
    // "or" into a set accumulates cover counts, so rings with negative lobes (self-crossing) are kept to the other operators
    int op = r.below(4), form = r.below(3);
    bool addsCounts = op == 0 && form < 2;
    Items b = genItems(r, s, 4, true, true, !addsCounts);
    int rf = r.below(7); conform(r, b, rf, s, !addsCounts);
    W wb = rasterItems(g, b);
    d += std::string("; ") + OPN[op] + "= form" + std::to_string(rf) + " " + strv(b);
    c.desc = d;
#define VF_SELF(B) do { auto bb = B; \
      if (op == 0) { if (form == 0) acc |= bb; else if (form == 1) acc += bb; else { bp::polygon_90_set_data<C> t(acc | bb); acc = t; } } \
      else if (op == 1) { if (form == 0) acc &= bb; else if (form == 1) acc *= bb; else { bp::polygon_90_set_data<C> t(acc & bb); acc = t; } } \
      else if (op == 2) { if (form < 2) acc ^= bb; else acc = acc ^ bb; } \
      else { if (form < 2) acc -= bb; else acc = acc - bb; } } while (0)
    switch (rf) {
      case 0: VF_SELF((buildSet<C>(r, b, bp::HORIZONTAL))); break;
      case 1: VF_SELF((buildSet<C>(r, b, bp::VERTICAL))); break;
      case 2: VF_SELF((vecRect<C>(b))); break;
      case 3: VF_SELF((listPoly<C>(b))); break;
      case 4: VF_SELF((vecPolyH<C>(b))); break;
      case 5: VF_SELF((toRect<C>(b[0].p.outer))); break;
      default: VF_SELF((to90h<C>(b[0].p))); break;
    }
    // Operands of this history are compared as regions, so force a scan of pending
    // subtractive inserts before the next operator (the operand was built from
    // possibly negative counts, which "|=" would carry over as such).
    acc.clean();
    bool carries = op == 0 && form < 2 && (rf == 0 || rf == 1);
    if (carries) {
      // |= with a set operand accumulates counts: the operand may hold unscanned
      // subtractive regions, so only the all-additive part is specified.
      bool neg = false; for (auto& i : b) if (i.hole) neg = true;
      if (neg) { // recompute from what is observable now
        std::vector<Poly> out = observe90(acc, 0); W now; std::string why; if (!onGrid(g, out) || !rasterOut(g, now, out, why)) { c.fail("history:shape", "bad output " + strv(out)); return; }
        for (size_t i = 0; i < now.size(); ++i) { bool x = w[i] > 0, y = wb[i] > 0; if (!x && !y && now[i]) { c.fail("history-or:region", "union covers a point that neither operand covers"); return; } }
        w = positive(now); continue;
      }
    }
    w = boolW(w, wb, op);
    if (!sameRegion(c, g, w, observe90(acc, r.below(5)), (std::string("history-") + OPN[op]).c_str(), " after step " + std::to_string(k))) return;
    h.add(op * 8 + rf); std::vector<Poly> all; for (auto& i : b) all.push_back(i.p); h.add(hashPolys(all));
    for (size_t i = 0; i < w.size(); ++i) if (w[i]) any = true;
  }
  if (any) c.nontrivial(h.h);
}

// chained operator expressions (views of views), delivered into containers too
template <class C> void chainCase(Ctx& c) {
  Rng& r = c.rng;
  Range q = pickRange(r, std::numeric_limits<C>::min(), std::numeric_limits<C>::max(), false);
  Scene s = genScene(r, q, 9);
  Items a = genItems(r, s, 3, true, false, true), b = genItems(r, s, 3, true, false, true), d = genItems(r, s, 3, true, false, true);
  Grid g; g.xs = s.xs; g.ys = s.ys; g.seal();
  W wa = rasterItems(g, a), wb = rasterItems(g, b), wd = rasterItems(g, d);
  int o1 = r.below(3), o2 = r.below(3), o3 = r.below(3);
  auto O = [](int k) { return k ? bp::VERTICAL : bp::HORIZONTAL; };
  bp::orientation_2d oa = O(r.below(2)), ob = O(r.below(2)), od = O(r.below(2));
  (void)o1; (void)o2; (void)o3;
  auto A = buildSet<C>(r, a, oa); auto B = buildSet<C>(r, b, ob); auto D = buildSet<C>(r, d, od);
  auto VB = vecPolyH<C>(b);
  int shape = r.below(8), obs = r.below(3);
  c.desc = "chain shape=" + std::to_string(shape) + " obs=" + std::to_string(obs) + " orients=" + std::to_string(oa == bp::VERTICAL) + std::to_string(ob == bp::VERTICAL) + std::to_string(od == bp::VERTICAL) + " A=" + strv(a) + " B=" + strv(b) + " D=" + strv(d);
  W want; std::vector<Poly> out;
  auto deliver = [&](auto&& v) {
    if (obs == 0) { bp::polygon_90_set_data<C> t(v); out = observe90(t, 0); }
    else if (obs == 1) { std::vector<bp::rectangle_data<C> > t; bp::assign(t, v); out = fromRects(t); }
    else { std::list<bp::polygon_90_with_holes_data<C> > t; bp::assign(t, v); out = fromHs(t); }
  };
  switch (shape) {
    case 0: deliver((A | B) & D); want = boolW(boolW(wa, wb, 0), wd, 1); break;
    case 1: deliver((A & B) ^ D); want = boolW(boolW(wa, wb, 1), wd, 2); break;
    case 2: deliver(A - (B & D)); want = boolW(wa, boolW(wb, wd, 1), 3); break;
    case 3: deliver(A ^ (B ^ D)); want = boolW(wa, boolW(wb, wd, 2), 2); break;
    case 4: deliver((A + B) - (A * D)); want = boolW(boolW(wa, wb, 0), boolW(wa, wd, 1), 3); break;
    case 5: deliver((VB | A) ^ D); want = boolW(boolW(wb, wa, 0), wd, 2); break;
    case 6: deliver(D - VB); want = boolW(wd, wb, 3); break;
    default: deliver((VB - D) | (A & VB)); want = boolW(boolW(wb, wd, 3), boolW(wa, wb, 1), 0); break;
  }
  sameRegion(c, g, want, out, ("chain-" + std::to_string(shape)).c_str());
  bool nt = false; for (int x : want) if (x) nt = true;
  if (nt) { Hash h; h.add(shape * 8 + obs); std::vector<Poly> all; for (auto& i : a) all.push_back(i.p); for (auto& i : b) all.push_back(i.p); for (auto& i : d) all.push_back(i.p); c.nontrivial(hashPolys(all, h)); }
}

// larger scenes: many rectangles, deep overlap
template <class C> void bigCase(Ctx& c) {
  Rng& r = c.rng;
  int n = 20 + r.below(60), k = 30 + r.below(120);
  Scene s; s.xs = coordPool(r, n, -3000, 3000); s.ys = coordPool(r, n, -3000, 3000);
  Items a, b;
  for (int i = 0; i < k; ++i) { Item it; int nx = (int)s.xs.size() - 1, ny = (int)s.ys.size() - 1; int x = r.below(nx), y = r.below(ny); int x2 = std::min(nx, x + 1 + r.below(8)), y2 = std::min(ny, y + 1 + r.below(8)); it.p.outer = rectRing(s.xs[x], s.ys[y], s.xs[x2], s.ys[y2]); it.form = 2; (r.chance(1, 2) ? a : b).push_back(it); }
  Grid g; g.xs = s.xs; g.ys = s.ys; g.seal();
  W wa = rasterItems(g, a), wb = rasterItems(g, b);
  int op = r.below(4);
  c.desc = std::string("big op=") + OPN[op] + " A=" + strv(a) + " B=" + strv(b);
  auto A = buildSet<C>(r, a, bp::VERTICAL); auto B = buildSet<C>(r, b, r.chance(1, 2) ? bp::VERTICAL : bp::HORIZONTAL);
  auto res = applyOp<C>(A, B, op, r.below(2));
  sameRegion(c, g, boolW(wa, wb, op), observe90(res, r.below(5)), (std::string("big-") + OPN[op]).c_str());
  std::vector<Poly> all; for (auto& i : a) all.push_back(i.p); c.nontrivial(hashPolys(all));
}

std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"binary-set", [](Ctx& c) { binaryCase<int, 0>(c, true); }, 30000, 1500000});
#elif PART == 1
  f.push_back({"binary-vecrect", [](Ctx& c) { binaryCase<int, 2>(c, true); }, 20000, 1000000});
#elif PART == 2
  f.push_back({"binary-listpoly", [](Ctx& c) { binaryCase<int, 3>(c, true); }, 20000, 1000000});
#elif PART == 3
  f.push_back({"binary-vecholes", [](Ctx& c) { binaryCase<int, 4>(c, true); }, 20000, 1000000});
#elif PART == 4
  f.push_back({"history-int", [](Ctx& c) { historyCase<int>(c); }, 24000, 800000});
  f.push_back({"big-int", [](Ctx& c) { bigCase<int>(c); }, 600, 30000});
#elif PART == 5
  f.push_back({"chain-int", [](Ctx& c) { chainCase<int>(c); }, 30000, 1000000});
#elif PART == 6
  f.push_back({"binary-i64", [](Ctx& c) { binaryCase<long long, 0>(c, false); }, 16000, 800000});
  f.push_back({"history-i64", [](Ctx& c) { historyCase<long long>(c); }, 8000, 300000});
#endif
  return f;
}
}
VF_MAIN()
