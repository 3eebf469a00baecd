// P27: 45-degree and arbitrary-angle polygon sets denote point sets under any history.
#include "sceneg.hpp"
#include <memory>
#include <map>
namespace vf {
using namespace boost::polygon::operators;
// Executable model: a set is a sum of weighted terms; a term is a polygon or a region derived from other terms.
struct N; typedef std::shared_ptr<const N> NP;
struct Term { NP n; int mult; bool fresh; };  // fresh: certainly not yet merged with the other terms by a scan
struct N { int kind; Poly p; int op; std::vector<Term> t, u; };  // 0 polygon, 1 sum>0, 2 op of two sums, 3 sum>1, 4 sum odd and positive
typedef std::vector<Term> Terms;
inline NP leaf(const Poly& p) { N* n = new N; n->kind = 0; n->p = p; n->op = 0; return NP(n); }
inline NP node(int kind, int op, const Terms& t, const Terms& u) { N* n = new N; n->kind = kind; n->op = op; n->t = t; n->u = u; return NP(n); }
struct Eval {
  std::map<const N*, int> id; std::vector<const N*> order; std::vector<int> lab; Arr* arr; int next;
  explicit Eval(Arr& a) : arr(&a), next(2) {}
  void add(const Terms& t) { for (auto& x : t) add(x.n.get()); }
  void add(const N* n) { if (id.count(n)) return; add(n->t); add(n->u); id[n] = (int)order.size(); order.push_back(n); if (n->kind == 0) { lab.push_back(next); arr->poly(n->p, next++, 1); } else lab.push_back(-1); }
  std::vector<int> val; std::vector<std::vector<std::pair<int, int> > > ts, us;
  std::vector<std::pair<int, int> > flat(const Terms& t) { std::vector<std::pair<int, int> > v; for (auto& x : t) v.push_back(std::make_pair(id[x.n.get()], x.mult)); return v; }
  void seal() { for (auto* n : order) { ts.push_back(flat(n->t)); us.push_back(flat(n->u)); } val.resize(order.size()); }
  int sum(const std::vector<std::pair<int, int> >& v) const { int s = 0; for (auto& x : v) s += val[x.first] * x.second; return s; }
  void run(const int* w) { for (size_t i = 0; i < order.size(); ++i) { int s = sum(ts[i]); switch (order[i]->kind) { case 0: val[i] = w[lab[i]]; break; case 1: val[i] = s > 0; break; case 2: val[i] = boolOp(s > 0, sum(us[i]) > 0, order[i]->op); break; case 3: val[i] = s > 1; break; default: val[i] = s > 0 && (s & 1); } } }
};
struct Model {
  Terms t;
  void scanned() { for (auto& x : t) x.fresh = false; }
  Terms region() const { Terms r = t; for (auto& x : r) x.fresh = false; return r; }
  void put(const Poly& p) { Term x; x.n = leaf(p); x.mult = 1; x.fresh = true; t.push_back(x); }
  void addAll(const Model& o) { Terms u = o.t; t.insert(t.end(), u.begin(), u.end()); }
  void become(NP n) { Term x; x.n = n; x.mult = 1; x.fresh = false; t.assign(1, x); }
  void collapse(int kind) { Terms r = region(); become(node(kind, 0, r, Terms())); }
  void op(const Model& o, int k) { Terms a = region(), b = o.region(); become(node(2, k, a, b)); }
  template <class F> void map(F f) { std::map<const N*, NP> memo; std::function<NP(const NP&)> go = [&](const NP& n) -> NP { auto it = memo.find(n.get()); if (it != memo.end()) return it->second; N* m = new N(*n); if (m->kind == 0) mapPoly(m->p, f); for (auto& x : m->t) x.n = go(x.n); for (auto& x : m->u) x.n = go(x.n); NP r(m); memo[n.get()] = r; return r; }; for (auto& x : t) x.n = go(x.n); }
  void leaves(std::map<const N*, int>& s) const { std::function<void(const NP&)> go = [&](const NP& n) { if (s.count(n.get())) return; s[n.get()] = 1; for (auto& x : n->t) go(x.n); for (auto& x : n->u) go(x.n); }; for (auto& x : t) go(x.n); }
  std::vector<Poly> polys() const { std::map<const N*, int> s; leaves(s); std::vector<Poly> v; for (auto& x : s) if (x.first->kind == 0) v.push_back(x.first->p); return v; }
  i64 bound() const { i64 m = 0; for (auto& p : polys()) { auto f = [&](const Ring& r) { for (auto& q : r) m = std::max(m, std::max(std::llabs(q.x), std::llabs(q.y))); }; f(p.outer); for (auto& h : p.holes) f(h); } return m; }
};
static const char* OPN[4] = {"|", "&", "^", "-"};
#if PART == 0
template <class C> using SetT = bp::polygon_45_set_data<C>;
template <class C> using PlyT = bp::polygon_45_data<C>;
template <class C> using PlyH = bp::polygon_45_with_holes_data<C>;
template <class C> PlyT<C> mk(const Ring& r) { return to45<C>(r); }
template <class C> PlyH<C> mkh(const Poly& p) { return to45h<C>(p); }
template <class C> std::vector<Poly> observe(const SetT<C>& s, int how) { return observe45(s, how % 6); }
#else
template <class C> using SetT = bp::polygon_set_data<C>;
template <class C> using PlyT = bp::polygon_data<C>;
template <class C> using PlyH = bp::polygon_with_holes_data<C>;
template <class C> PlyT<C> mk(const Ring& r) { return toGen<C>(r); }
template <class C> PlyH<C> mkh(const Poly& p) { return toGenh<C>(p); }
template <class C> std::vector<Poly> observe(const SetT<C>& s, int how) { return observeG(s, how % 4); }
#endif
inline bool isRectP(const Poly& p) { return p.holes.empty() && p.outer.size() == 4 && ((p.outer[0].x == p.outer[1].x && p.outer[2].x == p.outer[3].x && p.outer[1].y == p.outer[2].y && p.outer[3].y == p.outer[0].y) || (p.outer[0].y == p.outer[1].y && p.outer[2].y == p.outer[3].y && p.outer[1].x == p.outer[2].x && p.outer[3].x == p.outer[0].x)); }
inline bool isManh(const Poly& p) { auto f = [](const Ring& r) { for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; if (a.x != b.x && a.y != b.y) return false; } return r.size() >= 4; }; if (!f(p.outer)) return false; for (auto& h : p.holes) if (!f(h)) return false; return true; }
template <class C> bp::rectangle_data<C> rectOf(const Poly& p) { i64 x0 = p.outer[0].x, x1 = x0, y0 = p.outer[0].y, y1 = y0; for (auto& q : p.outer) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); } return bp::rectangle_data<C>((C)x0, (C)y0, (C)x1, (C)y1); }
inline P actT(int m, P p) { i64 x = m & 1 ? -p.x : p.x, y = m & 2 ? -p.y : p.y; return m & 4 ? P(y, x) : P(x, y); }
template <class C> struct Slot { SetT<C> s; Model m; int cleans; ld unit; Slot() : cleans(0), unit(1) {} };

template <class C> void historyCase(Ctx& c, int maxSteps, bool exact, bool scaled = false) {
  Rng& r = c.rng; typedef SetT<C> S; typedef typename bp::coordinate_traits<C>::unsigned_area_type U;
  const i64 M = PART == 0 ? (sizeof(C) > 4 ? 1LL << 40 : 1LL << 29) : exact ? 1LL << 19 : 1LL << 28, M0 = PART == 1 && exact ? M / 4 : M;
  Scene45 sc = genScene45(r, false, -M0 / 2, M0 / 2); SceneG sg = genSceneG(r, M / 2);
  if (!exact && sg.s < 200) sg = genSceneG(r, M / 2);
  if ((sc.ox ^ sc.oy) & 1) ++sc.oy; // even diagonals stay even under every step below, so that they always cross on integer points
  const i64 mul = PART == 1 && exact ? 4 : 1; // the general engine snaps features of one unit; keep them larger
  auto poly = [&](bool holes) { Poly p = exact ? genPoly45(r, sc, holes && r.chance(2, 3)) : genPolyG(r, sg, holes && r.chance(1, 2)); mapPoly(p, [&](P q) { return P(q.x * mul, q.y * mul); }); scramble(r, p); return p; };
  std::vector<Slot<C> > sl(2); std::string& d = c.desc; d = exact ? "exact" : "snap"; int steps = scaled ? 2 + r.below(3) : 3 + r.below(maxSteps); Hash h; bool any = false; int mutated = 0;
  auto judge = [&](Slot<C>& a, const std::vector<Poly>& out, const char* key) -> bool {
    Arr arr; arrOut(arr, out, 1); Eval e(arr); e.add(a.m.t); e.seal(); auto top = e.flat(a.m.t); arr.nlab = std::max(2, e.next); arr.finish();
    std::vector<Poly> edges; if (!exact) edges = a.m.polys(); ld tol = (3.0L + a.cleans) * a.unit; bool pos = false;
    bool ok = sameArr(c, arr, [&](const int* w) { e.run(w); int s = e.sum(top); if (s > 0) pos = true; return (int)(s > 0); }, [&](const Arr::Cell& q, int, int g) { if (exact || (g != 0 && g != 1)) return false; if (cellReach(q, edges) <= tol) { c.count("snapping differences excused"); return true; } return false; }, key, [&]() { return " output=" + strv(out); });
    if (pos) any = true;
    return ok; };
  auto truth = [&](Model& m, ld& area, i64 ext[4]) { // region area and extents of the model
    Arr arr; Eval e(arr); e.add(m.t); e.seal(); auto top = e.flat(m.t); arr.nlab = std::max(2, e.next); arr.finish(); area = 0; ld x[4]; bool f = true;
    arr.sweep([&](const Arr::Cell& q) { e.run(q.w); if (e.sum(top) <= 0) return; area += q.area(); ld v[4] = {q.x0, std::min(q.l0, q.l1), q.x1, std::max(q.h0, q.h1)}; if (f) for (int i = 0; i < 4; ++i) x[i] = v[i]; else { x[0] = std::min(x[0], v[0]); x[1] = std::min(x[1], v[1]); x[2] = std::max(x[2], v[2]); x[3] = std::max(x[3], v[3]); } f = false; });
    if (!f) for (int i = 0; i < 4; ++i) ext[i] = (i64)llroundl(x[i]);
    return !f; };
  for (int st = 0; st < steps; ++st) {
    Slot<C>& a = sl[scaled ? 0 : r.below(2)]; Slot<C>& b = &a == &sl[0] ? sl[1] : sl[0]; std::string who = &a == &sl[0] ? "0" : "1";
    auto log = [&](const std::string& t) { d += "; s" + who + "." + t; };
    int op = scaled ? (st + 1 == steps ? 34 : 0) : r.below(exact || PART == 0 ? 34 : 36); h.add(op); ++mutated;
    { std::map<const N*, int> n; a.m.leaves(n); b.m.leaves(n); if (n.size() > 24 || a.m.t.size() > 16) { log("clear"); a.s.clear(); a.m = Model(); a.cleans = 0; a.unit = 1; continue; } }
    auto scanBoth = [&]() { a.m.scanned(); b.m.scanned(); a.cleans = std::max(a.cleans, b.cleans) + 1; a.unit = std::max(a.unit, b.unit); };
    switch (op) {
      case 0: case 1: case 2: case 3: { Poly p = poly(true); int form = r.below(5); log("insert(" + str(p) + ",form" + std::to_string(form) + ")");
        { Model t; t.put(p); if (sizeof(C) > 4 && form < 3 && t.bound() > (1LL << 29)) form = 3; }
        if (isRectP(p) && form < 2) a.s.insert(rectOf<C>(p)); else if (isManh(p) && form < 3) { if (p.holes.empty()) a.s.insert(to90<C>(p.outer)); else a.s.insert(to90h<C>(p)); } else if (p.holes.empty() && form < 4) a.s.insert(mk<C>(p.outer)); else if (p.holes.empty()) { auto v = toPts<C>(p.outer); a.s.insert_vertex_sequence(v.begin(), v.end(), area2(p.outer) > 0 ? bp::COUNTERCLOCKWISE : bp::CLOCKWISE, false); } else a.s.insert(mkh<C>(p));
        a.m.put(p); break; }
      case 4: case 5: case 6: { // take away something inserted before
        std::vector<size_t> k; for (size_t i = 0; i < a.m.t.size(); ++i) if (a.m.t[i].fresh && a.m.t[i].mult == 1 && a.m.t[i].n->kind == 0) k.push_back(i);
        if (k.empty()) break; size_t i = k[r.below((int)k.size())]; Poly p = a.m.t[i].n->p; scramble(r, p); log("insert(-" + str(p) + ")"); int form = r.below(8); { Model t; t.put(p); if (sizeof(C) > 4 && form > 2 && t.bound() > (1LL << 29)) form = r.below(3); if (PART == 1 && !exact && form == 3) form = 0; } d += ",form" + std::to_string(form);
        if (form == 0 && p.holes.empty()) a.s.insert(mk<C>(p.outer), true); else if (form == 1) { std::vector<PlyH<C> > v(1, mkh<C>(p)); a.s.insert(v.begin(), v.end(), true); } else if (form == 2) { S t; t.insert(mkh<C>(p)); if (r.chance(1, 2)) a.s.insert(t, true); else a.s.insert(t.begin(), t.end(), true); }
        else if (form == 3) { bp::polygon_45_set_data<C> t; t.insert(to45h<C>(p)); a.s.insert(t, true); } else if (form == 4 && isManh(p)) { bp::polygon_90_set_data<C> t(r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL); t.insert(to90h<C>(p)); a.s.insert(t, true); } else if (form == 5 && isRectP(p)) a.s.insert(rectOf<C>(p), true); else if (form >= 5 && isManh(p)) a.s.insert(to90h<C>(p), true); else a.s.insert(mkh<C>(p), true);
        a.m.t.erase(a.m.t.begin() + i); break; }
      case 7: { log("insert(other)"); a.s.insert(b.s); a.m.addAll(b.m); a.cleans = std::max(a.cleans, b.cleans); a.unit = std::max(a.unit, b.unit); break; }
      case 8: { log("insert(range of other)"); a.s.insert(b.s.begin(), b.s.end()); a.m.addAll(b.m); a.cleans = std::max(a.cleans, b.cleans); a.unit = std::max(a.unit, b.unit); break; }
      case 9: { log("insert(self)"); S& ref = a.s; a.s.insert(ref); Model o = a.m; a.m.addAll(o); break; }
      case 10: { log("clear"); if (r.chance(1, 2)) a.s.clear(); else bp::clear(a.s); a.m = Model(); a.cleans = 0; a.unit = 1; break; }
      case 11: { log("= other"); if (r.chance(1, 2)) a.s = b.s; else { S t(b.s); a.s = t; } a.m = b.m; a.cleans = b.cleans; a.unit = b.unit; break; }
      case 12: { log("swap"); std::swap(a.s, b.s); std::swap(a.m, b.m); std::swap(a.cleans, b.cleans); std::swap(a.unit, b.unit); break; }
      case 13: { Poly p = poly(true); log("= " + str(p)); if (isRectP(p) && r.chance(1, 2)) a.s = rectOf<C>(p); else a.s = mkh<C>(p); a.m = Model(); a.m.put(p); a.cleans = 0; a.unit = 1; break; }
      case 14: { log("set(range of other)"); a.s.set(b.s.begin(), b.s.end()); a.m = b.m; a.cleans = b.cleans; a.unit = b.unit; break; }
      case 15: { log("set(value of other)"); typename S::value_type v(b.s.value()); a.s.set(v); a.m = b.m; a.cleans = b.cleans; a.unit = b.unit; break; }
      case 16: case 17: case 18: case 19: { int k = op - 16; log(std::string("op") + OPN[k] + "= other");
        if (k == 0) { if (r.chance(1, 2)) a.s |= b.s; else a.s += b.s; } else if (k == 1) { if (r.chance(1, 2)) a.s &= b.s; else a.s *= b.s; } else if (k == 2) a.s ^= b.s; else a.s -= b.s;
        scanBoth(); a.m.op(b.m, k); break; }
      case 20: { Poly p = poly(true); int k = r.below(4); log(std::string("op") + OPN[k] + "= " + str(p)); PlyH<C> q = mkh<C>(p); if (k == 0) a.s |= q; else if (k == 1) a.s &= q; else if (k == 2) a.s ^= q; else a.s -= q; Model o; o.put(p); a.m.scanned(); a.cleans++; a.m.op(o, k); break; }
      case 21: { int k = r.below(4), k2 = r.below(4); Poly p = poly(true); log(std::string("= (self") + OPN[k] + "other)" + OPN[k2] + str(p)); std::vector<PlyH<C> > v(1, mkh<C>(p)); S t;
#define V27_B(x, K, y, z) { if (K == 0) z = (x) | (y); else if (K == 1) z = (x) & (y); else if (K == 2) z = (x) ^ (y); else z = (x) - (y); }
        switch (k) { case 0: V27_B(a.s | b.s, k2, v, t) break; case 1: V27_B(a.s & b.s, k2, v, t) break; case 2: V27_B(a.s ^ b.s, k2, v, t) break; default: V27_B(a.s - b.s, k2, v, t) }
        a.s = t; scanBoth(); a.cleans++; a.m.op(b.m, k); Model o; o.put(p); a.m.op(o, k2); break; }
      case 22: { int k = r.below(4); log(std::string("op") + OPN[k] + "= self"); S& ref = a.s; if (k == 0) a.s |= ref; else if (k == 1) a.s &= ref; else if (k == 2) a.s ^= ref; else a.s -= ref; a.m.scanned(); a.cleans++; Model o = a.m; a.m.op(o, k); break; }
      case 23: case 24: { int m = r.below(8); i64 tx = r.range(-40, 40), ty = r.range(-40, 40); if ((tx ^ ty) & 1) ++ty; bool tr2 = r.chance(1, 2); if (exact) { tx = tx / 2 * 2 * mul; ty = ty / 2 * 2 * mul; } log("transform " + std::to_string(m) + (tr2 ? " from " + std::to_string(tx) + "," + std::to_string(ty) : ""));
        bp::axis_transformation at((bp::axis_transformation::ATR)m); bp::transformation<C> T(at, bp::point_data<C>((C)tx, (C)ty)); if (!tr2) { if (r.chance(1, 2)) a.s.transform(at); else bp::transform(a.s, at); } else if (r.chance(1, 2)) a.s.transform(T); else bp::transform(a.s, T);
        a.m.scanned(); a.cleans++; a.m.map([&](P p) { return tr2 ? actT(m, P(p.x - tx, p.y - ty)) : actT(m, p); }); break; }
      case 25: { i64 f = 1 + r.below(4); if (a.m.bound() * f > M) break; log("scale_up " + std::to_string(f)); if (r.chance(1, 2)) a.s.scale_up((U)f); else { bp::scale_up(a.s, (U)f); a.m.scanned(); } a.m.map([&](P p) { return P(p.x * f, p.y * f); }); a.unit *= f; if (!exact) a.cleans++; break; }
      case 26: { i64 f = 1 + r.below(4); if (a.m.bound() * f > M) break; int mid = r.below(3); log("scale_up/down " + std::to_string(f) + " mid" + std::to_string(mid)); bp::scale_up(a.s, (U)f); if (mid == 1) a.s.clean(); else if (mid == 2) (void)observe<C>(a.s, 0); if (r.chance(1, 2)) a.s.scale_down((U)f); else bp::scale_down(a.s, (U)f); a.m.scanned(); a.cleans += 2; break; }
      case 27: { i64 f = 1 + r.below(3), g = f; if (a.m.bound() * 3 > M) break;
#if PART == 0
        log("scale " + std::to_string(f)); if (r.chance(1, 2)) a.s.scale((double)f); else bp::scale(a.s, (double)f);
#else
        if (!exact) g = 1 + r.below(3); log("scale " + std::to_string(f) + "," + std::to_string(g)); a.s.scale(bp::anisotropic_scale_factor<double>((double)f, (double)g));
#endif
        a.m.scanned(); a.cleans++; a.unit *= std::max(f, g); a.m.map([&](P p) { return P(p.x * f, p.y * g); }); break; }
#if PART == 1
      case 34: case 35: { i64 bd = a.m.bound(), f = r.chance(1, 2) ? std::max<i64>(2, bd / r.range(20, 300)) : 2 + r.below(9); if (bd < 4 * f) break; log("scale_down " + std::to_string(f)); bool asScale = r.chance(1, 3); if (asScale) a.s.scale(bp::anisotropic_scale_factor<double>(1.0 / (double)f, 1.0 / (double)f)); else if (r.chance(1, 2)) a.s.scale_down((U)f); else bp::scale_down(a.s, (U)f);
        a.m.scanned(); a.cleans += 2; a.unit = std::max<ld>(1, a.unit / f + 1); a.m.map([&](P p) { return P((i64)floorl((ld)p.x / f + 0.5L), (i64)floorl((ld)p.y / f + 0.5L)); }); c.count("rounding scales"); break; }
#endif
      case 28: { log("clean"); a.s.clean(); a.m.scanned(); a.cleans++; break; }
      case 29: { log("sort"); a.s.sort(); break; }
#if PART == 0
      case 30: { bool f = true; for (auto& x : a.m.t) f = f && x.fresh; if (!f) break; if (r.chance(1, 2)) { log("self_intersect"); a.s.self_intersect(); a.m.collapse(3); } else { log("self_xor"); a.s.self_xor(); a.m.collapse(4); } break; }
      case 31: { log("= other through another coordinate type"); bp::polygon_45_set_data<long long> t; t.insert(b.s); if (r.chance(1, 2)) t.clean(), b.m.scanned(); S u; u.insert(t); a.s = u; a.m = b.m; a.m.scanned(); break; }
#else
      case 30: case 31: { if (!exact) break; Poly p = poly(true), p2 = poly(true); log("insert(45 set of " + str(p) + "," + str(p2) + ")"); bp::polygon_45_set_data<C> t; t.insert(to45h<C>(p)); t.insert(to45h<C>(p2)); a.s.insert(t); a.m.put(p); a.m.put(p2); a.m.scanned(); break; }
#endif
      case 32: { log("round trip"); std::vector<PlyH<C> > v; a.s.get(v); if (r.chance(1, 2)) bp::assign(a.s, v); else { S t; t.insert(v.begin(), v.end()); a.s = t; } a.m.scanned(); a.cleans += 2; break; }
      default: { // a Manhattan set joins in
        i64 x = 2 * (sc.ox / 2), y = 2 * (sc.oy / 2); bp::polygon_90_set_data<C> t(r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL); int n = 1 + r.below(2); std::string txt; std::vector<Poly> q; while (n--) { Poly p; i64 k = std::max<i64>(2, sc.k); i64 i = r.below(sc.n), j = r.below(sc.n), w = 1 + r.below(3), hh = 1 + r.below(3); if ((std::llabs(x) + (i + w) * k) * mul > M || (std::llabs(y) + (j + hh) * k) * mul > M) continue; p.outer = rectRing((x + i * k) * mul, (y + j * k) * mul, (x + (i + w) * k) * mul, (y + (j + hh) * k) * mul); q.push_back(p); txt += str(p); t.insert(rectOf<C>(p)); }
        if (exact && ((sc.ox | sc.oy) & 1)) break; log("insert(90 set of " + txt + ")"); a.s.insert(t); for (auto& p : q) a.m.put(p); a.m.scanned(); break; }
    }
    for (int q = scaled ? 0 : r.below(3); q > 0; --q) {
      int ob = r.below(8); d += " ?" + std::to_string(ob); c.count("observations");
      switch (ob) {
        case 0: case 1: case 2: { int how = r.below(6); a.m.scanned(); if (!judge(a, observe<C>(a.s, how), "get")) return; break; }
        case 3: { if (!exact) break; ld ar; i64 e[4]; bool ne = truth(a.m, ar, e); bool em = r.chance(1, 2) ? a.s.empty() : bp::empty(a.s); a.m.scanned(); if (!c.check(em == !ne, "empty", std::string("empty() says ") + (em ? "true" : "false") + " for a set that is " + (ne ? "not empty" : "empty"))) return; break; }
        case 4: { if (!exact || a.m.bound() > (1LL << 29)) break; ld ar; i64 e[4]; truth(a.m, ar, e); ld got = (ld)bp::area(a.s); a.m.scanned(); if (!c.check(fabsl(ar - got) <= 1e-9L * (1 + ar), "area", "expected " + sld(ar) + " got " + sld(got))) return; break; }
        case 5: { if (!exact) break; ld ar; i64 e[4]; bool ne = truth(a.m, ar, e); bp::rectangle_data<C> b2((C)-7, (C)3, (C)11, (C)5); bool got = r.chance(1, 2) ? a.s.extents(b2) : bp::extents(b2, a.s); a.m.scanned(); if (!c.check(got == ne, "extents-return")) return; if (ne && !c.check(bp::xl(b2) == e[0] && bp::yl(b2) == e[1] && bp::xh(b2) == e[2] && bp::yh(b2) == e[3], "extents", "got " + str(fromRect(b2)))) return; break; }
        case 6: { if (!exact) break; S t; std::vector<Poly> v = observe<C>(a.s, r.below(4)); a.m.scanned(); for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below((int)k)]); for (auto& p : v) { if (p.holes.empty() && r.chance(1, 2)) t.insert(mk<C>(p.outer)); else t.insert(mkh<C>(p)); } if (!v.empty() && r.chance(1, 3)) t.insert(mkh<C>(v[0]));
          bool eq = r.chance(1, 2) ? a.s == t : t == a.s; if (!c.check(eq, "equal", "set differs from the same region rebuilt from its polygons")) return; c.check((a.s != t) == !eq, "not-equal"); c.check(bp::equivalence(a.s, t), "equivalence");
          Poly p = poly(false); if (exact) { S u = t ^ mk<C>(p.outer); if (!c.check(!(a.s == u) && a.s != u, "unequal", "sets of different regions compare equal after xor with " + str(p))) return; }
          break; }
        default: { std::vector<PlyT<C> > v; int how = r.below(3); if (how == 0) a.s.get_trapezoids(v); else if (how == 1) bp::get_trapezoids(v, a.s, r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL); else a.s.get_trapezoids(v, bp::HORIZONTAL); a.m.scanned(); if (!exact) break; std::vector<Poly> o = fromSs(v); for (auto& p : o) if (area2(p.outer) < 0) std::reverse(p.outer.begin(), p.outer.end()); if (!judge(a, o, "trapezoids")) return; break; }
      }
    }
  }
  for (int k = 0; k < 2; ++k) { if (!judge(sl[k], observe<C>(sl[k].s, r.below(6)), "final")) return; sl[k].m.scanned(); }
  c.count("mutations", mutated); if (any) { std::vector<Poly> in = sl[0].m.polys(), in2 = sl[1].m.polys(); in.insert(in.end(), in2.begin(), in2.end()); c.nontrivial(hashPolys(in, h)); }
}
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"history45-int", [](Ctx& c) { historyCase<int>(c, 10, true); }, 16000, 600000});
  f.push_back({"history45-i64", [](Ctx& c) { historyCase<long long>(c, 24, true); }, 5000, 200000});
#else
  f.push_back({"historyG-exact", [](Ctx& c) { historyCase<int>(c, 10, true); }, 10000, 300000});
  f.push_back({"historyG-snap", [](Ctx& c) { historyCase<int>(c, 8, false); }, 8000, 300000});
  f.push_back({"scale-round", [](Ctx& c) { historyCase<int>(c, 8, false, true); }, 12000, 500000});
#endif
  return f;
}
}
VF_MAIN()
