// P23: symmetries, translations and exact upscalings of the plane commute with the set operations,
// and the set-level transform/scale/move operations are those maps.
#include "sceneg.hpp"
namespace vf {
using namespace boost::polygon::operators;
typedef bp::axis_transformation AT;
static P act(int a, P v) { switch (a) { case 0: return v; case 1: return P(-v.x, v.y); case 2: return P(v.x, -v.y); case 3: return P(-v.x, -v.y); case 4: return P(v.y, v.x); case 5: return P(v.y, -v.x); case 6: return P(-v.y, v.x); default: return P(-v.y, -v.x); } }
static AT at(int a) { static const AT::ATR t[8] = {AT::NULL_TRANSFORM, AT::FLIP_X, AT::FLIP_Y, AT::FLIP_XY, AT::SWAP_XY, AT::ROTATE_LEFT, AT::ROTATE_RIGHT, AT::FLIP_SWAP_XY}; return AT(t[a]); }
struct F { int m; i64 s, tx, ty; F() : m(0), s(1), tx(0), ty(0) {}
  P operator()(P v) const { P q = act(m, v); return P(q.x * s + tx, q.y * s + ty); }
  bool mirror() const { P a = act(m, P(1, 0)), b = act(m, P(0, 1)); return a.x * b.y - a.y * b.x < 0; }
  bool swap() const { return m >= 4; }
  int dir(int d) const { static const int dx[4] = {-1, 1, 0, 0}, dy[4] = {0, 0, -1, 1}; P q = act(m, P(dx[d], dy[d])); for (int k = 0; k < 4; ++k) if (dx[k] == q.x && dy[k] == q.y) return k; return -1; }
  Ring ring(const Ring& r) const { Ring q; for (auto& p : r) q.push_back((*this)(p)); if (mirror()) reverseRing(q); return q; }
  Poly poly(const Poly& p) const { Poly q; q.outer = ring(p.outer); for (auto& h : p.holes) q.holes.push_back(ring(h)); return q; }
  std::vector<Poly> polys(const std::vector<Poly>& v) const { std::vector<Poly> o; for (auto& p : v) o.push_back(poly(p)); return o; }
  Items items(const Items& v) const { Items o; for (auto& i : v) { Item j = i; j.p = poly(i.p); o.push_back(j); } return o; }
  std::string s_() const { return "map(m=" + std::to_string(m) + " s=" + std::to_string(s) + " t=" + std::to_string(tx) + "," + std::to_string(ty) + ")"; } };
static F genMap(Rng& r, i64 bound, i64 room, bool scale) { // |coordinates| <= bound before, <= room after
  F f; f.m = r.below(8);
  if (scale && r.chance(1, 2) && bound > 0) { i64 mx = std::min<i64>(room / bound, r.chance(1, 2) ? 5 : 1000000); if (mx > 1) f.s = r.range(1, mx); }
  i64 left = room - bound * f.s; if (left > 0 && r.chance(2, 3)) { if (r.chance(1, 2)) left = std::min<i64>(left, 40); f.tx = r.range(-left, left); f.ty = r.range(-left, left); }
  return f;
}
static i64 bound(const Items& a, i64 b = 0) { for (auto& i : a) { for (auto& p : i.p.outer) b = std::max(b, (i64)std::max(std::llabs(p.x), std::llabs(p.y))); for (auto& h : i.p.holes) for (auto& p : h) b = std::max(b, (i64)std::max(std::llabs(p.x), std::llabs(p.y))); } return b; }
typedef std::vector<std::pair<std::string, std::vector<Poly> > > Layers;
// orientation/order changes that must not matter: both runs draw their own
struct Opt { int op, how, ori, ori2, order; i64 d[4]; i64 lim[6]; };
static Items shuffled(Rng& r, Items v, bool on) { if (on) for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); return v; }
static std::string graphStr(const std::vector<std::set<int> >& g) { std::string s; for (size_t i = 0; i < g.size(); ++i) for (int j : g[i]) s += std::to_string(i) + "-" + std::to_string(j) + ","; return s; }
template <class V> std::string keyOf(const V& k) { std::string s; for (auto& x : k) s += std::to_string(x) + ","; return s; }

#if PART == 0
static const char* ON[] = {"or", "and", "xor", "sub", "self_xor", "self_intersect", "bloat", "shrink", "interact", "keep", "grow_and", "rects", "maxrects", "merge", "connect", "resize-neg"};
template <class C> Layers run90(Rng& r, const Items& A, const Items& B, const Opt& o, int ori) {
  typedef bp::polygon_90_set_data<C> S; typedef typename bp::coordinate_traits<C>::unsigned_area_type U; Layers L;
  S a(r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL), b(r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL); for (auto& i : A) insertItem(a, i); for (auto& i : B) insertItem(b, i);
  if (o.op == 8 || o.op == 14) { b = S(a.orient()); for (auto& i : B) insertItem(b, i); }
  auto put = [&](const S& s, const std::string& n = "") { L.push_back(std::make_pair(n, observe90(s, r.below(5)))); };
  switch (o.op) {
    case 0: put(S(a + b)); break; case 1: put(S(a * b)); break; case 2: put(S(a ^ b)); break; case 3: put(S(a - b)); break;
    case 4: a.self_xor(); put(a); break; case 5: a.self_intersect(); put(a); break;
    case 6: a.bloat((U)o.d[0], (U)o.d[1], (U)o.d[2], (U)o.d[3]); put(a); break;
    case 7: a.shrink((U)o.d[0], (U)o.d[1], (U)o.d[2], (U)o.d[3]); put(a); break;
    case 8: a.interact(b); put(a); break;
    case 9: bp::keep(a, (U)o.lim[0], (U)o.lim[1], (U)o.lim[2], (U)o.lim[3], (U)o.lim[4], (U)o.lim[5]); put(a); break;
    case 10: bp::grow_and(a, (U)o.d[0], (U)o.d[1], (U)o.d[2], (U)o.d[3]); put(a); break;
    case 11: { std::vector<bp::rectangle_data<C> > v; bp::get_rectangles(v, a, ori ? bp::VERTICAL : bp::HORIZONTAL); L.push_back(std::make_pair("", fromRects(v))); break; }
    case 12: { std::vector<bp::rectangle_data<C> > v; bp::get_max_rectangles(v, a); L.push_back(std::make_pair("", fromRects(v))); break; }
    case 13: { bp::property_merge_90<C, int> m; m.insert(a, 0); m.insert(b, 1); S x(a * b); m.insert(A.empty() ? x : S(x), 2); if (!A.empty()) { S one; insertItem(one, A[0]); m.insert(one, 3); } std::map<std::set<int>, S> res; m.merge(res); for (auto& e : res) put(e.second, keyOf(e.first)); break; }
    case 14: { bp::connectivity_extraction_90<C> ce; std::vector<std::set<int> > g; int n = 0; bp::orientation_2d q = ori ? bp::VERTICAL : bp::HORIZONTAL; for (auto& i : A) { S s(q); insertItem(s, i); ce.insert(s); ++n; } for (auto& i : B) { S s(q); insertItem(s, i); ce.insert(s); ++n; } g.resize(n); ce.extract(g); L.push_back(std::make_pair(graphStr(g), std::vector<Poly>())); break; }
    default: a.resize((C)o.d[0], (C)o.d[1], (C)-o.d[2], (C)-o.d[3]); put(a); break;
  }
  return L;
}
static std::multiset<std::vector<i64> > rectSet(const std::vector<Poly>& v) { std::multiset<std::vector<i64> > s; for (auto& p : v) { i64 a = p.outer[0].x, b = a, c = p.outer[0].y, d = c; for (auto& q : p.outer) { a = std::min(a, q.x); b = std::max(b, q.x); c = std::min(c, q.y); d = std::max(d, q.y); } s.insert(std::vector<i64>{a, c, b, d}); } return s; }
template <class C> void eq90(Ctx& c) {
  Rng& r = c.rng; i64 M = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max() / 2;
  Range q = pickRange(r, -M, M, false); if (q.hi > M / 2) q = Range{M / 2 - 30, M / 2, "highhalf"}; if (q.lo < -M / 2) q = Range{-M / 2, -M / 2 + 30, "low"};
  Scene sc = genScene(r, q, r.chance(1, 8) ? 14 : 9); Items A = genItems(r, sc, 5, true, r.chance(1, 4), r.chance(1, 6)), B = genItems(r, sc, 4, true, false, false);
  Opt o; o.op = r.below(16); if (o.op == 4 || o.op == 5) { for (auto& i : A) i.hole = false; } // multiplicities
  for (int i = 0; i < 4; ++i) o.d[i] = r.chance(1, 5) ? 0 : r.range(1, 6); if (r.chance(1, 2)) for (int i = 0; i < 4; ++i) if (sc.xs.size() > 1) o.d[i] = std::min<i64>(1000, (sc.xs[1] - sc.xs[0]) * (1 + r.below(2)) / 2 + r.below(2));
  if (o.op == 15) { o.d[0] = o.d[1]; o.d[2] = o.d[3]; }
  i64 w = sc.xs.back() - sc.xs.front(), h = sc.ys.back() - sc.ys.front(); o.lim[0] = r.below(3) ? 0 : w * h / (2 + r.below(9)); o.lim[1] = w * h * 3; o.lim[2] = r.below(2) ? 0 : w / (1 + r.below(5)); o.lim[3] = r.below(2) ? w + 1 : w / (1 + r.below(3)) + 1; o.lim[4] = r.below(2) ? 0 : h / (1 + r.below(5)); o.lim[5] = r.below(2) ? h + 1 : h / (1 + r.below(3)) + 1;
  F f = genMap(r, bound(A, bound(B)), M - 2000, o.op != 9); if (f.s > 1 && (o.op == 6 || o.op == 7 || o.op == 10 || o.op == 15)) f.s = std::min<i64>(f.s, 1000);
  c.desc = std::string(ON[o.op]) + " " + f.s_() + " d=" + std::to_string(o.d[0]) + "," + std::to_string(o.d[1]) + "," + std::to_string(o.d[2]) + "," + std::to_string(o.d[3]) + " A=" + strv(A) + " B=" + strv(B);
  Opt o2 = o; for (int i = 0; i < 4; ++i) o2.d[f.dir(i)] = o.d[i] * f.s;
  if (o.op == 15) { // west/east grow, south/north shrink: axes swap with the map
    if (f.swap()) { c.count("swapped signs skipped"); f.m &= 3; o2 = o; for (int i = 0; i < 4; ++i) o2.d[f.dir(i)] = o.d[i] * f.s; } }
  if (o.op == 9 && f.swap()) { std::swap(o2.lim[2], o2.lim[4]); std::swap(o2.lim[3], o2.lim[5]); }
  int ori = r.below(2); Items A2 = f.items(A), B2 = f.items(B); bool sh = o.op != 14 && r.chance(1, 2); Items A3 = shuffled(r, A2, sh && o.op != 13), B3 = shuffled(r, B2, sh);
  Layers x = run90<C>(r, A, B, o, ori), y = run90<C>(r, A3, B3, o2, f.swap() ? !ori : ori);
  std::string key = ON[o.op];
  if (o.op == 13) for (auto L : {&x, &y}) { Layers n; for (auto& e : *L) if (!e.second.empty()) n.push_back(e); *L = n; }
  if (!c.check(x.size() == y.size(), key + ":layers", "different label sets")) return;
  bool nt = false;
  for (size_t i = 0; i < x.size(); ++i) {
    if (x[i].first != y[i].first) { c.fail(key + ":labels", "'" + x[i].first + "' became '" + y[i].first + "'"); return; }
    if (!x[i].first.empty()) c.count("labels compared");
    std::vector<Poly> e = f.polys(x[i].second); nt = nt || !e.empty();
    Grid g; g.addc(e); g.addc(y[i].second); g.seal(); W w1, w2; std::string why; if (!rasterOut(g, w1, e, why) || !rasterOut(g, w2, y[i].second, why)) { c.fail(key + ":shape", why); return; }
    c.count("regions compared"); if (w1 != w2) { c.fail(key + ":region", "mapped result " + strv(e) + " differs from result of mapped input " + strv(y[i].second)); return; }
    if (o.op == 11 || o.op == 12) { c.count("rectangle lists compared"); if (rectSet(e) != rectSet(y[i].second)) { c.fail(key + ":pieces", "mapped pieces " + strv(e) + " differ from pieces of mapped input " + strv(y[i].second)); return; } }
  }
  if (nt || o.op == 14) { Hash hh; hh.add(o.op); hh.add(f.m); hh.add((u64)f.s); hh.add((u64)f.tx); auto pa = polysOf(A), pb = polysOf(B); pa.insert(pa.end(), pb.begin(), pb.end()); c.nontrivial(hashPolys(pa, hh)); }
}
// set-level maps, judged against the exact map of the point set
static i64 rnd(long double v) { return (i64)floorl(v + 0.5L); }
template <class C> void map90(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; i64 M = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max() / 2;
  Range q = pickRange(r, -M, M, false); Scene sc = genScene(r, q, 9); Items A = genItems(r, sc, 5, true, r.chance(1, 4), false); int cont = r.below(4), what = r.below(6); bool cl = r.chance(1, 3);
  if (what == 0 && bound(A) > 1000000) what = 1;
  F f; f.m = r.below(8); AT t = at(f.m); i64 fac = what == 0 ? r.range(1, 1000) : r.range(1, r.chance(1, 2) ? 4 : 5000); double df = r.chance(1, 2) ? (double)fac / 4 : r.unit() * 2; if (bound(A) > 1000000 && df > 1) df = 1 / df; if (df == 0) df = .5;
  for (auto v : {&sc.xs, &sc.ys}) for (i64 x : *v) { long double z = (long double)x * df; if (fabsl(z - floorl(z) - 0.5L) < 1e-6L && df * 1024 != floor(df * 1024)) df = 0.75; } // which way a near tie rounds is not specified
  double dy = r.chance(1, 2) ? df : (r.chance(1, 2) ? 1.0 : 0.5); i64 tx = r.range(-1000, 1000), ty = r.range(-1000, 1000);
  static const char* WN[] = {"scale_up", "scale_down", "scale", "transform", "move", "anisotropic"};
  c.desc = std::string(WN[what]) + " cont=" + std::to_string(cont) + (cl ? " cleaned" : "") + " m=" + std::to_string(f.m) + " fac=" + std::to_string(fac) + " df=" + std::to_string(df) + "," + std::to_string(dy) + " t=" + std::to_string(tx) + "," + std::to_string(ty) + " A=" + strv(A);
  if (cont == 2 && what == 3) what = 4;
  bool tr2 = what == 3 && r.chance(1, 2); bp::point_data<C> org((C)tx, (C)ty); bp::transformation<C> T2(org); { bp::transformation<C> q2(t, org); T2 = q2; }
  auto mp = [&](P p) -> P { switch (what) { case 0: return P(p.x * fac, p.y * fac); case 1: return P(rnd((long double)((double)p.x / (double)fac)), rnd((long double)((double)p.y / (double)fac))); case 2: return P(rnd((long double)((double)p.x * df)), rnd((long double)((double)p.y * df)));
    case 3: return tr2 ? act(f.m, P(p.x - tx, p.y - ty)) : act(f.m, p); case 4: return P(p.x + tx, p.y + ty); default: return P(rnd((long double)((double)p.x * df)), rnd((long double)((double)p.y * dy))); } };
  std::vector<Poly> out; auto pa = polysOf(A);
  bp::anisotropic_scale_factor<double> an(df, dy);
  auto all = [&](auto& X) { switch (what) { case 0: bp::scale_up(X, (typename bp::coordinate_traits<C>::unsigned_area_type)fac); break; case 1: bp::scale_down(X, (typename bp::coordinate_traits<C>::unsigned_area_type)fac); break; case 2: bp::scale(X, df); break;
    case 3: if (tr2) bp::transform(X, T2); else bp::transform(X, t); break; case 4: bp::move(X, (C)tx, (C)ty); break; default: bp::scale(X, an); break; } };
  auto mem = [&](S& X) { switch (what) { case 0: X.scale_up((typename bp::coordinate_traits<C>::unsigned_area_type)fac); break; case 1: X.scale_down((typename bp::coordinate_traits<C>::unsigned_area_type)fac); break; case 2: X.scale(df); break;
    case 3: if (tr2) X.transform(T2); else X.transform(t); break; case 4: X.move((C)tx, (C)ty); break; default: if (fac & 1) X.scale(an); else X.scale_with(an); break; } };
  S a(r.chance(1, 2) ? bp::HORIZONTAL : bp::VERTICAL); for (auto& i : A) insertItem(a, i); if (cl) a.clean();
  std::vector<Poly> base; W m0; Grid g0; addc(g0, A); g0.seal(); m0 = positive(rasterItems(g0, A));
  // containers and cleaned sets map the region; an unclean set maps its cover counts; both give the image of the point set for monotone maps
  bool counts = cont == 0 && !cl && (what == 1 || what == 2 || what == 5); (void)counts;
  if (cont == 0) { if (r.chance(1, 2)) mem(a); else if (what == 5) mem(a); else all(a); out = observe90(a, r.below(5)); }
  else if (cont == 1) { std::vector<bp::polygon_90_with_holes_data<C> > v; a.get(v); all(v); S z; bp::assign(z, v); out = observe90(z, r.below(5)); }
  else if (cont == 2) { std::vector<bp::rectangle_data<C> > v; a.get(v); all(v); S z; bp::assign(z, v); out = observe90(z, r.below(5)); }
  else { std::vector<bp::polygon_90_data<C> > v; a.get(v); all(v); S z; bp::assign(z, v); out = observe90(z, r.below(5)); }
  // expected: union of the mapped covered cells
  Grid g; for (size_t i = 0; i < g0.nx + (g0.nx ? 1 : 0); ++i) for (size_t j = 0; j < g0.ny + 1; ++j) { P p = mp(P(g0.xs[i], g0.ys[j])); g.xs.push_back(p.x); g.ys.push_back(p.y); }
  g.seal(); W want(g.nx * g.ny, 0);
  for (size_t i = 0; i < g0.nx; ++i) for (size_t j = 0; j < g0.ny; ++j) if (m0[i * g0.ny + j]) { P u = mp(P(g0.xs[i], g0.ys[j])), v = mp(P(g0.xs[i + 1], g0.ys[j + 1])); i64 a0 = std::min(u.x, v.x), a1 = std::max(u.x, v.x), b0 = std::min(u.y, v.y), b1 = std::max(u.y, v.y); if (a0 == a1 || b0 == b1) continue; size_t x0 = g.xi(a0), x1 = g.xi(a1), y0 = g.yi(b0), y1 = g.yi(b1); for (size_t x = x0; x < x1; ++x) for (size_t y = y0; y < y1; ++y) want[x * g.ny + y] = 1; }
  c.count("set maps"); sameRegion(c, g, want, out, WN[what]);
  if (!A.empty()) { Hash h; h.add(what); h.add(cont); h.add(f.m); h.add((u64)fac); c.nontrivial(hashPolys(pa, h)); }
}
#endif
#if PART == 1
static const char* ON[] = {"or", "and", "xor", "sub", "self_xor", "self_intersect", "interact", "keep", "trapezoids", "merge", "connect", "area"};
template <class C> Layers run45(Rng& r, const Items& A, const Items& B, const Opt& o, int ori, bool gen) {
  typedef bp::polygon_45_set_data<C> S; typedef typename bp::coordinate_traits<C>::unsigned_area_type U; Layers L; (void)gen;
  S a, b; for (auto& i : A) insertItem45(a, i); for (auto& i : B) insertItem45(b, i);
  auto put = [&](const S& s, const std::string& n = "") { L.push_back(std::make_pair(n, observe45(s, r.below(6)))); };
  switch (o.op) {
    case 0: put(S(a + b)); break; case 1: put(S(a * b)); break; case 2: put(S(a ^ b)); break; case 3: put(S(a - b)); break;
    case 4: a.self_xor(); put(a); break; case 5: a.self_intersect(); put(a); break;
    case 6: bp::interact(a, b); put(a); break;
    case 7: bp::keep(a, (U)o.lim[0], (U)o.lim[1], (U)o.lim[2], (U)o.lim[3], (U)o.lim[4], (U)o.lim[5]); put(a); break;
    case 8: { std::vector<bp::polygon_45_data<C> > v; bp::get_trapezoids(v, a, ori ? bp::VERTICAL : bp::HORIZONTAL); auto tv = fromSs(v); for (auto& x : tv) if (area2(x.outer) < 0) reverseRing(x.outer); L.push_back(std::make_pair("", tv)); break; }
    case 9: { bp::property_merge_45<C, int> m; m.insert(a, 0); m.insert(b, 1); if (!A.empty()) { S one; insertItem45(one, A[0]); m.insert(one, 3); } std::map<std::set<int>, S> res; m.merge(res); for (auto& e : res) put(e.second, keyOf(e.first)); break; }
    case 10: { bp::connectivity_extraction_45<C> ce; std::vector<std::set<int> > g; int n = 0; for (auto& i : A) { S s; insertItem45(s, i); ce.insert(s); ++n; } for (auto& i : B) { S s; insertItem45(s, i); ce.insert(s); ++n; } g.resize(n); ce.extract(g); L.push_back(std::make_pair(graphStr(g), std::vector<Poly>())); break; }
    default: { std::vector<Poly> p = observe45(a, 0); L.push_back(std::make_pair("", p)); }
  }
  return L;
}
#endif
#if PART == 2
static const char* ON[] = {"or", "and", "xor", "sub", "-", "-", "interact", "-", "trapezoids", "merge", "connect", "clean"};
template <class C> Layers runG(Rng& r, const Items& A, const Items& B, const Opt& o, int ori, bool) {
  typedef bp::polygon_set_data<C> S; Layers L;
  S a, b; for (auto& i : A) insertItemGen(a, i); for (auto& i : B) insertItemGen(b, i);
  auto put = [&](const S& s, const std::string& n = "") { L.push_back(std::make_pair(n, observeG(s, r.below(3)))); };
  switch (o.op) {
    case 0: put(S(a + b)); break; case 1: put(S(a * b)); break; case 2: put(S(a ^ b)); break; case 3: put(S(a - b)); break;
    case 8: { std::vector<bp::polygon_data<C> > v; bp::get_trapezoids(v, a, ori ? bp::VERTICAL : bp::HORIZONTAL); std::vector<Poly> p = fromSs(v); for (auto& x : p) if (area2(x.outer) < 0) reverseRing(x.outer); L.push_back(std::make_pair("", p)); break; }
    case 9: { bp::property_merge<C, int> m; for (auto& i : A) if (!i.hole) m.insert(toGenh<C>(i.p), 0); for (auto& i : B) m.insert(toGenh<C>(i.p), 1); if (!A.empty()) m.insert(toGenh<C>(A[0].p), 3); std::map<std::set<int>, S> res; m.merge(res); for (auto& e : res) put(e.second, keyOf(e.first)); break; }
    case 10: { bp::connectivity_extraction<C> ce; std::vector<std::set<int> > g; int n = 0; for (auto& i : A) { S s; insertItemGen(s, i); ce.insert(s); ++n; } for (auto& i : B) { S s; insertItemGen(s, i); ce.insert(s); ++n; } g.resize(n); ce.extract(g); L.push_back(std::make_pair(graphStr(g), std::vector<Poly>())); break; }
    default: a.clean(); put(a); }
  return L;
}
#endif
#if PART >= 1
// mode 0: every crossing on grid (exact), 1: off-grid 45 crossings, 2: arbitrary angles with snapping
template <class C> void eqx(Ctx& c, int mode) {
  Rng& r = c.rng; i64 M = PART == 2 ? (mode == 2 ? 1LL << 27 : 1LL << 19) : sizeof(C) > 4 ? 1LL << 40 : std::numeric_limits<C>::max() / 2;
  Items A, B; i64 w = 0;
  if (mode == 2) { SceneG sc = genSceneG(r, M / 2); A = genItemsG(r, sc, 4, true, r.chance(1, 4)); B = genItemsG(r, sc, 3, true, false); w = sc.s; }
  else { Scene45 sc = genScene45(r, mode == 1, -M, M); A = genItems45(r, sc, 4, true, r.chance(1, 4)); B = genItems45(r, sc, 3, true, false); w = sc.k * sc.n; }
  Opt o; o.op = r.below(12);
#if PART == 2
  if (o.op == 4 || o.op == 5 || o.op == 6 || o.op == 7) o.op = r.below(4); if (mode == 2 && o.op == 10) o.op = 0; if (o.op == 9 && mode == 2) o.op = 2;
#else
  if (mode == 1 && (o.op == 4 || o.op == 5 || o.op == 6 || o.op == 7 || o.op == 10 || o.op == 8)) o.op = r.below(4); // topology at half points may differ
  if (sizeof(C) > 4 && o.op == 9) for (auto v : {&A, &B}) for (auto& i : *v) for (auto p : {&i.p.outer}) if (bound(Items(1, i)) > (1LL << 28)) { o.op = r.below(4); break; }
#endif
  if (o.op == 4 || o.op == 5) { Items t; for (auto& i : A) if (!i.hole) t.push_back(i); A = t; }
  o.lim[0] = r.below(3) ? 0 : std::min<i64>(w, 30000) * std::min<i64>(w, 30000) / (2 + r.below(9)); o.lim[1] = std::numeric_limits<i64>::max(); for (int k = 2; k < 6; k += 2) { o.lim[k] = r.below(2) ? 0 : w / (1 + r.below(5)); o.lim[k + 1] = r.below(2) ? 2 * w + 1 : w / (1 + r.below(3)) + 1; }
  F f = genMap(r, bound(A, bound(B)), M - 2, mode == 0 && o.op != 7);
  c.desc = std::string(ON[o.op]) + " " + f.s_() + " A=" + strv(A) + " B=" + strv(B);
  Opt o2 = o; if (f.swap()) { std::swap(o2.lim[2], o2.lim[4]); std::swap(o2.lim[3], o2.lim[5]); }
  int ori = r.below(2); Items A2 = f.items(A), B2 = f.items(B); bool sh = o.op != 10 && r.chance(1, 2), sub = false; for (auto& i : A) sub = sub || i.hole; Items A3 = shuffled(r, A2, sh && o.op != 9 && !sub), B3 = shuffled(r, B2, sh);
#if PART == 1
  Layers x = run45<C>(r, A, B, o, ori, false), y = run45<C>(r, A3, B3, o2, f.swap() ? !ori : ori, false);
#else
  Layers x = runG<C>(r, A, B, o, ori, false), y = runG<C>(r, A3, B3, o2, f.swap() ? !ori : ori, false);
#endif
  std::string key = std::string(mode == 0 ? "exact-" : mode == 1 ? "offgrid-" : "snap-") + ON[o.op];
  for (auto L : {&x, &y}) if (o.op == 9) { Layers n; for (auto& e : *L) if (!e.second.empty()) n.push_back(e); *L = n; }
  std::vector<Poly> in = polysOf(A2), ib = polysOf(B2); in.insert(in.end(), ib.begin(), ib.end()); std::set<P> off; if (mode == 1) off = offCells(in);
  if (mode == 1 && o.op == 9) { // a label set living only in off-grid squares may vanish
    std::map<std::string, std::pair<std::vector<Poly>, std::vector<Poly> > > u; for (auto& e : x) u[e.first].first = e.second; for (auto& e : y) u[e.first].second = e.second; x.clear(); y.clear(); for (auto& e : u) { x.push_back(std::make_pair(e.first, e.second.first)); y.push_back(std::make_pair(e.first, e.second.second)); } }
  if (!c.check(x.size() == y.size(), key + ":layers", "different label sets")) return;
  bool nt = false;
  for (size_t i = 0; i < x.size(); ++i) {
    if (x[i].first != y[i].first) { c.fail(key + ":labels", "'" + x[i].first + "' became '" + y[i].first + "'"); return; }
    if (!x[i].first.empty()) c.count("labels compared");
    std::vector<Poly> e = f.polys(x[i].second); const std::vector<Poly>& g = y[i].second; nt = nt || !e.empty();
    Arr arr; arrOut(arr, e, 2); arrOut(arr, g, 1); arr.nlab = 3; if (mode == 1) for (auto& q : off) arr.ring(rectRing(q.x, q.y, q.x + 1, q.y + 1), 0, 0);
    arr.finish(); c.count("regions compared");
    std::vector<Poly> edges; if (mode == 2) { edges = in; }
    if (!sameArr(c, arr, [&](const int* w2) { return w2[2]; }, [&](const Arr::Cell& q, int, int) -> bool {
      if (mode == 0) return false;
      if (mode == 1) { P cell((i64)floorl((q.x0 + q.x1) / 2), (i64)floorl((q.l0 + q.l1 + q.h0 + q.h1) / 4)); if (off.count(cell)) { c.count("off-grid differences excused"); return true; } return false; }
      if (cellReach(q, edges) <= 3.0L) { c.count("snapping differences excused"); return true; }
      return false; }, key.c_str(), [&]() { return " mapped result " + strv(e) + " vs result of mapped input " + strv(g); })) return;
  }
  if (nt || o.op == 10) { Hash hh; hh.add(o.op); hh.add(f.m); hh.add((u64)f.s); hh.add((u64)f.tx); c.nontrivial(hashPolys(in, hh)); }
}
static i64 rnd(long double v) { return (i64)floorl(v + 0.5L); }
template <class C> void mapx(Ctx& c, int mode) {
  Rng& r = c.rng; i64 M = PART == 2 ? 1LL << 24 : sizeof(C) > 4 ? 1LL << 40 : std::numeric_limits<C>::max() / 2;
  Items A; if (mode == 2) { SceneG sc = genSceneG(r, M / 4); A = genItemsG(r, sc, 4, true, r.chance(1, 4)); } else { Scene45 sc = genScene45(r, false, PART == 2 ? -(1 << 19) : -M, PART == 2 ? 1 << 19 : M); A = genItems45(r, sc, 4, true, r.chance(1, 4)); }
  i64 b = bound(A); int what = r.below(4), cont = r.below(3); bool cl = r.chance(1, 3), tr2 = r.chance(1, 2);
  int m = r.below(8); AT t = at(m); i64 fac = r.range(1, r.chance(1, 2) ? 4 : 300); if (what == 0 && b > 0) fac = std::min<i64>(fac, std::max<i64>(1, (PART == 2 ? (mode == 2 ? M : 1 << 19) : M) / b)); double df = r.chance(1, 2) ? (double)r.range(1, 12) / 4 : r.unit() * 2 + 1e-3; if (what == 2 && b * df > M) df = 0.75;
  i64 tx = r.range(-1000, 1000), ty = r.range(-1000, 1000); bp::point_data<C> org((C)tx, (C)ty); bp::transformation<C> T2(t, org);
#if PART == 2
  if (what == 2) what = 1;
#endif
  static const char* WN[] = {"scale_up", "scale_down", "scale", "transform"};
  c.desc = std::string("set ") + WN[what] + " cont=" + std::to_string(cont) + (cl ? " cleaned" : "") + (tr2 ? " with origin" : "") + " m=" + std::to_string(m) + " fac=" + std::to_string(fac) + " df=" + std::to_string(df) + " t=" + std::to_string(tx) + "," + std::to_string(ty) + " A=" + strv(A);
  auto mp = [&](P p) -> P { switch (what) { case 0: return P(p.x * fac, p.y * fac); case 1: return P(rnd((double)p.x / (double)fac), rnd((double)p.y / (double)fac)); case 2: return P(rnd((double)p.x * df), rnd((double)p.y * df)); default: return tr2 ? act(m, P(p.x - tx, p.y - ty)) : act(m, p); } };
  typedef typename bp::coordinate_traits<C>::unsigned_area_type U;
#if PART == 1
  typedef bp::polygon_45_set_data<C> S; typedef bp::polygon_45_with_holes_data<C> PH; S a; for (auto& i : A) insertItem45(a, i);
#define OBS(z) observe45(z, r.below(6))
#else
  typedef bp::polygon_set_data<C> S; typedef bp::polygon_with_holes_data<C> PH; S a; for (auto& i : A) insertItemGen(a, i);
#define OBS(z) observeG(z, r.below(3))
#endif
  auto all = [&](auto& X) { switch (what) { case 0: bp::scale_up(X, (U)fac); break; case 1: bp::scale_down(X, (U)fac); break;
#if PART == 1
    case 2: bp::scale(X, df); break;
#endif
    default: if (tr2) bp::transform(X, T2); else bp::transform(X, t); break; } };
  auto mem = [&](S& X) { switch (what) { case 0: X.scale_up((U)fac); break; case 1: X.scale_down((U)fac); break;
#if PART == 1
    case 2: X.scale(df); break;
#endif
    default: if (tr2) X.transform(T2); else X.transform(t); break; } };
  std::vector<Poly> out; if (cl) a.clean();
  if (cont == 0) { mem(a); out = OBS(a); } else if (cont == 1) { all(a); out = OBS(a); } else { std::vector<PH> v; a.get(v); all(v); S z; bp::assign(z, v); out = OBS(z); }
  // reference: the mapped inputs, built afresh
  bool exact = what == 0 || what == 3; auto mapped = A; for (auto& i : mapped) { mapPoly(i.p, mp); }
  Arr arr; for (auto& i : mapped) { // orientation of the original decides the sign when rounding may flatten a ring
    Poly o; (void)o; const Item& src = A[&i - &mapped[0]]; int sg = src.hole ? -1 : 1; bool mir = false; if (what == 3) { P u = act(m, P(1, 0)), v = act(m, P(0, 1)); mir = u.x * v.y - u.y * v.x < 0; }
    arr.ring(i.p.outer, 2, sg * orientSign(src.p.outer) * (mir ? -1 : 1)); for (size_t k = 0; k < i.p.holes.size(); ++k) arr.ring(i.p.holes[k], 2, -sg * orientSign(src.p.holes[k]) * (mir ? -1 : 1)); }
  arrOut(arr, out, 1); arr.nlab = 3; arr.finish(); c.count("set maps"); auto edges = polysOf(mapped); ld tol = exact ? (mode == 2 ? 3.0L * (what == 0 ? (ld)fac + 1 : 1) : 0) : PART == 1 ? 8.0L : 5.0L; 
  std::string key = std::string(mode == 2 ? "snap-" : "") + WN[what];
  sameArr(c, arr, [&](const int* w2) { return (int)(w2[2] > 0); }, [&](const Arr::Cell& q, int, int g) { if (g != 0 && g != 1) return false; if (tol > 0 && cellReach(q, edges) <= tol) { c.count("rounding differences excused"); return true; } return false; }, key.c_str(), [&]() { return " output=" + strv(out); });
#if PART == 1
  for (auto& p : out) { bool ok = is45Ring(p.outer); for (auto& h : p.holes) ok = ok && is45Ring(h); if (!ok) c.fail(key + ":angles", "edge that is not at 45 degrees: " + str(p)); }
#endif
  if (!A.empty()) { Hash h; h.add(what); h.add(cont); h.add(m); h.add((u64)fac); c.nontrivial(hashPolys(edges, h)); }
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"eq90-int", [](Ctx& c) { eq90<int>(c); }, 40000, 1500000});
  f.push_back({"eq90-i64", [](Ctx& c) { eq90<long long>(c); }, 8000, 300000});
  f.push_back({"map90-int", [](Ctx& c) { map90<int>(c); }, 30000, 1000000});
#elif PART == 1
  f.push_back({"eq45-int", [](Ctx& c) { eqx<int>(c, 0); }, 16000, 600000});
  f.push_back({"eq45-off", [](Ctx& c) { eqx<int>(c, 1); }, 12000, 400000});
  f.push_back({"map45-int", [](Ctx& c) { mapx<int>(c, 0); }, 12000, 400000});
#else
  f.push_back({"eqG-lattice", [](Ctx& c) { eqx<int>(c, 0); }, 10000, 400000});
  f.push_back({"eqG-snap", [](Ctx& c) { eqx<int>(c, 2); }, 8000, 300000});
  f.push_back({"mapG-lattice", [](Ctx& c) { mapx<int>(c, 0); }, 6000, 200000});
  f.push_back({"mapG-snap", [](Ctx& c) { mapx<int>(c, 2); }, 6000, 200000});
#endif
  return f;
}
}
VF_MAIN()
