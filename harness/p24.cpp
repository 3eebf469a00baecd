// P24: simplification and Minkowski sums respect their bounds.
#include "sceneg.hpp"
namespace vf {
inline bool hasSliver(const std::vector<Poly>& base, ld w) {
  std::vector<const Ring*> rs; for (auto& p : base) { rs.push_back(&p.outer); for (auto& h : p.holes) rs.push_back(&h); }
  for (auto* q : rs) for (auto& v : *q) for (auto* z : rs) for (size_t j = 0; j < z->size(); ++j) { P a = (*z)[j], b = (*z)[(j + 1) % z->size()]; if (v == a || v == b) continue; if (distSeg((ld)v.x, (ld)v.y, a, b) < w) return true; }
  return false;
}
// B lies within len of the segment AC: exact comparison; len = num/2
inline int within(P a, P b, P cc, i64 len2x) { // 1 yes, 0 no
  i128 acx = cc.x - a.x, acy = cc.y - a.y, abx = b.x - a.x, aby = b.y - a.y, bcx = cc.x - b.x, bcy = cc.y - b.y; i128 ac = acx * acx + acy * acy, dt = abx * acx + aby * acy, L = (i128)len2x * len2x;
  if (ac == 0 || dt <= 0) return 4 * (abx * abx + aby * aby) <= L; if (dt >= ac) return 4 * (bcx * bcx + bcy * bcy) <= L;
  i128 cr = acx * aby - acy * abx; return (ld)cr * (ld)cr * 4 <= (ld)L * (ld)ac * (1 + 1e-15L);
}
inline bool tie(P a, P b, P cc, i64 len2x) { if (a == cc && a != b) return true; /* a zero-width spike may stay or go */ ld d = distSeg((ld)b.x, (ld)b.y, a, cc); return len2x > 0 && fabsl(2 * d - len2x) < 1e-9L * len2x; }
static bool gTie;
// the documented pass: drop every vertex within the tolerance of the segment joining its current neighbours, until nothing changes
inline Ring reduce(Ring q, i64 len2x, i64& removed) {
  if (q.size() > 1 && q.front() == q.back()) q.pop_back();
  size_t n0 = q.size();
  for (bool again = true; again;) {
    if (q.size() < 3) { removed += n0; return Ring(); }
    Ring o; P prev = q[0]; again = false;
    for (size_t i = 1; i <= q.size(); ++i) { P b = q[i % q.size()], nx = q[(i + 1) % q.size()]; if (tie(prev, b, nx, len2x)) gTie = true; if (within(prev, b, nx, len2x)) { again = true; continue; } o.push_back(b); prev = b; }
    q = o;
  }
  removed += n0 - q.size(); return q;
}
template <class C> void simp(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S; SceneG sc = genSceneG(r, 1 << 24); Items A;
  if (r.chance(1, 2)) A = genItemsG(r, sc, 2, true, false);
  else { // wavy outline: a rough polygon with many near-collinear vertices and spikes
    Poly base = genPolyG(r, sc, r.chance(1, 2)); auto rough = [&](Ring q) { Ring o; for (size_t i = 0; i < q.size(); ++i) { P a = q[i], b = q[(i + 1) % q.size()]; o.push_back(a); int k = r.below(5); std::vector<int> ts; for (int j = 0; j < k; ++j) ts.push_back(1 + r.below(63)); std::sort(ts.begin(), ts.end()); for (int t : ts) { int am = r.chance(1, 6) ? 40 : 3; P z(a.x + (b.x - a.x) * t / 64 + r.range(-am, am), a.y + (b.y - a.y) * t / 64 + r.range(-am, am)); if (z != o.back()) o.push_back(z); } } return o; };
    Ring q = rough(base.outer); Item it; if (simpleRing(q) && area2(q) != 0) { it.p.outer = q; for (auto& h : base.holes) { Ring h2 = rough(h); bool ok = simpleRing(h2) && area2(h2) != 0 && !ringsCross(q, h2) && strictlyInside(q, h2[0]); for (auto& g2 : it.p.holes) if (ringsCross(g2, h2) || strictlyInside(g2, h2[0]) || strictlyInside(h2, g2[0])) ok = false; if (ok) it.p.holes.push_back(h2); } } else it.p = base;
    scramble(r, it.p); it.form = it.p.holes.empty() ? r.below(2) : 0; A.push_back(it); }
  i64 len2x; switch (r.below(5)) { case 0: len2x = 0; break; case 1: len2x = r.range(1, 4); break; case 2: len2x = r.range(1, 40); break; case 3: len2x = r.range(1, 2 * std::max<i64>(2, sc.s / 4)); break; default: len2x = 2 * r.range(1, 10); }
  c.desc = "tolerance=" + sld(len2x * 0.5L) + " A=" + strv(A);
  S s; for (auto& i : A) insertItemGen(s, i); std::vector<bp::polygon_with_holes_data<C> > pv; bp::assign(pv, s); std::vector<Poly> in = fromHs(pv), want; i64 removed = 0, verts = 0; int vanished = 0; gTie = false;
  // rings are examined in the order and from the vertex the set delivers them
  for (size_t i = 0; i < pv.size(); ++i) { Poly w; auto ring = [&](auto b, auto e) { Ring q; for (; b != e; ++b) q.push_back(P((*b).x(), (*b).y())); verts += q.size() - (q.size() > 1 && q.front() == q.back()); Ring z = reduce(q, len2x, removed); if (z.empty()) ++vanished; return z; };
    w.outer = ring(pv[i].begin(), pv[i].end()); for (auto h = pv[i].begin_holes(); h != pv[i].end_holes(); ++h) w.holes.push_back(ring(h->begin(), h->end())); want.push_back(w); }
  if (gTie) { c.count("ties skipped"); return; }
  size_t ret; std::vector<Poly> out; bool vec = r.chance(1, 3), open = false;
  if (vec) { std::vector<bp::polygon_data<C> > t; std::vector<bp::polygon_with_holes_data<C> > t2; if (in.size() && r.chance(1, 1)) { t2 = pv; ret = bp::simplify(t2, len2x * 0.5); out = fromHs(t2); } else ret = 0; }
  else { ret = bp::simplify(s, len2x * 0.5); int ob = r.below(3); open = ob == 1; out = observeG(s, ob); }
  if (!vec || !in.empty()) { // a container operand is first cleaned again, which may renumber its rings; judge it only when that changes nothing
    S e; bool rerun = vec; if (rerun) { S t; t.insert(pv.begin(), pv.end()); std::vector<bp::polygon_with_holes_data<C> > p2; t.get(p2); if (strv(fromHs(p2)) != strv(in)) { c.count("containers renumbered"); return; } }
    for (auto& w : want) { if (w.outer.size()) e.insert(toGen<C>(w.outer)); for (auto& h : w.holes) if (h.size()) e.insert(toGen<C>(h), true); }
    std::vector<Poly> exp = observeG(e, 0); Arr a; arrOut(a, exp, 2); arrOut(a, out, 1); a.nlab = 3; a.finish();
    bool simple = true; for (auto& w : want) { if (w.outer.empty() || !simpleRing(w.outer)) simple = false; for (auto& h : w.holes) if (h.size() && (!simpleRing(h) || (w.outer.size() && ringsCross(h, w.outer)))) simple = false; }
    simple = simple && !hasSliver(want, 2);
    sameArr(c, a, [&](const int* w) { return w[2] > 0 ? 1 : 0; }, [&](const Arr::Cell& q, int, int) { if (simple && !vec && !open && want.size() == 1) return false; return cellReach(q, exp.empty() ? in : exp) <= 3; }, "simplify", [&]() { return " expected=" + strv(exp) + " out=" + strv(out); });
    if ((len2x && (i64)ret < removed) || (i64)ret > removed + vanished) c.fail("simplify:count", "returned " + std::to_string(ret) + " but " + std::to_string(removed) + " vertices disappear (" + std::to_string(vanished) + " rings vanish)");
    c.count("vertices examined", verts); c.count("vertices removed", removed); c.count("rings vanished", vanished); if (removed) c.count("simplifications"); if (len2x == 0) c.count("zero tolerance");
    Hash h; h.add((u64)len2x); if (removed) c.nontrivial(hashPolys(polysOf(A), h));
  }
}
struct V { ld x, y; };
inline bool inPolys(const std::vector<Poly>& v, ld x, ld y) { for (auto& p : v) { int w = 0; auto ring = [&](const Ring& q) { for (size_t i = 0; i < q.size(); ++i) { P a = q[i], b = q[(i + 1) % q.size()]; if (((ld)a.y <= y) != ((ld)b.y <= y)) { ld cr = (ld)(b.x - a.x) * (y - a.y) - (ld)(b.y - a.y) * (x - a.x); if ((ld)a.y <= y ? cr > 0 : cr < 0) w += (ld)a.y <= y ? 1 : -1; } } }; ring(p.outer); for (auto& h : p.holes) ring(h); if (w) return true; } return false; }
// distance between A and the reflected operand p - B (0 when they meet)
inline ld gapTo(const std::vector<Poly>& A, const std::vector<Poly>& B, V p) {
  auto rings = [](const std::vector<Poly>& v) { std::vector<const Ring*> o; for (auto& q : v) { o.push_back(&q.outer); for (auto& h : q.holes) o.push_back(&h); } return o; };
  auto ra = rings(A), rb = rings(B); ld m = 1e30L;
  for (auto* q : rb) for (auto& z : *q) if (inPolys(A, p.x - z.x, p.y - z.y)) return 0;
  for (auto* q : ra) for (auto& z : *q) if (inPolys(B, p.x - z.x, p.y - z.y)) return 0;
  for (auto* q : ra) for (size_t i = 0; i < q->size(); ++i) { P a = (*q)[i], b = (*q)[(i + 1) % q->size()];
    for (auto* z : rb) for (size_t j = 0; j < z->size(); ++j) { P c0 = (*z)[j], d0 = (*z)[(j + 1) % z->size()]; V cc = {p.x - c0.x, p.y - c0.y}, dd = {p.x - d0.x, p.y - d0.y};
      auto o = [](ld ax, ld ay, ld bx, ld by, ld px, ld py) { return (bx - ax) * (py - ay) - (by - ay) * (px - ax); };
      if ((o(a.x, a.y, b.x, b.y, cc.x, cc.y) > 0) != (o(a.x, a.y, b.x, b.y, dd.x, dd.y) > 0) && (o(cc.x, cc.y, dd.x, dd.y, a.x, a.y) > 0) != (o(cc.x, cc.y, dd.x, dd.y, b.x, b.y) > 0)) return 0;
      m = std::min(m, std::min(distSeg(cc.x, cc.y, a, b), distSeg(dd.x, dd.y, a, b))); auto ds = [&](ld x, ld y) { ld ex = dd.x - cc.x, ey = dd.y - cc.y, n = ex * ex + ey * ey, t = n > 0 ? ((x - cc.x) * ex + (y - cc.y) * ey) / n : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; ld qx = cc.x + t * ex - x, qy = cc.y + t * ey - y; return sqrtl(qx * qx + qy * qy); }; m = std::min(m, std::min(ds(a.x, a.y), ds(b.x, b.y))); } }
  return m;
}
template <class C> void mink(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S; SceneG sa = genSceneG(r, 1 << 22), sb = genSceneG(r, 1 << 22); if (r.chance(1, 2)) { sb.s = std::max<i64>(4, std::min<i64>(sb.s, sa.s / r.range(1, 20))); for (auto& q : sb.pool) q = P(sb.x0 + r.range(0, sb.s), sb.y0 + r.range(0, sb.s)); }
  auto gen = [&](SceneG& s) { Items v; if (r.chance(1, 3)) { Item it; it.p.outer = rectRing(s.x0, s.y0, s.x0 + s.s, s.y0 + s.s); if (s.s > 6 && r.chance(1, 2)) { i64 t = r.range(1, s.s / 3); it.p.holes.push_back(rectRing(s.x0 + t, s.y0 + t, s.x0 + s.s - t, s.y0 + s.s - t)); } v.push_back(it); } else v = genItemsG(r, s, 2, true, false); return v; };
  Items A = gen(sa), B = gen(sb); S a, b, res; for (auto& i : A) insertItemGen(a, i); for (auto& i : B) insertItemGen(b, i);
  std::vector<Poly> pa = observeG(a, 0), pb = observeG(b, 0); c.desc = "A=" + strv(A) + " B=" + strv(B); size_t ea = 0, eb = 0; for (auto& p : pa) { ea += p.outer.size(); for (auto& h : p.holes) ea += h.size(); } for (auto& p : pb) { eb += p.outer.size(); for (auto& h : p.holes) eb += h.size(); }
  if (ea * eb > 160) { c.count("sums too large"); return; }
  if (r.chance(1, 4)) res.insert(bp::rectangle_data<C>(1, 2, 3, 4)); // the previous contents of the result are replaced
  bp::detail::minkowski_offset<C>::convolve_two_polygon_sets(res, a, b); std::vector<Poly> out = observeG(res, r.below(3));
  if (pa.empty() || pb.empty()) { c.count("empty operands"); if (!out.empty()) c.fail("minkowski:empty", "sum with an empty set is " + strv(out)); return; }
  bool sliver = hasSliver(pa, 4) || hasSliver(pb, 4); const ld slack = 4; i64 ins = 0, outs = 0; std::vector<const Ring*> ra, rb; for (auto& p : pa) { ra.push_back(&p.outer); for (auto& h : p.holes) ra.push_back(&h); } for (auto& p : pb) { rb.push_back(&p.outer); for (auto& h : p.holes) rb.push_back(&h); }
  auto u01 = [&]() { return (ld)r.below(1 << 20) / (1 << 20); };
  for (int k = c.thorough ? 50 : 24; k > 0; --k) { const Ring& qa = *ra[r.below((int)ra.size())]; const Ring& qb = *rb[r.below((int)rb.size())]; P x0 = qa[r.below((int)qa.size())], y0 = qb[r.below((int)qb.size())]; size_t j = r.below((int)qa.size()); P x1 = qa[j], x2 = qa[(j + 1) % qa.size()]; ld t = u01(), e = r.chance(1, 2) ? 12 : (ld)(sa.s + sb.s) / 3;
    V p = r.chance(1, 2) ? V{(ld)x0.x + y0.x, (ld)x0.y + y0.y} : V{x1.x + t * (x2.x - x1.x) + y0.x, x1.y + t * (x2.y - x1.y) + y0.y}; if (r.chance(1, 4)) { p.x = sa.x0 + sb.x0 + u01() * (sa.s + sb.s); p.y = sa.y0 + sb.y0 + u01() * (sa.s + sb.s); e = 1; }
    p.x = floorl(p.x + (2 * u01() - 1) * e) + 0.3719L; p.y = floorl(p.y + (2 * u01() - 1) * e) + 0.2173L;
    int w = 0; for (auto& q : out) { std::vector<Poly> one(1, q); if (inPolys(one, p.x, p.y)) ++w; }
    ld gp = gapTo(pa, pb, p); std::string at; if (gp > slack) { ++outs; if (w) { c.fail("minkowski:excess", "point (" + sld(p.x) + "," + sld(p.y) + ") is in the result but " + sld(gp) + " away from every vector sum; out=" + strv(out)); return; } continue; }
    if (gp > 0 || sliver) { c.count("points not judged"); continue; }
    bool deep = true; for (int q = 0; q < 24 && deep; ++q) { ld an = q * 0.7853981L + (q / 8) * 0.26L, rad = slack * (1 + q / 8) / 3; V s = {p.x + rad * cosl(an), p.y + rad * sinl(an)}; if (gapTo(pa, pb, s) > 0) deep = false; }
    if (!deep) { c.count("points not judged"); continue; }
    ++ins; if (!w) { c.fail("minkowski:missing", "point (" + sld(p.x) + "," + sld(p.y) + ") is a vector sum but not in the result; out=" + strv(out)); return; }
    if (w > 1) { c.fail("minkowski:cover", "point (" + sld(p.x) + "," + sld(p.y) + ") covered " + std::to_string(w) + " times; out=" + strv(out)); return; } }
  c.count("sum points inside", ins); c.count("sum points outside", outs); Hash h; if (ins) { h.add(hashPolys(polysOf(A))); c.nontrivial(hashPolys(polysOf(B), h)); }
}
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"simplify-int", [](Ctx& c) { simp<int>(c); }, 40000, 1500000});
  f.push_back({"minkowski-int", [](Ctx& c) { mink<int>(c); }, 6000, 250000});
#else
  f.push_back({"simplify-i64", [](Ctx& c) { simp<long long>(c); }, 20000, 700000});
  f.push_back({"minkowski-i64", [](Ctx& c) { mink<long long>(c); }, 4000, 150000});
#endif
  return f;
}
}
VF_MAIN()
