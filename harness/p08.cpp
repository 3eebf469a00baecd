// P08: 45-degree and arbitrary-angle resizing stay within the offset bounds.
#include "sceneg.hpp"
namespace vf {
using namespace boost::polygon::operators;
struct V { ld x, y; V(ld a = 0, ld b = 0) : x(a), y(b) {} };
inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y); }
inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y); }
inline V operator*(V a, ld k) { return V(a.x * k, a.y * k); }
inline ld crs(V a, V b) { return a.x * b.y - a.y * b.x; }
inline ld dot(V a, V b) { return a.x * b.x + a.y * b.y; }
inline ld len(V a) { return sqrtl(dot(a, a)); }
inline V vp(const P& p) { return V((ld)p.x, (ld)p.y); }
inline ld dSeg(V p, V a, V b) { V d = b - a; ld n = dot(d, d), t = n > 0 ? dot(p - a, d) / n : 0; if (t < 0) t = 0; if (t > 1) t = 1; return len(p - (a + d * t)); }
inline int wind(const Ring& r, V p) { int w = 0; for (size_t i = 0; i < r.size(); ++i) { V a = vp(r[i]), b = vp(r[(i + 1) % r.size()]); if ((a.y <= p.y) != (b.y <= p.y)) { ld c = crs(b - a, p - a); if (a.y <= p.y ? c > 0 : c < 0) w += a.y <= p.y ? 1 : -1; } } return w; }
inline int wind(const std::vector<Poly>& v, V p) { int w = 0; for (auto& q : v) { w += wind(q.outer, p); for (auto& h : q.holes) w += wind(h, p); } return w; }
inline ld dBound(const std::vector<Poly>& v, V p) { return distRings(p.x, p.y, v); }
// distance from p to a convex polygon given by hull points (0 inside)
struct Hull { std::vector<V> h;
  Hull(std::vector<V> v) { std::sort(v.begin(), v.end(), [](V a, V b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    for (int s = 0; s < 2; ++s) { size_t k = h.size(); for (auto& p : v) { while (h.size() >= k + 2 && crs(h[h.size() - 1] - h[h.size() - 2], p - h[h.size() - 2]) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(v.begin(), v.end()); } }
  bool in(V p) const { for (size_t i = 0; i < h.size(); ++i) if (crs(h[(i + 1) % h.size()] - h[i], p - h[i]) < 0) return false; return h.size() > 2; }
  ld dist(V p) const { if (in(p)) return 0; ld m = 1e30L; for (size_t i = 0; i < h.size(); ++i) m = std::min(m, dSeg(p, h[i], h[(i + 1) % h.size()])); return m; } };
template <class C> i64 diagK(i64 d, int ro) { ld e = (ld)d / sqrtl(2.0L); i64 f = (i64)floorl(e); switch (ro) { case bp::CLOSEST: return e - f < 0.5L ? f : f + 1; case bp::OVERSIZE: return f + 1; case bp::UNDERSIZE: return f; case bp::SQRT2: return d; default: return d / 2; } }
static const char* RON[5] = {"closest", "oversize", "undersize", "sqrt2", "sqrt1over2"};
static const char* CON[3] = {"intersection", "orthogonal", "unfilled"};
template <class S> void entry(Ctx& c, S& s, i64 d, int ro, int co, std::string& how) { // dispatch over the entry points for (ro,co)
  Rng& r = c.rng; typedef typename S::coordinate_type C; typedef typename bp::coordinate_traits<C>::unsigned_area_type U; bp::RoundingOption R = (bp::RoundingOption)ro; bp::CornerOption O = (bp::CornerOption)co;
  if (ro == 0 && co == 0) switch (r.below(5)) {
    case 0: how = "member"; s.resize((C)d); return;
    case 1: how = "resize"; bp::resize(s, (C)d); return;
    case 2: how = "bloat/shrink"; if (d >= 0) bp::bloat(s, (U)d); else bp::shrink(s, (U)-d); return;
    case 3: how = "op="; if (d >= 0) s += (C)d; else s -= (C)-d; return;
    default: how = "negated op="; if (d >= 0) s -= (C)-d; else s += (C)d; return;
  }
  if (r.chance(1, 2)) { how = "member"; s.resize((C)d, R, O); } else { how = "resize"; bp::resize(s, (C)d, R, O); }
}
struct Piece { Hull h; V a, b; };
// offset pieces of a ring: both sides of every edge and the corner fills, by side
struct Pieces {
  std::vector<Hull> edge[2], corner[2]; // [0] = left of the edge direction (inside of counterclockwise rings), [1] = right
  void ring(const Ring& q, std::function<ld(V)> off, int co, int ro, ld slackD, ld d) {
    size_t n = q.size();
    for (size_t i = 0; i < n; ++i) {
      V a = vp(q[i]), b = vp(q[(i + 1) % n]), e = vp(q[(i + 2) % n]); V u = (b - a) * (1 / len(b - a)), w = (e - b) * (1 / len(e - b)); V nu(-u.y, u.x), nw(-w.y, w.x);
      ld D1 = off(u) + slackD, D2 = off(w) + slackD; bool diag = fabsl(u.x) > 0.1L && fabsl(u.y) > 0.1L;
      V x = (ro == bp::SQRT1OVER2 && diag && slackD > 0 && co != bp::UNFILLED) ? u * (d + 2) : V(0, 0);
      for (int s = 0; s < 2; ++s) {
        ld sg = s ? -1 : 1; if (D1 > 0) edge[s].push_back(Hull({a - x, b + x, b + x + nu * (D1 * sg), a - x + nu * (D1 * sg)}));
        if (co == bp::UNFILLED) continue;
        ld t = crs(u, w); if (fabsl(t) < 1e-12L || D1 <= 0 || D2 <= 0) continue;
        bool fillSide = (t > 0) == (s == 1); // the side on which the offset edges part
        if (!fillSide) continue;
        V p1 = b + nu * (D1 * sg), p2 = b + nw * (D2 * sg); ld k = crs(p2 - p1, w) / t; V m = p1 + u * k;
        if (slackD > 0) {
          std::vector<V> h = {b, p1, p2, m};
          if (co == bp::ORTHOGONAL || ro == bp::SQRT1OVER2) { ld R = d + slackD; V lo(std::min(p1.x, p2.x), std::min(p1.y, p2.y)), hi(std::max(p1.x, p2.x), std::max(p1.y, p2.y)); h.push_back(lo); h.push_back(hi); h.push_back(V(lo.x, hi.y)); h.push_back(V(hi.x, lo.y));
            if (ro == bp::SQRT1OVER2) { h.push_back(b + V(R, R)); h.push_back(b + V(-R, R)); h.push_back(b + V(R, -R)); h.push_back(b + V(-R, -R)); } }
          corner[s].push_back(Hull(h));
        } else if (ro <= bp::UNDERSIZE && co == bp::INTERSECTION) corner[s].push_back(Hull({b, p1, m, p2}));
      }
    }
  }
  static bool any(const std::vector<Hull>& v, V p, ld tol) { for (auto& h : v) if (tol > 0 ? h.dist(p) <= tol : h.in(p)) return true; return false; }
  bool any2(V p, ld tol) const { return any(edge[0], p, tol) || any(edge[1], p, tol) || any(corner[0], p, tol) || any(corner[1], p, tol); }
};
inline std::vector<V> samples(Rng& r, const std::vector<Poly>& base, ld d, int n) {
  std::vector<V> o; std::vector<const Ring*> rs; ld x0 = 1e30L, x1 = -1e30L, y0 = 1e30L, y1 = -1e30L;
  for (auto& p : base) { rs.push_back(&p.outer); for (auto& h : p.holes) rs.push_back(&h); for (auto& q : p.outer) { x0 = std::min(x0, (ld)q.x); x1 = std::max(x1, (ld)q.x); y0 = std::min(y0, (ld)q.y); y1 = std::max(y1, (ld)q.y); } }
  auto u01 = [&]() { return (ld)r.below(1 << 20) / (1 << 20); };
  for (int i = 0; i < n; ++i) {
    V p; int k = r.below(8);
    if (k == 0) p = V(x0 - 2 * d - 3 + u01() * (x1 - x0 + 4 * d + 6), y0 - 2 * d - 3 + u01() * (y1 - y0 + 4 * d + 6));
    else { const Ring& q = *rs[r.below((int)rs.size())]; size_t j = r.below((int)q.size()); V a = vp(q[j]), b = vp(q[(j + 1) % q.size()]); V u = b - a; u = u * (1 / len(u)); V nn(-u.y, u.x);
      if (k <= 4) { ld f[4] = {0.5L * u01(), 1 - 4 / (d + 4) * u01(), 1 + 4 / (d + 4) * u01(), 1 + u01()}; p = a + (b - a) * u01() + nn * ((r.chance(1, 2) ? 1 : -1) * d * f[r.below(4)]); }
      else if (k == 5) p = b + V((2 * u01() - 1) * 2.7L * d, (2 * u01() - 1) * 2.7L * d);
      else if (k == 6) { ld ang = u01() * 6.2831853L; p = b + V(cosl(ang), sinl(ang)) * (d * (0.9L + 0.2L * u01())); }
      else p = a + (b - a) * u01() + nn * ((u01() - 0.5L) * 6); }
    p.x = floorl(p.x) + 0.3719L + 0.25L * u01(); p.y = floorl(p.y) + 0.2173L + 0.25L * u01(); o.push_back(p);
  }
  return o;
}
inline i64 spanOf(const std::vector<Poly>& v) { i64 x0 = 1LL << 60, x1 = -x0; for (auto& p : v) for (auto& q : p.outer) { x0 = std::min(x0, std::min(q.x, q.y)); x1 = std::max(x1, std::max(q.x, q.y)); } return v.empty() ? 1 : x1 - x0; }
inline i64 pickD(Rng& r, i64 span) { i64 m = std::max<i64>(2, span); switch (r.below(4)) { case 0: return r.range(1, 4); case 1: return r.range(1, std::min<i64>(40, m)); case 2: return std::max<i64>(1, r.range(1, std::max<i64>(1, m / 12))); default: return std::max<i64>(1, r.range(1, std::max<i64>(1, m / 3))); } }
#if PART <= 1
template <class C> void scene(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S;
  i64 lim = sizeof(C) == 8 ? 1LL << 34 : 1LL << 25; Scene45 sc = genScene45(r, r.chance(1, 4), -lim, lim);
  Items A = genItems45(r, sc, 4, true, r.chance(1, 4)); S s; for (auto& i : A) insertItem45(s, i);
  S cl(s); cl.clean(); std::vector<Poly> base = observe45(cl, 0); for (auto& p : base) { p.outer = dropCollinear(p.outer); for (auto& h : p.holes) h = dropCollinear(h); }
  if (base.empty()) { c.count("empty scenes"); s.resize(3); if (!s.empty()) c.fail("empty", "resizing nothing made something"); return; }
  i64 span = spanOf(base), d = pickD(r, span); if (d > (1 << 24)) d = 1 << 24; if (r.chance(1, 2)) d = -d; int ro = r.chance(1, 2) ? 0 : r.below(5), co = r.chance(1, 2) ? 0 : r.below(3); if (r.chance(1, 40)) d = 0;
  std::string how; c.desc = "d=" + std::to_string(d) + " " + RON[ro] + " " + CON[co] + " A=" + strv(A);
  entry(c, s, d, ro, co, how); c.desc += " via " + how; c.count(("via " + how).c_str());
  std::vector<Poly> out = observe45(s, r.below(4));
  ld ad = (ld)std::llabs(d); bool grow = d > 0;
  if (d == 0) { Arr a; arrOut(a, base, 2); arrOut(a, out, 1); a.nlab = 3; a.finish(); sameArr(c, a, [&](const int* w) { return w[2]; }, [&](const Arr::Cell&, int, int) { return false; }, "zero", [&]() { return " out=" + strv(out); }); return; }
  i64 k = diagK<C>((i64)ad, ro); auto off = [&](V u) -> ld { return fabsl(u.x) > 0.1L && fabsl(u.y) > 0.1L ? (ro == bp::SQRT1OVER2 ? ad / sqrtl(2.0L) : k * sqrtl(2.0L)) : ad; };
  Pieces hi; std::vector<std::pair<const Ring*, Pieces> > lo; ld slack = 1.5L;
  for (auto& p : base) { auto put = [&](const Ring& q) { hi.ring(q, off, co, ro, slack, ad); lo.push_back(std::make_pair(&q, Pieces())); lo.back().second.ring(q, off, co, ro, -slack, ad); }; put(p.outer); for (auto& h : p.holes) put(h); }
  // every ring is offset on its own: grown outlines reach outside them, grown-over holes only shrink
  auto must = [&](V p, int side) { size_t i = 0; for (auto& q : base) { size_t n = 1 + q.holes.size(); bool inO = wind(q.outer, p) != 0, inP = inO; for (auto& h : q.holes) if (wind(h, p)) inP = false;
      for (size_t j = 0; j < n; ++j) { const Pieces& z = lo[i + j].second; bool ok = side == 0 ? inP : j == 0 ? !inO : wind(q.holes[j - 1], p) != 0; if (ok && (Pieces::any(z.edge[side], p, 0) || Pieces::any(z.corner[side], p, 0))) return true; } i += n; } return false; };
  i64 added = 0, removed = 0, kept = 0, out0 = 0;
  for (V p : samples(r, base, ad, c.thorough ? 160 : 80)) {
    bool in = wind(base, p) > 0; int w = wind(out, p); ld db = dBound(base, p);
    if (db < 0.8L) continue; // within the snapping of off-grid corners
    c.count("points judged");
    std::string at = " at (" + sld(p.x) + "," + sld(p.y) + ")";
    if (w != 0 && w != 1) { c.fail("winding", "cover " + std::to_string(w) + at + " out=" + strv(out)); return; }
    if (grow) {
      if (in && !w) { c.fail("grow:lost", "an original point is lost" + at + " out=" + strv(out)); return; }
      if (!in && !w && must(p, 1)) { c.fail("grow:missing", "a point within the offset was not added" + at + " out=" + strv(out)); return; }
      if (!in && w && !hi.any2(p, 1.0L)) { c.fail("grow:excess", "a point beyond the offset was added" + at + " out=" + strv(out)); return; }
      if (!in) ++(w ? added : out0); else ++kept;
    } else {
      if (!in && w) { c.fail("shrink:gain", "a point outside was added" + at + " out=" + strv(out)); return; }
      if (in && w && must(p, 0)) { c.fail("shrink:missing", "a point within the offset was not removed" + at + " out=" + strv(out)); return; }
      if (in && !w && !hi.any2(p, 1.0L)) { c.fail("shrink:excess", "a point beyond the offset was removed" + at + " out=" + strv(out)); return; }
      if (in) ++(w ? kept : removed);
    }
  }
  c.count("points added", added); c.count("points removed", removed); c.count("points kept", kept);
  for (auto& p : out) if (!is45Ring(p.outer)) { c.fail("angle", "output edge is not a multiple of 45 degrees: " + strv(out)); return; }
  if (added + removed > 0) { Hash h; h.add((u64)d); h.add(ro * 3 + co); c.nontrivial(hashPolys(polysOf(A), h)); }
}
// convex octagons: the mitred offset is the intersection of the shifted half planes, exactly
template <class C> void convex(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S;
  i64 lim = sizeof(C) == 8 ? 1LL << 33 : 1LL << 24, m = r.below(3) == 0 ? 12 : r.below(2) ? 300 : 200000;
  i64 cx = r.chance(1, 2) ? 0 : r.range(-lim, lim), cy = r.chance(1, 2) ? 0 : r.range(-lim, lim);
  // extents in x, y, x+y, x-y, tightened until every half plane touches the shape
  i64 w = r.range(2, m), h = r.range(2, m); i64 lo[4] = {0, 0, r.range(0, w + h), r.range(-h, w)}, hi[4] = {w, h, 0, 0};
  if (r.chance(1, 4)) lo[2] = 0; if (r.chance(1, 4)) lo[3] = -h; hi[2] = r.chance(1, 4) ? w + h : r.range(lo[2], w + h); hi[3] = r.chance(1, 4) ? w : r.range(lo[3], w);
  for (int i = 2; i < 4; ++i) { lo[i] = -((-lo[i]) / 2) * 2; hi[i] = hi[i] / 2 * 2; }
  auto build = [&](const i64* L, const i64* H, bool& okI) { // vertices of the intersection of the 8 half planes (doubled coordinates), counterclockwise
    std::vector<std::pair<V, ld> > hp = {{V(0, -1), -(ld)L[1]}, {V(1, -1), (ld)H[3]}, {V(1, 0), (ld)H[0]}, {V(1, 1), (ld)H[2]}, {V(0, 1), (ld)H[1]}, {V(-1, 1), -(ld)L[3]}, {V(-1, 0), -(ld)L[0]}, {V(-1, -1), -(ld)L[2]}};
    std::vector<V> poly = {V(-1e12L, -1e12L), V(1e12L, -1e12L), V(1e12L, 1e12L), V(-1e12L, 1e12L)};
    for (auto& q : hp) { std::vector<V> o; for (size_t i = 0; i < poly.size(); ++i) { V a = poly[i], b = poly[(i + 1) % poly.size()]; ld fa = dot(q.first, a) - q.second, fb = dot(q.first, b) - q.second; if (fa <= 0) o.push_back(a); if ((fa < 0 && fb > 0) || (fa > 0 && fb < 0)) o.push_back(a + (b - a) * (fa / (fa - fb))); } poly = o; }
    Ring q; okI = true; for (auto& p : poly) { P z((i64)roundl(p.x), (i64)roundl(p.y)); if (fabsl(p.x - z.x) > 1e-3L || fabsl(p.y - z.y) > 1e-3L) okI = false; if (q.empty() || q.back() != z) q.push_back(z); } while (q.size() > 1 && q.front() == q.back()) q.pop_back(); return dropCollinear(q); };
  bool okI; Ring q = build(lo, hi, okI); if (q.size() < 3 || area2(q) <= 0 || !okI) { c.count("degenerate octagons skipped"); return; }
  i64 d = pickD(r, std::max(w, h)); bool grow = r.chance(1, 2); int ro = r.below(4); if (sizeof(C) == 8 && r.chance(1, 12)) d = r.range(1LL << 30, 3LL << 32);
  Items A(1); A[0].p.outer = q; A[0].form = 1; mapPoly(A[0].p, [&](P p) { return P(p.x + cx, p.y + cy); }); scramble(r, A[0].p);
  c.desc = std::string(grow ? "grow " : "shrink ") + std::to_string(d) + " " + RON[ro] + " " + strv(A);
  // half planes supported by an edge move; the others stay inactive
  i64 k = diagK<C>(d, ro), sg = grow ? 1 : -1; i64 L[4], H[4]; const i64 big = 1LL << 38; for (int i = 0; i < 4; ++i) { L[i] = -big; H[i] = big; }
  for (size_t i = 0; i < q.size(); ++i) { P a = q[i], b = q[(i + 1) % q.size()]; i64 dx = b.x - a.x, dy = b.y - a.y;
    if (dy == 0) { if (dx > 0) L[1] = a.y - sg * d; else H[1] = a.y + sg * d; } else if (dx == 0) { if (dy > 0) H[0] = a.x + sg * d; else L[0] = a.x - sg * d; }
    else if (dx > 0 && dy > 0) H[3] = a.x - a.y + sg * 2 * k; else if (dx < 0 && dy < 0) L[3] = a.x - a.y - sg * 2 * k; else if (dx < 0) H[2] = a.x + a.y + sg * 2 * k; else L[2] = a.x + a.y - sg * 2 * k; }
  bool okO; Ring e = build(L, H, okO); bool empty = e.size() < 3 || area2(e) <= 0;
  S s; insertItem45(s, A[0]); std::string how; entry(c, s, grow ? d : -d, ro, 0, how); c.desc += " via " + how;
  std::vector<Poly> out = observe45(s, r.below(4)), want; if (!empty) { Poly p; p.outer = e; mapPoly(p, [&](P z) { return P(z.x + cx, z.y + cy); }); want.push_back(p); }
  Arr a; arrOut(a, want, 2); arrOut(a, out, 1); a.nlab = 3; a.finish(); bool exact = grow && okO; i64 thin = std::min(std::min(w, h), std::min(hi[2] - lo[2], hi[3] - lo[3])); if (thin <= 4 * d + 4 || 2 * k < d) exact = false; /* otherwise the inner half of an offset edge shows on the other side */ c.count(exact ? "exact offsets" : "offsets up to rounding"); ld worst = 0;
  std::vector<Poly> ref = want; if (ref.empty()) ref = polysOf(A); i64 tol = 3;
  sameArr(c, a, [&](const int* w) { return w[2] > 0 ? 1 : 0; }, [&](const Arr::Cell& z, int, int) { if (exact) return false; if (want.empty()) return (z.x1 - z.x0) <= tol + 1 || std::max(z.h0 - z.l0, z.h1 - z.l1) <= tol + 1; ld dd = cellReach(z, ref); worst = std::max(worst, dd); return dd <= tol; }, grow ? "convex-grow" : "convex-shrink", [&]() { return " want=" + strv(want) + " out=" + strv(out); });
  Hash hh; hh.add((u64)d); hh.add(ro * 2 + grow); c.nontrivial(hashPolys(polysOf(A), hh));
}
#else
template <class S> void entryG(Ctx& c, S& s, i64 d, bool arc, int n, std::string& how) {
  Rng& r = c.rng; if (arc) { if (r.chance(1, 2)) { how = "member"; s.resize((int)d, true, n); } else { how = "resize"; bp::resize(s, (int)d, true, n); } return; }
  switch (r.below(6)) {
    case 0: how = "member"; s.resize((int)d); return;
    case 1: how = "resize"; bp::resize(s, (int)d); return;
    case 2: how = "bloat/shrink"; if (d >= 0) bp::bloat(s, (unsigned)d); else bp::shrink(s, (unsigned)-d); return;
    case 3: how = "op="; if (d >= 0) s += (int)d; else s -= (int)-d; return;
    case 4: how = "member bloat/shrink"; if (d >= 0) s.bloat((unsigned)d); else s.shrink((unsigned)-d); return;
    default: how = "negated op="; if (d >= 0) s -= (int)-d; else s += (int)d; return;
  }
}
// round corners: Minkowski sum with a regular polygon
template <class C> void roundc(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S;
  SceneG sc = genSceneG(r, 1 << 22); Items A = genItemsG(r, sc, 2, true, false); S s; for (auto& i : A) insertItemGen(s, i);
  S cl(s); cl.clean(); std::vector<Poly> base = observeG(cl, 0); if (base.empty()) { S t(s); t.resize(4, true, 8); if (!bp::empty(t)) c.fail("empty", "resizing nothing made something"); c.count("empty scenes"); return; }
  i64 span = spanOf(base), d = pickD(r, span); d = std::min<i64>(d, 1 << 18); int n = r.chance(1, 4) ? r.below(4) : 3 + r.below(14); int nn = n < 3 ? 4 : n; bool grow = r.chance(1, 2);
  std::string how; c.desc = std::string(grow ? "grow " : "shrink ") + std::to_string(d) + " segments=" + std::to_string(n) + " A=" + strv(A);
  entryG(c, s, grow ? d : -d, true, n, how); c.count(("via " + how).c_str());
  // needles and cracks thinner than the snapping distance may vanish, and with them everything they would have grown into
  bool sliver = false; { std::vector<const Ring*> rs; for (auto& p : base) { rs.push_back(&p.outer); for (auto& h : p.holes) rs.push_back(&h); }
    for (auto* q : rs) for (auto& v : *q) for (auto* z : rs) for (size_t j = 0; j < z->size() && !sliver; ++j) { P a = (*z)[j], b = (*z)[(j + 1) % z->size()]; if (v == a || v == b) continue; if (distSeg((ld)v.x, (ld)v.y, a, b) < 4) sliver = true; } }
  if (sliver) c.count("scenes with slivers");
  std::vector<Poly> out = observeG(s, r.below(4)); ld slack = 5, lo = d * cosl(M_PIl / nn) - slack, hi = d + slack; i64 chg = 0, kept = 0;
  for (V p : samples(r, base, d, c.thorough ? 120 : 60)) {
    bool in = wind(base, p) > 0; int w = wind(out, p); ld db = dBound(base, p); std::string at = " at (" + sld(p.x) + "," + sld(p.y) + ") distance " + sld(db); c.count("points judged");
    if (w < 0 || w > 1) { if (dBound(out, p) > 3) { c.fail("winding", "cover " + std::to_string(w) + at + " out=" + strv(out)); return; } continue; }
    if (grow) {
      if (in && !w && db > slack) { c.fail("round-grow:lost", "an original point is lost" + at + " out=" + strv(out)); return; }
      if (!in && !w && db < lo && !sliver) { c.fail("round-grow:missing", "a point within the offset was not added" + at + " out=" + strv(out)); return; }
      if (!in && w && db > hi) { c.fail("round-grow:excess", "a point beyond the offset was added" + at + " out=" + strv(out)); return; }
      if (!in && w) ++chg; if (in) ++kept;
    } else {
      if (!in && w && db > slack) { c.fail("round-shrink:gain", "a point outside was added" + at + " out=" + strv(out)); return; }
      if (in && w && db < lo && !sliver) { c.fail("round-shrink:missing", "a point within the offset was not removed" + at + " out=" + strv(out)); return; }
      if (in && !w && db > hi) { c.fail("round-shrink:excess", "a point beyond the offset was removed" + at + " out=" + strv(out)); return; }
      if (in && !w) ++chg; if (in && w) ++kept;
    }
  }
  c.count("points changed", chg); c.count("points kept", kept);
  if (chg) { Hash h; h.add((u64)d); h.add(n * 2 + grow); c.nontrivial(hashPolys(polysOf(A), h)); }
}
// mitred corners on large simple shapes: every edge moves out by the distance
template <class C> void mitre(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S;
  Poly p; bool got = false; SceneG sc = genSceneG(r, 1 << 24); if (sc.s < 5000) { sc.s *= 200; for (auto& q : sc.pool) q = P(sc.x0 + r.range(0, sc.s), sc.y0 + r.range(0, sc.s)); }
  for (int t = 0; t < 4 && !got; ++t) { p = genPolyG(r, sc, r.chance(1, 2)); got = area2(p.outer) > (i128)sc.s; }
  if (!got) { c.count("shapes skipped"); return; }
  i64 d = r.chance(1, 4) ? r.range(4, 30) : r.range(4, std::max<i64>(5, sc.s / 20)); bool grow = r.chance(1, 2);
  // ideal offset rings; judged only when no edge reverses or collapses and nothing meets
  Poly ideal; bool ok = true; ld minEdge = 1e30L;
  auto offRing = [&](const Ring& q, ld dd) { // q counterclockwise; outwards by dd
    Ring o; size_t n = q.size(); std::vector<V> v;
    for (size_t i = 0; i < n; ++i) { V a = vp(q[(i + n - 1) % n]), b = vp(q[i]), e = vp(q[(i + 1) % n]); V u = (b - a) * (1 / len(b - a)), w = (e - b) * (1 / len(e - b)); V nu(u.y, -u.x), nw(w.y, -w.x); ld t = crs(u, w); if (fabsl(t) < 0.05L || (dot(u, w) < -0.9L)) { ok = false; t = 1; } V p1 = b + nu * dd, p2 = b + nw * dd; v.push_back(p1 + u * (crs(p2 - p1, w) / t)); }
    for (size_t i = 0; i < n; ++i) { V e0 = vp(q[(i + 1) % n]) - vp(q[i]), e1 = v[(i + 1) % n] - v[i]; if (dot(e0, e1) <= 0) ok = false; minEdge = std::min(minEdge, std::min(len(e0), len(e1))); o.push_back(P((i64)llroundl(v[i].x), (i64)llroundl(v[i].y))); }
    return o; };
  ld dd = grow ? d : -d; ideal.outer = offRing(p.outer, dd); for (auto& h : p.holes) { Ring g2 = h; if (area2(g2) < 0) reverseRing(g2); ideal.holes.push_back(offRing(g2, -dd)); }
  if (ok && minEdge < 12) ok = false;
  std::vector<Ring*> rs; rs.push_back(&ideal.outer); for (auto& h : ideal.holes) rs.push_back(&h);
  for (auto* q : rs) if (ok && (!simpleRing(*q) || area2(*q) <= 0)) ok = false;
  for (size_t i = 0; ok && i < rs.size(); ++i) for (size_t j = i + 1; ok && j < rs.size(); ++j) { if (ringsCross(*rs[i], *rs[j])) ok = false; else if (i == 0 && !strictlyInside(ideal.outer, (*rs[j])[0])) ok = false; else if (i > 0 && (strictlyInside(*rs[i], (*rs[j])[0]) || strictlyInside(*rs[j], (*rs[i])[0]))) ok = false; }
  // rings of the ideal shape stay clear of each other and of themselves by more than rounding
  if (ok) for (auto* q : rs) for (size_t i = 0; ok && i < q->size(); ++i) for (auto* z : rs) for (size_t j = 0; ok && j < z->size(); ++j) { P a = (*z)[j], b = (*z)[(j + 1) % z->size()]; if ((*q)[i] == a || (*q)[i] == b) continue; if (distSeg((ld)(*q)[i].x, (ld)(*q)[i].y, a, b) < 8) ok = false; }
  auto ext = [&](const Ring& q) { i64 x0 = q[0].x, x1 = x0, y0 = q[0].y, y1 = y0; for (auto& z : q) { x0 = std::min(x0, z.x); x1 = std::max(x1, z.x); y0 = std::min(y0, z.y); y1 = std::max(y1, z.y); } return std::min(x1 - x0, y1 - y0); };
  if (ok && !grow && ext(p.outer) <= 2 * d + 2) ok = false; if (ok && grow) for (auto& h : p.holes) if (ext(h) <= 2 * d + 2) ok = false;
  if (!ok) { c.count("shapes skipped"); return; }
  Items A(1); A[0].p = p; A[0].form = p.holes.empty() ? r.below(2) : 0; scramble(r, A[0].p);
  std::string how; c.desc = std::string(grow ? "grow " : "shrink ") + std::to_string(d) + " A=" + strv(A);
  S s; insertItemGen(s, A[0]); entryG(c, s, grow ? d : -d, false, 0, how); c.desc += " via " + how; c.count(("via " + how).c_str());
  std::vector<Poly> out = observeG(s, r.below(4)), want(1, ideal); Arr a; a.poly(ideal, 2, 1); arrOut(a, out, 1); a.nlab = 3; a.finish(); ld worst = 0;
  sameArr(c, a, [&](const int* w) { return w[2] > 0 ? 1 : 0; }, [&](const Arr::Cell& z, int, int) { ld v = cellReach(z, want); worst = std::max(worst, v); return v <= 4; }, grow ? "mitre-grow" : "mitre-shrink", [&]() { return " worst=" + sld(worst) + " want=" + str(ideal) + " out=" + strv(out); });
  c.count("shapes judged"); Hash h; h.add((u64)d); h.add(grow); c.nontrivial(hashPolys(polysOf(A), h));
}
template <class C> void zero(Ctx& c) {
  Rng& r = c.rng; SceneG sc = genSceneG(r, 1 << 28); Items A = genItemsG(r, sc, 3, true, false); bp::polygon_set_data<C> s; for (auto& i : A) insertItemGen(s, i);
  bp::polygon_set_data<C> t(s); std::string how; entryG(c, t, 0, r.chance(1, 2), r.below(9), how); c.desc = "d=0 via " + how + " A=" + strv(A); std::vector<Poly> x = observeG(s, 0), y = observeG(t, 0); // the free functions clean once more
  Arr a; arrOut(a, x, 2); arrOut(a, y, 1); a.nlab = 3; a.finish(); sameArr(c, a, [&](const int* w) { return w[2] > 0 ? 1 : 0; }, [&](const Arr::Cell& z, int, int) { return cellReach(z, x) <= 3; }, "zero", [&]() { return " out=" + strv(y); });
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"scene45-int", [](Ctx& c) { scene<int>(c); }, 40000, 1500000});
  f.push_back({"convex45-int", [](Ctx& c) { convex<int>(c); }, 40000, 1500000});
#elif PART == 1
  f.push_back({"scene45-i64", [](Ctx& c) { scene<long long>(c); }, 20000, 800000});
  f.push_back({"convex45-i64", [](Ctx& c) { convex<long long>(c); }, 20000, 800000});
#else
  f.push_back({"round-int", [](Ctx& c) { roundc<int>(c); }, 5000, 200000});
  f.push_back({"mitre-int", [](Ctx& c) { mitre<int>(c); }, 30000, 900000});
  f.push_back({"zero-int", [](Ctx& c) { zero<int>(c); }, 2000, 60000});
#endif
  return f;
}
}
VF_MAIN()
