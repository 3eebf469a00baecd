// Arbitrary-angle scenes.
#ifndef VERIF_SCENEG_HPP
#define VERIF_SCENEG_HPP
#include "scene45.hpp"
namespace vf {
struct SceneG { i64 x0, y0, s; int mode; std::vector<P> pool; };  // square window [x0,x0+s]x[y0,y0+s]
inline SceneG genSceneG(Rng& r, i64 limit) {
  SceneG s; static const i64 sizes[6] = {6, 12, 30, 200, 5000, 1000000};
  s.s = sizes[r.below(6)]; if (r.chance(1, 12)) s.s = limit / 2;
  s.mode = r.below(3);
  switch (r.below(4)) { case 0: s.x0 = s.y0 = 0; break; case 1: s.x0 = s.y0 = -s.s / 2; break; case 2: s.x0 = r.range(-limit, limit - s.s); s.y0 = r.range(-limit, limit - s.s); break; default: s.x0 = limit - s.s; s.y0 = -limit; }
  int n = 5 + r.below(14); for (int i = 0; i < n; ++i) s.pool.push_back(P(s.x0 + r.range(0, s.s), s.y0 + r.range(0, s.s)));
  return s;
}
inline bool simpleRing(const Ring& q) { // no two edges meet except at shared ring vertices
  int n = (int)q.size();
  auto orient = [](P a, P b, P c) { i128 v = (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); return v > 0 ? 1 : v < 0 ? -1 : 0; };
  auto on = [&](P a, P b, P c) { return orient(a, b, c) == 0 && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y); };
  for (int i = 0; i < n; ++i) { P a = q[i], b = q[(i + 1) % n]; if (a == b) return false;
    for (int j = i + 1; j < n; ++j) { P c = q[j], d = q[(j + 1) % n];
      bool adj = j == i + 1 || (i == 0 && j == n - 1);
      if (adj) { P sh = j == i + 1 ? b : a, u = j == i + 1 ? a : b, v = j == i + 1 ? d : c; if (orient(sh, u, v) == 0 && (i128)(u.x - sh.x) * (v.x - sh.x) + (i128)(u.y - sh.y) * (v.y - sh.y) >= 0) return false; continue; }
      if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return false;
      if (orient(a, b, c) != orient(a, b, d) && orient(c, d, a) != orient(c, d, b)) return false; } }
  return true;
}
inline Ring angSort(std::vector<P> v) { // star-shaped ring around the centroid (exact integer comparison)
  i64 n = (i64)v.size(); i128 sx = 0, sy = 0; for (auto& p : v) { sx += p.x; sy += p.y; }
  auto rel = [&](const P& p) { return std::make_pair((i128)p.x * n - sx, (i128)p.y * n - sy); };
  auto half = [](std::pair<i128, i128> q) { return q.second > 0 || (q.second == 0 && q.first > 0) ? 0 : 1; };
  std::sort(v.begin(), v.end(), [&](const P& a, const P& b) { auto p = rel(a), q = rel(b); int ha = half(p), hb = half(q); if (ha != hb) return ha < hb; ld c = (ld)p.first * (ld)q.second - (ld)p.second * (ld)q.first; if (c != 0) return c > 0; return a < b; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
inline P poolPt(Rng& r, const SceneG& s) { if (s.mode == 2 || (s.mode == 1 && r.chance(1, 2))) return s.pool[r.below((int)s.pool.size())]; return P(s.x0 + r.range(0, s.s), s.y0 + r.range(0, s.s)); }
inline Ring genRingG(Rng& r, const SceneG& s) {
  for (int tries = 0; tries < 30; ++tries) {
    int kind = r.below(6), n = kind == 0 ? 3 : kind == 1 ? 4 : 3 + r.below(9); std::vector<P> v;
    if (kind == 5) { // thin sliver
      P a = poolPt(r, s), b = poolPt(r, s); v.push_back(a); v.push_back(b); v.push_back(P(b.x + r.range(-2, 2), b.y + r.range(-2, 2))); if (r.chance(1, 2)) v.push_back(P(a.x + r.range(-2, 2), a.y + r.range(-2, 2)));
    } else if (kind == 4) { // small feature near a pool point
      P a = poolPt(r, s); for (int i = 0; i < n; ++i) v.push_back(P(a.x + r.range(-4, 4), a.y + r.range(-4, 4)));
    } else for (int i = 0; i < n; ++i) v.push_back(poolPt(r, s));
    for (auto& p : v) { p.x = std::max(s.x0, std::min(s.x0 + s.s, p.x)); p.y = std::max(s.y0, std::min(s.y0 + s.s, p.y)); }
    Ring q = kind == 1 || kind == 5 ? v : angSort(v);
    if (q.size() >= 3 && area2(q) != 0 && simpleRing(q)) { if (area2(q) < 0) reverseRing(q); return q; }
  }
  return rectRing(s.x0, s.y0, s.x0 + s.s, s.y0 + std::max<i64>(1, s.s / 2));
}
inline bool strictlyInside(const Ring& o, P p) { // p strictly inside simple ring o
  bool in = false; size_t n = o.size();
  for (size_t i = 0; i < n; ++i) { P a = o[i], b = o[(i + 1) % n]; i128 v = (i128)(b.x - a.x) * (p.y - a.y) - (i128)(b.y - a.y) * (p.x - a.x);
    if (v == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y)) return false;
    if ((a.y <= p.y) != (b.y <= p.y)) { if (a.y <= p.y ? v > 0 : v < 0) in = !in; } }
  return in;
}
inline bool ringsCross(const Ring& a, const Ring& b) { // any contact at all
  auto orient = [](P a, P b, P c) { i128 v = (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); return v > 0 ? 1 : v < 0 ? -1 : 0; };
  auto on = [&](P p, P q, P c) { return orient(p, q, c) == 0 && std::min(p.x, q.x) <= c.x && c.x <= std::max(p.x, q.x) && std::min(p.y, q.y) <= c.y && c.y <= std::max(p.y, q.y); };
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { P p = a[i], q = a[(i + 1) % a.size()], c = b[j], d = b[(j + 1) % b.size()];
    if (on(p, q, c) || on(p, q, d) || on(c, d, p) || on(c, d, q)) return true;
    if (orient(p, q, c) != orient(p, q, d) && orient(c, d, p) != orient(c, d, q)) return true; }
  return false;
}
inline Poly genPolyG(Rng& r, const SceneG& s, bool holes) {
  Poly p; p.outer = genRingG(r, s);
  if (holes) for (int k = r.below(4); k > 0; --k) {
    i64 x0 = p.outer[0].x, x1 = x0, y0 = p.outer[0].y, y1 = y0; for (auto& q : p.outer) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
    std::vector<P> v; i64 cx = r.range(x0, x1), cy = r.range(y0, y1), d = std::max<i64>(1, std::min(x1 - x0, y1 - y0) / (2 + r.below(4))); int n = 3 + r.below(4);
    for (int i = 0; i < n; ++i) v.push_back(P(cx + r.range(-d, d), cy + r.range(-d, d)));
    Ring h = angSort(v); if (h.size() < 3 || area2(h) == 0 || !simpleRing(h)) continue; if (area2(h) < 0) reverseRing(h);
    bool ok = true; for (auto& q : h) ok = ok && strictlyInside(p.outer, q); ok = ok && !ringsCross(p.outer, h);
    for (auto& g2 : p.holes) ok = ok && !ringsCross(g2, h) && !strictlyInside(g2, h[0]) && !strictlyInside(h, g2[0]);
    if (ok) p.holes.push_back(h);
  }
  return p;
}
inline Items genItemsG(Rng& r, const SceneG& s, int maxItems, bool holes, bool subtract) {
  Items v; int n = r.below(maxItems + 1);
  for (int i = 0; i < n; ++i) { Item it; it.p = genPolyG(r, s, holes && r.chance(1, 2)); scramble(r, it.p); it.form = it.p.holes.size() ? 0 : r.below(2); v.push_back(it); }
  if (subtract) for (size_t i = 0, m = v.size(); i < m; ++i) if (r.chance(1, 3)) { Item it = v[i]; it.hole = true; scramble(r, it.p); v.push_back(it); }
  return v;
}
template <class C> std::vector<Poly> observeG(const bp::polygon_set_data<C>& s, int how) {
  if (how == 0) { std::vector<bp::polygon_with_holes_data<C> > v; s.get(v); return fromHs(v); }
  if (how == 1) { std::vector<bp::polygon_data<C> > v; s.get(v); return fromSs(v); }
  if (how == 2) { std::list<bp::polygon_with_holes_data<C> > v; s.get(v); return fromHs(v); }
  { std::vector<bp::polygon_data<C> > v; bp::assign(v, s); return fromSs(v); }
}
} // namespace vf
#endif
