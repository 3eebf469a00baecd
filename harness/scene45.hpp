// 45-degree scenes: random regions built from quarter-cell triangles, traced into
// polygons with holes, plus hand-shaped convex and self-touching rings.
#ifndef VERIF_SCENE45_HPP
#define VERIF_SCENE45_HPP
#include "arr.hpp"
#include "set90.hpp"
namespace vf {
inline Ring dropCollinear(const Ring& r) {
  Ring q = r; bool again = true;
  while (again && q.size() >= 3) {
    again = false;
    for (size_t i = 0; i < q.size(); ++i) {
      P a = q[(i + q.size() - 1) % q.size()], b = q[i], c = q[(i + 1) % q.size()];
      if ((i128)(b.x - a.x) * (c.y - b.y) == (i128)(b.y - a.y) * (c.x - b.x)) { q.erase(q.begin() + i); again = true; break; }
    }
  }
  return q;
}
// one edge-connected component of a quarter-triangle mask, in doubled coordinates
// t: 0 bottom, 1 right, 2 top, 3 left of cell (i,j)
inline Poly traceTri(const std::vector<char>& m, int nx, int ny, bool left) {
  auto id = [&](int i, int j, int t) { return (i * ny + j) * 4 + t; };
  // biggest edge-connected component
  std::vector<int> comp(m.size(), -1); int nc = 0, best = -1, bs = 0;
  for (size_t s0 = 0; s0 < m.size(); ++s0) if (m[s0] && comp[s0] < 0) {
    std::vector<int> st(1, (int)s0); comp[s0] = nc; int sz = 0;
    while (!st.empty()) {
      int v = st.back(); st.pop_back(); ++sz; int t = v % 4, j = (v / 4) % ny, i = v / 4 / ny;
      int nb[3] = {id(i, j, (t + 1) & 3), id(i, j, (t + 3) & 3), -1};
      if (t == 0 && j > 0) nb[2] = id(i, j - 1, 2); if (t == 2 && j + 1 < ny) nb[2] = id(i, j + 1, 0);
      if (t == 1 && i + 1 < nx) nb[2] = id(i + 1, j, 3); if (t == 3 && i > 0) nb[2] = id(i - 1, j, 1);
      for (int k = 0; k < 3; ++k) if (nb[k] >= 0 && m[nb[k]] && comp[nb[k]] < 0) { comp[nb[k]] = nc; st.push_back(nb[k]); }
    }
    if (sz > bs) { bs = sz; best = nc; }
    ++nc;
  }
  Poly out; if (best < 0) return out;
  std::map<std::pair<P, P>, int> e;
  auto add = [&](P a, P b) { auto it = e.find(std::make_pair(b, a)); if (it != e.end()) e.erase(it); else e[std::make_pair(a, b)] = 1; };
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) {
    P c00(2 * i, 2 * j), c10(2 * i + 2, 2 * j), c11(2 * i + 2, 2 * j + 2), c01(2 * i, 2 * j + 2), cc(2 * i + 1, 2 * j + 1);
    P tri[4][2] = {{c00, c10}, {c10, c11}, {c11, c01}, {c01, c00}};
    for (int t = 0; t < 4; ++t) { int v = id(i, j, t); if (comp[v] == best && m[v]) { add(tri[t][0], tri[t][1]); add(tri[t][1], cc); add(cc, tri[t][0]); } }
  }
  auto dirOf = [](P a, P b) { i64 dx = b.x - a.x, dy = b.y - a.y; int sx = dx > 0 ? 1 : dx < 0 ? -1 : 0, sy = dy > 0 ? 1 : dy < 0 ? -1 : 0; static const int tab[3][3] = {{5, 4, 3}, {6, -1, 2}, {7, 0, 1}}; return tab[sx + 1][sy + 1]; };
  std::map<P, std::vector<P> > nxt; for (auto& k : e) nxt[k.first.first].push_back(k.first.second);
  std::vector<Ring> rings;
  while (true) {
    auto it = nxt.begin(); while (it != nxt.end() && it->second.empty()) ++it;
    if (it == nxt.end()) break;
    P s = it->first, cur = s, to = it->second.back(); it->second.pop_back(); Ring r; P second = to; (void)second;
    r.push_back(s);
    while (true) {
      int din = dirOf(cur, to);
      std::vector<P>& c = nxt[to];
      if (to == s) {
        // close here only if the sharpest choice is the start edge
        int k = -1, bk = 99; for (size_t q = 0; q < c.size(); ++q) { int turn = (dirOf(to, c[q]) - din + 8) % 8; int key = left ? (turn == 0 ? 4 : turn < 4 ? 4 - turn : 12 - turn) : (turn == 0 ? 4 : turn > 4 ? turn - 4 : 4 + turn); if (key < bk) { bk = key; k = (int)q; } }
        int st = (dirOf(s, r.size() > 1 ? r[1] : second) - din + 8) % 8; int sk = left ? (st == 0 ? 4 : st < 4 ? 4 - st : 12 - st) : (st == 0 ? 4 : st > 4 ? st - 4 : 4 + st);
        if (k < 0 || sk <= bk) break;
      }
      r.push_back(to);
      int k = -1, bk = 99;
      for (size_t q = 0; q < c.size(); ++q) { int turn = (dirOf(to, c[q]) - din + 8) % 8; int key = left ? (turn == 0 ? 4 : turn < 4 ? 4 - turn : 12 - turn) : (turn == 0 ? 4 : turn > 4 ? turn - 4 : 4 + turn); if (key < bk) { bk = key; k = (int)q; } }
      if (k < 0) { r.clear(); break; }
      P nx2 = c[k]; c.erase(c.begin() + k); cur = to; to = nx2;
    }
    r = dropCollinear(r);
    if (r.size() >= 3) rings.push_back(r);
  }
  int bo = -1; i128 ba = 0; for (size_t i = 0; i < rings.size(); ++i) { i128 a = area2(rings[i]); if (a > ba) { ba = a; bo = (int)i; } }
  if (bo < 0) return out;
  out.outer = rings[bo];
  int pos = 0; for (auto& r : rings) if (area2(r) > 0) ++pos; else out.holes.push_back(r);
  if (pos != 1) { out.holes.clear(); }
  return out;
}
inline bool allEven(const Poly& p) { auto f = [](const Ring& r) { for (auto& q : r) if ((q.x | q.y) & 1) return false; return true; }; if (!f(p.outer)) return false; for (auto& h : p.holes) if (!f(h)) return false; return true; }
inline void mapPoly(Poly& p, const std::function<P(P)>& f) { for (auto& q : p.outer) q = f(q); for (auto& h : p.holes) for (auto& q : h) q = f(q); }

struct Scene45 { int n; int fine; i64 k, ox, oy; };  // n cells per side; fine: quarter triangles allowed; result = doubled*k/2 + offset
inline Poly genPoly45(Rng& r, const Scene45& s, bool holes) {
  int n = s.n; Poly p;
  int kind = r.below(8);
  if (kind == 0) { int a = r.below(n), b = a + 1 + r.below(n - a), c = r.below(n), d = c + 1 + r.below(n - c); p.outer = rectRing(2 * a, 2 * c, 2 * b, 2 * d); }
  else if (kind <= 2) { // clipped rectangle: up to 8 sides
    int a = r.below(n), b = a + 1 + r.below(n - a), c = r.below(n), d = c + 1 + r.below(n - c);
    int w = b - a, h = d - c, m = std::min(w, h); int k[4]; for (int i = 0; i < 4; ++i) k[i] = r.chance(1, 3) ? 0 : r.below(m + 1);
    for (int i = 0; i < 4; ++i) { int L = (i & 1) ? h : w; if (k[i] + k[(i + 1) & 3] > L) k[(i + 1) & 3] = L - k[i]; }
    if (k[3] + k[0] > h) k[3] = h - k[0]; if (k[3] + k[2] > w) k[2] = std::max(0, w - k[3]); if (k[1] + k[2] > h) k[1] = std::max(0, h - k[2]);
    Ring q; auto push = [&](i64 x, i64 y) { P v(2 * x, 2 * y); if (q.empty() || q.back() != v) q.push_back(v); };
    push(a + k[0], c); push(b - k[1], c); push(b, c + k[1]); push(b, d - k[2]); push(b - k[2], d); push(a + k[3], d); push(a, d - k[3]); push(a, c + k[0]);
    while (q.size() > 1 && q.back() == q.front()) q.pop_back();
    q = dropCollinear(q);
    bool ok = q.size() >= 3 && area2(q) > 0;
    for (size_t i = 0; ok && i < q.size(); ++i) { P u = q[i], v = q[(i + 1) % q.size()]; i64 dx = std::llabs(u.x - v.x), dy = std::llabs(u.y - v.y); if (dx && dy && dx != dy) ok = false; }
    if (ok) p.outer = q; else p.outer = rectRing(2 * a, 2 * c, 2 * b, 2 * d);
  } else {
    std::vector<char> m(n * n * 4, 0);
    int mode = r.below(4);
    bool fine = s.fine && r.chance(2, 3);
    int fam = r.below(3); // 0 '/', 1 '\', 2 mixed
    auto fillRegion = [&](std::function<char(int, int)> f) {
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (fine) for (int t = 0; t < 4; ++t) m[(i * n + j) * 4 + t] = f(i, j);
        else { int d = fam == 2 ? r.below(2) : fam; char u = f(i, j), v = f(i, j); if (r.chance(1, 3)) v = u; int b = (i * n + j) * 4;
          // '/' splits into {bottom,right} and {top,left}; '\' into {bottom,left} and {right,top}
          if (d == 0) { m[b] = m[b + 1] = u; m[b + 2] = m[b + 3] = v; } else { m[b] = m[b + 3] = u; m[b + 1] = m[b + 2] = v; } }
      }
    };
    if (mode == 0) { int den = 2 + r.below(4); fillRegion([&](int, int) { return (char)(r.below(den) != 0); }); }
    else if (mode == 1) { int a = r.below(n), b = a + 1 + r.below(n - a), c = r.below(n), d = c + 1 + r.below(n - c); fillRegion([&](int i, int j) { bool in = i >= a && i < b && j >= c && j < d; return (char)(in ? r.below(6) != 0 : r.below(6) == 0); }); }
    else if (mode == 2) { // half planes intersected (big diagonal features), with a bite
      int k = 2 + r.below(4); std::vector<int> d, v; for (int q = 0; q < k; ++q) { d.push_back(r.below(8)); v.push_back(r.below(2 * n)); }
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int t = 0; t < 4; ++t) {
        // triangle barycentre in sixths
        int bx = 6 * i + 3 + (t == 1 ? 2 : t == 3 ? -2 : 0), by = 6 * j + 3 + (t == 2 ? 2 : t == 0 ? -2 : 0); bool in = true;
        for (int q = 0; q < k; ++q) { int V = 6 * v[q]; bool ok = true; switch (d[q]) { case 0: ok = bx + by >= V - 6 * (n / 2); break; case 1: ok = bx + by <= V + 6 * (n / 2); break; case 2: ok = bx - by >= V - 6 * n - 6 * (n / 2); break; case 3: ok = bx - by <= V - 6 * n + 6 * (n / 2); break; case 4: ok = bx >= V / 12 * 6 - 12; break; case 5: ok = by >= V / 12 * 6 - 12; break; case 6: ok = bx <= V / 12 * 6 + 18; break; default: ok = by <= V / 12 * 6 + 18; }
          if (q == k - 1 && k > 2 && (v[q] & 1)) ok = !ok || r.below(40) == 0; in = in && ok; }
        m[(i * n + j) * 4 + t] = in; }
      if (!s.fine) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { char* b = &m[(i * n + j) * 4]; int c = b[0] + b[1] + b[2] + b[3]; if (c == 1 || c == 3) { b[0] = b[1] = b[2] = b[3] = c == 3; } if (c == 2 && ((b[0] && b[2]) || (b[1] && b[3]))) b[0] = b[1] = b[2] = b[3] = 0; }
    } else { int i = r.below(n), j = r.below(n), t = r.below(4), steps = 1 + r.below(8 * n);
      while (steps--) {
        if (fine) { m[(i * n + j) * 4 + t] = 1; } else { char* b = &m[(i * n + j) * 4]; int d = r.below(4); if (!(b[0] | b[1] | b[2] | b[3])) { b[d] = b[(d + 1) & 3] = 1; } else if (r.chance(1, 2)) b[0] = b[1] = b[2] = b[3] = 1; }
        switch (r.below(3)) { case 0: t = (t + 1) & 3; break; case 1: t = (t + 3) & 3; break; default: if (t == 0 && j) --j, t = 2; else if (t == 2 && j + 1 < n) ++j, t = 0; else if (t == 1 && i + 1 < n) ++i, t = 3; else if (t == 3 && i) --i, t = 1; } } }
    p = traceTri(m, n, n, r.chance(1, 2));
    if (p.outer.size() < 3 || (!s.fine && !allEven(p))) { p = Poly(); int a = r.below(n), c = r.below(n); p.outer = rectRing(2 * a, 2 * c, 2 * a + 2, 2 * c + 2); if (r.chance(1, 2)) p.outer.erase(p.outer.begin() + r.below(4)); }
    if (!holes) p.holes.clear();
  }
  i64 k = s.k;
  mapPoly(p, [&](P q) { return P(q.x * k / 2 + s.ox, q.y * k / 2 + s.oy); });
  return p;
}
// fine scenes use an even scale so that every vertex and crossing is an integer point
inline Scene45 genScene45(Rng& r, bool offgrid, i64 lo, i64 hi) {
  Scene45 s; s.n = 2 + r.below(7); s.fine = !offgrid && r.chance(2, 3); s.k = 1;
  int rg = r.below(6);
  i64 maxk = (hi / 2 - lo / 2) / (s.n + 1);
  if (offgrid) { s.k = 1; if (r.chance(1, 4)) s.k = 2 * r.range(0, std::min<i64>(maxk / 2 - 1, 50)) + 1; }
  else { s.k = 2; if (rg == 0) s.k = 2 * r.range(1, 50); if (rg == 1) s.k = 2 * r.range(1, std::max<i64>(1, maxk / 4)); }
  i64 span = s.k * s.n;
  switch (r.below(5)) {
    case 0: s.ox = s.oy = 0; break;
    case 1: s.ox = -(span / 2); s.oy = -(span / 3); break;
    case 2: s.ox = r.range(lo / 4, hi / 4 - span / 2); s.oy = r.range(lo / 4, hi / 4 - span / 2); break;
    case 3: s.ox = hi / 2 - span - 5 * s.k - 5; s.oy = lo / 2; break;
    default: s.ox = r.range(-30, 30); s.oy = r.range(-30, 30);
  }
  return s;
}
inline Items genItems45(Rng& r, const Scene45& s, int maxItems, bool holes, bool subtract) {
  Items v; int n = r.below(maxItems + 1);
  for (int i = 0; i < n; ++i) { Item it; it.p = genPoly45(r, s, holes && r.chance(2, 3)); scramble(r, it.p); it.form = it.p.holes.size() ? 0 : r.below(2); v.push_back(it); }
  // removals only take away what was inserted before, so that no point is covered a negative number of times
  if (subtract) for (size_t i = 0, m = v.size(); i < m; ++i) if (r.chance(1, 3)) { Item it = v[i]; it.hole = true; scramble(r, it.p); v.push_back(it); }
  return v;
}
template <class C> void insertItem45(bp::polygon_45_set_data<C>& s, const Item& it) { if (it.form == 1) s.insert(to45<C>(it.p.outer), it.hole); else s.insert(to45h<C>(it.p), it.hole); }
template <class C> void insertItemGen(bp::polygon_set_data<C>& s, const Item& it) { if (it.form == 1) s.insert(toGen<C>(it.p.outer), it.hole); else s.insert(toGenh<C>(it.p), it.hole); }
inline void arrItems(Arr& a, const Items& v, int lab) { for (auto& i : v) a.poly(i.p, lab, i.hole ? -1 : 1); if (a.nlab <= lab) a.nlab = lab + 1; }
inline void arrOut(Arr& a, const std::vector<Poly>& v, int lab) { for (auto& p : v) a.raw(p, lab, 1); if (a.nlab <= lab) a.nlab = lab + 1; }
inline std::vector<Poly> polysOf(const Items& v) { std::vector<Poly> o; for (auto& i : v) o.push_back(i.p); return o; }

// unit cells in which a '/' and a '\' edge of the scene cross off the integer grid
inline std::set<P> offCells(const std::vector<Poly>& v) {
  std::vector<std::pair<P, P> > up, dn; std::set<P> s;
  auto ring = [&](const Ring& r) { for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; if (b.x < a.x) std::swap(a, b); if (a.x == b.x || a.y == b.y) continue; (b.y > a.y ? up : dn).push_back(std::make_pair(a, b)); } };
  for (auto& p : v) { ring(p.outer); for (auto& h : p.holes) ring(h); }
  for (auto& u : up) for (auto& d : dn) {
    i64 cu = u.first.y - u.first.x, cd = d.first.y + d.first.x; i64 x2 = cd - cu; // 2x
    if ((x2 & 1) == 0) continue;
    i64 xf = (x2 - 1) / 2; if (x2 < 0 && x2 % 2) xf = (x2 - 1) / 2; // floor for odd: (x2-1)/2 exact
    if (xf < u.first.x || xf + 1 > u.second.x || xf < d.first.x || xf + 1 > d.second.x) continue;
    s.insert(P(xf, xf + cu));
  }
  return s;
}
inline bool is45Ring(const Ring& r) { for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; i64 dx = std::llabs(a.x - b.x), dy = std::llabs(a.y - b.y); if (dx && dy && dx != dy) return false; } return true; }
inline bool boolOp(bool a, bool b, int op) { return op == 0 ? (a || b) : op == 1 ? (a && b) : op == 2 ? (a != b) : (a && !b); }
template <class C> std::vector<Poly> observe45(const bp::polygon_45_set_data<C>& s, int how) {
  if (how == 0) { std::vector<bp::polygon_45_with_holes_data<C> > v; s.get(v); return fromHs(v); }
  if (how == 1) { std::vector<bp::polygon_45_data<C> > v; s.get(v); return fromSs(v); }
  if (how == 2) { std::list<bp::polygon_with_holes_data<C> > v; s.get(v); return fromHs(v); }
  if (how == 3) { std::vector<bp::polygon_data<C> > v; s.get(v); return fromSs(v); }
  if (how == 4) { std::vector<bp::polygon_45_with_holes_data<C> > v; s.get_polygons_with_holes(v); return fromHs(v); }
  { std::vector<bp::polygon_45_data<C> > v; s.get_polygons(v); return fromSs(v); }
}
// Compare output (label 1, raw winding) with expectation over input labels; `allowed(cell)` may excuse a mismatch.
// want(w) gives the expected cover for the windings of labels >= 2 (w points at label 0).
template <class Want, class Allow> bool sameArr(Ctx& c, const Arr& a, Want want, Allow allowed, const char* key, const std::function<std::string()>& extra) {
  i64 n = 0; bool ok = true;
  a.sweep([&](const Arr::Cell& q) {
    ++n; if (!ok) return;
    int e = want(q.w), g2 = q.w[1];
    if (e != g2 && q.area() > 1e-6L && !allowed(q, e, g2)) { ok = false; c.fail(std::string(key) + ":region", "cell " + cellStr(q) + " expected cover " + std::to_string(e) + " got winding " + std::to_string(g2) + extra()); }
  });
  c.count("region comparisons"); c.count("cells compared", n);
  return ok;
}
} // namespace vf
#endif
