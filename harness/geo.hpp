// Independent geometric oracles and scene generators (no library code here).
#ifndef VERIF_GEO_HPP
#define VERIF_GEO_HPP
#include "common.hpp"
namespace vf {

struct P { i64 x, y; P() : x(0), y(0) {} P(i64 a, i64 b) : x(a), y(b) {}
  bool operator==(const P& o) const { return x == o.x && y == o.y; }
  bool operator!=(const P& o) const { return !(*this == o); }
  bool operator<(const P& o) const { return x < o.x || (x == o.x && y < o.y); } };
typedef std::vector<P> Ring;
struct Poly { Ring outer; std::vector<Ring> holes; };

inline std::string str(const P& p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; }
inline std::string str(const Ring& r) { std::string s = "["; for (auto& p : r) s += str(p); return s + "]"; }
inline std::string str(const Poly& r) { std::string s = str(r.outer); for (auto& h : r.holes) s += "\\" + str(h); return s; }
template <class T> std::string strv(const std::vector<T>& v) { std::string s = "{"; for (auto& p : v) s += str(p) + " "; return s + "}"; }

inline i128 area2(const Ring& r) { i128 a = 0; for (size_t i = 0; i < r.size(); ++i) { const P& p = r[i]; const P& q = r[(i + 1) % r.size()]; a += (i128)p.x * q.y - (i128)q.x * p.y; } return a; }
inline std::string s128(i128 v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; while (u) { s += char('0' + (int)(u % 10)); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }

// ---------------------------------------------------------------- Manhattan raster
struct Grid {
  std::vector<i64> xs, ys;
  size_t nx, ny;
  Grid() : nx(0), ny(0) {}
  void addc(const P& p) { xs.push_back(p.x); ys.push_back(p.y); }
  void addc(const Ring& r) { for (auto& p : r) addc(p); }
  void addc(const Poly& p) { addc(p.outer); for (auto& h : p.holes) addc(h); }
  void addc(const std::vector<Poly>& v) { for (auto& p : v) addc(p); }
  void seal() { std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end()); std::sort(ys.begin(), ys.end()); ys.erase(std::unique(ys.begin(), ys.end()), ys.end()); nx = xs.size() ? xs.size() - 1 : 0; ny = ys.size() ? ys.size() - 1 : 0; }
  size_t xi(i64 x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
  size_t yi(i64 y) const { return std::lower_bound(ys.begin(), ys.end(), y) - ys.begin(); }
};
typedef std::vector<int> W; // winding per cell, index i*ny+j

// Adds mult * winding number (CCW positive) of a closed rectilinear ring. Returns false if not rectilinear.
inline bool addRing(const Grid& g, W& diff, const Ring& r, int mult) {
  for (size_t i = 0; i < r.size(); ++i) {
    const P& p = r[i]; const P& q = r[(i + 1) % r.size()];
    if (p.x != q.x && p.y != q.y) return false;
    if (p.x == q.x && p.y != q.y) {
      size_t a = g.yi(std::min(p.y, q.y)), b = g.yi(std::max(p.y, q.y)), c = g.xi(p.x);
      if (c >= g.nx) continue;
      int s = q.y < p.y ? mult : -mult;
      for (size_t j = a; j < b; ++j) diff[c * g.ny + j] += s;
    }
  }
  return true;
}
inline void integrate(const Grid& g, W& w) { for (size_t i = 1; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) w[i * g.ny + j] += w[(i - 1) * g.ny + j]; }

inline i128 sumArea(const Grid& g, const W& w) { i128 a = 0; for (size_t i = 0; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) if (w[i * g.ny + j]) a += (i128)w[i * g.ny + j] * (i128)(g.xs[i + 1] - g.xs[i]) * (i128)(g.ys[j + 1] - g.ys[j]); return a; }

// The region semantics a user relies on: a polygon covers its ring's winding
// (oriented so that its signed area is positive); holes subtract.
inline int orientSign(const Ring& r) { return area2(r) < 0 ? -1 : 1; }
inline void rasterPoly(const Grid& g, W& diff, const Poly& p, int mult) {
  addRing(g, diff, p.outer, mult * orientSign(p.outer));
  for (auto& h : p.holes) addRing(g, diff, h, -mult * orientSign(h));
}

// ---------------------------------------------------------------- coordinate pools
// A "pool" of n sorted distinct coordinates with varied spacing.
inline std::vector<i64> coordPool(Rng& r, int n, i64 lo, i64 hi) {
  std::set<i64> s;
  if ((u64)hi - (u64)lo < (u64)n) { for (i64 v = lo; v <= hi; ++v) s.insert(v); }
  int guard = 0;
  i64 base = r.range(lo, hi);
  int mode = r.below(4);
  while ((int)s.size() < n && ++guard < 10 * n + 100) {
    i64 v;
    if (mode == 0) v = r.range(lo, hi);
    else if (mode == 1) { i64 d = r.range(0, 3 * n); v = base > hi - d ? hi - d : base + d; if (v < lo) v = lo + d; }
    else if (mode == 2) { v = r.chance(1, 2) ? r.range(lo, hi) : (s.empty() ? base : *s.rbegin() < hi ? *s.rbegin() + 1 : *s.begin() - 1); }
    else { v = r.chance(1, 3) ? lo + (hi - lo >= 2 ? r.below(3) : 0) : r.chance(1, 2) ? hi - (hi - lo >= 2 ? r.below(3) : 0) : r.range(lo, hi); }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    s.insert(v);
  }
  i64 v = lo; while (s.size() < 2) s.insert(v++);
  return std::vector<i64>(s.begin(), s.end());
}

// Trace the boundary of a boolean cell mask (mask[i][j], cells between xs[i],xs[i+1]).
// Returns rings: positive area = outer, negative = hole. Interior on the left.
// turn: at checkerboard vertices pick left (true) or right (false).
inline std::vector<Ring> traceMask(const std::vector<std::vector<char> >& m, const std::vector<i64>& xs, const std::vector<i64>& ys, bool left) {
  int nx = (int)m.size(), ny = nx ? (int)m[0].size() : 0;
  auto at = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny && m[i][j]; };
  // directed edges keyed by start vertex -> dirs bitmask; dir 0=E,1=N,2=W,3=S
  std::vector<std::vector<int> > e(nx + 1, std::vector<int>(ny + 1, 0));
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) if (m[i][j]) {
    if (!at(i, j - 1)) e[i][j] |= 1;          // bottom edge going E
    if (!at(i + 1, j)) e[i + 1][j] |= 2;      // right edge going N
    if (!at(i, j + 1)) e[i + 1][j + 1] |= 4;  // top going W
    if (!at(i - 1, j)) e[i][j + 1] |= 8;      // left going S
  }
  static const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
  std::vector<Ring> out;
  for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) while (e[i][j]) {
    int d = 0; while (!(e[i][j] & (1 << d))) ++d;
    Ring r; int ci = i, cj = j, cd = d;
    do {
      e[ci][cj] &= ~(1 << cd);
      int pi = ci, pj = cj, pd = cd; (void)pi; (void)pj;
      ci += dx[cd]; cj += dy[cd];
      int cand[3] = {left ? (pd + 1) & 3 : (pd + 3) & 3, pd, left ? (pd + 3) & 3 : (pd + 1) & 3};
      int nd = -1;
      for (int k = 0; k < 3; ++k) if (e[ci][cj] & (1 << cand[k])) { nd = cand[k]; break; }
      if (nd < 0) { // closed
        if (d != pd) r.push_back(P(xs[ci], ys[cj]));
        break;
      }
      if (nd != pd) r.push_back(P(xs[ci], ys[cj]));
      cd = nd;
      if (ci == i && cj == j && !(e[ci][cj] & (1 << cd))) break;
    } while (true);
    if (r.size() >= 4) out.push_back(r);
  }
  return out;
}

inline Ring rectRing(i64 x1, i64 y1, i64 x2, i64 y2) { Ring r; r.push_back(P(x1, y1)); r.push_back(P(x2, y1)); r.push_back(P(x2, y2)); r.push_back(P(x1, y2)); return r; }
inline void reverseRing(Ring& r) { std::reverse(r.begin(), r.end()); }
inline void rotateRing(Ring& r, int k) { if (!r.empty()) std::rotate(r.begin(), r.begin() + k % (int)r.size(), r.end()); }
// A rectilinear ring valid as polygon_90 compact input must start with a horizontal edge? keep helper:
inline bool firstEdgeHorizontal(const Ring& r) { return r.size() >= 2 && r[0].y == r[1].y; }

struct SceneOpt { int maxPolys, maxCoords; bool holes, selfX; i64 lo, hi; };

// random Manhattan polygons drawn on the shared coordinate pools
inline Poly genPoly90(Rng& r, const std::vector<i64>& xs, const std::vector<i64>& ys, bool holes, bool selfX) {
  Poly p;
  int kind = r.below(10);
  int nx = (int)xs.size() - 1, ny = (int)ys.size() - 1;
  if (kind < 3 || nx < 2 || ny < 2) {
    int a = r.below(nx), b = a + 1 + r.below(nx - a), c = r.below(ny), d = c + 1 + r.below(ny - c);
    p.outer = rectRing(xs[a], ys[c], xs[b], ys[d]);
  } else if (kind < 9 || !selfX) {
    // random region -> one connected component traced
    std::vector<std::vector<char> > m(nx, std::vector<char>(ny, 0));
    int mode = r.below(3);
    if (mode == 0) { // random walk
      int i = r.below(nx), j = r.below(ny), steps = 1 + r.below(2 * nx * ny + 1);
      for (int k = 0; k < steps; ++k) { m[i][j] = 1; switch (r.below(4)) { case 0: if (i + 1 < nx) ++i; break; case 1: if (i) --i; break; case 2: if (j + 1 < ny) ++j; break; default: if (j) --j; } }
    } else if (mode == 1) { // noise
      int den = 2 + r.below(4);
      for (auto& c : m) for (auto& v : c) v = r.below(den) != 0;
    } else { // union of rectangles minus rectangles
      int k = 1 + r.below(5);
      while (k--) { int a = r.below(nx), b = a + 1 + r.below(nx - a), c = r.below(ny), d = c + 1 + r.below(ny - c); char v = r.below(3) != 0; for (int i = a; i < b; ++i) for (int j = c; j < d; ++j) m[i][j] = v; }
    }
    std::vector<Ring> rings = traceMask(m, xs, ys, r.chance(1, 2));
    // keep the largest-area outer ring and the holes strictly belonging to it (those traced negative and inside its cells)
    int best = -1; i128 ba = 0;
    for (size_t i = 0; i < rings.size(); ++i) { i128 a = area2(rings[i]); if (a > ba) { ba = a; best = (int)i; } }
    if (best < 0) { p.outer = rectRing(xs[0], ys[0], xs[1], ys[1]); return p; }
    p.outer = rings[best];
    if (holes) {
      Grid g; g.xs = xs; g.ys = ys; g.seal();
      W w(g.nx * g.ny, 0); addRing(g, w, p.outer, 1); integrate(g, w);
      for (size_t i = 0; i < rings.size(); ++i) if (area2(rings[i]) < 0) {
        W h(g.nx * g.ny, 0); addRing(g, h, rings[i], -1); integrate(g, h);
        bool in = true; for (size_t k = 0; k < h.size(); ++k) if (h[k] && w[k] != 1) in = false;
        if (in) { p.holes.push_back(rings[i]); for (size_t k = 0; k < h.size(); ++k) w[k] -= h[k]; }
      }
    }
  } else {
    // self-crossing closed rectilinear ring with strictly alternating edges
    for (int tries = 0; tries < 20; ++tries) {
      int n = 2 + r.below(5);
      std::vector<int> a(n), b(n);
      for (int i = 0; i < n; ++i) { a[i] = r.below(nx + 1); b[i] = r.below(ny + 1); }
      bool ok = true;
      for (int i = 0; i < n; ++i) if (a[i] == a[(i + 1) % n] || b[i] == b[(i + 1) % n]) ok = false;
      if (!ok) continue;
      Ring q; for (int i = 0; i < n; ++i) { q.push_back(P(xs[a[i]], ys[b[i]])); q.push_back(P(xs[a[(i + 1) % n]], ys[b[i]])); }
      if (area2(q) == 0) continue;
      p.outer = q; return p;
    }
    p.outer = rectRing(xs[0], ys[0], xs[nx], ys[ny]);
  }
  return p;
}
inline void scrambleRing(Rng& r, Ring& q) { rotateRing(q, r.below((int)q.size() + 1)); if (r.chance(1, 2)) reverseRing(q); }
inline void scramble(Rng& r, Poly& p) { scrambleRing(r, p.outer); for (auto& h : p.holes) scrambleRing(r, h); if (!p.holes.empty()) rotateRing(p.holes[0], 0); }
inline u64 hashPolys(const std::vector<Poly>& v, Hash h = Hash()) { for (auto& p : v) { h.add(1); for (auto& q : p.outer) { h.add((u64)q.x); h.add((u64)q.y); } for (auto& r : p.holes) { h.add(2); for (auto& q : r) { h.add((u64)q.x); h.add((u64)q.y); } } } return h.h; }

} // namespace vf
#endif
