// Slab-sweep oracle for polygons with edges of any slope: between two successive
// event abscissae (vertices and crossings of every ring involved) the edges do
// not cross, so the winding number of every label is constant in each gap and all
// gaps are visited, however thin.
#ifndef VERIF_ARR_HPP
#define VERIF_ARR_HPP
#include "geo.hpp"
namespace vf {
typedef long double ld;
struct ASeg { P a, b; int lab, w; };   // a.x < b.x
struct Arr {
  std::vector<ASeg> s; std::vector<ld> ev; int nlab;
  Arr() : nlab(0) {}
  void edge(const P& p, const P& q, int lab, int mult) {
    if (lab >= nlab) nlab = lab + 1;
    ev.push_back((ld)p.x); ev.push_back((ld)q.x);
    if (p.x == q.x) { return; }
    ASeg t; t.lab = lab;
    if (p.x < q.x) { t.a = p; t.b = q; t.w = mult; } else { t.a = q; t.b = p; t.w = -mult; }
    s.push_back(t);
  }
  void ring(const Ring& r, int lab, int mult) { for (size_t i = 0; i < r.size(); ++i) edge(r[i], r[(i + 1) % r.size()], lab, mult); }
  void poly(const Poly& p, int lab, int mult) { ring(p.outer, lab, mult * orientSign(p.outer)); for (auto& h : p.holes) ring(h, lab, -mult * orientSign(h)); }
  void raw(const Poly& p, int lab, int mult) { ring(p.outer, lab, mult); for (auto& h : p.holes) ring(h, lab, mult); }
  static ld yat(const ASeg& t, ld x) { return (ld)t.a.y + (ld)(t.b.y - t.a.y) * ((x - (ld)t.a.x) / (ld)(t.b.x - t.a.x)); }
  // exact crossing abscissa of two non-parallel segments, if they cross
  void crossings() {
    std::vector<size_t> o(s.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return s[i].a.x < s[j].a.x; });
    for (size_t ii = 0; ii < o.size(); ++ii) for (size_t jj = ii + 1; jj < o.size(); ++jj) {
      const ASeg &p = s[o[ii]], &q = s[o[jj]];
      if (q.a.x >= p.b.x) break;
      if (std::max(p.a.y, p.b.y) < std::min(q.a.y, q.b.y) || std::max(q.a.y, q.b.y) < std::min(p.a.y, p.b.y)) continue;
      i64 pdx = p.b.x - p.a.x, pdy = p.b.y - p.a.y, qdx = q.b.x - q.a.x, qdy = q.b.y - q.a.y;
      i128 den = (i128)pdx * qdy - (i128)pdy * qdx;
      if (den == 0) continue;
      i128 num = (i128)(q.a.x - p.a.x) * qdy - (i128)(q.a.y - p.a.y) * qdx;  // t = num/den along p
      if (den < 0) { den = -den; num = -num; }
      if (num <= 0 || num >= den) continue;
      i128 num2 = (i128)(q.a.x - p.a.x) * pdy - (i128)(q.a.y - p.a.y) * pdx; i128 d2 = (i128)pdx * qdy - (i128)pdy * qdx; if (d2 < 0) num2 = -num2;
      if (num2 < 0 || num2 > den) continue;
      ev.push_back((ld)p.a.x + (ld)pdx * ((ld)num / (ld)den));
    }
  }
  void finish() { crossings(); std::sort(ev.begin(), ev.end()); ld m = ev.empty() ? 0 : std::max(fabsl(ev.front()), fabsl(ev.back())), eps = std::max(1e-9L, m * 1e-17L); std::vector<ld> v; for (ld x : ev) if (v.empty() || x - v.back() > eps) v.push_back(x); ev.swap(v); }
  struct Cell { ld x0, x1, l0, l1, h0, h1; const int* w; ld area() const { return (x1 - x0) * ((h0 - l0) + (h1 - l1)) / 2; } };
  // calls f(cell) for every gap between consecutive edges; w[label] = winding there
  template <class F> void sweep(F f) const {
    std::vector<size_t> act; std::vector<std::pair<ld, size_t> > o; std::vector<int> w(nlab + 1);
    std::vector<size_t> st(s.size()); for (size_t i = 0; i < st.size(); ++i) st[i] = i;
    std::sort(st.begin(), st.end(), [&](size_t i, size_t j) { return s[i].a.x < s[j].a.x; });
    size_t nx = 0;
    for (size_t k = 0; k + 1 < ev.size(); ++k) {
      ld x0 = ev[k], x1 = ev[k + 1], xm = (x0 + x1) / 2;
      while (nx < st.size() && (ld)s[st[nx]].a.x < xm) act.push_back(st[nx++]);
      size_t m = 0; for (size_t i = 0; i < act.size(); ++i) if ((ld)s[act[i]].b.x > xm) act[m++] = act[i];
      act.resize(m);
      o.clear(); for (size_t i : act) o.push_back(std::make_pair(yat(s[i], xm), i));
      std::sort(o.begin(), o.end());
      std::fill(w.begin(), w.end(), 0);
      for (size_t i = 0; i + 1 < o.size(); ++i) {
        w[s[o[i].second].lab] += s[o[i].second].w;
        if (o[i + 1].first - o[i].first < 1e-7L) continue;
        Cell c; c.x0 = x0; c.x1 = x1; const ASeg &lo = s[o[i].second], &hi = s[o[i + 1].second];
        c.l0 = yat(lo, x0); c.l1 = yat(lo, x1); c.h0 = yat(hi, x0); c.h1 = yat(hi, x1); c.w = w.data();
        f(c);
      }
    }
  }
};
inline ld distSeg(ld x, ld y, const P& a, const P& b) {
  ld dx = (ld)(b.x - a.x), dy = (ld)(b.y - a.y), ex = x - (ld)a.x, ey = y - (ld)a.y;
  ld n = dx * dx + dy * dy, t = n > 0 ? (ex * dx + ey * dy) / n : 0; if (t < 0) t = 0; if (t > 1) t = 1;
  ld px = ex - t * dx, py = ey - t * dy; return sqrtl(px * px + py * py);
}
inline ld distRings(ld x, ld y, const std::vector<Poly>& v) {
  ld best = 1e30L;
  auto ring = [&](const Ring& r) { for (size_t i = 0; i < r.size(); ++i) best = std::min(best, distSeg(x, y, r[i], r[(i + 1) % r.size()])); };
  for (auto& p : v) { ring(p.outer); for (auto& h : p.holes) ring(h); }
  return best;
}
inline std::string sld(ld v) { char b[64]; snprintf(b, sizeof b, "%.4Lf", v); return b; }
inline std::string cellStr(const Arr::Cell& c) { return "x[" + sld(c.x0) + "," + sld(c.x1) + "] y[" + sld(c.l0) + ".." + sld(c.h0) + "|" + sld(c.l1) + ".." + sld(c.h1) + "]"; }
// the farthest any sampled point of the cell is from the given rings
inline ld cellReach(const Arr::Cell& c, const std::vector<Poly>& v) {
  ld m = 0; static const ld ts[3] = {0.02L, 0.5L, 0.98L};
  for (ld tx : ts) for (ld ty : ts) { ld x = c.x0 + (c.x1 - c.x0) * tx, l = c.l0 + (c.l1 - c.l0) * tx, h = c.h0 + (c.h1 - c.h0) * tx; m = std::max(m, distRings(x, l + (h - l) * ty, v)); }
  return m;
}
} // namespace vf
#endif
