// Shared scene building / observation for Manhattan polygon sets.
#ifndef VERIF_SET90_HPP
#define VERIF_SET90_HPP
#include "lib.hpp"
namespace vf {

struct Item { Poly p; bool hole; int form; Item() : hole(false), form(0) {} };  // form: 0 with_holes,1 polygon_90 (no holes),2 rectangle,3 45_with_holes,4 general with holes
typedef std::vector<Item> Items;
inline std::string str(const Item& i) { return std::string(i.hole ? "-" : "+") + str(i.p); }
inline bool isRect(const Poly& p) {
  if (p.holes.size() || p.outer.size() != 4) return false;
  return true;
}
template <class C> bp::rectangle_data<C> toRect(const Ring& r) {
  i64 x1 = r[0].x, x2 = r[0].x, y1 = r[0].y, y2 = r[0].y;
  for (auto& p : r) { x1 = std::min(x1, p.x); x2 = std::max(x2, p.x); y1 = std::min(y1, p.y); y2 = std::max(y2, p.y); }
  return bp::rectangle_data<C>((C)x1, (C)y1, (C)x2, (C)y2);
}
struct Range { i64 lo, hi; const char* name; };
inline Range pickRange(Rng& r, i64 cmin, i64 cmax, bool full) {
  switch (r.below(full ? 7 : 6)) {
    case 0: { Range q = {0, 8, "tiny"}; return q; }
    case 1: { Range q = {-6, 7, "tinyneg"}; return q; }
    case 2: { Range q = {-50, 60, "small"}; return q; }
    case 3: { Range q = {-100000, 100000, "mid"}; return q; }
    case 4: { Range q = {cmax / 2 - 30, cmax / 2, "highhalf"}; return q; }
    case 5: { Range q = {cmin / 2, cmin / 2 + 30, "lowhalf"}; return q; }
    default: { Range q = {cmin / 2, cmax / 2, "wide"}; return q; }
  }
}
struct Scene { std::vector<i64> xs, ys; };
inline Scene genScene(Rng& r, Range q, int maxn) {
  Scene s; int n = 2 + r.below(maxn - 1), m = 2 + r.below(maxn - 1);
  s.xs = coordPool(r, n, q.lo, q.hi); s.ys = coordPool(r, m, q.lo, q.hi); return s;
}
inline Items genItems(Rng& r, const Scene& s, int maxItems, bool holesAllowed, bool subtract, bool selfX) {
  Items v; int n = r.below(maxItems + 1);
  for (int i = 0; i < n; ++i) {
    Item it; it.p = genPoly90(r, s.xs, s.ys, holesAllowed && r.chance(2, 3), selfX);
    scramble(r, it.p);
    it.hole = subtract && r.chance(1, 5);
    it.form = it.p.holes.size() ? 0 : r.below(2);
    if (isRect(it.p) && r.chance(1, 2)) it.form = 2;
    v.push_back(it);
  }
  return v;
}
inline void addc(Grid& g, const Items& v) { for (auto& i : v) g.addc(i.p); }
inline W rasterItems(const Grid& g, const Items& v) { W w(g.nx * g.ny, 0); for (auto& i : v) rasterPoly(g, w, i.p, i.hole ? -1 : 1); integrate(g, w); return w; }

template <class C> void insertItem(bp::polygon_90_set_data<C>& s, const Item& it) {
  if (it.form == 2) s.insert(toRect<C>(it.p.outer), it.hole);
  else if (it.form == 1) s.insert(to90<C>(it.p.outer), it.hole);
  else s.insert(to90h<C>(it.p), it.hole);
}
// Rasterise output polygons (must already be correctly oriented): CCW outers, CW holes, raw winding.
inline bool rasterOut(const Grid& g, W& w, const std::vector<Poly>& out, std::string& why) {
  w.assign(g.nx * g.ny, 0);
  for (auto& p : out) {
    if (!addRing(g, w, p.outer, 1)) { why = "output ring has a non-Manhattan edge: " + str(p.outer); return false; }
    for (auto& h : p.holes) if (!addRing(g, w, h, 1)) { why = "output hole has a non-Manhattan edge: " + str(h); return false; }
  }
  integrate(g, w);
  return true;
}
// Compare: `want` predicate per cell on the oracle grid g (already sealed with the inputs);
// the output may only use coordinates of the grid.
inline bool onGrid(const Grid& g, const std::vector<Poly>& out) {
  auto chk = [&](const Ring& r) { for (auto& p : r) { if (!std::binary_search(g.xs.begin(), g.xs.end(), p.x)) return false; if (!std::binary_search(g.ys.begin(), g.ys.end(), p.y)) return false; } return true; };
  for (auto& p : out) { if (!chk(p.outer)) return false; for (auto& h : p.holes) if (!chk(h)) return false; }
  return true;
}
inline bool sameRegion(Ctx& c, const Grid& g, const W& want, const std::vector<Poly>& out, const char* key, const std::string& extra = "") {
  c.count("region comparisons"); c.count("cells compared", (i64)want.size());
  if (!onGrid(g, out)) { c.fail(std::string(key) + ":coords", "output uses coordinates that no input has: " + strv(out) + extra); return false; }
  W w; std::string why;
  if (!rasterOut(g, w, out, why)) { c.fail(std::string(key) + ":shape", why + extra); return false; }
  for (size_t i = 0; i < g.nx; ++i) for (size_t j = 0; j < g.ny; ++j) {
    int a = want[i * g.ny + j], b = w[i * g.ny + j];
    if (a != b) {
      c.fail(std::string(key) + ":region", "cell x[" + std::to_string(g.xs[i]) + "," + std::to_string(g.xs[i + 1]) + "] y[" + std::to_string(g.ys[j]) + "," + std::to_string(g.ys[j + 1]) + "] expected cover " + std::to_string(a) + " got winding " + std::to_string(b) + " output=" + strv(out) + extra);
      return false;
    }
  }
  return true;
}
inline W positive(const W& a) { W r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = a[i] > 0; return r; }
// op: 0 or 1 and 2 xor 3 sub
inline W boolW(const W& a, const W& b, int op) {
  W r(a.size());
  for (size_t i = 0; i < a.size(); ++i) { bool x = a[i] > 0, y = b[i] > 0; r[i] = op == 0 ? (x || y) : op == 1 ? (x && y) : op == 2 ? (x != y) : (x && !y); }
  return r;
}
// Observe a polygon_90_set_data through one of its output paths.
template <class C> std::vector<Poly> observe90(const bp::polygon_90_set_data<C>& s, int how) {
  if (how == 0) { std::vector<bp::polygon_90_with_holes_data<C> > v; s.get(v); return fromHs(v); }
  if (how == 1) { std::vector<bp::rectangle_data<C> > v; s.get(v); return fromRects(v); }
  if (how == 2) { std::list<bp::polygon_90_data<C> > v; s.get(v); return fromSs(v); }
  if (how == 3) { std::vector<bp::rectangle_data<C> > v; bp::get_rectangles(v, s); return fromRects(v); }
  { std::vector<bp::polygon_90_data<C> > v; s.get_polygons(v); return fromSs(v); }
}
} // namespace vf
#endif
