// Exact closed-set contact between polygons (no library code).
#ifndef VERIF_TOUCH_HPP
#define VERIF_TOUCH_HPP
#include "sceneg.hpp"
namespace vf {
inline bool inPoly(const Poly& p, P q) { if (!strictlyInside(p.outer, q)) return false; for (auto& h : p.holes) if (strictlyInside(h, q)) return false; return true; }
// closed regions share a point (edges meet, or one lies inside the other)
inline bool contact(const Poly& a, const Poly& b) {
  std::vector<const Ring*> ra(1, &a.outer), rb(1, &b.outer); for (auto& h : a.holes) ra.push_back(&h); for (auto& h : b.holes) rb.push_back(&h);
  for (auto x : ra) for (auto y : rb) if (ringsCross(*x, *y)) return true;
  return inPoly(b, a.outer[0]) || inPoly(a, b.outer[0]);
}
inline bool contact(const std::vector<Poly>& a, const std::vector<Poly>& b) { for (auto& x : a) for (auto& y : b) if (contact(x, y)) return true; return false; }
inline ld gap(const Poly& a, const Poly& b) { // lower bound of the distance between two polygons that do not touch = distance of their boundaries
  ld best = 1e30L; std::vector<const Ring*> ra(1, &a.outer), rb(1, &b.outer); for (auto& h : a.holes) ra.push_back(&h); for (auto& h : b.holes) rb.push_back(&h);
  for (auto x : ra) for (auto y : rb) for (size_t i = 0; i < x->size(); ++i) for (size_t j = 0; j < y->size(); ++j) {
    P p = (*x)[i], q = (*x)[(i + 1) % x->size()], s = (*y)[j], t = (*y)[(j + 1) % y->size()];
    best = std::min(best, std::min(std::min(distSeg((ld)p.x, (ld)p.y, s, t), distSeg((ld)q.x, (ld)q.y, s, t)), std::min(distSeg((ld)s.x, (ld)s.y, p, q), distSeg((ld)t.x, (ld)t.y, p, q)))); }
  return best;
}
inline ld gap(const std::vector<Poly>& a, const std::vector<Poly>& b) { ld m = 1e30L; for (auto& x : a) for (auto& y : b) m = std::min(m, gap(x, y)); return m; }
}
#endif
