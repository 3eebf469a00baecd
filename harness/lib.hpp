// Conversions between the oracle's plain polygons and the library's types.
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP
#include <list>
#include <boost/polygon/polygon.hpp>
#include "geo.hpp"
namespace vf {
namespace bp = boost::polygon;

inline Ring horizFirst(Ring r) { if (r.size() >= 2 && r[0].y != r[1].y) rotateRing(r, 1); return r; }

template <class C> std::vector<bp::point_data<C> > toPts(const Ring& r) {
  std::vector<bp::point_data<C> > v; v.reserve(r.size());
  for (auto& p : r) v.push_back(bp::point_data<C>((C)p.x, (C)p.y));
  return v;
}
template <class C> bp::polygon_90_data<C> to90(const Ring& r0) { Ring r = horizFirst(r0); bp::polygon_90_data<C> p; auto v = toPts<C>(r); p.set(v.begin(), v.end()); return p; }
template <class C> bp::polygon_90_with_holes_data<C> to90h(const Poly& q) {
  bp::polygon_90_with_holes_data<C> p; auto v = toPts<C>(horizFirst(q.outer)); p.set(v.begin(), v.end());
  std::vector<bp::polygon_90_data<C> > hs; for (auto& h : q.holes) hs.push_back(to90<C>(h));
  p.set_holes(hs.begin(), hs.end()); return p;
}
template <class C, class T> T toPolyT(const Ring& r) { T p; auto v = toPts<C>(r); p.set(v.begin(), v.end()); return p; }
template <class C> bp::polygon_45_data<C> to45(const Ring& r) { return toPolyT<C, bp::polygon_45_data<C> >(r); }
template <class C> bp::polygon_data<C> toGen(const Ring& r) { return toPolyT<C, bp::polygon_data<C> >(r); }
template <class C> bp::polygon_45_with_holes_data<C> to45h(const Poly& q) {
  auto p = toPolyT<C, bp::polygon_45_with_holes_data<C> >(q.outer);
  std::vector<bp::polygon_45_data<C> > hs; for (auto& h : q.holes) hs.push_back(to45<C>(h));
  p.set_holes(hs.begin(), hs.end()); return p;
}
template <class C> bp::polygon_with_holes_data<C> toGenh(const Poly& q) {
  auto p = toPolyT<C, bp::polygon_with_holes_data<C> >(q.outer);
  std::vector<bp::polygon_data<C> > hs; for (auto& h : q.holes) hs.push_back(toGen<C>(h));
  p.set_holes(hs.begin(), hs.end()); return p;
}
template <class Pt> P fromPt(const Pt& p) { return P((i64)bp::x(p), (i64)bp::y(p)); }
template <class T> Ring fromRing(const T& p) { Ring r; for (auto it = bp::begin_points(p); it != bp::end_points(p); ++it) r.push_back(fromPt(*it)); return r; }
template <class T> Poly fromH(const T& p) { Poly q; q.outer = fromRing(p); for (auto it = bp::begin_holes(p); it != bp::end_holes(p); ++it) q.holes.push_back(fromRing(*it)); return q; }
template <class T> Poly fromS(const T& p) { Poly q; q.outer = fromRing(p); return q; }
template <class R> Poly fromRect(const R& r) { Poly q; q.outer = rectRing((i64)bp::xl(r), (i64)bp::yl(r), (i64)bp::xh(r), (i64)bp::yh(r)); return q; }
template <class Cont> std::vector<Poly> fromHs(const Cont& c) { std::vector<Poly> v; for (auto& p : c) v.push_back(fromH(p)); return v; }
template <class Cont> std::vector<Poly> fromSs(const Cont& c) { std::vector<Poly> v; for (auto& p : c) v.push_back(fromS(p)); return v; }
template <class Cont> std::vector<Poly> fromRects(const Cont& c) { std::vector<Poly> v; for (auto& p : c) v.push_back(fromRect(p)); return v; }
} // namespace vf
#endif
