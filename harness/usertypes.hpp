// User-defined geometry types for P25/P22: one family mapped through specialised traits with layouts unlike the
// library's, one family that only registers a concept and relies on the default traits.
#ifndef VERIF_USERTYPES_HPP
#define VERIF_USERTYPES_HPP
#include "lib.hpp"
#include <boost/polygon/segment_utils.hpp>
#include <boost/polygon/segment_data.hpp>
#include <deque>
#include <list>
namespace ut { namespace bp = boost::polygon;
template <class C> struct UPoint { C yx[2]; UPoint() { yx[0] = (C)0x5a5a5a5a; yx[1] = (C)-0x5a5a5a5b; } };
template <class C> struct UIval { C end_, begin_; UIval() : end_((C)-77), begin_((C)77) {} };
template <class C> struct URect { C top, left, bottom, right; URect() : top((C)-7), left((C)5), bottom((C)3), right((C)-1) {} };
template <class C> struct USeg { UPoint<C> to, from; };
template <class C, class Tag> struct UPoly { std::list<UPoint<C> > ring; };
template <class C, class Tag> struct UPolyH { std::deque<UPoly<C, Tag> > pits; UPoly<C, Tag> body; };
template <class C> struct UPoly90 { std::list<C> c; };
template <class C> struct UPoly90H { std::list<UPoly90<C> > pits; UPoly90<C> body; };
template <class P> struct USet { std::list<P> items; };
template <class C> boost::polygon::winding_direction wind(const std::list<UPoint<C> >& l) {
  __int128 a = 0; if (l.size() < 3) return boost::polygon::unknown_winding; const UPoint<C>* p = &l.back();
  for (typename std::list<UPoint<C> >::const_iterator i = l.begin(); i != l.end(); ++i) { a += (__int128)p->yx[1] * i->yx[0] - (__int128)i->yx[1] * p->yx[0]; p = &*i; }
  return a > 0 ? boost::polygon::counterclockwise_winding : a < 0 ? boost::polygon::clockwise_winding : boost::polygon::unknown_winding;
}
template <class C> boost::polygon::winding_direction wind90(const std::list<C>& l) {
  std::vector<C> v(l.begin(), l.end()); std::size_t n = v.size(); std::list<UPoint<C> > r; if (n < 4) return boost::polygon::unknown_winding;
  for (std::size_t i = 0; i < n; ++i) { UPoint<C> p; p.yx[1] = i & 1 ? v[(i + 1) % n] : v[i]; p.yx[0] = i & 1 ? v[i] : v[(i + 1) % n]; r.push_back(p); }
  return wind(r);
}
// default-trait family
template <class C> struct DPoint { typedef C coordinate_type; DPoint() : a(1), b(2) {} DPoint(C x, C y) : b(y), a(x) {} C get(boost::polygon::orientation_2d o) const { return o == boost::polygon::HORIZONTAL ? a : b; } void set(boost::polygon::orientation_2d o, C v) { (o == boost::polygon::HORIZONTAL ? a : b) = v; } C b, a; };
template <class C> struct DIval { typedef C coordinate_type; DIval() : a(1), b(2) {} DIval(C x, C y) : b(y < x ? x : y), a(y < x ? y : x) {} C get(boost::polygon::direction_1d d) const { return d == boost::polygon::LOW ? a : b; } void set(boost::polygon::direction_1d d, C v) { if (d == boost::polygon::LOW) { a = v; if (b < v) b = v; } else { b = v; if (v < a) a = v; } } C b, a; };
template <class C> struct DRect { typedef C coordinate_type; typedef DIval<C> interval_type; DRect() {} template <class I, class J> DRect(const I& h_, const J& v_) { set(boost::polygon::HORIZONTAL, h_); set(boost::polygon::VERTICAL, v_); } DIval<C> get(boost::polygon::orientation_2d o) const { return o == boost::polygon::HORIZONTAL ? h : v; } template <class I> void set(boost::polygon::orientation_2d o, const I& i) { (o == boost::polygon::HORIZONTAL ? h : v) = DIval<C>(boost::polygon::interval_traits<I>::get(i, boost::polygon::LOW), boost::polygon::interval_traits<I>::get(i, boost::polygon::HIGH)); } DIval<C> v, h; };
template <class C> struct DSeg { typedef C coordinate_type; typedef DPoint<C> point_type; DSeg() {} DSeg(const DPoint<C>& x, const DPoint<C>& y) : b(y), a(x) {} DPoint<C> get(boost::polygon::direction_1d d) const { return d == boost::polygon::LOW ? a : b; } void set(boost::polygon::direction_1d d, const DPoint<C>& v) { (d == boost::polygon::LOW ? a : b) = v; } DPoint<C> b, a; };
template <class C> void gtl_put(DPoint<C>& d, C x, C y) { d.a = x; d.b = y; }
template <class C, int K> struct DPoly { typedef C coordinate_type; typedef DPoint<C> point_type; typedef typename std::deque<DPoint<C> >::const_iterator iterator_type; iterator_type begin() const { return ring.begin(); } iterator_type end() const { return ring.end(); } std::size_t size() const { return ring.size(); } template <class iT> void set(iT b, iT e) { ring.clear(); for (; b != e; ++b) { ring.push_back(DPoint<C>()); gtl_put(ring.back(), (C)boost::polygon::x(*b), (C)boost::polygon::y(*b)); } } std::deque<DPoint<C> > ring; };
template <class C, int K> struct DPolyH { typedef C coordinate_type; typedef DPoint<C> point_type; typedef typename std::deque<DPoint<C> >::const_iterator iterator_type; typedef DPoly<C, K> hole_type; typedef typename std::list<hole_type>::const_iterator iterator_holes_type; iterator_type begin() const { return body.begin(); } iterator_type end() const { return body.end(); } std::size_t size() const { return body.size(); } template <class iT> void set(iT b, iT e) { body.set(b, e); } iterator_holes_type begin_holes() const { return pits.begin(); } iterator_holes_type end_holes() const { return pits.end(); } std::size_t size_holes() const { return pits.size(); } template <class iT> void set_holes(iT b, iT e) { pits.clear(); for (; b != e; ++b) { pits.push_back(hole_type()); boost::polygon::assign(pits.back(), *b); } } std::list<hole_type> pits; hole_type body; };
template <class C> struct DPoly90 { typedef C coordinate_type; typedef typename std::deque<C>::const_iterator compact_iterator_type; compact_iterator_type begin_compact() const { return c.begin(); } compact_iterator_type end_compact() const { return c.end(); } std::size_t size() const { return c.size(); } template <class iT> void set_compact(iT b, iT e) { c.clear(); for (; b != e; ++b) c.push_back(*b); } std::deque<C> c; };
template <class C> struct DPoly90H { typedef C coordinate_type; typedef DPoly90<C> hole_type; typedef typename std::deque<C>::const_iterator compact_iterator_type; typedef typename std::list<hole_type>::const_iterator iterator_holes_type; compact_iterator_type begin_compact() const { return body.c.begin(); } compact_iterator_type end_compact() const { return body.c.end(); } std::size_t size() const { return body.c.size(); } template <class iT> void set_compact(iT b, iT e) { body.set_compact(b, e); } iterator_holes_type begin_holes() const { return pits.begin(); } iterator_holes_type end_holes() const { return pits.end(); } std::size_t size_holes() const { return pits.size(); } template <class iT> void set_holes(iT b, iT e) { pits.clear(); for (; b != e; ++b) { pits.push_back(hole_type()); boost::polygon::assign(pits.back(), *b); } } std::list<hole_type> pits; hole_type body; };
}
namespace boost { namespace polygon { template <class A, class B> void gtl_assign_point(A& a, const B& b) { point_mutable_traits<A>::set(a, HORIZONTAL, point_traits<B>::get(b, HORIZONTAL)); point_mutable_traits<A>::set(a, VERTICAL, point_traits<B>::get(b, VERTICAL)); } }}
#define UC int
#include "usertypes.inc"
#undef UC
#define UC long long
#include "usertypes.inc"
#undef UC
namespace ut {
// the three families compared with each other
template <class C> struct FamL { typedef bp::point_data<C> point; typedef bp::interval_data<C> ival; typedef bp::rectangle_data<C> rect; typedef bp::segment_data<C> seg;
  typedef bp::polygon_data<C> poly; typedef bp::polygon_with_holes_data<C> polyh; typedef bp::polygon_45_data<C> poly45; typedef bp::polygon_45_with_holes_data<C> poly45h; typedef bp::polygon_90_data<C> poly90; typedef bp::polygon_90_with_holes_data<C> poly90h; };
template <class C> struct FamU { typedef UPoint<C> point; typedef UIval<C> ival; typedef URect<C> rect; typedef USeg<C> seg;
  typedef UPoly<C, bp::polygon_concept> poly; typedef UPolyH<C, bp::polygon_concept> polyh; typedef UPoly<C, bp::polygon_45_concept> poly45; typedef UPolyH<C, bp::polygon_45_concept> poly45h; typedef UPoly90<C> poly90; typedef UPoly90H<C> poly90h; };
template <class C> struct FamD { typedef DPoint<C> point; typedef DIval<C> ival; typedef DRect<C> rect; typedef DSeg<C> seg;
  typedef DPoly<C, 0> poly; typedef DPolyH<C, 0> polyh; typedef DPoly<C, 1> poly45; typedef DPolyH<C, 1> poly45h; typedef DPoly90<C> poly90; typedef DPoly90H<C> poly90h; };
// printing without going through the library's accessors
struct Str {
template <class C> static std::string S(const bp::point_data<C>& p) { return "(" + vf::s128(p.x()) + " " + vf::s128(p.y()) + ")"; }
template <class C> static std::string S(const UPoint<C>& p) { return "(" + vf::s128(p.yx[1]) + " " + vf::s128(p.yx[0]) + ")"; }
template <class C> static std::string S(const DPoint<C>& p) { return "(" + vf::s128(p.a) + " " + vf::s128(p.b) + ")"; }
template <class C> static std::string S2(C a, C b) { return "[" + vf::s128(a) + " " + vf::s128(b) + "]"; }
template <class C> static std::string S(const bp::interval_data<C>& i) { return S2(i.low(), i.high()); }
template <class C> static std::string S(const UIval<C>& i) { return S2(i.begin_, i.end_); }
template <class C> static std::string S(const DIval<C>& i) { return S2(i.a, i.b); }
template <class C> static std::string S(const bp::rectangle_data<C>& r) { return S(r.get(bp::HORIZONTAL)) + S(r.get(bp::VERTICAL)); }
template <class C> static std::string S(const URect<C>& r) { return S2(r.left, r.right) + S2(r.bottom, r.top); }
template <class C> static std::string S(const DRect<C>& r) { return S(r.h) + S(r.v); }
template <class C> static std::string S(const bp::segment_data<C>& s) { return S(s.low()) + ">" + S(s.high()); }
template <class C> static std::string S(const USeg<C>& s) { return S(s.from) + ">" + S(s.to); }
template <class C> static std::string S(const DSeg<C>& s) { return S(s.a) + ">" + S(s.b); }
template <class I> static std::string SR(I b, I e) { std::string o = "{"; for (; b != e; ++b) o += S(*b); return o + "}"; }
template <class I> static std::string SC(I b, I e) { std::string o = "{"; for (; b != e; ++b) o += vf::s128(*b) + " "; return o + "}"; }
template <class C> static std::string S(const bp::polygon_data<C>& p) { return SR(p.begin(), p.end()); }
template <class C> static std::string S(const bp::polygon_45_data<C>& p) { return SR(p.begin(), p.end()); }
template <class C> static std::string S(const bp::polygon_90_data<C>& p) { return SC(p.begin_compact(), p.end_compact()); }
template <class C, class T> static std::string S(const UPoly<C, T>& p) { return SR(p.ring.begin(), p.ring.end()); }
template <class C, int K> static std::string S(const DPoly<C, K>& p) { return SR(p.ring.begin(), p.ring.end()); }
template <class C> static std::string S(const UPoly90<C>& p) { return SC(p.c.begin(), p.c.end()); }
template <class C> static std::string S(const DPoly90<C>& p) { return SC(p.c.begin(), p.c.end()); }
template <class C> static std::string S(const bp::polygon_with_holes_data<C>& p) { return SR(p.begin(), p.end()) + "-" + SR(p.begin_holes(), p.end_holes()); }
template <class C> static std::string S(const bp::polygon_45_with_holes_data<C>& p) { return SR(p.begin(), p.end()) + "-" + SR(p.begin_holes(), p.end_holes()); }
template <class C> static std::string S(const bp::polygon_90_with_holes_data<C>& p) { return SC(p.begin_compact(), p.end_compact()) + "-" + SR(p.begin_holes(), p.end_holes()); }
template <class C, class T> static std::string S(const UPolyH<C, T>& p) { return S(p.body) + "-" + SR(p.pits.begin(), p.pits.end()); }
template <class C, int K> static std::string S(const DPolyH<C, K>& p) { return S(p.body) + "-" + SR(p.pits.begin(), p.pits.end()); }
template <class C> static std::string S(const UPoly90H<C>& p) { return S(p.body) + "-" + SR(p.pits.begin(), p.pits.end()); }
template <class C> static std::string S(const DPoly90H<C>& p) { return S(p.body) + "-" + SR(p.pits.begin(), p.pits.end()); }
template <class T> static std::string S(const std::vector<T>& v) { return SR(v.begin(), v.end()); }
template <class T> static std::string S(const std::list<T>& v) { return SR(v.begin(), v.end()); }
template <class T> static std::string S(const USet<T>& v) { return SR(v.items.begin(), v.items.end()); }
};
template <class T> std::string S(const T& t) { return Str::S(t); }
// log of one run: operation names and what they returned
struct Log { std::vector<std::pair<const char*, std::string> > v;
  void put(const char* n, const std::string& s) { v.push_back(std::make_pair(n, s)); }
  void num(const char* n, long double x) { char b[64]; snprintf(b, sizeof b, "%.21Lg", x); put(n, b); }
  void b(const char* n, bool x) { put(n, x ? "true" : "false"); } };
}
#endif
