// Trait specialisations for one coordinate type UC; included once per type by usertypes.hpp.
namespace boost { namespace polygon {
template <> struct geometry_concept<ut::UPoint<UC> > { typedef point_concept type; };
template <> struct point_traits<ut::UPoint<UC> > { typedef ut::UPoint<UC> point_type; typedef UC coordinate_type; static UC get(const ut::UPoint<UC>& p, orientation_2d o) { return o == HORIZONTAL ? p.yx[1] : p.yx[0]; } };
template <> struct point_mutable_traits<ut::UPoint<UC> > { typedef ut::UPoint<UC> point_type; typedef UC coordinate_type; static void set(ut::UPoint<UC>& p, orientation_2d o, UC v) { p.yx[o == HORIZONTAL ? 1 : 0] = v; } static ut::UPoint<UC> construct(UC x, UC y) { ut::UPoint<UC> p; p.yx[0] = y; p.yx[1] = x; return p; } };
template <> struct geometry_concept<ut::UIval<UC> > { typedef interval_concept type; };
template <> struct interval_traits<ut::UIval<UC> > { typedef ut::UIval<UC> interval_type; typedef UC coordinate_type; static UC get(const ut::UIval<UC>& i, direction_1d d) { return d == LOW ? i.begin_ : i.end_; } };
// like the library's own type: setting one end drags the other along
template <> struct interval_mutable_traits<ut::UIval<UC> > { typedef ut::UIval<UC> interval_type; typedef UC coordinate_type; static void set(ut::UIval<UC>& i, direction_1d d, UC v) { if (d == LOW) { i.begin_ = v; if (i.end_ < v) i.end_ = v; } else { i.end_ = v; if (v < i.begin_) i.begin_ = v; } } static ut::UIval<UC> construct(UC l, UC h) { ut::UIval<UC> i; if (h < l) std::swap(l, h); i.begin_ = l; i.end_ = h; return i; } };
template <> struct geometry_concept<ut::URect<UC> > { typedef rectangle_concept type; };
template <> struct rectangle_traits<ut::URect<UC> > { typedef UC coordinate_type; typedef ut::UIval<UC> interval_type; static ut::UIval<UC> get(const ut::URect<UC>& r, orientation_2d o) { ut::UIval<UC> i; i.begin_ = o == HORIZONTAL ? r.left : r.bottom; i.end_ = o == HORIZONTAL ? r.right : r.top; return i; } };
template <> struct rectangle_mutable_traits<ut::URect<UC> > {
  template <class I> static void set(ut::URect<UC>& r, orientation_2d o, const I& i) { if (o == HORIZONTAL) { r.left = interval_traits<I>::get(i, LOW); r.right = interval_traits<I>::get(i, HIGH); } else { r.bottom = interval_traits<I>::get(i, LOW); r.top = interval_traits<I>::get(i, HIGH); } }
  template <class I, class J> static ut::URect<UC> construct(const I& h, const J& v) { ut::URect<UC> r; set(r, HORIZONTAL, h); set(r, VERTICAL, v); return r; } };
template <> struct geometry_concept<ut::USeg<UC> > { typedef segment_concept type; };
template <> struct segment_traits<ut::USeg<UC> > { typedef ut::USeg<UC> segment_type; typedef ut::UPoint<UC> point_type; typedef UC coordinate_type; static point_type get(const ut::USeg<UC>& s, direction_1d d) { return d == LOW ? s.from : s.to; } };
template <> struct segment_mutable_traits<ut::USeg<UC> > { typedef ut::USeg<UC> segment_type; typedef ut::UPoint<UC> point_type; typedef UC coordinate_type; static void set(ut::USeg<UC>& s, direction_1d d, const point_type& p) { (d == LOW ? s.from : s.to) = p; } static ut::USeg<UC> construct(const point_type& a, const point_type& b) { ut::USeg<UC> s; s.from = a; s.to = b; return s; } };
#define UT_POLY(TAG) \
template <> struct geometry_concept<ut::UPoly<UC, TAG> > { typedef TAG type; }; \
template <> struct polygon_traits<ut::UPoly<UC, TAG> > { typedef ut::UPoly<UC, TAG> T; typedef UC coordinate_type; typedef std::list<ut::UPoint<UC> >::const_iterator iterator_type; typedef ut::UPoint<UC> point_type; \
  static iterator_type begin_points(const T& t) { return t.ring.begin(); } static iterator_type end_points(const T& t) { return t.ring.end(); } static std::size_t size(const T& t) { return t.ring.size(); } static winding_direction winding(const T& t) { return ut::wind(t.ring); } }; \
template <> struct polygon_mutable_traits<ut::UPoly<UC, TAG> > { typedef ut::UPoly<UC, TAG> T; template <class iT> static T& set_points(T& t, iT b, iT e) { t.ring.clear(); for (; b != e; ++b) { t.ring.push_back(ut::UPoint<UC>()); gtl_assign_point(t.ring.back(), *b); } return t; } };
#define UT_POLYH(TAG, HTAG) \
template <> struct geometry_concept<ut::UPolyH<UC, TAG> > { typedef HTAG type; }; \
template <> struct polygon_traits<ut::UPolyH<UC, TAG> > { typedef ut::UPolyH<UC, TAG> T; typedef UC coordinate_type; typedef std::list<ut::UPoint<UC> >::const_iterator iterator_type; typedef ut::UPoint<UC> point_type; \
  static iterator_type begin_points(const T& t) { return t.body.ring.begin(); } static iterator_type end_points(const T& t) { return t.body.ring.end(); } static std::size_t size(const T& t) { return t.body.ring.size(); } static winding_direction winding(const T& t) { return ut::wind(t.body.ring); } }; \
template <> struct polygon_mutable_traits<ut::UPolyH<UC, TAG> > { typedef ut::UPolyH<UC, TAG> T; template <class iT> static T& set_points(T& t, iT b, iT e) { polygon_mutable_traits<ut::UPoly<UC, TAG> >::set_points(t.body, b, e); return t; } }; \
template <> struct polygon_with_holes_traits<ut::UPolyH<UC, TAG> > { typedef ut::UPolyH<UC, TAG> T; typedef ut::UPoly<UC, TAG> hole_type; typedef std::deque<hole_type>::const_iterator iterator_holes_type; static iterator_holes_type begin_holes(const T& t) { return t.pits.begin(); } static iterator_holes_type end_holes(const T& t) { return t.pits.end(); } static std::size_t size_holes(const T& t) { return t.pits.size(); } }; \
template <> struct polygon_with_holes_mutable_traits<ut::UPolyH<UC, TAG> > { typedef ut::UPolyH<UC, TAG> T; template <class iT> static T& set_holes(T& t, iT b, iT e) { t.pits.clear(); for (; b != e; ++b) { t.pits.push_back(ut::UPoly<UC, TAG>()); assign(t.pits.back(), *b); } return t; } };
UT_POLY(polygon_concept)
UT_POLY(polygon_45_concept)
UT_POLYH(polygon_concept, polygon_with_holes_concept)
UT_POLYH(polygon_45_concept, polygon_45_with_holes_concept)
#undef UT_POLY
#undef UT_POLYH
template <> struct geometry_concept<ut::UPoly90<UC> > { typedef polygon_90_concept type; };
template <> struct polygon_90_traits<ut::UPoly90<UC> > { typedef ut::UPoly90<UC> T; typedef UC coordinate_type; typedef std::list<UC>::const_iterator compact_iterator_type; static compact_iterator_type begin_compact(const T& t) { return t.c.begin(); } static compact_iterator_type end_compact(const T& t) { return t.c.end(); } static std::size_t size(const T& t) { return t.c.size(); } static winding_direction winding(const T& t) { return ut::wind90(t.c); } };
template <> struct polygon_90_mutable_traits<ut::UPoly90<UC> > { typedef ut::UPoly90<UC> T; template <class iT> static T& set_compact(T& t, iT b, iT e) { t.c.clear(); for (; b != e; ++b) t.c.push_back(*b); return t; } };
template <> struct geometry_concept<ut::UPoly90H<UC> > { typedef polygon_90_with_holes_concept type; };
template <> struct polygon_90_traits<ut::UPoly90H<UC> > { typedef ut::UPoly90H<UC> T; typedef UC coordinate_type; typedef std::list<UC>::const_iterator compact_iterator_type; static compact_iterator_type begin_compact(const T& t) { return t.body.c.begin(); } static compact_iterator_type end_compact(const T& t) { return t.body.c.end(); } static std::size_t size(const T& t) { return t.body.c.size(); } static winding_direction winding(const T& t) { return ut::wind90(t.body.c); } };
template <> struct polygon_90_mutable_traits<ut::UPoly90H<UC> > { typedef ut::UPoly90H<UC> T; template <class iT> static T& set_compact(T& t, iT b, iT e) { polygon_90_mutable_traits<ut::UPoly90<UC> >::set_compact(t.body, b, e); return t; } };
template <> struct polygon_with_holes_traits<ut::UPoly90H<UC> > { typedef ut::UPoly90H<UC> T; typedef ut::UPoly90<UC> hole_type; typedef std::list<hole_type>::const_iterator iterator_holes_type; static iterator_holes_type begin_holes(const T& t) { return t.pits.begin(); } static iterator_holes_type end_holes(const T& t) { return t.pits.end(); } static std::size_t size_holes(const T& t) { return t.pits.size(); } };
template <> struct polygon_with_holes_mutable_traits<ut::UPoly90H<UC> > { typedef ut::UPoly90H<UC> T; template <class iT> static T& set_holes(T& t, iT b, iT e) { t.pits.clear(); for (; b != e; ++b) { t.pits.push_back(ut::UPoly90<UC>()); assign(t.pits.back(), *b); } return t; } };
// polygon sets that are not containers
template <> struct geometry_concept<ut::USet<ut::UPoly90H<UC> > > { typedef polygon_90_set_concept type; };
template <> struct polygon_90_set_traits<ut::USet<ut::UPoly90H<UC> > > { typedef ut::USet<ut::UPoly90H<UC> > T; typedef UC coordinate_type; typedef std::list<ut::UPoly90H<UC> >::const_iterator iterator_type; typedef T operator_arg_type; static iterator_type begin(const T& t) { return t.items.begin(); } static iterator_type end(const T& t) { return t.items.end(); } static orientation_2d orient(const T&) { return VERTICAL; } static bool clean(const T&) { return false; } static bool sorted(const T&) { return false; } };
template <> struct polygon_90_set_mutable_traits<ut::USet<ut::UPoly90H<UC> > > { typedef ut::USet<ut::UPoly90H<UC> > T; template <class iT> static void set(T& t, iT b, iT e, orientation_2d o) { polygon_90_set_data<UC> ps(o); ps.insert(b, e, o); t.items.clear(); ps.get(t.items); } };
template <> struct geometry_concept<ut::USet<ut::UPolyH<UC, polygon_45_concept> > > { typedef polygon_45_set_concept type; };
template <> struct polygon_45_set_traits<ut::USet<ut::UPolyH<UC, polygon_45_concept> > > { typedef ut::USet<ut::UPolyH<UC, polygon_45_concept> > T; typedef UC coordinate_type; typedef std::list<ut::UPolyH<UC, polygon_45_concept> >::const_iterator iterator_type; typedef T operator_arg_type; static iterator_type begin(const T& t) { return t.items.begin(); } static iterator_type end(const T& t) { return t.items.end(); } static bool clean(const T&) { return false; } static bool sorted(const T&) { return false; } };
template <> struct polygon_45_set_mutable_traits<ut::USet<ut::UPolyH<UC, polygon_45_concept> > > { typedef ut::USet<ut::UPolyH<UC, polygon_45_concept> > T; template <class iT> static void set(T& t, iT b, iT e) { polygon_45_set_data<UC> ps; ps.insert(b, e); t.items.clear(); ps.get(t.items); } };
template <> struct geometry_concept<ut::USet<ut::UPolyH<UC, polygon_concept> > > { typedef polygon_set_concept type; };
template <> struct polygon_set_traits<ut::USet<ut::UPolyH<UC, polygon_concept> > > { typedef ut::USet<ut::UPolyH<UC, polygon_concept> > T; typedef UC coordinate_type; typedef std::list<ut::UPolyH<UC, polygon_concept> >::const_iterator iterator_type; typedef T operator_arg_type; static iterator_type begin(const T& t) { return t.items.begin(); } static iterator_type end(const T& t) { return t.items.end(); } static bool clean(const T&) { return false; } static bool sorted(const T&) { return false; } };
template <> struct polygon_set_mutable_traits<ut::USet<ut::UPolyH<UC, polygon_concept> > > { typedef ut::USet<ut::UPolyH<UC, polygon_concept> > T; template <class iT> static void set(T& t, iT b, iT e) { polygon_set_data<UC> ps; ps.insert(b, e); t.items.clear(); ps.get(t.items); } };
// types that only register a concept and rely on the default traits
template <> struct geometry_concept<ut::DPoint<UC> > { typedef point_concept type; };
template <> struct geometry_concept<ut::DIval<UC> > { typedef interval_concept type; };
template <> struct geometry_concept<ut::DRect<UC> > { typedef rectangle_concept type; };
template <> struct geometry_concept<ut::DSeg<UC> > { typedef segment_concept type; };
template <> struct geometry_concept<ut::DPoly<UC, 0> > { typedef polygon_concept type; };
template <> struct geometry_concept<ut::DPoly<UC, 1> > { typedef polygon_45_concept type; };
template <> struct geometry_concept<ut::DPolyH<UC, 0> > { typedef polygon_with_holes_concept type; };
template <> struct geometry_concept<ut::DPolyH<UC, 1> > { typedef polygon_45_with_holes_concept type; };
template <> struct geometry_concept<ut::DPoly90<UC> > { typedef polygon_90_concept type; };
template <> struct geometry_concept<ut::DPoly90H<UC> > { typedef polygon_90_with_holes_concept type; };
}}
