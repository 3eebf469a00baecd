From 627effd90a8adb389c2272e0224d02591061276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 01/61] fix: wind hole-less polygons of a polygon_90_set
 counterclockwise

Polygons without hole support were written out through the proxy used for
holes and so came out clockwise, although get() documents counterclockwise
winding for polygons.
---
 .../polygon/detail/polygon_formation.hpp      | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_formation.hpp b/include/boost/polygon/detail/polygon_formation.hpp
index f4c0d70..e89ab6b 100644
--- a/include/boost/polygon/detail/polygon_formation.hpp
+++ b/include/boost/polygon/detail/polygon_formation.hpp
@@ -615,7 +615,21 @@ namespace polygon_formation {
     inline std::size_t size() const {
        return p_->getPolyLineSize();
     }
-    inline ActiveTail<Unit>* yield() { return p_; }
+    inline ActiveTail<Unit>* yield() const { return p_; }
+  };
+
+  //same as hole data, but wound counterclockwise as the boundary of a
+  //polygon must be
+  template<bool orientT, typename Unit>
+  class PolyLineSimplePolygonData : public PolyLineHoleData<orientT, Unit> {
+  public:
+    typedef typename PolyLineHoleData<orientT, Unit>::compact_iterator_type compact_iterator_type;
+    typedef typename PolyLineHoleData<orientT, Unit>::iterator_type iterator_type;
+    inline PolyLineSimplePolygonData() : PolyLineHoleData<orientT, Unit>() {}
+    inline PolyLineSimplePolygonData(ActiveTail<Unit>* p) : PolyLineHoleData<orientT, Unit>(p) {}
+    //use default copy and assign
+    inline compact_iterator_type begin_compact() const { return this->yield()->begin(false, (orientT ? VERTICAL : HORIZONTAL)); }
+    inline iterator_type begin() const { return iterator_type(begin_compact(), this->end_compact()); }
   };
 
   template<bool orientT, typename Unit>
@@ -679,11 +693,11 @@ namespace polygon_formation {
   template <bool orientT, typename Unit>
   struct PolyLineType<orientT, Unit, polygon_with_holes_concept> { typedef PolyLinePolygonWithHolesData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_90_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_90_concept> { typedef PolyLineSimplePolygonData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_45_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_45_concept> { typedef PolyLineSimplePolygonData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_concept> { typedef PolyLineSimplePolygonData<orientT, Unit> type; };
 
   template <bool orientT, typename Unit, typename polygon_concept_type>
   class ScanLineToPolygonItrs {
@@ -2191,6 +2205,10 @@ namespace polygon_formation {
   struct geometry_concept<polygon_formation::PolyLineHoleData<orientT, Unit> > {
     typedef polygon_90_concept type;
   };
+  template <bool orientT, typename Unit>
+  struct geometry_concept<polygon_formation::PolyLineSimplePolygonData<orientT, Unit> > {
+    typedef polygon_90_concept type;
+  };
 
   //public API to access polygon formation algorithm
   template <typename output_container, typename iterator_type, typename concept_type>
-- 
2.43.0


From 734f59fbb0cee25534ca46310eee80be3fa9f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 02/61] fix: honour the right operand's orientation in 90 set
 views

A boolean operator whose left operand is not a polygon_90_set_data read the
vertices of a polygon_90_set_data right operand as if they were stored in
the orientation of the result, giving wrong results for a right operand
scanned in the other orientation.
---
 .../polygon/detail/polygon_90_set_view.hpp    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 7e93b03..3ad7fd0 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -109,13 +109,20 @@ namespace boost { namespace polygon{
                  const polygon_90_set_data<rcoord>& rvalue_, orientation_2d orient_) {
         value_type linput_(orient_);
         orientation_2d orient_l = polygon_90_set_traits<ltype>::orient(lvalue_);
+        orientation_2d orient_r = rvalue_.orient();
         insert_into_view_arg(linput_, lvalue_, orient_l);
-        rvalue_.sort();
-        //std::cout << "compute_90_set_value-3 orientations (left, out):\t" << orient_l.to_int()
-        //          << "," << orient_.to_int() << std::endl;
-
-        output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
-                                     rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
+        //std::cout << "compute_90_set_value-3 orientations (left, right, out):\t" << orient_l.to_int()
+        //          << "," << orient_r.to_int() << "," << orient_.to_int() << std::endl;
+        if(orient_ == orient_r) {
+          rvalue_.sort();
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
+        } else { // right hand side orientation is different
+          value_type rinput_(orient_);
+          insert_into_view_arg(rinput_, rvalue_, orient_r);
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rinput_.begin(), rinput_.end(), boolean_op::BinaryCount<op_type>());
+        }
       }
     };
 
-- 
2.43.0


From cdcc387cce251d31528f58950955146cce5a96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 03/61] fix: make polygon_90_set_data's orientation-converting
 copy compile

polygon_90_set_data(orientation_2d, const polygon_90_set_data&) is documented
but instantiated the geometry insert for a polygon set, which does not exist.
---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2c640bf..8e8bf59 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -63,7 +63,7 @@ namespace boost { namespace polygon{
     // copy with orientation change constructor
     inline polygon_90_set_data(orientation_2d orient, const polygon_90_set_data& that) :
       orient_(orient), data_(), dirty_(false), unsorted_(false) {
-      insert(that, false, that.orient_);
+      insert(that.begin(), that.end(), that.orient_);
     }
 
     // destructor
-- 
2.43.0


From e92a90d5c2756dfd86d484d3fb300d4468c752ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 04/61] fix: honour the orientation given to
 polygon_90_set_data's range constructor

The constructor is documented to set the scanning orientation but ignored its
argument and always built a HORIZONTAL set.
---
 include/boost/polygon/polygon_90_set_data.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 8e8bf59..49b0741 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -46,11 +46,11 @@ namespace boost { namespace polygon{
 
     // constructor from an iterator pair over vertex data
     template <typename iT>
-    inline polygon_90_set_data(orientation_2d, iT input_begin, iT input_end) :
-      orient_(HORIZONTAL), data_(), dirty_(false), unsorted_(false) {
+    inline polygon_90_set_data(orientation_2d orient, iT input_begin, iT input_end) :
+      orient_(orient), data_(), dirty_(false), unsorted_(false) {
       dirty_ = true;
       unsorted_ = true;
-      for( ; input_begin != input_end; ++input_begin) { insert(*input_begin); }
+      for( ; input_begin != input_end; ++input_begin) { insert(*input_begin, false, orient); }
     }
 
     // copy constructor
-- 
2.43.0


From effa6941c71d564d553b5d3afbb1e4a53ad9b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 05/61] fix: compare 90 sets of different scanning orientation
 by their geometry

Equality (and equivalence()) of two sets covering the same region was false
whenever their scanning orientations differed.
---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 49b0741..5e90519 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -203,7 +203,7 @@ namespace boost { namespace polygon{
         p.clean();
         return data_ == p.data_;
       } else {
-        return false;
+        return *this == polygon_90_set_data(orient_, p);
       }
     }
 
-- 
2.43.0


From 786a5699038f5cbf9f5e09305e3a0e8ba56e00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 06/61] fix: scale y by the vertical component of
 anisotropic_scale_factor

---
 include/boost/polygon/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 1bb0cd9..195393b 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -329,7 +329,7 @@ class anisotropic_scale_factor {
     x = scaling_policy<coordinate_type>::round(
         (scale_factor_type)x * get(HORIZONTAL));
     y = scaling_policy<coordinate_type>::round(
-        (scale_factor_type)y * get(HORIZONTAL));
+        (scale_factor_type)y * get(VERTICAL));
   }
 
   // invert this scale factor to give the reverse scale factor
-- 
2.43.0


From 109b64b59382b0092d1e30616594b0361989eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 07/61] fix: rescan a 90 set after scaling made coordinates
 coincide

scale_down and the floating point scalings can merge coordinates, after which
the stored vertices are no longer in scanned form, but the set still claimed
to be clean: equality, size, emptiness and output were then wrong.
---
 include/boost/polygon/polygon_90_set_data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 5e90519..52101e4 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -727,6 +727,7 @@ namespace boost { namespace polygon{
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) / (dt)factor);
       }
       unsorted_ = true; //scaling down can make coordinates equal that were not previously equal
+      dirty_ = true; //and so edges coincide
       return *this;
     }
     template <typename scaling_type>
@@ -740,6 +741,7 @@ namespace boost { namespace polygon{
         }
       }
       unsorted_ = true;
+      dirty_ = true;
       return *this;
     }
     template <typename scaling_type>
@@ -753,6 +755,7 @@ namespace boost { namespace polygon{
         }
       }
       unsorted_ = true;
+      dirty_ = true;
       return *this;
     }
     polygon_90_set_data& scale(double factor) {
@@ -763,6 +766,7 @@ namespace boost { namespace polygon{
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) * (dt)factor);
       }
       unsorted_ = true; //scaling make coordinates equal that were not previously equal
+      dirty_ = true; //and so edges coincide
       return *this;
     }
 
-- 
2.43.0


From a829550ca8929ae67059f8685110c431aabe89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 08/61] fix: keep a 45 set's error data through chained and
 repeated booleans

---
 .../polygon/detail/polygon_45_set_view.hpp    | 24 ++++++++++++++-----
 include/boost/polygon/polygon_45_set_data.hpp |  4 ++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_set_view.hpp b/include/boost/polygon/detail/polygon_45_set_view.hpp
index a0dc046..0466f61 100644
--- a/include/boost/polygon/detail/polygon_45_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_45_set_view.hpp
@@ -29,15 +29,28 @@ namespace boost { namespace polygon{
 
   };
 
+  //load an operand, keeping its record of non-integer intersections if it has one
+  template <typename value_type, typename geometry_type>
+  void load_45_set_operand(value_type& output_, const geometry_type& operand_) {
+    output_.set(polygon_45_set_traits<geometry_type>::begin(operand_),
+                polygon_45_set_traits<geometry_type>::end(operand_));
+  }
+  template <typename value_type, typename coord>
+  void load_45_set_operand(value_type& output_, const polygon_45_set_data<coord>& operand_) {
+    output_ = operand_;
+  }
+  template <typename value_type, typename ltype, typename rtype, int op_type>
+  void load_45_set_operand(value_type& output_, const polygon_45_set_view<ltype, rtype, op_type>& operand_) {
+    output_ = operand_.value();
+  }
+
   template <typename value_type, typename ltype, typename rtype, int op_type>
   struct compute_45_set_value {
     static
     void value(value_type& output_, const ltype& lvalue_, const rtype& rvalue_) {
-      output_.set(polygon_45_set_traits<ltype>::begin(lvalue_),
-                  polygon_45_set_traits<ltype>::end(lvalue_));
+      load_45_set_operand(output_, lvalue_);
       value_type rinput_;
-      rinput_.set(polygon_45_set_traits<rtype>::begin(rvalue_),
-                  polygon_45_set_traits<rtype>::end(rvalue_));
+      load_45_set_operand(rinput_, rvalue_);
 #ifdef BOOST_POLYGON_MSVC
 #pragma warning (push)
 #pragma warning (disable: 4127)
@@ -60,8 +73,7 @@ namespace boost { namespace polygon{
   struct compute_45_set_value<value_type, ltype, polygon_45_set_data<rcoord>, op_type> {
     static
     void value(value_type& output_, const ltype& lvalue_, const polygon_45_set_data<rcoord>& rvalue_) {
-      output_.set(polygon_45_set_traits<ltype>::begin(lvalue_),
-                  polygon_45_set_traits<ltype>::end(lvalue_));
+      load_45_set_operand(output_, lvalue_);
 #ifdef BOOST_POLYGON_MSVC
 #pragma warning (push)
 #pragma warning (disable: 4127)
diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 97585f6..35e6838 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1583,7 +1583,7 @@ namespace boost { namespace polygon{
       } catch (std::string str) {
         std::string msg = "GTL 45 Boolean error, precision insufficient to represent edge intersection coordinate value.";
         if(str == msg) {
-          result.clear();
+          result.data_.clear(); //keep the error data of the operands
           typedef typename coordinate_traits<Unit>::manhattan_area_type Unit2;
           typedef typename polygon_45_formation<Unit2>::Vertex45Compact Vertex45Compact2;
           typedef std::vector<Vertex45Compact2> Data2;
@@ -1704,7 +1704,7 @@ namespace boost { namespace polygon{
       } catch (std::string str) {
         std::string msg = "GTL 45 Boolean error, precision insufficient to represent edge intersection coordinate value.";
         if(str == msg) {
-          result.clear();
+          result.data_.clear(); //keep the error data of the operands
           typedef typename coordinate_traits<Unit>::manhattan_area_type Unit2;
           typedef typename polygon_45_formation<Unit2>::Vertex45Compact Vertex45Compact2;
           typedef std::vector<Vertex45Compact2> Data2;
-- 
2.43.0


From 1acb1ede2df587707861a4b693216855a6a8004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 09/61] fix: mark the set filled by
 polygon_45_set_data::get_error_data as unsorted

---
 include/boost/polygon/polygon_45_set_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 35e6838..0762b51 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -156,6 +156,8 @@ namespace boost { namespace polygon{
     inline std::size_t error_count() const { return error_data_.size() / 4; }
     inline void get_error_data(polygon_45_set_data& p) const {
       p.data_.insert(p.data_.end(), error_data_.begin(), error_data_.end());
+      p.dirty_ = true;
+      p.unsorted_ = true;
     }
 
     // equivalence operator
-- 
2.43.0


From a5f218bf34f720c9a564f45ad7cd1dc3f543b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 10/61] fix: keep polygons of a 90 set within an odd vertex
 limit

---
 include/boost/polygon/detail/polygon_formation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/polygon/detail/polygon_formation.hpp b/include/boost/polygon/detail/polygon_formation.hpp
index e89ab6b..834f1a4 100644
--- a/include/boost/polygon/detail/polygon_formation.hpp
+++ b/include/boost/polygon/detail/polygon_formation.hpp
@@ -1896,6 +1896,9 @@ namespace polygon_formation {
       const std::vector<interval_data<Unit> >& r, size_t vertexThreshold) {
 
       clearOutput_();
+      //a Manhattan polygon has an even number of vertices, an odd threshold
+      //must not be exceeded by one
+      vertexThreshold -= vertexThreshold % 2;
       if(!l.empty()){
          updatePartialSimplePolygonsWithLeftEdges(currentX, l, vertexThreshold);
       }
-- 
2.43.0


From 60455a815aa437466693126009a552a445609a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 11/61] fix: compare 45 sets by their merged vertices, not by
 how they were built

---
 include/boost/polygon/polygon_45_set_data.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 0762b51..5fefa3c 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -164,7 +164,7 @@ namespace boost { namespace polygon{
     inline bool operator==(const polygon_45_set_data& p) const {
       clean();
       p.clean();
-      return data_ == p.data_;
+      return merge_coincident_vertices_(data_) == merge_coincident_vertices_(p.data_);
     }
 
     // inequivalence operator
@@ -351,6 +351,22 @@ namespace boost { namespace polygon{
 
   private:
     //functions
+    //how often a vertex is stored, and whether vertices whose edges cancel out
+    //are stored, depends on how a set was built and not on the region it covers
+    static value_type merge_coincident_vertices_(const value_type& data) {
+      const typename polygon_45_formation<Unit>::Vertex45Count none(0, 0, 0, 0);
+      value_type merged;
+      for(typename value_type::const_iterator itr = data.begin(); itr != data.end(); ++itr) {
+        if(!merged.empty() && merged.back().pt == (*itr).pt) {
+          merged.back().count += (*itr).count;
+        } else {
+          if(!merged.empty() && merged.back().count == none) merged.pop_back();
+          merged.push_back(*itr);
+        }
+      }
+      if(!merged.empty() && merged.back().count == none) merged.pop_back();
+      return merged;
+    }
     template <typename output_container>
     void get_dispatch(output_container& output, polygon_45_concept tag) const {
       get_fracture(output, true, tag);
-- 
2.43.0


From 1ca9e1c8f75d882635459bd84443c62a94176663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 12/61] fix: round the y of an edge down on both sides of zero

evalAtXforYlazy truncated toward zero while the events it is compared with
follow the floor convention of the snapping code; below y = 0 the trapezoid
slicer took an edge just under a vertex for one that lies on it and dropped
whole trapezoids.
---
 include/boost/polygon/detail/polygon_arbitrary_formation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
index 5cc387c..d8cede1 100644
--- a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
+++ b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
@@ -197,7 +197,10 @@ namespace boost { namespace polygon{
       evalAtXforYdx = evalAtXforYx2 - evalAtXforYx1;
       evalAtXforYdy = evalAtXforYy2 - evalAtXforYy1;
       evalAtXforYret = ((evalAtXforYdx1) * evalAtXforYdy / evalAtXforYdx + evalAtXforYy1);
-      return (Unit)evalAtXforYret;
+      //round toward negative infinity, the same way on both sides of zero
+      Unit evalAtXforYunit = (Unit)evalAtXforYret;
+      if(evalAtXforYret < evalAtXforYunit) --evalAtXforYunit;
+      return evalAtXforYunit;
     }
 
     static inline typename high_precision_type<Unit>::type evalAtXforY(Unit xIn, Point pt, Point other_pt) {
-- 
2.43.0


From e049883277c7b93b04f618ea06b12946e9ec7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 13/61] fix: connectivity_extraction_45 may be extracted
 repeatedly and does not overflow int coordinates

---
 include/boost/polygon/detail/polygon_45_touch.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_touch.hpp b/include/boost/polygon/detail/polygon_45_touch.hpp
index 90717e1..5dc3237 100644
--- a/include/boost/polygon/detail/polygon_45_touch.hpp
+++ b/include/boost/polygon/detail/polygon_45_touch.hpp
@@ -195,10 +195,11 @@ namespace boost { namespace polygon{
       for(typename TouchSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename TouchSetData::iterator itr2 = itr;
         ++itr2;
+        //accumulate into tsd_, tsd must stay intact for subsequent extractions
+        tsd_.push_back(std::make_pair(itr->first, itr->second));
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          (tsd_.back().second) += (itr2->second); //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       std::pair<std::pair<Unit, std::map<Unit, std::set<int> > >, graph_type*> output
@@ -220,7 +221,7 @@ namespace boost { namespace polygon{
     static void populateTouchSetData(TouchSetData& tsd, iT begin, iT end, int nodeCount) {
       for( ; begin != end; ++begin) {
         Vertex45Compact vertex;
-        vertex.first = typename Vertex45Compact::first_type(begin->pt.x() * 2, begin->pt.y() * 2);
+        vertex.first = typename Vertex45Compact::first_type(static_cast<Unit>(begin->pt.x()) * 2, static_cast<Unit>(begin->pt.y()) * 2);
         tsd.push_back(vertex);
         for(unsigned int i = 0; i < 4; ++i) {
           if(begin->count[i]) {
-- 
2.43.0


From 5864fbc61918fac6e5ea61955b94ae7f76b4852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 14/61] fix: connectivity_extraction_90 accepts sets of
 different scanning orientation

---
 include/boost/polygon/polygon_90_set_data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 52101e4..73a8015 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -969,6 +969,9 @@ namespace boost { namespace polygon{
 
     //insert a polygon set graph node, the value returned is the id of the graph node
     inline unsigned int insert(const polygon_90_set_data<coordinate_type>& ps) {
+      //all nodes have to be scanned in the same orientation
+      if(ps.orient() != HORIZONTAL)
+        return insert(polygon_90_set_data<coordinate_type>(HORIZONTAL, ps));
       ps.clean();
       touch_90_operation<coordinate_type>::populateTouchSetData(tsd_, ps.begin(), ps.end(), nodeCount_);
       return nodeCount_++;
-- 
2.43.0


From 7c00533509ffe6d932fd5a66c5182a7e1532a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 15/61] fix: connectivity and property merge extraction of
 arbitrary-angle data without any edge

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 86f7778..0b50dea 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -118,6 +118,7 @@ namespace boost { namespace polygon{
     template <typename iT>
     static inline void validate_scan_divide_and_conquer(std::vector<std::set<Point> >& intersection_points,
                                                         iT begin, iT end) {
+      if(begin == end) return;
       std::vector<std::pair<Unit, std::pair<std::size_t, std::size_t> > > histogram;
       compute_histogram_in_y(begin, end, std::distance(begin, end), histogram);
       std::vector<Unit> y_cuts;
-- 
2.43.0


From 062662b551dbf08beed7d51b6f7f21128033c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 16/61] fix: interact accepts any Manhattan polygon set type as
 the first operand

---
 include/boost/polygon/polygon_90_set_concept.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 5259a07..c42081a 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -169,10 +169,10 @@ namespace boost { namespace polygon{
                        polygon_set_type_1>::type&
   interact(polygon_set_type_1& polygon_set_1, const polygon_set_type_2& polygon_set_2) {
     typedef typename polygon_90_set_traits<polygon_set_type_1>::coordinate_type Unit;
-    polygon_90_set_data<Unit> ps(scanline_orientation(polygon_set_2));
-    polygon_90_set_data<Unit> ps2(ps);
-    ps.insert(polygon_set_1);
-    ps2.insert(polygon_set_2);
+    polygon_90_set_data<Unit> ps;
+    assign(ps, polygon_set_1);
+    polygon_90_set_data<Unit> ps2;
+    assign(ps2, polygon_set_2);
     ps.interact(ps2);
     assign(polygon_set_1, ps);
     return polygon_set_1;
-- 
2.43.0


From e5405ba7c04e6e8f90ced840c6c3fdb7593d4611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 17/61] fix: self_intersect of a clean Manhattan polygon set is
 empty

---
 include/boost/polygon/polygon_90_set_data.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 73a8015..b948a24 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -781,11 +781,13 @@ namespace boost { namespace polygon{
 
     polygon_90_set_data& self_intersect() {
       sort();
-      if(dirty_) { //if it is clean it is a no-op
+      if(dirty_) {
         interval_data<coordinate_type> ivl((std::numeric_limits<coordinate_type>::min)(), (std::numeric_limits<coordinate_type>::max)());
         rectangle_data<coordinate_type> rect(ivl, ivl);
         insert(rect, true);
         clean();
+      } else { //nothing is covered twice
+        clear();
       }
       return *this;
     }
-- 
2.43.0


From 4df1ccd8354a4e38470a0569c4751c81f7dd1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 18/61] fix: 45-degree resizing does not fill corners between
 parallel edges

---
 include/boost/polygon/polygon_45_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 5fefa3c..8dfe4f5 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1028,6 +1028,7 @@ namespace boost { namespace polygon{
       diffAngle = (edge2 + 8 - edge1) % 8;
     else
       diffAngle = (edge1 + 8 - edge2) % 8;
+    if(diffAngle % 4 == 0) return; //parallel edges have no corner to fill
     if(diffAngle < 4) {
       if(resizing > 0) return; //accute interior corner
       else multiplier *= -1; //make it appear to be an accute exterior angle
-- 
2.43.0


From 33f824816b215c04663f535e4bbb51c66dcd89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 19/61] fix: property_merge_90 merges regions whose set was not
 cleaned

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index b948a24..0d97b1d 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -931,6 +931,7 @@ namespace boost { namespace polygon{
     inline property_merge_90(const property_merge_90& that) : pmd_(that.pmd_) {}
     inline property_merge_90& operator=(const property_merge_90& that) { pmd_ = that.pmd_; return *this; }
     inline void insert(const polygon_90_set_data<coordinate_type>& ps, const property_type& property) {
+      ps.clean();
       merge_scanline<coordinate_type, property_type, polygon_90_set_data<coordinate_type> >::
         populate_property_merge_data(pmd_, ps.begin(), ps.end(), property, ps.orient());
     }
-- 
2.43.0


From d41107b4547323b2a38b9a58cb323152fc687a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 20/61] fix: property_merge_45 does not leak snapping
 corrections between label sets

---
 include/boost/polygon/polygon_45_set_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 8dfe4f5..187cd85 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1841,6 +1841,8 @@ namespace boost { namespace polygon{
       for(typename std::map<keytype, polygon_45_set_data<big_coord> >::iterator itr = result_big.begin();
           itr != result_big.end(); ++itr) {
         polys.clear();
+        pos_error_rects.clear();
+        neg_error_rects.clear();
         (*itr).second.get(polys);
         for(std::size_t i = 0; i < polys.size(); ++i) {
           get_error_rects(pos_error_rects, neg_error_rects, polys[i]);
-- 
2.43.0


From aef904400887e9b2e4a74b58db3adf773fc707c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 21/61] fix: property_merge_45 results are sorted before they
 are read

---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index c2feffc..5b78679 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -89,11 +89,11 @@ namespace boost { namespace polygon{
         if(left == right) return;
         if(!left.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << edgeType << std::endl;
-          output[left].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, -edgeType));
+          output[left].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, -edgeType));
         }
         if(!right.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << -edgeType << std::endl;
-          output[right].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, edgeType));
+          output[right].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, edgeType));
         }
       }
     };
-- 
2.43.0


From 13590b5fcc3ad1d3f8454fb4fd9fc364fba038e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 22/61] fix: property_merge_45 may be merged repeatedly, does
 not overflow and accepts any label type

---
 include/boost/polygon/detail/property_merge_45.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 5b78679..93bfa8a 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -31,7 +31,8 @@ namespace boost { namespace polygon{
       //inline CountMerge& operator=(int count) { counts[0] = counts[1] = count; return *this; }
       inline CountMerge& operator=(const CountMerge& count) { counts = count.counts; return *this; }
       inline int& operator[](property_type index) {
-        std::vector<std::pair<int, int> >::iterator itr = lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
+        typename std::vector<std::pair<property_type, int> >::iterator itr =
+            std::lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
         if(itr != counts.end() && itr->first == index) {
             return itr->second;
         }
@@ -118,10 +119,11 @@ namespace boost { namespace polygon{
       for(typename MergeSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename MergeSetData::iterator itr2 = itr;
         ++itr2;
+        //accumulate into tsd_, tsd must stay intact for subsequent merges
+        tsd_.push_back(std::make_pair(itr->first, itr->second));
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          (tsd_.back().second) += (itr2->second); //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       typename boolean_op_45<Unit>::template Scan45<CountMerge, merge_45_output_functor> scanline;
@@ -140,7 +142,7 @@ namespace boost { namespace polygon{
     static void populateMergeSetData(MergeSetData& tsd, iT begin, iT end, property_type property) {
       for( ; begin != end; ++begin) {
         Vertex45Compact vertex;
-        vertex.first = typename Vertex45Compact::first_type(begin->pt.x() * 2, begin->pt.y() * 2);
+        vertex.first = typename Vertex45Compact::first_type(static_cast<Unit>(begin->pt.x()) * 2, static_cast<Unit>(begin->pt.y()) * 2);
         tsd.push_back(vertex);
         for(unsigned int i = 0; i < 4; ++i) {
           if(begin->count[i]) {
-- 
2.43.0


From 8a0fbee3786daa13d18111ecffafad57d8004365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 23/61] fix: interval set, move and bloat keep low and high
 ordered as documented

---
 include/boost/polygon/interval_concept.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 3eeec0f..59c35cd 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -111,6 +111,10 @@ typename enable_if<
 >::type set(IntervalType& interval, direction_1d dir,
     typename interval_mutable_traits<IntervalType>::coordinate_type value) {
   interval_mutable_traits<IntervalType>::set(interval, dir, value);
+  if (get(interval, HIGH) < get(interval, LOW)) {
+    // Keep the interval ordered.
+    interval_mutable_traits<IntervalType>::set(interval, dir.backward(), value);
+  }
 }
 
 struct y_i_construct : gtl_yes {};
@@ -431,10 +435,12 @@ typename enable_if<
     typename interval_difference_type<IntervalType>::type displacement) {
   typedef typename interval_coordinate_type<IntervalType>::type ctype;
   typedef typename coordinate_traits<ctype>::coordinate_difference Unit;
-  low(interval, static_cast<ctype>(
-      static_cast<Unit>(low(interval)) + displacement));
-  high(interval, static_cast<ctype>(
-      static_cast<Unit>(high(interval)) + displacement));
+  ctype newLow  = static_cast<ctype>(
+      static_cast<Unit>(low(interval)) + displacement);
+  ctype newHigh = static_cast<ctype>(
+      static_cast<Unit>(high(interval)) + displacement);
+  low(interval, newLow);
+  high(interval, newHigh);
   return interval;
 }
 
@@ -789,8 +795,11 @@ typename enable_if<
 >::type& bloat(
     IntervalType& interval,
     typename interval_coordinate_type<IntervalType>::type bloating) {
-  low(interval, low(interval) - bloating);
-  high(interval, high(interval) + bloating);
+  typedef typename interval_coordinate_type<IntervalType>::type Unit;
+  Unit newLow  = low(interval) - bloating;
+  Unit newHigh = high(interval) + bloating;
+  low(interval, newLow);
+  high(interval, newHigh);
   return interval;
 }
 
-- 
2.43.0


From e572afdaae822e6e36178135e9908e149dac1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 24/61] fix: construct rectangle from four coordinates keeps
 intervals ordered

---
 include/boost/polygon/rectangle_concept.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index e824319..1f7431e 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -165,8 +165,8 @@ namespace boost { namespace polygon{
   typename enable_if< typename gtl_and<y_r_construct2, typename is_mutable_rectangle_concept<typename geometry_concept<T>::type>::type>::type,
                        T>::type
   construct(coord_type xl, coord_type yl, coord_type xh, coord_type yh) {
-    return rectangle_mutable_traits<T>::construct(interval_data<coord_type>(xl, xh),
-                                                  interval_data<coord_type>(yl, yh));
+    return rectangle_mutable_traits<T>::construct(construct<interval_data<coord_type> >(xl, xh),
+                                                  construct<interval_data<coord_type> >(yl, yh));
   }
 
   struct y_r_cconstruct : gtl_yes {};
-- 
2.43.0


From f69134fac80135464d7193da3d70ed3e0fd3ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 25/61] fix: rectangle intersect honours consider_touch

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 1f7431e..2fdf59d 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -642,7 +642,7 @@ namespace boost { namespace polygon{
                                          typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        bool>::type
   intersect(rectangle_type_1& rectangle, const rectangle_type_2& b, bool consider_touch = true) {
-    if(intersects(rectangle, b)) {
+    if(intersects(rectangle, b, consider_touch)) {
       intersect(rectangle, horizontal(b), HORIZONTAL, consider_touch);
       intersect(rectangle, vertical(b), VERTICAL, consider_touch);
       return true;
-- 
2.43.0


From 114ead1348c44545087193b2cd9a9e50da1853c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 26/61] fix: rectangle get_corner compiles and turns as
 documented

---
 include/boost/polygon/rectangle_concept.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 2fdf59d..3f97be8 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -819,8 +819,10 @@ namespace boost { namespace polygon{
     bool>::type
   get_corner(point_type& corner_point, const rectangle_type& rectangle, direction_2d direction_facing, direction_1d direction_turning) {
     typedef typename rectangle_coordinate_type<rectangle_type>::type Unit;
-    Unit u1 = get(rectangle, direction_facing);
-    Unit u2 = get(rectangle, direction_facing.turn(direction_turning));
+    //LOW turns left, HIGH turns right
+    direction_2d direction_turned = direction_turning == LOW ? direction_facing.left() : direction_facing.right();
+    Unit u1 = get(rectangle, orientation_2d(direction_facing), direction_1d(direction_facing));
+    Unit u2 = get(rectangle, orientation_2d(direction_turned), direction_1d(direction_turned));
     if(orientation_2d(direction_facing).to_int()) std::swap(u1, u2);
     corner_point = construct<point_type>(u1, u2);
     return true;
-- 
2.43.0


From 0fdf80a11581296162878a827fea6bd566a685cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 27/61] fix: rectangle to point distances accept const
 rectangles

---
 include/boost/polygon/rectangle_concept.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 3f97be8..af72bfe 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -893,7 +893,7 @@ namespace boost { namespace polygon{
     typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
     typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
                        typename rectangle_difference_type<rectangle_type>::type>::type
-  square_euclidean_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  square_euclidean_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     typename coordinate_traits<typename rectangle_coordinate_type<rectangle_type>::type>::coordinate_difference xdist, ydist;
     xdist = euclidean_distance(lvalue, rvalue, HORIZONTAL);
     ydist = euclidean_distance(lvalue, rvalue, VERTICAL);
@@ -920,7 +920,7 @@ namespace boost { namespace polygon{
   typename enable_if< typename gtl_and_3<y_r_edist, typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
                                                           typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
-  euclidean_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  euclidean_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     return std::sqrt((double)(square_euclidean_distance(lvalue, rvalue)));
   }
 
@@ -942,7 +942,7 @@ namespace boost { namespace polygon{
     typename gtl_and_3<y_r_mdist, typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
                                        typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
     typename rectangle_difference_type<rectangle_type>::type>::type
-  manhattan_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  manhattan_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     typename coordinate_traits<typename rectangle_coordinate_type<rectangle_type>::type>::coordinate_difference xdist, ydist;
     xdist = euclidean_distance(lvalue, rvalue, HORIZONTAL);
     ydist = euclidean_distance(lvalue, rvalue, VERTICAL);
-- 
2.43.0


From b89a2a660c674e7e891d5ea852c06d6d7386f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 28/61] fix: rectangle euclidean_distance no longer truncates
 to int

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index af72bfe..1764fdf 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -931,7 +931,7 @@ namespace boost { namespace polygon{
                                                           typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
   euclidean_distance(const rectangle_type& lvalue, const rectangle_type_2& rvalue) {
-    double val = (int)square_euclidean_distance(lvalue, rvalue);
+    double val = (double)square_euclidean_distance(lvalue, rvalue);
     return std::sqrt(val);
   }
 
-- 
2.43.0


From ca5c07c5a384282ed731234c5c8c8de92236a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 29/61] fix: rectangle scale uses both corners

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 1764fdf..8f75b7e 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -998,7 +998,7 @@ namespace boost { namespace polygon{
                      rectangle_type>::type &
   scale(rectangle_type& rectangle, const scaling_type& scaling) {
     point_data<typename rectangle_coordinate_type<rectangle_type>::type> llp(xl(rectangle), yl(rectangle));
-    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xl(rectangle), yl(rectangle));
+    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xh(rectangle), yh(rectangle));
     scale(llp, scaling);
     scale(urp, scaling);
     set_points(rectangle, llp, urp);
-- 
2.43.0


From c39c010d2f254d7523d498295f8b2f362da82d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 30/61] fix: transformation concatenation uses the concatenated
 translation instead of uninitialized values

---
 include/boost/polygon/transform.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 195393b..3b006e4 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -405,9 +405,9 @@ class transformation {
 
   // concatenate this with that
   const transformation& operator+=(const transformation& tr) {
-    coordinate_type x, y;
-    transformation<coordinate_type> inv = inverse();
-    inv.transform(x, y);
+    coordinate_type x = tr.p_.get(HORIZONTAL), y = tr.p_.get(VERTICAL);
+    // the translation of tr is given in the coordinate system after this
+    atr_.inverse().transform(x, y);
     p_.set(HORIZONTAL, p_.get(HORIZONTAL) + x);
     p_.set(VERTICAL, p_.get(VERTICAL) + y);
     // concatenate axis transforms
-- 
2.43.0


From 637431009d22526423efb91dd7ec490036a6f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 31/61] fix: combine_axis_arrays concatenates axes and flips

---
 include/boost/polygon/transform.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 3b006e4..f5bcb09 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -190,16 +190,9 @@ class axis_transformation {
   static void combine_axis_arrays(INDIVIDUAL_AXIS this_array[],
                                   const INDIVIDUAL_AXIS that_array[]) {
     int indexes[2] = { this_array[0] >> 1, this_array[1] >> 1 };
-    int zero_bits[2][2] = {
-      { this_array[0] & 1, this_array[1] & 1 },
-      { that_array[0] & 1, that_array[1] & 1 }
-    };
-    this_array[0] = (INDIVIDUAL_AXIS)((int)this_array[0] |
-                                      ((int)zero_bits[0][0] ^
-                                       (int)zero_bits[1][indexes[0]]));
-    this_array[1] = (INDIVIDUAL_AXIS)((int)this_array[1] |
-                                      ((int)zero_bits[0][1] ^
-                                       (int)zero_bits[1][indexes[1]]));
+    int flips[2] = { this_array[0] & 1, this_array[1] & 1 };
+    this_array[0] = (INDIVIDUAL_AXIS)((int)that_array[indexes[0]] ^ flips[0]);
+    this_array[1] = (INDIVIDUAL_AXIS)((int)that_array[indexes[1]] ^ flips[1]);
   }
 
   // write_back_axis_array converts an array of three INDIVIDUAL_AXIS values
-- 
2.43.0


From d6b8064cb46b00f3c8fcd817ece8f9a9a0711154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 32/61] fix: distance from a degenerate segment to a point is
 the distance of the points

---
 include/boost/polygon/segment_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index 2f41c1b..e59a1a7 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -656,7 +656,7 @@ euclidean_distance(const Segment& segment, const Point& point) {
     return euclidean_distance(low(segment), point);
   }
   if (length_sq == 0.0)
-    return 0.0;
+    return euclidean_distance(low(segment), point);
   Unit denom = std::sqrt(length_sq);
   Unit result = (A * D - C * B) / denom;
   return (result < 0.0) ? -result : result;
-- 
2.43.0


From b640c765203f1e7c38c53ab4e17ade134d808e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 33/61] fix: direction_3d backward avoids out of range
 direction_2d values

---
 include/boost/polygon/isotropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/isotropy.hpp b/include/boost/polygon/isotropy.hpp
index 615ae39..0727ff7 100644
--- a/include/boost/polygon/isotropy.hpp
+++ b/include/boost/polygon/isotropy.hpp
@@ -502,7 +502,7 @@ namespace boost { namespace polygon{
 
     inline direction_3d backward() const {
       // flip the LSB, toggles 0 - 1   and 2 - 3 and 4 - 5
-      return direction_2d(direction_2d_enum(val_ ^ 1));
+      return direction_3d(direction_3d_enum(val_ ^ 1));
     }
 
     // N, E, U are positive, S, W, D are negative
-- 
2.43.0


From 62ae53614fdfe76d4d707cb7a1200ba1b462ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 34/61] fix: point-segment-segment circle event negates the
 smallest coordinate in the wide type

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index b6314d3..68f9b1a 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -1283,14 +1283,14 @@ class voronoi_predicates {
             static_cast<int_x2_type>(segm_start2.x()),
             static_cast<int_x2_type>(segm_end2.y()) -
             static_cast<int_x2_type>(segm_start2.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         b -= sqr_sum2 * robust_fpt_type(robust_cross_product(
             static_cast<int_x2_type>(segm_end1.x()) -
             static_cast<int_x2_type>(segm_start1.x()),
             static_cast<int_x2_type>(segm_end1.y()) -
             static_cast<int_x2_type>(segm_start1.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         t -= b;
         if (point_index == 2) {
-- 
2.43.0


From 61d655d43a42729cf63648448da33baf27f371e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 35/61] fix: extended_int converts the smallest int32 and int64
 values without overflow

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 078d935..aba9bb7 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -234,7 +234,7 @@ class extended_int {
       this->chunks_[0] = that;
       this->count_ = 1;
     } else if (that < 0) {
-      this->chunks_[0] = -that;
+      this->chunks_[0] = 0u - static_cast<uint32>(that);
       this->count_ = -1;
     } else {
       this->count_ = 0;
@@ -247,9 +247,9 @@ class extended_int {
       this->chunks_[1] = that >> 32;
       this->count_ = this->chunks_[1] ? 2 : 1;
     } else if (that < 0) {
-      that = -that;
-      this->chunks_[0] = static_cast<uint32>(that);
-      this->chunks_[1] = that >> 32;
+      uint64 abs_that = 0u - static_cast<uint64>(that);
+      this->chunks_[0] = static_cast<uint32>(abs_that);
+      this->chunks_[1] = static_cast<uint32>(abs_that >> 32);
       this->count_ = this->chunks_[1] ? -2 : -1;
     } else {
       this->count_ = 0;
@@ -275,7 +275,7 @@ class extended_int {
       this->chunks_[0] = that;
       this->count_ = 1;
     } else if (that < 0) {
-      this->chunks_[0] = -that;
+      this->chunks_[0] = 0u - static_cast<uint32>(that);
       this->count_ = -1;
     } else {
       this->count_ = 0;
@@ -289,9 +289,9 @@ class extended_int {
       this->chunks_[1] = that >> 32;
       this->count_ = this->chunks_[1] ? 2 : 1;
     } else if (that < 0) {
-      that = -that;
-      this->chunks_[0] = static_cast<uint32>(that);
-      this->chunks_[1] = that >> 32;
+      uint64 abs_that = 0u - static_cast<uint64>(that);
+      this->chunks_[0] = static_cast<uint32>(abs_that);
+      this->chunks_[1] = static_cast<uint32>(abs_that >> 32);
       this->count_ = this->chunks_[1] ? -2 : -1;
     } else {
       this->count_ = 0;
-- 
2.43.0


From d6182ea6d7b452b330db30b5e148218d98f5a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 36/61] fix: voronoi robust cross product keeps sums wider than
 the unsigned integer type

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index 68f9b1a..aa61d43 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -68,15 +68,23 @@ class voronoi_predicates {
       if (is_neg(a2_) ^ is_neg(b1_))
         return (l > r) ? -to_fpt(l - r) : to_fpt(r - l);
       else
-        return -to_fpt(l + r);
+        return -robust_sum(l, r);
     } else {
       if (is_neg(a2_) ^ is_neg(b1_))
-        return to_fpt(l + r);
+        return robust_sum(l, r);
       else
         return (l < r) ? -to_fpt(r - l) : to_fpt(l - r);
     }
   }
 
+  // Converts the sum of two unsigned integers, that might be wider than
+  // the unsigned integer type itself.
+  static fpt_type robust_sum(uint_x2_type l, uint_x2_type r) {
+    static to_fpt_converter to_fpt;
+    uint_x2_type sum = l + r;
+    return (sum < l) ? to_fpt(l) + to_fpt(r) : to_fpt(sum);
+  }
+
   struct orientation_test {
    public:
     // Represents orientation test result.
-- 
2.43.0


From f3f5334d8ca19464ca7ecedc9f1370847fd9e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 37/61] fix: voronoi circle events touching a segment outside
 of its arcs are rejected

---
 .../polygon/detail/voronoi_predicates.hpp     | 126 ++++++++++++++----
 1 file changed, 97 insertions(+), 29 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index aa61d43..c2311b8 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -218,6 +218,37 @@ class voronoi_predicates {
       }
     }
 
+    // Returns the signed horizontal distance from the point to the arc of the
+    // segment site, when the sweepline goes through the point.
+    fpt_type find_distance_to_segment_arc(
+        const site_type& site, const point_type& point) const {
+      if (is_vertical(site)) {
+        return (to_fpt(site.x()) - to_fpt(point.x())) * to_fpt(0.5);
+      } else {
+        const point_type& segment0 = site.point0();
+        const point_type& segment1 = site.point1();
+        fpt_type a1 = to_fpt(segment1.x()) - to_fpt(segment0.x());
+        fpt_type b1 = to_fpt(segment1.y()) - to_fpt(segment0.y());
+        fpt_type k = get_sqrt(a1 * a1 + b1 * b1);
+        // Avoid subtraction while computing k.
+        if (!is_neg(b1)) {
+          k = to_fpt(1.0) / (b1 + k);
+        } else {
+          k = (k - b1) / (a1 * a1);
+        }
+        // The relative error is at most 7EPS.
+        return k * robust_cross_product(
+            static_cast<int_x2_type>(segment1.x()) -
+            static_cast<int_x2_type>(segment0.x()),
+            static_cast<int_x2_type>(segment1.y()) -
+            static_cast<int_x2_type>(segment0.y()),
+            static_cast<int_x2_type>(point.x()) -
+            static_cast<int_x2_type>(segment0.x()),
+            static_cast<int_x2_type>(point.y()) -
+            static_cast<int_x2_type>(segment0.y()));
+      }
+    }
+
    private:
     // Represents the result of the epsilon robust predicate. If the
     // result is undefined some further processing is usually required.
@@ -294,35 +325,6 @@ class voronoi_predicates {
       return (dx * dx + dy * dy) / (to_fpt(2.0) * dx);
     }
 
-    fpt_type find_distance_to_segment_arc(
-        const site_type& site, const point_type& point) const {
-      if (is_vertical(site)) {
-        return (to_fpt(site.x()) - to_fpt(point.x())) * to_fpt(0.5);
-      } else {
-        const point_type& segment0 = site.point0();
-        const point_type& segment1 = site.point1();
-        fpt_type a1 = to_fpt(segment1.x()) - to_fpt(segment0.x());
-        fpt_type b1 = to_fpt(segment1.y()) - to_fpt(segment0.y());
-        fpt_type k = get_sqrt(a1 * a1 + b1 * b1);
-        // Avoid subtraction while computing k.
-        if (!is_neg(b1)) {
-          k = to_fpt(1.0) / (b1 + k);
-        } else {
-          k = (k - b1) / (a1 * a1);
-        }
-        // The relative error is at most 7EPS.
-        return k * robust_cross_product(
-            static_cast<int_x2_type>(segment1.x()) -
-            static_cast<int_x2_type>(segment0.x()),
-            static_cast<int_x2_type>(segment1.y()) -
-            static_cast<int_x2_type>(segment0.y()),
-            static_cast<int_x2_type>(point.x()) -
-            static_cast<int_x2_type>(segment0.x()),
-            static_cast<int_x2_type>(point.y()) -
-            static_cast<int_x2_type>(segment0.y()));
-      }
-    }
-
     kPredicateResult fast_ps(
         const site_type& left_site, const site_type& right_site,
         const point_type& new_point, bool reverse_order) const {
@@ -1512,6 +1514,15 @@ class voronoi_predicates {
           lies_outside_vertical_segment(circle, site3)) {
         return false;
       }
+      if (lies_outside_segment(circle, site1) ||
+          lies_outside_segment(circle, site2) ||
+          lies_outside_segment(circle, site3)) {
+        return false;
+      }
+      if (lies_on_opposite_branch(circle, site1, site2) ||
+          lies_on_opposite_branch(circle, site2, site3)) {
+        return false;
+      }
       return true;
     }
 
@@ -1527,9 +1538,66 @@ class voronoi_predicates {
              ulp_cmp(c.y(), y1, ULPS) == ulp_cmp_type::MORE;
     }
 
+    // Returns true if the circle touches the line through the segment site
+    // outside of the segment.
+    bool lies_outside_segment(
+        const circle_type& c, const site_type& s) {
+      if (!s.is_segment() || is_vertical(s)) {
+        return false;
+      }
+      fpt_type dx = to_fpt(s.x1()) - to_fpt(s.x0());
+      fpt_type dy = to_fpt(s.y1()) - to_fpt(s.y0());
+      return projects_before(c, to_fpt(s.x0()), to_fpt(s.y0()), dx, dy) ||
+             projects_before(c, to_fpt(s.x1()), to_fpt(s.y1()), -dx, -dy);
+    }
+
+    // Returns true if the projection of the circle center onto the line going
+    // through the point (x, y) lies before that point in direction (dx, dy).
+    bool projects_before(const circle_type& c, fpt_type x, fpt_type y,
+                         fpt_type dx, fpt_type dy) {
+      fpt_type x_part = (c.x() - x) * dx;
+      fpt_type y_part = (c.y() - y) * dy;
+      fpt_type error = (get_abs(c.x()) + get_abs(x)) * get_abs(dx) +
+                       (get_abs(c.y()) + get_abs(y)) * get_abs(dy);
+      error *= to_fpt(ULPS) * (std::numeric_limits<fpt_type>::epsilon)();
+      return x_part + y_part < -error;
+    }
+
+    // Neighboring arcs of a point and a segment meet on one of the two halves
+    // of the parabolic bisector, that are separated by the point where the
+    // horizontal line through the point site crosses the parabola. Returns
+    // true if the circle center lies on the other half.
+    bool lies_on_opposite_branch(const circle_type& c, const site_type& lower,
+                                 const site_type& upper) {
+      if (lower.is_segment() == upper.is_segment()) {
+        return false;
+      }
+      const site_type& segment = lower.is_segment() ? lower : upper;
+      const site_type& point = lower.is_segment() ? upper : lower;
+      if (is_vertical(segment) || segment.point0() == point.point0() ||
+          segment.point1() == point.point0()) {
+        return false;
+      }
+      fpt_type dx = to_fpt(segment.x1()) - to_fpt(segment.x0());
+      fpt_type dy = to_fpt(segment.y1()) - to_fpt(segment.y0());
+      if (lower.is_segment()) {
+        dx = -dx;
+        dy = -dy;
+      }
+      fpt_type x = to_fpt(point.x()) +
+          distance_predicate_.find_distance_to_segment_arc(
+              segment, point.point0());
+      return projects_before(c, x, to_fpt(point.y()), dx, dy);
+    }
+
+    static fpt_type get_abs(fpt_type value) {
+      return is_neg(value) ? -value : value;
+    }
+
    private:
     to_fpt_converter to_fpt;
     ulp_cmp_type ulp_cmp;
+    distance_predicate<site_type> distance_predicate_;
     circle_existence_predicate_type circle_existence_predicate_;
     circle_formation_functor_type circle_formation_functor_;
   };
-- 
2.43.0


From a44826072405eab60bfaa0fdc69426e84e844907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 38/61] fix: extended_int differences and chunk constructor
 drop all leading zero limbs

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index aba9bb7..27599f5 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -260,6 +260,8 @@ class extended_int {
     this->count_ = static_cast<int32>((std::min)(N, chunks.size()));
     for (int i = 0; i < this->count_; ++i)
       this->chunks_[i] = chunks[chunks.size() - i - 1];
+    while (this->count_ && !this->chunks_[this->count_ - 1])
+      --this->count_;
     if (!plus)
       this->count_ = -this->count_;
   }
@@ -535,7 +537,7 @@ class extended_int {
       }
       sz2 = sz1;
     }
-    this->count_ = static_cast<int32>(sz1-1);
+    this->count_ = static_cast<int32>(sz1);
     bool flag = false;
     for (std::size_t i = 0; i < sz2; ++i) {
       this->chunks_[i] = c1[i] - c2[i] - (flag?1:0);
@@ -545,8 +547,8 @@ class extended_int {
       this->chunks_[i] = c1[i] - (flag?1:0);
       flag = !c1[i] && flag;
     }
-    if (this->chunks_[this->count_])
-      ++this->count_;
+    while (this->count_ && !this->chunks_[this->count_ - 1])
+      --this->count_;
   }
 
   void mul(const uint32* c1, std::size_t sz1,
-- 
2.43.0


From 0af52d1fec95a27b32742436ce4a8a63cbc2d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 39/61] fix: extended_exponent_fpt keeps the other operand when
 adding zero

---
 .../boost/polygon/detail/voronoi_ctypes.hpp    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 27599f5..ebbf2df 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -115,14 +115,15 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator+(const extended_exponent_fpt& that) const {
+    if (that.val_ == 0.0 ||
+        (this->val_ != 0.0 &&
+         this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
+      return *this;
+    }
     if (this->val_ == 0.0 ||
         that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
       return that;
     }
-    if (that.val_ == 0.0 ||
-        this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
-      return *this;
-    }
     if (this->exp_ >= that.exp_) {
       exp_type exp_dif = this->exp_ - that.exp_;
       fpt_type val = std::ldexp(this->val_, exp_dif) + that.val_;
@@ -135,14 +136,15 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator-(const extended_exponent_fpt& that) const {
+    if (that.val_ == 0.0 ||
+        (this->val_ != 0.0 &&
+         this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
+      return *this;
+    }
     if (this->val_ == 0.0 ||
         that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
       return extended_exponent_fpt(-that.val_, that.exp_);
     }
-    if (that.val_ == 0.0 ||
-        this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
-      return *this;
-    }
     if (this->exp_ >= that.exp_) {
       exp_type exp_dif = this->exp_ - that.exp_;
       fpt_type val = std::ldexp(this->val_, exp_dif) - that.val_;
-- 
2.43.0


From bc3a7f3f87ef064146b082202d5442d9bd8589a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 40/61] fix: 45-degree tests and snapping use coordinate
 differences that cannot overflow

---
 include/boost/polygon/polygon_traits.hpp | 47 ++++++++++++------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index e3d1859..55dfb6a 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -744,6 +744,7 @@ namespace boost { namespace polygon{
   template <typename Unit>
   void snap_point_vector_to_45(std::vector<point_data<Unit> >& pts) {
     typedef point_data<Unit> Point;
+    typedef typename coordinate_traits<Unit>::coordinate_difference Difference;
     if(pts.size() < 3) { pts.clear(); return; }
     typename std::vector<point_data<Unit> >::iterator endLocation = std::unique(pts.begin(), pts.end());
     if(endLocation != pts.end()){
@@ -758,27 +759,27 @@ namespace boost { namespace polygon{
       Point& pt2 = pts[(i + 1) % numPts];
       Point& pt3 = pts[(i + 2) % numPts];
       //check if non-45 edge
-      Unit deltax = x(pt2) - x(pt1);
-      Unit deltay = y(pt2) - y(pt1);
+      Difference deltax = (Difference)x(pt2) - (Difference)x(pt1);
+      Difference deltay = (Difference)y(pt2) - (Difference)y(pt1);
       if(deltax && deltay &&
          local_abs(deltax) != local_abs(deltay)) {
         //adjust the middle point
-        Unit ndx = x(pt3) - x(pt2);
-        Unit ndy = y(pt3) - y(pt2);
+        Difference ndx = (Difference)x(pt3) - (Difference)x(pt2);
+        Difference ndy = (Difference)y(pt3) - (Difference)y(pt2);
         if(ndx && ndy) {
-          Unit diff = local_abs(local_abs(deltax) - local_abs(deltay));
-          Unit halfdiff = diff/2;
+          Difference diff = local_abs(local_abs(deltax) - local_abs(deltay));
+          Difference halfdiff = diff/2;
           if((deltax > 0 && deltay > 0) ||
              (deltax < 0 && deltay < 0)) {
             //previous edge is rising slope
             if(local_abs(deltax + halfdiff + (diff % 2)) ==
                local_abs(deltay - halfdiff)) {
-              x(pt2, x(pt2) + halfdiff + (diff % 2));
-              y(pt2, y(pt2) - halfdiff);
+              x(pt2, (Unit)(x(pt2) + halfdiff + (diff % 2)));
+              y(pt2, (Unit)(y(pt2) - halfdiff));
             } else if(local_abs(deltax - halfdiff - (diff % 2)) ==
                       local_abs(deltay + halfdiff)) {
-              x(pt2, x(pt2) - halfdiff - (diff % 2));
-              y(pt2, y(pt2) + halfdiff);
+              x(pt2, (Unit)(x(pt2) - halfdiff - (diff % 2)));
+              y(pt2, (Unit)(y(pt2) + halfdiff));
             } else{
               //std::cout << "fail1\n";
             }
@@ -786,12 +787,12 @@ namespace boost { namespace polygon{
             //previous edge is falling slope
             if(local_abs(deltax + halfdiff + (diff % 2)) ==
                local_abs(deltay + halfdiff)) {
-              x(pt2, x(pt2) + halfdiff + (diff % 2));
-              y(pt2, y(pt2) + halfdiff);
+              x(pt2, (Unit)(x(pt2) + halfdiff + (diff % 2)));
+              y(pt2, (Unit)(y(pt2) + halfdiff));
             } else if(local_abs(deltax - halfdiff - (diff % 2)) ==
                       local_abs(deltay - halfdiff)) {
-              x(pt2, x(pt2) - halfdiff - (diff % 2));
-              y(pt2, y(pt2) - halfdiff);
+              x(pt2, (Unit)(x(pt2) - halfdiff - (diff % 2)));
+              y(pt2, (Unit)(y(pt2) - halfdiff));
             } else {
               //std::cout << "fail2\n";
             }
@@ -806,15 +807,15 @@ namespace boost { namespace polygon{
         } else if(ndx) {
           //next edge is horizontal
           //find the x value for pt1 that would make the abs(deltax) == abs(deltay)
-          Unit newDeltaX = local_abs(deltay);
+          Difference newDeltaX = local_abs(deltay);
           if(deltax < 0) newDeltaX *= -1;
-          x(pt2, x(pt1) + newDeltaX);
+          x(pt2, (Unit)(x(pt1) + newDeltaX));
         } else { //ndy
           //next edge is vertical
           //find the y value for pt1 that would make the abs(deltax) == abs(deltay)
-          Unit newDeltaY = local_abs(deltax);
+          Difference newDeltaY = local_abs(deltax);
           if(deltay < 0) newDeltaY *= -1;
-          y(pt2, y(pt1) + newDeltaY);
+          y(pt2, (Unit)(y(pt1) + newDeltaY));
         }
       }
     }
@@ -1024,23 +1025,23 @@ namespace boost { namespace polygon{
   template <typename iT>
   bool point_sequence_is_45(iT itr, iT itr_end) {
     typedef typename std::iterator_traits<iT>::value_type Point;
-    typedef typename point_traits<Point>::coordinate_type Unit;
+    typedef typename coordinate_traits<typename point_traits<Point>::coordinate_type>::coordinate_difference Unit;
     if(itr == itr_end) return true;
     Point firstPt = *itr;
     Point prevPt = firstPt;
     ++itr;
     while(itr != itr_end) {
       Point pt = *itr;
-      Unit deltax = x(pt) - x(prevPt);
-      Unit deltay = y(pt) - y(prevPt);
+      Unit deltax = (Unit)x(pt) - (Unit)x(prevPt);
+      Unit deltay = (Unit)y(pt) - (Unit)y(prevPt);
       if(deltax && deltay &&
          local_abs(deltax) != local_abs(deltay))
         return false;
       prevPt = pt;
       ++itr;
     }
-    Unit deltax = x(firstPt) - x(prevPt);
-    Unit deltay = y(firstPt) - y(prevPt);
+    Unit deltax = (Unit)x(firstPt) - (Unit)x(prevPt);
+    Unit deltay = (Unit)y(firstPt) - (Unit)y(prevPt);
     if(deltax && deltay &&
        local_abs(deltax) != local_abs(deltay))
       return false;
-- 
2.43.0


From 694da70171a70878e55df2e35e370e1da3b39886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 41/61] fix: is_45 of a polygon with holes examines the holes

---
 include/boost/polygon/polygon_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 55dfb6a..11f6f8c 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1056,7 +1056,7 @@ namespace boost { namespace polygon{
     typename polygon_with_holes_traits<polygon_type>::iterator_holes_type itrh = begin_holes(polygon), itrh_end = end_holes(polygon);
     typedef typename polygon_with_holes_traits<polygon_type>::hole_type hole_type;
     for(; itrh != itrh_end; ++ itrh) {
-      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(polygon), itr1_end = end_points(polygon);
+      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(*itrh), itr1_end = end_points(*itrh);
       if(!point_sequence_is_45(itr1, itr1_end)) return false;
     }
     return true;
-- 
2.43.0


From 117eea9ad19e06cfb461c2c1d50ceb09c4ba9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 42/61] fix: subtractive insertion of vertices and Manhattan
 sets into a 45-degree set

The inverted count was computed and dropped, and Manhattan sets had only
one of the two edge counts negated.
---
 include/boost/polygon/polygon_45_set_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 187cd85..08b17f5 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -115,7 +115,7 @@ namespace boost { namespace polygon{
     inline void insert_clean(const Vertex45Compact& vertex_45, bool is_hole = false) {
       if(vertex_45.count.is_45()) is_manhattan_ = false;
       data_.push_back(vertex_45);
-      if(is_hole) data_.back().count.invert();
+      if(is_hole) data_.back().count = data_.back().count.invert();
     }
 
     inline void insert(const Vertex45Compact& vertex_45, bool is_hole = false) {
@@ -131,7 +131,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       } else {
@@ -139,7 +138,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       }
-- 
2.43.0


From 52d125689dc32c81715256fa398c83e0f3e8ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 43/61] fix: 45-degree resizing truncated the coordinates of
 Manhattan edges to int

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 08b17f5..2429c8c 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -952,11 +952,11 @@ namespace boost { namespace polygon{
   void handleResizingEdge45(polygon_45_set_data<Unit>& sizingSet, point_data<Unit> first,
                             point_data<Unit> second, Unit resizing, RoundingOption rounding) {
     if(first.x() == second.x()) {
-      sizingSet.insert(rectangle_data<int>(first.x() - resizing, first.y(), first.x() + resizing, second.y()));
+      sizingSet.insert(rectangle_data<Unit>(first.x() - resizing, first.y(), first.x() + resizing, second.y()));
       return;
     }
     if(first.y() == second.y()) {
-      sizingSet.insert(rectangle_data<int>(first.x(), first.y() - resizing, second.x(), first.y() + resizing));
+      sizingSet.insert(rectangle_data<Unit>(first.x(), first.y() - resizing, second.x(), first.y() + resizing));
       return;
     }
     //edge is 45
-- 
2.43.0


From f0a22d1fe8e6121dff97855f81bcf8cae26505a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 44/61] fix: the SQRT1OVER2 corner fill moved the start of down
 sloping edges to the wrong side

---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 2429c8c..e7f183e 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -993,9 +993,9 @@ namespace boost { namespace polygon{
       }
     } else if(edge1 == 3) {
       if(normal1 == 1) {
-        move(pt1, orient, multiplier * bloating);
+        move(pt1, orient, bloating);
       } else {
-        move(pt1, orientp, -multiplier * bloating);
+        move(pt1, orientp, -bloating);
       }
     } else if(edge1 == 5) {
       if(normal1 == 3) {
@@ -1005,9 +1005,9 @@ namespace boost { namespace polygon{
       }
     } else {
       if(normal1 == 5) {
-        move(pt1, orient, -multiplier * bloating);
+        move(pt1, orient, -bloating);
       } else {
-        move(pt1, orientp, multiplier * bloating);
+        move(pt1, orientp, bloating);
       }
     }
     return pt1;
-- 
2.43.0


From 12f75d619ba6f7f944a9de184b23f344ae308dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 45/61] fix: simplify projected the vertex onto the segment
 with a mistyped coordinate

---
 include/boost/polygon/detail/polygon_simplify.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_simplify.hpp b/include/boost/polygon/detail/polygon_simplify.hpp
index 4871f50..644484f 100644
--- a/include/boost/polygon/detail/polygon_simplify.hpp
+++ b/include/boost/polygon/detail/polygon_simplify.hpp
@@ -77,7 +77,7 @@ namespace boost { namespace polygon { namespace detail { namespace simplify_deta
         // remove this division, the decisions below can be made with
         // just the sign of the quotient and a check to see if
         // abs(numerator) is greater than abs(divisor).
-        ftype f2 = (projx*acx + projy*acx) / ac_ac;
+        ftype f2 = (projx*acx + projy*acy) / ac_ac;
 
         // Square of the relevant distance from point B:
         ftype dist2;
-- 
2.43.0


From a0c6ad18eacecdc830c595265201fa2528a68b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 46/61] fix: segment equivalence compared endpoints with
 operator==, which a user point type need not have

---
 include/boost/polygon/segment_concept.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index e59a1a7..c239dd5 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -203,8 +203,8 @@ typename enable_if<
     >::type
   >::type,
 bool>::type equivalence(const Segment1& segment1, const Segment2& segment2) {
-  return get(segment1, LOW) == get(segment2, LOW) &&
-         get(segment1, HIGH) == get(segment2, HIGH);
+  return equivalence(get(segment1, LOW), get(segment2, LOW)) &&
+         equivalence(get(segment1, HIGH), get(segment2, HIGH));
 }
 
 struct y_s_low : gtl_yes {};
-- 
2.43.0


From bc108ef734a10c18adfbfee31cfc48cf45b8771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 47/61] fix: segments could not be built from or assigned
 points of another point type

---
 include/boost/polygon/segment_concept.hpp | 25 +++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index c239dd5..8cbb73f 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -118,6 +118,19 @@ get(const Segment& segment, direction_1d dir) {
   return segment_traits<Segment>::get(segment, dir);
 }
 
+// Converts any model of point to the point type of a segment.
+template <typename PointType>
+struct segment_point_cast {
+  static const PointType& cast(const PointType& point) {
+    return point;
+  }
+
+  template <typename Point>
+  static PointType cast(const Point& point) {
+    return construct<PointType>(x(point), y(point));
+  }
+};
+
 struct y_s_set : gtl_yes {};
 
 template <typename Segment, typename Point>
@@ -132,7 +145,11 @@ typename enable_if<
     >::type
   >::type,
 void>::type set(Segment& segment, direction_1d dir, const Point& point) {
-  segment_mutable_traits<Segment>::set(segment, dir, point);
+  segment_mutable_traits<Segment>::set(
+      segment, dir,
+      segment_point_cast<
+        typename segment_traits<Segment>::point_type
+      >::cast(point));
 }
 
 struct y_s_construct : gtl_yes {};
@@ -152,7 +169,11 @@ typename enable_if<
     >::type
   >::type,
 Segment>::type construct(const Point1& low, const Point2& high) {
-  return segment_mutable_traits<Segment>::construct(low, high);
+  typedef segment_point_cast<
+    typename segment_traits<Segment>::point_type
+  > point_cast;
+  return segment_mutable_traits<Segment>::construct(
+      point_cast::cast(low), point_cast::cast(high));
 }
 
 struct y_s_copy_construct : gtl_yes {};
-- 
2.43.0


From f3541e8e8e526104c340adf267fcddedb7787acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 48/61] fix: snapping polygons to 45 degrees required their
 point type to be point_data

---
 include/boost/polygon/polygon_traits.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 11f6f8c..4c51976 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -824,11 +824,12 @@ namespace boost { namespace polygon{
   template <typename polygon_type>
   typename enable_if< typename is_any_mutable_polygon_without_holes_type<polygon_type>::type, polygon_type>::type &
   snap_to_45(polygon_type& polygon) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    typedef point_data<typename polygon_traits<polygon_type>::coordinate_type> point_type;
+    std::vector<point_type> points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_type(x(*iter), y(*iter)));
     }
     snap_point_vector_to_45(points);
     polygon_mutable_traits<polygon_type>::set_points(polygon, points.begin(), points.end());
@@ -863,11 +864,12 @@ namespace boost { namespace polygon{
                         typename geometry_domain<typename geometry_concept<polygon_type>::type>::type>::type>::type,
     polygon_type>::type &
   scale_down(polygon_type& polygon, typename coordinate_traits<typename polygon_traits<polygon_type>::coordinate_type>::unsigned_area_type factor) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    typedef point_data<typename polygon_traits<polygon_type>::coordinate_type> point_type;
+    std::vector<point_type> points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_type(x(*iter), y(*iter)));
       scale_down(points.back(), factor);
     }
     snap_point_vector_to_45(points);
@@ -924,11 +926,12 @@ namespace boost { namespace polygon{
                       < forty_five_domain,
         typename geometry_domain<typename geometry_concept<polygon_type>::type>::type>::type>::type>::type * = 0
   ) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    typedef point_data<typename polygon_traits<polygon_type>::coordinate_type> point_type;
+    std::vector<point_type> points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_type(x(*iter), y(*iter)));
       scale(points.back(), anisotropic_scale_factor<double>(factor, factor));
     }
     snap_point_vector_to_45(points);
-- 
2.43.0


From f18acff8c13200ff838d293989198383391bdbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 49/61] fix: points could not be set on user types that model
 polygon_90

---
 include/boost/polygon/polygon_traits.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 4c51976..3c7ba61 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -340,6 +340,21 @@ namespace boost { namespace polygon{
                             typename is_any_mutable_polygon_without_holes_type<T>::type>::type type;
   };
 
+  // Manhattan polygons are set through their compact coordinates
+  template <typename T>
+  struct polygon_mutable_traits<T, typename enable_if<
+    typename gtl_or<typename is_mutable_polygon_90_type<T>::type,
+                    typename is_mutable_polygon_90_with_holes_type<T>::type>::type,
+    void>::type> {
+    template <typename iT>
+    static inline T& set_points(T& t, iT input_begin, iT input_end) {
+      typedef iterator_points_to_compact<iT, typename std::iterator_traits<iT>::value_type> compact_iterator;
+      polygon_90_mutable_traits<T>::set_compact(t, compact_iterator(input_begin, input_end),
+                                                compact_iterator(input_end, input_end));
+      return t;
+    }
+  };
+
   template <typename T>
   struct polygon_from_polygon_with_holes_type {};
   template <>
-- 
2.43.0


From 2786ad330456859c2a00b4186280f46d3a2a6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 50/61] fix: directional bloat, shrink and grow_and were not
 found for polygon sets of user types

---
 .../boost/polygon/polygon_90_set_concept.hpp  | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index c42081a..7df0399 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -204,6 +204,34 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  //declared ahead so that they are found for types of other namespaces too
+  template <typename polygon_set_type>
+  typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
+                       polygon_set_type>::type &
+  bloat(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_bloating);
+
+  template <typename polygon_set_type>
+  typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
+                       polygon_set_type>::type &
+  shrink(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_shrinking);
+
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type,
+                       polygon_set_type>::type &
+  grow_and(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_bloating);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
-- 
2.43.0


From 6e5ddeaa6007347f1d5833dc60186ed4dc3cd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 51/61] fix: contains on polygons with holes of user types did
 not find the overload for the outer ring

---
 include/boost/polygon/polygon_traits.hpp | 42 ++++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 3c7ba61..05a44e4 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1307,27 +1307,6 @@ namespace boost { namespace polygon{
     }
   };
 
-  template <typename T, typename input_point_type>
-  typename enable_if<
-    typename gtl_and< typename is_any_mutable_polygon_with_holes_type<T>::type,
-                      typename gtl_same_type<typename geometry_concept<input_point_type>::type, point_concept>::type>::type,
-    bool>::type
-  contains(const T& polygon, const input_point_type& point, bool consider_touch = true) {
-    typedef typename polygon_with_holes_traits<T>::iterator_holes_type holes_iterator;
-    bool isInside = contains( view_as< typename polygon_from_polygon_with_holes_type<
-                              typename geometry_concept<T>::type>::type>( polygon ), point, consider_touch );
-    if(!isInside) return false; //no need to check holes
-    holes_iterator itH = begin_holes( polygon );
-    while( itH != end_holes( polygon ) ) {
-      if(  contains( *itH, point, !consider_touch )  ) {
-        isInside = false;
-        break;
-      }
-      ++itH;
-    }
-    return isInside;
-  }
-
   template <typename T, typename input_point_type>
   typename enable_if<
     typename gtl_and_3<
@@ -1469,6 +1448,27 @@ namespace boost { namespace polygon{
     return true;
   }
 
+  template <typename T, typename input_point_type>
+  typename enable_if<
+    typename gtl_and< typename is_any_mutable_polygon_with_holes_type<T>::type,
+                      typename gtl_same_type<typename geometry_concept<input_point_type>::type, point_concept>::type>::type,
+    bool>::type
+  contains(const T& polygon, const input_point_type& point, bool consider_touch = true) {
+    typedef typename polygon_with_holes_traits<T>::iterator_holes_type holes_iterator;
+    bool isInside = contains( view_as< typename polygon_from_polygon_with_holes_type<
+                              typename geometry_concept<T>::type>::type>( polygon ), point, consider_touch );
+    if(!isInside) return false; //no need to check holes
+    holes_iterator itH = begin_holes( polygon );
+    while( itH != end_holes( polygon ) ) {
+      if(  contains( *itH, point, !consider_touch )  ) {
+        isInside = false;
+        break;
+      }
+      ++itH;
+    }
+    return isInside;
+  }
+
   template <typename T1, typename T2>
   typename enable_if<
     typename gtl_and< typename is_mutable_point_concept<typename geometry_concept<T1>::type>::type,
-- 
2.43.0


From e0a7734f8c81e6f7c13df4a1ac2e33e33847774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 52/61] fix: 45-degree sets could not take polygons whose
 points do not convert to point_data

---
 include/boost/polygon/polygon_45_set_data.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index e7f183e..e114e70 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -539,19 +539,21 @@ namespace boost { namespace polygon{
     if(is_hole) winding = winding.backward();
     iT itr = begin_vertex;
     if(itr == end_vertex) return;
-    point_data<Unit> firstPt = *itr;
+    point_data<Unit> firstPt;
+    assign(firstPt, *itr);
     ++itr;
     point_data<Unit> secondPt(firstPt);
     //skip any duplicate points
     do {
       if(itr == end_vertex) return;
-      secondPt = *itr;
+      assign(secondPt, *itr);
       ++itr;
     } while(secondPt == firstPt);
     point_data<Unit> prevPt = secondPt;
     point_data<Unit> prevPrevPt = firstPt;
     while(itr != end_vertex) {
-      point_data<Unit> pt = *itr;
+      point_data<Unit> pt;
+      assign(pt, *itr);
       //skip any duplicate points
       if(pt == prevPt) {
         ++itr;
-- 
2.43.0


From 76c38a670fea459229de94f2f9247d8d551e0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 53/61] fix: inserting a polygon set into itself read freed
 memory

---
 include/boost/polygon/polygon_45_set_data.hpp | 5 +++++
 include/boost/polygon/polygon_90_set_data.hpp | 5 +++++
 include/boost/polygon/polygon_set_data.hpp    | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index e114e70..26d18e4 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -578,6 +578,11 @@ namespace boost { namespace polygon{
   // insert polygon set
   template <typename Unit>
   inline void polygon_45_set_data<Unit>::insert(const polygon_45_set_data<Unit>& polygon_set, bool is_hole) {
+    if(&polygon_set == this) {
+      polygon_45_set_data<Unit> copy(polygon_set); // a vector cannot be inserted into itself
+      insert(copy, is_hole);
+      return;
+    }
     std::size_t count = data_.size();
     data_.insert(data_.end(), polygon_set.data_.begin(), polygon_set.data_.end());
     error_data_.insert(error_data_.end(), polygon_set.error_data_.begin(),
diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 0d97b1d..5f54a0a 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -115,6 +115,11 @@ namespace boost { namespace polygon{
     }
 
     inline void insert(const polygon_90_set_data& polygon_set) {
+      if(&polygon_set == this) {
+        polygon_90_set_data copy(polygon_set); // a vector cannot be inserted into itself
+        insert(copy);
+        return;
+      }
       insert(polygon_set.begin(), polygon_set.end(), polygon_set.orient());
     }
 
diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 32dd800..590dfd9 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -123,6 +123,11 @@ namespace boost { namespace polygon {
     }
 
     inline void insert(const polygon_set_data& ps, bool is_hole = false) {
+      if(&ps == this) {
+        polygon_set_data copy(ps); // inserting invalidates the iterators over our own data
+        insert(copy, is_hole);
+        return;
+      }
       insert(ps.data_.begin(), ps.data_.end(), is_hole);
     }
 
-- 
2.43.0


From 8a30b74ee800e98a75039a36b5867de1bed99bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 54/61] fix: polygon_90 with repeated points at its start left
 unmatched edges in the set

---
 .../polygon/detail/iterator_geometry_to_set.hpp  | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/boost/polygon/detail/iterator_geometry_to_set.hpp b/include/boost/polygon/detail/iterator_geometry_to_set.hpp
index 6ad371b..bf176f5 100644
--- a/include/boost/polygon/detail/iterator_geometry_to_set.hpp
+++ b/include/boost/polygon/detail/iterator_geometry_to_set.hpp
@@ -182,15 +182,13 @@ public:
   inline void evaluate_() {
     vertex_.first = pts[1].get(orient_.get_perpendicular());
     vertex_.second.first =pts[1].get(orient_);
-    if(pts[1] == pts[2]) {
-      vertex_.second.second = 0;
-    } else if(pts[0].get(HORIZONTAL) != pts[1].get(HORIZONTAL)) {
-      vertex_.second.second = -1;
-    } else if(pts[0].get(VERTICAL) != pts[1].get(VERTICAL)) {
-      vertex_.second.second = 1;
-    } else {
-      vertex_.second.second = 0;
-    }
+    //every horizontal edge counts up at its start and down at its end, so that
+    //repeated and collinear points cancel
+    vertex_.second.second = 0;
+    if(pts[0].get(HORIZONTAL) != pts[1].get(HORIZONTAL))
+      --vertex_.second.second;
+    if(pts[1].get(HORIZONTAL) != pts[2].get(HORIZONTAL))
+      ++vertex_.second.second;
     vertex_.second.second *= multiplier_;
   }
 };
-- 
2.43.0


From 4d8e5e91174e8999c9fd47ef0675a13b972f25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 55/61] fix: polygon_45_set_data::set of a vertex vector left
 the Manhattan flag and the error data of the old contents

---
 include/boost/polygon/polygon_45_set_data.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 26d18e4..09bceb1 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -228,14 +228,18 @@ namespace boost { namespace polygon{
 
     void set_clean(const value_type& value) {
       data_ = value;
+      error_data_.clear();
       dirty_ = false;
       unsorted_ = false;
+      update_is_manhattan_();
     }
 
     void set(const value_type& value) {
       data_ = value;
+      error_data_.clear();
       dirty_ = true;
       unsorted_ = true;
+      update_is_manhattan_();
     }
 
     // append to the container cT with polygons (holes will be fractured vertically)
@@ -349,6 +353,14 @@ namespace boost { namespace polygon{
 
   private:
     //functions
+    //vertices stored without insert have to be looked at to tell whether the set is manhattan
+    inline void update_is_manhattan_() const {
+      is_manhattan_ = true;
+      for(iterator_type itr = data_.begin(); itr != data_.end(); ++itr) {
+        if((*itr).count.is_45()) is_manhattan_ = false;
+      }
+    }
+
     //how often a vertex is stored, and whether vertices whose edges cancel out
     //are stored, depends on how a set was built and not on the region it covers
     static value_type merge_coincident_vertices_(const value_type& data) {
-- 
2.43.0


From 527fac7ba197a4480b3facb1636b5ba3b3d59590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 56/61] fix: assigning a geometry to a polygon_45_set_data kept
 the error data of the old contents

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 09bceb1..956f7eb 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -75,7 +75,7 @@ namespace boost { namespace polygon{
 
     template <typename geometry_object>
     inline polygon_45_set_data& operator=(const geometry_object& geometry) {
-      data_.clear();
+      clear();
       insert(geometry);
       return *this;
     }
@@ -219,7 +219,7 @@ namespace boost { namespace polygon{
 
     template <typename input_iterator_type>
     void set(input_iterator_type input_begin, input_iterator_type input_end) {
-      data_.clear();
+      clear();
       reserve(std::distance(input_begin, input_end));
       insert(input_begin, input_end);
       dirty_ = true;
-- 
2.43.0


From 31930a4bfe5fc098d2921fe9e9381762f7448a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 57/61] fix: polygon_set_data::scale could not be instantiated
 and did not have its documented signature

---
 include/boost/polygon/polygon_set_data.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 590dfd9..be4e41b 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -404,9 +404,8 @@ namespace boost { namespace polygon {
     }
 
     template <typename scaling_type>
-    inline polygon_set_data& scale(polygon_set_data&,
-                                   const scaling_type& scaling) {
-      for(typename value_type::iterator itr = begin(); itr != end(); ++itr) {
+    inline polygon_set_data& scale(const scaling_type& scaling) {
+      for(typename value_type::iterator itr = data_.begin(); itr != data_.end(); ++itr) {
         bool vb = (*itr).first.first.x() == (*itr).first.second.x();
         ::boost::polygon::scale((*itr).first.first, scaling);
         ::boost::polygon::scale((*itr).first.second, scaling);
-- 
2.43.0


From c6a8f58d4c6655a0ffb171c344fdb31d95660dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 58/61] fix: polygon_45_set_data::empty did not eliminate
 geometry covered by holes

---
 include/boost/polygon/polygon_45_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 956f7eb..c8d2853 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -188,7 +188,7 @@ namespace boost { namespace polygon{
     inline void clear() { data_.clear(); error_data_.clear(); dirty_ = unsorted_ = false; is_manhattan_ = true; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const { clean(); return data_.empty(); }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From ba0f6b862e0ea202f89262ea25d348281664f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 59/61] fix: polygon_set_data::empty did not eliminate geometry
 covered by holes

---
 include/boost/polygon/polygon_set_data.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index be4e41b..cb83420 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -301,7 +301,13 @@ namespace boost { namespace polygon {
     inline void clear() { data_.clear(); dirty_ = unsorted_ = false; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const {
+      if(data_.empty() || !dirty_) return data_.empty();
+      //geometry covered by holes leaves nothing behind once cleaned
+      polygon_set_data tmp(*this);
+      tmp.clean();
+      return tmp.data_.empty();
+    }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From 8971f8b7a647515e307336d594d2b9d3efb36e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 60/61] fix: resizing a polygon_45_set_data of 64-bit
 coordinates rounded diagonal distances through int

---
 include/boost/polygon/polygon_45_set_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index c8d2853..08c1974 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -791,8 +791,9 @@ namespace boost { namespace polygon{
   }
 
   //distance is assumed to be positive
-  inline int roundClosest(double distance) {
-    int f = (int)distance;
+  template <typename Unit>
+  inline Unit roundClosest(double distance) {
+    Unit f = (Unit)distance;
     if(distance - (double)f < 0.5) return f;
     return f+1;
   }
@@ -801,7 +802,7 @@ namespace boost { namespace polygon{
   template <typename Unit>
   inline Unit roundWithOptions(double distance, RoundingOption rounding) {
     if(rounding == CLOSEST) {
-      return roundClosest(distance);
+      return roundClosest<Unit>(distance);
     } else if(rounding == OVERSIZE) {
       return (Unit)distance + 1;
     } else { //UNDERSIZE
-- 
2.43.0


From abb08e1b06f6fa093199ff91152f65792e19462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 61/61] fix: voronoi rejected valid circle events when rounding
 put their center just outside of an arc

---
 .../polygon/detail/voronoi_predicates.hpp     | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index c2311b8..2261505 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -1547,20 +1547,33 @@ class voronoi_predicates {
       }
       fpt_type dx = to_fpt(s.x1()) - to_fpt(s.x0());
       fpt_type dy = to_fpt(s.y1()) - to_fpt(s.y0());
-      return projects_before(c, to_fpt(s.x0()), to_fpt(s.y0()), dx, dy) ||
-             projects_before(c, to_fpt(s.x1()), to_fpt(s.y1()), -dx, -dy);
+      return projects_before(c, to_fpt(s.x0()), to_fpt(0.0),
+                             to_fpt(s.y0()), dx, dy) ||
+             projects_before(c, to_fpt(s.x1()), to_fpt(0.0),
+                             to_fpt(s.y1()), -dx, -dy);
     }
 
     // Returns true if the projection of the circle center onto the line going
-    // through the point (x, y) lies before that point in direction (dx, dy).
-    bool projects_before(const circle_type& c, fpt_type x, fpt_type y,
-                         fpt_type dx, fpt_type dy) {
-      fpt_type x_part = (c.x() - x) * dx;
+    // through the point (x + x_shift, y) lies before that point in direction
+    // (dx, dy). Events are ordered up to ULPS, hence the projections that
+    // change the rightmost point of the circle less than that are accepted.
+    bool projects_before(const circle_type& c, fpt_type x, fpt_type x_shift,
+                         fpt_type y, fpt_type dx, fpt_type dy) {
+      fpt_type x_part = (c.x() - (x + x_shift)) * dx;
       fpt_type y_part = (c.y() - y) * dy;
-      fpt_type error = (get_abs(c.x()) + get_abs(x)) * get_abs(dx) +
+      fpt_type error = (get_abs(c.x()) + get_abs(x) + get_abs(x_shift)) *
+                           get_abs(dx) +
                        (get_abs(c.y()) + get_abs(y)) * get_abs(dy);
       error *= to_fpt(ULPS) * (std::numeric_limits<fpt_type>::epsilon)();
-      return x_part + y_part < -error;
+      fpt_type sum = x_part + y_part;
+      if (!(sum < -error)) {
+        return false;
+      }
+      fpt_type radius = c.lower_x() - c.x();
+      fpt_type slack = (get_abs(c.x()) + radius) * to_fpt(ULPS) *
+                       (std::numeric_limits<fpt_type>::epsilon)();
+      return sum * sum >
+             (radius + radius + slack) * slack * (dx * dx + dy * dy);
     }
 
     // Neighboring arcs of a point and a segment meet on one of the two halves
@@ -1584,10 +1597,10 @@ class voronoi_predicates {
         dx = -dx;
         dy = -dy;
       }
-      fpt_type x = to_fpt(point.x()) +
-          distance_predicate_.find_distance_to_segment_arc(
-              segment, point.point0());
-      return projects_before(c, x, to_fpt(point.y()), dx, dy);
+      fpt_type x_shift = distance_predicate_.find_distance_to_segment_arc(
+          segment, point.point0());
+      return projects_before(c, to_fpt(point.x()), x_shift,
+                             to_fpt(point.y()), dx, dy);
     }
 
     static fpt_type get_abs(fpt_type value) {
-- 
2.43.0

