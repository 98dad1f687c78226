From 2b85bb2a206b08d77be45a9486e4506b210285f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 01/45] fix: Tetra::normal_direction declares its node pointers
 as pointers (it did not compile when used)

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..582500a 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -174,7 +174,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From 3c891847ca1aeb25a425d8aaca5a9bfc24c0fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 02/45] fix: composite dof map selection skipped components
 after one without dofs on the selected parts

---
 anifem++/fem/tetdofmap.cpp | 3 +--
 anifem++/fem/tetdofmap.inl | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..5bbf792 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -735,8 +735,7 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            for (++dim; dim != m_spaces.size(); ++dim){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..a95b84d 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -779,8 +779,7 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                for (++dim; dim != s.size(); ++dim){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
-- 
2.43.0


From 1d3afe67123cff228dc347c3c29a2da284230947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 03/45] fix: vector dof map split the index on an element by
 the number of dofs on all elements

---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 anifem++/fem/tetdofmap.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 5bbf792..b7fd915 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index a95b84d..6c14963 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -402,14 +402,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From a533bd35d5f447324cc34ecb62521ce68f6f6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 04/45] fix: element-by-element iteration over a composite dof
 map missed dofs or failed

---
 anifem++/fem/tetdofmap.cpp | 49 ++++----------------------------------
 anifem++/fem/tetdofmap.inl | 46 +++--------------------------------
 2 files changed, 7 insertions(+), 88 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b7fd915..6517324 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -235,7 +235,7 @@ void DofT::BaseDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalO
     } else {
         TetGeomSparsity sp_new = sp;
         for (int i = 0; i < next_pos.elem_dim; ++i) sp_new.unset(i);
-        BeginByGeomSparsity(sp_new, lo);
+        BeginByGeomSparsity(sp_new, lo, preferGeomOrdering);
     }
     return;
 }
@@ -706,18 +706,7 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
-            }
-        }
-        EndByGeomSparsity(lo);
+        BaseDofMap::BeginByGeomSparsity(sp, lo, true);
         return;
     }
 }
@@ -748,38 +737,8 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             return;
         }
     } else {
-        TetGeomSparsity ss;
-        auto gdim = GeomTypeDim(lo.etype);
-        ss.set(gdim, lo.nelem);
-        LocalOrder lgo = ll;
-        m_spaces[dim]->IncrementByGeomSparsity(ss, lgo, preferGeomOrdering);
-        // if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-        if (lgo != lend){
-            if (lgo.etype != lo.etype) num = GeomTypeToNum(lgo.etype);
-            lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
-            return;
-        } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
-                }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
-            }
-        }
+        BaseDofMap::IncrementByGeomSparsity(sp, lo, true);
+        return;
     }
 }
 
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6c14963..79b1e65 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -748,18 +748,7 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
-                }
-            }
-            EndByGeomSparsity(lo);
+            BaseDofMap::BeginByGeomSparsity(sp, lo, true);
             return;
         }
     }
@@ -792,37 +781,8 @@ namespace FemComDetails{
                 return;
             }
         } else {
-            TetGeomSparsity ss;
-            auto gdim = GeomTypeDim(lo.etype);
-            ss.set(gdim, lo.nelem);
-            LocalOrder lgo = ll;
-            s[dim]->IncrementByGeomSparsity(ss, lgo, preferGeomOrdering);
-            // if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-            if (lgo != lend){
-                if (lgo.etype != lo.etype) num = GeomTypeToNum(lgo.etype);
-                lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
-                return;
-            } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
-                    }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
-                }
-            }
+            BaseDofMap::IncrementByGeomSparsity(sp, lo, true);
+            return;
         }
     }
 
-- 
2.43.0


From 480edfdb605dcba2d6842ada0deb6778b913aeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 05/45] fix: complement of a set of geometric parts contained
 parts that do not exist

---
 anifem++/fem/tetdofmap.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 79b1e65..3d69a22 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -23,9 +23,10 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
     return res;
 }
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
+    static const uchar all[]{0xF, 0x3F, 0xF, 0x1};
     TetGeomSparsity res; 
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.elems[d] = ~a.elems[d] & all[d];
     return res;
 }
 
-- 
2.43.0


From 031aa07647601d1bce424e27a5d60c432f1d2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 06/45] fix: validity tests of dof locations compared the wrong
 fields

---
 anifem++/fem/tetdofmap.h   | 2 +-
 anifem++/fem/tetdofmap.inl | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..0aadc5a 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -99,7 +99,7 @@ namespace Ani{
             uchar nelem;    ///< number of geometrical element on the tetrahedron (from 0 to 3 for NODE or FACE, from 0 to 6 for EDGE, always 0 for CELL)
             LocGeomOrder(): leid(uint(-1)), etype(UNDEF), nelem(0) {}
             LocGeomOrder(uchar etype, uchar nelem, uint leid): leid{leid}, etype{etype}, nelem{nelem} {} 
-            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && leid < GeomTypeTetElems(etype); }
+            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && nelem < GeomTypeTetElems(etype); }
             bool operator==(const LocGeomOrder& a) const { return etype == a.etype && nelem == a.nelem && leid == a.leid; }
             bool operator!=(const LocGeomOrder& a) const { return !(*this == a); }
         };
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 3d69a22..4f3759e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -34,7 +34,8 @@ inline bool BaseDofMap::isValidIndex(LocalOrder dof_id, bool with_sym_order) con
     auto r = isValidIndex(dof_id.getTetOrder()) && isValidIndex(dof_id.getGeomOrder());
     if (r && with_sym_order){
         auto m = SymComponents(dof_id.etype);
-        r = ((m | DofSymmetries::MASK_UNDEF) || dof_id.lsid >= DofSymmetries::symmetries_amount(dof_id.etype)) ? false : (m | (1 << dof_id.stype));
+        r = !(m & DofSymmetries::MASK_UNDEF) && dof_id.stype < DofSymmetries::symmetries_amount(dof_id.etype) && (m & (1 << dof_id.stype))
+            && dof_id.lsid < DofSymmetries::symmetry_volume(dof_id.etype, dof_id.stype);
     } 
     return r; 
 }
-- 
2.43.0


From 9c2c701e433712e3d29d94653b7e371b32953553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 07/45] fix: iteration over a vector dof map started after the
 first component of its composite base

---
 anifem++/fem/tetdofmap.cpp | 4 ++++
 anifem++/fem/tetdofmap.h   | 1 +
 anifem++/fem/tetdofmap.inl | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 6517324..a914c90 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -470,6 +470,10 @@ std::shared_ptr<DofT::BaseDofMap> DofT::VectorDofMap::GetSubDofMap(const int* ex
     } else 
         return nullptr;
 }
+void DofT::VectorDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+    if (m_dim) base->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+    else EndByGeomSparsity(lo);
+}
 void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
     assert(isValidIndex(lo) && "Wrong index");
     int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(lo.etype);
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 0aadc5a..3bbf35f 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 4f3759e..9b226d6 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -387,6 +387,10 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override {
+            if (m_dim) m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+            else EndByGeomSparsity(lo);
+        }
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
-- 
2.43.0


From 79f8c8e0639b2bdb377ef784a745603c79e5c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 08/45] fix: S4::remap_local_order gave the face position in
 the frame of the sorted vertices

---
 anifem++/fem/tetdofmap.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 9b226d6..94727ce 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -230,6 +230,13 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
     }
     if (r.stype != uchar(-1))
         r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+    if (r.stype != uchar(-1) && dim == 2){
+        // the index above counts from the sorted vertices of the face, convert it to the local frame of the new face
+        const auto id = identity_perm();
+        uchar k = 0;
+        while (DofSymmetries::index_on_reorderd_elem(r.etype, r.nelem, r.stype, k, id.data()) != r.lsid) ++k;
+        r.lsid = k;
+    }
     r.gid = uint(-1);
     r.leid = uint(-1);
     return r;
-- 
2.43.0


From f16e5c54a452a523c8ce45d9f6b68de1df8e02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 09/45] fix: stabilizer of the cell lacked a generator

---
 anifem++/fem/tetdofmap.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 94727ce..85e11e4 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -335,6 +335,7 @@ inline StabilizerData stabilizer_data(const LocalOrder& repr){
     } else {
         sd.generators.push_back({1, 0, 2, 3});
         sd.generators.push_back({0, 2, 1, 3});
+        sd.generators.push_back({0, 1, 3, 2});
     }
     return sd;
 }
-- 
2.43.0


From e08659569a6decabb93dc2b8f8eb3b2c3d74ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 10/45] fix: dof permutation sent dofs with the same position
 to one dof

---
 anifem++/fem/tetdofmap.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 85e11e4..f7b8899 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -254,7 +254,15 @@ inline void build_dof_permutation(const BaseDofMap& map, const uchar sigma[4], d
     for (int j = 0; j < n; ++j){
         auto lo = map.LocalOrderOnTet(TetOrder(j));
         auto lo_new = remap_local_order(lo, sigma);
+        // several dofs may share one position (components of a vector, groups of one class): keep their order
+        int same_pos = 0;
+        for (int i = 0; i < j; ++i)
+            if (same_geom_sym(map.LocalOrderOnTet(TetOrder(i)), lo)) ++same_pos;
         int new_j = find_tet_dof(map, lo_new);
+        for (; new_j >= 0 && same_pos > 0; --same_pos){
+            do { ++new_j; } while (new_j < n && !same_geom_sym(map.LocalOrderOnTet(TetOrder(new_j)), lo_new));
+            if (new_j >= n) new_j = -1;
+        }
         if (new_j < 0) continue;
         double s = 1.0;
         if (lo.etype == EDGE_ORIENT){
-- 
2.43.0


From 017b5ab4a17b0692005e5ac9a9cefcba879d6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 11/45] fix: applyVectorDirMatrix wrote past its work memory
 (column 1 of a one-column matrix)

---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..e760006 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From 93e271ba5d8010054f402fc3c458a62afc82f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 12/45] fix: applyVectorDir with several directions changed the
 values prescribed along the first ones

---
 anifem++/fem/operations/dc_on_dof.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index e760006..65344c6 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -107,8 +107,10 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            // only now: the elimination above changes the constrained entries too
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k]; 
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From 7a376e23331a4a19d1c45ce6520aa208246cc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 13/45] fix: tensor with per-call type got tetrahedron number 0
 for every tetrahedron of a fused call

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From afdee4ccb753c0eb4e7799b9b893e57d3d879d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 14/45] fix: fem3DpntX with fewer weights than points wrote
 barycentric coordinates past its memory

---
 anifem++/fem/operations/int_pnt.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index b7f8773..4c8063f 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -125,7 +125,7 @@ namespace Ani{
         ScalarType XYLp[4*24];
         ArrayView<ScalarType> XYL(XYLp, 4*q);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
-        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, XYL, mem.PSI);
+        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const ScalarType>(X.data, 3*q), XYL, mem.PSI);
         mem.XYL = XYL;
         internalFem3DtetGeomInit_XYG(XYZ.XY0, mem);
 
@@ -150,7 +150,7 @@ namespace Ani{
             fem3Dtet_init_animem_from_plain_memory<OpA, OpB, ScalarType, IndexType, true, false>(q, f, plainMemory);
         
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
-        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, mem.XYL, mem.PSI);
+        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const ScalarType>(X.data, 3*q), mem.XYL, mem.PSI);
         mem.WG.Init(WG.data, q);
         internalFem3DtetGeomInit_XYG(XYZ.XY0, mem);
 
@@ -218,7 +218,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, double, int, -1> func(Dfnc);
         auto amem = fem3D_init_animem_from_plain_memory(applyOpU, applyOpV, func, q, f, mem, dotWithNormal, copyQuadVals);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, amem);
-        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, amem.XYL, amem.PSI);
+        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const double>(X.data, 3*q), amem.XYL, amem.PSI);
         amem.WG.Init(WG.data, q);
         internalFem3DtetGeomInit_XYG(XYZ.XY0, amem);
         std::fill(amem.MES.data, amem.MES.data+f, 1);
-- 
2.43.0


From 520d975b16dce2a748a0659d10ff730f8a9ecd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 15/45] fix: fem3DpntL with external memory ignored the number
 of weights, unlike the other versions

---
 anifem++/fem/operations/int_pnt.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index 4c8063f..a096c4c 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -88,7 +88,7 @@ namespace Ani{
         assert(f > 0 && "Coordinate arrays shouldn't be free");
         assert(A.size >= static_cast<std::size_t>(OpB::Nfa::value * OpA::Nfa::value * f) && "Not enough memory to save A matrix");
         A.nRow = OpB::Nfa::value; A.nCol = OpA::Nfa::value * f;
-        int q = XYL.size/4;
+        int q = std::min(XYL.size/4, WG.size);
 #ifndef	NDEBUG
         auto t = fem3DpntL_memory_requirements<OpA, OpB, ScalarType, IndexType>(q, f);
         assert(plainMemory.ddata && plainMemory.dSize >= t.dSize && "Not enough of plain memory");
-- 
2.43.0


From d74878956c2f2371758fa80cddd365a3bfddb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 16/45] fix: product of fused matrices accumulated into
 uninitialised memory for all but the first pair

---
 anifem++/fem/operations/core.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..b3adc25 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + ARow * BCol * fuse, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
-- 
2.43.0


From ae5c54c175604141a31941c9f3421acba437b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 17/45] fix: evaluation of vector variables on several
 tetrahedra or points used wrong rows, columns and tetrahedron blocks

---
 anifem++/fem/operations/core.inl | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index b3adc25..baf603a 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -385,18 +385,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
+                    auto VmCol = Vm.stCol[db+1] - Vm.stCol[db];
                     double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
                     double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
+                    double* from = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + r*dim*mem.q + dim*n + Vm.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
@@ -494,18 +495,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + r*dimA*mem.q + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }     
@@ -540,18 +542,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = mem.V.data + r*dimA*mem.q + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
-- 
2.43.0


From 05304ed80afbf4558ae174ba47e1831f80819f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 18/45] fix: memory announced for evaluation of static
 operators lacked the buffer used for vector variables

---
 anifem++/fem/operations/eval.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..e463293 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -6,6 +6,7 @@ namespace Ani{
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
         extraR = std::max(extraR, static_cast<std::size_t>(1*Op::Nfa::value*f));
+        extraR = std::max(extraR, static_cast<std::size_t>(Op::Dim::value)*q*f);
         IndexType DU = 0, DIFF = 0;
         IndexType XYG = 3*q*f, XYP = 3*4*f, PSI = 3*3*f, DET = f, MES = f, NRM = 0, XYL = 0, WG = 0;
         pm.dSize = Usz + DU + DIFF + XYG + XYP + PSI + DET + MES + NRM + extraR + XYL + WG;
@@ -55,10 +56,10 @@ namespace Ani{
 
     template<typename Op, typename ScalarType = double, typename IndexType = int>
     inline PlainMemory<ScalarType, IndexType> __internal_fem3DapplyL_setmem(AniMemory<ScalarType, IndexType>& mem, int q, int f, int nfa, int dim, PlainMemory<ScalarType, IndexType> plainMemory){
-        (void) dim;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
         extraR = std::max(extraR, static_cast<std::size_t>(1*nfa*f));
+        extraR = std::max(extraR, static_cast<std::size_t>(dim)*q*f);
         //IndexType DU_sz = 0, DIFF_sz = 0;
         IndexType XYG_sz = 3*q*f, XYP_sz = 3*4*f, PSI_sz = 3*3*f, DET_sz = f, MES_sz = f;// NRM_sz = 0, XYL_sz = 0, WG_sz = 0;
         ScalarType* p = plainMemory.ddata;
-- 
2.43.0


From 30e2b7f8b764f7546c2eaaf98f2f10561921e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 19/45] fix: evaluation with stack memory accepted four times
 more points than its memory holds

---
 anifem++/fem/operations/eval.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index e463293..ae0bfcc 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -50,7 +50,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
-- 
2.43.0


From fe0236e3dfa7ed4db60c0125f66ba7a8f8abc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 20/45] fix: releasing work memory blocks out of order let
 later blocks overlap live ones

---
 anifem++/fem/fem_memory.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..53c7d5d 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::size_t ntop = 0;   //number of memory parts stacked in the chunk including released ones below a used part
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +486,7 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->ntop++;
             chunk->nparts++;
             return res;
         }
@@ -509,10 +510,12 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
+            if (part_id + 1 == chunk.ntop){
                 chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
+                chunk.ntop--;
+            }
             if (chunk.nparts == 0)
-                chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.rbusy = chunk.ibusy = chunk.mbusy = chunk.ntop = 0;
         }
     public:    
     //protected:
-- 
2.43.0


From 76467937ba249fa1efe4ed811b73cf87a30d517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 21/45] fix: interval map accepted conflicting intervals, lost
 keys of unbounded maps and changed on rejected insertions

---
 anifem++/interval/interval_map.inl | 54 +++++++++++-------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..edb8cf6 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -62,6 +62,7 @@ namespace Ani{
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
             if (!m_comp(key, it_ed->first.m_start)) return true;
+            if ((boundary_status & 1) && it_ed == m_map_list.begin()) return true;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
@@ -128,8 +129,8 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const std::pair<interval<key_type>, mapped_type>* it, const key_type& key) const {
         if (m_map_list.empty()) return false;
-        // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
-        //     return true;
+        if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
+            return true;
         if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
             return !m_comp(key, it->first.m_start);
         if ((boundary_status & 1) && it == &(*m_map_list.begin()))
@@ -145,6 +146,7 @@ namespace Ani{
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
             if (!m_comp(key, it_ed->first.m_start)) return it_ed;
+            if ((boundary_status & 1) && it_ed == m_map_list.begin()) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
         if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
@@ -195,41 +197,23 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::insert(key_type start_interval, key_type end_interval, const mapped_type& value, unsigned char bnd_type){
         if (m_comp(end_interval, start_interval) || (bnd_type == 0 && start_interval == end_interval)) 
             return {m_map_list.end(), false};
-        // if (!m_comp(start_interval, end_interval)) return {m_map_list.end(), false};
-        if (boundary_status & 1)
-            m_map_list.front().first.m_start = std::min(m_map_list.front().first.m_start, start_interval, m_comp);
-        if (boundary_status & 2)
-            m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
-        
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
-        auto it_st0 = it_st;
-        if (it_st != m_map_list.begin()){
-            auto it_prev = std::prev(it_st);
-            if (it_prev->first.m_end == start_interval && it_prev->second == value)
-                it_st = it_prev;     
-        }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
+        auto left_inf  = [this](const auto& a){ return (boundary_status & 1) && &a == &m_map_list.front(); };
+        auto right_inf = [this](const auto& a){ return (boundary_status & 2) && &a == &m_map_list.back(); };
+        // [it_st, it_end) are stored intervals that overlap with new interval or have common end with it
+        auto it_st = std::partition_point(m_map_list.begin(), m_map_list.end(), 
+            [&](const auto& a){ return !(bnd_type & 1) && !right_inf(a) && m_comp(a.first.m_end, start_interval); });
+        auto it_end = std::partition_point(it_st, m_map_list.end(), 
+            [&](const auto& a){ return (bnd_type & 2) || left_inf(a) || !m_comp(end_interval, a.first.m_start); });
+        // interval that only has common end with the new one doesn't conflict with it
+        if (it_st != it_end && it_st->second != value && !(bnd_type & 1) && !right_inf(*it_st) && !m_comp(start_interval, it_st->first.m_end))
+            ++it_st;
+        if (it_st != it_end){
+            auto it_last = std::prev(it_end);
+            if (it_last->second != value && !(bnd_type & 2) && !left_inf(*it_last) && !m_comp(it_last->first.m_start, end_interval))
+                it_end = it_last;
         }
-        auto it_end0 = it_end;
-        if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
-            ++it_end;
         
-        for (auto it = it_st0; it != it_end0; ++it) if (it->second != value)
+        for (auto it = it_st; it != it_end; ++it) if (it->second != value)
             return {it, false};
         
         auto it = it_st;
-- 
2.43.0


From f6cc0e7e73732e8f8bd5b6cb4d4604f54f6ae72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 22/45] fix: operator>= of iterators of externally stored
 interval tables

---
 anifem++/interval/interval_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..1e78ebf 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -74,7 +74,7 @@ struct interval_external_memory{
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-- 
2.43.0


From 691c993248b2790ceb8c3d929c1faef6e920fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 23/45] fix: array enumerations: iterator moves and
 comparisons, lookups of absent arrays, empty ranges

---
 anifem++/interval/ext_array_enum.h   |  11 +-
 anifem++/interval/ext_array_enum.inl | 145 ++++++---------------------
 2 files changed, 34 insertions(+), 122 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..8c37277 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -10,7 +10,8 @@
 #include <set> 
 #include <array>
 #include <algorithm>
-#include <iterator> 
+#include <iterator>
+#include <limits>
 #include <iostream>
 #include <cassert>
 #include "interval_enum.h"
@@ -83,7 +84,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -91,7 +92,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -113,7 +114,7 @@ public:
     bool contains(const std::array<UInt, N+1>& i) const;
     std::size_t count(const std::array<UInt, N+1>& i) const { return contains(i) ? 1 : 0; }
     iterator begin(GInt i = 0) const;
-    iterator end() const{ iterator x; x.id.first = m_size; return x; }
+    iterator end() const{ iterator x; x.ptr = this; x.id.first = m_size; return x; }
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
@@ -171,7 +172,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..6487c59 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -20,6 +20,7 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     };
     auto sum_part_ids = [make_check](UInt st, UInt ed, UInt at, const std::map<std::array<UInt, N>, GInt>& rw){
         std::map<std::array<UInt, N>, GInt> w1;
+        if (rw.empty()) return w1;
         auto check_st = make_check(st);
         auto check_ed = make_check(ed);
         
@@ -71,6 +72,8 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     };
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     UInt n = insert_pos, m = depends_on;
+    // base elements with empty range do not contribute to the extended set
+    m_ord.erase(std::remove_if(m_ord.begin(), m_ord.end(), [this, m](const std::array<UInt, N>& a) { return !(rg_size(a[m]) > 0); }), m_ord.end());
     
     std::map<std::array<UInt, N>, GInt> _r, _w, _p, _q;
     std::map<std::array<UInt, N>, std::map<GInt, GInt>> _qr; 
@@ -735,118 +738,17 @@ bool ext_range_array_enum<N, RangeFunc, UInt, GInt>::contains(const std::array<U
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
 typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_array_enum<N, RangeFunc, UInt, GInt>::lower_bound(const std::array<UInt, N+1>& i) const{
-    auto make_check = [](UInt t){
-        return [t](const std::array<UInt, N>& a, const std::array<UInt, N>& b){
-            for (unsigned i = 0; i < t; ++i)
-                if (a[i] != b[i]) return false;
-            return true;    
-        };
-    };
-    auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
-    auto compare_arr_key = [compare_arr](const auto& a, const auto& b) { return compare_arr(a.first, b); };
-
-    auto res = i;
-    auto beta = [&id = res, n = insert_pos]() -> UInt& { return id[n]; };
-    auto alpha = [&id = res, n = insert_pos](UInt k) -> UInt& { return id[k + (k >= n ? 1 : 0)]; };
-    UInt n = insert_pos, m = depends_on;
-    std::array<UInt, N> id;
-    std::copy(i.data(), i.data() + insert_pos, id.data());
-    std::copy(i.data() + insert_pos+1, i.data() + i.size(), id.data()+insert_pos);
-    
-    auto jt = m_ord.begin();
-    if (n > 0){
-        auto jd = id;
-        std::fill(jd.begin() + n, jd.end(), 0);
-        jt = std::lower_bound(m_ord.begin(), m_ord.end(), jd, compare_arr);
-        if (jt == m_ord.end())
-            return end(); 
-        if (!make_check(n)(id, *jt)){  
-            std::copy(jt->begin(), jt->begin()+n, res.begin()); 
-            beta() = 0;
-            std::copy(jt->begin()+n, jt->end(), res.begin()+n+1);
-            return begin(this->operator[](res));
-        }      
-    }
-    if (n > m){
-        if (beta() >= rg_size(id[m])){
-            auto jd = id;
-            std::fill(jd.begin() + n, jd.end(), 0);
-            jd[n-1]++;
-            jt = std::lower_bound(jt, m_ord.end(), jd, compare_arr);
-            if (jt == m_ord.end())
-                return end();
-            beta() = 0;
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*jt)[k];
-            return begin(this->operator[](res));
-        }
-        auto it = std::lower_bound(jt, m_ord.end(), id, compare_arr);
-        if (it != m_ord.end() && make_check(n)(id, *it)){
-            std::copy(it->begin() + n, it->end(), res.begin() + n + 1);
-            return begin(this->operator[](res));
-        } else if (beta()+1 < rg_size(id[m])){
-            std::copy(jt->begin() + n, jt->end(), res.begin() + n + 1);
-            ++beta();
-            return begin(this->operator[](res));
-        } else {
-            if (it == m_ord.end()) return end();
-            std::copy(it->begin(), it->begin()+n, res.begin()); 
-            beta() = 0;
-            std::copy(it->begin()+n, it->end(), res.begin()+n+1);
-            return begin(this->operator[](res));
-        }
-    } else {
-        auto set_next_start = [&](){
-            if (n == 0) return end();
-            auto iid = id;
-            std::fill(iid.begin() + n, iid.end(), 0);
-            iid[n-1]++;
-            auto iit = std::lower_bound(jt, m_ord.end(), iid, compare_arr);
-            if (iit == m_ord.end())
-                return end();
-            beta() = 0;  
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*iit)[k];
-            return begin(this->operator[](res));  
-        };
-
-        auto jd = id;
-        std::fill(jd.begin() + n, jd.end(), 0);
-        auto it_qr = std::lower_bound(m_qr.begin(), m_qr.end(), jd, compare_arr_key);
-        auto b = m_qrb[it_qr->second.second - 1].first;
-        
-        if (beta() >= b)
-            return set_next_start();
-
-        auto it_r = std::lower_bound(m_r.begin(), m_r.end(), jd, compare_arr_key);
-        auto check_st = make_check(n);
-        auto check_ed = make_check(m+1);
-        auto it_add = m_r.end();
-        jd = id; 
-        std::fill(jd.begin() + m+1, jd.end(), 0);
-        for (auto it = it_r; it != m_r.end() && check_st(it->first, jd); ++it){
-            if (beta() >= rg_size(it->first[m])) continue;
-            if (!compare_arr(it->first, jd)){
-                auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
-                    for (unsigned k = 0; k < N; ++k)
-                        alpha(k) = (*kt)[k];
-                    return begin(this->operator[](res));    
-                }
-            }
-            if (it_add == m_r.end() && beta()+1 < rg_size(it->first[m]))
-                it_add = it;
-        }
-        if (it_add != m_r.end()){
-            beta()++;
-            auto kt = std::lower_bound(jt, m_ord.end(), it_add->first, compare_arr);
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*kt)[k];
-            return begin(this->operator[](res));
-        }
-
-        return set_next_start();
+    // elements are enumerated in lexicographical order, hence bisection by position
+    GInt st = 0, ed = m_size;
+    while (st < ed){
+        GInt mid = st + (ed - st) / 2;
+        auto b = this->operator[](mid);
+        if (std::lexicographical_compare(b.begin(), b.end(), i.begin(), i.end()))
+            st = mid + 1;
+        else
+            ed = mid;
     }
+    return find(st);
 }
 
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
@@ -872,14 +774,19 @@ template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, ty
 typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator& ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator::operator --(){
     auto n = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
-    auto x = (it2 != ptr->m_arr_enum.end()) ? it2->second[m] : UInt(-1);
+    bool at_end = (it2 == ptr->m_arr_enum.end());
+    auto x = it2->second[m];
     --it2;
     auto v2 = *it2;
-    auto v1 = *it1;
-    if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(v1.first))
-        --it1;
-    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(v1.first))
+    if (at_end || v2.second[m] != x)
         it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
+    else {
+        auto v1 = *it1;
+        if (v2.second[n] + 1 == static_cast<UInt>(v1.first))
+            --it1;
+        else if (v2.second[n] != static_cast<UInt>(v1.first))
+            it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
+    }
     val = std::move(v2);
     val.second[n] = it1->second;
     return *this;   
@@ -889,6 +796,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 += n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -900,6 +809,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 -= n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -914,7 +825,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
-- 
2.43.0


From ff12da8e1b887102597a57e3cc880f3ef99377aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 24/45] fix: autodiff: second derivatives of quotients, powers
 at zero, hypot of one operand and of constants

---
 anifem++/autodiff/autodiff.h   | 11 +++++++++--
 anifem++/autodiff/autodiff.inl | 25 ++++++++++++-------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..7a5dc14 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,13 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +183,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +202,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+DivVal<_EXParam<EX1>, EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..633f02d 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -154,17 +154,12 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
         }
     }
     HT r;
-    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
-        (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
-        && dif >= 2){
+    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv) && dif >= 2){
         CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
-            auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
-        }
+        CONSTIF (EX2::State::NotTrivialDeriv ) r += (2 * av / (bv * bv * bv)) * HT::TensorSquare(bm);
+        CONSTIF (EX2::State::NotTrivialSecondDeriv ) r -= (av / (bv * bv)) * b.DD();
     }
     return {dif, v, m, r};
 }
@@ -178,17 +173,20 @@ FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q){
     auto v = EX1::Storage::MathOps::pow(av, q);
     CONSTIF (!EX1::State::NotTrivialDeriv)
         return {dif, v, GT(), HT()};
+    // av^(q-k) for k = 1, 2
+    auto pow_shift = [&](int k) -> VT { return av != VT(0) ? v / (k == 1 ? av : av*av) : EX1::Storage::MathOps::pow(av, q - k); };
     GT am, m;
     CONSTIF (EX1::State::NotTrivialDeriv)
         if (dif >= 1){
             am = a.D();
-            m = (q * v / av) * am;
+            m = (q * pow_shift(1)) * am;
         }    
     HT r;
     if (dif >= 2){
-        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(0)) * HT::TensorSquare(am);
+        if (q != 1)
+            r += (q * (q - 1) * pow_shift(2)) * HT::TensorSquare(am);
         CONSTIF (EX1::State::NotTrivialSecondDeriv )
-            r += (av != VT(0) ? q * v / av : VT(0)) * a.DD();    
+            r += (q * pow_shift(1)) * a.DD();    
     } 
     return {dif, v, m, r};
 }
@@ -342,7 +340,7 @@ template<typename EX1, typename ADCheck1<EX1>::type* Dummy>
 FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     using VT = typename EX1::Storage::ValueType; using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     if (nvec == 0) return FuncVal<EX1>();
-    if (nvec == 1) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+    if (nvec == 1) { auto r = abs(vec[0]); return FuncVal<EX1>(r.m_dif, r(), r.D(), r.DD()); }
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
@@ -350,6 +348,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
         v = EX1::Storage::MathOps::sqrt(v2);
     }
     unsigned char dif = vec[0].m_dif;
+    for (::std::size_t i = 1; i < nvec; ++i) dif = std::max(dif, static_cast<unsigned char>(vec[i].m_dif));
     GT m;
     HT r;
     CONSTIF (EX1::State::NotTrivialDeriv){
-- 
2.43.0


From 322225913f297538f5a9a88c9067d6532d86f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 25/45] fix: BiSymTensor4Rank: index of a stored component

---
 anifem++/autodiff/physical_tensors.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..bfaa5f3 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,12 +427,12 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
-- 
2.43.0


From ac882247841c7752dfb636777fdf549ebc3866ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:57 +0000
Subject: [PATCH 26/45] fix: determinant of full and symmetric matrices of any
 dimension (elimination steps were skipped, symmetric storage was half
 updated)

---
 anifem++/autodiff/physical_tensors.inl | 53 ++++++--------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 38d09ed..1c0a4d4 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -329,8 +329,6 @@ namespace Ani{
     template<std::size_t N, typename FT>
     FT PhysMtx<N, FT>::Det() const {
         using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
 
         PhysMtx<N, FT> A(*this);
         std::array<std::size_t, N> row_visited;
@@ -338,57 +336,28 @@ namespace Ani{
         std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
         FT ret(1);
         for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
+            // find unvisited row with the largest value in column d
+            std::size_t r = N;
+            for (std::size_t i = 0; i < N; ++i)
+                if (row_visited[i] == NOT_VISITED && (r == N || abs(A(i, d)) > abs(A(r, d)))) 
+                    r = i;
+            if (A(r, d) == FT(0)) return FT();
             int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
+            for (std::size_t i = 0; i < r; ++i)
+                if (row_visited[i] == NOT_VISITED) sign *= -1;
             row_visited[r] = d;
             ret *= sign * A(r, d);
             for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
                 FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = 0; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
+                for (std::size_t j = d; j < N; ++j)
+                    A(i, j) = A(i, j) - coef * A(r, j);
             }
         }
         return ret;
     }
 
     template<std::size_t N, typename FT>
-    FT SymMtx<N, FT>::Det() const {
-        using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
-        SymMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
-        FT ret(1);
-        for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = i; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
-            }
-        }
-        return ret;
-    }
+    FT SymMtx<N, FT>::Det() const { return PhysMtx<N, FT>(*this).Det(); }
     template<std::size_t N, typename FT>
     inline PhysMtx<N, FT> PhysMtx<N, FT>::TensorSymMul2(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s){
         PhysMtx<N, FT> r;
-- 
2.43.0


From 68912e11cf977a658b4406a0c1bedab132d39791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:57 +0000
Subject: [PATCH 27/45] fix: iterators of symmetric tensors beyond position
 127, index duplication of BiSymTensor4Rank<2>

---
 anifem++/autodiff/physical_tensors.h      | 12 ++++++------
 anifem++/autodiff/physical_tensors_3d.inl | 12 ++++++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index bfaa5f3..326e48f 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -107,8 +107,8 @@ struct SymMtx{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -335,8 +335,8 @@ struct SymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -471,8 +471,8 @@ struct BiSymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 860e0df..c0d4e19 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -25,6 +25,10 @@ struct SymMtx<3, FT>{
         std::size_t operator[](std::size_t n) const { return id[n]; }
     };
     
+    struct IndexMap {
+        std::size_t imap[6] = {0, 0, 0, 1, 1, 2};
+        std::size_t jmap[6] = {0, 1, 2, 1, 2, 2};
+    };
     static Index index(unsigned char continuous_index){
         static const std::array<Index, 6> ids = { 
             Index{0, 0}, Index{0, 1}, Index{0, 2}, 
@@ -68,8 +72,8 @@ struct SymMtx<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -491,8 +495,8 @@ struct BiSymTensor4Rank<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
-- 
2.43.0


From c8b309918b8aad5e6ec593ddddaa3431ba5ab3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 28/45] fix: cholesky_solve with Eigen reports a matrix that is
 not positive definite

---
 anifem++/fem/geometry.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 582500a..754adef 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -214,7 +214,10 @@ namespace Ani{
         using namespace Eigen;
         const Map<MatrixX<Scalar>> Am(const_cast<Scalar*>(A), N, N), Bm(const_cast<Scalar*>(B), N, M);
         Map<MatrixX<Scalar>> Xm(X, N, M);
-        Xm = Am.llt().solve(Bm);
+        LLT<MatrixX<Scalar>> llt(Am);
+        if (llt.info() != Success)
+            throw std::runtime_error("Faced not positive definite matrix");
+        Xm = llt.solve(Bm);
     #else
         Scalar* L = mem;
         #define ID(i, j) ( (i-j) + (2*N + 1 - j)*j/2 )
-- 
2.43.0


From 2ced2cecf4077780e0c509e4171de5051c08def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 29/45] fix: full pivoting LU: elimination was skipped for
 small multipliers, singular matrices are reported, inverse may coincide with
 the matrix

---
 anifem++/fem/geometry.h | 47 ++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 754adef..ae18665 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -289,6 +289,9 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            //the rest of the matrix is zero, there is nothing to eliminate
+            if (pi < 0)
+                break;
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
@@ -297,20 +300,15 @@ namespace Ani{
             std::swap(q[k], q[pj]);
             for (int i = 0; i < N; i++)
                 std::swap(A(i, k), A(i, pj));
-            Scalar max1 = 0.0;
-            for (int i = k+1; i < N; i++) 
-                max1 = std::max(max1, std::fabs(A(i, k)));    
             //END PIVOT
     
-            //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
-                for (int i = k+1; i < N; i++){
-                    //Column normalisation
-                    Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-                    for (int j = k+1; j < N; j++){
-                        //a(ik)*a(kj) subtracted from lower right submatrix elements
-                        A(i, j) -= (tmp * A(k, j));
-                    }
+            //decompose
+            for (int i = k+1; i < N; i++){
+                //Column normalisation
+                Scalar tmp = ( A(i,k) /= A(k,k) ) ;
+                for (int j = k+1; j < N; j++){
+                    //a(ik)*a(kj) subtracted from lower right submatrix elements
+                    A(i, j) -= (tmp * A(k, j));
                 }
             }
             //END DECOMPOSE
@@ -327,6 +325,9 @@ namespace Ani{
     /// @param X is memory for solution, shouldn't coincide with B
     template<typename Scalar>
     inline void LU_solve(const Scalar* LU, int N, const int* p, const int* q, Scalar* B, Scalar* X, int M){
+        for (int i = 0; i < N; ++i)
+            if (LU[i + N*i] == 0)
+                throw std::runtime_error("Faced singular matrix");
         //x=Px
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
@@ -374,7 +375,10 @@ namespace Ani{
         using namespace Eigen;
         const Map<MatrixX<Scalar>> Am(const_cast<Scalar*>(A), N, N), Bm(const_cast<Scalar*>(B), N, M);
         Map<MatrixX<Scalar>> Xm(X, N, M);
-        Xm = Am.fullPivLu().solve(Bm);
+        FullPivLU<MatrixX<Scalar>> lu(Am);
+        if (!lu.isInvertible())
+            throw std::runtime_error("Faced singular matrix");
+        Xm = lu.solve(Bm);
 #else        
         Scalar* Am = mem;
         int *p = imem, *q = imem + N;
@@ -399,12 +403,21 @@ namespace Ani{
         using namespace Eigen;
         const Map<MatrixX<Scalar>> Am(const_cast<Scalar*>(A), N, N);
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
-        Invm = Am.fullPivLu().inverse();
+        FullPivLU<MatrixX<Scalar>> lu(Am);
+        if (!lu.isInvertible())
+            throw std::runtime_error("Faced singular matrix");
+        Invm = lu.inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
+        Scalar* Am = mem;
+        int *p = imem, *q = imem + N;
+        Scalar* Bm = mem + N*N;
+        std::copy(A, A + N*N, Am);
+        std::fill(Bm, Bm + N*N, 0);
         for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+            Bm[i+i*N] = 1;
+        for (int i = 0; i < N; ++i) p[i] = q[i] = i;
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From 49c8f2e52e4c75c73ee0a6fcfdc93c9ee71cfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 30/45] fix: Householder QR of matrices with small entries

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index ae18665..2429b0d 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -451,7 +451,7 @@ namespace Ani{
             for (int i = k; i < N; ++i)
                 norm += W(i, k) * W(i, k);
             norm = std::sqrt(norm);
-            if (norm <= std::numeric_limits<Scalar>::epsilon()){
+            if (norm <= 0){
                 tau[k] = 0;
                 v[k] = 1;
                 for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From c77db3b74baf3f609b95de88998a198dfc1af716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 31/45] fix: jacobiSVD: convergence, small matrices, orthogonal
 factors of rank deficient matrices

---
 anifem++/fem/geometry.h | 154 +++++++++++++++++++++-------------------
 1 file changed, 80 insertions(+), 74 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 2429b0d..82853fe 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -518,14 +518,17 @@ namespace Ani{
                 for (int i = 0; i < n; ++i)
                     evecs[i + j*n] = (i == j) ? 1 : 0;
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
+            Scalar scale = 0;
+            for (int i = 0; i < n*n; ++i)
+                scale = std::max(scale, std::fabs(sym[i]));
+            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon() * scale;
             int err = 1;
             for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
                 Scalar off = 0;
                 for (int p = 0; p < n; ++p)
                     for (int q = p + 1; q < n; ++q)
-                        off += sym[p + q*n] * sym[p + q*n];
-                if (off <= tol * tol){
+                        off = std::max(off, std::fabs(sym[p + q*n]));
+                if (off <= tol){
                     err = 0;
                     break;
                 }
@@ -537,7 +540,9 @@ namespace Ani{
                             continue;
                         Scalar app = sym[p + p*n];
                         Scalar aqq = sym[q + q*n];
-                        Scalar theta = Scalar(0.5) * std::atan2(Scalar(2) * apq, aqq - app);
+                        // the smaller of two possible angles, otherwise iterations may cycle
+                        Scalar theta = (aqq >= app) ? Scalar(0.5) * std::atan2(Scalar(2) * apq, aqq - app)
+                                                    : Scalar(0.5) * std::atan2(-Scalar(2) * apq, app - aqq);
                         Scalar c = std::cos(theta);
                         Scalar s = std::sin(theta);
 
@@ -586,42 +591,82 @@ namespace Ani{
             }
         }
 
+        /// Subtract from the column j its projections onto the previous (orthonormal) columns and normalise it
+        /// @return norm of the column before normalisation 
+        template<typename Scalar>
+        inline Scalar orthonormalize_col(Scalar* q, int n, int j){
+            for (int c = 0; c < j; ++c){
+                Scalar dot = 0;
+                for (int i = 0; i < n; ++i)
+                    dot += q[i + c*n] * q[i + j*n];
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] -= dot * q[i + c*n];
+            }
+            Scalar norm = 0;
+            for (int i = 0; i < n; ++i)
+                norm += q[i + j*n] * q[i + j*n];
+            norm = std::sqrt(norm);
+            if (norm > 0)
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] /= norm;
+            return norm;
+        }
+
         template<typename Scalar>
         inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
-            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
             for (int j = n_done; j < n; ++j){
-                for (int i = 0; i < n; ++i)
-                    q[i + j*n] = (i == (j - n_done) % n) ? 1 : 0;
-                for (int c = 0; c < j; ++c){
-                    Scalar dot = 0;
-                    for (int i = 0; i < n; ++i)
-                        dot += q[i + c*n] * q[i + j*n];
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] -= dot * q[i + c*n];
+                // choose coordinate vector which is the farthest from the span of previous columns
+                int best = 0;
+                Scalar best_proj = 0;
+                for (int i = 0; i < n; ++i){
+                    Scalar proj = 0;
+                    for (int c = 0; c < j; ++c)
+                        proj += q[i + c*n] * q[i + c*n];
+                    if (i == 0 || proj < best_proj){
+                        best = i;
+                        best_proj = proj;
+                    }
                 }
-                Scalar norm = 0;
                 for (int i = 0; i < n; ++i)
-                    norm += q[i + j*n] * q[i + j*n];
-                norm = std::sqrt(norm);
-                if (norm <= eps){
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] = (i == (j + 1) % n) ? 1 : 0;
-                    for (int c = 0; c < j; ++c){
-                        Scalar dot = 0;
-                        for (int i = 0; i < n; ++i)
-                            dot += q[i + c*n] * q[i + j*n];
-                        for (int i = 0; i < n; ++i)
-                            q[i + j*n] -= dot * q[i + c*n];
-                    }
-                    norm = 0;
-                    for (int i = 0; i < n; ++i)
-                        norm += q[i + j*n] * q[i + j*n];
-                    norm = std::sqrt(norm);
+                    q[i + j*n] = (i == best) ? 1 : 0;
+                // the second pass removes rounding errors of the first one
+                orthonormalize_col(q, n, j);
+                orthonormalize_col(q, n, j);
+            }
+        }
+
+        /// Singular values and left singular vectors of n x m matrix B, n >= m, from the eigenvectors of B^T*B,
+        /// B(i, j) = a[i*row_shift + j*col_shift]
+        template<typename Scalar>
+        inline void svd_from_eigen(const Scalar* a, int row_shift, int col_shift, int n, int m, Scalar* evecs, Scalar* s, Scalar* u){
+            auto mul = [&](int i, int j){
+                Scalar sum = 0;
+                for (int t = 0; t < m; ++t)
+                    sum += a[i*row_shift + t*col_shift] * evecs[t + j*m];
+                return sum;
+            };
+            for (int j = 0; j < m; ++j){
+                Scalar norm = 0;
+                for (int i = 0; i < n; ++i){
+                    Scalar v = mul(i, j);
+                    norm += v*v;
                 }
-                if (norm > eps)
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] /= norm;
+                s[j] = std::sqrt(norm);
             }
+            sort_eigen_desc(s, evecs, m);
+            if (u == nullptr)
+                return;
+            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
+            int rank = 0;
+            for (; rank < m && s[rank] > eps * s[0]; ++rank){
+                for (int i = 0; i < n; ++i)
+                    u[i + rank*n] = mul(i, rank) / s[rank];
+                // stop if the column consists of rounding errors
+                if (orthonormalize_col(u, n, rank) < Scalar(0.5))
+                    break;
+                orthonormalize_col(u, n, rank);
+            }
+            complete_orthonormal_cols(u, n, rank);
         }
 
         template<typename Scalar>
@@ -684,7 +729,6 @@ namespace Ani{
         }
         return 0;
 #else
-        const Scalar eps = std::numeric_limits<Scalar>::epsilon();
         Scalar* gram = mem;
         Scalar* evecs_buf = mem + K*K;
         Scalar* eval = mem + 2*K*K;
@@ -694,51 +738,13 @@ namespace Ani{
             Scalar* evecs = (V != nullptr) ? V : evecs_buf;
             if (detail::jacobi_symmetric_eigen(gram, M, eval, evecs))
                 return 1;
-            detail::sort_eigen_desc(eval, evecs, M);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (U != nullptr){
-                for (int j = 0; j < M; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < N; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < M; ++t)
-                                sum += A[i + t*N] * evecs[t + j*M];
-                            U[i + j*N] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < N; ++i)
-                            U[i + j*N] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(U, N, M);
-            }
+            detail::svd_from_eigen(A, 1, N, N, M, evecs, S, U);
         } else {
             detail::gram_aat(A, N, M, gram);
             Scalar* evecs = (U != nullptr) ? U : evecs_buf;
             if (detail::jacobi_symmetric_eigen(gram, N, eval, evecs))
                 return 1;
-            detail::sort_eigen_desc(eval, evecs, N);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (V != nullptr){
-                for (int j = 0; j < N; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < M; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < N; ++t)
-                                sum += A[t + i*N] * evecs[t + j*N];
-                            V[i + j*M] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < M; ++i)
-                            V[i + j*M] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(V, M, N);
-            }
+            detail::svd_from_eigen(A, N, 1, M, N, evecs, S, V);
         }
         return 0;
 #endif
-- 
2.43.0


From f6f7278d6da14136672100ae5546beb894cfffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 32/45] fix: LU_solve applied the column permutation in the
 wrong direction (wrong solution whenever full pivoting cycles three or more
 columns)

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 82853fe..553d720 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -357,7 +357,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
-- 
2.43.0


From 7651b7c726b909ea9220d7548ebc3548d7403e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 33/45] fix: DynMemParallel::get read the table of memories
 without the lock while alloc may reallocate it

---
 anifem++/fem/fem_memory_parallel.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..33aba50 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,11 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){
+        // another thread may reallocate m_mem meanwhile
+        std::lock_guard<MutexType> lock(m_mutex);
+        return m_mem[mem_id].get();
+    }
 
 
 protected:
-- 
2.43.0


From 5901df5114b7a9633ad721ce15ac2f9ce7130096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 34/45] fix: mutex_type.h missed standard headers it uses
 (fem_memory_parallel.h did not compile on its own)

---
 anifem++/fem/mutex_type.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..d651a39 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -5,8 +5,12 @@
 #ifndef CARNUM_MUTEX_TYPE_H
 #define CARNUM_MUTEX_TYPE_H
 
-#include <thread>
+#include <algorithm>
+#include <cassert>
+#include <functional>
 #include <mutex>
+#include <thread>
+#include <vector>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
-- 
2.43.0


From d7e36121736fa8d7e34c0bf6b8f69ae32091f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 35/45] fix: stack memory versions of integration functions
 checked size of A for one tetrahedron only

---
 anifem++/fem/operations/int_edge.inl |  6 +++---
 anifem++/fem/operations/int_face.inl | 12 ++++++------
 anifem++/fem/operations/int_pnt.inl  | 12 ++++++------
 anifem++/fem/operations/int_tet.inl  |  6 +++---
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/anifem++/fem/operations/int_edge.inl b/anifem++/fem/operations/int_edge.inl
index 463e571..71359cb 100644
--- a/anifem++/fem/operations/int_edge.inl
+++ b/anifem++/fem/operations/int_edge.inl
@@ -5,9 +5,9 @@ namespace Ani{
               int edge_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 20)
             throw std::runtime_error("Quadratures more than 20-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
diff --git a/anifem++/fem/operations/int_face.inl b/anifem++/fem/operations/int_face.inl
index a3ebf4c..52d0e87 100644
--- a/anifem++/fem/operations/int_face.inl
+++ b/anifem++/fem/operations/int_face.inl
@@ -15,9 +15,9 @@ namespace Ani{
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 9)
             throw std::runtime_error("Quadratures more than 9-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
@@ -53,9 +53,9 @@ namespace Ani{
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 9)
             throw std::runtime_error("Quadratures more than 9-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index a096c4c..9a8d97d 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -10,9 +10,9 @@ namespace Ani{
               int node_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         IndexType f = XYZ.fusion;
         if (f > FUSION) throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));
         assert(f > 0 && "Coordinate arrays shouldn't be free");
@@ -60,9 +60,9 @@ namespace Ani{
               ArrayView<ScalarType> XYL, ArrayView<ScalarType> WG, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         IndexType f = XYZ.fusion, q = std::min(XYL.size/4, WG.size);
         if (f > FUSION) throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));
         assert(f > 0 && "Coordinate arrays shouldn't be free");
diff --git a/anifem++/fem/operations/int_tet.inl b/anifem++/fem/operations/int_tet.inl
index 334fc00..79ee874 100644
--- a/anifem++/fem/operations/int_tet.inl
+++ b/anifem++/fem/operations/int_tet.inl
@@ -94,9 +94,9 @@ namespace Ani{
                   const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 6)
             throw std::runtime_error("Quadratures more than 6-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
-- 
2.43.0


From 6e52b86449c274b8e39e72e05898ec813c1132ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:57 +0000
Subject: [PATCH 36/45] fix: stack memory versions of integration functions
 overflowed the working arrays for large operators

---
 anifem++/fem/fem_memory.h            | 21 ++++++++++++++++++-
 anifem++/fem/operations/core.h       |  5 +++++
 anifem++/fem/operations/core.inl     | 30 ++++++++++++++++++++++++++++
 anifem++/fem/operations/eval.inl     |  8 +++-----
 anifem++/fem/operations/int_edge.inl |  4 +---
 anifem++/fem/operations/int_face.inl |  8 ++------
 anifem++/fem/operations/int_pnt.inl  | 15 ++++++--------
 anifem++/fem/operations/int_tet.inl  | 12 ++++-------
 8 files changed, 71 insertions(+), 32 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 53c7d5d..33074f2 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -237,7 +237,7 @@ namespace Ani{
         Scalar normal_d[3 * FUSION];
         Scalar CDET_d[FUSION];
         Scalar MES_d[FUSION];
-
+        std::vector<Scalar> heap; ///< is used only if the arrays above are too small
 
         template<typename IndexType>
         AniMemory<Scalar, IndexType> getAniMemory() {
@@ -258,6 +258,25 @@ namespace Ani{
             am.WG = typename AniMem::ArrayR(W_d, MAX_NGAUSS);
             return am;
         }
+
+        ///The same but working arrays that are too small for requested sizes are placed in the heap
+        template<typename IndexType>
+        AniMemory<Scalar, IndexType> getAniMemory(std::size_t Usz, std::size_t Vsz, std::size_t DUsz, std::size_t DIFFsz, std::size_t extraRsz) {
+            auto am = getAniMemory<IndexType>();
+            ArrayView<Scalar>* arrays[] = {&am.U, &am.V, &am.DU, &am.DIFF, &am.extraR};
+            std::size_t sizes[] = {Usz, Vsz, DUsz, DIFFsz, extraRsz}, heap_sz = 0;
+            for (int i = 0; i < 5; ++i)
+                if (sizes[i] > arrays[i]->size)
+                    heap_sz += sizes[i];
+            heap.resize(heap_sz);
+            Scalar* p = heap.data();
+            for (int i = 0; i < 5; ++i)
+                if (sizes[i] > arrays[i]->size){
+                    arrays[i]->Init(p, sizes[i]);
+                    p += sizes[i];
+                }
+            return am;
+        }
     };
 
     ///Single contiguous memory block that enough to work with fem3Dtet
diff --git a/anifem++/fem/operations/core.h b/anifem++/fem/operations/core.h
index 3561937..1b9ea99 100644
--- a/anifem++/fem/operations/core.h
+++ b/anifem++/fem/operations/core.h
@@ -112,6 +112,11 @@ namespace Ani{
 
     template<typename OpA, typename OpB, typename ScalarType, typename IndexType, bool CopyQuad = true, bool DotWithNormal = false>
     AniMemory<ScalarType, IndexType> fem3Dtet_init_animem_from_plain_memory(int q, int f, PlainMemory<ScalarType, IndexType> plainMemory);
+    ///Take working memory from the stack structure
+    template<typename OpA, typename OpB, bool DotWithNormal, typename IndexType, typename ScalarType, int FUSION, int MAX_NGAUSS>
+    AniMemory<ScalarType, IndexType> fem3Dtet_init_animem_from_stack(int q, int f, MemoryLegacy<ScalarType, FUSION, MAX_NGAUSS>& ml);
+    template<typename Op, typename IndexType, typename ScalarType, int FUSION, int MAX_NGAUSS>
+    AniMemory<ScalarType, IndexType> fem3DApply_init_animem_from_stack(int q, int f, MemoryLegacy<ScalarType, FUSION, MAX_NGAUSS>& ml);
 
     template<typename DFUNC, typename ScalarType, typename IndexType>
     AniMemoryX<ScalarType, IndexType> fem3D_init_animem_from_plain_memory(const ApplyOpBase& applyOpU, const ApplyOpBase& applyOpV, 
diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index baf603a..05fe0b3 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -183,6 +183,36 @@ namespace Ani{
         return mem;
     }
 
+    template<typename OpA, typename OpB, bool DotWithNormal, typename IndexType, typename ScalarType, int FUSION, int MAX_NGAUSS>
+    AniMemory<ScalarType, IndexType> fem3Dtet_init_animem_from_stack(int q, int f, MemoryLegacy<ScalarType, FUSION, MAX_NGAUSS>& ml){
+        std::size_t Usz = 0, Vsz = 0, extraR = 0, extraI = 0;
+        OpA::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
+        if (!std::is_same<OpA, OpB>::value){
+            std::size_t extraRV = 0, extraIV = 0;
+            OpB::template memoryRequirements<ScalarType, IndexType>(f, q, Vsz, extraRV, extraIV);
+            extraR = std::max(extraR, extraRV);
+        }
+        extraR = std::max(extraR, static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value*f));
+        auto nD = DotWithNormalHelper<DotWithNormal>::nD::value;
+        std::size_t DUsz = nD * OpB::Dim::value * q * OpA::Nfa::value * f;
+        std::size_t DIFFsz = OpB::Dim::value * std::max(nD*OpA::Dim::value, OpA::Nfa::value) * q * f;
+        auto mem = ml.template getAniMemory<IndexType>(Usz, Vsz, DUsz, DIFFsz, extraR);
+        mem.q = q;
+        mem.f = f;
+        return mem;
+    }
+
+    template<typename Op, typename IndexType, typename ScalarType, int FUSION, int MAX_NGAUSS>
+    AniMemory<ScalarType, IndexType> fem3DApply_init_animem_from_stack(int q, int f, MemoryLegacy<ScalarType, FUSION, MAX_NGAUSS>& ml){
+        std::size_t Usz = 0, extraR = 0, extraI = 0;
+        Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
+        extraR = std::max(extraR, static_cast<std::size_t>(Op::Dim::value*q*f));
+        auto mem = ml.template getAniMemory<IndexType>(Usz, 0, 0, 0, extraR);
+        mem.q = q;
+        mem.f = f;
+        return mem;
+    }
+
     template<typename OpA, typename OpB, typename ScalarType, typename IndexType, bool CopyQuadVals, bool DotWithNormal>
     PlainMemory <ScalarType, IndexType> fem3D_memory_requirements_base(int pnt_per_tetra, int fusion){
         auto f = fusion;
diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index ae0bfcc..2054cb3 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -93,9 +93,8 @@ namespace Ani{
         __internal_check_fem3DapplyL_static<FUSION, MAXPNTNUM, ScalarType>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, f, q, nfa, dim, dofs, opU);
         opU.nRow = dim * q, opU.nCol = f;
         MemoryLegacy<ScalarType, FUSION, MAXPNTNUM> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
-        
-        mem.XYL = XYL; mem.f = f; mem.q = q;
+        auto mem = fem3DApply_init_animem_from_stack<Op, IndexType>(q, f, ml);
+        mem.XYL = XYL;
         internalFem3DtetGeomInit(XYZ, mem);
         internalFem3DApply<Op, ScalarType, IndexType>(dofs, opU, mem);
     } 
@@ -116,8 +115,7 @@ namespace Ani{
         __internal_check_fem3DapplyL_static<1, MAXPNTNUM, ScalarType>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, f, q, nfa, dim, dofs, opU);
         opU.nRow = dim * q, opU.nCol = f;
         MemoryLegacy<ScalarType, 1, MAXPNTNUM> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
-        mem.f = f; mem.q = q;
+        auto mem = fem3DApply_init_animem_from_stack<Op, IndexType>(q, f, ml);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
         getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, XYL, mem.PSI);
         mem.XYL = XYL;
diff --git a/anifem++/fem/operations/int_edge.inl b/anifem++/fem/operations/int_edge.inl
index 71359cb..9372564 100644
--- a/anifem++/fem/operations/int_edge.inl
+++ b/anifem++/fem/operations/int_edge.inl
@@ -4,7 +4,6 @@ namespace Ani{
     fem3Dedge(const TetrasT& XYZ,
               int edge_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
@@ -20,6 +19,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
         auto formula = segment_quadrature_formulas(order);
         IndexType q = formula.GetNumPoints();
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(q, f, ml);
         std::fill(mem.XYL.data, mem.XYL.data + 4*q, 0);
         const char lookup1[6] = {0, 0, 0, 1, 1, 2}, lookup2[6] = {1, 2, 3, 2, 3, 3};
         for (int n = 0; n < q; ++n) {
@@ -27,8 +27,6 @@ namespace Ani{
             mem.XYL.data[4 * n + lookup2[edge_num]] = formula.p[2 * n + 1];
         }
         std::copy(formula.w, formula.w + q, mem.WG.data);
-        mem.f = f;
-        mem.q = q;
         internalFem3DtetGeomInit(XYZ, mem);
         auto sq = [](auto x) { return x*x; };
         for (int r = 0; r < f; ++r) {
diff --git a/anifem++/fem/operations/int_face.inl b/anifem++/fem/operations/int_face.inl
index 52d0e87..743c165 100644
--- a/anifem++/fem/operations/int_face.inl
+++ b/anifem++/fem/operations/int_face.inl
@@ -14,7 +14,6 @@ namespace Ani{
     fem3Dface(const TetrasT& XYZ,
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
@@ -30,6 +29,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
         auto formula = triangle_quadrature_formulas(order);
         IndexType q = formula.GetNumPoints();
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(q, f, ml);
         for (int n = 0; n < q; ++n) {
             mem.XYL.data[4 * n + face_num] = formula.p[3 * n + 0];
             mem.XYL.data[4 * n + (face_num + 1) % 4] = formula.p[3 * n + 1];
@@ -37,8 +37,6 @@ namespace Ani{
             mem.XYL.data[4 * n + (face_num + 3) % 4] = 0;
         }
         std::copy(formula.w, formula.w + q, mem.WG.data);
-        mem.f = f;
-        mem.q = q;
         internalFem3DtetGeomInit(XYZ, mem);
         for (int r = 0; r < f; ++r) {
             auto x = mem.XYP.data + 12 * r;
@@ -52,7 +50,6 @@ namespace Ani{
     fem3DfaceN(const TetrasT& XYZ,
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
@@ -68,6 +65,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value * DotWithNormalHelper<true>::nD::value> func(Dfnc);
         auto formula = triangle_quadrature_formulas(order);
         IndexType q = formula.GetNumPoints();
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, true, IndexType>(q, f, ml);
         for (int n = 0; n < q; ++n) {
             mem.XYL.data[4 * n + face_num] = formula.p[3 * n + 0];
             mem.XYL.data[4 * n + (face_num + 1) % 4] = formula.p[3 * n + 1];
@@ -75,8 +73,6 @@ namespace Ani{
             mem.XYL.data[4 * n + (face_num + 3) % 4] = 0;
         }
         std::copy(formula.w, formula.w + q, mem.WG.data);
-        mem.f = f;
-        mem.q = q;
         internalFem3DtetGeomInit(XYZ, mem);
         for (int r = 0; r < f; ++r) {
             auto x = mem.XYP.data + 12 * r;
diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index 9a8d97d..44d7776 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -9,7 +9,6 @@ namespace Ani{
     fem3Dnode(const TetrasT& XYZ,
               int node_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
@@ -20,9 +19,9 @@ namespace Ani{
 
         A.nRow = OpB::Nfa::value; A.nCol = OpA::Nfa::value * f;
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(1, f, ml);
         std::fill(mem.XYL.data, mem.XYL.data + 4, 0);
         mem.XYL.data[node_num] = 1., mem.WG.data[0] = 1.;
-        mem.f = f, mem.q = 1;
         internalFem3DtetGeomInit(XYZ, mem);
         std::fill(mem.MES.data, mem.MES.data+f, 1);
         internalFem3Dtet<OpA, OpB>(func, A, mem, user_data);
@@ -59,7 +58,6 @@ namespace Ani{
     fem3DpntL(const TetrasT& XYZ,
               ArrayView<ScalarType> XYL, ArrayView<ScalarType> WG, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
@@ -71,9 +69,9 @@ namespace Ani{
 
         A.nRow = OpB::Nfa::value; A.nCol = OpA::Nfa::value * f;
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(q, f, ml);
         mem.XYL.Init(XYL.data, 4*q);
         mem.WG.Init(WG.data, q);
-        mem.f = f, mem.q = q;
         internalFem3DtetGeomInit(XYZ, mem);
         std::fill(mem.MES.data, mem.MES.data+f, 1);
         internalFem3Dtet<OpA, OpB>(func, A, mem, user_data);
@@ -110,18 +108,17 @@ namespace Ani{
     fem3DpntX(const Tetra<TetraScalarTp>& XYZ,
               const ArrayView<const ScalarType> X, ArrayView<ScalarType> WG, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, 1, 24> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < OpB::Nfa::value*OpA::Nfa::value )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value));
         IndexType f = 1, q = std::min(X.size/3, WG.size);
         if (q > 24)
             throw std::runtime_error("Point arrays with size more 24 are not supported for stack memory version of the function");
 
         A.nRow = OpB::Nfa::value; A.nCol = OpA::Nfa::value * f;
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(q, f, ml);
         mem.WG.Init(WG.data, q);
-        mem.f = f, mem.q = q;
         ScalarType XYLp[4*24];
         ArrayView<ScalarType> XYL(XYLp, 4*q);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
diff --git a/anifem++/fem/operations/int_tet.inl b/anifem++/fem/operations/int_tet.inl
index 79ee874..bcd05d1 100644
--- a/anifem++/fem/operations/int_tet.inl
+++ b/anifem++/fem/operations/int_tet.inl
@@ -65,9 +65,8 @@ namespace Ani{
                        int order, void *user_data) {
         MemoryLegacy<> ml;
         using IndexType = int;
-        auto mem = ml.template getAniMemory<IndexType>();
-        if (A.rows() != OpB::Nfa::value || A.cols() != static_cast<long int>(OpA::Nfa::value*mem.f) )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
+        if (A.rows() != OpB::Nfa::value || A.cols() != static_cast<long int>(OpA::Nfa::value*XY0.cols()) )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XY0.cols()) +
                                      ", but A is " +  std::to_string(A.rows()) + "x" + std::to_string(A.cols()) + " matrix");
         if (A.rows() > 30 || A.cols() > 30 || order > 6)
             throw std::runtime_error("Too big matrices A and too big quadrature orders is not supported for stack memory version of the function");
@@ -77,10 +76,9 @@ namespace Ani{
         auto formula = tetrahedron_quadrature_formulas(order);
         IndexType f = XY0.cols();
         IndexType q = formula.GetNumPoints();
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(q, f, ml);
         mem.WG.Init(const_cast<double*>(formula.w), q);
         mem.XYL.Init(const_cast<double*>(formula.p), 4*q);
-        mem.f = f;
-        mem.q = q;
         internalFem3DtetGeomInit(XY0, XY1, XY2, XY3, mem);
         internalFem3Dtet<OpA, OpB, false>(func, Am, mem, user_data);
         Eigen::Map<Eigen::MatrixXd, sizeof(double)> Amap(Amem, Am.nRow, Am.nCol);
@@ -93,7 +91,6 @@ namespace Ani{
     void fem3Dtet(const TetrasT& XYZ,
                   const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
-        auto mem = ml.template getAniMemory<IndexType>();
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*XYZ.fusion )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
@@ -108,6 +105,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
         auto formula = tetrahedron_quadrature_formulas(order);
         IndexType q = formula.GetNumPoints();
+        auto mem = fem3Dtet_init_animem_from_stack<OpA, OpB, false, IndexType>(q, f, ml);
         if (std::is_same<ScalarType, qReal>::value) {
             mem.XYL.Init(const_cast<qReal*>(formula.p), 4 * q);
             mem.WG.Init(const_cast<qReal*>(formula.w), q);
@@ -115,8 +113,6 @@ namespace Ani{
             std::copy(formula.p, formula.p + 4*q, mem.XYL.data);
             std::copy(formula.w, formula.w + q, mem.WG.data);
         }
-        mem.f = f;
-        mem.q = q;
         internalFem3DtetGeomInit(XYZ, mem);
         internalFem3Dtet<OpA, OpB>(func, A, mem, user_data);
     }
-- 
2.43.0


From 8ba468271154e489c00a9b46e925f3351ae9b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 37/45] fix: polynomial order of operators of composed spaces
 used the dimension of the remaining parts

---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From 485afc4d45b4b86131247516dbcbbfe0e99c6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 38/45] fix: order of DIV and CURL of composed spaces with
 scalar parts was zero

---
 anifem++/fem/fem_space.cpp | 5 +++--
 anifem++/fem/fem_space.h   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..bf439ff 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -899,8 +899,9 @@ namespace Ani{
         for(uint i = 0; i < m_spaces.size(); ++i) {
             m_dim += m_spaces[i]->dim();
             m_poly_order = std::max(m_poly_order, m_spaces[i]->order());
-            m_poly_order_DIV = std::max(m_poly_order_DIV, m_spaces[i]->orderDIV());
-            m_poly_order_CURL = std::max(m_poly_order_CURL, m_spaces[i]->orderCURL());
+            bool is3D = (m_spaces[i]->dim() == 3);
+            m_poly_order_DIV = std::max(m_poly_order_DIV, is3D ? m_spaces[i]->orderDIV() : m_spaces[i]->orderGRAD());
+            m_poly_order_CURL = std::max(m_poly_order_CURL, is3D ? m_spaces[i]->orderCURL() : m_spaces[i]->orderGRAD());
             for (int k = 0; k < 3; ++k)
                 m_poly_order_DUDX[k] = std::max(m_poly_order_DUDX[k], m_spaces[i]->orderDUDX(k));
         }
diff --git a/anifem++/fem/fem_space.h b/anifem++/fem/fem_space.h
index cc92f77..fef84b7 100644
--- a/anifem++/fem/fem_space.h
+++ b/anifem++/fem/fem_space.h
@@ -294,10 +294,10 @@ namespace Ani{
         OpMemoryRequirements memGRAD(uint nquadpoints, uint fusion = 1) const override;
         BandDenseMatrixX<> applyDIV(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memDIV(uint nquadpoints, uint fusion = 1) const override;
-        uint orderDIV() const override{ return m_base->orderDIV(); }
+        uint orderDIV() const override{ return m_base->dim() == 3 ? m_base->orderDIV() : m_base->orderGRAD(); }
         BandDenseMatrixX<> applyCURL(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memCURL(uint nquadpoints, uint fusion = 1) const override;
-        uint orderCURL() const override{ return m_base->orderCURL(); }
+        uint orderCURL() const override{ return m_base->dim() == 3 ? m_base->orderCURL() : m_base->orderGRAD(); }
         BandDenseMatrixX<> applyDUDX(AniMemoryX<> &mem, ArrayView<> &U, uchar k) const override;
         OpMemoryRequirements memDUDX(uint nquadpoints, uint fusion, uchar k) const override;
         uint orderDUDX(uchar k) const override { return m_base->orderDUDX(k); }
-- 
2.43.0


From 79d961aa5c0009ad33527b24f788c672d90d6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 39/45] fix: DIV of complex spaces of scalar parts left offsets
 of the result undefined

---
 anifem++/fem/fem_space.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index bf439ff..f15625a 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -765,8 +765,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -822,8 +823,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From 9a875dd6d4c9486040e04749baf1d2f41c5f0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 40/45] fix: default DIV of a space announced three rows
 instead of one

---
 anifem++/fem/fem_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index f15625a..a927dba 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -263,7 +263,7 @@ namespace Ani{
         mem.busy_mtx_parts = st_busy + 1;
         Vx.nparts = 1;
         Vx.data[0] = lU;
-        Vx.stRow[1] = 3;
+        Vx.stRow[1] = 1;
         Vx.stCol[1] = nfa;
         return Vx;
     }
-- 
2.43.0


From 9b744a732d0c7bd4b4ebcd26a48e1dedcb4f9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 41/45] fix: default DUDX of a space overwrote offsets of parts
 before reading them and announced too little memory

---
 anifem++/fem/fem_space.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index a927dba..b929ab7 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -339,13 +339,17 @@ namespace Ani{
             }
         };
         int upart = 0, ushift = 0;
+        // offsets of the source parts are saved because they are overwritten by offsets of the resulting parts
+        int rowSt = 0, rowEnd = Vx.stRow[0], colSt = 0, colEnd = Vx.stCol[0];
         for (std::size_t p = 0; p < Vx.nparts; ++p){
-            int dst = align_to_3(Vx.stRow[p], true), dend = align_to_3(Vx.stRow[p+1]-1, false);
+            rowSt = rowEnd, rowEnd = Vx.stRow[p+1];
+            colSt = colEnd, colEnd = Vx.stCol[p+1];
+            int dst = align_to_3(rowSt, true), dend = align_to_3(rowEnd-1, false);
             int nd = ( (dend >= dst) ? (dend - dst) / 3 + 1 : 0);
-            int nCol = Vx.stCol[p+1] - Vx.stCol[p], nRow = (Vx.stRow[p+1] - Vx.stRow[p]);
-            int rowShift = (dst - Vx.stRow[p]);
+            int nCol = colEnd - colSt, nRow = rowEnd - rowSt;
+            int rowShift = (dst - rowSt);
             if (nd > 0){
-                DenseMatrix<> lU(U.data + ushift, mem.q * nd, mem.f*(Vx.stCol[p+1] - Vx.stCol[p]));
+                DenseMatrix<> lU(U.data + ushift, mem.q * nd, mem.f*nCol);
                 for (std::size_t r = 0; r < mem.f; ++r)
                 for (int i = 0; i < nCol; ++i)
                 for (std::size_t n = 0; n < mem.q; ++n)
@@ -367,7 +371,7 @@ namespace Ani{
         (void) k;
         auto lreq = memGRAD(nquadpoints, fusion);
         lreq.extraRsz += lreq.Usz;  
-        lreq.Usz = std::min(static_cast<decltype(lreq.Usz)>(dim()*nquadpoints*fusion*m_order.NumDofOnTet()), lreq.Usz);
+        lreq.Usz = dim()*nquadpoints*fusion*m_order.NumDofOnTet();
         return lreq;
     }
     void BaseFemSpace::interpolateByDOFs(const Tetra<const double>& XYZ, const EvalFunc&f, ArrayView<> udofs, const TetGeomSparsity& sp, PlainMemoryX<> mem, void* user_data, uint max_quad_order) const {
-- 
2.43.0


From 9cd78b9b4a3334f65574eb09a832e5b79cb18410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 42/45] fix: comparison of vector spaces ignored the number of
 components

---
 anifem++/fem/fem_space.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index b929ab7..b93f1a1 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -409,7 +409,8 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
-        return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
+        if (!m_base || !o.m_base) return o.m_base.get() == m_base.get();
+        return vec_dim() == o.vec_dim() && (o.m_base.get() == m_base.get() || *o.m_base == *m_base); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
         uint lnfa = m_base->m_order.NumDofOnTet();
-- 
2.43.0


From 0bbf469e007c57021666aa4da3802da36eef11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 43/45] fix: interpolation on a region used undefined
 barycentric coordinates, a dangling space and too little memory

---
 anifem++/fem/fem_space.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index b93f1a1..f8e0370 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -82,16 +82,7 @@ namespace Ani{
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
         if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
+            return interpolateByDOFs_mem_req(max_quad_order);
         }
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
@@ -114,7 +105,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0_space;
+        auto aplP0 = p0_space.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +126,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0_space;
+        auto aplP0 = p0_space.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
@@ -158,6 +151,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -171,6 +165,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
-- 
2.43.0


From 694893b39d2837a652396420abed56dca7c21c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 44/45] fix: numerical engine of expressions did not compile
 and evaluated parts, products, sums and comparisons wrongly

---
 anifem++/fem/expr_interface.h   |  12 +-
 anifem++/fem/expr_interface.inl |   4 +-
 anifem++/fem/numeric_expr.h     |  63 ++++-----
 anifem++/fem/numeric_expr.inl   | 237 +++++++++++++++-----------------
 4 files changed, 152 insertions(+), 164 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 12034ac..8e530ed 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -34,8 +34,8 @@ namespace Ani{
         virtual BaseExpr& set_sub_matrix(const BaseExpr& val, std::size_t i_start, long i_inc, std::size_t j_start, long j_inc) = 0;
         virtual BaseExpr& set_horzcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_vertcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
-        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, size1(), 0, 1); }
-        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, size2()); }
+        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, val.size1(), 0, 1); }
+        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, val.size2()); }
         virtual BaseExpr& set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs) = 0;
         virtual BaseExpr& set_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_sum(const BaseExpr& a, const BaseExpr& b){ const BaseExpr* arr[2]{&a, &b}; return set_sum(arr, arr+2); }
@@ -119,7 +119,7 @@ namespace Ani{
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
         Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker->makeCopy(), *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const ExprT& x){ 
             if (m_invoker)
                 m_invoker->set_val(x);
@@ -127,9 +127,9 @@ namespace Ani{
                 m_invoker = std::move(x.makeCopy()); 
             return *this; 
         }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(std::shared_ptr<ExprT>&& x){ m_invoker = std::move(x); return *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const std::shared_ptr<ExprT>& x){ m_invoker = std::move(x->makeCopy()); return *this; }
         
         Expr& operator=(double x){ 
@@ -164,7 +164,7 @@ namespace Ani{
             return *this;          
         }
         Expr operator()(std::size_t i, std::size_t j) const {
-            if (i > nrows() || j > ncols())
+            if (i >= nrows() || j >= ncols())
                 throw std::runtime_error("Sizes of expression: " + std::to_string(nrows()) + "x" + std::to_string(ncols()) 
                     + ", but requested value at (" + std::to_string(i) + ", " + std::to_string(j) + ")");
             Expr res = zeroes();
diff --git a/anifem++/fem/expr_interface.inl b/anifem++/fem/expr_interface.inl
index f5adc38..fed889c 100644
--- a/anifem++/fem/expr_interface.inl
+++ b/anifem++/fem/expr_interface.inl
@@ -99,7 +99,7 @@ namespace Ani{
     APPL_OP_FULL2(operator<, lt)
     APPL_OP_FULL2(operator<=, le)
     APPL_OP_FULL2(operator>, gt)
-    APPL_OP_FULL2(operator>=, le)
+    APPL_OP_FULL2(operator>=, ge)
     APPL_OP_FULL2(operator==, eq)
     APPL_OP_FULL2(operator!=, ne)
     APPL_OP_FULL2(operator&&, and)
@@ -162,7 +162,7 @@ namespace Ani{
         inline Expr det3x3(const Expr& m){
             if (m.nrows() != 3 || m.ncols() != 3)
                 throw std::runtime_error("Function det3x3 defined only for 3x3 matrices");
-            return dot(m.row(0), cross(m.row(1), m.row(2)));    
+            return dot(m.col(0), cross(m.col(1), m.col(2)));    
         }
         inline Expr scalsum(const Expr* st, const Expr* end, const double* coefs) {
             long sz = end - st;
diff --git a/anifem++/fem/numeric_expr.h b/anifem++/fem/numeric_expr.h
index f6f0e62..da053d3 100644
--- a/anifem++/fem/numeric_expr.h
+++ b/anifem++/fem/numeric_expr.h
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <memory>
 #include <functional>
+#include <array>
 #include <ostream>
 
 #include <stdexcept>
@@ -21,7 +22,7 @@
 namespace Ani{
     template<typename REAL = double>
     struct NumericExpr: public BaseExpr{
-        std::vector<REAL> m_v = 0;
+        std::vector<REAL> m_v = std::vector<REAL>(1, REAL(0));
         std::size_t m_nrows = 1, m_ncols = 1;
 
         static Expr CreateExpr(REAL a = 0, std::size_t sz1 = 1, std::size_t sz2 = 1) { return Expr(std::make_shared<NumericExpr<REAL>>(a, sz1, sz2)); }
@@ -34,11 +35,11 @@ namespace Ani{
         REAL& operator()(std::size_t i, std::size_t j) { return m_v[i + m_nrows*j]; }
         REAL operator()(std::size_t i, std::size_t j) const { return m_v[i + m_nrows*j]; }
 
-        std::shared_ptr<BaseExpr> makeExpr(std::size_t sz1 = 1, std::size_t sz2 = 1) const override { return std::make_shared<NumericExpr<REAL>>(0, sz1, sz2); }
+        std::shared_ptr<BaseExpr> makeExpr(std::size_t sz1 = 1, std::size_t sz2 = 1) const override { return std::make_shared<NumericExpr<REAL>>(REAL(0), sz1, sz2); }
         std::shared_ptr<BaseExpr> makeCopy() const override { return std::make_shared<NumericExpr<REAL>>(*this); }
         std::size_t size1() const override { return m_nrows; }
         std::size_t size2() const override { return m_ncols; }
-        NumericExpr<REAL>& reshape(std::size_t sz1, std::size_t sz2);
+        NumericExpr<REAL>& reshape(std::size_t sz1, std::size_t sz2) override;
         NumericExpr<REAL>& set_val(double val) override{ 
             for (auto& i: m_v) i = val;
             return *this;
@@ -63,37 +64,37 @@ namespace Ani{
         NumericExpr<REAL>& set_div(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, std::divides<REAL>()); }
         NumericExpr<REAL>& set_swap_sign(const BaseExpr& a) override { return set_op(a, std::negate<REAL>()); }
         NumericExpr<REAL>& set_abs(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::abs; return abs(a); }); }
-        NumericExpr<REAL>& set_exp(const BaseExpr& a) override { return set_op(a, [](REAL a){ return exp(a); }); }
-        NumericExpr<REAL>& set_expm1(const BaseExpr& a) override { return set_op(a, [](REAL a){ return expm1(a); }); }
-        NumericExpr<REAL>& set_log(const BaseExpr& a) override { return set_op(a, [](REAL a){ return log(a); }); }
-        NumericExpr<REAL>& set_log1p(const BaseExpr& a) override { return set_op(a, [](REAL a){ return log1p(a); }); }
-        NumericExpr<REAL>& set_sqrt(const BaseExpr& a) override { return set_op(a, [](REAL a){ return sqrt(a); }); }
-        NumericExpr<REAL>& set_cbrt(const BaseExpr& a) override { return set_op(a, [](REAL a){ return cbrt(a); }); }
-        NumericExpr<REAL>& set_sin(const BaseExpr& a) override { return set_op(a, [](REAL a){ return sin(a); }); }
-        NumericExpr<REAL>& set_cos(const BaseExpr& a) override { return set_op(a, [](REAL a){ return cos(a); }); }
-        NumericExpr<REAL>& set_tan(const BaseExpr& a) override { return set_op(a, [](REAL a){ return tan(a); }); }
-        NumericExpr<REAL>& set_asin(const BaseExpr& a) override { return set_op(a, [](REAL a){ return asin(a); }); }
-        NumericExpr<REAL>& set_acos(const BaseExpr& a) override { return set_op(a, [](REAL a){ return acos(a); }); }
-        NumericExpr<REAL>& set_atan(const BaseExpr& a) override { return set_op(a, [](REAL a){ return atan(a); }); }
-        NumericExpr<REAL>& set_sinh(const BaseExpr& a) override { return set_op(a, [](REAL a){ return sinh(a); }); }
-        NumericExpr<REAL>& set_cosh(const BaseExpr& a) override { return set_op(a, [](REAL a){ return cosh(a); }); }
-        NumericExpr<REAL>& set_tanh(const BaseExpr& a) override { return set_op(a, [](REAL a){ return tanh(a); }); }
-        NumericExpr<REAL>& set_erf(const BaseExpr& a) override { return set_op(a, [](REAL a){ return erf(a); }); }
-        NumericExpr<REAL>& set_erfc(const BaseExpr& a) override { return set_op(a, [](REAL a){ return erfc(a); }); }
-        NumericExpr<REAL>& set_tgamma(const BaseExpr& a) override { return set_op(a, [](REAL a){ return tgamma(a); }); }
-        NumericExpr<REAL>& set_lgamma(const BaseExpr& a) override { return set_op(a, [](REAL a){ return lgamma(a); }); }
-        NumericExpr<REAL>& set_floor(const BaseExpr& a) override { return set_op(a, [](REAL a){ return floor(a); }); }
-        NumericExpr<REAL>& set_ceil(const BaseExpr& a) override { return set_op(a, [](REAL a){ return ceil(a); }); }
+        NumericExpr<REAL>& set_exp(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::exp; return exp(a); }); }
+        NumericExpr<REAL>& set_expm1(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::expm1; return expm1(a); }); }
+        NumericExpr<REAL>& set_log(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::log; return log(a); }); }
+        NumericExpr<REAL>& set_log1p(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::log1p; return log1p(a); }); }
+        NumericExpr<REAL>& set_sqrt(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::sqrt; return sqrt(a); }); }
+        NumericExpr<REAL>& set_cbrt(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::cbrt; return cbrt(a); }); }
+        NumericExpr<REAL>& set_sin(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::sin; return sin(a); }); }
+        NumericExpr<REAL>& set_cos(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::cos; return cos(a); }); }
+        NumericExpr<REAL>& set_tan(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::tan; return tan(a); }); }
+        NumericExpr<REAL>& set_asin(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::asin; return asin(a); }); }
+        NumericExpr<REAL>& set_acos(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::acos; return acos(a); }); }
+        NumericExpr<REAL>& set_atan(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::atan; return atan(a); }); }
+        NumericExpr<REAL>& set_sinh(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::sinh; return sinh(a); }); }
+        NumericExpr<REAL>& set_cosh(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::cosh; return cosh(a); }); }
+        NumericExpr<REAL>& set_tanh(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::tanh; return tanh(a); }); }
+        NumericExpr<REAL>& set_erf(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::erf; return erf(a); }); }
+        NumericExpr<REAL>& set_erfc(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::erfc; return erfc(a); }); }
+        NumericExpr<REAL>& set_tgamma(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::tgamma; return tgamma(a); }); }
+        NumericExpr<REAL>& set_lgamma(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::lgamma; return lgamma(a); }); }
+        NumericExpr<REAL>& set_floor(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::floor; return floor(a); }); }
+        NumericExpr<REAL>& set_ceil(const BaseExpr& a) override { return set_op(a, [](REAL a){ using std::ceil; return ceil(a); }); }
         NumericExpr<REAL>& set_sign(const BaseExpr& a) override { return set_op(a, [](REAL a){ return ((a > 0) ? 1 : 0) - ((a < 0) ? 1 : 0); }); }
         NumericExpr<REAL>& set_sq(const BaseExpr& a) override { return set_op(a, [](REAL a){ return a*a; }); }
-        NumericExpr<REAL>& set_pow(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return pow(a, b); });}
-        NumericExpr<REAL>& set_atan2(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return atan2(a, b); });}
-        NumericExpr<REAL>& set_fmod(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return fmod(a, b); });}
-        NumericExpr<REAL>& set_hypot(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return hypot(a, b); });}
-        NumericExpr<REAL>& set_min(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return min(a, b); });}
-        NumericExpr<REAL>& set_max(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return max(a, b); });}
+        NumericExpr<REAL>& set_pow(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ using std::pow; return pow(a, b); });}
+        NumericExpr<REAL>& set_atan2(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ using std::atan2; return atan2(a, b); });}
+        NumericExpr<REAL>& set_fmod(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ using std::fmod; return fmod(a, b); });}
+        NumericExpr<REAL>& set_hypot(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ using std::hypot; return hypot(a, b); });}
+        NumericExpr<REAL>& set_min(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return std::min(a, b); });}
+        NumericExpr<REAL>& set_max(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return std::max(a, b); });}
 
-        NumericExpr<REAL>& set_fma(const BaseExpr& a, const BaseExpr& b, const BaseExpr& c) override { return set_op(a, b, c, [](REAL a, REAL b, REAL c){ return fma(a, b, c); }); }
+        NumericExpr<REAL>& set_fma(const BaseExpr& a, const BaseExpr& b, const BaseExpr& c) override { return set_op(a, b, c, [](REAL a, REAL b, REAL c){ using std::fma; return fma(a, b, c); }); }
         NumericExpr<REAL>& set_ifelse(const BaseExpr& a, const BaseExpr& b, const BaseExpr& c) override { return set_op(a, b, c, [](REAL a, REAL b, REAL c){ return (a > 0.5) ? b : c; }); }
         NumericExpr<REAL>& set_not(const BaseExpr& a) override { return set_op(a, [](REAL a){ return a > 0.5 ? 0.0 : 1.0; }); }
         NumericExpr<REAL>& set_lt(const BaseExpr& a, const BaseExpr& b) override { return set_op(a, b, [](REAL a, REAL b){ return (a < b) ? 1.0 : 0.0; });}
diff --git a/anifem++/fem/numeric_expr.inl b/anifem++/fem/numeric_expr.inl
index 0081834..8e2ddea 100644
--- a/anifem++/fem/numeric_expr.inl
+++ b/anifem++/fem/numeric_expr.inl
@@ -9,9 +9,10 @@ namespace Ani{
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_val(const BaseExpr& val, std::size_t i, std::size_t j)  { 
         auto& o = *static_cast<const NumericExpr<REAL>*>(&val);
+        REAL v = o(i, j);
         m_v.resize(1);
         m_nrows = 1, m_ncols = 1;
-        m_v[0] = o(i, j);
+        m_v[0] = v;
         return *this;  
     }
     template<typename REAL>
@@ -20,10 +21,10 @@ namespace Ani{
         std::vector<REAL> tmp;
         std::vector<REAL>* work = (&val == this) ? &tmp : &m_v;
         work->resize(i_arr_sz*j_arr_sz);
-        for (int jk = 0; jk < j_arr_sz; ++jk)
-        for (int ik = 0; ik < i_arr_sz; ++ik)
-            (*work)[ik + jk*j_arr_sz] = o(i[ik], j[jk]);
-        m_v = std::move(*work);    
+        for (long jk = 0; jk < j_arr_sz; ++jk)
+        for (std::size_t ik = 0; ik < i_arr_sz; ++ik)
+            (*work)[ik + jk*i_arr_sz] = o(i[ik], j[jk]);
+        if (work == &tmp) m_v = std::move(tmp);    
         m_nrows = i_arr_sz, m_ncols = j_arr_sz;    
         return *this;    
     }
@@ -45,24 +46,16 @@ namespace Ani{
             t_ncols = (j_start + 1) / (-j_inc) + (((j_start + 1) % (-j_inc) > 0) ? 1 : 0);
         work->resize(t_nrows*t_ncols);
         
-        std::size_t ik = 0, jk = 0;
-        while(j_start < o.size2() && j_start >= 0){
-            ik = 0;
-            while(i_start < o.size1() && i_start >= 0){
-                (*work)[ik + jk*t_nrows] = o(i_start, j_start);
-                i_start += i_inc;
-                ++ik;
-            } 
-            j_start += j_inc;
-            ++jk; 
-        } 
-        m_v = std::move(*work);
+        for (std::size_t jk = 0; jk < t_ncols; ++jk)
+        for (std::size_t ik = 0; ik < t_nrows; ++ik)
+            (*work)[ik + jk*t_nrows] = o(i_start + static_cast<long>(ik)*i_inc, j_start + static_cast<long>(jk)*j_inc);
+        if (work == &tmp) m_v = std::move(tmp);
         m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;     
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_horzcat(const BaseExpr** vals_begin, const BaseExpr** vals_end){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
         bool overlap = (vals_begin[0] == this);
         auto t_nrow = vals_begin[0]->nrows(), t_ncol = vals_begin[0]->ncols();
@@ -84,13 +77,13 @@ namespace Ani{
                 (*work)[i + (j + t_ncol) * t_nrow] = o(i, j);
             t_ncol += (*p)->ncols(); 
         }
-        m_v = std::move(*work);
+        if (work == &tmp) m_v = std::move(tmp);
         m_nrows = t_nrow, m_ncols = t_ncol;
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_vertcat(const BaseExpr** vals_begin, const BaseExpr** vals_end){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
         bool overlap = (vals_begin[0] == this);
         auto t_nrow = vals_begin[0]->nrows(), t_ncol = vals_begin[0]->ncols();
@@ -108,50 +101,52 @@ namespace Ani{
         for (auto p = vals_begin; p < vals_end; ++p){
             auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
             for (int j = 0; j < (*p)->ncols(); ++j)
-            for (int i = 0; i < t_nrow; ++i)
+            for (int i = 0; i < (*p)->nrows(); ++i)
                 (*work)[(lt_nrow+i) + j * t_nrow] = o(i, j);
-            lt_nrow += (*p)->ncols(); 
+            lt_nrow += (*p)->nrows(); 
         }
-        m_v = std::move(*work);
+        if (work == &tmp) m_v = std::move(tmp);
         m_nrows = t_nrow, m_ncols = t_ncol;
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_row(const BaseExpr& val, std::size_t i)  { 
         auto& o = *static_cast<const NumericExpr<REAL>*>(&val);
-        m_nrows = 1, m_ncols = o.size2();
-        m_v.resize(m_nrows*m_ncols);
-        for (int j = 0; j < m_ncols; ++j)
-            m_v[j] = o(i, j);
+        std::vector<REAL> res(o.size2());
+        for (std::size_t j = 0; j < res.size(); ++j)
+            res[j] = o(i, j);
+        m_v = std::move(res);
+        m_nrows = 1, m_ncols = m_v.size();
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_col(const BaseExpr& val, std::size_t j)  { 
         auto& o = *static_cast<const NumericExpr<REAL>*>(&val);
-        m_nrows = o.size1(), m_ncols = 1;
-        m_v.resize(m_nrows*m_ncols);
-        for (int i = 0; i < m_nrows; ++i)
-            m_v[i] = o(i, j);
+        std::vector<REAL> res(o.size1());
+        for (std::size_t i = 0; i < res.size(); ++i)
+            res[i] = o(i, j);
+        m_v = std::move(res);
+        m_nrows = m_v.size(), m_ncols = 1;
         return *this;
     }
     template<typename REAL>
-    NumericExpr<REAL>& set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+    NumericExpr<REAL>& NumericExpr<REAL>::set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs){
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
         bool mem_overlap = false;    
         for (auto p = vals_begin; p < vals_end; ++p){ 
-            if (p == this){
+            if (*p == this){
                 mem_overlap = true;
                 break;
             }
         }
-        std::vector<double> tmp;
-        std::vector<double>* work = mem_overlap ? &tmp : &m_v;   
-        uint t_nrows = 0, t_ncols = 0; 
+        std::vector<REAL> tmp;
+        std::vector<REAL>* work = mem_overlap ? &tmp : &m_v;   
+        std::size_t t_nrows = 0, t_ncols = 0; 
         {    
             auto& o = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]); 
             t_nrows = o.nrows(), t_ncols = o.ncols();
-            work->resize(m_nrows*m_ncols);  
+            work->assign(t_nrows*t_ncols, REAL(0));  
         } 
         if (vals_begin < vals_end){
             for (auto p = vals_begin+1; p < vals_end; ++p){
@@ -163,32 +158,32 @@ namespace Ani{
             for (std::size_t i = 0; i < t_nrows; ++i)
                 for (auto p = vals_begin; p < vals_end; ++p){
                     auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                    (*work)[i + j*m_nrows] += coefs[p] * o(i, j);
+                    (*work)[i + j*t_nrows] += coefs[p - vals_begin] * o(i, j);
                 }
         }
-        m_v = std::move(*work);
+        if (work == &tmp) m_v = std::move(tmp);
         m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
         bool mem_overlap = false;    
         for (auto p = vals_begin; p < vals_end; ++p){ 
-            if (p == this){
+            if (*p == this){
                 mem_overlap = true;
                 break;
             }
         }
-        std::vector<double> tmp;
-        std::vector<double>* work = mem_overlap ? &tmp : &m_v;   
-        uint t_nrows = 0, t_ncols = 0; 
+        std::vector<REAL> tmp;
+        std::vector<REAL>* work = mem_overlap ? &tmp : &m_v;   
+        std::size_t t_nrows = 0, t_ncols = 0; 
         {    
             auto& o = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]); 
             t_nrows = o.nrows(), t_ncols = o.ncols();
-            work->resize(m_nrows*m_ncols); 
-            std::copy(o.m_v.data(), o.m_v.data() + m_nrows*m_ncols, work->data()); 
+            work->resize(t_nrows*t_ncols); 
+            std::copy(o.m_v.data(), o.m_v.data() + t_nrows*t_ncols, work->data()); 
         } 
         if (vals_begin+1 < vals_end){
             for (auto p = vals_begin+1; p < vals_end; ++p){
@@ -200,32 +195,32 @@ namespace Ani{
             for (std::size_t i = 0; i < t_nrows; ++i)
                 for (auto p = vals_begin+1; p < vals_end; ++p){
                     auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                    (*work)[i + j*m_nrows] += o(i, j);
+                    (*work)[i + j*t_nrows] += o(i, j);
                 }
         }
-        m_v = std::move(*work);
+        if (work == &tmp) m_v = std::move(tmp);
         m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_mul(const BaseExpr** vals_begin, const BaseExpr** vals_end){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
         bool mem_overlap = false;    
         for (auto p = vals_begin; p < vals_end; ++p){ 
-            if (p == this){
+            if (*p == this){
                 mem_overlap = true;
                 break;
             }
         }
-        std::vector<double> tmp;
-        std::vector<double>* work = mem_overlap ? &tmp : &m_v;   
-        uint t_nrows = 0, t_ncols = 0; 
+        std::vector<REAL> tmp;
+        std::vector<REAL>* work = mem_overlap ? &tmp : &m_v;   
+        std::size_t t_nrows = 0, t_ncols = 0; 
         {    
             auto& o = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]); 
             t_nrows = o.nrows(), t_ncols = o.ncols();
-            work->resize(m_nrows*m_ncols); 
-            std::copy(o.m_v.data(), o.m_v.data() + m_nrows*m_ncols, work->data()); 
+            work->resize(t_nrows*t_ncols); 
+            std::copy(o.m_v.data(), o.m_v.data() + t_nrows*t_ncols, work->data()); 
         } 
         if (vals_begin+1 < vals_end){
             for (auto p = vals_begin+1; p < vals_end; ++p){
@@ -237,61 +232,47 @@ namespace Ani{
             for (std::size_t i = 0; i < t_nrows; ++i)
                 for (auto p = vals_begin+1; p < vals_end; ++p){
                     auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                    (*work)[i + j*m_nrows] *= o(i, j);
+                    (*work)[i + j*t_nrows] *= o(i, j);
                 }
         }
-        m_v = std::move(*work);
+        if (work == &tmp) m_v = std::move(tmp);
         m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_min(const BaseExpr** vals_begin, const BaseExpr** vals_end){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
-        {    
-            auto& o = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]); 
-            m_nrows = o.nrows(), m_ncols = o.ncols();
-            m_v.resize(m_nrows*m_ncols); 
-            std::copy(o.m_v.data(), o.m_v.data() + m_nrows*m_ncols, m_v.data()); 
-        } 
-        if (vals_begin+1 < vals_end){
-            for (auto p = vals_begin+1; p < vals_end; ++p){
-                auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                if (o.nrows() != m_nrows || o.ncols() != m_ncols)
-                    throw std::runtime_error("Dimension inconsistency");
-            }
-            for (std::size_t j = 0; j < m_ncols; ++j)
-            for (std::size_t i = 0; i < m_nrows; ++i)
-                for (auto p = vals_begin+1; p < vals_end; ++p){
-                    auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                    m_v[i + j*m_nrows] = min(m_v[i + j*m_nrows], o(i, j));
-                }
+        auto& o0 = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]);
+        std::size_t t_nrows = o0.nrows(), t_ncols = o0.ncols();
+        std::vector<REAL> res(o0.m_v);
+        for (auto p = vals_begin+1; p < vals_end; ++p){
+            auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
+            if (o.nrows() != t_nrows || o.ncols() != t_ncols)
+                throw std::runtime_error("Dimension inconsistency");
+            for (std::size_t k = 0; k < res.size(); ++k)
+                res[k] = std::min(res[k], o.m_v[k]);
         }
+        m_v = std::move(res);
+        m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_max(const BaseExpr** vals_begin, const BaseExpr** vals_end){
-        if (vals_begin = nullptr || vals_end == nullptr || vals_begin >= vals_end)
+        if (vals_begin == nullptr || vals_end == nullptr || vals_begin >= vals_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
-        {    
-            auto& o = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]); 
-            m_nrows = o.nrows(), m_ncols = o.ncols();
-            m_v.resize(m_nrows*m_ncols); 
-            std::copy(o.m_v.data(), o.m_v.data() + m_nrows*m_ncols, m_v.data()); 
-        } 
-        if (vals_begin+1 < vals_end){
-            for (auto p = vals_begin+1; p < vals_end; ++p){
-                auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                if (o.nrows() != m_nrows || o.ncols() != m_ncols)
-                    throw std::runtime_error("Dimension inconsistency");
-            }
-            for (std::size_t j = 0; j < m_ncols; ++j)
-            for (std::size_t i = 0; i < m_nrows; ++i)
-                for (auto p = vals_begin+1; p < vals_end; ++p){
-                    auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
-                    m_v[i + j*m_nrows] = max(m_v[i + j*m_nrows], o(i, j));
-                }
+        auto& o0 = *static_cast<const NumericExpr<REAL>*>(vals_begin[0]);
+        std::size_t t_nrows = o0.nrows(), t_ncols = o0.ncols();
+        std::vector<REAL> res(o0.m_v);
+        for (auto p = vals_begin+1; p < vals_end; ++p){
+            auto& o = *static_cast<const NumericExpr<REAL>*>(*p);
+            if (o.nrows() != t_nrows || o.ncols() != t_ncols)
+                throw std::runtime_error("Dimension inconsistency");
+            for (std::size_t k = 0; k < res.size(); ++k)
+                res[k] = std::max(res[k], o.m_v[k]);
         }
+        m_v = std::move(res);
+        m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;
     }
     template<typename REAL>
@@ -312,13 +293,13 @@ namespace Ani{
             std::vector<REAL> res(t_nrows*t_ncols);
             for (std::size_t j = 0; j < t_ncols; ++j)
                 for (std::size_t i = 0; i < t_nrows; ++i)
-                    res(j + i*t_ncols) = o(i, j);
+                    res[j + i*t_ncols] = o(i, j);
             m_v = std::move(res);
         } else {
             m_v.resize(t_nrows*t_ncols);
             for (std::size_t j = 0; j < t_ncols; ++j)
                 for (std::size_t i = 0; i < t_nrows; ++i)
-                    m_v(j + i*t_ncols) = o(i, j);
+                    m_v[j + i*t_ncols] = o(i, j);
         }
         m_nrows = t_ncols, m_ncols = t_nrows;
         return *this;       
@@ -333,13 +314,14 @@ namespace Ani{
         REAL r = std::inner_product(o1.m_v.data(), o1.m_v.data() + sz, o2.m_v.data(), REAL(0.0), std::plus<REAL>(), std::multiplies<REAL>()); 
         m_v.resize(1); m_v[0] = r;
         m_nrows = m_ncols = 1;
+        return *this;
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_cross(const BaseExpr& a, const BaseExpr& b) {
         if (a.nrows() != 3 || b.nrows() != 3 || a.ncols() != 1 || b.ncols() != 1)
             throw std::runtime_error("Cross product defined only for 3x1 vectors");
-        auto& v1 = *static_cast<const NumericExpr<REAL>*>(&a)->m_v;
-        auto& v2 = *static_cast<const NumericExpr<REAL>*>(&b)->m_v;    
+        auto& v1 = static_cast<const NumericExpr<REAL>*>(&a)->m_v;
+        auto& v2 = static_cast<const NumericExpr<REAL>*>(&b)->m_v;    
         std::array<REAL, 3> res{v1[1]*v2[2] - v2[1]*v1[2], -v1[0]*v2[2] + v2[0]*v1[2], v1[0]*v2[1] - v2[0]*v1[1]};
         m_v.resize(3);
         std::copy(res.data(), res.data() + 3, m_v.data());
@@ -348,7 +330,7 @@ namespace Ani{
     }
     template<typename REAL>
     NumericExpr<REAL>& NumericExpr<REAL>::set_mtimes(const BaseExpr** m_begin, const BaseExpr** m_end){
-        if (m_begin = nullptr || m_end == nullptr || m_begin >= m_end)
+        if (m_begin == nullptr || m_end == nullptr || m_begin >= m_end)
             throw std::runtime_error("Function supported only for nonempty ranges");
         if (m_end - m_begin == 1){
             auto& o = *static_cast<const NumericExpr<REAL>*>(m_begin[0]);
@@ -412,22 +394,20 @@ namespace Ani{
                 t_nrows = o1.size1(); t_ncols = o1.size2();
             }
             for (std::size_t r = 0; r < m_end - m_begin - 1; ++r){
-
-                auto& o1 = *static_cast<const NumericExpr<REAL>*>(m_begin[r]);
                 auto& o2 = *static_cast<const NumericExpr<REAL>*>(m_begin[r+1]);
                 std::size_t ttncols = o2.ncols();
-                t1->resize(t_nrows*t_ncols);
+                t1->resize(t_nrows*ttncols);
                 for (int j = 0; j < o2.ncols(); ++j)
-                for (int i = 0; i < o1.nrows(); ++i){
+                for (int i = 0; i < t_nrows; ++i){
                         REAL s = 0;
-                        for (int k = 0; k < o1.ncols(); ++k) 
+                        for (int k = 0; k < t_ncols; ++k) 
                             s += (*t0)[i + k * t_nrows] * o2.m_v[k + j*o2.nrows()];
                         (*t1)[i + t_nrows*j] = s;    
                 }
                 t_ncols = ttncols;
                 std::swap(t1, t0);
             }
-            m_v = std::move(*t1);
+            if (t0 != &m_v) m_v = std::move(*t0);
             m_nrows = t_nrows; m_ncols = t_ncols;
             return *this;
         }
@@ -438,23 +418,27 @@ namespace Ani{
         auto& o = *static_cast<const NumericExpr<REAL>*>(&a);
         m_nrows = o.nrows(), m_ncols = o.ncols();
         m_v.resize(m_nrows*m_ncols);
-        for (std::size_t j = 0; j < m_ncols; ++j)
-            for (std::size_t i = 0; i < m_nrows; ++i)
-                m_v[i + j*m_nrows] = transform(o(i, j));
+        for (std::size_t k = 0; k < m_v.size(); ++k)
+            m_v[k] = transform(o.m_v[k]);
         return *this;
     }
     template<typename REAL>
     template<typename TWOARG_FUNCTOR>
     NumericExpr<REAL>& NumericExpr<REAL>::set_op(const BaseExpr& a, const BaseExpr& b, const TWOARG_FUNCTOR& op){
+        // scalar argument is applied to every element of the other one
         auto& o1 = *static_cast<const NumericExpr<REAL>*>(&a);
         auto& o2 = *static_cast<const NumericExpr<REAL>*>(&b);
-        m_nrows = o1.nrows(), m_ncols = o1.ncols();
-        m_v.resize(m_nrows*m_ncols);
-        if (o1.nrows() != o2.nrows() || o1.ncols() != o2.ncols())
-            throw std::runtime_error("Dimension inconsistency");
-        for (std::size_t j = 0; j < m_ncols; ++j)
-            for (std::size_t i = 0; i < m_nrows; ++i)
-                m_v[i + j*m_nrows] = op(o1(i, j), o2(i, j));
+        const auto& o = (o1.m_v.size() == 1) ? o2 : o1;
+        std::size_t t_nrows = o.nrows(), t_ncols = o.ncols();
+        for (auto* p: {&o1, &o2})
+            if (p->m_v.size() != 1 && (p->nrows() != t_nrows || p->ncols() != t_ncols))
+                throw std::runtime_error("Dimension inconsistency");
+        std::vector<REAL> res(t_nrows*t_ncols);
+        std::size_t s1 = (o1.m_v.size() == 1) ? 0 : 1, s2 = (o2.m_v.size() == 1) ? 0 : 1;
+        for (std::size_t k = 0; k < res.size(); ++k)
+            res[k] = op(o1.m_v[k*s1], o2.m_v[k*s2]);
+        m_v = std::move(res);
+        m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;        
     }
     template<typename REAL>
@@ -463,14 +447,17 @@ namespace Ani{
         auto& o1 = *static_cast<const NumericExpr<REAL>*>(&a);
         auto& o2 = *static_cast<const NumericExpr<REAL>*>(&b);
         auto& o3 = *static_cast<const NumericExpr<REAL>*>(&c);
-        m_nrows = o1.nrows(), m_ncols = o1.ncols();
-        m_v.resize(m_nrows*m_ncols);
-        if (o1.nrows() != o2.nrows() || o1.ncols() != o2.ncols() ||
-            o1.nrows() != o3.nrows() || o1.ncols() != o3.ncols())
-            throw std::runtime_error("Dimension inconsistency");
-        for (std::size_t j = 0; j < m_ncols; ++j)
-            for (std::size_t i = 0; i < m_nrows; ++i)
-                m_v[i + j*m_nrows] = op(o1(i, j), o2(i, j), o3(i, j));
+        const auto& o = (o1.m_v.size() != 1) ? o1 : ((o2.m_v.size() != 1) ? o2 : o3);
+        std::size_t t_nrows = o.nrows(), t_ncols = o.ncols();
+        for (auto* p: {&o1, &o2, &o3})
+            if (p->m_v.size() != 1 && (p->nrows() != t_nrows || p->ncols() != t_ncols))
+                throw std::runtime_error("Dimension inconsistency");
+        std::vector<REAL> res(t_nrows*t_ncols);
+        std::size_t s1 = (o1.m_v.size() == 1) ? 0 : 1, s2 = (o2.m_v.size() == 1) ? 0 : 1, s3 = (o3.m_v.size() == 1) ? 0 : 1;
+        for (std::size_t k = 0; k < res.size(); ++k)
+            res[k] = op(o1.m_v[k*s1], o2.m_v[k*s2], o3.m_v[k*s3]);
+        m_v = std::move(res);
+        m_nrows = t_nrows, m_ncols = t_ncols;
         return *this;        
     }
 }
\ No newline at end of file
-- 
2.43.0


From 2b5db40316f7dbda3f59bb9809c596ede7e0b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:39 +0000
Subject: [PATCH 45/45] fix: symbolic shape functions of P0, P3, RT0, ND0,
 vector and composed spaces differed from the numerical ones

---
 anifem++/fem/fem_space.cpp             | 20 ++++++++++++++++----
 anifem++/fem/spaces/nedelec_0.h        | 12 ++++++------
 anifem++/fem/spaces/poly_0.h           |  3 ++-
 anifem++/fem/spaces/poly_3.h           | 10 ++++------
 anifem++/fem/spaces/raviant_thomas_0.h | 11 ++++++-----
 5 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index f8e0370..1d35125 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -407,12 +407,21 @@ namespace Ani{
         if (!m_base || !o.m_base) return o.m_base.get() == m_base.get();
         return vec_dim() == o.vec_dim() && (o.m_base.get() == m_base.get() || *o.m_base == *m_base); 
     }
+    /// Values of a function of one part of the space: zero components are added before and after
+    static inline Expr extend_by_zeroes(const Expr& phi, uint before, uint after){
+        std::vector<Expr> parts;
+        if (before > 0) parts.push_back(phi.zeroes(before, 1));
+        parts.push_back(phi);
+        if (after > 0) parts.push_back(phi.zeroes(after, 1));
+        return parts.size() > 1 ? FT::vertcat(parts.data(), parts.data() + parts.size()) : phi;
+    }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
         uint lnfa = m_base->m_order.NumDofOnTet();
         uint ldim = m_order.target<DofT::VectorDofMap>()->m_dim;
         m_base->evalBasisFunctions(lmb, grad_lmb, phi);
-        for (uint d = 1; d < ldim; ++d)
-            std::copy(phi, phi + lnfa, phi + lnfa*d);
+        for (uint d = ldim; d-- > 0; )
+            for (uint i = 0; i < lnfa; ++i)
+                phi[lnfa*d + i] = extend_by_zeroes(phi[i], m_base->dim()*d, m_base->dim()*(ldim - 1 - d));
     }    
     PlainMemoryX<> VectorFemSpace::interpolateOnDOF_mem_req(int idof_on_tet, int fusion, uint max_quad_order) const{
         auto vdim = m_order.target<DofT::VectorDofMap>()->m_dim;
@@ -702,9 +711,12 @@ namespace Ani{
         return true; 
     }
     void ComplexFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-        for (uint i = 0, shift = 0; i < m_spaces.size(); ++i){
+        for (uint i = 0, shift = 0, dim_shift = 0; i < m_spaces.size(); ++i){
+            uint lnfa = m_spaces[i]->m_order.NumDofOnTet(), ldim = m_spaces[i]->dim();
             m_spaces[i]->evalBasisFunctions(lmb, grad_lmb, phi + shift);
-            shift += m_spaces[i]->m_order.NumDofOnTet();
+            for (uint j = shift; j < shift + lnfa; ++j)
+                phi[j] = extend_by_zeroes(phi[j], dim_shift, dim() - dim_shift - ldim);
+            shift += lnfa, dim_shift += ldim;
         }
     } 
     PlainMemoryX<> ComplexFemSpace::interpolateOnDOF_mem_req(int idof_on_tet, int fusion, uint max_quad_order) const{
diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index 5a460fc..bd1147e 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -229,15 +229,15 @@ namespace Ani{
     struct Basis<FemFix<FEM_ND0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)}));
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             static const unsigned char IPR[4*6] = {0,1,2,3, 0,2,3,1, 0,3,1,2, 1,2,0,3, 1,3,2,0, 2,3,0,1};
             for (int i = 0; i < 6; ++i){
-                auto l0 = grad_lmb.col(IPR[6*i+0]).T();
-                auto l1 = grad_lmb.col(IPR[6*i+1]).T();
-                auto l2 = grad_lmb.col(IPR[6*i+2]).T();
-                auto l3 = grad_lmb.col(IPR[6*i+3]).T();
+                auto l0 = grad_lmb.row(IPR[4*i+0]).T();
+                auto l1 = grad_lmb.row(IPR[4*i+1]).T();
+                auto l2 = grad_lmb.row(IPR[4*i+2]).T();
+                auto l3 = grad_lmb.row(IPR[4*i+3]).T();
                 auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[6*i+0], 0)*l1 - lmb(IPR[6*i+1], 0)*l0);
+                phi[i] = e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
diff --git a/anifem++/fem/spaces/poly_0.h b/anifem++/fem/spaces/poly_0.h
index d5e67d6..3901a5a 100644
--- a/anifem++/fem/spaces/poly_0.h
+++ b/anifem++/fem/spaces/poly_0.h
@@ -118,7 +118,8 @@ namespace Ani{
     template<>
     struct Basis<FemFix<FEM_P0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
-            (void) lmb; (void) grad_lmb;
+            (void) grad_lmb;
+            phi[0] = lmb.zeroes();
             phi[0] = 1;
         }
     };
diff --git a/anifem++/fem/spaces/poly_3.h b/anifem++/fem/spaces/poly_3.h
index 74557ac..28405c1 100644
--- a/anifem++/fem/spaces/poly_3.h
+++ b/anifem++/fem/spaces/poly_3.h
@@ -185,12 +185,10 @@ namespace Ani{
                     *phi = 4.5 * lmb(j, 0) * lmb(k, 0) * (3*lmb(id, 0) - 1);
                     ++phi;
                 }   
-            for (int j = 0; j < 4; ++j)
-            for (int k = j+1; k < 4; ++k)
-                for (int l = k+1; l < 4; ++l){
-                    *phi = 27 * lmb(j, 0) * lmb(k, 0) * lmb(l, 0); 
-                    ++phi;
-                }
+            for (int j = 0; j < 4; ++j){
+                *phi = 27 * lmb(j, 0) * lmb((j+1)%4, 0) * lmb((j+2)%4, 0); 
+                ++phi;
+            }
         }
     };
 
diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index 1d330b6..c1f7999 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,12 +236,13 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)})));
+            // det of gradients of barycentric coordinates j, j+1, j+2 changes the sign with j
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.col((i+3)%4))/V * (
-                        lmb((i+0)%4, 0)*cross( grad_lmb.col((i+1)%4).T(), grad_lmb.col((i+2)%4).T() ) + 
-                        lmb((i+1)%4, 0)*cross( grad_lmb.col((i+2)%4).T(), grad_lmb.col((i+0)%4).T() ) +
-                        lmb((i+2)%4, 0)*cross( grad_lmb.col((i+0)%4).T(), grad_lmb.col((i+1)%4).T() )
+                phi[i] = norm(grad_lmb.row((i+3)%4))/(i%2 == 0 ? V : -V) * (
+                        lmb((i+0)%4, 0)*cross( grad_lmb.row((i+1)%4).T(), grad_lmb.row((i+2)%4).T() ) + 
+                        lmb((i+1)%4, 0)*cross( grad_lmb.row((i+2)%4).T(), grad_lmb.row((i+0)%4).T() ) +
+                        lmb((i+2)%4, 0)*cross( grad_lmb.row((i+0)%4).T(), grad_lmb.row((i+1)%4).T() )
                         ); 
         }
     };
-- 
2.43.0

