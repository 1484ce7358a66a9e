From 10bf97a7b48d141127c3ceb756c15a10c39c5b30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 01/36] fix: flood_fill on a non-leaf tree element must only
 start from its first leaf

It also processed the non-leaf element itself, filling the face neighbors of
the whole element even when they are behind a barrier or when the start leaf
is already processed.
---
 src/Tree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 3d3a5b4..c4025cc 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -158,7 +158,11 @@ void Tree::set_status(int new_status)
 void Tree::flood_fill(int new_status)
 {
   HEXED_ASSERT(new_status != unprocessed, "`flood_fill` may not be used to set status to `unprocessed`");
-  if (!is_leaf()) children_storage[0]->flood_fill(new_status); // find a leaf element to start
+  // find a leaf element to start
+  if (!is_leaf()) {
+    children_storage[0]->flood_fill(new_status);
+    return;
+  }
   std::queue<Tree*> to_process;
   to_process.push(this);
   while (!to_process.empty()) {
-- 
2.43.0


From cd08e5f161a08322119d1b1b00497f8b8371ff5a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 02/36] fix: updating a 1D mesh with elements of different
 sizes overflowed the stack

A face in 1D is a single point, so there are no hanging vertices to match.
---
 src/Hanging_vertex_matcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 8ad9a44..4fe7379 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -12,6 +12,7 @@ Hanging_vertex_matcher::Hanging_vertex_matcher(std::vector<Element*> fine_elemen
 
 void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)> access_func)
 {
+  if (n_dim == 1) return; // a face in 1D is a single point, so no vertices can be hanging
   // extract the indices and values of the vertices on the desired face
   int inds [4]; // for `n_dim <= 3` the required size will be <= 4
   Eigen::VectorXd values (n_vert);
-- 
2.43.0


From 18f305b11c10acdf3e6d8c3873ca1addb3e5f71b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 03/36] fix: Accessible_mesh::cleanup deleted elements because
 of stale records

`Element::record` is used by several functions (`write`, `elem_handles`, ...) for their own bookkeeping.
`cleanup` took any element where this happened to be 2 for one that was supposed to be deleted.
---
 src/Accessible_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..d440288 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -245,6 +245,9 @@ void Accessible_mesh::disconnect_boundary(int bc_sn)
 
 void Accessible_mesh::cleanup()
 {
+  // `record` may have been left with anything (e.g. by `write` or `elem_handles`) and must not be taken for a request to delete
+  #pragma omp parallel for
+  for (int i_elem = 0; i_elem < elems.size(); ++i_elem) elems[i_elem].record = 0;
   purge();
   id_smooth_verts();
   id_boundary_verts();
-- 
2.43.0


From 7bebf9179316f46f00ce6e1b60c7fcedda84eb6a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 04/36] fix: mesh updates after set_surface created elements
 that intersect the surface

Coarsening exposes a tree cell whose flood fill status dates from before its refinement, possibly before the surface was set.
The coarse element was then kept even if it intersects the surface, and from there the mesh could even leak through the surface.
Determine the status again when a cell is unrefined.
---
 include/Accessible_mesh.hpp |  3 ++-
 src/Accessible_mesh.cpp     | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/Accessible_mesh.hpp b/include/Accessible_mesh.hpp
index 9013031..6b918f8 100644
--- a/include/Accessible_mesh.hpp
+++ b/include/Accessible_mesh.hpp
@@ -48,7 +48,8 @@ class Accessible_mesh : public Mesh
   bool is_surface(Tree*);
   template<typename element_t> Mesh_by_type<element_t>& mbt(); // gets either `car` or `def`
   template<typename element_t> void connect_new(int start_at); // connects new elements in `mbt<element_t>()`. helper function for `refine`
-  void refine_set_status(Tree*); // refines a tree and sets the flood fill status for any children that intersect the surface
+  void refine_set_status(Tree*);
+  void unrefine_set_status(Tree*); // refines a tree and sets the flood fill status for any children that intersect the surface
   void refine_by_record(bool is_deformed, int start, int end);
   bool needs_refine(Tree*);
   void purge();
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index d440288..15641c9 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -822,6 +822,13 @@ void Accessible_mesh::refine_set_status(Tree* t)
   }
 }
 
+void Accessible_mesh::unrefine_set_status(Tree* t)
+{
+  t->unrefine();
+  // the status from before `t` was refined is outdated if the surface has been set since
+  t->set_status(intersects_surface(t) - 1);
+}
+
 // performs the actual refinement for all elements where the record has been set to 1
 void Accessible_mesh::refine_by_record(bool is_deformed, int start, int end)
 {
@@ -1199,7 +1206,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                 child->elem->record = 2;
               }
             }
-            parent->unrefine();
+            unrefine_set_status(parent);
             add_elem(is_def, *parent).record = 0;
           }
         }
@@ -1242,7 +1249,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                       child->elem->record = 2;
                     }
                   }
-                  p->unrefine();
+                  unrefine_set_status(p);
                 }
               } else if (neighbor->refinement_level() < elem.refinement_level() - 1) {
                 changed = true;
-- 
2.43.0


From 195a7490a9893389dd96d3815ea72e85e5dedc52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 05/36] fix: update could merge an element that is locked
 against unrefinement with its siblings

The lock was only looked at for the sibling that happened to be visited first.
---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 15641c9..f872141 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1191,7 +1191,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
             for (Tree* child : parent->children()) {
               if (!child->is_leaf() && has_existent_children(child)) unref = false;
               else if (child->elem) if (child->elem->record != 2) {
-                unref = unref && child->elem->record == -1;
+                unref = unref && child->elem->record == -1 && !child->elem->unrefinement_locked;
                 is_def = is_def || child->elem->get_is_deformed();
               }
             }
-- 
2.43.0


From 827dfaa6d62125ab7a7a6c39d0db953b123ffd51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 06/36] fix: write fine elements of refined connections to mesh
 files in row-major order

---
 include/connection.hpp  | 4 ++++
 src/Accessible_mesh.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/connection.hpp b/include/connection.hpp
index b1ee26e..eaab895 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -195,6 +195,7 @@ class Refined_connection
   Con_dir<element_t> dir;
   Con_dir<Deformed_element> def_dir;
   bool rev;
+  std::vector<element_t*> f; // in natural order, which might not be the order of `fine_cons`
   std::vector<std::unique_ptr<Fine_connection>> fine_cons;
   std::array<bool, 2> str;
   int n_fine;
@@ -229,6 +230,7 @@ class Refined_connection
     dir{con_dir},
     def_dir{Con_dir<Deformed_element>(dir)},
     rev{reverse_order},
+    f{fine},
     str{stretch_arg},
     coarse_state_data{3*params.n_dof()/params.row_size},
     matcher{to_elementstar(fine), def_dir.i_dim[!reverse_order], def_dir.face_sign[!reverse_order], str}
@@ -283,6 +285,8 @@ class Refined_connection
   int n_fine_elements() {return n_fine;}
   double* coarse_state() {return coarse_state_data.data();}
   element_t& coarse_element() {return c;}
+  //! fetch a fine element in the natural row-major order that was passed to the constructor (which is not necessarily the order of `connection()`)
+  element_t& fine_element(int i_fine) {return *f[i_fine];}
 };
 
 template <>
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index f872141..c1cf6fe 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1587,7 +1587,7 @@ void Accessible_mesh::write(std::string name)
       int data[11] {}; \
       data[0] = con.coarse_element().record; \
       for (int i_fine = 0; i_fine < con.n_fine_elements(); ++i_fine) { \
-        data[1 + i_fine] = con.connection(i_fine).element(!con.order_reversed()).record; \
+        data[1 + i_fine] = con.fine_element(i_fine).record; \
       } \
       for (int i_fine = con.n_fine_elements(); i_fine < 4; ++i_fine) data[1 + i_fine] = -1; \
       for (int i_dim : {0, 1}) data[5 + i_dim] = con.stretch()[i_dim]; \
-- 
2.43.0


From 63744dfbd9aa07fb0bc91e4a15e2e706ec56dd67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:34:27 +0000
Subject: [PATCH 07/36] fix: elements of a mesh that is read from a file share
 the vertices that the file says they share

---
 src/Accessible_mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index c1cf6fe..860cfb7 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1675,6 +1675,8 @@ void Accessible_mesh::read_file(std::string file_name)
   int n_vert = params.n_vertices();
   std::vector<Element*> elem_ptrs(n_elem); // really need to switch to storing a flat array of fully polymorphic elements to avoid this nonsense
   std::vector<Deformed_element*> def_elem_ptrs(n_elem, nullptr);
+  vert_pos_dset.getSpace().getSimpleExtentDims(dims);
+  std::vector<Vertex*> verts(dims[0], nullptr);
   for (int i_elem = 0; i_elem < n_elem; ++i_elem) {
     std::vector<int> nom_pos(params.n_dim);
     h5_read_row(nom_pos_dset, params.n_dim, i_elem, nom_pos.data());
@@ -1687,7 +1689,12 @@ void Accessible_mesh::read_file(std::string file_name)
     elem_ptrs[i_elem] = &elem;
     if (is_def) def_elem_ptrs[i_elem] = &def.elems.at(ref_level, sn);
     for (int i_vert = 0; i_vert < n_vert; ++i_vert) {
-      h5_read_row(vert_pos_dset, params.n_dim, vert_inds[i_vert], elem.vertex(i_vert).pos.data());
+      Vertex& vert = elem.vertex(i_vert);
+      h5_read_row(vert_pos_dset, params.n_dim, vert_inds[i_vert], vert.pos.data());
+      // elements can share a vertex even if none of the connections below implies that they do
+      Vertex*& shared = verts[vert_inds[i_vert]];
+      if (shared) shared->eat(vert);
+      else shared = &vert;
     }
   }
   // read tree
-- 
2.43.0


From 336e21dcee642cb8c2845a6f7868af0753550c2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 08/36] fix: update does not merge cells that contain elements
 when it synchronizes surface cells

---
 src/Accessible_mesh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 860cfb7..0c0cc2d 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -890,6 +890,14 @@ bool has_existent_children(Tree* t)
   return has;
 }
 
+// whether an element exists anywhere in this tree and is not about to be deleted
+bool any_exist(Tree* t)
+{
+  bool any = exists(t);
+  for (Tree* child : t->children()) any = any || any_exist(child);
+  return any;
+}
+
 // whether an element is currently set to be deformed at the end of the `update` sweep
 bool is_def(Element& elem)
 {
@@ -1241,7 +1249,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
               if (neighbor->refinement_level() > elem.refinement_level()) {
                 Tree* p = neighbor->parent();
                 bool can_unref = true;
-                for (Tree* child : p->children()) can_unref = can_unref && !exists(child);
+                for (Tree* child : p->children()) can_unref = can_unref && !any_exist(child);
                 if (can_unref && !needs_refine(p)) {
                   changed = true;
                   for (Tree* child : p->children()) {
-- 
2.43.0


From 6b05eb55b2a7c80c6353264045dd3ea1ce724760 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 09/36] fix: a variable exists for a sub-namespace if any
 enclosing namespace, however far up, defines it

---
 include/Namespace.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/Namespace.hpp b/include/Namespace.hpp
index e35b80b..77d500a 100644
--- a/include/Namespace.hpp
+++ b/include/Namespace.hpp
@@ -84,11 +84,8 @@ inline bool Namespace::exists(std::string name)
 inline bool Namespace::exists_recursive(std::string name)
 {
   if (exists(name)) return true;
-  if (!supers.empty()) {
-    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists(name);};
-    return std::all_of(supers.begin(), supers.end(), predicate);
-  }
-  return false;
+  auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists_recursive(name);};
+  return std::any_of(supers.begin(), supers.end(), predicate);
 }
 
 template<typename T>
-- 
2.43.0


From 2137356d9c08cb2195d0b094044a7717bb55f19d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 10/36] fix: integer division by zero in HIL is an exception
 instead of ending the process

---
 src/Interpreter.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da03e60..94bed2f 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -157,11 +157,22 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   return val;
 }
 
-template<> int Interpreter::_pow<int>(int op0, int op1) {return math::pow(op0, op1);}
+template<> int Interpreter::_pow<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op0 || op1 >= 0, "integer division by zero", Hil_exception);
+  return math::pow(op0, op1);
+}
+
+template<> int Interpreter::_div<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op1, "integer division by zero", Hil_exception);
+  return op0/op1;
+}
 
 Interpreter::_Dynamic_value Interpreter::_mod(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(o0.i && o1.i, "binary operator `%` only accepts integers", Hil_exception);
+  HEXED_ASSERT(*o1.i, "integer division by zero", Hil_exception);
   _Dynamic_value v;
   v.i = *o0.i%*o1.i;
   return v;
-- 
2.43.0


From 1e32f61dd3a263c8f4b26846cbcb6fec8706ba21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 11/36] fix: HIL string index out of bounds is an exception
 instead of an invalid read

---
 src/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 94bed2f..567ed01 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -312,6 +312,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"^" , {1, _arithmetic_op<_pow<double>, _pow<int>>}}, // note: 0 is for unary ops
     {"#" , {1, [this](_Dynamic_value str, _Dynamic_value i) {
       HEXED_ASSERT(str.s && i.i, "firt operand of binary `#` must be `string` and second must be `int`", Hil_exception);
+      HEXED_ASSERT(*i.i >= 0 && *i.i < int(str.s->size()), "index of binary `#` is out of bounds", Hil_exception);
       return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
     }}},
     {"%" , {2, _mod}},
-- 
2.43.0


From ea7c155c712f474a2b92a183b39022869b32054e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 12/36] fix: HIL operators with a missing or wrong operand
 raise a HIL exception

---
 src/Interpreter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 567ed01..087a049 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -117,6 +117,7 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
           // variable assignment
           _pop();
           val = _eval(std::numeric_limits<int>::max() - 2);
+          HEXED_ASSERT(val.i || val.d || val.s, format_str(1000, "no value to assign to variable `%s`", n.c_str()), Hil_exception);
           if (val.i) variables->assign(n, *val.i);
           if (val.d) variables->assign(n, *val.d);
           if (val.s) variables->assign(n, *val.s);
@@ -182,6 +183,7 @@ template<double (*dop)(double, double), int (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_arithmetic_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator is missing an operand", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -196,6 +198,7 @@ template<bool (*dop)(double, double), bool (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_comparison_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator is missing an operand", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -282,7 +285,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"abs", [](_Dynamic_value val) {
       if      (val.i) *val.i = std::abs(*val.i);
       else if (val.d) *val.d = std::abs(*val.d);
-      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument")
+      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument", Hil_exception)
       return val;
     }},
     {"read", [this](_Dynamic_value val) {
-- 
2.43.0


From ef403284dfc46d3dbbe03b98dcbf202905efc3b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 13/36] fix: malformed HIL numeric literals are not silently
 truncated

---
 src/Interpreter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 087a049..b3cc4b8 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -86,8 +86,10 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
         value.push_back(_pop());
       }
       try {
-        if (is_int) val = std::stoi(value.c_str());
-        else        val = std::stod(value.c_str());
+        std::size_t n_parsed;
+        if (is_int) val = std::stoi(value, &n_parsed);
+        else        val = std::stod(value, &n_parsed);
+        HEXED_ASSERT(n_parsed == value.size(), "trailing characters");
       } catch (...) {
         HEXED_ASSERT(false, format_str(1000, "failed to parse numeric literal `%s`", value.c_str()), Hil_exception);
       }
-- 
2.43.0


From 7c001d166c402fffee8f18a6e21725f76db98414 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 14/36] fix: a HIL statement cannot be the operand of an
 operator at the start of the next statement

---
 src/Interpreter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index b3cc4b8..442819e 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -69,7 +69,9 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
       _substitute();
       continue;
     } else if (_text.front() == '\n' || _text.front() == ';') {
+      if (precedence < std::numeric_limits<int>::max() - 1) break; // this is the end of an enclosing statement
       _pop();
+      continue; // what follows is a new statement, so the previous one can't be an operand of it
     } else if (_text.front() == '(') {
       _pop();
       val = _eval(std::numeric_limits<int>::max());
-- 
2.43.0


From bd1fa99983018f71b7f64f81a8c4460df0e6a5c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 15/36] fix: unclosed parenthesis in HIL is an exception

---
 src/Interpreter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 442819e..b6bd0ea 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -61,6 +61,7 @@ void Interpreter::_substitute()
 Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
 {
   _Dynamic_value val;
+  bool closed = false;
   while (_more())
   {
     _skip_spaces();
@@ -77,6 +78,7 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
       val = _eval(std::numeric_limits<int>::max());
     } else if (precedence == std::numeric_limits<int>::max() && _text.front() == ')') {
       _pop();
+      closed = true;
       break;
     } else if (std::isdigit(_text.front()) || _text.front() == '.') {
       // numeric literals
@@ -159,6 +161,9 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
     }
     if (precedence < std::numeric_limits<int>::max() - 1) break;
   }
+  // note: text is only empty if `exit` was evaluated
+  HEXED_ASSERT(closed || precedence < std::numeric_limits<int>::max() || _text.empty(),
+               "command input ended before `(` was closed", Hil_exception);
   return val;
 }
 
-- 
2.43.0


From ddfe01e2f93977fdbede84cf8fcf7503a2e4a84a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 16/36] fix: HIL exceptions are handled each time, by one
 handler, and skip exactly the failed statement

---
 include/Interpreter.hpp |  2 ++
 src/Interpreter.cpp     | 40 +++++++++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/Interpreter.hpp b/include/Interpreter.hpp
index 53e589c..8b63665 100644
--- a/include/Interpreter.hpp
+++ b/include/Interpreter.hpp
@@ -27,6 +27,7 @@ class Interpreter
   char _pop();
   void _skip_spaces();
   bool _char_is(int index, char value);
+  void _skip_statement(); //!< discards the rest of the current statement
   std::string _debug_info();
   std::string _read_name();
   void _substitute();
@@ -66,6 +67,7 @@ class Interpreter
   static std::function<_Dynamic_value(_Dynamic_value)> _numeric_unary(double (*f)(double), std::string name);
 
   std::list<char> _text;
+  int _paren_depth = 0; //!< number of `(` which have not been closed yet
   std::map<std::string, std::function<_Dynamic_value(_Dynamic_value)>> _un_ops;
   std::map<std::string, _Binary_op> _bin_ops;
   Lock _lock;
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index b6bd0ea..6a93f55 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -43,6 +43,20 @@ std::string Interpreter::_read_name()
   return name;
 }
 
+void Interpreter::_skip_statement()
+{
+  int brace_depth = 0;
+  bool backslash = false;
+  while (_more() && (brace_depth || _paren_depth || (_text.front() != '\n' && _text.front() != ';'))) {
+    char c = _pop();
+    if (c == '{' && !backslash) ++brace_depth;
+    if (c == '}' && !backslash && brace_depth) --brace_depth;
+    if (c == '(' && !brace_depth) ++_paren_depth;
+    if (c == ')' && !brace_depth && _paren_depth) --_paren_depth;
+    backslash = brace_depth && c == '\\' && !backslash;
+  }
+}
+
 std::string Interpreter::_debug_info()
 {
   std::string rest(_text.begin(), _text.end());
@@ -75,9 +89,11 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
       continue; // what follows is a new statement, so the previous one can't be an operand of it
     } else if (_text.front() == '(') {
       _pop();
+      ++_paren_depth;
       val = _eval(std::numeric_limits<int>::max());
     } else if (precedence == std::numeric_limits<int>::max() && _text.front() == ')') {
       _pop();
+      --_paren_depth;
       closed = true;
       break;
     } else if (std::isdigit(_text.front()) || _text.front() == '.') {
@@ -386,19 +402,21 @@ void Interpreter::exec(std::string comms)
   Lock::Acquire a(_lock);
   _text.assign(comms.begin(), comms.end());
   _text.push_back('\0');
-  try {
-    _eval(std::numeric_limits<int>::max() - 1);
-  } catch (const Hil_exception& e) {
-    std::string except = variables->lookup<std::string>("except").value();
-    std::string message = "Hexed Interface Language exception (in `hexed::Interpreter`):\n    " + std::string(e.what()) + "\n" + _debug_info();
-    if (!except.empty()) {
+  for (bool done = false; !done;) {
+    try {
+      _paren_depth = 0;
+      _eval(std::numeric_limits<int>::max() - 1);
+      done = true;
+    } catch (const Hil_exception& e) {
+      std::string except = variables->lookup<std::string>("except").value();
+      std::string message = "Hexed Interface Language exception (in `hexed::Interpreter`):\n    " + std::string(e.what()) + "\n" + _debug_info();
+      if (except.empty()) throw Hil_unhandled_exception(message);
       variables->assign<std::string>("exception", message);
-      _skip_spaces();
-      while (_more() && (_text.front() != '\n' && _text.front() != ';')) _pop();
-      except = except + "; exception = {}; except = {};";
+      variables->assign<std::string>("except", ""); // an exception in the handler is not handled by the handler
+      _skip_statement();
+      except = except + "; exception = {};";
       _text.insert(_text.begin(), except.begin(), except.end());
-      _eval(std::numeric_limits<int>::max() - 1);
-    } else throw Hil_unhandled_exception(message);
+    }
   }
   _text.clear();
 }
-- 
2.43.0


From 1ecb627cbea5cef3f7f08cb2a894e39f98a56b97 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 17/36] fix: the REPL has no stale or undefined result after a
 failed command

---
 include/builtin.hil | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/builtin.hil b/include/builtin.hil
index 16a1924..a8310c7 100644
--- a/include/builtin.hil
+++ b/include/builtin.hil
@@ -52,6 +52,7 @@ repl = {
         except = {println exception;}
         print {#+^$ }
         hexed_repl_cmd = ask
+        hexed_result = {}
         {basically reimplement the conditional to avoid overwriting `if`/`then`/`else`}
         hexed_result = {} + ($hexed_repl_cmd)
         hexed_repl_case0 = {println hexed_result}
-- 
2.43.0


From aab13483aa35f6cd567dc44f40ed4196c0a26cf9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 18/36] fix: spaces at the end of HIL code are not an error

---
 src/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 6a93f55..3d06614 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -79,6 +79,7 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   while (_more())
   {
     _skip_spaces();
+    if (!_more()) break; // there were only spaces left
     // parse expression tokens by kind
     if (_text.front() == '$') {
       _substitute();
-- 
2.43.0


From b8906ee5e01efa5b1ec54667c0aa9d46598a5b6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 19/36] fix: HIL operator shell evaluates to the return code of
 the command

---
 src/Interpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 3d06614..b972060 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <cstdlib>
 #include <chrono>
+#include <sys/wait.h>
 #include <Interpreter.hpp>
 
 namespace hexed
@@ -334,7 +335,8 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"shell", [](_Dynamic_value val) {
       HEXED_ASSERT(val.s.has_value(), "operand of `shell` must be `string`", Hil_exception);
       std::cout << std::flush; // apparently this is necessary sometimes?
-      return _Dynamic_value(std::system(val.s->c_str()));
+      int status = std::system(val.s->c_str());
+      return _Dynamic_value(WIFEXITED(status) ? WEXITSTATUS(status) : status); // `status` also encodes how the process ended
     }},
   },
   _bin_ops {
-- 
2.43.0


From 312b11c283e4f52813c293702f1a48d7c3ee2e69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 20/36] fix: print string variables in status reports

A `std::string` was passed through C varargs for `%s`, printing garbage.
---
 src/Case.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index a7c4e02..5e7569a 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -235,7 +235,7 @@ Case::Case(std::string input_script)
         transport_models.emplace_back(Transport_model::sutherland(sub.variables->lookup<double>("ref_value").value(),
                                                                   sub.variables->lookup<double>("ref_temperature").value(),
                                                                   sub.variables->lookup<double>("offset").value()));
-      } else HEXED_ASSERT(false, format_str(200, "invalid transport model specification for %s", name));
+      } else HEXED_ASSERT(false, format_str(200, "invalid transport model specification for %s", name.c_str()));
     }
     _solver_ptr.reset(new Solver(*n_dim, *row_size, root_sz, true, transport_models[0], transport_models[1], _inter.variables, printer));
     _solver().mesh().add_tree(_make_extremal_bcs(), mesh_extremes(all, 0));
@@ -413,7 +413,7 @@ Case::Case(std::string input_script)
         report += format_str(1000, "%*.8e, ", width, vald.value());
         _inter.variables->assign(vars.names[i_var], vald.value());
       } else if ((vals = sub.variables->lookup<std::string>(vars.names[i_var]))) {
-        report += format_str(1000, "%*s, ", width, vals.value());
+        report += format_str(1000, "%*s, ", width, vals.value().c_str());
         _inter.variables->assign(vars.names[i_var], vals.value());
       }
     }
-- 
2.43.0


From 38751929cec1dfee3689677b3b25dd7a64e84ea1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 21/36] fix: allow a status report without variables

With `print_vars = {}`, `header` and `report` erased characters before the start of an empty string.
---
 src/Case.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index 5e7569a..3528e02 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -378,7 +378,7 @@ Case::Case(std::string input_script)
       int width = std::max<int>(15, name.size());
       header += format_str(1000, "%*s, ", width, name.c_str());
     }
-    header.erase(header.end() - 2, header.end());
+    if (!header.empty()) header.erase(header.end() - 2, header.end());
     return header;
   }));
 
@@ -417,7 +417,7 @@ Case::Case(std::string input_script)
         _inter.variables->assign(vars.names[i_var], vals.value());
       }
     }
-    report.erase(report.end() - 2, report.end());
+    if (!report.empty()) report.erase(report.end() - 2, report.end());
     _solver().reset_counters();
     return report;
   }));
-- 
2.43.0


From 99bc44d0e787797499d7777c9707724267d6ab47 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 22/36] fix: replace dangling latest-output links

`std::filesystem::exists` follows symlinks, so a `latest` link whose target had been deleted was not
removed and creating the new link failed, ending the simulation.
---
 src/Case.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index 3528e02..0480418 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -80,7 +80,7 @@ std::string Case::_iteration_suffix()
 
 void force_symlink(const std::filesystem::path& target, const std::filesystem::path& link)
 {
-  if (std::filesystem::exists(link)) std::filesystem::remove(link);
+  std::filesystem::remove(link); // removes the link even if it is dangling, and does nothing if there is none
   std::filesystem::create_symlink(target, link);
 }
 
-- 
2.43.0


From c86c9aa3479581e7137e9782a538676c2cb45298 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 23/36] fix: label monitor samples with the iteration they were
 taken at

Samples taken after the update were labelled with the iteration number before it, so samples inside the
monitoring window were forgotten and bounds covered less than the requested fraction of the iterations.
---
 src/Case.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index 0480418..0e72ef9 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -442,7 +442,7 @@ Case::Case(std::string input_script)
     auto sub = _inter.make_sub();
     auto vals = _monitor_expr->eval(sub);
     for (unsigned i_monitor = 0; i_monitor < _monitor_expr->names.size(); ++i_monitor) {
-      _monitors[i_monitor].add_sample(iter, vals[i_monitor]);
+      _monitors[i_monitor].add_sample(_vari("iteration").value(), vals[i_monitor]);
       _inter.variables->assign(_monitor_expr->names[i_monitor] + "_min", _monitors[i_monitor].min());
       _inter.variables->assign(_monitor_expr->names[i_monitor] + "_max", _monitors[i_monitor].max());
     }
-- 
2.43.0


From 0ddeadc5eaf7d7ceff1eec15533565e3c281c287 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 24/36] fix: write skewness visualizations of the field and its
 edges to different files

With `vis_skew` and `vis_edges` (the default), the visualization of the edges overwrote that of the field.
---
 src/Case.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index 0e72ef9..c285d29 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -355,7 +355,7 @@ Case::Case(std::string input_script)
               _solver().visualize_surface(format, file_name, _solver().mesh().surface_bc_sn(), Boundary_expr(vis_vars, _inter), n_sample, edges);
             } else if (v == "field") {
               _solver().visualize_field(format, file_name, Qpoint_expr(vis_vars, _inter), n_sample, edges);
-              if (_vari("vis_skew").value()) _solver().visualize_field(format, wd + "skew" + suffix, Equiangle_skewness(), n_sample, edges);
+              if (_vari("vis_skew").value()) _solver().visualize_field(format, wd + (edges ? "skew_edges" : "skew") + suffix, Equiangle_skewness(), n_sample, edges);
             }
             if (format == "xdmf") {
               std::string latest = wd + name + "_latest1.xmf";
-- 
2.43.0


From 9dfd695c70f2799e27dcd56a3beb8bfb17631859 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 25/36] fix: prepare the faces and boundary caches after
 reading a flow state

---
 include/Solver.hpp | 1 +
 src/Solver.cpp     | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/Solver.hpp b/include/Solver.hpp
index 23e333f..2a2e2f0 100644
--- a/include/Solver.hpp
+++ b/include/Solver.hpp
@@ -49,6 +49,7 @@ class Solver
   void share_vertex_data(std::function<double&(Element&, int i_vertex)>, std::function<double(Mat<>)>);
   void share_vertex_data(std::function<double(Element&, int i_vertex)> get, std::function<double&(Element&, int i_vertex)> set, std::function<double(Mat<>)>);
   bool fix_admissibility(double stability_ratio);
+  void init_faces(); //!< \brief computes everything on the faces that is derived from a new flow state in the elements
   void apply_state_bcs();
   void apply_flux_bcs();
   void apply_avc_diff_bcs();
diff --git a/src/Solver.cpp b/src/Solver.cpp
index 996294d..2391c6f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -247,6 +247,7 @@ void Solver::read_state(std::string file_name)
     dspace.selectHyperslab(H5S_SELECT_SET, elem_dims, offset, stride, block);
     dset.read(elems[i_elem].state(), dset.getDataType(), mspace, dspace);
   }
+  init_faces();
 }
 
 void Solver::write_state(std::string file_name)
@@ -397,6 +398,11 @@ void Solver::initialize(const Spacetime_func& func)
       }
     }
   }
+  init_faces();
+}
+
+void Solver::init_faces()
+{
   compute_write_face(_kernel_mesh());
   compute_prolong(_kernel_mesh());
   auto& bc_cons {acc_mesh->boundary_connections()};
-- 
2.43.0


From 4854fbeb864aba3db7cc896368e8834c84a6afe9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 26/36] fix: restore the flow state of hanging-node faces after
 set_uncert_surface_rep

---
 src/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 2391c6f..05b7264 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -813,6 +813,7 @@ void Solver::set_uncert_surface_rep(int bc_sn)
     }
   }
   compute_write_face(_kernel_mesh());
+  compute_prolong(_kernel_mesh());
 }
 
 void Solver::synch_extruded_uncert()
-- 
2.43.0


From 1e58fdb444e1f04ad32b6d3323502f6459cc64dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 27/36] fix: delete bad extrusions independently of thread
 scheduling

---
 src/Accessible_mesh.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 0c0cc2d..d378edf 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -912,6 +912,8 @@ void Accessible_mesh::delete_bad_extrusions()
   bool changed;
   do {
     changed = false;
+    // Elements are only marked (`record = 4`) during the sweep and count as existing until it is over,
+    // so that the result does not depend on the order in which the threads visit the elements.
     #pragma omp parallel for reduction(||:changed)
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       auto& elem = elems[i_elem];
@@ -928,9 +930,9 @@ void Accessible_mesh::delete_bad_extrusions()
           if (neighbors.size() > 1) {
             if (std::any_of(neighbors.begin(), neighbors.end(), exists) && !all_exist) {
               changed = true;
-              for (Tree* n : neighbors) if (n->elem) {
+              for (Tree* n : neighbors) if (exists(n)) {
                 #pragma omp atomic write
-                n->elem->record = 2;
+                n->elem->record = 4;
               }
             }
           }
@@ -948,10 +950,10 @@ void Accessible_mesh::delete_bad_extrusions()
                   if (n->refinement_level() >= elem.refinement_level()) {
                     changed = true;
                     #pragma omp atomic write
-                    n->elem->record = 2;
+                    n->elem->record = 4;
                     if (n->refinement_level() == elem.refinement_level()) {
                       #pragma omp atomic write
-                      elem.record = 2;
+                      elem.record = 4;
                     }
                   }
                 }
@@ -963,10 +965,10 @@ void Accessible_mesh::delete_bad_extrusions()
                     if (n->refinement_level() >= elem.refinement_level()) {
                       changed = true;
                       #pragma omp atomic write
-                      n->elem->record = 2;
+                      n->elem->record = 4;
                       if (n->refinement_level() == elem.refinement_level()) {
                         #pragma omp atomic write
-                        elem.record = 2;
+                        elem.record = 4;
                       }
                     }
                   }
@@ -977,9 +979,9 @@ void Accessible_mesh::delete_bad_extrusions()
                     && std::any_of(diag_neighbs.begin(), diag_neighbs.end(), exists)) {
                   changed = true;
                   for (Tree* n : diag_neighbs) {
-                    if (n->elem) {
+                    if (exists(n)) {
                       #pragma omp atomic write
-                      n->elem->record = 2;
+                      n->elem->record = 4;
                     }
                   }
                 }
@@ -1015,12 +1017,16 @@ void Accessible_mesh::delete_bad_extrusions()
             if (bad) {
               changed = true;
               #pragma omp atomic write
-              elem.record = 2;
+              elem.record = 4;
             }
           }
         }
       }
     }
+    #pragma omp parallel for
+    for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
+      if (elems[i_elem].record == 4) elems[i_elem].record = 2;
+    }
   } while (changed);
 }
 
@@ -1152,6 +1158,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
    * -1 => unrefine
    * 2 => delete
    * 3 => toggle deformity
+   * 4 => delete at the end of the current sweep
    */
   HEXED_ASSERT(tree, "need a tree to refine");
   int nd = params.n_dim;
-- 
2.43.0


From 26080f118c1c36a170f605d8662319d07348affc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 28/36] fix: pass records along extrusion columns independently
 of thread scheduling

---
 src/Accessible_mesh.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index d378edf..41334e7 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -7,6 +7,7 @@
 #include <H5Cpp.h>
 #include <filesystem>
 #include <fstream>
+#include <map>
 
 namespace hexed
 {
@@ -1174,15 +1175,25 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
     else if (unref && !ref) elem.record = -1;
     elem.set_needs_smooth(false);
   }
-  // pass refinement requests of extruded elements to their extrusion parents
-  #pragma omp parallel for
-  for (auto con : extrude_cons) {
-    auto& inside = con->element(1);
-    Lock::Acquire a(inside.lock);
-    if (inside.record == 0) inside.record = con->element(0).record;
-    else inside.record = std::max(inside.record, con->element(0).record);
-    inside.unrefinement_locked = inside.unrefinement_locked || con->element(0).unrefinement_locked;
-  }
+  // Pass refinement requests of extruded elements to their extrusion parents.
+  // All the requests for an element are collected before any is applied, so that their order does not matter,
+  // and the outermost elements (which were created last) go first so that requests travel down the whole column.
+  std::map<Element*, int> requests;
+  auto apply_request = [&requests](Element& elem) {
+    auto request = requests.find(&elem);
+    if (request == requests.end()) return;
+    elem.record = elem.record ? std::max(elem.record, request->second) : request->second;
+    requests.erase(request);
+  };
+  for (auto con = extrude_cons.rbegin(); con != extrude_cons.rend(); ++con) {
+    Element& outside = (*con)->element(0);
+    Element& inside = (*con)->element(1);
+    apply_request(outside);
+    auto request = requests.emplace(&inside, outside.record).first;
+    request->second = std::max(request->second, outside.record);
+    inside.unrefinement_locked = inside.unrefinement_locked || outside.unrefinement_locked;
+  }
+  while (!requests.empty()) apply_request(*requests.begin()->first);
   int n_orig [2];
   // refine elements
   for (bool is_deformed : {0, 1}) n_orig[is_deformed] = container(is_deformed).element_view().size(); // count how many elements there are before adding, so we know where the new ones start
@@ -1323,8 +1334,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   } while (changed);
   delete_bad_extrusions();
   deform();
-  // delete extruded elements
-  #pragma omp parallel for
+  // delete extruded elements. Not parallel, since a whole column of them (inside ones come first) has to go if its base does.
   for (auto con : extrude_cons) {
     bool del = false;
     if (con->element(1).record == 2) del = true;
-- 
2.43.0


From 82a67ccb293ef717d5ab794a9888207a862594aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 29/36] fix: refuse to export 1D and 2D meshes to PolyMesh
 instead of writing out-of-bounds values

---
 src/Accessible_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 41334e7..b755656 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1870,6 +1870,7 @@ void write_polymesh_file(std::string dir_name, std::string name, std::string cls
 
 void Accessible_mesh::export_polymesh(std::string dir_name)
 {
+  HEXED_ASSERT(params.n_dim == 3, "only 3D meshes can be exported to the PolyMesh format");
   dir_name = dir_name + "polyMesh/";
   if (std::filesystem::exists(dir_name)) std::filesystem::remove_all(dir_name);
   std::filesystem::create_directory(dir_name);
-- 
2.43.0


From 7bd8a799f27541f74b830a48b7e3c92d5d7e2fb7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 30/36] fix: the local time step of undeformed elements kept
 the minimum over previous geometries of their neighbors

---
 src/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Element.cpp b/src/Element.cpp
index 663d738..6653260 100644
--- a/src/Element.cpp
+++ b/src/Element.cpp
@@ -98,6 +98,8 @@ std::vector<double> Element::face_position(const Basis& basis, int i_face, int i
 
 void Element::set_jacobian(const Basis& basis)
 {
+  // reset the local time step scale, which may have been reduced to match that of neighbors with a different geometry
+  for (int i_vert = 0; i_vert < n_vert; ++i_vert) vertex_time_step_scale(i_vert) = nom_sz/n_dim;
   // set face jacobian
   int nfq = params.n_qpoint()/params.row_size;
   for (int i_dim = 0; i_dim < n_dim; ++i_dim) {
-- 
2.43.0


From b12822bb39c70772f302f5586555251c31bc837e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 31/36] fix: Simplex_geom overlooked intersections with
 simplices in large tree nodes and with lines tangent to bounding balls

---
 include/Simplex_geom.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 7d9d4ea..d7eb3cc 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -81,11 +81,15 @@ class Simplex_geom : public Surface_geom
 
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*n_dim/4.), point0, point1)) return;
+    // enlarge bounding balls to contain the extended simplices and not to depend on roundoff when the line is tangent
+    const double enlarge = math::pow(1 + 2*n_dim*gap_tol, 2);
+    if (!math::intersects(math::Ball<n_dim>(tree.center(), enlarge*math::pow(tree.nominal_size(), 2)*n_dim/4.), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-      if (math::intersects<n_dim>(math::bounding_ball(sim), point0, point1)) { // if the line doesn't even intersect the bounding ball, don't bother
+      auto bball = math::bounding_ball(sim);
+      bball.radius_sq *= enlarge;
+      if (math::intersects<n_dim>(bball, point0, point1)) { // if the line doesn't even intersect the bounding ball, don't bother
         // compute intersection between line and plane of simplex
         Mat<n_dim, n_dim> lhs;
         lhs(all, 0) = -diff;
-- 
2.43.0


From 7c01cef6271eadf309c5d57277ea02a75a25736c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 32/36] fix: the nearest point of a Hypersphere to its center
 is on the sphere

---
 src/Surface_geom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Surface_geom.cpp b/src/Surface_geom.cpp
index 32cfa83..3e70133 100644
--- a/src/Surface_geom.cpp
+++ b/src/Surface_geom.cpp
@@ -31,7 +31,9 @@ Hypersphere::Hypersphere(Mat<> center, double radius)
 Nearest_point<dyn> Hypersphere::nearest_point(Mat<> point, double max_distance, double distance_guess)
 {
   Nearest_point<dyn> nearest(point, max_distance);
-  nearest.merge(c + r*(point - c).normalized());
+  Mat<> diff = point - c;
+  if (diff.squaredNorm() == 0) diff(0) = 1; // all points are equally near to the center, but the center itself is not one of them
+  nearest.merge(c + r*diff.normalized());
   return nearest;
 }
 
-- 
2.43.0


From 428a57e92b525f46cb379febb5cdbcbf92618847 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 33/36] fix: the nearest point on nearly degenerate triangles
 could be another point of the triangle

---
 src/Simplex_geom.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Simplex_geom.cpp b/src/Simplex_geom.cpp
index 7722cc2..9be7e11 100644
--- a/src/Simplex_geom.cpp
+++ b/src/Simplex_geom.cpp
@@ -21,11 +21,11 @@ void Simplex_geom<3>::merge(Nearest_point<3>& nearest, Mat<3, 3> sim, Mat<3> poi
   if (lstsq(0) >= 0 && lstsq(1) >= 0 && lstsq.sum() <= 1) {
     // if the projected point is inside the triangle, evaluate it as the potential nearest point
     nearest.merge(sim(all, 0) + lhs*lstsq);
-  } else {
-    // if the projected point is outside the triangle, fall back to finding the nearest point on all the edges of the triangle
-    for (int i_edge = 0; i_edge < 3; ++i_edge) {
-      nearest.merge(math::proj_to_segment({sim(all, i_edge), sim(all, (i_edge + 1)%3)}, point));
-    }
+  }
+  // find the nearest point on all the edges of the triangle.
+  // This is necessary even if the projection appears to be inside, since for (nearly) degenerate triangles it is inaccurate
+  for (int i_edge = 0; i_edge < 3; ++i_edge) {
+    nearest.merge(math::proj_to_segment({sim(all, i_edge), sim(all, (i_edge + 1)%3)}, point));
   }
 }
 
-- 
2.43.0


From c4a83d593b2d00360b1548d457dec308f3df6a2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 34/36] fix: Occt::segments ignored the limits of edges

---
 src/Occt.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/Occt.cpp b/src/Occt.cpp
index 11b6127..9d7ff27 100644
--- a/src/Occt.cpp
+++ b/src/Occt.cpp
@@ -60,14 +60,15 @@ void iterate(const TopoDS_Shape& shape, TopAbs_ShapeEnum shape_type, std::functi
   for (TopoDS_Iterator it(shape); it.More(); it.Next()) iterate(it.Value(), shape_type, callback);
 }
 
-void collect_curves(std::vector<opencascade::handle<Geom2d_Curve>>& curves, const TopoDS_Shape& shape)
+void collect_curves(const TopoDS_Shape& shape, std::function<void(opencascade::handle<Geom2d_Curve>, double, double)> callback)
 {
   opencascade::handle<Geom_Plane> plane = GC_MakePlane(0., 0., 1., 0.); // x_2 = 0 plane
   TopLoc_Location location;
-  double unused [2] {}; // used by `CurveOnPlane` to return values we don't care about
   iterate(shape, TopAbs_EDGE, [&](const TopoDS_Shape& s){
     TopoDS_Edge edge = TopoDS::Edge(s);
-    curves.push_back(BRep_Tool::CurveOnPlane(edge, plane, location, unused[0], unused[1]));
+    double range [2] {}; // the part of the curve which belongs to the edge
+    auto curve = BRep_Tool::CurveOnPlane(edge, plane, location, range[0], range[1]);
+    callback(curve, range[0], range[1]);
   });
 }
 
@@ -75,7 +76,7 @@ Occt::Geom::Geom(const TopoDS_Shape& shape, int n_dim)
 : nd{n_dim}
 {
   if (nd == 2) {
-    collect_curves(curves, shape);
+    collect_curves(shape, [this](opencascade::handle<Geom2d_Curve> curve, double, double){curves.push_back(curve);});
   } else if (nd == 3) {
     // collect all surfaces
     iterate(shape, TopAbs_FACE, [&](const TopoDS_Shape& s){
@@ -336,23 +337,21 @@ opencascade::handle<Poly_Triangulation> Occt::read_stl(std::string file_name, do
 std::vector<Mat<2, 2>> Occt::segments(const TopoDS_Shape& shape, int n_segments)
 {
   std::vector<Mat<2, 2>> segs;
-  std::vector<opencascade::handle<Geom2d_Curve>> curves;
-  collect_curves(curves, shape);
-  for (auto& curve : curves) {
+  collect_curves(shape, [&](opencascade::handle<Geom2d_Curve> curve, double first, double last) {
     Mat<2> vec;
-    gp_Pnt2d pnt = curve->Value(curve->FirstParameter());
+    gp_Pnt2d pnt = curve->Value(first);
     vec << pnt.X(), pnt.Y();
     for (int i_seg = 0; i_seg < n_segments; ++i_seg) {
       Mat<2, 2> seg;
       seg(all, 0) = vec;
       double interp = (i_seg + 1.)/n_segments;
-      pnt = curve->Value((1 - interp)*curve->FirstParameter() + interp*curve->LastParameter());
+      pnt = curve->Value((1 - interp)*first + interp*last);
       vec << pnt.X(), pnt.Y();
       seg(all, 1) = vec;
       seg *= 1e-3; // convert to m
       segs.push_back(seg);
     }
-  }
+  });
   return segs;
 }
 
-- 
2.43.0


From 3c0b06a48ed45dd401a7c7b0ebe0f2bc84c78323 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 35/36] fix: Occt::triangles ignored the location of faces in
 assemblies

---
 src/Occt.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Occt.cpp b/src/Occt.cpp
index 9d7ff27..90b43fc 100644
--- a/src/Occt.cpp
+++ b/src/Occt.cpp
@@ -316,7 +316,14 @@ std::vector<Mat<3, 3>> Occt::triangles(TopoDS_Shape shape, double angle, double
   iterate(shape, TopAbs_FACE, [&](const TopoDS_Shape& s){
     TopoDS_Face face = TopoDS::Face(s);
     TopLoc_Location location;
-    auto face_tris = triangles(BRep_Tool::Triangulation(face, location));
+    auto poly = BRep_Tool::Triangulation(face, location);
+    if (!poly.IsNull() && !location.IsIdentity()) { // the triangulation is in the coordinate system of the face
+      poly = poly->Copy(); // could be shared with other instances of the same face
+      for (int i_node = 0; i_node < poly->NbNodes(); ++i_node) {
+        poly->SetNode(i_node + 1, poly->Node(i_node + 1).Transformed(location.Transformation()));
+      }
+    }
+    auto face_tris = triangles(poly);
     tris.insert(tris.end(), face_tris.begin(), face_tris.end());
   });
   return tris;
-- 
2.43.0


From ab8d3c4766bc46ba964e665116f307f4d90ad8fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 36/36] fix: read_csv read beyond the end of rows that are
 shorter than the first one

---
 src/read_csv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index 9e2218d..1d7e732 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -18,6 +18,7 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
     ++rows;
     auto begin = line.begin();
     for (int i_col = 0; i_col < cols; ++i_col) {
+      HEXED_ASSERT(begin <= line.end(), format_str(1000, "row `%s` has fewer columns than the first row", line.c_str()));
       auto end = std::find(begin, line.end(), ',');
       std::string entry(begin, end);
       try {
-- 
2.43.0

