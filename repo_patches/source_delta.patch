From 61eda2ed7ceff84ff628d54881bad7be6fcb51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 01/30] fix: do not free a new setset twice when its
 construction throws

---
 src/pygraphillion.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..7969792 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -89,12 +89,10 @@ using std::vector;
       _ret->ss = new setset(expr);                               \
     } catch (const std::exception& e) {                          \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, e.what());             \
       return NULL;                                               \
     } catch (...) {                                              \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, "Unknown error "       \
         "occured while creating a new setset");                  \
       return NULL;                                               \
-- 
2.43.0


From 823ef61bdbd58644357b82019245bd7aaa95bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 02/30] fix: release the reference returned by each step of a
 multi-argument update

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 7969792..c6cfa79 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -159,8 +159,10 @@ using std::vector;
         PyErr_SetString(PyExc_TypeError, "invalid tuple element");     \
         return NULL;                                                   \
       }                                                                \
-      if (expr(self, _other) == NULL)                                  \
+      PyObject* _result = expr(self, _other);                          \
+      if (_result == NULL)                                             \
         return NULL;                                                   \
+      Py_DECREF(_result);                                              \
     }                                                                  \
     Py_RETURN_NONE;                                                    \
   } while (0);
-- 
2.43.0


From f78c06a23d1acba0ef9ad90cbb5ab3880f0e8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 03/30] fix: report a C++ exception raised while a setset is
 initialised, and release what it held

---
 src/pygraphillion.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c6cfa79..7ef66c9 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -403,17 +403,19 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
   if (!PyArg_ParseTuple(args, "|Oi", &obj, &num_elems_a))
     return -1;
 
+  setset* new_ss = NULL;
+  PyObject* i = NULL;
+  PyObject* o = NULL;
   try {
     if (obj == NULL || obj == Py_None) {
-      self->ss = new setset();
+      new_ss = new setset();
     } else if (PySetset_Check(obj)) {
       PySetsetObject* sso = reinterpret_cast<PySetsetObject*>(obj);
-      self->ss = new setset(*(sso->ss));
+      new_ss = new setset(*(sso->ss));
     } else if (PyList_Check(obj)) {
-      PyObject* i = PyObject_GetIter(obj);
+      i = PyObject_GetIter(obj);
       if (i == NULL) return -1;
       vector<set<int> > vs;
-      PyObject* o;
       while ((o = PyIter_Next(i))) {
         if (!PyAnySet_Check(o)) {
           Py_DECREF(o);
@@ -428,28 +430,33 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
           return -1;
         }
         vs.push_back(s);
-        Py_DECREF(o);
+        Py_CLEAR(o);
       }
-      Py_DECREF(i);
+      Py_CLEAR(i);
 
       // error occurs in PyIter_Next
       if (PyErr_Occurred()) {
         return -1;
       }
 
-      self->ss = new setset(vs);
+      new_ss = new setset(vs);
     } else if (PyDict_Check(obj)) {
       map<string, vector<int> > m;
       if (setset_parse_map(obj, &m) == -1) return -1;
-      self->ss = new setset(m, num_elems_a);
+      new_ss = new setset(m, num_elems_a);
     } else {
       PyErr_SetString(PyExc_TypeError, "invalid argument");
       return -1;
     }
   } catch (...) {
+    Py_XDECREF(o);
+    Py_XDECREF(i);
     PyErr_SetString(PyExc_RuntimeError, "Unexpected error occurred "
     "during initialization");
+    return -1;
   }
+  delete self->ss;
+  self->ss = new_ss;
   return 0;
 }
 
-- 
2.43.0


From a38475b297c9cc07419981347f477774e1a5bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 04/30] fix: never leave a setset or setset_iterator without
 its native object

---
 src/pygraphillion.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 7ef66c9..c4f2c3c 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -308,12 +308,19 @@ static PyObject* setsetiter_new(PyTypeObject* type, PyObject* args, PyObject* kw
     PyErr_SetString(PyExc_MemoryError, "Failed to allocate memory for PysetsetIterObject");
     return NULL;
   }
+  try {
+    self->it = new setset::iterator();
+  } catch (const std::exception& e) {
+    Py_DECREF(self);
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
+  }
   return reinterpret_cast<PyObject*>(self);
 }
 
 static void setsetiter_dealloc(PySetsetIterObject* self) {
   delete self->it;
-  PyObject_Del(self);
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
 static PyObject* setsetiter_next(PySetsetIterObject* self) {
@@ -394,6 +401,13 @@ static PyObject* setset_new(PyTypeObject* type, PyObject* /*args*/, PyObject* /*
     PyErr_SetString(PyExc_MemoryError, "Failed to allocate memory for PySetsetObject");
     return NULL;
   }
+  try {
+    self->ss = new setset();
+  } catch (const std::exception& e) {
+    Py_DECREF(self);
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
+  }
   return reinterpret_cast<PyObject*>(self);
 }
 
-- 
2.43.0


From 17c939a0b8a7af05620cffea4ca4c51aee000a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 05/30] fix: release references on the error paths of the
 argument readers

---
 src/pygraphillion.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c4f2c3c..3843d3e 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -717,6 +717,8 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     else if (PyLong_Check(eo)) {
       long value = PyLong_AsLong(eo);
       if (PyErr_Occurred()) {
+        Py_DECREF(eo);
+        Py_DECREF(i);
         return NULL;
       }
       w.push_back(static_cast<double>(value));
@@ -1160,6 +1162,7 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
   }
 
   if (fclose(fp) != 0) {
+    Py_DECREF(ret);
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
@@ -1710,8 +1713,8 @@ static bool get_string_from_sequence(PyObject* obj, int index, string* str) {
     Py_DECREF(i);
     return false;
   }
-  Py_DECREF(i);
   *str = string(s);
+  Py_DECREF(i);
   return true;
 }
 
@@ -1936,9 +1939,11 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
             || !get_double_from_sequence(eo, 2, &w)) {
           Py_DECREF(eo);
           Py_DECREF(j);
+          Py_DECREF(co);
           Py_DECREF(i);
           return NULL;
         }
+        Py_DECREF(eo);
         /*PyObject* uo = PySequence_GetItem(eo, 0);
         string u = PyBytes_AsString(uo);
         PyObject* vo = PySequence_GetItem(eo, 1);
@@ -2555,8 +2560,7 @@ static PyObject* setset_get_vertices_from_top(PySetsetObject* self, PyObject* ar
       Py_DECREF(ret);
       return NULL;
     }
-    if (PyList_SetItem(ret, i, v) != 0) {
-      Py_DECREF(v);
+    if (PyList_SetItem(ret, i, v) != 0) {  // steals v even on failure
       Py_DECREF(ret);
       return NULL;
     }
@@ -2578,7 +2582,10 @@ bool input_graph(PyObject* graph_obj,
   while ((eo = PyIter_Next(i))) {
     PyObject* j = PyObject_GetIter(eo);
     Py_DECREF(eo);
-    if (j == NULL) return false;
+    if (j == NULL) {
+      Py_DECREF(i);
+      return false;
+    }
     std::vector<std::string> e;
     PyObject* vo;
     while ((vo = PyIter_Next(j))) {
@@ -2601,6 +2608,7 @@ bool input_graph(PyObject* graph_obj,
     }
     Py_DECREF(j);
     if (PyErr_Occurred()) {
+      Py_DECREF(i);
       return false;
     }
     if (e.size() != 2) {
@@ -2670,6 +2678,7 @@ bool input_vertex_to_range_map(
         return false;
       }
       long value = PyLong_AsLong(io);
+      Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
-- 
2.43.0


From 2df47bfd406c8dc062dc7f7a4756e1dfc7adaf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 06/30] fix: pass on exceptions raised while arguments are read

---
 src/pygraphillion.cc | 55 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 3843d3e..037df2b 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1095,6 +1095,10 @@ static PyObject* setset_probability(PySetsetObject* self,
     Py_DECREF(eo);
   }
   Py_DECREF(i);
+  // error occurs in PyIter_Next
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
   return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
 }
 
@@ -1337,6 +1341,10 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
     }
   }
   Py_DECREF(cost_iter);
+  // error occurs in PyIter_Next
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
 
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->cost_le(costs, cost_bound));
 }
@@ -1674,7 +1682,14 @@ static bool translate_graph(PyObject* graph_obj,
         PyErr_SetString(PyExc_TypeError, "invalid graph");
         return false;
       }
-      string v = PyBytes_Check(vo) ? PyBytes_AsString(vo) : PyUnicode_AsUTF8(vo);
+      const char* v_cstr = PyBytes_Check(vo) ? PyBytes_AsString(vo) : PyUnicode_AsUTF8(vo);
+      if (v_cstr == NULL) {
+        Py_DECREF(vo);
+        Py_DECREF(j);
+        Py_DECREF(i);
+        return false;
+      }
+      string v = v_cstr;
       Py_DECREF(vo);
       if (v.find(',') != string::npos) {
         Py_DECREF(j);
@@ -1685,6 +1700,10 @@ static bool translate_graph(PyObject* graph_obj,
       e.push_back(v);
     }
     Py_DECREF(j);
+    if (PyErr_Occurred()) { // check the error of PyIter_Next(j)
+      Py_DECREF(i);
+      return false;
+    }
 
     if (e.size() != 2) {
       Py_DECREF(i);
@@ -1695,6 +1714,9 @@ static bool translate_graph(PyObject* graph_obj,
     graph.push_back(make_pair(e[0], e[1]));
   }
   Py_DECREF(i);
+  if (PyErr_Occurred()) { // check the error of PyIter_Next(i)
+    return false;
+  }
   return true;
 }
 
@@ -1706,6 +1728,7 @@ static bool get_string_from_sequence(PyObject* obj, int index, string* str) {
   }
   if (!PyBytes_Check(i)) {
     Py_DECREF(i);
+    PyErr_SetString(PyExc_TypeError, "not bytes");
     return false;
   }
   const char* s = PyBytes_AsString(i);
@@ -1994,7 +2017,11 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
 }
 
 static PyObject* graphset_show_messages(PySetsetObject* self, PyObject* obj) {
-  int ret = graphillion::ShowMessages(PyObject_IsTrue(obj));
+  int flag = PyObject_IsTrue(obj);
+  if (flag == -1) {
+    return NULL;
+  }
+  int ret = graphillion::ShowMessages(flag);
   if (ret) Py_RETURN_TRUE;
   else Py_RETURN_FALSE;
 }
@@ -2022,6 +2049,9 @@ static PyObject* graphset_omp_set_num_threads(PyObject*, PyObject* obj) {
     return NULL;
   }
   long value = PyLong_AsLong(obj);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
   omp_set_num_threads(value);
 #endif
   Py_RETURN_NONE;
@@ -2548,6 +2578,9 @@ static PyObject* reliability(PyObject*, PyObject* args, PyObject* kwds) {
 
 static PyObject* setset_get_vertices_from_top(PySetsetObject* self, PyObject* args) {
   std::vector<std::vector<std::string>> edges = parse_args_to_edges(args);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
   std::vector<std::string> v_order_from_top = VariableConverter::get_vertices_from_top(edges);
   int n = static_cast<int>(v_order_from_top.size());
   PyObject* ret = PyList_New(n);
@@ -2652,6 +2685,9 @@ bool input_string_list(PyObject* list_obj, std::vector<std::string>& list) {
     list.push_back(v);
   }
   Py_DECREF(i);
+  if (PyErr_Occurred()) {
+    return false;
+  }
   return true;
 }
 
@@ -3029,9 +3065,18 @@ PyMODINIT_FUNC PyInit__graphillion(void) {
   m = PyModule_Create(&moduledef);
   if (m == NULL) return NULL;
   Py_INCREF(&PySetset_Type);
+  if (PyModule_AddObject(m, "setset",
+                         reinterpret_cast<PyObject*>(&PySetset_Type)) < 0) {
+    Py_DECREF(&PySetset_Type);
+    Py_DECREF(m);
+    return NULL;
+  }
   Py_INCREF(&PySetsetIter_Type);
-  PyModule_AddObject(m, "setset", reinterpret_cast<PyObject*>(&PySetset_Type));
-  PyModule_AddObject(m, "setset_iterator",
-                     reinterpret_cast<PyObject*>(&PySetsetIter_Type));
+  if (PyModule_AddObject(m, "setset_iterator",
+                         reinterpret_cast<PyObject*>(&PySetsetIter_Type)) < 0) {
+    Py_DECREF(&PySetsetIter_Type);
+    Py_DECREF(m);
+    return NULL;
+  }
   return m;
 }
-- 
2.43.0


From 2c87427a1c4f3dc6f5954773aeb3de9380bbe72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 07/30] fix: check that a search space is a setset before using
 it

---
 src/pygraphillion.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 037df2b..7a9f7ba 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1925,8 +1925,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
   }
 
   setset* search_space = NULL;
-  if (search_space_obj != NULL && search_space_obj != Py_None)
+  if (search_space_obj != NULL && search_space_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(search_space_obj);
     search_space = reinterpret_cast<PySetsetObject*>(search_space_obj)->ss;
+  }
 
   vector<linear_constraint_t> linear_constraints_entity;
   vector<linear_constraint_t>* linear_constraints = NULL;
@@ -2134,6 +2136,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(graphset_obj);
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
@@ -2228,6 +2231,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(graphset_obj);
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
-- 
2.43.0


From 480434317250b96ea47b29f702878dc4b7753ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 08/30] fix: check the left operand of the binary operators

---
 src/pygraphillion.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 7a9f7ba..9023850 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -501,6 +501,7 @@ static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
 }
 
 static PyObject* setset_union(PySetsetObject* self, PyObject* other) {
+  CHECK_SETSET_OR_ERROR(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) | (*_other->ss));
 }
@@ -519,6 +520,7 @@ static PyObject* setset_update_multi(PySetsetObject* self, PyObject* others) {
 }
 
 static PyObject* setset_intersection(PySetsetObject* self, PyObject* other) {
+  CHECK_SETSET_OR_ERROR(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) & (*_other->ss));
 }
@@ -537,6 +539,7 @@ static PyObject* setset_intersection_update_multi(PySetsetObject* self, PyObject
 }
 
 static PyObject* setset_difference(PySetsetObject* self, PyObject* other) {
+  CHECK_SETSET_OR_ERROR(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) - (*_other->ss));
 }
@@ -555,6 +558,7 @@ static PyObject* setset_difference_update_multi(PySetsetObject* self, PyObject*
 }
 
 static PyObject* setset_symmetric_difference(PySetsetObject* self, PyObject* other) {
+  CHECK_SETSET_OR_ERROR(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) ^ (*_other->ss));
 }
@@ -573,6 +577,7 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
 }
 
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
+  CHECK_SETSET_OR_ERROR(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
 }
@@ -583,6 +588,7 @@ static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
+  CHECK_SETSET_OR_ERROR(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
 }
-- 
2.43.0


From b78e56000a9540979ae3039641ce1c1de74eb87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 09/30] fix: reject Python integers that do not fit in a C int

---
 src/pygraphillion.cc | 74 ++++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 9023850..a64613b 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -167,6 +167,20 @@ using std::vector;
     Py_RETURN_NONE;                                                    \
   } while (0);
 
+// Convert a Python int to a C int. On error (including a value that an int
+// cannot hold), set an exception and return -1.
+static int pylong_as_int(PyObject* obj) {
+  long value = PyLong_AsLong(obj);
+  if (value == -1 && PyErr_Occurred()) {
+    return -1;
+  }
+  if (value < INT_MIN || value > INT_MAX) {
+    PyErr_SetString(PyExc_OverflowError, "Python int too large to convert to C int");
+    return -1;
+  }
+  return static_cast<int>(value);
+}
+
 static PyObject* setset_build_set(const set<int>& s) {
   PyObject* so = PySet_New(NULL);
   if (so == NULL) {
@@ -203,9 +217,9 @@ static int setset_parse_set(PyObject* so, set<int>* s) {
       PyErr_SetString(PyExc_TypeError, "not int set");
       return -1;
     }
-    long value = PyLong_AsLong(eo);
+    int value = pylong_as_int(eo);
     Py_DECREF(eo);
-    // error occurs in PyLong_AsLong
+    // error occurs in pylong_as_int
     if (PyErr_Occurred()) {
       Py_DECREF(i);
       return -1;
@@ -268,10 +282,10 @@ static int setset_parse_map(PyObject* dict_obj, map<string, vector<int> >* m) {
         PyErr_SetString(PyExc_TypeError, "not int");
         return -1;
       }
-      long value = PyLong_AsLong(eo);
+      int value = pylong_as_int(eo);
       Py_DECREF(eo);
 
-      // error occurs in PyLong_AsLong
+      // error occurs in pylong_as_int
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return -1;
@@ -489,7 +503,7 @@ static PyObject* setset_invert(PySetsetObject* self) {
 
 static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
+  int num_elems_a = pylong_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -647,7 +661,7 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
+    int len = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -787,7 +801,7 @@ static int setset_contains(PySetsetObject* self, PyObject* obj) {
     }
     return self->ss->find(s) != self->ss->end() ? 1 : 0;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return -1;
     }
@@ -807,7 +821,7 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->insert(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -831,7 +845,7 @@ static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
       return NULL;
     }
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -856,7 +870,7 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->erase(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -905,7 +919,7 @@ static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg e");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -924,11 +938,11 @@ static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg num_elems");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    long num_elems = PyLong_AsLong(obj);
+    int num_elems = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
-    self->ss->flip_all(static_cast<int>(num_elems));
+    self->ss->flip_all(num_elems);
   } else {
     PyErr_SetString(PyExc_TypeError, "not int");
     return NULL;
@@ -946,7 +960,7 @@ static PyObject* setset_maximal(PySetsetObject* self) {
 
 static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
+  int num_elems_a = pylong_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -959,7 +973,7 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = pylong_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -972,7 +986,7 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = pylong_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -985,7 +999,7 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = pylong_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -1015,7 +1029,7 @@ static PyObject* setset_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -1035,7 +1049,7 @@ static PyObject* setset_non_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->non_supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = pylong_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -1332,13 +1346,13 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   PyObject* cost;
   while ((cost = PyIter_Next(cost_iter))) {
     if (PyLong_Check(cost)) {
-      long value = PyLong_AsLong(cost);
+      int value = pylong_as_int(cost);
       Py_DECREF(cost);
       if (PyErr_Occurred()) {
         Py_DECREF(cost_iter);
         return NULL;
       }
-      costs.push_back(static_cast<int>(value));
+      costs.push_back(value);
     } else {
       Py_DECREF(cost);
       Py_DECREF(cost_iter);
@@ -1874,7 +1888,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
           PyErr_SetString(PyExc_TypeError, "invalid degree in degree constraints");
           return NULL;
         }
-        long value = PyLong_AsLong(io);
+        int value = pylong_as_int(io);
         Py_DECREF(io);
         if (PyErr_Occurred()) {
           Py_DECREF(i);
@@ -1910,7 +1924,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_TypeError, "invalid number of edges");
         return NULL;
       }
-      long value = PyLong_AsLong(io);
+      int value = pylong_as_int(io);
       Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
@@ -2056,7 +2070,7 @@ static PyObject* graphset_omp_set_num_threads(PyObject*, PyObject* obj) {
     PyErr_SetString(PyExc_TypeError, "not an integer");
     return NULL;
   }
-  long value = PyLong_AsLong(obj);
+  int value = pylong_as_int(obj);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -2097,7 +2111,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   }
 
   if (PyLong_Check(degree_obj)) {
-    int d = PyLong_AsLong(degree_obj);
+    int d = pylong_as_int(degree_obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2111,7 +2125,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* lower_obj = PyTuple_GetItem(degree_obj, 0);
     if (PyLong_Check(lower_obj)) {
-      degree_lower = PyLong_AsLong(lower_obj);
+      degree_lower = pylong_as_int(lower_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2121,7 +2135,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* upper_obj = PyTuple_GetItem(degree_obj, 1);
     if (PyLong_Check(upper_obj)) {
-      degree_upper = PyLong_AsLong(upper_obj);
+      degree_upper = pylong_as_int(upper_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2211,7 +2225,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
       PyErr_SetString(PyExc_TypeError, "Currently, value must be an integer.");
       return NULL;
     }
-    int k = PyLong_AsLong(key);
+    int k = pylong_as_int(key);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2220,7 +2234,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
         "must be non-negative");
       return NULL;
     }
-    int v = PyLong_AsLong(value);
+    int v = pylong_as_int(value);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2723,7 +2737,7 @@ bool input_vertex_to_range_map(
         PyErr_SetString(PyExc_TypeError, "invalid degree in map object");
         return false;
       }
-      long value = PyLong_AsLong(io);
+      int value = pylong_as_int(io);
       Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
-- 
2.43.0


From 0f0ab7255c3e42ceec10be85c1d0f32d044a431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 10/30] fix: reject a negative set size in len()

---
 src/pygraphillion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index a64613b..22f7f75 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -665,6 +665,10 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     if (PyErr_Occurred()) {
       return NULL;
     }
+    if (len < 0) {
+      PyErr_SetString(PyExc_ValueError, "not unsigned int");
+      return NULL;
+    }
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->set_size(len));
   } else {
     PyErr_SetString(PyExc_TypeError, "not int");
-- 
2.43.0


From b846ddc648c23be66e5c6ff7142c31b5559d8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 11/30] fix: reject weight bounds that do not fit in 32 bits

---
 src/pygraphillion.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 22f7f75..8800528 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2310,9 +2310,9 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  long long lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdLLi", kwlist, &graph_obj,
                                    &weight_list_obj, &ratio, &lower, &upper,
                                    &num_comps)) {
     return NULL;
@@ -2321,6 +2321,10 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     PyErr_SetString(PyExc_ValueError, "not positive integer");
     return NULL;
   }
+  if (lower < 0 || upper > std::numeric_limits<uint32_t>::max()) {
+    PyErr_SetString(PyExc_ValueError, "bound is out of valid range");
+    return NULL;
+  }
   if (upper < lower) {
     PyErr_SetString(PyExc_ValueError, "lower bound is larger than upper bound");
     return NULL;
@@ -2411,11 +2415,15 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
+  long long lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OLL", kwlist, &graph_obj,
                                    &weight_list_obj, &lower, &upper)) {
     return NULL;
   }
+  if (lower < 0 || upper > std::numeric_limits<uint32_t>::max()) {
+    PyErr_SetString(PyExc_ValueError, "bound is out of valid range");
+    return NULL;
+  }
   if (upper < lower) {
     PyErr_SetString(PyExc_TypeError, "lower bound is larger than upper bound");
     return NULL;
-- 
2.43.0


From f6a6bbb95b2ae10dbfa71e00be03262dc0f26f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 12/30] fix: give is_spanning of rooted_forests its default

---
 src/pygraphillion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 8800528..d0d53e0 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2901,7 +2901,7 @@ static PyObject* graphset_rooted_forests(PyObject*, PyObject* args,
   PyObject* graph_obj = NULL;
   PyObject* roots_obj = NULL;
   PyObject* search_space_obj = NULL;
-  int is_spanning;
+  int is_spanning = 0;
   if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OpO", kwlist, &graph_obj,
                                    &roots_obj, &is_spanning, &search_space_obj))
     return NULL;
-- 
2.43.0


From e476732553212f30c6a9d7903ccb82e9bf8585ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 13/30] fix: use decision diagrams only under the GIL in dump,
 load and _enum, and own the file handle

---
 src/pygraphillion.cc | 116 +++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 44 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index d0d53e0..cdcea94 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1126,74 +1126,120 @@ static PyObject* setset_probability(PySetsetObject* self,
   return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
 }
 
-static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
+// Write a string to a duplicate of the descriptor of a Python file object.
+static PyObject* write_to_file(PyObject* obj, const string& str) {
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
     return NULL;
   }
-  FILE* fp = fdopen(dup(fd), "w");
+  fd = dup(fd);
+  if (fd == -1) {
+    PyErr_SetFromErrno(PyExc_OSError);
+    return NULL;
+  }
+  FILE* fp = fdopen(fd, "w");
   if (fp == NULL) {
     PyErr_SetFromErrno(PyExc_OSError);
+    close(fd);
     return NULL;
   }
+  const char* data = str.data();
+  size_t size = str.size();
+  bool failed = false;
   Py_BEGIN_ALLOW_THREADS;
-  self->ss->dump(fp);
-  Py_END_ALLOW_THREADS;
+  if (fwrite(data, 1, size, fp) != size) {
+    failed = true;
+  }
   if (fclose(fp) != 0) {
+    failed = true;
+  }
+  Py_END_ALLOW_THREADS;
+  if (failed) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
   Py_RETURN_NONE;
 }
 
+static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
+  stringstream sstr;
+  self->ss->dump(sstr);
+  return write_to_file(obj, sstr.str());
+}
+
 static PyObject* setset_dumps(PySetsetObject* self) {
   stringstream sstr;
   self->ss->dump(sstr);
   return PyUnicode_FromString(sstr.str().c_str());
 }
 
-static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
+// Read one dump (all lines up to the terminator) from a duplicate of the
+// descriptor of a Python file object. Return false if an error occurs.
+static bool read_from_file(PyObject* obj, string* str) {
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
-    return NULL;
+    return false;
   }
-  FILE* fp = fdopen(dup(fd), "r");
+  fd = dup(fd);
+  if (fd == -1) {
+    PyErr_SetFromErrno(PyExc_OSError);
+    return false;
+  }
+  FILE* fp = fdopen(fd, "r");
   if (fp == NULL) {
     PyErr_SetFromErrno(PyExc_OSError);
+    close(fd);
+    return false;
+  }
+  while (true) {
+    char buf[256];
+    char* line;
+    Py_BEGIN_ALLOW_THREADS;
+    line = fgets(buf, sizeof(buf), fp);
+    Py_END_ALLOW_THREADS;
+    if (line == NULL) {
+      break;
+    }
+    *str += line;
+    if (line[0] == '.') {  // the terminator
+      break;
+    }
+  }
+  if (ferror(fp)) {
+    PyErr_SetFromErrno(PyExc_OSError);
+    fclose(fp);
+    return false;
+  }
+  if (fclose(fp) != 0) {
+    PyErr_SetFromErrno(PyExc_OSError);
+    return false;
+  }
+  return true;
+}
+
+static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
+  string str;
+  if (!read_from_file(obj, &str)) {
     return NULL;
   }
   PySetsetObject* ret = reinterpret_cast<PySetsetObject*>(
       PySetset_Type.tp_alloc(&PySetset_Type, 0));
   if (ret == NULL) {
-    fclose(fp);
     PyErr_NoMemory();
     return NULL;
   }
   try {
-    setset* loaded_ss;
-    Py_BEGIN_ALLOW_THREADS;
-    loaded_ss = new setset(setset::load(fp));
-    Py_END_ALLOW_THREADS;
-    ret->ss = loaded_ss;
+    stringstream sstr(str);
+    ret->ss = new setset(setset::load(sstr));
   } catch (const std::exception& e) {
     Py_DECREF(ret);
-    fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, e.what());
     return NULL;
   } catch (...) {
     Py_DECREF(ret);
-    fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
     return NULL;
   }
-
-  if (fclose(fp) != 0) {
-    Py_DECREF(ret);
-    PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
-  }
   return reinterpret_cast<PyObject*>(ret);
 }
 
@@ -1225,39 +1271,21 @@ static PyObject* setset_loads(PySetsetObject* self, PyObject* obj) {
 }
 
 static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
-  int fd = PyObject_AsFileDescriptor(obj);
-  if (fd == -1) {
-    return NULL;
-  }
-  FILE* fp = fdopen(fd, "r");
-  if (fp == NULL) {
-    PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
-  }
+  stringstream sstr;
   string name = Py_TYPE(self)->tp_name;
   string prefix = name + "([";
   auto outer_pair = std::make_pair(prefix.c_str(), "])");
   auto inner_pair = std::make_pair("set([", "])");
   try {
-    Py_BEGIN_ALLOW_THREADS;
-    self->ss->_enum(fp, outer_pair, inner_pair);
-    Py_END_ALLOW_THREADS;
+    self->ss->_enum(sstr, outer_pair, inner_pair);
   } catch (const std::exception& e) {
-    fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, e.what());
     return NULL;
   } catch (...) {
-    fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
     return NULL;
   }
-
-  if (fclose(fp) != 0) {
-    PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
-  }
-  Py_RETURN_NONE;
+  return write_to_file(obj, sstr.str());
 }
 
 static PyObject* setset_enums(PySetsetObject* self) {
-- 
2.43.0


From 204b2af2c808587d340d715e8e3d14112d014901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 14/30] fix: raise when a serialized family is damaged or cut
 short

---
 src/graphillion/zdd.cc | 122 ++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 57 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..18592be 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -29,6 +29,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 #include <algorithm>
 #include <map>
+#include <stdexcept>
 #include <string>
 
 namespace graphillion {
@@ -388,69 +389,76 @@ void dump(zdd_t f, FILE* fp) {
   fprintf(fp, ".\n");
 }
 
-zdd_t load(istream& in) {
+// Find the node that a child field of a dump refers to.
+static bool load_child(const char* field, const map<word_t, zdd_t>& n, zdd_t* f) {
+  if (strcmp(field, "B") == 0) {
+    *f = bot();
+    return true;
+  }
+  if (strcmp(field, "T") == 0) {
+    *f = top();
+    return true;
+  }
+  char* end;
+  map<word_t, zdd_t>::const_iterator i = n.find(strtoll(field, &end, 0));
+  if (*end != '\0' || i == n.end()) return false;
+  *f = i->second;
+  return true;
+}
+
+// Build the diagram that the lines of a dump describe. next_line gets the next
+// line and returns false at the end of the input.
+template <typename NextLine>
+static zdd_t load_lines(NextLine next_line) {
   string line;
-  getline(in, line);
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
   map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
-  zdd_t root;
-  do {
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
+  zdd_t root = null();
+  bool complete = false;  // no more node is allowed
+  while (next_line(&line)) {
+    if (line.empty() || is_space(line)) continue;  // skip empty lines
+    if (line[0] == '.') {
+      if (root == null()) break;
+      return root;
+    }
+    if (complete) break;
+    if (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) {
+      if (root != null()) break;
+      root = bot();
+      complete = true;
+      continue;
+    }
+    if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) {
+      if (root != null()) break;
+      root = top();
+      complete = true;
+      continue;
+    }
     word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) goto error;
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) goto error;
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (getline(in, line));
-  return root;
-error:
-  in.setstate(in.badbit);
-  return null();
+    long long v;
+    char sl[256], sh[256], rest[2];
+    int num = sscanf(line.c_str(), (WORD_FMT + " %lld %255s %255s %1s").c_str(),
+                     &k, &v, sl, sh, rest);
+    zdd_t l, h;
+    if (num != 4 || v <= 0 || v > INT_MAX ||
+        !load_child(sl, n, &l) || !load_child(sh, n, &h)) break;
+    n[k] = root = l + single(v) * h;
+  }
+  throw std::runtime_error("broken or incomplete serialization");
+}
+
+zdd_t load(istream& in) {
+  return load_lines([&in](string* line) {
+    return static_cast<bool>(getline(in, *line));
+  });
 }
 
 zdd_t load(FILE* fp) {
-  char buf[256];
-  if (fgets(buf, sizeof(buf), fp) == NULL) return null();
-  string line = buf;
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
-  map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
-  zdd_t root;
-  do {
-    line = string(buf);
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) return null();
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) return null();
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (fgets(buf, sizeof(buf), fp) != NULL);
-  return root;
+  return load_lines([fp](string* line) {
+    char buf[256];
+    if (fgets(buf, sizeof(buf), fp) == NULL) return false;
+    *line = buf;
+    return true;
+  });
 }
 
 void _enum(zdd_t f, ostream& out,
-- 
2.43.0


From 7f8d404461b4b90cb5b0dc21393c016856b5cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 15/30] fix: reject unknown elements in flip and in edge-vertex
 sets instead of adding them to the universe

---
 graphillion/digraphset.py        | 2 +-
 graphillion/edgevertex_setset.py | 5 ++++-
 graphillion/graphset.py          | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..bc85e20 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -983,7 +983,7 @@ class DiGraphSet(object):
         """
         type, obj = DiGraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(DiGraphSet._objtable, edge)
+            self._ss.flip(DiGraphSet._objtable, obj)
         else:
             raise TypeError(edge)
 
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..8d6bebc 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1565,7 +1565,10 @@ class EdgeVertexSetSet(object):
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
-            return edge_or_vertex # interpret it as a vertex
+            # interpret it as a vertex
+            if edge_or_vertex not in Universe.ev_objtable.obj2int:
+                raise KeyError(edge_or_vertex)
+            return edge_or_vertex
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..abe2e82 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -994,7 +994,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From 55f750f5431a8f932fd079416d314b1db26de00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 16/30] fix: raise KeyError for unknown edges in linear
 constraints and unknown roots of rooted trees

---
 graphillion/digraphset.py | 3 +++
 graphillion/graphset.py   | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index bc85e20..bee8442 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1970,6 +1970,9 @@ class DiGraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
+        if root not in DiGraphSet._vertices:
+            raise KeyError(root)
+
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index abe2e82..c98b7c3 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1963,8 +1963,9 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = pickle.dumps(we[0], protocol=0)
-                    v = pickle.dumps(we[1], protocol=0)
+                    e = GraphSet._conv_edge(tuple(we))
+                    u = pickle.dumps(e[0], protocol=0)
+                    v = pickle.dumps(e[1], protocol=0)
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
-- 
2.43.0


From 2ecb95ee0c0eeca55b4e5caf00c23a871b6cde31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 17/30] fix: accept either orientation of an edge in weights,
 costs and reliability

---
 graphillion/edgevertex_setset.py | 25 ++++++++++++++++++++-----
 graphillion/graphset.py          | 19 +++++++++++++++++--
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 8d6bebc..d70bdd6 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -628,6 +628,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = EdgeVertexSetSet._conv_weights(weights)
         for g in self._ss.min_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -669,6 +670,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = EdgeVertexSetSet._conv_weights(weights)
         for g in self._ss.max_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -1375,6 +1377,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): c for e, c in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1411,7 +1414,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {EdgeVertexSetSet._conv_edgevertex(e): -cost for e, cost in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1448,6 +1451,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): c for e, c in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(le_ss.difference(lt_ss))
@@ -1564,11 +1568,11 @@ class EdgeVertexSetSet(object):
 
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
-        if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
-            # interpret it as a vertex
-            if edge_or_vertex not in Universe.ev_objtable.obj2int:
-                raise KeyError(edge_or_vertex)
+        if edge_or_vertex in Universe.ev_objtable.obj2int:
             return edge_or_vertex
+        if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
+            # not a vertex of the universe
+            raise KeyError(edge_or_vertex)
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
@@ -1577,6 +1581,17 @@ class EdgeVertexSetSet(object):
             return (edge_or_vertex[1], edge_or_vertex[0])
         raise KeyError(edge_or_vertex)
 
+    @staticmethod
+    def _conv_weights(weights):
+        # a weight of an unknown edge or vertex is ignored
+        conv = {}
+        for e, w in weights.items():
+            try:
+                conv[EdgeVertexSetSet._conv_edgevertex(e)] = w
+            except KeyError:
+                pass
+        return conv
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index c98b7c3..37539b3 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -725,6 +725,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = GraphSet._conv_weights(weights)
         for g in self._ss.min_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -765,6 +766,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = GraphSet._conv_weights(weights)
         for g in self._ss.max_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -1535,6 +1537,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1570,7 +1573,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {GraphSet._conv_edge(e): -cost for e, cost in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1606,6 +1609,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(le_ss.difference(lt_ss))
@@ -2883,7 +2887,7 @@ class GraphSet(object):
         ps = [1.0] * (Universe.e_objtable.num_elems())
         if probabilities is not None:
           for e, p in probabilities.items():
-              i = Universe.e_objtable.obj2int[e]
+              i = Universe.e_objtable.obj2int[GraphSet._conv_edge(e)]
               ps[i - 1] = p
 
         reliability = _graphillion._reliability(
@@ -2975,6 +2979,17 @@ class GraphSet(object):
             return (edge[1], edge[0])
         raise KeyError(edge)
 
+    @staticmethod
+    def _conv_weights(weights):
+        # a weight of an unknown edge is ignored
+        conv = {}
+        for e, w in weights.items():
+            try:
+                conv[GraphSet._conv_edge(e)] = w
+            except KeyError:
+                pass
+        return conv
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-- 
2.43.0


From e52a298ad09254b925a93b8ab7085b8ea1276600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 18/30] fix: keep the old universe when a new one is rejected

---
 graphillion/digraphset.py | 19 ++++++----
 graphillion/setset.py     |  7 ++--
 graphillion/universe.py   | 79 +++++++++++++++++++++++++--------------
 3 files changed, 66 insertions(+), 39 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index bee8442..2f25ae5 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1759,8 +1759,8 @@ class DiGraphSet(object):
         """
         sorted_edges = []
         indexed_edges = set()
-        DiGraphSet._vertices = set()
-        DiGraphSet._weights = {}
+        vertices = set()
+        weights = {}
         universe = DiGraphSet.converters['to_edges'](universe)
         for e in universe:
             if e[:2] in indexed_edges:  # directed
@@ -1768,7 +1768,7 @@ class DiGraphSet(object):
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                DiGraphSet._weights[e[:2]] = e[2]
+                weights[e[:2]] = e[2]
         if traversal != 'as-is':
             if source is None:
                 source = sorted_edges[0][0]
@@ -1777,12 +1777,17 @@ class DiGraphSet(object):
             sorted_edges = DiGraphSet._traverse(
                 indexed_edges, traversal, source)
         for u, v in sorted_edges:
-            DiGraphSet._vertices.add(u)
-            DiGraphSet._vertices.add(v)
+            vertices.add(u)
+            vertices.add(v)
         #setset_base.set_universe(sorted_edges)
-        DiGraphSet._objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in sorted_edges:
-            DiGraphSet._objtable.add_elem(e)
+            objtable.add_elem(e)
+
+        # all arguments are valid: replace the current universe
+        DiGraphSet._vertices = vertices
+        DiGraphSet._weights = weights
+        DiGraphSet._objtable = objtable
 
     @staticmethod
     def universe():
diff --git a/graphillion/setset.py b/graphillion/setset.py
index 9e903df..f8a2f96 100644
--- a/graphillion/setset.py
+++ b/graphillion/setset.py
@@ -185,10 +185,11 @@ class setset(setset_base):
     def set_universe(universe):
         if len(universe) != len(set(universe)):
             raise ValueError('duplicated elements found')
-        setset._objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in universe:
-            setset._objtable.add_elem(e)
-        setset._objtable.check_universe()
+            objtable.add_elem(e)
+        objtable.check_universe()
+        setset._objtable = objtable
 
     @staticmethod
     def universe():
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..c27a1c3 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -209,8 +209,7 @@ class Universe:
             raise ValueError("The universe must not be empty.")
         sorted_edges = []
         indexed_edges = set()
-        Universe.vertices = set()
-        Universe.weights = {}
+        edge_weights = {}
         from graphillion import GraphSet  # avoid circular import
         universe = GraphSet.converters['to_edges'](universe)
         for e in universe:
@@ -219,9 +218,9 @@ class Universe:
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                Universe.weights[e[:2]] = e[2]
+                edge_weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
-                Universe.weights[e] = weights[e]
+                edge_weights[e] = weights[e]
 
         if traversal != 'as-is':
             if source is None:
@@ -229,24 +228,35 @@ class Universe:
                 for e in sorted_edges:
                     source = min(e[0], e[1], source)
             sorted_edges = Universe._traverse(indexed_edges, traversal, source)
+        vertices = set()
         for u, v in sorted_edges:
-            Universe.vertices.add(u)
-            Universe.vertices.add(v)
+            vertices.add(u)
+            vertices.add(v)
         #setset.set_universe(sorted_edges)
-        Universe.e_objtable = ObjectTable()
+        e_objtable = ObjectTable()
         for e in sorted_edges:
-            Universe.e_objtable.add_elem(e)
+            e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
-        Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
+        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(e_objtable)]
+        v_objtable, vertex_weights = Universe._make_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        ev_objtable, edge_vertex_kind = Universe._make_ev_universe(universe)
 
         if isolated is None:
-            Universe.isolated_vertices = set()
+            isolated_vertices = set()
         else:
-            Universe.isolated_vertices = isolated.copy()
+            isolated_vertices = isolated.copy()
+
+        # all arguments are valid: replace the current universe
+        edge_weights.update(vertex_weights)
+        Universe.vertices = vertices
+        Universe.isolated_vertices = isolated_vertices
+        Universe.weights = edge_weights
+        Universe.edge_vertex_kind = edge_vertex_kind
+        Universe.e_objtable = e_objtable
+        Universe.v_objtable = v_objtable
+        Universe.ev_objtable = ev_objtable
 
     @staticmethod
     def set_vertex_universe(universe, weights=None, tuple_vertex=False):
@@ -286,58 +296,69 @@ class Universe:
           universe()
         """
 
+        v_objtable, vertex_weights = Universe._make_vertex_universe(universe, weights, tuple_vertex)
+
+        # all arguments are valid: replace the current universe
+        all_weights = dict(Universe.weights) if Universe.weights else {}
+        all_weights.update(vertex_weights)
+        Universe.weights = all_weights
+        Universe.v_objtable = v_objtable
+
+    @staticmethod
+    def _make_vertex_universe(universe, weights, tuple_vertex):
         vertex_num = len(universe)
         if vertex_num != len(set(universe)):
             raise ValueError("duplicated elements found")
 
-        Universe.v_objtable = ObjectTable()
-        if not Universe.weights:
-            Universe.weights = {}
+        v_objtable = ObjectTable()
+        vertex_weights = {}
 
         for i, vertex in enumerate(universe):
             if not tuple_vertex and isinstance(vertex, tuple):
                 if len(vertex) == 2:
                     vertex, weight = vertex
-                    Universe.weights[vertex] = weight
+                    vertex_weights[vertex] = weight
                 elif len(vertex) == 1:
                     vertex = vertex[0]
                     if weights is not None and vertex in weights:
-                        Universe.weights[vertex] = weights[vertex]
+                        vertex_weights[vertex] = weights[vertex]
                     else:
-                        Universe.weights[vertex] = 1
+                        vertex_weights[vertex] = 1
                 else:
                     raise TypeError(vertex)
             else:
                 if weights is not None and vertex in weights:
-                    Universe.weights[vertex] = weights[vertex]
+                    vertex_weights[vertex] = weights[vertex]
                 else:
-                    Universe.weights[vertex] = 1
-            Universe.v_objtable.add_elem(vertex)
+                    vertex_weights[vertex] = 1
+            v_objtable.add_elem(vertex)
+        return v_objtable, vertex_weights
 
     @staticmethod
-    def _set_ev_universe(universe):
+    def _make_ev_universe(universe):
         visited_vertices = set()
         edges_vertices = []
-        Universe.edge_vertex_kind = {}
+        edge_vertex_kind = {}
         for e in reversed(list(universe)):
             for v in [e[1], e[0]]:
                 if v not in visited_vertices:
                     visited_vertices.add(v)
                     edges_vertices.append(v)
-                    Universe.edge_vertex_kind[v] = False
+                    edge_vertex_kind[v] = False
             # check if a vertex such as "(a, b)" exists
             #if e in visited_vertices:
             #    KeyError("{} cannot be a vertex".format(e))
             #else:
             edges_vertices.append(e[:2])
-            Universe.edge_vertex_kind[e[:2]] = True
-            Universe.edge_vertex_kind[(e[1], e[0])] = True
+            edge_vertex_kind[e[:2]] = True
+            edge_vertex_kind[(e[1], e[0])] = True
 
         edges_vertices.reverse()
 
-        Universe.ev_objtable = ObjectTable()
+        ev_objtable = ObjectTable()
         for x in edges_vertices:
-            Universe.ev_objtable.add_elem(x)
+            ev_objtable.add_elem(x)
+        return ev_objtable, edge_vertex_kind
 
     @staticmethod
     def _traverse(indexed_edges, traversal, source):
-- 
2.43.0


From 2468d0977870517641e69fd798dfb512977c6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 19/30] fix: accept either orientation of an edge in the
 weights of a universe

---
 graphillion/universe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index c27a1c3..86eed84 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -221,6 +221,8 @@ class Universe:
                 edge_weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
                 edge_weights[e] = weights[e]
+            elif weights is not None and (e[1], e[0]) in weights:
+                edge_weights[e] = weights[(e[1], e[0])]
 
         if traversal != 'as-is':
             if source is None:
-- 
2.43.0


From e271297fa1ac08b524449f51e0160e2e71352bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 20/30] fix: keep antiparallel arcs when a directed universe is
 traversed in bfs or dfs order

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 2f25ae5..d276005 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2125,6 +2125,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From 6c3a0bcc8f4eb674e70982aa3f5983673524fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 21/30] fix: pass the native family of graphset to the degree
 distribution search

---
 graphillion/graphset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 37539b3..31658ec 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2672,7 +2672,9 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From 06ea2dbd2d3962657d73d4bffb2b467c9c6a6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 22/30] fix: steiner_paths passed graphset as the first
 terminal

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 31658ec..c693edf 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2634,7 +2634,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From 1160652435fd1ec564e151f2ffcb8d5b82105e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 23/30] fix: bipartite_graphs added the empty graph to a
 graphset without it

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index c693edf..61ce2f2 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2520,7 +2520,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From cbb532d5072f05b32e612b36bfc1bee2bf616d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 24/30] fix: search methods of a DiGraphSet raised TypeError

---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index d276005..2c3e45f 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -143,7 +143,7 @@ class DiGraphSet(object):
                    'rooted_trees', 'graphs']
         for method in methods:
             setattr(self, method, partial(
-                getattr(DiGraphSet, method), DiGraphSet=self))
+                getattr(DiGraphSet, method), graphset=self))
 
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
-- 
2.43.0


From 2610377c2f70545bd61ed2917a13bdc3b2ddebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 25/30] fix: number edges and vertices in the order of the edge
 universe

---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 86eed84..6779155 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -243,7 +243,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(e_objtable)]
         v_objtable, vertex_weights = Universe._make_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        ev_objtable, edge_vertex_kind = Universe._make_ev_universe(universe)
+        ev_objtable, edge_vertex_kind = Universe._make_ev_universe(sorted_edges)
 
         if isolated is None:
             isolated_vertices = set()
-- 
2.43.0


From 9218380e9fcf4aa982cefea7ff5541e276b9fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 26/30] fix: bicliques with different part sizes did not raise
 the TypeError it builds

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 61ce2f2..56b0141 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2074,7 +2074,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
-- 
2.43.0


From 3e8a8e015fed869901523e4854acbbd7223d8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 27/30] fix: degree constraints of directed searches rejected
 counts that could still grow

A vertex whose constraint did not contain every smaller degree (2, or
range(0, 3, 2)) never got an edge, so in_degree_constraints={v: 2} gave
no graph at all.
---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..0ee25ef 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (out_constraints.at(edge.v1).upperBound() < outdeg1 + 1) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (in_constraints.at(edge.v2).upperBound() < indeg2 + 1) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From 2c4e8b45c01100711397a5d48500575b9c591a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 28/30] fix: add_some_edge and remove_add_some_edges reused
 results of an earlier universe

Their results were kept under level numbers, and levels are renumbered when
variables are added.
---
 src/graphillion/reconf.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..8f99409 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,13 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// A cache key for the levels from lower to n.  Levels are renumbered when
+// variables are added, so it names the variables at both ends.
+static bddword levelRange(int n, int lower)
+{
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16) + BDD_VarOfLev(lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +96,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, levelRange(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +118,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, levelRange(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +136,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, levelRange(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +162,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, levelRange(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From 019771e71911360080887121197a4a93c27fabfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 29/30] fix: kept results of minimal, maximal, subset filters
 and counts outlived their key

They are kept under the id of a family, which a garbage collection gives to
another family unless the key is kept too.
---
 src/graphillion/zdd.cc | 50 +++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 18592be..cf504fa 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -40,6 +40,7 @@ using std::getline;
 using std::istream;
 using std::map;
 using std::ostream;
+using std::make_pair;
 using std::pair;
 using std::set;
 using std::string;
@@ -114,29 +115,31 @@ zdd_t complement(zdd_t f, elem_t num_elems_a) {
 }
 
 zdd_t minimal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+  static map<word_t, pair<zdd_t, zdd_t> > cache;  // keeps f: its id stays taken
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
+  map<word_t, pair<zdd_t, zdd_t> >::iterator i = cache.find(id(f));
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t rl = minimal(lo(f));
   zdd_t r = minimal(hi(f));
   zdd_t rh = non_supersets(r, rl);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  cache[id(f)] = make_pair(f, r);
+  return r;
 }
 
 zdd_t maximal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+  static map<word_t, pair<zdd_t, zdd_t> > cache;  // keeps f: its id stays taken
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
+  map<word_t, pair<zdd_t, zdd_t> >::iterator i = cache.find(id(f));
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t r = maximal(lo(f));
   zdd_t rh = maximal(hi(f));
   zdd_t rl = non_subsets(r, rh);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  cache[id(f)] = make_pair(f, r);
+  return r;
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
@@ -192,7 +195,8 @@ zdd_t meet(zdd_t f, zdd_t g) {
 }
 
 zdd_t non_subsets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+  // keeps f and g: their ids stay taken
+  static map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > cache;
   if (g == bot())
     return f;
   else if (g == top())
@@ -200,9 +204,10 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
   else if (f == bot() || f == top() || f == g)
     return bot();
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
+  map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
+      cache.find(k);
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t r, r2, rl, rh;
   if (elem(f) < elem(g)) {
     rl = non_subsets(lo(f), g);
@@ -220,11 +225,13 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
     r2 = lo(g) | hi(g);
     r = non_subsets(f, r2);
   }
-  return cache[k] = r;
+  cache[k] = make_pair(make_pair(f, g), r);
+  return r;
 }
 
 zdd_t non_supersets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+  // keeps f and g: their ids stay taken
+  static map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > cache;
   if (g == bot())
     return f;
   else if (f == bot() || g == top() || f == g)
@@ -234,9 +241,10 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
+  map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
+      cache.find(k);
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   elem_t v = elem(f);
   zdd_t r;
   zdd_t rl;
@@ -251,7 +259,8 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
     rl = non_supersets(lo(f), lo(g));
   }
   r = zuniq(v, rl, rh);
-  return cache[k] = r;
+  cache[k] = make_pair(make_pair(f, g), r);
+  return r;
 }
 
 bool choose(zdd_t f, vector<elem_t>* stack) {
@@ -571,13 +580,14 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
 double algo_c(zdd_t f) {
-  static map<word_t, double> counts;
+  static map<word_t, pair<zdd_t, double> > counts;  // keeps f: its id stays taken
   if (is_term(f))
     return f == top() ? 1 : 0;
   else if (counts.find(id(f)) != counts.end())
-    return counts.at(id(f));
-  else
-    return counts[id(f)] = algo_c(hi(f)) + algo_c(lo(f));
+    return counts.at(id(f)).second;
+  double count = algo_c(hi(f)) + algo_c(lo(f));
+  counts[id(f)] = make_pair(f, count);
+  return count;
 }
 
 static double skip_probability(elem_t e, zdd_t f,
-- 
2.43.0


From 2d7095cc9e14d99a06ba1207a9fb1937fb3dc270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 30/30] fix: a dump naming an element beyond the limit aborted
 the process

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index cf504fa..924e71f 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -448,7 +448,7 @@ static zdd_t load_lines(NextLine next_line) {
     int num = sscanf(line.c_str(), (WORD_FMT + " %lld %255s %255s %1s").c_str(),
                      &k, &v, sl, sh, rest);
     zdd_t l, h;
-    if (num != 4 || v <= 0 || v > INT_MAX ||
+    if (num != 4 || v <= 0 || v > elem_limit() ||
         !load_child(sl, n, &l) || !load_child(sh, n, &h)) break;
     n[k] = root = l + single(v) * h;
   }
-- 
2.43.0

