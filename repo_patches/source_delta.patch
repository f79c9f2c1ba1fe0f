From 6052cdded61d2800e2fefe2db8cfb4d1aa585ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 01/28] fix: release Python references taken by the C extension

Every call leaked references to the lattice arrays, dictionary keys and float
values, so that the memory of each generated lattice was never freed.
---
 src/lib/pytornado/aero/c_vlm.cpp | 126 ++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 51 deletions(-)

diff --git a/src/lib/pytornado/aero/c_vlm.cpp b/src/lib/pytornado/aero/c_vlm.cpp
index 1975e10..20a6588 100644
--- a/src/lib/pytornado/aero/c_vlm.cpp
+++ b/src/lib/pytornado/aero/c_vlm.cpp
@@ -53,6 +53,30 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results );
 static int set_infostruct( PyObject* py_lattice, infostruct* info );
 static int set_resultstruct( PyObject* py_results, resultstruct* results );
 
+// ===== Reference counting =====
+
+// Owns a new reference, which is released when going out of scope (or when reassigned)
+class py_ref
+{
+    PyObject* obj;
+    py_ref( const py_ref& );
+    py_ref& operator=( const py_ref& );
+
+public:
+    explicit py_ref( PyObject* new_ref = NULL ) : obj(new_ref) {}
+    ~py_ref() { Py_XDECREF(obj); }
+    void operator=( PyObject* new_ref ) { Py_XDECREF(obj); obj = new_ref; }
+    operator PyObject*() const { return obj; }
+};
+
+// Return an attribute as a borrowed reference (the instance keeps the attribute alive)
+static PyObject* borrow_attr( PyObject* py_object, const char* name )
+{
+    PyObject* py_attr = PyObject_GetAttrString(py_object, name);
+    Py_XDECREF(py_attr);
+    return py_attr;
+}
+
 // ===== Miscellaneous functions =====
 double deg2rad(double deg)
 {
@@ -347,12 +371,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'p'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "p")))
+    else if (!PyArray_Check(borrow_attr(py_lattice, "p")))
     {
         std::cout << "ERROR: lattice.p is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_p = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "p");
+    py_p = (PyArrayObject*)borrow_attr(py_lattice, "p");
 
     // Get NUMPY array of panel vortex segment endpoints
     if (!PyObject_HasAttrString(py_lattice, "v"))
@@ -360,12 +384,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'v'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "v")))
+    else if (!PyArray_Check(borrow_attr(py_lattice, "v")))
     {
         std::cout << "ERROR: lattice.v is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_v = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "v");
+    py_v = (PyArrayObject*)borrow_attr(py_lattice, "v");
 
     // Get NUMPY array of panel collocation points
     if (!PyObject_HasAttrString(py_lattice, "c"))
@@ -373,12 +397,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'c'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "c")))
+    else if (!PyArray_Check(borrow_attr(py_lattice, "c")))
     {
         std::cout << "ERROR: lattice.c is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_c = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "c");
+    py_c = (PyArrayObject*)borrow_attr(py_lattice, "c");
 
     // Get NUMPY array of bound leg midpoint
     if (!PyObject_HasAttrString(py_lattice, "bound_leg_midpoints"))
@@ -386,12 +410,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'bound_leg_midpoints'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "bound_leg_midpoints")))
+    else if (!PyArray_Check(borrow_attr(py_lattice, "bound_leg_midpoints")))
     {
         std::cout << "ERROR: lattice.bound_leg_midpoints is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_bound_leg_midpoints = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "bound_leg_midpoints");
+    py_bound_leg_midpoints = (PyArrayObject*)borrow_attr(py_lattice, "bound_leg_midpoints");
 
     // Get NUMPY array of panel normal vectors
     if (!PyObject_HasAttrString(py_lattice, "n"))
@@ -399,12 +423,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'n'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "n")))
+    else if (!PyArray_Check(borrow_attr(py_lattice, "n")))
     {
         std::cout << "ERROR: lattice.n is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_n = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "n");
+    py_n = (PyArrayObject*)borrow_attr(py_lattice, "n");
 
     // Get NUMPY array of panel corner points
     if (!PyObject_HasAttrString(py_lattice, "a"))
@@ -412,12 +436,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'a'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "a")))
+    else if (!PyArray_Check(borrow_attr(py_lattice, "a")))
     {
         std::cout << "ERROR: lattice.a is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_a = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "a");
+    py_a = (PyArrayObject*)borrow_attr(py_lattice, "a");
 
     // Get epsilon
     if (!PyObject_HasAttrString(py_lattice, "epsilon"))
@@ -425,12 +449,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'epsilon'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyFloat_Check(PyObject_GetAttrString(py_lattice, "epsilon")))
+    else if (!PyFloat_Check(borrow_attr(py_lattice, "epsilon")))
     {
         std::cout << "ERROR: lattice.epsilon is not a FLOAT" << std::endl;
         return ERR_TYPE;
     }
-    epsilon = PyFloat_AsDouble(PyObject_GetAttrString(py_lattice, "epsilon"));
+    epsilon = PyFloat_AsDouble(borrow_attr(py_lattice, "epsilon"));
 
     // ===== GET LATTICE ATTRIBUTES (DATA) =====
 
@@ -491,7 +515,7 @@ static int get_infostruct( PyObject* py_lattice, infostruct* info )
 {
     PyObject* py_attr = NULL;
     PyObject* py_dict = NULL;
-    PyObject* py_key = NULL;
+    py_ref py_key;
     PyObject* py_val = NULL;
 
     // GET LATTICE CONTROLS DICT
@@ -502,7 +526,7 @@ static int get_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: lattice does not have attribute 'info'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_lattice, "info");
+    py_attr = borrow_attr(py_lattice, "info");
     py_dict = py_attr;
 
     // GET LATTICE CONTROLS DATA
@@ -548,7 +572,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
 {
     PyObject* py_attr = NULL;
     PyObject* py_dict = NULL;
-    PyObject* py_key = NULL;
+    py_ref py_key;
 
     // GET LATTICE CONTROLS DICT
 
@@ -558,7 +582,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: lattice does not have attribute 'info'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_lattice, "info");
+    py_attr = borrow_attr(py_lattice, "info");
     py_dict = py_attr;
 
     // SET LATTICE CONTROLS DATA
@@ -570,7 +594,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: no key 'area_min' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_min));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(info->area_min)));
 
     // Set maximum panel area
     py_key = PyUnicode_FromString("area_max");
@@ -579,7 +603,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: no key 'area_max' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_max));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(info->area_max)));
 
     // Set average panel area
     py_key = PyUnicode_FromString("area_avg");
@@ -588,7 +612,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: no key 'area_avg' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_avg));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(info->area_avg)));
 
     // Set minimum panel aspect ratio
     py_key = PyUnicode_FromString("aspect_min");
@@ -597,7 +621,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: no key 'aspect_min' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_min));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(info->aspect_min)));
 
     // Set maximum panel aspect ratio
     py_key = PyUnicode_FromString("aspect_max");
@@ -606,7 +630,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: no key 'aspect_max' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_max));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(info->aspect_max)));
 
     // Set average panel aspect ratio
     py_key = PyUnicode_FromString("aspect_avg");
@@ -615,7 +639,7 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: no key 'aspect_avg' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_avg));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(info->aspect_avg)));
 
     return ERR_SUCCESS;
 }
@@ -624,7 +648,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
 {
     PyObject* py_attr = NULL;
     PyObject* py_dict = NULL;
-    PyObject* py_key = NULL;
+    py_ref py_key;
     PyObject* py_val = NULL;
 
     // GET AERODYNAMIC DATA DICT
@@ -635,7 +659,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
         std::cout << "ERROR: state does not have attribute 'aero'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_state, "aero");
+    py_attr = borrow_attr(py_state, "aero");
     py_dict = py_attr;
 
     // GET AERODYNAMIC OPERATING CONDITIONS (PY DICT)
@@ -767,7 +791,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     PyObject* py_attr = NULL;
     PyObject* py_dict = NULL;
 
-    PyObject* py_key = NULL;
+    py_ref py_key;
     PyObject* py_val = NULL;
 
     /* GET REFERENCE VALUES (PY DICT) ****************************************/
@@ -778,7 +802,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
         std::cout << "ERROR: state does not have attribute 'refs'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_state, "refs");
+    py_attr = borrow_attr(py_state, "refs");
     py_dict = py_attr;
 
     /* GET REFERENCE POINT AND CENTER OF GRAVITY (NUMPY ARRAY) ***************/
@@ -888,7 +912,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
 {
     PyObject* py_attr = NULL;
     PyObject* py_dict = NULL;
-    PyObject* py_key = NULL;
+    py_ref py_key;
 
     // GET PANEL-WISE DATA DICT
 
@@ -898,7 +922,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'panelwise'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "panelwise");
+    py_attr = borrow_attr(py_data, "panelwise");
     py_dict =py_attr;
 
     // GET PANEL-WISE DATA (NUMPY ARRAYS)
@@ -1136,7 +1160,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
 {
     PyObject* py_attr = NULL;
     PyObject* py_dict = NULL;
-    PyObject* py_key = NULL;
+    py_ref py_key;
 
     // GET AERODYNAMIC FORCES DICT
 
@@ -1146,7 +1170,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'forces'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "forces");
+    py_attr = borrow_attr(py_data, "forces");
     py_dict = py_attr;
 
     // SET AERODYNAMIC FORCES
@@ -1158,7 +1182,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'x' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_x));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->ftot_x)));
 
     // Get total y-directional force
     py_key = PyUnicode_FromString("y");
@@ -1167,7 +1191,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'y' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_y));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->ftot_y)));
 
     // Get total z-directional force
     py_key = PyUnicode_FromString("z");
@@ -1176,7 +1200,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'z' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_z));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->ftot_z)));
 
     // Get total drag force
     py_key = PyUnicode_FromString("D");
@@ -1185,7 +1209,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'D' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_D));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->ftot_D)));
 
     // Get total side force
     py_key = PyUnicode_FromString("C");
@@ -1194,7 +1218,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'C' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_C));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->ftot_C)));
 
     // Get total lift force
     py_key = PyUnicode_FromString("L");
@@ -1203,7 +1227,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'L' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_L));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->ftot_L)));
 
     // Get total x-directional moment
     py_key = PyUnicode_FromString("l");
@@ -1212,7 +1236,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'l' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_x));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->mtot_x)));
 
     // Get total y-directional moment
     py_key = PyUnicode_FromString("m");
@@ -1221,7 +1245,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'm' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_y));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->mtot_y)));
 
     // Get total z-directional moment
     py_key = PyUnicode_FromString("n");
@@ -1230,7 +1254,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'n' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_z));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->mtot_z)));
 
     // GET AERODYNAMIC COEFFICIENTS DICT
 
@@ -1240,7 +1264,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'coeffs'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "coeffs");
+    py_attr = borrow_attr(py_data, "coeffs");
     py_dict = py_attr;
 
     // SET AERODYNAMIC COEFFICIENTS
@@ -1252,7 +1276,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'x' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cx));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->Cx)));
 
     // Get total y-directional force coefficient
     py_key = PyUnicode_FromString("y");
@@ -1261,7 +1285,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'y' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cy));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->Cy)));
 
     // Get total z-directional force coefficient
     py_key = PyUnicode_FromString("z");
@@ -1270,7 +1294,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'z' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cz));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->Cz)));
 
     // Get total drag force coefficient
     py_key = PyUnicode_FromString("D");
@@ -1279,7 +1303,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'D' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CD));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->CD)));
 
     // Get total side force coefficient
     py_key = PyUnicode_FromString("C");
@@ -1288,7 +1312,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'C' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CC));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->CC)));
 
     // Get total lift force coefficient
     py_key = PyUnicode_FromString("L");
@@ -1297,7 +1321,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'L' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CL));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->CL)));
 
     // Get total x-directional moment coefficient
     py_key = PyUnicode_FromString("l");
@@ -1306,7 +1330,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'l' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cl));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->Cl)));
 
     // Get total y-directional moment coefficient
     py_key = PyUnicode_FromString("m");
@@ -1315,7 +1339,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'm' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cm));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->Cm)));
 
     // Get total z-directional moment coefficient
     py_key = PyUnicode_FromString("n");
@@ -1324,7 +1348,7 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: no key 'n' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cn));
+    PyDict_SetItem(py_dict, py_key, py_ref(PyFloat_FromDouble(results->Cn)));
 
     return ERR_SUCCESS;
 }
-- 
2.43.0


From 020af48ebaee4903d01025c3e61892cb771b6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 02/28] fix: reject flow angles outside of [-90, 90] degrees

No value is both below -90 and above 90, so the range check never failed.
---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..d0d1f79 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -219,7 +219,7 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
+            range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
             if any(range_is_not_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
-- 
2.43.0


From 6de91e2fe5ddcb68662bf6bf224d41854bbbbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 03/28] fix: only strip the trailing '_m' from the UID of a
 mirrored deformation field

The field of a wing like 'my_main' could not be loaded ('my_main_m' became 'yain').
---
 src/lib/pytornado/fileio/native/deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..4f2fbb2 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -64,7 +64,7 @@ def load(aircraft, settings):
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
         if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From 24d06297a7263759a3d83bbac66d46e9ef3ab523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 04/28] fix: do not modify the deformation field when
 evaluating points

get_deformed_point() accumulates the displacement due to rotations in the field
itself, so that every evaluated point changed the deformation of the next ones.
---
 src/lib/pytornado/objects/aircraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..803711b 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -977,7 +977,7 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        def_point = get_deformed_point(point, def_field.copy())
         return def_point
 
     def generate(self):
-- 
2.43.0


From 223ed2cb24ab31ebea7d1d6918a451af59af38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 05/28] fix: raise an error if the linear system cannot be
 solved

For a singular downwash matrix dgesv() returns the right-hand side unchanged,
which was used as the vortex strengths.
---
 src/lib/pytornado/aero/vlm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..ac8eef8 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -472,9 +472,12 @@ def solver(vlmdata):
     """
 
     logger.info("Solving linear system...")
-    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], _ \
+    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \
         = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
 
+    if info != 0:
+        raise RuntimeError(f"Linear system could not be solved (LAPACK dgesv: info = {info})")
+
 ########
 ########
 ########
-- 
2.43.0


From 6f1e6712743e952d6f279b3f27361f3fd16ec626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 06/28] fix: accept controls without 'panels' setting

The setting is documented as optional, but loading failed with a KeyError.
---
 src/lib/pytornado/fileio/native/aircraft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..938e1e7 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,10 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            if control_entry.get('panels', None):
+                for key, value in control_entry['panels'].items():
+                    control.panels[key] = value
+
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From d63d2d828332a54b7c2dbc1fdc5ae91f79773e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 07/28] fix: make saved flight states loadable again

The airspeed and density derived from 'mach' and 'altitude' were saved as well,
and this combination is rejected when loading the file. Parameters set to
'null' were turned into NaN and written as if they had been specified.
---
 src/lib/pytornado/fileio/native/state.py |  4 ++++
 src/lib/pytornado/objects/state.py       | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/lib/pytornado/fileio/native/state.py b/src/lib/pytornado/fileio/native/state.py
index c7ece43..02432db 100644
--- a/src/lib/pytornado/fileio/native/state.py
+++ b/src/lib/pytornado/fileio/native/state.py
@@ -81,5 +81,9 @@ def save(state, settings):
     for key in ['aero']:
         output[key] = dict(getattr(state, key))
 
+    # Only write user input (the combination with derived values is not a valid input)
+    for param in state.derived_params:
+        output['aero'][param] = None
+
     with open(state_file, 'w') as fp:
         dump_pretty_json(output, fp)
diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index d0d1f79..09956bb 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -115,6 +115,7 @@ class FlightState:
             :results: (dict) aeroperformance map results
             :num_apm_entries: (int) Number of values is APM
             :idx_current_state: (int) Index of the current flight state
+            :derived_params: (set) Parameters which are computed from other parameters
 
         Note:
             * The angles 'alpha' and 'beta' are assumed to be given in DEGREES!
@@ -134,6 +135,9 @@ class FlightState:
         self.num_apm_entries = 0
         self.idx_current_state = None
 
+        # Parameters in 'aero' which are not user input
+        self.derived_params = set()
+
     @property
     def free_stream_velocity_vector(self):
         """Return the free stream velocity vector (incoming flow)"""
@@ -195,6 +199,10 @@ class FlightState:
             """
             raise ValueError(err_msg)
 
+        # Properties which are not used (e.g. set to 'null') do not have any value
+        for prop in all_props - input_props:
+            self.aero[prop] = None
+
         # ----- Only numpy float arrays from now on -----
         for prop in STATE_ALL_PARAMS:
             if self.aero[prop] is not None:
@@ -206,11 +214,15 @@ class FlightState:
             density = np.array(atmosphere.density)
             speed_of_sound = np.array(atmosphere.speed_of_sound)
 
+        self.derived_params = set()
+
         if not is_input[DENSITY]:
             self.aero[DENSITY] = density
+            self.derived_params.add(DENSITY)
 
         if is_input[MACH]:
             self.aero[AIRSPEED] = self.aero[MACH]*speed_of_sound
+            self.derived_params.add(AIRSPEED)
 
         self.check_values()
 
-- 
2.43.0


From 714c6d6961ffc8d4da4f764eb63fc85b90864b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 08/28] fix: do not delete hidden settings when saving the
 settings file

clean_dict() works in place, so that the live settings lost all keys starting
with an underscore.
---
 src/lib/pytornado/fileio/native/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..8035022 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -29,6 +29,7 @@ Developed at Airinnova AB, Stockholm, Sweden.
 
 import logging
 import json
+from copy import deepcopy
 from pathlib import Path
 
 from commonlibs.logger import truncate_filepath
@@ -78,10 +79,11 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    # Do not change the settings which are in use
+    output = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(output, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From 9e58f2262822c9550d3c265b133812b8aeef5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 09/28] fix: do not store the plot directory in the settings

The path object ended up in the 'plot' settings, which then could not be saved
after an analysis any more.
---
 src/lib/pytornado/plot/makeplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..4a8ad4d 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,7 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From a83f70539255eed187944db7890fe8fd0a26c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 10/28] fix: use default values for missing keys in 'plot' and
 'save_results'

Giving only some of the keys of these dictionaries resulted in a KeyError.
Moreover, default lists and user dictionaries were shared between instances.
---
 src/lib/pytornado/objects/settings.py |  6 +++---
 src/lib/pytornado/objects/utils.py    | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index a0075a6..d0412fa 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -31,7 +31,7 @@ import os
 import logging
 from pathlib import Path
 
-from pytornado.objects.utils import check_dict, get_default_dict
+from pytornado.objects.utils import check_dict, get_default_dict, update_dict
 from commonlibs.fileio.paths import ProjectPaths
 
 logger = logging.getLogger(__name__)
@@ -208,8 +208,8 @@ class Settings:
             :plot: Dictionary with plot settings
         """
 
-        for key, value in settings_dict.items():
-            self.settings[key] = value
+        # Settings which are not specified (also in sub-dictionaries) keep their default value
+        update_dict(self.settings, settings_dict)
 
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..575a917 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -30,6 +30,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 from collections import OrderedDict
 from collections.abc import MutableMapping
+from copy import deepcopy
 
 
 def check_dict(template_dict, test_dict):
@@ -124,5 +125,21 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        default_dict[key] = deepcopy(value)
     return default_dict
+
+
+def update_dict(old_dict, new_dict):
+    """
+    Update a dictionary recursively
+
+    Args:
+        :old_dict: Dictionary to be updated
+        :new_dict: Dictionary with new values (sub-dictionaries may be incomplete)
+    """
+
+    for key, value in new_dict.items():
+        if isinstance(value, dict) and isinstance(old_dict.get(key, None), dict):
+            update_dict(old_dict[key], value)
+        else:
+            old_dict[key] = deepcopy(value)
-- 
2.43.0


From 1f7378d17636e04c95c7103a9da59be7b9573669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 11/28] fix: do not create sliver panels next to control
 surface edges

A division slightly below an existing one (or slightly below the outer segment
edge) was not refused, which created extremely thin panels and meaningless
loads. If a division slightly above an existing one was refused, the control
was extended over the whole neighbouring subdivision.
---
 src/lib/pytornado/objects/aircraft.py | 29 +++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 803711b..83561a9 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -764,6 +764,11 @@ class WingSegment:
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
             return self.subdivision[idx_prev]
 
+        if (prev_subdivision.rel_vertices['eta_b'] - eta_a) < MIN_ETA_LIMIT:
+            logger.debug("Refusing to create a subdivision close to existing division "
+                         "(Delta eta_b = {:.3f})".format(prev_subdivision.rel_vertices['eta_b'] - eta_a))
+            return self.subdivision[idx_prev]
+
         # Relative vertices of new subdivision
         subdivision_rel_vertices = {}
         subdivision_rel_vertices['eta_a'] = eta_a
@@ -835,6 +840,21 @@ class WingSegment:
                 else:
                     return idx, subdivision, False
 
+    def _snap_to_division(self, eta):
+        """
+        Return the eta position of an existing division if it is very close
+
+        Args:
+            :eta: (float) eta position
+
+        Returns:
+            :eta: (float) position of a close division (or segment edge), otherwise the unchanged position
+        """
+
+        divisions = [0.0, 1.0] + [subdivision.rel_vertices['eta_a'] for subdivision in self.subdivision.values()]
+        closest = min(divisions, key=lambda division: abs(division - eta))
+        return closest if abs(closest - eta) < MIN_ETA_LIMIT else eta
+
     def _get_outer_neighbour_subdiv(self, eta_a):
         """
         Get the outer subdivision neighbour for a given eta_a.
@@ -883,6 +903,15 @@ class WingSegment:
             xsi_h2 = xsi2
             logger.warning("Hinge position xsi_h2 is not defined (assuming xsi2).")
 
+        # Edges which are very close to an existing division are moved to the division
+        eta_a = self._snap_to_division(eta_a)
+        eta_b = self._snap_to_division(eta_b)
+
+        if (eta_b - eta_a) < MIN_ETA_LIMIT:
+            logger.warning(f"Control '{parent_control.uid}' is too narrow to be modelled "
+                           f"on segment '{self.uid}' (Delta eta = {eta_b - eta_a:.3f})")
+            return []
+
         # Add a first subdivision (sd1) beginning at eta_a
         if eta_a == 0:
             sd1 = self.subdivision[0]
-- 
2.43.0


From 688d87d410e3091c355539ba6aefab9d07b36a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 12/28] fix: mirror subareas correctly for symmetry across the
 Y-Z plane

The relative coordinates were exchanged, but not inverted. Panels were generated
in reverse chordwise order and trailing edge devices ended up in the wrong place.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 83561a9..abdff91 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1899,6 +1899,10 @@ class StripSubdivision:
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
 
+            # In case of type 3 symmetry, leading and trailing edge are swapped
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d
+
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
         c_abs = b_sd + xsi_c*(c_sd - b_sd)
@@ -1933,6 +1937,10 @@ class StripSubdivision:
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
 
+        # In case of type 3 symmetry, leading and trailing edge are swapped
+        if mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
+
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
 
-- 
2.43.0


From 3d3281221437845920a34a24a5c8003a9f603455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 13/28] fix: make camber line rotations symmetric on mirrored
 wings

The normals on the mirrored side were rotated in the wrong direction for symmetry
across the X-Y plane, and about a different axis for twisted or tapered wings
with unequal edges, resulting in asymmetric loads.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index abdff91..d254836 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1985,12 +1985,20 @@ class StripSubdivision:
         b = subarea_vertices['b']
         d = subarea_vertices['d']
 
+        # The mirrored vertices have been reordered, start from the same vertex on both sides
+        if mirror:
+            a, b, _, d = order_mirrored_vertex_points([subarea_vertices[key] for key in 'abcd'], self.symmetry)
+
         ab = b - a
         ad = d - a
 
         subarea_normal = np.cross(ab, ad)
         rot_axis = np.cross(subarea_normal, ad)
 
+        # The sense of rotation is reversed on the mirrored side
+        if mirror:
+            rot_axis = -rot_axis
+
         p_inner = a
         p_outer = a + rot_axis/np.linalg.norm(rot_axis)
 
-- 
2.43.0


From 9ad09fe75e5fc46186213420c6a4edb6654c7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 14/28] fix: compute the surface area of skewed panels
 correctly

The product of span and chord is only valid for panels with perpendicular
midlines. For swept wings the area was too large and the panel pressure
coefficients too small.
---
 src/lib/pytornado/aero/c_lattice.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/c_lattice.cpp b/src/lib/pytornado/aero/c_lattice.cpp
index cfe5e28..df17b06 100644
--- a/src/lib/pytornado/aero/c_lattice.cpp
+++ b/src/lib/pytornado/aero/c_lattice.cpp
@@ -271,7 +271,12 @@ void vlm_lattice(latticestruct* lattice, infostruct* info, statestruct* state,
 
                     // Panel chord through centre
                     double chord = sqrt(chord_x*chord_x + chord_y*chord_y + chord_z*chord_z);
-                    double area = span*chord;
+
+                    // Panel surface area (panels are in general not rectangular)
+                    double area_x = span_y*chord_z - span_z*chord_y;
+                    double area_y = span_z*chord_x - span_x*chord_z;
+                    double area_z = span_x*chord_y - span_y*chord_x;
+                    double area = sqrt(area_x*area_x + area_y*area_y + area_z*area_z);
                     double aspect = span/chord;
 
                     if (area > info->area_max) { info->area_max = area; }
-- 
2.43.0


From eae43a01d32855caa93aacdafbe03ebe0e05d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 15/28] fix: accept 'null' parameters next to lists of flight
 states

Parameters which are not used can be set to 'null', also if the other parameters
are lists. This was rejected because 'null' was taken for a list with one item
(a saved aeroperformance map could not be loaded again).
---
 src/lib/pytornado/objects/state.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 09956bb..a990ee9 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -163,12 +163,20 @@ class FlightState:
         # ----- Make everything into lists -----
         array_lenghts = set()
         for key, value in aero.items():
+            # Parameters set to 'null' are the same as omitted parameters
+            if value is None:
+                self.aero[key] = None
+                continue
+
             if not isinstance(value, list):
                 value = [value]
 
             array_lenghts.add(len(value))
             self.aero[key] = value
 
+        if not array_lenghts:
+            raise ValueError("Flight state is empty")
+
         if len(array_lenghts) > 1:
             raise ValueError("State arrays have different lenghts!")
 
-- 
2.43.0


From 77810b2a6ed5dd903a521ac10b231fb862f453fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 16/28] fix: reject flight states with missing or undefined
 values

An undefined value (such as a rotation rate of 'null') was converted to NaN, and
the analysis returned results consisting of NaN.
---
 src/lib/pytornado/objects/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index a990ee9..ddcf46b 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -237,6 +237,11 @@ class FlightState:
     def check_values(self):
         """Make sure input values have correct format"""
 
+        # Check that all required values are there ('null' in a list is converted to NaN)
+        for param in STATE_PRIMARY_PARAMS:
+            if self.aero[param] is None or not np.isfinite(self.aero[param]).all():
+                raise ValueError(f"Flight state parameter '{param}' is missing or not a number")
+
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
             range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
-- 
2.43.0


From 94342f4620d2b734dcec2efd37c49ed7245fcf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 17/28] fix: keep the airfoil file path when saving an aircraft

Files in a subdirectory and files outside of the project were replaced with a file
name in 'airfoils/' which does not exist, if the name contained 'blade.'. Files in
the project with other names were saved as absolute path.
---
 src/lib/pytornado/fileio/native/aircraft.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 938e1e7..0ffb4a2 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -161,11 +161,12 @@ def save(aircraft, settings):
 
             segment_entry['airfoils'] = {}
             for key, value in segment.airfoils.items():
-                # If airfoil is "blade" file, make sure to save as relative path
+                # If airfoil is a file in the project directory, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
-                if "blade." in value:
+                dir_airfoils = os.path.join(settings.paths('root'), PATHS.DIR.AIRFOILS)
+                if value.startswith(dir_airfoils + os.sep):
                     # Make path relative!
-                    value = os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))
+                    value = os.path.join(PATHS.DIR.AIRFOILS, os.path.relpath(value, dir_airfoils))
                 segment_entry['airfoils'][key] = value
 
             segment_entry['panels'] = {}
-- 
2.43.0


From 4516e510d1a6fef94d60250113d81dd48f2e6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 18/28] fix: reject non-positive numbers of automatic panels

Negative and zero values were accepted. Zero chordwise panels corrupted memory.
---
 src/lib/pytornado/objects/settings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index d0412fa..efb8aad 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -235,3 +235,7 @@ class Settings:
         # ===== Other checks =====
         if not (0 < self.settings['_epsilon'] < 1):
             raise ValueError("'_epsilon' must be a (small) float in range (0, 1)")
+
+        for key in ('vlm_autopanels_c', 'vlm_autopanels_s'):
+            if self.settings[key] < 1:
+                raise ValueError(f"'{key}' must be a positive number")
-- 
2.43.0


From d3226b010f3e490e0e185abb4d8280c3d54adb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 19/28] fix: reject empty lists of flight states

The analysis stopped with an unrelated error after an empty aeroperformance map
had been written.
---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index ddcf46b..f3c384d 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -174,7 +174,7 @@ class FlightState:
             array_lenghts.add(len(value))
             self.aero[key] = value
 
-        if not array_lenghts:
+        if not array_lenghts or 0 in array_lenghts:
             raise ValueError("Flight state is empty")
 
         if len(array_lenghts) > 1:
-- 
2.43.0


From dfd2973d732e02c5ea157ffc55557338b002929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 20/28] fix: reject controls on unknown segments

A control with an unknown inner segment was ignored, and a control with an unknown
outer segment (or with segments in the wrong order) extended to the wing tip.
---
 src/lib/pytornado/objects/aircraft.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index d254836..528b52b 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -396,6 +396,17 @@ class Wing:
 
         segments = list(self.segments.values())
 
+        # Make sure that controls refer to segments of this wing
+        segment_uids = list(self.segments.keys())
+        for control in self.controls.values():
+            for segment_uid in control.segment_uid.values():
+                if segment_uid not in segment_uids:
+                    raise ComponentDefinitionError(
+                        f"Control '{control.uid}': segment '{segment_uid}' is not a segment of wing '{self.uid}'")
+
+            if segment_uids.index(control.segment_uid['outer']) < segment_uids.index(control.segment_uid['inner']):
+                raise ComponentDefinitionError(f"Control '{control.uid}': inner and outer segments are in wrong order")
+
         # Generate wing segments
         for segment in segments:
             segment.generate()
-- 
2.43.0


From 94d1b83c77ce6e471a9221cbdefefd202dac98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 21/28] fix: read CPACS control deflections after all wings
 have been loaded

The deflections were read while only the wings up to the current one were
known, so a deflection of a control of a later wing was refused.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..97a7f95 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
 
+    # Deflections may belong to controls of any wing
+    get_control_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -285,7 +288,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
-    # ----- CONTROL SURFACE DEFLECTION -----
+
+def get_control_deflections(aircraft, tixi):
+    """
+    Extract the deflections of the control surfaces
+
+    Args:
+        :aircraft: Aircraft model (all wings and controls must be loaded)
+        :tixi: Tixi handle
+    """
+
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
     except:
-- 
2.43.0


From ae2f56f06847073d39adaea83307918a620ba2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 22/28] fix: find the segments of CPACS controls by their
 parsed UIDs

Segments are added with parse_str(uid), while controls referred to the
unchanged UID; a segment UID with, e.g., a dot could not be found.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 97a7f95..8575463 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -285,8 +285,9 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                 control.rel_hinge_vertices['xsi_outer'] = xsi_h2
 
-                control.segment_uid['inner'] = segment_uid_inner
-                control.segment_uid['outer'] = segment_uid_outer
+                # Segments are known by their parsed UIDs
+                control.segment_uid['inner'] = parse_str(segment_uid_inner)
+                control.segment_uid['outer'] = parse_str(segment_uid_outer)
 
 
 def get_control_deflections(aircraft, tixi):
-- 
2.43.0


From 881250f428df346a0a27a05548978a52b1f0d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 23/28] fix: keep the edges of CPACS segments together when
 reordering vertices

The vertices of the leading and of the trailing edge were swapped
independently of each other, and already for a rounding error in y. The
segments of a fin (toe-in, or mid points which differ by a rounding error)
became crossed quadrilaterals.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 8575463..da37887 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -164,10 +164,12 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # Re-order vertices
         # * A, D should be at root and B, C at tip
         # * This is done so that the segments (thus panel normals point in the correct direction)
-        if b[1] - a[1] < 0.0 or (b[1] == a[1] and b[2] - a[2] < 0.0):
-            a, b, c, d = b, a, c, d
-        if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):
-            a, b, c, d = a, b, d, c
+        # * Leading and trailing edge must be swapped together, and rounding
+        #   errors in y must not matter (vertical segments)
+        dy, dz = b[1] - a[1], b[2] - a[2]
+        tol = 1e-6*abs(dz)
+        if dy < -tol or (abs(dy) <= tol and dz < 0.0):
+            a, b, c, d = b, a, d, c
         if d[0] - a[0] < 0.0:
             a, b, c, d = d, b, c, a
         if c[0] - b[0] < 0.0:
-- 
2.43.0


From c5e9b2a132ac883a70bc09c725ae491381b493c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 24/28] fix: keep airfoils of CPACS segments at their edges
 when reordering vertices

The vertices of a wing which extends towards negative y are reordered, but
the inner and outer airfoil were not exchanged with them.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index da37887..36df0c8 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -168,7 +168,8 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         #   errors in y must not matter (vertical segments)
         dy, dz = b[1] - a[1], b[2] - a[2]
         tol = 1e-6*abs(dz)
-        if dy < -tol or (abs(dy) <= tol and dz < 0.0):
+        swapped = dy < -tol or (abs(dy) <= tol and dz < 0.0)
+        if swapped:
             a, b, c, d = b, a, d, c
         if d[0] - a[0] < 0.0:
             a, b, c, d = d, b, c, a
@@ -186,6 +187,11 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # ----- Set airfoils -----
         get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment)
 
+        # Inner and outer airfoil belong to the same edges as in CPACS
+        if swapped:
+            airfoils = aircraft.wings[wing_uid].segments[segment_uid].airfoils
+            airfoils['inner'], airfoils['outer'] = airfoils['outer'], airfoils['inner']
+
 
 def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
     """
-- 
2.43.0


From de6adab5010ed692fa0250e35df0efbd33e19c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 25/28] fix: accept segments defined by geometric properties

Vertices which are not provided were converted to NaN arrays, properties
which are zero were taken for missing ones, the edge BC was computed from
missing properties although its vertices were given, and the computed
vertices were lists. None of the documented combinations but 'all four
vertices' could be used.
---
 src/lib/pytornado/objects/aircraft.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 528b52b..9fb32ab 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1057,16 +1057,16 @@ class WingSegment:
 
         # ----- Check provided geometric properties -----
         # All geometric properties provided
-        if all(v for v in self.geometry.values()):
+        if all(v is not None for v in self.geometry.values()):
             required = ['a', 'b', 'c', 'd', 'ad', 'bc', 'abcd']
         # All geometric properties provided except for inner edge
-        elif all(v for k, v in self.geometry.items() if 'inner_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'inner_' not in k):
             required = ['ad', 'abcd']
         # All geometric properties provided except for outer edge
-        elif all(v for k, v in self.geometry.items() if 'outer_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'outer_' not in k):
             required = ['bc', 'abcd']
         # Some geometric properties provided, but not enough
-        elif any(v for v in self.geometry.values()):
+        elif any(v is not None for v in self.geometry.values()):
             required = ['abcd']
         # No geometric properties provided
         else:
@@ -1140,7 +1140,7 @@ class WingSegment:
             logger.debug(f"--> Inner_beta = {self.geometry['inner_beta']}")
 
         # ----- Generate edge B, C -----
-        if not ('a' in provided and 'b' in provided):
+        if not ('b' in provided and 'c' in provided):
             logger.debug("Computing chord BC...")
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
@@ -1331,10 +1331,10 @@ class WingSegment:
                 a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y
                 a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z
 
-            self.vertices['a'] = [a_x, a_y, a_z]
-            self.vertices['b'] = [b_x, b_y, b_z]
-            self.vertices['c'] = [c_x, c_y, c_z]
-            self.vertices['d'] = [d_x, d_y, d_z]
+            self.vertices['a'] = np.array([a_x, a_y, a_z], dtype=float, order='C')
+            self.vertices['b'] = np.array([b_x, b_y, b_z], dtype=float, order='C')
+            self.vertices['c'] = np.array([c_x, c_y, c_z], dtype=float, order='C')
+            self.vertices['d'] = np.array([d_x, d_y, d_z], dtype=float, order='C')
 
         logger.debug(f"--> Vertex a = {self.vertices['a']}")
         logger.debug(f"--> Vertex b = {self.vertices['b']}")
@@ -1353,6 +1353,9 @@ class WingSegment:
 
         # Convert to NUMPY array
         for key in ['a', 'b', 'c', 'd']:
+            # Not all vertices have to be provided
+            if self.vertices[key] is None:
+                continue
             self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
 
     def check_geometry(self):
-- 
2.43.0


From 7c93baa8a2b025255816e94a428b3ff29e04c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 26/28] fix: consistent yaw angle and axis position of segments

The yaw angle computed from vertices had the opposite sign of the one used
to generate vertices, and the twist axis was on the wrong side of the
leading edge, so that the dihedral was not the one of the axis.
---
 src/lib/pytornado/objects/aircraft.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 9fb32ab..5a8782b 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1130,7 +1130,7 @@ class WingSegment:
             sin_bi = +d_y/r_i
 
             # atan2() handles singularity
-            self.geometry['inner_beta'] = -degrees(asin(sin_bi))
+            self.geometry['inner_beta'] = degrees(asin(sin_bi))
             self.geometry['inner_alpha'] = -degrees(atan2(d_z, r_i*cos_bi))
 
             tan_ai = tan(radians(self.geometry['inner_alpha']))
@@ -1178,7 +1178,7 @@ class WingSegment:
             cos_bo = +c_x/r_o
             sin_bo = +c_y/r_o
 
-            self.geometry['outer_beta'] = -degrees(asin(sin_bo))
+            self.geometry['outer_beta'] = degrees(asin(sin_bo))
             self.geometry['outer_alpha'] = -degrees(atan2(c_z, r_o*cos_bo))
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
@@ -1196,13 +1196,13 @@ class WingSegment:
 
         # axi_x = r_i*self.geometry['inner_axis']*cos_bi
         axi_y = r_i*self.geometry['inner_axis']*sin_bi
-        axi_z = r_i*self.geometry['inner_axis']*cos_bi*tan_ai
-        # Offset of point A wrt axis point (dihedral line) on AD
+        axi_z = -r_i*self.geometry['inner_axis']*cos_bi*tan_ai
+        # Offset of axis point (dihedral line) on AD wrt point A
 
         # axo_x = r_o*self.geometry['outer_axis']*cos_bo
         axo_y = r_o*self.geometry['outer_axis']*sin_bo
-        axo_z = r_o*self.geometry['outer_axis']*cos_bo*tan_ao
-        # Offset of point B wrt axis point (dihedral line) on BC
+        axo_z = -r_o*self.geometry['outer_axis']*cos_bo*tan_ao
+        # Offset of axis point (dihedral line) on BC wrt point B
 
         # Relative y, z-offset between axis on B, C-edge and axis on A, B-edge
         axs_y = axo_y - axi_y
-- 
2.43.0


From 161229da3997408043386624848d6ad3d4d34036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 27/28] fix: control surfaces on small wings were refused
 (absolute tolerance)

---
 src/lib/pytornado/objects/aircraft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 5a8782b..3baf9f6 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -50,7 +50,7 @@ import logging
 import os
 
 import numpy as np
-from commonlibs.math.vectors import get_plane_line_intersect
+from commonlibs.math.vectors import get_plane_line_intersect, unit_vector
 from airfoils import Airfoil, MorphAirfoil
 from airfoils.fileio import import_airfoil_data
 from aeroframe.interpol.translate import get_deformed_point
@@ -2146,7 +2146,9 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
     segment_normal = np.cross(b-a, d-a)
     intersect_plane_normal = np.cross(segment_normal, p_lower-p_upper)
 
-    p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
+    # Unit vectors, as the intersection is found with an absolute tolerance
+    p_intersect = get_plane_line_intersect(
+        unit_vector(intersect_plane_normal), p_upper, unit_vector(insegment_direction), p_inner)
     xsi_interpol = np.linalg.norm(p_intersect-p_upper)/np.linalg.norm(p_lower-p_upper)
 
     return xsi_interpol
-- 
2.43.0


From c251f2527f6d22f04de67e402790ea75936fdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 28/28] fix: all_subareas_of_control() fails for aircraft with
 subareas without control

Every aircraft has such subareas, their parent control is None.
---
 src/lib/pytornado/objects/objecttools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/objecttools.py b/src/lib/pytornado/objects/objecttools.py
index 24f850b..c32efde 100644
--- a/src/lib/pytornado/objects/objecttools.py
+++ b/src/lib/pytornado/objects/objecttools.py
@@ -131,7 +131,9 @@ def all_subareas_of_control(aircraft, control_uid):
     """
 
     for this_subarea, _, _, _ in all_subareas(aircraft):
-        if this_subarea[2].parent_control.uid == control_uid:
+        # Subareas without control device have no parent control
+        parent_control = this_subarea[2].parent_control
+        if parent_control is not None and parent_control.uid == control_uid:
             yield this_subarea
 
 
-- 
2.43.0

