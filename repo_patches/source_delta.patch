From 7fed4e939d92c43ae29d7a06337b0a53f57635c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 01/72] fix: only accept contiguous arrays when computing
 limb-darkening functions

The memory views were declared as generally strided, but their first element is handed
to C++ code that walks over contiguous memory: strided views yielded wrong values and
reversed views wrote outside of the array.
---
 cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
index 9218998..9a6f931 100644
--- a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
+++ b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
@@ -11,7 +11,7 @@ import numpy as np
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef _comp(
-    int asize, double[:] kap, double[:] res,
+    int asize, double[::1] kap, double[::1] res,
     cpp_string myselvar, int num_threads, cpp_bool paral
     ):
     # create pointer to LimbDarkeningFunctions object
@@ -25,7 +25,7 @@ cdef _comp(
 
 
 def compute(
-    double[:] kap, double[:] res,
+    double[::1] kap, double[::1] res,
     str myselvar, int num_threads, cpp_bool paral
     ):
     # compute the array size
-- 
2.43.0


From 699229fc3050daddcd403967cebf934742cdc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 02/72] fix: terminate the f-string of an error message of the
 GYRE lambda interface

The module could not be parsed, hence none of its functionality (nor the main
'aesolver' package, which imports it) could be used.
---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From b04233d031a404133ed55c409dd6695b356a5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 03/72] fix: write the sign of a negative number only once in
 GYRE table names

The sign was prepended to a number that already carries it ('m--1'), so that tables
for negative azimuthal orders (or negative k) were never found.
---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..cf69082 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'{number:+d}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0


From 7f45930a8c5d1bbec09cee17b0fd19a97b908802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 04/72] fix: return one derivative per input point when
 interpolating internally

The refined grid generally did not contain the input grid points, so that the
sub-sampled output lacked (most of the) points for which derivatives are requested.
---
 num-tools/num_deriv/num_deriv.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..4fe552a 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -271,10 +271,14 @@ class NumericalDifferentiator:
         if self._perform_interpolation:
             # get the linear 1D interpolation
             _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # - refine each of the intervals of the input grid, so that
+            # all of the input grid points are part of the refined grid
+            _nr_intervals = x.shape[0] - 1
+            _x = np.interp(
+                np.arange(_nr_intervals * self._interpolation_factor + 1)
+                / self._interpolation_factor,
+                np.arange(x.shape[0]),
+                x,
             )
             _y = _interpolator(_x)
         else:
@@ -290,15 +294,15 @@ class NumericalDifferentiator:
         )
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
-            # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
                 if _my_der is None:
                     der_sub_sample.append(None)
                 else:
-                    der_sub_sample.append(_my_der[_map_idx])
+                    der_sub_sample.append(
+                        _my_der[:: self._interpolation_factor]
+                    )
             return (der_sub_sample, derivatives[1])
         else:
             return derivatives
-- 
2.43.0


From 0a3c32a18865cdfd20353b74550e8ab8d421af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 05/72] fix: reserve memory for all stencil points of the
 highest accuracy order

An accuracy order of 20 is accepted and needs 21 points, but the work arrays hold 20.
---
 fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
index 6eff78a..f76b5a5 100644
--- a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
+++ b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
@@ -1,7 +1,7 @@
 module fornberg_deriv
     implicit none
     ! define parameters used in the subroutines
-    integer, parameter :: mmax=8, nmax=20, iaccuracy_max=20
+    integer, parameter :: mmax=8, nmax=21, iaccuracy_max=20
     
 contains
 
@@ -51,7 +51,7 @@ contains
         real(8), intent(in), dimension(ngrid) :: grid, u
         real(8), intent(out), dimension(ngrid) :: du
         integer :: m, n, i, imid, jend
-        real(8), dimension(iaccuracy_max) :: coef
+        real(8), dimension(iaccuracy_max+1) :: coef
         ! Check if requested accuracy is reasonable
         if (iaccuracy .gt. iaccuracy_max) stop 'requested accuracy order too large in routine'
         ! Declare aliases
-- 
2.43.0


From f6a865985a722cb56f0cd34dcc192dbc2fb3f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 06/72] fix: let pairing functions and their inverses handle
 tuples and Python integers

The documented tuple input of the Cantor pairing function and the documented (default)
integer lower bounds of the inverse pairing functions raised a TypeError.
---
 py-combinations/pairing_functions/cantor_pairing.py    | 4 ++--
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 py-combinations/pairing_functions/xie_pairing.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..bd33def 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -24,7 +24,7 @@ def cantor_pair(my_pair, lowest_integer=0):
         The paired/mapped integer.
     """
     # adjust the mapping pair: subtract the lowest integer considered
-    mapping_pair = my_pair - lowest_integer
+    mapping_pair = np.array(my_pair) - lowest_integer
     # compute the sum of the mapping integer pair
     int_sum = mapping_pair.sum()
     # compute and return the paired/mapped integer
@@ -54,4 +54,4 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     # - tuple generation
     reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return tuple(_x + lowest_integer for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..c5197f4 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -54,4 +54,4 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return tuple(_x + lowest_integer - 1 for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..88f8d78 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -83,4 +83,4 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return tuple(_x + lowest_integer - 1 for _x in (m, n))
-- 
2.43.0


From 357b49b3599550f5e4eace60c1bf25a1623a19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 07/72] fix: invert the symmetric pairing of two equal integers

A pair (b, b) maps onto the triangular number of b, which is the last (instead of the
first) number of its row: the inverse returned (0, b + 1) for it.
---
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index c5197f4..331e0f2 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -49,7 +49,7 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
+    _w = floor(0.5 * np.sqrt(8.0 * (my_sym_number - 1) + 1.0) - 0.5)
     _t = int(((_w * _w) + _w) / 2)
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
-- 
2.43.0


From 81c8dc1193ff7a56cecd08bf796154ec7bc3c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 08/72] fix: read lists and tuples in inlists as such, whatever
 the type of their elements

A list of booleans was read as a single boolean, a list holding None as None, and a tuple
of strings as one string.
---
 util-tools/inlist_handler/inlist_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index acd0be6..dfb47e6 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -100,8 +100,12 @@ class InlistHandler:
         typed_value : Any
             The value_string converted to the appropriate type.
         """
+        # check for a list or tuple (whose elements can be of any type)
+        if value_string.startswith(('[', '(')):
+            logger.debug(f'{value_string} is considered a list or tuple.')
+            typed_value = ast.literal_eval(value_string)
         # check for common symbols that indicate the presence of string input
-        if cls.__dict__['string_check'].__get__(cls)(value_string):
+        elif cls.__dict__['string_check'].__get__(cls)(value_string):
             if cls.__dict__['list_check'].__get__(cls)(value_string):
                 logger.debug(f'{value_string} is considered a list of strings.')
                 typed_value = ast.literal_eval(value_string)
-- 
2.43.0


From f1be195d5be6fe5ae6e2b3ad1a84870f05ccc57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 09/72] fix: read negative numbers in exponent notation in
 inlists

---
 util-tools/inlist_handler/inlist_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index dfb47e6..28a4c76 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -84,7 +84,7 @@ class InlistHandler:
     # define and compile the regular expression used to select the defaults inlist
     compiled_regex_defaults = re.compile(r'(.*)\/.*\/(.*)\..*')
     # define and compile the regular expression used to parse floats
-    compiled_float_regex = re.compile(r'\d+[eE]-*\d+')
+    compiled_float_regex = re.compile(r'-?\d+[eE]-*\d+')
 
     @classmethod
     def _typer(cls, value_string):
-- 
2.43.0


From 8a161d87965b08287ceae1e0016f844259c71ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 10/72] fix: return None for settings looked up in an empty
 inlist table

Empty tables are read as None, in which no key can be looked up.
---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..bec6fd7 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -519,7 +519,7 @@ class GenericParser:
         """
         try:
             # key list
-            if (first_key := index_val[0]) not in ha_dict:
+            if ha_dict is None or (first_key := index_val[0]) not in ha_dict:
                 # element not present, return None
                 return None
             elif len(index_val) == 1:
-- 
2.43.0


From 00df0873135b28f24d0903ba75cf78c1a373152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 11/72] fix: register the --save_file_name argument of the
 solve run script

The method was not the one the generic parser calls, so no solve run could get past the
retrieval of the save name.
---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From 58712ecda2ebc75c795a39b16ca29c1076d4e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 12/72] fix: look for the base directory of the repository
 under its current name

The plot and analysis run scripts searched the inlist path for the former repository name.
---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From 3b5b6cd9781c81ef92e747b05ded84143a3185fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 13/72] fix: keep dots in the name of an inlist

The name was cut at the first dot, so that an inlist such as run.v2.toml was not found.
---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index bec6fd7..4dce0c0 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.name.rpartition('.')[0]  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0


From 101951617a14d4f1ee2643923db1cf42b35386aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 14/72] fix: give second derivatives of radial Hough functions
 their own parity at negative mu

The second derivative has the parity of the function itself, not that of its first derivative.
---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From bef78887a348865e99e5e6cf9354b4b8ef019284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 15/72] fix: flip the sign of the derivative of the azimuthal
 Hough function along with its own

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..1440ffa 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -869,6 +869,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # change the sign where necessary
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From ac46ba1a71bf717f4393ff2147e2e89e5b1eb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 16/72] fix: normalise Hough functions with the actual, unequal
 spacing of their grid

---
 hough-func-tools/hough_function/hough_normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hough-func-tools/hough_function/hough_normalizer.py b/hough-func-tools/hough_function/hough_normalizer.py
index e83980c..46a7130 100644
--- a/hough-func-tools/hough_function/hough_normalizer.py
+++ b/hough-func-tools/hough_function/hough_normalizer.py
@@ -137,7 +137,7 @@ class HoughNormalizer(Enum):
         _integrand = hr**2.0
         # compute the normalization integral numerically
         _norm_integral = cni.integrate(
-            'trapz', True, _integrand, mu, nr_omp_threads, use_parallel
+            'trapz', False, _integrand, mu, nr_omp_threads, use_parallel
         )
         # use that value to compute and return the normalizing (multiplicative) factor
         return 1.0 / np.sqrt(2.0 * np.pi * _norm_integral)
-- 
2.43.0


From b1e7f7c5b4128919feb88d385d30aec9b6394261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 17/72] fix: integrate over mu with the actual, unequal spacing
 of the Hough function grid

---
 .../rotating_tar_angular/hough_integration.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 81ce013..7d7d29a 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -212,7 +212,7 @@ class HoughIntegration(Enum):
                 # perform usual integration method
                 regular_result = cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _new_integrand,
                     _mu_arr,
                     nr_omp_threads,
@@ -252,7 +252,7 @@ class HoughIntegration(Enum):
                 # compute integral in mu-space
                 return cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _integrand,
                     _mu_arr,
                     nr_omp_threads,
-- 
2.43.0


From bf4cc229b2efd6a2f1046141cf3c26ad0425462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 18/72] fix: print the optimal bin width of verbose histogram
 likelihoods

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..4a8a6c6 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..05c5151 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From ab6ebe1541e5f2db0550a42ca169cafa769592aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 19/72] fix: pass the bin width of numexpr and cython
 histograms with a specified width

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 4a8a6c6..8605311 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 05c5151..17ac80f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From 231f40a2047152cc37cbb65d8bf1b339ebbd92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 20/72] fix: base the cython jackknife likelihood on the number
 of data points

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 8605311..48f4e88 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -451,8 +451,8 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
@@ -644,8 +644,8 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
-- 
2.43.0


From df0614141a47972f47f847959b705a6f553725d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 21/72] fix: divide blas log-scale densities by the width of
 each bin

---
 histogram_maker/hogg_jacky/blas_jacky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..2a66e21 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -211,7 +211,7 @@ def empirical_density_histogram_blas(
     # compute empirical density histogram and return it together with the bin edges
     try:
         return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
+            dscal(1.0 / my_data.shape[0], count_histogram) / bin_width,
             bin_edges,
             bin_width,
         )
-- 
2.43.0


From 77c7c1d05af259deced24868f643ca66696c2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 22/72] fix: tolerate the lowest instead of the highest value
 below the lowest bin

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 48f4e88..d8a956f 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -267,7 +267,7 @@ def _cython_histogram_counts(
         # ensure that no negative counts are ever registered (due to mess-up at argmax, for example)
         if additional_checks and (neg_mask := _binning_result < 0).any():
             _idx = np.argwhere(neg_mask)
-            if len(_idx) == 1 and _idx[0] == np.argmax(my_data):
+            if len(_idx) == 1 and _idx[0] == np.argmin(my_data):
                 # mistake was made when counting at argmax, reverse it, by setting the counts in this bin to zero!
                 _binning_result[neg_mask] = 0
             else:
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 17ac80f..02b89e4 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -219,7 +219,7 @@ def _numexpr_histogram_counts(
         # ensure that no negative counts are ever registered (due to mess-up at argmax, for example)
         if additional_checks and (neg_mask := _binning_result < 0).any():
             _idx = np.argwhere(neg_mask)
-            if len(_idx) == 1 and _idx[0] == np.argmax(my_data):
+            if len(_idx) == 1 and _idx[0] == np.argmin(my_data):
                 # mistake was made when counting at argmax, reverse it, by setting the counts in this bin to zero!
                 _binning_result[neg_mask] = 0
             else:
-- 
2.43.0


From 1a28ea7df9280c1cb4f72bd305626649fe66ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 23/72] fix: return the optimal binning phase among the binning
 parameters

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 4 ++--
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 2a66e21..2597e3e 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -599,7 +599,7 @@ def hogg_jackknife_likelihood_blas(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
@@ -780,7 +780,7 @@ def hogg_jackknife_likelihood_blas_log(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index d8a956f..8a69fd0 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -476,7 +476,7 @@ def hogg_jackknife_likelihood_cython(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 02b89e4..bea7485 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -557,7 +557,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
-- 
2.43.0


From 47969ee13fae0b2df9e43dcf180ba37df66518cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 24/72] fix: leave NaN values out of the number of data points
 of numexpr log-scale histograms

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index bea7485..83944f9 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -745,7 +745,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / empirical_probability_conversion_fac',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                             },
@@ -763,7 +763,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / (empirical_probability_conversion_fac * (ha - hb))',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                                 'ha': hist_edges[1:],
-- 
2.43.0


From b3f1c5127eeff67d0a96068587dbaf5283344d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 25/72] fix: compute co-rotating frequencies of inertial modes
 for angular units

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From d1141dd608c44791d21f40485a77d1b56e53001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 26/72] fix: scale the time scale that makes frequencies
 dimensionless inversely with their units

---
 .../enumeration_freq_converter_normalization.py          | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..275f101 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -380,10 +380,9 @@ class EnumerationGYREFreqConverter(Enum):
         if isinstance(_req_fac, KeyError):
             logger.error('Unknown requested units. Now exiting.')
             sys.exit()
-        # compose the dimensioning factor conversion function
+        # compose the dimensioning factor conversion function: the dimensioning factor is a time scale, so that it scales inversely with the frequency unit
+        _unit_fac = _req_fac(1.0)
         if is_angular:
             # the conversion factor needs to be in the correct cyclic frequency unit: therefore one needs to divide by the nr. of radians included in the angular frequency conversion factor
-            return lambda dim_fac: _req_fac(dim_fac) / (2.0 * np.pi)
-        else:
-            # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd)
-            return _req_fac
+            _unit_fac = _unit_fac / (2.0 * np.pi)
+        return lambda dim_fac: dim_fac / _unit_fac
-- 
2.43.0


From fc368cf8eec2e82935b9b12dae5175d65b112000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 27/72] fix: accept dimensionless nonadiabatic frequencies next
 to dimensional adiabatic ones

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..a1efd66 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1039,7 +1039,7 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(_m_dict_n, self._requested_units, no_exit=True)
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From df217388fd061adaa769b6896399b18afc6fbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 28/72] fix: compute meridional orders of triads other than the
 first three modes

---
 .../pre_checks/generic/generic_quadratic_checks.py       | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..0052b85 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -168,13 +168,10 @@ class PreCheckQuadratic:
         list[int]
             Meridional order list.
         """
-        # get the respective l and m lists
-        _l_list = self._l_list[lm_index]
-        _m_list = self._m_list[lm_index]
-        # return the meridional order list
+        # return the meridional order list (the l and m lists are those of the mode triplet itself)
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l, _m)
+            for _l, _m in zip(self._l_list[lm_index], self._m_list[lm_index])
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From 6b42fc58891b5f59a36b703bd7fc3bfff5358e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 29/72] fix: provide a default conjugation for each of the mode
 triads

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 0052b85..33d09b2 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
-- 
2.43.0


From 4fa6d7f08c1cf0a2f1215b35e50e42969abd56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 30/72] fix: give the azimuthal order its own sign in the
 gradients of Hough functions, as in those of mhr

---
 hough-func-tools/hough_function/hough_function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 1440ffa..f3c1245 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -603,9 +603,9 @@ class HoughFunction:
             and self.neg_mu_hp is not None
         ):
             # get positive mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            pos_mu_part = ((self._m * self._ht) - (self._mu * self._hp))[::-1]
+            pos_mu_part = (-(self._m * self._ht) - (self._mu * self._hp))[::-1]
             # get negative mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            neg_mu_part = (self._m * self.neg_mu_ht) - (
+            neg_mu_part = -(self._m * self.neg_mu_ht) - (
                 self.neg_mu * self.neg_mu_hp
             )
             return np.concatenate([neg_mu_part, pos_mu_part])
@@ -629,11 +629,11 @@ class HoughFunction:
         ):
             # get positive mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             pos_mu_part = (
-                ((self._mu * self._ht) - (self._m * self._hp)) / self._s
+                ((self._mu * self._ht) + (self._m * self._hp)) / self._s
             )[::-1]
             # get negative mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             neg_mu_part = (
-                (self.neg_mu * self.neg_mu_ht) - (self._m * self.neg_mu_hp)
+                (self.neg_mu * self.neg_mu_ht) + (self._m * self.neg_mu_hp)
             ) / self._s
             # return complete part
             return np.concatenate([neg_mu_part, pos_mu_part])
-- 
2.43.0


From 922b2a578d6f8dc268aa0ea7e82ebbb0f4b097fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 31/72] fix: subtract the Coriolis term from the mode energy,
 as the equation of motion requires

---
 .../quadratic_coupling_coefficient_rotating.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..8ff2a2e 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1391,8 +1391,8 @@ class QuadraticCouplingCoefficientRotating(CCR):
         my_corot = self._freq_handler.corot_mode_omegas[mode_nr - 1]
         # -- compute and store the complete normalization factor b_a assuming a time dependence of e^(-i*omega*t)
         b_a = (
-            _coriolis_norm
-            + (2.0 * my_corot * getattr(self, f'_classic_norm_mode_{mode_nr}'))
+            (2.0 * my_corot * getattr(self, f'_classic_norm_mode_{mode_nr}'))
+            - _coriolis_norm
         ) * _dimension_radial_prefactor  # create local variable
         setattr(self, f'_b_a_mode_{mode_nr}', b_a)  # store b_a
         # -- compute and store the oscillation mode energy
-- 
2.43.0


From 216ce92a812e5eaba6a1399feda9a09b722c711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 32/72] fix: change the sign of azimuthal Hough functions of
 modes that are conjugated in the coupling terms

---
 ...quadratic_coupling_coefficient_rotating.py | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 8ff2a2e..9548c06 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -436,6 +436,8 @@ class QuadraticCouplingCoefficientRotating(CCR):
         _norm_object()  # call and perform normalization
         # store the normalizing factors
         self._normalizing_factors_modes = _norm_object.normalizing_factors
+        # account for the complex conjugation of modes in the coupling terms
+        self._conjugate_houghs()
         # -- initialize the attribute that will hold the value of the coupling coefficient
         self._coupling_coefficient = None
         # -- initialize the attribute that will hold the coupling coefficient as a function of radius
@@ -628,6 +630,32 @@ class QuadraticCouplingCoefficientRotating(CCR):
             self._add_debug_attribute('_mu_values')
             self._add_debug_attribute('_theta_values')
 
+    # internal utility method that conjugates the Hough functions of complex conjugated modes
+    def _conjugate_houghs(self) -> None:
+        """Internal utility method that changes the sign of the Hough functions that are proportional to the azimuthal displacement (which is out of phase with the others) or to the azimuthal order, for those modes that are complex conjugated in the coupling terms.
+
+        Notes
+        -----
+        Should be called after the mode energies are computed.
+        """
+        # only conjugate the first mode if no tuple is passed
+        _conj = (
+            (True, False, False)
+            if isinstance(self._conj_cc, bool)
+            else self._conj_cc
+        )
+        for _i, _conjugated in enumerate(_conj, start=1):
+            if _conjugated:
+                for _attr in (
+                    'hp',
+                    'mhr',
+                    'theta_der_hp',
+                    'theta_der_hp_theta',
+                    'theta_phi',
+                ):
+                    _name = f'_{_attr}_mode_{_i}'
+                    setattr(self, _name, -getattr(self, _name))
+
     # internal utility method that performs the normalization of the Hough functions
     def _normalize_houghs(self, normalization_method: str = 'lee2012') -> None:
         """Internal utility method that normalizes the Hough functions (+ corresponding derivatives).
-- 
2.43.0


From b36311a0c333ba0a0de2149f81e836588e08d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 33/72] fix: use the gravitational constant and the central
 values of polytropes as they are stored

---
 .../super_coupling_coefficients.py                         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..26c12d0 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -68,7 +68,6 @@ class SuperCouplingCoefficient:
     _use_symbolic_derivative: bool
     _brunt_N2_profile: np.ndarray
     _use_complex: bool
-    _G_profile: np.ndarray
     _r_profile: np.ndarray
     _mr_profile: np.ndarray
     _rho_profile: np.ndarray
@@ -793,7 +792,7 @@ class SuperCouplingCoefficient:
                     or isinstance(_v, int)
                 ):
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1029,7 +1028,7 @@ class SuperCouplingCoefficient:
         # perform cuts prior to profile loading
         self._pre_profile_cuts()
         # compute the derivative of the Newtonian gravitational potential = integrated Poisson's equation = dPhi/dr = (G * M_r) / (r^2)
-        self._dgravpot = (self._G_profile * self._mr_profile) / (
+        self._dgravpot = (self._G * self._mr_profile) / (
             self._r_profile ** (2.0)
         )
         # initialize the numerical differentiator object suited for computing first-order derivatives
@@ -1083,7 +1082,7 @@ class SuperCouplingCoefficient:
         if self._use_symbolic_derivative:
             # Poisson's equation: d^2 Phi / dr^2 = 4 * Pi * G * rho - (2/r) * dPhi/dr
             self._dgravpot2 = (
-                4.0 * np.pi * self._G_profile * self._rho_profile
+                4.0 * np.pi * self._G * self._rho_profile
             ) - (self._dgravpot * (2.0 / self._r_profile))
             # derivative of Poisson's equation: d^3 Phi / dr^3 = 4 * Pi * G * drho/dr = 4.0 * np.pi * self._G * self._drho
             self._dgravpot3 = (4.0 * np.pi * self._G * self._drho) + (
-- 
2.43.0


From 34b0752d831a7608391bff4829805026cc8a2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 34/72] fix: interpolate analytic polytropic profiles onto the
 grid of the modes when these differ

---
 .../super_coupling_coefficients.py                 | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 26c12d0..e143e0e 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1206,16 +1206,12 @@ class SuperCouplingCoefficient:
             # get the attribute
             _my_att = my_dict.get(my_attr)
             # try interpolation to return GYRE-fitted attribute
-            if typing.TYPE_CHECKING:
-                assert isinstance(_my_att, np.ndarray)
-            if np.isnan(
-                my_interp := np.interp(
-                    self._x, radial_structure_profile, _my_att
-                )
-            ):  # if it is NaN, _my_att is None!
+            if _my_att is None:
                 return None
             else:
-                return my_interp
+                if typing.TYPE_CHECKING:
+                    assert isinstance(_my_att, np.ndarray)
+                return np.interp(self._x, radial_structure_profile, _my_att)
         else:
             # no interpolation necessary: directly return attribute
             my_att = my_dict.get(my_attr)
@@ -1238,7 +1234,7 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        _help_r = my_dict['r'] / my_dict['r'].max()
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From aeae6ffd7a49575dffe1e8c1e97e0102049777f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 35/72] fix: take the structure from the mode on whose grid the
 others are interpolated

---
 .../quadratic_coupling_coefficient_rotating.py              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 9548c06..6876c55 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -339,14 +339,16 @@ class QuadraticCouplingCoefficientRotating(CCR):
             store_debug=store_debug,
             analytic_polytrope=analytic_polytrope,
         )
-        # store the common attributes for all the modes
-        super()._extract_common_info_dictionary(my_dict=first_dict)
         # store the mode-dependent information stored in the information dictionaries as attributes
         dict_list: 'list[dict[str, Any]]' = [
             first_dict,
             second_dict,
             third_dict,
         ]
+        # store the common attributes for all the modes, on the radial grid to which modes are interpolated
+        super()._extract_common_info_dictionary(
+            my_dict=max(dict_list, key=lambda _dict: _dict['n'])
+        )
         for _i, _dict in enumerate(dict_list):
             super()._extract_mode_dependent_info_dictionary(
                 my_dict=_dict, mode_number=_i + 1
-- 
2.43.0


From 514aac7cfcf8c6d6c461d07aca33a6bcb9ebf94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 36/72] fix: apply the factors of angular and radial terms to
 coefficients of modes that couple to themselves

---
 .../quadratic_coupling_coefficient_rotating.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 6876c55..8a7073e 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1139,12 +1139,12 @@ class QuadraticCouplingCoefficientRotating(CCR):
             ):
                 _ang_integration_result = 0.0
                 # compute the angular integration result
-                for _ang_term, _div_by_sin_term in zip(
-                    angular_terms, div_by_sin
+                for _ang_term, _div_by_sin_term, _ang_fac in zip(
+                    angular_terms, div_by_sin, ang_factor
                 ):
                     if TYPE_CHECKING:
                         assert isinstance(_ang_term, list)
-                    _ang_integration_result += HI.quadratic_angular_integral(
+                    _ang_integration_result += _ang_fac * HI.quadratic_angular_integral(
                         my_obj=self,
                         m_list_for_azimuthal_check=self._m_list,
                         conj=self._conj_cc,
@@ -1162,7 +1162,9 @@ class QuadraticCouplingCoefficientRotating(CCR):
             else:
                 if TYPE_CHECKING:
                     assert isinstance(div_by_sin, bool)
-                _ang_integration_result = HI.quadratic_angular_integral(
+                _ang_integration_result = ang_factor[
+                    0
+                ] * HI.quadratic_angular_integral(
                     my_obj=self,
                     m_list_for_azimuthal_check=self._m_list,
                     conj=self._conj_cc,
@@ -1186,16 +1188,16 @@ class QuadraticCouplingCoefficientRotating(CCR):
                 if isinstance(radial_terms[0], list):
                     _rad_integration_result = 0.0
                     # compute the radial integration result
-                    for _rad_term in radial_terms:
+                    for _rad_term, _rad_fac in zip(radial_terms, rad_factor):
                         if TYPE_CHECKING:
                             assert isinstance(_rad_term, list)
-                        _rad_integration_result += self._rad_int(
+                        _rad_integration_result += _rad_fac * self._rad_int(
                             radial_terms=_rad_term,
                             indexer=rad_indexer,
                             multiplying_term=radial_multiplier,
                         )
                 else:
-                    _rad_integration_result = self._rad_int(
+                    _rad_integration_result = rad_factor[0] * self._rad_int(
                         radial_terms=radial_terms,  # type: ignore (I don't know how to convince pyright this is of the right type!)
                         indexer=rad_indexer,
                         multiplying_term=radial_multiplier,
-- 
2.43.0


From 0b51117e35ec23797d7b0dc7c2e013c069011217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 37/72] fix: differentiate complex-valued quantities without
 failing to log how

---
 .../super_coupling_coefficients.py                        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index e143e0e..0a4c301 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1381,7 +1381,7 @@ class SuperCouplingCoefficient:
                 x=x,
                 y=y.real,
                 kwargs_diff=kwargs_diff,
-                print_statement=False,
+                print_statement=print_statement,
             )
             # check if you want to compute complex derivatives
             if self._use_complex:
@@ -1413,14 +1413,14 @@ class SuperCouplingCoefficient:
                 num_der_list, _num_der_string = differentiator.differentiate(
                     x, y, **kwargs_diff
                 )
+            # log information if necessary (i.e. if verbose printing is enabled, and the logical "print_statement" input variable is True)
+            if print_statement:
+                logger.debug(_num_der_string)
         else:
             logger.error(
                 'Numerical derivation not implemented for other data types! Now exiting.'
             )
             sys.exit()
-        # log information if necessary (i.e. if verbose printing is enabled, and the logical "print_statement" input variable is True)
-        if print_statement:
-            logger.debug(_num_der_string)  # type: ignore
         # return the list containing numerical derivatives
         return num_der_list
 
-- 
2.43.0


From 26f0d5944f9c0c74bfdb3c5a0542ba62c9c6f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 38/72] fix: differentiate the density profile of polytropes
 rather than an attribute that they lack

---
 .../coefficient_support_classes/super_coupling_coefficients.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 0a4c301..5c8aeb8 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1053,7 +1053,7 @@ class SuperCouplingCoefficient:
                 _, self._drho = self._compute_der(
                     _grad,
                     x=self._r_profile,
-                    y=self._rho,
+                    y=self._rho_profile,
                     kwargs_diff=kwargs_diff,
                 )
         else:
-- 
2.43.0


From 5e429b24ddc613791b16d12f3ee7efe8c36140a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 39/72] fix: use limits for polytropic profiles that are
 indeterminate at the center

---
 .../poly_struct_comps.py                      | 59 +++++++++++++++----
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
index 8938ea3..80031ef 100644
--- a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
+++ b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
@@ -184,6 +184,25 @@ class PolytropicAdditionalStructureInformation:
             / (self._G * 4.0 * np.pi * (self._rho0**2.0))
         )
 
+    def _adjust_center(
+        self, profile: 'npt.NDArray[np.float64]', limit: float
+    ) -> 'npt.NDArray[np.float64]':
+        """Replaces the indeterminate value of a profile at the center of the polytrope (if it is on the grid) with its limit.
+
+        Parameters
+        ----------
+        profile : npt.NDArray[np.float64]
+            The profile that is indeterminate at the center.
+        limit : float
+            The limit of that profile at the center.
+
+        Returns
+        -------
+        npt.NDArray[np.float64]
+            The adjusted profile.
+        """
+        return np.where(self._z == 0.0, limit, profile)
+
     # method that computes several structure information arrays
     def _compute_additional_structure_info(self) -> None:
         """Computes several structure information arrays from polytropic structure file data."""
@@ -207,9 +226,13 @@ class PolytropicAdditionalStructureInformation:
 
     def _compute_dtheta_2(self) -> None:
         """Compute and store the second polytropic theta parameter z-derivative."""
-        self._dtheta2 = np.nan_to_num(
-            (-(self._theta**self._n)) - (2.0 / self._z) * self._dtheta
-        )
+        with np.errstate(divide='ignore', invalid='ignore'):
+            self._dtheta2 = self._adjust_center(
+                np.nan_to_num(
+                    (-(self._theta**self._n)) - (2.0 / self._z) * self._dtheta
+                ),
+                limit=-1.0 / 3.0,
+            )
 
     def _compute_dtheta_3(self) -> None:
         """Compute and store the third polytropic theta parameter z-derivative."""
@@ -476,9 +499,14 @@ class PolytropicAdditionalStructureInformation:
 
     def _compute_v_2(self) -> None:
         """Computes and stores the V_2 structure factor."""
-        self._v_2 = (
-            -1.0 * (self._n + 1.0) * self._dt_t_ratio * (self._z_s / self._x)
-        )
+        with np.errstate(divide='ignore', invalid='ignore'):
+            self._v_2 = self._adjust_center(
+                -1.0
+                * (self._n + 1.0)
+                * self._dt_t_ratio
+                * (self._z_s / self._x),
+                limit=(self._n + 1.0) * (self._z_s**2.0) / 3.0,
+            )
 
     def _compute_v(self) -> None:
         """Computes and stores the V structure factor."""
@@ -486,11 +514,18 @@ class PolytropicAdditionalStructureInformation:
 
     def _compute_u(self) -> None:
         """Computes and stores the U structure factor."""
-        self._u = -self._z * (self._theta**self._n) / self._dtheta
+        with np.errstate(divide='ignore', invalid='ignore'):
+            self._u = self._adjust_center(
+                -self._z * (self._theta**self._n) / self._dtheta, limit=3.0
+            )
 
     def _compute_c1(self) -> None:
         """Computes and stores the c1 structure factor."""
-        self._c1 = self._x / self._dt_ratio
+        with np.errstate(divide='ignore', invalid='ignore'):
+            self._c1 = self._adjust_center(
+                self._x / self._dt_ratio,
+                limit=3.0 * self._aux_s / (self._z_s**3.0),
+            )
 
     def _compute_as(self) -> None:
         """Computes and stores the As structure factor."""
@@ -510,6 +545,8 @@ class PolytropicAdditionalStructureInformation:
 
     def _compute_buoyancy_freq(self) -> None:
         """Computes the Brunt-Väisälä or buoyancy frequency."""
-        self._brunt_squared = (self._surf_grav * self._as) / (
-            self._x * self._radius
-        )
+        with np.errstate(divide='ignore', invalid='ignore'):
+            self._brunt_squared = self._adjust_center(
+                (self._surf_grav * self._as) / (self._x * self._radius),
+                limit=0.0,
+            )
-- 
2.43.0


From 1de416812045a8ee610d50c950620d5172593250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 40/72] fix: compare the suffix of structure files with the end
 of their name

---
 aesolver/aesolver/model_handling/subselection_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..772d442 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,7 +187,7 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
                 'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
             },
         )
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From 6651d4bda2063483b2f8df0b30bc3d06eec7ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 41/72] fix: exclude files for GYRE whose name starts with that
 word from the MESA profiles

---
 aesolver/aesolver/model_handling/subselection_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 772d442..2bc7f15 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -188,7 +188,7 @@ class MESAProfileSubSelector(SubSelectorFiles):
             },
             pattern_dictionary={
                 'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
-- 
2.43.0


From 760d040f06328ad66aaf66e08dd68ec4425885c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 42/72] fix: accept a single additional substring in the
 selection of structure files

---
 aesolver/aesolver/model_handling/subselection_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 2bc7f15..f5ad01f 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -129,6 +129,11 @@ class SubSelectorFiles:
             # no breaks: select this file whose name meets the conditions
             return True
 
+    @_verify_conditions.register
+    def _(self, additional_substrings: str, name: str) -> bool:
+        # a single additional substring
+        return self._verify_conditions((additional_substrings,), name)
+
     # internal utility method that verifies conditions for sub-selection
     def _conditional(
         self, conditional_element: list | tuple, element_key: str, name: str
-- 
2.43.0


From 175e55a24ab7dcf157336f74519d0b391c1d0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 43/72] fix: use absolute directory paths as they are if there
 is no base directory

---
 aesolver/aesolver/model_handling/load_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/load_models.py b/aesolver/aesolver/model_handling/load_models.py
index 505fd6e..fc64381 100644
--- a/aesolver/aesolver/model_handling/load_models.py
+++ b/aesolver/aesolver/model_handling/load_models.py
@@ -304,7 +304,7 @@ class ModelLoader:
         # choose the correct return option
         if subdir is None:
             return subdir
-        elif (self._base_dir is not None) and (not infer_subdir):
+        elif (self._base_dir is None) or (not infer_subdir):
             return subdir
         else:
             return f'{self._base_dir}{subdir}'
-- 
2.43.0


From 041e934f34fbccae3a32e66fc09d41f6a601e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 44/72] fix: infer the columns of MESA profiles from all zones

---
 aesolver/aesolver/model_handling/read_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..eebd011 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -7,6 +7,7 @@ import logging
 import os
 import h5py as h5
 import pandas as pd
+import sys
 from functools import reduce, partial
 from operator import itemgetter
 
@@ -140,7 +141,9 @@ class ModelReader:
         # initialize the data dictionary
         my_data = {}
         # open the MESA profile.dat file and read into a dataframe
-        _my_df = pd.read_fwf(file_path, skiprows=5)
+        _my_df = pd.read_fwf(
+            file_path, skiprows=5, infer_nrows=sys.maxsize
+        )
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
-- 
2.43.0


From 12c7f7c4a5904c1174924a693962ed159fed4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 45/72] fix: convert the units for lower-case names of the SI
 system as well

---
 .../model_handling/enumeration_files/enumeration_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
index 3806998..1477b23 100644
--- a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
+++ b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
@@ -79,7 +79,7 @@ class BaseFileInfo(Enum):
         # compile the dictionary containing the mappings of the values to the unit-converted values, and return it
         return {
             _key: cls._return_input
-            if (_my_action := _val.get(unit_system)) is None
+            if (_my_action := _val.get(unit_system.upper())) is None
             else partial(mul, _my_action)
             for _attr in cls.__members__
             for _key, _val in cls.__getitem__(_attr).value.items()
-- 
2.43.0


From 5ddfe9f3bdc9171cb378e5e67ec57f945891dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 46/72] fix: normalize surface perturbations with the
 normalization factors

---
 aesolver/aesolver/solver/quadratic_solver.py                  | 4 ++--
 .../aesolver/solver/solver_base_classes/quadratic_solver.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..aed485a 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From 79e9d3be6cbf54aa9d46b6ff96d1398e66d3305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 47/72] fix: save the Wu rule of a triad instead of its average
 radial order

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From 510591f8ed6381f5d4717fc5b6c0d82ae3bc3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 48/72] fix: add quantum numbers to save file names that
 contain other characters

---
 aesolver/aesolver/data_handling/data_specific/hdf5_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..982af3a 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -83,7 +83,7 @@ class HDF5Saver:
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
         # substitute this string into the file path name
         self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
+            r'(\.\w+)$', rf'{_qnr_string}\1', self._file_path
         )
 
     def _create_base_attribute(
-- 
2.43.0


From 53e8157a2c33636d18a3b804244445148e29b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 49/72] fix: save the results inside of the requested
 subdirectory

---
 aesolver/aesolver/data_handling/storer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..5e2612b 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -202,7 +202,7 @@ class NumericalSaver:
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f'{_sub_directory_name.rstrip("/")}/{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 8b1006c42d19e4c2275edac2a9afbedf4626bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 50/72] fix: pair radial orders of daughters with a different
 geometry in order

---
 .../mode_input_generator/input_generator.py   | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/mode_input_generator/input_generator.py b/aesolver/aesolver/mode_input_generator/input_generator.py
index fd8968b..c4e3c19 100644
--- a/aesolver/aesolver/mode_input_generator/input_generator.py
+++ b/aesolver/aesolver/mode_input_generator/input_generator.py
@@ -8,7 +8,11 @@ import statistics
 import numpy as np
 
 # from custom modules import combination computation objects
-from py_combinations import SingleSetCombos, SymmetricProductCombos
+from py_combinations import (
+    CartesianCombos,
+    SingleSetCombos,
+    SymmetricProductCombos,
+)
 
 
 # set up the logger
@@ -90,6 +94,22 @@ class AdNadModeInfoInputGenerator:
         list[tuple]
             Contains tuples of radial orders of second-order combinations of damped modes.
         """
+        # the order of the radial orders only matters if the damped modes have
+        # a different nonradial geometry: (n1, n2) and (n2, n1) are different triads
+        if (
+            len(
+                set(
+                    zip(
+                        np.atleast_1d(self.mode_l)[1:],
+                        np.atleast_1d(self.mode_m)[1:],
+                    )
+                )
+            )
+            > 1
+        ):
+            return CartesianCombos(
+                self._damped_rad_order_range_1, self._damped_rad_order_range_2
+            ).l
         # initialize the object
         my_object = SymmetricProductCombos(
             A=self._damped_rad_order_range_1,
-- 
2.43.0


From 4545a3c7cb7203e1870d20a35d86da9ad43d38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 51/72] fix: isolate a parent that takes part in a single triad

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..c665817 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # if there is only one triad for this parent, there is no competing triad
+        if len(_threshs) == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..f73079f 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # if there is only one triad for this parent, there is no competing triad
+        if len(_threshs) == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 2993e6bf5403bf0bf5ddc52420ac0fd154cedeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 52/72] fix: mark only the triad with the lowest threshold as
 isolated

---
 aesolver/ae_analyzer/library_functions/masking.py | 2 ++
 aesolver/aeplotter/library_functions/masking.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index c665817..05be730 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # the triad can only be isolated if that lowest threshold is its own threshold (two triads can share all of their modes, e.g. if the daughters of one of them are the same mode)
+    _all_same &= _valued_thresh == _lowest_thresh_surf[:, 0]
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index f73079f..7a61b71 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # the triad can only be isolated if that lowest threshold is its own threshold (two triads can share all of their modes, e.g. if the daughters of one of them are the same mode)
+    _all_same &= _valued_thresh == _lowest_thresh_surf[:, 0]
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
-- 
2.43.0


From c6238dc8adafc99cb0d305d8a2fde74692a74ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 53/72] fix: divide by the azimuthal order in rotation
 frequencies

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 10 +++++++---
 aesolver/aeplotter/quadratic_plotter.py               | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index 133a7c0..b6e2ed4 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -236,7 +236,9 @@ class QuadraticAEStationaryAnalyzer:
         self, og_shape: bool = True, additional_frequencies: bool = True
     ) -> None:
         # ASSUMES FREQUENCIES ARE STORED IN HZ --> TODO: generalize using frequency handler object!!!
-        for _dd in self._list_data_dict:
+        for _dd, _m_all in zip(self._list_data_dict, self._m):
+            # azimuthal orders of the modes (the same for all files of a model)
+            _m = np.atleast_2d(_m_all)[0]
             # corotating mode omegas
             _my_corot_omegas = _dd['corot_mode_omegas']
             # - parent modes
@@ -276,9 +278,11 @@ class QuadraticAEStationaryAnalyzer:
             )
             # compute and store the rotation frequency
             _my_inert_omegas = _dd['inert_mode_omegas']
+            # (by using a mode whose azimuthal order is not zero, if there is one)
+            _idx_m = int(np.argmax(np.not_equal(_m, 0)))
             _my_rotation_freqs = (_my_inert_omegas - _my_corot_omegas)[
-                :, 1
-            ]  # m is 1 for this daughter mode!
+                :, _idx_m
+            ] / (_m[_idx_m] if _m[_idx_m] != 0 else 1)
             _dd['rotation_freqs'] = _my_rotation_freqs
             _dd['rotation_freqs_muHz'] = hz_to_muhz(_my_rotation_freqs)
             _dd['rotation_freqs_cpd'] = hz_to_cpd(_my_rotation_freqs)
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..a88a0cf 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -320,7 +320,9 @@ class QuadraticAEPlotter:
         self, og_shape: bool = True, additional_frequencies: bool = True
     ) -> None:
         # ASSUMES FREQUENCIES ARE STORED IN HZ --> TODO: generalize using frequency handler object!!!
-        for _dd in self._list_data_dict:
+        for _dd, _m_all in zip(self._list_data_dict, self._m):
+            # azimuthal orders of the modes (the same for all files of a model)
+            _m = np.atleast_2d(_m_all)[0]
             # corotating mode omegas
             _my_corot_omegas = _dd['corot_mode_omegas']
             # - parent modes
@@ -360,9 +362,11 @@ class QuadraticAEPlotter:
             )
             # compute and store the rotation frequency
             _my_inert_omegas = _dd['inert_mode_omegas']
+            # (by using a mode whose azimuthal order is not zero, if there is one)
+            _idx_m = int(np.argmax(np.not_equal(_m, 0)))
             _my_rotation_freqs = (_my_inert_omegas - _my_corot_omegas)[
-                :, 1
-            ]  # m is 1 for this daughter mode!
+                :, _idx_m
+            ] / (_m[_idx_m] if _m[_idx_m] != 0 else 1)
             _dd['rotation_freqs'] = _my_rotation_freqs
             _dd['rotation_freqs_muHz'] = hz_to_muhz(_my_rotation_freqs)
             _dd['rotation_freqs_cpd'] = hz_to_cpd(_my_rotation_freqs)
-- 
2.43.0


From f3cce38ad07ad4899cfca94764104f18681da3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 54/72] fix: load models with one and several files in any
 order

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 6 ++++++
 aesolver/aeplotter/quadratic_plotter.py               | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index b6e2ed4..87113d1 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -150,6 +150,12 @@ class QuadraticAEStationaryAnalyzer:
     def _load_analysis_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # the type of the first entry selects this method: some of the other entries can still be lists of the files of a single model
+        if not all(isinstance(_n, str) for _n in my_file_name_or_names):
+            self._load_analysis_data(
+                [[_n] if isinstance(_n, str) else _n for _n in my_file_name_or_names]
+            )
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index a88a0cf..8eee6fc 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -234,6 +234,12 @@ class QuadraticAEPlotter:
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # the type of the first entry selects this method: some of the other entries can still be lists of the files of a single model
+        if not all(isinstance(_n, str) for _n in my_file_name_or_names):
+            self._load_sharpness_overview_data(
+                [[_n] if isinstance(_n, str) else _n for _n in my_file_name_or_names]
+            )
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
-- 
2.43.0


From 8822a25a1dbf71c2ae688254ff4524f590df4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 55/72] fix: mirror frequencies at the third Nyquist multiple
 to positive values

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 8eee6fc..5abbb27 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -771,7 +771,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From ba93724a139ae8e231da595f9261e9881a3b03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 56/72] fix: no profile figures for a triad that was refused

---
 aesolver/aesolver/solver/quadratic_profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..e2a9355 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -324,6 +324,9 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
         _ = self.compute_coupling_one_triad()
         # after loading the necessary information (e.g. the CC), compute the mode coupling coefficient profile
         self.compute_coupling_coefficient_profile()
+        # no coupler object is available if the triad was refused, so that there is no profile to show
+        if self._coupler is None:
+            return
 
         # compute the masking information related to the validity of the TAR
         (
-- 
2.43.0


From 4bd59af5f755f554be09a411b02025c1971f0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 57/72] fix: accept a TAR-valid star and uniform individual
 hierarchy checks

---
 aesolver/aesolver/solver/quadratic_profile.py | 27 ++++++-------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index e2a9355..b6e4d0c 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -170,32 +170,21 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
+            # the TAR is valid throughout the star, so that no zones need to be masked
+            if tar_valid.all():
+                return tar_valid, [], [np.s_[:]], [], False
             # find reason why there are no TAR validity zones and warn about this!
-            if (
-                (
-                    my_individual_uni := np.unique(tar_individual_freq_check)
-                ).shape[0]
-                == 1
-            ) & (
-                (my_rot_uni := np.unique(tar_rotation_check)).shape[0] != 1
-            ) and not my_individual_uni[0]:
+            _individual_somewhere = tar_individual_freq_check.any()
+            _rotation_somewhere = tar_rotation_check.any()
+            if _rotation_somewhere and not _individual_somewhere:
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
                 )
-            elif (
-                (my_individual_uni.shape[0] != 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
-            ):
+            elif _individual_somewhere and not _rotation_somewhere:
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the Coriolis frequency is not much smaller than any local Brunt-Väisälä frequency!'
                 )
-            elif (
-                (my_individual_uni.shape[0] == 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
-                and not my_individual_uni[0]
-            ):
+            elif not (_rotation_somewhere or _individual_somewhere):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, both the Coriolis frequency and the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
                 )
-- 
2.43.0


From 6d8debfa639601bc9bf936a12adecb9dc314f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 58/72] fix: subtract TAR-invalid contributions only from the
 zones above them

---
 .../plot_template.py                          | 78 +++++++++++--------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
index c8d8920..98caf4d 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
@@ -55,6 +55,32 @@ def get_contribution_due_to_convective_zone(
     return end_value - start_value
 
 
+def get_valid_zone_adjustments(
+    summed_contributions: np.ndarray,
+    convection_zone_selection_indices: 'list[tuple[int, int]] | list[tuple[Literal[0], int]]',
+) -> np.ndarray:
+    """Retrieves the amounts with which the profile values in the (consecutive) TAR-valid zones need to be adjusted.
+
+    Parameters
+    ----------
+    summed_contributions : np.ndarray
+        The cumulative contributions of the TAR-invalid zones.
+    convection_zone_selection_indices : list[tuple[int, int]] | list[tuple[Literal[0], int]]
+        The indices that delimit the TAR-invalid zones.
+
+    Returns
+    -------
+    np.ndarray
+        The sum of the contributions of the TAR-invalid zones that lie below each of the TAR-valid zones.
+    """
+    # no TAR-invalid zones lie below a TAR-valid core
+    if (len(convection_zone_selection_indices) == 0) or (
+        convection_zone_selection_indices[0][0] > 0
+    ):
+        return np.concatenate(([0.0], summed_contributions))
+    return np.asarray(summed_contributions)
+
+
 # single profile figure template function
 def single_integrated_radial_profile_figure_template_function(
     fractional_radius: np.ndarray,
@@ -236,21 +262,14 @@ def double_masking_integrated_radial_profile_figure_template_function(
             [y_ax[x[0]] for x in convection_zone_selection_indices]
             for y_ax in y_ax_data
         ]
-        # compute a y-profile that masks the core
-        _adjusted_core_profile = [np.zeros_like(y_ax) for y_ax in y_ax_data]
-        if not fully_invalid:
-            _core_contribution = [x[0] for x in _summed_contributions]
-            _core_mask = [
-                np.s_[convection_zone_selection_indices[0][1] + 1 :]
-                for _ in y_ax_data
-            ]
-            for _c_mask, _y_ax, _core_contrib, _adj_core in zip(
-                _core_mask,
-                y_ax_data,
-                _core_contribution,
-                _adjusted_core_profile,
-            ):
-                _adj_core[_c_mask] = _y_ax[_c_mask] - _core_contrib
+        # get the adjustments of the (integrated) y-axis data in the TAR-valid zones
+        _valid_adjustments = [
+            get_valid_zone_adjustments(
+                summed_contributions=_summed_contrib,
+                convection_zone_selection_indices=convection_zone_selection_indices,
+            )
+            for _summed_contrib in _summed_contributions
+        ]
         # compute a y-profile that masks all TAR-invalid zones (including the core!)
         _adjusted_tar_profile = [np.zeros_like(y_ax) for y_ax in y_ax_data]
         if not fully_invalid:
@@ -266,11 +285,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
                         )
                     else:
                         _adj_tar[_convection_mask] = _conv
-            for _y_ax, _adj_tar, _summed_contrib in zip(
-                y_ax_data, _adjusted_tar_profile, _summed_contributions
+            for _y_ax, _adj_tar, _adjustments in zip(
+                y_ax_data, _adjusted_tar_profile, _valid_adjustments
             ):
                 for _adjustment_value, _valid_mask in zip(
-                    _summed_contrib, validity_zone_masks
+                    _adjustments, validity_zone_masks
                 ):
                     _adj_tar[_valid_mask] = (
                         _y_ax[_valid_mask] - _adjustment_value
@@ -322,10 +341,8 @@ def double_masking_integrated_radial_profile_figure_template_function(
         return (
             [y_ax[-1] for y_ax in y_ax_data],
             [
-                y_ax[-1] - _summed_contrib[-1]
-                for y_ax, _summed_contrib in zip(
-                    y_ax_data, _summed_contributions
-                )
+                y_ax[-1] - _adjustments[-1]
+                for y_ax, _adjustments in zip(y_ax_data, _valid_adjustments)
             ],
             coupling_fig,
             contributions,
@@ -346,14 +363,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
         _y_invalid = [
             y_ax_data[x[0]] for x in convection_zone_selection_indices
         ]
-        # compute a y-profile that masks the core
-        _adjusted_core_profile = np.zeros_like(y_ax_data)
-        if not fully_invalid:
-            _core_contribution = _summed_contributions[0]
-            _core_mask = np.s_[convection_zone_selection_indices[0][1] + 1 :]
-            _adjusted_core_profile[_core_mask] = (
-                y_ax_data[_core_mask] - _core_contribution
-            )
+        # get the adjustments of the (integrated) y-axis data in the TAR-valid zones
+        _valid_adjustments = get_valid_zone_adjustments(
+            summed_contributions=_summed_contributions,
+            convection_zone_selection_indices=convection_zone_selection_indices,
+        )
         # compute a y-profile that masks all TAR-invalid zones (including the core!)
         _adjusted_tar_profile = np.zeros_like(y_ax_data)
         if not fully_invalid:
@@ -367,7 +381,7 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 else:
                     _adjusted_tar_profile[_convection_mask] = _conv
             for _adjustment_value, _valid_mask in zip(
-                _summed_contributions, validity_zone_masks
+                _valid_adjustments, validity_zone_masks
             ):
                 _adjusted_tar_profile[_valid_mask] = (
                     y_ax_data[_valid_mask] - _adjustment_value
@@ -414,7 +428,7 @@ def double_masking_integrated_radial_profile_figure_template_function(
         # return the adjusted integrated y-term value
         return (
             y_ax_data[-1],
-            y_ax_data[-1] - _summed_contributions[-1],
+            y_ax_data[-1] - _valid_adjustments[-1],
             coupling_fig,
             contributions,
         )
-- 
2.43.0


From 9962b52675f1a6da6a624018296b1de2a49e630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 59/72] fix: scale amplitudes with the absolute coupling
 coefficient ratio

---
 .../coupling_coefficient_print_functions.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
index 4a46f07..d14f8aa 100644
--- a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
+++ b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
@@ -23,8 +23,8 @@ def print_normed_cc_and_get_adjust_ratio(cc_val: float | np.float64, adjusted_cc
     print(
         f'Normed coupling coefficient eta: {cc_val}, after adjustment for TAR validity: {adjusted_cc_val}'
     )
-    # compute and return the adjustment ratio
-    return adjusted_cc_val / cc_val
+    # compute and return the adjustment ratio (amplitudes scale with the absolute value of the coupling coefficient)
+    return np.abs(adjusted_cc_val / cc_val)
 
 
 def print_theoretical_amplitudes(
-- 
2.43.0


From f916cb56d19f1492d3a3ecddf9a173f8f2edeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 60/72] fix: scale the angular kernels in place

---
 .../angular_kernels/angular_kernel_helper.py        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..87bf741 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -193,17 +193,14 @@ class AngularKernelData:
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                my_kernel *= multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                my_kernel *= multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
-                    my_kernel * multiplying_factor * self._div_by_sin_scaling
-                )
+                my_kernel *= multiplying_factor * self._div_by_sin_scaling
             case (True, True):
-                my_kernel = (
-                    my_kernel
-                    * multiplying_factor
+                my_kernel *= (
+                    multiplying_factor
                     * self._mu_vals
                     * self._div_by_sin_scaling
                 )
-- 
2.43.0


From 3efbe660553a696b0c90f5092678b5372605c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 61/72] fix: kernels of two horizontal derivatives are not
 divided by the sine

---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 87bf741..dca9f38 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -466,7 +466,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -475,7 +475,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From 7edde3efa4e0f77207c3e14bb6b09a342d4a38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 62/72] fix: frequency conversion factor of non-rotating models

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index a1efd66..218d0f7 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -49,6 +49,7 @@ class FrequencyHandler:
     _om_req: bool
     _rps_rot_freq: float
     _rot_freq: float
+    _rps_conv_factor: float
     _corot_mode_freqs: np.ndarray
     _inert_mode_freqs: np.ndarray
     _corot_mode_omegas: np.ndarray
@@ -240,7 +241,7 @@ class FrequencyHandler:
                 requested_frequency_unit=self._requested_units
             )
         # return the angular version of the conversion factor
-        conv_factor = self._rot_freq / self._rps_rot_freq
+        conv_factor = self._rps_conv_factor
         if my_angular:
             return conv_factor
         else:
@@ -825,6 +826,11 @@ class FrequencyHandler:
             )
         # convert to requested units and store
         self._rot_freq = _cff(self._rps_rot_freq)
+        # store the conversion factor, which also needs to be defined for non-rotating models
+        if self._rps_rot_freq == 0.0:
+            self._rps_conv_factor = _cff(1.0)
+        else:
+            self._rps_conv_factor = self._rot_freq / self._rps_rot_freq
 
     # retrieve omega/freq conversion functions
     def _retrieve_omega_freq_conversion_functions(self) -> None:
-- 
2.43.0


From f638765686f1cf0a43df17647ac2f9fed295a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:39 +0000
Subject: [PATCH 63/72] fix: strings of inlists keep quotation marks at their
 ends

---
 util-tools/inlist_handler/inlist_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index 28a4c76..ae9bfd5 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -110,7 +110,12 @@ class InlistHandler:
                 logger.debug(f'{value_string} is considered a list of strings.')
                 typed_value = ast.literal_eval(value_string)
             else:
-                _de_quoted_string = value_string.strip('"').strip("'")
+                # remove the enclosing quotes only
+                _de_quoted_string = (
+                    value_string[1:-1]
+                    if re.fullmatch(r'(["\']).*\1', value_string, re.DOTALL)
+                    else value_string.strip('"').strip("'")
+                )
                 logger.debug(
                     f'{value_string} is considered a string, so is replaced '
                     f'with {_de_quoted_string}.'
-- 
2.43.0


From 7cefe05b775b6403c1a2e6e467d8eb38ba7689d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 64/72] fix: compare None and complex values of tests

---
 pytest-util-tools/pytest_util_functions/comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytest-util-tools/pytest_util_functions/comparison.py b/pytest-util-tools/pytest_util_functions/comparison.py
index e1832b6..275876f 100644
--- a/pytest-util-tools/pytest_util_functions/comparison.py
+++ b/pytest-util-tools/pytest_util_functions/comparison.py
@@ -52,7 +52,7 @@ def value_comparison(first: typing.Any, second: typing.Any) -> bool:
                         value_check *= (
                             _i.__code__.co_code == _j.__code__.co_code
                         )
-                except AttributeError:
+                except (AttributeError, TypeError):
                     # lists or None type objects
                     # --> direct comparison
                     value_check *= first == second
-- 
2.43.0


From a7b43a8af874e48b767bfc7f899baf50a580eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 65/72] fix: lengths of zero are checked by the test helper

---
 pytest-util-tools/pytest_util_functions/assertion_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytest-util-tools/pytest_util_functions/assertion_checker.py b/pytest-util-tools/pytest_util_functions/assertion_checker.py
index ee89380..e30ca28 100644
--- a/pytest-util-tools/pytest_util_functions/assertion_checker.py
+++ b/pytest-util-tools/pytest_util_functions/assertion_checker.py
@@ -33,12 +33,12 @@ def check_assertions(
     if top_type:
         assert isinstance(my_val, top_type)
     # check if we need to check value length
-    if top_length:
+    if top_length is not None:
         assert len(my_val) == top_length
     # check if we need to check element type or element_length
     if (element_type is not None) or (element_length is not None):
         for my_el in my_val:
             if element_type:
                 assert isinstance(my_el, element_type)
-            if element_length:
+            if element_length is not None:
                 assert len(my_el) == element_length
-- 
2.43.0


From 2c0d5a2f862e9f4e8a5f3c8191becd10a171ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 66/72] fix: functions with other constants are not equal for
 the tests

---
 .../pytest_util_functions/comparison.py       | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pytest-util-tools/pytest_util_functions/comparison.py b/pytest-util-tools/pytest_util_functions/comparison.py
index 275876f..b7c5dee 100644
--- a/pytest-util-tools/pytest_util_functions/comparison.py
+++ b/pytest-util-tools/pytest_util_functions/comparison.py
@@ -10,6 +10,29 @@ import traceback
 import logging
 
 
+def _same_function_code(first: typing.Any, second: typing.Any) -> bool:
+    """Returns whether two functions execute the same operations using the same constants and names.
+
+    Parameters
+    ----------
+    first : typing.Any
+        The first function.
+    second : typing.Any
+        The second function.
+
+    Returns
+    -------
+    bool
+        Whether the code of both functions is the same.
+    """
+    _code1, _code2 = first.__code__, second.__code__
+    return (
+        _code1.co_code == _code2.co_code
+        and _code1.co_consts == _code2.co_consts
+        and _code1.co_names == _code2.co_names
+    )
+
+
 def value_comparison(first: typing.Any, second: typing.Any) -> bool:
     """Returns whether two values (of any type) are equal to each other.
 
@@ -43,15 +66,13 @@ def value_comparison(first: typing.Any, second: typing.Any) -> bool:
         except TypeError:
             try:
                 # lambda (or regular?) functions
-                value_check *= first.__code__.co_code == second.__code__.co_code
+                value_check *= _same_function_code(first, second)
             except AttributeError:
                 try:
                     # lists of lambda (or regular functions)
                     value_check *= len(first) == len(second)
                     for _i, _j in zip(first, second):
-                        value_check *= (
-                            _i.__code__.co_code == _j.__code__.co_code
-                        )
+                        value_check *= _same_function_code(_i, _j)
                 except (AttributeError, TypeError):
                     # lists or None type objects
                     # --> direct comparison
-- 
2.43.0


From 61ca586b737ece0389ca0fcd799d879132799605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:21 +0000
Subject: [PATCH 67/72] fix: arrays of other sizes are not equal for the tests

---
 pytest-util-tools/pytest_util_functions/comparison.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytest-util-tools/pytest_util_functions/comparison.py b/pytest-util-tools/pytest_util_functions/comparison.py
index b7c5dee..16250f6 100644
--- a/pytest-util-tools/pytest_util_functions/comparison.py
+++ b/pytest-util-tools/pytest_util_functions/comparison.py
@@ -54,6 +54,8 @@ def value_comparison(first: typing.Any, second: typing.Any) -> bool:
     try:
         # numpy arrays have a dtype
         value_check *= first.dtype == second.dtype
+        # and a number of elements (allclose broadcasts)
+        value_check *= first.size == second.size
         # numpy arrays need to be checked with a allclose method
         value_check *= np.allclose(first, second)
     except AttributeError:
@@ -76,7 +78,9 @@ def value_comparison(first: typing.Any, second: typing.Any) -> bool:
                 except (AttributeError, TypeError):
                     # lists or None type objects
                     # --> direct comparison
-                    value_check *= first == second
+                    value_check *= type(first) == type(second) and (
+                        first == second
+                    )
                 except Exception:  # CATCH ALL OTHER
                     logging.error(traceback.format_exc())
                     value_check = False
-- 
2.43.0


From e7a1eb1ce7eae00f5e39cf2c8479d90edef1d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:33 +0000
Subject: [PATCH 68/72] fix: values of expected test output can be replaced

---
 .../pytest_util_classes/data_classes/data_object.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytest-util-tools/pytest_util_classes/data_classes/data_object.py b/pytest-util-tools/pytest_util_classes/data_classes/data_object.py
index 5c22d07..8812cf8 100644
--- a/pytest-util-tools/pytest_util_classes/data_classes/data_object.py
+++ b/pytest-util-tools/pytest_util_classes/data_classes/data_object.py
@@ -57,11 +57,11 @@ class InputInformationForTests:
         """
         return self.expected_output_dictionary
 
-    @get_output_dictionary.register(str, int)  # type: ignore
-    @get_output_dictionary.register(str, float)  # type: ignore
-    @get_output_dictionary.register(str, list)  # type: ignore
-    @get_output_dictionary.register(str, np.ndarray)  # type: ignore
-    @get_output_dictionary.register(str, str)  # type: ignore
+    @get_output_dictionary.register(object, str, int)  # type: ignore
+    @get_output_dictionary.register(object, str, float)  # type: ignore
+    @get_output_dictionary.register(object, str, list)  # type: ignore
+    @get_output_dictionary.register(object, str, np.ndarray)  # type: ignore
+    @get_output_dictionary.register(object, str, str)  # type: ignore
     def _(
         self, mykey: str, myval: int | float | list | np.ndarray | list
     ) -> dict:
-- 
2.43.0


From 271d0aa6a785691a76c985e9f0ef4c56d9a02a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:33 +0000
Subject: [PATCH 69/72] fix: empty values of other types are not equal for the
 tests

---
 pytest-util-tools/pytest_util_functions/comparison.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytest-util-tools/pytest_util_functions/comparison.py b/pytest-util-tools/pytest_util_functions/comparison.py
index 16250f6..7c702b8 100644
--- a/pytest-util-tools/pytest_util_functions/comparison.py
+++ b/pytest-util-tools/pytest_util_functions/comparison.py
@@ -73,6 +73,7 @@ def value_comparison(first: typing.Any, second: typing.Any) -> bool:
                 try:
                     # lists of lambda (or regular functions)
                     value_check *= len(first) == len(second)
+                    value_check *= type(first) == type(second)
                     for _i, _j in zip(first, second):
                         value_check *= _same_function_code(_i, _j)
                 except (AttributeError, TypeError):
-- 
2.43.0


From 141238e1dbae6a64dad7894392504bb873967dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:10 +0000
Subject: [PATCH 70/72] fix: name the loaded dimensionless angular frequencies
 after their data set

The mappings to the saved arrays called the data set of the dimensionless
angular frequencies 'inert_dimless_mode_freqs', so that the ratio to the
angular frequencies, which needs 'inert_dimless_mode_omegas', was never
computed.
---
 aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py | 4 ++--
 aesolver/aeplotter/data_files/hdf5_data_path_mapper.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py b/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
index d6e3cb8..b51a2fe 100644
--- a/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
+++ b/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
@@ -27,7 +27,7 @@ if TYPE_CHECKING:
         corot_mode_freqs: tuple[str, str]
         inert_mode_omegas: tuple[str, str]
         inert_mode_freqs: tuple[str, str]
-        inert_dimless_mode_freqs: tuple[str, str]
+        inert_dimless_mode_omegas: tuple[str, str]
         kappa: tuple[str, str]
         kappa_norm: tuple[str, str]
         stationary_relative_luminosity_phase: tuple[str, str]
@@ -102,7 +102,7 @@ class HDF5MappingsArrays:
         'mode_frequency_info/inert_mode_freqs',
         '',
     )
-    inert_dimless_mode_freqs: tuple[str, str] = (
+    inert_dimless_mode_omegas: tuple[str, str] = (
         'mode_frequency_info/inert_dimless_mode_omegas',
         '',
     )
diff --git a/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py b/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
index d6b5972..8a4d97a 100644
--- a/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
+++ b/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
@@ -29,7 +29,7 @@ if TYPE_CHECKING:
         corot_mode_freqs: tuple[str, str]
         inert_mode_omegas: tuple[str, str]
         inert_mode_freqs: tuple[str, str]
-        inert_dimless_mode_freqs: tuple[str, str]
+        inert_dimless_mode_omegas: tuple[str, str]
         kappa: tuple[str, str]
         kappa_norm: tuple[str, str]
         stationary_relative_luminosity_phase: tuple[str, str]
@@ -104,7 +104,7 @@ class HDF5MappingsArrays:
         'mode_frequency_info/inert_mode_freqs',
         '',
     )
-    inert_dimless_mode_freqs: tuple[str, str] = (
+    inert_dimless_mode_omegas: tuple[str, str] = (
         'mode_frequency_info/inert_dimless_mode_omegas',
         '',
     )
-- 
2.43.0


From 70369ac25c86a422f957c572873fbebbb4b3e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 71/72] fix: do not broadcast overwriting values to the shape
 of earlier data

When a data set of an existing file was overwritten with values of the same
type but another shape that could be broadcast, the old shape was kept (or
the values were lost, if it was empty); empty values were stored as strings
in data sets of strings and as True in boolean ones.
---
 .../data_specific/hdf5_specific/overwrite_dataset.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
index 0be167d..1adbd26 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
@@ -34,10 +34,11 @@ def overwrite_dataset(
     try:
         # obtain the previous data
         _previous_data = h5file_stream[dataset_path]
-        # overwrite for empty data or when data types are the same
+        # overwrite when data types and shapes are the same (values of another shape might be broadcast)
         if (is_ds := isinstance(_previous_data, h5.Dataset)) and (
-            isinstance(overwrite_value, h5.Empty)
-            or (_previous_data.dtype == overwrite_value.dtype)
+            not isinstance(overwrite_value, h5.Empty)
+            and (_previous_data.dtype == overwrite_value.dtype)
+            and (_previous_data.shape == overwrite_value.shape)
         ):
             # overwrite it
             _previous_data[...] = overwrite_value
-- 
2.43.0


From e36cc48b3d8e91209cb6e7a640569448fb2f44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:04 +0000
Subject: [PATCH 72/72] fix: numexpr binning counts values just below the
 lowest bin as below it

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 83944f9..46e0ffd 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -263,7 +263,7 @@ def _numexpr_binning(
     """
     if my_data_min is None:
         float_result = numexpr.evaluate(
-            '((d - d_min)/bw) - bp',
+            'floor(((d - d_min)/bw) - bp)',
             {
                 'd': my_data,
                 'd_min': my_data.min(),
@@ -273,7 +273,7 @@ def _numexpr_binning(
         )
     else:
         float_result = numexpr.evaluate(
-            '((d - d_min)/bw) - bp',
+            'floor(((d - d_min)/bw) - bp)',
             {
                 'd': my_data,
                 'd_min': my_data_min,
-- 
2.43.0

