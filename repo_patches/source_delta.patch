From 0bbd87a72e60f404ccbe75ae89722df24af95831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 01/54] fix: decimal strings of mpf values (mpf has no
 to_eng_string)

---
 decimal_hashtable.py |  3 ++-
 enum_params.py       |  6 +++---
 lhs_evaluators.py    |  4 ++--
 utils.py             | 13 +++++++++++++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..99e38f7 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -5,6 +5,7 @@
 
 # from decimal import Decimal as dec
 from mpmath import mpf as dec
+from utils import dec_to_str
 
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
@@ -28,7 +29,7 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            key_str = dec_to_str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
diff --git a/enum_params.py b/enum_params.py
index 43cfc37..1b3c7cc 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -19,7 +19,7 @@ import numpy
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
-from utils import MathOperations, grouper
+from utils import MathOperations, dec_to_str, grouper
 
 # from lhs_evaluators import ULCDEnumerator, ULCDEvaluator, RationalFuncEnumerator, RationalFuncEvaluator
 # converts #
@@ -475,7 +475,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    dec_to_str(postproc_res), dec_to_str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
@@ -505,5 +505,5 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        return dec_to_str(d1)[:accuracy+1] == dec_to_str(d2)[:accuracy+1]
 
diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..4d88f1f 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -6,7 +6,7 @@ from functools import reduce
 import operator
 import sympy
 from postprocfuncs import INVERSE_POSTPROC_PAIRS
-from utils import MathOperations
+from utils import MathOperations, dec_to_str
 
 
 x_sym = sympy.symbols('x')
@@ -37,7 +37,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), dec_to_str(self.val))
 
     def __repr__(self):
         return self.__str__()
diff --git a/utils.py b/utils.py
index 785abe4..5054c28 100644
--- a/utils.py
+++ b/utils.py
@@ -2,7 +2,9 @@
 
 import time
 import sys
+from decimal import Decimal
 from itertools import zip_longest
+import mpmath
 
 class MeasureRuntime():
     """"Stopper" class for timing execution. Example:
@@ -169,6 +171,17 @@ class ProgressBar(enumerate):
         return days, hours, minutes, seconds
 
 
+def dec_to_str(d):
+    """Returns the plain positional decimal expansion of d (no exponent), with all the digits of the current working
+    precision. Supports both mpf and Decimal."""
+    if isinstance(d, Decimal):
+        return format(d, 'f')
+    if d == 0:
+        return '0.' + '0' * mpmath.mp.dps
+    return mpmath.nstr(mpmath.mpmathify(d), mpmath.mp.dps, strip_zeros=False,
+                       min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
+
+
 def grouper(iterable, n, fillvalue=None):
     "Collect data into fixed-length chunks or blocks"
     # grouper('ABCDEFG', 3, 'x') --> ABC DEF Gxx"
-- 
2.43.0


From 9f5257c41e61313ce5100897530fd81cbd781118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 02/54] fix: rational function left-hand sides work on mpf
 constants

---
 lhs_evaluators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 4d88f1f..572c77b 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -1,6 +1,6 @@
 """Implementation of enumeration over different LHS types, functions to be applied on the target constant."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, isnormal
 import itertools
 from functools import reduce
 import operator
@@ -307,7 +307,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +552,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
-- 
2.43.0


From 109490376807283501d9c74ca4402e4a3633a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 03/54] fix: post-processing functions work on mpf values

---
 postprocfuncs.py | 86 +++++++++++++++++-------------------------------
 1 file changed, 31 insertions(+), 55 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..23fd193 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,63 +1,39 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
+import mpmath
+from mpmath import mpf as dec
 
 def dec_cos(x):
-    """Return the cosine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(cos(Decimal('0.5')))
-    0.8775825618903727161162815826
-    >>> print(cos(0.5))
-    0.87758256189
-    >>> print(cos(0.5+0j))
-    (0.87758256189+0j)
-
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+    """Return the cosine of x as measured in radians."""
+    return mpmath.cos(x)
 
 def dec_sin(x):
-    """Return the sine of x as measured in radians.
+    """Return the sine of x as measured in radians."""
+    return mpmath.sin(x)
+
+def dec_tan(x):
+    """Return the tangent of x as measured in radians."""
+    return mpmath.tan(x)
 
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
+def dec_cot(x):
+    """Return the cotangent of x as measured in radians. Infinity if x is zero."""
+    return safe_inverse(mpmath.tan(x))
 
-    >>> print(sin(Decimal('0.5')))
-    0.4794255386042030002732879352
-    >>> print(sin(0.5))
-    0.479425538604
-    >>> print(sin(0.5+0j))
-    (0.479425538604+0j)
+def dec_exp(x):
+    """Return e raised to the power of x."""
+    return mpmath.exp(x)
 
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+def dec_ln(x):
+    """Return the natural logarithm of x if x >= 0, otherwise returns NaN"""
+    if x < 0:
+        return dec('NaN')
+    else:
+        return mpmath.ln(x)
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
@@ -92,10 +68,10 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -134,10 +110,10 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From a7f209fbbfd015d437e4db4f85ca7d0d7751c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 04/54] fix: deleting a key of the decimal hashtable deletes it

---
 decimal_hashtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 99e38f7..07376d7 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -52,7 +52,7 @@ class DecimalHashTable(dict):
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
-- 
2.43.0


From d0c18c22014a856e66ed30f52d1c15626f05b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 05/54] fix: decimal hashtable get/setdefault truncate their
 keys like the other accesses

---
 decimal_hashtable.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 07376d7..4b12d4d 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -61,6 +61,16 @@ class DecimalHashTable(dict):
                 return True
         return super().__contains__(cur_key)
 
+    def get(self, key, default=None):
+        """As dict.get, with the key treated as in self[key] (dict.get doesn't use __getitem__)."""
+        return self[key] if key in self else default
+
+    def setdefault(self, key, default=None):
+        """As dict.setdefault, with the key treated as in self[key] (dict.setdefault doesn't use __setitem__)."""
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __getstate__(self):
         """Used by pickle for serializing."""
         return (self.accuracy, self.accuracy_history, dict(self))
-- 
2.43.0


From cf2c90eaab20580b26002df415fcc74b843a9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 06/54] fix: named entries of the decimal hashtable are not
 truncated

---
 decimal_hashtable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 4b12d4d..0ce4123 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -28,6 +28,11 @@ class DecimalHashTable(dict):
             raise TypeError('Only Decimal is supported')
         if isinstance(key, str):
             key_str = key
+            try:
+                dec(key_str)
+            except ValueError:
+                # a named entry (e.g. 'parameters'), which is never truncated
+                return [], key_str
         else:
             key_str = dec_to_str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
-- 
2.43.0


From 4444b8769215b4b13b73361629f66318b46d8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 07/54] fix: factoring out x^n keeps the coefficients behind an
 inner zero

---
 enum_poly_params.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..7c4f874 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -182,7 +182,10 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        poly = list(itertools.dropwhile(lambda x: x == 0, poly))
+        while poly and poly[-1] == 0:
+            poly.pop()
+        return poly
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From 7ff446545f3f8964c6a6a6f6252076b390e86830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 08/54] fix: integer roots of quadratic b polynomials

---
 enum_poly_params.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 7c4f874..09bb4d3 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -8,6 +8,7 @@ import cont_fracs
 from mpmath import mpf as dec, isint
 from mpmath import isint
 import mpmath
+from utils import MathOperations
 from scipy.special import binom
 
 def set_precision(prec):
@@ -160,11 +161,10 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
             if discrim < 0:
                 return False
             discrim **= 0.5
-            ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
-                return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
-                return True
+            # rounded to the closest integer and substituted back, for an exact test
+            for root in [(discrim - poly[1])/(2*poly[2]), (-discrim - poly[1])/(2*poly[2])]:
+                if MathOperations.subs_in_polynom(poly, int(round(root))) == 0:
+                    return True
 
         return False
 
-- 
2.43.0


From 475aa9e047b48642711077ac60cfbe3896a8fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 09/54] fix: announced length of interlaced sparse polynomials

---
 enum_poly_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 09bb4d3..93098fd 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -244,8 +244,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
+        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) ** len(range_a) *
+                                                            binom(self.n_b, len(range_b[0])) ** len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From 9d4e1c1657083c4ea6b40206ad8e8ab4a3a18bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 10/54] fix: ContFrac.get_p_q returns the latest convergent,
 not the one before it

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..3fcd617 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -151,7 +151,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def get_p_q(self):
         """Returns the latest numerator and denominator of the representation of the partial contfrac = p/q"""
         p_vec, q_vec = self.iter_matrices[-1]
-        return p_vec[-1], q_vec[-1]
+        return p_vec[0], q_vec[0]
 
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
-- 
2.43.0


From a30628651db6467d72121d74432feb6f80a6006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 11/54] fix: NameError in ContFrac.is_result_valid

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 3fcd617..cf1d1c0 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
-- 
2.43.0


From 61cb0687c6de4a61bb69ee1e95b05390655ae52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 12/54] fix: eval_contfrac with an omitted additive constant

---
 cont_fracs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index cf1d1c0..5c34cc1 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -386,12 +386,11 @@ def eval_contfrac(a, b=None):
     if b is None:
         b = [1] * (len(a)-1)
     if len(a) == len(b):
-        res = 1
-    elif len(a) == len(b) + 1:
-        res = a[-1]
-        a = a[:-1]
-    else:
+        a = [0] + list(a)
+    elif len(a) != len(b) + 1:
         raise ValueError('different lengths for a and b')
+    res = a[-1]
+    a = a[:-1]
 
     for a_val, b_val in zip(reversed(a), reversed(b)):
         res = a_val + b_val / res
-- 
2.43.0


From 9b6d277ad2ad263ab31d8c24792220ec4912efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 13/54] fix: number of iterations for a required accuracy on
 mpf values

---
 basic_representation_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..9fae442 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+import mpmath
 
 
 class BasicRecursiveConstRepresenter:
@@ -138,7 +139,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(mpmath.log(accuracy / power_base) / mpmath.log(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From c4aa6f8120d4a0da94fa47aceec3813ba7a83565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 14/54] fix: the convergence coefficient counts in the
 iterations a required accuracy takes

---
 basic_representation_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 9fae442..382377a 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -139,8 +139,9 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs(mpmath.log(accuracy / power_base) / mpmath.log(power_base)))
-            num_of_iters = min(num_of_iters, required_num_of_iters)
+            # the error after n iterations is coeff / power_base**n
+            required_num_of_iters = math.ceil(mpmath.log(coeff / accuracy) / mpmath.log(power_base))
+            num_of_iters = min(num_of_iters, max(required_num_of_iters, 0))
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
     def add_iterations(self, num_of_iters, iteration_algorithm=None, exec_finalize=True, print_calc=False):
-- 
2.43.0


From ea8d2472b035bb9725ad58fd47b325af01d6cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 15/54] fix: failed iterations leave a logging representation
 as it was

---
 basic_representation_types.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 382377a..8822410 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -58,13 +58,16 @@ class BasicRecursiveConstRepresenter:
         state_mat = self.iter_matrices[-1]
         if print_calc:
             self._print_calc_0_depth()
+        # logged here until all the iterations succeed
+        new_params_log = {p : [] for p in params}
+        new_iter_matrices = []
         for i in range(num_of_iters):
             # try:
             params, state_mat = iteration_algorithm(params, state_mat, i + self.num_of_executed_iters, print_calc)
             if self._logging:
                 for p in params:
-                    self._params_log[p].append(params[p])
-                self.iter_matrices.append(state_mat)
+                    new_params_log[p].append(params[p])
+                new_iter_matrices.append(state_mat)
                 # except self.SufficientAccuracy:
                 #     break
         if hasattr(self, 'finalize_iterations') and exec_finalize:
@@ -72,7 +75,11 @@ class BasicRecursiveConstRepresenter:
         if print_calc:
             print('\n', end='')
 
-        if not self._logging:
+        if self._logging:
+            for p in new_params_log:
+                self._params_log[p] += new_params_log[p]
+            self.iter_matrices += new_iter_matrices
+        else:
             for p in params:
                 self._params_log[p] = [params[p]]
             self.iter_matrices = [state_mat]
-- 
2.43.0


From 18e2c8a2052283ecac6ac3d7e7faec40064856df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 16/54] fix: reinitializing a representation discards the
 iterations of the old one

---
 basic_representation_types.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 8822410..a6fc21b 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -38,15 +38,20 @@ class BasicRecursiveConstRepresenter:
         if first_iter_matrix is not None:
             self._first_iter_matrix = first_iter_matrix
 
+        self._reset_iterations()
+
+    def _reset_iterations(self):
+        """Resets the current state to 0 iterations."""
+        self._params_log = {p : [self._params[p]] for p in self._params}
+        self.num_of_executed_iters = 0
+        self.iter_matrices = [self._first_iter_matrix]
+
     def gen_iterations(self, num_of_iters, iteration_algorithm, exec_finalize=True, print_calc=False):
         """Resets the current state to 0 iterations and generates 'num_of_iters' iterations FROM SCRATCH,
         using 'iteration_algorithm' method for each iteration.
         If 'exec_finalize' is True and self.finalize_iterations method exists, it is being invoked at the end.
         print_calc - whether to print the calculation process. For debugging."""
-        self._params_log = {p : [self._params[p]] for p in self._params}
-        self.num_of_executed_iters = 0
-        self.iter_matrices = [self._first_iter_matrix]
-
+        self._reset_iterations()
         self.add_iterations(num_of_iters=num_of_iters, iteration_algorithm=iteration_algorithm,
                             exec_finalize=exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From 9f167d1d07893daa39ad8834147357d5ffacaa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 17/54] fix: the result of zero iterations is a_0

---
 cont_fracs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5c34cc1..5b28d41 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -46,6 +46,8 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
 
         self._avoid_zero_b = avoid_zero_b
         self._approach_type, self._approach_params = 'undefined', 0
+        # the result of 0 iterations
+        self.finalize_iterations(params, first_iter_matrix, 0)
         super().__init__(params, iter_promo_matrix_generator, first_iter_matrix, target_val, logging)
 
     def reinitialize(self, a_coeffs=None, b_coeffs=None, first_iter_matrix=None, **kwargs):
@@ -62,6 +64,8 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
             params['b_coeffs'] = self._params['b_coeffs']
         if first_iter_matrix is None and self._auto_first_promo_mat:
             first_iter_matrix = self._autogen_first_iter_matrix(params)
+        # the result of 0 iterations
+        self.finalize_iterations(params, self._first_iter_matrix if first_iter_matrix is None else first_iter_matrix, 0)
 
         super().reinitialize(params, first_iter_matrix)
 
-- 
2.43.0


From 07719c7fb941d8caaa506d851b302bc16ae22d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 18/54] fix: main passes the index of indexed constants as the
 index, not as the precision

---
 main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index a73c2d2..527f3ef 100644
--- a/main.py
+++ b/main.py
@@ -51,9 +51,9 @@ def main(config_file='config.ini'):
         setattr(params, config_variable, config[config_variable])
         print('%s is set up to %s ' % (config_variable, getattr(params, config_variable)))
     print('\n-------------------------------------------------------\n')
-    gen_real_feig_const = partial(gen_feig_consts, params.i)
-    gen_percolation_const = partial(gen_percolation_consts, params.i)
-    gen_zeta_const = partial(gen_zeta_consts, params.i)
+    gen_real_feig_const = partial(gen_feig_consts, i=params.i)
+    gen_percolation_const = partial(gen_percolation_consts, i=params.i)
+    gen_zeta_const = partial(gen_zeta_consts, i=params.i)
 
     consts_generators = {'e': gen_e_const,
                          'pi': gen_pi_const,
-- 
2.43.0


From 44eeb4de15b3ce174c2bc397e6d020926ccc646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 19/54] fix: NameError in main for the feig and percolation
 constants

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 527f3ef..37507ac 100644
--- a/main.py
+++ b/main.py
@@ -70,9 +70,9 @@ def main(config_file='config.ini'):
 
     measure_runtime = MeasureRuntime()
     if params.const == 'feig':
-        params.const = 'feig, %d' % i
+        params.const = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+        params.const = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
-- 
2.43.0


From 60690ff47cec70a6343c204f50964207d46e3dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 20/54] fix: saved configurations keep the name of the feig and
 percolation constants

---
 main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/main.py b/main.py
index 37507ac..bf6fda7 100644
--- a/main.py
+++ b/main.py
@@ -69,10 +69,11 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
+    target_name = params.const
     if params.const == 'feig':
-        params.const = 'feig, %d' % params.i
+        target_name = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % params.i
+        target_name = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +83,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +93,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +109,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 82e873434cc0ee5607cdb824169bca7203aa7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 21/54] fix: unspecified optional settings have their default
 values

---
 configfile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..d9f5329 100644
--- a/configfile.py
+++ b/configfile.py
@@ -28,7 +28,6 @@ class ConfigParser(configparser.ConfigParser):
                         'validate_hashtable_extend_no_replication': True
                         }
         # read file, make sure it's not empty
-        self._config = {}
         if not configfile:
             return
         parsed_config = configparser.ConfigParser()
-- 
2.43.0


From 1a0c03b261435a905514df7385c102a4f0fc2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 22/54] fix: paths in configuration files keep their letter
 case

---
 configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index d9f5329..51b25bd 100644
--- a/configfile.py
+++ b/configfile.py
@@ -145,7 +145,7 @@ class ConfigParser(configparser.ConfigParser):
     @staticmethod
     def path_parameter_parser(path):
         """Converts a unix styled path to a path in hosting OS style."""
-        return ConfigParser.string_parameter_parser(path).replace('/', os.path.sep)
+        return path.strip().replace('/', os.path.sep)
 
     @staticmethod
     def poly_type_parser(s):
-- 
2.43.0


From e7c9dc7db7fff880e34b66b4c82959f22cd5b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 23/54] fix: illegal values of gen_hashtable_only are rejected

---
 configfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/configfile.py b/configfile.py
index 51b25bd..9c34c4b 100644
--- a/configfile.py
+++ b/configfile.py
@@ -52,6 +52,10 @@ class ConfigParser(configparser.ConfigParser):
         if self._config['hashtable_file_operation'] not in ['generate', 'expand', 'use']:
             raise ValueError('Illegal value for hashtable_file_operation')
 
+        # assert that gen_hashtable_only has a legal value
+        if self._config['gen_hashtable_only'] not in [True, False, None, 'auto']:
+            raise ValueError('Illegal value for gen_hashtable_only')
+
         # Deal with gen_hashtable_only=='auto' (convert to True/False according to hashtable_file_operation)
         if self._config['gen_hashtable_only'] == 'auto':
             if self._config['hashtable_file_operation'] == 'use':
-- 
2.43.0


From 7d1bbbeae29a5561b7db4e3efa6ac0a4df9f38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 24/54] fix: versions of a hashtable file are matched exactly
 and compared as numbers

---
 configfile.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/configfile.py b/configfile.py
index 9c34c4b..55eeee3 100644
--- a/configfile.py
+++ b/configfile.py
@@ -89,27 +89,25 @@ class ConfigParser(configparser.ConfigParser):
             return
 
         # validate filename's extension .pkl is specified, or add it
-        if not re.match('(.*?)(\\.pkl)', filename):
+        if not filename.endswith('.pkl'):
             filename += '.pkl'
 
         # if filename is given without a version indication, set a default version v1
-        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)', filename):
+        if not re.search('_v[0-9]+\\.pkl$', filename):
             filename = '%s_v1.pkl' % filename[:-len('.pkl')]
 
         # find the oldest version
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
-        old_versions.sort()
+        version_pattern = re.compile('%s(?:_v([0-9]+))?\\.pkl' % re.escape(stripped_filename))
+        old_versions = [ fn for fn in os.listdir(dir_path) if version_pattern.fullmatch(fn) ]
+        # a file with no version indication is considered as version 0
+        old_versions.sort(key=lambda fn: int(version_pattern.fullmatch(fn).group(1) or 0))
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
-            v = v.replace('_v', '')
-            if not v:
-                v = 0
-            v = int(v) + 1
-            filename = '%s_v%d.pkl' % (filename_base, v)
+            v = int(version_pattern.fullmatch(old_versions[-1]).group(1) or 0) + 1
+            filename = '%s_v%d.pkl' % (stripped_filename, v)
         else:
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
-- 
2.43.0


From b427a07ebc7e00fa9f9411d46c7b00a05b0cc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 25/54] fix: expanding a hashtable saves it as a new version
 (v_latest+1)

---
 configfile.py | 10 +++++++---
 main.py       |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/configfile.py b/configfile.py
index 55eeee3..d025de3 100644
--- a/configfile.py
+++ b/configfile.py
@@ -104,13 +104,17 @@ class ConfigParser(configparser.ConfigParser):
         old_versions.sort(key=lambda fn: int(version_pattern.fullmatch(fn).group(1) or 0))
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
+            self._config['hashtable_output_file'] = self._config['hashtable_file']
             return
+        v = int(version_pattern.fullmatch(old_versions[-1]).group(1) or 0) + 1
+        new_filename = '%s_v%d.pkl' % (stripped_filename, v)
         if hashtable_file_operation == 'generate':
-            v = int(version_pattern.fullmatch(old_versions[-1]).group(1) or 0) + 1
-            filename = '%s_v%d.pkl' % (stripped_filename, v)
+            filename = new_filename
         else:
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
+        # where a generated/expanded hashtable is saved to
+        self._config['hashtable_output_file'] = os.path.join(dir_path, new_filename)
 
     def _gen_postproc_funcs_filter(self):
         """Converts the postproc functions to their indices in POSTPROC_FUNCS"""
@@ -230,4 +234,4 @@ CONFIG_PARAMS_TYPES = {'const': ConfigParser.string_parameter_parser,
                        'is_test': ConfigParser.bool_parser}                                         # optional
 
 # Internal fields (generated based on other fields), that should be treated by other modules as legal fields
-CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual']
+CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual', 'hashtable_output_file']
diff --git a/main.py b/main.py
index bf6fda7..909a744 100644
--- a/main.py
+++ b/main.py
@@ -111,9 +111,9 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
-        with open(params.hashtable_file, 'wb') as output_file:
+        with open(config['hashtable_output_file'], 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-        print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
+        print('Stored hashtable as %s. Runtime: %s' % (config['hashtable_output_file'],
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
         return
-- 
2.43.0


From 4650efdba5c4ab70979c1ff18f46cbf320897c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 26/54] fix: a run that stops while saving its hashtable leaves
 no broken newest version

---
 main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 909a744..faee879 100644
--- a/main.py
+++ b/main.py
@@ -111,8 +111,11 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
-        with open(config['hashtable_output_file'], 'wb') as output_file:
+        # written to a temporary file first, so that a partially written hashtable is never mistaken for a complete one
+        temp_output_filename = config['hashtable_output_file'] + '.tmp'
+        with open(temp_output_filename, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(temp_output_filename, config['hashtable_output_file'])
         print('Stored hashtable as %s. Runtime: %s' % (config['hashtable_output_file'],
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
-- 
2.43.0


From 8a6aa8f9104edd9d9fe39fb68fe561865d2c5096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 27/54] fix: saved lhs_type and lhs_params settings can be
 loaded again

---
 configfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index d025de3..929101b 100644
--- a/configfile.py
+++ b/configfile.py
@@ -194,12 +194,17 @@ class ConfigParser(configparser.ConfigParser):
 
     def set(self, section, option, value=None):
         """This function is called when generating a config file.
-        It wraps the parent class's set to convert the postproc_funcs from indices back to names."""
+        It wraps the parent class's set to convert the postproc_funcs from indices back to names, the lhs type from
+        its classes back to its name and the python booleans of the lhs params to json."""
         if option == 'postproc_funcs_filter' and value:
             funcs_list = json.loads(value)
             funcs_names_list = [ '"%s"' % POSTPROC_FUNCS[i] for i in funcs_list ]
 
             value = '[%s]' % (', '.join(funcs_names_list))
+        elif option == 'lhs_type':
+            value = next((name for name, classes in LHS_TYPES.items() if value == str(classes)), value)
+        elif option == 'lhs_params' and value:
+            value = value.replace('True', 'true').replace('False', 'false').replace('None', 'null')
         return super().set(section=section, option=option, value=value)
 
     def get_config(self):
-- 
2.43.0


From 9d1cb2ff746cf5eed331b28ff6d57d329abca3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 28/54] fix: the parts of a configuration file in another
 directory are saved to the distribution directory

---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..fd1aa46 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -43,7 +43,7 @@ def main(split_num=4, configfile='config.ini'):
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
                 results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From 6adf3b69903ecec18a35c8d60c9e73e480311cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 29/54] fix: final filter of positive integer roots tests the
 roots exactly

---
 enum_params.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 1b3c7cc..1b3b0ae 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -329,14 +329,14 @@ class MITM:
 
     def filter_pos_integer_roots_numerators(self):
         """Filters out contfracs for which any of the b interlaces have an integer positive root. The roots are found
-        numerically and are considered real if Im(root) < 0.001 and integer if fractional_part(root) < 0.001"""
+        numerically, and their closest integers are substituted back in the polynomial."""
         valid_params = []
         for params in self.filtered_params:
             b = params[0][1]
-            roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
-                               for r in roots ]
-            if not any(real_int_roots):
+            roots = itertools.chain([ (b_p, int(r.real.round())) for b_p in b for r in numpy.roots(b_p[::-1]) ])
+            real_int_roots = [ r > 0 and MathOperations.subs_in_polynom(b_p, r) == 0 for b_p, r in roots ]
+            # every integer is a root of the zero polynomial
+            if not any(real_int_roots) and all([ any(b_p) for b_p in b ]):
                 valid_params.append(params)
         self.filtered_params = valid_params
 
-- 
2.43.0


From 760d55c0ae76ca5dd287f9a70995b7cd049c7bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 30/54] fix: filtering by convergence drops terminating
 fractions without aborting

---
 enum_params.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 1b3b0ae..da2142c 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -350,7 +350,11 @@ class MITM:
         for cf_params in progressbar.progressbar(params_list):
             ab, lhs_res_obj, post_func_ind, convergence_info = cf_params
             cont_frac = cont_fracs.ContFrac(a_coeffs=ab[0], b_coeffs=ab[1])
-            if cont_frac.is_convergence_fast():
+            try:
+                is_fast = cont_frac.is_convergence_fast()
+            except cont_fracs.ZeroB:
+                continue
+            if is_fast:
                 filtered_params_list.append(cf_params)
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
-- 
2.43.0


From 9df3fe96a23ab5426dea5f4e43e383783e584af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 31/54] fix: refining drops terminating fractions without
 aborting

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index da2142c..d488525 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -274,7 +274,7 @@ class MITM:
             try:
                 signed_rhs = self.postproc_funcs[post_func_ind](contfrac_evaluator(ab, accuracy, convergence_info))
             ## # except DivisionByZero:
-            except ZeroDivisionError:
+            except (ZeroDivisionError, cont_fracs.ZeroB):
                 ## # print('DivisionByZero exception', ab)
                 print('ZeroDivisionError exception', ab)
                 continue
-- 
2.43.0


From db81dc7472ca88e8f8d04204941829658b5aa9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 32/54] fix: refined left-hand sides get the closest integer
 difference, not the truncated one

---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index d488525..703e160 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal
+from mpmath import mpf as dec, isnormal, nint
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -299,7 +299,7 @@ class MITM:
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
                 try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
+                    lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 except:
                     raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
                                        (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
-- 
2.43.0


From ecdd9932c66dc7e7d61785e30203a2c82e5bcc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 33/54] fix: redefining the settings switches to the requested
 polynomials enumerator

---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 703e160..3b5388d 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -98,7 +98,8 @@ class MITM:
                different one.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
+        # the special parameters may have been changed too
+        if type(self.rhs_polys_enumer) is not ab_poly_class or ab_poly_special_params is not None:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From 5b3bd23fead89410185564706d1c83eb4256eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 34/54] fix: redundant ulcd parameters are compared exactly

---
 lhs_evaluators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 572c77b..7633ae1 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -153,11 +153,11 @@ class ULCDEvaluator(LHSEvaluator, metaclass=ULCDMetaClass):
             for s in [1, -1]:
                 if u1 == u2 * s and l1 == l2 * s and c1 == c2 * s and abs(d1) == abs(d2):
                     return True
-            ulcd_ratio = abs(d1 / d2)
-            if u1 == u2 * ulcd_ratio and l1 == l2 / ulcd_ratio and c1 == c2 * ulcd_ratio:
-                return True
-            if u1 == -u2 * ulcd_ratio and l1 == -l2 / ulcd_ratio and c1 == -c2 * ulcd_ratio:
-                return True
+            # the ratio is d1 / d2, compared by cross multiplication (exactly)
+            d1, d2 = abs(d1), abs(d2)
+            for s in [1, -1]:
+                if u1 * d2 == u2 * d1 * s and l1 * d1 == l2 * d2 * s and c1 * d2 == c2 * d1 * s:
+                    return True
             # if ulcd1 == ulcd2 and (pa1 == pa2 or list(pa1) == [ -x for x in pa2 ]):
             #     return True
 
-- 
2.43.0


From b765b19840bb0dc2eedde4fb955a17cae611edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 35/54] fix: equivalence of rational functions compares the
 whole functions, up to sign and integer

---
 lhs_evaluators.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 7633ae1..62f941e 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -335,6 +335,18 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self._is_canonalized = False
         self._calc_val()
 
+    @staticmethod
+    def _differ_by_sign_and_int(numerator1_p, denominator1_p, numerator2_p, denominator2_p):
+        """Returns True if p1/q1 == p2/q2 + n or p1/q1 == -p2/q2 + n for some integer n (given as sympy polynomials)."""
+        if denominator1_p.is_zero or denominator2_p.is_zero:
+            return False
+        for sign in [1, -1]:
+            difference = numerator1_p * denominator2_p - sign * numerator2_p * denominator1_p
+            quotient, remainder = difference.div(denominator1_p * denominator2_p)
+            if remainder.is_zero and quotient.degree() <= 0 and quotient(0).is_integer:
+                return True
+        return False
+
     @staticmethod
     def is_equiv(params1, params2):
         """Checks if params1 and params2 are equivalent.
@@ -360,24 +372,20 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         ratio_func1_obj.canonalize_params()
         ratio_func2_obj.canonalize_params()
 
-        # find the reduced form, and check if p1/q1==p2/q2 in the reduced form up to a constant, and if b1==b2, a1==+-a2
-        numerator1_p = ratio_func1_obj.numerator_p_symbolic
+        # find the reduced form, and check if p1/q1==+-p2/q2 up to an integer, and if b1==b2, a1==+-a2
         denominator1_p = ratio_func1_obj.denominator_p_symbolic
-        # auto=False keeps the polynoial over Z instead of over Q
-        quotient1, rem1 = numerator1_p.div(denominator1_p, auto=False)
-        quotient1 -= quotient1(0)
-        numerator2_p = ratio_func2_obj.numerator_p_symbolic
+        numerator1_p = ratio_func1_obj.numerator_p_symbolic + ratio_func1_obj.added_int * denominator1_p
         denominator2_p = ratio_func2_obj.denominator_p_symbolic
-        if is_inverse:
-            numerator2_p, denominator2_p = denominator2_p, numerator2_p
-        quotient2, rem2 = numerator2_p.div(denominator2_p, auto=False)
-        quotient2 -= quotient2(0)
-        # if ab1 == ab2 and f1/g1 = f2/g2 + C
+        numerator2_p = ratio_func2_obj.numerator_p_symbolic + ratio_func2_obj.added_int * denominator2_p
+        # if ab1 == ab2 and f1/g1 = +-f2/g2 + C
         pa1, pb1 = ab1
         pa2, pb2 = ab2
         if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):
-            if quotient1 == quotient2 and rem1 == rem2:
-                return True
+            differ_by_int = RationalFuncEvaluator._differ_by_sign_and_int
+            if not is_inverse:
+                return differ_by_int(numerator1_p, denominator1_p, numerator2_p, denominator2_p)
+            return (differ_by_int(numerator1_p, denominator1_p, denominator2_p, numerator2_p) or
+                    differ_by_int(denominator1_p, numerator1_p, numerator2_p, denominator2_p))
         return False
         # a1_ps, b1_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab1 ]
         # a2_ps, b2_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab2 ]
-- 
2.43.0


From ad55fff9b4e81744c693c0a8336e457ab549dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 36/54] fix: latex expressions of sqrt, exp and ln results

---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 23fd193..d074ed3 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -100,8 +100,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sqrt{{ {0} }} }}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -110,9 +110,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 160e0f27a07f38fcfb325c5964e451b729aa186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 37/54] fix: latex expressions of zero numerators and of powers
 above 9

---
 lhs_evaluators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 62f941e..fe3e867 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -425,10 +425,11 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
                         poly_elements.append(r'{0} {1}'.format(c, target_constant_name))
                     continue
                 if c == 1:
-                    poly_elements.append(r'{0}^{1}'.format(target_constant_name, i))
+                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))
                 else:
-                    poly_elements.append(r'{0} {1}^{2}'.format(c, target_constant_name, i))
-            poly_elements[0] = poly_elements[0].replace('{0}^{1}'.format(target_constant_name, 0), '')
+                    poly_elements.append(r'{0} {1}^{{{2}}}'.format(c, target_constant_name, i))
+            if not poly_elements:
+                poly_elements.append('0')
             latex_exp_parts.append( '+'.join(poly_elements))
         if latex_exp_parts[1].strip() == '1':
             latex_exp = latex_exp_parts[0]
-- 
2.43.0


From 805ef098d2c2fc0c1d1e677485c77377b19af2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 38/54] fix: csv rows name the function and the lhs type, and
 don't require a convergence type

---
 enum_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 3b5388d..ed3e131 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -470,7 +470,7 @@ class MITM:
             for ab, lhs_res_obj, post_func_ind, convergence_info in self.filtered_params:
                 pa, pb = ab
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
-                lhs_type =str(lhs_res_obj)
+                lhs_type = str(type(lhs_res_obj))
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
                 cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
                                                                                         post_func_ind,
@@ -478,8 +478,9 @@ class MITM:
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-                csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
-                                    convergence_info[0], convergence_info[1],
+                convergence_type, convergence_rate = convergence_info or (None, None)
+                csvwriter.writerow([pa, pb, self.postproc_funcs_text[post_func_ind], lhs_type, lhs_res_obj.get_params(),
+                                    convergence_type, convergence_rate,
                                     dec_to_str(postproc_res), dec_to_str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
-- 
2.43.0


From ec8ecdd491e8ddd1ac6bc825876ee58c3d09f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 39/54] fix: joining hashtables never overwrites an existing
 file

---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..2d48e2e 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -6,6 +6,7 @@ import dill as pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From d102c19214b5c81e62f5e8e20ee5452f0f5cc9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 40/54] fix: results of runs that end at the same minute are
 not lost

---
 main.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index faee879..8e0ce9a 100644
--- a/main.py
+++ b/main.py
@@ -165,8 +165,14 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    results_dirname = base_results_dirname = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    run_num = 1
+    # a previous run may have been finished at the same minute
+    while os.path.exists(results_dirname):
+        run_num += 1
+        results_dirname = '%s_%d' % (base_results_dirname, run_num)
+    os.mkdir(results_dirname)
+    export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From 4d5eb964b8335bc9459d5d391d82e9c536725301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 41/54] fix: using an existing hashtable searches for the
 configured constant

---
 main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.py b/main.py
index 8e0ce9a..7c5f5e3 100644
--- a/main.py
+++ b/main.py
@@ -92,6 +92,10 @@ def main(config_file='config.ini'):
                                    postproc_funcs_latex=POSTPROC_FUNCS_LATEX)
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
+        else:
+            enum_params.set_precision(DECIMAL_PREC)
+            mitm.target_generator = target_generator
+            mitm.target_name = target_name
     elif params.hashtable_file_operation == 'generate':
         mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
-- 
2.43.0


From 93efb3e6b3701db7eff1e0324b11ed78dde028f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 42/54] fix: ridiculously big or small values don't abort
 building the hashtable

---
 enum_params.py | 6 +++---
 utils.py       | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index ed3e131..95fed25 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -19,7 +19,7 @@ import numpy
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
-from utils import MathOperations, dec_to_str, grouper
+from utils import MathOperations, dec_to_str, grouper, is_normal
 
 # from lhs_evaluators import ULCDEnumerator, ULCDEvaluator, RationalFuncEnumerator, RationalFuncEvaluator
 # converts #
@@ -188,7 +188,7 @@ class MITM:
                     print(k)
                     raise
                 ## # if not k.is_normal():
-                if not isnormal(k):
+                if not is_normal(k):
                     continue
                 k = abs(k)
                 if self.trunc_integer:
@@ -281,7 +281,7 @@ class MITM:
                 continue
             rhs = abs(signed_rhs)
             ## # if not rhs.is_normal():
-            if not isnormal(rhs):
+            if not is_normal(rhs):
                 continue
             signed_lhs = lhs_res_obj.get_val()
             lhs = abs(signed_lhs)
diff --git a/utils.py b/utils.py
index 5054c28..82349a8 100644
--- a/utils.py
+++ b/utils.py
@@ -171,6 +171,15 @@ class ProgressBar(enumerate):
         return days, hours, minutes, seconds
 
 
+# the greatest binary exponent (in absolute value) of numbers that are still expanded to decimal digits
+MAX_MAGNITUDE = 10**5
+
+
+def is_normal(x):
+    """Returns True if x is a finite nonzero number, neither ridiculously small nor ridiculously big."""
+    return mpmath.isnormal(x) and abs(mpmath.mag(x)) <= MAX_MAGNITUDE
+
+
 def dec_to_str(d):
     """Returns the plain positional decimal expansion of d (no exponent), with all the digits of the current working
     precision. Supports both mpf and Decimal."""
-- 
2.43.0


From 495cd124d369a80c2e3599641e5af523b53de422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 43/54] fix: canonical form of rational functions with
 coefficients above the precision of a float

---
 lhs_evaluators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index fe3e867..51a7c3d 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -444,7 +444,6 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         with the free coefficient k_0 set to k_0 - ceil(k_0)."""
         if self._is_canonalized:
             return
-        from math import ceil
         numerator_p, denominator_p, added_int = self.params
         gcd = self.numerator_p_symbolic.gcd(self.denominator_p_symbolic)
         numerator_p_symbolic = self.numerator_p_symbolic.div(gcd, auto=False)[0]
@@ -452,8 +451,10 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
 
         quotient, remainder = numerator_p_symbolic.div(denominator_p_symbolic)
         # params[2] = added int
-        self.added_int += ceil(quotient.all_coeffs()[-1])
-        quotient -= ceil(quotient.all_coeffs()[-1])
+        # the exact ceiling, math.ceil goes through a float
+        integer_part = int(sympy.ceiling(quotient.all_coeffs()[-1]))
+        self.added_int += integer_part
+        quotient -= integer_part
         # params[0] = numerator , params[1] = denominator
         self.old_numerator_denominator_p = (self.numerator_p, self.denominator_p)
         self.numerator_p = sympoly2poly(quotient * denominator_p_symbolic + remainder)
-- 
2.43.0


From 3bfe7092a694239e85cf383e674313c70d5551dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 44/54] fix: the filter of positive integer roots finds
 multiple and big roots too

---
 enum_params.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 95fed25..24f0151 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -4,6 +4,7 @@ finding 'clicks', filter unique ones and ones that converge fast enough and then
 with the continued fractions up to an arbitrary decimal precision."""
 
 import cont_fracs
+from lhs_evaluators import poly2sympoly
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
 from mpmath import mpf as dec, isnormal, nint
@@ -15,7 +16,6 @@ from postprocfuncs import EVALUATED_POSTPROC_FUNCS ,POSTPROC_FUNCS, INVERSE_POST
 from enum_poly_params import BasicEnumPolyParams, set_precision
 import io
 import shutil
-import numpy
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
@@ -329,13 +329,13 @@ class MITM:
         self.filtered_params = unique_params_filtered
 
     def filter_pos_integer_roots_numerators(self):
-        """Filters out contfracs for which any of the b interlaces have an integer positive root. The roots are found
-        numerically, and their closest integers are substituted back in the polynomial."""
+        """Filters out contfracs for which any of the b interlaces have an integer positive root. The rational roots are
+        found symbolically (numerical roots are inaccurate for multiple and for big roots)."""
         valid_params = []
         for params in self.filtered_params:
             b = params[0][1]
-            roots = itertools.chain([ (b_p, int(r.real.round())) for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ r > 0 and MathOperations.subs_in_polynom(b_p, r) == 0 for b_p, r in roots ]
+            roots = itertools.chain(*[ poly2sympoly(b_p).ground_roots() for b_p in b if any(b_p) ])
+            real_int_roots = [ r > 0 and r.is_integer for r in roots ]
             # every integer is a root of the zero polynomial
             if not any(real_int_roots) and all([ any(b_p) for b_p in b ]):
                 valid_params.append(params)
-- 
2.43.0


From 131b349a69a79023a96917349b93940f379bb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 45/54] fix: convergence of fractions that reach the working
 precision is estimated from exact differences

---
 cont_fracs.py | 53 ++++++++++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5b28d41..dd7b391 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -262,41 +262,30 @@ False if it's sub exponential (e.g. linear)."""
 
         delta_pair = []
         delta_odd = []
-        self.gen_iterations(initial_cutoff)
-        res_0 = self.get_result()
-        self.add_iterations(1)
-        res_1 = self.get_result()
-        self.add_iterations(1)
-        res_2 = self.get_result()
-        self.add_iterations(1)
-        res_3 = self.get_result()
-        self.add_iterations(1)
-        res_4 = self.get_result()
-        self.add_iterations(1)
-        res_5 = self.get_result()
-        delta_pair.append((initial_cutoff, abs(res_2 - res_0)))
-        delta_pair.append((initial_cutoff + 2, abs(res_4 - res_2)))
-        delta_odd.append((initial_cutoff + 1, abs(res_3 - res_1)))
-        delta_odd.append((initial_cutoff + 3, abs(res_5 - res_3)))
+        # The differences are calculated exactly. Differences of rounded results are nothing but noise once the fraction
+        # has converged to the working precision.
+        def calc_delta(p_q_1, p_q_2):
+            (p_1, q_1), (p_2, q_2) = p_q_1, p_q_2
+            if q_1 == 0 or q_2 == 0:
+                return dec('NaN')
+            return abs(dec(p_2 * q_1 - p_1 * q_2) / dec(q_1 * q_2))
+
+        def append_deltas(i):
+            p_q_list = [self.get_p_q()]
+            for _ in range(5):
+                self.add_iterations(1)
+                p_q_list.append(self.get_p_q())
+            delta_pair.append((i, calc_delta(p_q_list[0], p_q_list[2])))
+            delta_pair.append((i + 2, calc_delta(p_q_list[2], p_q_list[4])))
+            delta_odd.append((i + 1, calc_delta(p_q_list[1], p_q_list[3])))
+            delta_odd.append((i + 3, calc_delta(p_q_list[3], p_q_list[5])))
 
+        self.gen_iterations(initial_cutoff)
+        append_deltas(initial_cutoff)
         for i in range(initial_cutoff+iters_step, iters+1, iters_step):
-            # -3 for the iterations of res_1, res_2, res_3 that were already executed
+            # -5 for the iterations that were already executed by append_deltas
             self.add_iterations(iters_step - 5)
-            res_0 = self.get_result()
-            self.add_iterations(1)
-            res_1 = self.get_result()
-            self.add_iterations(1)
-            res_2 = self.get_result()
-            self.add_iterations(1)
-            res_3 = self.get_result()
-            self.add_iterations(1)
-            res_4 = self.get_result()
-            self.add_iterations(1)
-            res_5 = self.get_result()
-            delta_pair.append((i, abs(res_2 - res_0)))
-            delta_pair.append((i + 2, abs(res_4 - res_2)))
-            delta_odd.append((i + 1, abs(res_3 - res_1)))
-            delta_odd.append((i + 3, abs(res_5 - res_3)))
+            append_deltas(i)
 
         pair_diminish = False
         odd_diminish = False
-- 
2.43.0


From 8bf0a7265e20c908ffdc9775b3962813e1ec6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 46/54] fix: estimating the convergence of periodic fractions
 doesn't divide by zero

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index dd7b391..0837565 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -309,7 +309,7 @@ False if it's sub exponential (e.g. linear)."""
                       for i in range(0, len(delta_odd), 2) if delta_odd[i][1] != 0 and delta_odd[i+1][1] != 0 and
                       not isnan(delta_odd[i][1]) and not isnan(delta_odd[i+1][1]) ]
 
-        if len(pair_ratio) < 6:
+        if len(pair_ratio) < 6 or len(odd_ratio) < 6:
             return (approach_type, approach_parameter)
 
         mean_pair_ratio = sum([ p for i, p in pair_ratio] ) / len(pair_ratio)
-- 
2.43.0


From 1efa8cafe810ee8fc1a816beec369f9e6e6f9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 47/54] fix: printing slowly converging fractions doesn't abort
 on terminating ones

---
 enum_params.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 24f0151..6ac7b18 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -360,8 +360,11 @@ class MITM:
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
                 print(cf_params)
-                cont_frac.estimate_approach_type_and_params()
-                print(cont_frac.get_approach_type_and_params())
+                try:
+                    cont_frac.estimate_approach_type_and_params()
+                    print(cont_frac.get_approach_type_and_params())
+                except cont_fracs.ZeroB as e:
+                    print('Terminates at iteration %s' % e)
         self.filtered_params = filtered_params_list
 
     def filter_clicks_by_approach_type(self, whitelist=['exp', 'super_exp', 'fast'], blacklist=None):     # , filter_uniq_list=True):
-- 
2.43.0


From 102e5ecbae8beca1cf718ccaf17515e19a411fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 48/54] fix: binomial coefficients of the enumerators are
 computed exactly

---
 enum_poly_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 93098fd..ddf5f62 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -9,7 +9,7 @@ from mpmath import mpf as dec, isint
 from mpmath import isint
 import mpmath
 from utils import MathOperations
-from scipy.special import binom
+from scipy.special import comb
 
 def set_precision(prec):
     """Sets the precision of the current decimal context"""
@@ -222,7 +222,7 @@ class IndexedParameterEnumPolyParams(BasicEnumPolyParams, metaclass=IndexedMetaC
                     continue
                 # p_new += (x+i)**deg_p
                 for j in range(deg_p+1):
-                    p_new[j] += a_i * int(binom(deg_p, j)) * i**(deg_p-j)
+                    p_new[j] += a_i * comb(deg_p, j, exact=True) * i**(deg_p-j)
             poly_new.append(tuple(p_new))
         yield tuple(poly_new)
 
@@ -244,8 +244,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) ** len(range_a) *
-                                                            binom(self.n_b, len(range_b[0])) ** len(range_b))
+        self.len_factor_func = lambda range_a, range_b: (comb(self.n_a, len(range_a[0]), exact=True) ** len(range_a) *
+                                                        comb(self.n_b, len(range_b[0]), exact=True) ** len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From fede8c9b117aa85362c2c657ba8620b4acddf3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 49/54] fix: the integer root screening is exact for big
 coefficients too

---
 enum_poly_params.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index ddf5f62..f30939a 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -10,6 +10,7 @@ from mpmath import isint
 import mpmath
 from utils import MathOperations
 from scipy.special import comb
+from sympy import integer_nthroot
 
 def set_precision(prec):
     """Sets the precision of the current decimal context"""
@@ -154,16 +155,16 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
         elif len(poly) == 1:
             return False
         ## # elif len(poly) == 2 and (poly[0] / poly[1]).is_integer() and (poly[0] > 0) != (poly[1] > 0):
-        elif len(poly) == 2 and isint(poly[0] / poly[1]) and (poly[0] > 0) != (poly[1] > 0):
+        elif len(poly) == 2 and poly[0] % poly[1] == 0 and (poly[0] > 0) != (poly[1] > 0):
             return True
         elif len(poly) == 3:
             discrim = (poly[1]**2-4*poly[0]*poly[2])
             if discrim < 0:
                 return False
-            discrim **= 0.5
-            # rounded to the closest integer and substituted back, for an exact test
-            for root in [(discrim - poly[1])/(2*poly[2]), (-discrim - poly[1])/(2*poly[2])]:
-                if MathOperations.subs_in_polynom(poly, int(round(root))) == 0:
+            # an integer root requires an exact integer square root. Substituted back, for an exact test
+            discrim = integer_nthroot(discrim, 2)[0]
+            for root in [(discrim - poly[1])//(2*poly[2]), (-discrim - poly[1])//(2*poly[2])]:
+                if MathOperations.subs_in_polynom(poly, root) == 0:
                     return True
 
         return False
-- 
2.43.0


From ac02dc0061f58dd9060b08ce6178f4a681b897b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 50/54] fix: ContFrac.reinitialize accepts flat coefficient
 lists, as the constructor does

---
 cont_fracs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 0837565..818e30d 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -55,11 +55,11 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
         self._approach_type, self._approach_params = 'undefined', 0
         params = kwargs
         if a_coeffs:
-            params['a_coeffs'] = a_coeffs
+            params['a_coeffs'] = a_coeffs if isinstance(a_coeffs[0], (list, tuple)) else [a_coeffs]
         else:
             params['a_coeffs'] = self._params['a_coeffs']
         if b_coeffs:
-            params['b_coeffs'] = b_coeffs
+            params['b_coeffs'] = b_coeffs if isinstance(b_coeffs[0], (list, tuple)) else [b_coeffs]
         else:
             params['b_coeffs'] = self._params['b_coeffs']
         if first_iter_matrix is None and self._auto_first_promo_mat:
-- 
2.43.0


From cc3cb57c79944ea8e0ddc2975f5399aae6c938bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 51/54] fix: let a cancelled refinement of clicks be cancelled
 instead of turning it into a RuntimeError

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 6ac7b18..c4f3327 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -301,7 +301,7 @@ class MITM:
                     signed_lhs *= -1
                 try:
                     lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
-                except:
+                except Exception:
                     raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
                                        (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
-- 
2.43.0


From 416fcf0c141bd9a9434e4de7f4f8c96530082aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:39 +0000
Subject: [PATCH 52/54] fix: runs that end at the same time keep their results
 apart instead of failing

---
 main.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/main.py b/main.py
index 7c5f5e3..f3d9c61 100644
--- a/main.py
+++ b/main.py
@@ -167,15 +167,17 @@ def main(config_file='config.ini'):
         print('Canceled refining clicks. Runtime: %s ' %
               (str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
 
-    if not os.path.isdir('results'):
-        os.mkdir('results')
+    os.makedirs('results', exist_ok=True)
     results_dirname = base_results_dirname = os.path.join('results', time.strftime('%d%m%y_%H%M'))
     run_num = 1
-    # a previous run may have been finished at the same minute
-    while os.path.exists(results_dirname):
-        run_num += 1
-        results_dirname = '%s_%d' % (base_results_dirname, run_num)
-    os.mkdir(results_dirname)
+    # another run may have been finished at the same minute, or be finished right now
+    while True:
+        try:
+            os.mkdir(results_dirname)
+            break
+        except FileExistsError:
+            run_num += 1
+            results_dirname = '%s_%d' % (base_results_dirname, run_num)
     export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
-- 
2.43.0


From cb43c6eadd2453bca15763bc610f578939879322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:23 +0000
Subject: [PATCH 53/54] fix: estimating the convergence no longer sets the
 number of executed iterations back

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 818e30d..67bdc92 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -284,7 +284,7 @@ False if it's sub exponential (e.g. linear)."""
         append_deltas(initial_cutoff)
         for i in range(initial_cutoff+iters_step, iters+1, iters_step):
             # -5 for the iterations that were already executed by append_deltas
-            self.add_iterations(iters_step - 5)
+            self.add_iterations(max(iters_step - 5, 0))
             append_deltas(i)
 
         pair_diminish = False
-- 
2.43.0


From 16f253d68a7b4f509905280252f4fe79ecf79dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 54/54] fix: leave iterations that change nothing out of the
 fit of a polynomial convergence

---
 cont_fracs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cont_fracs.py b/cont_fracs.py
index 67bdc92..9476242 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -354,6 +354,9 @@ False if it's sub exponential (e.g. linear)."""
             return (approach_type, approach_parameter)
 
     #     We're requested to find the poly2sympoly parameter
+    #     (an iteration that didn't change the result, or the 0th one, can't be fitted)
+        delta_pair = [ (i, d) for i, d in delta_pair if i > 0 and d > 0 ]
+        delta_odd = [ (i, d) for i, d in delta_odd if i > 0 and d > 0 ]
         log_x_pair = [ math.log(i) for i, d in delta_pair ]
         log_y_pair = [ math.log(d) for i, d in delta_pair ]
         slope_pair, intercept_pair, r_value_pair, p_value_pair, std_err_pair = scipy.stats.linregress(log_x_pair,
-- 
2.43.0

