From 3abc12daa3e36dc0e3c7528c50a8ada9ffd036d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 01/90] fix: generated float constants keep single precision
 instead of 6 decimals

---
 emlearn/cgen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..988cd9f 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -6,6 +6,7 @@ C code generation utilities
 
 
 import re
+import ctypes
 
 VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
 from .creserved import RESERVED_WORDS
@@ -47,7 +48,11 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        out = "{:.6f}".format(val)
+        if ctypes.c_float(float(out)).value != ctypes.c_float(val).value:
+            # 6 decimals are not enough. Use the digits needed for single precision
+            out = "{:#.9g}".format(val)
+        return out + "f"
     elif 'int' in dtype:
         return "{:d}".format(int(val))
     else:
-- 
2.43.0


From 8b45f7179a391c4f7ad9ffac661fc498b7d6f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 02/90] fix: identifiers with a trailing newline are not valid
 C identifiers

---
 emlearn/cgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 988cd9f..483f1b3 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -8,7 +8,7 @@ C code generation utilities
 import re
 import ctypes
 
-VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
+VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*\Z' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
 from .fixedpoint import FixedPointFormat, from_float
-- 
2.43.0


From d13de21dea34cf92b09c44cde4305af1b744259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/90] fix: tree thresholds are inclusive and rounded down, so
 decisions match scikit-learn on and near thresholds

---
 emlearn/eml_trees.h |  2 +-
 emlearn/trees.py    | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..0f6aa97 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -82,7 +82,7 @@ eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
         const int16_t value = features[feature];
         const int16_t point = forest->nodes[node_idx].value;
         //printf("node %d feature %d. %d < %d\n", node_idx, feature, value, point);
-        const int16_t child = (value < point) ? forest->nodes[node_idx].left : forest->nodes[node_idx].right;
+        const int16_t child = (value <= point) ? forest->nodes[node_idx].left : forest->nodes[node_idx].right;
     
 #if EML_TREES_TRACE
         EML_LOG_PRINTF("predit-tree-iter node=%d feature=%d value=%d th=%d next=%d \n",
diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..7adf665 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -306,6 +306,24 @@ def encode_child(index, child):
     assert_valid_child(encoded)
     return encoded
 
+def threshold_constant(threshold, dtype):
+    """
+    C literal for the threshold of a decision node
+
+    The decision made by scikit-learn, and by the C code, is feature <= threshold.
+    The threshold is rounded down to what @dtype can represent,
+    which gives the same decision for all feature values of that type.
+    """
+    if 'int' in dtype:
+        threshold = math.floor(threshold)
+    elif dtype == 'float':
+        rounded = numpy.float32(threshold)
+        if float(rounded) > threshold:
+            rounded = numpy.nextafter(rounded, numpy.float32(-numpy.inf))
+        threshold = rounded
+
+    return cgen.constant(threshold, dtype=dtype)
+
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
@@ -313,7 +331,7 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        value = threshold_constant(value, dtype=dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -371,13 +389,13 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
     def c_internal(n, depth):
-        f = """{indent}if (features[{feature}] < {value}) {{
+        f = """{indent}if (features[{feature}] <= {value}) {{
         {left}
         {indent}}} else {{
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'value': threshold_constant(n[1], dtype=dtype),
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From 9ffd62d440b795ba11b2a5bae7b517f4ead5505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/90] fix: eml_trees_regress reads float leaves without
 misaligned access

---
 emlearn/eml_trees.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 0f6aa97..649e24a 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -12,6 +12,7 @@
 
 #include <stdint.h>
 #include <math.h>
+#include <string.h>
 #include <eml_common.h>
 
 #ifdef __cplusplus
@@ -274,8 +275,9 @@ eml_trees_regress(const EmlTrees *forest,
     for (int32_t i=0; i<forest->n_trees; i++) {
         const int32_t leaf_number = eml_trees_predict_tree(forest, forest->tree_roots[i], features, features_length);        
         const int32_t leaf_offset = leaf_number * leaf_size;
-        const float *leaf_data = (float *)(forest->leaves + leaf_offset);
-        const float val = *leaf_data;
+        // bytes in leaves are not aligned for float access
+        float val;
+        memcpy(&val, forest->leaves + leaf_offset, sizeof(float));
         sum += val;
     }
 
-- 
2.43.0


From e1086bb38bc4a5046d68c75be10c74b0d611b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 05/90] fix: child reference 32768 does not fit int16_t

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 7adf665..cd4c8aa 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -288,7 +288,7 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
+def assert_valid_child(value, child_max = 2**15-1, child_min = -2**15):
     assert value >= child_min, value
     assert value <= child_max, value
 
-- 
2.43.0


From 882a75ba5b79fe8c7e0856fc81c7d43ca0e04991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 06/90] fix: eml_error_str swapped Unsupported and
 Uninitialized

---
 emlearn/eml_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index a08c24d..c1021d4 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -31,8 +31,8 @@ static const char * const
 eml_error_strs[EmlErrors] = {
     "OK",
     "SizeMismatch",
-    "Uninitialized",
     "Unsupported",
+    "Uninitialized",
     "Postcondition failed",
     "Unknown error",
 };
-- 
2.43.0


From af77d5ab2f1c999782d04288b2ae1a1e1b0882cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 07/90] fix: refuse leaf_bits that the generated code cannot
 represent

---
 emlearn/trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index cd4c8aa..f4eb1da 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -725,6 +725,10 @@ class Wrapper:
             else:
                 leaf_bits = 32
 
+        supported_leaf_bits = range(0, 8+1) if self.is_classifier else (32, )
+        if leaf_bits not in supported_leaf_bits:
+            raise ValueError(f"Unsupported leaf_bits={leaf_bits} for {kind}")
+
         if leaf_bits > 0 and leaf_bits <= 8 and self.is_classifier:
             leaf = 'probabilities'
 
-- 
2.43.0


From f4ffe9085975011c89c992e1221cc67d352e97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 08/90] fix: loadable trees with more classes than the C code
 supports are refused, error codes are not turned into classes

---
 emlearn/trees.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index f4eb1da..2a4907d 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -761,6 +761,11 @@ class Wrapper:
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
+        # EMTREES_MAX_CLASSES in eml_trees.h
+        max_classes = 30
+        if self.method == 'loadable' and self.n_classes > max_classes:
+            raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
+
         self._classifier = None # lazy-initialized by _build_classifier
 
     def _build_classifier(self):
@@ -787,9 +792,6 @@ class Wrapper:
                     features[i] = ({feature_dtype})values[i];
                 }}
                 const {return_type} out = {name}_predict(features, length);
-                if (out < 0) {{
-                    return -out;
-                }}
                 return out;
             }}""",
             f"""
-- 
2.43.0


From 63e5234613e64fa08445f8418add9e2e30e56fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 09/90] fix: refuse thresholds that would wrap around in the
 int16_t of a loadable tree node

---
 emlearn/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 2a4907d..032f6de 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -328,6 +328,8 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
         feature, value, left_child, right_child = node
+        if dtype == 'int16_t' and not (-2**15 <= math.floor(value) <= 2**15-1):
+            raise ValueError(f"Threshold {value} of feature {feature} is outside the range of {dtype}")
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-- 
2.43.0


From 19d9e0c35c4aa133eb31702288e928610884f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 10/90] fix: CSV export of a tree with a single leaf

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 032f6de..d21d7ab 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -926,7 +926,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{round(float(value), 6)},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From 3c443cdc8f8ad55effca641031e5a861a5b2eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/90] fix: CSV export of soft voting leaves writes values
 instead of the text of an array

---
 emlearn/trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index d21d7ab..b25a27a 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -916,7 +916,8 @@ class Wrapper:
             lines.append(f'c,{self.n_classes}')
             lines.append(f'lb,{self.leaf_bits}')
             for l in leaves:
-                lines.append(f'l,{l}')
+                # hard voting and regression have one value per leaf, soft voting one per class
+                lines.append(','.join(['l'] + [ str(v) for v in numpy.atleast_1d(l) ]))
             for r in roots:
                 lines.append(f'r,{r}')
 
-- 
2.43.0


From d2af19d2d46fe689a8a5d787e8c16e740754488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 12/90] fix: importing emlearn does not change the numpy error
 state of the whole process

---
 emlearn/bayes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..4154662 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -5,7 +5,6 @@ Gaussian Naive Bayes
 """
 
 import numpy
-numpy.seterr(all='raise')
 
 from . import common, cgen
 
-- 
2.43.0


From 2b332c1896dab79768a00550d674259964578c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 13/90] fix: fixed-point helpers do not left shift negative
 numbers

---
 emlearn/eml_fixedpoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 3a29fe7..40ea6a1 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -24,7 +24,7 @@ typedef int32_t eml_fixed32_t;
 typedef int32_t eml_q16_t;
 #define EML_Q16_FRACT_BITS 16
 #define EML_Q16_ONE (1 << EML_Q16_FRACT_BITS)
-#define EML_Q16_FROMINT(x) ((x) << EML_Q16_FRACT_BITS)
+#define EML_Q16_FROMINT(x) ((x) * EML_Q16_ONE)
 #define EML_Q16_FROMFLOAT(x) ((int)((x) * (1 << EML_Q16_FRACT_BITS))) 
 #define EML_Q16_TOINT(x) ((x) >> EML_Q16_FRACT_BITS)
 #define EML_Q16_TOFLOAT(x) (((float)(x)) / (1 << EML_Q16_FRACT_BITS))
@@ -35,7 +35,7 @@ typedef int32_t eml_q16_t;
 static eml_q16_t
 eml_q16_div(eml_q16_t a, eml_q16_t b)
 {
-    int64_t temp = (int64_t)a << EML_Q16_FRACT_BITS;
+    int64_t temp = (int64_t)a * EML_Q16_ONE;
     if((temp >= 0 && b >= 0) || (temp < 0 && b < 0)) {   
         temp += b / 2;
     } else {
-- 
2.43.0


From 4a2f7df288057c38dcb0b4800a47f5673eeeac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 14/90] fix: eml_q16_mul keeps the full Q16.16 resolution and
 does not overflow in between

---
 emlearn/eml_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 40ea6a1..3c5d3b0 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -30,7 +30,7 @@ typedef int32_t eml_q16_t;
 #define EML_Q16_TOFLOAT(x) (((float)(x)) / (1 << EML_Q16_FRACT_BITS))
 
 // Fixed-point math
-#define eml_q16_mul(x, y) ( ((x) >> EML_Q16_FRACT_BITS/2) * ((y)>> EML_Q16_FRACT_BITS/2) )
+#define eml_q16_mul(x, y) ( (eml_q16_t)(((int64_t)(x) * (y)) >> EML_Q16_FRACT_BITS) )
 
 static eml_q16_t
 eml_q16_div(eml_q16_t a, eml_q16_t b)
-- 
2.43.0


From da6d0a1b897d433afc879727ce3fa384cd659789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 15/90] fix: eml_bayes_predict overflowed its stack buffer with
 more than 10 classes

---
 emlearn/eml_bayes.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..fa98ddf 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -8,10 +8,6 @@ extern "C" {
 #include "eml_common.h"
 #include "eml_fixedpoint.h"
 
-#ifndef EML_MAX_CLASSES
-#define EML_MAX_CLASSES 10
-#endif
-
 typedef struct _EmlBayesSummary {
     eml_q16_t mean;
     eml_q16_t std;
@@ -113,7 +109,8 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
 
-   eml_q16_t class_probabilities[EML_MAX_CLASSES];
+   eml_q16_t highest_prob = 0;
+   int32_t highest_idx = -1;
 
    for (int class_idx = 0; class_idx<model->n_classes; class_idx++) {
 
@@ -126,16 +123,9 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
 
          class_p += plog;
       }
-      class_probabilities[class_idx] = class_p;
       //printf("class %d : %f\n", class_idx, p);
-   }
-
-   eml_q16_t highest_prob = class_probabilities[0];
-   int32_t highest_idx = 0;
-   for (int class_idx = 1; class_idx<model->n_classes; class_idx++) {
-      const eml_q16_t p = class_probabilities[class_idx]; 
-      if (p > highest_prob) {
-         highest_prob = p;
+      if (highest_idx < 0 || class_p > highest_prob) {
+         highest_prob = class_p;
          highest_idx = class_idx;
       }
    }
-- 
2.43.0


From 49915379fc717616e840ae051839198da4ced138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 16/90] fix: eml_bayes_predict checks the number of features

---
 emlearn/eml_bayes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index fa98ddf..30c345b 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -108,6 +108,7 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
    eml_q16_t highest_prob = 0;
    int32_t highest_idx = -1;
-- 
2.43.0


From ca934a70fc5418b7139dfc7a627b08bdc4c70828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 17/90] fix: naive Bayes log-likelihoods do not overflow far
 from the class means

---
 emlearn/eml_bayes.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 30c345b..b148570 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -67,27 +67,31 @@ int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 }
 
 // log2 of normpdf, implemented using quadratic function
-static eml_q16_t
+// The result is far outside the range of eml_q16_t when x is many standard deviations away
+static int64_t
 eml_bayes_logpdf_std(eml_q16_t x)
 {
     const eml_q16_t a = EML_Q16_FROMFLOAT(-0.7213475204444817);
     const eml_q16_t b = EML_Q16_FROMFLOAT(-1.0005845727355313e-15);
     const eml_q16_t c = EML_Q16_FROMFLOAT(-1.3257480647361592);
 
-    const eml_q16_t axx = eml_q16_mul(a, eml_q16_mul(x, x));
-    const eml_q16_t bx = eml_q16_mul(b, x);
-    const eml_q16_t y = axx + bx + c;
+    const int64_t xx = ((int64_t)x * x) / EML_Q16_ONE;
+    const int64_t axx = (a * xx) / EML_Q16_ONE;
+    const int64_t bx = eml_q16_mul(b, x);
+    const int64_t y = axx + bx + c;
     return y;
 }
 
 // log2 of normal probability density function PDF
 // using a scaled/translated standard distribution
-static eml_q16_t
+static int64_t
 eml_bayes_logpdf(eml_q16_t x, eml_q16_t mean, eml_q16_t std, eml_q16_t stdlog2)
 {
-   const eml_q16_t xm = eml_q16_div((x - mean), std);
-   const eml_q16_t xx = (xm > 0) ? xm : -xm;
-   const eml_q16_t p = eml_bayes_logpdf_std(xx) - stdlog2;
+   const int64_t diff = (int64_t)x - mean;
+   const int64_t distance = (diff > 0) ? diff : -diff;
+   const int64_t xm = ((distance * EML_Q16_ONE) + (std / 2)) / std;
+   const eml_q16_t xx = (xm < INT32_MAX) ? (eml_q16_t)xm : INT32_MAX;
+   const int64_t p = eml_bayes_logpdf_std(xx) - stdlog2;
    return p; 
 }
 
@@ -110,17 +114,17 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
-   eml_q16_t highest_prob = 0;
+   int64_t highest_prob = 0;
    int32_t highest_idx = -1;
 
    for (int class_idx = 0; class_idx<model->n_classes; class_idx++) {
 
-      eml_q16_t class_p = 0;
+      int64_t class_p = 0;
       for (int value_idx = 0; value_idx<values_length; value_idx++) {
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
          const eml_q16_t val = EML_Q16_FROMFLOAT(values[value_idx]);
-         const eml_q16_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
+         const int64_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
 
          class_p += plog;
       }
-- 
2.43.0


From 9b271896b3c09ba5e55c73b364101d4e21cd52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 18/90] fix: refuse naive Bayes models whose C code would
 divide by zero or return only errors

---
 emlearn/bayes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 4154662..f401ae8 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -87,6 +87,8 @@ class Wrapper(object):
 
         # FIXME: use var,mean numpy arrays directly
         n_classes, n_features = estimator.theta_.shape
+        if n_classes < 2:
+            raise ValueError(f"At least 2 classes are needed, got {n_classes}")
         model = numpy.ndarray(shape=(n_classes, n_features, 3), dtype=float)
 
         if hasattr(estimator, 'var_'):
@@ -101,6 +103,8 @@ class Wrapper(object):
             for feature_n in range(0, n_features):
                 mean = estimator.theta_[class_n,feature_n]
                 std = numpy.sqrt(variance[class_n,feature_n])
+                if int(std * 2**16) < 1:
+                    raise ValueError(f"Standard deviation of feature {feature_n} in class {class_n} is too small for fixed-point: {std}")
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
         self.model = model
-- 
2.43.0


From 6d75dfaca68a262f3e396244688c3e2a962c506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/90] fix: int16 euclidean distance overflowed (and could
 hang) for large feature values

---
 emlearn/eml_neighbors.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..cc0a72d 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,14 +26,14 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+int32_t eml_isqrt(int64_t x)
 {
-    int32_t q = 1, r = 0;
+    int64_t q = 1, r = 0;
     while (q <= x) {
         q <<= 2;
     }
     while (q > 1) {
-        int32_t t;
+        int64_t t;
         q >>= 2;
         t = x - r - q;
         r >>= 1;
@@ -42,21 +42,19 @@ int32_t eml_isqrt(int32_t x)
             r += q;
         }
     }
-    return r;
+    return (int32_t)r;
 }
 
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    // squared differences can be up to 65535**2, so the sum needs more than 32 bits
+    int64_t sum = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int64_t diff = a[i] - b[i];
+        sum += diff * diff;
     }
-    ret = eml_isqrt(ret); 
-    return ret;
+    return (uint32_t)eml_isqrt(sum);
 }
 
 /** @typedef EmlNeighborsDistanceItem
-- 
2.43.0


From 9a557598677e5ca0e7546abd587688460046f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 20/90] fix: refuse nearest neighbor models that the C code
 cannot represent

---
 emlearn/neighbors.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..174a5c9 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -27,6 +27,22 @@ def check_params_supported(estimator):
     if weights not in SUPPORTED_WEIGHTS:
         raise ValueError(f'Unsupported weights: {weights}. Supported: {SUPPORTED_WEIGHTS}')
 
+    # EML_NEIGHBORS_MAX_CLASSES in eml_neighbors.h
+    max_classes = 10
+    if estimator.outputs_2d_:
+        raise ValueError('Unsupported multi-output classifier')
+    n_classes = len(estimator.classes_)
+    if n_classes > max_classes:
+        raise ValueError(f'Unsupported number of classes: {n_classes}. Maximum: {max_classes}')
+
+    # more items/features do not fit the integer types of EmlNeighborsModel
+    n_items, n_features = estimator._fit_X.shape
+    if n_items > 2**15-1 or n_features > 2**15-1:
+        raise ValueError(f'Unsupported training set size: {n_items}x{n_features}')
+
+    if numpy.min(estimator._fit_X) < -2**15 or numpy.max(estimator._fit_X) > 2**15-1:
+        raise ValueError('Unsupported feature values, outside the range of int16_t')
+
     algorithm = estimator.algorithm
     if algorithm not in ('brute', 'auto'):
         warnings.warn('emlearn only implements "brute" for Nearest Neighbors. Ignoring setting algorithm={algorithm}')
-- 
2.43.0


From bf6b61e671325369bc5dce56f1b7d35ad313a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 21/90] fix: eml_elliptic_envelope_predict reported a wrong
 feature length as an outlier

---
 emlearn/eml_distance.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..406b23c 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -57,14 +57,14 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From 63cf7616e0e0f2cab19b6f7c76fc24ecb190504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 22/90] fix: EllipticEnvelope converts with the default method

---
 emlearn/distance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..8f4745e 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -96,6 +96,9 @@ class Wrapper:
     def __init__(self, estimator, classifier='inline', dtype='float'):
         self.dtype = dtype
 
+        if classifier is None:
+            classifier = 'inline'
+
         precision = estimator.get_precision()
         self._means = estimator.location_.copy()
         self._precision = precision
-- 
2.43.0


From 53dc06417854aa2066986b326cbb504bafd1813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 23/90] fix: generated EllipticEnvelope code is valid C++ and
 reports errors as NAN

---
 emlearn/distance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 8f4745e..b9236a1 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -69,11 +69,12 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
 
     main = f'''
     #include <stdio.h>
+    #include <math.h>
 
     // Data definitions
     {modifiers} EmlEllipticEnvelope {classifier_name} = {{
         {n_features},
-        {decision_boundary}f,
+        {cgen.constant(decision_boundary)},
         {means_name},
         {precisions_name}
     }};
@@ -81,8 +82,11 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
     // Prediction function
     float {predict_function_name}(const float *features, int n_features) {{
         float dist = 0.0;
-        const int class = eml_elliptic_envelope_predict(&{classifier_name},
+        const int outlier = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
+        if (outlier < 0) {{
+            return NAN;
+        }}
         return dist; 
     }}
     '''
-- 
2.43.0


From e7582b44f75cc35d2016fb4a1c9d77d2c79664fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 24/90] fix: eml_dot_product returned bool

---
 emlearn/eml_mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..9e68249 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -14,7 +14,7 @@ extern "C" {
 // numpy.log(2*numpy.pi)
 #define EML_LOG_2PI 1.8378770664093453
 
-bool
+float
 eml_dot_product(float *a, float *b, int n)
 {
     float sum = 0; 
-- 
2.43.0


From 50e077b8bfe28f39d5c4113f1baaaaeb6cbdbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 25/90] fix: mixture inference checks the number of features,
 and does not convert error codes to an enum that lacks them

---
 emlearn/eml_mixture.h | 5 +++--
 emlearn/mixture.py    | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 9e68249..8bba7d7 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -168,6 +168,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
@@ -270,7 +271,7 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_predict_log_proba(model, values, values_length, probabilities);
     if (status != EmlOk) {
         return status;
@@ -295,7 +296,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
     if (status != EmlOk) {
         return status;
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index e892e2a..990a1cb 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -58,7 +58,7 @@ def generate_code(model, name='fss_mode'):
         }}
 
 
-        EmlError
+        int32_t
         {name}_score(const float values[], int32_t values_length, float *probabilities, float *score)
         {{
 
@@ -144,7 +144,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
     if output_type == 'score':
         output_code = f"""
         float score;
-        const EmlError out = {name}_score(features, n_features, output, &score);
+        const int32_t out = {name}_score(features, n_features, output, &score);
         if (out != EmlOk) {{
             return -out; // error
         }}
@@ -153,7 +153,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
     elif output_type == 'predict_log_proba':
         output_code = f"""
         float score;
-        const EmlError out = {name}_score(features, n_features, output, &score);
+        const int32_t out = {name}_score(features, n_features, output, &score);
         if (out != EmlOk) {{
             return -out; // error
         }}
@@ -168,7 +168,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         output_code = f"""
         float score;
         float* resp = (float*)malloc(n_components * sizeof(float));
-        const EmlError out_resp = {name}_predict_proba(features, n_features, output, &score, resp);
+        const int32_t out_resp = {name}_predict_proba(features, n_features, output, &score, resp);
         if (out_resp != EmlOk) {{
             return -out_resp; // error
         }}
-- 
2.43.0


From b5fbbf824177a74f948606acda425b3d9fc3309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 26/90] fix: mixture log-probabilities keep precision when the
 means are far from zero

---
 emlearn/eml_mixture.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 8bba7d7..dbe86df 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -198,16 +198,15 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
                     print_array(precisions, n_precisions);
                     printf("\n");
 #endif
-                    float dot_x = 0.0;
-                    float dot_m = 0.0;
+                    // subtract the mean first, the difference of the dot products loses all
+                    // precision when the means are large compared to the deviations
+                    float y = 0.0f;
                     for (int p=0; p<n_precisions; p++) {
-                        dot_x += (values[p] * precisions[(p*n_features)+f]);
-                        dot_m += (means[p] * precisions[(p*n_features)+f]);
+                        y += ((values[p] - means[p]) * precisions[(p*n_features)+f]);
                     }
-                    const float y = (dot_x - dot_m);
 #if 0
-                    printf("c_yy component=%d feature=%d y=%.4f dot_x=%.4f dot_m=%.4f  \n",
-                            c, f, y, dot_x, dot_m);
+                    printf("c_yy component=%d feature=%d y=%.4f \n",
+                            c, f, y);
 #endif
 
                     log_prob += (y*y);
-- 
2.43.0


From 466ec23447c7cc58b98db25e84e3ed54b26af31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 27/90] fix: mixture code does not mix double into its float
 computations

---
 emlearn/eml_mixture.h | 6 +++---
 emlearn/mixture.py    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index dbe86df..64b7345 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -12,7 +12,7 @@ extern "C" {
 #endif
 
 // numpy.log(2*numpy.pi)
-#define EML_LOG_2PI 1.8378770664093453
+#define EML_LOG_2PI 1.8378770664093453f
 
 float
 eml_dot_product(float *a, float *b, int n)
@@ -183,7 +183,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
         printf("\n");
 #endif
 
-        float log_prob = 0.0;
+        float log_prob = 0.0f;
 
         switch (model->covariance_type) {
 
@@ -231,7 +231,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
 
         }
 
-        out[c] = -0.5 * (n_features * EML_LOG_2PI + log_prob ) + model->log_dets[c];
+        out[c] = -0.5f * (n_features * EML_LOG_2PI + log_prob ) + model->log_dets[c];
 
 #if 0
         printf("c_s component=%d s=%.4f log_det=%.4f weight=%.4f \n",
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 990a1cb..2b3e3d9 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -148,7 +148,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         if (out != EmlOk) {{
             return -out; // error
         }}
-        printf("%f", score);
+        printf("%.9g", (double)score);
         """
     elif output_type == 'predict_log_proba':
         output_code = f"""
@@ -158,7 +158,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out; // error
         }}
         for (int i=0; i<n_components; i++) {{
-            printf("%.6f", output[i]);
+            printf("%.9g", (double)output[i]);
             if (i != (n_components-1)) {{
                 printf(",");
             }}
@@ -173,7 +173,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out_resp; // error
         }}
         for (int i=0; i<n_components; i++) {{
-                printf("%.6f", resp[i]);
+                printf("%.9g", (double)resp[i]);
                 if (i != (n_components-1)) {{
                     printf(",");
                 }}
-- 
2.43.0


From a1e6e8616c18e48f85d9852b20c31f9be29bbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 28/90] fix: refuse unknown inference methods for mixture
 models

---
 emlearn/mixture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 2b3e3d9..2ed8c2d 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -304,7 +304,9 @@ class Wrapper:
 
         if classifier is None:
             classifier = 'loadable'
-    
+        if classifier not in ('loadable', 'inline'):
+            raise ValueError("Unsupported inference method '{}'".format(classifier))
+
         n_components, n_features = estimator.means_.shape
         covariance_type = estimator.covariance_type
         precisions_chol = estimator.precisions_cholesky_
-- 
2.43.0


From dab2394adbb73c4b92d93748c728a89086f8e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 29/90] fix: feature and output values keep single precision
 between Python and the compiled model

---
 emlearn/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..5f54720 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -84,7 +84,7 @@ def build_classifier(cmodel, name, temp_dir,
             {func}; // TODO: handle error
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
@@ -98,7 +98,7 @@ def build_classifier(cmodel, name, temp_dir,
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
             {test_function}(stdin, classify);
@@ -118,11 +118,11 @@ def build_classifier(cmodel, name, temp_dir,
 
     return bin_path
 
-def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
+def run_classifier(bin_path, data, out_dtype='int', float_precision=9):
 
     # Serialize input data as CSV
     def serialize_value(v):
-        return '{:.{prec}f}'.format(v, prec=float_precision)
+        return '{:.{prec}g}'.format(v, prec=float_precision)
 
     lines = []
     for row in data:
-- 
2.43.0


From eac1f0794ce59d407f07d8ca1fe0036181a61972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 30/90] fix: errors in the compiled model are raised instead of
 returning wrong probabilities

---
 emlearn/common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 5f54720..3d0351e 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -81,14 +81,17 @@ def build_classifier(cmodel, name, temp_dir,
         float outputs[N_CLASSES] = {{0.0}};
 
         static void classify_proba(const float *values, int length, int row) {{
-            {func}; // TODO: handle error
+            const int error = {func};
+            if (error != 0) {{
+                exit(1);
+            }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
                 printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
-            {test_function}(stdin, classify_proba);
+            return {test_function}(stdin, classify_proba);
         }}
         """.format(**locals())
     else:
@@ -101,7 +104,7 @@ def build_classifier(cmodel, name, temp_dir,
             printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
-            {test_function}(stdin, classify);
+            return {test_function}(stdin, classify);
         }}
         """.format(**locals())
 
-- 
2.43.0


From 2ccf7cef5b0b07bb4a9144962e7577887939cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 31/90] fix: converting another model does not replace the
 executable of earlier ones

---
 emlearn/common.py | 8 +++++++-
 emlearn/trees.py  | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 3d0351e..bf09b82 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -8,6 +8,7 @@ import os
 import sys
 import subprocess
 import platform
+import tempfile
 from distutils.ccompiler import new_compiler
 
 import numpy
@@ -119,7 +120,7 @@ def build_classifier(cmodel, name, temp_dir,
     cc.link("executable", objects, output_filename=output_filename, 
         output_dir=temp_dir, libraries=libraries)  
 
-    return bin_path
+    return os.path.abspath(bin_path)
 
 def run_classifier(bin_path, data, out_dtype='int', float_precision=9):
 
@@ -169,6 +170,11 @@ class CompiledClassifier():
 
         if include_dir == None:
             include_dir = get_include_dir()
+
+        # Use a unique directory. Otherwise later models would overwrite the executable of this one
+        os.makedirs(temp_dir, exist_ok=True)
+        temp_dir = os.path.relpath(tempfile.mkdtemp(dir=temp_dir, prefix=name+'-'))
+
         self.bin_path = build_classifier(cmodel, name,
                 include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
 
diff --git a/emlearn/trees.py b/emlearn/trees.py
index b25a27a..2d25222 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -768,10 +768,10 @@ class Wrapper:
         if self.method == 'loadable' and self.n_classes > max_classes:
             raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
 
-        self._classifier = None # lazy-initialized by _build_classifier
+        self.classifier_ = None # lazy-initialized by _build_classifier
 
     def _build_classifier(self):
-        if self._classifier is not None:
+        if self.classifier_ is not None:
             return None
 
         name = 'mytree'
-- 
2.43.0


From b6506a14fbae6a07032cbed54d55db772aad1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 32/90] fix: compiled models accept any number of features, and
 refuse rows of another length

---
 emlearn/bayes.py     |  2 +-
 emlearn/common.py    | 30 +++++++++++++++++++++++++-----
 emlearn/distance.py  |  3 ++-
 emlearn/neighbors.py |  2 +-
 emlearn/net.py       |  8 ++++----
 emlearn/trees.py     |  1 +
 6 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index f401ae8..cc5a223 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -116,7 +116,7 @@ class Wrapper(object):
             name = 'mybayes'
             func = 'eml_bayes_predict(&{}_model, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif method == 'inline':
             raise NotImplementedError('NaiveBayes does not support inline C code generation')
         else:
diff --git a/emlearn/common.py b/emlearn/common.py
index bf09b82..1cdaf44 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -40,6 +40,7 @@ def build_classifier(cmodel, name, temp_dir,
         include_dir, func=None, test_function=None, n_classes=None,
         warn_flags=None,
         warn_error=True,
+        n_features=None,
         ):
     if not os.path.exists(temp_dir):
         os.makedirs(temp_dir)
@@ -47,6 +48,14 @@ def build_classifier(cmodel, name, temp_dir,
     if test_function is None:
         test_function = 'eml_test_read_csv'
 
+    # make sure that one line of input fits
+    test_defines = ''
+    if n_features is not None:
+        test_defines = f"""
+        #define EML_CSV_BUFFER_LENGTH ({max(2*1024, 32*n_features)})
+        #define EML_CSV_VALUES_LENGTH ({max(256, n_features)})
+        """
+
     if warn_flags is None:
         warn_flags = default_warn_flags
 
@@ -75,6 +84,7 @@ def build_classifier(cmodel, name, temp_dir,
 
     if n_classes:
         code = """
+        {test_defines}
         #include "{def_file_name}"
         #include <eml_test.h>
 
@@ -98,6 +108,7 @@ def build_classifier(cmodel, name, temp_dir,
     else:
         # Trivial program that reads values on stdin, and returns classifications on stdout
         code = """
+        {test_defines}
         #include "{def_file_name}"
         #include <eml_test.h>
 
@@ -166,7 +177,8 @@ class CompiledClassifier():
             test_function=None,
             out_dtype='int',
             proba_call=None,
-            n_classes=None):
+            n_classes=None,
+            n_features=None):
 
         if include_dir == None:
             include_dir = get_include_dir()
@@ -176,27 +188,35 @@ class CompiledClassifier():
         temp_dir = os.path.relpath(tempfile.mkdtemp(dir=temp_dir, prefix=name+'-'))
 
         self.bin_path = build_classifier(cmodel, name,
-                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
+                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function,
+                n_features=n_features)
 
         self.proba_bin_path = None
         if proba_call is not None:
             self.proba_bin_path = build_classifier(cmodel, name+'_proba',
                     include_dir=include_dir, temp_dir=temp_dir,
                     func=proba_call, n_classes=n_classes,
-                    test_function=test_function)
+                    test_function=test_function, n_features=n_features)
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
+        self.n_features = n_features
 
-    def predict(self, X):
+    def _check_features(self, X):
         X = check_array(X)
+        if self.n_features is not None and X.shape[1] != self.n_features:
+            raise ValueError(f"X has {X.shape[1]} features, but the model expects {self.n_features}")
+        return X
+
+    def predict(self, X):
+        X = self._check_features(X)
 
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
         assert len(out) == len(X), out
         return out
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = self._check_features(X)
 
         if self.proba_bin_path is None:
             raise ValueError('predict_proba() not supported')
diff --git a/emlearn/distance.py b/emlearn/distance.py
index b9236a1..7b17571 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -112,7 +112,8 @@ class Wrapper:
             name = 'my_inline_elliptic'
             func = '{}_predict(values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float',
+                n_features=len(self._means))
         else:
             raise ValueError("Unsupported classifier method '{}'".format(classifier))
 
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 174a5c9..7632f44 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -98,7 +98,7 @@ class Wrapper:
             func = 'predict_func(values, length)'
 
 
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         else:
             raise ValueError(f"Unsupported inference method '{inference}'")
 
diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..a27e94a 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -47,6 +47,7 @@ class Wrapper:
         self.inference_type = classifier
         self.use_fixedpoint = use_fixedpoint
 
+        n_features = self.weights[0].shape[0]
         n_outputs = self.weights[-1].shape[1]
         if n_outputs == 1:
             n_outputs = 2
@@ -59,17 +60,16 @@ class Wrapper:
             func = 'eml_net_predict(&{}, values, length)'.format(name)
             code = self.save(name=name)
             proba_func = 'eml_net_predict_proba(&{}, values, length, outputs, {})'.format(name, n_outputs)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs, n_features=n_features)
         elif self.inference_type == 'loadable' and return_type == 'regressor':
             func = 'eml_net_regress1(&{}, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'classifier':
             code = self.save(name=name)
 
             if self.use_fixedpoint:
                 # inject a conversion between float and fixed-point
-                n_features = self.weights[0].shape[0]
                 code += f"""
                 eml_q16_t {name}_fixed_values[{n_features}];
 
@@ -83,7 +83,7 @@ class Wrapper:
                 func = f'{name}_predict_float(values, length)'                
             else:
                 func = f'{name}_predict(values, length)'
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'regressor':
             raise NotImplementedError("Inline inference not supported for regressors, use loadable instead")
         else:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 2d25222..6853967 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -849,6 +849,7 @@ class Wrapper:
         self.classifier_ = common.CompiledClassifier(code, name=name,
             call=call_func, proba_call=proba_func,
             out_dtype=self.out_dtype, n_classes=self.n_classes,
+            n_features=self.n_features,
         )
 
 
-- 
2.43.0


From c1a0447ed4e3aad4d661657db755570e3c222c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 33/90] fix: eml_net_predict_proba swapped the probabilities of
 networks with two outputs

---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..54796d3 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -303,7 +303,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
-- 
2.43.0


From 0f3d72625165ab68caf7b269f7b9f3ee0c1033ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 34/90] fix: method='inline' for neural networks generates the
 inline code

---
 emlearn/net.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index a27e94a..8f4de6d 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -52,8 +52,9 @@ class Wrapper:
         if n_outputs == 1:
             n_outputs = 2
 
-        if self.use_fixedpoint and self.inference_type != 'inline':
-            raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
+        if self.use_fixedpoint:
+            # eml_net_fixedpoint.h does not compute anything yet
+            raise NotImplementedError("Fixed-point inference is not implemented")
 
         name = 'mynet'
         if self.inference_type == 'loadable' and return_type == 'classifier':
@@ -101,7 +102,11 @@ class Wrapper:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
 
-    def save(self, name=None, file=None, inference=['loadable']):
+    def save(self, name=None, file=None, inference=None):
+
+        if inference is None:
+            inference = [ self.inference_type ]
+
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
@@ -173,7 +178,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From 6565b5122ceecac66055ba81399130aced9d24bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 35/90] fix: inline network code checks the number of features
 before copying them

---
 emlearn/templates/net_float.jinja | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..fc2fe91 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -22,6 +22,8 @@ EmlError
         int32_t buffer_length
     )
 {
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
-- 
2.43.0


From a80ea887665548b7cacca35941bcf7038751cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 36/90] fix: refuse neural networks that would be converted
 into something else

---
 emlearn/net.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 8f4de6d..e1637b2 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -52,6 +52,9 @@ class Wrapper:
         if n_outputs == 1:
             n_outputs = 2
 
+        if self.inference_type == 'loadable' and len(self.weights) < 2:
+            raise ValueError("Networks with a single layer are not supported with 'loadable' inference")
+
         if self.use_fixedpoint:
             # eml_net_fixedpoint.h does not compute anything yet
             raise NotImplementedError("Fixed-point inference is not implemented")
@@ -96,6 +99,8 @@ class Wrapper:
     def predict(self, X):
         if self.return_type == 'classifier':
             return self.classifier.predict(X)
+        elif self.return_type == 'regressor' and self.weights[-1].shape[1] != 1:
+            raise ValueError("predict() only supports regressors with a single output")
         elif self.return_type == 'regressor':
             return self.classifier.regress(X)
         else:
@@ -338,6 +343,9 @@ def convert_sklearn_mlp(model, method, **kwargs):
     if (model.n_layers_ < 3):
         raise ValueError("Model must have at least one hidden layer")
 
+    if model.out_activation_ == 'logistic' and model.n_outputs_ > 1:
+        raise ValueError("Multi-label classifiers are not supported")
+
     weights = model.coefs_
     biases = model.intercepts_
     activations = [model.activation]*(len(weights)-1) + [ model.out_activation_ ]
@@ -374,6 +382,8 @@ def convert_keras(model, method, **kwargs):
     def set_activation(activation):
         # merge dedicated Activation layers into the previous layer
         # TODO: maybe make activation a separate layer in our representation
+        if activations[-1] != 'identity':
+            raise NotImplementedError("Multiple activations in sequence are not supported")
         activations[-1] = activation
 
     for i, l in enumerate(model.layers):
@@ -391,6 +401,7 @@ def convert_keras(model, method, **kwargs):
         elif layer_type == 'ReLU':
             assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
             assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
+            assert l.max_value is None, 'ReLU.max_value must be None'
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
-- 
2.43.0


From 7731b6e2a364c608c9b494842b41b45f4d46d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 37/90] fix: refuse nearest neighbor models with more neighbors
 than items

---
 emlearn/neighbors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 7632f44..73e32f2 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -37,6 +37,8 @@ def check_params_supported(estimator):
 
     # more items/features do not fit the integer types of EmlNeighborsModel
     n_items, n_features = estimator._fit_X.shape
+    if estimator.n_neighbors > n_items:
+        raise ValueError(f'Unsupported n_neighbors: {estimator.n_neighbors}. Only {n_items} items in training set')
     if n_items > 2**15-1 or n_features > 2**15-1:
         raise ValueError(f'Unsupported training set size: {n_items}x{n_features}')
 
-- 
2.43.0


From f72ab39b3f36f2a934fa346053e7e152a6214171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 38/90] fix: public headers compile alone, twice, as C99 with
 warnings, and as C++

---
 emlearn/eml_audio.h      | 10 +++++-----
 emlearn/eml_fft.h        |  4 ++--
 emlearn/eml_fileio.h     | 13 +++++++------
 emlearn/eml_fixedpoint.h |  2 ++
 emlearn/eml_io.h         |  3 +++
 emlearn/eml_neighbors.h  | 11 +++++++++++
 emlearn/eml_quantizer.h  |  4 ++++
 7 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..ab22065 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -27,7 +27,7 @@ eml_audio_power_spectrogram(EmlVector rfft, EmlVector out, int n_fft) {
 
     const float scale = 1.0f/n_fft;
     for (int i=0; i<spec_length; i++) {
-        const float a = (float)fabs(rfft.data[i]);
+        const float a = fabsf(rfft.data[i]);
         out.data[i] = scale * powf(a, 2);
     }
     return EmlOk;
@@ -37,11 +37,11 @@ eml_audio_power_spectrogram(EmlVector rfft, EmlVector out, int n_fft) {
 // in librosa have to use htk=True to match
 float
 eml_audio_mels_from_hz(float hz) {
-    return (float)(2595.0 * log10(1.0 + (hz / 700.0)));
+    return (float)(2595.0 * log10(1.0 + ((double)hz / 700.0)));
 }
 float
 eml_audio_mels_to_hz(float mels) {
-    return (float)(700.0 * (powf(10.0, (float)(mels/2595.0)) - 1.0));
+    return (float)(700.0 * (pow(10.0, (double)mels/2595.0) - 1.0));
 }
 
 
@@ -59,7 +59,7 @@ eml_audio_mel_center(EmlAudioMel params, int n) {
     // Filters are spaced evenly in mel space
     const float melmin = eml_audio_mels_from_hz(params.fmin);
     const float melmax = eml_audio_mels_from_hz(params.fmax);
-    const float melstep = (melmax-melmin)/(params.n_mels+1);
+    const float melstep = (melmax-melmin)/(float)(params.n_mels+1);
 
     const float mel = melmin + (n * melstep);
     const float hz = eml_audio_mels_to_hz(mel);
@@ -67,7 +67,7 @@ eml_audio_mel_center(EmlAudioMel params, int n) {
 }
 int
 eml_audio_mel_bin(EmlAudioMel params, float hz) {
-    const int bin = (int)floor((params.n_fft+1)*(hz/params.samplerate));
+    const int bin = (int)floorf((float)(params.n_fft+1)*(hz/(float)params.samplerate));
     return bin;
 }
 static int
diff --git a/emlearn/eml_fft.h b/emlearn/eml_fft.h
index b40f942..40a56f0 100644
--- a/emlearn/eml_fft.h
+++ b/emlearn/eml_fft.h
@@ -69,8 +69,8 @@ eml_fft_fill(EmlFFT table, size_t n) {
 
 	// Trignometric tables
 	for (size_t i = 0; i < (size_t)(n / 2); i++) {
-		table.cos[i] = (float)cosf(2 * M_PI * i / n);
-		table.sin[i] = (float)sinf(2 * M_PI * i / n);
+		table.cos[i] = (float)cos(2 * M_PI * (double)i / (double)n);
+		table.sin[i] = (float)sin(2 * M_PI * (double)i / (double)n);
 	}
     return EmlOk;
 }
diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 3e3410e..6825059 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -13,6 +13,7 @@ Useful together with EmlCsvReader / EmlCsvWriter and related.
 extern "C" {
 #endif
 
+#include <stdint.h>
 #include <stdio.h>
 
 /**
@@ -20,8 +21,8 @@ extern "C" {
 */
 int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
-    return fwrite(buffer, 1, size, fptr);
+    FILE* fptr = (FILE *)context;
+    return (int)fwrite(buffer, 1, size, fptr);
 }
 
 /**
@@ -29,8 +30,8 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 */
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
-    return fread(buffer, 1, size, fptr);
+    FILE* fptr = (FILE *)context;
+    return (int)fread(buffer, 1, size, fptr);
 }
 
 /**
@@ -38,8 +39,8 @@ int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 */
 int eml_fileio_seek(void *context, size_t position)
 {
-    FILE* fptr = context;
-    return fseek(fptr, position, SEEK_SET);
+    FILE* fptr = (FILE *)context;
+    return fseek(fptr, (long)position, SEEK_SET);
 }
 
 #ifdef __cplusplus
diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 3c5d3b0..a6fa957 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -6,6 +6,8 @@
 extern "C" {
 #endif
 
+#include <stdint.h>
+
 // Fixed-point helpers
 
 /** @typedef eml_fixed32_t
diff --git a/emlearn/eml_io.h b/emlearn/eml_io.h
index 2c9a089..56feb97 100644
--- a/emlearn/eml_io.h
+++ b/emlearn/eml_io.h
@@ -6,6 +6,9 @@
 extern "C" {
 #endif
 
+#include <stddef.h>
+#include <stdint.h>
+
 // I/O functions for streams
 typedef int (*EmlIoReadFunction)(void *context, uint8_t *buffer, size_t size);
 typedef int (*EmlIoSeekFunction)(void *context, size_t position);
diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index cc0a72d..7684767 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -9,6 +9,9 @@ Supports dynamic growth of the model data,
 in order to support on-device learning.
 */
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 #include <eml_common.h>
 #include <eml_log.h>
 #include <eml_qsort.h>
@@ -16,6 +19,10 @@ in order to support on-device learning.
 #include <stdint.h>
 #include <string.h>
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 // Configuration options
 #ifndef EML_NEIGHBORS_LOG_LEVEL
 #define EML_NEIGHBORS_LOG_LEVEL 0
@@ -283,3 +290,7 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#ifdef __cplusplus
+} // extern "C"
+#endif
+#endif // EML_NEIGHBORS_H
diff --git a/emlearn/eml_quantizer.h b/emlearn/eml_quantizer.h
index 2ce3d60..4c641c6 100644
--- a/emlearn/eml_quantizer.h
+++ b/emlearn/eml_quantizer.h
@@ -6,6 +6,10 @@
 extern "C" {
 #endif
 
+#include <stdint.h>
+
+#include "eml_common.h"
+
 typedef struct _EmlQuantizer {
     float scale;
 } EmlQuantizer;
-- 
2.43.0


From 240cb1c02e6768fff589c5ac979033590e0b6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 39/90] fix: CSV reader handles short reads, unterminated last
 line, blank and too long lines; writer reports failed writes

---
 emlearn/eml_csv.h | 153 +++++++++++++++++++++++++++++-----------------
 1 file changed, 98 insertions(+), 55 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..36603e0 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -4,12 +4,19 @@
 // Not intended to parse every wierd "csv" like thing out there
 // Just the well-formed thing, that can be produced from typical PyData etc tools
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 #include <eml_common.h>
 #include <eml_io.h>
 
 #include <stdint.h>
+#include <stdio.h>
 #include <string.h>
 
+#ifdef __cplusplus
+extern "C" {
+#endif
 
 #ifndef EML_CSV_DELIMITER
 #define EML_CSV_DELIMITER ","
@@ -49,30 +56,42 @@ typedef struct _EmlCsvWriter {
 
 
 // Writer
+
+// Write everything, also if the stream accepts less than requested per call
+static EmlError
+eml_csv_writer_write_all(EmlCsvWriter *self, const char *data, size_t length)
+{
+    size_t written = 0;
+    while (written < length) {
+        const int ret = self->write(self->stream, (const uint8_t *)data + written, length - written);
+        if (ret <= 0 || (size_t)ret > (length - written)) {
+            return EmlUnknownError;
+        }
+        written += (size_t)ret;
+    }
+    return EmlOk;
+}
+
 EmlError
 eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_columns)
 {
 
     // Keep number of expected values per row
     self->n_columns = n_columns;
-    const int data_length = n_columns;
 
     const char *delimiter = EML_CSV_DELIMITER;
     const char *endline = EML_CSV_EOL;
 
-    for (int i=0; i<data_length; i++) {
+    for (size_t i=0; i<n_columns; i++) {
         const char *name = columns[i];
-        const int length = strlen(name);
-        self->write(self->stream, (uint8_t *)name, length);
-        const bool is_last = (i == data_length-1);
+        EML_CHECK_ERROR(eml_csv_writer_write_all(self, name, strlen(name)));
+        const bool is_last = (i == n_columns-1);
         if (!is_last) {
-            self->write(self->stream, (uint8_t *)delimiter, 1);
+            EML_CHECK_ERROR(eml_csv_writer_write_all(self, delimiter, 1));
         }
     }
 
-    self->write(self->stream, (uint8_t *)endline, 1);
-
-    return EmlOk;
+    return eml_csv_writer_write_all(self, endline, 1);
 }
 
 EmlError
@@ -84,9 +103,18 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
 
     char buf[EML_CSV_FLOAT_MAXSIZE] = {0,};
     const int max = EML_CSV_FLOAT_MAXSIZE;
-    for (int i=0; i<data_length; i++) {
-        int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
-        if (written >= max) {
+
+    // Check that all values fit, before writing anything. So that there are no partial rows
+    for (size_t i=0; i<data_length; i++) {
+        const int written = snprintf(buf, EML_CSV_FLOAT_MAXSIZE, EML_CSV_FLOAT_FORMAT, (double)data[i]);
+        if (written < 0 || written >= max) {
+            return EmlUnsupported;
+        }
+    }
+
+    for (size_t i=0; i<data_length; i++) {
+        int written = snprintf(buf, EML_CSV_FLOAT_MAXSIZE, EML_CSV_FLOAT_FORMAT, (double)data[i]);
+        if (written < 0 || written >= max) {
             return EmlUnsupported;
         }
         const bool is_last = (i == data_length-1);
@@ -94,11 +122,10 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
             buf[written] = (EML_CSV_DELIMITER)[0];
             written += 1;
         }
-        self->write(self->stream, (uint8_t *)buf, written);
+        EML_CHECK_ERROR(eml_csv_writer_write_all(self, buf, (size_t)written));
     }
-    self->write(self->stream, (uint8_t *)endline, 1);
 
-    return EmlOk;
+    return eml_csv_writer_write_all(self, endline, 1);
 }
 
 // Reader
@@ -107,53 +134,68 @@ EmlError
 eml_csv_reader_read_internal(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length,
-        int *out_columns, int *out_offset
+        int *out_columns, size_t *out_length
         )
 {
+    // out_columns is 0 only at the end of the stream
+    // out_length is the number of characters of the row, including the end-of-line
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
-        self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    // The stream may return less than requested
+    size_t read_length = 0;
+    while (read_length < buffer_length) {
+        const int ret = \
+            self->read(self->stream, (uint8_t *)buffer + read_length, buffer_length - read_length);
+        if (ret < 0 || (size_t)ret > (buffer_length - read_length)) {
+            return EmlUnknownError;
+        }
+        if (ret == 0) {
+            // end of stream
+            break;
+        }
+        read_length += (size_t)ret;
+    }
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
 
     // Find each column
-    int column_idx = 0;
-    int column_start_offset = 0;
-    int offset = -1;
-    for (offset=0; offset<read_length; offset++) {
-
-        if (column_idx >= columns_length) {
-            printf("parse-too-many-columns read=%d max=%lld \n",
-                column_idx, (long long int)columns_length);
-            return EmlUnknownError;
+    size_t column_idx = 0;
+    size_t column_start_offset = 0;
+    size_t row_length = 0;
+    bool row_end = (read_length == 0 && buffer_length > 0); // end of stream
+    for (size_t offset=0; offset<=read_length && !row_end; offset++) {
+
+        const bool stream_end = (offset == read_length);
+        if (stream_end && read_length == buffer_length) {
+            // row does not fit in the buffer
+            return EmlSizeMismatch;
         }
 
-        const char c = buffer[offset];
-        if (c == (EML_CSV_DELIMITER)[0]) {
-            // Keep a pointer to start of this column
-            columns[column_idx] = buffer+column_start_offset;
-            column_start_offset = offset+1;
-            column_idx += 1;
-            // NULL terminate previous string
-            buffer[offset] = '\0';
+        const char c = stream_end ? (EML_CSV_EOL)[0] : buffer[offset];
+        row_end = (c == (EML_CSV_EOL)[0]);
+        if (row_end || c == (EML_CSV_DELIMITER)[0]) {
+
+            if (column_idx >= columns_length) {
+                printf("parse-too-many-columns read=%d max=%d \n",
+                    (int)column_idx, (int)columns_length);
+                return EmlUnknownError;
+            }
 
-        } else if (c == (EML_CSV_EOL)[0]) {
             // Keep a pointer to start of this column
             columns[column_idx] = buffer+column_start_offset;
             column_start_offset = offset+1;
             column_idx += 1;
-            // NULL terminate previous string
+            // NULL terminate the string
             buffer[offset] = '\0';
 
-            break;
+            row_length = stream_end ? offset : (offset + 1);
         }
     }
 
-    *out_columns = column_idx;
-    *out_offset = offset;
+    *out_columns = (int)column_idx;
+    *out_length = row_length;
 
     return EmlOk;
 }
@@ -165,17 +207,17 @@ eml_csv_reader_read_header(EmlCsvReader *self,
         char **columns, size_t columns_length)
 {
     int columns_read = 0;
-    int characters_read = 0;
+    size_t characters_read = 0;
 
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     EML_CHECK_ERROR(read_err);
 
     // Rembember number of columns
-    self->n_columns = columns_read;
+    self->n_columns = (size_t)columns_read;
 
     // Seek to start of data (after end of header)
-    self->stream_location = characters_read+1;
+    self->stream_location = characters_read;
     const int seek_status = self->seek(self->stream, self->stream_location);
     if (seek_status != 0) {
         return EmlUnknownError;
@@ -190,31 +232,28 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
-    int characters_read = 0;
+    size_t characters_read = 0;
 
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
-    if (read_err) {
-        return -EmlUnknownError;
-    }
 
-    if (characters_read == 0) {
-        // EOF presumably
+    if (read_err == EmlOk && columns_read == 0) {
+        // End of stream
         return 0;
     }
 
-    if (columns_read != self->n_columns) {
-#if 0
-        printf("uncorrect-columns read=%d \n", columns_read);
-#endif
+    if (read_err != EmlOk || (size_t)columns_read != self->n_columns) {
+        // Go back to the start of this row.
+        // Otherwise the next call would return something from the middle of a row
+        self->seek(self->stream, self->stream_location);
         return -EmlUnknownError;
     }
 
     // Seek to start of next line
-    self->stream_location += characters_read+1;
+    self->stream_location += characters_read;
     const int seek_status = self->seek(self->stream, self->stream_location);
     if (seek_status != 0) {
         return -EmlUnknownError;
@@ -223,3 +262,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#ifdef __cplusplus
+} // extern "C"
+#endif
+#endif // EML_CSV_H
-- 
2.43.0


From 66a218d03956f5e4ea6259243a2da5be0f466540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 40/90] fix: debug builds report negated error codes, and
 compile as C++

---
 emlearn/eml_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index c1021d4..73df2d5 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -80,7 +80,7 @@ static EmlDebugFunction eml_debug = eml_debug_stderr;
 #define EML_PRECONDITION(expr, errorcode) \
     do { \
         if (!(expr)) { \
-            if (eml_debug) { eml_debug(errorcode, __FILE__, __LINE__); } \
+            if (eml_debug) { eml_debug((EmlError)abs((int)(errorcode)), __FILE__, __LINE__); } \
             return errorcode; \
         } \
     } while (0);
@@ -89,7 +89,7 @@ static EmlDebugFunction eml_debug = eml_debug_stderr;
 #define EML_POSTCONDITION(expr, errorcode) \
     do { \
         if (!(expr)) { \
-            if (eml_debug) { eml_debug(errorcode, __FILE__, __LINE__); } \
+            if (eml_debug) { eml_debug((EmlError)abs((int)(errorcode)), __FILE__, __LINE__); } \
             return errorcode; \
         } \
     } while (0);
-- 
2.43.0


From 668fca7bb4f660591e95ea24f4ef1b18723a66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 41/90] fix: log of the regression output passed a float as
 integer

---
 emlearn/eml_trees.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 649e24a..497c519 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -284,7 +284,7 @@ eml_trees_regress(const EmlTrees *forest,
     out[0] = sum / forest->n_trees;
 
     EML_LOG_BEGIN("eml-trees-regress-end");
-    EML_LOG_ADD_INTEGER("output", out[0]);
+    EML_LOG_ADD_FLOAT("output", (double)out[0]);
     EML_LOG_END();
 
     return EmlOk;
-- 
2.43.0


From 523b0a7a5820ea713d673d4b66b1142704d55d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 42/90] fix: bindings throw exceptions by value, a pointer
 aborts the process

---
 bindings/emlpy_common.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..4b5701a 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -4,7 +4,7 @@
 
 #include <eml_common.h>
 
-#include <exception>
+#include <stdexcept>
 
 namespace emlpy {
 
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From 5dcbb61dc1d29a97ee922088d315d0a442fe2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 43/90] fix: iirfilter read outside coefficients that are not 6
 per stage

---
 bindings/eml_signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..28c7af4 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -21,6 +21,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS must have 6 coefficients per stage");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
 
     const int n_stages = (int)sos.shape(0);
-- 
2.43.0


From 08c1d7403f3ec3b57575901eddd7922cc14711d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 44/90] fix: sparse_filterbank binding read outside the input
 and coefficients

---
 bindings/eml_audio.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 430007e..bcb70ac 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -146,6 +146,20 @@ sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecas
     EMLPY_PRECONDITION(coeffs.ndim() == 1, "Coefficients must have dim 1");
     EMLPY_PRECONDITION(starts.shape(0) == stops.shape(0), "Number of starts must equals stops");
 
+    // Filters must be inside the input, and have all their coefficients
+    py::ssize_t coefficients = 0;
+    for (py::ssize_t i=0; i<starts.shape(0); i++) {
+        const py::ssize_t start = starts.data()[i];
+        const py::ssize_t stop = stops.data()[i];
+        if (stop < start) {
+            continue; // empty filter
+        }
+        EMLPY_PRECONDITION(start >= 0, "Start must not be negative");
+        EMLPY_PRECONDITION(stop < in.shape(0), "Stop must be inside the input");
+        coefficients += (stop - start) + 1;
+    }
+    EMLPY_PRECONDITION(coefficients <= coeffs.shape(0), "Number of coefficients must match starts and stops");
+
     const int output_length = (int)starts.shape(0);
     auto ret = py::array_t<float>(output_length);
 
-- 
2.43.0


From a98abfc4e580b8f4ede9901b081b85bd4d0768c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 45/90] fix: mel filters are triangles inside the spectrum,
 never read outside of it

---
 emlearn/eml_audio.h | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ab22065..64004b3 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -92,42 +92,34 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
     const int max_bin = 1+mel.n_fft/2;
     EML_PRECONDITION(max_bin <= spec.length, EmlSizeMismatch);
     EML_PRECONDITION(mel.n_mels == mels.length, EmlSizeMismatch);
+    EML_PRECONDITION(mel.n_fft >= 2 && mel.samplerate > 0, EmlUnsupported);
+    // filters must be inside the spectrum
+    EML_PRECONDITION(mel.fmin >= 0.0f && mel.fmax > mel.fmin, EmlUnsupported);
+    EML_PRECONDITION(mel.fmax <= (float)mel.samplerate/2.0f, EmlUnsupported);
 
     // Note: no normalization
     for (int m=1; m<mel.n_mels+1; m++) {
         const int left = mel_bin(mel, m-1);
-        const int center = mel_bin(mel, m);
         const int right = mel_bin(mel, m+1);
 
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
         const float fdifflow = eml_audio_mel_center(mel, m) - eml_audio_mel_center(mel, m-1);
         const float fdiffupper = eml_audio_mel_center(mel, m+1) - eml_audio_mel_center(mel, m);
 
-        //fprintf(stderr, "mel %d:(%d, %d, %d) \n", m, left, center, right);
-
         float val = 0.0f;
-        for (int k=left; k<=center; k++) {
-            const float r = eml_audio_mel_center(mel, m-1) - eml_fft_freq(mel, k);
-            const float weight = eml_max(eml_min(-r/fdifflow, 1.0f), 0.0f);
-            //if (m == 2) {
-            //    fprintf(stderr, "k=%d wl=%f \n", k, weight);
-            //}
+        for (int k=left; k<=right; k++) {
+            const float freq = eml_fft_freq(mel, k);
+            const float rise = (freq - eml_audio_mel_center(mel, m-1)) / fdifflow;
+            const float fall = (eml_audio_mel_center(mel, m+1) - freq) / fdiffupper;
+            const float weight = eml_max(eml_min(rise, fall), 0.0f);
             val += spec.data[k] * weight;
         }
-        for (int k=center; k<right; k++) {
-            const float r = eml_audio_mel_center(mel, m+1) - eml_fft_freq(mel, k+1);
-            const float weight = eml_max(eml_min(r/fdiffupper, 1.0f), 0.0f);
-            //if (m == 2) {
-            //    fprintf(stderr, "k=%d, wr=%f \n", k, weight);
-            //}
-            val += spec.data[k+1] * weight;
-        }
         //fprintf(stderr, "mel %d: val=%f\n", m, val);
 
         mels.data[m-1] = val;
-- 
2.43.0


From 84196e393de4e0ce1644f1d4cfbbd83b734954f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 46/90] fix: eml_audio_melspectrogram checks its buffers before
 using them

---
 emlearn/eml_audio.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 64004b3..24897d4 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -146,7 +146,12 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
- 
+
+    EML_PRECONDITION(inout.length == n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(temp.length >= n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(fft.length == n_fft/2, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels >= 0 && n_mels <= inout.length, EmlSizeMismatch);
+
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
 
-- 
2.43.0


From 67e803b397d18cbf5bd2b5ac6ed3585b26106402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 47/90] fix: Hann window of length 1 is not NaN

---
 emlearn/eml_vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index c7b0811..4e57c96 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -64,6 +64,11 @@ eml_signal_mean(float *data, int length)
 EmlError
 eml_signal_hann_apply(float *data, int length)
 {
+    if (length == 1) {
+        // the window is 1.0
+        return EmlOk;
+    }
+
     for (int i=0; i<length; i++) {
         float m = (float)(0.5 * (1 - cos(2*M_PI*i/(length-1))));
         data[i] = m * data[i];
-- 
2.43.0


From 38fb4c1fe3c2da76e4e5a70f92649a601442c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 48/90] fix: eml_array_init_full checks all dimensions before
 changing the array

---
 emlearn/eml_array.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..4462c96 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -50,6 +50,17 @@ eml_array_init_full(EmlArray *self,
     EML_PRECONDITION(n_dims >= 1, EmlSizeMismatch);
     EML_PRECONDITION(dimensions[0] >= 1, EmlSizeMismatch);
 
+    EML_PRECONDITION(value_size >= 1, EmlSizeMismatch);
+
+    // The element count must not overflow
+    int64_t elements = 1;
+    for (int d=0; d<n_dims; d++) {
+        EML_PRECONDITION(dimensions[d] >= 0, EmlSizeMismatch);
+        EML_PRECONDITION(elements == 0 || dimensions[d] <= (INT32_MAX / elements), EmlSizeMismatch);
+        elements *= dimensions[d];
+    }
+    EML_PRECONDITION(elements <= (INT32_MAX / value_size), EmlSizeMismatch);
+
     const size_t buffer_needed = eml_storage_size_array(n_dims, dimensions, value_size);
     EML_PRECONDITION(buffer_needed <= buffer_length, EmlSizeMismatch);
 
@@ -61,7 +72,6 @@ eml_array_init_full(EmlArray *self,
     self->n_dims = n_dims;
     for (int d=0; d<n_dims; d++) {
         self->dims[d] = dimensions[d];
-        EML_PRECONDITION(self->dims[d] >= 0, EmlSizeMismatch);
     }
 
     self->value_size = value_size;
-- 
2.43.0


From 433e841f83550803f05371bbd397bedad5a4be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 49/90] fix: array row operations check value size, and their
 checks do not overflow

---
 emlearn/eml_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 4462c96..8f5332f 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -169,7 +169,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
+    EML_PRECONDITION(shift >= -rows && shift <= rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
     const size_t row_size = self->value_size * self->dims[0];
@@ -212,11 +212,13 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same type of values
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= (self->dims[1] - other->dims[1]), EmlSizeMismatch);
 
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From 375f85ee9ff42d8b32aafb0d9b4955648ccbf501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 50/90] fix: sparse_filterbank keeps zeros inside a filter, and
 supports empty filters

---
 emlearn/signal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..754856a 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -16,10 +16,15 @@ def sparse_filterbank(mels):
     for mel_idx in range(mels.shape[0]):
         mel = mels[mel_idx]
         nonzero = numpy.nonzero(mel)[0]
+        if len(nonzero) == 0:
+            # empty filter. Has no coefficients
+            starts.append(0)
+            ends.append(-1)
+            continue
         first, last = nonzero[0], nonzero[-1]
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
-- 
2.43.0


From d31aaf197be4087ca775ba217479205dd0f62a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 51/90] fix: filterbank frequency limits are not truncated to
 integers

---
 emlearn/signal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 754856a..1c6e7e1 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -34,6 +34,11 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
     assert len(starts) == len(ends)
     n_bands = len(starts)
 
+    def frequency_declare(constant_name, val):
+        # do not truncate to integer
+        dtype = 'int' if float(val).is_integer() else 'float'
+        return cgen.constant_declare(constant_name, val=val, dtype=dtype)
+
     arrays = [
         cgen.constant_declare(name+'_bands', val=n_bands),
         cgen.array_declare(name+'_starts', len(starts), dtype='int', values=starts),
@@ -55,11 +60,11 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
         ]
     if fmax is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmax', val=fmax),
+            frequency_declare(name+'_fmax', fmax),
         ]
     if fmin is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmin', val=fmin),
+            frequency_declare(name+'_fmin', fmin),
         ]
 
     out = '\n\n'.join(arrays)
-- 
2.43.0


From 1474427141c4ed593c109b41a97806c06f998d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 52/90] fix: line wrapping does not break numbers in generated
 tables

---
 emlearn/tools/mel_filterbank.py  | 3 ++-
 emlearn/tools/window_function.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 25c0a80..3f4bd1d 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -25,7 +25,8 @@ def mel_filterbank(args, name):
     gen = emlearn.signal.sparse_filterbank_serialize(sparse, name=name, frequencies=frequencies,
             n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)
 
-    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False)
+    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False,
+                      break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index 679c1a7..a102f5d 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -46,7 +46,7 @@ def window_function(name, window_type, length, fft_mode, linewrap):
     ]
     gen = '\n'.join(arrays)
 
-    w = textwrap.wrap(gen, linewrap)
+    w = textwrap.wrap(gen, linewrap, break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
-- 
2.43.0


From 7f4f7b318b45a170c0f60ae6b51b6f621e48d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 53/90] fix: eml-mel-filterbank ignored the value of boolean
 options

---
 emlearn/tools/mel_filterbank.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 3f4bd1d..abba92f 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -31,6 +31,16 @@ def mel_filterbank(args, name):
     return wrapped
 
 
+def parse_bool(s):
+    # bool('False') would be True
+    value = s.strip().lower()
+    if value in ('true', 'yes', 'on', '1'):
+        return True
+    if value in ('false', 'no', 'off', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError(f"Not a boolean: '{s}'")
+
+
 def parse(args=None):
     parser = argparse.ArgumentParser(description='Generate filterbank for Mel spectrogram')
     a = parser.add_argument
@@ -46,9 +56,9 @@ def parse(args=None):
       help='Frequency of lowest band. Default: 0')
     a('--fmax', type=int, default=None,
       help='Frequency of highest band. Default: samplerate/2')
-    a('--htk', type=bool, default=False,
+    a('--htk', type=parse_bool, default=False,
       help='Use HTK style filter spacing')
-    a('--normalize', type=bool, default=True,
+    a('--normalize', type=parse_bool, default=True,
       help='Normalize to have constant energy per band')
 
     a('--name', type=str, default='',
-- 
2.43.0


From 4eceb0f242cfa2e01f0a18cf33d2fa9a8dbfe892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 54/90] fix: quantizing NaN is not an undefined conversion

---
 emlearn/eml_quantizer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_quantizer.h b/emlearn/eml_quantizer.h
index 4c641c6..860d320 100644
--- a/emlearn/eml_quantizer.h
+++ b/emlearn/eml_quantizer.h
@@ -31,6 +31,9 @@ eml_quantizer_check_forward_int16(EmlQuantizer *self,
 
     for (int i=0; i<values_length; i++) {
         float scaled = values[i] * self->scale;
+        if (scaled != scaled) {
+            scaled = 0.0f; // NaN cannot be represented
+        }
         if (scaled < min_value) {
             underflows += 1;
             scaled = min_value;
-- 
2.43.0


From 35f16c70c954d8bc2ae9ef8294c6df964b43f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 55/90] fix: Quantizer saturates instead of wrapping for 32/64
 bit, unsigned and too large out_max

---
 emlearn/preprocessing/quantizer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 310a619..9e9619b 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -29,6 +29,8 @@ class Quantizer(BaseEstimator, TransformerMixin):
 
     def _get_out_max(self):
         if self.out_max is not None:
+            if numpy.issubdtype(self.dtype, numpy.integer) and self.out_max > numpy.iinfo(self.dtype).max:
+                raise ValueError(f"out_max={self.out_max} does not fit in {self.dtype}")
             return self.out_max
 
         info = None
@@ -66,12 +68,18 @@ class Quantizer(BaseEstimator, TransformerMixin):
 
     def transform(self, X, y=None):
 
-        # scale
-        out = X * self.scale_
+        # scale. In double precision, to be able to represent the integers
+        out = X.astype(float) * self.scale_
 
         # clip out-of-range values
         out_max = self._get_out_max()
-        out = numpy.clip(out, -out_max, out_max)
+        out_min = -out_max
+        if numpy.issubdtype(self.dtype, numpy.integer):
+            out_min = max(out_min, numpy.iinfo(self.dtype).min)
+            if int(float(out_max)) > out_max:
+                # 64 bit integers
+                out_max = numpy.nextafter(float(out_max), 0.0)
+        out = numpy.clip(out, out_min, out_max)
 
         # quantize / convert dtype
         out = out.astype(self.dtype)
-- 
2.43.0


From 5f2de2b82fe6e36da07f9932c705bb34c8851e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 56/90] fix: Pareto front includes rows with identical costs

---
 emlearn/evaluate/pareto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index d85033f..aa77c2d 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -19,7 +19,9 @@ def is_pareto_efficient_simple(costs):
     is_efficient = numpy.ones(costs.shape[0], dtype = bool)
     for i, c in enumerate(costs):
         if is_efficient[i]:
-            is_efficient[is_efficient] = numpy.any(costs[is_efficient] < c, axis=1)  # Keep any point with a lower cost
+            others = costs[is_efficient]
+            # Keep any point with a lower cost, or with the same costs
+            is_efficient[is_efficient] = numpy.any(others < c, axis=1) | numpy.all(others == c, axis=1)
             is_efficient[i] = True  # And keep self
     return is_efficient
 
-- 
2.43.0


From 4ca417a8203fa2d47a7bed6a8afdaba8a4012aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 57/90] fix: find_pareto_front overwrote the mean_test_score
 column

---
 emlearn/evaluate/pareto.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index aa77c2d..b8ba1d0 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -42,16 +42,13 @@ def find_pareto_front(df,
     :returns: The rows that make up the Pareto front
     """
 
-    # prevnt mutating input    
-    df = df.copy()
-
     # flip to negative-is-better
+    # NOTE: must not modify the columns
+    performance = df[performance_metric].values
     if higher_is_better:
-        df['mean_test_score'] = -df[performance_metric]
-    else:
-        df['mean_test_score'] = df[performance_metric]
+        performance = -performance
 
-    pp = is_pareto_efficient_simple(df[['mean_test_score', cost_metric]].values)
+    pp = is_pareto_efficient_simple(numpy.column_stack([performance, df[cost_metric].values]))
     
     if min_performance is not None:
         if higher_is_better:
-- 
2.43.0


From f873028d517d9e7cc717798d8f493c2234d8a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 58/90] fix: error message for unsupported platform

---
 emlearn/evaluate/size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index 94bb593..eb8d7d4 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -181,7 +181,7 @@ def assert_valid_platform(platform : str):
 
     supported_platforms = set(PLATFORM_BUILDERS.keys())
     if platform not in supported_platforms:
-        raise ValueError("Unsupported build platform '{platform}'. Supported: {','.join(supported_platforms)}")
+        raise ValueError(f"Unsupported build platform '{platform}'. Supported: {','.join(supported_platforms)}")
 
 def get_program_size(code : str, platform : str, mcu : str, include_dirs=None) -> (int, int):
     """
-- 
2.43.0


From 073ee00a940e67210135aa48f500a39042be2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 59/90] fix: model_size_bytes counts the leaf bytes of
 classifiers

---
 emlearn/evaluate/trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/trees.py b/emlearn/evaluate/trees.py
index 29d1c95..2596111 100644
--- a/emlearn/evaluate/trees.py
+++ b/emlearn/evaluate/trees.py
@@ -60,7 +60,11 @@ def model_size_bytes(model, a=None, b=None, node_size=None, leaf_size=None):
         em = convert_model(model)
 
     if leaf_size is None:
-        leaf_size = math.ceil(em.leaf_bits/8)
+        if em.is_classifier:
+            # 1 byte with the class index, or with soft voting 1 byte per class
+            leaf_size = em.n_classes if em.leaf_bits > 0 else 1
+        else:
+            leaf_size = math.ceil(em.leaf_bits/8)
 
     nodes = model_size_nodes(em)
     leaves = model_size_leaves(em)
-- 
2.43.0


From 24eceb42b15429dd523354fedef6288c27e0d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 60/90] fix: softmax probabilities of large inputs sum to 1

---
 emlearn/eml_net.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 54796d3..9a1bd34 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -76,12 +76,13 @@ eml_net_softmax(float *input, size_t input_length)
 
     float sum = 0.0f;
     for (size_t i = 0; i < input_length; i++) {
-        sum += expf(input[i] - input_max);
+        // input_max is subtracted before anything else, so that large inputs do not lose precision
+        input[i] = expf(input[i] - input_max);
+        sum += input[i];
     }
 
-    const float offset = input_max + logf(sum);
     for (size_t i = 0; i < input_length; i++) {
-        input[i] = expf(input[i] - offset);
+        input[i] = input[i] / sum;
     }
 
     return EmlOk;
-- 
2.43.0


From c43500de53d4b54ec4e0ade573400b91a9b0c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 61/90] fix: naive Bayes values outside of the fixed-point
 range saturate, and models outside of it are refused

---
 emlearn/bayes.py    |  2 ++
 emlearn/eml_bayes.h | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index cc5a223..f889688 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -105,6 +105,8 @@ class Wrapper(object):
                 std = numpy.sqrt(variance[class_n,feature_n])
                 if int(std * 2**16) < 1:
                     raise ValueError(f"Standard deviation of feature {feature_n} in class {class_n} is too small for fixed-point: {std}")
+                if not (abs(mean) < 2**15 and std < 2**15):
+                    raise ValueError(f"Feature {feature_n} in class {class_n} is outside the range of fixed-point: mean={mean} std={std}")
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
         self.model = model
diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index b148570..ebb017f 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -95,6 +95,21 @@ eml_bayes_logpdf(eml_q16_t x, eml_q16_t mean, eml_q16_t std, eml_q16_t stdlog2)
    return p; 
 }
 
+// Convert to fixed-point. Saturates for values outside the range, and NaN is converted to 0
+static eml_q16_t
+eml_bayes_value(float value)
+{
+    const float max_value = 32767.0f;
+    if (value > max_value) {
+        value = max_value;
+    } else if (value < -max_value) {
+        value = -max_value;
+    } else if (value != value) {
+        value = 0.0f;
+    }
+    return EML_Q16_FROMFLOAT(value);
+}
+
 /**
 * \brief Make prediction and return most-probable class
 *
@@ -123,7 +138,7 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
       for (int value_idx = 0; value_idx<values_length; value_idx++) {
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
-         const eml_q16_t val = EML_Q16_FROMFLOAT(values[value_idx]);
+         const eml_q16_t val = eml_bayes_value(values[value_idx]);
          const int64_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
 
          class_p += plog;
-- 
2.43.0


From f24b2384dd33fde3e0d98744bb65c03aae5f430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 62/90] fix: mixture responsibilities sum to 1 also far from
 all components

---
 emlearn/eml_mixture.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 64b7345..cb8b9f9 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -300,13 +300,19 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     if (status != EmlOk) {
         return status;
     }
+    // Subtract the largest instead of the score before exp(), and normalize with the sum.
+    // Far from all components the rounding of the score alone would make the sum differ from 1
+    float max_log_proba = 0.0f;
+    eml_minmax(probabilities, model->n_components, NULL, &max_log_proba);
+
+    float sum = 0.0f;
     for (int i=0; i < model -> n_components; i++) {
-        out_resp[i] = probabilities[i] - *out_score;
+        out_resp[i] = expf(probabilities[i] - max_log_proba);
+        sum += out_resp[i];
     }
-    // Now take the exp() for each member of the array
     for (int i=0; i < model -> n_components; i++) {
-        out_resp[i] = expf(out_resp[i]); // compute their exponential values in-place.
-    } 
+        out_resp[i] = out_resp[i] / sum;
+    }
     return EmlOk;
     
 }
-- 
2.43.0


From b50d27ee1343fdf2a494b4a2c80a342c45ad326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 63/90] fix: eml_trees_predict_proba and eml_trees_regress
 check the number of features

---
 emlearn/eml_trees.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 497c519..4a0eb44 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -124,6 +124,7 @@ eml_trees_predict_proba(const EmlTrees *self,
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
 
     for (int i=0; i<out_length; i++) {
         out[i] = 0.0f;
@@ -260,7 +261,7 @@ eml_trees_regress(const EmlTrees *forest,
     EML_LOG_ADD_INTEGER("features-input", features_length);
     EML_LOG_END();
 
-    if (out_length < 1) {
+    if (out_length < 1 || features_length != forest->n_features) {
         return EmlSizeMismatch;
     }
 
-- 
2.43.0


From 657acb9c0835550a6de85076c5c75c469044cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 64/90] fix: eml_vector_set checks the location without integer
 overflow

---
 emlearn/eml_vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index 4e57c96..2243dc4 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -18,13 +18,13 @@ typedef struct {
 
 int
 eml_vector_set(EmlVector dest, EmlVector source, int location) {
-    const int final_dest = source.length+location;
-    if (final_dest > dest.length) {
-        return -1;
-    }
     if (location < 0) {
         return -2;
     }
+    if (location > dest.length - source.length) {
+        return -1;
+    }
+    const int final_dest = source.length+location;
 
     for (int i=location; i<final_dest; i++) {
         dest.data[i] = source.data[i-location]; 
-- 
2.43.0


From a5a54dd6d5ce75457a945749bff037fc7b7d7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 65/90] fix: eml_bayes_log2fix checks the precision before
 using it, and refuses 31 bits instead of looping forever

---
 emlearn/eml_bayes.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index ebb017f..970dcc0 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -30,14 +30,15 @@ typedef struct _EmlBayesModel {
 static inline
 int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 {
-    int32_t b = 1U << (precision - 1);
-    int32_t y = 0;
-
-    if (precision < 1 || precision > 31) {
+    // with 31 bits the comparison with 2 << precision below would overflow
+    if (precision < 1 || precision > 30) {
         //errno = EINVAL;
         return INT32_MAX; // indicates an error
     }
 
+    int32_t b = 1U << (precision - 1);
+    int32_t y = 0;
+
     if (x == 0) {
         return INT32_MIN; // represents negative infinity
     }
-- 
2.43.0


From dd947ea5486861c305991b81be8fc1bf8d0417dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 66/90] fix: eml_iir_check does not overflow on a large number
 of stages

---
 emlearn/eml_iir.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_iir.h b/emlearn/eml_iir.h
index b9dc39d..9b25b1c 100644
--- a/emlearn/eml_iir.h
+++ b/emlearn/eml_iir.h
@@ -57,8 +57,8 @@ eml_iir_check(EmlIIR filter) {
     EML_PRECONDITION(filter.n_stages >= 1, EmlUninitialized);
     EML_PRECONDITION(filter.states, EmlUninitialized);
     EML_PRECONDITION(filter.coefficients, EmlUninitialized);
-    EML_PRECONDITION(filter.states_length == filter.n_stages*4, EmlSizeMismatch);
-    EML_PRECONDITION(filter.coefficients_length == filter.n_stages*6, EmlSizeMismatch);
+    EML_PRECONDITION(filter.states_length == (int64_t)filter.n_stages*4, EmlSizeMismatch);
+    EML_PRECONDITION(filter.coefficients_length == (int64_t)filter.n_stages*6, EmlSizeMismatch);
     return EmlOk;
 }
 
-- 
2.43.0


From d867fa51a3f04d0a1589d1b99710354430667ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 67/90] fix: row size of arrays without rows does not overflow

---
 emlearn/eml_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8f5332f..415c88f 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -172,7 +172,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     EML_PRECONDITION(shift >= -rows && shift <= rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * (size_t)self->dims[0];
 
 #if 0
     EML_LOG_BEGIN("eml_array_shift_rows_begin");
@@ -221,7 +221,7 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start <= (self->dims[1] - other->dims[1]), EmlSizeMismatch);
 
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * (size_t)self->dims[0];
 
     for (int i=0; i<other->dims[1]; i++) {
 
-- 
2.43.0


From d75d7635652a51ad7df541bebe11e761e9440ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 68/90] fix: eml_net_regress and eml_net_predict_proba refuse
 uninitialized networks instead of reading outside of them

---
 emlearn/eml_net.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 9a1bd34..f6c5f9a 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -297,6 +297,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     const int32_t n_outputs = eml_net_outputs_proba(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
 
@@ -365,7 +366,9 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
     EML_CHECK_ERROR(eml_net_infer(model, features, features_length));
-- 
2.43.0


From 7a539727daa05ea5ea98afa2c768b7bbe663202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 69/90] fix: eml_audio_melspectrogram checks its parameters
 before changing the buffers

---
 emlearn/eml_audio.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 24897d4..b327c9a 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -83,6 +83,15 @@ eml_fft_freq(EmlAudioMel params, int n) {
     return (n*end)/steps;
 }
 
+// Check that all filters are inside the spectrum
+static EmlError
+eml_audio_mel_check(EmlAudioMel mel) {
+    EML_PRECONDITION(mel.n_fft >= 2 && mel.samplerate > 0, EmlUnsupported);
+    EML_PRECONDITION(mel.fmin >= 0.0f && mel.fmax > mel.fmin, EmlUnsupported);
+    EML_PRECONDITION(mel.fmax <= (float)mel.samplerate/2.0f, EmlUnsupported);
+    return EmlOk;
+}
+
 /**
 \brief Reduce a SFTF/linear spectrum to Mel-scale coefficiens
 */
@@ -92,10 +101,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
     const int max_bin = 1+mel.n_fft/2;
     EML_PRECONDITION(max_bin <= spec.length, EmlSizeMismatch);
     EML_PRECONDITION(mel.n_mels == mels.length, EmlSizeMismatch);
-    EML_PRECONDITION(mel.n_fft >= 2 && mel.samplerate > 0, EmlUnsupported);
-    // filters must be inside the spectrum
-    EML_PRECONDITION(mel.fmin >= 0.0f && mel.fmax > mel.fmin, EmlUnsupported);
-    EML_PRECONDITION(mel.fmax <= (float)mel.samplerate/2.0f, EmlUnsupported);
+    EML_CHECK_ERROR(eml_audio_mel_check(mel));
 
     // Note: no normalization
     for (int m=1; m<mel.n_mels+1; m++) {
@@ -151,6 +157,9 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     EML_PRECONDITION(temp.length >= n_fft, EmlSizeMismatch);
     EML_PRECONDITION(fft.length == n_fft/2, EmlSizeMismatch);
     EML_PRECONDITION(n_mels >= 0 && n_mels <= inout.length, EmlSizeMismatch);
+    // check everything before the buffers are modified
+    EML_PRECONDITION(n_fft > s_length && (n_fft & (n_fft-1)) == 0, EmlSizeMismatch);
+    EML_CHECK_ERROR(eml_audio_mel_check(mel_params));
 
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
-- 
2.43.0


From e46c64d5543963b0555bbf959103bc47f240afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 70/90] fix: tree inference checks all of features_length
 instead of its lowest 8 bits

---
 emlearn/eml_trees.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 4a0eb44..a018390 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -73,7 +73,7 @@ Returns an offset into the leaves structure
 */
 static int32_t
 eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
-                        const int16_t *features, int8_t features_length)
+                        const int16_t *features, int32_t features_length)
 {
     int32_t node_idx = tree_root;
 
@@ -117,7 +117,7 @@ eml_trees_outputs_proba(const EmlTrees *self)
 
 EmlError
 eml_trees_predict_proba(const EmlTrees *self,
-            const int16_t *features, int8_t features_length,
+            const int16_t *features, int32_t features_length,
             float *out, int32_t out_length)
 {
     EML_PRECONDITION(features, EmlUninitialized);
@@ -192,7 +192,7 @@ eml_trees_predict_proba(const EmlTrees *self,
 * \return The class number, or -EmlTreesError on failure
 */
 int32_t
-eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t features_length)
+eml_trees_predict(const EmlTrees *forest, const int16_t *features, int32_t features_length)
 {
     EML_LOG_BEGIN("eml-trees-predict-start");
     EML_LOG_ADD_INTEGER("classes", forest->n_classes);
@@ -251,7 +251,7 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t featur
 */
 EmlError
 eml_trees_regress(const EmlTrees *forest,
-        const int16_t *features, int8_t features_length,
+        const int16_t *features, int32_t features_length,
         float *out, int8_t out_length)
 {
 
@@ -302,7 +302,7 @@ eml_trees_regress(const EmlTrees *forest,
 */
 float
 eml_trees_regress1(const EmlTrees *forest,
-        const int16_t *features, int8_t features_length)
+        const int16_t *features, int32_t features_length)
 {
     float out[1];
     EmlError err = eml_trees_regress(forest,
-- 
2.43.0


From 08aa2a9618e7cb720ced8944ca858915bf0e1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 71/90] fix: eml_argmax_fixed32 returns the first index when
 the first value is the largest

---
 emlearn/eml_net_fixedpoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 9bf0a0e..5c0e0cf 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -76,8 +76,8 @@ eml_argmax_fixed32(const eml_fixed32_t *values, int values_length)
     }
 
     eml_fixed32_t vmax = values[0];
-    int32_t argmax = -1;
-    for (int i=0; i<values_length; i++) {
+    int32_t argmax = 0;
+    for (int i=1; i<values_length; i++) {
         if (values[i] > vmax) {
             vmax = values[i];
             argmax = i;
-- 
2.43.0


From fe3f476b9603e001e31ec88f300d644a77a45603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 72/90] fix: quantizer saturates 64 bit integers symmetrically

---
 emlearn/preprocessing/quantizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 9e9619b..e6af265 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -73,12 +73,12 @@ class Quantizer(BaseEstimator, TransformerMixin):
 
         # clip out-of-range values
         out_max = self._get_out_max()
+        if numpy.issubdtype(self.dtype, numpy.integer) and int(float(out_max)) > out_max:
+            # 64 bit integers
+            out_max = numpy.nextafter(float(out_max), 0.0)
         out_min = -out_max
         if numpy.issubdtype(self.dtype, numpy.integer):
             out_min = max(out_min, numpy.iinfo(self.dtype).min)
-            if int(float(out_max)) > out_max:
-                # 64 bit integers
-                out_max = numpy.nextafter(float(out_max), 0.0)
         out = numpy.clip(out, out_min, out_max)
 
         # quantize / convert dtype
-- 
2.43.0


From 6aab50881cc496190fa651ba83cf6bc8d13c25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 73/90] fix: Pareto front of unsigned integer performance is
 not inverted

---
 emlearn/evaluate/pareto.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index b8ba1d0..506f75b 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -46,7 +46,8 @@ def find_pareto_front(df,
     # NOTE: must not modify the columns
     performance = df[performance_metric].values
     if higher_is_better:
-        performance = -performance
+        # unsigned integers can not be negated
+        performance = -performance.astype(float)
 
     pp = is_pareto_efficient_simple(numpy.column_stack([performance, df[cost_metric].values]))
     
-- 
2.43.0


From 89c12d098d36833f80f2287265f88ca00cfe3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 74/90] fix: bindings copy unaligned arrays instead of reading
 them in place

---
 bindings/eml_audio.cpp    | 14 +++++++-------
 bindings/eml_signal.cpp   |  4 ++--
 bindings/emlpy_common.hpp |  8 ++++++++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index bcb70ac..3c86086 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -17,7 +17,7 @@ namespace py = pybind11;
 
 
 py::array_t<float>
-rfft_py(py::array_t<float, py::array::c_style | py::array::forcecast> in) {
+rfft_py(emlpy::InputArray<float> in) {
     if (in.ndim() != 1) {
         throw std::runtime_error("SFT input must have dimensions 1");
     }
@@ -58,7 +58,7 @@ rfft_py(py::array_t<float, py::array::c_style | py::array::forcecast> in) {
 
 
 py::array_t<float>
-melfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> in,
+melfilter_py(emlpy::InputArray<float> in,
     int samplerate, int n_fft, int n_mels, float fmin, float fmax
 )
 {
@@ -87,7 +87,7 @@ melfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> in,
 
 
 py::array_t<float>
-melspectrogram_py(py::array_t<float, py::array::c_style | py::array::forcecast> in,
+melspectrogram_py(emlpy::InputArray<float> in,
     int samplerate, int n_fft, int n_mels, float fmin, float fmax
 )
 
@@ -134,10 +134,10 @@ melspectrogram_py(py::array_t<float, py::array::c_style | py::array::forcecast>
 
 
 py::array_t<float>
-sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecast> in,
-    py::array_t<int, py::array::c_style | py::array::forcecast> starts,
-    py::array_t<int, py::array::c_style | py::array::forcecast> stops,
-    py::array_t<float, py::array::c_style | py::array::forcecast> coeffs
+sparse_filterbank_py(emlpy::InputArray<float> in,
+    emlpy::InputArray<int> starts,
+    emlpy::InputArray<int> stops,
+    emlpy::InputArray<float> coeffs
 )
 {
     EMLPY_PRECONDITION(in.ndim() == 1, "Input must have dim 1");
diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 28c7af4..01e2e23 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -16,8 +16,8 @@ namespace py = pybind11;
 
 
 py::array_t<float>
-iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
-          py::array_t<float, py::array::c_style | py::array::forcecast> data)
+iirfilter_py(emlpy::InputArray<float> sos,
+          emlpy::InputArray<float> data)
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index 4b5701a..f8e9ce3 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -4,10 +4,18 @@
 
 #include <eml_common.h>
 
+#include <pybind11/numpy.h>
+
 #include <stdexcept>
 
 namespace emlpy {
 
+// Array argument. Converted if needed, such that the elements are contiguous and aligned
+template <typename T>
+using InputArray = pybind11::array_t<T,
+    pybind11::array::c_style | pybind11::array::forcecast | pybind11::detail::npy_api::NPY_ARRAY_ALIGNED_>;
+
+
 class PreconditionFailed : public std::runtime_error {
 public:
     PreconditionFailed(const char *str)
-- 
2.43.0


From 0959f04926ae2b14de7c0d30b1f46280fb9fa4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 75/90] fix: Arduino install from an include directory whose
 path has glob characters

---
 emlearn/arduino/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 12b3a7d..f27947b 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -29,7 +29,7 @@ def install_arduino_library(emlearn_include_dir, arduino_library_dir, update=Fal
     ensure_dir_single(library_dir)
 
     def in_library(pattern):
-        return os.path.join(emlearn_include_dir, pattern)
+        return os.path.join(glob.escape(emlearn_include_dir), pattern)
 
     patterns = [
         in_library('eml_*.h'), # must have
-- 
2.43.0


From 83252c39d73a8824ec967f91e98391b2c99d0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 76/90] fix: eml_benchmark_micros has a prototype

---
 emlearn/eml_benchmark.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_benchmark.h b/emlearn/eml_benchmark.h
index fb66757..7646393 100644
--- a/emlearn/eml_benchmark.h
+++ b/emlearn/eml_benchmark.h
@@ -18,7 +18,7 @@ extern "C" {
 
 #ifdef EML_HAVE_SYS_TIME
 #include <sys/time.h>
-int64_t eml_benchmark_micros() {
+int64_t eml_benchmark_micros(void) {
     struct timeval spec;
     gettimeofday(&spec, NULL);
     //struct timespec spec; 
@@ -41,7 +41,7 @@ int64_t eml_benchmark_micros(void)
 #endif
 
 #ifdef ARDUINO
-int64_t eml_benchmark_micros() {
+int64_t eml_benchmark_micros(void) {
     return micros();
 }
 #endif
@@ -49,7 +49,7 @@ int64_t eml_benchmark_micros() {
 #ifdef __ZEPHYR__
 #include <zephyr/kernel.h>
 
-int64_t eml_benchmark_micros() {
+int64_t eml_benchmark_micros(void) {
 
     //int64_t cycles =
     int64_t ticks = k_uptime_ticks();
-- 
2.43.0


From 092e98193d8dc98ec3835edce2049b34e9c1d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 77/90] fix: converted models keep their own copy of the
 estimator parameters

---
 emlearn/distance.py  | 2 +-
 emlearn/mixture.py   | 2 +-
 emlearn/neighbors.py | 5 +++--
 emlearn/net.py       | 5 +++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 7b17571..73aee51 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -103,7 +103,7 @@ class Wrapper:
         if classifier is None:
             classifier = 'inline'
 
-        precision = estimator.get_precision()
+        precision = numpy.array(estimator.get_precision())
         self._means = estimator.location_.copy()
         self._precision = precision
         self._offset = estimator.offset_
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 2ed8c2d..1ef6b45 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -324,7 +324,7 @@ class Wrapper:
         self._log_det = log_det
         self._means = estimator.means_.copy()
         self._covariance_type = covariance_type
-        self._precisions_col = precisions_chol
+        self._precisions_col = numpy.array(precisions_chol)
         self._log_weights = get_log_weights(estimator)
 
 
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 73e32f2..f45fd38 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -58,8 +58,9 @@ class Wrapper:
         if inference is None:
             inference = 'loadable'
 
-        self.fit_data_X = estimator._fit_X
-        self.fit_data_Y = estimator._y
+        # copies, the estimator can share memory with the training data of the user
+        self.fit_data_X = numpy.array(estimator._fit_X)
+        self.fit_data_Y = numpy.array(estimator._y)
         self.n_neighbors = estimator.n_neighbors
         self.inference = inference
 
diff --git a/emlearn/net.py b/emlearn/net.py
index e1637b2..7648818 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -40,8 +40,9 @@ class Wrapper:
             classifier = 'loadable'
 
         self.activations = activations
-        self.weights = weights
-        self.biases = biases
+        # copies, since continued training updates the arrays of the estimator in-place
+        self.weights = [ numpy.array(w) for w in weights ]
+        self.biases = [ numpy.array(b) for b in biases ]
         self.classifier = None
         self.return_type = return_type
         self.inference_type = classifier
-- 
2.43.0


From 6c6279644a4b22d264c8f73865f67fd256b7cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 78/90] fix: predictions of a converted EllipticEnvelope accept
 lists

---
 emlearn/distance.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 73aee51..d8af489 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -118,10 +118,6 @@ class Wrapper:
             raise ValueError("Unsupported classifier method '{}'".format(classifier))
 
     def mahalanobis(self, X):
-        def dist(x):
-            return squared_mahalanobis_distance(x, self._means, precision=self._precision)
-        p = numpy.array([ dist(x) for x in X ])
-
         predictions = numpy.array(self.classifier_.predict(X))
         return predictions
 
-- 
2.43.0


From e3de7225be8ea279ab5cb0400c269276b5d1031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 79/90] fix: a row exactly on the EllipticEnvelope boundary is
 an inlier in Python too

---
 emlearn/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index d8af489..dfc4374 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -129,7 +129,7 @@ class Wrapper:
         def predict_one(d):
             dist = -d
             dd = dist - self._offset
-            is_inlier = 1 if dd > 0 else -1
+            is_inlier = 1 if dd >= 0 else -1
             return is_inlier
 
         distances = self.mahalanobis(X)
-- 
2.43.0


From 64fca1344e0ec92a8f0a70d8ec1295c930bea20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 80/90] fix: arrays in the structured log are key=value pairs,
 like everything else

---
 emlearn/eml_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index f1ab773..a10f7b8 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -109,7 +109,7 @@ Add an array
 */
 #define EML_LOG_ADD_ARRAY(key, arr, len, fmt) \
 do { \
-    EML_LOG_PRINTF(" %s", key); \
+    EML_LOG_PRINTF(" %s=", key); \
     EML_LOG_PRINT_ARRAY(arr, len, fmt); \
 } while (0)
 
-- 
2.43.0


From 0f5d2f44a8fd7839da0ee2d782c9b07611e309ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 81/90] fix: the macros of the structured log take any
 expression as argument

---
 emlearn/eml_log.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index a10f7b8..d19e0ca 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -66,16 +66,17 @@ Helper for printing an array
 #define EML_LOG_PRINT_ARRAY(arr, len, fmt) \
 do { \
     EML_LOG_PRINTF("["); \
-    for (int i=0; i<len; i++) { \
-        EML_LOG_PRINTF(fmt, arr[i]); \
-        if (i != len-1) { \
+    const int eml_log_len_ = (len); \
+    for (int eml_log_i_=0; eml_log_i_<eml_log_len_; eml_log_i_++) { \
+        if (eml_log_i_ > 0) { \
             EML_LOG_PRINTF(","); \
         } \
+        EML_LOG_PRINTF(fmt, (arr)[eml_log_i_]); \
     } \
     EML_LOG_PRINTF("]"); \
 } while (0)
 
-#define EML_LOG_BOOL_STR(b) b ? "true" : "false"  
+#define EML_LOG_BOOL_STR(b) ((b) ? "true" : "false")
 
 // Structured logging API
 
-- 
2.43.0


From 741b55298035234187919452ed612c59e1a5afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 82/90] fix: compile_executable leaves no objects behind, and
 simultaneous compilations do not mix

---
 emlearn/common.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 1cdaf44..41e2606 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -273,16 +273,20 @@ def compile_executable(code_file : str,
         cc_args = ["-std=c99"]
 
 
-    objects = cc.compile(
-        sources=[code_file],
-        extra_preargs=cc_args,
-        include_dirs=include_dirs
-    )
-
-    cc.link("executable", objects,
-        output_filename=output_filename, 
-        output_dir=out_dir,
-        libraries=libraries,
-    )  
+    # Use a directory of our own for the objects. They would otherwise be put below the working directory,
+    # or next to the source file, where simultaneous compilations overwrite each other
+    with tempfile.TemporaryDirectory() as object_dir:
+        objects = cc.compile(
+            sources=[os.path.abspath(code_file)],
+            output_dir=object_dir,
+            extra_preargs=cc_args,
+            include_dirs=include_dirs
+        )
+
+        cc.link("executable", objects,
+            output_filename=output_filename,
+            output_dir=out_dir,
+            libraries=libraries,
+        )
 
     return bin_path
-- 
2.43.0


From 04df26e2d74fb4feb2c54082943384feb5a9842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 83/90] fix: plot_pareto_front draws the front of the metrics
 it was given

---
 emlearn/evaluate/pareto.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index 506f75b..082fb53 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -82,7 +82,8 @@ def plot_pareto_front(results,
 
     import seaborn
 
-    pf = find_pareto_front(results, min_performance=pareto_cut)
+    pf = find_pareto_front(results, cost_metric=cost_metric, performance_metric=performance_metric,
+                           min_performance=pareto_cut)
     pf = pf.sort_values(cost_metric)
 
     g = seaborn.FacetGrid(results, hue=hue, height=height, aspect=aspect)
-- 
2.43.0


From 9d1c365f90264c849e110b88e383f22f6ad22103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 84/90] fix: plot_pareto_front works without hue

---
 emlearn/evaluate/pareto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index 082fb53..b6536dc 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -100,8 +100,8 @@ def plot_pareto_front(results,
                         #hue=hue,
        )
 
-    def _plot_front(color, label):
-        if pareto_global:
+    def _plot_front(color, label=None):
+        if pareto_global or hue is None:
             sub = pf.copy()
         else:        
             sub = pf[pf[hue] == label]        
-- 
2.43.0


From 4adbcf3eb4cd47dca1974dda6b43434381ff1e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 85/90] fix: get_program_size accepts include directories with
 blanks

---
 emlearn/evaluate/size.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index eb8d7d4..52db947 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -5,6 +5,7 @@ Tools for getting the usage of program space (FLASH) and memory (SRAM).
 
 import os
 import re
+import shlex
 import tempfile
 import subprocess
 import shutil
@@ -200,7 +201,8 @@ def get_program_size(code : str, platform : str, mcu : str, include_dirs=None) -
         # default
         include_dirs = [ emlearn_include_dir ]
 
-    cflags = ' '.join([ f"-I{d}" for d in include_dirs ])
+    # quoted for the shell, and for make
+    cflags = ' '.join([ shlex.quote(f"-I{d}").replace('$', '$$') for d in include_dirs ])
 
     with tempfile.TemporaryDirectory() as temp_dir:
 
-- 
2.43.0


From 03a16749aedea1980596f538a2b30d793fc92e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:25 +0000
Subject: [PATCH 86/90] fix: subclasses of tree models are converted by what
 they are, not by their class name

---
 emlearn/convert.py | 2 +-
 emlearn/trees.py   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index 3c1cdb7..8ecafed 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -67,7 +67,7 @@ def convert(estimator,
 
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
-        # return_type is intentionally not passed through - the Wrapper will guess based on Class name
+        # return_type is intentionally not passed through - the Wrapper looks at the estimator
         return trees.Wrapper(estimator, method, dtype=dtype, **kwargs)
     elif kind in ['EllipticEnvelope']:
         if dtype is None:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 6853967..9b48e96 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -708,11 +708,15 @@ class Wrapper:
         if self.dtype is None:
             self.dtype = 'int16_t'
 
+        # import dynamically to not need this at package build time
+        from sklearn.base import is_regressor
+
         kind = type(estimator).__name__
         leaf = 'argmax'
         self.is_classifier = True
         self.out_dtype = "int"
-        if 'Regressor' in kind:
+        # The name is not enough, may be a subclass with any name
+        if is_regressor(estimator):
             leaf = 'value'
             self.is_classifier = False
             self.out_dtype = "float"
-- 
2.43.0


From 801c1eb8a0f8ae0175b6928c7b6ac29d8f39d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:20 +0000
Subject: [PATCH 87/90] fix: refuse nearest neighbor models with non-integer
 training data

---
 emlearn/neighbors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index f45fd38..4bba576 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -44,6 +44,9 @@ def check_params_supported(estimator):
 
     if numpy.min(estimator._fit_X) < -2**15 or numpy.max(estimator._fit_X) > 2**15-1:
         raise ValueError('Unsupported feature values, outside the range of int16_t')
+    # would be truncated, which gives other distances
+    if not numpy.all(numpy.equal(numpy.mod(estimator._fit_X, 1), 0)):
+        raise ValueError('Unsupported feature values, not integers. Scale the features and convert to int16, for example using emlearn.preprocessing.Quantizer')
 
     algorithm = estimator.algorithm
     if algorithm not in ('brute', 'auto'):
-- 
2.43.0


From 1e37269ec7b0a16db0bda3b8043ed91cea6b78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:20 +0000
Subject: [PATCH 88/90] fix: trees that are too large or have several outputs
 are refused also when assertions are disabled

---
 emlearn/trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 9b48e96..600531e 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -50,7 +50,8 @@ def flatten_tree(tree, leaf='argmax', leaf_bits=8):
     leaf_nodes = []
 
     assert tree.node_count == len(tree.value)
-    assert tree.value.shape[1] == 1 # number of outputs
+    if tree.value.shape[1] != 1:
+        raise ValueError(f"Only a single output is supported. outputs={tree.value.shape[1]}")
 
     def add_leaf(idx):
         """
@@ -289,8 +290,8 @@ def remove_duplicate_leaves(forest):
 
 
 def assert_valid_child(value, child_max = 2**15-1, child_min = -2**15):
-    assert value >= child_min, value
-    assert value <= child_max, value
+    if not (child_min <= value <= child_max):
+        raise ValueError(f"Too many nodes or leaves. Reference {value} is outside of {child_min} to {child_max}")
 
 def encode_child(index, child):
     if child >= 0:
-- 
2.43.0


From f3633ded2f884b82becdadd288b00e1e815c3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:20 +0000
Subject: [PATCH 89/90] fix: unsupported Keras layer options are refused also
 when assertions are disabled

---
 emlearn/net.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 7648818..72122cc 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -392,7 +392,8 @@ def convert_keras(model, method, **kwargs):
 
         # Dense layers
         if layer_type == 'Dense':
-            assert l.use_bias == True, 'Layers without bias not supported'
+            if not l.use_bias:
+                raise NotImplementedError('Layers without bias not supported')
             add_dense(l.activation, *l.get_weights())
     
         # Activations
@@ -400,13 +401,13 @@ def convert_keras(model, method, **kwargs):
             set_activation(from_keras_activation(l.activation))
             continue
         elif layer_type == 'ReLU':
-            assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
-            assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
-            assert l.max_value is None, 'ReLU.max_value must be None'
+            if l.negative_slope != 0.0 or l.threshold != 0.0 or l.max_value is not None:
+                raise NotImplementedError('ReLU is only supported with negative_slope=0.0, threshold=0.0 and max_value=None')
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
-            assert l.axis == -1, 'Softmax.axis must be -1'
+            if l.axis != -1:
+                raise NotImplementedError('Softmax.axis must be -1')
             set_activation('softmax')
             continue
 
-- 
2.43.0


From a027eb82d15742b66a5d80db8797bcf148edca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:20 +0000
Subject: [PATCH 90/90] fix: arrays of wrong size are refused also when
 assertions are disabled

---
 emlearn/cgen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 483f1b3..2dd0f7f 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -95,7 +95,8 @@ def array_declare(name, size=None, dtype='float', modifiers='static const',
     if values is not None:
         if size is None:
             size = len(values)
-        assert size == len(values), 'size does not match length'
+        if size != len(values):
+            raise ValueError(f'size does not match length. size={size} length={len(values)}')
 
     init = ''
     if values is not None:
@@ -116,7 +117,8 @@ def array_declare_fixedpoint(name, fixedpoint : FixedPointFormat = None, values=
         # use float
         return array_declare(name, values=values, **kwargs)
 
-    assert fixedpoint.total_bits == 32, ('code assumes 32 bit size for the fixed-point format')
+    if fixedpoint.total_bits != 32:
+        raise ValueError('code assumes 32 bit size for the fixed-point format')
     converted = from_float(values, fmt=fixedpoint)
     return array_declare(name, values=converted, dtype=fixedpoint.ctype, **kwargs)
 
-- 
2.43.0

