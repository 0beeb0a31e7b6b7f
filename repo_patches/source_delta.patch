From 03179f3897f30aefdcc4ae4bf706fc17a5f45e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 01/73] fix: error descriptions of Unsupported and
 Uninitialized were swapped

---
 emlearn/eml_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index a08c24d..c1021d4 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -31,8 +31,8 @@ static const char * const
 eml_error_strs[EmlErrors] = {
     "OK",
     "SizeMismatch",
-    "Uninitialized",
     "Unsupported",
+    "Uninitialized",
     "Postcondition failed",
     "Unknown error",
 };
-- 
2.43.0


From 595b039862632b64eb70680e3e60fb1a344c06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/73] fix: eml_trees_predict_proba and eml_trees_regress
 accepted a wrong number of features

---
 emlearn/eml_trees.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..f5a6af9 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -123,6 +123,7 @@ eml_trees_predict_proba(const EmlTrees *self,
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
 
     for (int i=0; i<out_length; i++) {
         out[i] = 0.0f;
@@ -262,6 +263,9 @@ eml_trees_regress(const EmlTrees *forest,
     if (out_length < 1) {
         return EmlSizeMismatch;
     }
+    if (features_length != forest->n_features) {
+        return EmlSizeMismatch;
+    }
 
     if (forest->leaf_bits != 32) {
         // only majority vote supported for now
-- 
2.43.0


From cf6921c8166f6fb23567f828c82ab29947c6d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 03/73] fix: eml_trees_regress logged its float output with an
 integer format

---
 emlearn/eml_trees.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index f5a6af9..0c29fd4 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -286,7 +286,7 @@ eml_trees_regress(const EmlTrees *forest,
     out[0] = sum / forest->n_trees;
 
     EML_LOG_BEGIN("eml-trees-regress-end");
-    EML_LOG_ADD_INTEGER("output", out[0]);
+    EML_LOG_ADD_FLOAT("output", out[0]);
     EML_LOG_END();
 
     return EmlOk;
-- 
2.43.0


From c5c3393199c0ab7644daad2ca7ba03d3a0f22a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 04/73] fix: eml_net_forward ignored a failing softmax

---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..b8d754e 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -207,7 +207,7 @@ eml_net_forward(const float *in, int32_t in_length,
         }
 
     } else if (activation == EmlNetActivationSoftmax) {
-        eml_net_softmax(out, out_length);
+        EML_CHECK_ERROR(eml_net_softmax(out, out_length));
 
     } else {
         return EmlUnsupported;
-- 
2.43.0


From 90b4add9397dd6c931e09bbb65339c8ce5298764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 05/73] fix: eml_net_predict_proba and eml_net_regress read the
 last layer before checking that there is one

---
 emlearn/eml_net.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index b8d754e..bbc754f 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -296,6 +296,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     const int32_t n_outputs = eml_net_outputs_proba(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
 
@@ -364,6 +365,8 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
-- 
2.43.0


From 1632270bf59b8aa7d52a3d53022b2274e89df5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 06/73] fix: eml_net_predict_proba misread a network with two
 outputs as one with a single output

---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index bbc754f..413f3de 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -304,7 +304,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
-- 
2.43.0


From f480559c46151e2a0a176f871c84832fb66c0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 07/73] fix: eml_argmax_fixed32 returned -1 when the first
 value is the largest

---
 emlearn/eml_net_fixedpoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 9bf0a0e..5c0e0cf 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -76,8 +76,8 @@ eml_argmax_fixed32(const eml_fixed32_t *values, int values_length)
     }
 
     eml_fixed32_t vmax = values[0];
-    int32_t argmax = -1;
-    for (int i=0; i<values_length; i++) {
+    int32_t argmax = 0;
+    for (int i=1; i<values_length; i++) {
         if (values[i] > vmax) {
             vmax = values[i];
             argmax = i;
-- 
2.43.0


From 79679f34fd1c73afa304854d3812870a8e60b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 08/73] fix: eml_bayes_predict overflowed its class buffer and
 read past the model with unchecked lengths

---
 emlearn/eml_bayes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..a30aab0 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -112,6 +112,8 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(model->n_classes <= EML_MAX_CLASSES, -EmlUnsupported);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
    eml_q16_t class_probabilities[EML_MAX_CLASSES];
 
-- 
2.43.0


From 579bd997539a762969fbe37bde9e8d3d473e1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 09/73] fix: fixed-point constants and conversions overflowed
 where int has 16 bits

---
 emlearn/eml_fixedpoint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 3a29fe7..7c4e407 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -23,11 +23,11 @@ typedef int32_t eml_fixed32_t;
 */
 typedef int32_t eml_q16_t;
 #define EML_Q16_FRACT_BITS 16
-#define EML_Q16_ONE (1 << EML_Q16_FRACT_BITS)
-#define EML_Q16_FROMINT(x) ((x) << EML_Q16_FRACT_BITS)
-#define EML_Q16_FROMFLOAT(x) ((int)((x) * (1 << EML_Q16_FRACT_BITS))) 
+#define EML_Q16_ONE ((eml_q16_t)1 << EML_Q16_FRACT_BITS)
+#define EML_Q16_FROMINT(x) ((eml_q16_t)(x) << EML_Q16_FRACT_BITS)
+#define EML_Q16_FROMFLOAT(x) ((eml_q16_t)((x) * EML_Q16_ONE))
 #define EML_Q16_TOINT(x) ((x) >> EML_Q16_FRACT_BITS)
-#define EML_Q16_TOFLOAT(x) (((float)(x)) / (1 << EML_Q16_FRACT_BITS))
+#define EML_Q16_TOFLOAT(x) (((float)(x)) / EML_Q16_ONE)
 
 // Fixed-point math
 #define eml_q16_mul(x, y) ( ((x) >> EML_Q16_FRACT_BITS/2) * ((y)>> EML_Q16_FRACT_BITS/2) )
-- 
2.43.0


From c9433ed821a5b3ab086b79e7f94961ba32f43e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 10/73] fix: eml_bayes_log2fix never returned for precision 31
 and shifted past 16-bit ints

---
 emlearn/eml_bayes.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index a30aab0..051019b 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -34,33 +34,36 @@ typedef struct _EmlBayesModel {
 static inline
 int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 {
-    int32_t b = 1U << (precision - 1);
     int32_t y = 0;
 
-    if (precision < 1 || precision > 31) {
+    if (precision < 1 || precision > 30) {
         //errno = EINVAL;
         return INT32_MAX; // indicates an error
     }
 
+    const uint32_t one = (uint32_t)1 << precision;
+    const uint32_t two = (uint32_t)2 << precision;
+    int32_t b = (int32_t)(one >> 1);
+
     if (x == 0) {
         return INT32_MIN; // represents negative infinity
     }
 
-    while (x < 1U << precision) {
+    while (x < one) {
         x <<= 1;
-        y -= 1U << precision;
+        y -= one;
     }
 
-    while (x >= 2U << precision) {
+    while (x >= two) {
         x >>= 1;
-        y += 1U << precision;
+        y += one;
     }
 
     uint64_t z = x;
 
     for (size_t i = 0; i < precision; i++) {
         z = z * z >> precision;
-        if (z >= 2U << precision) {
+        if (z >= two) {
             z >>= 1;
             y += b;
         }
-- 
2.43.0


From d9a6409da09158dac932adf40491d1de02d4bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 11/73] fix: eml_elliptic_envelope_predict reported a size
 mismatch as an outlier

---
 emlearn/eml_distance.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..406b23c 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -57,14 +57,14 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From 72bed49cad53e70f8e1157fd9200e2a13e8e8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 12/73] fix: eml_dot_product truncated its result to a bool

---
 emlearn/eml_mixture.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..b296ae7 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -14,8 +14,8 @@ extern "C" {
 // numpy.log(2*numpy.pi)
 #define EML_LOG_2PI 1.8378770664093453
 
-bool
-eml_dot_product(float *a, float *b, int n)
+float
+eml_dot_product(const float *a, const float *b, int n)
 {
     float sum = 0; 
     for (int i = 0; i < n; i++) {
-- 
2.43.0


From 031170e9930d7fc4aa4fb63930710ccf8c3bf4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 13/73] fix: eml_mixture functions mixed positive and negative
 error codes and did not compile as C++

---
 emlearn/eml_mixture.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index b296ae7..4bc3e89 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -145,7 +145,6 @@ print_array(const float *array, int n) {
 }
 #endif
 
-// FIXME: should return EmlError
 /**
 * \brief Run inference and return log-probability scores
 *
@@ -157,7 +156,7 @@ print_array(const float *array, int n) {
 * \param values_length Input data values
 * \param probabilities Return location for probabilities. Must be length == n_components
 *
-* \return EmlOk on success, or error on failure
+* \return EmlOk on success, or -EmlError on failure
 */
 int32_t
 eml_mixture_predict_log_proba(EmlMixtureModel *model,
@@ -218,15 +217,15 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
                 break;
 
             case EmlCovarianceTied:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
             case EmlCovarianceDiagonal:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
             case EmlCovarianceSpherical:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
         }
@@ -246,7 +245,6 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
    return EmlOk;
 }
 
-// FIXME: should return EmlError
 /**
 * Run inference and return component-wise probabilities and outlier score
 *
@@ -256,7 +254,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
 * \param probabilities Return location for probabilities. Must be length == n_components
 * \param out_score Return location for the overall outlier score (single value).
 *
-* \return EmlOk on success, or error on failure
+* \return EmlOk on success, or -EmlError on failure
 */
 int32_t
 eml_mixture_score(EmlMixtureModel *model,
@@ -270,14 +268,14 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_predict_log_proba(model, values, values_length, probabilities);
     if (status != EmlOk) {
         return status;
     }
 
     float score;
-    status = eml_logsumexp(probabilities, model->n_components, &score);
+    status = -eml_logsumexp(probabilities, model->n_components, &score);
     if (status != EmlOk) {
         return status;
     }
@@ -295,7 +293,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
     if (status != EmlOk) {
         return status;
-- 
2.43.0


From f880ac457157a7bfad4baaef2f8c4218e00f21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 14/73] fix: eml_mixture_predict_log_proba accepted a wrong
 number of values

---
 emlearn/eml_mixture.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 4bc3e89..548d165 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -167,6 +167,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
-- 
2.43.0


From 59d7c8578a2cc00aefbb99372831a6e3ffbe8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 15/73] fix: eml_isqrt never returned for values of 2^30 and
 above

---
 emlearn/eml_neighbors.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..f42b68a 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,21 +26,21 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+uint32_t eml_isqrt(uint32_t x)
 {
-    int32_t q = 1, r = 0;
-    while (q <= x) {
-        q <<= 2;
-    }
-    while (q > 1) {
-        int32_t t;
+    uint32_t q = (uint32_t)1 << 30;
+    uint32_t r = 0;
+    while (q > x) {
         q >>= 2;
-        t = x - r - q;
+    }
+    while (q > 0) {
+        const uint32_t t = r + q;
         r >>= 1;
-        if (t >= 0) {
-            x = t;
+        if (x >= t) {
+            x -= t;
             r += q;
         }
+        q >>= 2;
     }
     return r;
 }
-- 
2.43.0


From 96ae7d973c92d812b0613d7ea10175afec8d54ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 16/73] fix: eml_distance_euclidean_int16 overflowed for large
 differences

---
 emlearn/eml_neighbors.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index f42b68a..b51ba16 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -51,9 +51,9 @@ eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
     // FIXME: test this with large values
     uint32_t ret = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int32_t diff = (int32_t)a[i] - b[i];
+        const uint32_t d = (uint32_t)diff * (uint32_t)diff;
+        ret = (d > UINT32_MAX - ret) ? UINT32_MAX : ret + d;
     }
     ret = eml_isqrt(ret); 
     return ret;
-- 
2.43.0


From acdf999d6cb0aa4e1999d3e1bc722da58b513d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 17/73] fix: nearest-neighbour votes were kept in a global
 shared by all models

---
 emlearn/eml_neighbors.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index b51ba16..ff7375e 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -184,9 +184,6 @@ eml_neighbors_infer(EmlNeighborsModel *self,
     return EmlOk;
 }
 
-// FIXME: avoid hardcoding length
-int16_t eml_neighbors_votes[EML_NEIGHBORS_MAX_CLASSES];
-
 EmlError
 eml_neighbors_find_nearest(EmlNeighborsModel *self,
         EmlNeighborsDistanceItem *distances, int distances_length,
@@ -205,8 +202,8 @@ eml_neighbors_find_nearest(EmlNeighborsModel *self,
     // argsort by distance. NOTE: sorts in-place
     eml_neighbors_sort_distances(distances, distances_length);
 
-    int16_t *votes = eml_neighbors_votes;
-    memset(votes, 0, sizeof(int16_t) * EML_NEIGHBORS_MAX_CLASSES);
+    int16_t votes[EML_NEIGHBORS_MAX_CLASSES];
+    memset(votes, 0, sizeof(votes));
 
     // merge predictions for top-k matches
     for (int i=0; i<k; i++) {
-- 
2.43.0


From fbaa033bcc7d6364a443408fa1a08da7fe6d6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 18/73] fix: nearest-neighbour data offsets overflowed where
 int has 16 bits

---
 emlearn/eml_neighbors.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index ff7375e..9c270a0 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -109,7 +109,7 @@ EmlError
 eml_neighbors_check(EmlNeighborsModel *self,
         int16_t data_length, int16_t labels_length, int16_t distances_length)
 {
-    const int32_t expect_data_length = self->max_items * self->n_features;
+    const int32_t expect_data_length = (int32_t)self->max_items * self->n_features;
     if (data_length < expect_data_length) {
         return EmlSizeMismatch;
     }
@@ -141,7 +141,7 @@ eml_neighbors_add_item(EmlNeighborsModel *self,
     EML_PRECONDITION(self->n_items < self->max_items, EmlSizeMismatch);
 
     const int index = self->n_items++;
-    int16_t *data = self->data + (self->n_features * index);
+    int16_t *data = self->data + ((int32_t)self->n_features * index);
     memcpy(data, values, sizeof(int16_t)*values_length);
     self->labels[index] = label;    
 
@@ -165,7 +165,7 @@ eml_neighbors_infer(EmlNeighborsModel *self,
 
     // compute distances to all items
     for (int i=0; i<self->n_items; i++) {
-        int16_t *item = self->data + (self->n_features * i);
+        int16_t *item = self->data + ((int32_t)self->n_features * i);
         uint32_t distance = eml_distance_euclidean_int16(features, item, features_length);
 
         distances[i].index = i;
-- 
2.43.0


From c5c2bc331f8c3baf6e81deaf7db326e2cfbd8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 19/73] fix: eml_neighbors.h could not be included twice

---
 emlearn/eml_neighbors.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 9c270a0..19d5334 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -1,4 +1,7 @@
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 /**
 \brief Nearest Neighbours
 
@@ -16,6 +19,10 @@ in order to support on-device learning.
 #include <stdint.h>
 #include <string.h>
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 // Configuration options
 #ifndef EML_NEIGHBORS_LOG_LEVEL
 #define EML_NEIGHBORS_LOG_LEVEL 0
@@ -282,3 +289,8 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#ifdef __cplusplus
+} // extern "C"
+#endif
+
+#endif // EML_NEIGHBORS_H
-- 
2.43.0


From e6a0c7ab592a17032f64d2911169d14a95308b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 20/73] fix: headers that used standard or emlearn types
 without including them

---
 emlearn/eml_fileio.h     | 2 ++
 emlearn/eml_fixedpoint.h | 2 ++
 emlearn/eml_io.h         | 3 +++
 emlearn/eml_quantizer.h  | 3 +++
 4 files changed, 10 insertions(+)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 3e3410e..0c7b6e0 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -13,6 +13,8 @@ Useful together with EmlCsvReader / EmlCsvWriter and related.
 extern "C" {
 #endif
 
+#include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 
 /**
diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 7c4e407..7d97f7c 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -2,6 +2,8 @@
 #ifndef EML_FIXEDPOINT_H
 #define EML_FIXEDPOINT_H
 
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_io.h b/emlearn/eml_io.h
index 2c9a089..483c731 100644
--- a/emlearn/eml_io.h
+++ b/emlearn/eml_io.h
@@ -2,6 +2,9 @@
 #ifndef EML_IO_H
 #define EML_IO_H
 
+#include <stddef.h>
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_quantizer.h b/emlearn/eml_quantizer.h
index 2ce3d60..3f93f1e 100644
--- a/emlearn/eml_quantizer.h
+++ b/emlearn/eml_quantizer.h
@@ -2,6 +2,9 @@
 #ifndef EML_QUANTIZER_H
 #define EML_QUANTIZER_H
 
+#include <stdint.h>
+#include "eml_common.h"
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From 99ecbfa9f5965a9aaffda299ba722fcc0d5430ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 21/73] fix: eml_fileio.h was not valid C++

---
 emlearn/eml_fileio.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 0c7b6e0..3936b3c 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -22,7 +22,7 @@ extern "C" {
 */
 int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fwrite(buffer, 1, size, fptr);
 }
 
@@ -31,7 +31,7 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 */
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fread(buffer, 1, size, fptr);
 }
 
@@ -40,7 +40,7 @@ int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 */
 int eml_fileio_seek(void *context, size_t position)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fseek(fptr, position, SEEK_SET);
 }
 
-- 
2.43.0


From 2f4d17c18e4b370dc822bfb89653cd82ecfba494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 22/73] fix: eml_csv.h could not be included twice

---
 emlearn/eml_csv.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..7bb6c55 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -1,4 +1,7 @@
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 // Basic support for Comma Separated Values (CSV)
 // As per RFC4180, https://www.ietf.org/rfc/rfc4180.txt
 // Not intended to parse every wierd "csv" like thing out there
@@ -10,6 +13,9 @@
 #include <stdint.h>
 #include <string.h>
 
+#ifdef __cplusplus
+extern "C" {
+#endif
 
 #ifndef EML_CSV_DELIMITER
 #define EML_CSV_DELIMITER ","
@@ -223,3 +229,8 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#ifdef __cplusplus
+} // extern "C"
+#endif
+
+#endif // EML_CSV_H
-- 
2.43.0


From 02c0b31fdeb94f36150bb32b8060347f8d927ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 23/73] fix: debug reporting did not compile as C++ for
 negative error codes and misreported them

---
 emlearn/eml_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index c1021d4..73df2d5 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -80,7 +80,7 @@ static EmlDebugFunction eml_debug = eml_debug_stderr;
 #define EML_PRECONDITION(expr, errorcode) \
     do { \
         if (!(expr)) { \
-            if (eml_debug) { eml_debug(errorcode, __FILE__, __LINE__); } \
+            if (eml_debug) { eml_debug((EmlError)abs((int)(errorcode)), __FILE__, __LINE__); } \
             return errorcode; \
         } \
     } while (0);
@@ -89,7 +89,7 @@ static EmlDebugFunction eml_debug = eml_debug_stderr;
 #define EML_POSTCONDITION(expr, errorcode) \
     do { \
         if (!(expr)) { \
-            if (eml_debug) { eml_debug(errorcode, __FILE__, __LINE__); } \
+            if (eml_debug) { eml_debug((EmlError)abs((int)(errorcode)), __FILE__, __LINE__); } \
             return errorcode; \
         } \
     } while (0);
-- 
2.43.0


From 50e551da288bb2d77c6e7ed389538db39c09900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 24/73] fix: eml_csv_reader_read_data reported a size mismatch
 as one column read

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 7bb6c55..fe52f18 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -196,7 +196,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
     int characters_read = 0;
-- 
2.43.0


From 2313f36d4272b641c21492bc7c9e1c9391006761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 25/73] fix: CSV writer ignored failing and short writes

---
 emlearn/eml_csv.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index fe52f18..ea449b0 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -55,6 +55,16 @@ typedef struct _EmlCsvWriter {
 
 
 // Writer
+static EmlError
+eml_csv_writer_write(EmlCsvWriter *self, const char *data, size_t length)
+{
+    const int written = self->write(self->stream, (const uint8_t *)data, length);
+    if (written < 0 || (size_t)written != length) {
+        return EmlUnknownError;
+    }
+    return EmlOk;
+}
+
 EmlError
 eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_columns)
 {
@@ -68,15 +78,15 @@ eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_c
 
     for (int i=0; i<data_length; i++) {
         const char *name = columns[i];
-        const int length = strlen(name);
-        self->write(self->stream, (uint8_t *)name, length);
+        const size_t length = strlen(name);
+        EML_CHECK_ERROR(eml_csv_writer_write(self, name, length));
         const bool is_last = (i == data_length-1);
         if (!is_last) {
-            self->write(self->stream, (uint8_t *)delimiter, 1);
+            EML_CHECK_ERROR(eml_csv_writer_write(self, delimiter, 1));
         }
     }
 
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write(self, endline, 1));
 
     return EmlOk;
 }
@@ -100,9 +110,9 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
             buf[written] = (EML_CSV_DELIMITER)[0];
             written += 1;
         }
-        self->write(self->stream, (uint8_t *)buf, written);
+        EML_CHECK_ERROR(eml_csv_writer_write(self, buf, written));
     }
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write(self, endline, 1));
 
     return EmlOk;
 }
-- 
2.43.0


From 00c5960cbe9b3aee8e7fbc14e2fa06f2d295124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 26/73] fix: CSV writer used a negative snprintf result as an
 index

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index ea449b0..efacbb4 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -102,7 +102,7 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
     const int max = EML_CSV_FLOAT_MAXSIZE;
     for (int i=0; i<data_length; i++) {
         int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
-        if (written >= max) {
+        if (written < 0 || written >= max) {
             return EmlUnsupported;
         }
         const bool is_last = (i == data_length-1);
-- 
2.43.0


From 74cdd83a9d0deced8e317c291e067e3ae8e0d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 27/73] fix: CSV reader took a failing read for a huge amount
 of data

---
 emlearn/eml_csv.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index efacbb4..27ac7b1 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -129,8 +129,12 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
+    const int read_status = \
         self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    if (read_status < 0 || (size_t)read_status > buffer_length) {
+        return EmlUnknownError;
+    }
+    const size_t read_length = (size_t)read_status;
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
@@ -138,7 +142,7 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
     // Find each column
     int column_idx = 0;
     int column_start_offset = 0;
-    int offset = -1;
+    size_t offset = 0;
     for (offset=0; offset<read_length; offset++) {
 
         if (column_idx >= columns_length) {
@@ -169,7 +173,7 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
     }
 
     *out_columns = column_idx;
-    *out_offset = offset;
+    *out_offset = (int)offset;
 
     return EmlOk;
 }
-- 
2.43.0


From 154464f4bb11434f2adabc5138e27cd09b53cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 28/73] fix: CSV reader printed to standard output

---
 emlearn/eml_csv.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 27ac7b1..dd76c93 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -145,9 +145,7 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
     size_t offset = 0;
     for (offset=0; offset<read_length; offset++) {
 
-        if (column_idx >= columns_length) {
-            printf("parse-too-many-columns read=%d max=%lld \n",
-                column_idx, (long long int)columns_length);
+        if ((size_t)column_idx >= columns_length) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From 7fc9ea27b278410629b6beeeba4586ef76ecb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 29/73] fix: document what the I/O callbacks return

---
 emlearn/eml_io.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_io.h b/emlearn/eml_io.h
index 483c731..499c5d9 100644
--- a/emlearn/eml_io.h
+++ b/emlearn/eml_io.h
@@ -10,6 +10,8 @@ extern "C" {
 #endif
 
 // I/O functions for streams
+// Read and write return the number of bytes transferred, or a negative value on error
+// Seek returns 0 on success
 typedef int (*EmlIoReadFunction)(void *context, uint8_t *buffer, size_t size);
 typedef int (*EmlIoSeekFunction)(void *context, size_t position);
 typedef int (*EmlIoWriteFunction)(void *context, const uint8_t *buffer, size_t size);
-- 
2.43.0


From 466273eefc1e85b5aad968f5b9f0dd8f6e9fa953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 30/73] fix: eml_array_copy_rows read past the source when the
 value sizes differ

---
 emlearn/eml_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..5e0e6b3 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -202,6 +202,8 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same type of values
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
-- 
2.43.0


From 934d16291b1723ba7f5ae86aa5d47d815a44ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 31/73] fix: eml_array_append reported success without
 appending anything

---
 emlearn/eml_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 5e0e6b3..30a11bc 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -148,9 +148,10 @@ eml_array_sum(EmlArray *self, float *out_sum)
 EmlError
 eml_array_append(EmlArray *self, EmlArray *other)
 {
-    EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
-
-    return EmlOk;
+    (void)self;
+    (void)other;
+    // TODO: implement
+    return EmlUnsupported;
 }
 
 EmlError
-- 
2.43.0


From 376fbe13bbe34a539576f167fed9a0dc21ad8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 32/73] fix: eml_audio_melspec read past the spectrum at the
 top bin and for decreasing bands

---
 emlearn/eml_audio.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..0a9c136 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -99,10 +99,10 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         const int center = mel_bin(mel, m);
         const int right = mel_bin(mel, m+1);
 
-        if (left < 0) {
+        if (left < 0 || center < left || right < center) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From ff151faa119353b65cd53cc9c2decb6ebc3342d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 33/73] fix: eml_audio_melspectrogram did not check the lengths
 of its buffers

---
 emlearn/eml_audio.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 0a9c136..7bbb1c9 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -154,7 +154,11 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
- 
+
+    EML_PRECONDITION(inout.length == n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(temp.length >= inout.length, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels <= inout.length, EmlSizeMismatch);
+
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
 
-- 
2.43.0


From 9e0cad78272f6887b75a232cdae7b2886083bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 34/73] fix: bindings threw exceptions by pointer, which ended
 the interpreter

---
 bindings/emlpy_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..cd76075 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From 19cfc5cdb9c9ff426a4451b4acf7ee23e07b2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 35/73] fix: iirfilter binding read past coefficients with
 fewer than 6 columns

---
 bindings/eml_signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..6b1a4b3 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -22,6 +22,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS coefficients must have 6 columns");
 
     const int n_stages = (int)sos.shape(0);
 
-- 
2.43.0


From 93c7116011d64f36f7148641942cbfd9000ee0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 36/73] fix: audio bindings ignored statuses returned by the C
 library

---
 bindings/eml_audio.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 430007e..9b29fd8 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -29,7 +29,7 @@ rfft_py(py::array_t<float, py::array::c_style | py::array::forcecast> in) {
     std::vector<float> fft_sin(n_fft_table);
     std::vector<float> fft_cos(n_fft_table);
     EmlFFT fft = { n_fft_table, fft_sin.data(), fft_cos.data() };
-    eml_fft_fill(fft, n_fft);
+    EMLPY_CHECK_ERROR(eml_fft_fill(fft, n_fft));
 
     // Setup working buffers
     const float * in_data = (const float *)in.data();
@@ -105,7 +105,7 @@ melspectrogram_py(py::array_t<float, py::array::c_style | py::array::forcecast>
     std::vector<float> fft_sin(n_fft_table);
     std::vector<float> fft_cos(n_fft_table);
     EmlFFT fft = { n_fft_table, fft_sin.data(), fft_cos.data() };
-    eml_fft_fill(fft, n_fft);
+    EMLPY_CHECK_ERROR(eml_fft_fill(fft, n_fft));
 
     const EmlAudioMel params = { n_mels, fmin, fmax, n_fft, samplerate };
 
@@ -116,8 +116,8 @@ melspectrogram_py(py::array_t<float, py::array::c_style | py::array::forcecast>
     EmlVector inoutv = { (float *)inout.data(), length };
     EmlVector tempv = { (float *)temp.data(), length };
     EmlVector inv = {(float *)in.data(), length};
-    eml_vector_set(inoutv, inv, 0);
-    eml_vector_set_value(tempv, 0);
+    EMLPY_PRECONDITION(eml_vector_set(inoutv, inv, 0) == 0, "copying input failed");
+    EMLPY_CHECK_ERROR(eml_vector_set_value(tempv, 0));
 
     const EmlError error = eml_audio_melspectrogram(params, fft, inoutv, tempv);
 
@@ -127,7 +127,7 @@ melspectrogram_py(py::array_t<float, py::array::c_style | py::array::forcecast>
 
     auto ret = py::array_t<float>(params.n_mels);
     EmlVector out = { (float *)ret.data(), params.n_mels };
-    eml_vector_set(out, eml_vector_view(inoutv, 0, params.n_mels), 0);
+    EMLPY_PRECONDITION(eml_vector_set(out, eml_vector_view(inoutv, 0, params.n_mels), 0) == 0, "copying output failed");
 
     return ret;
 }
-- 
2.43.0


From a1e91d3d92df707d7cdca5b682c96cc1711fc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 37/73] fix: sparse_filterbank binding did not check that the
 filters lie inside the input and coefficients

---
 bindings/eml_audio.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 9b29fd8..f242093 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -147,6 +147,19 @@ sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecas
     EMLPY_PRECONDITION(starts.shape(0) == stops.shape(0), "Number of starts must equals stops");
 
     const int output_length = (int)starts.shape(0);
+    const int *starts_data = starts.data();
+    const int *stops_data = stops.data();
+    int64_t n_coefficients = 0;
+    for (int i=0; i<output_length; i++) {
+        if (stops_data[i] < starts_data[i]) {
+            continue; // empty filter
+        }
+        EMLPY_PRECONDITION(starts_data[i] >= 0, "Filter starts before the input");
+        EMLPY_PRECONDITION(stops_data[i] < in.shape(0), "Filter stops after the input");
+        n_coefficients += ((int64_t)stops_data[i] - starts_data[i]) + 1;
+    }
+    EMLPY_PRECONDITION(n_coefficients <= coeffs.shape(0), "Too few coefficients for the filters");
+
     auto ret = py::array_t<float>(output_length);
 
     EMLPY_CHECK_ERROR(eml_sparse_filterbank(in.data(),
-- 
2.43.0


From 91236513d28e122d902bd239db6abfa9e0bb49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 38/73] fix: wrapping of generated tables could split a number
 over two lines

---
 emlearn/tools/mel_filterbank.py  | 3 ++-
 emlearn/tools/window_function.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 25c0a80..3f4bd1d 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -25,7 +25,8 @@ def mel_filterbank(args, name):
     gen = emlearn.signal.sparse_filterbank_serialize(sparse, name=name, frequencies=frequencies,
             n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)
 
-    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False)
+    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False,
+                      break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index 679c1a7..a102f5d 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -46,7 +46,7 @@ def window_function(name, window_type, length, fft_mode, linewrap):
     ]
     gen = '\n'.join(arrays)
 
-    w = textwrap.wrap(gen, linewrap)
+    w = textwrap.wrap(gen, linewrap, break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
-- 
2.43.0


From 4aec29564f9dccbccd43a6ab40f48e8e1d65dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 39/73] fix: floating-point constants were written with 6
 decimals, losing small values

---
 emlearn/cgen.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..e93608c 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -7,6 +7,9 @@ C code generation utilities
 
 import re
 
+import numpy
+
+
 VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
@@ -47,7 +50,11 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        single = numpy.float32(val)
+        if not numpy.isfinite(single):
+            raise ValueError(f"{val} is not representable as a float")
+        # shortest text that gives back the same single-precision value
+        return str(single) + 'f'
     elif 'int' in dtype:
         return "{:d}".format(int(val))
     else:
@@ -65,7 +72,7 @@ def constant_declare(name, val, dtype='int'):
 
     >>> from emlearn import cgen
     >>> cgen.constant_declare('myfloat', 3.14, dtype='float')
-    'static const float myfloat = 3.140000f; '
+    'static const float myfloat = 3.14f; '
     """
     v = constant(val, dtype=dtype)
     return f'static const {dtype} {name} = {v}; '
-- 
2.43.0


From f3be18ef022301913faa04f99ce688f43a761b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 40/73] fix: inline neural networks were never generated, the
 loadable code was used instead

---
 emlearn/cgen.py | 2 ++
 emlearn/net.py  | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e93608c..e2ce071 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -56,6 +56,8 @@ def constant(val, dtype='float'):
         # shortest text that gives back the same single-precision value
         return str(single) + 'f'
     elif 'int' in dtype:
+        if int(val) != val:
+            raise ValueError(f"{val} is not an integer, cannot be represented as {dtype}")
         return "{:d}".format(int(val))
     else:
         return str(val)
diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..1b1fc1d 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -65,7 +65,7 @@ class Wrapper:
             code = self.save(name=name)
             self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
         elif self.inference_type == 'inline' and return_type == 'classifier':
-            code = self.save(name=name)
+            code = self.save(name=name, inference=['inline'])
 
             if self.use_fixedpoint:
                 # inject a conversion between float and fixed-point
@@ -101,7 +101,10 @@ class Wrapper:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
 
-    def save(self, name=None, file=None, inference=['loadable']):
+    def save(self, name=None, file=None, inference=None):
+        if inference is None:
+            inference = [self.inference_type]
+
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
@@ -173,7 +176,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From a650f1aa7481f8c28ba4717f9eff353011958d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 41/73] fix: inline neural networks did not check the lengths
 of their input and buffers

---
 emlearn/templates/net_fixedpoint.jinja | 7 +++++++
 emlearn/templates/net_float.jinja      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/emlearn/templates/net_fixedpoint.jinja b/emlearn/templates/net_fixedpoint.jinja
index 6dfa886..e2940fe 100644
--- a/emlearn/templates/net_fixedpoint.jinja
+++ b/emlearn/templates/net_fixedpoint.jinja
@@ -25,6 +25,13 @@ EmlError
     eml_fixed32_t *buffer1 = activations1;
     eml_fixed32_t *buffer2 = activations2;
 
+    if (in_length != {{ prefix }}_layer_0_input_length) {
+        return EmlSizeMismatch;
+    }
+    if (buffer_length < {{ prefix }}_activations_length) {
+        return EmlSizeMismatch;
+    }
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..765d8a5 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -25,6 +25,13 @@ EmlError
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
+    if (in_length != {{ prefix }}_layer_0_input_length) {
+        return EmlSizeMismatch;
+    }
+    if (buffer_length < {{ prefix }}_activations_length) {
+        return EmlSizeMismatch;
+    }
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
-- 
2.43.0


From d3a6c9c3980f8f058521162376f62f250da4de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 42/73] fix: fixed-point network layers reported success
 without computing anything

---
 emlearn/eml_net_fixedpoint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 5c0e0cf..555b284 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -64,7 +64,8 @@ FIXME: implement
         return EmlUnsupported;
     }
 
-    return EmlOk;
+    // FIXME: the computations above are not implemented
+    return EmlUnsupported;
 }
 
 
-- 
2.43.0


From 917f47167e9f0578d33ad9f3c25781d9064e5f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 43/73] fix: converted models were built in a shared directory
 and overwrote each other

---
 emlearn/common.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..b48149d 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -8,6 +8,9 @@ import os
 import sys
 import subprocess
 import platform
+import tempfile
+import shutil
+import atexit
 from distutils.ccompiler import new_compiler
 
 import numpy
@@ -35,13 +38,26 @@ def get_include_dir() -> str:
     return os.path.join(os.path.dirname(__file__))
 
 
+def create_build_dir(name, parent=None) -> str:
+    """
+    Create a directory that is not used by any other model, in this or any other process
+
+    Will be removed when the program exits
+    """
+    if parent is not None:
+        os.makedirs(parent, exist_ok=True)
+
+    path = tempfile.mkdtemp(prefix=f'emlearn-{name}-', dir=parent)
+    atexit.register(shutil.rmtree, path, ignore_errors=True)
+    return os.path.abspath(path)
+
+
 def build_classifier(cmodel, name, temp_dir,
         include_dir, func=None, test_function=None, n_classes=None,
         warn_flags=None,
         warn_error=True,
         ):
-    if not os.path.exists(temp_dir):
-        os.makedirs(temp_dir)
+    temp_dir = create_build_dir(name, parent=temp_dir)
 
     if test_function is None:
         test_function = 'eml_test_read_csv'
@@ -110,7 +126,7 @@ def build_classifier(cmodel, name, temp_dir,
 
     with open(code_file, 'w') as f:
         f.write(code)
-    objects = cc.compile(sources=[code_file],
+    objects = cc.compile(sources=[code_file], output_dir=temp_dir,
         extra_preargs=cc_args, include_dirs=include_dirs)
 
     cc.link("executable", objects, output_filename=output_filename, 
@@ -158,7 +174,7 @@ def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
     return outputs
 
 class CompiledClassifier():
-    def __init__(self, cmodel, name, call=None, include_dir=None, temp_dir='tmp',
+    def __init__(self, cmodel, name, call=None, include_dir=None, temp_dir=None,
             test_function=None,
             out_dtype='int',
             proba_call=None,
@@ -246,6 +262,7 @@ def compile_executable(code_file : str,
 
     objects = cc.compile(
         sources=[code_file],
+        output_dir=out_dir,
         extra_preargs=cc_args,
         include_dirs=include_dirs
     )
-- 
2.43.0


From 0b42d803c5f29fb4249c852841ad709c1f720883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 44/73] fix: trees went right instead of left for values equal
 to the threshold

---
 emlearn/eml_trees.h |  2 +-
 emlearn/trees.py    | 25 ++++++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 0c29fd4..9e8c004 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -82,7 +82,7 @@ eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
         const int16_t value = features[feature];
         const int16_t point = forest->nodes[node_idx].value;
         //printf("node %d feature %d. %d < %d\n", node_idx, feature, value, point);
-        const int16_t child = (value < point) ? forest->nodes[node_idx].left : forest->nodes[node_idx].right;
+        const int16_t child = (value <= point) ? forest->nodes[node_idx].left : forest->nodes[node_idx].right;
     
 #if EML_TREES_TRACE
         EML_LOG_PRINTF("predit-tree-iter node=%d feature=%d value=%d th=%d next=%d \n",
diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..f852064 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -306,6 +306,25 @@ def encode_child(index, child):
     assert_valid_child(encoded)
     return encoded
 
+def threshold_constant(threshold, dtype='float'):
+    """
+    The value to compare features against with <=, in the datatype of the features
+
+    Always rounds downwards, so that exactly the same feature values
+    are less than or equal to the converted threshold as to the original.
+    """
+    if dtype == 'float':
+        value = numpy.float32(threshold)
+        if value > threshold:
+            value = numpy.nextafter(value, numpy.float32(-numpy.inf))
+    else:
+        value = math.floor(threshold)
+        limits = numpy.iinfo(dtype.removesuffix('_t'))
+        if value < limits.min or value > limits.max:
+            raise ValueError(f"Threshold {threshold} is outside the range of {dtype}")
+
+    return cgen.constant(value, dtype=dtype)
+
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
@@ -313,7 +332,7 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        value = threshold_constant(value, dtype=dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -371,13 +390,13 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
     def c_internal(n, depth):
-        f = """{indent}if (features[{feature}] < {value}) {{
+        f = """{indent}if (features[{feature}] <= {value}) {{
         {left}
         {indent}}} else {{
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'value': threshold_constant(n[1], dtype=dtype),
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From 4cb3b0be2ca812b58d3a74522562d30481f68238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 45/73] fix: loadable trees with too many classes or nodes were
 not refused

---
 emlearn/trees.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index f852064..e7d6ca3 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -288,9 +288,9 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
-    assert value >= child_min, value
-    assert value <= child_max, value
+def assert_valid_child(value, child_max = (2**15)-1, child_min = -2**15):
+    if value < child_min or value > child_max:
+        raise ValueError(f"Node reference {value} does not fit in 16 bits, model is too large")
 
 def encode_child(index, child):
     if child >= 0:
@@ -753,6 +753,11 @@ class Wrapper:
         if self.method == 'loadable' and self.dtype != 'int16_t':
             raise ValueError("Inference method='loadable' only supports dtype='int16_t'. Use method='inline' for others")
 
+        # limited by EMTREES_MAX_CLASSES in eml_trees.h
+        max_classes = 30
+        if self.method == 'loadable' and self.n_classes > max_classes:
+            raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
+
         # TODO: support more features for inline. Like 255
         max_features = 127 if self.method == 'loadable' else 10000
         if self.n_features > max_features:
-- 
2.43.0


From 0179045e43cb4e54dce8f392bc9ecedd333b086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 46/73] fix: trees silently accepted unsupported feature
 datatypes and leaf sizes

---
 docs/tree_based_models.rst |  2 +-
 emlearn/trees.py           | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/docs/tree_based_models.rst b/docs/tree_based_models.rst
index 1cb49c1..179b251 100644
--- a/docs/tree_based_models.rst
+++ b/docs/tree_based_models.rst
@@ -115,7 +115,7 @@ So by default you should ensure to scale your data to fit the range of int16 (-3
 
 The **inline** inference strategy also supports using floats, 32-bit integers or 8 bit integers.
 and set the ``dtype`` argument of ``emlearn.convert()`` to the appropriate C datatype.
-For example **emlearn.convert(model, dtype='int8')**.
+For example **emlearn.convert(model, dtype='int8_t')**.
 
 A complete example can be found in :ref:`sphx_glr_auto_examples_trees_feature_quantization.py`.
 
diff --git a/emlearn/trees.py b/emlearn/trees.py
index e7d6ca3..935d80e 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -23,6 +23,16 @@ SUPPORTED_ESTIMATORS=[
 ]
 
 
+# Datatypes for features
+SUPPORTED_DTYPES=[
+    'float',
+    'int8_t',
+    'int16_t',
+    'int32_t',
+    'uint8_t',
+    'uint16_t',
+]
+
 def quantize_probabilities_into_byte(p, bits=8):
     assert bits <= 8, bits
     assert bits >= 1, bits
@@ -706,6 +716,8 @@ class Wrapper:
         self.dtype = dtype
         if self.dtype is None:
             self.dtype = 'int16_t'
+        if self.dtype not in SUPPORTED_DTYPES:
+            raise ValueError(f"Unsupported dtype '{self.dtype}'. Supported: {SUPPORTED_DTYPES}")
 
         kind = type(estimator).__name__
         leaf = 'argmax'
@@ -716,6 +728,10 @@ class Wrapper:
             self.is_classifier = False
             self.out_dtype = "float"
 
+        supported_leaf_bits = range(0, 8+1) if self.is_classifier else [ 32 ]
+        if leaf_bits is not None and leaf_bits not in supported_leaf_bits:
+            raise ValueError(f"Unsupported leaf_bits {leaf_bits}. Supported: {list(supported_leaf_bits)}")
+
         if leaf_bits == 1:
             # treat as majority voting
             leaf_bits = 0
-- 
2.43.0


From 33249a0a70ff205e64bffe5b70d91f2fb7c4c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 47/73] fix: CSV export of trees rounded thresholds and failed
 for trees with a single leaf

---
 emlearn/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 935d80e..e2c24a1 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -930,7 +930,8 @@ class Wrapper:
             lines.append(f'c,{self.n_classes}')
             lines.append(f'lb,{self.leaf_bits}')
             for l in leaves:
-                lines.append(f'l,{l}')
+                values = ','.join(str(v) for v in numpy.atleast_1d(l))
+                lines.append(f'l,{values}')
             for r in roots:
                 lines.append(f'r,{r}')
 
@@ -940,7 +941,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{float(value)},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From d47680d51424e1f402923a0c7d5c104925dfe1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 48/73] fix: errors in the compiled model were returned as
 predictions

---
 emlearn/bayes.py     |  2 +-
 emlearn/common.py    | 47 +++++++++++++++++++++++++++++++++-----------
 emlearn/neighbors.py |  2 +-
 emlearn/net.py       | 10 ++++++----
 emlearn/trees.py     |  8 ++++----
 5 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..a5fe9d6 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -113,7 +113,7 @@ class Wrapper(object):
             name = 'mybayes'
             func = 'eml_bayes_predict(&{}_model, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif method == 'inline':
             raise NotImplementedError('NaiveBayes does not support inline C code generation')
         else:
diff --git a/emlearn/common.py b/emlearn/common.py
index b48149d..bcbbacc 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -54,6 +54,7 @@ def create_build_dir(name, parent=None) -> str:
 
 def build_classifier(cmodel, name, temp_dir,
         include_dir, func=None, test_function=None, n_classes=None,
+        out_dtype='int',
         warn_flags=None,
         warn_error=True,
         ):
@@ -88,6 +89,9 @@ def build_classifier(cmodel, name, temp_dir,
         if warn_error:
             cc_args += ['-Werror']
 
+    # errors are negative for integer results, and NaN for floating point
+    is_error = 'out < 0' if out_dtype == 'int' else 'out != out'
+
     if n_classes:
         code = """
         #include "{def_file_name}"
@@ -97,14 +101,19 @@ def build_classifier(cmodel, name, temp_dir,
         float outputs[N_CLASSES] = {{0.0}};
 
         static void classify_proba(const float *values, int length, int row) {{
-            {func}; // TODO: handle error
+            const int err = {func};
+            if (err != 0) {{
+                fprintf(stderr, "prediction failed. row=%d error=%d\\n", row, err);
+                exit(EXIT_FAILURE);
+            }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
                 printf("%d,%d,%f\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
-            {test_function}(stdin, classify_proba);
+            const int err = {test_function}(stdin, classify_proba);
+            return (err == 0) ? EXIT_SUCCESS : EXIT_FAILURE;
         }}
         """.format(**locals())
     else:
@@ -114,10 +123,16 @@ def build_classifier(cmodel, name, temp_dir,
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            const double out = (double){func};
+            if ({is_error}) {{
+                fprintf(stderr, "prediction failed. row=%d result=%f\\n", row, out);
+                exit(EXIT_FAILURE);
+            }}
+            printf("%d,%f\\n", row, out);
         }}
         int main() {{
-            {test_function}(stdin, classify);
+            const int err = {test_function}(stdin, classify);
+            return (err == 0) ? EXIT_SUCCESS : EXIT_FAILURE;
         }}
         """.format(**locals())
 
@@ -178,12 +193,14 @@ class CompiledClassifier():
             test_function=None,
             out_dtype='int',
             proba_call=None,
-            n_classes=None):
+            n_classes=None,
+            n_features=None):
 
         if include_dir == None:
             include_dir = get_include_dir()
         self.bin_path = build_classifier(cmodel, name,
-                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
+                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function,
+                out_dtype=out_dtype)
 
         self.proba_bin_path = None
         if proba_call is not None:
@@ -194,16 +211,24 @@ class CompiledClassifier():
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
+        self.n_features = n_features
 
-    def predict(self, X):
+    def _check_input(self, X):
         X = check_array(X)
+        if self.n_features is not None and X.shape[1] != self.n_features:
+            raise ValueError(f"X has {X.shape[1]} features, but the model expects {self.n_features} features")
+        return X
+
+    def predict(self, X):
+        X = self._check_input(X)
 
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
-        assert len(out) == len(X), out
+        if len(out) != len(X):
+            raise ValueError(f"Expected {len(X)} predictions, got {len(out)}")
         return out
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = self._check_input(X)
 
         if self.proba_bin_path is None:
             raise ValueError('predict_proba() not supported')
@@ -213,6 +238,8 @@ class CompiledClassifier():
             return int(row), int(cls), float(prob)
 
         result = run_classifier(self.proba_bin_path, X, out_dtype=convert_out)
+        if len(result) != len(X)*self.n_classes:
+            raise ValueError(f"Expected {len(X)*self.n_classes} probabilities, got {len(result)}")
         out = numpy.empty(shape=(len(X), self.n_classes))
         for i, (row, cls, prob) in enumerate(result):
             out[row][cls] = prob
@@ -221,8 +248,6 @@ class CompiledClassifier():
         return out
 
     def regress(self, X):
-        X = check_array(X)
-
         return self.predict(X)
 
 
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..fc66655 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -82,7 +82,7 @@ class Wrapper:
             func = 'predict_func(values, length)'
 
 
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         else:
             raise ValueError(f"Unsupported inference method '{inference}'")
 
diff --git a/emlearn/net.py b/emlearn/net.py
index 1b1fc1d..801f60e 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -47,6 +47,7 @@ class Wrapper:
         self.inference_type = classifier
         self.use_fixedpoint = use_fixedpoint
 
+        n_features = self.weights[0].shape[0]
         n_outputs = self.weights[-1].shape[1]
         if n_outputs == 1:
             n_outputs = 2
@@ -59,17 +60,18 @@ class Wrapper:
             func = 'eml_net_predict(&{}, values, length)'.format(name)
             code = self.save(name=name)
             proba_func = 'eml_net_predict_proba(&{}, values, length, outputs, {})'.format(name, n_outputs)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs,
+                n_features=n_features)
         elif self.inference_type == 'loadable' and return_type == 'regressor':
             func = 'eml_net_regress1(&{}, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float',
+                n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'classifier':
             code = self.save(name=name, inference=['inline'])
 
             if self.use_fixedpoint:
                 # inject a conversion between float and fixed-point
-                n_features = self.weights[0].shape[0]
                 code += f"""
                 eml_q16_t {name}_fixed_values[{n_features}];
 
@@ -83,7 +85,7 @@ class Wrapper:
                 func = f'{name}_predict_float(values, length)'                
             else:
                 func = f'{name}_predict(values, length)'
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'regressor':
             raise NotImplementedError("Inline inference not supported for regressors, use loadable instead")
         else:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index e2c24a1..3736f30 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -783,7 +783,7 @@ class Wrapper:
 
     def _build_classifier(self):
         if self._classifier is not None:
-            return None
+            return
 
         name = 'mytree'
         n_features = self.n_features
@@ -805,9 +805,6 @@ class Wrapper:
                     features[i] = ({feature_dtype})values[i];
                 }}
                 const {return_type} out = {name}_predict(features, length);
-                if (out < 0) {{
-                    return -out;
-                }}
                 return out;
             }}""",
             f"""
@@ -863,7 +860,10 @@ class Wrapper:
         self.classifier_ = common.CompiledClassifier(code, name=name,
             call=call_func, proba_call=proba_func,
             out_dtype=self.out_dtype, n_classes=self.n_classes,
+            n_features=self.n_features,
         )
+        self._classifier = self.classifier_
+
 
 
     def predict(self, X):
-- 
2.43.0


From f7220d847026157839a744b00b46012e7eda7630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 49/73] fix: elliptic envelope could not be converted with the
 default method, was not valid C++ and hid errors

---
 emlearn/distance.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..1b25627 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -68,21 +68,24 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
     ])
 
     main = f'''
-    #include <stdio.h>
+    #include <math.h>
 
     // Data definitions
     {modifiers} EmlEllipticEnvelope {classifier_name} = {{
         {n_features},
-        {decision_boundary}f,
+        {cgen.constant(decision_boundary)},
         {means_name},
         {precisions_name}
     }};
 
-    // Prediction function
+    // Prediction function. Returns the distance, or NAN on failure
     float {predict_function_name}(const float *features, int n_features) {{
-        float dist = 0.0;
-        const int class = eml_elliptic_envelope_predict(&{classifier_name},
+        float dist = 0.0f;
+        const int result = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
+        if (result < 0) {{
+            return NAN;
+        }}
         return dist; 
     }}
     '''
@@ -94,6 +97,11 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
 
 class Wrapper:
     def __init__(self, estimator, classifier='inline', dtype='float'):
+        if classifier is None:
+            classifier = 'inline'
+        if dtype != 'float':
+            raise ValueError(f"Unsupported dtype '{dtype}'. Supported: float")
+
         self.dtype = dtype
 
         precision = estimator.get_precision()
@@ -105,7 +113,8 @@ class Wrapper:
             name = 'my_inline_elliptic'
             func = '{}_predict(values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float',
+                n_features=self._means.shape[0])
         else:
             raise ValueError("Unsupported classifier method '{}'".format(classifier))
 
-- 
2.43.0


From 009095774ed57fb30992c39b487a2a616c688f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 50/73] fix: values lost precision on the way to and from
 compiled models

---
 emlearn/common.py  | 9 +++++----
 emlearn/mixture.py | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index bcbbacc..4f1ffff 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -108,7 +108,7 @@ def build_classifier(cmodel, name, temp_dir,
             }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
@@ -128,7 +128,7 @@ def build_classifier(cmodel, name, temp_dir,
                 fprintf(stderr, "prediction failed. row=%d result=%f\\n", row, out);
                 exit(EXIT_FAILURE);
             }}
-            printf("%d,%f\\n", row, out);
+            printf("%d,%.9g\\n", row, out);
         }}
         int main() {{
             const int err = {test_function}(stdin, classify);
@@ -149,11 +149,12 @@ def build_classifier(cmodel, name, temp_dir,
 
     return bin_path
 
-def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
+def run_classifier(bin_path, data, out_dtype='int'):
 
     # Serialize input data as CSV
     def serialize_value(v):
-        return '{:.{prec}f}'.format(v, prec=float_precision)
+        # shortest text that gives back the same single-precision value
+        return str(numpy.float32(v))
 
     lines = []
     for row in data:
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index e892e2a..b448cdf 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -111,7 +111,7 @@ def predict(bin_path, X, verbose=1):
 
     def predict_one(x):
         args = [ bin_path ]
-        args += [ str(v) for v in x ]
+        args += [ str(numpy.float32(v)) for v in x ]
         out = subprocess.check_output(args)
         if verbose > 0:
             print(f"run args={args} out={out} ")
@@ -148,7 +148,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         if (out != EmlOk) {{
             return -out; // error
         }}
-        printf("%f", score);
+        printf("%.9g", (double)score);
         """
     elif output_type == 'predict_log_proba':
         output_code = f"""
@@ -158,7 +158,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out; // error
         }}
         for (int i=0; i<n_components; i++) {{
-            printf("%.6f", output[i]);
+            printf("%.9g", (double)output[i]);
             if (i != (n_components-1)) {{
                 printf(",");
             }}
@@ -173,7 +173,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out_resp; // error
         }}
         for (int i=0; i<n_components; i++) {{
-                printf("%.6f", resp[i]);
+                printf("%.9g", (double)resp[i]);
                 if (i != (n_components-1)) {{
                     printf(",");
                 }}
-- 
2.43.0


From 7439ae5c5276508d0292ea91c2151fc7a4d2dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 51/73] fix: Gaussian mixtures accepted any inference method
 and datatype

---
 emlearn/mixture.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index b448cdf..9dca757 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -263,7 +263,7 @@ def convert_to_full(means, precisions_chol, covariance_type):
         out = numpy.stack(out)
 
     else:
-        raise ValueError("Unknown covariance_type '{}'")
+        raise ValueError(f"Unknown covariance_type '{covariance_type}'")
 
 
     assert len(out.shape) == 3, out.shape
@@ -304,7 +304,10 @@ class Wrapper:
 
         if classifier is None:
             classifier = 'loadable'
-    
+        if classifier not in ('loadable', 'inline'):
+            raise ValueError(f"Unsupported inference method '{classifier}'")
+        if dtype != 'float':
+            raise ValueError(f"Unsupported dtype '{dtype}'. Supported: float")
         n_components, n_features = estimator.means_.shape
         covariance_type = estimator.covariance_type
         precisions_chol = estimator.precisions_cholesky_
-- 
2.43.0


From 6f77d9ec65d78db6b40fc4310f3a38be43694d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 52/73] fix: integer constants outside the range of their type
 were written to the generated code

---
 emlearn/cgen.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e2ce071..db4811f 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -42,6 +42,19 @@ def struct_declare(name, type_name, values=[], modifiers='static const'):
     return out
     
 
+# integer types which we know the range of. int is 32 bit or larger on the host
+INTEGER_TYPES = {
+    'int': 'int32',
+    'int8_t': 'int8',
+    'int16_t': 'int16',
+    'int32_t': 'int32',
+    'uint8_t': 'uint8',
+    'uint16_t': 'uint16',
+    'uint32_t': 'uint32',
+    'eml_q16_t': 'int32',
+    'eml_fixed32_t': 'int32',
+}
+
 def constant(val, dtype='float'):
     """A literal value
 
@@ -55,9 +68,12 @@ def constant(val, dtype='float'):
             raise ValueError(f"{val} is not representable as a float")
         # shortest text that gives back the same single-precision value
         return str(single) + 'f'
-    elif 'int' in dtype:
+    elif dtype in INTEGER_TYPES:
         if int(val) != val:
             raise ValueError(f"{val} is not an integer, cannot be represented as {dtype}")
+        limits = numpy.iinfo(INTEGER_TYPES[dtype])
+        if val < limits.min or val > limits.max:
+            raise ValueError(f"{val} is outside the range of {dtype}")
         return "{:d}".format(int(val))
     else:
         return str(val)
-- 
2.43.0


From d925de1b57af85a0a755f464b6f2ce3772591fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 53/73] fix: nearest-neighbour models that do not fit the C
 structure were not refused

---
 emlearn/neighbors.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index fc66655..a209309 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -147,6 +147,20 @@ def c_generate_neighbors(data, labels, n_neighbors, prefix,
     assert len(labels.shape) == 1, labels.shape
     labels_name = prefix+'_labels'
 
+    # limited by the datatypes of EmlNeighborsModel
+    max_features = (2**16)-1
+    if n_features > max_features:
+        raise ValueError(f"Maximum features exceeded. features={n_features} max={max_features}")
+    max_data = (2**15)-1
+    if n_items > max_data:
+        raise ValueError(f"Maximum items exceeded. items={n_items} max={max_data}")
+    if n_neighbors < 1 or n_neighbors > n_items:
+        raise ValueError(f"Invalid n_neighbors={n_neighbors}. items={n_items}")
+    # limited by EML_NEIGHBORS_MAX_CLASSES in eml_neighbors.h
+    max_classes = 10
+    if numpy.min(labels) < 0 or numpy.max(labels) >= max_classes:
+        raise ValueError(f"Maximum classes exceeded. labels={numpy.unique(labels)} max={max_classes}")
+
     max_items = n_items
 
     head_lines = [
-- 
2.43.0


From 1faddd1cd28e5d413d8e9e57d4d7b1acc2c9b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 54/73] fix: nearest-neighbour warning did not name the
 algorithm

---
 emlearn/neighbors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index a209309..ca2c4c3 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -29,7 +29,7 @@ def check_params_supported(estimator):
 
     algorithm = estimator.algorithm
     if algorithm not in ('brute', 'auto'):
-        warnings.warn('emlearn only implements "brute" for Nearest Neighbors. Ignoring setting algorithm={algorithm}')
+        warnings.warn(f'emlearn only implements "brute" for Nearest Neighbors. Ignoring setting algorithm={algorithm}')
 
 
 class Wrapper:
-- 
2.43.0


From 11b69a6405697e60123303f69aa4c6e9ae24fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 55/73] fix: importing emlearn changed the floating-point error
 handling of numpy

---
 emlearn/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index a5fe9d6..87ecf7c 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -5,7 +5,7 @@ Gaussian Naive Bayes
 """
 
 import numpy
-numpy.seterr(all='raise')
+
 
 from . import common, cgen
 
-- 
2.43.0


From 1a858edd255dfa0961c1c174400b6a2796eb11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 56/73] fix: naive Bayes models that do not fit the fixed-point
 format were not refused

---
 emlearn/bayes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 87ecf7c..7ba3a65 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -34,6 +34,18 @@ def generate_c(model, name='myclassifier'):
 
     cgen.assert_valid_identifier(name)
 
+    # limited by EML_MAX_CLASSES in eml_bayes.h
+    max_classes = 10
+    if n_classes > max_classes:
+        raise ValueError(f"Maximum classes exceeded. classes={n_classes} max={max_classes}")
+
+    # parameters are stored as eml_q16_t
+    if not numpy.all(numpy.abs(model) < 2**15):
+        raise ValueError("Model parameters are outside the range of eml_q16_t")
+    if not numpy.all(model[:, :, 1] >= 2**-16):
+        raise ValueError("Standard deviation is too small for eml_q16_t. Scale the features")
+
+
     summaries_data = []
     for class_n, class_summaries in enumerate(model):
         for feature_n, summary in enumerate(class_summaries):
-- 
2.43.0


From 1d762cab49896366e5782cc42bc525bfa35674f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 57/73] fix: identifiers followed by a newline were accepted as
 valid

---
 emlearn/cgen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index db4811f..cdcab0a 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -10,7 +10,7 @@ import re
 import numpy
 
 
-VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
+VALID_IDENTIFIER_REGEX = r'[_a-zA-Z][_a-zA-Z0-9]*' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
 from .fixedpoint import FixedPointFormat, from_float
@@ -150,7 +150,7 @@ def identifier_is_valid(s):
     True
 
     """
-    match = re.match(VALID_IDENTIFIER_REGEX, s)
+    match = re.fullmatch(VALID_IDENTIFIER_REGEX, s)
     return match is not None
 
 def identifier_is_reserved(s):
-- 
2.43.0


From 5afdbfe741b29b6f04a44a91cc96d6698a631db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 58/73] fix: names of generated tables were not checked to be
 valid C identifiers

---
 emlearn/signal.py                | 2 ++
 emlearn/tools/window_function.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..4cd0ba0 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -25,6 +25,8 @@ def sparse_filterbank(mels):
 
 
 def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=None, fmin=None, fmax=None):
+    cgen.assert_valid_identifier(name)
+
     starts, ends, coeffs = sparse
     assert len(starts) == len(ends)
     n_bands = len(starts)
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index a102f5d..ba4c93f 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -39,6 +39,8 @@ def parse(args=None):
 def window_function(name, window_type, length, fft_mode, linewrap):
     import scipy.signal
 
+    cgen.assert_valid_identifier(name)
+
     window = scipy.signal.get_window(window_type, length, fftbins=fft_mode)
     arrays = [
         cgen.array_declare(name, length, values=window),
-- 
2.43.0


From 3c2b4c0b4378f36916a8eb7cf15571fa70c1425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 59/73] fix: sparse filterbanks dropped zeros inside a band and
 failed for empty bands

---
 emlearn/signal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 4cd0ba0..52b71d1 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -16,10 +16,15 @@ def sparse_filterbank(mels):
     for mel_idx in range(mels.shape[0]):
         mel = mels[mel_idx]
         nonzero = numpy.nonzero(mel)[0]
-        first, last = nonzero[0], nonzero[-1]
+        if len(nonzero) == 0:
+            # empty band, no coefficients
+            first, last = 0, -1
+        else:
+            first, last = nonzero[0], nonzero[-1]
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        # everything from first to last inclusive, also zeros in between
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
-- 
2.43.0


From 50b71704a5894065604e1ac76f52214e705d6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 60/73] fix: frequencies of filterbanks lost their decimals

---
 emlearn/signal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 52b71d1..86d11c1 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -29,6 +29,12 @@ def sparse_filterbank(mels):
     return starts, ends, coeffs
 
 
+def frequency_constant(name, val):
+    # keep whole numbers as integers, without losing the decimals of others
+    dtype = 'int' if int(val) == val else 'float'
+    return cgen.constant_declare(name, val=val, dtype=dtype)
+
+
 def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=None, fmin=None, fmax=None):
     cgen.assert_valid_identifier(name)
 
@@ -57,11 +63,11 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
         ]
     if fmax is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmax', val=fmax),
+            frequency_constant(name+'_fmax', fmax),
         ]
     if fmin is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmin', val=fmin),
+            frequency_constant(name+'_fmin', fmin),
         ]
 
     out = '\n\n'.join(arrays)
-- 
2.43.0


From 3330b34840ee284873435ad035061a1d1548da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 61/73] fix: quantizer wrapped around for unsigned types and
 for limits that are not exact as floats

---
 emlearn/preprocessing/quantizer.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 310a619..4486aaa 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -31,6 +31,9 @@ class Quantizer(BaseEstimator, TransformerMixin):
         if self.out_max is not None:
             return self.out_max
 
+        return self._get_limits().max
+
+    def _get_limits(self):
         info = None
         try:
             info = numpy.iinfo(self.dtype)
@@ -39,8 +42,18 @@ class Quantizer(BaseEstimator, TransformerMixin):
         if info is None:
             raise ValueError(f"Unsupported dtype {self.dtype}")
 
-        out_max = info.max
-        return out_max
+        return info
+
+    def _clip(self, out):
+        # the target range, but never outside what the datatype can hold
+        out_max = self._get_out_max()
+        limits = self._get_limits()
+        low = max(-out_max, limits.min)
+        high = min(out_max, limits.max)
+        # the largest values of 64 bit integers are not exact as float
+        if float(high) > high:
+            high = numpy.nextafter(float(high), 0.0)
+        return numpy.clip(out, low, high)
 
     def fit(self, X, y=None):
         # TODO: normalize and check X,y using sklearn helpers
@@ -66,12 +79,11 @@ class Quantizer(BaseEstimator, TransformerMixin):
 
     def transform(self, X, y=None):
 
-        # scale
-        out = X * self.scale_
+        # scale. In double precision, as smaller floats cannot represent the limits of all integers
+        out = X.astype(float) * self.scale_
 
         # clip out-of-range values
-        out_max = self._get_out_max()
-        out = numpy.clip(out, -out_max, out_max)
+        out = self._clip(out)
 
         # quantize / convert dtype
         out = out.astype(self.dtype)
@@ -91,8 +103,7 @@ class Quantizer(BaseEstimator, TransformerMixin):
         out = X.astype(float)
 
         # clip out-of-range values
-        out_max = self._get_out_max()
-        out = numpy.clip(out, -out_max, out_max)
+        out = self._clip(out)
 
         # apply scale
         out = out / self.scale_
-- 
2.43.0


From d38f3520762b0bfd1653984f419e01f0c13551e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 62/73] fix: values outside the range of a fixed-point format
 wrapped around

---
 emlearn/fixedpoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/fixedpoint.py b/emlearn/fixedpoint.py
index 352b1c4..ccca196 100644
--- a/emlearn/fixedpoint.py
+++ b/emlearn/fixedpoint.py
@@ -36,7 +36,11 @@ def from_float(numbers : numpy.array, fmt : FixedPointFormat):
     Convert numbers (floats) to fixed-point
     """
     a = numbers.astype(float)
-    out = (a * (1 << fmt.fraction_bits)).astype(int)
+    scaled = a * (1 << fmt.fraction_bits)
+    limit = 1 << (fmt.integer_bits + fmt.fraction_bits)
+    if not numpy.all(numpy.abs(scaled) < limit):
+        raise ValueError(f"Values are outside the range of the fixed-point format {fmt}")
+    out = scaled.astype(int)
     return out
 
 def to_float(fixed: numpy.array, fmt : FixedPointFormat):
-- 
2.43.0


From 77cb368157b774ca1b291dcf423bb14eb0448c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 63/73] fix: keras activation layers that are not supported
 were silently converted to something else

---
 emlearn/net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 801f60e..adbe3dc 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -374,6 +374,8 @@ def convert_keras(model, method, **kwargs):
     def set_activation(activation):
         # merge dedicated Activation layers into the previous layer
         # TODO: maybe make activation a separate layer in our representation
+        if not activations or activations[-1] != 'identity':
+            raise NotImplementedError("Activation layer must follow a Dense layer without activation")
         activations[-1] = activation
 
     for i, l in enumerate(model.layers):
@@ -391,6 +393,7 @@ def convert_keras(model, method, **kwargs):
         elif layer_type == 'ReLU':
             assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
             assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
+            assert l.max_value is None, 'ReLU.max_value not supported'
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
-- 
2.43.0


From ba39b0c970945c1e0c77a9f54bdde540f1876d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 64/73] fix: saving a network accepted unknown inference types

---
 emlearn/net.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index adbe3dc..0ee3529 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -113,6 +113,11 @@ class Wrapper:
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
+        unsupported = set(inference) - set(['loadable', 'inline'])
+        if unsupported:
+            raise ValueError(f"Unsupported inference {unsupported}")
+        if self.use_fixedpoint and 'loadable' in inference:
+            raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
         if ('loadable' in inference) and ('inline' in inference):
             raise ValueError("Specify either 'loadable' or 'inline' inference. Both together is not supported")
 
-- 
2.43.0


From 50af8ed1578e8e1422ea307ae5d243c5905508d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 65/73] fix: options that a model does not support were
 silently ignored by convert

---
 emlearn/convert.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index 3c1cdb7..29a32b3 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -65,25 +65,36 @@ def convert(estimator,
     if kind is None:
         kind = type(estimator).__name__
 
+    def check_unsupported(supported_dtype):
+        # options that are not implemented must not be silently ignored
+        if kwargs:
+            raise ValueError(f"Unsupported options for {kind}: {list(kwargs.keys())}")
+        if dtype not in (None, supported_dtype):
+            raise ValueError(f"Unsupported dtype '{dtype}' for {kind}. Supported: {supported_dtype}")
+
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
         # return_type is intentionally not passed through - the Wrapper will guess based on Class name
         return trees.Wrapper(estimator, method, dtype=dtype, **kwargs)
     elif kind in ['EllipticEnvelope']:
-        if dtype is None:
-            dtype = 'float'
-        return distance.Wrapper(estimator, method, dtype=dtype)
+        check_unsupported('float')
+        return distance.Wrapper(estimator, method, dtype='float')
     elif kind in ['GaussianMixture', 'BayesianGaussianMixture']:
-        if dtype is None:
-            dtype = 'float'
-        return mixture.Wrapper(estimator, method, dtype=dtype)
+        check_unsupported('float')
+        return mixture.Wrapper(estimator, method, dtype='float')
     elif kind in ('MLPClassifier', 'MLPRegressor'):
+        if dtype not in (None, 'float'):
+            raise ValueError(f"Unsupported dtype '{dtype}' for {kind}. Supported: float")
         return net.convert_sklearn_mlp(estimator, method, return_type=return_type, **kwargs)
     elif kind == 'Sequential':
+        if dtype not in (None, 'float'):
+            raise ValueError(f"Unsupported dtype '{dtype}' for {kind}. Supported: float")
         return net.convert_keras(estimator, method, return_type=return_type, **kwargs)
     elif kind == 'GaussianNB':
+        check_unsupported('float')
         return bayes.Wrapper(estimator, method)
     elif kind in ['KNeighborsClassifier']:
+        check_unsupported('int16_t')
         return neighbors.convert_sklearn(estimator, inference=method)
     else:
         raise ValueError("Unknown model type: '{}'".format(kind))
-- 
2.43.0


From 1144cab65e1872c3c75bfb2eaec68fb4f5a12894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 66/73] fix: messages about unsupported platforms did not name
 the platform

---
 emlearn/arduino/install.py | 2 +-
 emlearn/evaluate/size.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 12b3a7d..4ebead2 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -60,7 +60,7 @@ def find_arduino_library_dir():
     }
 
     if platform not in sketchbook_paths:
-        print("WARNING: Unknown platform '{platform}'. Guessing {default_platform}")
+        print(f"WARNING: Unknown platform '{platform}'. Guessing {default_platform}")
         platform = default_platform
 
     sketchbook = os.path.expanduser(sketchbook_paths.get(platform))
diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index 94bb593..eb8d7d4 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -181,7 +181,7 @@ def assert_valid_platform(platform : str):
 
     supported_platforms = set(PLATFORM_BUILDERS.keys())
     if platform not in supported_platforms:
-        raise ValueError("Unsupported build platform '{platform}'. Supported: {','.join(supported_platforms)}")
+        raise ValueError(f"Unsupported build platform '{platform}'. Supported: {','.join(supported_platforms)}")
 
 def get_program_size(code : str, platform : str, mcu : str, include_dirs=None) -> (int, int):
     """
-- 
2.43.0


From 7b94f04c4befdaf890893d9ee03b84b24c68c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 67/73] fix: plotting the Pareto front ignored the selected
 metrics

---
 emlearn/evaluate/pareto.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index d85033f..3cd7caf 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -82,7 +82,8 @@ def plot_pareto_front(results,
 
     import seaborn
 
-    pf = find_pareto_front(results, min_performance=pareto_cut)
+    pf = find_pareto_front(results, min_performance=pareto_cut,
+        cost_metric=cost_metric, performance_metric=performance_metric)
     pf = pf.sort_values(cost_metric)
 
     g = seaborn.FacetGrid(results, hue=hue, height=height, aspect=aspect)
-- 
2.43.0


From afe1b94be664a694d17bf837203557c20aff2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 68/73] fix: generated mixture score function returns int32_t,
 as EmlError made the code invalid C++

---
 emlearn/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 9dca757..bcc88c9 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -58,7 +58,7 @@ def generate_code(model, name='fss_mode'):
         }}
 
 
-        EmlError
+        int32_t
         {name}_score(const float values[], int32_t values_length, float *probabilities, float *score)
         {{
 
-- 
2.43.0


From 90bccc4dcbf6819fa375acec24e0f48f1c9981a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:24 +0000
Subject: [PATCH 69/73] fix: refuse leaf values that do not fit a float

---
 emlearn/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 3736f30..e7ff12a 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -362,6 +362,8 @@ def leaves_to_bytelist(leaves, leaf_bits):
 
     elif leaf_bits == 32:
         arr = numpy.array(leaves).astype(numpy.float32)
+        if not numpy.all(numpy.isfinite(arr)):
+            raise ValueError("Leaf values are not representable as a float")
         out = list(arr.tobytes())
 
         leaf_bytes = math.ceil(leaf_bits/8)
-- 
2.43.0


From 80b94b19d113814bc67755c0d33fc30838fd00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:15 +0000
Subject: [PATCH 70/73] fix: count the bytes of all leaves in model_size_bytes

---
 emlearn/evaluate/trees.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/emlearn/evaluate/trees.py b/emlearn/evaluate/trees.py
index 29d1c95..85e019e 100644
--- a/emlearn/evaluate/trees.py
+++ b/emlearn/evaluate/trees.py
@@ -4,10 +4,8 @@ Tree evaluation metrics
 =========================
 Utilities for measuring a tree-based model
 """
-import math
-
 from ..convert import convert as convert_model
-from ..trees import Wrapper as TreesWrapper
+from ..trees import Wrapper as TreesWrapper, leaves_to_bytelist
 
 import numpy
 
@@ -59,12 +57,15 @@ def model_size_bytes(model, a=None, b=None, node_size=None, leaf_size=None):
     else:
         em = convert_model(model)
 
+    nodes = model_size_nodes(em)
     if leaf_size is None:
-        leaf_size = math.ceil(em.leaf_bits/8)
+        # the leaves as they are stored, a leaf of class proportions has a byte per class
+        _, _, leaves = em.forest_
+        leaf_bytes = len(leaves_to_bytelist(leaves, leaf_bits=em.leaf_bits))
+    else:
+        leaf_bytes = model_size_leaves(em) * leaf_size
 
-    nodes = model_size_nodes(em)
-    leaves = model_size_leaves(em)
-    bytes = (nodes * node_size) + (leaves * leaf_size)
+    bytes = (nodes * node_size) + leaf_bytes
 
     return bytes
 
-- 
2.43.0


From 33205e532ce75974ee2756bd20b5bec17b96695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:15 +0000
Subject: [PATCH 71/73] fix: keep the columns of the rows on the Pareto front

---
 emlearn/evaluate/pareto.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index 3cd7caf..7976d9f 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -40,16 +40,12 @@ def find_pareto_front(df,
     :returns: The rows that make up the Pareto front
     """
 
-    # prevnt mutating input    
-    df = df.copy()
-
     # flip to negative-is-better
+    score = df[performance_metric].values
     if higher_is_better:
-        df['mean_test_score'] = -df[performance_metric]
-    else:
-        df['mean_test_score'] = df[performance_metric]
+        score = -score
 
-    pp = is_pareto_efficient_simple(df[['mean_test_score', cost_metric]].values)
+    pp = is_pareto_efficient_simple(numpy.stack([score, df[cost_metric].values], axis=1))
     
     if min_performance is not None:
         if higher_is_better:
@@ -57,7 +53,7 @@ def find_pareto_front(df,
         else:
             pp = (pp & (df[performance_metric] <= min_performance))
     
-    return df[pp]
+    return df[pp].copy()
 
 def plot_pareto_front(results,
                       pareto_cut=None,
-- 
2.43.0


From 3078686c15667c42d4166877e23b4bc502196293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:44 +0000
Subject: [PATCH 72/73] fix: boolean options of eml-mel-filterbank can be given
 as false

---
 emlearn/tools/mel_filterbank.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 3f4bd1d..7895425 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -31,6 +31,19 @@ def mel_filterbank(args, name):
     return wrapped
 
 
+def boolean(text):
+    """
+    Value of a yes/no option. The type bool() would consider any text to be true
+    """
+    values = {
+        'true': True, 'yes': True, 'on': True, '1': True,
+        'false': False, 'no': False, 'off': False, '0': False, '': False,
+    }
+    if text.lower() not in values:
+        raise argparse.ArgumentTypeError(f"expected true or false, got '{text}'")
+    return values[text.lower()]
+
+
 def parse(args=None):
     parser = argparse.ArgumentParser(description='Generate filterbank for Mel spectrogram')
     a = parser.add_argument
@@ -46,9 +59,9 @@ def parse(args=None):
       help='Frequency of lowest band. Default: 0')
     a('--fmax', type=int, default=None,
       help='Frequency of highest band. Default: samplerate/2')
-    a('--htk', type=bool, default=False,
+    a('--htk', type=boolean, default=False,
       help='Use HTK style filter spacing')
-    a('--normalize', type=bool, default=True,
+    a('--normalize', type=boolean, default=True,
       help='Normalize to have constant energy per band')
 
     a('--name', type=str, default='',
-- 
2.43.0


From 66c8e4510eb5d3ee7edd6caf857307b6cb5f0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:10 +0000
Subject: [PATCH 73/73] fix: include the Makefiles for size estimation in the
 package

---
 MANIFEST.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MANIFEST.in b/MANIFEST.in
index 0fb257a..314e1db 100644
--- a/MANIFEST.in
+++ b/MANIFEST.in
@@ -2,5 +2,6 @@ include LICENSE.md
 include requirements*.txt
 include emlearn/*.h
 include emlearn/templates/*.jinja
+include emlearn/platforms/*/Makefile
 include bindings/*.hpp
 include emlearn/VERSION.txt
-- 
2.43.0

