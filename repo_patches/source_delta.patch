From bb8d3101c18f6d915fa3be3026a98bba5c231044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/97] fix: write float constants with full single precision

Six decimals turned small values into zero and lost digits of others.
---
 emlearn/cgen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..32d06e3 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -7,6 +7,8 @@ C code generation utilities
 
 import re
 
+import numpy
+
 VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
@@ -47,7 +49,8 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        # shortest literal that gives back the same single-precision value
+        return "{}f".format(numpy.float32(val))
     elif 'int' in dtype:
         return "{:d}".format(int(val))
     else:
@@ -65,7 +68,7 @@ def constant_declare(name, val, dtype='int'):
 
     >>> from emlearn import cgen
     >>> cgen.constant_declare('myfloat', 3.14, dtype='float')
-    'static const float myfloat = 3.140000f; '
+    'static const float myfloat = 3.14f; '
     """
     v = constant(val, dtype=dtype)
     return f'static const {dtype} {name} = {v}; '
-- 
2.43.0


From 131c6c8dd24dcf5e08afa308d384d4526cb6b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 02/97] fix: importing emlearn no longer changes the
 floating-point error handling of numpy

With all='raise' unrelated code of the user, and emlearn itself, failed on harmless underflows.
---
 emlearn/bayes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..4154662 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -5,7 +5,6 @@ Gaussian Naive Bayes
 """
 
 import numpy
-numpy.seterr(all='raise')
 
 from . import common, cgen
 
-- 
2.43.0


From 647d43913154ce42169f11e18fcb605a4f5ca8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 03/97] fix: tree thresholds send a value equal to the
 threshold to the left

Thresholds were truncated towards zero for integer features, so with threshold 3.5
the value 3 went right. For float features a value equal to the threshold went right.
---
 emlearn/trees.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..5fe1526 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -306,6 +306,25 @@ def encode_child(index, child):
     assert_valid_child(encoded)
     return encoded
 
+def threshold_to_limit(threshold, dtype='float'):
+    """
+    Convert a split threshold into the limit used by the C code
+
+    scikit-learn goes left when value <= threshold, the C code when value < limit.
+    So the limit is the smallest value of the datatype that is above the threshold.
+    """
+    if dtype == 'float':
+        limit = numpy.float32(threshold)
+        if limit <= threshold:
+            limit = numpy.nextafter(limit, numpy.float32(numpy.inf))
+        return limit
+
+    limit = math.floor(threshold) + 1
+    info = numpy.iinfo(dtype.removesuffix('_t'))
+    if limit < info.min or limit > info.max:
+        raise ValueError(f"Threshold {threshold} is out of range for dtype {dtype}. Scale the features, or use another dtype")
+    return limit
+
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
@@ -313,7 +332,7 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        value = cgen.constant(threshold_to_limit(value, dtype), dtype=dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -377,7 +396,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'value': cgen.constant(threshold_to_limit(n[1], dtype), dtype=dtype),
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From 73bd181351873a31b886d4ca56919680169fa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 04/97] fix: pass values to and from compiled models with full
 single precision

Input values were cut to 8 decimals and outputs to 6, so small ones became zero.
Rows with more than about 180 features did not fit the line buffer.
---
 emlearn/common.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..c3f79b6 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -75,6 +75,8 @@ def build_classifier(cmodel, name, temp_dir,
     if n_classes:
         code = """
         #include "{def_file_name}"
+        #define EML_CSV_VALUES_LENGTH 10000
+        #define EML_CSV_BUFFER_LENGTH (20*EML_CSV_VALUES_LENGTH)
         #include <eml_test.h>
 
         #define N_CLASSES {n_classes}
@@ -84,7 +86,7 @@ def build_classifier(cmodel, name, temp_dir,
             {func}; // TODO: handle error
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
@@ -95,10 +97,12 @@ def build_classifier(cmodel, name, temp_dir,
         # Trivial program that reads values on stdin, and returns classifications on stdout
         code = """
         #include "{def_file_name}"
+        #define EML_CSV_VALUES_LENGTH 10000
+        #define EML_CSV_BUFFER_LENGTH (20*EML_CSV_VALUES_LENGTH)
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
             {test_function}(stdin, classify);
@@ -118,11 +122,11 @@ def build_classifier(cmodel, name, temp_dir,
 
     return bin_path
 
-def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
+def run_classifier(bin_path, data, out_dtype='int'):
 
-    # Serialize input data as CSV
+    # Serialize input data as CSV. Shortest form that gives back the same single-precision value
     def serialize_value(v):
-        return '{:.{prec}f}'.format(v, prec=float_precision)
+        return str(numpy.float32(v))
 
     lines = []
     for row in data:
-- 
2.43.0


From 659e9d9794fce0e41c3109e6062fce256450b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 05/97] fix: converting a model no longer replaces the
 executable of earlier models

Executables were written to a fixed path for each kind of model, so predict() of an
earlier model gave the answers of the model that was converted last.
---
 emlearn/common.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index c3f79b6..59c24d0 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -5,8 +5,11 @@ Utilities
 """
 
 import os
+import shutil
 import sys
 import subprocess
+import tempfile
+import weakref
 import platform
 from distutils.ccompiler import new_compiler
 
@@ -170,15 +173,22 @@ class CompiledClassifier():
 
         if include_dir == None:
             include_dir = get_include_dir()
-        self.bin_path = build_classifier(cmodel, name,
-                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
+
+        # use a separate directory, such that executables of other models are not overwritten
+        os.makedirs(temp_dir, exist_ok=True)
+        build_dir = tempfile.mkdtemp(prefix=name+'-', dir=temp_dir)
+        weakref.finalize(self, shutil.rmtree, os.path.abspath(build_dir), ignore_errors=True)
+        temp_dir = os.path.relpath(build_dir)
+
+        self.bin_path = os.path.abspath(build_classifier(cmodel, name,
+                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function))
 
         self.proba_bin_path = None
         if proba_call is not None:
-            self.proba_bin_path = build_classifier(cmodel, name+'_proba',
+            self.proba_bin_path = os.path.abspath(build_classifier(cmodel, name+'_proba',
                     include_dir=include_dir, temp_dir=temp_dir,
                     func=proba_call, n_classes=n_classes,
-                    test_function=test_function)
+                    test_function=test_function))
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
-- 
2.43.0


From bc0f14c5b1e09884915f34b461be8680154f98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 06/97] fix: soft-voting trees predict a class also when all
 proportions are quantized to zero

With many classes and few leaf bits a flat leaf gave class -1.
---
 emlearn/eml_trees.h | 2 +-
 emlearn/trees.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..bcd6a8e 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -216,7 +216,7 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t featur
     }
 
     int32_t most_voted_class = -1;
-    float most_voted_value = 0.0f;
+    float most_voted_value = -1.0f; // below any proportion, as all of them may be quantized to zero
     for (int32_t i=0; i<n_classes; i++) {
         //printf("votes[%d]: %d\n", i, votes[i]);
         if (votes[i] > most_voted_value) {
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 5fe1526..8697967 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -550,7 +550,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     
         // argmax over probabilities
         int32_t most_voted_class = -1;
-        float most_voted_proba = 0.0f;
+        float most_voted_proba = -1.0f; // below any proportion, as all of them may be quantized to zero
         for (int32_t i=0; i<{n_classes}; i++) {{
 
             if (out[i] > most_voted_proba) {{
-- 
2.43.0


From 186787283e3e8eda401ca35b13bfceb18ee31688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 07/97] fix: CSV export of tree models works for single-leaf
 trees and many classes

The placeholder node of a single-leaf tree made the export raise, leaves with many
classes were spread over several lines, and small thresholds were rounded to zero.
---
 emlearn/trees.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 8697967..0ca575b 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -909,6 +909,9 @@ class Wrapper:
             lines.append(f'c,{self.n_classes}')
             lines.append(f'lb,{self.leaf_bits}')
             for l in leaves:
+                if isinstance(l, numpy.ndarray):
+                    # class proportions. Keep on one line
+                    l = '[' + ' '.join(str(v) for v in l) + ']'
                 lines.append(f'l,{l}')
             for r in roots:
                 lines.append(f'r,{r}')
@@ -919,7 +922,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{float(value)},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From 221127dfb6bba3d850cc701cbb10bdd80c75d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 08/97] fix: probabilities of neural networks with two softmax
 outputs

They were treated as the single output of a binary network, which swapped the classes.
---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..54796d3 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -303,7 +303,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
-- 
2.43.0


From c4a681ef8697f82145df469bb9d9ba44330628d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 09/97] fix: neural networks converted with method='inline'
 save and use the inline code

save() returned the code for loadable inference whatever method the model was converted with.
---
 emlearn/net.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..ebcbe28 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -101,7 +101,10 @@ class Wrapper:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
 
-    def save(self, name=None, file=None, inference=['loadable']):
+    def save(self, name=None, file=None, inference=None):
+        if inference is None:
+            inference = [self.inference_type]
+
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
-- 
2.43.0


From 32f495753d05bbaafe9098738358f0b2c54c286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 10/97] fix: inline neural network code checks the number of
 features

A longer input overflowed the working buffer.
---
 emlearn/templates/net_float.jinja | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..f25a5fc 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -25,6 +25,8 @@ EmlError
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
-- 
2.43.0


From 58f2527e28a8600fa932bac019a4057b312e0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 11/97] fix: refuse Keras models that the neural network code
 cannot represent

An activation followed by another one, the maximum of a ReLU layer, and models with a
single Dense layer converted without error but gave wrong results.
---
 emlearn/net.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index ebcbe28..756a35a 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -372,6 +372,10 @@ def convert_keras(model, method, **kwargs):
     def set_activation(activation):
         # merge dedicated Activation layers into the previous layer
         # TODO: maybe make activation a separate layer in our representation
+        if activation == 'identity':
+            return
+        if activations[-1] != 'identity':
+            raise NotImplementedError(f"Activation '{activation}' following activation '{activations[-1]}' is not supported")
         activations[-1] = activation
 
     for i, l in enumerate(model.layers):
@@ -389,6 +393,7 @@ def convert_keras(model, method, **kwargs):
         elif layer_type == 'ReLU':
             assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
             assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
+            assert l.max_value is None, 'ReLU.max_value not supported'
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
@@ -405,6 +410,8 @@ def convert_keras(model, method, **kwargs):
             raise NotImplementedError("Layer type '{}' is not implemented".format(layer_type)) 
 
     assert len(activations) == len(biases) == len(layer_weights)
+    if len(activations) < 2:
+        raise ValueError("Model must have at least two Dense layers")
     
     return Wrapper(activations, layer_weights, biases, classifier=method, **kwargs)
 
-- 
2.43.0


From c14808575d3993cce8588f4c5f0840f1b7eede76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 12/97] fix: refuse multi-label MLPClassifier

It converted to a model that predicts a single class.
---
 emlearn/net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 756a35a..a7924c9 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -336,6 +336,9 @@ def convert_sklearn_mlp(model, method, **kwargs):
     if (model.n_layers_ < 3):
         raise ValueError("Model must have at least one hidden layer")
 
+    if model.out_activation_ == 'logistic' and model.n_outputs_ > 1:
+        raise ValueError("Multi-label classification is not supported")
+
     weights = model.coefs_
     biases = model.intercepts_
     activations = [model.activation]*(len(weights)-1) + [ model.out_activation_ ]
-- 
2.43.0


From ea08717365716ae2e5609044171af49acd29202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 13/97] fix: predict() of neural network regressors with
 several outputs

It returned NaN for every row.
---
 emlearn/net.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index a7924c9..6be42eb 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -63,7 +63,9 @@ class Wrapper:
         elif self.inference_type == 'loadable' and return_type == 'regressor':
             func = 'eml_net_regress1(&{}, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            n_values = self.weights[-1].shape[1]
+            values_func = 'eml_net_regress(&{}, values, length, outputs, {})'.format(name, n_values) if n_values > 1 else None
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', proba_call=values_func, n_classes=n_values)
         elif self.inference_type == 'inline' and return_type == 'classifier':
             code = self.save(name=name)
 
@@ -96,6 +98,9 @@ class Wrapper:
         if self.return_type == 'classifier':
             return self.classifier.predict(X)
         elif self.return_type == 'regressor':
+            if self.weights[-1].shape[1] > 1:
+                # one row per sample, one column per output
+                return self.classifier.predict_proba(X)
             return self.classifier.regress(X)
         else:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
-- 
2.43.0


From 6fe885703bcb1a8cc613b36c7faaf62784bff761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 14/97] fix: inline neural network code declares the activation
 functions

---
 emlearn/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 6be42eb..7536abe 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -181,7 +181,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From db1cc4e48ec0591146f2532ebc0929a08d4c0822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 15/97] fix: softmax of large values keeps its precision

---
 emlearn/eml_net.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 54796d3..f63cd95 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -76,12 +76,12 @@ eml_net_softmax(float *input, size_t input_length)
 
     float sum = 0.0f;
     for (size_t i = 0; i < input_length; i++) {
-        sum += expf(input[i] - input_max);
+        input[i] = expf(input[i] - input_max);
+        sum += input[i];
     }
 
-    const float offset = input_max + logf(sum);
     for (size_t i = 0; i < input_length; i++) {
-        input[i] = expf(input[i] - offset);
+        input[i] = input[i] / sum;
     }
 
     return EmlOk;
-- 
2.43.0


From 19d242fb65e21b237a6eeb373f4fd00ac9d5066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 16/97] fix: Naive Bayes log-likelihoods neither overflow nor
 limit the number of classes

---
 emlearn/eml_bayes.h | 52 ++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..f51cb8f 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -8,10 +8,6 @@ extern "C" {
 #include "eml_common.h"
 #include "eml_fixedpoint.h"
 
-#ifndef EML_MAX_CLASSES
-#define EML_MAX_CLASSES 10
-#endif
-
 typedef struct _EmlBayesSummary {
     eml_q16_t mean;
     eml_q16_t std;
@@ -71,28 +67,29 @@ int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 }
 
 // log2 of normpdf, implemented using quadratic function
-static eml_q16_t
-eml_bayes_logpdf_std(eml_q16_t x)
+// Uses 64 bits with 16 fractional bits, because already x=182 gives a square outside Q16.16
+static int64_t
+eml_bayes_logpdf_std(int64_t x)
 {
-    const eml_q16_t a = EML_Q16_FROMFLOAT(-0.7213475204444817);
-    const eml_q16_t b = EML_Q16_FROMFLOAT(-1.0005845727355313e-15);
-    const eml_q16_t c = EML_Q16_FROMFLOAT(-1.3257480647361592);
+    const int64_t a = EML_Q16_FROMFLOAT(-0.7213475204444817);
+    const int64_t c = EML_Q16_FROMFLOAT(-1.3257480647361592);
 
-    const eml_q16_t axx = eml_q16_mul(a, eml_q16_mul(x, x));
-    const eml_q16_t bx = eml_q16_mul(b, x);
-    const eml_q16_t y = axx + bx + c;
-    return y;
+    const int64_t xx = (x * x) / EML_Q16_ONE;
+    const int64_t axx = (a * xx) / EML_Q16_ONE;
+    return axx + c;
 }
 
 // log2 of normal probability density function PDF
 // using a scaled/translated standard distribution
-static eml_q16_t
+static int64_t
 eml_bayes_logpdf(eml_q16_t x, eml_q16_t mean, eml_q16_t std, eml_q16_t stdlog2)
 {
-   const eml_q16_t xm = eml_q16_div((x - mean), std);
-   const eml_q16_t xx = (xm > 0) ? xm : -xm;
-   const eml_q16_t p = eml_bayes_logpdf_std(xx) - stdlog2;
-   return p; 
+   const int64_t xm = (((int64_t)x - mean) * EML_Q16_ONE) / std;
+   int64_t xx = (xm > 0) ? xm : -xm;
+   if (xx > INT32_MAX) {
+      xx = INT32_MAX;
+   }
+   return eml_bayes_logpdf_std(xx) - stdlog2;
 }
 
 /**
@@ -113,29 +110,22 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
 
-   eml_q16_t class_probabilities[EML_MAX_CLASSES];
+   int64_t highest_prob = INT64_MIN;
+   int32_t highest_idx = -EmlUnknownError;
 
    for (int class_idx = 0; class_idx<model->n_classes; class_idx++) {
 
-      eml_q16_t class_p = 0;
+      int64_t class_p = 0;
       for (int value_idx = 0; value_idx<values_length; value_idx++) {
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
          const eml_q16_t val = EML_Q16_FROMFLOAT(values[value_idx]);
-         const eml_q16_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
-
-         class_p += plog;
+         class_p += eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
       }
-      class_probabilities[class_idx] = class_p;
       //printf("class %d : %f\n", class_idx, p);
-   }
 
-   eml_q16_t highest_prob = class_probabilities[0];
-   int32_t highest_idx = 0;
-   for (int class_idx = 1; class_idx<model->n_classes; class_idx++) {
-      const eml_q16_t p = class_probabilities[class_idx]; 
-      if (p > highest_prob) {
-         highest_prob = p;
+      if (class_p > highest_prob) {
+         highest_prob = class_p;
          highest_idx = class_idx;
       }
    }
-- 
2.43.0


From 2f40bd13b8b23d035fabb2c6a8bf62b58bb31d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 17/97] fix: Naive Bayes checks the number of features

---
 emlearn/eml_bayes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index f51cb8f..0dc9105 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -109,6 +109,7 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
    int64_t highest_prob = INT64_MIN;
    int32_t highest_idx = -EmlUnknownError;
-- 
2.43.0


From eaaf28972a63f75aac945cc65efc5d4179a051e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 18/97] fix: refuse Naive Bayes models with standard deviations
 that become zero in fixed-point

---
 emlearn/bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 4154662..7835148 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -101,6 +101,8 @@ class Wrapper(object):
             for feature_n in range(0, n_features):
                 mean = estimator.theta_[class_n,feature_n]
                 std = numpy.sqrt(variance[class_n,feature_n])
+                if std * (1 << 16) < 1.0:
+                    raise ValueError(f"Standard deviation {std} is below the fixed-point resolution. Scale the features")
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
         self.model = model
-- 
2.43.0


From 897b91e63aba58ade377720912fd2b7ac0bdab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 19/97] fix: Naive Bayes takes class priors into account

---
 emlearn/bayes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 7835148..6b770d5 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -77,7 +77,6 @@ def generate_c(model, name='myclassifier'):
     return '\n\n'.join([head, summaries, model, predict_function]) 
 
 
-# TODO: support class_priors_
 # TODO: support predict_log_proba / predict_proba
 class Wrapper(object):
     """
@@ -105,6 +104,8 @@ class Wrapper(object):
                     raise ValueError(f"Standard deviation {std} is below the fixed-point resolution. Scale the features")
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
+        # Each class prior is included in the normalization term of the first feature
+        model[:, 0, 2] -= numpy.log2(estimator.class_prior_)
         self.model = model
 
         if method is None:
-- 
2.43.0


From 979c397f6cacda642558770dee5bb02470f6716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 20/97] fix: EllipticEnvelope can be converted with the default
 method

---
 emlearn/distance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..84b24f9 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -101,6 +101,9 @@ class Wrapper:
         self._precision = precision
         self._offset = estimator.offset_
 
+        if classifier is None:
+            classifier = 'inline'
+
         if classifier == 'inline':
             name = 'my_inline_elliptic'
             func = '{}_predict(values, length)'.format(name)
-- 
2.43.0


From 2710a46aecaa1284e4ef978a8c2e7e3aaa9b0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 21/97] fix: EllipticEnvelope samples on the boundary are
 inliers, as in scikit-learn and the C code

---
 emlearn/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 84b24f9..150e3c7 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -128,7 +128,7 @@ class Wrapper:
         def predict_one(d):
             dist = -d
             dd = dist - self._offset
-            is_inlier = 1 if dd > 0 else -1
+            is_inlier = 1 if dd >= 0 else -1
             return is_inlier
 
         distances = self.mahalanobis(X)
-- 
2.43.0


From eeaab664ab7969acab233d1fe2c1b4ecabf97d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 22/97] fix: elliptic envelope reports a wrong number of
 features as an error

---
 emlearn/distance.py    | 6 +++---
 emlearn/eml_distance.h | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 150e3c7..9a10443 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -80,9 +80,9 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
 
     // Prediction function
     float {predict_function_name}(const float *features, int n_features) {{
-        float dist = 0.0;
-        const int class = eml_elliptic_envelope_predict(&{classifier_name},
-                                features, n_features, &dist);
+        float dist = NAN; // in case of error
+        eml_elliptic_envelope_predict(&{classifier_name},
+                                    features, n_features, &dist);
         return dist; 
     }}
     '''
diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..7a6e9ca 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -8,6 +8,8 @@ extern "C" {
 
 #include <eml_common.h>
 
+#include <math.h>
+
 /**
 * \brief Compute Mahalanobis distance between two arrays
 *
@@ -57,14 +59,14 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From db935458709556a1ba116e9dfc3d0cdae7fc50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 23/97] fix: refuse unknown inference method for mixture models

---
 emlearn/mixture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index e892e2a..d1653f1 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -263,7 +263,7 @@ def convert_to_full(means, precisions_chol, covariance_type):
         out = numpy.stack(out)
 
     else:
-        raise ValueError("Unknown covariance_type '{}'")
+        raise ValueError(f"Unknown covariance_type '{covariance_type}'")
 
 
     assert len(out.shape) == 3, out.shape
@@ -304,6 +304,8 @@ class Wrapper:
 
         if classifier is None:
             classifier = 'loadable'
+        if classifier not in ('loadable', 'inline'):
+            raise ValueError(f"Unsupported inference method '{classifier}'")
     
         n_components, n_features = estimator.means_.shape
         covariance_type = estimator.covariance_type
-- 
2.43.0


From 94cc4bfa50dd4d04fcb3c7cb479a7dd0c15df4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 24/97] fix: outputs of mixture models keep full single
 precision in Python

---
 emlearn/mixture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index d1653f1..7dc15fc 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -148,7 +148,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         if (out != EmlOk) {{
             return -out; // error
         }}
-        printf("%f", score);
+        printf("%.9g", score);
         """
     elif output_type == 'predict_log_proba':
         output_code = f"""
@@ -158,7 +158,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out; // error
         }}
         for (int i=0; i<n_components; i++) {{
-            printf("%.6f", output[i]);
+            printf("%.9g", output[i]);
             if (i != (n_components-1)) {{
                 printf(",");
             }}
@@ -173,7 +173,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out_resp; // error
         }}
         for (int i=0; i<n_components; i++) {{
-                printf("%.6f", resp[i]);
+                printf("%.9g", resp[i]);
                 if (i != (n_components-1)) {{
                     printf(",");
                 }}
-- 
2.43.0


From 1261631eec49c523f8f0f32d861bb046250c3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 25/97] fix: mixture models check the number of features

---
 emlearn/eml_mixture.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..5604777 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -168,6 +168,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
-- 
2.43.0


From 47f72711ffb61e5633c689d0744308a83722d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 26/97] fix: nearest neighbor distances of large values neither
 overflow nor hang

---
 emlearn/eml_neighbors.h | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..d9f095e 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,37 +26,40 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+// NOTE: x must be below 2^62
+static uint32_t
+eml_isqrt_u64(uint64_t x)
 {
-    int32_t q = 1, r = 0;
+    uint64_t q = 1, r = 0;
     while (q <= x) {
         q <<= 2;
     }
     while (q > 1) {
-        int32_t t;
         q >>= 2;
-        t = x - r - q;
+        const uint64_t t = r + q;
         r >>= 1;
-        if (t >= 0) {
-            x = t;
+        if (x >= t) {
+            x -= t;
             r += q;
         }
     }
-    return r;
+    return (uint32_t)r;
+}
+
+int32_t eml_isqrt(int32_t x)
+{
+    return (x > 0) ? (int32_t)eml_isqrt_u64((uint64_t)x) : 0;
 }
 
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    uint64_t ret = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int64_t diff = (int64_t)a[i] - b[i];
+        ret += (uint64_t)(diff * diff);
     }
-    ret = eml_isqrt(ret); 
-    return ret;
+    return eml_isqrt_u64(ret);
 }
 
 /** @typedef EmlNeighborsDistanceItem
-- 
2.43.0


From c10f90581db966f516cdd3aed09d56e3578cac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 27/97] fix: several nearest neighbor models can be used in one
 program

---
 emlearn/eml_neighbors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index d9f095e..7eb8bed 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -9,6 +9,9 @@ Supports dynamic growth of the model data,
 in order to support on-device learning.
 */
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 #include <eml_common.h>
 #include <eml_log.h>
 #include <eml_qsort.h>
@@ -288,3 +291,4 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#endif // EML_NEIGHBORS_H
-- 
2.43.0


From 24100ecbdbf554f6125ddea6bacc82fa0451c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 28/97] fix: refuse nearest neighbor models with more classes
 than the C code supports

---
 emlearn/neighbors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..83e327c 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -13,6 +13,7 @@ import warnings
 
 SUPPORTED_METRICS = set(['euclidean'])
 SUPPORTED_WEIGHTS = set(['uniform'])
+MAX_CLASSES = 10 # default of EML_NEIGHBORS_MAX_CLASSES
 
 def check_params_supported(estimator):
 
@@ -27,6 +28,10 @@ def check_params_supported(estimator):
     if weights not in SUPPORTED_WEIGHTS:
         raise ValueError(f'Unsupported weights: {weights}. Supported: {SUPPORTED_WEIGHTS}')
 
+    n_classes = len(estimator.classes_)
+    if n_classes > MAX_CLASSES:
+        raise ValueError(f'Too many classes: {n_classes}. Supported: {MAX_CLASSES}')
+
     algorithm = estimator.algorithm
     if algorithm not in ('brute', 'auto'):
         warnings.warn('emlearn only implements "brute" for Nearest Neighbors. Ignoring setting algorithm={algorithm}')
-- 
2.43.0


From 0c77fabdb97f57fe0e4441f679c6bb5c56b11594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 29/97] fix: headers can be included on their own

---
 emlearn/eml_fileio.h     | 2 ++
 emlearn/eml_fixedpoint.h | 2 ++
 emlearn/eml_io.h         | 3 +++
 emlearn/eml_quantizer.h  | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 3e3410e..1834723 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -9,6 +9,8 @@ Useful together with EmlCsvReader / EmlCsvWriter and related.
 #ifndef EML_FILEIO_H
 #define EML_FILEIO_H
 
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 3a29fe7..9ec9ddf 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -2,6 +2,8 @@
 #ifndef EML_FIXEDPOINT_H
 #define EML_FIXEDPOINT_H
 
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_io.h b/emlearn/eml_io.h
index 2c9a089..0a168c4 100644
--- a/emlearn/eml_io.h
+++ b/emlearn/eml_io.h
@@ -2,6 +2,9 @@
 #ifndef EML_IO_H
 #define EML_IO_H
 
+#include <stdint.h>
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_quantizer.h b/emlearn/eml_quantizer.h
index 2ce3d60..11fd257 100644
--- a/emlearn/eml_quantizer.h
+++ b/emlearn/eml_quantizer.h
@@ -2,6 +2,8 @@
 #ifndef EML_QUANTIZER_H
 #define EML_QUANTIZER_H
 
+#include <eml_common.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From 80e8438acfba9ba7b9ddfaa77cd89a98be2f3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 30/97] fix: eml_csv.h can be included several times

---
 emlearn/eml_csv.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..16ecd71 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -4,6 +4,9 @@
 // Not intended to parse every wierd "csv" like thing out there
 // Just the well-formed thing, that can be produced from typical PyData etc tools
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 #include <eml_common.h>
 #include <eml_io.h>
 
@@ -223,3 +226,4 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#endif // EML_CSV_H
-- 
2.43.0


From 234a7d45d1dbe556c5ec724df2320661399f0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 31/97] fix: all headers can be compiled as C++

---
 emlearn/eml_fileio.h  | 6 +++---
 emlearn/eml_mixture.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 1834723..374cfef 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -22,7 +22,7 @@ extern "C" {
 */
 int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fwrite(buffer, 1, size, fptr);
 }
 
@@ -31,7 +31,7 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 */
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fread(buffer, 1, size, fptr);
 }
 
@@ -40,7 +40,7 @@ int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 */
 int eml_fileio_seek(void *context, size_t position)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fseek(fptr, position, SEEK_SET);
 }
 
diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 5604777..381e1cb 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -271,7 +271,7 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_predict_log_proba(model, values, values_length, probabilities);
     if (status != EmlOk) {
         return status;
@@ -296,7 +296,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
     if (status != EmlOk) {
         return status;
-- 
2.43.0


From ad0e857a331f20c6b279fc71a28adac6b10894f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 32/97] fix: CSV reader returns a negative error for a too
 small column array

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 16ecd71..9dc446c 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -193,7 +193,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
     int characters_read = 0;
-- 
2.43.0


From 1818f3faa0afb609e52b4746eb7dfc926d24ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 33/97] fix: CSV reader handles streams that fail or return
 less than requested

---
 emlearn/eml_csv.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 9dc446c..a37c64d 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -116,8 +116,18 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
-        self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    // The stream may give less than requested at a time
+    size_t read_length = 0;
+    while (read_length < buffer_length) {
+        const int read = self->read(self->stream, (uint8_t *)buffer+read_length, buffer_length-read_length);
+        if (read < 0) {
+            return EmlUnknownError;
+        }
+        if (read == 0) {
+            break;
+        }
+        read_length += read;
+    }
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
-- 
2.43.0


From acd73a37ebbdec233744e2fc7946ff40b5b3e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 34/97] fix: CSV reader refuses lines that do not fit and
 headers that are missing, and tells empty lines from end of file

---
 emlearn/eml_csv.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index a37c64d..686d6a3 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -136,6 +136,7 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
     int column_idx = 0;
     int column_start_offset = 0;
     int offset = -1;
+    bool line_complete = false;
     for (offset=0; offset<read_length; offset++) {
 
         if (column_idx >= columns_length) {
@@ -161,10 +162,16 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
             // NULL terminate previous string
             buffer[offset] = '\0';
 
+            line_complete = true;
             break;
         }
     }
 
+    if (read_length > 0 && !line_complete) {
+        // line does not fit in buffer, or is not terminated
+        return EmlSizeMismatch;
+    }
+
     *out_columns = column_idx;
     *out_offset = offset;
 
@@ -183,6 +190,9 @@ eml_csv_reader_read_header(EmlCsvReader *self,
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     EML_CHECK_ERROR(read_err);
+    if (columns_read == 0) {
+        return EmlUnknownError;
+    }
 
     // Rembember number of columns
     self->n_columns = columns_read;
@@ -214,8 +224,8 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         return -EmlUnknownError;
     }
 
-    if (characters_read == 0) {
-        // EOF presumably
+    if (columns_read == 0) {
+        // EOF
         return 0;
     }
 
-- 
2.43.0


From a7bd72fd2baab1650dc3b5cc052c84061710be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 35/97] fix: CSV writer does not write incomplete rows

---
 emlearn/eml_csv.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 686d6a3..81ebbd8 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -87,11 +87,16 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
 
     char buf[EML_CSV_FLOAT_MAXSIZE] = {0,};
     const int max = EML_CSV_FLOAT_MAXSIZE;
+
+    // Check all values first, so that an incomplete row is never written
     for (int i=0; i<data_length; i++) {
-        int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
-        if (written >= max) {
+        if (snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]) >= max) {
             return EmlUnsupported;
         }
+    }
+
+    for (int i=0; i<data_length; i++) {
+        int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
         const bool is_last = (i == data_length-1);
         if (!is_last) {
             buf[written] = (EML_CSV_DELIMITER)[0];
-- 
2.43.0


From f401d4d9ebb1df6176eb51187ed6d7622e7b46a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 36/97] fix: CSV writer reports failing writes

---
 emlearn/eml_csv.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 81ebbd8..d0a0b2c 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -52,6 +52,13 @@ typedef struct _EmlCsvWriter {
 
 
 // Writer
+static EmlError
+eml_csv_writer_write_string(EmlCsvWriter *self, const char *data, int length)
+{
+    const int written = self->write(self->stream, (const uint8_t *)data, length);
+    return (written == length) ? EmlOk : EmlUnknownError;
+}
+
 EmlError
 eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_columns)
 {
@@ -66,14 +73,14 @@ eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_c
     for (int i=0; i<data_length; i++) {
         const char *name = columns[i];
         const int length = strlen(name);
-        self->write(self->stream, (uint8_t *)name, length);
+        EML_CHECK_ERROR(eml_csv_writer_write_string(self, name, length));
         const bool is_last = (i == data_length-1);
         if (!is_last) {
-            self->write(self->stream, (uint8_t *)delimiter, 1);
+            EML_CHECK_ERROR(eml_csv_writer_write_string(self, delimiter, 1));
         }
     }
 
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write_string(self, endline, 1));
 
     return EmlOk;
 }
@@ -102,9 +109,9 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
             buf[written] = (EML_CSV_DELIMITER)[0];
             written += 1;
         }
-        self->write(self->stream, (uint8_t *)buf, written);
+        EML_CHECK_ERROR(eml_csv_writer_write_string(self, buf, written));
     }
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write_string(self, endline, 1));
 
     return EmlOk;
 }
-- 
2.43.0


From 2c6ae6327f0759677994370134fe0108386c6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 37/97] fix: eml_array_copy_rows refuses arrays with another
 value size

---
 emlearn/eml_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..85b7286 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -202,6 +202,8 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same size of values
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
-- 
2.43.0


From fc6eb5e0006d0c574e1619e5a170476ae347b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 38/97] fix: eml_array_append does not claim success for doing
 nothing

---
 emlearn/eml_array.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 85b7286..ab61bcd 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -148,9 +148,8 @@ eml_array_sum(EmlArray *self, float *out_sum)
 EmlError
 eml_array_append(EmlArray *self, EmlArray *other)
 {
-    EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
-
-    return EmlOk;
+    // not implemented
+    return EmlUnsupported;
 }
 
 EmlError
-- 
2.43.0


From 854f7518136af2594eb29a7958772e0b1cdc392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 39/97] fix: Quantizer can be fitted to data that is all zeros

---
 emlearn/preprocessing/quantizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 310a619..4b85026 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -61,6 +61,10 @@ class Quantizer(BaseEstimator, TransformerMixin):
         else:
             largest = self.max_value            
     
+        if largest == 0:
+            # only zeros, any scale will do
+            largest = 1.0
+
         self.scale_ = out_max / largest
         return self
 
-- 
2.43.0


From bc33fa2b7399d3192ae3632cd6ed76a351c8aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 40/97] fix: Quantizer saturates instead of wrapping around

---
 emlearn/preprocessing/quantizer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 4b85026..b554feb 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -42,6 +42,16 @@ class Quantizer(BaseEstimator, TransformerMixin):
         out_max = info.max
         return out_max
 
+    def _get_limits(self):
+        """Lowest and highest output value, as floats that can be converted to dtype without overflow"""
+        out_max = self._get_out_max()
+        low, high = -float(out_max), float(out_max)
+        if numpy.issubdtype(self.dtype, numpy.integer):
+            if high > out_max:
+                high = numpy.nextafter(high, 0)
+            low = max(-high, float(numpy.iinfo(self.dtype).min))
+        return low, high
+
     def fit(self, X, y=None):
         # TODO: normalize and check X,y using sklearn helpers
         out_max = self._get_out_max()
@@ -71,11 +81,11 @@ class Quantizer(BaseEstimator, TransformerMixin):
     def transform(self, X, y=None):
 
         # scale
-        out = X * self.scale_
+        out = numpy.asarray(X, dtype=float) * self.scale_
 
         # clip out-of-range values
-        out_max = self._get_out_max()
-        out = numpy.clip(out, -out_max, out_max)
+        low, high = self._get_limits()
+        out = numpy.clip(out, low, high)
 
         # quantize / convert dtype
         out = out.astype(self.dtype)
-- 
2.43.0


From fa460182af120a0315738651e46345ea02311db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 41/97] fix: Quantizer range is right for integer data

---
 emlearn/preprocessing/quantizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index b554feb..aceee2d 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -57,6 +57,9 @@ class Quantizer(BaseEstimator, TransformerMixin):
         out_max = self._get_out_max()
 
         if self.max_value is None:
+            # use floats, as negation of fixed-size integers can overflow
+            X = numpy.asarray(X, dtype=float)
+
             # learn the value from data
             if self.max_quantile is None:
                 min_value = numpy.min(X, axis=None)
-- 
2.43.0


From cc5231b14a96e04984879c913971478b59443e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 42/97] fix: names with a trailing newline are not valid C
 identifiers

---
 emlearn/cgen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 32d06e3..69a6d57 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -9,7 +9,7 @@ import re
 
 import numpy
 
-VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
+VALID_IDENTIFIER_REGEX = r'[_a-zA-Z][_a-zA-Z0-9]*' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
 from .fixedpoint import FixedPointFormat, from_float
@@ -128,7 +128,7 @@ def identifier_is_valid(s):
     True
 
     """
-    match = re.match(VALID_IDENTIFIER_REGEX, s)
+    match = re.fullmatch(VALID_IDENTIFIER_REGEX, s)
     return match is not None
 
 def identifier_is_reserved(s):
-- 
2.43.0


From 170c7b9462da279c168c7719573d7805d59b533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 43/97] fix: refuse numbers that do not fit the fixed-point
 format

---
 emlearn/fixedpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/fixedpoint.py b/emlearn/fixedpoint.py
index 352b1c4..6249593 100644
--- a/emlearn/fixedpoint.py
+++ b/emlearn/fixedpoint.py
@@ -36,6 +36,10 @@ def from_float(numbers : numpy.array, fmt : FixedPointFormat):
     Convert numbers (floats) to fixed-point
     """
     a = numbers.astype(float)
+    high = 2.0 ** fmt.integer_bits
+    low = -high if fmt.sign_bits else 0.0
+    if not numpy.all((a >= low) & (a < high)):
+        raise ValueError(f"Numbers are outside the range [{low}, {high}) of the fixed-point format")
     out = (a * (1 << fmt.fraction_bits)).astype(int)
     return out
 
-- 
2.43.0


From 5f4eb61956341ab7d9221ed4be8d3d101d150309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 44/97] fix: row numbers of arrays near the integer limits are
 refused without overflow

---
 emlearn/eml_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index ab61bcd..233ed48 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -158,8 +158,8 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
+    EML_PRECONDITION(shift >= -rows, EmlSizeMismatch);
 
     const size_t row_size = self->value_size * self->dims[0];
 
@@ -207,7 +207,7 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= (self->dims[1] - other->dims[1]), EmlSizeMismatch);
 
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From 3b0e1a486783f72f454ba649741202495411415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 45/97] fix: array shapes too large to be indexed are refused
 without overflow

---
 emlearn/eml_array.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 233ed48..6ba05e5 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -50,6 +50,17 @@ eml_array_init_full(EmlArray *self,
     EML_PRECONDITION(n_dims >= 1, EmlSizeMismatch);
     EML_PRECONDITION(dimensions[0] >= 1, EmlSizeMismatch);
 
+    // Elements are indexed with int. Checked first, so that the storage size cannot overflow
+    int64_t elements = 1;
+    for (int d=0; d<n_dims; d++) {
+        EML_PRECONDITION(dimensions[d] >= 0, EmlSizeMismatch);
+        elements = elements * dimensions[d];
+        if (elements > INT32_MAX) {
+            elements = (int64_t)INT32_MAX + 1;
+        }
+    }
+    EML_PRECONDITION(elements <= INT32_MAX, EmlSizeMismatch);
+
     const size_t buffer_needed = eml_storage_size_array(n_dims, dimensions, value_size);
     EML_PRECONDITION(buffer_needed <= buffer_length, EmlSizeMismatch);
 
@@ -161,7 +172,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
     EML_PRECONDITION(shift >= -rows, EmlSizeMismatch);
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * self->dims[0];
 
 #if 0
     EML_LOG_BEGIN("eml_array_shift_rows_begin");
@@ -210,7 +221,7 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start <= (self->dims[1] - other->dims[1]), EmlSizeMismatch);
 
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * self->dims[0];
 
     for (int i=0; i<other->dims[1]; i++) {
 
-- 
2.43.0


From 28f59ed79219f0eb44f1f521217318076e82fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 46/97] fix: melspec does not read one value after the end of
 the spectrum

---
 emlearn/eml_audio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..f0beb7a 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -102,7 +102,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From 4ab76d9d705c8d2104bb0efa8d1dd565b09501e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 47/97] fix: mel filters are triangular also around the center
 frequency

---
 emlearn/eml_audio.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index f0beb7a..10d5836 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -96,7 +96,6 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
     // Note: no normalization
     for (int m=1; m<mel.n_mels+1; m++) {
         const int left = mel_bin(mel, m-1);
-        const int center = mel_bin(mel, m);
         const int right = mel_bin(mel, m+1);
 
         if (left < 0) {
@@ -109,25 +108,20 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         const float fdifflow = eml_audio_mel_center(mel, m) - eml_audio_mel_center(mel, m-1);
         const float fdiffupper = eml_audio_mel_center(mel, m+1) - eml_audio_mel_center(mel, m);
 
-        //fprintf(stderr, "mel %d:(%d, %d, %d) \n", m, left, center, right);
+        //fprintf(stderr, "mel %d:(%d, %d) \n", m, left, right);
 
+        // The triangle is the lowest of the rising and the falling slope
         float val = 0.0f;
-        for (int k=left; k<=center; k++) {
-            const float r = eml_audio_mel_center(mel, m-1) - eml_fft_freq(mel, k);
-            const float weight = eml_max(eml_min(-r/fdifflow, 1.0f), 0.0f);
+        for (int k=left; k<=right; k++) {
+            const float freq = eml_fft_freq(mel, k);
+            const float lower = (freq - eml_audio_mel_center(mel, m-1)) / fdifflow;
+            const float upper = (eml_audio_mel_center(mel, m+1) - freq) / fdiffupper;
+            const float weight = eml_max(eml_min(lower, upper), 0.0f);
             //if (m == 2) {
-            //    fprintf(stderr, "k=%d wl=%f \n", k, weight);
+            //    fprintf(stderr, "k=%d w=%f \n", k, weight);
             //}
             val += spec.data[k] * weight;
         }
-        for (int k=center; k<right; k++) {
-            const float r = eml_audio_mel_center(mel, m+1) - eml_fft_freq(mel, k+1);
-            const float weight = eml_max(eml_min(r/fdiffupper, 1.0f), 0.0f);
-            //if (m == 2) {
-            //    fprintf(stderr, "k=%d, wr=%f \n", k, weight);
-            //}
-            val += spec.data[k+1] * weight;
-        }
         //fprintf(stderr, "mel %d: val=%f\n", m, val);
 
         mels.data[m-1] = val;
-- 
2.43.0


From 5e9b56e0b4c3268940a616eb53be55b01a68cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 48/97] fix: melspectrogram uses the power of the complex
 spectrum, not only of the real part

---
 emlearn/eml_audio.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 10d5836..9e18a7d 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -156,6 +156,13 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     EML_CHECK_ERROR(eml_vector_set_value(temp, 0.0f));
     EML_CHECK_ERROR(eml_fft_forward(fft, inout.data, temp.data, inout.length));
 
+    // Magnitude
+    for (int i=0; i<s_length; i++) {
+        const float re = inout.data[i];
+        const float im = temp.data[i];
+        inout.data[i] = sqrtf(re*re + im*im);
+    }
+
     // Compute mel-spectrogram
     EML_CHECK_ERROR(eml_audio_power_spectrogram(inout, eml_vector_view(temp, 0, s_length), n_fft));
     EML_CHECK_ERROR(eml_audio_melspec(mel_params, temp, eml_vector_view(inout, 0, n_mels)));
-- 
2.43.0


From ab943d172467f1536a5643863a7aeb74e258ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 49/97] fix: melspectrogram checks the lengths of its buffers

---
 emlearn/eml_audio.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 9e18a7d..541d5e5 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -148,7 +148,11 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
- 
+
+    EML_PRECONDITION(inout.length == n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(temp.length >= inout.length, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels <= inout.length, EmlSizeMismatch);
+
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
 
-- 
2.43.0


From a5cc70bd327b776af88b4c43dd93c5b0aed46324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 50/97] fix: Hann window of length 1 is not NaN

---
 emlearn/eml_vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index c7b0811..7299927 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -64,6 +64,11 @@ eml_signal_mean(float *data, int length)
 EmlError
 eml_signal_hann_apply(float *data, int length)
 {
+    // a window of a single value is 1.0
+    if (length == 1) {
+        return EmlOk;
+    }
+
     for (int i=0; i<length; i++) {
         float m = (float)(0.5 * (1 - cos(2*M_PI*i/(length-1))));
         data[i] = m * data[i];
-- 
2.43.0


From 36e6192e81f70295ff797b9291b763bb024094b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 51/97] fix: sparse filterbank of filters with zeros inside or
 only zeros

---
 emlearn/signal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..e8abddc 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -16,10 +16,14 @@ def sparse_filterbank(mels):
     for mel_idx in range(mels.shape[0]):
         mel = mels[mel_idx]
         nonzero = numpy.nonzero(mel)[0]
+        if len(nonzero) == 0:
+            # keep a single zero coefficient
+            nonzero = numpy.array([0])
         first, last = nonzero[0], nonzero[-1]
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        # all from first to last, including zeros inbetween
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
-- 
2.43.0


From 059294e29add12cbb32c90da4275c6da4455fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 52/97] fix: errors in the Python bindings are thrown as
 exceptions with their message

---
 bindings/emlpy_common.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..4b5701a 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -4,7 +4,7 @@
 
 #include <eml_common.h>
 
-#include <exception>
+#include <stdexcept>
 
 namespace emlpy {
 
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From be36115bf9f1b3cec444e6a6a2482887a834383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 53/97] fix: iirfilter refuses coefficients that are not
 second-order sections

---
 bindings/eml_signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..9d0f0ad 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -21,6 +21,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS coefficients must have 6 columns");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
 
     const int n_stages = (int)sos.shape(0);
-- 
2.43.0


From e256938e9ccceb2ad8b16233354485ab40282001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 54/97] fix: sparse_filterbank binding refuses indices outside
 of its inputs

---
 bindings/eml_audio.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 430007e..e866ad7 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -147,6 +147,17 @@ sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecas
     EMLPY_PRECONDITION(starts.shape(0) == stops.shape(0), "Number of starts must equals stops");
 
     const int output_length = (int)starts.shape(0);
+
+    // All indices must be inside the input and coefficients
+    long long n_coeffs = 0;
+    for (int i=0; i<output_length; i++) {
+        const int start = starts.data()[i];
+        const int stop = stops.data()[i];
+        EMLPY_PRECONDITION(start >= 0 && stop < in.shape(0), "Starts and stops must be inside the input");
+        n_coeffs += (stop >= start) ? (stop - start + 1) : 0;
+    }
+    EMLPY_PRECONDITION(n_coeffs <= coeffs.shape(0), "Too few coefficients");
+
     auto ret = py::array_t<float>(output_length);
 
     EMLPY_CHECK_ERROR(eml_sparse_filterbank(in.data(),
-- 
2.43.0


From a063c223f8f46e7116730e1c2163fc309062282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 55/97] fix: power spectrogram accepts a spectrum of exactly
 the right length

---
 emlearn/eml_audio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 541d5e5..d8f55f2 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -22,7 +22,7 @@ EmlError
 eml_audio_power_spectrogram(EmlVector rfft, EmlVector out, int n_fft) {
     const int spec_length = 1+n_fft/2;
 
-    EML_PRECONDITION(rfft.length > spec_length, EmlSizeMismatch);
+    EML_PRECONDITION(rfft.length >= spec_length, EmlSizeMismatch);
     EML_PRECONDITION(out.length == spec_length, EmlSizeMismatch);
 
     const float scale = 1.0f/n_fft;
-- 
2.43.0


From 067e71638bed47edf00877bc6fe553a77d9d6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 56/97] fix: serialized filterbanks keep fractional frequencies

---
 emlearn/signal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index e8abddc..15db37a 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -33,6 +33,11 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
     assert len(starts) == len(ends)
     n_bands = len(starts)
 
+    def number_declare(name, val):
+        # integer where possible
+        dtype = 'int' if float(val).is_integer() else 'float'
+        return cgen.constant_declare(name, val=val, dtype=dtype)
+
     arrays = [
         cgen.constant_declare(name+'_bands', val=n_bands),
         cgen.array_declare(name+'_starts', len(starts), dtype='int', values=starts),
@@ -50,15 +55,15 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
         ]
     if sr is not None:
         arrays += [
-            cgen.constant_declare(name+'_samplerate', val=sr),
+            number_declare(name+'_samplerate', val=sr),
         ]
     if fmax is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmax', val=fmax),
+            number_declare(name+'_fmax', val=fmax),
         ]
     if fmin is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmin', val=fmin),
+            number_declare(name+'_fmin', val=fmin),
         ]
 
     out = '\n\n'.join(arrays)
-- 
2.43.0


From af460a7c93b753dcc521a4aa402dbd38c8abac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 57/97] fix: wrapping the lines of generated tables does not
 split numbers and names

---
 emlearn/tools/mel_filterbank.py  | 3 ++-
 emlearn/tools/window_function.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 25c0a80..9e3d080 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -25,7 +25,8 @@ def mel_filterbank(args, name):
     gen = emlearn.signal.sparse_filterbank_serialize(sparse, name=name, frequencies=frequencies,
             n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)
 
-    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False)
+    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False,
+            break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index 679c1a7..a102f5d 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -46,7 +46,7 @@ def window_function(name, window_type, length, fft_mode, linewrap):
     ]
     gen = '\n'.join(arrays)
 
-    w = textwrap.wrap(gen, linewrap)
+    w = textwrap.wrap(gen, linewrap, break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
-- 
2.43.0


From 330651a4df43686ce9bdb5f33353f952d9476ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 58/97] fix: --htk and --normalize of eml-mel-filterbank can be
 set to False

---
 emlearn/tools/mel_filterbank.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 9e3d080..39ea6bc 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -31,6 +31,15 @@ def mel_filterbank(args, name):
     return wrapped
 
 
+def parse_bool(s):
+    # bool('False') is True
+    values = {'true': True, '1': True, 'yes': True, 'false': False, '0': False, 'no': False, '': False}
+    try:
+        return values[s.lower()]
+    except KeyError:
+        raise argparse.ArgumentTypeError(f"expected True or False, got '{s}'")
+
+
 def parse(args=None):
     parser = argparse.ArgumentParser(description='Generate filterbank for Mel spectrogram')
     a = parser.add_argument
@@ -46,9 +55,9 @@ def parse(args=None):
       help='Frequency of lowest band. Default: 0')
     a('--fmax', type=int, default=None,
       help='Frequency of highest band. Default: samplerate/2')
-    a('--htk', type=bool, default=False,
+    a('--htk', type=parse_bool, default=False,
       help='Use HTK style filter spacing')
-    a('--normalize', type=bool, default=True,
+    a('--normalize', type=parse_bool, default=True,
       help='Normalize to have constant energy per band')
 
     a('--name', type=str, default='',
-- 
2.43.0


From a7f2b30c2d5ae24f4e364e2839690896641ca91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 59/97] fix: code-generating tools refuse names that are not C
 identifiers

---
 emlearn/tools/mel_filterbank.py  | 2 ++
 emlearn/tools/window_function.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 39ea6bc..6d7e19e 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -9,6 +9,7 @@ import argparse
 import textwrap
 
 import emlearn.signal
+from emlearn import cgen
 
 
 def mel_filterbank(args, name):
@@ -79,6 +80,7 @@ def main():
         name = '_'.join(['mel', str(args.fft), str(args.bands)])
     if not out:
         out = name+'.h'
+    cgen.assert_valid_identifier(name)
 
     preamble = '// This file was generated with emlearn using eml-mel-filterbank\n\n'
     gen = mel_filterbank(args, name)
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index a102f5d..63a45ee 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -63,6 +63,7 @@ def main():
         name = '_'.join([window_type, str(length), 'lut'])
     if not out:
         out = name+'.h'
+    cgen.assert_valid_identifier(name)
 
     if window_type not in known_window_types:
         print('Warning: Unknown window type {}. Known:\n {}'.format(window_type, known_window_types))
-- 
2.43.0


From 1e8d56560b36d9617ef2cc8b9edc8cedd86b1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 60/97] fix: find_pareto_front keeps the rows unchanged and
 ignores missing values

---
 emlearn/evaluate/pareto.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index d85033f..f23f837 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -40,24 +40,24 @@ def find_pareto_front(df,
     :returns: The rows that make up the Pareto front
     """
 
-    # prevnt mutating input    
-    df = df.copy()
+    performance = numpy.array(df[performance_metric], dtype=float)
+    cost = numpy.array(df[cost_metric], dtype=float)
 
     # flip to negative-is-better
-    if higher_is_better:
-        df['mean_test_score'] = -df[performance_metric]
-    else:
-        df['mean_test_score'] = df[performance_metric]
+    score = -performance if higher_is_better else performance
+
+    # rows with missing values cannot be compared, and are never part of the front
+    valid = ~(numpy.isnan(score) | numpy.isnan(cost))
+    pp = numpy.zeros(len(df), dtype=bool)
+    pp[valid] = is_pareto_efficient_simple(numpy.column_stack([score, cost])[valid])
 
-    pp = is_pareto_efficient_simple(df[['mean_test_score', cost_metric]].values)
-    
     if min_performance is not None:
         if higher_is_better:
-            pp = (pp & (df[performance_metric] >= min_performance))
+            pp = (pp & (performance >= min_performance))
         else:
-            pp = (pp & (df[performance_metric] <= min_performance))
-    
-    return df[pp]
+            pp = (pp & (performance <= min_performance))
+
+    return df[pp].copy()
 
 def plot_pareto_front(results,
                       pareto_cut=None,
-- 
2.43.0


From 19e0674bf2c0551c58774c190da31c735989edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 61/97] fix: plot_pareto_front uses the columns asked for

---
 emlearn/evaluate/pareto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index f23f837..cbc9dc8 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -82,7 +82,9 @@ def plot_pareto_front(results,
 
     import seaborn
 
-    pf = find_pareto_front(results, min_performance=pareto_cut)
+    pf = find_pareto_front(results, cost_metric=cost_metric,
+                           performance_metric=performance_metric,
+                           min_performance=pareto_cut)
     pf = pf.sort_values(cost_metric)
 
     g = seaborn.FacetGrid(results, hue=hue, height=height, aspect=aspect)
-- 
2.43.0


From 29851342d8ad00df8109b206c920b20f680f4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 62/97] fix: plot_pareto_front draws the front without hue and
 for numeric hues

---
 emlearn/evaluate/pareto.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index cbc9dc8..ef8003c 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -101,11 +101,12 @@ def plot_pareto_front(results,
                         #hue=hue,
        )
 
-    def _plot_front(color, label):
-        if pareto_global:
+    def _plot_front(color=None, label=None):
+        if pareto_global or hue is None:
             sub = pf.copy()
-        else:        
-            sub = pf[pf[hue] == label]        
+        else:
+            # the label is always a string, also when the column is not
+            sub = pf[pf[hue].astype(str) == str(label)]
 
         seaborn.lineplot(
             data=sub,
-- 
2.43.0


From c9449ef7361dc5ce2a29f6b0eb62d29525d8e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 63/97] fix: model_size_bytes counts the leaf table as it is
 stored

---
 emlearn/evaluate/trees.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/emlearn/evaluate/trees.py b/emlearn/evaluate/trees.py
index 29d1c95..6c2f9eb 100644
--- a/emlearn/evaluate/trees.py
+++ b/emlearn/evaluate/trees.py
@@ -4,8 +4,6 @@ Tree evaluation metrics
 =========================
 Utilities for measuring a tree-based model
 """
-import math
-
 from ..convert import convert as convert_model
 from ..trees import Wrapper as TreesWrapper
 
@@ -60,7 +58,13 @@ def model_size_bytes(model, a=None, b=None, node_size=None, leaf_size=None):
         em = convert_model(model)
 
     if leaf_size is None:
-        leaf_size = math.ceil(em.leaf_bits/8)
+        if em.leaf_bits == 32:
+            leaf_size = 4 # one floating point value
+        elif em.leaf_bits == 0:
+            leaf_size = 1 # one class index
+        else:
+            # class proportions. Each stored as one byte
+            leaf_size = em.n_classes
 
     nodes = model_size_nodes(em)
     leaves = model_size_leaves(em)
-- 
2.43.0


From 2955c16490daad28cdb95b205f0cbcfa4a7e9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 64/97] fix: size output parser handles any section name

---
 emlearn/evaluate/size.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index 94bb593..b5e0daf 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -53,8 +53,9 @@ def parse_binutils_size_a_output(stdout : str) -> Dict[str, int]:
     assert 'size' in header_line, header_line
 
     # extract section names and sizes
-    number_field_regex = r"([\w.]+)\s+(\d+)" 
-    matches = re.finditer(number_field_regex, stdout, re.MULTILINE)
+    # names can have any characters, like .text.unlikely-1 or .note.GNU-stack
+    number_field_regex = r"^(\S+)[ \t]+(\d+)"
+    matches = re.finditer(number_field_regex, '\n'.join(lines[2:]), re.MULTILINE)
     out = {}
     for m in matches:
         field, value = m.groups()
-- 
2.43.0


From 6f0778201d4402239ba23d2ebc925b3f166d4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 65/97] fix: unsupported platform message names the platform

---
 emlearn/evaluate/size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index b5e0daf..76edff7 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -182,7 +182,7 @@ def assert_valid_platform(platform : str):
 
     supported_platforms = set(PLATFORM_BUILDERS.keys())
     if platform not in supported_platforms:
-        raise ValueError("Unsupported build platform '{platform}'. Supported: {','.join(supported_platforms)}")
+        raise ValueError(f"Unsupported build platform '{platform}'. Supported: {','.join(supported_platforms)}")
 
 def get_program_size(code : str, platform : str, mcu : str, include_dirs=None) -> (int, int):
     """
-- 
2.43.0


From c31203e8d4a4543f916babb49b7ef7dd6ff8ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 66/97] fix: Arduino install refuses a folder without headers,
 and handles any folder name

---
 emlearn/arduino/install.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 12b3a7d..9a4044e 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -18,28 +18,27 @@ class Error(ValueError):
 
 def install_arduino_library(emlearn_include_dir, arduino_library_dir, update=False):
 
-    # Create directories
     library_dir = os.path.join(arduino_library_dir, 'emlearn')
 
     if os.path.exists(library_dir) and not update:
         raise Error(f"""Library already exists at '{library_dir}'.
             Specifying --update will overwrite/update the files.""")
 
-    ensure_dir_single(arduino_library_dir)
-    ensure_dir_single(library_dir)
-
     def in_library(pattern):
-        return os.path.join(emlearn_include_dir, pattern)
+        return os.path.join(glob.escape(emlearn_include_dir), pattern)
+
+    headers = glob.glob(in_library('eml_*.h')) # must have
+    if not headers:
+        raise Error(f"No emlearn headers found in '{emlearn_include_dir}'")
 
-    patterns = [
-        in_library('eml_*.h'), # must have
-        in_library('VERSION.txt'), # convenient for debugging/support etc
-    ]
+    extras = glob.glob(in_library('VERSION.txt')) # convenient for debugging/support etc
+
+    ensure_dir_single(arduino_library_dir)
+    ensure_dir_single(library_dir)
 
     # Copy the files
-    for p in patterns:
-        for f in glob.glob(p):
-            shutil.copy(f, library_dir+'/')
+    for f in headers + extras:
+        shutil.copy(f, library_dir+'/')
 
     return library_dir
 
-- 
2.43.0


From 00ed8c986885857efe2eb235b3f153b820fa761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 67/97] fix: Arduino install names the unknown platform

---
 emlearn/arduino/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 9a4044e..1ec2b45 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -59,7 +59,7 @@ def find_arduino_library_dir():
     }
 
     if platform not in sketchbook_paths:
-        print("WARNING: Unknown platform '{platform}'. Guessing {default_platform}")
+        print(f"WARNING: Unknown platform '{platform}'. Guessing {default_platform}")
         platform = default_platform
 
     sketchbook = os.path.expanduser(sketchbook_paths.get(platform))
-- 
2.43.0


From 56d8f530538c64b7fefb9ea7126e8fdfd829e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 68/97] fix: explicit kind decides between tree classifier and
 regressor

---
 emlearn/convert.py | 4 ++--
 emlearn/trees.py   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index 3c1cdb7..aeb20b1 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -67,8 +67,8 @@ def convert(estimator,
 
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
-        # return_type is intentionally not passed through - the Wrapper will guess based on Class name
-        return trees.Wrapper(estimator, method, dtype=dtype, **kwargs)
+        # return_type is intentionally not passed through - the Wrapper will guess based on kind
+        return trees.Wrapper(estimator, method, dtype=dtype, kind=kind, **kwargs)
     elif kind in ['EllipticEnvelope']:
         if dtype is None:
             dtype = 'float'
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 0ca575b..8bc1814 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -698,7 +698,7 @@ def generate_c_loadable(forest, name, n_features,
 
 
 class Wrapper:
-    def __init__(self, estimator, method, dtype='int16_t', leaf_bits=None):
+    def __init__(self, estimator, method, dtype='int16_t', leaf_bits=None, kind=None):
 
         if method is None:
             method = 'inline'
@@ -707,7 +707,8 @@ class Wrapper:
         if self.dtype is None:
             self.dtype = 'int16_t'
 
-        kind = type(estimator).__name__
+        if kind is None:
+            kind = type(estimator).__name__
         leaf = 'argmax'
         self.is_classifier = True
         self.out_dtype = "int"
-- 
2.43.0


From 3618ee219bc49e9b0987b1c0f30a9ce7e5d5fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 69/97] fix: tree jumps of 32768 are refused, they do not fit
 16 bits

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 8bc1814..6c922c1 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -288,7 +288,7 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
+def assert_valid_child(value, child_max = 2**15-1, child_min = -2**15):
     assert value >= child_min, value
     assert value <= child_max, value
 
-- 
2.43.0


From 2b3fa2b49adc2537f0a43f7b0ee8bfa7b2ac5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 70/97] fix: refuse leaf_bits that trees do not support

---
 emlearn/trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 6c922c1..6e31d0a 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -727,6 +727,10 @@ class Wrapper:
             else:
                 leaf_bits = 32
 
+        supported_leaf_bits = range(0, 9) if self.is_classifier else [32]
+        if leaf_bits not in supported_leaf_bits:
+            raise ValueError(f"Unsupported leaf_bits: {leaf_bits}. Supported: {list(supported_leaf_bits)}")
+
         if leaf_bits > 0 and leaf_bits <= 8 and self.is_classifier:
             leaf = 'probabilities'
 
-- 
2.43.0


From c715ac99e6d13bef48658c5e205ce4a3e9c1c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 71/97] fix: refuse feature datatypes that trees do not support

---
 emlearn/trees.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 6e31d0a..d1f4fbe 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -23,6 +23,12 @@ SUPPORTED_ESTIMATORS=[
 ]
 
 
+SUPPORTED_DTYPES=[
+    'float',
+    'int8_t', 'int16_t', 'int32_t', 'int64_t',
+    'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t',
+]
+
 def quantize_probabilities_into_byte(p, bits=8):
     assert bits <= 8, bits
     assert bits >= 1, bits
@@ -706,6 +712,8 @@ class Wrapper:
         self.dtype = dtype
         if self.dtype is None:
             self.dtype = 'int16_t'
+        if self.dtype not in SUPPORTED_DTYPES:
+            raise ValueError(f"Unsupported dtype '{self.dtype}'. Supported: {SUPPORTED_DTYPES}")
 
         if kind is None:
             kind = type(estimator).__name__
-- 
2.43.0


From 6faa46f762068754846a003fe6b7db61992e237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 72/97] fix: save() with a given inference method checks that
 trees support it

---
 emlearn/trees.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index d1f4fbe..8948adb 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -763,16 +763,20 @@ class Wrapper:
         if self.method not in ('loadable', 'inline'):
             raise ValueError("Unsupported inference method '{}'".format(self.method))
 
-        if self.method == 'loadable' and self.dtype != 'int16_t':
+        self._check_method_supported(self.method)
+
+        self._classifier = None # lazy-initialized by _build_classifier
+
+    def _check_method_supported(self, method):
+
+        if method == 'loadable' and self.dtype != 'int16_t':
             raise ValueError("Inference method='loadable' only supports dtype='int16_t'. Use method='inline' for others")
 
         # TODO: support more features for inline. Like 255
-        max_features = 127 if self.method == 'loadable' else 10000
+        max_features = 127 if method == 'loadable' else 10000
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
-        self._classifier = None # lazy-initialized by _build_classifier
-
     def _build_classifier(self):
         if self._classifier is not None:
             return None
@@ -906,6 +910,8 @@ class Wrapper:
                 n_features=self.n_features,
                 include_proba=include_proba,
             )
+            for method in inference:
+                self._check_method_supported(method)
             if 'loadable' in inference:
                 code += '\n\n' + generate_c_loadable(**generate_args)
             if 'inline' in inference:
-- 
2.43.0


From ca7239218a9e300e7775a913a48eeca16b0df6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 73/97] fix: refuse loadable trees with more classes than the C
 code can hold

---
 emlearn/trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 8948adb..d6665cc 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -777,6 +777,10 @@ class Wrapper:
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
+        max_classes = 30 # default of EMTREES_MAX_CLASSES
+        if method == 'loadable' and self.n_classes > max_classes:
+            raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
+
     def _build_classifier(self):
         if self._classifier is not None:
             return None
-- 
2.43.0


From b52332fb21c8b510e0b645cb8c9304ff4718a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 74/97] fix: predictions refuse rows with the wrong number of
 features

---
 emlearn/bayes.py     |  2 +-
 emlearn/common.py    | 15 ++++++++++++---
 emlearn/distance.py  |  2 +-
 emlearn/neighbors.py |  2 +-
 emlearn/net.py       |  9 +++++----
 emlearn/trees.py     |  1 +
 6 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 6b770d5..b012abe 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -115,7 +115,7 @@ class Wrapper(object):
             name = 'mybayes'
             func = 'eml_bayes_predict(&{}_model, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif method == 'inline':
             raise NotImplementedError('NaiveBayes does not support inline C code generation')
         else:
diff --git a/emlearn/common.py b/emlearn/common.py
index 59c24d0..96d5778 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -169,7 +169,8 @@ class CompiledClassifier():
             test_function=None,
             out_dtype='int',
             proba_call=None,
-            n_classes=None):
+            n_classes=None,
+            n_features=None):
 
         if include_dir == None:
             include_dir = get_include_dir()
@@ -192,16 +193,24 @@ class CompiledClassifier():
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
+        self.n_features = n_features
 
-    def predict(self, X):
+    def _check_input(self, X):
         X = check_array(X)
 
+        if self.n_features is not None and X.shape[1] != self.n_features:
+            raise ValueError(f"X has {X.shape[1]} features, but the model expects {self.n_features}")
+        return X
+
+    def predict(self, X):
+        X = self._check_input(X)
+
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
         assert len(out) == len(X), out
         return out
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = self._check_input(X)
 
         if self.proba_bin_path is None:
             raise ValueError('predict_proba() not supported')
diff --git a/emlearn/distance.py b/emlearn/distance.py
index 9a10443..6f38390 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -108,7 +108,7 @@ class Wrapper:
             name = 'my_inline_elliptic'
             func = '{}_predict(values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', n_features=len(self._means))
         else:
             raise ValueError("Unsupported classifier method '{}'".format(classifier))
 
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 83e327c..55da100 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -87,7 +87,7 @@ class Wrapper:
             func = 'predict_func(values, length)'
 
 
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         else:
             raise ValueError(f"Unsupported inference method '{inference}'")
 
diff --git a/emlearn/net.py b/emlearn/net.py
index 7536abe..ac783cb 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -51,6 +51,8 @@ class Wrapper:
         if n_outputs == 1:
             n_outputs = 2
 
+        n_features = self.weights[0].shape[0]
+
         if self.use_fixedpoint and self.inference_type != 'inline':
             raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
 
@@ -59,19 +61,18 @@ class Wrapper:
             func = 'eml_net_predict(&{}, values, length)'.format(name)
             code = self.save(name=name)
             proba_func = 'eml_net_predict_proba(&{}, values, length, outputs, {})'.format(name, n_outputs)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs, n_features=n_features)
         elif self.inference_type == 'loadable' and return_type == 'regressor':
             func = 'eml_net_regress1(&{}, values, length)'.format(name)
             code = self.save(name=name)
             n_values = self.weights[-1].shape[1]
             values_func = 'eml_net_regress(&{}, values, length, outputs, {})'.format(name, n_values) if n_values > 1 else None
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', proba_call=values_func, n_classes=n_values)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', proba_call=values_func, n_classes=n_values, n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'classifier':
             code = self.save(name=name)
 
             if self.use_fixedpoint:
                 # inject a conversion between float and fixed-point
-                n_features = self.weights[0].shape[0]
                 code += f"""
                 eml_q16_t {name}_fixed_values[{n_features}];
 
@@ -85,7 +86,7 @@ class Wrapper:
                 func = f'{name}_predict_float(values, length)'                
             else:
                 func = f'{name}_predict(values, length)'
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'regressor':
             raise NotImplementedError("Inline inference not supported for regressors, use loadable instead")
         else:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index d6665cc..f43ae60 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -863,6 +863,7 @@ class Wrapper:
         self.classifier_ = common.CompiledClassifier(code, name=name,
             call=call_func, proba_call=proba_func,
             out_dtype=self.out_dtype, n_classes=self.n_classes,
+            n_features=self.n_features,
         )
 
 
-- 
2.43.0


From a3dfeeeea530e71d4e78106656c6d3480177e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 75/97] fix: tree probabilities and regression refuse the wrong
 number of features

---
 emlearn/eml_trees.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index bcd6a8e..03189bc 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -121,6 +121,7 @@ eml_trees_predict_proba(const EmlTrees *self,
 {
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
 
@@ -263,6 +264,10 @@ eml_trees_regress(const EmlTrees *forest,
         return EmlSizeMismatch;
     }
 
+    if (features_length != forest->n_features) {
+        return EmlSizeMismatch;
+    }
+
     if (forest->leaf_bits != 32) {
         // only majority vote supported for now
         return EmlUnsupported;
-- 
2.43.0


From 84b92f359c4fb652431e566a6c0e03298994c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 76/97] fix: tree regression does not read unaligned floats

---
 emlearn/eml_trees.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 03189bc..073d7c2 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -12,6 +12,7 @@
 
 #include <stdint.h>
 #include <math.h>
+#include <string.h>
 #include <eml_common.h>
 
 #ifdef __cplusplus
@@ -279,8 +280,9 @@ eml_trees_regress(const EmlTrees *forest,
     for (int32_t i=0; i<forest->n_trees; i++) {
         const int32_t leaf_number = eml_trees_predict_tree(forest, forest->tree_roots[i], features, features_length);        
         const int32_t leaf_offset = leaf_number * leaf_size;
-        const float *leaf_data = (float *)(forest->leaves + leaf_offset);
-        const float val = *leaf_data;
+        // leaves are bytes, may not be aligned for float
+        float val;
+        memcpy(&val, forest->leaves + leaf_offset, leaf_size);
         sum += val;
     }
 
-- 
2.43.0


From 91cd02365d4a2bf646331ffb55c0ba4c26b54bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 77/97] fix: descriptions of the error codes Unsupported and
 Uninitialized were swapped

---
 emlearn/eml_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index a08c24d..c1021d4 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -31,8 +31,8 @@ static const char * const
 eml_error_strs[EmlErrors] = {
     "OK",
     "SizeMismatch",
-    "Uninitialized",
     "Unsupported",
+    "Uninitialized",
     "Postcondition failed",
     "Unknown error",
 };
-- 
2.43.0


From 366a854029339e5e0b3408ad4aea4ca53057f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 78/97] fix: inline tree code refuses the wrong number of
 features or outputs

---
 emlearn/trees.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index f43ae60..4754833 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -448,6 +448,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_regressor_func = """float {function_name}(const {ctype} *features, int32_t features_length) {{
 
+        if (features_length != {n_features}) {{
+            return NAN;
+        }}
+
         float avg = 0;
 
         {tree_predictions}
@@ -456,6 +460,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     }}
     """.format(**{
       'function_name': name+"_predict",
+      'n_features': n_features,
       'n_classes': n_classes,
       'n_trees': len(roots),
       'tree_predictions': '\n    '.join([ tree_vote_regressor(n) for n in tree_names ]),
@@ -464,6 +469,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_predict_majority_func = """int32_t {function_name}(const {ctype} *features, int32_t features_length) {{
 
+        if (features_length != {n_features}) {{
+            return -1;
+        }}
+
         int32_t votes[{n_classes}] = {{0,}};
         int32_t _class = -1;
 
@@ -482,6 +491,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     }}
     """.format(**{
       'function_name': name+"_predict",
+      'n_features': n_features,
       'n_classes': n_classes,
       'tree_predictions': '\n    '.join([ tree_vote_classifier(n) for n in tree_names ]),
       'ctype': ctype,
@@ -490,6 +500,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_proba_majority_func = """int {function_name}(const {ctype} *features, int32_t features_length, float *out, int out_length) {{
 
+        if (features_length != {n_features} || out_length != {n_classes}) {{
+            return -1;
+        }}
+
         int32_t _class = -1;
 
         for (int i=0; i<out_length; i++) {{
@@ -506,6 +520,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     }}
     """.format(**{
       'function_name': name+"_predict_proba",
+      'n_features': n_features,
       'n_classes': n_classes,
       'tree_predictions': '\n    '.join([ tree_vote_proba(n) for n in tree_names ]),
       'n_trees': len(tree_names),
@@ -523,6 +538,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         return c
     forest_proba_proportions_func = """int {function_name}(const {ctype} *features, int32_t features_length, float *out, int out_length) {{
 
+        if (features_length != {n_features} || out_length != {n_classes}) {{
+            return -1;
+        }}
+
         int offset = 0;
 
         for (int i=0; i<out_length; i++) {{
@@ -539,6 +558,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     }}
     """.format(**{
       'function_name': name+"_predict_proba",
+      'n_features': n_features,
       'n_classes': n_classes,
       'tree_predictions': '\n    '.join([ tree_vote_leaf_proportion(i, n) for i, n in enumerate(tree_names) ]),
       'n_trees': len(tree_names),
@@ -548,6 +568,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_predict_proportions_func = """int32_t {function_name}(const {ctype} *features, int32_t features_length) {{
 
+        if (features_length != {n_features}) {{
+            return -1;
+        }}
+
         float out[{n_classes}] = {{0.0f,}};
 
         int offset = 0;
@@ -568,6 +592,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     }}
     """.format(**{
       'function_name': name+"_predict",
+      'n_features': n_features,
       'n_classes': n_classes,
       'tree_predictions': '\n    '.join([ tree_vote_leaf_proportion(i, n) for i, n in enumerate(tree_names) ]),
       'ctype': ctype,
@@ -592,6 +617,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     // !!! This file is generated using emlearn !!!
 
     #include <stdint.h>
+    #include <math.h>
     """
 
     parts  = [head] + tree_funcs
-- 
2.43.0


From 4719b7d1a78dd715150d59008f30612d46348db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 79/97] fix: convert() refuses settings that have no effect for
 the kind of model

---
 emlearn/convert.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index aeb20b1..fd263e8 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -65,25 +65,45 @@ def convert(estimator,
     if kind is None:
         kind = type(estimator).__name__
 
+    def refuse_unsupported(dtypes=(None, 'float'), return_types=('classifier',), arguments=()):
+        # these would otherwise be silently ignored
+        if dtype not in dtypes:
+            raise ValueError(f"Unsupported dtype '{dtype}' for {kind}. Supported: {dtypes}")
+        if return_type not in return_types:
+            raise ValueError(f"Unsupported return_type '{return_type}' for {kind}. Supported: {return_types}")
+        unsupported = sorted(set(kwargs) - set(arguments))
+        if unsupported:
+            raise TypeError(f"Unsupported arguments for {kind}: {unsupported}")
+
+    both_return_types = ('classifier', 'regressor')
+
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
         # return_type is intentionally not passed through - the Wrapper will guess based on kind
+        return_types = both_return_types if 'Regressor' in kind else ('classifier',)
+        refuse_unsupported(dtypes=(None, *trees.SUPPORTED_DTYPES), return_types=return_types, arguments=['leaf_bits'])
         return trees.Wrapper(estimator, method, dtype=dtype, kind=kind, **kwargs)
     elif kind in ['EllipticEnvelope']:
+        refuse_unsupported()
         if dtype is None:
             dtype = 'float'
         return distance.Wrapper(estimator, method, dtype=dtype)
     elif kind in ['GaussianMixture', 'BayesianGaussianMixture']:
+        refuse_unsupported()
         if dtype is None:
             dtype = 'float'
         return mixture.Wrapper(estimator, method, dtype=dtype)
     elif kind in ('MLPClassifier', 'MLPRegressor'):
+        refuse_unsupported(return_types=both_return_types, arguments=['use_fixedpoint'])
         return net.convert_sklearn_mlp(estimator, method, return_type=return_type, **kwargs)
     elif kind == 'Sequential':
+        refuse_unsupported(return_types=both_return_types, arguments=['use_fixedpoint'])
         return net.convert_keras(estimator, method, return_type=return_type, **kwargs)
     elif kind == 'GaussianNB':
+        refuse_unsupported()
         return bayes.Wrapper(estimator, method)
     elif kind in ['KNeighborsClassifier']:
+        refuse_unsupported(dtypes=(None, 'float', 'int16_t'))
         return neighbors.convert_sklearn(estimator, inference=method)
     else:
         raise ValueError("Unknown model type: '{}'".format(kind))
-- 
2.43.0


From e1de581d5925fbef6a3b5efcead5d41755a76921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 80/97] fix: refuse Naive Bayes models out of the fixed-point
 range

---
 emlearn/bayes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index b012abe..e72c868 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -105,7 +105,10 @@ class Wrapper(object):
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
         # Each class prior is included in the normalization term of the first feature
-        model[:, 0, 2] -= numpy.log2(estimator.class_prior_)
+        with numpy.errstate(divide='ignore'):
+            model[:, 0, 2] -= numpy.log2(estimator.class_prior_)
+        if not numpy.all(numpy.abs(model) < (1 << 15)):
+            raise ValueError("Mean, standard deviation or class prior is out of the 16.16 fixed-point range. Scale the features")
         self.model = model
 
         if method is None:
-- 
2.43.0


From 787529768760d7b45308f0c4c92c0a27e8336357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 81/97] fix: saving loadable code of a fixed-point network is
 refused

---
 emlearn/net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index ac783cb..f9d8738 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -120,6 +120,9 @@ class Wrapper:
         if ('loadable' in inference) and ('inline' in inference):
             raise ValueError("Specify either 'loadable' or 'inline' inference. Both together is not supported")
 
+        if self.use_fixedpoint and 'loadable' in inference:
+            raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
+
         code = ""
         if 'loadable' in inference:
             code += '\n' + c_generate_net_loadable(self.activations, self.weights, self.biases, prefix=name)
-- 
2.43.0


From 63ec1fac60f7ca517851cbd659858293066336b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 82/97] fix: network regression refuses an uninitialized model

---
 emlearn/eml_net.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index f63cd95..049881c 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -105,7 +105,7 @@ eml_net_argmax(const float *values, int32_t values_length) {
 static bool
 eml_net_valid(EmlNet *model) {
     bool not_null = model->layers && model->activations1 && model->activations2;
-    return not_null;
+    return not_null && model->n_layers > 0;
 }
 
 static inline int32_t
@@ -364,6 +364,7 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
-- 
2.43.0


From 23f4c30a7a99370b778e30b085903482225f79dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 83/97] fix: inference functions return an error for missing
 input and output buffers

---
 emlearn/eml_distance.h  | 1 +
 emlearn/eml_mixture.h   | 3 +++
 emlearn/eml_neighbors.h | 5 ++++-
 emlearn/eml_net.h       | 1 +
 emlearn/eml_trees.h     | 3 +++
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 7a6e9ca..aa2ca9f 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -66,6 +66,7 @@ eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
+    EML_PRECONDITION(features, -EmlUninitialized);
     EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 381e1cb..48d41fa 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -167,6 +167,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
 
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
+    EML_PRECONDITION(probabilities, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
     EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
@@ -269,6 +270,7 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(out_score, -EmlUninitialized);
 
 
     int32_t status = \
@@ -295,6 +297,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(out_resp, -EmlUninitialized);
 
     int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 7eb8bed..c906bcf 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -143,6 +143,7 @@ eml_neighbors_add_item(EmlNeighborsModel *self,
         const int16_t *values, int16_t values_length,
         int16_t label)
 {
+    EML_PRECONDITION(values, EmlUninitialized);
     EML_PRECONDITION(values_length == self->n_features, EmlSizeMismatch);
     EML_PRECONDITION(self->n_items < self->max_items, EmlSizeMismatch);
 
@@ -166,6 +167,7 @@ eml_neighbors_infer(EmlNeighborsModel *self,
             const int16_t *features, int features_length,
             EmlNeighborsDistanceItem *distances, int distances_length)
 {
+    EML_PRECONDITION(features && distances, EmlUninitialized);
     EML_PRECONDITION(distances_length >= self->n_items, EmlSizeMismatch);
     EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
 
@@ -271,7 +273,8 @@ eml_neighbors_predict(EmlNeighborsModel *self,
         EmlNeighborsDistanceItem *distances, int distances_length,
         int16_t *out)
 {
-    // NOTE: Preconditions checked inside _infer()
+    EML_PRECONDITION(out, EmlUninitialized);
+    // NOTE: other preconditions checked inside _infer()
     // Compute distances
     const EmlError infer_err = \
         eml_neighbors_infer(self, features, features_length, distances, distances_length);
diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 049881c..84126cc 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -249,6 +249,7 @@ EmlError
 eml_net_infer(EmlNet *model, const float *features, int32_t features_length)
 {
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(features_length == model->layers[0].n_inputs, EmlSizeMismatch);
     EML_PRECONDITION(model->activations_length >= eml_net_find_largest_layer(model), EmlSizeMismatch);
diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 073d7c2..3d94ee3 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -261,6 +261,9 @@ eml_trees_regress(const EmlTrees *forest,
     EML_LOG_ADD_INTEGER("features-input", features_length);
     EML_LOG_END();
 
+    EML_PRECONDITION(features, EmlUninitialized);
+    EML_PRECONDITION(out, EmlUninitialized);
+
     if (out_length < 1) {
         return EmlSizeMismatch;
     }
-- 
2.43.0


From dc20447c89287e20c57efe6a5ff743d7ef34fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 84/97] fix: fixed-point argmax returns -1 when the first value
 is the largest

---
 emlearn/eml_net_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 9bf0a0e..7c463a2 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -76,7 +76,7 @@ eml_argmax_fixed32(const eml_fixed32_t *values, int values_length)
     }
 
     eml_fixed32_t vmax = values[0];
-    int32_t argmax = -1;
+    int32_t argmax = 0;
     for (int i=0; i<values_length; i++) {
         if (values[i] > vmax) {
             vmax = values[i];
-- 
2.43.0


From c02d0df81c4f9acac618a644b4ecc69dded6ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 85/97] fix: eml_vector_set refuses locations near the limit of
 int

---
 emlearn/eml_vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index 7299927..c4db6fb 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -18,13 +18,13 @@ typedef struct {
 
 int
 eml_vector_set(EmlVector dest, EmlVector source, int location) {
-    const int final_dest = source.length+location;
-    if (final_dest > dest.length) {
-        return -1;
-    }
     if (location < 0) {
         return -2;
     }
+    if (location > dest.length - source.length) {
+        return -1;
+    }
+    const int final_dest = source.length+location;
 
     for (int i=location; i<final_dest; i++) {
         dest.data[i] = source.data[i-location]; 
-- 
2.43.0


From ddd21a481d3a13296f5e034c0e12879dfaec6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 86/97] fix: fixed-point network layers report that they are
 not implemented

---
 emlearn/eml_net_fixedpoint.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 7c463a2..3f8611b 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -23,6 +23,9 @@ eml_net_forward_q16(const eml_q16_t *in, int32_t in_length,
                 eml_q16_t *out, int32_t out_length)
 {
 
+    // FIXME: the calculations below are not implemented
+    return EmlUnsupported;
+
     // multiply inputs by weights
     for (int o=0; o<out_length; o++) {
 #if 0
-- 
2.43.0


From b5bf6ed0063131199aea9b721018b4fe71cf86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 87/97] fix: nearest neighbor training data that does not fit
 int16_t is refused

---
 emlearn/neighbors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 55da100..1dda2be 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -32,6 +32,11 @@ def check_params_supported(estimator):
     if n_classes > MAX_CLASSES:
         raise ValueError(f'Too many classes: {n_classes}. Supported: {MAX_CLASSES}')
 
+    # is stored as int16_t, would be silently truncated
+    data = numpy.asarray(estimator._fit_X)
+    if numpy.any(data != numpy.round(data)) or numpy.any(data < -32768) or numpy.any(data > 32767):
+        raise ValueError('Training data must be integers in the int16_t range. Scale and round the features, using for example emlearn.preprocessing.Quantizer')
+
     algorithm = estimator.algorithm
     if algorithm not in ('brute', 'auto'):
         warnings.warn('emlearn only implements "brute" for Nearest Neighbors. Ignoring setting algorithm={algorithm}')
-- 
2.43.0


From 64cf70867f5edabb05c50c1087930ed6961b6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 88/97] fix: nearest neighbor models with more items than the C
 code supports are refused

---
 emlearn/neighbors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 1dda2be..38ea2a8 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -14,6 +14,7 @@ import warnings
 SUPPORTED_METRICS = set(['euclidean'])
 SUPPORTED_WEIGHTS = set(['uniform'])
 MAX_CLASSES = 10 # default of EML_NEIGHBORS_MAX_CLASSES
+MAX_ITEMS = 32767 # item numbers are stored as int16_t
 
 def check_params_supported(estimator):
 
@@ -32,6 +33,10 @@ def check_params_supported(estimator):
     if n_classes > MAX_CLASSES:
         raise ValueError(f'Too many classes: {n_classes}. Supported: {MAX_CLASSES}')
 
+    n_items = len(estimator._fit_X)
+    if n_items > MAX_ITEMS:
+        raise ValueError(f'Too many training items: {n_items}. Supported: {MAX_ITEMS}')
+
     # is stored as int16_t, would be silently truncated
     data = numpy.asarray(estimator._fit_X)
     if numpy.any(data != numpy.round(data)) or numpy.any(data < -32768) or numpy.any(data > 32767):
-- 
2.43.0


From 61e5c8785e21f6877401bc918b5445bce65d1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 89/97] fix: tree thresholds below the range of the datatype
 are refused, code with such comparisons does not compile

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 4754833..a2e490d 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -327,7 +327,7 @@ def threshold_to_limit(threshold, dtype='float'):
 
     limit = math.floor(threshold) + 1
     info = numpy.iinfo(dtype.removesuffix('_t'))
-    if limit < info.min or limit > info.max:
+    if limit <= info.min or limit > info.max:
         raise ValueError(f"Threshold {threshold} is out of range for dtype {dtype}. Scale the features, or use another dtype")
     return limit
 
-- 
2.43.0


From 5f190f349e70896496bf35f86ac6626a6062390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 90/97] fix: eml_dot_product returns the sum instead of a bool

---
 emlearn/eml_mixture.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 48d41fa..a7e68d7 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -14,8 +14,8 @@ extern "C" {
 // numpy.log(2*numpy.pi)
 #define EML_LOG_2PI 1.8378770664093453
 
-bool
-eml_dot_product(float *a, float *b, int n)
+float
+eml_dot_product(const float *a, const float *b, int n)
 {
     float sum = 0; 
     for (int i = 0; i < n; i++) {
-- 
2.43.0


From 8f0c522fd63e8e88d942b08b6a28b8630e0e00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 91/97] fix: mixture header compiles without conversion
 warnings

---
 emlearn/eml_mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index a7e68d7..caf7e65 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -233,7 +233,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
 
         }
 
-        out[c] = -0.5 * (n_features * EML_LOG_2PI + log_prob ) + model->log_dets[c];
+        out[c] = (float)(-0.5 * (n_features * EML_LOG_2PI + (double)log_prob) + (double)model->log_dets[c]);
 
 #if 0
         printf("c_s component=%d s=%.4f log_det=%.4f weight=%.4f \n",
-- 
2.43.0


From 72a271776a1f1b0ff7b3f4f0ca3cee4f0928b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 92/97] fix: saved C files end with a newline, as C99 requires

---
 emlearn/bayes.py     | 2 +-
 emlearn/distance.py  | 2 +-
 emlearn/mixture.py   | 2 +-
 emlearn/neighbors.py | 2 +-
 emlearn/net.py       | 1 +
 emlearn/trees.py     | 1 +
 6 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index e72c868..6b72e02 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -135,7 +135,7 @@ class Wrapper(object):
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
-        code = generate_c(self.model, name)
+        code = generate_c(self.model, name) + '\n'
         if file:
             with open(file, 'w') as f:
                 f.write(code)
diff --git a/emlearn/distance.py b/emlearn/distance.py
index 6f38390..4543d6c 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -142,7 +142,7 @@ class Wrapper:
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
-        code = generate_code(self._means, self._precision, self._offset, name=name)
+        code = generate_code(self._means, self._precision, self._offset, name=name) + '\n'
         if file:
             with open(file, 'w') as f:
                 f.write(code)
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 7dc15fc..325414f 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -371,7 +371,7 @@ class Wrapper:
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
-        code = generate_code(self, name=name)
+        code = generate_code(self, name=name) + '\n'
         if file:
             with open(file, 'w') as f:
                 f.write(code)
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 38ea2a8..567219a 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -114,7 +114,7 @@ class Wrapper:
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
-        code = c_generate_neighbors(self.fit_data_X, n_neighbors=self.n_neighbors, labels=self.fit_data_Y, prefix=name)
+        code = c_generate_neighbors(self.fit_data_X, n_neighbors=self.n_neighbors, labels=self.fit_data_Y, prefix=name) + '\n'
         if file:
             with open(file, 'w') as f:
                 f.write(code)
diff --git a/emlearn/net.py b/emlearn/net.py
index f9d8738..ed7edea 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -133,6 +133,7 @@ class Wrapper:
             )
         if not code:
             raise ValueError("No code generated. Check that 'inference' specifies valid strategies")
+        code += '\n'
 
         if file:
             with open(file, 'w') as f:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index a2e490d..dc23997 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -949,6 +949,7 @@ class Wrapper:
                 code += '\n\n' + generate_c_inlined(**generate_args)
             if not code:
                 raise ValueError("No code generated. Check that 'inference' specifies valid strategies")
+            code += '\n'
 
         elif format == 'csv':
             nodes, roots, leaves = self.forest_
-- 
2.43.0


From bde0f72dd99e4112783d2170c3d651c9ad197464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 93/97] fix: model names that are hidden by parameters of the
 generated functions are refused

---
 emlearn/net.py   | 3 +++
 emlearn/trees.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index ed7edea..9226f33 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -273,6 +273,9 @@ def c_generate_net_loadable(activations, weights, biases, prefix):
         return init
 
     cgen.assert_valid_identifier(prefix)
+    # would be hidden inside the generated functions
+    if prefix in ('features', 'n_features', 'out', 'out_length'):
+        raise ValueError(f"'{prefix}' is the name of a parameter in the generated functions")
 
     buffer_sizes = [ w.shape[0] for w in weights ] + [ w.shape[1] for w in weights ]
     buffer_size = max(buffer_sizes)
diff --git a/emlearn/trees.py b/emlearn/trees.py
index dc23997..2e1b734 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -636,6 +636,9 @@ def generate_c_loadable(forest, name, n_features,
     nodes, roots, leaves = forest
 
     cgen.assert_valid_identifier(name)
+    # would be hidden inside the generated functions
+    if name in ('features', 'features_length', 'out', 'out_length', 'err'):
+        raise ValueError(f"'{name}' is the name of a parameter or variable in the generated functions")
 
     nodes_name = name+'_nodes'
     nodes_length = len(nodes)
-- 
2.43.0


From 19b116739053504d0e276fb573108071d2d85866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 94/97] fix: saved mixture code compiles as C++

---
 emlearn/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 325414f..fe20094 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -62,7 +62,7 @@ def generate_code(model, name='fss_mode'):
         {name}_score(const float values[], int32_t values_length, float *probabilities, float *score)
         {{
 
-            return eml_mixture_score(&{name}_model,
+            return (EmlError)eml_mixture_score(&{name}_model,
                                 values, values_length,
                                 probabilities, score);
         }}
-- 
2.43.0


From d146cb2ee3bbfefbaa144084bbf00c7d202a1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 95/97] fix: copies and forked processes do not lose the
 executables of a converted model

---
 emlearn/common.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 96d5778..a5e180f 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -164,6 +164,11 @@ def run_classifier(bin_path, data, out_dtype='int'):
 
     return outputs
 
+def remove_build_dir(path, owner_pid):
+    # forked processes use the same files
+    if os.getpid() == owner_pid:
+        shutil.rmtree(path, ignore_errors=True)
+
 class CompiledClassifier():
     def __init__(self, cmodel, name, call=None, include_dir=None, temp_dir='tmp',
             test_function=None,
@@ -178,7 +183,7 @@ class CompiledClassifier():
         # use a separate directory, such that executables of other models are not overwritten
         os.makedirs(temp_dir, exist_ok=True)
         build_dir = tempfile.mkdtemp(prefix=name+'-', dir=temp_dir)
-        weakref.finalize(self, shutil.rmtree, os.path.abspath(build_dir), ignore_errors=True)
+        self._cleanup = weakref.finalize(self, remove_build_dir, os.path.abspath(build_dir), os.getpid())
         temp_dir = os.path.relpath(build_dir)
 
         self.bin_path = os.path.abspath(build_classifier(cmodel, name,
@@ -195,6 +200,14 @@ class CompiledClassifier():
         self.n_classes = n_classes
         self.n_features = n_features
 
+    def __getstate__(self):
+        # copies use the same executables, and may be around for longer
+        state = self.__dict__.copy()
+        cleanup = state.pop('_cleanup', None)
+        if cleanup is not None:
+            cleanup.detach()
+        return state
+
     def _check_input(self, X):
         X = check_array(X)
 
-- 
2.43.0


From 733cd35d5cc143405be2f5ddf31aa4a7745daccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 96/97] fix: training an MLP further does not change already
 converted models

---
 emlearn/net.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 9226f33..27941ce 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -40,8 +40,9 @@ class Wrapper:
             classifier = 'loadable'
 
         self.activations = activations
-        self.weights = weights
-        self.biases = biases
+        # copies, the arrays of the estimator are updated in place if it is trained further
+        self.weights = [ numpy.array(w) for w in weights ]
+        self.biases = [ numpy.array(b) for b in biases ]
         self.classifier = None
         self.return_type = return_type
         self.inference_type = classifier
-- 
2.43.0


From cec7ac373b15ccec24e428a47502e6ac4ecb5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 97/97] fix: write 64-bit extremes as literals that C accepts
 without warning

---
 emlearn/cgen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 69a6d57..14aa21d 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -52,7 +52,14 @@ def constant(val, dtype='float'):
         # shortest literal that gives back the same single-precision value
         return "{}f".format(numpy.float32(val))
     elif 'int' in dtype:
-        return "{:d}".format(int(val))
+        val = int(val)
+        if val > 2**63-1:
+            # does not fit in any signed type
+            return "{:d}ULL".format(val)
+        elif val == -2**63:
+            # C has no negative literals, and the positive value does not fit
+            return "({:d}-1)".format(val+1)
+        return "{:d}".format(val)
     else:
         return str(val)
 
-- 
2.43.0

