From 7c0fe791ddc7f6f9df39f1f0616f45b888d8e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 01/31] fix: keep the batchnorm hyperparameters of fused
 H*BatchNorm layers in get_config

---
 src/HGQ/layers/batchnorm_base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 6458383..daa1830 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -109,6 +109,24 @@ class HBatchNormBase(HLayerBase):
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
+    def get_config(self):
+        config = super().get_config()
+        config.update(
+            momentum=float(self.momentum),
+            epsilon=float(self.epsilon),
+            center=self.center,
+            scale=self.scale,
+            beta_initializer=tf.keras.initializers.serialize(self.beta_initializer),
+            gamma_initializer=tf.keras.initializers.serialize(self.gamma_initializer),
+            moving_mean_initializer=tf.keras.initializers.serialize(self.moving_mean_initializer),
+            moving_variance_initializer=tf.keras.initializers.serialize(self.moving_variance_initializer),
+            beta_regularizer=tf.keras.regularizers.serialize(self.beta_regularizer),
+            gamma_regularizer=tf.keras.regularizers.serialize(self.gamma_regularizer),
+            beta_constraint=tf.keras.constraints.serialize(self.beta_constraint),
+            gamma_constraint=tf.keras.constraints.serialize(self.gamma_constraint),
+        )
+        return config
+
     def adapt_fused_bn_kernel_bw_bits(self, x: tf.Tensor):
         """Adapt the bitwidth of the kernel quantizer to the input tensor, such that each input is represented with approximately the same number of bits after fused batchnormalization."""
         if not self.scale:
-- 
2.43.0


From 0facec806ae11646cdeea208a4136dadd5dc0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 02/31] fix: do not share quantizer config dicts between
 layers, callers and the process defaults

---
 src/HGQ/layers/base.py | 4 ++--
 src/HGQ/utils/utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index c86464a..cf62b00 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -44,9 +44,9 @@ class HLayerBase(ABSBaseLayer):
     def __init__(self, kq_conf=None, paq_conf=None, beta=0., **kwargs):
         self._has_kernel = None
         self._has_bias = None
-        self.kq_config = kq_conf or get_default_kq_conf()
+        self.kq_config = dict(kq_conf or get_default_kq_conf())
         "kernel quantizer config"
-        self.paq_config = paq_conf or get_default_paq_conf()
+        self.paq_config = dict(paq_conf or get_default_paq_conf())
         "pre-activation quantizer config"
         self.beta = tf.Variable(beta, dtype=tf.float32, name='beta', trainable=False)
         "BOPs-regularization strength"
diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 7902546..8f8e331 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -56,7 +56,7 @@ def set_default_kq_conf(config):
     assert isinstance(config, dict), f'config must be a dict, got {config.__class__.__name__}'
     assert set(config.keys()) == set(DEFAULT_KERNEL_QUANTIZER_CONFIG.keys()), \
         f'config must have keys {DEFAULT_KERNEL_QUANTIZER_CONFIG.keys()}, got {config.keys()}'
-    DEFAULT_KERNEL_QUANTIZER_CONFIG = config
+    DEFAULT_KERNEL_QUANTIZER_CONFIG = config.copy()
 
 
 def set_default_paq_conf(config):
@@ -64,7 +64,7 @@ def set_default_paq_conf(config):
     assert isinstance(config, dict), f'config must be a dict, got {config.__class__.__name__}'
     assert set(config.keys()) == set(DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG.keys()), \
         f'config must have keys {DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG.keys()}, got {config.keys()}'
-    DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG = config
+    DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG = config.copy()
 
 
 strategy_dict = {
-- 
2.43.0


From b86bd53a39e8cfc5c8cb8eb89daf563bae29cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 03/31] fix: do not rename the layers of the source model when
 converting it

---
 src/HGQ/proxy/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 93a5397..b58f6d8 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -160,9 +160,9 @@ def apply_layer(
 
     if layer_xf is not None:
         name = namer.next_name(layer_xf.name)
-        layer_xf._name = name
         # Remove all inbound and outbound nodes to clean up the graph.
         layer_xf = copy(layer_xf)
+        layer_xf._name = name
         layer_xf._inbound_nodes = []
         layer_xf._outbound_nodes = []
         return layer_xf(inp_tensors)
-- 
2.43.0


From a7e298ecc91ea91af63b032e0b3826fe0470af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 04/31] fix: a quantizer with nothing recorded has zero, not
 infinite, approximated bits

---
 src/HGQ/quantizer/quantizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index f6050e4..e98beab 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -237,6 +237,7 @@ class HGQ:
             else:
                 _ref = tf.maximum(tf.abs(self._min), tf.abs(self._max))
                 kn = tf.keras.backend.cast_to_floatx(self._min < 0)  # type: ignore
+            _ref = tf.where(self._max >= self._min, _ref, 0.)  # Nothing recorded yet: min/max are at +-inf.
             int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
         return int_bits, fp_bits, kn
 
-- 
2.43.0


From 0d5ab4c5d563b27259ed1a3da96ba7e3552fbf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 05/31] fix: keep reduced dimensions so that any skip_dims
 aligns with the bitwidth tensor

---
 src/HGQ/quantizer/quantizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index e98beab..7ee0aab 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -168,8 +168,8 @@ class HGQ:
             return x + delta
         xq = x + delta
         if self.skip_dims:
-            min_xq = tf.reduce_min(xq, axis=self.skip_dims)
-            max_xq = tf.reduce_max(xq, axis=self.skip_dims)
+            min_xq = tf.reduce_min(xq, axis=self.skip_dims, keepdims=True)
+            max_xq = tf.reduce_max(xq, axis=self.skip_dims, keepdims=True)
         else:
             min_xq = max_xq = xq
 
@@ -227,8 +227,8 @@ class HGQ:
             _ref = tf.abs(_ref)
             int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
             if self.skip_dims:
-                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims)
-                kn = tf.reduce_max(kn, axis=self.skip_dims)
+                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims, keepdims=True)
+                kn = tf.reduce_max(kn, axis=self.skip_dims, keepdims=True)
         else:
             assert self.minmax_record
             if pos_only:
-- 
2.43.0


From a39a74275a0536a58e2e9423d92b4588d06ee80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 06/31] fix: PPermute permutes the bitwidths together with the
 values

---
 src/HGQ/layers/passive_layers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 28ef324..4f438a8 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -179,4 +179,11 @@ class PDropout(PLayerBase, tf.keras.layers.Dropout):
 
 @register_keras_serializable(package="HGQ")
 class PPermute(PLayerBase, tf.keras.layers.Permute):
-    pass
+
+    @property
+    def act_bw(self):
+        return tf.transpose(self.input_bw, (0,) + tuple(self.dims))
+
+    @property
+    def act_bw_exact(self) -> np.ndarray:
+        return np.transpose(self.input_bw_exact, (0,) + tuple(self.dims))
-- 
2.43.0


From 221b43fc05bf812e5a31e79068caa2bdbf222561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 07/31] fix: apply bn_beta in the training forward pass of
 fused batchnorm layers, as in inference

---
 src/HGQ/layers/conv.py  | 2 +-
 src/HGQ/layers/dense.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index a2776bc..d5f3a8a 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -383,7 +383,7 @@ class HConvBatchNorm(HConv, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 5fb2147..f7be89b 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -201,7 +201,7 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
 
-- 
2.43.0


From 51408601d5fb7ec754ea7a7d0107514ae2c146ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 08/31] fix: clip the bitwidths before quantizing the bias,
 which happens before the activation quantizer clips them

---
 src/HGQ/quantizer/quantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index 7ee0aab..f3dc59b 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -188,6 +188,8 @@ class HGQ:
         else:
             raise ValueError('channel_loc must be -1 or 1')
 
+        if self.bw_clip:
+            self.fbw.assign(tf.clip_by_value(self.fbw, *self.bw_clip))
         fbw = tf.reduce_max(self.fbw, axis=dims, keepdims=False)
 
         if self.exact_q_value or not training:
-- 
2.43.0


From fc79dd7029cf943a3bb9ae499d19bddf23ddd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:20 +0000
Subject: [PATCH 09/31] fix: trace_minmax calibrates the layers of nested
 models, as ResetMinMax and FreeBOPs do

---
 src/HGQ/bops/bops.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index a681cb3..9a8936b 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -54,9 +54,18 @@ class CalibratedBOPs(tf.keras.callbacks.Callback):
         logs['bops'] = bops
 
 
+def _flat_layers(model):
+    """All layers of the model, with the layers of nested models in place of the nested models."""
+    for layer in model.layers:
+        if isinstance(layer, keras.Model):
+            yield from _flat_layers(layer)
+        else:
+            yield layer
+
+
 def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
     if rst:
-        for layer in model.layers:
+        for layer in _flat_layers(model):
             if isinstance(layer, HLayerBase):
                 layer.reset_minmax()
                 layer.record_minmax = True
@@ -74,7 +83,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         assert cover_factor > 0.
         if cover_factor < 1:
             warn(f'cover_factor<1.0 will likely to result in overflows.')
-        for layer in model.layers:
+        for layer in _flat_layers(model):
             if not isinstance(layer, HLayerBase):
                 continue
 
@@ -88,7 +97,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             aq._min.assign(aq(tf.constant(_min)))  # type: ignore
             aq._max.assign(aq(tf.constant(_max)))  # type: ignore
 
-    for layer in model.layers:
+    for layer in _flat_layers(model):
         if not hasattr(layer, 'activation'):
             continue
         if not isinstance(layer, HLayerBase):
@@ -113,7 +122,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         return -1
 
     bops = 0
-    for layer in model.layers:
+    for layer in _flat_layers(model):
         if isinstance(layer, HLayerBase):
             layer.record_minmax = False
             dbops = layer.compute_exact_bops  # type: ignore
-- 
2.43.0


From ebdc77d38799229b96428d9068e2c2791a087036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:20 +0000
Subject: [PATCH 10/31] fix: trace_minmax(return_predictions=True) returns one
 array per output for multi-output models

---
 src/HGQ/bops/bops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index 9a8936b..e02b32b 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -131,6 +131,8 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
                 print(f'{layer.name}: {dbops}')
 
     if return_predictions:
+        if isinstance(r[0], (list, tuple)):
+            return bops, [np.concatenate(y, axis=0) for y in zip(*r)]
         return bops, np.concatenate(r, axis=0)
 
     return bops
-- 
2.43.0


From 289f04456792aa6e6f503edc52bb635efbfc99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:30 +0000
Subject: [PATCH 11/31] fix: precision derivation no longer narrows proxy
 quantizers below what they need (bias ignored, per-element widths mixed up)

---
 src/HGQ/proxy/precision_derivation.py | 28 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 151f21a..e96b142 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -91,18 +91,19 @@ def _(layer: FixedPointQuantizer):
     assert len(kifs) == 1, f'Quantizer {layer.name} has more than one input. This is not supported.'
     _ik, _ii, _if = kifs[0]
 
-    # If the quantizer bit width is unnecessarily large, reduce it.
-    ok, oi, of = layer.result_t_kif
-    k, i, f = min(_ik, ok), min(_ii, oi), min(_if, of)
-    if _ii <= oi and _if > f:
-        # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
-        i += 1
-    if k != ok or i != oi or f != of:
-        layer.keep_negative.assign(tf.minimum(layer.keep_negative, k))
-        layer.integers.assign(tf.minimum(layer.integers, k + i))
-        layer.bits.assign(tf.minimum(layer.bits, k + i + f))
+    # If the quantizer bit width is unnecessarily large, reduce it, element by element: the quantized values must not change.
+    k0, b0, i0 = (v.numpy().astype(np.int64) for v in (layer.keep_negative, layer.bits, layer.integers))
+    oi, of = i0 - k0, b0 - i0
+    k, f = np.minimum(_ik, k0), np.minimum(_if, of)
+    # Rounding may overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4), and one step of the quantizer must fit.
+    i = np.minimum(oi, np.where(_if > of, np.maximum(_ii + 1, 1 - of), _ii))
+    b = np.where(b0 > 0, np.maximum(k + i + f, 0), 0)
+    k, i, f = (np.where(b > 0, v, 0) for v in (k, i, f))
+    layer.keep_negative.assign(k)
+    layer.integers.assign(k + i)
+    layer.bits.assign(b)
 
-    return k, i, f
+    return np.max(k), np.max(i), np.max(f)
 
 
 @get_produced_kif.register
@@ -171,6 +172,11 @@ def _(layer: keras.layers.Dense | Conv):
 
     multiplicity = np.prod(layer.kernel.shape) / div
     i += int(np.ceil(np.log2(multiplicity)))
+    if kifs[0][0] and w_k:
+        i += 1  # The product of the two most negative values.
+    if layer.use_bias and np.any(layer.bias.numpy() != 0):
+        _, b_i, b_f = get_arr_container(layer.bias.numpy())
+        i, f = max(i, b_i) + 1, max(f, b_f)
     return k, i, f
 
 
-- 
2.43.0


From 465c7b22208db0367ff048a1e7d1a23a1765ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:41 +0000
Subject: [PATCH 12/31] fix: fused batchnorm without scale must not rescale the
 mean at inference

---
 src/HGQ/layers/batchnorm_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index daa1830..301958d 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -106,6 +106,8 @@ class HBatchNormBase(HLayerBase):
     def fused_bias(self):  # type: ignore
         if not self.center:
             return self.bias
+        if not self.scale:
+            return self.bias - self.moving_mean + self.bn_beta
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
-- 
2.43.0


From d4d5c1f52bdab21e9da2ad13abb9534158920fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:19 +0000
Subject: [PATCH 13/31] fix: bound the traced range of tanh and sigmoid by the
 quantized, not the exact, bounds

---
 src/HGQ/bops/bops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index e02b32b..d7e2c7e 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -111,12 +111,12 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         if layer.activation is tf.keras.activations.sigmoid:
             # <0 or >1 for sigmoid does not make sense. Undo the effect of cover_factor.
             aq._min.assign(tf.maximum(aq._min, tf.zeros_like(aq._min)))  # type: ignore
-            aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
+            aq._max.assign(tf.minimum(aq._max, aq(tf.ones_like(aq._max))))  # type: ignore
 
         if layer.activation is tf.keras.activations.tanh:
             # <-1 or >1 for tanh does not make sense. Undo the effect of cover_factor.
-            aq._min.assign(tf.maximum(aq._min, -tf.ones_like(aq._min)))  # type: ignore
-            aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
+            aq._min.assign(tf.maximum(aq._min, aq(-tf.ones_like(aq._min))))  # type: ignore
+            aq._max.assign(tf.minimum(aq._max, aq(tf.ones_like(aq._max))))  # type: ignore
 
     if no_bops_computation:
         return -1
-- 
2.43.0


From ad9d83cf4190239d9416dfe1a3ffcadb02f81838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:49 +0000
Subject: [PATCH 14/31] fix: adapt delayed kernel bitwidths exactly once, also
 in graph mode and after restoring a trained layer

---
 src/HGQ/layers/base.py           |  4 ++--
 src/HGQ/layers/batchnorm_base.py | 11 ++++++++++-
 src/HGQ/layers/conv.py           |  3 +--
 src/HGQ/layers/dense.py          |  3 +--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index cf62b00..16a0f03 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -124,7 +124,6 @@ class HLayerBase(ABSBaseLayer):
             kq.degeneracy = degeneracy
             if self._do_adapt_kernel_bits and not self._delayed_kernel_bits_adaption:
                 kq.adapt_bw_bits(self.kernel)
-                self._do_adapt_kernel_bits = False
             self.kq = kq
 
         aq = HGQ.from_config(self.paq_config)
@@ -250,7 +249,8 @@ class HLayerBase(ABSBaseLayer):
         config = dict(
             kq_conf=self.kq_config,
             paq_conf=self.paq_config,
-            beta=float(self.beta.numpy())  # type: ignore
+            beta=float(self.beta.numpy()),  # type: ignore
+            do_adapt_kernel_bits=self._do_adapt_kernel_bits,
         )
         return {**base_config, **config}
 
diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 301958d..2ae9105 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -137,7 +137,7 @@ class HBatchNormBase(HLayerBase):
 
         fbw = tf.identity(self.kq.fbw)
         self.kq.fbw.assign(tf.ones_like(fbw) * 32)
-        z = self.forward(x, training=False, record_minmax=False)
+        z, _ = self.jit_forward(x, training=False, record_minmax=False)  # type: ignore
         self.kq.fbw.assign(fbw)
 
         var = tf.math.reduce_variance(z, axis=self._reduction_axis)
@@ -145,6 +145,15 @@ class HBatchNormBase(HLayerBase):
         fused_kernel = self.kernel * scale
         self.kq.adapt_bw_bits(fused_kernel)
 
+    def delayed_kernel_bits_adaption(self, x: tf.Tensor):
+        """Adapt the kernel bitwidths on the first training step, i.e. while they still have their initial value: neither again later nor after restoring a trained layer, in eager and graph mode alike."""
+
+        def adapt():
+            self.adapt_fused_bn_kernel_bw_bits(x)
+            return tf.constant(True)
+
+        tf.cond(tf.reduce_all(self.kq.fbw == float(self.kq.init_bw)), adapt, lambda: tf.constant(False))
+
 
 class FakeObj:
     def __init__(self, **kwargs):
diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index d5f3a8a..049dbea 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -340,8 +340,7 @@ class HConvBatchNorm(HConv, HBatchNormBase):
     def forward(self, x, training=None, record_minmax=None):
 
         if training and self._do_adapt_kernel_bits and self._delayed_kernel_bits_adaption:
-            self.adapt_fused_bn_kernel_bw_bits(x)
-            self._do_adapt_kernel_bits = False
+            self.delayed_kernel_bits_adaption(x)
 
         if training:
             a, kq = self.bn_train_jit_forward(x, True, record_minmax=record_minmax)  # type: ignore
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index f7be89b..6ca4bd0 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -159,8 +159,7 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
     def forward(self, x, training=None, record_minmax=None):
 
         if training and self._do_adapt_kernel_bits and self._delayed_kernel_bits_adaption:
-            self.adapt_fused_bn_kernel_bw_bits(x)
-            self._do_adapt_kernel_bits = False
+            self.delayed_kernel_bits_adaption(x)
 
         if training:
             a, kq = self.bn_train_jit_forward(x, True, record_minmax=record_minmax)  # type: ignore
-- 
2.43.0


From 6fed84e056e313a410c3de916b61e43c17386751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:22 +0000
Subject: [PATCH 15/31] fix: restore the kernel bitwidths when the delayed
 adaption is interrupted

---
 src/HGQ/layers/batchnorm_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 2ae9105..56ae98c 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -136,9 +136,11 @@ class HBatchNormBase(HLayerBase):
             return
 
         fbw = tf.identity(self.kq.fbw)
-        self.kq.fbw.assign(tf.ones_like(fbw) * 32)
-        z, _ = self.jit_forward(x, training=False, record_minmax=False)  # type: ignore
-        self.kq.fbw.assign(fbw)
+        try:
+            self.kq.fbw.assign(tf.ones_like(fbw) * 32)
+            z, _ = self.jit_forward(x, training=False, record_minmax=False)  # type: ignore
+        finally:
+            self.kq.fbw.assign(fbw)
 
         var = tf.math.reduce_variance(z, axis=self._reduction_axis)
         scale = self.bn_gamma * tf.math.rsqrt(var + self.epsilon)
-- 
2.43.0


From b6c08570aa2a9afff0864659c05050cb6ed02793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 16/31] fix: unique variable names, so that nested models and
 fused batchnorm layers can be saved to h5

---
 src/HGQ/layers/base.py           | 4 ++--
 src/HGQ/layers/batchnorm_base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 16a0f03..9fb3a22 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -48,8 +48,6 @@ class HLayerBase(ABSBaseLayer):
         "kernel quantizer config"
         self.paq_config = dict(paq_conf or get_default_paq_conf())
         "pre-activation quantizer config"
-        self.beta = tf.Variable(beta, dtype=tf.float32, name='beta', trainable=False)
-        "BOPs-regularization strength"
         self.record_minmax = False
         self._has_last_layer = False
         self._do_adapt_kernel_bits = kwargs.pop('do_adapt_kernel_bits', True)
@@ -64,6 +62,8 @@ class HLayerBase(ABSBaseLayer):
             assert activation in ['relu', 'linear'], f'activation other than relu and linear are only supported for HActivation layer, but is defined for {type(self).__name__} layer.'
 
         super().__init__(**kwargs)
+        self.beta = tf.Variable(beta, dtype=tf.float32, name=f'{self.name}/beta', trainable=False)
+        "BOPs-regularization strength"
 
     def build(self, input_shape):
         super().build(input_shape)
diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 56ae98c..c97efbf 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -75,7 +75,7 @@ class HBatchNormBase(HLayerBase):
                 trainable=False,
             )
         else:
-            self.bn_beta = self.moving_mean = tf.Variable(0.0, trainable=False)
+            self.bn_beta = self.moving_mean = tf.Variable(0.0, trainable=False, name='moving_mean')
         if self.scale:
             self.bn_gamma: tf.Variable = self.add_weight(
                 name="bn_gamma",
@@ -91,7 +91,7 @@ class HBatchNormBase(HLayerBase):
                 trainable=False,
             )
         else:
-            self.bn_gamma = self.moving_variance = tf.Variable(1.0, trainable=False)
+            self.bn_gamma = self.moving_variance = tf.Variable(1.0, trainable=False, name='moving_variance')
 
     @property
     @tf.function(jit_compile=True)
-- 
2.43.0


From 0b76284b9c77c50658486a5b6d9553906a6dacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:42 +0000
Subject: [PATCH 17/31] fix: make the bitwidth regularizer restorable from the
 .keras format

---
 src/HGQ/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 8f8e331..e3d935a 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -17,6 +17,10 @@ class MonoL1:
     def get_config(self):
         return {'l1': self.l1}
 
+    @classmethod
+    def from_config(cls, config):
+        return cls(**config)
+
 
 DEFAULT_KERNEL_QUANTIZER_CONFIG = \
     dict(init_bw=2,
-- 
2.43.0


From acba2515b324b58ae2fae6d7a0ba59dfa5e6997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:42 +0000
Subject: [PATCH 18/31] fix: Signature layers can be rebuilt from the .keras
 format

---
 src/HGQ/layers/passive_layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 4f438a8..ca8d0db 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -48,9 +48,9 @@ class Signature(PLayerBase):
 
     def build(self, input_shape):
         self.built = True
-        self.bits = tf.broadcast_to(self.bits, (1,) + input_shape[1:])
-        self.int_bits = tf.broadcast_to(self.int_bits, (1,) + input_shape[1:])
-        self.keep_negative = tf.broadcast_to(self.keep_negative, (1,) + input_shape[1:])
+        self.bits = tf.broadcast_to(self.bits, (1,) + tuple(input_shape[1:]))
+        self.int_bits = tf.broadcast_to(self.int_bits, (1,) + tuple(input_shape[1:]))
+        self.keep_negative = tf.broadcast_to(self.keep_negative, (1,) + tuple(input_shape[1:]))
 
     @tf.function(jit_compile=True)
     def call(self, x, training=None, record_minmax=None):
-- 
2.43.0


From 790085f27fb86c77f65dc7b261025c6b144e94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:12 +0000
Subject: [PATCH 19/31] fix: HAdd is built once, not twice, when restored from
 the .keras format

---
 src/HGQ/layers/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 9fb3a22..f8f0abf 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -68,6 +68,7 @@ class HLayerBase(ABSBaseLayer):
     def build(self, input_shape):
         super().build(input_shape)
         self.post_build(input_shape)
+        self.built = True
 
     @property
     def can_bias_cover_rnd(self):
-- 
2.43.0


From 8ea04edf9817f9fc04422773ef869f77322de6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:35 +0000
Subject: [PATCH 20/31] fix: scoped variable names also when restored from the
 .keras format, so that the model can be saved to h5 again

---
 src/HGQ/layers/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index f8f0abf..4994d34 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -70,6 +70,11 @@ class HLayerBase(ABSBaseLayer):
         self.post_build(input_shape)
         self.built = True
 
+    def build_from_config(self, config):
+        # Variables get the same, scoped names as when building the layer by calling it. Otherwise, they collide when saved to h5.
+        with tf.name_scope(self.name):
+            super().build_from_config(config)
+
     @property
     def can_bias_cover_rnd(self):
         if not self._has_bias:
-- 
2.43.0


From 3747d0e59abb1377f6d9f167c298af855325b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:34 +0000
Subject: [PATCH 21/31] fix: keep one representation of the bitwidth
 regularizer, so that a restored model can be saved in the other format

---
 src/HGQ/layers/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 4994d34..038cd28 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -48,6 +48,9 @@ class HLayerBase(ABSBaseLayer):
         "kernel quantizer config"
         self.paq_config = dict(paq_conf or get_default_paq_conf())
         "pre-activation quantizer config"
+        for conf in (self.kq_config, self.paq_config):
+            # May be in serialized form, which differs between file formats, if restored from a file.
+            conf['regularizer'] = tf.keras.regularizers.get(conf.get('regularizer'))
         self.record_minmax = False
         self._has_last_layer = False
         self._do_adapt_kernel_bits = kwargs.pop('do_adapt_kernel_bits', True)
-- 
2.43.0


From c19b474025ac9e68c819448b6c90cf27e8b7a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:30 +0000
Subject: [PATCH 22/31] fix: fused batchnorm without centering applies its bias
 in training as in inference

---
 src/HGQ/layers/conv.py  | 4 ++--
 src/HGQ/layers/dense.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index 049dbea..00783c8 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -381,8 +381,8 @@ class HConvBatchNorm(HConv, HBatchNormBase):
         else:
             scale = tf.constant(1.0, dtype=self.dtype)
 
-        if self.center:
-            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
+        if self.use_bias:
+            train_fused_bias = self.bias - mean * scale + self.bn_beta if self.center else self.bias  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 6ca4bd0..d5dbe6e 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -199,8 +199,8 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
         else:
             scale = tf.constant(1.0, dtype=self.dtype)
 
-        if self.center:
-            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
+        if self.use_bias:
+            train_fused_bias = self.bias - mean * scale + self.bn_beta if self.center else self.bias  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
 
-- 
2.43.0


From e3235fa686e89ab19ee0f5c14b467e268a5254a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:12 +0000
Subject: [PATCH 23/31] fix: precision registration must not change what
 overflowing values become

---
 src/HGQ/proxy/precision_derivation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index e96b142..6c4d616 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -94,9 +94,14 @@ def _(layer: FixedPointQuantizer):
     # If the quantizer bit width is unnecessarily large, reduce it, element by element: the quantized values must not change.
     k0, b0, i0 = (v.numpy().astype(np.int64) for v in (layer.keep_negative, layer.bits, layer.integers))
     oi, of = i0 - k0, b0 - i0
-    k, f = np.minimum(_ik, k0), np.minimum(_if, of)
+    # Neither must overflowing values: keep the range they wrap around or, at full precision, saturate at.
+    if layer.SAT == 'SAT_SYM':
+        _ii = _ii + _ik  # The most negative value is not representable.
+    overflow = (_ii > oi) | (_ik > k0)
+    k = np.where(overflow, k0, np.minimum(_ik, k0))
+    f = np.where(overflow & (layer.SAT != 'WRAP'), of, np.minimum(_if, of))
     # Rounding may overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4), and one step of the quantizer must fit.
-    i = np.minimum(oi, np.where(_if > of, np.maximum(_ii + 1, 1 - of), _ii))
+    i = np.where(overflow, oi, np.minimum(oi, np.where(_if > of, np.maximum(_ii + 1, 1 - of), _ii)))
     b = np.where(b0 > 0, np.maximum(k + i + f, 0), 0)
     k, i, f = (np.where(b > 0, v, 0) for v in (k, i, f))
     layer.keep_negative.assign(k)
-- 
2.43.0


From 879808de192ef6acb71643604d690518d4247f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:27 +0000
Subject: [PATCH 24/31] fix: refuse QKeras layers and quantizers the proxy
 cannot express

---
 src/HGQ/proxy/plugins/qkeras.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index 42022e9..9fd9b89 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -67,6 +67,8 @@ def _(quantizer: quantizers.quantized_bits, SAT):
 
 @qkeras_quantizer_to_layers.register
 def _(quantizer: quantizers.quantized_relu, SAT):
+    if quantizer.negative_slope != 0:
+        raise ValueError(f"quantized_relu with negative_slope != 0 is not supported, got {quantizer.negative_slope}.")
     i = quantizer.integer
     b = quantizer.bits
     q = FixedPointQuantizer(0, b, i, 'RND_CONV', 'SAT')
@@ -74,6 +76,11 @@ def _(quantizer: quantizers.quantized_relu, SAT):
     return relu, q
 
 
+@qkeras_quantizer_to_layers.register
+def _(quantizer: quantizers.quantized_hswish, SAT):
+    raise ValueError("quantized_hswish is not supported.")  # Is a quantized_bits to python, but quantizes the hard swish of its input.
+
+
 @qkeras_quantizer_to_layers.register
 def _(quantizer: quantizers.stochastic_binary | quantizers.binary, SAT):
     if quantizer.use_01:
@@ -117,6 +124,12 @@ def qlayer_to_keras_layer(layer: keras.layers.Layer) -> keras.layers.Layer | Non
     klayer = base_cls(**conf)
     klayer.trainable = False
     klayer.build(layer.input_shape)
+    if len(klayer.weights) != hasattr(layer, 'kernel') + bool(getattr(layer, 'use_bias', False)):
+        raise ValueError(f"Layer {layer.name}: {layer.__class__.__name__} is not supported.")
+    if getattr(layer, 'average_quantizer_internal', None) is not None:
+        factor = 1. / np.prod(layer.pool_size if hasattr(layer, 'pool_size') else layer.input_shape[1:3])
+        if float(layer.average_quantizer_internal(factor)) != np.float32(factor):
+            raise ValueError(f"Layer {layer.name}: average_quantizer that rounds the factor {factor} is not supported.")
     if hasattr(layer, 'kernel'):
         q = layer.kernel_quantizer_internal or (lambda x: x)
         klayer.kernel.assign(q(layer.kernel))
-- 
2.43.0


From 086041519d56aec77370887ed0d1c34ccf2c16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:27 +0000
Subject: [PATCH 25/31] fix: precision registration must keep the sign where
 rounding may overflow

---
 src/HGQ/proxy/precision_derivation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 6c4d616..f9ffda7 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -97,7 +97,7 @@ def _(layer: FixedPointQuantizer):
     # Neither must overflowing values: keep the range they wrap around or, at full precision, saturate at.
     if layer.SAT == 'SAT_SYM':
         _ii = _ii + _ik  # The most negative value is not representable.
-    overflow = (_ii > oi) | (_ik > k0)
+    overflow = (_ii > oi) | (_ik > k0) | ((_ii == oi) & (_if > of) & (not layer.RND.startswith('TRN')))
     k = np.where(overflow, k0, np.minimum(_ik, k0))
     f = np.where(overflow & (layer.SAT != 'WRAP'), of, np.minimum(_if, of))
     # Rounding may overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4), and one step of the quantizer must fit.
-- 
2.43.0


From 4bea0b830b44135af668163963ff195fe2f7ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:42 +0000
Subject: [PATCH 26/31] fix: a model output that feeds other layers keeps its
 full precision

---
 src/HGQ/proxy/convert.py              | 2 ++
 src/HGQ/proxy/precision_derivation.py | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index b58f6d8..cf99bf6 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -372,6 +372,8 @@ def to_proxy_model(model: keras.Model, aggressive: bool = True, accum_fp_max_off
     if unary_lut_max_table_size > 0:
         proxy = convert_model(proxy, layer_xformer=partial(xfr_to_unary_lut, max_table_size=unary_lut_max_table_size))
     if not skip_precision_reg:
+        for output in proxy.outputs:
+            output.node.layer.is_model_output = True  # Used as is, not only by the layers following.
         for layer in proxy.layers:
             register_qconf(layer, accum_fp_max_offset=accum_fp_max_offset)
     return proxy
diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index f9ffda7..dbd0c61 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -204,7 +204,7 @@ def _(layer: keras.layers.InputLayer):
 def get_requested_kif(layer: keras.layers.Layer | FixedPointQuantizer) -> tuple[int, int, int]:
     """Get the bitwidth requested by downstream layers, as a tuple of (k, i, f). By requested, it means the maximum bitwidth that downstream layers may make use of."""
     out_layers = [node.outbound_layer for node in layer._outbound_nodes]
-    if len(out_layers) == 0:
+    if len(out_layers) == 0 or getattr(layer, 'is_model_output', False):
         # Terminal case
         return (1, 65535, 65535)
     else:
@@ -223,7 +223,7 @@ def get_request_kif(layer: keras.layers.Layer) -> tuple[int, int, int]:
     """Get the requested bitwidth of a layer, as a tuple of (k, i, f)"""
     if isinstance(layer, (Concatenate, Reshape, Flatten)):
         out_layers: list[keras.layers.Layer] = [node.outbound_layer for node in layer._outbound_nodes]
-        if out_layers:
+        if out_layers and not getattr(layer, 'is_model_output', False):
             # Layers that does nothing. Pass through.
             requested_kifs = [get_request_kif(out_layer) for out_layer in out_layers]
             k, i, f = np.max(requested_kifs, axis=0)
@@ -266,7 +266,7 @@ def merge_precision(available: tuple[int, int, int], request: tuple[int, int, in
 def result_kifRS_layer_with_fusible_quantizer(layer: keras.layers.Layer):
     """Get the result bitwidth of a layer that has a fusible quantizer following immediately, as a tuple of (k, i, f, RND, SAT). When the layer has exactly one quantizer following it, and the quantizer is not heterogenous, the quantizer will be purged during synthesis, and the result bitwidth of the layer will be the same as the quantizer."""
     out_nodes = layer._outbound_nodes
-    if len(out_nodes) != 1:
+    if len(out_nodes) != 1 or getattr(layer, 'is_model_output', False):
         return
     out_layer = out_nodes[0].outbound_layer
     if not isinstance(out_layer, FixedPointQuantizer):
-- 
2.43.0


From 42c147b914d538cb3111421ad523153848c3a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:42 +0000
Subject: [PATCH 27/31] fix: unsigned results must keep the range that a signed
 quantizer wraps around at

---
 src/HGQ/proxy/precision_derivation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index dbd0c61..2de0239 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -254,6 +254,8 @@ def merge_precision(available: tuple[int, int, int], request: tuple[int, int, in
     """Given available precision and the maximum precision can be accepted by downstream, return the precision should be allocated for the data path."""
     k0, i0, f0 = available
     k1, i1, f1 = request
+    if not k0:
+        i1 = i1 + k1  # As many values as the request, or values beyond it would wrap around differently.
 
     k = k0
     i = min(i0, i1)
-- 
2.43.0


From 7183906992fb1dd9fef7d1b5246d6e4a4b0e0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:42 +0000
Subject: [PATCH 28/31] fix: activation tables need entries for coarse inputs,
 too

---
 src/HGQ/proxy/precision_derivation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 2de0239..01a1154 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -353,6 +353,7 @@ def get_config_table_tablesize_result(layer: keras.layers.Activation):
         warn(f'Activation layer {layer.name} has more than one input. Did you just make a activation with multiple inputs? table_size set in this way may make no sense. Proceed only if you know what you are doing.')
     i_k, i_i, i_f = np.max(i_kifs, axis=0)  # type: ignore
     table_size = int(2**(i_k + i_i + i_f))  # ...the ideal case. Will be the case if we have universal LUT-based activation.
+    i_f = max(i_f, 0)  # Or the fixed ranges would be covered with less than an entry
     if layer.activation is keras.activations.tanh:
         table_size = int(8 / 2.**-i_f)  # LUT Range hardcoded to -4 ~ 4, match #fractional bits
     elif layer.activation is tf.keras.activations.sigmoid:
-- 
2.43.0


From a7f8f62d1a80f21b8c17b9be1eae01d9b0e0584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:00 +0000
Subject: [PATCH 29/31] fix: a nested model with several outputs is converted
 output by output

---
 src/HGQ/proxy/convert.py | 41 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index cf99bf6..88790df 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -32,26 +32,26 @@ def get_all_nodes(model: keras.Model) -> set[Node]:
 
 
 def solve_dependencies(model: keras.Model):
-    """Given a keras model, return the input nodes, output nodes and a list of (layer, requires, provides) tuples. Requires is a list of nodes that are parents of the layer, provides is the node that is the output of the layer."""
+    """Given a keras model, return the input nodes, outputs and a list of (layer, requires, provides) tuples. Outputs and requires are lists of (node, index) pairs: nodes that are parents of the layer, and which of their outputs is meant (nested models may have several). Provides is the node that is the output of the layer."""
     inp_tensors: list[KerasTensor] = model.inputs  # type:ignore
     out_tensors: list[KerasTensor] = model.outputs  # type:ignore
 
     input_nodes: list[Node] = [t.node for t in inp_tensors]  # type:ignore
-    output_nodes: list[Node] = [t.node for t in out_tensors]  # type:ignore
+    outputs: list[tuple[Node, int]] = [(t.node, t._keras_history.tensor_index) for t in out_tensors]  # type:ignore
 
     nodes = get_all_nodes(model)
 
-    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]] = {}
-    "List of (layer, requires, provides) tuples; requires is a list of nodes, provides is a single node."
+    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[tuple[Node, int]]]] = {}
+    "List of (layer, requires, provides) tuples; requires is a list of (node, index), provides is a single node."
 
     for node in nodes:
         if node.is_input:
             continue
         layer = node.layer  # layer that is called on the node
-        requires = list(node.parent_nodes)
+        requires = [(t.node, t._keras_history.tensor_index) for t in node.keras_inputs]
         provides = node
         dependencies_dict[provides] = (layer, requires)
-    return input_nodes, output_nodes, dependencies_dict
+    return input_nodes, outputs, dependencies_dict
 
 
 def get_weight(layer: keras.layers.Layer, name: str):
@@ -105,31 +105,30 @@ class Namer:
 
 
 def _get_out_tensor(
-    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]],
-    satisfied: dict[Node, Any],
+    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[tuple[Node, int]]]],
+    satisfied: dict[Node, list[Any]],
     node: Node,
+    index: int = 0,
     namer: Namer | None = None,
     layer_xformer: Callable[[keras.layers.Layer], keras.layers.Layer] = lambda x: x,
 ):
-    """Given a node, get the output tensor provided generated by the node."""
+    """Given a node, get the output tensor (the index-th, if it has several) provided generated by the node."""
 
     if node in satisfied:
-        return satisfied[node]
+        return satisfied[node][index]
 
     namer = namer or Namer()
     layer, requires = dependencies_dict[node]
     inps = []
-    for req in requires:
-        if req in satisfied:
-            inps.append(satisfied[req])
-        else:
-            inp = _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
-            inps.append(inp)
+    for req, req_index in requires:
+        inp = _get_out_tensor(dependencies_dict, satisfied, req, req_index, namer, layer_xformer)
+        inps.append(inp)
     if len(inps) == 1:
         inps = inps[0]
 
-    satisfied[node] = apply_layer(layer, inps, namer=namer, layer_xformer=layer_xformer)
-    return satisfied[node]
+    outs = apply_layer(layer, inps, namer=namer, layer_xformer=layer_xformer)
+    satisfied[node] = outs if isinstance(outs, list) else [outs]
+    return satisfied[node][index]
 
 
 @singledispatch
@@ -187,10 +186,10 @@ def _(
 
     namer = namer or Namer()
     inp_tensors = [inp_tensors] if not isinstance(inp_tensors, (list, tuple)) else inp_tensors
-    input_nodes, output_nodes, dependencies_dict = solve_dependencies(model)
-    satisfied = {node: tensor for node, tensor in zip(input_nodes, inp_tensors)}
+    input_nodes, outputs, dependencies_dict = solve_dependencies(model)
+    satisfied = {node: [tensor] for node, tensor in zip(input_nodes, inp_tensors)}
     get_out_tensor = partial(_get_out_tensor, dependencies_dict, satisfied, namer=namer, layer_xformer=layer_xformer)
-    outs = [get_out_tensor(output_node) for output_node in output_nodes]
+    outs = [get_out_tensor(*output) for output in outputs]
     return outs[0] if len(outs) == 1 else outs
 
 
-- 
2.43.0


From d6297d02754b62541fbdc57b1034a43f90269597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:16 +0000
Subject: [PATCH 30/31] fix: bitwidths of a frozen layer keep their place among
 its weights

A layer saved while frozen (layer.trainable = False) came back with its
bitwidth variables created as non-trainable, i.e. in another weight order
than in the file: loading the h5 file failed or assigned weights to the
wrong variables, and unfreezing the layer later left its bitwidths fixed.
Keras already leaves out all weights of a layer that is not trainable.
---
 src/HGQ/layers/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 038cd28..05954e9 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -126,7 +126,7 @@ class HLayerBase(ABSBaseLayer):
                 name='kernel_bw',
                 shape=bw_shape,
                 initializer=tf.keras.initializers.Constant(kq.init_bw),  # type: ignore
-                trainable=kq.trainable and self.trainable,
+                trainable=kq.trainable,
                 regularizer=kq.regularizer
             )
             kq.build(fbw)
@@ -142,7 +142,7 @@ class HLayerBase(ABSBaseLayer):
             name='activation_bw',
             shape=bw_shape,
             initializer=tf.keras.initializers.Constant(aq.init_bw),  # type: ignore
-            trainable=aq.trainable and self.trainable,
+            trainable=aq.trainable,
             regularizer=aq.regularizer
         )
 
-- 
2.43.0


From c3f4ed780b22e3ff9980dc91c04c6ec35cbc998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:44 +0000
Subject: [PATCH 31/31] fix: relu given as a function is the same layer as relu
 given by name

HDense(activation=tf.nn.relu) passed the check of supported activations by
its name, but was then not recognised as relu when converting, and the proxy
computed something else.
---
 src/HGQ/layers/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 05954e9..990ee71 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -63,6 +63,7 @@ class HLayerBase(ABSBaseLayer):
             elif isinstance(activation, Callable):
                 activation = activation.__name__.lower()
             assert activation in ['relu', 'linear'], f'activation other than relu and linear are only supported for HActivation layer, but is defined for {type(self).__name__} layer.'
+            kwargs['activation'] = activation
 
         super().__init__(**kwargs)
         self.beta = tf.Variable(beta, dtype=tf.float32, name=f'{self.name}/beta', trainable=False)
-- 
2.43.0

