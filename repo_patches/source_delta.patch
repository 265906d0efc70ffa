From f6dbc370b76c64e7ce776fa29240c62973529356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 01/40] fix: s-shape linear hull: use a slope not smaller than
 the tangent one

The affine bounds of sigmoid, tanh and softsign used the slope of a chord to the
grid point nearest to the tangent point, which is lower than the slope of the
tangent (and completely off when the interval touches 0): the 'upper' bound was
below the function.
---
 src/decomon/utils.py | 69 ++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 44 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..8b66633 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -628,7 +628,6 @@ def get_t_upper(
         the upper affine bounds in this subcase
     """
 
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
     z_value = K.cast(0.0, dtype=u_c_flat.dtype)
 
     # step1: find t
@@ -639,27 +638,18 @@ def get_t_upper(
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
-
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )  # (None, n)
-
-    s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
+    # sign of score: >=0 before the tangent point, <0 after. It is always >=0 for t=0, as func is convex on [l, 0].
+    score = s_p_t - (s_t - K.expand_dims(s_l, -1)) / K.maximum(
+        K.cast(epsilon(), dtype=u_c_flat.dtype), t - l_c_reshaped
+    )  # (None, n, 100)
+    # last point of the grid before the tangent point: the derivative there is greater than any (f(t)-f(l))/(t-l)
+    t_value = K.max(K.where(K.greater_equal(score, z_value), t, z_value * t), -1)  # (None, n)
+
+    # the tangent point is before t_next: another upper bound on these slopes, better on coarse grids
+    t_next = K.minimum(t_value + u_c_flat / 99.0, u_c_flat)  # (None, n)
+    w_u_next = (func(t_next) - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)
+    w_u = f_prime(t_value)  # (None, n)
+    w_u = K.where(K.greater(u_c_flat, z_value), K.minimum(w_u, w_u_next), w_u)  # (None, n)
     b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
 
     return [w_u, b_u]
@@ -686,7 +676,6 @@ def get_t_lower(
         the lower affine bounds in this subcase
     """
     z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
 
     # step1: find t
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
@@ -696,27 +685,19 @@ def get_t_lower(
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )
-
-    s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
+    # sign of score: >=0 before the tangent point (starting from 0), <0 after.
+    # It is always >=0 for t=0, as func is concave on [0, u].
+    score = s_p_t - (K.expand_dims(s_u, -1) - s_t) / K.maximum(
+        K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_reshaped - t
+    )  # (None, n, 100)
+    # last point of the grid before the tangent point: the derivative there is greater than any (f(u)-f(t))/(u-t)
+    t_value = K.min(K.where(K.greater_equal(score, z_value), t, z_value * t), -1)  # (None, n)
+
+    # the tangent point is before t_next (starting from 0): another upper bound on these slopes, better on coarse grids
+    t_next = K.maximum(t_value + l_c_flat / 99.0, l_c_flat)  # (None, n)
+    w_l_next = (s_u - func(t_next)) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)
+    w_l = f_prime(t_value)  # (None, n)
+    w_l = K.where(K.less(l_c_flat, z_value), K.minimum(w_l, w_l_next), w_l)  # (None, n)
     b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
 
     return [w_l, b_l]
-- 
2.43.0


From e89cd526422ef68a35661446f769db314d14de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 02/40] fix: toeplitz matrix of convolutions for non-square
 kernels and channels_first

The kernel was assumed square, and for channels_first the strides and dilation
were ignored and the matrix entries were in channels_last order.
---
 src/decomon/backward_layers/utils_conv.py | 29 ++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..24ce1af 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -58,19 +58,21 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
     _, w_out, h_out, c_out = output_shape
 
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_sizes = list(kernel_filter.shape[:2])
+    n_filter = int(np.prod(filter_sizes))
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
     diag_patches = extract_patches(
         diag,
-        size=[filter_size, filter_size],
+        size=filter_sizes,
         strides=list(conv_layer.strides),
         dilation_rate=list(conv_layer.dilation_rate),
         padding=conv_layer.padding,
+        data_format="channels_last",
     )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, n_filter, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
@@ -78,7 +80,7 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
     diag_patches_ = K.transpose(diag_patches_, shape)
     kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (n_filter, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
     ]  # (1,1,c_in, c_out, filter_size^2)
 
@@ -127,13 +129,21 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
         output_shape = output[-1].shape
     _, c_out, w_out, h_out = output_shape
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_sizes = list(kernel_filter.shape[:2])
+    n_filter = int(np.prod(filter_sizes))
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
+    diag_patches = extract_patches(
+        diag,
+        size=filter_sizes,
+        strides=list(conv_layer.strides),
+        dilation_rate=list(conv_layer.dilation_rate),
+        padding=conv_layer.padding,
+        data_format="channels_last",
+    )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, n_filter, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
@@ -141,7 +151,7 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
     diag_patches_ = K.transpose(diag_patches_, shape)
     kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (n_filter, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
     ]  # (1,1,c_in, c_out, filter_size^2)
 
@@ -150,6 +160,9 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
     # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
     # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
 
+    # back to channels_first ordering
+    w = K.transpose(w, (2, 0, 1, 5, 3, 4))  # (c_in, w_in, h_in, c_out, w_out, h_out)
+
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
 
-- 
2.43.0


From 9367bacac0b2ce48ad4b9f64464e28f2b472e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 03/40] fix: softplus linear hull

The bounds were computed from softsign instead of softplus, the upper bound was 0
on negative intervals, and the adaptative slope was refused.
---
 src/decomon/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 8b66633..b41e39e 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -215,8 +215,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     slope = Slope(slope)
     # in case upper=lower, this cases are
     # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -231,6 +231,9 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         index_b = o_value - index_a
         w_l = index_b
         b_l = z_value * b_u
+    elif slope == Slope.A_SLOPE:
+        w_l = K.clip(K.sign(w_u - 0.5), 0, 1)
+        b_l = z_value * b_u
     elif slope == Slope.Z_SLOPE:
         w_l = z_value * w_u
         b_l = z_value * b_u
@@ -243,11 +246,10 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     else:
         raise ValueError(f"Unknown slope {slope}")
 
+    # case upper<=0: lower bound set to 0, but not the upper bound as softplus is never 0
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +259,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From e1a5f9d8cc12376dffe5cfda80c74a0fbc1b7f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 04/40] fix: backward activations on non-flat inputs

backward sigmoid, tanh and softplus returned non-flattened affine bounds, and the
finetuning parameters of relu were not aligned with its non-flattened bounds.
---
 src/decomon/backward_layers/activations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..9a4d5c8 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -80,9 +80,9 @@ def backward_relu(
         inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
         x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
         input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-        bounds = get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
         dim = int(np.prod(input_shape[1:]))  # type: ignore
-        return [K.reshape(elem, (-1, dim)) for elem in bounds]
+        u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
+        return get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
 
     raise NotImplementedError()
 
@@ -115,6 +115,8 @@ def backward_sigmoid(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(u_c.shape[1:]))
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
 
 
@@ -146,6 +148,8 @@ def backward_tanh(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(u_c.shape[1:]))
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
 
 
@@ -322,6 +326,8 @@ def backward_softplus(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(u_c.shape[1:]))
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
 
 
-- 
2.43.0


From 722381f8f11f0bbf974bb68f2fbe58207641fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 05/40] fix: backward Permute and BatchNormalization

They relied on the shape of their inputs, which are flattened by crown, and the
rows of the permutation matrix were wrong for permutations that are not involutions.
---
 .../backward_layers/backward_layers.py        | 19 +++++++++---------
 src/decomon/backward_layers/core.py           | 20 +++++++++++--------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..4b943cd 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -508,18 +508,16 @@ class BackwardPermute(BackwardLayer):
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
         # w_u_out (None, n_in, n_out)
-        y = inputs[-1]
         n_dim = w_u_out.shape[1]
-        n_out = w_u_out.shape[-1]
-        shape = list(y.shape[1:])
+        # the inputs can be flattened => use the shape expected by the layer
+        shape = list(self.get_keras_input_shape()[1:])
 
-        w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
-        w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
+        w_u_out = K.reshape(w_u_out, [-1, n_dim] + shape)
+        w_l_out = K.reshape(w_l_out, [-1, n_dim] + shape)
 
-        dims = [0] + list(self.dims) + [len(y.shape)]
-        dims = list(np.argsort(dims))
-        w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
-        w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
+        dims = [0, 1] + [d + 1 for d in self.dims]
+        w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_dim))
+        w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_dim))
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
@@ -574,7 +572,8 @@ class BackwardBatchNormalization(BackwardLayer):
         self.op_flat = Flatten()
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        y = inputs[-1]
+        # the inputs can be flattened => use the shape expected by the layer
+        y = K.reshape(inputs[-1], (-1,) + tuple(self.get_keras_input_shape()[1:]))
         n_out = int(np.prod(y.shape[1:]))
 
         n_dim = len(y.shape)
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index 99baf27..b801ae1 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -92,6 +92,17 @@ class BackwardLayer(ABC, Wrapper):
         # generic case: nothing to do before call
         pass
 
+    def get_keras_input_shape(self) -> tuple[Optional[int], ...]:
+        """Get the input shape of the underlying Keras layer (including batch size)."""
+        if isinstance(self.layer, DecomonLayer):
+            return self.inputs_outputs_spec.get_kerasinputshape_from_inputshapesformode(
+                [inp.shape for inp in self.layer.input]
+            )
+        elif isinstance(self.layer, InputLayer):
+            return self.layer.output.shape
+        else:
+            return self.layer.input.shape
+
     def compute_output_shape(self, input_shape: list[tuple[Optional[int], ...]]) -> list[tuple[Optional[int], ...]]:
         """Compute expected output shape according to input shape
 
@@ -103,21 +114,14 @@ class BackwardLayer(ABC, Wrapper):
         Returns:
 
         """
+        keras_input_shape = self.get_keras_input_shape()
         if isinstance(self.layer, DecomonLayer):
-            decomon_input_shape = [inp.shape for inp in self.layer.input]
             decomon_output_shape = [out.shape for out in self.layer.output]
             keras_output_shape = self.inputs_outputs_spec.get_kerasinputshape_from_inputshapesformode(
                 decomon_output_shape
             )
-            keras_input_shape = self.inputs_outputs_spec.get_kerasinputshape_from_inputshapesformode(
-                decomon_input_shape
-            )
         else:  # Keras layer
             keras_output_shape = self.layer.output.shape
-            if isinstance(self.layer, InputLayer):
-                keras_input_shape = keras_output_shape
-            else:
-                keras_input_shape = self.layer.input.shape
 
         batch_size = keras_input_shape[0]
         flattened_keras_output_shape = int(np.prod(keras_output_shape[1:]))  # type: ignore
-- 
2.43.0


From 9283b464a43332d8b0a3ee9e105dd65b56b58fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 06/40] fix: linear hull of increasing functions when rounding
 errors make upper<lower

A negative slope was then applied to the upper affine bound of the input.
---
 src/decomon/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index b41e39e..bf3f9ed 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -217,7 +217,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     # considered with index_dead and index_linear
     u_c = K.softplus(upper)
     l_c = K.softplus(lower)
-    alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
+    # max with 0: because of rounding errors, we can have upper < lower
+    alpha = K.maximum((u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower)), 0)
     w_u = alpha
     b_u = -alpha * lower + l_c
 
@@ -571,7 +572,8 @@ def get_linear_hull_s_shape(
     s_l = func(l_c_flat)  # (None, n)
 
     # case 0:
-    coeff = (s_u - s_l) / K.maximum(K.cast(epsilon(), dtype=dtype), u_c_flat - l_c_flat)
+    # max with 0: because of rounding errors, we can have u_c < l_c (func is increasing)
+    coeff = K.maximum((s_u - s_l) / K.maximum(K.cast(epsilon(), dtype=dtype), u_c_flat - l_c_flat), z_value)
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-- 
2.43.0


From bcf9e8fc0d0b7649457f1ac5d74b54579130897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 07/40] fix: refine_boxes dropped the upper corners of non-flat
 boxes

---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..38d6ae1 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -763,7 +763,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From bfafe4d421e08c70f2ea0cd89df5afeddf0fea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 08/40] fix: get_range_box with n_sub_boxes mixed up the
 outputs of a model

---
 src/decomon/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 38d6ae1..8766e0d 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,8 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        u_out = np.max(np.reshape(u_out, (n_batch, n_split) + u_out.shape[1:]), 1)
+        l_out = np.min(np.reshape(l_out, (n_batch, n_split) + l_out.shape[1:]), 1)
     return u_out, l_out
 
 
-- 
2.43.0


From b10e1ac346042a02d8f1f3335fcf776e6c677897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 09/40] fix: refine_box with random splits, and with labels

---
 src/decomon/wrapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 8766e0d..b05aeac 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -850,6 +850,12 @@ def refine_box(
     if func.__name__ == get_lower_box.__name__:
         maximize = False
 
+    # one label set per sub-box
+    if source_labels is not None:
+        source_labels = np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0)
+    if target_labels is not None:
+        target_labels = np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0)
+
     def priv_func(x_min_split: npt.NDArray[np.float_], x_max_split: npt.NDArray[np.float_]) -> npt.NDArray[np.float_]:
         if func.__name__ in [elem.__name__ for elem in [get_upper_box, get_lower_box, get_range_box]]:
             results = func(decomon_model, x_min=x_min_split, x_max=x_max_split, batch_size=batch_size)
@@ -881,7 +887,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
-- 
2.43.0


From eef379e839eef7a3836f9b35749f4d02179fc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 10/40] fix: get_adv_noise (keras models, affine outputs, L2
 norm, target labels)

---
 src/decomon/wrapper.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index b05aeac..1aec869 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -953,7 +953,7 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps = decomon_model.perturbation_domain.eps
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -972,7 +972,7 @@ def get_adv_noise(
 
     if target_labels is not None:
         if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
+            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
         target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
 
     if batch_size > 0:
@@ -985,11 +985,7 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -1073,7 +1069,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1091,9 +1087,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From 49ecbc044f0c8fef3291f0e30b47afb9cc118308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 11/40] fix: check_adv_box ignored target_labels

---
 src/decomon/wrapper.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 1aec869..06a178f 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -341,11 +341,7 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -415,7 +411,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
-- 
2.43.0


From 9b922573af57cee41330007dae450007cb25760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 12/40] fix: bounds of softmax and of 1/x (frac_pos)

---
 src/decomon/layers/activations.py |  2 +-
 src/decomon/layers/utils.py       | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..8840617 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -471,7 +471,7 @@ def softmax(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..81e1ac8 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -214,21 +214,26 @@ def frac_pos(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+    if mode == ForwardMode.AFFINE:
+        # the affine lower bound of a positive term can be negative
+        l_c = K.maximum(K.cast(epsilon(), dtype=l_c.dtype), l_c)
+
     u_c_out = K.cast(1.0, dtype=l_c.dtype) / l_c
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # u_c_out - l_c_out > 0, whereas the slope of 1/x is negative
+        w_u_0 = -(u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 98ee261a690a34eea041114b7d68e34b86fd9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 13/40] fix: clone modified (or could not convert) models
 ending with a softmax layer

---
 src/decomon/layers/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 81e1ac8..d6e0753 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -411,11 +411,18 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
         model without the softmax
     """
     layer = model.layers[-1]
-    # check that layer is not an instance of the object Softmax
-    if isinstance(layer, keras.layers.Softmax):
-        model_normalize = keras.models.Model(model.get_input_at(0), keras.layers.Activation("linear")(layer.input))
-
-        return model_normalize, True
+    # explicit softmax layer: drop it, without modifying the original layer
+    if isinstance(layer, keras.layers.Softmax) or (
+        isinstance(layer, keras.layers.Activation) and layer.get_config()["activation"] == "softmax"
+    ):
+        outputs = []
+        for output in model.outputs:
+            operation, node_index, _ = output._keras_history
+            if operation is layer:
+                outputs.append(operation._inbound_nodes[node_index].input_tensors[0])
+            else:
+                outputs.append(output)
+        return keras.models.Model(model.inputs, outputs), True
 
     if hasattr(layer, "activation"):
         if not layer.get_config()["activation"] == "softmax":
-- 
2.43.0


From d09d6f50070b7cbf614116bf6ba16e28f8c71553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 14/40] fix: bounds of abs: |x| = relu(x) + relu(-x)

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index d6e0753..145f873 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -911,15 +911,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From 1a25fdbc3d346ae4c2e1fb9ba3482f860ff53769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 15/40] fix: slopes of exp, log and 1/x when rounding errors
 make upper<lower

---
 src/decomon/layers/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 145f873..fcd2c82 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -223,7 +223,9 @@ def frac_pos(
 
     if affine:
         # u_c_out - l_c_out > 0, whereas the slope of 1/x is negative
-        w_u_0 = -(u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        w_u_0 = -K.maximum(u_c_out - l_c_out, K.cast(0.0, dtype=u_c.dtype)) / K.maximum(
+            u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype)
+        )
         b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
@@ -1092,7 +1094,9 @@ def log(
     if affine:
         y = (u_c + l_c) / 2.0
 
-        w_l_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        w_l_0 = K.maximum(u_c_out - l_c_out, K.cast(0.0, dtype=u_c.dtype)) / K.maximum(
+            u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype)
+        )
         b_l_0 = l_c_out - w_l_0 * l_c
 
         w_u_0 = K.cast(1, dtype=y.dtype) / y
@@ -1155,7 +1159,9 @@ def exp(
     if affine:
         y = (u_c + l_c) / 2.0  # do finetuneting
 
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        w_u_0 = K.maximum(u_c_out - l_c_out, K.cast(0.0, dtype=u_c.dtype)) / K.maximum(
+            u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype)
+        )
         b_u_0 = l_c_out - w_u_0 * l_c
 
         w_l_0 = K.exp(y)
-- 
2.43.0


From ec6be937c0ef03cbfadeec492d263a28269a1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 16/40] fix: split and sort of decomon tensors

---
 src/decomon/layers/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index fcd2c82..c180969 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -697,19 +697,19 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
         if axis != -1:
             axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis)
+        w_l_list = K.split(w_l, n, axis=axis)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
@@ -777,7 +777,7 @@ def sort(
     empty_tensor_list = [empty_tensor] * n
 
     # what about splitting elements
-    op_split = lambda x: K.split(x, n, axis=axis)
+    op_split = lambda x: list(K.split(x, n, axis=axis))
     if ibp:
         u_c_list = op_split(u_c)
         l_c_list = op_split(l_c)
@@ -785,9 +785,9 @@ def sort(
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_u_list = list(K.split(w_u, n, axis=axis + 1))
         b_u_list = op_split(b_u)
-        w_l_list = K.split(w_l, n, axis=axis + 1)
+        w_l_list = list(K.split(w_l, n, axis=axis + 1))
         b_l_list = op_split(b_l)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
-- 
2.43.0


From 96992a11ee70d9ef85f14d8d5eb5d256af0f17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 17/40] fix: affine outputs of models cloned with a method
 based on constant bounds

---
 src/decomon/models/convert.py | 4 ++++
 src/decomon/models/utils.py   | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..56374b6 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -242,6 +242,10 @@ def clone(
         final_affine=final_affine,
     )
 
+    if affine != final_affine and final_affine:
+        # affine bounds deduced from constant ones: add the model input to which they apply
+        output[0] = z_tensor
+
     back_bounds_from_inputs = [elem for elem in back_bounds if isinstance(elem._keras_history.operation, InputLayer)]
 
     return DecomonModel(
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..a46a706 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -321,7 +321,9 @@ class Convert2Mode(Layer):
 
         if compute_dummy_affine:
             x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
-            w = K.zeros_like(BatchedIdentityLike()(l_c))
+            # null weights with respect to the model input
+            n_in = self.input_dim if self.input_dim > 0 else l_c.shape[-1]
+            w = K.repeat(K.expand_dims(K.zeros_like(l_c), 1), n_in, axis=1)
             w_u = w
             b_u = u_c
             w_l = w
@@ -343,6 +345,9 @@ class Convert2Mode(Layer):
             h_shape,
             g_shape,
         ) = self.inputs_outputs_spec_from.get_fullinputshapes_from_inputshapesformode(input_shape)
+        if self.mode_from == ForwardMode.IBP:
+            n_in = self.input_dim if self.input_dim > 0 else l_c_shape[-1]
+            w_u_shape = w_l_shape = (l_c_shape[0], n_in) + tuple(l_c_shape[1:])
         return self.inputs_outputs_spec_to.extract_inputshapesformode_from_fullinputshapes(
             [x_shape, u_c_shape, w_u_shape, b_u_shape, l_c_shape, w_l_shape, b_l_shape, h_shape, g_shape]
         )
-- 
2.43.0


From b9095237237ae84bd348b5c792807a7f01fac453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 18/40] fix: crown on a ball domain

---
 src/decomon/models/crown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..8a13960 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -68,16 +68,19 @@ class Convert2BackwardMode(Layer):
         backward_bounds = inputs[-4:]
         w_u_out, b_u_out, w_l_out, b_l_out = backward_bounds
         empty_tensor = K.convert_to_tensor([])
+        perturbation_domain = self.perturbation_domain
 
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
         else:
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
+            # only the constant bounds of the input are known: the domain is the box they define
+            perturbation_domain = BoxDomain()
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From 27fade8c893e62dbcd7f4794deb79f60c31beda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 19/40] fix: upper, lower and adversarial losses on a ball
 domain

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..fa529f6 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From e44ed1c79d04c732f1ed644a8608aee1fd614be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 20/40] fix: get_adv_loss applied a softmax to hybrid outputs
 without being asked to

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fa529f6..925f9bd 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From 12c539200284701c2d0e4c0f4e6b9c609e24c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 21/40] fix: crossentropy models on a ball domain

---
 src/decomon/metrics/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 925f9bd..d8498a5 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -603,7 +603,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, backward=model.backward_bounds, perturbation_domain=perturbation_domain
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -627,7 +629,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True, perturbation_domain=perturbation_domain)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From 3749c5ca44435ee20a8bed699291fcb877fe1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 22/40] fix: set_domain (and get_range_noise) kept using the
 previous radius of the ball

---
 src/decomon/models/convert.py |  4 ++++
 src/decomon/models/models.py  |  5 +++--
 src/decomon/models/utils.py   | 22 +++++++---------------
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 56374b6..a1d3075 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -1,4 +1,5 @@
 from collections.abc import Callable
+from copy import copy
 from typing import Any, Optional, Union
 
 import keras
@@ -186,6 +187,9 @@ def clone(
 ) -> DecomonModel:
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
+    else:
+        # the model will own its domain: see DecomonModel.set_domain()
+        perturbation_domain = copy(perturbation_domain)
     if back_bounds is None:
         back_bounds = []
     if extra_inputs is None:
diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..27da2d4 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -65,10 +65,11 @@ class DecomonModel(keras.Model):
 
     def set_domain(self, perturbation_domain: PerturbationDomain) -> None:
         perturbation_domain = _check_domain(self.perturbation_domain, perturbation_domain)
-        self.perturbation_domain = perturbation_domain
+        # update the parameters in place: the domain is also used by objects inside the layers
+        vars(self.perturbation_domain).update(vars(perturbation_domain))
         for layer in self.layers:
             if hasattr(layer, "perturbation_domain"):
-                layer.perturbation_domain = self.perturbation_domain
+                vars(layer.perturbation_domain).update(vars(perturbation_domain))
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index a46a706..c01a00f 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -118,25 +118,17 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
+        # read the radius when calling the model, as it can be updated with DecomonModel.set_domain()
+        if ibp:
             u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
+                lambda var: var + K.cast(perturbation_domain.eps, dtype=var.dtype), dtype=z_tensor.dtype
             )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
-
-        else:
+            l_c_tensor = Lambda(
+                lambda var: var - K.cast(perturbation_domain.eps, dtype=var.dtype), dtype=z_tensor.dtype
+            )(z_tensor)
+        if affine:
             W = BatchedIdentityLike()(z_tensor)
             b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From 5dc5818fb06bdb05ec145b78c1507ea3fa36fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 23/40] fix: freezing weights, resetting tuning parameters and
 tuning wrappers with keras 3

---
 .../backward_layers/backward_layers.py        | 59 ++++------------
 src/decomon/backward_layers/backward_merge.py | 19 +----
 src/decomon/backward_layers/core.py           | 20 ++----
 src/decomon/layers/core.py                    | 69 ++++++++++++++-----
 src/decomon/layers/decomon_layers.py          | 50 +-------------
 src/decomon/wrapper_with_tuning.py            | 22 +++---
 6 files changed, 88 insertions(+), 151 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 4b943cd..3580b8d 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -115,19 +115,6 @@ class BackwardDense(BackwardLayer):
             self._trainable_weights.append(self.bias)
         self.built = True
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardConv2D(BackwardLayer):
     """Backward  LiRPA of Conv2D"""
@@ -214,19 +201,6 @@ class BackwardConv2D(BackwardLayer):
         weight_, bias_ = self.get_affine_components(inputs)
         return [weight_, bias_] * 2
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardActivation(BackwardLayer):
     def __init__(
@@ -401,24 +375,21 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
-    def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if len(self.grid_finetune):
-                    self._trainable_weights = self._trainable_weights[:2]
-                else:
-                    self._trainable_weights = []
-                self.frozen_alpha = True
-
-    def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.alpha_b_u, self.alpha_b_l]
-                    else:
-                        self._trainable_weights += [self.alpha_b_l]
-            self.frozen_alpha = False
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        variables = super().get_finetuning_variables()
+        return variables + [getattr(self, name) for name in ("alpha_b_u", "alpha_b_l") if hasattr(self, name)]
+
+    def freeze_weights(self) -> None:
+        # no network weights
+        pass
+
+    def unfreeze_weights(self) -> None:
+        pass
+
+    def reset_finetuning(self) -> None:
+        super().reset_finetuning()
+        if self.finetune and isinstance(self.perturbation_domain, GridDomain) and hasattr(self, "alpha_b_l"):
+            self.alpha_b_l.assign(np.eye(3, 1) * np.ones(self.alpha_b_l.shape))
 
     def freeze_grid(self) -> None:
         if len(self.grid_finetune) and not self.frozen_grid:
diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..96a79d1 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -23,7 +23,7 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
-from decomon.layers.core import DecomonLayer
+from decomon.layers.core import DecomonLayer, FinetuningMixin
 from decomon.layers.decomon_merge_layers import (
     DecomonAdd,
     DecomonConcatenate,
@@ -37,7 +37,7 @@ from decomon.layers.utils import broadcast, multiply, permute_dimensions, split
 from decomon.types import BackendTensor
 
 
-class BackwardMerge(ABC, Wrapper):
+class BackwardMerge(FinetuningMixin, ABC, Wrapper):
     layer: Layer
     _trainable_weights: list[keras.Variable]
 
@@ -124,21 +124,6 @@ class BackwardMerge(ABC, Wrapper):
         # generic case: nothing to do before call
         pass
 
-    def freeze_weights(self) -> None:
-        pass
-
-    def unfreeze_weights(self) -> None:
-        pass
-
-    def freeze_alpha(self) -> None:
-        pass
-
-    def unfreeze_alpha(self) -> None:
-        pass
-
-    def reset_finetuning(self) -> None:
-        pass
-
 
 class BackwardAdd(BackwardMerge):
     """Backward  LiRPA of Add"""
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index b801ae1..b9e3711 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -14,11 +14,11 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
-from decomon.layers.core import DecomonLayer
+from decomon.layers.core import DecomonLayer, FinetuningMixin
 from decomon.types import BackendTensor
 
 
-class BackwardLayer(ABC, Wrapper):
+class BackwardLayer(FinetuningMixin, ABC, Wrapper):
     layer: Layer
     _trainable_weights: list[keras.Variable]
 
@@ -132,17 +132,5 @@ class BackwardLayer(ABC, Wrapper):
 
         return [w_shape, b_shape, w_shape, b_shape]
 
-    def freeze_weights(self) -> None:
-        pass
-
-    def unfreeze_weights(self) -> None:
-        pass
-
-    def freeze_alpha(self) -> None:
-        pass
-
-    def unfreeze_alpha(self) -> None:
-        pass
-
-    def reset_finetuning(self) -> None:
-        pass
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        return self.layer.get_finetuning_variables() if isinstance(self.layer, FinetuningMixin) else []
diff --git a/src/decomon/layers/core.py b/src/decomon/layers/core.py
index 86ef87c..cbac796 100644
--- a/src/decomon/layers/core.py
+++ b/src/decomon/layers/core.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from typing import Any, Optional, Union
 
 import keras
+import numpy as np
 from keras.layers import Layer
 
 from decomon.core import (
@@ -16,7 +17,58 @@ from decomon.keras_utils import check_if_single_shape, reset_layer
 from decomon.types import BackendTensor
 
 
-class DecomonLayer(ABC, Layer):
+class FinetuningMixin:
+    """Freezing and resetting the variables of a layer
+
+    The variables of a layer are either the tuning parameters (chosen when bounding the activations),
+    or the weights of the network (which are shared with the keras layers).
+
+    """
+
+    _frozen_weights_ids: tuple[int, ...] = ()
+    _frozen_alpha_ids: tuple[int, ...] = ()
+
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        """Tuning parameters of the layer, 1 being their initial value."""
+        return []
+
+    def _freeze(self, variables: list[keras.Variable]) -> tuple[int, ...]:
+        # do not take into account variables already frozen by the user
+        variables = [v for v in variables if v.trainable]
+        for v in variables:
+            v.trainable = False
+        return tuple(id(v) for v in variables)
+
+    def _unfreeze(self, ids: tuple[int, ...]) -> None:
+        for v in self.variables:  # type: ignore
+            if id(v) in ids:
+                v.trainable = True
+
+    def freeze_weights(self) -> None:
+        alpha_ids = [id(v) for v in self.get_finetuning_variables()]
+        self._frozen_weights_ids += self._freeze([v for v in self.variables if id(v) not in alpha_ids])  # type: ignore
+        self.frozen_weights = True
+
+    def unfreeze_weights(self) -> None:
+        self._unfreeze(self._frozen_weights_ids)
+        self._frozen_weights_ids = ()
+        self.frozen_weights = False
+
+    def freeze_alpha(self) -> None:
+        self._frozen_alpha_ids += self._freeze(self.get_finetuning_variables())
+        self.frozen_alpha = True
+
+    def unfreeze_alpha(self) -> None:
+        self._unfreeze(self._frozen_alpha_ids)
+        self._frozen_alpha_ids = ()
+        self.frozen_alpha = False
+
+    def reset_finetuning(self) -> None:
+        for v in self.get_finetuning_variables():
+            v.assign(np.ones(v.shape))
+
+
+class DecomonLayer(FinetuningMixin, ABC, Layer):
     """Abstract class that contains the common information of every implemented layers for Forward LiRPA"""
 
     _trainable_weights: list[keras.Variable]
@@ -221,21 +273,6 @@ class DecomonLayer(ABC, Layer):
         """
         raise NotImplementedError()
 
-    def freeze_weights(self) -> None:
-        pass
-
-    def unfreeze_weights(self) -> None:
-        pass
-
-    def freeze_alpha(self) -> None:
-        pass
-
-    def unfreeze_alpha(self) -> None:
-        pass
-
-    def reset_finetuning(self) -> None:
-        pass
-
     def share_weights(self, layer: Layer) -> None:
         pass
 
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..c951dda 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -272,18 +272,6 @@ class DecomonConv2D(DecomonLayer, Conv2D):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonDense(DecomonLayer, Dense):
     """Forward LiRPA implementation of Dense layers.
@@ -522,18 +510,6 @@ class DecomonDense(DecomonLayer, Dense):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonActivation(DecomonLayer, Activation):
     """Forward LiRPA implementation of Activation layers.
@@ -621,30 +597,8 @@ class DecomonActivation(DecomonLayer, Activation):
             )
             return output
 
-    def reset_finetuning(self) -> None:
-        if self.finetune and self.mode != ForwardMode.IBP:
-            if self.activation_name != "linear":
-                if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
-                else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
-
-    def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                self._trainable_weights = []
-            self.frozen_alpha = True
-
-    def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.beta_u_f, self.beta_l_f]
-                    else:
-                        self._trainable_weights += [self.beta_l_f]
-            self.frozen_alpha = False
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        return [getattr(self, name) for name in ("beta_u_f", "beta_l_f") if hasattr(self, name)]
 
 
 class DecomonFlatten(DecomonLayer, Flatten):
diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index c7af68a..e74d4a5 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -5,7 +5,7 @@ import numpy as np
 import numpy.typing as npt
 from keras.optimizers import Adam
 
-from decomon.metrics.loss import get_upper_loss
+from decomon.metrics.loss import get_lower_loss, get_upper_loss
 from decomon.models.models import DecomonModel
 from decomon.wrapper import get_lower_box, get_upper_box, refine_boxes
 
@@ -84,7 +84,7 @@ def get_upper_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
@@ -92,6 +92,7 @@ def get_upper_box_tuning(
 
         # reset alpha
         model.reset_finetuning()
+        model.unfreeze_weights()
 
         return np.minimum(baseline_upper, upper)
 
@@ -107,7 +108,7 @@ def get_lower_box_tuning(
     lr: float = 0.1,
     epochs: int = 100,
 ) -> npt.NDArray[np.float_]:
-    """upper bound the maximum of a model in a given box
+    """lower bound the minimum of a model in a given box
 
     Args:
         model: either a Keras model or a Decomon model
@@ -119,7 +120,7 @@ def get_lower_box_tuning(
             mode to optimize the scores
 
     Returns:
-        numpy array, vector with upper bounds for adversarial attacks
+        numpy array, vector with lower bounds for adversarial attacks
     """
 
     if np.min(x_max - x_min) < 0:
@@ -128,7 +129,7 @@ def get_lower_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
@@ -170,14 +171,15 @@ def get_lower_box_tuning(
         model.freeze_weights()
 
         # create loss
-        loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        loss_lower = get_lower_loss(model)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_lower)
 
-        decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
+        decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-        upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
         # reset alpha
         model.reset_finetuning()
+        model.unfreeze_weights()
 
-        return np.minimum(baseline_upper, upper)
+        return np.maximum(baseline_lower, lower)
-- 
2.43.0


From 910f831751391928a8b4df7d1705ac2f676bcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 24/40] fix: max pooling with non-square pools, same padding or
 channels_first

---
 src/decomon/layers/maxpooling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index c6998c2..01afafc 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -87,7 +87,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         for i in range(self.pool_size[0]):
             for j in range(self.pool_size[1]):
-                self.filters[i, j, 0, i * self.pool_size[0] + j] = 1
+                self.filters[i, j, 0, i * self.pool_size[1] + j] = 1
 
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
@@ -231,7 +231,9 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        if self.fast:
+        # the convolutions of the other implementation pad with 0 (instead of -inf) and handle only channels_last
+        conv_supported = self.padding == "valid" and self.data_format in [None, "channels_last"]
+        if self.fast or not (conv_supported or self.dc_decomp):
             return self._pooling_function_fast(inputs)
         else:
             return self._pooling_function_not_fast(inputs)
-- 
2.43.0


From 3dac2ae34e59df6899571e777719c449f5129c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 25/40] fix: integer labels of adversarial scores when the
 model has several outputs

---
 src/decomon/wrapper.py | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 06a178f..e7eab88 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -27,14 +27,24 @@ def _get_dual_ord(p: float) -> float:
         raise ValueError(f"p must be equal to 1, 2, or np.inf, unknown value {p}.")
 
 
-def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_]:
+def prepare_labels(labels: LabelType, n_batch: int, n_label: int = 1) -> np.typing.NDArray[np.int_]:
     if isinstance(labels, (int, np.int_)):
         labels = np.zeros((n_batch, 1), dtype=np.int_) + labels
     elif not isinstance(labels, np.ndarray):
         labels = np.array(labels).reshape((n_batch, -1))
     else:
         labels = labels.reshape((n_batch, -1))
-    return labels.astype("int_")
+    labels = labels.astype("int_")
+    if labels.shape[-1] == 1 and n_label > 1:
+        # indices of the labels => masks
+        labels = np.eye(n_label, dtype=np.int_)[labels[:, 0]]
+    return labels
+
+
+def get_nb_labels(decomon_model: DecomonModel) -> int:
+    if decomon_model.backward_bounds:
+        return int(decomon_model.input_shape[1][-2])
+    return int(np.prod(decomon_model.outputs[-1].shape[1:]))
 
 
 ##### ADVERSARIAL ROBUSTTNESS #####
@@ -101,9 +111,10 @@ def get_adv_box(
 
     z = np.concatenate([x_min, x_max], 1)
 
-    source_labels = prepare_labels(source_labels, n_batch)
+    n_label = get_nb_labels(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_label)
     if target_labels is not None:
-        target_labels = prepare_labels(target_labels, n_batch)
+        target_labels = prepare_labels(target_labels, n_batch, n_label)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -311,18 +322,11 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
 
+    n_label = get_nb_labels(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_label)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_label)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -848,9 +852,9 @@ def refine_box(
 
     # one label set per sub-box
     if source_labels is not None:
-        source_labels = np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0)
+        source_labels = np.repeat(prepare_labels(source_labels, n_x, get_nb_labels(decomon_model)), n_split, axis=0)
     if target_labels is not None:
-        target_labels = np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0)
+        target_labels = np.repeat(prepare_labels(target_labels, n_x, get_nb_labels(decomon_model)), n_split, axis=0)
 
     def priv_func(x_min_split: npt.NDArray[np.float_], x_max_split: npt.NDArray[np.float_]) -> npt.NDArray[np.float_]:
         if func.__name__ in [elem.__name__ for elem in [get_upper_box, get_lower_box, get_range_box]]:
@@ -962,14 +966,10 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    n_label = get_nb_labels(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_label)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_label)
 
     if batch_size > 0:
         # split
-- 
2.43.0


From df9a6d476dc4c6cffdd0c88908de586762aa0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:47 +0000
Subject: [PATCH 26/40] fix: crown methods on models calling a layer several
 times

---
 src/decomon/models/backward_cloning.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..03580cd 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -74,6 +74,13 @@ def retrieve_layer(
         backward_layer = backward_map[id(node)]
     else:
         backward_layer = layer_fn(node.operation)
+        # a keras layer called several times needs several backward layers, with distinct names
+        names = {other_layer.name for other_layer in backward_map.values()}
+        if backward_layer.name in names:
+            i = 1
+            while f"{backward_layer.name}_{i}" in names:
+                i += 1
+            backward_layer.name = f"{backward_layer.name}_{i}"
         if joint:
             backward_map[id(node)] = backward_layer
     return backward_layer
-- 
2.43.0


From a846915f52bc61607553cc6abe87c24c56b5f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 27/40] fix: Dot (shape of the product of vectors, axes of
 matrices, normalize ignored), Concatenate on negative axes

---
 src/decomon/layers/decomon_merge_layers.py | 12 +++++++++++-
 src/decomon/layers/utils.py                |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..e98fde9 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -432,7 +432,7 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
             return Concatenate.call(self, inputs)
 
         self.op = func
-        if self.axis == -1:
+        if self.axis < 0:
             self.op_w = self.op
         else:
             self.op_w = Concatenate(axis=self.axis + 1)
@@ -566,6 +566,8 @@ class DecomonDot(DecomonMerge, Dot):
             fast=fast,
             **kwargs,
         )
+        if self.normalize:
+            raise NotImplementedError("Normalization before the dot product is not implemented.")
         if isinstance(axes, int):
             self.axes = (axes, axes)
         else:
@@ -623,6 +625,14 @@ class DecomonDot(DecomonMerge, Dot):
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
+        if n_0 == 0 and n_1 == 0:
+            # as in keras, the dot product of vectors is of shape (batch_size, 1)
+            if self.ibp:
+                u_c_out, l_c_out = K.expand_dims(u_c_out, -1), K.expand_dims(l_c_out, -1)
+            if self.affine:
+                w_u_out, b_u_out = K.expand_dims(w_u_out, -1), K.expand_dims(b_u_out, -1)
+                w_l_out, b_l_out = K.expand_dims(w_l_out, -1), K.expand_dims(b_l_out, -1)
+
         if self.dc_decomp:
             raise NotImplementedError()
         else:
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index c180969..e5d392a 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -573,10 +573,13 @@ def permute_dimensions(
     if len(input_shape) <= 2:
         # not enough dim to permute
         return inputs
+    if axis < 0:
+        axis += len(input_shape)
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
+    # affine weights: one more dimension (input dim) after the batch one
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    index_w = tuple(np.insert(np.delete(index_w_np, axis + 1), axis_perm + 1, axis + 1))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From 35512f3c85976d0ffe1565f9d2eb5665895cdb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 28/40] fix: range over the current ball of a model (negative
 eps)

---
 src/decomon/wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index e7eab88..ee81752 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -683,6 +683,10 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    # if eps < 0, the domain of the model has been kept
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
@@ -954,6 +958,7 @@ def get_adv_noise(
             decomon_model.set_domain(perturbation_domain)
 
     eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
-- 
2.43.0


From 02b010e1ed229a88a42ebd2ce60dd9f32c5ad83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 29/40] fix: get_adv_box with a linear specification (several
 source labels, target labels)

---
 src/decomon/wrapper.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index ee81752..0ecf89c 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -89,6 +89,23 @@ def get_adv_box(
     n_split = 1
     n_batch = len(x_min)
 
+    if decomon_model.backward_bounds:
+        n_label = get_nb_labels(decomon_model)
+        source_labels = prepare_labels(source_labels, n_batch, n_label)
+        if np.max(np.sum(source_labels, -1)) > 1:
+            # the linear specification is the difference with one source label at a time
+            if target_labels is None:
+                target_labels = 1 - source_labels
+            adv_scores = []
+            for i in range(n_label):
+                # samples without i among their source labels: use their first one
+                index = np.where(source_labels[:, i] > 0, i, np.argmax(source_labels, -1))
+                source_i = np.eye(n_label, dtype=np.int_)[index]
+                adv_scores.append(
+                    get_adv_box(decomon_model, x_min, x_max, source_i, target_labels, batch_size, n_sub_boxes)
+                )
+            return np.max(adv_scores, 0)
+
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
         # reshape
@@ -182,7 +199,8 @@ def get_adv_box(
 
             # add penalties on biases
             if backward:
-                return np.max(u_c, -1)
+                upper = u_c - (1 - t_tensor_reshaped) * (u_c.max() - u_c.min() + 0.1)
+                return np.max(upper, -1)
             else:
                 upper = u_c[:, :, None] - l_c[:, None]
             const = upper.max() - upper.min()
@@ -224,6 +242,7 @@ def get_adv_box(
                     + (np.minimum(w_u, 0.0) * z_tensor[:, 0][:, :, None]).sum(1)
                     + b_u
                 )
+                upper -= (1 - t_tensor_reshaped) * (upper.max() - upper.min() + 0.1)
 
                 return upper.max(-1)
 
-- 
2.43.0


From effe8149cf5350edf5db00c26ed74dd7374fee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 30/40] fix: Flatten with data_format channels_first,
 Concatenate with a network input of size 1

---
 src/decomon/backward_layers/backward_layers.py | 12 +++++++++++-
 src/decomon/layers/decomon_layers.py           |  5 +++++
 src/decomon/layers/decomon_merge_layers.py     |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 3580b8d..9696465 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -424,7 +424,17 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+
+        if self.layer.data_format == "channels_first":
+            # keras switches to channels_last before flattening
+            n_dim = w_u_out.shape[1]
+            shape = list(self.get_keras_input_shape()[1:])
+            dims = [0, 1] + list(range(3, len(shape) + 2)) + [2]
+            w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
+            w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
+
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index c951dda..97cc1dc 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -699,6 +699,11 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
+            if self.data_format == "channels_first":
+                # keras switches to channels_last before flattening
+                dims = [0, 1] + list(range(3, len(w_u.shape))) + [2]
+                w_u = K.transpose(w_u, dims)
+                w_l = K.transpose(w_l, dims)
             w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
             w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
         else:
diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index e98fde9..76abb6d 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -435,7 +435,8 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
         if self.axis < 0:
             self.op_w = self.op
         else:
-            self.op_w = Concatenate(axis=self.axis + 1)
+            # not a Concatenate layer: its shape checks fail on axes of size 1
+            self.op_w = lambda inputs: K.concatenate(inputs, axis=self.axis + 1)
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         # splits the inputs
-- 
2.43.0


From d6af5eaa3519264ecbfdf2719cc34d2d69245c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 31/40] fix: forward conversion of BatchNormalization shares
 the weights of the network when shared=True

---
 src/decomon/layers/decomon_layers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 97cc1dc..5217f41 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -768,9 +768,19 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
-        super().build(input_shape)
+        if self.shared and hasattr(self, "moving_mean"):
+            # weights shared with the keras layer, do not overwrite them
+            self.built = True
+        else:
+            super().build(input_shape)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
 
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        for weight_name in self.keras_weights_names:
+            setattr(self, weight_name, getattr(layer, weight_name))
+
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
 
-- 
2.43.0


From 379df62fb8a602c2644f86d952844da0452013b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 32/40] fix: the conversion does not rename the layers of the
 converted network

---
 src/decomon/models/convert.py         | 20 +++++++++++++++++++-
 src/decomon/models/forward_cloning.py |  3 ++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index a1d3075..dbe1534 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -8,6 +8,7 @@ from keras.models import Model
 
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
+from decomon.keras_utils import share_layer_all_weights
 from decomon.layers.convert import to_decomon
 from decomon.models.backward_cloning import convert_backward
 from decomon.models.forward_cloning import (
@@ -51,11 +52,28 @@ def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -
                 output_map[id(node)] = node.output_tensors
                 layer_map[id(node)] = node.operation
 
+    # the layers kept as is are not renamed: names must be unique, including among the embedded models
+    names: set[str] = {layer.name for layer in layer_map.values()}
+
+    def layer_fn_unique_names(layer: Layer) -> list[Layer]:
+        new_layers = layer_fn(layer)
+        if len(new_layers) == 1 and new_layers[0] is layer:
+            if layer.name in names:
+                config = layer.get_config()
+                while config["name"] in names:
+                    config["name"] += "_1"
+                new_layer = layer.__class__.from_config(config)
+                if layer.weights:
+                    share_layer_all_weights(original_layer=layer, new_layer=new_layer)
+                new_layers = [new_layer]
+            names.add(new_layers[0].name)
+        return new_layers
+
     _, output, _, _, _ = convert_forward_functional_model(
         model=model,
         input_tensors=model.inputs,
         softmax_to_linear=False,
-        layer_fn=layer_fn,
+        layer_fn=layer_fn_unique_names,
         output_map=output_map,
         layer_map=layer_map,
     )
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..bc96666 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -208,7 +208,8 @@ def convert_forward_functional_model(
                     converted_layers = layer_fn(layer)
                     layer2layer_map[id(layer)] = converted_layers
                 for converted_layer in converted_layers:
-                    converted_layer.name = f"{converted_layer.name}_{count}"
+                    if converted_layer is not layer:  # do not rename the layers of the original model
+                        converted_layer.name = f"{converted_layer.name}_{count}"
                     count += 1
                     output = converted_layer(prepare_inputs_for_layer(output))
                     if len(converted_layers) > 1:
-- 
2.43.0


From 890792e640155de5540b9442a3f705d825ecfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 33/40] fix: categorical_cross_entropy sums bounds over the
 given perturbation domain, not always a box

---
 src/decomon/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/utils.py b/src/decomon/metrics/utils.py
index 3cc9a7e..957f68f 100644
--- a/src/decomon/metrics/utils.py
+++ b/src/decomon/metrics/utils.py
@@ -19,7 +19,7 @@ def categorical_cross_entropy(
         perturbation_domain = BoxDomain()
     outputs = exp(inputs, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp)
     # step 2: sum
-    outputs = sum(outputs, axis=-1, mode=mode)
+    outputs = sum(outputs, axis=-1, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp)
     # step 3: log
     outputs = log(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     outputs = expand_dims(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain, axis=-1)
-- 
2.43.0


From 1bb0f40e5dc66daf9653830fb300eba64ef95c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 34/40] fix: gradient of the dual 2-norm is 0, not nan, for
 null weights

---
 src/decomon/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 74790f4..ced3f9e 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -539,7 +539,12 @@ def get_lq_norm(x: Tensor, p: float, axis: int = -1) -> Tensor:
     if p == 1:
         x_q = K.max(K.abs(x), axis)
     elif p == 2:
-        x_q = K.sqrt(K.sum(K.power(x, p), axis))
+        # do not differentiate the square root in 0: its gradient would be nan
+        sum_squares = K.sum(K.power(x, p), axis)
+        is_null = sum_squares == 0
+        x_q = K.where(
+            is_null, K.zeros_like(sum_squares), K.sqrt(K.where(is_null, K.ones_like(sum_squares), sum_squares))
+        )
     else:
         raise NotImplementedError("p must be equal to 1 or 2")
 
-- 
2.43.0


From 66b7e0f8b5634417b9d33d4cadbed0d5b827ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 35/40] fix: backward Dense accepts the flattened inputs crown
 gives it for multi-axis inputs

---
 src/decomon/backward_layers/backward_layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 9696465..a439d23 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -70,7 +70,8 @@ class BackwardDense(BackwardLayer):
             inputs = self.layer.input
 
         y = inputs[-1]
-        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:-1]))
+        # the inputs can be already flattened: deduce the number of rows from the kernel
+        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:])) // self.kernel.shape[0]
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
         batchsize = y.shape[0]
 
-- 
2.43.0


From a4f403d8c22f29574140c0aaa2cc16a33013308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 36/40] fix: backward Conv2D keeps double precision

---
 src/decomon/backward_layers/utils_conv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index 24ce1af..d58dd75 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -84,9 +84,10 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
         None, None, None, None, None
     ]  # (1,1,c_in, c_out, filter_size^2)
 
-    # element-wise multiplication is only compatible with float32
-    diag_patches_ = K.cast(diag_patches_, "float32")
-    kernel = K.cast(kernel, "float32")
+    # element-wise multiplication is only compatible with float32, or float64 that needs it not to lose precision
+    dtype = "float64" if conv_layer.dtype == "float64" else "float32"
+    diag_patches_ = K.cast(diag_patches_, dtype)
+    kernel = K.cast(kernel, dtype)
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
     # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size^2)
-- 
2.43.0


From 8546c21c535fce72a73703c905eecf5c4454a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 37/40] fix: radius of ball domains keeps double precision

---
 src/decomon/models/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index c01a00f..0f4a7c1 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -121,10 +121,10 @@ def get_input_tensors(
         # read the radius when calling the model, as it can be updated with DecomonModel.set_domain()
         if ibp:
             u_c_tensor = Lambda(
-                lambda var: var + K.cast(perturbation_domain.eps, dtype=var.dtype), dtype=z_tensor.dtype
+                lambda var: var + K.convert_to_tensor(perturbation_domain.eps, dtype=var.dtype), dtype=z_tensor.dtype
             )(z_tensor)
             l_c_tensor = Lambda(
-                lambda var: var - K.cast(perturbation_domain.eps, dtype=var.dtype), dtype=z_tensor.dtype
+                lambda var: var - K.convert_to_tensor(perturbation_domain.eps, dtype=var.dtype), dtype=z_tensor.dtype
             )(z_tensor)
         if affine:
             W = BatchedIdentityLike()(z_tensor)
-- 
2.43.0


From 05077f649a91acca54903f848d2d86216a497b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 38/40] fix: LoRA weights of dense layers ignored by the
 conversion

---
 src/decomon/backward_layers/backward_layers.py |  7 ++++---
 src/decomon/keras_utils.py                     | 12 +++++++++++-
 src/decomon/layers/decomon_layers.py           |  6 +++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index a439d23..79c62c9 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -70,18 +70,19 @@ class BackwardDense(BackwardLayer):
             inputs = self.layer.input
 
         y = inputs[-1]
+        kernel = self.layer.kernel  # computed at each call from the weights if LoRA is enabled
         # the inputs can be already flattened: deduce the number of rows from the kernel
-        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:])) // self.kernel.shape[0]
+        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:])) // kernel.shape[0]
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
         batchsize = y.shape[0]
 
         # kernel reshaped: diagonal by blocks, with original kernel on the diagonal, `flatten_inputdim_wo_last_dim` times
         #                  repeated batchsize times
-        zero_block = K.zeros_like(self.kernel)
+        zero_block = K.zeros_like(kernel)
         kernel_diag_by_block = K.concatenate(
             [
                 K.concatenate(
-                    [self.kernel if i == j else zero_block for i in range(flatten_inputdim_wo_last_dim)], axis=-1
+                    [kernel if i == j else zero_block for i in range(flatten_inputdim_wo_last_dim)], axis=-1
                 )
                 for j in range(flatten_inputdim_wo_last_dim)
             ],
diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index 681f359..01060bd 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -193,6 +193,13 @@ def share_weights_and_build(original_layer: Layer, new_layer: Layer, weight_name
     # Check that input exists really (ie that the layer has already been called on a symbolic KerasTensor
     inp = original_layer.input  # will raise a ValueError if not existing
 
+    # LoRA weights are part of the effective kernel, even when they were enabled after the layer construction
+    lora_enabled = getattr(original_layer, "lora_enabled", False)
+    if lora_enabled:
+        weight_names = weight_names + [
+            w_name for w_name in ("lora_kernel_a", "lora_kernel_b") if w_name not in weight_names
+        ]
+
     # store the weights as a new_layer variable before build (ie before the lock)
     for w_name in weight_names:
         w = getattr(original_layer, w_name)
@@ -219,7 +226,10 @@ def share_weights_and_build(original_layer: Layer, new_layer: Layer, weight_name
             w_to_drop = getattr(new_layer, w_name)
             setattr(new_layer, w_name, w)
         # untrack the not used anymore weight
-        new_layer._tracker.untrack(w_to_drop)
+        if w_to_drop is not w:
+            new_layer._tracker.untrack(w_to_drop)
+    if lora_enabled:
+        new_layer.lora_enabled = True
 
 
 def check_if_single_shape(shape: Any) -> bool:
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 5217f41..8debeb8 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -389,6 +389,10 @@ class DecomonDense(DecomonLayer, Dense):
         except AttributeError:
             # manage hidden weights introduced for LoRA https://github.com/keras-team/keras/pull/18942
             self._kernel = layer._kernel
+            if layer.lora_enabled:
+                self.lora_kernel_a = layer.lora_kernel_a
+                self.lora_kernel_b = layer.lora_kernel_b
+                self.lora_enabled = True
         if self.use_bias:
             self.bias = layer.bias
 
@@ -505,7 +509,7 @@ class DecomonDense(DecomonLayer, Dense):
         Will be used to decide which weight to take from the keras layer in `reset_layer()`
 
         """
-        weight_names = ["kernel"]
+        weight_names = ["_kernel", "lora_kernel_a", "lora_kernel_b"] if getattr(self, "lora_enabled", False) else ["kernel"]
         if self.use_bias:
             weight_names.append("bias")
         return weight_names
-- 
2.43.0


From d9c8c813cf3c5d09c3b53f9a39a18e9328d20cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 39/40] fix: activation layers embedded in other layers renamed
 by the conversion

---
 src/decomon/models/convert.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index dbe1534..dfe4da0 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -56,7 +56,15 @@ def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -
     names: set[str] = {layer.name for layer in layer_map.values()}
 
     def layer_fn_unique_names(layer: Layer) -> list[Layer]:
+        # a layer used as activation by another one is renamed by the split: use a copy, and let the original one as it was
+        embedded_layer = getattr(layer, "activation", None)
+        embedded_name = embedded_layer.name if isinstance(embedded_layer, Layer) else None
         new_layers = layer_fn(layer)
+        if embedded_name is not None and embedded_layer in new_layers:
+            new_layer = embedded_layer.__class__.from_config(embedded_layer.get_config())
+            share_layer_all_weights(original_layer=embedded_layer, new_layer=new_layer)
+            embedded_layer.name = embedded_name
+            new_layers = [new_layer if new_layer_i is embedded_layer else new_layer_i for new_layer_i in new_layers]
         if len(new_layers) == 1 and new_layers[0] is layer:
             if layer.name in names:
                 config = layer.get_config()
-- 
2.43.0


From f8e198e087e456cc98bda9fba13e9da7a848dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 40/40] fix: networks with several outputs: bounds of one of
 them only were returned

---
 src/decomon/models/backward_cloning.py | 62 +++++++++++++-------------
 src/decomon/models/convert.py          | 11 +++--
 src/decomon/models/forward_cloning.py  | 15 +++----
 src/decomon/models/utils.py            | 20 +++++++++
 4 files changed, 64 insertions(+), 44 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 03580cd..135601b 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -31,6 +31,8 @@ from decomon.models.utils import (
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
+    get_parent_node,
+    split_outputs,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -373,35 +375,30 @@ def crown_model(
     # print('step1', time_1-zero_time)
     # retrieve output nodes
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
     fuse_layer = None
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                # compute with crown
-                output_crown, fuse_layer = crown_(
-                    node=node,
-                    ibp=ibp,
-                    affine=affine,
-                    input_map=input_map,
-                    layer_fn=layer_fn,
-                    backward_bounds=back_bounds,
-                    backward_map=backward_map,
-                    joint=joint,
-                    fuse=fuse,
-                    perturbation_domain=perturbation_domain,
-                    output_map=crown_map,
-                    fuse_layer=fuse_layer,
-                )
-                # time_2 = time.process_time()
-                # print('step2', time_2-time_1)
-                if fuse:
-                    # import pdb; pdb.set_trace()
-                    output += to_list(set_mode_layer(input_tensors + output_crown))
-                else:
-                    output = output_crown
+    for tensor in model.outputs:
+        # compute with crown
+        output_crown, fuse_layer = crown_(
+            node=get_parent_node(tensor),
+            ibp=ibp,
+            affine=affine,
+            input_map=input_map,
+            layer_fn=layer_fn,
+            backward_bounds=back_bounds,
+            backward_map=backward_map,
+            joint=joint,
+            fuse=fuse,
+            perturbation_domain=perturbation_domain,
+            output_map=crown_map,
+            fuse_layer=fuse_layer,
+        )
+        # time_2 = time.process_time()
+        # print('step2', time_2-time_1)
+        if fuse:
+            # import pdb; pdb.set_trace()
+            output += to_list(set_mode_layer(input_tensors + output_crown))
+        else:
+            output = output_crown
 
     return input_tensors, output, backward_map, None
 
@@ -458,13 +455,16 @@ def convert_backward(
     input_tensors, output, backward_map, toto = result
     mode_from = get_mode(ibp, affine)
     mode_to = get_mode(final_ibp, final_affine)
-    output = Convert2Mode(
+    convert2mode_layer = Convert2Mode(
         mode_from=mode_from,
         mode_to=mode_to,
         perturbation_domain=perturbation_domain,
         input_dim=input_dim,
-    )(output)
+    )
+    outputs_in_mode = [convert2mode_layer(tensors) for tensors in split_outputs(output, len(model.outputs))]
     if mode_to != mode_from and mode_from == ForwardMode.IBP:
         f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
-        output[0] = f_input([input_tensors[1], input_tensors[0]])
+        for tensors in outputs_in_mode:
+            tensors[0] = f_input([input_tensors[1], input_tensors[0]])
+    output = [tensor for tensors in outputs_in_mode for tensor in tensors]
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index dfe4da0..0ff5ec4 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -31,6 +31,7 @@ from decomon.models.utils import (
     is_input_node,
     preprocess_layer,
     split_activation,
+    split_outputs,
 )
 
 
@@ -186,9 +187,12 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
-        output = Convert2Mode(
+        convert2mode_layer = Convert2Mode(
             mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
-        )(output)
+        )
+        output = [
+            tensor for tensors in split_outputs(output, len(model.outputs)) for tensor in convert2mode_layer(tensors)
+        ]
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
@@ -274,7 +278,8 @@ def clone(
 
     if affine != final_affine and final_affine:
         # affine bounds deduced from constant ones: add the model input to which they apply
-        output[0] = z_tensor
+        for i in range(0, len(output), len(output) // len(model.outputs)):
+            output[i] = z_tensor
 
     back_bounds_from_inputs = [elem for elem in back_bounds if isinstance(elem._keras_history.operation, InputLayer)]
 
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index bc96666..c7078e6 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -11,7 +11,6 @@ from typing import Any, Optional, Union
 import keras
 from keras.layers import InputLayer, Layer
 from keras.models import Model
-from keras.src.utils.python_utils import to_list
 
 from decomon.core import BoxDomain, PerturbationDomain, Slope
 from decomon.layers.convert import to_decomon
@@ -22,6 +21,7 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
+    get_mapped_tensors,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
 )
@@ -174,8 +174,8 @@ def convert_forward_functional_model(
                 continue
             if len(parents):
                 output = []
-                for parent in parents:
-                    output += output_map[id(parent)]
+                for tensor in node.input_tensors:
+                    output += get_mapped_tensors(tensor, output_map)
 
             if isinstance(layer, InputLayer):
                 # no conversion, no transformation for output (instead of trying to pass in identity layer)
@@ -218,12 +218,7 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                output += output_map[id(node)]
+    for tensor in model.outputs:
+        output += get_mapped_tensors(tensor, output_map)
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 0f4a7c1..2e8537d 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -264,6 +264,20 @@ def get_depth_dict(model: Model) -> dict[int, list[Node]]:
     return dico_nodes
 
 
+def get_parent_node(tensor: keras.KerasTensor) -> Node:
+    """Get the node computing the tensor."""
+    operation, node_index, _ = tensor._keras_history
+    return operation._inbound_nodes[node_index]
+
+
+def get_mapped_tensors(
+    tensor: keras.KerasTensor, output_map: dict[Union[int, str], list[keras.KerasTensor]]
+) -> list[keras.KerasTensor]:
+    """Get the tensors replacing a given one, among the ones replacing all outputs of the node computing it."""
+    node = get_parent_node(tensor)
+    return split_outputs(output_map[id(node)], n_outputs=len(node.output_tensors))[tensor._keras_history.tensor_index]
+
+
 def get_inner_layers(model: Model) -> int:
     count = 0
     for layer in model.layers:
@@ -352,6 +366,12 @@ class Convert2Mode(Layer):
         return config
 
 
+def split_outputs(outputs: list[keras.KerasTensor], n_outputs: int) -> list[list[keras.KerasTensor]]:
+    """Split the tensors representing all outputs of a model into the ones representing each output."""
+    n = len(outputs) // n_outputs
+    return [outputs[i * n : (i + 1) * n] for i in range(n_outputs)]
+
+
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         return model
-- 
2.43.0

