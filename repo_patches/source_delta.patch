From 140079a6513b4aaa99206ddca1efa43a1be824a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 01/78] fix: quantizing to uint32 (or wider) no longer wraps
 codes above 2^31-1

---
 core/itcl_quantization/quantization/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 7807f74..5032d1f 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -159,7 +159,10 @@ class Quantization(Generic[T]):
         """
         rounded_data = np.floor(np.array(data) + extra)
 
-        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int32")
+        # int32 cannot hold the upper half of the unsigned 32 bit codes
+        storage = "int32" if self.dtype.max() <= np.iinfo(np.int32).max else "int64"
+
+        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype(storage)
 
     def float_activation(
         self,
-- 
2.43.0


From 0554e5c5fda7e193bb041aea489309ec22b5244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 02/78] fix: dequantize wide codes and zero points without 32
 bit wrap-around

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 5032d1f..d8bee36 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -149,7 +149,7 @@ class Quantization(Generic[T]):
         Returns:
             np.ndarray: Dequantized Numpy Array
         """
-        return (np.array(data, dtype=np.int32) - zero_point) * scale
+        return (np.array(data, dtype=np.int64) - zero_point) * scale
 
     def round(self, data: input_type, extra=0.5) -> np.ndarray:
         """Rounds a numpy array of float64 quantized values to their nearest int8 value
-- 
2.43.0


From 3b4dda14692226c98b2ef12af3b446557e0b8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 03/78] fix: LUT activations returning an int for the first
 code are no longer truncated

---
 core/itcl_quantization/quantization/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index d8bee36..feff65c 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -175,7 +175,8 @@ class Quantization(Generic[T]):
         )
         float_input = self.dequantize(quantized_input, input_zp, input_s)
 
-        apply_fn = np.vectorize(activation_fn)
+        # Without otypes, an int returned for the first code would truncate all others
+        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])
 
         return apply_fn(float_input)
 
-- 
2.43.0


From e96a88e9d0270cbe1fa9a8dfc663149c47214d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 04/78] fix: fixed-width arithmetic on multi-dimensional arrays
 no longer raises

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index feff65c..137cbc0 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -288,7 +288,7 @@ class Dtype:
     def __has_overflow(value: Union[np.ndarray, number], larger: "Dtype"):
 
         if isinstance(value, np.ndarray):
-            return any(value > larger.max()) or any(value < larger.min())
+            return np.any(value > larger.max()) or np.any(value < larger.min())
 
         return value > larger.max() or value < larger.min()
 
-- 
2.43.0


From 2287d0f74722ee57ea28e6e6cc18b4adeffdcdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 05/78] fix: tail intervals of an asymmetric reduced LUT index
 the complete LUT

---
 core/itcl_quantization/quantization/lut.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index ab1e261..64a1b57 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -38,9 +38,12 @@ class ReducedLUT:
         )
 
         # Tail
-        self.right_shift, self.right_tuples = self.__reduce_lut_from_left(
-            lut[self.left_shift :] if self.asymmetric else lut, reverse=True
+        tail_offset = self.left_shift if self.asymmetric else 0
+        self.right_shift, right_tuples = self.__reduce_lut_from_left(
+            lut[tail_offset:], reverse=True
         )
+        # The intervals index the complete LUT, not the slice that has been reduced
+        self.right_tuples = [(start + tail_offset, v) for start, v in right_tuples]
 
         # Reduce the original LUT
         r_shift_slice_idx = -self.right_shift if self.right_shift else None
-- 
2.43.0


From aba22254557636c9a6a12ecf699c3d34302fa15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/78] fix: reduced LUT rejects indices past the end and
 iterates after deserializing

---
 core/itcl_quantization/quantization/lut.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index 64a1b57..fc166df 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -61,6 +61,9 @@ class ReducedLUT:
         Returns:
             int: The value of the LUT at the given index
         """
+        if index >= len(self):
+            raise IndexError(f"LUT Index {index} out of range")
+
         if index < self.left_shift:
             for t in self.left_tuples:
                 if index < t[0]:
@@ -77,9 +80,15 @@ class ReducedLUT:
 
         raise IndexError(f"LUT Index {index} out of range")
 
+    def __len__(self) -> int:
+        """Number of elements of the original LUT, also known after deserializing"""
+        if self.right_tuples:
+            return self.right_tuples[-1][0] + self.right_shift
+        return self.left_shift + len(self.reduced_lut)
+
     def __iter__(self):
         """Iterator for the LUT"""
-        for i in range(len(self.lut)):
+        for i in range(len(self)):
             yield self[i]
 
     def __reduce_lut_from_left(
-- 
2.43.0


From 67ba49f1f7f9207a6df727c38efc6ce72058972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/78] fix: rounding a barely negative value up no longer
 skips a code

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 137cbc0..4b5dca4 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -131,7 +131,7 @@ class Quantization(Generic[T]):
 
         if rounding_policy is not None:
             try:
-                return self.round(float_res + rounding_policy, extra=0)
+                return self.round(np.floor(float_res) + rounding_policy, extra=0)
             except ValueError:
                 logging.warning(
                     "Invalid quantization rounding policy, rounding to nearest"
-- 
2.43.0


From 24f808d9e93588c37f4fbd3a6ce7a43f031b10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 08/78] fix: 32 bit unsigned arithmetic keeps its exact 64 bit
 result

---
 core/itcl_quantization/quantization/operators.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 4b5dca4..02d4b0a 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -257,7 +257,7 @@ class Dtype:
         next = Dtype.from_dtype(larger.__double_dtype())
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(a + b, next.min(), next.max())
+        res = a + b  # np.clip would turn 64 bit unsigned results into floats
         dtype = larger.dtype
 
         # If overflow: Upgrade the dtype to the next higher dtype
@@ -271,11 +271,7 @@ class Dtype:
 
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(
-            a - b,
-            next.min(),
-            next.max(),
-        )
+        res = a - b
 
         dtype = larger.dtype
 
@@ -298,11 +294,7 @@ class Dtype:
 
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(
-            a * b,
-            next.min(),
-            next.max(),
-        )
+        res = a * b
 
         dtype = larger.dtype
         if self.__has_overflow(res, self):
-- 
2.43.0


From 500831fe2623af2f7cb8c13fb6893288435380d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/78] fix: fully-connected layers with very small rescaling
 factors no longer output a constant

---
 .../itcl_inference_engine/layers/tflite/fullyconnected.py  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 7004cfd..8fcb913 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -337,20 +337,17 @@ class FullyConnectedQuantizedMultiplier:
 
         float_multiplier = input_scale * weight_scale / output_scale
 
-        if float_multiplier < 1e-6:
-            return self.__adjust_mult(np.float32(0), np.int64(0))
-
         q, shift = math.frexp(float_multiplier)
         quantized_multiplier = np.int64(round(q * (1 << 31)))
         assert quantized_multiplier <= (1 << 31)
 
         if quantized_multiplier == (1 << 31):
-            quantized_multiplier /= 2
+            quantized_multiplier //= 2
             shift += 1
 
         assert quantized_multiplier <= max_int32
 
         if shift < -31:
             shift = 0
-            quantized_multiplier = 0
+            quantized_multiplier = np.int64(0)
         return self.__adjust_mult(quantized_multiplier, shift)  # type: ignore
-- 
2.43.0


From 998e3ddbfd985438f7116cea74c1e969efc0aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 10/78] fix: wide accumulators of 16 bit fully-connected layers
 no longer overflow the rescaling

---
 .../layers/tflite/fullyconnected.py               | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 8fcb913..d76df2f 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -227,9 +227,18 @@ class FullyConnected(ILayer):
         accumulator = accumulator.astype(np.int64)
         quantized_multiplier = self.__quantized_multiplier.astype(np.int64)
         rounded = self.__round.astype(np.int64)
-        res = accumulator * quantized_multiplier + rounded
-
-        return res >> self.__shift
+        if self.__shift < 16:
+            # the output saturates long before: the product has to stay inside 64 bits
+            accumulator = np.clip(accumulator, -max_int32, max_int32)
+            res = accumulator * quantized_multiplier + rounded
+            return res >> self.__shift
+
+        # a 16 bit layer can accumulate more than 32 bits: multiply by parts
+        high, low = accumulator >> 16, accumulator & 0xFFFF
+        res = high * quantized_multiplier + (
+            (low * quantized_multiplier + rounded) >> 16
+        )
+        return res >> (self.__shift - 16)
         result = []
 
         for accumulator_value in accumulator:
-- 
2.43.0


From b72d398bb374ec409e028652cbe00ccadbb51766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 11/78] fix: fully-connected weights stored in narrow integers
 no longer wrap when their zero point is subtracted

---
 .../itcl_inference_engine/layers/tflite/fullyconnected.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index d76df2f..44d569c 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -112,7 +112,7 @@ class FullyConnected(ILayer):
             input_s, weight_s, output_s
         )
 
-        weights = weights - weight_zp
+        weights = np.asarray(weights, dtype=np.int64) - weight_zp
 
         return FullyConnected(
             input_zp,
-- 
2.43.0


From 73c9bc9a8b5fdafd393e539e3c0eda4ef7f555fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 12/78] fix: integer-only rescaling by a vanishing factor gives
 zero for arrays too

---
 inference_engine/itcl_inference_engine/util/floating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index f9c7d89..cae3b66 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -20,7 +20,7 @@ class FloatingIntegerApprox(Generic[E]):
             shift += 1
 
         if shift < -31:
-            self._shift = 0
+            shift = 0
             quantized_multiplier = 0
 
         self._q = quantized_multiplier
-- 
2.43.0


From 83487a23c430e5f44376d1a68d8be5ba1557da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 13/78] fix: integer-only rescaling of narrow integer arrays no
 longer overflows

---
 inference_engine/itcl_inference_engine/util/floating.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index cae3b66..0967989 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -33,5 +33,9 @@ class FloatingIntegerApprox(Generic[E]):
         if not self._integer_only:
             return other * self._fp  # type: ignore
 
+        if not isinstance(other, int):
+            # the product of a narrow array needs 64 bits
+            other = np.asarray(other, dtype=np.int64)  # type: ignore
+
         res = other * self._q + self._round
         return res >> self._shift  # type: ignore
-- 
2.43.0


From 08f975e5f2e867eb5dd37822af2f1ed3551a5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 14/78] fix: rectifier rescales about its input zero point,
 rounds and saturates

---
 inference_engine/itcl_inference_engine/layers/common/relu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/relu.py b/inference_engine/itcl_inference_engine/layers/common/relu.py
index e48da1e..8e9fb32 100644
--- a/inference_engine/itcl_inference_engine/layers/common/relu.py
+++ b/inference_engine/itcl_inference_engine/layers/common/relu.py
@@ -34,6 +34,6 @@ class RELU(ILayer):
 
         y = (input_.astype(np.int16)).clip(min=self.input_zp)
 
-        relu = (self.output_zp + self.k * (y - self.output_zp)).astype(np.int8)
+        relu = np.round(self.output_zp + self.k * (y - self.input_zp))
 
-        return relu
+        return relu.clip(-128, 127).astype(np.int8)
-- 
2.43.0


From 1f68c24f4028c1fec677c5bdb4e066d24d5df05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 15/78] fix: table activations accept empty tensors

---
 inference_engine/itcl_inference_engine/layers/common/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/lut.py b/inference_engine/itcl_inference_engine/layers/common/lut.py
index 5b421ad..67c9aed 100644
--- a/inference_engine/itcl_inference_engine/layers/common/lut.py
+++ b/inference_engine/itcl_inference_engine/layers/common/lut.py
@@ -18,7 +18,7 @@ class LUTActivation(IOperator):
         self.__offset = offset
         lut = lambda x: self.__LUT[x]
 
-        self.__apply_lut_vectorize = np.vectorize(lut)
+        self.__apply_lut_vectorize = np.vectorize(lut, otypes=[np.int64])
 
     @classmethod
     def from_node(cls, node: Node):
-- 
2.43.0


From 5efe9df2aae8287b6552067f8b6314b8cdcd49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 16/78] fix: softmax normalises each sample on its own and no
 longer overflows

---
 inference_engine/itcl_inference_engine/layers/onnx/softmax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..085bc21 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,6 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        # Shifted by the maximum of each sample: the result is the same, without overflows
+        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From 314ca95519d942fc361a6c7a09c11b16a4496c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 17/78] fix: LSTM starts from real zero and subtracts the
 hidden state zero point

---
 .../itcl_inference_engine/layers/itclq/lstm.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 37f146a..cc9fec3 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -270,8 +270,11 @@ class LSTM(ILayer):
         input_norm = (input_ - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state
-        hidden_state = [np.zeros((1, self._n_cells), dtype=np.int64)]
-        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)
+        # (their zero points, as both represent the real value 0)
+        hidden_state = [
+            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
+        ]
+        cell_state = np.full((1, self._n_cells), self._cell_state_zp, dtype=np.int64)
 
         inter = LSTMIntermediateTensors()
 
@@ -291,7 +294,9 @@ class LSTM(ILayer):
             for i, (recurrent_kernel, bias, M2) in enumerate(
                 zip(self._recurrent_kernel, bias_add, self._M2)
             ):
-                recurrent_add_large = (hidden_state[-1] @ recurrent_kernel) + bias
+                recurrent_add_large = (
+                    (hidden_state[-1] - self._hidden_state_zp) @ recurrent_kernel
+                ) + bias
                 recurrent_add.append(
                     (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                     .clip(
-- 
2.43.0


From d7dafb5daed7ead7e8617537ce331ba5abbf139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 18/78] fix: LSTM inputs stored in narrow integers no longer
 wrap when the zero point is subtracted

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index cc9fec3..e14374f 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -267,7 +267,7 @@ class LSTM(ILayer):
     def infer(self, input_: np.ndarray) -> np.ndarray:
 
         # batch, window_len, n_features =  -> w, b , n
-        input_norm = (input_ - self._input_zp).swapaxes(0, 1)
+        input_norm = (input_.astype(np.int64) - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state
         # (their zero points, as both represent the real value 0)
-- 
2.43.0


From 139c536e17825a417770bf8c986ebce2ba58aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 19/78] fix: LSTM clips its cell state to the cell state's own
 type

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index e14374f..6205ecc 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -193,7 +193,7 @@ class LSTM(ILayer):
         return_sequences: bool,
     ) -> LSTM:
 
-        assert cell_state_out["tensor"] is not None
+        assert cell_state["tensor"] is not None
         assert hidden_state["tensor"] is not None
 
         # Kernel
@@ -259,7 +259,7 @@ class LSTM(ILayer):
             # dtypes:
             bias_add_dtype=bias_add_nodes[0]["tensor"]["dtype"],  # type: ignore
             recurrent_add_dtype=recurrent_add_nodes[0]["tensor"]["dtype"],  # type: ignore
-            cell_state_dtype=cell_state_out["tensor"]["dtype"],
+            cell_state_dtype=cell_state["tensor"]["dtype"],
             hidden_state_dtype=hidden_state["tensor"]["dtype"],
             return_sequences=return_sequences,
         )
-- 
2.43.0


From 751a66275f2ab9f13d396ca8c48e05a6527b51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 20/78] fix: the first operator's kind, not its name, tells
 whether a network quantizes its input

---
 inference_engine/itcl_inference_engine/network/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/network/sequential.py b/inference_engine/itcl_inference_engine/network/sequential.py
index c39abeb..3473526 100644
--- a/inference_engine/itcl_inference_engine/network/sequential.py
+++ b/inference_engine/itcl_inference_engine/network/sequential.py
@@ -64,7 +64,7 @@ class SequentialNetwork(Network):
             output_node["scale"],
             output_node["zero_point"],
         )
-        self.has_quant_layers = "QUANT" in self.schema["graph"][0]["name"].upper()
+        self.has_quant_layers = "QUANT" in self.schema["graph"][0]["op_type"].upper()
         if self.has_quant_layers:
             logger.info("Quantized model detected with quantization layers")
 
-- 
2.43.0


From 4f02993c66c6272b3f95ee10f040c72099e42f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 21/78] fix: Distribution minimum and maximum are those of its
 data, not of bin edges

---
 .../itcl_quantizer/quantizer/distributions/distribution.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 91a7b11..6f9ca5f 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -345,14 +345,16 @@ class Distribution:
         It returns the minimum value in the bins.
         :return: The minimum value in the stack.
         """
-        return self.get_bin(0).min
+        items = self.__slice_distribution(self._bin_edges[0], self._bin_edges[-1])
+        return float(items[0]) if len(items) else self._bin_edges[0]
 
     def get_max(self):
         """
         It returns the maximum value of the bins.
         :return: The max value of the list
         """
-        return self.get_bin(-1).max
+        items = self.__slice_distribution(self._bin_edges[0], self._bin_edges[-1])
+        return float(items[-1]) if len(items) else self._bin_edges[-1]
 
     def get_bin_size(self):
         """
-- 
2.43.0


From cb2635ee9ed45aab09a7e1867615b801d879df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 22/78] fix: calibrating an all-zero range divided zero by zero

---
 .../itcl_quantizer/quantizer/distributions/distribution.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 6f9ca5f..f2c239f 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -146,7 +146,9 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
+        zero_point = (
+            round((min_ * q_max - max_ * q_min) / (min_ - max_)) if scale > 0 else 0
+        )
 
         if force_zp is not None:
             zero_point = force_zp
@@ -166,7 +168,6 @@ class Distribution:
 
         if scale == 0.0:
             scale = 1.0
-            zero_point = 0
 
         return scale, zero_point
 
-- 
2.43.0


From 9f1f982b9b2ee67f7780856be952bf87b4544863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 23/78] fix: a forced zero point left part of the range
 uncovered or divided by zero

---
 .../quantizer/distributions/distribution.py           | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index f2c239f..1ec7f0e 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -152,12 +152,13 @@ class Distribution:
 
         if force_zp is not None:
             zero_point = force_zp
-            scale = max(abs(min_), abs(max_))
 
-            if symmetric:
-                scale /= q_max
-            else:
-                scale /= abs(q_min)
+            # Cover both sides of the range with the codes left on each side
+            below, above = zero_point - q_min, q_max - zero_point
+            scale = max(
+                -min_ / below if below > 0 else 0.0,
+                max_ / above if above > 0 else 0.0,
+            )
 
         if force_s is not None:
             scale = force_s
-- 
2.43.0


From 9a06a31326f0f3109b27cafc5527e542ee49cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 24/78] fix: slicing a Distribution outside its range crashed
 or kept the wrong bins

---
 .../quantizer/distributions/distribution.py               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 1ec7f0e..5adcbbc 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -331,8 +331,12 @@ class Distribution:
 
                 key = slice(key.start, self.get_max(), None)
 
-            # If the slice is smaller than a bin, create a new histogram
-            if abs(key.start - key.stop) < self.get_bin_size():
+            # If the slice is smaller than a bin or misses them all, create a new histogram
+            if (
+                key.stop - key.start < self.get_bin_size()
+                or key.stop < self._bin_edges[0]
+                or key.start >= self._bin_edges[-1]
+            ):
                 return Distribution(
                     self.__slice_distribution(key.start, key.stop), bins=1
                 )
-- 
2.43.0


From 7be75b6868999fbbc9cb89fdf12522525b2131b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 25/78] fix: a bin holding a single item reported no items

---
 .../itcl_quantizer/quantizer/distributions/distribution.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 5adcbbc..4bc90cb 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -214,11 +214,11 @@ class Distribution:
         upper = self._bin_edges[idx + 1]
 
         bin: int = self._histogram[idx]
-        if bin < 2:
-            return Bin(lower, upper, bin, np.array([]))
 
         # Get a view of the sorted distribution array
         bin_content_view = self.__slice_distribution(lower, None)[:bin]
+        if bin < 2:
+            return Bin(lower, upper, bin, bin_content_view)
 
         assert (
             len(bin_content_view) == bin
-- 
2.43.0


From ba423dac4ed83e8f14fbc06e72eb03ea3cb91102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 26/78] fix: a sliced Distribution kept items of the bin after
 its last one

---
 .../quantizer/distributions/distribution.py            | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 4bc90cb..3404509 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -303,12 +303,10 @@ class Distribution:
         # Slice the Histogram
         deep_distr._histogram = self._histogram[min_bin_idx:max_bin_idx]
 
-        min_bin_val, max_bin_val = (
-            self._bin_edges[min_bin_idx],
-            self._bin_edges[max_bin_idx],
-        )
-
-        view_slice = self.__slice_distribution(min_bin_val, max_bin_val)
+        # Only the items counted in the kept bins
+        view_slice = self.__slice_distribution(self._bin_edges[min_bin_idx], None)[
+            : sum(deep_distr._histogram)
+        ]
 
         deep_distr._sorted_a = view_slice
 
-- 
2.43.0


From b37ad616b363c72065e89bab3478408c98eec2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 27/78] fix: percentile calibration took the upper tail at 1
 minus the percentage

---
 quantizer/itcl_quantizer/optimizers/fixed_percent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/fixed_percent.py b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
index b339a63..f118703 100644
--- a/quantizer/itcl_quantizer/optimizers/fixed_percent.py
+++ b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
@@ -12,7 +12,7 @@ class FixedPercentOptimizer(IOptimizer):
         bins = distribution.get_bin_edges()
         fp_array = distribution._sorted_a
         low_percent = np.percentile(fp_array, self.__percent)
-        high_percent = np.percentile(fp_array, 1 - self.__percent)
+        high_percent = np.percentile(fp_array, 100 - self.__percent)
 
         clipped_array = fp_array.clip(low_percent, high_percent)
 
-- 
2.43.0


From c54468be30d6653a4cdba5bf43519cdf26301e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 28/78] fix: noise-minimising calibration searched with the
 parameters of another type

---
 quantizer/itcl_quantizer/optimizers/scipy_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
index 60cd419..8a68e70 100644
--- a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
@@ -35,7 +35,7 @@ class ScipyOptimizer(IOptimizer):
 
             trimmed = distribution[x[0] : x[1]]
 
-            s, zp = trimmed.quantize()
+            s, zp = trimmed.quantize(Q)
             quant_arr = Q.quantize(distribution._sorted_a, zp, s)
             dequant_arr = Q.dequantize(quant_arr, zp, s)
             trimmed_quant = Distribution(dequant_arr, bins=edges)
-- 
2.43.0


From 1e0a0c029b216e1c7df9c364d612f7292d227bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 29/78] fix: noise-minimising calibration could end with a
 noisier range than the original

---
 quantizer/itcl_quantizer/optimizers/scipy_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
index 8a68e70..8222303 100644
--- a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
@@ -58,4 +58,8 @@ class ScipyOptimizer(IOptimizer):
             print(f"Original range: {min}, {max}")
             print(f"Optimized range: {lower}, {upper}")
 
+        # Keep the whole range unless the search found a less noisy one
+        if not res.fun < minimize_noise((min, max)):
+            return distribution
+
         return distribution[lower:upper]
-- 
2.43.0


From 949d2e732cac4e8dc64123f92b2646350ccbe00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 30/78] fix: dequantized tensors added the zero point after
 scaling

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..4a487d8 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -479,7 +479,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return self.quantized * self.scale + self.zero_point
+        return (self.quantized - self.zero_point) * self.scale
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From fd460a9e21982bd9378019aec1059c936b4ba71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 31/78] fix: resetting a node's scale or zero point left its
 codes stale

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 4a487d8..2da374d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -214,7 +214,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_scale(self):
         """Resets the scale to the original/constructor one."""
-        self._scale = self._og_scale
+        self.update_quant_parameters(self._og_scale, self.zero_point)
 
     @property
     def name(self) -> str:
@@ -250,7 +250,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_zp(self):
         """Resets the current zero point to the original one"""
-        self._zero_p = self._og_zero_p
+        self.update_quant_parameters(self.scale, self._og_zero_p)
 
     def update_quant_parameters(
         self, scale: float, zero_point: int, requantize: bool = True
-- 
2.43.0


From aa121be8fd148cfb194273fd0b7ba1be814d6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 32/78] fix: rounding and output updates left the lookup table
 stale

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 2da374d..0609df3 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -98,6 +98,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._create()
 
     @property
     def offset(
@@ -155,6 +156,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From b1390a10b645f1ae0095397809b8662869552e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 33/78] fix: an all-zero range is calibrated over the range of
 its histogram

---
 .../quantizer/distributions/distribution.py               | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 3404509..e16fcaa 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -139,6 +139,10 @@ class Distribution:
         """
         min_ = min(self.get_min(), 0)
         max_ = max(self.get_max(), 0)
+        if min_ == max_:
+            # All zeros: use the range numpy gives their histogram
+            min_, max_ = -0.5, 0.5
+
         q_min = q.min_value()
         q_max = q.max_value()
 
@@ -146,9 +150,7 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = (
-            round((min_ * q_max - max_ * q_min) / (min_ - max_)) if scale > 0 else 0
-        )
+        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
 
         if force_zp is not None:
             zero_point = force_zp
-- 
2.43.0


From 713771529f0b80e6badb4fa04b9be0538ce56b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 34/78] fix: a fused rectifier rectifies the calibration data
 of the following layers

---
 .../tensor_extractor/keras/layers/activations.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..cc41569 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -18,6 +18,9 @@ LUT_FUNCTIONS = ["TANH", "SIGMOID"]
 # Functions that shouldn't be included in the final model as they are not required.
 SKIP_FUNCTIONS = ["LINEAR", "SOFTMAX", "RELU", "RELU6"]
 
+# Skipped functions that are fused in the quantized range of the previous operator
+FUSED_FUNCTIONS = ["RELU", "RELU6"]
+
 # A dict with overriden functions
 OVERRIDE_FUNCTIONS: Dict[str, Callable[[Any], Any]] = {
     "SOFTMAX": lambda x: x,
@@ -54,6 +57,9 @@ def quantize_activation_node(
     """
     activation_name = activation_name.upper()
 
+    if activation_name in FUSED_FUNCTIONS:
+        return None, np.array(fn(input_data))
+
     if activation_name in SKIP_FUNCTIONS:
         return None, input_data
 
-- 
2.43.0


From 19f6794dafd3eecb56c944aca82bb0339452586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 35/78] fix: the fused rectifiers' calibrated range starts at
 zero

---
 .../tensor_extractor/keras/layers/keras_dense.py     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 9ef5a17..0a55271 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -32,8 +32,16 @@ from itcl_quantizer.tensor_extractor.tensor import (
     NodeTensorTensor,
 )
 
-FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:]
-FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:6]
+
+def _rectified(x: Distribution, max_: float | None) -> Distribution:
+    """The distribution after a rectifier. Its range starts exactly at 0, as it is the
+    range of the quantized operator that rectifies."""
+    items = np.clip(x._sorted_a, 0, max_)
+    return Distribution(items if items[-1] > 0 else [0.0, 1.0])
+
+
+FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = lambda x: _rectified(x, None)
+FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: _rectified(x, 6)
 
 
 def fused_relu(activation: str):
-- 
2.43.0


From f1fe5c228d26ba90ab68c44c30229c1b4cbe86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 36/78] fix: a dense layer's bias-add node described the
 layer's input

---
 .../tensor_extractor/keras/layers/keras_dense.py          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 0a55271..ae2b356 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -229,7 +229,7 @@ class KerasDense(AbstractLayer):
         return self.__quantize_bias_from_params(bias_s, bias_zp)
 
     def __quantize_bias_add_from_params(
-        self, float_input: np.ndarray, scale: float, zp: int
+        self, float_output: np.ndarray, scale: float, zp: int
     ) -> NodeTensorTensor:
         return (
             Node(
@@ -238,7 +238,7 @@ class KerasDense(AbstractLayer):
                 f"{self.__layer_name}/BiasAdd",
                 self.__q_bias_add,
             )
-            .with_tensor(float_input)
+            .with_tensor(float_output)
             .exclude_batch_dimension()
             .exclude_tensor()
         )
@@ -268,7 +268,9 @@ class KerasDense(AbstractLayer):
 
         out_s, out_zp = out_dist.quantize(self.__q_bias_add)
         return (
-            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
+            self.__quantize_bias_add_from_params(
+                np.array(float_output), out_s, out_zp
+            ),
             float_output,
         )
 
-- 
2.43.0


From 681b12440eb63f5e16b2edc7dc5906badb3fd1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 37/78] fix: an activation table's entries are codes of the
 output node's type

---
 .../tensor_extractor/keras/layers/activations.py |  2 +-
 .../itcl_quantizer/tensor_extractor/tensor.py    | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index cc41569..487dd74 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -85,7 +85,7 @@ def quantize_activation_node(
     # Create and save the LUT (if possible)
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        input_node.with_lut(fn, out_s, out_zp)
+        input_node.with_lut(fn, out_s, out_zp, out_quant=quantization)
 
     # Create the output node
     output_node = (
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 0609df3..8659a2b 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -36,6 +36,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         output_s: float,
         output_zp: int,
         reduced_depth: int = 3,
+        output_quant: Quantization | None = None,
     ) -> None:
         """_summary_
 
@@ -47,6 +48,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
             output_s (float): Output Scale (Calculated from the distribution of the activated data)
             output_zp (int): Output ZP (...)
             reduced_depth (int, optional): Depth of the Reduced LUT. Defaults to 3.
+            output_quant (Quantization, optional): Quantization of the activated values. Defaults to quant.
         """
         self._input_s = input_s
         self._input_zp = input_zp
@@ -54,6 +56,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._output_zp = output_zp
         self._reduced_depth = reduced_depth
         self._quant = quant
+        self._output_quant = output_quant or quant
         self._fn = fn
 
         self._rounding_policy = get_base_rounding(
@@ -63,14 +66,12 @@ class NodeLUT(ISerializable, IRoundingPolicy):
 
     def _create(self):
         """Create the LUT"""
-        self._LUT = self._quant.create_LUT(
-            self._fn,
-            self._input_s,
-            self._input_zp,
-            self._output_s,
+        self._LUT = self._output_quant.quantize(
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
             self._output_zp,
+            self._output_s,
             rounding_policy=self._rounding_policy,
-        )
+        ).tolist()
         self._offset = -self._quant.min_value()
         self._quant = self._quant
 
@@ -289,6 +290,7 @@ class NodeTensorBase(ISerializable):
         out_scale: float,
         out_zp: int,
         reduced_depth=3,
+        out_quant: Quantization | None = None,
     ) -> Self:
         """Adds a LUT to the node
 
@@ -297,6 +299,7 @@ class NodeTensorBase(ISerializable):
             out_scale (float): Output Node Scale
             out_zp (int): Output Node Zero Point
             reduced_depth (int, optional): Reduced Depth. Defaults to 3, 0 to disable.
+            out_quant (Quantization, optional): Output Node quantization. Defaults to the node's.
 
         Returns:
             Self: _description_
@@ -309,6 +312,7 @@ class NodeTensorBase(ISerializable):
             out_scale,
             out_zp,
             reduced_depth,
+            out_quant,
         )
         return self
 
-- 
2.43.0


From 88fc1ecd6232ce772bc9c3cc3620f29a4182ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 38/78] fix: the LSTM input gate was calibrated on all gates of
 the first steps

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..44f96fd 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -419,7 +419,7 @@ class KerasLSTM(AbstractLayer):
         input_gate_op, _ = quantize_activation_node(
             tf.math.sigmoid,
             ACTIVATION_NAMES.SIGMOID,
-            recurrent_add[: self._n_units],
+            recurrent_add[:, :, : self._n_units],
             self._q_activation,
             input_gate,
         )
-- 
2.43.0


From 262c08b8ff132136aeef2e87812405645e991dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 39/78] fix: the LSTM bias-add state was the recurrent-add one

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 44f96fd..7bb1e6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -688,7 +688,7 @@ class LSTM:
         return LSTMResult(
             hidden_state=np.array(h[1:]),  # Remove the initial scale
             cell_state=np.array(previous_c),
-            bias_add=np.array(previous_recurrent_add),
+            bias_add=np.array(previous_bias_add),
             recurrent_add=np.array(previous_recurrent_add),
             input_gate=np.array(previous_i),
             forget_gate=np.array(previous_f),
-- 
2.43.0


From bff91f8fbbf2f19c40176170fae2b299349a6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 40/78] fix: an LSTM's quantization result named the float
 layer as its quantizer

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7bb1e6d..6e9d186 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
-- 
2.43.0


From 820f90c0ae49debda2589cdd0811dfc630a3ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 41/78] fix: optimising the rounding of an LSTM network failed
 for lack of its input

---
 .../tensor_extractor/keras/layers/keras_lstm.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 6e9d186..50f54b8 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -53,6 +53,7 @@ class KerasLSTM(AbstractLayer):
         self._n_units: int = layer.units
 
         self._return_sequences: bool = layer.return_sequences
+        self._last_float_input: NPFP32 | None = None
 
         self._q_kernel = Quantization(kernel_dtype)
         self._q_recurrent_kernel = Quantization(recurrent_kernel_dtype)
@@ -382,6 +383,7 @@ class KerasLSTM(AbstractLayer):
             QuantizationResult: The quantization result of the LSTM layer
         """
         input_data = input_result.input_data
+        self._last_float_input = input_data
         input_node = input_result.out_node
 
         if input_node is None:
@@ -561,7 +563,13 @@ class KerasLSTM(AbstractLayer):
             ],
         )
 
-        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
+        AdaRound(
+            optimizer_factory(),
+            cost_fn,
+            self,
+            results,
+            float_input=self._last_float_input,
+        ).round(tensors)
 
 
 class MinMaxList(list):
-- 
2.43.0


From efb9e7d15c12c8753e75113c4d924ef144180ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 42/78] fix: an LSTM layer without bias could not be quantized

---
 .../tensor_extractor/keras/layers/keras_lstm.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 50f54b8..8440760 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -29,6 +29,12 @@ from .activations import quantize_activation_node
 LSTM_GATES = ["input", "forget", "cell", "output"]
 
 
+def _get_bias(layer) -> NPFP32:
+    """The bias of the four gates, zeros if the layer has none"""
+    weights = layer.get_weights()
+    return np.array(weights[2] if len(weights) > 2 else [0.0] * (4 * layer.units))
+
+
 class KerasLSTM(AbstractLayer):
     """Keras LSTM Quantization Class"""
 
@@ -49,7 +55,7 @@ class KerasLSTM(AbstractLayer):
         self._layer_name = layer.name
         self._K: NPFP32 = np.array(layer.get_weights()[0])  # kernel
         self._U: NPFP32 = np.array(layer.get_weights()[1])  # recurrent_kernel
-        self._B: NPFP32 = np.array(layer.get_weights()[2])  # bias
+        self._B: NPFP32 = _get_bias(layer)
         self._n_units: int = layer.units
 
         self._return_sequences: bool = layer.return_sequences
@@ -609,7 +615,7 @@ class LSTM:
         self._layer = layer
         self._W = np.array(layer.get_weights()[0])
         self._U = np.array(layer.get_weights()[1])
-        self._b = np.array(layer.get_weights()[2])
+        self._b = _get_bias(layer)
         self._n_units = layer.units
 
         self._return_sequences = layer.return_sequences
-- 
2.43.0


From f20464bb34c0c23f2517ef4010956b7f2cacdd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 43/78] fix: exported networks declared MNIST's input and
 output shapes

---
 quantizer/itcl_quantizer/util/network.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/network.py b/quantizer/itcl_quantizer/util/network.py
index da7849c..0f7ab1e 100644
--- a/quantizer/itcl_quantizer/util/network.py
+++ b/quantizer/itcl_quantizer/util/network.py
@@ -61,6 +61,8 @@ class Network(ISerializable):
             JsonNetwork
         """
 
+        first, last = self._layers[0], self._layers[-1]
+
         return {  # type: ignore
             "engine": "tflite",
             "generated_at": str(datetime.now()),
@@ -72,7 +74,7 @@ class Network(ISerializable):
                     "scale": None,
                     "zero_point": None,
                     "tensor": {
-                        "shape": [1, 784],
+                        "shape": self._shape(first.outputs),
                         "dtype": "FLOAT32",
                         "name": "INPUT",
                         "tensor": None,
@@ -84,7 +86,7 @@ class Network(ISerializable):
                     "scale": None,
                     "zero_point": None,
                     "tensor": {
-                        "shape": [1, 10],
+                        "shape": self._shape(last.outputs or last.inputs),
                         "dtype": "FLOAT32",
                         "name": "OUTPUT",
                         "tensor": None,
@@ -93,6 +95,12 @@ class Network(ISerializable):
             ],
         }
 
+    @staticmethod
+    def _shape(nodes: list[NodeTensorBase]) -> list[int]:
+        """Shape of one sample of the data of the given nodes"""
+        tensor = nodes[-1].as_json()["tensor"]
+        return [1, *tensor["shape"]] if tensor else [1]
+
     def as_sequential_network(self) -> SequentialNetwork:
         """Return the network as a sequential network that can be infered.
 
-- 
2.43.0


From f2e478348a5740d24b3418f94f2518d60a106bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 44/78] fix: an LSTM's output node took the time steps for its
 batch

---
 .../tensor_extractor/keras/layers/keras_lstm.py          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 8440760..4efb990 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -263,11 +263,12 @@ class KerasLSTM(AbstractLayer):
             .exclude_tensor()
         )
 
-    def _quantize_hidden_state(self, hidden_state: NPFP32) -> Node:
+    def _quantize_hidden_state(self, hidden_state: NPFP32, result: NPFP32) -> Node:
         """Quantizes the Hidden State and Output Vector of the Network
 
         Args:
             hidden_state (NPFP32): Accumulated hidden state of the LSTM network
+            result (NPFP32): Output of the LSTM, batch first
 
         Returns:
             Node: _description_
@@ -275,7 +276,7 @@ class KerasLSTM(AbstractLayer):
         scale, zp = self._get_scale_zp(hidden_state, self._q_hidden_state)
         return (
             Node(scale, zp, f"{self._layer_name}/Output", self._q_hidden_state)
-            .with_tensor(hidden_state)
+            .with_tensor(result)
             .exclude_batch_dimension()
             .exclude_tensor()
         )
@@ -410,7 +411,9 @@ class KerasLSTM(AbstractLayer):
         bias_nodes = self._quantize_bias(input_node.scale, kernel_nodes)
 
         # Quantize the intermediate Nodes
-        hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)
+        hidden_node = self._quantize_hidden_state(
+            lstm_states.hidden_state, lstm_states.result
+        )
 
         bias_add_nodes = self._quantize_bias_add(
             bias_add, recurrent_kernel_nodes, hidden_node.scale
-- 
2.43.0


From 8ee76db00da8b845386790dee7c8f72c034b354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 45/78] fix: updating an activation's output parameters left
 its table stale

---
 .../tensor_extractor/keras/layers/activations.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 487dd74..200b0db 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -95,6 +95,12 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    if lut := input_node.LUT:
+        # On output scale update: Update the entries of the table
+        output_node.on_quant_param_update.append(
+            lambda node: lut._update_out_qparams(node.scale, node.zero_point)
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
-- 
2.43.0


From d05ee1620d562ac30a3ea557590d438d9bb80f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 46/78] fix: the parameter annealer evaluated and left
 parameters other than the ones it chose

---
 .../itcl_quantizer/equalizers/param_equalizer/annealer.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
index 663ac02..32141c3 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
@@ -41,8 +41,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             _type_: _description_
         """
         best, cost = super().anneal()
+        self.copy(self._tensors, best, requantize=True)
 
-        return best, cost
+        return self._tensors, cost
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
@@ -51,7 +52,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             float: loss
         """
 
-        energy: float = self._cost_fn(self.state)
+        # The state is a copy of the tensors after the first rejected move
+        self.copy(self._tensors, self.state, requantize=True)
+        energy: float = self._cost_fn(self._tensors)
         return energy
 
     def optimize(self) -> tuple[list[NodeTensorBase], float]:
-- 
2.43.0


From 800375d1fe1ebba019bf2b34a656fa5ba91280a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 47/78] fix: the rounding annealer discarded decisions with a
 loss of zero

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..d5d71c2 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -128,7 +128,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From cf1a950f85732f9e4bf2311a8c8fa64f7ecaf5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 48/78] fix: the rounding annealer only tried as many decisions
 as a tensor has rows

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index d5d71c2..e395422 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -68,7 +68,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
         new_state = []
 
         while True:
-            new_permutation = (*[randrange(start=0, stop=len(t)) for t in self.state],)
+            new_permutation = (*[randrange(start=0, stop=t.size) for t in self.state],)
             if not new_permutation in self._past_permutations:
                 break
 
-- 
2.43.0


From cec0688de4271c49aa6f71a3b5c7e6caffc6a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 49/78] fix: rounding decisions were taken in another precision
 than the codes

---
 .../equalizers/adaround/irounding_policy.py              | 9 +++++++--
 quantizer/itcl_quantizer/tensor_extractor/tensor.py      | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
index 3d05b3d..2cfdb85 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
@@ -20,14 +20,19 @@ class IRoundingPolicy(Protocol):
         ...
 
 
-def get_base_rounding(tensor: np.ndarray, scale: float) -> np.ndarray:
+def get_base_rounding(
+    tensor: np.ndarray, scale: float, zero_point: int = 0
+) -> np.ndarray:
     """Get the Round To Nearest rounding policy of a float tensor
 
     Args:
         tensor (np.ndarray): Tensor to get the policy from.
+        scale (float): Scale the tensor is quantized with.
+        zero_point (int): Zero point the tensor is quantized with.
 
     Returns:
         np.ndarray: _description_
     """
-    tensor = tensor / scale
+    # Same arithmetic as the quantization, or both could floor to different codes
+    tensor = np.asarray(tensor, dtype=np.float64) / scale + zero_point
     return np.where(np.floor(tensor + 0.5) > tensor, 1, 0)
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 8659a2b..8d6cae7 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -60,7 +60,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._fn = fn
 
         self._rounding_policy = get_base_rounding(
-            quant.float_activation(fn, input_s, input_zp), output_s
+            quant.float_activation(fn, input_s, input_zp), output_s, output_zp
         )
         self._create()
 
@@ -396,7 +396,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         self.__dict__ = node.__dict__.copy()
         self._fp_tensor = fp_tensor
         self._rounding_policy = self._og_rounding_policy = get_base_rounding(
-            fp_tensor, self.scale
+            fp_tensor, self.scale, self.zero_point
         )
         self._quantized = self.quant.quantize(fp_tensor, self.zero_point, self.scale)
 
-- 
2.43.0


From 263ae93e82613c58c870a214c275b68d7901d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 50/78] fix: dequantizing wide codes wrapped around 32 bits

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 8d6cae7..aa9edd9 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -485,7 +485,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return (self.quantized - self.zero_point) * self.scale
+        return self.quant.dequantize(self.quantized, self.zero_point, self.scale)
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From 6dab33e153a0fccdcc672eecdf3c06e7cc7d283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 51/78] fix: the QUBO rounding compared pre-activation outputs
 with activated ones

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..454c9b6 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -66,9 +66,8 @@ class QUBOAnnealer(IRoundOptimizer):
         kernel, bias = dense_layer.get_weights()
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
+        # The rounding acts before the activation, whose output the results hold
+        output_f = input_f @ np.array(kernel).T + np.array(bias)
          
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
-- 
2.43.0


From 31028736584d6faa995f5c48e8e17a728cd07560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 52/78] fix: the TFLite preset left layer-specific
 configurations asymmetric

---
 quantizer/itcl_quantizer/config/models/keras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantizer/itcl_quantizer/config/models/keras.py b/quantizer/itcl_quantizer/config/models/keras.py
index e5baa00..661399c 100644
--- a/quantizer/itcl_quantizer/config/models/keras.py
+++ b/quantizer/itcl_quantizer/config/models/keras.py
@@ -19,6 +19,10 @@ class Init(metaclass=ABCMeta):
         for attribute in self.__dict__.values():
             if isinstance(attribute, Init):
                 attribute.tflite()
+            elif isinstance(attribute, dict):
+                for value in attribute.values():
+                    if isinstance(value, Init):
+                        value.tflite()
 
 
 class BaseModel(BaseModel_, Init):
-- 
2.43.0


From d0b1a44788ea315496ad5ed9f5e6bb00906c588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 53/78] fix: the KL divergence overwrote the histograms it
 compared

---
 quantizer/itcl_quantizer/quantizer/metrics/noise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/metrics/noise.py b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
index edd3a39..5c823b3 100644
--- a/quantizer/itcl_quantizer/quantizer/metrics/noise.py
+++ b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
@@ -6,8 +6,9 @@ from scipy.special import kl_div
 
 def kl_divergence(p: np.ndarray, q: np.ndarray) -> float:
 
-    p[p == 0] = 1e-10
-    q[q == 0] = 1e-10
+    # Empty bins count as nearly empty. The histograms of the caller are left alone
+    p = np.where(p == 0, 1e-10, p)
+    q = np.where(q == 0, 1e-10, q)
     return kl_div(p, q).sum()
 
 
-- 
2.43.0


From 723d3d38674cf210a31df4a7a9f0d5c9922ee5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 54/78] fix: the cross entropy of histograms with empty bins
 was not a number

---
 quantizer/itcl_quantizer/quantizer/metrics/noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantizer/itcl_quantizer/quantizer/metrics/noise.py b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
index 5c823b3..98d8109 100644
--- a/quantizer/itcl_quantizer/quantizer/metrics/noise.py
+++ b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
@@ -17,4 +17,5 @@ def mse(p: np.ndarray, q: np.ndarray) -> float:
 
 
 def cross_entropy(p: np.ndarray, q: np.ndarray) -> float:
+    q = np.where(q == 0, 1e-10, q)  # an empty bin has no logarithm
     return -np.sum(p * np.log(q))  # typing: ignore # typing: ignore
-- 
2.43.0


From 212e73311e79146417df3bea8f77ca167530be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 55/78] fix: repeated values counted as collisions of quantized
 tensors

---
 quantizer/itcl_quantizer/util/collisions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/collisions.py b/quantizer/itcl_quantizer/util/collisions.py
index fdcf9ba..77d0727 100644
--- a/quantizer/itcl_quantizer/util/collisions.py
+++ b/quantizer/itcl_quantizer/util/collisions.py
@@ -16,7 +16,10 @@ def calc_collisions(fp_tensor: np.ndarray, q_tensor: np.ndarray, epsilon: int) -
     """
     rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor
 
-    _, counts_fp = np.unique(rounded_fp, return_counts=True)
-    _, counts_q = np.unique(q_tensor, return_counts=True)
+    # The distinct floating point values behind every quantized one
+    pairs = np.stack([np.ravel(q_tensor), np.ravel(rounded_fp)]).astype(np.float64)
+    codes = np.unique(pairs, axis=1)[0]
 
-    return (counts_q * (counts_q != 1)).sum() - (counts_fp - 1).sum()
+    _, counts = np.unique(codes, return_counts=True)
+
+    return (counts * (counts != 1)).sum()
-- 
2.43.0


From f0e962e85b1fd423b0a7c658a72d4449cab891de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 56/78] fix: bias-free dense layers were exported with a bias
 per input

---
 model_converters/keras2json/keras2json/layers/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..4e00b88 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[-1])
 
     def _dense(self) -> Operator :
 
-- 
2.43.0


From f27a4a0e2a5c8977273c0cf4a6f59c269535f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 57/78] fix: bias-free convolutions could not be exported

---
 model_converters/keras2json/keras2json/layers/conv2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 6df1aac..37673e0 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -13,7 +13,7 @@ class Conv2d(ILayer):
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
-        B = weights[1]
+        B = weights[1] if len(weights) > 1 else np.zeros(W.shape[-1])
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
 
-- 
2.43.0


From 1b7c2f3d0b4a5acd7462a91ddfda73cdec28a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 58/78] fix: bias-free LSTM layers could not be exported

---
 model_converters/keras2json/keras2json/layers/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 5512a58..bff745e 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -30,7 +30,7 @@ class LSTM(ILayer):
 
         W_full = weights[0].T
         U_full = weights[1].T
-        B_full = weights[2]
+        B_full = weights[2] if len(weights) > 2 else np.zeros(4 * n_units)
 
         # print(U_full.shape)
         # print(B_full.reshape())
-- 
2.43.0


From 6ea5b4e7c852ce7d1e25c66ff47f6f4b2b8e4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 59/78] fix: unsupported layers were exported as the layers
 their names contain

---
 model_converters/keras2json/keras2json/_convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/model_converters/keras2json/keras2json/_convert.py b/model_converters/keras2json/keras2json/_convert.py
index 68b8b6b..79f3913 100644
--- a/model_converters/keras2json/keras2json/_convert.py
+++ b/model_converters/keras2json/keras2json/_convert.py
@@ -11,15 +11,15 @@ from keras2json import layers
 def _from_layer(keras_layer) -> list[Operator]:
     name = str(keras_layer.__class__.__name__).upper()
 
-    if "DENSE" in name:
+    if name == "DENSE":
         builder = layers.Dense
-    elif "LSTM" in name:
+    elif name == "LSTM":
         builder = layers.LSTM
-    elif "CONV2D" in name:
+    elif name == "CONV2D":
         builder = layers.Conv2d
     elif "FLATTEN" in name:
         builder = layers.Flatten
-    elif "MAXPOOLING2D" in name:
+    elif name == "MAXPOOLING2D":
         builder = layers.MaxPool2D
     elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:
         return []
-- 
2.43.0


From 52a63fd90d49e1654d54fc5c41389ee076c5ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 60/78] fix: remote inference failed below one batch and
 exceeded the batch limit above it

---
 demo/demo_lib/demo_lib/fpga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..ccf0928 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -57,7 +57,8 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        # As few batches as the maximum size allows
+        n_splits = -(-len(x) // self._max_batch_size)
 
         chunk_resuts = []
 
-- 
2.43.0


From 607730b69e87295645803debea552658a554502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 61/78] fix: a late reply was taken for the result of a later
 remote inference

---
 demo/demo_lib/demo_lib/fpga.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index ccf0928..a4077dd 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 import json
 import logging
 import threading
@@ -47,6 +48,9 @@ class InferFPGAMQTT(InferFPGA):
         # Async result synchronization
         self._result: np.ndarray | None = None
         self._result_event = threading.Event()
+        self._result_lock = threading.Lock()
+        self._request_ids = itertools.count()
+        self._request_id = ""  # id of the batch whose result is awaited
         self._max_batch_size = max_batch_size
         self._timeout = timeout
 
@@ -62,12 +66,14 @@ class InferFPGAMQTT(InferFPGA):
 
         chunk_resuts = []
 
-        for i, chunk in enumerate(np.array_split(x, n_splits)):
+        for chunk in np.array_split(x, n_splits):
             # Clear the result sync event & buffer
-            self._result_event.clear()
-            self._result = None
+            with self._result_lock:
+                self._request_id = str(next(self._request_ids))
+                self._result_event.clear()
+                self._result = None
 
-            input_ = Input.from_numpy(str(i), chunk)
+            input_ = Input.from_numpy(self._request_id, chunk)
             input_json = json.dumps({"input": input_.as_kv()})
             self._client.publish(self._infer_topic, input_json, qos=self._qos)
             was_timeout = not self._result_event.wait(timeout=self._timeout)
@@ -82,8 +88,12 @@ class InferFPGAMQTT(InferFPGA):
     def on_result(self, _client: Client, _: None, message: MQTTMessage) -> None:
         res_dict = json.loads(message.payload.decode("utf-8"))
         res = Output.from_kv(res_dict)
-        self._result = res.as_numpy()
-        self._result_event.set()  # notify that a result is ready
+        result = res.as_numpy()
+        with self._result_lock:
+            if str(res.id) != self._request_id:
+                return  # late result of a batch that is no longer awaited
+            self._result = result
+            self._result_event.set()  # notify that a result is ready
 
 
 class LossFPGA(InferFPGA):
-- 
2.43.0


From 918204261e57422368fedbd51405e84bdb082067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 62/78] fix: TFLite operators with an absent optional input
 could not be converted

---
 .../tflite2json/itcl_tflite2json/operators/BaseOperator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
index aab81d2..4635805 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
@@ -1,4 +1,4 @@
-from typing import Dict, List
+from typing import Dict, List, Optional
 import tensorflow.lite as tfl
 from tflite import Operator, Model, Tensor
 from itcl_quantization.json.specification import (
@@ -36,7 +36,8 @@ class BaseOperator:
         subgraph = self.__model.Subgraphs(0)
         operator_type = self.__model.OperatorCodes(operator.OpcodeIndex())
         operator_type_name = layers2str(operator_type.BuiltinCode())
-        inputs: List[Tensor] = [subgraph.Tensors(i) for i in operator.InputsAsNumpy()]  # type: ignore
+        # An index of -1 stands for an optional input that is not there (e.g. the bias)
+        inputs: List[Optional[Tensor]] = [subgraph.Tensors(i) if i >= 0 else None for i in operator.InputsAsNumpy()]  # type: ignore
         outputs: List[Tensor] = [
             subgraph.Tensors(i) for i in operator.OutputsAsNumpy()
         ]  # type: ignore
@@ -49,6 +50,8 @@ class BaseOperator:
                 self.build_from_node(
                     self.__interpreter, i, self.__model, self.__layer_name2idx
                 )
+                if i is not None
+                else {"scale": None, "zero_point": None, "tensor": None}
                 for i in inputs
             ],
             "outputs": [
-- 
2.43.0


From 6ef568b645429066006821adaeb537c655614f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 63/78] fix: the inference engine rejected dense layers without
 a bias

---
 .../layers/tflite/fullyconnected.py                   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 44d569c..775a1c9 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -147,9 +147,14 @@ class FullyConnected(ILayer):
         weight_zp = operator["inputs"][1]["zero_point"]
         weights = np.array(operator["inputs"][1]["tensor"]["tensor"] or [])  # type: ignore
 
-        bias_s = operator["inputs"][2]["scale"]
-        bias_zp = operator["inputs"][2]["zero_point"]
-        bias = np.array(operator["inputs"][2]["tensor"]["tensor"] or [])  # type: ignore
+        has_bias = len(operator["inputs"]) > 2 and operator["inputs"][2]["tensor"]
+        if has_bias:
+            bias_s = operator["inputs"][2]["scale"]
+            bias_zp = operator["inputs"][2]["zero_point"]
+            bias = np.array(operator["inputs"][2]["tensor"]["tensor"] or [])  # type: ignore
+        else:
+            bias_s, bias_zp = None, 0
+            bias = np.zeros(len(weights), dtype=np.int64)
 
         out_s = operator["outputs"][0]["scale"]
         out_zp = operator["outputs"][0]["zero_point"]
-- 
2.43.0


From 594d99c375501f6e02de7881672a581a0ea15dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 64/78] fix: per-channel TFLite tensors could not be converted

---
 .../itcl_tflite2json/operators/BaseOperator.py         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
index 4635805..4121a8d 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/BaseOperator.py
@@ -101,12 +101,14 @@ class BaseOperator:
         # If there ar no quantization params: skip
         if q is not None:
 
-            s, zp = q.ScaleAsNumpy() or 0, q.ZeroPointAsNumpy() or 0
+            s, zp = np.ravel(q.ScaleAsNumpy()), np.ravel(q.ZeroPointAsNumpy())
 
-            if isinstance(s, np.ndarray) or isinstance(zp, np.ndarray):
-                scale, zero_point = float(s), int(zp)
-            else:
+            if not s.any():
                 scale, zero_point = None, None
+            elif s.size > 1:  # per-channel quantization
+                scale, zero_point = s.tolist(), zp.tolist()
+            else:
+                scale, zero_point = float(s[0]), int(zp[0])
         else:
             scale = None
             zero_point = None
-- 
2.43.0


From e5f3c91f32e274f43c4cca1324b615b4f44c231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 65/78] fix: the TFLite converter overflowed on logistic
 operators with wide inputs

---
 .../tflite2json/itcl_tflite2json/operators/SigmoidLUT.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py b/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
index e2985bc..912eb48 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
@@ -11,7 +11,7 @@ from itcl_quantization.quantization.lut import ReducedLUT
 from itcl_tflite2json.util.settings import settings
 
 # A function that takes in a value (x) and returns the sigmoid of that value.
-sigmoid_fn = lambda x: 1 / (1 + math.exp(-x))
+sigmoid_fn = lambda x: 1 / (1 + math.exp(-x)) if x > 0 else math.exp(x) / (1 + math.exp(x))
 
 class SigmoidLUT(BaseOperator):
     def __init__(
-- 
2.43.0


From d9534f14f1220c75056acae75920c461d9d5c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 66/78] fix: ONNX operators reading the first described tensor
 could not be converted

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From b21dbd5924a9898a424f18c18c23d53ff3251d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 67/78] fix: converted ONNX models declared their inputs as
 their outputs

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..0b7079c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -29,7 +29,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From a4a6820683c735236abe154096afac232cf8b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 68/78] fix: the ONNX converter overflowed on sigmoids with
 wide inputs

---
 .../onnx2json/helpers/nodeBuilders/QLinearSigmoid.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py b/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
index 5764176..577e3ef 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
@@ -22,7 +22,7 @@ class QLinearSigmoid(IBuilder):
         )
 
 
-sigmoid = lambda x: 1 / (1 + math.exp(-x))
+sigmoid = lambda x: 0.5 * (1 + math.tanh(0.5 * x))  # Does not overflow
 
 
 class SigmoidLUT(IBuilder):
-- 
2.43.0


From c451dfa277278431422417edfc84af260c64e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 69/78] fix: converting the ONNX models again could empty the
 converted ones

---
 model_converters/onnx2json/2json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 0b7079c..20c798d 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -12,6 +12,8 @@ def main():
 
 
     for model in os.listdir("../../models/mnist/uint8"):
+        if not model.endswith(".onnx"):
+            continue
         input = os.path.join("../../models/mnist/uint8", model)
         output = input.replace("onnx", "json")
 
-- 
2.43.0


From 91174a13bf7dd79de32680a6c68ee05e84a37952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 70/78] fix: ONNX initializers were only read in one of their
 encodings and as unsigned

---
 .../helpers/nodeBuilders/buildBaseNode.py     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 8d604c1..5f2ff07 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -3,6 +3,19 @@ from itcl_quantization.json.specification import Node, Tensor, TensorW
 import numpy as np
 
 
+# Numpy types of the ONNX element types (TensorProto.DataType) of a quantized model
+_DTYPES = {1: "float32", 2: "uint8", 3: "int8"}
+
+
+def initializer_to_array(init) -> np.ndarray:
+    """Values of an initializer, stored either as raw bytes or in its typed fields"""
+    dtype = _DTYPES[init.data_type]
+    if len(init.raw_data):
+        return np.frombuffer(init.raw_data, dtype=dtype)
+    data = init.float_data if dtype == "float32" else init.int32_data
+    return np.array(list(data), dtype=dtype)
+
+
 def build_quantized_node(
     model,
     tensor_id: Union[str, None],
@@ -37,7 +50,8 @@ def build_quantized_node(
     # If there is a tensor, fill out the tensor details
     if tensor_id is not None:
         input_init = initializers[id2idx[tensor_id]]
-        input_arr = np.frombuffer(input_init.raw_data, dtype=dtype)
+        input_arr = initializer_to_array(input_init)
+        dtype = str(input_arr.dtype)
         input_arr = np.reshape(input_arr, input_init.dims)
 
         if transpose:
@@ -48,8 +62,8 @@ def build_quantized_node(
         tensor = None
 
     return {
-        "scale": float(scale_init.float_data[0]),
-        "zero_point": int(zerop_init.int32_data[0]),
+        "scale": float(initializer_to_array(scale_init)[0]),
+        "zero_point": int(initializer_to_array(zerop_init)[0]),
         "tensor": tensor,
     }
 
-- 
2.43.0


From 6e41f1f7664c3c42c9c2bb2ec140f0502de33df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 71/78] fix: fixed-width integers of a numpy type could not be
 computed with

---
 core/itcl_quantization/quantization/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 02d4b0a..8f1bb08 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -217,8 +217,8 @@ class Dtype:
 
         if isinstance(dtype, str):
             self.dtype = np.dtype(dtype.lower())
-        else:
-            self.dtype = dtype
+        elif dtype is not None:
+            self.dtype = np.dtype(dtype)
         if dtype is None:
             dtype = np.array(value).dtype
             self.dtype = dtype
-- 
2.43.0


From 69ce126231242090f71f27a6b4bce21f4b9a23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 72/78] fix: operators whose name merely contains a supported
 one were run as that one

LOG_SOFTMAX was applied as SOFTMAX and the float FULLY_CONNECTED_F as FULLY_CONNECTED.
---
 .../itcl_inference_engine/util/check_layer_type.py     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/util/check_layer_type.py b/inference_engine/itcl_inference_engine/util/check_layer_type.py
index 9fd9db5..fc199b0 100644
--- a/inference_engine/itcl_inference_engine/util/check_layer_type.py
+++ b/inference_engine/itcl_inference_engine/util/check_layer_type.py
@@ -1,7 +1,7 @@
 class LayerType:
     @staticmethod
     def is_fully_connected(layerCode: str):
-        return "FULLY_CONN" in layerCode.upper()
+        return "FULLY_CONNECTED" == layerCode.upper()
 
     @staticmethod
     def is_tanh(layerCode: str):
@@ -13,11 +13,11 @@ class LayerType:
 
     @staticmethod
     def is_logistic(layerCode: str):
-        return "LOGISTIC" in layerCode.upper()
+        return "LOGISTIC" == layerCode.upper()
 
     @staticmethod
     def is_softmax(layerCode: str):
-        return "SOFTMAX" in layerCode.upper()
+        return "SOFTMAX" == layerCode.upper()
 
     @staticmethod
     def is_quantize(layerCode: str):
@@ -25,11 +25,11 @@ class LayerType:
 
     @staticmethod
     def is_dequantize(layerCode: str):
-        return "DEQUANTIZE" in layerCode.upper()
+        return "DEQUANTIZE" == layerCode.upper()
 
     @staticmethod
     def is_sigmoidLUT(layerCode: str):
-        return "SIGMOIDLUT" in layerCode.upper()
+        return "SIGMOIDLUT" == layerCode.upper()
 
     @staticmethod
     def is_relu(layerCode: str):
-- 
2.43.0


From 6326f3d75a119c3a3a7cb6ee11d579c69295de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 73/78] fix: floor the bias with the bias scale in the QUBO's d
 term

The bias terms of both formulations are written for any bias scale, but the constant part
floored the bias with the product of the kernel and input scales: with another bias scale the
objective was not the reconstruction error.
---
 quantizer/itcl_quantizer/equalizers/adaround/Calculationsint.py | 2 +-
 quantizer/itcl_quantizer/equalizers/adaround/qubocalculation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/Calculationsint.py b/quantizer/itcl_quantizer/equalizers/adaround/Calculationsint.py
index 8b3bb4e..26cdbc7 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/Calculationsint.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/Calculationsint.py
@@ -70,7 +70,7 @@ class ADAInt:
         return:
         d term 
         '''
-        dc=self.output/(self.kernel_scale*self.input_scale)-(self.bias_scale/(self.kernel_scale*self.input_scale))*np.floor(self.bias/(self.kernel_scale*self.input_scale))  
+        dc=self.output/(self.kernel_scale*self.input_scale)-(self.bias_scale/(self.kernel_scale*self.input_scale))*np.floor(self.bias/self.bias_scale)  
         ds=np.dot(np.floor(self.kernel/self.kernel_scale),self.input_round_calculation().T)   
         d=dc-ds.T
         return d
diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubocalculation.py b/quantizer/itcl_quantizer/equalizers/adaround/qubocalculation.py
index ff2f8c3..3e599dd 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubocalculation.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubocalculation.py
@@ -54,7 +54,7 @@ def dterm_Calculation(Bias,Kernel,InputRound,Output,qkernel_scale,qinput_scale,q
     return:
     d term 
     '''
-    dc=Output/(qkernel_scale*qinput_scale)-(qbias_scale/(qkernel_scale*qinput_scale))*np.floor(Bias/(qkernel_scale*qinput_scale))  
+    dc=Output/(qkernel_scale*qinput_scale)-(qbias_scale/(qkernel_scale*qinput_scale))*np.floor(Bias/qbias_scale)  
     ds=np.dot(np.floor(Kernel/qkernel_scale),InputRound.T)   
     d=dc-ds.T
     return d
-- 
2.43.0


From 14cdb15ce10106b945fe211a0de758fc7dae9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:30 +0000
Subject: [PATCH 74/78] fix: editing the decisions read from or given to a node
 changed its stored decisions

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index aa9edd9..21d5b62 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -152,11 +152,11 @@ class NodeLUT(ISerializable, IRoundingPolicy):
 
     @property
     def rounding_policy(self) -> np.ndarray:
-        return self._rounding_policy
+        return np.array(self._rounding_policy)
 
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
-        self._rounding_policy = policy
+        self._rounding_policy = np.array(policy)
         self._create()
 
     def as_json(self) -> LUTJson:
@@ -445,7 +445,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: The Rounding Policy
         """
-        return self._rounding_policy
+        return np.array(self._rounding_policy)
 
     @rounding_policy.setter
     def rounding_policy(self, rounding: np.ndarray):
@@ -463,7 +463,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
                 f"New rounding policy has shape {rounding.shape}. {self._fp_tensor.shape} expected"
             )
 
-        self._rounding_policy = rounding
+        self._rounding_policy = np.array(rounding)
         self._quantized = self.quant.quantize(
             self._fp_tensor, self.zero_point, self.scale, rounding_policy=rounding
         )
-- 
2.43.0


From b0e153a17deb372147f2cab9381d09e052eb89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:49 +0000
Subject: [PATCH 75/78] fix: integer-only LSTM rounded the scaled forget gate
 to 0 or 1 before applying it

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 6205ecc..5d6488e 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -325,8 +325,10 @@ class LSTM(ILayer):
                     self._cell_state_zp
                     + (
                         self._M3
-                        * (activated_forget_gate - self._forget_gate_zp)
-                        * (cell_state - self._cell_state_zp)
+                        * (
+                            (activated_forget_gate - self._forget_gate_zp)
+                            * (cell_state - self._cell_state_zp)
+                        )
                     )
                     + self._M4
                     * (
-- 
2.43.0


From 6bbea6a4151cd294068d87b01a636a7b1ee91cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 76/78] fix: symmetric calibration of an unsigned type gave a
 zero point outside the type

---
 .../itcl_quantizer/quantizer/distributions/distribution.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index e16fcaa..47ed2ae 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -147,7 +147,7 @@ class Distribution:
         q_max = q.max_value()
 
         if symmetric:
-            q_min = -q_max
+            q_min = max(q_min, -q_max)
 
         scale = (max_ - min_) / (q_max - q_min)
         zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
-- 
2.43.0


From c9419fed9acbd09048d5f677e01f844c488204c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:50 +0000
Subject: [PATCH 77/78] fix: refuse to quantize a model with a softmax before
 its last layer

The softmax was left out of the integer network, and the layers after it were
calibrated on the values before the softmax, so the output was silently wrong.
---
 .../tensor_extractor/keras/keras_builder.py            | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py b/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py
index 3f442c1..1dd2350 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py
@@ -45,6 +45,7 @@ def _quantize(
         )
     ]
 
+    softmax_layer: str | None = None
     for i, layer in enumerate(layers):
         previous = sequential_quantized[-1]
         layer_q = get_layer_quantizer(layer, cfg)
@@ -52,6 +53,15 @@ def _quantize(
         if layer_q is None:
             continue
 
+        if softmax_layer is not None:
+            raise ValueError(
+                f"Softmax is only supported in the last layer: {softmax_layer}"
+            )
+
+        # Softmax isn't part of the quantized network
+        if CheckType.is_dense(layer) and layer.activation.__name__ == "softmax":
+            softmax_layer = layer.name
+
         quantized_op = layer_q.quantize(previous)
         sequential_quantized.append(quantized_op)
 
-- 
2.43.0


From e3436f28d8e43fe6f5a68dccb24b6fb0aa31d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:31 +0000
Subject: [PATCH 78/78] fix: compute the QUBO's reconstruction error in double
 precision

In single precision the floor of a bias in steps of its scale was off by one or
more codes, so the objective was that of another bias.
---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 454c9b6..e41e207 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -64,10 +64,13 @@ class QUBOAnnealer(IRoundOptimizer):
   
         dense_layer: KerasDense = self._layer  # type: ignore
         kernel, bias = dense_layer.get_weights()
+        # Single precision can't tell the codes of a bias in steps of its scale apart
+        kernel = np.array(kernel, dtype=np.float64)
+        bias = np.array(bias, dtype=np.float64)
         input_f = self._input_data
-        input_f = np.array(input_f)
+        input_f = np.array(input_f, dtype=np.float64)
         # The rounding acts before the activation, whose output the results hold
-        output_f = input_f @ np.array(kernel).T + np.array(bias)
+        output_f = input_f @ kernel.T + bias
          
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
-- 
2.43.0

