From 6e4a9a6da6feb5857c2143588d7e27ffa4b5dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 001/154] fix: read int8/int16/uint8/uint16/bool weights stored
 in typed fields

They were read as all zeros: only raw_data was considered for these types.
---
 onnx_tool/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..6089559 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -98,7 +98,8 @@ def tensorproto2ndarray(initial):
         if ndtype == numpy.float32:
             arr = numpy.fromiter(initial.float_data, dtype=ndtype)
 
-        elif ndtype == numpy.int32:
+        elif ndtype in (numpy.int32, numpy.int16, numpy.int8, numpy.uint16, numpy.uint8, numpy.bool_):
+            # the narrow integer types and bool are stored in int32_data, too
             arr = numpy.fromiter(initial.int32_data, dtype=ndtype)
 
         elif ndtype == numpy.float16:
-- 
2.43.0


From 581bf14ef6cf546ba0ce440def7e7b0e3f2dcfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 002/154] fix: support uint32 and uint64 tensors

Their element type was unknown, so weights were decoded as float64 and
casts produced float64 tensors that cannot be saved.
---
 onnx_tool/tensor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 6089559..f5806da 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -53,6 +53,10 @@ def onnxdtype2npdtype(data_type):
         return numpy.uint8
     if data_type == onnx.TensorProto.UINT16:
         return numpy.uint16
+    if data_type == onnx.TensorProto.UINT32:
+        return numpy.uint32
+    if data_type == onnx.TensorProto.UINT64:
+        return numpy.uint64
     if data_type == onnx.TensorProto.BOOL:
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
@@ -82,6 +86,10 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT8
     if npdtype == numpy.uint16:
         return onnx.TensorProto.UINT16
+    if npdtype == numpy.uint32:
+        return onnx.TensorProto.UINT32
+    if npdtype == numpy.uint64:
+        return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
     if npdtype == numpy.bytes_:
@@ -111,6 +119,8 @@ def tensorproto2ndarray(initial):
         elif ndtype == numpy.int64:
             arr = numpy.fromiter(initial.int64_data, dtype=ndtype)
 
+        elif ndtype in (numpy.uint32, numpy.uint64):
+            arr = numpy.fromiter(initial.uint64_data, dtype=ndtype)
         elif ndtype == numpy.float64:
             arr = numpy.fromiter(initial.double_data, dtype=ndtype)
         elif ndtype == numpy.bytes_:
-- 
2.43.0


From 957f99b28e72e5ccaaa9376f9de5caea62346593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 003/154] fix: export weights whose names contain both '/' and
 '\\'

Only the backslash was replaced, so the file was looked for in a folder that does not exist.
---
 onnx_tool/__init__.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..f4358c9 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -41,11 +41,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
         savefolder = './'
     if tensornames is None:
         for key in g.initials:
-            name = key
-            if '/' in key:
-                name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
+            name = key.replace('/', '_').replace('\\', '_')
             narr = g.tensormap[key].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
 
@@ -54,11 +50,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             if name not in g.initials:
                 warnings.warn(f'tensor {name} not found ')
                 continue
-            fname = name
-            if '/' in name:
-                fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
+            fname = name.replace('/', '_').replace('\\', '_')
             narr = g.tensormap[name].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
 
-- 
2.43.0


From 31b12dbbe4f1fbd8a409d9d556cb99f7045e9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 004/154] fix: evaluate Min as a minimum, not as its negation

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..c47f8cf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -308,7 +308,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 32414d78ddd47c5af0dc9292c0637792e9026f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 005/154] fix: truncate integer Div toward zero for every
 integer type

---
 onnx_tool/node.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c47f8cf..544f2a5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -338,13 +338,14 @@ class DivNode(NpMathBase):
         self.op_mac = DIV_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
-            else:
-                result = intensors[0].get_numpy() / intensors[1].get_numpy()
+        x = intensors[0].get_numpy()
+        y = intensors[1].get_numpy()
+        if numpy.issubdtype(x.dtype, numpy.integer) and numpy.issubdtype(y.dtype, numpy.integer):
+            # integer division truncates toward zero and keeps the element type
+            result = x // y
+            result = (result + ((result < 0) & (result * y != x))).astype(x.dtype)
         else:
-            result = intensors[0].get_numpy() / intensors[1].get_numpy()
+            result = x / y
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 294836aea864fc639938a273dbb32c76e4be6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 006/154] fix: honour the fmod attribute when evaluating Mod

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 544f2a5..098e357 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -354,9 +354,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        mod = numpy.fmod if self.fmod else numpy.mod
+        result = mod(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 6b053cd37db1a7c60de950309de91e92c1dabe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 007/154] fix: evaluate Softmax with its default axis and
 without overflow

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 098e357..f39b58f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -409,9 +409,11 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xexp = numpy.exp(intensors[0].get_numpy())
+        x = intensors[0].get_numpy()
+        xexp = numpy.exp(x - numpy.max(x, axis=self.axis, keepdims=True))
         result = xexp / numpy.sum(xexp, axis=self.axis, keepdims=True)
         outtensors[0].update_tensor(result)
 
-- 
2.43.0


From cb808ecbde0a53a40676388f50da06532f81a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 008/154] fix: evaluate Softplus without overflowing to inf

---
 onnx_tool/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f39b58f..31e96f9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -427,9 +427,9 @@ class SoftplusNode(ExpNode):
         self.ratio = 1
 
     def value_infer(self, intensors: list[Tensor], outtensors: list[Tensor]):
-        # Can overflow to inf if intensor is too large,
-        # but we don't need precise inference anyway so maybe its good enough.
-        result = numpy.log1p(numpy.exp(intensors[0].get_numpy()))
+        x = intensors[0].get_numpy()
+        # log(1 + exp(x)) without overflow for large x
+        result = numpy.maximum(x, 0) + numpy.log1p(numpy.exp(-numpy.abs(x)))
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 7cd0c1fccad4b2a5b4cea5bb04cdbfb3e29176c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 009/154] fix: keep the base type when evaluating Pow

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 31e96f9..dbe8126 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -490,7 +490,8 @@ class PowNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(sel, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.power(intensors[0].get_numpy(), intensors[1].get_numpy())
+        x = intensors[0].get_numpy()
+        result = numpy.power(x, intensors[1].get_numpy()).astype(x.dtype)
         outtensors[0].update_tensor(result)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 9b52715cde8de53a22dbaff9f18bf77f25dcf65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 010/154] fix: evaluate HardSigmoid and HardSwish on arrays

---
 onnx_tool/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index dbe8126..7556439 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -593,7 +593,8 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = numpy.clip(self.alpha * x + self.beta, 0, 1).astype(x.dtype)
         outtensors[0].update_tensor(result)
 
 
@@ -606,7 +607,8 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = (x * numpy.clip(self.alpha * x + self.beta, 0, 1)).astype(x.dtype)
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From c63db2eebfb504b89029e85eb9b2e04bee83e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 011/154] fix: evaluate LeakyRelu element by element

---
 onnx_tool/node.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7556439..6311dc9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -716,11 +716,7 @@ class LeakyReluNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        outtensor = numpy.zeros_like(x)
-        for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
-        outtensors[0].update_tensor(outtensor)
+        outtensors[0].update_tensor(numpy.where(x >= 0, x, x * self.alpha).astype(x.dtype))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From f61056e8d78fe732499a59c85c09c15c6867eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 012/154] fix: infer the input type, not bool, for Round

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6311dc9..8a67d3f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -788,6 +788,10 @@ class LessOrEqualNode(LessNode):
 
 @NODE_REGISTRY.register()
 class RoundNode(LessNode):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(intensors[0].get_shape())
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
-- 
2.43.0


From fc8663c486f1b0834b135f0131c7927639a4bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 013/154] fix: broadcast all inputs of Sum

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8a67d3f..b429bb5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -726,6 +726,10 @@ class SumNode(PWNode):
         self.op_mac = ADD_MACS
         self.ratio = len(nodeproto.input) - 1
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(_broadcast_shape([tensor.get_shape() for tensor in intensors]))
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         y = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-- 
2.43.0


From 98b59d9b5cf75913bb210a59b38b992a5eab6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 014/154] fix: evaluate Clip with missing bounds or bounds in
 attributes

---
 onnx_tool/node.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b429bb5..66738b2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1000,13 +1000,12 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
-            minval = None
-        else:
+        # attributes before opset 11, optional inputs since
+        minval = getattr(self, 'min', None)
+        maxval = getattr(self, 'max', None)
+        if len(intensors) > 1 and intensors[1].name != '':
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
-            maxval = None
-        else:
+        if len(intensors) > 2 and intensors[2].name != '':
             maxval = intensors[2].get_numpy()
         y = numpy.clip(intensors[0].get_numpy(), minval, maxval)
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 5f286b6492942ce33a479a40083445ee6786b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 015/154] fix: honour select_last_index when evaluating ArgMax

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 66738b2..70204aa 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1692,10 +1692,15 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        if self.select_last_index:
+            out = argmax_use_numpy(numpy.flip(data, self.axis), self.axis, self.keepdims)
+            out = data.shape[self.axis] - 1 - out
+        else:
+            out = argmax_use_numpy(data, self.axis, self.keepdims)
         outtensors[0].update_tensor(out)
 
 
-- 
2.43.0


From 05dd19b4987b9cbeef4092fe2815eb9094bb5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 016/154] fix: support Constant nodes with number and list
 attributes

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 70204aa..f212461 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1038,6 +1038,11 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        # the forms for numbers and lists of numbers
+        for att, dtype in (('value_float', numpy.float32), ('value_floats', numpy.float32),
+                           ('value_int', numpy.int64), ('value_ints', numpy.int64)):
+            if att in self.attr:
+                self.value = numpy.array(self.attr[att], dtype=dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
-- 
2.43.0


From f67a37bc40f47abc4731c4dca6929c7f24ca99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 017/154] fix: evaluate ConstantOfShape without a value
 attribute

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f212461..b446242 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2869,7 +2869,8 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        dtype = numpy.float32 if self.value is None else self.value.dtype
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From cb4ba6d7e94017a6e5df78bf5087f04192c5ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 018/154] fix: keep the element type when evaluating CumSum

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b446242..c395475 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2280,7 +2280,8 @@ class CumSumNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
+            x = intensors[0].get_numpy()
+            y = numpy.cumsum(x, intensors[1].get_numpy(), dtype=x.dtype)
             outtensors[0].update_tensor(y)
             return
         raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
-- 
2.43.0


From 035572f5a1ff5494e7d8d439ce851d3fa0357a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 019/154] fix: evaluate the mask output of Dropout

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c395475..945ccec 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1514,6 +1514,12 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        x = intensors[0].get_numpy()
+        outtensors[0].update_tensor(x)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(x.shape, dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From c500a89aaac6d2faef4e34f5e6c856f042d8b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 020/154] fix: evaluate Erf of tensors whose shape is a list

---
 onnx_tool/node.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 945ccec..3fece7b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1634,9 +1634,10 @@ class IdentityNode(FusedBase):
 @NODE_REGISTRY.register()
 class ErfNode(FusedBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensor = numpy.zeros_like(intensors[0].get_numpy())
-        for i in numpy.ndindex(intensors[0].shape):
-            outtensor[i] = math.erf(intensors[0].get_numpy()[i])
+        x = intensors[0].get_numpy()
+        outtensor = numpy.zeros_like(x)
+        for i in numpy.ndindex(x.shape):
+            outtensor[i] = math.erf(x[i])
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 468697f4a210514209bf43bf48c221c6ad265853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 021/154] fix: evaluate Flatten with a negative axis or
 zero-size input

---
 onnx_tool/node.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3fece7b..baa2073 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1676,17 +1676,12 @@ class BatchNormalizationNode(FusedBase):
 class FlattenNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        if self.axis is None:
-            y = x.reshape((x.shape[0], -1))
-        else:
-            vol = 1
-            for i in range(self.axis):
-                vol *= x.shape[i]
-            y = x.reshape((vol, -1))
+        axis = _axes_neg2pos(len(x.shape), [self.axis])[0]
+        y = x.reshape((math.prod(x.shape[:axis]), math.prod(x.shape[axis:])))
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From 77081397af2916f5ab26e36ce8c25356c28dc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 022/154] fix: give GatherElements the type of its data, not of
 its indices

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index baa2073..b5b980d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2812,7 +2812,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros(indice.shape, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From 298a81817c284320df2fdf8ede625468e501478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 023/154] fix: honour batch_dims of GatherND

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b5b980d..5070502 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2443,10 +2443,14 @@ class ScatterNDNode(Node):
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2480,7 +2484,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 06208f46f2cad9cc525fee9049aacf3850a41f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 024/154] fix: honour alpha, beta and an absent C when
 evaluating Gemm

---
 onnx_tool/node.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5070502..d561854 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -871,6 +871,8 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
@@ -919,10 +921,10 @@ class GemmNode(Node):
             A = numpy.swapaxes(A, -1, -2)
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
-        C = numpy.matmul(A, B)
-        if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
-        outtensors[0].update_tensor(C)
+        Y = numpy.matmul(A, B) * self.alpha
+        if len(intensors) > 2 and intensors[2].name != '':
+            Y = Y + intensors[2].get_numpy() * self.beta
+        outtensors[0].update_tensor(Y.astype(A.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         yshape = outtensors[0].get_shape()
-- 
2.43.0


From adc54651fa6928a3837e5c786fbedf76c819586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 025/154] fix: evaluate GlobalAveragePool with its full output
 rank and type

---
 onnx_tool/node.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d561854..25ed8e8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1535,16 +1535,7 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
+        y = numpy.mean(x, axis=tuple(range(2, len(x.shape))), keepdims=True)
         outtensors[0].update_tensor(y)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 3b4f4c2080a675ce23cdea08412f05a5706b32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 026/154] fix: infer MatMul of vectors and of inputs that
 broadcast each other

---
 onnx_tool/node.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 25ed8e8..9be968a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -162,6 +162,22 @@ def _broadcast_shape(shapes: []):
     return outshape
 
 
+def _matmul_shape(a_shape, b_shape):
+    # numpy.matmul rules: vectors are extended to matrices, batch dimensions are broadcast
+    if len(a_shape) == 0 or len(b_shape) == 0:
+        raise RuntimeError('MatMul inputs must have rank >= 1')
+    a_mat = a_shape if len(a_shape) > 1 else [1] + a_shape
+    b_mat = b_shape if len(b_shape) > 1 else b_shape + [1]
+    if a_mat[-1] != b_mat[-2]:
+        raise RuntimeError(f'Incompatible MatMul shapes: A K={a_mat[-1]} != B K={b_mat[-2]}')
+    yshape = _broadcast_shape([a_mat[:-2], b_mat[:-2]])
+    if len(a_shape) > 1:
+        yshape.append(a_mat[-2])
+    if len(b_shape) > 1:
+        yshape.append(b_mat[-1])
+    return yshape
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -877,9 +893,9 @@ class GemmNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
-        if len(a_shape) < 2 or len(b_shape) < 2:
-            raise RuntimeError('Gemm inputs must have rank >= 2')
         if self.__class__ == GemmNode:
+            if len(a_shape) < 2 or len(b_shape) < 2:
+                raise RuntimeError('Gemm inputs must have rank >= 2')
             # determine M,K from A depending on transA
             if self.transA > 0:
                 a_m = a_shape[-1]
@@ -902,16 +918,12 @@ class GemmNode(Node):
             yshape = batchshape + [a_m, b_n]
         else:
             # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            yshape = _matmul_shape(a_shape, b_shape)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
-- 
2.43.0


From ce4ba42e4b3769a26cfac25bbd55c24b2ea05f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 027/154] fix: refuse to evaluate integer and quantized MatMul
 and Conv with the float rules

---
 onnx_tool/node.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9be968a..1ce7140 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2582,6 +2582,9 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
@@ -2608,6 +2611,9 @@ class QLinearMatMulNode(GemmNode):
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[-1].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         weight_shape = intensors[3].get_shape()
@@ -2644,6 +2650,9 @@ class QLinearConvNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[-2].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
@@ -2688,6 +2697,9 @@ class ConvIntegerNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From 2fa64d90457d3f480c05edccccb506ee065ed32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 028/154] fix: infer QLinearMatMul with batch broadcasting

---
 onnx_tool/node.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1ce7140..21a7e75 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2597,18 +2597,7 @@ class QLinearMatMulNode(GemmNode):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
 
-        if self.__class__ == GemmNode:
-            if self.transA is not None and self.transA > 0:
-                xshape = xshape[::-1]
-            else:
-                xshape = xshape
-            if self.transB is not None and self.transB > 0:
-                yshape = xshape[:-1] + [wshape[-2], ]
-            else:
-                yshape = xshape[:-1] + [wshape[-1], ]
-        else:
-            yshape = xshape[:-1] + [wshape[-1], ]
-        outtensors[0].update_shape(yshape)
+        outtensors[0].update_shape(_matmul_shape(xshape, wshape))
         outtensors[0].update_dtype(intensors[-1].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From dc7e91487b0f1c024b5c0536ddf68485a03794f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 029/154] fix: infer 1-D and 3-D pooling and pooling with
 auto_pad, dilation or default strides

---
 onnx_tool/node.py | 77 ++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 45 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 21a7e75..95721e2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -67,6 +67,33 @@ def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
     return math.floor(outshape)
 
 
+def _explicit_pads(auto_pad, pads, insize, ksize, strides, dilations):
+    # the begin and the end padding of every spatial axis
+    rank = len(insize)
+    if auto_pad in (b'SAME_LOWER', b'SAME_UPPER'):
+        begins, ends = [], []
+        for i in range(rank):
+            outsize = _auto_pad_same_shape_calc(insize[i], strides[i])
+            total = max((outsize - 1) * strides[i] + (ksize[i] - 1) * dilations[i] + 1 - insize[i], 0)
+            begin = total // 2 if auto_pad == b'SAME_UPPER' else total - total // 2
+            begins.append(begin)
+            ends.append(total - begin)
+        return begins, ends
+    if auto_pad == b'VALID':
+        return [0] * rank, [0] * rank
+    return list(pads[:rank]), list(pads[rank:2 * rank])
+
+
+def _window_output_shape(auto_pad, pads, insize, ksize, strides, dilations, ceil_mode=0):
+    if auto_pad in (b'SAME_LOWER', b'SAME_UPPER'):
+        return [_auto_pad_same_shape_calc(insize[i], strides[i]) for i in range(len(insize))]
+    if auto_pad == b'VALID':
+        ceil_mode = 0
+    begins, ends = _explicit_pads(auto_pad, pads, insize, ksize, strides, dilations)
+    return [_pooling_shape_calc(insize[i], begins[i] + ends[i], ksize[i], dilations[i], strides[i], ceil_mode)
+            for i in range(len(insize))]
+
+
 def _axes_neg2pos(len, axes):
     newaxes = []
     for axis in axes:
@@ -1421,55 +1448,15 @@ class PoolBase(Node):
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            outshape = inshape[:2]
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
-            elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
-        else:
-            if len(self.kernel_shape) == 1:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[1], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0], self.ceil_mode), ]
-            if len(self.kernel_shape) == 2:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[2], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[3], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                ]
-            if len(self.kernel_shape) == 3:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
-                                        self.strides[2],
-                                        self.ceil_mode),
-                ]
+        outshape = inshape[:2] + _window_output_shape(self.auto_pad, self.pads, inshape[2:], self.kernel_shape,
+                                                      self.strides, self.dilations, self.ceil_mode)
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From 9da7481e89c0663a7c4b9ca259dad920ac47ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 030/154] fix: evaluate MaxPool of negative values, any rank,
 auto_pad and dilation; infer its Indices output

---
 onnx_tool/node.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 95721e2..a1dca7c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1482,28 +1482,31 @@ class MaxPoolNode(PoolBase):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        if len(outtensors) == 2:
+            outtensors[1].update_shape(outtensors[0].get_shape())
+            outtensors[1].update_dtype(numpy.int64)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
+        if len(outtensors) > 1:
+            raise NotImplementedError(f'MaxPool {self.name} has no value_infer for its Indices output')
+        x = intensors[0].get_numpy()
+        insize = x.shape[2:]
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        begins, _ = _explicit_pads(self.auto_pad, self.pads, insize, self.kernel_shape, self.strides, self.dilations)
+        ot = numpy.zeros(outtensors[0].get_shape(), dtype=x.dtype)
         for i in numpy.ndindex(ot.shape):
-            batch = i[0]
-            ocn = i[1]
-            oh = i[2]
-            ow = i[3]
-            t = ot[i]
-            ks = tuple(self.kernel_shape)
-            for j in numpy.ndindex(ks):
-                kh = j[0]
-                kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
-                if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
+            t = None
+            for j in numpy.ndindex(tuple(self.kernel_shape)):
+                src = tuple(i[2 + k] * self.strides[k] + j[k] * self.dilations[k] - begins[k]
+                            for k in range(len(insize)))
+                if any(p < 0 or p >= size for p, size in zip(src, insize)):
                     continue
-                else:
-                    srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
+                srcv = x[i[:2] + src]
+                t = srcv if t is None else max(srcv, t)
             ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 70352944df11b74b4c4b5114dee6528600c7d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 031/154] fix: infer 1-D and 3-D convolutions with auto_pad and
 dilated VALID convolutions

---
 onnx_tool/node.py | 74 ++++-------------------------------------------
 1 file changed, 6 insertions(+), 68 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a1dca7c..600807d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2161,40 +2161,8 @@ class ConvNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
-            elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
-                shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
-                    shape += (ow,)
-            else:
-                assert 0
-
-        else:
-            if len(xshape) == 5:
-                od = _conv_output_shape(xshape[2], self.pads[0] + self.pads[3], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                oh = _conv_output_shape(xshape[3], self.pads[1] + self.pads[4], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                ow = _conv_output_shape(xshape[4], self.pads[2] + self.pads[5], wshape[4], self.strides[2],
-                                        self.dilations[2])
-                shape = (xshape[0], wshape[0], od, oh, ow)
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = (xshape[0], wshape[0], oh, ow)
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = (xshape[0], wshape[0], oh)
+        shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
+                                                               self.strides, self.dilations)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2609,23 +2577,8 @@ class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
+        shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
+                                                               self.strides, self.dilations)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[-2].dtype)
 
@@ -2656,23 +2609,8 @@ class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
+        shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
+                                                               self.strides, self.dilations)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
-- 
2.43.0


From a6fda7bd522b954f5735ce49b37879049aa039d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 032/154] fix: take the type of QLinearConv without bias from
 its output zero point

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 600807d..8443757 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2580,7 +2580,7 @@ class QLinearConvNode(ConvNode):
         shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
                                                                self.strides, self.dilations)
         outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_dtype(intensors[7].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
-- 
2.43.0


From 3236e42e60b3ec73dca1773b9bef77e6bad2ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 033/154] fix: evaluate Conv with auto_pad and from a zero
 accumulator

---
 onnx_tool/node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8443757..b336f6b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2171,13 +2171,14 @@ class ConvNode(Node):
             raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
-        outtensor = outtensors[0].get_numpy()
-        has_bias = len(intensors) > 2
+        outtensor = numpy.zeros(outshape, dtype=intensors[0].dtype)
+        has_bias = len(intensors) > 2 and intensors[2].name != ''
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         if len(wshape) != 4:
             raise NotImplementedError()
 
+        begins, _ = _explicit_pads(self.auto_pad, self.pads, xshape[2:], wshape[2:], self.strides, self.dilations)
         reduce_shape = tuple(wshape[1:])
         for i in numpy.ndindex(tuple(outshape)):
             batch = i[0]
@@ -2191,8 +2192,8 @@ class ConvNode(Node):
                 icn = j[0]
                 kh = j[1]
                 kw = j[2]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - begins[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - begins[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     srcv = 0
                 else:
-- 
2.43.0


From 2333e7e66094582f05c8c2871da9a336282109c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 034/154] fix: evaluate NonZero of an all-zero tensor as empty

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b336f6b..2897efb 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2255,14 +2255,19 @@ class CumSumNode(PWNode):
 
 @NODE_REGISTRY.register()
 class NonZeroNode(Node):
-    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         condi = intensors[0].get_numpy()
         result = numpy.array(numpy.nonzero(condi), dtype=numpy.int64)
         if volume(result.shape) == 0:
+            # no known data, use the largest possible output
             condi = numpy.ones_like(intensors[0].get_numpy())
             result = numpy.array(numpy.nonzero(condi), dtype=numpy.int64)
         outtensors[0].update_tensor(result)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        result = numpy.array(numpy.nonzero(intensors[0].get_numpy()), dtype=numpy.int64)
+        outtensors[0].update_tensor(result)
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         return volume(outtensors[0].get_shape()) * CMP_MACS
 
-- 
2.43.0


From b58bad22d0bb8479dfa306482fea42b92ff6d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 035/154] fix: evaluate OneHot with its off and on values

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2897efb..50314cf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1147,7 +1147,7 @@ def one_hot(indices, depth, axis=-1, dtype=numpy.float32):  # type: ignore
     ls = values.shape[0:axis]
     rs = values.shape[axis:rank]
     targets = numpy.reshape(depth_range, (1,) * len(ls) + depth_range.shape + (1,) * len(rs))
-    values = numpy.reshape(numpy.mod(values, depth), ls + (1,) + rs)
+    values = numpy.reshape(numpy.where(values < 0, values + depth, values), ls + (1,) + rs)
     return numpy.asarray(targets == values, dtype=dtype)
 
 
@@ -1171,7 +1171,7 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
+        y = numpy.where(one_hot(indices, depth, self.axis, numpy.bool_), values[1], values[0])
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From dfdc0ac962990ce96ef318c5707baaa3e78da403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 036/154] fix: evaluate and infer Pad in all its forms

pads in an attribute, no mode attribute, the axes input, negative pads, and the modes that take no constant value
---
 onnx_tool/node.py | 51 ++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 50314cf..d980b7d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1589,35 +1589,40 @@ class PadNode(Node):
         self.add_default_value('value', 0)
         self.add_default_value('mode', 'constant')
 
+    def _begin_end_pads(self, intensors):
+        # [begin, end] of every axis, from the attribute or from the inputs pads and axes
+        pads = self.pads
+        rank = len(intensors[0].get_shape())
+        axes = list(range(rank))
+        if pads is None:
+            pads = intensors[1].get_numpy()
+            if len(intensors) > 3 and intensors[3].name != '':
+                axes = _axes_neg2pos(rank, intensors[3].get_numpy().tolist())
+        pad_width = [[0, 0] for _ in range(rank)]
+        for i, axis in enumerate(axes):
+            pad_width[axis] = [int(pads[i]), int(pads[i + len(axes)])]
+        return pad_width
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        newshape = []
-        if self.pads is None:
-            if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
-        else:
-            for i, v in enumerate(inshape):
-                newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
-        newshape = [int(val) for val in newshape]
+        newshape = [int(v + begin + end) for v, (begin, end) in zip(inshape, self._begin_end_pads(intensors))]
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.pads is not None:
-            pads = self.pads
-        elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
-        nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
-        value = self.value
-        if len(intensors) > 2:
-            value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        x = intensors[0].get_numpy()
+        pad_width = self._begin_end_pads(intensors)
+        # negative pads remove elements
+        x = x[tuple(slice(max(-begin, 0), size + min(end, 0)) for (begin, end), size in zip(pad_width, x.shape))]
+        pad_width = [(max(begin, 0), max(end, 0)) for begin, end in pad_width]
+        mode = self.mode.decode('utf-8') if isinstance(self.mode, bytes) else self.mode
+        if mode == 'constant':
+            value = self.value
+            if len(intensors) > 2 and intensors[2].name != '':
+                value = intensors[2].get_numpy()
+            outtensor = numpy.pad(x, pad_width=pad_width, mode=mode, constant_values=value)
+        else:
+            outtensor = numpy.pad(x, pad_width=pad_width, mode=mode)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 80f158991fc59ddb48768256331fe237fa716e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 037/154] fix: evaluate and infer reductions with axes from an
 input, without axes, and in the input type

---
 onnx_tool/node.py | 63 +++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d980b7d..483bacb 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1927,25 +1927,29 @@ class SliceNode(Node):
         outtensors[0].update_tensor(x)
 
 
+def _reduce_axes(node, intensors):
+    # the axes to reduce, from the attribute or from the second input
+    axes = node.axes
+    if len(intensors) == 2 and intensors[1].name != '':
+        axes = intensors[1].get_numpy().tolist()
+    rank = len(intensors[0].get_shape())
+    if axes is None or len(axes) == 0:
+        return () if node.noop_with_empty_axes else tuple(range(rank))
+    return tuple(_axes_neg2pos(rank, axes))
+
+
 @NODE_REGISTRY.register()
 class ReduceMeanNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        if axes is None:
-            return [[1]]
-        else:
-            axes = _axes_neg2pos(len(xshape), axes)
-
+        axes = _reduce_axes(self, intensors)
         for i in range(len(xshape)):
             if i in axes:
                 if self.keepdims:
@@ -1956,11 +1960,9 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        axes = _reduce_axes(self, intensors)
+        reduced = numpy.mean(data, axis=axes, keepdims=self.keepdims == 1).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1971,11 +1973,9 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        axes = _reduce_axes(self, intensors)
+        reduced = numpy.prod(data, axis=axes, keepdims=self.keepdims == 1, dtype=data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1987,11 +1987,9 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        axes = _reduce_axes(self, intensors)
+        reduced = numpy.sum(data, axis=axes, keepdims=self.keepdims == 1, dtype=data.dtype)
         outtensors[0].update_tensor(reduced)
 
 
@@ -1999,10 +1997,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2016,10 +2011,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2228,11 +2220,12 @@ class ReduceL2Node(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
+        self.add_default_value('noop_with_empty_axes', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
+        data = intensors[0].get_numpy()
+        axes = _reduce_axes(self, intensors)
+        reduced = numpy.sqrt(numpy.sum(data * data, axis=axes, keepdims=self.keepdims == 1)).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 203a023df92a62d38b4decb0cafeaae1b0259a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 038/154] fix: honour the reduction attribute when evaluating
 ScatterND

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 483bacb..db1bcf1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2397,6 +2397,10 @@ def gather_nd_impl(
 
 @NODE_REGISTRY.register()
 class ScatterNDNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('reduction', b'none')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2405,7 +2409,7 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, self.reduction.decode('utf-8')))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From df59069cc7f5d9f5e12f827a2e0b06fa21210a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 039/154] fix: honour start and end of Shape

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index db1bcf1..e655b1b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1386,8 +1386,13 @@ class SqueezeNode(Node):
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('start', 0)
+        self.add_default_value('end', None)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        ret = numpy.array(intensors[0].get_shape()[self.start:self.end], dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 42779899b5b7433d68c27a1f38c97ffffea63d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 040/154] fix: evaluate Unsqueeze with unsorted or negative
 axes

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e655b1b..450e96a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1348,8 +1348,7 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
-            outtensor = numpy.expand_dims(outtensor, axis=axis)
+        outtensor = numpy.expand_dims(outtensor, axis=tuple(axes))
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From f086490ea3dfb3824d490dc923d2cb8030a99b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 041/154] fix: evaluate and infer Squeeze without axes and with
 unsorted or negative axes

---
 onnx_tool/node.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 450e96a..1e2d8a6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1356,14 +1356,22 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
+
+    def _squeeze_axes(self, intensors):
+        # from the second input or the attribute, all axes of size 1 by default
+        inshape = intensors[0].get_shape()
+        axes = self.axes
+        if len(intensors) == 2 and intensors[1].name != '':
+            axes = intensors[1].get_numpy().tolist()
+        if axes is None:
+            return [i for i, size in enumerate(inshape) if size == 1]
+        return _axes_neg2pos(len(inshape), axes)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+        axes = self._squeeze_axes(intensors)
         for i in range(len(inshape)):
             if i in axes:
                 continue
@@ -1374,12 +1382,7 @@ class SqueezeNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
-        idx = 0
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
+        outtensor = numpy.squeeze(outtensor, axis=tuple(self._squeeze_axes(intensors)))
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From fe25980e466c3eda391c29b3d64774eccb3cca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 042/154] fix: evaluate Slice with any axes and any combination
 of optional inputs

---
 onnx_tool/node.py | 90 +++++++++++------------------------------------
 1 file changed, 20 insertions(+), 70 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1e2d8a6..bee5cf9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1736,11 +1736,11 @@ class ZipMapNode(Node):
 class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
+        self.add_default_value('axes', None)
         self.add_default_value('steps', None)
 
-    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        inshape = intensors[0].get_shape()
-        # Prepare inputs (from attributes or input tensors)
+    def _slice_params(self, intensors):
+        # starts, ends, axes and steps, from attributes or input tensors
         if len(intensors) == 1:
             starts = list(self.starts)
             ends = list(self.ends)
@@ -1751,19 +1751,20 @@ class SliceNode(Node):
             ends = list(intensors[2].get_numpy())
             axes = None
             steps = None
-            if len(intensors) == 3:
-                # fallback behaviour when axes/steps omitted
-                axes = None
-            else:
-                if len(intensors) >= 4:
-                    axes = list(intensors[3].get_numpy())
-                if len(intensors) >= 5:
-                    steps = list(intensors[4].get_numpy())
+            if len(intensors) >= 4 and intensors[3].name != '':
+                axes = list(intensors[3].get_numpy())
+            if len(intensors) >= 5 and intensors[4].name != '':
+                steps = list(intensors[4].get_numpy())
+        return starts, ends, axes, steps
+
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        inshape = intensors[0].get_shape()
+        starts, ends, axes, steps = self._slice_params(intensors)
 
         r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, set to [0..len(starts)-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
@@ -1874,63 +1875,12 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
+        starts, ends, axes, steps = self._slice_params(intensors)
+        slices = [slice(None)] * len(data.shape)
+        for i in range(len(starts)):
+            axis = i if axes is None else axes[i]
+            slices[axis] = slice(starts[i], ends[i], None if steps is None else steps[i])
+        x = data[tuple(slices)]
         outtensors[0].update_tensor(x)
 
 
-- 
2.43.0


From e611e8ddfdc5c1bd2abaa676ef04666bbf87d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 043/154] fix: split along axis 0 by default

---
 onnx_tool/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bee5cf9..f76bf42 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2846,14 +2846,14 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if len(intensors) == 2 and intensors[1].name != '':
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
@@ -2888,7 +2888,7 @@ class SplitNode(Node):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if len(intensors) == 2 and intensors[1].name != '':
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
-- 
2.43.0


From 036811df67936df4d5e0ab90080c3d5d27b02ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 044/154] fix: infer and profile Einsum with ellipsis anywhere,
 implicit output and any number of inputs

---
 onnx_tool/node.py | 101 ++++++++++++----------------------------------
 1 file changed, 25 insertions(+), 76 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f76bf42..5f0956f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1229,91 +1229,40 @@ class EinsumNode(Node):
                 if ch != '.' and all_labels.count(ch) == 1:
                     if ch not in unique_labels:
                         unique_labels.append(ch)
-            self.output_label_str = ''.join(sorted(unique_labels))
+            self.output_label_str = ('...' if '...' in lhs else '') + ''.join(sorted(unique_labels))
 
-    def _has_ellipsis(self, label_str):
-        return '...' in label_str
-
-    def _get_non_ellipsis_labels(self, label_str):
-        """Get the labels after the ellipsis part."""
-        if '...' in label_str:
-            idx = label_str.index('...')
-            return label_str[idx + 3:]
-        return label_str
-
-    def _get_ellipsis_ndim(self, label_str, total_ndim):
-        """Compute how many dimensions the ellipsis covers."""
-        non_ellipsis = self._get_non_ellipsis_labels(label_str)
-        return total_ndim - len(non_ellipsis)
-
-    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        shape = []
-        # Map from label character -> list of dimension values across inputs
-        label_to_dims = {}
-        ellipsis_dims_list = []  # list of (ndim, shape_slice) for each input with ellipsis
-
-        for idx, tensor in enumerate(intensors):
-            label_str = self.input_labels[idx]
+    def _collect_dims(self, intensors):
+        """Map every label to its dimension; compute the broadcast shape of the ellipsis."""
+        label_to_dim = {}
+        ellipsis_shapes = []
+        for label_str, tensor in zip(self.input_labels, intensors):
             tshape = tensor.get_shape()
-            if self._has_ellipsis(label_str):
-                non_ellipsis = self._get_non_ellipsis_labels(label_str)
-                ellipsis_ndim = len(tshape) - len(non_ellipsis)
-                # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
-            else:
-                non_ellipsis = label_str
-                offset = 0
-
-            for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
-                if ch not in label_to_dims:
-                    label_to_dims[ch] = []
-                label_to_dims[ch].append(dim_val)
-
-        # Compute broadcast shape for ellipsis dimensions
-        ellipsis_shape = []
-        if ellipsis_dims_list:
-            max_ndim = max(len(d) for d in ellipsis_dims_list)
-            # Pad shorter ellipsis shapes with 1s on the left (broadcast semantics)
-            padded_shapes = []
-            for d in ellipsis_dims_list:
-                if len(d) < max_ndim:
-                    padded_shapes.append([1] * (max_ndim - len(d)) + list(d))
-                else:
-                    padded_shapes.append(list(d))
-            for dims in zip(*padded_shapes):
-                ellipsis_shape.append(max(dims))
-
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
-
-        # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
-            if ch == '.':
-                continue
-            if ch in label_to_dims:
-                shape.append(max(label_to_dims[ch]))
+            if '...' in label_str:
+                before, after = label_str.split('...')
+                end = len(tshape) - len(after)
+                ellipsis_shapes.append(tshape[len(before):end])
+                pairs = list(zip(before, tshape)) + list(zip(after, tshape[end:]))
             else:
-                # Label not found in any input (shouldn't happen in valid equations)
-                shape.append(1)
+                pairs = zip(label_str, tshape)
+            for ch, dim in pairs:
+                label_to_dim[ch] = _broadcast_shape([[label_to_dim.get(ch, 1)], [dim]])[0]
+        return label_to_dim, _broadcast_shape(ellipsis_shapes)
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        label_to_dim, ellipsis_shape = self._collect_dims(intensors)
+        before, ellipsis, after = self.output_label_str.partition('...')
+        shape = [label_to_dim[ch] for ch in before]
+        if ellipsis:
+            shape += ellipsis_shape
+        shape += [label_to_dim[ch] for ch in after]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 1
-        map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
-        for key in map.keys():
-            macs *= map[key]
+        label_to_dim, ellipsis_shape = self._collect_dims(intensors)
+        for dim in list(label_to_dim.values()) + ellipsis_shape:
+            macs *= dim
         return macs
 
 
-- 
2.43.0


From ccbd0e8bad8142696545e7a3cad808c7dc6d05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 045/154] fix: expand zero-size dimensions and refuse
 incompatible ones

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5f0956f..4071011 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1528,7 +1528,8 @@ class ExpandNode(Node):
                 ei = int(e)
             except Exception:
                 ei = e
-            yshape.append(max(xi, ei))
+            # -1 keeps the input size
+            yshape += _broadcast_shape([[xi], [1 if ei == -1 else ei]])
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From d2cecee5288bd8f6631c1d5a1f3f17a13e9aac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 046/154] fix: infer GRU without its second output

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4071011..6505700 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2685,8 +2685,9 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From 5c150a17d5d8390cd78e2949a48506a839d3d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 047/154] fix: infer the optional outputs of LayerNormalization

---
 onnx_tool/node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6505700..0a5f2c6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2425,8 +2425,14 @@ class LayerNormalizationNode(Node):
         self.add_default_value('stash_type', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(intensors[0].get_shape())
+        xshape = intensors[0].get_shape()
+        outtensors[0].update_shape(xshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        # optional mean and inverse standard deviation
+        axis = _axes_neg2pos(len(xshape), [self.axis])[0]
+        for tensor in outtensors[1:]:
+            tensor.update_shape(xshape[:axis] + [1] * (len(xshape) - axis))
+            tensor.update_dtype(onnxdtype2npdtype(self.stash_type))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
-- 
2.43.0


From d709c3b6f895f500cf46c98b9067746460991568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 048/154] fix: reshape to scalars and zero-size tensors, honour
 allowzero

---
 onnx_tool/node.py | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0a5f2c6..4b58078 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2620,41 +2620,36 @@ class ConvTransposeNode(Node):
 
 @NODE_REGISTRY.register()
 class ReshapeNode(Node):
-    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        srcshape = intensors[0].get_shape()
-        if not is_valid_ndarray(intensors[1].get_numpy()):
-            outtensors[0].update_shape([1, ])
-            outtensors[0].update_dtype(intensors[0].dtype)
-            return
-        shape = intensors[1].get_numpy()
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('allowzero', 0)
+
+    def _target_shape(self, srcshape, shape):
         newshape = []
         for i in range(len(shape)):
-            if shape[i] == 0:
+            if shape[i] == 0 and not self.allowzero:
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
-        sum = volume(newshape)
-        raw = volume(srcshape)
-        if sum < 0:
-            remain = raw // -sum
-            for i, val in enumerate(newshape):
-                if val == -1:
-                    newshape[i] = remain
-                    break
-        assert raw == volume(newshape)
+        if -1 in newshape:
+            known = -math.prod(newshape)
+            newshape[newshape.index(-1)] = math.prod(srcshape) // known if known else 0
+        return newshape
+
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        srcshape = intensors[0].get_shape()
+        if not is_valid_ndarray(intensors[1].get_numpy()) and intensors[1].get_shape() != [0]:
+            outtensors[0].update_shape([1, ])
+            outtensors[0].update_dtype(intensors[0].dtype)
+            return
+        newshape = self._target_shape(srcshape, intensors[1].get_numpy())
+        assert math.prod(srcshape) == math.prod(newshape)
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        shape = []
         xtensor = intensors[0].get_numpy()
-        stensor = intensors[1].get_numpy()
-        for i, v in enumerate(stensor):
-            if v == 0:
-                shape.append(xtensor.shape[i])
-            else:
-                shape.append(v)
-        ret = xtensor.reshape(shape)
+        ret = xtensor.reshape(self._target_shape(xtensor.shape, intensors[1].get_numpy()))
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 6aa4277262f9840da5a00c242a7f9ade95bf93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 049/154] fix: infer RoiAlign with default output size

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4b58078..e096dbd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2201,6 +2201,8 @@ class FloorNode(FusedBase):
 class RoiAlignNode(Node):
     def __init__(self, node):
         super().__init__(node)
+        self.add_default_value('output_height', 1)
+        self.add_default_value('output_width', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From 59792423a4be1d0e36480de695db7d66f9dbb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 050/154] fix: take the top-k of the last axis by default

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e096dbd..24b5eb9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1927,14 +1927,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From fe56a33e4900b9d45f3cbb78a044a4d802a15189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 051/154] fix: infer GridSample whatever sequence type its
 input shapes have

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 24b5eb9..0694e26 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1117,8 +1117,9 @@ class GridSampleNode(Node):
         super().__init__(n)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        r = intensors[1].shape[-1]
-        out_shape = intensors[0].shape[:2] + intensors[1].shape[1:1 + r]
+        grid_shape = intensors[1].get_shape()
+        r = grid_shape[-1]
+        out_shape = intensors[0].get_shape()[:2] + grid_shape[1:1 + r]
         outtensors[0].update_shape(out_shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From cbe19e6f60201ce57591cae56143e8c9df54bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 052/154] fix: infer Resize with axes or default mode

---
 onnx_tool/node.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0694e26..59ec6e0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1350,34 +1350,35 @@ class ShapeNode(Node):
 
 @NODE_REGISTRY.register()
 class ResizeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('mode', b'nearest')
+        self.add_default_value('axes', None)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        roi = []
         sizes = []
-        if len(intensors) == 2:
+        if len(intensors) == 1:
+            scales = numpy.array(self.scales)
+        elif len(intensors) == 2:
             scales = intensors[1].get_numpy()
         elif len(intensors) >= 3:
-            roi = intensors[1].get_numpy()
             scales = intensors[2].get_numpy()
             if len(intensors) >= 4:
                 sizes = intensors[3].get_numpy()
 
-        newshape = []
+        # sizes and scales of the given axes, by default of all
+        axes = range(len(xshape)) if self.axes is None else _axes_neg2pos(len(xshape), self.axes)
+        newshape = list(xshape)
         if is_valid_ndarray(sizes):
-            if len(sizes) == len(xshape):
-                newshape = sizes
-            if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
-        else:
-            if is_valid_ndarray(scales):
-                newshape = []
-                for src, scale in zip(xshape, scales):
-                    newshape.append(math.floor(src * scale))
-
-        if is_valid_ndarray(newshape):
-            if newshape.dtype != numpy.int64:
-                newshape = newshape.astype(dtype=numpy.int64)
-        outtensors[0].update_shape(list(newshape))
+            if len(sizes) == 2 and self.axes is None:
+                axes = range(len(xshape))[2:]
+            for axis, size in zip(axes, sizes):
+                newshape[axis] = int(size)
+        elif is_valid_ndarray(scales):
+            for axis, scale in zip(axes, scales):
+                newshape[axis] = math.floor(xshape[axis] * scale)
+        outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 19e1ddaf1c50563004bafbe94b33c25d7a47211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 053/154] fix: infer QuantizeLinear without zero point as uint8

---
 onnx_tool/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 59ec6e0..d9d6f66 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2453,7 +2453,10 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        if len(intensors) > 2 and intensors[2].name != '':
+            outtensors[0].update_dtype(intensors[2].dtype)
+        else:
+            outtensors[0].update_dtype(numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 30732c5e551bee3b67c85dcebdf1d9835c68390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 054/154] fix: infer ConvTranspose with auto_pad and 3-D
 defaults

---
 onnx_tool/node.py | 51 +++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d9d6f66..1e371be 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2563,48 +2563,29 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('auto_pad', None)
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        outc = self.group * wshape[1]
-        if len(xshape) == 5:
-            od = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[3], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            ow = _convtranspose_output_shape(xshape[3], self.output_padding[1], self.pads[1] + self.pads[4], wshape[3],
-                                             self.strides[1],
-                                             self.dilations[1])
-            oh = _convtranspose_output_shape(xshape[4], self.output_padding[2], self.pads[2] + self.pads[5], wshape[4],
-                                             self.strides[2],
-                                             self.dilations[2])
-            shape = [xshape[0], outc, od, ow, oh]
-            if volume(self.output_shape) != 0:
-                shape[2:] = self.output_shape
-        if len(xshape) == 4:
-            ow = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[2], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            oh = _convtranspose_output_shape(xshape[3], self.output_padding[1], self.pads[1] + self.pads[3], wshape[3],
-                                             self.strides[1],
-                                             self.dilations[1])
-            shape = [xshape[0], outc, ow, oh]
-            if volume(self.output_shape) != 0:
-                shape[2:] = self.output_shape
-        elif len(xshape) == 3:
-            ow = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[1], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            shape = [xshape[0], outc, ow]
-            if volume(self.output_shape) != 0:
-                shape[2] = self.output_shape[0]
+        rank = len(xshape) - 2
+        shape = [xshape[0], self.group * wshape[1]]
+        if volume(self.output_shape) != 0:
+            shape += self.output_shape
+        else:
+            for i in range(rank):
+                if self.auto_pad in (b'SAME_LOWER', b'SAME_UPPER'):
+                    shape.append(xshape[2 + i] * self.strides[i])
+                    continue
+                pad = 0 if self.auto_pad == b'VALID' else self.pads[i] + self.pads[i + rank]
+                shape.append(_convtranspose_output_shape(xshape[2 + i], self.output_padding[i], pad, wshape[2 + i],
+                                                         self.strides[i], self.dilations[i]))
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From 2b866ea0d2ad45c8869aff5dd678c88b3a814cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 055/154] fix: evaluate Split with empty outputs at the end

---
 onnx_tool/node.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1e371be..2349b90 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2839,9 +2839,7 @@ class SplitNode(Node):
             split = self.split
 
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
-        for v in split:
-            if end + v >= inshape[axis]:
-                break
+        for v in split[:-1]:
             splitpos.append(end + v)
             end += v
         ret = numpy.split(intensors[0].get_numpy(), splitpos, axis)
-- 
2.43.0


From 24331e4658ff70c10b693d20d4eb317bf576c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 056/154] fix: infer a backward Slice of an empty dimension as
 empty

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2349b90..614fce5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1756,7 +1756,7 @@ class SliceNode(Node):
             if isinstance(st, int) and st < 0:
                 # negative stepping: start clamped to [0, dim-1]
                 if isinstance(dim, int):
-                    s = max(0, min(s, dim - 1))
+                    s = min(max(0, s), dim - 1)
                 else:
                     s = max(0, s)
             else:
-- 
2.43.0


From b9fa877815af37812a87cf2d3849e7f82cd00684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 057/154] fix: give every node a unique name in the graph

Nodes without a name, or sharing one, replaced each other in nodemap and were lost.
---
 onnx_tool/graph.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..b252038 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -413,10 +413,20 @@ class Graph():
         for n in remove_list:
             self.remove_node(n)
 
+    def __unique_node_name__(self, name, reserved=()):
+        # node names are optional and not necessarily unique in ONNX, but they are the keys of nodemap
+        unique_name = name
+        count = 0
+        while unique_name in self.nodemap or unique_name in reserved:
+            count += 1
+            unique_name = name + '_' + str(count)
+        return unique_name
+
     def __add_node_from_proto__(self, node_proto):
         newnode = create_node(node_proto)
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
+        newnode.name = self.__unique_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
             if tensor in self.producedby:
@@ -441,10 +451,15 @@ class Graph():
 
         tm = timer()
         tm.start()
+        # a generated name must not hide a node that carries the same name in the file
+        given_names = set() if noderename else set(node.name for node in g.node)
         for node in g.node:
             newnode = create_node(node)
             if noderename or len(newnode.name) == 0:
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
+                newnode.name = self.__unique_node_name__(newnode.name, given_names)
+            else:
+                newnode.name = self.__unique_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
                 if tensor in self.producedby:
-- 
2.43.0


From f82883d383e6e5ac6d0cea0c26917267ec2dc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 058/154] fix: treat the axes input of every Reduce operator,
 and of Pad, as a shape tensor

Axes coming from a Constant node were not evaluated, so the reduction was inferred over all axes.
---
 onnx_tool/graph.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b252038..3354227 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -30,13 +30,21 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
-    'NonMaxSuppression': ('2of5', '2of4'),
+    'Pad': ('1of2', '1of3', '1,3of4'),
+    'NonMaxSuppression': ('2of5', '2of4', '2of3'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceL1': ('1of2',),
+    'ReduceL2': ('1of2',),
+    'ReduceLogSum': ('1of2',),
+    'ReduceLogSumExp': ('1of2',),
+    'ReduceSumSquare': ('1of2',),
 }
 
 
-- 
2.43.0


From 85cd98b4269d6d0d30130bfe9ed84da63996ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 059/154] fix: do not treat omitted optional inputs and outputs
 ('') as a tensor

An omitted output shared its Tensor with every omitted input, became producer, consumer, graph input and dependency of unrelated nodes.
---
 onnx_tool/graph.py | 73 +++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3354227..9e45ff1 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -223,6 +223,8 @@ class Graph():
         if constant_folding:
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
+                    if tname == '':
+                        continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -230,7 +232,7 @@ class Graph():
                         if tname not in self.dynamics:
                             self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname not in self.dynamics and tname != '':
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
@@ -238,13 +240,13 @@ class Graph():
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-                    if tname not in self.initials and tname not in self.dynamics:
+                    if tname not in self.initials and tname not in self.dynamics and tname != '':
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname not in self.dynamics and tname != '':
                         self.dynamics.append(tname)
 
-        valid_tensors = []
+        valid_tensors = ['']
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
         rm_list = []
@@ -265,7 +267,7 @@ class Graph():
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
-                    if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
+                    if tensor != '' and (tensor not in self.consumedby or len(self.consumedby[tensor]) == 0):
                         if tensor not in self.output:
                             self.output.append(tensor)
         self.__update_consumer_producer__()
@@ -296,14 +298,10 @@ class Graph():
                     this_node = self.nodemap[search_nodes[0]]
                     search_nodes.pop(0)
                     if constant_folding:
-                        itensors = []
+                        itensors, otensors = self.__get_node_tensors__(this_node)
                         for input in this_node.input:
-                            itensors.append(self.tensormap[input])
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
-                        otensors = []
-                        for output in this_node.output:
-                            otensors.append(self.tensormap[output])
                         this_node.value_infer(itensors, otensors)
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
@@ -326,14 +324,24 @@ class Graph():
         for name in self.nodemap:
             node = self.nodemap[name]
             for tensor in node.input:
+                if tensor == '':
+                    continue
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
             for tensor in node.output:
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(node.name)
 
+    def __get_node_tensors__(self, node):
+        itensors = [self.tensormap[input] for input in node.input]
+        # '' marks an omitted output: its result must not be stored where '' inputs are looked up
+        otensors = [self.tensormap[output] if output != '' else Tensor('') for output in node.output]
+        return itensors, otensors
+
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
         self.dynamics = list(self.producedby.keys())
@@ -437,18 +445,22 @@ class Graph():
         newnode.name = self.__unique_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
+            newnode.input.append(tensor)
+            if tensor == '':
+                continue
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
             if tensor not in self.consumedby:
                 self.consumedby[tensor] = []
             self.consumedby[tensor].append(newnode.name)
-            newnode.input.append(tensor)
         for tensor in node_proto.output:
+            newnode.output.append(tensor)
+            if tensor == '':
+                continue
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
-            newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
 
     def __init_graph_from_onnxproto__(self, g, noderename):
@@ -470,18 +482,22 @@ class Graph():
                 newnode.name = self.__unique_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
+                newnode.input.append(tensor)
+                if tensor == '':  # an omitted optional input is not a tensor
+                    continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
-                newnode.input.append(tensor)
             for tensor in node.output:
+                newnode.output.append(tensor)
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(newnode.name)
-                newnode.output.append(tensor)
 
             self.nodemap[newnode.name] = newnode
 
@@ -942,7 +958,8 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             for tname in node.output:
-                produced_by[tname] = name
+                if tname != '':
+                    produced_by[tname] = name
 
         consumed_by = {}
         dependencies = {}
@@ -1007,6 +1024,8 @@ class Graph():
                     intensors.append(input)
 
             for output in self.nodemap[name].output:
+                if len(output) == 0:
+                    continue
                 if remove_initials and output in self.initials:
                     continue
                 if output in self.consumedby:
@@ -1059,12 +1078,7 @@ class Graph():
         for key in self.nodemap.keys():
             tm.start()
             node = self.nodemap[key]
-            itensors = []
-            for input in node.input:
-                itensors.append(self.tensormap[input])
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            itensors, otensors = self.__get_node_tensors__(node)
             try:
                 if node.shape_calc:
                     node.value_infer(itensors, otensors)
@@ -1084,12 +1098,7 @@ class Graph():
         self.update_input_by_map(inputs)
         for key in self.nodemap.keys():
             node = self.nodemap[key]
-            itensors = []
-            for input in node.input:
-                itensors.append(self.tensormap[input])
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            itensors, otensors = self.__get_node_tensors__(node)
             node.value_infer(itensors, otensors)
         outputs = []
         for output in self.output:
@@ -1464,7 +1473,7 @@ class Graph():
         ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
-            itensors = []
+            itensors, otensors = self.__get_node_tensors__(node)
             _params = 0
             _memory = 0
             max_sparsity = 0
@@ -1472,26 +1481,22 @@ class Graph():
 
             for input in node.input:
                 tensor = self.tensormap[input]
-                itensors.append(tensor)
                 if tensor.sparsity is not None and tensor.sparsity['ratio'] > max_sparsity:
                     max_sparsity = tensor.sparsity['ratio']
                     block_sparsity = tensor.sparsity
             # Annotate static/dynamic inputs on the node
             node.static_inputs = [i for i, t in enumerate(itensors) if t.name != '' and t.type == STATIC_TENSOR]
             node.dynamic_inputs = [i for i, t in enumerate(itensors) if t.name != '' and t.type == DYNAMIC_TENSOR]
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
             ret = node.profile(itensors, otensors)
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
             _params = sum(volume(itensors[i].get_shape()) for i in node.static_inputs)
-            io_elesize = self.tensormap[node.output[0]].get_elementsize() if node.output else 4
+            io_elesize = otensors[0].get_elementsize() if node.output else 4
             static_elesize = self.tensormap[node.input[0]].get_elementsize() if node.input else 4
             _memory = ret[1] * io_elesize + ret[2] * static_elesize
             outshape = (0,)
             if len(node.output) > 0:
-                outshape = self.tensormap[node.output[0]].get_shape()
+                outshape = otensors[0].get_shape()
                 outshape = (0,) if len(outshape) == 0 else outshape
             inshape = (0,)
             if len(node.input) > 0:
-- 
2.43.0


From 595c7da93d9e0c18292407fae69a1efb0b8b4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 060/154] fix: save scalar, unknown and unannotated tensor
 shapes as what they are

A scalar was saved with unknown rank, an unknown dimension as -1, and a tensor nothing is known of as float32.
---
 onnx_tool/graph.py  |  2 ++
 onnx_tool/tensor.py | 26 ++++++++++++++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9e45ff1..28ff062 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -937,6 +937,8 @@ class Graph():
                 if key in self.input or key in self.output:
                     continue
                 tensor = self.tensormap[key]
+                if not tensor.known_shape and not tensor.known_dtype:
+                    continue
                 vinfo = tensor.make_value_proto()
                 if vinfo is None:
                     continue
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f5806da..9e93c1b 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -379,7 +379,12 @@ class Tensor():
 
     def __init__(self, t):
         from .node import Node
+        self.known_shape = True
+        self.known_dtype = True
         if isinstance(t, str):
+            # nothing is known yet, shape and dtype are placeholders
+            self.known_shape = False
+            self.known_dtype = False
             self.name = t
             self.proto = None
             self.shape = []
@@ -390,6 +395,7 @@ class Tensor():
             self.name = t.name
             self.proto = t
             self.shape = shape_of_tensor(t)
+            self.known_shape = t.type.tensor_type.HasField('shape')
             self.numpy = None
             self.type = DYNAMIC_TENSOR
             self.dtype = type_of_tensor(t)
@@ -420,9 +426,11 @@ class Tensor():
         if isinstance(shape, numpy.ndarray):
             assert 0
         self.shape = shape
+        self.known_shape = True
 
     def update_dtype(self, dtype):
         self.dtype = dtype
+        self.known_dtype = True
 
     def shape2str(self):
         st = '['
@@ -484,8 +492,10 @@ class Tensor():
         self.sparsity = {'blocksize': blocksize, 'blockratio': blockratio, 'ratio': ratio}
 
     def make_value_proto(self, make_dummy=False):
-        shape = self.get_shape()
-        if len(self.shape) == 0:
+        if self.known_shape:
+            # -1 is the placeholder of an unknown dimension
+            shape = [None if s == -1 else s for s in self.get_shape()]
+        else:
             shape = None
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
@@ -518,18 +528,14 @@ class Tensor():
 def create_initial_Tensor(name: str, ndarray: numpy.ndarray):
     t = Tensor(name)
     t.type = STATIC_TENSOR
-    t.numpy = ndarray
-    t.shape = t.numpy.shape
+    t.update_tensor(ndarray)
     t.proto = t.make_tensor_proto()
-    t.dtype = t.numpy.dtype.type
     return t
 
 def create_dynamic_Tensor(name: str, ndarray: numpy.ndarray):
     t = Tensor(name)
     t.type = DYNAMIC_TENSOR
-    t.numpy = ndarray
-    t.shape = t.numpy.shape
-    t.dtype = t.numpy.dtype.type
+    t.update_tensor(ndarray)
     t.proto = t.make_value_proto()
     return t
 
@@ -537,7 +543,7 @@ def create_tensor(name: str, type, shape, dtype):
     t = Tensor(name)
     t.type = type
     t.numpy = None
-    t.shape = shape
+    t.update_shape(shape)
+    t.update_dtype(dtype)
     t.proto = t.make_value_proto()
-    t.dtype = dtype
     return t
-- 
2.43.0


From 4c557810ca845d22b6d9319aef8f4faf1f680641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 061/154] fix: save nodes with their domain and all their
 attributes

The operator domain was dropped, empty lists could not be saved, and an attribute named like a field of Node or an argument of make_node replaced it.
---
 onnx_tool/node.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 614fce5..8eb57fb 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -212,6 +212,14 @@ class TmpNodeProto:
         self.attribute = attributes
 
 
+def _same_attribute_value(a, b):
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, (list, tuple)):
+        return len(a) == len(b) and all(_same_attribute_value(x, y) for x, y in zip(a, b))
+    return a == b
+
+
 class Node():
     def __init__(self, n: onnx.NodeProto | TmpNodeProto):
         self.name = n.name
@@ -233,6 +241,8 @@ class Node():
         else:
             for att in n.attribute:
                 self.attr[att.name] = onnx.helper.get_attribute_value(att)
+                if hasattr(self, att.name) or att.name == 'constant':
+                    continue  # never hide a field or method of Node, the value is in self.attr
                 self.__setattr__(att.name, get_attribute_data(att))
                 if att.name == 'axes':
                     if isinstance(self.axes, list):
@@ -247,7 +257,21 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name,
+                                     domain=getattr(self.proto, 'domain', None))
+        loaded = {}
+        if not isinstance(self.proto.attribute, dict):
+            loaded = {att.name: att for att in self.proto.attribute}
+        for key in sorted(self.attr.keys()):
+            value = self.attr[key]
+            if value is None:
+                continue
+            if key in loaded and _same_attribute_value(onnx.helper.get_attribute_value(loaded[key]), value):
+                # keeps the attribute type, which the value alone does not tell (empty lists)
+                node.attribute.append(loaded[key])
+            else:
+                node.attribute.append(onnx.helper.make_attribute(key, value))
+        return node
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 5596f9aa3ef0f7a850f7456dc12e754b7bf36ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 062/154] fix: keep graph inputs, weights and outputs of the
 file when saving

Graph inputs changed their order; weights read only by a subgraph body or returned as a graph output, and unused weights, were turned into graph inputs or lost; an input returned as it is was dropped.
---
 onnx_tool/graph.py | 40 +++++++++++++++++++++++++++++++---------
 onnx_tool/node.py  | 20 ++++++++++++++++++++
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 28ff062..b2adb55 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -222,8 +222,8 @@ class Graph():
 
         if constant_folding:
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
-                    if tname == '':
+                for tname in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
+                    if tname == '' or tname not in self.tensormap:
                         continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
@@ -234,17 +234,28 @@ class Graph():
                 for tname in self.nodemap[name].output:
                     if tname not in self.dynamics and tname != '':
                         self.dynamics.append(tname)
+            for tname in self.output:
+                if tname in self.tensormap and tname not in self.initials and tname not in self.dynamics:
+                    if self.tensormap[tname].type == STATIC_TENSOR:
+                        self.initials.append(tname)
+                    else:
+                        self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
                 self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
+                    if tname not in self.tensormap:
+                        continue
                     if tname not in self.initials and tname not in self.dynamics and tname != '':
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
                     if tname not in self.dynamics and tname != '':
                         self.dynamics.append(tname)
+            for tname in self.output:
+                if tname not in self.initials and tname not in self.dynamics:
+                    self.dynamics.append(tname)
 
         valid_tensors = ['']
         valid_tensors.extend(self.initials)
@@ -256,20 +267,23 @@ class Graph():
         for tname in rm_list:
             self.tensormap.pop(tname)
 
-        self.input = []
+        used_inputs = []
         if not self.cfg.remove_dangling:
             self.output = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input:
-                if tensor not in self.producedby and tensor in self.dynamics:
-                    if tensor not in self.input:
-                        self.input.append(tensor)
+            used_inputs.extend(node.input)
+            used_inputs.extend(node.get_subgraph_inputs())
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
                     if tensor != '' and (tensor not in self.consumedby or len(self.consumedby[tensor]) == 0):
                         if tensor not in self.output:
                             self.output.append(tensor)
+        used_inputs.extend(self.output)
+        used_inputs = [t for t in dict.fromkeys(used_inputs) if t in self.dynamics and t not in self.producedby]
+        # keep the order of the file
+        self.input = [i.name for i in self.rawgraph.input if i.name in used_inputs]
+        self.input.extend(t for t in used_inputs if t not in self.input)
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
@@ -277,6 +291,8 @@ class Graph():
         constant_node = True
         if node.op_type in ['DequantizeLinear']:
             return False
+        if any(isinstance(val, onnx.GraphProto) for val in node.attr.values()):
+            return False
         for tname in node.input:
             if self.tensormap[tname].type == DYNAMIC_TENSOR:
                 constant_node = False
@@ -666,7 +682,7 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
@@ -903,6 +919,10 @@ class Graph():
         initializer = None
         if with_initializer:
             initializer = self.get_initials_from_nodenames(nodenames)
+            saved_names = [proto.name for proto in initializer]
+            for name in outputnames:  # a weight may be a graph output
+                if name in self.initials and name not in saved_names and self.tensormap[name].numpy is not None:
+                    initializer.append(self.tensormap[name].make_tensor_proto())
 
         inputs = []
         outputs = []
@@ -922,6 +942,8 @@ class Graph():
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
+            if with_initializer and self.tensormap[name].numpy is not None:
+                continue  # has data, but nothing in this graph reads it
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
                 if proto is not None:
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8eb57fb..8328a3d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -212,6 +212,22 @@ class TmpNodeProto:
         self.attribute = attributes
 
 
+def _outer_tensors(attribute_values):
+    names = []
+    for val in attribute_values:
+        if isinstance(val, (list, tuple)):
+            names.extend(_outer_tensors(val))
+        if not isinstance(val, onnx.GraphProto):
+            continue
+        local = {t.name for t in val.input} | {t.name for t in val.initializer} | {''}
+        for n in val.node:
+            used = list(n.input) + _outer_tensors([onnx.helper.get_attribute_value(a) for a in n.attribute])
+            names.extend(name for name in used if name not in local)
+            local.update(n.output)
+        names.extend(t.name for t in val.output if t.name not in local)
+    return list(dict.fromkeys(names))
+
+
 def _same_attribute_value(a, b):
     if type(a) is not type(b):
         return False
@@ -248,6 +264,10 @@ class Node():
                     if isinstance(self.axes, list):
                         self.axes = tuple(self.axes)
 
+    def get_subgraph_inputs(self):
+        """Names of the outer tensors which the bodies of a control flow node read."""
+        return _outer_tensors([val for val in self.attr.values()])
+
     def set_attr(self, key, val):
         self.attr[key] = val
         self.__setattr__(key, val)
-- 
2.43.0


From 119fd32e454fb19d45ce68641d81561706930a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 063/154] fix: reorder nodes with the tensors their subgraphs
 read

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b2adb55..899cf48 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -990,7 +990,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in node.input:
+            for tname in node.input + node.get_subgraph_inputs():
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
-- 
2.43.0


From 16d8f49958fd52ea2e135229e52157e407d06f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 064/154] fix: profile LSTM and GRU without bias and count both
 directions

---
 onnx_tool/node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8328a3d..d46f030 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2071,14 +2071,14 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 and intensors[3].name != '' else []
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # ft = sig(W*X+U*Ht-1+B)
         # it = sig(W*X+U*Ht-1+B)
         # ot = sig(W*X+U*Ht-1+B)
@@ -2723,11 +2723,12 @@ class GRUNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 and intensors[3].name != '' else []
         batch = xshape[1]
         seq = xshape[0]
+        num_dir = wshape[0]
         h_len = wshape[1] // 3
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
         # z = sigmoid(Wz*X+Wz*Ht-1+bz)
         # h' = tanh(W*X+W*(r*Ht-1)+bh)
-- 
2.43.0


From dc1c43dacb31eb01eb839a4d772decb28c0dd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 065/154] fix: profile LayerNormalization over all the axes it
 normalizes

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d46f030..1d5ff94 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2483,8 +2483,7 @@ class LayerNormalizationNode(Node):
         tshape = intensors[0].get_shape()
         axis = _axes_neg2pos(len(tshape), [self.axis])[0]
         vol = volume(tshape)
-        tshape[axis] = 1
-        vol2 = volume(tshape)
+        vol2 = math.prod(tshape[:axis])  # one mean and variance per normalized slice
         return vol * (MUL_MACS * 3 + ADD_MACS * 4) + vol2 * (ADD_MACS + SQRT_MACS + DIV_MACS)
 
 
-- 
2.43.0


From 75593278fb2bec9874f204c0cdd743e1de5f5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 066/154] fix: count the multiply-adds of ConvTranspose per
 input element

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1d5ff94..d2d837e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2640,8 +2640,9 @@ class ConvTransposeNode(Node):
                 outvol = volume(outtensors[0].get_shape())
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
-                macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                # every input element meets the kernel of each of its output channels
+                macs += volume(intensors[0].get_shape()) * reduce_vol * MUL_MACS
+                if len(intensors) > 2 and intensors[2].name != '':
                     macs += (outvol * ADD_MACS)
         return macs
 
-- 
2.43.0


From 0b0f3ce4e7dfaf48e0c290c8437a06fae7cfa8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 067/154] fix: count the table rows a Gather reads as static
 only if the table is static

---
 onnx_tool/node.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d2d837e..06adf05 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1064,12 +1064,11 @@ class GatherNode(Node):
 
     def profile(self, intensors: List[Tensor], outtensors: List[Tensor]):
         # Embedding lookup: only seq_len rows of the weight table are accessed
-        weight_shape = intensors[0].get_shape()
-        ids_shape = intensors[1].get_shape()
-        seq_tokens = volume(ids_shape)
-        hidden = weight_shape[-1]
         io_params = volume(outtensors[0].get_shape())  # output activation
-        static_params = seq_tokens * hidden  # weight rows accessed
+        static_params = 0
+        for i in self.static_inputs:
+            # weight rows accessed: as many elements as the output has
+            static_params += io_params if i == 0 else volume(intensors[i].get_shape())
         return [0, io_params, static_params]
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 14cc4fa5922c288b456b85a051ae436853e90d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 068/154] fix: count MatMul of vectors and of broadcast
 batches, and no bias for omitted inputs and zero points

---
 onnx_tool/node.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 06adf05..0d7e5c6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1013,16 +1013,15 @@ class GemmNode(Node):
         yshape = outtensors[0].get_shape()
         if len(intensors) >= 2:
             weight_shape = intensors[1].get_shape()
-            macs = volume(yshape)
-            if self.__class__ == GemmNode:
+            macs = math.prod(yshape)  # 1 for the product of two vectors
+            if isinstance(self, MatMulNode):
+                macs *= weight_shape[-2] if len(weight_shape) > 1 else weight_shape[0]
+            else:
                 if self.transB > 0:
                     macs *= weight_shape[-1]
                 else:
                     macs *= weight_shape[-2]
-            else:
-                if len(weight_shape) > 1:
-                    macs *= weight_shape[-2]
-            if len(intensors) == 3:
+            if len(intensors) == 3 and intensors[2].name != '':
                 macs += volume(yshape) * ADD_MACS
         else:
             raise NotImplementedError()
@@ -2158,7 +2157,7 @@ class ConvNode(Node):
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if len(intensors) > 2 and intensors[2].name != '':
                     macs += (outvol * ADD_MACS)
         return macs
 
@@ -2502,7 +2501,7 @@ class QuantizeLinearNode(PWNode):
 
 
 @NODE_REGISTRY.register()
-class MatMulIntegerNode(GemmNode):
+class MatMulIntegerNode(MatMulNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
@@ -2510,6 +2509,10 @@ class MatMulIntegerNode(GemmNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
 
+    def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        # the third and fourth inputs are zero points, not a bias
+        return super()._profile_core(intensors[:2], outtensors)
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
@@ -2530,12 +2533,8 @@ class QLinearMatMulNode(GemmNode):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
+        # 1 output element for the product of two vectors
+        macs = math.prod(outtensors[0].get_shape()) * xshape[-1]
         return macs
 
 
-- 
2.43.0


From c2be401a6b04011de8b5d01cc22873d8f53282cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 069/154] fix: profile quantized convolutions and poolings of
 any rank

---
 onnx_tool/node.py | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0d7e5c6..d22533e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1463,10 +1463,7 @@ class PoolBase(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
-        macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
-        return macs
+        return outvol * CMP_MACS * volume(self.kernel_shape)
 
 
 @NODE_REGISTRY.register()
@@ -2556,16 +2553,9 @@ class QLinearConvNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[3].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
-            if len(intensors) == 9:
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
+            if len(intensors) == 9 and intensors[8].name != '':
                 macs += (outvol * ADD_MACS)
         return macs
 
@@ -2588,15 +2578,8 @@ class ConvIntegerNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[1].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
         return macs
 
 
-- 
2.43.0


From b8661fe356530a0a993411fa258530a7e77e542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 070/154] fix: count every operand of Max, Min and Sum

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d22533e..79729b3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -355,7 +355,7 @@ class NpMathBase(Node):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
-        self.ratio = max(1, len(self.input) - 1)
+        self.ratio = max(1, len(getattr(n, 'input', ())) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshapes = []
@@ -811,7 +811,7 @@ class SumNode(PWNode):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = ADD_MACS
-        self.ratio = len(nodeproto.input) - 1
+        self.ratio = max(1, len(nodeproto.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(_broadcast_shape([tensor.get_shape() for tensor in intensors]))
-- 
2.43.0


From f7c2dad7258a3d1e430865ef7e4bc6f1ec73f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 071/154] fix: take the memory of every tensor with its own
 element size

---
 onnx_tool/graph.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 899cf48..47156bc 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1486,6 +1486,12 @@ class Graph():
 
         return cg
 
+    def __get_memsize__(self, count, tensors, typed):
+        if count == sum(volume(t.get_shape()) for t in tensors):
+            return sum(t.get_memsize() for t in tensors)  # the tensors can have different types
+        # a node which counts the elements it touches itself
+        return count * (typed[0].get_elementsize() if typed else 4)
+
     def profile(self, exclude_ops = None):
         self.valid_profile = False
         if not self.valid_shape:
@@ -1515,9 +1521,9 @@ class Graph():
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
             _params = sum(volume(itensors[i].get_shape()) for i in node.static_inputs)
-            io_elesize = otensors[0].get_elementsize() if node.output else 4
-            static_elesize = self.tensormap[node.input[0]].get_elementsize() if node.input else 4
-            _memory = ret[1] * io_elesize + ret[2] * static_elesize
+            statics = [itensors[i] for i in node.static_inputs]
+            _memory = self.__get_memsize__(ret[1], otensors, otensors)
+            _memory += self.__get_memsize__(ret[2], statics, statics + itensors)
             outshape = (0,)
             if len(node.output) > 0:
                 outshape = otensors[0].get_shape()
-- 
2.43.0


From c3683f379e4538fd8a004f3082d8899e93fe613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 072/154] fix: do not add excluded operators to the default
 hidden operators of later calls

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index f4358c9..c8629d8 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -78,7 +78,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()) | set(exclude_ops)  # hidden_ops is the caller's, or the shared default
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From b825d10ae46b79cbc7a4a5348bacddb11d93b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 073/154] fix: report the profiled, not excluded nodes in graph
 order and their totals

---
 onnx_tool/graph.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 47156bc..c822364 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1500,8 +1500,8 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
-        for key in ops_to_cover:
+        self.profiled_nodes = [k for k, v in self.nodemap.items() if not exclude_ops or v.op_type not in exclude_ops]
+        for key in self.profiled_nodes:
             node = self.nodemap[key]
             itensors, otensors = self.__get_node_tensors__(node)
             _params = 0
@@ -1545,13 +1545,18 @@ class Graph():
             self.memory += _memory
 
         # Dedup params: sum each static tensor's volume only once
-        self.dedup_params = 0
-        for key in self.initials:
-            if key in self.consumedby and len(self.consumedby[key]) > 0:
-                self.dedup_params += volume(self.tensormap[key].get_shape())
+        self.dedup_params = self.__get_dedup_params__(self.profiled_nodes)
 
         self.valid_profile = True
 
+    def __get_dedup_params__(self, nodenames):
+        nodenames = set(nodenames)
+        dedup_params = 0
+        for key in self.initials:
+            if key in self.consumedby and not nodenames.isdisjoint(self.consumedby[key]):
+                dedup_params += volume(self.tensormap[key].get_shape())
+        return dedup_params
+
     def print_node_map(self, f: str = None, metric='MACs', exclude_ops=None):
         if not self.valid_profile:
             warnings.warn('Please perform a valid profile() before print_node_map().')
@@ -1567,9 +1572,14 @@ class Graph():
 
         ptable = []
 
-        forward_macs = int(round(self.macs[0]))
-        params = int(self.params)
-        memory = int(self.memory)
+        # the nodes of the last profile() which are not excluded, and their totals
+        ops_to_cover = [k for k in self.profiled_nodes if
+                        k in self.nodemap and not (exclude_ops and self.nodemap[k].op_type in exclude_ops)]
+        forward_macs = int(round(sum(self.nodemap[k].macs for k in ops_to_cover)))
+        params = int(sum(self.nodemap[k].params for k in ops_to_cover))
+        memory = int(sum(self.nodemap[k].memory for k in ops_to_cover))
+        total = (forward_macs, memory, params)
+        dedup_params = self.__get_dedup_params__(ops_to_cover)
 
         shared_size = 0
         for key in self.tensormap.keys():
@@ -1600,7 +1610,6 @@ class Graph():
         params += 1e-18
         memory += 1e-18
         forward_macs += 1e-18
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
             row = [key, self.nodemap[key].op_type]
@@ -1624,22 +1633,22 @@ class Graph():
             row.append('_')
             row.append('_')
             row.append('_')
-        row.append(num2str(int(forward_macs * factor), csvformat))
+        row.append(num2str(total[0] * factor, csvformat))
         row.append('100%')
-        row.append(num2str(int(memory), csvformat))
+        row.append(num2str(total[1], csvformat))
         row.append('100%')
-        row.append(num2str(int(params), csvformat))
+        row.append(num2str(total[2], csvformat))
         row.append('100%')
         row.append('_')
         row.append('_')
 
         ptable.append(row)
         # Dedup params row (only shown when different from params)
-        if self.dedup_params != self.params:
+        if dedup_params != total[2]:
             dedup_row = ['Dedup_Params', '_']
             if print_sparse_table:
                 dedup_row.extend(['_', '_', '_'])
-            dedup_row.extend(['_', '_', '_', '_', num2str(int(self.dedup_params), csvformat),
+            dedup_row.extend(['_', '_', '_', '_', num2str(int(dedup_params), csvformat),
                               '_', '_', '_'])
             ptable.append(dedup_row)
         header = ['Name', 'Type']
-- 
2.43.0


From ab3b73f9894d23449d3c35c5916658a0b436e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 074/154] fix: quote names with commas in CSV reports

---
 onnx_tool/utils.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/utils.py b/onnx_tool/utils.py
index 2e6311b..b1e0423 100644
--- a/onnx_tool/utils.py
+++ b/onnx_tool/utils.py
@@ -1,3 +1,4 @@
+import csv
 import time
 import warnings
 from tabulate import tabulate
@@ -54,21 +55,9 @@ def print_table(ptable, header, f):
     else:
         fp = open(f, 'w')
         if saveformat == 'csv':
-            headerstr = ''
-            for i, item in enumerate(header):
-                headerstr += item
-                if i < len(header) - 1:
-                    headerstr += ','
-            headerstr += '\n'
-            fp.write(headerstr)
-            for row in ptable:
-                str = ''
-                for i, ele in enumerate(row):
-                    str += ele
-                    if i != len(row) - 1:
-                        str += ','
-                str += '\n'
-                fp.write(str)
+            writer = csv.writer(fp, lineterminator='\n')  # quotes names with a comma or a quote
+            writer.writerow(header)
+            writer.writerows(ptable)
         else:
             fp.write(tabulate(ptable, headers=header))
         fp.close()
-- 
2.43.0


From 3eaa4721f67b8c2f7191f11bdefea76d62129007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 075/154] fix: keep a graph output in memory after its last
 consumer

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c822364..b99f874 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1265,7 +1265,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From 99c31327b6262dc0407f7f685e0a582fb96e3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 076/154] fix: keep the graph inputs among the dynamic tensors
 when nodes are reordered

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b99f874..799a993 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -360,7 +360,8 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = [name for name in self.input if name not in self.initials and name not in self.producedby]
+        self.dynamics.extend(self.producedby.keys())
 
     def __remove_if__(self):
         while True:
-- 
2.43.0


From 4481a55e962a3723faf0478a861af7cdfc439e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 077/154] fix: compress the memory of a graph without
 intermediate tensors

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 799a993..44e5d6d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1434,7 +1434,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From 4a167697f22d38fd1a6a51b175d50f7dd8a05e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 078/154] fix: give scalar activations memory

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 44e5d6d..736a14f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1282,7 +1282,8 @@ class Graph():
             if tname not in self.producedby and tname not in self.input:
                 continue
             if tname in self.tensormap:
-                size_ = self.tensormap[tname].get_memsize()
+                tensor = self.tensormap[tname]
+                size_ = math.prod(tensor.get_shape()) * tensor.get_elementsize()  # a scalar has one element
                 size_ = int((size_ + size_padding - 1) // size_padding * size_padding)
                 if size_ > 0:
                     tensor_sizes[tname] = size_
-- 
2.43.0


From 486fe2e4d94a4b4882ecc0a7bef33a47ed8e458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 079/154] fix: keep the nodes a compute graph needs for its
 data and its outputs

---
 onnx_tool/graph.py | 50 +++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 736a14f..59473a4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1441,39 +1441,21 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
-        nodes = []
-        rmnodes = []
-        for key in cg.nodemap.keys():
-            node = cg.nodemap[key]
-            if node.shape_calc:
-                rmnodes.append(key)
-                continue
-            dummy_node = True
-            for output in node.output:
-                dummy = True
-                if output in cg.consumedby.keys():
-                    for consumer in cg.consumedby[output]:
-                        if not cg.nodemap[consumer].shape_calc:
-                            dummy = False
-                            break
-                else:
-                    dummy = False
-                dummy_node = dummy_node and dummy
-            if dummy_node:
-                rmnodes.append(key)
-                searchnodes = [key]
-                while len(searchnodes) > 0:
-                    this_node = self.nodemap[searchnodes[0]]
-                    searchnodes.pop(0)
-                    for input in this_node.input:
-                        if input in self.producedby:
-                            if len(self.consumedby[input]) == 1:
-                                pnodename = self.producedby[input][0]
-                                if pnodename not in rmnodes:
-                                    rmnodes.append(pnodename)
-                                searchnodes.append(pnodename)
-                continue
-            nodes.append(node.name)
+        # a node computes if an output depends on it otherwise than through the shape tensor of another node
+        searchnodes = [key for key, node in self.nodemap.items()
+                       if any(o in self.output or o not in self.consumedby for o in node.output if o != '')]
+        computing = set(searchnodes)
+        while len(searchnodes) > 0:
+            node = self.nodemap[searchnodes.pop()]
+            shape_tensors = _contains_shape_tensor(node)
+            for tensor in node.input + node.get_subgraph_inputs():
+                if node.input.count(tensor) > 0 and node.input.count(tensor) == shape_tensors.count(tensor):
+                    continue
+                for producer in self.producedby.get(tensor, []):
+                    if producer not in computing:
+                        computing.add(producer)
+                        searchnodes.append(producer)
+        rmnodes = [key for key in cg.nodemap if key not in computing]
         self.log(f'Total Nodes:{len(cg.nodemap)} Removed Shape Nodes:{len(rmnodes)}')
         for key in rmnodes:
             cg.remove_node(key)
@@ -1484,7 +1466,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
+                if output not in cg.dynamics and output != '':
                     cg.dynamics.append(output)
 
         return cg
-- 
2.43.0


From d480a9f9c976a462ceb10c067d470dacc71eea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 080/154] fix: leave the graph as it is when its compute graph
 is extracted

---
 onnx_tool/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 59473a4..e199471 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1441,6 +1441,9 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
+        cg.nodemap = dict(self.nodemap)
+        cg.producedby = {key: list(val) for key, val in self.producedby.items()}
+        cg.consumedby = {key: list(val) for key, val in self.consumedby.items()}
         # a node computes if an output depends on it otherwise than through the shape tensor of another node
         searchnodes = [key for key, node in self.nodemap.items()
                        if any(o in self.output or o not in self.consumedby for o in node.output if o != '')]
-- 
2.43.0


From 83545ea09e59f0322b320dc7149177b1f7e04cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 081/154] fix: match every described connection of a fusion
 pattern

search_node kept only the result of the last inport and of any outport, never backtracked, failed on graph inputs and left placeholders in the groups
---
 onnx_tool/fusion.py | 194 ++++++++++++++------------------------------
 1 file changed, 59 insertions(+), 135 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..61959d4 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -308,153 +308,77 @@ class FusionPattern():
         self.first_key = nodedescs[0]['name']
         self.inplace_fusion = inplace_fusion
         self.append_fusion = inplace_fusion
+        self.links = []  # (producer, output port, consumer, input port, described by the producer)
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
+            for inidx, key, outidx in desc['inport']:
+                self.links.append((key, outidx, desc['name'], inidx, False))
+            for outidx, key, inidx in desc['outport']:
+                self.links.append((desc['name'], outidx, key, inidx, True))
+
+    def is_linked(self, link, assigned, graph):
+        srckey, outidx, dstkey, inidx, is_outport = link
+        src = graph.nodemap[assigned[srckey]]
+        dst = graph.nodemap[assigned[dstkey]]
+        for i, tname in enumerate(src.output):
+            if tname == '' or outidx not in (-1, i):
+                continue
+            if is_outport and self.append_fusion and len(set(graph.consumedby.get(tname, []))) > 1:
+                # inpalce_fusion the consumer op will be appended to this op as postop
+                # it requires that the output of this op is consumed by next op only
+                continue
+            for j, iname in enumerate(dst.input):
+                if iname == tname and inidx in (-1, j):
+                    return True
+        return False
 
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
-        else:
-            searched.remove(curnodename)
-            return False, None
+    def search_node(self, assigned, graph):
+        """Extend assigned, {desc name: node name}, to all node descriptions. None if it is impossible."""
+        key, candidates = None, []
+        for srckey, _, dstkey, _, _ in self.links:
+            if srckey in assigned and dstkey not in assigned:
+                key = dstkey
+                for tname in graph.nodemap[assigned[srckey]].output:
+                    candidates.extend(graph.consumedby.get(tname, []))
+                break
+            if dstkey in assigned and srckey not in assigned:
+                key = srckey
+                for tname in graph.nodemap[assigned[dstkey]].input:
+                    candidates.extend(graph.producedby.get(tname, []))
+                break
+        if key is None:
+            rest = [name for name in self.nodedesc if name not in assigned]
+            if len(rest) == 0:
+                return assigned
+            key, candidates = rest[0], list(graph.nodemap.keys())
+
+        for name in dict.fromkeys(candidates):
+            if name in assigned.values() or name in self.found_node_names:
+                continue
+            if name not in graph.nodemap or not self.nodedesc[key].is_node(graph.nodemap[name]):
+                continue
+            trial = dict(assigned)
+            trial[key] = name
+            if all(self.is_linked(link, trial, graph) for link in self.links
+                   if key in (link[0], link[2]) and link[0] in trial and link[2] in trial):
+                found = self.search_node(trial, graph)
+                if found is not None:
+                    return found
+        return None
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
         first_desc = self.nodedesc[self.first_key]
-        self.found_node_names = []
-        self.tmp_names = []
+        self.found_node_names = set()  # a node belongs to one match only
         for name in graph.nodemap.keys():
             if name in self.found_node_names:
                 continue
             node = graph.nodemap[name]
             if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
-                if valid:
-                    desckeys = list(self.nodedesc.keys())
-                    nodes = ['a'] * len(desckeys)
-                    for val in path:
-                        idx = desckeys.index(val[0])
-                        nodes[idx] = val[1]
+                found = self.search_node({self.first_key: name}, graph)
+                if found is not None:
+                    nodes = [found[key] for key in self.nodedesc]
+                    self.found_node_names.update(nodes)
                     ls_nodes.append(nodes)
         return ls_nodes
 
-- 
2.43.0


From b9e60d12d21eeac5bf98f037de339fd2e74df738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 082/154] fix: fail an attribute condition on an element the
 attribute does not have

---
 onnx_tool/fusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 61959d4..879f906 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -233,7 +233,8 @@ class AttrExpr():
             if self.idx == -1:
                 return self.logical(x.__getattribute__(self.attrname))
             else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                attr = x.__getattribute__(self.attrname)
+                return self.idx < len(attr) and self.logical(attr[self.idx])
         return False
 
     def logical(self, attr):
-- 
2.43.0


From 6312b2db9c6556b0fa0d12d5c6834904422c154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 083/154] fix: list a replaced weight once

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e199471..bd1046e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -629,7 +629,8 @@ class Graph():
 
     def add_initial(self, name, data):
         from .tensor import create_initial_Tensor
-        self.initials.append(name)
+        if name not in self.initials:
+            self.initials.append(name)
         if isinstance(data, numpy.ndarray):
             self.tensormap[name] = create_initial_Tensor(name, data)
         else:
-- 
2.43.0


From 00fb5150442606d62a816c4ef16a3431d6d13d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 084/154] fix: keep the producers of graph outputs when a node
 is removed recursively

---
 onnx_tool/graph.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index bd1046e..4bcbd80 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -710,26 +710,18 @@ class Graph():
         # update consumer
         for i in node.input:
             if i in self.consumedby.keys():
-                if len(self.consumedby[i]) == 1 and i in self.producedby:
-                    pnode = self.producedby[i][0]
-                    assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
-                    for o in self.nodemap[pnode].output:
-                        if o == i:
-                            continue
-                        if o in self.consumedby.keys() or o in self.output:
-                            dangle_node = False
-                            break
-                    if dangle_node:
-                        newnodes.append(pnode)
+                newnodes.extend(self.producedby.get(i, []))
                 if nodename in self.consumedby[i]:
                     self.consumedby[i].remove(nodename)
                 if len(self.consumedby[i]) == 0:
                     self.consumedby.pop(i)
         self.nodemap.pop(nodename)
         if recursive:
-            for node in newnodes:
-                self.remove_node(node)
+            captured = set(t for n in self.nodemap.values() for t in n.get_subgraph_inputs())
+            for pnode in newnodes:
+                if pnode in self.nodemap and not any(
+                        o in self.consumedby or o in self.output or o in captured for o in self.nodemap[pnode].output):
+                    self.remove_node(pnode, recursive=True)
 
     def remove_subtree(self, nodename, nodeset=None):
         if nodeset is not None:
-- 
2.43.0


From 37ad4979fd125839d086637c3794b9f152a45612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 085/154] fix: follow the current connections when subtrees and
 dangling nodes are removed

---
 onnx_tool/graph.py | 58 +++++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4bcbd80..5c20bd3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -723,20 +723,18 @@ class Graph():
                         o in self.consumedby or o in self.output or o in captured for o in self.nodemap[pnode].output):
                     self.remove_node(pnode, recursive=True)
 
-    def remove_subtree(self, nodename, nodeset=None):
-        if nodeset is not None:
-            if nodename in self.nodemap:  # may be already removed?
-                node = self.nodemap[nodename]
-
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
-                return nodeset
-            return nodeset
-
-        nodeset = set()
-        nodeset.add(nodename)
-        nodeset.union(self.remove_subtree(nodename, nodeset))
+    def remove_subtree(self, nodename):
+        nodeset = {nodename: None}
+        searchlist = [nodename]
+        while len(searchlist):
+            name = searchlist.pop()
+            if name not in self.nodemap:
+                continue
+            for o in self.nodemap[name].output:
+                for consumer in self.consumedby.get(o, []):
+                    if consumer not in nodeset:
+                        nodeset[consumer] = None
+                        searchlist.append(consumer)
 
         for node in nodeset:
             if node not in self.nodemap:
@@ -744,26 +742,18 @@ class Graph():
             self.remove_node(node)
 
     def remove_dangling_nodes(self):
-        try_to_remove = True
-        while try_to_remove:
-            try_to_remove = False
-            for nodename in list(self.nodemap.keys()):
-                node = self.nodemap[nodename]
-                node_used = False
-                for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
-                        node_used = True
-                        break
-
-                if node_used:
-                    continue
-
-                self.remove_node(nodename, recursive=True)
-                try_to_remove = True
+        used_nodes = set()
+        searchlist = list(self.output)
+        while len(searchlist):
+            for nodename in self.producedby.get(searchlist.pop(), []):
+                if nodename not in used_nodes:
+                    used_nodes.add(nodename)
+                    node = self.nodemap[nodename]
+                    searchlist.extend(node.input)
+                    searchlist.extend(node.get_subgraph_inputs())
+        for nodename in list(self.nodemap.keys()):
+            if nodename not in used_nodes:
+                self.remove_node(nodename)
 
     def skip_node(self, nodename):
         node = self.nodemap[nodename]
-- 
2.43.0


From 4e21c372207c20a58300fd2d0cc89295c5d894ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 086/154] fix: rewire the consumers and records of a skipped
 node

every input of every consumer, graph outputs, graph inputs and shape inputs; nodes that cannot be skipped stay
---
 onnx_tool/graph.py | 48 ++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 5c20bd3..fd4d940 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -757,27 +757,33 @@ class Graph():
 
     def skip_node(self, nodename):
         node = self.nodemap[nodename]
-        count = 0
-        for input in node.input:
-            if input in self.dynamics:
-                count += 1
-                indtensor = input
-        if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
-        self.nodemap.pop(nodename)
+        shape_tensors = _contains_shape_tensor(node)
+        data = [t for t in node.input if t in self.dynamics and t not in shape_tensors]
+        if len(data) != 1 or len(node.output) != 1:
+            warnings.warn(f'node {nodename} has no single data input and output, it is not skipped')
+            return
+        # the consumers read the data input, unless the output has to keep its name
+        old, new = node.output[0], data[0]
+        outputs = list(self.output)
+        if old in outputs:
+            old, new = new, old
+        captured = set(t for n in self.nodemap.values() for t in n.get_subgraph_inputs())
+        if old in captured or old in outputs or (old == data[0] and old not in self.producedby):
+            warnings.warn(f'graph inputs and outputs would change, node {nodename} is not skipped')
+            return
+        self.remove_node(nodename)
+        self.output = outputs
+        for con in dict.fromkeys(self.consumedby.get(old, [])):
+            con_node = self.nodemap[con]
+            con_node.input = [new if t == old else t for t in con_node.input]
+        if old in self.consumedby:
+            self.consumedby[new] = self.consumedby.get(new, []) + self.consumedby.pop(old)
+        if new in outputs:
+            for pro in self.producedby.get(old, []):
+                pro_node = self.nodemap[pro]
+                pro_node.output = [new if t == old else t for t in pro_node.output]
+            if old in self.producedby:
+                self.producedby[new] = self.producedby.pop(old)
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
-- 
2.43.0


From 7c12ae359cf70efc340fb4f9da702482743c0f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 087/154] fix: keep graph outputs among the tensors leaving a
 set of nodes

---
 onnx_tool/graph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index fd4d940..2c4e3f3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1019,8 +1019,13 @@ class Graph():
     def get_iotensors(self, nodenames, remove_initials=True):
         intensors = []
         outtensors = []
+        # leave the nodes as well: graph outputs, and what the bodies of other nodes read
+        external = set(self.output)
+        for name in self.nodemap:
+            if name not in nodenames:
+                external.update(self.nodemap[name].get_subgraph_inputs())
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
                 if len(input) == 0:
                     continue
                 if remove_initials and input in self.initials:
@@ -1042,7 +1047,7 @@ class Graph():
                     continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in external:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From ca079f55f230adf357464f52e0d02f827ad78600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 088/154] fix: keep the graph outputs, the attribute types and
 edited attributes of fused nodes

---
 onnx_tool/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 2c4e3f3..afda591 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -791,15 +791,16 @@ class Graph():
         count = 0
         if keep_attr:
             for node in nodes:
-                for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
+                node_prot = self.nodemap[node].make_nodeproto()
+                for attr in node_prot.attribute:
+                    attr.name = node_prot.op_type + str(count) + '_' + attr.name
                     newnode_prot.attribute.append(attr)
                 count += 1
         from .node import create_node
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs  # they are outputs of the new node
         newnode = create_node(newnode_prot)
         newnode.input = _inputs
         newnode.output = _outputs
-- 
2.43.0


From f30014626c03d5c27d2f8ddbcb900abd8a4c0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 089/154] fix: keep outputs, records, domain and attribute
 types when operators are fused as post operators

---
 onnx_tool/graph.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index afda591..b41f5f5 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -820,9 +820,11 @@ class Graph():
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
-        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
+        mainproto = mainnode.make_nodeproto()
+        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name,
+                                        domain=mainproto.domain)
         count = 0
-        for attr in mainnode.proto.attribute:
+        for attr in mainproto.attribute:
             if attr.name == 'postop_count':
                 count = onnx.helper.get_attribute_value(attr)
             else:
@@ -840,24 +842,26 @@ class Graph():
                 attr = onnx.helper.make_attribute(
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
-                for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
+                for attr in pnode.make_nodeproto().attribute:
+                    attr.name = 'postop_' + str(count) + '_' + attr.name
                     newnode.attribute.append(attr)
                 count += 1
 
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs  # they are outputs of the new node
         newnode = create_node(newnode)
         newnode.input = _inputs
         newnode.output = _outputs
         for i in _inputs:
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
+            else:
+                self.consumedby[i] = [mainnode.name]
             if i in self.producedby.keys():
                 newnode.prevnodes.append(self.producedby[i])
         for o in _outputs:
-- 
2.43.0


From e3fa538306dd8f5e9225246c952ed4c0abea34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 090/154] fix: call the fusion methods with their parameter
 names in model_opfusion

---
 onnx_tool/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index c8629d8..eaf10ee 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -177,9 +177,9 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
         model.save_model(save_file)
-- 
2.43.0


From 53f72a8324b24aee75a0d9a6ef07093a78ccf94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 091/154] fix: fuse convolution and batch normalization only
 when safe, and without touching shared weights

A bias, 1-D or 3-D kernels and read-only weights made the fusion fail; it changed weights other nodes read, ignored other readers of the convolution output and dropped graph outputs.
---
 onnx_tool/fusion.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 879f906..e80e1b9 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -384,6 +384,19 @@ class FusionPattern():
         return ls_nodes
 
 
+def is_conv_bn_fusable(graph: Graph, conv_node: Node, bn_node: Node):
+    # the normalization must be known, and nothing else may depend on the convolution's result
+    params = [name for name in conv_node.input[1:] if name != ''] + bn_node.input[1:]
+    if any(name not in graph.initials or name in graph.producedby for name in params):
+        return False
+    if len(bn_node.output) != 1 or getattr(bn_node, 'training_mode', 0) != 0:
+        return False
+    tname = conv_node.output[0]
+    if tname in graph.output or len(graph.consumedby[tname]) != 1:
+        return False
+    return not any(tname in node.get_subgraph_inputs() for node in graph.nodemap.values())
+
+
 def ConvBNFusion(graph: Graph):
     import math
     pattern = FusionPattern(ConvBN)
@@ -391,33 +404,32 @@ def ConvBNFusion(graph: Graph):
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
+        if not is_conv_bn_fusable(graph, conv_node, bn_node):
+            continue
         weight = graph.tensormap[conv_node.input[1]]
         gamma = graph.tensormap[bn_node.input[1]]
         beta = graph.tensormap[bn_node.input[2]]
         mean = graph.tensormap[bn_node.input[3]]
         var = graph.tensormap[bn_node.input[4]]
         wshape = weight.shape
-        if len(conv_node.input) == 3:
-            hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
+        newweight = weight.numpy.copy()
+        if len(conv_node.input) == 3 and conv_node.input[2] != '':
+            newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
         else:
-            hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
+            newbias = numpy.zeros((wshape[0],), dtype=newweight.dtype)
         for i in range(wshape[0]):
             sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
             sv = beta.numpy[i]
-            for j in range(wshape[1]):
-                for k in range(wshape[2]):
-                    for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
+            newweight[i] = sm * newweight[i]
             newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
+        # the raw weights may be read by other nodes
+        newweightname = conv_node.name + "_weight_"
+        graph.add_initial(newweightname, newweight)
         newbiasname = conv_node.name + "_bias_"
         graph.add_initial(newbiasname, newbias)
+        graph_outputs = list(graph.output)
         graph.remove_node(nodes[1])
-        if hasbias:
-            conv_node.input[2] = newbiasname
-        else:
-            conv_node.input.append(newbiasname)
-        graph.producedby[bn_node.output[0]] = [conv_node.name]
+        graph.output = graph_outputs
+        conv_node.input = [conv_node.input[0], newweightname, newbiasname]
         conv_node.output[0] = bn_node.output[0]
+    graph.update_tensor_relations()
-- 
2.43.0


From 874dd1f7ef3ed76abb04b687e8b262656f29eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 092/154] fix: quantize zero weights, and keep asymmetric 4 bit
 values in range

A zero weight, row or block made the scale zero; 7.5 + 7.5 steps rounded up to 16.
---
 onnx_tool/quantization.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..cfb2dc2 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -37,6 +37,8 @@ def find_min_max(f32: numpy.ndarray, block):
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
     scale = alpha / (2 ** (bits - 1) - 1)
+    if scale == 0:  # all values are zero
+        scale = 1
     return scale, 0
 
 
@@ -45,6 +47,8 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmax = max(fmax, 0)
     delta = fmax - fmin
     scale = delta / (2 ** bits - 1)
+    if scale == 0:  # all values are zero
+        scale = 1
     zp = round(-fmin / scale)
     return scale, zp
 
@@ -53,8 +57,8 @@ def symmetric_quant(fval, scale, *agrs):
     return numpy.clip(round(fval / scale), -128, 127)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -77,7 +81,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -86,7 +90,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -96,7 +100,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
-- 
2.43.0


From fddad53a4915bbcde5e82ff7d29256395e3478e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 093/154] fix: pack unsigned 4 bit values above 7 and odd row
 lengths without loss

---
 onnx_tool/quantization.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index cfb2dc2..40f988b 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -106,14 +106,13 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
 def pack_4bits(Q_int:numpy.ndarray):
     shape=Q_int.shape
     s4shape=list(shape)
-    s4shape[-1]=shape[-1]//2
+    if shape[-1]%2:  # the last half byte of a row is padding
+        Q_int=numpy.concatenate([Q_int,numpy.zeros(shape[:-1]+(1,),dtype=Q_int.dtype)],axis=-1)
+    s4shape[-1]=Q_int.shape[-1]//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xf
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
-- 
2.43.0


From accc5c1a55aae147bf884e4d7e17d6803922cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 094/154] fix: quantize shared weights, leave unused weights,
 graph outputs and captured weights alone, and do not skip weights

Iterating over g.initials, as the examples do, skipped the weight after each quantized one.
---
 onnx_tool/quantization.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 40f988b..c6bb413 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -132,6 +132,10 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     for suf in quantized_suffix:
         if tname.endswith(suf):
             return
+    if len(g.consumedby.get(tname, [])) == 0 or tname in g.output:
+        return
+    if any(tname in node.get_subgraph_inputs() for node in g.nodemap.values()):
+        return
     f32arr = g.tensormap[tname].numpy
     if f32arr.dtype not in [numpy.float32, numpy.float16, numpy.float64]:
         return
@@ -177,14 +181,10 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
             node.input.insert(idx, tname_z)
         node.input.insert(idx, tname_s)
         node.input.insert(idx, tname_q)
-        if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
+        for name in [tname_q, tname_s, tname_z] if type == 'asym' else [tname_q, tname_s]:
+            if name not in g.consumedby.keys():
+                g.consumedby[name] = []
+            g.consumedby[name].append(nname)
     g.consumedby.pop(tname)
-    g.initials.remove(tname)
+    g.initials = [name for name in g.initials if name != tname]  # the caller may be iterating over the list
     g.tensormap.pop(tname)
-- 
2.43.0


From e45dea4121796e91f3a3260ee79e7bf360345fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 095/154] fix: count the tensors read by the bodies of control
 flow nodes when a graph is cut

---
 onnx_tool/graph.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b41f5f5..81d8c11 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -595,12 +595,17 @@ class Graph():
         graph_level0 = []
         graph_level1 = []
         graph_level2 = []
+        # the bodies of control flow nodes read tensors as well
+        consumedby = {name: list(consumers) for name, consumers in self.consumedby.items()}
+        for nname, node in self.nodemap.items():
+            for name in node.get_subgraph_inputs():
+                consumedby.setdefault(name, []).append(nname)
         searchlist = outputs
         while len(searchlist):
             newlist = []
             for name in searchlist:
-                if name in self.consumedby:
-                    for consumer in self.consumedby[name]:
+                if name in consumedby:
+                    for consumer in consumedby[name]:
                         if consumer in graph_level2:
                             continue
                         graph_level2.append(consumer)
@@ -612,8 +617,8 @@ class Graph():
         while len(searchlist):
             newlist = []
             for name in searchlist:
-                if name in self.consumedby:
-                    for consumer in self.consumedby[name]:
+                if name in consumedby:
+                    for consumer in consumedby[name]:
                         if consumer in graph_level2 or consumer in graph_level1:
                             continue
                         graph_level1.append(consumer)
@@ -1026,9 +1031,12 @@ class Graph():
         outtensors = []
         # leave the nodes as well: graph outputs, and what the bodies of other nodes read
         external = set(self.output)
+        captured = set()
         for name in self.nodemap:
             if name not in nodenames:
                 external.update(self.nodemap[name].get_subgraph_inputs())
+            else:
+                captured.update(self.nodemap[name].get_subgraph_inputs())
         for name in nodenames:
             for input in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
                 if len(input) == 0:
@@ -1052,8 +1060,8 @@ class Graph():
                     continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby and output not in external:
-                    consumers = self.consumedby[output]
+                if (output in self.consumedby or output in captured) and output not in external:
+                    consumers = self.consumedby.get(output, [])
                     inner = True
                     for consumer in consumers:
                         if consumer not in nodenames:
-- 
2.43.0


From f4afca1e5c22a0f52d3ac74aeec0d9e706dc06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 096/154] fix: pass a configuration to the graphs of
 get_subgraph and model_subgraph

---
 onnx_tool/__init__.py | 2 +-
 onnx_tool/graph.py    | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index eaf10ee..7f78917 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -168,7 +168,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, utils.ModelConfig({'verbose': False}))
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 81d8c11..48cdeba 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -654,9 +654,10 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        cfg = ModelConfig({'verbose': self.cfg.verbose})
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), cfg)
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), cfg)
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), cfg)
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
-- 
2.43.0


From aeed65e2e829ae38b5e8b777465b8c5aac51cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 097/154] fix: report the sparse block shape and ratio of the
 axis which is valid

The block size of one axis was returned with the ratio of the other axis or of smaller blocks.
---
 onnx_tool/tensor.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 9e93c1b..1b045be 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -265,7 +265,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
         validsize = 1
         prevalid0 = True
         prevalid1 = True
-        validratio = ratio
+        validratio0 = ratio
+        validratio1 = ratio
         while True:
             # try axis=1
             if prevalid1 and arr.shape[1] % initsize == 0:
@@ -275,7 +276,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio1 = (arrsum == initsize).sum() / arrsum.size
                 if ratio1 > ratio - deltar_thres:
                     valid1 = True
-                    validratio = ratio1
+                    validratio1 = ratio1
                 else:
                     valid1 = False
             else:
@@ -289,7 +290,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio0 = (arrsum == initsize).sum() / arrsum.size
                 if ratio0 > ratio - deltar_thres:
                     valid0 = True
-                    validratio = ratio0
+                    validratio0 = ratio0
                 else:
                     valid0 = False
             else:
@@ -311,7 +312,10 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
 
-        return (validsize if prevalid0 else 1, validsize if prevalid1 else 1), validratio
+        # the ratios of an axis which is not valid at validsize belong to smaller blocks
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
+            return (validsize, 1), validratio0
+        return (1, validsize), validratio1
 
     if len(arr.shape) == 4:  # conv2d
         initsize = 2
@@ -364,7 +368,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
-        if validratio0 > validratio1:
+        # the ratios of an axis which is not valid at validsize belong to smaller blocks
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
             return (validsize, 1), validratio0
         return (1, validsize), validratio1
 
-- 
2.43.0


From 24f5de00595f1ac9ec63647a4149f0a589e7a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 098/154] fix: let every LLM builder have its own copy of the
 architecture settings

attention_bias and mlp_bias of one model were written into the shared table and applied to all later models.
---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From 98ee01d35792480ddaa24e73ff77bc26a9623b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 099/154] fix: print the projected latency in milliseconds, the
 unit of its column

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..3dfa1a1 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1207,7 +1207,7 @@ class Builder():
             row.append(num2str(int(node.llm_profile['Memory']), csvformat))
             Device = node.llm_profile['Device']
             if self.llm_profile[2] > 0:
-                row.append('{:.5f}'.format(Device['latency'][2]))
+                row.append('{:.5f}'.format(Device['latency'][2] * 1e3))
                 row.append(Device['Bottleneck'])
             row.append(tuple2str(node.inshape, splitch))
             row.append(tuple2str(node.outshape, splitch))
@@ -1217,7 +1217,7 @@ class Builder():
         row.append(num2str(self.llm_profile[0], csvformat))
         row.append(num2str(self.llm_profile[1], csvformat))
         if self.llm_profile[2] > 0:
-            row.append(num2str(self.llm_profile[2], csvformat))
+            row.append(num2str(self.llm_profile[2] * 1e3, csvformat))
             row.append('_')
         row.append('_')
         row.append('_')
-- 
2.43.0


From ab788dc0d8788735c9d865f13f9dcf744054976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 100/154] fix: count the gate of the shared expert only when
 there is a shared expert

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 79729b3..b455373 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3055,7 +3055,7 @@ class MoENode(Node):
             # down_proj: B × S × SI × H
             macs += B * S * SI * H
 
-        if not self.no_shared_gate:
+        if not self.no_shared_expert and not self.no_shared_gate:
             # Shared expert gate (Qwen3.5-MoE): sigmoid + multiply
             macs += B * S * H * (EXP_MACS + MUL_MACS)
 
-- 
2.43.0


From add6d6ef0022c2b643e88393d0cd40d3905dfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 101/154] fix: normalize the heads of a gated delta layer with
 weights of the head size of that layer

---
 onnx_tool/llm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 3dfa1a1..3702334 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -734,8 +734,8 @@ class Builder():
         v = self.add_mm(inp, self.hidden_size, v_out, qkv_bias, namev)
 
         # Q/K per-head RMS norm
-        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads)
-        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads)
+        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads, qk_head_dim)
+        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads, qk_head_dim)
 
         # GDN 融合算子
         attrs = {
@@ -988,14 +988,14 @@ class Builder():
 
         self.graph.output.append(vision_features.name)
 
-    def add_qk_norm(self, inp, name, num_heads):
+    def add_qk_norm(self, inp, name, num_heads, head_dim=None):
         """Per-head Q/K RMS norm (Qwen3 特有).
         
         输入: [B, S, num_heads * head_dim]
         输出: [B, S, num_heads * head_dim]
         对每个 head 独立做 RMS norm，weight shape = [head_dim]
         """
-        head_dim = self.head_size
+        head_dim = self.head_size if head_dim is None else head_dim
         # Reshape: [B, S, num_heads * head_dim] -> [B, S, num_heads, head_dim]
         # 做 LayerNormalization（沿最后一个维度，即 head_dim）
         attrs = {'epsilon': self.rms_norm_eps, 'type': 'rms'}
-- 
2.43.0


From e9eb5aeb390e34db135dab648781a4097f9541d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 102/154] fix: count the deduplicated parameters of graphs
 built node by node

The consumer records of such graphs are not filled, so the count was always 0.
---
 onnx_tool/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 48cdeba..d3227ba 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1546,10 +1546,10 @@ class Graph():
         self.valid_profile = True
 
     def __get_dedup_params__(self, nodenames):
-        nodenames = set(nodenames)
+        used = set(t for name in nodenames for t in self.nodemap[name].input)
         dedup_params = 0
         for key in self.initials:
-            if key in self.consumedby and not nodenames.isdisjoint(self.consumedby[key]):
+            if key in used:
                 dedup_params += volume(self.tensormap[key].get_shape())
         return dedup_params
 
-- 
2.43.0


From bc9c6c3cda5df0cc778dcebf588fa3ec8e97a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 103/154] fix: command line: input types other than f32 and
 int32 and names with a colon

Any type but f32 and int32 silently became float64, or failed with literal values; the name ended at its first ':', so that
`-m io_modify -d ids:0:1x3` changed nothing. Unknown types are now refused.
---
 onnx_tool/__main__.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index a7a8a54..d5710ea 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -54,11 +54,14 @@ parser = get_parser()
 args = parser.parse_args()
 
 
+STR2NUMPYTYPE = {'f16': numpy.float16, 'f32': numpy.float32, 'f64': numpy.float64, 'bool': numpy.bool_}
+STR2NUMPYTYPE.update((s + str(bits), getattr(numpy, s + str(bits))) for s in ('int', 'uint') for bits in (8, 16, 32, 64))
+
+
 def __str2numpytype__(strtype):
-    if strtype == 'f32':
-        return numpy.float32
-    if strtype == 'int32':
-        return numpy.int32
+    if strtype not in STR2NUMPYTYPE:
+        raise ValueError(f'unknown data type {strtype!r}, supported types: {", ".join(STR2NUMPYTYPE)}')
+    return STR2NUMPYTYPE[strtype]
 
 
 def __str2list__(strshape, type):
@@ -72,22 +75,30 @@ def __str2list__(strshape, type):
 def __args2dynamicshapes__(args: [str]):
     dic = {}
     for arg in args:
-        strs = arg.split(':')
-        dtype = __str2numpytype__(strs[1])
-        shape = __str2list__(strs[2], int)
-        if len(strs) > 3:
-            arr = numpy.array(__str2list__(strs[3], dtype), dtype=dtype).reshape(shape)
+        # <tensor name>:<data type>:<shape>[:<data>], the tensor name may contain ':'
+        if arg.count(':') < 2:
+            raise ValueError(f'{arg!r} is not <tensor name>:<data type>:<shape>[:<data>]')
+        name, strtype, strshape = arg.rsplit(':', 2)
+        strdata = None
+        if strtype not in STR2NUMPYTYPE and ':' in name:
+            name, strtype, strshape, strdata = arg.rsplit(':', 3)
+        dtype = __str2numpytype__(strtype)
+        shape = __str2list__(strshape, int)
+        if strdata is not None:
+            # bool('0') is True
+            data = __str2list__(strdata, int if dtype is numpy.bool_ else dtype)
+            arr = numpy.array(data, dtype=dtype).reshape(shape)
         else:
             arr = numpy.zeros(shape, dtype=dtype)
-        dic[strs[0]] = arr
+        dic[name] = arr
     return dic
 
 
 def __args2strshapes__(args: [str]):
     dic = {}
     for arg in args:
-        strs = arg.split(':')
-        dic[strs[0]] = strs[1]
+        name, strshape = arg.rsplit(':', 1)  # the tensor name may contain ':'
+        dic[name] = strshape
     return dic
 
 
-- 
2.43.0


From 04f55679ed2cd2e7ead66ed125610097e4e197a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 104/154] fix: serialization refuses or encodes every value,
 instead of dropping it

numpy numbers and tuples were skipped although counted, so that the reader loses its position; tensors, graphs,
None and lists of several types were written as garbage, a string with a NUL without its terminator.
---
 onnx_tool/serialization.py | 69 +++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..4fe4eaf 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -1,3 +1,5 @@
+import numbers
+
 import numpy
 
 import onnx_tool
@@ -12,7 +14,7 @@ def __write_float2buf(buf, f):
 
 
 def __write_int2buf(buf, i, bytes=4):
-    ba = i.to_bytes(bytes, 'little', signed=True)
+    ba = int(i).to_bytes(bytes, 'little', signed=True)
     buf += ba
     return buf
 
@@ -24,9 +26,9 @@ def __write_len2buf(buf, src, bytes=4):
 
 
 def __write_str2buf(buf, string):
-    if not '\0' in string:
-        string += '\0'
-    barr = bytes(string, 'utf-8')
+    if '\0' in string:
+        raise ValueError(f'{string!r} contains the terminator of a string')
+    barr = bytes(string + '\0', 'utf-8')
     buf += barr
     return buf
 
@@ -43,25 +45,32 @@ DTYPE_UINT16 = 8
 DTYPE_INT64 = 9
 
 
-def __write_data_type(buf, data):
-    if isinstance(data, str) or isinstance(data, bytes):
-        buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
-        buf = __write_int2buf(buf, DTYPE_FLOAT)
-    return buf
+def __data_type(data):
+    if isinstance(data, (str, bytes)):
+        return DTYPE_STR
+    if isinstance(data, numbers.Integral):  # bool and numpy integers too
+        return DTYPE_INT
+    if isinstance(data, numbers.Real):
+        return DTYPE_FLOAT
+    raise ValueError(f'Unsupported value {data!r}')
+
+
+def __write_value(buf, data):
+    dtype = __data_type(data)
+    if isinstance(data, bytes):
+        if b'\0' in data:
+            raise ValueError(f'{data!r} contains the terminator of a string')
+        return buf + data + b'\0'
+    if dtype == DTYPE_STR:
+        return __write_str2buf(buf, data)
+    if dtype == DTYPE_INT:
+        return __write_int2buf(buf, data)
+    return __write_float2buf(buf, data)
 
 
 def __write_data(buf, data):
-    buf = __write_data_type(buf, data)
-    if isinstance(data, str):
-        buf = __write_str2buf(buf, data)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, data)
-    if isinstance(data, float):
-        buf = __write_float2buf(buf, data)
-    return buf
+    buf = __write_int2buf(buf, __data_type(data))
+    return __write_value(buf, data)
 
 
 def __write_ndarray(buf, array: numpy.ndarray):
@@ -142,23 +151,15 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         writebuf = __write_len2buf(writebuf, node.attr.keys())
 
         def write_attribute(buf, attrval):
-            def write_value(buf, val):
-                if isinstance(val, str):
-                    buf = __write_str2buf(buf, val)
-                if isinstance(val, bytes):
-                    buf += val + b'\0'
-                if isinstance(val, int):
-                    buf = __write_int2buf(buf, val)
-                if isinstance(val, float):
-                    buf = __write_float2buf(buf, val)
-                return buf
-
-            if not isinstance(attrval, list):
+            if not isinstance(attrval, (list, tuple)):
                 attrval = [attrval]
             buf = __write_len2buf(buf, attrval)
-            buf = __write_data_type(buf, attrval[0])
+            dtype = __data_type(attrval[0])
+            buf = __write_int2buf(buf, dtype)
             for val in attrval:
-                buf = write_value(buf, val)
+                if __data_type(val) != dtype:
+                    raise ValueError(f'Unsupported list of several types {attrval}')
+                buf = __write_value(buf, val)
             return buf
 
         for key in node.attr.keys():
-- 
2.43.0


From 4f36a20f65bae7333d3b12b9f6f6a13bb0dc8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 105/154] fix: a fixed If branch is inlined with its weights,
 in place, for every node of the branch

The nodes of the branch were appended behind the nodes which read them, branch weights and all results but the first were lost,
tensor names of sibling branches collided, unnamed or equally named nodes raised KeyError, a condition that is a weight or a
graph input raised KeyError, nodes read only by nested bodies were removed, outputs computed by an If disappeared.
---
 onnx_tool/graph.py | 166 +++++++++++++++++++++++++++++++--------------
 1 file changed, 115 insertions(+), 51 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d3227ba..d03133e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -168,6 +168,40 @@ class ShapeEngine():
         return tmp_input
 
 
+def _graph_tensors(val):
+    """Names of all tensors of a graph attribute, with its nested bodies."""
+    if not isinstance(val, onnx.GraphProto):
+        return set()
+    tensors = set(i.name for i in val.initializer) | set(i.name for i in val.input)
+    for node in val.node:
+        tensors.update(_node_tensors(node))
+    return tensors
+
+
+def _node_tensors(node):
+    tensors = set(node.input) | set(node.output)
+    for att in node.attribute:
+        tensors.update(_graph_tensors(onnx.helper.get_attribute_value(att)))
+    return tensors
+
+
+def _rename_node_tensors(node, names):
+    for tensors in (node.input, node.output):
+        for i, name in enumerate(tensors):
+            tensors[i] = names.get(name, name)
+    for att in node.attribute:
+        if att.type == onnx.AttributeProto.GRAPH:
+            # the body's own tensors hide outer ones
+            own = set(i.name for i in att.g.initializer) | set(i.name for i in att.g.input)
+            for n in att.g.node:
+                own.update(n.output)
+            outer = {name: names[name] for name in names if name not in own}
+            for n in att.g.node:
+                _rename_node_tensors(n, outer)
+            for o in att.g.output:
+                o.name = outer.get(o.name, o.name)
+
+
 class Graph():
     def __init__(self, g: onnx.GraphProto, mcfg: ModelConfig):
         self.cfg = mcfg
@@ -242,7 +276,8 @@ class Graph():
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
-                self.initials.append(initial.name)
+                if initial.name not in self.initials:
+                    self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
@@ -364,58 +399,87 @@ class Graph():
         self.dynamics.extend(self.producedby.keys())
 
     def __remove_if__(self):
+        branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
         while True:
-            prekeys = list(self.nodemap.keys())
-            remove_list = []
-            selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-            for n in prekeys:
-                node = self.nodemap[n]
-                if node.op_type == 'If':
-                    # remove condition node chain
-                    sub_input = []
-                    for node_proto in node.attr[selected_branch].node:
-                        for ipn in node_proto.input:
-                            sub_input.append(ipn)
-                    node_list = [node.name]
-                    while len(node_list):
-                        remove = True
-                        sname = node_list.pop(0)
-                        snode = self.nodemap[sname]
-                        for ipn in snode.input:
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
-                            self.consumedby[ipn].remove(sname)
-                        if remove:
-                            remove_list.append(sname)
-                    # add branch node
-                    names = []
-                    for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
-
-                    # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
-                    for newname in names:
-                        newnode = self.nodemap[newname]
-                        for tensor in newnode.input:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                        for tensor in newnode.output:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                            if tensor in self.consumedby:
-                                for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
-            if len(remove_list)==0:
+            ifname = next((name for name in self.nodemap if self.nodemap[name].op_type == 'If'), None)
+            if ifname is None:
                 break
-            for n in remove_list:
-                self.remove_node(n)
+            self.__inline_branch__(ifname, self.nodemap[ifname].attr[branch])
+
+    def __inline_branch__(self, ifname, branch):
+        node = self.nodemap[ifname]
+        # the branch's results become the outputs of the If node, the other tensors keep their names if possible
+        names, copies = {}, []
+        computed = [output for n in branch.node for output in n.output if output != '']
+        for result, output in zip(branch.output, node.output):
+            if output == '':
+                continue
+            if result.name in computed and result.name not in names:
+                names[result.name] = output
+            else:
+                copies.append((result.name, output))
+        inner = set(tname for n in branch.node for tname in _node_tensors(n))
+        for name in self.nodemap:
+            if self.nodemap[name].op_type != 'If':
+                for val in self.nodemap[name].attr.values():
+                    inner.update(_graph_tensors(val))
+        for tname in [initial.name for initial in branch.initializer] + computed:
+            if tname in names:
+                continue
+            newname, count = tname, 0
+            while newname in self.tensormap or count > 0 and newname in inner:
+                count += 1
+                newname = tname + '_' + str(count)
+            names[tname] = newname
+            self.tensormap[newname] = Tensor(newname)
+        for initial in branch.initializer:
+            proto = onnx.TensorProto()
+            proto.CopyFrom(initial)
+            proto.name = names[initial.name]
+            self.tensormap[proto.name] = Tensor(proto)
+            self.initials.append(proto.name)
+
+        # the nodes of the branch take the place of the If node
+        others = list(self.nodemap.keys())
+        position = others.index(ifname)
+        others.remove(ifname)
+        self.nodemap.pop(ifname)
+        self.__update_consumer_producer__()
+        for n in branch.node:
+            proto = onnx.NodeProto()
+            proto.CopyFrom(n)
+            _rename_node_tensors(proto, names)
+            self.__add_node_from_proto__(proto)
+        for src, dst in copies:
+            self.__add_node_from_proto__(onnx.helper.make_node('Identity', [names.get(src, src)], [dst]))
+        added = list(self.nodemap.keys())[len(others):]
+        for name in added:
+            for tname in self.nodemap[name].input + self.nodemap[name].output:
+                if tname not in self.tensormap:
+                    self.tensormap[tname] = Tensor(tname)
+        self.nodemap = {name: self.nodemap[name] for name in others[:position] + added + others[position:]}
+        self.__update_consumer_producer__()
+        self.__remove_unused_producer__(node.input[0])
+
+    def __remove_unused_producer__(self, tensor):
+        """Removes the nodes which computed only this tensor, if nothing reads it."""
+        tensors = [tensor]
+        while len(tensors):
+            producers = self.producedby.get(tensors.pop(), [])
+            if len(producers) == 0:
+                continue
+            node = self.nodemap[producers[0]]
+            used = set(o.name for o in self.rawgraph.output) if self.rawgraph is not None else set()
+            used.update(self.output)
+            for n in self.nodemap.values():
+                used.update(n.input)
+                used.update(n.get_subgraph_inputs())
+            if any(output in used for output in node.output):
+                continue
+            self.nodemap.pop(node.name)
+            tensors.extend(node.input)
+            tensors.extend(node.get_subgraph_inputs())
+            self.__update_consumer_producer__()
 
     def __set_fixed_topk(self, fixed_k):
         prekeys = list(self.nodemap.keys())
-- 
2.43.0


From 4666420a080ee4c14e3fde31b00135869ba3d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 106/154] fix: a fixed k replaces every k of a TopK node

Loading raised KeyError when k was a weight or a graph input, and nodes read by others were removed with the k they computed.
---
 onnx_tool/graph.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d03133e..0e03e65 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -482,33 +482,17 @@ class Graph():
             self.__update_consumer_producer__()
 
     def __set_fixed_topk(self, fixed_k):
-        prekeys = list(self.nodemap.keys())
         fixed_k_tensor_name = 'constant_fixed_topk_k'
-        remove_list = []
-        topk_node = 0
-        for n in prekeys:
-            node = self.nodemap[n]
-            if node.op_type == 'TopK':
-                # remove condition node chain
-                node_list = []
-                ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
-                    node_list = [self.producedby[ktensor][0]]
-                while len(node_list):
-                    remove = True
-                    sname = node_list.pop(0)
-                    snode = self.nodemap[sname]
-                    for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
-                            node_list.append(self.producedby[ipn][0])
-                    if remove:
-                        remove_list.append(sname)
-                topk_node += 1
+        ktensors = []
+        for node in self.nodemap.values():
+            if node.op_type == 'TopK' and len(node.input) > 1:
+                ktensors.append(node.input[1])
                 node.input[1] = fixed_k_tensor_name
-        if topk_node > 0:
-            self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
-        for n in remove_list:
-            self.remove_node(n)
+        if len(ktensors) > 0:
+            self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k], dtype=numpy.int64))
+            self.__update_consumer_producer__()
+        for tensor in ktensors:
+            self.__remove_unused_producer__(tensor)
 
     def __unique_node_name__(self, name, reserved=()):
         # node names are optional and not necessarily unique in ONNX, but they are the keys of nodemap
-- 
2.43.0


From e431f6c3cd10f3d19aba7edfba51dc5183344f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 107/154] fix: Report incompatible convolution and Gemm
 operands, and inputs without a shape

Convolutions with wrong ranks, channels or bias and Gemm with a C which does not broadcast were inferred as if valid; an input without a shape counted as a scalar.
---
 onnx_tool/graph.py  |  2 ++
 onnx_tool/node.py   | 18 ++++++++++++++++++
 onnx_tool/tensor.py |  2 +-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0e03e65..6b5700c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1138,6 +1138,8 @@ class Graph():
     def check_inputs(self):
         for name in self.input:
             shape = self.tensormap[name].shape
+            if not self.tensormap[name].known_shape:
+                return False, name
             for val in shape:
                 if isinstance(val, str):
                     return False, name
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b455373..46c2fcd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -205,6 +205,16 @@ def _matmul_shape(a_shape, b_shape):
     return yshape
 
 
+def _check_conv_shapes(xshape, wshape, group, bias=None, transposed=False):
+    if len(xshape) < 3 or len(wshape) != len(xshape):
+        raise RuntimeError(f'Incompatible convolution shapes: input rank {len(xshape)}, weight rank {len(wshape)}')
+    in_channels, out_channels = (wshape[0], wshape[1] * group) if transposed else (wshape[1] * group, wshape[0])
+    if xshape[1] != in_channels or wshape[0] % group != 0:
+        raise RuntimeError(f'Incompatible convolution shapes: input {xshape}, weight {wshape}, group {group}')
+    if bias is not None and bias.name != '' and bias.get_shape() != [out_channels]:
+        raise RuntimeError(f'Incompatible convolution shapes: bias {bias.get_shape()}, {out_channels} output channels')
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -987,6 +997,10 @@ class GemmNode(Node):
             b_batch = b_shape[:-2]
             batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
             yshape = batchshape + [a_m, b_n]
+            if len(intensors) > 2 and intensors[2].name != '':
+                c_shape = intensors[2].get_shape()
+                if _broadcast_shape([yshape, c_shape]) != yshape:
+                    raise RuntimeError(f'Incompatible GEMM shapes: C {c_shape} does not broadcast to {yshape}')
         else:
             # broadcast support for MatMul-like nodes
             yshape = _matmul_shape(a_shape, b_shape)
@@ -2103,6 +2117,7 @@ class ConvNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
+        _check_conv_shapes(xshape, wshape, self.group, *intensors[2:3])
         shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
                                                                self.strides, self.dilations)
         outtensors[0].update_shape(shape)
@@ -2540,6 +2555,7 @@ class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
+        _check_conv_shapes(xshape, wshape, self.group, *intensors[8:9])
         shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
                                                                self.strides, self.dilations)
         outtensors[0].update_shape(shape)
@@ -2565,6 +2581,7 @@ class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
+        _check_conv_shapes(xshape, wshape, self.group)
         shape = xshape[:1] + wshape[:1] + _window_output_shape(self.auto_pad, self.pads, xshape[2:], wshape[2:],
                                                                self.strides, self.dilations)
         outtensors[0].update_shape(shape)
@@ -2598,6 +2615,7 @@ class ConvTransposeNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
+        _check_conv_shapes(xshape, wshape, self.group, *intensors[2:3], transposed=True)
         rank = len(xshape) - 2
         shape = [xshape[0], self.group * wshape[1]]
         if volume(self.output_shape) != 0:
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 1b045be..d8d4d8b 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -444,7 +444,7 @@ class Tensor():
                 st += val + ','
             else:
                 st += str(val) + ','
-        st = st[:-1]
+        st = st[:-1] if self.shape else st
         st += ']'
         return st
 
-- 
2.43.0


From 68e6401c21866168f0b9bbd9055bfd7e3bdff05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 108/154] fix: The shape engine tells rounding up from rounding
 down and takes numpy dimensions

Three samples per range left the rounding of halved dimensions open, and dimensions held as numpy integers could neither be described nor queried.
---
 onnx_tool/graph.py | 147 +++++++++++++++++++++------------------------
 1 file changed, 67 insertions(+), 80 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6b5700c..0b7ec63 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -82,21 +82,26 @@ class ValueExpr():
         lastidx = len(srcrange) - 1
         srclen = srcrange[lastidx] - srcrange[0]
         dstlen = dstrange[lastidx] - dstrange[0]
-        if srclen <= dstlen:
-            self.factor = 0
-            self.alpha = round(dstlen / srclen)
-            self.beta = round(dstrange[lastidx] - srcrange[lastidx] * self.alpha)
+        if abs(srclen) <= abs(dstlen):
+            alphas = [(0, round(dstlen / srclen) if srclen != 0 else 1)]
         else:
-            self.factor = 1
-            self.alpha = round(srclen / dstlen)
-            self.beta = round(dstrange[lastidx] - srcrange[lastidx] / self.alpha)
-
-        test = [self.__call__(x) for x in srcrange]
-        diff = 0
-        for x0, x1 in zip(test, dstrange):
-            diff += x0 - x1
-        if diff != 0:
-            self.truncmode = 1
+            # a division truncates, its factor is known up to one step of the quotient
+            ratio = srclen / dstlen if dstlen != 0 else srclen
+            limits = [round(srclen / (dstlen + i)) for i in (-1, 1) if dstlen + i != 0] + [round(ratio)]
+            alphas = [(1, alpha) for alpha in range(min(limits), max(limits) + 1) if alpha != 0]
+            alphas.sort(key=lambda x: abs(x[1] - ratio))
+        best = None
+        for self.factor, self.alpha in alphas:
+            slope = self.alpha if self.factor == 0 else 1 / self.alpha
+            beta = round(dstrange[lastidx] - srcrange[lastidx] * slope)
+            for self.beta in (beta, beta - 1, beta + 1):
+                for self.truncmode in (0, 1):
+                    err = self.error(srcrange, dstrange)
+                    if best is None or err < best[0]:
+                        best = (err, self.factor, self.alpha, self.beta, self.truncmode)
+                    if err == 0:
+                        return
+        _, self.factor, self.alpha, self.beta, self.truncmode = best
 
     def __call__(self, x):
         if self.factor == 0:
@@ -1212,8 +1217,8 @@ class Graph():
             if key in input_desc.keys():
                 continue
             shape_desc = []
-            minshape = mintensormap[key].shape
-            maxshape = maxtensormap[key].shape
+            minshape = mintensormap[key].get_shape()
+            maxshape = maxtensormap[key].get_shape()
             for i, a in zip(minshape, maxshape):
                 if i == a:
                     shape_desc.append(i)
@@ -1225,74 +1230,56 @@ class Graph():
         for key in input_range.keys():
             minv = input_range[key][0]
             maxv = input_range[key][1]
-            vranges = [(minv + maxv) // 2, maxv]
-            shapes_range = []
-
-            for val in vranges:
-                shapeengine.update_variable(key, val)
-                tmpinputs = shapeengine.generate_input()
-                self.shape_infer(tmpinputs)
-                shapes_range.append(self.get_dynamic_tensors())
-
-            shapeengine.update_variable(key, input_range[key][0])
-            srcrange = [minv, ] + vranges
-            dstranges = [srcrange]
-            tensor_range_map = {}
-
-            def range_in_rangelist(range, rangelist):
-                for i, r in enumerate(rangelist):
-                    flag = True
-                    for sv, dv in zip(range, r):
-                        if sv != dv:
-                            flag = False
-                            break
-                    if flag:
-                        return i
-                return -1
+            samples = {}
+
+            def sample(values):
+                for val in values:
+                    if val not in samples:
+                        shapeengine.update_variable(key, val)
+                        self.shape_infer(shapeengine.generate_input())
+                        samples[val] = {name: self.tensormap[name].get_shape() for name in self.dynamics}
+
+            sample([minv, (minv + maxv) // 2, maxv])
+            # consecutive values, as many as to see every remainder of the divisions which the dimensions pass
+            window = 8
+            for name in self.dynamics:
+                for i, a in zip(samples[minv][name], samples[maxv][name]):
+                    if i != a:
+                        window = max(window, 2 * (maxv - minv) // max(1, abs(a - i) - 1))
+            sample(range(minv, min(maxv, minv + min(window, 256))))
+            shapeengine.update_variable(key, minv)
+            srcrange = sorted(samples)
+            range_map = {key: srcrange}  # variable -> its value for each sample
 
             for vkey in mintensormap.keys():
                 if vkey in input_desc.keys():
                     continue
-                shapes = [mintensormap[vkey].shape, shapes_range[0][vkey].shape, shapes_range[1][vkey].shape]
-                for i in range(len(shapes[0])):
-                    if shapes[0][i] != shapes[1][i] or shapes[0][i] != shapes[2][i]:
-                        newrange = [val[i] for val in shapes]
-                        idx = range_in_rangelist(newrange, dstranges)
-                        if idx == -1:
-                            nodename = self.producedby[vkey][0]
-                            srcvalkey = []
-                            for iname in self.nodemap[nodename].input:
-                                desc = shapeengine.get_tensor_desc(iname)
-                                if desc is not None:
-                                    for ele in desc:
-                                        if not isinstance(ele, int) and ele.isnumeric():
-                                            if int(ele) >= vcount:
-                                                srcvalkey.append(ele)
-                            dstranges.append(newrange)
-                            vidx = vcount + len(dstranges) - 1
-                            if len(srcvalkey) == 0:
-                                expr = ValueExpr(dstranges[0], newrange)
-                                err = expr.error(dstranges[0], newrange)
-                                srckey = key
-                            else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
-                            if err > 0:
-                                warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
-
-                            shapeengine.add_expr(str(vidx), srckey, expr)
-                            tensor_range_map[str(vidx)] = newrange
-                            valkey = str(vidx)
-                        else:
-                            if idx == 0:
-                                valkey = key
-                            else:
-                                vidx = vcount + idx
-                                valkey = str(vidx)
-                        shapeengine.update_tensor_desc(vkey, i, valkey)
-            vcount += len(dstranges)
+                for i in range(len(samples[minv][vkey])):
+                    newrange = [samples[val][vkey][i] for val in srcrange]
+                    if all(val == newrange[0] for val in newrange):
+                        continue
+                    valkey = next((k for k, r in range_map.items() if r == newrange), None)
+                    if valkey is None:
+                        # a dimension comes from one of an input of its node, from the variable or from any other
+                        srckeys = []
+                        for iname in self.nodemap[self.producedby[vkey][0]].input:
+                            srckeys.extend(shapeengine.get_tensor_desc(iname) or [])
+                        srckeys = [k for k in srckeys if k in range_map] + list(range_map)
+                        err = None
+                        for k in dict.fromkeys(srckeys):
+                            e = ValueExpr(range_map[k], newrange)
+                            newerr = e.error(range_map[k], newrange)
+                            if err is None or newerr < err:
+                                srckey, expr, err = k, e, newerr
+                            if err == 0:
+                                break
+                        vcount += 1
+                        valkey = str(vcount)
+                        if err > 0:
+                            warnings.warn(f'src key {srckey} dst key {valkey} error:{err}')
+                        shapeengine.add_expr(valkey, srckey, expr)
+                        range_map[valkey] = newrange
+                    shapeengine.get_tensor_desc(vkey)[i] = valkey
         return shapeengine
 
     def compress_memory(self, size_padding=64):
-- 
2.43.0


From 057421693cb710ff0314d4dc66852ef700bba536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 109/154] fix: The int8 attention pattern quantizes the softmax

QuantizeLinear_1 was described as reading both the Softmax and the Add, so nothing could match the pattern.
---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index e80e1b9..f4c124a 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
-- 
2.43.0


From cd24216a998847822efa80553807977b22f8aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:33 +0000
Subject: [PATCH 110/154] fix: Modifying inputs and outputs leaves the model
 object of the caller unmodified

model_io_modify(m, ...) changed the dimensions of the ModelProto it was given
---
 onnx_tool/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 7f78917..ee4f940 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -119,7 +119,9 @@ def model_io_modify(m, save_model: str, custom_io):
 
     '''
     model = loadmodel(m)
-    graph = model.mproto.graph
+    mproto = onnx.ModelProto()
+    mproto.CopyFrom(model.mproto)  # the model of the caller stays as it is
+    graph = mproto.graph
     if custom_io is not None:
         keylist = list(custom_io.keys())
         for i, input in enumerate(graph.input):
@@ -154,7 +156,7 @@ def model_io_modify(m, save_model: str, custom_io):
                             nb.ClearField('dim_value')
                         nb.dim_param = shapeval
     graph = Graph(graph,utils.ModelConfig({'verbose':True}))
-    graph.save_model(save_model, rawmodel=model.mproto)
+    graph.save_model(save_model, rawmodel=mproto)
 
 
 def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = None, nodenames: [str] = None,
-- 
2.43.0


From 32692b68d0a0955c65eefb8f5515c26bc142b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 111/154] fix: BatchNormalization has shapes for all its
 outputs and computes no training mode

In training mode the node normalizes with the statistics of the batch; value_infer used the running ones and left the other outputs without shape or value.
---
 onnx_tool/node.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 46c2fcd..0267b94 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1661,7 +1661,16 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        # training mode: the updated running statistics, before opset 14 also those of the batch
+        for stat, outtensor in zip(intensors[3:5] * 2, outtensors[1:]):
+            outtensor.update_shape(stat.get_shape())
+            outtensor.update_dtype(stat.dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        if self.training_mode or len(outtensors) > 1:
+            raise NotImplementedError(f'BatchNormalization {self.name} has no value_infer for the training mode')
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
         b = intensors[2].get_numpy()
-- 
2.43.0


From b1cc948001ad26029aa782dcb4dc18ba4ea77dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 112/154] fix: Dropout computes no training mode

value_infer passed the data on although training mode drops elements.
---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0267b94..5a6c454 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1530,6 +1530,8 @@ class DropoutNode(FusedBase):
             outtensors[1].update_dtype(numpy.bool_)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        if len(intensors) > 2 and intensors[2].name != '' and intensors[2].get_numpy().item():
+            raise NotImplementedError(f'Dropout {self.name} has no value_infer for the training mode')
         x = intensors[0].get_numpy()
         outtensors[0].update_tensor(x)
         if len(outtensors) == 2:
-- 
2.43.0


From 9649c20947335855898f5ad8507444012d93bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 113/154] fix: TopK takes k from the attribute before opset 10

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5a6c454..00cc918 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1997,7 +1997,7 @@ class TopKNode(Node):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        k = intensors[1].get_numpy()[0]
+        k = intensors[1].get_numpy()[0] if len(intensors) > 1 else self.k  # attribute before opset 10
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From 568528d247ddff2d54c664c882d8ea5055ea3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 114/154] fix: Resize keeps the aspect ratio where
 keep_aspect_ratio_policy asks for it

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 00cc918..9f43737 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1410,6 +1410,7 @@ class ResizeNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('mode', b'nearest')
         self.add_default_value('axes', None)
+        self.add_default_value('keep_aspect_ratio_policy', b'stretch')
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
@@ -1429,6 +1430,11 @@ class ResizeNode(Node):
         if is_valid_ndarray(sizes):
             if len(sizes) == 2 and self.axes is None:
                 axes = range(len(xshape))[2:]
+            if self.keep_aspect_ratio_policy != b'stretch':
+                # one scale for all these axes: the largest that exceeds no size, or the smallest that reaches each
+                pick = min if self.keep_aspect_ratio_policy == b'not_larger' else max
+                scale = pick(size / xshape[axis] for axis, size in zip(axes, sizes))
+                sizes = [math.floor(xshape[axis] * scale + 0.5) for axis in axes]
             for axis, size in zip(axes, sizes):
                 newshape[axis] = int(size)
         elif is_valid_ndarray(scales):
-- 
2.43.0


From f7875771562f000f1e629aab8e13d30215140031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:44 +0000
Subject: [PATCH 115/154] fix: ArrayFeatureExtractor selects on the last axis

The output has the rows of the data, not the shape of the indices.
---
 onnx_tool/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9f43737..38f7612 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1743,7 +1743,10 @@ class ArgMaxNode(Node):
 @NODE_REGISTRY.register()
 class ArrayFeatureExtractorNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(intensors[1].get_shape())
+        # the indices select on the last axis, a vector gives one row
+        xshape = intensors[0].get_shape()
+        rows = xshape[:-1] if len(xshape) > 1 else [1]
+        outtensors[0].update_shape(rows + [volume(intensors[1].get_shape())])
         outtensors[0].update_dtype(intensors[0].dtype)
 
 
-- 
2.43.0


From 14c928c72bdb5ba3c25c8ecb3b90becf269422f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 116/154] fix: A saved model keeps the functions its nodes call

---
 onnx_tool/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0b7ec63..23670a9 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -963,6 +963,7 @@ class Graph():
                 model.opset_import.pop()
                 for opset in rawmodel.opset_import:
                     model.opset_import.append(opset)
+                model.functions.extend(rawmodel.functions)
             onnx.save_model(model, f)
 
     def make_graph_onnx(self, nodenames, gname, inputnames, outputnames, with_initializer=True, with_shape_info=True):
-- 
2.43.0


From 37fbefc9282e626bda7873896a8091a5553712af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:30 +0000
Subject: [PATCH 117/154] fix: Weights listed among the graph inputs stay
 listed

IR versions before 4 require it, the saved model was invalid.
---
 onnx_tool/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 23670a9..43a64c8 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -964,6 +964,13 @@ class Graph():
                 for opset in rawmodel.opset_import:
                     model.opset_import.append(opset)
                 model.functions.extend(rawmodel.functions)
+                # weights are inputs as well where the file lists them, before IR version 4 all of them
+                order = {info.name: i for i, info in enumerate(rawmodel.graph.input)}
+                listed = [info.name for info in model.graph.input]
+                for initial in model.graph.initializer:
+                    if initial.name not in listed and (initial.name in order or model.ir_version < 4):
+                        model.graph.input.append(self.tensormap[initial.name].make_value_proto(make_dummy=True))
+                model.graph.input.sort(key=lambda info: order.get(info.name, len(order)))
             onnx.save_model(model, f)
 
     def make_graph_onnx(self, nodenames, gname, inputnames, outputnames, with_initializer=True, with_shape_info=True):
-- 
2.43.0


From d56e2b37c003df515e9c6a03fa6e23371bfc4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 118/154] fix: Constant folding keeps the nodes it cannot
 evaluate

A random generator or a function of constants made loading fail.
---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 43a64c8..c8d1845 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -358,7 +358,11 @@ class Graph():
                         for input in this_node.input:
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
-                        this_node.value_infer(itensors, otensors)
+                        try:
+                            this_node.value_infer(itensors, otensors)
+                        except NotImplementedError:
+                            this_node.constant = False  # its value is unknown, it stays
+                            continue
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
                                 self.tensormap[output].type = STATIC_TENSOR
-- 
2.43.0


From b0c5f2c7c0f30edb55dd19d1a0fa38b26e4ad735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 119/154] fix: Weights of bfloat16, 8 and 4 bit and complex
 types keep type and values

They were read as float64 zeros and saved as DOUBLE, or refused as value or input type.
---
 onnx_tool/node.py   | 2 ++
 onnx_tool/tensor.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 38f7612..ca4919c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2790,6 +2790,8 @@ class CastNode(Node):
         outtensors[0].update_dtype(onnxdtype2npdtype(self.to))
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        if self.to > onnx.TensorProto.BFLOAT16:
+            raise NotImplementedError(f'Cast {self.name} has no value_infer for type {self.to}')
         outtensors[0].update_tensor(intensors[0].get_numpy().astype(onnxdtype2npdtype(self.to)))
 
 
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index d8d4d8b..061a8fd 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -61,6 +61,8 @@ def onnxdtype2npdtype(data_type):
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
         return numpy.bytes_
+    if data_type >= onnx.TensorProto.COMPLEX64:  # bfloat16, 8 and 4 bit types
+        return onnx.helper.tensor_dtype_to_np_dtype(data_type).type
 
 
 def type_of_tensor(tensor):
@@ -96,9 +98,13 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.STRING
     if npdtype == numpy.bytes_:
         return onnx.TensorProto.STRING
+    if npdtype is not None:
+        return onnx.helper.np_dtype_to_tensor_dtype(numpy.dtype(npdtype))
 
 
 def tensorproto2ndarray(initial):
+    if initial.data_type >= onnx.TensorProto.COMPLEX64:
+        return onnx.numpy_helper.to_array(initial)
     shape = shape_of_initializer(initial)
     ndtype = onnxdtype2npdtype(initial.data_type)
     if initial.raw_data == b'':
@@ -515,6 +521,9 @@ class Tensor():
     def make_tensor_proto(self):
         if self.numpy is None:
             return None
+        dtype = npdtype2onnxdtype(self.numpy.dtype)
+        if dtype >= onnx.TensorProto.COMPLEX64:
+            return onnx.numpy_helper.from_array(self.numpy, self.name)
         if len(self.numpy.shape) == 0:
             tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
                                              , [], [self.numpy.item()])
-- 
2.43.0


From 5807ff2fa3197922595c8249182788ed013150da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:42 +0000
Subject: [PATCH 120/154] fix: String weights are saved

---
 onnx_tool/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 061a8fd..6d3f3e6 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -94,9 +94,7 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
-    if npdtype == numpy.bytes_:
-        return onnx.TensorProto.STRING
-    if npdtype == numpy.bytes_:
+    if npdtype is not None and numpy.dtype(npdtype).kind == 'S':
         return onnx.TensorProto.STRING
     if npdtype is not None:
         return onnx.helper.np_dtype_to_tensor_dtype(numpy.dtype(npdtype))
@@ -524,6 +522,8 @@ class Tensor():
         dtype = npdtype2onnxdtype(self.numpy.dtype)
         if dtype >= onnx.TensorProto.COMPLEX64:
             return onnx.numpy_helper.from_array(self.numpy, self.name)
+        if dtype == onnx.TensorProto.STRING:
+            return onnx.helper.make_tensor(self.name, dtype, self.numpy.shape, self.numpy.flatten().tolist())
         if len(self.numpy.shape) == 0:
             tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
                                              , [], [self.numpy.item()])
-- 
2.43.0


From 020c175caf75e7c437d790a845c0d97173c33ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:43 +0000
Subject: [PATCH 121/154] fix: Inputs and outputs which are sequences, maps or
 optionals are saved

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 6d3f3e6..b8969c9 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -512,6 +512,8 @@ class Tensor():
             dtype = npdtype2onnxdtype(self.numpy.dtype.type)
         if self.name == '':
             return None
+        if isinstance(self.proto, onnx.ValueInfoProto) and self.proto.type.WhichOneof('value') not in (None, 'tensor_type'):
+            return self.proto  # a sequence, map or optional
         # shape = [int(i) for i in shape]
         vinf = onnx.helper.make_tensor_value_info(self.name, dtype, shape)
         return vinf
-- 
2.43.0


From e2abb98d2a73a9df0c541e6b7301c10a5c9202f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:45 +0000
Subject: [PATCH 122/154] fix: Sparse weights and the string and sparse forms
 of Constant are read

Sparse initializers were dropped, and Constant nodes of these forms had no value.
---
 onnx_tool/graph.py  |  8 +++++++-
 onnx_tool/node.py   |  7 +++++--
 onnx_tool/tensor.py | 12 ++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c8d1845..0e2ebbd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -7,7 +7,7 @@ import onnx
 
 from .node import create_node
 from .tensor import STATIC_TENSOR, DYNAMIC_TENSOR
-from .tensor import get_attribute_data, Tensor, volume
+from .tensor import get_attribute_data, sparsetensor2ndarray, Tensor, volume
 from .utils import VERSION, tuple2str, ModelConfig, print_table, num2str
 
 
@@ -283,6 +283,9 @@ class Graph():
             for initial in self.rawgraph.initializer:
                 if initial.name not in self.initials:
                     self.initials.append(initial.name)
+            for sparse in self.rawgraph.sparse_initializer:
+                if sparse.values.name not in self.initials:
+                    self.initials.append(sparse.values.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input + self.nodemap[name].get_subgraph_inputs():
@@ -582,6 +585,9 @@ class Graph():
         for initial in g.initializer:
             tensor = Tensor(initial)
             self.tensormap[initial.name] = tensor
+        for sparse in g.sparse_initializer:  # a dense weight
+            self.tensormap[sparse.values.name] = Tensor(
+                onnx.numpy_helper.from_array(sparsetensor2ndarray(sparse), sparse.values.name))
 
         for input in g.input:
             if input.name not in self.tensormap.keys():
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ca4919c..a9528cc 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1135,11 +1135,14 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
-        # the forms for numbers and lists of numbers
+        # the forms for numbers and lists of numbers, strings and sparse values
         for att, dtype in (('value_float', numpy.float32), ('value_floats', numpy.float32),
-                           ('value_int', numpy.int64), ('value_ints', numpy.int64)):
+                           ('value_int', numpy.int64), ('value_ints', numpy.int64),
+                           ('value_string', numpy.bytes_), ('value_strings', numpy.bytes_)):
             if att in self.attr:
                 self.value = numpy.array(self.attr[att], dtype=dtype)
+        if 'sparse_value' in self.attr:
+            self.value = self.sparse_value
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index b8969c9..4bb31a4 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -136,6 +136,16 @@ def tensorproto2ndarray(initial):
     return arr
 
 
+def sparsetensor2ndarray(sparse):
+    values, indices = tensorproto2ndarray(sparse.values), tensorproto2ndarray(sparse.indices)
+    arr = numpy.zeros(list(sparse.dims), dtype=values.dtype)
+    if len(indices.shape) == 1:
+        arr.reshape(-1)[indices] = values
+    else:
+        arr[tuple(indices.T)] = values
+    return arr
+
+
 def get_attribute_data(att):
     if att.type == att.INTS:
         val = []
@@ -155,6 +165,8 @@ def get_attribute_data(att):
         return val
     elif att.type == att.TENSOR:
         return tensorproto2ndarray(att.t)
+    elif att.type == att.SPARSE_TENSOR:
+        return sparsetensor2ndarray(att.sparse_tensor)
 
 
 def volume(shape: []):
-- 
2.43.0


From 2b7d6368cf2cef09ba05aab3d880c099ad2be0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 123/154] fix: Memory plans keep tensors read by the bodies of
 control flow nodes

---
 onnx_tool/graph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0e2ebbd..55ae933 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1315,19 +1315,24 @@ class Graph():
         tensor_in_mem = copy.deepcopy(self.input)
         tensor_mem_per_node = []
         tensor_consumed = {}
+        # the bodies of control flow nodes read tensors as well
+        consumedby = {name: list(consumers) for name, consumers in self.consumedby.items()}
+        for node, node_ in self.nodemap.items():
+            for name in node_.get_subgraph_inputs():
+                consumedby.setdefault(name, []).append(node)
         for node in self.nodemap.keys():
             node_ = self.nodemap[node]
             for name in node_.output:
                 tensor_in_mem.append(name)
             new_list = copy.deepcopy(tensor_in_mem)
             tensor_mem_per_node.append(new_list)
-            for name in node_.input:
-                if name in self.consumedby:
+            for name in node_.input + node_.get_subgraph_inputs():
+                if name in consumedby:
                     if name in tensor_consumed:
                         tensor_consumed[name].append(node)
                     else:
                         tensor_consumed[name] = [node]
-                    consumers = self.consumedby[name]
+                    consumers = consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
                         if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
-- 
2.43.0


From 471b53e0bcd63b2285924fa6e5d75ad3b2f9acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 124/154] fix: Removing a subtree removes nodes whose bodies
 depend on it

remove_subtree followed the direct readers of each tensor only, so a node whose If, Loop or Scan body reads a removed tensor stayed in the graph.
---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 55ae933..33b7d2d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -795,12 +795,16 @@ class Graph():
     def remove_subtree(self, nodename):
         nodeset = {nodename: None}
         searchlist = [nodename]
+        readers = {name: list(consumers) for name, consumers in self.consumedby.items()}
+        for name, node in self.nodemap.items():
+            for t in node.get_subgraph_inputs():
+                readers.setdefault(t, []).append(name)
         while len(searchlist):
             name = searchlist.pop()
             if name not in self.nodemap:
                 continue
             for o in self.nodemap[name].output:
-                for consumer in self.consumedby.get(o, []):
+                for consumer in readers.get(o, []):
                     if consumer not in nodeset:
                         nodeset[consumer] = None
                         searchlist.append(consumer)
-- 
2.43.0


From f17ecf6f5e94f4ae4969a45862702a61d3484435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 125/154] fix: The inference engine keeps the layout of weights
 stored in the model

Every two-dimensional MatMul weight was transposed as if it came from a safetensors file, which is wrong for a square weight of the ONNX file and fails for any other.
---
 inference/infer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..a6c6c51 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -641,6 +641,8 @@ class GraphInfer:
                     st_name = self.weight_map[tname]
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
 
+            from_safetensors = t is not None
+
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
                 t = torch.from_numpy(tensor_obj.numpy.astype(
@@ -650,7 +652,8 @@ class GraphInfer:
             if t is not None:
                 # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
                 op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
+                if from_safetensors:
+                    t = self._transpose_safetensors_tensor(t, op_type)
 
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
-- 
2.43.0


From 54cd47c7554a36a6226e60acd4a0e8069eb3402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 126/154] fix: The inference engine takes each size from the
 input which declares it

The shape of the first input was used for the variables of every input of the same rank, and inputs of another rank were ignored.
---
 inference/infer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index a6c6c51..7e12334 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -246,8 +246,7 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_inputs(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
@@ -708,8 +707,8 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
-        """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
+    def _update_shape_from_inputs(self, inputs: Dict[str, torch.Tensor]) -> bool:
+        """根据每个实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
         Returns:
             True 如果 shape 变量发生了实际变化，False 如果与上次相同。
@@ -718,7 +717,8 @@ class GraphInfer:
             self._last_var_values = {}
         changed = False
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            input_tensor = inputs.get(input_name)
+            if input_tensor is not None and len(desc) == len(input_tensor.shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
                         actual_val = int(input_tensor.shape[i])
-- 
2.43.0


From d39b0cf593b739bd702a215391d975fd0d5abb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 127/154] fix: The inference engine plans its pool for the
 element type it stores

Tensors of another type, such as the boolean result of a comparison, were planned with one byte per element but written with the element size of the engine, over their neighbours.
---
 inference/infer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 7e12334..c9e3cfe 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -76,6 +76,13 @@ class GraphInfer:
         # 5. 提取 compute graph（此时 tensormap 中的 shape 已是最大值）
         self._cg = self._graph.get_compute_graph()
 
+        # pool 中的张量都以 self.dtype 存放，按该类型计算所需字节数
+        for tname in self._cg.dynamics:
+            tensor = self._cg.tensormap[tname]
+            tensor.update_dtype(np_dtype)
+            if tensor.numpy is not None:
+                tensor.numpy = np.asarray(tensor.numpy).astype(np_dtype)
+
         # 6. 内存压缩 + MemoryPool（compress_memory 基于最大 shape 分配）
         # 使用 graph.py 的 compress_memory（Best-Fit 策略，按大小降序重排以减少碎片）
         # 检测是否有 kv_cache tensor，有则使用 llm_test 的双池压缩
-- 
2.43.0


From bf51c386861a9947242d90e99c5d53b3b82ac4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:44 +0000
Subject: [PATCH 128/154] fix: Kernels of convolutions and pools pad each side
 as the model says

The width was padded with the value for the bottom edge, different values for opposite edges were ignored, and average pools counted the padding although count_include_pad is 0 by default.
---
 inference/kernels.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..42c4adb 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -102,6 +102,13 @@ def _to_2d_padding(pads: tuple, auto_pad=None) -> int:
     return 0
 
 
+def _pad_2d(x, pads, value=0.0):
+    """按 ONNX pads [h_begin, w_begin, h_end, w_end] 对 x 的最后两维做 padding"""
+    if not any(pads):
+        return x
+    return F.pad(x, (pads[1], pads[3], pads[0], pads[2]), value=value)
+
+
 # ===========================================================================
 # 注册算子内核
 # ===========================================================================
@@ -124,8 +131,11 @@ class ConvKernel(Kernel):
         # ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
         if len(pads) == 2:
             pad_h, pad_w = pads[0], pads[1]
+        elif len(pads) == 4 and pads[0] == pads[2] and pads[1] == pads[3]:
+            pad_h, pad_w = pads[0], pads[1]
         elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            x = _pad_2d(x, pads)
+            pad_h, pad_w = 0, 0
         else:
             pad_h, pad_w = 0, 0
 
@@ -352,14 +362,12 @@ class AveragePoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
-        outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
-        )
+        result = F.avg_pool2d(_pad_2d(x, pads), kernel_shape, stride=strides)
+        if any(pads) and not attrs.get('count_include_pad', 0):
+            # 除以窗口内真实元素的比例，padding 不计入平均
+            valid = _pad_2d(torch.ones_like(x), pads)
+            result = result / F.avg_pool2d(valid, kernel_shape, stride=strides)
+        outputs[0].copy_(result)
 
 
 @KernelRegistry.register("MaxPool")
@@ -373,13 +381,8 @@ class MaxPoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
         outputs[0].copy_(
-            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            F.max_pool2d(_pad_2d(x, pads, float('-inf')), kernel_shape, stride=strides)
         )
 
 
-- 
2.43.0


From a3b6080084dced2f228ae6f4d2c0647abdb9ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:44 +0000
Subject: [PATCH 129/154] fix: The Gather kernel takes indices of any rank and
 negative ones

The result for indices of two or more dimensions was not given their shape, a scalar index kept its dimension, and negative indices were refused.
---
 inference/kernels.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 42c4adb..6587656 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -497,18 +497,13 @@ class GatherKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        # 负 indices 从末尾计数
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         # ONNX Gather: data[indices, ...] 沿 axis 维收集
-        # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
-            flat_idx = indices.reshape(-1)
-            result = torch.index_select(data, axis, flat_idx)
-            # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
-            outputs[0].copy_(result.reshape(out_shape))
-        else:
-            outputs[0].copy_(torch.index_select(data, axis, indices))
+        # 使用 torch.index_select 更高效且语义正确，多维（或 0 维）indices 先展平，
+        # 输出的形状包含 indices 的所有维度
+        result = torch.index_select(data, axis, indices.reshape(-1))
+        outputs[0].copy_(result.reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Cast")
-- 
2.43.0


From eb803c2134a1cc6955558c696d38534292353b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:44 +0000
Subject: [PATCH 130/154] fix: The Reshape kernel uses the shape which the
 shape engine gives

A shape computed in the graph is no tensor of the compute graph, so such a Reshape always failed.
---
 inference/kernels.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 6587656..bfe2ea8 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -247,23 +247,9 @@ class ReshapeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # inputs[1] 是 shape tensor，但 memory pool 里可能没有它
-        # 直接用 attrs 或 inputs[1] 的值
-        if len(inputs) > 1 and inputs[1] is not None:
-            shape = inputs[1].cpu().tolist()
-        else:
-            shape = attrs.get('shape', [])
-        # 处理 0 维度: 保持原形状
-        x = inputs[0]
-        new_shape = []
-        si = 0
-        for s in shape:
-            if s == 0:
-                new_shape.append(x.shape[si])
-            else:
-                new_shape.append(int(s))
-            si += 1
-        outputs[0].copy_(x.reshape(new_shape))
+        # inputs[1] 是 shape tensor，但由 shape 子图计算时 memory pool 里没有它，
+        # 而输出的形状已由 shape engine 给出
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Transpose")
-- 
2.43.0


From cb428e3e4f902c7d55baf1796af95d00bf567638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:44 +0000
Subject: [PATCH 131/154] fix: The Gemm kernel transposes B for the node which
 asks for it

Every constant input of a Gemm with transB was transposed when loaded, a bias of two dimensions and a weight which other nodes read included, and a B computed in the graph never was.
---
 inference/kernels.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index bfe2ea8..7e027fb 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -283,9 +283,8 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -293,14 +292,6 @@ class GemmKernel(Kernel):
         if C is not None:
             outputs[0].add_(beta * C)
 
-    @staticmethod
-    def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
-        transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
-        return tensor
-
 
 @KernelRegistry.register("MatMul")
 class MatMulKernel(Kernel):
-- 
2.43.0


From 90b9c2986d481e3fcfa2e4fe093644a6a1518ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:44 +0000
Subject: [PATCH 132/154] fix: The Pad kernel pads the side and in the mode
 which the model says

Begin and end of each dimension were exchanged, the pads were not integers, and the mode, a byte string, was always taken as constant.
---
 inference/kernels.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7e027fb..7baf42e 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -681,18 +681,23 @@ class PadKernel(Kernel):
     def run(inputs, outputs, attrs):
         x = inputs[0]
         pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
+        pads = [int(p) for p in pads]
         mode = attrs.get('mode', 'constant')
-        value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
+        if isinstance(mode, bytes):
+            mode = mode.decode()
+        value = inputs[2].item() if len(inputs) > 2 and inputs[2] is not None else attrs.get('value', 0.0)
 
         # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
         # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
         ndim = len(pads) // 2
         pad_tuple = []
-        for i in range(ndim):
+        # F.pad 格式从最后一个维度开始
+        for i in reversed(range(ndim)):
             pad_tuple.append(pads[i])           # begin
             pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
+        # 非 constant 模式只支持最后几维，去掉不需要 padding 的前几维
+        while len(pad_tuple) > 4 and not any(pad_tuple[-2:]):
+            pad_tuple = pad_tuple[:-2]
 
         torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
         outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
-- 
2.43.0


From 40ce4950de89225b16c780f4ed814abee0719bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:19 +0000
Subject: [PATCH 133/154] fix: The Expand kernel broadcasts in both directions

A dimension of 1 in the shape, or fewer dimensions than the input has, keep the input's dimensions; such shapes were refused.
---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7baf42e..2a82964 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -513,8 +513,8 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = inputs[1].cpu().tolist()
-        outputs[0].copy_(inputs[0].expand(shape))
+        # shape 与输入双向广播，结果就是输出的形状
+        outputs[0].copy_(inputs[0].expand(outputs[0].shape))
 
 
 @KernelRegistry.register("Tile")
-- 
2.43.0


From 59cd95e763669a70cfc60a315144a60c9a0b0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:19 +0000
Subject: [PATCH 134/154] fix: The Unsqueeze kernel takes negative axes
 relative to its output

---
 inference/kernels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 2a82964..1eecac7 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -448,7 +448,9 @@ class UnsqueezeKernel(Kernel):
 
         if axes is not None:
             t = inputs[0]
-            for ax in sorted(axes):
+            # 负 axes 相对于输出的维度数
+            rank = t.dim() + len(axes)
+            for ax in sorted(ax % rank for ax in axes):
                 t = t.unsqueeze(ax)
             outputs[0].copy_(t)
         else:
-- 
2.43.0


From 022a6635ad826528262eff7c653877b074c1809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 135/154] fix: The Squeeze kernel reads its axes from the input

Since opset 13 the axes are an input; they were ignored, and every dimension of size 1 was squeezed.
---
 inference/kernels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 1eecac7..8423715 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -427,7 +427,11 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
+        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
+        if len(inputs) > 1 and inputs[1] is not None:
+            axes = [int(x) for x in inputs[1].cpu().tolist()]
+        else:
+            axes = attrs.get('axes', None)
         if axes is not None:
             outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
         else:
-- 
2.43.0


From 7f60fe8ac38dfb1f2d7c454eceeec5d2e1b4408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 136/154] fix: The reduction kernels reduce all dimensions when
 there are no axes

torch takes keepdim only together with dim, so a reduction without axes failed.
---
 inference/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 8423715..a03bef0 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -625,7 +625,7 @@ class ReduceMeanKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].mean(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].mean(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].mean(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("ReduceSum")
@@ -643,7 +643,7 @@ class ReduceSumKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].sum(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].sum(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].sum(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("Identity")
@@ -1102,7 +1102,7 @@ class ReduceMaxKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].amax(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].amax(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].amax(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("Split")
-- 
2.43.0


From e4b1e186937662c81337500383e3bca010c6f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:06 +0000
Subject: [PATCH 137/154] fix: RMS normalization of models loaded from files

---
 inference/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index a03bef0..9f1ed81 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -835,6 +835,8 @@ class LayerNormKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
         eps = attrs.get('epsilon', 1e-5)
         norm_type = attrs.get('type', 'layer')
+        if isinstance(norm_type, bytes):
+            norm_type = norm_type.decode()
 
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
-- 
2.43.0


From cc1c3b53382714dff9bbbe417aac90d9b0570b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:06 +0000
Subject: [PATCH 138/154] fix: A bias which the checkpoint does not have is not
 read from the memory pool

---
 inference/infer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference/infer.py b/inference/infer.py
index c9e3cfe..a932029 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -126,9 +126,11 @@ class GraphInfer:
             self._tensor_blocks[tname] = [offset, correct_size]
 
         # 预创建所有 tensor 的 1D 视图（按最大 shape 分配），forward 时只 reshape
+        # 不在 input_desc 中的 graph input 是 weight/bias，只来自常量缓存，不从 pool 读取
+        weight_inputs = set(self._cg.input) - set(input_desc)
         self._tensor_views: Dict[str, torch.Tensor] = {}
         for tname, (offset, size) in self._tensor_blocks.items():
-            if size > 0:
+            if size > 0 and tname not in weight_inputs:
                 if tname in kv_compress_mem and self.kv_pool is not None:
                     self._tensor_views[tname] = self.kv_pool._pool[offset:offset + size].view(dtype=dtype)
                 else:
-- 
2.43.0


From 1a1a138bc26c8f81849cd157c0603858aeb682d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:37 +0000
Subject: [PATCH 139/154] fix: generate() feeds only the dynamic inputs, not
 weights with matching names

---
 inference/llm_infer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 13f71cf..09cbb53 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -146,7 +146,6 @@ class LLMInfer:
             print(f"Detected KV-cache model (kv_cache + n_past inputs)")
 
         # 构建 input_desc 和 input_range（只包含动态输入，排除 weight/bias）
-        self.input_names = input_names
         input_desc = {}
         input_range = {}
 
@@ -201,6 +200,9 @@ class LLMInfer:
                     input_desc[name] = tuple(desc)
                     # 不 break，继续处理其他 input（如 position）
 
+        # generate 只传入这些动态输入
+        self.input_names = [n for n in input_names if n in input_desc]
+
         print(f"Input desc: {input_desc}")
         print(f"Input range: {input_range}")
 
-- 
2.43.0


From 0f6dea44564b45de7a8827bffb7cf08d51733107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:37 +0000
Subject: [PATCH 140/154] fix: generate() returns at most max_length tokens

---
 inference/llm_infer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 09cbb53..0060d81 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -299,7 +299,7 @@ class LLMInfer:
         if verbose:
             print("Warmup done.\n")
 
-        for step in range(max_length - prompt_len + 1):
+        for step in range(max_length - prompt_len):
             if step == 0:
                 # Prefill: 输入所有 prompt tokens
                 step_input = torch.tensor([input_ids], device=device, dtype=torch.int64)
@@ -396,7 +396,7 @@ class LLMInfer:
 
         if verbose:
             print(f"\n{total_tokens} tokens in {total_time:.1f}ms "
-                  f"({total_time/total_tokens:.1f}ms/token)")
+                  f"({total_time/max(total_tokens, 1):.1f}ms/token)")
 
         # 打印 TTFT / TPOT
         if ttft is not None:
-- 
2.43.0


From ecf9aa8eadc43b385a240f3332e8f70fdbcfcdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 141/154] fix: AP samples the precision where the recall is
 reached

---
 inference/yolo_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 6010959..b88bb28 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -323,7 +323,7 @@ def _compute_ap(recalls: np.ndarray, precisions: np.ndarray) -> float:
     # 在 101 个 recall 点采样
     ap = 0.0
     for t in np.linspace(0, 1, 101):
-        idx = np.searchsorted(recalls, t, side='right')
+        idx = np.searchsorted(recalls, t, side='left')
         if idx < len(precisions):
             ap += precisions[idx]
     return ap / 101.0
-- 
2.43.0


From b0fcb5e0ebe370b0c967cae38aed453807e44561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 142/154] fix: mAP compares boxes in the coordinates of the
 original image

---
 inference/yolo_eval.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index b88bb28..d6572fb 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -627,6 +627,13 @@ class YOLOEvaluator:
         output_name = self.infer.compute_graph.output[0]
         return outputs[output_name].cpu().numpy()
 
+    def _boxes_in_image(self, dets: np.ndarray, lb_info: Tuple[float, float, float]) -> np.ndarray:
+        """将检测框从 letterbox 坐标逆映射回原始图片坐标 [M, 4]"""
+        if len(dets) == 0:
+            return np.zeros((0, 4))
+        pad_left, pad_top, scale = lb_info
+        return (dets[:, 1:5] - np.array([pad_left, pad_top, pad_left, pad_top])) / scale
+
     def evaluate_coco(
         self,
         coco_path: str,
@@ -698,7 +705,7 @@ class YOLOEvaluator:
 
             all_dets.append({
                 'image_id': image_id,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                'boxes': self._boxes_in_image(dets, lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -782,7 +789,7 @@ class YOLOEvaluator:
             all_dets.append({
                 'image_id': idx,
                 'file_name': file_name,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                'boxes': self._boxes_in_image(dets, lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -911,7 +918,7 @@ def export_pr_curve(
         image_path = os.path.join(image_dir, file_name)
         if not os.path.isfile(image_path):
             continue
-        img, _ = load_image(image_path, evaluator.input_size)
+        img, (pad_left, pad_top, scale) = load_image(image_path, evaluator.input_size)
         output = evaluator.infer_single(img)
 
         if output.ndim == 3:
@@ -920,7 +927,7 @@ def export_pr_curve(
         for det in output:
             all_preds.append({
                 'image_id': img_info['id'],
-                'box': det[:4].tolist(),
+                'box': ((det[:4] - np.array([pad_left, pad_top, pad_left, pad_top])) / scale).tolist(),
                 'score': float(det[4]),
                 'cls': int(det[5]),
             })
-- 
2.43.0


From e2df81a47864d572321038b6d190b4f3ff1d8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 143/154] fix: mAP counts the annotations of the evaluated
 images only

---
 inference/yolo_eval.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index d6572fb..96f2e59 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -329,6 +329,12 @@ def _compute_ap(recalls: np.ndarray, precisions: np.ndarray) -> float:
     return ap / 101.0
 
 
+def _annotations_of(gt_annotations: Dict, images: List[Dict]) -> Dict:
+    """只保留已评估图片的标注"""
+    ids = {img['id'] for img in images}
+    return {**gt_annotations, 'annotations': [a for a in gt_annotations['annotations'] if a['image_id'] in ids]}
+
+
 # ===========================================================================
 # 标注绘制
 # ===========================================================================
@@ -726,7 +732,7 @@ class YOLOEvaluator:
 
         # 计算指标
         print(f"\nComputing COCO metrics...")
-        metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
+        metrics = compute_coco_metrics(all_dets, _annotations_of(gt, images), num_classes=num_classes)
 
         metrics['num_images'] = len(images)
         metrics['total_time'] = total_time
@@ -908,6 +914,7 @@ def export_pr_curve(
     """
     gt = load_coco_annotations(coco_path)
     images = gt['images'][:max_images]
+    gt = _annotations_of(gt, images)
     coco_dir = os.path.dirname(coco_path)
     image_dir = os.path.join(coco_dir, 'val2017')
 
-- 
2.43.0


From b4c8dbbf7dc23611c1c4e24bdde962ceef18811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 144/154] fix: evaluate_image_dir finds the annotations of an
 image by its file name

---
 inference/yolo_eval.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 96f2e59..2228764 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -803,13 +803,17 @@ class YOLOEvaluator:
             # 保存标注图片
             if save_dir:
                 gt = None
+                image_id = idx
                 if draw_gt and anno_file and os.path.isfile(anno_file):
                     gt = load_coco_annotations(anno_file)
+                    for info in gt['images']:
+                        if os.path.basename(info['file_name']) == file_name:
+                            image_id = info['id']
                 self._save_annotated_image(
                     image_path, dets, save_dir, file_name,
                     lb_info=lb_info,
                     gt_annotations=gt,
-                    image_id=idx,
+                    image_id=image_id,
                 )
 
             if (idx + 1) % 10 == 0 or idx == len(image_files) - 1:
@@ -829,7 +833,11 @@ class YOLOEvaluator:
         if anno_file and os.path.isfile(anno_file):
             gt = load_coco_annotations(anno_file)
             num_classes = len(gt.get('categories', []))
-            coco_metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
+            # 按文件名匹配标注中的图片
+            images = {os.path.basename(img['file_name']): img for img in gt['images']}
+            found = [dict(det, image_id=images[det['file_name']]['id']) for det in all_dets if det['file_name'] in images]
+            gt = _annotations_of(gt, [images[det['file_name']] for det in all_dets if det['file_name'] in images])
+            coco_metrics = compute_coco_metrics(found, gt, num_classes=num_classes)
             metrics.update(coco_metrics)
 
         return metrics
-- 
2.43.0


From 2c5924af033f9fbcfcf31e8fe307e1c0c71c66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:55 +0000
Subject: [PATCH 145/154] fix: mAP compares the categories of the model and of
 the annotations by their order

---
 inference/yolo_eval.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 2228764..7f93ede 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -335,6 +335,16 @@ def _annotations_of(gt_annotations: Dict, images: List[Dict]) -> Dict:
     return {**gt_annotations, 'annotations': [a for a in gt_annotations['annotations'] if a['image_id'] in ids]}
 
 
+def _category_ids(all_dets: List[Dict], gt_annotations: Dict) -> Tuple[List[Dict], int]:
+    """模型输出的类别序号 -> 标注的类别 ID（COCO 的 ID 从 1 开始且不连续）"""
+    ids = sorted(c['id'] for c in gt_annotations.get('categories', []))
+    mapped = [
+        dict(det, labels=np.array([ids[int(k)] if int(k) < len(ids) else -1 for k in det['labels']]))
+        for det in all_dets
+    ]
+    return mapped, max(ids, default=-1) + 1
+
+
 # ===========================================================================
 # 标注绘制
 # ===========================================================================
@@ -732,7 +742,8 @@ class YOLOEvaluator:
 
         # 计算指标
         print(f"\nComputing COCO metrics...")
-        metrics = compute_coco_metrics(all_dets, _annotations_of(gt, images), num_classes=num_classes)
+        all_dets, num_labels = _category_ids(all_dets, gt)
+        metrics = compute_coco_metrics(all_dets, _annotations_of(gt, images), num_classes=num_labels)
 
         metrics['num_images'] = len(images)
         metrics['total_time'] = total_time
@@ -832,12 +843,12 @@ class YOLOEvaluator:
         # 如果有标注文件，计算 mAP
         if anno_file and os.path.isfile(anno_file):
             gt = load_coco_annotations(anno_file)
-            num_classes = len(gt.get('categories', []))
             # 按文件名匹配标注中的图片
             images = {os.path.basename(img['file_name']): img for img in gt['images']}
             found = [dict(det, image_id=images[det['file_name']]['id']) for det in all_dets if det['file_name'] in images]
             gt = _annotations_of(gt, [images[det['file_name']] for det in all_dets if det['file_name'] in images])
-            coco_metrics = compute_coco_metrics(found, gt, num_classes=num_classes)
+            found, num_labels = _category_ids(found, gt)
+            coco_metrics = compute_coco_metrics(found, gt, num_classes=num_labels)
             metrics.update(coco_metrics)
 
         return metrics
@@ -979,7 +990,8 @@ def export_pr_curve(
                 'labels': labels,
             })
 
-        metrics = compute_coco_metrics(all_dets, gt, iou_thresholds=[0.5])
+        all_dets, num_labels = _category_ids(all_dets, gt)
+        metrics = compute_coco_metrics(all_dets, gt, num_classes=num_labels, iou_thresholds=[0.5])
         pr_points.append({
             'threshold': float(thr),
             'mAP@0.5': metrics['mAP@0.5'],
-- 
2.43.0


From e0ad33127532466e030c344dbfec34c9a6aaf5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:43 +0000
Subject: [PATCH 146/154] fix: create_memory_pool_from_model plans the largest
 sizes in the type of the pool

---
 inference/memory_pool.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/inference/memory_pool.py b/inference/memory_pool.py
index 9fe5d9f..18eb06e 100644
--- a/inference/memory_pool.py
+++ b/inference/memory_pool.py
@@ -242,7 +242,17 @@ def create_memory_pool_from_model(
     shape_engine = g.shape_regress(
         model_config["input_desc"], model_config["input_range"]
     )
+    # 按 input_range 的最大值规划内存，所有张量都以 dtype 存放
+    for var_name, (_, hi) in input_range.items():
+        shape_engine.update_variable(var_name, hi)
+    g.shape_infer(shape_engine.generate_input())
     cg = g.get_compute_graph()
+    np_dtype = np.dtype(str(dtype).split('.')[-1])
+    for tname in cg.dynamics:
+        tensor = cg.tensormap[tname]
+        tensor.update_dtype(np_dtype)
+        if tensor.numpy is not None:
+            tensor.numpy = np.asarray(tensor.numpy).astype(np_dtype)
     compress_mem, compress_size = cg.compress_memory()
 
     pool = MemoryPool(compress_mem, compress_size, dtype=dtype, device=device)
-- 
2.43.0


From ede89831942a9ec441fbbc1b417c674b28a0a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:04 +0000
Subject: [PATCH 147/154] fix: The shape engine prefers the simplest of several
 fitting expressions

---
 onnx_tool/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 33b7d2d..256f8e4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1286,19 +1286,20 @@ class Graph():
                         srckeys = []
                         for iname in self.nodemap[self.producedby[vkey][0]].input:
                             srckeys.extend(shapeengine.get_tensor_desc(iname) or [])
-                        srckeys = [k for k in srckeys if k in range_map] + list(range_map)
+                        srckeys = [k for k in srckeys if k in range_map]
                         err = None
-                        for k in dict.fromkeys(srckeys):
+                        for k in dict.fromkeys(srckeys + list(range_map)):
                             e = ValueExpr(range_map[k], newrange)
-                            newerr = e.error(range_map[k], newrange)
+                            # of other variables the nearest one, a large factor may fit the samples by chance
+                            newerr = (e.error(range_map[k], newrange), abs(e.alpha))
                             if err is None or newerr < err:
                                 srckey, expr, err = k, e, newerr
-                            if err == 0:
+                            if newerr[0] == 0 and (k in srckeys or newerr[1] == 1):
                                 break
                         vcount += 1
                         valkey = str(vcount)
-                        if err > 0:
-                            warnings.warn(f'src key {srckey} dst key {valkey} error:{err}')
+                        if err[0] > 0:
+                            warnings.warn(f'src key {srckey} dst key {valkey} error:{err[0]}')
                         shapeengine.add_expr(valkey, srckey, expr)
                         range_map[valkey] = newrange
                     shapeengine.get_tensor_desc(vkey)[i] = valkey
-- 
2.43.0


From 43ac2f87caa657a7a2df5ab054ca43f3a157d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:05 +0000
Subject: [PATCH 148/154] fix: The GatherElements kernel counts negative
 indices from the end

---
 inference/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index 9f1ed81..aa76269 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -1071,6 +1071,8 @@ class GatherElementsKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        # 负 indices 从末尾计数
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         outputs[0].copy_(torch.gather(data, axis, indices))
 
 
-- 
2.43.0


From 298aa7f534934c44b4a74f3cb677dc01774c588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:14 +0000
Subject: [PATCH 149/154] fix: forward also returns the outputs which are
 constants

---
 inference/infer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index a932029..f199145 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -433,6 +433,9 @@ class GraphInfer:
                 if shape is None:
                     shape = self.get_tensor_shape(output_name)
                 outputs[output_name] = self._reshape_view(output_name, shape)
+            elif output_name in self._constant_tensors:
+                # 常量折叠得到的输出
+                outputs[output_name] = self._constant_tensors[output_name].clone()
 
         # 附加 profile 结果
         if profile:
-- 
2.43.0


From f912f3e35d780ba37c01f520816364d0e26625f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:00 +0000
Subject: [PATCH 150/154] fix: The inference engine truncates integer divisions

---
 inference/infer.py   | 10 +++++++++-
 inference/kernels.py |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index f199145..19db939 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -76,6 +76,11 @@ class GraphInfer:
         # 5. 提取 compute graph（此时 tensormap 中的 shape 已是最大值）
         self._cg = self._graph.get_compute_graph()
 
+        # 整数张量也以 self.dtype 存放，整数除法须舍去小数部分
+        self._integer_div = set(
+            name for name, node in self._cg.nodemap.items()
+            if node.op_type == 'Div' and np.issubdtype(self._cg.tensormap[node.output[0]].dtype, np.integer))
+
         # pool 中的张量都以 self.dtype 存放，按该类型计算所需字节数
         for tname in self._cg.dynamics:
             tensor = self._cg.tensormap[tname]
@@ -390,7 +395,10 @@ class GraphInfer:
                     print(f"    >> Running kernel: {kernel_cls.__name__}")
                 if profile:
                     t2 = time.perf_counter()
-                kernel_cls.run(input_tensors, output_tensors, node.attr)
+                attrs = node.attr
+                if node_name in self._integer_div:
+                    attrs = dict(attrs, rounding_mode='trunc')
+                kernel_cls.run(input_tensors, output_tensors, attrs)
                 if profile:
                     if self.device == 'xpu':
                         torch.xpu.synchronize()
diff --git a/inference/kernels.py b/inference/kernels.py
index aa76269..169c4b3 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -182,7 +182,7 @@ class DivKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        torch.div(inputs[0], inputs[1], out=outputs[0])
+        torch.div(inputs[0], inputs[1], rounding_mode=attrs.get('rounding_mode'), out=outputs[0])
 
 
 @KernelRegistry.register("Relu")
-- 
2.43.0


From 7024ffa8c245eb26d4114cabcc3b6ab5ddf43033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:08 +0000
Subject: [PATCH 151/154] fix: The Resize kernel follows the coordinate and
 rounding modes

---
 inference/kernels.py | 52 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 169c4b3..8c6da80 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -713,25 +713,57 @@ class PadKernel(Kernel):
 class ResizeKernel(Kernel):
     op_type = "Resize"
 
+    @staticmethod
+    def _nearest_index(size, out_size, scale, coordinate, rounding, device):
+        """nearest 模式下一个维度的每个输出位置对应的输入位置"""
+        i = torch.arange(out_size, device=device, dtype=torch.float64)
+        if coordinate == 'align_corners':
+            pos = i * ((size - 1) / max(out_size - 1, 1))
+        elif coordinate == 'asymmetric':
+            pos = i / scale
+        elif coordinate == 'pytorch_half_pixel' and out_size == 1:
+            pos = i
+        else:
+            pos = (i + 0.5) / scale - 0.5
+        if rounding == 'floor':
+            pos = torch.floor(pos)
+        elif rounding == 'ceil':
+            pos = torch.ceil(pos)
+        elif rounding == 'round_prefer_ceil':
+            pos = torch.floor(pos + 0.5)
+        else:
+            pos = torch.ceil(pos - 0.5)
+        return torch.clamp(pos, 0, size - 1).long()
+
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
         # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes
         if len(inputs) > 3 and inputs[3] is not None:
-            sizes = inputs[3].cpu().tolist()
+            sizes = [int(v) for v in inputs[3].cpu().tolist()]
             # sizes 是 [N, C, H, W] 格式
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
-            outputs[0].copy_(result)
+            scales = [sizes[i] / x.shape[i] for i in range(len(sizes))]
         elif len(inputs) > 2 and inputs[2] is not None:
             scales = inputs[2].cpu().tolist()
             sizes = [int(x.shape[i] * scales[i]) for i in range(len(scales))]
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode)
-            outputs[0].copy_(result)
+        else:
+            return
+
+        def text(name, default):
+            value = attrs.get(name, default)
+            return value.decode() if isinstance(value, bytes) else value
+
+        mode = text('mode', 'nearest')
+        coordinate = text('coordinate_transformation_mode', 'half_pixel')
+        if mode == 'nearest':
+            rounding = text('nearest_mode', 'round_prefer_floor')
+            for i in range(2, x.dim()):
+                index = ResizeKernel._nearest_index(x.shape[i], sizes[i], scales[i], coordinate, rounding, x.device)
+                x = torch.index_select(x, i, index)
+            outputs[0].copy_(x)
+        else:
+            torch_mode = {'linear': {3: 'linear', 4: 'bilinear', 5: 'trilinear'}[x.dim()], 'cubic': 'bicubic'}[mode]
+            outputs[0].copy_(F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=coordinate == 'align_corners'))
 
 
 # ===========================================================================
-- 
2.43.0


From b994c8332af9a5df1d3e29cced40a9ef66663349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:30 +0000
Subject: [PATCH 152/154] fix: The Gelu kernel follows its approximate
 attribute

---
 inference/kernels.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 8c6da80..866f7bf 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -807,13 +807,17 @@ class MadKernel(Kernel):
 
 @KernelRegistry.register("Gelu")
 class GeluKernel(Kernel):
-    """Fused GELU activation: y = 0.5 * x * (1 + tanh(sqrt(2/pi) * (x + 0.044715 * x^3)))"""
+    """GELU activation: y = 0.5 * x * (1 + erf(x / sqrt(2))),
+    approximate='tanh': y = 0.5 * x * (1 + tanh(sqrt(2/pi) * (x + 0.044715 * x^3)))"""
     op_type = "Gelu"
 
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        outputs[0].copy_(F.gelu(x))
+        approximate = attrs.get('approximate', 'none')
+        if isinstance(approximate, bytes):
+            approximate = approximate.decode()
+        outputs[0].copy_(F.gelu(x, approximate=approximate))
 
 
 @KernelRegistry.register("RangeGather")
-- 
2.43.0


From a0f9ee4a7e6a242d911bc319b0026b8c3b12542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:10 +0000
Subject: [PATCH 153/154] fix: The Conv and pooling kernels follow auto_pad

---
 inference/kernels.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 866f7bf..7519574 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -109,6 +109,23 @@ def _pad_2d(x, pads, value=0.0):
     return F.pad(x, (pads[1], pads[3], pads[0], pads[2]), value=value)
 
 
+def _window_pads(x, kernel_shape, strides, dilations, attrs):
+    """ONNX pads [h_begin, w_begin, h_end, w_end]，包括 auto_pad"""
+    auto_pad = attrs.get('auto_pad', b'NOTSET')
+    if auto_pad in (b'VALID', 'VALID'):
+        return (0, 0, 0, 0)
+    if auto_pad not in (b'SAME_UPPER', b'SAME_LOWER', 'SAME_UPPER', 'SAME_LOWER'):
+        return attrs.get('pads', (0, 0, 0, 0))
+    begins, ends = [], []
+    for i in range(2):
+        insize = x.shape[2 + i]
+        outsize = -(-insize // strides[i])
+        total = max((outsize - 1) * strides[i] + dilations[i] * (kernel_shape[i] - 1) + 1 - insize, 0)
+        begins.append(total // 2 if auto_pad in (b'SAME_UPPER', 'SAME_UPPER') else total - total // 2)
+        ends.append(total - begins[i])
+    return tuple(begins + ends)
+
+
 # ===========================================================================
 # 注册算子内核
 # ===========================================================================
@@ -124,8 +141,8 @@ class ConvKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
 
         strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
         dilations = attrs.get('dilations', (1, 1))
+        pads = _window_pads(x, w.shape[2:], strides, dilations, attrs)
         group = attrs.get('group', 1)
 
         # ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
@@ -337,7 +354,7 @@ class AveragePoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
+        pads = _window_pads(x, kernel_shape, strides, (1, 1), attrs)
 
         result = F.avg_pool2d(_pad_2d(x, pads), kernel_shape, stride=strides)
         if any(pads) and not attrs.get('count_include_pad', 0):
@@ -356,7 +373,7 @@ class MaxPoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
+        pads = _window_pads(x, kernel_shape, strides, (1, 1), attrs)
 
         outputs[0].copy_(
             F.max_pool2d(_pad_2d(x, pads, float('-inf')), kernel_shape, stride=strides)
-- 
2.43.0


From 35de704925b64ae7dff90399f6e0b3443f8b7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:10 +0000
Subject: [PATCH 154/154] fix: The pooling kernels follow ceil_mode and
 dilations

---
 inference/kernels.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7519574..36de282 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -354,13 +354,14 @@ class AveragePoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
+        ceil_mode = bool(attrs.get('ceil_mode', 0))
         pads = _window_pads(x, kernel_shape, strides, (1, 1), attrs)
 
-        result = F.avg_pool2d(_pad_2d(x, pads), kernel_shape, stride=strides)
+        result = F.avg_pool2d(_pad_2d(x, pads), kernel_shape, stride=strides, ceil_mode=ceil_mode)
         if any(pads) and not attrs.get('count_include_pad', 0):
             # 除以窗口内真实元素的比例，padding 不计入平均
             valid = _pad_2d(torch.ones_like(x), pads)
-            result = result / F.avg_pool2d(valid, kernel_shape, stride=strides)
+            result = result / F.avg_pool2d(valid, kernel_shape, stride=strides, ceil_mode=ceil_mode)
         outputs[0].copy_(result)
 
 
@@ -373,10 +374,12 @@ class MaxPoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
-        pads = _window_pads(x, kernel_shape, strides, (1, 1), attrs)
+        dilations = attrs.get('dilations', (1, 1))
+        pads = _window_pads(x, kernel_shape, strides, dilations, attrs)
 
         outputs[0].copy_(
-            F.max_pool2d(_pad_2d(x, pads, float('-inf')), kernel_shape, stride=strides)
+            F.max_pool2d(_pad_2d(x, pads, float('-inf')), kernel_shape, stride=strides,
+                         dilation=dilations, ceil_mode=bool(attrs.get('ceil_mode', 0)))
         )
 
 
-- 
2.43.0

