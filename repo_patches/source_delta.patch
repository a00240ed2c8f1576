From b214c1ef24ea26ceaaca08240d6c0cf7d9931568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 01/36] fix: wrap the pooling buffer index at the buffer length
 and correct the dilated receptive field

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 86c45b877d8453d6e747f7ee20ca826c2d67d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 02/36] fix: keep the stride state of continual convolutions
 with a temporal kernel size of one

---
 continual/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..f2282c8 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,8 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        # An initialised buffer is empty, but not 1-dimensional, if kernel_size[0] == 1
+        if self.state_buffer.dim() > 1:
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From 8d09bf4240ce8cadcb3321f0d81411bd937d3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 03/36] fix: continue end-padding from the current state in
 forward_steps with update_state=False

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..ed48835 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -275,9 +275,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From 8c5148fcdd0150ad69aa059b47bba9e2c8e708af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 04/36] fix: treat auto_shrink="centered" like True when
 initialising the Delay state

---
 continual/delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..f67ec52 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
-- 
2.43.0


From 3483d05234c80682e583b127b793af69494df899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 05/36] fix: do not flush an auto-shrinking Delay during
 end-padding

---
 continual/delay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index f67ec52..842989f 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -120,7 +120,10 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # A shrinking delay does not output the last steps of a sequence
+        end_padding = 0 if self.auto_shrink else self.delay
+
+        with temporary_parameter(self, "padding", (end_padding,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From 341cff2c8b5408b5d17761455d35566713f1a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 06/36] fix: pad max pooling with negative infinity in time by
 default, as torch.nn does

---
 continual/pooling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..a924379 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
-- 
2.43.0


From e71ac9cc066f971b951a9266476e87eb79adfdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 07/36] fix: resolve call modes by value so that ints, copies
 and pickled modules work

---
 continual/module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index ed48835..445e8e3 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -50,7 +50,7 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = torch.tensor(cm)
     return cm
 
 
@@ -345,11 +345,11 @@ class CoModule(ABC):
         """
         _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, int(_callmode("forward"))): self._slow_forward,
+            (False, int(_callmode("forward"))): self.forward,
+            (False, int(_callmode("forward_steps"))): self.forward_steps,
+            (False, int(_callmode("forward_step"))): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
-- 
2.43.0


From b5f1d48d6f736c733ed3bffb00486c156d2bf5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 08/36] fix: use validated call modes in BroadcastReduce to
 support naively mapped modules

---
 continual/container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..e122761 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -871,7 +871,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -881,7 +881,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -890,7 +890,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with temporary_parameter(m, "call_mode", _callmode("forward")):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
-- 
2.43.0


From 5945647bb1e6b2e2a8cc2a98acb38dba029645f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 09/36] fix: support update_state=False on multi-head attention
 modules without state

---
 continual/multihead_attention/mha_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..390dde8 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -460,6 +460,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
+        backup_state = None
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
 
@@ -472,7 +473,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
+        elif backup_state is not None:
             self.set_state(backup_state)
 
         return o
@@ -514,6 +515,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
+        backup_state = None
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
 
-- 
2.43.0


From 20899a31911d332b4d5f025ee5a6c7fe5ae63f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 10/36] fix: forward keyword arguments as such in
 forward_stepping modules

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..fde95c8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -106,7 +106,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             else getattr(module, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
+            return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
     module.forward = forward_with_callmode
-- 
2.43.0


From d06d7bb610ac0d8a4383883fc65c6a9790c41723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 11/36] fix: wrap the RetroactiveUnity index at its buffer
 length

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..79a7722 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From 90d03b214977dc2cd8506fdbfeae703ae38d229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 12/36] fix: use GELU when requested in transformer encoder
 layers

---
 continual/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 79a7722..5b8b2ef 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -244,7 +244,7 @@ def SingleOutputTransformerEncoderLayer(
                 ),
                 (
                     "activation",
-                    activation,
+                    Lambda(activation, takes_time=True),
                 ),
                 (
                     "dropout",
@@ -472,7 +472,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From 1ec8c70f6398ebc287318cb5810865c43ad23cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 13/36] fix: align the residual of single-output encoder layers
 with the query index during steps

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 5b8b2ef..4e30f88 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -270,7 +270,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else Delay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From 8329b47ba84867b27f854f19054b346551f80ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 14/36] fix: restore the enclosing call mode when leaving a
 nested call_mode context

---
 continual/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 445e8e3..2ea4109 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -75,18 +75,20 @@ class _CallModeContext(object):
     def __init__(self):
         self.cur = _callmode("forward")
         self.prev = None
+        self._outer = []
 
     def __call__(self, value: Union[str, int, torch.Tensor]):
+        value = _callmode(value)
+        self._outer.append((self.cur, self.prev))
         self.prev = self.cur
-        self.cur = _callmode(value)
+        self.cur = value
         return self
 
     def __enter__(self):
         pass
 
     def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        self.cur, self.prev = self._outer.pop()
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 1e390276c0d668a53de91ac9ff54f2ecd4716666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 15/36] fix: restore temporary parameters when an exception is
 raised

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From e75cba5235c7deaf234ce8ed0fbf9258f3e9b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 16/36] fix: drop the query dimension in single-output
 forward_steps if batch_first=False

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From 3601171d729ce5ddf96c683e950af06502609515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 17/36] fix: pass pad_end and update_state on in
 Conditional.forward_steps

---
 continual/container.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index e122761..a65238f 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1064,9 +1064,13 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
+            return self._modules["0"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
+            return self._modules["1"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         return input
 
     @property
-- 
2.43.0


From fb1a22623fd7d12455f755bf0cdf558e27265c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 18/36] fix: keep the states of both branches in
 Conditional._forward_step

---
 continual/container.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index a65238f..eced232 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1055,12 +1055,17 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
+        prev_state = prev_state or [None for _ in self._modules]
+        next_state = prev_state.copy()
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            input, next_state[0] = self._modules["0"]._forward_step(
+                input, prev_state[0]
+            )
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            input, next_state[1] = self._modules["1"]._forward_step(
+                input, prev_state[1]
+            )
+        return input, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-- 
2.43.0


From 46dc9de4041a33c8c6e4cdad2f8fe0ccd23d9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 19/36] fix: clean the states of the branches in
 Conditional.clean_state

---
 continual/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index eced232..584f455 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1094,5 +1094,9 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    def clean_state(self):
+        for m in self._modules.values():
+            m.clean_state()
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From b3104146403a45eb4322e539553a6ebb826c1fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 20/36] fix: do not reset the module index when
 RecyclingPositionalEncoding initialises a step state

---
 continual/positional_encoding.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..36cf55a 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -189,8 +189,7 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        self.state_index = torch.tensor(0)
-        return (self.state_index,)
+        return (torch.tensor(0),)
 
     def clean_state(self):
         self.state_index = torch.tensor(0)
-- 
2.43.0


From af036b61785b9e49a75e8007321dbe220c62f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 21/36] fix: pass update_state by keyword in
 Conditional.forward_step to support attention modules

---
 continual/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 584f455..b5beb9f 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1047,9 +1047,9 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
+            return self._modules["0"].forward_step(input, update_state=update_state)
         elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
+            return self._modules["1"].forward_step(input, update_state=update_state)
         return input
 
     def _forward_step(
-- 
2.43.0


From 30166b88a2b6785fc1c998fe22f9864454a37797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 22/36] fix: refuse to convert bidirectional recurrent modules
 instead of dropping a direction

---
 continual/rnn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..dc6e08c 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,7 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert not module.bidirectional, "Bidirectional modules are not supported."
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +371,7 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert not module.bidirectional, "Bidirectional modules are not supported."
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +628,7 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert not module.bidirectional, "Bidirectional modules are not supported."
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From 61a1e1a0b0aed859cbf4c1e394b0918478fcc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 23/36] fix: report the stride and padding of the wrapped
 modules in Conditional

---
 continual/container.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index b5beb9f..7f302aa 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1094,6 +1094,14 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return self._modules["0"].stride
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (self.receptive_field - 1 - self.delay,)
+
     def clean_state(self):
         for m in self._modules.values():
             m.clean_state()
-- 
2.43.0


From de69266c6b40c62df1e9d079670aac0d6dc288eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 24/36] fix: include alignment delays in the receptive field of
 Conditional

---
 continual/container.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 7f302aa..9545d9c 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1019,10 +1019,6 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
         # Ensure modules have the same delay
         self._delay = max(on_true.delay, getattr(on_false, "delay", 0))
-        self._receptive_field = max(
-            on_true.receptive_field, getattr(on_false, "receptive_field", 1)
-        )
-
         self.add_module(
             "0",
             on_true
@@ -1038,6 +1034,9 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
                 else Sequential(Delay(self._delay - on_false.delay), on_false),
             )
 
+        # Delays inserted for alignment extend the receptive field of a branch
+        self._receptive_field = max(m.receptive_field for m in self._modules.values())
+
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
             return apply_forward(self._modules["0"], input)
-- 
2.43.0


From 1db8ba1d3331bde957eaf6634ca26696f40035fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 25/36] fix: keep the device and dtype of converted
 convolutions

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index f2282c8..0f5cb29 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -419,6 +419,8 @@ class Conv1d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
@@ -519,6 +521,8 @@ class Conv2d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
@@ -619,6 +623,8 @@ class Conv3d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
-- 
2.43.0


From 4a0799bb843bfbb009c1a1f173195d53ee7b29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 26/36] fix: support a sequence_len of one in
 RetroactiveMultiheadAttention

---
 continual/multihead_attention/retroactive_mha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..a39f71c 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -99,7 +99,8 @@ def _scaled_dot_product_attention_step(
 
     # Update Q_mem and K_mem
     Q_mem_new = torch.roll(Q_mem, shifts=-1, dims=(1,))
-    Q_mem_new[:, -1] = q_step
+    if Q_mem_new.shape[1] > 0:  # There are no past queries for a sequence_len of one
+        Q_mem_new[:, -1] = q_step
 
     K_T_mem_new = torch.roll(K_T_mem, shifts=-1, dims=(2,))
     K_T_mem_new[:, :, -1] = k_step
-- 
2.43.0


From 1672e848d8fb3fc3a231e982383ac29be9be5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 27/36] fix: stack the output of RetroactiveUnity also for a
 delay of zero

---
 continual/transformer.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 4e30f88..7d2d72c 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -12,10 +12,12 @@ from .closure import Identity, Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
+from .module import CoModule
 from .multihead_attention import (
     RetroactiveMultiheadAttention,
     SingleOutputMultiheadAttention,
 )
+from .utils import temporary_parameter
 
 __all__ = [
     "TransformerEncoder",
@@ -70,6 +72,14 @@ class RetroactiveUnity(Delay):
         self.time_dim = time_dim
         Delay.__init__(self, delay, temporal_fill, auto_shrink)
 
+    @property
+    def _state_shape(self):
+        return 2
+
+    @property
+    def _dynamic_state_inds(self):
+        return [True, False]
+
     def init_state(
         self,
         first_output: Tensor,
@@ -108,6 +118,16 @@ class RetroactiveUnity(Delay):
 
         return output, (buffer, new_index)
 
+    def forward_step(self, input: Tensor, update_state=True) -> Optional[Tensor]:
+        # A time dimension is added also for a delay of zero
+        return CoModule.forward_step(self, input, update_state)
+
+    def forward_steps(
+        self, input: Tensor, pad_end=False, update_state=True
+    ) -> Optional[Tensor]:
+        with temporary_parameter(self, "padding", (self.delay,)):
+            return CoModule.forward_steps(self, input, pad_end, update_state)
+
 
 class RetroactiveLambda(Lambda):
     """
-- 
2.43.0


From 30a4a91a31b3bcc6bf29054d45c46b5e55c4101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 28/36] fix: let warm_up of a module without delay do nothing

---
 continual/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/module.py b/continual/module.py
index 2ea4109..a7e9268 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -323,6 +323,9 @@ class CoModule(ABC):
         Args:
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
+        if self.delay == 0:
+            return  # There is nothing to warm up
+
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
         dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
         self.forward_steps(dummy)
-- 
2.43.0


From 84d8c8ad93466243db2488c01131ef5fd6495d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 29/36] fix: pass the state by keyword in OnnxWrapper to
 support attention modules

---
 continual/onnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..361a2f8 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -258,7 +258,7 @@ class OnnxWrapper(torch.nn.Module):
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
 
-        out, next_states = self.model._forward_step(x, shaped_state)
+        out, next_states = self.model._forward_step(x, prev_state=shaped_state)
         return (out, *flatten(next_states, remove_none=False))
 
     @staticmethod
-- 
2.43.0


From 6c1785f7f149021387ffe691b84ff59dad6e815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 30/36] fix: accept call modes by name or number also for
 naively wrapped modules

---
 continual/convert.py | 4 ++--
 continual/module.py  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index fde95c8..a55f877 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -100,10 +100,10 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module.call_mode = _callmode("forward")
 
     def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
+        _call_mode = _callmode(
             call_mode.cur
             if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
+            else getattr(module, "call_mode", "forward")
         )
         if _call_mode == _callmode("forward"):
             return orig_forward(*args, **kwargs)
diff --git a/continual/module.py b/continual/module.py
index a7e9268..51d82d2 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -348,7 +348,9 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
+        _call_mode = _callmode(
+            call_mode.cur if call_mode.prev is not None else self.call_mode
+        )
         forward_call = {
             (True, int(_callmode("forward"))): self._slow_forward,
             (False, int(_callmode("forward"))): self.forward,
-- 
2.43.0


From f27ed5ba44587b41d3e30a9973769372e996736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 31/36] fix: do not step Parallel modules whose input stream
 emitted nothing yet

---
 continual/container.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index 9545d9c..745da85 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -318,7 +318,12 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
-            out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
+            if inputs[i] is None:  # No output from preceding module yet
+                out, n_state = None, prev_state[i]
+            else:
+                out, n_state = module._forward_step(
+                    inputs[i], prev_state=prev_state[i]
+                )
             outs.append(out)
             next_state.append(n_state)
         return outs, next_state
@@ -326,6 +331,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # No output from preceding module yet
+                outs.append(None)
+                continue
             with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -335,6 +343,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # No output from preceding module yet
+                outs.append(None)
+                continue
             with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From 700d1f0cc2fbfa57ae4baf414ae5956caf5d2cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:48 +0000
Subject: [PATCH 32/36] fix: pass the separate projection weights (kdim, vdim)
 to attention steps

---
 continual/multihead_attention/mha_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 390dde8..0d2d02b 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -415,6 +415,10 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             self.out_proj.weight,
             self.out_proj.bias,
             training=self.training,
+            use_separate_proj_weight=not self._qkv_same_embed_dim,
+            q_proj_weight=self.q_proj_weight,
+            k_proj_weight=self.k_proj_weight,
+            v_proj_weight=self.v_proj_weight,
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-- 
2.43.0


From e510ba240c79bc5946681071fc575be6cac504fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:07 +0000
Subject: [PATCH 33/36] fix: refuse pre-norm layers when converting a
 torch.nn.TransformerEncoder

---
 continual/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 7d2d72c..4157ec6 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -599,6 +599,9 @@ class TransformerEncoder(Sequential):
         trans_enc: nn.TransformerEncoder, sequence_len: int
     ) -> "TransformerEncoder":
         assert isinstance(trans_enc, nn.TransformerEncoder)
+        assert not any(
+            getattr(layer, "norm_first", False) for layer in trans_enc.layers
+        ), "Encoder layers with `norm_first=True` are not supported."
 
         # Create model
         tel = trans_enc.layers[0]
-- 
2.43.0


From 84f86bf363a6aa02b35b59e5b305ba6f5d24dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:58 +0000
Subject: [PATCH 34/36] fix: give every converted encoder layer its own
 activation, and the encoder its own norm

---
 continual/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 4157ec6..8f9884b 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+from copy import deepcopy
 from enum import Enum
 from functools import partial, reduce
 from typing import Callable, Optional, Sequence, Tuple, Union
@@ -510,7 +511,7 @@ def TransformerEncoderLayerFactory(
             nhead,
             dim_feedforward,
             dropout,
-            activation,
+            deepcopy(activation),  # Layers don't share an activation module
             layer_norm_eps,
             # batch_first
             # norm_first
@@ -617,7 +618,7 @@ class TransformerEncoder(Sequential):
             sequence_len=sequence_len,
         )
         net = TransformerEncoder(
-            layer_factory, num_layers=trans_enc.num_layers, norm=trans_enc.norm
+            layer_factory, num_layers=trans_enc.num_layers, norm=deepcopy(trans_enc.norm)
         )
 
         # Transfer weights
-- 
2.43.0


From 331c39f96f2bb442dddc896c29503c978fdecb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 35/36] fix: RetroactiveLambda.build_from hands on takes_time
 as such

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 8f9884b..91e8d3c 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -153,7 +153,7 @@ class RetroactiveLambda(Lambda):
     def build_from(
         fn: Callable[[Tensor], Tensor], takes_time=False
     ) -> "RetroactiveLambda":
-        return RetroactiveLambda(fn, takes_time)
+        return RetroactiveLambda(fn, takes_time=takes_time)
 
 
 class NaiveResidual(nn.Module):
-- 
2.43.0


From 02e212709aa6c2e4ec42adb08b79751a77938aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:41 +0000
Subject: [PATCH 36/36] fix: return already converted modules unchanged from
 continual

Wrapping an automatically wrapped module a second time (for instance by
passing it to Conditional) recursed without end in any other call mode
than forward.
---
 continual/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index a55f877..3421731 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -224,7 +224,8 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    # `is_valid` is also true for modules that were wrapped by `forward_stepping`
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0

