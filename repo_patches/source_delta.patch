From af01656d2d296a21dea8f10d5cc56450df902dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 01/44] fix: write_burst_block signalled ready one bank state
 late

---
 veriloggen/thread/ram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index feafe52..4ea3b53 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -824,10 +824,10 @@ class MultibankRAM(RAM):
             fsm.If(wvalid, wlast).goto_init()
             fsm.If(wquit).goto_init()
 
-            fsm.inc()
-
             wready = vtypes.Ors(wready, fsm.here)
 
+            fsm.inc()
+
         return wready, done
 
     def write_burst_packed(self, addr, stride, packed_length, blocksize,
-- 
2.43.0


From 535211233987580b0a5852fd0c98bd2ccb56428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 02/44] fix: write_burst_bcast returned a self-referential list
 as done

---
 veriloggen/thread/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index 4ea3b53..a098bb1 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -898,7 +898,7 @@ class MultibankRAM(RAM):
                                            wdata, wvalid, wlast, wquit,
                                            port, cond)
             wready_list.append(wready)
-            done_list.append(done_list)
+            done_list.append(done)
 
         return wready_list[0], done_list[0]
 
-- 
2.43.0


From 9fe328716b75e075e27415cab4fd0e534d675f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 03/44] fix: an AxiStreamOut with a tid or tuser signal could
 not be built

---
 veriloggen/types/axi.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..abc71ba 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1869,13 +1869,6 @@ class AxiStreamOutData(AxiStreamInData):
                                  id_width, user_width, dest_width,
                                  itype, otype)
 
-        # default values
-        if self.tuser is not None:
-            self.tuser.assign(0)
-
-        if self.tid is not None:
-            self.tid.assign(0)
-
     def write_data(self, data, last=None, _id=None, user=None, dest=None, cond=None):
         """
         @return ack
-- 
2.43.0


From 7c7cb07e0e98803aae94526b169b7dda8cde5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/44] fix: saturate.sub did not clamp an unsigned difference
 above the maximum

---
 veriloggen/types/saturate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/types/saturate.py b/veriloggen/types/saturate.py
index 1c9893b..9c395b8 100644
--- a/veriloggen/types/saturate.py
+++ b/veriloggen/types/saturate.py
@@ -110,6 +110,13 @@ def _sub(raw_val, left, right, width=8, max=None, min=None):
         return _saturate_both(raw_val, cond,
                               width=width, max=max, min=min, signed=signed)
 
+    left_width = vtypes.get_width(left)
+    if (max is not None or not isinstance(left_width, int) or
+            not isinstance(width, int) or left_width > width):
+        # the minuend itself can be above the range
+        return _saturate_both(raw_val, cond,
+                              width=width, max=max, min=min, signed=signed)
+
     return _saturate_underflow(raw_val, cond,
                                width=width, min=min, signed=signed)
 
-- 
2.43.0


From 9d09d7a85f9ae8c8f42666b5ecd5dd891ef36db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 05/44] fix: to_saturate failed without a minimum and mixed
 signedness in the comparison

---
 veriloggen/types/saturate.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/saturate.py b/veriloggen/types/saturate.py
index 9c395b8..9125ab7 100644
--- a/veriloggen/types/saturate.py
+++ b/veriloggen/types/saturate.py
@@ -50,8 +50,15 @@ def _saturate_single(value, width=8, max=None, min=None, signed=False):
     if hasattr(value, 'saturated') and value.saturated:
         return value
 
-    if (signed or
-            (isinstance(value, (int, float, bool)) and value < 0)):
+    if isinstance(value, (int, float, bool)):
+        can_underflow = signed or value < 0
+    else:
+        # an unsigned value is compared as unsigned, it cannot be below min
+        can_underflow = vtypes.get_signed(value)
+
+    if can_underflow:
+        if min is None:
+            min = _min(width, signed)
 
         if not isinstance(value, int) and isinstance(min, int):
             min = vtypes.Int(min, signed=True)
-- 
2.43.0


From c53e1010096b6fe049c77e237937e743414e6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 06/44] fix: Shared.write to a bit range raised TypeError

---
 veriloggen/thread/ttypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ttypes.py b/veriloggen/thread/ttypes.py
index 2226820..9b3097e 100644
--- a/veriloggen/thread/ttypes.py
+++ b/veriloggen/thread/ttypes.py
@@ -319,7 +319,7 @@ class Shared(_MutexFunction):
 
         def getval(v, p):
             if isinstance(p, (tuple, list)):
-                return v[p[0], p[1]]
+                return vtypes.Slice(v, p[0], p[1])
             return v[p]
 
         if len(part) == 0:
-- 
2.43.0


From e99dc3ac22a3075bc985960c1af09c0c4178e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 07/44] fix: AXIM.dma_wait read uninitialized registers of a
 direction without requests

---
 veriloggen/thread/axim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..c002a9d 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -717,6 +717,13 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     def dma_wait(self, fsm):
 
+        # registers of a direction without any request must be initialized, too
+        for reg in (self.read_req_busy, self.read_data_busy,
+                    self.write_req_busy, self.write_data_busy):
+            self.seq.add_reset(reg)
+
+        self.waddr.seq.add_reset(self.waddr.awvalid)
+
         res = self.write_completed()
         fsm.If(self.read_idle, self.write_idle, res).goto_next()
 
-- 
2.43.0


From c38085057126169eca700bed6b3ddd2685e6e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 08/44] fix: a DMA with a RAM of three times the AXI data width
 never finished

---
 veriloggen/thread/axim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index c002a9d..1bbba1c 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -951,7 +951,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -1377,7 +1377,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
-- 
2.43.0


From 6866edf2739ddfa53da2dff67631a716da1b3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 09/44] fix: a negative index of an array counted from the
 element width, not the array length

---
 veriloggen/core/vtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..781742a 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -482,7 +482,7 @@ class _Numeric(VeriloggenNode):
                 return Cat(*values)
 
         if isinstance(r, int) and r < 0:
-            r = self.get_width() - abs(r)
+            r = self._len() - abs(r)
 
         return Pointer(self, r)
 
@@ -1603,7 +1603,7 @@ class Pointer(_SpecialOperator):
                 root = root.var
                 depth += 1
 
-            if not hasattr(root, 'dims'):
+            if not hasattr(root, 'dims') or root.dims is None:
                 return 1
 
             if len(root.dims) >= depth:
@@ -1658,11 +1658,11 @@ class Pointer(_SpecialOperator):
             root = root.var
             depth += 1
 
-        if not hasattr(root, 'dims'):
+        if not hasattr(root, 'dims') or root.dims is None:
             return 1
 
         if len(root.dims) > depth:
-            return root.dims[depth - 1]
+            return root.dims[depth]
 
         return self.get_width()
 
-- 
2.43.0


From f2167b5c16550e8255a222e93c0b212ee72440c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 10/44] fix: a slice with a negative step was rejected or
 selected nothing

---
 veriloggen/core/vtypes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 781742a..591ff7a 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -450,6 +450,17 @@ class _Numeric(VeriloggenNode):
             if isinstance(step, Int):
                 step = step.value
 
+            if (isinstance(step, int) and step < 0 and isinstance(size, int) and
+                (right is None or isinstance(right, int)) and
+                    (left is None or isinstance(left, int))):
+                # descending order, the defaults of the bounds are swapped
+                values = [Pointer(self, i)
+                          for i in range(*slice(right, left, step).indices(size))]
+                if not values:
+                    raise ValueError("Illegal slice: no element is selected")
+                values.reverse()
+                return Cat(*values)
+
             if right is None:
                 right = 0
             elif isinstance(right, int) and right < 0:
-- 
2.43.0


From f7b06d7c98b761ba2d54470471409e0605860590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 11/44] fix: Complement2 of a positive constant returned the
 constant itself

---
 veriloggen/core/vtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 591ff7a..c657b77 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1874,7 +1874,7 @@ def Mux(condition, true_value, false_value):
 
 def Complement2(var):
     if isinstance(var, (int, bool, float)):
-        return abs(var)
+        return -var
 
     return Unot(var) + Int(1)
 
-- 
2.43.0


From e3f663d6393dd73f3c9c85eaef02a540d52498a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:38 +0000
Subject: [PATCH 12/44] fix: the most negative value of a signed width was
 emitted as the negation of a literal

-8'sd128 is +128 in an expression wider than 8 bits; 8'sd128 is the
8-bit pattern of -128.
---
 veriloggen/verilog/to_verilog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..ee9833e 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -66,7 +66,10 @@ class VerilogCommonVisitor(object):
 
         if isinstance(node.value, int) and node.value < 0:
             value = abs(node.value)
-            value_list.append('-')
+            # the pattern of the most negative value is already negative:
+            # the negation of it would be positive in a wider expression
+            if not node.width or value != 1 << (node.width - 1):
+                value_list.append('-')
 
         if node.width:
             value_list.append(str(node.width))
-- 
2.43.0


From 09befa9e9c50973fa7023289b149a9d64a954e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:38 +0000
Subject: [PATCH 13/44] fix: a signed literal string lost its width, and an
 upper case base its base and sign

---
 veriloggen/core/vtypes.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index c657b77..21e589a 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -25,7 +25,7 @@ def op2mark(op):
 
 
 def str_to_signed(s):
-    targ = s.replace('_', '')
+    targ = s.replace('_', '').lower()
     match = re.search(r's(.+)', targ)
     if match is not None:
         return True
@@ -60,7 +60,7 @@ def check_int_bin(v):
 def str_to_value(s):
     targ = s.replace('_', '')
 
-    match = re.search(r'h(.+)', targ)
+    match = re.search(r'h(.+)', targ, re.IGNORECASE)
     if match is not None:
         try:
             v = int(match.group(1), 16)
@@ -69,7 +69,7 @@ def str_to_value(s):
             check_int_hex(v)
         return v, 16
 
-    match = re.search(r'd(.+)', targ)
+    match = re.search(r'd(.+)', targ, re.IGNORECASE)
     if match is not None:
         try:
             v = int(match.group(1), 10)
@@ -78,7 +78,7 @@ def str_to_value(s):
             check_int_dec(v)
         return v, 10
 
-    match = re.search(r'o(.+)', targ)
+    match = re.search(r'o(.+)', targ, re.IGNORECASE)
     if match is not None:
         try:
             v = int(match.group(1), 8)
@@ -87,7 +87,7 @@ def str_to_value(s):
             check_int_oct(v)
         return v, 8
 
-    match = re.search(r'b(.+)', targ)
+    match = re.search(r'b(.+)', targ, re.IGNORECASE)
     if match is not None:
         try:
             v = int(match.group(1), 2)
@@ -106,16 +106,16 @@ def str_to_value(s):
 
 def str_to_width(s):
     targ = s.replace('_', '')
-    match = re.search(r'(.+)\'h.+', targ)
+    match = re.search(r'(.+)\'s?h.+', targ, re.IGNORECASE)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'d.+', targ)
+    match = re.search(r'(.+)\'s?d.+', targ, re.IGNORECASE)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'o.+', targ)
+    match = re.search(r'(.+)\'s?o.+', targ, re.IGNORECASE)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'b.+', targ)
+    match = re.search(r'(.+)\'s?b.+', targ, re.IGNORECASE)
     if match is not None:
         return int(match.group(1), 10)
     return None
-- 
2.43.0


From 567936a5c7ececd5b607e9a22438c774232a425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 14/44] fix: an Event on a plain signal was emitted as an event
 on its posedge

pyverilog's Sens is a posedge by default; visit_Always passes 'level' already.
---
 veriloggen/verilog/to_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index ee9833e..e72604a 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -501,7 +501,7 @@ class VerilogCommonVisitor(object):
     def visit_Event(self, node):
         sensitivity = vast.SensList(
             tuple([self.visit(n) if isinstance(n, vtypes.Sensitive) else
-                   vast.Sens(self.visit(n)) for n in node.sensitivity]))
+                   vast.Sens(self.visit(n), 'level') for n in node.sensitivity]))
         return vast.EventStatement(sensitivity)
 
     def visit_Delay(self, node):
-- 
2.43.0


From 78f6763dc755b69b9228e7734abedd60ed843d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 15/44] fix: a delayed assignment in an always block was
 emitted without '#'

---
 veriloggen/verilog/to_verilog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index e72604a..8c01da2 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -829,8 +829,10 @@ class VerilogAlwaysVisitor(VerilogCommonVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
-        ldelay = self.visit(node.ldelay) if node.ldelay else None
-        rdelay = self.visit(node.rdelay) if node.rdelay else None
+        ldelay = vast.DelayStatement(self.visit(
+            node.ldelay)) if node.ldelay else None
+        rdelay = vast.DelayStatement(self.visit(
+            node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         if node.blk:
-- 
2.43.0


From 7b46d310567ad127d4a96082916c5a17ff15e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 16/44] fix: modules in the else side of a generate, and hooks
 of modules in generates, were not emitted

A module that is only instantiated in GenerateIf.Else had no definition in
the output, and the always blocks of a Seq or FSM of a module that is only
instantiated in a generate block were dropped silently.
---
 veriloggen/core/module.py | 46 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a43a4f5..7976b27 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1237,31 +1237,41 @@ class Module(vtypes.VeriloggenNode):
                 kwargs = {}
             method(*args, **kwargs)
 
+        for gen in self.get_generates():
+            gen.resolve_hook()
+
         for sub in self.submodule.values():
             sub.resolve_hook()
 
     def has_hook(self):
         if self.hook:
             return True
+        for gen in self.get_generates():
+            if gen.has_hook():
+                return True
         for sub in self.submodule.values():
             if sub.has_hook():
                 return True
         return False
 
     # -------------------------------------------------------------------------
+    def get_generates(self):
+        """ all the generate blocks, including the else sides """
+        ret = []
+        for gen in self.generate.values():
+            for g in (gen if isinstance(gen, (tuple, list)) else (gen,)):
+                ret.append(g)
+                if isinstance(g, GenerateIf):
+                    ret.append(g.Else)
+        return ret
+
     def find_module(self, name):
         if name in self.submodule:
             return self.submodule[name]
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    r = g.find_module(name)
-                    if r is not None:
-                        return r
-            else:
-                r = gen.find_module(name)
-                if r is not None:
-                    return r
+        for gen in self.get_generates():
+            r = gen.find_module(name)
+            if r is not None:
+                return r
         for sub in self.submodule.values():
             r = sub.find_module(name)
             if r is not None:
@@ -1271,12 +1281,8 @@ class Module(vtypes.VeriloggenNode):
     def get_modules(self):
         modules = collections.OrderedDict()
         modules[self.name] = self
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self.get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
@@ -1449,12 +1455,8 @@ class Generate(Module):
 
     def get_modules(self):
         modules = collections.OrderedDict()
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self.get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
-- 
2.43.0


From 3dd02c468eb76db7ab09b9666d82446ccce101d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 17/44] fix: positional arguments of an Instance beyond the
 declared ports were dropped silently

---
 veriloggen/core/module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 7976b27..11e0e54 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1369,6 +1369,9 @@ class Instance(vtypes.VeriloggenNode):
             if not isinstance(module, Module) or isinstance(module, StubModule):
                 self.params = [(None, p) for p in params]
             else:
+                if len(params) > len(module.global_constant):
+                    raise ValueError("Too many parameter arguments for module '%s'" %
+                                     module.name)
                 self.params = [(v.name, p) for v, p in zip(
                     module.global_constant.values(), params)]
 
@@ -1396,6 +1399,9 @@ class Instance(vtypes.VeriloggenNode):
             if not isinstance(module, Module) or isinstance(module, StubModule):
                 self.ports = [(None, p) for p in ports]
             else:
+                if len(ports) > len(module.io_variable):
+                    raise ValueError("Too many port arguments for module '%s'" %
+                                     module.name)
                 self.ports = [(v.name, p) for v, p in zip(
                     module.io_variable.values(), ports)]
 
-- 
2.43.0


From bf0dd36a929c5be493f469cdac83b529a6fe1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 18/44] fix: PatternIf of a list dropped the patterns after a
 None condition silently

---
 veriloggen/core/vtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 21e589a..ef1d242 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -2161,11 +2161,12 @@ class When(VeriloggenNode):
 def PatternIf(*patterns):
     root = None
     prev = None
-    length = len(patterns)
 
     if len(patterns) == 1 and isinstance(patterns, (tuple, list)):
         patterns = patterns[0]
 
+    length = len(patterns)
+
     for i, (cond, stmt) in enumerate(patterns):
         if not isinstance(stmt, (tuple, list)):
             stmt = tuple([stmt])
-- 
2.43.0


From f3e822d9c750b7d632254693d2d507d3ffc8acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 19/44] fix: a task call is emitted as a statement with its
 arguments separated

---
 veriloggen/verilog/to_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 8c01da2..5aa2f6c 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -528,7 +528,7 @@ class VerilogCommonVisitor(object):
     def visit_TaskCall(self, node):
         name = vast.Identifier(node.name)
         args = tuple([self.visit(a) for a in node.args])
-        return vast.TaskCall(name, args)
+        return vast.SingleStatement(vast.FunctionCall(name, args))
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-- 
2.43.0


From 55e564e8a88838684160fab75784f18661e84a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 20/44] fix: FixedFIFO passed external_read and external_write
 to FIFO in the wrong order

---
 veriloggen/thread/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
-- 
2.43.0


From 0990080aae18c9e97782cdd73ca98956ab0829af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 21/44] fix: from_verilog preprocessed into one shared file of
 the current directory

---
 veriloggen/verilog/from_verilog.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 283ba86..a19d65f 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -3,6 +3,7 @@ from __future__ import print_function
 import sys
 import os
 import collections
+import shutil
 import tempfile
 
 import veriloggen.core.vtypes as vtypes
@@ -86,10 +87,17 @@ def to_ast(*filelist, **opt):
         raise TypeError('"include" option of read_verilog must be tuple or list, not %s' %
                         type(include))
 
-    code_parser = VerilogCodeParser(filelist,
-                                    preprocess_include=include,
-                                    preprocess_define=define)
-    ast = code_parser.parse()
+    # not in the current directory, which other processes may use
+    tmpdir = tempfile.mkdtemp()
+    try:
+        code_parser = VerilogCodeParser(filelist,
+                                        preprocess_output=os.path.join(
+                                            tmpdir, 'preprocess.output'),
+                                        preprocess_include=include,
+                                        preprocess_define=define)
+        ast = code_parser.parse()
+    finally:
+        shutil.rmtree(tmpdir, ignore_errors=True)
 
     return ast
 
-- 
2.43.0


From fefa8c5f6aca21a96d8c690a4237d266a021415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 22/44] fix: a second Wire or Reg of the same name beside a
 port was accepted

---
 veriloggen/core/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 11e0e54..a26f650 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -88,7 +88,7 @@ class Module(vtypes.VeriloggenNode):
 
         t = vtypes.Wire(width, dims, signed, value, name=name, module=self)
         self.check_existing_identifier(name, vtypes.Input, vtypes.Output)
-        if self.is_reg(name):
+        if name in self.variable:
             raise ValueError("Object '%s' is already defined." % name)
         self.variable[name] = t
         self.items.append(t)
@@ -108,6 +108,8 @@ class Module(vtypes.VeriloggenNode):
         t = vtypes.Reg(width, dims, signed, value,
                        initval, name=name, module=self)
         self.check_existing_identifier(name, vtypes.Output)
+        if name in self.variable:
+            raise ValueError("Object '%s' is already defined." % name)
         self.variable[name] = t
         self.items.append(t)
         return t
-- 
2.43.0


From 7fbd061224c5882dfe862f675c68ffd4debb5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 23/44] fix: use_fullmatch matched only a prefix when the
 pattern is an alternation

---
 veriloggen/core/module.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a26f650..15162fe 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -656,12 +656,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -703,12 +703,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -751,12 +751,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -798,12 +798,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -845,12 +845,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -895,12 +895,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -946,12 +946,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -991,12 +991,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
-- 
2.43.0


From b84bd1b0f40d3024aca43b7dced9604a9c92121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 24/44] fix: copied objects, functions and tasks were not
 checked for duplicate names

---
 veriloggen/core/module.py | 46 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 15162fe..0184188 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1029,6 +1029,7 @@ class Module(vtypes.VeriloggenNode):
         if isinstance(obj, vtypes._Variable) and obj.name is None:
             raise ValueError("Object must have a name.")
 
+        self._check_addable(obj)
         self.items.append(obj)
 
         if isinstance(obj, vtypes.AnyType):
@@ -1102,11 +1103,11 @@ class Module(vtypes.VeriloggenNode):
                     self.generate[None] = []
                 self.generate[None].append(obj)
                 return
-            self.generate[obj.false_scope] = obj
+            self.generate.setdefault(obj.false_scope, obj)
             return
 
         if isinstance(obj, Instance):
-            if isinstance(obj.module, Module):
+            if isinstance(obj.module, (Module, StubModule)):
                 self.instance[obj.instname] = obj
                 self.submodule[obj.module.name] = obj.module
             elif isinstance(obj.module, str):
@@ -1115,12 +1116,52 @@ class Module(vtypes.VeriloggenNode):
 
         raise TypeError("Object type '%s' is not supported." % str(type(obj)))
 
+    def _check_addable(self, obj):
+        types = ()
+        if isinstance(obj, Instance):
+            name = obj.instname
+        elif isinstance(obj, GenerateFor):
+            name = obj.scope
+        elif isinstance(obj, GenerateIf):
+            name = obj.true_scope
+        elif isinstance(obj, GenerateIfElse):
+            name = obj.false_scope
+        elif isinstance(obj, vtypes.AnyType):
+            return
+        elif isinstance(obj, (vtypes._Variable, function.Function, task.Task)):
+            name = obj.name
+            if isinstance(obj, (vtypes.Input, vtypes.Inout)):
+                types = (vtypes.Wire,)
+            elif isinstance(obj, vtypes.Output):
+                types = (vtypes.Wire, vtypes.Reg)
+            elif isinstance(obj, vtypes.Wire):
+                types = (vtypes.Input, vtypes.Output)
+            elif isinstance(obj, vtypes.Reg):
+                types = (vtypes.Output,)
+        else:
+            return
+
+        if name is None:
+            return
+        s = self.find_identifier(name)
+        if isinstance(obj, GenerateIfElse) and (s is obj or (isinstance(s, GenerateIf) and s.Else is obj)):
+            return
+        if (isinstance(obj, (vtypes.Input, vtypes.Output, vtypes.Inout, vtypes.Parameter)) and
+                type(s) is type(obj)):
+            # a port or parameter of the same kind is replaced
+            self.remove(s)
+            return
+        self.check_existing_identifier(name, *types)
+        if isinstance(obj, (vtypes.Wire, vtypes.Reg)) and name in self.variable:
+            raise ValueError("Object '%s' is already defined." % name)
+
     # -------------------------------------------------------------------------
     def add_function(self, t):
         if not isinstance(t, function.Function):
             raise TypeError(
                 "add_function requires a Function, not %s" % type(t))
         name = t.name
+        self.check_existing_identifier(name)
         self.function[name] = t
         self.items.append(t)
         return t
@@ -1129,6 +1170,7 @@ class Module(vtypes.VeriloggenNode):
         if not isinstance(t, task.Task):
             raise TypeError("add_task requires a Task, not %s" % type(t))
         name = t.name
+        self.check_existing_identifier(name)
         self.task[name] = t
         self.items.append(t)
         return t
-- 
2.43.0


From 41caa44da94d3079f47829790900388f87daef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 25/44] fix: the scope name of an Else was neither registered
 nor checked

---
 veriloggen/core/module.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 0184188..1fdeee6 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1304,6 +1304,8 @@ class Module(vtypes.VeriloggenNode):
         ret = []
         for gen in self.generate.values():
             for g in (gen if isinstance(gen, (tuple, list)) else (gen,)):
+                if any(g is r for r in ret):
+                    continue
                 ret.append(g)
                 if isinstance(g, GenerateIf):
                     ret.append(g.Else)
@@ -1550,6 +1552,13 @@ class GenerateIfElse(Generate):
         self._type_check_scope(false_scope)
 
     def __call__(self, false_scope):
+        self._type_check_scope(false_scope)
+        if false_scope is not None:
+            # both sides of a generate-if can have the same scope name
+            s = self.m.find_identifier(false_scope)
+            if not isinstance(s, GenerateIf) or s.Else is not self:
+                self.m.check_existing_identifier(false_scope)
+                self.m.generate[false_scope] = self
         self.false_scope = false_scope
         return self
 
-- 
2.43.0


From f129a00ff1ede71d1ddbe02e8724c1a8aa7ab77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 26/44] fix: temporary names of a Generate collided with its
 parent's

---
 veriloggen/core/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 1fdeee6..edbba6a 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1505,6 +1505,10 @@ class Generate(Module):
             return r
         return None
 
+    def get_tmp(self):
+        # names of the enclosing module are visible: never the same number
+        return self.m.get_tmp()
+
     def get_modules(self):
         modules = collections.OrderedDict()
         for gen in self.get_generates():
-- 
2.43.0


From 869ca4f2662b0b32cc67906100cd295c30bf3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 27/44] fix: copy_* shared objects with the source module and
 did not rename initial values and dims

---
 veriloggen/core/module.py | 25 ++++++++++++++++++++-----
 veriloggen/core/vtypes.py |  3 ++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index edbba6a..1e38e41 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -627,6 +627,14 @@ class Module(vtypes.VeriloggenNode):
         return v
 
     # -------------------------------------------------------------------------
+    def _copy_variable(self, obj):
+        """ copy of a declaration of another module, not of what drives it there """
+        copy_obj = copy.copy(obj)
+        copy_obj.module = self
+        copy_obj.subst = []
+        copy_obj.assign_value = None
+        return copy_obj
+
     def copy_params(self, src, prefix=None, postfix=None,
                     include=None, exclude=None, rename_exclude=None,
                     use_fullmatch=False):
@@ -666,7 +674,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
@@ -717,7 +725,8 @@ class Module(vtypes.VeriloggenNode):
             value = visitor.visit(obj.value)
             width = visitor.visit(obj.width)
             signed = obj.signed
-            copy_obj = vtypes.Localparam(value, width, signed, name)
+            copy_obj = vtypes.Localparam(value, width, signed, name, module=self)
+            copy_obj.value = value
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
@@ -761,7 +770,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
@@ -808,9 +817,12 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
+            copy_obj.initval = visitor.visit(copy_obj.initval)
+            if copy_obj.dims is not None:
+                copy_obj.dims = tuple([visitor.visit(d) for d in copy_obj.dims])
             copy_obj.signed = obj.signed
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
@@ -905,9 +917,12 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
+            copy_obj.initval = visitor.visit(copy_obj.initval)
+            if copy_obj.dims is not None:
+                copy_obj.dims = tuple([visitor.visit(d) for d in copy_obj.dims])
             copy_obj.signed = obj.signed
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index ef1d242..5dc1a3a 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -762,7 +762,8 @@ class _ParameterVariable(_Variable):
 
     def __init__(self, value, width=None, signed=False, name=None,
                  raw_width=None, module=None):
-        if isinstance(value, _ParameterVariable):
+        if (isinstance(value, _ParameterVariable) and
+            (module is None or value.module is not module)):
             value = value.value
         if value is None:
             raise ValueError('value must not be None.')
-- 
2.43.0


From 87896be58e48e007e1cd3bce83f9b030d3f7c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 28/44] fix: Submodule dropped ports it does not know and
 constants its ports depend on

---
 veriloggen/core/submodule.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/veriloggen/core/submodule.py b/veriloggen/core/submodule.py
index a804f8f..f4efe7b 100644
--- a/veriloggen/core/submodule.py
+++ b/veriloggen/core/submodule.py
@@ -49,6 +49,9 @@ class Submodule(vtypes.VeriloggenNode):
             len(arg_params) >= 1 and
             (not isinstance(arg_params[0], (tuple, list)) or
              len(arg_params[0]) == 1)):  # nonamed argument
+            if len(arg_params) > len(child_params):
+                raise ValueError("Too many parameter arguments for module '%s'" %
+                                 child.name)
             arg_params = [(cport, pport)
                           for cport, pport in zip(child_params.keys(), arg_params)]
 
@@ -64,12 +67,20 @@ class Submodule(vtypes.VeriloggenNode):
             len(arg_ports) >= 1 and
             (not isinstance(arg_ports[0], (tuple, list)) or
              len(arg_ports[0]) == 1)):  # nonamed argument
+            if len(arg_ports) > len(child_ports):
+                raise ValueError("Too many port arguments for module '%s'" %
+                                 child.name)
             arg_ports = [(cport, pport)
                          for cport, pport in zip(child_ports.keys(), arg_ports)]
 
         if not isinstance(arg_ports, dict):
             arg_ports = collections.OrderedDict(arg_ports)
 
+        for key in arg_ports.keys():
+            if key not in child_ports:
+                raise ValueError("No such port '%s' in module '%s'" %
+                                 (key, child.name))
+
         if as_io is None:
             as_io = ()
 
@@ -93,6 +104,13 @@ class Submodule(vtypes.VeriloggenNode):
         for port in child_ports.values():
             collect_visitor.visit(port)
 
+        # and the ones their values depend on
+        for constants in (child.get_localparams(), child_params):
+            for constant in reversed(list(constants.values())):
+                if constant.name in collect_visitor.names:
+                    collect_visitor.visit(constant.value)
+                    collect_visitor.visit(constant.width)
+
         used_params = collect_visitor.names
 
         # params
-- 
2.43.0


From 1aaba366a11b28b691dd908642a6deee9876078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 29/44] fix: from_verilog dropped a generate-for or generate-if
 in the else side of a generate-if

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index a19d65f..fa2c7c4 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -660,7 +660,7 @@ class VerilogReadVisitor(object):
         return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
 
     def visit_IfStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateIf(node)
         condition = self.visit(node.cond)
         true_statement = self.visit(node.true_statement)
@@ -676,7 +676,7 @@ class VerilogReadVisitor(object):
         return _if
 
     def visit_ForStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateFor(node)
         pre = self.visit(node.pre)
         condition = self.visit(node.cond)
-- 
2.43.0


From 6abb5ebd791a6500ecb85a6f2874b90571567ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 30/44] fix: from_verilog dropped constructs it has no visitor
 for

---
 veriloggen/verilog/from_verilog.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index fa2c7c4..ba4cba7 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -161,11 +161,13 @@ class VerilogReadVisitor(object):
     def generic_visit(self, node):
         for c in node.children():
             self.visit(c)
-        #raise TypeError("Unsupported object '%s'" % str(type(node)))
+
+    def visit_unsupported(self, node):
+        raise TypeError("Unsupported object '%s'" % node.__class__.__name__)
 
     def visit(self, node):
         method = 'visit_' + node.__class__.__name__
-        visitor = getattr(self, method, self.generic_visit)
+        visitor = getattr(self, method, self.visit_unsupported)
         return visitor(node)
 
     def visit_ModuleDef(self, node):
@@ -716,6 +718,9 @@ class VerilogReadVisitor(object):
         return when
 
     def visit_Block(self, node):
+        if any(isinstance(statement, vast.Decl) for statement in node.statements):
+            if not isinstance(self.m, module.Generate):
+                raise TypeError("A declaration in a block is not supported.")
         statements = [self.visit(statement) for statement in node.statements]
         return statements
 
-- 
2.43.0


From dad738b5617066b4bca1aecdba09cdd42e9f4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 31/44] fix: from_verilog took statements of an initial block
 in a generate as generate items

---
 veriloggen/verilog/from_verilog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index ba4cba7..b8e3861 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -725,8 +725,15 @@ class VerilogReadVisitor(object):
         return statements
 
     def visit_Initial(self, node):
+        # to avoid to call self.add_object() for the current Module
+        self.push_read_only_module()
+
         statement = to_tuple(self.visit(node.statement))
         initial = vtypes.Initial(*statement)
+
+        # to restore the current Module
+        self.pop_module()
+
         self.add_object(initial)
         return initial
 
-- 
2.43.0


From 7f6f39f8b2c6a083d5adb961bd5775000c59327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 32/44] fix: from_verilog replaced a reference to another
 parameter by its default value

---
 veriloggen/verilog/from_verilog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index b8e3861..61a41d1 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -391,6 +391,7 @@ class VerilogReadVisitor(object):
         width = to_width(raw_width)
         signed = node.signed
         param = vtypes.Parameter(value, width, signed, name=name, raw_width=raw_width)
+        param.value = value  # a reference to another parameter is kept
         self.add_object(param)
         return param
 
@@ -401,6 +402,7 @@ class VerilogReadVisitor(object):
         width = to_width(raw_width)
         signed = node.signed
         param = vtypes.Localparam(value, width, signed, name=name, raw_width=raw_width)
+        param.value = value  # a reference to another parameter is kept
         self.add_object(param)
         return param
 
-- 
2.43.0


From 8a06dd0e8a22899ad65cfcdd0d201b1b9493fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 33/44] fix: from_verilog turned nonblocking assignments of
 initial blocks into blocking ones

---
 veriloggen/core/vtypes.py          | 1 +
 veriloggen/verilog/from_verilog.py | 4 +++-
 veriloggen/verilog/to_verilog.py   | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 5dc1a3a..7ca364e 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1913,6 +1913,7 @@ class SensitiveAll(Sensitive):
 
 
 class Subst(VeriloggenNode):
+    nonblocking = False  # True: nonblocking even in an initial block
 
     def __init__(self, left, right, blk=False, ldelay=None, rdelay=None):
         VeriloggenNode.__init__(self)
diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 61a41d1..55b44bd 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -661,7 +661,9 @@ class VerilogReadVisitor(object):
             node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
             node.rdelay.delay) if node.rdelay is not None else None
-        return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
+        subst = vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
+        subst.nonblocking = True  # in an initial block as well
+        return subst
 
     def visit_IfStatement(self, node):
         if isinstance(self.m, module.Generate):
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 5aa2f6c..ca47fb0 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -852,6 +852,8 @@ class VerilogBlockingVisitor(VerilogCommonVisitor):
             node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
+        if node.nonblocking:
+            return vast.NonblockingSubstitution(lvalue, rvalue, ldelay, rdelay)
         return vast.BlockingSubstitution(lvalue, rvalue, ldelay, rdelay)
 
     def visit_Forever(self, node):
-- 
2.43.0


From 180415208b03cf91bb112b0535c45528a46291f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:03 +0000
Subject: [PATCH 34/44] fix: a delayed multi-bit condition kept only its least
 significant bit

---
 veriloggen/fsm/fsm.py |  4 ++--
 veriloggen/seq/seq.py | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..c9aa4bd 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -10,7 +10,7 @@ from veriloggen.core.module import Module
 from veriloggen.core.submodule import Submodule
 from veriloggen.seq.subst_visitor import *
 from veriloggen.seq.reset_visitor import ResetVisitor
-from veriloggen.seq.seq import Seq, make_condition
+from veriloggen.seq.seq import Seq, make_condition, to_single_bit
 
 
 _tmp_count = 0
@@ -832,7 +832,7 @@ class FSM(vtypes.VeriloggenNode):
         name_prefix = '_'.join(
             ['', self.name, 'cond', str(index), str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = to_single_bit(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..30ea236 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -59,6 +59,39 @@ def _get_manager_cond(cond):
     return cond
 
 
+_SINGLE_BIT_OPERATORS = (vtypes.LessThan, vtypes.GreaterThan, vtypes.LessEq, vtypes.GreaterEq,
+                         vtypes.Eq, vtypes.NotEq, vtypes.Eql, vtypes.NotEql,
+                         vtypes.Land, vtypes.Lor, vtypes.Ulnot,
+                         vtypes.Uand, vtypes.Uor, vtypes.Uxor,
+                         vtypes.Unand, vtypes.Unor, vtypes.Uxnor)
+
+
+def _is_single_bit(cond):
+    if isinstance(cond, int):
+        return cond in (0, 1)
+    if isinstance(cond, _SINGLE_BIT_OPERATORS):
+        return True
+    if isinstance(cond, (vtypes.And, vtypes.Or, vtypes.Xor, vtypes.Xnor)):
+        return _is_single_bit(cond.left) and _is_single_bit(cond.right)
+    if isinstance(cond, vtypes.Unot):
+        return _is_single_bit(cond.right)
+    if isinstance(cond, vtypes.Pointer):
+        return isinstance(cond.var, vtypes._Variable) and cond.var.dims is None
+    if isinstance(cond, (vtypes.Input, vtypes.Output, vtypes.Inout, vtypes.Wire, vtypes.Reg)):
+        width = cond.width
+        while isinstance(width, (vtypes.Localparam, vtypes.Int)):
+            width = width.value
+        return cond.dims is None and (width is None or (isinstance(width, int) and width == 1))
+    return False
+
+
+def to_single_bit(cond):
+    """ truth value of a condition, to be stored in a 1-bit register """
+    if _is_single_bit(cond):
+        return cond
+    return vtypes.Ulnot(vtypes.Ulnot(cond))
+
+
 def TmpSeq(m, clk, rst=None, nohook=False, as_module=False, prefix=None):
     if prefix is None:
         prefix = '_tmp_seq'
@@ -680,7 +713,7 @@ class Seq(vtypes.VeriloggenNode):
     def _add_delayed_cond(self, statement, delay):
         name_prefix = '_'.join(['', self.name, 'cond', str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = to_single_bit(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
-- 
2.43.0


From cf41891e54f6469d8cdf29dd3e1e875b4ccd5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 35/44] fix: Seq attached statements of Else.If, Elif.Delay and
 chains after a delayed Elif to the wrong condition

---
 veriloggen/seq/seq.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 30ea236..533949d 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -125,6 +125,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
         self.elif_cond = None
+        self.separated = False
         self.next_kwargs = {}
 
         self.as_module = as_module
@@ -160,6 +161,7 @@ class Seq(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -227,10 +229,18 @@ class Seq(vtypes.VeriloggenNode):
 
     # -------------------------------------------------------------------------
     def If(self, *cond):
-        self._clear_elif_cond()
-
         cond = make_condition(*cond)
 
+        if cond is not None:
+            # start of a new chain: Else.If(cond) is not the plain Else.
+            self.next_else = False
+            self.separated = False
+
+        return self._If(cond)
+
+    def _If(self, cond):
+        self._clear_elif_cond()
+
         if cond is None:
             return self
 
@@ -256,10 +266,11 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0) or self.separated:
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -284,10 +295,11 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0) or self.separated:
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -303,7 +315,7 @@ class Seq(vtypes.VeriloggenNode):
     def Then(self):
         cond = self._make_cond(self.last_cond)
         self._clear_last_cond()
-        self.If(cond)
+        self._If(cond)
         return self
 
     def Delay(self, delay):
@@ -756,6 +768,7 @@ class Seq(vtypes.VeriloggenNode):
 
     def _clear_last_cond(self):
         self.last_cond = []
+        self.separated = False
 
     def _clear_elif_cond(self):
         self.elif_cond = None
-- 
2.43.0


From b4784f5c1e86d00590cc949b28c1a3fc81233eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 36/44] fix: renaming statements of a Seq or FSM for its own
 module dropped defaults, casex and blocking; Cat of 1-bit signals had no
 width

---
 veriloggen/core/vtypes.py       |  1 +
 veriloggen/seq/subst_visitor.py | 16 +++++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 7ca364e..f6583e0 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1765,6 +1765,7 @@ class Cat(_SpecialOperator):
 
     def get_width(self):
         values = [get_width(v) for v in self.vars]
+        values = [1 if v is None else v for v in values]
         ret = values[0]
         for v in values[1:]:
             ret = ret + v
diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 6b2ade3..a9834e2 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -50,7 +50,7 @@ class SubstDstVisitor(object):
         return statement
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         statement = self.visit(node.statement)
@@ -117,7 +117,7 @@ class SubstSrcVisitor(CollectVisitor):
         self.visit(node.statement)
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         self.visit(node.condition)
@@ -180,18 +180,18 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Case(self, node):
         comp = self.visit(node.comp)
         statement = self.visit(node.statement)
-        ret = vtypes.Case(comp)
+        ret = node.__class__(comp)
         ret.statement = statement
         ret.last = node.last
         return ret
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         condition = self.visit(node.condition)
         statement = self.visit(node.statement)
-        ret = vtypes.When(*condition)
+        ret = vtypes.When(*condition) if condition is not None else vtypes.When()
         ret.statement = statement
         return ret
 
@@ -218,7 +218,8 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Subst(self, node):
         left = node.left
         right = self.visit(node.right)
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, blk=node.blk,
+                            ldelay=node.ldelay, rdelay=node.rdelay)
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
@@ -233,4 +234,5 @@ class DstRenameVisitor(SrcRenameVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = node.right
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, blk=node.blk,
+                            ldelay=node.ldelay, rdelay=node.rdelay)
-- 
2.43.0


From f6a47b33e9d1a7767cd502c7d09013d854490bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:16 +0000
Subject: [PATCH 37/44] fix: Seq.Prev ignored its condition or initial value,
 and a cond argument replaced pending If conditions

---
 veriloggen/seq/seq.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 533949d..cfd830e 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -136,6 +136,8 @@ class Seq(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def add(self, *statement, **kwargs):
         """ Adding new assignments. This method is usually called via __call__(). """
+        if kwargs.get('cond') is not None and 'cond' in self.next_kwargs:
+            self.If(kwargs['cond'])
         kwargs.update(self.next_kwargs)
         self.last_kwargs = kwargs
         self._clear_next_kwargs()
@@ -202,26 +204,30 @@ class Seq(vtypes.VeriloggenNode):
         else:
             name_prefix = _tmp_name(prefix)
 
-        key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
-            return self.prev_dict[key]
+        cond = make_condition(cond)
 
         p = var
         for i in range(delay):
-            cond = make_condition(cond)
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
+                last_if_statement = self.last_if_statement
                 self._add_statement([tmp(p)], cond=cond)
+                self.last_if_statement = last_if_statement
                 p = tmp
 
             else:
                 tmp_name = '_'.join([name_prefix, str(i + 1)])
-                if tmp_name in self.prev_dict:
-                    p = self.prev_dict[tmp_name]
+                # registers are shared only if the initial value is the same.
+                key = (tmp_name, str(initval))
+                if key in self.prev_dict:
+                    p = self.prev_dict[key]
                     continue
-                tmp = self.m.Reg(
-                    tmp_name, width, initval=initval, signed=signed)
-                self.prev_dict[tmp_name] = tmp
+                if any(name == tmp_name for name, _ in self.prev_dict):
+                    tmp = self.m.TmpReg(width, initval=initval, signed=signed)
+                else:
+                    tmp = self.m.Reg(
+                        tmp_name, width, initval=initval, signed=signed)
+                self.prev_dict[key] = tmp
                 self._add_statement([tmp(p)])
                 p = tmp
 
-- 
2.43.0


From 0edcd355a8f0805140782f41e5d26cf3923f7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:42 +0000
Subject: [PATCH 38/44] fix: reset of partially assigned registers used wrong
 bits, X or failed for initial values that are not plain integers

---
 veriloggen/seq/reset_visitor.py | 112 +++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 24 deletions(-)

diff --git a/veriloggen/seq/reset_visitor.py b/veriloggen/seq/reset_visitor.py
index e857718..5e38260 100644
--- a/veriloggen/seq/reset_visitor.py
+++ b/veriloggen/seq/reset_visitor.py
@@ -8,6 +8,15 @@ import copy
 import veriloggen.core.vtypes as vtypes
 
 
+def _to_const(value):
+    """ value of a constant if it is known, otherwise None """
+    if isinstance(value, vtypes.Int):
+        value = value.value
+    if isinstance(value, (int, bool)):
+        return int(value)
+    return None
+
+
 class ResetVisitor(object):
 
     def generic_visit(self, node):
@@ -30,29 +39,59 @@ class ResetVisitor(object):
         val = self.visit(node.var)
         if val is None:
             return None
-        left = vtypes.Pointer(val.left, node.pos)
-        if not isinstance(val.right, (vtypes._Variable, vtypes.Scope)):
-            if isinstance(val.right, (int, bool)):
-                val_right = vtypes.Int(val.right)
-            elif isinstance(val.right, float):
-                val_right = vtypes.Float(val.right)
-            else:
-                raise TypeError("unsupported value type: %s" % str(val.right))
-            right = vtypes.And(vtypes.Srl(
-                val_right, node.pos), vtypes.Int(1, width=1))
-        else:
+
+        if self._is_word(node):
+            return vtypes.Subst(vtypes.Pointer(val.left, node.pos), val.right)
+
+        if val.left is not node.var:
+            return val
+
+        if isinstance(val.right, (vtypes._Variable, vtypes.Scope)):
+            if not self._is_covered(node.var, val.right):
+                return val
             right = vtypes.Pointer(val.right, node.pos)
-        return vtypes.Subst(left, right)
+
+        else:
+            value, pos = _to_const(val.right), _to_const(node.pos)
+            if value is None:
+                return val
+            if value >= 0 and not isinstance(val.right, vtypes.Int):
+                right = vtypes.And(vtypes.Srl(vtypes.Int(value), node.pos),
+                                   vtypes.Int(1, width=1))
+            elif pos is None:
+                return val
+            else:
+                right = vtypes.Int((value >> pos) & 1, width=1)
+
+        return vtypes.Subst(vtypes.Pointer(val.left, node.pos), right)
 
     def visit_Slice(self, node):
         val = self.visit(node.var)
         if val is None:
             return None
+
+        msb, lsb = _to_const(node.msb), _to_const(node.lsb)
+        if val.left is not node.var:
+            return val
+
         if isinstance(val.right, vtypes._Variable):
+            if not self._is_covered(node.var, val.right):
+                return val
             right = vtypes.Slice(val.right, node.msb, node.lsb)
+
         else:
-            right = vtypes.And(vtypes.Srl(val.right, node.lsb),
-                               vtypes.Repeat(vtypes.Int(1, width=1), node.msb - node.lsb + 1))
+            value = _to_const(val.right)
+            if value is None:
+                return val
+            if value >= 0 and not isinstance(val.right, vtypes.Int):
+                right = vtypes.And(vtypes.Srl(val.right, node.lsb),
+                                   vtypes.Repeat(vtypes.Int(1, width=1), node.msb - node.lsb + 1))
+            elif msb is None or lsb is None:
+                return val
+            else:
+                width = msb - lsb + 1
+                right = vtypes.Int((value >> lsb) & ((1 << width) - 1), width=width)
+
         return vtypes.Subst(vtypes.Slice(val.left, node.msb, node.lsb), right)
 
     def visit_Cat(self, node):
@@ -61,20 +100,45 @@ class ResetVisitor(object):
 
         for v in node.vars:
             val = self.visit(v)
-            width = vtypes.get_width(v)
+            if val is None:
+                continue
+
+            left = val.left
+            width = vtypes.get_width(left)
             if width is None:
                 width = 1
-            if val is None:
-                right = vtypes.IntX(width)
-            elif isinstance(val.right, int):
-                right = vtypes.Int(val.right, width)
-            elif isinstance(val.right, vtypes._Constant):
-                right = copy.deepcopy(val.right)
-                right.width = width
+            value = _to_const(val.right)
+            if value is not None and isinstance(width, int):
+                right = (vtypes.Int(value, width) if value >= 0 else
+                         vtypes.Int(value & ((1 << width) - 1), width))
             else:
-                right = v._get_module().TmpLocalparam(val.right, width)
+                right = left._get_module().TmpLocalparam(val.right, width)
 
-            left_values.append(v)
+            left_values.append(left)
             right_values.append(right)
 
+        if not left_values:
+            return None
+
         return vtypes.Subst(vtypes.Cat(*left_values), vtypes.Cat(*right_values))
+
+    def _is_word(self, node):
+        """ Is the pointer a word of an array, not a bit? """
+        depth = 0
+        while isinstance(node, vtypes.Pointer):
+            node = node.var
+            depth += 1
+        dims = getattr(node, 'dims', None)
+        return dims is not None and depth <= len(dims)
+
+    def _is_covered(self, var, value):
+        """ Does the initial value have all bits of the register? """
+        width = vtypes.get_width(var)
+        value_width = vtypes.get_width(value)
+        if width is None:
+            width = 1
+        if value_width is None:
+            value_width = 1
+        if not isinstance(width, int) or not isinstance(value_width, int):
+            return True
+        return width <= value_width
-- 
2.43.0


From c6c1fb83cc29688ecf82c6b14a0f478967b9155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 39/44] fix: FSM combines pending conditions with condition
 arguments and keeps Else/Elif with the if-statement and state they belong to

---
 veriloggen/fsm/fsm.py | 98 +++++++++++++++++++++++++++++++------------
 1 file changed, 72 insertions(+), 26 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index c9aa4bd..2f83a74 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -74,8 +74,8 @@ class FSM(vtypes.VeriloggenNode):
 
         self.last_cond = []
         self.last_kwargs = {}
-        self.last_if_statement = None
-        self.next_else = False
+        self.last_index = None
+        self._clear_last_if_statement()
         self.elif_cond = None
         self.next_kwargs = {}
 
@@ -86,8 +86,8 @@ class FSM(vtypes.VeriloggenNode):
 
     # -------------------------------------------------------------------------
     def goto(self, dst, cond=None, else_dst=None):
-        if cond is None and 'cond' in self.next_kwargs:
-            cond = self.next_kwargs['cond']
+        if 'cond' in self.next_kwargs:
+            cond = make_condition(self.next_kwargs['cond'], cond)
 
         if 'index' in self.next_kwargs:
             index = self.next_kwargs['index']
@@ -97,7 +97,8 @@ class FSM(vtypes.VeriloggenNode):
         self._clear_next_kwargs()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self.next_else = False
+        self._clear_elif_cond()
 
         if index is None:
             src = self.current
@@ -108,8 +109,8 @@ class FSM(vtypes.VeriloggenNode):
         return dst
 
     def goto_init(self, cond=None):
-        if cond is None and 'cond' in self.next_kwargs:
-            cond = self.next_kwargs['cond']
+        if 'cond' in self.next_kwargs:
+            cond = make_condition(self.next_kwargs['cond'], cond)
 
         if 'index' in self.next_kwargs:
             index = self.next_kwargs['index']
@@ -119,7 +120,8 @@ class FSM(vtypes.VeriloggenNode):
         self._clear_next_kwargs()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self.next_else = False
+        self._clear_elif_cond()
 
         if index is None:
             src = self.current
@@ -131,8 +133,8 @@ class FSM(vtypes.VeriloggenNode):
         return dst
 
     def goto_next(self, cond=None):
-        if cond is None and 'cond' in self.next_kwargs:
-            cond = self.next_kwargs['cond']
+        if 'cond' in self.next_kwargs:
+            cond = make_condition(self.next_kwargs['cond'], cond)
 
         if 'index' in self.next_kwargs:
             index = self.next_kwargs['index']
@@ -142,7 +144,8 @@ class FSM(vtypes.VeriloggenNode):
         self._clear_next_kwargs()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self.next_else = False
+        self._clear_elif_cond()
 
         if index is None:
             src = self.current
@@ -155,13 +158,14 @@ class FSM(vtypes.VeriloggenNode):
         return dst
 
     def goto_from(self, src, dst, cond=None, else_dst=None):
-        if cond is None and 'cond' in self.next_kwargs:
-            cond = self.next_kwargs['cond']
+        if 'cond' in self.next_kwargs:
+            cond = make_condition(self.next_kwargs['cond'], cond)
 
         self._clear_next_kwargs()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self.next_else = False
+        self._clear_elif_cond()
 
         self._go(src, dst, cond, else_dst)
         return dst
@@ -172,8 +176,11 @@ class FSM(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def add(self, *statement, **kwargs):
         """ Adding new assignments. This method is usually called via __call__(). """
+        if kwargs.get('cond') is not None and 'cond' in self.next_kwargs:
+            self.If(kwargs['cond'])
         kwargs.update(self.next_kwargs)
         self.last_kwargs = kwargs
+        self.last_index = kwargs.get('index')
         self._clear_next_kwargs()
 
         # if there is no attributes, Elif object is reused.
@@ -183,10 +190,16 @@ class FSM(vtypes.VeriloggenNode):
                         (len(kwargs) == 2 and
                          'cond' in kwargs and 'index' in kwargs))  # has only 'cond' and 'index'
 
+        # if-statement of another state is not continued.
+        index = self._to_index(kwargs.get('index', self.current))
+        if index != self.last_if_index:
+            has_args = True
+
         if self.elif_cond is not None and not has_args:
             next_call = self.last_if_statement.Elif(self.elif_cond)
             next_call(*statement)
             self.last_if_statement = next_call
+            self.last_if_cond = tuple(self.last_cond)
             self._add_dst_var(statement)
             self._clear_elif_cond()
             return self
@@ -200,6 +213,7 @@ class FSM(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -212,10 +226,18 @@ class FSM(vtypes.VeriloggenNode):
 
     # -------------------------------------------------------------------------
     def If(self, *cond):
-        self._clear_elif_cond()
-
         cond = make_condition(*cond)
 
+        if cond is not None:
+            # start of a new chain: Else.If(cond) is not the plain Else.
+            self.next_else = False
+            self.last_index = None
+
+        return self._If(cond)
+
+    def _If(self, cond):
+        self._clear_elif_cond()
+
         if cond is None:
             return self
 
@@ -236,6 +258,9 @@ class FSM(vtypes.VeriloggenNode):
         if len(self.last_cond) == 0:
             raise ValueError("No previous condition for Else.")
 
+        continued = self._is_last_if()
+        self._continue_index()
+
         old = self.last_cond.pop()
         self.last_cond.append(vtypes.Not(old))
 
@@ -252,7 +277,7 @@ class FSM(vtypes.VeriloggenNode):
 
         # self.next_else = True
 
-        if isinstance(self.last_if_statement, vtypes.If):
+        if continued:
             self.next_else = True
 
         cond = self._make_cond(self.last_cond)
@@ -266,6 +291,9 @@ class FSM(vtypes.VeriloggenNode):
 
         cond = make_condition(*cond)
 
+        continued = self._is_last_if()
+        self._continue_index()
+
         old = self.last_cond.pop()
         self.last_cond.append(vtypes.Not(old))
         self.last_cond.append(cond)
@@ -283,7 +311,7 @@ class FSM(vtypes.VeriloggenNode):
 
         # self.elif_cond = cond
 
-        if isinstance(self.last_if_statement, vtypes.If):
+        if continued:
             self.elif_cond = cond
 
         cond = self._make_cond(self.last_cond)
@@ -294,7 +322,7 @@ class FSM(vtypes.VeriloggenNode):
     def Then(self):
         cond = self._make_cond(self.last_cond)
         self._clear_last_cond()
-        self.If(cond)
+        self._If(cond)
         return self
 
     def Delay(self, delay):
@@ -319,7 +347,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
@@ -361,19 +389,21 @@ class FSM(vtypes.VeriloggenNode):
     @property
     def current_condition(self):
         cond = self.next_kwargs['cond'] if 'cond' in self.next_kwargs else None
+        index = self.next_kwargs['index'] if 'index' in self.next_kwargs else self.state_count
         if cond is not None:
-            cond = vtypes.AndList(self.state == self.state_count, cond)
+            cond = vtypes.AndList(self.state == index, cond)
         else:
-            cond = self.state == self.state_count
+            cond = self.state == index
         return cond
 
     @property
     def last_condition(self):
         cond = self._make_cond(self.last_cond)
+        index = self.last_index if self.last_index is not None else self.state_count
         if cond is not None:
-            cond = vtypes.AndList(self.state == self.state_count, cond)
+            cond = vtypes.AndList(self.state == index, cond)
         else:
-            cond = self.state == self.state_count
+            cond = self.state == index
         return cond
 
     @property
@@ -812,6 +842,8 @@ class FSM(vtypes.VeriloggenNode):
         if cond is not None:
             statement = [vtypes.If(cond)(*statement)]
             self.last_if_statement = statement[0]
+            self.last_if_cond = (cond,)
+            self.last_if_index = index
 
         self.body[index].extend(statement)
         self._add_dst_var(statement)
@@ -837,7 +869,7 @@ class FSM(vtypes.VeriloggenNode):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -862,7 +894,7 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return left(prev)
 
@@ -872,8 +904,21 @@ class FSM(vtypes.VeriloggenNode):
 
     def _clear_last_if_statement(self):
         self.last_if_statement = None
+        self.last_if_cond = None
+        self.last_if_index = None
         self.next_else = False
 
+    def _is_last_if(self):
+        """ Is the last if-statement the one of the last conditions? """
+        return (isinstance(self.last_if_statement, vtypes.If) and
+                len(self.last_if_cond) == len(self.last_cond) and
+                all(a is b for a, b in zip(self.last_if_cond, self.last_cond)))
+
+    def _continue_index(self):
+        """ Else and Elif of the last assignment belong to the same state """
+        if self.last_index is not None and 'index' not in self.next_kwargs:
+            self.next_kwargs['index'] = self.last_index
+
     def _clear_last_cond(self):
         self.last_cond = []
 
@@ -895,6 +940,7 @@ class FSM(vtypes.VeriloggenNode):
         self._clear_last_if_statement()
         self._clear_last_cond()
         self._clear_elif_cond()
+        self.last_index = None
 
         if index is None:
             self.state_count += 1
-- 
2.43.0


From 98bda428616eda3be90a7545026a22904b79dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 40/44] fix: Seq and FSM in as_module mode read
 multi-dimensional arrays as such

---
 veriloggen/fsm/fsm.py | 4 ++--
 veriloggen/seq/seq.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 2f83a74..b3e9365 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -607,13 +607,13 @@ class FSM(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
+                for d, rep_dim in enumerate(rep_dims):
                     i = g.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index cfd830e..7354480 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -566,13 +566,13 @@ class Seq(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
+                for d, rep_dim in enumerate(rep_dims):
                     i = g.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
-- 
2.43.0


From 272a83ab03a61807f1cd52906cb55fe849fc2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:30 +0000
Subject: [PATCH 41/44] fix: constant evaluation of division, remainder, power,
 >>>, ~^, concatenation and repeat as Verilog does; an integer is 32 bits

---
 veriloggen/core/vtypes.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index f6583e0..8da9f65 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -700,6 +700,11 @@ class Wire(_Variable):
 
 class Integer(_Variable):
 
+    def get_width(self):
+        if self.width is None:
+            return 32
+        return self.width
+
     def reset(self):
         if self.initval is None:
             return None
@@ -1060,6 +1065,13 @@ class Power(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
+        if right < 0 and isinstance(right, int):
+            # integer power: only 1 and -1 have an integer inverse
+            if left == 0:
+                raise ZeroDivisionError('negative power of zero')
+            if left == 1 or left == -1:
+                return left if right % 2 else 1
+            return 0
         return left ** right
 
 
@@ -1079,7 +1091,9 @@ class Divide(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        return left // right
+        # Verilog HDL truncates the quotient toward zero
+        value = abs(left) // abs(right)
+        return value if (left < 0) == (right < 0) else -value
 
     def get_width(self):
         left = get_width(self.left)
@@ -1091,7 +1105,9 @@ class Mod(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        return left % right
+        # the remainder has the sign of the dividend
+        value = abs(left) % abs(right)
+        return -value if left < 0 else value
 
     def get_width(self):
         left = get_width(self.left)
@@ -1169,12 +1185,7 @@ class Sra(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        sign = left >= 0
-        left = abs(left)
-        ret = left >> right
-        if not sign:
-            return -1 * ret
-        return ret
+        return left >> right
 
     def get_width(self):
         left = get_width(self.left)
@@ -1333,12 +1344,7 @@ class Xnor(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        width = max(lwidth, rwidth)
-        value = ~(left ^ right)
-        mask = 0
-        for i in range(width):
-            mask = (0x1 << i) | mask
-        return mask & value
+        return ~(left ^ right)
 
     def get_width(self):
         left = get_width(self.left)
@@ -1814,7 +1820,7 @@ class Cat(_SpecialOperator):
     def op(vars, widths):
         ret = 0
         for var, width in zip(vars, widths):
-            ret = (ret << width) | var
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -1836,7 +1842,7 @@ class Repeat(_SpecialOperator):
     def op(var, width, times):
         ret = 0
         for i in range(times):
-            ret = (ret << width) | var
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
-- 
2.43.0


From c3bde987c1484f0f416ed3f69922e63c559729c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:30 +0000
Subject: [PATCH 42/44] fix: optimizer keeps the value of logical operators,
 sized literals, divisions of negative constants

---
 veriloggen/optimizer/optimizer.py | 51 ++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/veriloggen/optimizer/optimizer.py b/veriloggen/optimizer/optimizer.py
index efbc516..ccad2f3 100644
--- a/veriloggen/optimizer/optimizer.py
+++ b/veriloggen/optimizer/optimizer.py
@@ -20,12 +20,56 @@ def try_optimize(node, width=32):
 
 def optimize(node, width=32):
     df_tree = makeDFTree(node)
-    opt = voptimizer.VerilogOptimizer({}, default_width=width)
+    opt = _Optimizer({}, default_width=width)
     opt_dfnode = opt.optimize(df_tree)
     opt_node = makeASTTree(opt_dfnode)
     return opt_node
 
 
+class _Optimizer(voptimizer.VerilogOptimizer):
+    """ Pyverilog optimizer without the rules that change the value """
+
+    truth_ops = ('Land', 'Lor', 'Ulnot', 'Eq', 'NotEq',
+                 'LessThan', 'LessEq', 'GreaterThan', 'GreaterEq')
+
+    def evalOperator(self, operator, nextnodes):
+        values = [n.value for n in nextnodes]
+        if not all([isinstance(v, int) for v in values]):
+            return voptimizer.VerilogOptimizer.evalOperator(self, operator, nextnodes)
+        if operator == 'Srl' and values[0] < 0:
+            return None  # depends on the width of the whole expression
+        width = max([n.width for n in nextnodes])
+        value = getOp(operator).op(*(values + [width] * len(values)))
+        return DFEvalValue(int(value), width)
+
+    def mergeIdenticalNodes(self, node):
+        return self._keepTruth(
+            node, voptimizer.VerilogOptimizer.mergeIdenticalNodes(self, node))
+
+    def mergeStaticNodes(self, node):
+        # (a && ~a) can be true
+        if isinstance(node, DFOperator) and node.operator == 'Land':
+            for n in node.nextnodes:
+                if isinstance(n, DFOperator) and n.operator == 'Unot':
+                    return node
+        return self._keepTruth(
+            node, voptimizer.VerilogOptimizer.mergeStaticNodes(self, node))
+
+    def mergeLandLor(self, node):
+        return self._keepTruth(
+            node, voptimizer.VerilogOptimizer.mergeLandLor(self, node))
+
+    def _keepTruth(self, node, merged):
+        """ The result of a logical operator is 0 or 1, an operand may not be """
+        if not isinstance(node, DFOperator) or node.operator not in ('Land', 'Lor'):
+            return merged
+        if isinstance(merged, DFOperator) and merged.operator in self.truth_ops:
+            return merged
+        if isinstance(merged, DFEvalValue) and merged.value in (0, 1):
+            return merged
+        return node
+
+
 def makeDFTree(node):
     if isinstance(node, fxd._FixedBase):
         raise TypeError('FixedPoint is not supported.')
@@ -50,6 +94,11 @@ def makeDFTree(node):
         return DFStringConst(node)
 
     if isinstance(node, vtypes.Int):
+        if node.width is not None or node.base is not None:
+            # the width and the signedness of the literal matter
+            v = DFTerminal(str(node))
+            v.original = node
+            return v
         return DFIntConst(str(node.value))
 
     if isinstance(node, vtypes.Float):
-- 
2.43.0


From 550d0851662adee808211c5bec84b04ebbdfbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:30 +0000
Subject: [PATCH 43/44] fix: resolver keeps sized literals, operands of select
 and concatenation, delays and modules instantiated in generate blocks

---
 veriloggen/resolver/resolver.py | 46 ++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/veriloggen/resolver/resolver.py b/veriloggen/resolver/resolver.py
index b9c516d..90761f0 100644
--- a/veriloggen/resolver/resolver.py
+++ b/veriloggen/resolver/resolver.py
@@ -95,6 +95,10 @@ class _CommonVisitor(_CachedVisitor):
         return node
 
     def visit__Constant(self, node):
+        if isinstance(node, vtypes.Int) and (
+                node.width is not None or node.base is not None):
+            # the width, the signedness and the unknown bits matter
+            return node
         return node.value
 
     def visit__BinaryOperator(self, node):
@@ -247,8 +251,7 @@ class ReplaceVisitor(ConstantVisitor):
         if (check_constant(var) and
                 check_constant(pos)):
             return node.op(var, pos)
-        if check_constant(var):
-            node.var = var
+        # a bit can be selected only from an identifier
         if check_constant(pos):
             node.pos = pos
         return node
@@ -261,8 +264,6 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(msb) and
                 check_constant(lsb)):
             return node.op(var, msb, lsb)
-        if check_constant(var):
-            node.var = var
         if check_constant(msb):
             node.msb = msb
         if check_constant(lsb):
@@ -272,7 +273,9 @@ class ReplaceVisitor(ConstantVisitor):
     def visit_Cat(self, node):
         vars = [self.visit(var) for var in node.vars]
         widths = [self.visit(get_width(var)) for var in node.vars]
-        node.vars = vars
+        # an operand of concatenation requires its width
+        node.vars = [old if check_constant(var) else var
+                     for old, var in zip(node.vars, vars)]
         for var, width in zip(vars, widths):
             if not check_constant(var):
                 return node
@@ -288,8 +291,7 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(width) and
                 check_constant(times)):
             return node.op(var, width, times)
-        if check_constant(var):
-            node.var = var
+        # an operand of replication requires its width
         if check_constant(times):
             node.times = times
         return node
@@ -456,9 +458,9 @@ class ReplaceVisitor(ConstantVisitor):
         return node
 
     def visit_Delay(self, node):
-        delay = self.visit(node.delay)
-        if check_constant(delay):
-            node.delay = delay
+        value = self.visit(node.value)
+        if check_constant(value):
+            node.value = value
         return node
 
     def visit_SingleStatement(self, node):
@@ -481,7 +483,6 @@ class ReplaceVisitor(ConstantVisitor):
         return node
 
     def visit_TaskCall(self, node):
-        self.visit(node.func)
         args = [self.visit(a) for a in node.args]
         node.args = args
         return node
@@ -545,6 +546,9 @@ class ModuleReplaceVisitor(_CachedVisitor):
         for name, param in unresolved.items():
             value = const_visitor.visit(param.value)
 
+            if isinstance(value, vtypes.Int) and isinstance(value.value, int):
+                value = value.value
+
             if not check_constant(value):
                 next_unresolved[name] = param
                 continue
@@ -682,6 +686,24 @@ class ModuleReplaceVisitor(_CachedVisitor):
         return node
 
 
+def get_generated_modules(m, in_generate=False):
+    """ modules instantiated in generate blocks, which are not resolved """
+    ret = OrderedDict()
+    for ins in m.instance.values():
+        if isinstance(ins.module, (module.StubModule, str)):
+            continue
+        if in_generate:
+            ret[ins.module.name] = ins.module
+        ret.update(get_generated_modules(ins.module, in_generate))
+    for gen in m.generate.values():
+        for g in (gen if isinstance(gen, list) else [gen]):
+            ret.update(get_generated_modules(g, True))
+            if isinstance(g, module.GenerateIf):
+                ret.update(get_generated_modules(g.Else, True))
+    return ret
+
+
 def resolve(m, const_dict=None):
-    mvisitor = ModuleReplaceVisitor(copy.deepcopy(m), const_dict)
+    mod = copy.deepcopy(m)
+    mvisitor = ModuleReplaceVisitor(mod, const_dict, get_generated_modules(mod))
     return mvisitor.resolve()
-- 
2.43.0


From da72ea5e532d09491f0d3f507757559fd503c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:07 +0000
Subject: [PATCH 44/44] fix: resolver finds parameters of an instance given
 without names

---
 veriloggen/resolver/resolver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/veriloggen/resolver/resolver.py b/veriloggen/resolver/resolver.py
index 90761f0..526f38e 100644
--- a/veriloggen/resolver/resolver.py
+++ b/veriloggen/resolver/resolver.py
@@ -642,13 +642,15 @@ class ModuleReplaceVisitor(_CachedVisitor):
         node.params = params
         node.ports = ports
 
-        inst_const_dict = OrderedDict()
-        for k, v in params:
-            inst_const_dict[k] = v
-
         if isinstance(node.module, (module.StubModule, str)):
             return node
 
+        # parameters without name are given in order
+        names = list(node.module.get_params().keys())
+        inst_const_dict = OrderedDict()
+        for i, (k, v) in enumerate(params):
+            inst_const_dict[names[i] if k is None else k] = v
+
         mod = copy.deepcopy(node.module)
         prev_name = mod.name
         new_name = prev_name
-- 
2.43.0

