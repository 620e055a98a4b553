From f7fcdb5d063304938e64f36ba854f778085d4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 1/5] fix: clear the interrupt flag latched for mcause on
 synchronous traps

Once an interrupt had been taken, mcause_latch.interrupt stayed set, so every
later synchronous trap reported an mcause with the Interrupt bit.
---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From 7d4ce9be0379863cf2d74d30c80f4dfdfacf8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 2/5] fix: report words with non-32-bit low bits as illegal,
 not ECALL

0x00000070..72 match the ECALL comparison, which ignores the low seven bits.
---
 src/sentinel/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..8364c4d 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -395,7 +395,10 @@ class ExceptionControl(Component):
 
             # Catch-all for compressed insns, zero insn.
             with m.If(self.insn[0:2] != 0b11):
-                m.d.sync += self.exception.valid.eq(1)
+                m.d.sync += [
+                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),
+                    self.exception.valid.eq(1)
+                ]
 
         # Second decode cycle if this is a CSR access.
         with m.If(forward_csr):
-- 
2.43.0


From 8f1268f6a768306d7162ca0ed497a850ce6a8f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 3/5] fix: WBTimer must not clear a tick that arrives while a
 read is acknowledged

The Wishbone timer updated dat_r and cleared the IRQ bit in both cycles of
a read. A tick arriving in the second (acknowledge) cycle was cleared although
the data returned to the CPU was sampled in the first, so the tick was lost.
Act in the first cycle only, as WBSerial already does for its IRQ register.
---
 examples/attosoc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/attosoc.py b/examples/attosoc.py
index 944bf51..f4d7019 100644
--- a/examples/attosoc.py
+++ b/examples/attosoc.py
@@ -371,7 +371,10 @@ class WBTimer(Component):
         m.d.sync += prescalar.eq(prescalar + 1)
         m.d.comb += self.irq.eq(prescalar[14])
 
-        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we):
+        # Only act in the first cycle of a read: a tick which arrives while the
+        # read is being acknowledged isn't part of the data returned, and must
+        # not be cleared.
+        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we & ~self.bus.ack):
             with m.If(self.bus.sel[0] == 1):
                 m.d.sync += self.bus.dat_r.eq(self.irq)
 
-- 
2.43.0


From 729b9f4735b6c65ad6e869746f50913bc01a6bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 4/5] Revert the WBTimer change: examples/ has to stay as it
 was

The defect it repaired is recorded as a known finding in /verif instead.
---
 examples/attosoc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/attosoc.py b/examples/attosoc.py
index f4d7019..944bf51 100644
--- a/examples/attosoc.py
+++ b/examples/attosoc.py
@@ -371,10 +371,7 @@ class WBTimer(Component):
         m.d.sync += prescalar.eq(prescalar + 1)
         m.d.comb += self.irq.eq(prescalar[14])
 
-        # Only act in the first cycle of a read: a tick which arrives while the
-        # read is being acknowledged isn't part of the data returned, and must
-        # not be cleared.
-        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we & ~self.bus.ack):
+        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we):
             with m.If(self.bus.sel[0] == 1):
                 m.d.sync += self.bus.dat_r.eq(self.irq)
 
-- 
2.43.0


From 627813356e5b2628d29bcf4e93c0f4ed799ff712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 5/5] fix: number padding gaps in the microcode field layout

---
 src/sentinel/ucoderom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..2da47ba 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -271,6 +271,7 @@ class UCodeROM(Component):
             if next_f and curr_f.origin + curr_f.width != next_f.origin:
                 layout[f"_padding_{padding_id}"] = \
                     unsigned(next_f.origin - (curr_f.origin + curr_f.width))
+                padding_id += 1
 
         self.field_layout = StructLayout(layout)
 
-- 
2.43.0

