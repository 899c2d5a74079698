From 3175bc528dc1ab87ce1161adbcc6bf1eb8273bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:04 +0000
Subject: [PATCH 01/27] fix: rotate by zero shifts a 32-bit value by 32

rol, ror and rori computed (x << n) | (x >> (32 - n)) for n = 0, which is
undefined in C++. Mask the complementary shift amount in the reference
model and in the ALU.
---
 back-end/Exu/include/Fu.h | 4 ++--
 diff/ref.cpp              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/back-end/Exu/include/Fu.h b/back-end/Exu/include/Fu.h
index 65ef931..be972ab 100644
--- a/back-end/Exu/include/Fu.h
+++ b/back-end/Exu/include/Fu.h
@@ -52,7 +52,7 @@ protected:
         if (inst.func7 == 0) // sll
           inst.result = operand1 << shift;
         else if (inst.func7 == 0x30 && !inst.src2_is_imm) // rol (Zbb)
-          inst.result = (operand1 << shift) | (operand1 >> (32 - shift));
+          inst.result = (operand1 << shift) | (operand1 >> ((32 - shift) & 31));
         else if (inst.func7 == 0x24) // bclr (Zbs)
           inst.result = operand1 & ~(1u << shift);
         else if (inst.func7 == 0x14) // bset (Zbs)
@@ -140,7 +140,7 @@ protected:
                  (inst.func7 != 0x34) && (inst.func7 != 0x14)) // srai
           inst.result = (int32_t)operand1 >> shift;
         else if (inst.func7 == 0x30) { // ror (Zbb)
-          inst.result = (operand1 >> shift) | (operand1 << (32 - shift));
+          inst.result = (operand1 >> shift) | (operand1 << ((32 - shift) & 31));
         } else if (inst.func7 == 0x24) { // bext (Zbs)
           inst.result = (operand1 >> shift) & 1;
         } else if (inst.func7 == 0x34 && inst.src2_is_imm) { // rev8 (Zbb)
diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..f7ea328 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1360,7 +1360,7 @@ void RefCpu::RV32IM() {
         state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shamt;
       } else if (funct7 == 0x30) { // rori (Zbb)
         state.gpr[reg_d_index] =
-            (reg_rdata1 >> shamt) | (reg_rdata1 << (32 - shamt));
+            (reg_rdata1 >> shamt) | (reg_rdata1 << ((32 - shamt) & 31));
       } else if (funct7 == 0x24) { // bexti (Zbs)
         state.gpr[reg_d_index] = (reg_rdata1 >> shamt) & 1;
       } else if (funct7 == 0x34) { // rev8 (Zbb) - shamt must be 24?
@@ -1480,7 +1480,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = reg_rdata1 << shift;
         } else if (funct7 == 0x30) { // rol (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 << shift) | (reg_rdata1 >> (32 - shift));
+              (reg_rdata1 << shift) | (reg_rdata1 >> ((32 - shift) & 31));
         } else if (funct7 == 0x24) { // bclr (Zbs)
           state.gpr[reg_d_index] = reg_rdata1 & ~(1u << shift);
         } else if (funct7 == 0x14) { // bset (Zbs)
@@ -1552,7 +1552,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shift;
         } else if (funct7 == 0x30) { // ror (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 >> shift) | (reg_rdata1 << (32 - shift));
+              (reg_rdata1 >> shift) | (reg_rdata1 << ((32 - shift) & 31));
         } else if (funct7 == 0x24) { // bext (Zbs)
           state.gpr[reg_d_index] = (reg_rdata1 >> shift) & 1;
         } else if (funct7 == 0x05) { // minu (Zbb)
-- 
2.43.0


From 38207e3e89498d112382e35074bc6dcb5839bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:43 +0000
Subject: [PATCH 02/27] fix: reference model delegates traps taken in M-mode

medeleg only applies to traps from S and U mode. A page fault raised in
M-mode (MPRV load or store) was sent to S-mode, and an M-mode ecall with
medeleg[8] set reported cause 0 instead of 11.
---
 diff/ref.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index f7ea328..f187a88 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -305,7 +305,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // Traps taken in M-mode are never delegated.
+  uint32_t medeleg = (privilege == 3) ? 0 : state.csr[csr_medeleg];
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
-- 
2.43.0


From 2c94b79871d36163f26c9326460715d9c6529e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:43 +0000
Subject: [PATCH 03/27] fix: lr.w and failed sc.w trigger device side effects
 in the reference model

store_data() was called for lr.w and for a failed sc.w. It then acted on
stale store data, e.g. clearing the UART data byte or completing a PLIC
claim although nothing was stored.
---
 diff/ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index f187a88..2b3a965 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1105,7 +1105,9 @@ void RefCpu::RV32A() {
   }
   }
 
-  store_data();
+  if (state.store) {
+    store_data();
+  }
   state.pc = next_pc;
 }
 
-- 
2.43.0


From ed9c7c674d516b938ac37d4591061b3681cb706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:43 +0000
Subject: [PATCH 04/27] fix: S-mode could fetch from a user superpage with SUM
 set

The 4 KiB path of the reference page walk already refuses this; apply the
same rule to 4 MiB leaf entries.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 2b3a965..ed4d596 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1766,8 +1766,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 访问 U-page 且 SUM=0 (或取指) -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 322a4d67ecb3a9da12ef6e860c890482d4e991f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:43 +0000
Subject: [PATCH 05/27] fix: instruction page fault reported with a stale cause

On a fetch fault the reference model entered exception() with the previous
instruction word and interrupt flags, so a fetch fault right after a taken
interrupt or an ecall was reported with that cause.
---
 diff/ref.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index ed4d596..e3b1e61 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -276,6 +276,11 @@ void RefCpu::exec() {
     page_fault_inst = !va2pa_fix(p_addr, state.pc, 0);
 
     if (page_fault_inst) {
+      // Nothing was fetched: drop the previous instruction and the interrupt
+      // decision made for it.
+      Instruction = 0;
+      M_software_interrupt = M_timer_interrupt = M_external_interrupt = false;
+      S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
       exception(state.pc);
       return;
     } else {
-- 
2.43.0


From 385eb6453af9a569fce760ed926d5976674ffbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:36 +0000
Subject: [PATCH 06/27] fix: reference model ignores the write masks of mip and
 sip

The CSR index was compared with CSR addresses, so the branch was never
taken: mip was written unmasked and a write to sip was lost.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e3b1e61..5c39b28 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -942,13 +942,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From 5312ee8a2e444c149bd073a2d78d6492210685ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:36 +0000
Subject: [PATCH 07/27] fix: csrrwi with a zero immediate does not write in the
 reference model

Only csrrw was treated as an unconditional write. csrrwi writes its
immediate even when it is zero.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 5c39b28..f552a68 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -866,9 +866,9 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
-  bool re = funct3 != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
+  bool we = wcmd == CSR_W || rs1 != 0;
+  bool re = wcmd != CSR_W || rd != 0;
   uint32_t wdata;
 
   if (funct3 & 0b100) {
-- 
2.43.0


From e1b0304d33f2e66028c341baa3eb24ee40f1dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:36 +0000
Subject: [PATCH 08/27] fix: interrupt arriving at an ecall is reported with a
 mixed cause

When an interrupt was taken at an ecall instruction the reference model
let the ecall select the trap target or the cause code, e.g. scause
0x80000008. The interrupt is taken before the ecall executes.
---
 diff/ref.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index f552a68..a53b1a2 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -304,7 +304,11 @@ void RefCpu::exception(uint32_t trap_val) {
   uint32_t next_pc = state.pc + 4;
 
   // 重新获取当前状态（因为exec可能没传进来最新的）
-  bool ecall = (Instruction == INST_ECALL);
+  // 中断优先于当前指令自身的同步异常
+  bool irq = M_software_interrupt || M_timer_interrupt ||
+             M_external_interrupt || S_software_interrupt ||
+             S_timer_interrupt || S_external_interrupt;
+  bool ecall = (Instruction == INST_ECALL) && !irq;
   bool mret = (Instruction == INST_MRET);
   bool sret = (Instruction == INST_SRET);
 
-- 
2.43.0


From 9a6178208718c57eaf711f664e693afc045eb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:37 +0000
Subject: [PATCH 09/27] fix: interrupt priority order

The privileged specification orders simultaneous interrupts external,
software, timer. Machine external interrupts were reported last and
supervisor timer interrupts before software ones, in both the reference
model and the CSR unit.
---
 back-end/Exu/Csr.cpp | 10 +++++-----
 diff/ref.cpp         | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..d744ee8 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -174,11 +174,11 @@ void Csr::comb_exception() {
             ? 1U << 31
             : 0;
 
-    cause += irq.m_software_interrupt ? 3
-             : irq.m_timer_interrupt  ? 7
-             : (irq.m_external_interrupt ||
-                (ecall && (privilege == 3) && !medeleg_U_ecall))
+    cause += (irq.m_external_interrupt ||
+              (ecall && (privilege == 3) && !medeleg_U_ecall))
                  ? 11
+             : irq.m_software_interrupt ? 3
+             : irq.m_timer_interrupt    ? 7
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
              : (ecall && (privilege == 1) && !medeleg_S_ecall) ? 9
@@ -232,9 +232,9 @@ void Csr::comb_exception() {
     cause +=
         (irq.s_external_interrupt || (ecall && (privilege == 1) && medeleg_S_ecall))
             ? 9
+        : irq.s_software_interrupt                       ? 1
         : irq.s_timer_interrupt                          ? 5
         : (ecall && (privilege == 0) && medeleg_U_ecall) ? 8
-        : irq.s_software_interrupt                       ? 1
         : (page_fault_inst && medeleg_page_fault_inst)   ? 12
         : (page_fault_load && medeleg_page_fault_load)   ? 13
         : (page_fault_store && medeleg_page_fault_store) ? 15
diff --git a/diff/ref.cpp b/diff/ref.cpp
index a53b1a2..98a5a8a 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -360,13 +360,13 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (M_software_interrupt)
+    if (M_external_interrupt ||
+        (ecall && privilege == 3 && !medeleg_U_ecall))
+      exception_code = 11;
+    else if (M_software_interrupt)
       exception_code = 3;
     else if (M_timer_interrupt)
       exception_code = 7;
-    else if (M_external_interrupt ||
-             (ecall && privilege == 3 && !medeleg_U_ecall))
-      exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
     else if (ecall && privilege == 1 && !medeleg_S_ecall)
@@ -421,12 +421,12 @@ void RefCpu::exception(uint32_t trap_val) {
     uint32_t exception_code = 0;
     if (S_external_interrupt || (ecall && privilege == 1 && medeleg_S_ecall))
       exception_code = 9;
+    else if (S_software_interrupt)
+      exception_code = 1;
     else if (S_timer_interrupt)
       exception_code = 5;
     else if (ecall && privilege == 0 && medeleg_U_ecall)
       exception_code = 8;
-    else if (S_software_interrupt)
-      exception_code = 1;
     else if (page_fault_inst && medeleg_page_fault_inst)
       exception_code = 12;
     else if (page_fault_load && medeleg_page_fault_load)
-- 
2.43.0


From 23ae2722cf33a8f5c47929826dad67c2e9870b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:37 +0000
Subject: [PATCH 10/27] fix: reference model never delegates
 illegal-instruction traps

medeleg[2] was ignored, while the CSR unit of the pipeline honours it.
---
 diff/ref.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 98a5a8a..91d3074 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -328,6 +328,7 @@ void RefCpu::exception(uint32_t trap_val) {
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
+  bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
   // 这里直接复用成员变量里的中断状态 (假设RISCV函数刚跑完，状态是新的)
   // 如果不是，需要重新计算 M_software_interrupt 等
@@ -339,7 +340,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal_inst);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -347,7 +349,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal_inst);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -433,6 +436,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal_inst)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From 8602eb7eff838036e2540bb5919cd3b624aa5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:37 +0000
Subject: [PATCH 11/27] fix: CSR unit delegates traps taken in M-mode

Same repair as in the reference model: medeleg does not apply in M-mode.
---
 back-end/Exu/Csr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index d744ee8..afe91b2 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // Traps taken in M-mode are never delegated.
+  uint32_t medeleg =
+      (privilege == RISCV_MODE_M) ? 0u : (uint32_t)CSR_RegFile[csr_medeleg];
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
-- 
2.43.0


From 819f3f7f81dfa6f588893ae35b23f9e598b2ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:37 +0000
Subject: [PATCH 12/27] fix: exceptions in vectored mode jump to an odd address

The trap target kept the mode bits of mtvec/stvec.
---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index afe91b2..605ea2c 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -196,7 +196,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -249,7 +249,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From 3105bd0703d9ffac24111dbe2a67b82230ccb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:03 +0000
Subject: [PATCH 13/27] fix: write of a cancelled CSR instruction is applied by
 a later one

A CSR instruction that had executed but was cancelled by an interrupt left its
write request latched. The next committed CSR instruction that does not write,
such as a read of mcause in the trap handler, then applied the stale write.
Drop the latched request on every pipeline flush.
---
 back-end/Exu/Csr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 605ea2c..643a369 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -396,6 +396,12 @@ void Csr::comb_csr_write() {
 
     csr_we_1 = false;
   }
+
+  // A flush cancels a CSR instruction that has executed but not committed;
+  // its pending write must not be applied by a later CSR instruction.
+  if (in.rob_bcast->flush) {
+    csr_we_1 = false;
+  }
 }
 
 void Csr::seq() {
-- 
2.43.0


From 5a7324f75b099e4030a6d4767449609158a5a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:32 +0000
Subject: [PATCH 14/27] fix: FENCE commits before older stores are visible

The forward-progress fallback of the commit stage retired a finished FENCE
at the head of the reorder buffer although the store-drain gate had just
refused it. Keep the gate in the fallback as well.
---
 back-end/Rob.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..966715f 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -324,7 +324,10 @@ void Rob::comb_commit() {
         }
         const auto &uop = entry[i][deq_ptr].uop;
         const bool ready = rob_is_complete(uop);
-        if (ready && !rob_is_flush_inst(uop)) {
+        const bool fence_blocked = rob_is_fence_inst(uop) &&
+                                   in.lsu2rob != nullptr &&
+                                   in.lsu2rob->committed_store_pending;
+        if (ready && !rob_is_flush_inst(uop) && !fence_blocked) {
           single_commit = true;
           single_idx = i;
           progress_single_commit = true;
-- 
2.43.0


From 0d4cbc786293039e5e02ac769e808be692a01542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:00 +0000
Subject: [PATCH 15/27] fix: reference model returns non-canonical NaNs and x86
 out-of-range conversions

The SoftFloat library in libs/ is built with x86 conventions. RISC-V requires
the canonical NaN from arithmetic and saturating float-to-integer conversions.
---
 diff/ref.cpp | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 91d3074..2627628 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -115,6 +115,27 @@ static inline bool is_snan(uint32_t v) {
   return is_nan(v) && !((v >> 22) & 1);
 }
 
+// 运算结果为 NaN 时必须是规范 NaN (SoftFloat 库按 x86 规则传播 NaN)
+static inline uint32_t f32_result(float32_t f) {
+  return is_nan(f.v) ? 0x7fc00000u : f.v;
+}
+
+// RISC-V 规范的 FCVT.W.S：NaN 与上溢饱和到 2^31-1
+static inline uint32_t f32_to_i32_riscv(float32_t f, uint8_t rm) {
+  bool overflow = !(f.v >> 31) && f.v >= 0x4f000000u;
+  if (is_nan(f.v) || overflow) {
+    softfloat_exceptionFlags |= softfloat_flag_invalid;
+    return 0x7fffffffu;
+  }
+  return (uint32_t)f32_to_i32(f, rm, true);
+}
+
+// RISC-V 规范的 FCVT.WU.S：负数饱和到 0
+static inline uint32_t f32_to_ui32_riscv(float32_t f, uint8_t rm) {
+  uint32_t res = f32_to_ui32(f, rm, true);
+  return ((f.v >> 31) && !is_nan(f.v)) ? 0 : res;
+}
+
 // RISC-V 规范的 FMIN 实现
 uint32_t f32_min_riscv(uint32_t a, uint32_t b) {
   // 1. 处理 sNaN 异常 (Invalid Operation)
@@ -706,19 +727,19 @@ void RefCpu::RV32Zfinx() {
     switch (funct7) {
     case 0x00: // FADD.S
       f_res = f32_add(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
       break;
     case 0x04: // FSUB.S
       f_res = f32_sub(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
       break;
     case 0x08: // FMUL.S
       f_res = f32_mul(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
       break;
     case 0x0C: // FDIV.S
       f_res = f32_div(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
       break;
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
@@ -726,7 +747,7 @@ void RefCpu::RV32Zfinx() {
         return;
       }
       f_res = f32_sqrt(f_rs1);
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
       break;
 
     // 注入符号 (FSGNJ) - 纯位操作，不触发异常
@@ -767,9 +788,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(f_rs1, softfloat_roundingMode);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(f_rs1, softfloat_roundingMode);
       else
         illegal_exception = true;
       break;
@@ -783,7 +804,7 @@ void RefCpu::RV32Zfinx() {
         illegal_exception = true;
         return;
       }
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
       break;
 
       // Zfinx 特殊说明：
@@ -817,7 +838,7 @@ void RefCpu::RV32Zfinx() {
   // 结果 = (rs1 * rs2) + rs3
   case 0x43: // FMADD.S
     f_res = f32_mulAdd(f_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = f32_result(f_res);
     break;
   case 0x47: // FMSUB.S: (rs1 * rs2) - rs3
     // SoftFloat 的 mulAdd 定义通常是 a*b + c。
@@ -827,7 +848,7 @@ void RefCpu::RV32Zfinx() {
     {
       float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
       f_res = f32_mulAdd(f_rs1, f_rs2, f_neg_rs3);
-      i_res = from_f32(f_res);
+      i_res = f32_result(f_res);
     }
     break;
   case 0x4B: // FNMSUB.S: -(rs1 * rs2) + rs3
@@ -836,14 +857,14 @@ void RefCpu::RV32Zfinx() {
     // SoftFloat 可能并没有直接对应指令，可能需要操作 rs1 或 rs2 符号
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = f32_result(f_res);
   } break;
   case 0x4F: // FNMADD.S: -(rs1 * rs2) - rs3
   {
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_neg_rs3);
-    i_res = from_f32(f_res);
+    i_res = f32_result(f_res);
   } break;
 
   default:
-- 
2.43.0


From baaa1784ce2546d4bc2963a0275daeb9676a83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:00 +0000
Subject: [PATCH 16/27] fix: FPU returns non-canonical NaNs and x86
 out-of-range conversions

The SoftFloat library in libs/ is built with x86 conventions. RISC-V requires
the canonical NaN from arithmetic and saturating float-to-integer conversions.
FSUB with a NaN operand also differed from the reference model.
---
 back-end/Exu/include/FPU.h | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..c028708 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,27 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // Arithmetic NaN results are canonical (the library propagates payloads).
+  static inline uint32_t f32_result(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  // FCVT.W.S: NaN and positive overflow saturate to 2^31-1.
+  static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+    bool overflow = !(f.v >> 31) && f.v >= 0x4f000000u;
+    if (is_nan_u32(f.v) || overflow) {
+      softfloat_exceptionFlags |= softfloat_flag_invalid;
+      return 0x7fffffffu;
+    }
+    return static_cast<uint32_t>(f32_to_i32(f, rm, true));
+  }
+
+  // FCVT.WU.S: negative values saturate to 0.
+  static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+    uint32_t res = f32_to_ui32(f, rm, true);
+    return ((f.v >> 31) && !is_nan_u32(f.v)) ? 0 : res;
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +168,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a, softfloat_roundingMode);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a, softfloat_roundingMode);
             } else {
               assert(0);
             }
@@ -169,17 +190,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = f32_result(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = f32_result(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = f32_result(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = f32_result(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +209,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = f32_result(f32_sqrt(a));
               break;
             }
             case FSGNJ:
-- 
2.43.0


From a4fe17a459e5df4a1024ca4abbe61cce50fb03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:43 +0000
Subject: [PATCH 17/27] fix: sc.w to x0 forwards its address or result to
 readers of x0

The store-address operation of sc.w writes physical register 0 when rd is x0.
The register file ignores such writes, but the forwarding paths did not.
---
 back-end/Prf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/back-end/Prf.cpp b/back-end/Prf.cpp
index a4e8e01..cebb747 100644
--- a/back-end/Prf.cpp
+++ b/back-end/Prf.cpp
@@ -14,7 +14,8 @@ static inline bool is_killed(const ExePrfIO::ExePrfWbUop &uop,
 inline uint32_t read_operand_with_bypass(
     uint32_t preg, bool src_en, const reg<32> *reg_file,
     const ExePrfIO::ExePrfEntry *inst_r, const ExePrfIO *exe2prf) {
-  if (!src_en) {
+  // x0 (preg 0) 恒为 0，不接受任何旁路。
+  if (!src_en || preg == 0) {
     return 0;
   }
 
-- 
2.43.0


From 614ea7da5e3692b090eee60150ac7b394172c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:07:39 +0000
Subject: [PATCH 18/27] fix: cancel in-flight multi-cycle operations on a full
 pipeline flush

The flush mask is compared with the complement of a 16-bit zero, which
integer promotion turns into -1, so the full-flush case never matched.
Multiplications, divisions and FP operations without an older unresolved
branch survived a flush and later completed under a stale reorder-buffer
index.
---
 back-end/Exu/include/AbstractFU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..f439736 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -117,7 +117,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask == wire<BR_MASK_WIDTH>(~wire<BR_MASK_WIDTH>(0))) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +203,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask == wire<BR_MASK_WIDTH>(~wire<BR_MASK_WIDTH>(0)) ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From fc830f4074d8f8b123ea7144b51991af1fd09877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:59:58 +0000
Subject: [PATCH 19/27] fix: give every delayed unit its own wake-up channel

A division and a floating-point operation sharing an issue port can complete
in the same cycle. Both used the port's single wake-up channel, so one of the
two announcements was lost and its consumers waited forever.
---
 back-end/Isu.cpp | 47 +++++++++--------------------------------------
 include/config.h |  3 ++-
 2 files changed, 11 insertions(+), 39 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..0ea0ccf 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -337,44 +337,21 @@ void Isu::comb_awake() {
     out.iss_awake->wake[i].preg = 0;
   }
 
-  uint64_t delayed_mask = OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR;
   uint64_t fast_mask = OP_MASK_ALU;
 
+  // 同一端口上的 MUL/DIV/FP 可能在同一拍完成，每个延迟单元使用独立通道。
   int lsu_base = 0;
-  int delayed_base = lsu_base + LSU_LOAD_WB_WIDTH;
-  int fast_base = delayed_base + count_ports_with_mask(delayed_mask);
+  int mul_base = lsu_base + LSU_LOAD_WB_WIDTH;
+  int div_base = mul_base + ISU_MUL_WAKE_UNIT_NUM;
+  int fp_base = div_base + ISU_DIV_WAKE_UNIT_NUM;
+  int fast_base = fp_base + ISU_FP_WAKE_UNIT_NUM;
 
-  int delayed_ch_map[ISSUE_WIDTH];
   int fast_ch_map[ISSUE_WIDTH];
-  for (int i = 0; i < ISSUE_WIDTH; i++) {
-    delayed_ch_map[i] = -1;
-    fast_ch_map[i] = -1;
-  }
-  
-  int cur_del = delayed_base;
   int cur_fst = fast_base;
   for (int i = 0; i < ISSUE_WIDTH; i++) {
-    uint64_t cap = get_port_capability(i);
-    if (cap & delayed_mask) {
-      delayed_ch_map[i] = cur_del++;
-    }
-    if (cap & fast_mask) {
-      fast_ch_map[i] = cur_fst++;
-    }
+    fast_ch_map[i] = (get_port_capability(i) & fast_mask) ? cur_fst++ : -1;
   }
 
-
-  auto get_port_for_unit = [](uint64_t op_mask, int unit_idx) {
-    int seen = 0;
-    for (int p = 0; p < ISSUE_WIDTH; p++) {
-      if (get_port_capability(p) & op_mask) {
-        if (seen == unit_idx) return p;
-        seen++;
-      }
-    }
-    return -1;
-  };
-
   // 来源 A: 慢速唤醒 (来自写回阶段：Load / 缓存缺失)
   for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
     if (in.prf_awake->wake[i].valid) {
@@ -388,9 +365,7 @@ void Isu::comb_awake() {
   for (int i = 0; i < ISU_DIV_WAKE_SLOT_NUM; i++) {
     const auto &slot = div_wake_slots[i];
     if (slot.valid && slot.countdown == 0) {
-      int port = get_port_for_unit(OP_MASK_DIV, i);
-      int ch = delayed_ch_map[port];
-      Assert(ch != -1);
+      int ch = div_base + i;
       Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
@@ -401,9 +376,7 @@ void Isu::comb_awake() {
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &slot = fp_wake_slots[i];
     if (slot.valid && slot.countdown == 0) {
-      int port = get_port_for_unit(OP_MASK_FP, i);
-      int ch = delayed_ch_map[port];
-      Assert(ch != -1);
+      int ch = fp_base + i;
       Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
@@ -415,9 +388,7 @@ void Isu::comb_awake() {
     if (MUL_MAX_LATENCY > 1) {
       const auto &slot = mul_wake_pipe[ISU_MUL_WAKE_DEPTH - 1][i];
       if (slot.valid) {
-        int port = get_port_for_unit(OP_MASK_MUL, i);
-        int ch = delayed_ch_map[port];
-        Assert(ch != -1);
+        int ch = mul_base + i;
         Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
         out.iss_awake->wake[ch].valid = true;
         out.iss_awake->wake[ch].preg = slot.dest_preg;
diff --git a/include/config.h b/include/config.h
index 5ca7cc2..3f68891 100644
--- a/include/config.h
+++ b/include/config.h
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 16;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
-- 
2.43.0


From 9edd8132cc08497046b7cba1ca7ae72b923566e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:32:31 +0000
Subject: [PATCH 20/27] fix: do not forward store data that will never be
 written

A load took its data from a store-conditional that had failed or whose
outcome was still unknown, and from a store cancelled by an interrupt but
still waiting behind older stores. Skip stores marked as writing nothing and
wait for the outcome of a store-conditional.
---
 back-end/Lsu/RealLsu.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..10e3017 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -568,6 +568,14 @@ void RealLsu::comb_stlf() {
             entry.load_state = LoadState::CheckStlfRetry;
             break;
           }
+          if (stq_entry.suppress_write) {
+            check_stlf_num++; // failed SC or cancelled store writes nothing: look past it
+            continue;
+          }
+          if (stq_entry.is_lrsc && !stq_entry.sc_pass) {
+            entry.load_state = LoadState::CheckStlfRetry; // SC outcome unknown
+            break;
+          }
           if (!stq_entry.paddr_valid) {
             lsu_perf::count_stlf_unknown_store_block(ctx);
             entry.load_state = LoadState::CheckStlfRetry;
-- 
2.43.0


From fdbd5ad9f6434f5252cadfa8eab69857c9c18db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:59 +0000
Subject: [PATCH 21/27] fix: answer a load from the line being filled, with the
 stores merged into it

A load that missed while its line waited in the fill stage was answered from
the miss entry, which lacks stores merged into the fill after it was latched.
---
 MemSubSystem/RealDcache.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..71de43f 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -433,6 +433,16 @@ void RealDcache::stage2_comb() {
             out.lru_updates[i]->set_idx = f.set_idx;
             out.lru_updates[i]->way = hit_way;
         }
+        else if (s1s2_cur.fill_write.valid &&
+                 s1s2_cur.fill_write.set_idx == f.set_idx &&
+                 s1s2_cur.fill_write.tag == f.tag) {
+            // The line is being filled: only the fill itself has the stores
+            // merged into it since the line arrived.
+            resp.valid  = true;
+            resp.replay = ReplayType::HIT;
+            resp.data   = s1s2_cur.fill_write.data[f.word_off];
+            resp.req_id = slot.req_id;
+        }
         else {
             if(s1s2_cur.icache_req==i){
                 // ICache coherent probes are lookup-only: report miss to the
-- 
2.43.0


From 0671bc2f487688a8eee9be6df19ae986de6e64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:59 +0000
Subject: [PATCH 22/27] fix: clear the request ports of a default LsuDcacheIO

The constructor left the ports indeterminate, so an empty request could carry
stray valid loads and stores into the data cache.
---
 back-end/include/IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index a336777..ebf21c9 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1381,7 +1381,7 @@ struct LsuDcacheIO {
   DCacheReqPorts req_ports;
   wire<LSU_LDU_WIDTH+1> icache_req;
 
-  LsuDcacheIO() { icache_req = LSU_LDU_COUNT; }
+  LsuDcacheIO() : req_ports{} { icache_req = LSU_LDU_COUNT; }
 };
 
 struct DcacheLsuIO {
-- 
2.43.0


From fada1000f560458bf6e06fbcf07c950e7cb806b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:45 +0000
Subject: [PATCH 23/27] fix: keep page-walk readers waiting when another reader
 misses

A reader whose access missed the data cache is remembered until the line arrives.
Recording a new waiting reader, or an instruction-cache probe that missed,
cleared the flags of readers that were already waiting.
Those readers were never woken up again.
---
 MemSubSystem/MemRouteBlock.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..8855959 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -73,9 +73,9 @@ void MemRouteBlock::comb_response() {
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
         out.wakeup->walk = (owner == Owner::PTW_WALK);
       } else {
-        nxt.ptw_wait.dtlb = (owner == Owner::PTW_DTLB);
-        nxt.ptw_wait.itlb = (owner == Owner::PTW_ITLB);
-        nxt.ptw_wait.walk = (owner == Owner::PTW_WALK);
+        nxt.ptw_wait.dtlb |= (owner == Owner::PTW_DTLB);
+        nxt.ptw_wait.itlb |= (owner == Owner::PTW_ITLB);
+        nxt.ptw_wait.walk |= (owner == Owner::PTW_WALK);
       }
     }
   }
-- 
2.43.0


From b86af9b5984f492a6a5f2b7622c2eb2b43305706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:09 +0000
Subject: [PATCH 24/27] fix: do not mark an instruction-fetch transaction
 outstanding when its answer arrives with the acceptance

A cancelled miss waits one cycle for its acceptance. If the answer arrived in
that same cycle it was consumed, but the transaction was still recorded as
outstanding and its id was never freed.
---
 front-end/icache/icache_module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..b2ac2ba 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1496,7 +1496,8 @@ void ICache::eval_state_machine() {
     io.out.mem_req_valid = false;
     io.out.mem_resp_ready = true;
     if (io.in.mem_req_accepted && io.regs.miss_txid_valid_r &&
-        ((io.in.mem_req_accepted_id & 0xF) == (io.regs.miss_txid_r & 0xF))) {
+        ((io.in.mem_req_accepted_id & 0xF) == (io.regs.miss_txid_r & 0xF)) &&
+        !(io.in.mem_resp_valid && resp_id == (io.regs.miss_txid_r & 0xF))) {
       uint8_t txid = io.regs.miss_txid_r & 0xF;
       io.reg_write.txid_canceled_r[txid] = true;
       io.reg_write.txid_inflight_r[txid] = true;
-- 
2.43.0


From 7f46f6b0186a2b5ea15ca923f3a951e4af1be35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:07 +0000
Subject: [PATCH 25/27] fix: let the device bridge take each request once

The load/store unit sees the bridge's ready one cycle late and repeats its
request while it waits.  The bridge stayed ready after taking a request for
a modelled device, and became ready one cycle before the answer of a bus
read, so the same access was performed twice and the second answer could
end a later access.  Be ready only when no access or answer is outstanding.
---
 MemSubSystem/PeripheralAxi.cpp       | 14 ++++++++++----
 MemSubSystem/include/PeripheralAxi.h |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/MemSubSystem/PeripheralAxi.cpp b/MemSubSystem/PeripheralAxi.cpp
index 506c0cb..e57ef9e 100644
--- a/MemSubSystem/PeripheralAxi.cpp
+++ b/MemSubSystem/PeripheralAxi.cpp
@@ -106,6 +106,16 @@ void PeripheralAxi::comb_outputs() {
 }
 
 void PeripheralAxi::comb_inputs() {
+  comb_next_state();
+
+  // The requester sees this one cycle later: be ready only when the request it
+  // may still be holding has been answered.
+  if (peripheral_resp != nullptr) {
+    peripheral_resp->ready = !nxt.busy && !nxt.resp_valid;
+  }
+}
+
+void PeripheralAxi::comb_next_state() {
   nxt = cur;
 
   if (cur.resp_valid) {
@@ -169,10 +179,6 @@ void PeripheralAxi::comb_inputs() {
     nxt.resp_valid = true;
     nxt.rdata = extract_read_data(in.read.resp_data[0], cur.func3);
   }
-
-  if (peripheral_resp != nullptr) {
-    peripheral_resp->ready = !nxt.busy;
-  }
 }
 
 void PeripheralAxi::seq() {
diff --git a/MemSubSystem/include/PeripheralAxi.h b/MemSubSystem/include/PeripheralAxi.h
index e5794ca..e7b160c 100644
--- a/MemSubSystem/include/PeripheralAxi.h
+++ b/MemSubSystem/include/PeripheralAxi.h
@@ -79,6 +79,7 @@ public:
   PeripheralAxiState nxt;
 
 private:
+  void comb_next_state();
   static uint8_t access_size_bytes(uint8_t func3);
   static uint32_t pack_write_data(uint32_t data, uint8_t func3);
   static uint64_t pack_write_strb(uint8_t func3);
-- 
2.43.0


From 0a149b6cffbff58ecd2dcf5d4e97e9d89d5a6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:07 +0000
Subject: [PATCH 26/27] fix: do not take the answer of a cancelled device
 access for the next one

A device load cancelled by an interrupt leaves its request with the bridge.
When the next device access is already waiting, the late answer was taken
as its result.  Remember whether the request of the access in the unit has
been sent and accept an answer only then.
---
 back-end/Lsu/RealLsu.cpp       | 9 +++++++--
 back-end/Lsu/include/RealLsu.h | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 10e3017..b466bea 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -284,7 +284,8 @@ void RealLsu::comb_exe2lsu() {
 void RealLsu::comb_mmio_out() {
   *out.peripheral_req = {};
   if (in.peripheral_resp->ready) {
-    if (nxt.uncached_unit.valid) {
+    if (nxt.uncached_unit.valid && !nxt.uncached_unit.req_sent) {
+      nxt.uncached_unit.req_sent = true;
       out.peripheral_req->is_mmio = true;
       out.peripheral_req->wen = !nxt.uncached_unit.is_load;
       out.peripheral_req->mmio_addr = nxt.uncached_unit.addr;
@@ -296,7 +297,9 @@ void RealLsu::comb_mmio_out() {
   }
 }
 void RealLsu::comb_mmio_in() {
-  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid) {
+  // 请求发出之前收到的响应属于已被取消的访问
+  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid &&
+      cur.uncached_unit.req_sent) {
     if (cur.uncached_unit.is_load) {
       auto &entry = nxt.ldq[cur.uncached_unit.idx];
       if (nxt.finish_count < LDQ_SIZE) {
@@ -550,6 +553,7 @@ void RealLsu::comb_stlf() {
           entry.load_state = LoadState::WaitMmioResp;
           lsu_perf::start_mem_inst(ctx, entry);
           nxt.uncached_unit.valid = true;
+          nxt.uncached_unit.req_sent = false;
           nxt.uncached_unit.is_load = true;
           nxt.uncached_unit.addr = entry.p_addr;
           nxt.uncached_unit.func3 = entry.func3;
@@ -870,6 +874,7 @@ void RealLsu::comb_lsu2dcache_stq() {
       if (nxt_entry.is_mmio == true) {
         if (i == 0 && !nxt.uncached_unit.valid) {
           nxt.uncached_unit.valid = true;
+          nxt.uncached_unit.req_sent = false;
           nxt.uncached_unit.is_load = false;
           nxt.uncached_unit.addr = nxt_entry.paddr;
           nxt.uncached_unit.wdata = nxt_entry.data;
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index e32237a..ba68512 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -99,6 +99,8 @@ struct LdqEntry {
 struct UncachedUnit {
   wire<1> valid;
 
+  wire<1> req_sent;
+
   wire<1> is_load;
 
   wire<32> addr;
-- 
2.43.0


From edec017f583e56accb2d29b6349406dc54724026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:15 +0000
Subject: [PATCH 27/27] fix: do not pass a store cancelled by an interrupt on
 to the devices

---
 rv_simu_mmu_v2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..4f41451 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -765,7 +765,11 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
     }
   }
 
-  if (inst->tma.mem_commit_is_store && !inst->page_fault_store) {
+  // 被中断打断的 store 未真正提交，返回后会重新执行，此处不能写外设。
+  const bool interrupted =
+      static_cast<bool>(back->rob->out.rob_bcast->interrupt);
+  if (inst->tma.mem_commit_is_store && !inst->page_fault_store &&
+      !interrupted) {
     StqEntry e = back->lsu->get_stq_entry(inst->stq_idx, inst->stq_flag);
     const bool store_suppressed = static_cast<bool>(e.suppress_write) &&
                                   e.rob_idx == inst->rob_idx &&
-- 
2.43.0

