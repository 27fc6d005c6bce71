From ad22d09954a8bdbfd8c89a6c3c27c29fe74560b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:38 +0000
Subject: [PATCH 01/36] fix: return RISC-V canonical NaNs and saturated
 conversions from FP units

The bundled softfloat library is built with the x86 specialisation, so NaN
payloads were propagated and out-of-range float-to-int conversions returned
0x80000000/0xffffffff. Canonicalise NaN results and apply the RISC-V
saturation rules in the core and in the reference model.
---
 back-end/Exu/include/FPU.h | 40 ++++++++++++++++++++++++++++++--------
 diff/ref.cpp               | 32 +++++++++++++++++++++++++-----
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..69dd4f1 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,30 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // RISC-V 要求 NaN 结果一律为规范 NaN
+  static inline uint32_t canonical_nan(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  // RISC-V 饱和规则: NaN 与正溢出取最大值, 负溢出取最小值
+  static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+    softfloat_exceptionFlags = 0;
+    uint32_t res = static_cast<uint32_t>(f32_to_i32(f, rm, true));
+    if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+      return (is_nan_u32(f.v) || !(f.v >> 31)) ? 0x7fffffffu : 0x80000000u;
+    }
+    return res;
+  }
+
+  static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+    softfloat_exceptionFlags = 0;
+    uint32_t res = static_cast<uint32_t>(f32_to_ui32(f, rm, true));
+    if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+      return (is_nan_u32(f.v) || !(f.v >> 31)) ? 0xffffffffu : 0u;
+    }
+    return res;
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +171,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a, softfloat_roundingMode);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a, softfloat_roundingMode);
             } else {
               assert(0);
             }
@@ -169,17 +193,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical_nan(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical_nan(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = canonical_nan(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = canonical_nan(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +212,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = canonical_nan(f32_sqrt(a));
               break;
             }
             case FSGNJ:
@@ -239,7 +263,7 @@ protected:
         break;
     }
     default: {
-        inst.result = f32_add(a,b).v;
+        inst.result = canonical_nan(f32_add(a,b));
         break;
     }
     }
diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..b16fd28 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -103,13 +103,35 @@ static inline float32_t to_f32(uint32_t v) {
   return f;
 }
 
-static inline uint32_t from_f32(float32_t f) { return f.v; }
-
 static inline bool is_nan(uint32_t v) {
   // 指数全1 (0xFF)，尾数不为0
   return ((v & 0x7F800000) == 0x7F800000) && ((v & 0x007FFFFF) != 0);
 }
 
+// RISC-V 要求 NaN 结果一律为规范 NaN
+static inline uint32_t from_f32(float32_t f) {
+  return is_nan(f.v) ? 0x7fc00000u : f.v;
+}
+
+// RISC-V 饱和规则: NaN 与正溢出取最大值, 负溢出取最小值
+static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+  softfloat_exceptionFlags = 0;
+  uint32_t res = (uint32_t)f32_to_i32(f, rm, true);
+  if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+    return (is_nan(f.v) || !(f.v >> 31)) ? 0x7fffffffu : 0x80000000u;
+  }
+  return res;
+}
+
+static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+  softfloat_exceptionFlags = 0;
+  uint32_t res = (uint32_t)f32_to_ui32(f, rm, true);
+  if (softfloat_exceptionFlags & softfloat_flag_invalid) {
+    return (is_nan(f.v) || !(f.v >> 31)) ? 0xffffffffu : 0u;
+  }
+  return res;
+}
+
 static inline bool is_snan(uint32_t v) {
   // 是NaN，且尾数最高位(bit 22)为0
   return is_nan(v) && !((v >> 22) & 1);
@@ -183,7 +205,7 @@ uint32_t f32_max_riscv(uint32_t a, uint32_t b) {
 }
 
 uint32_t f32_classify(float32_t f) {
-  uint32_t bits = from_f32(f);
+  uint32_t bits = f.v;
   uint32_t sign = (bits >> 31) & 1;
   uint32_t exp = (bits >> 23) & 0xFF;
   uint32_t mant = bits & 0x7FFFFF;
@@ -752,9 +774,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(f_rs1, softfloat_roundingMode);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(f_rs1, softfloat_roundingMode);
       else
         illegal_exception = true;
       break;
-- 
2.43.0


From ef9c0bcf92a567e5a7ed9b70fb22c53c2f45f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:38 +0000
Subject: [PATCH 02/36] fix: never bypass a result into a reader of x0

An LR, SC or load with rd=x0 carries physical register 0 on the bypass
network, so a following instruction reading x0 could see its data.
---
 back-end/Prf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/back-end/Prf.cpp b/back-end/Prf.cpp
index a4e8e01..c7f85aa 100644
--- a/back-end/Prf.cpp
+++ b/back-end/Prf.cpp
@@ -14,7 +14,8 @@ static inline bool is_killed(const ExePrfIO::ExePrfWbUop &uop,
 inline uint32_t read_operand_with_bypass(
     uint32_t preg, bool src_en, const reg<32> *reg_file,
     const ExePrfIO::ExePrfEntry *inst_r, const ExePrfIO *exe2prf) {
-  if (!src_en) {
+  // p0 恒为 0：目的寄存器为 x0 的 Load/LR/SC 写回不得旁路给 x0 的读者。
+  if (!src_en || preg == 0) {
     return 0;
   }
 
-- 
2.43.0


From 93aecf27bdedf90733691a995709ed38a0079a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:38 +0000
Subject: [PATCH 03/36] fix: do not forward store data from a failed or
 undecided SC

A younger load to the same address took the SC data from the store queue
even when the SC did not write memory.
---
 back-end/Lsu/RealLsu.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..d201287 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -575,6 +575,19 @@ void RealLsu::comb_stlf() {
           }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
+          if (stq_entry.is_lrsc && stlf_result != STLFResult::Disjoint) {
+            const bool sc_resolved =
+                stq_entry.store_state != StoreState::WaitData &&
+                stq_entry.store_state != StoreState::WaitDone &&
+                stq_entry.store_state != StoreState::Ready;
+            if (!sc_resolved) {
+              entry.load_state = LoadState::CheckStlfRetry; // SC 成败未定，等待结果
+              break;
+            }
+            if (stq_entry.suppress_write) {
+              stlf_result = STLFResult::Disjoint; // SC 失败不写内存，不能前递
+            }
+          }
           if (stlf_result == STLFResult::Overlap) {
             if (!stq_entry.data_valid) {
               entry.load_state = LoadState::CheckStlfRetry;
-- 
2.43.0


From 4daf7403d7168dff9615450561ac7190a9bcc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:38 +0000
Subject: [PATCH 04/36] fix: delay the FP wake-up when DIV uses the same
 wake-up channel

DIV and FP share an issue port and therefore one delayed wake-up channel.
When both countdowns expired in the same cycle one wake-up was lost and its
consumers never issued.
---
 back-end/Isu.cpp       | 42 ++++++++++++++++++++++++++++--------------
 back-end/include/Isu.h |  1 +
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..42ae032 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -109,6 +109,30 @@ void Isu::comb_begin() {
 }
 
 
+static int get_port_for_unit(uint64_t op_mask, int unit_idx) {
+  int seen = 0;
+  for (int p = 0; p < ISSUE_WIDTH; p++) {
+    if (get_port_capability(p) & op_mask) {
+      if (seen == unit_idx) return p;
+      seen++;
+    }
+  }
+  return -1;
+}
+
+// DIV 与 FP 可能共享端口（同一延迟唤醒通道），同拍到期时 DIV 优先。
+bool Isu::fp_wake_blocked(int fp_slot) const {
+  const int port = get_port_for_unit(OP_MASK_FP, fp_slot);
+  for (int i = 0; i < ISU_DIV_WAKE_SLOT_NUM; i++) {
+    const auto &slot = div_wake_slots[i];
+    if (slot.valid && slot.countdown == 0 &&
+        get_port_for_unit(OP_MASK_DIV, i) == port) {
+      return true;
+    }
+  }
+  return false;
+}
+
 int Isu::get_latency(UopType uop, wire<7> func7) {
   if (uop == UOP_MUL)
     return MUL_MAX_LATENCY; // 乘法指令延迟
@@ -242,7 +266,7 @@ void Isu::comb_calc_latency_next() {
     }
   }
 
-  // FP 槽位：与 DIV 相同。
+  // FP 槽位：与 DIV 相同，但与 DIV 争用同一唤醒通道时顺延一拍。
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &cur = fp_wake_slots[i];
     auto &nxt = fp_wake_slots_1[i];
@@ -253,6 +277,8 @@ void Isu::comb_calc_latency_next() {
     if (cur.countdown > 0) {
       nxt = cur;
       nxt.countdown = cur.countdown - 1;
+    } else if (fp_wake_blocked(i)) {
+      nxt = cur; // 唤醒通道被 DIV 占用，下一拍再唤醒
     } else {
       nxt = {};
     }
@@ -363,18 +389,6 @@ void Isu::comb_awake() {
     }
   }
 
-
-  auto get_port_for_unit = [](uint64_t op_mask, int unit_idx) {
-    int seen = 0;
-    for (int p = 0; p < ISSUE_WIDTH; p++) {
-      if (get_port_capability(p) & op_mask) {
-        if (seen == unit_idx) return p;
-        seen++;
-      }
-    }
-    return -1;
-  };
-
   // 来源 A: 慢速唤醒 (来自写回阶段：Load / 缓存缺失)
   for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
     if (in.prf_awake->wake[i].valid) {
@@ -400,7 +414,7 @@ void Isu::comb_awake() {
   // 来源 B2: 延迟唤醒（FP countdown 到 0）
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &slot = fp_wake_slots[i];
-    if (slot.valid && slot.countdown == 0) {
+    if (slot.valid && slot.countdown == 0 && !fp_wake_blocked(i)) {
       int port = get_port_for_unit(OP_MASK_FP, i);
       int ch = delayed_ch_map[port];
       Assert(ch != -1);
diff --git a/back-end/include/Isu.h b/back-end/include/Isu.h
index 369d074..805b124 100644
--- a/back-end/include/Isu.h
+++ b/back-end/include/Isu.h
@@ -87,5 +87,6 @@ public:
 private:
   void add_iq(const IssueQueueConfig &cfg);
   int get_latency(UopType uop_type, wire<7> func7);
+  bool fp_wake_blocked(int fp_slot) const;
   void apply_wakeup_to_uop(IqStoredUop &uop) const;
 };
-- 
2.43.0


From 2170aa22aa9f8c76721c9bee9b28643f76cba067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:58:26 +0000
Subject: [PATCH 05/36] fix: drop the mode bits of mtvec/stvec on synchronous
 traps

With vectored mode selected, exceptions jumped to base+1 instead of base.
---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..6d1e911 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -194,7 +194,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -247,7 +247,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From 18ba8a98baf086df2babb7912352aaea868fda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:30 +0000
Subject: [PATCH 06/36] fix: apply medeleg only below M-mode and to every
 delegable cause

An exception raised in M-mode was handed to S-mode when its medeleg bit was
set, and an M-mode ecall reported cause 0 when U-mode ecalls were delegated.
The reference model also ignored the delegation of illegal instructions.
---
 back-end/Exu/Csr.cpp |  6 ++++--
 diff/ref.cpp         | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 6d1e911..a4d5d16 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // 委托只对低于 M 的特权级生效，陷入不会降低特权级
+  uint32_t medeleg =
+      privilege == RISCV_MODE_M ? 0 : uint32_t(CSR_RegFile[csr_medeleg]);
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
@@ -177,7 +179,7 @@ void Csr::comb_exception() {
     cause += irq.m_software_interrupt ? 3
              : irq.m_timer_interrupt  ? 7
              : (irq.m_external_interrupt ||
-                (ecall && (privilege == 3) && !medeleg_U_ecall))
+                (ecall && (privilege == 3)))
                  ? 11
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
diff --git a/diff/ref.cpp b/diff/ref.cpp
index b16fd28..ddb16c1 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -327,7 +327,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // 委托只对低于 M 的特权级生效，陷入不会降低特权级
+  uint32_t medeleg = privilege == 3 ? 0 : state.csr[csr_medeleg];
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
@@ -340,6 +341,7 @@ void RefCpu::exception(uint32_t trap_val) {
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
+  bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
   // 这里直接复用成员变量里的中断状态 (假设RISCV函数刚跑完，状态是新的)
   // 如果不是，需要重新计算 M_software_interrupt 等
@@ -351,7 +353,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal_inst);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -359,7 +362,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal_inst);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -377,7 +381,7 @@ void RefCpu::exception(uint32_t trap_val) {
     else if (M_timer_interrupt)
       exception_code = 7;
     else if (M_external_interrupt ||
-             (ecall && privilege == 3 && !medeleg_U_ecall))
+             (ecall && privilege == 3))
       exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
@@ -445,6 +449,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal_inst)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
@@ -543,7 +549,8 @@ void RefCpu::RISCV() {
   uint32_t mie_reg = state.csr[csr_mie];
   uint32_t mip_reg = ref_effective_mip(state.csr[csr_mip]);
   uint32_t mideleg = state.csr[csr_mideleg];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // 委托只对低于 M 的特权级生效，陷入不会降低特权级
+  uint32_t medeleg = privilege == 3 ? 0 : state.csr[csr_medeleg];
 
   // 提取关键位
   bool mstatus_mie = (mstatus & MSTATUS_MIE) != 0;
-- 
2.43.0


From 0f4a52adf8a814b7f8ce0882b3ff4a4aceed3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:30 +0000
Subject: [PATCH 07/36] fix: report the cause of the trap that is really taken

A synchronous exception taken while an enabled interrupt was pending recorded
the interrupt cause, and an interrupt taken on an ecall could record a mix of
both. Simultaneous interrupts now use the architectural priority order.
---
 back-end/Exu/Csr.cpp | 45 +++++++++++++++++++-------------------------
 diff/ref.cpp         | 15 +++++++++------
 2 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index a4d5d16..1ab0a61 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -141,13 +141,15 @@ void Csr::comb_exception() {
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
   bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
-  IrqState irq = eval_interrupts(mstatus, mie_reg, mip_reg, mideleg, privilege);
-  bool S_interrupt_resp = (irq.s_software_interrupt || irq.s_timer_interrupt ||
-                           irq.s_external_interrupt) &&
-                          in.rob2csr->interrupt_resp;
-  bool M_interrupt_resp = (irq.m_software_interrupt || irq.m_timer_interrupt ||
-                           irq.m_external_interrupt) &&
-                          in.rob2csr->interrupt_resp;
+  // 只有 ROB 响应中断时，挂起的中断才参与 cause 选择
+  IrqState irq;
+  if (in.rob2csr->interrupt_resp) {
+    irq = eval_interrupts(mstatus, mie_reg, mip_reg, mideleg, privilege);
+  }
+  bool S_interrupt_resp = irq.s_software_interrupt || irq.s_timer_interrupt ||
+                          irq.s_external_interrupt;
+  bool M_interrupt_resp = irq.m_software_interrupt || irq.m_timer_interrupt ||
+                          irq.m_external_interrupt;
 
   bool MTrap =
       M_interrupt_resp || (ecall && (privilege == 0) && !medeleg_U_ecall) ||
@@ -170,17 +172,12 @@ void Csr::comb_exception() {
     CSR_RegFile_1[csr_mepc] = in.rob_bcast->pc;
 
     // next_mcause = interruptType;
-    uint32_t cause =
-        (irq.m_software_interrupt || irq.m_timer_interrupt ||
-         irq.m_external_interrupt)
-            ? 1U << 31
-            : 0;
-
-    cause += irq.m_software_interrupt ? 3
-             : irq.m_timer_interrupt  ? 7
-             : (irq.m_external_interrupt ||
-                (ecall && (privilege == 3)))
-                 ? 11
+    uint32_t cause = M_interrupt_resp ? 1U << 31 : 0;
+
+    cause += irq.m_external_interrupt   ? 11
+             : irq.m_software_interrupt ? 3
+             : irq.m_timer_interrupt    ? 7
+             : (ecall && (privilege == 3)) ? 11
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
              : (ecall && (privilege == 1) && !medeleg_S_ecall) ? 9
@@ -225,18 +222,14 @@ void Csr::comb_exception() {
 
   } else if (STrap) {
     CSR_RegFile_1[csr_sepc] = in.rob_bcast->pc;
-    uint32_t cause =
-        (irq.s_software_interrupt || irq.s_timer_interrupt ||
-         irq.s_external_interrupt)
-            ? 1U << 31
-            : 0;
+    uint32_t cause = S_interrupt_resp ? 1U << 31 : 0;
 
     cause +=
-        (irq.s_external_interrupt || (ecall && (privilege == 1) && medeleg_S_ecall))
-            ? 9
+        irq.s_external_interrupt                         ? 9
+        : irq.s_software_interrupt                       ? 1
         : irq.s_timer_interrupt                          ? 5
+        : (ecall && (privilege == 1) && medeleg_S_ecall) ? 9
         : (ecall && (privilege == 0) && medeleg_U_ecall) ? 8
-        : irq.s_software_interrupt                       ? 1
         : (page_fault_inst && medeleg_page_fault_inst)   ? 12
         : (page_fault_load && medeleg_page_fault_load)   ? 13
         : (page_fault_store && medeleg_page_fault_store) ? 15
diff --git a/diff/ref.cpp b/diff/ref.cpp
index ddb16c1..fe47e77 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -376,12 +376,13 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (M_software_interrupt)
+    if (M_external_interrupt)
+      exception_code = 11;
+    else if (M_software_interrupt)
       exception_code = 3;
     else if (M_timer_interrupt)
       exception_code = 7;
-    else if (M_external_interrupt ||
-             (ecall && privilege == 3))
+    else if (ecall && privilege == 3)
       exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
@@ -435,14 +436,16 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (S_external_interrupt || (ecall && privilege == 1 && medeleg_S_ecall))
+    if (S_external_interrupt)
       exception_code = 9;
+    else if (S_software_interrupt)
+      exception_code = 1;
     else if (S_timer_interrupt)
       exception_code = 5;
+    else if (ecall && privilege == 1 && medeleg_S_ecall)
+      exception_code = 9;
     else if (ecall && privilege == 0 && medeleg_U_ecall)
       exception_code = 8;
-    else if (S_software_interrupt)
-      exception_code = 1;
     else if (page_fault_inst && medeleg_page_fault_inst)
       exception_code = 12;
     else if (page_fault_load && medeleg_page_fault_load)
-- 
2.43.0


From 89c3d0b1b82d366a843c6610c7bb9418fd8bff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:30 +0000
Subject: [PATCH 08/36] fix: drop the pending CSR write when the instruction is
 flushed

An interrupt taken between execution and commit of a CSR instruction left its
write armed, and the next committing CSR instruction performed it.
---
 back-end/Exu/Csr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 1ab0a61..43e6de5 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -389,6 +389,11 @@ void Csr::comb_csr_write() {
 
     csr_we_1 = false;
   }
+
+  // 未提交就被冲刷的 CSR 指令不得留下待写请求
+  if (in.rob_bcast->flush) {
+    csr_we_1 = false;
+  }
 }
 
 void Csr::seq() {
-- 
2.43.0


From 287808b8d79fb7d8fc79a29485628501bd47c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:56 +0000
Subject: [PATCH 09/36] fix: do not reuse the previous instruction on a fetch
 page fault

The reference model evaluated the trap of a fetch page fault with the previous
instruction word and its interrupt flags, so a fault right after an ecall,
mret, sret or an interrupt recorded the wrong cause or was lost.
---
 diff/ref.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index fe47e77..e8aaba2 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -298,6 +298,10 @@ void RefCpu::exec() {
     page_fault_inst = !va2pa_fix(p_addr, state.pc, 0);
 
     if (page_fault_inst) {
+      // 没有取到指令，也没有采样中断：不能沿用上一条指令的结果
+      Instruction = INST_NOP;
+      M_software_interrupt = M_timer_interrupt = M_external_interrupt = false;
+      S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
       exception(state.pc);
       return;
     } else {
-- 
2.43.0


From b01218abb6ffe0517ce3b1ef46bd6baf9bbd73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:56 +0000
Subject: [PATCH 10/36] fix: make csrrwi with a zero immediate and mip/sip
 writes take effect

The reference model skipped the write of csrrwi with a zero immediate. Writes
to mip and sip were compared against the CSR number instead of the register
index, so they bypassed the write mask and the mip/sip aliasing.
---
 diff/ref.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e8aaba2..aaafcfd 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -896,8 +896,9 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
-  bool re = funct3 != 1 || rd != 0;
+  bool is_csrrw = (funct3 & 0b11) == CSR_W;
+  bool we = is_csrrw || rs1 != 0;
+  bool re = !is_csrrw || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
   uint32_t wdata;
 
@@ -972,13 +973,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From 290cd9adbbbd171157376bda5e0183e1ec878edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:56 +0000
Subject: [PATCH 11/36] fix: fault S-mode fetches from user superpages in the
 reference model

The superpage path let S-mode execute from a user page when SUM was set; the
4 KB path already rejected it.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index aaafcfd..3e36ddc 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1800,8 +1800,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 从 U-page 取指，或 SUM=0 时访问 U-page -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 4024088588ed5ecc2ac3b664ef2e8dc318f69c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:56 +0000
Subject: [PATCH 12/36] fix: keep reference model memory accesses to the bytes
 they name

A failed SC ran the device side effects of a store. A load of the last word of
a memory range also read the word behind it and aborted the model. The
recorded byte strobe of sub-word stores was shifted by bits instead of bytes.
---
 diff/ref.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 3e36ddc..bf861c6 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1248,10 +1248,6 @@ void RefCpu::RV32IM() {
           is_mmio_range(p_addr, OPENSBI_TIMER_BASE, OPENSBI_TIMER_MMIO_SIZE)) {
         is_mmio_load = true;
       }
-      uint64_t data_l = (uint64_t)load_word(p_addr & ~0x3u);
-      uint64_t data_h = (uint64_t)load_word((p_addr & ~0x3u) + 4u);
-      uint64_t data64 = (data_h << 32) | data_l;
-
       uint32_t data;
       if (p_addr == OPENSBI_TIMER_LOW_ADDR) {
         data = static_cast<uint32_t>(ref_timer_now());
@@ -1264,7 +1260,8 @@ void RefCpu::RV32IM() {
       } else if (p_addr == OPENSBI_TIMERCMP_HIGH_ADDR) {
         data = static_cast<uint32_t>(g_ref_timer_cmp >> 32);
       } else {
-        data = (uint32_t)(data64 >> ((p_addr & 0b11) * 8));
+        // 对齐访问不会跨字
+        data = load_word(p_addr) >> ((p_addr & 0b11) * 8);
       }
       uint32_t size = funct3 & 0b11;
       uint32_t sign = 0, mask;
@@ -1690,9 +1687,12 @@ void RefCpu::store_word(uint32_t addr, uint32_t data) {
 }
 
 void RefCpu::store_data() {
+  if (!state.store) {
+    return; // 失败的 SC 不写内存，也没有设备副作用
+  }
 
   uint32_t p_addr = state.store_addr;
-  if (state.store && state.reserve_valid && state.reserve_addr == p_addr) {
+  if (state.reserve_valid && state.reserve_addr == p_addr) {
     // Invalidate reservation only when a store hits the reserved address.
     state.reserve_valid = false;
   }
@@ -1711,9 +1711,7 @@ void RefCpu::store_data() {
   if (wstrb & 0b1000)
     mask |= 0xFF000000;
 
-  if (state.store) {
-    store_word(p_addr, (mask & wdata) | (~mask & old_data));
-  }
+  store_word(p_addr, (mask & wdata) | (~mask & old_data));
 
   if (p_addr == UART_ADDR_BASE) {
     char temp;
@@ -1743,7 +1741,7 @@ void RefCpu::store_data() {
   }
 
   state.store_data = state.store_data << offset * 8;
-  state.store_strb = state.store_strb << offset * 8;
+  state.store_strb = wstrb;
 }
 
 bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
-- 
2.43.0


From 1ddf5da95567d9196b1dc9bc9a4fe36382b4d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:56 +0000
Subject: [PATCH 13/36] fix: trap on undefined FP encodings in the reference
 model

An undefined FP encoding left the PC in place or wrote zero to the destination
instead of raising an illegal-instruction exception.
---
 diff/ref.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index bf861c6..a604430 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -707,6 +707,7 @@ void RefCpu::RV32Zfinx() {
     break; // RMM
   default:
     illegal_exception = true;
+    exception(Instruction);
     return;
   }
 
@@ -744,6 +745,7 @@ void RefCpu::RV32Zfinx() {
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
         illegal_exception = true;
+        exception(Instruction);
         return;
       }
       f_res = f32_sqrt(f_rs1);
@@ -802,6 +804,7 @@ void RefCpu::RV32Zfinx() {
         f_res = ui32_to_f32(val_rs1);
       else {
         illegal_exception = true;
+        exception(Instruction);
         return;
       }
       i_res = from_f32(f_res);
@@ -830,6 +833,7 @@ void RefCpu::RV32Zfinx() {
       break;
     default:
       illegal_exception = true;
+      exception(Instruction);
       return;
     }
     break;
@@ -869,6 +873,7 @@ void RefCpu::RV32Zfinx() {
 
   default:
     illegal_exception = true;
+    exception(Instruction);
     return;
   }
 
@@ -876,6 +881,10 @@ void RefCpu::RV32Zfinx() {
   // state.csr[CSR_FCSR] |= softfloat_exceptionFlags;
 
 skip_flags_update:
+  if (illegal_exception) {
+    exception(Instruction);
+    return;
+  }
   // 5. 写回结果
   if (write_rd && rd != 0) {
     state.gpr[rd] = i_res;
-- 
2.43.0


From 2d466594e7753ce29b2121f69f0c0e39b6035e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:04 +0000
Subject: [PATCH 14/36] fix: avoid shifting by 32 in rotates by zero

rol, ror and rori with a zero amount shifted a 32-bit value by 32, which is
undefined in C++.
---
 back-end/Exu/include/Fu.h | 4 ++--
 diff/ref.cpp              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/back-end/Exu/include/Fu.h b/back-end/Exu/include/Fu.h
index 65ef931..be972ab 100644
--- a/back-end/Exu/include/Fu.h
+++ b/back-end/Exu/include/Fu.h
@@ -52,7 +52,7 @@ protected:
         if (inst.func7 == 0) // sll
           inst.result = operand1 << shift;
         else if (inst.func7 == 0x30 && !inst.src2_is_imm) // rol (Zbb)
-          inst.result = (operand1 << shift) | (operand1 >> (32 - shift));
+          inst.result = (operand1 << shift) | (operand1 >> ((32 - shift) & 31));
         else if (inst.func7 == 0x24) // bclr (Zbs)
           inst.result = operand1 & ~(1u << shift);
         else if (inst.func7 == 0x14) // bset (Zbs)
@@ -140,7 +140,7 @@ protected:
                  (inst.func7 != 0x34) && (inst.func7 != 0x14)) // srai
           inst.result = (int32_t)operand1 >> shift;
         else if (inst.func7 == 0x30) { // ror (Zbb)
-          inst.result = (operand1 >> shift) | (operand1 << (32 - shift));
+          inst.result = (operand1 >> shift) | (operand1 << ((32 - shift) & 31));
         } else if (inst.func7 == 0x24) { // bext (Zbs)
           inst.result = (operand1 >> shift) & 1;
         } else if (inst.func7 == 0x34 && inst.src2_is_imm) { // rev8 (Zbb)
diff --git a/diff/ref.cpp b/diff/ref.cpp
index a604430..5487ace 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1403,7 +1403,7 @@ void RefCpu::RV32IM() {
         state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shamt;
       } else if (funct7 == 0x30) { // rori (Zbb)
         state.gpr[reg_d_index] =
-            (reg_rdata1 >> shamt) | (reg_rdata1 << (32 - shamt));
+            (reg_rdata1 >> shamt) | (reg_rdata1 << ((32 - shamt) & 31));
       } else if (funct7 == 0x24) { // bexti (Zbs)
         state.gpr[reg_d_index] = (reg_rdata1 >> shamt) & 1;
       } else if (funct7 == 0x34) { // rev8 (Zbb) - shamt must be 24?
@@ -1523,7 +1523,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = reg_rdata1 << shift;
         } else if (funct7 == 0x30) { // rol (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 << shift) | (reg_rdata1 >> (32 - shift));
+              (reg_rdata1 << shift) | (reg_rdata1 >> ((32 - shift) & 31));
         } else if (funct7 == 0x24) { // bclr (Zbs)
           state.gpr[reg_d_index] = reg_rdata1 & ~(1u << shift);
         } else if (funct7 == 0x14) { // bset (Zbs)
@@ -1595,7 +1595,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shift;
         } else if (funct7 == 0x30) { // ror (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 >> shift) | (reg_rdata1 << (32 - shift));
+              (reg_rdata1 >> shift) | (reg_rdata1 << ((32 - shift) & 31));
         } else if (funct7 == 0x24) { // bext (Zbs)
           state.gpr[reg_d_index] = (reg_rdata1 >> shift) & 1;
         } else if (funct7 == 0x05) { // minu (Zbb)
-- 
2.43.0


From 921a43120c5de6ba8ae5bd2d963fbce2e31ce30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:00 +0000
Subject: [PATCH 15/36] fix: do not commit a store that an interrupt replaces

The store queue treated the store at the head of the reorder buffer as
committed when an interrupt was taken in its place, and stopped the run
when its address or data was still missing.
---
 back-end/Lsu/RealLsu.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index d201287..8d8922f 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -1069,6 +1069,10 @@ void RealLsu::comb_stq_commit() {
     if (!is_store(commit_uop)) {
       continue;
     }
+    if (static_cast<bool>(in.rob_bcast->interrupt)) {
+      // 被中断打断的 store 没有真正提交，由 comb_flush 丢弃。
+      continue;
+    }
     int idx = commit_uop.stq_idx;
     if (idx == nxt.stq_commit && nxt.stq[idx].store_state == StoreState::WaitCommit) {
       StqEntry &nxt_entry = nxt.stq[idx];
-- 
2.43.0


From 6a535d295dab1426cea84d0234fb72b4123915fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:05 +0000
Subject: [PATCH 16/36] fix: discard in-flight mul/div/FP work on a pipeline
 flush

The all-ones flush mask was compared before narrowing to the branch mask
width, so with 16 branch tags it never matched and multi-cycle operations
older than every branch survived a trap and wrote back afterwards.
---
 back-end/Exu/include/AbstractFU.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..8eb361e 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -117,7 +117,8 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask ==
+            static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0))) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +204,8 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask ==
+            static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0)) ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From 6766e3206d37472e9598b4cf5af1a35e8b4be913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:52 +0000
Subject: [PATCH 17/36] fix: keep devices from seeing a store that an interrupt
 replaces

A device store at the head of the reorder buffer took effect when an
interrupt was taken in its place and again when it was executed after the
handler returned.
---
 rv_simu_mmu_v2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..643e875 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -765,7 +765,9 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
     }
   }
 
-  if (inst->tma.mem_commit_is_store && !inst->page_fault_store) {
+  // 被中断打断的 store 不会执行，外设也不能看到它。
+  if (inst->tma.mem_commit_is_store && !inst->page_fault_store &&
+      !static_cast<bool>(back->rob->out.rob_bcast->interrupt)) {
     StqEntry e = back->lsu->get_stq_entry(inst->stq_idx, inst->stq_flag);
     const bool store_suppressed = static_cast<bool>(e.suppress_write) &&
                                   e.rob_idx == inst->rob_idx &&
-- 
2.43.0


From bec140c8825387001c19576c6b24e25f3d74fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:45 +0000
Subject: [PATCH 18/36] fix: keep the fault address of an AMO that already
 page-faulted

A later writeback of the load half replaced the recorded virtual address with
the physical one, so mtval/stval was wrong under slow memory.
---
 back-end/Rob.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..91853c9 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -580,8 +580,11 @@ void Rob::comb_complete() {
 
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
-          // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          // 保存物理地址，用于 Commit 时的对齐检查；AMO 的 STA 若已缺页，
+          // diag_val 保存的是缺页地址，不能被覆盖。
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
@@ -598,7 +601,9 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_STA_COUNT; k++) {
         if (i == IQ_STA_PORT_BASE + k) {
           // Keep resolved store address in ROB for commit-time policy checks.
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
             entry_1[bank_idx][line_idx].uop.page_fault_load |=
-- 
2.43.0


From 8edc05eaf99452119f5c9b95da841760137d2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:45 +0000
Subject: [PATCH 19/36] fix: retry an I-cache probe that finds the data cache
 busy

A probe of the data cache on behalf of an instruction fetch was answered with
a miss when it lost arbitration or when the line was still being filled, so
code written just before fence.i could be fetched stale from memory. Such a
probe is now issued again. A probe answer also no longer drops a pending page
table walker wakeup.
---
 MemSubSystem/MemRouteBlock.cpp       | 37 +++++++++++++++++++++-------
 MemSubSystem/RealDcache.cpp          |  8 ++++--
 MemSubSystem/include/MemRouteBlock.h |  5 ++++
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..56bad7d 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -40,6 +40,9 @@ void MemRouteBlock::comb_response() {
     out.lsu_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].replay = ReplayType::CONFLICT; // Set replay type as needed
 
     Owner owner = cur.issued_tags.owner;
+    // A new ICache request means that the previous probe was abandoned.
+    const bool icache_owner =
+        owner == Owner::ICACHE && !in.icache_req->req_valid;
     ReplayType replay = in.dcache_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].replay;
 #if !BSD_CONFIG
     if (ctx != nullptr && owner_is_ptw(owner) && replay != ReplayType::HIT) {
@@ -48,7 +51,7 @@ void MemRouteBlock::comb_response() {
 #endif
     if (replay == ReplayType::HIT) {
       if (owner == Owner::ICACHE) {
-        out.icache_resp->resp_valid = true;
+        out.icache_resp->resp_valid = icache_owner;
         out.icache_resp->resp_miss = false;
         out.icache_resp->resp_data = in.dcache_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].data;
       } else {
@@ -60,22 +63,29 @@ void MemRouteBlock::comb_response() {
         out.ptw_events->req_id = cur.issued_tags.req_id;
       }
     } else if (replay == ReplayType::CONFLICT) {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
+      if (icache_owner) {
+        nxt.icache_retry_valid = true;
+        nxt.icache_retry_addr = cur.issued_tags.req_addr;
+      }
       out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
       out.wakeup->itlb = (owner == Owner::PTW_ITLB);
       out.wakeup->walk = (owner == Owner::PTW_WALK);
     } else {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
+      if (icache_owner && replay == ReplayType::MSHR_HIT) {
+        nxt.icache_retry_valid = true;
+        nxt.icache_retry_addr = cur.issued_tags.req_addr;
+      } else {
+        out.icache_resp->resp_valid = icache_owner;
+        out.icache_resp->resp_miss = icache_owner;
+      }
       if (in.dcache_resp->mshr_fill) {
         out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
         out.wakeup->walk = (owner == Owner::PTW_WALK);
       } else {
-        nxt.ptw_wait.dtlb = (owner == Owner::PTW_DTLB);
-        nxt.ptw_wait.itlb = (owner == Owner::PTW_ITLB);
-        nxt.ptw_wait.walk = (owner == Owner::PTW_WALK);
+        nxt.ptw_wait.dtlb |= (owner == Owner::PTW_DTLB);
+        nxt.ptw_wait.itlb |= (owner == Owner::PTW_ITLB);
+        nxt.ptw_wait.walk |= (owner == Owner::PTW_WALK);
       }
     }
   }
@@ -95,9 +105,18 @@ void MemRouteBlock::comb_request() {
 
   Owner ptw_owner = Owner::NONE;
   uint32_t ptw_addr = 0;
-  if (in.icache_req->req_valid && cur.issued_tags.owner != Owner::ICACHE) {
+  nxt.icache_retry_issued = false;
+  if (in.icache_req->req_valid &&
+      (cur.issued_tags.owner != Owner::ICACHE || cur.icache_retry_issued)) {
     ptw_owner = Owner::ICACHE;
     ptw_addr = in.icache_req->req_addr;
+    nxt.icache_retry_valid = false;
+  } else if (cur.icache_retry_valid &&
+             cur.issued_tags.owner != Owner::ICACHE) {
+    ptw_owner = Owner::ICACHE;
+    ptw_addr = cur.icache_retry_addr;
+    nxt.icache_retry_valid = false;
+    nxt.icache_retry_issued = true;
   } else if (in.ptw_walk_req->valid && cur.issued_tags.owner != Owner::PTW_WALK) {
     ptw_owner = Owner::PTW_WALK;
     ptw_addr = in.ptw_walk_req->addr;
diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..9f6af69 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -436,9 +436,13 @@ void RealDcache::stage2_comb() {
         else {
             if(s1s2_cur.icache_req==i){
                 // ICache coherent probes are lookup-only: report miss to the
-                // front-end route block without allocating an MSHR.
+                // front-end route block without allocating an MSHR. A line
+                // that is still being filled may hold merged stores, so the
+                // probe has to look again after the fill.
                 resp.valid = true;
-                resp.replay = ReplayType::CONFLICT;
+                resp.replay = in.mshr2dcache->find_resp[i].valid
+                                  ? ReplayType::MSHR_HIT
+                                  : ReplayType::MSHR_FULL;
                 resp.req_id = slot.req_id;
                 continue;
             }
diff --git a/MemSubSystem/include/MemRouteBlock.h b/MemSubSystem/include/MemRouteBlock.h
index b28fa4e..4b90672 100644
--- a/MemSubSystem/include/MemRouteBlock.h
+++ b/MemSubSystem/include/MemRouteBlock.h
@@ -84,6 +84,11 @@ struct MemRouteBlockState {
   wire<1> lsu_replay_valid;
   uint32_t lsu_replay_req_id;
 
+  // ICache probe without a final answer yet; issued again by the route block.
+  wire<1> icache_retry_valid;
+  wire<32> icache_retry_addr;
+  wire<1> icache_retry_issued;
+
   uint32_t next_req_id;
 };
 
-- 
2.43.0


From 27a955962e8298163bae91def46d8e7f3332b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:45 +0000
Subject: [PATCH 20/36] fix: stop when only the core performed a store

The lock-step checker compared stores only when the reference model stored.
A store that only the core performed went unnoticed.
---
 diff/diff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff/diff.cpp b/diff/diff.cpp
index d0c1d54..77213a9 100644
--- a/diff/diff.cpp
+++ b/diff/diff.cpp
@@ -232,10 +232,10 @@ static void checkregs() {
       goto fault;
   }
 
-  if (ref_state.store) {
-    if (dut_cpu.store != ref_state.store)
-      goto fault;
+  if (dut_cpu.store != ref_state.store)
+    goto fault;
 
+  if (ref_state.store) {
     if (dut_cpu.store_data != ref_state.store_data)
       goto fault;
 
-- 
2.43.0


From e0f7a46672eef08e877fcb8ad038040d8ea99520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:49 +0000
Subject: [PATCH 21/36] fix: refuse unusable images and checkpoints in release
 builds

The checks on the image and checkpoint files were assertions, which NDEBUG
removes. A missing, oversized or truncated file was then run, overflowed the
RAM buffer or looped for ever. Report the error and exit in every build.
---
 back-end/BackTop.cpp | 61 ++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 03a44bd..9a53e0c 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -412,6 +412,14 @@ void BackTop::seq() {
   lsu->seq();
 }
 
+// 输入文件的检查不能随 NDEBUG 关闭：失败时报错并以非零状态退出。
+static void require_input(bool ok, const char *msg) {
+  if (!ok) {
+    std::cerr << msg << std::endl;
+    exit(1);
+  }
+}
+
 // --- 辅助函数：简化 zlib 读写 POD 类型 ---
 template <typename T> void gz_write_pod(gzFile file, const T &data) {
   if (gzwrite(file, &data, sizeof(T)) != sizeof(T)) {
@@ -420,9 +428,8 @@ template <typename T> void gz_write_pod(gzFile file, const T &data) {
 }
 
 template <typename T> void gz_read_pod(gzFile file, T &data) {
-  if (gzread(file, &data, sizeof(T)) != sizeof(T)) {
-    Assert(0 && "Error reading data from gzip file.");
-  }
+  require_input(gzread(file, &data, sizeof(T)) == static_cast<int>(sizeof(T)),
+                "Error reading data from gzip file.");
 }
 
 namespace {
@@ -457,12 +464,10 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
     const unsigned int chunk = static_cast<unsigned int>(
         remain > kGzChunkSize ? kGzChunkSize : remain);
     const int read_bytes = gzread(file, dst, chunk);
-    if (read_bytes < 0) {
-      Assert(0 && "Error: gzread failed during checkpoint restore.");
-    }
-    if (read_bytes == 0) {
-      Assert(0 && "Error: Unexpected EOF during checkpoint restore.");
-    }
+    require_input(read_bytes >= 0,
+                  "Error: gzread failed during checkpoint restore.");
+    require_input(read_bytes != 0,
+                  "Error: Unexpected EOF during checkpoint restore.");
     dst += read_bytes;
     remain -= static_cast<uint64_t>(read_bytes);
   }
@@ -472,20 +477,17 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
 
 void BackTop::load_image(const std::string &filename) {
   std::ifstream inst_data(filename, std::ios::binary);
-  if (!inst_data.is_open()) {
-    Assert(0 && "Error: Image does not exist");
-  }
+  require_input(inst_data.is_open(), "Error: Image does not exist");
 
   inst_data.seekg(0, std::ios::end);
   std::streamsize size = inst_data.tellg();
   inst_data.seekg(0, std::ios::beg);
 
-  if (size < 0 || static_cast<uint64_t>(size) > RAM_SIZE) {
-    Assert(0 && "Image too large for configured RAM window.");
-  }
-  if (!inst_data.read(reinterpret_cast<char *>(pmem_ram_ptr()), size)) {
-    Assert(0 && "读取文件失败！");
-  }
+  require_input(size >= 0 && static_cast<uint64_t>(size) <= RAM_SIZE,
+                "Image too large for configured RAM window.");
+  require_input(static_cast<bool>(inst_data.read(
+                    reinterpret_cast<char *>(pmem_ram_ptr()), size)),
+                "读取文件失败！");
 
   inst_data.close();
 
@@ -556,9 +558,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
     file = gzopen(final_name.c_str(), "rb");
   }
 
-  if (!file) {
-    Assert(0 && "Error: Could not open checkpoint file");
-  }
+  require_input(file != nullptr, "Error: Could not open checkpoint file");
 
   // 与 SimpleSim/save_checkpoint 写入格式保持一致，确保反序列化对齐。
   // 注意：reserve_* 当前在本模拟器中暂未使用，但必须读取以避免流错位。
@@ -581,14 +581,15 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 1. 恢复 header + 状态
   gz_read_pod(file, ckpt_header);
-  Assert(ckpt_header.magic == kCkptMagic &&
-         "Error: Invalid checkpoint magic.");
-  Assert(ckpt_header.format_ver == kCkptFormatVersion &&
-         "Error: Unsupported checkpoint version.");
-  Assert(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes) &&
-         "Error: Checkpoint RAM size mismatch.");
-  Assert(ckpt_header.io_range_count == kExpectedIoLayout.size() &&
-         "Error: Checkpoint IO layout count mismatch.");
+  require_input(ckpt_header.magic == kCkptMagic,
+                "Error: Invalid checkpoint magic.");
+  require_input(ckpt_header.format_ver == kCkptFormatVersion,
+                "Error: Unsupported checkpoint version.");
+  require_input(ckpt_header.ram_size ==
+                    static_cast<uint32_t>(kCkptSimpointRamBytes),
+                "Error: Checkpoint RAM size mismatch.");
+  require_input(ckpt_header.io_range_count == kExpectedIoLayout.size(),
+                "Error: Checkpoint IO layout count mismatch.");
 
   gz_read_pod(file, ckpt_state);
   gz_read_pod(file, interval_inst_count);
@@ -665,7 +666,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
         is_timer_range ? (range.base == expected.base)
                        : (range.base == expected.base &&
                           range.size == expected.size);
-    Assert(layout_match && "Error: Checkpoint IO layout mismatch.");
+    require_input(layout_match, "Error: Checkpoint IO layout mismatch.");
 
     std::vector<uint8_t> io_bytes(range.size, 0);
     gz_read_exact(file, io_bytes.data(), io_bytes.size());
-- 
2.43.0


From 34c41a2e5b9024dfc6996c1bd9e2fe620e292025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:03 +0000
Subject: [PATCH 22/36] fix: refuse checkpoints with damaged data or impossible
 header fields

A flipped bit in the compressed data was not noticed because the reader
stopped before the checksum. Privilege level 2 and a timer range larger than
its page were accepted.
---
 back-end/BackTop.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 9a53e0c..2e8d0e4 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -437,6 +437,8 @@ constexpr uint64_t kCkptSimpointRamBytes = RAM_SIZE;
 constexpr uint64_t kGzChunkSize = 1ULL * 1024 * 1024 * 1024;
 constexpr uint32_t kCkptMagic = 0x006d6552u; // "Rem\0" little-endian
 constexpr uint16_t kCkptFormatVersion = 2u;
+// Timer range sizes differ between checkpoint writers; never above one page.
+constexpr uint32_t kMaxTimerRangeSize = 0x1000u;
 
 typedef struct CkptHeader {
   uint32_t magic;
@@ -590,6 +592,10 @@ void BackTop::restore_checkpoint(const std::string &filename) {
                 "Error: Checkpoint RAM size mismatch.");
   require_input(ckpt_header.io_range_count == kExpectedIoLayout.size(),
                 "Error: Checkpoint IO layout count mismatch.");
+  require_input(ckpt_header.privilege_mode == RISCV_MODE_U ||
+                    ckpt_header.privilege_mode == RISCV_MODE_S ||
+                    ckpt_header.privilege_mode == RISCV_MODE_M,
+                "Error: Invalid checkpoint privilege mode.");
 
   gz_read_pod(file, ckpt_state);
   gz_read_pod(file, interval_inst_count);
@@ -663,7 +669,8 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
     const bool is_timer_range = (i == kExpectedIoLayout.size() - 1);
     const bool layout_match =
-        is_timer_range ? (range.base == expected.base)
+        is_timer_range ? (range.base == expected.base &&
+                          range.size <= kMaxTimerRangeSize)
                        : (range.base == expected.base &&
                           range.size == expected.size);
     require_input(layout_match, "Error: Checkpoint IO layout mismatch.");
@@ -682,7 +689,11 @@ void BackTop::restore_checkpoint(const std::string &filename) {
     }
   }
 
-  gzclose(file);
+  // Reading on to the end makes zlib verify length and checksum.
+  uint8_t extra_byte = 0;
+  const bool at_end = gzread(file, &extra_byte, 1) == 0;
+  const bool intact = gzclose(file) == Z_OK;
+  require_input(at_end && intact, "Error: Checkpoint data is damaged.");
   std::cout << "Checkpoint restored from " << final_name << std::endl;
 
   init_diff_ckpt(state, restored_privilege);
-- 
2.43.0


From 13ff6e3b78a3491f3e79dcaa175eca01dc0e73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:21 +0000
Subject: [PATCH 23/36] fix: refuse option values that are not plain numbers

A negative or partly numeric count was accepted: -f -1 fast-forwarded 2^64-1
steps and -c 10abc stopped after 10.
---
 main.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index c803f04..1158ea6 100644
--- a/main.cpp
+++ b/main.cpp
@@ -7,6 +7,8 @@
 #include <cstdint>
 #include <cstdlib>
 #include <getopt.h>
+#include <stdexcept>
+#include <string>
 #include <unistd.h>
 #include "RISCV.h"
 
@@ -68,6 +70,16 @@ void print_help(char *argv[]) {
             << std::endl;
 }
 
+// 只接受纯十进制数字；"-1"、"10abc"、"0x10" 等均视为非法参数。
+static uint64_t parse_count(const char *arg) {
+  const std::string text(arg);
+  if (text.empty() ||
+      text.find_first_not_of("0123456789") != std::string::npos) {
+    throw std::invalid_argument(text);
+  }
+  return std::stoull(text);
+}
+
 long long sim_time = 0;
 SimCpu cpu;
 
@@ -169,7 +181,7 @@ int main(int argc, char *argv[]) {
     }
     case 'f': {
       try {
-        config.fast_forward_count = std::stoull(optarg);
+        config.fast_forward_count = parse_count(optarg);
       } catch (const std::exception &e) {
         std::cerr << "Error: Invalid number for --fast-forward: " << optarg
                   << std::endl;
@@ -185,7 +197,7 @@ int main(int argc, char *argv[]) {
         return 1;
       }
       try {
-        config.ckpt_warmup_target = std::stoull(optarg);
+        config.ckpt_warmup_target = parse_count(optarg);
         config.ckpt_warmup_target_set = true;
       } catch (const std::exception &e) {
         std::cerr << "Error: Invalid number for --warmup: " << optarg
@@ -202,7 +214,7 @@ int main(int argc, char *argv[]) {
         return 1;
       }
       try {
-        config.max_commit_inst = std::stoull(optarg);
+        config.max_commit_inst = parse_count(optarg);
         config.max_commit_inst_set = true;
         if (config.max_commit_inst == 0) {
           std::cerr << "Error: --max-commit must be > 0, got: 0" << std::endl;
-- 
2.43.0


From 899042690716b9f9d1918087dace1f0309fdc555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:21 +0000
Subject: [PATCH 24/36] fix: report the guest's exit code when it ends in the
 reference model

A program that ended while fast-forwarding, or that ran in reference-only
mode, always returned success.
---
 main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.cpp b/main.cpp
index 1158ea6..d8fd5d1 100644
--- a/main.cpp
+++ b/main.cpp
@@ -414,8 +414,9 @@ int main(int argc, char *argv[]) {
     difftest_ref_set_device_effects(false);
     difftest_ref_set_ref_only(false);
 
+    // 程序可能在快进阶段就已结束，退出码同样取自 ref 的寄存器。
+    cpu.back.restore_from_ref();
     if (cpu.ctx.exit_reason == ExitReason::NONE) {
-      cpu.back.restore_from_ref();
 #ifndef CONFIG_BPU
       std::cout << "[Oracle] Synced with ref snapshot before switching to O3."
                 << std::endl;
@@ -463,8 +464,13 @@ int main(int argc, char *argv[]) {
       }
     }
     std::cout << "[Debug] Ref Model Run Completed." << std::endl;
+    uint32_t exit_code = 0;
+    if (cpu.ctx.exit_reason == ExitReason::EBREAK) {
+      cpu.back.restore_from_ref();
+      exit_code = cpu.get_reg(10);
+    }
     pmem_release();
-    return 0;
+    return exit_code;
   }
 
   // 主循环
-- 
2.43.0


From ee977ee8ca0193d43b71a4b5587f0ec8262d991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:52 +0000
Subject: [PATCH 25/36] fix: clear the request ports of a new cache request
 bundle

The bundle sent to the data cache in cycles without a request was left
uninitialised, so the cache read indeterminate valid bits.
---
 back-end/include/IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index a336777..ebf21c9 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1381,7 +1381,7 @@ struct LsuDcacheIO {
   DCacheReqPorts req_ports;
   wire<LSU_LDU_WIDTH+1> icache_req;
 
-  LsuDcacheIO() { icache_req = LSU_LDU_COUNT; }
+  LsuDcacheIO() : req_ports{} { icache_req = LSU_LDU_COUNT; }
 };
 
 struct DcacheLsuIO {
-- 
2.43.0


From 7c73b5d55d2e9fc1be4407d112071bde258c09bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:58:45 +0000
Subject: [PATCH 26/36] fix: carry device registers over when the core takes
 over a run

After fast-forwarding or restoring a checkpoint, the timer compare value,
the copy engine registers and pending device interrupts stayed at their
reset values. The guest then saw spurious timer interrupts or lost a
pending one. Load them from the restored device words.
---
 MemSubSystem/MemSubsystem.cpp          |  4 ++++
 MemSubSystem/include/MemSubsystem.h    |  1 +
 MemSubSystem/include/PeripheralModel.h | 23 +++++++++++++++++++++++
 rv_simu_mmu_v2.cpp                     |  3 +++
 4 files changed, 31 insertions(+)

diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index e6c390b..3bad996 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -773,6 +773,10 @@ void MemSubsystem::on_commit_store(uint32_t paddr, uint32_t data, uint8_t func3)
   peripheral_model_.on_commit_store(paddr, data, func3);
 }
 
+void MemSubsystem::sync_peripherals_from_backing() {
+  peripheral_model_.sync_from_backing();
+}
+
 void MemSubsystem::sync_mmio_devices_from_backing() {
 #if AXI_KIT_RUNTIME_ENABLED
   if (memory != nullptr && axi_kit_runtime != nullptr) {
diff --git a/MemSubSystem/include/MemSubsystem.h b/MemSubSystem/include/MemSubsystem.h
index b25fba2..f969ab5 100644
--- a/MemSubSystem/include/MemSubsystem.h
+++ b/MemSubSystem/include/MemSubsystem.h
@@ -76,6 +76,7 @@ public:
   void dcache_fast_seq(bool sample_mshr_perf = false);
   void on_commit_store(uint32_t paddr, uint32_t data, uint8_t func3);
   void sync_mmio_devices_from_backing();
+  void sync_peripherals_from_backing();
   void set_ram_sync_hook(void (*hook)(uint32_t paddr, size_t size_bytes)) {
     peripheral_model_.set_ram_sync_hook(hook);
   }
diff --git a/MemSubSystem/include/PeripheralModel.h b/MemSubSystem/include/PeripheralModel.h
index 86c5217..e50125c 100644
--- a/MemSubSystem/include/PeripheralModel.h
+++ b/MemSubSystem/include/PeripheralModel.h
@@ -213,6 +213,29 @@ public:
     update_timer_irq();
     update_external_irq();
   }
+
+  // FAST/CKPT 切换：设备寄存器以 backing memory 中的字为准恢复。
+  void sync_from_backing() {
+    const auto word64 = [](uint32_t low_addr, uint32_t high_addr) {
+      return (static_cast<uint64_t>(pmem_read(high_addr)) << 32) |
+             static_cast<uint64_t>(pmem_read(low_addr));
+    };
+    timer_offset_ = word64(OPENSBI_TIMER_LOW_ADDR, OPENSBI_TIMER_HIGH_ADDR) -
+                    current_sim_time_u64();
+    timer_cmp_ =
+        word64(OPENSBI_TIMERCMP_LOW_ADDR, OPENSBI_TIMERCMP_HIGH_ADDR);
+    dma_src_ = pmem_read(DMA_SRC_ADDR);
+    dma_dst_ = pmem_read(DMA_DST_ADDR);
+    dma_len_ = pmem_read(DMA_LEN_ADDR);
+    dma_ctrl_ = pmem_read(DMA_CTRL_ADDR) & kDmaCtrlIrqEn;
+    dma_status_ = pmem_read(DMA_STATUS_ADDR);
+    const uint32_t claim_id = pmem_read(PLIC_CLAIM_ADDR);
+    uart_irq_pending_ = claim_id == UART_PLIC_IRQ_ID;
+    dma_irq_pending_ = claim_id == DMA_PLIC_IRQ_ID;
+    update_timer_irq();
+    update_external_irq();
+  }
+
   bool timer_irq_level() const { return effective_timer_value() >= timer_cmp_; }
 
 private:
diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 643e875..2624792 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -1011,6 +1011,9 @@ void SimCpu::restore_pc(uint32_t pc) {
   back.out.mispred = true;
   back.out.redirect_pc = pc;
 
+  // 定时器、DMA、中断挂起等设备状态随恢复的内存一起切换
+  mem_subsystem.sync_peripherals_from_backing();
+
   // 刷新 CSR 状态输出 (SATP, Privilege) 以确保 MMU 模式正确
   back.comb_csr_status();
 }
-- 
2.43.0


From bc3703bc082d3da329f9769ca33516aa2bd130d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:58:34 +0000
Subject: [PATCH 27/36] fix: size the load-miss mask by the reorder buffer

The mask of missed loads was a 64-bit integer shifted by the reorder buffer
index. Profiles with more than 64 entries shifted by too much, so the stall
statistics named the wrong entries. Use a bitset of the buffer's size.
---
 back-end/Lsu/RealLsu.cpp           | 3 +--
 back-end/Lsu/RealLsuPerf.cpp       | 6 +++---
 back-end/Lsu/include/RealLsuPerf.h | 3 ++-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 8d8922f..e921fc7 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -209,8 +209,7 @@ void RealLsu::comb_lsu2rob() {
   *out.lsu2rob = {};
 
   out.lsu2rob->committed_store_pending = cur.stq_commit_count != 0;
-  uint64_t miss_mask = lsu_perf::load_miss_mask(cur);
-  out.lsu2rob->tma.miss_mask = miss_mask;
+  out.lsu2rob->tma.miss_mask = lsu_perf::load_miss_mask(cur);
 }
 
 void RealLsu::comb_lsu2dis() {
diff --git a/back-end/Lsu/RealLsuPerf.cpp b/back-end/Lsu/RealLsuPerf.cpp
index 2b7cf89..60d8ac9 100644
--- a/back-end/Lsu/RealLsuPerf.cpp
+++ b/back-end/Lsu/RealLsuPerf.cpp
@@ -151,13 +151,13 @@ void record_mem_inst_latency(SimContext *ctx, bool started,
 
 } // namespace
 
-uint64_t load_miss_mask(const LsuState &state) {
-  uint64_t miss_mask = 0;
+std::bitset<ROB_NUM> load_miss_mask(const LsuState &state) {
+  std::bitset<ROB_NUM> miss_mask;
 #if !BSD_CONFIG
   for (int i = 0; i < LDQ_SIZE; i++) {
     if (state.ldq[i].cache_miss == true &&
         state.ldq[i].load_state != LoadState::Empty) {
-      miss_mask |= (1ULL << state.ldq[i].rob_idx);
+      miss_mask.set(state.ldq[i].rob_idx);
     }
   }
 #else
diff --git a/back-end/Lsu/include/RealLsuPerf.h b/back-end/Lsu/include/RealLsuPerf.h
index 97e6225..6fa5fbb 100644
--- a/back-end/Lsu/include/RealLsuPerf.h
+++ b/back-end/Lsu/include/RealLsuPerf.h
@@ -1,11 +1,12 @@
 #pragma once
 
 #include "RealLsu.h"
+#include <bitset>
 #include <cstdint>
 
 namespace lsu_perf {
 
-uint64_t load_miss_mask(const LsuState &state);
+std::bitset<ROB_NUM> load_miss_mask(const LsuState &state);
 void sample_queue_occupancy(SimContext *ctx, const LsuState &state,
                             uint32_t ldq_count);
 
-- 
2.43.0


From 84ec3a962b37dcdd6dff61051cadb6f4fbc317ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:12:38 +0000
Subject: [PATCH 28/36] fix: leave instructions replaced by an interrupt out of
 the statistics

The instruction an interrupt replaces is executed again later.  It was
counted as committed (and as a load, store or branch) both times.
---
 back-end/Ren.cpp   | 8 +++++---
 rv_simu_mmu_v2.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/back-end/Ren.cpp b/back-end/Ren.cpp
index 2292dc8..8611021 100644
--- a/back-end/Ren.cpp
+++ b/back-end/Ren.cpp
@@ -269,11 +269,13 @@ void Ren::comb_fire() {
   for (int i = 0; i < COMMIT_WIDTH; i++) {
     if (in.rob_commit->commit_entry[i].valid) {
       const auto &commit_uop = in.rob_commit->commit_entry[i].uop;
-      ctx->perf.commit_num++;
-      if (is_load(commit_uop)) {
+      // 被中断取代的指令之后会重新执行，不计入提交统计。
+      const bool retired = !in.rob_bcast->interrupt;
+      ctx->perf.commit_num += retired ? 1 : 0;
+      if (retired && is_load(commit_uop)) {
         ctx->perf.commit_load_num++;
       }
-      if (is_store(commit_uop)) {
+      if (retired && is_store(commit_uop)) {
         ctx->perf.commit_store_num++;
       }
 
diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 2624792..173274a 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -725,17 +725,19 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
   Assert(commit_slot >= 0 && commit_slot < COMMIT_WIDTH &&
          "SimCpu::commit_sync: invalid commit slot");
   const auto &ftq_info = back->ftq_commit_info.resp[commit_slot];
-  if (inst->type == JALR) {
+  // 被中断取代的分支之后会重新执行，不计入分支统计。
+  const bool retired = !back->rob->out.rob_bcast->interrupt;
+  if (retired && inst->type == JALR) {
     if (inst->is_ret) {
       this->ctx.perf.ret_br_num++;
     } else {
       this->ctx.perf.jalr_br_num++;
     }
-  } else if (inst->type == BR) {
+  } else if (retired && inst->type == BR) {
     this->ctx.perf.cond_br_num++;
   }
 
-  if (inst->mispred) {
+  if (retired && inst->mispred) {
     if (inst->type == JALR) {
       if (inst->is_ret) {
         this->ctx.perf.ret_mispred_num++;
-- 
2.43.0


From e9534ca9c89893574b1a9674853e34664e3a75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:13:26 +0000
Subject: [PATCH 29/36] fix: let the warm-up of a checkpoint run longer than
 the measurement

The commit limit was also applied while warming up, so a run whose warm-up
is longer than its limit ended before anything was measured.
---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index d8fd5d1..594c904 100644
--- a/main.cpp
+++ b/main.cpp
@@ -491,7 +491,9 @@ int main(int argc, char *argv[]) {
         return 130;
       }
 
-    if (cpu.ctx.perf.commit_num >= config.max_commit_inst) {
+    // CKPT 模式的上限只针对 warmup 之后的测量阶段
+    const bool warming = cpu.ctx.is_ckpt && !cpu.ctx.perf.perf_start;
+    if (!warming && cpu.ctx.perf.commit_num >= config.max_commit_inst) {
         cpu.ctx.exit_reason = ExitReason::SIMPOINT;
         std::cout << "[sim] Reached MAX_COMMIT_INST=" << std::dec
                   << config.max_commit_inst << std::endl;
-- 
2.43.0


From 8483039377ca061b84a89b16f15eaf5ca368b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:42:37 +0000
Subject: [PATCH 30/36] fix: let loads see stores merged into a fill that waits
 for write-back

A line fill waits in the data cache while the write-back queue is full.
Stores to that line were merged only into the waiting copy, so a load
answered from the fill request meanwhile got the old data.
---
 MemSubSystem/RealDcache.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 9f6af69..87686ab 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -517,6 +517,13 @@ void RealDcache::stage2_comb() {
                 fill_req_merge_wires[i].word_off = f.word_off;
                 fill_req_merge_wires[i].data = slot.data;
                 fill_req_merge_wires[i].strb = slot.strb;
+                // The fill may wait here for a free writeback entry. Loads that are
+                // answered from the fill request in the meantime must see the store.
+                out.dcache2mshr->mshr_req[iidx].valid = true;
+                out.dcache2mshr->mshr_req[iidx].addr = slot.addr;
+                out.dcache2mshr->mshr_req[iidx].is_store = true;
+                out.dcache2mshr->mshr_req[iidx].data = slot.data;
+                out.dcache2mshr->mshr_req[iidx].strb = slot.strb;
             }
 
             resp.valid  = true;
-- 
2.43.0


From c0e9e2caa50da9225866f4277b20b7d7d56cee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:48 +0000
Subject: [PATCH 31/36] fix: detect store misses in a two-way data cache

The way index used to mark a miss did not fit in one bit, so with two ways
every store was taken for a hit.
---
 MemSubSystem/RealDcache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 87686ab..a3664c3 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -531,7 +531,7 @@ void RealDcache::stage2_comb() {
             resp.req_id = slot.req_id;
             continue;
         }
-        wire<DCACHE_WAY_BITS> hit_way = DCACHE_WAYS_NUM;
+        wire<DCACHE_WAY_BITS + 1> hit_way = DCACHE_WAYS_NUM;
         for (int w = 0; w < DCACHE_WAYS_NUM; w++) {
             if (in.dcachelinereadresp[iidx]->valid[w] && in.dcachelinereadresp[iidx]->tag[w] == tag_expected) {
                 hit_way = w;
-- 
2.43.0


From 546dda72e71bce7a45300419aad9c20ae540a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:30:36 +0000
Subject: [PATCH 32/36] fix: keep a store merged into an arriving fill until
 the fill is written

A store that waited for a miss register is merged into the fill of its line
when the data arrives. If that fill then had to wait for a free write-back
entry, it was rebuilt without the store and the store was lost.
---
 MemSubSystem/MSHR.cpp         | 15 +++++++++++++++
 MemSubSystem/MemSubsystem.cpp |  2 ++
 MemSubSystem/include/MSHR.h   |  2 ++
 3 files changed, 19 insertions(+)

diff --git a/MemSubSystem/MSHR.cpp b/MemSubSystem/MSHR.cpp
index 8dfa60a..281ab39 100644
--- a/MemSubSystem/MSHR.cpp
+++ b/MemSubSystem/MSHR.cpp
@@ -221,6 +221,21 @@ void MSHR::comb_inputs_dcache()
     }
 
 }
+void MSHR::merge_store(uint32_t addr, uint32_t data, uint8_t strb)
+{
+    const AddrFields f = decode(addr);
+    const int entry_idx = find_entry_idx(nxt, get_addr(f.set_idx, f.tag, 0));
+    if (entry_idx < 0) {
+        return;
+    }
+    MSHRReq req{};
+    req.valid = true;
+    req.is_store = true;
+    req.addr = addr;
+    req.data = data;
+    req.strb = strb;
+    merge_store_into_entry(nxt.mshr_entries[entry_idx], req);
+}
 void MSHR::comb_inputs_axi()
 {
     axi_resp_accepted_this_cycle = false;
diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index 3bad996..e4f2ba5 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -919,6 +919,8 @@ void MemSubsystem::forward_pending_response_from_fill() {
     const AddrFields f = decode(meta.addr);
     apply_strobe(fill.data[f.word_off], meta.data, meta.strb);
     fill.dirty = true;
+    // The fill may have to wait, and is then built again from its entry.
+    mshr_.merge_store(meta.addr, meta.data, meta.strb);
     resp.replay = ReplayType::HIT;
 #if !BSD_CONFIG
     if (ctx != nullptr) {
diff --git a/MemSubSystem/include/MSHR.h b/MemSubSystem/include/MSHR.h
index 5c088c6..959fb9c 100644
--- a/MemSubSystem/include/MSHR.h
+++ b/MemSubSystem/include/MSHR.h
@@ -87,6 +87,8 @@ public:
     void comb_outputs_dcache();
     void comb_inputs_axi();
     void comb_inputs_dcache();
+    // Keeps a store in the entry of its line until the fill has been written.
+    void merge_store(uint32_t addr, uint32_t data, uint8_t strb);
     void seq(bool sample_perf = true);
 
     MSHRINIO in;
-- 
2.43.0


From 0723b7e286bad9176ca27324d21b3024037d79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:19 +0000
Subject: [PATCH 33/36] fix: keep a reservation when a wrong-path access faults

A page fault on a load or store that is later discarded dropped the
reservation of an earlier LR. The following SC then failed although nothing
had disturbed it. The fault itself does not need to drop it: the trap path
leaves the reservation alone as well.
---
 back-end/Lsu/RealLsu.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index e921fc7..3775b4e 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -384,7 +384,6 @@ void RealLsu::comb_tlb_in_ldq() {
         ldq_entry.diag_val = ldq_entry.v_addr;
         ldq_entry.result = ldq_entry.v_addr;
         ldq_entry.load_state = LoadState::WaitFinish; // 页面错误的load进入WaitFinish状态，由后续逻辑处理异常
-        nxt.lrsc_unit.reserve_valid = false;
       } else if (resp.result == MMUResultType::MISS) {
         ldq_entry.load_state = LoadState::WaitTlbRetry;
       }
@@ -459,7 +458,6 @@ void RealLsu::comb_tlb_in_stq() {
         } else if (resp.result == MMUResultType::PAGE_FAULT) {
           stq_entry.page_fault = true;
           stq_entry.store_state = StoreState::WaitDone; // 进入页面错误状态，由后续逻辑处理异常
-          nxt.lrsc_unit.reserve_valid = false;          // 如果store发生页面错误，取消LRSC保留
         } else if (resp.result == MMUResultType::MISS) {
           stq_entry.store_state = StoreState::WaitTlbRetry; // TLB Miss的store重新进入等待TLB的状态等待重试
         }
-- 
2.43.0


From 7bb94ca7bc60290452ffccd666a256edfe333b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:19 +0000
Subject: [PATCH 34/36] fix: send each bus device read once

The bridge announced that it was free one cycle before the load queue could
see the response. The load queue then repeated the request, so the device saw
every read twice and the next device access received the second response.
---
 MemSubSystem/PeripheralAxi.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MemSubSystem/PeripheralAxi.cpp b/MemSubSystem/PeripheralAxi.cpp
index 506c0cb..a91349d 100644
--- a/MemSubSystem/PeripheralAxi.cpp
+++ b/MemSubSystem/PeripheralAxi.cpp
@@ -169,10 +169,6 @@ void PeripheralAxi::comb_inputs() {
     nxt.resp_valid = true;
     nxt.rdata = extract_read_data(in.read.resp_data[0], cur.func3);
   }
-
-  if (peripheral_resp != nullptr) {
-    peripheral_resp->ready = !nxt.busy;
-  }
 }
 
 void PeripheralAxi::seq() {
-- 
2.43.0


From f304114eddb0e833a3d6d29337abf49bb7a00ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:19 +0000
Subject: [PATCH 35/36] fix: do not cancel a device load that reached the
 device

A device load is sent when it is the oldest unfinished instruction. It was
still cancelled when an interrupt was taken, or when an older finished
instruction of the same ROB line trapped. The device then saw the read twice
and its late response could complete a different access.

Interrupts now wait until such a load commits, and a load behind a trapping
instruction is not sent.
---
 back-end/Lsu/RealLsu.cpp       |  7 +++++++
 back-end/Lsu/include/RealLsu.h |  3 +++
 back-end/Rob.cpp               | 11 ++++++++++-
 back-end/include/IO.h          |  2 ++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 3775b4e..51ff8ef 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -209,6 +209,7 @@ void RealLsu::comb_lsu2rob() {
   *out.lsu2rob = {};
 
   out.lsu2rob->committed_store_pending = cur.stq_commit_count != 0;
+  out.lsu2rob->mmio_load_pending = cur.mmio_load_pending;
   out.lsu2rob->tma.miss_mask = lsu_perf::load_miss_mask(cur);
 }
 
@@ -551,6 +552,8 @@ void RealLsu::comb_stlf() {
           nxt.uncached_unit.addr = entry.p_addr;
           nxt.uncached_unit.func3 = entry.func3;
           nxt.uncached_unit.idx = ldq_idx;
+          nxt.mmio_load_pending = true;
+          nxt.mmio_load_rob_idx = entry.rob_idx;
           lsu_perf::count_mmio_load_issue(ctx);
         } else {
           entry.load_state = LoadState::CheckStlfRetry;
@@ -1063,6 +1066,9 @@ void RealLsu::comb_stq_commit() {
       continue;
     }
     const auto &commit_uop = in.rob_commit->commit_entry[i].uop;
+    if (commit_uop.rob_idx == nxt.mmio_load_rob_idx) {
+      nxt.mmio_load_pending = false;
+    }
     if (!is_store(commit_uop)) {
       continue;
     }
@@ -1156,6 +1162,7 @@ void RealLsu::comb_flush() {
     if (!keep_uncached_store) {
       nxt.uncached_unit.valid = false;
     }
+    nxt.mmio_load_pending = false;
     // nxt.lrsc_unit.reserve_valid = false;
   }
 
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index e32237a..1a11d7e 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -187,6 +187,9 @@ struct LsuState{
   wire<LDQ_IDX_WIDTH+1> wait_dcache_ldq_count;
 
   UncachedUnit uncached_unit;
+  // An MMIO load that was sent to the device and has not committed yet.
+  wire<1> mmio_load_pending;
+  wire<ROB_IDX_WIDTH> mmio_load_rob_idx;
   LrScUnit lrsc_unit;
 
   wire<31-LDQ_IDX_WIDTH> req_gen; // 用于区分不同轮次的重放，防止过期重放条目被误用
diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 91853c9..eccb2c1 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -211,6 +211,10 @@ void Rob::comb_commit() {
         out.rob_bcast->head_incomplete_rob_idx = make_rob_idx(deq_ptr, i);
         break;
       }
+      if (entry[i][deq_ptr].valid && rob_is_flush_inst(entry[i][deq_ptr].uop)) {
+        // Everything younger is about to be flushed.
+        break;
+      }
     }
   }
   const bool front_stall =
@@ -272,7 +276,12 @@ void Rob::comb_commit() {
   };
 
   if (!in.dec_bcast->mispred) {
-    const bool interrupt_pending = in.csr2rob->interrupt_req;
+    // A device load that already reached the device must commit before an
+    // interrupt is taken: cancelling and repeating it would access the device
+    // twice.
+    const bool interrupt_pending =
+        in.csr2rob->interrupt_req &&
+        !(in.lsu2rob != nullptr && in.lsu2rob->mmio_load_pending);
     for (int i = 0; i < ROB_BANK_NUM; i++) {
       if ((entry[i][deq_ptr].valid &&
            (rob_is_flush_inst(entry[i][deq_ptr].uop) ||
diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index ebf21c9..2ed184a 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1416,10 +1416,12 @@ struct LsuRobIO {
     std::bitset<ROB_NUM> miss_mask;
   } tma;
   wire<1> committed_store_pending;
+  wire<1> mmio_load_pending;
 
   LsuRobIO() {
     tma.miss_mask.reset();
     committed_store_pending = 0;
+    mmio_load_pending = 0;
   }
 };
 
-- 
2.43.0


From 366d0c1898d1f17246814dac189ec4cd9ea1e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:51 +0000
Subject: [PATCH 36/36] fix: read instruction lines from memory after the data
 cache was asked

The instruction cache read memory and searched the data cache at the same
time. A dirty line that was written back in between was missed by both: the
read was too early and the search too late, so fence.i could be followed by
old code.
---
 front-end/icache/icache_module.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..60cfd65 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1321,9 +1321,12 @@ void ICache::eval_state_machine() {
   case SWAP_IN:
     {
     DcacheProbeStep dcache_step = step_dcache_probe();
+    // Memory is read only after the DCache probe: a line that leaves the
+    // DCache or its write buffer during the probe must already be in memory
+    // when the read samples it.
     const bool req_ready_seen_now =
-        (mem_axi_state == AXI_IDLE) && io.in.mem_req_ready &&
-        io.regs.miss_txid_valid_r;
+        (mem_axi_state == AXI_IDLE) && dcache_step.done &&
+        io.in.mem_req_ready && io.regs.miss_txid_valid_r;
     if (req_ready_seen_now) {
       io.reg_write.miss_ready_seen_r = true;
     }
@@ -1428,7 +1431,7 @@ void ICache::eval_state_machine() {
               static_cast<uint64_t>(sim_time);
         }
       } else {
-        io.out.mem_req_valid = true;
+        io.out.mem_req_valid = dcache_step.done;
         mem_axi_state_next = AXI_IDLE;
       }
     } else {
-- 
2.43.0

