From 7a04a246aaf89484d8089c0949a1bf8602db3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:13:45 +0000
Subject: [PATCH 01/33] fix: do not forward a load or SC result when the
 destination is x0

The load/store unit marked every load and store-conditional write-back as
producing a register, even when the destination was x0. The operand bypass
then handed the loaded value to instructions reading x0.
---
 back-end/Lsu/RealLsu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..75e6eaf 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -941,7 +941,7 @@ void RealLsu::comb_lsu2exe() {
 
             wb_uop.result = sc_pass ? 0 : 1;
             wb_uop.dest_preg = stq_entry.dest_preg;
-            wb_uop.dest_en = true;
+            wb_uop.dest_en = stq_entry.dest_preg != 0;
           }
           wb_uop.dbg.is_mmio = stq_entry.is_mmio;
 
@@ -1009,7 +1009,7 @@ void RealLsu::comb_lsu2exe() {
             ldq_entry.page_fault ? ldq_entry.diag_val : ldq_entry.result;
         wb_uop.dest_preg = ldq_entry.dest_preg;
         wb_uop.page_fault_load = ldq_entry.page_fault;
-        wb_uop.dest_en = true;
+        wb_uop.dest_en = ldq_entry.dest_preg != 0;
         wb_uop.dbg.is_mmio = ldq_entry.is_mmio;
 
         wb_uop.dbg.difftest_skip = !ldq_entry.page_fault && lsu_is_timer_addr(ldq_entry.p_addr);
-- 
2.43.0


From 89cc8a01caf22022400fbeac38b1cecbb5840564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:13:45 +0000
Subject: [PATCH 02/33] fix: mask the tvec mode bits when entering a
 synchronous trap

With a vectored trap vector a synchronous exception jumped to the raw
register value, so the handler address had its low bit set.
---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..6d1e911 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -194,7 +194,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -247,7 +247,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From aa4d0a786cd45619da3e68ec4692196db9ccb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:13:57 +0000
Subject: [PATCH 03/33] fix: never delegate exceptions raised in machine mode

Exceptions raised in M-mode were sent to S-mode when the delegation bit was
set, and an M-mode ecall reported cause 0 when U-mode ecalls were delegated.
---
 back-end/Exu/Csr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 6d1e911..13ec337 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // 委托只对低于 M 的特权级生效，M 态的异常总在 M 态处理
+  uint32_t medeleg =
+      privilege == RISCV_MODE_M ? 0u : (uint32_t)CSR_RegFile[csr_medeleg];
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
-- 
2.43.0


From 4e92262ab11d54703a4a5362459939ebaf6d9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:15:15 +0000
Subject: [PATCH 04/33] fix: flush multi-cycle units on a full pipeline flush

The all-ones mask was compared after integer promotion, so with a 16-bit
branch mask the comparison never matched. Multiplies and divides not under
any branch survived traps and later overwrote a reused register.
---
 back-end/Exu/include/AbstractFU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..f439736 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -117,7 +117,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask == wire<BR_MASK_WIDTH>(~wire<BR_MASK_WIDTH>(0))) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +203,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask == wire<BR_MASK_WIDTH>(~wire<BR_MASK_WIDTH>(0)) ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From d74781c9392850e202a17603217bdd822ac63939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:15:15 +0000
Subject: [PATCH 05/33] fix: drop a pending CSR write when its instruction is
 flushed

An interrupt taken between execution and retirement of a CSR instruction left
its write pending, and the next CSR instruction to retire applied it.
---
 back-end/Exu/Csr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 13ec337..1939a70 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -394,6 +394,9 @@ void Csr::comb_csr_write() {
       CSR_RegFile_1[cvt_number_to_csr(csr_idx)] = csr_wdata;
     }
 
+    csr_we_1 = false;
+  } else if (in.rob_bcast->flush) {
+    // 已执行但未提交的 CSR 指令被冲刷，其暂存的写必须作废
     csr_we_1 = false;
   }
 }
-- 
2.43.0


From 870c1dbcba65c08778914bbf47c726627ad362f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:17 +0000
Subject: [PATCH 06/33] fix: start a device access only once per request

The LSU keeps driving a device request until it sees the response. A read
that had just completed was therefore issued to the bus a second time.
---
 MemSubSystem/PeripheralAxi.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/PeripheralAxi.cpp b/MemSubSystem/PeripheralAxi.cpp
index 506c0cb..cf9d1ad 100644
--- a/MemSubSystem/PeripheralAxi.cpp
+++ b/MemSubSystem/PeripheralAxi.cpp
@@ -113,7 +113,10 @@ void PeripheralAxi::comb_inputs() {
   }
 
   if (!cur.busy) {
-    if (peripheral_req != nullptr && peripheral_req->is_mmio) {
+    // A response is being returned this cycle: the LSU still drives the request
+    // it answers, which must not be started a second time.
+    if (!cur.resp_valid && peripheral_req != nullptr &&
+        peripheral_req->is_mmio) {
       if (peripheral_model != nullptr &&
           PeripheralModel::is_modeled_mmio(peripheral_req->mmio_addr)) {
         nxt.busy = false;
-- 
2.43.0


From dbfd10125227c1c174b1844e15fb0352f06d1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:00 +0000
Subject: [PATCH 07/33] fix: do not produce a result for a store-conditional
 with rd=x0

The address half was marked as writing physical register 0 and its result was
forwarded to later readers of x0.
---
 back-end/Dispatch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Dispatch.cpp b/back-end/Dispatch.cpp
index f7433d0..4182bec 100644
--- a/back-end/Dispatch.cpp
+++ b/back-end/Dispatch.cpp
@@ -900,8 +900,8 @@ int Dispatch::decompose_inst(const DispatchInst &inst, UopPacket *out_uops) {
       out_uops[0].uop = make_dis_iss_uop(inst);
       out_uops[0].uop.op = UOP_STA;
       out_uops[0].uop.src2_en = false;
-      out_uops[0].uop.dest_en =
-          true; // Reuse LSU STA wb port to write SC result (0/1)
+      // Reuse LSU STA wb port to write SC result (0/1); nothing for rd=x0
+      out_uops[0].uop.dest_en = inst.dest_en;
 
       out_uops[1].iq_id = IQ_STD;
       out_uops[1].uop = make_dis_iss_uop(inst);
-- 
2.43.0


From f5102e3004aac1ac42b876f04ad8a0be5b4644c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:26 +0000
Subject: [PATCH 08/33] fix: keep the faulting address of an atomic whose store
 half faulted

A later completion of the load half overwrote it with a physical address,
which then became the trap value.
---
 back-end/Rob.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..86466ef 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -580,8 +580,11 @@ void Rob::comb_complete() {
 
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
-          // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          // 保存物理地址，用于 Commit 时的对齐检查；
+          // AMO 的另一半已记录缺页地址时不能覆盖它
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
-- 
2.43.0


From 7333f824881f872e2c144e42f9b487a4a04ac77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:53 +0000
Subject: [PATCH 09/33] fix: do not abandon a device load for an interrupt once
 it is on the bus

The load was executed again after the handler, so the device saw two reads,
and the answer to the abandoned one could be taken for a later access.
---
 back-end/Lsu/RealLsu.cpp |  2 ++
 back-end/Rob.cpp         | 12 +++++++++++-
 back-end/include/IO.h    |  2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 75e6eaf..68813b6 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -209,6 +209,8 @@ void RealLsu::comb_lsu2rob() {
   *out.lsu2rob = {};
 
   out.lsu2rob->committed_store_pending = cur.stq_commit_count != 0;
+  out.lsu2rob->mmio_load_pending =
+      cur.uncached_unit.valid && cur.uncached_unit.is_load;
   uint64_t miss_mask = lsu_perf::load_miss_mask(cur);
   out.lsu2rob->tma.miss_mask = miss_mask;
 }
diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 86466ef..fe08028 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -272,7 +272,17 @@ void Rob::comb_commit() {
   };
 
   if (!in.dec_bcast->mispred) {
-    const bool interrupt_pending = in.csr2rob->interrupt_req;
+    // 设备读一旦发出就不能因中断被丢弃重做：先让它提交，再响应中断。
+    bool mmio_load_started =
+        in.lsu2rob != nullptr && in.lsu2rob->mmio_load_pending;
+    for (int i = 0; i < ROB_BANK_NUM; i++) {
+      const auto &uop = entry[i][deq_ptr].uop;
+      if (entry[i][deq_ptr].valid && rob_is_load(uop) && uop.dbg.is_mmio) {
+        mmio_load_started = true;
+      }
+    }
+    const bool interrupt_pending =
+        in.csr2rob->interrupt_req && !mmio_load_started;
     for (int i = 0; i < ROB_BANK_NUM; i++) {
       if ((entry[i][deq_ptr].valid &&
            (rob_is_flush_inst(entry[i][deq_ptr].uop) ||
diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index a336777..5662c5a 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1416,10 +1416,12 @@ struct LsuRobIO {
     std::bitset<ROB_NUM> miss_mask;
   } tma;
   wire<1> committed_store_pending;
+  wire<1> mmio_load_pending;
 
   LsuRobIO() {
     tma.miss_mask.reset();
     committed_store_pending = 0;
+    mmio_load_pending = 0;
   }
 };
 
-- 
2.43.0


From e0fad7a1d098e3fe7c874401486a50e452c1f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:35 +0000
Subject: [PATCH 10/33] fix: do not perform a device store whose slot was taken
 by an interrupt

The store is executed again after the handler, so its effect on the device
happened twice.
---
 rv_simu_mmu_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..89bcc9a 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -765,7 +765,8 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
     }
   }
 
-  if (inst->tma.mem_commit_is_store && !inst->page_fault_store) {
+  if (inst->tma.mem_commit_is_store && !inst->page_fault_store &&
+      !back->rob->out.rob_bcast->interrupt) {
     StqEntry e = back->lsu->get_stq_entry(inst->stq_idx, inst->stq_flag);
     const bool store_suppressed = static_cast<bool>(e.suppress_write) &&
                                   e.rob_idx == inst->rob_idx &&
-- 
2.43.0


From 6d2bd0759bb5c7cfe0b000f76a172eadcb4ace36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:26:57 +0000
Subject: [PATCH 11/33] fix: do not forward the data of a failed
 store-conditional to a load

---
 back-end/Lsu/RealLsu.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 68813b6..1da1a83 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -575,10 +575,15 @@ void RealLsu::comb_stlf() {
             entry.load_state = LoadState::CheckStlfRetry;
             break;
           }
+          if (stq_entry.suppress_write) {
+            check_stlf_num++; // 失败的 SC 不会写内存，不能参与前递
+            continue;
+          }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
           if (stlf_result == STLFResult::Overlap) {
-            if (!stq_entry.data_valid) {
+            if (!stq_entry.data_valid ||
+                (stq_entry.is_lrsc && !stq_entry.sc_pass)) {
               entry.load_state = LoadState::CheckStlfRetry;
               break;
             }
-- 
2.43.0


From f41f154358fbc62f77e1b7f4cd4c725581d1d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:41 +0000
Subject: [PATCH 12/33] fix: forward merged stores to loads that hit a fill
 waiting in the data cache

---
 MemSubSystem/MemSubsystem.cpp     | 9 ++++++++-
 MemSubSystem/include/RealDcache.h | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index e6c390b..a45764a 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -885,6 +885,13 @@ void MemSubsystem::forward_pending_response_from_fill() {
     return;
   }
 
+  // A fill stalled in DCache stage 2 may already carry merged stores that the
+  // MSHR copy of the line does not have.
+  const AddrFields fill_f = decode(fill.addr);
+  const FILLWrite &held = dcache_.pending_fill();
+  const bool fill_held = held.valid && held.set_idx == fill_f.set_idx &&
+                         held.tag == fill_f.tag;
+
   for (int i = 0; i < LSU_LDU_COUNT; i++) {
     LoadResp &resp = dcache_resp_pending_.resp_ports.load_resps[i];
     const DcacheRespMeta &meta = dcache_resp_pending_meta_[i];
@@ -894,7 +901,7 @@ void MemSubsystem::forward_pending_response_from_fill() {
       continue;
     }
     const AddrFields f = decode(meta.addr);
-    resp.data = fill.data[f.word_off];
+    resp.data = fill_held ? held.data[f.word_off] : fill.data[f.word_off];
     resp.replay = ReplayType::HIT;
 #if !BSD_CONFIG
     if (ctx != nullptr) {
diff --git a/MemSubSystem/include/RealDcache.h b/MemSubSystem/include/RealDcache.h
index de1f14c..f4811ca 100644
--- a/MemSubSystem/include/RealDcache.h
+++ b/MemSubSystem/include/RealDcache.h
@@ -60,6 +60,9 @@ public:
     void stage1_comb();
     void stage2_comb();
 
+    // Fill waiting in stage 2, including the stores merged into it so far.
+    const FILLWrite &pending_fill() const { return s1s2_cur.fill_write; }
+
     void dump_debug_state(FILE *out) const;
 private:
     struct FillReqMerge {
-- 
2.43.0


From cc59f9b7fcf405b59f8c5848bd010675a9c48a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:27 +0000
Subject: [PATCH 13/33] fix: do not report a bank conflict to the instruction
 cache probe as a miss

---
 MemSubSystem/RealDcache.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..c632e8b 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -234,7 +234,12 @@ void RealDcache::stage1_comb() {
         }
         else{
             AddrFields f  = decode(req.addr);
-            const bool bank_granted = try_grant_bank(f, line_id(req.addr));
+            // An ICache coherent probe has no replay path: a bank conflict must
+            // not be reported to it as a miss.
+            const bool icache_probe =
+                static_cast<int>(in.lsu2dcache->icache_req) == i;
+            const bool bank_granted =
+                try_grant_bank(f, line_id(req.addr)) || icache_probe;
             // for(int j=0;j<LSU_STA_COUNT;j++){
             //     if(s1s2_cur.loads[j].valid&&CheckAddr(req.addr,(uint8_t)0xffff, s1s2_cur.stores[j].addr,s1s2_cur.stores[j].strb)){
             //         replay = true; // 如果有older load地址重叠且还在等待dcache响应或者等待重放中（即需要重放），则这个load也需要重放，以避免饥饿。注意我们只检查older load的状态，因为如果older load是hit，说明它可以在同一周期完成并更新cache，从而这个load不需要重放。另一方面，如果我们检查这个load自己的状态，可能会导致当有多条连续miss时出现不必要的重放，因为这个load可能还没有被标记为replay，但它会在同一周期内因为MSHR miss而被重放。
-- 
2.43.0


From adee36bb81b3f26e134e5d5f9e23ebc25379f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:27 +0000
Subject: [PATCH 14/33] fix: hold fences until stores merged into outstanding
 misses reach the cache

---
 MemSubSystem/MemSubsystem.cpp | 4 ++++
 MemSubSystem/include/MSHR.h   | 9 +++++++++
 back-end/Lsu/RealLsu.cpp      | 3 ++-
 back-end/include/IO.h         | 1 +
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index a45764a..6019a51 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -933,6 +933,10 @@ void MemSubsystem::forward_pending_response_from_fill() {
 
 void MemSubsystem::publish_pending_dcache_response() {
   dcache_resp_route_ = dcache_resp_pending_;
+  // Stores merged into an outstanding miss are not yet visible to the ICache
+  // coherent probe, so fences must wait for the fill to land.
+  dcache_resp_route_.store_fill_pending =
+      mshr_.nxt.axi_resp_hold_valid || mshr_.has_merged_store();
 }
 
 void MemSubsystem::clear_pending_dcache_response() {
diff --git a/MemSubSystem/include/MSHR.h b/MemSubSystem/include/MSHR.h
index 5c088c6..3d14c79 100644
--- a/MemSubSystem/include/MSHR.h
+++ b/MemSubSystem/include/MSHR.h
@@ -98,5 +98,14 @@ public:
     SimContext *ctx = nullptr;
 #endif
 
+    bool has_merged_store() const {
+        for (const MSHREntry &e : nxt.mshr_entries) {
+            if (e.valid && e.merged_store_dirty) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     void dump_debug_state(FILE *out) const;
 };
diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 1da1a83..cfc3093 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -208,7 +208,8 @@ void RealLsu::comb_cal() {
 void RealLsu::comb_lsu2rob() {
   *out.lsu2rob = {};
 
-  out.lsu2rob->committed_store_pending = cur.stq_commit_count != 0;
+  out.lsu2rob->committed_store_pending =
+      cur.stq_commit_count != 0 || in.dcache2lsu->store_fill_pending;
   out.lsu2rob->mmio_load_pending =
       cur.uncached_unit.valid && cur.uncached_unit.is_load;
   uint64_t miss_mask = lsu_perf::load_miss_mask(cur);
diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index 5662c5a..a89a6ea 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1388,6 +1388,7 @@ struct DcacheLsuIO {
   DCacheRespPorts resp_ports;
   wire<1> mshr_fill;
   wire<32> mshr_fill_addr;
+  wire<1> store_fill_pending; // 已提交 store 的数据仍在 MSHR/fill 中，尚未写入 cache
 };
 
 struct LsuDisIO {
-- 
2.43.0


From ad57d81baf4fd89a5aeef4bb3c08c368a28bb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:55 +0000
Subject: [PATCH 15/33] fix: do not start a device load behind a completed
 instruction that will flush

---
 back-end/Rob.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index fe08028..396c8df 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -211,6 +211,12 @@ void Rob::comb_commit() {
         out.rob_bcast->head_incomplete_rob_idx = make_rob_idx(deq_ptr, i);
         break;
       }
+      // 已完成但会触发全流水冲刷的指令（异常/CSR 等）之后的访存都将被取消，
+      // 不能提前对设备可见。
+      if (entry[i][deq_ptr].valid &&
+          rob_is_flush_inst(entry[i][deq_ptr].uop)) {
+        break;
+      }
     }
   }
   const bool front_stall =
-- 
2.43.0


From 89a91190eb971c8d2516f63f6b3206b5aaafce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:38 +0000
Subject: [PATCH 16/33] fix: canonical NaNs and saturating conversions in the
 floating-point unit

The linked SoftFloat library is the 8086 variant: it propagates NaN payloads
and returns one fixed value for every out-of-range conversion to integer.
RISC-V requires the canonical NaN and saturated conversion results.
---
 back-end/Exu/include/FPU.h | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..0a61b9d 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,29 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // RISC-V results that the linked SoftFloat build (8086 variant) does not give:
+  // every NaN result is the canonical NaN, and out-of-range conversions saturate.
+  static inline uint32_t canonical_f32(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  static inline uint32_t f32_to_i32_riscv(float32_t f) {
+    if (is_nan_u32(f.v)) {
+      return 0x7fffffffu;
+    }
+    uint32_t res =
+        static_cast<uint32_t>(f32_to_i32(f, softfloat_roundingMode, true));
+    return (res == 0x80000000u && !(f.v >> 31)) ? 0x7fffffffu : res;
+  }
+
+  static inline uint32_t f32_to_ui32_riscv(float32_t f) {
+    if (is_nan_u32(f.v)) {
+      return 0xffffffffu;
+    }
+    uint32_t res = f32_to_ui32(f, softfloat_roundingMode, true);
+    return (res == 0xffffffffu && (f.v >> 31)) ? 0u : res;
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +170,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a);
             } else {
               assert(0);
             }
@@ -169,17 +192,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical_f32(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical_f32(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = canonical_f32(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = canonical_f32(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +211,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = canonical_f32(f32_sqrt(a));
               break;
             }
             case FSGNJ:
-- 
2.43.0


From 1bea45e05cf1b982d40b50c89b13bf31087d4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:38 +0000
Subject: [PATCH 17/33] fix: do not lose a floating-point wakeup when a
 division wakes in the same cycle

Both units share one delayed wakeup channel per issue port. When both
countdowns ended in the same cycle one wakeup overwrote the other, and
instructions waiting for the lost one never issued.
---
 back-end/Isu.cpp       | 41 ++++++++++++++++++++++++++++-------------
 back-end/include/Isu.h |  1 +
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..bc26fff 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -136,6 +136,30 @@ int Isu::get_latency(UopType uop, wire<7> func7) {
   return 1;                 // 其他指令认为是单周期，走 Fast Wakeup
 }
 
+static int get_port_for_unit(uint64_t op_mask, int unit_idx) {
+  int seen = 0;
+  for (int p = 0; p < ISSUE_WIDTH; p++) {
+    if (get_port_capability(p) & op_mask) {
+      if (seen == unit_idx) return p;
+      seen++;
+    }
+  }
+  return -1;
+}
+
+// DIV 与 FP 共用同一端口的延迟唤醒通道；DIV 同拍唤醒时 FP 顺延一拍。
+bool Isu::fp_wake_blocked(int fp_idx) const {
+  const int port = get_port_for_unit(OP_MASK_FP, fp_idx);
+  for (int i = 0; i < ISU_DIV_WAKE_SLOT_NUM; i++) {
+    const auto &slot = div_wake_slots[i];
+    if (slot.valid && slot.countdown == 0 &&
+        get_port_for_unit(OP_MASK_DIV, i) == port) {
+      return true;
+    }
+  }
+  return false;
+}
+
 /*
  * comb_ready
  * 功能: 计算每个 IQ 的剩余容量并反馈给 Dispatch。
@@ -242,7 +266,7 @@ void Isu::comb_calc_latency_next() {
     }
   }
 
-  // FP 槽位：与 DIV 相同。
+  // FP 槽位：与 DIV 相同，但唤醒通道被 DIV 占用时保留到下一拍。
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &cur = fp_wake_slots[i];
     auto &nxt = fp_wake_slots_1[i];
@@ -253,6 +277,8 @@ void Isu::comb_calc_latency_next() {
     if (cur.countdown > 0) {
       nxt = cur;
       nxt.countdown = cur.countdown - 1;
+    } else if (fp_wake_blocked(i)) {
+      nxt = cur;
     } else {
       nxt = {};
     }
@@ -364,17 +390,6 @@ void Isu::comb_awake() {
   }
 
 
-  auto get_port_for_unit = [](uint64_t op_mask, int unit_idx) {
-    int seen = 0;
-    for (int p = 0; p < ISSUE_WIDTH; p++) {
-      if (get_port_capability(p) & op_mask) {
-        if (seen == unit_idx) return p;
-        seen++;
-      }
-    }
-    return -1;
-  };
-
   // 来源 A: 慢速唤醒 (来自写回阶段：Load / 缓存缺失)
   for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
     if (in.prf_awake->wake[i].valid) {
@@ -400,7 +415,7 @@ void Isu::comb_awake() {
   // 来源 B2: 延迟唤醒（FP countdown 到 0）
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &slot = fp_wake_slots[i];
-    if (slot.valid && slot.countdown == 0) {
+    if (slot.valid && slot.countdown == 0 && !fp_wake_blocked(i)) {
       int port = get_port_for_unit(OP_MASK_FP, i);
       int ch = delayed_ch_map[port];
       Assert(ch != -1);
diff --git a/back-end/include/Isu.h b/back-end/include/Isu.h
index 369d074..bc60e71 100644
--- a/back-end/include/Isu.h
+++ b/back-end/include/Isu.h
@@ -87,5 +87,6 @@ public:
 private:
   void add_iq(const IssueQueueConfig &cfg);
   int get_latency(UopType uop_type, wire<7> func7);
+  bool fp_wake_blocked(int fp_idx) const;
   void apply_wakeup_to_uop(IqStoredUop &uop) const;
 };
-- 
2.43.0


From 402f35569f12147f12854732b0a5004da5dfbe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:49 +0000
Subject: [PATCH 18/33] fix: exception delegation in the reference executor

Exceptions raised in machine mode were delegated, an environment call from
machine mode got cause 0 when user calls were delegated, and an illegal
instruction was never delegated.
---
 diff/ref.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..af3a167 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -313,8 +313,13 @@ void RefCpu::exception(uint32_t trap_val) {
   // STrap 处理)
   // 注意：为了代码复用，这里其实可以简化，但为了保持你原有逻辑结构：
 
+  // Exceptions raised in machine mode are never delegated.
+  if (privilege == 3) {
+    medeleg = 0;
+  }
   bool medeleg_U_ecall = (medeleg >> 8) & 1;
   bool medeleg_S_ecall = (medeleg >> 9) & 1;
+  bool medeleg_illegal = (medeleg >> 2) & 1;
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
@@ -329,7 +334,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -337,7 +343,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -423,6 +430,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From 42bb53c972af54b3a898865e8312d98eff99ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:49 +0000
Subject: [PATCH 19/33] fix: a fetch page fault in the reference executor used
 stale trap inputs

The interrupt flags and the instruction word of the previous instruction were
still set when the fault was raised, so the fault could be taken as an old
interrupt, environment call or trap return.
---
 diff/ref.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index af3a167..4ad7996 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -269,6 +269,10 @@ void RefCpu::exec() {
   illegal_exception = page_fault_load = page_fault_inst = page_fault_store =
       asy = is_mmio_load = is_mmio_store = false;
   state.store = false;
+  // exception() reads these; a fetch fault must not see the previous ones.
+  Instruction = 0;
+  M_software_interrupt = M_timer_interrupt = M_external_interrupt =
+      S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
 
   uint32_t p_addr = state.pc;
 
-- 
2.43.0


From 577653cbea9e3ad5308699f7823591b8534dae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:49 +0000
Subject: [PATCH 20/33] fix: writes to mip and sip in the reference executor

The slot index was compared with the CSR numbers, so a write to mip was not
masked, did not update sip, and a write to sip never reached mip.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 4ad7996..ee4d6db 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -949,13 +949,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From b616296b76397c92062ebd5e215a35de3edbbe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:49 +0000
Subject: [PATCH 21/33] fix: csrrwi with a zero immediate writes the CSR in the
 reference executor

---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index ee4d6db..b50f0e5 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -873,9 +873,9 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
-  bool re = funct3 != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
+  bool we = wcmd == CSR_W || rs1 != 0;
+  bool re = wcmd != CSR_W || rd != 0;
   uint32_t wdata;
 
   if (funct3 & 0b100) {
-- 
2.43.0


From 7f95597e1daf949dff8b918f12fe2ecfef051dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:16 +0000
Subject: [PATCH 22/33] fix: no device side effects without a store in the
 reference executor

A load-reserved or a failed store-conditional repeated the side effects of the
last store address: a character was printed twice and an interrupt raised again.
---
 diff/ref.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index b50f0e5..980305a 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1666,6 +1666,9 @@ void RefCpu::store_word(uint32_t addr, uint32_t data) {
 }
 
 void RefCpu::store_data() {
+  if (!state.store) {
+    return;
+  }
 
   uint32_t p_addr = state.store_addr;
   if (state.store && state.reserve_valid && state.reserve_addr == p_addr) {
-- 
2.43.0


From ff97155cd144025b684e6847c6590a1376cd791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:16 +0000
Subject: [PATCH 23/33] fix: unknown opcodes raise an illegal-instruction
 exception in the reference executor

They were executed as no-ops, while the simulated pipeline traps.
---
 diff/ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 980305a..768579d 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1612,7 +1612,9 @@ void RefCpu::RV32IM() {
     break;
   }
   default: {
-    break;
+    illegal_exception = true;
+    exception(Instruction);
+    return;
   }
   }
 
-- 
2.43.0


From 1d3846eaf41c5e149507d7049036d1be7de39f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:16 +0000
Subject: [PATCH 24/33] fix: supervisor fetch from a user superpage faults in
 the reference executor

SUM only permits supervisor loads and stores; the 4 KB path was right.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 768579d..405672f 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1781,8 +1781,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 取指 U-page，或访问 U-page 且 SUM=0 -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 2bc7a1529768d6935d29792fc3cb32aeeec028bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:16 +0000
Subject: [PATCH 25/33] fix: illegal floating-point encodings trap in the
 reference executor

Some returned without trapping and without advancing the program counter, which
looped forever; others wrote a result.
---
 diff/ref.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 405672f..5e16cee 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -684,6 +684,7 @@ void RefCpu::RV32Zfinx() {
     break; // RMM
   default:
     illegal_exception = true;
+    exception(Instruction);
     return;
   }
 
@@ -721,7 +722,7 @@ void RefCpu::RV32Zfinx() {
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
         illegal_exception = true;
-        return;
+        break;
       }
       f_res = f32_sqrt(f_rs1);
       i_res = from_f32(f_res);
@@ -779,7 +780,7 @@ void RefCpu::RV32Zfinx() {
         f_res = ui32_to_f32(val_rs1);
       else {
         illegal_exception = true;
-        return;
+        break;
       }
       i_res = from_f32(f_res);
       break;
@@ -807,7 +808,7 @@ void RefCpu::RV32Zfinx() {
       break;
     default:
       illegal_exception = true;
-      return;
+      break;
     }
     break;
 
@@ -846,13 +847,18 @@ void RefCpu::RV32Zfinx() {
 
   default:
     illegal_exception = true;
-    return;
+    break;
   }
 
   // 4. 更新 CSR 状态 (Accumulate Exception Flags)
   // state.csr[CSR_FCSR] |= softfloat_exceptionFlags;
 
 skip_flags_update:
+  if (illegal_exception) {
+    exception(Instruction);
+    return;
+  }
+
   // 5. 写回结果
   if (write_rd && rd != 0) {
     state.gpr[rd] = i_res;
-- 
2.43.0


From cdc3dcd137450cc2d62cace92dc3a3723fa79788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:16 +0000
Subject: [PATCH 26/33] fix: canonical NaNs and saturating conversions in the
 reference executor

Same as the floating-point unit of the pipeline: the linked SoftFloat library is
the 8086 variant.
---
 diff/ref.cpp | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 5e16cee..1212918 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -115,6 +115,26 @@ static inline bool is_snan(uint32_t v) {
   return is_nan(v) && !((v >> 22) & 1);
 }
 
+// RISC-V results that the linked SoftFloat build (8086 variant) does not give:
+// every NaN result is the canonical NaN, and out-of-range conversions saturate.
+static inline uint32_t canonical_f32(float32_t f) {
+  return is_nan(f.v) ? 0x7fc00000u : f.v;
+}
+
+static inline uint32_t f32_to_i32_riscv(float32_t f) {
+  if (is_nan(f.v))
+    return 0x7fffffffu;
+  uint32_t res = (uint32_t)f32_to_i32(f, softfloat_roundingMode, true);
+  return (res == 0x80000000u && !(f.v >> 31)) ? 0x7fffffffu : res;
+}
+
+static inline uint32_t f32_to_ui32_riscv(float32_t f) {
+  if (is_nan(f.v))
+    return 0xffffffffu;
+  uint32_t res = f32_to_ui32(f, softfloat_roundingMode, true);
+  return (res == 0xffffffffu && (f.v >> 31)) ? 0u : res;
+}
+
 // RISC-V 规范的 FMIN 实现
 uint32_t f32_min_riscv(uint32_t a, uint32_t b) {
   // 1. 处理 sNaN 异常 (Invalid Operation)
@@ -705,19 +725,19 @@ void RefCpu::RV32Zfinx() {
     switch (funct7) {
     case 0x00: // FADD.S
       f_res = f32_add(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
       break;
     case 0x04: // FSUB.S
       f_res = f32_sub(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
       break;
     case 0x08: // FMUL.S
       f_res = f32_mul(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
       break;
     case 0x0C: // FDIV.S
       f_res = f32_div(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
       break;
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
@@ -725,7 +745,7 @@ void RefCpu::RV32Zfinx() {
         break;
       }
       f_res = f32_sqrt(f_rs1);
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
       break;
 
     // 注入符号 (FSGNJ) - 纯位操作，不触发异常
@@ -766,9 +786,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(f_rs1);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(f_rs1);
       else
         illegal_exception = true;
       break;
@@ -782,7 +802,7 @@ void RefCpu::RV32Zfinx() {
         illegal_exception = true;
         break;
       }
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
       break;
 
       // Zfinx 特殊说明：
@@ -816,7 +836,7 @@ void RefCpu::RV32Zfinx() {
   // 结果 = (rs1 * rs2) + rs3
   case 0x43: // FMADD.S
     f_res = f32_mulAdd(f_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = canonical_f32(f_res);
     break;
   case 0x47: // FMSUB.S: (rs1 * rs2) - rs3
     // SoftFloat 的 mulAdd 定义通常是 a*b + c。
@@ -826,7 +846,7 @@ void RefCpu::RV32Zfinx() {
     {
       float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
       f_res = f32_mulAdd(f_rs1, f_rs2, f_neg_rs3);
-      i_res = from_f32(f_res);
+      i_res = canonical_f32(f_res);
     }
     break;
   case 0x4B: // FNMSUB.S: -(rs1 * rs2) + rs3
@@ -835,14 +855,14 @@ void RefCpu::RV32Zfinx() {
     // SoftFloat 可能并没有直接对应指令，可能需要操作 rs1 或 rs2 符号
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = canonical_f32(f_res);
   } break;
   case 0x4F: // FNMADD.S: -(rs1 * rs2) - rs3
   {
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_neg_rs3);
-    i_res = from_f32(f_res);
+    i_res = canonical_f32(f_res);
   } break;
 
   default:
-- 
2.43.0


From 5316422b9c56034e94b1885ed60c6a124e7c292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:29 +0000
Subject: [PATCH 27/33] fix: unsupported floating-point encodings raise an
 illegal-instruction exception

They were sent to the floating-point unit, which stops the whole simulator in
builds with assertions, even on a mispredicted path, and returns a stale value
in builds without.
---
 back-end/Idu.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/back-end/Idu.cpp b/back-end/Idu.cpp
index 5a4c1cd..b460268 100644
--- a/back-end/Idu.cpp
+++ b/back-end/Idu.cpp
@@ -286,6 +286,33 @@ void Idu::seq() {
   br_latch = br_latch_1;
 }
 
+// Encodings of the OP-FP major opcode that the floating-point unit implements.
+static bool fp_encoding_supported(uint32_t funct7, uint32_t funct3,
+                                  uint32_t rs2) {
+  const bool rm_valid = funct3 <= 4 || funct3 == 7;
+  switch (funct7) {
+  case 0x00: // fadd
+  case 0x04: // fsub
+  case 0x08: // fmul
+  case 0x0C: // fdiv
+    return rm_valid;
+  case 0x2C: // fsqrt
+    return rm_valid && rs2 == 0;
+  case 0x60: // fcvt.w[u].s
+  case 0x68: // fcvt.s.w[u]
+    return rm_valid && rs2 <= 1;
+  case 0x10: // fsgnj, fsgnjn, fsgnjx
+  case 0x50: // fle, flt, feq
+    return funct3 <= 2;
+  case 0x14: // fmin, fmax
+    return funct3 <= 1;
+  case 0x70: // fclass
+    return funct3 == 1 && rs2 == 0;
+  default:
+    return false;
+  }
+}
+
 void Idu::decode(DecRenIO::DecRenInst &uop, uint32_t inst) {
   // 操作数来源以及type
   // uint32_t imm;
@@ -518,6 +545,14 @@ void Idu::decode(DecRenIO::DecRenInst &uop, uint32_t inst) {
       uop.src2_en = false;
     }
     uop.type = encode_inst_type(FP);
+    if (!fp_encoding_supported(number_funct7_unsigned, number_funct3_unsigned,
+                               reg_b_index)) {
+      uop.dest_en = false;
+      uop.src1_en = false;
+      uop.src2_en = false;
+      uop.type = encode_inst_type(NOP);
+      uop.illegal_inst = true;
+    }
     break;
   }
 
-- 
2.43.0


From 073257e64fe25d00b5524ad8cf01dd25c6689b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:45:19 +0000
Subject: [PATCH 28/33] fix: refuse unreadable images and damaged checkpoints
 in release builds

The checks were assertions, which the default build compiles out. A missing
or truncated file then hung or crashed, and a checkpoint with a wrong header
was executed.
---
 back-end/BackTop.cpp | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 03a44bd..798ed47 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -12,7 +12,9 @@
 #include <array>
 #include <cstdint>
 #include <cstring>
+#include <cstdlib>
 #include <fstream>
+#include <iostream>
 #include <vector>
 #include <zlib.h>
 
@@ -419,9 +421,17 @@ template <typename T> void gz_write_pod(gzFile file, const T &data) {
   }
 }
 
+// Unusable input files are refused in every build, not only with assertions on.
+static void require_input(bool ok, const char *msg) {
+  if (!ok) {
+    std::cerr << msg << std::endl;
+    exit(1);
+  }
+}
+
 template <typename T> void gz_read_pod(gzFile file, T &data) {
   if (gzread(file, &data, sizeof(T)) != sizeof(T)) {
-    Assert(0 && "Error reading data from gzip file.");
+    require_input(false, "Error reading data from gzip file.");
   }
 }
 
@@ -458,10 +468,10 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
         remain > kGzChunkSize ? kGzChunkSize : remain);
     const int read_bytes = gzread(file, dst, chunk);
     if (read_bytes < 0) {
-      Assert(0 && "Error: gzread failed during checkpoint restore.");
+      require_input(false, "Error: gzread failed during checkpoint restore.");
     }
     if (read_bytes == 0) {
-      Assert(0 && "Error: Unexpected EOF during checkpoint restore.");
+      require_input(false, "Error: Unexpected EOF during checkpoint restore.");
     }
     dst += read_bytes;
     remain -= static_cast<uint64_t>(read_bytes);
@@ -473,7 +483,7 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
 void BackTop::load_image(const std::string &filename) {
   std::ifstream inst_data(filename, std::ios::binary);
   if (!inst_data.is_open()) {
-    Assert(0 && "Error: Image does not exist");
+    require_input(false, "Error: Image does not exist");
   }
 
   inst_data.seekg(0, std::ios::end);
@@ -481,10 +491,10 @@ void BackTop::load_image(const std::string &filename) {
   inst_data.seekg(0, std::ios::beg);
 
   if (size < 0 || static_cast<uint64_t>(size) > RAM_SIZE) {
-    Assert(0 && "Image too large for configured RAM window.");
+    require_input(false, "Image too large for configured RAM window.");
   }
   if (!inst_data.read(reinterpret_cast<char *>(pmem_ram_ptr()), size)) {
-    Assert(0 && "读取文件失败！");
+    require_input(false, "读取文件失败！");
   }
 
   inst_data.close();
@@ -557,7 +567,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
   }
 
   if (!file) {
-    Assert(0 && "Error: Could not open checkpoint file");
+    require_input(false, "Error: Could not open checkpoint file");
   }
 
   // 与 SimpleSim/save_checkpoint 写入格式保持一致，确保反序列化对齐。
@@ -581,14 +591,14 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 1. 恢复 header + 状态
   gz_read_pod(file, ckpt_header);
-  Assert(ckpt_header.magic == kCkptMagic &&
-         "Error: Invalid checkpoint magic.");
-  Assert(ckpt_header.format_ver == kCkptFormatVersion &&
-         "Error: Unsupported checkpoint version.");
-  Assert(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes) &&
-         "Error: Checkpoint RAM size mismatch.");
-  Assert(ckpt_header.io_range_count == kExpectedIoLayout.size() &&
-         "Error: Checkpoint IO layout count mismatch.");
+  require_input(ckpt_header.magic == kCkptMagic,
+                "Error: Invalid checkpoint magic.");
+  require_input(ckpt_header.format_ver == kCkptFormatVersion,
+                "Error: Unsupported checkpoint version.");
+  require_input(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes),
+                "Error: Checkpoint RAM size mismatch.");
+  require_input(ckpt_header.io_range_count == kExpectedIoLayout.size(),
+                "Error: Checkpoint IO layout count mismatch.");
 
   gz_read_pod(file, ckpt_state);
   gz_read_pod(file, interval_inst_count);
@@ -644,7 +654,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 2. 恢复内存
   if (pmem_ram_ptr() == nullptr) {
-    Assert(0 && "Error: Memory not allocated during checkpoint restore.");
+    require_input(false, "Error: Memory not allocated during checkpoint restore.");
   }
   pmem_clear_all();
 
@@ -665,7 +675,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
         is_timer_range ? (range.base == expected.base)
                        : (range.base == expected.base &&
                           range.size == expected.size);
-    Assert(layout_match && "Error: Checkpoint IO layout mismatch.");
+    require_input(layout_match, "Error: Checkpoint IO layout mismatch.");
 
     std::vector<uint8_t> io_bytes(range.size, 0);
     gz_read_exact(file, io_bytes.data(), io_bytes.size());
-- 
2.43.0


From 4f028930aa39a7a2af69496fdcf49acf9e9b49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:45:19 +0000
Subject: [PATCH 29/33] fix: a program that ends while fast-forwarding reports
 its exit code

The registers were not taken over in that case, so the exit code was always 0.
---
 main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index c803f04..057d491 100644
--- a/main.cpp
+++ b/main.cpp
@@ -402,8 +402,8 @@ int main(int argc, char *argv[]) {
     difftest_ref_set_device_effects(false);
     difftest_ref_set_ref_only(false);
 
+    cpu.back.restore_from_ref();
     if (cpu.ctx.exit_reason == ExitReason::NONE) {
-      cpu.back.restore_from_ref();
 #ifndef CONFIG_BPU
       std::cout << "[Oracle] Synced with ref snapshot before switching to O3."
                 << std::endl;
-- 
2.43.0


From 3263e39187b7b873ac8645659a1396ba3cbbb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:45:19 +0000
Subject: [PATCH 30/33] fix: the instruction limit of a checkpoint run does not
 count warm-up

A limit smaller than the warm-up stopped the run before measuring began.
---
 main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 057d491..962dd44 100644
--- a/main.cpp
+++ b/main.cpp
@@ -473,7 +473,8 @@ int main(int argc, char *argv[]) {
         return 130;
       }
 
-    if (cpu.ctx.perf.commit_num >= config.max_commit_inst) {
+    const bool warming_up = cpu.ctx.is_ckpt && !cpu.ctx.perf.perf_start;
+    if (!warming_up && cpu.ctx.perf.commit_num >= config.max_commit_inst) {
         cpu.ctx.exit_reason = ExitReason::SIMPOINT;
         std::cout << "[sim] Reached MAX_COMMIT_INST=" << std::dec
                   << config.max_commit_inst << std::endl;
-- 
2.43.0


From 63f6977689d851a2cbd325428d8aa749aa82a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:51 +0000
Subject: [PATCH 31/33] fix: an interrupt taken on an unfinished store is not
 an out-of-order commit

---
 back-end/Lsu/RealLsu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index cfc3093..3af5d6e 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -1081,7 +1081,10 @@ void RealLsu::comb_stq_commit() {
         commit_stq_entry();
       }
     } else {
-      LSU_NON_BSD_ASSERT(0 && "Store commit out of order?");
+      // An interrupt or fault may retire a store that has not completed; the
+      // flush of the same cycle drops its entry.
+      LSU_NON_BSD_ASSERT(static_cast<bool>(in.rob_bcast->flush) &&
+                         "Store commit out of order?");
     }
   }
 }
-- 
2.43.0


From adf1f74127bc227d2e34bc164e9bb2206aee6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:04:16 +0000
Subject: [PATCH 32/33] fix: read memory for an instruction refill only after
 the data cache answered

A refill asked the data cache and memory at the same time. When the dirty
line was written back in between, the data cache missed and the older copy
from memory was executed after an instruction fence.
---
 front-end/icache/icache_module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..934dbae 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1428,7 +1428,9 @@ void ICache::eval_state_machine() {
               static_cast<uint64_t>(sim_time);
         }
       } else {
-        io.out.mem_req_valid = true;
+        // Read memory only once the data cache has answered: a dirty line that
+        // is written back in between would be seen by neither of the two.
+        io.out.mem_req_valid = dcache_step.done;
         mem_axi_state_next = AXI_IDLE;
       }
     } else {
-- 
2.43.0


From 252378ea9f07133bd12cda50bd67fb795f0c94b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:16 +0000
Subject: [PATCH 33/33] fix: take pending interrupts in architectural priority
 order

When several interrupts were pending at once, the machine and the reference
executor took machine software and timer requests before the external one,
and supervisor timer requests before the software one. The order is external,
software, timer in both modes.
---
 back-end/Exu/Csr.cpp | 15 +++++++--------
 diff/ref.cpp         | 15 +++++++++------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 1939a70..ffe299c 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -176,11 +176,10 @@ void Csr::comb_exception() {
             ? 1U << 31
             : 0;
 
-    cause += irq.m_software_interrupt ? 3
-             : irq.m_timer_interrupt  ? 7
-             : (irq.m_external_interrupt ||
-                (ecall && (privilege == 3) && !medeleg_U_ecall))
-                 ? 11
+    cause += irq.m_external_interrupt   ? 11
+             : irq.m_software_interrupt ? 3
+             : irq.m_timer_interrupt    ? 7
+             : (ecall && (privilege == 3) && !medeleg_U_ecall) ? 11
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
              : (ecall && (privilege == 1) && !medeleg_S_ecall) ? 9
@@ -232,11 +231,11 @@ void Csr::comb_exception() {
             : 0;
 
     cause +=
-        (irq.s_external_interrupt || (ecall && (privilege == 1) && medeleg_S_ecall))
-            ? 9
+        irq.s_external_interrupt                         ? 9
+        : irq.s_software_interrupt                       ? 1
         : irq.s_timer_interrupt                          ? 5
+        : (ecall && (privilege == 1) && medeleg_S_ecall) ? 9
         : (ecall && (privilege == 0) && medeleg_U_ecall) ? 8
-        : irq.s_software_interrupt                       ? 1
         : (page_fault_inst && medeleg_page_fault_inst)   ? 12
         : (page_fault_load && medeleg_page_fault_load)   ? 13
         : (page_fault_store && medeleg_page_fault_store) ? 15
diff --git a/diff/ref.cpp b/diff/ref.cpp
index 1212918..1cfe031 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -381,12 +381,13 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (M_software_interrupt)
+    if (M_external_interrupt)
+      exception_code = 11;
+    else if (M_software_interrupt)
       exception_code = 3;
     else if (M_timer_interrupt)
       exception_code = 7;
-    else if (M_external_interrupt ||
-             (ecall && privilege == 3 && !medeleg_U_ecall))
+    else if (ecall && privilege == 3 && !medeleg_U_ecall)
       exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
@@ -440,14 +441,16 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (S_external_interrupt || (ecall && privilege == 1 && medeleg_S_ecall))
+    if (S_external_interrupt)
       exception_code = 9;
+    else if (S_software_interrupt)
+      exception_code = 1;
     else if (S_timer_interrupt)
       exception_code = 5;
+    else if (ecall && privilege == 1 && medeleg_S_ecall)
+      exception_code = 9;
     else if (ecall && privilege == 0 && medeleg_U_ecall)
       exception_code = 8;
-    else if (S_software_interrupt)
-      exception_code = 1;
     else if (page_fault_inst && medeleg_page_fault_inst)
       exception_code = 12;
     else if (page_fault_load && medeleg_page_fault_load)
-- 
2.43.0

