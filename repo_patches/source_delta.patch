From 3661dc186fc73c7028efe507591462e43c2a39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 01/11] fix: zero the last page of a partially loaded frame in
 AsmCoreMachine

FastMemory marked a 256 KB frame initialised without zeroing it when the
loaded range ended exactly one page before the end of the frame, so that
page kept whatever the allocation (or a previous run) left there.
---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 2f718cd..8897eb9 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -229,7 +229,7 @@ impl<'a> FastMemory<'a> {
             // There is some memory space between the ending address of memory to be
             // written, and the end of the last memory frame touched, we will need to
             // initialize the last memory frame.
-            if (aligned_end + RISCV_PAGESIZE as u64) < frame_next_start {
+            if aligned_end < frame_next_start {
                 check_memory(self.0, aligned_end >> RISCV_PAGE_SHIFTS);
             }
         }
-- 
2.43.0


From 57d02977330a7fa3b43d56de6c5a84c09b19dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 02/11] fix: compare the borrow operand of a fused sbb with the
 head instruction

rule_sbb compared next_inst.rs2() with itself, so a sltu against another
register was fused into SBB and computed a different borrow.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4776392..00a4849 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -445,7 +445,7 @@ impl Decoder {
                         if next_inst.rd() == head_inst.rs1()
                             || next_inst.rd() == head_inst.rs2()
                             || next_inst.rs1() != head_inst.rs1()
-                            || next_inst.rs2() != next_inst.rs2()
+                            || next_inst.rs2() != head_inst.rs2()
                         {
                             return Ok(None);
                         }
-- 
2.43.0


From 41a67a4e29ac65a56909e21a4bbac49e1e43f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 03/11] fix: do not fuse lui+jalr when the immediates overflow
 32 bits

The fused far jump wrapped the target to 32 bits; auipc+jalr already
refuses such pairs from version 2 on.
---
 src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 00a4849..aaea11a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -584,6 +584,10 @@ impl Decoder {
                             next_inst.rs1() == head_inst.rd()
                                 && next_inst.rd() == RA
                                 && next_inst.rs1() == RA
+                                && head_inst
+                                    .immediate_s()
+                                    .checked_add(next_inst.immediate_s())
+                                    .is_some()
                         } else {
                             next_inst.rs1() == head_inst.rd() && next_inst.rd() == RA
                         };
-- 
2.43.0


From eae651a6846d27f5e5dd72dfbd5e1967fb8af1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 04/11] fix: remember the last written page only after its
 permission check

---
 src/machine/asm/execute_aarch64.S | 2 +-
 src/machine/asm/execute_x64.S     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 3cf7b42..8f5bc1a 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -234,7 +234,6 @@
   cmp TEMP1, TEMP2 SEP \
   beq 2f SEP \
 3: \
-  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   ldr TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE] SEP \
   cmp TEMP1, TEMP2 SEP \
   bhs .exit_out_of_bound SEP \
@@ -244,6 +243,7 @@
   and TEMP3, TEMP3, CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT SEP \
   cmp TEMP3, CKB_VM_ASM_MEMORY_FLAG_WRITABLE SEP \
   bne .exit_invalid_permission SEP \
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   orr TEMP2, TEMP2, CKB_VM_ASM_MEMORY_FLAG_DIRTY SEP \
   strb TEMP2w, [TEMP5, TEMP1] SEP \
   mov TEMP2, TEMP1 SEP \
diff --git a/src/machine/asm/execute_x64.S b/src/machine/asm/execute_x64.S
index 1100933..15f4484 100644
--- a/src/machine/asm/execute_x64.S
+++ b/src/machine/asm/execute_x64.S
@@ -272,7 +272,6 @@
   je 2f;\
 3:; \
   movq address_reg, TEMP3; \
-  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   movq CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE(MACHINE), TEMP2; \
   cmp TEMP2, TEMP1; \
   jae .exit_out_of_bound; \
@@ -282,6 +281,7 @@
   and $CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT, temp_regd; \
   cmp $CKB_VM_ASM_MEMORY_FLAG_WRITABLE, temp_regd; \
   jne .exit_invalid_permission; \
+  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   or $CKB_VM_ASM_MEMORY_FLAG_DIRTY, TEMP2b; \
   movb TEMP2b, (TEMP3, TEMP1); \
   movq TEMP1, TEMP2; \
-- 
2.43.0


From 9e7ecc4a2dbcac44338c5272fb5af32a061df190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 05/11] fix: AsmMachine::step reports cycle overflow and pause
 like the run loop

---
 src/machine/asm/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 8897eb9..6e6d69a 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -755,7 +755,9 @@ impl AsmMachine {
             RET_DECODE_TRACE => (),
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
+            RET_DYNAMIC_JUMP => (),
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
+            RET_CYCLES_OVERFLOW => return Err(Error::CyclesOverflow),
             RET_OUT_OF_BOUND => {
                 return Err(Error::MemOutOfBound(
                     self.machine.inner.error_arg0,
@@ -772,6 +774,10 @@ impl AsmMachine {
                 let instruction = decoder.decode(self.machine.memory_mut(), pc)?;
                 execute_instruction(instruction, &mut self.machine)?;
             }
+            RET_PAUSE => {
+                self.machine.pause.free();
+                return Err(Error::Pause);
+            }
             _ => return Err(Error::Asm(result)),
         }
         Ok(())
-- 
2.43.0


From 89f0983162104775076bbd8091049755ff301062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 06/11] fix: TraceMachine refuses macro-op fusion on version 0
 machines

---
 src/machine/trace.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 9b500f2..239b33d 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -6,9 +6,9 @@ use super::{
             execute_with_thread, extract_opcode, handle_invalid_op, instruction_length,
             is_basic_block_end_instruction, Instruction, Register, Thread, ThreadFactory,
         },
-        Error,
+        Error, ISA_MOP,
     },
-    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION2,
+    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION0, VERSION2,
 };
 use bytes::Bytes;
 
@@ -137,6 +137,9 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
     }
 
     pub fn run_with_decoder<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<i8, Error> {
+        if self.isa() & ISA_MOP != 0 && self.version() == VERSION0 {
+            return Err(Error::InvalidVersion);
+        }
         self.machine.set_running(true);
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
-- 
2.43.0


From 1cce49e8d6da0632e82b2374e524c8f92ad8564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 07/11] fix: the cost of a decoded block no longer wraps around

---
 src/machine/asm/traces.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index edcc603..403ead5 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -57,7 +57,10 @@ pub fn decode_fixed_trace<D: InstDecoder>(
         let instruction = decoder.decode(machine.memory_mut(), current_pc)?;
         let end_instruction = is_basic_block_end_instruction(instruction);
         current_pc += u64::from(instruction_length(instruction));
-        trace.cycles += machine.instruction_cycle_func()(instruction);
+        trace.cycles = trace
+            .cycles
+            .checked_add(machine.instruction_cycle_func()(instruction))
+            .ok_or(Error::CyclesOverflow)?;
         let opcode = extract_opcode(instruction);
         // Here we are calculating the absolute address used in direct threading
         // from label offsets.
@@ -311,6 +314,9 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             let instruction = self.decode(machine.memory_mut(), builder.next_pc())?;
             let end_instruction = is_basic_block_end_instruction(instruction);
             let cycles = machine.instruction_cycle_func()(instruction);
+            if builder.cycles.checked_add(cycles).is_none() {
+                return Err(Error::CyclesOverflow);
+            }
             builder.push(instruction, cycles);
             if end_instruction {
                 break;
-- 
2.43.0


From 4ff8831fadcf2aaa4a899616dca10ab853f1f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 08/11] fix: refuse a stack that cannot hold argc when there
 are no arguments

---
 src/machine/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index 8babb79..9942543 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -186,9 +186,13 @@ pub trait SupportMachine: CoreMachine {
         if self.version() >= VERSION1 && args.is_empty() {
             let argc_size = u64::from(Self::REG::BITS / 8);
             let origin_sp = stack_start + stack_size;
-            let unaligned_sp_address = origin_sp - argc_size;
+            let unaligned_sp_address = origin_sp.wrapping_sub(argc_size);
             let aligned_sp_address = unaligned_sp_address & (!15);
-            let used_bytes = origin_sp - aligned_sp_address;
+            let used_bytes = origin_sp.wrapping_sub(aligned_sp_address);
+            if used_bytes > stack_size {
+                // argc exceeds stack size
+                return Err(Error::MemOutOfStack);
+            }
             self.set_register(SP, Self::REG::from_u64(aligned_sp_address));
             return Ok(used_bytes);
         }
-- 
2.43.0


From bf3a2f0994ae6e5121b6d3ca1223f28bade2d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 09/11] fix: keep the whole pc when the AArch64 engine enters a
 block at version 0 or 1

prepare_trace and the trace end computed the next pc from the block's 32-bit
address, dropping the upper half that the x86-64 engine and the interpreter
keep.
---
 src/machine/asm/execute_aarch64.S | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 8f5bc1a..abbb67c 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -335,6 +335,7 @@ ckb_vm_x64_execute:
   cmp TEMP2, TEMP1
   bhi .exit_max_cycles_exceeded
   str TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_CYCLES]
+  ldr TEMP4, PC_ADDRESS
   add TEMP3, TEMP3, TEMP4
   str TEMP3, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_PC]
   /* Prefetch trace info for the consecutive block, pc is in TEMP3 now */
@@ -399,6 +400,7 @@ ckb_vm_x64_execute:
   cmp TEMP2, TEMP1
   bhi .exit_max_cycles_exceeded
   str TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_CYCLES]
+  ldr TEMP4, PC_ADDRESS
   add TEMP3, TEMP3, TEMP4
   str TEMP3, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_PC]
   add INST_PC, TRACE, CKB_VM_ASM_TRACE_OFFSET_THREADS
-- 
2.43.0


From ecbbf6c61063f61ecfa2de905e6ce3a316a3c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 10/11] fix: SparseMemory told at most 65535 pages apart

---
 src/memory/sparse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..8872176 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,17 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = 0xFFFF_FFFF;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory. (A u16 cannot
+    // tell the pages apart once 65535 of them, or 256MB, are in use.)
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +35,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0


From 2175e270d14b747324288ca7d2cb41468fcda830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 11/11] fix: make_snapshot lost half of every 8 bytes on 32-bit
 machines

---
 src/snapshot.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index ec42379..0855ee0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -49,25 +49,13 @@ pub fn make_snapshot<T: CoreMachine>(machine: &mut T) -> Result<Snapshot, Error>
     for i in 0..machine.memory().memory_pages() {
         let flag = machine.memory_mut().fetch_flag(i as u64)?;
         if flag & FLAG_DIRTY != 0 {
-            let addr_from = i << RISCV_PAGE_SHIFTS;
-            let addr_to = (i + 1) << RISCV_PAGE_SHIFTS;
-
-            let mut page = vec![0; RISCV_PAGESIZE];
-            for i in (addr_from..addr_to).step_by(8) {
-                let v64 = machine
-                    .memory_mut()
-                    .load64(&T::REG::from_u64(i as u64))?
-                    .to_u64();
-                let j = i - addr_from;
-                page[j] = v64 as u8;
-                page[j + 1] = (v64 >> 8) as u8;
-                page[j + 2] = (v64 >> 16) as u8;
-                page[j + 3] = (v64 >> 24) as u8;
-                page[j + 4] = (v64 >> 32) as u8;
-                page[j + 5] = (v64 >> 40) as u8;
-                page[j + 6] = (v64 >> 48) as u8;
-                page[j + 7] = (v64 >> 56) as u8;
-            }
+            // Whole bytes, not registers: a 32-bit register would cut the upper
+            // half of every 64-bit word.
+            let addr_from = (i as u64) << RISCV_PAGE_SHIFTS;
+            let page = machine
+                .memory_mut()
+                .load_bytes(addr_from, RISCV_PAGESIZE as u64)?
+                .to_vec();
 
             snap.page_indices.push(i as u64);
             snap.page_flags.push(flag);
-- 
2.43.0

