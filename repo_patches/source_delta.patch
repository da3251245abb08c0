From 25d4d1140f3e8117ab597620cd2eb15198addbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 01/77] Add cfg(verif) accessors for the external
 model-checking harness

---
 src/bus/uart.rs       |  2 ++
 src/bus/uart/verif.rs | 12 ++++++++++++
 src/cpu.rs            |  2 ++
 src/cpu/verif.rs      | 38 ++++++++++++++++++++++++++++++++++++++
 src/lib.rs            |  2 ++
 5 files changed, 56 insertions(+)
 create mode 100644 src/bus/uart/verif.rs
 create mode 100644 src/cpu/verif.rs

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 8f6aa23..2e96c4b 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -1,4 +1,6 @@
 mod io;
+#[cfg(verif)]
+mod verif;
 
 use super::Device;
 use crate::bus::Plic;
diff --git a/src/bus/uart/verif.rs b/src/bus/uart/verif.rs
new file mode 100644
index 0000000..12905bb
--- /dev/null
+++ b/src/bus/uart/verif.rs
@@ -0,0 +1,12 @@
+//! Input injection for the external model-checking harness (compiled only with `--cfg verif`).
+use super::Uart;
+use std::sync::mpsc;
+
+impl Uart {
+    /// Replace standard input by a channel the harness feeds.
+    pub fn verif_attach_input(&mut self) -> mpsc::Sender<String> {
+        let (tx, rx) = mpsc::channel::<String>();
+        self.stdin_channel = rx;
+        tx
+    }
+}
diff --git a/src/cpu.rs b/src/cpu.rs
index 1c7ce89..544c5cc 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -6,6 +6,8 @@ mod instruction;
 mod mmu;
 mod reg;
 mod trap;
+#[cfg(verif)]
+mod verif;
 
 use crate::{bus, elfload, log, Arguments, Isa};
 use csr::{CSRname, Xstatus};
diff --git a/src/cpu/verif.rs b/src/cpu/verif.rs
new file mode 100644
index 0000000..9d856f2
--- /dev/null
+++ b/src/cpu/verif.rs
@@ -0,0 +1,38 @@
+//! Accessors for the external model-checking harness (compiled only with `--cfg verif`).
+use super::{csr, mmu, reg, Cpu, PrivilegedLevel};
+
+impl Cpu {
+    /// Put the hart (not memory or devices) back into its power-on state.
+    pub fn verif_reset(&mut self) {
+        self.regs = reg::Register::new(self.isa.clone());
+        self.csrs = csr::CSRs::new(self.isa.clone(), self.pc.clone()).init();
+        self.mmu = mmu::Mmu::new(self.isa.clone());
+        self.reservation_set = None;
+        self.set_priv_lv(PrivilegedLevel::Machine);
+    }
+
+    pub fn verif_set_pc(&mut self, pc: u64) {
+        self.update_pc(pc);
+    }
+
+    pub fn verif_priv(&self) -> u8 {
+        self.priv_lv() as u8
+    }
+
+    pub fn verif_set_priv(&mut self, level: u8) {
+        self.set_priv_lv(match level {
+            0 => PrivilegedLevel::User,
+            1 => PrivilegedLevel::Supervisor,
+            3 => PrivilegedLevel::Machine,
+            _ => panic!("invalid privilege level {level}"),
+        });
+    }
+
+    pub fn verif_csr(&self, number: usize) -> u64 {
+        self.csrs.read(Some(number)).unwrap()
+    }
+
+    pub fn verif_set_csr(&mut self, number: usize, value: u64) {
+        self.csrs.write(Some(number), value).unwrap();
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7ca75c8..352f3a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod bus;
 pub mod cmdline;
 pub mod cpu;
-- 
2.43.0


From bac27a76a1dcd1d65191f03b3c4f575505a838a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 02/77] fix: let jumps and branches to their own address loop
 instead of falling through

---
 src/cpu/execution/inst_16.rs             | 15 +++++++++++++--
 src/cpu/execution/inst_16/c_extension.rs |  4 ++++
 src/cpu/execution/inst_32.rs             | 21 +++++++++++++++++++--
 src/cpu/execution/inst_32/base_i.rs      | 16 ++++++++++++++++
 4 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index b222c4e..8a7a311 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -1,6 +1,6 @@
 mod c_extension;
 use super::Cpu;
-use crate::cpu::instruction::Instruction;
+use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::TrapCause;
 
 pub fn exe_cinst(
@@ -14,8 +14,19 @@ pub fn exe_cinst(
 
     c_extension::exec(inst, cpu)?;
 
+    // these have set the program counter themselves, possibly to their own address
+    let is_transfer = matches!(
+        inst.opc,
+        OpecodeKind::OP_C_J
+            | OpecodeKind::OP_C_JAL
+            | OpecodeKind::OP_C_JR
+            | OpecodeKind::OP_C_JALR
+            | OpecodeKind::OP_C_BEQZ
+            | OpecodeKind::OP_C_BNEZ
+    );
+
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
+    if cpu.pc() == prev_pc && !is_transfer {
         cpu.add2pc(INST_SIZE as i32);
     }
 
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 68a50bf..d26c85a 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -127,11 +127,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_BEQZ => {
             if cpu.regs.read(inst.rs1) == 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_BNEZ => {
             if cpu.regs.read(inst.rs1) != 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_JR => {
diff --git a/src/cpu/execution/inst_32.rs b/src/cpu/execution/inst_32.rs
index 727fe06..54f516f 100644
--- a/src/cpu/execution/inst_32.rs
+++ b/src/cpu/execution/inst_32.rs
@@ -4,7 +4,7 @@ mod m_extension;
 mod priv_extension;
 mod zicsr_extension;
 
-use crate::cpu::instruction::{Extensions, Instruction};
+use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TrapCause};
 
 pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
@@ -22,8 +22,25 @@ pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, T
         _ => panic!("not a full size instruction."),
     }
 
+    // these have set the program counter themselves, possibly to their own address
+    let is_transfer = matches!(
+        inst.opc,
+        OpecodeKind::OP_JAL
+            | OpecodeKind::OP_JALR
+            | OpecodeKind::OP_BEQ
+            | OpecodeKind::OP_BNE
+            | OpecodeKind::OP_BLT
+            | OpecodeKind::OP_BGE
+            | OpecodeKind::OP_BLTU
+            | OpecodeKind::OP_BGEU
+            | OpecodeKind::OP_ECALL
+            | OpecodeKind::OP_EBREAK
+            | OpecodeKind::OP_SRET
+            | OpecodeKind::OP_MRET
+    );
+
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
+    if cpu.pc() == prev_pc && !is_transfer {
         cpu.add2pc(INST_SIZE as i32);
     }
 
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index c6f4465..0d62624 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -28,22 +28,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_BEQ => {
             if cpu.regs.read(inst.rs1) == cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BNE => {
             if cpu.regs.read(inst.rs1) != cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BLT => match *cpu.isa {
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
@@ -51,22 +59,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) >= (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) >= (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
         OpecodeKind::OP_BLTU => {
             if cpu.regs.read(inst.rs1) < cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BGEU => {
             if cpu.regs.read(inst.rs1) >= cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_LB => {
-- 
2.43.0


From 278e39229e8e4517ed49f02ae3aa2d1bc439ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 03/77] fix: C.JR clears bit 0 of the target address

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index d26c85a..e82e7ab 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_C_JR => {
-            cpu.update_pc(cpu.regs.read(inst.rs1));
+            cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
         }
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
-- 
2.43.0


From 83507f3c8704fef14c4613040c56056e1a8a6cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 04/77] fix: C.EBREAK raises a breakpoint exception

---
 src/cpu/execution/inst_16.rs             | 1 +
 src/cpu/execution/inst_16/c_extension.rs | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index 8a7a311..efd72ea 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -23,6 +23,7 @@ pub fn exe_cinst(
             | OpecodeKind::OP_C_JALR
             | OpecodeKind::OP_C_BEQZ
             | OpecodeKind::OP_C_BNEZ
+            | OpecodeKind::OP_C_EBREAK
     );
 
     // add the program counter when it isn't a branch instruction
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index e82e7ab..35179e0 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -144,7 +144,9 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
         }
-        OpecodeKind::OP_C_EBREAK => { /* NOP */ }
+        OpecodeKind::OP_C_EBREAK => {
+            cpu.trap(cpu.pc(), TrapCause::Breakpoint);
+        }
         // -- rv64 --
         OpecodeKind::OP_C_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From e9eaf35c65de9179819acda64023be5722154c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 05/77] fix: C.SDSP checks for 8-byte alignment

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 35179e0..dc2f968 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -175,7 +175,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_SDSP => {
             let store_addr = cpu.trans_addr(
                 TransFor::StoreAMO,
-                TransAlign::Size32,
+                TransAlign::Size64,
                 (cpu.regs.read(Some(REG_SP)) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
             cpu.bus.store64(store_addr, cpu.regs.read(inst.rs2))?;
-- 
2.43.0


From edbc27d9e1d9cd3209f4dd87d6a0cd6964fee30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 06/77] fix: SLL and SRL use the low five bits of rs2 on RV32

---
 src/cpu/execution/inst_32/base_i.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 0d62624..f6faf54 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -237,8 +237,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) - cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SLL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b11111)
+                    }
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2),
+                },
+            );
         }
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
@@ -257,8 +264,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) ^ cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SRL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b11111)
+                    }
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2),
+                },
+            );
         }
         OpecodeKind::OP_SRA => {
             cpu.regs.write(
-- 
2.43.0


From 0b3773e126a81d35945566f161328e255d61e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 07/77] fix: SLT compares all 64 bits on RV64

---
 src/cpu/execution/inst_32/base_i.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index f6faf54..3947e50 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -250,7 +250,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
                 inst.rd,
-                ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64
+                    }
+                    Isa::Rv64 => {
+                        ((cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64)) as u64
+                    }
+                },
             );
         }
         OpecodeKind::OP_SLTU => {
-- 
2.43.0


From 4db6bc2c9aba6ce6e0a5f0e3c2afe772a09d6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 08/77] fix: REM uses all 64 bits of its operands on RV64

---
 src/cpu/execution/inst_32/m_extension.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index fed0360..b01a746 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -96,8 +96,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             } else if rs1 as i64 == i64::MIN && rs2 as i64 == -1 {
                 cpu.regs.write(inst.rd, 0);
             } else {
-                cpu.regs
-                    .write(inst.rd, (rs1 as i32 as i64 % rs2 as i32 as i64) as u64);
+                cpu.regs.write(
+                    inst.rd,
+                    match *cpu.isa {
+                        Isa::Rv32 => (rs1 as i32 as i64 % rs2 as i32 as i64) as u64,
+                        Isa::Rv64 => (rs1 as i64 % rs2 as i64) as u64,
+                    },
+                )
             }
         }
         OpecodeKind::OP_REMU => {
-- 
2.43.0


From 0e7b74a8c3978f3ac6c7e2f265ed332c11efe3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 09/77] fix: DIVUW and REMUW treat a zero low word of rs2 as
 division by zero

---
 src/cpu/execution/inst_32/m_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index b01a746..2966e53 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_DIVUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, (2i32.pow(32) - 1) as u64);
             } else {
                 cpu.regs
@@ -147,7 +147,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_REMUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, rs1 as i32 as u64);
             } else {
                 cpu.regs
-- 
2.43.0


From acbe260632deaca241a3a47fac1aeb60c3e53d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 10/77] fix: decode C.ADD hints with rd=x0 as C.ADD, not
 C.EBREAK

---
 src/cpu/decode/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4eef8..6a4817d 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -99,7 +99,7 @@ fn quadrant2(
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
             0b1 => match mi_flag {
-                0b0 => Ok(OpecodeKind::OP_C_EBREAK),
+                0b0 if lo_flag == 0b0 => Ok(OpecodeKind::OP_C_EBREAK),
                 _ => match lo_flag {
                     0b0 => Ok(OpecodeKind::OP_C_JALR),
                     _ => Ok(OpecodeKind::OP_C_ADD),
-- 
2.43.0


From 32e76587a08c9b6c00c5d6e281b5d8be04c77a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 11/77] fix: reserved compressed encodings raise illegal
 instruction

---
 src/cpu/decode/inst_16.rs             |  7 +++++++
 src/cpu/decode/inst_16/c_extension.rs | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/cpu/decode/inst_16.rs b/src/cpu/decode/inst_16.rs
index 5f3f1ef..f8cda5f 100644
--- a/src/cpu/decode/inst_16.rs
+++ b/src/cpu/decode/inst_16.rs
@@ -8,6 +8,13 @@ use crate::cpu::{Isa, TrapCause};
 impl Decode for u16 {
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc = self.parse_opecode(isa)?;
+        if c_extension::is_reserved(*self, &new_opc, isa) {
+            return Err((
+                Some(u64::from(*self)),
+                TrapCause::IllegalInst,
+                format!("reserved compressed encoding, {self:b}"),
+            ));
+        }
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
         let new_rs1: Option<usize> = self.parse_rs1(&new_opc)?;
         let new_rs2: Option<usize> = self.parse_rs2(&new_opc)?;
diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4817d..258ae36 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -145,6 +145,26 @@ pub fn parse_opecode(inst: u16, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     }
 }
 
+/// encodings of an existing opecode that the specification reserves
+pub fn is_reserved(inst: u16, opkind: &OpecodeKind, isa: Isa) -> bool {
+    let imm_5: u16 = inst.slice(12, 12);
+    let imm_4_0: u16 = inst.slice(6, 2);
+    let rd: u16 = inst.slice(11, 7);
+
+    match opkind {
+        OpecodeKind::OP_C_ADDI4SPN => inst.slice(12, 5) == 0,
+        OpecodeKind::OP_C_ADDI16SP | OpecodeKind::OP_C_LUI => imm_5 == 0 && imm_4_0 == 0,
+        OpecodeKind::OP_C_ADDIW
+        | OpecodeKind::OP_C_LWSP
+        | OpecodeKind::OP_C_LDSP
+        | OpecodeKind::OP_C_JR => rd == 0,
+        OpecodeKind::OP_C_SLLI | OpecodeKind::OP_C_SRLI | OpecodeKind::OP_C_SRAI => {
+            matches!(isa, Isa::Rv32) && imm_5 == 1
+        }
+        _ => false,
+    }
+}
+
 pub fn parse_rd(
     inst: u16,
     opkind: &OpecodeKind,
-- 
2.43.0


From 1f0e276274a9023f69f40e79fe9fb1c6b77c13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 12/77] fix: report the encoding as trap value for RV64-only
 instructions on RV32

---
 src/cpu/decode/inst_16.rs | 5 ++++-
 src/cpu/decode/inst_32.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpu/decode/inst_16.rs b/src/cpu/decode/inst_16.rs
index f8cda5f..af177e9 100644
--- a/src/cpu/decode/inst_16.rs
+++ b/src/cpu/decode/inst_16.rs
@@ -7,7 +7,10 @@ use crate::cpu::{Isa, TrapCause};
 
 impl Decode for u16 {
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
-        let new_opc = self.parse_opecode(isa)?;
+        // the trap value of an undecodable instruction is the instruction itself
+        let new_opc = self
+            .parse_opecode(isa)
+            .map_err(|(inst, cause, msg)| (inst.or(Some(u64::from(*self))), cause, msg))?;
         if c_extension::is_reserved(*self, &new_opc, isa) {
             return Err((
                 Some(u64::from(*self)),
diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index dc6419f..ab1379b 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -11,7 +11,10 @@ use crate::cpu::{Isa, TrapCause};
 #[allow(non_snake_case)]
 impl Decode for u32 {
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
-        let new_opc: OpecodeKind = self.parse_opecode(isa)?;
+        // the trap value of an undecodable instruction is the instruction itself
+        let new_opc: OpecodeKind = self
+            .parse_opecode(isa)
+            .map_err(|(inst, cause, msg)| (inst.or(Some(u64::from(*self))), cause, msg))?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
         let new_rs1: Option<usize> = self.parse_rs1(&new_opc)?;
         let new_rs2: Option<usize> = self.parse_rs2(&new_opc)?;
-- 
2.43.0


From 5d3a9e1d3b35ec80ee415b1fe73b28a584843905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 13/77] fix: undefined funct7 of OP-32 is an illegal
 instruction, not a panic

---
 src/cpu/decode/inst_32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index ab1379b..6abbb63 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -126,7 +126,7 @@ impl DecodeUtil for u32 {
             0b0111011 => match funct7 {
                 0b0000000 | 0b0100000 => Extensions::BaseI,
                 0b0000001 => Extensions::M,
-                _ => unreachable!(),
+                _ => Extensions::BaseI,
             },
             0b1110011 => match funct3 {
                 0b000 => match funct7 {
-- 
2.43.0


From befcd0ce5086c792fa5a328a93a734ee1f0ae691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 14/77] fix: reserved 32-bit encodings raise illegal
 instruction

---
 src/cpu/decode/inst_32/a_extension.rs    |  2 ++
 src/cpu/decode/inst_32/base_i.rs         | 16 ++++++++++++++--
 src/cpu/decode/inst_32/priv_extension.rs |  3 ++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cpu/decode/inst_32/a_extension.rs b/src/cpu/decode/inst_32/a_extension.rs
index e39a3cf..6912c83 100644
--- a/src/cpu/decode/inst_32/a_extension.rs
+++ b/src/cpu/decode/inst_32/a_extension.rs
@@ -15,6 +15,8 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     };
 
     match opmap {
+        // rs2 is zero in LR
+        0b0101111 if funct7 == 0b00010 && inst.slice(24, 20) != 0 => illegal_inst_exception(),
         0b0101111 => match funct3 {
             0b010 => match funct7 {
                 0b00010 => Ok(OpecodeKind::OP_LR_W),
diff --git a/src/cpu/decode/inst_32/base_i.rs b/src/cpu/decode/inst_32/base_i.rs
index f609bc0..e14974a 100644
--- a/src/cpu/decode/inst_32/base_i.rs
+++ b/src/cpu/decode/inst_32/base_i.rs
@@ -20,7 +20,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
         0b0110111 => Ok(OpecodeKind::OP_LUI),
         0b0010111 => Ok(OpecodeKind::OP_AUIPC),
         0b1101111 => Ok(OpecodeKind::OP_JAL),
-        0b1100111 => Ok(OpecodeKind::OP_JALR),
+        0b1100111 => match funct3 {
+            0b000 => Ok(OpecodeKind::OP_JALR),
+            _ => illegal_inst_exception(),
+        },
         0b1100011 => match funct3 {
             0b000 => Ok(OpecodeKind::OP_BEQ),
             0b001 => Ok(OpecodeKind::OP_BNE),
@@ -78,6 +81,8 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
             0b111 => Ok(OpecodeKind::OP_ANDI),
             _ => illegal_inst_exception(),
         },
+        // ADD/SUB and SRL/SRA are told apart below
+        0b0110011 if funct7 != 0 && funct3 != 0b000 && funct3 != 0b101 => illegal_inst_exception(),
         0b0110011 => match funct3 {
             0b000 => match funct7 {
                 0b0000000 => Ok(OpecodeKind::OP_ADD),
@@ -97,7 +102,12 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
             0b111 => Ok(OpecodeKind::OP_AND),
             _ => illegal_inst_exception(),
         },
-        0b0001111 => Ok(OpecodeKind::OP_FENCE),
+        0b0001111 => match funct3 {
+            0b000 | 0b001 => Ok(OpecodeKind::OP_FENCE),
+            _ => illegal_inst_exception(),
+        },
+        // rs1 and rd are zero in ECALL and EBREAK
+        0b1110011 if inst.slice(19, 7) != 0 => illegal_inst_exception(),
         0b1110011 => match funct3 {
             0b000 => match funct7 {
                 0b0000000 => match funct5 {
@@ -109,6 +119,8 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
             },
             _ => illegal_inst_exception(),
         },
+        // SLLIW and SLLW have no alternative funct7
+        0b0011011 | 0b0111011 if funct3 == 0b001 && funct7 != 0 => illegal_inst_exception(),
         0b0011011 => match funct3 {
             0b000 => only_rv64(OpecodeKind::OP_ADDIW, isa),
             0b001 => only_rv64(OpecodeKind::OP_SLLIW, isa),
diff --git a/src/cpu/decode/inst_32/priv_extension.rs b/src/cpu/decode/inst_32/priv_extension.rs
index d433373..eabeaad 100644
--- a/src/cpu/decode/inst_32/priv_extension.rs
+++ b/src/cpu/decode/inst_32/priv_extension.rs
@@ -12,7 +12,8 @@ pub fn parse_opecode(inst: u32) -> Result<OpecodeKind, (Option<u64>, TrapCause,
         0b00110000001000000000000001110011 => Ok(OpecodeKind::OP_MRET),
         0b00010000010100000000000001110011 => Ok(OpecodeKind::OP_WFI),
         _ => match funct7 {
-            0b0001001 => Ok(OpecodeKind::OP_SFENCE_VMA),
+            // rd is zero in SFENCE.VMA
+            0b0001001 if inst.slice(11, 7) == 0 => Ok(OpecodeKind::OP_SFENCE_VMA),
             _ => Err((
                 Some(u64::from(inst)),
                 TrapCause::IllegalInst,
-- 
2.43.0


From 616eb2795272f97e2270fd2b34ab52059fee8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 15/77] fix: a failing SC ends the reservation

---
 src/cpu/execution/inst_32/a_extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 348c87d..725ca6d 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -64,6 +64,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
@@ -133,6 +134,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
-- 
2.43.0


From 264f3fb1c8d244cab089342834d9629eb0f1e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 16/77] fix: a faulting AMO raises the store/AMO fault and
 leaves rd alone

---
 src/cpu/execution/inst_32/a_extension.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 725ca6d..9681c14 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -11,11 +11,15 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
         TransAlign::Size32,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load32(amo_addr)?;
+    // an AMO reports a denied load as a store/AMO fault
+    let loaded_data = cpu
+        .bus
+        .load32(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
@@ -30,11 +34,15 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
         TransAlign::Size64,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load64(amo_addr)?;
+    // an AMO reports a denied load as a store/AMO fault
+    let loaded_data = cpu
+        .bus
+        .load64(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
-- 
2.43.0


From 34c8cd7b2ce8a690f577dbab900b4756c6c13cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 17/77] fix: vector traps by the cause being taken, and
 interrupts only

---
 src/cpu/trap.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7bb99b3..516b325 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -150,12 +150,17 @@ impl Cpu {
 
         // check Machine Trap Delegation Registers
         let deleg = self.get_deleg(cause_of_trap);
+
+        // only interrupts are vectored
+        let vector_offset = if cause_of_trap as u64 >> 31 & 1 == 1 {
+            4 * (cause_of_trap as u64 & 0x7fff_ffff)
+        } else {
+            0
+        };
         let new_pc = if self.priv_lv() != PrivilegedLevel::Machine
             && (deleg & 1 << cause_of_trap as u32) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
-            let scause = self.csrs.read(CSRname::scause.wrap()).unwrap();
-
             log::infoln!("delegated");
             self.csrs
                 .write(
@@ -192,14 +197,12 @@ impl Cpu {
 
             let stvec = self.csrs.read(CSRname::stvec.wrap()).unwrap();
             if stvec & 0b1 == 1 {
-                (stvec - 1) + 4 * scause.trailing_zeros() as u64
+                (stvec - 1) + vector_offset
             } else {
                 stvec
             }
         } else {
             self.set_priv_lv(PrivilegedLevel::Machine);
-            let mcause = self.csrs.read(CSRname::mcause.wrap()).unwrap();
-
             self.csrs
                 .write(
                     CSRname::mcause.wrap(),
@@ -235,7 +238,7 @@ impl Cpu {
 
             let mtvec = self.csrs.read(CSRname::mtvec.wrap()).unwrap();
             if mtvec & 0b1 == 1 {
-                (mtvec - 1) + 4 * mcause.trailing_zeros() as u64
+                (mtvec - 1) + vector_offset
             } else {
                 mtvec
             }
-- 
2.43.0


From f84f1c0c209b93250fd750e38bfbeb033fa8113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 18/77] fix: taking an interrupt does not clear its pending bit

---
 src/cpu/trap.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 516b325..ee39f31 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -63,8 +63,6 @@ impl Cpu {
         let is_interrupt_enabled = |bit: u64| (enabled_interrupt_mask & (1 << bit)) != 0;
 
         if is_interrupt_enabled(MEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MEIP).unwrap();
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::MachineExternalInterrupt,
@@ -72,7 +70,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MSIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::MachineSoftwareInterrupt,
@@ -80,8 +77,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MTIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MTIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::MachineTimerInterrupt,
@@ -89,8 +84,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SEIP).unwrap();
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::SupervisorExternalInterrupt,
@@ -98,7 +91,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SSIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::SupervisorSoftwareInterrupt,
@@ -106,8 +98,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(STIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << STIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::SupervisorTimerInterrupt,
-- 
2.43.0


From 083cfda7f3492a4f7098a71544ab193f5ab02dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 19/77] fix: gate MRET, SRET and SFENCE.VMA by privilege and
 trap precisely

---
 src/cpu/execution/inst_32/priv_extension.rs | 56 +++++++++++++--------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7e60da7..3963ce2 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -6,10 +6,11 @@ use crate::log;
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     match inst.opc {
         OpecodeKind::OP_SRET => {
-            let require_priv = if cpu
-                .csrs
-                .read_xstatus(PrivilegedLevel::Machine, Xstatus::TSR)
-                == 1
+            let require_priv = if cpu.priv_lv() == PrivilegedLevel::Supervisor
+                && cpu
+                    .csrs
+                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TSR)
+                    == 1
             {
                 PrivilegedLevel::Machine
             } else {
@@ -17,23 +18,17 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             };
             if cpu.priv_lv() < require_priv {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    Some(0x1020_0073),
                     TrapCause::IllegalInst,
-                    "exec sret but mstatus.TSR == 1".to_string(),
+                    "exec sret without the required privilege".to_string(),
                 ));
             }
 
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
-            if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
-                // mstatus.TSR == 1
-                let except_pc = cpu.pc();
-                cpu.trap(except_pc, TrapCause::IllegalInst);
-            } else {
-                let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
-                cpu.update_pc(new_pc);
-            }
+            let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
+            cpu.update_pc(new_pc);
 
             // sstatus.SIE = sstatus.SPIE
             cpu.csrs.write_xstatus(
@@ -58,6 +53,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             log::debugln!("csrs.sepc: {:#x}", cpu.csrs.read(CSRname::sepc.wrap())?);
         }
         OpecodeKind::OP_MRET => {
+            if cpu.priv_lv() != PrivilegedLevel::Machine {
+                return Err((
+                    Some(0x3020_0073),
+                    TrapCause::IllegalInst,
+                    "exec mret outside machine mode".to_string(),
+                ));
+            }
+
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::MPP);
@@ -87,14 +90,23 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
-            if cpu.priv_lv() == PrivilegedLevel::Supervisor
-                && cpu
-                    .csrs
-                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
-                    == 1
-            {
-                let illegal_inst = cpu.bus.load32(cpu.pc())?;
-                cpu.trap(illegal_inst, TrapCause::IllegalInst);
+            let is_trapped = match cpu.priv_lv() {
+                PrivilegedLevel::Machine => false,
+                PrivilegedLevel::Supervisor => {
+                    cpu.csrs
+                        .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
+                        == 1
+                }
+                _ => true,
+            };
+            if is_trapped {
+                let rs1 = inst.rs1.unwrap_or(0) as u64;
+                let rs2 = inst.rs2.unwrap_or(0) as u64;
+                return Err((
+                    Some(0x1200_0073 | rs2 << 20 | rs1 << 15),
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma without the required privilege".to_string(),
+                ));
             }
         }
         _ => panic!("not an privileged extension"),
-- 
2.43.0


From 903d4d578d1af9d3fdde4de4f4a87bb712916570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 20/77] fix: writing the reserved privilege level to
 mstatus.MPP keeps the old value

---
 src/cpu/csr.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index a77c9d8..e0343bb 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -90,6 +90,16 @@ impl CSRs {
         }
     }
 
+    // mstatus.MPP is WARL: the reserved level 0b10 leaves the field as it was
+    fn keep_legal_mpp(&self, src: u64) -> u64 {
+        const MPP: u64 = 0b11 << 11;
+        if src & MPP == 0b10 << 11 {
+            (src & !MPP) | (self.csrs[MSTATUS] & MPP)
+        } else {
+            src
+        }
+    }
+
     pub fn bitset(
         &mut self,
         dist: Option<usize>,
@@ -104,6 +114,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
+                MSTATUS => return self.write(Some(dist), self.csrs[dist] | mask),
                 _ => self.csrs[dist] |= mask,
             }
         }
@@ -125,6 +136,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
+                MSTATUS => return self.write(Some(dist), self.csrs[dist] & !mask),
                 _ => self.csrs[dist] &= !mask,
             }
         }
@@ -153,10 +165,13 @@ impl CSRs {
                     self.csrs[MISA] = src
                 }
             }
-            MSTATUS => match *self.isa {
-                Isa::Rv32 => self.csrs[dist] = src,
-                Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
-            },
+            MSTATUS => {
+                let src = self.keep_legal_mpp(src);
+                match *self.isa {
+                    Isa::Rv32 => self.csrs[dist] = src,
+                    Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
+                }
+            }
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
-- 
2.43.0


From 3078e09c49112190b78834206b219e884edc195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 21/77] fix: check privilege and read-only bits of every CSR
 number and report the encoding

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 62 ++++++++++++++++----
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 1a4077e..c54f09e 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,18 +1,60 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
-use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause, Xstatus};
+use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TrapCause, Xstatus};
 
-fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
-    let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let invalid_instruction = Some(cpu.bus.load_u32(inst_addr).expect("get instruction failed"));
+/// The instruction word, which is the trap value of an illegal CSR access.
+fn encoding(inst: &Instruction) -> u64 {
+    let funct3 = match inst.opc {
+        OpecodeKind::OP_CSRRW => 0b001,
+        OpecodeKind::OP_CSRRS => 0b010,
+        OpecodeKind::OP_CSRRC => 0b011,
+        OpecodeKind::OP_CSRRWI => 0b101,
+        OpecodeKind::OP_CSRRSI => 0b110,
+        OpecodeKind::OP_CSRRCI => 0b111,
+        _ => panic!("not an Zicsr extension"),
+    };
+
+    (inst.rs2.unwrap() as u64) << 20
+        | (inst.rs1.unwrap() as u64) << 15
+        | funct3 << 12
+        | (inst.rd.unwrap() as u64) << 7
+        | 0b1110011
+}
+
+fn check_accessible(
+    cpu: &mut Cpu,
+    inst: &Instruction,
+) -> Result<(), (Option<u64>, TrapCause, String)> {
+    let dist = inst.rs2.unwrap();
+    let invalid_instruction = Some(encoding(inst));
 
     if dist >= 4096 {
         return Err((
-            None,
+            invalid_instruction,
             TrapCause::IllegalInst,
             format!("csr size is 4096, but you accessed {dist:x}"),
         ));
     }
 
+    // bits 9:8 of the number are the lowest privilege level with access
+    if (cpu.priv_lv() as usize) < (dist >> 8 & 0b11) {
+        return Err((
+            invalid_instruction,
+            TrapCause::IllegalInst,
+            format!("You are in {:?} mode but accessed {dist:x}", cpu.priv_lv()),
+        ));
+    }
+
+    // bits 11:10 both set mean read-only; csrrs and csrrc with rs1 = 0 do not write
+    let is_write = matches!(inst.opc, OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI)
+        || inst.rs1 != Some(0);
+    if dist >> 10 == 0b11 && is_write {
+        return Err((
+            invalid_instruction,
+            TrapCause::IllegalInst,
+            format!("attempt writing to the read-only csr {dist:x}"),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
             if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
@@ -128,7 +170,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             0xc00 => match cpu.priv_lv() {
                 PrivilegedLevel::Machine => Ok(()),
                 _ => Err((
-                    None,
+                    invalid_instruction,
                     TrapCause::IllegalInst,
                     format!("writing to cycle is not allowed: {dist:x}"),
                 )),
@@ -140,7 +182,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                     Ok(())
                 } else {
                     Err((
-                        None,
+                        invalid_instruction,
                         TrapCause::IllegalInst,
                         format!("unknown CSR number: {dist:x}"),
                     ))
@@ -150,7 +192,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             0x14d => match cpu.priv_lv() {
                 PrivilegedLevel::Supervisor => Ok(()),
                 _ => Err((
-                    None,
+                    invalid_instruction,
                     TrapCause::IllegalInst,
                     format!("unknown CSR number: {dist:x}"),
                 )),
@@ -160,7 +202,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
     } else {
         // out of range
         Err((
-            None,
+            invalid_instruction,
             TrapCause::IllegalInst,
             format!("unknown CSR number: {dist:x}"),
         ))
@@ -168,7 +210,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 }
 
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
-    check_accessible(cpu, inst.rs2.unwrap())?;
+    check_accessible(cpu, inst)?;
 
     match inst.opc {
         OpecodeKind::OP_CSRRW => {
-- 
2.43.0


From a65635ec96301c3143f8293dbb835f828a2fda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 22/77] fix: RV32 timeh reads the upper half of time and obeys
 the counter enables

---
 src/cpu/csr.rs                               |  2 ++
 src/cpu/execution/inst_32/zicsr_extension.rs | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index e0343bb..7973cad 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -13,6 +13,7 @@ const MSTATUS: usize = CSRname::mstatus as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
+const TIMERH: usize = 0xc81;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -199,6 +200,7 @@ impl CSRs {
             SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & SIESIPMASK),
             SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & SIESIPMASK),
             0x341 | 0x141 => self.read_xepc(dist),
+            TIMERH if matches!(*self.isa, Isa::Rv32) => Ok(self.csrs[CSRname::timer as usize] >> 32),
             _ => Ok(self.csrs[dist].fix2regsz(&self.isa)),
         }
     }
diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index c54f09e..ffb18a6 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,5 +1,6 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TrapCause, Xstatus};
+use crate::Isa;
 
 /// The instruction word, which is the trap value of an illegal CSR access.
 fn encoding(inst: &Instruction) -> u64 {
@@ -55,6 +56,12 @@ fn check_accessible(
         ));
     }
 
+    // the upper halves of the RV32 counters share the enable bit of the lower ones
+    let counter = match *cpu.isa {
+        Isa::Rv32 if (0xc80..=0xc9f).contains(&dist) => dist - 0x80,
+        _ => dist,
+    };
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
             if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
@@ -65,9 +72,9 @@ fn check_accessible(
                 ));
             }
 
-            if (0xc00..=0xc1f).contains(&dist) {
+            if (0xc00..=0xc1f).contains(&counter) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
-                if mctren >> (dist - 0xc00) & 0x1 == 0 {
+                if mctren >> (counter - 0xc00) & 0x1 == 0 {
                     return Err((
                         invalid_instruction,
                         TrapCause::IllegalInst,
@@ -75,7 +82,7 @@ fn check_accessible(
                     ));
                 }
                 let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;
-                if sctren >> (dist - 0xc00) & 0x1 == 0 {
+                if sctren >> (counter - 0xc00) & 0x1 == 0 {
                     return Err((
                         invalid_instruction,
                         TrapCause::IllegalInst,
@@ -93,9 +100,9 @@ fn check_accessible(
                 ));
             }
 
-            if (0xc00..=0xc1f).contains(&dist) {
+            if (0xc00..=0xc1f).contains(&counter) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
-                if mctren >> (dist - 0xc00) & 0x1 == 0 {
+                if mctren >> (counter - 0xc00) & 0x1 == 0 {
                     return Err((
                         invalid_instruction,
                         TrapCause::IllegalInst,
-- 
2.43.0


From 14568d975cb170d81c43781cb3f0154fe37bb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 23/77] fix: sstatus shows exactly the supervisor fields and
 writing it replaces them

---
 src/cpu/csr.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 7973cad..f341ae1 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -53,26 +53,29 @@ impl CSRs {
     }
 
     fn umask(&self) -> u64 {
-        match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
-        }
+        // UIE and UPIE
+        0b10001
     }
 
     fn smask(&self) -> u64 {
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => 0b10000000000011011110000100110011,
+            Isa::Rv64 => 0b1000000000000000000000000000001100000000000011011110000100110011,
         }
     }
 
     fn mmask(&self) -> u64 {
         match *self.isa {
             Isa::Rv32 => 0b10000000011111111111100110111011,
-            Isa::Rv64 => 0b100000000000000000000000000111100000000011111111111100110111011,
+            Isa::Rv64 => 0b1000000000000000000000000000111100000000011111111111100110111011,
         }
     }
 
+    // the fields of mstatus a write to sstatus changes: UXL and SD are read-only
+    fn swmask(&self) -> u64 {
+        self.smask() & 0x7fff_ffff
+    }
+
     fn mask_warl(&mut self, dst: usize, mask: u64) -> u64 {
         match dst {
             MISA => {
@@ -112,7 +115,7 @@ impl CSRs {
         if mask != 0 {
             match dist {
                 USTATUS => self.csrs[MSTATUS] |= mask & self.umask(),
-                SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
+                SSTATUS => self.csrs[MSTATUS] |= mask & self.swmask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
                 MSTATUS => return self.write(Some(dist), self.csrs[dist] | mask),
@@ -134,7 +137,7 @@ impl CSRs {
         if mask != 0 {
             match dist {
                 USTATUS => self.csrs[MSTATUS] &= !(mask & self.umask()),
-                SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
+                SSTATUS => self.csrs[MSTATUS] &= !(mask & self.swmask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
                 MSTATUS => return self.write(Some(dist), self.csrs[dist] & !mask),
@@ -154,8 +157,12 @@ impl CSRs {
 
         let src = src.fix2regsz(&self.isa);
         match dist {
-            USTATUS => self.csrs[MSTATUS] |= src & self.umask(),
-            SSTATUS => self.csrs[MSTATUS] |= src & self.smask(),
+            USTATUS => {
+                self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !self.umask()) | (src & self.umask())
+            }
+            SSTATUS => {
+                self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !self.swmask()) | (src & self.swmask())
+            }
             SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
             SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
             MISA => {
-- 
2.43.0


From 5afc55c9aca2fe5f4056056c553cac008ae26ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 24/77] fix: mstatus.SD summarises FS and XS instead of being
 stored

---
 src/cpu/csr.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index f341ae1..b89e73a 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -188,6 +188,21 @@ impl CSRs {
         Ok(())
     }
 
+    // SD is not stored: it tells whether FS or XS is dirty
+    fn mstatus(&self) -> u64 {
+        let sd = match *self.isa {
+            Isa::Rv32 => 1 << 31,
+            Isa::Rv64 => 1 << 63,
+        };
+        let mstatus = self.csrs[MSTATUS] & !sd;
+
+        if mstatus >> 13 & 0b11 == 0b11 || mstatus >> 15 & 0b11 == 0b11 {
+            mstatus | sd
+        } else {
+            mstatus
+        }
+    }
+
     fn read_xepc(&self, dist: usize) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.csrs[CSRname::misa as usize] >> 2 & 0x1 == 1 {
             // C extension enabled (IALIGN = 16)
@@ -203,7 +218,8 @@ impl CSRs {
 
         match dist {
             0x000 => Ok(self.csrs[0x300].fix2regsz(&self.isa) & self.umask()),
-            0x100 => Ok(self.csrs[0x300].fix2regsz(&self.isa) & self.smask()),
+            0x100 => Ok(self.mstatus().fix2regsz(&self.isa) & self.smask()),
+            MSTATUS => Ok(self.mstatus().fix2regsz(&self.isa)),
             SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & SIESIPMASK),
             SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & SIESIPMASK),
             0x341 | 0x141 => self.read_xepc(dist),
-- 
2.43.0


From 1a418c6fad22d1e25ddc7af8757040b23eb672c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 25/77] fix: sie and sip are views of the delegated interrupts
 and keep the other bits

---
 src/cpu/csr.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index b89e73a..2b15e14 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -94,6 +94,16 @@ impl CSRs {
         }
     }
 
+    // sie and sip show the interrupts that are delegated to S-mode
+    fn sint_mask(&self) -> u64 {
+        self.csrs[CSRname::mideleg as usize] & SIESIPMASK
+    }
+
+    // STIP and SEIP are read-only in sip
+    fn sip_wmask(&self) -> u64 {
+        self.sint_mask() & 0x0103
+    }
+
     // mstatus.MPP is WARL: the reserved level 0b10 leaves the field as it was
     fn keep_legal_mpp(&self, src: u64) -> u64 {
         const MPP: u64 = 0b11 << 11;
@@ -116,8 +126,8 @@ impl CSRs {
             match dist {
                 USTATUS => self.csrs[MSTATUS] |= mask & self.umask(),
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.swmask(),
-                SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
-                SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
+                SIE => self.csrs[CSRname::mie as usize] |= mask & self.sint_mask(),
+                SIP => self.csrs[CSRname::mip as usize] |= mask & self.sip_wmask(),
                 MSTATUS => return self.write(Some(dist), self.csrs[dist] | mask),
                 _ => self.csrs[dist] |= mask,
             }
@@ -138,8 +148,8 @@ impl CSRs {
             match dist {
                 USTATUS => self.csrs[MSTATUS] &= !(mask & self.umask()),
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.swmask()),
-                SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
-                SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
+                SIE => self.csrs[CSRname::mie as usize] &= !(mask & self.sint_mask()),
+                SIP => self.csrs[CSRname::mip as usize] &= !(mask & self.sip_wmask()),
                 MSTATUS => return self.write(Some(dist), self.csrs[dist] & !mask),
                 _ => self.csrs[dist] &= !mask,
             }
@@ -163,8 +173,16 @@ impl CSRs {
             SSTATUS => {
                 self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !self.swmask()) | (src & self.swmask())
             }
-            SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
-            SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
+            SIE => {
+                let mask = self.sint_mask();
+                let mie = &mut self.csrs[CSRname::mie as usize];
+                *mie = (*mie & !mask) | (src & mask)
+            }
+            SIP => {
+                let mask = self.sip_wmask();
+                let mip = &mut self.csrs[CSRname::mip as usize];
+                *mip = (*mip & !mask) | (src & mask)
+            }
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
@@ -220,8 +238,8 @@ impl CSRs {
             0x000 => Ok(self.csrs[0x300].fix2regsz(&self.isa) & self.umask()),
             0x100 => Ok(self.mstatus().fix2regsz(&self.isa) & self.smask()),
             MSTATUS => Ok(self.mstatus().fix2regsz(&self.isa)),
-            SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & SIESIPMASK),
-            SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & SIESIPMASK),
+            SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & self.sint_mask()),
+            SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & self.sint_mask()),
             0x341 | 0x141 => self.read_xepc(dist),
             TIMERH if matches!(*self.isa, Isa::Rv32) => Ok(self.csrs[CSRname::timer as usize] >> 32),
             _ => Ok(self.csrs[dist].fix2regsz(&self.isa)),
-- 
2.43.0


From f2a0a8ecf0d606e7ccca49effed1ed80575b3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 26/77] fix: writing an unsupported mode to satp has no effect

---
 src/cpu/csr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 2b15e14..df3910c 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -14,6 +14,7 @@ const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
 const TIMERH: usize = 0xc81;
+const SATP: usize = CSRname::satp as usize;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -128,7 +129,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.swmask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & self.sint_mask(),
                 SIP => self.csrs[CSRname::mip as usize] |= mask & self.sip_wmask(),
-                MSTATUS => return self.write(Some(dist), self.csrs[dist] | mask),
+                MSTATUS | SATP => return self.write(Some(dist), self.csrs[dist] | mask),
                 _ => self.csrs[dist] |= mask,
             }
         }
@@ -150,7 +151,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.swmask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & self.sint_mask()),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & self.sip_wmask()),
-                MSTATUS => return self.write(Some(dist), self.csrs[dist] & !mask),
+                MSTATUS | SATP => return self.write(Some(dist), self.csrs[dist] & !mask),
                 _ => self.csrs[dist] &= !mask,
             }
         }
@@ -198,6 +199,11 @@ impl CSRs {
                     Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
                 }
             }
+            // a write with an unsupported mode has no effect
+            SATP => match *self.isa {
+                Isa::Rv64 if src >> 60 != 0 && src >> 60 != 8 => (),
+                _ => self.csrs[SATP] = src,
+            },
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
-- 
2.43.0


From 3bdab6c1cee754a9692191fe34d6ab0b50129eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 27/77] fix: all address triggers work independently and no
 trigger setting aborts

---
 src/cpu/csr.rs            | 11 +++++++++--
 src/cpu/csr/breakpoint.rs | 25 +++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index df3910c..f6ac067 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -15,6 +15,9 @@ const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
 const TIMERH: usize = 0xc81;
 const SATP: usize = CSRname::satp as usize;
+const TSELECT: usize = CSRname::tselect as usize;
+const TDATA1: usize = CSRname::tdata1 as usize;
+const TDATA2: usize = CSRname::tdata2 as usize;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -129,7 +132,9 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.swmask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & self.sint_mask(),
                 SIP => self.csrs[CSRname::mip as usize] |= mask & self.sip_wmask(),
-                MSTATUS | SATP => return self.write(Some(dist), self.csrs[dist] | mask),
+                MSTATUS | SATP | TSELECT | TDATA1 | TDATA2 => {
+                    return self.write(Some(dist), self.csrs[dist] | mask)
+                }
                 _ => self.csrs[dist] |= mask,
             }
         }
@@ -151,7 +156,9 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.swmask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & self.sint_mask()),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & self.sip_wmask()),
-                MSTATUS | SATP => return self.write(Some(dist), self.csrs[dist] & !mask),
+                MSTATUS | SATP | TSELECT | TDATA1 | TDATA2 => {
+                    return self.write(Some(dist), self.csrs[dist] & !mask)
+                }
                 _ => self.csrs[dist] &= !mask,
             }
         }
diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index d2f3dff..f37e61b 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -9,17 +9,38 @@ pub struct Triggers {
 }
 
 impl CSRs {
+    // the only trigger is mcontrol (type 2) with an equality match that raises a breakpoint
+    fn legalize_tdata1(&self, src: u64) -> u64 {
+        const MCONTROL_FIELDS: u64 = 0b101_1111; // m, s, u, execute, store, load
+        let type_shift = match *self.isa {
+            Isa::Rv32 => 28,
+            Isa::Rv64 => 60,
+        };
+
+        match src >> type_shift & 0xF {
+            0x2 => 0x2 << type_shift | src & MCONTROL_FIELDS,
+            _ => 0,
+        }
+    }
+
     pub fn update_triggers(&mut self, dist: usize, src: u64) {
         match dist {
             0x7a0 => {
                 // tselect
                 let tgr_index = src as usize;
+                if tgr_index >= self.triggers.tdata1.len() {
+                    // no such trigger: keep the selection
+                    self.csrs[dist] = self.triggers.tselect as u64;
+                    return;
+                }
                 self.triggers.tselect = tgr_index;
                 self.csrs[CSRname::tdata1 as usize] = self.triggers.tdata1[tgr_index];
                 self.csrs[CSRname::tdata2 as usize] = self.triggers.tdata2[tgr_index];
             }
             0x7a1 => {
                 // tdata1
+                let src = self.legalize_tdata1(src);
+                self.csrs[dist] = src;
                 self.triggers.tdata1[self.triggers.tselect] = src;
             }
             0x7a2 => {
@@ -37,7 +58,7 @@ impl Cpu {
         purpose: TransFor,
         addr: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        for trigger_num in 0..self.csrs.triggers.tselect + 1 {
+        for trigger_num in 0..self.csrs.triggers.tdata1.len() {
             let tdata1 = self.csrs.triggers.tdata1[trigger_num];
             let trigger_type = match *self.isa {
                 Isa::Rv32 => tdata1 >> 28 & 0xF,
@@ -59,7 +80,7 @@ impl Cpu {
                         || self.priv_lv() == PrivilegedLevel::Supervisor && mode_s == 0x0
                         || self.priv_lv() == PrivilegedLevel::User && mode_u == 0x0
                     {
-                        return Ok(());
+                        continue;
                     }
 
                     if match_mode != 0x0 {
-- 
2.43.0


From e580ccc8f60faf038ee307ac5324cc6321a50c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 28/77] fix: physical memory protection follows the entry
 layout, modes and lock bit

---
 src/cpu/mmu.rs     |  2 +-
 src/cpu/mmu/pmp.rs | 48 ++++++++++++++++++++++++++++++----------------
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 222b1a1..407c1d9 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -164,7 +164,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => Ok(addr),
+                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index c91331b..ee2203f 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,35 +1,41 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::log;
+use crate::{log, Isa};
 
 impl Mmu {
     fn check_pmp(
         &self,
         purpose: TransFor,
         addr: u64,
+        priv_lv: PrivilegedLevel,
         pmpcfg: u64,
         pmp_r: u64,
         pmp_w: u64,
         pmp_x: u64,
     ) -> Result<u64, TrapCause> {
+        // only a locked entry restricts machine mode
+        if priv_lv == PrivilegedLevel::Machine && pmpcfg >> 7 & 0x1 == 0 {
+            return Ok(addr);
+        }
+
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
                     log::debugln!("invalid pmp_x: {:x}", pmpcfg);
-                    return Err(TrapCause::InstPageFault);
+                    return Err(TrapCause::InstAccessFault);
                 }
             }
             TransFor::Load => {
                 if pmp_r != 1 {
                     log::debugln!("invalid pmp_r: {:x}", pmpcfg);
-                    return Err(TrapCause::LoadPageFault);
+                    return Err(TrapCause::LoadAccessFault);
                 }
             }
             TransFor::StoreAMO => {
                 if pmp_w != 1 {
                     log::debugln!("invalid pmp_w: {:x}", pmpcfg);
-                    return Err(TrapCause::StoreAMOPageFault);
+                    return Err(TrapCause::StoreAMOAccessFault);
                 }
             }
         }
@@ -44,12 +50,15 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
+        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
-            let cfgnum = pmpnum / 4;
-            let cfgoff = pmpnum % 4;
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (4 * cfgoff)
+            let (cfgnum, cfgoff) = match *self.isa {
+                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8), // only even-numbered registers
+            };
+            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff) & 0xFF
         };
+        let mut is_active = false;
 
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
@@ -58,8 +67,9 @@ impl Mmu {
             let pmp_w = pmpcfg >> 1 & 0x1;
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
+            is_active |= pmp_a != 0b00;
             match pmp_a {
-                0b00 => return Ok(addr),
+                0b00 => continue,
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
@@ -68,14 +78,18 @@ impl Mmu {
                             && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
                             && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
                     {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(
+                            purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x,
+                        );
                     }
                 }
                 0b10 => {
                     // NA4
                     let addr_aligned = addr >> 2; // addr[:2]
                     if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(
+                            purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x,
+                        );
                     }
                 }
                 0b11 => {
@@ -90,20 +104,22 @@ impl Mmu {
                     addr_aligned >>= 1;
 
                     if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(
+                            purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x,
+                        );
                     }
                 }
                 _ => panic!("pmp_a does not matched"),
             }
         }
 
-        if priv_lv == PrivilegedLevel::Machine {
+        if priv_lv == PrivilegedLevel::Machine || !is_active {
             Ok(addr)
         } else {
             Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstPageFault,
-                TransFor::Load => TrapCause::LoadPageFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOPageFault,
+                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+                TransFor::Load => TrapCause::LoadAccessFault,
+                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
             })
         }
     }
-- 
2.43.0


From 8f5659752fbaf980916b87d6b392227e864a25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 29/77] fix: locked physical memory protection entries cannot
 be changed

---
 src/cpu/csr.rs                               | 41 ++++++++++++++++++--
 src/cpu/execution/inst_32/base_i.rs          |  8 +---
 src/cpu/execution/inst_32/zicsr_extension.rs |  4 +-
 src/cpu/mmu/pmp.rs                           | 12 ++----
 4 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index f6ac067..2ff9c0f 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -18,6 +18,9 @@ const SATP: usize = CSRname::satp as usize;
 const TSELECT: usize = CSRname::tselect as usize;
 const TDATA1: usize = CSRname::tdata1 as usize;
 const TDATA2: usize = CSRname::tdata2 as usize;
+const PMPCFG0: usize = 0x3a0;
+const PMPADDR0: usize = 0x3b0;
+const PMPADDR15: usize = 0x3bf;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -108,6 +111,35 @@ impl CSRs {
         self.sint_mask() & 0x0103
     }
 
+    // a locked PMP entry keeps its configuration and addresses until reset
+    fn keep_locked_pmp(&self, dist: usize, src: u64) -> u64 {
+        let cfg = |entry: usize| {
+            let (num, off) = match *self.isa {
+                Isa::Rv32 => (entry / 4, entry % 4),
+                Isa::Rv64 => (entry / 8 * 2, entry % 8),
+            };
+            self.csrs[PMPCFG0 + num] >> (8 * off) & 0xFF
+        };
+        let is_locked = |entry: usize| cfg(entry) >> 7 == 1;
+
+        if dist < PMPADDR0 {
+            let locked_bytes = (0..8)
+                .filter(|byte| self.csrs[dist] >> (8 * byte + 7) & 1 == 1)
+                .fold(0, |mask: u64, byte| mask | 0xFF << (8 * byte));
+            (src & !locked_bytes) | (self.csrs[dist] & locked_bytes)
+        } else {
+            let entry = dist - PMPADDR0;
+            // a locked top-of-range entry also locks the address below it
+            let is_bottom_locked =
+                entry < 15 && is_locked(entry + 1) && cfg(entry + 1) >> 3 & 0b11 == 0b01;
+            if is_locked(entry) || is_bottom_locked {
+                self.csrs[dist]
+            } else {
+                src
+            }
+        }
+    }
+
     // mstatus.MPP is WARL: the reserved level 0b10 leaves the field as it was
     fn keep_legal_mpp(&self, src: u64) -> u64 {
         const MPP: u64 = 0b11 << 11;
@@ -132,7 +164,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.swmask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & self.sint_mask(),
                 SIP => self.csrs[CSRname::mip as usize] |= mask & self.sip_wmask(),
-                MSTATUS | SATP | TSELECT | TDATA1 | TDATA2 => {
+                MSTATUS | SATP | TSELECT | TDATA1 | TDATA2 | PMPCFG0..=PMPADDR15 => {
                     return self.write(Some(dist), self.csrs[dist] | mask)
                 }
                 _ => self.csrs[dist] |= mask,
@@ -156,7 +188,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.swmask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & self.sint_mask()),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & self.sip_wmask()),
-                MSTATUS | SATP | TSELECT | TDATA1 | TDATA2 => {
+                MSTATUS | SATP | TSELECT | TDATA1 | TDATA2 | PMPCFG0..=PMPADDR15 => {
                     return self.write(Some(dist), self.csrs[dist] & !mask)
                 }
                 _ => self.csrs[dist] &= !mask,
@@ -211,6 +243,7 @@ impl CSRs {
                 Isa::Rv64 if src >> 60 != 0 && src >> 60 != 8 => (),
                 _ => self.csrs[SATP] = src,
             },
+            PMPCFG0..=PMPADDR15 => self.csrs[dist] = self.keep_locked_pmp(dist, src),
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
@@ -254,7 +287,9 @@ impl CSRs {
             SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & self.sint_mask()),
             SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & self.sint_mask()),
             0x341 | 0x141 => self.read_xepc(dist),
-            TIMERH if matches!(*self.isa, Isa::Rv32) => Ok(self.csrs[CSRname::timer as usize] >> 32),
+            TIMERH if matches!(*self.isa, Isa::Rv32) => {
+                Ok(self.csrs[CSRname::timer as usize] >> 32)
+            }
             _ => Ok(self.csrs[dist].fix2regsz(&self.isa)),
         }
     }
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 3947e50..1185d6c 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -240,9 +240,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             cpu.regs.write(
                 inst.rd,
                 match *cpu.isa {
-                    Isa::Rv32 => {
-                        cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b11111)
-                    }
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b11111),
                     Isa::Rv64 => cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2),
                 },
             );
@@ -274,9 +272,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             cpu.regs.write(
                 inst.rd,
                 match *cpu.isa {
-                    Isa::Rv32 => {
-                        cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b11111)
-                    }
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b11111),
                     Isa::Rv64 => cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2),
                 },
             );
diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index ffb18a6..3963be0 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -46,8 +46,8 @@ fn check_accessible(
     }
 
     // bits 11:10 both set mean read-only; csrrs and csrrc with rs1 = 0 do not write
-    let is_write = matches!(inst.opc, OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI)
-        || inst.rs1 != Some(0);
+    let is_write =
+        matches!(inst.opc, OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI) || inst.rs1 != Some(0);
     if dist >> 10 == 0b11 && is_write {
         return Err((
             invalid_instruction,
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index ee2203f..64066bf 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -78,18 +78,14 @@ impl Mmu {
                             && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
                             && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
                     {
-                        return self.check_pmp(
-                            purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x,
-                        );
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
                     }
                 }
                 0b10 => {
                     // NA4
                     let addr_aligned = addr >> 2; // addr[:2]
                     if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(
-                            purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x,
-                        );
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
                     }
                 }
                 0b11 => {
@@ -104,9 +100,7 @@ impl Mmu {
                     addr_aligned >>= 1;
 
                     if addr_aligned == pmpaddr {
-                        return self.check_pmp(
-                            purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x,
-                        );
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
                     }
                 }
                 _ => panic!("pmp_a does not matched"),
-- 
2.43.0


From 228cbc3063c74f61cb275a51d900976c48f1360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 30/77] fix: a protection entry must cover every byte of an
 access

---
 src/cpu.rs         | 15 ++++++++++-----
 src/cpu/mmu.rs     |  7 ++++---
 src/cpu/mmu/pmp.rs | 44 +++++++++++++++++++++++++++-----------------
 3 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 544c5cc..28325e3 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -149,12 +149,17 @@ impl Cpu {
             }
         }
 
-        match self
-            .mmu
-            .trans_addr(purpose, addr, &self.csrs, &mut self.bus.dram, trans_priv)
-        {
+        let size = align as u64;
+        match self.mmu.trans_addr(
+            purpose,
+            addr,
+            size,
+            &self.csrs,
+            &mut self.bus.dram,
+            trans_priv,
+        ) {
             Ok(vaddr) => {
-                if addr % align as u64 == 0 {
+                if addr % size == 0 {
                     Ok(vaddr.fix2regsz(&self.isa))
                 } else {
                     let cause = match purpose {
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 407c1d9..d83690e 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -153,6 +153,7 @@ impl Mmu {
         &mut self,
         purpose: TransFor,
         addr: u64,
+        size: u64,
         csrs: &CSRs,
         dram: &mut Dram,
         priv_lv: PrivilegedLevel,
@@ -164,7 +165,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
+                AddrTransMode::Bare => self.pmp(purpose, addr, size, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
@@ -254,11 +255,11 @@ impl Mmu {
                         paddr,
                     );
 
-                    self.pmp(purpose, paddr, priv_lv, csrs)
+                    self.pmp(purpose, paddr, size, priv_lv, csrs)
                 }
             },
             // return raw address if privileged level is Machine
-            _ => self.pmp(purpose, addr, priv_lv, csrs),
+            _ => self.pmp(purpose, addr, size, priv_lv, csrs),
         }
     }
 }
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 64066bf..f6b6cf4 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -4,6 +4,14 @@ use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
 use crate::{log, Isa};
 
 impl Mmu {
+    pub fn access_fault(&self, purpose: TransFor) -> TrapCause {
+        match purpose {
+            TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+            TransFor::Load => TrapCause::LoadAccessFault,
+            TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
+        }
+    }
+
     fn check_pmp(
         &self,
         purpose: TransFor,
@@ -47,6 +55,7 @@ impl Mmu {
         &self,
         purpose: TransFor,
         addr: u64,
+        size: u64,
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
@@ -60,6 +69,9 @@ impl Mmu {
         };
         let mut is_active = false;
 
+        // entries have a granularity of four bytes, an access covers one or two of them
+        let last = addr + (size - 1);
+
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
             let pmpcfg = get_pmpcfg(index);
@@ -68,25 +80,20 @@ impl Mmu {
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
             is_active |= pmp_a != 0b00;
-            match pmp_a {
-                0b00 => continue,
+            let is_match = |addr: u64| match pmp_a {
+                0b00 => false,
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
-                    if (index == 0 && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
+                    (index == 0 && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
                         || (index != 0
                             && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
                             && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
-                    {
-                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
-                    }
                 }
                 0b10 => {
                     // NA4
                     let addr_aligned = addr >> 2; // addr[:2]
-                    if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
-                    }
+                    addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap()
                 }
                 0b11 => {
                     // NAPOT
@@ -99,22 +106,25 @@ impl Mmu {
                     pmpaddr >>= 1;
                     addr_aligned >>= 1;
 
-                    if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
-                    }
+                    addr_aligned == pmpaddr
                 }
                 _ => panic!("pmp_a does not matched"),
+            };
+
+            match (is_match(addr), is_match(last)) {
+                (true, true) => {
+                    return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x)
+                }
+                (false, false) => (),
+                // the entry must cover all bytes of the access
+                _ => return Err(self.access_fault(purpose)),
             }
         }
 
         if priv_lv == PrivilegedLevel::Machine || !is_active {
             Ok(addr)
         } else {
-            Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
-                TransFor::Load => TrapCause::LoadAccessFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
-            })
+            Err(self.access_fault(purpose))
         }
     }
 }
-- 
2.43.0


From 7e6e4435999c5b60122595d510dc0033dd084484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 31/77] fix: an unreadable page table entry raises an access
 fault instead of aborting

---
 src/bus/dram.rs    |  2 +-
 src/cpu/mmu.rs     | 30 +++++++++++++++++++++++-------
 src/cpu/mmu/pmp.rs |  2 +-
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 4328fad..0d1477a 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -81,7 +81,7 @@ impl Dram {
 impl Device for Dram {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index d83690e..564a6f8 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -187,13 +187,29 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
-                        let pte =
-                            match *self.isa {
-                                Isa::Rv32 => self
-                                    .check_pte_validity(purpose, dram.load32(pte_addr).unwrap())?,
-                                Isa::Rv64 => self
-                                    .check_pte_validity(purpose, dram.load64(pte_addr).unwrap())?,
-                            };
+                        // a table outside memory, or protected from S-mode, is not readable
+                        let is_readable = dram.in_range(pte_addr)
+                            && dram.in_range(pte_addr + pte_size - 1)
+                            && self
+                                .pmp(
+                                    TransFor::Load,
+                                    pte_addr,
+                                    pte_size,
+                                    PrivilegedLevel::Supervisor,
+                                    csrs,
+                                )
+                                .is_ok();
+                        if !is_readable {
+                            return Err(self.access_fault(purpose));
+                        }
+                        let pte = match *self.isa {
+                            Isa::Rv32 => {
+                                self.check_pte_validity(purpose, dram.load_u32(pte_addr).unwrap())?
+                            }
+                            Isa::Rv64 => {
+                                self.check_pte_validity(purpose, dram.load64(pte_addr).unwrap())?
+                            }
+                        };
                         log::debugln!("pte({}): 0x{:x}", level, pte);
 
                         if self.is_leaf_pte(pte) {
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index f6b6cf4..9a569d3 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -70,7 +70,7 @@ impl Mmu {
         let mut is_active = false;
 
         // entries have a granularity of four bytes, an access covers one or two of them
-        let last = addr + (size - 1);
+        let last = addr.wrapping_add(size - 1);
 
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
-- 
2.43.0


From b08f288117cbf4c587f973d54ea5befb0815fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 32/77] fix: Sv39 rejects non-canonical addresses and S-mode
 does not execute user pages

---
 src/cpu/mmu.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 564a6f8..b268103 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -109,6 +109,12 @@ impl Mmu {
         // check the PTE field according to translate purpose
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
+                // S-mode never executes user pages
+                if pte_u == 1 && priv_lv == PrivilegedLevel::Supervisor {
+                    log::debugln!("invalid pte_u: {:x}", pte);
+                    return Err(TrapCause::InstPageFault);
+                }
+
                 if pte_x == 0 {
                     log::debugln!("invalid pte_x: {:x}", pte);
                     return Err(TrapCause::InstPageFault);
@@ -167,6 +173,13 @@ impl Mmu {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
                 AddrTransMode::Bare => self.pmp(purpose, addr, size, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
+                    // bits 63:39 of a Sv39 address must equal bit 38
+                    if matches!(self.trans_mode, AddrTransMode::Sv39)
+                        && (addr as i64) << 25 >> 25 != addr as i64
+                    {
+                        return Err(self.trap_cause(purpose));
+                    }
+
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
                     let vpn = match *self.isa {
-- 
2.43.0


From a6c9d005b00d16a219884369872244452d80c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 33/77] fix: Sv32 physical addresses keep their upper two bits

---
 src/cpu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 28325e3..09910ac 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -160,7 +160,8 @@ impl Cpu {
         ) {
             Ok(vaddr) => {
                 if addr % size == 0 {
-                    Ok(vaddr.fix2regsz(&self.isa))
+                    // physical addresses of Sv32 are 34 bits wide
+                    Ok(vaddr)
                 } else {
                     let cause = match purpose {
                         TransFor::Fetch | TransFor::Deleg => TrapCause::InstAddrMisaligned,
-- 
2.43.0


From 3984953a4ab89433c9e08be1dc41bf039f059331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 34/77] fix: access faults report the virtual address

---
 src/cpu.rs       | 14 +++++++++++++-
 src/cpu/fetch.rs |  8 ++++----
 src/cpu/mmu.rs   |  2 ++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 09910ac..4d0577b 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -118,7 +118,16 @@ impl Cpu {
 
         self.check_interrupt()?;
 
-        fetch(self)?.decode(*self.isa)?.execution(self)
+        fetch(self)?
+            .decode(*self.isa)?
+            .execution(self)
+            .map_err(|(tval, cause, msg)| match cause {
+                // devices only know the physical address
+                TrapCause::LoadAccessFault | TrapCause::StoreAMOAccessFault => {
+                    (Some(self.mmu.data_vaddr), cause, msg)
+                }
+                _ => (tval, cause, msg),
+            })
     }
 
     fn trans_addr(
@@ -128,6 +137,9 @@ impl Cpu {
         addr: u64,
     ) -> Result<u64, (Option<u64>, TrapCause, String)> {
         let addr = addr.fix2regsz(&self.isa);
+        if purpose == TransFor::Load || purpose == TransFor::StoreAMO {
+            self.mmu.data_vaddr = addr;
+        }
         self.check_breakpoint(purpose, addr)?;
 
         let mut trans_priv = self.priv_lv();
diff --git a/src/cpu/fetch.rs b/src/cpu/fetch.rs
index 0ad2b9e..02c7823 100644
--- a/src/cpu/fetch.rs
+++ b/src/cpu/fetch.rs
@@ -7,7 +7,7 @@ pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause,
     let index_pc: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
     let is_cinst: bool = match cpu.bus.load_u8(index_pc) {
         Ok(inst_byte) => inst_byte & 0x3 != 0x3,
-        Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+        Err((_, _, msg)) => return Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
     };
 
     if is_cinst {
@@ -19,17 +19,17 @@ pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause,
         };
         match cpu.bus.load_u16(index_pc) {
             Ok(new_inst) => Ok(Box::new(new_inst as u16)),
-            Err((inst, _, msg)) => Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
         }
     } else {
         let index_pc2: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc() + 2)?;
         let inst_upper: u32 = match cpu.bus.load_u16(index_pc2) {
             Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => return Err((Some(cpu.pc() + 2), TrapCause::InstAccessFault, msg)),
         };
         let inst_lower: u32 = match cpu.bus.load_u16(index_pc) {
             Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => return Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
         };
         match *cpu.isa {
             Isa::Rv32 => log::infoln!("pc: 0x{:08x}", cpu.pc()),
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index b268103..520c3f6 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -17,6 +17,7 @@ pub struct Mmu {
     ppn: u64,
     trans_mode: AddrTransMode,
     isa: Rc<Isa>,
+    pub data_vaddr: u64, // virtual address of the latest load or store
 }
 
 impl Mmu {
@@ -25,6 +26,7 @@ impl Mmu {
             ppn: 0,
             trans_mode: AddrTransMode::Bare,
             isa,
+            data_vaddr: 0,
         }
     }
 
-- 
2.43.0


From c2e14bedd7bf1cccbf3b2674328276fcb19f5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 35/77] fix: the clint msip register raises the machine
 software interrupt

---
 src/cpu/trap.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index ee39f31..9c72040 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -25,6 +25,15 @@ impl Cpu {
                 .unwrap()
         };
 
+        // the software interrupt is requested through the clint
+        const MSIP_REG: u64 = 0x0200_0000;
+        let msip: u64 = self.bus.load32(MSIP_REG).unwrap() & 0x1;
+        if msip == 1 {
+            self.csrs.bitset(CSRname::mip.wrap(), 1 << MSIP).unwrap()
+        } else {
+            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MSIP).unwrap()
+        };
+
         self.csrs
             .write(
                 CSRname::mip.wrap(),
-- 
2.43.0


From e8aae53d58a0a212713453437fac3770c38bc933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 36/77] fix: delegated interrupts do not overflow the shift in
 debug builds

---
 src/cpu/trap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 9c72040..48308e5 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -157,7 +157,7 @@ impl Cpu {
             0
         };
         let new_pc = if self.priv_lv() != PrivilegedLevel::Machine
-            && (deleg & 1 << cause_of_trap as u32) != 0
+            && (deleg & 1 << (cause_of_trap as u32 & 0x3f)) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
             log::infoln!("delegated");
-- 
2.43.0


From 7dd1cf085bd6e278c67c154fddaa3d7cb6c12cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 37/77] fix: accesses at or across the end of a region fault
 instead of aborting

---
 src/bus.rs       | 74 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/bus/clint.rs |  4 +--
 src/bus/mrom.rs  |  2 +-
 src/bus/plic.rs  |  2 +-
 src/bus/uart.rs  |  2 +-
 5 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/src/bus.rs b/src/bus.rs
index ff67479..e4fe56f 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -38,6 +38,16 @@ impl Bus {
         }
     }
 
+    // does the access run across the end of a region
+    fn is_split(&self, addr: u64, size: u64) -> bool {
+        let last = addr.wrapping_add(size - 1);
+        self.mrom.in_range(addr) != self.mrom.in_range(last)
+            || self.clint.in_range(addr) != self.clint.in_range(last)
+            || self.dram.in_range(addr) != self.dram.in_range(last)
+            || self.uart.in_range(addr) != self.uart.in_range(last)
+            || self.plic.in_range(addr) != self.plic.in_range(last)
+    }
+
     // store
     pub fn store8(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         if self.mrom.in_range(addr) {
@@ -64,6 +74,14 @@ impl Bus {
         addr: u64,
         data: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 2) {
+            return Err((
+                Some(addr),
+                TrapCause::StoreAMOAccessFault,
+                format!("addr out of range at store16: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.store16(addr, data)
         } else if self.clint.in_range(addr) {
@@ -88,6 +106,14 @@ impl Bus {
         addr: u64,
         data: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 4) {
+            return Err((
+                Some(addr),
+                TrapCause::StoreAMOAccessFault,
+                format!("addr out of range at store32: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.store32(addr, data)
         } else if self.clint.in_range(addr) {
@@ -112,6 +138,14 @@ impl Bus {
         addr: u64,
         data: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 8) {
+            return Err((
+                Some(addr),
+                TrapCause::StoreAMOAccessFault,
+                format!("addr out of range at store64: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.store64(addr, data)
         } else if self.clint.in_range(addr) {
@@ -153,6 +187,14 @@ impl Bus {
     }
 
     pub fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 2) {
+            return Err((
+                Some(addr),
+                TrapCause::LoadAccessFault,
+                format!("addr out of range at load16: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.load16(addr)
         } else if self.clint.in_range(addr) {
@@ -173,6 +215,14 @@ impl Bus {
     }
 
     pub fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 4) {
+            return Err((
+                Some(addr),
+                TrapCause::LoadAccessFault,
+                format!("addr out of range at load32: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.load32(addr)
         } else if self.clint.in_range(addr) {
@@ -193,6 +243,14 @@ impl Bus {
     }
 
     pub fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 8) {
+            return Err((
+                Some(addr),
+                TrapCause::LoadAccessFault,
+                format!("addr out of range at load64: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.load64(addr)
         } else if self.clint.in_range(addr) {
@@ -233,6 +291,14 @@ impl Bus {
     }
 
     pub fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 2) {
+            return Err((
+                Some(addr),
+                TrapCause::LoadAccessFault,
+                format!("addr out of range at load_u16: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.load_u16(addr)
         } else if self.clint.in_range(addr) {
@@ -253,6 +319,14 @@ impl Bus {
     }
 
     pub fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+        if self.is_split(addr, 4) {
+            return Err((
+                Some(addr),
+                TrapCause::LoadAccessFault,
+                format!("addr out of range at load_u32: {addr:#x}"),
+            ));
+        }
+
         if self.mrom.in_range(addr) {
             self.mrom.load_u32(addr)
         } else if self.clint.in_range(addr) {
diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 152a4aa..1a12027 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -16,7 +16,7 @@ impl Default for Clint {
 impl Clint {
     #[allow(arithmetic_overflow)]
     pub fn new() -> Self {
-        const CLINT_SIZE: usize = 0xFFFF;
+        const CLINT_SIZE: usize = 0x10000;
 
         Clint {
             clint: vec![0; CLINT_SIZE],
@@ -30,7 +30,7 @@ impl Clint {
 impl Device for Clint {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index e655374..f66677b 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -49,7 +49,7 @@ impl Mrom {
 impl Device for Mrom {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ee8439..709c729 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -261,7 +261,7 @@ impl Plic {
 impl Device for Plic {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 2e96c4b..1923c33 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -255,7 +255,7 @@ impl Uart {
 impl Device for Uart {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
-- 
2.43.0


From b5a7a7cbfdbd0321afeb46c90808e1a7e715ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 38/77] fix: devices refuse accesses with access faults, not
 page faults

---
 src/bus/clint.rs | 14 +++++++-------
 src/bus/mrom.rs  |  8 ++++----
 src/bus/uart.rs  | 16 ++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 1a12027..726ae66 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -42,7 +42,7 @@ impl Device for Clint {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store8".to_string(),
         ))
     }
@@ -50,7 +50,7 @@ impl Device for Clint {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store16".to_string(),
         ))
     }
@@ -81,7 +81,7 @@ impl Device for Clint {
     fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load8".to_string(),
         ))
     }
@@ -89,7 +89,7 @@ impl Device for Clint {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load16".to_string(),
         ))
     }
@@ -116,7 +116,7 @@ impl Device for Clint {
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u8".to_string(),
         ))
     }
@@ -124,7 +124,7 @@ impl Device for Clint {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u16".to_string(),
         ))
     }
@@ -132,7 +132,7 @@ impl Device for Clint {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u32".to_string(),
         ))
     }
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index f66677b..2f7ae23 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -61,7 +61,7 @@ impl Device for Mrom {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -69,7 +69,7 @@ impl Device for Mrom {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -77,7 +77,7 @@ impl Device for Mrom {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -85,7 +85,7 @@ impl Device for Mrom {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 1923c33..a918263 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -271,7 +271,7 @@ impl Device for Uart {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store16".to_string(),
         ))
     }
@@ -279,7 +279,7 @@ impl Device for Uart {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store32".to_string(),
         ))
     }
@@ -287,7 +287,7 @@ impl Device for Uart {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store64".to_string(),
         ))
     }
@@ -300,7 +300,7 @@ impl Device for Uart {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load16".to_string(),
         ))
     }
@@ -308,7 +308,7 @@ impl Device for Uart {
     fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load32".to_string(),
         ))
     }
@@ -316,7 +316,7 @@ impl Device for Uart {
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load64".to_string(),
         ))
     }
@@ -329,7 +329,7 @@ impl Device for Uart {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u16".to_string(),
         ))
     }
@@ -337,7 +337,7 @@ impl Device for Uart {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u32".to_string(),
         ))
     }
-- 
2.43.0


From 7a7fd9402e7783faf1ec50522c6e1d0d6a5c3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 39/77] fix: LBU and LWU reach device registers like LB and LW
 do

---
 src/cpu/execution/inst_32/base_i.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 1185d6c..313535f 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -127,7 +127,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                     Isa::Rv64 => (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64,
                 },
             )?;
-            cpu.regs.write(inst.rd, cpu.bus.load_u8(load_addr)?);
+            cpu.regs.write(inst.rd, cpu.bus.load8(load_addr)? & 0xff);
         }
         OpecodeKind::OP_LHU => {
             let load_addr = cpu.trans_addr(
@@ -321,7 +321,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 TransAlign::Size32,
                 (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
-            cpu.regs.write(inst.rd, cpu.bus.load_u32(load_addr)?);
+            cpu.regs
+                .write(inst.rd, cpu.bus.load32(load_addr)? & 0xffff_ffff);
         }
         OpecodeKind::OP_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From cb21e667d3c74627e2f9e114e008b3aa846b6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 40/77] fix: the uart transmits the low byte as it is

---
 src/bus/uart.rs    | 2 +-
 src/bus/uart/io.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index a918263..9799451 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -201,7 +201,7 @@ impl Uart {
                     return Ok(());
                 }
 
-                self.tx_byte(char::from_u32(data as u32).unwrap())
+                self.tx_byte(data as u8)
             }
             IER => {
                 if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index ece61f3..9199573 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -62,9 +62,11 @@ impl Uart {
         front
     }
 
-    pub fn tx_byte(&mut self, data: char) {
+    pub fn tx_byte(&mut self, data: u8) {
         self.uart[UartRegister::LSR as usize] |= (LsrMask::TEMT as u8) | (LsrMask::THRE as u8);
-        print!("{}", char::from_u32(data as u32).unwrap());
+        io::stdout()
+            .write_all(&[data])
+            .expect("stdout write failed");
         io::stdout().flush().expect("stdout flush failed");
     }
 }
-- 
2.43.0


From f16539ea9101070533d0633e252fc00f0b5c1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 41/77] fix: console input is delivered byte for byte and ends
 at end of file

---
 src/bus/uart.rs       | 20 +++++++++++++-------
 src/bus/uart/verif.rs |  4 ++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 9799451..e32ed68 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -6,6 +6,7 @@ use super::Device;
 use crate::bus::Plic;
 use crate::TrapCause;
 use std::collections::VecDeque;
+use std::io::BufRead;
 use std::sync::mpsc;
 
 const UART_QUEUE_SIZE: usize = 64;
@@ -101,7 +102,7 @@ pub struct Uart {
     pub base_addr: u64,
     size: usize,
     rx_queue: VecDeque<u8>,
-    stdin_channel: mpsc::Receiver<String>,
+    stdin_channel: mpsc::Receiver<Vec<u8>>,
 }
 
 impl Default for Uart {
@@ -119,11 +120,16 @@ impl Uart {
         uart[UartRegister::MSR as usize] = 0xb0; // UART_MSR_DCD | UART_MSR_DSR | UART_MSR_CTS
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
-        let (tx, rx) = mpsc::channel::<String>();
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
         std::thread::spawn(move || loop {
-            let mut buffer = String::new();
-            std::io::stdin().read_line(&mut buffer).unwrap();
-            tx.send(buffer).unwrap();
+            let mut buffer = Vec::new();
+            match std::io::stdin().lock().read_until(b'\n', &mut buffer) {
+                Ok(0) | Err(_) => break, // end of input
+                Ok(_) => (),
+            }
+            if tx.send(buffer).is_err() {
+                break;
+            }
         });
 
         Uart {
@@ -238,8 +244,8 @@ impl Uart {
             Ok(input) => {
                 self.backoff_counter = 0;
 
-                for c in input.chars() {
-                    self.rx_queue.push_back(c as u8);
+                for c in input {
+                    self.rx_queue.push_back(c);
                 }
                 self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
                 self.update_interrupt(plic);
diff --git a/src/bus/uart/verif.rs b/src/bus/uart/verif.rs
index 12905bb..3eb64d9 100644
--- a/src/bus/uart/verif.rs
+++ b/src/bus/uart/verif.rs
@@ -4,8 +4,8 @@ use std::sync::mpsc;
 
 impl Uart {
     /// Replace standard input by a channel the harness feeds.
-    pub fn verif_attach_input(&mut self) -> mpsc::Sender<String> {
-        let (tx, rx) = mpsc::channel::<String>();
+    pub fn verif_attach_input(&mut self) -> mpsc::Sender<Vec<u8>> {
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
         self.stdin_channel = rx;
         tx
     }
-- 
2.43.0


From 524f099cdac98ba3fd8d0ee7ac1ce20d5d3d1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 42/77] fix: the uart receive register sign-extends like every
 other byte load

---
 src/bus/uart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index e32ed68..0118e18 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -163,7 +163,7 @@ impl Uart {
                 };
                 self.update_interrupt(plic);
 
-                Ok(data as u64)
+                Ok(data as i8 as i64 as u64)
             }
             IER => {
                 if self.uart[UartRegister::LCR as usize] & LcrMask::DLAB as u8 != 0 {
-- 
2.43.0


From 0d34f5c32a25c47b390b13032d0e2e494789c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 43/77] fix: the uart keeps FCR apart from LCR and IIR

---
 src/bus/uart.rs    | 6 ++++--
 src/bus/uart/io.rs | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 0118e18..005a003 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -98,6 +98,7 @@ pub struct Uart {
     pub uart: Vec<u8>,
     dll: u8,
     dlm: u8,
+    fcr: u8, // write-only, shares its address with IIR
     backoff_counter: u64,
     pub base_addr: u64,
     size: usize,
@@ -136,6 +137,7 @@ impl Uart {
             uart,
             dll: 0x0c,
             dlm: 0,
+            fcr: 0,
             backoff_counter: 0,
             base_addr: 0x1000_0000,
             size: UART_SIZE,
@@ -216,6 +218,7 @@ impl Uart {
                     self.dlm = data as u8;
                 }
             }
+            FCR => self.fcr = data as u8,
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
@@ -228,8 +231,7 @@ impl Uart {
     }
 
     pub fn tick(&mut self, plic: &mut Plic) {
-        if (self.uart[UartRegister::IIR_FCR as usize] & FcrMask::ENABLE_FIFO as u8 == 0)
-            || (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
+        if (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
             || (UART_QUEUE_SIZE <= self.rx_queue.len())
         {
             return;
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 9199573..f122cd8 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -7,14 +7,14 @@ impl Uart {
     pub fn update_interrupt(&mut self, plic: &mut Plic) {
         const UART_INTERRUPT_ID: u32 = 1;
         let mut interrupts = 0;
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_RCVR as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_RCVR as u8);
+        if self.fcr & FcrMask::CLEAR_RCVR as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_RCVR as u8);
             self.rx_queue.clear();
             self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
         }
 
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_XMIT as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_XMIT as u8);
+        if self.fcr & FcrMask::CLEAR_XMIT as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_XMIT as u8);
             self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
         }
 
-- 
2.43.0


From 179f152662f0a8a861643ffb384dbd29df4c6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 44/77] fix: the uart status registers are read-only

---
 src/bus/uart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 005a003..ddc67c7 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -190,6 +190,8 @@ impl Uart {
         const FCR: usize = UartRegister::IIR_FCR as usize;
         const LCR: usize = UartRegister::LCR as usize;
         const MCR: usize = UartRegister::MCR as usize;
+        const LSR: usize = UartRegister::LSR as usize;
+        const MSR: usize = UartRegister::MSR as usize;
         let index = self.addr2index(addr);
 
         match index {
@@ -219,6 +221,7 @@ impl Uart {
                 }
             }
             FCR => self.fcr = data as u8,
+            LSR | MSR => (), // status is read-only
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
-- 
2.43.0


From e47519e0bd5512224f7cd48bb1ad35f1cb13cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 45/77] fix: the uart identifies received data before an empty
 transmitter

---
 src/bus/uart/io.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index f122cd8..d5cf788 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -34,6 +34,10 @@ impl Uart {
             self.uart[UartRegister::IIR_FCR as usize] = IirMask::NO_INT as u8;
             plic.set_interrupt_level(UART_INTERRUPT_ID, 0);
         } else {
+            // only the source of highest priority is identified
+            if interrupts & IirMask::RDI as u8 != 0 {
+                interrupts = IirMask::RDI as u8;
+            }
             self.uart[UartRegister::IIR_FCR as usize] = interrupts;
             plic.set_interrupt_level(UART_INTERRUPT_ID, 1);
         }
-- 
2.43.0


From a2e722f59857042dccb67bfd64a6e3550b81d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 46/77] fix: each plic context drives its own external
 interrupt line

---
 src/bus/plic.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 709c729..6d28333 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -65,7 +65,7 @@ impl Plic {
                 PlicContext::new(PrivilegedLevel::Machine),
                 PlicContext::new(PrivilegedLevel::Supervisor),
             ],
-            mip_mask: 0,
+            mip_mask: 1 << 11 | 1 << 9, // MEIP and SEIP
             mip_value: 0,
             base_addr: 0x0c00_0000,
             size: PLIC_SIZE,
@@ -104,19 +104,17 @@ impl Plic {
         const MIP_MEIP_MASK: u64 = 1 << 11;
         const MIP_SEIP_MASK: u64 = 1 << 9;
         let best_id = self.context_best_pending(context_id);
-        self.mip_mask = match self.contexts[context_id].context_priv {
+        let line = match self.contexts[context_id].context_priv {
             PrivilegedLevel::Machine => MIP_MEIP_MASK,
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
+        // the lines of the other contexts stay as they are
+        self.mip_mask |= line;
         self.mip_value = if best_id == 0 {
-            0
+            self.mip_value & !line
         } else {
-            match self.contexts[context_id].context_priv {
-                PrivilegedLevel::Machine => MIP_MEIP_MASK,
-                PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
-                _ => unreachable!(),
-            }
+            self.mip_value | line
         };
     }
 
@@ -251,7 +249,6 @@ impl Plic {
                 }
 
                 self.context_update(c);
-                break;
             }
         }
     }
-- 
2.43.0


From 0aa85377997c6ee9cdd299d8f4e13536a839b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 47/77] fix: plic registers keep 32 bits, 64-bit accesses cover
 two of them and reserved ones read zero

---
 src/bus/plic.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 6d28333..b68d3ed 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -195,7 +195,7 @@ impl Plic {
         match offset {
             CONTEXT_THRESHOLD => self.contexts[context_id].priority_thresould as u32,
             CONTEXT_CLAIM => self.context_claim(context_id),
-            _ => unreachable!(),
+            _ => 0, // reserved
         }
     }
 
@@ -218,7 +218,7 @@ impl Plic {
                     self.context_update(context_id);
                 }
             }
-            _ => unreachable!("offset: {:#x}", offset),
+            _ => (), // reserved
         }
     }
 
@@ -287,6 +287,7 @@ impl Device for Plic {
         const ENABLE_BASE_MINUS_ONE: usize = ENABLE_BASE - 1;
         const CONTEXT_BASE_MINUS_ONE: usize = CONTEXT_BASE - 1;
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
+        let phys_addr = addr;
         let addr = self.addr2index(addr);
         match addr {
             PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => {
@@ -301,7 +302,7 @@ impl Device for Plic {
                     Ok(())
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(phys_addr),
                         TrapCause::StoreAMOAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -315,7 +316,7 @@ impl Device for Plic {
                     Ok(())
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(phys_addr),
                         TrapCause::StoreAMOAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -326,8 +327,8 @@ impl Device for Plic {
     }
 
     fn store64(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        self.store32(addr, data & 0xffff)?;
-        self.store32(addr + 4, data >> 32 & 0xffff)
+        self.store32(addr, data & 0xffff_ffff)?;
+        self.store32(addr + 4, data >> 32)
     }
 
     // load
@@ -351,17 +352,18 @@ impl Device for Plic {
         const ENABLE_BASE_MINUS_ONE: usize = ENABLE_BASE - 1;
         const CONTEXT_BASE_MINUS_ONE: usize = CONTEXT_BASE - 1;
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
+        let phys_addr = addr;
         let addr = self.addr2index(addr);
         match addr {
-            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as u64),
+            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as i32 as u64),
             ENABLE_BASE..=CONTEXT_BASE_MINUS_ONE => {
                 let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
                 let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as u64)
+                    Ok(self.context_enable_read(cntx, addr) as i32 as u64)
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(phys_addr),
                         TrapCause::LoadAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -371,10 +373,10 @@ impl Device for Plic {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_read(cntx, addr) as u64)
+                    Ok(self.context_read(cntx, addr) as i32 as u64)
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(phys_addr),
                         TrapCause::LoadAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -385,8 +387,9 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        self.load32(addr)?;
-        self.load32(addr + 4)
+        let lower = self.load32(addr)? & 0xffff_ffff;
+        let upper = self.load32(addr + 4)?;
+        Ok(upper << 32 | lower)
     }
 
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-- 
2.43.0


From fe8ffce30950c26ac33481fcf0571b1a4cc174c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 48/77] fix: the plic compares the current priorities and never
 offers priority 0

---
 src/bus/plic.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index b68d3ed..c6b5c8c 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -21,7 +21,6 @@ pub struct PlicContext {
     priority_thresould: u8,
     enable: Vec<u32>,
     pending: Vec<u32>,
-    pending_priority: Vec<u8>,
     claimed: Vec<u32>,
     context_priv: PrivilegedLevel,
 }
@@ -32,7 +31,6 @@ impl PlicContext {
             priority_thresould: 0,
             enable: vec![0; PLIC_MAX_DEVICES / 32],
             pending: vec![0; PLIC_MAX_DEVICES / 32],
-            pending_priority: vec![0; PLIC_MAX_DEVICES],
             claimed: vec![0; PLIC_MAX_DEVICES / 32],
             context_priv,
         }
@@ -89,10 +87,10 @@ impl Plic {
                     continue;
                 }
 
-                if (best_id == 0) || (best_id_prio < self.contexts[context_id].pending_priority[id])
-                {
+                // a source of priority 0 never interrupts
+                if best_id_prio < self.priority[id] {
                     best_id = id as u32;
-                    best_id_prio = self.contexts[context_id].pending_priority[id];
+                    best_id_prio = self.priority[id];
                 }
             }
         }
@@ -145,6 +143,9 @@ impl Plic {
         let id = offset >> 2;
         if id > 0 && id < NUM_IDS {
             self.priority[id] = (val & PLIC_PRIO_MASK) as u8;
+            for c in 0..CONTEXT_NUM {
+                self.context_update(c);
+            }
         }
     }
 
@@ -170,9 +171,7 @@ impl Plic {
         self.contexts[context_id].enable[id_word] = new_val;
 
         for i in 0..32 {
-            let id = id_word * 32 + i;
             let id_mask = 1 << i;
-            let id_prio = self.priority[id];
 
             if xor_val & id_mask == 0 {
                 continue;
@@ -180,10 +179,8 @@ impl Plic {
 
             if new_val & id_mask != 0 && self.level[id_word] & id_mask != 0 {
                 self.contexts[context_id].pending[id_word] |= id_mask;
-                self.contexts[context_id].pending_priority[id] = id_prio;
             } else if new_val & id_mask == 0 {
                 self.contexts[context_id].pending[id_word] &= !id_mask;
-                self.contexts[context_id].pending_priority[id] = 0;
                 self.contexts[context_id].claimed[id_word] &= !id_mask;
             }
         }
@@ -227,7 +224,6 @@ impl Plic {
             return;
         }
 
-        let id_prio = self.priority[id as usize];
         let id_word = (id / 32) as usize;
         let id_mask = 1 << (id % 32);
 
@@ -241,10 +237,8 @@ impl Plic {
             if self.contexts[c].enable[id_word] & id_mask != 0 {
                 if level != 0 {
                     self.contexts[c].pending[id_word] |= id_mask;
-                    self.contexts[c].pending_priority[id as usize] = id_prio;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].pending_priority[id as usize] = 0;
                     self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
-- 
2.43.0


From c93819479e7f84a2276c658d8d2e38d1b1d82ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 49/77] fix: the plic threshold masks sources of lower or equal
 priority

---
 src/bus/plic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index c6b5c8c..235abc1 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -109,7 +109,9 @@ impl Plic {
         };
         // the lines of the other contexts stay as they are
         self.mip_mask |= line;
-        self.mip_value = if best_id == 0 {
+        // the threshold masks the notification, not the claim
+        let threshold = self.contexts[context_id].priority_thresould;
+        self.mip_value = if self.priority[best_id as usize] <= threshold {
             self.mip_value & !line
         } else {
             self.mip_value | line
-- 
2.43.0


From da9ed7e543ca9e11bb4fcd745134580899e2beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 50/77] fix: a claimed plic source stays in service for all
 contexts until completion

---
 src/bus/plic.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 235abc1..74f50f4 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -124,10 +124,15 @@ impl Plic {
         let best_id_mask = 1 << (best_id % 32);
 
         if best_id != 0 {
-            self.contexts[context_id].claimed[best_id_word] |= best_id_mask;
+            // in service: offered to no context until it is completed
+            for c in 0..CONTEXT_NUM {
+                self.contexts[c].claimed[best_id_word] |= best_id_mask;
+            }
         }
 
-        self.context_update(context_id);
+        for c in 0..CONTEXT_NUM {
+            self.context_update(c);
+        }
         best_id
     }
 
@@ -183,7 +188,6 @@ impl Plic {
                 self.contexts[context_id].pending[id_word] |= id_mask;
             } else if new_val & id_mask == 0 {
                 self.contexts[context_id].pending[id_word] &= !id_mask;
-                self.contexts[context_id].claimed[id_word] &= !id_mask;
             }
         }
 
@@ -213,8 +217,10 @@ impl Plic {
                 let id_mask = 1 << (val % 32);
                 if val < NUM_IDS as u32 && self.contexts[context_id].enable[id_word] & id_mask != 0
                 {
-                    self.contexts[context_id].claimed[id_word] &= !id_mask;
-                    self.context_update(context_id);
+                    for c in 0..CONTEXT_NUM {
+                        self.contexts[c].claimed[id_word] &= !id_mask;
+                        self.context_update(c);
+                    }
                 }
             }
             _ => (), // reserved
@@ -241,7 +247,6 @@ impl Plic {
                     self.contexts[c].pending[id_word] |= id_mask;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
                 self.context_update(c);
-- 
2.43.0


From aba0c8c275cc56fe82d4ecc50301eebb1d428afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 51/77] fix: read p_memsz, p_align and sh_entsize at their ELF
 offsets

---
 src/elfload/elf_32/section_header.rs | 2 +-
 src/elfload/elf_64/program_header.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3620bff..c69a7fc 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -36,7 +36,7 @@ impl SectionHeader32 {
                 sh_link: get_u32(mmap, section_head + 24),
                 sh_info: get_u32(mmap, section_head + 28),
                 sh_addralign: get_u32(mmap, section_head + 32),
-                sh_entsize: get_u32(mmap, section_head + 34),
+                sh_entsize: get_u32(mmap, section_head + 36),
             }));
         }
 
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c1e6753..f37f1d2 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -42,8 +42,8 @@ impl ProgramHeader64 {
                 p_vaddr: get_u64(mmap, segment_start + 16),
                 p_paddr: get_u64(mmap, segment_start + 24),
                 p_filesz: get_u64(mmap, segment_start + 32),
-                p_memsz: get_u64(mmap, segment_start + 48),
-                p_align: get_u64(mmap, segment_start + 56),
+                p_memsz: get_u64(mmap, segment_start + 40),
+                p_align: get_u64(mmap, segment_start + 48),
             }));
         }
 
-- 
2.43.0


From 5deb1db1aadc11702799f0898d571cdcb5d66c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 52/77] fix: ELF header table offsets do not overflow 16 bits

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_32/section_header.rs | 4 ++--
 src/elfload/elf_64/program_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 1266692..7b67d1c 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader32 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u32) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u32 * segment_num as u32) as usize;
 
             new_prog.push(Box::new(ProgramHeader32 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index c69a7fc..e689aa2 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -19,12 +19,12 @@ impl SectionHeader32 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader32) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u32;
+            elf_header.e_shoff + elf_header.e_shentsize as u32 * elf_header.e_shstrndx as u32;
         let name_table_off: usize = get_u32(mmap, (name_table as usize) + 16) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u32) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
                 sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index f37f1d2..8e24340 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader64 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u64) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u64 * segment_num as u64) as usize;
 
             new_prog.push(Box::new(ProgramHeader64 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index c957e30..876a284 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -20,12 +20,12 @@ impl SectionHeader64 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader64) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u64;
+            elf_header.e_shoff + elf_header.e_shentsize as u64 * elf_header.e_shstrndx as u64;
         let name_table_off: usize = get_u64(mmap, (name_table as usize) + 24) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u64) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
                 sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
-- 
2.43.0


From 4c92af3b0a3a743b6de84ec0069976eda7de14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 53/77] fix: RAM starts at the lowest loadable segment

---
 src/elfload.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/elfload.rs b/src/elfload.rs
index 53197bd..6a85647 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -154,14 +154,11 @@ impl ElfLoader {
     }
 
     pub fn get_entry_point(&self) -> Option<u64> {
-        for segment in self.prog_headers.iter() {
-            if segment.is_loadable() {
-                let (_, paddr) = segment.offset_and_addr();
-                return Some(paddr);
-            }
-        }
-
-        None
+        self.prog_headers
+            .iter()
+            .filter(|segment| segment.is_loadable())
+            .map(|segment| segment.offset_and_addr().1)
+            .min()
     }
 
     pub fn get_host_addr(&self, isa: Isa) -> (Option<u64>, Option<u64>) {
-- 
2.43.0


From 20c7b9d63ffa072cee85020c7d2250fc38503cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 54/77] fix: the reset vector jumps to 64-bit load addresses

---
 src/bus/mrom.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index 2f7ae23..ebbd471 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -8,7 +8,6 @@ pub struct Mrom {
 }
 
 impl Mrom {
-    #[allow(arithmetic_overflow)]
     pub fn new(entry_point: u64, isa: Isa) -> Self {
         let entry_upper = (entry_point >> 32) as u32;
         let entry_lower = (entry_point & 0xffffffff) as u32;
@@ -23,7 +22,7 @@ impl Mrom {
             0x00028067, // jr      t0        |
             0x0,        //                   |
             entry_lower, // <----------------+
-            entry_upper >> 32,
+            entry_upper,
         ];
 
         // Vec<u32> -> Vec<u8>
-- 
2.43.0


From 2a3cc76a7fb0b5393876942607cfbc8c4294c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 55/77] fix: the initrd is placed inside RAM for every load
 address

---
 src/bus/dram.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 0d1477a..e3892ef 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -55,11 +55,19 @@ impl Dram {
             let file = File::open(path).unwrap();
             let mapped_initrd = unsafe { Mmap::map(&file).unwrap() };
 
-            const INITRD_END: usize = 0x8000_0000 + DRAM_SIZE - 0x1000;
-            let initrd_head = INITRD_END - mapped_initrd.len();
+            // the end of dram, as far as 32-bit addresses reach if they reach dram at all
+            const ADDR_32_END: usize = 0x1_0000_0000;
+            let dram_end = virt_entry as usize + DRAM_SIZE;
+            let ram_top = if (virt_entry as usize) < ADDR_32_END {
+                dram_end.min(ADDR_32_END)
+            } else {
+                dram_end
+            };
+            let initrd_tail = ram_top - 0x1000;
+            let initrd_head = initrd_tail - mapped_initrd.len();
             let initrd_offset = initrd_head - virt_entry as usize;
-            initrd_start = Some(INITRD_END - mapped_initrd.len());
-            initrd_end = Some(INITRD_END);
+            initrd_start = Some(initrd_head);
+            initrd_end = Some(initrd_tail);
             new_dram.splice(
                 initrd_offset..initrd_offset + mapped_initrd.len(),
                 mapped_initrd.iter().cloned(),
-- 
2.43.0


From 46d85ee6a71572b02946a04961beeb1588322120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 56/77] fix: the device tree describes 64-bit addresses

---
 src/bus/device_tree/dts.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a66f17d..5d82ec2 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -1,8 +1,14 @@
 use crate::Isa;
 
+// an address takes two cells
+fn addr_cells(addr: u64) -> String {
+    format!("{:#x} {:#x}", addr >> 32, addr & 0xffff_ffff)
+}
+
 fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
-    let initrd_start = initrd_start.unwrap_or(0);
-    let initrd_end = initrd_end.unwrap_or(0);
+    let initrd_start = addr_cells(initrd_start.unwrap_or(0) as u64);
+    let initrd_end = addr_cells(initrd_end.unwrap_or(0) as u64);
+    let dram_cells = addr_cells(dram_addr);
     format!(
         "/dts-v1/;
             / {{
@@ -40,7 +46,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               }};
               memory@{dram_addr:x} {{
                 device_type = \"memory\";
-                reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+                reg = <{dram_cells} 0x0 0x80000000>;
               }};
               soc {{
                 #address-cells = <2>;
@@ -80,8 +86,9 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
 }
 
 fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
-    let initrd_start = initrd_start.unwrap_or(0);
-    let initrd_end = initrd_end.unwrap_or(0);
+    let initrd_start = addr_cells(initrd_start.unwrap_or(0) as u64);
+    let initrd_end = addr_cells(initrd_end.unwrap_or(0) as u64);
+    let dram_cells = addr_cells(dram_addr);
     format!(
         "/dts-v1/;
 
@@ -120,7 +127,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
           }};
           memory@{dram_addr:x} {{
             device_type = \"memory\";
-            reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+            reg = <{dram_cells} 0x0 0x80000000>;
           }};
           soc {{
             #address-cells = <2>;
-- 
2.43.0


From 8bd1a787d52bbc11e9ab0e5bb33b5760e78b236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 57/77] fix: the device tree describes the mmu and clint the
 emulator implements

---
 src/bus/device_tree/dts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index 5d82ec2..a0d01c4 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -56,7 +56,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
                 clint@2000000 {{
                   compatible = \"riscv,clint0\";
                   interrupts-extended = <&CPU0_intc 3 &CPU0_intc 7 >;
-                  reg = <0x0 0x2000000 0x0 0xc0000>;
+                  reg = <0x0 0x2000000 0x0 0x10000>;
                 }};
                 PLIC: plic@c000000 {{
                   compatible = \"riscv,plic0\";
@@ -113,7 +113,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               status = \"okay\";
               compatible = \"riscv\";
               riscv,isa = \"rv64imac\";
-              mmu-type = \"riscv,sv57\";
+              mmu-type = \"riscv,sv39\";
               riscv,pmpregions = <16>;
               riscv,pmpgranularity = <4>;
               clock-frequency = <1000000000>;
@@ -137,7 +137,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
             clint@2000000 {{
               compatible = \"riscv,clint0\";
               interrupts-extended = <&CPU0_intc 3 &CPU0_intc 7 >;
-              reg = <0x0 0x2000000 0x0 0xc0000>;
+              reg = <0x0 0x2000000 0x0 0x10000>;
             }};
             PLIC: plic@c000000 {{
               compatible = \"riscv,plic0\";
-- 
2.43.0


From b8eb40e964d2317d00dff1ba758795807c77c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 58/77] fix: pwrite returns the negated errno

---
 src/fesvr/syscall.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index e225cfb..b955862 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -138,7 +138,7 @@ impl FrontendServer {
             )
         };
 
-        wrote_len as i64
+        sysret_errno(wrote_len as i64)
     }
 
     pub fn fstatat(
-- 
2.43.0


From 24f52e127e13370eec4c0bd89037263fb1e2fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 59/77] fix: a failing fstat or fstatat leaves guest memory
 alone

---
 src/fesvr/syscall.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index b955862..593a54f 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -186,7 +186,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret.into());
-        if ret != -1 {
+        if ret == 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
@@ -228,7 +228,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret as i64);
-        if ret != -1 {
+        if ret == 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
-- 
2.43.0


From 1857dc0364734aea20f2ec56a8c54f67de242ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 60/77] fix: fstat reports uid, gid and blksize in their own
 fields

---
 src/fesvr/syscall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 593a54f..86011e4 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -168,11 +168,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
@@ -210,11 +210,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
-- 
2.43.0


From 4e7bb318b91aa8d255977fb753b6f18f8a21a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 61/77] fix: an unimplemented system call returns ENOSYS

---
 src/fesvr.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index b5c64ef..89280e0 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -1,4 +1,5 @@
 mod syscall;
+use crate::log;
 use crate::Emulator;
 
 pub struct FrontendServer {
@@ -48,15 +49,6 @@ impl Emulator {
 
     fn exec_syscall(&mut self, sysargs: [u64; 8]) -> i64 {
         match sysargs[0] {
-            17 => panic!("sys_getcwd is not implemented"),
-            25 => panic!("sys_fcntl is not implemented"),
-            34 => panic!("sys_mkdirat is not implemented"),
-            35 => panic!("sys_unlinkat is not implemented"),
-            37 => panic!("sys_linkat is not implemented"),
-            38 => panic!("sys_renameat is not implemented"),
-            46 => panic!("sys_ftruncate is not implemented"),
-            48 => panic!("sys_faccessat is not implemented"),
-            49 => panic!("sys_chdir is not implemented"),
             56 => self.frontend_server.openat(
                 &mut self.cpu,
                 sysargs[1],
@@ -101,13 +93,14 @@ impl Emulator {
                 .frontend_server
                 .fstat(&mut self.cpu, sysargs[1], sysargs[2]),
             93 => self.frontend_server.exit(sysargs[1]),
-            291 => panic!("sys_statx is not implemented"),
-            1039 => panic!("sys_lstat is not implemented"),
             2011 => {
                 self.frontend_server
                     .getmainvars(&mut self.cpu, &self.args, sysargs[1], sysargs[2])
             }
-            _ => panic!("illegal syscall number"),
+            _ => {
+                log::infoln!("sys_{} is not implemented", sysargs[0]);
+                -38 // ENOSYS
+            }
         }
     }
 
-- 
2.43.0


From 0b9abf92e6f1917c7797bd87de90e21ba6a6db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 62/77] fix: system calls with buffers outside RAM return
 EFAULT

---
 src/fesvr/syscall.rs | 50 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 86011e4..4ebb4c5 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -1,9 +1,21 @@
+use crate::bus::Device;
 use crate::cpu::Cpu;
 use crate::fesvr::FrontendServer;
 use crate::log;
 use crate::Arguments;
 use libc::c_void;
 
+const EFAULT: i64 = -14;
+const STAT_SIZE: u64 = 16 * 8;
+
+// is the whole buffer in the guest's memory
+fn is_guest_buffer(cpu: &Cpu, addr: u64, len: u64) -> bool {
+    len == 0
+        || addr.checked_add(len - 1).map_or(false, |last| {
+            cpu.bus.dram.in_range(addr) && cpu.bus.dram.in_range(last)
+        })
+}
+
 fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     let mut buf = Vec::new();
     for off in 0..len {
@@ -40,6 +52,10 @@ impl FrontendServer {
         mode: u64,
     ) -> i64 {
         log::infoln!("sys_openat(56)");
+        if !is_guest_buffer(cpu, name_addr, len) {
+            return EFAULT;
+        }
+
         let name: Vec<u8> = memread(cpu, name_addr, len);
         let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
         let fd = sysret_errno(unsafe {
@@ -76,6 +92,10 @@ impl FrontendServer {
 
     pub fn read(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64, len: u64) -> i64 {
         log::infoln!("sys_read(63)");
+        if !is_guest_buffer(cpu, dst_addr, len) {
+            return EFAULT;
+        }
+
         let buf: Vec<u8> = vec![0; len as usize];
         let read_len = unsafe {
             libc::read(
@@ -95,6 +115,10 @@ impl FrontendServer {
 
     pub fn write(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64, len: u64) -> i64 {
         log::infoln!("sys_write(64)");
+        if !is_guest_buffer(cpu, dst_addr, len) {
+            return EFAULT;
+        }
+
         let buf = memread(cpu, dst_addr, len);
         let wrote_len = unsafe {
             libc::write(
@@ -109,6 +133,10 @@ impl FrontendServer {
 
     pub fn pread(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64, len: u64, off: u64) -> i64 {
         log::infoln!("sys_pread(67)");
+        if !is_guest_buffer(cpu, dst_addr, len) {
+            return EFAULT;
+        }
+
         let buf: Vec<u8> = vec![0; len as usize];
         let read_len = unsafe {
             libc::pread(
@@ -128,6 +156,10 @@ impl FrontendServer {
 
     pub fn pwrite(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64, len: u64, off: u64) -> i64 {
         log::infoln!("sys_pwrite(68)");
+        if !is_guest_buffer(cpu, dst_addr, len) {
+            return EFAULT;
+        }
+
         let buf = memread(cpu, dst_addr, len);
         let wrote_len = unsafe {
             libc::pwrite(
@@ -151,6 +183,14 @@ impl FrontendServer {
         flags: u64,
     ) -> i64 {
         log::infoln!("sys_fstatat(79)");
+        if !is_guest_buffer(cpu, dst_addr, STAT_SIZE) {
+            return EFAULT;
+        }
+
+        if !is_guest_buffer(cpu, name_addr, len) {
+            return EFAULT;
+        }
+
         let name: Vec<u8> = memread(cpu, name_addr, len);
         let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
         let (ret, rbuf) = unsafe {
@@ -200,6 +240,10 @@ impl FrontendServer {
 
     pub fn fstat(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64) -> i64 {
         log::infoln!("sys_fstat(80)");
+        if !is_guest_buffer(cpu, dst_addr, STAT_SIZE) {
+            return EFAULT;
+        }
+
         let (ret, rbuf) = unsafe {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
@@ -257,7 +301,7 @@ impl FrontendServer {
 
         let mut sz = (arg_size as u64 + 3) * 8;
         for (i, arg) in args.main_args.iter().enumerate() {
-            words[i + 1] = dst_addr + sz;
+            words[i + 1] = dst_addr.wrapping_add(sz);
             sz += arg.len() as u64 + 1;
         }
 
@@ -279,6 +323,10 @@ impl FrontendServer {
             return -12; // ENOMEM
         }
 
+        if !is_guest_buffer(cpu, dst_addr, buf.len() as u64) {
+            return EFAULT;
+        }
+
         memwrite(cpu, dst_addr, buf.len(), buf);
         0
     }
-- 
2.43.0


From 230035f327888b8c65d04aa3d70e52fe5908a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 63/77] fix: openat and fstatat accept any file name

---
 src/fesvr/syscall.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 4ebb4c5..3511f81 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -4,8 +4,10 @@ use crate::fesvr::FrontendServer;
 use crate::log;
 use crate::Arguments;
 use libc::c_void;
+use std::ffi::CStr;
 
 const EFAULT: i64 = -14;
+const EINVAL: i64 = -22;
 const STAT_SIZE: u64 = 16 * 8;
 
 // is the whole buffer in the guest's memory
@@ -57,14 +59,12 @@ impl FrontendServer {
         }
 
         let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name = match CStr::from_bytes_until_nul(&name) {
+            Ok(name) => name,
+            Err(_) => return EINVAL,
+        };
         let fd = sysret_errno(unsafe {
-            libc::openat(
-                dirfd as i32,
-                name.as_ptr() as *const i8,
-                flags as i32,
-                mode as i32,
-            ) as i64
+            libc::openat(dirfd as i32, name.as_ptr(), flags as i32, mode as i32) as i64
         });
 
         if fd < 0 {
@@ -192,13 +192,16 @@ impl FrontendServer {
         }
 
         let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name = match CStr::from_bytes_until_nul(&name) {
+            Ok(name) => name,
+            Err(_) => return EINVAL,
+        };
         let (ret, rbuf) = unsafe {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
                 dirfd as i32,
-                name.as_ptr() as *const i8,
+                name.as_ptr(),
                 &mut buf as *mut libc::stat,
                 flags as i32,
             );
-- 
2.43.0


From b75ac0507ce986e7656518b1c7da3540b1c60e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 64/77] fix: openat and fstatat translate the directory
 descriptor

---
 src/fesvr.rs         | 8 ++++++++
 src/fesvr/syscall.rs | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index 89280e0..651183b 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -28,6 +28,14 @@ impl FrontendServer {
         self.fd_table[fd as usize] = None;
     }
 
+    pub fn dirfd_lookup(&self, dirfd: u64) -> i32 {
+        if dirfd as i32 == libc::AT_FDCWD {
+            libc::AT_FDCWD
+        } else {
+            self.fd_lookup(dirfd) as i32
+        }
+    }
+
     pub fn fd_lookup(&self, fd: u64) -> i64 {
         if fd >= self.fd_table.len() as u64 {
             -1
diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 3511f81..adfbc1d 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -200,7 +200,7 @@ impl FrontendServer {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd),
                 name.as_ptr(),
                 &mut buf as *mut libc::stat,
                 flags as i32,
-- 
2.43.0


From 62539ed591e4cb4d06be9cc27b6fcac8ff4984b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 65/77] fix: closing a guest's standard stream keeps the
 emulator's open

---
 src/fesvr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index 651183b..6778bfe 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -9,7 +9,10 @@ pub struct FrontendServer {
 impl FrontendServer {
     pub fn new() -> Self {
         FrontendServer {
-            fd_table: vec![Some(0), Some(1), Some(2)],
+            // the guest may close its standard streams, ours have to stay open
+            fd_table: (0..3)
+                .map(|fd| u64::try_from(unsafe { libc::dup(fd) }).ok())
+                .collect(),
         }
     }
 
-- 
2.43.0


From 1a539d255d2535d2185fb43900b2386d14bc9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 66/77] fix: a system call block outside RAM does not abort the
 emulator

---
 src/fesvr.rs         | 5 +++++
 src/fesvr/syscall.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index 6778bfe..ff3b5ba 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -125,6 +125,11 @@ impl Emulator {
             std::process::exit(tohost as i32);
         } else {
             let syscall_addr: u64 = tohost << 16 >> 16;
+            if !syscall::is_guest_buffer(&self.cpu, syscall_addr, 8 * 8) {
+                log::infoln!("syscall arguments are out of memory: {:#x}", syscall_addr);
+                return;
+            }
+
             let mut syscall_args: [u64; 8] = [
                 self.cpu.bus.load64(syscall_addr).unwrap(),
                 self.cpu.bus.load64(syscall_addr + 8).unwrap(),
diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index adfbc1d..34d52c7 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -11,7 +11,7 @@ const EINVAL: i64 = -22;
 const STAT_SIZE: u64 = 16 * 8;
 
 // is the whole buffer in the guest's memory
-fn is_guest_buffer(cpu: &Cpu, addr: u64, len: u64) -> bool {
+pub fn is_guest_buffer(cpu: &Cpu, addr: u64, len: u64) -> bool {
     len == 0
         || addr.checked_add(len - 1).map_or(false, |last| {
             cpu.bus.dram.in_range(addr) && cpu.bus.dram.in_range(last)
-- 
2.43.0


From 609c71bfbe84b1e3dcd352bfdd6e785d6d89886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 67/77] fix: openat translates the directory descriptor

---
 src/fesvr/syscall.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 34d52c7..694b0f0 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -64,7 +64,12 @@ impl FrontendServer {
             Err(_) => return EINVAL,
         };
         let fd = sysret_errno(unsafe {
-            libc::openat(dirfd as i32, name.as_ptr(), flags as i32, mode as i32) as i64
+            libc::openat(
+                self.dirfd_lookup(dirfd),
+                name.as_ptr(),
+                flags as i32,
+                mode as i32,
+            ) as i64
         });
 
         if fd < 0 {
-- 
2.43.0


From aa2d2473584c175aa238014563fa563c246d531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:45 +0000
Subject: [PATCH 68/77] fix: writing misa at a misaligned pc keeps the C bit in
 its place

---
 src/cpu/csr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 2ff9c0f..4ce8b7b 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -225,7 +225,8 @@ impl CSRs {
             }
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
-                    let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
+                    // the C extension stays on while the next instruction is not aligned without it
+                    let c_ext_bit = self.csrs[MISA] & 0b100;
                     self.csrs[MISA] = (src & !0b100) | c_ext_bit
                 } else {
                     self.csrs[MISA] = src
-- 
2.43.0


From a4e3e549d856b744f5c6849bbc1afed2f50dd391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:55 +0000
Subject: [PATCH 69/77] fix: an image whose empty segment has a file offset
 past the end loads

---
 src/bus/dram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index e3892ef..1eb8976 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -22,7 +22,8 @@ impl Dram {
 
         // load elf memory mapping
         for segment in loader.prog_headers.iter() {
-            if segment.is_loadable() {
+            // a segment without file contents may have any file offset
+            if segment.is_loadable() && segment.p_filesz() > 0 {
                 let (offset, paddr) = segment.offset_and_addr();
                 let dram_start = (paddr - virt_entry) as usize;
                 let mmap_start = (offset) as usize;
-- 
2.43.0


From 059c31a81cf49f2bca53633b7856d8d5a51004ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 70/77] fix: keep listing a section after bytes that are not an
 instruction

---
 src/elfload/elf_32/section_header.rs | 10 ++++++++--
 src/elfload/elf_64/section_header.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index e689aa2..3e76745 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -119,14 +119,20 @@ impl SectionHeader for SectionHeader32 {
                 dump_head += 2;
 
                 print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             } else {
                 let mdump = get_u32(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv32);
                 dump_head += 4;
 
                 print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             }
             println!();
         }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 876a284..d999849 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -123,14 +123,20 @@ impl SectionHeader for SectionHeader64 {
                 dump_head += 2;
 
                 print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             } else {
                 let mdump = get_u32(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv64);
                 dump_head += 4;
 
                 print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
+                match inst {
+                    Ok(inst) => inst.print_myself(),
+                    Err(_) => print!("unknown"),
+                }
             }
             println!();
         }
-- 
2.43.0


From 2507802eb98b5cf7de749a086292f6a020117633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 71/77] fix: list a section that ends within an instruction

---
 src/elfload/elf_32/section_header.rs | 12 ++++++++++--
 src/elfload/elf_64/section_header.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3e76745..6a3500a 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -112,7 +112,8 @@ impl SectionHeader for SectionHeader32 {
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
+        let dump_end = self.sh_offset + self.sh_size;
+        while dump_head + 2 <= dump_end {
             if is_cinst(mmap, dump_head as usize) {
                 let mdump = get_u16(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv32);
@@ -123,7 +124,7 @@ impl SectionHeader for SectionHeader32 {
                     Ok(inst) => inst.print_myself(),
                     Err(_) => print!("unknown"),
                 }
-            } else {
+            } else if dump_head + 4 <= dump_end {
                 let mdump = get_u32(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv32);
                 dump_head += 4;
@@ -133,9 +134,16 @@ impl SectionHeader for SectionHeader32 {
                     Ok(inst) => inst.print_myself(),
                     Err(_) => print!("unknown"),
                 }
+            } else {
+                break;
             }
             println!();
         }
+
+        // bytes too few for an instruction
+        for byte in &mmap[dump_head as usize..dump_end as usize] {
+            println!("{byte:02x}");
+        }
     }
 
     fn is_dumpable(&self) -> bool {
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index d999849..8a344c9 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -116,7 +116,8 @@ impl SectionHeader for SectionHeader64 {
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
+        let dump_end = self.sh_offset + self.sh_size;
+        while dump_head + 2 <= dump_end {
             if is_cinst(mmap, dump_head as usize) {
                 let mdump = get_u16(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv64);
@@ -127,7 +128,7 @@ impl SectionHeader for SectionHeader64 {
                     Ok(inst) => inst.print_myself(),
                     Err(_) => print!("unknown"),
                 }
-            } else {
+            } else if dump_head + 4 <= dump_end {
                 let mdump = get_u32(mmap, dump_head as usize);
                 let inst = mdump.decode(Isa::Rv64);
                 dump_head += 4;
@@ -137,9 +138,16 @@ impl SectionHeader for SectionHeader64 {
                     Ok(inst) => inst.print_myself(),
                     Err(_) => print!("unknown"),
                 }
+            } else {
+                break;
             }
             println!();
         }
+
+        // bytes too few for an instruction
+        for byte in &mmap[dump_head as usize..dump_end as usize] {
+            println!("{byte:02x}");
+        }
     }
 
     fn is_dumpable(&self) -> bool {
-- 
2.43.0


From 2b4236e23b44a08b612730af1e873cb8bc85b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 72/77] fix: do not list file bytes as the contents of a NOBITS
 section

---
 src/elfload/elf_32/section_header.rs | 6 +++++-
 src/elfload/elf_64/section_header.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 6a3500a..1501a42 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -112,7 +112,11 @@ impl SectionHeader for SectionHeader32 {
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        let dump_end = self.sh_offset + self.sh_size;
+        // SHT_NOBITS has no contents in the file
+        let dump_end = match self.sh_type {
+            8 => self.sh_offset,
+            _ => self.sh_offset + self.sh_size,
+        };
         while dump_head + 2 <= dump_end {
             if is_cinst(mmap, dump_head as usize) {
                 let mdump = get_u16(mmap, dump_head as usize);
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 8a344c9..1f5a002 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -116,7 +116,11 @@ impl SectionHeader for SectionHeader64 {
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        let dump_end = self.sh_offset + self.sh_size;
+        // SHT_NOBITS has no contents in the file
+        let dump_end = match self.sh_type {
+            8 => self.sh_offset,
+            _ => self.sh_offset + self.sh_size,
+        };
         while dump_head + 2 <= dump_end {
             if is_cinst(mmap, dump_head as usize) {
                 let mdump = get_u16(mmap, dump_head as usize);
-- 
2.43.0


From 6ede7f0ea331a59a898c81bbba08c40eb425c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 73/77] fix: show the contents a segment has in the file, not
 beyond

---
 src/elfload/elf_32/program_header.rs | 11 ++++++-----
 src/elfload/elf_64/program_header.rs | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 7b67d1c..72623da 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -65,14 +65,15 @@ impl ProgramHeader for ProgramHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
+        let contents = self.p_offset as usize..(self.p_offset + self.p_filesz) as usize;
+        for (block, dump_part) in mmap[contents].chunks(4).enumerate() {
             if block % 8 == 0 {
                 println!()
             }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
+            // the last word may be incomplete
+            let mut word = [0; 4];
+            word[..dump_part.len()].copy_from_slice(dump_part);
+            print!("{:08x} ", get_u32(&word, 0));
         }
     }
 
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 8e24340..52ca511 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -65,14 +65,15 @@ impl ProgramHeader for ProgramHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
+        let contents = self.p_offset as usize..(self.p_offset + self.p_filesz) as usize;
+        for (block, dump_part) in mmap[contents].chunks(4).enumerate() {
             if block % 8 == 0 {
                 println!()
             }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
+            // the last word may be incomplete
+            let mut word = [0; 4];
+            word[..dump_part.len()].copy_from_slice(dump_part);
+            print!("{:08x} ", get_u32(&word, 0));
         }
     }
 
-- 
2.43.0


From 39a8076f0d37779cd2c5becf811ee7a246ce308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 74/77] fix: name of mulhsu in listings

---
 src/cpu/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/instruction.rs b/src/cpu/instruction.rs
index a009ab4..d92ac4b 100644
--- a/src/cpu/instruction.rs
+++ b/src/cpu/instruction.rs
@@ -399,7 +399,7 @@ impl Instruction {
             OpecodeKind::OP_SFENCE_VMA => "sfence.vma",
             OpecodeKind::OP_MUL => "mul",
             OpecodeKind::OP_MULH => "mulh",
-            OpecodeKind::OP_MULHSU => "mulhsu,",
+            OpecodeKind::OP_MULHSU => "mulhsu",
             OpecodeKind::OP_MULHU => "mulhu",
             OpecodeKind::OP_DIV => "div",
             OpecodeKind::OP_DIVU => "divu",
-- 
2.43.0


From 3c0b4e2d76c6e0e14beecbc8dea95268945f05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 75/77] fix: names of segment and section types

---
 src/elfload/elf_32/program_header.rs | 3 +--
 src/elfload/elf_32/section_header.rs | 9 +++++----
 src/elfload/elf_64/program_header.rs | 3 +--
 src/elfload/elf_64/section_header.rs | 9 +++++----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 72623da..b1b334a 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -10,8 +10,7 @@ fn get_segment_type_name(segment_type: u32) -> &'static str {
         4 => "PT_NOTE",
         5 => "PT_SHLIB",
         6 => "PT_PHDR",
-        7 => "PT_LOPROC",
-        8 => "PT_HIPROC",
+        7 => "PT_TLS",
         _ => "unknown type",
     }
 }
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 1501a42..c17e019 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -85,10 +85,11 @@ impl SectionHeader for SectionHeader32 {
             9 => "SHT_REL",
             10 => "SHT_SHLIB",
             11 => "SHT_DYNSYM",
-            12 => "SHT_LOPROC",
-            13 => "SHT_HIPROC",
-            14 => "SHT_LOUSER",
-            15 => "SHT_HIUSER",
+            14 => "SHT_INIT_ARRAY",
+            15 => "SHT_FINI_ARRAY",
+            16 => "SHT_PREINIT_ARRAY",
+            17 => "SHT_GROUP",
+            18 => "SHT_SYMTAB_SHNDX",
             _ => "unknown type",
         }
     }
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 52ca511..615a410 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -10,8 +10,7 @@ fn get_segment_type_name(segment_type: u32) -> &'static str {
         4 => "PT_NOTE",
         5 => "PT_SHLIB",
         6 => "PT_PHDR",
-        7 => "PT_LOPROC",
-        8 => "PT_HIPROC",
+        7 => "PT_TLS",
         _ => "unknown type",
     }
 }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 1f5a002..eaa5624 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -89,10 +89,11 @@ impl SectionHeader for SectionHeader64 {
             9 => "SHT_REL",
             10 => "SHT_SHLIB",
             11 => "SHT_DYNSYM",
-            12 => "SHT_LOPROC",
-            13 => "SHT_HIPROC",
-            14 => "SHT_LOUSER",
-            15 => "SHT_HIUSER",
+            14 => "SHT_INIT_ARRAY",
+            15 => "SHT_FINI_ARRAY",
+            16 => "SHT_PREINIT_ARRAY",
+            17 => "SHT_GROUP",
+            18 => "SHT_SYMTAB_SHNDX",
             _ => "unknown type",
         }
     }
-- 
2.43.0


From c38a4f71a4b57278512fa00021e4c21b8720c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 76/77] fix: a symbol table out of the file is not an empty one

---
 src/elfload/elf_32/section_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index c17e019..bac6c84 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -68,7 +68,7 @@ impl SectionHeader for SectionHeader32 {
     }
 
     fn section_range(&self) -> std::ops::Range<u64> {
-        self.sh_offset as u64..(self.sh_offset + self.sh_size) as u64
+        self.sh_offset as u64..self.sh_offset as u64 + self.sh_size as u64
     }
 
     fn type_to_str(&self) -> &'static str {
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index eaa5624..fa1a71c 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -72,7 +72,8 @@ impl SectionHeader for SectionHeader64 {
     }
 
     fn section_range(&self) -> std::ops::Range<u64> {
-        self.sh_offset..self.sh_offset + self.sh_size
+        let end = self.sh_offset.checked_add(self.sh_size);
+        self.sh_offset..end.expect("section is out of the file")
     }
 
     fn type_to_str(&self) -> &'static str {
-- 
2.43.0


From 4f8f66f25417291bd1a5e7581d1445c4dc3f7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 77/77] fix: a name running off the end of the file is not a
 shorter one

---
 src/elfload.rs                       |  5 +++--
 src/elfload/elf_32/section_header.rs | 15 ++++++---------
 src/elfload/elf_64/section_header.rs | 15 ++++++---------
 3 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/elfload.rs b/src/elfload.rs
index 6a85647..2c7d21e 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -176,9 +176,10 @@ impl ElfLoader {
             };
             for symtab_off in symtab.section_range().step_by(st_size) {
                 let st_name_off = get_u32(&self.mem_data, symtab_off as usize);
-                let st_name = &self.mem_data[(strtab.sh_offset() + st_name_off as u64) as usize..]
+                let names = &self.mem_data[(strtab.sh_offset() + st_name_off as u64) as usize..];
+                let end = names.iter().position(|c| *c == 0);
+                let st_name = names[..end.expect("symbol name is out of the file")]
                     .iter()
-                    .take_while(|c| **c as char != '\0')
                     .map(|c| *c as char)
                     .collect::<String>();
 
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index bac6c84..51749b5 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -47,16 +47,13 @@ impl SectionHeader32 {
 impl SectionHeader for SectionHeader32 {
     fn get_sh_name(mmap: &[u8], section_head: usize, name_table_head: usize) -> String {
         let name_id: usize = get_u32(mmap, section_head) as usize;
-        let mut sh_name: String = String::new();
+        let names = &mmap[name_table_head + name_id..];
+        let end = names.iter().position(|c| *c == 0);
 
-        for c in mmap[name_table_head + name_id..].iter() {
-            if *c as char == '\0' {
-                break;
-            }
-            sh_name.push(*c as char);
-        }
-
-        sh_name
+        names[..end.expect("section name is out of the file")]
+            .iter()
+            .map(|c| *c as char)
+            .collect()
     }
 
     fn sh_name(&self) -> &str {
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index fa1a71c..2a436f6 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -51,16 +51,13 @@ impl SectionHeader for SectionHeader64 {
         Self: Sized,
     {
         let name_id: usize = get_u32(mmap, section_head) as usize;
-        let mut sh_name: String = String::new();
+        let names = &mmap[name_table_head + name_id..];
+        let end = names.iter().position(|c| *c == 0);
 
-        for c in mmap[name_table_head + name_id..].iter() {
-            if *c as char == '\0' {
-                break;
-            }
-            sh_name.push(*c as char);
-        }
-
-        sh_name
+        names[..end.expect("section name is out of the file")]
+            .iter()
+            .map(|c| *c as char)
+            .collect()
     }
 
     fn sh_name(&self) -> &str {
-- 
2.43.0

