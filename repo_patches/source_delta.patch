From add67506147cd2122cabc24537ff03ae7e625108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 01/13] fix: ORI and EORI to CCR affect only the condition
 codes

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..15044f9 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1700,7 +1700,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From a20d2346ff3dc5c0e73129da94ebffa6a07d46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 02/13] fix: EXT.W sets N and Z from the word result

---
 m68000/src/interpreter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 15044f9..2f24088 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,15 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+            self.regs.sr.n = (d as i16) < 0;
+            self.regs.sr.z = d == 0;
         } else {
-            self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+            let d = self.regs.d[reg as usize].0 as i16 as u32;
+            self.regs.d[reg as usize].0 = d;
+            self.regs.sr.n = (d as i32) < 0;
+            self.regs.sr.z = d == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From cb1fb31a684fefea1ce5a128c946e1f04bf28e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 03/13] fix: JSR computes the jump address before pushing the
 return address

---
 m68000/src/interpreter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 2f24088..777383b 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1066,8 +1066,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        let addr = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = addr;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From 096d637b0263139a49190ecfc81622b61c3c8146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 04/13] fix: DIVS accepts a quotient of -32768

---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 777383b..830b07c 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -860,7 +860,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From a26bd5c73b02f2643c02ae7b00cfef1ae93112a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 05/13] fix: MOVEM to memory with postincrement and from memory
 with predecrement are illegal

---
 m68000/src/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From 7b9a16be6b191df593cf9f2ec15ce2e0b67e3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 06/13] fix: a refused opcode fetch leaves the program counter
 unchanged, as in the disassembling path

---
 m68000/src/memory_access.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..30edf6f 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -176,18 +176,18 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// This function is public because it can be useful in some contexts such as OS-9 environments
     /// where the trap ID is the immediate next word after the TRAP instruction.
     pub fn get_next_word<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> GetResult<u16> {
-        let data = memory.get_word(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR);
+        let data = memory.get_word(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR)?;
         self.regs.pc += 2;
-        data
+        Ok(data)
     }
 
     /// Returns the long at `self.regs.pc` then advances `self.regs.pc` by 4.
     ///
     /// Please note that this function advances the program counter so be careful when using it.
     pub fn get_next_long<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> GetResult<u32> {
-        let data = memory.get_long(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR);
+        let data = memory.get_long(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR)?;
         self.regs.pc += 4;
-        data
+        Ok(data)
     }
 
     /// Returns the word at `self.regs.pc`.
-- 
2.43.0


From 1b1d313b031cc6d6828757d6f72cadd7d26e6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 07/13] fix: word accesses to byte slices are refused when only
 the first byte is inside

---
 m68000/src/memory_access.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 30edf6f..5e2a234 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -240,7 +240,7 @@ impl MemoryAccess for [u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len() && self.len() - addr > 1 {
             Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
         } else {
             None
@@ -259,7 +259,7 @@ impl MemoryAccess for [u8] {
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len() && self.len() - addr > 1 {
             self[addr] = (data >> 8) as u8;
             self[addr.wrapping_add(1)] = data as u8;
             Some(())
@@ -283,7 +283,7 @@ impl MemoryAccess for &[u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len() && self.len() - addr > 1 {
             Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
         } else {
             None
-- 
2.43.0


From 548dc162db8a8e8403cdef9c9fab4465faa9b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 08/13] fix: different pending exceptions of the same priority
 do not replace one another

---
 m68000/src/exception.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..44bd81e 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -82,7 +82,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         3 => 0, // Address error.
         2 => 1, // Access Error.
         9 => 2, // Trace.
-        24..=31 => 3, // Interrupt.
+        24..=31 | 57..=63 => 3, // Interrupt.
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
@@ -141,7 +141,9 @@ impl Ord for Exception {
         match self.priority.cmp(&other.priority) {
             Ordering::Greater => Ordering::Less,
             Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
+            // Different exceptions are never equal. Among interrupts, the higher level has the higher priority.
+            Ordering::Equal if self.is_interrupt() && other.is_interrupt() => (self.vector & 7, self.vector).cmp(&(other.vector & 7, other.vector)),
+            Ordering::Equal => self.vector.cmp(&other.vector),
         }
     }
 }
-- 
2.43.0


From 0e1243f2ac10c0f53b837eb104b90de42502f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 09/13] fix: only an interrupt that is not masked ends the
 stopped state, also when STOP itself unmasks it

---
 m68000/src/exception.rs   | 10 +++++++++-
 m68000/src/interpreter.rs |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 44bd81e..18e2bdc 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -153,13 +153,21 @@ impl<CPU: CpuDetails> M68000<CPU> {
     pub fn exception(&mut self, ex: Exception) {
         if ex.vector == Vector::ResetSspPc as u8 ||
            ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+           ex.is_interrupt() && !self.is_masked(&ex) {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
     }
 
+    /// Returns true if the given exception is an interrupt that the interrupt mask currently holds back.
+    ///
+    /// MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
+    pub(super) fn is_masked(&self, ex: &Exception) -> bool {
+        let level = ex.vector & 0x7;
+        ex.is_interrupt() && level != 7 && level <= self.regs.sr.interrupt_mask
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 830b07c..b30b574 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -2022,7 +2022,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
         self.check_supervisor()?;
 
         self.regs.sr = imm.into();
-        self.stop = true;
+        // An interrupt already pending that the new mask allows ends the stopped state immediately.
+        self.stop = self.exceptions.iter().all(|ex| self.is_masked(ex));
         Ok(CPU::STOP)
     }
 
-- 
2.43.0


From 46ab6c087f77f6997172d17624c53780d2f678c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 10/13] fix: the assembler refuses register numbers above 7 in
 ADDA, CMPA, SUBA, MOVE and MOVEA operands

---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..78e2efe 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -561,6 +563,7 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
     size_effective_address_effective_address(size, dst, src)
 }
@@ -568,6 +571,7 @@ pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16>
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0


From 9b5ac6608ef530653e71a338664c9f692055480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 11/13] fix: m68000-ffi.h uses size_t without including
 stddef.h

---
 include/m68000/m68000-ffi.h  | 1 +
 m68000-ffi/cbindgen-ffi.toml | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/m68000/m68000-ffi.h b/include/m68000/m68000-ffi.h
index 6c6396d..82396c4 100644
--- a/include/m68000/m68000-ffi.h
+++ b/include/m68000/m68000-ffi.h
@@ -1,6 +1,7 @@
 #ifndef M68000_FFI_H
 #define M68000_FFI_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include "m68000.h"
 
diff --git a/m68000-ffi/cbindgen-ffi.toml b/m68000-ffi/cbindgen-ffi.toml
index 50d55dd..d600165 100644
--- a/m68000-ffi/cbindgen-ffi.toml
+++ b/m68000-ffi/cbindgen-ffi.toml
@@ -2,7 +2,7 @@ language = "C"
 include_guard = "M68000_FFI_H"
 
 include_version = false
-sys_includes = ["stdint.h"]
+sys_includes = ["stddef.h", "stdint.h"]
 includes = ["m68000.h"]
 no_includes = true
 cpp_compat = true
-- 
2.43.0


From a1d4148c9469b2a5f8b4b71e64c711d9751d1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 12/13] fix: an empty disassembly buffer made the C interface
 write out of bounds

---
 m68000-ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000-ffi/src/lib.rs b/m68000-ffi/src/lib.rs
index 9b6ade9..3e74b74 100644
--- a/m68000-ffi/src/lib.rs
+++ b/m68000-ffi/src/lib.rs
@@ -345,7 +345,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
@@ -375,7 +375,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
-- 
2.43.0


From 523ad2d6e7df588ee2752f6d15910630c6b80e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 13/13] fix: charge the long operand's extra time once when an
 instruction reads then writes it

get_long and set_long each added the four cycles a long effective address takes more than a word one, so
ADD.L D0,(A0) took 24 cycles where the M68000 User's Manual gives 12 + 8 = 20. The time now comes with the
address calculation, which happens once.
---
 m68000/src/addressing_modes.rs | 5 +++++
 m68000/src/memory_access.rs    | 8 ++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/m68000/src/addressing_modes.rs b/m68000/src/addressing_modes.rs
index be9799d..90ada67 100644
--- a/m68000/src/addressing_modes.rs
+++ b/m68000/src/addressing_modes.rs
@@ -360,6 +360,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
                 },
                 _ => None,
             };
+
+            // The calculation time in long size, charged once even if the operand is read then written.
+            if ea.size == Some(Size::Long) {
+                *exec_time += 4;
+            }
         }
 
         ea.address.expect("[get_effective_address] Trying to read effective address of a value not in memory.")
diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 5e2a234..bf47915 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -132,9 +132,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             },
             _ => {
                 let addr = self.get_effective_address(ea, exec_time).even()?;
-                let r = memory.get_long(addr).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
-                r
+                memory.get_long(addr).ok_or(ACCESS_ERROR)
             },
         }
     }
@@ -163,9 +161,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
                 let addr = self.get_effective_address(ea, exec_time).even()?;
-                let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
-                r
+                memory.set_long(addr, value).ok_or(ACCESS_ERROR)
             },
         }
     }
-- 
2.43.0

