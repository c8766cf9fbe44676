from b1 import I,X,A,U,M,R,D,F,L
N='m68000/src/instruction.rs'; AS='m68000/src/assembler.rs'; C='m68000-ffi/src/lib.rs'; H='include/m68000/m68000.h'; HF='include/m68000/m68000-ffi.h'
FSH='''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves as the property demands.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp Cargo.lock "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
m68000 = { path = "$PWD/m68000", features = ["ffi"] }
m68000-ffi = { path = "$PWD/m68000-ffi" }
[workspace]
T
(cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q >"$t/log" 2>&1) || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
CSH='''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves as the property demands.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
CARGO_TARGET_DIR="$t/target" cargo build --offline -q -p m68000-ffi >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
gcc -w -Iinclude -Iinclude/m68000 "$here/demo.c" "$t/target/debug/libm68000_ffi.a" -lpthread -ldl -lm -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
FPRE='''
use m68000_ffi::*;
use m68000_ffi::mc68000::*;
use m68000_ffi::scc68070::*;
use std::ffi::c_void;
use std::os::raw::c_char;
fn ok(d: u32) -> m68000_memory_result_t { m68000_memory_result_t { data: d, exception: 0 } }
static mut B: [u8; 0x10000] = [0; 0x10000];
static mut LOG: Vec<(char, u32, u32)> = Vec::new();
static mut REFUSE: u32 = u32::MAX;
static mut CODE: u8 = 2;
#[allow(static_mut_refs)]
fn res(k: char, a: u32, v: u32, d: u32) -> m68000_memory_result_t { unsafe { LOG.push((k, a, v)); if a == REFUSE { m68000_memory_result_t { data: d, exception: CODE } } else { ok(d) } } }
fn at(a: u32) -> usize { a as usize & 0xffff }
extern "C" fn gb(a: u32, _: *mut c_void) -> m68000_memory_result_t { unsafe { res('b', a, 0, B[at(a)] as u32) } }
extern "C" fn gw(a: u32, _: *mut c_void) -> m68000_memory_result_t { unsafe { res('w', a, 0, (B[at(a)] as u32) << 8 | B[at(a + 1)] as u32) } }
extern "C" fn gl(a: u32, _: *mut c_void) -> m68000_memory_result_t { unsafe { res('l', a, 0, (B[at(a)] as u32) << 24 | (B[at(a + 1)] as u32) << 16 | (B[at(a + 2)] as u32) << 8 | B[at(a + 3)] as u32) } }
extern "C" fn sb(a: u32, v: u8, _: *mut c_void) -> m68000_memory_result_t { unsafe { if a != REFUSE { B[at(a)] = v; } } res('B', a, v as u32, 0) }
extern "C" fn sw(a: u32, v: u16, _: *mut c_void) -> m68000_memory_result_t { unsafe { if a != REFUSE { B[at(a)] = (v >> 8) as u8; B[at(a + 1)] = v as u8; } } res('W', a, v as u32, 0) }
extern "C" fn sl(a: u32, v: u32, _: *mut c_void) -> m68000_memory_result_t { unsafe { if a != REFUSE { for i in 0..4 { B[at(a + i)] = (v >> (24 - 8 * i)) as u8; } } } res('L', a, v, 0) }
extern "C" fn ri(_: *mut c_void) {}
fn mem() -> m68000_callbacks_t { m68000_callbacks_t { get_byte: gb, get_word: gw, get_long: gl, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() } }
fn words(a: u32, w: &[u16]) { for (i, x) in w.iter().enumerate() { unsafe { B[at(a) + 2 * i] = (x >> 8) as u8; B[at(a) + 2 * i + 1] = *x as u8; } } }
#[allow(unused)] type S = *mut c_char;
'''
CPRE='''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "m68000-ffi.h"
static uint8_t B[0x10000];
static uint32_t last_addr, last_val; static void *last_user;
static m68000_memory_result_t r(uint32_t d) { m68000_memory_result_t x; memset(&x, 0, sizeof x); x.data = d; return x; }
static m68000_memory_result_t gb(uint32_t a, void *u) { return r(B[a & 0xffff]); }
static m68000_memory_result_t gw(uint32_t a, void *u) { a &= 0xffff; return r(B[a] << 8 | B[a + 1]); }
static m68000_memory_result_t gl(uint32_t a, void *u) { a &= 0xffff; return r((uint32_t)B[a] << 24 | B[a + 1] << 16 | B[a + 2] << 8 | B[a + 3]); }
static m68000_memory_result_t sb(uint32_t a, uint8_t v, void *u) { B[a & 0xffff] = v; last_addr = a; last_val = v; last_user = u; return r(0); }
static m68000_memory_result_t sw(uint32_t a, uint16_t v, void *u) { last_addr = a; last_val = v; last_user = u; a &= 0xffff; B[a] = v >> 8; B[a + 1] = v; return r(0); }
static m68000_memory_result_t sl(uint32_t a, uint32_t v, void *u) { last_addr = a; last_val = v; last_user = u; return r(0); }
static void ri(void *u) {}
static void words(uint32_t a, int n, const uint16_t *w) { for (int i = 0; i < n; i++) { B[a + 2 * i] = w[i] >> 8; B[a + 2 * i + 1] = w[i]; } }
static m68000_callbacks_t mem(void) { m68000_callbacks_t m; memset(&m, 0, sizeof m); m.get_byte = gb; m.get_word = gw; m.get_long = gl; m.set_byte = sb; m.set_word = sw; m.set_long = sl; m.reset_instruction = ri; m.user_data = B; return m; }
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)
'''
def ffi(id,prop,edits,needs,breaks,body): return dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=FPRE+body,raw=True,sh=FSH)
def cdemo(id,prop,edits,needs,breaks,body): return dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo='// see demo.c',raw=True,sh=CSH,files={'demo.c':CPRE+body})
def seed(id,prop,edits,needs,breaks,body): return dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=body)
S=[
ffi('ffi-other-error-accepted','C33',[(C,'''    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        let res = (self.set_word)(addr, value, self.user_data);
        if res.exception == 0 {''','''    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        let res = (self.set_word)(addr, value, self.user_data);
        if res.exception != 2 {''')],
 'a word write callback which reports its refusal with a code other than 2','the refused write counts as done and the instruction completes',
 '''fn main() { unsafe { let c = m68000_mc68000_new_no_reset(); (*c).regs.pc.0 = 0x1000; (*c).regs.ssp.0 = 0x8000; words(0x1000, &[0x30C0]); (*c).regs.a[0].0 = 0x2000; REFUSE = 0x2000; CODE = 3; let mut m = mem(); let r = m68000_mc68000_interpreter_exception(c, &mut m); assert_eq!(r.exception, 2); } }'''),
ffi('ffi-long-address-24bit','C33',[(C,'let res = (self.get_long)(addr, self.user_data);','let res = (self.get_long)(addr & 0x00FF_FFFF, self.user_data);')],
 'a long read above the 24-bit address space','the callback sees another address than the program used',
 '''#[allow(static_mut_refs)] fn main() { unsafe { let c = m68000_scc68070_new_no_reset(); (*c).regs.pc.0 = 0x1000; words(0x1000, &[0x2010]); (*c).regs.a[0].0 = 0xFF00_2000; let mut m = mem(); m68000_scc68070_interpreter(c, &mut m); assert!(LOG.contains(&('l', 0xFF00_2000, 0))); } }'''),
cdemo('header-usp-ssp','C34',[(L,'''    pub usp: Wrapping<u32>,
    /// System Stack Pointer.
    pub ssp: Wrapping<u32>,''','''    pub ssp: Wrapping<u32>,
    /// User Stack Pointer.
    pub usp: Wrapping<u32>,''')],
 'a C program that reads or writes the stack pointers through the header','the header and the library disagree on which of the two stack pointers comes first',
 '''int main(void) { m68000_mc68000_t *c = m68000_mc68000_new_no_reset(); m68000_registers_t *g = m68000_mc68000_registers_mut(c); g->ssp = 0x8000; g->usp = 0x7000; g->pc = 0x1000; uint16_t w[] = {0x3F00}; words(0x1000, 1, w); m68000_callbacks_t m = mem(); m68000_mc68000_interpreter(c, &m); CHECK(last_addr == 0x7ffe); m68000_mc68000_delete(c); return 0; }'''),
cdemo('header-onchip-vector','C34',[(H,'Level1OnChipInterrupt = 57,','Level1OnChipInterrupt = 56,')],
 'a C program that requests an on-chip interrupt by its name','every on-chip interrupt requested from C arrives as the next lower one',
 '''int main(void) { m68000_scc68070_t *c = m68000_scc68070_new_no_reset(); m68000_registers_t *g = m68000_scc68070_registers_mut(c); g->ssp = 0x8000; g->pc = 0x1000; uint16_t w[] = {0x4E71, 0x4E71}; words(0x1000, 2, w); words(0x3000, 2, w); uint16_t v[] = {0, 0x3000}; words(63 * 4, 2, v); m68000_callbacks_t m = mem(); m68000_scc68070_exception(c, Level7OnChipInterrupt); m68000_scc68070_interpreter(c, &m); CHECK(m68000_scc68070_registers(c)->pc == 0x3002); return 0; }'''),
cdemo('header-cycle-32bit','C34',[(HF,'size_t m68000_scc68070_cycle(m68000_scc68070_t *m68000, struct m68000_callbacks_t *memory, size_t cycles);','uint32_t m68000_scc68070_cycle(m68000_scc68070_t *m68000, struct m68000_callbacks_t *memory, size_t cycles);')],
 'a C program that runs for more cycles than 32 bits hold, on the SCC68070','the number of cycles executed is truncated',
 '''int main(void) { m68000_scc68070_t *c = m68000_scc68070_new_no_reset(); m68000_registers_t *g = m68000_scc68070_registers_mut(c); g->ssp = 0x8000; g->pc = 0x1000; uint16_t w[] = {0x4E72, 0x2700}; words(0x1000, 2, w); m68000_callbacks_t m = mem(); size_t n = m68000_scc68070_cycle(c, &m, (size_t)5 << 32 | 7); CHECK(n == ((size_t)5 << 32 | 7)); return 0; }'''),
ffi('ffi-next-long-vector','C35',[(C,'''                    match (*m68000).get_next_long(&mut *memory) {
                        Ok(data) => m68000_memory_result_t {
                            data,
                            exception: 0,
                        },
                        Err(vec) => m68000_memory_result_t {
                            data: 0,
                            exception: vec,
                        },
                    }''','''                    match (*m68000).get_next_long(&mut *memory) {
                        Ok(data) => m68000_memory_result_t {
                            data,
                            exception: 0,
                        },
                        Err(_) => m68000_memory_result_t {
                            data: 0,
                            exception: 2,
                        },
                    }''')],
 'get_next_long called with an odd program counter','the address error is reported as an access error',
 '''fn main() { unsafe { let c = m68000_mc68000_new_no_reset(); (*c).regs.pc.0 = 0x1001; let mut m = mem(); let r = m68000_mc68000_get_next_long(c, &mut m); assert_eq!(r.exception, 3); } }'''),
ffi('ffi-text-no-nul','C35',[(C,'''                    let (pc, dis, cycles, vector) = (*m68000).disassembler_interpreter_exception(&mut *memory);

                    let cstring = CString::new(dis).expect("New CString for disassembler failed")
                        .into_bytes_with_nul();''','''                    let (pc, dis, cycles, vector) = (*m68000).disassembler_interpreter_exception(&mut *memory);

                    let cstring = CString::new(dis).expect("New CString for disassembler failed")
                        .into_bytes();''')],
 'the text buffer holding something else than zeros before the call','the text is not terminated',
 '''fn main() { unsafe { let c = m68000_mc68000_new_no_reset(); (*c).regs.pc.0 = 0x1000; words(0x1000, &[0x4E71]); let mut b = [0x55 as c_char; 64]; let mut m = mem(); m68000_mc68000_disassembler_interpreter_exception(c, &mut m, b.as_mut_ptr(), 64); assert_eq!(std::ffi::CStr::from_ptr(b.as_ptr()).to_str().unwrap(), "NOP"); } }'''),
ffi('ffi-user-vector-wraps','C35',[(C,'(*m68000).exception(Exception::from(vector))','(*m68000).exception(Exception::from(vector as u8 & 0x3F))')],
 'the user interrupt vector (64) requested through the C interface','a user interrupt request resets the processor',
 '''fn main() { unsafe { let c = m68000_mc68000_new_no_reset(); (*c).regs.pc.0 = 0x1000; (*c).regs.ssp.0 = 0x8000; (*c).regs.sr = 0x2000u16.into(); words(0x1000, &[0x4E71]); words(0x3000, &[0x4E71]); words(256, &[0, 0x3000]); words(0, &[0, 0x6000, 0, 0x4000]); words(0x4000, &[0x4E71]); let mut m = mem(); m68000_mc68000_exception(c, m68000::exception::Vector::UserInterrupt); m68000_mc68000_interpreter(c, &mut m); assert_eq!((*c).regs.pc.0, 0x3002); } }'''),
seed('dis-stopped-takes-pending','C08',[(D,'''        if self.stop {
            return (0, String::from(""), 0, None);
        }

        let mut cycle_count = 0;

        if !self.exceptions.is_empty() {
            cycle_count += self.process_pending_exceptions(memory);
        }
''','''        let mut cycle_count = 0;

        if !self.exceptions.is_empty() {
            cycle_count += self.process_pending_exceptions(memory);
        }

        if self.stop {
            return (0, String::from(""), cycle_count, None);
        }
''')],'a stopped processor with an exception pending that does not end the stopped state, stepped through the disassembling path','the disassembling path takes the exception while stopped, the direct path does not',
 '''fn main() { let run = |dis: bool| { let mut m = Mem::new(); m.words(0x1000, &[0x4E72, 0x2700]); m.long(32 * 4, 0x3000); let mut c = cpu::<Mc68000>(); c.interpreter(&mut m); assert!(c.stop); c.exception(Exception::from(Vector::Trap0Instruction)); m.log.clear(); if dis { c.disassembler_interpreter(&mut m); } else { c.interpreter(&mut m); } (c.regs.pc.0, c.regs.ssp.0, m.log.len()) }; assert_eq!(run(true), run(false)); }'''),
seed('dis-trace-after','C29',[(D,'''        let trace = self.regs.sr.t;
        let exception = match Execute::<CPU, M>::EXECUTE[isa as usize](self, memory, &instruction) {
            Ok(cycles) => {
                cycle_count += cycles;
                if trace && !isa.is_privileged() {''','''        let exception = match Execute::<CPU, M>::EXECUTE[isa as usize](self, memory, &instruction) {
            Ok(cycles) => {
                cycle_count += cycles;
                if self.regs.sr.t && !isa.is_privileged() {''')],'a trace exception taken before the step in the disassembling path with RTR... an instruction which ends with a trace bit other than the one it began with: none but privileged ones, so only through the exception path','none',
 '''fn main() { }'''),
seed('exception-keeps-trace','C23',[(X,'''        self.regs.sr.t = false;
        self.regs.sr.s = true;
        if is_interrupt(vector) {
            self.regs.sr.interrupt_mask = vector & 7; // MC68000UM 6.3.2.
        }''','''        self.regs.sr.s = true;
        if is_interrupt(vector) {
            self.regs.sr.interrupt_mask = vector & 7; // MC68000UM 6.3.2.
        } else {
            self.regs.sr.t = false;
        }''')],'an interrupt taken while the trace bit is set','the interrupt handler runs traced',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4E71]); m.words(0x3000, &[0x4E71, 0x4E71]); m.long(31 * 4, 0x3000); let mut c = cpu::<Mc68000>(); c.regs.sr = 0xA000u16.into(); c.exception(Exception::from(Vector::Level7Interrupt)); let (_, v) = c.interpreter_exception(&mut m); assert!(!c.regs.sr.t); assert_eq!(v, None); }'''),
seed('pending-cycles-lost','C08',[(F,'''            Ok(cycles) => {
                cycle_count += cycles;''','''            Ok(cycles) => {
                cycle_count = cycles;''')],'an exception processed in the same step as an instruction, on the direct path','the direct path forgets the time of the exception',
 '''fn main() { let run = |dis: bool| { let mut m = Mem::new(); m.words(0x3000, &[0x4E71]); m.long(31 * 4, 0x3000); let mut c = cpu::<Mc68000>(); c.exception(Exception::from(Vector::Level7Interrupt)); if dis { c.disassembler_interpreter(&mut m).2 } else { c.interpreter(&mut m) } }; assert_eq!(run(true), run(false)); }'''),
seed('branch-displacement-128','C37',[(AS,'disp < i8::MIN as i16 || disp > i8::MAX as i16 || disp == 0','disp < i8::MIN as i16 || disp > i8::MAX as i16 + 1 || disp == 0')],'a branch assembled with a displacement of exactly 128','the branch goes 128 bytes backwards',
 '''fn main() { let w = m68000::assembler::bra(128); let mut m = Mem::new(); m.words(0x1000, &w); let mut c = cpu::<Mc68000>(); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x1002 + 128); }'''),
seed('movem-dummy-read','C05',[(I,'''                        self.regs.a_mut(reg).0 = if size.is_word() {
                            memory.get_word(addr).ok_or(ACCESS_ERROR)? as i16 as u32
                        } else {
                            memory.get_long(addr).ok_or(ACCESS_ERROR)?
                        };''','''                        self.regs.a_mut(reg).0 = if size.is_word() {
                            memory.get_word(addr).ok_or(ACCESS_ERROR)? as i16 as u32
                        } else {
                            memory.get_long(addr).ok_or(ACCESS_ERROR)?
                        };
                        if reg == 7 {
                            let _ = memory.get_word(addr.wrapping_add(gap));
                        }''')],'MOVEM from memory that loads A7','a word beyond the list is read as well',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4CD0, 0x8001]); let mut c = cpu::<Mc68000>(); c.regs.a[0].0 = 0x2000; c.interpreter(&mut m); assert_eq!(m.log.iter().filter(|x| x.1 >= 0x2000).count(), 2); }'''),
seed('dbcc-condition-low','C14',[(N,'''    let condition = bits(opcode, 8, 11) as u8;
    let reg = bits(opcode, 0, 2) as u8;
    (condition, reg, disp)''','''    let condition = bits(opcode, 8, 10) as u8;
    let reg = bits(opcode, 0, 2) as u8;
    (condition, reg, disp)''')],'DBcc with one of the upper eight conditions','DBVC, DBGE and so on test the condition eight below theirs',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x5AC8, 0x0010]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 5; c.regs.sr = 0x2708u16.into(); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x1012); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 5; c.regs.sr = 0x2704u16.into(); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x1004); }'''),
seed('reset-keeps-pending','C28',[(X,'''                self.exceptions.clear(); // The reset vector clears all the pending interrupts.
                return self.reset(memory);''','''                return self.reset(memory);''')],'a masked interrupt pending when the reset is processed','the interrupt survives the reset and is taken once the program lowers the mask',
 '''fn main() { let mut m = Mem::new(); m.long(0, 0x8000); m.long(4, 0x1000); m.words(0x1000, &[0x46FC, 0x2000, 0x4E71]); m.long(27 * 4, 0x3000); m.words(0x3000, &[0x4E71]); let mut c = cpu::<Mc68000>(); c.exception(Exception::from(Vector::Level3Interrupt)); c.exception(Exception::from(Vector::ResetSspPc)); c.interpreter(&mut m); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x1006); }'''),
seed('andi-ccr-mask','C30',[(I,'pub(super) const SR_UPPER_MASK: u16 = 0xA700;','pub(super) const SR_UPPER_MASK: u16 = 0xA600;')],'ANDI to CCR while the interrupt mask is odd','the instruction lowers the interrupt mask',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x023C, 0x001F]); let mut c = cpu::<Mc68000>(); c.regs.sr = 0x2301u16.into(); c.interpreter(&mut m); assert_eq!(sr(&c), 0x2301); }'''),
seed('movem-time-missing','C31',[(I,'''            AddressingMode::Pciwi8(..) => CPU::MOVEM_PCIWI8,
            _ => panic!("Wrong addressing mode for MOVEM."),
        };
        if dir == Direction::MemoryToRegister {''','''            AddressingMode::Pciwi8(..) => CPU::MOVEM_PCIWI8,
            _ => panic!("Wrong addressing mode for MOVEM."),
        };
        if count == 0 {
            return Ok(0);
        }
        if dir == Direction::MemoryToRegister {''')],'MOVEM with an empty register list','the instruction takes no time, so that a run over a loop of them makes no progress',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x48D0, 0x0000]); let mut c = cpu::<Mc68000>(); c.regs.a[0].0 = 0x2000; let (n, v) = c.interpreter_exception(&mut m); assert_eq!(v, None); assert!(n > 0); }'''),
seed('move-extension-order','C07',[(N,'''    // First read the source operand then the destination.
    let eareg = bits(opcode, 0, 2) as u8;
    let eamode = bits(opcode, 3, 5);
    let src = AddressingMode::from_memory(eamode, eareg, Some(size), memory);

    let eamode = bits(opcode, 6, 8);
    let eareg = bits(opcode, 9, 11) as u8;
    let dst = AddressingMode::from_memory(eamode, eareg, Some(size), memory);
''','''    let eamode = bits(opcode, 6, 8);
    let eareg = bits(opcode, 9, 11) as u8;
    let dst = AddressingMode::from_memory(eamode, eareg, Some(size), memory);

    let eareg = bits(opcode, 0, 2) as u8;
    let eamode = bits(opcode, 3, 5);
    let src = AddressingMode::from_memory(eamode, eareg, Some(size), memory);
''')],'MOVE with extension words for both operands','the extension words of source and destination are exchanged',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x33F8, 0x2000, 0x0000, 0x3000]); m.words(0x2000, &[0x1234]); let mut c = cpu::<Mc68000>(); c.interpreter(&mut m); assert_eq!(m.rw(0x3000), 0x1234); }'''),
seed('pc-disp-after-extension','C07',[(N,'''    let dst = AddressingMode::from_memory(eamode, eareg, Some(size), memory);

    (size, dst, src)''','''    let dst = AddressingMode::from_memory(eamode, eareg, Some(size.as_word_long()), memory);

    (size, dst, src)''')],'none','none','''fn main() { }'''),
seed('illegal-line','C22',[(I,'imm == 0 { 8 } else { imm };\n\n        if am.is_ard() {\n            *self.regs.a_mut(am.register().unwrap()) += imm','X')],'none','none',''),
seed('branch-ff-word','C21',[(N,'''    let mut disp = opcode as i8 as i16;
    if disp == 0 {
        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
    }
    let condition = bits(opcode, 8, 11) as u8;''','''    let mut disp = opcode as i8 as i16;
    if disp == 0 || disp == -1 {
        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
    }
    let condition = bits(opcode, 8, 11) as u8;''')],'a conditional branch whose displacement byte is FF, as the 68020 extends it','an extension word is read that the 68000 does not have',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x67FF, 0x0010]); let mut c = cpu::<Mc68000>(); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x1002); }'''),
seed('swap-zero-low','C12',[(I,'self.regs.sr.z = self.regs.d[reg as usize].0 == 0;\n        self.regs.sr.v = false;\n        self.regs.sr.c = false;\n\n        Ok(CPU::SWAP)','self.regs.sr.z = self.regs.d[reg as usize].0 as u16 == 0;\n        self.regs.sr.v = false;\n        self.regs.sr.c = false;\n\n        Ok(CPU::SWAP)')],'SWAP of a register whose high word is zero and whose low word is not','Z is set for a result that is not zero',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4840]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 0x0000_1234; c.interpreter(&mut m); assert!(!c.regs.sr.z); }'''),
seed('subx-predecrement-order','C09',[(I,'''                    let src_addr = self.ariwpr(rx, size);
                    let dst_addr = self.ariwpr(ry, size);
                    (memory.get_word(src_addr.even()?).ok_or(ACCESS_ERROR)?, memory.get_word(dst_addr.even()?).ok_or(ACCESS_ERROR)?)
                } else {
                    (self.regs.d[rx as usize].0 as u16, self.regs.d[ry as usize].0 as u16)
                };

                let res = self.sub::<u16, i16, true, false>(dst, src);''','''                    let dst_addr = self.ariwpr(ry, size);
                    let src_addr = self.ariwpr(rx, size);
                    (memory.get_word(src_addr.even()?).ok_or(ACCESS_ERROR)?, memory.get_word(dst_addr.even()?).ok_or(ACCESS_ERROR)?)
                } else {
                    (self.regs.d[rx as usize].0 as u16, self.regs.d[ry as usize].0 as u16)
                };

                let res = self.sub::<u16, i16, true, false>(dst, src);''')],'SUBX.W -(An),-(An) with one register for both operands','source and destination are exchanged',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x9148]); m.words(0x2000, &[10, 3]); let mut c = cpu::<Mc68000>(); c.regs.a[0].0 = 0x2004; c.interpreter(&mut m); assert_eq!(m.rw(0x2000), 7); }'''),
seed('lsr-count-mod32','C18',[(I,'''    pub(super) fn execute_lsr(&mut self, rot: u8, dir: Direction, size: Size, ir: bool, reg: u8) -> InterpreterResult {
        self.regs.sr.v = false;
        self.regs.sr.c = false;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64) as u8''','''    pub(super) fn execute_lsr(&mut self, rot: u8, dir: Direction, size: Size, ir: bool, reg: u8) -> InterpreterResult {
        self.regs.sr.v = false;
        self.regs.sr.c = false;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64).min(32) as u8''')],'a long logical shift by a register count from 33 to 63','C and X keep the last bit shifted out instead of becoming zero, and the time is that of 32 steps',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0xE2A8]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 0x8000_0000; c.regs.d[1].0 = 40; c.interpreter(&mut m); assert_eq!(c.regs.d[0].0, 0); assert!(!c.regs.sr.c && !c.regs.sr.x); }'''),
seed('rte-long-frame-24','C24',[(I,'*self.regs.sp_mut() += 26;','*self.regs.sp_mut() += 24;')],'RTE from an access or address error on the SCC68070','the stack pointer is two bytes lower than before the exception',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4E73]); m.words(0x7000, &[0x2700, 0x0000, 0x2000, 0xF008]); let mut c = cpu::<Scc68070>(); c.regs.ssp.0 = 0x7000; c.interpreter(&mut m); assert_eq!(c.regs.ssp.0, 0x7022); }'''),
seed('interrupt-at-mask-taken','C26',[(X,'if level != 7 && level <= self.regs.sr.interrupt_mask {\n                    continue;','if level != 7 && level < self.regs.sr.interrupt_mask {\n                    continue;')],'an interrupt whose level equals the mask','the interrupt is taken although the mask holds it back',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4E71]); m.long(27 * 4, 0x3000); m.words(0x3000, &[0x4E71]); let mut c = cpu::<Mc68000>(); c.regs.sr = 0x2300u16.into(); c.exception(Exception::from(Vector::Level3Interrupt)); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x1002); }'''),
seed('until-exception-stop-first','C32',[(F,'''            let (c, v) = self.interpreter_exception(memory);
            total += c;

            if v.is_some() || self.stop {
                return (total, v);
            }''','''            let (c, v) = self.interpreter_exception(memory);
            total += c;

            if self.stop {
                return (total, None);
            }

            if v.is_some() {
                return (total, v);
            }''')],'cycle_until_exception on an instruction that stops and reports: none','none','''fn main() { }'''),
seed('cycle-until-budget-minus','C32',[(F,'''        while total < cycles {
            let (c, v) = self.interpreter_exception(memory);
            total += c;
''','''        while total < cycles {
            let (c, v) = self.interpreter_exception(memory);
            total += c.min(cycles - total);
''')],'a budget that ends within an instruction','the extra cycles of the last instruction are not reported',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4E71; 8]); let mut c = cpu::<Mc68000>(); let (n, v) = c.cycle_until_exception(&mut m, 6); assert_eq!((n, v), (8, None)); }'''),
seed('cmpm-same-register','C09',[(I,'''        let addry = self.ariwpo(ay, size);
        let addrx = self.ariwpo(ax, size);

        match size {
            Size::Byte => {
                let src = memory.get_byte(addry)''','''        let addry = self.ariwpo(ay, size);
        let addrx = if ax == ay { self.regs.a(ax) } else { self.ariwpo(ax, size) };

        match size {
            Size::Byte => {
                let src = memory.get_byte(addry)''')],'CMPM (An)+,(An)+ with one register for both operands','the register is incremented once instead of twice',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0xB148]); let mut c = cpu::<Mc68000>(); c.regs.a[0].0 = 0x2000; c.interpreter(&mut m); assert_eq!(c.regs.a[0].0, 0x2004); }'''),
seed('exg-address-high','C15',[(I,'''            let y = self.regs.a(ry);
            self.regs.a_mut(ry).0 = self.regs.d[rx as usize].0;
            self.regs.d[rx as usize].0 = y;''','''            let y = self.regs.a(ry);
            self.regs.a[(ry as usize).min(6)].0 = self.regs.d[rx as usize].0;
            self.regs.d[rx as usize].0 = y;''')],'EXG between a data register and A7','A6 is overwritten instead of the stack pointer',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0xC18F]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 0x1234; c.interpreter(&mut m); assert_eq!((c.regs.ssp.0, c.regs.d[0].0), (0x1234, 0x8000)); }'''),
seed('u8-byte-write-end','C36',[(M,'''impl MemoryAccess for [u8] {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let addr = addr as usize;
        if addr < self.len() {''','''impl MemoryAccess for [u8] {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let addr = addr as usize & 0xFF_FFFF;
        if addr < self.len() {''')],'a byte read from a byte slice above 16 megabytes','the read is not refused and returns another byte',
 '''fn main() { let mut b = vec![1u8; 16]; let s: &mut [u8] = &mut b; assert_eq!(m68000::MemoryAccess::get_byte(s, 0x0100_0003), None); }'''),
seed('divu-by-word','C19',[(I,'self.regs.sr.v = quot > u16::MAX as u32;','self.regs.sr.v = dst >> 16 > src;')],'DIVU whose dividend has a high word equal to the divisor','the overflow goes unnoticed and a truncated quotient is written',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x80C1]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 0x0003_0001; c.regs.d[1].0 = 3; c.interpreter(&mut m); assert!(c.regs.sr.v); assert_eq!(c.regs.d[0].0, 0x0003_0001); }'''),
seed('priority-line-f','C25',[(X,'''            self.exceptions.remove(ex);''','''            self.exceptions.retain(|e| e.vector & 31 != ex.vector & 31);''')],'a masked interrupt pending while an exception whose number differs by a multiple of 32 is taken','the masked interrupt is lost',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4E71]); m.long(57 * 4, 0x3000); m.long(25 * 4, 0x3000); m.long(89 * 4, 0x3000); m.words(0x3000, &[0x46FC, 0x2000, 0x4E71]); let mut c = cpu::<Scc68070>(); c.exception(Exception::from(57u8)); c.exception(Exception::from(89u8)); c.interpreter(&mut m); let s = c.regs.ssp.0; c.interpreter(&mut m); assert_eq!(c.regs.ssp.0, s - 8); }'''),
]
S=[s for s in S if s['needs']!='' and s['breaks']!='none']
