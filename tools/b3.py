from b1 import I,X,A,U,M,R,D,F,L
from b2 import ffi, seed as _s
N='m68000/src/instruction.rs'; AS='m68000/src/assembler.rs'; DS='m68000/src/disassembler.rs'; T='m68000/src/cpu_details/mc68000.rs'; DE='m68000/src/decoder.rs'
S=[]
def seed(*a): S.append(dict(zip(('id','prop','edits','needs','breaks','demo'),a)))
TX='''fn text(w: &[u16]) -> (u32, String) { let mut m = Mem::new(); m.words(0x1000, w); let mut c = cpu::<Mc68000>(); let r = c.disassembler_interpreter_exception(&mut m); (r.0, r.1) }
'''
seed('dis-bsr-target-narrow','C38',[(DS,'''    format!("BSR {disp} <{:#X}>", inst.pc.wrapping_add(2).wrapping_add(disp as u32))''','''    format!("BSR {disp} <{:#X}>", inst.pc.wrapping_add(2).wrapping_add(disp as u16 as u32))''')],
 'disassembling a BSR with a negative displacement','the printed target of a backward BSR is 64 KiB too high',
 TX+'''fn main() { assert_eq!(text(&[0x61FE]).1, "BSR -2 <0x1000>"); assert_eq!(text(&[0x6100, 0x0100]).1, "BSR 256 <0x1102>"); }''')
seed('dis-pc-index-unsigned','C38',[(A,'''            AddressingMode::Pciwi8(_, bew) => write!(f, "({}, PC, {bew})", bew.disp()),''','''            AddressingMode::Pciwi8(_, bew) => write!(f, "({}, PC, {bew})", bew.0 & 0x00FF),''')],
 'disassembling a program counter relative indexed operand with a negative displacement','the displacement is printed as 128 to 255 instead of its negative value',
 TX+'''fn main() { let t = text(&[0x303B, 0x20FC]).1; assert!(t.contains("(-4, PC, D2.W)"), "{t}"); }''')
seed('dis-lsr-count-eight','C38',[(DS,'''        format!("LS{d}.{s} D{rot}, D{reg}")
    } else {
        let rot = if rot == 0 { 8 } else { rot };''','''        format!("LS{d}.{s} D{rot}, D{reg}")
    } else {
        let rot = if rot == 0 && inst.opcode & 0x0100 == 0 { 8 } else { rot };''')],
 'disassembling LSL with an immediate count of eight','the count is printed as #0',
 TX+'''fn main() { let t = text(&[0xE148]).1; assert!(t.contains("#8"), "{t}"); let t = text(&[0xE048]).1; assert!(t.contains("#8"), "{t}"); }''')
seed('dis-address-behind-extension','C38',[(D,'''        let dis = instruction.disassemble();''','''        let dis = instruction.disassemble();
        let addr = self.regs.pc.0.wrapping_sub(2);'''),(D,'''        (instruction.pc, dis, cycle_count, exception)''','''        (addr, dis, cycle_count, exception)''')],
 'a disassembled instruction with extension words','the address returned is not the address of the instruction',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x41BC, 0x0005]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 9; let r = c.disassembler_interpreter_exception(&mut m); assert_eq!((r.0, r.3), (0x1000, Some(6))); }''')
seed('time-add-long-from-address-register','C39',[(I,'''                    exec_time = if am.is_dard() || am.is_immediate() { CPU::ADD_REG_L_RDIMM } else { CPU::ADD_REG_L };''','''                    exec_time = if am.is_drd() || am.is_immediate() { CPU::ADD_REG_L_RDIMM } else { CPU::ADD_REG_L };''')],
 'ADD.L An,Dn','takes 6 cycles instead of 8',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0xD088]); let mut c = cpu::<Mc68000>(); assert_eq!(c.interpreter(&mut m), 8); }''')
seed('time-asr-long-count','C39',[(I,'''                self.regs.sr.z = data == 0;
                CPU::ASR_L + CPU::ASR_COUNT * shift_count as usize''','''                self.regs.sr.z = data == 0;
                CPU::ASR_L + CPU::ASR_COUNT * shift_count.min(32) as usize''')],
 'ASR.L or ASL.L by a register holding more than 32','the steps beyond the operand width take no time',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0xE2A0]); let mut c = cpu::<Mc68000>(); c.regs.d[1].0 = 40; assert_eq!(c.interpreter(&mut m), 8 + 80); let mut c = cpu::<Mc68000>(); c.regs.d[1].0 = 3; assert_eq!(c.interpreter(&mut m), 8 + 6); }''')
seed('decoder-tas-pc-relative','C06',[(DE,'''    Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Unknown, Unknown, Illegal, Unknown, Unknown, Unknown,''','''    Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Tas, Unknown, Illegal, Unknown, Unknown, Unknown,''')],
 'the operation word 4AFA','TAS accepts a program counter relative destination instead of being an illegal instruction',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4AFA, 0x0010]); let mut c = cpu::<Mc68000>(); let (_, v) = c.interpreter_exception(&mut m); assert_eq!(v, Some(4)); assert_eq!(m.b[0x1012], 0); }''')
seed('ext-word-clobbers-high','C10',[(I,'''            let d = self.regs.d[reg as usize].0 as i8 as u16;
            self.regs.d_word(reg, d);''','''            let d = self.regs.d[reg as usize].0 as i8 as u16;
            if d & 0x80 != 0 { self.regs.d[reg as usize].0 |= 0xFFFF_FF00; }
            self.regs.d_word(reg, d);''')],
 'EXT.W of a negative byte','the upper word of the register is overwritten',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4880]); let mut c = cpu::<Mc68000>(); c.regs.d[0].0 = 0x1234_0080; c.interpreter(&mut m); assert_eq!(c.regs.d[0].0, 0x1234_FF80); }''')
seed('addq-word-address-carry','C16',[(I,'''            *self.regs.a_mut(am.register().unwrap()) += imm as u32;
            return Ok(if size.is_long() { CPU::ADDQ_REG_L''','''            let reg = self.regs.a_mut(am.register().unwrap());
            *reg = if size.is_word() { Wrapping(reg.0 & 0xFFFF_0000 | (reg.0 as u16).wrapping_add(imm as u16) as u32) } else { *reg + Wrapping(imm as u32) };
            return Ok(if size.is_long() { CPU::ADDQ_REG_L''')],
 'ADDQ.W to an address register whose low word overflows','the carry does not reach the upper word',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x5248]); let mut c = cpu::<Mc68000>(); c.regs.a[0].0 = 0x0001_FFFF; c.interpreter(&mut m); assert_eq!(c.regs.a[0].0, 0x0002_0000); }''')
seed('jsr-stack-relative-late','C21',[(I,'''        let addr = self.get_effective_address(&mut ea, &mut exec_time);
        self.push_long(memory, self.regs.pc.0)?;
        self.regs.pc.0 = addr;

        Ok(match am {
            AddressingMode::Ari(_) => CPU::JSR_ARI,''','''        self.push_long(memory, self.regs.pc.0)?;
        let addr = self.get_effective_address(&mut ea, &mut exec_time);
        self.regs.pc.0 = addr;

        Ok(match am {
            AddressingMode::Ari(_) => CPU::JSR_ARI,''')],
 'JSR through the stack pointer','the target is computed after the return address was pushed',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4EAF, 0x0010]); let mut c = cpu::<Mc68000>(); c.interpreter(&mut m); assert_eq!(c.regs.pc.0, 0x8010); assert_eq!(m.rl(0x7FFC), 0x1004); }''')
seed('cmpm-long-extend','C11',[(I,'''                let src = memory.get_long(addry.even()?).ok_or(ACCESS_ERROR)?;
                let dst = memory.get_long(addrx.even()?).ok_or(ACCESS_ERROR)?;

                self.sub::<u32, i32, false, true>(dst, src);''','''                let src = memory.get_long(addry.even()?).ok_or(ACCESS_ERROR)?;
                let dst = memory.get_long(addrx.even()?).ok_or(ACCESS_ERROR)?;

                self.sub::<u32, i32, false, false>(dst, src);''')],
 'CMPM.L with a borrow and X clear','CMPM changes the extend bit',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0xB388]); m.long(0x2000, 5); m.long(0x3000, 3); let mut c = cpu::<Mc68000>(); c.regs.a[0].0 = 0x2000; c.regs.a[1].0 = 0x3000; c.interpreter(&mut m); assert!(c.regs.sr.c); assert!(!c.regs.sr.x); }''')
seed('movep-displacement-sign','C37',[(AS,'''                   | 0b1_0000_1 << 3
                   | addr_reg as u16 & 7;
    if dir == Direction::RegisterToMemory {
        opcode |= 0x0080;
    }''','''                   | 0b1_0000_1 << 3
                   | addr_reg as u16 & 7;
    if dir == Direction::RegisterToMemory || disp < -0x4000 && data_reg == 7 {
        opcode |= 0x0080;
    }''')],
 'assembling MOVEP from memory with a displacement below -16384 into D7','the store form is emitted instead of the load form',
 '''use m68000::assembler::movep; use m68000::instruction::{Direction, Size};
fn main() { assert_eq!(movep(7, Direction::MemoryToRegister, Size::Word, 0, -0x8000), [0x0F08, 0x8000]); assert_eq!(movep(6, Direction::MemoryToRegister, Size::Word, 0, -2), [0x0D08, 0xFFFE]); }''')
seed('rts-odd-pops-nothing','C21',[(I,'''    pub(super) fn execute_rts<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> InterpreterResult {
        self.regs.pc.0 = self.pop_long(memory)?;''','''    pub(super) fn execute_rts<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> InterpreterResult {
        self.regs.pc.0 = self.pop_long(memory)? & !1;''')],
 'RTS to an odd return address','continues at the even address below instead of raising an address error',
 '''fn main() { let mut m = Mem::new(); m.words(0x1000, &[0x4E75]); m.long(0x8000, 0x2001); let mut c = cpu::<Mc68000>(); c.interpreter(&mut m); let (_, v) = c.interpreter_exception(&mut m); assert_eq!(v, Some(3)); }''')
