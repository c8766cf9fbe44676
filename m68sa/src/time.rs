//! Instruction and exception times of the MC68000 with 16-bit bus cycles, written from section 8 of the
//! M68000 User's Manual (property C39). Where the manual gives a maximum (MUL, DIV), that is the time.
use crate::dom::*;
use crate::exec::*;
use crate::isa::*;
use crate::spec::*;

/// Effective address calculation (table 8-1): byte/word, and four more for a long operand.
fn ea_time(e: Ea, size: u8) -> u32 {
    let t = match (e.mode, e.reg) {
        (0, _) | (1, _) => return 0,
        (2, _) | (3, _) => 4,
        (4, _) => 6,
        (5, _) => 8,
        (6, _) => 10,
        (7, 0) => 8,
        (7, 1) => 12,
        (7, 2) => 8,
        (7, 3) => 10,
        _ => 4,
    };
    t + if size == 4 { 4 } else { 0 }
}

/// The rows LEA, PEA, JMP, JSR and MOVEM have of their own (table 8-10), by addressing mode.
fn row(e: Ea, t: [u32; 9]) -> u32 {
    t[match (e.mode, e.reg) { (2, _) => 0, (3, _) => 1, (4, _) => 2, (5, _) => 3, (6, _) => 4, (7, 0) => 5, (7, 1) => 6, (7, 2) => 7, _ => 8 }]
}

pub enum Time { Const(u32), /// when the guard holds, otherwise
    If(B, u32, u32), /// base, per unit, units
    Plus(u32, u32, W) }

pub fn instruction(sp: &mut Sp, i: &Insn) -> Time {
    use Mn::*;
    let long = i.size == 4;
    let reg = i.ea.map(|e| e.mode == 0).unwrap_or(false);
    let ea = i.ea.map(|e| ea_time(e, i.size)).unwrap_or(0);
    let bw = |a, b| if long { b } else { a };
    let dir_or_imm = i.ea.map(|e| e.mode <= 1 || (e.mode == 7 && e.reg == 4)).unwrap_or(false);
    Time::Const(match i.mn {
        Move => {
            let d = i.ea2.unwrap();
            // the write is part of the instruction: the decrement costs no extra time
            let dst = match d.mode { 0 => 4, 4 => 8 + bw(0, 4), _ => 4 + ea_time(d, i.size) };
            dst + ea
        }
        Movea => 4 + ea,
        Add | Sub | And | Or => if i.dir { bw(8, 12) + ea } else { ea + if long { if dir_or_imm { 8 } else { 6 } } else { 4 } },
        Adda | Suba => ea + if long { if dir_or_imm { 8 } else { 6 } } else { 8 },
        Cmp => ea + bw(4, 6),
        Cmpa => ea + 6,
        Eor => if reg { bw(4, 8) } else { bw(8, 12) + ea },
        Addi | Subi | Ori | Eori => if reg { bw(8, 16) } else { bw(12, 20) + ea },
        Andi => if reg { bw(8, 14) } else { bw(12, 20) + ea },
        Cmpi => if reg { bw(8, 14) } else { bw(8, 12) + ea },
        Addq => match i.ea.unwrap().mode { 0 | 1 => bw(4, 8), _ => bw(8, 12) + ea },
        Subq => match i.ea.unwrap().mode { 0 => bw(4, 8), 1 => 8, _ => bw(8, 12) + ea },
        Moveq => 4,
        Divs => 158 + ea,
        Divu => 140 + ea,
        Muls | Mulu => 70 + ea,
        Clr | Neg | Negx | Not => if reg { bw(4, 6) } else { bw(8, 12) + ea },
        Nbcd => if reg { 6 } else { 8 + ea },
        Tas => if reg { 4 } else { 14 + ea },
        Tst => 4 + ea,
        Scc => if reg { let c = sp.cond(i.op >> 8 & 15); return Time::If(c, 6, 4); } else { 8 + ea },
        Asr | Lsr | Roxr | Ror => {
            let base = bw(6, 8);
            if i.op & 0x20 == 0 { base + 2 * if i.rx == 0 { 8 } else { i.rx as u32 } } else {
                let r = sp.q.r[i.rx as usize];
                let n = sp.ex.d.resize(r, 6, false);
                let n = sp.ex.d.expand(n, 6).unwrap();
                return Time::Plus(base, 2, sp.ex.d.resize(n, 64, false));
            }
        }
        Asm | Lsm | Roxm | Rom => 8 + ea,
        Bchg | Bset => match (i.dir, reg) { (true, true) => 8, (true, false) => 8 + ea, (false, true) => 12, _ => 12 + ea },
        Bclr => match (i.dir, reg) { (true, true) => 10, (true, false) => 8 + ea, (false, true) => 14, _ => 12 + ea },
        Btst => match (i.dir, reg) { (true, true) => 6, (true, false) => 4 + ea, (false, true) => 10, _ => 8 + ea },
        Bcc => { let c = sp.cond(i.op >> 8 & 15); return Time::If(c, 10, if i.op & 0xff == 0 { 12 } else { 8 }); }
        Bra => 10,
        Bsr => 18,
        Dbcc => {
            let c = sp.cond(i.op >> 8 & 15);
            let r = sp.q.r[i.ry as usize];
            let n = sp.ex.d.resize(r, 16, false);
            let z = sp.ex.d.is_zero(n);
            if c == T { 12 } else if c == F { return Time::If(z, 14, 10); } else {
                // 12 when the condition holds, otherwise by the counter
                let (a, b, e) = (sp.ex.d.k(64, 12), sp.ex.d.k(64, 14), sp.ex.d.k(64, 10));
                let x = sp.ex.d.wite(z, b, e);
                let w = sp.ex.d.wite(c, a, x);
                return Time::Plus(0, 1, w);
            }
        }
        Jmp => row(i.ea.unwrap(), [8, 0, 0, 10, 14, 10, 12, 10, 14]),
        Jsr => row(i.ea.unwrap(), [16, 0, 0, 18, 22, 18, 20, 18, 22]),
        Lea => row(i.ea.unwrap(), [4, 0, 0, 8, 12, 8, 12, 8, 12]),
        Pea => row(i.ea.unwrap(), [12, 0, 0, 16, 20, 16, 20, 16, 20]),
        Movem => {
            let base = if i.dir { row(i.ea.unwrap(), [12, 12, 0, 16, 18, 16, 20, 16, 18]) } else { row(i.ea.unwrap(), [8, 0, 8, 12, 14, 12, 16, 0, 0]) };
            let list = sp.ex.d.word(W_DATA + 1, 32, "mem#1");
            let mut n = sp.ex.d.k(64, 0);
            let one = sp.ex.d.k(64, 1);
            let zero = sp.ex.d.k(64, 0);
            for b in 0..16 { let g = sp.ex.d.bit(list, b); let x = sp.ex.d.wite(g, one, zero); n = sp.ex.d.add(n, x); }
            return Time::Plus(base, bw(4, 8), n);
        }
        Addx | Subx => if i.dir { bw(18, 30) } else { bw(4, 8) },
        Cmpm => bw(12, 20),
        Abcd | Sbcd => if i.dir { 18 } else { 6 },
        Movep => bw(16, 24),
        Andiccr | Andisr | Eoriccr | Eorisr | Oriccr | Orisr => 20,
        Chk => 10 + ea,
        Exg => 6,
        Ext | Swap | Nop | Moveusp | Stop | Trapv => 4,
        Link => 16,
        Unlk => 12,
        Moveccr | Movesr => 12 + ea,
        Movefsr => if reg { 6 } else { 8 + ea },
        Reset => 132,
        Rte | Rtr => 20,
        Rts => 16,
        Illegal | Trap => 0, // never completes
    })
}

/// Exception processing (table 8-14).
pub fn exception(v: u32) -> Option<u32> {
    Some(match v {
        0 => 40,
        2 | 3 => 50,
        4 | 7 | 8 | 9 => 34,
        5 => 38,
        6 => 40,
        24..=31 => 44,
        32..=47 => 34,
        _ => return None,
    })
}
