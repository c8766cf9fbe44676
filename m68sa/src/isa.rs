//! The M68000 opcode map, written from the Programmer's Reference Manual.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Mn {
    Abcd, Add, Adda, Addi, Addq, Addx, And, Andi, Andiccr, Andisr, Asm, Asr, Bcc, Bchg, Bclr, Bra, Bset, Bsr, Btst, Chk, Clr, Cmp, Cmpa, Cmpi, Cmpm, Dbcc, Divs, Divu, Eor, Eori, Eoriccr, Eorisr, Exg, Ext, Illegal,
    Jmp, Jsr, Lea, Link, Lsm, Lsr, Move, Movea, Moveccr, Movefsr, Movesr, Moveusp, Movem, Movep, Moveq, Muls, Mulu, Nbcd, Neg, Negx, Nop, Not, Or, Ori, Oriccr, Orisr, Pea, Reset, Rom, Ror, Roxm, Roxr, Rte, Rtr, Rts,
    Sbcd, Scc, Stop, Sub, Suba, Subi, Subq, Subx, Swap, Tas, Trap, Trapv, Tst, Unlk,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ea { pub mode: u8, pub reg: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Insn {
    pub mn: Mn,
    /// Operand size in bytes.
    pub size: u8,
    pub ea: Option<Ea>,
    /// MOVE destination.
    pub ea2: Option<Ea>,
    /// Register field (bits 11-9) and low register field (bits 2-0).
    pub rx: u8,
    pub ry: u8,
    /// Direction / memory-form flag, meaning depends on the instruction.
    pub dir: bool,
    pub op: u16,
}
const DATA: u16 = 0b1111_1111_1101; // by mode index: 0..6 then abs.w abs.l pcd pci imm
fn idx(e: Ea) -> Option<u16> { if e.mode < 7 { Some(e.mode as u16) } else if e.reg < 5 { Some(7 + e.reg as u16) } else { None } }
fn within(e: Ea, set: u16) -> bool { idx(e).map(|i| set >> i & 1 == 1).unwrap_or(false) }
pub fn is_all(e: Ea) -> bool { idx(e).is_some() }
pub fn is_data(e: Ea) -> bool { within(e, DATA) }
pub fn is_data_alt(e: Ea) -> bool { within(e, 0b0001_1111_1101) }
pub fn is_mem_alt(e: Ea) -> bool { within(e, 0b0001_1111_1100) }
pub fn is_alt(e: Ea) -> bool { within(e, 0b0001_1111_1111) }
pub fn is_control(e: Ea) -> bool { within(e, 0b0111_1110_0100) }
pub fn is_control_alt(e: Ea) -> bool { within(e, 0b0001_1110_0100) }

pub fn decode(op: u16) -> Option<Insn> {
    use Mn::*;
    let ea = Ea { mode: (op >> 3 & 7) as u8, reg: (op & 7) as u8 };
    let rx = (op >> 9 & 7) as u8;
    let ry = (op & 7) as u8;
    let ss = (op >> 6 & 3) as u8;
    let sz = [1u8, 2, 4, 0][ss as usize];
    let opm = (op >> 6 & 7) as u8;
    let base = Insn { mn: Nop, size: 0, ea: None, ea2: None, rx, ry, dir: false, op };
    let one = |mn: Mn, size: u8| Some(Insn { mn, size, ea: Some(ea), ..base });
    let none = |mn: Mn| Some(Insn { mn, ..base });
    match op >> 12 {
        0 => {
            match op { 0x003c => return none(Oriccr), 0x007c => return none(Orisr), 0x023c => return none(Andiccr), 0x027c => return none(Andisr), 0x0a3c => return none(Eoriccr), 0x0a7c => return none(Eorisr), _ => {} }
            let bits = [Btst, Bchg, Bclr, Bset];
            if op & 0x0100 != 0 {
                if ea.mode == 1 { return Some(Insn { mn: Movep, size: if op & 0x40 != 0 { 4 } else { 2 }, dir: op & 0x80 != 0, ..base }); }
                let mn = bits[ss as usize];
                let ok = if mn == Btst { is_data(ea) } else { is_data_alt(ea) };
                return if ok { Some(Insn { mn, size: if ea.mode == 0 { 4 } else { 1 }, ea: Some(ea), dir: true, ..base }) } else { None };
            }
            if rx == 4 {
                let mn = bits[ss as usize];
                let ok = if mn == Btst { is_data(ea) && !(ea.mode == 7 && ea.reg == 4) } else { is_data_alt(ea) };
                return if ok { Some(Insn { mn, size: if ea.mode == 0 { 4 } else { 1 }, ea: Some(ea), dir: false, ..base }) } else { None };
            }
            let mn = match rx { 0 => Ori, 1 => Andi, 2 => Subi, 3 => Addi, 5 => Eori, 6 => Cmpi, _ => return None };
            if sz == 0 || !is_data_alt(ea) { return None; }
            one(mn, sz)
        }
        1 | 2 | 3 => {
            let size = match op >> 12 { 1 => 1, 3 => 2, _ => 4 };
            let d = Ea { mode: (op >> 6 & 7) as u8, reg: rx };
            if !is_all(ea) || (size == 1 && ea.mode == 1) { return None; }
            if d.mode == 1 { return if size == 1 { None } else { one(Movea, size) }; }
            if !is_data_alt(d) { return None; }
            Some(Insn { mn: Move, size, ea: Some(ea), ea2: Some(d), ..base })
        }
        4 => {
            match op { 0x4afc => return none(Illegal), 0x4e70 => return none(Reset), 0x4e71 => return none(Nop), 0x4e72 => return none(Stop), 0x4e73 => return none(Rte), 0x4e75 => return none(Rts), 0x4e76 => return none(Trapv), 0x4e77 => return none(Rtr), _ => {} }
            if op & 0x0100 != 0 {
                return match opm { 6 if is_data(ea) => one(Chk, 2), 7 if is_control(ea) => one(Lea, 4), _ => None };
            }
            match op >> 6 & 0x3f {
                0x03 => return if is_data_alt(ea) { one(Movefsr, 2) } else { None },
                0x13 => return if is_data(ea) { one(Moveccr, 2) } else { None },
                0x1b => return if is_data(ea) { one(Movesr, 2) } else { None },
                0x0b => return None,
                _ => {}
            }
            match op >> 8 & 0xf {
                0 | 2 | 4 | 6 => { let mn = match op >> 8 & 0xf { 0 => Negx, 2 => Clr, 4 => Neg, _ => Not }; if is_data_alt(ea) && sz != 0 { one(mn, sz) } else { None } }
                8 => match ss {
                    0 => if is_data_alt(ea) { one(Nbcd, 1) } else { None },
                    1 => if ea.mode == 0 { Some(Insn { mn: Swap, size: 4, ..base }) } else if is_control(ea) { one(Pea, 4) } else { None },
                    _ => {
                        let size = if ss == 2 { 2 } else { 4 };
                        if ea.mode == 0 { return Some(Insn { mn: Ext, size, ..base }); }
                        if is_control_alt(ea) || ea.mode == 4 { Some(Insn { mn: Movem, size, ea: Some(ea), dir: false, ..base }) } else { None }
                    }
                },
                0xa => if ss == 3 { if is_data_alt(ea) { one(Tas, 1) } else { None } } else if is_data_alt(ea) { one(Tst, sz) } else { None },
                0xc => if ss >= 2 && (is_control(ea) || ea.mode == 3) { Some(Insn { mn: Movem, size: if ss == 2 { 2 } else { 4 }, ea: Some(ea), dir: true, ..base }) } else { None },
                0xe => match op >> 3 & 0x1f {
                    8 | 9 => Some(Insn { mn: Trap, ..base }),
                    10 => Some(Insn { mn: Link, ..base }),
                    11 => Some(Insn { mn: Unlk, ..base }),
                    12 => Some(Insn { mn: Moveusp, dir: false, ..base }),
                    13 => Some(Insn { mn: Moveusp, dir: true, ..base }),
                    _ => match ss { 2 if is_control(ea) => one(Jsr, 0), 3 if is_control(ea) => one(Jmp, 0), _ => None },
                },
                _ => None,
            }
        }
        5 => {
            if sz == 0 { return if ea.mode == 1 { Some(Insn { mn: Dbcc, ..base }) } else if is_data_alt(ea) { one(Scc, 1) } else { None }; }
            if !is_alt(ea) || (ea.mode == 1 && sz == 1) { return None; }
            one(if op & 0x100 != 0 { Subq } else { Addq }, sz)
        }
        6 => Some(Insn { mn: match op >> 8 & 0xf { 0 => Bra, 1 => Bsr, _ => Bcc }, ..base }),
        7 => if op & 0x100 == 0 { Some(Insn { mn: Moveq, size: 4, ..base }) } else { None },
        8 | 12 => {
            let div = op >> 12 == 8;
            if ss == 3 { return if is_data(ea) { one(match (div, opm == 7) { (true, false) => Divu, (true, true) => Divs, (false, false) => Mulu, _ => Muls }, 2) } else { None }; }
            if opm >= 4 && ea.mode <= 1 {
                if opm == 4 { return Some(Insn { mn: if div { Sbcd } else { Abcd }, size: 1, dir: ea.mode == 1, ..base }); }
                if div { return None; }
                return match (opm, ea.mode) { (5, _) | (6, 1) => Some(Insn { mn: Exg, size: 4, ..base }), _ => None };
            }
            let mn = if div { Or } else { And };
            if opm < 4 { if is_data(ea) { one(mn, sz) } else { None } } else if is_mem_alt(ea) { Some(Insn { mn, size: sz, ea: Some(ea), dir: true, ..base }) } else { None }
        }
        9 | 13 => {
            let sub = op >> 12 == 9;
            if ss == 3 { return if is_all(ea) { one(if sub { Suba } else { Adda }, if opm == 7 { 4 } else { 2 }) } else { None }; }
            if opm >= 4 && ea.mode <= 1 { return Some(Insn { mn: if sub { Subx } else { Addx }, size: sz, dir: ea.mode == 1, ..base }); }
            let mn = if sub { Sub } else { Add };
            if opm < 4 { if is_all(ea) && !(sz == 1 && ea.mode == 1) { one(mn, sz) } else { None } } else if is_mem_alt(ea) { Some(Insn { mn, size: sz, ea: Some(ea), dir: true, ..base }) } else { None }
        }
        11 => {
            if ss == 3 { return if is_all(ea) { one(Cmpa, if opm == 7 { 4 } else { 2 }) } else { None }; }
            if opm < 4 { return if is_all(ea) && !(sz == 1 && ea.mode == 1) { one(Cmp, sz) } else { None }; }
            if ea.mode == 1 { return Some(Insn { mn: Cmpm, size: sz, ..base }); }
            if is_data_alt(ea) { Some(Insn { mn: Eor, size: sz, ea: Some(ea), dir: true, ..base }) } else { None }
        }
        14 => {
            if ss == 3 {
                if op & 0x0800 != 0 || !is_mem_alt(ea) { return None; }
                let mn = [Asm, Lsm, Roxm, Rom][(op >> 9 & 3) as usize];
                return Some(Insn { mn, size: 2, ea: Some(ea), dir: op & 0x100 != 0, ..base });
            }
            let mn = [Asr, Lsr, Roxr, Ror][(op >> 3 & 3) as usize];
            Some(Insn { mn, size: sz, dir: op & 0x100 != 0, ..base })
        }
        _ => None,
    }
}
pub fn privileged(m: Mn) -> bool { matches!(m, Mn::Andisr | Mn::Eorisr | Mn::Orisr | Mn::Movesr | Mn::Moveusp | Mn::Reset | Mn::Rte | Mn::Stop) }

/// Where the extension words of an instruction lie: (word index after the opcode, kind).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExtK { Brief, ImmHi, Mask, BitNo, Other }
pub fn ext_layout(i: &Insn) -> Vec<ExtK> {
    use Mn::*;
    let mut v = vec![];
    match i.mn {
        Ori | Andi | Subi | Addi | Eori | Cmpi => { if i.size == 4 { v.push(ExtK::ImmHi); } v.push(ExtK::Other); }
        Oriccr | Orisr | Andiccr | Andisr | Eoriccr | Eorisr | Stop | Link | Movep | Dbcc => v.push(ExtK::Other),
        Bcc | Bra | Bsr => if i.op & 0xff == 0 { v.push(ExtK::Other) },
        Movem => v.push(ExtK::Mask),
        Btst | Bchg | Bclr | Bset => if !i.dir { v.push(ExtK::BitNo) },
        _ => {}
    }
    for e in [i.ea, i.ea2].into_iter().flatten() {
        match (e.mode, e.reg) {
            (5, _) | (7, 0) | (7, 2) => v.push(ExtK::Other),
            (6, _) | (7, 3) => v.push(ExtK::Brief),
            (7, 1) => { v.push(ExtK::ImmHi); v.push(ExtK::Other); }
            (7, 4) => { if i.size == 4 { v.push(ExtK::ImmHi); } v.push(ExtK::Other); }
            _ => {}
        }
    }
    v
}
