//! C37: the code-emitting functions against the encoding tables.
use crate::compare::*;
use crate::dom::*;
use crate::drive::*;
use crate::exec::*;
use crate::ir::*;
use crate::isa::{decode, Mn};
use crate::more::{blank, lost};
use crate::scen::root;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum Arg {
    /// Register number, at this bit.
    Reg(u32),
    /// Size as two bits; as one bit (word, long only); as the MOVE field.
    Sz(u32), SzBit(u32), SzMove, SzMoveA,
    /// Direction: allowed variants and the bits they set.
    Dir(&'static [(&'static str, u16)]),
    /// Operand in the low six bits; destination operand of MOVE.
    Ea(u16), EaDst(u16),
    /// Register of the MOVEA destination.
    /// Immediate of the instruction's size, word, condition-code byte, bit number, displacement.
    ImmSz, Imm16, ImmCcr, Count, Disp16,
    Cond(bool), Flag(u32), Data8, Quick, Vec4, Branch,
}
use Arg::*;
const ALL: u16 = 0xfff;
const DATA: u16 = 0xffd;
const DATA_ALT: u16 = 0x1fd;
const MEM_ALT: u16 = 0x1fc;
const ALT: u16 = 0x1ff;
const CONTROL: u16 = 0x7e4;
const CONTROL_ALT: u16 = 0x1e4;
const MODES: [&str; 12] = ["Drd", "Ard", "Ari", "Ariwpo", "Ariwpr", "Ariwd", "Ariwi8", "AbsShort", "AbsLong", "Pciwd", "Pciwi8", "Immediate"];
const CONDS: [&str; 16] = ["T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE"];
const RRMM: Arg = Dir(&[("RegisterToRegister", 0), ("MemoryToMemory", 8)]);
const LR: Arg = Dir(&[("Left", 0x100), ("Right", 0)]);
const TOREG: Arg = Dir(&[("DstReg", 0)]);
const TOEA: Arg = Dir(&[("DstEa", 0x100)]);
pub struct Row { f: &'static str, mn: Mn, base: u16, args: Vec<Arg> }
fn rows() -> Vec<Row> {
    let mut v = vec![];
    let mut r = |f: &'static str, mn: Mn, base: u16, args: &[Arg]| v.push(Row { f, mn, base, args: args.to_vec() });
    r("abcd", Mn::Abcd, 0xc100, &[Reg(9), RRMM, Reg(0)]);
    r("sbcd", Mn::Sbcd, 0x8100, &[Reg(9), RRMM, Reg(0)]);
    r("addx", Mn::Addx, 0xd100, &[Reg(9), Sz(6), RRMM, Reg(0)]);
    r("subx", Mn::Subx, 0x9100, &[Reg(9), Sz(6), RRMM, Reg(0)]);
    for (f, mn, base, an) in [("add", Mn::Add, 0xd000, true), ("sub", Mn::Sub, 0x9000, true), ("and", Mn::And, 0xc000, false), ("or", Mn::Or, 0x8000, false)] {
        r(f, mn, base, &[Reg(9), TOREG, Sz(6), Ea(if an { ALL } else { DATA })]);
        r(f, mn, base, &[Reg(9), TOEA, Sz(6), Ea(MEM_ALT)]);
    }
    for (f, mn, base) in [("adda", Mn::Adda, 0xd0c0), ("suba", Mn::Suba, 0x90c0), ("cmpa", Mn::Cmpa, 0xb0c0)] { r(f, mn, base, &[Reg(9), SzBit(8), Ea(ALL)]); }
    for (f, mn, base) in [("addi", Mn::Addi, 0x0600), ("andi", Mn::Andi, 0x0200), ("cmpi", Mn::Cmpi, 0x0c00), ("eori", Mn::Eori, 0x0a00), ("ori", Mn::Ori, 0), ("subi", Mn::Subi, 0x0400)] { r(f, mn, base, &[Sz(6), Ea(DATA_ALT), ImmSz]); }
    r("addq", Mn::Addq, 0x5000, &[Quick, Sz(6), Ea(ALT)]);
    r("subq", Mn::Subq, 0x5100, &[Quick, Sz(6), Ea(ALT)]);
    for (f, mn, base) in [("andiccr", Mn::Andiccr, 0x023c), ("eoriccr", Mn::Eoriccr, 0x0a3c), ("oriccr", Mn::Oriccr, 0x003c)] { r(f, mn, base, &[ImmCcr]); }
    for (f, mn, base) in [("andisr", Mn::Andisr, 0x027c), ("eorisr", Mn::Eorisr, 0x0a7c), ("orisr", Mn::Orisr, 0x007c), ("stop", Mn::Stop, 0x4e72)] { r(f, mn, base, &[Imm16]); }
    for (f, mn, base) in [("asm", Mn::Asm, 0xe0c0), ("lsm", Mn::Lsm, 0xe2c0), ("roxm", Mn::Roxm, 0xe4c0), ("rom", Mn::Rom, 0xe6c0)] { r(f, mn, base, &[LR, Ea(MEM_ALT)]); }
    for (f, mn, base) in [("asr", Mn::Asr, 0xe000), ("lsr", Mn::Lsr, 0xe008), ("roxr", Mn::Roxr, 0xe010), ("ror", Mn::Ror, 0xe018)] { r(f, mn, base, &[Reg(9), LR, Sz(6), Flag(5), Reg(0)]); }
    r("bcc", Mn::Bcc, 0x6000, &[Cond(true), Branch]);
    r("bra", Mn::Bra, 0x6000, &[Branch]);
    r("bsr", Mn::Bsr, 0x6100, &[Branch]);
    for (f, g, mn, base, e, es) in [("bchg_dynamic", "bchg_static", Mn::Bchg, 0x40u16, DATA_ALT, DATA_ALT), ("bclr_dynamic", "bclr_static", Mn::Bclr, 0x80, DATA_ALT, DATA_ALT), ("bset_dynamic", "bset_static", Mn::Bset, 0xc0, DATA_ALT, DATA_ALT), ("btst_dynamic", "btst_static", Mn::Btst, 0, DATA, DATA & 0x7ff)] {
        r(f, mn, 0x0100 | base, &[Reg(9), Ea(e)]);
        r(g, mn, 0x0800 | base, &[Ea(es), Count]);
    }
    for (f, mn, base) in [("chk", Mn::Chk, 0x4180), ("divs", Mn::Divs, 0x81c0), ("divu", Mn::Divu, 0x80c0), ("muls", Mn::Muls, 0xc1c0), ("mulu", Mn::Mulu, 0xc0c0)] { r(f, mn, base, &[Reg(9), Ea(DATA)]); }
    r("lea", Mn::Lea, 0x41c0, &[Reg(9), Ea(CONTROL)]);
    for (f, mn, base) in [("clr", Mn::Clr, 0x4200), ("neg", Mn::Neg, 0x4400), ("negx", Mn::Negx, 0x4000), ("not", Mn::Not, 0x4600), ("tst", Mn::Tst, 0x4a00)] { r(f, mn, base, &[Sz(6), Ea(DATA_ALT)]); }
    r("cmp", Mn::Cmp, 0xb000, &[Reg(9), Sz(6), Ea(ALL)]);
    r("eor", Mn::Eor, 0xb100, &[Reg(9), Sz(6), Ea(DATA_ALT)]);
    r("cmpm", Mn::Cmpm, 0xb108, &[Reg(9), Sz(6), Reg(0)]);
    r("dbcc", Mn::Dbcc, 0x50c8, &[Cond(false), Reg(0), Disp16]);
    r("exg", Mn::Exg, 0xc100, &[Reg(9), Dir(&[("ExchangeData", 0x40), ("ExchangeAddress", 0x48), ("ExchangeDataAddress", 0x88)]), Reg(0)]);
    r("ext", Mn::Ext, 0x4880, &[Flag(6), Reg(0)]);
    for (f, mn, base) in [("illegal", Mn::Illegal, 0x4afc), ("nop", Mn::Nop, 0x4e71), ("reset", Mn::Reset, 0x4e70), ("rte", Mn::Rte, 0x4e73), ("rtr", Mn::Rtr, 0x4e77), ("rts", Mn::Rts, 0x4e75), ("trapv", Mn::Trapv, 0x4e76)] { r(f, mn, base, &[]); }
    for (f, mn, base) in [("jmp", Mn::Jmp, 0x4ec0), ("jsr", Mn::Jsr, 0x4e80), ("pea", Mn::Pea, 0x4840)] { r(f, mn, base, &[Ea(CONTROL)]); }
    r("link", Mn::Link, 0x4e50, &[Reg(0), Disp16]);
    r("unlk", Mn::Unlk, 0x4e58, &[Reg(0)]);
    r("swap", Mn::Swap, 0x4840, &[Reg(0)]);
    r("move", Mn::Move, 0, &[SzMove, EaDst(DATA_ALT), Ea(ALL)]);
    r("movea", Mn::Movea, 0x0040, &[SzMoveA, Reg(9), Ea(ALL)]);
    r("moveccr", Mn::Moveccr, 0x44c0, &[Ea(DATA)]);
    r("movesr", Mn::Movesr, 0x46c0, &[Ea(DATA)]);
    r("movefsr", Mn::Movefsr, 0x40c0, &[Ea(DATA_ALT)]);
    r("nbcd", Mn::Nbcd, 0x4800, &[Ea(DATA_ALT)]);
    r("tas", Mn::Tas, 0x4ac0, &[Ea(DATA_ALT)]);
    r("moveusp", Mn::Moveusp, 0x4e60, &[Dir(&[("UspToRegister", 8), ("RegisterToUsp", 0)]), Reg(0)]);
    r("movem", Mn::Movem, 0x4880, &[Dir(&[("RegisterToMemory", 0)]), SzBit(6), Ea(CONTROL_ALT | 0x10), Imm16]);
    r("movem", Mn::Movem, 0x4c80, &[Dir(&[("MemoryToRegister", 0)]), SzBit(6), Ea(CONTROL | 8), Imm16]);
    r("movep", Mn::Movep, 0x0108, &[Reg(9), Dir(&[("RegisterToMemory", 0x80), ("MemoryToRegister", 0)]), SzBit(6), Reg(0), Disp16]);
    r("moveq", Mn::Moveq, 0x7000, &[Reg(9), Data8]);
    r("scc", Mn::Scc, 0x50c0, &[Cond(false), Ea(DATA_ALT)]);
    r("trap", Mn::Trap, 0x4e40, &[Vec4]);
    v
}

/// One combination of the enumerated arguments: variant number (or flag) per argument.
struct Job { f: &'static str, pick: Vec<u32> }

struct Build<'a, 'p> { ex: &'a mut Ex<'p>, op: W, pre: Vec<W>, src: Vec<W>, dst: Vec<W>, ok: B }
impl<'a, 'p> Build<'a, 'p> {
    fn or(&mut self, w: W, sh: u32) { let x = self.ex.d.resize(w, 16, false); let x = self.ex.d.shl(x, sh); self.op = self.ex.d.or_w(self.op, x); }
    fn orc(&mut self, c: u32) { let k = self.ex.d.k(16, c as u128); self.op = self.ex.d.or_w(self.op, k); }
    fn under(&mut self, w: W, n: u128) { let bits = self.ex.d.width(w); let k = self.ex.d.k(bits, n); let b = self.ex.d.lt(w, k, false); self.ok = self.ex.d.and(self.ok, b); }
    fn low16(&mut self, w: W) -> W { self.ex.d.resize(w, 16, false) }
    fn high16(&mut self, w: W) -> W { let x = self.ex.d.shr(w, 16, false); self.ex.d.resize(x, 16, false) }
}
fn variants<'p>(p: &'p Prog, ty: TyId) -> Vec<String> { match &p.ty(ty).k { TyK::Adt { variants, is_enum: true, .. } => variants.iter().map(|v| v.name.clone()).collect(), _ => vec![] } }

pub fn assembled(p: &Prog, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let rows = rows();
    let mut jobs = vec![];
    let mut names: Vec<&'static str> = rows.iter().map(|r| r.f).collect();
    names.dedup();
    for f in names {
        let mut picks: Vec<Vec<u32>> = vec![vec![]];
        if let Some(id) = find(p, f) {
            let fu = &p.fns[id as usize];
            for a in 0..fu.nargs as usize {
                let ty = fu.locals[a + 1];
                let n = variants(p, ty).len().max(if p.ty(ty).name == "bool" { 2 } else { 1 }) as u32;
                picks = picks.into_iter().flat_map(|q| (0..n).map(move |i| { let mut q = q.clone(); q.push(i); q })).collect();
            }
        }
        for pick in picks { jobs.push(Job { f, pick }); }
    }
    if let Ok(f) = std::env::var("ASMFN") { jobs.retain(|j| f.split(',').any(|x| x == j.f)); }
    par(p, &jobs, &|ex, job, rep| {
        let Some(f) = find(p, job.f) else { lost(rep, &format!("no assembler function {}", job.f)); return job.f.to_string() };
        one(ex, rep, &rows, job, f, want);
        job.f.to_string()
    })
}
fn find(p: &Prog, f: &str) -> Option<FnId> {
    let key = format!("fn:assembler::{f}");
    let key2 = format!("fn:assembler::r#{f}");
    p.roots.get(&key).or_else(|| p.roots.get(&key2)).copied().or_else(|| root(p, &[&format!("assembler::{f}$")]))
}

fn one<'p>(ex: &mut Ex<'p>, rep: &mut Report, rows: &[Row], job: &Job, f: FnId, want: &(dyn Fn(&str) -> bool + Sync)) {
    let p = ex.p;
    let fu = &p.fns[f as usize];
    let w = |x: &str| want(x);
    let site = format!("{} ({}:{})", fu.path, p.files[fu.file as usize], fu.line);
    let mut args = vec![];
    let mut leaves: Vec<Vec<W>> = vec![];
    let mut shown = vec![];
    for a in 0..fu.nargs as usize {
        let ty = fu.locals[a + 1];
        let vs = variants(p, ty);
        let i = job.pick[a];
        if !vs.is_empty() {
            let TyK::Adt { variants, .. } = &p.ty(ty).k else { unreachable!() };
            let mut ls = vec![];
            let mut fields = vec![];
            for (k, t) in variants[i as usize].fields.iter().enumerate() {
                let (wd, wrap) = match p.width(*t) { Some(x) => (x, false), None => match &p.ty(*t).k { TyK::Adt { variants, .. } if variants.len() == 1 && variants[0].fields.len() == 1 => (p.width(variants[0].fields[0]).unwrap_or(16), true), _ => { lost(rep, &format!("{}: operand type {}", job.f, p.ty(*t).name)); return } } };
                let x = ex.d.fresh(wd, &format!("{}{}", variants[i as usize].name.to_lowercase(), k));
                ls.push(x);
                fields.push(if wrap { V::Agg(Rc::new(vec![V::W(x)])) } else { V::W(x) });
            }
            shown.push(variants[i as usize].name.clone());
            leaves.push(ls);
            args.push(ex.variant(ty, i, fields));
        } else if p.ty(ty).name == "bool" {
            shown.push(format!("{}", i == 1));
            leaves.push(vec![]);
            args.push(ex.kw(1, i as u128));
        } else {
            let Some(wd) = p.width(ty) else { lost(rep, &format!("{}: argument type {}", job.f, p.ty(ty).name)); return };
            let x = ex.d.fresh(wd, &format!("arg{a}"));
            leaves.push(vec![x]);
            args.push(V::W(x));
        }
    }
    // expected
    let mut exp: Option<(B, Vec<(B, Vec<W>)>)> = None;
    let tag = format!("{}({})", job.f, shown.join(", "));
    for row in rows.iter().filter(|r| r.f == job.f) {
        if row.args.len() != args.len() { lost(rep, &format!("{}: {} arguments", job.f, args.len())); return; }
        if let Some(x) = expect(ex, row, fu, job, &leaves) { exp = Some(x); }
    }
    // the table itself agrees with the decoder the other properties use
    let st = blank(ex);
    ex.events.clear(); ex.panics.clear();
    let r = ex.call(f, args, st, 0);
    let (ret, val) = match r { Some((v, s)) => (s.g, Some(v)), None => (F, None) };
    let mut lines: Vec<(B, W)> = vec![];
    if ret != F {
        match val {
            Some(V::W(x)) => lines.push((T, x)),
            Some(V::Agg(a)) => for x in a.iter() { let x = ex.w(x); lines.push((T, x)); },
            Some(V::Coll(c)) => for (g, x) in c.items.iter() { let x = ex.w(x); lines.push((*g, x)); },
            _ => { lost(rep, &format!("{tag}: the result is not understood")); return }
        }
    }
    let mut cm = Cmp { ex, rep, tag: tag.clone(), want: &w };
    let Some((ok, alts)) = exp else {
        cm.never("C37", ret, &format!("{tag} accepted"), &|_| "emits code for an operand the instruction does not have".into(), &site);
        return;
    };
    let nok = cm.ex.d.not(ok);
    let bad = cm.ex.d.and(ret, nok);
    cm.never("C37", bad, &format!("{tag} accepted"), &|_| "emits code for an operand the instruction does not have".into(), &site);
    let nr = cm.ex.d.not(ret);
    let bad = cm.ex.d.and(ok, nr);
    cm.never("C37", bad, &format!("{} refuses", job.f), &|_| "does not emit code for operands the instruction has".into(), &site);
    // number of words before each item
    let max = lines.len();
    let mut at: Vec<Vec<B>> = vec![];
    let mut cur = vec![F; max + 1];
    cur[0] = T;
    for (g, _) in &lines {
        at.push(cur.clone());
        let ng = cm.ex.d.not(*g);
        let mut nx = vec![F; max + 1];
        for k in 0..=max {
            let a = cm.ex.d.and(cur[k], ng);
            nx[k] = cm.ex.d.or(nx[k], a);
            if k < max { let b = cm.ex.d.and(cur[k], *g); nx[k + 1] = cm.ex.d.or(nx[k + 1], b); }
        }
        cur = nx;
    }
    let both = cm.ex.d.and(ok, ret);
    for (ag, words) in &alts {
        let g = cm.ex.d.and(both, *ag);
        let right = cur.get(words.len()).copied().unwrap_or(F);
        let wrong = cm.ex.d.not(right);
        let bad = cm.ex.d.and(g, wrong);
        cm.never("C37", bad, &format!("{} length", job.f), &|_| format!("does not emit {} words", words.len()), &site);
        for (k, e) in words.iter().enumerate() {
            let mut bad = F;
            for (i, (ig, x)) in lines.iter().enumerate() {
                let here = cm.ex.d.and(at[i][k], *ig);
                let here = cm.ex.d.and(here, g);
                if here == F { continue; }
                let b = cm.ex.d.diff(*x, *e, here);
                bad = cm.ex.d.or(bad, b);
            }
            cm.never("C37", bad, &format!("{} word {k}", job.f), &|_| if k == 0 { "emits the wrong operation word".into() } else { format!("emits the wrong extension word {k}") }, &site);
        }
    }
}

/// Validity and words of one row for these arguments; None when the row does not apply.
fn expect<'p>(ex: &mut Ex<'p>, row: &Row, fu: &Func, job: &Job, leaves: &[Vec<W>]) -> Option<(B, Vec<(B, Vec<W>)>)> {
    let p = ex.p;
    let op = ex.d.k(16, row.base as u128);
    let name = |a: usize| variants(p, fu.locals[a + 1]).get(job.pick[a] as usize).cloned();
    // size of the instruction, in bytes
    let mut size = 2u32;
    for (a, k) in row.args.iter().enumerate() { if matches!(k, Sz(_) | SzBit(_) | SzMove | SzMoveA) { size = match name(a)?.as_str() { "Byte" => 1, "Word" => 2, "Long" => 4, _ => return None }; } }
    let mut b = Build { ex, op, pre: vec![], src: vec![], dst: vec![], ok: T };
    let mut branch = None;
    for (a, k) in row.args.iter().enumerate() {
        let l = leaves[a].first().copied();
        match *k {
            Reg(sh) => { let l = l?; b.under(l, 8); b.or(l, sh) }
            Sz(sh) => b.orc([0, 0, 1, 0, 2][size as usize] << sh),
            SzBit(sh) => { if size == 1 { return None; } b.orc((size == 4) as u32 * (1 << sh)) }
            SzMove => b.orc([0, 1, 3, 0, 2][size as usize] << 12),
            SzMoveA => { if size == 1 { return None; } b.orc([0, 1, 3, 0, 2][size as usize] << 12) }
            Dir(list) => { let n = name(a)?; let (_, bits) = list.iter().find(|x| x.0 == n)?; b.orc(*bits as u32) }
            Ea(set) | EaDst(set) => {
                let n = name(a)?;
                let m = MODES.iter().position(|x| *x == n)?;
                if set >> m & 1 == 0 || m == 1 && size == 1 { return None; }
                let dst = matches!(k, EaDst(_));
                let (ms, rs) = if dst { (6, 9) } else { (3, 0) };
                if m < 7 { b.orc((m as u32) << ms); let r = *leaves[a].first()?; b.under(r, 8); b.or(r, rs); } else { b.orc(7 << ms | (m as u32 - 7) << rs); }
                let last = *leaves[a].last()?;
                let ext: Vec<W> = match m {
                    0..=4 => vec![],
                    5 | 6 | 7 | 9 | 10 => vec![b.low16(last)],
                    8 => vec![b.high16(last), b.low16(last)],
                    _ => if size == 4 { vec![b.high16(last), b.low16(last)] } else { vec![b.low16(last)] },
                };
                if dst { b.dst = ext } else { b.src = ext }
            }
            ImmSz => { let l = l?; if size == 4 { let h = b.high16(l); b.pre.push(h); } let lo = b.low16(l); let lo = if size == 1 { let m = b.ex.d.k(16, 0xff); b.ex.d.and_w(lo, m) } else { lo }; b.pre.push(lo) }
            Imm16 | Disp16 => { let l = b.low16(l?); b.pre.push(l) }
            ImmCcr => { let m = b.ex.d.k(16, 0xff); let x = b.ex.d.and_w(l?, m); b.pre.push(x) }
            Count => { let x = b.low16(l?); b.pre.push(x) }
            Cond(branch) => { let n = name(a)?; let c = CONDS.iter().position(|x| *x == n)?; if branch && c < 2 { return None; } b.orc((c as u32) << 8) }
            Flag(sh) => b.orc(job.pick[a] << sh),
            Data8 => { let l = l?; b.or(l, 0) }
            Quick => { let l = l?; let z = b.ex.d.is_zero(l); let nz = b.ex.d.not(z); b.ok = b.ex.d.and(b.ok, nz); b.under(l, 9); let m = b.ex.d.k(16, 7); let x = b.low16(l); let x = b.ex.d.and_w(x, m); b.or(x, 9) }
            Vec4 => { let l = l?; b.under(l, 16); b.or(l, 0) }
            Branch => branch = Some(l?),
        }
    }
    let Build { ex, op, pre, src, dst, ok } = b;
    if let Some(d) = branch {
        // the byte form for displacements it can hold
        let hi = ex.d.shr(d, 7, true);
        let z = ex.d.is_zero(hi);
        let ones = ex.d.k(16, 0xffff);
        let m1 = ex.d.eq(hi, ones);
        let fits = ex.d.or(z, m1);
        let dz = ex.d.is_zero(d);
        let nz = ex.d.not(dz);
        let short = ex.d.and(fits, nz);
        let long = ex.d.not(short);
        let m = ex.d.k(16, 0xff);
        let lo = ex.d.and_w(d, m);
        let sop = ex.d.or_w(op, lo);
        return Some((ok, vec![(short, vec![sop]), (long, vec![op, d])]));
    }
    let mut words = vec![op];
    words.extend(pre); words.extend(src); words.extend(dst);
    // the operation word must denote this instruction for the decoder the other properties rely on
    if let Some(c) = ex.d.as_const(op) { if decode(c as u16).map(|i| i.mn) != Some(row.mn) { return None; } }
    Some((ok, vec![(T, words)]))
}
