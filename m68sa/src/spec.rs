//! Reference semantics of the M68000 instruction set, written from the Programmer's Reference
//! Manual over the same abstract domain, independent of the analysed crate.
use crate::core::*;
use crate::dom::*;
use crate::exec::*;
use crate::ir::MemK;
use crate::isa::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role { Opcode, Ext, Operand, Stack }
#[derive(Clone)]
pub struct SEv { pub k: EvK, pub g: B, pub ord: W, pub a: W, pub v: Option<W>, pub role: Role }

/// What the manual says about a flag after the instruction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fl { Keep, Const, Result, Arith, Shift, Bcd, BitZ, Div, Sr, Undefined, Restore }
/// Why a register changes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rr { Keep, Dest(u8), EaUpd, Stack }

pub struct Spec {
    /// D0-7, A0-6, USP, SSP
    pub r: [W; 17],
    pub why: [Rr; 17],
    pub pc: W,
    pub t: B,
    pub s: B,
    pub m: [B; 3],
    pub f: [B; 5],
    pub fl: [Fl; 5],
    /// flag i is only defined under this guard
    pub fdef: [B; 5],
    pub stop: B,
    pub alive: B,
    pub ord: W,
    pub ev: Vec<SEv>,
    pub exc: Vec<(B, u8)>,
    pub jumps: bool,
    /// (taken, not taken) targets of a conditional branch
    pub targets: Option<(W, W)>,
    pub sr_op: bool,
    pub aligned: bool,
    /// state before a refused (8) or trapping (5) instruction changes anything
    pub snap: Vec<(B, [W; 17], [B; 5], B, B, [B; 3])>,
    /// the defined domain of the instruction's inputs (packed decimal digits)
    pub pre: B,
    /// registers are not compared under this guard
    pub noregs: B,
}

#[derive(Clone, Copy)]
pub enum Op { D(u8), A(u8), M(W), I(W) }
#[derive(Clone, Copy)]
struct Eax { e: Ea, x: [W; 2], at: W }

pub fn hints(d: &mut Dom, i: &Insn) {
    use Mn::*;
    for (n, e) in ext_layout(i).iter().enumerate() {
        let w = W_DATA + 1 + n as u32;
        match e {
            ExtK::Brief => { d.control.insert(w, 0xf800); }
            ExtK::ImmHi => { d.off.insert(w, 16); }
            ExtK::Mask => { d.control.insert(w, 0xffff); }
            ExtK::BitNo => { d.control.insert(w, 0x1f); }
            ExtK::Other => {}
        }
    }
    match i.mn {
        Asr | Lsr | Ror | Roxr if i.op & 0x20 != 0 => { d.control.insert(W_D0 + i.rx as u32, 0x3f); }
        // the divisor faces the high word of the dividend
        Divu | Divs => {
            let w = if i.op >> 3 & 7 == 0 { W_D0 + (i.op & 7) as u32 } else if i.op & 0x3f == 0x3c { W_DATA + 1 } else { W_DATA + 1 + ext_layout(i).len() as u32 };
            if w != W_D0 + i.rx as u32 { d.off.insert(w, 16); }
        }
        Btst | Bchg | Bclr | Bset if i.dir => { d.control.insert(W_D0 + i.rx as u32, 0x1f); }
        _ => {}
    }
}

pub struct Sp<'e, 'p> { pub ex: &'e mut Ex<'p>, pub q: Spec, pub scc: bool }

impl<'e, 'p> Sp<'e, 'p> {
    pub fn new(ex: &'e mut Ex<'p>, scc: bool) -> Self {
        let d = &mut ex.d;
        let mut r = [0; 17];
        for i in 0..8 { r[i] = d.word(W_D0 + i as u32, 32, &format!("d{i}")); }
        for i in 0..7 { r[8 + i] = d.word(W_A0 + i as u32, 32, &format!("a{i}")); }
        r[15] = d.word(W_USP, 32, "usp");
        r[16] = d.word(W_SSP, 32, "ssp");
        let pc = d.word(W_PC, 32, "pc");
        let fv = |d: &mut Dom, i: u32| d.var(k_flag(i));
        let q = Spec {
            r, why: [Rr::Keep; 17], pc, t: fv(d, FT), s: fv(d, FS), m: [fv(d, FM), fv(d, FM + 1), fv(d, FM + 2)], f: [fv(d, FX), fv(d, FN), fv(d, FZ), fv(d, FV), fv(d, FC)], fl: [Fl::Keep; 5], fdef: [T; 5],
            stop: F, alive: T, ord: d.k(16, 0), ev: vec![], exc: vec![], jumps: false, targets: None, sr_op: false, aligned: false, snap: vec![], pre: T, noregs: F,
        };
        Sp { ex, q, scc }
    }
    fn d(&mut self) -> &mut Dom { &mut self.ex.d }
    fn k(&mut self, w: u32, c: u128) -> W { self.ex.d.k(w, c) }

    // ------------------------------------------------------------ outcomes and accesses
    fn raise(&mut self, g: B, v: u8) {
        let a = self.q.alive;
        let e = self.d().and(a, g);
        if e != F { self.q.exc.push((e, v)); }
        let n = self.d().not(g);
        self.q.alive = self.d().and(a, n);
    }
    fn acc(&mut self, k: MemK, addr: W, val: Option<W>, role: Role) -> W { self.acc_if(T, k, addr, val, role) }
    fn acc_if(&mut self, c: B, k: MemK, addr: W, val: Option<W>, role: Role) -> W {
        if !self.q.aligned && !matches!(k, MemK::GetByte | MemK::SetByte | MemK::Reset) {
            let odd = self.d().bit(addr, 0);
            let e = self.d().and(odd, c);
            self.raise(e, 3);
        }
        let a = self.q.alive;
        let g = self.d().and(a, c);
        let ord = self.q.ord;
        self.q.ev.push(SEv { k: EvK::Mem(k), g, ord, a: addr, v: val, role });
        let (ok, data) = self.ex.mem_input(EvK::Mem(k), addr, ord);
        let one = self.k(16, 1);
        let nx = self.d().add(ord, one);
        self.q.ord = self.d().wite(c, nx, ord);
        if k != MemK::Reset { let no = self.d().not(ok); let e = self.d().and(no, c); self.raise(e, 2); }
        let w = match k { MemK::GetByte => 8, MemK::GetWord => 16, _ => 32 };
        self.d().resize(data, w, false)
    }
    fn fetch(&mut self) -> W {
        let pc = self.q.pc;
        let w = self.acc(MemK::GetWord, pc, None, Role::Ext);
        let two = self.k(32, 2);
        self.q.pc = self.d().add(pc, two);
        w
    }
    fn rd(&mut self, size: u8, a: W) -> W { self.acc(match size { 1 => MemK::GetByte, 2 => MemK::GetWord, _ => MemK::GetLong }, a, None, Role::Operand) }
    fn wr(&mut self, size: u8, a: W, v: W) { self.acc(match size { 1 => MemK::SetByte, 2 => MemK::SetWord, _ => MemK::SetLong }, a, Some(v), Role::Operand); }

    // ------------------------------------------------------------ registers
    fn areg(&mut self, n: u8) -> W { if n < 7 { self.q.r[8 + n as usize] } else { let (s, a, b) = (self.q.s, self.q.r[16], self.q.r[15]); self.d().wite(s, a, b) } }
    fn set_areg(&mut self, n: u8, v: W, why: Rr) {
        if n < 7 { self.q.r[8 + n as usize] = v; self.why(8 + n as usize, why); return; }
        let (s, a, b) = (self.q.s, self.q.r[16], self.q.r[15]);
        self.q.r[16] = self.d().wite(s, v, a);
        self.q.r[15] = self.d().wite(s, b, v);
        self.why(16, why); self.why(15, why);
    }
    fn why(&mut self, i: usize, w: Rr) { if !matches!(self.q.why[i], Rr::Dest(_)) { self.q.why[i] = w; } }
    fn low(&mut self, n: u8, size: u8) -> W { let r = self.q.r[n as usize]; self.d().resize(r, size as u32 * 8, false) }
    fn set_d(&mut self, n: u8, size: u8, v: W) {
        let old = self.q.r[n as usize];
        self.q.why[n as usize] = Rr::Dest(size);
        if size == 4 { self.q.r[n as usize] = v; return; }
        let w = size as u32 * 8;
        let m = self.k(32, mask(32) ^ mask(w));
        let hi = self.d().and_w(old, m);
        let lo = self.d().resize(v, 32, false);
        self.q.r[n as usize] = self.d().or_w(hi, lo);
    }
    fn set_f(&mut self, i: usize, v: B, why: Fl) { self.q.f[i] = v; self.q.fl[i] = why; }
    fn nz(&mut self, v: W) { let n = self.d().msb(v); let z = self.d().is_zero(v); self.set_f(1, n, Fl::Result); self.set_f(2, z, Fl::Result); }
    fn logic(&mut self, v: W) { self.nz(v); self.set_f(3, F, Fl::Const); self.set_f(4, F, Fl::Const); }

    // ------------------------------------------------------------ effective addresses
    fn ea_fetch(&mut self, e: Ea, size: u8) -> Eax {
        let z = self.k(32, 0);
        let mut x = [z; 2];
        let at = self.q.pc;
        match (e.mode, e.reg) {
            (5, _) | (6, _) | (7, 0) | (7, 2) | (7, 3) => x[0] = self.fetch(),
            (7, 1) => { x[0] = self.fetch(); x[1] = self.fetch(); }
            (7, 4) => if size == 4 { x[0] = self.fetch(); x[1] = self.fetch(); } else { x[0] = self.fetch(); },
            _ => {}
        }
        Eax { e, x, at }
    }
    fn long(&mut self, hi: W, lo: W) -> W { let h = self.d().resize(hi, 32, false); let h = self.d().shl(h, 16); let l = self.d().resize(lo, 32, false); self.d().or_w(h, l) }
    fn brief(&mut self, base: W, x: W) -> W {
        let mut idx = self.k(32, 0);
        for n in (0..16u128).rev() {
            let top = self.d().shr(x, 12, false);
            let k = self.k(16, n);
            let is = self.d().eq(top, k);
            let r = if n < 8 { self.q.r[n as usize] } else { self.areg(n as u8 - 8) };
            idx = self.d().wite(is, r, idx);
        }
        let long = self.d().bit(x, 11);
        let lo = self.d().resize(idx, 16, false);
        let se = self.d().resize(lo, 32, true);
        let idx = self.d().wite(long, idx, se);
        let d8 = self.d().resize(x, 8, false);
        let d8 = self.d().resize(d8, 32, true);
        let a = self.d().add(base, d8);
        self.d().add(a, idx)
    }
    fn resolve(&mut self, e: Eax, size: u8) -> Op {
        let r = e.e.reg;
        match (e.e.mode, r) {
            (0, _) => Op::D(r),
            (1, _) => Op::A(r),
            (2, _) => Op::M(self.areg(r)),
            (3, _) | (4, _) => {
                let a = self.areg(r);
                let st = if size == 1 && r == 7 { 2 } else { size as u128 };
                let k = self.k(32, st);
                let n = if e.e.mode == 3 { self.d().add(a, k) } else { self.d().sub(a, k) };
                self.set_areg(r, n, Rr::EaUpd);
                Op::M(if e.e.mode == 3 { a } else { n })
            }
            (5, _) => { let a = self.areg(r); let x = self.d().resize(e.x[0], 32, true); Op::M(self.d().add(a, x)) }
            (6, _) => { let a = self.areg(r); Op::M(self.brief(a, e.x[0])) }
            (7, 0) => Op::M(self.d().resize(e.x[0], 32, true)),
            (7, 1) => Op::M(self.long(e.x[0], e.x[1])),
            (7, 2) => { let x = self.d().resize(e.x[0], 32, true); Op::M(self.d().add(e.at, x)) }
            (7, 3) => Op::M(self.brief(e.at, e.x[0])),
            _ => if size == 4 { Op::I(self.long(e.x[0], e.x[1])) } else { Op::I(e.x[0]) },
        }
    }
    fn get(&mut self, o: Op, size: u8) -> W {
        match o {
            Op::D(n) => self.low(n, size),
            Op::A(n) => { let a = self.areg(n); self.d().resize(a, size as u32 * 8, false) }
            Op::M(a) => self.rd(size, a),
            Op::I(w) => self.d().resize(w, size as u32 * 8, false),
        }
    }
    fn put(&mut self, o: Op, size: u8, v: W) { match o { Op::D(n) => self.set_d(n, size, v), Op::M(a) => self.wr(size, a, v), _ => unreachable!() } }

    // ------------------------------------------------------------ arithmetic
    /// dst + src + x or dst - src - x; flags per `xf` (extended form).
    fn addsub(&mut self, dst: W, src: W, sub: bool, x: bool, setx: bool) -> W {
        let w = self.d().width(dst);
        let xin = if x { self.q.f[0] } else { F };
        let xw = self.d().from_b(xin);
        let f = |s: &mut Self, a: W, b: W, n: u32, sign: bool| {
            let a = s.d().resize(a, n, sign); let b = s.d().resize(b, n, sign); let c = s.d().resize(xw, n, false);
            if sub { let r = s.d().sub(a, b); s.d().sub(r, c) } else { let r = s.d().add(a, b); s.d().add(r, c) }
        };
        let u = f(self, dst, src, w + 1, false);
        let sg = f(self, dst, src, w + 1, true);
        let res = f(self, dst, src, w, false);
        let c = self.d().bit(u, w);
        let s1 = self.d().bit(sg, w);
        let s0 = self.d().bit(sg, w - 1);
        let v = self.d().xor(s1, s0);
        let n = self.d().msb(res);
        let mut z = self.d().is_zero(res);
        if x { let oz = self.q.f[2]; z = self.d().and(z, oz); }
        if setx { self.set_f(0, c, Fl::Arith); }
        self.set_f(1, n, Fl::Result);
        self.set_f(2, z, Fl::Result);
        self.set_f(3, v, Fl::Arith);
        self.set_f(4, c, Fl::Arith);
        res
    }
    fn sr_word(&mut self) -> W {
        let q = &self.q;
        let bits = vec![q.f[4], q.f[3], q.f[2], q.f[1], q.f[0], F, F, F, q.m[0], q.m[1], q.m[2], F, F, q.s, F, q.t];
        let l = self.d().mk_bits(bits);
        self.d().leaf_w(l)
    }
    fn load_ccr(&mut self, w: W, why: Fl) {
        for (i, b) in [(0usize, 4u32), (1, 3), (2, 2), (3, 1), (4, 0)] { let v = self.d().bit(w, b); self.set_f(i, v, why); }
    }
    fn load_sr(&mut self, w: W, why: Fl) {
        self.load_ccr(w, why);
        self.q.sr_op = true;
        self.q.t = self.d().bit(w, 15);
        self.q.s = self.d().bit(w, 13);
        for i in 0..3 { self.q.m[i] = self.d().bit(w, 8 + i as u32); }
    }
    fn push(&mut self, size: u8, v: W) {
        let sp = self.areg(7);
        let k = self.k(32, size as u128);
        let a = self.d().sub(sp, k);
        self.set_areg(7, a, Rr::Stack);
        self.acc(if size == 2 { MemK::SetWord } else { MemK::SetLong }, a, Some(v), Role::Stack);
    }
    fn pop(&mut self, size: u8) -> W {
        let a = self.areg(7);
        let k = self.k(32, size as u128);
        let n = self.d().add(a, k);
        self.set_areg(7, n, Rr::Stack);
        self.acc(if size == 2 { MemK::GetWord } else { MemK::GetLong }, a, None, Role::Stack)
    }
    /// Raise `v` under `g`, leaving the state as it is now.
    fn trap(&mut self, g: B, v: u8) {
        let a = self.q.alive;
        let e = self.d().and(a, g);
        if e != F { let q = &self.q; let x = (e, q.r, q.f, q.t, q.s, q.m); self.q.snap.push(x); }
        self.raise(g, v);
    }
    fn unwind(&mut self) {
        for (g, r, f, t, s, m) in std::mem::take(&mut self.q.snap).into_iter().rev() {
            for i in 0..17 { if self.q.r[i] != r[i] { let n = self.q.r[i]; self.q.r[i] = self.ex.d.wite(g, r[i], n); } }
            for i in 0..5 { let n = self.q.f[i]; self.q.f[i] = self.ex.d.ite(g, f[i], n); }
            let n = self.q.t; self.q.t = self.ex.d.ite(g, t, n);
            let n = self.q.s; self.q.s = self.ex.d.ite(g, s, n);
            for i in 0..3 { let n = self.q.m[i]; self.q.m[i] = self.ex.d.ite(g, m[i], n); }
            let n = self.q.stop; self.q.stop = self.ex.d.ite(g, F, n);
        }
    }
    fn supervisor(&mut self) { let s = self.q.s; let u = self.d().not(s); self.trap(u, 8); }
    pub fn cond(&mut self, cc: u16) -> B {
        let [_, n, z, v, c] = self.q.f;
        let d = self.d();
        let base = match cc >> 1 {
            0 => T,
            1 => { let a = d.or(c, z); d.not(a) }   // HI / LS
            2 => d.not(c),                          // CC / CS
            3 => d.not(z),                          // NE / EQ
            4 => d.not(v),                          // VC / VS
            5 => d.not(n),                          // PL / MI
            6 => d.xnor(n, v),                      // GE / LT
            _ => { let ge = d.xnor(n, v); let nz = d.not(z); d.and(ge, nz) } // GT / LE
        };
        if cc & 1 == 1 { d.not(base) } else { base }
    }
    fn jump(&mut self, a: W) { self.q.pc = a; self.q.jumps = true; }
    fn bcd(&mut self, dst: W, src: W, sub: bool) -> W {
        let x = self.q.f[0];
        let xw = self.d().from_b(x);
        let xw = self.d().resize(xw, 8, false);
        let f0 = self.k(8, 15);
        let nine = self.k(8, 9);
        let ten = self.k(8, 10);
        let mut pre = T;
        let mut nib = vec![];
        for v in [dst, src] {
            let lo = self.d().and_w(v, f0);
            let hi = self.d().shr(v, 4, false);
            for n in [lo, hi] { let ok = self.d().le(n, nine, false); pre = self.d().and(pre, ok); }
            nib.push((lo, hi));
        }
        let p0 = self.q.pre;
        self.q.pre = self.d().and(p0, pre);
        let digit = |s: &mut Self, a: W, b: W, c: W| -> (W, B) {
            if sub {
                let r = s.d().sub(a, b); let r = s.d().sub(r, c);
                let neg = s.d().msb(r);
                let fix = s.d().add(r, ten);
                (s.d().sel(neg, fix, r), neg)
            } else {
                let r = s.d().add(a, b); let r = s.d().add(r, c);
                let big = s.d().le(ten, r, false);
                let fix = s.d().sub(r, ten);
                (s.d().sel(big, fix, r), big)
            }
        };
        let (l, c1) = digit(self, nib[0].0, nib[1].0, xw);
        let c1w = self.d().from_b(c1);
        let c1w = self.d().resize(c1w, 8, false);
        let (h, c2) = digit(self, nib[0].1, nib[1].1, c1w);
        let h = self.d().shl(h, 4);
        let r = self.d().or_w(h, l);
        let res = self.d().collapse(r).unwrap_or(r);
        let z = self.d().is_zero(res);
        let oz = self.q.f[2];
        let z = self.d().and(z, oz);
        self.set_f(0, c2, Fl::Bcd);
        self.set_f(2, z, Fl::Bcd);
        self.set_f(4, c2, Fl::Bcd);
        self.set_f(1, F, Fl::Undefined);
        self.set_f(3, F, Fl::Undefined);
        res
    }
    /// Shift or rotate `v` by a constant number of positions: (result, C, X, V).
    fn shift_k(&mut self, kind: u8, left: bool, v: LeafId, n: u32) -> (LeafId, B, B, B) {
        let d = &mut self.ex.d;
        let b = d.bits(v).to_vec();
        let w = b.len() as u32;
        let x0 = self.q.f[0];
        let at = |i: i64| -> B { if i >= 0 && i < w as i64 { b[i as usize] } else { F } };
        match kind {
            0 | 1 => { // arithmetic, logical
                let sign = b[w as usize - 1];
                let r: Vec<B> = (0..w as i64).map(|i| if left { at(i - n as i64) } else if i + n as i64 >= w as i64 { if kind == 0 { sign } else { F } } else { at(i + n as i64) }).collect();
                let c = if n == 0 { F } else if left { at(w as i64 - n as i64) } else if n as i64 - 1 >= w as i64 { if kind == 0 { sign } else { F } } else { at(n as i64 - 1) };
                let mut ov = F;
                if kind == 0 && left { for i in 0..n { let p = at(w as i64 - 1 - i as i64); let q = at(w as i64 - 2 - i as i64); let e = d.xor(p, q); ov = d.or(ov, e); if i > w { break; } } }
                let x = if n == 0 { x0 } else { c };
                (d.mk_bits(r), c, x, ov)
            }
            2 => { // with extend: rotate the (w+1)-bit value X:v
                let m = w as i64 + 1;
                let full = |i: i64| -> B { let i = i.rem_euclid(m); if i == w as i64 { x0 } else { b[i as usize] } };
                let s = if left { -(n as i64) } else { n as i64 };
                let r: Vec<B> = (0..w as i64).map(|i| full(i + s)).collect();
                let x = full(w as i64 + s);
                (d.mk_bits(r), x, x, F)
            }
            _ => {
                let s = if left { -(n as i64) } else { n as i64 };
                let r: Vec<B> = (0..w as i64).map(|i| b[(i + s).rem_euclid(w as i64) as usize]).collect();
                let c = if n == 0 { F } else if left { r[0] } else { r[w as usize - 1] };
                (d.mk_bits(r), c, x0, F)
            }
        }
    }
    fn shift(&mut self, kind: u8, left: bool, v: W, count: W) -> W {
        // Only the low bits of the operand matter; operate leaf by leaf.
        let cs = self.d().cases(count);
        let v = { let l = self.d().collapse(v); l.unwrap_or(v) };
        let Some(vl) = self.d().as_leaf(v) else { return self.d().top() };
        let mut res: Option<W> = None;
        let (mut c, mut x, mut ov) = (F, F, F);
        for (g, l) in cs {
            let n = self.d().lconst(l).unwrap() as u32;
            let (r, cc, xx, vv) = self.shift_k(kind, left, vl, n);
            let rw = self.d().leaf_w(r);
            res = Some(match res { None => rw, Some(o) => self.d().wite(g, rw, o) });
            c = self.d().ite(g, cc, c); x = self.d().ite(g, xx, x); ov = self.d().ite(g, vv, ov);
        }
        let r = res.unwrap();
        let r = self.d().shrink(r);
        self.nz(r);
        let keepx = kind == 3;
        if keepx { self.q.fl[0] = Fl::Keep } else { self.set_f(0, x, Fl::Shift) }
        self.set_f(3, ov, Fl::Shift);
        self.set_f(4, c, Fl::Shift);
        r
    }

    // ------------------------------------------------------------ one instruction
    pub fn step(&mut self, op: u16) {
        let pc = self.q.pc;
        let odd = self.d().bit(pc, 0);
        self.raise(odd, 3);
        self.q.pc = pc;
        let ins = decode(op);
        let _ = self.fetch();
        self.q.ev[0].role = Role::Opcode;
        match ins {
            None => { let v = match op >> 12 { 10 => 10, 15 => 11, _ => 4 }; self.raise(T, v); }
            Some(i) => {
                self.exec(&i);
                self.unwind();
                if !privileged(i.mn) { let t = self.ex.d.var(k_flag(FT)); self.raise_done(t, 9); }
            }
        }
    }
    /// Report an exception after a completed instruction.
    fn raise_done(&mut self, g: B, v: u8) { self.raise(g, v); }

    fn exec(&mut self, i: &Insn) {
        use Mn::*;
        let sz = i.size;
        let w = sz as u32 * 8;
        match i.mn {
            Nop => {}
            Illegal => self.raise(T, 4),
            Move => {
                let s = self.ea_fetch(i.ea.unwrap(), sz);
                let dx = self.ea_fetch(i.ea2.unwrap(), sz);
                let so = self.resolve(s, sz);
                let v = self.get(so, sz);
                let o = self.resolve(dx, sz);
                self.put(o, sz, v);
                self.logic(v);
            }
            Movea => { let v = self.src(i, sz); let v = self.d().resize(v, 32, true); self.set_areg(i.rx, v, Rr::Dest(4)); }
            Moveq => { let v = self.k(8, (i.op & 0xff) as u128); let v = self.d().resize(v, 32, true); self.set_d(i.rx, 4, v); self.logic(v); }
            Add | Sub | And | Or | Eor => {
                let s = self.ea_fetch(i.ea.unwrap(), sz);
                let o = self.resolve(s, sz);
                let ev = self.get(o, sz);
                let rv = self.low(i.rx, sz);
                let (dst, src) = if i.dir { (ev, rv) } else { (rv, ev) };
                let r = match i.mn {
                    Add | Sub => self.addsub(dst, src, i.mn == Sub, false, true),
                    And => { let r = self.d().and_w(dst, src); self.logic(r); r }
                    Or => { let r = self.d().or_w(dst, src); self.logic(r); r }
                    _ => { let r = self.d().xor_w(dst, src); self.logic(r); r }
                };
                if i.dir { self.put(o, sz, r) } else { self.set_d(i.rx, sz, r) }
            }
            Adda | Suba => {
                let v = self.src(i, sz);
                let v = self.d().resize(v, 32, true);
                let a = self.areg(i.rx);
                let r = if i.mn == Adda { self.d().add(a, v) } else { self.d().sub(a, v) };
                self.set_areg(i.rx, r, Rr::Dest(4));
            }
            Cmp => { let v = self.src(i, sz); let a = self.low(i.rx, sz); self.addsub(a, v, true, false, false); }
            Cmpa => { let v = self.src(i, sz); let v = self.d().resize(v, 32, true); let a = self.areg(i.rx); self.addsub(a, v, true, false, false); }
            Cmpm => {
                let so = self.resolve_simple(3, i.ry, sz); let s = self.get(so, sz);
                let o = self.resolve_simple(3, i.rx, sz); let dv = self.get(o, sz);
                self.addsub(dv, s, true, false, false);
            }
            Ori | Andi | Subi | Addi | Eori | Cmpi => {
                let imm = self.imm(sz);
                let e = self.ea_fetch(i.ea.unwrap(), sz);
                let o = self.resolve(e, sz);
                let v = self.get(o, sz);
                let r = match i.mn {
                    Addi => self.addsub(v, imm, false, false, true),
                    Subi => self.addsub(v, imm, true, false, true),
                    Cmpi => { self.addsub(v, imm, true, false, false); return; }
                    Ori => { let r = self.d().or_w(v, imm); self.logic(r); r }
                    Andi => { let r = self.d().and_w(v, imm); self.logic(r); r }
                    _ => { let r = self.d().xor_w(v, imm); self.logic(r); r }
                };
                self.put(o, sz, r);
            }
            Addq | Subq => {
                let n = if i.rx == 0 { 8 } else { i.rx as u128 };
                let ea = i.ea.unwrap();
                if ea.mode == 1 {
                    let a = self.areg(ea.reg);
                    let k = self.k(32, n);
                    let r = if i.mn == Addq { self.d().add(a, k) } else { self.d().sub(a, k) };
                    self.set_areg(ea.reg, r, Rr::Dest(4));
                    return;
                }
                let e = self.ea_fetch(ea, sz);
                let o = self.resolve(e, sz);
                let v = self.get(o, sz);
                let k = self.k(w, n);
                let r = self.addsub(v, k, i.mn == Subq, false, true);
                self.put(o, sz, r);
            }
            Addx | Subx | Abcd | Sbcd => {
                let (s, dv, o);
                if i.dir {
                    let so = self.resolve_simple(4, i.ry, sz); s = self.get(so, sz);
                    o = self.resolve_simple(4, i.rx, sz); dv = self.get(o, sz);
                } else { s = self.low(i.ry, sz); dv = self.low(i.rx, sz); o = Op::D(i.rx); }
                let r = match i.mn { Addx => self.addsub(dv, s, false, true, true), Subx => self.addsub(dv, s, true, true, true), Abcd => self.bcd(dv, s, false), _ => self.bcd(dv, s, true) };
                self.put(o, sz, r);
            }
            Nbcd | Neg | Negx | Not | Clr | Tst | Tas => {
                let e = self.ea_fetch(i.ea.unwrap(), sz);
                let o = self.resolve(e, sz);
                let z = self.k(w, 0);
                if i.mn == Clr { self.put(o, sz, z); self.logic(z); for f in 1..5 { self.q.fl[f] = Fl::Const; } return; }
                let v = self.get(o, sz);
                let r = match i.mn {
                    Nbcd => self.bcd(z, v, true),
                    Neg => self.addsub(z, v, true, false, true),
                    Negx => self.addsub(z, v, true, true, true),
                    Not => { let r = self.d().not_w(v); self.logic(r); r }
                    Tst => { self.logic(v); return; }
                    _ => { self.logic(v); let k = self.k(8, 0x80); self.d().or_w(v, k) }
                };
                self.put(o, sz, r);
            }
            Mulu | Muls => {
                let sg = i.mn == Muls;
                let v = self.src(i, 2);
                let r = self.low(i.rx, 2);
                let a = self.d().resize(v, 32, sg);
                let b = self.d().resize(r, 32, sg);
                let p = self.d().num2(a, b, &mut |d, x, y| d.mul_l(x, y));
                self.set_d(i.rx, 4, p);
                self.logic(p);
            }
            Divu | Divs => {
                let sg = i.mn == Divs;
                let v = self.src(i, 2);
                let zero = self.d().is_zero(v);
                for f in 1..5 { self.q.fl[f] = Fl::Undefined; }
                self.q.fdef[1] = F; self.q.fdef[2] = F; self.q.fdef[3] = F; self.q.fdef[4] = F;
                self.trap(zero, 5);
                let b = self.d().resize(v, 32, sg);
                let a = self.q.r[i.rx as usize];
                let quot = self.d().div(a, b, sg, false);
                let rem = self.d().div(a, b, sg, true);
                let ovf = if sg {
                    let min = self.k(32, 0x8000_0000); let m1 = self.k(32, 0xffff_ffff);
                    let c1 = self.d().eq(a, min); let c2 = self.d().eq(b, m1); let mm = self.d().and(c1, c2);
                    let lo = self.k(32, 0xffff_8000); let hi = self.k(32, 0x7fff);
                    let l = self.d().lt(quot, lo, true); let h = self.d().lt(hi, quot, true);
                    let o = self.d().or(l, h);
                    self.d().or(o, mm)
                } else { let hi = self.k(32, 0xffff); self.d().lt(hi, quot, false) };
                let q16 = self.d().resize(quot, 16, false);
                let r16 = self.d().resize(rem, 16, false);
                let r = self.long(r16, q16);
                let r = self.d().sel(ovf, a, r);
                self.set_d(i.rx, 4, r);
                self.nz(q16);
                self.set_f(3, ovf, Fl::Div);
                self.set_f(4, F, Fl::Div);
                let fits = self.d().not(ovf);
                let nz = self.d().not(zero);
                let def = self.d().and(fits, nz);
                self.q.fdef[1] = def; self.q.fdef[2] = def; self.q.fdef[3] = nz; self.q.fdef[4] = nz;
            }
            Chk => {
                let v = self.src(i, 2);
                let r = self.low(i.rx, 2);
                let neg = self.d().msb(r);
                let big = self.d().lt(v, r, true);
                for f in 1..5 { self.q.fl[f] = Fl::Undefined; self.q.fdef[f] = F; }
                let t = self.d().or(neg, big);
                self.raise(t, 6);
            }
            Btst | Bchg | Bclr | Bset => {
                let num = if i.dir { self.low(i.rx, 1) } else { let x = self.fetch(); self.d().resize(x, 8, false) };
                let e = self.ea_fetch(i.ea.unwrap(), sz);
                let o = self.resolve(e, sz);
                let v = self.get(o, sz);
                let m = self.k(8, if sz == 4 { 31 } else { 7 });
                let n = self.d().and_w(num, m);
                let n = self.d().expand(n, 6).unwrap();
                let one = self.k(w, 1);
                let bit = self.d().map2(one, n, &mut |d, a, b| { let c = d.lconst(b).unwrap() as u32; let l = d.shl_l(a, c); d.leaf_w(l) });
                let tst = self.d().and_w(v, bit);
                let z = self.d().is_zero(tst);
                self.set_f(2, z, Fl::BitZ);
                let r = match i.mn {
                    Btst => return,
                    Bchg => self.d().xor_w(v, bit),
                    Bclr => { let nb = self.d().not_w(bit); self.d().and_w(v, nb) }
                    _ => self.d().or_w(v, bit),
                };
                self.put(o, sz, r);
            }
            Asr | Lsr | Roxr | Ror => {
                let kind = match i.mn { Asr => 0, Lsr => 1, Roxr => 2, _ => 3 };
                let count = if i.op & 0x20 != 0 { let r = self.q.r[i.rx as usize]; let n = self.d().resize(r, 6, false); self.d().expand(n, 6).unwrap() } else { self.k(6, if i.rx == 0 { 8 } else { i.rx as u128 }) };
                let v = self.low(i.ry, sz);
                let r = self.shift(kind, i.dir, v, count);
                self.set_d(i.ry, sz, r);
            }
            Asm | Lsm | Roxm | Rom => {
                let kind = match i.mn { Asm => 0, Lsm => 1, Roxm => 2, _ => 3 };
                let e = self.ea_fetch(i.ea.unwrap(), 2);
                let o = self.resolve(e, 2);
                let v = self.get(o, 2);
                let one = self.k(6, 1);
                let r = self.shift(kind, i.dir, v, one);
                self.put(o, 2, r);
            }
            Swap => { let v = self.q.r[i.ry as usize]; let hi = self.d().shr(v, 16, false); let hi = self.d().resize(hi, 16, false); let lo = self.d().resize(v, 16, false); let r = self.long(lo, hi); self.set_d(i.ry, 4, r); self.logic(r); }
            Ext => { let v = self.low(i.ry, sz / 2); let r = self.d().resize(v, w, true); self.set_d(i.ry, sz, r); self.logic(r); }
            Exg => {
                let (kx, ky) = match i.op >> 3 & 0x1f { 0b01000 => (true, true), 0b01001 => (false, false), _ => (true, false) };
                let x = if kx { self.q.r[i.rx as usize] } else { self.areg(i.rx) };
                let y = if ky { self.q.r[i.ry as usize] } else { self.areg(i.ry) };
                if kx { self.set_d(i.rx, 4, y) } else { self.set_areg(i.rx, y, Rr::Dest(4)) }
                if ky { self.set_d(i.ry, 4, x) } else { self.set_areg(i.ry, x, Rr::Dest(4)) }
            }
            Lea => { let e = self.ea_fetch(i.ea.unwrap(), 4); if let Op::M(a) = self.resolve(e, 4) { self.set_areg(i.rx, a, Rr::Dest(4)); } }
            Pea => { let e = self.ea_fetch(i.ea.unwrap(), 4); if let Op::M(a) = self.resolve(e, 4) { self.push(4, a); } }
            Jmp | Jsr => {
                let e = self.ea_fetch(i.ea.unwrap(), 4);
                if let Op::M(a) = self.resolve(e, 4) { if i.mn == Jsr { let r = self.q.pc; self.push(4, r); } self.jump(a); }
            }
            Bra | Bsr | Bcc | Dbcc => {
                let base = self.q.pc;
                let disp = if i.mn == Dbcc || i.op & 0xff == 0 { let x = self.fetch(); self.d().resize(x, 32, true) } else { let b = self.k(8, (i.op & 0xff) as u128); self.d().resize(b, 32, true) };
                let to = self.d().add(base, disp);
                let next = self.q.pc;
                match i.mn {
                    Bra => self.jump(to),
                    Bsr => { self.push(4, next); self.jump(to); }
                    Bcc => { let c = self.cond(i.op >> 8 & 15); let p = self.d().wite(c, to, next); self.q.targets = Some((to, next)); self.jump(p); }
                    _ => {
                        let c = self.cond(i.op >> 8 & 15);
                        let go = self.d().not(c);
                        let n = self.low(i.ry, 2);
                        let one = self.k(16, 1);
                        let m = self.d().sub(n, one);
                        let old = self.q.r[i.ry as usize];
                        self.set_d(i.ry, 2, m);
                        let new = self.q.r[i.ry as usize];
                        self.q.r[i.ry as usize] = self.d().wite(go, new, old);
                        let ff = self.k(16, 0xffff);
                        let end = self.d().eq(m, ff);
                        let ne = self.d().not(end);
                        let taken = self.d().and(go, ne);
                        let p = self.d().wite(taken, to, next);
                        self.q.targets = Some((to, next));
                        self.jump(p);
                    }
                }
            }
            Scc => {
                let e = self.ea_fetch(i.ea.unwrap(), 1);
                let c = self.cond(i.op >> 8 & 15);
                let o = self.resolve(e, 1);
                let (a, b) = (self.k(8, 0xff), self.k(8, 0));
                let v = self.d().sel(c, a, b);
                self.put(o, 1, v);
            }
            Rts => { let a = self.pop(4); self.jump(a); }
            Rtr => { let c = self.pop(2); let a = self.pop(4); self.load_ccr(c, Fl::Restore); self.jump(a); }
            Rte => {
                self.supervisor();
                let sr = self.pop(2);
                let pc = self.pop(4);
                if self.scc {
                    let f = self.pop(2);
                    let fmt = self.d().shr(f, 12, false);
                    let ff = self.k(16, 15);
                    let long = self.d().eq(fmt, ff);
                    let short = self.d().is_zero(fmt);
                    let ok = self.d().or(long, short);
                    let bad = self.d().not(ok);
                    let a = self.q.alive;
                    let nr = self.d().and(a, bad);
                    self.q.noregs = nr;
                    self.raise(bad, 14);
                    let sp = self.areg(7);
                    let k = self.k(32, 26);
                    let n = self.d().add(sp, k);
                    let n = self.d().sel(long, n, sp);
                    self.set_areg(7, n, Rr::Stack);
                }
                self.jump(pc);
                self.load_sr(sr, Fl::Restore);
            }
            Trap => self.raise(T, 32 + (i.op & 15) as u8),
            Trapv => { let v = self.q.f[3]; self.raise(v, 7); }
            Link => {
                let x = self.fetch();
                let v = self.areg(i.ry);
                self.push(4, v);
                let sp = self.areg(7);
                self.set_areg(i.ry, sp, Rr::Dest(4));
                let x = self.d().resize(x, 32, true);
                let sp = self.areg(7);
                let n = self.d().add(sp, x);
                self.set_areg(7, n, Rr::Stack);
                if i.ry == 7 { self.q.pre = F; }
            }
            Unlk => {
                let a = self.areg(i.ry);
                self.set_areg(7, a, Rr::Stack);
                let v = self.pop(4);
                self.set_areg(i.ry, v, Rr::Dest(4));
                if i.ry == 7 { self.q.pre = F; }
            }
            Moveusp => {
                self.supervisor();
                let a = self.areg(i.ry);
                let u = self.q.r[15];
                if i.dir { self.set_areg(i.ry, u, Rr::Dest(4)); } else { self.q.r[15] = a; self.q.why[15] = Rr::Dest(4); }
            }
            Movefsr => { let e = self.ea_fetch(i.ea.unwrap(), 2); let o = self.resolve(e, 2); let v = self.sr_word(); self.put(o, 2, v); self.q.sr_op = true; }
            Moveccr => { let v = self.src(i, 2); self.load_ccr(v, Fl::Sr); }
            Movesr => { let e = self.ea_fetch(i.ea.unwrap(), 2); self.supervisor(); let o = self.resolve(e, 2); let v = self.get(o, 2); self.load_sr(v, Fl::Sr); }
            Andiccr | Eoriccr | Oriccr | Andisr | Eorisr | Orisr => {
                let x = self.fetch();
                let sr = matches!(i.mn, Andisr | Eorisr | Orisr);
                if sr { self.supervisor(); }
                let cur = self.sr_word();
                let r = match i.mn { Andiccr | Andisr => self.d().and_w(cur, x), Eoriccr | Eorisr => self.d().xor_w(cur, x), _ => self.d().or_w(cur, x) };
                if sr { self.load_sr(r, Fl::Sr) } else { self.load_ccr(r, Fl::Sr) }
            }
            Stop => { let x = self.fetch(); self.supervisor(); self.load_sr(x, Fl::Sr); self.q.stop = T; }
            Reset => { self.supervisor(); let z = self.k(32, 0); self.acc(MemK::Reset, z, None, Role::Operand); }
            Movep => {
                let x = self.fetch();
                let a = self.areg(i.ry);
                let x = self.d().resize(x, 32, true);
                let mut a = self.d().add(a, x);
                let two = self.k(32, 2);
                let n = sz as u32;
                let mut acc: Option<W> = None;
                for j in 0..n {
                    if i.dir {
                        let r = self.q.r[i.rx as usize];
                        let b = self.d().shr(r, 8 * (n - 1 - j), false);
                        let b = self.d().resize(b, 8, false);
                        self.wr(1, a, b);
                    } else {
                        let b = self.rd(1, a);
                        let b = self.d().resize(b, w, false);
                        acc = Some(match acc { None => b, Some(p) => { let s = self.d().shl(p, 8); self.d().or_w(s, b) } });
                    }
                    a = self.d().add(a, two);
                }
                if let Some(v) = acc { self.set_d(i.rx, sz, v); }
            }
            Movem => {
                let list = self.fetch();
                let ea = i.ea.unwrap();
                let e = self.ea_fetch(ea, sz);
                let step = self.k(32, sz as u128);
                let mut a = match ea.mode { 3 | 4 => self.areg(ea.reg), _ => match self.resolve(e, sz) { Op::M(a) => a, _ => unreachable!() } };
                // alignment is checked even for an empty list
                let odd = self.d().bit(a, 0);
                self.raise(odd, 3);
                self.q.aligned = true;
                let dn = ea.mode == 4;
                let init: Vec<W> = (0..16).map(|n| if n < 8 { self.q.r[n as usize] } else { self.areg(n - 8) }).collect();
                for bit in 0..16u32 {
                    let n = if dn { 15 - bit } else { bit } as u8;
                    let on = self.d().bit(list, bit);
                    let nx = if dn { self.d().sub(a, step) } else { self.d().add(a, step) };
                    let at = if dn { nx } else { a };
                    let g = on;
                    if i.dir {
                        let v = self.acc_if(g, if sz == 2 { MemK::GetWord } else { MemK::GetLong }, at, None, Role::Operand);
                        let v = self.d().resize(v, 32, true);
                        let old = if n < 8 { self.q.r[n as usize] } else { self.areg(n - 8) };
                        let nv = self.d().wite(on, v, old);
                        if n < 8 { self.set_d(n, 4, nv) } else { self.set_areg(n - 8, nv, Rr::Dest(4)) }
                    } else {
                        let v = self.d().resize(init[n as usize], w, false);
                        self.acc_if(g, if sz == 2 { MemK::SetWord } else { MemK::SetLong }, at, Some(v), Role::Operand);
                    }
                    a = self.d().wite(on, nx, a);
                }
                if ea.mode == 3 || ea.mode == 4 { self.set_areg(ea.reg, a, Rr::EaUpd); }
            }
        }
    }
    fn resolve_simple(&mut self, mode: u8, reg: u8, size: u8) -> Op { let z = self.k(32, 0); self.resolve(Eax { e: Ea { mode, reg }, x: [z; 2], at: z }, size) }
    fn src(&mut self, i: &Insn, size: u8) -> W { let e = self.ea_fetch(i.ea.unwrap(), size); let o = self.resolve(e, size); self.get(o, size) }
    fn imm(&mut self, size: u8) -> W { if size == 4 { let h = self.fetch(); let l = self.fetch(); self.long(h, l) } else { let x = self.fetch(); self.d().resize(x, size as u32 * 8, false) } }
}
