//! Exception scenarios: requests made through the public interface, followed by one interpreter step
//! of a known instruction, from an arbitrary machine state (properties C23 to C28, parts of C08, C31).
use crate::compare::*;
use crate::core::*;
use crate::dom::*;
use crate::drive::*;
use crate::exec::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const NOP: u32 = 0x4e71;
pub const RTE: u32 = 0x4e73;
pub const STOP: u32 = 0x4e72;
/// interrupt mask at the time of the step (the requests are made under the ordinary mask)
const FM2: u32 = 11;

/// The root whose path contains every given part.
pub fn root(p: &Prog, parts: &[&str]) -> Option<FnId> { p.roots.iter().find(|(k, _)| k.starts_with("fn:") && parts.iter().all(|x| k.contains(x))).map(|x| *x.1) }

/// Replace the value at a field path.
pub fn put(p: &Prog, v: &V, ty: TyId, path: &[&str], new: V) -> Option<V> {
    let V::Agg(a) = v else { return None };
    if path.is_empty() { return None; }
    let (i, t) = if let Ok(k) = path[0].parse::<usize>() { match &p.ty(ty).k { TyK::Array { elem, .. } => (k, *elem), _ => (k, fty(p, ty, k)) } } else { let i = fidx(p, ty, path[0])?; (i, fty(p, ty, i)) };
    let mut b = a.to_vec();
    b[i] = if path.len() == 1 { new } else { put(p, a.get(i)?, t, &path[1..], new)? };
    Some(V::Agg(Rc::new(b)))
}

/// Interrupt level of a vector, and whether the manual makes it an interrupt at all.
pub fn level(v: u32) -> Option<u32> { match v { 25..=31 => Some(v - 24), 57..=63 => Some(v - 56), _ => None } }
/// Vectors whose class is not fixed by the two manuals' common ground (user and uninitialised
/// interrupt vectors have no level of their own in this interface).
pub fn vague(v: u32) -> bool { matches!(v, 1 | 12..=24 | 48..=56 | 64..=255) }
/// Rank of processing: a higher rank is handled first (pushed last). None: not fixed.
fn rank(v: u32) -> Option<u32> {
    Some(match v { 3 => 100, 2 => 99, 9 => 90, 25..=31 | 57..=63 => 50 + level(v).unwrap(), 4 => 40, 8 => 39, 5 | 6 | 7 | 32..=47 => 10, _ => return None })
}

pub struct Sc { pub s: Step, pub pend: Option<BTreeMap<u32, B>>, pub mask: [B; 3], pub stop_after: B }

pub fn make_exception<'p>(ex: &mut Ex<'p>, v: u32) -> Option<V> {
    let f = root(ex.p, &["exception::Exception", "From<u8>", "::from"])?;
    let ord = ex.d.k(16, 0);
    let a = ex.kw(8, v as u128);
    Some(ex.call(f, vec![a], St { g: T, fr: vec![], ord }, 0)?.0)
}
pub fn request<'p>(ex: &mut Ex<'p>, c: &Cpu, st: St<'p>, v: u32) -> Option<St<'p>> {
    let f = *ex.p.roots.get(&format!("{}::exception", c.name))?;
    let e = make_exception(ex, v)?;
    let me = ex.obj_ptr(0);
    Some(ex.call(f, vec![me, e], st, 0)?.1)
}
pub fn pending<'p>(ex: &mut Ex<'p>, c: &Cpu, cpu: &V, g: B) -> Option<BTreeMap<u32, B>> {
    let p = ex.p;
    let i = fidx(p, c.core, "exceptions")?;
    let V::Agg(a) = cpu else { return None };
    let V::Coll(q) = &a[i] else { return None };
    let mut m = BTreeMap::new();
    for (h, e) in q.items.iter() {
        let ety = p.ty_names.get("exception::Exception").copied()?;
        let v = get(p, e, ety, &["vector"])?;
        let w = ex.w(&v);
        let w = ex.d.wrestrict(w, g);
        for (cg, l) in ex.d.cases(w) {
            let n = ex.d.lconst(l)? as u32;
            let x = ex.d.and(*h, cg);
            let x = ex.d.and(x, g);
            if x == F { continue; }
            let o = *m.get(&n).unwrap_or(&F);
            let y = ex.d.or(o, x);
            m.insert(n, y);
        }
    }
    Some(m)
}

/// Requests, then one step at a possibly different interrupt mask.
pub fn scenario<'p>(ex: &mut Ex<'p>, c: &Cpu, dis: bool, reqs: &[u32], opcode: u32, stopped: bool, remask: bool, only: Option<u32>) -> Option<Sc> {
    ex.opcode = opcode;
    ex.fetch_any = true;
    ex.events.clear();
    ex.panics.clear();
    let mut st = ex.machine(c.core, stopped);
    for v in reqs { st = request(ex, c, st, *v)?; }
    let stop_after = { let w = get(ex.p, &st.fr[0].vals[0], c.core, &["stop"])?; let w = ex.w(&w); ex.d.to_b(w) };
    let mut mask = [F; 3];
    for (i, m) in mask.iter_mut().enumerate() { *m = ex.d.var(k_flag(if remask { FM2 } else { FM } + i as u32)); }
    if remask {
        let mut bits = mask.to_vec();
        let t = get(ex.p, &st.fr[0].vals[0], c.core, &["regs", "sr", "interrupt_mask"])?;
        let t = ex.w(&t);
        bits.resize(ex.d.width(t) as usize, F);
        let l = ex.d.mk_bits(bits);
        let w = V::W(ex.d.leaf_w(l));
        let v = put(ex.p, &st.fr[0].vals[0], c.core, &["regs", "sr", "interrupt_mask"], w)?;
        Rc::make_mut(&mut st.fr[0]).vals[0] = v;
    }
    // only the states whose mask lets the given level through
    if let Some(l) = only { let um = unmasked(&mut ex.d, l, &mask); st.g = ex.d.and(st.g, um); }
    let s = run(ex, if dis { c.dis? } else { c.fast }, st, dis)?;
    let pend = pending(ex, c, &s.cpu, s.g);
    Some(Sc { s, pend, mask, stop_after })
}

/// Level above the mask, or level 7.
fn unmasked(d: &mut Dom, lv: u32, m: &[B; 3]) -> B {
    if lv == 7 { return T; }
    let mut r = F;
    for k in 0..lv {
        let mut e = T;
        for (i, b) in m.iter().enumerate() { let x = if k >> i & 1 == 1 { *b } else { d.not(*b) }; e = d.and(e, x); }
        r = d.or(r, e);
    }
    r
}
/// Everything even: the initial program counter and stack pointer, and whatever memory holds.
pub fn even(ex: &mut Ex) -> B {
    let mut r = T;
    let d = &mut ex.d;
    for w in [W_PC, W_SSP].into_iter().chain((0..40).map(|n| W_DATA + n)) { let k = d.word_bit_key(w, 0); let v = d.var(k); let n = d.not(v); r = d.and(r, n); }
    r
}

/// Byte-wise view of the accesses made under a guard.
struct Bytes { w: BTreeMap<i64, Vec<(B, W)>>, r: BTreeMap<u64, Vec<(B, W, W)>>, stray: Vec<(B, String)> }
fn bytes<'p>(ex: &mut Ex<'p>, base: W, care: B) -> Bytes {
    let mut o = Bytes { w: Default::default(), r: Default::default(), stray: vec![] };
    let evs = ex.events.clone();
    for e in &evs {
        let g = ex.d.and(e.g, care);
        if g == F { continue; }
        let EvK::Mem(k) = e.k else { continue };
        let (n, write) = match k { MemK::GetByte => (1, false), MemK::GetWord => (2, false), MemK::GetLong => (4, false), MemK::SetByte => (1, true), MemK::SetWord => (2, true), MemK::SetLong => (4, true), MemK::Reset => { o.stray.push((g, "the reset line is asserted".into())); continue } };
        let a = ex.d.wrestrict(e.a, g);
        if write {
            let delta = ex.d.sub(a, base);
            let delta = ex.d.wrestrict(delta, g);
            for (cg, l) in ex.d.cases(delta) {
                let h = ex.d.and(g, cg);
                if h == F { continue; }
                match ex.d.lconst(l) {
                    Some(x) => {
                        let x = x as u32 as i32 as i64;
                        for i in 0..n {
                            let v = ex.d.shr(e.v.unwrap(), (n - 1 - i) as u32 * 8, false);
                            let v = ex.d.resize(v, 8, false);
                            o.w.entry(x + i as i64).or_default().push((h, v));
                        }
                    }
                    None => { let s = ex.d.show(a); o.stray.push((h, format!("a write goes to {s}"))); }
                }
            }
        } else {
            for (cg, l) in ex.d.cases(a) {
                let h = ex.d.and(g, cg);
                if h == F { continue; }
                if let Some(x) = ex.d.lconst(l) {
                    let (_, data) = ex.mem_input(e.k, a, e.ord);
                    for i in 0..n {
                        let v = ex.d.resize(data, n as u32 * 8, false);
                        let v = ex.d.shr(v, (n - 1 - i) as u32 * 8, false);
                        let v = ex.d.resize(v, 8, false);
                        o.r.entry(x as u64 + i as u64).or_default().push((h, v, e.ord));
                    }
                }
            }
        }
    }
    o
}
impl Bytes {
    /// (guard under which it is written, value) of an n-byte field below the base.
    fn field(&self, ex: &mut Ex, off: i64, n: u32) -> (B, W) {
        let mut g = T;
        let mut r = ex.d.k(n * 8, 0);
        for i in 0..n {
            let mut bg = F;
            let mut bv = ex.d.k(8, 0);
            for (h, v) in self.w.get(&(off + i as i64)).map(|x| x.as_slice()).unwrap_or(&[]) { bg = ex.d.or(bg, *h); bv = ex.d.wite(*h, *v, bv); }
            g = ex.d.and(g, bg);
            let v = ex.d.resize(bv, n * 8, false);
            let v = ex.d.shl(v, (n - 1 - i) * 8);
            r = ex.d.or_w(r, v);
        }
        (g, r)
    }
    /// (guard, value, ordinal of the first byte) of a long read at a constant address.
    fn long(&self, ex: &mut Ex, at: u64) -> (B, W, W) {
        let mut g = T;
        let mut r = ex.d.k(32, 0);
        let mut ord = ex.d.k(16, 0);
        for i in 0..4 {
            let mut bg = F;
            let mut bv = ex.d.k(8, 0);
            for (h, v, o) in self.r.get(&(at + i as u64)).map(|x| x.as_slice()).unwrap_or(&[]) { bg = ex.d.or(bg, *h); bv = ex.d.wite(*h, *v, bv); if i == 0 { ord = ex.d.wite(*h, *o, ord); } }
            g = ex.d.and(g, bg);
            let v = ex.d.resize(bv, 32, false);
            let v = ex.d.shl(v, (3 - i) * 8);
            r = ex.d.or_w(r, v);
        }
        (g, r, ord)
    }
}

fn sr_word(ex: &mut Ex, m: &[B; 3]) -> W {
    let d = &mut ex.d;
    let mut b = vec![F; 16];
    b[15] = d.var(k_flag(FT)); b[13] = d.var(k_flag(FS));
    for i in 0..3 { b[8 + i] = m[i]; }
    for (i, f) in [FC, FV, FZ, FN, FX].into_iter().enumerate() { b[i] = d.var(k_flag(f)); }
    let l = d.mk_bits(b);
    d.leaf_w(l)
}
fn reg0(ex: &mut Ex, i: usize) -> W { let n = reg_paths()[i].0; let id = if i < 8 { W_D0 + i as u32 } else if i < 15 { W_A0 + i as u32 - 8 } else if i == 15 { W_USP } else { W_SSP }; ex.d.word(id, 32, n) }

/// One request from an arbitrary running state, then NOP.
pub fn entry<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, v: u32) -> Option<()> {
    let scc = c.name == "Scc68070";
    let sc = scenario(cm.ex, c, false, &[v], NOP, false, true, None)?;
    let ev = even(cm.ex);
    let lv = level(v);
    let um = match lv { Some(l) => unmasked(&mut cm.ex.d, l, &sc.mask), None => T };
    let r = cm.ex.d.and(sc.s.g, ev);
    let take = cm.ex.d.and(r, um);
    let ssp = reg0(cm.ex, 16);
    let b = bytes(cm.ex, ssp, r);
    // C26: taken exactly when unmasked, otherwise kept
    let (got, handler, _) = b.long(cm.ex, v as u64 * 4);
    let ng = cm.ex.d.not(got);
    let miss = cm.ex.d.and(take, ng);
    let held = cm.ex.d.not(um);
    let held = cm.ex.d.and(r, held);
    let (pt, pu) = if lv.is_some() { ("C26", "C26") } else { ("C26", "C23") };
    cm.never(pt, miss, &format!("not taken {v}"), &|_| "the request is not taken although the mask allows it".into(), "");
    if lv.is_none() { cm.never(pu, miss, &format!("not taken {v}"), &|_| "the exception's vector is not read".into(), ""); }
    let early = cm.ex.d.and(held, got);
    cm.never("C26", early, &format!("masked {v}"), &|_| "the request is taken although the mask holds it back".into(), "");
    match &sc.pend {
        Some(p) => {
            let pv = *p.get(&v).unwrap_or(&F);
            let np = cm.ex.d.not(pv);
            let lost = cm.ex.d.and(held, np);
            cm.never("C26", lost, &format!("masked request dropped {v}"), &|_| "a masked request does not stay pending".into(), "");
            cm.never("C25", lost, &format!("dropped {v}"), &|_| "a request that is not taken does not stay pending".into(), "");
            let twice = cm.ex.d.and(take, pv);
            cm.never("C25", twice, &format!("kept {v}"), &|_| "a request that was taken stays pending".into(), "");
            for (o, g) in p.iter().filter(|x| *x.0 != v) { let g = cm.ex.d.and(*g, r); cm.never("C25", g, &format!("invented {o}"), &|_| format!("exception {o} becomes pending although it was not requested"), ""); }
        }
        None => cm.ex.note("pending exceptions not tracked"),
    }
    // a held request has no effect: only the instruction is fetched
    for (off, l) in b.w.iter() { for (g, _) in l { let x = cm.ex.d.and(*g, held); cm.never("C26", x, "held-write", &|_| format!("a masked request writes the stack at {off}"), ""); } }
    if take == F { return Some(()); }
    // C23: the frame
    let (short, n) = if !scc { if v == 2 || v == 3 { (false, 14) } else { (true, 6) } } else if v == 2 || v == 3 { (false, 34) } else { (true, 8) };
    let _ = short;
    let pc = cm.ex.d.word(W_PC, 32, "pc");
    let sr = sr_word(cm.ex, &sc.mask);
    // (offset from the old SSP, bytes, value, name)
    let mut fields: Vec<(i64, u32, W, &str)> = vec![];
    let ir = get(cm.ex.p, &{ let st = cm.ex.machine(c.core, false); st.fr[0].vals[0].clone() }, c.core, &["current_opcode"]).map(|x| cm.ex.w(&x));
    if scc {
        fields.push((-n, 2, sr, "status register"));
        fields.push((2 - n, 4, pc, "program counter"));
        let f = cm.ex.d.k(16, if v == 2 || v == 3 { 0xf000 } else { 0 } | (v as u128 * 4 & 0xfff));
        fields.push((6 - n, 2, f, "format and vector offset"));
    } else if n == 6 { fields.push((-6, 2, sr, "status register")); fields.push((-4, 4, pc, "program counter")); }
    else {
        fields.push((-6, 2, sr, "status register")); fields.push((-4, 4, pc, "program counter"));
        if let Some(i) = ir { fields.push((-8, 2, i, "instruction register")); }
    }
    for (off, len, val, name) in &fields {
        let (g, got) = b.field(cm.ex, *off, *len);
        let ng = cm.ex.d.not(g);
        let bad = cm.ex.d.and(take, ng);
        cm.never("C23", bad, &format!("{name} not pushed"), &|_| format!("the {name} is not pushed at SSP{off}"), "");
        let ok = cm.ex.d.and(take, g);
        let val = cm.ex.d.resize(*val, *len * 8, false);
        let bad = cm.ex.d.diff(got, val, ok);
        cm.never("C23", bad, name, &|ex| { let x = ex.d.wrestrict(got, bad); let y = ex.d.wrestrict(val, bad); format!("the pushed {name} is {} instead of {}", ex.d.show(x), ex.d.show(y)) }, "");
    }
    let mut all = T;
    for off in -n..0 { let (g, _) = b.field(cm.ex, off, 1); all = cm.ex.d.and(all, g); }
    let na = cm.ex.d.not(all);
    let hole = cm.ex.d.and(take, na);
    cm.never("C23", hole, "hole", &|_| "a part of the stack frame is not written".into(), "");
    let mut out = F;
    for (off, l) in b.w.iter() { if *off < -n || *off >= 0 { for (g, _) in l { out = cm.ex.d.or(out, *g); } } }
    for (g, _) in &b.stray { out = cm.ex.d.or(out, *g); }
    let out = cm.ex.d.and(out, take);
    cm.never("C23", out, "outside", &|_| "memory outside the stack frame is written".into(), "");
    let mut other = F;
    for (a, l) in b.r.iter() { if *a < v as u64 * 4 || *a >= v as u64 * 4 + 4 { for (g, _, _) in l { other = cm.ex.d.or(other, *g); } } }
    let other = cm.ex.d.and(other, take);
    cm.never("C23", other, "other-vector", &|_| "a vector other than the exception's own is read".into(), "");
    // the state afterwards (the handler's NOP included)
    let fi = fin(cm.ex, c.core, &sc.s.cpu)?;
    let none = cm.ex.d.and(take, sc.s.exc);
    cm.never("C23", none, "reported", &|_| "the step reports an exception although the handler's first instruction completes".into(), "");
    let nn = cm.ex.d.not(sc.s.exc);
    let ok = cm.ex.d.and(take, nn);
    for i in 0..17 {
        let mut want = reg0(cm.ex, i);
        if i == 16 { let k = cm.ex.d.k(32, n as u128); want = cm.ex.d.sub(want, k); }
        let bad = cm.ex.d.diff(fi.r[i], want, ok);
        let nm = reg_paths()[i].0;
        let got = fi.r[i];
        cm.never("C23", bad, nm, &|ex| { let x = ex.d.wrestrict(got, bad); format!("{nm} becomes {} instead of {}", ex.d.show(x), ex.d.show(want)) }, "");
    }
    let two = cm.ex.d.k(32, 2);
    let npc = cm.ex.d.add(handler, two);
    let okg = cm.ex.d.and(ok, got);
    let bad = cm.ex.d.diff(fi.pc, npc, okg);
    cm.never("C23", bad, "pc", &|ex| { let x = ex.d.wrestrict(fi.pc, bad); format!("execution continues at {} - 2 instead of the vector's content", ex.d.show(x)) }, "");
    let ns = cm.ex.d.not(fi.s);
    let x = cm.ex.d.and(ns, ok);
    cm.never("C23", x, "S", &|_| "supervisor mode is not entered".into(), "");
    let x = cm.ex.d.and(fi.t, ok);
    cm.never("C23", x, "T", &|_| "tracing is not turned off".into(), "");
    let mut x = F;
    for i in 0..8 {
        let g = cm.ex.d.bit(fi.m, i);
        let w = if i >= 3 { F } else { match lv { Some(l) => (l >> i & 1) as B, None => sc.mask[i as usize] } };
        let y = cm.ex.d.xor(g, w); x = cm.ex.d.or(x, y);
    }
    let x = cm.ex.d.and(x, ok);
    if lv.is_some() || !vague(v) { cm.never("C23", x, "mask", &|_| if lv.is_some() { "the interrupt mask is not raised to the level taken".into() } else { "the interrupt mask changes".to_string() }, ""); }
    for (i, f) in [FX, FN, FZ, FV, FC].into_iter().enumerate() { let o = cm.ex.d.var(k_flag(f)); let y = cm.ex.d.xor(fi.f[i], o); let y = cm.ex.d.and(y, ok); cm.never("C23", y, FLAGS[i], &|_| format!("flag {} changes", FLAGS[i].to_uppercase()), ""); }
    let x = cm.ex.d.and(fi.stop, ok);
    cm.never("C23", x, "stop", &|_| "the core stops".into(), "");
    let cyc = sc.s.cycles;
    // C31: the entry takes time of its own
    let plain = scenario(cm.ex, c, false, &[], NOP, false, false, None)?;
    let le = cm.ex.d.le(cyc, plain.s.cycles, false);
    let x = cm.ex.d.and(le, ok);
    cm.never("C31", x, &format!("exception {v}"), &|_| format!("processing exception {v} takes no time"), "");
    takes(cm, scc, v, sc.s.cycles, plain.s.cycles, ok);
    if cm.rep.sample.is_none() { let a = cm.ex.d.wrestrict(fi.r[16], ok); let b = cm.ex.d.wrestrict(fi.pc, ok); cm.rep.sample = Some(format!("{}: ssp -> {}, pc -> {}, {} frame bytes", cm.tag, cm.ex.d.show(a), cm.ex.d.show(b), n)); }
    Some(())
}

/// C39: the step with the exception takes the manual's processing time more than the step without it.
fn takes<'p>(cm: &mut Cmp<'_, 'p>, scc: bool, v: u32, with: W, without: W, ok: B) {
    if scc || !(cm.want)("C39") { return; }
    let Some(t) = crate::time::exception(v) else { return };
    let k = cm.ex.d.k(64, t as u128);
    let want = cm.ex.d.add(without, k);
    let bad = cm.ex.d.diff(with, want, ok);
    cm.never("C39", bad, &format!("exception {v}"), &|ex| { let x = ex.d.wrestrict(with, bad); format!("processing exception {v} and one NOP takes {} cycles, the manual gives {}", ex.d.show(x), t + 4) }, "");
}

/// Exception entry followed by RTE as the handler's first instruction.
pub fn round_trip<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, v: u32) -> Option<()> {
    cm.ex.recall = true;
    let sc = scenario(cm.ex, c, false, &[v], RTE, false, true, level(v));
    cm.ex.recall = false;
    let sc = sc?;
    let ev = even(cm.ex);
    let um = match level(v) { Some(l) => unmasked(&mut cm.ex.d, l, &sc.mask), None => T };
    let r = cm.ex.d.and(sc.s.g, ev);
    let take = cm.ex.d.and(r, um);
    let x = cm.ex.d.and(take, sc.s.exc);
    cm.never("C24", x, "reported", &|_| "the return reports an exception".into(), "");
    let fi = fin(cm.ex, c.core, &sc.s.cpu)?;
    for i in 0..17 {
        let want = reg0(cm.ex, i);
        let bad = cm.ex.d.diff(fi.r[i], want, take);
        let nm = reg_paths()[i].0;
        let got = fi.r[i];
        cm.never("C24", bad, nm, &|ex| { let x = ex.d.wrestrict(got, bad); format!("after entry and return {nm} is {}", ex.d.show(x)) }, "");
    }
    let pc = cm.ex.d.word(W_PC, 32, "pc");
    let bad = cm.ex.d.diff(fi.pc, pc, take);
    cm.never("C24", bad, "pc", &|ex| { let x = ex.d.wrestrict(fi.pc, bad); format!("after entry and return the program counter is {}", ex.d.show(x)) }, "");
    for (g, k, nm) in [(fi.t, FT, "T"), (fi.s, FS, "S"), (fi.f[0], FX, "X"), (fi.f[1], FN, "N"), (fi.f[2], FZ, "Z"), (fi.f[3], FV, "V"), (fi.f[4], FC, "C")] {
        let o = cm.ex.d.var(k_flag(k));
        let y = cm.ex.d.xor(g, o);
        let y = cm.ex.d.and(y, take);
        cm.never("C24", y, nm, &|_| format!("after entry and return {nm} differs"), "");
    }
    let mut x = F;
    for i in 0..8 { let g = cm.ex.d.bit(fi.m, i); let w = if i >= 3 { F } else { sc.mask[i as usize] }; let y = cm.ex.d.xor(g, w); x = cm.ex.d.or(x, y); }
    let x = cm.ex.d.and(x, take);
    cm.never("C24", x, "mask", &|_| "after entry and return the interrupt mask differs".into(), "");
    if cm.rep.sample.is_none() { let a = cm.ex.d.wrestrict(fi.r[16], take); cm.rep.sample = Some(format!("{}: ssp -> {}", cm.tag, cm.ex.d.show(a))); }
    Some(())
}

/// Several distinct requests before one step (no reset among them).
pub fn several<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, vs: &[u32]) -> Option<()> {
    let sc = scenario(cm.ex, c, false, vs, NOP, false, true, None)?;
    let ev = even(cm.ex);
    let r = cm.ex.d.and(sc.s.g, ev);
    let ssp = reg0(cm.ex, 16);
    let b = bytes(cm.ex, ssp, r);
    let Some(pend) = sc.pend.clone() else { cm.ex.note("pending exceptions not tracked"); return None };
    let mut taken = vec![];
    for v in vs {
        let um = match level(*v) { Some(l) => unmasked(&mut cm.ex.d, l, &sc.mask), None => T };
        let (got, _, ord) = b.long(cm.ex, *v as u64 * 4);
        let got = cm.ex.d.and(got, r);
        let pv = *pend.get(v).unwrap_or(&F);
        let ng = cm.ex.d.not(got);
        let np = cm.ex.d.not(pv);
        let lost = cm.ex.d.and(ng, np);
        let lost = cm.ex.d.and(lost, r);
        cm.never("C25", lost, &format!("lost {v}"), &|_| format!("request {v} is neither taken nor pending"), "");
        let twice = cm.ex.d.and(got, pv);
        cm.never("C25", twice, &format!("twice {v}"), &|_| format!("request {v} is taken and still pending"), "");
        let nu = cm.ex.d.not(um);
        let x = cm.ex.d.and(got, nu);
        cm.never("C26", x, &format!("masked {v}"), &|_| format!("request {v} is taken although the mask holds it back"), "");
        let x = cm.ex.d.and(r, um);
        let x = cm.ex.d.and(x, ng);
        cm.never("C26", x, &format!("not taken {v}"), &|_| format!("request {v} is not taken although the mask allows it"), "");
        taken.push((*v, got, ord));
    }
    for (o, g) in pend.iter().filter(|x| !vs.contains(x.0)) { let g = cm.ex.d.and(*g, r); cm.never("C25", g, &format!("invented {o}"), &|_| format!("exception {o} becomes pending although it was not requested"), ""); }
    for (a, l) in b.r.iter() {
        if vs.iter().any(|v| *a >= *v as u64 * 4 && *a < *v as u64 * 4 + 4) { continue; }
        for (g, _, _) in l { let g = cm.ex.d.and(*g, r); cm.never("C25", g, &format!("other vector {:#x}", a & !3), &|_| format!("the vector at {:#x} is read although it was not requested", a & !3), ""); }
    }
    for i in 0..taken.len() {
        for j in 0..taken.len() {
            let ((a, ga, oa), (x, gx, ox)) = (taken[i], taken[j]);
            let (Some(ra), Some(rx)) = (rank(a), rank(x)) else { continue };
            if ra <= rx { continue; }
            let both = cm.ex.d.and(ga, gx);
            let lt = cm.ex.d.lt(oa, ox, false);
            let bad = cm.ex.d.and(both, lt);
            cm.never("C25", bad, &format!("order {a} {x}"), &|_| format!("exception {x} is stacked after exception {a} although {a} has the higher priority"), "");
        }
    }
    // the handler that runs is the one stacked last
    if let Some(fi) = fin(cm.ex, c.core, &sc.s.cpu) {
        for i in 0..taken.len() {
            let (v, g, o) = taken[i];
            let mut last = g;
            for (j, (_, h, p)) in taken.iter().enumerate() { if j != i { let lt = cm.ex.d.lt(o, *p, false); let x = cm.ex.d.and(*h, lt); let nx = cm.ex.d.not(x); last = cm.ex.d.and(last, nx); } }
            let (_, h, _) = b.long(cm.ex, v as u64 * 4);
            let two = cm.ex.d.k(32, 2);
            let want = cm.ex.d.add(h, two);
            let bad = cm.ex.d.diff(fi.pc, want, last);
            cm.never("C25", bad, &format!("handler {v}"), &|_| format!("execution does not continue in the handler of the exception {v} taken last"), "");
        }
    }
    Some(())
}

/// Reset with another request pending, from a running or stopped state.
pub fn reset<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, vs: &[u32], stopped: bool) -> Option<()> {
    let sc = scenario(cm.ex, c, false, vs, NOP, stopped, true, None)?;
    let ev = even(cm.ex);
    let r = cm.ex.d.and(sc.s.g, ev);
    let ssp = reg0(cm.ex, 16);
    let b = bytes(cm.ex, ssp, r);
    let mut w = F;
    for l in b.w.values() { for (g, _) in l { w = cm.ex.d.or(w, *g); } }
    for (g, _) in &b.stray { w = cm.ex.d.or(w, *g); }
    let w = cm.ex.d.and(w, r);
    cm.never("C28", w, "pushes", &|_| "reset writes memory".into(), "");
    for (a, l) in b.r.iter() { if *a >= 8 { for (g, _, _) in l { let g = cm.ex.d.and(*g, r); cm.never("C28", g, "other vector", &|_| format!("another vector ({:#x}) is read", a & !3), ""); } } }
    let (g0, sp, _) = b.long(cm.ex, 0);
    let (g4, pc, _) = b.long(cm.ex, 4);
    let both = cm.ex.d.and(g0, g4);
    let nb = cm.ex.d.not(both);
    let miss = cm.ex.d.and(r, nb);
    cm.never("C28", miss, "vectors", &|_| "the reset vectors are not read".into(), "");
    let ok = cm.ex.d.and(r, both);
    let x = cm.ex.d.and(ok, sc.s.exc);
    cm.never("C28", x, "reported", &|_| "the step reports an exception".into(), "");
    let ne = cm.ex.d.not(sc.s.exc);
    let ok = cm.ex.d.and(ok, ne);
    let fi = fin(cm.ex, c.core, &sc.s.cpu)?;
    for i in 0..17 {
        let want = if i == 16 { sp } else { reg0(cm.ex, i) };
        let bad = cm.ex.d.diff(fi.r[i], want, ok);
        let nm = reg_paths()[i].0;
        let got = fi.r[i];
        cm.never("C28", bad, nm, &|ex| { let x = ex.d.wrestrict(got, bad); format!("after reset {nm} is {}", ex.d.show(x)) }, "");
    }
    let two = cm.ex.d.k(32, 2);
    let npc = cm.ex.d.add(pc, two);
    let bad = cm.ex.d.diff(fi.pc, npc, ok);
    cm.never("C28", bad, "pc", &|ex| { let x = ex.d.wrestrict(fi.pc, bad); format!("after reset and one NOP the program counter is {}", ex.d.show(x)) }, "");
    let ns = cm.ex.d.not(fi.s);
    for (g, nm) in [(ns, "supervisor mode is not entered"), (fi.t, "tracing stays on"), (fi.stop, "the core stays stopped")] { let x = cm.ex.d.and(g, ok); cm.never("C28", x, nm, &|_| nm.into(), ""); }
    let mut x = F;
    for i in 0..8 { let g = cm.ex.d.bit(fi.m, i); let y = cm.ex.d.xor(g, (i < 3) as B); x = cm.ex.d.or(x, y); }
    let x = cm.ex.d.and(x, ok);
    cm.never("C28", x, "mask", &|_| "the interrupt mask is not 7".into(), "");
    match &sc.pend {
        Some(p) => { let mut any = F; for g in p.values() { any = cm.ex.d.or(any, *g); } let x = cm.ex.d.and(any, r); cm.never("C28", x, "pending", &|_| "a request survives reset".into(), ""); }
        None => cm.ex.note("pending exceptions not tracked"),
    }
    let plain = scenario(cm.ex, c, false, &[], NOP, false, false, None)?;
    let le = cm.ex.d.le(sc.s.cycles, plain.s.cycles, false);
    let x = cm.ex.d.and(le, ok);
    cm.never("C31", x, "reset", &|_| "reset takes no time".into(), "");
    takes(cm, c.name == "Scc68070", 0, sc.s.cycles, plain.s.cycles, ok);
    Some(())
}

/// A stopped core: nothing happens, and only the defined requests wake it.
pub fn stopped<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, dis: bool, v: Option<u32>) -> Option<()> {
    let reqs: Vec<u32> = v.into_iter().collect();
    let sc = scenario(cm.ex, c, dis, &reqs, NOP, true, false, None)?;
    let wake = match v { None => F, Some(0 | 9) => T, Some(v) => match level(v) { Some(l) => unmasked(&mut cm.ex.d, l, &sc.mask), None => F } };
    if let Some(v) = v { if !vague(v) {
        let nw = cm.ex.d.not(wake);
        let ns = cm.ex.d.not(sc.stop_after);
        let x = cm.ex.d.and(nw, ns);
        cm.never("C27", x, &format!("woken {v}"), &|_| format!("requesting exception {v} ends the stopped state"), "");
        let x = cm.ex.d.and(wake, sc.stop_after);
        cm.never("C27", x, &format!("asleep {v}"), &|_| format!("requesting exception {v} does not end the stopped state"), "");
    } }
    // while stopped nothing happens
    let idle = cm.ex.d.and(sc.s.g, sc.stop_after);
    let evs = cm.ex.events.clone();
    let mut acc = F;
    for e in &evs { let g = cm.ex.d.and(e.g, idle); acc = cm.ex.d.or(acc, g); }
    cm.never("C27", acc, "access", &|_| "a stopped core accesses memory".into(), "");
    let x = cm.ex.d.and(idle, sc.s.exc);
    cm.never("C27", x, "reported", &|_| "a stopped core reports an exception".into(), "");
    let fi = fin(cm.ex, c.core, &sc.s.cpu)?;
    for i in 0..17 { let o = reg0(cm.ex, i); let bad = cm.ex.d.diff(fi.r[i], o, idle); cm.never("C27", bad, reg_paths()[i].0, &|_| format!("a stopped core changes {}", reg_paths()[i].0), ""); }
    let pc = cm.ex.d.word(W_PC, 32, "pc");
    let bad = cm.ex.d.diff(fi.pc, pc, idle);
    cm.never("C27", bad, "pc", &|_| "a stopped core changes the program counter".into(), "");
    let mut x = F;
    for (g, k) in [(fi.t, FT), (fi.s, FS), (fi.f[0], FX), (fi.f[1], FN), (fi.f[2], FZ), (fi.f[3], FV), (fi.f[4], FC)] { let o = cm.ex.d.var(k_flag(k)); let y = cm.ex.d.xor(g, o); x = cm.ex.d.or(x, y); }
    for i in 0..8 { let g = cm.ex.d.bit(fi.m, i); let w = if i >= 3 { F } else { sc.mask[i as usize] }; let y = cm.ex.d.xor(g, w); x = cm.ex.d.or(x, y); }
    let x = cm.ex.d.and(x, idle);
    cm.never("C27", x, "sr", &|_| "a stopped core changes the status register".into(), "");
    let ns = cm.ex.d.not(fi.stop);
    let x = cm.ex.d.and(idle, ns);
    cm.never("C27", x, "resumes", &|_| "a stopped core resumes without a request".into(), "");
    if let (Some(v), Some(p)) = (v, &sc.pend) { let pv = *p.get(&v).unwrap_or(&F); let np = cm.ex.d.not(pv); let x = cm.ex.d.and(idle, np); cm.never("C25", x, &format!("dropped while stopped {v}"), &|_| format!("request {v} is lost while stopped"), ""); }
    // once woken the step runs: it fetches or processes something
    let awake = cm.ex.d.not(sc.stop_after);
    let ran = cm.ex.d.and(sc.s.g, awake);
    let evn = even(cm.ex);
    let ran = cm.ex.d.and(ran, evn);
    let mut some = F;
    for e in &evs { some = cm.ex.d.or(some, e.g); }
    let nso = cm.ex.d.not(some);
    let x = cm.ex.d.and(ran, nso);
    cm.never("C27", x, "inert", &|_| "a woken core does nothing".into(), "");
    Some(())
}

/// STOP while an interrupt request is pending.
pub fn stop_pending<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, dis: bool, v: u32) -> Option<()> {
    let lv = level(v)?;
    let sc = scenario(cm.ex, c, dis, &[v], STOP, false, true, None)?;
    let ev = even(cm.ex);
    let r = cm.ex.d.and(sc.s.g, ev);
    let um = unmasked(&mut cm.ex.d, lv, &sc.mask);
    let held = cm.ex.d.not(um);
    let held = cm.ex.d.and(r, held);
    let ne = cm.ex.d.not(sc.s.exc);
    let held = cm.ex.d.and(held, ne);
    if held == F { return Some(()); }
    let fi = fin(cm.ex, c.core, &sc.s.cpu)?;
    let m: [B; 3] = [0, 1, 2].map(|i| cm.ex.d.bit(fi.m, i));
    let now = unmasked(&mut cm.ex.d, lv, &m);
    let pv = sc.pend.as_ref().map(|p| *p.get(&v).unwrap_or(&F)).unwrap_or(F);
    let x = cm.ex.d.and(held, now);
    let y = cm.ex.d.and(x, fi.stop);
    let y = cm.ex.d.and(y, pv);
    cm.never("C27", y, &format!("sleeps {v}"), &|_| format!("STOP lowers the mask below the pending interrupt {v} and the core stays stopped"), "");
    let nn = cm.ex.d.not(now);
    let ns = cm.ex.d.not(fi.stop);
    let s = cm.ex.d.var(k_flag(FS));
    let x = cm.ex.d.and(held, nn);
    let x = cm.ex.d.and(x, ns);
    let x = cm.ex.d.and(x, s);
    cm.never("C27", x, &format!("does not stop {v}"), &|_| format!("STOP does not stop while the masked interrupt {v} is pending"), "");
    if sc.pend.is_some() { let np = cm.ex.d.not(pv); let x = cm.ex.d.and(held, np); cm.never("C26", x, &format!("masked request dropped {v}"), &|_| "a masked request does not stay pending".into(), ""); }
    Some(())
}

/// The two constructors.
pub fn construct<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, reset: bool) -> Option<()> {
    let name = if reset { "new" } else { "new_no_reset" };
    let f = *cm.ex.p.roots.get(&format!("{}::{name}", c.name))?;
    let ord = cm.ex.d.k(16, 0);
    let (v, _) = cm.ex.call(f, vec![], St { g: T, fr: vec![], ord }, 0)?;
    let fi = fin(cm.ex, c.core, &v)?;
    let z = cm.ex.d.k(32, 0);
    for i in 0..17 { let bad = cm.ex.d.diff(fi.r[i], z, T); cm.never("C28", bad, reg_paths()[i].0, &|_| format!("a new core has a non-zero {}", reg_paths()[i].0), ""); }
    let bad = cm.ex.d.diff(fi.pc, z, T);
    cm.never("C28", bad, "pc", &|_| "a new core has a non-zero program counter".into(), "");
    let ns = cm.ex.d.not(fi.s);
    let mut x = cm.ex.d.or(ns, fi.t);
    for b in fi.f { x = cm.ex.d.or(x, b); }
    for i in 0..8 { let g = cm.ex.d.bit(fi.m, i); let y = cm.ex.d.xor(g, (i < 3) as B); x = cm.ex.d.or(x, y); }
    cm.never("C28", x, "sr", &|_| "the status register of a new core is not 0x2700".into(), "");
    cm.never("C28", fi.stop, "stop", &|_| "a new core is stopped".into(), "");
    match pending(cm.ex, c, &v, T) {
        Some(p) => {
            let r = *p.get(&0).unwrap_or(&F);
            if reset { let nr = cm.ex.d.not(r); cm.never("C28", nr, "no reset", &|_| "a new core has no reset pending".into(), ""); } else { cm.never("C28", r, "reset", &|_| "a core created without reset has a reset pending".into(), ""); }
            for (o, g) in p.iter().filter(|x| *x.0 != 0) { cm.never("C28", *g, "pending", &|_| format!("a new core has exception {o} pending"), ""); }
        }
        None => cm.ex.note("pending exceptions not tracked"),
    }
    Some(())
}

#[derive(Clone, Debug)]
pub enum Job { Entry(u32), Round(u32), Several(Vec<u32>), Reset(Vec<u32>, bool), Stopped(bool, Option<u32>), StopPending(bool, u32), New(bool), Paths(Vec<u32>, u32, bool) }

pub fn drive<'p>(p: &'p Prog, cs: &[Cpu], jobs: Vec<Job>, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let mut js: Vec<(usize, Job)> = vec![];
    for c in 0..cs.len() { for j in &jobs { js.push((c, j.clone())); } }
    shuffle(&mut js);
    par(p, &js, &|ex, (c, j), rep| {
        ex.accept = !matches!(j, Job::Paths(..));
        ex.opcode = 0x10000;
        let w = |x: &str| want(x);
        let c = &cs[*c];
        let mut cm = Cmp { ex, rep, tag: format!("{} {j:?}", c.name), want: &w };
        let r = match j {
            Job::Entry(v) => entry(&mut cm, c, *v),
            Job::Round(v) => round_trip(&mut cm, c, *v),
            Job::Several(v) => several(&mut cm, c, v),
            Job::Reset(v, s) => reset(&mut cm, c, v, *s),
            Job::Stopped(d, v) => stopped(&mut cm, c, *d, *v),
            Job::StopPending(d, v) => stop_pending(&mut cm, c, *d, *v),
            Job::New(r) => construct(&mut cm, c, *r),
            Job::Paths(v, op, s) => both_paths(&mut cm, c, v, *op, *s),
        };
        ex.fetch_any = false;
        ex.recall = false;
        if r.is_none() { rep.finds.push(Finding { prop: "*", out: Out::Unknown, what: format!("{} {j:?} has no outcome", c.name), key: "no outcome".into(), witness: String::new(), site: String::new() }); }
        match j { Job::Entry(_) => "entry", Job::Round(_) => "round trip", Job::Several(_) => "several", Job::Reset(..) => "reset", Job::Stopped(..) => "stopped", Job::StopPending(..) => "stop", Job::New(_) => "new", Job::Paths(..) => "paths" }.to_string()
    })
}
/// C08 with pending requests or in the stopped state.
fn both_paths<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, vs: &[u32], op: u32, stopped: bool) -> Option<()> {
    let mut one = |cm: &mut Cmp<'_, 'p>, dis: bool| -> Option<Ran> {
        let sc = scenario(cm.ex, c, dis, vs, op, stopped, true, None)?;
        let mut pan = F;
        for p in cm.ex.panics.clone() { pan = cm.ex.d.or(pan, p.g); }
        Some(Ran { st: sc.s, ev: cm.ex.events.clone(), pan })
    };
    let a = one(cm, false)?;
    let b = one(cm, true)?;
    check_paths(cm, c, &a, &b, "C08");
    Some(())
}
