//! Comparison of one analysed interpreter step with the reference semantics, and the rules that
//! need no reference.
use crate::core::*;
use crate::dom::*;
use crate::exec::*;
use crate::ir::MemK;
use crate::isa::*;
use crate::spec::*;
use std::collections::BTreeMap;

/// Classification of one decided or undecided obligation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out { Holds, Broken, Unknown }

#[derive(Clone, Debug)]
pub struct Finding { pub prop: &'static str, pub out: Out, pub what: String, pub key: String, pub witness: String, pub site: String }

#[derive(Default)]
pub struct Report { pub held: BTreeMap<&'static str, u64>, pub finds: Vec<Finding>, pub sample: Option<String> }
impl Report {
    pub fn ok(&mut self, p: &'static str) { *self.held.entry(p).or_default() += 1; }
}

/// Accesses of one ordinal: guard, and per kind guard, address, value.
#[derive(Clone)]
pub struct Slot { pub g: B, pub k: Vec<(EvK, B)>, pub a: Option<W>, pub v: Option<W>, pub who: Vec<(B, Role, usize)> }
pub fn slots(d: &mut Dom, ev: &[(EvK, B, W, W, Option<W>, Role)], n: usize) -> Vec<Slot> {
    let mut out = vec![];
    for i in 0..n {
        let mut s = Slot { g: F, k: vec![], a: None, v: None, who: vec![] };
        for (ix, (k, g, ord, a, v, r)) in ev.iter().enumerate() {
            let c = d.k(16, i as u128);
            let e = d.eq(*ord, c);
            let h = d.and(*g, e);
            if h == F { continue; }
            s.g = d.or(s.g, h);
            match s.k.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 = d.or(x.1, h), None => s.k.push((*k, h)) }
            s.a = Some(match s.a { None => *a, Some(o) => d.wite(h, *a, o) });
            if let Some(v) = v { let v = d.resize(*v, 32, false); s.v = Some(match s.v { None => v, Some(o) => d.wite(h, v, o) }); }
            s.who.push((h, *r, ix));
        }
        out.push(s);
    }
    out
}
pub fn max_ord(d: &mut Dom, ev: &[(EvK, B, W, W, Option<W>, Role)]) -> usize {
    let mut m = 0;
    for e in ev { for l in d.leafset(e.2) { if let Some(c) = d.lconst(l) { m = m.max(c as usize + 1); } } }
    m.min(64)
}
pub fn is_write(k: EvK) -> bool { matches!(k, EvK::Mem(MemK::SetByte | MemK::SetWord | MemK::SetLong)) }

/// The property a wrong destination value belongs to.
pub fn value_class(m: Mn) -> &'static str {
    use Mn::*;
    match m {
        Move | Movea | Movem | Movep | Moveq | Exg | Swap | Ext | Lea | Pea | Clr | Link | Unlk | Moveusp => "C15",
        Add | Adda | Addi | Addq | Addx | Sub | Suba | Subi | Subq | Subx | Neg | Negx | Mulu | Muls | Cmp | Cmpa | Cmpi | Cmpm | Tst | Chk => "C16",
        And | Andi | Or | Ori | Eor | Eori | Not | Tas | Btst | Bchg | Bclr | Bset => "C17",
        Asm | Asr | Lsm | Lsr | Rom | Ror | Roxm | Roxr => "C18",
        Divu | Divs => "C19",
        Abcd | Sbcd | Nbcd => "C20",
        Scc | Bcc | Dbcc => "C14",
        Bra | Bsr | Jmp | Jsr | Rts | Rtr => "C21",
        Rte => "C24",
        Stop => "C27",
        Movefsr | Moveccr | Movesr | Andiccr | Andisr | Eoriccr | Eorisr | Oriccr | Orisr => "C30",
        _ => "C10",
    }
}

pub struct Cmp<'a, 'p> { pub ex: &'a mut Ex<'p>, pub rep: &'a mut Report, pub tag: String, pub want: &'a dyn Fn(&str) -> bool }
impl<'a, 'p> Cmp<'a, 'p> {
    /// The obligation "bad is impossible" for property p.
    pub fn never(&mut self, p: &'static str, bad: B, key: &str, what: &dyn Fn(&mut Ex<'p>) -> String, site: &str) -> bool {
        if !(self.want)(p) { return bad == F; }
        if bad == F { self.rep.ok(p); return true; }
        let tries = if self.rep.finds.iter().filter(|f| f.out == Out::Unknown).count() > 50 { 4 } else { 64 };
        // what the analysis does not know may not be what breaks it
        let sure = self.ex.d.certain(bad);
        let w = if sure == F { None } else { self.ex.d.witness(sure, tries) };
        let (out, wit) = match &w { Some(v) => (Out::Broken, self.show_val(v)), None => (Out::Unknown, self.ex.d.show_b(bad)) };
        let what = what(self.ex);
        self.rep.finds.push(Finding { prop: p, out, what: format!("{}: {what}", self.tag), key: key.to_string(), witness: wit, site: site.to_string() });
        false
    }
    /// The same obligation for every property whose statement covers it.
    pub fn never_all(&mut self, ps: &[&'static str], bad: B, key: &str, what: &dyn Fn(&mut Ex<'p>) -> String, site: &str) {
        for (i, p) in ps.iter().enumerate() { if !ps[..i].contains(p) { self.never(p, bad, key, what, site); } }
    }
    fn show_val(&self, v: &Val) -> String {
        let d = &self.ex.d;
        let mut words: BTreeMap<String, u128> = Default::default();
        let mut flags: BTreeMap<String, bool> = Default::default();
        for (k, b) in v.m.iter() {
            let n = d.key_name(*k);
            if n.starts_with("atom") || n.contains('#') && !n.starts_with("mem#") { continue; }
            match n.find('[') {
                Some(i) => { let bit: u32 = n[i + 1..n.len() - 1].parse().unwrap_or(0); *words.entry(n[..i].to_string()).or_default() |= (*b as u128) << bit; }
                None => { flags.insert(n, *b); }
            }
        }
        let mut s: Vec<String> = words.iter().map(|(n, v)| format!("{n}={v:#x}")).collect();
        s.extend(flags.iter().map(|(n, b)| format!("{n}={}", *b as u8)));
        s.join(" ")
    }
    pub fn site_of(&self, site: &Site) -> String {
        let p = self.ex.p;
        // innermost frame of the analysed crate
        for (f, l) in site.iter().rev() { let fu = &p.fns[*f as usize]; if fu.local_crate { return format!("{} ({}:{})", fu.path, p.files[fu.file as usize], l); } }
        site.last().map(|(f, l)| format!("{} :{}", p.fns[*f as usize].path, l)).unwrap_or_default()
    }
}

/// Impl events in the form shared with the reference.
pub fn impl_events(ex: &mut Ex, r: B) -> Vec<(EvK, B, W, W, Option<W>, Role)> {
    let evs = ex.events.clone();
    let mut v = vec![];
    for e in &evs { let g = ex.d.and(e.g, r); if g != F { v.push((e.k, g, e.ord, e.a, e.v, Role::Operand)); } else { v.push((e.k, F, e.ord, e.a, e.v, Role::Operand)); } }
    v
}

pub fn reg_paths() -> Vec<(&'static str, Vec<&'static str>)> {
    let n = ["0", "1", "2", "3", "4", "5", "6", "7"];
    let mut v: Vec<(&str, Vec<&str>)> = vec![];
    for i in 0..8 { v.push((["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"][i], vec!["regs", "d", n[i]])); }
    for i in 0..7 { v.push((["a0", "a1", "a2", "a3", "a4", "a5", "a6"][i], vec!["regs", "a", n[i]])); }
    v.push(("usp", vec!["regs", "usp"]));
    v.push(("ssp", vec!["regs", "ssp"]));
    v
}

/// Final machine state in comparable form.
pub struct Fin { pub r: Vec<W>, pub pc: W, pub t: B, pub s: B, pub m: W, pub f: [B; 5], pub stop: B }
pub fn fin(ex: &mut Ex, core: u32, cpu: &V) -> Option<Fin> {
    let p = ex.p;
    let mut g = |ex: &mut Ex, path: &[&str]| -> Option<W> { let v = get(p, cpu, core, path)?; Some(ex.w(&v)) };
    let mut r = vec![];
    for (_, path) in reg_paths() { r.push(g(ex, &path)?); }
    let pc = g(ex, &["regs", "pc"])?;
    let m = g(ex, &["regs", "sr", "interrupt_mask"])?;
    let mut b = vec![];
    for n in ["t", "s", "x", "n", "z", "v", "c"] { let w = g(ex, &["regs", "sr", n])?; b.push(ex.d.to_b(w)); }
    let st = g(ex, &["stop"])?;
    let stop = ex.d.to_b(st);
    Some(Fin { r, pc, t: b[0], s: b[1], m, f: [b[2], b[3], b[4], b[5], b[6]], stop })
}

/// Reported vector as guard per vector: (some, vec) -> list.
pub fn exc_cases(ex: &mut Ex, r: B, exc: B, vec: W) -> Vec<(B, Option<u32>)> {
    let g = ex.d.and(r, exc);
    let vec = ex.d.wrestrict(vec, g);
    let mut v = vec![];
    for (c, l) in ex.d.cases(vec) { let h = ex.d.and(g, c); if h != F { v.push((h, ex.d.lconst(l).map(|x| x as u32))); } }
    v
}

/// Compare an analysed step with the manual and evaluate all per-instruction rules.
pub fn check_step<'p>(cm: &mut Cmp<'_, 'p>, core: u32, scc: bool, op: u16, st: &Step) {
    let r = st.g;
    let ins = decode(op);
    let ev = impl_events(cm.ex, r);
    let Some(fi) = fin(cm.ex, core, &st.cpu) else { cm.ex.note("machine state not found"); return };
    let n = { let a = max_ord(&mut cm.ex.d, &ev); a };
    let isl = slots(&mut cm.ex.d, &ev, n);
    let ecs = exc_cases(cm.ex, r, st.exc, st.vec);

    if cm.rep.sample.is_none() {
        let mut t = format!("{}: ", cm.tag);
        for sl in isl.iter().take(6) { if let (Some(k), Some(a)) = (sl.k.first(), sl.a) { t.push_str(&format!("{:?} at {}; ", k.0, cm.ex.d.show(a).chars().take(60).collect::<String>())); } }
        t.push_str(&format!("pc -> {}", cm.ex.d.show(fi.pc).chars().take(80).collect::<String>()));
        cm.rep.sample = Some(t);
    }
    // ---- rules without a reference
    // C02: no word or long access reaches the memory at an odd address
    for (ix, e) in ev.iter().enumerate() {
        if matches!(e.0, EvK::Mem(MemK::GetWord | MemK::GetLong | MemK::SetWord | MemK::SetLong)) {
            let odd = cm.ex.d.bit(e.3, 0);
            let bad = cm.ex.d.and(e.1, odd);
            let site = cm.ex.events[ix].site.clone();
            let s = cm.site_of(&site);
            cm.never("C02", bad, "odd-access", &|_| format!("{:?} reaches the memory at an odd address", e.0), &s);
        }
    }
    // C03: the first refusal is the last access and is reported
    let mut v2 = F;
    for (g, v) in &ecs { if *v == Some(2) { v2 = cm.ex.d.or(v2, *g); } if v.is_none() { let u = cm.ex.d.fresh_bool("vector"); let h = cm.ex.d.and(*g, u); v2 = cm.ex.d.or(v2, h); } }
    let nv2 = if cm.ex.accept { F } else { cm.ex.d.not(v2) };
    let mut any = F;
    for i in 0..n {
        let mut acc = F;
        for (k, g) in &isl[i].k { if *k != EvK::Mem(MemK::Reset) { acc = cm.ex.d.or(acc, *g); } }
        let ok = if cm.ex.accept { T } else { cm.ex.d.var(k_ok(i as u32)) };
        let nok = cm.ex.d.not(ok);
        let refused = cm.ex.d.and(acc, nok);
        any = cm.ex.d.or(any, refused);
        let site = isl[i].who.first().map(|w| cm.ex.events[w.2].site.clone()).unwrap_or_default();
        let s = cm.site_of(&site);
        let bad = cm.ex.d.and(refused, nv2);
        cm.never("C03", bad, "refusal-not-reported", &|_| format!("a refusal of access #{i} is not reported as an access error"), &s);
        if i + 1 < n {
            let bad = cm.ex.d.and(refused, isl[i + 1].g);
            cm.never("C03", bad, "access-after-refusal", &|_| format!("an access follows the refused access #{i}"), &s);
        }
    }
    let nany = cm.ex.d.not(any);
    let bad = cm.ex.d.and(v2, nany);
    cm.never("C03", bad, "report-without-refusal", &|_| "an access error is reported without a refused access".into(), "");
    // C05: unbounded loops
    let ub = cm.ex.unbounded.clone();
    if ub.is_empty() { cm.rep.ok("C05"); }
    for (site, g) in &ub { let s = cm.site_of(site); cm.never("C05", *g, "unbounded", &|_| "a loop does not end".into(), &s); }
    // C01: user mode never gains privilege
    {
        let d = &mut cm.ex.d;
        let s0 = d.var(k_flag(FS));
        let t0 = d.var(k_flag(FT));
        let user = d.not(s0);
        let user = d.and(user, r);
        let mut bad_s = d.xor(fi.s, s0); bad_s = d.and(bad_s, user);
        let mut bad_t = d.xor(fi.t, t0); bad_t = d.and(bad_t, user);
        let mut bad_m = F;
        for i in 0..3 { let b = d.bit(fi.m, i); let m = d.var(k_flag(FM + i)); let x = d.xor(b, m); bad_m = d.or(bad_m, x); }
        bad_m = d.and(bad_m, user);
        let ssp = d.word(W_SSP, 32, "ssp");
        let bad_p = d.diff(fi.r[16], ssp, user);
        for (b, nm) in [(bad_s, "supervisor bit"), (bad_t, "trace bit"), (bad_m, "interrupt mask"), (bad_p, "supervisor stack pointer")] {
            cm.never("C01", b, nm, &|_| format!("in user mode the instruction changes the {nm}"), "");
        }
    }
    // C31: completed instructions take time
    {
        let z = cm.ex.d.is_zero(st.cycles);
        let mut done = r;
        for (g, v) in &ecs { if *v != Some(9) { let ng = cm.ex.d.not(*g); done = cm.ex.d.and(done, ng); } }
        let bad = cm.ex.d.and(z, done);
        cm.never("C31", bad, "zero-cycles", &|_| "completes in zero cycles".into(), "");
        // C39: ... as much as the manual's tables give
        if let (Some(i), false) = (ins, scc) { if (cm.want)("C39") {
            let t = { let mut sp = Sp::new(cm.ex, scc); crate::time::instruction(&mut sp, &i) };
            let d = &mut cm.ex.d;
            let want = match t {
                crate::time::Time::Const(n) => d.k(64, n as u128),
                crate::time::Time::If(g, a, b) => { let (a, b) = (d.k(64, a as u128), d.k(64, b as u128)); d.wite(g, a, b) }
                crate::time::Time::Plus(a, k, w) => { let x = (0..k).fold(d.k(64, a as u128), |x, _| d.add(x, w)); x }
            };
            let bad = cm.ex.d.diff(st.cycles, want, done);
            let got = st.cycles;
            cm.never("C39", bad, "time", &|ex| { let (x, y) = (ex.d.wrestrict(got, bad), ex.d.wrestrict(want, bad)); format!("takes {} cycles, the manual gives {}", ex.d.show(x), ex.d.show(y)) }, "");
        } }
    }

    // ---- the manual
    let mut sp = Sp::new(cm.ex, scc);
    sp.step(op);
    let mut q = sp.q;
    // C04: panics; those that follow a refused extension-word fetch are told apart
    {
        let mut ext = F;
        for e in q.ev.clone() { if e.role == Role::Ext && !cm.ex.accept { let o = cm.ex.d.pred1(e.ord, &mut |d, l| match d.lconst(l) { Some(n) => d.var(k_ok(n as u32)), None => T }); let no = cm.ex.d.not(o); let x = cm.ex.d.and(e.g, no); ext = cm.ex.d.or(ext, x); } }
        let next = cm.ex.d.not(ext);
        let pans = cm.ex.panics.clone();
        if pans.is_empty() { cm.rep.ok("C04"); }
        for p in &pans {
            let s = cm.site_of(&p.site);
            let fnm = p.site.iter().rev().map(|(f, _)| &cm.ex.p.fns[*f as usize]).find(|f| f.local_crate).map(|f| f.path.clone()).unwrap_or_default();
            let msg: String = p.msg.clone();
            let a = cm.ex.d.and(p.g, ext);
            cm.never("C04", a, "refused extension word", &|_| format!("panics when an extension word cannot be fetched: {msg}"), &s);
            let b = cm.ex.d.and(p.g, next);
            cm.never("C04", b, &format!("{fnm}: {msg}"), &|_| format!("panics: {msg}"), &s);
        }
    }
    let sev: Vec<_> = q.ev.iter().map(|e| { (e.k, e.g, e.ord, e.a, e.v, e.role) }).collect();
    let sev: Vec<_> = sev.into_iter().map(|mut e| { e.1 = cm.ex.d.and(e.1, r); e }).collect();
    let m = max_ord(&mut cm.ex.d, &sev).max(n);
    let isl = slots(&mut cm.ex.d, &ev, m);
    let ssl = slots(&mut cm.ex.d, &sev, m);
    let mn = ins.map(|i| i.mn);
    let priv_ = mn.map(privileged).unwrap_or(false);
    let vc = mn.map(value_class).unwrap_or("C10");
    let stackp = match mn { Some(Mn::Rte) => "C24", Some(Mn::Bsr | Mn::Jsr | Mn::Rts | Mn::Rtr) => "C21", _ => "C15" };
    let s0 = cm.ex.d.var(k_flag(FS));
    let user = cm.ex.d.not(s0);
    let mut agree = cm.ex.d.and(r, q.pre);
    for i in 0..m {
        let (a, b) = (isl[i].clone(), ssl[i].clone());
        let site = a.who.first().map(|w| cm.ex.events[w.2].site.clone()).unwrap_or_default();
        let s = cm.site_of(&site);
        // presence
        let nb = cm.ex.d.not(b.g);
        let extra = cm.ex.d.and(a.g, nb);
        let extra = cm.ex.d.and(extra, agree);
        let na = cm.ex.d.not(a.g);
        let missing = cm.ex.d.and(b.g, na);
        let missing = cm.ex.d.and(missing, agree);
        if extra == F { cm.rep.ok("C05"); cm.rep.ok("C10"); } else {
            let mut wr = F;
            for (k, g) in &a.k { if is_write(*k) { wr = cm.ex.d.or(wr, *g); } }
            let w = cm.ex.d.and(extra, wr);
            // accesses past an address error
            let mut odd = F;
            for (g, v) in q.exc.clone() { if v == 3 { let h = cm.ex.d.and(g, extra); odd = cm.ex.d.or(odd, h); } }
            cm.never("C02", odd, "access-after-address-error", &|_| format!("access #{i} follows an address error"), &s);
            // accesses past a refusal or an odd address belong to C02/C03
            let mut clean = extra;
            for (g, v) in q.exc.clone() { if v == 2 || v == 3 { let ng = cm.ex.d.not(g); clean = cm.ex.d.and(clean, ng); } }
            if priv_ { let u = cm.ex.d.and(clean, user); cm.never("C01", u, "privileged-access", &|_| format!("access #{i} is made in user mode"), &s); let nu = cm.ex.d.not(user); clean = cm.ex.d.and(clean, nu); }
            cm.never("C05", clean, "extra-access", &|_| format!("access #{i} is not one the manual defines"), &s);
            // a word of the instruction stream that the encoding does not have
            let pc0 = cm.ex.d.word(W_PC, 32, "pc");
            if let Some(ia) = a.a { for k in 1..6 { let kk = cm.ex.d.k(32, 2 * k); let x = cm.ex.d.add(pc0, kk); let off = cm.ex.d.diff(ia, x, clean); if clean != F && off == F { cm.never("C07", clean, "extra-word", &|_| format!("access #{i} reads a word that is not part of the instruction"), &s); break; } } }
            let w = cm.ex.d.and(w, clean);
            if w != F { cm.never("C10", w, "extra-write", &|_| format!("write access #{i} is not one the manual defines"), &s); }
        }
        if missing != F {
            let roles: Vec<Role> = b.who.iter().map(|w| w.1).collect();
            let p = if roles.iter().any(|r| matches!(r, Role::Opcode | Role::Ext)) { "C07" } else if roles.contains(&Role::Stack) { stackp } else { vc };
            // a missing access because of another reported exception is reported there
            let mut own = missing;
            for (g, _) in &ecs { let ng = cm.ex.d.not(*g); own = cm.ex.d.and(own, ng); }
            cm.never(p, own, "missing-access", &|_| format!("access #{i} required by the manual is not made"), &s);
        }
        let both = cm.ex.d.and(a.g, b.g);
        let both = cm.ex.d.and(both, agree);
        if both != F {
            // kind
            let mut bad = F;
            for (k, g) in &a.k { let sg = b.k.iter().find(|x| x.0 == *k).map(|x| x.1).unwrap_or(F); let ns = cm.ex.d.not(sg); let x = cm.ex.d.and(*g, ns); bad = cm.ex.d.or(bad, x); }
            let bad = cm.ex.d.and(bad, both);
            let ak: Vec<_> = a.k.iter().map(|x| x.0).collect();
            let bk: Vec<_> = b.k.iter().map(|x| x.0).collect();
            let roles: Vec<(B, Role)> = b.who.iter().map(|w| (w.0, w.1)).collect();
            let isx = roles.iter().any(|r| matches!(r.1, Role::Opcode | Role::Ext));
            let pk = if isx { "C07" } else if roles.iter().any(|r| r.1 == Role::Stack) { stackp } else { vc };
            cm.never(pk, bad, "kind", &|_| format!("access #{i} is {ak:?}, the manual defines {bk:?}"), &s);
            if bad != F && pk != "C10" { let mut w = F; for (k, g) in &a.k { if is_write(*k) { w = cm.ex.d.or(w, *g); } } let w = cm.ex.d.and(w, bad); cm.never("C10", w, "wrong-write", &|_| format!("access #{i} is {ak:?}, the manual defines {bk:?}"), &s); }
            // address
            let (ia, sa) = (a.a.unwrap(), b.a.unwrap());
            let bada = cm.ex.d.diff(ia, sa, both);
            let pa = if isx { "C07" } else if roles.iter().any(|r| r.1 == Role::Stack) { stackp } else { match mn { Some(Mn::Movem | Mn::Movep) => "C15", _ => "C09" } };
            let show = |ex: &mut Ex<'p>| { let x = ex.d.wrestrict(ia, bada); let y = ex.d.wrestrict(sa, bada); format!("access #{i} is at {} instead of {}", ex.d.show(x), ex.d.show(y)) };
            cm.never(pa, bada, "address", &show, &s);
            if bada != F && a.k.iter().any(|k| is_write(k.0)) { cm.never("C10", bada, "misdirected-write", &|_| format!("write access #{i} goes to an address that is not the operand's"), &s); }
            if matches!(mn, Some(Mn::Movem | Mn::Movep)) && pa == "C15" { cm.never("C09", bada, "address", &show, &s); }
            // value
            if let (Some(iv), Some(sv)) = (a.v, b.v) {
                let mut okk = cm.ex.d.not(bad);
                okk = cm.ex.d.and(okk, both);
                let nb = cm.ex.d.not(bada);
                okk = cm.ex.d.and(okk, nb);
                let badv = cm.ex.d.diff(iv, sv, okk);
                let pv = if roles.iter().any(|r| r.1 == Role::Stack) { stackp } else { vc };
                cm.never(pv, badv, "value", &|ex| { let x = ex.d.wrestrict(iv, badv); let y = ex.d.wrestrict(sv, badv); format!("access #{i} writes {} instead of {}", ex.d.show(x), ex.d.show(y)) }, &s);
            }
            let x = cm.ex.d.or(bad, bada);
            let nx = cm.ex.d.not(x);
            agree = cm.ex.d.and(agree, nx);
        }
        // an access past the manual's last one leaves the final state comparable
        let nx = cm.ex.d.not(missing);
        // presence mismatches caused by exceptions are judged below
        agree = cm.ex.d.and(agree, nx);
    }
    // exceptions: judged under the region before any disagreement in addresses
    let all = cm.ex.d.and(r, q.pre);
    let mut sg: BTreeMap<u32, B> = BTreeMap::new();
    let mut snone = all;
    for (g, v) in q.exc.clone() { let h = cm.ex.d.and(g, all); let o = *sg.get(&(v as u32)).unwrap_or(&F); let x = cm.ex.d.or(o, h); sg.insert(v as u32, x); let nh = cm.ex.d.not(h); snone = cm.ex.d.and(snone, nh); }
    let mut ig: BTreeMap<u32, B> = BTreeMap::new();
    let mut inone = all;
    for (g, v) in &ecs {
        let h = cm.ex.d.and(*g, all);
        let nh = cm.ex.d.not(h);
        inone = cm.ex.d.and(inone, nh);
        let v = match v { Some(v) => *v, None => { cm.ex.note("unknown vector"); 256 } };
        let o = *ig.get(&v).unwrap_or(&F);
        let x = cm.ex.d.or(o, h);
        ig.insert(v, x);
    }
    let mut excok = all;
    let mut sl: Vec<(Option<u32>, B)> = sg.iter().map(|(v, g)| (Some(*v), *g)).collect();
    sl.push((None, snone));
    let mut il: Vec<(Option<u32>, B)> = ig.iter().map(|(v, g)| (Some(*v), *g)).collect();
    il.push((None, inone));
    for (sv, sgd) in &sl {
        for (iv, igd) in &il {
            if sv == iv { continue; }
            let bad = cm.ex.d.and(*sgd, *igd);
            if bad == F { continue; }
            let nb = cm.ex.d.not(bad);
            excok = cm.ex.d.and(excok, nb);
            if *iv == Some(256) { cm.never("C22", bad, "unknown-vector", &|_| "unknown vector".into(), ""); continue; }
            let mut ps: Vec<&'static str> = vec![];
            for v in [sv, iv] {
                ps.extend(match v { Some(8) => vec!["C01"], Some(3) => vec!["C02"], Some(2) => vec![], Some(9) => vec!["C29"], Some(14) => vec!["C24"], Some(5) => vec!["C22", "C19"], Some(_) => vec!["C22"], None => vec![] });
            }
            // An access error instead of something else is judged by C03 unless the accesses differ.
            if *sv == Some(9) || *iv == Some(9) { if let (Some(a), Some(b)) = (sv, iv) { if *a == 9 || *b == 9 { ps.retain(|p| *p != "C29" || *a == 9 && *b != 2 && *b != 3); } } }
            ps.sort(); ps.dedup();
            for p in ps { cm.never(p, bad, "vector", &|_| format!("reports {} where the manual defines {}", vname(*iv), vname(*sv)), ""); }
        }
    }
    // vectors that agree
    for v in [1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14] { let p = match v { 8 => "C01", 3 => "C02", 9 => "C29", 14 => "C24", 2 | 1 => continue, _ => "C22" }; cm.rep.ok(p); }

    // final state where the exception agrees and accesses agreed
    let mut a0 = cm.ex.d.and(agree, excok);
    let nn = cm.ex.d.not(q.noregs);
    a0 = cm.ex.d.and(a0, nn);
    let mut pcg = a0;
    for (g, v) in q.exc.clone() {
        let ng = cm.ex.d.not(g);
        if v == 2 || v == 3 { a0 = cm.ex.d.and(a0, ng); }
        if !matches!(v, 5 | 6 | 7 | 9 | 32..=47) { pcg = cm.ex.d.and(pcg, ng); }
    }
    let names = reg_paths();
    for i in 0..17 {
        let (iv, sv) = (fi.r[i], q.r[i]);
        let bad = cm.ex.d.diff(iv, sv, a0);
        let nm = names[i].0;
        let show = |ex: &mut Ex<'p>| { let x = ex.d.wrestrict(iv, bad); let y = ex.d.wrestrict(sv, bad); format!("{nm} becomes {} instead of {}", ex.d.show(x), ex.d.show(y)) };
        let p = match q.why[i] { Rr::Dest(_) => vc, Rr::EaUpd => "C09", Rr::Stack => stackp, Rr::Keep => "C10" };
        if bad == F { cm.rep.ok(p); if p != "C10" { cm.rep.ok("C10"); } continue; }
        if priv_ { let u = cm.ex.d.and(bad, user); if u != F { cm.never("C01", u, nm, &show, ""); } }
        let keep: &[&'static str] = match (q.why[i], vc) { (Rr::Keep, "C14" | "C19" | "C21" | "C24" | "C27" | "C30" | "C15" | "C18" | "C17" | "C20" | "C16") => &[vc], _ => &[] };
        cm.never_all(keep, bad, nm, &show, "");
        if matches!(q.why[i], Rr::EaUpd) && matches!(mn, Some(Mn::Movem)) { cm.never("C15", bad, nm, &show, ""); }
        if matches!(mn, Some(Mn::Lea)) { cm.never("C09", bad, nm, &show, ""); }
        if matches!(mn, Some(Mn::Movem)) && matches!(q.why[i], Rr::Dest(_)) && op & 0x38 == 0x18 && (nm == format!("a{}", op & 7) || op & 7 == 7 && (nm == "usp" || nm == "ssp")) { cm.never("C09", bad, nm, &show, ""); }
        if let Rr::Dest(sz) = q.why[i] {
            // split into the operand part and the rest
            let w = sz as u32 * 8;
            let a = cm.ex.d.resize(iv, w, false);
            let b = cm.ex.d.resize(sv, w, false);
            let lo = cm.ex.d.diff(a, b, a0);
            cm.never(p, lo, "value", &show, "");
            if w < 32 {
                let a = cm.ex.d.shr(iv, w, false);
                let b = cm.ex.d.shr(sv, w, false);
                let hi = cm.ex.d.diff(a, b, a0);
                cm.never("C10", hi, "upper-bits", &show, "");
                if matches!(mn, Some(Mn::Dbcc)) { cm.never("C14", hi, "upper-bits", &show, ""); }
            }
        } else { cm.never(p, bad, nm, &show, ""); }
    }
    for i in 0..5 {
        let x = cm.ex.d.xor(fi.f[i], q.f[i]);
        let x = cm.ex.d.and(x, a0);
        let bad = cm.ex.d.and(x, q.fdef[i]);
        let sets_sr: &[&'static str] = match mn { Some(Mn::Rte) => &["C24", "C30"], Some(Mn::Rtr) => &["C21", "C30"], Some(Mn::Stop) => &["C30", "C27"], _ => &["C30"] };
        let extended = matches!(mn, Some(Mn::Addx | Mn::Subx | Mn::Negx | Mn::Abcd | Mn::Sbcd | Mn::Nbcd));
        let ps: &[&'static str] = match q.fl[i] {
            Fl::Keep | Fl::Const => match vc { "C18" => &["C11", "C18"], "C19" if i == 3 || i == 4 => &["C11", "C19"], "C30" => &["C11", "C30"], _ => &["C11"] },
            Fl::Result => match vc { "C18" => &["C12", "C18"], "C19" => &["C12", "C19"], _ if extended && i == 2 => &["C12", "C11"], _ => &["C12"] },
            Fl::Bcd => if i == 2 { &["C20", "C11"] } else { &["C20"] },
            Fl::Arith => &["C13"], Fl::Shift => &["C18"], Fl::BitZ => &["C17"], Fl::Div => &["C19"],
            Fl::Sr | Fl::Restore => sets_sr,
            Fl::Undefined => continue,
        };
        cm.never_all(ps, bad, FLAGS[i], &|_| format!("flag {} is wrong", FLAGS[i].to_uppercase()), "");
        if priv_ { let u = cm.ex.d.and(bad, user); if u != F { cm.never("C01", u, FLAGS[i], &|_| format!("flag {} changes in user mode", FLAGS[i].to_uppercase()), ""); } }
    }
    {
        let ps: &[&'static str] = match mn { Some(Mn::Rte) => &["C24", "C30"], Some(Mn::Rtr) => &["C11", "C30", "C21"], Some(Mn::Stop) => &["C30", "C27"], Some(Mn::Moveccr | Mn::Andiccr | Mn::Oriccr | Mn::Eoriccr) => &["C30", "C11"], _ => if q.sr_op { &["C30"] } else { &["C11"] } };
        let x = cm.ex.d.xor(fi.t, q.t);
        let bt = cm.ex.d.and(x, a0);
        cm.never_all(ps, bt, "T", &|_| "the trace bit is wrong".into(), "");
        let x = cm.ex.d.xor(fi.s, q.s);
        let bs = cm.ex.d.and(x, a0);
        cm.never_all(ps, bs, "S", &|_| "the supervisor bit is wrong".into(), "");
        let mut x = F;
        for i in 0..8 { let b = cm.ex.d.bit(fi.m, i); let c = if i < 3 { q.m[i as usize] } else { F }; let y = cm.ex.d.xor(b, c); x = cm.ex.d.or(x, y); }
        let bm = cm.ex.d.and(x, a0);
        cm.never_all(ps, bm, "mask", &|_| "the interrupt mask is wrong".into(), "");
        let x = cm.ex.d.xor(fi.stop, q.stop);
        let bad = cm.ex.d.and(x, a0);
        cm.never("C27", bad, "stop", &|_| "the stopped state is wrong".into(), "");
    }
    // program counter
    {
        let g = cm.ex.d.and(pcg, a0);
        let (iv, sv) = (fi.pc, q.pc);
        let bad = cm.ex.d.diff(iv, sv, g);
        let show = |ex: &mut Ex<'p>| { let x = ex.d.wrestrict(iv, bad); let y = ex.d.wrestrict(sv, bad); format!("the program counter becomes {} instead of {}", ex.d.show(x), ex.d.show(y)) };
        if mn == Some(Mn::Rte) { cm.never("C24", bad, "pc", &show, ""); }
        else if let Some((to, next)) = q.targets {
            let e1 = cm.ex.d.eq(iv, to);
            let e2 = cm.ex.d.eq(iv, next);
            let known = cm.ex.d.or(e1, e2);
            let dec = cm.ex.d.and(bad, known);
            let nk = cm.ex.d.not(known);
            let off = cm.ex.d.and(bad, nk);
            let ps: &[&'static str] = match mn { Some(Mn::Bcc | Mn::Dbcc) => &["C14", "C21"], _ => &["C21"] };
            cm.never_all(ps, dec, "pc", &show, "");
            cm.never_all(ps, off, "pc", &show, "");
            // not taken: the next instruction follows the extension words
            let stay = cm.ex.d.eq(sv, next);
            let x = cm.ex.d.and(off, stay);
            cm.never("C07", x, "pc", &show, "");
        }
        else if q.jumps { cm.never("C21", bad, "pc", &show, ""); if matches!(mn, Some(Mn::Jmp | Mn::Jsr)) { cm.never("C09", bad, "pc", &show, ""); } }
        else { cm.never("C07", bad, "pc", &show, ""); }
    }
}
fn vname(v: Option<u32>) -> String { match v { None => "no exception".into(), Some(v) => format!("vector {v}") } }

/// What one execution path did.
pub struct Ran { pub st: Step, pub ev: Vec<Event>, pub pan: B }
pub fn ran<'p>(ex: &mut Ex<'p>, c: &Cpu, dis: bool, op: u32) -> Option<Ran> {
    ex.events.clear(); ex.panics.clear();
    let st = step(ex, c, dis, op)?;
    let mut pan = F;
    for p in ex.panics.clone() { pan = ex.d.or(pan, p.g); }
    Some(Ran { st, ev: ex.events.clone(), pan })
}
/// C08: the two execution paths agree on everything observable.
pub fn check_paths<'p>(cm: &mut Cmp<'_, 'p>, c: &Cpu, a: &Ran, b: &Ran, prop: &'static str) {
    let x = cm.ex.d.xor(a.pan, b.pan);
    cm.never(prop, x, "panic", &|_| "one path panics where the other does not".into(), "");
    let g = cm.ex.d.and(a.st.g, b.st.g);
    let xr = cm.ex.d.xor(a.st.g, b.st.g);
    let nx = cm.ex.d.not(x);
    let xr = cm.ex.d.and(xr, nx);
    cm.never(prop, xr, "ends", &|_| "one path ends where the other does not".into(), "");
    let conv = |ex: &mut Ex<'p>, r: &Ran| -> Vec<(EvK, B, W, W, Option<W>, Role)> { r.ev.clone().iter().map(|e| (e.k, ex.d.and(e.g, g), e.ord, e.a, e.v, Role::Operand)).collect() };
    let (ea, eb) = (conv(cm.ex, a), conv(cm.ex, b));
    let n = max_ord(&mut cm.ex.d, &ea).max(max_ord(&mut cm.ex.d, &eb));
    let (sa, sb) = (slots(&mut cm.ex.d, &ea, n), slots(&mut cm.ex.d, &eb, n));
    let mut ok = g;
    for i in 0..n {
        let site = sa[i].who.first().map(|w| a.ev[w.2].site.clone()).or(sb[i].who.first().map(|w| b.ev[w.2].site.clone())).unwrap_or_default();
        let s = cm.site_of(&site);
        let x = cm.ex.d.xor(sa[i].g, sb[i].g);
        let x = cm.ex.d.and(x, ok);
        cm.never(prop, x, "access", &|_| format!("access #{i} is made by one path only"), &s);
        let both = cm.ex.d.and(sa[i].g, sb[i].g);
        let both = cm.ex.d.and(both, ok);
        let mut bad = F;
        for (k, kg) in &sa[i].k { let o = sb[i].k.iter().find(|q| q.0 == *k).map(|q| q.1).unwrap_or(F); let y = cm.ex.d.xor(*kg, o); bad = cm.ex.d.or(bad, y); }
        let bad = cm.ex.d.and(bad, both);
        cm.never(prop, bad, "kind", &|_| format!("access #{i} is of different kinds"), &s);
        if let (Some(p), Some(q)) = (sa[i].a, sb[i].a) { let bad = cm.ex.d.diff(p, q, both); cm.never(prop, bad, "address", &|_| format!("access #{i} is at different addresses"), &s); let nb = cm.ex.d.not(bad); ok = cm.ex.d.and(ok, nb); }
        if let (Some(p), Some(q)) = (sa[i].v, sb[i].v) { let bad = cm.ex.d.diff(p, q, both); cm.never(prop, bad, "value", &|_| format!("access #{i} writes different values"), &s); let nb = cm.ex.d.not(bad); ok = cm.ex.d.and(ok, nb); }
        let nx = cm.ex.d.not(x); ok = cm.ex.d.and(ok, nx);
        let nb = cm.ex.d.not(bad); ok = cm.ex.d.and(ok, nb);
    }
    let xe = cm.ex.d.xor(a.st.exc, b.st.exc);
    let xe = cm.ex.d.and(xe, ok);
    cm.never(prop, xe, "exception", &|_| "only one path reports an exception".into(), "");
    let be = cm.ex.d.and(a.st.exc, b.st.exc);
    let be = cm.ex.d.and(be, ok);
    let bv = cm.ex.d.diff(a.st.vec, b.st.vec, be);
    cm.never(prop, bv, "vector", &|_| "the paths report different vectors".into(), "");
    let bc = cm.ex.d.diff(a.st.cycles, b.st.cycles, ok);
    cm.never(prop, bc, "cycles", &|_| "the paths report different cycle counts".into(), "");
    let (Some(fa), Some(fb)) = (fin(cm.ex, c.core, &a.st.cpu), fin(cm.ex, c.core, &b.st.cpu)) else { cm.ex.note("machine state not found"); return };
    for (i, (nm, _)) in reg_paths().iter().enumerate() { let bad = cm.ex.d.diff(fa.r[i], fb.r[i], ok); cm.never(prop, bad, nm, &|_| format!("{nm} differs"), ""); }
    let bad = cm.ex.d.diff(fa.pc, fb.pc, ok);
    cm.never(prop, bad, "pc", &|ex| { let x = ex.d.wrestrict(fa.pc, bad); let y = ex.d.wrestrict(fb.pc, bad); format!("the program counter is {} and {}", ex.d.show(x), ex.d.show(y)) }, "");
    let bad = cm.ex.d.diff(fa.m, fb.m, ok);
    cm.never(prop, bad, "mask", &|_| "the interrupt mask differs".into(), "");
    for (x, y, nm) in [(fa.t, fb.t, "trace bit"), (fa.s, fb.s, "supervisor bit"), (fa.stop, fb.stop, "stopped state")].into_iter().chain((0..5).map(|i| (fa.f[i], fb.f[i], FLAGS[i]))) {
        let z = cm.ex.d.xor(x, y);
        let z = cm.ex.d.and(z, ok);
        cm.never(prop, z, nm, &|_| format!("{nm} differs"), "");
    }
    if let (Some(x), Some(y)) = (get(cm.ex.p, &a.st.cpu, c.core, &["current_opcode"]), get(cm.ex.p, &b.st.cpu, c.core, &["current_opcode"])) {
        let (x, y) = (cm.ex.w(&x), cm.ex.w(&y));
        let bad = cm.ex.d.diff(x, y, ok);
        cm.never(prop, bad, "opcode", &|_| "the opcode kept for exception frames differs".into(), "");
    }
}
