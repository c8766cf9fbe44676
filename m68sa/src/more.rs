//! Properties decided on single functions of the crate: opcode classification, status register
//! conversions, provided memory implementations, run loops.
use crate::compare::*;
use crate::core::*;
use crate::dom::*;
use crate::drive::*;
use crate::exec::*;
use crate::ir::*;
use crate::isa::*;
use crate::scen::root;
use std::rc::Rc;

/// A state with one object of the given type.
pub fn cell<'p>(ex: &mut Ex<'p>, ty: TyId, v: V) -> St<'p> {
    let tys: &'p [TyId] = leak_tys(vec![ty; 4]);
    let ord = ex.d.k(16, 0);
    St { g: T, fr: vec![Rc::new(Frame { tys, vals: vec![v, V::Un, V::Un, V::Un] })], ord }
}
pub fn blank<'p>(ex: &mut Ex<'p>) -> St<'p> { let ord = ex.d.k(16, 0); St { g: T, fr: vec![Rc::new(Frame { tys: leak_tys(vec![0; 24]), vals: vec![V::Un; 24] })], ord } }
/// A root that must exist: without it nothing can be concluded.
fn need(p: &Prog, rep: &mut Report, parts: &[&str]) -> Option<FnId> {
    let r = root(p, parts);
    if r.is_none() { lost(rep, &format!("no function matches {parts:?}")); }
    r
}
pub fn lost(rep: &mut Report, what: &str) { rep.finds.push(Finding { prop: "*", out: Out::Unknown, what: what.to_string(), key: what.to_string(), witness: String::new(), site: String::new() }); }
/// Every recorded panic is a violation.
fn no_panic<'p>(cm: &mut Cmp<'_, 'p>, prop: &'static str) {
    let pans = cm.ex.panics.clone();
    if pans.is_empty() { cm.rep.ok(prop); }
    for p in pans { let s = cm.site_of(&p.site); let m: String = p.msg.clone(); cm.never(prop, p.g, &format!("panic {m}"), &|_| format!("panics: {m}"), &s); }
}

/// C06: the decoder's answer for every opcode.
pub fn classify(p: &Prog) -> Total {
    let jobs: Vec<u32> = (0..1024).collect();
    par(p, &jobs, &|ex, hi, rep| {
        let Some(f) = need(p, rep, &["isa::Isa", "From<u16>", "::from"]) else { return "-".into() };
        let ety = p.fns[f as usize].locals[0];
        for lo in 0..64 {
            let op = hi * 64 + lo;
            ex.opcode = op;
            ex.events.clear(); ex.panics.clear();
            let a = ex.kw(16, op as u128);
            let st = blank(ex);
            let want = match decode(op as u16) { None => "unknown".to_string(), Some(i) => format!("{:?}", i.mn).to_lowercase() };
            let r = ex.call(f, vec![a], st, 0);
            let site = format!("{} ({}:{})", p.fns[f as usize].path, p.files[p.fns[f as usize].file as usize], p.fns[f as usize].line);
            let got = match &r {
                Some((V::En(e), _)) => ex.d.as_const(e.disc).and_then(|k| match &p.ty(ety).k { TyK::Adt { variants, .. } => variants.get(k as usize).map(|v| v.name.to_lowercase()), _ => None }),
                Some((V::W(w), _)) => ex.d.as_const(*w).and_then(|k| match &p.ty(ety).k { TyK::Adt { variants, .. } => variants.get(k as usize).map(|v| v.name.to_lowercase()), _ => None }),
                _ => None,
            };
            match got {
                Some(g) if g == want => rep.ok("C06"),
                Some(g) => rep.finds.push(Finding { prop: "C06", out: Out::Broken, what: format!("opcode {op:04x} is classified as {g}, the manual defines {want}"), key: want.clone(), witness: format!("opcode={op:#06x}"), site }),
                None => { let out = if r.is_none() { Out::Broken } else { Out::Unknown }; rep.finds.push(Finding { prop: "C06", out, what: format!("opcode {op:04x} has no single classification"), key: want.clone(), witness: format!("opcode={op:#06x}"), site }) }
            }
        }
        "decoder".into()
    })
}

/// Bits of the status register word, by field.
const SRF: [(&str, u32, u32); 8] = [("t", 15, 1), ("s", 13, 1), ("interrupt_mask", 8, 3), ("x", 4, 1), ("n", 3, 1), ("z", 2, 1), ("v", 1, 1), ("c", 0, 1)];
fn sr_fields<'p>(ex: &mut Ex<'p>, ty: TyId, v: &V) -> Option<Vec<W>> {
    let mut r = vec![];
    for (n, _, _) in SRF { let x = get(ex.p, v, ty, &[n])?; r.push(ex.w(&x)); }
    Some(r)
}
fn field_of<'p>(ex: &mut Ex<'p>, w: W, lo: u32, n: u32, to: u32) -> W { let x = ex.d.shr(w, lo, false); let m = ex.d.k(16, (1 << n) - 1); let x = ex.d.and_w(x, m); ex.d.resize(x, to, false) }
/// An arbitrary status register whose mask has three bits.
fn any_sr<'p>(ex: &mut Ex<'p>, ty: TyId) -> V {
    let p = ex.p;
    ex.sym(ty, "regs.sr", false).clone_with(p)
}
trait CloneWith { fn clone_with(self, p: &Prog) -> V; }
impl CloneWith for V { fn clone_with(self, _: &Prog) -> V { self } }

/// C30: conversions, defaults and compound assignments of the status register; C14: its condition test.
pub fn status(p: &Prog, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let jobs: Vec<&str> = vec!["from", "into", "set_ccr", "and", "or", "xor", "default", "condition"];
    par(p, &jobs, &|ex, job, rep| {
        ex.events.clear(); ex.panics.clear();
        let srp = "status_register::StatusRegister";
        let Some(ty) = p.ty_names.get(srp).copied() else { lost(rep, "status register type not found"); return job.to_string() };
        let w = |x: &str| want(x);
        let word = ex.d.fresh(16, "word");
        let arb = any_sr(ex, ty);
        let Some(old) = sr_fields(ex, ty, &arb) else { lost(rep, "status register fields not found"); return job.to_string() };
        let parts: Vec<String> = match *job {
            "from" => vec![srp.into(), "From<u16>".into(), "::from".into()],
            "into" => vec!["From<status_register::StatusRegister>".into(), "u16".into(), "::from".into()],
            "set_ccr" => vec![format!("{srp}::set_ccr")],
            "and" => vec!["StatusRegister".into(), "BitAndAssign<u16>".into(), "::bitand_assign".into()],
            "or" => vec!["StatusRegister".into(), "BitOrAssign<u16>".into(), "::bitor_assign".into()],
            "xor" => vec!["StatusRegister".into(), "BitXorAssign<u16>".into(), "::bitxor_assign".into()],
            "default" => vec![srp.into(), "std::default::Default".into(), "::default".into()],
            _ => vec![format!("{srp}::condition")],
        };
        let parts: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
        let Some(f) = need(p, rep, &parts) else { return job.to_string() };
        let fu = &p.fns[f as usize];
        let site = format!("{} ({}:{})", fu.path, p.files[fu.file as usize], fu.line);
        if *job == "condition" {
            for cc in 0..16u32 {
                ex.panics.clear();
                let st = cell(ex, ty, arb.clone());
                let (me, a) = (ex.obj_ptr(0), ex.kw(8, cc as u128));
                let Some((r, st)) = ex.call(f, vec![me, a], st, 0) else { lost(rep, "condition has no outcome"); continue };
                let r = ex.w(&r);
                let r = ex.d.to_b(r);
                let fb: Vec<B> = old.iter().map(|w| { let l = ex.d.is_zero(*w); ex.d.not(l) }).collect();
                let (n, z, v, c) = (fb[4], fb[5], fb[6], fb[7]);
                let d = &mut ex.d;
                let lt = d.xor(n, v);
                let base = match cc >> 1 { 0 => T, 1 => { let o = d.or(c, z); d.not(o) } 2 => d.not(c), 3 => d.not(z), 4 => d.not(v), 5 => d.not(n), 6 => d.not(lt), _ => { let o = d.or(lt, z); d.not(o) } };
                let spec = if cc & 1 == 1 { d.not(base) } else { base };
                let bad = d.xor(r, spec);
                let bad = d.and(bad, st.g);
                let ng = d.not(st.g);
                let mut cm = Cmp { ex, rep, tag: format!("condition {cc}"), want: &w };
                no_panic(&mut cm, "C14");
                cm.never("C14", bad, &format!("condition {cc}"), &|_| "tests the wrong codes".into(), &site);
                cm.never("C14", ng, &format!("condition {cc} ends"), &|_| "does not return".into(), &site);
            }
            return job.to_string();
        }
        // expected fields
        let mut exp: Vec<W> = vec![];
        for (i, (_, lo, n)) in SRF.iter().enumerate() {
            let wd = ex.d.width(old[i]);
            let b = field_of(ex, word, *lo, *n, wd);
            let e = match *job {
                "from" => b,
                "set_ccr" => if i < 3 { old[i] } else { b },
                "and" => ex.d.and_w(old[i], b),
                "or" => ex.d.or_w(old[i], b),
                "xor" => ex.d.xor_w(old[i], b),
                "default" => ex.d.k(wd, (0x2700u128 >> lo) & ((1 << n) - 1)),
                _ => old[i],
            };
            exp.push(e);
        }
        let st = if matches!(*job, "from" | "into" | "default") { blank(ex) } else { cell(ex, ty, arb.clone()) };
        let args = match *job { "from" => vec![V::W(word)], "into" => vec![arb.clone()], "default" => vec![], _ => vec![ex.obj_ptr(0), V::W(word)] };
        let Some((r, st)) = ex.call(f, args, st, 0) else { rep.finds.push(Finding { prop: "C30", out: Out::Broken, what: format!("{job}: never returns"), key: format!("{job} ends"), witness: String::new(), site }); return job.to_string() };
        if *job == "into" {
            let got = ex.w(&r);
            let mut e = ex.d.k(16, 0);
            for (i, (_, lo, _)) in SRF.iter().enumerate() { let x = ex.d.resize(old[i], 16, false); let x = ex.d.shl(x, *lo); e = ex.d.or_w(e, x); }
            let bad = ex.d.diff(got, e, st.g);
            let ng = ex.d.not(st.g);
            let mut cm = Cmp { ex, rep, tag: "u16::from(StatusRegister)".into(), want: &w };
            no_panic(&mut cm, "C30");
            cm.never("C30", bad, "into", &|_| "the status register word has wrong bits".into(), &site);
            cm.never("C30", ng, "into ends", &|_| "does not return".into(), &site);
            return job.to_string();
        }
        let res = if matches!(*job, "from" | "default") { r } else { st.fr[0].vals[0].clone() };
        let Some(got) = sr_fields(ex, ty, &res) else { lost(rep, "result is not a status register"); return job.to_string() };
        let ng = ex.d.not(st.g);
        let mut cm = Cmp { ex, rep, tag: format!("StatusRegister {job}"), want: &w };
        no_panic(&mut cm, "C30");
        cm.never("C30", ng, &format!("{job} ends"), &|_| "does not return".into(), &site);
        for i in 0..8 {
            let bad = cm.ex.d.diff(got[i], exp[i], st.g);
            cm.never("C30", bad, &format!("{job} {}", SRF[i].0), &|_| format!("field {} is wrong", SRF[i].0), &site);
        }
        job.to_string()
    })
}

/// C32: what the run functions must do, composed from the single-step functions.
#[derive(Clone, Debug)]
pub struct RunJob { pub cpu: usize, pub f: &'static str, pub prog: Vec<u32>, pub stopped: bool, pub any: bool, pub reqs: Vec<u32> }
struct Acc<'p> { st: Option<St<'p>>, ret: Option<W>, exc: B, vec: Option<W> }
impl<'p> Acc<'p> {
    fn add(&mut self, ex: &mut Ex<'p>, st: St<'p>, ret: W, exc: B, vec: W) {
        if st.g == F { return; }
        let g = st.g;
        self.ret = Some(match self.ret { None => ret, Some(o) => ex.d.wite(g, ret, o) });
        self.vec = Some(match self.vec { None => vec, Some(o) => ex.d.wite(g, vec, o) });
        let e = ex.d.and(exc, g);
        let ng = ex.d.not(g);
        let o = ex.d.and(self.exc, ng);
        self.exc = ex.d.or(o, e);
        let prev = self.st.take();
        self.st = Some(ex.merge_opt(prev, st));
    }
}
fn under<'p>(ex: &mut Ex<'p>, st: &St<'p>, g: B) -> St<'p> { let mut s = st.clone(); s.g = ex.d.and(s.g, g); s }
fn stopped_bit<'p>(ex: &mut Ex<'p>, c: &Cpu, st: &St<'p>) -> Option<B> { let v = get(ex.p, &st.fr[0].vals[0], c.core, &["stop"])?; let w = ex.w(&v); Some(ex.d.to_b(w)) }

/// One step of interpreter_exception: (cycles, exception reported, its vector).
fn one_step<'p>(ex: &mut Ex<'p>, c: &Cpu, dis: bool, st: St<'p>) -> Option<(St<'p>, W, B, W)> {
    let (a, m) = (ex.obj_ptr(0), ex.obj_ptr(1));
    let (r, st) = ex.call(if dis { c.dis? } else { c.fast }, vec![a, m], st, 0)?;
    let V::Agg(r) = r else { return None };
    let o = if dis { 2 } else { 0 };
    let cyc = ex.w(r.get(o)?);
    let (e, v) = opt(ex, r.get(o + 1)?);
    let e = ex.d.and(e, st.g);
    Some((st, cyc, e, v))
}
/// Queue the reported exception through the public method.
fn queue<'p>(ex: &mut Ex<'p>, c: &Cpu, st: St<'p>, e: B, v: W) -> Option<St<'p>> {
    let ne = ex.d.not(e);
    let mut acc: Option<St<'p>> = None;
    let quiet = under(ex, &st, ne);
    if quiet.g != F { acc = Some(ex.merge_opt(None, quiet)); }
    for (g, n) in exc_cases(ex, st.g, e, v) {
        let s = under(ex, &st, g);
        if s.g == F { continue; }
        let s = crate::scen::request(ex, c, s, n?)?;
        let prev = acc.take();
        acc = Some(ex.merge_opt(prev, s));
    }
    acc
}
/// The composed meaning of a run function.
fn composed<'p>(ex: &mut Ex<'p>, c: &Cpu, f: &str, st: St<'p>, budget: W) -> Option<(St<'p>, W, B, W)> {
    let mut acc = Acc { st: None, ret: None, exc: F, vec: None };
    let none = ex.d.k(8, 0);
    let mut total = ex.d.k(64, 0);
    let dis = f.starts_with("disassembler");
    if matches!(f, "interpreter" | "disassembler_interpreter") {
        let (st, c1, e, v) = one_step(ex, c, dis, st)?;
        let st = queue(ex, c, st, e, v)?;
        return Some((st, c1, F, none));
    }
    let mut cur = Some(st);
    for _ in 0..200 {
        let Some(st) = cur.take() else { break };
        let go = if f == "loop_until_exception_stop" { T } else { ex.d.lt(total, budget, false) };
        let ngo = ex.d.not(go);
        let end = under(ex, &st, ngo);
        acc.add(ex, end, total, F, none);
        let st = under(ex, &st, go);
        if st.g == F { break; }
        let (st, cyc, e, v) = one_step(ex, c, false, st)?;
        let cyc = ex.d.resize(cyc, 64, false);
        total = ex.d.add(total, cyc);
        total = ex.d.wrestrict(total, st.g);
        if f == "cycle" {
            let st = queue(ex, c, st, e, v)?;
            let s = stopped_bit(ex, c, &st)?;
            let end = under(ex, &st, s);
            acc.add(ex, end, budget, F, none);
            let ns = ex.d.not(s);
            cur = Some(under(ex, &st, ns));
        } else {
            let s = stopped_bit(ex, c, &st)?;
            let d = ex.d.or(s, e);
            let end = under(ex, &st, d);
            acc.add(ex, end, total, e, v);
            let nd = ex.d.not(d);
            cur = Some(under(ex, &st, nd));
        }
        if cur.as_ref().map(|s| s.g == F).unwrap_or(true) { cur = None; }
    }
    if cur.is_some() { ex.note("the composed run does not end"); return None; }
    Some((acc.st?, acc.ret?, acc.exc, acc.vec?))
}
pub fn run_jobs(thorough: bool) -> Vec<RunJob> {
    let (nop, trap, stop, ill, trapv, mulu, aline, reset, bra, chk, divu, mvsr) = (0x4e71, 0x4e43, 0x4e72, 0x4afc, 0x4e76, 0xc0c1, 0xa000, 0x4e70, 0x6002, 0x4181, 0x80c1, 0x46c0);
    let one: Vec<Vec<u32>> = vec![vec![nop], vec![trap], vec![stop, 0x2000], vec![stop, 0x0000], vec![stop, 0xa700], vec![ill], vec![trapv], vec![mulu], vec![aline], vec![reset], vec![bra, nop], vec![chk], vec![divu], vec![mvsr], vec![0xf123]];
    let pre: Vec<Vec<u32>> = vec![vec![nop], vec![trapv], vec![trap], vec![chk], vec![mulu], vec![aline]];
    let mut progs = one.clone();
    for a in &pre { for b in &one { let mut v = a.clone(); v.extend(b); progs.push(v); } }
    if thorough { for a in &pre { for b in &pre { for d in &one { let mut v = a.clone(); v.extend(b); v.extend(d); progs.push(v); } } } }
    let mut j = vec![];
    for cpu in 0..2 {
        for p in &progs {
            for f in ["cycle", "cycle_until_exception"] { j.push(RunJob { cpu, f, prog: p.clone(), stopped: false, any: false, reqs: vec![] }); }
            // programs that end at a STOP or a reported exception: any budget, and no budget
            let ends = matches!(*p.last().unwrap(), 0x2000 | 0x0000 | 0xa700) || [trap, ill, aline, 0xf123].contains(p.last().unwrap());
            if ends { j.push(RunJob { cpu, f: "loop_until_exception_stop", prog: p.clone(), stopped: false, any: true, reqs: vec![] }); j.push(RunJob { cpu, f: "cycle_until_exception", prog: p.clone(), stopped: false, any: true, reqs: vec![] }); }
            if p.len() <= 2 { for f in ["interpreter", "disassembler_interpreter"] { for s in [false, true] { j.push(RunJob { cpu, f, prog: p.clone(), stopped: s, any: true, reqs: vec![] }); } } }
        }
        for f in ["cycle", "cycle_until_exception", "loop_until_exception_stop"] { j.push(RunJob { cpu, f, prog: vec![nop], stopped: true, any: true, reqs: vec![] }); }
        // exceptions requested beforehand
        for v in [0, 2, 3, 4, 9, 24, 25, 30, 31, 35, 60, 63, 64, 100] {
            for p in [vec![nop], vec![trap], vec![stop, 0x2000]] {
                for f in ["cycle", "cycle_until_exception", "interpreter", "disassembler_interpreter"] { for stopped in [false, true] { j.push(RunJob { cpu, f, prog: p.clone(), stopped, any: false, reqs: vec![v] }); } }
            }
        }
    }
    j
}
pub fn runs(p: &Prog, cs: &[Cpu], thorough: bool, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let mut jobs = run_jobs(thorough);
    if let Ok(x) = std::env::var("RUNJOB") { jobs.retain(|j| format!("{j:?}").contains(&x)); jobs.truncate(std::env::var("RUNMAX").ok().and_then(|x| x.parse().ok()).unwrap_or(1)); eprintln!("{jobs:?}"); }
    shuffle(&mut jobs);
    par(p, &jobs, &|ex, j, rep| {
        let c = &cs[j.cpu];
        let w = |x: &str| want(x);
        ex.accept = true;
        ex.opcode = 0x4e71;
        ex.program = Some(j.prog.clone());
        let r = (|| -> Option<()> {
            let st = ex.machine(c.core, j.stopped);
            let pcw = get(ex.p, &st.fr[0].vals[0], c.core, &["regs", "pc"]);
            if let Some(V::W(w)) = pcw { ex.pc_term = ex.d.as_leaf(w); }
            let mut st = st;
            st.g = crate::scen::even(ex);
            for v in &j.reqs { st = crate::scen::request(ex, c, st, *v)?; }
            let bits: Vec<B> = { let w = ex.d.fresh(64, "budget"); let l = ex.d.as_leaf(w)?; ex.d.bits(l).to_vec() };
            let keep = if j.any { 64 } else { 6 };
            let l = ex.d.mk_bits(bits.iter().enumerate().map(|(i, b)| if i < keep { *b } else { F }).collect());
            let budget = ex.d.leaf_w(l);
            ex.events.clear(); ex.panics.clear();
            // the composed meaning first: it says how far the run can go
            let Some((cst, ret, exc, vec)) = composed(ex, c, j.f, st.clone(), budget) else { rep.finds.push(Finding { prop: "*", out: Out::Unknown, what: format!("{} {j:?}: no composed meaning", c.name), key: "no composed meaning".into(), witness: String::new(), site: String::new() }); return Some(()) };
            let (bev, bp) = (std::mem::take(&mut ex.events), std::mem::take(&mut ex.panics));
            let mut pan = F;
            for q in &bp { pan = ex.d.or(pan, q.g); }
            let cpu_v = cst.fr[0].vals[0].clone();
            let b = Ran { st: Step { g: cst.g, ord: cst.ord, cpu: cpu_v, cycles: ret, exc, vec }, ev: bev, pan };
            let f = *ex.p.roots.get(&format!("{}::{}", c.name, j.f))?;
            let (a0, m) = (ex.obj_ptr(0), ex.obj_ptr(1));
            let args = if j.f.starts_with("cycle") { vec![a0, m, V::W(budget)] } else { vec![a0, m] };
            let site = { let fu = &ex.p.fns[f as usize]; format!("{} ({}:{})", fu.path, ex.p.files[fu.file as usize], fu.line) };
            let tag = format!("{} {} over {:04x?}{}{}", c.name, j.f, j.prog, if j.stopped { ", stopped" } else { "" }, if j.reqs.is_empty() { String::new() } else { format!(", vector {:?} pending", j.reqs) });
            let Some((r, ast)) = ex.call(f, args, st, 0) else { rep.finds.push(Finding { prop: "C32", out: Out::Broken, what: format!("{tag}: never returns"), key: format!("{} ends", j.f), witness: String::new(), site }); return Some(()) };
            let (cyc, exc, vec) = match (&r, j.f) {
                (V::Agg(r), "disassembler_interpreter") => (ex.w(r.get(2)?), F, ex.d.k(8, 0)),
                (V::Agg(r), _) => { let cy = ex.w(r.first()?); let (e, v) = opt(ex, r.get(1)?); (cy, e, v) }
                (v, _) => (ex.w(v), F, ex.d.k(8, 0)),
            };
            let mut pan = F;
            for q in ex.panics.clone() { pan = ex.d.or(pan, q.g); }
            let cpu_v = ast.fr[0].vals[0].clone();
            let a = Ran { st: Step { g: ast.g, ord: ast.ord, cpu: cpu_v, cycles: cyc, exc, vec }, ev: ex.events.clone(), pan };
            let g = ex.d.and(a.st.g, b.st.g);
            let (pa, pb) = (crate::scen::pending(ex, c, &a.st.cpu, g)?, crate::scen::pending(ex, c, &b.st.cpu, g)?);
            let mut cm = Cmp { ex, rep, tag, want: &w };
            check_paths(&mut cm, c, &a, &b, "C32");
            let mut ks: Vec<u32> = pa.keys().chain(pb.keys()).copied().collect();
            ks.sort(); ks.dedup();
            if ks.is_empty() { cm.rep.ok("C32"); }
            for k in ks {
                let (x, y) = (*pa.get(&k).unwrap_or(&F), *pb.get(&k).unwrap_or(&F));
                let bad = cm.ex.d.xor(x, y);
                let bad = cm.ex.d.and(bad, g);
                cm.never("C32", bad, "pending", &|_| format!("vector {k} is pending in one and not in the other"), &site);
            }
            Some(())
        })();
        ex.program = None;
        if r.is_none() { lost(rep, &format!("{} {}: no outcome", c.name, j.f)); }
        j.f.to_string()
    })
}

/// C36: the memory implementations of the crate, for any slice length, content, address and value.
pub fn memories(p: &Prog, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let mut jobs: Vec<(String, &str)> = vec![];
    for t in ["[u8]", "&'{erased} [u8]", "[u16]", "&'{erased} [u16]"] { for m in ["get_byte", "get_word", "get_long", "set_byte", "set_word", "set_long", "reset_instruction"] { jobs.push((t.to_string(), m)); } }
    par(p, &jobs, &|ex, (t, m), rep| {
        let w = |x: &str| want(x);
        let shared = t.starts_with('&');
        let name = t.replace("'{erased} ", "");
        let ew: u32 = if t.contains("u16") { 16 } else { 8 };
        let Some(f) = p.roots.iter().find(|(k, _)| k.starts_with("mem:") && { let k = k.strip_prefix("mem:").unwrap(); let (ty, me) = k.rsplit_once("::").unwrap_or(("", "")); let ty: String = ty.replace("'{erased} ", "").replace("'{region error} ", ""); me == *m && ty == name }).map(|x| *x.1) else { lost(rep, &format!("no {m} for {name}")); return name };
        let fu = &p.fns[f as usize];
        let site = format!("{} ({}:{})", fu.path, p.files[fu.file as usize], fu.line);
        let tag = format!("{name}::{m}");
        let len = ex.d.fresh(64, "len");
        ex.slices.push(SliceObj { len, elem_w: ew });
        let wide = V::W(ex.d.ptr(PtrT { base: Base::Ext(0), path: vec![PElem::From(0)], meta: Some(len) }));
        let self_ty = p.fns[f as usize].locals[1];
        let inner = pointee(p, self_ty);
        let (mut st, me) = if shared { let st = cell(ex, inner, wide); let me = ex.obj_ptr(0); (st, me) } else { (blank(ex), wide) };
        for i in 62..64 { let b = ex.d.bit(len, i); let nb = ex.d.not(b); st.g = ex.d.and(st.g, nb); }
        let addr = ex.d.fresh(32, "addr");
        let size: u32 = match &m[m.len() - 4..] { "byte" => 1, "word" => 2, "long" => 4, _ => 0 };
        // word and long accesses are made at even addresses only; byte slices do not depend on it
        if ew == 16 && size > 1 { let b = ex.d.bit(addr, 0); let nb = ex.d.not(b); st.g = ex.d.and(st.g, nb); }
        let pre = st.g;
        let vw = size.max(1) * 8;
        let val = ex.d.fresh(vw, "value");
        let set = m.starts_with("set");
        if m.starts_with("reset") {
            let r = ex.call(f, vec![me], st, 0);
            let g = r.map(|r| r.1.g).unwrap_or(F);
            let ng = ex.d.not(g);
            let bad = ex.d.and(pre, ng);
            let mut cm = Cmp { ex, rep, tag, want: &w };
            no_panic(&mut cm, "C36");
            cm.never("C36", bad, "reset", &|_| "does not return".into(), &site);
            return name;
        }
        ex.events.clear(); ex.panics.clear();
        let args = if set { vec![me, V::W(addr), V::W(val)] } else { vec![me, V::W(addr)] };
        let r = ex.call(f, args, st, 0);
        if set && shared {
            // documented: writing to a shared slice panics; it must in no case return success or store
            let g = match &r { Some((v, s)) => { let (some, _) = opt(ex, v); ex.d.and(some, s.g) } None => F };
            let mut stores = F;
            for e in ex.events.clone() { if e.k == EvK::SliceStore { stores = ex.d.or(stores, e.g); } }
            // the default long write of the interpreter's own memory parameter is seen as two word writes
            let modelled = ex.events.iter().any(|e| matches!(e.k, EvK::Mem(_)));
            let g = if modelled { F } else { g };
            let mut cm = Cmp { ex, rep, tag, want: &w };
            cm.never("C36", g, "shared", &|_| "reports a successful write to a shared slice".into(), &site);
            cm.never("C36", stores, "shared store", &|_| "stores into a shared slice".into(), &site);
            return name;
        }
        // bytes of the access: (element index, shift within the element, byte number from the left)
        let a64 = |ex: &mut Ex<'_>, k: u128| -> W { let kk = ex.d.k(32, k); let a = ex.d.add(addr, kk); ex.d.resize(a, 64, false) };
        let mut ok = pre;
        let mut idx: Vec<W> = vec![];
        let first = a64(ex, 0);
        // the words (or the byte) making up the access; a word itself does not wrap
        let starts: Vec<W> = if size == 4 { let second = a64(ex, 2); vec![first, second] } else { vec![first] };
        for s in starts {
            for b in 0..size.min(2) {
                let kk = ex.d.k(64, b as u128);
                let x = ex.d.add(s, kk);
                let i = if ew == 16 { ex.d.shr(x, 1, false) } else { x };
                let i = ex.d.wrestrict(i, pre);
                let inb = ex.d.lt(i, len, false);
                ok = ex.d.and(ok, inb);
                idx.push(i);
            }
        }
        let nok = ex.d.not(ok);
        let refuse = ex.d.and(pre, nok);
        let Some((v, st)) = r else { rep.finds.push(Finding { prop: "C36", out: Out::Broken, what: format!("{tag}: never returns"), key: format!("{m} ends"), witness: String::new(), site }); return name };
        let (some, payload) = match &v { V::En(_) if set => { let V::En(e) = &v else { unreachable!() }; let z = ex.d.is_zero(e.disc); (ex.d.not(z), ex.d.k(8, 0)) } _ => opt(ex, &v) };
        let got_ok = ex.d.and(some, st.g);
        let ns = ex.d.not(some);
        let got_no = ex.d.and(ns, st.g);
        let bad_no = ex.d.and(got_no, ok);
        let bad_yes = ex.d.and(got_ok, refuse);
        let ng = ex.d.not(st.g);
        let gone = ex.d.and(pre, ng);
        let evs = ex.events.clone();
        let modelled = evs.iter().any(|e| matches!(e.k, EvK::Mem(_)));
        let both = ex.d.and(got_ok, ok);
        if modelled {
            // the interpreter's memory parameter: the default long access is two word accesses
            let mut cm = Cmp { ex, rep, tag, want: &w };
            no_panic(&mut cm, "C36");
            let n = evs.len();
            if n != 2 || size != 4 { cm.never("C36", pre, "default long", &|_| format!("the default long access makes {n} accesses"), &site); return name; }
            for (i, e) in evs.iter().enumerate() {
                let kk = cm.ex.d.k(32, 2 * i as u128);
                let x = cm.ex.d.add(addr, kk);
                let bad = cm.ex.d.diff(e.a, x, e.g);
                cm.never("C36", bad, "default long", &|_| format!("word access {i} of the default long access is at the wrong address"), &site);
                if let Some(sv) = e.v { let half = cm.ex.d.shr(val, 16 - 16 * i as u32, false); let half = cm.ex.d.resize(half, 16, false); let sv = cm.ex.d.resize(sv, 16, false); let bad = cm.ex.d.diff(sv, half, e.g); cm.never("C36", bad, "default long", &|_| format!("word access {i} writes the wrong half"), &site); }
                if !matches!(e.k, EvK::Mem(MemK::GetWord | MemK::SetWord)) { cm.never("C36", e.g, "default long", &|_| "is not made of word accesses".into(), &site); }
            }
            // success exactly when both words are accepted
            let (o0, o1) = (cm.ex.d.var(k_ok(0)), cm.ex.d.var(k_ok(1)));
            let o = cm.ex.d.and(o0, o1);
            let x = cm.ex.d.xor(some, o);
            let bad = cm.ex.d.and(x, st.g);
            cm.never("C36", bad, "default long refusal", &|_| "the default long access does not succeed exactly when both words do".into(), &site);
            if !set {
                let mut e = cm.ex.d.k(32, 0);
                for i in 0..2u32 { let k = cm.ex.d.k(16, i as u128); let (_, x) = cm.ex.mem_input(EvK::Mem(MemK::GetWord), addr, k); let x = cm.ex.d.resize(x, 16, false); let x = cm.ex.d.resize(x, 32, false); let x = cm.ex.d.shl(x, 16 - 16 * i); e = cm.ex.d.or_w(e, x); }
                let g = cm.ex.d.and(some, st.g);
                let bad = cm.ex.d.diff(payload, e, g);
                cm.never("C36", bad, "default long value", &|_| "the default long access does not join high and low word".into(), &site);
            }
            return name;
        }
        // content of an element before the access, as far as it was looked at
        let mut fresh_n = 0;
        let mut content = |ex: &mut Ex<'_>, i: W| -> W {
            fresh_n += 1;
            let mut v = ex.d.fresh(ew, &format!("unread{fresh_n}"));
            for e in &evs { if e.k == EvK::SliceLoad { let q = ex.d.eq(e.a, i); let g = ex.d.and(q, e.g); if g != F { v = ex.d.wite(g, e.v.unwrap(), v); } } }
            v
        };
        if !set {
            let mut exp = ex.d.k(vw, 0);
            for (n, i) in idx.iter().enumerate() {
                let c = content(ex, *i);
                let byte = if ew == 8 { c } else {
                    let hi = ex.d.shr(c, 8, false);
                    let odd = if size == 1 { ex.d.bit(addr, 0) } else if n % 2 == 1 { T } else { F };
                    let x = ex.d.wite(odd, c, hi);
                    ex.d.resize(x, 8, false)
                };
                let b = ex.d.resize(byte, vw, false);
                let b = ex.d.shl(b, vw - 8 - 8 * n as u32);
                exp = ex.d.or_w(exp, b);
            }
            let bad = ex.d.diff(payload, exp, both);
            let mut cm = Cmp { ex, rep, tag: tag.clone(), want: &w };
            cm.never("C36", bad, &format!("{m} value"), &|_| "does not return the big-endian value at the address".into(), &site);
        } else {
            // every store lies in the access; each element finally holds the value's bytes
            for e in &evs {
                if e.k != EvK::SliceStore { continue; }
                let mut hit = F;
                for i in &idx { let q = ex.d.eq(e.a, *i); hit = ex.d.or(hit, q); }
                let nh = ex.d.not(hit);
                let bad = ex.d.and(e.g, nh);
                let mut cm = Cmp { ex, rep, tag: tag.clone(), want: &w };
                cm.never("C36", bad, &format!("{m} stray"), &|_| "stores outside the addressed bytes".into(), &site);
            }
            for (n, i) in idx.iter().enumerate() {
                if ew == 16 && size > 1 && n % 2 == 1 { continue; }
                let before = content(ex, *i);
                let mut after = before;
                for e in &evs { if e.k == EvK::SliceStore { let q = ex.d.eq(e.a, *i); let g = ex.d.and(q, e.g); if g != F { after = ex.d.wite(g, e.v.unwrap(), after); } } }
                let exp = if ew == 8 { let s = ex.d.shr(val, vw - 8 - 8 * n as u32, false); ex.d.resize(s, 8, false) }
                    else if size > 1 { let s = ex.d.shr(val, vw - 16 - 8 * n as u32, false); ex.d.resize(s, 16, false) }
                    else {
                        let odd = ex.d.bit(addr, 0);
                        let v16 = ex.d.resize(val, 16, false);
                        let (lo, hi) = (ex.d.k(16, 0xff), ex.d.k(16, 0xff00));
                        let kl = ex.d.and_w(before, lo);
                        let kh = ex.d.and_w(before, hi);
                        let up = ex.d.shl(v16, 8);
                        let e0 = ex.d.or_w(kl, up);
                        let e1 = ex.d.or_w(kh, v16);
                        ex.d.wite(odd, e1, e0)
                    };
                let bad = ex.d.diff(after, exp, both);
                let mut cm = Cmp { ex, rep, tag: tag.clone(), want: &w };
                cm.never("C36", bad, &format!("{m} value"), &|_| "does not store the big-endian value at the address".into(), &site);
            }
        }
        let mut cm = Cmp { ex, rep, tag, want: &w };
        no_panic(&mut cm, "C36");
        cm.never("C36", bad_no, &format!("{m} refuses"), &|_| "refuses an access that lies inside the slice".into(), &site);
        cm.never("C36", bad_yes, &format!("{m} accepts"), &|_| "accepts an access that does not lie wholly inside the slice".into(), &site);
        cm.never("C36", gone, &format!("{m} ends"), &|_| "does not return".into(), &site);
        name
    })
}
