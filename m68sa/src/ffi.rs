//! C33 and C35: the C interface against the Rust operations it wraps.
use crate::compare::*;
use crate::core::*;
use crate::dom::*;
use crate::drive::*;
use crate::exec::*;
use crate::ir::*;
use crate::more::{blank, cell, lost, run_jobs};
use std::rc::Rc;

fn ends(p: &Prog, k: &str) -> Option<FnId> { let k = format!("::{k}"); p.roots.iter().find(|(n, _)| n.starts_with("fn:") && n.ends_with(&k)).map(|x| *x.1) }
fn site(p: &Prog, f: FnId) -> String { let fu = &p.fns[f as usize]; format!("{} ({}:{})", fu.path, p.files[fu.file as usize], fu.line) }
/// Every recorded panic, as one condition.
fn panics(ex: &mut Ex) -> B { let mut b = F; for q in ex.panics.clone() { b = ex.d.or(b, q.g); } b }
fn field<'p>(ex: &mut Ex<'p>, v: &V, ty: TyId, n: &str) -> Option<W> { let x = get(ex.p, v, ty, &[n])?; Some(ex.w(&x)) }

/// A required effect is missing where `bad` holds. A call the analyser could not follow may be the one
/// that has it: then nothing is known.
fn missing(cm: &mut Cmp<'_, '_>, prop: &'static str, bad: B, key: &str, what: &str, site: &str) {
    if bad != F && cm.ex.notes.iter().any(|n| n.contains("unmodelled")) { return lost(cm.rep, &format!("{key}: a call could not be followed")); }
    cm.never(prop, bad, key, &|_| what.to_string(), site);
}

/// C33: the callback structure's memory operations.
pub fn callbacks(p: &Prog, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let jobs = ["get_byte", "get_word", "get_long", "set_byte", "set_word", "set_long", "reset_instruction"];
    par(p, &jobs, &|ex, m, rep| {
        let w = |x: &str| want(x);
        let Some(f) = p.roots.iter().find(|(k, _)| k.starts_with("mem:") && k.ends_with(&format!("::{m}"))).map(|x| *x.1) else { lost(rep, &format!("no {m}")); return m.to_string() };
        let site = site(p, f);
        let TyK::Ptr { to } = &p.ty(p.fns[f as usize].locals[1]).k else { lost(rep, "receiver"); return m.to_string() };
        let TyK::Adt { variants, .. } = &p.ty(*to).k else { lost(rep, "callback structure"); return m.to_string() };
        let user = V::W(ex.d.ptr(PtrT { base: Base::Ext(7), path: vec![PElem::Idx(0)], meta: None }));
        let mut fs = vec![];
        for (n, t) in variants[0].fnames.iter().zip(&variants[0].fields) { fs.push(match &p.ty(*t).k { TyK::FnPtr => ex.fun(Callee::Model(format!("cb:{n}"))), _ => user.clone() }); }
        let st = cell(ex, *to, V::Agg(Rc::new(fs.clone())));
        ex.accept = true;
        ex.events.clear(); ex.panics.clear(); ex.ext_calls.clear();
        ex.hooks = Some(Box::new(|ex, n, args, _, ret, st| {
            let name = n.strip_prefix("cb:")?;
            let site = ex.site();
            let i = ex.ext_calls.len();
            let p = ex.p;
            // what the callback answers, kept behind its arguments
            let out: Vec<V> = match &p.ty(ret).k {
                TyK::Adt { variants, .. } if variants.len() == 1 => variants[0].fields.iter().zip(&variants[0].fnames).map(|(t, fname)| match p.width(*t) { Some(wd) => V::W(ex.d.fresh(wd, &format!("{fname}{i}"))), None => V::Top }).collect(),
                _ => vec![],
            };
            let named = |n: &str| match &p.ty(ret).k { TyK::Adt { variants, .. } => variants[0].fnames.iter().position(|f| f == n).map(|i| out[i].clone()), _ => None };
            let mut all = args.to_vec();
            all.extend([named("data").unwrap_or(V::Top), named("exception").unwrap_or(V::Top)]);
            ex.ext_calls.push(ExtCall { name: name.to_string(), g: st.g, args: all, ord: st.ord, site });
            Some(V::Agg(Rc::new(out)))
        }));
        let bits: u32 = if m.ends_with("byte") { 8 } else if m.ends_with("word") { 16 } else { 32 };
        let addr = ex.d.fresh(32, "addr");
        let val = ex.d.fresh(bits, "value");
        let set = m.starts_with("set");
        let reset = m.starts_with("reset");
        let me = ex.obj_ptr(0);
        let mut args = vec![me];
        if !reset { args.push(V::W(addr)); }
        if set { args.push(V::W(val)); }
        let exp: Vec<V> = args[1..].iter().cloned().chain([user.clone()]).collect();
        let r = ex.call(f, args, st, 0);
        ex.hooks = None;
        let calls = std::mem::take(&mut ex.ext_calls);
        let pan = panics(ex);
        let g = r.as_ref().map(|r| r.1.g).unwrap_or(F);
        let changed = r.as_ref().map(|r| !Ex::same(&r.1.fr[0].vals[0], &V::Agg(Rc::new(fs.clone())))).unwrap_or(false);
        let mut cm = Cmp { ex, rep, tag: format!("callback structure, {m}"), want: &w };
        cm.never("C33", pan, "panic", &|_| "panics".into(), &site);
        let ng = cm.ex.d.not(g);
        let np = cm.ex.d.not(pan);
        let ng = cm.ex.d.and(ng, np);
        cm.never("C33", ng, &format!("{m} returns"), &|_| "does not return".into(), &site);
        if changed { cm.never("C33", T, &format!("{m} structure"), &|_| "changes the callback structure".into(), &site); } else { cm.rep.ok("C33"); }
        let mut any = F;
        for c in &calls {
            let twice = cm.ex.d.and(any, c.g);
            any = cm.ex.d.or(any, c.g);
            cm.never("C33", twice, &format!("{m} once"), &|_| "calls the callbacks more than once".into(), &site);
            let wrong = if c.name != **m { c.g } else { F };
            cm.never("C33", wrong, &format!("{m} callback"), &|_| format!("calls {}", c.name), &site);
            if wrong != F { continue; }
            if c.args.len() != exp.len() + 2 { cm.never("C33", c.g, &format!("{m} arguments"), &|_| "passes another number of arguments".into(), &site); continue; }
            for (i, (a, b)) in c.args.iter().zip(&exp).enumerate() {
                let (x, y) = (cm.ex.w(a), cm.ex.w(b));
                let bad = cm.ex.d.diff(x, y, c.g);
                cm.never("C33", bad, &format!("{m} argument {i}"), &|_| format!("passes the wrong argument {i}"), &site);
            }
        }
        let none = cm.ex.d.not(any);
        let none = cm.ex.d.and(none, g);
        missing(&mut cm, "C33", none, &format!("{m} calls"), "does not call the callback", &site);
        if reset { return m.to_string(); }
        let Some((v, _)) = r else { return m.to_string() };
        // the verdict and data of the single call
        let mut ok = F;
        let mut data: Option<W> = None;
        for c in &calls {
            let [.., V::W(dt), V::W(e)] = &c.args[..] else { lost(cm.rep, "callback result"); return m.to_string() };
            let (dt, e) = (*dt, *e);
            let z = cm.ex.d.is_zero(e);
            let z = cm.ex.d.and(z, c.g);
            ok = cm.ex.d.or(ok, z);
            data = Some(match data { None => dt, Some(o) => cm.ex.d.wite(c.g, dt, o) });
        }
        let (some, payload) = match &v { V::En(e) if set => { let z = cm.ex.d.is_zero(e.disc); (cm.ex.d.not(z), cm.ex.d.k(8, 0)) } _ => opt(cm.ex, &v) };
        let yes = cm.ex.d.not(ok);
        let yes = cm.ex.d.and(yes, some);
        let yes = cm.ex.d.and(yes, g);
        cm.never("C33", yes, &format!("{m} refused"), &|_| "reports success although the callback refused".into(), &site);
        let no = cm.ex.d.not(some);
        let no = cm.ex.d.and(no, ok);
        let no = cm.ex.d.and(no, g);
        cm.never("C33", no, &format!("{m} accepted"), &|_| "reports a refusal although the callback succeeded".into(), &site);
        if let (false, Some(dt)) = (set, data) {
            let dt = cm.ex.d.resize(dt, bits, false);
            let both = cm.ex.d.and(some, ok);
            let both = cm.ex.d.and(both, g);
            let bad = cm.ex.d.diff(payload, dt, both);
            cm.never("C33", bad, &format!("{m} data"), &|_| "does not return the callback's data".into(), &site);
        }
        m.to_string()
    })
}

#[derive(Clone, Debug)]
enum FJob { Run { cpu: usize, f: &'static str, prog: Vec<u32>, stopped: bool, any: bool }, Fetch(usize, &'static str), Vector(usize, u32), Regs(usize, &'static str), New(usize, &'static str), Delete(usize) }

/// C35: every exported function against the Rust operation.
pub fn wrappers(p: &Prog, cs: &[Cpu], thorough: bool, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let mut jobs = vec![];
    for cpu in 0..cs.len() {
        for f in ["get_next_word", "get_next_long", "peek_next_word"] { jobs.push(FJob::Fetch(cpu, f)); }
        for f in ["registers", "registers_mut", "get_registers", "set_registers"] { jobs.push(FJob::Regs(cpu, f)); }
        for f in ["new", "new_no_reset"] { jobs.push(FJob::New(cpu, f)); }
        jobs.push(FJob::Delete(cpu));
        if let Some(f) = ends(p, &format!("m68000_{}_exception", cs[cpu].name.to_lowercase())) {
            if let TyK::Adt { variants, .. } = &p.ty(p.fns[f as usize].locals[2]).k { for v in 0..variants.len() as u32 { jobs.push(FJob::Vector(cpu, v)); } }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    for j in run_jobs(thorough) {
        if !j.reqs.is_empty() { continue; }
        jobs.push(FJob::Run { cpu: j.cpu, f: j.f, prog: j.prog.clone(), stopped: j.stopped, any: j.any });
        for f in ["interpreter", "interpreter_exception", "disassembler_interpreter", "disassembler_interpreter_exception"] {
            if seen.insert((j.cpu, f, j.prog.clone(), j.stopped)) && j.prog.len() <= 2 { jobs.push(FJob::Run { cpu: j.cpu, f, prog: j.prog.clone(), stopped: j.stopped, any: true }); }
        }
    }
    shuffle(&mut jobs);
    par(p, &jobs, &|ex, j, rep| {
        let r = one(ex, cs, j, rep, want);
        ex.program = None; ex.hooks = None;
        if r.is_none() { lost(rep, &format!("{j:?}: no outcome")); }
        match j { FJob::Run { f, .. } | FJob::Fetch(_, f) | FJob::Regs(_, f) | FJob::New(_, f) => f.to_string(), FJob::Vector(..) => "exception".into(), FJob::Delete(_) => "delete".into() }
    })
}

fn one<'p>(ex: &mut Ex<'p>, cs: &[Cpu], j: &FJob, rep: &mut Report, want: &(dyn Fn(&str) -> bool + Sync)) -> Option<()> {
    let p = ex.p;
    let w = |x: &str| want(x);
    let (ci, op) = match j { FJob::Run { cpu, f, .. } => (*cpu, *f), FJob::Fetch(c, f) | FJob::Regs(c, f) | FJob::New(c, f) => (*c, *f), FJob::Vector(c, _) => (*c, "exception"), FJob::Delete(c) => (*c, "delete") };
    let c = &cs[ci];
    let name = format!("m68000_{}_{op}", c.name.to_lowercase());
    let Some(f) = ends(p, &name) else { lost(rep, &format!("no {name}")); return Some(()) };
    let site = site(p, f);
    let ret = p.fns[f as usize].locals[0];
    let rust = p.roots.get(&format!("{}::{op}", c.name)).copied();
    ex.accept = true;
    ex.opcode = 0x4e71;
    let stopped = matches!(j, FJob::Run { stopped: true, .. });
    let mut st = ex.machine(c.core, stopped);
    let before = st.fr[0].vals[0].clone();
    if let Some(V::W(w)) = get(p, &before, c.core, &["regs", "pc"]) { ex.pc_term = ex.d.as_leaf(w); }
    let (a0, m) = (ex.obj_ptr(0), ex.obj_ptr(1));
    ex.events.clear(); ex.panics.clear();
    let none = ex.d.k(8, 0);
    // the machine as it was, with nothing reported
    let keep = |ex: &mut Ex<'p>, cpu: V, st: &St<'p>| { let pan = panics(ex); Ran { st: Step { g: st.g, ord: st.ord, cpu, cycles: none, exc: F, vec: none }, ev: std::mem::take(&mut ex.events), pan } };
    let same_pending = |cm: &mut Cmp<'_, 'p>, a: &V, b: &V, g: B, site: &str| -> Option<()> {
        let (x, y) = (crate::scen::pending(cm.ex, c, a, g)?, crate::scen::pending(cm.ex, c, b, g)?);
        let mut ks: Vec<u32> = x.keys().chain(y.keys()).copied().collect();
        ks.sort(); ks.dedup();
        if ks.is_empty() { cm.rep.ok("C35"); }
        for k in ks {
            let bad = cm.ex.d.xor(*x.get(&k).unwrap_or(&F), *y.get(&k).unwrap_or(&F));
            let bad = cm.ex.d.and(bad, g);
            cm.never("C35", bad, &format!("{op} pending"), &|_| format!("vector {k} is pending in one and not in the other"), site);
        }
        Some(())
    };
    match j {
        FJob::Run { prog, stopped, any, .. } => {
            ex.program = Some(prog.clone());
            st.g = crate::scen::even(ex);
            let bits: Vec<B> = { let w = ex.d.fresh(64, "budget"); let l = ex.d.as_leaf(w)?; ex.d.bits(l).to_vec() };
            let kept = if *any { 64 } else { 6 };
            let l = ex.d.mk_bits(bits.iter().enumerate().map(|(i, b)| if i < kept { *b } else { F }).collect());
            let budget = V::W(ex.d.leaf_w(l));
            let dis = op.starts_with("dis");
            let mut args = vec![a0.clone(), m.clone()];
            if op.starts_with("cycle") { args.push(budget.clone()); }
            let Some((rv, rst)) = ex.call(rust?, args.clone(), st.clone(), 0) else { lost(rep, &format!("{name}: the Rust operation does not return")); return Some(()) };
            let pan = panics(ex);
            let (cyc, exc, vec, pc) = match (&rv, dis) {
                (V::Agg(r), true) => { let pc = ex.w(r.first()?); let cy = ex.w(r.get(2)?); match r.get(3) { Some(x) => { let (e, v) = opt(ex, x); (cy, e, v, Some(pc)) } None => (cy, F, none, Some(pc)) } }
                (V::Agg(r), false) => { let cy = ex.w(r.first()?); let (e, v) = opt(ex, r.get(1)?); (cy, e, v, None) }
                (v, _) => (ex.w(v), F, none, None),
            };
            let cpu_v = rst.fr[0].vals[0].clone();
            let b = Ran { st: Step { g: rst.g, ord: rst.ord, cpu: cpu_v, cycles: cyc, exc, vec }, ev: std::mem::take(&mut ex.events), pan };
            ex.panics.clear(); ex.ext_calls.clear();
            // the caller's text buffer and the text
            let len = ex.d.fresh(64, "len");
            let text = ex.d.fresh(64, "text length");
            if dis {
                ex.slices.push(SliceObj { len: text, elem_w: 8 });
                ex.slices.push(SliceObj { len, elem_w: 8 });
                let buf = V::W(ex.d.ptr(PtrT { base: Base::Ext(1), path: vec![PElem::Idx(0)], meta: None }));
                args.push(buf); args.push(V::W(len));
                // a text has at least its terminating zero
                let z = ex.d.is_zero(text);
                let nz = ex.d.not(z);
                st.g = ex.d.and(st.g, nz);
                for x in [len, text] { let b = ex.d.bit(x, 63); let nb = ex.d.not(b); st.g = ex.d.and(st.g, nb); }
                ex.hooks = Some(Box::new(move |ex, n, args, _, ret, st| {
                    // the text as a C string (2), as bytes with (1) or without (0) its zero
                    let owner = n.contains("CString") || n.contains("Vec") || n.contains("String");
                    let leaf = n.rsplit("::").next().unwrap_or("");
                    let bytes = |ex: &mut Ex<'p>, zero: bool| -> V { let one = ex.d.k(64, 1); let l = if zero { text } else { ex.d.sub(text, one) }; V::W(ex.d.ptr(PtrT { base: Base::Ext(0), path: vec![PElem::From(0)], meta: Some(l) })) };
                    if n.contains("CString") && leaf == "new" { let t = V::W(ex.d.k(8, 2)); return Some(ex.variant(ret, 0, vec![t])); }
                    if leaf == "into_bytes_with_nul" { return Some(V::W(ex.d.k(8, 1))); }
                    if leaf == "into_bytes" { return Some(V::W(ex.d.k(8, 0))); }
                    if matches!(leaf, "as_ptr" | "as_mut_ptr") || owner && leaf == "into_raw" { return Some(V::W(ex.d.ptr(PtrT { base: Base::Ext(0), path: vec![PElem::Idx(0)], meta: None }))); }
                    if matches!(leaf, "as_bytes_with_nul" | "to_bytes_with_nul") { return Some(bytes(ex, true)); }
                    if matches!(leaf, "as_bytes" | "to_bytes") { return Some(bytes(ex, false)); }
                    if leaf == "count_bytes" { let one = ex.d.k(64, 1); return Some(V::W(ex.d.sub(text, one))); }
                    if owner && matches!(leaf, "deref" | "as_slice" | "as_c_str" | "as_ref" | "borrow") || owner && leaf == "len" {
                        let t = match args.first() { Some(a) => ex.behind(st, a), None => V::Top };
                        let kind = match &t { V::W(w) => ex.d.as_const(*w), _ => None };
                        let zero = match kind { Some(0) => false, Some(_) => true, None if n.contains("String") && !n.contains("CString") => false, None => return None };
                        if leaf == "len" { let one = ex.d.k(64, 1); return Some(V::W(if zero { text } else { ex.d.sub(text, one) })); }
                        return Some(bytes(ex, zero));
                    }
                    if n.contains("CString") { return Some(V::Top); }
                    if n.contains("::copy_from") || n.contains("::copy_to") || n.ends_with("copy_nonoverlapping") || n.ends_with("::copy") {
                        let (d, s) = if n.contains("::copy_from") { (0, 1) } else { (1, 0) };
                        let a = vec![args[d].clone(), args[s].clone(), args[2].clone()];
                        let site = ex.site();
                        // copies after earlier stores would undo them: the order matters
                        let at = ex.events.len();
                        let ord = ex.d.k(16, at as u128);
                        ex.ext_calls.push(ExtCall { name: "copy".into(), g: st.g, args: a, ord, site });
                        return Some(V::Agg(Rc::new(vec![])));
                    }
                    None
                }));
            }
            let r = ex.call(f, args, st.clone(), 0);
            ex.hooks = None;
            let tag = format!("{name} over {prog:04x?}{}", if *stopped { ", stopped" } else { "" });
            let Some((v, ast)) = r else { let mut cm = Cmp { ex, rep, tag, want: &w }; cm.never("C35", T, &format!("{op} ends"), &|_| "never returns".into(), &site); return Some(()) };
            let pan = panics(ex);
            let (cyc, exc, vec) = match &p.ty(ret).k {
                TyK::Adt { .. } => { let cy = field(ex, &v, ret, "cycles")?; match field(ex, &v, ret, "exception") { Some(e) => { let z = ex.d.is_zero(e); (cy, ex.d.not(z), e) } None => (cy, F, none) } }
                _ => (ex.w(&v), F, none),
            };
            let all = std::mem::take(&mut ex.events);
            let (stores, ev): (Vec<(usize, Event)>, Vec<(usize, Event)>) = all.into_iter().enumerate().partition(|e| e.1.k == EvK::SliceStore);
            let ev = ev.into_iter().map(|e| e.1).collect();
            let cpu_v = ast.fr[0].vals[0].clone();
            let a = Ran { st: Step { g: ast.g, ord: ast.ord, cpu: cpu_v, cycles: cyc, exc, vec }, ev, pan };
            let mut b = b;
            b.st.g = ex.d.and(b.st.g, st.g);
            b.pan = ex.d.and(b.pan, st.g);
            let g = ex.d.and(a.st.g, b.st.g);
            let copies = std::mem::take(&mut ex.ext_calls);
            let mut cm = Cmp { ex, rep, tag, want: &w };
            check_paths(&mut cm, c, &a, &b, "C35");
            same_pending(&mut cm, &a.st.cpu, &b.st.cpu, g, &site)?;
            if let Some(pc) = pc {
                let x = field(cm.ex, &v, ret, "pc")?;
                let bad = cm.ex.d.diff(x, pc, g);
                cm.never("C35", bad, &format!("{op} pc"), &|_| "returns another address".into(), &site);
                text_copy(&mut cm, op, g, len, text, &copies, &stores, &site);
            }
        }
        FJob::Fetch(..) => {
            let z = ex.d.k(32, 0);
            ex.accept = false;
            let Some((rv, rst)) = ex.call(rust?, vec![a0.clone(), m.clone()], st.clone(), 0) else { lost(rep, &format!("{name}: the Rust operation does not return")); return Some(()) };
            let b = keep(ex, rst.fr[0].vals[0].clone(), &rst);
            ex.panics.clear();
            let V::En(e) = &rv else { return None };
            let bad = ex.d.is_zero(e.disc);
            let okg = bad;
            let first = |ex: &mut Ex<'p>, i: usize| -> W { match e.pay.get(i).and_then(|x| x.as_ref()).and_then(|x| x.first()) { Some(x) => ex.w(x), None => z } };
            let (d, er) = (first(ex, 0), first(ex, 1));
            let d = ex.d.resize(d, 32, false);
            let r = ex.call(f, vec![a0, m], st, 0);
            let Some((v, ast)) = r else { let mut cm = Cmp { ex, rep, tag: name, want: &w }; cm.never("C35", T, &format!("{op} ends"), &|_| "never returns".into(), &site); return Some(()) };
            let a = keep(ex, ast.fr[0].vals[0].clone(), &ast);
            let g = ex.d.and(a.st.g, b.st.g);
            let (x, q) = (field(ex, &v, ret, "data")?, field(ex, &v, ret, "exception")?);
            let mut cm = Cmp { ex, rep, tag: name.clone(), want: &w };
            check_paths(&mut cm, c, &a, &b, "C35");
            let good = cm.ex.d.and(g, okg);
            let nok = cm.ex.d.not(okg);
            let fail = cm.ex.d.and(g, nok);
            let bad = cm.ex.d.diff(x, d, good);
            cm.never("C35", bad, &format!("{op} data"), &|_| "does not return the word read".into(), &site);
            let zz = cm.ex.d.k(8, 0);
            let bad = cm.ex.d.diff(q, zz, good);
            cm.never("C35", bad, &format!("{op} no exception"), &|_| "reports an exception for a successful read".into(), &site);
            let bad = cm.ex.d.diff(q, er, fail);
            cm.never("C35", bad, &format!("{op} exception"), &|_| "does not report the vector of the refusal".into(), &site);
        }
        FJob::Vector(_, v) => {
            let ty = p.fns[f as usize].locals[2];
            let TyK::Adt { variants, .. } = &p.ty(ty).k else { return None };
            let n = variants[*v as usize].discr as u32;
            let arg = ex.variant(ty, *v, vec![]);
            let r = ex.call(f, vec![a0, arg], st.clone(), 0);
            let b = Ran { st: Step { g: T, ord: st.ord, cpu: before.clone(), cycles: none, exc: F, vec: none }, ev: vec![], pan: F };
            let tag = format!("{name}({})", variants[*v as usize].name);
            let Some((_, ast)) = r else { let mut cm = Cmp { ex, rep, tag, want: &w }; cm.never("C35", T, &format!("{op} ends"), &|_| "never returns".into(), &site); return Some(()) };
            let a = keep(ex, ast.fr[0].vals[0].clone(), &ast);
            let pend = crate::scen::pending(ex, c, &a.st.cpu, a.st.g)?;
            let mut cm = Cmp { ex, rep, tag, want: &w };
            check_paths(&mut cm, c, &a, &b, "C35");
            let here = *pend.get(&n).unwrap_or(&F);
            let miss = cm.ex.d.not(here);
            cm.never("C35", miss, "exception requested", &|_| format!("vector {n} does not become pending"), &site);
            for (k, g) in pend { if k != n { cm.never("C35", g, "exception other", &|_| format!("vector {k} becomes pending"), &site); } }
        }
        FJob::Regs(_, which) => {
            let ri = crate::core::fidx(p, c.core, "regs")? as u32;
            let mut args = vec![a0];
            let mut new = None;
            if *which == "set_registers" { let v = ex.sym(p.fns[f as usize].locals[2], "new", false); args.push(v.clone()); new = Some(v); }
            let r = ex.call(f, args, st.clone(), 0);
            let Some((v, ast)) = r else { let mut cm = Cmp { ex, rep, tag: name, want: &w }; cm.never("C35", T, &format!("{op} ends"), &|_| "never returns".into(), &site); return Some(()) };
            let after = ast.fr[0].vals[0].clone();
            let expect = match (&new, &before) { (Some(n), V::Agg(a)) => { let mut a = a.to_vec(); a[ri as usize] = n.clone(); V::Agg(Rc::new(a)) } _ => before.clone() };
            let a = keep(ex, after, &ast);
            let b = Ran { st: Step { g: T, ord: st.ord, cpu: expect, cycles: none, exc: F, vec: none }, ev: vec![], pan: F };
            let mut cm = Cmp { ex, rep, tag: name.clone(), want: &w };
            check_paths(&mut cm, c, &a, &b, "C35");
            same_pending(&mut cm, &a.st.cpu, &b.st.cpu, T, &site)?;
            match *which {
                "registers" | "registers_mut" => {
                    let want_p = cm.ex.d.ptr(PtrT { base: Base::Obj(0, 0), path: vec![PElem::Field(ri)], meta: None });
                    let x = cm.ex.w(&v);
                    let bad = if x == want_p { F } else { T };
                    cm.never("C35", bad, &format!("{op} pointer"), &|_| "does not return the address of the core's registers".into(), &site);
                }
                "get_registers" => {
                    let V::Agg(all) = &before else { return None };
                    let mut cpu2 = all.to_vec();
                    cpu2[ri as usize] = v;
                    let a = Ran { st: Step { g: T, ord: st.ord, cpu: V::Agg(Rc::new(cpu2)), cycles: none, exc: F, vec: none }, ev: vec![], pan: F };
                    check_paths(&mut cm, c, &a, &b, "C35");
                }
                _ => {}
            }
        }
        FJob::New(..) => {
            let st = blank(ex);
            let Some((rv, rst)) = ex.call(rust?, vec![], st.clone(), 0) else { return None };
            let b = keep(ex, rv.clone(), &rst);
            ex.panics.clear();
            let Some((v, ast)) = ex.call(f, vec![], st, 0) else { let mut cm = Cmp { ex, rep, tag: name, want: &w }; cm.never("C35", T, &format!("{op} ends"), &|_| "never returns".into(), &site); return Some(()) };
            let x = ex.w(&v);
            let l = ex.d.as_leaf(x)?;
            let Leaf::Ptr(t) = ex.d.leafk(l).clone() else { return None };
            let Base::Obj(0, i) = ex.d.ptrs[t as usize].base else { return None };
            let a = keep(ex, ast.fr[0].vals[i as usize].clone(), &ast);
            let mut cm = Cmp { ex, rep, tag: name, want: &w };
            check_paths(&mut cm, c, &a, &b, "C35");
            same_pending(&mut cm, &a.st.cpu, &b.st.cpu, T, &site)?;
        }
        FJob::Delete(_) => {
            ex.hooks = Some(Box::new(|ex, n, args, _, _, st| {
                if !n.contains("from_raw") && !n.contains("forget") && !n.contains("into_raw") && !n.contains("leak") { return None; }
                let site = ex.site();
                ex.ext_calls.push(ExtCall { name: n.rsplit("::").next().unwrap_or("").to_string(), g: st.g, args: args.to_vec(), ord: st.ord, site });
                if n.contains("forget") { Some(V::Agg(Rc::new(vec![]))) } else { None }
            }));
            let r = ex.call(f, vec![a0.clone()], st.clone(), 0);
            ex.hooks = None;
            let calls = std::mem::take(&mut ex.ext_calls);
            let Some((_, ast)) = r else { let mut cm = Cmp { ex, rep, tag: name, want: &w }; cm.never("C35", T, "delete ends", &|_| "never returns".into(), &site); return Some(()) };
            let a = keep(ex, before.clone(), &ast);
            let mut cm = Cmp { ex, rep, tag: name, want: &w };
            cm.never("C35", a.pan, "delete panics", &|_| "panics".into(), &site);
            let own: Vec<&ExtCall> = calls.iter().filter(|c| c.name == "from_raw").collect();
            let mut freed = F;
            for c in &own {
                let twice = cm.ex.d.and(freed, c.g);
                freed = cm.ex.d.or(freed, c.g);
                cm.never("C35", twice, "delete once", &|_| "releases the core twice".into(), &site);
                let bad = if Ex::same(&c.args[0], &a0) { F } else { c.g };
                cm.never("C35", bad, "delete which", &|_| "releases another object".into(), &site);
            }
            let nf = cm.ex.d.not(freed);
            missing(&mut cm, "C35", nf, "delete frees", "does not release the core", &site);
            let kept = calls.iter().any(|c| c.name != "from_raw") as B;
            cm.never("C35", kept, "delete keeps", &|_| "keeps the core allocated".into(), &site);
        }
    }
    Some(())
}

/// What a disassembling function leaves in the caller's buffer.
fn text_copy<'p>(cm: &mut Cmp<'_, 'p>, op: &str, g: B, len: W, text: W, copies: &[ExtCall], stores: &[(usize, Event)], site: &str) {
    let at0 = |v: &V, ex: &mut Ex<'p>, n: u32| -> bool { let w = ex.w(v); match ex.d.as_leaf(w).map(|l| ex.d.leafk(l).clone()) { Some(Leaf::Ptr(t)) => { let t = &ex.d.ptrs[t as usize]; t.base == Base::Ext(n) && t.path == vec![PElem::Idx(0)] } _ => false } };
    let z = cm.ex.d.is_zero(len);
    let nz = cm.ex.d.not(z);
    let fits = cm.ex.d.le(text, len, false);
    let one = cm.ex.d.k(64, 1);
    let last = cm.ex.d.sub(len, one);
    // the place of the terminating zero, and so the number of characters before it
    let tlast = cm.ex.d.sub(text, one);
    let stop = cm.ex.d.wite(fits, tlast, last);
    let room = cm.ex.d.and(g, nz);
    // nothing comes before it when there is room for the zero only
    let mut copied = cm.ex.d.is_zero(stop);
    let mut ended = F;
    for c in copies {
        let cg = cm.ex.d.and(c.g, g);
        if !(at0(&c.args[0], cm.ex, 1) && at0(&c.args[1], cm.ex, 0)) { cm.ex.note("a copy that is not between the text and the buffer"); continue; }
        let n = cm.ex.w(&c.args[2]);
        let over = cm.ex.d.lt(len, n, false);
        let over = cm.ex.d.and(over, cg);
        cm.never("C35", over, &format!("{op} buffer"), &|_| "writes beyond the caller's buffer".into(), site);
        let over = cm.ex.d.lt(text, n, false);
        let over = cm.ex.d.and(over, cg);
        cm.never("C35", over, &format!("{op} text"), &|_| "reads beyond the text".into(), site);
        // enough of the text
        let short = cm.ex.d.lt(n, stop, false);
        let ok = cm.ex.d.not(short);
        let ok = cm.ex.d.and(ok, cg);
        copied = cm.ex.d.or(copied, ok);
        // the zero of the text comes along
        let all = cm.ex.d.eq(n, text);
        let all = cm.ex.d.and(all, fits);
        let all = cm.ex.d.and(all, cg);
        ended = cm.ex.d.or(ended, all);
    }
    let nc = cm.ex.d.not(copied);
    let bad = cm.ex.d.and(room, nc);
    missing(cm, "C35", bad, &format!("{op} copy"), "does not copy the text", site);
    for (i, s) in stores {
        let sg = cm.ex.d.and(s.g, g);
        let inb = cm.ex.d.lt(s.a, len, false);
        let out = cm.ex.d.not(inb);
        let out = cm.ex.d.and(out, sg);
        cm.never("C35", out, &format!("{op} buffer store"), &|_| "writes beyond the caller's buffer".into(), site);
        let Some(v) = s.v else { continue };
        let e = cm.ex.d.eq(s.a, stop);
        let zero = cm.ex.d.is_zero(v);
        let t = cm.ex.d.and(e, zero);
        let t = cm.ex.d.and(t, sg);
        // a later copy over the place undoes the store
        let mut t1 = t;
        for c in copies {
            let at = cm.ex.d.as_const(c.ord).unwrap_or(0);
            if at as usize <= *i { continue; }
            let n = cm.ex.w(&c.args[2]);
            let over = cm.ex.d.lt(s.a, n, false);
            let over = cm.ex.d.and(over, c.g);
            let no = cm.ex.d.not(over);
            t1 = cm.ex.d.and(t1, no);
        }
        ended = cm.ex.d.or(ended, t1);
        // before the zero, only the copied characters
        let before = cm.ex.d.lt(s.a, stop, false);
        let odd = cm.ex.d.and(sg, before);
        let mut kept = odd;
        for c in copies {
            let at = cm.ex.d.as_const(c.ord).unwrap_or(0);
            if at as usize <= *i { continue; }
            let n = cm.ex.w(&c.args[2]);
            let over = cm.ex.d.lt(s.a, n, false);
            let over = cm.ex.d.and(over, c.g);
            let no = cm.ex.d.not(over);
            kept = cm.ex.d.and(kept, no);
        }
        cm.never("C35", kept, &format!("{op} store"), &|_| "stores something else over the text".into(), site);
        // and a zero there stays a zero
        let nz = cm.ex.d.not(zero);
        let odd = cm.ex.d.and(e, nz);
        let odd = cm.ex.d.and(odd, sg);
        cm.never("C35", odd, &format!("{op} last"), &|_| "stores something else over the terminating zero".into(), site);
    }
    let ne = cm.ex.d.not(ended);
    let bad = cm.ex.d.and(room, ne);
    missing(cm, "C35", bad, &format!("{op} zero"), "leaves the text without its terminating zero", site);
}
