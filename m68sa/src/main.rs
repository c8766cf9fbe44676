#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod check;
mod compare;
mod core;
mod dom;
mod drive;
mod exec;
mod ffi;
mod ir;
mod isa;
mod spec;
mod layout;
mod lower;
mod asm;
mod more;
mod text;
mod roots;
mod scen;
mod time;

use rustc_middle::ty::TyCtxt;

struct Cb { prog: Option<ir::Prog>, ffi: bool }
struct Plain;
impl rustc_driver::Callbacks for Plain {}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if self.ffi && std::env::var("M68SA_CHECK").as_deref() == Ok("C34") {
            std::fs::write(std::env::var("M68SA_OUT").expect("output"), layout::describe(tcx)).expect("output");
            std::process::exit(0);
        }
        let t = std::time::Instant::now();
        let p = if self.ffi { roots::lower_ffi(tcx) } else { roots::lower_all(tcx) };
        eprintln!("lowered {} fns {} tys {} allocs in {:?}", p.fns.len(), p.tys.len(), p.allocs.len(), t.elapsed());
        self.prog = Some(p);
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| if std::env::var("BT").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()) } else if i.payload().downcast_ref::<dom::Budget>().is_none() { eprintln!("internal error: {i}"); }));
    let mut args: Vec<String> = std::env::args().collect();
    // as cargo's compiler wrapper: every crate but the C interface is compiled as usual
    let wrapped = args.get(1).is_some_and(|a| a.ends_with("rustc"));
    if wrapped {
        args.remove(1);
        let ffi = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "m68000_ffi") && !args.iter().any(|a| a == "--test");
        if !ffi { rustc_driver::compiler_entrypoint(&args, &mut Plain); return; }
    }
    let mut cb = Cb { prog: None, ffi: wrapped };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
    let p = cb.prog.unwrap();
    if let Ok(id) = std::env::var("M68SA_CHECK") {
        let t = std::time::Instant::now();
        let Some(tot) = check::run(&p, &id, std::env::var("VERIF_TIER").as_deref() == Ok("thorough")) else { eprintln!("no result for {id}"); std::process::exit(2) };
        let j = check::json(&p, &id, &tot, t.elapsed().as_secs_f64());
        match std::env::var("M68SA_OUT") { Ok(f) => std::fs::write(f, j).expect("output"), Err(_) => print!("{j}") }
        return;
    }
    if let Ok(a) = std::env::var("SWEEP") { dbg_sweep(&p, &a); return; }
    if let Ok(o) = std::env::var("CMP") { std::thread::Builder::new().stack_size(1<<30).spawn(move || dbg_cmp(&p, &o)).unwrap().join().unwrap(); return; }
    if let Ok(o) = std::env::var("STEP") { std::thread::Builder::new().stack_size(1<<30).spawn(move || dbg_step(&p, &o)).unwrap().join().unwrap(); return; }
    if std::env::var("DUMP_FNS").is_ok() {
        for f in &p.fns { println!("{} {} ok={} blocks={}", if f.local_crate { "L" } else { "X" }, f.name, f.ok, f.blocks.len()); }
        let mut models: std::collections::BTreeMap<String, usize> = Default::default();
        for f in &p.fns { for b in &f.blocks { if let ir::Term::Call { f: ir::Operand::Const(ir::CVal::Callee(c), _), .. } = &b.term { match c { ir::Callee::Fn(_) => {}, c => *models.entry(format!("{c:?}")).or_default() += 1 } } } }
        for (m, n) in models { println!("CALLEE {n} {m}"); }
        for (m, n) in &p.roots { println!("ROOT {n} {m}"); }
    }
}

fn dbg_step(p: &ir::Prog, o: &str) {
    let dis = std::env::var("DIS").is_ok();
    let cs = core::cpus(p);
    let mut ex = exec::Ex::new(p);
    ex.accept = std::env::var("ACCEPT").is_ok();
    if o == "all" {
        let t = std::time::Instant::now();
        let mut notes: std::collections::BTreeMap<String, usize> = Default::default();
        let mut slow: Vec<(u128, u32, usize)> = vec![];
        for op in (0..65536u32).step_by(std::env::var("STRIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(97)) {
            ex.reset();
            let t1 = std::time::Instant::now(); if std::env::var("TRACE").is_ok() { eprintln!("{op:04x}"); }
            if let Some(i) = isa::decode(op as u16) { spec::hints(&mut ex.d, &i); }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { core::step(&mut ex, &cs[0], dis, op); }));
            if r.is_err() { println!("BUDGET {op:04x} {:?} {} stack {:?}", t1.elapsed(), ex.where_(), ex.stack.iter().map(|(f, l)| format!("{}:{}", p.fns[*f as usize].path.rsplit("::").next().unwrap(), l)).collect::<Vec<_>>()); }
            slow.push((t1.elapsed().as_micros(), op, ex.d.nodes()));
            for n in &ex.notes { let e = notes.entry(n.clone()).or_default(); *e += 1; }
        }
        slow.sort();
        let n = slow.len();
        println!("total {:?} for {n}; median {:?} p90 {:?} p99 {:?}", t.elapsed(), slow[n / 2], slow[n * 9 / 10], slow[n * 99 / 100]);
        for s in slow.iter().rev().take(20) { println!("slow {} us op {:04x} nodes {}", s.0, s.1, s.2); }
        for (n, c) in notes { println!("NOTE {c} {n}"); }
        return;
    }
    let op = u32::from_str_radix(o, 16).unwrap();
    if let Some(i) = isa::decode(op as u16) { spec::hints(&mut ex.d, &i); }
    let t = std::time::Instant::now();
    if std::env::var("GROW").is_ok() { ex.grow = Some((0, (0, 0), Default::default())); }
    let s = core::step(&mut ex, &cs[0], dis, op);
    if let Some(g) = ex.grow.take() { let mut v: Vec<_> = g.2.into_iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1)); for ((f, l), n) in v.into_iter().take(25) { println!("GROW {n} {}:{l}", p.fns[f as usize].path); } }
    println!("{:?} nodes {} steps {}", t.elapsed(), ex.d.nodes(), ex.steps);
    for n in &ex.notes { println!("NOTE {n}"); }
    for e in ex.events.clone() { println!("EV {:?} ord {} g {} a {} v {:?} @ {:?}", e.k, ex.d.show(e.ord), ex.d.show_b(e.g), ex.d.show(e.a), e.v.map(|v| ex.d.show(v)), e.site.last().map(|(f, l)| format!("{}:{}", p.fns[*f as usize].path, l))); }
    for e in ex.panics.clone() { println!("PANIC {} g {} @ {:?}", e.msg, ex.d.show_b(e.g), e.site.last().map(|(f, l)| format!("{}:{}", p.fns[*f as usize].path, l))); }
    if let Some(s) = s {
        println!("g {} cycles {} exc {} vec {}", ex.d.show_b(s.g), ex.d.show(s.cycles), ex.d.show_b(s.exc), ex.d.show(s.vec));
        for path in ["regs.d.0", "regs.d.1", "regs.d.2", "regs.a.0", "regs.a.1", "regs.usp", "regs.ssp", "regs.pc", "regs.sr.t", "regs.sr.s", "regs.sr.interrupt_mask", "regs.sr.x", "regs.sr.n", "regs.sr.z", "regs.sr.v", "regs.sr.c", "stop"] {
            let pp: Vec<&str> = path.split('.').collect();
            match core::get(p, &s.cpu, cs[0].core, &pp) { Some(exec::V::W(w)) => { let x = ex.d.wrestrict(w, s.g); println!("{path} = {}", ex.d.show(x)) } o => println!("{path} = {o:?}") }
        }
        if let Some(v) = core::get(p, &s.cpu, cs[0].core, &["exceptions"]) { println!("exceptions {v:?}"); }
    }
}

fn dbg_cmp(p: &ir::Prog, o: &str) {
    let cs = core::cpus(p);
    let only = std::env::var("PROP").ok();
    let ops: Vec<u32> = if o == "all" { (0..65536u32).step_by(std::env::var("STRIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(97)).collect() } else { o.split(',').map(|x| u32::from_str_radix(x, 16).unwrap()).collect() };
    let ci = std::env::var("CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut ex = exec::Ex::new(p);
    ex.accept = std::env::var("ACCEPT").is_ok();
    let mut held: std::collections::BTreeMap<&str, u64> = Default::default();
    let mut agg: std::collections::BTreeMap<String, (usize, String)> = Default::default();
    let mut slow: Vec<(u128, u32)> = vec![];
    for op in ops {
        ex.reset();
        let t1 = std::time::Instant::now();
        if let Some(i) = isa::decode(op as u16) { spec::hints(&mut ex.d, &i); }
        let mut rep = compare::Report::default();
        let mn = isa::decode(op as u16).map(|i| format!("{:?}", i.mn)).unwrap_or("-".into());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = core::step(&mut ex, &cs[ci], false, op);
            if let Some(s) = s {
                let w = |x: &str| only.as_ref().map(|o| o == x).unwrap_or(true);
                let mut cm = compare::Cmp { ex: &mut ex, rep: &mut rep, tag: format!("{op:04x} {mn}"), want: &w };
                compare::check_step(&mut cm, cs[ci].core, ci == 1, op as u16, &s);
            } else { println!("{op:04x} no result"); }
        }));
        if r.is_err() { println!("BUDGET {op:04x}"); }
        slow.push((t1.elapsed().as_micros(), op));
        for (k, v) in &rep.held { *held.entry(k).or_default() += v; }
        for f in rep.finds {
            let k = format!("{} {:?} {} {}", f.prop, f.out, mn, f.key);
            let e = agg.entry(k).or_insert((0, format!("{} [{}] @{}", f.what, f.witness, f.site)));
            e.0 += 1;
        }
    }
    slow.sort();
    let n = slow.len();
    println!("median {:?} p90 {:?} p99 {:?} total {}", slow[n / 2], slow[n * 9 / 10], slow[n * 99 / 100], slow.iter().map(|x| x.0).sum::<u128>());
    for s in slow.iter().rev().take(10) { println!("slow {} us op {:04x}", s.0, s.1); }
    println!("{held:?}");
    for (k, (n, w)) in agg { println!("{n:6} {k}\n        {w}"); }
}

fn dbg_sweep(p: &ir::Prog, a: &str) {
    let t = std::time::Instant::now();
    let mut cs = core::cpus(p);
    if let Ok(c) = std::env::var("CPU") { let i: usize = c.parse().unwrap(); let c = cs.remove(i); cs = vec![c]; }
    let stride: u32 = std::env::var("STRIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tot = if a.starts_with("paths") { drive::paths(p, &cs, &|o| o % stride == 0, a == "paths-accept") } else { drive::sweep(p, &cs, &|o| o % stride == 0, std::env::var("DIS").is_ok(), a == "accept", &|_| true) };
    println!("{:?} jobs {} steps {} fns {} held {:?}", t.elapsed(), tot.instr, tot.steps, tot.fns.len(), tot.held);
    for (k, v) in &tot.finds { println!("{} {} {} {} n={}\n      {} [{}] @{}", k.0, if k.1 { "BROKEN" } else { "unknown" }, k.2, k.3, v.n, v.first, v.witness, v.site); }
    for (k, v) in &tot.notes { println!("NOTE {v} {k}"); }
}
