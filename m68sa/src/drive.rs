//! Parallel sweeps over the opcode space.
use crate::compare::*;
use crate::core::*;
use crate::exec::*;
use crate::ir::*;
use crate::isa::*;
use crate::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// Seconds a check may take; what is not analysed by then is undecided.
const TIME: u64 = 600;
static START: OnceLock<Instant> = OnceLock::new();

#[derive(Default, Clone, Debug)]
pub struct Agg { pub n: u64, pub first: String, pub witness: String, pub site: String, pub prop: String, pub key: String, pub mn: String, pub broken: bool }
#[derive(Default)]
pub struct Total {
    pub held: BTreeMap<String, u64>,
    /// (property, broken?, mnemonic, key)
    pub finds: BTreeMap<(String, bool, String, String), Agg>,
    pub steps: u64,
    pub instr: u64,
    /// Jobs not analysed, for want of time.
    pub skipped: u64,
    pub fns: std::collections::BTreeSet<FnId>,
    pub notes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Total {
    pub fn join(&mut self, t: Total) {
        for (k, v) in t.held { *self.held.entry(k).or_default() += v; }
        for (k, v) in t.finds { let e = self.finds.entry(k).or_default(); if e.n == 0 { *e = v; } else { e.n += v.n; } }
        self.steps += t.steps; self.instr += t.instr; self.skipped += t.skipped;
        self.fns.extend(t.fns);
        for (k, v) in t.notes { *self.notes.entry(k).or_default() += v; }
        self.samples.extend(t.samples);
        self.samples.truncate(8);
    }
    pub fn add(&mut self, mn: &str, rep: Report) {
        for (k, v) in rep.held { *self.held.entry(k.to_string()).or_default() += v; }
        for f in rep.finds {
            let b = f.out == Out::Broken;
            let e = self.finds.entry((f.prop.to_string(), b, mn.to_string(), f.key.clone())).or_default();
            if e.n == 0 { *e = Agg { n: 0, first: f.what, witness: f.witness, site: f.site, prop: f.prop.to_string(), key: f.key, mn: mn.to_string(), broken: b }; }
            e.n += 1;
        }
    }
}

pub fn mn_of(op: u32) -> String { match decode(op as u16) { Some(i) => format!("{:?}", i.mn), None => "none".into() } }

/// Run `f` for every job on all processors; each worker owns one analyser.
pub fn par<'p, J: Sync>(p: &'p Prog, jobs: &[J], f: &(dyn Fn(&mut Ex<'p>, &J, &mut Report) -> String + Sync)) -> Total {
    let total = Mutex::new(Total::default());
    let next = AtomicUsize::new(0);
    let refuted = AtomicUsize::new(0);
    let start = *START.get_or_init(Instant::now);
    let end = start + Duration::from_secs(TIME);
    let id = std::env::var("M68SA_CHECK").ok();
    let known: Vec<String> = std::env::var("M68SA_KNOWN").map(|s| s.lines().map(String::from).collect()).unwrap_or_default();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(jobs.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, || {
                let mut t = Total::default();
                let mut ex = Ex::new(p);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() { break; }
                    let now = Instant::now();
                    // the time is up, or enough has been refuted
                    if now > end || refuted.load(Ordering::Relaxed) > 200 && now > start + Duration::from_secs(30) { t.skipped += 1; continue; }
                    ex.reset();
                    ex.d.until = Some(end.min(now + Duration::from_secs(120)));
                    let mut rep = Report::default();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ex, &jobs[i], &mut rep)));
                    let mn = match r {
                        Ok(m) => m,
                        Err(e) => {
                            let what = if e.downcast_ref::<dom::Budget>().is_some() { "node budget exceeded" } else { "analyser fault" };
                            rep.finds.retain(|f| f.out == Out::Broken);
                            rep.finds.push(Finding { prop: "*", out: Out::Unknown, what: format!("opcode {:04x}: {what} at {}", ex.opcode, ex.where_()), key: format!("{what} {:04x}", ex.opcode), witness: String::new(), site: String::new() });
                            ex = { let h = ex.accept; let mut e = Ex::new(p); e.accept = h; e };
                            "-".to_string()
                        }
                    };
                    if let Some(id) = &id { let n = rep.finds.iter().filter(|f| f.out == Out::Broken && f.prop == *id && !known.contains(&f.key)).count(); if n > 0 { refuted.fetch_add(n, Ordering::Relaxed); } }
                    if now.elapsed() > Duration::from_secs(5) && std::env::var("SLOW").is_ok() { eprintln!("SLOW {:04x} {mn} {:?}", ex.opcode, now.elapsed()); }
                    t.steps += ex.steps;
                    t.instr += 1;
                    t.fns.extend(ex.calls_seen.keys());
                    for n in &ex.notes { *t.notes.entry(n.clone()).or_default() += 1; }
                    if t.samples.len() < 2 { if let Some(x) = &rep.sample { t.samples.push(x.clone()); } }
                    t.add(&mn, rep);
                }
                total.lock().unwrap().join(t);
            }).unwrap();
        }
    });
    total.into_inner().unwrap()
}

/// Spread expensive neighbours over the work queue.
pub fn shuffle<T>(v: &mut [T]) { let mut s = 0x1234_5678_9abc_def1u64; for i in (1..v.len()).rev() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; v.swap(i, (s % (i as u64 + 1)) as usize); } }

/// All opcodes on both CPU models against the manual.
pub fn sweep<'p>(p: &'p Prog, cs: &[Cpu], ops: &(dyn Fn(u32) -> bool + Sync), dis: bool, accept: bool, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let mut jobs: Vec<(usize, u32)> = vec![];
    for c in 0..cs.len() { for o in 0..65536u32 { if ops(o) { jobs.push((c, o)); } } }
    shuffle(&mut jobs);
    par(p, &jobs, &|ex, (c, op), rep| {
        ex.accept = accept;
        let mn = mn_of(*op);
        if let Some(i) = decode(*op as u16) { spec::hints(&mut ex.d, &i); }
        let Some(s) = step(ex, &cs[*c], dis, *op) else { rep.finds.push(Finding { prop: "*", out: Out::Unknown, what: format!("{op:04x}: the step has no outcome"), key: "no outcome".into(), witness: String::new(), site: String::new() }); return mn };
        let w = |x: &str| want(x);
        let mut cm = Cmp { ex, rep, tag: format!("{}{} opcode {op:04x} ({mn})", cs[*c].name, if dis { " disassembling" } else { "" }), want: &w };
        check_step(&mut cm, cs[*c].core, cs[*c].name == "Scc68070", *op as u16, &s);
        mn
    })
}

/// C08: both execution paths on every opcode.
pub fn paths<'p>(p: &'p Prog, cs: &[Cpu], ops: &(dyn Fn(u32) -> bool + Sync), accept: bool) -> Total {
    let mut jobs: Vec<(usize, u32)> = vec![];
    for c in 0..cs.len() { for o in 0..65536u32 { if ops(o) { jobs.push((c, o)); } } }
    shuffle(&mut jobs);
    par(p, &jobs, &|ex, (c, op), rep| {
        ex.accept = accept;
        let mn = mn_of(*op);
        if let Some(i) = decode(*op as u16) { spec::hints(&mut ex.d, &i); }
        let (Some(a), Some(b)) = (ran(ex, &cs[*c], false, *op), ran(ex, &cs[*c], true, *op)) else { rep.finds.push(Finding { prop: "*", out: Out::Unknown, what: format!("{op:04x}: the step has no outcome"), key: "no outcome".into(), witness: String::new(), site: String::new() }); return mn };
        let mut cm = Cmp { ex, rep, tag: format!("{} opcode {op:04x} ({mn})", cs[*c].name), want: &|_| true };
        check_paths(&mut cm, &cs[*c], &a, &b, "C08");
        mn
    })
}
