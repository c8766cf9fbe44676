//! One entry per property: which analyses decide it, and the machine-readable result.
use crate::core::*;
use crate::drive::*;
use crate::ir::*;
use crate::isa::*;
use crate::scen::Job;
use crate::*;
use std::fmt::Write;

pub fn run(p: &Prog, id: &str, thorough: bool) -> Option<Total> {
    let cs = cpus(p);
    if cs.len() != 2 || cs.iter().any(|c| c.dis.is_none()) { eprintln!("interpreter entry points not found"); return None; }
    let want = |x: &str| x == id;
    // (disassembling path, number of CPU models, every access accepted)
    let sweep_all = |runs: &[(bool, usize, bool)], ops: &(dyn Fn(u32) -> bool + Sync)| -> Total {
        let mut t = Total::default();
        for (dis, n, acc) in runs { t.join(sweep(p, &cs[..*n], ops, *dis, *acc, &want)); }
        t
    };
    let deep: &[(bool, usize, bool)] = &[(false, 2, false), (true, 2, false)];
    let pick = |q: &'static [(bool, usize, bool)]| if thorough { deep } else { q };
    let full = |q, ops: &(dyn Fn(u32) -> bool + Sync)| Some(sweep_all(pick(q), ops));
    let all = |_: u32| true;
    let vc = |c: &'static str| move |o: u32| decode(o as u16).map(|i| compare::value_class(i.mn) == c).unwrap_or(false);
    match id {
        "C01" | "C02" | "C05" => full(&[(false, 2, false), (true, 1, false)], &all),
        "C03" | "C04" => full(&[(false, 2, false), (true, 1, false)], &all),
        "C06" => Some(more::classify(p)),
        "C32" => Some(more::runs(p, &cs, thorough, &want)),
        "C36" => Some(more::memories(p, &want)),
        "C33" => Some(ffi::callbacks(p, &want)),
        "C35" => Some(ffi::wrappers(p, &cs, thorough, &want)),
        "C37" => Some(asm::assembled(p, &want)),
        "C38" => Some(text::texts(p, &want)),
        "C30" => {
            let mut t = more::status(p, &want);
            t.join(sweep_all(pick(&[(false, 2, true), (true, 1, true)]), &|o| decode(o as u16).map(|i| compare::value_class(i.mn) == "C30" || matches!(i.mn, Mn::Stop | Mn::Rte | Mn::Rtr)).unwrap_or(false)));
            Some(t)
        }
        "C07" | "C29" => full(&[(false, 2, true), (true, 1, true)], &all),
        "C08" => {
            let mut t = paths(p, &cs, &all, false);
            let mut j = vec![];
            for op in [scen::NOP, scen::RTE, scen::STOP] {
                for v in 0..256 { j.push(Job::Paths(vec![v], op, false)); if op == scen::NOP { j.push(Job::Paths(vec![v], op, true)); } }
                for a in [0, 2, 3, 9, 31] { for b in [2, 3, 4, 9, 25, 57, 64] { if a != b { j.push(Job::Paths(vec![a, b], op, false)); } } }
            }
            j.push(Job::Paths(vec![], scen::NOP, true));
            t.join(scen::drive(p, &cs, j, &want));
            Some(t)
        }
        "C31" | "C39" => {
            let mut t = sweep_all(if id == "C31" { pick(&[(false, 2, true), (true, 1, true)]) } else { &[(false, 1, true), (true, 1, true)] }, &all);
            let mut j: Vec<Job> = (1..256).map(Job::Entry).collect();
            for s in [false, true] { j.push(Job::Reset(vec![0], s)); }
            t.join(scen::drive(p, &cs, j, &want));
            Some(t)
        }
        "C09" | "C10" | "C11" | "C12" | "C13" | "C22" => full(&[(false, 2, true), (true, 1, true)], &all),
        "C14" => {
            let mut t = more::status(p, &want);
            t.join(sweep_all(pick(&[(false, 2, true), (true, 1, true)]), &vc("C14")));
            Some(t)
        }
        "C15" | "C16" | "C17" | "C18" | "C19" | "C20" => { let c: &'static str = ["C14", "C15", "C16", "C17", "C18", "C19", "C20"].iter().find(|x| **x == id)?; full(&[(false, 2, true), (true, 1, true)], &vc(c)) }
        "C21" => full(&[(false, 2, true), (true, 1, true)], &|o| decode(o as u16).map(|i| matches!(i.mn, Mn::Bra | Mn::Bsr | Mn::Bcc | Mn::Dbcc | Mn::Jmp | Mn::Jsr | Mn::Rts | Mn::Rtr)).unwrap_or(false)),
        "C23" => Some(scen::drive(p, &cs, (1..256).map(Job::Entry).collect(), &want)),
        "C24" => {
            // the group 0 frame of the MC68000 is cleaned up by its handler, not by RTE
            let mut t = scen::drive(p, &cs, (1..256).filter(|v| *v != 2 && *v != 3).map(Job::Round).collect(), &want);
            t.join(scen::drive(p, &cs[1..], vec![Job::Round(2), Job::Round(3)], &want));
            t.join(sweep_all(if thorough { deep } else { &[(false, 2, false), (true, 2, false)] }, &|o| o == scen::RTE));
            Some(t)
        }
        "C25" => Some(scen::drive(p, &cs, several(thorough), &want)),
        "C26" => {
            let mut j: Vec<Job> = (1..256).map(Job::Entry).collect();
            for a in (25..32).chain(57..64) { j.push(Job::StopPending(false, a)); j.push(Job::StopPending(true, a)); }
            j.extend(several(thorough));
            Some(scen::drive(p, &cs, j, &want))
        }
        "C27" => {
            let mut j = vec![];
            for d in [false, true] { j.push(Job::Stopped(d, None)); for v in 0..256 { j.push(Job::Stopped(d, Some(v))); } for a in (25..32).chain(57..64) { j.push(Job::StopPending(d, a)); } }
            let mut t = scen::drive(p, &cs, j, &want);
            t.join(sweep_all(&[(false, 2, false), (true, 2, false)], &|o| o == scen::STOP));
            Some(t)
        }
        "C28" => {
            let mut j = vec![Job::New(true), Job::New(false)];
            for s in [false, true] { j.push(Job::Reset(vec![0], s)); for v in 1..256 { j.push(Job::Reset(vec![0, v], s)); j.push(Job::Reset(vec![v, 0], s)); } for a in [3, 9, 25, 31, 63] { for b in [2, 4, 28, 64, 8] { j.push(Job::Reset(vec![a, 0, b], s)); } } }
            Some(scen::drive(p, &cs, j, &want))
        }
        _ => None,
    }
}
/// Pairs of requests of all classes, and triples of representatives.
fn several(thorough: bool) -> Vec<Job> {
    let mut j: Vec<Job> = (1..256).map(Job::Entry).collect();
    let small: Vec<u32> = (1..=11).chain([14, 15, 24]).chain(25..=32).chain([47]).chain(57..=64).chain([255]).collect();
    let wide: Vec<u32> = if thorough { (1..256).collect() } else { small.clone() };
    for a in &wide { for b in &wide { if a != b { j.push(Job::Several(vec![*a, *b])); } } }
    if !thorough { for a in &small { for b in 1..256 { if !small.contains(&b) { j.push(Job::Several(vec![*a, b])); } } } }
    let rep: Vec<u32> = if thorough { vec![2, 3, 9, 25, 28, 31, 57, 63, 4, 8, 5, 7, 32, 64] } else { vec![2, 3, 9, 25, 30, 58, 4, 8, 32] };
    for a in &rep { for b in &rep { for c in &rep { if a != b && b != c && a != c { j.push(Job::Several(vec![*a, *b, *c])); } } } }
    j
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
pub fn json(p: &Prog, id: &str, t: &Total, secs: f64) -> String {
    let mut s = String::new();
    let _ = write!(s, "{{\"property\":{},\"jobs\":{},\"skipped\":{},\"steps\":{},\"secs\":{secs:.2},\"held\":{},", esc(id), t.instr, t.skipped, t.steps, t.held.get(id).copied().unwrap_or(0));
    let _ = write!(s, "\"finds\":[");
    let mut first = true;
    for (_, f) in &t.finds {
        if f.prop != id && f.prop != "*" { continue; }
        if !first { s.push(','); }
        first = false;
        let _ = write!(s, "{{\"prop\":{},\"broken\":{},\"key\":{},\"mn\":{},\"n\":{},\"what\":{},\"witness\":{},\"site\":{}}}", esc(&f.prop), f.broken, esc(&f.key), esc(&f.mn), f.n, esc(&f.first), esc(&f.witness), esc(&f.site));
    }
    let _ = write!(s, "],\"notes\":{{");
    for (i, (k, n)) in t.notes.iter().enumerate() { if i > 0 { s.push(','); } let _ = write!(s, "{}:{n}", esc(k)); }
    let _ = write!(s, "}},\"functions\":[");
    let mut names: Vec<String> = t.fns.iter().map(|f| &p.fns[*f as usize]).filter(|f| f.local_crate).map(|f| format!("{} ({}:{})", f.path, p.files[f.file as usize].rsplit("/repo/").next().unwrap_or(""), f.line)).collect();
    names.sort(); names.dedup();
    for (i, n) in names.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&esc(n)); }
    let _ = write!(s, "],\"samples\":[");
    for (i, n) in t.samples.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&esc(n)); }
    s.push_str("]}\n");
    s
}
