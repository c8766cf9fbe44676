//! Symbolic inputs and outputs of one interpreter step.
use crate::dom::*;
use crate::exec::*;
use crate::ir::*;
use std::rc::Rc;

pub const FLAGS: [&str; 5] = ["x", "n", "z", "v", "c"];
/// flag variable numbers
pub const FT: u32 = 0;
pub const FS: u32 = 1;
pub const FM: u32 = 2;
pub const FX: u32 = 5;
pub const FN: u32 = 6;
pub const FZ: u32 = 7;
pub const FV: u32 = 8;
pub const FC: u32 = 9;
pub const FSTOP: u32 = 10;

pub fn fidx(p: &Prog, ty: TyId, name: &str) -> Option<usize> {
    match &p.ty(ty).k { TyK::Adt { variants, is_enum: false, .. } => variants[0].fnames.iter().position(|f| f == name), _ => None }
}
pub fn fty(p: &Prog, ty: TyId, i: usize) -> TyId { match &p.ty(ty).k { TyK::Adt { variants, .. } => variants[0].fields[i], _ => ty } }
pub fn pointee(p: &Prog, ty: TyId) -> TyId { match &p.ty(ty).k { TyK::Ptr { to } => *to, _ => ty } }

/// Value of the object at a dotted field path, transparent wrappers removed.
pub fn get(p: &Prog, v: &V, ty: TyId, path: &[&str]) -> Option<V> {
    let (mut v, mut ty) = (v.clone(), ty);
    for n in path {
        let V::Agg(a) = &v else { return None };
        let (i, t) = if let Ok(k) = n.parse::<usize>() { match &p.ty(ty).k { TyK::Array { elem, .. } => (k, *elem), _ => (k, fty(p, ty, k)) } } else { let i = fidx(p, ty, n)?; (i, fty(p, ty, i)) };
        v = a.get(i)?.clone();
        ty = t;
    }
    while let V::Agg(a) = &v { if a.len() == 1 { let x = a[0].clone(); v = x; } else { break; } }
    Some(v)
}

impl<'p> Ex<'p> {
    pub fn sym(&mut self, ty: TyId, path: &str, stop: bool) -> V {
        let p = self.p;
        let last = path.rsplit('.').next().unwrap_or("").to_string();
        match &p.ty(ty).k {
            TyK::Bool => {
                if path == "stop" { return self.kw(1, stop as u128); }
                let f = match path { "regs.sr.t" => FT, "regs.sr.s" => FS, "regs.sr.x" => FX, "regs.sr.n" => FN, "regs.sr.z" => FZ, "regs.sr.v" => FV, "regs.sr.c" => FC, _ => { let b = self.d.fresh_bool(path); return V::W(self.d.from_b(b)); } };
                let b = self.d.var(k_flag(f));
                V::W(self.d.from_b(b))
            }
            TyK::Int { w, .. } => {
                if path == "regs.sr.interrupt_mask" {
                    let mut bits: Vec<B> = (0..3).map(|i| self.d.var(k_flag(FM + i))).collect();
                    bits.resize(*w as usize, F);
                    let l = self.d.mk_bits(bits);
                    return V::W(self.d.leaf_w(l));
                }
                let id = match path {
                    "regs.usp" => Some(W_USP), "regs.ssp" => Some(W_SSP), "regs.pc" => Some(W_PC),
                    x => x.strip_prefix("regs.d.").and_then(|n| n.parse::<u32>().ok()).map(|n| W_D0 + n).or_else(|| x.strip_prefix("regs.a.").and_then(|n| n.parse::<u32>().ok()).map(|n| W_A0 + n)),
                };
                match id {
                    Some(i) => { let n = path.strip_prefix("regs.").unwrap().replace('.', ""); V::W(self.d.word(i, *w, &n)) }
                    None => { if let Some(v) = self.sym_cache.get(path) { return v.clone(); } let v = V::W(self.d.fresh(*w, path)); self.sym_cache.insert(path.to_string(), v.clone()); v }
                }
            }
            TyK::Adt { name, is_enum: false, variants, .. } => {
                if name.contains("BTreeSet") || name.contains("BinaryHeap") || name.contains("Vec") { return V::Coll(Rc::new(Coll::default())); }
                let fs = variants[0].clone();
                V::Agg(Rc::new(fs.fields.iter().zip(&fs.fnames).map(|(t, n)| {
                    let sub = if name.ends_with("Wrapping") { path.to_string() } else if path.is_empty() { n.clone() } else { format!("{path}.{n}") };
                    self.sym(*t, &sub, stop)
                }).collect()))
            }
            TyK::Array { elem, len } => V::Agg(Rc::new((0..*len).map(|i| self.sym(*elem, &format!("{path}.{i}"), stop)).collect())),
            TyK::Adt { is_enum: true, variants, .. } => {
                let n = variants.len();
                let mut disc = self.d.k(32, 0);
                for i in 1..n { let b = self.d.fresh_bool(&format!("{last} variant")); let k = self.d.k(32, i as u128); disc = self.d.wite(b, k, disc); }
                let vs = variants.clone();
                let pay = vs.iter().enumerate().map(|(i, v)| Some(Rc::new(v.fields.iter().enumerate().map(|(j, f)| self.sym(*f, &format!("{path}.v{i}.{j}"), stop)).collect()))).collect();
                V::En(Rc::new(En { disc, pay }))
            }
            _ => V::Top,
        }
    }
    /// Fresh machine in frame 0 (object 0 = the core, object 1 = the memory, then spare slots).
    pub fn machine(&mut self, core_ty: TyId, stop: bool) -> St<'p> {
        let cpu = self.sym(core_ty, "", stop);
        let mut tys = vec![core_ty; 32];
        tys[1] = core_ty;
        let tys: &'p [TyId] = leak_tys(tys);
        let mut vals = vec![V::Un; 32];
        vals[0] = cpu;
        for v in vals.iter_mut().take(16).skip(1) { *v = V::Top; }
        let ord = self.d.k(16, 0);
        St { g: T, fr: vec![Rc::new(Frame { tys, vals })], ord }
    }
    pub fn obj_ptr(&mut self, i: u32) -> V { V::W(self.d.ptr(PtrT { base: Base::Obj(0, i), path: vec![], meta: None })) }
}

pub fn leak_tys<'p>(t: Vec<TyId>) -> &'p [TyId] {
    thread_local! { static C: std::cell::RefCell<std::collections::HashMap<Vec<TyId>, &'static [TyId]>> = Default::default(); }
    C.with(|c| *c.borrow_mut().entry(t.clone()).or_insert_with(|| Box::leak(t.into_boxed_slice())))
}

/// Outcome of one abstract interpreter step.
pub struct Step {
    pub g: B,
    pub ord: W,
    pub cpu: V,
    pub cycles: W,
    pub exc: B,
    pub vec: W,
}

pub struct Cpu { pub name: &'static str, pub core: TyId, pub fast: FnId, pub dis: Option<FnId> }
pub fn cpus(p: &Prog) -> Vec<Cpu> {
    let mut v = vec![];
    for name in ["Mc68000", "Scc68070"] {
        let Some(f) = p.roots.get(&format!("{name}::interpreter_exception")) else { continue };
        let core = pointee(p, p.fns[*f as usize].locals[1]);
        v.push(Cpu { name, core, fast: *f, dis: p.roots.get(&format!("{name}::disassembler_interpreter_exception")).copied() });
    }
    v
}

/// Analyse one whole interpreter step for a fixed opcode.
pub fn step<'p>(ex: &mut Ex<'p>, c: &Cpu, dis: bool, opcode: u32) -> Option<Step> {
    ex.opcode = opcode;
    let st = ex.machine(c.core, false);
    let pcw = get(ex.p, &st.fr[0].vals[0], c.core, &["regs", "pc"]);
    if let Some(V::W(w)) = pcw { ex.pc_term = ex.d.as_leaf(w); }
    run(ex, if dis { c.dis? } else { c.fast }, st, dis)
}
pub fn run<'p>(ex: &mut Ex<'p>, f: FnId, st: St<'p>, dis: bool) -> Option<Step> {
    let (a, m) = (ex.obj_ptr(0), ex.obj_ptr(1));
    let (r, st) = ex.call(f, vec![a, m], st, 0)?;
    let V::Agg(r) = r else { return None };
    let o = if dis { 2 } else { 0 };
    let cycles = ex.w(r.get(o)?);
    let (exc, vec) = match r.get(o + 1) { Some(e) => opt(ex, e), None => (F, ex.d.k(8, 0)) };
    Some(Step { g: st.g, ord: st.ord, cpu: st.fr[0].vals[0].clone(), cycles, exc, vec })
}
/// Option<u8> as (some, value)
pub fn opt<'p>(ex: &mut Ex<'p>, v: &V) -> (B, W) {
    match v {
        V::En(e) => {
            let disc = e.disc;
            let z = ex.d.is_zero(disc);
            let some = ex.d.not(z);
            let w = match e.pay.get(1).and_then(|p| p.as_ref()).and_then(|p| p.first()) { Some(x) => { let x = x.clone(); ex.w(&x) } None => ex.d.k(8, 0) };
            (some, w)
        }
        _ => { ex.note("unknown option"); let b = ex.d.fresh_bool("option"); (b, ex.d.top()) }
    }
}
