//! Interprocedural abstract interpretation of the owned IR. States are joined at every control-flow
//! merge (one visit per merge point and loop iteration); calls are analysed in the caller's context.
use crate::dom::*;
use crate::ir::*;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { Un, W(W), Agg(Rc<Vec<V>>), En(Rc<En>), Coll(Rc<Coll>), Top }
#[derive(Clone, Debug)]
pub struct En { pub disc: W, pub pay: Vec<Option<Rc<Vec<V>>>> }
/// Ordered container; each item is present under its guard.
#[derive(Clone, Debug, Default)]
pub struct Coll { pub items: Vec<(B, V)>, pub pos: usize }

#[derive(Clone)]
pub struct Frame<'p> { pub tys: &'p [TyId], pub vals: Vec<V> }
#[derive(Clone)]
pub struct St<'p> { pub g: B, pub fr: Vec<Rc<Frame<'p>>>, pub ord: W }

#[derive(Clone, Debug)]
pub struct Loc { pub base: Base, pub path: Vec<PElem>, pub ty: TyId, pub var: Option<u32>, pub meta: Option<W> }

#[derive(Clone, Debug)]
pub struct Event { pub k: EvK, pub ord: W, pub g: B, pub a: W, pub v: Option<W>, pub site: Site }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EvK { Mem(MemK), Ext(u32), SliceLoad, SliceStore }
pub type Site = Rc<Vec<(FnId, u32)>>;
#[derive(Clone, Debug)]
pub struct PanicEv { pub g: B, pub msg: String, pub site: Site }

pub struct Ex<'p> {
    pub p: &'p Prog,
    pub d: Dom,
    pub events: Vec<Event>,
    pub panics: Vec<PanicEv>,
    pub stack: Vec<(FnId, u32)>,
    pub funs: Vec<Callee>,
    pub notes: BTreeSet<String>,
    pub unbounded: Vec<(Site, B)>,
    pub visit_cap: u32,
    pub steps: u64,
    pub step_cap: u64,
    pub pc_term: Option<LeafId>,
    pub opcode: u32,
    pub first_fetch: Option<W>,
    pub ext_calls: Vec<ExtCall>,
    pub hooks: Option<Box<dyn FnMut(&mut Ex<'p>, &str, &[V], &[TyId], TyId, &mut St<'p>) -> Option<V> + 'p>>,
    pub calls_seen: FxMap<FnId, u32>,
    pub slices: Vec<SliceObj>,
    pub fn_filter: Option<Box<dyn Fn(&Func) -> bool + 'p>>,
    pub infer_ty: Option<TyId>,
    /// every access is accepted
    pub accept: bool,
    /// any word read that is neither at a constant nor at a stack address yields the opcode
    pub fetch_any: bool,
    /// words of the program at the initial program counter; other code reads as NOP
    pub program: Option<Vec<u32>>,
    /// reads of stack locations written before yield the value written
    pub recall: bool,
    pub elem_ty: Option<String>,
    pub sym_cache: std::collections::HashMap<String, V>,
    pub grow: Option<(usize, (FnId, u32), std::collections::BTreeMap<(FnId, u32), usize>)>,
}
pub struct SliceObj { pub len: W, pub elem_w: u32 }
#[derive(Clone, Debug)]
pub struct ExtCall { pub name: String, pub g: B, pub args: Vec<V>, pub ord: W, pub site: Site }

/// Numbering of the inputs of one interpreter step.
pub const W_D0: u32 = 0;
pub const W_A0: u32 = 8;
pub const W_USP: u32 = 15;
pub const W_SSP: u32 = 16;
pub const W_PC: u32 = 17;
pub const W_DATA: u32 = 100;

impl<'p> Ex<'p> {
    pub fn new(p: &'p Prog) -> Self {
        Ex { p, d: Dom::new(), events: vec![], panics: vec![], stack: vec![], funs: vec![], notes: BTreeSet::new(), unbounded: vec![], visit_cap: 300, steps: 0, step_cap: 3_000_000, pc_term: None, opcode: 0, first_fetch: None,
            ext_calls: vec![], hooks: None, calls_seen: Default::default(), slices: vec![], fn_filter: None, infer_ty: None, accept: false, fetch_any: false, program: None, recall: false, elem_ty: None, sym_cache: Default::default(), grow: None }
    }
    pub fn reset(&mut self) {
        self.d.reset(); self.sym_cache.clear(); self.events.clear(); self.panics.clear(); self.stack.clear(); self.notes.clear(); self.unbounded.clear(); self.steps = 0; self.first_fetch = None; self.ext_calls.clear(); self.calls_seen.clear(); self.slices.clear();
        self.pc_term = None;
    }
    pub fn note(&mut self, s: impl Into<String>) { let s = s.into(); let at = self.where_(); if std::env::var("BTT").is_ok() { eprintln!("NOTE {s} {at}"); } self.notes.insert(format!("{s} at {at}")); }
    pub fn where_(&self) -> String { match self.stack.last() { Some((f, l)) => { let f = &self.p.fns[*f as usize]; format!("{} ({}:{})", f.path, self.p.files[f.file as usize], l) } None => "entry".into() } }
    pub fn site(&self) -> Site { Rc::new(self.stack.clone()) }

    // ------------------------------------------------------------ values
    pub fn same(a: &V, b: &V) -> bool {
        match (a, b) {
            (V::Un, V::Un) | (V::Top, V::Top) => true,
            (V::W(x), V::W(y)) => x == y,
            (V::Agg(x), V::Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| Self::same(p, q))),
            (V::En(x), V::En(y)) => Rc::ptr_eq(x, y),
            (V::Coll(x), V::Coll(y)) => Rc::ptr_eq(x, y),
            _ => false,
        }
    }
    pub fn ite(&mut self, g: B, a: &V, b: &V) -> V {
        if g == T { return a.clone(); }
        if g == F { return b.clone(); }
        match (a, b) {
            (V::Un, x) | (x, V::Un) => x.clone(),
            (V::Top, _) | (_, V::Top) => V::Top,
            (V::W(x), V::W(y)) => V::W(self.d.sel(g, *x, *y)),
            (V::Agg(x), V::Agg(y)) => {
                if Rc::ptr_eq(x, y) || x.len() != y.len() { return if x.len() == y.len() { a.clone() } else { V::Top }; }
                V::Agg(Rc::new((0..x.len()).map(|i| if Self::same(&x[i], &y[i]) { x[i].clone() } else { self.ite(g, &x[i], &y[i]) }).collect()))
            }
            (V::En(x), V::En(y)) => {
                if Rc::ptr_eq(x, y) { return a.clone(); }
                let disc = self.d.sel(g, x.disc, y.disc);
                let n = x.pay.len().max(y.pay.len());
                let mut pay = Vec::with_capacity(n);
                for i in 0..n {
                    let p = x.pay.get(i).cloned().flatten();
                    let q = y.pay.get(i).cloned().flatten();
                    pay.push(match (p, q) {
                        (Some(p), Some(q)) => if Rc::ptr_eq(&p, &q) { Some(p) } else { Some(Rc::new((0..p.len().min(q.len())).map(|j| self.ite(g, &p[j], &q[j])).collect())) },
                        (Some(p), None) | (None, Some(p)) => Some(p),
                        _ => None,
                    });
                }
                V::En(Rc::new(En { disc, pay }))
            }
            (V::Coll(x), V::Coll(y)) => {
                if Rc::ptr_eq(x, y) { return a.clone(); }
                self.merge_coll(g, x, y)
            }
            _ => { self.note("merge of differently shaped values"); V::Top }
        }
    }
    fn merge_coll(&mut self, g: B, x: &Coll, y: &Coll) -> V {
        if x.pos != y.pos { self.note("merge of containers at different positions"); return V::Top; }
        // Items equal position-wise are shared; otherwise keep both sides' items, guarded.
        let ng = self.d.not(g);
        let mut items = vec![];
        let same_shape = x.items.len() == y.items.len() && x.items.iter().zip(&y.items).all(|(p, q)| Self::same(&p.1, &q.1));
        if same_shape {
            for (p, q) in x.items.iter().zip(&y.items) { let gg = self.d.ite(g, p.0, q.0); items.push((gg, p.1.clone())); }
            return V::Coll(Rc::new(Coll { items, pos: x.pos }));
        }
        // common supersequence by greedy alignment (values compared structurally)
        let (mut i, mut j) = (0, 0);
        while i < x.items.len() || j < y.items.len() {
            if i < x.items.len() && j < y.items.len() && Self::same(&x.items[i].1, &y.items[j].1) {
                let gg = self.d.ite(g, x.items[i].0, y.items[j].0);
                items.push((gg, x.items[i].1.clone())); i += 1; j += 1;
            } else if i < x.items.len() && !y.items[j.min(y.items.len())..].iter().any(|q| Self::same(&q.1, &x.items[i].1)) {
                let gg = self.d.and(g, x.items[i].0); if gg != F { items.push((gg, x.items[i].1.clone())); } i += 1;
            } else if j < y.items.len() {
                let gg = self.d.and(ng, y.items[j].0); if gg != F { items.push((gg, y.items[j].1.clone())); } j += 1;
            } else { let gg = self.d.and(g, x.items[i].0); if gg != F { items.push((gg, x.items[i].1.clone())); } i += 1; }
        }
        V::Coll(Rc::new(Coll { items, pos: x.pos }))
    }
    pub fn w(&mut self, v: &V) -> W {
        match v {
            V::W(w) => *w,
            V::Agg(a) if a.len() == 1 => { let x = a[0].clone(); self.w(&x) }
            V::Un => { let x = self.d.top(); x }
            _ => self.d.top(),
        }
    }
    pub fn kw(&mut self, w: u32, c: u128) -> V { V::W(self.d.k(w, c)) }
    pub fn unit(&self) -> V { V::Agg(Rc::new(vec![])) }
    pub fn variant(&mut self, ty: TyId, v: u32, fields: Vec<V>) -> V {
        let n = match &self.p.ty(ty).k { TyK::Adt { variants, .. } => variants.len(), _ => v as usize + 1 };
        let mut pay = vec![None; n.max(v as usize + 1)];
        pay[v as usize] = Some(Rc::new(fields));
        let disc = self.d.k(32, v as u128);
        V::En(Rc::new(En { disc, pay }))
    }
    /// Option<T>: some under guard g.
    pub fn option(&mut self, g: B, v: V) -> V {
        let one = self.d.k(32, 1); let zero = self.d.k(32, 0);
        let disc = self.d.sel(g, one, zero);
        V::En(Rc::new(En { disc, pay: vec![Some(Rc::new(vec![])), Some(Rc::new(vec![v]))] }))
    }
    fn zero_fields(&self, ty: TyId, var: Option<u32>) -> usize {
        match &self.p.ty(ty).k {
            TyK::Adt { variants, .. } => variants.get(var.unwrap_or(0) as usize).map(|v| v.fields.len()).unwrap_or(0),
            TyK::Array { len, .. } => *len as usize,
            _ => 0,
        }
    }
    fn is_enum(&self, ty: TyId) -> bool { matches!(&self.p.ty(ty).k, TyK::Adt { is_enum: true, .. }) }
    fn is_union(&self, ty: TyId) -> bool { matches!(&self.p.ty(ty).k, TyK::Adt { is_union: true, .. }) }
    fn step_ty(&self, ty: TyId, var: Option<u32>, e: &PElem) -> (TyId, Option<u32>) {
        match e {
            PElem::Field(i) => match &self.p.ty(ty).k { TyK::Adt { variants, .. } => (variants[var.unwrap_or(0) as usize].fields[*i as usize], None), _ => (ty, None) },
            PElem::Down(v) => (ty, Some(*v)),
            PElem::Idx(_) | PElem::Sym(_) => match &self.p.ty(ty).k { TyK::Array { elem, .. } | TyK::Slice { elem } => (*elem, None), _ => (ty, None) },
            PElem::From(_) => (ty, None),
        }
    }

    fn nav(v: &V, path: &[PElem]) -> Option<V> {
        let mut cur = v.clone();
        let mut i = 0;
        while i < path.len() {
            cur = match (&path[i], &cur) {
                (_, V::Un) => return Some(V::Un),
                (_, V::Top) => return Some(V::Top),
                (PElem::Field(k), V::Agg(a)) => a.get(*k as usize)?.clone(),
                (PElem::Idx(k), V::Agg(a)) => a.get(*k as usize)?.clone(),
                (PElem::Down(v), V::En(e)) => match e.pay.get(*v as usize)? { Some(p) => V::Agg(p.clone()), None => V::Un },
                (PElem::Down(_), x) => (*x).clone(),
                (PElem::From(_), x) => (*x).clone(),
                _ => return None,
            };
            i += 1;
        }
        Some(cur)
    }
    fn put(&mut self, cur: &mut V, path: &[PElem], ty: TyId, var: Option<u32>, new: V, g: Option<B>) {
        if path.is_empty() {
            if let Some(_v) = var { if let V::Agg(_) = &new { *cur = new; return; } }
            match g { None => *cur = new, Some(g) => { let old = std::mem::replace(cur, V::Un); *cur = self.ite(g, &new, &old); } }
            return;
        }
        let (nt, nv) = self.step_ty(ty, var, &path[0]);
        if matches!(cur, V::Top) { return; }
        if matches!(cur, V::Un) {
            *cur = match &path[0] {
                PElem::Down(_) => { let n = match &self.p.ty(ty).k { TyK::Adt { variants, .. } => variants.len(), _ => 1 }; let disc = self.d.k(32, 0); V::En(Rc::new(En { disc, pay: vec![None; n] })) }
                _ => V::Agg(Rc::new(vec![V::Un; self.zero_fields(ty, var)])),
            };
        }
        match (&path[0], cur) {
            (PElem::Field(k), V::Agg(a)) => { let a = Rc::make_mut(a); if (*k as usize) < a.len() { self.put(&mut a[*k as usize], &path[1..], nt, nv, new, g) } }
            (PElem::Idx(k), V::Agg(a)) => { let a = Rc::make_mut(a); if (*k as usize) < a.len() { self.put(&mut a[*k as usize], &path[1..], nt, nv, new, g) } }
            (PElem::Down(v), V::En(e)) => {
                let e = Rc::make_mut(e);
                let n = self.zero_fields(ty, Some(*v));
                let slot = e.pay[*v as usize].take().unwrap_or_else(|| Rc::new(vec![V::Un; n]));
                let mut x = V::Agg(slot);
                self.put(&mut x, &path[1..], ty, Some(*v), new, g);
                if let V::Agg(s) = x { e.pay[*v as usize] = Some(s); }
            }
            (PElem::Down(_), x) => self.put(x, &path[1..], nt, nv, new, g),
            (PElem::From(_), x) => self.put(x, &path[1..], nt, nv, new, g),
            _ => self.note("store through an unmodelled path"),
        }
    }

    pub fn read(&mut self, st: &St<'p>, l: &Loc) -> V {
        match l.base {
            Base::Obj(f, i) => {
                let Some(fr) = st.fr.get(f as usize) else { self.note("dangling"); return V::Top };
                if l.path.iter().any(|e| matches!(e, PElem::Sym(_))) { return self.sym_read(st, l); }
                match Self::nav(&fr.vals[i as usize], &l.path) { Some(v) => { if self.is_enum(l.ty) && l.var.is_none() { if let V::Agg(_) = v { self.note("enum shape"); return V::Top; } } v } None => { self.note("load through an unmodelled path"); V::Top } }
            }
            Base::Alloc(a, off) => self.load_alloc(a, off, l.ty),
            Base::Ext(n) => {
                if let Some(PElem::Sym(ix)) = l.path.last() { return self.slice_load(st, n, *ix); }
                if let Some(PElem::Idx(k)) = l.path.last() { let ix = self.d.k(64, *k as u128); return self.slice_load(st, n, ix); }
                self.note("load of an external object"); V::Top
            }
            Base::Dangling => { self.note("load through an unknown pointer"); V::Top }
        }
    }
    fn sym_read(&mut self, _st: &St<'p>, _l: &Loc) -> V { self.note("symbolic index"); V::Top }
    fn slice_load(&mut self, st: &St<'p>, n: u32, ix: W) -> V {
        // one data word per (slice, index leaf)
        let w = self.slices[n as usize].elem_w;
        let site = self.site();
        let ix = self.d.wrestrict(ix, st.g);
        let v = self.slice_elem(n, w, ix);
        // what an earlier store of this path left there
        let mut r = v;
        for i in 0..self.events.len() {
            let e = &self.events[i];
            if e.k != EvK::SliceStore { continue; }
            let (a, g, x) = (e.a, e.g, e.v.unwrap());
            let live = self.d.and(g, st.g);
            if live == F { continue; }
            let q = self.d.eq(a, ix);
            let g = self.d.and(q, g);
            if g != F { r = self.d.wite(g, x, r); }
        }
        self.events.push(Event { k: EvK::SliceLoad, ord: st.ord, g: st.g, a: ix, v: Some(v), site });
        V::W(r)
    }
    pub fn slice_elem(&mut self, n: u32, w: u32, ix: W) -> W {
        self.d.map1(ix, &mut |d, l| { let id = 0x4000_0000 | (n & 15) << 24 | (l & 0xff_ffff); let nm = format!("mem[{}]", d.show_leaf(l)); d.word(id, w, &nm) })
    }
    pub fn write(&mut self, st: &mut St<'p>, l: &Loc, v: V, g: Option<B>) {
        match l.base {
            Base::Obj(f, i) => {
                let (f, i) = (f as usize, i as usize);
                if f >= st.fr.len() { return; }
                if l.path.is_empty() && g.is_none() { Rc::make_mut(&mut st.fr[f]).vals[i] = v; return; }
                let ty = st.fr[f].tys[i];
                let fr = Rc::make_mut(&mut st.fr[f]);
                let mut cur = std::mem::replace(&mut fr.vals[i], V::Un);
                self.put(&mut cur, &l.path, ty, None, v, g);
                let fr = Rc::make_mut(&mut st.fr[f]);
                fr.vals[i] = cur;
            }
            Base::Ext(n) => {
                let ix = match l.path.last() { Some(PElem::Sym(ix)) => Some(*ix), Some(PElem::Idx(k)) => Some(self.d.k(64, *k as u128)), _ => None };
                if let Some(ix) = ix {
                    let _ = n;
                    let w = self.w(&v);
                    let gg = match g { Some(g) => self.d.and(g, st.g), None => st.g };
                    let site = self.site();
                    self.events.push(Event { k: EvK::SliceStore, ord: st.ord, g: gg, a: ix, v: Some(w), site });
                } else { self.note("store to an external object"); }
            }
            Base::Alloc(..) => self.note("store to constant memory"),
            Base::Dangling => self.note("store through an unknown pointer"),
        }
    }

    pub fn load_alloc(&mut self, a: AllocIx, off: u64, ty: TyId) -> V {
        let p = self.p;
        let al = &p.allocs[a as usize];
        let t = p.ty(ty);
        let rd = |o: u64, n: u64| -> Option<u128> { if o + n > al.bytes.len() as u64 || n > 16 { return None; } let mut x = 0u128; for i in 0..n { x |= (al.bytes[(o + i) as usize] as u128) << (8 * i); } Some(x) };
        match &t.k {
            TyK::Int { .. } | TyK::Bool | TyK::Char | TyK::Float(_) => {
                if al.relocs.contains_key(&off) { return self.reloc(a, off, None); }
                match rd(off, t.size) { Some(x) => { let w = p.width(ty).unwrap(); self.kw(w, x) } None => { self.note("constant load out of range"); V::Top } }
            }
            TyK::FnPtr => self.reloc(a, off, None),
            TyK::FnDef(c) => { let c = c.clone(); self.fun(c) }
            TyK::Ptr { .. } => {
                let meta = if t.size == 16 { rd(off + 8, 8) } else { None };
                self.reloc(a, off, meta)
            }
            TyK::Array { elem, len } => {
                let es = p.ty(*elem).size;
                if *len > 70000 { return V::Top; }
                V::Agg(Rc::new((0..*len).map(|i| self.load_alloc(a, off + i * es, *elem)).collect()))
            }
            TyK::Adt { is_enum, is_union, variants, tag, .. } => {
                if *is_union { return if variants[0].fields.is_empty() { V::Un } else { let f = *variants[0].fields.last().unwrap(); self.load_alloc(a, off, f) }; }
                let vi = match tag {
                    Tag::Single(v) => *v,
                    Tag::Direct { off: o, w } => { let x = rd(off + o, (*w / 8) as u64).unwrap_or(0); match variants.iter().position(|v| v.discr & mask(*w) == x) { Some(i) => i as u32, None => return V::Top } }
                    Tag::Niche { off: o, w, untagged, first, last, start } => {
                        if al.relocs.contains_key(&(off + o)) { *untagged } else {
                            let x = rd(off + o, (*w / 8) as u64).unwrap_or(0);
                            let rel = x.wrapping_sub(*start) & mask(*w);
                            let v = rel + *first as u128;
                            if rel <= (*last - *first) as u128 && v <= *last as u128 { v as u32 } else { *untagged }
                        }
                    }
                    Tag::None => return V::Top,
                };
                let va = &variants[vi as usize];
                let fs: Vec<V> = va.fields.iter().zip(&va.offsets).map(|(f, o)| self.load_alloc(a, off + o, *f)).collect();
                if *is_enum { self.variant(ty, vi, fs) } else { V::Agg(Rc::new(fs)) }
            }
            _ => { self.note(format!("constant of type {}", t.name)); V::Top }
        }
    }
    fn reloc(&mut self, a: AllocIx, off: u64, meta: Option<u128>) -> V {
        match self.p.allocs[a as usize].relocs.get(&off).cloned() {
            Some(Reloc::Callee(c)) => self.fun(c),
            Some(Reloc::Alloc(x, o)) => { let meta = meta.map(|m| self.d.k(64, m)); V::W(self.d.ptr(PtrT { base: Base::Alloc(x, o), path: vec![], meta })) }
            _ => { let meta = meta.map(|m| self.d.k(64, m)); V::W(self.d.ptr(PtrT { base: Base::Dangling, path: vec![], meta })) }
        }
    }
    pub fn fun(&mut self, c: Callee) -> V {
        let i = match self.funs.iter().position(|x| *x == c) { Some(i) => i, None => { self.funs.push(c); self.funs.len() - 1 } };
        let l = self.d.leaf(Leaf::Fun(i as u32));
        V::W(self.d.leaf_w(l))
    }

    // ------------------------------------------------------------ places
    pub fn locs(&mut self, st: &St<'p>, fi: u32, pl: &Place) -> Vec<(B, Loc)> {
        let ty = st.fr[fi as usize].tys[pl.local as usize];
        let mut cur = vec![(T, Loc { base: Base::Obj(fi, pl.local), path: vec![], ty, var: None, meta: None })];
        for e in &pl.proj {
            let mut next = Vec::with_capacity(cur.len());
            for (g, l) in cur { self.project(st, fi, g, l, e, &mut next); }
            cur = next;
        }
        cur
    }
    fn index_elem(&self, l: &mut Loc, i: u64, elem: TyId) {
        if let Base::Alloc(a, off) = l.base { l.base = Base::Alloc(a, off + i * self.p.ty(elem).size); }
        else if let Some(PElem::From(k)) = l.path.last().copied() { l.path.pop(); l.path.push(PElem::Idx(k + i)); }
        else { l.path.push(PElem::Idx(i)); }
        l.ty = elem; l.var = None; l.meta = None;
    }
    fn project(&mut self, st: &St<'p>, fi: u32, g: B, mut l: Loc, e: &Proj, out: &mut Vec<(B, Loc)>) {
        match e {
            Proj::Deref => {
                let to = match &self.p.ty(l.ty).k { TyK::Ptr { to } => *to, _ => { self.note("deref of a non-pointer"); l.base = Base::Dangling; out.push((g, l)); return; } };
                let v = self.read(st, &l);
                self.deref_val(st, g, &v, to, out);
            }
            Proj::Field(i, t) => {
                if !self.is_union(l.ty) {
                    if let Base::Alloc(a, off) = l.base {
                        let o = match &self.p.ty(l.ty).k { TyK::Adt { variants, .. } => variants[l.var.unwrap_or(0) as usize].offsets[*i as usize], _ => 0 };
                        l.base = Base::Alloc(a, off + o);
                    } else { l.path.push(PElem::Field(*i)); }
                }
                l.ty = *t; l.var = None;
                out.push((g, l));
            }
            Proj::Downcast(v) => { if !matches!(l.base, Base::Alloc(..)) { l.path.push(PElem::Down(*v)); } l.var = Some(*v); out.push((g, l)); }
            Proj::Index(loc) => {
                let iv = st.fr[fi as usize].vals[*loc as usize].clone();
                let iw = self.w(&iv);
                let iw = self.d.wrestrict(iw, st.g);
                let elem = match &self.p.ty(l.ty).k { TyK::Array { elem, .. } | TyK::Slice { elem } => *elem, _ => l.ty };
                if matches!(l.base, Base::Ext(_)) && self.d.as_const(iw).is_none() { self.sym_index(&mut l, iw, elem); out.push((g, l)); return; }
                match self.d.expand(iw, 8) {
                    Some(x) => {
                        for (gi, lf) in self.d.cases(x) {
                            let gg = self.d.and(g, gi);
                            let live = self.d.and(gg, st.g);
                            if live == F { continue; }
                            let c = self.d.lconst(lf).unwrap();
                            let mut l2 = l.clone();
                            self.index_elem(&mut l2, c as u64, elem);
                            out.push((gg, l2));
                        }
                    }
                    None => { self.note("unbounded index"); l.base = Base::Dangling; l.ty = elem; out.push((g, l)); }
                }
            }
            Proj::ConstIndex { off, from_end } => {
                let elem = match &self.p.ty(l.ty).k { TyK::Array { elem, .. } | TyK::Slice { elem } => *elem, _ => l.ty };
                let i = if *from_end {
                    let n = match &self.p.ty(l.ty).k { TyK::Array { len, .. } => Some(*len), _ => l.meta.and_then(|m| self.d.as_const(m)).map(|x| x as u64) };
                    match n { Some(n) if n >= *off => n - off, _ => { self.note("index from unknown end"); l.base = Base::Dangling; 0 } }
                } else { *off };
                self.index_elem(&mut l, i, elem);
                out.push((g, l));
            }
            Proj::Subslice { from, to, from_end } => {
                let (elem, n) = match &self.p.ty(l.ty).k { TyK::Array { elem, len } => (*elem, Some(*len)), TyK::Slice { elem } => (*elem, l.meta.and_then(|m| self.d.as_const(m)).map(|x| x as u64)), _ => (l.ty, None) };
                let Some(n) = n else { self.note("subslice of unknown length"); l.base = Base::Dangling; out.push((g, l)); return; };
                let end = if *from_end { n.saturating_sub(*to) } else { *to };
                if let Base::Alloc(a, off) = l.base { l.base = Base::Alloc(a, off + from * self.p.ty(elem).size); } else { l.path.push(PElem::From(*from)); }
                l.meta = Some(self.d.k(64, (end - from) as u128));
                out.push((g, l));
            }
            Proj::Other => { self.note("unmodelled projection"); l.base = Base::Dangling; out.push((g, l)); }
        }
    }
    fn sym_index(&mut self, l: &mut Loc, iw: W, elem: TyId) {
        let base = match l.path.last().copied() { Some(PElem::From(k)) => { l.path.pop(); Some(k) } _ => None };
        let ix = match base { Some(k) if k > 0 => { let kk = self.d.k(64, k as u128); self.d.add(iw, kk) } _ => iw };
        l.path.push(PElem::Sym(ix));
        l.ty = elem; l.var = None; l.meta = None;
    }
    pub fn deref_val(&mut self, st: &St<'p>, g: B, v: &V, to: TyId, out: &mut Vec<(B, Loc)>) {
        let mut v = v.clone();
        // Box / NonNull / Unique wrappers around a pointer
        while let V::Agg(a) = &v { if a.is_empty() { break; } let x = a[0].clone(); v = x; }
        let w = self.w(&v);
        for (gi, lf) in self.d.cases(w) {
            let gg = self.d.and(g, gi);
            if self.d.and(gg, st.g) == F { continue; }
            match self.d.leafk(lf).clone() {
                Leaf::Ptr(p) => { let p = self.d.ptrs[p as usize].clone(); out.push((gg, Loc { base: p.base, path: p.path, ty: to, var: None, meta: p.meta })); }
                _ => { out.push((gg, Loc { base: Base::Dangling, path: vec![], ty: to, var: None, meta: None })); }
            }
        }
    }
    /// What a pointer argument points to.
    pub fn behind(&mut self, st: &St<'p>, v: &V) -> V {
        let mut out = vec![];
        let ty = st.fr[0].tys.first().copied().unwrap_or_default();
        self.deref_val(st, st.g, v, ty, &mut out);
        match out.as_slice() { [(_, l)] => self.read(st, l), _ => V::Top }
    }
    pub fn read_place(&mut self, st: &St<'p>, fi: u32, pl: &Place) -> V {
        if pl.proj.is_empty() { return st.fr[fi as usize].vals[pl.local as usize].clone(); }
        let ls = self.locs(st, fi, pl);
        self.read_locs(st, &ls)
    }
    pub fn read_locs(&mut self, st: &St<'p>, ls: &[(B, Loc)]) -> V {
        let mut r = V::Un;
        for (g, l) in ls {
            let v = self.read(st, l);
            r = if *g == T || matches!(r, V::Un) { v } else { self.ite(*g, &v, &r) };
        }
        r
    }
    pub fn write_place(&mut self, st: &mut St<'p>, fi: u32, pl: &Place, v: V) {
        if pl.proj.is_empty() { Rc::make_mut(&mut st.fr[fi as usize]).vals[pl.local as usize] = v; return; }
        let ls = self.locs(st, fi, pl);
        self.write_locs(st, &ls, v);
    }
    pub fn write_locs(&mut self, st: &mut St<'p>, ls: &[(B, Loc)], v: V) {
        if ls.len() == 1 { self.write(st, &ls[0].1, v, None); return; }
        for (g, l) in ls { self.write(st, l, v.clone(), Some(*g)); }
    }
    pub fn operand(&mut self, st: &St<'p>, fi: u32, o: &Operand) -> V {
        match o {
            Operand::Place(p) => self.read_place(st, fi, p),
            Operand::Const(c, ty) => self.cval(c, *ty),
        }
    }
    pub fn cval(&mut self, c: &CVal, ty: TyId) -> V {
        match c {
            CVal::Int(w, x) => {
                let p = self.p;
                match &p.ty(ty).k {
                    TyK::Adt { is_enum, variants, tag, .. } => {
                        // scalar-layout constant of a struct or enum
                        let vi = match tag {
                            Tag::Single(v) => *v,
                            Tag::Direct { w, .. } => match variants.iter().position(|v| v.discr & mask(*w) == *x & mask(*w)) { Some(i) => i as u32, None => return V::Top },
                            Tag::Niche { w, untagged, first, last, start, .. } => { let rel = x.wrapping_sub(*start) & mask(*w); if rel <= (*last - *first) as u128 { rel as u32 + *first } else { *untagged } }
                            Tag::None => return V::Top,
                        };
                        let va = &variants[vi as usize];
                        let fs: Vec<V> = va.fields.clone().iter().map(|f| if p.ty(*f).size == 0 { self.unit_of(*f) } else { self.cval(c, *f) }).collect();
                        if *is_enum { self.variant(ty, vi, fs) } else { V::Agg(Rc::new(fs)) }
                    }
                    TyK::Array { elem, len } if *len == 1 => { let v = self.cval(c, *elem); V::Agg(Rc::new(vec![v])) }
                    TyK::Ptr { .. } => V::W(self.d.ptr(PtrT { base: Base::Dangling, path: vec![], meta: None })),
                    _ => { let w = p.width(ty).unwrap_or(*w); self.kw(w, *x) }
                }
            }
            CVal::Callee(c) => self.fun(c.clone()),
            CVal::Ptr { alloc, off, meta } => { let meta = meta.map(|m| self.d.k(64, m as u128)); let p = V::W(self.d.ptr(PtrT { base: Base::Alloc(*alloc, *off), path: vec![], meta })); self.wrap_ptr(p, ty) }
            CVal::Zst => self.unit_of(ty),
            CVal::Mem { alloc, off } => self.load_alloc(*alloc, *off, ty),
            CVal::Top => { self.note("unevaluated constant"); V::Top }
        }
    }
    fn wrap_ptr(&mut self, v: V, ty: TyId) -> V { match &self.p.ty(ty).k { TyK::Adt { is_enum: false, variants, .. } if variants.len() == 1 => { let fs = variants[0].fields.iter().map(|f| if self.p.ty(*f).size == 0 { self.unit_of(*f) } else { self.wrap_ptr(v.clone(), *f) }).collect(); V::Agg(Rc::new(fs)) } _ => v } }
    pub fn unit_of(&mut self, ty: TyId) -> V {
        match &self.p.ty(ty).k {
            TyK::Adt { is_enum: false, variants, .. } if variants.len() == 1 => V::Agg(Rc::new(variants[0].fields.iter().map(|f| self.unit_of(*f)).collect())),
            TyK::Adt { is_enum: true, variants, tag: Tag::Single(v), .. } => {
                let fs = variants[*v as usize].fields.iter().map(|f| self.unit_of(*f)).collect();
                let mut pay = vec![None; variants.len()];
                pay[*v as usize] = Some(Rc::new(fs));
                V::En(Rc::new(En { disc: self.d.k(32, *v as u128), pay }))
            }
            _ => V::Agg(Rc::new(vec![])),
        }
    }

    // ------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &St<'p>, fi: u32, r: &Rvalue, dest_ty: TyId) -> V {
        match r {
            Rvalue::Use(o) => self.operand(st, fi, o),
            Rvalue::Repeat(o, n) => { let v = self.operand(st, fi, o); V::Agg(Rc::new(vec![v; *n as usize])) }
            Rvalue::Ref(p) => {
                if let Some((Proj::Deref, rest)) = p.proj.split_last() {
                    // reborrowing a slice view of a modelled container
                    let inner = Place { local: p.local, proj: rest.to_vec() };
                    let ls = self.locs(st, fi, &inner);
                    if let [(_, l)] = ls.as_slice() { if matches!(l.base, Base::Obj(..)) { let v = self.read(st, l); if matches!(v, V::Coll(_)) { return v; } } }
                }
                let ls = self.locs(st, fi, p);
                let mut acc: Option<W> = None;
                for (g, l) in ls {
                    let meta = if matches!(self.p.ty(l.ty).k, TyK::Slice { .. } | TyK::Str | TyK::Opaque(_)) { l.meta } else { None };
                    let w = self.d.ptr(PtrT { base: l.base, path: l.path, meta });
                    acc = Some(match acc { None => w, Some(a) => self.d.wite(g, w, a) });
                }
                match acc { Some(w) => V::W(w), None => V::Un }
            }
            Rvalue::Discr(p) => {
                let ls = self.locs(st, fi, p);
                let ty = ls.first().map(|x| x.1.ty);
                let v = self.read_locs(st, &ls);
                match ty { Some(t) => self.discr(&v, t, dest_ty), None => V::Un }
            }
            Rvalue::Cast(k, o, from, to) => { let v = self.operand(st, fi, o); self.cast(k, v, *from, *to) }
            Rvalue::Bin(op, a, b, t) => { let x = self.operand(st, fi, a); let y = self.operand(st, fi, b); self.bin(*op, &x, &y, *t, dest_ty) }
            Rvalue::Un(op, a, t) => {
                let x = self.operand(st, fi, a);
                let w = self.w(&x);
                match op {
                    UnOp::Not => V::W(self.d.not_w(w)),
                    UnOp::Neg => V::W(self.d.neg_w(w)),
                    UnOp::Meta => { let _ = t; V::W(self.meta_of(w)) }
                }
            }
            Rvalue::Agg(k, ops, ty) => {
                let vs: Vec<V> = ops.iter().map(|o| self.operand(st, fi, o)).collect();
                match k {
                    AggK::Tuple | AggK::Array => V::Agg(Rc::new(vs)),
                    AggK::Adt { variant, union_field } => {
                        if union_field.is_some() { return vs.into_iter().next().unwrap_or(V::Un); }
                        if self.is_enum(*ty) { self.variant(*ty, *variant, vs) } else { V::Agg(Rc::new(vs)) }
                    }
                    AggK::RawPtr => {
                        let p = self.w(&vs[0]);
                        if matches!(vs[1], V::Agg(_)) { return V::W(p); }
                        let m = self.w(&vs[1]);
                        V::W(self.d.map1(p, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(x) => { let mut t = d.ptrs[x as usize].clone(); t.meta = Some(m); if let Some(PElem::Idx(k)) = t.path.last().copied() { t.path.pop(); t.path.push(PElem::From(k)); } d.ptr(t) } _ => d.top() }))
                    }
                }
            }
            Rvalue::Top => { self.note("unmodelled rvalue"); V::Top }
        }
    }
    pub fn meta_of(&mut self, w: W) -> W { self.d.map1(w, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(p) => match d.ptrs[p as usize].meta { Some(m) => m, None => d.top() }, _ => d.top() }) }
    pub fn discr(&mut self, v: &V, ty: TyId, dest: TyId) -> V {
        match v {
            V::En(e) => {
                let p = self.p;
                let w = p.width(dest).unwrap_or(64);
                let TyK::Adt { variants, .. } = &p.ty(ty).k else { return V::Top };
                let trivial = variants.iter().enumerate().all(|(i, v)| v.discr == i as u128);
                let disc = e.disc;
                if trivial { return V::W(self.d.resize(disc, w, false)); }
                V::W(self.d.map1(disc, &mut |d, l| match d.lconst(l) { Some(c) => { let x = variants[c as usize].discr; d.k(w, x) } None => d.top() }))
            }
            V::Un => V::Un,
            _ => { self.note("discriminant of an unknown value"); V::W(self.d.top()) }
        }
    }
    fn flatten(&self, v: &V, out: &mut Vec<V>) { match v { V::Agg(a) => for x in a.iter() { self.flatten(x, out) }, x => out.push(x.clone()) } }
    fn unflatten(&mut self, ty: TyId, it: &mut std::vec::IntoIter<V>) -> Option<V> {
        let p = self.p;
        match &p.ty(ty).k {
            TyK::Adt { is_enum: false, is_union: false, variants, .. } => { let mut fs = vec![]; for f in &variants[0].fields { fs.push(if p.ty(*f).size == 0 { self.unit_of(*f) } else { self.unflatten(*f, it)? }); } Some(V::Agg(Rc::new(fs))) }
            TyK::Array { elem, len } => { let mut fs = vec![]; for _ in 0..*len { fs.push(self.unflatten(*elem, it)?); } Some(V::Agg(Rc::new(fs))) }
            _ => it.next(),
        }
    }
    fn leaf_tys(&self, ty: TyId, out: &mut Vec<TyId>) {
        match &self.p.ty(ty).k {
            TyK::Adt { is_enum: false, is_union: false, variants, .. } => for f in &variants[0].fields { if self.p.ty(*f).size > 0 { self.leaf_tys(*f, out) } },
            TyK::Array { elem, len } => for _ in 0..*len { self.leaf_tys(*elem, out) },
            _ => out.push(ty),
        }
    }
    fn cast(&mut self, k: &CastK, v: V, from: TyId, to: TyId) -> V {
        let p = self.p;
        match k {
            CastK::IntToInt => {
                let w = match p.width(to) { Some(w) => w, None => return V::Top };
                let s = p.signed(from);
                let v = if let V::En(_) = &v { self.discr(&v, from, to) } else { v };
                let x = self.w(&v);
                V::W(self.d.resize(x, w, s))
            }
            CastK::ReifyFn => v,
            CastK::PtrToPtr => self.ptr_cast(v, from, to),
            CastK::Unsize => {
                // the pointee of a box; the value is the pointer inside its wrappers
                let boxed = |t: TyId| -> Option<TyId> { let n = &p.ty(t).name; if !n.starts_with("std::boxed::Box<") { return None; } let mut t = t; loop { match &p.ty(t).k { TyK::Ptr { to } => return Some(*to), TyK::Adt { is_enum: false, variants, .. } if variants.len() == 1 => t = *variants[0].fields.first()?, _ => return None } } };
                if let (Some(a), Some(b)) = (boxed(from), boxed(to)) {
                    if let (TyK::Array { len, .. }, TyK::Slice { .. }) = (&p.ty(a).k, &p.ty(b).k) {
                        let m = self.d.k(64, *len as u128);
                        let mut x = v;
                        while let V::Agg(a) = &x { if a.is_empty() { break; } let y = a[0].clone(); x = y; }
                        let w = self.w(&x);
                        let w = self.d.map1(w, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(x) => { let mut t = d.ptrs[x as usize].clone(); t.meta = Some(m); t.path.push(PElem::From(0)); d.ptr(t) } _ => d.top() });
                        return self.wrap_ptr(V::W(w), to);
                    }
                    return V::Top;
                }
                let (TyK::Ptr { to: a }, TyK::Ptr { to: b }) = (&p.ty(from).k, &p.ty(to).k) else { return V::Top };
                if let (TyK::Array { len, .. }, TyK::Slice { .. }) = (&p.ty(*a).k, &p.ty(*b).k) {
                    let w = self.w(&v);
                    let m = self.d.k(64, *len as u128);
                    return V::W(self.d.map1(w, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(x) => { let mut t = d.ptrs[x as usize].clone(); t.meta = Some(m); if !matches!(t.base, Base::Alloc(..)) { t.path.push(PElem::From(0)); } d.ptr(t) } _ => d.top() }));
                }
                V::Top
            }
            CastK::Transmute => {
                if from == to { return v; }
                let (pf, pt) = (matches!(p.ty(from).k, TyK::Ptr { .. }), matches!(p.ty(to).k, TyK::Ptr { .. }));
                if pf && pt { return self.ptr_cast(v, from, to); }
                // unions are stored as their contents
                let mut fl = vec![];
                self.flatten(&v, &mut fl);
                let mut lt = vec![];
                self.leaf_tys(to, &mut lt);
                let mut lf = vec![];
                self.leaf_tys(from, &mut lf);
                if lf.len() == fl.len() && lf.len() == lt.len() && lf.iter().zip(&lt).all(|(a, b)| p.ty(*a).size == p.ty(*b).size) {
                    // enum from integer / integer from enum
                    let mut o = vec![];
                    for ((x, a), b) in fl.into_iter().zip(lf).zip(lt) { o.push(self.scalar_pun(x, a, b)); }
                    let mut it = o.into_iter();
                    return self.unflatten(to, &mut it).unwrap_or(V::Top);
                }
                // integer <-> bytes
                if lf.iter().all(|t| p.width(*t).is_some()) && lf.len() == fl.len() && lt.iter().all(|t| p.width(*t).is_some()) && p.ty(from).size == p.ty(to).size {
                    let mut bits: Option<W> = None;
                    let total = (p.ty(from).size * 8) as u32;
                    let mut pos = 0;
                    for (x, t) in fl.iter().zip(&lf) { let w = self.w(x); let e = self.d.resize(w, total, false); let s = self.d.shl(e, pos); bits = Some(match bits { None => s, Some(b) => self.d.or_w(b, s) }); pos += (p.ty(*t).size * 8) as u32; }
                    let b = bits.unwrap();
                    let mut pos = 0;
                    let mut o = vec![];
                    for t in &lt { let s = self.d.shr(b, pos, false); let w = p.width(*t).unwrap(); o.push(V::W(self.d.resize(s, w, false))); pos += (p.ty(*t).size * 8) as u32; }
                    let mut it = o.into_iter();
                    return self.unflatten(to, &mut it).unwrap_or(V::Top);
                }
                if self.is_union(from) || self.is_union(to) { return v; }
                self.note(format!("transmute {} to {}", p.ty(from).name, p.ty(to).name));
                V::Top
            }
            CastK::Other => { self.note("unmodelled cast"); V::Top }
        }
    }
    fn scalar_pun(&mut self, v: V, from: TyId, to: TyId) -> V {
        let p = self.p;
        if let TyK::Adt { is_enum: true, variants, tag, .. } = &p.ty(to).k {
            if p.width(from).is_some() {
                let w = self.w(&v);
                let tw = match tag { Tag::Direct { w, .. } => *w, _ => return V::Top };
                let Some(x) = self.d.expand(w, 8) else { self.note("enum from an unknown integer"); return V::Top };
                let disc = self.d.map1(x, &mut |d, l| match d.lconst(l).and_then(|c| variants.iter().position(|v| v.discr & mask(tw) == c & mask(tw))) { Some(i) => d.k(32, i as u128), None => d.top() });
                return V::En(Rc::new(En { disc, pay: variants.iter().map(|_| Some(Rc::new(vec![]))).collect() }));
            }
        }
        if let TyK::Adt { is_enum: true, .. } = &p.ty(from).k { if p.width(to).is_some() { return self.discr(&v, from, to); } }
        if matches!((&p.ty(from).k, &p.ty(to).k), (TyK::Ptr { .. }, TyK::Ptr { .. })) { return self.ptr_cast(v, from, to); }
        v
    }
    fn ptr_cast(&mut self, v: V, from: TyId, to: TyId) -> V {
        let p = self.p;
        let (TyK::Ptr { to: a }, TyK::Ptr { to: b }) = (&p.ty(from).k, &p.ty(to).k) else { return v };
        let (ka, kb) = (&p.ty(*a).k, &p.ty(*b).k);
        let seq = |k: &TyK| matches!(k, TyK::Array { .. } | TyK::Slice { .. } | TyK::Str);
        if seq(ka) && !seq(kb) {
            let w = self.w(&v);
            return V::W(self.d.map1(w, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(x) => { let mut t = d.ptrs[x as usize].clone(); t.meta = None; if !matches!(t.base, Base::Alloc(..)) { match t.path.last().copied() { Some(PElem::From(k)) => { t.path.pop(); t.path.push(PElem::Idx(k)); } _ => t.path.push(PElem::Idx(0)) } } d.ptr(t) } _ => d.leaf_w(l) }));
        }
        if *a == *b { return v; }
        // Transparent wrappers: descend to the object at the start of the pointee.
        if let Some(down) = self.descend(*a, *b) {
            if down.is_empty() { return v; }
            let w = self.w(&v);
            return V::W(self.d.map1(w, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(x) => { let mut t = d.ptrs[x as usize].clone(); if !matches!(t.base, Base::Alloc(..)) { t.path.extend(down.iter().copied()); } d.ptr(t) } _ => d.leaf_w(l) }));
        }
        // and climb back to the wrapper.
        if let Some(up) = self.descend(*b, *a) {
            let w = self.w(&v);
            return V::W(self.d.map1(w, &mut |d, l| match d.leafk(l).clone() { Leaf::Ptr(x) => { let mut t = d.ptrs[x as usize].clone(); if !matches!(t.base, Base::Alloc(..)) && t.path.ends_with(&up) { let n = t.path.len() - up.len(); t.path.truncate(n); } d.ptr(t) } _ => d.leaf_w(l) }));
        }
        v
    }
    /// The path from an object of type `a` to the object of type `b` that starts it: through
    /// wrappers of the same size, and from an array to its first element.
    fn descend(&self, a: TyId, b: TyId) -> Option<Vec<PElem>> {
        let p = self.p;
        let (mut at, mut path) = (a, vec![]);
        loop {
            if at == b { return Some(path); }
            match &p.ty(at).k {
                TyK::Adt { is_union: true, variants, .. } => at = *variants[0].fields.iter().find(|f| p.ty(**f).size == p.ty(at).size && p.ty(at).size > 0)?,
                TyK::Adt { is_enum: false, variants, .. } => {
                    let i = variants[0].fields.iter().position(|f| p.ty(*f).size == p.ty(at).size && p.ty(at).size > 0)?;
                    path.push(PElem::Field(i as u32));
                    at = variants[0].fields[i];
                }
                TyK::Array { elem, .. } => { path.push(PElem::Idx(0)); at = *elem; }
                _ => return None,
            }
        }
    }
    pub fn bin(&mut self, op: BinOp, a: &V, b: &V, t: TyId, dest: TyId) -> V {
        let s = self.p.signed(t);
        let x = self.w(a);
        let y = self.w(b);
        let d = &mut self.d;
        match op {
            BinOp::Add => V::W(d.add(x, y)),
            BinOp::Sub => V::W(d.sub(x, y)),
            BinOp::Mul => V::W(d.num2(x, y, &mut |d, p, q| d.mul_l(p, q))),
            BinOp::AddOv | BinOp::SubOv => {
                let sub = op == BinOp::SubOv;
                let r = if sub { d.sub(x, y) } else { d.add(x, y) };
                let o = d.ovf(x, y, sub, s);
                let o = d.from_b(o);
                V::Agg(Rc::new(vec![V::W(r), V::W(o)]))
            }
            BinOp::MulOv => {
                let r = d.num2(x, y, &mut |d, p, q| d.mul_l(p, q));
                let o = d.pred2(x, y, &mut |d, p, q| d.mul_ov_l(p, q, s));
                let o = d.from_b(o);
                V::Agg(Rc::new(vec![V::W(r), V::W(o)]))
            }
            BinOp::Div => V::W(d.div(x, y, s, false)),
            BinOp::Rem => V::W(d.div(x, y, s, true)),
            BinOp::And => V::W(d.and_w(x, y)),
            BinOp::Or => V::W(d.or_w(x, y)),
            BinOp::Xor => V::W(d.xor_w(x, y)),
            BinOp::Shl | BinOp::Shr | BinOp::ShlUnchecked | BinOp::ShrUnchecked => {
                let w = d.width(x);
                let right = matches!(op, BinOp::Shr | BinOp::ShrUnchecked);
                match d.expand(y, 8) {
                    Some(n) => V::W(d.map2(x, n, &mut |d, p, q| { let Some(c) = d.lconst(q) else { return d.top() }; let c = (c & 0xffff_ffff) as u32 % w; if !matches!(d.leafk(p), Leaf::Aff { .. } | Leaf::Bits(_)) { return d.top(); } let l = if right { d.shr_l(p, c, s) } else { d.shl_l(p, c) }; d.leaf_w(l) })),
                    None => { self.note("shift by an unknown amount"); V::W(self.d.top()) }
                }
            }
            BinOp::Eq => { let r = d.eq(x, y); V::W(d.from_b(r)) }
            BinOp::Ne => { let r = d.eq(x, y); let r = d.not(r); V::W(d.from_b(r)) }
            BinOp::Lt => { let r = d.lt(x, y, s); V::W(d.from_b(r)) }
            BinOp::Le => { let r = d.le(x, y, s); V::W(d.from_b(r)) }
            BinOp::Gt => { let r = d.lt(y, x, s); V::W(d.from_b(r)) }
            BinOp::Ge => { let r = d.le(y, x, s); V::W(d.from_b(r)) }
            BinOp::Cmp => {
                let l = d.lt(x, y, s); let e = d.eq(x, y);
                let (k0, k1, k2) = (d.k(32, 0), d.k(32, 1), d.k(32, 2));
                let r = d.wite(e, k1, k2);
                let disc = d.wite(l, k0, r);
                let _ = dest;
                V::En(Rc::new(En { disc, pay: vec![Some(Rc::new(vec![])); 3] }))
            }
            BinOp::Offset => { let r = self.ptr_offset(x, y); V::W(r) }
        }
    }
    pub fn ptr_offset(&mut self, p: W, n: W) -> W {
        self.d.map2(p, n, &mut |d, a, b| {
            let Leaf::Ptr(x) = d.leafk(a).clone() else { return d.top() };
            let Some(c) = d.lconst(b) else {
                // a number of elements into an external object
                let mut t = d.ptrs[x as usize].clone();
                if !matches!(t.base, Base::Ext(_)) || !d.is_num(b) { return d.top(); }
                let Some(PElem::Idx(0)) = t.path.pop() else { return d.top() };
                let n = d.leaf_w(b);
                t.path.push(PElem::Sym(n));
                return d.ptr(t);
            };
            let mut t = d.ptrs[x as usize].clone();
            match t.path.last().copied() { Some(PElem::Idx(k)) => { t.path.pop(); t.path.push(PElem::Idx(k.wrapping_add(c as u64))); d.ptr(t) } _ if c == 0 => d.ptr(t), _ => d.top() }
        })
    }

    // ------------------------------------------------------------ control
    pub fn merge(&mut self, a: St<'p>, b: St<'p>) -> St<'p> {
        if a.g == F { return b; }
        if b.g == F { return a; }
        let g = self.d.or(a.g, b.g);
        let c = self.d.restrict(a.g, g);
        let mut fr = Vec::with_capacity(a.fr.len());
        let n = a.fr.len();
        let ord = if a.ord == b.ord { a.ord } else { self.d.sel(c, a.ord, b.ord) };
        let mut bf = b.fr.into_iter();
        for (i, x) in a.fr.into_iter().enumerate() {
            let y = match bf.next() { Some(y) => y, None => break };
            if Rc::ptr_eq(&x, &y) { fr.push(x); continue; }
            let mut vals = Vec::with_capacity(x.vals.len());
            for (p, q) in x.vals.iter().zip(y.vals.iter()) { vals.push(if Self::same(p, q) { p.clone() } else { self.ite(c, p, q) }); }
            fr.push(Rc::new(Frame { tys: x.tys, vals }));
            let _ = (i, n);
        }
        St { g, fr, ord }
    }
    pub fn merge_opt(&mut self, a: Option<St<'p>>, b: St<'p>) -> St<'p> { match a { None => b, Some(a) => self.merge(a, b) } }

    /// Analyse a call of function `f`; None when it never returns.
    pub fn call(&mut self, f: FnId, args: Vec<V>, mut st: St<'p>, line: u32) -> Option<(V, St<'p>)> {
        let p = self.p;
        let func = &p.fns[f as usize];
        if !func.ok || func.blocks.is_empty() { self.note(format!("no body for {}", func.path)); return Some((V::Top, st)); }
        if self.stack.len() > 120 { self.note("recursion too deep"); return Some((V::Top, st)); }
        if let Some(l) = self.stack.last_mut() { l.1 = line; }
        self.stack.push((f, func.line));
        *self.calls_seen.entry(f).or_insert(0) += 1;
        let fi = st.fr.len() as u32;
        let mut vals = vec![V::Un; func.locals.len()];
        let mut args = args;
        if args.len() != func.nargs {
            if let Some(sp) = func.spread { let _ = sp; let n = func.nargs - 1; if args.len() > n { let rest = args.split_off(n); args.push(V::Agg(Rc::new(rest))); } }
            else if args.len() + 1 >= 1 && !args.is_empty() { if let Some(V::Agg(t)) = args.last().cloned() { args.pop(); args.extend(t.iter().cloned()); } }
        }
        for (i, a) in args.into_iter().enumerate() { if i + 1 < vals.len() { vals[i + 1] = a; } }
        st.fr.push(Rc::new(Frame { tys: &func.locals, vals }));
        let mut pending: Vec<Option<St<'p>>> = vec![None; func.blocks.len()];
        let mut visits = vec![0u32; func.blocks.len()];
        let mut work: BTreeSet<(u32, u32)> = BTreeSet::new();
        pending[0] = Some(st);
        work.insert((func.order[0], 0));
        let mut ret: Option<St<'p>> = None;
        while let Some(x) = work.pop_first() {
            let b = x.1;
            let st = pending[b as usize].take().unwrap();
            visits[b as usize] += 1;
            if visits[b as usize] > self.visit_cap || self.steps > self.step_cap {
                let site = self.site();
                self.unbounded.push((site, st.g));
                self.note("iteration bound reached");
                continue;
            }
            let mut out: Vec<(u32, St<'p>)> = vec![];
            self.block(func, fi, b, st, &mut out, &mut ret);
            for (t, s) in out {
                if s.g == F { continue; }
                let prev = pending[t as usize].take();
                let m = self.merge_opt(prev, s);
                pending[t as usize] = Some(m);
                work.insert((func.order[t as usize], t));
            }
        }
        self.stack.pop();
        let mut st = ret?;
        let fr = st.fr.pop().unwrap();
        let v = fr.vals[0].clone();
        Some((v, st))
    }

    fn block(&mut self, func: &'p Func, fi: u32, b: u32, mut st: St<'p>, out: &mut Vec<(u32, St<'p>)>, ret: &mut Option<St<'p>>) {
        let blk = &func.blocks[b as usize];
        for (s, line) in &blk.stmts {
            self.steps += 1;
            if self.steps & 0xfff == 0 { self.d.tick(); }
            if let Some(l) = self.stack.last_mut() { l.1 = *line; }
            if let Some(x) = self.grow.as_mut() { let n = self.d.nodes(); let w = self.stack.last().map(|(f, l)| (*f, *l)).unwrap_or_default(); let k = (x.1, n.saturating_sub(x.0)); x.0 = n; x.1 = w; *x.2.entry(k.0).or_insert(0usize) += k.1; }
            match s {
                Stmt::Assign(p, r) => {
                    let dt = self.place_ty(func, p);
                    let v = self.rvalue(&st, fi, r, dt);
                    self.write_place(&mut st, fi, p, v);
                }
                Stmt::SetDiscr(p, v) => {
                    let ls = self.locs(&st, fi, p);
                    let old = self.read_locs(&st, &ls);
                    let k = self.d.k(32, *v as u128);
                    let ty = ls[0].1.ty;
                    let n = match &self.p.ty(ty).k { TyK::Adt { variants, .. } => variants.len(), _ => 1 };
                    let nv = match old { V::En(e) => V::En(Rc::new(En { disc: k, pay: e.pay.clone() })), _ => V::En(Rc::new(En { disc: k, pay: vec![Some(Rc::new(vec![])); n] })) };
                    self.write_locs(&mut st, &ls, nv);
                }
                Stmt::Dead(l) => { if !matches!(st.fr[fi as usize].vals[*l as usize], V::Un) { Rc::make_mut(&mut st.fr[fi as usize]).vals[*l as usize] = V::Un; } }
                Stmt::Nop => {}
            }
        }
        if let Some(l) = self.stack.last_mut() { l.1 = blk.line; }
        match &blk.term {
            Term::Goto(t) => out.push((*t, st)),
            Term::Return => { let r = ret.take(); *ret = Some(self.merge_opt(r, st)); }
            Term::Unreachable => {}
            Term::Abort(m) => { let site = self.site(); self.note(m.clone()); let _ = site; }
            Term::Drop { target, glue, place } => {
                if let Some(g) = glue {
                    let ls = self.locs(&st, fi, place);
                    if ls.len() == 1 { let l = &ls[0].1; let p = self.d.ptr(PtrT { base: l.base, path: l.path.clone(), meta: None }); if let Some((_, s)) = self.call(*g, vec![V::W(p)], st, blk.line) { out.push((*target, s)); } return; }
                }
                out.push((*target, st))
            }
            Term::Assert { cond, expected, msg, target } => {
                let v = self.operand(&st, fi, cond);
                let w = self.w(&v);
                let mut c = self.d.to_b(w);
                if !*expected { c = self.d.not(c); }
                let nc = self.d.not(c);
                let fail = self.d.and(st.g, nc);
                if fail != F { let site = self.site(); self.panics.push(PanicEv { g: fail, msg: msg.clone(), site }); }
                st.g = self.d.and(st.g, c);
                if st.g != F { out.push((*target, st)); }
            }
            Term::Switch { op, ty, targets, otherwise } => {
                let v = self.operand(&st, fi, op);
                let w = self.w(&v);
                let _ = ty;
                if self.p.width(*ty) == Some(1) {
                    let c = self.d.to_b(w);
                    let mut rest = st.g;
                    for (val, t) in targets {
                        let cc = if *val == 0 { self.d.not(c) } else { c };
                        let g = self.d.and(rest, cc);
                        let ncc = self.d.not(cc);
                        rest = self.d.and(rest, ncc);
                        if g != F { let mut s = st.clone(); s.g = g; out.push((*t, s)); }
                    }
                    if rest != F { st.g = rest; out.push((*otherwise, st)); }
                    return;
                }
                let tw = self.p.width(*ty).unwrap_or(64);
                if let Some(c) = self.d.as_const(w) {
                    let t = targets.iter().find(|x| x.0 & mask(tw) == c).map(|x| x.1).unwrap_or(*otherwise);
                    out.push((t, st));
                    return;
                }
                let mut rest = st.g;
                for (val, t) in targets {
                    let k = self.d.k(tw, *val);
                    let e = self.d.eq(w, k);
                    let g = self.d.and(rest, e);
                    let ne = self.d.not(e);
                    rest = self.d.and(rest, ne);
                    if g != F { let mut s = st.clone(); s.g = g; out.push((*t, s)); }
                    if rest == F { break; }
                }
                if rest != F { st.g = rest; out.push((*otherwise, st)); }
            }
            Term::Call { f, args, arg_tys, dest, ret: rty, target } => {
                let avals: Vec<V> = args.iter().map(|a| self.operand(&st, fi, a)).collect();
                let callees: Vec<(B, Option<Callee>)> = match f {
                    Operand::Const(CVal::Callee(c), _) => vec![(T, Some(c.clone()))],
                    o => {
                        let v = self.operand(&st, fi, o);
                        let w = self.w(&v);
                        let w = self.d.wrestrict(w, st.g);
                        self.d.cases(w).into_iter().map(|(g, l)| (g, match self.d.leafk(l) { Leaf::Fun(i) => Some(self.funs[*i as usize].clone()), Leaf::Ptr(p) => match self.d.ptrs[*p as usize].base { Base::Ext(n) => Some(Callee::Model(format!("ext:{n}"))), _ => None }, _ => None })).collect()
                    }
                };
                let single = callees.len() == 1;
                let mut acc: Option<St<'p>> = None;
                for (g, c) in callees {
                    let mut s = st.clone();
                    if !single { s.g = self.d.and(s.g, g); if s.g == F { continue; } }
                    let r = match c {
                        Some(c) => self.dispatch(&c, avals.clone(), arg_tys, *rty, s, blk.line),
                        None => { self.note("call through an unknown pointer"); Some((V::Top, s)) }
                    };
                    if let Some((v, mut s)) = r {
                        if target.is_some() { self.write_place(&mut s, fi, dest, v); }
                        acc = Some(self.merge_opt(acc, s));
                    }
                }
                if let (Some(t), Some(s)) = (target, acc) { if s.g != F { out.push((*t, s)); } }
            }
        }
    }
    fn place_ty(&self, func: &Func, p: &Place) -> TyId {
        let mut ty = func.locals[p.local as usize];
        for e in &p.proj {
            ty = match e {
                Proj::Deref => match &self.p.ty(ty).k { TyK::Ptr { to } => *to, _ => ty },
                Proj::Field(_, t) => *t,
                Proj::Index(_) | Proj::ConstIndex { .. } => match &self.p.ty(ty).k { TyK::Array { elem, .. } | TyK::Slice { elem } => *elem, _ => ty },
                _ => ty,
            };
        }
        ty
    }

    pub fn panic(&mut self, g: B, msg: &str) { if g != F { let site = self.site(); self.panics.push(PanicEv { g, msg: msg.to_string(), site }); } }

    pub fn dispatch(&mut self, c: &Callee, args: Vec<V>, arg_tys: &[TyId], ret: TyId, mut st: St<'p>, line: u32) -> Option<(V, St<'p>)> {
        match c {
            Callee::Fn(f) => {
                if self.hooks.is_some() && self.fn_filter.as_ref().map(|h| h(&self.p.fns[*f as usize])).unwrap_or(false) {
                    let path = self.p.fns[*f as usize].path.clone();
                    let mut h = self.hooks.take().unwrap();
                    let r = h(self, &path, &args, arg_tys, ret, &mut st);
                    self.hooks = Some(h);
                    if let Some(v) = r { return if st.g == F { None } else { Some((v, st)) }; }
                }
                // slice views of a modelled container
                let p = self.p;
                let path = &p.fns[*f as usize].path;
                if path == "core::slice::<impl [T]>::contains" {
                    if let Some(r) = self.slice_contains(&args, arg_tys, &st) { return Some((r, st)); }
                }
                // arrays iterated by value
                if path.starts_with("std::array::iter::<impl std::iter::IntoIterator for [T; N]>") || path.starts_with("core::array::iter::<impl std::iter::IntoIterator for [T; N]>") {
                    if let Some(V::Agg(a)) = args.first() { if a.len() <= 64 { return Some((V::Coll(Rc::new(Coll { items: a.iter().map(|x| (T, x.clone())).collect(), pos: 0 })), st)); } }
                }
                if matches!(path.as_str(), "core::array::<impl [T; N]>::map" | "std::array::<impl [T; N]>::map" | "std::array::from_fn" | "core::array::from_fn") {
                    let given = if path.ends_with("map") { match args.first() { Some(V::Agg(a)) if a.len() <= 64 => Some(a.to_vec()), _ => None } } else {
                        match &p.ty(ret).k { TyK::Array { len, .. } if *len <= 64 => { let n = *len as u128; Some((0..n).map(|i| V::W(self.d.k(64, i))).collect()) } _ => None }
                    };
                    let cl = args.len() - 1;
                    let f = p.roots.get(&format!("closure:{}", p.ty(arg_tys[cl]).name)).copied();
                    if let (Some(given), Some(f)) = (given, f) {
                        let func = &p.fns[f as usize];
                        let by_ref = matches!(&p.ty(func.locals[1]).k, TyK::Ptr { .. });
                        let tys: &'p [TyId] = Box::leak(Box::new([arg_tys[cl]]));
                        let fi = st.fr.len() as u32;
                        st.fr.push(Rc::new(Frame { tys, vals: vec![args[cl].clone()] }));
                        let env = if by_ref { V::W(self.d.ptr(PtrT { base: Base::Obj(fi, 0), path: vec![], meta: None })) } else { args[cl].clone() };
                        let mut out = vec![];
                        for x in given {
                            let (v, s) = self.call(f, vec![env.clone(), x], st, line)?;
                            out.push(v);
                            st = s;
                        }
                        st.fr.pop();
                        return Some((V::Agg(Rc::new(out)), st));
                    }
                }
                if path.starts_with("<std::array::IntoIter<") {
                    let m = path.rsplit("::").next().unwrap_or("");
                    if let Some(r) = self.coll_model(&format!("vec::IntoIter<T>::{m}"), &args, arg_tys, ret, &mut st) { return if st.g == F { None } else { Some((r, st)) }; }
                }
                if let Some(m) = path.strip_prefix("core::slice::<impl [T]>::").or_else(|| if path.starts_with("<std::slice::Iter<") { path.rsplit("::").next() } else { None }) {
                    if matches!(m, "iter" | "len" | "is_empty" | "next" | "next_back" | "first" | "last" | "clone" | "for_each" | "fold" | "any" | "all" | "count" | "find" | "position") {
                        let coll = match args.first() { Some(V::Coll(_)) => true, Some(a) => { let a = a.clone(); match arg_tys.first().and_then(|t| self.first_loc(&st, &a, *t)) { Some(l) if matches!(l.base, Base::Obj(..)) => matches!(self.read(&st, &l), V::Coll(_)), _ => false } } _ => false };
                        if coll {
                            if let Some(r) = self.coll_model(&format!("slice of Vec<T>::{m}"), &args, arg_tys, ret, &mut st) { return if st.g == F { None } else { Some((r, st)) }; }
                        }
                    }
                }
                let mut args = args;
                let func = &p.fns[*f as usize];
                if func.closure && args.len() == 2 && func.nargs == 2 && arg_tys.len() == 2 && p.ty(arg_tys[1]).name.starts_with('(') {
                    if let Some(V::Agg(t)) = args.last().cloned() { if t.len() == 1 { args.pop(); args.push(t[0].clone()); } }
                }
                self.call(*f, args, st, line)
            }
            Callee::Mem(k) => { let v = self.mem(*k, &args, &mut st); Some((v, st)) }
            Callee::Panic(m) => { self.panic(st.g, m); None }
            Callee::Intrinsic(n) => self.intrinsic(n, args, arg_tys, ret, st),
            Callee::Model(n) => self.model(n, args, arg_tys, ret, st),
        }
    }

    // ------------------------------------------------------------ the memory interface
    pub fn mem(&mut self, k: MemK, args: &[V], st: &mut St<'p>) -> V {
        let addr = match k { MemK::Reset => self.d.k(32, 0), _ => self.w(&args[1]) };
        let val = match k { MemK::SetByte | MemK::SetWord | MemK::SetLong => Some(self.w(&args[2])), _ => None };
        let v = self.mem_event(EvK::Mem(k), addr, val, st);
        match k {
            MemK::Reset => self.unit(),
            _ => {
                let (ok, data) = v;
                let w = match k { MemK::GetByte => 8, MemK::GetWord => 16, MemK::GetLong => 32, _ => 0 };
                let payload = if w == 0 { self.unit() } else { let r = self.d.resize(data, w, false); V::W(r) };
                self.option(ok, payload)
            }
        }
    }
    /// Records the event and returns (accepted, 32-bit data).
    pub fn mem_event(&mut self, k: EvK, addr: W, val: Option<W>, st: &mut St<'p>) -> (B, W) {
        let site = self.site();
        let addr = self.d.wrestrict(addr, st.g);
        let val = val.map(|v| self.d.wrestrict(v, st.g));
        let ord = self.d.wrestrict(st.ord, st.g);
        self.events.push(Event { k, ord, g: st.g, a: addr, v: val, site });
        let (ok, mut data) = self.mem_input(k, addr, ord);
        if self.recall { if let Some(x) = self.recall_read(k, addr, st.g) { data = x; } }
        let one = self.d.k(16, 1);
        st.ord = self.d.add(ord, one);
        (ok, data)
    }

    /// The value of a read that is covered by earlier writes of the same analysis.
    fn recall_read(&mut self, k: EvK, addr: W, g: B) -> Option<W> {
        let n = match k { EvK::Mem(MemK::GetByte) => 1, EvK::Mem(MemK::GetWord) => 2, EvK::Mem(MemK::GetLong) => 4, _ => return None };
        let a = self.d.as_leaf(addr)?;
        let mut bytes: Vec<Option<(W, u32)>> = vec![None; n];
        for e in self.events.clone().iter() {
            let m = match e.k { EvK::Mem(MemK::SetByte) => 1, EvK::Mem(MemK::SetWord) => 2, EvK::Mem(MemK::SetLong) => 4, _ => continue };
            let wa = self.d.wrestrict(e.a, g);
            let Some(b) = self.d.as_leaf(wa) else { continue };
            let delta = self.d.sub_l(a, b);
            let Some(c) = self.d.lconst(delta) else { continue };
            for (i, x) in bytes.iter_mut().enumerate() {
                let off = (c as u32).wrapping_add(i as u32);
                if off < m && self.d.implies(g, e.g) { *x = Some((e.v?, (m - 1 - off) * 8)); }
            }
        }
        let mut r = None;
        for (i, x) in bytes.iter().enumerate() {
            let (v, sh) = (*x)?;
            let v = self.d.wrestrict(v, g);
            let v = self.d.shr(v, sh, false);
            let v = self.d.resize(v, 8, false);
            let v = self.d.resize(v, 32, false);
            let v = self.d.shl(v, (n as u32 - 1 - i as u32) * 8);
            r = Some(match r { None => v, Some(o) => self.d.or_w(o, v) });
        }
        r
    }
    /// The inputs provided by the environment at the access with the given ordinal.
    pub fn mem_input(&mut self, k: EvK, addr: W, ord: W) -> (B, W) {
        let pc = self.pc_term;
        let ops = self.opcode;
        let is_word = k == EvK::Mem(MemK::GetWord);
        let a0 = self.d.as_leaf(addr);
        let prog = self.program.clone();
        let data = if let Some(prog) = prog { self.d.map2(ord, addr, &mut |d, l, a| {
            let n = match d.lconst(l) { Some(n) => n as u32, None => return d.top() };
            if is_word { if let Some(pc) = pc {
                let dl = d.sub_l(a, pc);
                if let Some(c) = d.lconst(dl) { return d.k(32, prog.get((c / 2) as usize).copied().unwrap_or(0x4e71) as u128); }
                if !d.stack_or_const_off(a, true) { return d.k(32, 0x4e71); }
            } }
            d.word(W_DATA + n, 32, &format!("mem#{n}"))
        }) } else if self.fetch_any { self.d.map2(ord, addr, &mut |d, l, a| {
            let n = match d.lconst(l) { Some(n) => n as u32, None => return d.top() };
            if is_word && !d.stack_or_const(a) { return d.k(32, ops as u128); }
            d.word(W_DATA + n, 32, &format!("mem#{n}"))
        }) } else { self.d.map1(ord, &mut |d, l| {
            let n = match d.lconst(l) { Some(n) => n as u32, None => return d.top() };
            if n == 0 && is_word && pc.is_some() && a0 == pc { return d.k(32, ops as u128); }
            d.word(W_DATA + n, 32, &format!("mem#{n}"))
        }) };
        let ok = if self.accept { T } else { self.d.pred1(ord, &mut |d, l| match d.lconst(l) { Some(n) => d.var(k_ok(n as u32)), None => d.fresh_bool("ok") }) };
        (ok, data)
    }

    // ------------------------------------------------------------ intrinsics and library models
    fn intrinsic(&mut self, n: &str, args: Vec<V>, arg_tys: &[TyId], ret: TyId, mut st: St<'p>) -> Option<(V, St<'p>)> {
        let t0 = arg_tys.first().copied().unwrap_or(ret);
        let b2 = |s: &mut Self, op: BinOp| { let x = s.bin(op, &args[0], &args[1], t0, ret); x };
        let v = match n {
            "wrapping_add" | "unchecked_add" => b2(self, BinOp::Add),
            "wrapping_sub" | "unchecked_sub" => b2(self, BinOp::Sub),
            "wrapping_mul" | "unchecked_mul" => b2(self, BinOp::Mul),
            "add_with_overflow" => b2(self, BinOp::AddOv),
            "sub_with_overflow" => b2(self, BinOp::SubOv),
            "mul_with_overflow" => b2(self, BinOp::MulOv),
            "unchecked_shl" => b2(self, BinOp::Shl),
            "unchecked_shr" => b2(self, BinOp::Shr),
            "unchecked_div" | "exact_div" => b2(self, BinOp::Div),
            "unchecked_rem" => b2(self, BinOp::Rem),
            "three_way_compare" => b2(self, BinOp::Cmp),
            "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => self.unit(),
            "likely" | "unlikely" | "black_box" => args[0].clone(),
            "ctpop" => { let w = self.w(&args[0]); V::W(self.popcount(w, ret)) }
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => { let w = self.w(&args[0]); V::W(self.count_zeros(w, n.starts_with("cttz"), ret)) }
            "bswap" => { let w = self.w(&args[0]); V::W(self.d.num1(w, &mut |d, l| { let b = d.bits(l); let n = b.len() / 8; let mut v = vec![]; for i in (0..n).rev() { v.extend_from_slice(&b[i * 8..i * 8 + 8]); } d.mk_bits(v) })) }
            "bitreverse" => { let w = self.w(&args[0]); V::W(self.d.num1(w, &mut |d, l| { let b = d.bits(l); let v = b.iter().rev().copied().collect(); d.mk_bits(v) })) }
            "rotate_left" | "rotate_right" => {
                let x = self.w(&args[0]); let y = self.w(&args[1]);
                let left = n == "rotate_left";
                match self.d.expand(y, 8) {
                    Some(y) => V::W(self.d.map2(x, y, &mut |d, p, q| { let Some(c) = d.lconst(q) else { return d.top() }; let mut b = d.bits(p).to_vec(); let w = b.len(); let c = c as usize % w; if left { b.rotate_right(c) } else { b.rotate_left(c) } let l = d.mk_bits(b); d.leaf_w(l) })),
                    None => { self.note("rotate by unknown"); V::Top }
                }
            }
            "saturating_add" | "saturating_sub" => {
                let sub = n == "saturating_sub";
                let s = self.p.signed(t0);
                let x = self.w(&args[0]); let y = self.w(&args[1]);
                let w = self.d.width(x);
                let r = if sub { self.d.sub(x, y) } else { self.d.add(x, y) };
                let o = self.d.ovf(x, y, sub, s);
                let lim = if s { let neg = self.d.msb(x); let mn = self.d.k(w, 1 << (w - 1)); let mx = self.d.k(w, mask(w - 1)); self.d.wite(neg, mn, mx) } else { self.d.k(w, if sub { 0 } else { mask(w) }) };
                V::W(self.d.sel(o, lim, r))
            }
            "integer_min" | "integer_max" => {
                let s = self.p.signed(t0);
                let x = self.w(&args[0]); let y = self.w(&args[1]);
                let c = if n == "integer_min" { self.d.lt(x, y, s) } else { self.d.lt(y, x, s) };
                V::W(self.d.sel(c, x, y))
            }
            "disjoint_bitor" => b2(self, BinOp::Or),
            "typed_swap_nonoverlapping" => { if let TyK::Ptr { to } = &self.p.ty(t0).k { let to = *to; self.swap(&mut st, &args[0], &args[1], to); } self.unit() }
            "unchecked_funnel_shl" | "unchecked_funnel_shr" => {
                let x = self.w(&args[0]); let y = self.w(&args[1]); let c = self.w(&args[2]);
                let w = self.d.width(x);
                let hi = self.d.resize(x, 2 * w, false);
                let hi = self.d.shl(hi, w);
                let lo = self.d.resize(y, 2 * w, false);
                let both = self.d.or_w(hi, lo);
                let left = n == "unchecked_funnel_shl";
                match self.d.expand(c, 8) {
                    Some(c) => V::W(self.d.map2(both, c, &mut |d, p, q| { let Some(c) = d.lconst(q) else { return d.top() }; let b = d.bits(p).to_vec(); let c = (c as usize) % w as usize; let from = if left { w as usize - c } else { c }; let l = d.mk_bits(b[from..from + w as usize].to_vec()); d.leaf_w(l) })),
                    None => { self.note("shift by unknown"); V::Top }
                }
            }
            "read_via_copy" | "volatile_load" => { let to = match &self.p.ty(t0).k { TyK::Ptr { to } => *to, _ => ret }; let mut ls = vec![]; self.deref_val(&st, T, &args[0], to, &mut ls); self.read_locs(&st, &ls) }
            "write_via_move" | "volatile_store" => { let to = match &self.p.ty(t0).k { TyK::Ptr { to } => *to, _ => ret }; let mut ls = vec![]; self.deref_val(&st, T, &args[0], to, &mut ls); self.write_locs(&mut st, &ls, args[1].clone()); self.unit() }
            "offset" | "arith_offset" => { let x = self.w(&args[0]); let y = self.w(&args[1]); V::W(self.ptr_offset(x, y)) }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let x = self.w(&args[0]); let y = self.w(&args[1]);
                let w = self.p.width(ret).unwrap_or(64);
                V::W(self.d.map2(x, y, &mut |d, a, b| {
                    let (Leaf::Ptr(p), Leaf::Ptr(q)) = (d.leafk(a).clone(), d.leafk(b).clone()) else { return d.top() };
                    let (mut s, mut t) = (d.ptrs[p as usize].clone(), d.ptrs[q as usize].clone());
                    let ix = |v: &mut Vec<PElem>| match v.last().copied() { Some(PElem::Idx(k)) => { v.pop(); Some(k) } _ => None };
                    let (Some(i), Some(j)) = (ix(&mut s.path), ix(&mut t.path)) else { return d.top() };
                    if s.base != t.base || s.path != t.path { return d.top(); }
                    d.k(w, i.wrapping_sub(j) as u128 & mask(w))
                }))
            }
            "transmute" | "transmute_unchecked" => self.cast(&CastK::Transmute, args[0].clone(), t0, ret),
            "discriminant_value" => { let to = match &self.p.ty(t0).k { TyK::Ptr { to } => *to, _ => ret }; let mut ls = vec![]; self.deref_val(&st, T, &args[0], to, &mut ls); let v = self.read_locs(&st, &ls); self.discr(&v, to, ret) }
            "select_unpredictable" => { let w = self.w(&args[0]); let c = self.d.to_b(w); self.ite(c, &args[1], &args[2]) }
            "ub_checks" | "contract_checks" | "is_val_statically_known" => self.kw(1, 0),
            "overflow_checks" => self.kw(1, 1),
            "ptr_metadata" => { let x = self.w(&args[0]); V::W(self.meta_of(x)) }
            "abort" | "unreachable" | "breakpoint" => { self.panic(st.g, n); return None; }
            "const_eval_select" => {
                let rt = match &args[2] { V::W(w) => self.d.as_leaf(*w), _ => None };
                if let Some(l) = rt { if let Leaf::Fun(i) = self.d.leafk(l) { let c = self.funs[*i as usize].clone(); let a = match &args[0] { V::Agg(a) => a.to_vec(), _ => vec![] }; return self.dispatch(&c, a, &[], ret, st, 0); } }
                V::Top
            }
            "compare_bytes" | "raw_eq" => { self.note("byte comparison"); V::Top }
            _ => { self.note(format!("intrinsic {n}")); V::Top }
        };
        Some((v, st))
    }
    fn popcount(&mut self, w: W, ret: TyId) -> W {
        let rw = self.p.width(ret).unwrap_or(32);
        self.d.map1(w, &mut |d, l| {
            if !d.is_num(l) { return d.top(); }
            let b = d.bits(l);
            // counts as guarded constants
            let mut cur: Vec<B> = vec![T];
            for x in b.iter() {
                if *x == F { continue; }
                let mut nx = vec![F; cur.len() + 1];
                let n = d.not(*x);
                for (i, c) in cur.iter().enumerate() { let a = d.and(*c, n); nx[i] = d.or(nx[i], a); let a = d.and(*c, *x); nx[i + 1] = d.or(nx[i + 1], a); }
                cur = nx;
            }
            let mut r = d.k(rw, 0);
            for (i, c) in cur.iter().enumerate() { if *c != F { let k = d.k(rw, i as u128); r = d.wite(*c, k, r); } }
            r
        })
    }
    fn count_zeros(&mut self, w: W, trailing: bool, ret: TyId) -> W {
        let rw = self.p.width(ret).unwrap_or(32);
        self.d.map1(w, &mut |d, l| {
            if !d.is_num(l) { return d.top(); }
            let b = d.bits(l);
            let n = b.len();
            let mut r = d.k(rw, n as u128);
            for i in 0..n { let j = if trailing { n - 1 - i } else { i }; let k = d.k(rw, if trailing { j } else { n - 1 - j } as u128); r = d.wite(b[j], k, r); }
            r
        })
    }
    pub fn swap(&mut self, st: &mut St<'p>, a: &V, b: &V, to: TyId) {
        let (mut la, mut lb) = (vec![], vec![]);
        self.deref_val(st, T, a, to, &mut la);
        self.deref_val(st, T, b, to, &mut lb);
        let x = self.read_locs(st, &la);
        let y = self.read_locs(st, &lb);
        self.write_locs(st, &la, y);
        self.write_locs(st, &lb, x);
    }
    fn clobber(&mut self, st: &mut St<'p>, args: &[V], arg_tys: &[TyId]) {
        // An unmodelled callee may write through the mutable references it gets.
        for (a, t) in args.iter().zip(arg_tys) {
            let p = self.p;
            if !p.ty(*t).name.starts_with("&mut") && !p.ty(*t).name.starts_with("*mut") { continue; }
            if let TyK::Ptr { to } = &p.ty(*t).k { let mut ls = vec![]; self.deref_val(st, T, a, *to, &mut ls); for (_, l) in &ls { if matches!(l.base, Base::Obj(..)) { let l = l.clone(); self.write(st, &l, V::Top, None); } } }
        }
    }
    fn model(&mut self, n: &str, args: Vec<V>, arg_tys: &[TyId], ret: TyId, mut st: St<'p>) -> Option<(V, St<'p>)> {
        if let Some(mut h) = self.hooks.take() {
            let r = h(self, n, &args, arg_tys, ret, &mut st);
            self.hooks = Some(h);
            if let Some(v) = r { return if st.g == F { None } else { Some((v, st)) }; }
        }
        let to = |s: &Self, i: usize| match &s.p.ty(arg_tys[i]).k { TyK::Ptr { to } => *to, _ => ret };
        match n {
            "std::ptr::swap" | "std::mem::swap" => { let t = to(self, 0); self.swap(&mut st, &args[0], &args[1], t); return Some((self.unit(), st)); }
            "core::slice::<impl [T]>::swap" => {
                let TyK::Ptr { to: sl } = &self.p.ty(arg_tys[0]).k else { return Some((V::Top, st)) };
                let elem = match &self.p.ty(*sl).k { TyK::Slice { elem } => *elem, _ => ret };
                let pw = self.w(&args[0]);
                let len = self.meta_of(pw);
                let mut ptrs = vec![];
                for i in 1..3 {
                    let ix = self.w(&args[i]);
                    let inb = self.d.lt(ix, len, false);
                    let nb = self.d.not(inb);
                    let bad = self.d.and(st.g, nb);
                    self.panic(bad, "index out of bounds");
                    st.g = self.d.and(st.g, inb);
                    let Some(e) = self.d.expand(ix, 8) else { self.note("unbounded index"); return Some((V::Top, st)) };
                    let r = self.d.map2(pw, e, &mut |d, a, b| { let (Leaf::Ptr(x), Some(c)) = (d.leafk(a).clone(), d.lconst(b)) else { return d.top() }; let mut t = d.ptrs[x as usize].clone(); t.meta = None; if let Some(PElem::From(k)) = t.path.last().copied() { t.path.pop(); t.path.push(PElem::Idx(k + c as u64)); } d.ptr(t) });
                    ptrs.push(V::W(r));
                }
                if st.g == F { return None; }
                self.swap(&mut st, &ptrs[0], &ptrs[1], elem);
                return Some((self.unit(), st));
            }
            "std::boxed::Box::<T, A>::into_raw" | "std::boxed::Box::<T>::into_raw" => { let mut x = args[0].clone(); while let V::Agg(a) = &x { if a.is_empty() { break; } let y = a[0].clone(); x = y; } return Some((x, st)); }
            "std::boxed::Box::<T, A>::from_raw" | "std::boxed::Box::<T>::from_raw" => { let v = self.wrap_ptr(args[0].clone(), ret); return Some((v, st)); }
            "std::boxed::Box::<T>::new_uninit" => { let t = self.boxed_ty(ret); let v = self.new_object(&mut st, V::Agg(Rc::new(vec![V::Un, V::Un])), t); return Some((self.wrap_ptr(v, ret), st)); }
            "std::boxed::box_assume_init_into_vec_unsafe" => {
                let mut ls = vec![];
                if let Some(t) = self.boxed_ty(arg_tys[0]) { let x = Self::unbox(&args[0]); self.deref_val(&st, T, &x, t, &mut ls); }
                if let [(_, l)] = ls.as_slice() {
                    let v = self.read(&st, l);
                    if let Some(items) = Self::array_items(&v) { return Some((V::Coll(Rc::new(Coll { items, pos: 0 })), st)); }
                }
            }
            "core::slice::<impl [T]>::into_vec" | "core::slice::<impl [T]>::to_vec" | "alloc::slice::<impl [T]>::into_vec" | "alloc::slice::<impl [T]>::to_vec" | "std::slice::<impl [T]>::into_vec" | "std::slice::<impl [T]>::to_vec" => {
                if let Some(items) = self.slice_items(&args[0], arg_tys[0], &st) { return Some((V::Coll(Rc::new(Coll { items, pos: 0 })), st)); }
            }
            "std::boxed::convert::<impl std::convert::From<&[T]> for std::boxed::Box<[T]>>::from" | "std::vec::Vec::<T, A>::into_boxed_slice" | "std::vec::Vec::<T>::into_boxed_slice" => {
                if let (Some(items), Some(t)) = (self.slice_items(&args[0], arg_tys[0], &st), self.boxed_ty(ret)) {
                    if items.iter().all(|x| x.0 == T) {
                        let n = items.len();
                        let v = self.new_object(&mut st, V::Agg(Rc::new(items.into_iter().map(|x| x.1).collect())), Some(t));
                        if let V::W(w) = v { if let Some(Leaf::Ptr(k)) = self.d.as_leaf(w).map(|l| self.d.leafk(l).clone()) {
                            let mut t = self.d.ptrs[k as usize].clone();
                            t.path.push(PElem::From(0)); t.meta = Some(self.d.k(64, n as u128));
                            let v = V::W(self.d.ptr(t));
                            return Some((self.wrap_ptr(v, ret), st));
                        } }
                    }
                }
            }
            "std::vec::from_elem" => {
                let w = self.w(&args[1]);
                if let Some(c) = self.d.as_const(w) { if c <= 64 { return Some((V::Coll(Rc::new(Coll { items: vec![(T, args[0].clone()); c as usize], pos: 0 })), st)); } }
            }
            "std::boxed::Box::<T>::new" => { let v = self.new_object(&mut st, args[0].clone(), Some(arg_tys[0])); return Some((self.wrap_ptr(v, ret), st)); }
            _ => {}
        }
        if let Some(r) = self.coll_model(n, &args, arg_tys, ret, &mut st) { return if st.g == F { None } else { Some((r, st)) }; }
        if n.contains("fmt::") || n.contains("String") || n.contains("to_string") || n.contains("to_owned") {
            self.clobber(&mut st, &args, arg_tys);
            // writing to a string never fails, nor does the formatting of this crate's types
            if matches!(n.rsplit("::").next(), Some("write_fmt" | "write_str" | "write_char" | "fmt" | "pad")) && self.p.ty(ret).name.contains("Result<(), ") { let u = self.unit(); return Some((self.variant(ret, 0, vec![u]), st)); }
            return Some((V::Top, st));
        }
        self.note(format!("unmodelled function {n}"));
        self.clobber(&mut st, &args, arg_tys);
        Some((V::Top, st))
    }
    fn first_loc(&mut self, st: &St<'p>, v: &V, t: TyId) -> Option<Loc> {
        let TyK::Ptr { to } = &self.p.ty(t).k else { return None };
        let mut ls = vec![];
        self.deref_val(st, T, v, *to, &mut ls);
        if ls.len() == 1 { Some(ls.pop().unwrap().1) } else { None }
    }
    /// Compare two elements with the element type's own ordering; None if it is not decided.
    fn elem_cmp(&mut self, a: &V, b: &V, st: &St<'p>) -> Option<i32> {
        let p = self.p;
        let f = *p.roots.get(&format!("ord:{}", self.elem_ty.clone()?))?;
        let tys: &'p [TyId] = &p.fns[f as usize].locals;
        let TyK::Ptr { to } = &p.ty(tys[1]).k else { return None };
        let to2: &'p [TyId] = Box::leak(Box::new([*to, *to]));
        let mut s = St { g: st.g, fr: vec![], ord: st.ord };
        s.fr.push(Rc::new(Frame { tys: to2, vals: vec![a.clone(), b.clone()] }));
        let pa = self.d.ptr(PtrT { base: Base::Obj(0, 0), path: vec![], meta: None });
        let pb = self.d.ptr(PtrT { base: Base::Obj(0, 1), path: vec![], meta: None });
        let (v, _) = self.call(f, vec![V::W(pa), V::W(pb)], s, 0)?;
        if let V::En(e) = v { return self.d.as_const(e.disc).map(|c| c as i32 - 1); }
        None
    }
    /// Run an iterator to its end by its own step function.
    fn drain_iter(&mut self, it: V, ty: TyId, st: &mut St<'p>) -> Option<Vec<(B, V)>> {
        let p = self.p;
        let f = *p.roots.get(&format!("next:{}", p.ty(ty).name))?;
        let tys: &'p [TyId] = Box::leak(Box::new([ty]));
        let fi = st.fr.len() as u32;
        let mut s = st.clone();
        s.fr.push(Rc::new(Frame { tys, vals: vec![it] }));
        let ptr = self.d.ptr(PtrT { base: Base::Obj(fi, 0), path: vec![], meta: None });
        let mut out = vec![];
        for _ in 0..64 {
            let g0 = s.g;
            let (v, s2) = self.call(f, vec![V::W(ptr)], s.clone(), 0)?;
            let V::En(e) = &v else { return None };
            let z = self.d.is_zero(e.disc);
            let some = self.d.not(z);
            let here = self.d.and(some, s2.g);
            // the steps after the end are not taken
            if s2.g != g0 { s = s2; if here == F { break; } } else { s = s2; }
            if here == F { break; }
            let item = e.pay.get(1)?.as_ref()?.first()?.clone();
            let item = if let V::W(w) = &item { match self.d.as_const(*w) { _ => item.clone() } } else { item };
            out.push((here, item));
        }
        s.fr.pop();
        *st = s;
        Some(out)
    }
    /// The constant alternatives of an element, each with the condition under which it is the one.
    fn split(&mut self, v: &V, g: B) -> Option<Vec<(B, V)>> {
        fn leaves(v: &V, out: &mut Vec<W>) -> bool {
            match v { V::W(w) => { out.push(*w); true } V::Agg(a) => a.iter().all(|x| leaves(x, out)), V::En(e) => { out.push(e.disc); e.pay.iter().flatten().all(|p| p.iter().all(|x| leaves(x, out))) } V::Un => true, _ => false }
        }
        let mut out = vec![(g, v.clone())];
        let mut ls = vec![];
        if !leaves(v, &mut ls) { return None; }
        if ls.iter().all(|w| self.d.as_const(*w).is_some()) { return Some(vec![(T, v.clone())]); }
        for w in ls {
            if self.d.as_const(w).is_some() { continue; }
            let mut next = vec![];
            for (h, x) in out {
                for (cg, _) in { let r = self.d.wrestrict(w, h); self.d.cases(r) } {
                    let k = self.d.and(h, cg);
                    if k == F { continue; }
                    next.push((k, self.vrestrict(&x, k)));
                    if next.len() > 64 { return None; }
                }
            }
            out = next;
        }
        Some(out)
    }
    fn vrestrict(&mut self, v: &V, g: B) -> V {
        match v {
            V::W(w) => V::W(self.d.wrestrict(*w, g)),
            V::Agg(a) => V::Agg(Rc::new(a.iter().map(|x| self.vrestrict(x, g)).collect())),
            V::En(e) => { let disc = self.d.wrestrict(e.disc, g); let pay = e.pay.iter().map(|p| p.as_ref().map(|p| Rc::new(p.iter().map(|x| self.vrestrict(x, g)).collect()))).collect(); V::En(Rc::new(En { disc, pay })) }
            x => x.clone(),
        }
    }
    /// Insertion into an ordered set; an equal element that is present stays.
    fn set_insert(&mut self, mut c: Coll, g: B, v: &V, st: &St<'p>) -> Option<(Coll, B)> {
        let h = self.d.and(g, st.g);
        let alts = self.split(v, h)?;
        if alts.len() > 1 {
            let mut new = F;
            for (k, x) in alts { let k = self.d.and(k, g); let (c2, n) = self.set_insert(c, k, &x, st)?; c = c2; new = self.d.or(new, n); }
            return Some((c, new));
        }
        let Some((_, v)) = alts.into_iter().next() else { return Some((c, F)) };
        let v = &v;
        let mut at = c.items.len();
        let mut dup = F;
        for i in 0..c.items.len() {
            let it = c.items[i].1.clone();
            match self.elem_cmp(v, &it, st)? {
                0 => { dup = c.items[i].0; at = i; break; }
                x if x < 0 => { at = i; break; }
                _ => {}
            }
        }
        let nd = self.d.not(dup);
        let g = self.d.and(g, nd);
        if g != F { c.items.insert(at, (g, v.clone())); }
        Some((c, g))
    }
    fn coll_model(&mut self, n: &str, args: &[V], arg_tys: &[TyId], ret: TyId, st: &mut St<'p>) -> Option<V> {
        let set = n.contains("BTreeSet") || n.contains("btree_set");
        let vecs = n.contains("Vec<") || n.contains("Vec::<") || n.contains("vec::") ;
        if !set && !vecs { return None; }
        let m = n.rsplit("::").next().unwrap_or("");
        match m {
            "new" | "with_capacity" | "default" => return Some(V::Coll(Rc::new(Coll::default()))),
            _ => {}
        }
        self.elem_ty = None;
        for t in arg_tys.iter().chain([&ret]) { let nm = &self.p.ty(*t).name; for k in self.p.roots.keys() { if let Some(e) = k.strip_prefix("ord:") { if nm.contains(e) { self.elem_ty = Some(e.to_string()); } } } }
        // receiver by reference or by value
        let byref = matches!(&self.p.ty(*arg_tys.first()?).k, TyK::Ptr { .. }) && !matches!(args.first()?, V::Coll(_));
        let loc = if byref { self.first_loc(st, &args[0], arg_tys[0]) } else { None };
        let cur = if byref { let l = loc.clone()?; self.read(st, &l) } else { args[0].clone() };
        let cur = if m == "from_iter" && !matches!(cur, V::Coll(_)) { V::Coll(Rc::new(Coll { items: self.drain_iter(cur, arg_tys[0], st)?, pos: 0 })) } else { cur };
        let V::Coll(c) = cur else { return None };
        let mut c: Coll = (*c).clone();
        // a set with an element that differs between the joined paths is put in order again, case by case
        if set && c.pos == 0 && matches!(m, "insert" | "remove" | "contains" | "take" | "extend" | "append" | "retain" | "pop_first" | "pop_last" | "iter" | "into_iter") && self.elem_ty.is_some() {
            let varied = c.items.iter().any(|(_, v)| matches!(v, V::Agg(a) if a.iter().any(|x| matches!(x, V::W(w) if self.d.as_leaf(*w).is_none()))));
            if varied {
                let mut o = Some(Coll::default());
                for (g, v) in &c.items { o = match o { Some(o) => self.set_insert(o, *g, v, st).map(|x| x.0), None => None }; }
                if let Some(o) = o {
                    if let Some(l) = &loc { if matches!(m, "iter") { self.write(st, l, V::Coll(Rc::new(o.clone())), None); } }
                    c = o;
                }
            }
        }
        match m {
            "is_empty" => { let mut any = F; for (g, _) in &c.items[c.pos..] { any = self.d.or(any, *g); } let e = self.d.not(any); Some(V::W(self.d.from_b(e))) }
            "len" => { let mut w = self.d.k(64, 0); for (g, _) in &c.items { let one = self.d.k(64, 1); let x = self.d.add(w, one); w = self.d.wite(*g, x, w); } Some(V::W(w)) }
            "clear" => { let l = loc?; self.write(st, &l, V::Coll(Rc::new(Coll::default())), None); Some(self.unit()) }
            "push" | "push_back" if vecs => { let mut c = c; c.items.push((T, args[1].clone())); let l = loc?; self.write(st, &l, V::Coll(Rc::new(c)), None); Some(self.unit()) }
            "insert" if set => {
                let (c, nd) = self.set_insert(c, T, &args[1], st)?;
                let l = loc?;
                self.write(st, &l, V::Coll(Rc::new(c)), None);
                Some(V::W(self.d.from_b(nd)))
            }
            "extend" | "append" | "extend_from_slice" => {
                let mut c = c;
                let src = match &args[1] { V::Coll(x) => x.items[x.pos..].to_vec(), a if m == "extend_from_slice" || matches!(&self.p.ty(arg_tys[1]).k, TyK::Ptr { .. }) && self.p.ty(arg_tys[1]).name.starts_with("&[") => self.slice_items(a, arg_tys[1], st)?, V::Agg(a) if matches!(self.p.ty(arg_tys[1]).k, TyK::Array { .. }) => a.iter().map(|x| (T, x.clone())).collect(), a if m == "append" => { let l2 = self.first_loc(st, a, arg_tys[1])?; let V::Coll(x) = self.read(st, &l2) else { return None }; self.write(st, &l2, V::Coll(Rc::new(Coll::default())), None); x.items[x.pos..].to_vec() } a => self.drain_iter(a.clone(), arg_tys[1], st)? };
                let pointee = if n.contains("Extend<&") { let p = self.p; p.roots.get(&format!("next:{}", p.ty(arg_tys[1]).name)).and_then(|f| match &p.ty(p.fns[*f as usize].locals[0]).k { TyK::Adt { variants, .. } => variants.get(1).and_then(|v| v.fields.first()).and_then(|t| match &p.ty(*t).k { TyK::Ptr { to } => Some(*to), _ => None }), _ => None }) } else { None };
                for (g, v) in src {
                    let v = match (&v, pointee) { (V::W(w), Some(t)) if self.d.as_leaf(*w).is_some_and(|l| matches!(self.d.leafk(l), Leaf::Ptr(_))) => { let mut ls = vec![]; self.deref_val(st, T, &v, t, &mut ls); self.read_locs(st, &ls) } _ => v };
                    if set { c = self.set_insert(c, g, &v, st)?.0; } else { c.items.push((g, v)); }
                }
                let l = loc?;
                self.write(st, &l, V::Coll(Rc::new(c)), None);
                Some(self.unit())
            }
            "remove" | "contains" | "take" if set => {
                let mut c = c;
                let key = { let TyK::Ptr { to } = &self.p.ty(arg_tys[1]).k else { return None }; let mut ls = vec![]; self.deref_val(st, T, &args[1], *to, &mut ls); self.read_locs(st, &ls) };
                let mut found = F;
                for (kg, key) in self.split(&key, st.g)? {
                    for i in 0..c.items.len() {
                        let it = c.items[i].1.clone();
                        if self.elem_cmp(&key, &it, st)? == 0 { let h = self.d.and(c.items[i].0, kg); found = self.d.or(found, h); let nk = self.d.not(kg); c.items[i].0 = self.d.and(c.items[i].0, nk); }
                    }
                }
                if m == "contains" { return Some(V::W(self.d.from_b(found))); }
                c.items.retain(|x| x.0 != F);
                let l = loc?;
                self.write(st, &l, V::Coll(Rc::new(c)), None);
                if m == "take" { return None; }
                Some(V::W(self.d.from_b(found)))
            }
            "pop_first" | "pop_last" | "pop" | "first" | "last" => {
                let mut c = c;
                let back = m == "pop_last" || m == "pop" || m == "last";
                let refs = m == "first" || m == "last";
                let n = c.items.len();
                let mut none = T;
                let mut res = V::Un;
                let idx: Vec<usize> = if back { (0..n).rev().collect() } else { (0..n).collect() };
                for i in idx {
                    let here = self.d.and(none, c.items[i].0);
                    if here == F { continue; }
                    let v = if refs { V::W(self.d.ptr(PtrT { base: loc.as_ref()?.base, path: { let mut p = loc.as_ref()?.path.clone(); p.push(PElem::Idx(i as u64)); p }, meta: None })) } else { c.items[i].1.clone() };
                    res = if matches!(res, V::Un) { v } else { self.ite(here, &v, &res) };
                    let ng = self.d.not(c.items[i].0);
                    none = self.d.and(none, ng);
                    if !refs { let nh = self.d.not(here); c.items[i].0 = self.d.and(c.items[i].0, nh); }
                }
                if refs { return None; }
                c.items.retain(|x| x.0 != F);
                let l = loc?;
                self.write(st, &l, V::Coll(Rc::new(c)), None);
                let some = self.d.not(none);
                Some(self.option(some, res))
            }
            "retain" => {
                let mut c = c;
                let clo = format!("closure:{}", self.p.ty(arg_tys[1]).name);
                let f = *self.p.roots.get(&clo)?;
                let p = self.p;
                let func = &p.fns[f as usize];
                // closure environment by reference, element by reference
                let TyK::Ptr { to } = &p.ty(func.locals[2]).k else { return None };
                let tys: &'p [TyId] = Box::leak(Box::new([arg_tys[1], *to]));
                for i in 0..c.items.len() {
                    let fi = st.fr.len() as u32;
                    let mut s = st.clone();
                    s.g = self.d.and(s.g, c.items[i].0);
                    if s.g == F { continue; }
                    s.fr.push(Rc::new(Frame { tys, vals: vec![args[1].clone(), c.items[i].1.clone()] }));
                    let pe = self.d.ptr(PtrT { base: Base::Obj(fi, 0), path: vec![], meta: None });
                    let pi = self.d.ptr(PtrT { base: Base::Obj(fi, 1), path: vec![], meta: None });
                    let g0 = s.g;
                    let (v, mut s2) = self.call(f, vec![V::W(pe), V::W(pi)], s, 0)?;
                    s2.fr.pop();
                    let w = self.w(&v);
                    let keep = self.d.to_b(w);
                    c.items[i].0 = self.d.and(c.items[i].0, keep);
                    // join effects of the closure
                    let ng = self.d.not(g0);
                    let rest = self.d.and(st.g, ng);
                    if rest == F { *st = s2; } else { let mut o = st.clone(); o.g = rest; *st = self.merge(s2, o); }
                }
                c.items.retain(|x| x.0 != F);
                let l = loc?;
                self.write(st, &l, V::Coll(Rc::new(c)), None);
                Some(self.unit())
            }
            "iter" | "into_iter" | "drain" | "from_iter" | "collect" | "clone" | "iter_mut" | "deref" | "as_slice" => {
                if m == "from_iter" {
                    // collecting into a set re-orders by the element ordering
                    let src: Vec<(B, V)> = c.items[c.pos..].to_vec();
                    if !set || n.contains("Vec<T, A> as std::iter::FromIterator") { return Some(V::Coll(Rc::new(Coll { items: src, pos: 0 }))); }
                    let mut acc = Coll { items: vec![], pos: 0 };
                    for (g, v) in src { acc = self.set_insert(acc, g, &v, st)?.0; }
                    let out = acc.items;
                    return Some(V::Coll(Rc::new(Coll { items: out, pos: 0 })));
                }
                if m == "drain" { return None; }
                let _ = ret;
                let mut c = c;
                if byref && m != "clone" && (m == "iter" || m == "into_iter") && !(n.contains("Iter<")) {
                    // items become references: materialise them as values (read-only iteration)
                    c.pos = 0;
                }
                Some(V::Coll(Rc::new(c)))
            }
            "count" => { let mut w = self.d.k(64, 0); for (g, _) in &c.items[c.pos..] { let one = self.d.k(64, 1); let x = self.d.add(w, one); w = self.d.wite(*g, x, w); } Some(V::W(w)) }
            "for_each" | "fold" | "any" | "all" | "find" | "position" => {
                let cl = if m == "fold" { 2 } else { 1 };
                let clo = format!("closure:{}", self.p.ty(*arg_tys.get(cl)?).name);
                let f = *self.p.roots.get(&clo)?;
                let p = self.p;
                let func = &p.fns[f as usize];
                let by_ref = matches!(&p.ty(func.locals[1]).k, TyK::Ptr { .. });
                let at = if m == "fold" { 3 } else { 2 };
                let mut item_ty = *func.locals.get(at)?;
                if m == "find" { let TyK::Ptr { to } = &p.ty(item_ty).k else { return None }; item_ty = *to; }
                let refs = matches!(&p.ty(item_ty).k, TyK::Ptr { .. });
                let tys: &'p [TyId] = Box::leak(Box::new([arg_tys[cl], item_ty]));
                let fi = st.fr.len() as u32;
                let mut s = st.clone();
                s.fr.push(Rc::new(Frame { tys, vals: vec![args[cl].clone(), V::Un] }));
                let env = if by_ref { V::W(self.d.ptr(PtrT { base: Base::Obj(fi, 0), path: vec![], meta: None })) } else { args[cl].clone() };
                let mut acc = if m == "fold" { args[1].clone() } else { self.unit() };
                // any, all, find, position stop at the first hit
                let mut hit = F;
                let mut res = V::Un;
                let mut ix = self.d.k(64, 0);
                for (ig, x) in c.items[c.pos..].to_vec() {
                    let nh = self.d.not(hit);
                    let live = self.d.and(ig, nh);
                    let g = self.d.and(s.g, live);
                    if g == F { continue; }
                    let g0 = s.g;
                    let ng = self.d.not(g);
                    let rest = self.d.and(g0, ng);
                    let mut s1 = s.clone();
                    s1.g = g;
                    let item = if refs && !matches!(&x, V::W(w) if self.d.as_leaf(*w).is_some_and(|l| matches!(self.d.leafk(l), Leaf::Ptr(_)))) { self.item_ref(&mut s1, &x) } else { x.clone() };
                    let given = if m == "find" { let fr = Rc::make_mut(&mut s1.fr[fi as usize]); fr.vals[1] = item.clone(); V::W(self.d.ptr(PtrT { base: Base::Obj(fi, 1), path: vec![], meta: None })) } else { item.clone() };
                    let a = if m == "fold" { vec![env.clone(), acc.clone(), given] } else { vec![env.clone(), given] };
                    match self.call(f, a, s1, 0) {
                        Some((v, s2)) => {
                            if m == "fold" { acc = if rest == F { v } else { self.ite(g, &v, &acc) }; }
                            else if m != "for_each" {
                                let w = self.w(&v);
                                let mut b = self.d.to_b(w);
                                if m == "all" { b = self.d.not(b); }
                                let here = self.d.and(live, b);
                                let out = if m == "find" { item } else { V::W(ix) };
                                res = if matches!(res, V::Un) { out } else { self.ite(here, &out, &res) };
                                hit = self.d.or(hit, here);
                            }
                            if rest == F { s = s2; } else { let mut o = s.clone(); o.g = rest; s = self.merge(s2, o); }
                        }
                        None => { s.g = rest; }
                    }
                    let one = self.d.k(64, 1);
                    let nx = self.d.add(ix, one);
                    ix = self.d.wite(ig, nx, ix);
                    if s.g == F { break; }
                }
                s.fr.pop();
                *st = s;
                if matches!(m, "any" | "all" | "find" | "position") { if let Some(l) = loc { self.write(st, &l, V::Coll(Rc::new(Coll::default())), None); if m != "all" && m != "any" { self.note("rest of an iterator after a search"); } } }
                Some(match m {
                    "for_each" => self.unit(),
                    "fold" => acc,
                    "any" => V::W(self.d.from_b(hit)),
                    "all" => { let n = self.d.not(hit); V::W(self.d.from_b(n)) }
                    _ => if matches!(res, V::Un) { self.option(F, V::Un) } else { self.option(hit, res) },
                })
            }
            "next" | "next_back" => {
                let mut c = c;
                let refs = self.ret_is_ref(ret) && !n.contains("IntoIter");
                let l = loc?;
                if c.pos > 0 { c.items.drain(..c.pos); c.pos = 0; }
                let n = c.items.len();
                let mut none = T;
                let mut res = V::Un;
                let order: Vec<usize> = if m == "next" { (0..n).collect() } else { (0..n).rev().collect() };
                // items may be absent under some guards, so the step takes the first present one
                for i in order {
                    let here = self.d.and(none, c.items[i].0);
                    let here_live = self.d.and(here, st.g);
                    let ng = self.d.not(c.items[i].0);
                    if here_live != F {
                        let v = if refs { self.item_ref(st, &c.items[i].1) } else { c.items[i].1.clone() };
                        res = if matches!(res, V::Un) { v } else { self.ite(here, &v, &res) };
                        let nh = self.d.not(here);
                        c.items[i].0 = self.d.and(c.items[i].0, nh);
                    }
                    none = self.d.and(none, ng);
                    if self.d.and(none, st.g) == F { break; }
                }
                c.items.retain(|x| x.0 != F);
                let some = self.d.not(none);
                self.write(st, &l, V::Coll(Rc::new(c)), None);
                Some(self.option(some, res))
            }
            _ => None,
        }
    }
    fn ret_is_ref(&self, ret: TyId) -> bool { matches!(&self.p.ty(ret).k, TyK::Adt { variants, .. } if variants.len() == 2 && variants[1].fields.first().map(|f| matches!(self.p.ty(*f).k, TyK::Ptr { .. })).unwrap_or(false)) }
    /// Membership of a number in a slice of known length.
    fn slice_contains(&mut self, args: &[V], arg_tys: &[TyId], st: &St<'p>) -> Option<V> {
        let p = self.p;
        let TyK::Ptr { to } = &p.ty(arg_tys[0]).k else { return None };
        let TyK::Slice { elem } = &p.ty(*to).k else { return None };
        p.width(*elem)?;
        let l = self.first_loc(st, &args[0], arg_tys[0])?;
        let k = self.first_loc(st, &args[1], arg_tys[1])?;
        let n = self.d.as_const(l.meta?)? as u64;
        if n > 64 { return None; }
        let key = self.read(st, &k);
        let key = self.w(&key);
        let mut any = F;
        for i in 0..n {
            let mut e = l.clone();
            e.ty = *elem; e.meta = None;
            match (&mut e.base, e.path.last().copied()) {
                (Base::Alloc(_, off), _) => *off += i * p.ty(*elem).size,
                (Base::Obj(..), Some(PElem::From(f))) => { e.path.pop(); e.path.push(PElem::Idx(f + i)); }
                _ => return None,
            }
            let x = self.read(st, &e);
            let x = self.w(&x);
            let b = self.d.eq(x, key);
            any = self.d.or(any, b);
        }
        Some(V::W(self.d.from_b(any)))
    }
    fn unbox(v: &V) -> V { let mut x = v.clone(); while let V::Agg(a) = &x { if a.is_empty() { break; } let y = a[0].clone(); x = y; } x }
    /// Elements of an array value, through wrappers of one field.
    fn array_items(v: &V) -> Option<Vec<(B, V)>> {
        let mut v = v.clone();
        loop {
            let V::Agg(a) = &v else { return None };
            let live: Vec<&V> = a.iter().filter(|x| !matches!(x, V::Un) && !matches!(x, V::Agg(y) if y.is_empty())).collect();
            match live.as_slice() {
                [x @ V::Agg(_)] => { let y = (*x).clone(); v = y; }
                l => return Some(l.iter().map(|x| (T, (*x).clone())).collect()),
            }
        }
    }
    /// Elements of a slice of known length, or of a modelled container.
    pub fn slice_items(&mut self, v: &V, t: TyId, st: &St<'p>) -> Option<Vec<(B, V)>> {
        if let V::Coll(c) = v { return Some(c.items[c.pos..].to_vec()); }
        let p = self.p;
        let mut t = t;
        let to = loop { match &p.ty(t).k { TyK::Ptr { to } => break *to, TyK::Adt { variants, .. } => t = *variants.first()?.fields.first()?, _ => return None } };
        let elem = match &p.ty(to).k { TyK::Slice { elem } => *elem, TyK::Array { elem, .. } => *elem, _ => return None };
        let mut ls = vec![];
        self.deref_val(st, T, &Self::unbox(v), to, &mut ls);
        let mut out = vec![];
        for (g, l) in ls {
            let whole = if matches!(l.base, Base::Obj(..)) { Some(self.read(st, &l)) } else { None };
            if let Some(V::Coll(c)) = whole { for (ig, x) in &c.items[c.pos..] { let b = self.d.and(g, *ig); out.push((b, x.clone())); } continue; }
            let n = match (&p.ty(to).k, l.meta) { (TyK::Array { len, .. }, _) => *len, (_, Some(m)) => self.d.as_const(m)? as u64, _ => return None };
            if n > 64 { return None; }
            for i in 0..n {
                let mut e = l.clone();
                e.ty = elem; e.meta = None;
                match (&mut e.base, e.path.last().copied()) {
                    (Base::Alloc(_, off), _) => *off += i * p.ty(elem).size,
                    (Base::Obj(..), Some(PElem::From(f))) => { e.path.pop(); e.path.push(PElem::Idx(f + i)); }
                    (Base::Obj(..), _) if matches!(p.ty(to).k, TyK::Array { .. }) => e.path.push(PElem::Idx(i)),
                    _ => return None,
                }
                let x = self.read(st, &e);
                out.push((g, x));
            }
        }
        Some(out)
    }
    /// A fresh root object holding the value.
    fn new_object(&mut self, st: &mut St<'p>, v: V, ty: Option<TyId>) -> V {
        let Some(fr) = st.fr.first_mut() else { self.note("no room for an allocation"); return V::Top };
        let fr = Rc::make_mut(fr);
        let n = fr.vals.len();
        let Some(i) = (n.saturating_sub(16)..n).find(|i| matches!(fr.vals[*i], V::Un)) else { self.note("too many allocations"); return V::Top };
        fr.vals[i] = v;
        if let Some(t) = ty { if fr.tys.get(i).is_some_and(|x| *x != t) { let mut tys = fr.tys.to_vec(); tys[i] = t; fr.tys = Box::leak(tys.into_boxed_slice()); } }
        V::W(self.d.ptr(PtrT { base: Base::Obj(0, i as u32), path: vec![], meta: None }))
    }
    fn boxed_ty(&self, mut t: TyId) -> Option<TyId> { loop { match &self.p.ty(t).k { TyK::Ptr { to } => return Some(*to), TyK::Adt { variants, .. } => t = *variants.first()?.fields.first()?, _ => return None } } }
    /// A reference to a container element: the element is copied to a fresh root object.
    fn item_ref(&mut self, st: &mut St<'p>, v: &V) -> V {
        let fr = Rc::make_mut(&mut st.fr[0]);
        // frame 0 has spare slots at its end for this purpose
        let n = fr.vals.len();
        let mut slot = None;
        for i in (n.saturating_sub(16))..n { match &fr.vals[i] { V::Un => { slot = Some(i); break; } x if Self::same(x, v) => { slot = Some(i); break; } _ => {} } }
        let Some(i) = slot else { self.note("too many references to container elements"); return V::Top };
        fr.vals[i] = v.clone();
        V::W(self.d.ptr(PtrT { base: Base::Obj(0, i as u32), path: vec![], meta: None }))
    }
}
