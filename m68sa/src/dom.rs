//! Abstract value domain: Boolean guards are shared ordered decision diagrams; machine words are
//! decision diagrams over guards whose leaves are bit vectors or affine forms modulo 2^w.
//! Products, quotients and large sums stay opaque (interned) terms.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = 0u64; for (i, y) in c.iter().enumerate() { x |= (*y as u64) << (8 * i); } self.write_u64(x); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type B = u32;
pub type W = u32;
pub type LeafId = u32;
pub type TermId = u32;
pub type PtrId = u32;
pub const NODE_CAP: usize = 3_000_000;
/// Raised when the diagrams of one analysis outgrow their budget; the analysis is then undecided.
pub struct Budget;
pub const F: B = 0;
pub const T: B = 1;
const LEAF: u64 = u64::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct BNode { key: u64, lo: u32, hi: u32 }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Leaf {
    /// c + sum k_i * t_i  (mod 2^w); no terms = constant
    Aff { w: u32, c: u128, t: Box<[(TermId, u128)]> },
    /// Bit vector, least significant first; not all constant.
    Bits(Box<[B]>),
    Ptr(PtrId),
    Fun(u32),
    Top,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base { Obj(u32, u32), Alloc(u32, u64), Ext(u32), Dangling }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum PElem { Field(u32), Down(u32), Idx(u64), From(u64), Sym(W) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct PtrT { pub base: Base, pub path: Vec<PElem>, pub meta: Option<W> }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum OpK { MulU, MulS, Mul, UDiv, SDiv, URem, SRem, MulOvU, MulOvS }

#[derive(Clone, Debug)]
pub enum Info { Input(String), Op { k: OpK, w: u32, a: LeafId, b: LeafId } }

pub struct Dom {
    bn: Vec<BNode>,
    buniq: FxMap<BNode, B>,
    icache: FxMap<(B, B, B), B>,
    rcache: FxMap<(B, B), B>,
    mn: Vec<BNode>,
    muniq: FxMap<BNode, W>,
    mite: FxMap<(B, W, W), W>,
    pub leaves: Vec<Leaf>,
    luniq: FxMap<Leaf, LeafId>,
    lbits: FxMap<LeafId, Rc<[B]>>,
    lw: FxMap<LeafId, W>,
    terms: Vec<Rc<[B]>>,
    tuniq: FxMap<Rc<[B]>, TermId>,
    bits2aff: FxMap<Rc<[B]>, LeafId>,
    toaff: FxMap<LeafId, (u128, Rc<[(TermId, u128)]>)>,
    /// derived atoms: key -> affine leaf whose top bit it is
    atoms: FxMap<u64, LeafId>,
    atom_of: FxMap<LeafId, u64>,
    next_atom: u64,
    pub words: FxMap<u32, Info>,
    ops: FxMap<(OpK, u32, LeafId, LeafId), u32>,
    next_word: u32,
    /// Ordering hints: bits of a word that steer selections (placed first) ...
    pub control: FxMap<u32, u32>,
    /// ... and the significance of a word's bit 0.
    pub off: FxMap<u32, u32>,
    pub ptrs: Vec<PtrT>,
    puniq: FxMap<PtrT, PtrId>,
    limit: usize,
    over: bool,
    pub fresh_names: FxMap<u64, String>,
    pub imprecise: Vec<String>,
    /// The time after which the current job is given up.
    pub until: Option<std::time::Instant>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

/// Variable keys.
pub fn k_ok(n: u32) -> u64 { n as u64 }
pub fn k_flag(i: u32) -> u64 { (1 << 40) | i as u64 }

impl Dom {
    pub fn new() -> Self {
        let mut d = Dom { bn: vec![], buniq: Default::default(), icache: Default::default(), rcache: Default::default(), mn: vec![], muniq: Default::default(), mite: Default::default(),
            leaves: vec![], luniq: Default::default(), lbits: Default::default(), lw: Default::default(), terms: vec![], tuniq: Default::default(), bits2aff: Default::default(), toaff: Default::default(),
            atoms: Default::default(), atom_of: Default::default(), next_atom: 0, words: Default::default(), ops: Default::default(), next_word: 5000, control: Default::default(), off: Default::default(),
            ptrs: vec![], puniq: Default::default(), limit: usize::MAX, over: false, fresh_names: Default::default(), imprecise: vec![], until: None };
        d.reset();
        d
    }
    pub fn reset(&mut self) {
        self.bn.clear(); self.buniq.clear(); self.icache.clear(); self.rcache.clear(); self.mn.clear(); self.muniq.clear(); self.mite.clear();
        self.leaves.clear(); self.luniq.clear(); self.lbits.clear(); self.lw.clear(); self.terms.clear(); self.tuniq.clear(); self.bits2aff.clear(); self.toaff.clear();
        self.atoms.clear(); self.atom_of.clear(); self.next_atom = 0; self.words.clear(); self.ops.clear(); self.next_word = 5000; self.control.clear(); self.off.clear();
        self.ptrs.clear(); self.puniq.clear(); self.limit = usize::MAX; self.over = false; self.fresh_names.clear(); self.imprecise.clear();
        self.bn.push(BNode { key: LEAF, lo: 0, hi: 0 });
        self.bn.push(BNode { key: LEAF, lo: 1, hi: 1 });
        if self.buniq.capacity() > 1 << 17 { self.buniq = Default::default(); self.icache = Default::default(); self.muniq = Default::default(); self.mite = Default::default(); }
    }
    pub fn nodes(&self) -> usize { self.bn.len() + self.mn.len() }
    /// Give the analysis of this job up where it exceeds its share of nodes or time.
    pub fn tick(&self) {
        if self.bn.len() > NODE_CAP || self.mn.len() > NODE_CAP || self.leaves.len() > NODE_CAP || self.until.is_some_and(|t| std::time::Instant::now() > t) { std::panic::panic_any(Budget); }
    }
    pub fn noodes_b(&self) -> usize { self.bn.len() }

    // ---------------------------------------------------------------- Boolean diagrams
    fn mk(&mut self, key: u64, lo: B, hi: B) -> B {
        if lo == hi { return lo; }
        let n = BNode { key, lo, hi };
        if let Some(x) = self.buniq.get(&n) { return *x; }
        if self.bn.len() > self.limit { self.over = true; return F; }
        let i = self.bn.len() as B;
        if i as usize > NODE_CAP || i & 0x1fff == 0 { self.tick(); }
        self.bn.push(n);
        self.buniq.insert(n, i);
        i
    }
    pub fn var(&mut self, key: u64) -> B { self.mk(key, F, T) }
    fn cof(&self, f: B, key: u64) -> (B, B) { let n = &self.bn[f as usize]; if n.key == key { (n.lo, n.hi) } else { (f, f) } }
    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        if f == T { return g; }
        if f == F { return h; }
        if g == h { return g; }
        if g == T && h == F { return f; }
        let (mut g, mut h) = (g, h);
        if f == g { g = T; }
        if f == h { h = F; }
        if g == T && h == F { return f; }
        if g == h { return g; }
        if self.over { return F; }
        if let Some(x) = self.icache.get(&(f, g, h)) { return *x; }
        let key = self.bn[f as usize].key.min(self.bn[g as usize].key).min(self.bn[h as usize].key);
        let (f0, f1) = self.cof(f, key);
        let (g0, g1) = self.cof(g, key);
        let (h0, h1) = self.cof(h, key);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(key, lo, hi);
        if !self.over { self.icache.insert((f, g, h), r); }
        r
    }
    pub fn not(&mut self, a: B) -> B { self.ite(a, F, T) }
    pub fn and(&mut self, a: B, b: B) -> B { if a > b { self.ite(b, a, F) } else { self.ite(a, b, F) } }
    pub fn or(&mut self, a: B, b: B) -> B { if a > b { self.ite(b, T, a) } else { self.ite(a, T, b) } }
    pub fn xor(&mut self, a: B, b: B) -> B { let (a, b) = if a > b { (b, a) } else { (a, b) }; let nb = self.not(b); self.ite(a, nb, b) }
    pub fn xnor(&mut self, a: B, b: B) -> B { let x = self.xor(a, b); self.not(x) }
    pub fn implies(&mut self, a: B, b: B) -> bool { let nb = self.not(b); self.and(a, nb) == F }
    /// Generalised cofactor: agrees with f wherever care holds, hopefully smaller.
    pub fn restrict(&mut self, f: B, c: B) -> B {
        if c == T || f <= 1 { return f; }
        if c == F { return F; }
        if f == c { return T; }
        if let Some(x) = self.rcache.get(&(f, c)) { return *x; }
        let fk = self.bn[f as usize].key;
        let ck = self.bn[c as usize].key;
        let r = if ck < fk {
            let (c0, c1) = self.cof(c, ck);
            let cc = self.or(c0, c1);
            self.restrict(f, cc)
        } else {
            let (f0, f1) = self.cof(f, fk);
            let (c0, c1) = self.cof(c, fk);
            if c0 == F { self.restrict(f1, c1) } else if c1 == F { self.restrict(f0, c0) } else {
                let lo = self.restrict(f0, c0);
                let hi = self.restrict(f1, c1);
                self.mk(fk, lo, hi)
            }
        };
        self.rcache.insert((f, c), r);
        r
    }
    pub fn bsize(&self, f: B) -> usize {
        let mut seen: FxSet<B> = Default::default();
        let mut st = vec![f];
        while let Some(x) = st.pop() { if x > 1 && seen.insert(x) { st.push(self.bn[x as usize].lo); st.push(self.bn[x as usize].hi); } }
        seen.len()
    }
    pub fn support(&self, f: B) -> Vec<u64> {
        let mut seen: FxSet<B> = Default::default();
        let mut keys: std::collections::BTreeSet<u64> = Default::default();
        let mut st = vec![f];
        while let Some(x) = st.pop() { if x > 1 && seen.insert(x) { keys.insert(self.bn[x as usize].key); st.push(self.bn[x as usize].lo); st.push(self.bn[x as usize].hi); } }
        keys.into_iter().collect()
    }
    /// Existentially quantify the variables selected by `p`.
    /// The part of f that holds whatever the unknown results are.
    pub fn certain(&mut self, f: B) -> B {
        let unk: FxSet<u64> = self.fresh_names.iter().filter(|(_, n)| n.starts_with("unknown") || matches!(n.as_str(), "option" | "vector" | "ok")).map(|x| *x.0).collect();
        if unk.is_empty() { return f; }
        let nf = self.not(f);
        let e = self.exists(nf, &|k| unk.contains(&k));
        self.not(e)
    }
    pub fn exists(&mut self, f: B, p: &dyn Fn(u64) -> bool) -> B {
        let mut memo: FxMap<B, B> = Default::default();
        self.exists_(f, p, &mut memo)
    }
    fn exists_(&mut self, f: B, p: &dyn Fn(u64) -> bool, memo: &mut FxMap<B, B>) -> B {
        if f <= 1 { return f; }
        if let Some(x) = memo.get(&f) { return *x; }
        let n = self.bn[f as usize];
        let lo = self.exists_(n.lo, p, memo);
        let hi = self.exists_(n.hi, p, memo);
        let r = if p(n.key) { self.or(lo, hi) } else { let v = self.var(n.key); self.ite(v, hi, lo) };
        memo.insert(f, r);
        r
    }

    // ---------------------------------------------------------------- variables
    pub fn word_bit_key(&self, word: u32, bit: u32) -> u64 {
        if bit < 32 && self.control.get(&word).copied().unwrap_or(0) >> bit & 1 == 1 { return (2 << 40) | ((word as u64) << 8) | bit as u64; }
        let o = self.off.get(&word).copied().unwrap_or(0);
        (2 << 56) | (((bit + o) as u64) << 32) | word as u64
    }
    pub fn word(&mut self, id: u32, w: u32, name: &str) -> W {
        if !self.words.contains_key(&id) { self.words.insert(id, Info::Input(name.to_string())); }
        let mut v = Vec::with_capacity(w as usize);
        for i in 0..w { let k = self.word_bit_key(id, i); v.push(self.var(k)); }
        let l = self.mk_bits(v);
        self.leaf_w(l)
    }
    /// A fresh word input.
    pub fn fresh(&mut self, w: u32, name: &str) -> W { let id = self.next_word; self.next_word += 1; self.word(id, w, name) }
    pub fn fresh_bool(&mut self, name: &str) -> B {
        self.next_atom += 1;
        let k = (1u64 << 48) | self.next_atom; // below control words, above derived atoms
        self.fresh_names.insert(k, name.to_string());
        self.var(k)
    }

    // ---------------------------------------------------------------- leaves
    pub fn leaf(&mut self, l: Leaf) -> LeafId {
        if let Some(x) = self.luniq.get(&l) { return *x; }
        let i = self.leaves.len() as LeafId;
        if i & 0xfff == 0xfff { self.tick(); }
        self.leaves.push(l.clone());
        self.luniq.insert(l, i);
        i
    }
    pub fn leaf_w(&mut self, l: LeafId) -> W {
        if let Some(x) = self.lw.get(&l) { return *x; }
        let n = BNode { key: LEAF, lo: l, hi: 0 };
        let i = self.mn.len() as W;
        self.mn.push(n);
        self.lw.insert(l, i);
        i
    }
    pub fn as_leaf(&self, w: W) -> Option<LeafId> { let n = &self.mn[w as usize]; if n.key == LEAF { Some(n.lo) } else { None } }
    pub fn leafk(&self, l: LeafId) -> &Leaf { &self.leaves[l as usize] }
    pub fn lwidth(&self, l: LeafId) -> u32 { match &self.leaves[l as usize] { Leaf::Aff { w, .. } => *w, Leaf::Bits(b) => b.len() as u32, _ => 64 } }
    pub fn k(&mut self, w: u32, c: u128) -> W { let l = self.lk(w, c); self.leaf_w(l) }
    pub fn lk(&mut self, w: u32, c: u128) -> LeafId { self.leaf(Leaf::Aff { w, c: c & mask(w), t: Box::new([]) }) }
    pub fn lconst(&self, l: LeafId) -> Option<u128> { match &self.leaves[l as usize] { Leaf::Aff { c, t, .. } if t.is_empty() => Some(*c), _ => None } }
    pub fn top(&mut self) -> W { if std::env::var("BTT").is_ok() { eprintln!("TOP {}", std::backtrace::Backtrace::force_capture()); } let l = self.leaf(Leaf::Top); self.leaf_w(l) }
    pub fn as_const(&self, w: W) -> Option<u128> { self.as_leaf(w).and_then(|l| self.lconst(l)) }
    pub fn from_b(&mut self, b: B) -> W { let l = self.mk_bits(vec![b]); self.leaf_w(l) }

    pub fn mk_bits(&mut self, v: Vec<B>) -> LeafId {
        if v.iter().all(|b| *b <= 1) {
            let mut c = 0u128;
            for (i, b) in v.iter().enumerate() { if *b == T { c |= 1 << i; } }
            return self.lk(v.len() as u32, c);
        }
        if let Some(l) = self.bits2aff.get(&v[..]) { return *l; }
        self.leaf(Leaf::Bits(v.into_boxed_slice()))
    }
    fn term(&mut self, v: Rc<[B]>) -> TermId {
        if let Some(t) = self.tuniq.get(&v) { return *t; }
        let i = self.terms.len() as TermId;
        self.terms.push(v.clone());
        self.tuniq.insert(v, i);
        i
    }
    /// Normalise a bit vector into c + k*term.
    fn norm_term(&mut self, bits: &[B], out: &mut Vec<(TermId, u128)>, k: u128, c: &mut u128) {
        let w = bits.len() as u32;
        let mut v: Vec<B> = bits.to_vec();
        let mut cc = 0u128;
        for (i, b) in v.iter_mut().enumerate() { if *b == T { cc |= 1 << i; *b = F; } }
        *c = c.wrapping_add(k.wrapping_mul(cc));
        if v.iter().all(|b| *b == F) { return; }
        let mut sh = 0;
        while v[sh] == F { sh += 1; }
        let mut k = k;
        if sh > 0 { v.rotate_left(sh); k = k.wrapping_mul(1u128 << sh); }
        let kt = k.trailing_zeros().min(w);
        if kt >= w { return; }
        for i in (w - kt)..w { v[i as usize] = F; }
        if v.iter().all(|b| *b == F) { return; }
        // canonical polarity for fully non-constant vectors
        let nz = v.iter().filter(|b| **b > 1).count();
        if nz as u32 == w - kt && kt == 0 {
            let n0 = self.not(v[0]);
            if n0 < v[0] {
                for b in v.iter_mut() { *b = self.not(*b); }
                *c = c.wrapping_sub(k);
                k = k.wrapping_neg();
            }
        }
        let t = self.term(v.into());
        out.push((t, k & mask(w)));
    }
    pub fn to_aff(&mut self, l: LeafId) -> (u128, Rc<[(TermId, u128)]>) {
        if let Leaf::Aff { c, t, .. } = &self.leaves[l as usize] { return (*c, t.clone().into()); }
        if let Some(x) = self.toaff.get(&l) { return x.clone(); }
        let Leaf::Bits(b) = self.leaves[l as usize].clone() else { panic!("to_aff") };
        let mut out = vec![];
        let mut c = 0;
        self.norm_term(&b, &mut out, 1, &mut c);
        let r = (c & mask(b.len() as u32), out.into());
        self.toaff.insert(l, r);
        self.toaff[&l].clone()
    }
    pub fn mk_aff(&mut self, w: u32, c: u128, mut t: Vec<(TermId, u128)>) -> LeafId {
        let m = mask(w);
        if t.len() > 1 {
            t.sort();
            let mut o: Vec<(TermId, u128)> = Vec::with_capacity(t.len());
            for (a, k) in t { if let Some(l) = o.last_mut() { if l.0 == a { l.1 = l.1.wrapping_add(k) & m; continue; } } o.push((a, k & m)); }
            o.retain(|x| x.1 != 0);
            t = o;
        } else { t.retain(|x| x.1 & m != 0); }
        // coefficients whose low zero bits make the term's top bits irrelevant
        for i in 0..t.len() {
            let kt = t[i].1.trailing_zeros();
            if kt > 0 {
                let bits = self.terms[t[i].0 as usize].clone();
                if bits[(w - kt) as usize..].iter().any(|b| *b != F) {
                    let mut v = bits.to_vec();
                    for j in (w - kt)..w { v[j as usize] = F; }
                    if v.iter().all(|b| *b == F) { t[i].1 = 0; } else { let id = self.term(v.into()); t[i].0 = id; let t2: Vec<_> = t.into_iter().filter(|x| x.1 != 0).collect(); return self.mk_aff(w, c, t2); }
                }
            }
        }
        t.retain(|x| x.1 != 0);
        let c = c & m;
        if t.len() == 1 {
            let k = t[0].1;
            if k == 1 && c == 0 { let b = self.terms[t[0].0 as usize].to_vec(); return self.mk_bits(b); }
            if k == m && c == m { let b = self.terms[t[0].0 as usize].to_vec(); let b: Vec<B> = b.into_iter().map(|x| self.not(x)).collect(); return self.mk_bits(b); }
            if c == 0 && k.is_power_of_two() {
                let s = k.trailing_zeros() as usize;
                let b = self.terms[t[0].0 as usize].clone();
                let mut v = vec![F; s]; v.extend_from_slice(&b[..b.len() - s]);
                return self.mk_bits(v);
            }
            // constant disjoint from the term's possible bits: plain bit vector
            if k == 1 {
                let b = self.terms[t[0].0 as usize].clone();
                if (0..w).all(|i| c >> i & 1 == 0 || b[i as usize] == F) {
                    let v: Vec<B> = (0..w).map(|i| if c >> i & 1 == 1 { T } else { b[i as usize] }).collect();
                    return self.mk_bits(v);
                }
            }
        }
        self.leaf(Leaf::Aff { w, c, t: t.into_boxed_slice() })
    }
    fn simple_terms(&self, t: &[(TermId, u128)]) -> bool {
        if t.len() > 4 { return false; }
        true
    }
    /// All bits of a leaf.
    pub fn bits(&mut self, l: LeafId) -> Rc<[B]> {
        if let Some(b) = self.lbits.get(&l) { return b.clone(); }
        let r: Rc<[B]> = match self.leaves[l as usize].clone() {
            Leaf::Bits(b) => b.to_vec().into(),
            Leaf::Aff { w, c, t } if t.is_empty() => (0..w).map(|i| (c >> i & 1) as B).collect::<Vec<_>>().into(),
            Leaf::Aff { w, c, t } => {
                let mut res = None;
                if self.simple_terms(&t) && !self.over {
                    let save = self.limit;
                    self.limit = self.limit.min(self.bn.len() + 30000);
                    let r = self.ripple(w, c, &t);
                    if !self.over { res = Some(r); }
                    self.over = false;
                    self.limit = save;
                }
                let v = match res { Some(r) => r, None => (0..w).map(|i| self.top_bit_trunc(l, i)).collect() };
                let rc: Rc<[B]> = v.into();
                if !rc.iter().all(|b| *b <= 1) { self.bits2aff.insert(rc.clone(), l); }
                rc
            }
            x => panic!("bits of {x:?}"),
        };
        self.lbits.insert(l, r.clone());
        r
    }
    fn ripple(&mut self, w: u32, c: u128, t: &[(TermId, u128)]) -> Vec<B> {
        let mut acc: Vec<B> = (0..w).map(|i| (c >> i & 1) as B).collect();
        let m = mask(w);
        for (id, k) in t {
            let tb = self.terms[*id as usize].clone();
            // choose between k and -k for the smaller number of additions
            let neg = m - *k + 1 & m;
            let (kk, negate) = if (neg.count_ones()) < k.count_ones() { (neg, true) } else { (*k, false) };
            for s in 0..w {
                if kk >> s & 1 == 0 { continue; }
                let mut carry = if negate { T } else { F };
                for i in 0..w as usize {
                    let mut b = if i >= s as usize { tb[i - s as usize] } else { F };
                    if negate { b = self.not(b); }
                    let a = acc[i];
                    let x = self.xor(a, b);
                    acc[i] = self.xor(x, carry);
                    let ab = self.and(a, b);
                    carry = self.ite(x, carry, ab);
                    if self.over { return acc; }
                }
            }
        }
        acc
    }
    fn top_bit_trunc(&mut self, l: LeafId, i: u32) -> B {
        let w = self.lwidth(l);
        let tl = if i + 1 == w { l } else { self.trunc_l(l, i + 1) };
        match self.leaves[tl as usize].clone() {
            Leaf::Bits(b) => b[i as usize],
            Leaf::Aff { c, t, .. } => {
                if t.is_empty() { return (c >> i & 1) as B; }
                if i == 0 {
                    let mut r = (c & 1) as B;
                    for (id, k) in t.iter() { if k & 1 == 1 { let b = self.terms[*id as usize][0]; r = self.xor(r, b); } }
                    return r;
                }
                if tl != l { if let Some(b) = self.lbits.get(&tl) { return b[i as usize]; } }
                let key = match self.atom_of.get(&tl) { Some(k) => *k, None => { self.next_atom += 1; let k = (1u64 << 56) | self.next_atom; self.atom_of.insert(tl, k); self.atoms.insert(k, tl); k } };
                self.var(key)
            }
            _ => F,
        }
    }
    pub fn lbit(&mut self, l: LeafId, i: u32) -> B {
        if i == 0 { return self.top_bit_trunc(l, 0); }
        match &self.leaves[l as usize] { Leaf::Bits(b) => return b[i as usize], Leaf::Aff { c, t, .. } if t.is_empty() => return (c >> i & 1) as B, _ => {} }
        self.bits(l)[i as usize]
    }
    pub fn trunc_l(&mut self, l: LeafId, w: u32) -> LeafId {
        match self.leaves[l as usize].clone() {
            Leaf::Bits(b) => self.mk_bits(b[..w as usize].to_vec()),
            Leaf::Aff { c, t, w: w0 } => {
                if w == w0 { return l; }
                let mut out = vec![];
                let mut c = c;
                for (id, k) in t.iter() { let b = self.terms[*id as usize].clone(); self.norm_term(&b[..w as usize], &mut out, *k, &mut c); }
                self.mk_aff(w, c, out)
            }
            _ => l,
        }
    }
    pub fn ext_l(&mut self, l: LeafId, w: u32, signed: bool) -> LeafId {
        let w0 = self.lwidth(l);
        if let Some(c) = self.lconst(l) { return self.lk(w, if signed { sx(c, w0) as u128 } else { c }); }
        let mut b = self.bits(l).to_vec();
        let f = if signed { *b.last().unwrap() } else { F };
        b.resize(w as usize, f);
        self.mk_bits(b)
    }
    pub fn resize_l(&mut self, l: LeafId, w: u32, signed: bool) -> LeafId {
        if matches!(self.leaves[l as usize], Leaf::Top | Leaf::Ptr(_) | Leaf::Fun(_)) { return l; }
        let w0 = self.lwidth(l);
        if w < w0 { self.trunc_l(l, w) } else if w > w0 { self.ext_l(l, w, signed) } else { l }
    }
    pub fn add_l(&mut self, a: LeafId, b: LeafId) -> LeafId {
        let w = self.lwidth(a);
        if let (Some(x), Some(y)) = (self.lconst(a), self.lconst(b)) { return self.lk(w, x.wrapping_add(y)); }
        let (c1, t1) = self.to_aff(a);
        let (c2, t2) = self.to_aff(b);
        let mut t = t1.to_vec(); t.extend_from_slice(&t2);
        self.mk_aff(w, c1.wrapping_add(c2), t)
    }
    pub fn scale_l(&mut self, a: LeafId, k: u128) -> LeafId {
        let w = self.lwidth(a);
        let (c, t) = self.to_aff(a);
        let t = t.iter().map(|(i, x)| (*i, x.wrapping_mul(k) & mask(w))).collect();
        self.mk_aff(w, c.wrapping_mul(k), t)
    }
    pub fn sub_l(&mut self, a: LeafId, b: LeafId) -> LeafId { let n = self.scale_l(b, u128::MAX); self.add_l(a, n) }
    pub fn not_l(&mut self, a: LeafId) -> LeafId {
        match self.leaves[a as usize].clone() {
            Leaf::Bits(b) => { let v = b.iter().map(|x| self.not(*x)).collect(); self.mk_bits(v) }
            Leaf::Aff { w, .. } => { let n = self.scale_l(a, u128::MAX); let o = self.lk(w, u128::MAX); self.add_l(n, o) }
            _ => a,
        }
    }
    pub fn logic_l(&mut self, op: u8, a: LeafId, b: LeafId) -> LeafId {
        let w = self.lwidth(a);
        if let (Some(x), Some(y)) = (self.lconst(a), self.lconst(b)) { return self.lk(w, match op { b'&' => x & y, b'|' => x | y, _ => x ^ y }); }
        if a == b { return match op { b'^' => self.lk(w, 0), _ => a }; }
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.lconst(q) {
                let m = mask(w);
                match op {
                    b'&' if c == m => return p,
                    b'&' => {
                        if c == 0 { return self.lk(w, 0); }
                        if c.count_ones() <= 2 { let v = (0..w).map(|i| if c >> i & 1 == 1 { self.lbit(p, i) } else { F }).collect(); return self.mk_bits(v); }
                        // low mask: keep the affine form of the low part
                        if (c + 1).is_power_of_two() { let n = c.count_ones(); let t = self.trunc_l(p, n); return self.ext_l(t, w, false); }
                    }
                    b'|' | b'^' if c == 0 => return p,
                    b'^' if c == m => return self.not_l(p),
                    _ => {}
                }
            }
        }
        let x = self.bits(a);
        let y = self.bits(b);
        let v = (0..w as usize).map(|i| match op { b'&' => self.and(x[i], y[i]), b'|' => self.or(x[i], y[i]), _ => self.xor(x[i], y[i]) }).collect();
        self.mk_bits(v)
    }
    pub fn shl_l(&mut self, a: LeafId, n: u32) -> LeafId {
        let w = self.lwidth(a);
        if n >= w { return self.lk(w, 0); }
        if n == 0 { return a; }
        self.scale_l(a, 1u128 << n)
    }
    pub fn shr_l(&mut self, a: LeafId, n: u32, signed: bool) -> LeafId {
        let w = self.lwidth(a);
        if n == 0 { return a; }
        if let Some(c) = self.lconst(a) { return self.lk(w, if signed { (sx(c, w) >> n.min(127)) as u128 } else if n >= w { 0 } else { c >> n }); }
        let b = self.bits(a);
        let f = if signed { b[w as usize - 1] } else { F };
        let v = (0..w).map(|i| if i + n < w { b[(i + n) as usize] } else { f }).collect();
        self.mk_bits(v)
    }
    pub fn eq_l(&mut self, a: LeafId, b: LeafId) -> B {
        if a == b { return T; }
        match (&self.leaves[a as usize], &self.leaves[b as usize]) {
            (Leaf::Top, _) | (_, Leaf::Top) => return self.fresh_bool("unknown comparison"),
            (Leaf::Ptr(x), Leaf::Ptr(y)) => { return self.ptr_eq(*x, *y); }
            (Leaf::Ptr(_), _) | (_, Leaf::Ptr(_)) => return F,
            (Leaf::Fun(x), Leaf::Fun(y)) => return (x == y) as B,
            (Leaf::Fun(_), _) | (_, Leaf::Fun(_)) => return F,
            _ => {}
        }
        let w = self.lwidth(a);
        if w != self.lwidth(b) { return F; }
        if let (Some(x), Some(y)) = (self.lconst(a), self.lconst(b)) { return (x == y) as B; }
        let isb = |l: &Leaf| matches!(l, Leaf::Bits(_)) || matches!(l, Leaf::Aff { t, .. } if t.is_empty());
        if isb(&self.leaves[a as usize]) && isb(&self.leaves[b as usize]) { return self.eq_bits(a, b); }
        let d = self.sub_l(a, b);
        if let Some(c) = self.lconst(d) { return (c == 0) as B; }
        if let Leaf::Aff { c, t, .. } = self.leaves[d as usize].clone() {
            let m = mask(w);
            if t.len() == 2 && c == 0 && ((t[0].1 == 1 && t[1].1 == m) || (t[0].1 == m && t[1].1 == 1)) {
                let x = self.terms[t[0].0 as usize].clone();
                let y = self.terms[t[1].0 as usize].clone();
                let mut r = T;
                for i in (0..w as usize).rev() { let e = self.xnor(x[i], y[i]); r = self.and(r, e); if r == F { break; } }
                return r;
            }
            if t.len() == 1 && (t[0].1 == 1 || t[0].1 == m) {
                let v = if t[0].1 == 1 { c.wrapping_neg() & m } else { c };
                let x = self.terms[t[0].0 as usize].clone();
                let mut r = T;
                for i in (0..w as usize).rev() { let e = if v >> i & 1 == 1 { x[i] } else { self.not(x[i]) }; r = self.and(r, e); if r == F { break; } }
                return r;
            }
        }
        let z = self.lk(w, 0);
        // bit 0 first: cheap refutation
        if self.lbit(d, 0) == T { return F; }
        self.eq_bits(d, z)
    }
    fn eq_bits(&mut self, a: LeafId, b: LeafId) -> B {
        let x = self.bits(a);
        let y = self.bits(b);
        let mut r = T;
        for i in (0..x.len()).rev() { let e = self.xnor(x[i], y[i]); r = self.and(r, e); if r == F { break; } }
        r
    }
    /// A condition, within `care`, under which the two words differ; F exactly when none does
    /// (up to opaque terms).
    pub fn diff(&mut self, a: W, b: W, care: B) -> B {
        if a == b || care == F { return F; }
        let a = self.wrestrict(a, care);
        let b = self.wrestrict(b, care);
        let mut memo: FxMap<(W, W, B), B> = Default::default();
        self.diff_(a, b, care, &mut memo)
    }
    fn diff_(&mut self, a: W, b: W, c: B, memo: &mut FxMap<(W, W, B), B>) -> B {
        if a == b || c == F { return F; }
        if let Some(x) = memo.get(&(a, b, c)) { return *x; }
        let key = self.mkey(a).min(self.mkey(b));
        let r = if key == LEAF { let (x, y) = (self.mn[a as usize].lo, self.mn[b as usize].lo); self.leaf_diff(x, y, c) } else {
            let key = key.min(self.bn[c as usize].key);
            let (a0, a1) = self.mcof(a, key);
            let (b0, b1) = self.mcof(b, key);
            let (c0, c1) = self.cof(c, key);
            let lo = self.diff_(a0, b0, c0, memo);
            let hi = self.diff_(a1, b1, c1, memo);
            let v = self.var(key);
            self.ite(v, hi, lo)
        };
        memo.insert((a, b, c), r);
        r
    }
    fn leaf_diff(&mut self, a: LeafId, b: LeafId, c: B) -> B {
        if a == b { return F; }
        let isb = |l: &Leaf| matches!(l, Leaf::Bits(_)) || matches!(l, Leaf::Aff { t, .. } if t.is_empty());
        if isb(&self.leaves[a as usize]) && isb(&self.leaves[b as usize]) && self.lwidth(a) == self.lwidth(b) {
            let (x, y) = (self.bits(a), self.bits(b));
            for i in 0..x.len() {
                if x[i] == y[i] { continue; }
                let (p, q) = (self.restrict(x[i], c), self.restrict(y[i], c));
                if p == q { continue; }
                let e = self.xor(p, q);
                let r = self.and(e, c);
                if r != F { return r; }
            }
            return F;
        }
        let e = self.eq_l(a, b);
        let ne = self.not(e);
        self.and(ne, c)
    }
    pub fn ult_l(&mut self, a: LeafId, b: LeafId, signed: bool, or_eq: bool) -> B {
        let w = self.lwidth(a);
        if matches!(self.leaves[a as usize], Leaf::Top | Leaf::Ptr(_) | Leaf::Fun(_)) || matches!(self.leaves[b as usize], Leaf::Top | Leaf::Ptr(_) | Leaf::Fun(_)) { return self.fresh_bool("unknown comparison"); }
        if let (Some(x), Some(y)) = (self.lconst(a), self.lconst(b)) {
            let (lt, eq) = if signed { (sx(x, w) < sx(y, w), x == y) } else { (x < y, x == y) };
            return (lt || (or_eq && eq)) as B;
        }
        if a == b { return or_eq as B; }
        if signed && !or_eq && self.lconst(b) == Some(0) { return self.lbit(a, w - 1); }
        if signed && or_eq && self.lconst(a) == Some(0) { let t = self.lbit(b, w - 1); return self.not(t); }
        let x = self.bits(a);
        let y = self.bits(b);
        let mut r = or_eq as B;
        for i in 0..w as usize {
            let (p, q) = if signed && i == w as usize - 1 { (y[i], x[i]) } else { (x[i], y[i]) };
            // r' = (!p & q) | ((p xnor q) & r)
            let np = self.not(p);
            let l = self.and(np, q);
            let e = self.xnor(p, q);
            let er = self.and(e, r);
            r = self.or(l, er);
        }
        r
    }
    /// Number of leading constant-zero bits.
    fn lz(&mut self, a: LeafId) -> u32 { let b = self.bits(a); b.iter().rev().take_while(|x| **x == F).count() as u32 }
    fn sig(&mut self, a: LeafId) -> u32 { let b = self.bits(a); let t = *b.last().unwrap(); let n = b.iter().rev().take_while(|x| **x == t).count() as u32; b.len() as u32 - n + 1 }
    fn op(&mut self, k: OpK, w: u32, a: LeafId, b: LeafId) -> LeafId {
        let (a, b) = if matches!(k, OpK::MulU | OpK::MulS | OpK::Mul | OpK::MulOvU | OpK::MulOvS) && b < a { (b, a) } else { (a, b) };
        let id = match self.ops.get(&(k, w, a, b)) {
            Some(i) => *i,
            None => { let i = self.next_word; self.next_word += 1; self.ops.insert((k, w, a, b), i); self.words.insert(i, Info::Op { k, w, a, b }); i }
        };
        let m = self.word(id, w, "");
        self.as_leaf(m).unwrap()
    }
    pub fn mul_l(&mut self, a: LeafId, b: LeafId) -> LeafId {
        let w = self.lwidth(a);
        if let Some(c) = self.lconst(a) { return self.scale_l(b, c); }
        if let Some(c) = self.lconst(b) { return self.scale_l(a, c); }
        let (na, nb) = (w - self.lz(a), w - self.lz(b));
        if na + nb <= w { let x = self.trunc_l(a, na); let y = self.trunc_l(b, nb); let m = self.op(OpK::MulU, na + nb, x, y); return self.ext_l(m, w, false); }
        let (sa, sb) = (self.sig(a), self.sig(b));
        if sa + sb <= w { let x = self.trunc_l(a, sa); let y = self.trunc_l(b, sb); let m = self.op(OpK::MulS, sa + sb, x, y); return self.ext_l(m, w, true); }
        self.op(OpK::Mul, w, a, b)
    }
    pub fn mul_ov_l(&mut self, a: LeafId, b: LeafId, signed: bool) -> B {
        let w = self.lwidth(a);
        if let (Some(x), Some(y)) = (self.lconst(a), self.lconst(b)) {
            return if signed { match sx(x, w).checked_mul(sx(y, w)) { Some(p) => (p != sx(p as u128 & mask(w), w)) as B, None => T } } else { match x.checked_mul(y) { Some(p) => (p > mask(w)) as B, None => T } };
        }
        if signed { if self.sig(a) + self.sig(b) <= w { return F; } } else if self.lz(a) + self.lz(b) >= w { return F; }
        let o = self.op(if signed { OpK::MulOvS } else { OpK::MulOvU }, 1, a, b);
        self.lbit(o, 0)
    }
    pub fn div_l(&mut self, a: LeafId, b: LeafId, signed: bool, rem: bool) -> LeafId {
        let w = self.lwidth(a);
        if let (Some(x), Some(y)) = (self.lconst(a), self.lconst(b)) {
            if y != 0 { return if signed { let (p, q) = (sx(x, w), sx(y, w)); self.lk(w, if rem { p.wrapping_rem(q) } else { p.wrapping_div(q) } as u128) } else { self.lk(w, if rem { x % y } else { x / y }) }; }
            return self.lk(w, 0);
        }
        if let Some(y) = self.lconst(b) {
            if !signed && y.is_power_of_two() { let n = y.trailing_zeros(); return if rem { if n == 0 { self.lk(w, 0) } else { let t = self.trunc_l(a, n); self.ext_l(t, w, false) } } else { self.shr_l(a, n, false) }; }
        }
        if !signed {
            let n = (w - self.lz(a)).max(w - self.lz(b)).max(1);
            let x = self.trunc_l(a, n); let y = self.trunc_l(b, n);
            let o = self.op(if rem { OpK::URem } else { OpK::UDiv }, n, x, y);
            return self.ext_l(o, w, false);
        }
        let n = self.sig(a).max(self.sig(b)) + 1;
        if n < w {
            let x = self.trunc_l(a, n); let y = self.trunc_l(b, n);
            let o = self.op(if rem { OpK::SRem } else { OpK::SDiv }, n, x, y);
            return self.ext_l(o, w, true);
        }
        self.op(if rem { OpK::SRem } else { OpK::SDiv }, w, a, b)
    }

    /// Is the address a constant or does it mention a stack pointer?
    pub fn stack_or_const(&mut self, a: LeafId) -> bool { self.stack_or_const_off(a, false) }
    pub fn stack_or_const_off(&mut self, a: LeafId, off: bool) -> bool {
        if self.lconst(a).is_some() { return true; }
        let ids: Vec<TermId> = [crate::exec::W_USP, crate::exec::W_SSP].iter().map(|i| { let w = self.word(*i, 32, ""); let l = self.as_leaf(w).unwrap(); match &self.leaves[l as usize] { Leaf::Aff { t, .. } if t.len() == 1 => t[0].0, _ => u32::MAX as TermId } }).collect();
        match &self.leaves[a as usize] { Leaf::Aff { c, t, .. } => *c != 0 && !off || t.iter().any(|x| ids.contains(&x.0)), Leaf::Bits(_) => false, _ => true }
    }
    /// Division; a signed division by -1 is always resolved (its remainder is 0, its quotient the
    /// negated dividend), so that code which treats it apart denotes the same term.
    pub fn div(&mut self, a: W, b: W, signed: bool, rem: bool) -> W {
        let r = self.num2(a, b, &mut |d, p, q| d.div_l(p, q, signed, rem));
        if !signed { return r; }
        let w = self.width(b);
        let m = self.k(w, mask(w));
        let e = self.eq(b, m);
        if e == F { return r; }
        let z = if rem { self.k(w, 0) } else { self.neg_w(a) };
        self.sel(e, z, r)
    }

    // ---------------------------------------------------------------- guarded words
    fn mkey(&self, w: W) -> u64 { self.mn[w as usize].key }
    fn mcof(&self, w: W, key: u64) -> (W, W) { let n = &self.mn[w as usize]; if n.key == key { (n.lo, n.hi) } else { (w, w) } }
    fn mnode(&mut self, key: u64, lo: W, hi: W) -> W {
        if lo == hi { return lo; }
        if let (Some(a), Some(b)) = (self.as_leaf(lo), self.as_leaf(hi)) {
            if self.lwidth(a) == 1 && self.lwidth(b) == 1 && self.is_num(a) && self.is_num(b) {
                let x = self.lbit(a, 0); let y = self.lbit(b, 0);
                let v = self.var(key);
                let r = self.ite(v, y, x);
        if self.mn.len() & 0x1fff == 0 { self.tick(); }
                return self.from_b(r);
            }
        }
        let n = BNode { key, lo, hi };
        if let Some(x) = self.muniq.get(&n) { return *x; }
        let i = self.mn.len() as W;
        self.mn.push(n);
        self.muniq.insert(n, i);
        i
    }
    pub fn is_num(&self, l: LeafId) -> bool { matches!(self.leaves[l as usize], Leaf::Aff { .. } | Leaf::Bits(_)) }
    pub fn wite(&mut self, g: B, a: W, b: W) -> W {
        if g == T { return a; }
        if g == F { return b; }
        if a == b { return a; }
        if let (Some(x), Some(y)) = (self.as_leaf(a), self.as_leaf(b)) {
            if self.is_num(x) && self.is_num(y) && self.lwidth(x) == 1 {
                let p = self.lbit(x, 0); let q = self.lbit(y, 0);
                let r = self.ite(g, p, q);
                return self.from_b(r);
            }
        }
        if let Some(x) = self.mite.get(&(g, a, b)) { return *x; }
        let key = self.bn[g as usize].key.min(self.mkey(a)).min(self.mkey(b));
        let (g0, g1) = self.cof(g, key);
        let (a0, a1) = self.mcof(a, key);
        let (b0, b1) = self.mcof(b, key);
        let lo = self.wite(g0, a0, b0);
        let hi = self.wite(g1, a1, b1);
        let r = self.mnode(key, lo, hi);
        self.mite.insert((g, a, b), r);
        r
    }
    /// ite followed by a size check that falls back to bitwise merging.
    pub fn sel(&mut self, g: B, a: W, b: W) -> W {
        let r = self.wite(g, a, b);
        self.shrink(r)
    }
    pub fn shrink(&mut self, r: W) -> W {
        if self.as_leaf(r).is_some() { return r; }
        if self.leaf_count(r, 1500) > 1400 { if let Some(x) = self.collapse(r) { return x; } }
        r
    }
    pub fn leaf_count(&self, w: W, max: usize) -> usize {
        let mut seen: FxSet<W> = Default::default();
        let mut st = vec![w];
        let mut n = 0;
        while let Some(x) = st.pop() { if seen.insert(x) { let m = &self.mn[x as usize]; if m.key == LEAF { n += 1; if n > max { return n; } } else { st.push(m.lo); st.push(m.hi); } } }
        n
    }
    pub fn collapse(&mut self, w: W) -> Option<W> {
        let ls = self.leafset(w);
        if ls.iter().any(|l| !self.is_num(*l)) { return None; }
        let mut memo: FxMap<W, Rc<[B]>> = Default::default();
        fn go(d: &mut Dom, w: W, memo: &mut FxMap<W, Rc<[B]>>) -> Rc<[B]> {
            if let Some(x) = memo.get(&w) { return x.clone(); }
            let n = d.mn[w as usize];
            let r: Rc<[B]> = if n.key == LEAF { d.bits(n.lo) } else {
                let lo = go(d, n.lo, memo); let hi = go(d, n.hi, memo);
                let v = d.var(n.key);
                (0..lo.len()).map(|i| d.ite(v, hi[i], lo[i])).collect::<Vec<_>>().into()
            };
            memo.insert(w, r.clone());
            r
        }
        let b = go(self, w, &mut memo);
        let l = self.mk_bits(b.to_vec());
        Some(self.leaf_w(l))
    }
    pub fn leafset(&self, w: W) -> Vec<LeafId> {
        let mut seen: FxSet<W> = Default::default();
        let mut st = vec![w];
        let mut v = vec![];
        while let Some(x) = st.pop() { if seen.insert(x) { let m = &self.mn[x as usize]; if m.key == LEAF { v.push(m.lo); } else { st.push(m.hi); st.push(m.lo); } } }
        v
    }
    pub fn map1(&mut self, w: W, f: &mut dyn FnMut(&mut Dom, LeafId) -> W) -> W {
        if let Some(l) = self.as_leaf(w) { return f(self, l); }
        let mut memo: FxMap<W, W> = Default::default();
        let r = self.map1_(w, f, &mut memo);
        self.shrink(r)
    }
    fn map1_(&mut self, w: W, f: &mut dyn FnMut(&mut Dom, LeafId) -> W, memo: &mut FxMap<W, W>) -> W {
        if let Some(x) = memo.get(&w) { return *x; }
        let n = self.mn[w as usize];
        let r = if n.key == LEAF { f(self, n.lo) } else {
            let lo = self.map1_(n.lo, f, memo);
            let hi = self.map1_(n.hi, f, memo);
            let v = self.var(n.key);
            self.wite(v, hi, lo)
        };
        memo.insert(w, r);
        r
    }
    pub fn map2(&mut self, a: W, b: W, f: &mut dyn FnMut(&mut Dom, LeafId, LeafId) -> W) -> W {
        if let (Some(x), Some(y)) = (self.as_leaf(a), self.as_leaf(b)) { return f(self, x, y); }
        let mut memo: FxMap<(W, W), W> = Default::default();
        let r = self.map2_(a, b, f, &mut memo);
        self.shrink(r)
    }
    fn map2_(&mut self, a: W, b: W, f: &mut dyn FnMut(&mut Dom, LeafId, LeafId) -> W, memo: &mut FxMap<(W, W), W>) -> W {
        if let Some(x) = memo.get(&(a, b)) { return *x; }
        let key = self.mkey(a).min(self.mkey(b));
        let r = if key == LEAF { let x = self.mn[a as usize].lo; let y = self.mn[b as usize].lo; f(self, x, y) } else {
            let (a0, a1) = self.mcof(a, key);
            let (b0, b1) = self.mcof(b, key);
            let lo = self.map2_(a0, b0, f, memo);
            let hi = self.map2_(a1, b1, f, memo);
            let v = self.var(key);
            self.wite(v, hi, lo)
        };
        memo.insert((a, b), r);
        r
    }
    /// Map leaves to Booleans.
    pub fn pred1(&mut self, w: W, f: &mut dyn FnMut(&mut Dom, LeafId) -> B) -> B {
        let r = self.map1(w, &mut |d, l| { let b = f(d, l); d.from_b(b) });
        self.to_b(r)
    }
    pub fn pred2(&mut self, a: W, b: W, f: &mut dyn FnMut(&mut Dom, LeafId, LeafId) -> B) -> B {
        let r = self.map2(a, b, &mut |d, x, y| { let v = f(d, x, y); d.from_b(v) });
        self.to_b(r)
    }
    pub fn to_b(&mut self, w: W) -> B {
        if let Some(l) = self.as_leaf(w) { return match self.leaves[l as usize] { Leaf::Top => self.fresh_bool("unknown value"), Leaf::Ptr(_) | Leaf::Fun(_) => T, _ => self.lbit(l, 0) }; }
        let n = self.mn[w as usize];
        let lo = self.to_b(n.lo);
        let hi = self.to_b(n.hi);
        let v = self.var(n.key);
        self.ite(v, hi, lo)
    }
    /// (guard, leaf) pairs, guards disjoint.
    pub fn cases(&mut self, w: W) -> Vec<(B, LeafId)> {
        if let Some(l) = self.as_leaf(w) { return vec![(T, l)]; }
        let mut out: Vec<(B, LeafId)> = vec![];
        for l in self.leafset(w) { let g = self.pred_leaf(w, l); out.push((g, l)); }
        out
    }
    fn pred_leaf(&mut self, w: W, l: LeafId) -> B {
        let mut memo: FxMap<W, B> = Default::default();
        fn go(d: &mut Dom, w: W, l: LeafId, memo: &mut FxMap<W, B>) -> B {
            if let Some(x) = memo.get(&w) { return *x; }
            let n = d.mn[w as usize];
            let r = if n.key == LEAF { (n.lo == l) as B } else { let lo = go(d, n.lo, l, memo); let hi = go(d, n.hi, l, memo); d.mk(n.key, lo, hi) };
            memo.insert(w, r);
            r
        }
        go(self, w, l, &mut memo)
    }
    /// Simplify a word under a care set.
    pub fn wrestrict(&mut self, w: W, c: B) -> W {
        if c == T || self.as_leaf(w).is_some() { return w; }
        let mut memo: FxMap<(W, B), W> = Default::default();
        fn go(d: &mut Dom, w: W, c: B, memo: &mut FxMap<(W, B), W>) -> W {
            if d.as_leaf(w).is_some() || c == T || c == F { return w; }
            if let Some(x) = memo.get(&(w, c)) { return *x; }
            let wk = d.mkey(w);
            let ck = d.bn[c as usize].key;
            let r = if ck < wk { let (c0, c1) = d.cof(c, ck); let cc = d.or(c0, c1); go(d, w, cc, memo) } else {
                let (w0, w1) = d.mcof(w, wk);
                let (c0, c1) = d.cof(c, wk);
                if c0 == F { go(d, w1, c1, memo) } else if c1 == F { go(d, w0, c0, memo) } else {
                    let lo = go(d, w0, c0, memo);
                    let hi = go(d, w1, c1, memo);
                    d.mnode(wk, lo, hi)
                }
            };
            memo.insert((w, c), r);
            r
        }
        go(self, w, c, &mut memo)
    }
    /// Expand a word with few non-constant bits into guarded constants.
    pub fn expand(&mut self, w: W, max: u32) -> Option<W> {
        let ls = self.leafset(w);
        for l in &ls {
            if !self.is_num(*l) { return None; }
            if self.lconst(*l).is_none() { let b = self.bits(*l); if b.iter().filter(|x| **x > 1).count() as u32 > max { return None; } }
        }
        Some(self.map1(w, &mut |d, l| {
            if d.lconst(l).is_some() { return d.leaf_w(l); }
            let b = d.bits(l);
            fn go(d: &mut Dom, b: &[B], i: usize, acc: u128) -> W {
                if i == b.len() { return d.k(b.len() as u32, acc); }
                if b[i] == F { return go(d, b, i + 1, acc); }
                if b[i] == T { return go(d, b, i + 1, acc | 1 << i); }
                let hi = go(d, b, i + 1, acc | 1 << i);
                let lo = go(d, b, i + 1, acc);
                d.wite(b[i], hi, lo)
            }
            go(d, &b, 0, 0)
        }))
    }

    // lifted operations
    pub fn add(&mut self, a: W, b: W) -> W { self.num2(a, b, &mut |d, x, y| d.add_l(x, y)) }
    pub fn sub(&mut self, a: W, b: W) -> W { self.num2(a, b, &mut |d, x, y| d.sub_l(x, y)) }
    pub fn and_w(&mut self, a: W, b: W) -> W {
        // the low bits of an address: objects are aligned for their type
        if let (Some(l), Some(c)) = (self.as_leaf(a), self.as_const(b)) { if c < 16 && matches!(self.leaves[l as usize], Leaf::Ptr(_)) { return self.k(64, 0); } }
        self.num2(a, b, &mut |d, x, y| d.logic_l(b'&', x, y))
    }
    pub fn or_w(&mut self, a: W, b: W) -> W { self.num2(a, b, &mut |d, x, y| d.logic_l(b'|', x, y)) }
    pub fn xor_w(&mut self, a: W, b: W) -> W { self.num2(a, b, &mut |d, x, y| d.logic_l(b'^', x, y)) }
    pub fn num2(&mut self, a: W, b: W, f: &mut dyn FnMut(&mut Dom, LeafId, LeafId) -> LeafId) -> W {
        self.map2(a, b, &mut |d, x, y| if d.is_num(x) && d.is_num(y) && d.lwidth(x) == d.lwidth(y) { let l = f(d, x, y); d.leaf_w(l) } else { d.top() })
    }
    pub fn num1(&mut self, a: W, f: &mut dyn FnMut(&mut Dom, LeafId) -> LeafId) -> W {
        self.map1(a, &mut |d, x| if d.is_num(x) { let l = f(d, x); d.leaf_w(l) } else { d.top() })
    }
    pub fn not_w(&mut self, a: W) -> W { self.num1(a, &mut |d, x| d.not_l(x)) }
    pub fn neg_w(&mut self, a: W) -> W { self.num1(a, &mut |d, x| d.scale_l(x, u128::MAX)) }
    pub fn resize(&mut self, a: W, w: u32, signed: bool) -> W { self.map1(a, &mut |d, x| { let l = d.resize_l(x, w, signed); d.leaf_w(l) }) }
    pub fn shl(&mut self, a: W, n: u32) -> W { self.num1(a, &mut |d, x| d.shl_l(x, n)) }
    pub fn shr(&mut self, a: W, n: u32, signed: bool) -> W { self.num1(a, &mut |d, x| d.shr_l(x, n, signed)) }
    pub fn eq(&mut self, a: W, b: W) -> B { self.pred2(a, b, &mut |d, x, y| d.eq_l(x, y)) }
    pub fn lt(&mut self, a: W, b: W, signed: bool) -> B { self.pred2(a, b, &mut |d, x, y| d.ult_l(x, y, signed, false)) }
    pub fn le(&mut self, a: W, b: W, signed: bool) -> B { self.pred2(a, b, &mut |d, x, y| d.ult_l(x, y, signed, true)) }
    pub fn bit(&mut self, a: W, i: u32) -> B { self.pred1(a, &mut |d, x| if d.is_num(x) { d.lbit(x, i) } else { d.fresh_bool("unknown bit") }) }
    pub fn is_zero(&mut self, a: W) -> B { self.pred1(a, &mut |d, x| if d.is_num(x) { let w = d.lwidth(x); let z = d.lk(w, 0); d.eq_l(x, z) } else { d.fresh_bool("unknown zero test") }) }
    pub fn msb(&mut self, a: W) -> B { self.pred1(a, &mut |d, x| if d.is_num(x) { let w = d.lwidth(x); d.lbit(x, w - 1) } else { d.fresh_bool("unknown sign") }) }
    pub fn width(&self, a: W) -> u32 { let mut x = a; loop { let n = &self.mn[x as usize]; if n.key == LEAF { return self.lwidth(n.lo); } x = n.lo; } }
    /// Carry/borrow or signed overflow of a +/- b.
    pub fn ovf(&mut self, a: W, b: W, sub: bool, signed: bool) -> B {
        self.pred2(a, b, &mut |d, x, y| {
            if !d.is_num(x) || !d.is_num(y) { return d.fresh_bool("unknown overflow"); }
            let w = d.lwidth(x);
            if let (Some(p), Some(q)) = (d.lconst(x), d.lconst(y)) {
                if w <= 64 {
                    let (p, q) = if signed { (sx(p, w), sx(q, w)) } else { (p as i128, q as i128) };
                    let r = if sub { p - q } else { p + q };
                    return (if signed { r != sx(r as u128 & mask(w), w) } else { r < 0 || r > mask(w) as i128 }) as B;
                }
            }
            if !signed && !sub && d.lz(x) > 0 && d.lz(y) > 0 { return F; }
            let xe = d.ext_l(x, w + 1, signed);
            let ye = d.ext_l(y, w + 1, signed);
            let r = if sub { d.sub_l(xe, ye) } else { d.add_l(xe, ye) };
            let t = d.lbit(r, w);
            if signed { let u = d.lbit(r, w - 1); d.xor(t, u) } else { t }
        })
    }

    // ---------------------------------------------------------------- pointers
    pub fn ptr(&mut self, p: PtrT) -> W { let i = self.ptr_id(p); let l = self.leaf(Leaf::Ptr(i)); self.leaf_w(l) }
    pub fn ptr_id(&mut self, p: PtrT) -> PtrId {
        if let Some(x) = self.puniq.get(&p) { return *x; }
        let i = self.ptrs.len() as PtrId;
        self.ptrs.push(p.clone());
        self.puniq.insert(p, i);
        i
    }
    fn ptr_eq(&mut self, a: PtrId, b: PtrId) -> B {
        if a == b { return T; }
        let (x, y) = (self.ptrs[a as usize].clone(), self.ptrs[b as usize].clone());
        if x.base == y.base && x.path.len() == y.path.len() && !x.path.is_empty() && x.path[..x.path.len() - 1] == y.path[..y.path.len() - 1] {
            if let (PElem::Sym(p), PElem::Sym(q)) = (x.path[x.path.len() - 1], y.path[y.path.len() - 1]) { return self.eq(p, q); }
        }
        (x.base == y.base && x.path == y.path) as B
    }

    // ---------------------------------------------------------------- concretisation of a witness
    pub fn eval_b(&self, f: B, v: &mut Val) -> bool {
        let mut f = f;
        while f > 1 { let n = self.bn[f as usize]; f = if self.eval_key(n.key, v) { n.hi } else { n.lo }; }
        f == T
    }
    fn eval_key(&self, key: u64, v: &mut Val) -> bool {
        if let Some(x) = v.m.get(&key) { return *x; }
        let r = if let Some(l) = self.atoms.get(&key) { let w = self.lwidth(*l); self.eval_l(*l, v) >> (w - 1) & 1 == 1 } else {
            let word = if key >> 56 == 2 { { let wd = (key & 0xffff_ffff) as u32; Some((wd, (key >> 32 & 0xff_ffff) as u32 - self.off.get(&wd).copied().unwrap_or(0))) } } else if key >> 40 == 2 { Some((((key >> 8) & 0xffff_ffff) as u32, (key & 0xff) as u32)) } else { None };
            match word.and_then(|(wd, bit)| match self.words.get(&wd) { Some(Info::Op { k, w, a, b }) => Some((*k, *w, *a, *b, bit)), _ => None }) {
                Some((k, w, a, b, bit)) => {
                    let wa = self.lwidth(a);
                    let x = self.eval_l(a, v);
                    let y = self.eval_l(b, v);
                    let (sxx, syy) = (sx(x, wa), sx(y, self.lwidth(b)));
                    let r = match k {
                        OpK::MulU | OpK::Mul => x.wrapping_mul(y),
                        OpK::MulS => sxx.wrapping_mul(syy) as u128,
                        OpK::UDiv => if y == 0 { 0 } else { x / y },
                        OpK::URem => if y == 0 { 0 } else { x % y },
                        OpK::SDiv => if y == 0 { 0 } else { sxx.wrapping_div(syy) as u128 },
                        OpK::SRem => if y == 0 { 0 } else { sxx.wrapping_rem(syy) as u128 },
                        OpK::MulOvU => (x.wrapping_mul(y) > mask(wa)) as u128,
                        OpK::MulOvS => { let p = sxx.wrapping_mul(syy); (p != sx(p as u128 & mask(wa), wa)) as u128 }
                    };
                    (r & mask(w)) >> bit & 1 == 1
                }
                None => v.default(key, word),
            }
        };
        v.m.insert(key, r);
        r
    }
    pub fn eval_l(&self, l: LeafId, v: &mut Val) -> u128 {
        match &self.leaves[l as usize] {
            Leaf::Aff { w, c, t } => {
                let mut s = *c;
                for (id, k) in t.iter() { let b = self.terms[*id as usize].clone(); let mut x = 0u128; for (i, bb) in b.iter().enumerate() { if self.eval_b(*bb, v) { x |= 1 << i; } } s = s.wrapping_add(x.wrapping_mul(*k)); }
                s & mask(*w)
            }
            Leaf::Bits(b) => { let mut x = 0; for (i, bb) in b.iter().enumerate() { if self.eval_b(*bb, v) { x |= 1 << i; } } x }
            _ => 0,
        }
    }
    pub fn eval_leaf_of(&self, w: W, v: &mut Val) -> LeafId {
        let mut x = w;
        loop { let n = self.mn[x as usize]; if n.key == LEAF { return n.lo; } x = if self.eval_key(n.key, v) { n.hi } else { n.lo }; }
    }
    pub fn eval_w(&self, w: W, v: &mut Val) -> u128 { let l = self.eval_leaf_of(w, v); self.eval_l(l, v) }
    fn is_derived(&self, key: u64) -> bool {
        if self.atoms.contains_key(&key) { return true; }
        let wd = if key >> 56 == 2 { (key & 0xffff_ffff) as u32 } else if key >> 40 == 2 { ((key >> 8) & 0xffff_ffff) as u32 } else { return false };
        matches!(self.words.get(&wd), Some(Info::Op { .. }))
    }
    /// Find a consistent valuation making f true; None if none of the tries works.
    pub fn witness(&self, f: B, tries: u32) -> Option<Val> {
        if f == F { return None; }
        let mut rng = 0x9E37_79B9_7F4A_7C15u64;
        let mut next = move || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; rng };
        for t in 0..tries {
            let mut v = Val { m: Default::default(), seed: next(), mode: t % 8, fresh: false };
            // walk a path to T
            let mut x = f;
            let mut ok = true;
            while x > 1 {
                let n = self.bn[x as usize];
                let d = self.is_derived(n.key);
                let pref = if d { self.eval_key(n.key, &mut v) } else if t == 0 { n.hi == F } else { next() & 1 == 1 };
                let (a, b) = if pref { (n.hi, n.lo) } else { (n.lo, n.hi) };
                if a != F { if !d { if let Some(p) = v.m.get(&n.key) { if *p != pref { let y = b; if y == F { ok = false; break; } x = y; continue; } } v.m.insert(n.key, pref); } x = a; }
                else if d { ok = false; break; }
                else { if let Some(p) = v.m.get(&n.key) { if *p == pref { ok = false; break; } } v.m.insert(n.key, !pref); x = b; }
            }
            if !ok { continue; }
            // re-evaluate derived atoms from base values
            let base: Vec<(u64, bool)> = v.m.iter().filter(|(k, _)| !self.is_derived(**k)).map(|(k, b)| (*k, *b)).collect();
            let mut v2 = Val { m: Default::default(), seed: v.seed, mode: v.mode, fresh: false };
            for (k, b) in base { v2.m.insert(k, b); }
            if self.eval_b(f, &mut v2) && !v2.fresh { return Some(v2); }
        }
        // no path led there; try whole states
        for t in 0..tries * 32 {
            let mut v = Val { m: Default::default(), seed: next(), mode: 4 + t % 4, fresh: false };
            if self.eval_b(f, &mut v) && !v.fresh { return Some(v); }
        }
        None
    }
    pub fn show_b(&self, f: B) -> String { if f <= 1 { return (f == T).to_string(); } format!("bdd#{f}(size {}, vars {:?})", self.bsize(f), self.support(f).iter().take(8).map(|k| self.key_name(*k)).collect::<Vec<_>>()) }
    pub fn key_name(&self, key: u64) -> String {
        if let Some(n) = self.fresh_names.get(&key) { return format!("?{n}"); }
        if key >> 56 == 2 { let wd = (key & 0xffff_ffff) as u32; let bit = (key >> 32 & 0xff_ffff) - self.off.get(&wd).copied().unwrap_or(0) as u64; return match self.words.get(&wd) { Some(Info::Input(n)) => format!("{n}[{bit}]"), Some(Info::Op { k, .. }) => format!("{k:?}#{wd}[{bit}]"), None => format!("w{wd}[{bit}]") }; }
        if key >> 40 == 2 { let wd = ((key >> 8) & 0xffff_ffff) as u32; let bit = key & 0xff; return match self.words.get(&wd) { Some(Info::Input(n)) => format!("{n}[{bit}]"), _ => format!("w{wd}[{bit}]") }; }
        if key >> 40 == 1 { return ["t", "s", "m0", "m1", "m2", "x", "n", "z", "v", "c", "stop", "now.m0", "now.m1", "now.m2"].get((key & 0xff) as usize).map(|s| s.to_string()).unwrap_or(format!("f{}", key & 0xff)); }
        if key >> 56 == 0 && key < 1 << 40 { return format!("ok{key}"); }
        format!("atom{:x}", key)
    }
    pub fn show_leaf(&self, l: LeafId) -> String {
        match &self.leaves[l as usize] {
            Leaf::Aff { w, c, t } => { let mut s = format!("{c:#x}"); for (id, k) in t.iter() { let kk = sx(*k, *w); s += &format!(" + {kk}*{}", self.show_bits(&self.terms[*id as usize])); } s }
            Leaf::Bits(b) => self.show_bits(b),
            Leaf::Ptr(p) => format!("{:?}", self.ptrs[*p as usize]),
            Leaf::Fun(f) => format!("fn#{f}"),
            Leaf::Top => "?".into(),
        }
    }
    fn show_bits(&self, b: &[B]) -> String {
        let nm: Vec<String> = b.iter().map(|x| if *x <= 1 { x.to_string() } else { let n = self.bn[*x as usize]; if n.lo == F && n.hi == T { self.key_name(n.key) } else { format!("f{}", x) } }).collect();
        // compress
        if let Some(p) = nm[0].strip_suffix("[0]") { let mut n = 0; while n < nm.len() && nm[n] == format!("{p}[{n}]") { n += 1; } if n == nm.len() { return format!("{p}:{n}"); } let rest: std::collections::BTreeSet<&String> = nm[n..].iter().collect(); return format!("{{{p}:{n},{:?}}}", rest); }
        format!("[{}]", nm.join(","))
    }
    pub fn show(&mut self, w: W) -> String {
        let cs = self.cases(w);
        if cs.len() == 1 { return self.show_leaf(cs[0].1); }
        let mut s = String::new();
        for (g, l) in cs.iter().take(6) { s += &format!("({} => {}) ", self.show_b(*g), self.show_leaf(*l)); }
        if cs.len() > 6 { s += "..."; }
        s
    }
}

pub struct Val { pub m: FxMap<u64, bool>, seed: u64, mode: u32, pub fresh: bool }
impl Val {
    /// Where nothing is required: bits at random, or words that are small, near a power of two, or random.
    fn default(&mut self, key: u64, word: Option<(u32, u32)>) -> bool {
        if key >> 48 == 1 { self.fresh = true; }
        if self.mode >= 4 { if let Some((wd, bit)) = word {
            let mut h = (wd as u64 ^ self.seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 32;
            let x = match h & 7 { 0 | 1 => (h >> 8 & 15) as i64, 2 | 3 => -((h >> 8 & 15) as i64), 4 => (1i64 << (h >> 8 & 31)) + (h >> 16 & 3) as i64 - 1, 5 => -(1i64 << (h >> 8 & 31)) + (h >> 16 & 3) as i64 - 1, _ => (h >> 8) as i64 };
            return x >> bit.min(63) & 1 == 1;
        } }
        match self.mode & 3 { 0 => false, 1 => { let h = (key ^ self.seed).wrapping_mul(0x517cc1b727220a95); h >> 40 & 1 == 1 } 2 => { let h = (key ^ self.seed).wrapping_mul(0x2545F4914F6CDD1D); h >> 41 & 3 == 3 } _ => { let h = (key.wrapping_add(self.seed)).wrapping_mul(0x9E3779B97F4A7C15); h >> 33 & 1 == 1 } }
    }
}
