//! C38: the text the disassembler produces, against Motorola's assembler syntax.
//!
//! Formatting is modelled on the values being formatted: a text is a sequence of characters and of
//! numbers still to be printed, each present under its condition. Nothing is ever printed.
use crate::compare::*;
use crate::core::*;
use crate::dom::*;
use crate::drive::*;
use crate::exec::*;
use crate::ir::*;
use crate::isa::*;
use crate::more::lost;
use crate::scen::root;
use std::rc::Rc;

// ---------------------------------------------------------------- formatting
type Items = Vec<(B, V)>;
/// How a number is printed.
const HEX: u128 = 1;
const LOWER: u128 = 2;
const ALT: u128 = 4;
const SIGNED: u128 = 8;
const PLUS: u128 = 16;
const PADDED: u128 = 32;
const RADIX: u128 = 64; // octal, binary, exponent: not understood
const ALT_FLAG: u32 = 1 << 23;
const PLUS_FLAG: u32 = 1 << 21;
const ZERO_FLAG: u32 = 1 << 24;

#[derive(Clone, Copy, PartialEq)]
enum Tr { Display, Debug, Lower, Upper, Other }
#[derive(Clone, Copy)]
struct Opt { flags: u32, width: u32 }
const PLAIN: Opt = Opt { flags: 0, width: 0 };

fn chars(ex: &mut Ex, s: &str) -> Items { s.chars().map(|c| (T, ex.kw(32, c as u128))).collect() }
fn coll(items: Items) -> V { V::Coll(Rc::new(Coll { items, pos: 0 })) }
fn is_str(p: &Prog, t: TyId) -> bool { matches!(p.ty(t).k, TyK::Str) }
fn is_string(p: &Prog, t: TyId) -> bool { let n = p.ty(t).name.as_str(); n == "std::string::String" || n == "String" || n == "alloc::string::String" || n.ends_with("::fmt::Arguments<'_>") || n.contains("fmt::Arguments<") || n.contains("borrow::Cow<") }

/// The text held by a value of type `ty`.
fn text_of<'p>(ex: &mut Ex<'p>, st: &St<'p>, v: &V, ty: TyId, depth: u32) -> Option<Items> {
    let p = ex.p;
    if depth > 6 { return None; }
    match v {
        V::Coll(c) => return Some(c.items[c.pos..].to_vec()),
        V::W(w) => {
            if let TyK::Char = p.ty(ty).k { return Some(vec![(T, v.clone())]); }
            let TyK::Ptr { to } = &p.ty(ty).k else { return None };
            let w = ex.d.wrestrict(*w, st.g);
            let mut out: Items = vec![];
            for (g, l) in ex.d.cases(w) {
                let Leaf::Ptr(x) = ex.d.leafk(l).clone() else { return None };
                let t = ex.d.ptrs[x as usize].clone();
                match (t.base, t.meta.and_then(|m| ex.d.as_const(m))) {
                    (Base::Alloc(a, off), Some(n)) if is_str(p, *to) => {
                        let b = p.allocs[a as usize].bytes.get(off as usize..off as usize + n as usize)?;
                        let s = String::from_utf8(b.to_vec()).ok()?;
                        for c in chars(ex, &s) { out.push((g, c.1)); }
                    }
                    _ => {
                        let lw = ex.d.leaf_w(l);
                        let mut ls = vec![];
                        ex.deref_val(st, T, &V::W(lw), *to, &mut ls);
                        let x = ex.read_locs(st, &ls);
                        for (h, c) in text_of(ex, st, &x, *to, depth + 1)? { let h = ex.d.and(g, h); out.push((h, c)); }
                    }
                }
            }
            Some(out)
        }
        _ => None,
    }
}
fn number<'p>(ex: &mut Ex<'p>, w: W, signed: bool, tr: Tr, o: Opt) -> Items {
    let mut k = match tr { Tr::Upper => HEX, Tr::Lower => HEX | LOWER, Tr::Other => RADIX, _ => 0 };
    if o.flags & ALT_FLAG != 0 { k |= ALT; }
    if o.flags & PLUS_FLAG != 0 { k |= PLUS; }
    if signed { k |= SIGNED; }
    let bits = ex.d.width(w);
    let mut out = vec![];
    for (g, l) in ex.d.cases(w) {
        match ex.d.lconst(l) {
            Some(c) if k & (RADIX | PLUS) == 0 => {
                let body = if k & HEX == 0 { if signed { format!("{}", sx(c, bits)) } else { format!("{c}") } } else { let h = if k & LOWER != 0 { format!("{c:x}") } else { format!("{c:X}") }; if k & ALT != 0 { format!("0x{h}") } else { h } };
                let fill = (o.width as usize).saturating_sub(body.len());
                let body = if o.flags & ZERO_FLAG != 0 { let (sign, rest) = if let Some(r) = body.strip_prefix("0x") { ("0x", r) } else if let Some(r) = body.strip_prefix('-') { ("-", r) } else { ("", body.as_str()) }; format!("{sign}{}{rest}", "0".repeat(fill)) } else { format!("{}{body}", " ".repeat(fill)) };
                for c in chars(ex, &body) { out.push((g, c.1)); }
            }
            _ => { let lw = ex.d.leaf_w(l); let kk = if o.width > 0 { k | PADDED } else { k }; let kk = ex.kw(32, kk); out.push((g, V::Agg(Rc::new(vec![V::W(lw), kk])))); }
        }
    }
    out
}
/// Formats the object of type `ty` that `v` is (already read).
fn show<'p>(ex: &mut Ex<'p>, st: &mut St<'p>, v: &V, ty: TyId, tr: Tr, o: Opt, depth: u32) -> Option<Items> {
    let p = ex.p;
    if depth > 8 { return None; }
    if is_string(p, ty) { return if tr == Tr::Display { text_of(ex, st, v, ty, 0) } else { None }; }
    match &p.ty(ty).k {
        TyK::Ptr { to } if is_str(p, *to) => return if tr == Tr::Display { text_of(ex, st, v, ty, 0) } else { None },
        TyK::Ptr { to } => { let mut ls = vec![]; ex.deref_val(st, T, v, *to, &mut ls); if ls.is_empty() { return None; } let x = ex.read_locs(st, &ls); return show(ex, st, &x, *to, tr, o, depth + 1); }
        TyK::Char => return if tr == Tr::Display { Some(vec![(T, v.clone())]) } else { None },
        TyK::Int { .. } => {}
        TyK::Bool => return None,
        _ => {
            let name = &p.ty(ty).name;
            if name.ends_with("Wrapping<u32>") || name.ends_with("Wrapping<u16>") || name.ends_with("Wrapping<u8>") || name.ends_with("Wrapping<i16>") || name.ends_with("Wrapping<i32>") { let V::Agg(a) = v else { return None }; let TyK::Adt { variants, .. } = &p.ty(ty).k else { return None }; let (x, t) = (a.first()?.clone(), variants[0].fields[0]); return show(ex, st, &x, t, tr, o, depth + 1); }
            // the crate's own implementation
            let tn = match tr { Tr::Display => "Display", Tr::Debug => "Debug", Tr::Lower => "LowerHex", Tr::Upper => "UpperHex", Tr::Other => return None };
            let want = format!("<{name} as std::fmt::{tn}>::fmt");
            let f = p.fns.iter().position(|f| f.local_crate && f.ok && f.name == want)? as FnId;
            let fi = st.fr.len() as u32;
            let mut s = st.clone();
            let fm = V::Agg(Rc::new(vec![coll(vec![]), ex.kw(32, o.flags as u128), ex.kw(32, o.width as u128)]));
            let tys: &'p [TyId] = leak_tys(vec![ty; 2]);
            s.fr.push(Rc::new(Frame { tys, vals: vec![v.clone(), fm] }));
            let a = ex.d.ptr(PtrT { base: Base::Obj(fi, 0), path: vec![], meta: None });
            let b = ex.d.ptr(PtrT { base: Base::Obj(fi, 1), path: vec![], meta: None });
            let saved = ex.hooks.take();
            ex.hooks = Some(hook());
            let r = ex.call(f, vec![V::W(a), V::W(b)], s, 0);
            ex.hooks = saved;
            let (_, mut s2) = r?;
            let fr = s2.fr.pop()?;
            st.g = s2.g;
            return match &fr.vals[1] { V::Agg(a) => match &a[0] { V::Coll(c) => Some(c.items.clone()), _ => None }, _ => None };
        }
    }
    let TyK::Int { w: _, signed } = &p.ty(ty).k else { return None };
    let w = ex.w(v);
    Some(number(ex, w, *signed, tr, o))
}
fn fmt_opt(ex: &mut Ex, f: &V) -> Option<Opt> { let V::Agg(a) = f else { return None }; if a.len() != 3 { return None; } let (x, y) = (ex.w(&a[1]), ex.w(&a[2])); Some(Opt { flags: ex.d.as_const(x)? as u32, width: ex.d.as_const(y)? as u32 }) }
/// Reads the object a reference denotes.
fn obj<'p>(ex: &mut Ex<'p>, st: &St<'p>, v: &V, ty: TyId) -> Option<(V, TyId)> {
    let p = ex.p;
    let TyK::Ptr { to } = &p.ty(ty).k else { return None };
    let mut ls = vec![];
    ex.deref_val(st, T, v, *to, &mut ls);
    if ls.is_empty() { return None; }
    Some((ex.read_locs(st, &ls), *to))
}
/// Appends to a text (String) or to a formatter behind a mutable reference.
fn append<'p>(ex: &mut Ex<'p>, st: &mut St<'p>, to: &V, ty: TyId, items: Items) -> Option<()> {
    let p = ex.p;
    let TyK::Ptr { to: t } = &p.ty(ty).k else { return None };
    let mut ls = vec![];
    ex.deref_val(st, T, to, *t, &mut ls);
    if ls.len() != 1 { return None; }
    let cur = ex.read_locs(st, &ls);
    let new = match &cur {
        V::Coll(c) => { let mut c = (**c).clone(); c.items.extend(items); V::Coll(Rc::new(c)) }
        V::Agg(a) if a.len() == 3 => { let V::Coll(c) = &a[0] else { return None }; let mut c = (**c).clone(); c.items.extend(items); V::Agg(Rc::new(vec![V::Coll(Rc::new(c)), a[1].clone(), a[2].clone()])) }
        V::Un if items.is_empty() => return Some(()),
        // a reference to the writer (`&mut &mut W`)
        V::W(_) => return append(ex, st, &cur, *t, items),
        _ => return None,
    };
    ex.write_locs(st, &ls, new);
    Some(())
}
/// The bytes of a template: a reference to a constant byte array.
fn template<'p>(ex: &mut Ex<'p>, v: &V) -> Option<Vec<u8>> {
    let w = ex.w(v);
    let l = ex.d.as_leaf(w)?;
    let Leaf::Ptr(x) = ex.d.leafk(l).clone() else { return None };
    match ex.d.ptrs[x as usize].base { Base::Alloc(a, off) => Some(ex.p.allocs[a as usize].bytes.get(off as usize..)?.to_vec()), _ => None }
}
fn expand_template<'p>(ex: &mut Ex<'p>, st: &mut St<'p>, t: &[u8], args: &[V]) -> Option<Items> {
    let mut out = vec![];
    let (mut i, mut next) = (0, 0usize);
    loop {
        let n = *t.get(i)?;
        i += 1;
        if n == 0 { return Some(out); }
        if n < 0x80 { let s = std::str::from_utf8(t.get(i..i + n as usize)?).ok()?; out.extend(chars(ex, s)); i += n as usize; continue; }
        if n == 0x80 { let k = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as usize; i += 2; let s = std::str::from_utf8(t.get(i..i + k)?).ok()?; out.extend(chars(ex, s)); i += k; continue; }
        if n < 0xc0 { return None; }
        let mut o = PLAIN;
        if n & 0x30 != 0 || n & 4 != 0 { return None; }
        if n & 1 != 0 { o.flags = u32::from_le_bytes([*t.get(i)?, *t.get(i + 1)?, *t.get(i + 2)?, *t.get(i + 3)?]); i += 4; }
        if n & 2 != 0 { o.width = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as u32; i += 2; }
        if n & 8 != 0 { next = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as usize; i += 2; }
        let V::Agg(a) = args.get(next)?.clone() else { return None };
        next += 1;
        if a.len() != 3 { return None; }
        let (k, ty) = (ex.w(&a[1]), ex.w(&a[2]));
        let (k, ty) = (ex.d.as_const(k)?, ex.d.as_const(ty)? as TyId);
        let tr = match k { 0 => Tr::Display, 1 => Tr::Debug, 2 => Tr::Lower, 3 => Tr::Upper, _ => Tr::Other };
        out.extend(show(ex, st, &a[0], ty, tr, o, 0)?);
    }
}
fn trait_of(n: &str) -> Option<Tr> {
    if !n.ends_with("::fmt") { return None; }
    Some(if n.contains("fmt::Display") { Tr::Display } else if n.contains("fmt::UpperHex") { Tr::Upper } else if n.contains("fmt::LowerHex") { Tr::Lower } else if n.contains("fmt::Debug") { Tr::Debug } else { return None })
}
pub fn hook<'p>() -> Box<dyn FnMut(&mut Ex<'p>, &str, &[V], &[TyId], TyId, &mut St<'p>) -> Option<V> + 'p> {
    Box::new(|ex, n, args, tys, ret, st| {
        if std::env::var("TEXTDBG").is_ok() { eprintln!("MODEL {n} ({:?}) -> {}", tys.iter().map(|t| ex.p.ty(*t).name.clone()).collect::<Vec<_>>(), ex.p.ty(ret).name); }
        let r = model(ex, n, args, tys, ret, st);
        if r.is_none() && std::env::var("TEXTDBG").is_ok() { eprintln!("   not modelled"); }
        r
    })
}
fn model<'p>(ex: &mut Ex<'p>, n: &str, args: &[V], tys: &[TyId], ret: TyId, st: &mut St<'p>) -> Option<V> {
    let p = ex.p;
    let m = n.rsplit("::").next().unwrap_or(n);
    let fine = |ex: &mut Ex<'p>, ret: TyId| { if matches!(p.ty(ret).k, TyK::Adt { is_enum: true, .. }) { let u = ex.unit(); ex.variant(ret, 0, vec![u]) } else { ex.unit() } };
    if n.contains("Argument") && m.starts_with("new_") {
        let k = match m { "new_display" => 0, "new_debug" => 1, "new_lower_hex" => 2, "new_upper_hex" => 3, _ => 4 };
        let a = ex.kw(32, k);
        let b = ex.kw(32, tys[0] as u128);
        return Some(V::Agg(Rc::new(vec![args[0].clone(), a, b])));
    }
    if n.contains("fmt::Arguments") || n.contains("::Arguments<") || n.contains("rt::<impl std::fmt::Arguments") {
        match m {
            "new" => {
                let t = template(ex, &args[0])?;
                let (list, _) = obj(ex, st, &args[1], tys[1])?;
                let V::Agg(list) = list else { return None };
                return expand_template(ex, st, &t, &list).map(coll);
            }
            "from_str" | "from_str_nonconst" => return text_of(ex, st, &args[0], tys[0], 0).map(coll),
            _ => {}
        }
    }
    if n.ends_with("fmt::format") || n.ends_with("fmt::format::format_inner") { return text_of(ex, st, &args[0], tys[0], 0).map(coll); }
    if m == "write_fmt" && args.len() == 2 { let i = text_of(ex, st, &args[1], tys[1], 0)?; append(ex, st, &args[0], tys[0], i)?; return Some(fine(ex, ret)); }
    if matches!(m, "write_str" | "push_str" | "push" | "write_char" | "add_assign" | "extend") && args.len() == 2 && (n.contains("String") || n.contains("fmt::")) {
        let i = text_of(ex, st, &args[1], tys[1], 0)?;
        append(ex, st, &args[0], tys[0], i)?;
        return Some(fine(ex, ret));
    }
    if m == "pad" && n.contains("Formatter") {
        let (f, _) = obj(ex, st, &args[0], tys[0])?;
        if fmt_opt(ex, &f)?.width != 0 { return None; }
        let i = text_of(ex, st, &args[1], tys[1], 0)?;
        append(ex, st, &args[0], tys[0], i)?;
        return Some(fine(ex, ret));
    }
    if m == "alternate" && n.contains("Formatter") { let (f, _) = obj(ex, st, &args[0], tys[0])?; let o = fmt_opt(ex, &f)?; return Some(ex.kw(1, (o.flags & ALT_FLAG != 0) as u128)); }
    if let Some(tr) = trait_of(n) {
        if args.len() == 2 {
            let (f, _) = obj(ex, st, &args[1], tys[1])?;
            let o = fmt_opt(ex, &f)?;
            let i = show(ex, st, &args[0], tys[0], tr, o, 0)?;
            append(ex, st, &args[1], tys[1], i)?;
            return Some(fine(ex, ret));
        }
    }
    match m {
        "to_string" => return show(ex, st, &args[0], tys[0], Tr::Display, PLAIN, 0).map(coll),
        "to_owned" | "from" | "into" | "clone" | "into_string" | "into_owned" | "as_str" | "deref" | "borrow" | "as_ref" | "to_uppercase" | "must_use" if args.len() == 1 => {
            let x = text_of(ex, st, &args[0], tys[0], 0)?;
            if m == "to_uppercase" { return None; }
            if is_string(p, ret) { return Some(coll(x)); }
            if let TyK::Ptr { .. } = &p.ty(ret).k { return Some(args[0].clone()); }
            return None;
        }
        "new" | "with_capacity" | "default" if is_string(p, ret) => return Some(coll(vec![])),
        "add" if args.len() == 2 && is_string(p, ret) => { let mut a = text_of(ex, st, &args[0], tys[0], 0)?; a.extend(text_of(ex, st, &args[1], tys[1], 0)?); return Some(coll(a)); }
        "concat" | "join" if is_string(p, ret) => {
            let (l, elem) = items(ex, st, &args[0], tys[0])?;
            let mut out = vec![];
            for (i, x) in l.iter().enumerate() {
                if i > 0 && m == "join" { out.extend(text_of(ex, st, &args[1], tys[1], 0)?); }
                out.extend(text_of(ex, st, x, elem, 0)?);
            }
            return Some(coll(out));
        }
        _ => {}
    }
    None
}

/// The elements of an array or slice of known length, and their type.
fn items<'p>(ex: &mut Ex<'p>, st: &St<'p>, v: &V, ty: TyId) -> Option<(Vec<V>, TyId)> {
    let p = ex.p;
    let mut t = ty;
    loop { match &p.ty(t).k { TyK::Ptr { to } => t = *to, TyK::Adt { variants, .. } => t = *variants.first()?.fields.first()?, _ => break } }
    let (TyK::Array { elem, .. } | TyK::Slice { elem }) = &p.ty(t).k else { return None };
    if let Some(l) = ex.slice_items(v, ty, st) { if l.iter().all(|x| x.0 == T) { return Some((l.into_iter().map(|x| x.1).collect(), *elem)); } }
    let (l, _) = obj(ex, st, v, ty)?;
    let V::Agg(l) = l else { return None };
    Some((l.to_vec(), *elem))
}

// ---------------------------------------------------------------- the syntax
/// A printed number: its value, and how it is written.
#[derive(Clone, Debug)]
enum Tok { C(char), N(W, u128) }
#[derive(Clone, Debug)]
enum Num { Lit { neg: bool, v: u128, hex: bool }, Val { w: W, k: u128, neg: bool } }
#[derive(Clone, Debug)]
enum RegN { K(u8), V(W) }
#[derive(Clone, Debug)]
enum Opnd {
    Dn(RegN), An(RegN), Ind(RegN), Post(RegN), Pre(RegN),
    Disp(Option<Num>, Option<RegN>), // None: the program counter
    Index(Option<Num>, Option<RegN>, char, RegN, char),
    Abs(Num, char), Imm(Num), Bare(Num), Target(Option<Num>, Num), Name(&'static str),
}

struct P { t: Vec<Tok>, i: usize }
impl P {
    fn peek(&self) -> Option<char> { match self.t.get(self.i) { Some(Tok::C(c)) => Some(*c), _ => None } }
    fn ws(&mut self) { while matches!(self.peek(), Some(c) if c.is_whitespace()) { self.i += 1; } }
    fn eat(&mut self, c: char) -> bool { self.ws(); if self.peek() == Some(c) { self.i += 1; true } else { false } }
    fn end(&mut self) -> bool { self.ws(); self.i >= self.t.len() }
    fn num(&mut self) -> Option<Num> {
        self.ws();
        let neg = if self.peek() == Some('-') { self.i += 1; true } else { if self.peek() == Some('+') { self.i += 1; } false };
        let mut hex = false;
        if self.peek() == Some('$') { hex = true; self.i += 1; }
        else if self.peek() == Some('0') && matches!(self.t.get(self.i + 1), Some(Tok::C('x' | 'X'))) { hex = true; self.i += 2; }
        if let Some(Tok::N(w, k)) = self.t.get(self.i).cloned() {
            self.i += 1;
            // `$` or `0x` written by hand before a bare hexadecimal number
            if hex && k & (HEX | ALT) != HEX { return None; }
            if !hex && k & HEX != 0 && k & ALT == 0 { return None; }
            if k & RADIX != 0 { return None; }
            if matches!(self.t.get(self.i), Some(Tok::N(..))) || matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric()) { return None; }
            return Some(Num::Val { w, k, neg });
        }
        let mut v = 0u128;
        let mut any = false;
        while let Some(d) = self.peek().and_then(|c| c.to_digit(if hex { 16 } else { 10 })) { v = v.checked_mul(if hex { 16 } else { 10 })?.checked_add(d as u128)?; any = true; self.i += 1; }
        if !any || matches!(self.t.get(self.i), Some(Tok::N(..))) || matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric()) { return None; }
        Some(Num::Lit { neg, v, hex })
    }
    fn regnum(&mut self) -> Option<RegN> {
        match self.t.get(self.i).cloned() {
            Some(Tok::N(w, k)) if k & (HEX | ALT | PLUS | SIGNED | PADDED | RADIX) == 0 || k & !(HEX | LOWER) == 0 => { self.i += 1; Some(RegN::V(w)) }
            Some(Tok::C(c)) => { let d = c.to_digit(10)?; self.i += 1; if matches!(self.peek(), Some(c) if c.is_ascii_digit()) { return None; } Some(RegN::K(d as u8)) }
            _ => None,
        }
    }
    /// A data or address register.
    fn reg(&mut self) -> Option<(char, RegN)> {
        self.ws();
        let c = self.peek()?.to_ascii_uppercase();
        let at = self.i;
        self.i += 1;
        if c == 'S' && matches!(self.peek(), Some('P' | 'p')) { self.i += 1; if !matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric()) { return Some(('A', RegN::K(7))); } self.i = at; return None; }
        if c != 'A' && c != 'D' { self.i = at; return None; }
        match self.regnum() { Some(n) => Some((c, n)), None => { self.i = at; None } }
    }
    fn word(&mut self, w: &str) -> bool {
        self.ws();
        let n = w.len();
        let got: Option<String> = self.t.get(self.i..self.i + n).map(|s| s.iter().map(|t| match t { Tok::C(c) => c.to_ascii_uppercase(), _ => '?' }).collect());
        let next = match self.t.get(self.i + n) { Some(Tok::C(c)) => c.is_ascii_alphanumeric(), Some(_) => true, None => false };
        if got.as_deref() == Some(w) && !next { self.i += n; true } else { false }
    }
    /// An or PC.
    fn base(&mut self) -> Option<Option<RegN>> { if self.word("PC") { return Some(None); } match self.reg()? { ('A', n) => Some(Some(n)), _ => None } }
    fn size(&mut self) -> Option<char> { if !self.eat('.') { return None; } let c = self.peek()?.to_ascii_uppercase(); self.i += 1; Some(c) }
    fn tail(&mut self, disp: Option<Num>) -> Option<Opnd> {
        let b = self.base()?;
        if self.eat(',') {
            let (k, r) = self.reg()?;
            let s = self.size().unwrap_or('W');
            if !self.eat(')') { return None; }
            return Some(Opnd::Index(disp, b, k, r, s));
        }
        if !self.eat(')') { return None; }
        Some(Opnd::Disp(disp, b))
    }
    fn operand(&mut self) -> Option<Opnd> {
        self.ws();
        for w in ["CCR", "SR", "USP"] { if self.word(w) { return Some(Opnd::Name(w)); } }
        if self.eat('#') { return self.num().map(Opnd::Imm); }
        if self.peek() == Some('-') && matches!(self.t.get(self.i + 1), Some(Tok::C('('))) {
            self.i += 2;
            let (k, r) = self.reg()?;
            return if k == 'A' && self.eat(')') { Some(Opnd::Pre(r)) } else { None };
        }
        if let Some((k, r)) = self.reg() { return Some(if k == 'A' { Opnd::An(r) } else { Opnd::Dn(r) }); }
        if self.eat('(') {
            let at = self.i;
            if let Some(('A', r)) = self.reg() {
                if self.eat(')') { return Some(if self.eat('+') { Opnd::Post(r) } else { Opnd::Ind(r) }); }
            }
            self.i = at;
            if let Some(b) = self.tail(None) { return Some(b); }
            self.i = at;
            let n = self.num()?;
            if self.eat(')') { let s = self.size(); return match s { Some(s) => Some(Opnd::Abs(n, s)), None => Some(Opnd::Bare(n)) }; }
            if !self.eat(',') { return None; }
            return self.tail(Some(n));
        }
        if self.eat('<') { let n = self.num()?; return if self.eat('>') { Some(Opnd::Target(None, n)) } else { None }; }
        let n = self.num()?;
        if self.eat('(') { return self.tail(Some(n)); }
        if self.peek() == Some('.') { let s = self.size()?; return Some(Opnd::Abs(n, s)); }
        if self.eat('<') { let t = self.num()?; return if self.eat('>') { Some(Opnd::Target(Some(n), t)) } else { None }; }
        Some(Opnd::Bare(n))
    }
}

/// What an operand has to denote.
#[derive(Clone, Debug)]
enum Want {
    D(u8), A(u8), Pre(u8), Post(u8),
    Ea(Ea, Vec<W>, u32),
    /// Immediate, compared in this many bits; the number sign may be missing when nothing else fits.
    Imm(W, u32, bool),
    K(u128),
    DispA(W, u8), List(W), Branch { disp: W, target: W },
    Name(&'static str),
}
struct Exp { names: Vec<String>, size: Option<char>, required: bool, ops: Vec<Want> }

fn expected<'p>(ex: &mut Ex<'p>, i: &Insn, ext: &dyn Fn(&mut Ex<'p>, u32) -> W, pc: W) -> Exp {
    use Mn::*;
    let mut at = 1u32;
    let conds: [&[&str]; 16] = [&["T"], &["F"], &["HI"], &["LS"], &["CC", "HS"], &["CS", "LO"], &["NE"], &["EQ"], &["VC"], &["VS"], &["PL"], &["MI"], &["GE"], &["LT"], &["GT"], &["LE"]];
    let cc = (i.op >> 8 & 15) as usize;
    let sz = match i.size { 1 => Some('B'), 2 => Some('W'), 4 => Some('L'), _ => None };
    let mut word = |ex: &mut Ex<'p>| { let w = ext(ex, at); at += 1; w };
    let long = |ex: &mut Ex<'p>, h: W, l: W| { let h = ex.d.resize(h, 32, false); let h = ex.d.shl(h, 16); let l = ex.d.resize(l, 32, false); ex.d.or_w(h, l) };
    // operands in front of the effective address words
    let mut imm = None;
    match i.mn {
        Ori | Andi | Subi | Addi | Eori | Cmpi => { let h = word(ex); imm = Some(if i.size == 4 { let l = word(ex); long(ex, h, l) } else { h }); }
        Oriccr | Orisr | Andiccr | Andisr | Eoriccr | Eorisr | Stop | Link | Movep | Dbcc | Movem => imm = Some(word(ex)),
        Btst | Bchg | Bclr | Bset if !i.dir => imm = Some(word(ex)),
        Bcc | Bra | Bsr => imm = Some(if i.op & 0xff == 0 { word(ex) } else { ex.d.k(16, sx((i.op & 0xff) as u128, 8) as u128 & 0xffff) }),
        _ => {}
    }
    let mut ea_words = |ex: &mut Ex<'p>, e: Option<Ea>| -> Vec<W> {
        let Some(e) = e else { return vec![] };
        let n = match (e.mode, e.reg) { (5 | 6, _) | (7, 0 | 2 | 3) => 1, (7, 1) => 2, (7, 4) => if i.size == 4 { 2 } else { 1 }, _ => 0 };
        (0..n).map(|_| word(ex)).collect()
    };
    let bits = i.size as u32 * 8;
    let w1 = ea_words(ex, i.ea);
    let w2 = ea_words(ex, i.ea2);
    let ea = i.ea.map(|e| Want::Ea(e, w1, bits));
    let ea2 = i.ea2.map(|e| Want::Ea(e, w2, bits));
    let s = |x: &str| vec![x.to_string()];
    let two = |a: &str, b: &str| vec![a.to_string(), b.to_string()];
    let (d, a) = (Want::D, Want::A);
    let quick = Want::K(if i.rx == 0 { 8 } else { i.rx as u128 });
    let lr = if i.dir { "L" } else { "R" };
    let e = |names: Vec<String>, required: bool, ops: Vec<Want>| Exp { names, size: sz, required, ops };
    let nosize = |names: Vec<String>, ops: Vec<Want>| Exp { names, size: None, required: false, ops };
    let up = format!("{:?}", i.mn).to_uppercase();
    match i.mn {
        Abcd | Sbcd => e(s(&up), false, if i.dir { vec![Want::Pre(i.ry), Want::Pre(i.rx)] } else { vec![d(i.ry), d(i.rx)] }),
        Addx | Subx => e(s(&up), true, if i.dir { vec![Want::Pre(i.ry), Want::Pre(i.rx)] } else { vec![d(i.ry), d(i.rx)] }),
        Add | Sub | And | Or => e(s(&up), true, if i.dir { vec![d(i.rx), ea.unwrap()] } else { vec![ea.unwrap(), d(i.rx)] }),
        Cmp => e(s(&up), true, vec![ea.unwrap(), d(i.rx)]),
        Eor => e(s(&up), true, vec![d(i.rx), ea.unwrap()]),
        Adda | Suba | Cmpa => e(two(&up, &up[..3]), true, vec![ea.unwrap(), a(i.rx)]),
        Movea => e(two("MOVEA", "MOVE"), true, vec![ea.unwrap(), a(i.rx)]),
        Addi | Subi | Cmpi | Andi | Eori | Ori => { let base = up[..up.len() - 1].to_string(); e(vec![up.clone(), base], true, vec![Want::Imm(imm.unwrap(), bits, false), ea.unwrap()]) }
        Addq | Subq => e(s(&up), true, vec![quick, ea.unwrap()]),
        Oriccr | Andiccr | Eoriccr => { let b = up[..up.len() - 3].to_string(); let c = b[..b.len() - 1].to_string(); Exp { names: vec![b, c], size: Some('B'), required: false, ops: vec![Want::Imm(imm.unwrap(), 8, true), Want::Name("CCR")] } }
        Orisr | Andisr | Eorisr => { let b = up[..up.len() - 2].to_string(); let c = b[..b.len() - 1].to_string(); Exp { names: vec![b, c], size: Some('W'), required: false, ops: vec![Want::Imm(imm.unwrap(), 16, true), Want::Name("SR")] } }
        Asm | Lsm | Roxm | Rom => e(s(&format!("{}{lr}", &up[..up.len() - 1])), false, vec![ea.unwrap()]),
        Asr | Lsr | Roxr | Ror => e(s(&format!("{}{lr}", &up[..up.len() - 1])), true, vec![if i.op & 0x20 != 0 { d(i.rx) } else { quick }, d(i.ry)]),
        Bcc | Bra | Bsr => {
            let disp = imm.unwrap();
            let x = ex.d.resize(disp, 32, true);
            let two_ = ex.d.k(32, 2);
            let t = ex.d.add(pc, two_);
            let target = ex.d.add(t, x);
            let names = match i.mn { Bra => two("BRA", "BT"), Bsr => s("BSR"), _ => conds[cc].iter().map(|c| format!("B{c}")).collect() };
            nosize(names, vec![Want::Branch { disp, target }])
        }
        Dbcc => {
            let disp = imm.unwrap();
            let x = ex.d.resize(disp, 32, true);
            let two_ = ex.d.k(32, 2);
            let t = ex.d.add(pc, two_);
            let target = ex.d.add(t, x);
            let mut names: Vec<String> = conds[cc].iter().map(|c| format!("DB{c}")).collect();
            if cc == 1 { names.push("DBRA".into()); }
            nosize(names, vec![d(i.ry), Want::Branch { disp, target }])
        }
        Btst | Bchg | Bclr | Bset => e(s(&up), false, vec![if i.dir { d(i.rx) } else { Want::Imm(imm.unwrap(), if i.ea.unwrap().mode == 0 { 5 } else { 3 }, false) }, ea.unwrap()]),
        Chk | Divs | Divu | Muls | Mulu => e(s(&up), false, vec![ea.unwrap(), d(i.rx)]),
        Clr | Neg | Negx | Not | Tst => e(s(&up), true, vec![ea.unwrap()]),
        Nbcd | Tas => e(s(&up), false, vec![ea.unwrap()]),
        Pea => e(s("PEA"), false, vec![ea.unwrap()]),
        Jmp | Jsr => nosize(s(&up), vec![ea.unwrap()]),
        Cmpm => e(s("CMPM"), true, vec![Want::Post(i.ry), Want::Post(i.rx)]),
        Exg => e(s("EXG"), false, match i.op >> 3 & 31 { 8 => vec![d(i.rx), d(i.ry)], 9 => vec![a(i.rx), a(i.ry)], _ => vec![d(i.rx), a(i.ry)] }),
        Ext => e(s("EXT"), true, vec![d(i.ry)]),
        Swap => Exp { names: s("SWAP"), size: Some('W'), required: false, ops: vec![d(i.ry)] },
        Lea => e(s("LEA"), false, vec![ea.unwrap(), a(i.rx)]),
        Link => Exp { names: s("LINK"), size: Some('W'), required: false, ops: vec![a(i.ry), Want::Imm(imm.unwrap(), 16, false)] },
        Unlk => nosize(s("UNLK"), vec![a(i.ry)]),
        Move => e(s("MOVE"), true, vec![ea.unwrap(), ea2.unwrap()]),
        Moveccr => e(s("MOVE"), false, vec![ea.unwrap(), Want::Name("CCR")]),
        Movesr => e(s("MOVE"), false, vec![ea.unwrap(), Want::Name("SR")]),
        Movefsr => e(s("MOVE"), false, vec![Want::Name("SR"), ea.unwrap()]),
        Moveusp => Exp { names: s("MOVE"), size: Some('L'), required: false, ops: if i.dir { vec![Want::Name("USP"), a(i.ry)] } else { vec![a(i.ry), Want::Name("USP")] } },
        Movem => e(s("MOVEM"), true, if i.dir { vec![ea.unwrap(), Want::List(imm.unwrap())] } else { vec![Want::List(imm.unwrap()), ea.unwrap()] }),
        Movep => { let m = Want::DispA(imm.unwrap(), i.ry); e(s("MOVEP"), true, if i.dir { vec![d(i.rx), m] } else { vec![m, d(i.rx)] }) }
        Moveq => { let k = ex.d.k(32, sx((i.op & 0xff) as u128, 8) as u128 & 0xffff_ffff); e(s("MOVEQ"), false, vec![Want::Imm(k, 32, false), d(i.rx)]) }
        Scc => e(conds[cc].iter().map(|c| format!("S{c}")).collect(), false, vec![ea.unwrap()]),
        Stop => nosize(s("STOP"), vec![Want::Imm(imm.unwrap(), 16, false)]),
        Trap => nosize(s("TRAP"), vec![Want::K((i.op & 15) as u128)]),
        Illegal | Nop | Reset | Rte | Rtr | Rts | Trapv => nosize(s(&up), vec![]),
    }
}

/// Where the printed number differs from the word, in its low `bits` bits; a decimal number is
/// read as written, so that it has to be the signed value when `signed`.
fn num_differs<'p>(ex: &mut Ex<'p>, n: &Num, want: W, bits: u32, signed: bool) -> B {
    let ww = ex.d.width(want);
    match n {
        Num::Lit { neg, v, hex } => {
            let (total, e) = if signed && !*hex { (64, ex.d.resize(want, 64, true)) } else { (bits.min(ww), ex.d.resize(want, bits.min(ww), false)) };
            let v = if *neg { v.wrapping_neg() } else { *v };
            let k = ex.d.k(total, v & mask(total));
            ex.d.diff(k, e, T)
        }
        Num::Val { w, k, neg } => {
            let aw = ex.d.width(*w);
            let math = signed && k & HEX == 0;
            let total = if math { 64 } else { bits.min(ww) };
            // hexadecimal numbers print their own width
            let mut x = if k & HEX != 0 { if aw < total { ex.d.resize(*w, total, false) } else { ex.d.resize(*w, total, false) } } else { ex.d.resize(*w, total, k & SIGNED != 0) };
            if *neg { x = ex.d.neg_w(x); }
            let e = ex.d.resize(want, total, math);
            ex.d.diff(x, e, T)
        }
    }
}
fn reg_differs<'p>(ex: &mut Ex<'p>, r: &RegN, want: u8) -> B { match r { RegN::K(k) => if *k == want { F } else { T }, RegN::V(w) => { let bits = ex.d.width(*w); let k = ex.d.k(bits, want as u128); ex.d.diff(*w, k, T) } } }
fn any(ex: &mut Ex, bs: &[B]) -> B { let mut r = F; for b in bs { r = ex.d.or(r, *b); } r }

/// Where the operand does not denote what is wanted; None when it cannot be compared.
fn differs<'p>(ex: &mut Ex<'p>, o: &Opnd, w: &Want) -> Option<B> {
    Some(match (w, o) {
        (Want::D(n), Opnd::Dn(r)) | (Want::A(n), Opnd::An(r)) | (Want::Pre(n), Opnd::Pre(r)) | (Want::Post(n), Opnd::Post(r)) => reg_differs(ex, r, *n),
        (Want::Name(a), Opnd::Name(b)) => if a == b { F } else { T },
        (Want::K(k), Opnd::Imm(n)) => { let x = ex.d.k(32, *k); num_differs(ex, n, x, 32, true) }
        (Want::Imm(x, bits, _), Opnd::Imm(n)) => num_differs(ex, n, *x, *bits, false),
        (Want::Imm(x, bits, true), Opnd::Bare(n)) => num_differs(ex, n, *x, *bits, false),
        (Want::DispA(x, r), Opnd::Disp(n, Some(q))) => { let a = reg_differs(ex, q, *r); let b = match n { Some(n) => num_differs(ex, n, *x, 16, true), None => { let z = ex.d.is_zero(*x); ex.d.not(z) } }; ex.d.or(a, b) }
        (Want::DispA(x, r), Opnd::Ind(q)) => { let a = reg_differs(ex, q, *r); let z = ex.d.is_zero(*x); let z = ex.d.not(z); ex.d.or(a, z) }
        (Want::List(x), Opnd::Bare(n) | Opnd::Imm(n)) => num_differs(ex, n, *x, 16, false),
        (Want::List(_), _) => return None,
        (Want::Branch { disp, target }, Opnd::Target(n, t)) => {
            let a = num_differs(ex, t, *target, 32, false);
            let b = match n { Some(n) => num_differs(ex, n, *disp, 16, true), None => F };
            ex.d.or(a, b)
        }
        (Want::Branch { disp, target }, Opnd::Bare(n) | Opnd::Abs(n, _)) => { let a = num_differs(ex, n, *target, 32, false); let b = num_differs(ex, n, *disp, 16, true); ex.d.and(a, b) }
        (Want::Ea(e, ws, bits), o) => match (e.mode, e.reg, o) {
            (0, r, Opnd::Dn(q)) | (1, r, Opnd::An(q)) | (2, r, Opnd::Ind(q)) | (3, r, Opnd::Post(q)) | (4, r, Opnd::Pre(q)) => reg_differs(ex, q, r),
            (5, r, Opnd::Disp(Some(n), Some(q))) => { let a = reg_differs(ex, q, r); let b = num_differs(ex, n, ws[0], 16, true); ex.d.or(a, b) }
            (7, 2, Opnd::Disp(Some(n), None)) => num_differs(ex, n, ws[0], 16, true),
            (5, r, Opnd::Disp(None, Some(q))) | (5, r, Opnd::Ind(q)) => { let a = reg_differs(ex, q, r); let z = ex.d.is_zero(ws[0]); let z = ex.d.not(z); ex.d.or(a, z) }
            (6, _, Opnd::Index(n, b, k, x, s)) | (7, 3, Opnd::Index(n, b, k, x, s)) => {
                let a = match (e.mode, b) { (6, Some(q)) => reg_differs(ex, q, e.reg), (7, None) => F, _ => T };
                let disp = ex.d.resize(ws[0], 8, false);
                let c = match n { Some(n) => num_differs(ex, n, disp, 8, true), None => { let z = ex.d.is_zero(disp); ex.d.not(z) } };
                let isa = ex.d.bit(ws[0], 15);
                let kd = if *k == 'A' { ex.d.not(isa) } else { isa };
                let num = ex.d.shr(ws[0], 12, false);
                let seven = ex.d.k(16, 7);
                let num = ex.d.and_w(num, seven);
                let rd = match x { RegN::K(v) => { let v = ex.d.k(16, *v as u128); ex.d.diff(v, num, T) } RegN::V(v) => { let v = ex.d.resize(*v, 16, false); ex.d.diff(v, num, T) } };
                let l = ex.d.bit(ws[0], 11);
                let sd = match s { 'L' => ex.d.not(l), 'W' => l, _ => T };
                any(ex, &[a, c, kd, rd, sd])
            }
            (7, 0, Opnd::Abs(n, s)) => if *s == 'W' { num_differs(ex, n, ws[0], 16, false) } else { T },
            (7, 1, Opnd::Abs(n, s)) => if *s == 'L' { let x = both(ex, ws); num_differs(ex, n, x, 32, false) } else { T },
            (7, 4, Opnd::Imm(n)) => { let x = if ws.len() == 2 { both(ex, ws) } else { ws[0] }; num_differs(ex, n, x, *bits, false) }
            _ => T,
        },
        _ => T,
    })
}
fn both(ex: &mut Ex, ws: &[W]) -> W { let h = ex.d.resize(ws[0], 32, false); let h = ex.d.shl(h, 16); let l = ex.d.resize(ws[1], 32, false); ex.d.or_w(h, l) }

fn shown(ex: &mut Ex, t: &[Tok]) -> String { t.iter().map(|t| match t { Tok::C(c) => c.to_string(), Tok::N(w, k) => format!("{{{}{}}}", ex.d.show(*w), if k & HEX != 0 { ":X" } else { "" }) }).collect() }

/// The alternatives of a text, each under its condition.
fn alternatives(ex: &mut Ex, g: B, items: &Items) -> Option<Vec<(B, Vec<Tok>)>> {
    let mut alts: Vec<(B, Vec<Tok>)> = vec![(g, vec![])];
    for (h, v) in items {
        let toks: Vec<(B, Tok)> = match v {
            V::W(w) => { let mut o = vec![]; for (q, l) in ex.d.cases(*w) { let c = ex.d.lconst(l)?; let q = ex.d.and(q, *h); o.push((q, Tok::C(char::from_u32(c as u32)?))); } o }
            V::Agg(a) if a.len() == 2 => { let (w, k) = (ex.w(&a[0]), ex.w(&a[1])); let k = ex.d.as_const(k)?; vec![(*h, Tok::N(w, k))] }
            _ => return None,
        };
        let mut nx = vec![];
        for (ag, ts) in alts {
            let mut rest = ag;
            for (q, t) in &toks {
                let y = ex.d.and(ag, *q);
                if y != F { let mut ts2 = ts.clone(); ts2.push(t.clone()); nx.push((y, ts2)); }
                let nq = ex.d.not(*q);
                rest = ex.d.and(rest, nq);
            }
            if rest != F { nx.push((rest, ts)); }
        }
        if nx.len() > 512 { return None; }
        alts = nx;
    }
    Some(alts)
}

fn compare<'p>(cm: &mut Cmp<'_, 'p>, op: u32, g: B, text: &V, ext: &dyn Fn(&mut Ex<'p>, u32) -> W, pc: W, site: &str) {
    let V::Coll(c) = text else { lost(cm.rep, &format!("{op:04x}: the text is not understood")); return };
    let Some(alts) = alternatives(cm.ex, g, &c.items) else { lost(cm.rep, &format!("{op:04x}: the text is not understood")); return };
    let Some(i) = decode(op as u16) else {
        // an unknown word: its value and address appear
        let mut bad = F;
        for (ag, ts) in &alts {
            let s: String = ts.iter().map(|t| match t { Tok::C(c) => c.to_ascii_uppercase(), _ => ' ' }).collect();
            let word = s.contains(&format!("{op:X}")) || s.contains(&format!("{op}"));
            let mut miss = if word { F } else { T };
            let mut addr = T;
            for t in ts { if let Tok::N(w, _) = t { if cm.ex.d.width(*w) == 32 { let d = cm.ex.d.diff(*w, pc, *ag); addr = cm.ex.d.and(addr, d); } } }
            if addr != T { miss = cm.ex.d.or(miss, addr); }
            let b = cm.ex.d.and(*ag, miss);
            bad = cm.ex.d.or(bad, b);
        }
        cm.never("C38", bad, "unknown word", &|_| "the text of an undefined word does not give the word and its address".into(), site);
        return;
    };
    let e = expected(cm.ex, &i, ext, pc);
    let mn = format!("{:?}", i.mn);
    for (ag, ts) in alts {
        let mut p = P { t: ts.clone(), i: 0 };
        p.ws();
        let mut name = String::new();
        while let Some(c) = p.peek() { if !c.is_ascii_alphanumeric() { break; } name.push(c.to_ascii_uppercase()); p.i += 1; }
        let line = shown(cm.ex, &ts);
        if std::env::var("TEXTDBG").is_ok() { eprintln!("TEXT {op:04x} {line}"); }
        let bad = if e.names.contains(&name) { F } else { ag };
        cm.never("C38", bad, &format!("{mn} name"), &|_| format!("the text `{line}` does not name {}", e.names[0]), site);
        let mut size = None;
        if p.peek() == Some('.') { p.i += 1; size = p.peek().map(|c| c.to_ascii_uppercase()); p.i += 1; }
        let bad = match (size, e.size) { (Some(a), Some(b)) => if a == b { F } else { ag }, (None, _) => if e.required { ag } else { F }, (Some(_), None) => F };
        cm.never("C38", bad, &format!("{mn} size"), &|_| format!("the text `{line}` gives the size {:?}, the instruction's is {:?}", size, e.size), site);
        let mut ops = vec![];
        let mut understood = true;
        if !p.end() {
            loop {
                match p.operand() { Some(o) => ops.push(o), None => { understood = false; break; } }
                if p.end() { break; }
                if !p.eat(',') { understood = false; break; }
            }
        }
        if !understood {
            // not in the syntax: a register list is not compared, anything else is wrong
            if i.mn == Mn::Movem { lost(cm.rep, &format!("{op:04x}: `{line}`")); continue; }
            cm.never("C38", ag, &format!("{mn} syntax"), &|_| format!("the text `{line}` is not an instruction"), site);
            continue;
        }
        let bad = if ops.len() == e.ops.len() { F } else { ag };
        if !cm.never("C38", bad, &format!("{mn} operands"), &|_| format!("the text `{line}` has {} operands, the instruction {}", ops.len(), e.ops.len()), site) { continue; }
        for (k, (o, w)) in ops.iter().zip(&e.ops).enumerate() {
            let Some(d) = differs(cm.ex, o, w) else { lost(cm.rep, &format!("{op:04x}: operand {k} of `{line}`")); continue };
            let bad = cm.ex.d.and(ag, d);
            cm.never("C38", bad, &format!("{mn} operand {k}"), &|_| format!("operand {} of the text `{line}` does not denote {}", k + 1, want_name(w)), site);
        }
    }
}
fn want_name(w: &Want) -> String {
    match w {
        Want::D(n) => format!("D{n}"), Want::A(n) => format!("A{n}"), Want::Pre(n) => format!("-(A{n})"), Want::Post(n) => format!("(A{n})+"),
        Want::Ea(e, ..) => format!("the operand with mode {} register {}", e.mode, e.reg),
        Want::Imm(..) => "the immediate".into(), Want::K(k) => format!("#{k}"), Want::DispA(_, r) => format!("(d16,A{r})"), Want::List(_) => "the register list".into(),
        Want::Branch { .. } => "the branch displacement and target".into(), Want::Name(n) => n.to_string(),
    }
}

// ---------------------------------------------------------------- jobs
pub fn texts(p: &Prog, want: &(dyn Fn(&str) -> bool + Sync)) -> Total {
    let mut jobs: Vec<u32> = (0..1024).collect();
    if let Ok(s) = std::env::var("TEXTOP") { jobs = s.split(',').map(|x| u32::from_str_radix(x, 16).unwrap() | 0x10000).collect(); }
    let mut t = par(p, &jobs, &|ex, hi, rep| {
        let ops: Vec<u32> = if hi & 0x10000 != 0 { vec![hi & 0xffff] } else { (0..64).map(|l| hi * 64 + l).collect() };
        for op in ops { if let Err(e) = one(ex, rep, op, want) { lost(rep, &e); } }
        "disassembler".into()
    });
    t.instr = jobs.len() as u64 * 64;
    // the step that also disassembles gives the address and the text of the instruction it executes
    let cs = cpus(p);
    let mut steps: Vec<(usize, u32)> = vec![];
    for c in 0..cs.len() { for j in &jobs { if j & 0x10000 != 0 { steps.push((c, j & 0xffff)); } else { for l in 0..64 { steps.push((c, j * 64 + l)); } } } }
    shuffle(&mut steps);
    let u = par(p, &steps, &|ex, (c, op), rep| { if let Err(e) = stepped(ex, rep, &cs[*c], *op, want) { lost(rep, &e); } mn_of(*op) });
    let n = t.instr + steps.len() as u64;
    t.join(u);
    t.instr = n;
    t
}
fn stepped<'p>(ex: &mut Ex<'p>, rep: &mut Report, c: &Cpu, op: u32, want: &(dyn Fn(&str) -> bool + Sync)) -> Result<(), String> {
    let p = ex.p;
    let w = |x: &str| want(x);
    ex.accept = true;
    ex.opcode = op;
    if let Some(i) = decode(op as u16) { crate::spec::hints(&mut ex.d, &i); }
    let st = ex.machine(c.core, false);
    let pc = ex.d.word(W_PC, 32, "pc");
    ex.pc_term = ex.d.as_leaf(pc);
    let dis = c.dis.ok_or("no disassembling step")?;
    let (a, m) = (ex.obj_ptr(0), ex.obj_ptr(1));
    ex.hooks = Some(hook());
    let r = ex.call(dis, vec![a, m], st, 0);
    ex.hooks = None;
    let Some((V::Agg(r), st)) = r else { return Err(format!("{op:04x}: the step has no outcome")) };
    let f = &p.fns[dis as usize];
    let site = format!("{} ({}:{})", f.path, p.files[f.file as usize], f.line);
    let mn = mn_of(op);
    let tag = format!("{} opcode {op:04x} ({mn})", c.name);
    let mut cm = Cmp { ex, rep, tag, want: &w };
    let odd = cm.ex.d.bit(pc, 0);
    let even = cm.ex.d.not(odd);
    let g = cm.ex.d.and(st.g, even);
    let addr = cm.ex.w(r.first().ok_or("result")?);
    let bad = cm.ex.d.diff(addr, pc, g);
    cm.never("C38", bad, "step address", &|_| "the address returned is not that of the instruction executed".into(), &site);
    let ext = |ex: &mut Ex<'p>, n: u32| { let x = ex.d.word(W_DATA + n, 32, &format!("mem#{n}")); ex.d.resize(x, 16, false) };
    let text = r.get(1).cloned().ok_or("result")?;
    compare(&mut cm, op, g, &text, &ext, pc, &site);
    // nothing was executed: no text
    let g = cm.ex.d.and(st.g, odd);
    let V::Coll(t) = &text else { return Ok(()) };
    let mut some = F;
    for (h, _) in &t.items { some = cm.ex.d.or(some, *h); }
    let bad = cm.ex.d.and(some, g);
    cm.never("C38", bad, "step text", &|_| "gives a text although no instruction was executed".into(), &site);
    Ok(())
}
fn one<'p>(ex: &mut Ex<'p>, rep: &mut Report, op: u32, want: &(dyn Fn(&str) -> bool + Sync)) -> Result<(), String> {
    let p = ex.p;
    let w = |x: &str| want(x);
    let fetch = p.fns.iter().position(|f| f.local_crate && f.ok && f.path == "instruction::Instruction::from_memory").ok_or("no Instruction::from_memory")? as FnId;
    let dis = root(p, &["fn:instruction::Instruction::disassemble$"]).or_else(|| p.fns.iter().position(|f| f.ok && f.path == "instruction::Instruction::disassemble").map(|i| i as FnId)).ok_or("no Instruction::disassemble")?;
    let ity = pointee(p, p.fns[fetch as usize].locals[1]);
    let TyK::Adt { variants, .. } = &p.ty(ity).k else { return Err("iterator".into()) };
    ex.d.reset();
    ex.events.clear(); ex.panics.clear(); ex.sym_cache.clear();
    ex.opcode = op;
    ex.accept = true;
    let pc = ex.d.word(W_PC, 32, "pc");
    ex.pc_term = ex.d.as_leaf(pc);
    let ord = ex.d.k(16, 0);
    let mem = ex.obj_ptr(1);
    let fields: Vec<V> = variants[0].fields.iter().map(|t| match &p.ty(*t).k { TyK::Ptr { .. } => mem.clone(), _ => V::W(pc) }).collect();
    let mut tys = vec![ity; 32];
    let ret = p.fns[fetch as usize].locals[0];
    tys[2] = ret;
    let mut vals = vec![V::Un; 32];
    vals[0] = V::Agg(Rc::new(fields));
    vals[1] = V::Top;
    let even = { let b = ex.d.bit(pc, 0); ex.d.not(b) };
    let st = St { g: even, fr: vec![Rc::new(Frame { tys: leak_tys(tys.clone()), vals })], ord };
    let it = ex.obj_ptr(0);
    let Some((r, mut st)) = ex.call(fetch, vec![it], st, 0) else { return Err(format!("{op:04x}: never decoded")) };
    let V::En(r) = r else { return Err(format!("{op:04x}: decoding result")) };
    let ok = ex.d.is_zero(r.disc);
    st.g = ex.d.and(st.g, ok);
    if st.g == F { return Err(format!("{op:04x}: never decoded")); }
    let Some(inst) = r.pay[0].as_ref().and_then(|v| v.first()).cloned() else { return Err("decoding result".into()) };
    let iy = pointee(p, p.fns[dis as usize].locals[1]);
    tys[2] = iy;
    let fr = Rc::make_mut(&mut st.fr[0]);
    fr.tys = leak_tys(tys);
    fr.vals[2] = inst;
    ex.panics.clear();
    let iv = ex.obj_ptr(2);
    let g0 = st.g;
    ex.hooks = Some(hook());
    let r = ex.call(dis, vec![iv], st, 0);
    ex.hooks = None;
    let f = &p.fns[dis as usize];
    let site = format!("{} ({}:{})", f.path, p.files[f.file as usize], f.line);
    let mn = decode(op as u16).map(|i| format!("{:?}", i.mn)).unwrap_or("unknown".into());
    let site = ex.calls_seen.keys().copied().find(|f| p.fns[*f as usize].path == format!("disassembler::disassemble_{}", mn.to_lowercase())).map(|f| { let f = &p.fns[f as usize]; format!("{} ({}:{})", f.path, p.files[f.file as usize], f.line) }).unwrap_or(site);
    let mut cm = Cmp { ex, rep, tag: format!("{op:04x} {mn}"), want: &w };
    let pans = cm.ex.panics.clone();
    if pans.is_empty() { cm.rep.ok("C38"); }
    for q in pans { let s = cm.site_of(&q.site); let m = q.msg.clone(); cm.never("C38", q.g, &format!("{mn} panic {m}"), &|_| format!("panics: {m}"), &s); }
    let Some((v, st)) = r else { return Ok(()) };
    let _ = g0;
    let ext = |ex: &mut Ex<'p>, n: u32| { let x = ex.d.word(W_DATA + n, 32, &format!("mem#{n}")); ex.d.resize(x, 16, false) };
    compare(&mut cm, op, st.g, &v, &ext, pc, &site);
    Ok(())
}
