//! C34: the binary interface of the C interface crate as the compiler lays it out.
use rustc_hir::def::DefKind;
use rustc_middle::ty::layout::LayoutCx;
use rustc_middle::ty::{self, Instance, Ty as RTy, TyCtxt, TypingEnv};
use rustc_abi::Variants;
use std::collections::BTreeMap;

fn env<'tcx>() -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }
fn q(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }

pub struct Abi<'tcx> { tcx: TyCtxt<'tcx>, types: BTreeMap<String, String>, open: Vec<String> }

fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() { if c.is_uppercase() && i > 0 { o.push('_'); } o.extend(c.to_lowercase()); }
    o
}

impl<'tcx> Abi<'tcx> {
    /// The name a type has in the C headers.
    fn cname(&self, def: ty::AdtDef<'tcx>, args: ty::GenericArgsRef<'tcx>) -> String {
        let n = self.tcx.item_name(def.did()).to_string();
        if n.ends_with("_t") { return n; }
        if n == "M68000" { if let Some(t) = args.types().next() { if let ty::Adt(c, _) = t.kind() { return format!("m68000_{}_t", self.tcx.item_name(c.did()).as_str().to_lowercase()); } } }
        format!("m68000_{}_t", snake(&n))
    }
    /// A type written in C, around the declarator `d`.
    fn c(&mut self, t: RTy<'tcx>, d: &str) -> String {
        let tcx = self.tcx;
        let t = tcx.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(t)).unwrap_or(t);
        match t.kind() {
            ty::Bool => format!("bool {d}"),
            ty::Int(_) | ty::Uint(_) => {
                let n = t.to_string();
                // c_char is i8 here: either spelling will do
                let c = match n.as_str() { "usize" => "size_t".to_string(), "isize" => "ptrdiff_t".into(), "i8" => "SCHAR".into(), _ => format!("{}int{}_t", if n.starts_with('u') { "u" } else { "" }, &n[1..]) };
                format!("{c} {d}")
            }
            ty::Tuple(l) if l.is_empty() => format!("void {d}"),
            ty::Never => format!("void {d}"),
            ty::RawPtr(t, _) | ty::Ref(_, t, _) => { if let ty::Array(..) | ty::FnPtr(..) = t.kind() { self.c(*t, &format!("(*{d})")) } else { self.c(*t, &format!("*{d}")) } }
            ty::Array(t, n) => { let n = n.try_to_target_usize(tcx).unwrap_or(0); self.c(*t, &format!("{d}[{n}]")) }
            ty::FnPtr(..) => {
                let sig = t.fn_sig(tcx).skip_binder();
                let a: Vec<String> = sig.inputs().iter().map(|t| self.c(*t, "")).collect();
                let a = if a.is_empty() { "void".to_string() } else { a.join(", ") };
                self.c(sig.output(), &format!("(*{d})({a})"))
            }
            ty::Adt(def, args) => {
                let n = tcx.item_name(def.did()).to_string();
                if n == "c_void" { return format!("void {d}"); }
                if def.repr().transparent() || (n == "Wrapping" && def.is_struct()) { if let Some(f) = def.non_enum_variant().fields.iter().next() { let t = f.ty(tcx, args).skip_norm_wip(); return self.c(t, d); } }
                if n == "Option" { if let Some(t) = args.types().next() { if matches!(t.kind(), ty::FnPtr(..) | ty::Ref(..)) { return self.c(t, d); } } }
                if n == "Box" { if let Some(t) = args.types().next() { return self.c(t, &format!("*{d}")); } }
                let n = self.cname(*def, args);
                self.adt(&n, t);
                format!("{n} {d}")
            }
            _ => format!("UNSUPPORTED_{} {d}", t.to_string().replace(|c: char| !c.is_alphanumeric(), "_")),
        }
    }
    fn adt(&mut self, n: &str, t: RTy<'tcx>) {
        if self.types.contains_key(n) || self.open.iter().any(|o| o == n) { return; }
        let tcx = self.tcx;
        let ty::Adt(def, args) = t.kind() else { return };
        let Ok(l) = tcx.layout_of(env().as_query_input(t)) else { return };
        self.open.push(n.to_string());
        let opaque = !def.repr().c();
        let mut vs = vec![];
        let cx = LayoutCx::new(tcx, env());
        if !opaque {
            for (vi, v) in def.variants().iter_enumerated() {
                let vl = match l.variants { Variants::Multiple { .. } => l.for_variant(&cx, vi), _ => l };
                let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                let fs: Vec<String> = v.fields.iter_enumerated().map(|(fi, f)| {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let c = self.c(ft, "");
                    let size = tcx.layout_of(env().as_query_input(ft)).map(|l| l.size.bytes()).unwrap_or(0);
                    format!("{{\"name\":{},\"offset\":{},\"size\":{size},\"type\":{}}}", q(f.name.as_str()), vl.fields.offset(fi.as_usize()).bytes(), q(c.trim()))
                }).collect();
                vs.push(format!("{{\"name\":{},\"value\":{discr},\"fields\":[{}]}}", q(v.name.as_str()), fs.join(",")));
            }
        }
        let kind = if opaque { "opaque" } else if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        self.types.insert(n.to_string(), format!("{{\"kind\":\"{kind}\",\"rust\":{},\"size\":{},\"align\":{},\"variants\":[{}]}}", q(&tcx.def_path_str(def.did())), l.size.bytes(), l.align.abi.bytes(), vs.join(",")));
    }
}

pub fn describe(tcx: TyCtxt<'_>) -> String {
    let mut a = Abi { tcx, types: BTreeMap::new(), open: vec![] };
    let mut fns = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) || tcx.generics_of(d).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
        if !tcx.codegen_fn_attrs(d).contains_extern_indicator() && !tcx.visibility(d).is_public() { continue; }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let abi = format!("{:?}", sig.abi());
        if !abi.starts_with("C") { continue; }
        let sym = tcx.symbol_name(Instance::mono(tcx, d)).name.to_string();
        let n = tcx.item_name(d).to_string();
        let args: Vec<String> = sig.inputs().iter().map(|t| a.c(*t, "")).collect();
        let args = if args.is_empty() { "void".to_string() } else { args.join(", ") };
        let ret = a.c(sig.output(), &format!("FN({args})"));
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).source_callsite().lo());
        fns.push(format!("{{\"name\":{},\"symbol\":{},\"abi\":{},\"type\":{},\"site\":{}}}", q(&n), q(&sym), q(&abi), q(&ret), q(&format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line))));
    }
    // the types of the emulator that are made C compatible for this crate, used in a signature or not
    let mut extra = vec![];
    for c in tcx.crates(()) {
        if tcx.crate_name(*c).as_str() != "m68000" { continue; }
        let mut todo = vec![c.as_def_id()];
        let mut seen = std::collections::HashSet::new();
        while let Some(m) = todo.pop() {
            for ch in tcx.module_children(m) {
                let Some(d) = ch.res.opt_def_id() else { continue };
                if !d.is_local() && d.krate == *c && seen.insert(d) {
                    match tcx.def_kind(d) {
                        DefKind::Mod => todo.push(d),
                        DefKind::Struct | DefKind::Enum | DefKind::Union => extra.push(d),
                        _ => {}
                    }
                }
            }
        }
    }
    let mut exported = vec![];
    for d in extra {
        let def = tcx.adt_def(d);
        if !tcx.generics_of(d).own_params.is_empty() { continue; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ty::Adt(_, args) = t.kind() else { continue };
        let n = a.cname(def, args);
        exported.push(q(&n));
        a.adt(&n, t);
    }
    let ts: Vec<String> = a.types.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect();
    format!("{{\"types\":{{{}}},\"emulator\":[{}],\"fns\":[{}]}}\n", ts.join(","), exported.join(","), fns.join(","))
}
