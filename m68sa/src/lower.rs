//! rustc MIR (monomorphised on demand from a set of roots) -> owned IR.
use crate::ir::*;
use rustc_abi::{TagEncoding, VariantIdx, Variants, FieldsShape};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Instance, Ty as RTy, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, VecDeque};

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub prog: Prog,
    ty_map: HashMap<RTy<'tcx>, TyId>,
    fn_map: HashMap<Instance<'tcx>, FnId>,
    queue: VecDeque<(FnId, Instance<'tcx>)>,
    alloc_map: HashMap<AllocId, AllocIx>,
    file_map: HashMap<String, u16>,
    pub mem_trait: Option<DefId>,
    pub mem_ty: Option<RTy<'tcx>>,
    /// Function paths that stay calls to a named model even though a body exists.
    pub opaque: Vec<String>,
    /// Callees replaced by a named model (for run-loop analysis).
    pub verbose: bool,
}

fn env<'tcx>() -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Lower { tcx, prog: Prog::default(), ty_map: HashMap::new(), fn_map: HashMap::new(), queue: VecDeque::new(), alloc_map: HashMap::new(),
            file_map: HashMap::new(), mem_trait: None, mem_ty: None, opaque: vec![], verbose: false }
    }

    fn span(&mut self, sp: Span) -> (u16, u32) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() { return (self.file("<none>"), 0); }
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (self.file(&f), loc.line as u32)
    }
    fn file(&mut self, f: &str) -> u16 {
        if let Some(x) = self.file_map.get(f) { return *x; }
        let i = self.prog.files.len() as u16;
        self.prog.files.push(f.to_string());
        self.file_map.insert(f.to_string(), i);
        i
    }

    fn norm(&self, t: RTy<'tcx>) -> RTy<'tcx> {
        self.tcx.normalize_erasing_regions(env(), ty::Unnormalized::dummy(t))
    }

    pub fn ty(&mut self, t: RTy<'tcx>) -> TyId {
        let t = self.norm(t);
        if let Some(i) = self.ty_map.get(&t) { return *i; }
        let id = self.prog.tys.len() as TyId;
        self.ty_map.insert(t, id);
        let name = format!("{t}");
        self.prog.tys.push(Ty { k: TyK::Opaque(name.clone()), size: 0, sized: true, name: name.clone() });
        let tcx = self.tcx;
        let lay = tcx.layout_of(env().as_query_input(t)).ok();
        let (size, sized) = lay.map(|l| (l.size.bytes(), l.is_sized())).unwrap_or((0, true));
        let k = match t.kind() {
            ty::Bool => TyK::Bool,
            ty::Char => TyK::Char,
            ty::Int(i) => TyK::Int { w: i.bit_width().unwrap_or(64) as u32, signed: true },
            ty::Uint(i) => TyK::Int { w: i.bit_width().unwrap_or(64) as u32, signed: false },
            ty::Float(f) => TyK::Float(f.bit_width() as u32),
            ty::Never => TyK::Never,
            ty::Str => TyK::Str,
            ty::Slice(e) => TyK::Slice { elem: self.ty(*e) },
            ty::Array(e, n) => match n.try_to_target_usize(tcx) { Some(len) => TyK::Array { elem: self.ty(*e), len }, None => TyK::Opaque(name.clone()) },
            ty::RawPtr(p, _) | ty::Ref(_, p, _) => TyK::Ptr { to: self.ty(*p) },
            ty::Pat(b, _) => { let b = self.ty(*b); self.prog.tys[b as usize].k.clone() }
            ty::FnPtr(..) => TyK::FnPtr,
            ty::FnDef(..) => TyK::Opaque(name.clone()), // replaced below
            ty::Tuple(fs) => { let fs: Vec<_> = fs.iter().map(|f| self.ty(f)).collect(); self.plain(&name, fs, t, lay) }
            ty::Closure(_, args) => {
                let fs: Vec<_> = args.as_closure().upvar_tys().iter().map(|f| self.ty(f)).collect();
                self.plain(&name, fs, t, lay)
            }
            ty::Adt(def, args) => {
                let mut variants = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let fields: Vec<TyId> = v.fields.iter().map(|f| { let ft = f.ty(tcx, args); let ft = tcx.normalize_erasing_regions(env(), ft); self.ty(ft) }).collect();
                    let fnames = v.fields.iter().map(|f| f.name.to_string()).collect();
                    let offsets = self.offsets(t, lay, vi, fields.len());
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    variants.push(Variant { name: v.name.to_string(), fields, fnames, offsets, discr });
                }
                let tag = match lay.map(|l| &l.layout.0.0.variants) {
                    Some(Variants::Single { index }) => Tag::Single(index.as_u32()),
                    Some(Variants::Multiple { tag, tag_encoding, tag_field, .. }) => {
                        let l = lay.unwrap();
                        let off = l.fields.offset(tag_field.as_usize()).bytes();
                        let w = tag.size(&tcx).bits() as u32;
                        match tag_encoding {
                            TagEncoding::Direct => Tag::Direct { off, w },
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                                Tag::Niche { off, w, untagged: untagged_variant.as_u32(), first: niche_variants.start.as_u32(), last: niche_variants.last.as_u32(), start: *niche_start },
                        }
                    }
                    _ => Tag::None,
                };
                TyK::Adt { name: tcx.def_path_str(def.did()), is_enum: def.is_enum(), is_union: def.is_union(), variants, tag }
            }
            _ => TyK::Opaque(name.clone()),
        };
        self.prog.tys[id as usize] = Ty { k, size, sized, name: name.clone() };
        if let Some(n) = name.strip_prefix("m68000::") { self.prog.ty_names.insert(n.to_string(), id); }
        self.prog.ty_names.insert(name, id);
        if let ty::FnDef(def, args) = t.kind() {
            let c = self.callee_of((*def).into(), args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
            self.prog.tys[id as usize].k = TyK::FnDef(c);
        }
        if let ty::Closure(def, args) = t.kind() {
            // Record the closure body so that models can call it.
            let inst = Instance::new_raw((*def).into(), args);
            let f = self.func(inst);
            let nm = format!("closure:{}", self.prog.tys[id as usize].name);
            self.prog.roots.insert(nm, f);
        }
        id
    }
    fn plain(&mut self, name: &str, fs: Vec<TyId>, t: RTy<'tcx>, lay: Option<ty::layout::TyAndLayout<'tcx>>) -> TyK {
        let offsets = self.offsets(t, lay, VariantIdx::from_u32(0), fs.len());
        let fnames = (0..fs.len()).map(|i| i.to_string()).collect();
        TyK::Adt { name: name.to_string(), is_enum: false, is_union: false, variants: vec![Variant { name: String::new(), fields: fs, fnames, offsets, discr: 0 }], tag: Tag::Single(0) }
    }
    fn offsets(&self, t: RTy<'tcx>, lay: Option<ty::layout::TyAndLayout<'tcx>>, v: VariantIdx, n: usize) -> Vec<u64> {
        let Some(l) = lay else { return vec![0; n] };
        let cx = ty::layout::LayoutCx::new(self.tcx, env());
        let _ = t;
        let l = match &l.layout.0.0.variants {
            Variants::Multiple { .. } => l.for_variant(&cx, v),
            Variants::Single { index } if *index == v => l,
            Variants::Single { .. } => return vec![0; n],
            Variants::Empty => return vec![0; n],
        };
        match &l.fields {
            FieldsShape::Arbitrary { .. } => (0..n).map(|i| if i < l.fields.count() { l.fields.offset(i).bytes() } else { 0 }).collect(),
            _ => vec![0; n],
        }
    }

    fn callee_of(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Callee {
        let tcx = self.tcx;
        // Overridden iterator methods of the library's slice, vector and set iterators are equivalent to
        // the trait's own default bodies, which only use the step functions that are modelled.
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let it = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator")) == Some(tr);
            if it && tcx.is_mir_available(def) && matches!(tcx.item_name(def).as_str(), "find" | "any" | "all" | "fold" | "for_each" | "position" | "try_fold" | "try_for_each" | "find_map" | "count" | "last" | "nth" | "max" | "min" | "max_by" | "min_by" | "max_by_key" | "min_by_key" | "partition" | "reduce") {
                if let Some(ty::Adt(d, _)) = args.types().next().map(|t| self.norm(t).kind()) {
                    let p = tcx.def_path_str(d.did());
                    if matches!(p.as_str(), "std::slice::Iter" | "std::vec::IntoIter" | "std::array::IntoIter" | "std::collections::btree_set::Iter" | "std::collections::btree_set::IntoIter") {
                        if p == "std::slice::Iter" && !args.types().next().map(|t| t.walk().any(|x| matches!(x.as_type().map(|t| *t.kind()), Some(ty::Adt(d, _)) if ours(tcx, d.did())))).unwrap_or(false) { return self.resolved(def, args); }
                        return Callee::Fn(self.func(Instance::new_raw(def, args)));
                    }
                }
            }
        }
        self.resolved(def, args)
    }
    fn resolved(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Callee {
        let tcx = self.tcx;
        match Instance::try_resolve(tcx, env(), def, args) {
            Ok(Some(inst)) => self.callee_inst(inst),
            _ => Callee::Model(format!("unresolved:{}", tcx.def_path_str(def))),
        }
    }

    pub fn callee_inst(&mut self, inst: Instance<'tcx>) -> Callee {
        let tcx = self.tcx;
        let def = inst.def_id();
        match inst.def {
            ty::InstanceKind::Intrinsic(d) => {
                // Intrinsics with a fallback body are still handled by name.
                return Callee::Intrinsic(tcx.item_name(d).to_string());
            }
            ty::InstanceKind::Virtual(..) | ty::InstanceKind::LlvmIntrinsic(_) => return Callee::Model(format!("virtual:{}", tcx.def_path_str(def))),
            _ => {}
        }
        if matches!(inst.def, ty::InstanceKind::Item(_)) {
            if let Some(k) = self.mem_kind(inst) { return Callee::Mem(k); }
        }
        let path = tcx.def_path_str(def);
        let local = ours(tcx, def);
        if let ty::InstanceKind::Item(d) = inst.def {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().output().skip_binder();
                if sig.is_never() && !local { return Callee::Panic(path); }
            }
        }
        if self.opaque.iter().any(|o| path == *o) { return Callee::Model(path); }
        if !local {
            let p = path.as_str();
            let model = ["std::slice::<impl [T]>", "std::collections", "alloc::", "std::vec", "std::string", "std::boxed", "std::fmt", "core::fmt", "std::alloc", "std::fmt::", "core::str", "std::str", "std::ffi", "std::io", "std::rc", "std::sync", "std::cell", "std::panicking", "std::thread", "std::time", "std::env", "core::unicode"];
            if model.iter().any(|m| p.starts_with(m) || p.starts_with(&format!("<{m}"))) || p.contains("BTreeSet") || p.contains("Vec<") || p.contains("::fmt::") || p.contains("String") {
                self.model_roots(inst);
                return Callee::Model(path);
            }
            let has = match inst.def {
                ty::InstanceKind::Item(d) => tcx.is_mir_available(d) || matches!(tcx.def_kind(d), DefKind::Ctor(..)),
                ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
                _ => true,
            };
            if !has { return Callee::Model(path); }
        }
        Callee::Fn(self.func(inst))
    }

    /// Element orderings and iterator steps that the container models call back.
    fn model_roots(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let ord = tcx.lang_items().iter().find(|(_, d)| tcx.def_path_str(*d) == "std::cmp::Ord").map(|x| x.1).or_else(|| tcx.get_diagnostic_item(rustc_span::Symbol::intern("Ord")));
        let iter = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator"));
        let tys: Vec<RTy<'tcx>> = inst.args.types().collect();
        for t in tys {
            let t = self.norm(t);
            let id = self.ty(t);
            let nm = self.prog.tys[id as usize].name.clone();
            for (tr, m, pre) in [(ord, "cmp", "ord"), (iter, "next", "next")] {
                let Some(tr) = tr else { continue };
                let key = format!("{pre}:{nm}");
                if self.prog.roots.contains_key(&key) { continue; }
                if pre == "ord" && !matches!(t.kind(), ty::Adt(d, _) if ours(tcx, d.did())) { continue; }
                let Some(item) = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == m) else { continue };
                let Some(a) = impl_args(tcx, tr, t) else { continue };
                let c = self.callee_of(item.def_id, a);
                let f = match c { Callee::Fn(f) => f, Callee::Model(n) => { self.prog.model_next.insert(nm.clone(), n); continue } _ => continue };
                self.prog.roots.insert(key, f);
            }
        }
    }

    fn mem_kind(&self, inst: Instance<'tcx>) -> Option<MemK> {
        let tcx = self.tcx;
        let tr = self.mem_trait?;
        let def = inst.def_id();
        let item = tcx.opt_associated_item(def)?;
        let (trait_item, self_ty) = if item.container_id(tcx) == tr {
            (def, inst.args.type_at(0))
        } else {
            let imp = item.container_id(tcx);
            if !matches!(tcx.def_kind(imp), DefKind::Impl { of_trait: true }) { return None; }
            let trf = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args).skip_norm_wip();
            if trf.def_id != tr { return None; }
            (item.trait_item_def_id()?, trf.self_ty())
        };
        if let Some(m) = self.mem_ty { if self.norm(self_ty) != m { return None; } } else { return None; }
        Some(match tcx.item_name(trait_item).as_str() {
            "get_byte" => MemK::GetByte, "get_word" => MemK::GetWord, "get_long" => MemK::GetLong,
            "set_byte" => MemK::SetByte, "set_word" => MemK::SetWord, "set_long" => MemK::SetLong,
            "reset_instruction" => MemK::Reset,
            _ => return None,
        })
    }

    pub fn func(&mut self, inst: Instance<'tcx>) -> FnId {
        let inst = Instance { def: inst.def, args: self.tcx.erase_and_anonymize_regions(inst.args) };
        if let Some(f) = self.fn_map.get(&inst) { return *f; }
        let id = self.prog.fns.len() as FnId;
        let path = self.tcx.def_path_str(inst.def_id());
        self.prog.fns.push(Func { name: format!("{inst}"), path, ..Default::default() });
        self.fn_map.insert(inst, id);
        self.queue.push_back((id, inst));
        id
    }

    pub fn run(&mut self) {
        while let Some((id, inst)) = self.queue.pop_front() { self.body(id, inst); }
    }

    fn body(&mut self, id: FnId, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        if let ty::InstanceKind::Item(d) = inst.def {
            let ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
            if !ctor && !tcx.is_mir_available(d) { return; }
        }
        let body0 = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env(), ty::EarlyBinder::bind(tcx, body0.clone()));
        let (file, line) = self.span(tcx.def_span(inst.def_id()));
        let mut f = Func { name: format!("{inst}"), path: tcx.def_path_str(inst.def_id()), nargs: body.arg_count, file, line, local_crate: ours(tcx, inst.def_id()), spread: body.spread_arg.map(|l| l.as_u32()), closure: matches!(inst.def, ty::InstanceKind::Item(_)) && tcx.is_closure_like(inst.def_id()), ok: true, ..Default::default() };
        for l in body.local_decls.iter() { let t = self.ty(l.ty); f.locals.push(t); }
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let st = self.stmt(&body, &s.kind);
                if matches!(st, Stmt::Nop) { continue; }
                let (_, ln) = self.span(s.source_info.span);
                stmts.push((st, ln));
            }
            let t = bb.terminator();
            let (fi, line) = self.span(t.source_info.span);
            let term = self.term(&body, t);
            f.blocks.push(Block { stmts, term, line, file: fi });
        }
        f.order = wto(&f.blocks);
        self.prog.fns[id as usize] = f;
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> Place {
        let _ = body;
        let mut proj = vec![];
        for e in p.projection.iter() {
            proj.push(match e {
                mir::ProjectionElem::Deref => Proj::Deref,
                mir::ProjectionElem::Field(f, t) => Proj::Field(f.as_u32(), self.ty(t)),
                mir::ProjectionElem::Index(l) => Proj::Index(l.as_u32()),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => Proj::ConstIndex { off: offset, from_end },
                mir::ProjectionElem::Subslice { from, to, from_end } => Proj::Subslice { from, to, from_end },
                mir::ProjectionElem::Downcast(_, v) => Proj::Downcast(v.as_u32()),
                mir::ProjectionElem::OpaqueCast(_) | mir::ProjectionElem::UnwrapUnsafeBinder(_) => continue,
                _ => Proj::Other,
            });
        }
        Place { local: p.local.as_u32(), proj }
    }

    fn scalar(&mut self, s: Scalar, t: TyId) -> CVal {
        match s {
            Scalar::Int(i) => CVal::Int(i.size().bits() as u32, i.to_bits(i.size())),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.ptr_const(prov.alloc_id(), off.bytes(), t)
            }
        }
    }
    fn ptr_const(&mut self, a: AllocId, off: u64, _t: TyId) -> CVal {
        match self.tcx.global_alloc(a) {
            GlobalAlloc::Function { instance } => CVal::Callee(self.callee_inst(instance)),
            _ => match self.alloc(a) { Some(ix) => CVal::Ptr { alloc: ix, off, meta: None }, None => CVal::Top },
        }
    }
    pub fn alloc(&mut self, a: AllocId) -> Option<AllocIx> {
        if let Some(i) = self.alloc_map.get(&a) { return Some(*i); }
        let (ca, name) = match self.tcx.global_alloc(a) {
            GlobalAlloc::Memory(m) => (m, String::new()),
            GlobalAlloc::Static(d) => {
                if self.tcx.is_foreign_item(d) { return None; }
                (self.tcx.eval_static_initializer(d).ok()?, self.tcx.def_path_str(d))
            }
            _ => return None,
        };
        let ix = self.prog.allocs.len() as AllocIx;
        self.prog.allocs.push(GAlloc::default());
        self.alloc_map.insert(a, ix);
        let inner = ca.inner();
        let bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len()).to_vec();
        let mut relocs = std::collections::BTreeMap::new();
        for (o, p) in inner.provenance().ptrs().iter() {
            let o = o.bytes();
            let add = u64::from_le_bytes(bytes[o as usize..o as usize + 8].try_into().unwrap());
            let id = p.alloc_id();
            let r = match self.tcx.global_alloc(id) {
                GlobalAlloc::Function { instance } => Reloc::Callee(self.callee_inst(instance)),
                GlobalAlloc::Memory(_) | GlobalAlloc::Static(_) => match self.alloc(id) { Some(x) => Reloc::Alloc(x, add), None => Reloc::Other },
                _ => Reloc::Other,
            };
            relocs.insert(o, r);
        }
        self.prog.allocs[ix as usize] = GAlloc { bytes, relocs, name };
        Some(ix)
    }

    pub fn cval(&mut self, v: mir::ConstValue, rt: RTy<'tcx>) -> CVal {
        let t = self.ty(rt);
        match v {
            mir::ConstValue::ZeroSized => {
                if let TyK::FnDef(c) = &self.prog.tys[t as usize].k { CVal::Callee(c.clone()) } else { CVal::Zst }
            }
            mir::ConstValue::Scalar(s) => self.scalar(s, t),
            mir::ConstValue::Slice { alloc_id, meta } => match self.alloc(alloc_id) { Some(a) => CVal::Ptr { alloc: a, off: 0, meta: Some(meta) }, None => CVal::Top },
            mir::ConstValue::Indirect { alloc_id, offset } => match self.alloc(alloc_id) { Some(a) => CVal::Mem { alloc: a, off: offset.bytes() }, None => CVal::Top },
        }
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> Operand {
        match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Operand::Place(self.place(body, p)),
            mir::Operand::Constant(c) => {
                let rt = c.const_.ty();
                let t = self.ty(rt);
                if let TyK::FnDef(c) = &self.prog.tys[t as usize].k { return Operand::Const(CVal::Callee(c.clone()), t); }
                if let mir::Const::Unevaluated(u, _) = c.const_ { if let Some(pr) = u.promoted { if self.tcx.promoted_mir(u.def).len() <= pr.as_usize() { return Operand::Const(CVal::Top, t); } } }
                match c.const_.eval(self.tcx, env(), DUMMY_SP) {
                    Ok(v) => { let v = self.cval(v, rt); Operand::Const(v, t) }
                    Err(_) => Operand::Const(CVal::Top, t),
                }
            }
            mir::Operand::RuntimeChecks(k) => {
                let t = self.ty(self.tcx.types.bool);
                let on = matches!(k, mir::RuntimeChecks::OverflowChecks);
                Operand::Const(CVal::Int(1, on as u128), t)
            }
        }
    }

    fn stmt(&mut self, body: &mir::Body<'tcx>, s: &mir::StatementKind<'tcx>) -> Stmt {
        match s {
            mir::StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let pl = self.place(body, p);
                let rv = self.rvalue(body, rv);
                Stmt::Assign(pl, rv)
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => Stmt::SetDiscr(self.place(body, place), variant_index.as_u32()),
            mir::StatementKind::StorageDead(l) => Stmt::Dead(l.as_u32()),
            _ => Stmt::Nop,
        }
    }

    fn binop(op: mir::BinOp) -> BinOp {
        use mir::BinOp as B;
        match op {
            B::Add | B::AddUnchecked => BinOp::Add, B::Sub | B::SubUnchecked => BinOp::Sub, B::Mul | B::MulUnchecked => BinOp::Mul,
            B::AddWithOverflow => BinOp::AddOv, B::SubWithOverflow => BinOp::SubOv, B::MulWithOverflow => BinOp::MulOv,
            B::Div => BinOp::Div, B::Rem => BinOp::Rem, B::BitXor => BinOp::Xor, B::BitAnd => BinOp::And, B::BitOr => BinOp::Or,
            B::Shl => BinOp::Shl, B::Shr => BinOp::Shr, B::ShlUnchecked => BinOp::ShlUnchecked, B::ShrUnchecked => BinOp::ShrUnchecked,
            B::Eq => BinOp::Eq, B::Ne => BinOp::Ne, B::Lt => BinOp::Lt, B::Le => BinOp::Le, B::Gt => BinOp::Gt, B::Ge => BinOp::Ge,
            B::Cmp => BinOp::Cmp, B::Offset => BinOp::Offset,
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> Rvalue {
        use mir::Rvalue as R;
        let tcx = self.tcx;
        match r {
            R::Use(o, _) => Rvalue::Use(self.operand(body, o)),
            R::Repeat(o, n) => match n.try_to_target_usize(tcx) { Some(n) => Rvalue::Repeat(self.operand(body, o), n), None => Rvalue::Top },
            R::Ref(_, _, p) | R::RawPtr(_, p) => Rvalue::Ref(self.place(body, p)),
            R::Reborrow(_, _, p) => Rvalue::Ref(self.place(body, p)),
            R::CopyForDeref(p) => Rvalue::Use(Operand::Place(self.place(body, p))),
            R::Discriminant(p) => Rvalue::Discr(self.place(body, p)),
            R::BinaryOp(op, b) => {
                let t = b.0.ty(body, tcx);
                let t = self.ty(t);
                let a = self.operand(body, &b.0);
                let c = self.operand(body, &b.1);
                Rvalue::Bin(Self::binop(*op), a, c, t)
            }
            R::UnaryOp(op, o) => {
                let t = o.ty(body, tcx);
                let t = self.ty(t);
                let o = self.operand(body, o);
                Rvalue::Un(match op { mir::UnOp::Not => UnOp::Not, mir::UnOp::Neg => UnOp::Neg, mir::UnOp::PtrMetadata => UnOp::Meta }, o, t)
            }
            R::Cast(k, o, to) => {
                let from = o.ty(body, tcx);
                let ck = match k {
                    mir::CastKind::IntToInt => CastK::IntToInt,
                    mir::CastKind::PtrToPtr | mir::CastKind::FnPtrToPtr | mir::CastKind::Subtype => CastK::PtrToPtr,
                    mir::CastKind::Transmute | mir::CastKind::BoxDerefTransmute => CastK::Transmute,
                    mir::CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::Unsize => CastK::Unsize,
                        ty::adjustment::PointerCoercion::ReifyFnPointer(_) | ty::adjustment::PointerCoercion::UnsafeFnPointer => CastK::ReifyFn,
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => {
                            if let ty::Closure(d, args) = from.kind() {
                                let inst = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce);
                                let c = self.callee_inst(inst);
                                let t = self.ty(*to);
                                return Rvalue::Use(Operand::Const(CVal::Callee(c), t));
                            }
                            CastK::Other
                        }
                        _ => CastK::PtrToPtr,
                    },
                    _ => CastK::Other,
                };
                let o = self.operand(body, o);
                let f = self.ty(from);
                let t = self.ty(*to);
                Rvalue::Cast(ck, o, f, t)
            }
            R::Aggregate(k, ops) => {
                let t = r.ty(body, tcx);
                let t = self.ty(t);
                let ops: Vec<_> = ops.iter().map(|o| self.operand(body, o)).collect();
                let k = match &**k {
                    mir::AggregateKind::Array(_) => AggK::Array,
                    mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => AggK::Tuple,
                    mir::AggregateKind::Adt(_, v, _, _, uf) => AggK::Adt { variant: v.as_u32(), union_field: uf.map(|x| x.as_u32()) },
                    mir::AggregateKind::RawPtr(..) => AggK::RawPtr,
                    _ => return Rvalue::Top,
                };
                Rvalue::Agg(k, ops, t)
            }
            _ => Rvalue::Top,
        }
    }

    fn term(&mut self, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> Term {
        use mir::TerminatorKind as T;
        let tcx = self.tcx;
        match &t.kind {
            T::Goto { target, .. } => Term::Goto(target.as_u32()),
            T::FalseEdge { real_target, .. } | T::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_u32()),
            T::Return => Term::Return,
            T::Unreachable => Term::Unreachable,
            T::UnwindResume | T::UnwindTerminate(_) | T::CoroutineDrop => Term::Unreachable,
            T::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, tcx);
                let ty = self.ty(ty);
                let op = self.operand(body, discr);
                Term::Switch { op, ty, targets: targets.iter().map(|(v, b)| (v, b.as_u32())).collect(), otherwise: targets.otherwise().as_u32() }
            }
            T::Drop { place, target, .. } => {
                let pt = place.ty(body, tcx).ty;
                let glue = if self.has_local_drop(pt, 0) {
                    let inst = Instance::resolve_drop_glue(tcx, pt);
                    Some(self.func(inst))
                } else { None };
                Term::Drop { place: self.place(body, place), target: target.as_u32(), glue }
            }
            T::Call { func, args, destination, target, .. } => {
                let f = self.operand(body, func);
                let rt = destination.ty(body, tcx).ty;
                let ret = self.ty(rt);
                let arg_tys = args.iter().map(|a| { let t = a.node.ty(body, tcx); self.ty(t) }).collect();
                let args = args.iter().map(|a| self.operand(body, &a.node)).collect();
                Term::Call { f, args, arg_tys, dest: self.place(body, destination), ret, target: target.map(|b| b.as_u32()) }
            }
            T::TailCall { .. } => Term::Abort("tailcall".into()),
            T::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
                    mir::AssertKind::OverflowNeg(_) => "arithmetic overflow in negation".to_string(),
                    mir::AssertKind::DivisionByZero(_) => "division by zero".to_string(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".to_string(),
                    _ => "runtime check".to_string(),
                };
                Term::Assert { cond: self.operand(body, cond), expected: *expected, msg: m, target: target.as_u32() }
            }
            _ => Term::Abort("unsupported terminator".into()),
        }
    }

    fn has_local_drop(&self, t: RTy<'tcx>, depth: u32) -> bool {
        if depth > 6 { return false; }
        match t.kind() {
            ty::Adt(def, args) => {
                if ours(self.tcx, def.did()) {
                    if def.destructor(self.tcx).is_some() { return true; }
                }
                ours(self.tcx, def.did()) && def.all_fields().any(|f| { let ft = f.ty(self.tcx, args); let ft = self.tcx.normalize_erasing_regions(env(), ft); self.has_local_drop(ft, depth + 1) })
            }
            ty::Tuple(fs) => fs.iter().any(|f| self.has_local_drop(f, depth + 1)),
            ty::Array(e, _) => self.has_local_drop(*e, depth + 1),
            _ => false,
        }
    }
}

/// The analysed crates.
pub fn ours(tcx: TyCtxt<'_>, def: DefId) -> bool { def.is_local() || tcx.crate_name(def.krate).as_str().starts_with("m68000") }
fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(x) | Term::Drop { target: x, .. } | Term::Assert { target: x, .. } => vec![*x],
        Term::Switch { targets, otherwise, .. } => { let mut v: Vec<u32> = targets.iter().map(|x| x.1).collect(); v.push(*otherwise); v }
        Term::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}

/// Weak topological order: position of each block, loop bodies contiguous and before their exits.
pub fn wto(blocks: &[Block]) -> Vec<u32> {
    let n = blocks.len();
    let su: Vec<Vec<u32>> = blocks.iter().map(|b| succs(&b.term)).collect();
    let mut order = vec![];
    fn sccs(nodes: &[u32], su: &[Vec<u32>], start: u32, inset: &[bool]) -> Vec<Vec<u32>> {
        // Tarjan from start, then the remaining nodes; result in reverse topological order.
        struct S<'a> { idx: HashMap<u32, u32>, low: HashMap<u32, u32>, on: HashMap<u32, bool>, st: Vec<u32>, out: Vec<Vec<u32>>, c: u32, su: &'a [Vec<u32>], inset: &'a [bool] }
        fn go(s: &mut S, v: u32) {
            s.idx.insert(v, s.c); s.low.insert(v, s.c); s.c += 1; s.st.push(v); s.on.insert(v, true);
            let ss = s.su[v as usize].clone();
            for w in ss {
                if !s.inset[w as usize] { continue; }
                if !s.idx.contains_key(&w) { go(s, w); let lw = s.low[&w]; let lv = s.low[&v]; s.low.insert(v, lv.min(lw)); }
                else if *s.on.get(&w).unwrap_or(&false) { let iw = s.idx[&w]; let lv = s.low[&v]; s.low.insert(v, lv.min(iw)); }
            }
            if s.low[&v] == s.idx[&v] {
                let mut comp = vec![];
                loop { let w = s.st.pop().unwrap(); s.on.insert(w, false); comp.push(w); if w == v { break; } }
                s.out.push(comp);
            }
        }
        let mut s = S { idx: HashMap::new(), low: HashMap::new(), on: HashMap::new(), st: vec![], out: vec![], c: 0, su, inset };
        if inset[start as usize] { go(&mut s, start); }
        for &x in nodes { if !s.idx.contains_key(&x) { go(&mut s, x); } }
        s.out.reverse();
        s.out
    }
    fn rec(nodes: &[u32], su: &[Vec<u32>], start: u32, order: &mut Vec<u32>, n: usize) {
        let mut inset = vec![false; n];
        for &x in nodes { inset[x as usize] = true; }
        for comp in sccs(nodes, su, start, &inset) {
            if comp.len() == 1 { order.push(comp[0]); continue; }
            // Head: an entry of the component (a node with a predecessor outside it, else any).
            let inc: std::collections::HashSet<u32> = comp.iter().copied().collect();
            let mut head = *comp.last().unwrap();
            'o: for (p, ss) in su.iter().enumerate() { if !inc.contains(&(p as u32)) { for w in ss { if inc.contains(w) { head = *w; break 'o; } } } }
            order.push(head);
            let rest: Vec<u32> = comp.into_iter().filter(|x| *x != head).collect();
            let st = su[head as usize].iter().copied().find(|x| rest.contains(x)).unwrap_or(rest[0]);
            rec(&rest, su, st, order, n);
        }
    }
    let nodes: Vec<u32> = (0..n as u32).collect();
    rec(&nodes, &su, 0, &mut order, n);
    let mut pos = vec![0u32; n];
    for (i, b) in order.iter().enumerate() { pos[*b as usize] = i as u32; }
    pos
}

/// Generic arguments of a one-parameter trait for `t` if `t` implements it.
fn impl_args<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, t: RTy<'tcx>) -> Option<ty::GenericArgsRef<'tcx>> {
    let g = tcx.generics_of(tr);
    if g.own_params.len() != 1 { return None; }
    let a = tcx.mk_args(&[t.into()]);
    let trf = ty::TraitRef::new_from_args(tcx, tr, a);
    match tcx.codegen_select_candidate(env().as_query_input(trf)) { Ok(_) => Some(a), Err(_) => None }
}
