//! Finds the analysis roots by their public names.
use crate::ir::*;
use crate::lower::Lower;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty as RTy, TyCtxt};

pub fn find_ty(tcx: TyCtxt<'_>, path: &str) -> Option<DefId> {
    tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).find(|d| matches!(tcx.def_kind(*d), DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Union) && tcx.def_path_str(*d) == path)
}

/// Instantiate every generic parameter of `def` by asking `pick` per parameter name.
pub fn inst_args<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, pick: &dyn Fn(&str) -> Option<RTy<'tcx>>) -> Option<ty::GenericArgsRef<'tcx>> {
    let mut ok = true;
    let a = ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        _ => match pick(p.name.as_str()) { Some(t) => t.into(), None => { ok = false; tcx.types.unit.into() } },
    });
    if ok { Some(a) } else { None }
}

pub fn lower_all<'tcx>(tcx: TyCtxt<'tcx>) -> Prog {
    let mut lw = Lower::new(tcx);
    let core = find_ty(tcx, "M68000").expect("core type");
    lw.mem_trait = find_ty(tcx, "memory_access::MemoryAccess");
    lw.opaque = ["std::ptr::swap", "std::mem::swap", "core::slice::<impl [T]>::swap"].iter().map(|s| s.to_string()).collect();
    let u16s = RTy::new_slice(tcx, tcx.types.u16);
    let m = RTy::new_imm_ref(tcx, tcx.lifetimes.re_erased, u16s);
    lw.mem_ty = Some(m);
    for (cname, cpath) in [("Mc68000", "cpu_details::mc68000::Mc68000"), ("Scc68070", "cpu_details::scc68070::Scc68070")] {
        let Some(cd) = find_ty(tcx, cpath) else { eprintln!("no {cpath}"); continue };
        let cty = tcx.type_of(cd).instantiate_identity().skip_norm_wip();
        methods(&mut lw, core, cname, cty, m);
    }
    impls(&mut lw);
    plain(&mut lw);
    lw.run();
    lw.prog
}

/// The C interface crate: its exported functions, the Rust operations instantiated for the callback
/// structure, and the callback structure's own implementation of the memory trait.
pub fn lower_ffi<'tcx>(tcx: TyCtxt<'tcx>) -> Prog {
    let mut lw = Lower::new(tcx);
    lw.opaque = ["std::ptr::swap", "std::mem::swap", "core::slice::<impl [T]>::swap"].iter().map(|s| s.to_string()).collect();
    for f in ["std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy", "std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "std::ptr::mut_ptr::<impl *mut T>::copy_from", "std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping", "std::ptr::const_ptr::<impl *const T>::copy_to", "std::mem::forget"] { lw.opaque.push(f.to_string()); }
    let mut mem = None;
    for (tr, imps) in tcx.all_local_trait_impls(()).iter() {
        if tcx.item_name(*tr).as_str() != "MemoryAccess" { continue; }
        lw.mem_trait = Some(*tr);
        for i in imps.iter() { mem = Some(tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip()); }
    }
    lw.mem_ty = mem;
    let mut cores: Vec<(DefId, String, RTy<'tcx>)> = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) { continue; }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        for t in sig.inputs_and_output.iter() {
            let ty::RawPtr(t, _) = t.kind() else { continue };
            let ty::Adt(a, args) = t.kind() else { continue };
            if tcx.item_name(a.did()).as_str() != "M68000" { continue; }
            let Some(cty) = args.types().next() else { continue };
            let ty::Adt(c, _) = cty.kind() else { continue };
            let n = tcx.item_name(c.did()).to_string();
            if !cores.iter().any(|x| x.1 == n) { cores.push((a.did(), n, cty)); }
        }
    }
    if let Some(m) = mem { for (core, n, cty) in cores { methods(&mut lw, core, &n, cty, m); } }
    impls(&mut lw);
    plain(&mut lw);
    lw.run();
    lw.prog
}

fn methods<'tcx>(lw: &mut Lower<'tcx>, core: DefId, cname: &str, cty: RTy<'tcx>, m: RTy<'tcx>) {
    let tcx = lw.tcx;
    for imp in tcx.inherent_impls(core).iter() {
        for item in tcx.associated_items(*imp).in_definition_order() {
            if !item.is_fn() { continue; }
            let d = item.def_id;
            if !tcx.visibility(d).is_public() { continue; }
            let g = tcx.generics_of(d);
            let parent = g.parent_count;
            let pick = |n: &str| -> Option<RTy<'tcx>> { let _ = n; None };
            let _ = pick;
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => if (p.index as usize) < parent { cty.into() } else { m.into() },
            });
            let inst = Instance::new_raw(d, args);
            // Closure-taking methods need more than a memory type.
            if g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count() > 1 { continue; }
            if !preds_ok(tcx, d, args) { continue; }
            let f = lw.func(inst);
            lw.prog.roots.insert(format!("{cname}::{}", tcx.item_name(d)), f);
        }
    }
}

fn impls<'tcx>(lw: &mut Lower<'tcx>) {
    let tcx = lw.tcx;
    // every implementation of the memory trait, with its inherited methods
    if let Some(tr) = lw.mem_trait {
        for imp in tcx.all_impls(tr).filter(|i| i.is_local()) {
            if tcx.generics_of(imp).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = tcx.erase_and_anonymize_regions(st);
            for item in tcx.associated_items(tr).in_definition_order() {
                if !item.is_fn() { continue; }
                let args = ty::GenericArgs::for_item(tcx, item.def_id, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => st.into() });
                let Ok(Some(inst)) = Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), item.def_id, args) else { continue };
                if !tcx.is_mir_available(inst.def_id()) { continue; }
                let f = lw.func(inst);
                lw.prog.roots.insert(format!("mem:{st}::{}", tcx.item_name(item.def_id)), f);
            }
        }
    }
}

fn plain<'tcx>(lw: &mut Lower<'tcx>) {
    let tcx = lw.tcx;
    // every function of the crate without type parameters, by path
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        let mut g = Some(d);
        let mut generic = false;
        while let Some(x) = g { let gg = tcx.generics_of(x); generic |= gg.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)); g = gg.parent; }
        if generic || !tcx.is_mir_available(d) { continue; }
        let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
        let f = lw.func(Instance::new_raw(d, args));
        lw.prog.roots.insert(format!("fn:{}", tcx.def_path_str(d)), f);
    }
}

fn preds_ok<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> bool {
    !tcx.instantiate_and_check_impossible_clauses((d, args))
}
