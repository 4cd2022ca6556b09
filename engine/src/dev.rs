//! Development entry points.
use crate::expr::*;
use crate::interp::*;
use crate::prove::Facts;
use crate::state::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;

pub fn impls(tcx: Tcx, tr: rustc_span::def_id::DefId) -> Vec<(String, Ty)> {
    let mut v = vec![];
    for id in tcx.all_impls(tr) {
        let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let t = rustc_public::rustc_internal::stable(t);
        v.push((tcx.def_path_str(tcx.type_of(id).instantiate_identity().skip_norm_wip().ty_adt_def().unwrap().did()), t));
    }
    v
}
pub fn arg_for(an: &mut An, ty: Ty, name: &str) -> Val {
    let mut v = vec![];
    if let Some(ls) = an.leaves(ty) {
        for l in ls.iter() {
            let nm = if ls.len() == 1 { name.to_string() } else { format!("{}.{}", name, l.off) };
            let sc = match l.kind {
                LK::Ptr => Sc::ptr(an.base(&nm, BK::Ext, 1, None), ZERO),
                LK::Float => Sc::N(rsym(&nm)),
                LK::Int(true) => Sc::N(isym(&nm)),
                LK::Int(false) => Sc::N(sym(&nm)),
            };
            v.push(Cell { off: l.off, tag: 0, size: l.size, sc });
        }
    }
    v
}
pub fn show_event(an: &An, e: &Event) -> String {
    let ctx = e.ctx.iter().map(|c| format!("{}<{}", show_atom(c.lvar), show(c.count))).collect::<Vec<_>>().join(", ");
    let g = show(guard_since(&e.path, &{ let mut p = e.path.clone(); while let Some(q) = p.parent.clone() { p = q; } p }));
    let k = match &e.k {
        EvK::Read { base, off, size, .. } => format!("R {}[{}] {}", base_name(*base), show(*off), size),
        EvK::Peek { sym, base, off } => format!("PEEK {} {}[{}]", show_atom(*sym), base_name(*base), off),
        EvK::Write { base, off, size, vals, .. } => format!("W {}[{}] {} = {}", base_name(*base), show(*off), size, vals.iter().map(|v| crate::exec::show_sc(&v.2)).collect::<Vec<_>>().join(", ")),
        EvK::Kernel(k) => format!("KERNEL#{} {} k={} a={} b={} beta={:?} c={} rs={} cs={}", k.id, TyName(k.kty), show(k.k), crate::exec::show_sc(&k.a), crate::exec::show_sc(&k.b), k.beta.iter().map(|c| crate::exec::show_sc(&c.sc)).collect::<Vec<_>>(), crate::exec::show_sc(&k.c), show(k.rsc), show(k.csc)),
        EvK::Pack(p) => format!("PACK#{} {} a={} kc={} mc={} dst={} len={} src={} rs={} cs={}", p.id, TyName(p.kty), p.is_a, show(p.kc), show(p.mc), crate::exec::show_sc(&p.dst), show(p.dlen), crate::exec::show_sc(&p.src), show(p.rs), show(p.cs)),
        EvK::Panic { what } => format!("PANIC {}", what),
        EvK::Audit { cond } => format!("AUDIT {}", show(*cond)),
        EvK::Assert { cond, what } => format!("ASSERT {} {}", show(*cond), what),
        EvK::Underflow { val } => format!("UNDERFLOW {}", show(*val)),
        EvK::Alloc { base, size, align } => format!("ALLOC {} size={} align={}", base_name(*base), show(*size), show(*align)),
        EvK::Dealloc { ptr, size, align } => format!("DEALLOC {} size={} align={}", crate::exec::show_sc(ptr), show(*size), show(*align)),
        EvK::FeatCall { callee, feats } => format!("FEAT {} {:?}", callee, feats),
        EvK::Join { id, n, .. } => format!("JOIN {} {}", id, n),
        EvK::Extern { name } => format!("EXTERN {}", name),
        EvK::Pool { level } => format!("POOL {}", show(*level)),
        EvK::Force { base } => format!("FORCE {}", base_name(*base)),
        EvK::NonTerm { rec, .. } => format!("NONTERM {} | exits {}", rec.eqs.iter().map(|q| format!("{}: {:?} -> {:?}", show_atom(q.0), q.1.map(show), q.2.map(show))).collect::<Vec<_>>().join("; "), rec.exits.iter().map(|c| c.iter().map(|x| show(*x)).collect::<Vec<_>>().join(" & ")).collect::<Vec<_>>().join(" || ")),
        EvK::Slice { ptr, len, .. } => format!("SLICE {} {}", crate::exec::show_sc(ptr), show(*len)),
    };
    let _ = an;
    format!("{} | ctx[{}] tags{:?} guard {} in {} {}", k, ctx, e.tags, g, e.func, e.span.map_or(String::new(), |s| s.diagnostic()))
}
pub fn test(tcx: Tcx, what: &str) {
    let t0 = std::time::Instant::now();
    let mut an = An::new(tcx);
    let (fun_name, kt) = match what.split_once('@') { Some((a, b)) => (a, Some(b)), None => (what, None) };
    let tr = an.kernel_trait().unwrap();
    let ks = impls(tcx, tr);
    let sel: Vec<(String, Ty)> = ks.into_iter().filter(|x| kt.map_or(true, |k| k == "f64" || x.0.contains(k))).collect();
    let mut inst: Option<Instance> = None;
    if ["kernel", "pack_mr", "pack_nr"].contains(&fun_name) {
        let item = tcx.associated_items(tr).in_definition_order().find(|i| i.opt_name().map_or(false, |n| n.as_str() == fun_name)).unwrap().def_id;
        eprintln!("kernel {:?}", sel[0].0);
        let t = rustc_public::rustc_internal::internal(tcx, sel[0].1);
        let args = tcx.mk_args(&[t.into()]);
        let i = rustc_middle::ty::Instance::try_resolve(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized(), item, args).unwrap().unwrap();
        inst = Some(rustc_public::rustc_internal::stable(i));
    } else {
        for f in rustc_public::local_crate().fn_defs() {
            let n = f.name();
            if n.ends_with(&format!("::{}", fun_name)) || n == fun_name {
                let mut args = vec![];
                let gens = tcx.generics_of(rustc_public::rustc_internal::internal(tcx, f.def_id()));
                if kt == Some("f64") { args.push(GenericArgKind::Type(Ty::from_rigid_kind(RigidTy::Float(FloatTy::F64)))); } else if gens.count() > 0 { if kt.is_some() { if gens.count() == 1 { args.push(GenericArgKind::Type(sel[0].1)); } } }
                if let Ok(i) = Instance::resolve(f, &GenericArgs(args)) { inst = Some(i); eprintln!("fn {}", n); break; }
            }
        }
    }
    let Some(inst) = inst else { eprintln!("not found"); return };
    an.choices = std::env::var("MMSA_CH").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    an.boundary = !["kernel", "pack_mr", "pack_nr"].contains(&fun_name) && std::env::var("MMSA_NOBOUND").is_err();
    let fi = an.fninfo(inst).unwrap();
    let names = ["k", "alpha", "a", "b", "beta", "c", "rsc", "csc"];
    let gl = ["m", "k", "n", "alpha", "a", "rsa", "csa", "b", "rsb", "csb", "beta", "c", "rsc", "csc"];
    let mut args = vec![];
    for (i, l) in fi.body.arg_locals().iter().enumerate() {
        let nm = if fun_name == "kernel" { names[i].to_string() } else if fun_name == "gemm_loop" { gl[i].to_string() } else { fi.body.var_debug_info.iter().find(|v| v.argument_index == Some(i as u16 + 1)).map_or(format!("arg{}", i), |v| v.name.to_string()) };
        args.push(arg_for(&mut an, l.ty, &nm));
        eprintln!("  {}: {}", nm, TyName(l.ty));
    }
    let mut f = Facts::new();
    if fun_name == "kernel" { f.add_ge(addk(sym("k"), -1)); }
    let st = State { frames: vec![], logs: Default::default(), path: root_path(f) };
    for b in ["c"] { if let Some(b) = an.base_ix.get(b) { STRIDED.with(|s| { s.borrow_mut().insert(*b); }); if an.boundary { an.accum.insert(*b); } } }
    let r = an.exec_fn(inst, args, st);
    eprintln!("returned {} steps {} loops {} ok {} unk {} events {} time {:?} prove calls {} unrefuted {}", r.is_some(), an.steps, an.nloops, an.loop_ok, an.loop_unk, an.events.len(), t0.elapsed(), crate::prove::CALLS.with(|c| c.get()), crate::prove::CALLS2.with(|c| c.get()));
    if an.trace { let mut v: Vec<_> = an.fcount.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for x in v.iter().take(25) { eprintln!("COUNT {:?}", x); } }
    eprintln!("choices {:?}", an.choice_log);
    for (_, p, v) in &an.choice_eqs { eprintln!("CHOICE {} = {}", v, show(*p)); }
    for (n, c) in &an.notes { eprintln!("NOTE x{} {}", c, n); }
    if std::env::var("MMSA_EV").is_ok() { for e in &an.events { println!("{}", show_event(&an, e)); } }
    if std::env::var("MMSA_LOG").is_ok() { if let Some((_, s)) = &r { for (b, l) in s.logs.iter() { println!("== {}", base_name(*b)); for e in log_suffix(l, &None) { println!("   {}", show_ent(&e)); } } } }
}
pub fn show_ent(e: &Ent) -> String {
    match e {
        Ent::Store { off, size, val, guard } => format!("[{}]:{} = {} if {}", show(*off), size, crate::exec::show_sc(val), show(*guard)),
        Ent::Tile { id, off, rs, cs, mr, nr, guard, .. } => format!("tile {} at {} rs {} cs {} {}x{} if {}", id, show(*off), show(*rs), show(*cs), mr, nr, show(*guard)),
        Ent::Pack { id, off, len, guard } => format!("pack {} at {} len {} if {}", id, show(*off), show(*len), show(*guard)),
        Ent::Loop { lvar, count, ents, guard, .. } => format!("loop {}<{} if {} {{ {} }}", show_atom(*lvar), show(*count), show(*guard), ents.iter().map(show_ent).collect::<Vec<_>>().join("; ")),
        Ent::Prev { .. } => "prev".into(),
        Ent::Havoc => "havoc".into(),
    }
}
