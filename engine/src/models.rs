//! Models: compiler intrinsics, allocation, thread-locals, fork/join, and the kernel contract boundary.
use crate::expr::*;
use crate::interp::*;
use crate::state::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::{Operand, Rvalue, StatementKind, TerminatorKind};
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::collections::BTreeSet;
use std::rc::Rc;

type R = Result<Option<(Val, State)>, State>;
fn ok(v: Val, st: State) -> R { Ok(Some((v, st))) }

impl An {
    pub fn generic_ty(&self, i: Instance, n: usize) -> Option<Ty> { i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).nth(n) }
    pub fn lanes(&mut self, v: &Val, ty: Ty) -> Option<(Vec<Sc>, u32, LK)> {
        let ls = self.leaves(ty)?;
        let l0 = ls.first()?.clone();
        Some((ls.iter().map(|l| v.iter().find(|c| c.tag == 0 && c.off == l.off && c.size == l.size).map_or(Sc::Undef, |c| c.sc.clone())).collect(), l0.size, l0.kind))
    }
    fn lane_n(&mut self, v: &Val, ty: Ty) -> Option<(Vec<P>, u32, LK)> {
        let (l, s, kd) = self.lanes(v, ty)?;
        let mut o = vec![];
        for x in l { o.push(match x { Sc::N(p) => p, _ => { self.note("undefined vector lane"); opaque("lane", kd == LK::Float) } }); }
        Some((o, s, kd))
    }
    fn mkvec(&self, l: Vec<P>, s: u32) -> Val { l.into_iter().enumerate().map(|(i, p)| Cell { off: i as u32 * s, tag: 0, size: s, sc: Sc::N(p) }).collect() }
    pub fn assoc_usize(&mut self, kty: Ty, name: &str) -> Option<i128> {
        let tcx = self.tcx;
        let tr = self.kernel_trait()?;
        let item = tcx.associated_items(tr).in_definition_order().find(|i| i.opt_name().map_or(false, |n| n.as_str() == name))?.def_id;
        let t = rustc_public::rustc_internal::internal(tcx, kty);
        let args = tcx.mk_args(&[t.into()]);
        let u = rustc_middle::mir::UnevaluatedConst::new(item, args);
        let v = tcx.const_eval_resolve(rustc_middle::ty::TypingEnv::fully_monomorphized(), u, rustc_span::DUMMY_SP).ok()?;
        v.try_to_target_usize(tcx).map(|x| x as i128)
    }
    pub fn kernel_trait(&self) -> Option<rustc_span::def_id::DefId> {
        let tcx = self.tcx;
        tcx.traits(rustc_span::def_id::LOCAL_CRATE).iter().cloned().find(|d| tcx.item_name(*d).as_str() == "GemmKernel")
    }
    pub fn kernel_elem(&mut self, kty: Ty) -> Option<Ty> {
        let tcx = self.tcx;
        let tr = self.kernel_trait()?;
        let item = tcx.associated_items(tr).in_definition_order().find(|i| i.opt_name().map_or(false, |n| n.as_str() == "Elem"))?.def_id;
        let t = rustc_public::rustc_internal::internal(tcx, kty);
        let args = tcx.mk_args(&[t.into()]);
        let p = rustc_middle::ty::Ty::new_projection(tcx, rustc_middle::ty::IsRigid::No, item, args);
        let n = tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new(p));
        Some(rustc_public::rustc_internal::stable(n))
    }
    /// calls of the kernel trait's `kernel`, `pack_mr`, `pack_nr`
    pub fn contract(&mut self, st: &mut State, d: FnDef, ga: &GenericArgs, av: &[Val], _dty: Ty) -> Option<Val> {
        let did = { use rustc_public::CrateDef; rustc_public::rustc_internal::internal(self.tcx, d.def_id()) };
        let tr = self.kernel_trait()?;
        if self.tcx.opt_parent(did) != Some(tr) { return None; }
        let nm = self.tcx.item_name(did).to_string();
        if !["kernel", "pack_mr", "pack_nr"].contains(&nm.as_str()) { return None; }
        let kty = match ga.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return None };
        let et = self.kernel_elem(kty)?;
        let esz = self.size(et);
        let (mr, nr) = (self.assoc_usize(kty, "MR")? as u32, self.assoc_usize(kty, "NR")? as u32);
        let id = fresh_id();
        if nm == "kernel" {
            let kk = self.num(&av[0]);
            let (a, b, c) = (self.scalar(&av[2]), self.scalar(&av[3]), self.scalar(&av[5]));
            let (rs, cs) = (self.num(&av[6]), self.num(&av[7]));
            if let Sc::Ptr(v) = &c {
                let v = self.prune(st, v);
                for (g, bs, o) in v.iter() {
                    if is_local(*bs) {
                        // masked output in a stack buffer
                        for i in 0..mr { for j in 0..nr {
                            let off = add(*o, add(scale(rs, (i * esz) as i128), scale(cs, (j * esz) as i128)));
                            let ls = self.leaves(et).unwrap();
                            for l in ls.iter() {
                                let cell = Sc::N(pat(AD::Tile(id, k(((i + j * mr) * esz + l.off) as i128), l.size as u8)));
                                if let Some(c0) = cst(off) { if let Some(ob) = st.obj_mut(*bs) { ob.write(c0 as u32 + l.off, l.size, &vsc(cell, l.size), &[]); } }
                                else { self.note("kernel output at a symbolic offset of a local"); }
                            }
                        } }
                    } else {
                        st.push_log(*bs, Ent::Tile { id, off: *o, rs: scale(rs, esz as i128), cs: scale(cs, esz as i128), mr, nr, esz, guard: *g });
                    }
                }
            } else { self.note("kernel output pointer unknown"); }
            let e = EvK::Kernel(Rc::new(KernelEv { id, kty, k: kk, alpha: av[1].clone(), a, b, beta: av[4].clone(), c, rsc: rs, csc: cs, mr, nr, esz }));
            self.ev(st, e);
            // a kernel may need features its caller does not have
        } else {
            let (kc, mc) = (self.num(&av[0]), self.num(&av[1]));
            let dst = self.scalar(&av[2]);
            let dlen = match self.second(&av[2]) { Some(Sc::N(p)) => p, _ => self.undef_n("pack slice length", false) };
            let src = self.scalar(&av[3]);
            let (rs, cs) = (self.num(&av[4]), self.num(&av[5]));
            let is_a = nm == "pack_mr";
            let panel = if is_a { mr } else { nr };
            if let Sc::Ptr(v) = &dst { let v = v.clone(); for (g, bs, o) in v.iter() { if !is_local(*bs) {
                let len = scale(mul(kc, scale(div(addk(mc, panel as i128 - 1), k(panel as i128)), panel as i128)), esz as i128);
                st.push_log(*bs, Ent::Pack { id, off: *o, len, guard: *g }); } } }
            let e = EvK::Pack(Rc::new(PackEv { id, kty, is_a, kc, mc, dst, dlen, src, rs, cs, panel, esz }));
            self.ev(st, e);
        }
        Some(vec![])
    }
    pub fn mem_copy(&mut self, st: &mut State, s: &Sc, d: &Sc, n: P, ty: Ty) {
        let es = self.size(ty) as i128;
        if es == 0 || n == ZERO { return; }
        let n = st.facts().simp(n);
        let (Sc::Ptr(sv), Sc::Ptr(dv)) = (s, d) else { self.note("copy through unknown pointers"); return };
        if let Some(c) = cst(n) {
            if c <= 4096 {
                // raw byte copies move whole scalars: use the layout of a typed end of the copy
                if es == 1 && c > 1 {
                    let lay = if dv.len() == 1 && is_local(dv[0].1) { self.local_layout(st, dv[0].1, dv[0].2, c) } else { None };
                    let lay = lay.or_else(|| if sv.len() == 1 && is_local(sv[0].1) { self.local_layout(st, sv[0].1, sv[0].2, c) } else { None });
                    if let Some(ls) = lay {
                        let mut vals = vec![];
                        for (o, t) in &ls { let p = Rc::new(sv.iter().map(|(g, b, x)| (*g, *b, addk(*x, *o as i128))).collect::<Vec<_>>()); vals.push(self.typed_load(st, &p, *t, 1, &[])); }
                        for ((o, t), v) in ls.iter().zip(vals) { let p = Rc::new(dv.iter().map(|(g, b, x)| (*g, *b, addk(*x, *o as i128))).collect::<Vec<_>>()); self.typed_store(st, &p, *t, 1, &v, &[]); }
                        return;
                    }
                }
                // load everything first: memmove semantics
                let mut vals = vec![];
                for i in 0..c { let p = Rc::new(sv.iter().map(|(g, b, o)| (*g, *b, addk(*o, i * es))).collect::<Vec<_>>()); vals.push(self.typed_load(st, &p, ty, 1, &[])); }
                for (i, v) in vals.into_iter().enumerate() { let p = Rc::new(dv.iter().map(|(g, b, o)| (*g, *b, addk(*o, i as i128 * es))).collect::<Vec<_>>()); self.typed_store(st, &p, ty, 1, &v, &[]); }
                return;
            }
        }
        // symbolic count: a loop family
        let id = fresh_id();
        let t = atom(AD::LVar(id));
        let mut s2 = st.clone();
        s2.know(|f| { f.add_ge(pa(t)); f.add_ge(addk(sub(n, pa(t)), -1)); });
        self.loops.push(LoopCtx { id, lvar: t, count: n });
        let sp = Rc::new(sv.iter().map(|(g, b, o)| (*g, *b, add(*o, scale(pa(t), es)))).collect::<Vec<_>>());
        let dp = Rc::new(dv.iter().map(|(g, b, o)| (*g, *b, add(*o, scale(pa(t), es)))).collect::<Vec<_>>());
        let logs0 = s2.logs.clone();
        let v = self.typed_load(&s2, &sp, ty, 1, &[]);
        self.typed_store(&mut s2, &dp, ty, 1, &v, &[]);
        self.loops.pop();
        for (_, b, _) in dv.iter() {
            if is_local(*b) { self.note("symbolic-length copy into a local"); continue; }
            let l0 = logs0.get(b).cloned().unwrap_or(None);
            let ents = log_suffix(&s2.log(*b), &l0);
            st.push_log(*b, Ent::Loop { id, lvar: t, count: n, ents: Rc::new(ents), guard: one() });
        }
    }
    /// scalar pieces of the bytes [off, off+n) of a local, from its declared type
    fn local_layout(&mut self, st: &State, b: Base, off: P, n: i128) -> Option<Vec<(u32, Ty)>> {
        let (d, l) = local_of(b);
        let off = cst(off)?;
        let who = st.frames.get(d)?.who?;
        let fi = self.fninfo(who)?;
        let ty = fi.body.locals().get(l)?.ty;
        let ls = self.leaves(ty)?;
        let mut o = vec![];
        let mut tot = 0;
        for x in ls.iter() {
            let (a, z) = (x.off as i128 - off, x.off as i128 + x.size as i128 - off);
            if z <= 0 || a >= n { continue; }
            if a < 0 || z > n { return None; }
            let t = match (x.kind, x.size) {
                (LK::Float, 4) => Ty::from_rigid_kind(RigidTy::Float(FloatTy::F32)), (LK::Float, 8) => Ty::from_rigid_kind(RigidTy::Float(FloatTy::F64)),
                (LK::Int(_), 1) => Ty::from_rigid_kind(RigidTy::Uint(UintTy::U8)), (LK::Int(_), 2) => Ty::from_rigid_kind(RigidTy::Uint(UintTy::U16)),
                (LK::Int(_), 4) => Ty::from_rigid_kind(RigidTy::Uint(UintTy::U32)), (LK::Int(_), 8) => Ty::from_rigid_kind(RigidTy::Uint(UintTy::U64)),
                _ => return None,
            };
            tot += x.size as i128;
            o.push((a as u32, t));
        }
        if tot == n { Some(o) } else { None }
    }
    fn write_bytes(&mut self, st: &mut State, d: &Sc, val: P, n: P, ty: Ty) {
        let Some(ls) = self.leaves(ty) else { self.note("write_bytes of this type"); return };
        if val != ZERO { self.note("write_bytes with a nonzero byte"); }
        let v: Val = ls.iter().map(|l| Cell { off: l.off, tag: 0, size: l.size, sc: if val == ZERO { if l.kind == LK::Ptr { Sc::ptr(NULLB, ZERO) } else { Sc::N(ZERO) } } else { Sc::N(opaque("bytes", l.kind == LK::Float)) } }).collect();
        let es = self.size(ty) as i128;
        let n = st.facts().simp(n);
        let Sc::Ptr(dv) = d else { self.note("write_bytes through unknown pointer"); return };
        if let Some(c) = cst(n) { if c <= 4096 {
            for i in 0..c { let p = Rc::new(dv.iter().map(|(g, b, o)| (*g, *b, addk(*o, i * es))).collect::<Vec<_>>()); self.typed_store(st, &p, ty, 1, &v, &[]); }
            return;
        } }
        let id = fresh_id();
        let t = atom(AD::LVar(id));
        let mut s2 = st.clone();
        s2.know(|f| { f.add_ge(pa(t)); f.add_ge(addk(sub(n, pa(t)), -1)); });
        self.loops.push(LoopCtx { id, lvar: t, count: n });
        let dp = Rc::new(dv.iter().map(|(g, b, o)| (*g, *b, add(*o, scale(pa(t), es)))).collect::<Vec<_>>());
        let logs0 = s2.logs.clone();
        self.typed_store(&mut s2, &dp, ty, 1, &v, &[]);
        self.loops.pop();
        for (_, b, _) in dv.iter() {
            if is_local(*b) { self.note("symbolic-length fill of a local"); continue; }
            let l0 = logs0.get(b).cloned().unwrap_or(None);
            let ents = log_suffix(&s2.log(*b), &l0);
            st.push_log(*b, Ent::Loop { id, lvar: t, count: n, ents: Rc::new(ents), guard: one() });
        }
    }
    pub fn model(&mut self, path: &str, i: Instance, av: &[Val], at: &[Ty], dty: Ty, st: State) -> R {
        if matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) || path.starts_with("core::intrinsics::") && !path.contains("simd::") {
            let n = i.intrinsic_name().map(|s| s.to_string()).unwrap_or_else(|| path.rsplit("::").next().unwrap_or("").to_string());
            return self.intrinsic(&n, i, av, at, dty, st);
        }
        if path.starts_with("core::intrinsics::simd::") { let n = path.rsplit("::").next().unwrap().to_string(); return self.intrinsic(&n, i, av, at, dty, st); }
        self.std_model(path, i, av, at, dty, st)
    }
    fn intrinsic(&mut self, n: &str, i: Instance, av: &[Val], at: &[Ty], dty: Ty, mut st: State) -> R {
        let sz = self.size(dty);
        if n.starts_with("simd_") { if let Some(v) = self.simd(n, i, av, at, dty, &mut st) { return ok(v, st); } self.note(format!("vector intrinsic {}", n)); let v = self.opaque_val(dty); return ok(v, st); }
        let num = |me: &mut An, x: usize| me.num(&av[x]);
        let v = match n {
            "size_of" => { let t = self.generic_ty(i, 0).unwrap(); let s = self.size(t); vn(k(s as i128), 8) }
            "align_of" | "min_align_of" | "pref_align_of" => { let t = self.generic_ty(i, 0).unwrap(); let s = self.shape(t).abi_align; vn(k(s as i128), sz) }
            "size_of_val" => { let t = self.generic_ty(i, 0).unwrap(); match t.kind() { TyKind::RigidTy(RigidTy::Slice(e)) => { let s = self.size(e); let l = match self.second(&av[0]) { Some(Sc::N(p)) => p, _ => self.undef_n("slice length", false) }; vn(scale(l, s as i128), 8) } TyKind::RigidTy(RigidTy::Dynamic(..) | RigidTy::Str) => { let p = self.undef_n("size of dyn", false); vn(p, 8) } _ => { let s = self.size(t); vn(k(s as i128), 8) } } }
            "align_of_val" => { let t = self.generic_ty(i, 0).unwrap(); match t.kind() { TyKind::RigidTy(RigidTy::Slice(e)) => { let s = self.shape(e).abi_align; vn(k(s as i128), 8) } TyKind::RigidTy(RigidTy::Dynamic(..) | RigidTy::Str) => { let p = self.undef_n("align of dyn", false); vn(p, 8) } _ => { let s = self.shape(t).abi_align; vn(k(s as i128), 8) } } }
            "needs_drop" => { let t = self.generic_ty(i, 0).unwrap(); vn(k(!Instance::resolve_drop_in_place(t).is_empty_shim() as i128), 1) }
            "likely" | "unlikely" | "black_box" => av[0].clone(),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" | "prefetch_read_data" | "prefetch_write_data" => vec![],
            "assume" => { let c = num(self, 0); if cst(c) != Some(1) { st.know(|f| f.assume(c, true)); if st.facts().dead { return Ok(None); } } vec![] }
            "unreachable" | "abort" | "abort_immediate" | "breakpoint" => { if n.starts_with("abort") { self.ev(&st, EvK::Panic { what: "abort".into() }); } return Ok(None); }
            "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => vn(ZERO, 1),
            "const_eval_select" => {
                // runtime arm: (args tuple, const fn, runtime fn)
                let f = at[2];
                let args = &av[0];
                let mut vals = vec![];
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = at[0].kind() { let mut o = Obj::default(); for c in args { o.put(0, c.clone()); } for (ix, t) in ts.iter().enumerate() { let off = self.field_off(at[0], None, ix); let s = self.size(*t); vals.push(o.read(off, s, &[])); } }
                if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = f.kind() {
                    let tys = match at[0].kind() { TyKind::RigidTy(RigidTy::Tuple(ts)) => ts, _ => vec![] };
                    if let Ok(x) = Instance::resolve(d, &ga) { return Ok(self.invoke(x, vals, tys, dty, st)); }
                }
                self.note("const_eval_select"); self.opaque_val(dty)
            }
            "saturating_sub" => { let (a, b) = (num(self, 0), num(self, 1)); if at[0].kind().is_signed() { vn(sub(a, b), sz) } else { vn(max0(sub(a, b)), sz) } }
            "saturating_add" => { let (a, b) = (num(self, 0), num(self, 1)); vn(add(a, b), sz) }
            "wrapping_add" | "unchecked_add" => { let (a, b) = (num(self, 0), num(self, 1)); vn(add(a, b), sz) }
            "disjoint_bitor" => { let (a, b) = (num(self, 0), num(self, 1)); vn(add(a, b), sz) }
            "wrapping_mul" | "unchecked_mul" => { let (a, b) = (num(self, 0), num(self, 1)); vn(mul(a, b), sz) }
            "wrapping_sub" => {
                let (a, b) = (num(self, 0), num(self, 1));
                let d = sub(a, b);
                if !at[0].kind().is_signed() && cst(d).map_or(true, |c| c < 0) && !st.facts().ge(d) {
                    if let (Some(x), true) = (cst(d), sz <= 8) { vn(k(x.rem_euclid(1i128 << (sz * 8))), sz) }
                    else { self.note("wrapping subtraction that may wrap"); vn(fun("u:wsub", vec![a, b], false), sz) }
                } else { vn(d, sz) }
            }
            "unchecked_sub" => { let (a, b) = (num(self, 0), num(self, 1)); let r = sub(a, b); if !at[0].kind().is_signed() { self.check_sub(&st, r); } vn(r, sz) }
            "unchecked_div" | "exact_div" => { let (a, b) = (num(self, 0), num(self, 1)); vn(div(a, b), sz) }
            "unchecked_rem" => { let (a, b) = (num(self, 0), num(self, 1)); vn(pmod(a, b), sz) }
            "unchecked_shl" => { let (a, b) = (num(self, 0), num(self, 1)); match cst(b) { Some(s) if s < 64 => vn(scale(a, 1 << s), sz), _ => { vn(fun("shl", vec![a, b], false), sz) } } }
            "unchecked_shr" => { let (a, b) = (num(self, 0), num(self, 1)); match cst(b) { Some(s) if s < 64 => vn(div(a, k(1 << s)), sz), _ => { vn(fun("u:shr", vec![a, b], false), sz) } } }
            "integer_min" | "integer_max" => { let (a, b) = (num(self, 0), num(self, 1)); vn(if n == "integer_min" { pmin(a, b) } else { pmax(a, b) }, sz) }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (a, b) = (num(self, 0), num(self, 1));
                let r = match n { "add_with_overflow" => add(a, b), "sub_with_overflow" => sub(a, b), _ => mul(a, b) };
                let flag = if n.starts_with("sub") && !at[0].kind().is_signed() { ge0(addk(neg(r), -1)) } else { ZERO };
                let s0 = self.size(at[0]);
                let o = self.field_off(dty, None, 1);
                let mut v = vn(r, s0);
                v.push(Cell { off: o, tag: 0, size: 1, sc: Sc::N(flag) });
                v
            }
            "ctpop" => { let a = num(self, 0); match cst(a) { Some(c) if c >= 0 => vn(k(c.count_ones() as i128), sz), _ => vn(fun("u:ctpop", vec![a], false), sz) } }
            "cttz" | "cttz_nonzero" => { let a = num(self, 0); match cst(a) { Some(c) if c > 0 => vn(k(c.trailing_zeros() as i128), sz), _ => vn(fun("u:cttz", vec![a], false), sz) } }
            "ctlz" | "ctlz_nonzero" => { let a = num(self, 0); let bits = self.size(at[0]) * 8; match cst(a) { Some(c) if c > 0 => vn(k(c.leading_zeros() as i128 - (128 - bits as i128)), sz), _ => vn(fun("u:ctlz", vec![a], false), sz) } }
            "three_way_compare" => { let d = sub(num(self, 0), num(self, 1)); let p = add(one(), sub(ge0(addk(d, -1)), ge0(addk(neg(d), -1)))); let t = self.tag(dty); vec![Cell { off: 0, tag: t, size: 0, sc: Sc::N(p) }] }
            "select_unpredictable" => { let g = num(self, 0); merge_val(g, &av[1], &av[2]) }
            "offset" | "arith_offset" => { let t = self.generic_ty(i, 0).unwrap(); let pt = if n == "offset" { t.kind().builtin_deref(true).map_or(t, |x| x.ty) } else { t }; let es = self.size(pt) as i128; let d = num(self, 1); let mut v = av[0].clone(); if let Some(c) = v.first_mut() { c.sc = match &c.sc { Sc::N(p) => Sc::ptr(NULLB, add(*p, scale(d, es))), s => s.map_off(&|o| add(o, scale(d, es))) }; } v }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let t = self.generic_ty(i, 0).unwrap();
                let es = self.size(t) as i128;
                let (a, b) = (self.scalar(&av[0]), self.scalar(&av[1]));
                let d = match (&a, &b) { (Sc::Ptr(x), Sc::Ptr(y)) if x.len() == 1 && y.len() == 1 && x[0].1 == y[0].1 => sub(x[0].2, y[0].2), _ => { let (p, q) = (num(self, 0), num(self, 1)); sub(p, q) } };
                vn(divk(d, es.max(1)), 8)
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => { let t = self.generic_ty(i, 0).unwrap(); let al = self.shape(t).abi_align; match self.scalar(&av[0]) { Sc::Ptr(p) => { let v = self.typed_load(&st, &p, t, al, &[]); v } _ => { self.note("read through unknown pointer"); self.opaque_val(t) } } }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => { let t = self.generic_ty(i, 0).unwrap(); let al = self.shape(t).abi_align; match self.scalar(&av[0]) { Sc::Ptr(p) => self.typed_store(&mut st, &p, t, al, &av[1].clone(), &[]), _ => self.note("write through unknown pointer") } vec![] }
            "copy" | "copy_nonoverlapping" => { let t = self.generic_ty(i, 0).unwrap(); let (s, d) = (self.scalar(&av[0]), self.scalar(&av[1])); let c = num(self, 2); self.mem_copy(&mut st, &s, &d, c, t); vec![] }
            "write_bytes" => { let t = self.generic_ty(i, 0).unwrap(); let d = self.scalar(&av[0]); let (b, c) = (num(self, 1), num(self, 2)); self.write_bytes(&mut st, &d, b, c, t); vec![] }
            "transmute" | "transmute_unchecked" => { let (f, t) = (self.generic_ty(i, 0).unwrap(), self.generic_ty(i, 1).unwrap()); self.transmute(av[0].clone(), f, t) }
            "discriminant_value" => { let t = self.generic_ty(i, 0).unwrap(); match self.scalar(&av[0]) { Sc::Ptr(p) => { let v = self.typed_load(&st, &p, t, 1, &[]); let d = self.discr(&v, t); vn(d, sz) } _ => self.opaque_val(dty) } }
            "ptr_metadata" => match self.second(&av[0]) { Some(s) => vsc(s, 8), None => vec![] },
            "aggregate_raw_ptr" => { let mut v = av[0].clone(); v.retain(|c| c.off == 0); if let Some(c) = av[1].first() { v.push(Cell { off: 8, tag: 0, size: 8, sc: c.sc.clone() }); } v }
            "slice_get_unchecked" => { let pt = dty.kind().builtin_deref(true).map(|x| x.ty).unwrap_or(dty); let es = self.size(pt) as i128; let ix = num(self, 1); vsc(self.scalar(&av[0]).map_off(&|o| add(o, scale(ix, es))), 8) }
            "raw_eq" => { let t = self.generic_ty(i, 0).unwrap(); match (self.scalar(&av[0]), self.scalar(&av[1])) { (Sc::Ptr(p), Sc::Ptr(q)) => { let (a, b) = (self.typed_load(&st, &p, t, 1, &[]), self.typed_load(&st, &q, t, 1, &[])); let mut g = one(); for (x, y) in a.iter().zip(b.iter()) { if let (Sc::N(x), Sc::N(y)) = (&x.sc, &y.sc) { g = mul(g, eq0(sub(*x, *y))); } } vn(g, 1) } _ => self.opaque_val(dty) } }
            "fmaf32" | "fmaf64" | "fmuladdf32" | "fmuladdf64" => { let (a, b, c) = (num(self, 0), num(self, 1), num(self, 2)); vn(add(mul(a, b), c), sz) }
            "fadd_fast" | "fadd_algebraic" => { let (a, b) = (num(self, 0), num(self, 1)); vn(add(a, b), sz) }
            "fsub_fast" | "fsub_algebraic" => { let (a, b) = (num(self, 0), num(self, 1)); vn(sub(a, b), sz) }
            "fmul_fast" | "fmul_algebraic" => { let (a, b) = (num(self, 0), num(self, 1)); vn(mul(a, b), sz) }
            "type_id" | "type_name" | "caller_location" => self.opaque_val(dty),
            _ if n.starts_with("atomic_fence") || n.starts_with("atomic_singlethreadfence") => vec![],
            _ if n.starts_with("atomic_") => {
                // one legitimate schedule: nobody else touches the location meanwhile
                let Sc::Ptr(p) = self.scalar(&av[0]) else { let v = self.opaque_val(dty); return ok(v, st) };
                for (_, b, _) in p.iter() { if !is_local(*b) && *b != NULLB && self.bases[*b as usize].kind == BK::Static && self.quiet == 0 { let nm = self.bases[*b as usize].name.clone(); self.statics_atomic.insert(nm); } }
                let t = at[0].kind().builtin_deref(true).map_or(dty, |x| x.ty);
                let t = self.generic_ty(i, 0).unwrap_or(t);
                let sz = self.size(t);
                self.atomic_op = true;
                let r = if n.starts_with("atomic_store") { self.typed_store(&mut st, &p, t, 1, &av[1], &[]); vec![] }
                else {
                    let old = self.typed_load(&st, &p, t, 1, &[]);
                    let (x, y) = (self.num(&old), if av.len() > 1 { self.num(&av[1]) } else { ZERO });
                    let signed = t.kind().is_signed();
                    let wrap = |v: P| if signed || sz > 4 { v } else { match cst(v) { Some(c) => k(c.rem_euclid(1i128 << (8 * sz))), None => v } };
                    let isp = matches!(self.scalar(&old), Sc::Ptr(_));
                    let new: Option<Val> = if n.starts_with("atomic_load") { None }
                    else if n.starts_with("atomic_xchg") { Some(av[1].clone()) }
                    else if n.starts_with("atomic_cxchg") { None }
                    else if isp { let v = self.opaque_val(t); Some(v) }
                    else if n.starts_with("atomic_xadd") { Some(vn(wrap(add(x, y)), sz)) }
                    else if n.starts_with("atomic_xsub") { Some(vn(wrap(sub(x, y)), sz)) }
                    else if n.starts_with("atomic_and") { Some(vn(bitand(x, y, sz), sz)) }
                    else if n.starts_with("atomic_or") && sz == 1 && cst(y) == Some(1) { Some(vn(one(), sz)) }
                    else if n.starts_with("atomic_or") && cst(y) == Some(0) { Some(old.clone()) }
                    else if n.starts_with("atomic_max") || n.starts_with("atomic_umax") { Some(vn(pmax(x, y), sz)) }
                    else if n.starts_with("atomic_min") || n.starts_with("atomic_umin") { Some(vn(pmin(x, y), sz)) }
                    else { let v = self.opaque_val(t); Some(v) };
                    if n.starts_with("atomic_cxchg") {
                        let g = if isp { fun(&format!("u:cas#{}", fresh_id()), vec![], false) } else { eq0(sub(x, y)) };
                        let v = merge_val(g, &av[2], &old);
                        self.typed_store(&mut st, &p, t, 1, &v, &[]);
                        let o = self.field_off(dty, None, 1);
                        let mut r = old.clone();
                        r.push(Cell { off: o, tag: 0, size: 1, sc: Sc::N(g) });
                        r
                    } else { if let Some(v) = new { self.typed_store(&mut st, &p, t, 1, &v, &[]); } old }
                };
                self.atomic_op = false;
                r
            }
            _ => {
                if !matches!(i.kind, InstanceKind::LlvmIntrinsic) && !i.is_foreign_item() && i.has_body() && self.fninfo(i).is_some() { return Ok(self.exec_fn(i, av.to_vec(), st)); }
                self.note(format!("intrinsic {}", n)); self.opaque_val(dty)
            }
        };
        ok(v, st)
    }
    fn simd(&mut self, n: &str, i: Instance, av: &[Val], at: &[Ty], dty: Ty, st: &mut State) -> Option<Val> {
        match n {
            "simd_add" | "simd_sub" | "simd_mul" | "simd_and" | "simd_or" | "simd_xor" | "simd_div" | "simd_shl" | "simd_shr" => {
                let (a, s, kd) = self.lane_n(&av[0], at[0])?;
                let (b, _, _) = self.lane_n(&av[1], at[1])?;
                let mut o = vec![];
                for (x, y) in a.into_iter().zip(b) {
                    o.push(match n {
                        "simd_add" => add(x, y), "simd_sub" => sub(x, y), "simd_mul" => mul(x, y),
                        "simd_and" => bitand(x, y, s),
                        "simd_xor" => match (cst(x), cst(y)) { (Some(p), Some(q)) => k(p ^ q), (_, Some(0)) => x, (Some(0), _) => y, _ if x == y => ZERO, _ => signflip(x, y, s).unwrap_or_else(|| fun("xor", vec![x, y], kd == LK::Float)) },
                        "simd_or" => match (cst(x), cst(y)) { (Some(p), Some(q)) => k(p | q), (_, Some(0)) => x, (Some(0), _) => y, _ => fun("or", vec![x, y], kd == LK::Float) },
                        _ => fun(n, vec![x, y], kd == LK::Float),
                    });
                }
                Some(self.mkvec(o, s))
            }
            "simd_fma" | "simd_relaxed_fma" => {
                let (a, s, _) = self.lane_n(&av[0], at[0])?;
                let (b, _, _) = self.lane_n(&av[1], at[1])?;
                let (c, _, _) = self.lane_n(&av[2], at[2])?;
                Some(self.mkvec((0..a.len()).map(|i| add(mul(a[i], b[i]), c[i])).collect(), s))
            }
            "simd_neg" => { let (a, s, _) = self.lane_n(&av[0], at[0])?; Some(self.mkvec(a.into_iter().map(neg).collect(), s)) }
            "simd_shuffle" | "simd_shuffle_const_generic" => {
                let (a, s, _) = self.lanes(&av[0], at[0])?;
                let (b, _, _) = self.lanes(&av[1], at[1])?;
                let idx: Vec<i128> = if n == "simd_shuffle" { let (x, _, _) = self.lane_n(&av[2], at[2])?; x.into_iter().map(cst).collect::<Option<Vec<_>>>()? } else { return None };
                let mut v = vec![];
                for (o, ix) in idx.into_iter().enumerate() { let ix = ix as usize; let sc = if ix < a.len() { a[ix].clone() } else { b.get(ix - a.len())?.clone() }; v.push(Cell { off: o as u32 * s, tag: 0, size: s, sc }); }
                Some(v)
            }
            "simd_insert" | "simd_insert_dyn" => { let ix = { let p = self.num(&av[1]); cst(p)? }; let (mut a, s, _) = self.lanes(&av[0], at[0])?; *a.get_mut(ix as usize)? = self.scalar(&av[2]); Some(a.into_iter().enumerate().map(|(o, sc)| Cell { off: o as u32 * s, tag: 0, size: s, sc }).collect()) }
            "simd_extract" | "simd_extract_dyn" => { let ix = { let p = self.num(&av[1]); cst(p)? }; let (a, s, _) = self.lanes(&av[0], at[0])?; Some(vsc(a.get(ix as usize)?.clone(), s)) }
            "simd_splat" => { let ls = self.leaves(dty)?; let sc = self.scalar(&av[0]); Some(ls.iter().map(|l| Cell { off: l.off, tag: 0, size: l.size, sc: sc.clone() }).collect()) }
            "simd_cast" | "simd_as" => { let (a, _, _) = self.lane_n(&av[0], at[0])?; let ls = self.leaves(dty)?; Some(ls.iter().zip(a).map(|(l, p)| Cell { off: l.off, tag: 0, size: l.size, sc: Sc::N(p) }).collect()) }
            "simd_eq" | "simd_ne" | "simd_lt" | "simd_le" | "simd_gt" | "simd_ge" => {
                let (a, s, kd) = self.lane_n(&av[0], at[0])?;
                let (b, _, _) = self.lane_n(&av[1], at[1])?;
                let mut o = vec![];
                for (x, y) in a.into_iter().zip(b) { let d = sub(x, y); let e = if kd == LK::Float { feq0(d) } else { eq0(d) }; o.push(neg(match n { "simd_eq" => e, "simd_ne" => not(e), _ => return None })); }
                Some(self.mkvec(o, s))
            }
            "simd_select" => { let (m, _, _) = self.lane_n(&av[0], at[0])?; let (a, s, _) = self.lanes(&av[1], at[1])?; let (b, _, _) = self.lanes(&av[2], at[2])?; Some(m.into_iter().enumerate().map(|(ix, g)| Cell { off: ix as u32 * s, tag: 0, size: s, sc: merge_sc(neg(g), &a[ix], &b[ix]) }).collect()) }
            "simd_reduce_add_ordered" | "simd_reduce_add_unordered" => { let (a, s, _) = self.lane_n(&av[0], at[0])?; let mut r = if n.ends_with("_ordered") && av.len() > 1 && n == "simd_reduce_add_ordered" { self.num(&av[1]) } else { ZERO }; for x in a { r = add(r, x); } Some(vn(r, s)) }
            "simd_masked_load" | "simd_masked_store" => { let _ = (i, st); None }
            _ => None,
        }
    }
    fn std_model(&mut self, path: &str, i: Instance, av: &[Val], at: &[Ty], dty: Ty, mut st: State) -> R {
        let last = path.rsplit("::").next().unwrap_or("");
        if path.contains("libm::fma") { let f = |v: &Val| match v.first().map(|c| &c.sc) { Some(Sc::N(p)) => *p, _ => opaque("fma", true) }; let (a, b, c) = (f(&av[0]), f(&av[1]), f(&av[2])); let sz = self.size(dty); return Ok(Some((vn(add(mul(a, b), c), sz), st))); }
        match last {
            "__rust_alloc" | "__rust_alloc_zeroed" if path.starts_with("alloc::") => {
                let (s, a) = (self.num(&av[0]), self.num_align(&av[1]));
                let site = self.site();
                let nm = format!("heap#{}{}", site, if self.tags.is_empty() { String::new() } else { format!("{:?}", self.tags) });
                let b = self.base(&nm, BK::Heap, 1, Some(s));
                self.bases[b as usize].size = Some(s);
                if let Some(c) = cst(a) { self.bases[b as usize].align = c.max(1) as u64; }
                if last.ends_with("zeroed") { self.zeroed.insert(b); }
                let okk = pat(AD::BSym(format!("alloc_ok#{}", site)));
                self.ev(&st, EvK::Alloc { base: b, size: s, align: a });
                st.push_log(b, Ent::Havoc);
                ok(vsc(Sc::Ptr(Rc::new(vec![(okk, b, ZERO), (not(okk), NULLB, ZERO)])), 8), st)
            }
            "__rust_dealloc" if path.starts_with("alloc::") => {
                let (p, s, a) = (self.scalar(&av[0]), self.num(&av[1]), self.num_align(&av[2]));
                self.ev(&st, EvK::Dealloc { ptr: p, size: s, align: a });
                ok(vec![], st)
            }
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => ok(vec![], st),
            "handle_alloc_error" => { self.ev(&st, EvK::Extern { name: "handle_alloc_error".into() }); Ok(None) }
            "with" | "try_with" if path.contains("thread::local::LocalKey") || path.contains("thread::LocalKey") => {
                // one instance of the thread-local per thread; threads are told apart by the fork/join branch
                let vt = self.generic_ty(i, 0).unwrap();
                let key = match self.scalar(&av[0]) { Sc::Ptr(p) if p.len() == 1 => format!("{}+{}", if is_local(p[0].1) { "l".into() } else { self.bases[p[0].1 as usize].name.clone() }, show(p[0].2)), _ => "key".into() };
                let tg = self.thread_tag();
                let nm = format!("tls {} {} @{}", TyName(vt), key, tg);
                let al = self.shape(vt).abi_align;
                let sz = self.size(vt);
                let seen = self.base_ix.contains_key(&nm);
                let b = self.base(&nm, BK::Tls, al, Some(k(sz as i128)));
                if !seen { self.tls_init(b, vt, &av[0]); }
                let arg = vsc(Sc::ptr(b, ZERO), 8);
                let r = self.call_value(&av[1], at[1], vec![arg], None, dty, st);
                if last == "try_with" { self.note("LocalKey::try_with"); }
                Ok(r)
            }
            "join" if path.contains("thread_tree") => { let t = (0..2).map(|x| (av[x + 1].clone(), at[x + 1])).collect::<Vec<_>>(); let c = self.node(&av[0], at[0], &st); self.join(t, false, c, dty, st) }
            "join3l" | "join4" if path.contains("thread_tree") => { let n = if last == "join4" { 4 } else { 3 }; let t = (0..n).map(|_| (av[1].clone(), at[1])).collect::<Vec<_>>(); let c = self.node(&av[0], at[0], &st); self.join(t, true, c, dty, st) }
            "force" | "deref" if path.contains("once_cell") || path.contains("LazyLock") => {
                let nm = format!("lazy {}", match self.scalar(&av[0]) { Sc::Ptr(p) if p.len() == 1 && !is_local(p[0].1) => self.bases[p[0].1 as usize].name.clone(), _ => "?".into() });
                let b = self.base(&nm, BK::Opaque, 64, None);
                self.ev(&st, EvK::Force { base: b });
                ok(vsc(Sc::ptr(b, ZERO), 8), st)
            }
            _ => {
                if path.contains("std_detect") || path.starts_with("std::std_detect") {
                    let feat = match last { "check_for" | "test" => { match self.scalar(&av[0]) { Sc::N(p) => cst(p).map(|c| format!("#{}", c)), _ => { let t = at[0]; let d = self.discr(&av[0].clone(), t); cst(d).map(|c| self.feature_name(t, c)) } } } _ => Some(last.to_string()) };
                    if dty.kind().is_bool() { if let Some(f) = feat { self.cpu_log.borrow_mut().insert(f.clone()); if let Some(c) = &self.cpu { let v = c.contains(&f); return ok(vn(k(v as i128), 1), st); } return ok(vn(pat(AD::BSym(format!("cpu:{}", f))), 1), st); } }
                }
                if let Some(r) = self.env_model(path, last, i, av, at, dty, &mut st) { return Ok(r.map(|v| (v, st))); }
                if path.starts_with("std::io::") || path.starts_with("std::env::") || path.starts_with("core::fmt::") || path.starts_with("alloc::fmt::") || path.contains("num_cpus") || path.starts_with("std::panicking::") && !matches!(dty.kind(), TyKind::RigidTy(RigidTy::Never)) {
                    self.externs.insert(path.to_string());
                    let v = if path.starts_with("std::env::") { self.env_val(path, av, dty) } else { self.opaque_val(dty) };
                    return ok(v, st);
                }
                let _ = i;
                Err(st)
            }
        }
    }
    /// settings read from the process environment, the number of cores, and the construction of the thread pool
    fn env_model(&mut self, path: &str, last: &str, i: Instance, av: &[Val], at: &[Ty], dty: Ty, st: &mut State) -> Option<Option<Val>> {
        if path == "std::env::var" || path == "std::env::var_os" {
            let name = self.const_str(st, &av[0], at[0]).unwrap_or_else(|| "?".into());
            self.externs.insert(format!("env {}", name));
            let set = pat(AD::BSym(format!("env_set:{}", name)));
            let pay = self.variant_fields(dty, if last == "var" { 0 } else { 1 });
            let (off, ty) = *pay.first()?;
            let mut v = self.string_val(&format!("env:{}", name), ty, off)?;
            // the error: absent, or present and not unicode
            if last == "var" {
                if let Some((eo, ety)) = self.variant_fields(dty, 1).first().cloned() {
                    let t = self.tag(ety);
                    v.push(Cell { off: eo, tag: t, size: 0, sc: Sc::N(pat(AD::BSym(format!("env_not_unicode:{}", name)))) });
                    v.sort_by_key(|c| (c.off, c.tag, c.size));
                }
            }
            let idx = if last == "var" { not(set) } else { set };
            return Some(Some(self.mk_enum(dty, v, idx)));
        }
        if last == "from_str" && path.contains("FromStr") || last == "from_str_radix" || last == "from_ascii" {
            let pay = self.variant_fields(dty, 0);
            let (off, ty) = *pay.first()?;
            let TyKind::RigidTy(rt) = ty.kind() else { return None };
            let bits = self.size(ty) * 8;
            let nm = self.str_name(&av[0]);
            let ex = last != "from_str";
            let val = match rt {
                RigidTy::Uint(_) => atom(AD::Sym { name: format!("number({})", nm), nonneg: true, real: false, lo: Some(0), hi: if bits < 63 { Some((1i64 << bits) - 1) } else { None } }),
                RigidTy::Int(_) => atom(AD::Sym { name: format!("signed{}({})", bits, nm), nonneg: false, real: false, lo: if bits < 64 { Some(-(1i64 << (bits - 1))) } else { Some(i64::MIN) }, hi: if bits < 64 { Some((1i64 << (bits - 1)) - 1) } else { Some(i64::MAX) } }),
                _ => return None,
            };
            let okk = pat(AD::BSym(format!("parses{}:{}:{}", if ex { "radix" } else { "" }, bits, nm)));
            let v = vec![Cell { off, tag: 0, size: bits / 8, sc: Sc::N(pa(val)) }];
            return Some(Some(self.mk_enum(dty, v, not(okk))));
        }
        if path.starts_with("num_cpus::") || path.contains("num_cpus::") {
            self.externs.insert(path.to_string());
            if dty.kind() == TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) { return Some(Some(vn(pa(atom(AD::Sym { name: format!("cores({})", last), nonneg: true, real: false, lo: Some(1), hi: None })), 8))); }
        }
        if last == "available_parallelism" && path.starts_with("std::thread") {
            let (off, _) = *self.variant_fields(dty, 0).first()?;
            let v = vec![Cell { off, tag: 0, size: 8, sc: Sc::N(pa(atom(AD::Sym { name: "cores(available_parallelism)".into(), nonneg: true, real: false, lo: Some(1), hi: None }))) }];
            return Some(Some(self.mk_enum(dty, v, pat(AD::BSym("no_parallelism_info".into())))));
        }
        if path.contains("<impl str>::trim") || path.contains("<impl str>::strip") && false {
            let nm = format!("{}.trim", self.str_name(&av[0]));
            let b = self.base(&nm, BK::Ext, 1, None);
            let len = sym(&format!("len({})", nm));
            let whole = self.second(&av[0]);
            if let Some(Sc::N(w)) = whole { st.know(|f| f.add_ge(sub(w, len))); }
            return Some(Some(vec![Cell { off: 0, tag: 0, size: 8, sc: Sc::ptr(b, ZERO) }, Cell { off: 8, tag: 0, size: 8, sc: Sc::N(len) }]));
        }
        if path.starts_with("thread_tree::") && (last.starts_with("new_with_level") || last.starts_with("new_level")) {
            let level = if last == "new_level0" { ZERO } else { self.num(&av[0]) };
            self.ev(st, EvK::Pool { level });
            if last != "new_level0" { let nm = format!("pool#{}", self.site()); let b = self.base(&nm, BK::Opaque, 64, None); return Some(Some(vsc(Sc::ptr(b, ZERO), 8))); }
            return Some(Some(self.opaque_val(dty)));
        }
        let _ = i;
        None
    }
    /// (offset, type) of the fields of one enum variant
    fn variant_fields(&mut self, ty: Ty, v: usize) -> Vec<(u32, Ty)> {
        let TyKind::RigidTy(RigidTy::Adt(d, args)) = ty.kind() else { return vec![] };
        let Some(vd) = d.variants().into_iter().nth(v) else { return vec![] };
        let n = vd.fields().len();
        let tys: Vec<Ty> = vd.fields().iter().map(|f| f.ty_with_args(&args)).collect();
        (0..n).map(|i| (self.field_off(ty, Some(v), i), tys[i])).collect()
    }
    fn mk_enum(&mut self, ty: Ty, mut pay: Val, idx: P) -> Val {
        let t = self.tag(ty);
        pay.push(Cell { off: 0, tag: t, size: 0, sc: Sc::N(idx) });
        pay.sort_by_key(|c| (c.off, c.tag, c.size));
        pay
    }
    /// an owned string with unknown contents: the data pointer names it, its length is free
    fn string_val(&mut self, name: &str, ty: Ty, off: u32) -> Option<Val> {
        let ls = self.leaves(ty)?;
        // the length is the field outside of the raw buffer
        let mut t = ty;
        let mut o = 0;
        let mut len = None;
        for _ in 0..4 {
            let f = self.fields(t);
            if f.len() == 1 { o += self.field_off(t, None, 0); t = f[0]; continue; }
            for (ix, x) in f.iter().enumerate() { if x.kind() == TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) { len = Some(o + self.field_off(t, None, ix)); } }
            break;
        }
        let len = len?;
        let b = self.base(name, BK::Ext, 1, None);
        Some(ls.iter().map(|l| Cell { off: off + l.off, tag: 0, size: l.size, sc: match l.kind { LK::Ptr => Sc::ptr(b, ZERO), _ if l.off == len => Sc::N(sym(&format!("len({})", name))), _ => Sc::N(sym(&format!("cap({})", name))) } }).collect())
    }
    fn str_name(&mut self, v: &Val) -> String { match self.scalar(v) { Sc::Ptr(p) if p.len() == 1 && !is_local(p[0].1) => self.bases[p[0].1 as usize].name.clone(), _ => "?".into() } }
    /// text of a constant string argument
    pub fn const_str(&mut self, st: &State, v: &Val, ty: Ty) -> Option<String> {
        let (mut v, mut ty) = (v.clone(), ty);
        while let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = ty.kind() {
            if matches!(t.kind(), TyKind::RigidTy(RigidTy::Str)) { break; }
            let Sc::Ptr(p) = self.scalar(&v) else { return None };
            v = self.typed_load(st, &p, t, 1, &[]);
            ty = t;
        }
        let (Sc::Ptr(p), Some(Sc::N(n))) = (self.scalar(&v), self.second(&v)) else { return None };
        let n = cst(n)?;
        if p.len() != 1 || is_local(p[0].1) || n > 200 { return None; }
        let o = cst(p[0].2)? as usize;
        let a = self.bases[p[0].1 as usize].alloc.clone()?;
        let b: Option<Vec<u8>> = (0..n as usize).map(|i| a.bytes.get(o + i).cloned().flatten()).collect();
        String::from_utf8(b?).ok()
    }
    fn env_val(&mut self, _path: &str, _av: &[Val], dty: Ty) -> Val { self.opaque_val(dty) }
    fn feature_name(&mut self, t: Ty, d: i128) -> String {
        if let TyKind::RigidTy(RigidTy::Adt(a, _)) = t.kind() { if let Some(v) = a.variants().into_iter().nth(d as usize) { return v.name().to_string(); } }
        format!("#{}", d)
    }
    fn num_align(&mut self, v: &Val) -> P {
        match v.iter().find(|c| c.tag == 0).map(|c| c.sc.clone()) {
            Some(Sc::N(p)) => p,
            _ => match v.iter().find(|c| c.tag != 0).map(|c| c.sc.clone()) { Some(Sc::N(p)) => match cst(p) { Some(c) => k(1i128 << c), None => pow2(p) }, _ => self.undef_n("alignment", false) },
        }
    }
    pub fn thread_tag(&self) -> String { self.tags.iter().map(|(a, b)| format!("{}.{}", a, b)).collect::<Vec<_>>().join("/") }
    /// call a closure / fn value with the given arguments (already unpacked)
    pub fn call_value(&mut self, f: &Val, fty: Ty, args: Vec<Val>, _tys: Option<Vec<Ty>>, dty: Ty, mut st: State) -> Option<(Val, State)> {
        let (ty, by_ref) = match fty.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => (t, true), _ => (fty, false) };
        let (inst, want_ref) = match ty.kind() {
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                // the closure body itself decides how it takes its environment
                let i = Instance::resolve_closure(d, &a, ClosureKind::Fn).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnMut)).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnOnce)).ok()?;
                let fi = self.fninfo(i);
                let wr = fi.map_or(true, |f| matches!(f.body.locals()[1].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..))));
                (i, wr)
            }
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => { let i = Instance::resolve(d, &a).ok()?; return self.invoke(i, args, vec![], dty, st); }
            _ => { self.note("call of an unknown callable"); let v = self.opaque_val(dty); return Some((v, st)); }
        };
        let env = if want_ref && !by_ref {
            // spill the closure into a scratch frame so that it can be borrowed
            let depth = st.frames.len();
            let mut o = Obj::default();
            for c in f { o.put(0, c.clone()); }
            st.frames.push(Rc::new(Frame { objs: vec![Rc::new(o)], who: None }));
            let mut a = vec![vsc(Sc::ptr(local_base(depth, 0), ZERO), 8)];
            a.extend(args);
            let r = self.exec_fn(inst, a, st)?;
            let (v, mut s) = r;
            s.frames.truncate(depth);
            return Some((v, s));
        } else if !want_ref && by_ref {
            match self.scalar(f) { Sc::Ptr(p) => self.typed_load(&st, &p, ty, 1, &[]), _ => return None }
        } else { f.clone() };
        let mut a = vec![env];
        a.extend(args);
        self.exec_fn(inst, a, st)
    }
    /// first value of a thread-local: its constant initialiser, or what its initialisation function returns
    fn tls_init(&mut self, b: Base, vt: Ty, key: &Val) {
        if self.size(vt) > 64 { return; }
        let Sc::Ptr(p) = self.scalar(key) else { return };
        let Some(a) = (if p.len() == 1 && !is_local(p[0].1) { self.bases[p[0].1 as usize].alloc.clone() } else { None }) else { return };
        let mut todo: Vec<(Instance, u32)> = a.provenance.ptrs.iter().filter_map(|(_, p)| if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) { Some((i, 0)) } else { None }).collect();
        let mut seen: std::collections::HashSet<Instance> = Default::default();
        while let Some((i, dep)) = todo.pop() {
            if !seen.insert(i) || dep > 6 { continue; }
            let Some(body) = i.body() else { continue };
            if i.name().ends_with("__rust_std_internal_init_fn") {
                self.quiet += 1;
                let args: Vec<Val> = body.arg_locals().iter().map(|_| vec![]).collect();
                let st = State { frames: vec![], logs: Default::default(), path: root_path(crate::prove::Facts::new()) };
                if let Some((v, _)) = self.exec_fn(i, args, st) { self.keep_init(b, &v); }
                self.quiet -= 1;
                return;
            }
            for blk in &body.blocks {
                for s in &blk.statements { if let StatementKind::Assign(_, Rvalue::ThreadLocalRef(it)) = &s.kind { if let Ok(d) = StaticDef::try_from(*it) { if d.ty() == vt { self.static_init(b, d, Some(vt)); return; } } } }
                if let TerminatorKind::Call { func: Operand::Constant(c), args, .. } = &blk.terminator.kind {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, g)) = c.const_.ty().kind() { if let Ok(x) = Instance::resolve(d, &g) { todo.push((x, dep + 1)); } }
                    for o in args { if let Ok(t) = o.ty(body.locals()) { if let TyKind::RigidTy(RigidTy::Closure(d, g)) = t.kind() { if let Ok(x) = Instance::resolve_closure(d, &g, ClosureKind::FnOnce) { todo.push((x, dep + 1)); } } } }
                }
            }
        }
    }
    /// the tree node a context stands for: how many of the enclosing fork/join branches lead to it
    fn node(&mut self, a: &Val, t: Ty, st: &State) -> Option<usize> {
        let TyKind::RigidTy(RigidTy::Ref(_, ct, _)) = t.kind() else { return None };
        let Sc::Ptr(p) = self.scalar(a) else { return None };
        let v = self.typed_load(st, &p, ct, 8, &[]);
        let bs: BTreeSet<Base> = v.iter().flat_map(|c| match &c.sc { Sc::Ptr(p) => p.iter().map(|x| x.1).collect::<Vec<_>>(), _ => vec![] }).collect();
        if bs.is_empty() || bs.iter().any(|b| is_local(*b)) { return None; }
        let names: BTreeSet<Option<&str>> = bs.iter().map(|b| self.bases[*b as usize].name.strip_prefix("threadpool ctx ")).collect();
        if names.len() != 1 { return None; }
        match names.into_iter().next().unwrap() {
            None => Some(0),
            Some(tag) => { let all: Vec<String> = self.tags.iter().map(|(a, b)| format!("{}.{}", a, b)).collect(); (1..=all.len()).find(|n| all[..*n].join("/") == tag) }
        }
    }
    fn join(&mut self, tasks: Vec<(Val, Ty)>, indexed: bool, node: Option<usize>, dty: Ty, mut st: State) -> R {
        let id = self.site() + 1;
        let n = tasks.len() as u32;
        self.ev(&st, EvK::Join { id, n, depth: st.frames.len() as u32, node });
        if node.is_none() { self.note("thread pool context not followed"); }
        for (ix, (f, t)) in tasks.into_iter().enumerate() {
            self.tags.push((id, ix as u32));
            let b = self.base(&format!("threadpool ctx {}", self.thread_tag()), BK::Opaque, 8, None);
            let ctx = vec![Cell { off: 0, tag: 0, size: 8, sc: Sc::ptr(b, ZERO) }, Cell { off: 8, tag: 0, size: 8, sc: Sc::ptr(b, ZERO) }];
            let mut args = vec![ctx];
            if indexed { args.push(vn(k(ix as i128), 8)); }
            let unit = dty;
            let r = self.call_value(&f, t, args, None, unit, st);
            self.tags.pop();
            match r { Some((_, s)) => st = s, None => return Ok(None) }
        }
        ok(vec![], st)
    }
}
fn pow2(p: P) -> P { if atoms_of(p).iter().all(|a| is_ind(*a)) { ind_map(p, &|v| 1i128 << v.clamp(0, 62)).unwrap_or_else(|| fun("u:pow2", vec![p], false)) } else { fun("u:pow2", vec![p], false) } }
/// xor with the sign-bit constant is negation (floats seen through integer lanes)
fn signflip(x: P, y: P, s: u32) -> Option<P> {
    let sb = 1i128 << (s * 8 - 1);
    for (a, b) in [(x, y), (y, x)] {
        if cst(b) == Some(sb) || cst(b) == Some(-sb) {
            let ts = terms(a);
            if ts.len() == 1 && ts[0].1 == 1 && mono_len(ts[0].0) == 1 { if let AD::Fun(n, v, _) = ad(mono(ts[0].0)[0]) { if n == "bits" { return Some(fun("bits", vec![neg(v[0])], false)); } } }
        }
    }
    None
}
