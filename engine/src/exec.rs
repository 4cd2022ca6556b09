//! Control flow: blocks, joins, loop summaries, calls.
use crate::expr::*;
use crate::interp::*;
use crate::prove::Facts;
use crate::state::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

type Key = (Base, u32, u16, u32);
const UNROLL: usize = 300;

#[derive(Clone)]
struct Phi { v0: Sc, cur: Sc, closed: Option<Sc> }

fn get_cell(st: &State, k: &Key) -> Option<Sc> {
    st.obj(k.0)?.cells.iter().find(|c| (c.off, c.tag, c.size) == (k.1, k.2, k.3)).map(|c| c.sc.clone())
}
fn set_cell(st: &mut State, k: &Key, sc: Option<Sc>) {
    if let Some(o) = st.obj_mut(k.0) {
        match sc {
            Some(sc) => {
                if let Some(c) = o.cells.iter_mut().find(|c| (c.off, c.tag, c.size) == (k.1, k.2, k.3)) { c.sc = sc; }
                else { o.put(0, Cell { off: k.1, tag: k.2, size: k.3, sc }); }
            }
            None => o.cells.retain(|c| (c.off, c.tag, c.size) != (k.1, k.2, k.3)),
        }
    }
}
pub enum Trip { Known(P), Unknown, Never }

impl An {
    pub fn over(&mut self) -> bool {
        if self.overrun { return true; }
        if self.steps > self.max_steps || (self.steps & 255 == 0 && std::time::Instant::now() > self.deadline) || cx().overflow {
            self.overrun = true;
            self.notes.insert(if cx().overflow { "arithmetic overflow in the analysis".into() } else { "analysis budget exhausted".into() }, 1);
        }
        self.overrun
    }
    pub fn exec_fn(&mut self, inst: Instance, args: Vec<Val>, mut st: State) -> Option<(Val, State)> {
        let fi = match self.fninfo(inst) { Some(f) => f, None => { let n = self.path_of(inst); self.note(format!("no body for {}", n)); return None; } };
        if st.frames.len() > 70 { self.note("call depth"); return None; }
        let depth = st.frames.len();
        let mut objs: Vec<Rc<Obj>> = (0..fi.body.locals().len()).map(|_| Rc::new(Obj::default())).collect();
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 >= objs.len() { break; }
            let mut o = Obj::default();
            for c in a { o.put(0, c); }
            objs[i + 1] = Rc::new(o);
        }
        st.frames.push(Rc::new(Frame { objs, who: Some(inst) }));
        self.called.insert(fi.name.clone());
        if self.trace { *self.fcount.entry((fi.name.clone(), self.quiet > 0)).or_default() += 1; }
        self.stack.push((fi.clone(), 0));
        let names = self.names.clone();
        let mut nn = (*names).clone();
        nn.push(fi.name.clone());
        self.names = Rc::new(nn);
        let span = self.cur_span;
        let out = self.run_blocks(&fi, None, 0, st);
        self.cur_span = span;
        self.names = names;
        self.stack.pop();
        let mut st = merge_all(out.rets)?;
        let rty = fi.body.locals()[0].ty;
        let _ = rty;
        let v: Val = st.obj(local_base(depth, 0)).map(|o| o.cells.clone()).unwrap_or_default();
        st.frames.truncate(depth);
        let v = if self.boundary && self.quiet == 0 && self.modes.is_empty() && depth > 0 && fi.local { self.split_result(&fi, rty, v, &st) } else { v };
        Some((v, st))
    }
    /// a small finite choice computed from run-time conditions (how many workers, say): one analysis per value
    fn split_result(&mut self, fi: &Rc<FnInfo>, rty: Ty, mut v: Val, st: &State) -> Val {
        if std::env::var("MMSA_NOSPLIT").is_ok() { return v; }
        let Some(ls) = self.leaves(rty) else { return v };
        // the caller hands on the same value: split there
        if let Some((c, _)) = self.stack.last() { if c.local && c.body.locals()[0].ty == rty { return v; } }
        for l in ls.iter() {
            if l.kind != LK::Int(false) { continue; }
            for c in v.iter_mut() {
                if c.off != l.off || c.tag != 0 || c.size != l.size { continue; }
                let Sc::N(p) = c.sc else { continue };
                let p = unlet(p);
                if cst(p).is_some() { continue; }
                let at = atoms_of(p);
                if at.len() > 16 || !at.iter().all(|a| is_ind(*a)) { continue; }
                let mut vals: BTreeSet<i128> = BTreeSet::new();
                // truth assignments of the conditions, branches the facts refute left out
                let mut todo = vec![(0usize, 0u32, st.facts().clone())];
                let mut left = 3000;
                while let Some((i, b, f)) = todo.pop() {
                    left -= 1;
                    if left == 0 { break; }
                    if i == at.len() { vals.insert(eval_ind(p, &at, b)); continue; }
                    for bit in 0..2u32 {
                        let mut g = f.clone();
                        g.assume(pa(at[i]), bit == 1);
                        if !g.dead { todo.push((i + 1, b | bit << i, g)); }
                    }
                }
                if left == 0 { continue; }
                if vals.is_empty() || vals.len() > 6 || vals.iter().all(|v| *v <= 1) { continue; }
                let vals: Vec<i128> = vals.into_iter().collect();
                let ix = self.choice_log.len();
                let pick = if self.choices.is_empty() { vals[0] } else { self.choices[ix % self.choices.len()] };
                let pick = if vals.contains(&pick) { pick } else { vals[0] };
                self.choice_log.push((format!("{}@{}", fi.name, l.off), vals, pick));
                self.choice_eqs.push((st.path.clone(), p, pick));
                c.sc = Sc::N(k(pick));
            }
        }
        v
    }
    pub fn run_blocks(&mut self, fi: &Rc<FnInfo>, region: Option<usize>, entry: usize, st: State) -> RegionOut {
        let mut out = RegionOut { back: vec![], exits: vec![], rets: vec![] };
        let mut pos = vec![usize::MAX; fi.body.blocks.len()];
        for (i, b) in fi.rpo.iter().enumerate() { pos[*b] = i; }
        let mut pend: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        pend.insert(pos[entry], vec![st]);
        while let Some((p, states)) = pend.pop_first() {
            if self.over() { break; }
            if let Some(m) = self.modes.last() { if m.abort && m.depth == states[0].frames.len() { break; } }
            let b = fi.rpo[p];
            let mut states = states;
            if states.len() > 1 { for s in states.iter_mut() { self.drop_dead(fi, b, s); } }
            let Some(s) = merge_all(states) else { continue };
            self.steps += 1;
            let nested = match fi.header_of.get(&b) { Some(l) if Some(*l) != region => Some(*l), _ => None };
            let mut succ: Vec<(usize, State)> = vec![];
            if let Some(l) = nested { let o = self.run_loop(fi, l, s); out.rets.extend(o.rets); succ.extend(o.exits); }
            else { self.exec_block(fi, b, s, &mut succ, &mut out.rets); }
            for (t, s) in succ {
                match region {
                    Some(r) => {
                        if t == fi.loops[r].header { out.back.push(s); }
                        else if !fi.loops[r].blocks.contains(&t) {
                            if fi.doomed[t] { let o = self.run_blocks(fi, None, t, s); debug_assert!(o.rets.is_empty()); }
                            else { out.exits.push((t, s)); }
                        } else { pend.entry(pos[t]).or_default().push(s); }
                    }
                    None => pend.entry(pos[t]).or_default().push(s),
                }
            }
        }
        out
    }
    /// values no path from here reads are not worth joining
    fn drop_dead(&self, fi: &Rc<FnInfo>, b: usize, s: &mut State) {
        let d = s.frames.len() - 1;
        for x in 1..fi.body.locals().len() {
            if fi.live[b][x] || fi.addr_taken[x] { continue; }
            let lb = local_base(d, x);
            if st_nonempty(s, lb) { s.obj_mut(lb).unwrap().cells.clear(); }
        }
    }
    fn mode_for(&self, fi: &Rc<FnInfo>, st: &State) -> Option<(usize, Mode)> {
        match self.modes.last() { Some(m) if m.depth == st.frames.len() && Rc::ptr_eq(&m.fi, fi) => Some((m.li, m.mode)), _ => None }
    }
    fn exec_block(&mut self, fi: &Rc<FnInfo>, b: usize, mut st: State, succ: &mut Vec<(usize, State)>, rets: &mut Vec<State>) {
        if let Some(t) = self.stack.last_mut() { t.1 = b; }
        let blk = &fi.body.blocks[b];
        let depth = st.frames.len() - 1;
        for s in &blk.statements {
            self.cur_span = Some(s.source_info.span);
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    let dty = match p.ty(fi.body.locals()) { Ok(t) => t, Err(_) => { self.note("place type"); continue } };
                    let mut v = self.rvalue(&mut st, fi, r, dty);
                    if self.boundary && fi.local { name_rounded(&mut v, dty); }
                    self.write_place(&mut st, fi, p, &v);
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let pl = self.place(&st, fi, place);
                    let t = self.tag(pl.ty);
                    let ix = { use rustc_public_bridge::IndexedVal; variant_index.to_index() };
                    for (g, bs, o) in pl.ptrs.iter() {
                        if is_local(*bs) && *g == one() { if let (Some(o), Some(ob)) = (cst(*o), st.obj_mut(*bs)) { ob.put(0, Cell { off: o as u32, tag: t, size: 0, sc: Sc::N(k(ix as i128)) }); } }
                        else { self.note("SetDiscriminant through a region"); }
                    }
                }
                StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                    let lb = local_base(depth, *l);
                    if st.obj(lb).map_or(false, |o| !o.cells.is_empty()) { st.obj_mut(lb).unwrap().cells.clear(); }
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                    let v = self.operand(&st, fi, o);
                    let c = self.num(&v);
                    if cst(c) != Some(1) { st.know(|f| f.assume(c, true)); if st.facts().dead { return; } }
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                    let (s, d, n) = (self.operand(&st, fi, &c.src), self.operand(&st, fi, &c.dst), self.operand(&st, fi, &c.count));
                    let ty = c.src.ty(fi.body.locals()).unwrap().kind().builtin_deref(true).unwrap().ty;
                    let n = self.num(&n);
                    let (s, d) = (self.scalar(&s), self.scalar(&d));
                    self.mem_copy(&mut st, &s, &d, n, ty);
                }
                _ => {}
            }
        }
        self.cur_span = Some(blk.terminator.source_info.span);
        match &blk.terminator.kind {
            TerminatorKind::Goto { target } => succ.push((*target, st)),
            TerminatorKind::Return => rets.push(st),
            TerminatorKind::Unreachable | TerminatorKind::Abort | TerminatorKind::Resume => {}
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&st, fi, discr);
                let ty = discr.ty(fi.body.locals()).unwrap();
                let x = self.num(&v);
                let isb = ty.kind().is_bool();
                let mut conds: Vec<(usize, P)> = vec![];
                let mut other = one();
                for (val, t) in targets.branches() {
                    let c = if isb { if val == 0 { not(x) } else { x } } else { eq0(sub(x, k(sign_discr(val, ty)))) };
                    other = mul(other, not(c));
                    if isb { other = not(c); }
                    match conds.iter_mut().find(|y| y.0 == t) { Some(y) => y.1 = add(y.1, c), None => conds.push((t, c)) }
                }
                let t = targets.otherwise();
                match conds.iter_mut().find(|y| y.0 == t) { Some(y) => y.1 = add(y.1, other), None => conds.push((t, other)) }
                // only edges the current knowledge allows
                let mut feas: Vec<(usize, P, State)> = vec![];
                for (t, c) in conds { if let Some(s) = st.clone().assume(c) { feas.push((t, c, s)); } }
                // the entailment is checked again at every valuation the summary is evaluated at
                if feas.len() == 1 && self.boundary && cst(feas[0].1).is_none() { self.ev(&st, EvK::Audit { cond: feas[0].1 }); }
                if feas.len() == 1 {
                    if let Some((li, Mode::Unroll)) = self.mode_for(fi, &st) {
                        let l = &fi.loops[li];
                        let all: Vec<usize> = targets.all_targets();
                        if all.iter().any(|t| !l.blocks.contains(t) && !fi.doomed[*t]) && all.iter().any(|t| l.blocks.contains(t)) { self.modes.last_mut().unwrap().decided += 1; }
                    }
                }
                if feas.len() > 1 {
                    if let Some((li, mode)) = self.mode_for(fi, &st) {
                        let l = &fi.loops[li];
                        let is_exit = |t: usize| !l.blocks.contains(&t) && !fi.doomed[t];
                        let (ne, nin) = (feas.iter().filter(|f| is_exit(f.0)).count(), feas.iter().filter(|f| l.blocks.contains(&f.0)).count());
                        if ne > 0 && nin > 0 {
                            match mode {
                                Mode::Unroll => {
                                    // a data-dependent early exit of a counted loop does not prevent unrolling
                                    let m = self.modes.last_mut().unwrap();
                                    m.undecided += 1;
                                    if l.exits.len() < 2 { m.abort = true; return; }
                                }
                                Mode::Final => {
                                    // exit edges are not taken in iterations before the last
                                    feas.retain(|f| !is_exit(f.0));
                                    if feas.len() == 1 { let (t, c, _) = feas.pop().unwrap(); let mut s = st; s.know(|f| f.assume(c, true)); succ.push((t, s)); return; }
                                }
                                Mode::Exit => {
                                    if l.exits.len() == 1 {
                                        feas.retain(|f| is_exit(f.0));
                                        let (t, c, _) = feas.pop().unwrap();
                                        let mut s = st;
                                        s.know(|f| f.assume(c, true));
                                        succ.push((t, s));
                                        return;
                                    }
                                }
                                Mode::Normal => {}
                            }
                        }
                    }
                }
                for (t, _, s) in feas { succ.push((t, s)); }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(fi.body.locals()).unwrap();
                let i = Instance::resolve_drop_in_place(ty);
                if i.is_empty_shim() { succ.push((*target, st)); return; }
                if TyName(ty).to_string().contains("ThreadTree") || TyName(ty).to_string().contains("Sender<") { succ.push((*target, st)); return; }
                let pl = self.place(&st, fi, place);
                let arg = vsc(Sc::Ptr(pl.ptrs.clone()), 8);
                if let Some((_, s)) = self.invoke(i, vec![arg], vec![], ty, st) { succ.push((*target, s)); }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&st, fi, cond);
                let c = self.num(&v);
                let c = if *expected { c } else { not(c) };
                let what = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "assert".into());
                match st.facts().decide(c) {
                    Some(true) => { if self.quiet == 0 { self.asserts_ok += 1; } succ.push((*target, st)) }
                    Some(false) => self.ev(&st, EvK::Panic { what }),
                    None => { self.ev(&st, EvK::Assert { cond: c, what }); if let Some(s) = st.assume(c) { succ.push((*target, s)); } }
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let av: Vec<Val> = args.iter().map(|a| self.operand(&st, fi, a)).collect();
                let at: Vec<Ty> = args.iter().map(|a| a.ty(fi.body.locals()).unwrap()).collect();
                let dty = destination.ty(fi.body.locals()).unwrap();
                let fty = func.ty(fi.body.locals()).unwrap();
                let res = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                        if self.boundary {
                            if let Some(r) = self.contract(&mut st, d, &ga, &av, dty) { Some((r, st)) } else { self.call_def(d, &ga, av, at, dty, st) }
                        } else { self.call_def(d, &ga, av, at, dty, st) }
                    }
                    _ => {
                        let f = self.operand(&st, fi, func);
                        match self.scalar(&f) {
                            Sc::Fn(i) => self.invoke(i, av, at, dty, st),
                            _ => { self.note("call through an unknown function pointer"); let v = self.opaque_val(dty); Some((v, st)) }
                        }
                    }
                };
                self.cur_span = Some(blk.terminator.source_info.span);
                if let Some(t) = self.stack.last_mut() { t.1 = b; }
                if let (Some((v, mut s)), Some(t)) = (res, target) {
                    let mut v = v;
                    if self.boundary { abbreviate(&mut v, dty); } self.write_place(&mut s, fi, destination, &v); succ.push((*t, s)); }
            }
            TerminatorKind::InlineAsm { destination, .. } => { self.note("inline assembly"); if let Some(t) = destination { succ.push((*t, st)); } }
        }
    }
    fn call_def(&mut self, d: FnDef, ga: &GenericArgs, av: Vec<Val>, at: Vec<Ty>, dty: Ty, st: State) -> Option<(Val, State)> {
        match Instance::resolve(d, ga) {
            Ok(i) => self.invoke(i, av, at, dty, st),
            Err(_) => { self.note(format!("unresolved call {:?}", d)); let v = self.opaque_val(dty); Some((v, st)) }
        }
    }
    pub fn invoke(&mut self, i: Instance, mut av: Vec<Val>, at: Vec<Ty>, dty: Ty, mut st: State) -> Option<(Val, State)> {
        let path = self.path_of(i);
        match self.model(&path, i, &av, &at, dty, st) { Ok(r) => return r, Err(s) => st = s }
        // target features of the callee that the caller does not have
        let fi = match self.fninfo(i) {
            Some(f) => f,
            None => {
                if dty.kind() == TyKind::RigidTy(RigidTy::Never) { self.ev(&st, EvK::Panic { what: path }); return None; }
                self.note(format!("no body for {}", path));
                self.ev(&st, EvK::Extern { name: path });
                let v = self.opaque_val(dty);
                return Some((v, st));
            }
        };
        if !fi.feats.is_empty() {
            let have: Vec<String> = self.stack.last().map_or(vec![], |s| s.0.feats.clone());
            if fi.feats.iter().any(|f| !have.contains(f)) { self.ev(&st, EvK::FeatCall { callee: fi.name.clone(), feats: fi.feats.clone() }); }
        }
        // "rust-call": closures take their arguments unpacked
        let is_clos = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        if is_clos && fi.body.spread_arg().is_none() && av.len() == 2 {
            if let Some(TyKind::RigidTy(RigidTy::Tuple(ts))) = at.get(1).map(|t| t.kind()) {
                let tup = av.pop().unwrap();
                let mut o = Obj::default();
                for c in tup { o.put(0, c); }
                for (ix, t) in ts.iter().enumerate() { let off = self.field_off(at[1], None, ix); let sz = self.size(*t); av.push(o.read(off, sz, &[])); }
                // closure value versus reference to closure: adjust the environment argument
            }
        }
        if is_clos && fi.nargs > 0 {
            let want_ref = matches!(fi.body.locals()[1].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..)));
            let have_ref = at.first().map_or(want_ref, |t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..) | RigidTy::RawPtr(..))));
            if want_ref != have_ref { self.note("closure environment passed by the wrong mode"); }
        }
        if self.boundary && fi.local { for (ix, a) in av.iter_mut().enumerate() { if let Some(l) = fi.body.locals().get(ix + 1) { abbreviate(a, l.ty); } } }
        self.exec_fn(i, av, st)
    }
    // ---------- loops ----------
    pub fn run_loop(&mut self, fi: &Rc<FnInfo>, li: usize, st: State) -> RegionOut {
        let l = &fi.loops[li];
        let h = l.header;
        let depth = st.frames.len();
        let ev0 = self.events.len();
        // 1. unrolling
        let ukey = (fi.name.clone(), li, depth, self.names.len() as u32);
        if !(self.boundary && self.no_unroll.contains(&ukey)) {
            let mut cur = st.clone();
            let mut acc = RegionOut { back: vec![], exits: vec![], rets: vec![] };
            let mut n = 0;
            loop {
                self.modes.push(ModeFrame { depth, fi: fi.clone(), li, mode: Mode::Unroll, abort: false, decided: 0, undecided: 0 });
                let o = self.run_blocks(fi, Some(li), h, cur);
                let m = self.modes.pop().unwrap();
                if self.overrun { return acc; }
                if m.abort || (m.undecided > 0 && m.decided == 0) { if n > 0 { self.no_unroll.insert(ukey); } break; }
                acc.exits.extend(o.exits);
                acc.rets.extend(o.rets);
                match merge_all(o.back) { None => return acc, Some(s) => cur = s }
                n += 1;
                if n > UNROLL { self.no_unroll.insert(ukey); break; }
            }
            self.events.truncate(ev0);
        }
        self.summarise(fi, li, st)
    }
    fn summarise(&mut self, fi: &Rc<FnInfo>, li: usize, st: State) -> RegionOut {
        let l = &fi.loops[li];
        let h = l.header;
        let depth = st.frames.len();
        let d0 = depth - 1;
        let ev0 = self.events.len();
        let empty = || RegionOut { back: vec![], exits: vec![], rets: vec![] };
        let mut s0 = st;
        for x in &l.assigned { if !fi.live[h][*x] && !fi.addr_taken[*x] { let lb = local_base(d0, *x); if st_nonempty(&s0, lb) { s0.obj_mut(lb).unwrap().cells.clear(); } } }
        let mut phis: BTreeMap<Key, Phi> = BTreeMap::new();
        let mkphi = |s0: &State, sc: &Sc| -> Sc {
            match sc {
                Sc::N(p) => { let nn = s0.facts().ge(*p) && terms(*p).iter().all(|(m, _)| mono(*m).iter().all(|a| !matches!(ad(*a), AD::Load(..) | AD::Tile(..) | AD::Sum(..)))); Sc::N(pat(AD::Phi(fresh_id(), nn))) }
                Sc::Ptr(v) => Sc::Ptr(Rc::new(v.iter().map(|(g, b, _)| (*g, *b, pat(AD::Phi(fresh_id(), false)))).collect())),
                x => x.clone(),
            }
        };
        for x in &l.assigned {
            let lb = local_base(d0, *x);
            let cells: Vec<Cell> = s0.obj(lb).map(|o| o.cells.clone()).unwrap_or_default();
            for c in cells { let kk = (lb, c.off, c.tag, c.size); let cur = mkphi(&s0, &c.sc); phis.insert(kk, Phi { v0: c.sc, cur, closed: None }); }
        }
        let mut chb: BTreeSet<Base> = BTreeSet::new();
        let memo_key = (fi.name.clone(), li, depth, self.names.len() as u32);
        if let Some((ks, bs)) = self.phi_memo.get(&memo_key) {
            for kk in ks { if let (false, Some(v0)) = (phis.contains_key(kk), get_cell(&s0, kk)) { let cur = mkphi(&s0, &v0); phis.insert(*kk, Phi { v0, cur, closed: None }); } }
            chb = bs.clone();
        }
        let mut round = 0;
        let (back, exits, hphi) = loop {
            round += 1;
            let mut sp = s0.clone();
            for (kk, p) in &phis { set_cell(&mut sp, kk, Some(p.cur.clone())); }
            for b in &chb { sp.push_log(*b, Ent::Prev { id: 0 }); }
            sp.path = push_path(&s0.path, one(), (*s0.path.facts).clone());
            let hp = sp.path.clone();
            let sp0 = sp.clone();
            self.quiet += 1;
            self.modes.push(ModeFrame { depth, fi: fi.clone(), li, mode: Mode::Normal, abort: false, decided: 0, undecided: 0 });
            let o = self.run_blocks(fi, Some(li), h, sp);
            self.modes.pop();
            self.quiet -= 1;
            if self.overrun { return empty(); }
            let Some(back) = merge_all(o.back) else {
                // never iterates: plain straight-line code
                self.modes.push(ModeFrame { depth, fi: fi.clone(), li, mode: Mode::Normal, abort: false, decided: 0, undecided: 0 });
                let mut o = self.run_blocks(fi, Some(li), h, s0);
                self.modes.pop();
                if let Some(b) = merge_all(std::mem::take(&mut o.back)) { self.note("loop back edge appeared"); let _ = b; }
                return o;
            };
            let mut grew = false;
            for d in 0..=d0 {
                if Rc::ptr_eq(&back.frames[d], &sp0.frames[d]) { continue; }
                for x in 0..back.frames[d].objs.len() {
                    if Rc::ptr_eq(&back.frames[d].objs[x], &sp0.frames[d].objs[x]) { continue; }
                    if d == d0 && !fi.live[h][x] && !fi.addr_taken[x] { continue; }
                    let lb = local_base(d, x);
                    let mut keys: BTreeSet<(u32, u16, u32)> = BTreeSet::new();
                    for c in back.frames[d].objs[x].cells.iter().chain(sp0.frames[d].objs[x].cells.iter()) { keys.insert((c.off, c.tag, c.size)); }
                    for (o_, t, s) in keys {
                        let kk = (lb, o_, t, s);
                        if phis.contains_key(&kk) { continue; }
                        let (a, b) = (get_cell(&sp0, &kk), get_cell(&back, &kk));
                        if a == b { continue; }
                        grew = true;
                        match a {
                            Some(v0) => { let cur = mkphi(&s0, &v0); phis.insert(kk, Phi { v0, cur, closed: None }); }
                            None => { let bsc = b.unwrap(); let cur = mkphi(&s0, &bsc); phis.insert(kk, Phi { v0: Sc::Undef, cur, closed: None }); }
                        }
                    }
                }
            }
            let bases: BTreeSet<Base> = back.logs.keys().cloned().collect();
            for b in bases { if !chb.contains(&b) && !log_same(&back.log(b), &sp0.log(b)) { chb.insert(b); grew = true; } }
            if !grew || round > 7 { if grew { self.note("loop state did not stabilise"); } break (back, o.exits, hp); }
        };
        { let e = self.phi_memo.entry(memo_key).or_default(); e.0.extend(phis.keys().cloned()); e.1.extend(chb.iter().cloned()); }
        // 2. closed forms
        self.nloops += 1;
        let id = fresh_id();
        let t = atom(AD::LVar(id));
        let tp = pa(t);
        let hf: Facts = { let mut f = (*s0.path.facts).clone(); f.add_ge(tp); f };
        let mut sol: HashMap<A, P> = HashMap::new();
        // flatten to scalar equations
        struct Eqn { key: Key, ph: A, v0: Option<P>, e: Option<P> }
        let mut eqs: Vec<Eqn> = vec![];
        let mut failed: BTreeSet<Key> = BTreeSet::new();
        let bf = back.path.facts.clone();
        for (kk, p) in &phis {
            let bv = get_cell(&back, kk);
            match (&p.cur, &p.v0, &bv) {
                (Sc::N(c), v0, Some(Sc::N(e))) => {
                    let ph = atoms_of(*c)[0];
                    let v0 = match v0 { Sc::N(v) => Some(*v), _ => None };
                    eqs.push(Eqn { key: *kk, ph, v0, e: Some(bf.simp(unlet_for(*e, &|a| matches!(ad(a), AD::Phi(..))))) });
                }
                (Sc::Ptr(c), v0, Some(Sc::Ptr(e))) => {
                    for (i, (_, b, o)) in c.iter().enumerate() {
                        let ph = atoms_of(*o)[0];
                        let v0o = match v0 { Sc::Ptr(v) if v.len() == c.len() && v[i].1 == *b => Some(v[i].2), _ => None };
                        let same = e.len() == c.len() && e[i].1 == *b && bf.simp(sub(e[i].0, c[i].0)) == ZERO;
                        if !same { failed.insert(*kk); }
                        eqs.push(Eqn { key: *kk, ph, v0: v0o, e: if same { Some(bf.simp(e[i].2)) } else { None } });
                    }
                }
                (Sc::N(c), _, _) => { let ph = atoms_of(*c)[0]; eqs.push(Eqn { key: *kk, ph, v0: None, e: None }); failed.insert(*kk); }
                (Sc::Ptr(c), _, _) => { for (_, _, o) in c.iter() { eqs.push(Eqn { key: *kk, ph: atoms_of(*o)[0], v0: None, e: None }); } failed.insert(*kk); }
                (a, _, Some(b)) if a == b => {}
                _ => { failed.insert(*kk); }
            }
        }
        let allph: BTreeSet<A> = eqs.iter().map(|e| e.ph).collect();
        let mut progress = true;
        while progress {
            progress = false;
            for q in &eqs {
                if sol.contains_key(&q.ph) { continue; }
                let Some(e) = q.e else { continue };
                let e = hf.simp(subst(e, &sol));
                let mut at = BTreeSet::new();
                deep_atoms(e, &mut at);
                if at.iter().any(|a| *a != q.ph && allph.contains(a) && !sol.contains_key(a)) { continue; }
                if let Some(c) = recurrence(&hf, t, q.ph, q.v0, e) { sol.insert(q.ph, c); progress = true; }
            }
        }
        for q in &eqs {
            if !sol.contains_key(&q.ph) {
                let isint = q.v0.map_or(true, |v| terms(v).iter().all(|(m, _)| mono(*m).iter().all(|a| !matches!(ad(*a), AD::Load(..) | AD::Tile(..) | AD::Sum(..)))));
                sol.insert(q.ph, fun(&format!("?loop#{}", fresh_id()), vec![tp], !isint));
                failed.insert(q.key);
            }
        }
        if !failed.is_empty() && self.quiet == 0 && self.trace {
            for q in &eqs { if failed.contains(&q.key) { eprintln!("  unsolved {:?} {} v0={:?} e={:?}", q.key, show_atom(q.ph), q.v0.map(show), q.e.map(show)); } }
        }
        if !failed.is_empty() { self.note(format!("loop-carried value without closed form ({})", failed.len())); }
        for p in phis.values_mut() { p.closed = Some(p.cur.subst(&sol)); }
        // 3. trip count
        let mut conts: Vec<Vec<P>> = vec![];
        for (_, e) in &exits {
            let c: Vec<P> = suffix(&e.path, &hphi).into_iter().map(|c| hf.simp(subst(unlet_for(c, &|a| matches!(ad(a), AD::Phi(..))), &sol))).filter(|c| *c != one()).collect();
            conts.push(c);
        }
        let trip = trip_count(&hf, t, &conts);
        let tn = match &trip {
            Trip::Known(p) => { self.loop_ok += 1; *p }
            Trip::Never | Trip::Unknown => {
                let g = guard_show(&conts);
                let rec = Recur { eqs: eqs.iter().map(|q| (q.ph, q.v0, q.e)).collect(), exits: exits.iter().map(|(_, e)| suffix(&e.path, &hphi)).collect(), back: suffix(&back.path, &hphi) };
                if self.quiet == 0 { self.ev(&s0, EvK::NonTerm { cond: one(), rec: Rc::new(rec) }); }
                if let Trip::Never = trip { self.loop_log.push(format!("{}: loop exit condition never changes ({})", fi.name, g)); } else { self.note(format!("trip count of a loop not derived: {}", g)); self.loop_unk += 1; }
                fun(&format!("u:trip#{}", id), vec![], false)
            }
        };
        let at_t = |st: &State, phis: &BTreeMap<Key, Phi>, v: Option<P>| -> State {
            let mut s = st.clone();
            for (kk, p) in phis {
                let mut c = p.closed.clone().unwrap();
                if let Some(v) = v { let mut hm = HashMap::new(); hm.insert(t, v); c = c.subst(&hm); }
                set_cell(&mut s, kk, if matches!(c, Sc::Undef) { None } else { Some(c) });
            }
            s
        };
        // 4. recorded pass over a generic iteration
        let mut st_t = at_t(&s0, &phis, None);
        for b in &chb { st_t.push_log(*b, Ent::Prev { id }); }
        let mut f = (*s0.path.facts).clone();
        f.add_ge(tp);
        f.add_ge(addk(sub(tn, tp), -1));
        st_t.path = push_path(&s0.path, one(), f);
        let hlogs: Vec<(Base, Log)> = chb.iter().map(|b| (*b, st_t.log(*b))).collect();
        let mut body_ents: BTreeMap<Base, Vec<Ent>> = BTreeMap::new();
        if self.quiet > 0 { for b in &chb { body_ents.insert(*b, vec![Ent::Havoc]); } }
        else if !st_t.facts().dead {
            self.loops.push(LoopCtx { id, lvar: t, count: tn });
            self.modes.push(ModeFrame { depth, fi: fi.clone(), li, mode: Mode::Final, abort: false, decided: 0, undecided: 0 });
            let o = self.run_blocks(fi, Some(li), h, st_t.clone());
            self.modes.pop();
            self.loops.pop();
            if self.overrun { return empty(); }
            if let Some(back) = merge_all(o.back) {
                let f = back.path.facts.clone();
                let mut hm = HashMap::new();
                hm.insert(t, addk(tp, 1));
                for (kk, p) in &phis {
                    if failed.contains(kk) { continue; }
                    let want = p.closed.as_ref().unwrap().subst(&hm);
                    let got = get_cell(&back, kk).unwrap_or(Sc::Undef);
                    let ok = match (&want, &got) {
                        (Sc::N(a), Sc::N(b)) => { let (a, b) = (&unlet(*a), &unlet(*b)); let d = f.simp(sub(*a, *b)); d == ZERO || f.simp(sub(peel_sums(*a), peel_sums(*b))) == ZERO || f.eq(d) }
                        (Sc::Ptr(a), Sc::Ptr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.1 == y.1 && f.simp(sub(x.2, y.2)) == ZERO),
                        (a, b) => a == b,
                    };
                    if !ok { self.note("closed form of a loop-carried value not inductive"); if self.trace && self.quiet == 0 { eprintln!("  want {:?} got {:?}", show_sc(&want), show_sc(&got)); } }
                }
                for (b, hl) in &hlogs { let bl = back.log(*b); let s = log_suffix(&bl, &log_lca(&bl, hl)); if !s.is_empty() { body_ents.insert(*b, s); } }
            } else if !matches!(trip, Trip::Unknown | Trip::Never) && self.quiet == 0 { /* the body diverges whenever it is entered */ }
        }
        // 5. leaving iteration
        let mut se = at_t(&s0, &phis, Some(tn));
        for (b, ents) in body_ents { se.push_log(b, Ent::Loop { id, lvar: t, count: tn, ents: Rc::new(ents), guard: one() }); }
        let mut f = (*s0.path.facts).clone();
        f.add_ge(tn);
        let entry_path = push_path(&s0.path, one(), f);
        se.path = entry_path.clone();
        self.modes.push(ModeFrame { depth, fi: fi.clone(), li, mode: Mode::Exit, abort: false, decided: 0, undecided: 0 });
        let o = self.run_blocks(fi, Some(li), h, se);
        self.modes.pop();
        if let (true, Trip::Never) = (o.exits.is_empty(), &trip) { let _ = ev0; }
        let mut exits = o.exits;
        if l.exits.len() == 1 {
            for (_, e) in exits.iter_mut() { let f = (*e.path.facts).clone(); e.path = push_path(&entry_path, one(), f); }
        }
        RegionOut { back: vec![], exits, rets: o.rets }
    }
}
fn st_nonempty(s: &State, b: Base) -> bool { s.obj(b).map_or(false, |o| !o.cells.is_empty()) }
fn guard_show(c: &[Vec<P>]) -> String { let s: Vec<String> = c.iter().map(|v| v.iter().map(|p| show(*p)).collect::<Vec<_>>().join(" & ")).collect(); let mut s = s.join(" | "); s.truncate(200); s }
pub fn show_sc(s: &Sc) -> String { match s { Sc::N(p) => show(*p), Sc::Ptr(v) => v.iter().map(|(g, b, o)| format!("{}:{}+{}", if *g == one() { String::new() } else { show(*g) }, if is_local(*b) { format!("local{:?}", local_of(*b)) } else { base_name(*b) }, show(*o))).collect::<Vec<_>>().join(" | "), Sc::Fn(i) => i.name().to_string(), Sc::Undef => "undef".into() } }

/// value at iteration t of x(0)=v0, x(t+1)=e[ph:=x(t)]; e mentions no other unsolved header value
pub fn recurrence(f: &Facts, t: A, ph: A, v0: Option<P>, e: P) -> Option<P> {
    let php = pa(ph);
    let tp = pa(t);
    if e == php { return v0; }
    if !mentions(e, ph) {
        // value from the previous iteration
        let prev = subst1(e, t, addk(tp, -1));
        let Some(v0) = v0 else { return Some(prev) };
        let at0 = subst1(e, t, k(-1));
        if f.simp(sub(at0, v0)) == ZERO { return Some(prev); }
        let g = ge0(addk(tp, -1));
        return Some(add(mul(g, prev), mul(not(g), v0)));
    }
    let v0 = v0?;
    // x + c, x + f(t)
    if let Some((co, r)) = linear_in(e, ph) {
        if co == one() {
            if !mentions(r, t) { return Some(add(v0, mul(r, tp))); }
            let mut s = Default::default();
            deep_atoms(r, &mut s);
            if s.iter().any(|a| matches!(ad(*a), AD::Sum(..))) { return None; }
            let body = subst1(r, t, pat(AD::Bound));
            return Some(add(v0, sum(tp, body)));
        }
    }
    for (m, c) in terms(e) {
        if mono_len(m) != 1 || c.abs() != 1 { continue; }
        let rest = sub(e, scale(pm(m), c));
        match ad(mono(m)[0]) {
            AD::Max0(x) => {
                let Some((co, r)) = linear_in(*x, ph) else { continue };
                if c == 1 && rest == ZERO && co == one() && !mentions(r, t) && f.ge(neg(r)) && f.ge(v0) { return Some(max0(add(v0, mul(r, tp)))); }
                // x - max0(x - n)  and  n - max0(n - x), x = ph + step
                if c == -1 && co == one() {
                    let n = sub(rest, *x);
                    if !mentions(n, ph) && !mentions(n, t) { let step = add(r, n); if !mentions(step, t) && f.ge(step) && f.ge(sub(n, v0)) { return Some(pmin(add(v0, mul(step, tp)), n)); } }
                }
                if c == -1 && co == k(-1) && !mentions(rest, ph) && !mentions(rest, t) {
                    let n = rest;
                    let step = sub(n, r);
                    if !mentions(step, t) && f.ge(step) && f.ge(sub(n, v0)) { return Some(pmin(add(v0, mul(step, tp)), n)); }
                }
            }
            AD::Ge0(x) if c == 1 && rest == php => {
                let Some((co, r)) = linear_in(*x, ph) else { continue };
                if co == k(-1) && !mentions(r, t) { let e = addk(r, 1); if f.ge(sub(e, v0)) { return Some(pmin(add(v0, tp), e)); } }
            }
            _ => {}
        }
    }
    // an indicator that does not change during the loop: solve both cases
    let mut s = BTreeSet::new();
    deep_atoms(e, &mut s);
    let inds: Vec<A> = s.into_iter().filter(|a| is_ind(*a) && !mentions(pa(*a), ph) && !mentions(pa(*a), t)).collect();
    if inds.len() > 3 { return None; }
    for g in inds {
        let mut f1 = f.clone(); f1.assume(pa(g), true);
        let mut f0 = f.clone(); f0.assume(pa(g), false);
        let (a, b) = (recurrence(&f1, t, ph, Some(subst1(v0, g, one())), subst1(e, g, one())), recurrence(&f0, t, ph, Some(subst1(v0, g, ZERO)), subst1(e, g, ZERO)));
        if let (Some(a), Some(b)) = (a, b) { return Some(sel(pa(g), a, b)); }
    }
    None
}
/// first t >= 0 at which `cond` (continue condition) is false
fn first_false(f: &Facts, t: A, cond: P) -> Trip {
    let c = f.simp(cond);
    if let Some(v) = cst(c) { return if v == 0 { Trip::Known(ZERO) } else { Trip::Never }; }
    let ts = terms(c);
    // an indicator that does not change during the loop: decide both cases
    if ts.len() > 1 {
        if let Some(g) = atoms_of(c).into_iter().find(|a| is_ind(*a) && !mentions(pa(*a), t)) {
            let mut f1 = f.clone(); f1.assume(pa(g), true);
            let mut f0 = f.clone(); f0.assume(pa(g), false);
            let (r1, r0) = (first_false(&f1, t, subst1(c, g, one())), first_false(&f0, t, subst1(c, g, ZERO)));
            return match (r1, r0) {
                (Trip::Known(a), Trip::Known(b)) => Trip::Known(sel(pa(g), a, b)),
                (Trip::Known(a), Trip::Never) if f0.dead => Trip::Known(a),
                (Trip::Never, Trip::Known(b)) if f1.dead => Trip::Known(b),
                (Trip::Never, Trip::Never) => Trip::Never,
                _ => Trip::Unknown,
            };
        }
    }
    // product of indicators
    if ts.len() == 1 && ts[0].1 == 1 && mono_len(ts[0].0) > 1 {
        let mut best: Option<P> = None;
        for a in mono(ts[0].0) {
            match first_false(f, t, pa(a)) { Trip::Known(p) => best = Some(match best { None => p, Some(b) => pmin(b, p) }), Trip::Never => {} Trip::Unknown => return Trip::Unknown }
        }
        return match best { Some(b) => Trip::Known(b), None => Trip::Never };
    }
    if !mentions(c, t) {
        // a flag that never changes: leaves at once or never
        return Trip::Never;
    }
    let (pos, a) = if ts.len() == 1 && ts[0].1 == 1 && mono_len(ts[0].0) == 1 { (true, mono(ts[0].0)[0]) }
        else if ts.len() == 2 && ts[0] == (M(0), 1) && ts[1].1 == -1 && mono_len(ts[1].0) == 1 { (false, mono(ts[1].0)[0]) }
        else {
            // g*A + (1-g)*B with g = [t >= 1]
            let g = atom(AD::Ge0(addk(pa(t), -1)));
            if atoms_of(c).contains(&g) {
                let (c1, c0) = (subst1(c, g, one()), subst1(subst1(c, g, ZERO), t, ZERO));
                let c0 = f.simp(c0);
                let sh = subst1(c1, t, addk(pa(t), 1));
                let r = match first_false(f, t, sh) { Trip::Known(p) => Trip::Known(addk(p, 1)), x => x };
                return match (cst(c0), r) {
                    (Some(0), _) => Trip::Known(ZERO),
                    (Some(_), r) => r,
                    (None, Trip::Known(p)) => Trip::Known(mul(c0, p)),
                    (None, x) => x,
                };
            }
            return Trip::Unknown;
        };
    let lin = |p: P| linear_in(p, t);
    match ad(a) {
        AD::Ge0(x) => {
            // [x >= 0]
            let x = if pos { *x } else { addk(neg(*x), -1) };
            // strip an increasing/decreasing min or max around t
            if let Some((b, r)) = lin(x) {
                if let Some(bc) = cst(b) {
                    if bc < 0 { return Trip::Known(max0(addk(div(r, k(-bc)), 1))); }
                    // true once it is true
                    if f.ge(r) || bc >= 0 && f.ge(r) { return Trip::Never; }
                    return Trip::Unknown;
                }
                if f.ge(addk(neg(b), -1)) { return Trip::Known(max0(addk(div(r, neg(b)), 1))); }
                return Trip::Unknown;
            }
            // max0(u) - c >= 0 with c >= 1  <=>  u - c >= 0 ; sums of them are left alone
            let xt = terms(x);
            for (m, c) in &xt {
                if mono_len(*m) != 1 { continue; }
                if let AD::Max0(u) = ad(mono(*m)[0]) {
                    let rest = sub(x, scale(pm(*m), *c));
                    if *c == 1 && f.ge(addk(neg(rest), -1)) { return first_false(f, t, ge0(add(*u, rest))); }
                    if *c == -1 {
                        // rest - max0(u) >= 0  <=>  rest >= 0 and rest - u >= 0
                        let (p, q) = (first_false(f, t, ge0(rest)), first_false(f, t, ge0(sub(rest, *u))));
                        return match (p, q) { (Trip::Known(p), Trip::Known(q)) => Trip::Known(pmin(p, q)), (Trip::Never, x) | (x, Trip::Never) => x, _ => Trip::Unknown };
                    }
                    // max0(u) + rest, rest possibly positive: true while u + rest >= 0 or rest >= 0
                }
            }
            Trip::Unknown
        }
        AD::Eq0(x) if !pos => {
            if let Some((b, r)) = lin(*x) {
                if let Some(bc) = cst(b) {
                    let (r, s) = if bc > 0 { (neg(r), bc) } else { (r, -bc) };
                    // r - s*t == 0
                    let q = divk(r, s);
                    if f.simp(sub(r, scale(q, s))) == ZERO { if f.ge(q) { return Trip::Known(q); } return Trip::Unknown; }
                }
            }
            Trip::Unknown
        }
        AD::Eq0(x) if pos => { if let Some((b, r)) = lin(*x) { if cst(b).map_or(false, |b| b != 0) { return Trip::Known(eq0(r)); } } Trip::Unknown }
        _ => Trip::Unknown,
    }
}
fn trip_count(f: &Facts, t: A, exits: &[Vec<P>]) -> Trip {
    if exits.is_empty() { return Trip::Never; }
    let mut best: Option<P> = None;
    let mut lasts: Vec<P> = vec![];
    for e in exits { if let Some(l) = e.last() { lasts.push(not(*l)); } }
    let mut never = 0;
    for e in exits {
        // conditions that merely say no earlier exit was taken
        let rel: Vec<P> = match e.split_last() { None => vec![], Some((l, pre)) => { let mut v: Vec<P> = pre.iter().cloned().filter(|c| !lasts.contains(c) && f.decide(*c) != Some(true)).collect(); v.push(*l); v } };
        if rel.is_empty() { best = Some(ZERO); continue; }
        let g = rel.into_iter().fold(one(), mul);
        match first_false(f, t, not(g)) {
            Trip::Known(p) => best = Some(match best { None => p, Some(b) => pmin(b, p) }),
            Trip::Never => never += 1,
            Trip::Unknown => return Trip::Unknown,
        }
    }
    match best { Some(b) => Trip::Known(f.simp(b)), None => if never == exits.len() { Trip::Never } else { Trip::Unknown } }
}

fn abbreviate(v: &mut Val, ty: Ty) {
    if !matches!(ty.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize))) { return; }
    for c in v.iter_mut() { if let Sc::N(p) = c.sc { c.sc = Sc::N(let_(p)); } }
}

/// a quotient rounded up gets a name of its own
fn name_rounded(v: &mut Val, ty: Ty) {
    if !matches!(ty.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize))) { return; }
    for c in v.iter_mut() { if let Sc::N(p) = c.sc {
        let t = terms(p);
        if t.len() > 1 && t.iter().any(|(m, _)| mono_len(*m) == 1 && matches!(ad(mono(*m)[0]), AD::NDvd(..))) { c.sc = Sc::N(let_(p)); }
    } }
}
