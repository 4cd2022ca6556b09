//! Rules outside of the loop nest: start-up settings, build-time settings, global state, fork/join discipline.
use crate::expr::*;
use crate::interp::*;
use crate::ob::*;
use crate::prove::Facts;
use crate::state::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub fn statics() -> Vec<(String, StaticDef)> {
    let mut v: Vec<(String, StaticDef)> = vec![];
    for it in rustc_public::all_local_items() {
        let it: CrateItem = it;
        if it.kind() != ItemKind::Static { continue; }
        if let Ok(d) = StaticDef::try_from(it) { v.push((d.name().to_string(), d)); }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
/// functions stored in the initial value of a static: its deferred initialiser
fn init_fns(d: &StaticDef) -> Vec<Instance> {
    let Ok(a) = d.eval_initializer() else { return vec![] };
    let mut v = vec![];
    for (_, p) in &a.provenance.ptrs { if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) { v.push(i); } }
    v
}
fn root() -> State { State { frames: vec![], logs: Default::default(), path: root_path(Facts::new()) } }

/// start-up configuration: thread count and pool
pub fn registry(tcx: Tcx, entry: &str, rep: &mut Rep) {
    // where the loop nest takes its thread count from
    let mut loads: BTreeSet<(String, i128, u8)> = BTreeSet::new();
    let mut pooled = 0;
    {
        let mut an = An::new(tcx);
        let Some((inst, args, _, _)) = crate::ck_macro::entry_args(tcx, &mut an, entry) else { rep.push(&["*"], "anchor", entry, "", St::Open, "entry point not found".into(), String::new()); return };
        an.boundary = true;
        an.choices = vec![1, 1];
        an.cpu = Some(Default::default());
        let c = an.base_ix["c"];
        STRIDED.with(|s| { s.borrow_mut().insert(c); });
        an.accum.insert(c);
        let _ = an.exec_fn(inst, args, root());
        let mut at = BTreeSet::new();
        for (p, v, _) in &an.choice_eqs { deep_atoms(*v, &mut at); for c in suffix(p, &root_of(p)) { deep_atoms(c, &mut at); } }
        for e in &an.events { for c in conds_of(e) { deep_atoms(c, &mut at); } if let EvK::Join { .. } = e.k { pooled += 1; } }
        for a in at { if let AD::Load(b, o, s) = ad(a) { let n = an.bases[*b as usize].name.clone(); if n.starts_with("lazy ") { if let Some(o) = cst(*o) { loads.insert((n, o, *s)); } } } }
        STRIDED.with(|s| s.borrow_mut().clear());
    }
    rep.facts.insert("thread count read from".into(), loads.iter().map(|l| format!("{}+{}", l.0, l.1)).collect::<Vec<_>>().join(","));
    let mut vals: HashMap<(String, i128, u8), (P, Facts)> = HashMap::new();
    let mut pools: Vec<(Event, P)> = vec![];
    let mut bool_atoms: BTreeSet<A> = BTreeSet::new();
    let mut n = 0;
    let (mut envs, mut ext) = (BTreeSet::new(), BTreeSet::new());
    for (name, d) in statics() {
        for i in init_fns(&d) {
            let mut an = An::new(tcx);
            let st = root();
            let r = an.exec_fn(i, vec![], st);
            n += 1;
            let what = format!("initialiser of {}", name);
            // every atom named here is a free input
            let mut r2 = Rep { hints: Hints { sizes: vec![1, 2, 3, 4, 5, 8, 64, 1000], ..Default::default() }, ..Default::default() };
            crate::ck_kernel::generic_events(&an, &mut r2, &what);
            if r2.incomplete { rep.incomplete = true; }
            for mut o in std::mem::take(&mut r2.obs) {
                if o.props.iter().any(|p| p == "C17") { o.props.push("C12".into()); }
                rep.obs.push(o);
            }
            rep.notes.extend(std::mem::take(&mut r2.notes));
            for (k, v) in r2.stats { *rep.stats.entry(k).or_default() += v; }
            for e in &an.events {
                for c in conds_of(e) { deep_atoms(c, &mut bool_atoms); }
                match &e.k {
                    EvK::Pool { level } => pools.push((e.clone(), *level)),
                    EvK::Force { base } => { let own = an.bases[*base as usize].name.ends_with(&name); rep.ev(&["C12", "C21"], "lazy-reentry", e, if own && !e.path.facts.dead { St::Refuted } else { St::Proved }, if own { format!("the initialiser of {} waits for itself", name) } else { "start-up value used by another one".into() }, String::new()); }
                    _ => {}
                }
            }
            for x in &an.externs { if let Some(v) = x.strip_prefix("env ") { envs.insert(v.to_string()); } else { ext.insert(x.clone()); } }
            match r {
                None => rep.push(&["C12", "C17"], "startup-returns", &name, "", St::Refuted, "the start-up code never returns normally".into(), String::new()),
                Some((v, s)) => {
                    for c in &v { if let (0, Sc::N(p)) = (c.tag, &c.sc) { vals.insert((format!("lazy static {}", name), c.off as i128, c.size as u8), (*p, s.facts().clone())); } }
                }
            }
        }
    }
    rep.stat("deferred initialisers", n);
    rep.facts.insert("environment read".into(), envs.iter().cloned().collect::<Vec<_>>().join(","));
    rep.facts.insert("external calls at start-up".into(), ext.iter().cloned().collect::<Vec<_>>().join(","));
    if loads.is_empty() {
        // without threads there is nothing to configure
        rep.push(&["C12"], "thread-count", entry, "", if pooled == 0 { St::Proved } else { St::Open }, "no start-up value decides the thread count".into(), String::new());
        return;
    }
    for l in &loads {
        let Some((t, f)) = vals.get(l).cloned() else { rep.push(&["C12"], "thread-count", &l.0, "", St::Open, format!("start-up value at {}+{} not found", l.0, l.1), String::new()); continue };
        let mut at = BTreeSet::new();
        deep_atoms(t, &mut at);
        at.extend(bool_atoms.iter().cloned());
        let num: Option<A> = at.iter().cloned().find(|a| matches!(ad(*a), AD::Sym { name, .. } if name.starts_with("number(") || name.starts_with("signed")));
        let h = Hints { sizes: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64, 1000], ..Default::default() };
        // bounds
        let mut ob = |rep: &mut Rep, rule: &str, what: String, extra: &[P], goal: P| {
            let mut f2 = f.clone();
            for x in extra { f2.assume(*x, true); }
            let mut st = if f2.dead || prove_cases(&f2, goal, &[], 6) { St::Proved } else { St::Open };
            let mut detail = String::new();
            if st == St::Open { if let Some(w) = witness(&h, &[], extra, &[], 8000, &mut |v| v.ev(goal).map(|x| x < 0)) { st = St::Refuted; detail = w.show(); } else { detail = short(goal); } }
            rep.push(&["C12"], rule, &l.0, "", st, what, detail);
        };
        ob(rep, "thread-count-range", "thread count at least 1".into(), &[], addk(t, -1));
        ob(rep, "thread-count-range", "thread count at most 4".into(), &[], addk(neg(t), 4));
        // a usable number is taken as it is
        let set = at.iter().cloned().find(|a| matches!(ad(*a), AD::BSym(n) if n == "env_set:MATMUL_NUM_THREADS"));
        let parses = at.iter().cloned().find(|a| matches!(ad(*a), AD::BSym(n) if n.starts_with("parses:")));
        let len: Vec<A> = at.iter().cloned().filter(|a| matches!(ad(*a), AD::Sym { name, .. } if name.starts_with("len(env:MATMUL_NUM_THREADS"))).collect();
        match (num, set, parses) {
            (Some(nm), Some(set), Some(pr)) => {
                let mut ex = vec![pa(set), pa(pr)];
                for l in &len { ex.push(ge0(addk(pa(*l), -1))); }
                for v in 1..=4 { let mut e = ex.clone(); e.push(eq0(addk(pa(nm), -v))); for g in [addk(t, -v), addk(neg(t), v)] { ob(rep, "thread-count-setting", format!("the setting {} gives {} threads", v, v), &e, g); } }
                let mut e = ex.clone();
                e.push(ge0(addk(pa(nm), -5)));
                ob(rep, "thread-count-setting", "a larger setting gives 4 threads".into(), &e, addk(t, -4));
            }
            _ => rep.push(&["C12"], "thread-count-setting", &l.0, "", St::Open, "the environment variable MATMUL_NUM_THREADS does not reach the thread count".into(), String::new()),
        }
        // without a setting the number of processors counts
        let cores: Vec<A> = at.iter().cloned().filter(|a| matches!(ad(*a), AD::Sym { name, .. } if name.starts_with("cores("))).collect();
        match (set, cores.as_slice()) {
            (Some(set), [c]) => {
                let ex = vec![not(pa(set))];
                for v in 1..=4 { let mut e = ex.clone(); e.push(eq0(addk(pa(*c), -v))); for g in [addk(t, -v), addk(neg(t), v)] { ob(rep, "thread-count-default", format!("without a setting {} processors give {} threads", v, v), &e, g); } }
                let mut e = ex.clone();
                e.push(ge0(addk(pa(*c), -5)));
                ob(rep, "thread-count-default", "without a setting more processors give 4 threads".into(), &e, addk(t, -4));
            }
            _ => rep.push(&["C12"], "thread-count-default", &l.0, "", St::Open, "the number of processors does not reach the thread count".into(), String::new()),
        }
        // the pool is large enough for the count, and no larger than four threads
        if pools.is_empty() { rep.push(&["C12"], "pool-size", &l.0, "", St::Open, "construction of the thread pool not found".into(), String::new()); }
        for (e, level) in &pools {
            for v in 1..=4i128 {
                let need = match v { 1 => 0, 4 => 2, _ => 1 };
                let mut f2 = (*e.path.facts).clone();
                f2.assume(eq0(addk(t, -v)), true);
                let conds: Vec<P> = conds_of(e).into_iter().chain([eq0(addk(t, -v))]).collect();
                for (goal, w) in [(addk(*level, -need), format!("a pool for {} threads has at least {} levels", v, need)), (addk(neg(*level), 2), "the pool has at most two levels (four threads)".to_string())] {
                    let mut st = if f2.dead || split_prove(&e.path.facts, &conds_of(e), t, v, goal, 10) { St::Proved } else { St::Open };
                    let mut detail = String::new();
                    if st == St::Open { if let Some(w) = witness(&h, &[], &conds, &[], 8000, &mut |x| x.ev(goal).map(|y| y < 0)) { st = St::Refuted; detail = w.show(); } else { detail = short(goal); } }
                    rep.ev(&["C12"], "pool-size", e, st, w, detail);
                }
            }
        }
    }
}

/// goal >= 0 under the facts, the conditions and t = v, by cases over the elementary conditions inside them
fn split_prove(f: &Facts, cs: &[P], t: P, v: i128, goal: P, depth: u32) -> bool {
    if f.dead || f.ge(goal) || f.ge(f.simp(goal)) { return true; }
    let ts = f.simp(t);
    let cs: Vec<P> = cs.iter().map(|c| f.simp(*c)).collect();
    if cs.iter().any(|c| *c == ZERO) || matches!(cst(ts), Some(x) if x != v) { return true; }
    if depth > 0 {
        let x = crate::ck_kernel::elem_bool_atoms(ts).first().cloned().or_else(|| cs.iter().find_map(|c| crate::ck_kernel::elem_bool_atoms(*c).first().cloned()));
        if let Some(x) = x {
            return branches(x).into_iter().all(|(c, s)| {
                let mut g = f.clone();
                g.assume(c, true);
                if let Some((a, v)) = s { g.add_sub(a, v); }
                split_prove(&g, &cs, t, v, goal, depth - 1)
            });
        }
    }
    let mut g = f.clone();
    g.add_ge(addk(ts, -v));
    g.add_ge(addk(neg(ts), v));
    for c in &cs { g.assume(*c, true); }
    g.dead || g.ge(k(-1)) || prove_cases(&g, goal, &[], 4)
}

/// the build-time number parser: value of every digit string, rejection of every other string
pub fn parser(tcx: Tcx, rep: &mut Rep) {
    let mut found = 0;
    for f in rustc_public::local_crate().fn_defs() {
        if tcx.generics_of(rustc_public::rustc_internal::internal(tcx, f.def_id())).count() != 0 { continue; }
        let Some(sig) = f.ty().kind().fn_sig() else { continue };
        let sig = sig.skip_binder();
        let (i, o) = (sig.inputs(), sig.output());
        let is_str = |t: &Ty| match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => match t.kind() { TyKind::RigidTy(RigidTy::Str) => true, TyKind::RigidTy(RigidTy::Slice(e)) => e.kind() == TyKind::RigidTy(RigidTy::Uint(UintTy::U8)), _ => false }, _ => false };
        if i.len() != 1 || !is_str(&i[0]) || o.kind() != TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) { continue; }
        let Ok(inst) = Instance::resolve(f, &GenericArgs(vec![])) else { continue };
        found += 1;
        let name = f.name().to_string();
        let rng = |n: String, lo: i64, hi: i64| pat(AD::Sym { name: n.into(), nonneg: true, real: false, lo: Some(lo as _), hi: Some(hi as _) });
        let run = |bytes: Vec<P>| -> (Option<P>, An, bool) {
            let mut an = An::new(tcx);
            let mut o = Obj::default();
            let l = bytes.len();
            for (i, b) in bytes.into_iter().enumerate() { o.put(0, Cell { off: i as u32, tag: 0, size: 1, sc: Sc::N(b) }); }
            let st = State { frames: vec![Rc::new(Frame { objs: vec![Default::default(), Rc::new(o)], who: None })], logs: Default::default(), path: root_path(Facts::new()) };
            let arg = vec![Cell { off: 0, tag: 0, size: 8, sc: Sc::ptr(local_base(0, 1), ZERO) }, Cell { off: 8, tag: 0, size: 8, sc: Sc::N(k(l as i128)) }];
            match an.exec_fn(inst, vec![arg], st) {
                None => (None, an, false),
                Some((v, s)) => { let dead = s.facts().dead; (v.iter().find(|c| c.tag == 0).and_then(|c| match &c.sc { Sc::N(p) => Some(s.facts().simp(*p)), _ => None }), an, !dead) }
            }
        };
        for l in 1..=20usize {
            let ds: Vec<P> = (0..l).map(|i| rng(format!("digit{}", i), 0, if l == 20 && i == 0 { 1 } else if l == 20 && i == 1 { 7 } else { 9 })).collect();
            let mut want = ZERO;
            for d in &ds { want = add(scale(want, 10), *d); }
            let (v, an, ret) = run(ds.iter().map(|d| addk(*d, 48)).collect());
            let bad = an.events.iter().any(|e| matches!(e.k, EvK::Panic { .. }) && !e.path.facts.dead);
            for n in an.notes.keys() { *rep.notes.entry(n.to_string()).or_default() += 1; }
            let (st, d) = match v { Some(v) if ret && v == want && !bad => (St::Proved, String::new()), Some(v) if ret && !bad && nterms(v) < 200 && diff(v, want) => (St::Refuted, format!("value {}", short(v))), None if !ret => (St::Refuted, "no value".into()), Some(v) => (St::Open, short(v)), None => (St::Open, String::new()) };
            rep.push(&["C15"], "setting-value", &name, "", st, format!("a setting of {} digits has its decimal value", l), d);
        }
        for l in [1usize, 2, 3, 5, 20] { for j in 0..l { for (lo, hi) in [(0, 47), (58, 255)] {
            let bytes: Vec<P> = (0..l).map(|i| if i == j { rng(format!("byte{}", i), lo, hi) } else { addk(rng(format!("digit{}", i), 0, 9), 48) }).collect();
            let (v, an, ret) = run(bytes);
            for n in an.notes.keys() { *rep.notes.entry(n.to_string()).or_default() += 1; }
            let st = if !ret { St::Proved } else if v.is_some() && an.events.iter().all(|e| !matches!(e.k, EvK::Panic { .. })) { St::Refuted } else { St::Open };
            rep.push(&["C15"], "setting-rejected", &name, "", st, format!("a setting of {} bytes with a byte in {}..{} at {} is rejected", l, lo, hi, j), v.map_or(String::new(), short));
        } } }
    }
    rep.stat("setting parsers", found);
}
/// two integer polynomials that differ at some point
fn diff(a: P, b: P) -> bool { (0..20).any(|s| matches!((crate::prove::eval(s, a), crate::prove::eval(s, b)), (Some(x), Some(y)) if x != y)) }
