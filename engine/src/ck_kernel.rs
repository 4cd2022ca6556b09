//! Contracts of the micro-kernels and packing routines, one implementation of the kernel trait at a time.
//!
//! kernel(k, alpha, a, b, beta, c, rsc, csc), k >= 1:
//!   C[i][j] <- alpha * sum_{t<k} A[t][i]*B[t][j] + beta * C[i][j]   for all i < MR, j < NR
//! where slot t of the packed A is MR elements at a + t*MR (complex: MR real parts, then MR imaginary parts), B alike.
use crate::expr::*;
use crate::interp::*;
use crate::ob::*;
use crate::prove::Facts;
use crate::state::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct KInfo { pub name: String, pub ty: Ty, pub mr: i128, pub nr: i128, pub esz: i128, pub comps: i128, pub masked: bool, pub align: i128, pub kmc: i128, pub kkc: i128, pub knc: i128 }
impl KInfo {
    pub fn csz(&self) -> i128 { self.esz / self.comps }
    pub fn prop(&self) -> &'static str { if self.comps == 1 { "C01" } else { "C02" } }
    pub fn key(&self) -> String { format!("e{}x{} {}x{} masked{} align{} {}/{}/{}", self.esz, self.comps, self.mr, self.nr, self.masked, self.align, self.kmc, self.kkc, self.knc) }
}
pub fn trait_inst(tcx: Tcx, tr: rustc_span::def_id::DefId, name: &str, ty: Ty) -> Option<Instance> {
    let item = tcx.associated_items(tr).in_definition_order().find(|i| i.opt_name().map_or(false, |n| n.as_str() == name))?.def_id;
    let t = rustc_public::rustc_internal::internal(tcx, ty);
    let args = tcx.mk_args(&[t.into()]);
    let i = rustc_middle::ty::Instance::try_resolve(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized(), item, args).ok()??;
    Some(rustc_public::rustc_internal::stable(i))
}
/// value of an argument-less trait function returning a constant integer
pub fn trait_const_fn(tcx: Tcx, tr: rustc_span::def_id::DefId, name: &str, ty: Ty) -> Option<i128> {
    let i = trait_inst(tcx, tr, name, ty)?;
    let mut an = An::new(tcx);
    let st = State { frames: vec![], logs: Default::default(), path: root_path(Facts::new()) };
    let (v, _) = an.exec_fn(i, vec![], st)?;
    match v.iter().find(|c| c.tag == 0).map(|c| c.sc.clone()) { Some(Sc::N(p)) => cst(p), _ => None }
}
pub fn kinfo(tcx: Tcx, name: &str, ty: Ty) -> Option<KInfo> {
    let mut an = An::new(tcx);
    let tr = an.kernel_trait()?;
    let et = an.kernel_elem(ty)?;
    let esz = an.size(et) as i128;
    let comps = an.leaves(et)?.len() as i128;
    Some(KInfo {
        name: name.into(), ty, mr: an.assoc_usize(ty, "MR")?, nr: an.assoc_usize(ty, "NR")?, esz, comps,
        masked: trait_const_fn(tcx, tr, "always_masked", ty)? != 0, align: trait_const_fn(tcx, tr, "align_to", ty)?,
        kmc: trait_const_fn(tcx, tr, "mc", ty)?, kkc: trait_const_fn(tcx, tr, "kc", ty)?, knc: trait_const_fn(tcx, tr, "nc", ty)?,
    })
}
pub fn named_args(an: &mut An, inst: Instance, names: &[&str]) -> Option<Vec<Val>> {
    let fi = an.fninfo(inst)?;
    let tys: Vec<Ty> = fi.body.arg_locals().iter().map(|l| l.ty).collect();
    if tys.len() != names.len() { return None; }
    Some(tys.iter().zip(names).map(|(t, n)| crate::dev::arg_for(an, *t, n)).collect())
}
pub fn elem_bool_atoms(p: P) -> Vec<A> {
    let mut s = BTreeSet::new();
    deep_atoms(p, &mut s);
    s.into_iter().filter(|a| is_ind(*a) || matches!(ad(*a), AD::Max0(_))).collect()
}
struct Leafc { f: Facts, conds: Vec<P> }
enum Rd { Val(P), Split(A), Bad(String), Open(String) }

struct KCtx<'a> { ki: &'a KInfo, rsc: A, csc: A, c: Base, a: Base, b: Base }
impl<'a> KCtx<'a> {
    /// (i, j, component byte) of a byte offset into C
    fn pos(&self, f: &Facts, off: P) -> Option<(i128, i128, i128)> {
        let off = f.simp(off);
        let one_of = |a: A| f.sub.get(&a).and_then(|p| cst(*p));
        let e = self.ki.esz;
        let (cr, rest) = linear_in(off, self.rsc)?;
        let (cc, rest) = linear_in(rest, self.csc)?;
        let (cr, cc, r) = (cst(cr)?, cst(cc)?, cst(rest)?);
        let comp = r.rem_euclid(e);
        let q = r.div_euclid(e);
        let (mut i, mut j) = (cr / e, cc / e);
        if cr % e != 0 || cc % e != 0 { return None; }
        match (one_of(self.rsc), one_of(self.csc)) {
            (Some(1), Some(1)) => return None,
            (Some(1), _) => i = q,
            (_, Some(1)) => j = q,
            _ => if q != 0 { return None; },
        }
        Some((i, j, comp))
    }
    /// slot and lane of a byte offset into a packed panel of width w
    fn lane(&self, off: P, w: i128) -> Option<(P, i128)> {
        let (t, r) = split_mod(off, self.ki.esz * w)?;
        if r % self.ki.csz() != 0 { return None; }
        Some((t, r / self.ki.csz()))
    }
}
type Key = (Vec<A>, i128, i128);

pub fn check_kernel(tcx: Tcx, ki: &KInfo, rep: &mut Rep) {
    let mut an = An::new(tcx);
    let Some(tr) = an.kernel_trait() else { return };
    let Some(inst) = trait_inst(tcx, tr, "kernel", ki.ty) else { return };
    let Some(args) = named_args(&mut an, inst, &["k", "alpha", "a", "b", "beta", "c", "rsc", "csc"]) else { rep.push(&[ki.prop()], "anchor", &ki.name, "", St::Open, "kernel signature".into(), "unexpected argument list".into()); return };
    let (a, b, c) = (an.base_ix["a"], an.base_ix["b"], an.base_ix["c"]);
    STRIDED.with(|s| { s.borrow_mut().insert(c); });
    let mut f = Facts::new();
    let kk = sym("k");
    f.add_ge(addk(kk, -1));
    let beta: Vec<P> = if ki.comps == 1 { vec![rsym("beta")] } else { (0..ki.comps).map(|x| rsym(&format!("beta.{}", x * ki.csz()))).collect() };
    let alpha: Vec<P> = if ki.comps == 1 { vec![rsym("alpha")] } else { (0..ki.comps).map(|x| rsym(&format!("alpha.{}", x * ki.csz()))).collect() };
    // kernels that are always used with the scratch tile are called with beta = 0 (obligation at their call sites)
    if ki.masked { for p in &beta { f.assume(feq0(*p), true); } }
    rep.hints = Hints::new(&[ki.mr, ki.nr, 4, 8]);
    rep.hints.pre = vec![addk(kk, -1)];
    let st = State { frames: vec![], logs: Default::default(), path: root_path(f) };
    let r = an.exec_fn(inst, args, st);
    harvest(&an, ki, rep, "kernel", &["k"]);
    let Some((_, fin)) = r else { rep.push(&[ki.prop(), "C17"], "kernel-returns", &ki.name, "", St::Open, "kernel analysis did not reach a return".into(), String::new()); return };
    let cx = KCtx { ki, rsc: atoms_of(isym("rsc"))[0], csc: atoms_of(isym("csc"))[0], c, a, b };
    reads_in_panel(&an, &cx, rep, kk);
    // ---- final content of the tile, case by case
    let ents = log_suffix(&fin.log(c), &None);
    for e in &ents { if !matches!(e, Ent::Store { .. }) { rep.push(&[ki.prop(), "C05"], "kernel-tile", &ki.name, "", St::Open, "output tile written through a loop that was not unrolled".into(), String::new()); return; } }
    let mut todo = vec![Leafc { f: (**fin.path_facts()).clone(), conds: vec![] }];
    let (mut leaves, mut elems) = (0, 0);
    let mut worst: BTreeMap<&str, (St, String, String)> = BTreeMap::new();
    let mut upd = |rule: &'static str, st: St, what: String, det: String| { let e = worst.entry(rule).or_insert((St::Proved, String::new(), String::new())); if (st == St::Refuted && e.0 != St::Refuted) || (st == St::Open && e.0 == St::Proved) { *e = (st, what, det); } };
    'case: while let Some(l) = todo.pop() {
        if l.f.dead { continue; }
        // both unit strides at once would alias elements of the tile
        if l.f.sub.get(&cx.rsc).and_then(|p| cst(*p)) == Some(1) && l.f.sub.get(&cx.csc).and_then(|p| cst(*p)) == Some(1) { continue; }
        if l.conds.len() > 12 || leaves > 400 { upd("kernel-value", St::Open, "too many cases".into(), String::new()); break; }
        let split = |x: A, l: &Leafc, todo: &mut Vec<Leafc>| {
            let (y, n) = match ad(x) { AD::Max0(e) => (ge0(*e), not(ge0(*e))), _ => (pa(x), not(pa(x))) };
            for c in [y, n] { let mut f = l.f.clone(); f.assume(c, true); if let AD::Max0(e) = ad(x) { f.add_sub(x, if c == y { *e } else { ZERO }); } let mut cs = l.conds.clone(); cs.push(c); todo.push(Leafc { f, conds: cs }); }
        };
        let case = || l.conds.iter().map(|c| show(*c)).collect::<Vec<_>>().join(", ");
        // a concrete input of this case
        let real = |h: &Hints, bad: &mut dyn FnMut(&mut Env) -> Option<bool>| -> Option<String> { witness(h, &[], &l.conds, &[addk(kk, -1)], 3000, bad).map(|e| e.show()) };
        let beta0 = beta.iter().all(|p| l.f.app(*p) == ZERO);
        // C accesses
        let mut cells: HashMap<(i128, i128, i128), Sc> = HashMap::new();
        for e in &ents {
            let Ent::Store { off, size, val, guard } = e else { continue };
            let g = l.f.simp(*guard);
            match cst(g) {
                Some(0) => continue,
                Some(_) => {}
                None => { match elem_bool_atoms(g).first() { Some(x) => { split(*x, &l, &mut todo); continue 'case } None => { upd("kernel-value", St::Open, "store guard not decided".into(), show(g)); continue 'case } } }
            }
            match cx.pos(&l.f, *off) {
                Some((i, j, cb)) if i >= 0 && i < ki.mr && j >= 0 && j < ki.nr && cb + *size as i128 <= ki.esz => {
                    if *size as i128 == ki.csz() { cells.insert((i, j, cb), val.clone()); } else { upd("kernel-value", St::Open, "store of part of an element".into(), case()); }
                }
                Some((i, j, _)) => { if let Some(w) = real(&rep.hints, &mut |_| Some(true)) { upd("kernel-store-in-tile", St::Refuted, format!("store to tile element ({},{}) of a {}x{} tile", i, j, ki.mr, ki.nr), w); } }
                None => { if cx.pos(&Facts::new(), *off).is_none() && split_mod(sub(l.f.simp(*off), ZERO), 1).is_some() && elem_bool_atoms(l.f.simp(*off)).is_empty() && atoms_of(l.f.simp(*off)).iter().all(|x| *x == cx.rsc || *x == cx.csc) { if let Some(w) = real(&rep.hints, &mut |_| Some(true)) { upd("kernel-store-in-tile", St::Refuted, format!("store at byte offset {} of C, which is no element of the tile", short(*off)), w); } } else { upd("kernel-store-in-tile", St::Open, format!("store at {}", short(*off)), case()); } }
            }
        }
        for e in &an.events {
            if let EvK::Read { base, off, size, .. } = &e.k { if *base == c {
                let g = l.f.simp(conds_of(e).into_iter().fold(one(), mul));
                match cst(g) { Some(0) => continue, Some(_) => {} None => { match elem_bool_atoms(g).first() { Some(x) => { split(*x, &l, &mut todo); continue 'case } None => continue } } }
                let unknown_loop = !e.ctx.is_empty();
                if beta0 { if let Some(w) = real(&rep.hints, &mut |_| Some(true)) { upd("kernel-beta0-no-read", St::Refuted, format!("C read at byte offset {} although beta is zero", short(*off)), w); } }
                let _ = size;
                match cx.pos(&l.f, *off) {
                    Some((i, j, _)) if i >= 0 && i < ki.mr && j >= 0 && j < ki.nr => {}
                    Some((i, j, _)) => if let Some(w) = real(&rep.hints, &mut |_| Some(true)) { upd("kernel-read-in-tile", St::Refuted, format!("read of tile element ({},{}) of a {}x{} tile", i, j, ki.mr, ki.nr), w) },
                    None => upd("kernel-read-in-tile", if unknown_loop { St::Open } else { St::Open }, format!("read of C at {}", short(*off)), case()),
                }
            } }
        }
        // values
        for j in 0..ki.nr { for i in 0..ki.mr { for cb in 0..ki.comps {
            let Some(sc) = cells.get(&(i, j, cb * ki.csz())) else {
                if let Some(w) = real(&rep.hints, &mut |_| Some(true)) { upd("kernel-value", St::Refuted, format!("element ({},{}) of the tile is not written", i, j), w); }
                continue;
            };
            let Sc::N(v) = sc else { upd("kernel-value", St::Open, format!("element ({},{}) has no known value", i, j), case()); continue };
            let v = l.f.simp(*v);
            if let Some(x) = elem_bool_atoms(v).first() { split(*x, &l, &mut todo); continue 'case; }
            elems += 1;
            match value_matches(&cx, &l, v, (i, j, cb), &alpha, &beta, kk) {
                Rd::Val(_) => {}
                Rd::Bad(d) => { if std::env::var("MMSA_DBG").is_ok() { eprintln!("BAD {} case {} value {}", d, case(), show(v)); } if let Some(w) = real(&rep.hints, &mut |_| Some(true)) { upd("kernel-value", St::Refuted, format!("element ({},{}){}: {}", i, j, if ki.comps > 1 { if cb == 0 { " re" } else { " im" } } else { "" }, d), w); } else { upd("kernel-value", St::Open, d, case()); } }
                Rd::Open(d) => upd("kernel-value", St::Open, format!("element ({},{}): {}", i, j, d), case()),
                Rd::Split(x) => { split(x, &l, &mut todo); continue 'case }
            }
        } } }
        leaves += 1;
    }
    rep.stat("kernel cases", leaves);
    rep.stat("kernel element values compared", elems);
    let at = format!("{}::kernel", ki.name);
    for (rule, props) in [("kernel-value", vec![ki.prop(), "C03", "C19"]), ("kernel-store-in-tile", vec!["C05"]), ("kernel-read-in-tile", vec!["C06"]), ("kernel-beta0-no-read", vec!["C04"])] {
        let (st, what, det) = worst.get(rule).cloned().unwrap_or((St::Proved, String::new(), String::new()));
        let st = if leaves == 0 && st == St::Proved { St::Open } else { st };
        // a wrong value is a beta defect only when beta terms are what differs
        let ps: Vec<&str> = if rule == "kernel-value" && st == St::Refuted { if what.contains("old C") { vec![ki.prop(), "C03", "C19"] } else { vec![ki.prop(), "C19"] } } else { props };
        rep.push(&ps, rule, &at, "", st, if what.is_empty() { format!("{} cases", leaves) } else { what }, det);
    }
}
fn value_matches(cx: &KCtx, l: &Leafc, v: P, (i, j, cb): (i128, i128, i128), alpha: &[P], beta: &[P], kk: P) -> Rd {
    let ki = cx.ki;
    // expected: key -> coefficient, and C terms
    let mut exp: HashMap<Key, i128> = HashMap::new();
    let mut expc: HashMap<(Vec<A>, i128), i128> = HashMap::new();
    let mut put = |s: P, la: i128, lb: i128, sg: i128| { for (m, c) in terms(l.f.app(s)) { *exp.entry((mono(m), la, lb)).or_default() += c * sg; } };
    let mut putc = |s: P, comp: i128, sg: i128| { for (m, c) in terms(l.f.app(s)) { *expc.entry((mono(m), comp)).or_default() += c * sg; } };
    if ki.comps == 1 { put(alpha[0], i, j, 1); putc(beta[0], 0, 1); }
    else {
        let (ai, bj) = (ki.mr + i, ki.nr + j);
        if cb == 0 {
            put(alpha[0], i, j, 1); put(alpha[0], ai, bj, -1); put(alpha[1], i, bj, -1); put(alpha[1], ai, j, -1);
            putc(beta[0], 0, 1); putc(beta[1], 1, -1);
        } else {
            put(alpha[1], i, j, 1); put(alpha[1], ai, bj, -1); put(alpha[0], i, bj, 1); put(alpha[0], ai, j, 1);
            putc(beta[0], 1, 1); putc(beta[1], 0, 1);
        }
    }
    // actual
    let mut got: HashMap<Key, Vec<(i128, P, i128, P)>> = HashMap::new();
    let mut gotc: HashMap<(Vec<A>, i128), i128> = HashMap::new();
    for (m, coef) in terms(v) {
        let mut scal = vec![];
        let (mut la, mut lb, mut lc, mut sm) = (vec![], vec![], vec![], vec![]);
        for x in mono(m) { match ad(x) {
            AD::Load(b, o, s) if *b == cx.a => la.push((*o, *s)),
            AD::Load(b, o, s) if *b == cx.b => lb.push((*o, *s)),
            AD::Load(b, o, s) if *b == cx.c => lc.push((*o, *s)),
            AD::Sum(n, b) => sm.push((*n, *b)),
            AD::Sym { real: true, .. } => scal.push(x),
            _ => return Rd::Open(format!("term with {}", show_atom(x).chars().take(80).collect::<String>())),
        } }
        let t = atom(AD::Bound);
        let (oa, ob, n) = match (sm.len(), la.len(), lb.len(), lc.len()) {
            (0, 0, 0, 1) => {
                match cx.pos(&l.f, lc[0].0) { Some((pi, pj, pc)) if pc % ki.csz() == 0 && lc[0].1 as i128 == ki.csz() => { if (pi, pj) != (i, j) { return Rd::Bad(format!("uses the old C at ({},{})", pi, pj)); } *gotc.entry((scal, pc / ki.csz())).or_default() += coef; continue } _ => return Rd::Open(format!("old C at {}", short(lc[0].0))) }
            }
            (1, 0, 0, 0) => {
                let body = mono(sm[0].1);
                let (mut oa, mut ob) = (None, None);
                for x in body { match ad(x) { AD::Load(b, o, s) if *b == cx.a && *s as i128 == ki.csz() && oa.is_none() => oa = Some(*o), AD::Load(b, o, s) if *b == cx.b && *s as i128 == ki.csz() && ob.is_none() => ob = Some(*o), _ => return Rd::Open(format!("sum over {}", show_atom(x).chars().take(80).collect::<String>())) } }
                match (oa, ob) { (Some(a), Some(b)) => (a, b, sm[0].0), _ => return Rd::Bad("a sum that is no product of an A and a B element".into()) }
            }
            (0, 1, 1, 0) => (la[0].0, lb[0].0, one()),
            _ => return Rd::Bad(format!("unexpected term {}", short(pm(m)))),
        };
        let (Some((ta, xa)), Some((tb, xb))) = (cx.lane(oa, ki.mr), cx.lane(ob, ki.nr)) else { return Rd::Open(format!("operand offsets {} / {}", short(oa), short(ob))) };
        if ta != tb && !l.f.eq(sub(ta, tb)) { return Rd::Bad(format!("multiplies slot {} of A with slot {} of B", short(ta), short(tb))); }
        let Some((d, t0)) = linear_in(ta, t) else { return Rd::Open("slot index".into()) };
        let Some(d) = cst(d) else { return Rd::Open("slot step".into()) };
        got.entry((scal, xa, xb)).or_default().push((coef, t0, d, n));
    }
    gotc.retain(|_, v| *v != 0);
    expc.retain(|_, v| *v != 0);
    exp.retain(|_, v| *v != 0);
    if gotc != expc { return Rd::Bad(format!("old C enters with {} terms, expected {} (beta applied wrongly)", gotc.len(), expc.len())); }
    for kx in got.keys() { if !exp.contains_key(kx) { return Rd::Bad(format!("product of lanes {} of A and {} of B does not belong here", kx.1, kx.2)); } }
    for (kx, c) in &exp {
        let Some(ps) = got.get(kx) else { return Rd::Bad(format!("product of lanes {} of A and {} of B is missing", kx.1, kx.2)) };
        if ps.iter().all(|p| p.0 == *c) && chain(&l.f, ps, kk) { continue; }
        // concrete inner dimension where the set of terms differs
        let h = Hints::new(&[4, 8]);
        let mut bad = String::new();
        let w = witness(&h, &[], &l.conds, &[addk(kk, -1)], 400, &mut |e| {
            let n = e.ev(kk)?;
            if n > 40 { return Some(false); }
            let mut cnt = vec![0i128; n as usize];
            for (cf, t0, d, nn) in ps { let (t0, nn) = (e.ev(*t0)?, e.ev(*nn)?); for s in 0..nn.max(0) { let t = t0 + d * s; if t < 0 || t >= n { bad = format!("term {} of {} used", t, n); return Some(true); } cnt[t as usize] += cf; } }
            for (t, x) in cnt.iter().enumerate() { if x != c { bad = format!("term {} enters with factor {} instead of {} (k={})", t, x, c, n); return Some(true); } }
            Some(false)
        });
        return if w.is_some() { Rd::Bad(format!("inner product: {}", bad)) } else { Rd::Open("inner index set not recognised".into()) };
    }
    Rd::Val(v)
}
/// do the progressions {t0 + d*s : s < n} partition [0, kk)?
pub fn chain(f: &Facts, ps: &[(i128, P, i128, P)], kk: P) -> bool {
    let mut iv: Vec<(P, P)> = vec![];
    let mut groups: Vec<(i128, P, Vec<P>)> = vec![];
    for (_, t0, d, n) in ps {
        if *n == ZERO || f.eq(*n) { continue; }
        if *d == 1 || cst(*n) == Some(1) { iv.push((*t0, add(*t0, *n))); continue; }
        if let Some(g) = groups.iter_mut().find(|g| g.0 == *d && (g.1 == *n)) { g.2.push(*t0) } else { groups.push((*d, *n, vec![*t0])) }
    }
    for (d, n, ts) in groups {
        if d < 2 || ts.len() != d as usize { return false; }
        // t0 values are base + a permutation of 0..d
        let base = ts.iter().min_by_key(|t| const_part(**t)).cloned().unwrap();
        let mut seen = vec![false; d as usize];
        for t in &ts { match cst(sub(*t, base)) { Some(x) if x >= 0 && x < d && !seen[x as usize] => seen[x as usize] = true, _ => return false } }
        iv.push((base, add(base, scale(n, d))));
    }
    let mut cur = ZERO;
    while !iv.is_empty() {
        let Some(ix) = iv.iter().position(|x| f.eq(sub(x.0, cur))) else { return false };
        cur = iv.remove(ix).1;
    }
    f.eq(sub(cur, kk))
}
fn reads_in_panel(an: &An, cx: &KCtx, rep: &mut Rep, kk: P) {
    let ki = cx.ki;
    let mut al: BTreeMap<&str, (i128, bool)> = BTreeMap::new();
    for e in &an.events {
        let (base, off, size, align, w) = match &e.k { EvK::Read { base, off, size, align, .. } => (*base, *off, *size, *align, false), EvK::Write { base, off, size, align, .. } => (*base, *off, *size, *align, true), _ => continue };
        let nat = ki.csz();
        if base == cx.a || base == cx.b {
            let (wd, nm) = if base == cx.a { (ki.mr, "a") } else { (ki.nr, "b") };
            if w { rep.ev(&["C05", "C08"], "kernel-writes-panel", e, St::Refuted, format!("kernel writes its packed operand {}", nm), "any call".into()); continue; }
            let f = e.path.facts.clone();
            rep.ge(&["C07"], "kernel-panel-low", e, &f, &[], off, "packed operand read below its start");
            rep.ge(&["C07", "C08"], "kernel-panel-high", e, &f, &[], sub(scale(kk, wd * ki.esz), addk(off, size as i128)), "packed operand read beyond k slots");
            let need = align as i128;
            let ent = al.entry(nm).or_insert((1, true));
            if need > nat {
                ent.0 = ent.0.max(need);
                let ok = terms(off).iter().all(|(_, c)| c % need == 0);
                if !ok {
                    let h = rep.hints.clone();
                    let w = witness(&h, &e.ctx, &conds_of(e), &[], 3000, &mut |v| v.ev(off).map(|x| x % need != 0));
                    if let Some(w) = w { rep.ev(&["C09"], "kernel-panel-align", e, St::Refuted, format!("{}-byte aligned access at offset {} of packed operand {}", need, short(off), nm), w.show()); } else { rep.ev(&["C09"], "kernel-panel-align", e, St::Open, format!("aligned access at {}", short(off)), String::new()); }
                } else { rep.ev(&["C09"], "kernel-panel-align", e, St::Proved, format!("{}-byte access", need), String::new()); }
            }
        } else if base == cx.c {
            let ok = align as i128 <= nat;
            rep.ev(&["C09"], "kernel-c-align", e, if ok { St::Proved } else { St::Refuted }, if ok { "C accessed with element alignment".into() } else { format!("access to C that requires {}-byte alignment; C is only aligned to {}", align, nat) }, if ok { String::new() } else { "any C not so aligned".into() });
        } else if is_local(base) {
        } else {
            let kd = an.bases[base as usize].kind.clone();
            if kd == BK::Static && w { rep.ev(&["C16", "C10"], "kernel-static-write", e, St::Refuted, format!("kernel writes static memory {}", an.bases[base as usize].name), "any call".into()); }
        }
    }
    for (nm, (n, _)) in al { rep.facts.insert(format!("align_{}", nm), n.to_string()); }
}
/// panics, underflows, features, termination: common to all analysed functions
pub fn harvest(an: &An, ki: &KInfo, rep: &mut Rep, what: &str, _prec: &[&str]) {
    let mut feats: BTreeSet<String> = Default::default();
    let _ = ki;
    for e in &an.events {
        if let EvK::FeatCall { callee, feats: fs } = &e.k { for x in fs { feats.insert(x.clone()); rep.stat("feature-gated calls", 1); } let _ = callee; }
    }
    generic_events(an, rep, what);
    let prev = rep.facts.get("features").cloned().unwrap_or_default();
    for x in prev.split(',') { if !x.is_empty() { feats.insert(x.into()); } }
    rep.facts.insert("features".into(), feats.into_iter().collect::<Vec<_>>().join(","));
}
/// run the next-state equations of a loop at one valuation of its inputs: does a state repeat?
pub fn diverges(v: &mut Env, rec: &Recur) -> Option<bool> {
    let eq: std::collections::HashMap<A, (Option<P>, Option<P>)> = rec.eqs.iter().map(|q| (q.0, (q.1, q.2))).collect();
    let mut need: BTreeSet<A> = BTreeSet::new();
    let mut todo: Vec<P> = rec.exits.iter().chain([&rec.back]).flatten().cloned().collect();
    while let Some(p) = todo.pop() { let mut s = BTreeSet::new(); deep_atoms(p, &mut s); for a in s { if let Some(q) = eq.get(&a) { if need.insert(a) { todo.push(q.1?); } } } }
    let mut cur: Vec<(A, i128)> = vec![];
    for a in &need { let x = v.ev(eq[a].0?)?; cur.push((*a, x)); }
    // counters that are only compared with a lower limit: once above it they do not matter any more
    let mut masks: std::collections::HashMap<A, Vec<P>> = Default::default();
    for a in &need {
        let Some(Some(nx)) = eq.get(a).map(|q| q.1) else { continue };
        if !cst(sub(nx, pa(*a))).map_or(false, |c| c > 0) { continue; }
        let mut es: Vec<P> = rec.exits.iter().chain([&rec.back]).flatten().cloned().collect();
        for b in &need { if b != a { if let Some(x) = eq[b].1 { es.push(x); } } }
        let (mut ok, mut gs, mut at) = (true, vec![], BTreeSet::new());
        for x in &es { if atoms_of(*x).contains(a) { ok = false; } deep_atoms(*x, &mut at); }
        for x in &at { if x == a { continue; } match ad(*x) {
            AD::Ge0(p) if mentions(*p, *a) => match linear_in(*p, *a) { Some((c, r)) if cst(c).map_or(false, |c| c > 0) && cst(r).is_some() => gs.push(pa(*x)), _ => ok = false },
            AD::Eq0(p) | AD::Max0(p) | AD::NDvd(p, _) | AD::Let(p) => if atoms_of(*p).contains(a) { ok = false },
            AD::Div(p, q) => if atoms_of(*p).contains(a) || atoms_of(*q).contains(a) { ok = false },
            y => { let _ = y; if mentions(pa(*x), *a) && !matches!(y, AD::Ge0(_)) { ok = false } }
        } }
        if ok { masks.insert(*a, gs); }
    }
    let mut seen: BTreeSet<Vec<i128>> = BTreeSet::new();
    for _ in 0..3000 {
        for (a, x) in &cur { v.set(*a, *x); }
        for ex in &rec.exits {
            let mut all = Some(true);
            for c in ex { match v.ev(*c) { Some(0) => { all = Some(false); break } Some(_) => {} None => all = None } }
            if all != Some(false) { return all.map(|_| false); }
        }
        for c in &rec.back { if v.ev(*c)? == 0 { return None; } }
        let mut key: Vec<i128> = vec![];
        for (a, x) in &cur { match masks.get(a) { Some(gs) => { let mut all = true; for g in gs { if v.ev(*g)? == 0 { all = false; } } key.push(if all { -1 } else { *x }); } None => key.push(*x) } }
        if !seen.insert(key) { return Some(true); }
        let mut nx = vec![];
        for (a, _) in &cur { nx.push((*a, v.ev(eq[a].1?)?)); }
        cur = nx;
    }
    None
}
pub fn generic_events(an: &An, rep: &mut Rep, what: &str) {
    let mut npanic = 0;
    for e in &an.events {
        let f = e.path.facts.clone();
        match &e.k {
            EvK::Panic { what: w } => {
                npanic += 1;
                let h = rep.hints.clone();
                let cs = conds_of(e);
                let wt = if f.dead { None } else { witness(&h, &e.ctx, &cs, &[], 4000, &mut |_| Some(true)) };
                let pre = !f.dead && [("rsc", "m", "n"), ("csc", "n", "m")].iter().any(|(s, d, e)| f.eq(isym(s)) && f.ge(addk(sym(d), -2)) && f.ge(addk(sym(e), -1)));
                if pre { rep.ev(&["C17"], "no-panic", e, St::Proved, format!("panic: {} (only when elements of C alias, which the contract excludes)", w), String::new()); continue; }
                let st = if f.dead { St::Proved } else if wt.is_some() { St::Refuted } else { St::Open };
                rep.ev(&["C17"], "no-panic", e, st, format!("panic: {}", w), wt.map_or(String::new(), |w| w.show()));
            }
            EvK::Assert { cond, what: w } => {
                let st = if f.decide(*cond) == Some(true) { St::Proved } else { St::Open };
                if st == St::Proved { rep.ev(&["C17"], "no-panic", e, st, format!("assertion {}", w), String::new()); }
                else {
                    let h = rep.hints.clone();
                    let wt = witness(&h, &e.ctx, &conds_of(e), &[], 4000, &mut |v| v.ev(*cond).map(|x| x == 0));
                    rep.ev(&["C17"], "no-panic", e, if wt.is_some() { St::Refuted } else { St::Open }, format!("assertion {}: {}", w, short(*cond)), wt.map_or(String::new(), |w| w.show()));
                }
            }
            EvK::Underflow { val } => { rep.ge(&["C17"], "no-underflow", e, &f, &[], *val, "unsigned subtraction"); }
            EvK::NonTerm { rec, .. } => {
                let h = rep.hints.clone();
                // each input of the loop in turn takes every value of a range
                let mut syms: BTreeSet<A> = BTreeSet::new();
                for q in &rec.eqs { if let Some(x) = q.1 { deep_atoms(x, &mut syms); } }
                let syms: Vec<A> = syms.into_iter().filter(|a| matches!(ad(*a), AD::Sym { nonneg: true, real: false, .. })).collect();
                let cs = conds_of(e);
                let mut full = 0;
                let mut scan = |v: &mut Env| {
                    full += 1;
                    if full > 4 { return None; }
                    for a in &syms {
                        let old = v.ev(pa(*a))?;
                        for x in 1..=4200 {
                            v.set(*a, x);
                            if e.ctx.iter().all(|c| matches!((v.ev(c.count), v.ev(pa(c.lvar))), (Some(n), Some(t)) if t < n)) && cs.iter().all(|c| v.ev(*c).map_or(false, |x| x != 0)) && diverges(v, rec) == Some(true) { return Some(true); }
                        }
                        v.set(*a, old);
                    }
                    None
                };
                let wt = if f.dead { None } else { witness(&h, &e.ctx, &cs, &[], 1000, &mut |v| diverges(v, rec)).or_else(|| witness(&h, &e.ctx, &cs, &[], 1000, &mut scan)) };
                let st = if f.dead { St::Proved } else if wt.is_some() { St::Refuted } else { St::Open };
                rep.ev(&["C18"], "loop-terminates", e, st, if st == St::Refuted { "the loop reaches a state that repeats itself and is never left".into() } else { format!("loop without a derived iteration count: {}", rec.eqs.iter().filter_map(|q| Some(format!("{} -> {}", show_atom(q.0), short(q.2?)))).collect::<Vec<_>>().join("; ")) }, wt.map_or(String::new(), |w| w.show()));
            }
            _ => {}
        }
    }
    rep.stat("panic sites reached", npanic);
    if an.arith_ok > 0 { rep.push(&["C17"], "no-underflow", what, "", St::Proved, format!("{} unsigned subtractions and narrow sums or products stay in range", an.arith_ok), String::new()); }
    if an.asserts_ok > 0 { rep.push(&["C17"], "no-panic", what, "", St::Proved, format!("{} assertions always hold", an.asserts_ok), String::new()); }
    rep.stat("arithmetic checks proved", an.arith_ok as i128);
    rep.stat("assertions proved", an.asserts_ok as i128);
    rep.push(&["C18"], "loops-bounded", what, "", if an.loop_unk == 0 && !an.overrun { St::Proved } else { St::Open }, format!("{} of {} loops have an iteration count", an.loop_ok, an.nloops), String::new());
    rep.stat("loops", an.nloops as i128);
    rep.stat("loops bounded", an.loop_ok as i128);
    rep.stat("functions", an.called.len() as i128);
    rep.stat("blocks interpreted", an.steps as i128);
    rep.stat("events", an.events.len() as i128);
    if an.incomplete() { rep.incomplete = true; }
    for (n, c) in &an.notes { *rep.notes.entry(format!("{}: {}", what, n)).or_default() += c; }
    let mx = MIXED.with(|m| m.replace(0));
    if mx > 0 { *rep.notes.entry(format!("{}: bytes merged as pieces of different sizes", what)).or_default() += mx; }
    if an.overrun { rep.push(&["C01", "C02"], "budget", what, "", St::Open, "analysis budget exhausted".into(), String::new()); }
}
