//! Contract of the packing routines.
//!
//! pack(kc, mc, dst, src, rs, cs) writes, for every panel Q < ceil(mc/W), slot J < kc and lane i < W,
//!   dst[W*(kc*Q + J) + i] <- src[rs*(Q*W + i) + cs*J]   if Q*W + i < mc, else 0
//! (complex kernels: W real parts followed by W imaginary parts per slot), writes nothing else and
//! reads no source element outside the mc x kc block.
use crate::ck_kernel::*;
use crate::expr::*;
use crate::interp::*;
use crate::ob::*;
use crate::prove::Facts;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone)]
pub struct PEnt { pub loops: Vec<(A, P)>, pub guard: P, pub off: P, pub size: u32, pub val: Sc }
pub fn flatten(ents: &[Ent], loops: &[(A, P)], g: P, out: &mut Vec<PEnt>) -> bool {
    for e in ents { match e {
        Ent::Store { off, size, val, guard } => out.push(PEnt { loops: loops.to_vec(), guard: mul(g, *guard), off: *off, size: *size, val: val.clone() }),
        Ent::Loop { lvar, count, ents, guard, .. } => { let mut l = loops.to_vec(); l.push((*lvar, *count)); if !flatten(ents, &l, mul(g, *guard), out) { return false; } }
        Ent::Prev { .. } => {}
        _ => return false,
    } }
    true
}
struct PC<'a> { ki: &'a KInfo, w: i128, kc: P, mc: P, panels: P, rs: A, cs: A, src: Base, dst: Base }
#[derive(Clone, Debug, PartialEq)]
enum Cv { Src(i128, u8), Zero, Other(String) }

impl<'a> PC<'a> {
    fn csz(&self) -> i128 { self.ki.csz() }
    /// row, column and component of a source byte offset
    fn src_pos(&self, f: &Facts, off: P) -> Option<(P, P, i128)> {
        let e = self.ki.esz;
        let off = f.app(unlet(off));
        let unit = |a: A| f.sub.get(&a).and_then(|p| cst(*p)) == Some(1);
        let (cr, rest) = linear_in(off, self.rs)?;
        let (cc, rest) = linear_in(rest, self.cs)?;
        let (mut row, r1) = split_mod(cr, e)?;
        let (mut col, r2) = split_mod(cc, e)?;
        if r1 != 0 || r2 != 0 { return None; }
        let (q, comp) = split_mod(rest, e)?;
        match (unit(self.rs), unit(self.cs)) { (true, false) => row = add(row, q), (false, true) => col = add(col, q), _ => if q != ZERO { return None; } }
        Some((row, col, comp))
    }
}
pub fn check_pack(tcx: Tcx, ki: &KInfo, is_a: bool, rep: &mut Rep) {
    let nm = if is_a { "pack_mr" } else { "pack_nr" };
    let mut an = An::new(tcx);
    let Some(tr) = an.kernel_trait() else { return };
    let Some(inst) = trait_inst(tcx, tr, nm, ki.ty) else { return };
    let at = format!("{}::{}", ki.name, nm);
    let Some(args) = named_args(&mut an, inst, &["kc", "mc", "pack", "a", "rs", "cs"]) else { rep.push(&[ki.prop(), "C08"], "anchor", &at, "", St::Open, "pack signature".into(), "unexpected argument list".into()); return };
    let Some(dst) = an.base_ix.get("pack.0").cloned() else { rep.push(&[ki.prop(), "C08"], "anchor", &at, "", St::Open, "pack destination is not a slice".into(), String::new()); return };
    let src = an.base_ix["a"];
    let w = if is_a { ki.mr } else { ki.nr };
    let (kc, mc) = (sym("kc"), sym("mc"));
    let panels = div(addk(mc, w - 1), k(w));
    let len = sym("pack.8");
    let need = scale(mul(kc, panels), w);
    let mut f = Facts::new();
    // the routine is only called with kc, mc >= 1 and a destination slice that is long enough (checked at the call sites)
    for p in [addk(kc, -1), addk(mc, -1), sub(len, need)] { f.add_ge(p); }
    rep.hints = Hints::new(&[ki.mr, ki.nr, 4, 8]);
    rep.hints.pre = vec![addk(kc, -1), addk(mc, -1), sub(len, need)];
    let c = PC { ki, w, kc, mc, panels, rs: atoms_of(isym("rs"))[0], cs: atoms_of(isym("cs"))[0], src, dst };
    let st = State { frames: vec![], logs: Default::default(), path: root_path(f) };
    let r = an.exec_fn(inst, args, st);
    harvest(&an, ki, rep, nm, &["kc", "mc"]);
    let Some((_, fin)) = r else { rep.push(&[ki.prop(), "C08", "C17"], "pack-returns", &at, "", St::Open, "analysis did not reach a return".into(), String::new()); return };
    accesses(&an, &c, rep, &at);
    let ents = log_suffix(&fin.log(dst), &None);
    let mut pe = vec![];
    if !flatten(&ents, &[], one(), &mut pe) { rep.push(&[ki.prop(), "C08"], "pack-content", &at, "", St::Open, "destination written in an unrecognised way".into(), String::new()); return; }
    rep.stat("pack entries", pe.len() as i128);
    // refutation first: evaluate the derived contents of the destination
    let probs = refute(&c, rep, &ents);
    let mut by: BTreeMap<&str, (String, String)> = BTreeMap::new();
    for (cl, what, wit) in probs { by.entry(cl).or_insert((what, wit)); }
    let proof = if by.is_empty() { prove_content(&c, fin.path_facts(), &pe, rep) } else { Ok(()) };
    for (cl, props) in [("pack-content", vec![ki.prop(), "C19"]), ("pack-fills", vec!["C08"]), ("pack-padding", vec!["C08"])] {
        let hit: Option<(&&str, &(String, String))> = by.iter().find(|(k, _)| match cl { "pack-fills" => **k == "unfilled" || **k == "unfilled-pad", "pack-content" => **k == "content" || **k == "unfilled", _ => **k == "padding" });
        match hit { Some((_, (a, b))) => rep.push(&props, cl, &at, "", St::Refuted, a.clone(), b.clone()), None => match &proof {
            Ok(()) => rep.push(&props, cl, &at, "", St::Proved, format!("{} store families", pe.len()), String::new()),
            Err(e) => rep.push(&props, cl, &at, "", St::Open, e.clone(), String::new()),
        } }
    }
}
fn accesses(an: &An, c: &PC, rep: &mut Rep, _at: &str) {
    let e = c.ki.esz;
    let need = scale(mul(c.kc, c.panels), c.w * e);
    for ev in &an.events {
        let (base, off, size, align, wr) = match &ev.k { EvK::Read { base, off, size, align, .. } => (*base, *off, *size, *align, false), EvK::Write { base, off, size, align, .. } => (*base, *off, *size, *align, true), _ => continue };
        let f = (*ev.path.facts).clone();
        if base == c.dst {
            rep.ge(&["C07"], "pack-dst-low", ev, &f, &[], off, "packed panel accessed below its start");
            rep.ge(&["C07"], "pack-dst-high", ev, &f, &[], sub(need, addk(off, size as i128)), "packed panel accessed beyond its end");
            if align as i128 > c.csz() { rep.ev(&["C09"], "pack-dst-align", ev, if terms(off).iter().all(|(_, v)| v % align as i128 == 0) && (align as i128) <= c.ki.align { St::Proved } else { St::Open }, format!("{}-byte aligned access", align), String::new()); }
        } else if base == c.src {
            if wr { rep.ev(&["C05"], "pack-writes-source", ev, St::Refuted, "packing writes the source matrix".into(), "any call".into()); continue; }
            if align as i128 > c.csz() { rep.ev(&["C09"], "pack-src-align", ev, St::Refuted, format!("access to the source matrix requires {}-byte alignment", align), "any source not so aligned".into()); }
            let Some((row, col, comp)) = c.src_pos(&f, off) else { 
                // a read that is no element of the matrix for some strides
                rep.ev(&["C06"], "pack-src-in-block", ev, St::Open, format!("source offset {}", short(off)), String::new()); continue };
            let extra = (comp + size as i128 + e - 1) / e - 1;
            let unit_r = f.sub.get(&c.rs).and_then(|p| cst(*p)) == Some(1);
            let (dr, dc) = if unit_r { (extra, 0) } else { (0, extra) };
            if extra > 0 && !unit_r && f.sub.get(&c.cs).and_then(|p| cst(*p)) != Some(1) {
                rep.ev(&["C06"], "pack-src-in-block", ev, St::Refuted, format!("{} bytes read from one element although neither stride is 1", size), "any non-unit strides".into()); continue; }
            for (g, w) in [(row, "row below the block"), (col, "column below the block"), (addk(sub(c.mc, row), -1 - dr), "row beyond the block"), (addk(sub(c.kc, col), -1 - dc), "column beyond the block")] { rep.ge(&["C06"], "pack-src-in-block", ev, &f, &[], g, &format!("source read: {}", w)); }
        } else if !is_local(base) && wr && an.bases[base as usize].kind == BK::Static { rep.ev(&["C16", "C10"], "pack-static-write", ev, St::Refuted, format!("packing writes static memory {}", an.bases[base as usize].name), "any call".into()); }
    }
}
/// concrete contents of the destination under a valuation, from the derived store families
fn contents(e: &mut Env, ents: &[Ent], src: Base, out: &mut BTreeMap<i128, (u32, Cv)>, fuel: &mut u32) -> Option<()> {
    for x in ents {
        if *fuel == 0 { return None; }
        *fuel -= 1;
        match x {
            Ent::Store { off, size, val, guard } => {
                if e.ev(*guard)? == 0 { continue; }
                let o = e.ev(*off)?;
                let v = match val { Sc::N(p) => cval(e, *p, src)?, _ => Cv::Other("unknown value".into()) };
                if matches!(&v, Cv::Other(s) if s.starts_with('?')) { return None; }
                for d in 1 - 8i128..*size as i128 { if d != 0 { if let Some((s, _)) = out.get(&(o + d)) { if d > 0 || o + d + *s as i128 > o { out.remove(&(o + d)); } } } }
                out.insert(o, (*size, v));
            }
            Ent::Loop { lvar, count, ents, guard, .. } => {
                if e.ev(*guard)? == 0 { continue; }
                let n = e.ev(*count)?;
                for t in 0..n.max(0) { e.set(*lvar, t); contents(e, ents, src, out, fuel)?; }
                e.vals.remove(lvar);
            }
            Ent::Prev { .. } => {}
            _ => return None,
        }
    }
    Some(())
}
fn cval(e: &mut Env, p: P, src: Base) -> Option<Cv> {
    let mut acc: BTreeMap<Vec<(i128, u8)>, i128> = BTreeMap::new();
    for (m, c) in terms(p) {
        let mut t = c;
        let mut lo = vec![];
        for a in mono(m) { match ad(a) { AD::Load(b, o, s) if *b == src => lo.push((*o, *s)), AD::Load(..) | AD::Fun(..) | AD::Tile(..) | AD::Sum(..) => return Some(Cv::Other("?".into())), _ => t = t.checked_mul(e.atom(a)?)? } }
        if t == 0 { continue; }
        let mut key = vec![];
        for (o, s) in lo { key.push((e.ev(o)?, s)); }
        *acc.entry(key).or_default() += t;
    }
    acc.retain(|_, v| *v != 0);
    Some(match acc.len() { 0 => Cv::Zero, 1 => { let (kx, v) = acc.into_iter().next().unwrap(); if kx.len() == 1 && v == 1 { Cv::Src(kx[0].0, kx[0].1) } else { Cv::Other("no plain copy of a source element".into()) } } _ => Cv::Other("no plain copy of a source element".into()) })
}
fn refute(c: &PC, rep: &Rep, ents: &[Ent]) -> Vec<(&'static str, String, String)> {
    let (e, w, csz) = (c.ki.esz, c.w, c.csz());
    let mut out = vec![];
    let h = rep.hints.clone();
    let (ka, ma, la) = (atoms_of(c.kc)[0], atoms_of(c.mc)[0], atoms_of(sym("pack.8"))[0]);
    for (rs, cs) in [(1i128, 1000i128), (1000, 1), (700, 7000), (-700, 9000), (1, -1000), (2, 5000), (-1, 1000), (1000, -1), (-2, -5000), (-5000, 2), (w, 3 * w), (3 * w, w), (1, w), (w, 1), (1, 2 * w + 1), (2 * w + 1, 1), (4, 4096), (4096, 4), (8, 64), (0, 1), (1, 0), (0, 7), (7, 0), (3, 3)] {
        for mc in 1..=2 * w + 1 { for kc in [1i128, 2, 3, 4, 5, 8, 9] {
            if (kc > 3 && mc % 3 != 0) || out.len() > 3 { continue; }
            let mut env = Env::new(&h, 5);
            let np = (mc + w - 1) / w;
            for (a, v) in [(ka, kc), (ma, mc), (la, kc * np * w), (c.rs, rs), (c.cs, cs)] { env.set(a, v); }
            let mut got = BTreeMap::new();
            let mut fuel = 200000;
            if contents(&mut env, ents, c.src, &mut got, &mut fuel).is_none() { continue; }
            let wit = format!("kc={} mc={} rs={} cs={}", kc, mc, rs, cs);
            for q in 0..np { for j in 0..kc { for lane in 0..w * c.ki.comps {
                let o = e * w * (kc * q + j) + csz * lane;
                let (i, comp) = (lane % w, lane / w);
                let row = q * w + i;
                let slot = format!("panel {} slot {} lane {}", q, j, lane);
                match got.get(&o) {
                    None => out.push((if row < mc { "unfilled" } else { "unfilled-pad" }, format!("{} is never written", slot), wit.clone())),
                    Some((s, v)) if *s as i128 == csz => {
                        let want = if row < mc { Cv::Src(e * (rs * row + cs * j) + comp * csz, csz as u8) } else { Cv::Zero };
                        if *v != want { if row < mc { out.push(("content", format!("{} receives {:?} instead of source element ({},{})", slot, v, row, j), wit.clone())) } else { out.push(("padding", format!("{} is padding but receives {:?} instead of 0", slot, v), wit.clone())) } }
                    }
                    _ => {}
                }
            } } }
        } }
    }
    out
}
/// proof that the store families are exactly the contract
fn prove_content(c: &PC, f: &Facts, pe: &[PEnt], rep: &mut Rep) -> Result<(), String> {
    let r = prove_cases_of(c, f.clone(), pe, rep);
    if r.is_ok() { return r; }
    // once for every remainder of the panel width, loops over lanes taken apart
    let ma = atoms_of(c.mc)[0];
    for r in 0..c.w {
        let q = sym("full panels");
        let mc = addk(scale(q, c.w), r);
        let mut g = f.clone();
        g.add_sub(ma, mc);
        if g.dead { continue; }
        if r == 0 { g.add_ge(addk(q, -1)); }
        let mut h = HashMap::new();
        h.insert(ma, mc);
        let c2 = PC { ki: c.ki, w: c.w, kc: c.kc, mc, panels: if r > 0 { addk(q, 1) } else { q }, rs: c.rs, cs: c.cs, src: c.src, dst: c.dst };
        let mut es = vec![];
        for p in pe {
            let (guard, off) = (g.simp(subst(unlet(p.guard), &h)), g.simp(subst(unlet(p.off), &h)));
            let val = match &p.val { Sc::N(v) => Sc::N(g.simp(subst(unlet(*v), &h))), x => x.clone() };
            let loops = p.loops.iter().map(|(a, n)| (*a, g.simp(subst(unlet(*n), &h)))).collect();
            expand(&c2, &g, PEnt { loops, guard, off, size: p.size, val }, 0, &mut es)?;
        }
        prove_cases_of(&c2, g, &es, rep).map_err(|e| format!("mc mod {} = {}: {}", c.w, r, e))?;
    }
    Ok(())
}
/// a store inside a loop over lanes as one store per lane
fn expand(c: &PC, f: &Facts, p: PEnt, depth: u32, out: &mut Vec<PEnt>) -> Result<(), String> {
    let u = c.ki.esz * c.w;
    // a loop whose body decides on its counter is cut in two
    let mut conds = elem_bool_atoms(p.guard);
    if let Sc::N(v) = &p.val { conds.extend(elem_bool_atoms(*v)); }
    if depth < 12 { for x in conds {
        let AD::Ge0(e) = ad(x) else { continue };
        for (i, (v, n)) in p.loops.iter().enumerate() {
            let Some((cf, r)) = linear_in(*e, *v) else { continue };
            let (t, first) = match cst(cf) { Some(1) => (neg(r), false), Some(-1) => (addk(r, 1), true), _ => continue };
            if p.loops.iter().any(|l| mentions(t, l.0) || mentions(l.1, *v)) { continue; }
            if !prove_cases(f, t, &[], 3) || !prove_cases(f, sub(*n, t), &[], 3) { continue; }
            for part in 0..2 {
                let mut h = HashMap::new();
                h.insert(x, if (part == 0) == first { one() } else { ZERO });
                let mut h2 = HashMap::new();
                if part == 1 { h2.insert(*v, add(pa(*v), t)); }
                let sb = |q: P| f.simp(subst(subst(q, &h), &h2));
                let mut loops = p.loops.clone();
                loops[i].1 = if part == 0 { t } else { sub(*n, t) };
                let guard = sb(p.guard);
                if guard == ZERO || loops[i].1 == ZERO { continue; }
                let val = match &p.val { Sc::N(v) => Sc::N(sb(*v)), x => x.clone() };
                expand(c, f, PEnt { loops, guard, off: sb(p.off), size: p.size, val }, depth + 1, out)?;
            }
            return Ok(());
        }
    } }
    for (i, (v, n)) in p.loops.iter().enumerate() {
        let Some((cf, _)) = linear_in(p.off, *v) else { continue };
        if terms(cf).iter().all(|(_, x)| x % u == 0) { continue; }
        let cap = 2 * c.w;
        let cnt = match cst(*n) { Some(x) => x, None => { if !prove_cases(f, sub(k(cap), *n), &[], 3) { return Err("loop over lanes of unknown length".into()); } cap } };
        if cnt > cap { return Err("long loop over lanes".into()); }
        for t in 0..cnt {
            let mut h = HashMap::new();
            h.insert(*v, k(t));
            let mut loops = p.loops.clone();
            loops.remove(i);
            for l in loops.iter_mut() { l.1 = subst(l.1, &h); }
            let guard = if cst(*n).is_some() { p.guard } else { mul(p.guard, ge0(addk(*n, -1 - t))) };
            let val = match &p.val { Sc::N(v) => Sc::N(subst(*v, &h)), x => x.clone() };
            expand(c, f, PEnt { loops, guard: f.simp(subst(guard, &h)), off: subst(p.off, &h), size: p.size, val }, depth, out)?;
        }
        return Ok(());
    }
    out.push(p);
    Ok(())
}
fn prove_cases_of(c: &PC, f: Facts, pe: &[PEnt], rep: &mut Rep) -> Result<(), String> {
    let mut todo = vec![(f, 0)];
    let mut cases = 0;
    while let Some((f, d)) = todo.pop() {
        if f.dead { continue; }
        if d > 24 || cases > 300 { return Err("too many cases".into()); }
        match content_case(c, &f, pe) {
            Ok(()) => cases += 1,
            Err((Some(x), _)) => { for (cnd, v) in branches(x) { let mut g = f.clone(); g.assume(cnd, true); if let Some((a, v)) = v { g.add_sub(a, v); } todo.push((g, d + 1)); } }
            Err((None, e)) => return Err(e),
        }
    }
    rep.stat("pack cases", cases);
    Ok(())
}
type CE = (Option<A>, String);
fn free_bool(p: P, vars: &BTreeSet<A>) -> Option<A> { elem_bool_atoms(p).into_iter().find(|a| { let mut s = BTreeSet::new(); deep_atom(*a, &mut s); s.is_disjoint(vars) }) }
fn content_case(c: &PC, f: &Facts, pe: &[PEnt]) -> Result<(), CE> {
    let (e, w, csz) = (c.ki.esz, c.w, c.csz());
    let vars: BTreeSet<A> = pe.iter().flat_map(|p| p.loops.iter().map(|l| l.0)).collect();
    let kca = atoms_of(c.kc)[0];
    // lane -> panel range -> slot progressions
    let mut lanes: HashMap<i128, Vec<((P, P, i128), (i128, P, i128, P))>> = HashMap::new();
    'ents: for p in pe {
        let g = f.simp(p.guard);
        match cst(g) { Some(0) => continue, Some(_) => {} None => return Err((free_bool(g, &vars), format!("guard {}", short(g)))) }
        let mut fl = f.clone();
        let mut loops = vec![];
        for (v, n) in &p.loops {
            let n = f.simp(*n);
            if let Some(x) = free_bool(n, &vars) { return Err((Some(x), "loop count".into())); }
            if n == ZERO { continue 'ents; }
            fl.add_ge(addk(sub(n, pa(*v)), -1));
            loops.push((*v, n));
        }
        let off = f.simp(unlet(p.off));
        if let Some(x) = free_bool(off, &vars) { return Err((Some(x), "offset".into())); }
        if p.size as i128 != csz { return Err((None, "store of another size than one scalar".into())); }
        let Some((slot, lb)) = split_mod(off, e * w) else { return Err((None, format!("destination offset {}", short(off)))) };
        if lb % csz != 0 { return Err((None, "destination offset inside a scalar".into())); }
        let lane = lb / csz;
        let Some((qe, je)) = linear_in(slot, kca) else { return Err((None, format!("slot {}", short(slot)))) };
        // value
        let Sc::N(v) = &p.val else { return Err((None, "value".into())) };
        let v = fl.simp(*v);
        if let Some(x) = free_bool(v, &vars) { return Err((Some(x), "value".into())); }
        let row = add(scale(qe, w), k(lane % w));
        let comp = lane / w;
        if v == ZERO {
            if !prove_cases(&fl, sub(row, c.mc), &[], 3) { return Err((None, format!("lane {} zero although row {} may be inside", lane, short(row)))); }
        } else {
            let t = terms(v);
            if t.len() != 1 || t[0].1 != 1 || mono_len(t[0].0) != 1 { return Err((None, format!("value {}", short(v)))); }
            let AD::Load(b, o, s) = ad(mono(t[0].0)[0]) else { return Err((None, format!("value {}", short(v)))) };
            if *b != c.src || *s as i128 != csz { return Err((None, "value from elsewhere".into())); }
            let want = f.app(addk(scale(add(mul(pa(c.rs), row), mul(pa(c.cs), je)), e), comp * csz));
            if !fl.eq(sub(want, f.app(unlet(*o)))) { return Err((None, format!("source offset {} expected {}", short(*o), short(want)))); }
            if !prove_cases(&fl, addk(sub(c.mc, row), -1), &[], 3) { return Err((None, format!("row {} may be outside", short(row)))); }
        }
        // at most one loop drives the panel, one the slot
        let lin = |x: P| -> Option<(P, P, i128)> {
            let vs: Vec<&(A, P)> = loops.iter().filter(|l| mentions(x, l.0)).collect();
            match vs.len() { 0 => Some((x, one(), 1)), 1 => { let (cf, r) = linear_in(x, vs[0].0)?; Some((r, vs[0].1, cst(cf)?)) } _ => None }
        };
        let (Some((q0, qn, qd)), Some((j0, jn, jd))) = (lin(qe), lin(je)) else { return Err((None, "panel or slot not a progression".into())) };
        let used = loops.iter().filter(|l| mentions(qe, l.0) || mentions(je, l.0)).count();
        if used != loops.len() || loops.iter().any(|l| mentions(qe, l.0) && mentions(je, l.0)) { return Err((None, "loop that drives neither panel nor slot".into())); }
        lanes.entry(lane).or_default().push(((q0, qn, qd), (1, j0, jd, jn)));
    }
    for lane in 0..w * c.ki.comps {
        let Some(v) = lanes.get(&lane) else { return Err((None, format!("lane {} not written", lane))) };
        let mut qs: Vec<((P, P, i128), Vec<(i128, P, i128, P)>)> = vec![];
        for (q, j) in v { if let Some(x) = qs.iter_mut().find(|x| x.0 == *q) { x.1.push(*j) } else { qs.push((*q, vec![*j])) } }
        for (_, js) in &qs { if !chain(f, js, c.kc) { return Err((None, format!("slots of lane {} do not cover [0,kc)", lane))); } }
        let qp: Vec<(i128, P, i128, P)> = qs.iter().map(|((q0, n, d), _)| (1, *q0, *d, *n)).collect();
        if !chain(f, &qp, f.simp(c.panels)) {
            let x = free_bool(f.simp(c.panels), &vars);
            return Err((x, format!("panels of lane {} do not cover [0,ceil(mc/{}))", lane, w)));
        }
    }
    if lanes.len() as i128 != w * c.ki.comps { return Err((None, "more lanes than expected".into())); }
    Ok(())
}
