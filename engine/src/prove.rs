//! Linear-arithmetic entailment over the atoms of `expr`: p >= 0 under a set of facts.
//! Farkas certificates found by an exact rational simplex; case splits on max0/indicator atoms.
use crate::expr::*;
use std::collections::{BTreeSet, HashMap, BTreeMap};

#[derive(Clone, Default)]
pub struct Facts {
    /// each known >= 0
    pub ge: Vec<P>,
    /// atom -> replacement (equalities, decided indicators)
    pub sub: HashMap<A, P>,
    pub id: u32,
    pub dead: bool,
    /// sample points known to satisfy a weaker set of facts, and how many of `ge` they were tested on
    pub models: std::cell::RefCell<Option<std::rc::Rc<Vec<u32>>>>,
    pub checked: std::cell::Cell<u32>,
}
pub const NMODELS: u32 = 600;
thread_local! { static EV: std::cell::RefCell<HashMap<(u32, A), Option<i128>>> = Default::default(); }
fn mix(a: u64, b: u64) -> u64 { let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03); x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32; x.wrapping_mul(0x94D049BB133111EB) >> 11 }
const SIZES: [i128; 30] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 257, 300, 511, 513, 1025, 1500, 2049, 3001];
fn leaf_value(seed: u32, a: A) -> i128 {
    let h = mix(seed as u64 + 1, a.0 as u64 + 77);
    match ad(a) {
        AD::Sym { nonneg, lo, hi, .. } => {
            let mut v = if *nonneg { SIZES[(h % 30) as usize] } else { [1, 2, 5, -3, 17, 0, 9, 1][(h % 8) as usize] };
            if let Some(l) = lo { v = v.max(*l as i128) }
            if let Some(u) = hi { v = v.min(*u as i128) }
            v
        }
        AD::LVar(_) | AD::Phi(_, true) => [0, 0, 0, 0, 1, 1, 2, 3][(h % 8) as usize],
        AD::Phi(_, false) => [0, 1, -1, 7][(h % 4) as usize],
        AD::AddrQ(_) => 1 + (h % 40) as i128,
        _ if is_ind(a) => (h % 2) as i128,
        _ if atom_nonneg(a) => SIZES[(h % 20) as usize],
        AD::Load(..) => [1, 2, 3, 4, 5, 8, 0][(h % 7) as usize],
        _ => [0, 1, 2, -1, 8, 30][(h % 6) as usize],
    }
}
pub fn eval_atom(seed: u32, a: A) -> Option<i128> {
    if let Some(v) = EV.with(|m| m.borrow().get(&(seed, a)).cloned()) { return v; }
    let r = (|| Some(match ad(a) {
        AD::Max0(e) => eval(seed, *e)?.max(0),
        AD::Let(e) => eval(seed, *e)?,
        AD::Div(x, y) => { let (x, y) = (eval(seed, *x)?, eval(seed, *y)?); if y <= 0 { 0 } else { x.div_euclid(y) } }
        AD::Ge0(e) => (eval(seed, *e)? >= 0) as i128,
        AD::Eq0(e) => (eval(seed, *e)? == 0) as i128,
        AD::NDvd(e, c) => (eval(seed, *e)?.rem_euclid(*c) != 0) as i128,
        AD::Sum(..) | AD::Tile(..) | AD::Bound | AD::Sym { real: true, .. } | AD::Fun(_, _, true) => return None,
        _ => leaf_value(seed, a),
    }))();
    EV.with(|m| m.borrow_mut().insert((seed, a), r));
    r
}
/// value of an integer polynomial at sample point `seed`
pub fn eval(seed: u32, p: P) -> Option<i128> {
    let mut s = 0i128;
    for (m, c) in terms(p) { let mut t = c; for a in mono(m) { t = t.checked_mul(eval_atom(seed, a)?)?; } s = s.checked_add(t)?; }
    Some(s)
}
thread_local! {
    static MEMO: std::cell::RefCell<HashMap<(u32, P), bool>> = Default::default();
    static SMEMO: std::cell::RefCell<HashMap<(u32, P), P>> = Default::default();
    pub static CALLS2: std::cell::Cell<u64> = Default::default();
    pub static CALLS: std::cell::Cell<u64> = Default::default();
}
impl Facts {
    pub fn new() -> Facts { Facts { id: fresh_id(), ..Default::default() } }
    fn touch(&mut self) { self.id = fresh_id(); }
    /// sample points that satisfy every recorded fact
    pub fn samples(&self) -> std::rc::Rc<Vec<u32>> {
        let stamp = self.id;
        let mut m = self.models.borrow_mut();
        if let (Some(v), true) = (&*m, self.checked.get() == stamp) { return v.clone(); }
        let old: Vec<u32> = match &*m { Some(v) => v.to_vec(), None => (0..NMODELS).collect() };
        // substituted atoms keep their meaning at a sample point only if both sides agree there
        let eqs: Vec<(P, P)> = self.sub.iter().map(|(a, v)| (pa(*a), *v)).filter(|(a, _)| !matches!(ad(atoms_of(*a)[0]), AD::FEq0(_) | AD::FLt0(_) | AD::Load(..))).collect();
        let new: Vec<u32> = old.into_iter().filter(|s| self.ge.iter().all(|g| !int_poly(*g) || eval(*s, *g).map_or(false, |v| v >= 0)) && eqs.iter().all(|(a, v)| !int_poly(*v) || eval(*s, *a) == eval(*s, *v))).collect();
        let r = std::rc::Rc::new(new);
        *m = Some(r.clone());
        self.checked.set(stamp);
        r
    }
    /// add e >= 0
    pub fn add_ge(&mut self, e: P) {
        let e = self.app(e);
        if let Some(c) = cst(e) { if c < 0 { self.dead = true; } return; }
        if quick_nonneg(e) || self.ge.contains(&e) { return; }
        if let Some((a, v)) = decided_ind(e) { self.know(a, v); return; }
        self.ge.push(e);
        if self.ge.contains(&neg(e)) { self.add_eq(e); }
        self.touch();
    }
    pub fn add_eq(&mut self, e: P) {
        let e = self.app(e);
        if let Some(c) = cst(e) { if c != 0 { self.dead = true; } return; }
        // solve for a unit-coefficient simple atom
        let mut best: Option<(A, P)> = None;
        for (m, c) in terms(e) {
            if mono_len(m) == 1 && c.abs() == 1 {
                let a = mono(m)[0];
                let rest = sub(e, scale(pm(m), c));
                if mentions(rest, a) { continue; }
                let v = if c == 1 { neg(rest) } else { rest };
                let score = |a: A| match ad(a) { AD::Sym { .. } => 0, AD::Phi(..) | AD::LVar(_) => 1, AD::Load(..) => 2, _ => 3 };
                let better = match &best { None => true, Some((b, bv)) => (cst(v).is_some(), std::cmp::Reverse(score(a)), a) > (cst(*bv).is_some(), std::cmp::Reverse(score(*b)), *b) };
                if better { best = Some((a, v)); }
            }
        }
        if let Some((a, v)) = best { self.add_sub(a, v); } else { self.ge.push(e); self.ge.push(neg(e)); self.touch(); }
    }
    pub fn add_sub(&mut self, a: A, v: P) {
        if pa(a) == v { return; }
        let mut h = HashMap::new();
        h.insert(a, v);
        for x in self.sub.values_mut() { *x = subst(*x, &h); }
        self.sub.insert(a, v);
        let old = std::mem::take(&mut self.ge);
        self.touch();
        let mut ind = vec![];
        for g in old { let g2 = subst(g, &h); if let Some(x) = decided_ind(g2) { ind.push(x); } else if let Some(c) = cst(g2) { if c < 0 { self.dead = true; } } else if !quick_nonneg(g2) && !self.ge.contains(&g2) { self.ge.push(g2) } }
        for (a, v) in ind { let c = self.app(pa(a)); if c == pa(a) { self.know(a, v); } else if cst(c) == Some(!v as i128) { self.dead = true; } }
        // a nonnegative symbol replaced: keep that knowledge
        if atom_nonneg(a) && !quick_nonneg(v) { self.ge.push(v); }
        if let AD::Sym { lo, hi, .. } = ad(a) { if let Some(l) = lo { self.ge.push(addk(v, -(*l as i128))) } if let Some(h) = hi { self.ge.push(sub(k(*h as i128), v)) } }
    }
    /// boolean polynomial known true/false
    pub fn assume(&mut self, c: P, val: bool) {
        let c = self.app(c);
        let c = if val { c } else { not(c) };
        self.assume_true(c, 0)
    }
    fn assume_true(&mut self, c: P, depth: u32) {
        if let Some(v) = cst(c) { if v == 0 { self.dead = true; } return; }
        let ts = terms(c);
        // product of indicators, or 1 - indicator
        if ts.len() == 1 && ts[0].1 == 1 && mono(ts[0].0).iter().all(|a| is_ind(*a)) {
            for a in mono(ts[0].0) { self.know(a, true); }
            return;
        }
        if ts.len() == 2 && ts[0] == (M(0), 1) && ts[1].1 == -1 && mono_len(ts[1].0) == 1 && is_ind(mono(ts[1].0)[0]) {
            self.know(mono(ts[1].0)[0], false);
            return;
        }
        // forced atoms
        let at = atoms_of(c);
        if at.len() <= 6 && at.iter().all(|a| is_ind(*a)) && depth < 6 {
            for (i, a) in at.iter().enumerate() {
                let (mut t, mut f) = (false, false);
                for b in 0..1u32 << at.len() { if eval_ind(c, &at, b) != 0 { if b >> i & 1 == 1 { t = true } else { f = true } } }
                if !t && !f { self.dead = true; return; }
                if t != f {
                    self.know(*a, t);
                    let c2 = self.app(c);
                    return self.assume_true(c2, depth + 1);
                }
            }
        }
        // c is 0/1 valued and true: c >= 1
        let e = addk(c, -1);
        if !self.ge.contains(&e) { self.ge.push(e); self.touch(); }
    }
    pub fn know(&mut self, a: A, v: bool) {
        self.add_sub(a, k(v as i128));
        match ad(a).clone() {
            AD::Ge0(p) => self.add_ge(if v { p } else { addk(neg(p), -1) }),
            AD::Eq0(p) => if v { self.add_eq(p) } else {
                // disequality: sharpen when one-sided
                if self.ge(p) { self.add_ge(addk(p, -1)) } else if self.ge(neg(p)) { self.add_ge(addk(neg(p), -1)) }
            },
            AD::FEq0(p) => if v {
                let ts = terms(p);
                let (c0, rest): (i128, Vec<(M, i128)>) = if ts.len() >= 1 && ts[0].0 == M(0) { (ts[0].1, ts[1..].to_vec()) } else { (0, ts) };
                if rest.len() == 1 && rest[0].1.abs() == 1 && mono_len(rest[0].0) == 1 { self.add_sub(mono(rest[0].0)[0], k(-c0 * rest[0].1)); }
            },
            AD::NDvd(e, c) => {
                let r = sub(e, scale(divk(e, c), c));
                if v { self.add_ge(addk(r, -1)) } else { self.add_eq(r) }
            }
            _ => {}
        }
    }
    pub fn app(&self, p: P) -> P { if self.sub.is_empty() { p } else { subst(p, &self.sub) } }
    /// simplify: known substitutions, then decide max0 / indicator / small div atoms by entailment
    pub fn simp(&self, p: P) -> P {
        if cst(p).is_some() { return p; }
        if let Some(r) = SMEMO.with(|m| m.borrow().get(&(self.id, p)).cloned()) { return r; }
        let mut q = self.app(p);
        for _ in 0..6 {
            let mut set = BTreeSet::new();
            deep_atoms(q, &mut set);
            let mut changed = false;
            for a in set {
                let rep = match ad(a) {
                    AD::Max0(e) => if self.ge(*e) { Some(*e) } else if self.ge(neg(*e)) { Some(ZERO) } else { None },
                    AD::Ge0(e) => if self.ge(*e) { Some(one()) } else if self.ge(addk(neg(*e), -1)) { Some(ZERO) } else { None },
                    AD::Eq0(e) => if self.ge(addk(*e, -1)) || self.ge(addk(neg(*e), -1)) { Some(ZERO) } else if self.ge(*e) && self.ge(neg(*e)) { Some(one()) } else { None },
                    AD::NDvd(e, c) => {
                        let r = sub(*e, scale(divk(*e, *c), *c));
                        if self.ge(addk(r, -1)) { Some(one()) } else if self.ge(neg(r)) { Some(ZERO) } else { None }
                    }
                    AD::Div(e, d) => match cst(*d) {
                        Some(_) if self.ge(*e) && self.ge(sub(*d, addk(*e, 1))) => Some(ZERO),
                        None if self.ge(*e) && self.ge(sub(*d, addk(*e, 1))) => Some(ZERO),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(v) = rep { if pa(a) != v { q = self.app(subst1(q, a, v)); changed = true; break; } }
            }
            if !changed { break; }
        }
        SMEMO.with(|m| m.borrow_mut().insert((self.id, p), q));
        q
    }
    pub fn ge(&self, p: P) -> bool {
        if self.dead { return true; }
        if let Some(c) = cst(p) { return c >= 0; }
        if quick_nonneg(p) { return true; }
        if let Some(r) = MEMO.with(|m| m.borrow().get(&(self.id, p)).cloned()) { return r; }
        CALLS.with(|c| c.set(c.get() + 1));
        let q = self.app(p);
        // a sample point where the goal fails: no proof exists
        let refuted = int_poly(q) && self.samples().iter().any(|s| eval(*s, q).map_or(false, |v| v < 0));
        let r = !refuted && prove(q, &self.ge, 5);
        if !refuted { CALLS2.with(|c| c.set(c.get() + 1)); }
        MEMO.with(|m| m.borrow_mut().insert((self.id, p), r));
        r
    }
    pub fn gt(&self, p: P) -> bool { self.ge(addk(p, -1)) }
    pub fn eq(&self, p: P) -> bool { let q = self.simp(p); q == ZERO || (cst(q).is_none() && self.ge(q) && self.ge(neg(q))) }
    /// decide a boolean polynomial
    pub fn decide(&self, c: P) -> Option<bool> {
        if let Some(v) = cst(c) { return Some(v != 0); }
        let q = self.simp(c);
        match cst(q) {
            Some(v) => Some(v != 0),
            None => {
                if atoms_of(q).iter().any(|a| matches!(ad(*a), AD::FEq0(_) | AD::FLt0(_) | AD::BSym(_))) { return None; }
                if self.ge(addk(q, -1)) { Some(true) } else if self.ge(neg(q)) { Some(false) } else { None }
            }
        }
    }
}

/// e >= 0 says an indicator is false (-c x >= 0) or true (c x - d >= 0, 0 < d <= c)
fn decided_ind(e: P) -> Option<(A, bool)> {
    let ts = terms(e);
    let one = |t: &(M, i128)| if mono_len(t.0) == 1 && is_ind(mono(t.0)[0]) { Some(mono(t.0)[0]) } else { None };
    match ts.as_slice() {
        [t] if t.1 < 0 => Some((one(t)?, false)),
        [c, t] if c.0 == M(0) && c.1 < 0 && t.1 > 0 && -c.1 <= t.1 => Some((one(t)?, true)),
        [c, t] if c.0 == M(0) && c.1 >= 0 && t.1 < 0 && c.1 < -t.1 => Some((one(t)?, false)),
        _ => None,
    }
}
fn int_poly(p: P) -> bool {
    terms(p).iter().all(|(m, _)| mono(*m).iter().all(|a| !matches!(ad(*a), AD::Load(..) | AD::Tile(..) | AD::Sum(..) | AD::Sym { real: true, .. } | AD::Fun(_, _, true))))
}
/// axioms about one atom (all >= 0)
fn axioms(a: A, facts: &[P], out: &mut Vec<P>) {
    let x = pa(a);
    if atom_nonneg(a) { out.push(x); }
    match ad(a) {
        AD::Max0(e) => out.push(sub(x, *e)),
        AD::Let(e) => { out.push(sub(x, *e)); out.push(sub(*e, x)); }
        AD::Div(e, d) => if let Some(d) = cst(*d) {
            out.push(sub(*e, scale(x, d)));
            out.push(add(sub(scale(x, d), *e), k(d - 1)));
        } else if quick_nonneg(*e) {
            out.push(x);
            // floor(e/d)*d <= e, and e < (floor(e/d)+1)*d where d >= 1 is known
            out.push(sub(*e, mul(x, *d)));
            let d1 = addk(*d, -1);
            if quick_nonneg(d1) || facts.contains(&d1) { out.push(add(sub(mul(x, *d), *e), d1)); }
            out.push(sub(*e, x));
        },
        AD::NDvd(e, c) => {
            let r = sub(*e, scale(divk(*e, *c), *c));
            out.push(sub(r, x));
            out.push(sub(scale(x, c - 1), r));
            out.push(sub(one(), x));
        }
        AD::Sym { lo, hi, .. } => {
            if let Some(l) = lo { out.push(addk(x, -(*l as i128))) }
            if let Some(h) = hi { out.push(sub(k(*h as i128), x)) }
        }
        _ => if is_ind(a) { out.push(sub(one(), x)) },
    }
}
fn neg_sign_only(_e: P) -> bool { true }

pub fn prove(p: P, facts: &[P], depth: u32) -> bool {
    if let Some(c) = cst(p) { return c >= 0; }
    if quick_nonneg(p) { return true; }
    if !int_poly(p) { return false; }
    // relevant facts: connected through shared atoms
    let mut rel: Vec<P> = vec![];
    let mut seen: BTreeSet<A> = BTreeSet::new();
    let mut work: Vec<A> = atoms_of(p);
    let mut used = vec![false; facts.len()];
    let mut rounds = 0;
    while let Some(a) = work.pop() {
        if !seen.insert(a) { continue; }
        let mut ax = vec![];
        axioms(a, facts, &mut ax);
        for e in ax { if !rel.contains(&e) { for b in atoms_of(e) { if !seen.contains(&b) { work.push(b) } } rel.push(e); } }
        for (i, f) in facts.iter().enumerate() {
            if !used[i] && int_poly(*f) && atoms_of(*f).contains(&a) { used[i] = true; rel.push(*f); for b in atoms_of(*f) { if !seen.contains(&b) { work.push(b) } } }
        }
        rounds += 1;
        if rounds > 60 || rel.len() > 90 { break; }
    }
    // products for non-linear monomials
    let mut monos: BTreeSet<M> = BTreeSet::new();
    for (m, _) in terms(p) { if mono_len(m) >= 2 { monos.insert(m); } }
    for f in &rel { for (m, _) in terms(*f) { if mono_len(m) >= 2 { monos.insert(m); } } }
    let base = rel.clone();
    if !monos.is_empty() {
        let mut muls: BTreeSet<A> = BTreeSet::new();
        for m in &monos { for a in mono(*m) { if atom_nonneg(a) { muls.insert(a); } } }
        let mut prods: Vec<P> = vec![];
        for a in &muls {
            for f in &base {
                if rel.len() + prods.len() > 220 { break; }
                let q = mul(*f, pa(*a));
                // keep when it introduces no monomials that are unrelated
                let newm = terms(q).iter().filter(|(m, _)| mono_len(*m) >= 2 && !monos.contains(m)).count();
                if newm <= 1 && !prods.contains(&q) && cst(q).is_none() { prods.push(q); }
            }
        }
        // pairwise products of facts that both touch a non-linear monomial of the goal
        let goal_m: Vec<M> = terms(p).iter().map(|x| x.0).filter(|m| mono_len(*m) >= 2).collect();
        for i in 0..base.len() {
            for j in i..base.len() {
                if rel.len() + prods.len() > 260 { break; }
                if nterms(base[i]) > 4 || nterms(base[j]) > 4 || nterms(base[i]) + nterms(base[j]) < 3 { continue; }
                let q = mul(base[i], base[j]);
                let t = terms(q);
                if t.iter().any(|(m, _)| goal_m.contains(m)) && t.iter().filter(|(m, _)| mono_len(*m) >= 2 && !monos.contains(m)).count() <= 1 && !prods.contains(&q) && cst(q).is_none() { prods.push(q); }
            }
        }
        for m in &monos { if mono(*m).iter().all(|a| atom_nonneg(*a)) { prods.push(pm(*m)); } }
        rel.extend(prods);
    }
    if farkas(p, &rel) { return true; }
    if depth == 0 { return false; }
    // split on a max0 / indicator atom
    let mut cands: Vec<A> = vec![];
    for q in std::iter::once(&p).chain(base.iter()) {
        for a in atoms_of(*q) { if matches!(ad(a), AD::Max0(_) | AD::Ge0(_) | AD::Eq0(_)) && !cands.contains(&a) { cands.push(a) } }
        if cands.len() >= 4 { break; }
    }
    for a in cands.into_iter().take(if depth >= 4 { 3 } else { 2 }) {
        let (mut f1, mut f2): (Vec<P>, Vec<P>);
        let (v1, v2);
        match ad(a) {
            AD::Max0(e) => { v1 = *e; v2 = ZERO; f1 = vec![*e]; f2 = vec![neg(*e)]; }
            AD::Ge0(e) => { v1 = one(); v2 = ZERO; f1 = vec![*e]; f2 = vec![addk(neg(*e), -1)]; }
            AD::Eq0(e) => { v1 = one(); v2 = ZERO; f1 = vec![*e, neg(*e)]; f2 = vec![]; }
            _ => continue,
        }
        for f in facts { f1.push(subst1(*f, a, v1)); f2.push(subst1(*f, a, v2)); }
        if prove(subst1(p, a, v1), &f1, depth - 1) && prove(subst1(p, a, v2), &f2, depth - 1) { return true; }
    }
    let _ = neg_sign_only;
    false
}

type Q = (i128, i128);
fn qn(a: i128, b: i128) -> Option<Q> { if b == 0 { return None; } let g = gcd(a, b).max(1); let s = if b < 0 { -1 } else { 1 }; Some((s * a / g, s * b / g)) }
fn qmul(a: Q, b: Q) -> Option<Q> { let g1 = gcd(a.0, b.1).max(1); let g2 = gcd(b.0, a.1).max(1); qn((a.0 / g1).checked_mul(b.0 / g2)?, (a.1 / g2).checked_mul(b.1 / g1)?) }
fn qsub(a: Q, b: Q) -> Option<Q> { if b.0 == 0 { return Some(a); } qn(a.0.checked_mul(b.1)?.checked_sub(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?) }
fn qdiv(a: Q, b: Q) -> Option<Q> { qmul(a, qn(b.1, b.0)?) }

/// find l, mu >= 0 with sum l_i f_i + mu*(-p-1) = -1  (identically): certificate of facts |= p >= 0
fn farkas(p: P, facts: &[P]) -> bool {
    let goal = addk(neg(p), -1);
    let mut rows: BTreeMap<M, usize> = BTreeMap::new();
    rows.insert(M(0), 0);
    let cols: Vec<Vec<(M, i128)>> = std::iter::once(goal).chain(facts.iter().cloned()).map(terms).collect();
    for c in &cols { for (m, _) in c { let n = rows.len(); rows.entry(*m).or_insert(n); } }
    let (nr, nc) = (rows.len(), cols.len());
    // drop columns containing a monomial that cannot cancel (appears with only one sign overall) iteratively
    let mut alive = vec![true; nc];
    loop {
        let mut pos = vec![false; nr];
        let mut ng = vec![false; nr];
        for (j, c) in cols.iter().enumerate() { if alive[j] { for (m, v) in c { if *m != M(0) { let r = rows[m]; if *v > 0 { pos[r] = true } else { ng[r] = true } } } } }
        let mut ch = false;
        for (j, c) in cols.iter().enumerate() {
            if alive[j] && c.iter().any(|(m, _)| *m != M(0) && { let r = rows[m]; !(pos[r] && ng[r]) }) { alive[j] = false; ch = true; }
        }
        if !ch { break; }
    }
    let js: Vec<usize> = (0..nc).filter(|j| alive[*j]).collect();
    if js.is_empty() { return false; }
    // tableau: rows nr, columns js + rhs ; artificial basis
    let n = js.len();
    let mut used_rows: Vec<usize> = vec![];
    let mut idx = vec![usize::MAX; nr];
    for j in &js { for (m, _) in &cols[*j] { let r = rows[m]; if idx[r] == usize::MAX { idx[r] = used_rows.len(); used_rows.push(r); } } }
    if idx[0] == usize::MAX { return false; }
    let mr = used_rows.len();
    let mut t = vec![vec![(0i128, 1i128); n + 1]; mr];
    for (c, j) in js.iter().enumerate() { for (m, v) in &cols[*j] { t[idx[rows[m]]][c] = (*v, 1); } }
    // constant row: sum = -1  -> negate so rhs >= 0
    let r0 = idx[0];
    for c in 0..n { t[r0][c].0 = -t[r0][c].0; }
    t[r0][n] = (1, 1);
    let mut basis: Vec<Option<usize>> = vec![None; mr];
    // phase 1 objective: minimise sum of artificials = sum of rows
    let mut obj = vec![(0i128, 1i128); n + 1];
    for c in 0..=n { for r in 0..mr { match qsub(obj[c], (-t[r][c].0, t[r][c].1)) { Some(x) => obj[c] = x, None => return false } } }
    for iter in 0..400 {
        if obj[n].0 == 0 { return true; }
        // entering: positive reduced value
        let mut e = None;
        if iter < 60 {
            let mut best = 0.0;
            for c in 0..n { let v = obj[c].0 as f64 / obj[c].1 as f64; if v > best && !basis.contains(&Some(c)) { best = v; e = Some(c); } }
        } else { for c in 0..n { if obj[c].0 > 0 && !basis.contains(&Some(c)) { e = Some(c); break; } } }
        let Some(e) = e else { return false };
        let mut lv: Option<(usize, Q)> = None;
        for r in 0..mr {
            if t[r][e].0 > 0 {
                let Some(q) = qdiv(t[r][n], t[r][e]) else { return false };
                let less = match &lv { None => true, Some((r2, b)) => { let Some(d) = qsub(q, *b) else { return false }; d.0 < 0 || (d.0 == 0 && basis[r].map_or(-1, |x| x as i64) < basis[*r2].map_or(-1, |x| x as i64)) } };
                if less { lv = Some((r, q)); }
            }
        }
        let Some((lr, _)) = lv else { return false };
        let piv = t[lr][e];
        for c in 0..=n { match qdiv(t[lr][c], piv) { Some(x) => t[lr][c] = x, None => return false } }
        let prow = t[lr].clone();
        for r in 0..mr {
            if r != lr && t[r][e].0 != 0 {
                let f = t[r][e];
                for c in 0..=n { if prow[c].0 != 0 { match qmul(f, prow[c]).and_then(|x| qsub(t[r][c], x)) { Some(x) => t[r][c] = x, None => return false } } }
            }
        }
        let f = obj[e];
        for c in 0..=n { if prow[c].0 != 0 { match qmul(f, prow[c]).and_then(|x| qsub(obj[c], x)) { Some(x) => obj[c] = x, None => return false } } }
        basis[lr] = Some(e);
    }
    false
}
