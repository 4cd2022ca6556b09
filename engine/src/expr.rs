//! Hash-consed polynomials over symbolic atoms: the value domain of the analysis.
//!
//! One commutative ring serves integers (sizes, indices, byte offsets), booleans (indicator atoms,
//! valued 0/1) and exact reals (matrix elements). A value computed along a control-flow join is
//! represented with indicator coefficients, `g*v1 + (1-g)*v2`, so that joins lose nothing.
use std::collections::HashMap;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct P(pub u32);
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct A(pub u32);
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct M(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AD {
    /// named unknown. `nonneg`, `real`; lo/hi optional integer bounds
    Sym { name: String, nonneg: bool, real: bool, lo: Option<i64>, hi: Option<i64> },
    /// unknown loop-header value during loop analysis
    Phi(u32, bool),
    /// iteration number of a summarised loop (>= 0)
    LVar(u32),
    /// floor division, divisor positive
    Div(P, P),
    /// max(0, e)
    Max0(P),
    /// indicators
    Ge0(P),
    Eq0(P),
    FEq0(P),
    FLt0(P),
    /// e mod c != 0 (c constant)
    NDvd(P, i128),
    /// opaque boolean
    BSym(String),
    /// initial content of memory region `base` at byte offset
    Load(u32, P, u8),
    /// content of the output tile of kernel call `id` at byte offset
    Tile(u32, P, u8),
    /// sum over s in 0..count of monomial body[Bound:=s]
    Sum(P, M),
    Bound,
    /// abbreviation: equal to its (non-negative) argument
    Let(P),
    /// (address of base)/align(base)
    AddrQ(u32),
    /// uninterpreted function
    Fun(String, Vec<P>, bool /*real*/),
}

#[derive(Default)]
pub struct Cx {
    atoms: Vec<&'static AD>,
    amap: HashMap<AD, A>,
    monos: Vec<Box<[A]>>,
    mmap: HashMap<Box<[A]>, M>,
    polys: Vec<Box<[(M, i128)]>>,
    pmap: HashMap<Box<[(M, i128)]>, P>,
    mulmemo: HashMap<(P, P), P>,
    addmemo: HashMap<(P, P), P>,
    fresh: u32,
    pub overflow: bool,
}
thread_local! { static CX: std::cell::UnsafeCell<Option<Box<Cx>>> = std::cell::UnsafeCell::new(None); }
pub fn cx() -> &'static mut Cx {
    CX.with(|c| unsafe {
        let o = &mut *c.get();
        if o.is_none() {
            let mut b = Box::new(Cx::default());
            b.monos.push(Box::new([]));
            b.mmap.insert(Box::new([]), M(0));
            b.polys.push(Box::new([]));
            b.pmap.insert(Box::new([]), P(0));
            *o = Some(b);
        }
        let p: *mut Cx = &mut **o.as_mut().unwrap();
        &mut *p
    })
}
pub const ZERO: P = P(0);
pub fn fresh_id() -> u32 { let c = cx(); c.fresh += 1; c.fresh }

pub fn atom(ad: AD) -> A {
    let c = cx();
    if let Some(a) = c.amap.get(&ad) { return *a; }
    let a = A(c.atoms.len() as u32);
    c.atoms.push(Box::leak(Box::new(ad.clone())));
    c.amap.insert(ad, a);
    a
}
pub fn ad(a: A) -> &'static AD { cx().atoms[a.0 as usize] }
pub fn mono_of(v: Vec<A>) -> M {
    let c = cx();
    let b: Box<[A]> = v.into();
    if let Some(m) = c.mmap.get(&b) { return *m; }
    let m = M(c.monos.len() as u32);
    let k: Box<[A]> = b.clone();
    c.monos.push(b);
    c.mmap.insert(k, m);
    m
}
pub fn mono(m: M) -> Vec<A> { cx().monos[m.0 as usize].to_vec() }
pub fn mono_len(m: M) -> usize { cx().monos[m.0 as usize].len() }
pub fn poly_of(mut v: Vec<(M, i128)>) -> P {
    v.sort_unstable_by_key(|x| x.0);
    let mut o: Vec<(M, i128)> = Vec::with_capacity(v.len());
    for (m, k) in v {
        if let Some(l) = o.last_mut() {
            if l.0 == m { match l.1.checked_add(k) { Some(x) => l.1 = x, None => overflowed() }; continue; }
        }
        if let Some(l) = o.last() { if l.1 == 0 { o.pop(); } }
        o.push((m, k));
    }
    if let Some(l) = o.last() { if l.1 == 0 { o.pop(); } }
    o.retain(|x| x.1 != 0);
    let c = cx();
    let b: Box<[(M, i128)]> = o.into();
    if let Some(p) = c.pmap.get(&b) { return *p; }
    let p = P(c.polys.len() as u32);
    c.polys.push(b.clone());
    c.pmap.insert(b, p);
    p
}
pub fn terms(p: P) -> Vec<(M, i128)> { cx().polys[p.0 as usize].to_vec() }
pub fn terms_ref(p: P) -> &'static [(M, i128)] { let b: &[(M, i128)] = &cx().polys[p.0 as usize]; unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) } }
pub fn mono_ref(m: M) -> &'static [A] { let b: &[A] = &cx().monos[m.0 as usize]; unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) } }
pub fn nterms(p: P) -> usize { cx().polys[p.0 as usize].len() }
pub fn k(v: i128) -> P { if v == 0 { ZERO } else { poly_of(vec![(M(0), v)]) } }
pub fn one() -> P { k(1) }
pub fn pa(a: A) -> P { poly_of(vec![(mono_of(vec![a]), 1)]) }
pub fn pat(d: AD) -> P { pa(atom(d)) }
pub fn pm(m: M) -> P { poly_of(vec![(m, 1)]) }
pub fn sym(name: &str) -> P { pat(AD::Sym { name: name.into(), nonneg: true, real: false, lo: None, hi: None }) }
pub fn isym(name: &str) -> P { pat(AD::Sym { name: name.into(), nonneg: false, real: false, lo: None, hi: None }) }
pub fn rsym(name: &str) -> P { pat(AD::Sym { name: name.into(), nonneg: false, real: true, lo: None, hi: None }) }
pub fn cst(p: P) -> Option<i128> {
    let c = cx();
    let t = &c.polys[p.0 as usize];
    match t.len() { 0 => Some(0), 1 if t[0].0 == M(0) => Some(t[0].1), _ => None }
}
pub fn const_part(p: P) -> i128 { let c = cx(); match c.polys[p.0 as usize].first() { Some((M(0), v)) => *v, _ => 0 } }
pub fn add(a: P, b: P) -> P {
    if a == ZERO { return b; }
    if b == ZERO { return a; }
    let key = if a < b { (a, b) } else { (b, a) };
    if let Some(r) = cx().addmemo.get(&key) { return *r; }
    let mut v = terms(a);
    v.extend(terms(b));
    let r = poly_of(v);
    cx().addmemo.insert(key, r);
    r
}
pub fn scale(a: P, s: i128) -> P {
    if s == 1 { return a; }
    if s == 0 { return ZERO; }
    poly_of(terms(a).into_iter().map(|(m, x)| (m, x.checked_mul(s).unwrap_or_else(|| { overflowed(); 0 }))).collect())
}
pub fn neg(a: P) -> P { scale(a, -1) }
pub fn sub(a: P, b: P) -> P { if a == b { return ZERO; } add(a, neg(b)) }
pub fn addk(a: P, v: i128) -> P { add(a, k(v)) }
pub fn is_ind(a: A) -> bool { matches!(ad(a), AD::Ge0(_) | AD::Eq0(_) | AD::FEq0(_) | AD::FLt0(_) | AD::NDvd(..) | AD::BSym(_)) }

/// multiply two sorted monomials with the indicator rules; coefficient 0 when contradictory
fn mono_mul(a: M, b: M) -> (i128, M) {
    if a == M(0) { return (1, b); }
    if b == M(0) { return (1, a); }
    let mut v = mono(a);
    v.extend(mono(b));
    v.sort_unstable();
    norm_mono(v)
}
fn norm_mono(v: Vec<A>) -> (i128, M) {
    let mut o: Vec<A> = Vec::with_capacity(v.len());
    let mut eqs: Vec<(A, i128)> = vec![];
    for a in v {
        if o.last() == Some(&a) && is_ind(a) { continue; }
        if let AD::Eq0(p) | AD::FEq0(p) = ad(a) {
            // indicator of s == c
            let t = terms(*p);
            let (c0, rest): (i128, &[(M, i128)]) = if t.len() == 2 && t[0].0 == M(0) { (t[0].1, &t[1..]) } else { (0, &t[..]) };
            if rest.len() == 1 && rest[0].1.abs() == 1 && mono_len(rest[0].0) == 1 {
                let s = mono(rest[0].0)[0];
                let val = -c0 * rest[0].1;
                for (s2, v2) in &eqs { if *s2 == s && *v2 != val { return (0, M(0)); } }
                eqs.push((s, val));
            }
        }
        o.push(a);
    }
    let mut coef = 1i128;
    if !eqs.is_empty() {
        for (s, v) in &eqs {
            let n = o.iter().filter(|x| *x == s).count();
            if n > 0 {
                for _ in 0..n { coef = coef.saturating_mul(*v); }
                o.retain(|x| x != s);
            }
        }
        if coef == 0 { return (0, M(0)); }
    }
    (coef, mono_of(o))
}
pub fn mul(a: P, b: P) -> P {
    if a == ZERO || b == ZERO { return ZERO; }
    if let Some(x) = cst(a) { return scale(b, x); }
    if let Some(x) = cst(b) { return scale(a, x); }
    let key = if a < b { (a, b) } else { (b, a) };
    if let Some(r) = cx().mulmemo.get(&key) { return *r; }
    let (ta, tb) = (terms(a), terms(b));
    if ta.len() * tb.len() > 20000 { if std::env::var("MMSA_DBG").is_ok() { let (x, y) = (show(a), show(b)); eprintln!("BIG {} {} :: {}\n   {}", ta.len(), tb.len(), &x[..x.len().min(3000)].replace(char::is_control, ""), &y[..y.len().min(1500)]); } overflowed(); return fun("toobig", vec![a, b], true); }
    let mut v = Vec::with_capacity(ta.len() * tb.len());
    for (m1, c1) in &ta {
        for (m2, c2) in &tb {
            let (c, m) = mono_mul(*m1, *m2);
            if c != 0 { v.push((m, c1.saturating_mul(*c2).saturating_mul(c))); }
        }
    }
    let r = fix_nd(poly_of(v));
    cx().mulmemo.insert(key, r);
    r
}
/// x * [x mod c != 0] written through floor(x/c), so that both forms of a rounded size agree
fn fix_nd(p: P) -> P {
    let mut r = p;
    for (m, c) in terms(p) {
        let v = mono(m);
        if v.len() < 2 { continue; }
        for a in &v {
            if let AD::NDvd(e, d) = ad(*a) {
                let t = terms(*e);
                if t.len() != 1 || t[0].1 != 1 || mono_len(t[0].0) != 1 { continue; }
                let x = mono(t[0].0)[0];
                let Some(i) = v.iter().position(|y| *y == x) else { continue };
                let mut rest = v.clone();
                rest.remove(i);
                let j = rest.iter().position(|y| y == a).unwrap();
                rest.remove(j);
                let rest = pm(mono_of(rest));
                let dv = scale(divk(pa(x), *d), *d);
                let new = add(sub(pa(x), dv), mul(dv, pa(*a)));
                r = add(sub(r, scale(pm(m), c)), scale(mul(rest, new), c));
                break;
            }
        }
    }
    r
}
pub fn fun(name: &str, args: Vec<P>, real: bool) -> P { pat(AD::Fun(name.into(), args, real)) }
pub fn opaque(name: &str, real: bool) -> P { let n = fresh_id(); fun(&format!("?{}#{}", name, n), vec![], real) }
pub fn sel(g: P, a: P, b: P) -> P { if a == b { return a; } add(b, mul(g, sub(a, b))) }
pub fn not(g: P) -> P { sub(one(), g) }

pub fn atoms_of(p: P) -> Vec<A> {
    let mut v: Vec<A> = terms(p).iter().flat_map(|(m, _)| mono(*m)).collect();
    v.sort_unstable();
    v.dedup();
    v
}
/// all atoms, also nested ones
pub fn deep_atoms(p: P, out: &mut std::collections::BTreeSet<A>) {
    for a in atoms_of(p) { deep_atom(a, out); }
}
pub fn deep_atom(a: A, out: &mut std::collections::BTreeSet<A>) {
    if !out.insert(a) { return; }
    match ad(a) {
        AD::Div(x, y) => { deep_atoms(*x, out); deep_atoms(*y, out) }
        AD::Let(x) | AD::Max0(x) | AD::Ge0(x) | AD::Eq0(x) | AD::FEq0(x) | AD::FLt0(x) | AD::NDvd(x, _) | AD::Load(_, x, _) | AD::Tile(_, x, _) => deep_atoms(*x, out),
        AD::Sum(c, m) => { deep_atoms(*c, out); for b in mono(*m) { deep_atom(b, out) } }
        AD::Fun(_, v, _) => for x in v { deep_atoms(*x, out) },
        _ => {}
    }
}
pub fn mentions(p: P, a: A) -> bool { let mut s = Default::default(); deep_atoms(p, &mut s); s.contains(&a) }

pub fn atom_nonneg(a: A) -> bool {
    match ad(a) {
        AD::Sym { nonneg, .. } => *nonneg,
        AD::LVar(_) | AD::Max0(_) | AD::Let(_) | AD::AddrQ(_) | AD::Bound => true,
        AD::Phi(_, nn) => *nn,
        AD::Div(e, _) => quick_nonneg(*e),
        AD::Fun(n, _, r) => !*r && n.starts_with("u:"),
        _ => is_ind(a),
    }
}
/// syntactic non-negativity
pub fn quick_nonneg(p: P) -> bool {
    let ts = terms(p);
    if ts.iter().all(|(m, c)| *c >= 0 && mono(*m).iter().all(|a| atom_nonneg(*a))) { return true; }
    // e - c*Div(e,c) pattern(s): try to cancel each negative Div term against its argument
    let mut q = p;
    let mut changed = false;
    for (m, c) in &ts {
        if *c < 0 && mono_len(*m) == 1 {
            if let AD::Div(e, d) = ad(mono(*m)[0]) {
                if let Some(dv) = cst(*d) {
                    if (-c) % dv == 0 && quick_nonneg(*e) {
                        // p = s*(e - dv*Div) + rest, s*(..) >= 0
                        let s = -c / dv;
                        q = sub(q, scale(sub(*e, scale(pm(*m), dv)), s));
                        changed = true;
                    }
                }
            }
        }
        if *c > 0 && mono_len(*m) == 1 {
            // s*(d*Div(e,d) - e + d - 1) >= 0
            if let AD::Div(e, d) = ad(mono(*m)[0]) {
                if let Some(dv) = cst(*d) {
                    if c % dv == 0 {
                        let s = c / dv;
                        let neg_e = terms(*e).iter().any(|(em, ec)| ec.signum() > 0 && ts.iter().any(|(tm, tc)| tm == em && *tm != M(0) && *tc == -s * ec));
                        if neg_e { q = sub(q, scale(addk(sub(scale(pm(*m), dv), *e), dv - 1), s)); changed = true; }
                    }
                }
            }
        }
    }
    changed && terms(q).iter().all(|(m, c)| *c >= 0 && mono(*m).iter().all(|a| atom_nonneg(*a)))
}
pub fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }

/// if all atoms of p are indicators (at most 6), list them
fn ind_only(p: P) -> Option<Vec<A>> {
    let v = atoms_of(p);
    if v.len() <= 6 && !v.is_empty() && v.iter().all(|a| is_ind(*a)) { Some(v) } else { None }
}
pub fn eval_ind(p: P, at: &[A], bits: u32) -> i128 {
    let mut s = 0i128;
    for (m, c) in terms(p) {
        if mono(m).iter().all(|a| bits >> at.iter().position(|x| x == a).unwrap() & 1 == 1) { s += c; }
    }
    s
}
/// rebuild a multilinear polynomial from a table over the indicator atoms
fn from_table(at: &[A], f: &dyn Fn(u32) -> i128) -> P {
    let n = at.len();
    let mut t: Vec<i128> = (0..1u32 << n).map(|b| f(b)).collect();
    for i in 0..n {
        for b in 0..1usize << n {
            if b >> i & 1 == 1 { t[b] -= t[b ^ (1 << i)]; }
        }
    }
    let mut r = ZERO;
    for (b, c) in t.iter().enumerate() {
        if *c != 0 {
            let v: Vec<A> = (0..n).filter(|i| b >> i & 1 == 1).map(|i| at[i]).collect();
            let (kk, m) = norm_mono(v);
            r = add(r, scale(pm(m), c * kk));
        }
    }
    r
}
pub fn ind_map(p: P, f: &dyn Fn(i128) -> i128) -> Option<P> {
    let at = ind_only(p)?;
    Some(from_table(&at, &|b| f(eval_ind(p, &at, b))))
}
pub fn ind_map2(p: P, q: P, f: &dyn Fn(i128, i128) -> i128) -> Option<P> {
    let mut at = atoms_of(p);
    at.extend(atoms_of(q));
    at.sort_unstable();
    at.dedup();
    if at.is_empty() || at.len() > 6 || !at.iter().all(|a| is_ind(*a)) { return None; }
    Some(from_table(&at, &|b| f(eval_ind(p, &at, b), eval_ind(q, &at, b))))
}
fn lead_sign(p: P) -> i128 { for (m, c) in terms(p) { if m != M(0) { return c.signum(); } } 0 }
fn fdiv(a: i128, b: i128) -> i128 { a.div_euclid(b) }
fn content(p: P) -> i128 { let mut g = 0; for (m, c) in terms(p) { if m != M(0) { g = gcd(g, c); } } g }
/// split an indicator-dependent poly: if p mentions exactly a few indicators plus others, expand
fn split_ind(p: P, f: &dyn Fn(P) -> P) -> Option<P> {
    let inds: Vec<A> = atoms_of(p).into_iter().filter(|a| is_ind(*a)).collect();
    if inds.is_empty() || inds.len() > 3 { return None; }
    let i = inds[0];
    let p1 = subst1(p, i, one());
    let p0 = subst1(p, i, ZERO);
    let g = pa(i);
    Some(add(mul(g, f(p1)), mul(not(g), f(p0))))
}
/// p as a piecewise linear function of one integer l: c + s*l + sum d*max0(l - b)
fn pwl(p: P) -> Option<(P, i128, i128, Vec<(i128, i128)>)> {
    let (mut l, mut c, mut s, mut h) = (ZERO, 0i128, 0i128, std::collections::BTreeMap::new());
    let mut rest = p;
    for (m, x) in terms(p) {
        if mono_len(m) != 1 { continue; }
        let AD::Max0(e) = ad(mono(m)[0]) else { continue };
        let (e, b) = (addk(*e, -const_part(*e)), const_part(*e));
        if l == ZERO { l = if lead_sign(e) < 0 { neg(e) } else { e }; }
        rest = sub(rest, scale(pm(m), x));
        // max0(-l + b) = max0(l - b) - l + b
        if e == l { *h.entry(-b).or_insert(0) += x; } else if e == neg(l) { *h.entry(b).or_insert(0) += x; s -= x; c += x * b; } else { return None; }
    }
    if l == ZERO || atoms_of(l).iter().any(|a| matches!(ad(*a), AD::Max0(_)) || is_ind(*a)) { return None; }
    c += const_part(rest);
    rest = addk(rest, -const_part(rest));
    if rest != ZERO {
        let (lm, lc) = terms(l)[0];
        let q = terms(rest).into_iter().find(|(m, _)| *m == lm)?.1;
        if q % lc != 0 || rest != scale(l, q / lc) { return None; }
        s += q / lc;
    }
    h.retain(|_, d| *d != 0);
    if h.len() > 6 || h.keys().any(|b| b.abs() > 1 << 60) || c.abs() > 1 << 60 { return None; }
    Some((l, c, s, h.into_iter().collect()))
}
/// the integers l where c + s*l + sum d*max0(l - b) >= 0, as maximal intervals
fn pwl_nonneg(c: i128, s: i128, h: &[(i128, i128)]) -> Vec<(Option<i128>, Option<i128>)> {
    let at = |x: i128| c + s * x + h.iter().map(|(b, d)| d * (x - b).max(0)).sum::<i128>();
    let mut out: Vec<(Option<i128>, Option<i128>)> = vec![];
    let mut slope = s;
    for i in 0..=h.len() {
        if i > 0 { slope += h[i - 1].1; }
        let (lo, hi) = (if i > 0 { Some(h[i - 1].0) } else { None }, h.get(i).map(|x| x.0));
        let x0 = lo.or(hi).unwrap_or(0);
        let v = at(x0);
        // v + slope*(x - x0) >= 0
        let (mut a, mut b) = (lo, hi);
        if slope == 0 { if v < 0 { continue; } }
        else if slope > 0 { let t = x0 + (-v).div_euclid(slope) + ((-v).rem_euclid(slope) != 0) as i128; a = Some(a.map_or(t, |y| y.max(t))); }
        else { let t = x0 + v.div_euclid(-slope); b = Some(b.map_or(t, |y| y.min(t))); }
        if let (Some(x), Some(y)) = (a, b) { if x > y { continue; } }
        match out.last_mut() { Some(q) if q.1.map_or(true, |y| a.map_or(true, |x| x <= y + 1)) => { q.1 = match (q.1, b) { (Some(y), Some(z)) => Some(y.max(z)), _ => None }; } _ => out.push((a, b)) }
    }
    out
}
fn pwl_ge0(p: P) -> Option<P> {
    let (l, c, s, h) = pwl(p)?;
    let iv = pwl_nonneg(c, s, &h);
    let one_iv = |(a, b): (Option<i128>, Option<i128>)| mul(a.map_or(one(), |x| ge0(addk(l, -x))), b.map_or(one(), |y| ge0(sub(k(y), l))));
    match iv.len() {
        0 => Some(ZERO),
        1 => Some(one_iv(iv[0])),
        2 if iv[0].0.is_none() && iv[1].1.is_none() => Some(not(one_iv((iv[0].1.map(|x| x + 1), iv[1].0.map(|x| x - 1))))),
        _ => None,
    }
}
/// max0 of a piecewise linear function of one integer as a sum of hinges, if its zeros are integers
fn pwl_max0(p: P) -> Option<P> {
    let (l, c, s, h) = pwl(p)?;
    let at = |x: i128| c + s * x + h.iter().map(|(b, d)| d * (x - b).max(0)).sum::<i128>();
    let mut pts: Vec<i128> = h.iter().map(|x| x.0).collect();
    for (a, b) in pwl_nonneg(c, s, &h) { for x in [a, b].into_iter().flatten() { if at(x) == 0 { pts.push(x); } else if !pts.contains(&x) { return None; } } }
    pts.sort(); pts.dedup();
    let f = |x: i128| at(x).max(0);
    if pts.is_empty() { return None; }
    // between neighbouring points the function has one sign
    let (x0, x1) = (pts[0], *pts.last().unwrap());
    let s0 = f(x0) - f(x0 - 1);
    if f(x0 - 1) - f(x0 - 2) != s0 { return None; }
    let mut r = add(k(f(x0) - s0 * x0), scale(l, s0));
    let mut prev = s0;
    for (i, x) in pts.iter().enumerate() {
        let sl = match pts.get(i + 1) { Some(y) => { let dy = f(*y) - f(*x); if dy % (y - x) != 0 { return None; } dy / (y - x) } None => f(x1 + 1) - f(x1) };
        if f(x + 1) - f(*x) != sl { return None; }
        if sl != prev { r = add(r, scale(hinge(addk(l, -x)), sl - prev)); }
        prev = sl;
    }
    if f(x1 + 2) - f(x1 + 1) != prev { return None; }
    Some(r)
}
fn hinge(p: P) -> P { if quick_nonneg(p) { p } else if quick_nonneg(neg(p)) { ZERO } else if lead_sign(p) < 0 { add(pat(AD::Max0(neg(p))), p) } else { pat(AD::Max0(p)) } }
/// indicator of p >= 0 (integers)
pub fn ge0(p: P) -> P {
    if let Some(c) = cst(p) { return k((c >= 0) as i128); }
    let g = content(p);
    let mut p = p;
    if g > 1 {
        let c = const_part(p);
        let rest = sub(p, k(c));
        p = add(poly_of(terms(rest).into_iter().map(|(m, x)| (m, x / g)).collect()), k(fdiv(c, g)));
    }
    if let Some(r) = ind_map(p, &|v| (v >= 0) as i128) { return r; }
    if quick_nonneg(p) { return one(); }
    if quick_nonneg(addk(neg(p), -1)) { return ZERO; }
    if let Some(r) = split_ind(p, &ge0) { return r; }
    if let Some(r) = pwl_ge0(p) { return r; }
    let ts = terms(p);
    // single Max0 / Div rules
    for (m, c) in &ts {
        if mono_len(*m) != 1 { continue; }
        let a = mono(*m)[0];
        let rest = sub(p, scale(pm(*m), *c));
        match ad(a) {
            AD::Max0(e) => {
                if let Some(c0) = cst(rest) {
                    if *c == 1 { return if c0 >= 0 { one() } else { ge0(addk(*e, c0)) }; }
                    if *c == -1 { return if c0 < 0 { ZERO } else { ge0(sub(k(c0), *e)) }; }
                }
                // x*max0(e) + rest, rest independent: keep
            }
            AD::Div(e, d) => {
                if let Some(d) = cst(*d) {
                    if !mentions(rest, a) {
                        if *c == 1 { return ge0(add(*e, scale(rest, d))); }
                        if *c == -1 { return ge0(add(sub(scale(rest, d), *e), k(d - 1))); }
                    }
                    // e - d*Div(e,d) - 1 >= 0
                    if *c == -d && rest == addk(*e, -1) { return pat(AD::NDvd(*e, d)); }
                    if *c == d && rest == neg(*e) { return not(pat(AD::NDvd(*e, d))); }
                }
            }
            _ => {}
        }
    }
    if lead_sign(p) < 0 { return not(pat(AD::Ge0(addk(neg(p), -1)))); }
    pat(AD::Ge0(p))
}
pub fn eq0(p: P) -> P {
    if let Some(c) = cst(p) { return k((c == 0) as i128); }
    let g = content(p);
    let mut p = p;
    if g > 1 {
        let c = const_part(p);
        if c % g != 0 { return ZERO; }
        p = poly_of(terms(p).into_iter().map(|(m, x)| (m, x / g)).collect());
    }
    if let Some(r) = ind_map(p, &|v| (v == 0) as i128) { return r; }
    if quick_nonneg(p) { return not(ge0(addk(p, -1))); }
    if quick_nonneg(neg(p)) { return not(ge0(addk(neg(p), -1))); }
    if let Some(r) = split_ind(p, &eq0) { return r; }
    if pwl(p).is_some() { if let (Some(a), Some(b)) = (pwl_ge0(p), pwl_ge0(neg(p))) { return mul(a, b); } }
    if lead_sign(p) < 0 { p = neg(p); }
    // bounded symbol equalities
    pat(AD::Eq0(p))
}
pub fn feq0(p: P) -> P {
    if let Some(c) = cst(p) { return k((c == 0) as i128); }
    let p = if lead_sign(p) < 0 { neg(p) } else { p };
    pat(AD::FEq0(p))
}
pub fn max0(p: P) -> P {
    if let Some(c) = cst(p) { return k(c.max(0)); }
    if let Some(r) = ind_map(p, &|v| v.max(0)) { return r; }
    if quick_nonneg(p) { return p; }
    if quick_nonneg(neg(p)) { return ZERO; }
    if let Some(r) = split_ind(p, &max0) { return r; }
    let g = gcd(content(p), const_part(p));
    if g > 1 { return scale(max0(poly_of(terms(p).into_iter().map(|(m, x)| (m, x / g)).collect())), g); }
    if atoms_of(p).iter().any(|a| matches!(ad(*a), AD::Max0(_))) { if let Some(r) = pwl_max0(p) { return r; } }
    // max0(max0(e) - c), c >= 0  =  max0(e - c)
    let ts = terms(p);
    for (m, c) in &ts {
        if *c == 1 && mono_len(*m) == 1 {
            if let AD::Max0(e) = ad(mono(*m)[0]) {
                let rest = sub(p, pm(*m));
                if quick_nonneg(neg(rest)) { return max0(add(*e, rest)); }
                // max0(e) = max0(-e) + e
                if quick_nonneg(neg(add(*e, rest))) { return max0(rest); }
            }
        }
    }
    if lead_sign(p) < 0 { return add(pat(AD::Max0(neg(p))), p); }
    pat(AD::Max0(p))
}
/// abbreviate a non-negative integer expression that would otherwise multiply out
pub fn let_(p: P) -> P {
    let t = terms(p);
    if t.len() < 2 || t.iter().all(|(m, _)| mono(*m).iter().all(|a| is_ind(*a))) || !t.iter().any(|(m, _)| mono(*m).iter().any(|a| is_ind(*a) || matches!(ad(*a), AD::Max0(_) | AD::Div(..)))) { return p; }
    if t.len() == 2 && t[0].0 == M(0) && t[1].1 == -1 && mono_len(t[1].0) == 1 && is_ind(mono(t[1].0)[0]) { return p; }
    pat(AD::Let(p))
}
/// unfold only the abbreviations that mention one of `vars`
pub fn unlet_for(p: P, vars: &dyn Fn(A) -> bool) -> P {
    let mut s = std::collections::BTreeSet::new();
    deep_atoms(p, &mut s);
    let mut hm = HashMap::new();
    for a in s { if let AD::Let(x) = ad(a) {
        let mut d = std::collections::BTreeSet::new();
        deep_atoms(*x, &mut d);
        if d.iter().any(|v| vars(*v)) { let x = unlet_for(*x, vars); hm.insert(a, x); }
    } }
    subst(p, &hm)
}
pub fn unlet(p: P) -> P {
    let mut s = std::collections::BTreeSet::new();
    deep_atoms(p, &mut s);
    let mut hm = HashMap::new();
    for a in s { if let AD::Let(x) = ad(a) { let x = unlet(*x); hm.insert(a, x); } }
    subst(p, &hm)
}
pub fn pmin(a: P, b: P) -> P { sub(a, max0(sub(a, b))) }
pub fn pmax(a: P, b: P) -> P { add(b, max0(sub(a, b))) }
pub fn div(e: P, d: P) -> P {
    // a total function: the quotient by anything below 1 is 0 (such a division is never executed)
    if let Some(dv) = cst(d) { return if dv > 0 { divk(e, dv) } else { ZERO }; }
    if e == ZERO { return ZERO; }
    if let Some(r) = ind_map2(e, d, &|a, b| if b > 0 { fdiv(a, b) } else { 0 }) { return r; }
    if let Some(r) = split_ind(d, &|dd| div(e, dd)) { return r; }
    if e == d { return one(); }
    // exact multiple
    if nterms(d) == 1 {
        let (dm, dc) = terms(d)[0];
        if dc == 1 {
            let da = mono(dm);
            let (mut q, mut rest) = (ZERO, ZERO);
            for (m, c) in terms(e) {
                let mut v = mono(m);
                let mut ok = true;
                for x in &da { if let Some(i) = v.iter().position(|y| y == x) { v.remove(i); } else { ok = false; break; } }
                if ok { q = add(q, scale(pm(mono_of(v)), c)); } else { rest = add(rest, scale(pm(m), c)); }
            }
            if rest == ZERO { return q; }
            if q != ZERO { return add(q, pat(AD::Div(rest, d))); }
        }
    }
    pat(AD::Div(e, d))
}
pub fn divk(e: P, d: i128) -> P {
    if d == 1 { return e; }
    if let Some(r) = ind_map(e, &|v| fdiv(v, d)) { return r; }
    let (mut q, mut r) = (vec![], vec![]);
    for (m, c) in terms(e) {
        if m == M(0) { q.push((m, fdiv(c, d))); r.push((m, c.rem_euclid(d))); }
        else if c % d == 0 { q.push((m, c / d)); }
        else { r.push((m, c)); }
    }
    let (q, r) = (poly_of(q), poly_of(r));
    if let Some(_) = cst(r) { return q; }
    // merge Div(x,c)+NDvd(x,c) back into ceil for nested division
    let ts = terms(r);
    for (m, c) in &ts {
        if *c == 1 && mono_len(*m) == 1 {
            if let AD::Div(x, c1) = ad(mono(*m)[0]) {
                if let Some(c1v) = cst(*c1) {
                    let nd = pat(AD::NDvd(*x, c1v));
                    let rest = sub(r, pm(*m));
                    if cst(rest).is_some() { return add(q, divk(add(*x, scale(rest, c1v)), c1v * d)); }
                    let rest2 = sub(rest, nd);
                    if cst(rest2).is_some() { return add(q, divk(add(add(*x, k(c1v - 1)), scale(rest2, c1v)), c1v * d)); }
                }
            }
        }
    }
    if let Some(z) = split_ind(r, &|x| divk(x, d)) { return add(q, z); }
    let g = gcd(content(r), d);
    if g > 1 {
        let c = const_part(r);
        let rest = sub(r, k(c));
        let rr = add(poly_of(terms(rest).into_iter().map(|(m, x)| (m, x / g)).collect()), k(fdiv(c, g)));
        return add(q, divk(rr, d / g));
    }
    let c0 = const_part(r);
    if c0 == d - 1 && d > 1 {
        let e0 = sub(r, k(c0));
        return add(q, add(pat(AD::Div(e0, k(d))), pat(AD::NDvd(e0, d))));
    }
    add(q, pat(AD::Div(r, k(d))))
}
pub fn pmod(e: P, d: P) -> P { sub(e, mul(d, div(e, d))) }
pub fn bound_atom() -> A { atom(AD::Bound) }
pub fn sum(count: P, body: P) -> P {
    let b = atom(AD::Bound);
    let mut r = ZERO;
    for (m, c) in terms(body) {
        // factor out what does not depend on the bound variable
        let (mut ins, mut outs) = (vec![], vec![]);
        for x in mono(m) {
            let mut s = Default::default();
            deep_atom(x, &mut s);
            if s.contains(&b) { ins.push(x) } else { outs.push(x) }
        }
        let o = pm(mono_of(outs));
        let i = if ins.is_empty() { count } else if count == ZERO { ZERO } else { pat(AD::Sum(count, mono_of(ins))) };
        r = add(r, scale(mul(o, i), c));
    }
    r
}
pub fn subst1(p: P, a: A, v: P) -> P { let mut h = HashMap::new(); h.insert(a, v); subst(p, &h) }
pub fn subst(p: P, map: &HashMap<A, P>) -> P {
    if map.is_empty() { return p; }
    let mut memo = HashMap::new();
    subst_in(p, map, &mut memo)
}
fn subst_in(p: P, map: &HashMap<A, P>, memo: &mut HashMap<P, P>) -> P {
    if cst(p).is_some() { return p; }
    if let Some(r) = memo.get(&p) { return *r; }
    let mut parts: Vec<P> = vec![];
    let mut same: Vec<(M, i128)> = vec![];
    for (m, c) in terms(p) {
        let mm = mono(m);
        let mut changed = false;
        let mut acc = k(c);
        let mut keep = vec![];
        for a in mm {
            let v = subst_atom(a, map, memo);
            match v { None => keep.push(a), Some(v) => { changed = true; acc = mul(acc, v); } }
        }
        if !changed { same.push((m, c)); } else { parts.push(mul(acc, { let (kk, m) = norm_mono(keep); scale(pm(m), kk) })); }
    }
    let mut v = same;
    for q in parts { v.extend(terms(q)); }
    let r = poly_of(v);
    memo.insert(p, r);
    r
}
fn subst_atom(a: A, map: &HashMap<A, P>, memo: &mut HashMap<P, P>) -> Option<P> {
    if let Some(v) = map.get(&a) { return Some(*v); }
    let r = match ad(a).clone() {
        AD::Sym { .. } | AD::Phi(..) | AD::LVar(_) | AD::BSym(_) | AD::Bound | AD::AddrQ(_) => return None,
        AD::Div(x, y) => { let (u, v) = (subst_in(x, map, memo), subst_in(y, map, memo)); if (u, v) == (x, y) { return None; } div(u, v) }
        AD::Max0(x) => { let u = subst_in(x, map, memo); if u == x { return None; } max0(u) }
        AD::Let(x) => { let u = subst_in(x, map, memo); if u == x { return None; } let_(u) }
        AD::Ge0(x) => { let u = subst_in(x, map, memo); if u == x { return None; } ge0(u) }
        AD::Eq0(x) => { let u = subst_in(x, map, memo); if u == x { return None; } eq0(u) }
        AD::FEq0(x) => { let u = subst_in(x, map, memo); if u == x { return None; } feq0(u) }
        AD::FLt0(x) => { let u = subst_in(x, map, memo); if u == x { return None; } pat(AD::FLt0(u)) }
        AD::NDvd(x, c) => { let u = subst_in(x, map, memo); if u == x { return None; } ndvd(u, c) }
        AD::Load(b, x, s) => { let u = subst_in(x, map, memo); if u == x { return None; } pat(AD::Load(b, u, s)) }
        AD::Tile(b, x, s) => { let u = subst_in(x, map, memo); if u == x { return None; } pat(AD::Tile(b, u, s)) }
        AD::Sum(c, m) => {
            let u = subst_in(c, map, memo);
            let body = pm(m);
            let b2 = if map.contains_key(&atom(AD::Bound)) { body } else { subst_in(body, map, memo) };
            if u == c && b2 == body { return None; }
            sum(u, b2)
        }
        AD::Fun(n, v, r) => { let w: Vec<P> = v.iter().map(|x| subst_in(*x, map, memo)).collect(); if w == v { return None; } refun(&n, w, r) }
    };
    Some(r)
}
fn refun(n: &str, w: Vec<P>, r: bool) -> P { fun(n, w, r) }
pub fn ndvd(u: P, c: i128) -> P { let m = sub(u, scale(divk(u, c), c)); not(eq0(m)) }
/// Sum(c + k, m) with constant k >= 1 written as Sum(c, m) + m[c] + ... (c must be non-negative)
pub fn peel_sums(p: P) -> P {
    let mut hm = HashMap::new();
    for a in atoms_of(p) {
        if let AD::Sum(c, m) = ad(a) {
            let c0 = const_part(*c);
            if c0 >= 1 && c0 <= 8 && quick_nonneg(addk(*c, -c0)) {
                let base = addk(*c, -c0);
                let mut r = if base == ZERO { ZERO } else { pat(AD::Sum(base, *m)) };
                for i in 0..c0 { r = add(r, inst_body(*m, addk(base, i))); }
                hm.insert(a, r);
            }
        }
    }
    subst(p, &hm)
}
/// replace the bound variable in a Sum body
pub fn inst_body(m: M, v: P) -> P { let mut h = HashMap::new(); h.insert(atom(AD::Bound), v); subst(pm(m), &h) }

/// coefficient polynomial of atom `a` (degree 1) : p = coef*a + rest
pub fn linear_in(p: P, a: A) -> Option<(P, P)> {
    let (mut c0, mut r) = (ZERO, ZERO);
    for (m, c) in terms(p) {
        let mut v = mono(m);
        let n = v.iter().filter(|x| **x == a).count();
        if n == 0 {
            for x in &v { let mut s = Default::default(); deep_atom(*x, &mut s); if s.contains(&a) { return None; } }
            r = add(r, scale(pm(m), c));
        } else if n == 1 {
            let i = v.iter().position(|x| *x == a).unwrap();
            v.remove(i);
            for x in &v { let mut s = Default::default(); deep_atom(*x, &mut s); if s.contains(&a) { return None; } }
            c0 = add(c0, scale(pm(mono_of(v)), c));
        } else { return None; }
    }
    Some((c0, r))
}

pub fn show(p: P) -> String {
    let t = terms(p);
    if t.is_empty() { return "0".into(); }
    let mut s = String::new();
    for (i, (m, c)) in t.iter().enumerate() {
        if i >= 40 { s += " + ..."; break; }
        let mm = mono(*m);
        if i > 0 { s += if *c < 0 { " - " } else { " + " } } else if *c < 0 { s += "-" }
        let ac = c.abs();
        if mm.is_empty() || ac != 1 { s += &ac.to_string(); if !mm.is_empty() { s += "*"; } }
        s += &mm.iter().map(|a| show_atom(*a)).collect::<Vec<_>>().join("*");
    }
    s
}
pub fn base_name(b: u32) -> String { BN.with(|n| n.borrow().get(&b).cloned().unwrap_or(format!("mem{}", b))) }
thread_local! { pub static BN: std::cell::RefCell<HashMap<u32, String>> = Default::default(); }
pub fn show_atom(a: A) -> String {
    match ad(a) {
        AD::Sym { name, .. } => name.clone(),
        AD::Phi(i, _) => format!("phi{}", i),
        AD::LVar(i) => format!("i{}", i),
        AD::Div(x, y) => format!("floor(({})/{})", show(*x), show(*y)),
        AD::Let(x) => format!("<{}>", show(*x)),
        AD::Max0(x) => format!("max0({})", show(*x)),
        AD::Ge0(x) => format!("[{} >= 0]", show(*x)),
        AD::Eq0(x) => format!("[{} == 0]", show(*x)),
        AD::FEq0(x) => format!("[{} == 0.]", show(*x)),
        AD::FLt0(x) => format!("[{} < 0.]", show(*x)),
        AD::NDvd(x, c) => format!("[{} mod {} != 0]", show(*x), c),
        AD::BSym(n) => format!("[{}]", n),
        AD::Load(b, o, _) => format!("{}[{}]", base_name(*b), show(*o)),
        AD::Tile(b, o, _) => format!("tile{}[{}]", b, show(*o)),
        AD::Sum(c, m) => format!("SUM(s<{}: {})", show(*c), show(pm(*m))),
        AD::Bound => "s".into(),
        AD::AddrQ(b) => format!("addrq({})", base_name(*b)),
        AD::Fun(n, v, _) => format!("{}({})", n, v.iter().map(|x| show(*x)).collect::<Vec<_>>().join(", ")),
    }
}

fn overflowed() { if !cx().overflow && std::env::var("MMSA_DBG").is_ok() { eprintln!("OVERFLOW {}", std::backtrace::Backtrace::force_capture()); } cx().overflow = true; }
