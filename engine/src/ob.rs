//! Proof obligations: each is a formula about the analysed program, proved by entailment, refuted
//! by a valuation of the program's inputs that satisfies every path condition, or left open.
use crate::expr::*;
use crate::interp::*;
use crate::prove::Facts;
use crate::state::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Proved, Refuted, Open }
pub struct Ob { pub props: Vec<String>, pub rule: String, pub at: String, pub span: String, pub st: St, pub what: String, pub detail: String }

/// candidate input values for refutation
#[derive(Clone, Default)]
pub struct Hints { pub sizes: Vec<i128>, pub fixed: HashMap<A, i128>, pub pre: Vec<P> }
impl Hints {
    pub fn new(consts: &[i128]) -> Hints {
        let mut v: Vec<i128> = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 24, 31, 32, 33, 64, 65, 96, 100, 128, 129, 200, 500];
        for c in consts { if *c > 0 { for x in [c - 1, *c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, c / 2, c / 2 + 1, 3 * c + 1, 3 * c / 2] { if x > 0 { v.push(x); } } } }
        v.sort();
        v.dedup();
        Hints { sizes: v, fixed: HashMap::new(), pre: vec![] }
    }
}
pub struct Env<'h> { pub h: &'h Hints, pub vals: HashMap<A, i128>, memo: HashMap<A, Option<i128>>, rng: u64, pub late: bool }
impl<'h> Env<'h> {
    pub fn new(h: &'h Hints, seed: u64) -> Env<'h> { Env { h, vals: h.fixed.clone(), memo: HashMap::new(), rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, late: false } }
    pub fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng >> 3 }
    pub fn pick(&mut self, v: &[i128]) -> i128 { let r = self.rnd() as usize; v[r % v.len()] }
    pub fn set(&mut self, a: A, v: i128) { self.vals.insert(a, v); self.memo.clear(); }
    pub fn atom(&mut self, a: A) -> Option<i128> {
        if let Some(v) = self.vals.get(&a) { return Some(*v); }
        if let Some(v) = self.memo.get(&a) { return *v; }
        let r = self.atom_(a);
        if !self.vals.contains_key(&a) { self.memo.insert(a, r); }
        r
    }
    fn atom_(&mut self, a: A) -> Option<i128> {
        let v = match ad(a) {
            AD::Max0(e) => return Some(self.ev(*e)?.max(0)),
            AD::Let(e) => return self.ev(*e),
            AD::Div(x, y) => { let (x, y) = (self.ev(*x)?, self.ev(*y)?); return Some(if y <= 0 { 0 } else { x.div_euclid(y) }); }
            AD::Ge0(e) => return Some((self.ev(*e)? >= 0) as i128),
            AD::Eq0(e) => return Some((self.ev(*e)? == 0) as i128),
            AD::FEq0(e) => return Some((self.ev(*e)? == 0) as i128),
            AD::FLt0(e) => return Some((self.ev(*e)? < 0) as i128),
            AD::NDvd(e, c) => return Some((self.ev(*e)?.rem_euclid(*c) != 0) as i128),
            AD::Sym { nonneg, real, lo, hi, name } => {
                let mut v = if *real { self.pick(&[0, 0, 1, 2, 3]) }
                    else if *nonneg { let s = self.h.sizes.clone(); let s2 = if self.rnd() % 4 == 0 { s } else { let n = (s.len() + 1) / 2; if self.rnd() % 2 == 0 { s[..n].to_vec() } else { s } }; if self.rnd() % 40 == 0 { 0 } else { self.pick(&s2) } }
                    else if name.starts_with("rs") || name.starts_with("cs") { self.pick(&[1, 1, 2, 7, 4000, 5000, -3]) }
                    else { self.pick(&[1, 2, 5, -3, 17]) };
                if let Some(l) = lo { v = v.max(*l as i128) }
                if let Some(u) = hi { v = v.min(*u as i128) }
                v
            }
            AD::AddrQ(_) => 1 + (self.rnd() % 64) as i128,
            AD::BSym(n) if n.starts_with("alloc_ok") => 1,
            AD::BSym(n) if n.starts_with("env_set:") || n.starts_with("parses") || n.starts_with("no_parallelism") => (self.rnd() % 2) as i128,
            _ => return None,
        };
        self.vals.insert(a, v);
        Some(v)
    }
    pub fn ev(&mut self, p: P) -> Option<i128> {
        let mut s = 0i128;
        for (m, c) in terms(p) {
            let mut t = c;
            for a in mono(m) { if t == 0 { break; } t = t.checked_mul(self.atom(a)?)?; }
            s = s.checked_add(t)?;
        }
        Some(s)
    }
    pub fn show(&self) -> String {
        let mut v: Vec<String> = self.vals.iter().filter(|(a, _)| !matches!(ad(**a), AD::AddrQ(_) | AD::BSym(_))).map(|(a, v)| format!("{}={}", show_atom(*a), v)).collect();
        v.sort();
        v.join(" ")
    }
}
impl<'h> Env<'h> {
    fn settable(&self, a: A) -> bool { matches!(ad(a), AD::Sym { .. } | AD::AddrQ(_) | AD::LVar(..)) || matches!(ad(a), AD::Load(..)) && self.vals.contains_key(&a) }
    fn allowed(&self, a: A, v: i128) -> bool { match ad(a) { AD::Sym { nonneg, lo, hi, .. } => (!*nonneg || v >= 0) && lo.map_or(true, |l| v >= l as i128) && hi.map_or(true, |u| v <= u as i128), AD::AddrQ(_) => v >= 1, _ => v >= 0 } }
    /// change one input so that the integer expression `q` satisfies `ok`
    fn steer(&mut self, q: P, kind: u8, want: bool) -> bool {
        let mut s = std::collections::BTreeSet::new();
        deep_atoms(q, &mut s);
        let mut xs: Vec<A> = s.into_iter().filter(|a| self.settable(*a)).collect();
        if xs.is_empty() { return false; }
        let r = self.rnd() as usize % xs.len();
        xs.rotate_left(r);
        // loop counters last
        if self.late { xs.sort_by_key(|a| matches!(ad(*a), AD::LVar(..))); }
        let Some(v) = self.ev(q) else { return false };
        let ok = |v: i128| (match kind { 0 => v >= 0, 1 => v == 0, _ => v < 0 }) == want;
        for x in xs {
            let Some(x0) = self.vals.get(&x).cloned() else { continue };
            let mut cand: Vec<i128> = vec![];
            for h in [1i128, 16, 256] {
                self.set(x, x0 + h);
                if let Some(v1) = self.ev(q) { let d = v1 - v; if d != 0 { let t = (-v * h).div_euclid(d); for e in [0, 1, -1, 2] { cand.push(x0 + t + e); } } }
            }
            for e in [1, -1, 2, 3, 5] { cand.push(x0 + e); }
            cand.extend([0, 1, 2, -1]);
            for c in cand { if !self.allowed(x, c) { continue; } self.set(x, c); if self.ev(q).map_or(false, ok) { return true; } }
            self.set(x, x0);
        }
        false
    }
    /// change inputs so that a boolean expression takes the wanted value
    pub fn aim(&mut self, p: P, want: bool, depth: u32) -> bool {
        if depth > 6 { return false; }
        if self.ev(p).map_or(false, |x| (x != 0) == want) { return true; }
        let t = terms(p);
        let at = |m: M| mono(m);
        if t.len() == 1 && t[0].1 == 1 {
            let a = at(t[0].0);
            if a.len() == 1 { return self.aim_atom(a[0], want, depth); }
            if want { for x in &a { self.aim_atom(*x, true, depth); } return self.ev(p).map_or(false, |x| x != 0); }
            let r = self.rnd() as usize % a.len();
            return self.aim_atom(a[r], false, depth);
        }
        // 1 - q
        if t.len() == 2 && t[0] == (M(0), 1) && t[1].1 == -1 { return self.aim(pm(t[1].0), !want, depth + 1); }
        // otherwise: flip one of the indicators it is built from
        let a: Vec<A> = atoms_of(p).into_iter().filter(|a| is_ind(*a)).collect();
        for _ in 0..4 { if a.is_empty() { return false; } let x = a[self.rnd() as usize % a.len()]; let w = self.rnd() % 2 == 0; self.aim_atom(x, w, depth); if self.ev(p).map_or(false, |x| (x != 0) == want) { return true; } }
        false
    }
    pub fn aim_atom(&mut self, a: A, want: bool, depth: u32) -> bool {
        match ad(a) {
            AD::Ge0(q) => self.steer(*q, 0, want),
            AD::Eq0(q) | AD::FEq0(q) => self.steer(*q, 1, want),
            AD::FLt0(q) => self.steer(*q, 2, want),
            AD::NDvd(q, c) => { let q = pmod(*q, k(*c)); self.steer(q, 1, !want) }
            AD::Let(q) => self.aim(*q, want, depth + 1),
            _ => false,
        }
    }
    /// satisfy all conditions, each a boolean expression
    pub fn repair(&mut self, conds: &[P]) -> bool {
        for _ in 0..10 {
            let mut all = true;
            for c in conds { if !self.ev(*c).map_or(false, |x| x != 0) { all = false; self.aim(*c, true, 0); } }
            if all { return true; }
        }
        conds.iter().all(|c| self.ev(*c).map_or(false, |x| x != 0))
    }
}
/// an input valuation under which control reaches this point and `bad` holds
pub fn witness<'h>(h: &'h Hints, ctx: &[LoopCtx], conds: &[P], assum: &[P], tries: u32, bad: &mut dyn FnMut(&mut Env) -> Option<bool>) -> Option<Env<'h>> {
    let mut ok = 0;
    for seed in 1..=tries as u64 {
        let mut e = Env::new(h, seed * 7919 + 13);
        // sizes first, so that loop bounds depend on them only
        let mut good = true;
        for c in ctx {
            let Some(n) = e.ev(c.count) else { good = false; break };
            if n <= 0 { good = false; break; }
            let r = e.rnd() % 8;
            let t = match r { 0..=2 => 0, 3 => 1, 4 | 5 => n - 1, 6 => n - 2, _ => (e.rnd() % n as u64) as i128 }.clamp(0, n - 1);
            e.set(c.lvar, t);
        }
        if !good { continue; }
        for c in conds { match e.ev(*c) { Some(x) if x != 0 => {} Some(_) => { good = false; break } None => { good = false; break } } }
        if !good { continue; }
        for a in assum.iter().chain(h.pre.iter()) { match e.ev(*a) { Some(x) if x >= 0 => {} _ => { good = false; break } } }
        if !good { continue; }
        ok += 1;
        if bad(&mut e) == Some(true) { return Some(e); }
        if ok > 400 { break; }
    }
    None
}
pub fn root_of(p: &Path) -> Path { let mut p = p.clone(); while let Some(q) = p.parent.clone() { p = q; } p }
pub fn conds_of(e: &Event) -> Vec<P> { suffix(&e.path, &root_of(&e.path)) }
pub fn span_of(e: &Event) -> String { e.span.map_or(String::new(), |s| { let d = s.diagnostic(); let v: Vec<&str> = d.splitn(2, ": ").collect(); v[0].to_string() }) }
/// the innermost crate function on the call stack
pub fn func_of(e: &Event) -> String { e.stack.iter().rev().find(|n| !n.starts_with("std::") && !n.starts_with("core::") && !n.starts_with("<") && !n.starts_with("alloc::")).cloned().unwrap_or_else(|| e.func.clone()) }

#[derive(Default)]
pub struct Rep { pub job: String, pub obs: Vec<Ob>, pub notes: BTreeMap<String, u32>, pub stats: BTreeMap<String, i128>, pub facts: BTreeMap<String, String>, pub hints: Hints, pub agg: HashMap<(String, String), usize>, pub key: String, pub incomplete: bool }
impl Rep {
    pub fn push(&mut self, props: &[&str], rule: &str, at: &str, span: &str, st: St, what: String, detail: String) {
        self.obs.push(Ob { props: props.iter().map(|s| s.to_string()).collect(), rule: rule.into(), at: at.into(), span: span.into(), st, what, detail });
    }
    pub fn ev(&mut self, props: &[&str], rule: &str, e: &Event, st: St, what: String, detail: String) { let (f, s) = (func_of(e), span_of(e)); self.push(props, rule, &f, &s, st, what, detail); }
    /// obligation: goal >= 0 whenever `e` executes (with the extra assumptions, each >= 0)
    pub fn ge(&mut self, props: &[&str], rule: &str, e: &Event, f: &Facts, assum: &[P], goal: P, what: &str) -> St {
        let mut f2;
        let fr = if assum.is_empty() { f } else { f2 = f.clone(); for a in assum { f2.add_ge(*a); } &f2 };
        let mut st = if prove_cases(fr, goal, &e.ctx, 5) { St::Proved } else { St::Open };
        let mut detail = String::new();
        if st == St::Open {
            let cs = conds_of(e);
            let h = self.hints.clone();
            if let Some(w) = witness(&h, &e.ctx, &cs, assum, 6000, &mut |v| v.ev(goal).map(|x| x < 0)) { st = St::Refuted; detail = w.show(); } else { detail = format!("goal {} >= 0", short(goal)); }
        }
        self.ev(props, rule, e, st, what.into(), detail);
        st
    }
    pub fn eq(&mut self, props: &[&str], rule: &str, e: &Event, f: &Facts, assum: &[P], goal: P, what: &str) -> St {
        let mut f2;
        let fr = if assum.is_empty() { f } else { f2 = f.clone(); for a in assum { f2.add_ge(*a); } &f2 };
        let mut st = if fr.dead || fr.eq(goal) || fr.eq(unlet(goal)) || prove_cases(fr, goal, &e.ctx, 4) && prove_cases(fr, neg(goal), &e.ctx, 4) { St::Proved } else { St::Open };
        let mut detail = String::new();
        if st == St::Open {
            let cs = conds_of(e);
            let h = self.hints.clone();
            if let Some(w) = witness(&h, &e.ctx, &cs, assum, 6000, &mut |v| v.ev(goal).map(|x| x != 0)) { st = St::Refuted; detail = w.show(); } else { detail = format!("goal {} = 0", short(goal)); }
        }
        self.ev(props, rule, e, st, what.into(), detail);
        st
    }
    pub fn stat(&mut self, k: &str, v: i128) { *self.stats.entry(k.into()).or_default() += v; }
    pub fn json(&self) -> String {
        let mut s = String::new();
        s += &format!("{{\"job\":{},\"key\":{},\"obs\":[", js(&self.job), js(&self.key));
        let v: Vec<String> = self.obs.iter().map(|o| format!("{{\"p\":[{}],\"rule\":{},\"at\":{},\"span\":{},\"st\":\"{}\",\"what\":{},\"detail\":{}}}", o.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","), js(&o.rule), js(&o.at), js(&o.span), match o.st { St::Proved => "proved", St::Refuted => "refuted", St::Open => "open" }, js(&o.what), js(&o.detail))).collect();
        s += &v.join(",\n");
        s += "],\"notes\":{";
        s += &self.notes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"stats\":{";
        s += &self.stats.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"facts\":{";
        s += &self.facts.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(",");
        s += "}}";
        s
    }
}
pub fn short(p: P) -> String { let mut s = show(p); if s.len() > 300 { let mut i = 300; while !s.is_char_boundary(i) { i -= 1; } s.truncate(i); s += "…"; } s }
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}
/// products bounded factor by factor: x <= X and y <= Y give xy <= XY
pub fn prove_prod(f: &Facts, goal: P) -> bool {
    for g in [goal, f.simp(goal)] {
        let ts = terms(g);
        let neg: Vec<_> = ts.iter().filter(|(m, c)| *c < 0 && mono_len(*m) == 2).collect();
        let pos: Vec<_> = ts.iter().filter(|(m, c)| *c > 0 && mono_len(*m) == 2).collect();
        if neg.is_empty() || pos.is_empty() || neg.len() > 4 || pos.len() > 4 { continue; }
        let mut f2 = f.clone();
        let mut got = false;
        for (nm, _) in &neg { for (pmn, _) in &pos {
            let (a, b) = (mono(*nm), mono(*pmn));
            for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                let (dx, dy) = (sub(pa(b[0]), pa(x)), sub(pa(b[1]), pa(y)));
                if f.ge(pa(x)) && f.ge(pa(b[1])) && f.ge(dx) && f.ge(dy) {
                    // X*Y - x*y = (X-x)*Y + x*(Y-y)
                    f2.add_ge(mul(dx, pa(b[1])));
                    f2.add_ge(mul(pa(x), dy));
                    got = true;
                    break;
                }
            }
        } }
        if got && f2.ge(g) { return true; }
    }
    false
}
/// p = q*c + r with 0 <= r < c constant, when every symbolic coefficient is a multiple of c
pub fn split_mod(p: P, c: i128) -> Option<(P, i128)> {
    let mut q = ZERO;
    let mut r = 0;
    for (m, v) in terms(p) {
        if m == M(0) { r = v.rem_euclid(c); q = add(q, k(v.div_euclid(c))); }
        else { if v % c != 0 { return None; } q = add(q, scale(pm(m), v / c)); }
    }
    Some((q, r))
}

/// case distinction over the undecided conditions and clamps of a goal and of the loop bounds
pub fn prove_cases(f: &Facts, goal: P, ctx: &[LoopCtx], depth: u32) -> bool {
    if f.dead || f.ge(goal) || f.ge(f.simp(goal)) || prove_prod(f, goal) { return true; }
    if depth == 0 { if std::env::var("MMSA_DBG").is_ok() { eprintln!("CASE goal {}", short(f.simp(goal))); } return false; }
    let mut cand = crate::ck_kernel::elem_bool_atoms(f.simp(goal));
    for c in ctx { for a in crate::ck_kernel::elem_bool_atoms(f.simp(c.count)) { if !cand.contains(&a) { cand.push(a); } } }
    let Some(x) = cand.first().cloned() else { if std::env::var("MMSA_DBG").is_ok() { eprintln!("LEAF goal {} ge {:?}", short(f.simp(goal)), f.ge.iter().map(|x| short(*x)).collect::<Vec<_>>()); } return false };
    for (c, v) in branches(x) {
        let mut g = f.clone();
        g.assume(c, true);
        if let Some((a, v)) = v { g.add_sub(a, v); }
        for l in ctx { let n = g.simp(l.count); g.add_ge(addk(sub(n, pa(l.lvar)), -1)); }
        if !prove_cases(&g, goal, ctx, depth - 1) { return false; }
    }
    true
}
/// the two cases of a condition or clamp, with the value the clamp takes
pub fn branches(x: A) -> Vec<(P, Option<(A, P)>)> {
    match ad(x) { AD::Max0(e) => vec![(ge0(*e), Some((x, *e))), (not(ge0(*e)), Some((x, ZERO)))], _ => vec![(pa(x), None), (not(pa(x)), None)] }
}
