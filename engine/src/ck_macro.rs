//! The blocked loop nest of a gemm entry point, as derived by the interpreter: a tree of loops with
//! symbolic bounds over events (packing, kernel calls, writes to C, allocation, fork/join).
//!
//! `Mac::case` instantiates that summary at one valuation of the parameters and tracks, per element of
//! C, which product terms and which multiple of the old value it holds, which packed panel is where, who
//! accessed what. A deviation from the specification is a violation together with its valuation.
use crate::ck_kernel::*;
use crate::expr::*;
use crate::interp::*;
use crate::ob::*;
use crate::state::*;
use rustc_public::ty::Ty;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const AUDIT: &str = "a conclusion of the analysis does not hold at this valuation";
const LOCAL_RULES: [&str; 18] = ["race-free", "no-panic", "join-own-node", "kernel-precondition", "lock-held-across", "alloc-nonzero", "c-write-inside", "c-read-inside", "pack-source", "pack-slice", "scratch-bounds", "panel-align", "tile-align", "ab-read-inside", "ab-not-written", "no-shared-state", "threads-within-setting", "pack-precondition"];
pub struct FE { fixed: Vec<Option<i128>>, memo: Vec<(u32, Option<i128>)>, level: Vec<u8>, last: Vec<u32>, tick: u32, depth_of: HashMap<A, u8>, pub seen: Vec<u8>, pub class: u8, bound: A, sums: HashMap<M, (u32, Vec<i128>)>, hasb: HashMap<A, bool> }
impl FE {
    pub fn new(depth_of: HashMap<A, u8>) -> FE { let n = 1 << 14; FE { fixed: vec![None; n], memo: vec![(0, None); n], level: vec![255; n], last: vec![1; 40], tick: 1, depth_of, seen: vec![0; n], class: 0, bound: bound_atom(), sums: Default::default(), hasb: Default::default() } }
    fn grow(&mut self, a: A) { let i = a.0 as usize; if i >= self.fixed.len() { let n = (i + 1).next_power_of_two(); self.fixed.resize(n, None); self.memo.resize(n, (0, None)); self.level.resize(n, 255); self.seen.resize(n, 0); } }
    pub fn reset(&mut self) { for x in self.fixed.iter_mut() { *x = None; } for x in self.memo.iter_mut() { x.0 = 0; } self.sums.clear(); }
    pub fn fix(&mut self, a: A, v: i128) { self.grow(a); self.fixed[a.0 as usize] = Some(v); }
    pub fn set_lvar(&mut self, a: A, depth: usize, v: i128) { self.fix(a, v); self.tick += 1; for d in depth..self.last.len() { self.last[d] = self.tick; } }
    pub fn touch(&mut self) { self.tick += 1; for d in 0..self.last.len() { self.last[d] = self.tick; } }
    fn lev(&mut self, a: A) -> u8 {
        self.grow(a);
        if self.level[a.0 as usize] != 255 { return self.level[a.0 as usize]; }
        let mut s = BTreeSet::new();
        deep_atom(a, &mut s);
        let l = s.iter().filter_map(|x| self.depth_of.get(x)).max().cloned().unwrap_or(0);
        self.level[a.0 as usize] = l;
        l
    }
    pub fn atom(&mut self, a: A) -> Option<i128> {
        self.grow(a);
        let i = a.0 as usize;
        if let Some(v) = self.fixed[i] { return Some(v); }
        let l = self.lev(a) as usize;
        let (s, v) = self.memo[i];
        if s != 0 && s >= self.last[l] { return v; }
        let v = self.atom_(a);
        self.memo[i] = (self.tick, v);
        if let Some(x) = v { if x >= 0 { self.grow(a); self.seen[i] |= 1 << (2 * self.class + x.min(1) as u8); } }
        v
    }
    fn atom_(&mut self, a: A) -> Option<i128> {
        Some(match ad(a) {
            AD::Max0(e) => self.ev(*e)?.max(0),
            AD::Let(e) => self.ev(*e)?,
            AD::Div(x, y) => { let (x, y) = (self.ev(*x)?, self.ev(*y)?); if y <= 0 { 0 } else { x.div_euclid(y) } }
            AD::Ge0(e) => (self.ev(*e)? >= 0) as i128,
            AD::Eq0(e) | AD::FEq0(e) => (self.ev(*e)? == 0) as i128,
            AD::FLt0(e) => (self.ev(*e)? < 0) as i128,
            AD::NDvd(e, c) => (self.ev(*e)?.rem_euclid(*c) != 0) as i128,
            AD::Fun(n, v, _) if n == "u:pow2" => { let x = self.ev(v[0])?; if !(0..=62).contains(&x) { return None; } 1i128 << x }
            AD::Sum(c, m) => { let (n, m) = (self.ev(*c)?, *m); return self.sum(n, m); }
            _ => return None,
        })
    }
    /// sum over s in 0..n of a body of indicators and sizes; partial sums are kept until something the body depends on changes
    fn sum(&mut self, n: i128, m: M) -> Option<i128> {
        if n <= 0 { return Some(0); }
        if n > 20_000 { return None; }
        let body = mono(m);
        let mut lv = 0;
        for a in &body { lv = lv.max(self.lev(*a)); }
        let (t, mut v) = self.sums.remove(&m).unwrap_or((0, vec![]));
        if t < self.last[lv as usize] { v.clear(); }
        let r = 'r: {
            while (v.len() as i128) < n {
                let s = v.len() as i128;
                let mut x = 1i128;
                for a in &body { match self.atom_at(*a, s) { Some(y) => match x.checked_mul(y) { Some(z) => x = z, None => break 'r None }, None => break 'r None } if x == 0 { break; } }
                let p = v.last().cloned().unwrap_or(0);
                match p.checked_add(x) { Some(z) => v.push(z), None => break 'r None }
            }
            Some(v[n as usize - 1])
        };
        self.sums.insert(m, (self.tick, v));
        r
    }
    /// value of an atom of a sum's body at s
    fn atom_at(&mut self, a: A, s: i128) -> Option<i128> {
        if a == self.bound { return Some(s); }
        let b = self.bound;
        if !*self.hasb.entry(a).or_insert_with(|| { let mut x = BTreeSet::new(); deep_atom(a, &mut x); x.contains(&b) }) { return self.atom(a); }
        Some(match ad(a) {
            AD::Max0(e) => self.ev_at(*e, s)?.max(0),
            AD::Let(e) => self.ev_at(*e, s)?,
            AD::Div(x, y) => { let (x, y) = (self.ev_at(*x, s)?, self.ev_at(*y, s)?); if y <= 0 { 0 } else { x.div_euclid(y) } }
            AD::Ge0(e) => (self.ev_at(*e, s)? >= 0) as i128,
            AD::Eq0(e) | AD::FEq0(e) => (self.ev_at(*e, s)? == 0) as i128,
            AD::FLt0(e) => (self.ev_at(*e, s)? < 0) as i128,
            AD::NDvd(e, c) => (self.ev_at(*e, s)?.rem_euclid(*c) != 0) as i128,
            _ => return None,
        })
    }
    fn ev_at(&mut self, p: P, s: i128) -> Option<i128> {
        let mut r = 0i128;
        'm: for (m, c) in terms_ref(p) {
            let mut t = *c;
            for a in mono_ref(*m) { match self.atom_at(*a, s)? { 0 => continue 'm, v => t = t.checked_mul(v)? } }
            r = r.checked_add(t)?;
        }
        Some(r)
    }
    pub fn ev(&mut self, p: P) -> Option<i128> {
        let mut s = 0i128;
        'm: for (m, c) in terms_ref(p) {
            let mut t = *c;
            // a factor known to be zero decides the term even if another is unknown
            let mut unk = false;
            for a in mono_ref(*m) { match self.atom(*a) { Some(0) => continue 'm, Some(v) => { if !unk { t = t.checked_mul(v)?; } } None => unk = true } }
            if unk { return None; }
            s = s.checked_add(t)?;
        }
        Some(s)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Bs { C0(i32, i32, u8), T { row: i32, col: i32, k0: i32, kc: i32, comp: u8 } }
pub type Lin = Vec<(Bs, i128)>;
fn lin_add(l: &mut Lin, b: Bs, c: i128) { if c == 0 { return; } if let Some(x) = l.iter_mut().find(|x| x.0 == b) { x.1 += c; if x.1 == 0 { l.retain(|x| x.1 != 0); } } else { l.push((b, c)); } }
#[derive(Clone, Debug)]
pub struct Case { pub m: i128, pub k: i128, pub n: i128, pub sa: (i128, i128), pub sb: (i128, i128), pub sc: (i128, i128), pub alpha: [i128; 2], pub beta: [i128; 2], pub cpu: Vec<(A, bool)>, pub cpun: String, pub threads: i128, pub alloc_ok: bool, pub aq: i128 }
#[derive(Clone)]
struct Cell { v: [Lin; 2], written: bool, bad: bool, acc: Vec<(u32, bool)>, hist: u64 }
#[derive(Clone)]
struct PRec { base: u64, off: i128, len: i128, is_m: bool, r0: i128, k0: i128, cnt: i128, kc: i128, w: i128, path: u32, ok: bool }
#[derive(Clone)]
struct TileI { rows: Vec<Option<i32>>, cols: Vec<Option<i32>>, k0: i32, kc: i32, esz: i128, mr: i128, nr: i128, comps: i128, ok: bool, h: u64 }
#[derive(Clone)]
struct Heap { size: i128, align: i128, freed: u32, alive: bool }
pub struct Prob { pub props: Vec<String>, pub rule: String, pub at: String, pub span: String, pub what: String, pub wit: String, pub n: u32 }
pub struct Mac<'a> {
    pub an: &'a An, pub kis: HashMap<Ty, (KInfo, i128, i128)>, pub a: Base, pub b: Base, pub c: Base, pub esz: i128, pub comps: i128, pub vprop: &'static str,
    pub atoms: HashMap<&'static str, A>, pub alpha: Vec<A>, pub beta: Vec<A>, pub fe: FE, pub probs: BTreeMap<String, Prob>, pub ran: Vec<u32>, pub cur: Option<Case>, pub ranc: Vec<u8>, pub fuel: u64, pub t0: std::time::Instant, pub limit: u64,
    pub unknown: BTreeMap<String, u32>, pub ninst: u64, pub checks: BTreeMap<&'static str, u64>, pub loads: Vec<A>, pub addrqs: Vec<A>, pub infeasible: u64, pub blk: (i128, i128, i128), pub skipped: u64, pub most: i128, pub hmem: HashMap<(Base, i128), Option<i128>>, pub hist: Option<String>, pub keeps: bool, pub hconsts: Vec<i128>, hist_ms: u128, hist_max: u128, joined: HashMap<u32, u32>,
    // state of one case
    cells: Vec<Cell>, unk: bool, bad: bool, journal: HashMap<(i64, i64), [Lin; 2]>, recs: Vec<PRec>, tiles: HashMap<u32, TileI>, heaps: HashMap<Base, Heap>, paths: Vec<Vec<(u32, u32, u32)>>, pathix: HashMap<Vec<(u32, u32, u32)>, u32>,
    inst: HashMap<u32, (u32, u32)>, hacc: HashMap<(u64, i128, i128), Vec<(u32, bool)>>, conf: HashMap<(u32, u32), bool>, diverged: bool, kernels: u64, condmemo: HashMap<usize, (u32, Option<bool>)>, pub ktypes: BTreeSet<String>, deallocs: u64,
}
fn mixh(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15); x = x.wrapping_mul(0xD1B54A32D192ED03); x ^ (x >> 31) }
impl<'a> Mac<'a> {
    pub fn new(an: &'a An, kis: HashMap<Ty, (KInfo, i128, i128)>, esz: i128, comps: i128) -> Mac<'a> {
        let mut depth_of = HashMap::new();
        let mut loads = BTreeSet::new();
        let mut addrqs = BTreeSet::new();
        let mut all = BTreeSet::new();
        for e in &an.events {
            for (i, l) in e.ctx.iter().enumerate() { depth_of.insert(l.lvar, i as u8 + 1); deep_atoms(l.count, &mut all); }
            for c in conds_of(e) { deep_atoms(c, &mut all); }
        }
        for (p, q, _) in &an.choice_eqs { deep_atoms(*q, &mut all); let _ = p; }
        for a in &all { match ad(*a) { AD::Load(b, _, _) if an.bases.get(*b as usize).map_or(false, |b| b.kind == BK::Opaque) => { loads.insert(*a); } AD::AddrQ(_) => { addrqs.insert(*a); } _ => {} } }
        let sname = |s: P| atoms_of(s)[0];
        let mut atoms = HashMap::new();
        for n in ["m", "k", "n"] { atoms.insert(n, sname(sym(n))); }
        for n in ["rsa", "csa", "rsb", "csb", "rsc", "csc"] { atoms.insert(n, sname(isym(n))); }
        let (mut alpha, mut beta) = (vec![], vec![]);
        for i in 0..comps { let f = |n: &str| atoms_of(rsym(&if comps == 1 { n.to_string() } else { format!("{}.{}", n, i * esz / comps) }))[0]; alpha.push(f("alpha")); beta.push(f("beta")); }
        Mac { an, kis, a: an.base_ix["a"], b: an.base_ix["b"], c: an.base_ix["c"], esz, comps, vprop: if comps == 1 { "C01" } else { "C02" }, atoms, alpha, beta, fe: FE::new(depth_of), probs: Default::default(), ran: vec![0; an.events.len()], cur: None, ranc: vec![0; an.events.len()], fuel: 0, t0: std::time::Instant::now(), limit: 100,
            unknown: Default::default(), ninst: 0, checks: Default::default(), loads: loads.into_iter().collect(), addrqs: addrqs.into_iter().collect(), infeasible: 0, blk: (8, 8, 256), skipped: 0, most: 6000, hmem: Default::default(), hist: None, keeps: an.events.iter().any(|e| matches!(e.k, EvK::Peek { .. })), hconsts: hconsts(an), hist_ms: 0, hist_max: std::env::var("MM_HIST_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(40_000), joined: Default::default(), cells: vec![], unk: false, bad: false, journal: Default::default(), recs: vec![], tiles: Default::default(), heaps: Default::default(),
            paths: vec![], pathix: Default::default(), inst: Default::default(), hacc: Default::default(), conf: Default::default(), diverged: false, kernels: 0, condmemo: Default::default(), ktypes: Default::default(), deallocs: 0 }
    }
    fn prob(&mut self, props: &[&str], rule: &str, e: Option<&Event>, what: String) {
        // once an event was not evaluated, only what depends on nothing but the event at hand is known
        if self.bad || self.unk && !LOCAL_RULES.contains(&rule) { return; }
        let at = e.map_or(String::new(), func_of);
        let props: Vec<&str> = props.iter().cloned().chain(if self.hist.is_some() && !props.contains(&"C16") { Some("C16") } else { None }).collect();
        let key = format!("{}|{}|{}", rule, at, props.join(","));
        if let Some(p) = self.probs.get_mut(&key) { p.n += 1; return; }
        let wit = self.show_case();
        if std::env::var("MMSA_DBG").is_ok() { if let Some(e) = e {
            eprintln!("PROB {} {}", rule, what);
            let mut p = Some(e.path.clone());
            while let Some(q) = p { let f = q.facts.clone();
                for g in f.ge.iter() { if let Some(v) = self.fe.ev(*g) { if v < 0 { eprintln!("   BADFACT ge {} at depth {}: {}", v, q.depth, show(*g).chars().take(1500).collect::<String>()); } } }
                for (a, v) in f.sub.iter() { let (x, y) = (self.fe.ev(pa(*a)), self.fe.ev(*v)); if x.is_some() && y.is_some() && x != y { eprintln!("   BADFACT sub {:?} {:?} at depth {}: {} := {}", x, y, q.depth, show_atom(*a).chars().take(1500).collect::<String>(), show(*v).chars().take(300).collect::<String>()); } } if q.cond != one() { let v = self.fe.ev(q.cond); eprintln!("   cond {} = {:?}", show(q.cond).chars().take(400).collect::<String>(), v); } p = q.parent.clone(); }
            for c in &e.ctx { eprintln!("   loop {} = {:?} of {} = {:?}", show_atom(c.lvar), self.fe.ev(pa(c.lvar)), show(c.count).chars().take(300).collect::<String>(), self.fe.ev(c.count)); }
            if let EvK::Write { off, guard, .. } | EvK::Read { off, guard, .. } = &e.k { let gv = self.fe.ev(*guard); eprintln!("   guard {} = {:?}", show(*guard).chars().take(2500).collect::<String>(), gv); eprintln!("   off {} = {:?}", show(*off).chars().take(100).collect::<String>(), self.fe.ev(*off)); let mut s = BTreeSet::new(); deep_atoms(*off, &mut s); let s0 = s.clone(); deep_atoms(*guard, &mut s); s.retain(|a| !s0.contains(a)); for a in s { eprintln!("     .. {:?} = {}", self.fe.ev(pa(a)), show_atom(a).chars().take(1500).collect::<String>()); } }
        } }
        self.probs.insert(key, Prob { props: props.iter().map(|s| s.to_string()).collect(), rule: rule.into(), at, span: e.map_or(String::new(), span_of), what, wit, n: 1 });
    }
    pub fn show_case(&self) -> String { match &self.cur { Some(c) => format!("m={} k={} n={} rsa,csa={},{} rsb,csb={},{} rsc,csc={},{} alpha={:?} beta={:?} cpu[{}] threads={}{}{}", c.m, c.k, c.n, c.sa.0, c.sa.1, c.sb.0, c.sb.1, c.sc.0, c.sc.1, &c.alpha[..self.comps as usize], &c.beta[..self.comps as usize], c.cpun, c.threads, if c.alloc_ok { "" } else { " allocation fails" }, self.hist.as_ref().map_or(String::new(), |h| format!(", after a call with {}", h))), None => String::new() } }
    fn giveup(&mut self, why: &str) { *self.unknown.entry(why.into()).or_default() += 1; self.unk = true; }
    fn chk(&mut self, r: &'static str) { *self.checks.entry(r).or_default() += 1; }
    /// truth of all conditions on the path from the entry to an event
    fn path_holds(&mut self, p: &Path) -> Option<bool> {
        let key = std::rc::Rc::as_ptr(p) as usize;
        if let Some((t, v)) = self.condmemo.get(&key) { if *t == self.fe.tick { return *v; } }
        let r = match &p.parent {
            Some(q) => match self.path_holds(q) { Some(true) => if p.cond == one() { Some(true) } else { self.fe.ev(p.cond).map(|x| x != 0) }, Some(false) => Some(false), None => if p.cond != one() && self.fe.ev(p.cond) == Some(0) { Some(false) } else { None } },
            None => Some(true),
        };
        self.condmemo.insert(key, (self.fe.tick, r));
        r
    }
    /// decode a byte offset of a strided matrix
    fn decode(&self, off: i128, s: (i128, i128), d: (i128, i128)) -> Option<(i128, i128, i128)> {
        let comp = off.rem_euclid(self.esz);
        let q = off.div_euclid(self.esz);
        let (r, c) = s;
        // an axis with one index does not need its stride
        if q == 0 { return Some((0, 0, comp)); }
        if (d.1 <= 1 || c == 0) && r != 0 && q % r == 0 { return Some((q / r, 0, comp)); }
        if (d.0 <= 1 || r == 0) && c != 0 && q % c == 0 { return Some((0, q / c, comp)); }
        if r == 0 || c == 0 { return None; }
        let rdiv = |a: i128, b: i128| { let b2 = b.abs(); let x = (a + b2 / 2).div_euclid(b2); if b < 0 { -x } else { x } };
        let (i, j) = if r.abs() > c.abs() { let i = rdiv(q, r); (i, (q - r * i) / c) } else { let j = rdiv(q, c); ((q - c * j) / r, j) };
        if r * i + c * j == q { Some((i, j, comp)) } else { None }
    }
    fn path(&mut self, tags: &[(u32, u32)]) -> u32 {
        let v: Vec<(u32, u32, u32)> = tags.iter().map(|(id, ix)| (*id, self.inst.get(id).map_or(0, |x| x.0), *ix)).collect();
        if let Some(x) = self.pathix.get(&v) { return *x; }
        let n = self.paths.len() as u32;
        self.paths.push(v.clone());
        self.pathix.insert(v, n);
        n
    }
    fn conflict(&mut self, a: u32, b: u32) -> bool {
        if a == b { return false; }
        if let Some(x) = self.conf.get(&(a, b)) { return *x; }
        let (x, y) = (&self.paths[a as usize], &self.paths[b as usize]);
        let mut r = false;
        for (p, q) in x.iter().zip(y) { if p == q { continue; } r = (p.0, p.1) == (q.0, q.1); break; }
        self.conf.insert((a, b), r);
        r
    }
    fn mem(&mut self, e: &Event, base: u64, lo: i128, hi: i128, path: u32, w: bool, what: &str) {
        if self.paths[path as usize].is_empty() { return; }
        let ent = self.hacc.entry((base, lo, hi)).or_default();
        if ent.contains(&(path, w)) { return; }
        ent.push((path, w));
        let keys: Vec<((u64, i128, i128), Vec<(u32, bool)>)> = self.hacc.iter().filter(|(k, _)| k.0 == base && k.1 < hi && lo < k.2).map(|(k, v)| (*k, v.clone())).collect();
        for (_, v) in keys { for (p, w2) in v { if (w || w2) && self.conflict(p, path) { self.prob(&["C10"], "race-free", Some(e), format!("two worker threads access the same {} memory, bytes {}..{}, at least one writing", what, lo, hi)); return; } } }
        self.chk("race-free");
    }
    fn resolve(&mut self, s: &Sc) -> Option<(Base, i128)> {
        let Sc::Ptr(v) = s else { return None };
        let mut r = None;
        for (g, b, o) in v.iter() { match self.fe.ev(*g)? { 0 => {} _ => { if r.is_some() { return None; } r = Some((*b, self.fe.ev(*o)?)); } } }
        r
    }
    /// identity of the storage behind a base: locals of code inside a fork branch are private to the branch
    fn store_id(&mut self, b: Base, e: &Event, path: u32) -> u64 {
        if is_local(b) {
            let d = local_of(b).0 as u32;
            let mut shared: Vec<(u32, u32, u32)> = vec![];
            for (id, ix) in &e.tags { if let Some((inst, dep)) = self.inst.get(id) { if d >= *dep { shared.push((*id, *inst, *ix)); } } }
            let _ = path;
            // the local belongs to the branch it was created in
            let mut h = b as u64;
            for s in shared.iter() { h = mixh(h, (s.0 as u64) << 40 ^ (s.1 as u64) << 8 ^ s.2 as u64 ^ 77); }
            return h | 1 << 63;
        }
        b as u64
    }
    fn info(&self, b: Base) -> (BK, i128) { if is_local(b) { (BK::Opaque, 16) } else { let x = &self.an.bases[b as usize]; (x.kind.clone(), x.align as i128) } }
    fn addr(&mut self, b: Base, off: i128) -> Option<i128> {
        if b == NULLB { return Some(off); }
        let al = match self.heaps.get(&b) { Some(h) => h.align, None => self.info(b).1 };
        let q = self.fe.atom(atom(AD::AddrQ(b)))?;
        let al0 = if is_local(b) { 1 } else { self.an.bases[b as usize].align as i128 };
        let _ = al;
        Some(al0.max(1) * q + off)
    }
    fn bsize(&mut self, b: Base) -> Option<i128> { if let Some(h) = self.heaps.get(&b) { return Some(h.size); } if is_local(b) { return None; } let s = self.an.bases[b as usize].size?; self.fe.ev(s) }
    fn bounds(&mut self, e: &Event, b: Base, lo: i128, hi: i128, what: &str) {
        if b == NULLB { self.prob(&["C14", "C07"], "null-free", Some(e), format!("{} through a null pointer", what)); return; }
        if let Some(h) = self.heaps.get(&b) { if !h.alive { self.prob(&["C14"], "no-use-after-free", Some(e), format!("{} after the scratch memory was released", what)); } }
        match self.bsize(b) {
            Some(s) => { self.chk("scratch-bounds"); if lo < 0 || hi > s { self.prob(&["C07"], "scratch-bounds", Some(e), format!("{}: bytes {}..{} of {} bytes reserved", what, lo, hi, s)); } }
            None => { if !is_local(b) { self.giveup("size of a scratch area unknown"); } }
        }
    }
    fn cell(&mut self, i: i128, j: i128) -> &mut Cell { let n = self.cur.as_ref().unwrap().n; &mut self.cells[(i * n + j) as usize] }
    fn c_access(&mut self, e: &Event, i: i128, j: i128, w: bool, path: u32) {
        let ac = { let c = self.cell(i, j); if c.acc.contains(&(path, w)) { return; } c.acc.push((path, w)); c.acc.clone() };
        for (p, w2) in ac { if (w || w2) && self.conflict(p, path) { self.prob(&["C10"], "race-free", Some(e), format!("two worker threads access element ({},{}) of C, at least one writing", i, j)); } }
        self.chk("race-free");
    }
    fn in_c(&self, i: i128, j: i128) -> bool { let c = self.cur.as_ref().unwrap(); i >= 0 && j >= 0 && i < c.m && j < c.n }
    fn lin(&mut self, p: P) -> Option<Lin> {
        let mut r: Lin = vec![];
        'm: for (m, c) in terms_ref(p) {
            let mut t = *c;
            let mut basis: Option<A> = None;
            for a in mono_ref(*m) { match ad(*a) { AD::Load(b, _, _) if *b == self.c => { if basis.is_some() { return None; } basis = Some(*a) } AD::Tile(..) => { if basis.is_some() { return None; } basis = Some(*a) } _ => { let v = self.fe.atom(*a)?; if v == 0 { continue 'm; } t = t.checked_mul(v)? } } }
            match basis.map(ad) {
                None => return None,
                Some(AD::Load(_, o, s)) => {
                    let off = self.fe.ev(*o)?;
                    let (sc, d) = { let c = self.cur.as_ref().unwrap(); (c.sc, (c.m, c.n)) };
                    let (i, j, cb) = self.decode(off, sc, d)?;
                    if !self.in_c(i, j) || *s as i128 != self.esz / self.comps { return None; }
                    let comp = (cb / (self.esz / self.comps)) as usize;
                    let v = match self.journal.get(&(i as i64, j as i64)) { Some(v) => v[comp].clone(), None => self.cell(i, j).v[comp].clone() };
                    for (b, x) in v { lin_add(&mut r, b, x * t); }
                }
                Some(AD::Tile(id, o, _)) => {
                    let off = self.fe.ev(*o)?;
                    let ti = self.tiles.get(id)?.clone();
                    if !ti.ok { return None; }
                    let el = off / ti.esz;
                    let comp = (off % ti.esz) / (ti.esz / ti.comps);
                    let (i, j) = (el % ti.mr, el / ti.mr);
                    if j >= ti.nr { return None; }
                    let (Some(row), Some(col)) = (ti.rows[i as usize], ti.cols[j as usize]) else { continue };
                    lin_add(&mut r, Bs::T { row, col, k0: ti.k0, kc: ti.kc, comp: comp as u8 }, t);
                }
                _ => return None,
            }
        }
        Some(r)
    }
    fn scal(&mut self, v: &Val) -> Option<[i128; 2]> {
        let mut r = [0, 0];
        for c in v { if let Sc::N(p) = c.sc { let ix = c.off as i128 / (self.esz / self.comps); if ix < 2 { r[ix as usize] = self.fe.ev(p)?; } } else { return None; } }
        Some(r)
    }
    fn run(&mut self, i0: usize, i1: usize, d: usize) {
        let an = self.an;
        let mut i = i0;
        while i < i1 && !self.diverged {
            let e = &an.events[i];
            if e.ctx.len() == d { self.step(i, e); i += 1; continue; }
            let l = &e.ctx[d];
            let mut j = i;
            while j < i1 && an.events[j].ctx.len() > d && an.events[j].ctx[d].lvar == l.lvar { j += 1; }
            match self.fe.ev(l.count) {
                Some(n) if n > 64 && (i..j).all(|x| self.dead_prefix(&an.events[x], d)) => {}
                Some(n) => { for t in 0..n.max(0) { if self.diverged { break; } if self.fuel == 0 { self.giveup("summary too large at this valuation"); self.diverged = true; break; } self.fuel -= 1; self.fe.set_lvar(l.lvar, d + 1, t); self.journal.clear(); self.run(i, j, d + 1); } }
                None => {
                    // a loop on a path not taken may have no bound here
                    let live = (i..j).any(|x| self.path_holds(&an.events[x].path) != Some(false));
                    if live { self.giveup("loop bound not evaluated"); }
                }
            }
            self.journal.clear();
            i = j;
        }
    }
    /// some condition on the way to `e` that does not depend on loops below depth d is false
    fn dead_prefix(&mut self, e: &Event, d: usize) -> bool {
        let mut x = Some(e.path.clone());
        while let Some(p) = x {
            if p.cond != one() && atoms_of(p.cond).iter().all(|a| self.fe.lev(*a) as usize <= d) && self.fe.ev(p.cond) == Some(0) { return true; }
            x = p.parent.clone();
        }
        false
    }
    fn step(&mut self, ix: usize, e: &Event) {
        match self.path_holds(&e.path) { Some(true) => {} Some(false) => return, None => { self.giveup("path condition not evaluated"); return } }
        self.ran[ix] += 1;
        self.ranc[ix] |= 1 << self.fe.class;
        self.ninst += 1;
        if self.fuel == 0 { self.giveup("summary too large at this valuation"); self.diverged = true; return; }
        self.fuel -= 1;
        let cs = self.cur.clone().unwrap();
        let csz = self.esz / self.comps;
        match &e.k {
            EvK::Join { id, depth, n, node } => {
                self.joined.insert(*id, *n);
                match node {
                    None => {}
                    Some(p) if *p < e.tags.len() => {
                        // a worker that runs the second half of a fork waits for a fork of the same node: for itself
                        self.chk("join-own-node");
                        let (id, ix) = e.tags[*p];
                        let n = self.joined.get(&id).cloned().unwrap_or(2);
                        // a node below the last level of the pool has no worker: both halves run in place
                        let deep: u32 = e.tags[..*p].iter().map(|(j, x)| { let n = self.joined.get(j).cloned().unwrap_or(2); if n >= 4 || (n == 3 && *x < 2) { 2 } else { 1 } }).sum();
                        let levels = if cs.threads >= 4 { 2 } else { 1 };
                        if ix >= (n + 1) / 2 && cs.threads >= 2 && deep < levels { self.prob(&["C21", "C18"], "join-own-node", Some(e), format!("branch {} of {} of a fork/join forks again on the node it was started from, whose worker is busy with that very branch", ix + 1, n)); }
                    }
                    Some(_) => self.chk("join-own-node"),
                }
                let x = self.inst.entry(*id).or_insert((0, 0)); x.0 += 1; x.1 = *depth; }
            EvK::Peek { sym, base, off } => {
                let v = match self.hmem.get(&(*base, *off)) { Some(v) => *v, None => self.an.init_mem.get(&(*base, *off)).cloned() };
                let (i, _) = (sym.0, self.fe.grow(*sym));
                self.fe.fixed[i as usize] = v;
                self.fe.touch();
            }
            EvK::Alloc { base, size, align } => {
                let (Some(s), Some(a)) = (self.fe.ev(*size), self.fe.ev(*align)) else { self.giveup("allocation size"); return };
                self.chk("alloc-size");
                if s <= 0 { self.prob(&["C14", "C17"], "alloc-nonzero", Some(e), format!("allocation of {} bytes", s)); }
                if let Some(h) = self.heaps.get(base) { if h.alive { let _ = h; self.prob(&["C14"], "released-once", Some(e), "allocated again while the previous block is not released".into()); } }
                let al0 = self.an.bases[*base as usize].align as i128;
                if a > al0 { let q = atom(AD::AddrQ(*base)); self.fe.fix(q, cs.aq * (a / al0.max(1))); self.fe.touch(); }
                if cs.alloc_ok { self.heaps.insert(*base, Heap { size: s, align: a, freed: 0, alive: true }); }
            }
            EvK::Dealloc { ptr, size, align } => {
                self.deallocs += 1;
                let (Some((b, o)), Some(s), Some(a)) = (self.resolve(ptr), self.fe.ev(*size), self.fe.ev(*align)) else { self.giveup("released pointer"); return };
                self.chk("released-once");
                if b == NULLB { self.prob(&["C14"], "released-once", Some(e), "a null pointer is released".into()); return; }
                let Some(h) = self.heaps.get_mut(&b) else { self.prob(&["C14"], "released-once", Some(e), "memory is released that was not allocated".into()); return };
                h.freed += 1;
                let (al, hs, ha) = (h.alive, h.size, h.align);
                h.alive = false;
                if !al { self.prob(&["C14"], "released-once", Some(e), "memory is released twice".into()); }
                if o != 0 { self.prob(&["C14"], "released-once", Some(e), format!("memory is released through a pointer {} bytes into the block", o)); }
                if (s, a) != (hs, ha) { self.prob(&["C14"], "same-layout", Some(e), format!("allocated with size {} align {}, released with size {} align {}", hs, ha, s, a)); }
            }
            EvK::Extern { name } if name.ends_with("_contended") => {
                // everything before this point has run to its end except the scopes around it
                self.chk("lock-free-at-acquire");
                self.diverged = true;
                self.prob(&["C21", "C18"], "lock-held-across", Some(e), "waits for a lock that an enclosing scope of the same call still holds".into());
            }
            EvK::Audit { cond } => if self.fe.ev(*cond) == Some(0) {
                if std::env::var("MMSA_DBG").is_ok() && *self.unknown.get(AUDIT).unwrap_or(&0) == 0 {
                    eprintln!("AUDIT {} {} {} {}", self.show_case(), func_of(e), span_of(e), show(*cond).len());
                    let mut s = BTreeSet::new(); deep_atoms(*cond, &mut s); for a in s { eprintln!("     .. {:?} = {}", self.fe.ev(pa(a)), show_atom(a).chars().take(900).collect::<String>()); }
                }
                self.bad = true;
                self.giveup(AUDIT)
            },
            EvK::NonTerm { .. } => self.giveup("a loop whose iteration count is not derived"),
            EvK::Extern { name } if name == "handle_alloc_error" => { self.diverged = true; if cs.alloc_ok { self.prob(&["C17"], "no-panic", Some(e), "allocation error reported although the allocation succeeded".into()); } }
            EvK::Panic { what } => { self.diverged = true; self.prob(&["C17"], "no-panic", Some(e), format!("panic reached: {}", what)); }
            EvK::Read { base, off, size, guard, .. } => {
                match self.fe.ev(*guard) { Some(0) => return, None => { self.giveup("read guard"); return } _ => {} }
                let Some(o) = self.fe.ev(*off) else { if *base == self.c || *base == self.a || *base == self.b { self.giveup("read offset"); } return };
                let path = self.path(&e.tags);
                if *base == self.c {
                    let Some((i, j, cb)) = self.decode(o, cs.sc, (cs.m, cs.n)) else { self.prob(&["C06"], "c-read-inside", Some(e), format!("read of C at byte {} that is no element", o)); return };
                    self.chk("c-read-inside");
                    if !self.in_c(i, j) || cb + *size as i128 > self.esz { self.prob(&["C06"], "c-read-inside", Some(e), format!("reads element ({},{}) of a {}x{} C", i, j, cs.m, cs.n)); return; }
                    if cs.beta == [0, 0] && !self.cell(i, j).written { self.prob(&["C04"], "beta0-no-read", Some(e), format!("element ({},{}) of C is read before it is written although beta is zero", i, j)); }
                    self.chk("beta0-no-read");
                    self.c_access(e, i, j, false, path);
                } else if *base == self.a || *base == self.b {
                    let (s, d, nm) = if *base == self.a { (cs.sa, (cs.m, cs.k), "A") } else { (cs.sb, (cs.k, cs.n), "B") };
                    self.chk("ab-read-inside");
                    match self.decode(o, s, d) { Some((i, j, cb)) if i >= 0 && j >= 0 && i < d.0 && j < d.1 && cb + *size as i128 <= self.esz => {} _ => self.prob(&["C06"], "ab-read-inside", Some(e), format!("reads outside the {}x{} matrix {} (byte offset {})", d.0, d.1, nm, o)) }
                } else {
                    let (kd, _) = self.info(*base);
                    if kd == BK::Heap || kd == BK::Tls { self.bounds(e, *base, o, o + *size as i128, "scratch read"); let id = self.store_id(*base, e, path); self.mem(e, id, o, o + *size as i128, path, false, "scratch"); }
                }
            }
            EvK::Write { base, off, size, vals, guard, atomic, .. } => {
                match self.fe.ev(*guard) { Some(0) => return, None => { self.giveup("write guard"); return } _ => {} }
                let path = self.path(&e.tags);
                if *base == self.a || *base == self.b { self.prob(&["C05"], "ab-not-written", Some(e), format!("writes the input matrix {}", if *base == self.a { "A" } else { "B" })); return; }
                let Some(o) = self.fe.ev(*off) else { if *base == self.c { self.giveup("write offset"); } return };
                if *base == self.c {
                    self.chk("c-write-inside");
                    let Some((i, j, cb)) = self.decode(o, cs.sc, (cs.m, cs.n)) else { self.prob(&["C05"], "c-write-inside", Some(e), format!("write to C at byte {} that is no element", o)); return };
                    if !self.in_c(i, j) || cb + *size as i128 > self.esz { self.prob(&["C05"], "c-write-inside", Some(e), format!("writes element ({},{}) of a {}x{} C", i, j, cs.m, cs.n)); return; }
                    self.c_access(e, i, j, true, path);
                    let old = self.cell(i, j).v.clone();
                    let mut new = old.clone();
                    let mut bad = false;
                    for (vo, vs, sc) in vals {
                        let comp = (cb + *vo as i128) / csz;
                        match sc { Sc::N(p) if *vs as i128 == csz && comp < self.comps => { match self.lin(*p) { Some(l) => new[comp as usize] = l, None => bad = true } } _ => bad = true }
                    }
                    if vals.is_empty() { bad = true; }
                    self.journal.entry((i as i64, j as i64)).or_insert(old);
                    let h: u64 = vals.iter().filter_map(|v| if let Sc::N(p) = v.2 { Some(atoms_of(p)) } else { None }).flatten().filter_map(|a| if let AD::Tile(id, o, _) = ad(a) { Some((*id, *o)) } else { None }).map(|(id, o)| mixh(self.tiles.get(&id).map_or(0, |t| t.h), self.fe.ev(o).unwrap_or(0) as u64)).fold(0, |x, y| x ^ y);
                    let c = self.cell(i, j);
                    c.written = true;
                    c.v = new;
                    if bad { c.bad = true; }
                    c.hist = mixh(c.hist, h ^ 5);
                } else {
                    let (kd, _) = self.info(*base);
                    if self.keeps && matches!(kd, BK::Static | BK::Tls) { for (vo, _, sc) in vals { let v = if let Sc::N(p) = sc { self.fe.ev(*p) } else { None }; self.hmem.insert((*base, o + *vo as i128), v); } }
                    if *atomic { self.chk("no-shared-state"); return; }
                    self.shared(e, *base, "writes");
                    if kd == BK::Heap || kd == BK::Tls {
                        self.bounds(e, *base, o, o + *size as i128, "scratch write");
                        let id = self.store_id(*base, e, path);
                        self.mem(e, id, o, o + *size as i128, path, true, "scratch");
                        for r in self.recs.iter_mut() { if r.base == id && r.off < o + *size as i128 && o < r.off + r.len { r.ok = false; } }
                    } else if is_local(*base) {
                        let id = self.store_id(*base, e, path);
                        let dmax = e.tags.iter().filter_map(|t| self.inst.get(&t.0)).map(|x| x.1).max().unwrap_or(0);
                        if (local_of(*base).0 as u32) < dmax { self.mem(e, id, o, o + *size as i128, path, true, "caller's stack"); }
                    }
                }
            }
            EvK::Slice { ptr, len, esz, mutbl } => {
                if *mutbl { if let Some((b, _)) = self.resolve(ptr) { self.shared(e, b, "hands out as scratch"); } }
                let (Some((b, o)), Some(l)) = (self.resolve(ptr), self.fe.ev(*len)) else { return };
                if b == self.a || b == self.b || b == self.c || is_local(b) { return; }
                let _ = mutbl;
                if self.info(b).0 == BK::Heap || b == NULLB { self.bounds(e, b, o, o + l * *esz as i128, "scratch slice"); }
            }
            EvK::Pack(p) => self.pack(e, p, &cs),
            EvK::Kernel(kk) => self.kernel(e, kk, &cs),
            _ => {}
        }
    }
    /// memory that concurrent calls share
    fn shared(&mut self, e: &Event, b: Base, how: &str) {
        self.chk("no-shared-state");
        if b == NULLB || is_local(b) || self.info(b).0 != BK::Static { return; }
        let n = self.an.bases[b as usize].name.clone();
        self.prob(&["C16"], "no-shared-state", Some(e), format!("{} {}, which all calls of the process share", how, n));
    }
    fn pack(&mut self, e: &Event, p: &PackEv, cs: &Case) {
        let path = self.path(&e.tags);
        let (Some((db, doff)), Some((sb, soff)), Some(kc), Some(mc), Some(rs), Some(csd), Some(dlen)) = (self.resolve(&p.dst), self.resolve(&p.src), self.fe.ev(p.kc), self.fe.ev(p.mc), self.fe.ev(p.rs), self.fe.ev(p.cs), self.fe.ev(p.dlen)) else { self.giveup("pack arguments"); return };
        let w = p.panel as i128;
        let csz = self.esz / self.comps;
        self.chk("pack-precondition");
        self.shared(e, db, "packs into");
        if db == NULLB { self.bounds(e, db, 0, 0, "packing"); return; }
        if kc < 1 || mc < 1 { self.prob(&["C17", "C08"], "pack-precondition", Some(e), format!("packing a {}x{} block", mc, kc)); return; }
        let panels = (mc + w - 1) / w;
        let len = kc * w * panels * self.esz;
        if dlen * csz < len && dlen * self.esz < len { self.prob(&["C07", "C17"], "pack-slice", Some(e), format!("packed block of {} bytes into a slice of {} elements", len, dlen)); }
        self.bounds(e, db, doff, doff + len, "packed block");
        // source block
        let (s, dims, nm, bm) = if sb == self.a { (cs.sa, (cs.m, cs.k), "A", true) } else if sb == self.b { (cs.sb, (cs.k, cs.n), "B", false) } else { self.giveup("packed source"); return };
        let Some((i, j, cb)) = self.decode(soff, s, dims) else { self.prob(&["C06", self.vprop], "pack-source", Some(e), format!("packs from byte offset {} of {} which is no element", soff, nm)); return };
        // lanes and slots in terms of the matrix axes
        let lane_is_row = (rs, csd) == s;
        let lane_is_col = (csd, rs) == s;
        if !(lane_is_row || lane_is_col) || cb != 0 { self.prob(&["C06", self.vprop], "pack-source", Some(e), format!("packs matrix {} with strides {},{} although its strides are {},{}", nm, rs, csd, s.0, s.1)); return; }
        self.chk("pack-source");
        let want_row = bm; // lanes run over the outer dimension: rows of A, columns of B
        let ok = if want_row { lane_is_row } else { lane_is_col };
        let (l0, k0) = if bm { (i, j) } else { (j, i) };
        let _ = dims;
        let outer = if bm { cs.m } else { cs.n };
        if !ok { let (v, x) = (self.vprop, "pack-source"); self.prob(&[v], x, Some(e), format!("matrix {} is packed transposed", nm)); return; }
        if l0 < 0 || k0 < 0 || l0 + mc > outer || k0 + kc > cs.k { self.prob(&["C06"], "pack-source", Some(e), format!("packs {} indices {}..{} x terms {}..{} of matrix {} with {} x {}", if bm { "row" } else { "column" }, l0, l0 + mc, k0, k0 + kc, nm, outer, cs.k)); }
        let id = self.store_id(db, e, path);
        self.mem(e, id, doff, doff + len, path, true, "packing");
        // overlap with live panels of another operand is judged when those are used
        for r in self.recs.iter_mut() { if r.base == id && r.off < doff + len && doff < r.off + r.len { r.ok = false; } }
        self.recs.retain(|r| r.ok || r.base != id);
        self.recs.push(PRec { base: id, off: doff, len, is_m: bm, r0: l0, k0, cnt: mc, kc, w, path, ok: true });
    }
    fn panel(&mut self, e: &Event, base: Base, off: i128, k: i128, w: i128, path: u32, nm: &str) -> Option<(bool, i128, i128, Vec<Option<i32>>)> {
        let id = self.store_id(base, e, path);
        let len = k * w * self.esz;
        self.bounds(e, base, off, off + len, &format!("packed operand {} of the kernel", nm));
        self.mem(e, id, off, off + len, path, false, "packed");
        self.chk("panel-fresh");
        let vp = self.vprop;
        let Some(r) = self.recs.iter().find(|r| r.base == id && r.off <= off && off < r.off + r.len && r.ok).cloned() else { self.prob(&["C08", vp], "panel-fresh", Some(e), format!("kernel reads packed operand {} at byte {} where no current block has been packed", nm, off)); return None };
        if !self.paths[r.path as usize].is_empty() && { let (a, b) = (self.paths[r.path as usize].clone(), self.paths[path as usize].clone()); let mut c = false; for (p, q) in a.iter().zip(&b) { if p != q { c = (p.0, p.1) == (q.0, q.1); break; } } c } { self.prob(&["C10", "C08"], "panel-own", Some(e), format!("kernel uses operand {} packed by a concurrently running task", nm)); }
        let ps = r.kc * r.w * self.esz;
        if r.w != w || (off - r.off) % ps != 0 || r.kc != k { self.prob(&[vp, "C08"], "panel-layout", Some(e), format!("kernel reads {} slots of {} lanes at byte {} of a block packed with {} slots of {} lanes", k, w, off - r.off, r.kc, r.w)); return None; }
        let q = (off - r.off) / ps;
        let rows: Vec<Option<i32>> = (0..w).map(|i| { let x = q * w + i; if x < r.cnt { Some((r.r0 + x) as i32) } else { None } }).collect();
        Some((r.is_m, r.k0, r.kc, rows))
    }
    fn kernel(&mut self, e: &Event, p: &KernelEv, cs: &Case) {
        self.kernels += 1;
        let path = self.path(&e.tags);
        let vp = self.vprop;
        let (Some(k), Some((ab, ao)), Some((bb, bo)), Some((cb, co)), Some(rs), Some(csd)) = (self.fe.ev(p.k), self.resolve(&p.a), self.resolve(&p.b), self.resolve(&p.c), self.fe.ev(p.rsc), self.fe.ev(p.csc)) else { self.giveup("kernel arguments"); return };
        let (Some(al), Some(be)) = (self.scal(&p.alpha), self.scal(&p.beta)) else { self.giveup("kernel scalars"); return };
        let (mr, nr) = (p.mr as i128, p.nr as i128);
        if let Some((ki, _, _)) = self.kis.get(&p.kty) { let nm = ki.name.clone(); self.ktypes.insert(nm); }
        self.chk("kernel-precondition");
        if k < 1 { self.prob(&[vp, "C03", "C17"], "kernel-precondition", Some(e), format!("kernel called with {} terms", k)); return; }
        if al != cs.alpha { self.prob(&[vp], "kernel-alpha", Some(e), format!("kernel called with alpha {:?} instead of {:?}", al, cs.alpha)); }
        let A_ = self.panel(e, ab, ao, k, mr, path, "A");
        let B_ = self.panel(e, bb, bo, k, nr, path, "B");
        // alignment of vector accesses to the panels
        if let Some((ki, aa, ba)) = self.kis.get(&p.kty).map(|x| (x.0.masked, x.1, x.2)) {
            for (b, o, need, nm) in [(ab, ao, aa, "A"), (bb, bo, ba, "B")] { if need > 1 { self.chk("panel-align"); match self.addr(b, o) { Some(x) => { let hal = self.heaps.get(&b).map_or(0, |h| h.align); let ok = if hal > 0 { x % need == 0 } else { x % need == 0 }; if !ok { self.prob(&["C09"], "panel-align", Some(e), format!("packed operand {} at address {} modulo {} where the kernel needs alignment {}", nm, x % need, need, need)); } } None => self.giveup("panel address") } } }
            if ki && be != [0, 0] { self.prob(&[vp, "C03"], "kernel-precondition", Some(e), format!("kernel that only computes alpha*A*B is called with beta {:?}", be)); }
        }
        let (rows, cols, k0, kc, ok) = match (A_, B_) {
            (Some((am, ak0, akc, ar)), Some((bm, bk0, _bkc, br))) => {
                if ak0 != bk0 { self.prob(&[vp, "C08"], "panel-k-range", Some(e), format!("terms from {} of A are multiplied with terms from {} of B", ak0, bk0)); (ar, br, 0, 0, false) }
                else if am == bm { self.prob(&[vp], "panel-operands", Some(e), "both packed operands come from the same matrix".into()); (ar, br, 0, 0, false) }
                else if am { (ar, br, ak0, akc, true) } else { (br, ar, ak0, akc, true) }
            }
            _ => (vec![None; mr as usize], vec![None; nr as usize], 0, 0, false),
        };
        let swapped = rows.len() as i128 != mr || (ok && self.recs.iter().any(|r| !r.is_m && { let _ = r; false }));
        let _ = swapped;
        // lane order of the output: i runs over the first operand's lanes
        let first_is_m = { let id = self.store_id(ab, e, path); self.recs.iter().find(|r| r.base == id && r.off <= ao && ao < r.off + r.len && r.ok).map_or(true, |r| r.is_m) };
        let (li, lj) = if first_is_m { (rows.clone(), cols.clone()) } else { (cols.clone(), rows.clone()) };
        let h = mixh(mixh(k0 as u64, kc as u64), (be[0] as u64) ^ (be[1] as u64) << 20);
        if cb == self.c {
            // the kernel is given C itself
            for i in 0..mr { for j in 0..nr {
                let off = co + self.esz * (rs * i + csd * j);
                self.chk("c-write-inside");
                let d = self.decode(off, cs.sc, (cs.m, cs.n));
                let Some((x, y, c0)) = d else { self.prob(&["C05"], "c-write-inside", Some(e), format!("kernel writes C at byte {} that is no element", off)); return };
                if !self.in_c(x, y) || c0 != 0 { self.prob(&["C05", "C06"], "c-write-inside", Some(e), format!("kernel writes element ({},{}) of a {}x{} C", x, y, cs.m, cs.n)); return; }
                if be != [0, 0] && cs.beta == [0, 0] && !self.cell(x, y).written { self.prob(&["C04", "C03"], "beta0-no-read", Some(e), format!("kernel reads element ({},{}) of C before it is written although beta is zero", x, y)); }
                self.c_access(e, x, y, true, path);
                let comps = self.comps;
                let (ri, cj) = (li[i as usize], lj[j as usize]);
                let c = self.cell(x, y);
                if !ok { c.bad = true; }
                c.written = true;
                let old = c.v.clone();
                let mut new: [Lin; 2] = Default::default();
                if comps == 1 { for (b, v) in &old[0] { lin_add(&mut new[0], *b, v * be[0]); } }
                else {
                    for (b, v) in &old[0] { lin_add(&mut new[0], *b, v * be[0]); lin_add(&mut new[1], *b, v * be[1]); }
                    for (b, v) in &old[1] { lin_add(&mut new[0], *b, -v * be[1]); lin_add(&mut new[1], *b, v * be[0]); }
                }
                let (row, col) = if first_is_m { (ri, cj) } else { (cj, ri) };
                if let (Some(row), Some(col)) = (row, col) { for cp in 0..comps { lin_add(&mut new[cp as usize], Bs::T { row, col, k0: k0 as i32, kc: kc as i32, comp: cp as u8 }, 1); } }
                c.v = new;
                c.hist = mixh(c.hist, mixh(h, (i * nr + j) as u64 ^ 1 << 30));
            } }
        } else {
            self.shared(e, cb, "the kernel writes to");
            if cb == self.a || cb == self.b { self.prob(&["C05"], "ab-not-written", Some(e), "kernel output goes to an input matrix".into()); return; }
            let hi = co + self.esz * (rs * (mr - 1) + csd * (nr - 1) + 1);
            self.bounds(e, cb, co, hi, "edge tile buffer");
            let id = self.store_id(cb, e, path);
            self.mem(e, id, co, hi, path, true, "edge tile");
            if let Some(x) = self.addr(cb, co) { self.chk("tile-align"); if x % csz_of(self.esz, self.comps) != 0 { self.prob(&["C09"], "tile-align", Some(e), format!("edge tile buffer at address {} modulo {}", x % csz_of(self.esz, self.comps), csz_of(self.esz, self.comps))); } }
            if be != [0, 0] { self.prob(&["C08", vp], "tile-fresh", Some(e), "kernel adds to the old contents of the edge tile buffer".into()); }
            let (rows, cols) = (li, lj);
            let dense = rs == 1 && csd == mr;
            if first_is_m { self.tiles.insert(p.id, TileI { rows, cols, k0: k0 as i32, kc: kc as i32, esz: self.esz, mr, nr, comps: self.comps, ok: ok && (dense || !is_local(cb)), h }); } else { self.giveup("operands exchanged in an edge tile"); }
        }
    }
    /// evaluate the summary at one valuation, as the first call of the process and, where calls leave something behind, after other calls
    pub fn case(&mut self, cs: &Case) -> Option<u64> {
        self.hmem.clear();
        self.hist = None;
        let bad = |me: &Mac| me.probs.values().map(|p| p.n).sum::<u32>();
        let n0 = bad(self);
        let fresh = self.case1(cs);
        if !self.keeps || fresh.is_none() || bad(self) > n0 || self.hist_ms > self.hist_max { return fresh; }
        let t = std::time::Instant::now();
        let mut before = vec![cs.clone()];
        if cs.m * cs.n * (cs.k / 64 + 1) < 100_000 {
            let mut v = |f: &dyn Fn(&mut Case)| { let mut c = cs.clone(); f(&mut c); before.push(c); };
            v(&|c| c.m = 2 * c.m + 1);
            v(&|c| c.n = 2 * c.n + 1);
            v(&|c| c.k = 2 * c.k + 1);
            v(&|c| { c.m = c.m / 2; c.n = c.n / 2; });
            v(&|c| c.k = c.k / 2);
            v(&|c| { c.sa = (c.sa.1, c.sa.0); c.sb = (c.sb.1, c.sb.0); });
            v(&|c| c.sc = (c.sc.1, c.sc.0));
            v(&|c| c.beta = if c.beta == [0, 0] { [7, 0] } else { [0, 0] });
            v(&|c| c.alpha = [-2, 0]);
            v(&|c| { c.m = 1; c.n = 1; c.k = 1; });
            // values that a later call compares what was left behind with
            for x in self.hconsts.clone() { for d in 0..3 { v(&|c| { c.m = c.m.min(3); c.n = c.n.min(3); c.k = c.k.min(3); *[&mut c.m, &mut c.n, &mut c.k][d] = x; }); } }
        }
        for p in before {
            self.hmem.clear();
            if !injective(p.sa, p.m, p.k) || !injective(p.sb, p.k, p.n) || !injective(p.sc, p.m, p.n) { continue; }
            if self.case1(&p).is_none() || self.hmem.is_empty() { continue; }
            if bad(self) > n0 { break; }
            self.hist = Some(format!("m={} k={} n={} rsa,csa={},{} rsb,csb={},{} rsc,csc={},{} alpha={:?} beta={:?}", p.m, p.k, p.n, p.sa.0, p.sa.1, p.sb.0, p.sb.1, p.sc.0, p.sc.1, p.alpha, p.beta));
            let r = self.case1(cs);
            self.chk("history-independent");
            if let (Some(x), Some(y)) = (fresh, r) { if x != 0 && y != 0 && x != y && bad(self) == n0 { self.prob(&["C16"], "history-independent", None, "a call computes C by different operations depending on the calls made before".into()); } }
            self.hist = None;
            if bad(self) > n0 { break; }
        }
        self.hmem.clear();
        self.hist_ms += t.elapsed().as_millis();
        fresh
    }
    fn case1(&mut self, cs: &Case) -> Option<u64> {
        let up = |x: i128, y: i128| (x.max(0) + y - 1) / y.max(1);
        let tiles = up(cs.m, self.blk.0) * up(cs.n, self.blk.1) * up(cs.k, self.blk.2);
        if tiles > self.most { if std::env::var("MMSA_DBG").is_ok() { eprintln!("SKIP {} {} {}: {}", cs.m, cs.k, cs.n, tiles); } self.skipped += 1; return None; }
        self.fe.reset();
        self.fe.class = if cs.beta == [0, 0] { 0 } else if cs.beta == [1, 0] { 2 } else { 1 };
        self.fuel = 60_000 + 100 * (cs.m.max(1) * cs.n.max(1) * (cs.k / 64 + 2)) as u64;
        if self.t0.elapsed().as_secs() > self.limit { *self.unknown.entry("time limit of the evaluation".into()).or_default() += 1; return None; }
        self.condmemo.clear();
        self.fe.tick += 1;
        let names: Vec<(&'static str, i128)> = vec![("m", cs.m), ("k", cs.k), ("n", cs.n), ("rsa", cs.sa.0), ("csa", cs.sa.1), ("rsb", cs.sb.0), ("csb", cs.sb.1), ("rsc", cs.sc.0), ("csc", cs.sc.1)];
        for (n, v) in names { let a = self.atoms[n]; self.fe.fix(a, v); }
        for i in 0..self.comps as usize { let (a, b) = (self.alpha[i], self.beta[i]); self.fe.fix(a, cs.alpha[i]); self.fe.fix(b, cs.beta[i]); }
        for (a, v) in &cs.cpu { self.fe.fix(*a, *v as i128); }
        for a in self.loads.clone() { self.fe.fix(a, cs.threads); }
        for (x, a) in self.addrqs.clone().into_iter().enumerate() { self.fe.fix(a, cs.aq + 2 * x as i128); }
        for b in 0..self.an.bases.len() { let a = atom(AD::AddrQ(b as u32)); if self.fe.atom(a).is_none() { self.fe.fix(a, cs.aq + 2 * b as i128); } }
        for i in 0..64 { self.fe.fix(atom(AD::BSym(format!("alloc_ok#{}", i))), cs.alloc_ok as i128); }
        self.cur = Some(cs.clone());
        let an = self.an;
        let mut workers = 1;
        let mut feasible = true;
        for (p, q, v) in &an.choice_eqs {
            if self.path_holds(p) != Some(true) { continue; }
            let Some(x) = self.fe.ev(*q) else { continue };
            workers *= x.max(1);
            if x != *v { feasible = false; break; }
        }
        if !self.loads.is_empty() && !an.choice_eqs.is_empty() {
            self.chk("threads-within-setting");
            if workers > cs.threads.clamp(1, 4) { self.prob(&["C12"], "threads-within-setting", None, format!("a call is split over {} workers when {} threads are allowed", workers, cs.threads)); }
        }
        if !feasible { self.infeasible += 1; return None; }
        let cell = Cell { v: Default::default(), written: false, bad: false, acc: vec![], hist: 1 };
        self.cells = vec![cell; (cs.m.max(0) * cs.n.max(0)) as usize];
        for i in 0..cs.m { for j in 0..cs.n { let comps = self.comps; let c = self.cell(i, j); for cp in 0..comps { c.v[cp as usize] = vec![(Bs::C0(i as i32, j as i32, cp as u8), 1)]; } } }
        self.bad = false; self.unk = self.an.incomplete();
        self.journal.clear();
        self.recs.clear();
        self.tiles.clear();
        self.heaps.clear();
        self.paths.clear();
        self.pathix.clear();
        self.inst.clear();
        self.hacc.clear();
        self.conf.clear();
        self.diverged = false;
        self.path(&[]);
        self.run(0, an.events.len(), 0);
        if !cs.alloc_ok { if !self.diverged && self.heaps.is_empty() && self.kernels > 0 { } return Some(0); }
        if !self.diverged { let hs: Vec<(Base, Heap)> = self.heaps.iter().map(|(b, h)| (*b, h.clone())).collect(); for (_, h) in hs { self.chk("released-once"); if h.alive && !self.unk { self.prob(&["C14"], "released-once", None, "scratch memory is never released".into()); } } }
        if self.unk || self.diverged { return Some(0); }
        let mut sig = 7u64;
        let (b0, b1) = (cs.beta[0], cs.beta[1]);
        for i in 0..cs.m { for j in 0..cs.n {
            let c = self.cell(i, j).clone();
            sig = mixh(sig, c.hist);
            self.chk("c-value");
            if c.bad { self.giveup("an element's value"); return Some(0); }
            // expected old-value part
            let (x, y) = (i as i32, j as i32);
            let comps = self.comps;
            for cp in 0..comps as usize {
                let mut want: Lin = vec![];
                if comps == 1 { lin_add(&mut want, Bs::C0(x, y, 0), b0); }
                else if cp == 0 { lin_add(&mut want, Bs::C0(x, y, 0), b0); lin_add(&mut want, Bs::C0(x, y, 1), -b1); }
                else { lin_add(&mut want, Bs::C0(x, y, 0), b1); lin_add(&mut want, Bs::C0(x, y, 1), b0); }
                let mut gotc: Lin = c.v[cp].iter().filter(|t| matches!(t.0, Bs::C0(..))).cloned().collect();
                gotc.sort();
                want.sort();
                let vp = self.vprop;
                if gotc != want {
                    let what = if !c.written { format!("element ({},{}) of C is never written", i, j) } else { format!("element ({},{}) of C holds {:?} of its old value, expected {:?}", i, j, gotc.iter().map(|t| t.1).collect::<Vec<_>>(), want.iter().map(|t| t.1).collect::<Vec<_>>()) };
                    let p: Vec<&str> = if !c.written && cs.k > 0 { vec![vp, "C03"] } else { vec!["C03", vp] };
                    self.prob(&p, "c-old-value", None, what);
                }
                // product part: the term ranges partition [0, k)
                let mut iv: Vec<(i32, i32, i128)> = vec![];
                let mut bad = None;
                for (b, co) in &c.v[cp] { if let Bs::T { row, col, k0, kc, comp } = b {
                    if (*row, *col) != (x, y) { bad = Some(format!("element ({},{}) of C receives the product of row {} and column {}", i, j, row, col)); }
                    else if *comp as usize != cp { bad = Some(format!("real and imaginary parts exchanged in element ({},{})", i, j)); }
                    iv.push((*k0, *kc, *co));
                } }
                iv.sort();
                let mut cur = 0i32;
                let scaled = iv.iter().any(|t| t.2 != 1);
                for (k0, kc, co) in &iv { if bad.is_none() { if *co != 1 { bad = Some(format!("terms {}..{} of element ({},{}) enter with factor {}", k0, k0 + kc, i, j, co)); } else if *k0 != cur { bad = Some(format!("terms {}..{} of element ({},{}) are {}", (*k0).min(cur), (*k0).max(cur), i, j, if *k0 > cur { "missing" } else { "added twice" })); } } cur = cur.max(k0 + kc); }
                if bad.is_none() && (cur as i128) < cs.k { bad = Some(format!("terms {}..{} of element ({},{}) are missing", cur, cs.k, i, j)); }
                if let Some(w) = bad { let p: Vec<&str> = if scaled { vec![vp, "C03"] } else { vec![vp] }; self.prob(&p, "c-product", None, w); }
            }
        } }
        Some(sig)
    }
}
fn csz_of(e: i128, c: i128) -> i128 { e / c }
pub fn cpu_atoms(an: &An) -> Vec<(String, A)> {
    let mut s = BTreeSet::new();
    for e in &an.events { for c in conds_of(e) { deep_atoms(c, &mut s); } }
    for (p, _, _) in &an.choice_eqs { for c in suffix(p, &root_of(p)) { deep_atoms(c, &mut s); } }
    s.into_iter().filter_map(|a| if let AD::BSym(n) = ad(a) { n.strip_prefix("cpu:").map(|f| (f.to_string(), a)) } else { None }).collect()
}
pub fn implied(f: &str) -> &'static [&'static str] {
    match f {
        "avx512f" => &["avx512f", "avx2", "fma", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "sse", "f16c"],
        "avx2" => &["avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "sse"],
        "fma" => &["fma", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "sse"],
        "f16c" => &["f16c", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "sse"],
        "avx" => &["avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "sse"],
        "sse4.2" => &["sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "sse"],
        "sse4.1" => &["sse4.1", "ssse3", "sse3", "sse2", "sse"],
        "ssse3" => &["ssse3", "sse3", "sse2", "sse"],
        "sse3" => &["sse3", "sse2", "sse"],
        "sse2" => &["sse2", "sse"],
        _ => &[],
    }
}
/// CPU descriptions consistent with the implications between instruction sets
pub fn cpu_sets(at: &[(String, A)]) -> Vec<(String, Vec<(A, bool)>)> {
    let mut out = vec![];
    for bits in 0..1u32 << at.len().min(10) {
        let has = |f: &str| at.iter().position(|x| x.0 == f).map(|i| bits >> i & 1 == 1);
        let ok = at.iter().enumerate().all(|(i, (f, _))| bits >> i & 1 == 0 || implied(f).iter().all(|g| has(g) != Some(false)));
        if ok { out.push((at.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, x)| x.0.clone()).collect::<Vec<_>>().join("+"), at.iter().enumerate().map(|(i, x)| (x.1, bits >> i & 1 == 1)).collect())); }
    }
    out
}
pub fn uniq(v: Vec<i128>) -> Vec<i128> { let s: BTreeSet<i128> = v.into_iter().collect(); s.into_iter().collect() }
pub type Unused = HashSet<u8>;

/// the entry point analysed symbolically, then evaluated; one job per choice of worker counts
pub fn check_entry(tcx: Tcx, entry: &str, picks: &[i128], level: u32, cpu: Option<&str>, rep: &mut Rep) {
    let t0 = std::time::Instant::now();
    let mut an = An::new(tcx);
    let Some(tr) = an.kernel_trait() else { rep.push(&["*"], "anchor", "GemmKernel", "", St::Open, "kernel trait not found".into(), String::new()); return };
    let Some((inst, args, esz, comps)) = entry_args(tcx, &mut an, entry) else { rep.push(&["*"], "anchor", entry, "", St::Open, "entry point not found, or unexpected argument list".into(), String::new()); return };
    let csz = esz / comps;
    let c = an.base_ix["c"];
    for n in ["a", "b", "c"] { let b = an.base_ix[n]; an.bases[b as usize].align = csz as u64; }
    STRIDED.with(|s| { s.borrow_mut().insert(c); });
    an.accum.insert(c);
    an.boundary = true;
    an.choices = picks.to_vec();
    an.cpu = cpu.map(|c| c.split('+').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect());
    let st = State { frames: vec![], logs: Default::default(), path: root_path(crate::prove::Facts::new()) };
    let r = an.exec_fn(inst, args, st);
    let t1 = t0.elapsed().as_millis();
    rep.facts.insert("choices".into(), an.choice_log.iter().map(|c| format!("{}={:?}", c.0, c.1)).collect::<Vec<_>>().join(";"));
    rep.facts.insert("returns".into(), r.is_some().to_string());
    // the kernels it can select
    let mut kis: HashMap<Ty, (KInfo, i128, i128)> = HashMap::new();
    let mut feats: HashMap<Ty, Vec<String>> = HashMap::new();
    let mut order = vec![];
    for e in &an.events {
        let t = match &e.k { EvK::Kernel(k) => k.kty, EvK::Pack(p) => p.kty, _ => continue };
        if kis.contains_key(&t) { continue; }
        let Some(name) = crate::dev::impls(tcx, tr).into_iter().find(|x| x.1 == t).map(|x| x.0) else { continue };
        let Some(ki) = kinfo(tcx, &name, t) else { continue };
        let mut r2 = Rep { hints: Hints::new(&[4, 8]), ..Default::default() };
        check_kernel(tcx, &ki, &mut r2);
        for a in [true, false] { crate::ck_pack::check_pack(tcx, &ki, a, &mut r2); }
        let g = |n: &str| r2.facts.get(n).and_then(|s| s.parse::<i128>().ok()).unwrap_or(1);
        feats.insert(t, r2.facts.get("features").map_or(vec![], |f| f.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()));
        order.push(name);
        kis.insert(t, (ki, g("align_a"), g("align_b")));
    }
    rep.facts.insert("kernels".into(), order.join(","));
    STRIDED.with(|s| { s.borrow_mut().clear(); s.borrow_mut().insert(c); });
    rep.stat("macro analysis ms", t1 as i128);
    if kis.is_empty() { generic_events(&an, rep, entry); for e in &an.events { if std::env::var("MMSA_DBG").is_ok() { let kk = match &e.k { EvK::Panic { what } => format!("panic {}", what), EvK::Assert { cond, what } => format!("assert {} {}", what, short(*cond)), EvK::NonTerm { .. } => "nonterm".into(), _ => "other".into() }; eprintln!("EVENT {} {} {:?}", func_of(e), kk, conds_of(e).iter().map(|c| short(*c)).collect::<Vec<_>>()); } } rep.push(&["*"], "anchor", entry, "", St::Open, "no kernel call reached".into(), String::new()); return; }
    let mut cs_: Vec<i128> = vec![];
    for (k, _, _) in kis.values() { cs_.extend([k.mr, k.nr, k.kmc, k.kkc, k.knc]); }
    rep.hints = Hints::new(&cs_);
    for n in ["m", "k", "n"] { let _ = n; }
    generic_events(&an, rep, entry);
    if std::env::var("MMSA_EV").is_ok() { for e in &an.events { eprintln!("EV {}", crate::dev::show_event(&an, e)); } }
    features(&an, &feats, rep);
    if level > 0 { evaluate(&an, kis, esz, comps, level, cpu.unwrap_or(""), rep); }
    rep.stat("macro total ms", t0.elapsed().as_millis() as i128);
}
/// a function compiled for an instruction set is only reached where the set was detected
fn features(an: &An, feats: &HashMap<Ty, Vec<String>>, rep: &mut Rep) {
    let ats = cpu_atoms(an);
    let sets = cpu_sets(&ats);
    let mut fe = FE::new(HashMap::new());
    let granted: BTreeSet<String> = an.features.iter().flat_map(|f| implied(f).iter().map(|x| x.to_string()).chain([f.clone()])).collect();
    let mut seen: BTreeSet<(String, String)> = Default::default();
    for e in &an.events {
        let (need, who): (Vec<String>, String) = match &e.k { EvK::Kernel(k) => (feats.get(&k.kty).cloned().unwrap_or_default(), format!("{}::kernel", crate::interp::TyName(k.kty))), EvK::Pack(p) => (feats.get(&p.kty).cloned().unwrap_or_default(), format!("{}::pack", crate::interp::TyName(p.kty))), EvK::FeatCall { callee, feats } => (feats.clone(), callee.clone()), _ => continue };
        rep.stat("instruction-set obligations", 1);
        let mut bad = None;
        for (name, vals) in &sets {
            fe.reset();
            fe.touch();
            for (a, v) in vals { fe.fix(*a, *v as i128); }
            let has: BTreeSet<&str> = an.cpu.iter().flatten().flat_map(|x| implied(x).iter().cloned().chain([x.as_str()])).chain(ats.iter().filter(|x| vals.iter().any(|v| v.0 == x.1 && v.1)).flat_map(|x| implied(&x.0).iter().cloned().chain([x.0.as_str()]))).collect();
            // reachable unless a condition is false for this CPU
            if conds_of(e).iter().any(|c| fe.ev(*c) == Some(0)) { continue; }
            if let Some(f) = need.iter().find(|f| !has.contains(f.as_str()) && !granted.contains(*f)) { bad = Some((f.clone(), name.clone())); break; }
        }
        let key = (who.clone(), format!("{:?}", bad.is_some()));
        if !seen.insert(key) { continue; }
        match bad {
            Some((f, cpu)) => rep.ev(&["C13"], "features-detected", e, St::Refuted, format!("{} needs {} and is reached without it being detected", who, f), format!("CPU with [{}]", cpu)),
            None => rep.ev(&["C13"], "features-detected", e, St::Proved, format!("{} (needs {})", who, need.join(",")), String::new()),
        }
    }
    // some kernel is reached on every CPU
    for (name, vals) in &sets {
        fe.reset();
        fe.touch();
        for (a, v) in vals { fe.fix(*a, *v as i128); }
        let any = an.events.iter().any(|e| matches!(e.k, EvK::Kernel(_)) && !conds_of(e).iter().any(|c| fe.ev(*c) == Some(0)));
        rep.push(&["C13", "C19"], "kernel-on-every-cpu", "dispatch", "", if any { St::Proved } else { St::Refuted }, format!("a kernel is reachable on CPU [{}]", name), if any { String::new() } else { format!("CPU with [{}]", name) });
    }
}
fn evaluate(an: &An, kis: HashMap<Ty, (KInfo, i128, i128)>, esz: i128, comps: i128, level: u32, cpuname: &str, rep: &mut Rep) {
    let t0 = std::time::Instant::now();
    let ats = cpu_atoms(an);
    let sets = cpu_sets(&ats);
    let all: Vec<(i128, i128, i128, i128, i128)> = kis.values().map(|k| (k.0.mr, k.0.nr, k.0.kmc, k.0.kkc, k.0.knc)).collect();
    let mut mac = Mac::new(an, kis, esz, comps);
    if level > 1 { mac.limit = 400; }
    let s1 = ((1 << 20, 1 << 40), (1 << 20, 1 << 40), (1 << 20, 1 << 40));
    let mut done: HashMap<String, u32> = HashMap::new();
    let thr: Vec<i128> = if mac.loads.is_empty() { vec![1] } else { vec![1, 2, 3, 4] };
    let mut ncases = 0;
    let mut sigs: BTreeMap<String, u64> = BTreeMap::new();
    let sets: Vec<(String, Vec<(A, bool)>)> = sets.into_iter().map(|(n, v)| (if n.is_empty() { cpuname.to_string() } else { n }, v)).collect();
    for (cn, cv) in &sets {
        // which kernel does this CPU get?
        let mk = |m: i128, k: i128, n: i128, beta: [i128; 2], t: i128| Case { m, k, n, sa: s1.0, sb: s1.1, sc: s1.2, alpha: [3, if comps > 1 { 5 } else { 0 }], beta, cpu: cv.clone(), cpun: cn.clone(), threads: t, alloc_ok: true, aq: 1 };
        mac.ktypes.clear();
        for t in &thr { mac.case(&mk(all[0].0 + 1, 2, all[0].1 + 1, [7, 0], *t)); mac.case(&mk(200, 300, 200, [7, 0], *t)); }
        let kt: Vec<String> = mac.ktypes.iter().cloned().collect();
        let ktn = kt.join(",");
        if kt.is_empty() && picks_infeasible(&mac) { continue; }
        *done.entry(ktn.clone()).or_default() += 1;
        if done[&ktn] > 1 { continue; }
        let ki = mac.kis.values().find(|k| kt.contains(&k.0.name)).map(|k| (k.0.mr, k.0.nr, k.0.kmc, k.0.kkc, k.0.knc));
        let Some((mr, nr, mc, kc, nc)) = ki else { continue };
        mac.blk = (mr.max(1), nr.max(1), kc.max(1));
        // tiny blocks: small shapes reach every case already
        if kc < 128 { mac.most = if level > 1 { 3000 } else { 800 }; }
        let b7 = [7, if comps > 1 { 11 } else { 0 }];
        let mut sizes: BTreeSet<(i128, i128, i128)> = Default::default();
        for m in uniq(vec![1, mr - 1, mr, mr + 1, 2 * mr, 2 * mr + 1]) { for n in uniq(vec![1, nr - 1, nr, nr + 1, 2 * nr + 1]) { sizes.insert((m, 3, n)); } }
        for k in 1..=9 { sizes.insert((mr + 1, k, nr + 1)); }
        for m in uniq(vec![mc - 1, mc, mc + 1, mc + mr, mc + mr + 1, 2 * mc, 2 * mc + 1, 3 * mc / 2, 3 * mc / 2 + 1, 3 * mc + mr + 1]) { sizes.insert((m, 2, nr + 1)); sizes.insert((m, 1, 1)); }
        for n in uniq(vec![nc - 1, nc, nc + 1, nc + nr + 1, 2 * nc + 1]) { sizes.insert((mr + 1, 2, n)); sizes.insert((1, 1, n)); }
        for k in uniq(vec![kc - 1, kc, kc + 1, 2 * kc - 1, 2 * kc, 2 * kc + 1, 3 * kc + 1]) { sizes.insert((mr + 1, k, nr + 1)); sizes.insert((1, k, 1)); }
        sizes.insert((mc + 1, kc + 1, nr + 1));
        sizes.insert((mr + 1, kc + 1, nc + 1));
        sizes.insert((mc + 1, 1, nc + 1));
        sizes.insert((mc + mr + 1, kc + 1, nc + 1));
        // large enough for every number of workers
        let big: Vec<(i128, i128, i128)> = vec![(130, 300, 300), (97, 512, 97), (3 * mc + 5, 2 * kc + 1, 4 * nr + 3), (2 * mr + 1, 4 * kc, 131), (1, 400, 400), (400, 400, 1), (mc + 1, 2 * kc + 1, nc + nr + 1), (4 * mc, 2 * kc, 4 * nr), (500, 200, 5)];
        for b in &big { sizes.insert(*b); }
        // thresholds that occur in the conditions
        for (d, v) in thresholds(an) { if v <= 1500 { for x in [v - 1, v, v + 1] { if x > 0 { let mut s = (mr + 1, 2, nr + 1); match d { "m" => s.0 = x, "k" => s.1 = x, _ => s.2 = x } sizes.insert(s); } } } }
        let betas: Vec<[i128; 2]> = if comps > 1 { vec![b7, [0, 0], [1, 0], [0, 11], [7, 0]] } else { vec![b7, [0, 0], [1, 0]] };
        for (m, k, n) in &sizes {
            let cost = m * n;
            let sel: Vec<i128> = if an.choice_eqs.is_empty() { vec![1] } else { thr.clone() };
            for b in betas.iter() {
                if cost > 3000 && *b != b7 && *b != [0, 0] { continue; }
                if cost > 40000 && *b != b7 && level < 2 { continue; }
                for t in &sel {
                    let c = mk(*m, *k, *n, *b, *t);
                    let u0 = mac.unknown.values().sum::<u32>();
                    let p0 = mac.probs.len();
                    let r = mac.case(&c);
                    if let Some(sig) = r { ncases += 1; if *b == b7 && mac.unknown.values().sum::<u32>() == u0 && mac.probs.len() == p0 { let key = format!("{} {} {}x{}x{}", ktn, cn, m, k, n); match sigs.get(&key) { None => { sigs.insert(key, sig); } Some(s) if *s == sig => {} Some(_) => mac.prob(&["C11"], "thread-independent", None, format!("operation sequence differs between thread counts for {}", key)) } } if picks_all_one(an) { break; } }
                }
            }
        }
        // empty dimensions
        for (m, k, n) in [(0, 3, 3), (3, 3, 0), (0, 0, 0), (3, 0, 3), (0, 3, 0), (3, 0, 0), (0, 0, 3), (mr + 1, 0, nr + 1), (70, 0, 5), (1, 0, 1)] { for b in &betas { for t in &thr { if mac.case(&mk(m, k, n, *b, *t)).is_some() { ncases += 1; } } } }
        // strides
        let l = 1i128 << 20;
        for (sa, sb, sc) in [((1, l), (1, l), (1, l)), ((l, 1), (l, 1), (l, 1)), ((1, l), (l, 1), (l, 1)), ((l, 1), (1, l), (1, l)), ((-l, l * l), (l, -l * l), (-l, l * l)), ((-1, l), (1, -l), (1, -l)), ((l, -1), (-l, 1), (-l, -1)), ((2 * l, 1), (3, l), (2, l)), ((l * l, l), (l * l, l), (l * l, l))] {
            for (m, k, n) in [(1, 1, 1), (mr, 2, nr), (mr + 1, 2, nr + 1), (2 * mr + 1, 3, nr), (mr, 3, 2 * nr + 1), (mc + 1, 2, 1), (1, kc + 1, nr), (130, 256, 200)] { for b in [b7, [0, 0]] { for t in &thr {
                let mut c = mk(m, k, n, b, *t);
                c.sa = sa; c.sb = sb; c.sc = sc;
                if mac.case(&c).is_some() { ncases += 1; if picks_all_one(an) { break; } }
            } } }
        }
        // scalars, addresses, allocation failure
        for (al, be) in [([0, 0], b7), ([1, 0], b7), ([1, 0], [0, 0]), ([0, 0], [0, 0]), ([0, 0], [1, 0]), ([-1, 0], [-1, 0]), ([1, 0], [1, 0])] { for (m, k, n) in [(mr, 2, nr), (mr + 1, kc + 1, nr + 1), (3, 0, 3)] { let mut c = mk(m, k, n, be, thr[0]); c.alpha = al; if mac.case(&c).is_some() { ncases += 1; } } }
        if comps > 1 { for al in [[0, 5], [0, 0], [3, 0]] { let mut c = mk(mr + 1, 2, nr + 1, b7, thr[0]); c.alpha = al; if mac.case(&c).is_some() { ncases += 1; } } }
        for aq in [2, 3, 4, 5] { for (m, k, n) in [(mr + 1, 3, nr + 1), (130, 300, 300), (mc + 1, 2, 1)] { for t in &thr { let mut c = mk(m, k, n, b7, *t); c.aq = aq; if mac.case(&c).is_some() { ncases += 1; if picks_all_one(an) { break; } } } } }
        for (m, k, n) in [(mr + 1, 3, nr + 1), (130, 300, 300), (0, 3, 3), (3, 0, 3)] { for t in &thr { let mut c = mk(m, k, n, b7, *t); c.alloc_ok = false; if mac.case(&c).is_some() { ncases += 1; } } }
        rep.facts.insert(format!("cpu {}", cn), ktn.clone());
    }
    ncases += directed(an, &mut mac, &sets, &thr, comps, rep, t0);
    for (k, v) in &sigs { rep.facts.insert(format!("sig {}", k), format!("{:x}", v)); }
    let un: u32 = mac.ran.iter().zip(&an.events).filter(|(r, e)| **r == 0 && !matches!(e.k, EvK::Audit { .. } | EvK::Assert { .. } | EvK::Underflow { .. } | EvK::FeatCall { .. })).count() as u32;
    rep.stat("valuations", ncases);
    rep.stat("valuations left out as too large", mac.skipped as i128);
    rep.stat("event instances", mac.ninst as i128);
    rep.stat("events never instantiated", un as i128);
    rep.stat("infeasible valuations", mac.infeasible as i128);
    for (k, v) in &mac.unknown { rep.notes.insert(format!("valuation abandoned: {}", k), *v); }
    let wc: BTreeSet<i128> = an.choice_log.iter().flat_map(|c| c.1.iter().cloned()).collect();
    rep.facts.insert("worker counts".into(), wc.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    for (k, v) in &mac.checks { rep.stat(&format!("checked {}", k), *v as i128); }
    for p in mac.probs.values() { let ps: Vec<&str> = p.props.iter().map(|s| s.as_str()).collect(); rep.push(&ps, &p.rule, &p.at, &p.span, St::Refuted, format!("{} ({} times)", p.what, p.n), p.wit.clone()); }
}
fn exprs_of(e: &Event, out: &mut BTreeSet<A>) {
    fn sc(s: &Sc, out: &mut BTreeSet<A>) { match s { Sc::N(p) => deep_atoms(*p, out), Sc::Ptr(v) => for (g, _, o) in v.iter() { deep_atoms(*g, out); deep_atoms(*o, out); }, _ => {} } }
    for l in &e.ctx { deep_atoms(l.count, out); }
    for c in conds_of(e) { deep_atoms(c, out); }
    match &e.k {
        EvK::Read { off, guard, .. } => { deep_atoms(*off, out); deep_atoms(*guard, out); }
        EvK::Write { off, guard, vals, .. } => { deep_atoms(*off, out); deep_atoms(*guard, out); for v in vals { sc(&v.2, out); } }
        EvK::Kernel(k) => { deep_atoms(k.k, out); for v in k.alpha.iter().chain(&k.beta) { sc(&v.sc, out); } for p in [&k.a, &k.b, &k.c] { sc(p, out); } }
        EvK::Pack(p) => { for x in [p.kc, p.mc, p.rs, p.cs, p.dlen] { deep_atoms(x, out); } sc(&p.dst, out); sc(&p.src, out); }
        EvK::Alloc { size, align, .. } => { deep_atoms(*size, out); deep_atoms(*align, out); }
        EvK::Dealloc { ptr, size, align } => { sc(ptr, out); deep_atoms(*size, out); deep_atoms(*align, out); }
        _ => {}
    }
}
/// valuations chosen from the conditions of the summary: every event under every class of beta, and both
/// outcomes of every condition that occurs in a path, an offset, a bound or a value
fn directed(an: &An, mac: &mut Mac, sets: &[(String, Vec<(A, bool)>)], thr: &[i128], comps: i128, rep: &mut Rep, t0: std::time::Instant) -> i128 {
    let h = rep.hints.clone();
    let mut n = 0;
    let mut tried = 0;
    let mut missed = 0;
    let skip = |e: &Event| matches!(e.k, EvK::Audit { .. } | EvK::Assert { .. } | EvK::Underflow { .. } | EvK::FeatCall { .. } | EvK::NonTerm { .. } | EvK::Pool { .. } | EvK::Peek { .. } | EvK::Force { .. }) || matches!(&e.k, EvK::Extern { name } if !name.ends_with("_contended")) || e.path.facts.dead;
    let mut goals: Vec<(usize, Vec<P>, Option<(A, bool)>, u8)> = vec![];
    let mut byatom: BTreeMap<A, Vec<usize>> = Default::default();
    for (ix, e) in an.events.iter().enumerate() {
        if skip(e) { continue; }
        let mut s = BTreeSet::new();
        exprs_of(e, &mut s);
        for a in s { if matches!(ad(a), AD::Ge0(_) | AD::Eq0(_) | AD::FEq0(_) | AD::FLt0(_) | AD::NDvd(..)) { let v = byatom.entry(a).or_default(); if v.len() < 3 { v.push(ix); } } }
        for class in 0..3u8 { goals.push((ix, conds_of(e), None, class)); }
    }
    for (a, v) in &byatom { for ix in v { for val in [false, true] { for class in [1u8, 0] {
        let mut cs = conds_of(&an.events[*ix]);
        // a condition of the path itself: keep what precedes it
        if let Some(p) = cs.iter().position(|c| { let mut s = BTreeSet::new(); deep_atoms(*c, &mut s); s.contains(a) }) { cs.truncate(p); }
        let x = pa(*a);
        cs.push(if val { x } else { not(x) });
        goals.push((*ix, cs, Some((*a, val)), class));
    } } } }
    let mut divs: BTreeMap<A, usize> = Default::default();
    for (ix, e) in an.events.iter().enumerate() { if skip(e) { continue; } let mut s = BTreeSet::new(); exprs_of(e, &mut s); for a in s { if let AD::Div(..) = ad(a) { divs.entry(a).or_insert(ix); } } }
    for (a, ix) in divs {
        if std::env::var("MMSA_DBG").is_ok() { eprintln!("DIVGOAL {}", show_atom(a)); }
        let AD::Div(x, y) = ad(a) else { continue };
        // a quotient that is zero everywhere would hide what happens beyond the first wrap-around
        for g in [ge0(sub(*x, *y)), ge0(addk(sub(*x, scale(*y, 2)), -1))] { let mut cs = conds_of(&an.events[ix]); if cst(g).is_some() { continue; } cs.push(g); goals.push((ix, cs, Some((a, true)), 1)); }
    }
    rep.stat("directed goals", goals.len() as i128);
    for (ix, conds, at, class) in goals {
        let bit = match at { Some((a, v)) => { mac.fe.grow(a); mac.fe.seen[a.0 as usize] >> (2 * class + v as u8) & 1 == 1 } None => mac.ranc[ix] >> class & 1 == 1 };
        if bit { continue; }
        if t0.elapsed().as_secs() > 150 || tried > 1500 { rep.notes.insert("directed valuations cut short".into(), 1); break; }
        tried += 1;
        let e = &an.events[ix];
        let mut cs: Vec<P> = vec![];
        for l in &e.ctx { cs.push(ge0(addk(sub(l.count, pa(l.lvar)), -1))); }
        cs.extend(conds.iter().cloned());
        if conds.iter().any(|c| cst(*c) == Some(0)) { continue; }
        let mut hit = false;
        for seed in 1..=6u64 {
            let mut v = Env::new(&h, seed * 104729 + ix as u64);
            for (i, a) in mac.beta.iter().enumerate() { v.set(*a, match class { 0 => 0, 2 => (i == 0) as i128, _ => 7 + 4 * i as i128 }); }
            for (i, a) in mac.alpha.iter().enumerate() { v.set(*a, 3 + 2 * i as i128); }
            for l in &e.ctx { v.set(l.lvar, (seed as i128 - 1) % 3); }
            for a in &mac.loads { v.set(*a, *thr.last().unwrap()); }
            for x in ["rs", "cs"] { for y in ["a", "b", "c"] { let s: String = format!("{}{}", x, y); let a = atoms_of(isym(&s))[0]; v.set(a, if x == "rs" { 1 << 20 } else { 1 << 40 }); } }
            if seed > 2 { for d in ["m", "k", "n"] { let a = mac.atoms[d]; let r = v.rnd() as usize % 12; v.set(a, [1, 2, 3, 5, 9, 17, 33, 65, 70, 130, 300, 600][r]); } }
            let cpu = &sets[seed as usize % sets.len()].1;
            for (a, b) in cpu { v.vals.insert(*a, *b as i128); }
            v.late = seed % 2 == 0;
            if !v.repair(&cs) { continue; }
            // smaller sizes where the conditions leave them free
            for d in ["n", "k", "m"] {
                let a = mac.atoms[d];
                let Some(x) = v.vals.get(&a).cloned() else { continue };
                let dims: i128 = ["m", "k", "n"].iter().map(|d| v.vals.get(&mac.atoms[*d]).cloned().unwrap_or(3)).product();
                if dims < 100_000 { break; }
                for y in [1, 2, 3, 5, 9, 17, 33] { if y >= x { break; } v.set(a, y); if cs.iter().all(|c| v.ev(*c).map_or(false, |x| x != 0)) { break; } v.set(a, x); }
            }
            // beta keeps its class
            let bv: Vec<i128> = mac.beta.iter().map(|a| v.vals.get(a).cloned().unwrap_or(7)).collect();
            let cls = if bv.iter().all(|x| *x == 0) { 0 } else if bv[0] == 1 && bv[1..].iter().all(|x| *x == 0) { 2 } else { 1 };
            if cls != class { continue; }
            let g = |a: A, d: i128| v.vals.get(&a).cloned().unwrap_or(d);
            let (m, k, nn) = (g(mac.atoms["m"], 3), g(mac.atoms["k"], 2), g(mac.atoms["n"], 3));
            if m * nn > 150000 || k > 5000 || m * nn * (k / 64 + 1) > 400000 { continue; }
            let st = |r: &'static str, c: &'static str| {
                let (x, y) = (g(mac.atoms[r], 1 << 20), g(mac.atoms[c], 1 << 40));
                // keep the addressing injective: a stride that no condition constrains is moved out of the way
                if y == 1 << 40 || x == 1 << 20 || x.abs() >= 1 << 19 || y.abs() >= 1 << 19 { if x.abs() < 1 << 19 && y == 1 << 40 { (x, 1 << 40) } else if x == 1 << 20 && y.abs() < 1 << 19 { (1 << 40, y) } else { (x, y) } } else { (x, y) } };
            let (sa, sb, sc) = (st("rsa", "csa"), st("rsb", "csb"), st("rsc", "csc"));
            if !injective(sa, m, k) || !injective(sb, k, nn) || !injective(sc, m, nn) { continue; }
            let f2 = |v: Vec<i128>| { let mut r = [0, 0]; for (i, x) in v.iter().enumerate() { r[i] = *x; } r };
            let al = f2(mac.alpha.iter().map(|a| g(*a, 3)).collect());
            let be = f2(bv);
            let _ = comps;
            let t = mac.loads.first().map_or(1, |a| g(*a, thr[0]));
            for (cn, cv) in sets {
                if cv.iter().any(|(a, b)| v.vals.get(a).map_or(false, |x| (*x != 0) != *b)) { continue; }
                for t in thr.iter().cloned().filter(|x| *x == t).chain(thr.iter().cloned().filter(|x| *x != t)) {
                    if mac.case(&Case { m, k, n: nn, sa, sb, sc, alpha: al, beta: be, cpu: cv.clone(), cpun: cn.clone(), threads: t, alloc_ok: true, aq: 1 }).is_some() { n += 1; break; }
                }
            }
            let bit = match at { Some((a, v)) => mac.fe.seen[a.0 as usize] >> (2 * class + v as u8) & 1 == 1, None => mac.ranc[ix] >> class & 1 == 1 };
            if bit { hit = true; break; }
        }
        if !hit { missed += 1; if std::env::var("MMSA_DBG").is_ok() { eprintln!("MISSED class {} {:?} {} {:?}", class, at.map(|a| (show_atom(a.0), a.1)), func_of(e), cs.iter().map(|c| short(*c)).collect::<Vec<_>>()); } }
    }
    rep.stat("directed goals tried", tried);
    rep.stat("directed goals missed", missed);
    n
}
/// constants that values left behind by earlier calls are compared with
fn hconsts(an: &An) -> Vec<i128> {
    let syms: BTreeSet<A> = an.events.iter().filter_map(|e| if let EvK::Peek { sym, .. } = e.k { Some(sym) } else { None }).collect();
    if syms.is_empty() { return vec![]; }
    let mut s = BTreeSet::new();
    for e in &an.events { exprs_of(e, &mut s); for c in conds_of(e) { deep_atoms(c, &mut s); } }
    let mut out = BTreeSet::new();
    for a in s {
        let p = match ad(a) { AD::Ge0(p) | AD::Eq0(p) | AD::Max0(p) => *p, _ => continue };
        let t = terms_ref(p);
        if t.len() != 2 || t[0].0 != M(0) || t[1].1.abs() != 1 || mono_len(t[1].0) != 1 || !syms.contains(&mono_ref(t[1].0)[0]) { continue; }
        let v = -t[0].1 * t[1].1;
        for x in [v - 1, v, v + 1] { if x > 0 && x < 5000 { out.insert(x); } }
    }
    out.into_iter().take(12).collect()
}
/// no two elements of an r x c matrix share an address
fn injective(s: (i128, i128), r: i128, c: i128) -> bool {
    let (x, y) = (s.0.abs(), s.1.abs());
    if r <= 1 && c <= 1 { return true; }
    if r <= 1 { return y != 0; }
    if c <= 1 { return x != 0; }
    if x == 0 || y == 0 { return false; }
    let ((s1, n1), (s2, _)) = if x <= y { ((x, r), (y, c)) } else { ((y, c), (x, r)) };
    s2 >= s1 * n1
}
fn picks_all_one(an: &An) -> bool { an.choice_eqs.iter().all(|c| c.2 == 1) }
fn picks_infeasible(m: &Mac) -> bool { m.infeasible > 0 }
/// sizes at which a condition on one dimension changes
fn thresholds(an: &An) -> Vec<(&'static str, i128)> {
    let mut s = BTreeSet::new();
    for e in &an.events { for c in conds_of(e) { deep_atoms(c, &mut s); } for l in &e.ctx { deep_atoms(l.count, &mut s); } }
    let dims: Vec<(&'static str, A)> = ["m", "k", "n"].iter().map(|n| (*n, atoms_of(sym(n))[0])).collect();
    let mut out = BTreeSet::new();
    for a in s {
        let p = match ad(a) { AD::Ge0(p) | AD::Eq0(p) | AD::Max0(p) | AD::Let(p) => *p, _ => continue };
        let t = terms_ref(p);
        if t.len() != 2 || t[0].0 != M(0) || t[1].1.abs() != 1 || mono_len(t[1].0) != 1 { continue; }
        let x = mono_ref(t[1].0)[0];
        if let Some((n, _)) = dims.iter().find(|d| d.1 == x) { let v = -t[0].1 * t[1].1; if v > 0 { out.insert((*n, v)); } }
    }
    out.into_iter().collect()
}

pub fn entry_args(tcx: Tcx, an: &mut An, entry: &str) -> Option<(rustc_public::mir::mono::Instance, Vec<Val>, i128, i128)> {
    let mut inst = None;
    for f in rustc_public::local_crate().fn_defs() { use rustc_public::CrateDef; if f.name().ends_with(&format!("::{}", entry)) && tcx.generics_of(rustc_public::rustc_internal::internal(tcx, f.def_id())).count() == 0 { if let Ok(i) = rustc_public::mir::mono::Instance::resolve(f, &rustc_public::ty::GenericArgs(vec![])) { inst = Some(i); } } }
    let inst = inst?;
    let base = ["m", "k", "n", "alpha", "a", "rsa", "csa", "b", "rsb", "csb", "beta", "c", "rsc", "csc"];
    let nargs = an.fninfo(inst)?.body.arg_locals().len();
    let mut names: Vec<&str> = vec![];
    let flags = ["flaga", "flagb", "flagc"];
    for i in 0..nargs.saturating_sub(14) { names.push(flags[i.min(2)]); }
    names.extend(base);
    let args = named_args(an, inst, &names)?;
    let x = &args[names.len() - 11];
    let (comps, csz) = (x.len() as i128, x[0].size as i128);
    Some((inst, args, comps * csz, comps))
}
/// the instruction sets an entry point asks about: one analysis of the call with all dimensions zero
pub fn cpu_list(tcx: Tcx, entry: &str) -> Option<Vec<String>> {
    let mut an = An::new(tcx);
    let (inst, mut args, _, _) = entry_args(tcx, &mut an, entry)?;
    let n = args.len() - 14;
    for i in 0..3 { args[n + i] = vn(ZERO, 8); }
    an.boundary = true;
    let st = State { frames: vec![], logs: Default::default(), path: root_path(crate::prove::Facts::new()) };
    an.cpu_log.borrow_mut().clear();
    an.exec_fn(inst, args, st);
    let ats: Vec<(String, A)> = an.cpu_log.borrow().iter().map(|f| (f.clone(), atom(AD::BSym(format!("cpu:{}", f))))).collect();
    Some(cpu_sets(&ats).into_iter().map(|x| x.0).collect())
}
