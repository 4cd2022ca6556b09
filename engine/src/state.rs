//! Abstract machine state: byte-addressed locals, region write logs, guarded path facts.
use crate::expr::*;
use crate::prove::Facts;
use rustc_public::mir::mono::Instance;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Base = u32;
pub const LOCAL: u32 = 1 << 31;
pub const NULLB: Base = 0;
pub fn local_base(depth: usize, l: usize) -> Base { LOCAL | ((depth as u32) << 14) | l as u32 }
pub fn is_local(b: Base) -> bool { b & LOCAL != 0 }
pub fn local_of(b: Base) -> (usize, usize) { (((b & !LOCAL) >> 14) as usize, (b & 0x3fff) as usize) }

#[derive(Clone, PartialEq, Debug)]
pub enum Sc {
    N(P),
    Ptr(Rc<Vec<(P, Base, P)>>),
    Fn(Instance),
    Undef,
}
impl Sc {
    pub fn ptr(b: Base, off: P) -> Sc { Sc::Ptr(Rc::new(vec![(one(), b, off)])) }
    pub fn map_off(&self, f: &dyn Fn(P) -> P) -> Sc {
        match self { Sc::Ptr(v) => norm_ptr(v.iter().map(|(g, b, o)| (*g, *b, f(*o))).collect()), x => x.clone() }
    }
    pub fn subst(&self, h: &HashMap<A, P>) -> Sc {
        match self {
            Sc::N(p) => Sc::N(subst(*p, h)),
            Sc::Ptr(v) => norm_ptr(v.iter().map(|(g, b, o)| (subst(*g, h), *b, subst(*o, h))).collect()),
            x => x.clone(),
        }
    }
}
pub fn norm_ptr(v: Vec<(P, Base, P)>) -> Sc {
    let mut o: Vec<(P, Base, P)> = vec![];
    for (g, b, f) in v {
        if g == ZERO { continue; }
        if let Some(x) = o.iter_mut().find(|x| x.1 == b) {
            if x.2 == f { x.0 = add(x.0, g); continue; }
            let tot = add(x.0, g);
            if tot == one() { x.2 = gsel(x.0, x.2, f); x.0 = tot; continue; }
        }
        o.push((g, b, f));
    }
    Sc::Ptr(Rc::new(o))
}
/// guarded choice with min/max recognition
pub fn gsel(g: P, a: P, b: P) -> P {
    if a == b { return a; }
    if let Some(c) = cst(g) { return if c != 0 { a } else { b }; }
    let d = sub(a, b);
    let t = terms(g);
    let simple = t.len() <= 2 && t.iter().all(|(m, _)| mono(*m).len() <= 1 && mono(*m).iter().all(|x| matches!(ad(*x), AD::Ge0(_))));
    if simple {
        if ge0(d) == g || ge0(addk(d, -1)) == g { return add(b, max0(d)); }
        let nd = neg(d);
        if ge0(nd) == g || ge0(addk(nd, -1)) == g { return sub(b, max0(nd)); }
    }
    sel(g, a, b)
}
pub fn merge_sc(g: P, a: &Sc, b: &Sc) -> Sc {
    if a == b { return a.clone(); }
    match (a, b) {
        (Sc::Undef, x) | (x, Sc::Undef) => x.clone(),
        (Sc::N(x), Sc::N(y)) => Sc::N(gsel(g, *x, *y)),
        (Sc::Ptr(x), Sc::Ptr(y)) => {
            let ng = not(g);
            let mut v: Vec<_> = x.iter().map(|(h, b, o)| (mul(g, *h), *b, *o)).collect();
            v.extend(y.iter().map(|(h, b, o)| (mul(ng, *h), *b, *o)));
            norm_ptr(v)
        }
        (Sc::Ptr(_), Sc::N(n)) => merge_sc(g, a, &Sc::ptr(NULLB, *n)),
        (Sc::N(n), Sc::Ptr(_)) => merge_sc(g, &Sc::ptr(NULLB, *n), b),
        _ => Sc::Undef,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Cell { pub off: u32, pub tag: u16, pub size: u32, pub sc: Sc }
pub type Val = Vec<Cell>;
pub fn vn(p: P, size: u32) -> Val { vec![Cell { off: 0, tag: 0, size, sc: Sc::N(p) }] }
pub fn vsc(sc: Sc, size: u32) -> Val { vec![Cell { off: 0, tag: 0, size, sc }] }

#[derive(Clone, Default, Debug)]
pub struct Obj { pub cells: Vec<Cell> }
impl Obj {
    pub fn clear_range(&mut self, off: u32, size: u32, keep: &[(u32, u16)]) {
        let end = off + size;
        self.cells.retain(|c| {
            if c.tag == 0 { c.off + c.size <= off || c.off >= end || c.size == 0 }
            else { c.off < off || c.off >= end.max(off + 1) || keep.contains(&(c.off, c.tag)) }
        });
    }
    pub fn put(&mut self, off: u32, c: Cell) {
        let c = Cell { off: c.off + off, ..c };
        let i = self.cells.partition_point(|x| (x.off, x.tag, x.size) < (c.off, c.tag, c.size));
        if i < self.cells.len() && (self.cells[i].off, self.cells[i].tag, self.cells[i].size) == (c.off, c.tag, c.size) { self.cells[i] = c; } else { self.cells.insert(i, c); }
    }
    pub fn write(&mut self, off: u32, size: u32, v: &Val, keep: &[(u32, u16)]) {
        self.clear_range(off, size, keep);
        for c in v { self.put(off, c.clone()); }
    }
    pub fn read(&self, off: u32, size: u32, excl: &[(u32, u16)]) -> Val {
        let end = off + size;
        let mut o = vec![];
        for c in &self.cells {
            if c.off < off || c.off >= end { continue; }
            if c.tag == 0 { if c.off + c.size <= end { o.push(Cell { off: c.off - off, ..c.clone() }); } }
            else if !excl.contains(&(c.off, c.tag)) { o.push(Cell { off: c.off - off, ..c.clone() }); }
        }
        o
    }
}
#[derive(Clone)]
pub struct Frame { pub objs: Vec<Rc<Obj>>, pub who: Option<Instance> }
thread_local! { pub static MIXED: std::cell::Cell<u32> = Default::default(); }

pub struct PathNode { pub parent: Option<Rc<PathNode>>, pub depth: u32, pub cond: P, pub facts: Rc<Facts> }
pub type Path = Rc<PathNode>;
pub fn root_path(f: Facts) -> Path { Rc::new(PathNode { parent: None, depth: 0, cond: one(), facts: Rc::new(f) }) }
pub fn push_path(p: &Path, cond: P, facts: Facts) -> Path { Rc::new(PathNode { parent: Some(p.clone()), depth: p.depth + 1, cond, facts: Rc::new(facts) }) }
pub fn lca(a: &Path, b: &Path) -> Path {
    let (mut a, mut b) = (a.clone(), b.clone());
    while a.depth > b.depth { let n = a.parent.clone().unwrap(); a = n; }
    while b.depth > a.depth { let n = b.parent.clone().unwrap(); b = n; }
    while !Rc::ptr_eq(&a, &b) { let (x, y) = (a.parent.clone().unwrap(), b.parent.clone().unwrap()); a = x; b = y; }
    a
}
/// conditions from `n` (exclusive) down to `p`
pub fn suffix(p: &Path, n: &Path) -> Vec<P> {
    let mut v = vec![];
    let mut x = p.clone();
    while !Rc::ptr_eq(&x, n) {
        if x.cond != one() { v.push(x.cond); }
        let y = match &x.parent { Some(y) => y.clone(), None => break };
        x = y;
    }
    v.reverse();
    v
}
pub fn guard_since(p: &Path, n: &Path) -> P { suffix(p, n).into_iter().fold(one(), mul) }

#[derive(Clone)]
pub enum Ent {
    Store { off: P, size: u32, val: Sc, guard: P },
    /// output tile of kernel call `id`: elements at off + i*rs + j*cs
    Tile { id: u32, off: P, rs: P, cs: P, mr: u32, nr: u32, esz: u32, guard: P },
    /// packed panel data written by pack call `id`
    Pack { id: u32, off: P, len: P, guard: P },
    /// `count` iterations of a summarised loop
    Loop { id: u32, lvar: A, count: P, ents: Rc<Vec<Ent>>, guard: P },
    /// marker inside a loop body: earlier iterations may have written here
    Prev { id: u32 },
    Havoc,
}
pub struct LogNode { pub prev: Log, pub depth: u32, pub ent: Ent }
pub type Log = Option<Rc<LogNode>>;
pub fn log_depth(l: &Log) -> u32 { l.as_ref().map_or(0, |x| x.depth) }
pub fn log_push(l: &Log, e: Ent) -> Log { Some(Rc::new(LogNode { prev: l.clone(), depth: log_depth(l) + 1, ent: e })) }
pub fn log_same(a: &Log, b: &Log) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => Rc::ptr_eq(x, y), _ => false } }
pub fn log_suffix(l: &Log, upto: &Log) -> Vec<Ent> {
    let mut v = vec![];
    let mut x = l.clone();
    while !log_same(&x, upto) { match &x { Some(n) => { v.push(n.ent.clone()); let p = n.prev.clone(); x = p; } None => break } }
    v.reverse();
    v
}
pub fn log_lca(a: &Log, b: &Log) -> Log {
    let (mut a, mut b) = (a.clone(), b.clone());
    while log_depth(&a) > log_depth(&b) { let n = a.as_ref().unwrap().prev.clone(); a = n; }
    while log_depth(&b) > log_depth(&a) { let n = b.as_ref().unwrap().prev.clone(); b = n; }
    while !log_same(&a, &b) { let (x, y) = (a.as_ref().unwrap().prev.clone(), b.as_ref().unwrap().prev.clone()); a = x; b = y; }
    a
}
pub fn guard_ent(e: Ent, g: P) -> Ent {
    match e {
        Ent::Store { off, size, val, guard } => Ent::Store { off, size, val, guard: mul(guard, g) },
        Ent::Tile { id, off, rs, cs, mr, nr, esz, guard } => Ent::Tile { id, off, rs, cs, mr, nr, esz, guard: mul(guard, g) },
        Ent::Pack { id, off, len, guard } => Ent::Pack { id, off, len, guard: mul(guard, g) },
        Ent::Loop { id, lvar, count, ents, guard } => Ent::Loop { id, lvar, count, ents, guard: mul(guard, g) },
        x => x,
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub logs: Rc<BTreeMap<Base, Log>>,
    pub path: Path,
}
impl State {
    pub fn facts(&self) -> &Facts { &self.path.facts }
    pub fn obj(&self, b: Base) -> Option<&Obj> { let (d, l) = local_of(b); self.frames.get(d).and_then(|f| f.objs.get(l)).map(|x| &**x) }
    pub fn obj_mut(&mut self, b: Base) -> Option<&mut Obj> {
        let (d, l) = local_of(b);
        let f = Rc::make_mut(self.frames.get_mut(d)?);
        f.objs.get_mut(l).map(Rc::make_mut)
    }
    pub fn log(&self, b: Base) -> Log { self.logs.get(&b).cloned().unwrap_or(None) }
    pub fn push_log(&mut self, b: Base, e: Ent) { let l = self.log(b); Rc::make_mut(&mut self.logs).insert(b, log_push(&l, e)); }
    /// take a branch; None when the condition contradicts what is known
    pub fn assume(mut self, c: P) -> Option<State> {
        match self.facts().decide(c) {
            Some(true) => Some(self),
            Some(false) => None,
            None => {
                let mut f = (**self.path_facts()).clone();
                f.assume(c, true);
                if f.dead { return None; }
                self.path = push_path(&self.path, c, f);
                Some(self)
            }
        }
    }
    pub fn path_facts(&self) -> &Rc<Facts> { &self.path.facts }
    /// add knowledge that is not a branch condition
    pub fn know(&mut self, f: impl FnOnce(&mut Facts)) {
        let mut x = (**self.path_facts()).clone();
        f(&mut x);
        self.path = push_path(&self.path, one(), x);
    }
}
pub fn merge_all(mut v: Vec<State>) -> Option<State> {
    if v.is_empty() { return None; }
    while v.len() > 1 {
        let mut best = (0, 1, 0u32);
        let mut first = true;
        for i in 0..v.len() { for j in i + 1..v.len() {
            let d = lca(&v[i].path, &v[j].path).depth;
            if first || d > best.2 { best = (i, j, d); first = false; }
        } }
        let b = v.remove(best.1);
        let a = v.remove(best.0);
        v.insert(best.0, merge2(a, b));
    }
    v.pop()
}
pub fn merge_guard(a: &Path, b: &Path) -> (P, Path) {
    let n = lca(a, b);
    let (sa, sb) = (suffix(a, &n), suffix(b, &n));
    let g = if sa.is_empty() && sb.is_empty() { one() }
        else if sa.is_empty() { not(sb.into_iter().fold(one(), mul)) }
        else if sb.is_empty() { sa.into_iter().fold(one(), mul) }
        else if add(sa[0], sb[0]) == one() || mul(sa[0], sb[0]) == ZERO { sa[0] }
        else { sa.into_iter().fold(one(), mul) };
    (g, n)
}
pub fn merge2(a: State, b: State) -> State {
    let (g, n) = merge_guard(&a.path, &b.path);
    let n0 = n.clone();
    let nf = a.frames.len().min(b.frames.len());
    let mut frames = Vec::with_capacity(nf);
    for d in 0..nf {
        if Rc::ptr_eq(&a.frames[d], &b.frames[d]) { frames.push(a.frames[d].clone()); continue; }
        let (fa, fb) = (&a.frames[d], &b.frames[d]);
        let mut objs = Vec::with_capacity(fa.objs.len());
        for l in 0..fa.objs.len() {
            if Rc::ptr_eq(&fa.objs[l], &fb.objs[l]) { objs.push(fa.objs[l].clone()); continue; }
            objs.push(Rc::new(merge_obj(g, &fa.objs[l], &fb.objs[l])));
        }
        frames.push(Rc::new(Frame { objs, who: a.frames[d].who }));
    }
    let logs = if Rc::ptr_eq(&a.logs, &b.logs) { a.logs.clone() } else {
        let mut m = BTreeMap::new();
        let keys: std::collections::BTreeSet<Base> = a.logs.keys().chain(b.logs.keys()).cloned().collect();
        for kk in keys {
            let (la, lb) = (a.log(kk), b.log(kk));
            if log_same(&la, &lb) { m.insert(kk, la); continue; }
            let c = log_lca(&la, &lb);
            let mut o = c.clone();
            for e in log_suffix(&la, &c) { o = log_push(&o, guard_ent(e, g)); }
            for e in log_suffix(&lb, &c) { o = log_push(&o, guard_ent(e, not(g))); }
            m.insert(kk, o);
        }
        Rc::new(m)
    };
    // knowledge that holds on both sides survives
    let path = {
        let (fa, fb) = (a.facts(), b.facts());
        let base = &n.facts;
        let extra: Vec<P> = fa.ge.iter().filter(|x| !base.ge.contains(x) && fb.ge.contains(x)).cloned().collect();
        let subs: Vec<(A, P)> = fa.sub.iter().filter(|(x, v)| base.sub.get(x) != Some(v) && fb.sub.get(x) == Some(v)).map(|(x, v)| (*x, *v)).collect();
        if extra.is_empty() && subs.is_empty() { n } else {
            let mut f = (**base).clone();
            for (x, v) in subs { f.add_sub(x, v); }
            for e in extra { f.add_ge(e); }
            push_path(&n, one(), f)
        }
    };
    let path = {
        let (sa, sb) = (suffix(&a.path, &n0), suffix(&b.path, &n0));
        let both = add(sa.into_iter().fold(one(), mul), sb.into_iter().fold(one(), mul));
        if both == one() || nterms(both) > 40 || cst(both).is_some() { path } else { let f = (**path_facts_of(&path)).clone(); push_path(&path, both, f) }
    };
    State { frames, logs, path }
}
fn path_facts_of(p: &Path) -> &Rc<Facts> { &p.facts }
pub fn merge_obj(g: P, a: &Obj, b: &Obj) -> Obj {
    let mut o = Vec::with_capacity(a.cells.len().max(b.cells.len()));
    let (mut i, mut j) = (0, 0);
    let key = |c: &Cell| (c.off, c.tag, c.size);
    while i < a.cells.len() || j < b.cells.len() {
        if j >= b.cells.len() || (i < a.cells.len() && key(&a.cells[i]) < key(&b.cells[j])) { o.push(a.cells[i].clone()); i += 1; }
        else if i >= a.cells.len() || key(&b.cells[j]) < key(&a.cells[i]) { o.push(b.cells[j].clone()); j += 1; }
        else { let c = &a.cells[i]; o.push(Cell { sc: merge_sc(g, &c.sc, &b.cells[j].sc), ..c.clone() }); i += 1; j += 1; }
    }
    // the same bytes held as pieces of different sizes on the two sides: no common value
    if o.len() > a.cells.len() || o.len() > b.cells.len() {
        let mut bad: Vec<usize> = vec![];
        for x in 0..o.len() { if o[x].tag != 0 { continue; } let mut y = x + 1; while y < o.len() && o[y].off < o[x].off + o[x].size { if o[y].tag == 0 && o[y].size > 0 { bad.push(x); bad.push(y); } y += 1; } }
        if !bad.is_empty() { MIXED.with(|m| m.set(m.get() + 1)); for i in bad { o[i].sc = Sc::Undef; } }
    }
    Obj { cells: o }
}
pub fn merge_val(g: P, a: &Val, b: &Val) -> Val { merge_obj(g, &Obj { cells: sorted(a) }, &Obj { cells: sorted(b) }).cells }
fn sorted(v: &Val) -> Vec<Cell> { let mut c = v.clone(); c.sort_by_key(|c| (c.off, c.tag, c.size)); c }

#[derive(Clone, Debug, PartialEq)]
pub enum BK { Null, Ext, Heap, Tls, Static, Const, Opaque }
#[derive(Clone, Debug)]
pub struct BaseInfo { pub name: String, pub kind: BK, pub align: u64, pub size: Option<P>, pub alloc: Option<rustc_public::ty::Allocation> }
