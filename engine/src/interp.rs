//! Abstract interpretation of monomorphic MIR: gated joins, summarised loops, inlined calls.
use crate::expr::*;
use crate::prove::Facts;
use crate::state::*;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::AllocId;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type Tcx = rustc_middle::ty::TyCtxt<'static>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LK { Int(bool), Float, Ptr }
#[derive(Clone, Debug)]
pub struct Leaf { pub off: u32, pub size: u32, pub kind: LK }

pub struct LoopInfo { pub header: usize, pub blocks: HashSet<usize>, pub parent: Option<usize>, pub assigned: Vec<usize>, pub exits: Vec<(usize, usize)> }
pub struct FnInfo {
    pub inst: Instance,
    pub body: Body,
    pub name: String,
    pub local: bool,
    pub rpo: Vec<usize>,
    pub loops: Vec<LoopInfo>,
    pub loop_of: Vec<Option<usize>>,
    pub header_of: HashMap<usize, usize>,
    pub doomed: Vec<bool>,
    pub live: Vec<Vec<bool>>,
    pub addr_taken: Vec<bool>,
    pub nargs: usize,
    pub feats: Vec<String>,
}
#[derive(Clone)]
pub struct LoopCtx { pub id: u32, pub lvar: A, pub count: P }
#[derive(Clone)]
/// a loop whose iteration count was not derived: next-state equations and the conditions of leaving or repeating it
pub struct Recur { pub eqs: Vec<(A, Option<P>, Option<P>)>, pub exits: Vec<Vec<P>>, pub back: Vec<P> }
#[derive(Clone)]
pub enum EvK {
    Read { base: Base, off: P, size: u32, align: u64, guard: P },
    Write { base: Base, off: P, size: u32, align: u64, guard: P, vals: Vec<(u32, u32, Sc)>, atomic: bool },
    /// a scalar read from memory that outlives the call
    Peek { sym: A, base: Base, off: i128 },
    Kernel(Rc<KernelEv>),
    Pack(Rc<PackEv>),
    Panic { what: String },
    Assert { cond: P, what: String },
    /// a branch condition the facts were found to entail
    Audit { cond: P },
    Underflow { val: P },
    Alloc { base: Base, size: P, align: P },
    Dealloc { ptr: Sc, size: P, align: P },
    FeatCall { callee: String, feats: Vec<String> },
    Join { id: u32, n: u32, depth: u32, node: Option<usize> },
    Extern { name: String },
    NonTerm { cond: P, rec: Rc<Recur> },
    Pool { level: P },
    Force { base: Base },
    Slice { ptr: Sc, len: P, esz: u32, mutbl: bool },
}
#[derive(Clone)]
pub struct KernelEv { pub id: u32, pub kty: Ty, pub k: P, pub alpha: Val, pub a: Sc, pub b: Sc, pub beta: Val, pub c: Sc, pub rsc: P, pub csc: P, pub mr: u32, pub nr: u32, pub esz: u32 }
#[derive(Clone)]
pub struct PackEv { pub id: u32, pub kty: Ty, pub is_a: bool, pub kc: P, pub mc: P, pub dst: Sc, pub dlen: P, pub src: Sc, pub rs: P, pub cs: P, pub panel: u32, pub esz: u32 }
#[derive(Clone)]
pub struct Event { pub k: EvK, pub ctx: Vec<LoopCtx>, pub tags: Vec<(u32, u32)>, pub path: Path, pub func: String, pub span: Option<Span>, pub stack: Rc<Vec<String>> }

pub struct Pl { pub ptrs: Rc<Vec<(P, Base, P)>>, pub meta: Option<Sc>, pub ty: Ty, pub variant: Option<usize>, pub excl: Vec<(u32, u16)> }

pub struct Abort;
#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Normal, Unroll, Final, Exit }
pub struct ModeFrame { pub depth: usize, pub fi: Rc<FnInfo>, pub li: usize, pub mode: Mode, pub abort: bool, pub decided: u32, pub undecided: u32 }

pub struct RegionOut { pub back: Vec<State>, pub exits: Vec<(usize, State)>, pub rets: Vec<State> }

pub struct An {
    pub tcx: Tcx,
    pub fns: HashMap<Instance, Rc<FnInfo>>,
    pub shapes: HashMap<Ty, Rc<LayoutShape>>,
    pub leafc: HashMap<Ty, Option<Rc<Vec<Leaf>>>>,
    pub paths: HashMap<Instance, String>,
    pub bases: Vec<BaseInfo>,
    pub base_ix: HashMap<String, Base>,
    pub enum_tags: HashMap<Ty, u16>,
    pub events: Vec<Event>,
    pub quiet: u32,
    pub loops: Vec<LoopCtx>,
    pub tags: Vec<(u32, u32)>,
    pub stack: Vec<(Rc<FnInfo>, usize)>,
    pub names: Rc<Vec<String>>,
    pub notes: BTreeMap<String, u32>,
    pub boundary: bool,
    pub accum: HashSet<Base>,
    pub havoc_static: HashSet<Base>,
    pub steps: u64,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub overrun: bool,
    pub cur_span: Option<Span>,
    pub sites: HashMap<Vec<(String, usize)>, u32>,
    pub called: BTreeSet<String>,
    pub loop_log: Vec<String>,
    pub nloops: u32,
    pub features: Vec<String>,
    /// restrict the analysis to CPUs with exactly these optional instruction sets
    pub cpu: Option<BTreeSet<String>>,
    pub cpu_log: std::cell::RefCell<BTreeSet<String>>,
    pub statics_written: BTreeSet<String>,
    pub trace: bool,
    pub modes: Vec<ModeFrame>,
    pub loop_ok: u32,
    pub arith_ok: u32,
    pub asserts_ok: u32,
    pub statics_atomic: BTreeSet<String>,
    pub atomic_op: bool,
    /// scalars that memory which outlives a call holds before the first one
    pub init_mem: HashMap<(Base, i128), i128>,
    pub zeroed: HashSet<Base>,
    pub externs: BTreeSet<String>,
    pub loop_unk: u32,
    pub fcount: BTreeMap<(String, bool), u32>,
    pub no_unroll: HashSet<(String, usize, usize, u32)>,
    pub choices: Vec<i128>,
    pub choice_log: Vec<(String, Vec<i128>, i128)>,
    /// the choice stands for the runs on which the value equals the pick
    pub choice_eqs: Vec<(Path, P, i128)>,
    pub phi_memo: HashMap<(String, usize, usize, u32), (BTreeSet<(Base, u32, u16, u32)>, BTreeSet<Base>)>,
}

pub fn strip(n: &str) -> String {
    // instance/def names carry the crate that re-exports core in front of core paths
    n.to_string()
}

impl An {
    pub fn new(tcx: Tcx) -> An {
        let mut a = An {
            tcx, fns: Default::default(), shapes: Default::default(), leafc: Default::default(), paths: Default::default(),
            bases: vec![], base_ix: Default::default(), enum_tags: Default::default(), events: vec![], quiet: 0, loops: vec![], tags: vec![],
            stack: vec![], names: Default::default(), notes: Default::default(), boundary: false, accum: Default::default(), havoc_static: Default::default(),
            steps: 0, max_steps: 60_000_000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(240), overrun: false, cur_span: None,
            sites: Default::default(), called: Default::default(), loop_log: vec![], nloops: 0, features: std::env::var("MMSA_FEATURES").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), cpu: None, cpu_log: Default::default(), statics_written: Default::default(),
            trace: std::env::var("MMSA_TRACE").is_ok(), modes: vec![], loop_ok: 0, arith_ok: 0, asserts_ok: 0, statics_atomic: Default::default(), atomic_op: false, init_mem: Default::default(), zeroed: Default::default(), externs: Default::default(), loop_unk: 0, no_unroll: Default::default(), fcount: Default::default(), choices: vec![], choice_log: vec![], choice_eqs: vec![], phi_memo: Default::default(),
        };
        a.bases.push(BaseInfo { name: "null".into(), kind: BK::Null, align: 1, size: Some(ZERO), alloc: None });
        a
    }
    /// some effect or path may be missing from the recorded events
    pub fn incomplete(&self) -> bool { self.overrun || self.notes.keys().any(|n| !n.starts_with("unknown enum variant")) }
    pub fn note(&mut self, s: impl Into<String>) {
        if self.quiet > 0 && self.quiet < 1000 { }
        let mut s: String = s.into();
        if let Some((f, _)) = self.stack.last() { s += &format!(" [in {}]", f.name); }
        if self.trace && !self.notes.contains_key(&s) { eprintln!("NOTE {} at {:?}", s, self.cur_span.map(|s| s.diagnostic())); }
        *self.notes.entry(s).or_default() += 1;
    }
    pub fn base(&mut self, name: &str, kind: BK, align: u64, size: Option<P>) -> Base {
        if let Some(b) = self.base_ix.get(name) { return *b; }
        let b = self.bases.len() as Base;
        self.bases.push(BaseInfo { name: name.into(), kind, align, size, alloc: None });
        self.base_ix.insert(name.into(), b);
        BN.with(|n| n.borrow_mut().insert(b, name.into()));
        b
    }
    pub fn ev(&mut self, st: &State, k: EvK) {
        if self.quiet > 0 { return; }
        let func = self.stack.last().map_or(String::new(), |x| x.0.name.clone());
        self.events.push(Event { k, ctx: self.loops.clone(), tags: self.tags.clone(), path: st.path.clone(), func, span: self.cur_span, stack: self.names.clone() });
    }
    pub fn site(&mut self) -> u32 {
        let key: Vec<(String, usize)> = self.stack.iter().map(|(f, b)| (f.name.clone(), *b)).collect();
        let n = self.sites.len() as u32;
        *self.sites.entry(key).or_insert(n)
    }
    // ---------- types ----------
    pub fn shape(&mut self, ty: Ty) -> Rc<LayoutShape> {
        if let Some(s) = self.shapes.get(&ty) { return s.clone(); }
        let s = Rc::new(ty.layout().expect("layout").shape());
        self.shapes.insert(ty, s.clone());
        s
    }
    pub fn size(&mut self, ty: Ty) -> u32 { self.shape(ty).size.bytes() as u32 }
    pub fn tag(&mut self, ty: Ty) -> u16 { let n = self.enum_tags.len() as u16 + 1; *self.enum_tags.entry(ty).or_insert(n) }
    pub fn fields(&mut self, ty: Ty) -> Vec<Ty> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Tuple(v)) => v,
            TyKind::RigidTy(RigidTy::Closure(_, args)) => match args.0.last() {
                Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(v)) => v, _ => vec![] },
                _ => vec![],
            },
            TyKind::RigidTy(RigidTy::Adt(d, args)) => if d.kind() == AdtKind::Enum { vec![] } else { d.variants()[0].fields().iter().map(|f| f.ty_with_args(&args)).collect() },
            _ => vec![],
        }
    }
    pub fn leaves(&mut self, ty: Ty) -> Option<Rc<Vec<Leaf>>> {
        if let Some(l) = self.leafc.get(&ty) { return l.clone(); }
        let mut v = vec![];
        let ok = self.leaves_in(ty, 0, &mut v);
        let r = if ok { Some(Rc::new(v)) } else { None };
        self.leafc.insert(ty, r.clone());
        r
    }
    fn leaves_in(&mut self, ty: Ty, off: u32, out: &mut Vec<Leaf>) -> bool {
        let sh = match ty.layout() { Ok(l) => Rc::new(l.shape()), Err(_) => return false };
        let size = sh.size.bytes() as u32;
        if out.len() > 4096 { return false; }
        match ty.kind() {
            TyKind::RigidTy(k) => match k {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => { out.push(Leaf { off, size, kind: LK::Int(false) }); true }
                RigidTy::Int(_) => { out.push(Leaf { off, size, kind: LK::Int(true) }); true }
                RigidTy::Float(_) => { out.push(Leaf { off, size, kind: LK::Float }); true }
                RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(_) => {
                    out.push(Leaf { off, size: 8, kind: LK::Ptr });
                    if size == 16 { out.push(Leaf { off: off + 8, size: 8, kind: LK::Int(false) }); }
                    true
                }
                RigidTy::FnDef(..) | RigidTy::Never => true,
                RigidTy::Pat(t, _) => self.leaves_in(t, off, out),
                RigidTy::Array(e, _) => match &sh.fields {
                    FieldsShape::Array { stride, count } => {
                        if *count > 4096 { return false; }
                        for i in 0..*count { if !self.leaves_in(e, off + i as u32 * stride.bytes() as u32, out) { return false; } }
                        true
                    }
                    _ => false,
                },
                RigidTy::Tuple(_) | RigidTy::Closure(..) => self.leaves_struct(ty, &sh, off, out),
                RigidTy::Adt(d, args) => {
                    if let ValueRepr::Vector { element, count } = &sh.value_repr {
                        let (sz, kind) = scalar_kind(element);
                        for i in 0..*count { out.push(Leaf { off: off + i as u32 * sz, size: sz, kind }); }
                        return true;
                    }
                    match d.kind() {
                        AdtKind::Struct => self.leaves_struct(ty, &sh, off, out),
                        AdtKind::Union => {
                            let fs: Vec<Ty> = d.variants()[0].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                            for f in fs { if self.size(f) == size && size > 0 { return self.leaves_in(f, off, out); } }
                            size == 0
                        }
                        AdtKind::Enum => size == 0,
                    }
                }
                _ => size == 0,
            },
            _ => false,
        }
    }
    fn leaves_struct(&mut self, ty: Ty, sh: &LayoutShape, off: u32, out: &mut Vec<Leaf>) -> bool {
        let fs = self.fields(ty);
        if let FieldsShape::Arbitrary { offsets } = &sh.fields {
            for (i, f) in fs.iter().enumerate() { if !self.leaves_in(*f, off + offsets[i].bytes() as u32, out) { return false; } }
            true
        } else { fs.is_empty() }
    }
    pub fn field_off(&mut self, ty: Ty, variant: Option<usize>, i: usize) -> u32 {
        let sh = self.shape(ty);
        if let (Some(v), VariantsShape::Multiple { variants, .. }) = (variant, &sh.variants) { return variants[v].offsets[i].bytes() as u32; }
        match &sh.fields {
            FieldsShape::Arbitrary { offsets } => offsets.get(i).map_or(0, |o| o.bytes() as u32),
            FieldsShape::Array { stride, .. } => i as u32 * stride.bytes() as u32,
            _ => 0,
        }
    }
    // ---------- function info ----------
    pub fn path_of(&mut self, i: Instance) -> String {
        if let Some(p) = self.paths.get(&i) { return p.clone(); }
        let did = rustc_public::rustc_internal::internal(self.tcx, i.def.def_id());
        let p = self.def_path(did);
        self.paths.insert(i, p.clone());
        p
    }
    pub fn def_path(&self, did: rustc_span::def_id::DefId) -> String {
        let kr = self.tcx.crate_name(did.krate).to_string();
        let s = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(did)));
        if did.is_local() { format!("{}::{}", kr, s) } else { s }
    }
    pub fn display_name(&mut self, i: Instance) -> String {
        let did = rustc_public::rustc_internal::internal(self.tcx, i.def.def_id());
        let mut s = self.tcx.def_path_str(did);
        // name the Self type for trait methods implemented in the crate
        if let Some(GenericArgKind::Type(t)) = i.args().0.first() { let n = format!("{}", TyName(*t)); if n.contains("Kernel") && n.len() < 60 { s = format!("{}<{}>", s, n); } }
        s
    }
    pub fn fninfo(&mut self, inst: Instance) -> Option<Rc<FnInfo>> {
        if let Some(f) = self.fns.get(&inst) { return Some(f.clone()); }
        let body = inst.body()?;
        let name = self.display_name(inst);
        let n = body.blocks.len();
        let nl = body.locals().len();
        let succ: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
        let mut order = vec![];
        let mut seen = vec![false; n];
        let mut st = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((b, i)) = st.pop() {
            if i < succ[b].len() { st.push((b, i + 1)); let s = succ[b][i]; if !seen[s] { seen[s] = true; st.push((s, 0)); } } else { order.push(b); }
        }
        order.reverse();
        let rpo = order;
        let mut pos = vec![usize::MAX; n];
        for (i, b) in rpo.iter().enumerate() { pos[*b] = i; }
        let mut preds = vec![vec![]; n];
        for b in &rpo { for s in &succ[*b] { preds[*s].push(*b); } }
        // dominators
        let mut idom = vec![usize::MAX; n];
        idom[0] = 0;
        let mut ch = true;
        while ch {
            ch = false;
            for b in rpo.iter().skip(1) {
                let mut nd = usize::MAX;
                for p in &preds[*b] {
                    if idom[*p] == usize::MAX { continue; }
                    if nd == usize::MAX { nd = *p; } else {
                        let (mut x, mut y) = (*p, nd);
                        while x != y { while pos[x] > pos[y] { x = idom[x]; } while pos[y] > pos[x] { y = idom[y]; } }
                        nd = x;
                    }
                }
                if idom[*b] != nd { idom[*b] = nd; ch = true; }
            }
        }
        let dom = |a: usize, mut b: usize| { loop { if a == b { return true; } if b == 0 { return false; } b = idom[b]; } };
        let mut lmap: BTreeMap<usize, HashSet<usize>> = BTreeMap::new();
        for b in &rpo { for s in &succ[*b] { if dom(*s, *b) {
            let set = lmap.entry(*s).or_default();
            set.insert(*s);
            let mut w = vec![*b];
            while let Some(x) = w.pop() { if set.insert(x) { for p in &preds[x] { w.push(*p); } } }
        } } }
        let mut loops: Vec<LoopInfo> = lmap.into_iter().map(|(h, blocks)| LoopInfo { header: h, blocks, parent: None, assigned: vec![], exits: vec![] }).collect();
        loops.sort_by_key(|l| std::cmp::Reverse(l.blocks.len()));
        for i in 0..loops.len() {
            let h = loops[i].header;
            let mut best: Option<usize> = None;
            for j in 0..loops.len() { if j != i && loops[j].blocks.contains(&h) && loops[j].blocks.len() > loops[i].blocks.len() { if best.map_or(true, |b| loops[j].blocks.len() < loops[b].blocks.len()) { best = Some(j); } } }
            loops[i].parent = best;
        }
        let mut loop_of = vec![None; n];
        for b in 0..n { let mut best: Option<usize> = None; for (j, l) in loops.iter().enumerate() { if l.blocks.contains(&b) && best.map_or(true, |x| l.blocks.len() < loops[x].blocks.len()) { best = Some(j); } } loop_of[b] = best; }
        let header_of = loops.iter().enumerate().map(|(i, l)| (l.header, i)).collect();
        // doomed: Return unreachable
        let mut ok = vec![false; n];
        let mut w: Vec<usize> = rpo.iter().cloned().filter(|b| matches!(body.blocks[*b].terminator.kind, TerminatorKind::Return)).collect();
        while let Some(b) = w.pop() { if !ok[b] { ok[b] = true; for p in &preds[b] { w.push(*p); } } }
        let doomed: Vec<bool> = ok.iter().map(|x| !x).collect();
        for l in loops.iter_mut() {
            for b in &l.blocks { for s in &succ[*b] { if !l.blocks.contains(s) && !doomed[*s] && !l.exits.contains(&(*b, *s)) { l.exits.push((*b, *s)); } } }
            let mut asg = BTreeSet::new();
            for b in &l.blocks {
                for s in &body.blocks[*b].statements {
                    match &s.kind {
                        StatementKind::Assign(p, r) => {
                            if !derefs(p) { asg.insert(p.local); }
                            match r { Rvalue::Ref(_, BorrowKind::Mut { .. }, q) | Rvalue::AddressOf(RawPtrKind::Mut, q) => if !derefs(q) { asg.insert(q.local); }, _ => {} }
                        }
                        StatementKind::SetDiscriminant { place, .. } => if !derefs(place) { asg.insert(place.local); },
                        _ => {}
                    }
                }
                match &body.blocks[*b].terminator.kind {
                    TerminatorKind::Call { destination, .. } => if !derefs(destination) { asg.insert(destination.local); },
                    TerminatorKind::Drop { place, .. } => if !derefs(place) { asg.insert(place.local); },
                    _ => {}
                }
            }
            l.assigned = asg.into_iter().collect();
        }
        // liveness
        let mut addr_taken = vec![false; nl];
        let mut gen = vec![vec![false; nl]; n];
        let mut kill = vec![vec![false; nl]; n];
        for b in 0..n {
            let (g, kl) = (&mut gen[b], &mut kill[b]);
            let mut usel = |l: usize, g: &mut Vec<bool>, kl: &Vec<bool>| { if !kl[l] { g[l] = true; } };
            let mut usep = |p: &Place, g: &mut Vec<bool>, kl: &Vec<bool>| { usel(p.local, g, kl); for e in &p.projection { if let ProjectionElem::Index(i) = e { if !kl[*i] { g[*i] = true; } } } };
            macro_rules! op { ($o:expr) => { match $o { Operand::Copy(p) | Operand::Move(p) => usep(p, g, kl), _ => {} } } }
            macro_rules! def { ($p:expr) => { if $p.projection.is_empty() { kl[$p.local] = true } else { usep($p, g, kl) } } }
            for s in &body.blocks[b].statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        match r {
                            Rvalue::AddressOf(_, q) | Rvalue::Ref(_, _, q) => { if !derefs(q) { addr_taken[q.local] = true; } usep(q, g, kl) }
                            Rvalue::Aggregate(_, v) => for o in v { op!(o) },
                            Rvalue::BinaryOp(_, x, y) | Rvalue::CheckedBinaryOp(_, x, y) => { op!(x); op!(y) }
                            Rvalue::Cast(_, x, _) | Rvalue::UnaryOp(_, x) | Rvalue::Use(x, _) | Rvalue::Repeat(x, _) => op!(x),
                            Rvalue::CopyForDeref(q) | Rvalue::Discriminant(q) | Rvalue::Len(q) | Rvalue::Reborrow(_, _, q) => usep(q, g, kl),
                            _ => {}
                        }
                        def!(p);
                    }
                    StatementKind::SetDiscriminant { place, .. } => usep(place, g, kl),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => op!(o),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { op!(&c.src); op!(&c.dst); op!(&c.count) }
                    StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => kl[*l] = true,
                    _ => {}
                }
            }
            match &body.blocks[b].terminator.kind {
                TerminatorKind::SwitchInt { discr, .. } => op!(discr),
                TerminatorKind::Return => usel(0, g, kl),
                TerminatorKind::Drop { place, .. } => usep(place, g, kl),
                TerminatorKind::Call { func, args, destination, .. } => { op!(func); for a in args { op!(a) } def!(destination) }
                TerminatorKind::Assert { cond, .. } => op!(cond),
                _ => {}
            }
        }
        let mut live = vec![vec![false; nl]; n];
        let mut ch = true;
        while ch {
            ch = false;
            for b in rpo.iter().rev() {
                for l in 0..nl {
                    if live[*b][l] { continue; }
                    let out = succ[*b].iter().any(|s| live[*s][l]);
                    if gen[*b][l] || (out && !kill[*b][l]) { live[*b][l] = true; ch = true; }
                }
            }
        }
        let nargs = body.arg_locals().len();
        let feats = self.fn_features(inst);
        let f = Rc::new(FnInfo { inst, body, name, local: rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id()).is_local(), rpo, loops, loop_of, header_of, doomed, live, addr_taken, nargs, feats });
        self.fns.insert(inst, f.clone());
        Some(f)
    }
    pub fn fn_features(&mut self, inst: Instance) -> Vec<String> {
        let did = rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id());
        if !matches!(inst.kind, InstanceKind::Item) { return vec![]; }
        use rustc_hir::def::DefKind as DK;
        match self.tcx.def_kind(did) { DK::Fn | DK::AssocFn | DK::Closure => {} _ => return vec![] }
        let a = self.tcx.codegen_fn_attrs(did);
        a.target_features.iter().map(|f| f.name.to_string()).collect()
    }
    /// initial contents of a static (or of a thread-local): immutable ones are constants
    pub fn static_init(&mut self, b: Base, d: StaticDef, ty: Option<Ty>) {
        use rustc_public::CrateDef;
        let Ok(a) = d.eval_initializer() else { return };
        let did = rustc_public::rustc_internal::internal(self.tcx, d.def_id());
        let t = d.ty();
        if ty.is_none() && !self.tcx.is_mutable_static(did) && rustc_public::rustc_internal::internal(self.tcx, t).is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized()) { self.bases[b as usize].alloc = Some(a); return; }
        if a.bytes.len() > 64 { return; }
        let mut v = vec![];
        self.decode(t, &a, 0, &mut v, 0);
        self.keep_init(b, &v);
    }
    pub fn keep_init(&mut self, b: Base, v: &Val) { for c in v { if let (0, Sc::N(p)) = (c.tag, &c.sc) { if let Some(x) = cst(*p) { self.init_mem.insert((b, c.off as i128), x); } } } }
    // ---------- constants ----------
    pub fn const_base(&mut self, id: AllocId) -> Sc {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => Sc::Fn(i),
            GlobalAlloc::Static(d) => { let n = format!("static {}", d.name()); let seen = self.base_ix.contains_key(&n); let b = self.base(&n, BK::Static, 64, None); if !seen { self.static_init(b, d, None); } Sc::ptr(b, ZERO) }
            GlobalAlloc::Memory(a) => {
                let n = format!("const#{:?}", id);
                let sz = a.bytes.len();
                let al = a.align;
                let b = self.base(&n, BK::Const, al, Some(k(sz as i128)));
                if self.bases[b as usize].alloc.is_none() { self.bases[b as usize].alloc = Some(a); }
                Sc::ptr(b, ZERO)
            }
            _ => { let b = self.base("vtable", BK::Opaque, 8, None); Sc::ptr(b, ZERO) }
        }
    }
    pub fn decode(&mut self, ty: Ty, a: &Allocation, off: usize, out: &mut Val, base: u32) {
        let sh = self.shape(ty);
        let size = sh.size.bytes();
        let rd = |o: usize, n: usize| -> Option<u128> { let mut v = 0u128; for i in (0..n).rev() { v = v << 8 | (*a.bytes.get(o + i)?)? as u128; } Some(v) };
        let put = |out: &mut Val, o: usize, n: u32, sc: Sc| out.push(Cell { off: base + o as u32, tag: 0, size: n, sc });
        match ty.kind() {
            TyKind::RigidTy(kd) => match kd {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => if let Some(v) = rd(off, size) {
                    // integers may carry provenance (pointers cast in consts); ignore
                    put(out, 0, size as u32, if size == 16 && v > i128::MAX as u128 { Sc::Undef } else { Sc::N(k(v as i128)) })
                },
                RigidTy::Int(_) => if let Some(v) = rd(off, size) { let sh = 128 - size * 8; put(out, 0, size as u32, Sc::N(k(((v << sh) as i128) >> sh))) },
                RigidTy::Float(f) => if let Some(v) = rd(off, size) {
                    let x = match f { FloatTy::F32 => f32::from_bits(v as u32) as f64, FloatTy::F64 => f64::from_bits(v as u64), _ => f64::NAN };
                    put(out, 0, size as u32, Sc::N(fconst(x)))
                },
                RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(_) => {
                    let add = rd(off, 8).unwrap_or(0) as i128;
                    let sc = match a.provenance.ptrs.iter().find(|(o, _)| *o == off) { Some((_, p)) => { let s = self.const_base(p.0); s.map_off(&|o| crate::expr::add(o, k(add))) } None => Sc::ptr(NULLB, k(add)) };
                    put(out, 0, 8, sc);
                    if size == 16 {
                        if a.provenance.ptrs.iter().any(|(o, _)| *o == off + 8) { let b = self.base("vtable", BK::Opaque, 8, None); put(out, 8, 8, Sc::ptr(b, ZERO)); }
                        else if let Some(v) = rd(off + 8, 8) { put(out, 8, 8, Sc::N(k(v as i128))) }
                    }
                }
                RigidTy::Array(e, _) => if let FieldsShape::Array { stride, count } = &sh.fields {
                    if *count > 4096 { return; }
                    for i in 0..*count as usize { let o = i * stride.bytes(); self.decode(e, a, off + o, out, base + o as u32); }
                },
                RigidTy::Adt(d, args) => {
                    if let ValueRepr::Vector { element, count } = &sh.value_repr {
                        let (sz, kind) = scalar_kind(element);
                        for i in 0..*count as usize {
                            let o = i * sz as usize;
                            if let Some(v) = rd(off + o, sz as usize) {
                                let p = match kind {
                                    LK::Float => fconst(if sz == 4 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }),
                                    LK::Int(true) => { let s = 128 - sz * 8; k(((v << s) as i128) >> s) }
                                    _ => k(v as i128),
                                };
                                put(out, o, sz, Sc::N(p));
                            }
                        }
                        return;
                    }
                    match d.kind() {
                        AdtKind::Struct => self.decode_fields(ty, a, off, out, base, &sh),
                        AdtKind::Union => { for f in d.variants()[0].fields() { let t = f.ty_with_args(&args); if self.size(t) as usize == size { return self.decode(t, a, off, out, base); } } }
                        AdtKind::Enum => {
                            let vix = match &sh.variants {
                                VariantsShape::Single { index } => Some(index.to_index()),
                                VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                                    let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                                    let (tsz, _) = scalar_kind(tag);
                                    match tag_encoding {
                                        TagEncoding::Direct => rd(off + toff, tsz as usize).and_then(|v| (0..d.num_variants()).find(|i| { let dv = d.discriminant_for_variant(VariantIdx::to_val(*i)).val; let m = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 }; dv & m == v })),
                                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                            if a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff) { Some(untagged_variant.to_index()) }
                                            else { rd(off + toff, tsz as usize).map(|v| {
                                                let m = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                                let rel = v.wrapping_sub(*niche_start) & m;
                                                let (lo, hi) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                                if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                            }) }
                                        }
                                    }
                                }
                                VariantsShape::Empty => None,
                            };
                            if let Some(v) = vix {
                                let t = self.tag(ty);
                                out.push(Cell { off: base, tag: t, size: 0, sc: Sc::N(k(v as i128)) });
                                let vd = d.variants().into_iter().nth(v).unwrap();
                                for (i, f) in vd.fields().iter().enumerate() {
                                    let ft = f.ty_with_args(&args);
                                    let o = self.field_off(ty, Some(v), i);
                                    self.decode(ft, a, off + o as usize, out, base + o);
                                }
                            }
                        }
                    }
                }
                RigidTy::Tuple(_) | RigidTy::Closure(..) => self.decode_fields(ty, a, off, out, base, &sh),
                _ => {}
            },
            _ => {}
        }
    }
    fn decode_fields(&mut self, ty: Ty, a: &Allocation, off: usize, out: &mut Val, base: u32, sh: &LayoutShape) {
        let fs = self.fields(ty);
        if let FieldsShape::Arbitrary { offsets } = &sh.fields { for (i, f) in fs.iter().enumerate() { let o = offsets[i].bytes(); self.decode(*f, a, off + o, out, base + o as u32); } }
    }
    pub fn const_val(&mut self, c: &MirConst) -> Val {
        let ty = c.ty();
        let mut v = vec![];
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(ty, a, 0, &mut v, 0),
            ConstantKind::ZeroSized => if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() { if d.kind() == AdtKind::Enum { let t = self.tag(ty); v.push(Cell { off: 0, tag: t, size: 0, sc: Sc::N(ZERO) }); } },
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0, &mut v, 0),
                TyConstKind::ZSTValue(_) => {}
                _ => self.note("unevaluated type constant"),
            },
            _ => self.note("unevaluated constant"),
        }
        v.sort_by_key(|c| (c.off, c.tag, c.size));
        v
    }
    // ---------- memory ----------
    pub fn addr(&mut self, sc: &Sc) -> Option<P> {
        match sc {
            Sc::N(p) => Some(*p),
            Sc::Ptr(v) => {
                let mut r = ZERO;
                for (g, b, o) in v.iter() {
                    let a = if *b == NULLB { ZERO } else {
                        let al = if is_local(*b) { 16 } else { self.bases[*b as usize].align.max(1) };
                        let q = atom(AD::AddrQ(*b));
                        scale(pa(q), al as i128)
                    };
                    r = add(r, mul(*g, add(a, *o)));
                }
                Some(r)
            }
            _ => None,
        }
    }
    pub fn is_zero_ptr(&mut self, sc: &Sc) -> Option<P> {
        match sc {
            Sc::N(p) => Some(eq0(*p)),
            Sc::Ptr(v) => { let mut r = ZERO; for (g, b, o) in v.iter() { if *b == NULLB { r = add(r, mul(*g, eq0(*o))); } } Some(r) }
            Sc::Fn(_) => Some(ZERO),
            _ => None,
        }
    }
    pub fn undef_n(&mut self, why: &str, real: bool) -> P { self.note(format!("opaque value: {}", why)); opaque(why, real) }
    /// scalar of a value, as a number
    pub fn num(&mut self, v: &Val) -> P {
        match v.iter().find(|c| c.tag == 0).map(|c| c.sc.clone()) {
            Some(Sc::N(p)) => p,
            Some(s @ Sc::Ptr(_)) => self.addr(&s).unwrap(),
            Some(Sc::Fn(_)) => opaque("fnaddr", false),
            _ => self.undef_n("uninitialised or unknown scalar", false),
        }
    }
    pub fn scalar(&mut self, v: &Val) -> Sc { v.iter().find(|c| c.tag == 0).map_or(Sc::Undef, |c| c.sc.clone()) }
    pub fn second(&mut self, v: &Val) -> Option<Sc> { v.iter().find(|c| c.tag == 0 && c.off == 8).map(|c| c.sc.clone()) }
    pub fn region_load(&mut self, st: &State, b: Base, off: P, l: &Leaf) -> Sc {
        if let Some(a) = self.bases[b as usize].alloc.clone() {
            if let Some(o) = cst(off) {
                if o < 0 || o as usize + l.size as usize > a.bytes.len() { self.note("constant memory read out of range"); return Sc::Undef; }
                let o = o as usize;
                if l.kind == LK::Ptr {
                    if let Some((_, p)) = a.provenance.ptrs.iter().find(|(x, _)| *x == o) {
                        let ad_ = (0..8).rev().fold(0i128, |v, i| v << 8 | a.bytes[o + i].unwrap_or(0) as i128);
                        return self.const_base(p.0).map_off(&|x| add(x, k(ad_)));
                    }
                }
                let mut v = 0u128;
                for i in (0..l.size as usize).rev() { match a.bytes[o + i] { Some(x) => v = v << 8 | x as u128, None => return Sc::Undef } }
                return match l.kind {
                    LK::Float => Sc::N(fconst(if l.size == 4 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) })),
                    LK::Int(true) => { let s = 128 - l.size * 8; Sc::N(k(((v << s) as i128) >> s)) }
                    LK::Int(false) => Sc::N(k(v as i128)),
                    LK::Ptr => Sc::ptr(NULLB, k(v as i128)),
                };
            }
            return Sc::N(fun(&format!("table{}", b), vec![off], l.kind == LK::Float));
        }
        let log = st.log(b);
        self.log_load(st, b, off, l, &log)
    }
    fn log_load(&mut self, st: &State, b: Base, off: P, l: &Leaf, log: &Log) -> Sc {
        let mut cur = log.clone();
        let init = |me: &mut An| {
            match l.kind {
                LK::Ptr => { let n = format!("*{}+{}", me.bases[b as usize].name, show(off)); Sc::ptr(me.base(&n, BK::Opaque, 1, None), ZERO) }
                _ => Sc::N(pat(AD::Load(b, off, l.size as u8))),
            }
        };
        let f = st.path.facts.clone();
        while let Some(n) = cur {
            match &n.ent {
                Ent::Store { off: o, size, val, guard } => {
                    let d = f.simp(sub(off, *o));
                    if d == ZERO && *size == l.size {
                        let g = f.simp(*guard);
                        if g == one() { return val.clone(); }
                        let rest = self.log_load(st, b, off, l, &n.prev.clone());
                        return merge_sc(g, val, &rest);
                    }
                    if !self.disjoint(&f, b, off, l.size, *o, *size) {
                        if cst(f.simp(*guard)) == Some(0) { cur = n.prev.clone(); continue; }
                        if self.accum.contains(&b) && cst(d).is_none() { cur = n.prev.clone(); continue; }
                        self.note(format!("load of {} not resolved against an earlier store", self.bases[b as usize].name));
                        return Sc::N(opaque("load", l.kind == LK::Float));
                    }
                }
                Ent::Tile { id, off: o, rs, cs, mr, nr, esz, guard } => {
                    // dense tile
                    let rel = f.simp(sub(off, *o));
                    let dense = cst(*rs) == Some(*esz as i128) && cst(*cs) == Some((*esz * *mr) as i128);
                    if dense {
                        let tot = (*esz * *mr * *nr) as i128;
                        if f.ge(rel) && f.ge(sub(k(tot - l.size as i128), rel)) {
                            if cst(*guard) != Some(1) { self.note("guarded tile"); }
                            return Sc::N(pat(AD::Tile(*id, rel, l.size as u8)));
                        }
                        if f.ge(sub(rel, k(tot))) || f.ge(sub(neg(rel), k(l.size as i128))) { cur = n.prev.clone(); continue; }
                    }
                    // within the tile at (i,j)?
                    for i in 0..*mr { for j in 0..*nr {
                        let e = add(scale(*rs, i as i128), scale(*cs, j as i128));
                        let r2 = f.simp(sub(rel, e));
                        if let Some(c) = cst(r2) { if c >= 0 && c + l.size as i128 <= *esz as i128 {
                            return Sc::N(pat(AD::Tile(*id, k(((i + j * *mr) * *esz) as i128 + c), l.size as u8)));
                        } }
                    } }
                    if self.accum.contains(&b) { cur = n.prev.clone(); continue; }
                    self.note("load not resolved against kernel output tile");
                    return Sc::N(opaque("tileload", true));
                }
                Ent::Loop { .. } | Ent::Prev { .. } | Ent::Pack { .. } => {
                    if self.accum.contains(&b) { return init(self); }
                    if let Ent::Loop { ents, lvar, count, .. } = &n.ent {
                        if let Some(r) = self.family_load(st, &f, b, off, l, ents, *lvar, *count, &n.prev.clone()) { return r; }
                    }
                    self.note(format!("load of {} through a loop summary", self.bases[b as usize].name));
                    return Sc::N(opaque("loopload", l.kind == LK::Float));
                }
                Ent::Havoc => { return Sc::N(opaque("havoc", l.kind == LK::Float)); }
            }
            cur = n.prev.clone();
        }
        init(self)
    }
    fn family_load(&mut self, st: &State, f: &Rc<Facts>, b: Base, off: P, l: &Leaf, ents: &Rc<Vec<Ent>>, lvar: A, count: P, prev: &Log) -> Option<Sc> {
        // every entry: either solvable for the iteration that wrote `off`, or disjoint
        let mut hit: Option<(P, Sc)> = None;
        let mut fl = (**f).clone();
        fl.add_ge(addk(sub(count, pa(lvar)), -1));
        for e in ents.iter() {
            let Ent::Store { off: o, size, val, guard } = e else { return None };
            if *size == l.size {
                if let Some((c, r)) = linear_in(*o, lvar) {
                    if let Some(cv) = cst(c) { if cv != 0 {
                        let d = f.simp(sub(off, r));
                        let q = divk(d, cv.abs());
                        if f.simp(sub(d, scale(q, cv.abs()))) == ZERO {
                            let it = if cv > 0 { q } else { neg(q) };
                            if f.ge(it) && f.ge(addk(sub(count, it), -1)) {
                                if hit.is_some() || subst1(*guard, lvar, it) != one() { return None; }
                                let mut h = HashMap::new(); h.insert(lvar, it);
                                hit = Some((it, val.subst(&h)));
                                continue;
                            }
                            if f.ge(addk(neg(it), -1)) || f.ge(sub(it, count)) { continue; }
                        }
                    } }
                }
            }
            if !self.disjoint(&Rc::new(fl.clone()), b, off, l.size, *o, *size) { return None; }
        }
        match hit { Some((_, v)) => Some(v), None => Some(self.log_load(st, b, off, l, prev)) }
    }
    pub fn disjoint(&mut self, f: &Rc<Facts>, _b: Base, o1: P, s1: u32, o2: P, s2: u32) -> bool {
        let d = f.simp(sub(o2, o1));
        if let Some(c) = cst(d) { return c >= s1 as i128 || c <= -(s2 as i128); }
        if f.ge(sub(d, k(s1 as i128))) || f.ge(sub(neg(d), k(s2 as i128))) { return true; }
        // distinct elements of the strided output matrix never alias (documented precondition)
        if self.accum.contains(&_b) || STRIDED.with(|s| s.borrow().contains(&_b)) {
            let ts = terms(d);
            let sy = |m: &M| { let v = mono(*m); v.len() == 1 && matches!(ad(v[0]), AD::Sym { name, .. } if name == "rsc" || name == "csc") };
            if ts.iter().all(|(m, c)| *m == M(0) && c.abs() < 16 || sy(m)) && ts.iter().any(|(m, _)| sy(m)) { return true; }
        }
        false
    }
    pub fn typed_load(&mut self, st: &State, ptrs: &Rc<Vec<(P, Base, P)>>, ty: Ty, align: u64, excl: &[(u32, u16)]) -> Val {
        let size = self.size(ty);
        if size == 0 {
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() { if d.kind() != AdtKind::Enum { return vec![]; } } else { return vec![]; }
        }
        let mut acc: Option<Val> = None;
        let ptrs = self.prune(st, ptrs);
        if ptrs.is_empty() { self.note("load through an unknown pointer"); return self.opaque_val(ty); }
        for (g, b, o) in ptrs.iter().rev() {
            let v = if is_local(*b) {
                match cst(*o) {
                    Some(c) if c >= 0 => match st.obj(*b) { Some(ob) => ob.read(c as u32, size, excl), None => { self.note("dangling local"); vec![] } },
                    _ => { let v = self.local_dyn_load(st, *b, *o, ty); v }
                }
            } else if *b == NULLB {
                if acc.is_none() && ptrs.len() == 1 { self.note("load through null/integer pointer"); self.opaque_val(ty) } else { continue }
            } else {
                if self.bases[*b as usize].alloc.is_none() { let k_ = EvK::Read { base: *b, off: *o, size, align, guard: *g }; self.ev(st, k_); }
                if let (Some(a), Some(o)) = (self.bases[*b as usize].alloc.clone(), cst(*o)) {
                    let mut v = vec![];
                    self.decode(ty, &a, o as usize, &mut v, 0);
                    v.sort_by_key(|c| (c.off, c.tag, c.size));
                    v
                } else {
                    match self.leaves(ty) {
                        Some(ls) => ls.iter().map(|l| { let at = add(*o, k(l.off as i128)); let sc = self.region_load(st, *b, at, l); let sc = self.peek(st, *b, at, l, sc); Cell { off: l.off, tag: 0, size: l.size, sc } }).collect(),
                        None => { self.note(format!("load of {} from {}", TyName(ty), self.bases[*b as usize].name)); self.opaque_val(ty) }
                    }
                }
            };
            acc = Some(match acc { None => v, Some(r) => merge_val(*g, &v, &r) });
        }
        acc.unwrap_or_default()
    }
    /// a value left behind by earlier calls (or changed in a loop) is named here and found during the evaluation
    fn peek(&mut self, st: &State, b: Base, at: P, l: &Leaf, sc: Sc) -> Sc {
        let kd = self.bases[b as usize].kind.clone();
        let (true, Some(o), LK::Int(signed)) = (matches!(kd, BK::Static | BK::Tls), cst(at), l.kind) else { return sc };
        if let Sc::N(p) = sc {
            let mut s = BTreeSet::new();
            deep_atoms(p, &mut s);
            if !s.iter().any(|a| match ad(*a) { AD::Load(x, ..) => *x == b, AD::Fun(n, ..) => n.starts_with('?'), _ => false }) { return sc; }
        }
        let id = self.site();
        let p = fun(&format!("{}peek{}.{}.{}", if signed { "s:" } else { "u:" }, b, o, id), vec![], false);
        let sym = atoms_of(p)[0];
        let e = EvK::Peek { sym, base: b, off: o };
        self.ev(st, e);
        Sc::N(p)
    }
    fn local_dyn_load(&mut self, st: &State, b: Base, o: P, ty: Ty) -> Val {
        // symbolic index into a local array of scalars: select over the cells
        let size = self.size(ty);
        let cells: Vec<Cell> = st.obj(b).map(|x| x.cells.clone()).unwrap_or_default();
        if let Some(ls) = self.leaves(ty) {
            if ls.len() == 1 {
                let cand: Vec<&Cell> = cells.iter().filter(|c| c.tag == 0 && c.size == size).collect();
                if !cand.is_empty() && cand.len() <= 64 {
                    let mut r = cand[0].sc.clone();
                    for c in &cand[1..] { r = merge_sc(eq0(sub(o, k(c.off as i128))), &c.sc, &r); }
                    return vsc(r, size);
                }
            }
        }
        self.note("symbolic index into a local");
        self.opaque_val(ty)
    }
    pub fn opaque_val(&mut self, ty: Ty) -> Val {
        match self.leaves(ty) {
            Some(ls) => ls.iter().map(|l| Cell { off: l.off, tag: 0, size: l.size, sc: match l.kind {
                LK::Ptr => { let n = format!("opaque#{}", fresh_id()); Sc::ptr(self.base(&n, BK::Opaque, 1, None), ZERO) }
                LK::Float => Sc::N(opaque("val", true)),
                LK::Int(false) => Sc::N(fun(&format!("u:val#{}", fresh_id()), vec![], false)),
                LK::Int(true) => Sc::N(opaque("val", false)),
            } }).collect(),
            None => {
                if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() { if d.kind() == AdtKind::Enum {
                    let t = self.tag(ty);
                    let p = if d.num_variants() == 2 { pat(AD::BSym(format!("?variant#{}", fresh_id()))) } else { opaque("variant", false) };
                    return vec![Cell { off: 0, tag: t, size: 0, sc: Sc::N(p) }];
                } }
                vec![]
            }
        }
    }
    pub fn prune(&mut self, st: &State, ptrs: &Rc<Vec<(P, Base, P)>>) -> Vec<(P, Base, P)> {
        if ptrs.len() == 1 { return ptrs.to_vec(); }
        let f = st.facts();
        let mut o = vec![];
        for (g, b, off) in ptrs.iter() {
            let g = f.simp(*g);
            if g == ZERO { continue; }
            if g == one() { return vec![(g, *b, *off)]; }
            o.push((g, *b, *off));
        }
        o
    }
    pub fn typed_store(&mut self, st: &mut State, ptrs: &Rc<Vec<(P, Base, P)>>, ty: Ty, align: u64, v: &Val, keep: &[(u32, u16)]) {
        let size = self.size(ty);
        let ptrs = self.prune(st, ptrs);
        if ptrs.is_empty() { self.note("store through an unknown pointer"); return; }
        for (g, b, o) in ptrs.iter() {
            if is_local(*b) {
                match cst(*o) {
                    Some(c) if c >= 0 => {
                        if *g == one() {
                            if let Some(ob) = st.obj_mut(*b) { ob.write(c as u32, size, v, keep); } else { self.note("dangling local store"); }
                        } else if let Some(ob) = st.obj_mut(*b) {
                            let old = ob.read(c as u32, size, keep);
                            let m = merge_val(*g, v, &old);
                            ob.write(c as u32, size, &m, keep);
                        }
                    }
                    _ => {
                        // symbolic index into a local array: guarded update of each cell
                        let mut okk = false;
                        if v.len() == 1 && v[0].tag == 0 {
                            if let Some(ob) = st.obj_mut(*b) {
                                let n = ob.cells.iter().filter(|c| c.tag == 0 && c.size == size).count();
                                if n > 0 && n <= 64 {
                                    for c in ob.cells.iter_mut() { if c.tag == 0 && c.size == size { let gg = mul(*g, eq0(sub(*o, k(c.off as i128)))); c.sc = merge_sc(gg, &v[0].sc, &c.sc); } }
                                    okk = true;
                                }
                            }
                        }
                        if !okk { self.note("symbolic index store into a local"); if let Some(ob) = st.obj_mut(*b) { for c in ob.cells.iter_mut() { c.sc = Sc::Undef; } } }
                    }
                }
            } else if *b == NULLB { if ptrs.len() == 1 && size > 0 { self.note("store through null/integer pointer"); } }
            else if size > 0 {
                if self.bases[*b as usize].kind == BK::Static && !self.atomic_op { let n = self.bases[*b as usize].name.clone(); if self.quiet == 0 { self.statics_written.insert(n); } }
                let vals: Vec<(u32, u32, Sc)> = v.iter().filter(|c| c.tag == 0).map(|c| (c.off, c.size, c.sc.clone())).collect();
                if vals.is_empty() { st.push_log(*b, Ent::Havoc); }
                for (vo, vs, sc) in &vals { st.push_log(*b, Ent::Store { off: add(*o, k(*vo as i128)), size: *vs, val: sc.clone(), guard: *g }); }
                let e = EvK::Write { base: *b, off: *o, size, align, guard: *g, vals, atomic: self.atomic_op };
                self.ev(st, e);
            }
        }
    }
    // ---------- places ----------
    pub fn place(&mut self, st: &State, fi: &FnInfo, p: &Place) -> Pl {
        let depth = st.frames.len() - 1;
        let mut ty = fi.body.locals()[p.local].ty;
        let mut ptrs = Rc::new(vec![(one(), local_base(depth, p.local), ZERO)]);
        let mut meta: Option<Sc> = None;
        let mut variant = None;
        let mut excl: Vec<(u32, u16)> = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = self.typed_load(st, &ptrs, ty, 1, &excl);
                    let s = self.scalar(&v);
                    meta = self.second(&v);
                    ptrs = match s {
                        Sc::Ptr(x) => x,
                        Sc::N(n) => Rc::new(vec![(one(), NULLB, n)]),
                        _ => { self.note("deref of unknown pointer"); Rc::new(vec![]) }
                    };
                    ty = match ty.kind().builtin_deref(true) { Some(t) => t.ty, None => ty };
                    variant = None;
                    excl.clear();
                }
                ProjectionElem::Field(i, fty) => {
                    let o = self.field_off(ty, variant, *i);
                    if variant.is_some() { let t = self.tag(ty); if let Some(c) = ptrs.first().and_then(|x| cst(x.2)) { if c >= 0 { excl.push((c as u32, t)); } } }
                    ptrs = Rc::new(ptrs.iter().map(|(g, b, f)| (*g, *b, addk(*f, o as i128))).collect());
                    ty = *fty;
                    variant = None;
                }
                ProjectionElem::Downcast(v) => variant = Some(v.to_index()),
                ProjectionElem::Index(l) => {
                    let iv = self.typed_load(st, &Rc::new(vec![(one(), local_base(depth, *l), ZERO)]), fi.body.locals()[*l].ty, 1, &[]);
                    let ix = self.num(&iv);
                    let et = elem_ty(ty);
                    let s = self.size(et) as i128;
                    ptrs = Rc::new(ptrs.iter().map(|(g, b, f)| (*g, *b, add(*f, scale(ix, s)))).collect());
                    ty = et;
                    variant = None;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let et = elem_ty(ty);
                    let s = self.size(et) as i128;
                    let len = self.len_of(ty, &meta);
                    let ix = if *from_end { addk(len, -(*offset as i128)) } else { k(*offset as i128) };
                    ptrs = Rc::new(ptrs.iter().map(|(g, b, f)| (*g, *b, add(*f, scale(ix, s)))).collect());
                    ty = et;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let et = elem_ty(ty);
                    let s = self.size(et) as i128;
                    let len = self.len_of(ty, &meta);
                    let n = if *from_end { addk(len, -(*from as i128 + *to as i128)) } else { k(*to as i128 - *from as i128) };
                    ptrs = Rc::new(ptrs.iter().map(|(g, b, f)| (*g, *b, addk(*f, s * *from as i128))).collect());
                    meta = Some(Sc::N(n));
                    if let (TyKind::RigidTy(RigidTy::Array(..)), Some(c)) = (ty.kind(), cst(n)) { ty = Ty::try_new_array(et, c as u64).unwrap_or(ty); }
                }
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        Pl { ptrs, meta, ty, variant, excl }
    }
    pub fn len_of(&mut self, ty: Ty, meta: &Option<Sc>) -> P {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Array(_, c)) => k(c.eval_target_usize().unwrap_or(0) as i128),
            _ => match meta { Some(Sc::N(p)) => *p, _ => self.undef_n("slice length", false) },
        }
    }
    pub fn read_place(&mut self, st: &State, fi: &FnInfo, p: &Place) -> Val {
        let pl = self.place(st, fi, p);
        let al = if derefs(p) { self.shape(pl.ty).abi_align } else { 1 };
        self.typed_load(st, &pl.ptrs, pl.ty, al, &pl.excl)
    }
    pub fn write_place(&mut self, st: &mut State, fi: &FnInfo, p: &Place, v: &Val) {
        let pl = self.place(st, fi, p);
        let al = if derefs(p) { self.shape(pl.ty).abi_align } else { 1 };
        self.typed_store(st, &pl.ptrs, pl.ty, al, v, &pl.excl);
    }
    pub fn operand(&mut self, st: &State, fi: &FnInfo, o: &Operand) -> Val {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read_place(st, fi, p),
            Operand::Constant(c) => self.const_val(&c.const_),
            Operand::RuntimeChecks(_) => vn(ZERO, 1),
        }
    }
    fn oty(&self, fi: &FnInfo, o: &Operand) -> Ty { o.ty(fi.body.locals()).unwrap() }
    // ---------- rvalues ----------
    pub fn rvalue(&mut self, st: &mut State, fi: &FnInfo, r: &Rvalue, dty: Ty) -> Val {
        match r {
            Rvalue::Use(o, _) => self.operand(st, fi, o),
            Rvalue::CopyForDeref(p) => self.read_place(st, fi, p),
            Rvalue::Repeat(o, c) => {
                let v = self.operand(st, fi, o);
                let n = c.eval_target_usize().unwrap_or(0);
                let es = { let t = self.oty(fi, o); self.size(t) };
                if es == 1 && n > 64 { return vec![Cell { off: 0, tag: 0, size: n as u32, sc: self.scalar(&v) }]; }
                let mut out = vec![];
                for i in 0..n as u32 { for c in &v { out.push(Cell { off: c.off + i * es, ..c.clone() }); } }
                out
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, fi, p);
                let mut v = vsc(Sc::Ptr(pl.ptrs.clone()), 8);
                if self.size(dty) == 16 { let m = pl.meta.unwrap_or(Sc::Undef); v.push(Cell { off: 8, tag: 0, size: 8, sc: m }); }
                v
            }
            Rvalue::Len(p) => { let pl = self.place(st, fi, p); let n = self.len_of(pl.ty, &pl.meta); vn(n, 8) }
            Rvalue::Cast(kind, o, ty) => { let v = self.operand(st, fi, o); let from = self.oty(fi, o); self.cast(st, kind, v, from, *ty) }
            Rvalue::BinaryOp(op, a, b) => {
                let (x, y) = (self.operand(st, fi, a), self.operand(st, fi, b));
                let (ta, tb) = (self.oty(fi, a), self.oty(fi, b));
                self.binop(st, *op, &x, &y, ta, tb, dty)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, y) = (self.operand(st, fi, a), self.operand(st, fi, b));
                let (ta, tb) = (self.oty(fi, a), self.oty(fi, b));
                let sz = self.size(ta);
                let quiet = self.quiet;
                self.quiet += 1;
                let v = self.binop(st, *op, &x, &y, ta, tb, ta);
                self.quiet = quiet;
                let flag = match op {
                    BinOp::Sub if !ta.kind().is_signed() => { let (p, q) = (self.num(&x), self.num(&y)); ge0(addk(sub(q, p), -1)) }
                    _ => ZERO,
                };
                let mut v = v;
                v.retain(|c| c.off == 0);
                let o = self.field_off(dty, None, 1);
                let _ = sz;
                v.push(Cell { off: o, tag: 0, size: 1, sc: Sc::N(flag) });
                v
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, fi, o);
                let t = self.oty(fi, o);
                match op {
                    UnOp::Not => { let p = self.num(&v); let sz = self.size(t); if t.kind().is_bool() { vn(not(p), 1) } else if let Some(c) = cst(p) { let r = if t.kind().is_signed() { !c } else { ((1i128 << (sz * 8).min(126)) - 1) - c }; vn(k(r), sz) } else if t.kind().is_signed() { vn(addk(neg(p), -1), sz) } else { let q = addk(neg(p), (1i128 << (sz * 8)) - 1); vn(q, sz) } }
                    UnOp::Neg => { let p = self.num(&v); let sz = self.size(t); vn(neg(p), sz) }
                    UnOp::PtrMetadata => match self.second(&v) { Some(s) => vsc(s, 8), None => vec![] },
                }
            }
            Rvalue::Discriminant(p) => { let pl = self.place(st, fi, p); let v = self.typed_load(st, &pl.ptrs, pl.ty, 1, &[]); let d = self.discr(&v, pl.ty); let sz = self.size(dty); vn(d, sz) }
            Rvalue::Aggregate(kd, ops) => {
                let vals: Vec<Val> = ops.iter().map(|o| self.operand(st, fi, o)).collect();
                match kd {
                    AggregateKind::Array(t) => { let s = self.size(*t); let mut out = vec![]; for (i, v) in vals.iter().enumerate() { for c in v { out.push(Cell { off: c.off + i as u32 * s, ..c.clone() }); } } out }
                    AggregateKind::RawPtr(..) => { let mut o = vals[0].clone(); o.retain(|c| c.off == 0); if let Some(c) = vals.get(1).and_then(|v| v.first()) { if self.size(dty) == 16 { o.push(Cell { off: 8, tag: 0, size: 8, sc: c.sc.clone() }); } } o }
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let mut out: Val = vec![];
                        let is_enum = d.kind() == AdtKind::Enum;
                        for (i, v) in vals.iter().enumerate() {
                            let fidx = active.unwrap_or(i);
                            let o = self.field_off(dty, if is_enum { Some(vi.to_index()) } else { None }, fidx);
                            for c in v { out.push(Cell { off: c.off + o, ..c.clone() }); }
                        }
                        if is_enum { let t = self.tag(dty); out.push(Cell { off: 0, tag: t, size: 0, sc: Sc::N(k(vi.to_index() as i128)) }); }
                        out.sort_by_key(|c| (c.off, c.tag, c.size));
                        out
                    }
                    _ => {
                        let mut out: Val = vec![];
                        for (i, v) in vals.iter().enumerate() { let o = self.field_off(dty, None, i); for c in v { out.push(Cell { off: c.off + o, ..c.clone() }); } }
                        out.sort_by_key(|c| (c.off, c.tag, c.size));
                        out
                    }
                }
            }
            Rvalue::ThreadLocalRef(it) => { let n = format!("tls {} {:?}", it.name(), self.tags); let b = self.base(&n, BK::Tls, 8, None); vsc(Sc::ptr(b, ZERO), 8) }
        }
    }
    pub fn discr(&mut self, v: &Val, ty: Ty) -> P {
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
            if d.kind() == AdtKind::Enum {
                let t = self.tag(ty);
                let idx = match v.iter().find(|c| c.tag == t && c.off == 0) {
                    Some(Cell { sc: Sc::N(p), .. }) => *p,
                    _ => {
                        if let VariantsShape::Single { index } = &self.shape(ty).variants { k(index.to_index() as i128) }
                        else { self.note(format!("unknown enum variant of {}", TyName(ty))); if d.num_variants() == 2 { pat(AD::BSym(format!("?variant#{}", fresh_id()))) } else { opaque("variant", false) } }
                    }
                };
                let dv: Vec<i128> = (0..d.num_variants()).map(|i| { let x = d.discriminant_for_variant(VariantIdx::to_val(i)); sign_discr(x.val, x.ty) }).collect();
                if dv.iter().enumerate().all(|(i, x)| *x == dv[0] + i as i128) { return addk(idx, dv[0]); }
                let mut r = ZERO;
                for (i, x) in dv.iter().enumerate() { r = add(r, scale(eq0(addk(idx, -(i as i128))), *x)); }
                return r;
            }
        }
        ZERO
    }
    pub fn cast(&mut self, st: &mut State, kind: &CastKind, v: Val, from: Ty, to: Ty) -> Val {
        let (fs, ts) = (self.size(from), self.size(to));
        match kind {
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = from.kind() { match Instance::resolve_for_fn_ptr(d, &a) { Ok(i) => vsc(Sc::Fn(i), 8), _ => vec![] } } else { vec![] },
                PointerCoercion::ClosureFnPointer(_) => if let TyKind::RigidTy(RigidTy::Closure(d, a)) = from.kind() { match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { Ok(i) => vsc(Sc::Fn(i), 8), _ => vec![] } } else { vec![] },
                PointerCoercion::Unsize => {
                    let mut v = v;
                    if fs == 8 && ts == 16 {
                        let pt = from.kind().builtin_deref(true).map(|x| x.ty);
                        if let Some(TyKind::RigidTy(RigidTy::Array(_, c))) = pt.map(|t| t.kind()) { let n = c.eval_target_usize().unwrap_or(0); v.push(Cell { off: 8, tag: 0, size: 8, sc: Sc::N(k(n as i128)) }); }
                        else { let b = self.base("vtable", BK::Opaque, 8, None); v.push(Cell { off: 8, tag: 0, size: 8, sc: Sc::ptr(b, ZERO) }); }
                    }
                    v
                }
                _ => v,
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => { let mut v = v; if ts == 8 { v.retain(|c| c.off == 0); } v }
            CastKind::PointerExposeAddress => { let s = self.scalar(&v); match self.addr(&s) { Some(p) => vn(p, ts), None => { let p = self.undef_n("pointer address", false); vn(p, ts) } } }
            CastKind::PointerWithExposedProvenance => { let p = self.num(&v); vsc(Sc::ptr(NULLB, p), ts) }
            CastKind::IntToInt => { let p = self.num(&v); let r = self.int_cast(st, p, from, to); vn(r, ts) }
            CastKind::IntToFloat | CastKind::FloatToFloat => { let p = self.num(&v); vn(p, ts) }
            CastKind::FloatToInt => { let p = self.num(&v); vn(fun("trunc", vec![p], false), ts) }
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(v, from, to),
        }
    }
    pub fn transmute(&mut self, v: Val, from: Ty, to: Ty) -> Val {
        let (fs, ts) = (self.size(from), self.size(to));
        if fs != ts { self.note("transmute between sizes"); return vec![]; }
        let (fe, te) = (is_enum(from), is_enum(to));
        if fe || te {
            if from == to { return v; }
            // transparent wrappers around the same enum keep their tag; C-like enums from integers
            if te && !fe { if let (TyKind::RigidTy(RigidTy::Adt(d, _)), Some(Sc::N(p))) = (to.kind(), v.first().map(|c| c.sc.clone())) {
                let n = d.num_variants();
                if d.variants().iter().all(|x| x.fields().is_empty()) {
                    let dv: Vec<i128> = (0..n).map(|i| { let x = d.discriminant_for_variant(VariantIdx::to_val(i)); sign_discr(x.val, x.ty) }).collect();
                    let t = self.tag(to);
                    if dv.iter().enumerate().all(|(i, x)| *x == dv[0] + i as i128) { return vec![Cell { off: 0, tag: t, size: 0, sc: Sc::N(addk(p, -dv[0])) }]; }
                }
            } }
            if fe && !te { if let TyKind::RigidTy(RigidTy::Adt(d, _)) = from.kind() { if d.variants().iter().all(|x| x.fields().is_empty()) { let p = self.discr(&v, from); return vn(p, ts); } } }
            return v;
        }
        if let (Some(a), Some(b)) = (self.leaves(from), self.leaves(to)) {
            let fl = |l: &Leaf| l.kind == LK::Float;
            // reinterpretation between float and integer bits is not modelled, except for zero
            let mut out = vec![];
            for l in b.iter() {
                match a.iter().find(|x| x.off == l.off && x.size == l.size) {
                    Some(x) => {
                        let c = v.iter().find(|c| c.tag == 0 && c.off == l.off && c.size == l.size);
                        let sc = c.map_or(Sc::Undef, |c| c.sc.clone());
                        let sc = if fl(x) != fl(l) { match &sc { Sc::N(p) if *p == ZERO => sc, Sc::N(p) => match (cst(*p), fl(l)) {
                            (Some(bits), true) => Sc::N(fconst(if l.size == 4 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) })),
                            _ => Sc::N(bits_of(*p, fl(l))),
                        }, _ => sc } }
                            else if x.kind == LK::Ptr && l.kind != LK::Ptr { match self.addr(&sc) { Some(p) => Sc::N(p), None => sc } }
                            else if l.kind == LK::Ptr && x.kind != LK::Ptr { match sc { Sc::N(p) => Sc::ptr(NULLB, p), s => s } }
                            else { sc };
                        out.push(Cell { off: l.off, tag: 0, size: l.size, sc });
                    }
                    None => {
                        // zero vectors reinterpret to zero vectors
                        if v.iter().filter(|c| c.tag == 0).all(|c| c.sc == Sc::N(ZERO)) { out.push(Cell { off: l.off, tag: 0, size: l.size, sc: Sc::N(ZERO) }); }
                        else if v.iter().any(|c| c.off == l.off && c.size == l.size) { out.push(v.iter().find(|c| c.off == l.off && c.size == l.size).unwrap().clone()); }
                        else if let Some(w) = wide_bits(&v, l) { out.push(Cell { off: l.off, tag: 0, size: l.size, sc: Sc::N(w) }); }
                        else if let Some(w) = regroup(&v, l) { out.push(Cell { off: l.off, tag: 0, size: l.size, sc: Sc::N(w) }); }
                        else { let p = opaque("repr", l.kind == LK::Float); out.push(Cell { off: l.off, tag: 0, size: l.size, sc: Sc::N(p) }); self.note("representation change in transmute"); }
                    }
                }
            }
            return out;
        }
        v
    }
    pub fn int_cast(&mut self, st: &State, p: P, from: Ty, to: Ty) -> P {
        let ts = self.size(to);
        let fs = self.size(from);
        let signed_to = to.kind().is_signed();
        let signed_from = from.kind().is_signed();
        if let Some(c) = cst(p) {
            if ts >= 16 { return p; }
            let m = 1i128 << (ts * 8);
            let r = c.rem_euclid(m);
            return k(if signed_to && r >= m / 2 { r - m } else { r });
        }
        if ts >= 8 && fs >= 8 { return p; } // pointer-sized values stay in range (stated assumption)
        if ts > fs && (!signed_from || signed_to) { return p; }
        if ts == fs && ts >= 4 { return p; }
        if ts >= 4 && fs <= ts { return p; }
        if atoms_of(p).iter().all(|a| is_ind(*a)) { return p; }
        let f = st.facts();
        let (lo, hi) = if signed_to { (-(1i128 << (ts * 8 - 1)), (1i128 << (ts * 8 - 1)) - 1) } else { (0, (1i128 << (ts * 8)) - 1) };
        if f.ge(addk(p, -lo)) && f.ge(sub(k(hi), p)) { return p; }
        let h = 1i128 << (ts * 8 - 1);
        if signed_to { addk(pmod(addk(p, h), k(2 * h)), -h) } else { pmod(p, k(2 * h)) }
    }
    pub fn binop(&mut self, st: &mut State, op: BinOp, x: &Val, y: &Val, ta: Ty, tb: Ty, dty: Ty) -> Val {
        use BinOp::*;
        let sz = self.size(dty);
        let is_ptr = matches!(ta.kind(), TyKind::RigidTy(RigidTy::RawPtr(..)) | TyKind::RigidTy(RigidTy::Ref(..)) | TyKind::RigidTy(RigidTy::FnPtr(_)));
        if op == Offset {
            let pt = ta.kind().builtin_deref(true).unwrap().ty;
            let es = self.size(pt) as i128;
            let n = self.num(y);
            let s = self.scalar(x);
            let mut v = x.clone();
            if let Some(c) = v.iter_mut().find(|c| c.tag == 0 && c.off == 0) { c.sc = match s { Sc::N(p) => Sc::ptr(NULLB, add(p, scale(n, es))), s => s.map_off(&|o| add(o, scale(n, es))) }; }
            let _ = tb;
            return v;
        }
        if is_ptr {
            let (a, b) = (self.scalar(x), self.scalar(y));
            if op == Eq || op == Ne {
                let e = self.ptr_eq(&a, &b);
                return vn(if op == Eq { e } else { not(e) }, 1);
            }
            if let (Sc::Ptr(p), Sc::Ptr(q)) = (&a, &b) {
                if p.len() == 1 && q.len() == 1 && p[0].1 == q[0].1 { let d = sub(p[0].2, q[0].2); return vn(cmpop(op, d), 1); }
            }
            let (p, q) = (self.num(x), self.num(y));
            return vn(cmpop(op, sub(p, q)), 1);
        }
        let fl = ta.kind().is_float();
        let signed = ta.kind().is_signed();
        let (a, b) = (self.num(x), self.num(y));
        if fl {
            let r = match op {
                Add => add(a, b), Sub => sub(a, b), Mul => mul(a, b),
                Div => if let Some(1) = cst(b) { a } else { fun("fdiv", vec![a, b], true) },
                Eq => feq0(sub(a, b)), Ne => not(feq0(sub(a, b))),
                Lt => flt0(sub(a, b)), Gt => flt0(sub(b, a)), Le => not(flt0(sub(b, a))), Ge => not(flt0(sub(a, b))),
                _ => fun("fop", vec![a, b], true),
            };
            return vn(r, sz);
        }
        let boolean = ta.kind().is_bool();
        let r = match op {
            Add | AddUnchecked => { let r = add(a, b); self.check_narrow(st, r, sz, signed, dty); r }
            Mul | MulUnchecked => { let r = mul(a, b); self.check_narrow(st, r, sz, signed, dty); r }
            Sub | SubUnchecked => {
                let r = sub(a, b);
                let wraps = self.stack.last().map_or(false, |f| f.0.name.contains("wrapping_") || f.0.name.contains("overflowing_"));
                if !signed && !wraps { self.check_sub(st, r); }
                // the value modulo the word size, where it may be negative
                if !signed && (wraps || sz < 8) && !st.facts().ge(r) {
                    if let Some(c) = cst(r) { k(c.rem_euclid(1i128 << (sz * 8))) }
                    else if st.facts().ge(addk(r, 1i128 << (sz * 8))) { add(r, scale(not(ge0(r)), 1i128 << (sz * 8))) }
                    else if wraps { self.note("wrapping subtraction that may wrap"); fun("u:wsub", vec![a, b], false) } else { r }
                } else { r }
            }
            Div => { self.check_div(st, b); if signed && !(st.facts().ge(a) && st.facts().ge(b)) && !(cst(a).is_some() && cst(b).is_some()) { fun("sdiv", vec![a, b], false) } else { match (cst(a), cst(b)) { (Some(p), Some(q)) if q != 0 => k(p / q), _ => div(a, b) } } }
            Rem => { self.check_div(st, b); if signed && !(st.facts().ge(a) && st.facts().ge(b)) && !(cst(a).is_some() && cst(b).is_some()) { fun("srem", vec![a, b], false) } else { match (cst(a), cst(b)) { (Some(p), Some(q)) if q != 0 => k(p % q), _ => pmod(a, b) } } }
            Eq => eq0(sub(a, b)), Ne => not(eq0(sub(a, b))),
            Lt | Le | Gt | Ge => cmpop(op, sub(a, b)),
            Cmp => { let d = sub(a, b); let p = add(one(), sub(ge0(addk(d, -1)), ge0(addk(neg(d), -1)))); let t = self.tag(dty); return vec![Cell { off: 0, tag: t, size: 0, sc: Sc::N(p) }]; }
            Shl | ShlUnchecked => match cst(b) { Some(s) if s < 100 => { let v = scale(a, 1i128 << s); match cst(v) { Some(c) if !signed => k(c & ((1i128 << (sz * 8).min(120)) - 1)), _ => v } } _ => fun("shl", vec![a, b], false) },
            Shr | ShrUnchecked => match cst(b) { Some(s) if s < 100 => div(a, k(1i128 << s)), _ => fun("u:shr", vec![a, b], false) },
            BitAnd if boolean => mul(a, b),
            BitOr if boolean => sub(add(a, b), mul(a, b)),
            BitXor if boolean => sub(add(a, b), scale(mul(a, b), 2)),
            BitAnd => bitand(a, b, sz),
            BitOr => match (cst(a), cst(b)) { (Some(p), Some(q)) => k(p | q), (Some(0), _) => b, (_, Some(0)) => a, _ => fun(if signed { "or" } else { "u:or" }, vec![a, b], false) },
            BitXor => match (cst(a), cst(b)) { (Some(p), Some(q)) => k(p ^ q), (Some(0), _) => b, (_, Some(0)) => a, _ => fun(if signed { "xor" } else { "u:xor" }, vec![a, b], false) },
            _ => fun("op", vec![a, b], false),
        };
        vn(r, sz)
    }
    /// sums and products of types narrower than an address must not exceed the type
    fn check_narrow(&mut self, st: &State, r: P, sz: u32, signed: bool, ty: Ty) {
        if sz >= 8 || self.quiet > 0 || !matches!(ty.kind(), TyKind::RigidTy(RigidTy::Uint(_) | RigidTy::Int(_))) { return; }
        let (lo, hi) = if signed { (-(1i128 << (sz * 8 - 1)), (1i128 << (sz * 8 - 1)) - 1) } else { (0, (1i128 << (sz * 8)) - 1) };
        let f = st.facts();
        if cst(r).map_or(false, |c| c >= lo && c <= hi) || f.ge(sub(k(hi), r)) && (!signed || f.ge(addk(r, -lo))) { self.arith_ok += 1; return; }
        self.ev(st, EvK::Assert { cond: mul(ge0(sub(k(hi), r)), ge0(addk(r, -lo))), what: format!("{}-bit arithmetic does not overflow", sz * 8) });
    }
    pub fn check_sub(&mut self, st: &State, r: P) {
        if self.quiet > 0 { return; }
        self.arith_ok += 1;
        if let Some(c) = cst(r) { if c >= 0 { return; } }
        if st.facts().ge(r) { return; }
        self.arith_ok -= 1;
        self.ev(st, EvK::Underflow { val: r });
    }
    pub fn check_div(&mut self, st: &State, b: P) { if cst(b) == Some(0) { self.ev(st, EvK::Panic { what: "division by zero".into() }); } }
    pub fn ptr_eq(&mut self, a: &Sc, b: &Sc) -> P {
        match (a, b) {
            (Sc::Ptr(x), Sc::Ptr(y)) => {
                let mut r = ZERO;
                for (g, p, o) in x.iter() { for (h, q, o2) in y.iter() { if p == q { r = add(r, mul(mul(*g, *h), eq0(sub(*o, *o2)))); } } }
                r
            }
            (Sc::Fn(x), Sc::Fn(y)) => k((x == y) as i128),
            (Sc::Ptr(_), Sc::N(n)) => self.ptr_eq(a, &Sc::ptr(NULLB, *n)),
            (Sc::N(n), Sc::Ptr(_)) => self.ptr_eq(&Sc::ptr(NULLB, *n), b),
            (Sc::N(n), Sc::N(m)) => eq0(sub(*n, *m)),
            _ => { self.note("pointer comparison"); pat(AD::BSym(format!("?ptreq#{}", fresh_id()))) }
        }
    }
}
pub fn bitand(a: P, b: P, sz: u32) -> P {
    let (a, b) = if cst(a).is_some() { (b, a) } else { (a, b) };
    match (cst(a), cst(b)) {
        (Some(p), Some(q)) => k(p & q),
        (_, Some(0)) => ZERO,
        (_, Some(q)) => {
            if q > 0 && (q + 1) & q == 0 { return pmod(a, k(q + 1)); }
            let full = 1i128 << (sz * 8).min(120);
            let low = if q < 0 { -q } else { full - q };
            if low > 0 && low & (low - 1) == 0 && low <= 1 << 20 { return sub(a, pmod(a, k(low))); }
            fun("u:and", vec![a, b], false)
        }
        _ => {
            // x & (0 - c)  /  x & !(c-1) with symbolic power of two c is not modelled
            fun("u:and", vec![a, b], false)
        }
    }
}
pub fn cmpop(op: BinOp, d: P) -> P {
    match op { BinOp::Lt => ge0(addk(neg(d), -1)), BinOp::Le => ge0(neg(d)), BinOp::Gt => ge0(addk(d, -1)), BinOp::Ge => ge0(d), BinOp::Eq => eq0(d), BinOp::Ne => not(eq0(d)), _ => opaque("cmp", false) }
}
pub fn flt0(p: P) -> P { match cst(p) { Some(c) => k((c < 0) as i128), None => pat(AD::FLt0(p)) } }
pub fn fconst(x: f64) -> P { if x.fract() == 0.0 && x.abs() < 9e15 { k(x as i128) } else { fun(&format!("f:{}", x), vec![], true) } }
fn wide_bits(v: &Val, l: &Leaf) -> Option<P> {
    let mut r: i128 = 0;
    let mut n = 0;
    for c in v { if c.tag == 0 && c.off >= l.off && c.off + c.size <= l.off + l.size { if let Sc::N(p) = c.sc { let x = cst(p)?; if x < 0 || c.size > 8 { return None; } r |= x << ((c.off - l.off) * 8); n += c.size; } } }
    if n == l.size && l.kind != LK::Float { Some(k(r)) } else { None }
}
pub fn scalar_kind(s: &Scalar) -> (u32, LK) {
    let p = match s { Scalar::Initialized { value, .. } | Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, signed } => (match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 }, LK::Int(*signed)),
        Primitive::Float { length } => (match length { FloatLength::F16 => 2, FloatLength::F32 => 4, FloatLength::F64 => 8, FloatLength::F128 => 16, _ => 2 }, LK::Float),
        Primitive::Pointer(_) => (8, LK::Ptr),
    }
}
pub fn sign_discr(v: u128, ty: Ty) -> i128 {
    let sz = match ty.kind() { TyKind::RigidTy(RigidTy::Int(i)) => i.num_bytes(), _ => return v as i128 };
    let s = 128 - sz * 8;
    ((v << s) as i128) >> s
}
pub fn is_enum(t: Ty) -> bool { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Enum, _ => false } }
pub fn elem_ty(t: Ty) -> Ty { t.kind().builtin_index().unwrap_or(t) }
pub fn derefs(p: &Place) -> bool { p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) }
pub fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => { let mut v = targets.all_targets(); v.dedup(); let mut o: Vec<usize> = vec![]; for x in v { if !o.contains(&x) { o.push(x) } } o }
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        TerminatorKind::InlineAsm { destination, .. } => destination.iter().cloned().collect(),
        _ => vec![],
    }
}
pub struct TyName(pub Ty);
impl std::fmt::Display for TyName { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self.0.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            write!(f, "{}", n)?;
            let v: Vec<String> = a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(format!("{}", TyName(*t))) } else { None }).collect();
            if !v.is_empty() { write!(f, "<{}>", v.join(", "))?; }
            Ok(())
        }
        x => write!(f, "{:?}", x),
    }
} }
thread_local! { pub static STRIDED: std::cell::RefCell<HashSet<Base>> = Default::default(); }

fn bits_of(p: P, real: bool) -> P {
    let t = terms(p);
    if t.len() == 1 && t[0].1 == 1 && mono_len(t[0].0) == 1 { if let AD::Fun(n, v, _) = ad(mono(t[0].0)[0]) { if n == "bits" { return v[0]; } } }
    fun("bits", vec![p], real)
}
/// bit pattern made of narrower lanes (or one lane of such a pattern)
fn regroup(v: &Val, l: &Leaf) -> Option<P> {
    let inside: Vec<&Cell> = v.iter().filter(|c| c.tag == 0 && c.off >= l.off && c.off + c.size <= l.off + l.size).collect();
    if inside.len() > 1 && inside.iter().map(|c| c.size).sum::<u32>() == l.size {
        let mut w = vec![];
        for c in &inside { match &c.sc { Sc::N(p) => w.push(*p), _ => return None } }
        if w.iter().all(|p| *p == ZERO) { return Some(ZERO); }
        return Some(fun(&format!("cat{}", inside[0].size), w, l.kind == LK::Float));
    }
    let c = v.iter().find(|c| c.tag == 0 && c.off <= l.off && c.off + c.size >= l.off + l.size)?;
    let Sc::N(p) = &c.sc else { return None };
    if *p == ZERO { return Some(ZERO); }
    let t = terms(*p);
    if t.len() == 1 && t[0].1 == 1 && mono_len(t[0].0) == 1 {
        if let AD::Fun(n, w, _) = ad(mono(t[0].0)[0]) {
            if *n == format!("cat{}", l.size) { return w.get(((l.off - c.off) / l.size) as usize).cloned(); }
        }
    }
    None
}
