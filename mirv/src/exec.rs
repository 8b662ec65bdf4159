//! Symbolic execution of the IR: every path of a contract harness, every obligation on it.
use crate::body::*;
use crate::cs::CS;
use crate::smt::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::BinOp;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type NativeFn = fn(&mut Ex, &mut State, &InstInfo, Vec<Val>) -> Res<NR>;

pub enum NR {
    V(Val),
    /// tail call
    Call(u32, Vec<Val>),
    /// run formatting pieces into a heap buffer, then return
    Fmt { pieces: Rc<Vec<Piece>>, buf: Ptr, ret: FmtRet },
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FmtRet { Ok, Str }

#[derive(Clone)]
pub enum CallKind { Native(NativeFn), Mir, Redirect(u32), Panic(String), Unsup(String), Virtual }

#[derive(Clone)]
pub struct FmtSt { pub pieces: Rc<Vec<Piece>>, pub idx: usize, pub buf: Ptr, pub ret: FmtRet }

#[derive(Clone)]
pub struct Frame {
    pub fun: Option<Rc<Fun>>,
    pub fmt: Option<FmtSt>,
    pub locals: Vec<Val>,
    pub bb: usize,
    pub si: usize,
    pub dest: Option<Ptr>,
    pub target: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Rc<Vec<Val>>,
    pub ss: StrStore,
    pub inputs: Rc<Vec<(u8, Rc<str>, Val)>>,
    pub stubs: Rc<BTreeMap<String, u32>>,
    pub steps: u64,
    pub result: Option<Val>,
    pub covers: Rc<Vec<Rc<str>>>,
    pub cuts: Rc<Vec<crate::cut::Cut>>,
}

#[derive(Clone, Debug)]
pub struct Failure { pub label: String, pub detail: String, pub replay: Option<String>, pub definite: bool, pub note: String }

/// resident memory of this process
fn memory_mb() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok())).unwrap_or(0) * 4 / 1024 }

#[derive(Default, Clone, Debug)]
pub struct ObStat { pub trivial: u64, pub smt: u64, pub failed: u64, pub unknown: u64 }

pub struct Ex<'a> {
    pub prog: &'a mut Prog,
    pub kinds: HashMap<u32, CallKind>,
    pub z: Solver,
    pub obs: BTreeMap<String, ObStat>,
    pub failures: Vec<Failure>,
    pub undecided: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeMap<String, u64>,
    pub natives: BTreeMap<String, u64>,
    pub stubs_used: BTreeSet<String>,
    pub paths: u64,
    pub taints: BTreeMap<String, u64>,
    pub bounds: BTreeSet<String>,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_steps: u64,
    pub ticks: u64,
    pub harness: String,
    pub nested: u32,
    pub pred_cache: HashMap<(u32, u32, String), CS>,
    pub fail_states: Vec<(State, String)>,
    pub incomplete: Option<String>,
    pub stop_on_fail: usize,
    pub samples: Vec<State>,
    pub open: Vec<State>,
    pub sample_max: usize,
    pub rng: crate::concretize::Rng,
    pub lines: BTreeMap<String, String>,
    pub stub_cache: HashMap<u32, Option<(String, crate::ghost::Stub)>>,
    pub next_value: u32,
    pub loop_mods: crate::cut::Mods,
    pub restart: bool,
    pub live: HashMap<u32, Rc<Vec<Vec<bool>>>>,
}

enum Loc { P(Ptr), S(Ptr, usize, usize), V(Val) }

impl State {
    pub fn new() -> State {
        State { frames: vec![], heap: Default::default(), ss: StrStore::new(), inputs: Default::default(), stubs: Default::default(), steps: 0, result: None, covers: Default::default(), cuts: Default::default() }
    }
    pub fn top(&mut self) -> &mut Frame { Rc::make_mut(self.frames.last_mut().unwrap()) }
    pub fn alloc(&mut self, v: Val) -> Ptr {
        let h = Rc::make_mut(&mut self.heap);
        h.push(v);
        Ptr::new(Base::Heap(h.len() as u32 - 1))
    }
}

pub fn field(v: &Val, i: u32) -> Res<Val> {
    match v {
        Val::Agg(f) | Val::Enum(_, f) | Val::Vec(f) => f.get(i as usize).cloned().ok_or_else(|| Stop::Unsup(format!("field {} of {:?}", i, short(v)))),
        other => unsup(format!("field {} of {}", i, short(other))),
    }
}
pub fn short(v: &Val) -> String { let s = format!("{:?}", v); if s.len() > 160 { let mut k = 160; while !s.is_char_boundary(k) { k -= 1; } format!("{}…", &s[..k]) } else { s } }

impl<'a> Ex<'a> {
    pub fn new(prog: &'a mut Prog, secs: u64) -> Self {
        Ex { prog, kinds: HashMap::new(), z: Solver::new(), obs: Default::default(), failures: vec![], undecided: Default::default(), covers: Default::default(),
            funcs: Default::default(), natives: Default::default(), stubs_used: Default::default(), paths: 0, taints: Default::default(), bounds: Default::default(), deadline: Instant::now() + Duration::from_secs(secs),
            max_paths: 2_000_000, max_steps: 400_000, ticks: 0, harness: String::new(), nested: 0, pred_cache: HashMap::new(), fail_states: vec![], incomplete: None, stop_on_fail: 12, samples: vec![], open: vec![], sample_max: 0, rng: crate::concretize::Rng(0x9E3779B97F4A7C15), lines: Default::default(), stub_cache: Default::default(), loop_mods: Default::default(), restart: false, live: Default::default(), next_value: 0 }
    }
    // ---- memory --------------------------------------------------------------------------
    pub fn read(&self, st: &State, p: &Ptr) -> Res<Val> {
        let mut v: &Val = match p.base {
            Base::Local(f, l) => &st.frames.get(f as usize).ok_or_else(|| Stop::Unsup("dangling frame".into()))?.locals[l as usize],
            Base::Heap(h) => &st.heap[h as usize],
            Base::Const(c) => &self.prog.consts[c as usize],
        };
        for i in p.path.iter() {
            v = match v {
                Val::Agg(f) | Val::Enum(_, f) | Val::Vec(f) => f.get(*i as usize).ok_or_else(|| Stop::Unsup(format!("read field {} of {}", i, short(v))))?,
                Val::VecM(f) => match f.get(*i as usize) { Some(e) if !matches!(e, Val::Many(..)) => e, _ => return unsup("read of many elements") },
                other => return unsup(format!("read through {} (path {:?})", short(other), p)),
            };
        }
        Ok(v.clone())
    }
    pub fn write(&self, st: &mut State, p: &Ptr, val: Val) -> Res<()> {
        let mut v: &mut Val = match p.base {
            Base::Local(f, l) => &mut Rc::make_mut(&mut st.frames[f as usize]).locals[l as usize],
            Base::Heap(h) => &mut Rc::make_mut(&mut st.heap)[h as usize],
            Base::Const(_) => return unsup("write to constant memory"),
        };
        for i in p.path.iter() {
            let i = *i as usize;
            if let Val::Uninit = v { *v = Val::Agg(Rc::new(vec![])); }
            v = match v {
                Val::Agg(f) | Val::Enum(_, f) | Val::Vec(f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i { f.push(Val::Uninit); }
                    &mut f[i]
                }
                other => return unsup(format!("write through {}", short(other))),
            };
        }
        *v = val;
        Ok(())
    }
    /// follow references until a value
    pub fn deref(&self, st: &State, v: &Val) -> Res<Val> {
        match v { Val::Ref(p) => self.read(st, p), other => Ok(other.clone()) }
    }
    pub fn deref_all(&self, st: &State, v: &Val) -> Res<Val> {
        let mut v = v.clone();
        while let Val::Ref(p) = &v { v = self.read(st, p)?; }
        Ok(v)
    }
    /// elements designated by a slice-like value (reference to array / vector, slice)
    pub fn slice_of(&self, st: &State, v: &Val) -> Res<(Ptr, usize, usize)> {
        match v {
            Val::Slice(p, o, n) => Ok((p.clone(), *o, *n)),
            Val::Ref(p) => match self.read(st, p)? {
                Val::Vec(f) | Val::Agg(f) => Ok((p.clone(), 0, f.len())),
                x @ (Val::Ref(_) | Val::Slice(..)) => self.slice_of(st, &x),
                other => unsup(format!("slice of {}", short(&other))),
            },
            other => unsup(format!("slice of {}", short(other))),
        }
    }
    pub fn elems(&self, st: &State, v: &Val) -> Res<Vec<Val>> {
        if let Val::Vec(f) = v { return Ok(f.to_vec()); }
        let (p, o, n) = self.slice_of(st, v)?;
        (o..o + n).map(|i| self.read(st, &p.field(i as u32))).collect()
    }
    /// text designated by a value: &str, String, &String, &&str ...
    pub fn text(&self, st: &State, v: &Val) -> Res<Rope> {
        match self.deref_all(st, v)? {
            Val::Str(r) => Ok(st.ss.norm(&r)),
            Val::Enum(_, f) if f.len() == 1 => self.text(st, &f[0]), // Cow
            other => unsup(format!("text of {}", short(&other))),
        }
    }
    pub fn int(&self, st: &State, v: &Val) -> Res<T> {
        match self.deref_all(st, v)? { Val::Int(t) => Ok(st.ss.term(t)), other => unsup(format!("integer expected, got {}", short(&other))) }
    }
    pub fn usize_const(&mut self, st: &State, v: &Val) -> Res<usize> {
        let t = self.int(st, v)?;
        match t.konst() { Some(k) => Ok(k as usize), None => unsup(format!("symbolic index {}", t.show())) }
    }

    fn resolve(&mut self, st: &State, pl: &Pl) -> Res<Loc> {
        let depth = st.frames.len() as u32 - 1;
        let mut cur = Loc::P(Ptr::new(Base::Local(depth, pl.local as u32)));
        for e in &pl.proj {
            cur = match e {
                PE::Deref => {
                    let v = match &cur { Loc::P(p) => self.read(st, p)?, Loc::V(v) => v.clone(), Loc::S(..) => return unsup("deref of a slice") };
                    match v { Val::Ref(p) => Loc::P(p), Val::Slice(p, o, n) => Loc::S(p, o, n), v => Loc::V(v) }
                }
                PE::Field(i) => match cur { Loc::P(p) => Loc::P(p.field(*i)), Loc::V(v) => Loc::V(field(&v, *i)?), Loc::S(..) => return unsup("field of a slice") },
                PE::Index(l) => {
                    let iv = st.frames.last().unwrap().locals[*l].clone();
                    let n = match &cur { Loc::S(_, _, n) => *n, Loc::P(p) => match self.read(st, p)? { Val::Agg(f) | Val::Vec(f) => f.len(), o => return unsup(format!("index into {}", short(&o))) }, _ => return unsup("index") };
                    let i = self.pick_index(st, &iv, n)?;
                    match cur { Loc::S(p, o, _) => Loc::P(p.field((o + i) as u32)), Loc::P(p) => Loc::P(p.field(i as u32)), _ => unreachable!() }
                }
                PE::ConstIdx(k, fe) => match cur {
                    Loc::S(p, o, n) => Loc::P(p.field((if *fe { o + n - *k as usize } else { o + *k as usize }) as u32)),
                    Loc::P(p) => { let n = match self.read(st, &p)? { Val::Agg(f) | Val::Vec(f) => f.len(), _ => return unsup("const index") }; Loc::P(p.field((if *fe { n - *k as usize } else { *k as usize }) as u32)) }
                    _ => return unsup("const index"),
                },
                PE::Subslice(a, b, fe) => match cur {
                    Loc::S(p, o, n) => { let end = if *fe { n - *b as usize } else { *b as usize }; Loc::S(p, o + *a as usize, end - *a as usize) }
                    Loc::P(p) => { let n = match self.read(st, &p)? { Val::Agg(f) | Val::Vec(f) => f.len(), _ => return unsup("subslice") }; let end = if *fe { n - *b as usize } else { *b as usize }; Loc::S(p, *a as usize, end - *a as usize) }
                    _ => return unsup("subslice"),
                },
            };
        }
        Ok(cur)
    }
    /// concrete index below n, by case split if symbolic
    pub fn pick_index(&mut self, st: &State, v: &Val, n: usize) -> Res<usize> {
        let t = self.int(st, v)?;
        if let Some(k) = t.konst() { return Ok(k as usize); }
        for k in 0..n { if st.ss.pc.contains(&t.teq(T::c(k as u128, t.w()))) { return Ok(k); } }
        Err(Stop::Fork((0..n).map(|k| vec![Upd::Assume(t.teq(T::c(k as u128, t.w())))]).collect()))
    }
    fn read_loc(&self, st: &State, l: Loc) -> Res<Val> {
        match l { Loc::P(p) => self.read(st, &p), Loc::V(v) => Ok(v), Loc::S(p, o, n) => Ok(Val::Slice(p, o, n)) }
    }
    pub fn opd(&mut self, st: &State, o: &Opd) -> Res<Val> {
        match o {
            Opd::Const(v) => Ok(v.clone()),
            Opd::Place(p) => {
                if p.proj.is_empty() { return Ok(st.frames.last().unwrap().locals[p.local].clone()); }
                let l = self.resolve(st, p)?;
                self.read_loc(st, l)
            }
            Opd::Bad(e) => unsup(e.clone()),
        }
    }
    fn assign(&mut self, st: &mut State, pl: &Pl, v: Val) -> Res<()> {
        if pl.proj.is_empty() { st.top().locals[pl.local] = v; return Ok(()); }
        match self.resolve(st, pl)? { Loc::P(p) => self.write(st, &p, v), _ => unsup("assignment target") }
    }
    pub fn ord(k: i32) -> Val { Val::Enum((k + 1) as u32, Rc::new(vec![])) }

    pub fn arith(&mut self, st: &State, op: BinOp, a: T, b: T, s: bool) -> Res<T> {
        let (a, b) = (st.ss.term(a), st.ss.term(b));
        let w = a.w();
        Ok(match op {
            BinOp::Add | BinOp::AddUnchecked => a.bin(Op::Add, b),
            BinOp::Sub | BinOp::SubUnchecked => a.bin(Op::Sub, b),
            BinOp::Mul | BinOp::MulUnchecked => a.bin(Op::Mul, b),
            BinOp::Div => a.bin(if s { Op::SDiv } else { Op::UDiv }, b),
            BinOp::Rem => a.bin(if s { Op::SRem } else { Op::URem }, b),
            BinOp::BitXor => a.bin(Op::Xor, b),
            BinOp::BitAnd => a.bin(Op::And, b),
            BinOp::BitOr => a.bin(Op::Or, b),
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let b = if b.w() > w { b.trunc(w) } else { b.zext(w) };
                let b = b.bin(Op::And, T::c(w as u128 - 1, w));
                match op { BinOp::Shl | BinOp::ShlUnchecked => a.bin(Op::Shl, b), _ => a.bin(if s { Op::AShr } else { Op::LShr }, b) }
            }
            BinOp::Eq => a.teq(b),
            BinOp::Ne => a.tne(b),
            BinOp::Lt => a.bin(if s { Op::Slt } else { Op::Ult }, b),
            BinOp::Le => a.bin(if s { Op::Sle } else { Op::Ule }, b),
            BinOp::Gt => b.bin(if s { Op::Slt } else { Op::Ult }, a),
            BinOp::Ge => b.bin(if s { Op::Sle } else { Op::Ule }, a),
            BinOp::Cmp | BinOp::Offset => return unsup("operator"),
        })
    }
    pub fn overflow(&mut self, st: &State, op: BinOp, a: T, b: T, s: bool) -> Res<T> {
        let (a, b) = (st.ss.term(a), st.ss.term(b));
        let w = a.w();
        let x = |t: T, n: u16| if s { t.sext(n) } else { t.zext(n) };
        Ok(match op {
            BinOp::Add | BinOp::Sub | BinOp::Mul if w < 128 => {
                if op == BinOp::Sub && !s { return Ok(a.bin(Op::Ult, b)); }
                if op == BinOp::Add && !s && w == 64 && a.konst().is_none() | b.konst().is_none() { if let (Some(p), Some(q)) = (st.ss.upper(a), st.ss.upper(b)) { if p.checked_add(q).map_or(false, |z| z < 1 << 64) { return Ok(T::c(0, 0)); } } }
                let n = if op == BinOp::Mul { (2 * w).min(128) } else { w + 1 };
                let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, _ => Op::Mul };
                let wide = x(a, n).bin(o, x(b, n));
                let nar = a.bin(o, b);
                wide.tne(x(nar, n))
            }
            BinOp::Shl | BinOp::Shr => T::c(w as u128, b.w().max(8)).bin(Op::Ule, if b.w() < 8 { b.zext(8) } else { b }),
            _ => return unsup("checked operator"),
        })
    }
    fn rvalue(&mut self, st: &mut State, rv: &Rv) -> Res<Val> {
        Ok(match rv {
            Rv::Use(o) => self.opd(st, o)?,
            Rv::Ref(pl) => {
                if let Some(PE::Deref) = pl.proj.last() {
                    let inner = Pl { local: pl.local, proj: pl.proj[..pl.proj.len() - 1].to_vec() };
                    let v = self.opd(st, &Opd::Place(inner.clone()))?;
                    match v {
                        Val::Ref(_) | Val::Slice(..) | Val::Str(_) | Val::Dyn(..) | Val::FnPtr(_) | Val::FmtArg(..) => v,
                        // a value standing for itself behind a pointer
                        other => other,
                    }
                } else {
                    match self.resolve(st, pl)? { Loc::P(p) => Val::Ref(p), Loc::S(p, o, n) => Val::Slice(p, o, n), Loc::V(v) => { let p = st.alloc(v); Val::Ref(p) } }
                }
            }
            Rv::Bin(op, a, b, w, s) => {
                let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                if *w == 999 {
                    return match (op, &x, &y) {
                        (BinOp::Eq, _, _) if x == y => Ok(vbool(true)),
                        (BinOp::Ne, _, _) if x == y => Ok(vbool(false)),
                        _ => unsup(format!("pointer operation {:?}", op)),
                    };
                }
                let (x, y) = (self.int(st, &x)?, self.int(st, &y)?);
                if *op == BinOp::Cmp {
                    let lt = self.arith(st, BinOp::Lt, x, y, *s)?;
                    let eq = x.teq(y);
                    if self.decide(st, lt)? { return Ok(Self::ord(-1)); }
                    return Ok(if self.decide(st, eq)? { Self::ord(0) } else { Self::ord(1) });
                }
                Val::Int(self.arith(st, *op, x, y, *s)?)
            }
            Rv::Checked(op, a, b, w, s) => {
                if *w == 999 { return unsup("checked pointer operation"); }
                let (x, y) = (self.opd(st, a)?, self.opd(st, b)?);
                let (x, y) = (self.int(st, &x)?, self.int(st, &y)?);
                let v = self.arith(st, *op, x, y, *s)?;
                let o = self.overflow(st, *op, x, y, *s)?;
                agg(vec![Val::Int(v), Val::Int(o)])
            }
            Rv::Not(a) => { let x = self.opd(st, a)?; Val::Int(self.int(st, &x)?.not()) }
            Rv::Neg(a) => { let x = self.opd(st, a)?; Val::Int(self.int(st, &x)?.neg()) }
            Rv::PtrMeta(a) => {
                match self.opd(st, a)? {
                    Val::Slice(_, _, n) => vusize(n),
                    Val::Str(r) => Val::Int(st.ss.len(&r)),
                    Val::Ref(p) => match self.read(st, &p) { Ok(Val::Vec(f)) => vusize(f.len()), _ => unit() },
                    o => return unsup(format!("metadata of {}", short(&o))),
                }
            }
            Rv::Len(pl) => match self.resolve(st, pl)? { Loc::S(_, _, n) => vusize(n), Loc::P(p) => match self.read(st, &p)? { Val::Agg(f) | Val::Vec(f) => vusize(f.len()), _ => return unsup("len") }, _ => return unsup("len") },
            Rv::Discr(pl, tab, w) => {
                let l = self.resolve(st, pl)?;
                match self.read_loc(st, l)? {
                    Val::Enum(v, _) => Val::Int(T::c(tab[v as usize], *w)),
                    // writes of zero-sized values are removed from the MIR
                    Val::Uninit if tab.len() == 1 => Val::Int(T::c(tab[0], *w)),
                    // an unknown error
                    Val::Opaque(i) if i >> 31 == 1 && *w == 64 && tab.iter().enumerate().all(|(k, d)| k as u128 == *d) => Val::Int(T(i & 0x7fff_ffff)),
                    o => return unsup(format!("discriminant of {}", short(&o))),
                }
            }
            Rv::Agg(os) => { let mut v = vec![]; for o in os { v.push(self.opd(st, o)?); } agg(v) }
            Rv::Variant(k, os) => { let mut v = vec![]; for o in os { v.push(self.opd(st, o)?); } Val::Enum(*k, Rc::new(v)) }
            Rv::RawPtr(a, b) => {
                let (p, m) = (self.opd(st, a)?, self.opd(st, b)?);
                match (p, m) {
                    (Val::Ref(p), Val::Int(n)) => match n.konst() { Some(n) => Val::Slice(p, 0, n as usize), None => return unsup("raw slice") },
                    (p, Val::Agg(_)) => p,
                    _ => return unsup("raw pointer"),
                }
            }
            Rv::MkString(a) => match self.opd(st, a)? { Val::Vec(v) if v.is_empty() => vstr(""), Val::Str(s) => Val::Str(s), o => return unsup(format!("string made of {}", short(&o))) },
            Rv::MkVec(n) => match self.opd(st, n)? { Val::Int(t) if t.konst() == Some(0) => Val::Vec(Rc::new(vec![])), o => return unsup(format!("vector made with length {}", short(&o))) },
            Rv::IntCast(o, s, w) => {
                let v = self.opd(st, o)?;
                let t = self.int(st, &v)?;
                let r = if t.w() == *w { t } else if t.w() > *w { if *w == 0 { return unsup("cast to bool"); } t.trunc(*w) } else if *s { t.sext(*w) } else { t.zext(*w) };
                Val::Int(r)
            }
            Rv::Unsize(o, n, d) => {
                let v = self.opd(st, o)?;
                match (n, d) {
                    (Some(n), _) => match v { Val::Ref(p) => Val::Slice(p, 0, *n), o => return unsup(format!("unsize {}", short(&o))) },
                    (_, Some(d)) => Val::Dyn(Rc::new(v), *d),
                    _ => return unsup("unsize"),
                }
            }
            Rv::Repeat(o, n) => { let v = self.opd(st, o)?; agg(vec![v; *n]) }
            Rv::FnPtr(i) => Val::FnPtr(*i),
            Rv::Bad(e) => return unsup(e.clone()),
        })
    }
    /// truth of a boolean term, by case split if both are possible
    pub fn decide(&mut self, st: &State, t: T) -> Res<bool> {
        let t = st.ss.term(t);
        if let Some(b) = t.kbool().or_else(|| st.ss.decide_len(t)) { return Ok(b); }
        if st.ss.pc.contains(&t) { return Ok(true); }
        if st.ss.pc.contains(&t.bnot()) { return Ok(false); }
        if let Node::Bin(Op::BAnd, a, b) = t.node() { return Ok(self.decide(st, a)? && self.decide(st, b)?); }
        Err(Stop::Fork(vec![vec![Upd::Assume(t)], vec![Upd::Assume(t.bnot())]]))
    }

    // ---- obligations ---------------------------------------------------------------------

    pub fn ob(&mut self, label: &str) -> &mut ObStat { self.obs.entry(label.to_string()).or_default() }

    pub fn ensure(&mut self, st: &mut State, label: &str, t: T) -> Res<()> {
        let t = st.ss.term(t);
        if t.kbool().or_else(|| st.ss.decide_len(t)) == Some(true) { self.ob(label).trivial += 1; return Ok(()); }
        let neg = t.bnot();
        if t.kbool().is_none() {
            // character constraints live outside the solver
            let mut s2 = st.ss.clone();
            if !s2.assume(neg, &mut self.z) { self.ob(label).smt += 1; return Ok(()); }
            match st.ss.query(neg, &mut self.z) {
                R::Unsat => { self.ob(label).smt += 1; return Ok(()); }
                R::Unknown => return unsup(format!("the solver gave no answer on: {}", label)),
                R::Sat => {}
            }
            let mut stf = st.clone();
            stf.ss = s2;
            self.fail(&stf, label, format!("cannot establish {}", t.show()));
            if !st.ss.assume(t, &mut self.z) { return Err(Stop::Done); }
            return Ok(());
        }
        self.fail(st, label, "is false on this path".into());
        Err(Stop::Done)
    }
    pub fn fail(&mut self, st: &State, label: &str, detail: String) {
        self.ob(label).failed += 1;
        if self.nested > 0 { /* failure inside a nested evaluation is still a failure of the path */ }
        if self.fail_states.iter().filter(|f| f.1.starts_with(label)).count() < self.stop_on_fail { self.fail_states.push((st.clone(), format!("{}\u{1}{}", label, detail))); }
    }

    // ---- running -------------------------------------------------------------------------

    pub fn push_call(&mut self, st: &mut State, id: u32, args: Vec<Val>, dest: Option<Ptr>, target: usize) -> Res<()> {
        let f = match self.prog.fun(id) { Ok(f) => f, Err(e) => return unsup(e) };
        *self.funcs.entry(f.name.clone()).or_default() += 1;
        if !self.lines.contains_key(&f.name) { self.lines.insert(f.name.clone(), f.file.clone()); }
        if st.frames.len() > 400 { return unsup("call depth"); }
        let mut locals = vec![Val::Uninit; f.nlocals];
        for (i, v) in &f.zsts { locals[*i] = v.clone(); }
        let mut args = args;
        if args.len() != f.nargs || (f.is_closure && !f.spread) {
            // rust-call convention: untuple the last argument
            if f.nargs > args.len() || (f.is_closure && args.len() == 2) {
                match args.pop() {
                    Some(Val::Agg(t)) if args.len() + t.len() == f.nargs => args.extend(t.iter().cloned()),
                    Some(o) => { if args.len() + 1 == f.nargs { args.push(o) } else { return unsup(format!("argument count calling {}", f.name)); } }
                    None => {}
                }
            }
        }
        if args.len() != f.nargs { return unsup(format!("argument count calling {} ({} for {})", f.name, args.len(), f.nargs)); }
        for (i, a) in args.into_iter().enumerate() { locals[i + 1] = a; }
        st.frames.push(Rc::new(Frame { fun: Some(f), fmt: None, locals, bb: 0, si: 0, dest, target }));
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Val) -> Res<()> {
        let fr = st.frames.pop().unwrap();
        match &fr.dest {
            Some(d) => { self.write(st, d, v)?; let t = fr.target; let top = st.top(); if top.fmt.is_none() { if t == usize::MAX { return unsup("return into a diverging call"); } top.bb = t; top.si = 0; } }
            None => st.result = Some(v),
        }
        Ok(())
    }
    /// arguments of a call through a function pointer: a closure gets its (empty) environment
    pub fn ptr_args(&mut self, st: &mut State, id: u32, a: Vec<Val>) -> Vec<Val> {
        use rustc_public::ty::*;
        if let TyKind::RigidTy(RigidTy::Closure(..)) = self.prog.infos[id as usize].inst.ty().kind() { let p = st.alloc(agg(vec![])); return vec![Val::Ref(p), agg(a)]; }
        a
    }
    pub fn kind(&mut self, id: u32) -> CallKind {
        if let Some(k) = self.kinds.get(&id) { return k.clone(); }
        let info = self.prog.info(id);
        let k = crate::natives::classify(self, &info, id);
        self.kinds.insert(id, k.clone());
        k
    }
    /// perform a call from the current frame
    pub fn call(&mut self, st: &mut State, id: u32, args: Vec<Val>, dest: Option<Ptr>, target: usize) -> Res<()> {
        let mut id = id;
        let mut args = args;
        loop {
            if !st.stubs.is_empty() {
                if let Some(v) = crate::ghost::stub_call(self, st, id, &args)? {
                    match dest {
                        Some(d) => { self.write(st, &d, v)?; let top = st.top(); if top.fmt.is_none() { top.bb = target; top.si = 0; } }
                        None => st.result = Some(v),
                    }
                    return Ok(());
                }
            }
            match self.kind(id) {
                CallKind::Mir => {
                    return self.push_call(st, id, args, dest, target);
                }
                CallKind::Redirect(i) => { id = i; if let CallKind::Mir = self.kind(i) { return self.push_call(st, i, args, dest, target); } }
                CallKind::Panic(m) => return Err(Stop::Panic(m)),
                CallKind::Unsup(m) => return unsup(m),
                CallKind::Virtual => {
                    let info = self.prog.info(id);
                    let recv = match &args[0] { Val::Ref(p) => self.read(st, p)?, v => v.clone() };
                    match recv {
                        Val::Dyn(v, t) => { args[0] = (*v).clone(); let ty = self.prog.dyn_types[t as usize]; id = self.prog.devirt(&info, ty).map_err(Stop::Unsup)?; }
                        o => return unsup(format!("virtual call on {}", short(&o))),
                    }
                }
                CallKind::Native(f) => {
                    let info = self.prog.info(id);
                    *self.natives.entry(info.def.clone()).or_default() += 1;
                    match f(self, st, &info, args)? {
                        NR::V(v) => {
                            match dest {
                                Some(d) => { self.write(st, &d, v)?; let top = st.top(); if top.fmt.is_none() { if target == usize::MAX { return unsup("native returned from a diverging call"); } top.bb = target; top.si = 0; } }
                                None => st.result = Some(v),
                            }
                            return Ok(());
                        }
                        NR::Call(i, a) => { id = i; args = a; }
                        NR::Fmt { pieces, buf, ret } => {
                            st.frames.push(Rc::new(Frame { fun: None, fmt: Some(FmtSt { pieces, idx: 0, buf, ret }), locals: vec![Val::Uninit], bb: 0, si: 0, dest, target }));
                            return Ok(());
                        }
                    }
                }
            }
        }
    }
    fn step_fmt(&mut self, st: &mut State) -> Res<()> {
        let fs = st.frames.last().unwrap().fmt.clone().unwrap();
        if fs.idx == fs.pieces.len() {
            let v = match fs.ret { FmtRet::Ok => ok(unit()), FmtRet::Str => self.read(st, &fs.buf)? };
            return self.ret(st, v);
        }
        match &fs.pieces[fs.idx] {
            Piece::Lit(l) => self.append(st, &fs.buf, &lit(l))?,
            Piece::Arg(v, f, o) => {
                if o.special { return unsup("format options"); }
                let depth = st.frames.len() as u32 - 1;
                // advance first: the callee returns into local 0 of this frame
                let before = st.clone();
                st.top().fmt.as_mut().unwrap().idx += 1;
                let r = self.call(st, *f, vec![v.clone(), Val::Ref(fs.buf.clone())], Some(Ptr::new(Base::Local(depth, 0))), 0);
                if r.is_err() { *st = before; }
                return r;
            }
        }
        st.top().fmt.as_mut().unwrap().idx += 1;
        Ok(())
    }
    pub fn append(&mut self, st: &mut State, buf: &Ptr, r: &Rope) -> Res<()> {
        match self.read(st, buf)? {
            Val::Str(b) => { let v = concat(&[b, r.clone()]); self.write(st, buf, Val::Str(v)) }
            Val::Ref(p) => self.append(st, &p, r),
            Val::Agg(f) if f.len() == 2 => match &f[1] { Val::Dyn(w, _) => match &**w { Val::Ref(p) => self.append(st, p, r), o => unsup(format!("append to {}", short(o))) }, o => unsup(format!("append to {}", short(o))) },
            o => unsup(format!("append to {}", short(&o))),
        }
    }
    /// run until something is decided; returns forks
    fn step(&mut self, st: &mut State) -> Res<Option<Vec<State>>> {
        st.steps += 1;
        if st.steps > self.max_steps { return unsup("step limit"); }
        let fr = st.frames.last().unwrap().clone();
        if fr.fmt.is_some() { self.step_fmt(st)?; return Ok(None); }
        let fun = fr.fun.clone().unwrap();
        let blk = &fun.blocks[fr.bb];
        drop(fr);
        loop {
            let si = st.frames.last().unwrap().si;
            if si >= blk.stmts.len() { break; }
            match &blk.stmts[si] {
                St::Assign(pl, rv) => { let v = self.rvalue(st, rv)?; self.assign(st, pl, v)?; }
                St::SetDiscr(pl, k) => {
                    let l = self.resolve(st, pl)?;
                    if let Loc::P(p) = l {
                        let v = match self.read(st, &p)? { Val::Agg(f) | Val::Enum(_, f) => Val::Enum(*k, f), _ => Val::Enum(*k, Rc::new(vec![])) };
                        self.write(st, &p, v)?;
                    }
                }
                St::Bad(e) => return unsup(e.clone()),
            }
            st.top().si += 1;
        }
        match &blk.term {
            Tm::Goto(t) => { let f = st.top(); f.bb = *t; f.si = 0; }
            Tm::Return => { let v = st.frames.last().unwrap().locals[0].clone(); self.ret(st, v)?; }
            Tm::Unreachable => return Err(Stop::Panic("unreachable code reached".into())),
            Tm::Switch(o, brs, other) => {
                let v = self.opd(st, o)?;
                let t = self.int(st, &v)?;
                if let Some(k) = t.konst() {
                    let tgt = brs.iter().find(|b| b.0 == k).map(|b| b.1).unwrap_or(*other);
                    let f = st.top(); f.bb = tgt; f.si = 0;
                    return Ok(None);
                }
                let w = t.w();
                let mut alts: Vec<(T, usize)> = vec![];
                let mut rest = T::b(true);
                for (k, tgt) in brs {
                    let e = t.teq(T::c(*k, w));
                    alts.push((e, *tgt));
                    rest = rest.band(e.bnot());
                }
                let reach = !matches!(fun.blocks[*other].term, Tm::Unreachable) || !fun.blocks[*other].stmts.is_empty();
                if reach || rest.kbool() != Some(false) { alts.push((rest, *other)); }
                return Ok(Some(self.branch(st, alts)));
            }
            Tm::Assert { cond, expected, msg, target } => {
                let v = self.opd(st, cond)?;
                let mut t = self.int(st, &v)?;
                if !*expected { t = t.bnot(); }
                let label = format!("no panic: {} in {}", msg, fun.name);
                t = st.ss.term(t);
                match t.kbool().or_else(|| st.ss.decide_len(t)) {
                    Some(true) => { self.ob(&label).trivial += 1; let f = st.top(); f.bb = *target; f.si = 0; }
                    _ => {
                        let mut s2 = st.clone();
                        if s2.ss.assume(t.bnot(), &mut self.z) { self.fail(&s2, &label, format!("can fail ({})", msg)); } else { self.ob(&label).smt += 1; }
                        if !st.ss.assume(t, &mut self.z) { return Err(Stop::Done); }
                        let f = st.top(); f.bb = *target; f.si = 0;
                    }
                }
            }
            Tm::Call { callee, args, dest, target } => {
                let mut a = Vec::with_capacity(args.len());
                for o in args { a.push(self.opd(st, o)?); }
                let d = match self.resolve(st, dest)? { Loc::P(p) => p, _ => return unsup("call destination") };
                let id = match callee {
                    CallT::Fun(i) => *i,
                    CallT::Ptr(o) => match self.opd(st, o)? { Val::FnPtr(i) => i, Val::Ref(p) => match self.read(st, &p)? { Val::FnPtr(i) => i, o => return unsup(format!("call of {}", short(&o))) }, o => return unsup(format!("call of {}", short(&o))) },
                };
                if let CallT::Ptr(_) = callee { a = self.ptr_args(st, id, a); }
                self.call(st, id, a, Some(d), target.unwrap_or(usize::MAX))?;
            }
            Tm::Bad(e) => return unsup(e.clone()),
        }
        Ok(None)
    }
    fn branch(&mut self, st: &State, alts: Vec<(T, usize)>) -> Vec<State> {
        let mut out = vec![];
        if std::env::var("MIRV_FORKS").is_ok() { eprintln!("BRANCH {} at {}", alts.iter().map(|a| a.0.show()).collect::<Vec<_>>().join(" / "), self.where_(st)); }
        for (c, tgt) in alts {
            let mut s = st.clone();
            if !s.ss.assume(c, &mut self.z) { continue; }
            let f = s.top(); f.bb = tgt; f.si = 0;
            out.push(s);
        }
        out
    }
    /// apply the alternatives of a fork
    fn fork(&mut self, st: &State, alts: Vec<Vec<Upd>>, out: &mut Vec<State>, depth: u32) {
        if std::env::var("MIRV_FORKS").is_ok() { eprintln!("FORK {:?} {} at {}", alts, alts.iter().flatten().filter_map(|u| if let Upd::Assume(t) = u { Some(t.show()) } else { None }).collect::<Vec<_>>().join(" / "), self.where_(st)); }
        for alt in alts {
            let mut s = st.clone();
            self.apply_all(&mut s, &alt, 0, out, depth);
        }
    }
    fn apply_all(&mut self, s: &mut State, alt: &[Upd], from: usize, out: &mut Vec<State>, depth: u32) {
        for i in from..alt.len() {
            let save = s.ss.clone();
            match s.ss.apply(&alt[i], &mut self.z) {
                Ok(true) => {}
                Ok(false) => return,
                Err(Stop::Fork(sub)) => {
                    s.ss = save;
                    if depth > 12 { *self.undecided.entry("nested case split".into()).or_default() += 1; self.incomplete.get_or_insert("nested case split".into()); return; }
                    for a in sub {
                        let mut s2 = s.clone();
                        let mut list = a.clone();
                        list.extend_from_slice(&alt[i..]);
                        self.apply_all(&mut s2, &list, 0, out, depth + 1);
                    }
                    return;
                }
                Err(Stop::Infeasible) | Err(Stop::Done) => return,
                Err(Stop::Unsup(e)) => { self.undecided_path(s, e); return; }
                Err(Stop::Panic(e)) => { self.undecided_path(s, e); return; }
            }
        }
        out.push(s.clone());
    }
    /// reservoir of finished paths, replayed natively as a check of the engine
    fn sample(&mut self, s: &State) {
        if self.samples.len() < self.sample_max { self.samples.push(s.clone()); return; }
        let k = self.rng.below(self.paths as usize);
        if k < self.sample_max { self.samples[k] = s.clone(); }
    }
    fn undecided_path(&mut self, st: &State, e: String) {
        if std::env::var("MIRV_DEBUG").is_ok() {
            eprintln!("[{}] UNDECIDED {} at {}", self.harness, e, self.where_(st));
            for (n, f) in st.frames.iter().enumerate().rev().take(8) {
                if let Some(fu) = &f.fun {
                    eprintln!("  #{} {} bb{}.{} line {}", n, fu.name, f.bb, f.si, fu.blocks[f.bb].line);
                    if std::env::var("MIRV_LOCALS").is_ok() { for (k, l) in f.locals.iter().enumerate() { if *l != Val::Uninit { eprintln!("        _{} = {}", k, short(l)); } } }
                }
            }
        }
        let w = self.where_(st);
        let n = self.undecided.entry(format!("{} ({})", e, w)).or_default();
        *n += 1;
        // such a path gets native runs instead
        if self.nested == 0 && (*n <= 8 || n.is_power_of_two()) && self.open.len() < 160 { self.open.push(st.clone()); }
    }
    fn keep_open(&mut self, s: State, work: &[State]) {
        if self.nested > 0 { return; }
        self.open.push(s);
        let step = work.len() / 60 + 1;
        for w in work.iter().step_by(step) { self.open.push(w.clone()); }
    }
    pub fn where_(&self, st: &State) -> String {
        // innermost frame inside the repository or the contracts, and the innermost frame
        let mut s = String::new();
        for f in st.frames.iter().rev() {
            if let Some(fu) = &f.fun {
                if s.is_empty() { s = fu.name.clone(); }
                if fu.file.contains("/repo/") { let n = fu.name.clone(); return if s == n { format!("{}", n) } else { format!("{} in {}", s, n) }; }
            }
        }
        s
    }
    /// explore all continuations of `st` until its frame depth falls to `base`; calls `done` on each end state
    pub fn explore(&mut self, st: State, base: usize) -> Vec<State> {
        let mut work = vec![st];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            if self.incomplete.is_some() || self.restart { break; }
            if Instant::now() > self.deadline { self.incomplete = Some(format!("time limit, {} open paths", work.len() + 1)); self.keep_open(s, &work); break; }
            self.ticks += 1;
            let mut steps = 0u64;
            if self.ticks % 512 == 0 && memory_mb() > 3500 { self.incomplete = Some(format!("memory limit, {} open paths", work.len() + 1)); self.keep_open(s, &work); break; }
            if self.paths > self.max_paths { self.incomplete = Some("path limit".into()); break; }
            loop {
                if s.frames.len() <= base { if self.nested == 0 { self.paths += 1; if let Some(t) = s.ss.taint { *self.taints.entry(t.into()).or_default() += 1; } if self.sample_max > 0 { self.sample(&s); } } out.push(s); break; }
                steps += 1;
                if steps % 4096 == 0 && Instant::now() > self.deadline { self.incomplete = Some("time limit inside a path".into()); self.keep_open(s, &work); break; }
                match self.step(&mut s) {
                    Ok(None) => {}
                    Ok(Some(v)) => { work.extend(v.into_iter().rev()); break; }
                    Err(Stop::Fork(alts)) => { let mut v = vec![]; self.fork(&s, alts, &mut v, 0); work.extend(v.into_iter().rev()); break; }
                    Err(Stop::Panic(m)) => {
                        self.paths += 1;
                        let label = format!("no panic: {} in {}", m, self.where_(&s));
                        self.fail(&s, &label, "is reachable".into());
                        break;
                    }
                    Err(Stop::Unsup(e)) => { self.paths += 1; self.undecided_path(&s, e); break; }
                    Err(Stop::Infeasible) => break,
                    Err(Stop::Done) => { self.paths += 1; break; }
                }
            }
            if self.nested == 0 { out.clear(); }
        }
        out
    }
    /// evaluate a call in isolation: all outcomes
    pub fn eval_call(&mut self, st: &State, id: u32, args: Vec<Val>) -> Res<Vec<State>> {
        let mut s = st.clone();
        let base = s.frames.len();
        s.result = None;
        self.nested += 1;
        let saved = self.undecided.clone();
        let r = self.call(&mut s, id, args, None, 0);
        let out = match r {
            Ok(()) => { let o = self.explore(s, base); Ok(o) }
            Err(e) => Err(e),
        };
        self.nested -= 1;
        if self.undecided != saved { self.undecided = saved; return unsup("predicate not evaluated"); }
        out
    }
}
