//! Symbolic values, ropes and the path state.
use crate::cs::CS;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Rope = Rc<Vec<Seg>>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    Lit(Rc<str>),
    Sym(u32),
    Ch(T),
    /// decimal rendering of an integer term
    IntS(T, bool),
    /// rendering of a rust_decimal value
    DecS(T),
    /// text that a type under a codec contract prints for a value in a version
    Cod(u32, u32, T),
}

/// contract of a type's parser and printer, as callers may use it (proved by the type's own contract function)
#[derive(Clone, Debug)]
pub struct Codec { pub pure_fn: bool, pub pre_not: CS, pub pre_first: CS, pub until: u8, pub total: bool, pub ty: String, pub cs: CS, pub first: CS, pub last: CS, pub nonempty: bool, pub accepts: CS, pub from: u8, pub exact: bool, pub examples: Vec<String>, pub errs: Vec<usize> }
thread_local! { pub static CODECS: std::cell::RefCell<Vec<Codec>> = Default::default(); }
pub fn codec<X>(k: u32, f: impl FnOnce(&Codec) -> X) -> X { CODECS.with(|c| f(&c.borrow()[k as usize])) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base { Local(u32, u32), Heap(u32), Const(u32) }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr { pub base: Base, pub path: Rc<[u32]> }

impl Ptr {
    pub fn new(base: Base) -> Ptr { Ptr { base, path: Rc::from([]) } }
    pub fn field(&self, i: u32) -> Ptr {
        let mut v: Vec<u32> = self.path.to_vec();
        v.push(i);
        Ptr { base: self.base, path: v.into() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Uninit,
    Int(T),
    Agg(Rc<Vec<Val>>),
    Enum(u32, Rc<Vec<Val>>),
    Ref(Ptr),
    Slice(Ptr, usize, usize),
    Str(Rope),
    Vec(Rc<Vec<Val>>),
    /// the lines of a text, collected (only to be joined)
    LinesVec(Rope),
    Dec(T),
    It(Rc<It>),
    FnPtr(u32),
    Dyn(Rc<Val>, u32),
    /// display argument: value reference and callee index of the formatting function
    FmtArg(Rc<Val>, u32),
    /// decoded format arguments
    FmtArgs(Rc<Vec<Piece>>),
    /// a lazily classified integer parse error
    IntErr(Rope, u16, bool),
    Opaque(u32),
    /// a list with parts of unknown length
    VecM(Rc<Vec<Val>>),
    /// what a loop appended to its list for a block (see cut.rs)
    Many(Rc<str>, u32, u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Piece { Lit(Rc<str>), Arg(Val, u32, FmtOpts) }

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct FmtOpts { pub flags: u32, pub width: u16, pub prec: u16, pub special: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum It {
    Slice(Ptr, usize, usize),
    VecInto(Rc<Vec<Val>>, usize, usize),
    Lines(Rope),
    Chars(Rope),
    Bytes(Rope),
    CharIdx(Rope, T),
    /// remaining text, separator set, finished
    Split(Rope, CS, bool),
    SplitLit(Rope, Rc<str>, bool),
    /// occurrences of a text
    Matches(Rope, Rc<str>),
    ConstIdx(Rc<Vec<Val>>, usize),
    /// remaining text, separator, pieces left
    SplitX(Rope, Sep, usize, SplitKind),
    SplitWs(Rope),
    Windows(Ptr, usize, usize, usize),
    Chunks(Ptr, usize, usize, usize, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sep { Set(CS), Lit(Rc<str>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SplitKind { Plain, Term, Incl, Back }

#[derive(Clone, Debug, PartialEq)]
pub struct SymInfo { pub cs: CS, pub first: CS, pub last: CS, pub nonempty: bool, pub name: Rc<str> }

#[derive(Clone, Debug)]
pub enum SymE { Free(SymInfo), Bound(Rope) }

#[derive(Clone, Debug, PartialEq)]
pub enum Fact {
    NeLit(Rope, Rc<str>),
    NeRope(Rope, Rope),
    NotStarts(Rope, Rc<str>),
    NotEnds(Rope, Rc<str>),
    NotContains(Rope, Rc<str>),
    NonEmpty(Rope),
    Int(Rope, u16, bool, Option<T>),
    /// classification of an integer parse error (0 empty, 1 invalid digit, 2 positive overflow, 3 negative overflow)
    IntKind(Rope, u16, bool, u32),
    Dec(Rope, Option<T>),
    /// codec, text, version: accepted as this value, or rejected
    Cod(u32, Rope, T, Option<u32>),
    /// two values of a codec are equal or not
    CodEq(u32, u32, bool),
    /// the character occurs at most this often
    AtMost(Rope, char, usize),
}

#[derive(Clone, Debug)]
pub enum Upd {
    Subst(u32, Rope),
    Narrow(u32, CS),
    First(u32, CS),
    Last(u32, CS),
    NonEmpty(u32),
    NarrowCh(T, CS),
    Assume(T),
    Fact(Fact),
    Taint(&'static str),
    /// a loop took the whole block
    Taken(Rc<str>, u32),
    /// an iteration begins behind the first block and ends before the second
    Step(u32, u32),
}

#[derive(Debug)]
pub enum Stop {
    Fork(Vec<Vec<Upd>>),
    Panic(String),
    Unsup(String),
    Infeasible,
    Done,
}
pub type Res<X> = Result<X, Stop>;
pub fn unsup<X>(s: impl Into<String>) -> Res<X> { Err(Stop::Unsup(s.into())) }

pub fn lit(s: &str) -> Rope { if s.is_empty() { Rc::new(vec![]) } else { Rc::new(vec![Seg::Lit(s.into())]) } }
pub fn unit() -> Val { Val::Agg(Rc::new(vec![])) }
pub fn vbool(b: bool) -> Val { Val::Int(T::b(b)) }
pub fn vusize(n: usize) -> Val { Val::Int(T::c(n as u128, 64)) }
pub fn none() -> Val { Val::Enum(0, Rc::new(vec![])) }
pub fn some(v: Val) -> Val { Val::Enum(1, Rc::new(vec![v])) }
pub fn ok(v: Val) -> Val { Val::Enum(0, Rc::new(vec![v])) }
pub fn err(v: Val) -> Val { Val::Enum(1, Rc::new(vec![v])) }
pub fn agg(v: Vec<Val>) -> Val { Val::Agg(Rc::new(v)) }
pub fn vstr(s: &str) -> Val { Val::Str(lit(s)) }

pub struct Input { pub kind: &'static str, pub label: Rc<str>, pub val: Val }

#[derive(Clone)]
pub struct StrStore {
    pub syms: Rc<Vec<SymE>>,
    pub chars: Rc<HashMap<T, CS>>,
    pub charval: Rc<HashMap<T, char>>,
    pub facts: Rc<Vec<Fact>>,
    pub pc: Rc<Vec<T>>,
    pub taint: Option<&'static str>,
    /// (function, argument) -> value memo for uninterpreted conversions
    pub version: u32,
    /// symbols that stand for any number of lines, with the characters a line may begin with
    pub blocks: Rc<BTreeMap<u32, CS>>,
    pub taken: Rc<Vec<(Rc<str>, u32)>>,
    pub steps: Rc<Vec<(u32, u32)>>,
}

pub fn rope_is_lit(r: &Rope) -> Option<Rc<str>> {
    match r.len() { 0 => Some("".into()), 1 => if let Seg::Lit(s) = &r[0] { Some(s.clone()) } else { None }, _ => None }
}

fn push_seg(out: &mut Vec<Seg>, s: Seg) {
    if let Seg::Lit(b) = &s {
        if b.is_empty() { return; }
        if let Some(Seg::Lit(a)) = out.last_mut() {
            let mut x = a.to_string();
            x.push_str(b);
            *a = x.into();
            return;
        }
    }
    out.push(s);
}
pub fn concat(ropes: &[Rope]) -> Rope {
    let mut out = vec![];
    for r in ropes { for s in r.iter() { push_seg(&mut out, s.clone()); } }
    Rc::new(out)
}
pub fn rope_of(segs: &[Seg]) -> Rope {
    let mut out = vec![];
    for s in segs { push_seg(&mut out, s.clone()); }
    Rc::new(out)
}

pub fn show_dec(m: i128, s: u32) -> String {
    match rust_decimal::Decimal::try_from_i128_with_scale(m, s) { Ok(d) => d.to_string(), Err(_) => format!("{}e-{}", m, s) }
}

impl StrStore {
    pub fn new() -> Self {
        StrStore { syms: Rc::new(vec![]), chars: Default::default(), charval: Default::default(), facts: Default::default(), pc: Default::default(), taint: None, version: 0, blocks: Default::default(), taken: Default::default(), steps: Default::default() }
    }
    pub fn new_sym(&mut self, cs: CS, nonempty: bool, name: &str) -> u32 {
        let v = Rc::make_mut(&mut self.syms);
        v.push(SymE::Free(SymInfo { cs, first: cs, last: cs, nonempty, name: name.into() }));
        (v.len() - 1) as u32
    }
    pub fn new_sym_info(&mut self, mut i: SymInfo) -> u32 {
        i.first = i.first.and(i.cs);
        i.last = i.last.and(i.cs);
        let v = Rc::make_mut(&mut self.syms);
        v.push(SymE::Free(i));
        (v.len() - 1) as u32
    }
    pub fn new_block(&mut self, cs: CS, line: CS, name: &str) -> u32 {
        let s = self.new_sym_info(SymInfo { cs, first: cs.and(line.or(CS::one('\n'))), last: CS::one('\n'), nonempty: false, name: name.into() });
        Rc::make_mut(&mut self.blocks).insert(s, line);
        s
    }
    pub fn info(&self, s: u32) -> &SymInfo {
        match &self.syms[s as usize] { SymE::Free(i) => i, SymE::Bound(_) => panic!("bound symbol {}", s) }
    }
    pub fn new_char(&mut self, cs: CS) -> T {
        let t = T::charvar();
        Rc::make_mut(&mut self.chars).insert(t, cs);
        if let Some(c) = cs.single() { Rc::make_mut(&mut self.charval).insert(t, c); }
        t
    }
    pub fn norm(&self, r: &Rope) -> Rope {
        let dirty = r.iter().any(|s| match s {
            Seg::Sym(i) => match &self.syms[*i as usize] { SymE::Bound(_) => true, SymE::Free(i) => i.cs.is_none() || i.first.is_none() || i.last.is_none() },
            Seg::Ch(t) => t.konst().is_some() || self.charval.contains_key(t),
            Seg::IntS(t, _) => t.konst().is_some() || (t.dep() && self.term(*t) != *t) || self.fixed_int(*t).is_some(),
            Seg::DecS(t) => matches!(t.node(), Node::R(..) | Node::S2R(_) | Node::U2R(_)),
            Seg::Lit(s) => s.is_empty(),
            Seg::Cod(..) => false,
        });
        if !dirty { return r.clone(); }
        let mut out = vec![];
        self.norm_into(r, &mut out);
        Rc::new(out)
    }
    /// a condition that the path condition contains, or whose parts it contains
    pub fn decided(&self, t: T) -> Option<bool> {
        if let Some(k) = t.kbool().or_else(|| self.decide_len(t)) { return Some(k); }
        if self.pc.contains(&t) { return Some(true); }
        if self.pc.contains(&t.bnot()) { return Some(false); }
        match t.node() {
            Node::Bin(Op::BAnd, a, b) => match (self.decided(a), self.decided(b)) { (Some(true), Some(true)) => Some(true), (Some(false), _) | (_, Some(false)) => Some(false), _ => None },
            Node::BNot(a) => self.decided(a).map(|k| !k),
            _ => None,
        }
    }
    /// the value of a term that the path condition fixes by an equation
    fn fixed_int(&self, t: T) -> Option<u128> {
        if let Some(k) = t.konst() { return Some(k); }
        if let Node::Ite(c, a, b) = t.node() { if let Some(k) = self.decided(c) { return self.fixed_int(if k { a } else { b }); } }
        self.pc.iter().find_map(|e| match e.node() {
            Node::Bin(Op::Eq, a, b) if a == t => b.konst(),
            Node::Bin(Op::Eq, a, b) if b == t => a.konst(),
            _ => None,
        })
    }
    fn norm_into(&self, r: &Rope, out: &mut Vec<Seg>) {
        for s in r.iter() {
            match s {
                Seg::Sym(i) => match &self.syms[*i as usize] {
                    SymE::Bound(b) => self.norm_into(b, out),
                    SymE::Free(f) => if !(f.cs.is_none() || f.first.is_none() || f.last.is_none()) { push_seg(out, s.clone()) },
                },
                Seg::Ch(t) => {
                    if let Some(k) = t.konst() { push_seg(out, Seg::Lit(char::from_u32(k as u32).unwrap_or('?').to_string().into())) }
                    else if let Some(c) = self.charval.get(t) { push_seg(out, Seg::Lit(c.to_string().into())) }
                    else { push_seg(out, s.clone()) }
                }
                Seg::IntS(t, sg) => {
                    let t = self.term(*t);
                    match t.konst().or_else(|| self.fixed_int(t)) {
                        Some(k) => push_seg(out, Seg::Lit(if *sg { sext128(k, t.w()).to_string() } else { k.to_string() }.into())),
                        None => push_seg(out, Seg::IntS(t, *sg)),
                    }
                }
                Seg::DecS(t) => match t.node() {
                    Node::R(m, sc) => push_seg(out, Seg::Lit(show_dec(m, sc).into())),
                    Node::S2R(x) => push_seg(out, Seg::IntS(x, true)),
                    Node::U2R(x) => push_seg(out, Seg::IntS(x, false)),
                    _ => push_seg(out, s.clone()),
                },
                Seg::Lit(_) | Seg::Cod(..) => push_seg(out, s.clone()),
            }
        }
    }
    /// substitute resolved characters and string lengths in a term
    pub fn term(&self, t: T) -> T {
        if !t.dep() { return t; }
        let mut memo = HashMap::new();
        t.map_leaves(&mut |l| match l.node() {
            Node::V(_) => self.charval.get(&l).map(|c| T::c(*c as u128, 32)),
            Node::StrLen(s) if s >= OPAQUE_LEN => None,
            Node::StrLen(s) => match &self.syms[s as usize] {
                SymE::Bound(r) => Some(self.len(r)),
                SymE::Free(i) => if i.cs.is_none() || i.first.is_none() || i.last.is_none() { Some(T::c(0, 64)) } else if i.cs.ascii_only() { None } else { None },
            },
            Node::ChrLen(s) => match &self.syms[s as usize] {
                SymE::Bound(r) => Some(self.chars_len(r)),
                SymE::Free(i) => if i.cs.is_none() { Some(T::c(0, 64)) } else if i.cs.ascii_only() { Some(T::strlen(s)) } else { None },
            },
            Node::NlCnt(s) if s >= OPAQUE_LEN => None,
            Node::NlCnt(s) => match &self.syms[s as usize] {
                SymE::Bound(r) => Some(self.newlines(r)),
                SymE::Free(_) => { let t = self.newlines(&Rc::new(vec![Seg::Sym(s)])); if t == l { None } else { Some(t) } }
            },
            _ => None,
        }, &mut memo)
    }
    /// byte length of a rope as a term (sorted sum)
    pub fn len(&self, r: &Rope) -> T { self.sum_len(r, false, false) }
    pub fn chars_len(&self, r: &Rope) -> T { self.sum_len(r, true, false) }
    /// number of line breaks
    pub fn newlines(&self, r: &Rope) -> T { self.sum_len(r, false, true) }
    fn sum_len(&self, r: &Rope, chars: bool, nl: bool) -> T {
        let r = self.norm(r);
        let mut k: u128 = 0;
        let mut parts = vec![];
        for s in r.iter() {
            match s {
                _ if nl && !self.seg_cs(s).has('\n') => {}
                Seg::Lit(l) if nl => k += l.matches('\n').count() as u128,
                Seg::Sym(i) if nl => parts.push(if self.info(*i).cs.single() == Some('\n') { T::strlen(*i) } else { T::nlcnt(*i) }),
                Seg::Ch(t) if nl => if self.chars.get(t).and_then(|c| c.single()) == Some('\n') { k += 1 } else { parts.push(t.teq(T::c(10, 32)).ite(T::c(1, 64), T::c(0, 64))) },
                Seg::Cod(c, i, v) if nl => parts.push(cod_newlines(*c, *i, *v)),
                Seg::Lit(l) => k += if chars { l.chars().count() } else { l.len() } as u128,
                Seg::Sym(i) => {
                    let inf = self.info(*i);
                    parts.push(if chars && !inf.cs.ascii_only() { T::chrlen(*i) } else { T::strlen(*i) })
                }
                Seg::Ch(t) => {
                    let cs = self.chars.get(t).copied().unwrap_or(CS::ALL);
                    if chars || cs.ascii_only() { k += 1 } else {
                        let ls: std::collections::HashSet<usize> = cs.reps().iter().map(|c| c.len_utf8()).collect();
                        if ls.len() == 1 { k += *ls.iter().next().unwrap() as u128 } else {
                            let one = |v: u128| T::c(v, 64);
                            let t32 = |v: u128| T::c(v, 32);
                            parts.push(t.bin(Op::Ult, t32(0x80)).ite(one(1), t.bin(Op::Ult, t32(0x800)).ite(one(2), t.bin(Op::Ult, t32(0x10000)).ite(one(3), one(4)))));
                        }
                    }
                }
                Seg::IntS(t, sg) => parts.push(int_len(*t, *sg)),
                Seg::DecS(t) => parts.push(declen(*t)),
                Seg::Cod(c, i, v) => parts.push(codlen(*c, *i, *v)),
            }
        }
        parts.sort();
        let mut t = None;
        for p in parts { t = Some(match t { None => p, Some(x) => T::bin(x, Op::Add, p) }); }
        let kc = T::c(k, 64);
        match t { None => kc, Some(x) => if k == 0 { x } else { x.bin(Op::Add, kc) } }
    }
    pub fn seg_cs(&self, s: &Seg) -> CS {
        match s {
            Seg::Lit(l) => CS::of(l),
            Seg::Sym(i) => self.info(*i).cs,
            Seg::Ch(t) => self.chars.get(t).copied().unwrap_or(CS::ALL),
            Seg::IntS(_, sg) => if *sg { CS::digits().or(CS::one('-')) } else { CS::digits() },
            Seg::DecS(_) => CS::digits().or(CS::of("-.")),
            Seg::Cod(c, ..) => codec(*c, |c| c.cs),
        }
    }
    pub fn seg_first(&self, s: &Seg) -> CS {
        match s {
            Seg::Lit(l) => CS::one(l.chars().next().unwrap()),
            Seg::Sym(i) => self.info(*i).first,
            Seg::DecS(_) => CS::digits().or(CS::one('-')),
            Seg::Cod(c, ..) => codec(*c, |c| c.first),
            _ => self.seg_cs(s),
        }
    }
    pub fn seg_last(&self, s: &Seg) -> CS {
        match s {
            Seg::Lit(l) => CS::one(l.chars().next_back().unwrap()),
            Seg::Sym(i) => self.info(*i).last,
            Seg::IntS(..) | Seg::DecS(_) => CS::digits(),
            Seg::Cod(c, ..) => codec(*c, |c| c.last),
            _ => self.seg_cs(s),
        }
    }
    pub fn seg_nonempty(&self, s: &Seg) -> bool {
        match s { Seg::Sym(i) => self.info(*i).nonempty, Seg::Cod(c, ..) => codec(*c, |c| c.nonempty), _ => true }
    }
    /// set of characters the (normalised) rope may start with, and whether it may be empty
    pub fn rope_first(&self, segs: &[Seg]) -> (CS, bool) {
        let mut cs = CS::NONE;
        for s in segs {
            cs = cs.or(self.seg_first(s));
            if self.seg_nonempty(s) { return (cs, false); }
        }
        (cs, true)
    }
    pub fn rope_cs(&self, r: &Rope) -> CS { r.iter().fold(CS::NONE, |x, s| x.or(self.seg_cs(s))) }

    /// decide emptiness of a rope
    pub fn is_empty(&self, r: &Rope) -> Res<bool> {
        let r = self.norm(r);
        if r.is_empty() { return Ok(true); }
        if r.iter().any(|s| self.seg_nonempty(s)) { return Ok(false); }
        if r.len() == 1 {
            if let Seg::Sym(i) = r[0] { return Err(Stop::Fork(vec![vec![Upd::Subst(i, lit(""))], vec![Upd::NonEmpty(i)]])); }
        }
        // several possibly empty symbols: decide the first one
        for s in r.iter() { if let Seg::Sym(i) = s { return Err(Stop::Fork(vec![vec![Upd::NonEmpty(*i)], vec![Upd::Subst(*i, lit(""))]])); } }
        unsup("emptiness of a printed value")
    }

    // ---- updates -------------------------------------------------------------------------

    pub fn add_fact(&mut self, f: Fact) -> bool {
        match self.eval_fact(&f) {
            Some(true) => true,
            Some(false) => false,
            None => { if !self.facts.contains(&f) { Rc::make_mut(&mut self.facts).push(f); } true }
        }
    }
    /// Some(truth) if decided; constraints a decided fact implies are added by `refresh`
    fn eval_fact(&self, f: &Fact) -> Option<bool> {
        match f {
            Fact::NeLit(r, l) => {
                let r = self.norm(r);
                if let Some(s) = rope_is_lit(&r) { return Some(s != *l); }
                if !self.may_match(&r, l) { return Some(true); }
                None
            }
            Fact::NeRope(a, b) => {
                let (a, b) = (self.norm(a), self.norm(b));
                if a == b { return Some(false); }
                if let (Some(x), Some(y)) = (rope_is_lit(&a), rope_is_lit(&b)) { return Some(x != y); }
                None
            }
            Fact::NotStarts(r, l) => {
                let r = self.norm(r);
                match r.first() {
                    None => Some(!l.is_empty()),
                    Some(Seg::Lit(s)) => {
                        if s.starts_with(&**l) { return Some(false); }
                        if !l.starts_with(&**s) { return Some(true); }
                        if r.len() == 1 { return Some(true); }
                        None
                    }
                    Some(_) => {
                        let (cs, _) = self.rope_first(&r);
                        if !cs.has(l.chars().next().unwrap()) { return Some(true); }
                        None
                    }
                }
            }
            Fact::NotEnds(r, l) => {
                let r = self.norm(r);
                match r.last() {
                    None => Some(!l.is_empty()),
                    Some(Seg::Lit(s)) => {
                        if s.ends_with(&**l) { return Some(false); }
                        if !l.ends_with(&**s) { return Some(true); }
                        if r.len() == 1 { return Some(true); }
                        None
                    }
                    Some(_) => None,
                }
            }
            Fact::NotContains(r, l) => {
                let r = self.norm(r);
                for s in r.iter() { if let Seg::Lit(x) = s { if x.contains(&**l) { return Some(false); } } }
                if rope_is_lit(&r).is_some() { return Some(true); }
                let need = CS::of(l);
                if !need.sub(self.rope_cs(&r)) { return Some(true); }
                None
            }
            Fact::NonEmpty(r) => {
                let r = self.norm(r);
                if r.is_empty() { return Some(false); }
                if r.iter().any(|s| self.seg_nonempty(s)) { return Some(true); }
                None
            }
            Fact::Int(r, w, sg, v) => {
                let r = self.norm(r);
                if let Some(s) = rope_is_lit(&r) {
                    return match (parse_int(&s, *w, *sg), v) {
                        (Ok(k), Some(t)) => match t.konst() { Some(x) => Some(x == k & mask(*w)), None => None },
                        (Ok(_), None) => Some(false),
                        (Err(_), Some(_)) => Some(false),
                        (Err(_), None) => Some(true),
                    };
                }
                if v.is_some() && r.iter().any(|s| if let Seg::Lit(l) = s { !CS::of(l).sub(CS::intchars()) } else { false }) { return Some(false); }
                None
            }
            Fact::IntKind(r, w, sg, k) => {
                let r = self.norm(r);
                if let Some(s) = rope_is_lit(&r) { return Some(parse_int(&s, *w, *sg).err() == Some(*k)); }
                if *k == 0 && r.iter().any(|s| self.seg_nonempty(s)) { return Some(false); }
                None
            }
            Fact::Cod(k, r, _, v) => {
                let r = self.norm(r);
                if v.is_some() {
                    let acc = codec(*k, |c| c.accepts);
                    for s in r.iter() { match s { Seg::Lit(l) => if !CS::of(l).sub(acc) { return Some(false); }, _ => {} } }
                }
                None
            }
            Fact::CodEq(..) => None,
            Fact::AtMost(r, c, n) => {
                let r = self.norm(r);
                let k: usize = r.iter().map(|s| match s { Seg::Lit(l) => l.matches(*c).count(), Seg::Ch(t) => (self.chars.get(t).and_then(|x| x.single()) == Some(*c)) as usize, _ => 0 }).sum();
                if k > *n { return Some(false); }
                if r.iter().all(|s| matches!(s, Seg::Lit(_)) || !self.seg_cs(s).has(*c)) { return Some(true); }
                None
            }
            Fact::Dec(r, v) => {
                let r = self.norm(r);
                if let Some(s) = rope_is_lit(&r) {
                    return match (parse_dec(&s), v) {
                        (Some((m, sc)), Some(t)) => match t.node() { Node::R(a, b) => Some(T::real(a, b).teq(T::real(m, sc)) == T::b(true)), _ => None },
                        (Some(_), None) => Some(false),
                        (None, Some(_)) => Some(false),
                        (None, None) => Some(true),
                    };
                }
                if v.is_some() && r.iter().any(|s| if let Seg::Lit(l) = s { !CS::of(l).sub(CS::decchars()) } else { false }) { return Some(false); }
                None
            }
        }
    }
    /// re-check facts after a change; false if contradictory
    pub fn refresh(&mut self) -> bool {
        // a character that has occurred as often as it may cannot occur elsewhere
        for i in 0..self.facts.len() {
            let Fact::AtMost(r, c, n) = &self.facts[i] else { continue };
            let (r, c, n) = (self.norm(r), *c, *n);
            let k: usize = r.iter().map(|s| match s { Seg::Lit(l) => l.matches(c).count(), Seg::Ch(t) => (self.chars.get(t).and_then(|x| x.single()) == Some(c)) as usize, _ => 0 }).sum();
            if k > n { return false; }
            if k == n {
                for s in r.iter() { match s {
                    Seg::Sym(i) => if self.info(*i).cs.has(c) && !self.narrow(*i, CS::one(c).inv()) { return false; },
                    Seg::Ch(t) => if self.chars.get(t).and_then(|x| x.single()) != Some(c) && self.chars.get(t).map_or(true, |x| x.has(c)) && !self.narrow_ch(*t, CS::one(c).inv()) { return false; },
                    _ => {}
                } }
            }
        }
        let facts = self.facts.clone();
        let mut keep = vec![];
        let mut changed = false;
        for f in facts.iter() {
            match self.eval_fact(f) {
                Some(false) => return false,
                Some(true) => { changed = true; if let Fact::Int(..) | Fact::Dec(..) | Fact::Cod(..) = f { keep.push(f.clone()); } }
                None => {
                    // a literal whose parse result is a free term: fix the term
                    match f {
                        Fact::Int(r, w, sg, Some(t)) => if let Some(s) = rope_is_lit(&self.norm(r)) {
                            if let Ok(k) = parse_int(&s, *w, *sg) { let c = t.teq(T::c(k, *w)); if !self.pc.contains(&c) { Rc::make_mut(&mut self.pc).push(c); } }
                        },
                        Fact::Cod(k, r, ..) => if self.taint.is_none() && !codec(*k, |c| c.pure_fn) && rope_is_lit(&self.norm(r)).is_some() { self.taint = Some("text given to a codec contract fixed afterwards"); },
                        Fact::Dec(r, Some(t)) => if let Some(s) = rope_is_lit(&self.norm(r)) {
                            if let Some((m, sc)) = parse_dec(&s) { let c = t.teq(T::real(m, sc)); if !self.pc.contains(&c) { Rc::make_mut(&mut self.pc).push(c); } }
                        },
                        _ => {}
                    }
                    keep.push(f.clone());
                }
            }
        }
        if changed { self.facts = Rc::new(keep); }
        true
    }
    /// could the normalised rope equal the literal? (over-approximation)
    pub fn may_match(&self, r: &Rope, l: &str) -> bool { !self.matches(r, l, 1).is_empty() }

    /// assignments of the symbols of `r` that make it equal to `l` (up to `max`)
    pub fn matches(&self, r: &Rope, l: &str, max: usize) -> Vec<Vec<Upd>> {
        let mut out = vec![];
        let mut cur = vec![];
        self.match_rec(r, 0, l, &mut cur, &mut out, max);
        out
    }
    fn match_rec(&self, r: &Rope, i: usize, l: &str, cur: &mut Vec<Upd>, out: &mut Vec<Vec<Upd>>, max: usize) {
        if out.len() >= max { return; }
        if i == r.len() { if l.is_empty() { out.push(cur.clone()); } return; }
        match &r[i] {
            Seg::Lit(s) => if let Some(rest) = l.strip_prefix(&**s) { self.match_rec(r, i + 1, rest, cur, out, max) },
            Seg::Ch(t) => {
                if let Some(c) = l.chars().next() {
                    if self.seg_cs(&r[i]).has(c) {
                        cur.push(Upd::Assume(t.teq(T::c(c as u128, 32))));
                        self.match_rec(r, i + 1, &l[c.len_utf8()..], cur, out, max);
                        cur.pop();
                    }
                }
            }
            Seg::Sym(s) => {
                let inf = self.info(*s);
                for (p, _) in l.char_indices().chain(std::iter::once((l.len(), ' '))) {
                    let pre = &l[..p];
                    if i + 1 == r.len() && p != l.len() { continue; }
                    if !conforms(inf, pre) {
                        if !CS::of(pre).sub(inf.cs) { break; }
                        continue;
                    }
                    // the same symbol may occur twice
                    if let Some(Upd::Subst(_, x)) = cur.iter().find(|u| matches!(u, Upd::Subst(y, _) if y == s)) {
                        if rope_is_lit(x).as_deref() != Some(pre) { continue; }
                        self.match_rec(r, i + 1, &l[p..], cur, out, max);
                        continue;
                    }
                    cur.push(Upd::Subst(*s, lit(pre)));
                    self.match_rec(r, i + 1, &l[p..], cur, out, max);
                    cur.pop();
                }
            }
            Seg::IntS(t, sg) => {
                for (p, _) in l.char_indices().skip(1).chain(std::iter::once((l.len(), ' '))) {
                    let pre = &l[..p];
                    if i + 1 == r.len() && p != l.len() { continue; }
                    if let Ok(k) = parse_int(pre, t.w(), *sg) {
                        let canon = if *sg { sext128(k & mask(t.w()), t.w()).to_string() } else { (k & mask(t.w())).to_string() };
                        if canon == pre {
                            cur.push(Upd::Assume(t.teq(T::c(k, t.w()))));
                            self.match_rec(r, i + 1, &l[p..], cur, out, max);
                            cur.pop();
                        }
                    }
                }
            }
            Seg::Cod(k, ..) => {
                let inf = codec(*k, |c| SymInfo { cs: c.cs, first: c.first, last: c.last, nonempty: c.nonempty, name: "".into() });
                for (p, _) in l.char_indices().chain(std::iter::once((l.len(), ' '))) {
                    let pre = &l[..p];
                    if i + 1 == r.len() && p != l.len() { continue; }
                    if !conforms(&inf, pre) { continue; }
                    cur.push(Upd::Taint("printed value compared with a literal"));
                    self.match_rec(r, i + 1, &l[p..], cur, out, max);
                    cur.pop();
                }
            }
            Seg::DecS(t) => {
                for (p, _) in l.char_indices().skip(1).chain(std::iter::once((l.len(), ' '))) {
                    let pre = &l[..p];
                    if i + 1 == r.len() && p != l.len() { continue; }
                    if let Some((m, sc)) = parse_dec(pre) {
                        if show_dec(m, sc) == pre {
                            // the rendering also fixes the scale, so equality of the values is an over-approximation
                            cur.push(Upd::Assume(t.teq(T::real(m, sc))));
                            cur.push(Upd::Taint("decimal rendering compared with a literal"));
                            self.match_rec(r, i + 1, &l[p..], cur, out, max);
                            cur.pop();
                            cur.pop();
                        }
                    }
                }
            }
        }
    }

    /// apply an update; Ok(false) means contradiction, Err asks for a case split first
    pub fn apply(&mut self, u: &Upd, z: &mut Solver) -> Res<bool> {
        match u {
            Upd::Subst(s, r) => {
                if let SymE::Bound(b) = &self.syms[*s as usize] {
                    let b = b.clone();
                    return match self.rope_eq(&b, r)? { true => Ok(true), false => Ok(false) };
                }
                let inf = self.info(*s).clone();
                let r = self.norm(r);
                if let Some(l) = rope_is_lit(&r) {
                    if !conforms(&inf, &l) { return Ok(false); }
                } else {
                    if r.iter().any(|x| matches!(x, Seg::Sym(i) if i == s)) { return unsup("cyclic substitution"); }
                    // impose the constraints of the symbol on the rope
                    for x in r.iter() {
                        match x {
                            Seg::Lit(l) => if !CS::of(l).sub(inf.cs) { return Ok(false); },
                            Seg::Sym(i) => if !self.narrow(*i, inf.cs) { return Ok(false); },
                            Seg::Ch(t) => if !self.narrow_ch(*t, inf.cs) { return Ok(false); },
                            Seg::IntS(t, _) => if !self.seg_cs(x).sub(inf.cs) {
                                // e.g. a minus sign that is not allowed
                                if inf.cs.or(CS::one('-')) == inf.cs || !CS::digits().sub(inf.cs) { return unsup("integer text substituted for a narrower symbol"); }
                                let c = t.bin(Op::Slt, T::c(0, t.w())).bnot();
                                if !self.assume(c, z) { return Ok(false); }
                            },
                            Seg::DecS(_) | Seg::Cod(..) => if !self.seg_cs(x).sub(inf.cs) { self.taint = Some("decimal text substituted for a narrower symbol"); },
                        }
                    }
                    let r2 = self.norm(&r);
                    if inf.nonempty && r2.is_empty() { return Ok(false); }
                    if inf.nonempty && !r2.iter().any(|x| self.seg_nonempty(x)) {
                        if r2.len() == 1 { if let Seg::Sym(i) = r2[0] { self.set_nonempty(i); } }
                        else if !self.add_fact(Fact::NonEmpty(r2.clone())) { return Ok(false); }
                    }
                    if inf.first != inf.cs { if !self.impose_first(&r2, inf.first)? { return Ok(false); } }
                    if inf.last != inf.cs { if !self.impose_last(&r2, inf.last)? { return Ok(false); } }
                }
                Rc::make_mut(&mut self.syms)[*s as usize] = SymE::Bound(r);
                self.version += 1;
                Ok(self.refresh())
            }
            Upd::Narrow(s, cs) => Ok(self.narrow_b(*s, *cs) && self.refresh()),
            Upd::First(s, cs) => {
                if let SymE::Bound(b) = &self.syms[*s as usize] { let b = self.norm(&b.clone()); return self.impose_first(&b, *cs); }
                let i = self.info_mut(*s);
                i.first = i.first.and(*cs);
                if i.first.is_none() && i.nonempty { return Ok(false); }
                Ok(self.refresh())
            }
            Upd::Last(s, cs) => {
                if let SymE::Bound(b) = &self.syms[*s as usize] { let b = self.norm(&b.clone()); return self.impose_last(&b, *cs); }
                let i = self.info_mut(*s);
                i.last = i.last.and(*cs);
                if i.last.is_none() && i.nonempty { return Ok(false); }
                Ok(self.refresh())
            }
            Upd::NonEmpty(s) => {
                if let SymE::Bound(b) = &self.syms[*s as usize] { let b = b.clone(); return Ok(self.add_fact(Fact::NonEmpty(b))); }
                let i = self.info(*s);
                if i.cs.is_none() || i.first.is_none() || i.last.is_none() { return Ok(false); }
                self.set_nonempty(*s);
                Ok(self.refresh())
            }
            Upd::NarrowCh(t, cs) => Ok(self.narrow_ch(*t, *cs) && self.refresh()),
            Upd::Assume(t) => { let t = self.term(*t); Ok(self.assume(t, z)) }
            Upd::Fact(f) => Ok(self.add_fact(f.clone())),
            Upd::Taken(k, b) => { Rc::make_mut(&mut self.taken).push((k.clone(), *b)); Ok(true) }
            Upd::Step(a, b) => { Rc::make_mut(&mut self.steps).push((*a, *b)); Ok(true) }
            Upd::Taint(s) => { if self.taint.is_none() { self.taint = Some(s); } Ok(true) }
        }
    }
    pub fn info_mut(&mut self, s: u32) -> &mut SymInfo {
        match &mut Rc::make_mut(&mut self.syms)[s as usize] { SymE::Free(i) => i, SymE::Bound(_) => panic!() }
    }
    fn set_nonempty(&mut self, s: u32) { self.info_mut(s).nonempty = true; }
    fn narrow(&mut self, s: u32, cs: CS) -> bool {
        let i = self.info_mut(s);
        i.cs = i.cs.and(cs); i.first = i.first.and(cs); i.last = i.last.and(cs);
        !(i.nonempty && (i.cs.is_none() || i.first.is_none() || i.last.is_none()))
    }
    fn narrow_b(&mut self, s: u32, cs: CS) -> bool {
        match &self.syms[s as usize] {
            SymE::Free(_) => self.narrow(s, cs),
            SymE::Bound(b) => {
                let b = self.norm(&b.clone());
                for x in b.iter() {
                    match x {
                        Seg::Sym(i) => if !self.narrow(*i, cs) { return false; },
                        Seg::Ch(t) => if !self.narrow_ch(*t, cs) { return false; },
                        Seg::Lit(l) => if !CS::of(l).sub(cs) { return false; },
                        _ => {}
                    }
                }
                true
            }
        }
    }
    pub fn narrow_ch(&mut self, t: T, cs: CS) -> bool {
        let cur = self.chars.get(&t).copied().unwrap_or(CS::ALL).and(cs);
        if cur.is_none() { return false; }
        Rc::make_mut(&mut self.chars).insert(t, cur);
        if let Some(c) = cur.single() { Rc::make_mut(&mut self.charval).insert(t, c); }
        true
    }
    fn impose_first(&mut self, r: &Rope, cs: CS) -> Res<bool> {
        if self.rope_first(r).0.sub(cs) { return Ok(true); }
        for x in r.iter() {
            match x {
                Seg::Sym(i) => {
                    let i = *i;
                    let inf = self.info(i);
                    if inf.first.sub(cs) { if inf.nonempty { return Ok(true); } else { continue_check(r, x); } }
                    if !inf.nonempty && r.len() > 1 && r.last() != Some(x) {
                        return Err(Stop::Fork(vec![vec![Upd::Subst(i, lit(""))], vec![Upd::NonEmpty(i)]]));
                    }
                    let ne = inf.nonempty;
                    let im = self.info_mut(i);
                    im.first = im.first.and(cs);
                    return Ok(!(ne && im.first.is_none()));
                }
                Seg::Ch(t) => return Ok(self.narrow_ch(*t, cs)),
                Seg::Lit(l) => return Ok(cs.has(l.chars().next().unwrap())),
                _ => { if !self.seg_first(x).sub(cs) { self.taint = Some("first character of a number constrained"); } return Ok(!self.seg_first(x).disjoint(cs)); }
            }
        }
        Ok(true)
    }
    fn impose_last(&mut self, r: &Rope, cs: CS) -> Res<bool> {
        for x in r.iter().rev() {
            match x {
                Seg::Sym(i) => {
                    let i = *i;
                    let inf = self.info(i);
                    if !inf.nonempty && r.len() > 1 && r.first() != Some(x) {
                        return Err(Stop::Fork(vec![vec![Upd::Subst(i, lit(""))], vec![Upd::NonEmpty(i)]]));
                    }
                    let ne = inf.nonempty;
                    let im = self.info_mut(i);
                    im.last = im.last.and(cs);
                    return Ok(!(ne && im.last.is_none()));
                }
                Seg::Ch(t) => return Ok(self.narrow_ch(*t, cs)),
                Seg::Lit(l) => return Ok(cs.has(l.chars().next_back().unwrap())),
                _ => { if !self.seg_last(x).sub(cs) { self.taint = Some("last character of a number constrained"); } return Ok(!self.seg_last(x).disjoint(cs)); }
            }
        }
        Ok(true)
    }
    /// add a constraint to the path; false if infeasible
    /// linear form of a length expression: coefficients of length leaves and a (signed) constant
    fn lin(&self, t: T, k: i128, m: &mut std::collections::BTreeMap<T, i128>, c: &mut i128) -> bool {
        match t.node() {
            Node::C(v) => { let v = sext128(v, 64); if v.abs() > 1 << 41 { return false; } *c += k * v; true }
            Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => { *m.entry(t).or_default() += k; true }
            Node::Bin(Op::Add, a, b) => self.lin(a, k, m, c) && self.lin(b, k, m, c),
            Node::Bin(Op::Sub, a, b) => self.lin(a, k, m, c) && self.lin(b, -k, m, c),
            // the encoded length of a character: an if-then-else over small constants
            Node::Ite(..) if ite_min(t).is_some() => { *m.entry(t).or_default() += k; true }
            _ => false,
        }
    }
    fn leaf_min(&self, t: T) -> i128 {
        match t.node() { Node::Ite(..) => ite_min(t).unwrap_or(0), Node::StrLen(s) if s >= OPAQUE_LEN => 1, Node::StrLen(s) | Node::ChrLen(s) => match &self.syms[s as usize] { SymE::Free(i) if i.nonempty => 1, _ => 0 }, _ => 0 }
    }
    /// an upper bound of a sum of lengths
    pub fn upper(&self, t: T) -> Option<u128> {
        match t.node() {
            Node::C(v) => Some(v),
            Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => Some(1 << 40),
            Node::Zext(a) => self.upper(a),
            Node::V(_) => self.pc.iter().filter_map(|p| match p.node() { Node::Bin(Op::Ult, a, b) if a == t => b.konst(), _ => None }).min(),
            Node::Bin(Op::Add, a, b) => { let s = self.upper(a)?.checked_add(self.upper(b)?)?; if s < 1 << (t.w().min(64) - 1) { Some(s) } else { None } }
            Node::Ite(_, a, b) => Some(self.upper(a)?.max(self.upper(b)?)),
            _ => None,
        }
    }
    /// truth of a comparison of text lengths that follows from their structure
    pub fn decide_len(&self, t: T) -> Option<bool> {
        if !t.dep() { return None; }
        match t.node() {
            Node::BNot(x) => self.decide_len(x).map(|b| !b),
            Node::Bin(op @ (Op::Eq | Op::Ult | Op::Ule), a, b) if a.w() == 64 => {
                let mut m = Default::default();
                let mut c = 0;
                if op != Op::Eq {
                    // neither side may wrap
                    for x in [a, b] {
                        let mut m1 = Default::default(); let mut c1 = 0;
                        if !self.lin(x, 1, &mut m1, &mut c1) { return None; }
                        if m1.values().any(|k| *k < 0) || c1 + m1.iter().map(|(t, k)| k * self.leaf_min(*t)).sum::<i128>() < 0 { return None; }
                    }
                }
                if !self.lin(b, 1, &mut m, &mut c) || !self.lin(a, -1, &mut m, &mut c) { return None; }
                m.retain(|_, k| *k != 0);
                let lo = if m.values().all(|k| *k > 0) { Some(c + m.iter().map(|(t, k)| k * self.leaf_min(*t)).sum::<i128>()) } else { None };
                let hi = if m.values().all(|k| *k < 0) { Some(c + m.iter().map(|(t, k)| k * self.leaf_min(*t)).sum::<i128>()) } else { None };
                match op {
                    Op::Eq => if lo.map_or(false, |x| x > 0) || hi.map_or(false, |x| x < 0) { Some(false) } else if m.is_empty() { Some(c == 0) } else { None },
                    Op::Ult => if lo.map_or(false, |x| x > 0) { Some(true) } else if hi.map_or(false, |x| x <= 0) { Some(false) } else { None },
                    _ => if lo.map_or(false, |x| x >= 0) { Some(true) } else if hi.map_or(false, |x| x < 0) { Some(false) } else { None },
                }
            }
            Node::Bin(Op::BAnd, a, b) => match (self.decide_len(a), self.decide_len(b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Node::Bin(Op::BOr, a, b) => match (self.decide_len(a), self.decide_len(b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            _ => None,
        }
    }
    /// non-emptiness of the texts whose lengths occur
    pub fn len_hints(&self, t: T) -> Vec<T> {
        let mut out = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut ls = vec![];
        if t.dep() { t.leaves(&mut ls, &mut seen); }
        for p in self.pc.iter() { if p.dep() { p.leaves(&mut ls, &mut seen); } }
        for l in ls { if self.leaf_min(l) > 0 { out.push(T::c(0, 64).bin(Op::Ult, l)); } }
        out
    }
    pub fn query(&self, t: T, z: &mut Solver) -> R {
        let h = self.len_hints(t);
        if h.is_empty() { return z.check_sliced(&self.pc, t); }
        let mut v: Vec<T> = self.pc.to_vec();
        v.extend(h);
        z.check_sliced(&v, t)
    }
    pub fn assume(&mut self, t: T, z: &mut Solver) -> bool {
        match t.kbool().or_else(|| self.decide_len(t)) { Some(b) => return b, None => {} }
        if let Node::Bin(Op::BAnd, a, b) = t.node() { return self.assume(a, z) && { let b = self.term(b); self.assume(b, z) }; }
        // constraints over a single character
        if t.dep() {
            let ls = t.leaf_vec();
            if ls.len() == 1 && ls[0].is_charvar() {
                let v = ls[0];
                let cur = self.chars.get(&v).copied().unwrap_or(CS::ALL);
                let ncs = cur.filter(|c| {
                    let mut m = HashMap::new();
                    m.insert(v, T::c(c as u128, 32));
                    t.subst_all(&mut |_| None, &mut m).kbool() == Some(true)
                });
                return self.narrow_ch(v, ncs) && self.refresh();
            }
        }
        if self.pc.contains(&t) { return true; }
        if self.pc.contains(&t.bnot()) { return false; }
        if self.query(t, z) == R::Unsat { return false; }
        Rc::make_mut(&mut self.pc).push(t);
        true
    }

    // ---- queries -------------------------------------------------------------------------

    /// decide equality of two ropes
    pub fn rope_eq(&self, a: &Rope, b: &Rope) -> Res<bool> {
        let (mut a, mut b) = (self.norm(a), self.norm(b));
        // strip equal prefix / suffix
        loop {
            let mut changed = false;
            if let (Some(x), Some(y)) = (a.first(), b.first()) {
                if x == y { a = rope_of(&a[1..]); b = rope_of(&b[1..]); changed = true; }
                else if let (Seg::Lit(p), Seg::Lit(q)) = (x, y) {
                    let n = common_prefix(p, q);
                    if n == 0 { return Ok(false); }
                    let mut va = a.to_vec(); let mut vb = b.to_vec();
                    va[0] = Seg::Lit(p[n..].into()); vb[0] = Seg::Lit(q[n..].into());
                    a = rope_of(&va); b = rope_of(&vb);
                    if a.first().map_or(false, |s| matches!(s, Seg::Lit(_))) && b.first().map_or(false, |s| matches!(s, Seg::Lit(_))) { return Ok(false); }
                    changed = true;
                }
            }
            if !changed {
                if let (Some(x), Some(y)) = (a.last(), b.last()) {
                    if x == y { a = rope_of(&a[..a.len() - 1]); b = rope_of(&b[..b.len() - 1]); changed = true; }
                    else if let (Seg::Lit(p), Seg::Lit(q)) = (x, y) {
                        let n = common_suffix(p, q);
                        if n == 0 { return Ok(false); }
                        let (la, lb) = (a.len() - 1, b.len() - 1);
                        let mut va = a.to_vec(); let mut vb = b.to_vec();
                        va[la] = Seg::Lit(p[..p.len() - n].into()); vb[lb] = Seg::Lit(q[..q.len() - n].into());
                        a = rope_of(&va); b = rope_of(&vb);
                        if a.last().map_or(false, |s| matches!(s, Seg::Lit(_))) && b.last().map_or(false, |s| matches!(s, Seg::Lit(_))) { return Ok(false); }
                        changed = true;
                    }
                }
            }
            if !changed { break; }
        }
        if a.is_empty() { return self.is_empty(&b); }
        if b.is_empty() { return self.is_empty(&a); }
        let (la, lb) = (rope_is_lit(&a), rope_is_lit(&b));
        let (r, l) = match (&la, &lb) {
            (Some(x), Some(y)) => return Ok(x == y),
            (Some(x), None) => (&b, Some(x.clone())),
            (None, Some(y)) => (&a, Some(y.clone())),
            _ => (&a, None),
        };
        if let Some(l) = l {
            if self.has_fact(&Fact::NeLit(r.clone(), l.clone())) { return Ok(false); }
            let mut ms = self.matches(r, &l, 40);
            ms.retain(|m| m.iter().all(|u| !matches!(u, Upd::Assume(t) if self.decided(*t) == Some(false))));
            for m in ms.iter_mut() { m.retain(|u| !matches!(u, Upd::Assume(t) if self.decided(*t) == Some(true))); }
            if ms.is_empty() { return Ok(false); }
            if ms.iter().any(|m| m.is_empty()) { return Ok(true); }
            let mut alts: Vec<Vec<Upd>> = vec![vec![Upd::Fact(Fact::NeLit(r.clone(), l.clone()))]];
            if ms.len() == 1 && ms[0].len() == 1 {
                if let Upd::Assume(t) = &ms[0][0] { alts[0] = vec![Upd::Assume(t.bnot())]; }
            }
            alts.extend(ms);
            return Err(Stop::Fork(alts));
        }
        // two symbolic ropes
        if a.len() == 1 && b.len() == 1 {
            match (&a[0], &b[0]) {
                (Seg::IntS(x, s1), Seg::IntS(y, s2)) => {
                    let w = x.w().max(y.w()) + 1;
                    let ex = |t: T, s: bool| if s { t.sext(w) } else { t.zext(w) };
                    let e = ex(*x, *s1).teq(ex(*y, *s2));
                    if let Some(k) = self.decided(e) { return Ok(k); }
                    return Err(Stop::Fork(vec![vec![Upd::Assume(e)], vec![Upd::Assume(e.bnot())]]));
                }
                (Seg::DecS(x), Seg::DecS(y)) => {
                    let e = x.teq(*y);
                    if let Some(k) = e.kbool() { if !k { return Ok(false); } }
                    if self.has_fact(&Fact::NeRope(a.clone(), b.clone())) { return Ok(false); }
                    if self.pc.contains(&e) { return Ok(true); }
                    return Err(Stop::Fork(vec![vec![Upd::Assume(e)], vec![Upd::Fact(Fact::NeRope(a.clone(), b.clone()))]]));
                }
                (Seg::Ch(x), Seg::Ch(y)) => {
                    let e = x.teq(*y);
                    return Err(Stop::Fork(vec![vec![Upd::Assume(e)], vec![Upd::Fact(Fact::NeRope(a.clone(), b.clone()))]]));
                }
                _ => {}
            }
        }
        if self.has_fact(&Fact::NeRope(a.clone(), b.clone())) || self.has_fact(&Fact::NeRope(b.clone(), a.clone())) { return Ok(false); }
        // quick refutation: a character required on one side and impossible on the other
        for (x, y) in [(&a, &b), (&b, &a)] {
            let ycs = self.rope_cs(y);
            for s in x.iter() { if let Seg::Lit(l) = s { if !CS::of(l).sub(ycs) { return Ok(false); } } }
        }
        for (x, y) in [(&a, &b), (&b, &a)] {
            if x.len() == 1 {
                if let Seg::Sym(i) = &x[0] {
                    if y.iter().any(|s| matches!(s, Seg::Sym(j) if j == i)) { continue; }
                    return Err(Stop::Fork(vec![vec![Upd::Fact(Fact::NeRope(a.clone(), b.clone()))], vec![Upd::Subst(*i, y.clone())]]));
                }
            }
        }
        // align on a separator character which occurs on both sides only in literals
        for (x, y) in [(&a, &b), (&b, &a)] {
            for (k, s) in x.iter().enumerate() {
                let Seg::Lit(l) = s else { continue };
                for c in l.chars() {
                    let only_lit = |r: &Rope| r.iter().all(|s| matches!(s, Seg::Lit(_)) || !self.seg_cs(s).has(c));
                    if only_lit(x) && only_lit(y) {
                        let (x1, x2) = split_at_lit_char(x, c);
                        let (y1, y2) = split_at_lit_char(y, c);
                        let _ = k;
                        return match (x2, y2) {
                            (Some(x2), Some(y2)) => Ok(self.rope_eq(&x1, &y1)? && self.rope_eq(&x2, &y2)?),
                            (None, None) => unreachable!(),
                            _ => Ok(false),
                        };
                    }
                }
            }
        }
        Err(Stop::Unsup(format!("cannot decide equality of {} and {}", self.show(&a), self.show(&b))))
    }
    /// the literal is known not to occur in the text
    pub fn lacks(&self, r: &Rope, l: &str) -> bool {
        let r = self.norm(r);
        if !CS::of(l).sub(self.rope_cs(&r)) { return true; }
        self.facts.iter().any(|f| match f {
            Fact::NotContains(big, l2) if &**l2 == l => {
                let big = self.norm(big);
                let n = r.len();
                n > 0 && big.len() >= n && (0..=big.len() - n).any(|o| (0..n).all(|k| big[o + k] == r[k] || match (&big[o + k], &r[k]) {
                    (Seg::Lit(x), Seg::Lit(y)) => if n == 1 { x.contains(&**y) } else if k == 0 { x.ends_with(&**y) } else if k == n - 1 { x.starts_with(&**y) } else { false },
                    _ => false,
                }))
            }
            _ => false,
        })
    }
    pub fn has_fact(&self, f: &Fact) -> bool {
        self.facts.iter().any(|g| g == f || self.norm_fact(g) == *f)
    }
    pub fn norm_fact(&self, f: &Fact) -> Fact {
        match f {
            Fact::NeLit(r, l) => Fact::NeLit(self.norm(r), l.clone()),
            Fact::NeRope(a, b) => Fact::NeRope(self.norm(a), self.norm(b)),
            Fact::NotStarts(r, l) => Fact::NotStarts(self.norm(r), l.clone()),
            Fact::NotEnds(r, l) => Fact::NotEnds(self.norm(r), l.clone()),
            Fact::NotContains(r, l) => Fact::NotContains(self.norm(r), l.clone()),
            Fact::NonEmpty(r) => Fact::NonEmpty(self.norm(r)),
            Fact::Int(r, w, s, v) => Fact::Int(self.norm(r), *w, *s, *v),
            Fact::IntKind(r, w, s, v) => Fact::IntKind(self.norm(r), *w, *s, *v),
            Fact::Dec(r, v) => Fact::Dec(self.norm(r), *v),
            Fact::Cod(k, r, t, v) => Fact::Cod(*k, self.norm(r), *t, *v),
            Fact::CodEq(..) => f.clone(),
            Fact::AtMost(r, c, n) => Fact::AtMost(self.norm(r), *c, *n),
        }
    }
    pub fn show(&self, r: &Rope) -> String {
        let r = self.norm(r);
        let mut s = String::new();
        for x in r.iter() {
            match x {
                Seg::Lit(l) => s.push_str(&format!("{:?}", l)),
                Seg::Sym(i) => s.push_str(&format!("<{}#{}{}>", self.info(*i).name, i, if self.info(*i).nonempty { "+" } else { "*" })),
                Seg::Ch(t) => s.push_str(&format!("<ch {}>", t.show())),
                Seg::IntS(t, _) => s.push_str(&format!("<int {}>", t.show())),
                Seg::DecS(t) => s.push_str(&format!("<dec {}>", t.show())),
                Seg::Cod(c, i, _) => s.push_str(&format!("<print {}#{}>", codec(*c, |c| c.ty.rsplit("::").next().unwrap().to_string()), i)),
            }
        }
        s
    }

    /// split the rope at the first character not in `p`
    pub fn take_while(&mut self, r: &Rope, p: CS) -> Res<(Rope, Rope)> {
        let r = self.norm(r);
        let mut i = 0;
        let mut pre: Vec<Seg> = vec![];
        while i < r.len() {
            match &r[i] {
                Seg::Lit(l) => {
                    match l.char_indices().find(|(_, c)| !p.has(*c)) {
                        None => pre.push(r[i].clone()),
                        Some((k, _)) => {
                            pre.push(Seg::Lit(l[..k].into()));
                            let mut post = vec![Seg::Lit(l[k..].into())];
                            post.extend_from_slice(&r[i + 1..]);
                            return Ok((rope_of(&pre), rope_of(&post)));
                        }
                    }
                }
                Seg::Ch(t) => {
                    let cs = self.seg_cs(&r[i]);
                    if cs.sub(p) { pre.push(r[i].clone()); }
                    else if cs.disjoint(p) { return Ok((rope_of(&pre), rope_of(&r[i..]))); }
                    else { return Err(Stop::Fork(vec![vec![Upd::NarrowCh(*t, p)], vec![Upd::NarrowCh(*t, p.inv())]])); }
                }
                Seg::Sym(s) => {
                    let s = *s;
                    let inf = self.info(s).clone();
                    if inf.cs.sub(p) { pre.push(r[i].clone()); i += 1; continue; }
                    if inf.first.disjoint(p) {
                        // starts with a stopping character unless empty
                        if inf.nonempty || i + 1 == r.len() { return Ok((rope_of(&pre), rope_of(&r[i..]))); }
                        let (nf, ne) = self.rope_first(&r[i + 1..]);
                        let _ = ne;
                        if nf.disjoint(p) { return Ok((rope_of(&pre), rope_of(&r[i..]))); }
                        return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]]));
                    }
                    // split s := a ++ b
                    let acs = inf.cs.and(p);
                    let bfirst = inf.cs.minus(p);
                    if inf.first.minus(p) != bfirst || inf.last.and(acs) != acs {
                        // boundary restrictions interact with the split: decide the cases first
                        if !inf.nonempty { return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]])); }
                        let fin = inf.first.and(p);
                        let fout = inf.first.minus(p);
                        if !fin.is_none() && !fout.is_none() {
                            return Err(Stop::Fork(vec![vec![Upd::First(s, p)], vec![Upd::First(s, p.inv())]]));
                        }
                        // first is inside p here; decide whether everything is inside
                        if inf.last.and(acs) != acs {
                            // all inside p, or stops somewhere
                            let a = self.new_sym_info(SymInfo { cs: acs, first: inf.first, last: CS::ALL, nonempty: true, name: inf.name.clone() });
                            let b = self.new_sym_info(SymInfo { cs: inf.cs, first: bfirst, last: inf.last, nonempty: true, name: inf.name.clone() });
                            return Err(Stop::Fork(vec![vec![Upd::Narrow(s, p)], vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(a), Seg::Sym(b)]))]]));
                        }
                    }
                    let a = self.new_sym_info(SymInfo { cs: acs, first: inf.first.and(p), last: CS::ALL, nonempty: inf.nonempty && inf.first.sub(p), name: inf.name.clone() });
                    let b = self.new_sym_info(SymInfo { cs: inf.cs, first: bfirst, last: inf.last, nonempty: false, name: inf.name.clone() });
                    let ab: Rope = Rc::new(vec![Seg::Sym(a), Seg::Sym(b)]);
                    if inf.nonempty && !self.info(a).nonempty { if !self.add_fact(Fact::NonEmpty(ab.clone())) { return Err(Stop::Infeasible); } }
                    Rc::make_mut(&mut self.syms)[s as usize] = SymE::Bound(ab);
                    self.version += 1;
                    if !self.refresh() { return Err(Stop::Infeasible); }
                    pre.push(Seg::Sym(a));
                    let mut post = vec![Seg::Sym(b)];
                    // the symbol just split may occur again
                    let tail = self.norm(&rope_of(&r[i + 1..]));
                    post.extend_from_slice(&tail);
                    if !tail.is_empty() {
                        let (nf, _) = self.rope_first(&tail);
                        if !nf.disjoint(p) {
                            return Err(Stop::Fork(vec![vec![Upd::Subst(b, lit(""))], vec![Upd::NonEmpty(b)]]));
                        }
                    }
                    return Ok((self.norm(&rope_of(&pre)), self.norm(&rope_of(&post))));
                }
                Seg::IntS(t, sg) => {
                    let cs = self.seg_cs(&r[i]);
                    if cs.sub(p) { pre.push(r[i].clone()); }
                    else if cs.disjoint(p) { return Ok((rope_of(&pre), rope_of(&r[i..]))); }
                    else if *sg && CS::digits().sub(p) {
                        let neg = t.bin(Op::Slt, T::c(0, t.w()));
                        if self.pc.contains(&neg) { return Ok((rope_of(&pre), rope_of(&r[i..]))); }
                        if self.pc.contains(&neg.bnot()) { pre.push(r[i].clone()); }
                        else { return Err(Stop::Fork(vec![vec![Upd::Assume(neg)], vec![Upd::Assume(neg.bnot())]])); }
                    } else { return unsup("scan stops inside a rendered integer"); }
                }
                Seg::DecS(_) | Seg::Cod(..) => {
                    let cs = self.seg_cs(&r[i]);
                    if cs.sub(p) { pre.push(r[i].clone()); }
                    else if self.rope_first(&r[i..]).0.disjoint(p) { return Ok((rope_of(&pre), rope_of(&r[i..]))); }
                    else { return unsup("scan stops inside a rendered decimal"); }
                }
            }
            i += 1;
        }
        Ok((rope_of(&pre), rope_of(&[])))
    }
    /// split off the longest suffix of characters in `p`
    pub fn rtake_while(&mut self, r: &Rope, p: CS) -> Res<(Rope, Rope)> {
        let r = self.norm(r);
        let mut i = r.len();
        while i > 0 {
            let x = &r[i - 1];
            match x {
                Seg::Lit(l) => {
                    if let Some((k, c)) = l.char_indices().rev().find(|(_, c)| !p.has(*c)) {
                        let k = k + c.len_utf8();
                        let mut pre = r[..i - 1].to_vec();
                        pre.push(Seg::Lit(l[..k].into()));
                        let mut post = vec![Seg::Lit(l[k..].into())];
                        post.extend_from_slice(&r[i..]);
                        return Ok((rope_of(&pre), rope_of(&post)));
                    }
                }
                Seg::Sym(s) => {
                    let s = *s;
                    let inf = self.info(s).clone();
                    if inf.cs.sub(p) { i -= 1; continue; }
                    if inf.last.disjoint(p) {
                        if inf.nonempty || i == 1 { return Ok((rope_of(&r[..i]), rope_of(&r[i..]))); }
                        return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]]));
                    }
                    if i > 1 && !inf.nonempty { return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]])); }
                    let bcs = inf.cs.and(p);
                    if !inf.cs.minus(p).sub(inf.last) {
                        // the last character is restricted: the split must not forget that when w is empty
                        let mut alts = vec![];
                        if !inf.nonempty { alts.push(vec![Upd::Subst(s, lit(""))]); }
                        let w2 = self.new_sym_info(SymInfo { cs: bcs, first: inf.first, last: inf.last, nonempty: true, name: inf.name.clone() });
                        alts.push(vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(w2)]))]);
                        let l = inf.last.minus(p);
                        if l != CS::NONE {
                            let m = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: l, nonempty: true, name: inf.name.clone() });
                            alts.push(vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(m)]))]);
                        }
                        let m = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: inf.cs.minus(p), nonempty: true, name: inf.name.clone() });
                        let w = self.new_sym_info(SymInfo { cs: bcs, first: CS::ALL, last: inf.last, nonempty: true, name: inf.name.clone() });
                        alts.push(vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(m), Seg::Sym(w)]))]);
                        return Err(Stop::Fork(alts));
                    }
                    if !bcs.sub(inf.first) {
                        // the first character is restricted: the split must not forget that when m is empty
                        let w2 = self.new_sym_info(SymInfo { cs: bcs, first: inf.first, last: inf.last, nonempty: inf.nonempty, name: inf.name.clone() });
                        let m2 = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: inf.cs.minus(p), nonempty: true, name: inf.name.clone() });
                        let w = self.new_sym_info(SymInfo { cs: bcs, first: CS::ALL, last: inf.last, nonempty: false, name: inf.name.clone() });
                        return Err(Stop::Fork(vec![vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(w2)]))], vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(m2), Seg::Sym(w)]))]]));
                    }
                    // s := m ++ w, m ends outside p (or is empty), w inside p
                    let m = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: inf.cs.minus(p), nonempty: false, name: inf.name.clone() });
                    let w = self.new_sym_info(SymInfo { cs: bcs, first: CS::ALL, last: inf.last, nonempty: false, name: inf.name.clone() });
                    let mw: Rope = Rc::new(vec![Seg::Sym(m), Seg::Sym(w)]);
                    if i > 1 {
                        // m empty or not decides whether the scan continues to the left
                        let w2 = self.new_sym_info(SymInfo { cs: bcs, first: inf.first, last: inf.last, nonempty: true, name: inf.name.clone() });
                        let m2 = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: inf.cs.minus(p), nonempty: true, name: inf.name.clone() });
                        return Err(Stop::Fork(vec![vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(w2)]))], vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(m2), Seg::Sym(w)]))]]));
                    }
                    if inf.nonempty { if !self.add_fact(Fact::NonEmpty(mw.clone())) { return Err(Stop::Infeasible); } }
                    Rc::make_mut(&mut self.syms)[s as usize] = SymE::Bound(mw);
                    self.version += 1;
                    if !self.refresh() { return Err(Stop::Infeasible); }
                    let mut post = vec![Seg::Sym(w)];
                    post.extend_from_slice(&r[i..]);
                    return Ok((self.norm(&rope_of(&[Seg::Sym(m)])), self.norm(&rope_of(&post))));
                }
                Seg::Ch(t) => {
                    let cs = self.seg_cs(x);
                    if cs.sub(p) { i -= 1; continue; }
                    if cs.disjoint(p) { return Ok((rope_of(&r[..i]), rope_of(&r[i..]))); }
                    return Err(Stop::Fork(vec![vec![Upd::NarrowCh(*t, p)], vec![Upd::NarrowCh(*t, p.inv())]]));
                }
                Seg::IntS(..) | Seg::DecS(_) | Seg::Cod(..) => {
                    if self.seg_nonempty(x) && self.seg_last(x).disjoint(p) { return Ok((rope_of(&r[..i]), rope_of(&r[i..]))); }
                    if !self.seg_cs(x).sub(p) { return unsup("scan from the right stops inside a number"); }
                }
            }
            i -= 1;
        }
        Ok((rope_of(&[]), r.clone()))
    }
    /// split off the first character: None if empty
    pub fn uncons(&mut self, r: &Rope) -> Res<Option<(T, Rope)>> {
        let r = self.norm(r);
        if r.is_empty() { return Ok(None); }
        match &r[0] {
            Seg::Lit(l) => {
                let c = l.chars().next().unwrap();
                let mut v = r.to_vec();
                v[0] = Seg::Lit(l[c.len_utf8()..].into());
                Ok(Some((T::c(c as u128, 32), rope_of(&v))))
            }
            Seg::Ch(t) => Ok(Some((*t, rope_of(&r[1..])))),
            Seg::Sym(s) => {
                let s = *s;
                let inf = self.info(s).clone();
                if !inf.nonempty { return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]])); }
                if inf.last != inf.cs && !inf.first.sub(inf.last) {
                    // the rest is empty or not matters for the last-character restriction
                    let c1 = self.new_char(inf.first.and(inf.last));
                    let c2 = self.new_char(inf.first);
                    let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: CS::ALL, last: inf.last, nonempty: true, name: inf.name.clone() });
                    let mut alts = vec![vec![Upd::Subst(s, Rc::new(vec![Seg::Ch(c2), Seg::Sym(rest)]))]];
                    if !inf.first.and(inf.last).is_none() { alts.push(vec![Upd::Subst(s, Rc::new(vec![Seg::Ch(c1)]))]); }
                    return Err(Stop::Fork(alts));
                }
                let c = self.new_char(inf.first);
                let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: CS::ALL, last: inf.last, nonempty: false, name: inf.name.clone() });
                Rc::make_mut(&mut self.syms)[s as usize] = SymE::Bound(Rc::new(vec![Seg::Ch(c), Seg::Sym(rest)]));
                self.version += 1;
                if !self.refresh() { return Err(Stop::Infeasible); }
                let mut v = vec![Seg::Sym(rest)];
                v.extend_from_slice(&r[1..]);
                Ok(Some((self.term(c), self.norm(&rope_of(&v)))))
            }
            Seg::IntS(..) | Seg::DecS(_) | Seg::Cod(..) => unsup("first character of a rendered number"),
        }
    }
    /// split off the last character: None if empty
    pub fn uncons_back(&mut self, r: &Rope) -> Res<Option<(Rope, T)>> {
        let r = self.norm(r);
        if r.is_empty() { return Ok(None); }
        let n = r.len() - 1;
        match &r[n] {
            Seg::Lit(l) => {
                let c = l.chars().next_back().unwrap();
                let mut v = r.to_vec();
                v[n] = Seg::Lit(l[..l.len() - c.len_utf8()].into());
                Ok(Some((rope_of(&v), T::c(c as u128, 32))))
            }
            Seg::Ch(t) => Ok(Some((rope_of(&r[..n]), *t))),
            Seg::Sym(s) => {
                let s = *s;
                let inf = self.info(s).clone();
                if !inf.nonempty { return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]])); }
                if inf.first != inf.cs && !inf.last.sub(inf.first) {
                    let c1 = self.new_char(inf.first.and(inf.last));
                    let c2 = self.new_char(inf.last);
                    let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: CS::ALL, nonempty: true, name: inf.name.clone() });
                    let mut alts = vec![vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(rest), Seg::Ch(c2)]))]];
                    if !inf.first.and(inf.last).is_none() { alts.push(vec![Upd::Subst(s, Rc::new(vec![Seg::Ch(c1)]))]); }
                    return Err(Stop::Fork(alts));
                }
                let c = self.new_char(inf.last);
                let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: CS::ALL, nonempty: false, name: inf.name.clone() });
                Rc::make_mut(&mut self.syms)[s as usize] = SymE::Bound(Rc::new(vec![Seg::Sym(rest), Seg::Ch(c)]));
                self.version += 1;
                if !self.refresh() { return Err(Stop::Infeasible); }
                let mut v = r[..n].to_vec();
                v.push(Seg::Sym(rest));
                Ok(Some((self.norm(&rope_of(&v)), self.term(c))))
            }
            Seg::IntS(..) | Seg::DecS(_) | Seg::Cod(..) => unsup("last character of a rendered number"),
        }
    }
    /// does the rope start with the literal? on success the remainder
    pub fn strip_prefix(&mut self, r: &Rope, l: &str) -> Res<Option<Rope>> {
        let r = self.norm(r);
        if l.is_empty() { return Ok(Some(r)); }
        if r.is_empty() { return Ok(None); }
        let c0 = l.chars().next().unwrap();
        match &r[0] {
            Seg::Lit(s) => {
                if let Some(rest) = s.strip_prefix(l) {
                    let mut v = r.to_vec();
                    v[0] = Seg::Lit(rest.into());
                    return Ok(Some(rope_of(&v)));
                }
                match l.strip_prefix(&**s) {
                    Some(more) => self.strip_prefix(&rope_of(&r[1..]), more),
                    None => Ok(None),
                }
            }
            Seg::Ch(t) => {
                let cs = self.seg_cs(&r[0]);
                if !cs.has(c0) { return Ok(None); }
                let e = t.teq(T::c(c0 as u128, 32));
                Err(Stop::Fork(vec![vec![Upd::Assume(e)], vec![Upd::Assume(e.bnot())]]))
            }
            Seg::Sym(s) => {
                let s = *s;
                let (fcs, _) = self.rope_first(&r);
                if !fcs.has(c0) { return Ok(None); }
                let inf = self.info(s).clone();
                if l.len() == c0.len_utf8() {
                    if !inf.nonempty {
                        if r.len() == 1 || inf.first.has(c0) {
                            return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]]));
                        }
                        return Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]]));
                    }
                    if !inf.first.has(c0) { return Ok(None); }
                    if CS::one(c0) == inf.first && inf.first.single().is_some() {
                        let (_, rest) = self.uncons(&r)?.unwrap();
                        return Ok(Some(rest));
                    }
                    if CS::one(c0).single().is_none() { return unsup("prefix test with a non-ASCII class character"); }
                    return Err(Stop::Fork(vec![vec![Upd::First(s, CS::one(c0))], vec![Upd::First(s, CS::one(c0).inv())]]));
                }
                if self.has_fact(&Fact::NotStarts(r.clone(), l.into())) { return Ok(None); }
                let mut alts = vec![];
                let c: Vec<char> = l.chars().collect();
                // whole literal inside the symbol
                if CS::of(l).sub(inf.cs) && inf.first.has(c0) {
                    let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: CS::ALL, last: inf.last, nonempty: false, name: inf.name.clone() });
                    if inf.last.has(*c.last().unwrap()) {
                        alts.push(vec![Upd::Subst(s, rope_of(&[Seg::Lit(l.into()), Seg::Sym(rest)]))]);
                    } else {
                        alts.push(vec![Upd::NonEmpty(rest), Upd::Subst(s, rope_of(&[Seg::Lit(l.into()), Seg::Sym(rest)]))]);
                    }
                }
                // a proper prefix inside the symbol, the rest after it
                if r.len() > 1 {
                    let (nf, _) = self.rope_first(&r[1..]);
                    let mut p = String::new();
                    for k in 0..c.len() {
                        if conforms(&inf, &p) && nf.has(c[k]) { alts.push(vec![Upd::Subst(s, lit(&p))]); }
                        p.push(c[k]);
                    }
                }
                if alts.is_empty() { return Ok(None); }
                alts.push(vec![Upd::Fact(Fact::NotStarts(r.clone(), l.into()))]);
                Err(Stop::Fork(alts))
            }
            Seg::IntS(..) | Seg::DecS(_) | Seg::Cod(..) => {
                if self.seg_nonempty(&r[0]) && !self.seg_first(&r[0]).has(c0) { return Ok(None); }
                if let (Seg::IntS(t, true), "-") = (&r[0], l) {
                    let neg = t.bin(Op::Slt, T::c(0, t.w()));
                    if self.pc.contains(&neg.bnot()) { return Ok(None); }
                    if !self.pc.contains(&neg) { return Err(Stop::Fork(vec![vec![Upd::Assume(neg.bnot())], vec![Upd::Assume(neg)]])); }
                }
                unsup("prefix test on a rendered number")
            }
        }
    }
    pub fn strip_suffix(&mut self, r: &Rope, l: &str) -> Res<Option<Rope>> {
        let r = self.norm(r);
        if l.is_empty() { return Ok(Some(r)); }
        let n = r.len();
        if n == 0 { return Ok(None); }
        let cl = l.chars().next_back().unwrap();
        match &r[n - 1] {
            Seg::Lit(s) => {
                if let Some(rest) = s.strip_suffix(l) {
                    let mut v = r.to_vec();
                    v[n - 1] = Seg::Lit(rest.into());
                    return Ok(Some(rope_of(&v)));
                }
                match l.strip_suffix(&**s) {
                    Some(more) => self.strip_suffix(&rope_of(&r[..n - 1]), more),
                    None => Ok(None),
                }
            }
            Seg::Ch(t) => {
                let cs = self.seg_cs(&r[n - 1]);
                if !cs.has(cl) { return Ok(None); }
                let e = t.teq(T::c(cl as u128, 32));
                Err(Stop::Fork(vec![vec![Upd::Assume(e)], vec![Upd::Assume(e.bnot())]]))
            }
            Seg::Sym(s) => {
                let s = *s;
                let inf = self.info(s).clone();
                if !inf.nonempty { return if n == 1 && !inf.last.has(cl) { Ok(None) } else { Err(Stop::Fork(vec![vec![Upd::Subst(s, lit(""))], vec![Upd::NonEmpty(s)]])) }; }
                if !inf.last.has(cl) { return Ok(None); }
                if l.len() == cl.len_utf8() {
                    if CS::one(cl).single().is_none() { return unsup("suffix test with a non-ASCII class character"); }
                    if inf.last != CS::one(cl) { return Err(Stop::Fork(vec![vec![Upd::Last(s, CS::one(cl))], vec![Upd::Last(s, CS::one(cl).inv())]])); }
                    // s := rest ++ l
                    if inf.first != inf.cs && !inf.first.has(cl) {
                        let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: CS::ALL, nonempty: true, name: inf.name.clone() });
                        return Err(Stop::Fork(vec![vec![Upd::Subst(s, rope_of(&[Seg::Sym(rest), Seg::Lit(l.into())]))]]));
                    }
                    let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: CS::ALL, nonempty: false, name: inf.name.clone() });
                    return Err(Stop::Fork(vec![vec![Upd::Subst(s, rope_of(&[Seg::Sym(rest), Seg::Lit(l.into())]))]]));
                }
                if self.has_fact(&Fact::NotEnds(r.clone(), l.into())) { return Ok(None); }
                if n > 1 { return unsup("multi-character suffix test on a composite text"); }
                if !CS::of(l).sub(inf.cs) { return Ok(None); }
                let rest = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: CS::ALL, nonempty: false, name: inf.name.clone() });
                Err(Stop::Fork(vec![vec![Upd::Subst(s, rope_of(&[Seg::Sym(rest), Seg::Lit(l.into())]))], vec![Upd::Fact(Fact::NotEnds(r.clone(), l.into()))]]))
            }
            Seg::IntS(..) | Seg::DecS(_) | Seg::Cod(..) => { if self.seg_nonempty(&r[n - 1]) && !self.seg_last(&r[n - 1]).has(cl) { Ok(None) } else { unsup("suffix test on a rendered number") } }
        }
    }
    /// first occurrence of a literal: (before, from the occurrence on)
    pub fn find(&mut self, r: &Rope, l: &str) -> Res<Option<(Rope, Rope)>> {
        let c0 = l.chars().next().unwrap_or(' ');
        let mut before: Rope = lit("");
        let mut rest = self.norm(r);
        if self.has_fact(&Fact::NotContains(rest.clone(), l.into())) { return Ok(None); }
        if l.is_empty() { return Ok(Some((before, rest))); }
        loop {
            rest = self.norm(&rest);
            if !CS::of(l).sub(self.rope_cs(&rest)) { return Ok(None); }
            if l.chars().count() > 1 && rest.len() == 1 {
                if let Seg::Sym(s) = rest[0] {
                    if self.has_fact(&Fact::NotContains(rest.clone(), l.into())) { return Ok(None); }
                    let inf = self.info(s).clone();
                    let a = self.new_sym_info(SymInfo { cs: inf.cs, first: inf.first, last: CS::ALL, nonempty: false, name: inf.name.clone() });
                    let b = self.new_sym_info(SymInfo { cs: inf.cs, first: CS::ALL, last: inf.last, nonempty: false, name: inf.name.clone() });
                    let head = &l[..l.len() - l.chars().next_back().unwrap().len_utf8()];
                    return Err(Stop::Fork(vec![
                        vec![Upd::Fact(Fact::NotContains(rest.clone(), l.into()))],
                        vec![Upd::Subst(s, rope_of(&[Seg::Sym(a), Seg::Lit(l.into()), Seg::Sym(b)])), Upd::Fact(Fact::NotContains(rope_of(&[Seg::Sym(a), Seg::Lit(head.into())]), l.into()))],
                    ]));
                }
            }
            // leading text known not to contain the literal, even across its border
            if l.chars().count() > 1 {
                if self.lacks(&rest, l) { return Ok(None); }
                let c1 = &l[..l.len() - l.chars().next_back().unwrap().len_utf8()];
                let border = (1..l.len()).any(|k| l.is_char_boundary(k) && l.is_char_boundary(l.len() - k) && l[..k] == l[l.len() - k..]);
                if let (Some(Seg::Sym(_)), Some(Seg::Lit(x))) = (rest.first(), rest.get(1)) {
                    let spans = (1..l.len()).any(|j| l.is_char_boundary(l.len() - j) && x.starts_with(&l[l.len() - j..]));
                    if x.len() + 1 >= l.len() && !spans && self.lacks(&rope_of(&rest[..1]), l) {
                        before = concat(&[before, rope_of(&rest[..1])]);
                        rest = rope_of(&rest[1..]);
                        continue;
                    }
                }
                for i in 1..rest.len() {
                    let Seg::Lit(x) = &rest[i] else { continue };
                    if !x.starts_with(l) { continue; }
                    let head: Rope = rope_of(&rest[..i]);
                    if self.lacks(&concat(&[head.clone(), lit(c1)]), l) || (!border && self.lacks(&head, l)) {
                        return Ok(Some((concat(&[before, head]), rope_of(&rest[i..]))));
                    }
                }
            }
            let (pre, post) = self.take_while(&rest, CS::one(c0).inv())?;
            before = concat(&[before, pre]);
            if self.is_empty(&post)? { return Ok(None); }
            match self.strip_prefix(&post, l)? {
                Some(_) => return Ok(Some((before, post))),
                None => {
                    let (c, r2) = self.uncons(&post)?.unwrap();
                    before = concat(&[before, Rc::new(vec![Seg::Ch(c)])]);
                    before = self.norm(&before);
                    rest = r2;
                }
            }
        }
    }
    fn same_len(&self, a: T, b: T) -> bool {
        if a == b { return true; }
        let (mut m, mut c) = (Default::default(), 0);
        self.lin(a, 1, &mut m, &mut c) && self.lin(b, -1, &mut m, &mut c) && c == 0 && m.values().all(|k| *k == 0)
    }
    /// split at a byte offset given as a term
    /// the characters of the first `k` bytes, and the rest; `None`: no character ends there
    fn peel(&mut self, r: &Rope, k: u128) -> Res<Option<(Rope, Rope)>> {
        let mut pre: Vec<Seg> = vec![];
        let mut rest = r.clone();
        let mut n = 0u128;
        while n < k {
            match self.uncons(&rest)? {
                None => return Ok(None),
                Some((c, r2)) => {
                    let l = match c.konst() { Some(v) => char::from_u32(v as u32).unwrap().len_utf8(), None => {
                        let cs = self.chars.get(&c).copied().unwrap_or(CS::ALL);
                        if cs.ascii_only() { 1 } else {
                            let mut alts = vec![];
                            for l in 1..=4 { let f = cs.filter(|x| x.len_utf8() == l); if !f.is_none() { alts.push(vec![Upd::NarrowCh(c, f)]); } }
                            if alts.len() > 1 { return Err(Stop::Fork(alts)); }
                            cs.reps()[0].len_utf8()
                        }
                    } };
                    n += l as u128;
                    pre.push(Seg::Ch(c));
                    rest = r2;
                }
            }
        }
        Ok(if n == k { Some((self.norm(&rope_of(&pre)), rest)) } else { None })
    }
    pub fn split_at(&mut self, r: &Rope, off: T) -> Res<Option<(Rope, Rope)>> {
        let r = self.norm(r);
        let off = self.term(off);
        let mut acc: Vec<Seg> = vec![];
        for i in 0..=r.len() {
            let here = self.len(&rope_of(&acc));
            if self.same_len(here, off) { return Ok(Some((rope_of(&acc), rope_of(&r[i..])))); }
            if i == r.len() { break; }
            if let Seg::Lit(l) = &r[i] {
                for (k, c) in l.char_indices() {
                    let k = k + c.len_utf8();
                    let mut v = acc.clone();
                    v.push(Seg::Lit(l[..k].into()));
                    if self.same_len(self.len(&rope_of(&v)), off) {
                        let mut post = vec![Seg::Lit(l[k..].into())];
                        post.extend_from_slice(&r[i + 1..]);
                        return Ok(Some((rope_of(&v), rope_of(&post))));
                    }
                }
            }
            acc.push(r[i].clone());
        }
        if let Some(s) = rope_is_lit(&r) { if off.konst().is_some() { let _ = s; return Ok(None); } }
        // a small offset into a symbol
        for i in 0..=r.len() {
            let here = self.len(&rope_of(&r[..i]));
            if i == 0 { if let Some(k) = off.konst() { if k <= 64 { return self.peel(&r, k); } } continue; }
            if i == r.len() || matches!(r[i], Seg::Lit(_)) { continue; }
            for k in 1..=4u128 {
                if self.same_len(here.bin(Op::Add, T::c(k, 64)), off) {
                    return Ok(match self.peel(&rope_of(&r[i..]), k)? { None => None, Some((a, b)) => { let mut pre = r[..i].to_vec(); pre.extend_from_slice(&a); Some((self.norm(&rope_of(&pre)), b)) } });
                }
            }
        }
        // offsets counted in characters: decide whether the symbols are ASCII only
        let mut ls = off.leaf_vec();
        ls.extend(self.len(&r).leaf_vec());
        for l in ls {
            if let Node::ChrLen(s) = l.node() {
                if let SymE::Free(i) = &self.syms[s as usize] {
                    let i = i.clone();
                    if !i.cs.ascii_only() {
                        let a = self.new_sym_info(SymInfo { cs: i.cs.and(CS::ASCII), first: i.first, last: CS::ALL, nonempty: false, name: i.name.clone() });
                        let c = self.new_char(i.cs.minus(CS::ASCII));
                        let b = self.new_sym_info(SymInfo { cs: i.cs, first: CS::ALL, last: i.last, nonempty: false, name: i.name.clone() });
                        return Err(Stop::Fork(vec![vec![Upd::Narrow(s, CS::ASCII)], vec![Upd::Subst(s, Rc::new(vec![Seg::Sym(a), Seg::Ch(c), Seg::Sym(b)])), Upd::Taint("character count used as a byte offset")]]));
                    }
                }
            }
        }
        if self.taint == Some("character count used as a byte offset") { return Ok(None); }
        unsup(format!("byte offset {} not at a known position of {}", off.show(), self.show(&r)))
    }
}

fn ite_min(t: T) -> Option<i128> {
    match t.node() {
        Node::Ite(_, a, b) => Some(ite_min(a)?.min(ite_min(b)?)),
        Node::C(v) if v < 1 << 20 => Some(v as i128),
        _ => None,
    }
}
fn continue_check(_: &Rope, _: &Seg) {}

/// length of a piece of text that is known to be non-empty but not which: opaque, memoised per key
pub const OPAQUE_LEN: u32 = 1 << 30;
fn opaque_len(key: (u8, T, u64)) -> T {
    thread_local!(static M: std::cell::RefCell<HashMap<(u8, T, u64), u32>> = Default::default());
    M.with(|m| { let mut m = m.borrow_mut(); let n = m.len() as u32; let id = *m.entry(key).or_insert(n); T::strlen(OPAQUE_LEN + id) })
}
pub fn int_len(t: T, s: bool) -> T { opaque_len((s as u8, t, 0)) }
pub fn declen(t: T) -> T { opaque_len((2, t, 0)) }
pub fn cod_newlines(c: u32, i: u32, v: T) -> T { match opaque_len((4, v, (c as u64) << 32 | i as u64)).node() { Node::StrLen(s) => T::nlcnt(s), _ => unreachable!() } }
pub fn codlen(c: u32, i: u32, v: T) -> T { opaque_len((3, v, (c as u64) << 32 | i as u64)) }

pub fn conforms(i: &SymInfo, s: &str) -> bool {
    if s.is_empty() { return !i.nonempty; }
    CS::of(s).sub(i.cs) && i.first.has(s.chars().next().unwrap()) && i.last.has(s.chars().next_back().unwrap())
}
fn common_prefix(a: &str, b: &str) -> usize {
    let mut n = 0;
    for (x, y) in a.chars().zip(b.chars()) { if x != y { break; } n += x.len_utf8(); }
    n
}
fn common_suffix(a: &str, b: &str) -> usize {
    let mut n = 0;
    for (x, y) in a.chars().rev().zip(b.chars().rev()) { if x != y { break; } n += x.len_utf8(); }
    n
}
fn split_at_lit_char(r: &Rope, c: char) -> (Rope, Option<Rope>) {
    let mut pre = vec![];
    for (i, s) in r.iter().enumerate() {
        if let Seg::Lit(l) = s {
            if let Some(k) = l.find(c) {
                pre.push(Seg::Lit(l[..k].into()));
                let mut post = vec![Seg::Lit(l[k + c.len_utf8()..].into())];
                post.extend_from_slice(&r[i + 1..]);
                return (rope_of(&pre), Some(rope_of(&post)));
            }
        }
        pre.push(s.clone());
    }
    (rope_of(&pre), None)
}

/// Ok(value bits) or Err(kind)
pub fn parse_int(s: &str, w: u16, signed: bool) -> Result<u128, u32> {
    use std::num::IntErrorKind::*;
    fn k(e: std::num::ParseIntError) -> u32 { match e.kind() { Empty => 0, InvalidDigit => 1, PosOverflow => 2, NegOverflow => 3, _ => 4 } }
    macro_rules! p { ($t:ty) => { s.parse::<$t>().map(|v| v as i128 as u128).map_err(k) } }
    match (w, signed) {
        (8, true) => p!(i8), (16, true) => p!(i16), (32, true) => p!(i32), (64, true) => p!(i64), (128, true) => p!(i128),
        (8, false) => p!(u8), (16, false) => p!(u16), (32, false) => p!(u32), (64, false) => p!(u64), (128, false) => s.parse::<u128>().map_err(k),
        _ => Err(1),
    }
}
/// mantissa and scale as rust_decimal parses it
pub fn parse_dec(s: &str) -> Option<(i128, u32)> {
    s.parse::<rust_decimal::Decimal>().ok().map(|d| (d.mantissa(), d.scale()))
}
