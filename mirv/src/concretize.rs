//! Concrete inputs for a symbolic path: the candidates replayed against the real code.
use crate::cs::CS;
use crate::exec::*;
use crate::smt::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
}

pub type Cand = Vec<(u8, String, String)>;

fn eval(t: T, m: &HashMap<T, MV>) -> Option<T> {
    let mut memo = HashMap::new();
    Some(t.subst_all(&mut |l| match m.get(&l) {
        Some(MV::B(v)) => Some(T::c(*v, l.w())),
        Some(MV::R(a, b)) => Some(real(*a, *b)),
        None => Some(if l.w() == REAL { T::real(0, 0) } else { T::c(0, l.w()) }),
    }, &mut memo))
}
fn real(a: i128, b: i128) -> T {
    let mut s = 0;
    let mut m = a;
    let mut b = b;
    while b != 1 && s < 28 { match m.checked_mul(10) { Some(x) => { m = x; s += 1; } None => break } let g = gcd(m.unsigned_abs(), b.unsigned_abs()) as i128; m /= g; b /= g; }
    if b != 1 { m /= b; }
    T::real(m, s)
}
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a.max(1) } else { gcd(b, a % b) } }
fn int_text(t: T, sg: bool) -> Option<String> { let k = t.konst()?; Some(if sg { sext128(k, t.w()).to_string() } else { k.to_string() }) }
fn dec_text(t: T) -> Option<String> { if let Node::R(m, s) = t.node() { Some(show_dec(m, s)) } else { None } }

struct Env<'a> { st: &'a StrStore, m: HashMap<T, MV>, txt: BTreeMap<u32, String>, ch: HashMap<T, char> }
impl<'a> Env<'a> {
    fn rope(&self, r: &Rope) -> Option<String> {
        let r = self.st.norm(r);
        let mut o = String::new();
        for s in r.iter() {
            match s {
                Seg::Lit(l) => o.push_str(l),
                Seg::Sym(i) => o.push_str(self.txt.get(i)?),
                Seg::Ch(t) => o.push(*self.ch.get(t)?),
                Seg::IntS(t, s) => o.push_str(&int_text(eval(self.st.term(*t), &self.m)?, *s)?),
                Seg::DecS(t) => o.push_str(&dec_text(eval(*t, &self.m)?)?),
                Seg::Cod(..) => return None,
            }
        }
        Some(o)
    }
    fn holds(&self, f: &Fact) -> bool {
        let g = || -> Option<bool> {
            Some(match f {
                Fact::NeLit(r, l) => self.rope(r)? != **l,
                Fact::NeRope(a, b) => self.rope(a)? != self.rope(b)?,
                Fact::NotStarts(r, l) => !self.rope(r)?.starts_with(&**l),
                Fact::NotEnds(r, l) => !self.rope(r)?.ends_with(&**l),
                Fact::NotContains(r, l) => !self.rope(r)?.contains(&**l),
                Fact::NonEmpty(r) => !self.rope(r)?.is_empty(),
                Fact::Int(r, w, s, v) => match (parse_int(&self.rope(r)?, *w, *s), v) {
                    (Ok(k), Some(t)) => eval(*t, &self.m)?.konst()? == k & mask(*w),
                    (Err(_), None) => true,
                    _ => false,
                },
                Fact::IntKind(r, w, s, k) => parse_int(&self.rope(r)?, *w, *s) == Err(*k),
                Fact::Cod(k, r, _, Some(i)) if codec(*k, |c| c.pure_fn) => { let t = self.rope(r)?; *i == 0 || codec(*k, |c| c.examples.iter().any(|e| *e == t.trim_end())) != (*i >> 31 == 1) }
                Fact::Cod(k, r, _, Some(i)) => { let t = self.rope(r)?; codec(*k, |c| c.examples.iter().any(|e| *e == t)) != (*i >> 31 == 1) }
                Fact::Cod(k, r, _, None) => { let t = self.rope(r)?; !codec(*k, |c| c.examples.iter().any(|e| *e == t)) }
                Fact::CodEq(..) => true,
                Fact::AtMost(r, c, n) => self.rope(r)?.matches(*c).count() <= *n,
                Fact::Dec(r, v) => match (parse_dec(&self.rope(r)?), v) {
                    (Some((m, s)), Some(t)) => T::real(m, s).teq(eval(*t, &self.m)?).kbool()?,
                    (None, None) => true,
                    _ => false,
                },
            })
        };
        g().unwrap_or(false)
    }
}
fn syms_of(st: &StrStore, r: &Rope, out: &mut HashSet<u32>) { for s in st.norm(r).iter() { if let Seg::Sym(i) = s { out.insert(*i); } } }
fn fact_ropes(f: &Fact) -> Vec<&Rope> {
    match f { Fact::CodEq(..) => vec![], Fact::NeRope(a, b) => vec![a, b], Fact::NeLit(r, _) | Fact::NotStarts(r, _) | Fact::NotEnds(r, _) | Fact::NotContains(r, _) | Fact::Cod(_, r, ..) | Fact::AtMost(r, ..) | Fact::NonEmpty(r) | Fact::Int(r, ..) | Fact::IntKind(r, ..) | Fact::Dec(r, _) => vec![r] }
}
fn pick(cs: CS, rng: &mut Rng) -> Option<char> {
    let v = cs.reps();
    if v.is_empty() { return None; }
    // prefer printable ASCII
    let p: Vec<char> = v.iter().copied().filter(|c| c.is_ascii_alphanumeric()).collect();
    if !p.is_empty() && rng.below(4) > 0 { return Some(p[rng.below(p.len())]); }
    Some(v[rng.below(v.len())])
}
fn ok_text(i: &SymInfo, s: &str) -> bool {
    if s.is_empty() { return !i.nonempty; }
    s.chars().all(|c| i.cs.has(c)) && i.first.has(s.chars().next().unwrap()) && i.last.has(s.chars().next_back().unwrap())
}
fn rand_text(i: &SymInfo, len: Option<usize>, rng: &mut Rng) -> Option<String> {
    let n = len.unwrap_or_else(|| if i.nonempty { 1 + rng.below(3) } else { rng.below(4) });
    if n == 0 { return Some(String::new()); }
    let mut s = String::new();
    for k in 0..n {
        let mut cs = i.cs;
        if k == 0 { cs = cs.and(i.first); }
        if k == n - 1 { cs = cs.and(i.last); }
        if len.is_some() { cs = cs.and(CS::ASCII); }
        s.push(pick(cs, rng)?);
    }
    Some(s)
}

/// try to find inputs that follow the path described by `st`
pub fn concretise(st: &State, z: &mut Solver, rng: &mut Rng) -> Option<Cand> {
    let ss = &st.ss;
    if ss.chars.len() > 400 || ss.pc.len() > 2000 { return None; }
    let mut pc: Vec<T> = ss.pc.iter().map(|t| ss.term(*t)).filter(|t| t.kbool() != Some(true)).collect();
    if pc.iter().any(|t| t.kbool() == Some(false)) { return None; }
    pc.dedup();
    let facts: Vec<Fact> = ss.facts.iter().map(|f| ss.norm_fact(f)).collect();
    let mut extra = vec![];
    for (_, _, v) in st.inputs.iter() { match v { Val::Int(t) | Val::Dec(t) => extra.push(ss.term(*t)), _ => {} } }
    for f in &facts { match f { Fact::Int(_, _, _, Some(t)) | Fact::Dec(_, Some(t)) => extra.push(ss.term(*t)), _ => {} } }
    // prefer short texts and a varying choice of numbers
    let mut leaves = vec![]; let mut seen = HashSet::new();
    for t in pc.iter().chain(extra.iter()) { t.leaves(&mut leaves, &mut seen); }
    let mut model = None;
    for round in 0..3 {
        let mut c = pc.clone();
        if round < 2 { for l in &leaves { if matches!(l.node(), Node::StrLen(_) | Node::ChrLen(_)) { c.push(l.bin(Op::Ule, T::c(6, 64))); } if let Node::NlCnt(_) = l.node() { c.push(l.bin(Op::Ule, T::c(2, 64))); } } }
        if round < 1 && leaves.len() < 60 {
            for l in &leaves { if let Node::V(_) = l.node() { if l.w() >= 8 && l.w() <= 64 && !l.is_charvar() && rng.below(2) == 0 {
                let k = T::c([1u128, 2, 3, 5, 10, 50, 100][rng.below(7)], l.w());
                let p = if rng.below(2) == 0 { l.bin(Op::Ule, k) } else { l.teq(k) };
                let mut c2 = c.clone(); c2.push(p);
                if z.check(&c2) == R::Sat { c = c2; }
            } } }
        }
        model = z.model(&c, &extra);
        if model.is_some() { break; }
    }
    let m = model?;
    let mut e = Env { st: ss, m, txt: BTreeMap::new(), ch: HashMap::new() };
    for (t, cs) in ss.chars.iter() {
        if let Some(c) = ss.charval.get(t) { e.ch.insert(*t, *c); continue; }
        let mv = match e.m.get(t) { Some(MV::B(v)) => char::from_u32(*v as u32), _ => None };
        let c = match mv { Some(c) if cs.has(c) && leaves.contains(t) => c, _ => pick(*cs, rng)? };
        e.ch.insert(*t, c);
        e.m.insert(*t, MV::B(c as u128));
    }
    // symbols that matter
    let mut syms = HashSet::new();
    for (_, _, v) in st.inputs.iter() { if let Val::Str(r) = v { syms_of(ss, r, &mut syms); } }
    for f in &facts { for r in fact_ropes(f) { syms_of(ss, r, &mut syms); } }
    let mut syms: Vec<u32> = syms.into_iter().collect();
    syms.sort();
    let lens: HashMap<u32, usize> = leaves.iter().filter_map(|l| match (l.node(), e.m.get(l)) { (Node::StrLen(s) | Node::ChrLen(s), Some(MV::B(v))) => Some((s, *v as usize)), _ => None }).collect();
    let nls: HashMap<u32, usize> = leaves.iter().filter_map(|l| match (l.node(), e.m.get(l)) { (Node::NlCnt(s), Some(MV::B(v))) => Some((s, *v as usize)), _ => None }).collect();
    let gen = |e: &Env, s: u32, rng: &mut Rng, free_len: bool| -> Option<String> {
        let i = ss.info(s);
        for f in &facts {
            let one = |r: &Rope| r.len() == 1 && r[0] == Seg::Sym(s);
            let v = match f {
                Fact::Int(r, _, sg, Some(t)) if one(r) => int_text(eval(*t, &e.m)?, *sg),
                Fact::Dec(r, Some(t)) if one(r) => dec_text(eval(*t, &e.m)?),
                Fact::Cod(k, r, _, Some(i)) if codec(*k, |c| c.pure_fn) && r.contains(&Seg::Sym(s)) => { let l = codec(*k, |c| c.examples.clone()); let t = if *i >> 31 == 1 { "?".to_string() } else { l[rng.below(l.len())].clone() }; return if ok_text(ss.info(s), &t) { Some(t) } else { None }; }
                Fact::Cod(k, r, _, Some(e)) if one(r) && *e >> 31 == 0 => { let l = codec(*k, |c| c.examples.clone()); if l.is_empty() { return None; } let t = l[rng.below(l.len())].clone(); return if ok_text(i, &t) { Some(t) } else { l.into_iter().find(|t| ok_text(i, t)) }; }
                _ => None,
            };
            if let Some(v) = v {
                let neg = v.strip_prefix('-');
                for pre in ["", "+", "0", "00", "+0"] {
                    let w = match neg { Some(a) => if pre.starts_with('+') { continue } else { format!("-{}{}", pre, a) }, None => format!("{}{}", pre, v) };
                    if ok_text(i, &w) && (rng.below(8) > 0 || pre == "+0") { return Some(w); }
                }
                return None;
            }
        }
        if ss.blocks.contains_key(&s) {
            // blank lines: every loop passes them
            let n = nls.get(&s).copied().unwrap_or_else(|| rng.below(3));
            let l = lens.get(&s).copied().unwrap_or(n).max(n);
            if n > 200 || l > 4000 { return None; }
            let t = format!("{}{}", " ".repeat(if n == 0 { 0 } else { l - n }), "\n".repeat(n));
            return if ok_text(i, &t) { Some(t) } else { Some("\n".repeat(n)) };
        }
        if let Some(n) = nls.get(&s) {
            for _ in 0..30 {
                let mut t: String = rand_text(i, None, rng)?.chars().filter(|c| *c != '\n' || *n > 0).collect();
                while t.matches('\n').count() < *n { let k = rng.below(t.chars().count() + 1); let b = t.char_indices().nth(k).map_or(t.len(), |p| p.0); t.insert(b, '\n'); }
                if t.matches('\n').count() == *n && ok_text(i, &t) { return Some(t); }
            }
            return None;
        }
        let l = if free_len { None } else { lens.get(&s).copied() };
        if let Some(n) = l { if n > 4000 { return None; } }
        rand_text(i, l, rng)
    };
    for s in &syms { let t = gen(&e, *s, rng, false)?; e.txt.insert(*s, t); }
    for round in 0..300 {
        let bad: Vec<&Fact> = facts.iter().filter(|f| !e.holds(f)).collect();
        if bad.is_empty() { break; }
        if round == 299 { return None; }
        let mut again = HashSet::new();
        for f in bad { for r in fact_ropes(f) { syms_of(ss, r, &mut again); } }
        let mut again: Vec<u32> = again.into_iter().collect();
        again.sort();
        for s in again { if let Some(t) = gen(&e, s, rng, false) { e.txt.insert(s, t); } }
    }
    let mut out = vec![];
    for (k, l, v) in st.inputs.iter() {
        let s = match v {
            Val::Str(r) => e.rope(r)?,
            Val::Int(t) => { let c = eval(ss.term(*t), &e.m)?; if *k == 1 || *k == 5 { int_text(c, true)? } else { c.konst()?.to_string() } }
            Val::Dec(t) => dec_text(eval(*t, &e.m)?)?,
            _ => return None,
        };
        out.push((*k, l.to_string(), s));
    }
    Some(out)
}
