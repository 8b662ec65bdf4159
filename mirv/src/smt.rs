//! One z3 process per worker, queried through a pipe.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R { Sat, Unsat, Unknown }

pub struct Solver {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    declared: HashSet<T>,
    cache: HashMap<Vec<T>, R>,
    pub queries: u64,
    pub cache_hits: u64,
    pub secs: f64,
    pub cmd: String,
}

impl Solver {
    pub fn new() -> Self {
        let cmd = std::env::var("MIRV_Z3").unwrap_or_else(|_| "z3-new".into());
        Solver { child: None, declared: HashSet::new(), cache: HashMap::new(), queries: 0, cache_hits: 0, secs: 0.0, cmd }
    }
    fn start(&mut self) {
        if self.child.is_some() { return; }
        let mut c = Command::new(&self.cmd).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start z3");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
        self.declared.clear();
        let to = std::env::var("MIRV_SMT_TIMEOUT").unwrap_or_else(|_| "10000".into());
        self.send(&format!("(set-option :timeout {})\n(set-option :model.completion true)\n(declare-fun uf0 (Real Real) Real)\n(declare-fun uf1 (Real Real) Real)\n(declare-fun uf2 (Real Real) Real)\n(declare-fun uf3 (Real Real) Real)\n", to));
    }
    fn send(&mut self, s: &str) {
        let (_, i, _) = self.child.as_mut().unwrap();
        let _ = i.write_all(s.as_bytes());
    }
    fn line(&mut self) -> String {
        let (_, i, o) = self.child.as_mut().unwrap();
        let _ = i.flush();
        let mut l = String::new();
        let _ = o.read_line(&mut l);
        l.trim().to_string()
    }
    fn declare(&mut self, ts: &[T]) -> Vec<T> {
        let mut ls = vec![];
        let mut seen = HashSet::new();
        for t in ts { t.leaves(&mut ls, &mut seen); }
        let mut s = String::new();
        for l in &ls { if self.declared.insert(*l) { s.push_str(&l.leaf_decl()); } }
        if !s.is_empty() { self.send(&s); }
        ls
    }
    /// texts are shorter than 2^40 bytes
    fn ranges(ls: &[T], s: &mut String) {
        // the characters of a text: 1 to 4 bytes each
        for l in ls { if let Node::ChrLen(k) = l.node() { for b in ls { if b.node() == Node::StrLen(k) { s.push_str(&format!("(assert (bvule {c} {l}))(assert (bvule {l} (bvshl {c} (_ bv2 64))))\n", c = l.leaf_name(), l = b.leaf_name())); } } } }
        for l in ls { if matches!(l.node(), Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_)) { s.push_str(&format!("(assert (bvult {} (_ bv1099511627776 64)))\n", l.leaf_name())); } }
    }
    /// is the conjunction satisfiable?
    pub fn check(&mut self, conj: &[T]) -> R {
        let mut v: Vec<T> = vec![];
        for t in conj {
            match t.kbool() { Some(true) => {}, Some(false) => return R::Unsat, None => v.push(*t) }
        }
        v.sort(); v.dedup();
        if v.is_empty() { return R::Sat; }
        for t in &v { if v.binary_search(&t.bnot()).is_ok() { return R::Unsat; } }
        if let Some(r) = self.cache.get(&v) { self.cache_hits += 1; return *r; }
        let st = Instant::now();
        self.start();
        let ls = self.declare(&v);
        let mut s = String::from("(push)\n");
        Self::ranges(&ls, &mut s);
        for t in &v { s.push_str("(assert "); t.smt(&mut s); s.push_str(")\n"); }
        s.push_str("(check-sat)\n(pop)\n");
        self.send(&s);
        self.queries += 1;
        let r = match self.line().as_str() { "sat" => R::Sat, "unsat" => R::Unsat, other => {
            if std::env::var("MIRV_DEBUG").is_ok() { eprintln!("z3: {other} for {s}"); }
            if other.is_empty() || other.starts_with("(error") { self.child = None; }
            R::Unknown } };
        self.secs += st.elapsed().as_secs_f64();
        if std::env::var("MIRV_SLOW").is_ok() { eprintln!("SLOW {:.4} {:?} {}", st.elapsed().as_secs_f64(), r, s.replace('\n', " ")); }
        self.cache.insert(v, r);
        r
    }
    /// only keep constraints connected (through shared leaves) with `goal`
    pub fn check_sliced(&mut self, pc: &[T], goal: T) -> R {
        match goal.kbool() { Some(false) => return R::Unsat, _ => {} }
        let mut vars: HashSet<T> = goal.leaf_vec().into_iter().collect();
        let mut chosen = vec![goal];
        let mut rest: Vec<(T, Vec<T>)> = pc.iter().map(|t| (*t, t.leaf_vec())).collect();
        loop {
            let mut changed = false;
            rest.retain(|(t, ls)| {
                if ls.iter().any(|l| vars.contains(l)) { chosen.push(*t); vars.extend(ls.iter().copied()); changed = true; false } else { true }
            });
            if !changed { break; }
        }
        self.check(&chosen)
    }
    /// model values of the leaves: bit vectors as u128, reals as (num, den)
    pub fn model(&mut self, conj: &[T], extra: &[T]) -> Option<HashMap<T, MV>> {
        self.start();
        let mut all: Vec<T> = conj.to_vec();
        all.extend_from_slice(extra);
        let ls = self.declare(&all);
        let mut s = String::from("(push)\n");
        Self::ranges(&ls, &mut s);
        for t in conj { s.push_str("(assert "); t.smt(&mut s); s.push_str(")\n"); }
        s.push_str("(check-sat)\n");
        self.send(&s);
        self.queries += 1;
        let r = self.line();
        let mut out = HashMap::new();
        let ok = r == "sat";
        if ok {
            for l in ls {
                self.send(&format!("(get-value ({}))\n", l.leaf_name()));
                let mut txt = self.line();
                while txt.matches('(').count() > txt.matches(')').count() { let more = self.line(); if more.is_empty() { break; } txt.push(' '); txt.push_str(&more); }
                if let Some(v) = parse_value(&txt, &l.leaf_name()) { out.insert(l, v); }
            }
        }
        self.send("(pop)\n");
        if ok { Some(out) } else { None }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MV { B(u128), R(i128, i128) }

fn parse_value(s: &str, name: &str) -> Option<MV> {
    let s = s.trim().strip_prefix("((")?.strip_suffix("))")?;
    let v = s.strip_prefix(name)?.trim();
    if v == "true" { return Some(MV::B(1)); }
    if v == "false" { return Some(MV::B(0)); }
    if let Some(x) = v.strip_prefix("#x") { return u128::from_str_radix(x, 16).ok().map(MV::B); }
    if let Some(x) = v.strip_prefix("#b") { return u128::from_str_radix(x, 2).ok().map(MV::B); }
    fn r(v: &str) -> Option<(i128, i128)> {
        let v = v.trim();
        if let Some(x) = v.strip_prefix("(- ") { let (a, b) = r(x.strip_suffix(')')?)?; return Some((-a, b)); }
        if let Some(x) = v.strip_prefix("(/ ") {
            let x = x.strip_suffix(')')?;
            let (mut depth, mut cut) = (0, 0);
            for (i, c) in x.char_indices() { match c { '(' => depth += 1, ')' => depth -= 1, ' ' if depth == 0 => { cut = i; break; } _ => {} } }
            let (a, b) = r(&x[..cut])?; let (c, d) = r(&x[cut..])?;
            return Some((a.checked_mul(d)?, b.checked_mul(c)?));
        }
        let v = v.strip_suffix(".0").unwrap_or(v);
        Some((v.parse().ok()?, 1))
    }
    r(v).map(|(a, b)| MV::R(a, b))
}
