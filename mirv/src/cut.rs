//! Loops over a text or list of any length, decided by induction. A *block* stands for any number
//! of lines (or elements). A loop that reaches a block either takes all of it, or takes some of it
//! and then one arbitrary line: that line is executed by the real code from the state that an
//! arbitrary number of earlier iterations leaves behind. When the line's iteration ends at the loop
//! head again, everything but the counters and the lists the loop appends to must be as before
//! (otherwise the loop is not decided); what the loop appends for a block is an unknown function of
//! the block and of the loop's inputs.
use crate::body::*;
use crate::exec::*;
use crate::term::*;
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Step { Local(usize, usize), Field(u32), Deref }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Counter, Append }
pub type Mods = HashMap<Rc<str>, Vec<(Vec<Step>, Kind)>>;

/// the state in which one arbitrary iteration begins
#[derive(Clone)]
pub struct Cut { pub sig: Rc<str>, pub block: u32, pub frames: Vec<Rc<Frame>>, pub heap: Rc<Vec<Val>> }

fn use_pl(p: &Pl, f: &mut dyn FnMut(usize)) { f(p.local); for e in &p.proj { if let PE::Index(i) = e { f(*i) } } }
fn use_opd(o: &Opd, f: &mut dyn FnMut(usize)) { if let Opd::Place(p) = o { use_pl(p, f) } }
fn use_rv(r: &Rv, f: &mut dyn FnMut(usize)) {
    match r {
        Rv::Use(o) | Rv::Not(o) | Rv::Neg(o) | Rv::PtrMeta(o) | Rv::MkString(o) | Rv::MkVec(o) | Rv::IntCast(o, ..) | Rv::Unsize(o, ..) | Rv::Repeat(o, _) => use_opd(o, f),
        Rv::Ref(p) | Rv::Discr(p, ..) | Rv::Len(p) => use_pl(p, f),
        Rv::Bin(_, a, b, ..) | Rv::Checked(_, a, b, ..) | Rv::RawPtr(a, b) => { use_opd(a, f); use_opd(b, f) }
        Rv::Agg(l) | Rv::Variant(_, l) => for o in l { use_opd(o, f) },
        Rv::FnPtr(_) | Rv::Bad(_) => {}
    }
}
/// the locals that each block may read before it overwrites them
fn live_in(fun: &Fun) -> Vec<Vec<bool>> {
    let n = fun.blocks.len();
    let mut live = vec![vec![false; fun.nlocals]; n];
    loop {
        let mut changed = false;
        for b in (0..n).rev() {
            let blk = &fun.blocks[b];
            let mut cur = vec![false; fun.nlocals];
            let mut join = |t: usize, cur: &mut Vec<bool>| { if t < n { for k in 0..fun.nlocals { cur[k] |= live[t][k]; } } };
            match &blk.term {
                Tm::Goto(t) => join(*t, &mut cur),
                Tm::Switch(o, l, d) => { for (_, t) in l { join(*t, &mut cur); } join(*d, &mut cur); use_opd(o, &mut |k| cur[k] = true); }
                Tm::Return => cur[0] = true,
                Tm::Unreachable | Tm::Bad(_) => {}
                Tm::Call { callee, args, dest, target } => {
                    if let Some(t) = target { join(*t, &mut cur); }
                    if dest.proj.is_empty() { cur[dest.local] = false; } else { use_pl(dest, &mut |k| cur[k] = true); }
                    for o in args { use_opd(o, &mut |k| cur[k] = true); }
                    if let CallT::Ptr(o) = callee { use_opd(o, &mut |k| cur[k] = true); }
                }
                Tm::Assert { cond, target, .. } => { join(*target, &mut cur); use_opd(cond, &mut |k| cur[k] = true); }
            }
            for s in blk.stmts.iter().rev() {
                match s {
                    St::Assign(p, r) => {
                        if p.proj.is_empty() { cur[p.local] = false; } else { use_pl(p, &mut |k| cur[k] = true); }
                        use_rv(r, &mut |k| cur[k] = true);
                    }
                    St::SetDiscr(p, _) => use_pl(p, &mut |k| cur[k] = true),
                    St::Bad(_) => {}
                }
            }
            if cur != live[b] { live[b] = cur; changed = true; }
        }
        if !changed { return live; }
    }
}
/// first frame that belongs to neither a contract nor a harness
fn base(st: &State) -> Res<usize> {
    let mut k = 0;
    for (i, f) in st.frames.iter().enumerate() {
        match &f.fun { None => return unsup("block inside a formatted text"), Some(fu) => if !fu.file.starts_with('/') && !fu.file.contains("models.rs") { k = i + 1; } }
    }
    if k >= st.frames.len() { return unsup("block in a contract"); }
    Ok(k)
}
fn sig(st: &State, base: usize) -> Rc<str> {
    let mut s = String::new();
    for f in &st.frames[base..] { s.push_str(&format!("{}:{} ", f.fun.as_ref().unwrap().name, f.bb)); }
    s.into()
}
/// the locals of a frame at a call that are read after it
fn roots(x: &mut Ex, f: &Frame) -> Vec<usize> {
    let fun = f.fun.clone().unwrap();
    let live = x.live.entry(fun.id).or_insert_with(|| Rc::new(live_in(&fun))).clone();
    let mut out = vec![];
    if let Tm::Call { dest, target, .. } = &fun.blocks[f.bb].term {
        for k in 0..fun.nlocals {
            let l = target.map_or(false, |t| live[t][k]);
            if if k == dest.local { !dest.proj.is_empty() } else { l } { out.push(k); }
        }
    } else { out.extend(0..fun.nlocals); }
    out
}
struct Mem<'a> { frames: &'a [Rc<Frame>], heap: &'a [Val] }
impl<'a> Mem<'a> {
    fn read(&self, p: &Ptr) -> Option<&'a Val> {
        let mut v: &Val = match p.base { Base::Local(f, l) => self.frames.get(f as usize)?.locals.get(l as usize)?, Base::Heap(h) => self.heap.get(h as usize)?, Base::Const(_) => return None };
        for i in p.path.iter() { v = match v { Val::Agg(f) | Val::Enum(_, f) | Val::Vec(f) | Val::VecM(f) => f.get(*i as usize)?, _ => return None }; }
        Some(v)
    }
}
/// a text that stands for the value, with what it refers to
fn canon(ss: &StrStore, m: &Mem, v: &Val, at: &Ptr, it: &Ptr, seen: &mut Vec<Ptr>, o: &mut String) -> Res<()> {
    if at == it { o.push('@'); return Ok(()); }
    match v {
        Val::Int(t) | Val::Dec(t) => o.push_str(&format!("{},", ss.term(*t).show())),
        Val::Str(r) => o.push_str(&format!("{:?},", ss.norm(r))),
        Val::Agg(f) | Val::Enum(_, f) | Val::Vec(f) | Val::VecM(f) => {
            if let Val::Enum(k, _) = v { o.push_str(&k.to_string()); }
            o.push('(');
            for (i, e) in f.iter().enumerate() { canon(ss, m, e, &at.field(i as u32), it, seen, o)?; }
            o.push(')');
        }
        Val::Ref(p) | Val::Slice(p, ..) => {
            if let Val::Slice(_, a, n) = v { o.push_str(&format!("[{};{}]", a, n)); }
            match p.base {
                Base::Const(_) => o.push_str(&format!("{:?}", p)),
                _ => {
                    o.push('&');
                    if let Some(k) = seen.iter().position(|q| q == p) { o.push_str(&k.to_string()); return Ok(()); }
                    seen.push(p.clone());
                    match m.read(p) { Some(w) => canon(ss, m, w, p, it, seen, o)?, None => o.push('?') }
                }
            }
        }
        Val::It(_) => { let mut s = String::new(); it_text(ss, v, &mut s); if s.is_empty() { return unsup("iterator in the state of a loop"); } o.push_str(&s) }
        Val::Dyn(w, k) => { o.push_str(&format!("dyn{} ", k)); canon(ss, m, w, &Ptr::new(Base::Const(u32::MAX)), it, seen, o)?; }
        Val::Uninit | Val::FnPtr(_) | Val::Opaque(_) | Val::Many(..) => o.push_str(&format!("{:?},", v)),
        _ => return unsup(format!("state of a loop: {}", short(v))),
    }
    Ok(())
}
/// a text that is the same for values that are the same
pub fn same_text(st: &State, v: &Val) -> Res<String> {
    let m = Mem { frames: &st.frames, heap: &st.heap };
    let (mut o, at) = (String::new(), Ptr::new(Base::Const(u32::MAX)));
    canon(&st.ss, &m, v, &at, &Ptr::new(Base::Const(u32::MAX - 1)), &mut vec![], &mut o)?;
    Ok(o)
}
fn it_text(ss: &StrStore, v: &Val, o: &mut String) {
    if let Val::It(i) = v { match &**i {
        It::Lines(r) | It::Chars(r) | It::Bytes(r) | It::SplitWs(r) => o.push_str(&format!("it {:?},", ss.norm(r))),
        It::Slice(p, a, n) => o.push_str(&format!("it {:?} {} {},", p, a, n)),
        _ => {}
    } }
}
struct Cmp<'a, 'b> { x: &'a mut Ex<'b>, ss: &'a StrStore, old: Mem<'a>, new: Mem<'a>, it: Ptr, seen: Vec<Ptr>, diffs: Vec<(Vec<Step>, Kind)> }
impl<'a, 'b> Cmp<'a, 'b> {
    fn no(&self, what: &str, o: &Val, n: &Val) -> Res<()> { unsup(format!("a loop changes {}: {} -> {}", what, short(o), short(n))) }
    fn go(&mut self, o: &Val, n: &Val, at: &Ptr, steps: &mut Vec<Step>) -> Res<()> {
        if *at == self.it { return Ok(()); }
        match (o, n) {
            (Val::Int(a), Val::Int(b)) => {
                let (a, b) = (self.ss.term(*a), self.ss.term(*b));
                if a == b || a.teq(b).kbool() == Some(true) { return Ok(()); }
                if a.w() == b.w() && a.w() >= 8 && b.teq(a.bin(Op::Add, T::c(1, a.w()))).kbool() == Some(true) { self.diffs.push((steps.clone(), Kind::Counter)); return Ok(()); }
                if a.w() == b.w() {
                    let e = a.teq(b);
                    if self.ss.query(e.bnot(), &mut self.x.z) == crate::smt::R::Unsat { return Ok(()); }
                    if a.w() >= 8 { let e = b.teq(a.bin(Op::Add, T::c(1, a.w()))); if self.ss.query(e.bnot(), &mut self.x.z) == crate::smt::R::Unsat { self.diffs.push((steps.clone(), Kind::Counter)); return Ok(()); } }
                }
                self.no("a number", o, n)
            }
            (Val::Dec(a), Val::Dec(b)) => if self.ss.term(*a) == self.ss.term(*b) { Ok(()) } else { self.no("a number", o, n) },
            (Val::Str(a), Val::Str(b)) => if self.ss.norm(a) == self.ss.norm(b) { Ok(()) } else { self.no("a text", o, n) },
            (Val::Vec(f) | Val::VecM(f), Val::Vec(g) | Val::VecM(g)) if g.len() > f.len() => {
                let d = self.diffs.len();
                for i in 0..f.len() { steps.push(Step::Field(i as u32)); self.go(&f[i], &g[i], &at.field(i as u32), steps)?; steps.pop(); }
                if self.diffs.len() > d { return unsup("a loop changes an element of a list"); }
                self.diffs.push((steps.clone(), Kind::Append));
                Ok(())
            }
            (Val::Vec(f), Val::Vec(g)) | (Val::VecM(f), Val::VecM(g)) | (Val::Agg(f), Val::Agg(g)) if f.len() == g.len() => self.parts(f, g, at, steps),
            (Val::Enum(j, f), Val::Enum(k, g)) if j == k && f.len() == g.len() => self.parts(f, g, at, steps),
            (Val::Ref(p), Val::Ref(q)) | (Val::Slice(p, ..), Val::Slice(q, ..)) => {
                if p != q { return self.no("a reference", o, n); }
                if let (Val::Slice(_, a, b), Val::Slice(_, c, d)) = (o, n) { if (a, b) != (c, d) { return self.no("a slice", o, n); } }
                if matches!(p.base, Base::Const(_)) || self.seen.contains(p) { return Ok(()); }
                self.seen.push(p.clone());
                let (Some(a), Some(b)) = (self.old.read(p), self.new.read(p)) else { return Ok(()) };
                if let Val::Slice(..) = o { steps.push(Step::Deref); }
                steps.push(Step::Deref);
                let r = self.go(a, b, p, steps);
                steps.pop();
                if let Val::Slice(..) = o { steps.pop(); }
                r
            }
            (Val::It(_), Val::It(_)) => { let (mut a, mut b) = (String::new(), String::new()); it_text(self.ss, o, &mut a); it_text(self.ss, n, &mut b); if !a.is_empty() && a == b { Ok(()) } else { self.no("an iterator", o, n) } }
            (Val::Dyn(a, j), Val::Dyn(b, k)) if j == k => { let t = Ptr::new(Base::Const(u32::MAX)); let d = self.diffs.len(); self.go(a, b, &t, steps)?; if self.diffs.len() > d { return unsup("a loop changes a trait object"); } Ok(()) }
            (a, b) if a == b => Ok(()),
            _ => self.no("a value", o, n),
        }
    }
    fn parts(&mut self, f: &[Val], g: &[Val], at: &Ptr, steps: &mut Vec<Step>) -> Res<()> {
        for i in 0..f.len() { steps.push(Step::Field(i as u32)); self.go(&f[i], &g[i], &at.field(i as u32), steps)?; steps.pop(); }
        Ok(())
    }
}
fn place(x: &Ex, st: &State, base: usize, steps: &[Step]) -> Res<Ptr> {
    let mut p = None;
    for s in steps {
        p = Some(match (s, p) {
            (Step::Local(f, l), _) => Ptr::new(Base::Local((base + f) as u32, *l as u32)),
            (Step::Field(i), Some(q)) => Ptr::field(&q, *i),
            (Step::Deref, Some(q)) => match x.read(st, &q)? { Val::Ref(r) | Val::Slice(r, ..) => r, v => return unsup(format!("loop state through {}", short(&v))) },
            _ => return unsup("loop state"),
        });
    }
    p.ok_or(Stop::Unsup("loop state".into()))
}
/// The loop that reads through `it` has reached the block `b`. Ok: the block is taken, the loop's
/// counters and lists stand behind it.
pub fn take_block(x: &mut Ex, st: &mut State, it: &Ptr, b: u32, count: &dyn Fn(&StrStore) -> T, after: Val, split: &dyn Fn(&mut StrStore) -> (Vec<Upd>, u32, u32)) -> Res<()> {
    if x.nested > 0 { return unsup("block in a nested evaluation"); }
    let base = base(st)?;
    let sig = sig(st, base);
    let frames: Vec<Rc<Frame>> = st.frames[base..].to_vec();
    let live: Vec<Vec<usize>> = frames.iter().map(|f| roots(x, f)).collect();
    if std::env::var("MIRV_CUT").is_ok() { eprintln!("AT {} cuts {:?} steps {:?}", b, st.cuts.iter().map(|c| (c.block, c.sig == sig)).collect::<Vec<_>>(), st.ss.steps); }
    // one more iteration is complete
    if let Some(c) = st.cuts.iter().rev().find(|c| c.block == b && c.sig == sig).cloned() {
        let ss = st.ss.clone();
        let mut cmp = Cmp { x, ss: &ss, old: Mem { frames: &c.frames, heap: &c.heap }, new: Mem { frames: &st.frames, heap: &st.heap }, it: it.clone(), seen: vec![], diffs: vec![] };
        for (k, l) in live.iter().enumerate() {
            for v in l {
                let p = Ptr::new(Base::Local((base + k) as u32, *v as u32));
                let (Some(o), Some(n)) = (c.frames.get(base + k).and_then(|f| f.locals.get(*v)), st.frames[base + k].locals.get(*v)) else { return unsup("loop frames") };
                cmp.go(o, n, &p, &mut vec![Step::Local(k, *v)])?;
            }
        }
        let diffs = cmp.diffs;
        let m = x.loop_mods.entry(sig).or_default();
        let n = m.len();
        for d in diffs { if !m.contains(&d) { m.push(d); } }
        if m.len() > n { x.restart = true; return Err(Stop::Infeasible); }
        let w = x.where_(st);
        x.ob(&format!("one more iteration changes only counters and appended lists in {}", w)).trivial += 1;
        return Err(Stop::Done);
    }
    let mut key = format!("{}|", sig);
    {
        let m = Mem { frames: &st.frames, heap: &st.heap };
        let mut seen = vec![];
        for (k, l) in live.iter().enumerate() {
            for v in l {
                let p = Ptr::new(Base::Local((base + k) as u32, *v as u32));
                key.push_str(&format!("{}.{}=", k, v));
                canon(&st.ss, &m, &st.frames[base + k].locals[*v], &p, it, &mut seen, &mut key)?;
            }
        }
    }
    let key: Rc<str> = key.into();
    if std::env::var("MIRV_CUT").is_ok() { eprintln!("BLOCK {} taken {} key {}", b, st.ss.taken.iter().any(|(k, s)| *s == b && **k == *key), key); }
    if st.ss.taken.iter().any(|(k, s)| *s == b && **k == *key) {
        let n = count(&st.ss);
        let mut done = vec![];
        for (j, (steps, kind)) in x.loop_mods.get(&sig).cloned().unwrap_or_default().iter().enumerate() {
            let p = place(x, st, base, steps)?;
            if done.contains(&p) { continue; }
            done.push(p.clone());
            let v = match (kind, x.read(st, &p)?) {
                (Kind::Counter, Val::Int(t)) => {
                    let n = if t.w() == 64 { n } else { return unsup("narrow loop counter") };
                    Val::Int(t.bin(Op::Add, n))
                }
                (Kind::Append, Val::Vec(f) | Val::VecM(f)) => { let mut f = f.to_vec(); f.push(Val::Many(key.clone(), b, j as u32)); Val::VecM(Rc::new(f)) }
                (_, v) => return unsup(format!("loop state {}", short(&v))),
            };
            x.write(st, &p, v)?;
        }
        x.write(st, it, after)?;
        if let Some((_, b2)) = st.ss.steps.iter().find(|(b1, _)| *b1 == b).copied() {
            let c = Cut { sig, block: b2, frames: st.frames.clone(), heap: st.heap.clone() };
            Rc::make_mut(&mut st.cuts).push(c);
        }
        return Ok(());
    }
    if st.ss.steps.iter().any(|(_, b2)| *b2 == b) { return unsup("a block emptied by other means"); }
    let (mut some, b1, b2) = split(&mut st.ss);
    if st.ss.taken.iter().any(|(_, s)| *s == b) { some.push(Upd::Taint("a block read by two loops")); }
    some.push(Upd::Taken(key.clone(), b1));
    some.push(Upd::Step(b1, b2));
    // the arbitrary iteration first: it shows what the loop changes
    Err(Stop::Fork(vec![some, vec![Upd::Taken(key, b)]]))
}
/// the lines of a block
pub fn lines_block(x: &mut Ex, st: &mut State, it: &Ptr, r: &Rope) -> Res<Option<Rope>> {
    let Some(Seg::Sym(b)) = r.first() else { return Ok(None) };
    let b = *b;
    let Some(first) = st.ss.blocks.get(&b).copied() else { return Ok(None) };
    let rest = rope_of(&r[1..]);
    let after = Val::It(Rc::new(It::Lines(rest.clone())));
    take_block(x, st, it, b, &|ss| ss.newlines(&Rc::new(vec![Seg::Sym(b)])), after, &|ss| {
        let i = ss.info(b).clone();
        let (b1, b2) = (ss.new_block(i.cs, first, &i.name), ss.new_block(i.cs, first, &i.name));
        let cs = i.cs.minus(crate::cs::CS::one('\n'));
        let l = ss.new_sym_info(SymInfo { cs, first: cs.and(first), last: cs, nonempty: false, name: i.name.clone() });
        (vec![Upd::Subst(b, Rc::new(vec![Seg::Sym(b1), Seg::Sym(l), Seg::Lit("\n".into()), Seg::Sym(b2)]))], b1, b2)
    })?;
    Ok(Some(rest))
}
