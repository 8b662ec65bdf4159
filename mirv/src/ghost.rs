//! The specification interface: recognised calls of the `proofs::ghost` module.
use crate::body::*;
use crate::cs::CS;
use crate::exec::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stub { Parse, Print, Same, Eq, Ne, Clone }

/// a call that is replaced by the callee's codec contract
pub fn stub_call(x: &mut Ex, st: &mut State, id: u32, a: &[Val]) -> Res<Option<Val>> {
    let e = match x.stub_cache.get(&id) { Some(e) => e.clone(), None => {
        let info = x.prog.info(id);
        let n = &info.name;
        let e = n.strip_prefix('<').and_then(|r| r.split_once(" as ")).and_then(|(ty, rest)| {
            let (tr, m) = rest.rsplit_once(">::")?;
            let tr = tr.split('<').next().unwrap().rsplit("::").next().unwrap();
            Some((ty.to_string(), match (tr, m) { ("VersionedFromStr", "from_str") => Stub::Parse, ("VersionedToString", "to_string") => Stub::Print, ("Codec", "same") => Stub::Same, ("PartialEq", "eq") => Stub::Eq, ("PartialEq", "ne") => Stub::Ne, ("Clone", "clone") => Stub::Clone, _ => return None }))
        });
        // the inherent functions of a section
        let e = e.or_else(|| { let (ty, m) = n.rsplit_once("::")?; Some((ty.to_string(), match m { "from_str" => Stub::Parse, "to_string" => Stub::Print, _ => return None })) });
        let e = e.or_else(|| { let (_, r) = n.split_once("<impl proofs::ghost::Codec for ")?; let (ty, m) = r.rsplit_once(">::")?; if m == "same" { Some((ty.to_string(), Stub::Same)) } else { None } });
        x.stub_cache.insert(id, e.clone());
        e
    } };
    let Some((ty, m)) = e else { return Ok(None) };
    let Some(&k) = st.stubs.get(&ty) else { return Ok(None) };
    let opaque = |x: &Ex, st: &State, v: &Val| -> Option<u32> { match x.deref_all(st, v) { Ok(Val::Opaque(i)) => Some(i), _ => None } };
    let pure_fn = codec(k, |c| c.pure_fn);
    let v = match m {
        Stub::Parse if pure_fn => {
            let r = x.text(st, &a[0])?;
            let v = x.int(st, &a[1])?;
            let mut known = None;
            for f in st.ss.facts.iter() { if let Fact::Cod(c, q, w, res) = f { if *c == k && *w == v && st.ss.norm(q) == r { known = *res; } } }
            match known {
                Some(0) => ok(none()),
                Some(i) if i >> 31 == 1 => { x.next_value += 1; err(agg(vec![Val::Int(T(i & 0x7fff_ffff)), Val::Opaque(x.next_value)])) }
                Some(i) => ok(some(Val::Opaque(i))),
                None => {
                    x.next_value += 1;
                    let l = T::var(64);
                    let fact = |i: u32| Upd::Fact(Fact::Cod(k, r.clone(), v, Some(i)));
                    // a section is there from its first version on; an error is on one of its lines
                    let from = T::c(codec(k, |c| c.from) as u128, 8).bin(Op::Ule, v);
                    let inside = l.bin(Op::Ule, st.ss.newlines(&r)).band(l.bin(Op::Ult, T::c(1 << 40, 64)));
                    let mut forks = vec![vec![Upd::Assume(from), fact(x.next_value)], vec![Upd::Assume(from), Upd::Assume(inside), fact(l.0 | 1 << 31)]];
                    if from.kbool() != Some(true) { forks.push(vec![Upd::Assume(from.bnot()), fact(0)]); }
                    return Err(Stop::Fork(forks));
                }
            }
        }
        Stub::Parse => {
            let r = x.text(st, &a[0])?;
            let v = x.int(st, &a[1])?;
            if r.len() == 1 { if let Seg::Cod(c, i, w) = &r[0] { if *c == k && *w == v { x.stubs_used.insert(ty); return Ok(Some(ok(some(Val::Opaque(*i))))); } } }
            let mut known = None;
            for f in st.ss.facts.iter() { if let Fact::Cod(c, q, w, res) = f { if *c == k && *w == v && st.ss.norm(q) == r { known = Some(*res); } } }
            if known.is_none() && (rope_is_lit(&r).is_some() || !codec(k, |c| c.pre_not).disjoint(st.ss.rope_cs(&r)) || !st.ss.rope_first(&r).0.sub(codec(k, |c| c.pre_first))) { return Ok(None); }
            match known {
                // the kind of the error is a number
                Some(Some(i)) if i >> 31 == 1 => err(Val::Opaque(i)),
                Some(Some(i)) => ok(some(Val::Opaque(i))),
                Some(None) => { x.next_value += 1; err(Val::Opaque(x.next_value)) }
                None => {
                    let acc = codec(k, |c| c.accepts);
                    let bad = r.iter().any(|s| match s { Seg::Lit(l) => !CS::of(l).sub(acc), s => st.ss.seg_nonempty(s) && st.ss.seg_cs(s).disjoint(acc) });
                    if bad { x.next_value += 1; return Ok(Some(err(Val::Opaque(x.next_value)))); }
                    x.next_value += 1;
                    let mut yes = vec![];
                    for s in r.iter() { match s { Seg::Sym(i) => yes.push(Upd::Narrow(*i, acc)), Seg::Ch(t) => yes.push(Upd::NarrowCh(*t, acc)), _ => {} } }
                    yes.push(Upd::Fact(Fact::Cod(k, r.clone(), v, Some(x.next_value))));
                    let errs = codec(k, |c| c.errs.len());
                    if errs > 0 {
                        let d = T::var(64);
                        let no = vec![Upd::Assume(d.bin(Op::Ult, T::c(errs as u128, 64))), Upd::Fact(Fact::Cod(k, r.clone(), v, Some(d.0 | 1 << 31)))];
                        return Err(Stop::Fork(vec![no, yes]));
                    }
                    return Err(Stop::Fork(if codec(k, |c| c.total) { vec![yes] } else { vec![vec![Upd::Fact(Fact::Cod(k, r.clone(), v, None))], yes] }));
                }
            }
        }
        Stub::Print => {
            let Some(i) = opaque(x, st, &a[0]) else { return Ok(None) };
            let v = x.int(st, &a[1])?;
            let from = codec(k, |c| c.from);
            let until = codec(k, |c| c.until);
            let c = T::c(from as u128, 8).bin(Op::Ule, v).band(v.bin(Op::Ule, T::c(until as u128, 8)));
            if from == 0 && until == 255 || x.decide(st, c)? { some(Val::Str(Rc::new(vec![Seg::Cod(k, i, v)]))) } else { none() }
        }
        Stub::Clone => match opaque(x, st, &a[0]) { Some(i) => Val::Opaque(i), None => return Ok(None) },
        Stub::Same | Stub::Eq | Stub::Ne => {
            if m != Stub::Same && !codec(k, |c| c.exact) { return Ok(None); }
            let (Some(i), Some(j)) = (opaque(x, st, &a[0]), opaque(x, st, &a[1])) else { if std::env::var("MIRV_DEBUG").is_ok() { eprintln!("NOT OPAQUE {} {:?} {:?}", ty, x.deref_all(st, &a[0]).map(|v| short(&v)), x.deref_all(st, &a[1]).map(|v| short(&v))); } return Ok(None) };
            let e = if i == j { true } else {
                let mut known = None;
                for f in st.ss.facts.iter() { if let Fact::CodEq(p, q, b) = f { if (*p, *q) == (i, j) || (*p, *q) == (j, i) { known = Some(*b); } } }
                match known { Some(b) => b, None => return Err(Stop::Fork(vec![vec![Upd::Fact(Fact::CodEq(i, j, false)), Upd::Taint("values under a codec contract compared")], vec![Upd::Fact(Fact::CodEq(i, j, true)), Upd::Taint("values under a codec contract compared")]])) }
            };
            vbool(e == (m != Stub::Ne))
        }
    };
    x.stubs_used.insert(ty);
    Ok(Some(v))
}

fn label(x: &Ex, st: &State, v: &Val) -> Res<Rc<str>> { let r = x.text(st, v)?; rope_is_lit(&r).ok_or_else(|| Stop::Unsup("label".into())) }
fn input(st: &mut State, kind: u8, l: Rc<str>, v: Val) { Rc::make_mut(&mut st.inputs).push((kind, l, v)); }

pub fn lookup(info: &InstInfo) -> Option<NativeFn> {
    let d = info.def.as_str();
    let m = d.strip_prefix("proofs::ghost::")?;
    macro_rules! nat { (|$x:ident, $st:ident, $i:ident, $a:ident| $b:expr) => {{ fn f($x: &mut Ex, $st: &mut State, $i: &InstInfo, $a: Vec<Val>) -> Res<NR> { let _ = (&$x, &$st, &$i, &$a); $b } f as NativeFn }} }
    macro_rules! anyint { ($k:expr, $w:expr) => { nat!(|x, st, i, a| { let l = label(x, st, &a[0])?; let t = T::var($w); input(st, $k, l, Val::Int(t)); Ok(NR::V(Val::Int(t))) }) } }
    Some(match m {
        "any_i32" => anyint!(1, 32),
        "any_u8" => anyint!(2, 8),
        "any_bool" => anyint!(3, 0),
        "any_usize" => anyint!(4, 64),
        "any_i64" => anyint!(5, 64),
        "any_dec" => nat!(|x, st, i, a| { let l = label(x, st, &a[0])?; let t = T::var(REAL); if !st.ss.assume(crate::natives::dec_range(t), &mut x.z) { return Err(Stop::Infeasible); } input(st, 6, l, Val::Dec(t)); Ok(NR::V(Val::Dec(t))) }),
        // any text none of whose characters is in the second argument
        "any_str_not" | "any_str_of" => nat!(|x, st, i, a| {
            let l = label(x, st, &a[0])?;
            let e = label(x, st, &a[1])?;
            let cs = if i.def.ends_with("_of") { CS::of(&e) } else { CS::of(&e).inv() };
            let s = st.ss.new_sym(cs, false, &l);
            let v = Val::Str(Rc::new(vec![Seg::Sym(s)]));
            input(st, 0, l, v.clone());
            Ok(NR::V(v))
        }),
        // any number of whole lines; no line has a character of the second argument or begins with one of the third
        "any_lines" => nat!(|x, st, i, a| {
            let l = label(x, st, &a[0])?;
            let (e, f) = (label(x, st, &a[1])?, label(x, st, &a[2])?);
            let cs = CS::of(&e).inv().or(CS::one('\n'));
            let s = st.ss.new_block(cs, CS::of(&f).inv(), &l);
            let v = Val::Str(Rc::new(vec![Seg::Sym(s)]));
            input(st, 0, l, v.clone());
            Ok(NR::V(v))
        }),
        // two lists are equal, element by element
        "same_list" => nat!(|x, st, i, a| {
            let (p, q) = (x.deref_all(st, &a[0])?, x.deref_all(st, &a[1])?);
            let (Val::Vec(f) | Val::VecM(f), Val::Vec(g) | Val::VecM(g)) = (&p, &q) else { return unsup("lists") };
            if f == g { return Ok(NR::V(vbool(true))); }
            if f.len() == g.len() && f.iter().zip(g.iter()).all(|(p, q)| p == q || matches!((crate::cut::same_text(st, p), crate::cut::same_text(st, q)), (Ok(p), Ok(q)) if p == q)) { return Ok(NR::V(vbool(true))); }
            let plain = |l: &Vec<Val>| l.iter().all(|v| matches!(v, Val::Opaque(_)));
            if f.len() != g.len() && plain(f) && plain(g) { return Ok(NR::V(vbool(false))); }
            unsup(format!("lists that may be equal: {} {}", short(&p), short(&q)))
        }),
        "assume" => nat!(|x, st, i, a| { let t = x.int(st, &a[0])?; if st.ss.assume(t, &mut x.z) { Ok(NR::V(unit())) } else { Err(Stop::Infeasible) } }),
        "ensure" => nat!(|x, st, i, a| { let l = label(x, st, &a[0])?; let t = x.int(st, &a[1])?; x.ensure(st, &l, t)?; Ok(NR::V(unit())) }),
        "cover" => nat!(|x, st, i, a| { let l = label(x, st, &a[0])?; *x.covers.entry(l.to_string()).or_default() += 1; Rc::make_mut(&mut st.covers).push(l); Ok(NR::V(unit())) }),
        "bounded" => nat!(|x, st, i, a| { let l = label(x, st, &a[0])?; x.bounds.insert(l.to_string()); Ok(NR::V(unit())) }),
        "at_most" => nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let c = x.int(st, &a[1])?;
            let n = x.usize_const(st, &a[2])?;
            let Some(c) = c.konst().and_then(|c| char::from_u32(c as u32)) else { return unsup("at_most") };
            x.bounds.insert(format!("at most {} {:?} in the text", n, c));
            if st.ss.add_fact(Fact::AtMost(r, c, n)) && st.ss.refresh() { Ok(NR::V(unit())) } else { Err(Stop::Infeasible) }
        }),
        // some character of the text / its first / its last character is in the set
        "has_char" | "first_in" | "last_in" => nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let r = st.ss.norm(&r);
            let l = label(x, st, &a[1])?;
            let cs = CS::of(&l);
            if i.def.ends_with("has_char") {
                if st.ss.rope_cs(&r).disjoint(cs) { return Ok(NR::V(vbool(false))); }
                let (_, post) = st.ss.take_while(&r, cs.inv())?;
                return Ok(NR::V(vbool(!st.ss.is_empty(&post)?)));
            }
            if st.ss.is_empty(&r)? { return Ok(NR::V(vbool(false))); }
            if i.def.ends_with("first_in") {
                if st.ss.rope_first(&r).0.disjoint(cs) { return Ok(NR::V(vbool(false))); }
                let (pre, _) = st.ss.take_while(&r, cs)?;
                return Ok(NR::V(vbool(!st.ss.is_empty(&pre)?)));
            }
            if st.ss.seg_nonempty(r.last().unwrap()) && st.ss.seg_last(r.last().unwrap()).disjoint(cs) { return Ok(NR::V(vbool(false))); }
            let (_, post) = st.ss.rtake_while(&r, cs)?;
            Ok(NR::V(vbool(!st.ss.is_empty(&post)?)))
        }),
        // the codec contract of a type, from here on used instead of its body
        "use_codec_raw" | "use_codec_errs" => nat!(|x, st, i, a| {
            let ty = ty_name(&i.tys[0]);
            let mut l = vec![];
            for v in &a[..4] { l.push(label(x, st, v)?); }
            let nonempty = x.int(st, &a[4])?.kbool() == Some(true);
            let from = x.int(st, &a[5])?.konst().unwrap_or(0) as u8;
            let exact = x.int(st, &a[6])?.kbool() == Some(true);
            let mut examples = vec![];
            for v in x.elems(st, &a[7])? { examples.push(label(x, st, &v)?.to_string()); }
            let pre_not = CS::of(&label(x, st, &a[8])?);
            let pure_fn = x.int(st, &a[9])?.kbool() == Some(true);
            let pre_first = CS::of(&label(x, st, &a[10])?).inv();
            let until = x.int(st, &a[11])?.konst().unwrap_or(255) as u8;
            let total = x.int(st, &a[12])?.kbool() == Some(true);
            let all = CS::of(&l[0]).inv();
            let k = CODECS.with(|c| { let mut c = c.borrow_mut(); c.push(Codec { pure_fn, ty: ty.clone(), cs: all, first: all.minus(CS::of(&l[1])), last: all.minus(CS::of(&l[2])), nonempty, pre_not, pre_first, until, total, accepts: CS::of(&l[3]).inv(), from, exact, examples, errs: i.tys.get(1).map(|t| x.prog.variant_fields(*t)).unwrap_or_default() }); c.len() as u32 - 1 });
            Rc::make_mut(&mut st.stubs).insert(ty, k);
            Ok(NR::V(unit()))
        }),
        "debug" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; eprintln!("DEBUG {}", st.ss.show(&r)); Ok(NR::V(unit())) }),
        _ => return None,
    })
}
