//! Contracts of the standard library, nom's input traits and rust_decimal, on symbolic text.
use crate::body::*;
use crate::cs::CS;
use crate::exec::*;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;


fn model(x: &mut Ex, name: &str, tys: Vec<Ty>) -> CallKind {
    let Some(d) = x.prog.models.get(name).cloned() else { return CallKind::Unsup(format!("model {} missing", name)) };
    match x.prog.resolve(d, &GenericArgs(tys.into_iter().map(GenericArgKind::Type).collect())) {
        Ok(i) => CallKind::Redirect(i),
        Err(e) => CallKind::Unsup(e),
    }
}
fn plain(v: &Val) -> bool {
    match v { Val::Agg(f) | Val::Enum(_, f) | Val::Vec(f) => f.iter().all(plain), Val::Int(_) | Val::Str(_) | Val::Dec(_) | Val::Opaque(_) => true, _ => false }
}
fn nat_clone_plain(x: &mut Ex, st: &mut State, _i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let v = x.deref(st, &a[0])?;
    if plain(&v) { Ok(NR::V(v)) } else { unsup("clone of a tuple with references") }
}
fn str_ref_ty() -> Ty { Ty::from_rigid_kind(RigidTy::Ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), rustc_public::mir::Mutability::Not)) }
pub fn model_id(x: &mut Ex, name: &str, tys: Vec<Ty>) -> Res<u32> {
    match model(x, name, tys) { CallKind::Redirect(i) => Ok(i), CallKind::Unsup(e) => unsup(e), _ => unsup("model") }
}

pub fn classify(x: &mut Ex, info: &InstInfo, id: u32) -> CallKind {
    let d = info.def.as_str();
    let n = info.name.as_str();
    if std::env::var("MIRV_CALLS").is_ok() { eprintln!("CALL def={} name={} kind={}", d, n, info.kind); }
    if let Some(f) = crate::ghost::lookup(info) { return CallKind::Native(f); }
    if info.kind == 2 { return CallKind::Virtual; }
    if is_panic(d) { return CallKind::Panic(panic_name(d)); }
    if let Some(f) = lookup(info) { return CallKind::Native(f); }
    if let Some(m) = redirect(x, info) { return m; }
    if info.kind == 1 { return CallKind::Unsup(format!("intrinsic {}", n)); }
    if info.kind == 3 && (d.ends_with("FnOnce::call_once") || d.ends_with("FnMut::call_mut") || d.ends_with("Fn::call")) {
        if let Some(TyKind::RigidTy(RigidTy::FnDef(..) | RigidTy::FnPtr(_))) = info.tys.first().map(|t| t.kind()) { return CallKind::Native(call_fn_item); }
    }
    // the compiler's clone of a tuple or array copies its plain parts
    if info.kind == 3 && d.ends_with("Clone::clone") { return CallKind::Native(nat_clone_plain); }
    for bad in DENY { if d.starts_with(bad) && !ALLOW.iter().any(|a| d.starts_with(a)) { return CallKind::Unsup(format!("no contract for {}", short_name(n))); } }
    if info.inst.has_body() { let _ = id; CallKind::Mir } else if ctor(info).is_some() { CallKind::Native(call_ctor) } else { CallKind::Unsup(format!("no body for {}", short_name(n))) }
}
/// library internals that must not be executed on the abstract representation
const DENY: &[&str] = &["core::str::", "std::str::", "alloc::str::", "std::string::", "std::vec::", "alloc::vec::", "core::slice::", "std::slice::", "alloc::slice::", "std::path::", "std::ffi::", "rust_decimal::",
    "std::intrinsics", "core::intrinsics", "std::ptr::", "core::ptr::", "std::alloc", "alloc::alloc", "std::collections", "std::rc", "std::sync", "std::io", "std::fs", "std::thread", "std::env", "std::time", "core::num::", "std::num::"];
const ALLOW: &[&str] = &["std::slice::SliceIndex", "core::num::<impl", "std::num::NonZero", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::is_empty", "std::str::FromStr", "std::string::ToString", "core::str::<impl str>::parse", "std::vec::Vec::<T, A>::is_empty", "core::str::<impl str>::split_once", "std::vec::Vec::<T, A>::first"];

fn is_panic(d: &str) -> bool {
    d.starts_with("core::panicking::") || d.starts_with("std::rt::panic") || d.starts_with("std::rt::begin_panic") || d.ends_with("unwrap_failed") || d.ends_with("expect_failed") || d.ends_with("_fail") && d.starts_with("core::")
        || d == "std::process::abort" || d == "std::process::exit" || d.ends_with("handle_alloc_error") || d.ends_with("capacity_overflow") || d.starts_with("std::panicking::")
}
fn panic_name(d: &str) -> String { d.rsplit("::").next().unwrap_or(d).to_string() }

/// sets, maps and queues as lists of their elements
fn collection(x: &mut Ex, d: &str, t: &[Ty]) -> Option<CallKind> {
    let mut flat = String::new();
    let mut depth = 0;
    for c in d.chars() { match c { '<' => depth += 1, '>' => depth -= 1, c if depth == 0 => flat.push(c), _ => {} } }
    let by_trait = d.starts_with('<');
    let of = |n: &str| if by_trait { d.starts_with(&format!("<std::collections::{n}<")) } else { d.starts_with("std::collections::") && d.split("::").any(|p| p == n) };
    let kind = if of("HashSet") || of("BTreeSet") { 0 } else if of("HashMap") || of("BTreeMap") { 1 } else if of("VecDeque") { 2 } else { return None };
    let m = d.rsplit("::").find(|p| !p.contains('<') && !p.contains('>'))?;
    let last = *t.last()?;
    let pair = |x: &mut Ex, n: &str, v: Vec<Ty>| Some(model(x, n, v));
    match (kind, m) {
        (_, "new" | "with_capacity" | "default") if m != "with_capacity" => pair(x, "m_coll_new", vec![t[0]]),
        (_, "len") => pair(x, "m_coll_len", vec![t[0]]),
        (_, "is_empty") => pair(x, "m_coll_empty", vec![t[0]]),
        (_, "clear") => pair(x, "m_coll_clear", vec![t[0]]),
        (0, "insert") => pair(x, "m_set_insert", vec![t[0]]),
        (0, "contains" | "remove") => pair(x, &format!("m_set_{m}"), vec![t[0], last]),
        (0, "from_iter") => pair(x, "m_set_from_iter", vec![t[0], last]),
        (1, "insert") => pair(x, "m_map_insert", vec![t[0], t[1]]),
        (1, "get" | "get_mut" | "remove") => pair(x, &format!("m_map_{m}"), vec![t[0], t[1], last]),
        (1, "contains_key") => pair(x, "m_map_contains", vec![t[0], t[1], last]),
        (1, "from_iter") => pair(x, "m_map_from_iter", vec![t[0], t[1], last]),
        (2, "push_back" | "push_front" | "pop_back" | "pop_front") => pair(x, &format!("m_deque_{m}"), vec![t[0]]),
        _ => None,
    }
}
fn redirect(x: &mut Ex, info: &InstInfo) -> Option<CallKind> {
    let d = info.def.as_str();
    let t = &info.tys;
    let base = ["std::slice::Iter<", "std::slice::IterMut<", "std::vec::IntoIter<", "std::str::Lines", "std::str::Chars", "std::str::Bytes", "std::str::CharIndices", "std::str::Split<", "std::str::SplitN<", "std::str::SplitTerminator<", "std::str::SplitInclusive<", "std::str::RSplit<", "std::str::RSplitN<", "std::str::SplitWhitespace", "std::str::Matches<", "std::array::IntoIter<", "std::slice::Chunks", "std::slice::Windows<"];
    if let Some(m) = d.strip_prefix("std::iter::Iterator::") {
        if m == "count" && ["std::str::Lines", "std::str::Matches<", "std::str::Chars", "std::str::Bytes", "std::str::Split<"].iter().any(|b| ty_name(&t[0]).starts_with(b)) { return Some(CallKind::Native(text_count)); }
        if m == "count" && ty_name(&t[0]).starts_with("std::iter::Filter<std::str::") { return Some(CallKind::Native(filter_count)); }
        if m == "count" && ty_name(&t[0]).starts_with("std::iter::TakeWhile<std::str::Chars") { return Some(CallKind::Native(take_while_count)); }
        if matches!(m, "nth" | "advance_by") { return Some(model(x, &format!("m_iter_{}", m), vec![t[0]])); }
        if matches!(m, "any" | "all" | "position" | "find") && ty_name(&t[0]).starts_with("std::str::Chars") && !ty_name(&t[0]).contains("CharIndices") { return Some(CallKind::Native(chars_pred)); }
    }
    if d.contains("std::collections::") { if let Some(k) = collection(x, d, t) { return Some(k); } }
    if d == "<std::iter::Filter<I, P> as std::iter::Iterator>::count" && ["std::str::Chars", "std::str::Bytes"].iter().any(|b| ty_name(&t[0]).starts_with(b)) { return Some(CallKind::Native(filter_count)); }
    if let Some(r) = d.strip_prefix('<') {
        if base.iter().any(|b| r.starts_with(b)) && (d.contains("as std::iter::Iterator>::") || d.contains("as std::iter::DoubleEndedIterator>::")) {
            let m = d.rsplit(">::").next().unwrap();
            // generic method parameters follow the iterator's own; the self type is rebuilt from the method's receiver
            let sig = info.inst.ty().kind().fn_sig().map(|s| s.skip_binder());
            if let Some(sig) = sig {
                let mut selft = sig.inputs().first().copied()?;
                if let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = selft.kind() { selft = u; }
                let own = t.iter().skip_while(|_| false).count();
                if m == "count" && ["std::str::Lines", "std::str::Matches<", "std::str::Chars", "std::str::Bytes", "std::str::Split<"].iter().any(|b| r.starts_with(b)) { return Some(CallKind::Native(text_count)); }
                if r.starts_with("std::str::Chars") && matches!(m, "any" | "all" | "position" | "find") { return Some(CallKind::Native(chars_pred)); }
                let k = match m { "fold" => 2, "try_fold" => 3, "any" | "all" | "position" | "find" | "for_each" | "rposition" => 1, "find_map" => 2, "count" | "last" | "nth" | "nth_back" | "size_hint" | "advance_by" => 0, _ => return None };
                let mut args = vec![selft];
                args.extend(t[own - k..].iter().copied());
                return Some(model(x, &format!("m_iter_{}", m), args));
            }
        }
    }
    Some(match d {
        "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" if t.len() > 1 && matches!(ty_name(&t[1]).as_str(), "std::iter::Skip<std::str::Lines>" | "std::iter::Skip<std::str::Lines<'{erased}>>" | "std::str::Lines") => CallKind::Native(lines_collect),
        "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" => model(x, "m_vec_from_iter", t.clone()),
        "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend" => model(x, "m_vec_extend", vec![t[0], t[2]]),
        "<std::string::String as std::iter::FromIterator<std::string::String>>::from_iter" => model(x, "m_string_from_iter", vec![t[0]]),
        "<std::string::String as std::iter::FromIterator<&str>>::from_iter" => model(x, "m_str_from_iter", vec![t[0]]),
        "<std::string::String as std::iter::FromIterator<char>>::from_iter" => model(x, "m_char_from_iter", vec![t[0]]),
        "std::vec::Vec::<T, A>::extend_from_slice" => model(x, "m_vec_extend_slice", vec![t[0]]),
        "std::vec::Vec::<T, A>::resize" => model(x, "m_vec_resize", vec![t[0]]),
        "std::vec::Vec::<T, A>::retain" => model(x, "m_vec_retain", vec![t[0], *t.last().unwrap()]),
        "std::vec::Vec::<T, A>::dedup" => model(x, "m_vec_dedup", vec![t[0]]),
        "std::slice::<impl [T]>::sort" | "core::slice::<impl [T]>::sort_unstable" => model(x, "m_sort", vec![t[0]]),
        "std::slice::<impl [T]>::sort_by" | "core::slice::<impl [T]>::sort_unstable_by" => model(x, "m_sort_by", vec![t[0], t[1]]),
        "std::slice::<impl [T]>::sort_by_key" | "core::slice::<impl [T]>::sort_unstable_by_key" | "std::slice::<impl [T]>::sort_by_cached_key" => model(x, "m_sort_by_key", vec![t[0], t[1], t[2]]),
        "core::slice::<impl [T]>::starts_with" => model(x, "m_slice_starts", vec![t[0]]),
        "core::slice::<impl [T]>::ends_with" => model(x, "m_slice_ends", vec![t[0]]),
        "std::str::<impl str>::replacen" => CallKind::Native(replacen),
        "<bool as std::str::FromStr>::from_str" | "core::str::traits::<impl std::str::FromStr for bool>::from_str" => model(x, "m_parse_bool", vec![]),
        "core::slice::<impl [T]>::contains" => model(x, "m_slice_contains", t.clone()),
        "std::path::Path::file_name" => model(x, "m_path_file_name", vec![]),
        "std::path::Path::extension" => model(x, "m_path_extension", vec![]),
        "std::path::Path::file_stem" => model(x, "m_path_file_stem", vec![]),
        "std::path::Path::is_absolute" | "std::path::Path::has_root" => model(x, "m_path_is_absolute", vec![]),
        "std::path::Path::is_relative" => model(x, "m_path_is_relative", vec![]),
        _ if d.starts_with("std::vec::partial_eq::<impl std::cmp::PartialEq<") && d.ends_with("::eq") => model(x, "m_slice_eq", vec![t[0], t[1]]),
        _ if d.starts_with("std::vec::partial_eq::<impl std::cmp::PartialEq<") && d.ends_with("::ne") => model(x, "m_slice_ne", vec![t[0], t[1]]),
        _ if d.contains("slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq") => model(x, "m_slice_eq", vec![t[0], t[1]]),
        _ if d.contains("array::equality::<impl std::cmp::PartialEq<") && d.ends_with("::eq") => model(x, "m_slice_eq", vec![t[0], *t.get(1).unwrap_or(&t[0])]),
        "<std::vec::Vec<T, A> as std::clone::Clone>::clone" => model(x, "m_vec_clone", vec![t[0]]),
        "std::slice::<impl [T]>::to_vec" => model(x, "m_vec_clone", vec![t[0]]),
        "std::fmt::rt::Argument::new_debug" | "core::fmt::rt::Argument::new_debug" => model(x, "m_none", vec![]),
        _ => return None,
    })
}

fn replacen(x: &mut Ex, st: &mut State, i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let r = x.text(st, &a[0])?;
    let to = x.text(st, &a[2])?;
    let n = x.usize_const(st, &a[3])?;
    let sep = match pattern(x, st, &i.tys[0], &a[1])? { Pat::Set(c) => Sep::Set(c), Pat::Lit(l) if !l.is_empty() => Sep::Lit(l), _ => return unsup("replacen pattern") };
    let (mut out, mut rest) = (lit(""), r);
    for _ in 0..n.min(64) {
        match split_step(st, &rest, &sep, false)? { (p, None) => { return Ok(NR::V(Val::Str(concat(&[out, p])))); } (p, Some((q, _))) => { out = concat(&[out, p, to.clone()]); rest = q; } }
    }
    if n > 64 { return unsup("replacen: too many occurrences"); }
    Ok(NR::V(Val::Str(concat(&[out, rest]))))
}
/// tuple constructor used as a function: Some(variant) or None for a struct
fn ctor(info: &InstInfo) -> Option<Option<u32>> {
    let out = info.inst.ty().kind().fn_sig()?.skip_binder().output();
    let TyKind::RigidTy(RigidTy::Adt(a, _)) = out.kind() else { return None };
    let last = info.def.rsplit("::").next()?;
    if a.kind() == AdtKind::Enum { return a.variants().iter().position(|v| v.name() == last).map(|k| Some(k as u32)); }
    if a.kind() == AdtKind::Struct && a.name().to_string().rsplit("::").next() == Some(last) && !is_transparent(&out) { return Some(None); }
    None
}
fn call_ctor(_x: &mut Ex, _st: &mut State, info: &InstInfo, a: Vec<Val>) -> Res<NR> {
    Ok(NR::V(match ctor(info) { Some(Some(k)) => Val::Enum(k, Rc::new(a)), Some(None) => agg(a), None => return unsup("constructor") }))
}
/// FnOnce / FnMut / Fn on a function item or function pointer
fn call_fn_item(x: &mut Ex, st: &mut State, info: &InstInfo, mut args: Vec<Val>) -> Res<NR> {
    let a = match args.pop() { Some(Val::Agg(a)) => a.to_vec(), o => return unsup(format!("call arguments {:?}", o.map(|v| short(&v)))) };
    match info.tys[0].kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, g)) => { let id = x.prog.resolve(d, &g).map_err(Stop::Unsup)?; Ok(NR::Call(id, a)) }
        _ => match x.deref_all(st, &args[0])? { Val::FnPtr(i) => { let a = x.ptr_args(st, i, a); Ok(NR::Call(i, a)) } o => unsup(format!("call of {}", short(&o))) },
    }
}
// ---- helpers -----------------------------------------------------------------------------

fn bool_fork(x: &mut Ex, st: &State, t: T) -> Res<bool> { x.decide(st, t) }

pub fn closure_id(x: &mut Ex, ty: &Ty) -> Res<Option<u32>> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Closure(d, a)) => x.prog.resolve_closure(d, &a, ClosureKind::FnMut).map(Some).map_err(Stop::Unsup),
        TyKind::RigidTy(RigidTy::FnDef(d, a)) => x.prog.resolve(d, &a).map(Some).map_err(Stop::Unsup),
        _ => Ok(None),
    }
}
/// characters (within `cs`) on which the predicate holds
pub fn eval_pred(x: &mut Ex, st: &State, ty: &Ty, f: &Val, cs: CS) -> Res<CS> { eval_pred_ref(x, st, ty, f, cs, false) }
/// `by_ref`: the predicate takes a reference to the character
pub fn eval_pred_ref(x: &mut Ex, st: &State, ty: &Ty, f: &Val, cs: CS, by_ref: bool) -> Res<CS> { eval_pred_on(x, st, ty, f, cs, by_ref, false) }
/// on bytes, a predicate is a set of ASCII characters provided that no byte above is in it
pub fn eval_pred_on(x: &mut Ex, st: &State, ty: &Ty, f: &Val, cs: CS, by_ref: bool, bytes: bool) -> Res<CS> {
    let mut ty = *ty;
    let mut f = f.clone();
    while let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = ty.kind() { ty = t; f = x.deref(st, &f)?; }
    let Some(id) = closure_id(x, &ty)? else { return unsup(format!("predicate of type {}", ty_name(&ty))) };
    let is_closure = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Closure(..)));
    let key = (id, bytes as usize as _, format!("{:?}", deep(x, st, &f, 0)));
    let full = match x.pred_cache.get(&key) { Some(c) => *c, None => {
        let mut s = st.clone();
        s.stubs = Default::default();
        let cell = s.alloc(f.clone());
        let mut out = CS::NONE;
        let points: Vec<u32> = if bytes { (0..256).collect() } else { CS::ALL.reps().into_iter().map(|c| c as u32).collect() };
        for c in points {
            let mut a = Val::Int(T::c(c as u128, if bytes { 8 } else { 32 }));
            if by_ref { a = Val::Ref(s.alloc(a)); }
            let args = if is_closure { vec![Val::Ref(cell.clone()), agg(vec![a])] } else { vec![a] };
            let r = x.eval_call(&s, id, args)?;
            if r.len() != 1 { return unsup("predicate outcome"); }
            // a predicate with a memory is no set of characters
            if deep(x, &r[0], &f, 0) != deep(x, &s, &f, 0) { return unsup("predicate with side effects"); }
            match &r[0].result { Some(Val::Int(t)) => match t.kbool() { Some(true) if bytes && c > 127 => return unsup("predicate on the bytes of a character"), Some(true) => out = out.or(CS::one(char::from_u32(c).unwrap())), Some(false) => {}, None => return unsup("symbolic predicate") }, _ => return unsup("predicate result") }
        }
        x.pred_cache.insert(key, out);
        out
    } };
    Ok(full.and(cs))
}
/// value with references resolved, for use as a cache key
fn deep(x: &Ex, st: &State, v: &Val, d: u32) -> Val {
    if d > 6 { return v.clone(); }
    match v {
        Val::Ref(p) => match x.read(st, p) { Ok(v) => deep(x, st, &v, d + 1), Err(_) => v.clone() },
        Val::Agg(f) => Val::Agg(Rc::new(f.iter().map(|y| deep(x, st, y, d + 1)).collect())),
        Val::Enum(k, f) => Val::Enum(*k, Rc::new(f.iter().map(|y| deep(x, st, y, d + 1)).collect())),
        Val::Slice(..) => match x.elems(st, v) { Ok(e) => Val::Agg(Rc::new(e)), Err(_) => v.clone() },
        _ => v.clone(),
    }
}

pub enum Pat { Set(CS), Lit(Rc<str>), Rope(Rope) }
pub fn pattern(x: &mut Ex, st: &State, ty: &Ty, v: &Val) -> Res<Pat> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Char) => {
            let t = x.int(st, v)?;
            match t.konst() { Some(k) => char_set(char::from_u32(k as u32).unwrap()), None => unsup("symbolic character pattern") }
        }
        TyKind::RigidTy(RigidTy::Ref(_, u, _)) => match u.kind() {
            TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Adt(..)) => {
                let r = x.text(st, v)?;
                match rope_is_lit(&r) { Some(l) => { let mut it = l.chars(); match (it.next(), it.next()) { (Some(c), None) => char_set(c), _ => Ok(Pat::Lit(l)) } } None => Ok(Pat::Rope(r)) }
            }
            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Array(..)) => set_pattern(x, st, v),
            _ => { let w = x.deref(st, v)?; pattern(x, st, &u, &w) }
        },
        TyKind::RigidTy(RigidTy::Array(..)) => { let Val::Agg(f) = v else { return unsup("char array pattern") }; let f = f.clone(); chars_set(x, st, &f) }
        TyKind::RigidTy(RigidTy::Closure(..)) | TyKind::RigidTy(RigidTy::FnDef(..)) => Ok(Pat::Set(eval_pred(x, st, ty, v, CS::ALL)?)),
        _ => unsup(format!("pattern of type {}", ty_name(ty))),
    }
}
fn char_set(c: char) -> Res<Pat> {
    let s = CS::one(c);
    if s.single() == Some(c) { Ok(Pat::Set(s)) } else { Ok(Pat::Lit(c.to_string().into())) }
}
fn set_pattern(x: &mut Ex, st: &State, v: &Val) -> Res<Pat> { let e = x.elems(st, v)?; chars_set(x, st, &e) }
fn chars_set(x: &mut Ex, st: &State, e: &[Val]) -> Res<Pat> {
    let mut s = CS::NONE;
    for c in e {
        let t = x.int(st, c)?;
        let Some(k) = t.konst() else { return unsup("symbolic character set") };
        let c = char::from_u32(k as u32).unwrap();
        if CS::one(c).single() != Some(c) { return unsup("non-ASCII character set"); }
        s = s.or(CS::one(c));
    }
    Ok(Pat::Set(s))
}
/// assume facts about lengths of a non-empty rope so that later comparisons with 0 are decided
pub fn len_term(x: &mut Ex, st: &mut State, r: &Rope) -> Res<T> {
    if st.ss.is_empty(r)? { return Ok(T::c(0, 64)); }
    let t = st.ss.len(r);
    Ok(t)
}
fn err_unit() -> Val { unit() }

/// parse an integer from text
pub fn parse_int_native(_x: &mut Ex, st: &mut State, r: &Rope, w: u16, sg: bool) -> Res<Val> {
    let r = st.ss.norm(r);
    let bad = |r: &Rope| err(Val::IntErr(r.clone(), w, sg));
    if let Some(l) = rope_is_lit(&r) {
        return Ok(match parse_int(&l, w, sg) { Ok(k) => ok(Val::Int(T::c(k, w))), Err(_) => bad(&r) });
    }
    if r.len() == 1 {
        if let Seg::IntS(t, s2) = &r[0] {
            let (t, s2) = (*t, *s2);
            if t.w() == w && s2 == sg { return Ok(ok(Val::Int(t))); }
            let n = t.w().max(w) + 2;
            let wide = if s2 { t.sext(n) } else { t.zext(n) };
            let (lo, hi) = if sg { ((T::c(1, n).bin(Op::Shl, T::c(w as u128 - 1, n))).neg(), T::c((1u128 << (w - 1)) - 1, n)) } else { (T::c(0, n), T::c(mask(w), n)) };
            let c = lo.bin(Op::Sle, wide).band(wide.bin(Op::Sle, hi));
            let fits = if let Some(b) = c.kbool() { b } else {
                // decided conjunct by conjunct
                let a = lo.bin(Op::Sle, wide); let b = wide.bin(Op::Sle, hi);
                if !decide_t(st, a)? { false } else { decide_t(st, b)? }
            };
            let v = if t.w() > w { t.trunc(w) } else if s2 { t.sext(w) } else { t.zext(w) };
            return Ok(if fits { ok(Val::Int(v)) } else { bad(&r) });
        }
    }
    for f in st.ss.facts.iter() {
        if let Fact::Int(q, fw, fs, v) = f {
            if *fw == w && *fs == sg && st.ss.norm(q) == r { return Ok(match v { Some(t) => ok(Val::Int(*t)), None => bad(&r) }); }
        }
    }
    // certain failure
    if r.iter().any(|s| match s { Seg::Lit(l) => !CS::of(l).sub(CS::intchars()), Seg::Ch(_) => st.ss.seg_cs(s).disjoint(CS::intchars()), Seg::DecS(_) => false, s => st.ss.seg_nonempty(s) && st.ss.seg_cs(s).disjoint(CS::intchars()) }) { return Ok(bad(&r)); }
    if st.ss.rope_cs(&r).disjoint(CS::digits()) { return Ok(bad(&r)); }
    let v = T::var(w);
    let mut yes = vec![];
    for s in r.iter() { match s { Seg::Sym(i) => yes.push(Upd::Narrow(*i, CS::intchars())), Seg::Ch(t) => yes.push(Upd::NarrowCh(*t, CS::intchars())), _ => {} } }
    yes.push(Upd::Fact(Fact::NonEmpty(r.clone())));
    if r.len() == 1 { if let Seg::Sym(i) = r[0] { yes.push(Upd::Last(i, CS::digits())); yes.push(Upd::First(i, if sg { CS::intchars() } else { CS::digits().or(CS::one('+')) })); } }
    if !sg { for u in yes.iter_mut() { if let Upd::Narrow(_, c) = u { *c = c.minus(CS::one('-')); } } }
    yes.push(Upd::Fact(Fact::Int(r.clone(), w, sg, Some(v))));
    // what is known of the same text as a number of another width or signedness
    let others: Vec<(u16, bool, Option<T>)> = st.ss.facts.iter().filter_map(|f| match f { Fact::Int(q, fw, fs, x) if (*fw, *fs) != (w, sg) && st.ss.norm(q) == r => Some((*fw, *fs, *x)), _ => None }).collect();
    for (fw, fs, x) in others {
        let n = fw.max(w) + 2;
        let wide = |t: T, s: bool| if s { t.sext(n) } else { t.zext(n) };
        let range = |t: T, tw: u16, ts: bool| { let (lo, hi) = if ts { ((T::c(1, n).bin(Op::Shl, T::c(tw as u128 - 1, n))).neg(), T::c((1u128 << (tw - 1)) - 1, n)) } else { (T::c(0, n), T::c(mask(tw), n)) }; lo.bin(Op::Sle, t).band(t.bin(Op::Sle, hi)) };
        match x {
            Some(x) => {
                let xw = wide(x, fs);
                let same = wide(v, sg).bin(Op::Eq, xw);
                if fs && !sg {
                    // an unsigned number carries no sign: "-0" is one of the signed only
                    if !decide_t(st, T::c(0, n).bin(Op::Sle, xw))? { return Ok(bad(&r)); }
                    if !decide_t(st, range(xw, w, sg))? { return Ok(bad(&r)); }
                    if decide_t(st, xw.bin(Op::Eq, T::c(0, n)))? { yes.push(Upd::Assume(same)); continue; }
                    yes.push(Upd::Assume(same));
                    return Err(Stop::Fork(vec![yes]));
                }
                if !decide_t(st, range(xw, w, sg))? { return Ok(bad(&r)); }
                yes.push(Upd::Assume(same));
                return Err(Stop::Fork(vec![yes]));
            }
            None => {
                let vw = wide(v, sg);
                if fs == sg && fw >= w || fs && !sg && fw > w { return Ok(bad(&r)); }
                // no number of that type: out of its range, or zero behind a minus sign
                let out = range(vw, fw, fs).bnot();
                yes.push(Upd::Assume(if sg && !fs { out.bor(vw.bin(Op::Eq, T::c(0, n))) } else { out }));
            }
        }
    }
    if sg && !st.ss.rope_cs(&r).has('-') { yes.push(Upd::Assume(T::c(0, w).bin(Op::Sle, v))); }
    Err(Stop::Fork(vec![vec![Upd::Fact(Fact::Int(r.clone(), w, sg, None))], yes]))
}
/// which kind of parse error it is
fn int_err_kind(st: &mut State, r: &Rope, w: u16, sg: bool) -> Res<u32> {
    let r = st.ss.norm(r);
    if let Some(l) = rope_is_lit(&r) { return match parse_int(&l, w, sg) { Err(k) => Ok(k), Ok(_) => Ok(4) }; }
    for f in st.ss.facts.iter() { if let Fact::IntKind(q, fw, fs, k) = f { if *fw == w && *fs == sg && st.ss.norm(q) == r { return Ok(*k); } } }
    if st.ss.is_empty(&r)? { return Ok(0); }
    if st.ss.rope_cs(&r).disjoint(CS::digits()) || r.iter().any(|s| match s { Seg::Lit(l) => !CS::of(l).sub(CS::intchars()), Seg::Ch(_) => st.ss.seg_cs(s).disjoint(CS::intchars()), s => st.ss.seg_nonempty(s) && st.ss.seg_cs(s).disjoint(CS::intchars()) }) { return Ok(1); }
    let mut ks = vec![1, 2];
    if sg { ks.push(3); }
    Err(Stop::Fork(ks.into_iter().map(|k| vec![Upd::Fact(Fact::IntKind(r.clone(), w, sg, k))]).collect()))
}
fn decide_t(st: &State, t: T) -> Res<bool> {
    if let Some(b) = t.kbool() { return Ok(b); }
    if st.ss.pc.contains(&t) { return Ok(true); }
    if st.ss.pc.contains(&t.bnot()) { return Ok(false); }
    if let Node::Bin(Op::BAnd, a, b) = t.node() { return Ok(decide_t(st, a)? && decide_t(st, b)?); }
    Err(Stop::Fork(vec![vec![Upd::Assume(t)], vec![Upd::Assume(t.bnot())]]))
}
pub const DECMAX: i128 = 79228162514264337593543950335;
pub fn dec_range(t: T) -> T { T::real(-DECMAX, 0).bin(Op::RLe, t).band(t.bin(Op::RLe, T::real(DECMAX, 0))) }

pub fn parse_dec_native(_x: &mut Ex, st: &mut State, r: &Rope) -> Res<Option<T>> {
    let r = st.ss.norm(r);
    if let Some(l) = rope_is_lit(&r) { return Ok(parse_dec(&l).map(|(m, s)| T::real(m, s))); }
    if r.len() == 1 {
        match &r[0] { Seg::DecS(t) => return Ok(Some(*t)), Seg::IntS(t, s) => return Ok(Some(if *s { t.s2r() } else { t.u2r() })), _ => {} }
    }
    for f in st.ss.facts.iter() { if let Fact::Dec(q, v) = f { if st.ss.norm(q) == r { return Ok(*v); } } }
    if r.iter().any(|s| match s { Seg::Lit(l) => !CS::of(l).sub(CS::decchars()), Seg::Ch(_) => st.ss.seg_cs(s).disjoint(CS::decchars()), s => st.ss.seg_nonempty(s) && st.ss.seg_cs(s).disjoint(CS::decchars()) }) { return Ok(None); }
    if st.ss.rope_cs(&r).disjoint(CS::digits()) { return Ok(None); }
    let v = T::var(REAL);
    let mut yes = vec![];
    for s in r.iter() { match s { Seg::Sym(i) => yes.push(Upd::Narrow(*i, CS::decchars())), Seg::Ch(t) => yes.push(Upd::NarrowCh(*t, CS::decchars())), _ => {} } }
    yes.push(Upd::Fact(Fact::NonEmpty(r.clone())));
    yes.push(Upd::Assume(dec_range(v)));
    yes.push(Upd::Fact(Fact::Dec(r.clone(), Some(v))));
    // a text that parses as an i32 parses as a decimal too
    let no = vec![Upd::Fact(Fact::Dec(r.clone(), None))];
    Err(Stop::Fork(vec![no, yes]))
}

fn int_of(t: &Ty) -> (u16, bool) { int_info(t).unwrap_or((32, true)) }
fn int_rope(t: T, sg: bool) -> Rope { Rc::new(vec![Seg::IntS(t, sg)]) }

fn fmt_out(x: &mut Ex, st: &mut State, f: &Val, r: Rope) -> Res<NR> {
    let p = match f { Val::Ref(p) => p.clone(), Val::Dyn(v, _) => match &**v { Val::Ref(p) => p.clone(), _ => return unsup("formatter") }, o => return unsup(format!("formatter {}", short(o))) };
    let r = st.ss.norm(&r);
    x.append(st, &p, &r)?;
    Ok(NR::V(ok(unit())))
}

fn decode_template(b: &[u8], args: &[Val]) -> Res<Vec<Piece>> {
    let mut out = vec![];
    let mut i = 0;
    let mut next = 0usize;
    let u16le = |i: usize| b[i] as usize | (b[i + 1] as usize) << 8;
    loop {
        if i >= b.len() { break; }
        let n = b[i];
        i += 1;
        if n == 0 { break; }
        let lit = |k: usize, i: usize| -> Res<Piece> { Ok(Piece::Lit(std::str::from_utf8(&b[i..i + k]).map_err(|_| Stop::Unsup("template".into()))?.into())) };
        if n < 0x80 { out.push(lit(n as usize, i)?); i += n as usize; }
        else if n == 0x80 { let k = u16le(i); i += 2; out.push(lit(k, i)?); i += k; }
        else {
            let mut o = FmtOpts::default();
            let mut idx = next;
            if n & 1 != 0 { o.special = true; i += 4; }
            if n & 2 != 0 { o.special = true; i += 2; }
            if n & 4 != 0 { o.special = true; i += 2; }
            if n & 8 != 0 { idx = u16le(i); i += 2; }
            next = idx + 1;
            match args.get(idx) { Some(Val::FmtArg(v, f)) => out.push(Piece::Arg((**v).clone(), *f, o)), _ => return unsup("format argument") }
        }
    }
    Ok(out)
}

/// byte offset of the second text inside the first
fn offset(st: &State, a: &Rope, b: &Rope) -> Res<T> {
    let (a, b) = (st.ss.norm(a), st.ss.norm(b));
    if b.is_empty() { return Ok(st.ss.len(&a)); }
    let k = b.len();
    if a.len() >= k && a[a.len() - k + 1..] == b[1..] {
        let first = &a[a.len() - k];
        if *first == b[0] { return Ok(st.ss.len(&rope_of(&a[..a.len() - k]))); }
        if let (Seg::Lit(x), Seg::Lit(y)) = (first, &b[0]) {
            if x.ends_with(&**y) { let mut v = a[..a.len() - k].to_vec(); v.push(Seg::Lit(x[..x.len() - y.len()].into())); return Ok(st.ss.len(&rope_of(&v))); }
        }
    }
    unsup("offset of unrelated texts")
}
fn str_slice(st: &mut State, r: &Rope, lo: Option<T>, hi: Option<T>) -> Res<Rope> {
    let mut r = st.ss.norm(r);
    if let Some(h) = hi {
        match st.ss.split_at(&r, h)? { Some((a, _)) => r = a, None => return Err(Stop::Panic("text sliced at a bad byte index".into())) }
    }
    if let Some(l) = lo {
        match st.ss.split_at(&r, l)? { Some((_, b)) => r = b, None => return Err(Stop::Panic("text sliced at a bad byte index".into())) }
    }
    Ok(r)
}
fn range_of(x: &mut Ex, st: &State, ty: &str, v: &Val) -> Res<(Option<T>, Option<T>)> {
    let g = |x: &mut Ex, i: u32| -> Res<T> { let f = field(v, i)?; x.int(st, &f) };
    if ty.contains("RangeFull") { return Ok((None, None)); }
    if ty.contains("RangeFrom<") { return Ok((Some(g(x, 0)?), None)); }
    if ty.contains("RangeToInclusive<") { let h = g(x, 0)?; return Ok((None, Some(h.bin(Op::Add, T::c(1, 64))))); }
    if ty.contains("RangeTo<") { return Ok((None, Some(g(x, 0)?))); }
    if ty.contains("RangeInclusive<") { let h = g(x, 1)?; return Ok((Some(g(x, 0)?), Some(h.bin(Op::Add, T::c(1, 64))))); }
    if ty.contains("Range<") { return Ok((Some(g(x, 0)?), Some(g(x, 1)?))); }
    unsup(format!("range {}", ty))
}
fn split_next(st: &mut State, rest: &Rope, sep: CS) -> Res<(Rope, Option<Rope>)> {
    let (a, b) = st.ss.take_while(rest, sep.inv())?;
    match st.ss.uncons(&b)? { None => Ok((a, None)), Some((_, r)) => Ok((a, Some(r))) }
}

/// first (or last) piece, and what is left after the separator together with the separator
/// the text in front of `l` if `r` visibly ends with it
fn rope_minus(r: &Rope, l: &Rope) -> Option<Rope> {
    let (mut r, mut l): (Vec<Seg>, Vec<Seg>) = (r.to_vec(), l.to_vec());
    while let Some(y) = l.pop() {
        match (r.pop()?, y) {
            (Seg::Lit(a), Seg::Lit(b)) => {
                if let Some(p) = a.strip_suffix(&*b) { if !p.is_empty() { r.push(Seg::Lit(p.into())); } }
                else if let Some(p) = b.strip_suffix(&*a) { l.push(Seg::Lit(p.into())); }
                else { return None; }
            }
            (a, b) => if a != b { return None; },
        }
    }
    Some(Rc::new(r))
}
fn split_step(st: &mut State, r: &Rope, sep: &Sep, back: bool) -> Res<(Rope, Option<(Rope, Rope)>)> {
    if back {
        let Sep::Set(c) = sep else { return unsup("split from the end by a text") };
        let (before, tail) = st.ss.rtake_while(r, c.inv())?;
        return Ok(match st.ss.uncons_back(&before)? { None => (tail, None), Some((p, ch)) => (tail, Some((p, Rc::new(vec![Seg::Ch(ch)])))) });
    }
    match sep {
        Sep::Set(c) => {
            let (a, b) = st.ss.take_while(r, c.inv())?;
            Ok(match st.ss.uncons(&b)? { None => (a, None), Some((ch, rest)) => { let s = st.ss.norm(&Rc::new(vec![Seg::Ch(ch)])); (a, Some((rest, s))) } })
        }
        Sep::Lit(l) => match st.ss.find(r, l)? { None => Ok((st.ss.norm(r), None)), Some((a, b)) => match st.ss.strip_prefix(&b, l)? { Some(rest) => Ok((a, Some((rest, lit(l))))), None => unsup("split") } },
    }
}
pub fn iter_next(x: &mut Ex, st: &mut State, p: &Ptr) -> Res<Val> {
    let Val::It(it) = x.read(st, p)? else { return unsup("iterator state") };
    let (v, it2) = match &*it {
        It::Slice(q, o, n) => if *n == 0 { (None, None) } else { (Some(Val::Ref(q.field(*o as u32))), Some(It::Slice(q.clone(), o + 1, n - 1))) },
        It::VecInto(f, i, n) => if i >= n { (None, None) } else { (Some(f[*i].clone()), Some(It::VecInto(f.clone(), i + 1, *n))) },
        It::Lines(r) => {
            let mut r = st.ss.norm(r);
            while let Some(rest) = crate::cut::lines_block(x, st, p, &r)? { r = st.ss.norm(&rest); }
            if st.ss.is_empty(&r)? { (None, None) } else {
                let (a, b) = st.ss.take_while(&r, CS::one('\n').inv())?;
                if st.ss.is_empty(&b)? { (Some(Val::Str(a)), Some(It::Lines(lit("")))) }
                else {
                    let rest = match st.ss.uncons(&b)? { Some((_, r)) => r, None => return unsup("lines") };
                    let a = match st.ss.strip_suffix(&a, "\r")? { Some(s) => s, None => a };
                    (Some(Val::Str(a)), Some(It::Lines(rest)))
                }
            }
        }
        It::Chars(r) => match st.ss.uncons(r)? { None => (None, None), Some((c, rest)) => (Some(Val::Int(c)), Some(It::Chars(rest))) },
        It::Bytes(r) => {
            if st.ss.rope_cs(&st.ss.norm(r)).and(CS::ASCII.inv()).is_none() { match st.ss.uncons(r)? { None => (None, None), Some((c, rest)) => (Some(Val::Int(c.trunc(8))), Some(It::Bytes(rest))) } }
            else { return unsup("the bytes of a text"); }
        }
        It::CharIdx(r, off) => match st.ss.uncons(r)? {
            None => (None, None),
            Some((c, rest)) => {
                let l = st.ss.len(&Rc::new(vec![Seg::Ch(c)]));
                let no = st.ss.term(*off).bin(Op::Add, l);
                (Some(agg(vec![Val::Int(*off), Val::Int(c)])), Some(It::CharIdx(rest, no)))
            }
        },
        It::Split(r, sep, fin) => if *fin { (None, None) } else {
            match split_next(st, r, *sep)? { (a, None) => (Some(Val::Str(a)), Some(It::Split(lit(""), *sep, true))), (a, Some(b)) => (Some(Val::Str(a)), Some(It::Split(b, *sep, false))) }
        },
        It::SplitLit(r, sep, fin) => if *fin { (None, None) } else {
            match st.ss.find(r, sep)? { None => { let r = st.ss.norm(r); (Some(Val::Str(r)), Some(It::SplitLit(lit(""), sep.clone(), true))) } Some((a, b)) => { let rest = match st.ss.strip_prefix(&b, sep)? { Some(r) => r, None => return unsup("split") }; (Some(Val::Str(a)), Some(It::SplitLit(rest, sep.clone(), false))) } }
        },
        It::Matches(r, pat) => match st.ss.find(r, pat)? { None => (None, None), Some((_, b)) => { let rest = match st.ss.strip_prefix(&b, pat)? { Some(r) => r, None => return unsup("matches") }; (Some(Val::Str(lit(pat))), Some(It::Matches(rest, pat.clone()))) } },
        It::SplitX(r, sep, n, k) => if *n == 0 { (None, None) } else if *n == 1 { (Some(Val::Str(st.ss.norm(r))), Some(It::SplitX(lit(""), sep.clone(), 0, *k))) } else {
            if matches!(k, SplitKind::Term | SplitKind::Incl) && st.ss.is_empty(r)? { (None, None) } else {
                match split_step(st, r, sep, *k == SplitKind::Back)? {
                    (p, None) => (Some(Val::Str(p)), Some(It::SplitX(lit(""), sep.clone(), 0, *k))),
                    (p, Some((rest, sp))) => (Some(Val::Str(if *k == SplitKind::Incl { concat(&[p, sp]) } else { p })), Some(It::SplitX(rest, sep.clone(), if *n == usize::MAX { *n } else { n - 1 }, *k))),
                }
            }
        },
        It::SplitWs(r) => { let (_, b) = st.ss.take_while(r, CS::ws())?; if st.ss.is_empty(&b)? { (None, Some(It::SplitWs(lit("")))) } else { let (w, rest) = st.ss.take_while(&b, CS::ws().inv())?; (Some(Val::Str(w)), Some(It::SplitWs(rest))) } }
        It::Windows(q, o, n, k) => if n < k { (None, None) } else { (Some(Val::Slice(q.clone(), *o, *k)), Some(It::Windows(q.clone(), o + 1, n - 1, *k))) },
        It::ConstIdx(..) => return unsup("iterator"),
        It::Chunks(q, o, n, k, exact) => if *n == 0 || (*exact && n < k) { (None, None) } else { let m = (*k).min(*n); (Some(Val::Slice(q.clone(), *o, m)), Some(It::Chunks(q.clone(), o + m, n - m, *k, *exact))) },
    };
    if let Some(i) = it2 { x.write(st, p, Val::It(Rc::new(i)))?; }
    Ok(match v { Some(v) => some(v), None => none() })
}
pub fn iter_next_back(x: &mut Ex, st: &mut State, p: &Ptr) -> Res<Val> {
    let Val::It(it) = x.read(st, p)? else { return unsup("iterator state") };
    let (v, it2) = match &*it {
        It::Slice(q, o, n) => if *n == 0 { (None, None) } else { (Some(Val::Ref(q.field((*o + *n - 1) as u32))), Some(It::Slice(q.clone(), *o, n - 1))) },
        It::VecInto(f, i, n) => if i >= n { (None, None) } else { (Some(f[*n - 1].clone()), Some(It::VecInto(f.clone(), *i, n - 1))) },
        It::Chars(r) => match st.ss.uncons_back(r)? { None => (None, None), Some((rest, c)) => (Some(Val::Int(c)), Some(It::Chars(rest))) },
        It::Split(r, sep, fin) => if *fin { (None, None) } else {
            match split_step(st, r, &Sep::Set(*sep), true)? { (t, None) => (Some(Val::Str(t)), Some(It::Split(lit(""), *sep, true))), (t, Some((p, _))) => (Some(Val::Str(t)), Some(It::Split(p, *sep, false))) }
        },
        It::Lines(r) => {
            let r = st.ss.norm(r);
            if st.ss.is_empty(&r)? { (None, None) } else {
                let body = match st.ss.strip_suffix(&r, "\n")? { Some(b) => b, None => r.clone() };
                let nl = st.ss.len(&body).teq(st.ss.len(&r)).kbool() != Some(true) && body != r;
                let (before, tail) = st.ss.rtake_while(&body, CS::one('\n').inv())?;
                let tail = if nl { match st.ss.strip_suffix(&tail, "\r")? { Some(s) => s, None => tail } } else { tail };
                (Some(Val::Str(tail)), Some(It::Lines(before)))
            }
        }
        _ => return unsup("next_back"),
    };
    if let Some(i) = it2 { x.write(st, p, Val::It(Rc::new(i)))?; }
    Ok(match v { Some(v) => some(v), None => none() })
}
/// the remaining lines of a text, collected; kept as one piece while no carriage return can occur in it
fn lines_collect(x: &mut Ex, st: &mut State, _i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let (it0, n) = match x.deref(st, &a[0])? { Val::Agg(f) if f.len() == 2 => { let n = x.usize_const(st, &f[1])?; (f[0].clone(), n) } v => (v, 0) };
    let p = st.alloc(it0);
    for _ in 0..n { if let Val::Enum(0, _) = iter_next(x, st, &p)? { break; } }
    let Val::It(i) = x.read(st, &p)? else { return unsup("lines") };
    let It::Lines(r) = &*i else { return unsup("lines") };
    let r = st.ss.norm(r);
    if !st.ss.rope_cs(&r).has('\r') && rope_is_lit(&r).is_none() { return Ok(NR::V(Val::LinesVec(r))); }
    let mut out = vec![];
    while let Val::Enum(1, f) = iter_next(x, st, &p)? { out.push(f[0].clone()); if out.len() > 200 { return unsup("lines: too many"); } }
    Ok(NR::V(Val::Vec(Rc::new(out))))
}
/// how many lines, occurrences or characters a text has
fn text_count(x: &mut Ex, st: &mut State, i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let v = x.deref(st, &a[0])?;
    let Val::It(it0) = v else { return unsup("iterator state") };
    let t = match &*it0 {
        It::Lines(r) => {
            if st.ss.is_empty(r)? { return Ok(NR::V(vusize(0))); }
            let k = if st.ss.strip_suffix(r, "\n")?.is_some() { 0 } else { 1 };
            st.ss.newlines(r).bin(Op::Add, T::c(k, 64))
        }
        It::Matches(r, p) if &**p == "\n" => st.ss.newlines(r),
        It::Matches(r, p) => {
            let (mut n, mut rest) = (0, r.clone());
            while let Some((_, b)) = st.ss.find(&rest, p)? { n += 1; if n > 64 { return unsup("count: too many occurrences"); } rest = st.ss.strip_prefix(&b, p)?.ok_or(Stop::Unsup("count".into()))?; }
            T::c(n, 64)
        }
        It::Chars(r) | It::CharIdx(r, _) => st.ss.chars_len(r),
        It::Bytes(r) => st.ss.len(r),
        It::Split(r, cs, false) if cs.single() == Some('\n') => st.ss.newlines(r).bin(Op::Add, T::c(1, 64)),
        It::SplitLit(r, p, false) if &**p == "\n" => st.ss.newlines(r).bin(Op::Add, T::c(1, 64)),
        It::Split(..) | It::SplitLit(..) | It::SplitX(..) => {
            let Some(sig) = i.inst.ty().kind().fn_sig().map(|s| s.skip_binder()) else { return unsup("signature") };
            let id = model_id(x, "m_iter_count", vec![sig.inputs()[0]])?;
            return Ok(NR::Call(id, a));
        }
        _ => return unsup("count"),
    };
    Ok(NR::V(Val::Int(t)))
}
/// how many characters (or bytes) of a text satisfy a predicate: a sum over the pieces of the text
fn filter_count(x: &mut Ex, st: &mut State, i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let Some(sig) = i.inst.ty().kind().fn_sig().map(|s| s.skip_binder()) else { return unsup("signature") };
    let TyKind::RigidTy(RigidTy::Adt(_, g)) = sig.inputs()[0].kind() else { return unsup("filter") };
    let Some(ty) = g.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).nth(1) else { return unsup("filter") };
    let Val::Agg(f) = x.deref(st, &a[0])? else { return unsup("filter") };
    let [Val::It(it0), pred] = &f[..] else { return unsup("filter state") };
    let (r, bytes) = match &**it0 { It::Chars(r) => (r, false), It::Bytes(r) => (r, true), _ => return unsup("filter state") };
    let cs = eval_pred_on(x, st, &ty, pred, CS::ALL, true, bytes)?;
    let mut n = T::c(0, 64);
    for s in st.ss.norm(r).iter() {
        let all = st.ss.seg_cs(s);
        let hit = all.and(cs);
        let one: Rope = Rc::new(vec![s.clone()]);
        n = n.bin(Op::Add, match s {
            _ if hit.is_none() => continue,
            Seg::Lit(l) => T::c(l.chars().filter(|c| cs.has(*c)).count() as u128, 64),
            _ if all.and(cs.inv()).is_none() => st.ss.chars_len(&one),
            _ if hit.single() == Some('\n') => st.ss.newlines(&one),
            _ => return unsup("number of characters of a kind in a symbolic text"),
        });
    }
    Ok(NR::V(Val::Int(n)))
}
/// the length of the run of characters at the start of a text that satisfy a predicate
fn take_while_count(x: &mut Ex, st: &mut State, i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let TyKind::RigidTy(RigidTy::Adt(_, g)) = i.tys[0].kind() else { return unsup("take_while") };
    let Some(ty) = g.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).nth(1) else { return unsup("take_while") };
    let Val::Agg(f) = x.deref(st, &a[0])? else { return unsup("take_while") };
    let [Val::It(it0), Val::Int(done), pred] = &f[..] else { return unsup("take_while state") };
    let It::Chars(r) = &**it0 else { return unsup("take_while state") };
    if done.kbool() != Some(false) { return unsup("take_while state"); }
    let cs = eval_pred_ref(x, st, &ty, pred, CS::ALL, true)?;
    let (pre, _) = st.ss.take_while(r, cs)?;
    Ok(NR::V(Val::Int(st.ss.chars_len(&pre))))
}
/// `any`, `all`, `position` and `find` over the characters of a text: decided on character classes
fn chars_pred(x: &mut Ex, st: &mut State, i: &InstInfo, a: Vec<Val>) -> Res<NR> {
    let p = ptr(&a[0])?;
    let Val::It(it0) = x.read(st, &p)? else { return unsup("iterator state") };
    let It::Chars(r) = &*it0 else { return unsup("characters") };
    let m = i.def.rsplit("::").next().unwrap().to_string();
    let by_ref = m == "find";
    let ty = *i.tys.last().unwrap();
    let cs = match eval_pred_ref(x, st, &ty, &a[1], CS::ALL, by_ref) { Ok(c) => c, Err(Stop::Unsup(_)) => return chars_slow(x, i, a, &m), Err(e) => return Err(e) };
    let stop = if m == "all" { cs.inv() } else { cs };
    let (pre, post) = st.ss.take_while(r, stop.inv())?;
    let u = st.ss.uncons(&post)?;
    let v = match (&u, m.as_str()) {
        (None, "all") => vbool(true),
        (None, "any") => vbool(false),
        (None, _) => none(),
        (Some(_), "all") => vbool(false),
        (Some(_), "any") => vbool(true),
        (Some(_), "position") => some(Val::Int(st.ss.chars_len(&pre))),
        (Some((c, _)), _) => some(Val::Int(*c)),
    };
    x.write(st, &p, it(It::Chars(match u { Some((_, r)) => r, None => lit("") })))?;
    Ok(NR::V(v))
}
fn chars_slow(x: &mut Ex, i: &InstInfo, a: Vec<Val>, m: &str) -> Res<NR> {
    let Some(sig) = i.inst.ty().kind().fn_sig().map(|s| s.skip_binder()) else { return unsup("signature") };
    let mut selft = sig.inputs()[0];
    if let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = selft.kind() { selft = u; }
    let id = model_id(x, &format!("m_iter_{}", m), vec![selft, *i.tys.last().unwrap()])?;
    Ok(NR::Call(id, a))
}
fn ptr(v: &Val) -> Res<Ptr> { match v { Val::Ref(p) => Ok(p.clone()), o => unsup(format!("pointer expected, got {}", short(o))) } }
fn it(i: It) -> Val { Val::It(Rc::new(i)) }

fn case_map(st: &mut State, r: &Rope, lower: bool, ascii: bool) -> Res<Rope> {
    let r = st.ss.norm(r);
    if let Some(l) = rope_is_lit(&r) { return Ok(lit(&match (lower, ascii) { (true, false) => l.to_lowercase(), (true, true) => l.to_ascii_lowercase(), (false, false) => l.to_uppercase(), (false, true) => l.to_ascii_uppercase() })); }
    let cs = st.ss.rope_cs(&r);
    let moved = cs.filter(|c| if lower { c.is_uppercase() } else { c.is_lowercase() });
    if moved.is_none() { return Ok(r); }
    unsup("letter case of a symbolic text")
}

fn dec(x: &Ex, st: &State, v: &Val) -> Res<T> { match x.deref_all(st, v)? { Val::Dec(t) => Ok(t), Val::Int(t) => Ok(t.s2r()), o => unsup(format!("decimal expected, got {}", short(&o))) } }
/// obligations of a decimal operation: the exact result is representable
fn dec_result(x: &mut Ex, st: &mut State, t: T, op: &str) -> Res<Val> {
    if let Node::R(m, s) = t.node() { if rust_decimal::Decimal::try_from_i128_with_scale(m, s.min(28)).is_ok() { return Ok(Val::Dec(t)); } }
    let c = dec_range(t);
    let label = format!("no panic: decimal {} overflow in {}", op, x.where_(st));
    x.ensure(st, &label, c)?;
    Ok(Val::Dec(t))
}

fn is_ref_str(t: &Ty) -> bool { ty_name(t) == "&str" }

pub fn lookup(info: &InstInfo) -> Option<NativeFn> {
    let d = info.def.as_str();
    let n = info.name.as_str();
    macro_rules! nat { (|$x:ident, $st:ident, $i:ident, $a:ident| $b:expr) => {{ fn f($x: &mut Ex, $st: &mut State, $i: &InstInfo, $a: Vec<Val>) -> Res<NR> { let _ = (&$x, &$st, &$i, &$a); $b } f as NativeFn }} }
    macro_rules! val { (|$x:ident, $st:ident, $i:ident, $a:ident| $b:expr) => { nat!(|$x, $st, $i, $a| Ok(NR::V($b))) } }
    macro_rules! ident { () => { val!(|x, st, i, a| a[0].clone()) } }

    // ---- formatting ----
    if d.ends_with("Argument::new_display") { return Some(nat!(|x, st, i, a| { let f = model_id(x, "m_display", vec![i.tys[0]])?; Ok(NR::V(Val::FmtArg(Rc::new(a[0].clone()), f))) })); }
    if d == "std::fmt::Arguments::new" || d == "core::fmt::rt::<impl std::fmt::Arguments>::new" || (d.contains("fmt::") && d.contains("Arguments") && d.ends_with("::new")) {
        return Some(nat!(|x, st, i, a| {
            let t = x.deref(st, &a[0])?;
            let Val::Agg(b) = t else { return unsup("format template") };
            let b: Vec<u8> = b.iter().map(|v| match v { Val::Int(t) => t.konst().unwrap_or(0) as u8, _ => 0 }).collect();
            let args = x.elems(st, &a[1])?;
            Ok(NR::V(Val::FmtArgs(Rc::new(decode_template(&b, &args)?))))
        }));
    }
    if d.contains("Arguments") && (d.ends_with("::from_str") || d.ends_with("::from_str_nonconst") || d.ends_with("::new_const")) { return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; match rope_is_lit(&r) { Some(l) => Ok(NR::V(Val::FmtArgs(Rc::new(vec![Piece::Lit(l)])))), None => unsup("format string") } })); }
    match d {
        "std::fmt::format" | "alloc::fmt::format" => return Some(nat!(|x, st, i, a| match &a[0] { Val::FmtArgs(p) => { let buf = st.alloc(vstr("")); Ok(NR::Fmt { pieces: p.clone(), buf, ret: FmtRet::Str }) } o => unsup(format!("format {}", short(o))) })),
        "std::fmt::Formatter::write_fmt" | "std::fmt::Write::write_fmt" | "<std::string::String as std::fmt::Write>::write_fmt" | "<std::fmt::Formatter as std::fmt::Write>::write_fmt" | "std::fmt::write" =>
            return Some(nat!(|x, st, i, a| match &a[1] { Val::FmtArgs(p) => { let mut b = a[0].clone(); loop { match &b { Val::Dyn(v, _) => b = (**v).clone(), Val::Ref(p) => { match x.read(st, p)? { Val::Ref(q) => b = Val::Ref(q), _ => break } } _ => break } } Ok(NR::Fmt { pieces: p.clone(), buf: ptr(&b)?, ret: FmtRet::Ok }) } o => unsup(format!("write_fmt {}", short(o))) })),
        "std::fmt::Formatter::write_str" | "std::fmt::Formatter::pad" | "<std::fmt::Formatter as std::fmt::Write>::write_str" | "<std::string::String as std::fmt::Write>::write_str" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[1])?; fmt_out(x, st, &a[0], r) })),
        "<std::fmt::Formatter as std::fmt::Write>::write_char" | "<std::string::String as std::fmt::Write>::write_char" => return Some(nat!(|x, st, i, a| { let c = x.int(st, &a[1])?; fmt_out(x, st, &a[0], Rc::new(vec![Seg::Ch(c)])) })),
        "std::fmt::Formatter::new" => return Some(val!(|x, st, i, a| match &a[0] { Val::Dyn(v, _) => (**v).clone(), v => v.clone() })),
        "std::fmt::FormattingOptions::new" => return Some(val!(|x, st, i, a| unit())),
        "std::fmt::Formatter::alternate" => return Some(val!(|x, st, i, a| vbool(false))),
        "<str as std::fmt::Display>::fmt" | "<std::string::String as std::fmt::Display>::fmt" | "<std::path::Display as std::fmt::Display>::fmt" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; fmt_out(x, st, &a[1], r) })),
        "<char as std::fmt::Display>::fmt" => return Some(nat!(|x, st, i, a| { let c = x.int(st, &a[0])?; fmt_out(x, st, &a[1], Rc::new(vec![Seg::Ch(c)])) })),
        "<bool as std::fmt::Display>::fmt" => return Some(nat!(|x, st, i, a| { let c = x.int(st, &a[0])?; let b = bool_fork(x, st, c)?; fmt_out(x, st, &a[1], lit(if b { "true" } else { "false" })) })),
        "<rust_decimal::Decimal as std::fmt::Display>::fmt" => return Some(nat!(|x, st, i, a| { let t = dec(x, st, &a[0])?; fmt_out(x, st, &a[1], Rc::new(vec![Seg::DecS(t)])) })),
        _ => {}
    }
    if d.ends_with(" as std::fmt::Display>::fmt") || d.contains("<impl std::fmt::Display for ") {
        let p = n;
        for (t, f) in [("i8", true), ("i16", true), ("i32", true), ("i64", true), ("i128", true), ("isize", true), ("u8", false), ("u16", false), ("u32", false), ("u64", false), ("u128", false), ("usize", false)] {
            if p == format!("<{} as std::fmt::Display>::fmt", t) || p.ends_with(&format!("<impl std::fmt::Display for {}>::fmt", t)) {
                return Some(if f { nat!(|x, st, i, a| { let t = x.int(st, &a[0])?; fmt_out(x, st, &a[1], int_rope(t, true)) }) } else { nat!(|x, st, i, a| { let t = x.int(st, &a[0])?; fmt_out(x, st, &a[1], int_rope(t, false)) }) });
            }
        }
    }
    if d.contains("SpecToString>::spec_to_string") {
        if n.starts_with("<str ") || n.starts_with("<std::string::String ") || n.starts_with("<std::borrow::Cow<") { return Some(val!(|x, st, i, a| Val::Str(x.text(st, &a[0])?))); }
        if n.starts_with("<i") { return Some(val!(|x, st, i, a| Val::Str(st.ss.norm(&int_rope(x.int(st, &a[0])?, true))))); }
        if n.starts_with("<u") { return Some(val!(|x, st, i, a| Val::Str(st.ss.norm(&int_rope(x.int(st, &a[0])?, false))))); }
        if n.starts_with("<char ") { return Some(val!(|x, st, i, a| { let c = x.int(st, &a[0])?; Val::Str(st.ss.norm(&Rc::new(vec![Seg::Ch(c)]))) })); }
        if n.starts_with("<bool ") { return Some(val!(|x, st, i, a| { let c = x.int(st, &a[0])?; vstr(if bool_fork(x, st, c)? { "true" } else { "false" }) })); }
        return None;
    }
    if d.ends_with("as std::string::ToString>::to_string") && (n.starts_with("<&str as") || n.starts_with("<str as") || n.starts_with("<std::string::String as")) { return Some(val!(|x, st, i, a| Val::Str(x.text(st, &a[0])?))); }

    if d.ends_with("models::m_opaque") { return Some(val!(|x, st, i, a| unit())); }
    // ---- memory / option glue ----
    match d {
        "std::mem::replace" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; let o = x.read(st, &p)?; x.write(st, &p, a[1].clone())?; Ok(NR::V(o)) })),
        "std::mem::swap" => return Some(nat!(|x, st, i, a| { let (p, q) = (ptr(&a[0])?, ptr(&a[1])?); let (u, v) = (x.read(st, &p)?, x.read(st, &q)?); x.write(st, &p, v)?; x.write(st, &q, u)?; Ok(NR::V(unit())) })),
        "std::mem::drop" | "std::mem::forget" => return Some(val!(|x, st, i, a| unit())),
        "std::boxed::Box::<T>::new" | "std::boxed::Box::<T, A>::new" => return Some(nat!(|x, st, i, a| { let p = st.alloc(a[0].clone()); Ok(NR::V(Val::Ref(p))) })),
        "std::boxed::Box::<[T]>::new_uninit" | "std::boxed::Box::<T>::new_uninit" | "std::boxed::Box::new_uninit" => return Some(nat!(|x, st, i, a| { let p = st.alloc(Val::Uninit); Ok(NR::V(Val::Ref(p))) })),
        "std::boxed::box_assume_init_into_vec_unsafe" => return Some(nat!(|x, st, i, a| match x.deref(st, &a[0])? { Val::Agg(f) => Ok(NR::V(Val::Vec(f))), o => unsup(format!("vec! of {}", short(&o))) })),
        "std::hint::must_use" | "core::hint::must_use" => return Some(ident!()),
        "std::ptr::read" | "std::ptr::mut_ptr::<impl *mut T>::read" | "std::ptr::const_ptr::<impl *const T>::read" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; Ok(NR::V(x.read(st, &p)?)) })),
        "std::ptr::write" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; x.write(st, &p, a[1].clone())?; Ok(NR::V(unit())) })),
        "std::ptr::from_ref" | "std::ptr::from_mut" => return Some(ident!()),
        _ => {}
    }
    if info.kind == 1 {
        match d.rsplit("::").next().unwrap_or("") {
            "cold_path" | "assert_inhabited" | "assume" => return Some(val!(|x, st, i, a| unit())),
            "likely" | "unlikely" | "black_box" => return Some(ident!()),
            "integer_max" | "integer_min" => return Some(nat!(|x, st, i, a| {
                let (_, s) = int_of(&i.tys[0]);
                let (p, q) = (x.int(st, &a[0])?, x.int(st, &a[1])?);
                let le = p.bin(if s { Op::Sle } else { Op::Ule }, q);
                let le = match st.ss.decide_len(le) { Some(b) => T::c(b as u128, 1), None => le };
                Ok(NR::V(Val::Int(if i.def.ends_with("max") { le.ite(q, p) } else { le.ite(p, q) })))
            })),
            "ctpop" => return Some(val!(|x, st, i, a| {
                let t = x.int(st, &a[0])?;
                let w = t.w();
                let mut n = T::c(0, w);
                for k in 0..w { n = n.bin(Op::Add, t.bin(Op::LShr, T::c(k as u128, w)).bin(Op::And, T::c(1, w))); }
                Val::Int(if w == 32 { n } else if w < 32 { n.zext(32) } else { n.trunc(32) })
            })),
            "ctlz" | "cttz" | "rotate_left" | "rotate_right" | "bitreverse" | "bswap" => return Some(nat!(|x, st, i, a| {
                let m = i.def.rsplit("::").next().unwrap();
                let t = x.int(st, &a[0])?;
                let w = t.w() as u32;
                let Some(k) = t.konst() else { return unsup(format!("{} of an unknown number", m)) };
                let n = if a.len() > 1 { let Some(n) = x.int(st, &a[1])?.konst() else { return unsup(format!("{} by an unknown number", m)) }; n as u32 % w } else { 0 };
                let rot = |n: u32| if n == 0 { k } else { (k << n | k >> (w - n)) & mask(w as u16) };
                Ok(NR::V(Val::Int(match m {
                    "ctlz" => T::c((k.leading_zeros() - (128 - w)) as u128, 32),
                    "cttz" => T::c(k.trailing_zeros().min(w) as u128, 32),
                    "rotate_left" => T::c(rot(n), w as u16),
                    "rotate_right" => T::c(rot((w - n) % w), w as u16),
                    "bitreverse" => T::c(k.reverse_bits() >> (128 - w), w as u16),
                    _ => T::c(k.swap_bytes() >> (128 - w), w as u16),
                })))
            })),
            "discriminant_value" => return Some(nat!(|x, st, i, a| { let v = x.deref(st, &a[0])?; let tab = x.prog.discrs(i.tys[0]).ok_or(Stop::Unsup("discriminant".into()))?; let w = i.tys[0].kind().discriminant_ty().and_then(|t| int_info(&t)).map(|q| q.0).unwrap_or(64); match v { Val::Enum(k, _) => Ok(NR::V(Val::Int(T::c(tab[k as usize], w)))), o => unsup(format!("discriminant of {}", short(&o))) } })),
            "size_of" => return Some(val!(|x, st, i, a| vusize(i.tys[0].layout().map(|l| l.shape().size.bytes()).unwrap_or(8)))),
            "read_via_copy" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; Ok(NR::V(x.read(st, &p)?)) })),
            "write_via_move" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; x.write(st, &p, a[1].clone())?; Ok(NR::V(unit())) })),
            "wrapping_add" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Add, x.int(st, &a[1])?)))),
            "wrapping_sub" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Sub, x.int(st, &a[1])?)))),
            "wrapping_mul" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Mul, x.int(st, &a[1])?)))),
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => return Some(nat!(|x, st, i, a| {
                use rustc_public::mir::BinOp::*;
                let op = if i.def.ends_with("add_with_overflow") { Add } else if i.def.ends_with("sub_with_overflow") { Sub } else { Mul };
                let (_, s) = int_of(&i.tys[0]);
                let (p, q) = (x.int(st, &a[0])?, x.int(st, &a[1])?);
                let v = x.arith(st, op, p, q, s)?; let o = x.overflow(st, op, p, q, s)?;
                Ok(NR::V(agg(vec![Val::Int(v), Val::Int(o)])))
            })),
            "saturating_add" | "saturating_sub" => return Some(nat!(|x, st, i, a| {
                use rustc_public::mir::BinOp::*;
                let add = i.def.ends_with("saturating_add");
                let (w, s) = int_of(&i.tys[0]);
                let (p, q) = (x.int(st, &a[0])?, x.int(st, &a[1])?);
                let v = x.arith(st, if add { Add } else { Sub }, p, q, s)?; let o = x.overflow(st, if add { Add } else { Sub }, p, q, s)?;
                let sat = if s { let neg = p.bin(Op::Slt, T::c(0, w)); neg.ite(T::c(1u128 << (w - 1), w), T::c((1u128 << (w - 1)) - 1, w)) } else if add { T::c(mask(w), w) } else { T::c(0, w) };
                Ok(NR::V(Val::Int(match o.kbool().or_else(|| st.ss.decide_len(o)) { Some(true) => sat, Some(false) => v, None => o.ite(sat, v) })))
            })),
            "unchecked_add" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Add, x.int(st, &a[1])?)))),
            "unchecked_sub" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Sub, x.int(st, &a[1])?)))),
            "unchecked_div" | "unchecked_rem" => return Some(nat!(|x, st, i, a| { use rustc_public::mir::BinOp::*; let (_, s) = int_of(&i.tys[0]); let (p, q) = (x.int(st, &a[0])?, x.int(st, &a[1])?); Ok(NR::V(Val::Int(x.arith(st, if i.def.ends_with("div") { Div } else { Rem }, p, q, s)?))) })),
            _ => {}
        }
        return None;
    }

    // ---- strings ----
    match d {
        "std::string::String::new" | "core::str::<impl std::default::Default for &str>::default" | "<std::string::String as std::default::Default>::default" | "<&str as std::default::Default>::default" | "std::string::String::with_capacity" => return Some(val!(|x, st, i, a| vstr(""))),
        "<str as std::borrow::ToOwned>::to_owned" | "std::str::<impl std::borrow::ToOwned for str>::to_owned" | "std::string::String::as_str" | "<std::string::String as std::ops::Deref>::deref" | "<std::string::String as std::clone::Clone>::clone"
        | "<std::string::String as std::convert::From<&str>>::from" | "<std::string::String as std::convert::From<&mut str>>::from" | "<std::string::String as std::convert::AsRef<str>>::as_ref" | "<str as std::convert::AsRef<str>>::as_ref" | "std::str::<impl str>::into_string" | "std::str::<impl str>::to_owned" | "core::str::<impl std::convert::AsRef<str> for str>::as_ref"
        | "<std::string::String as std::borrow::Borrow<str>>::borrow" | "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow" | "std::borrow::Cow::<B>::into_owned" | "<std::string::String as std::convert::From<&std::string::String>>::from"
        | "core::str::<impl str>::as_ptr_never" | "<std::borrow::Cow<B> as std::ops::Deref>::deref" | "<std::string::String as std::convert::From<std::borrow::Cow<str>>>::from"
        => return Some(val!(|x, st, i, a| Val::Str(x.text(st, &a[0])?))),
        "std::string::String::push_str" | "<std::string::String as std::ops::AddAssign<&str>>::add_assign" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[1])?; x.append(st, &ptr(&a[0])?, &r)?; Ok(NR::V(unit())) })),
        "<std::string::String as std::ops::Add<&str>>::add" => return Some(val!(|x, st, i, a| Val::Str(concat(&[x.text(st, &a[0])?, x.text(st, &a[1])?])))),
        "std::string::String::clear" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; x.write(st, &p, Val::Str(lit("")))?; Ok(NR::V(unit())) })),
        "std::string::String::push" => return Some(nat!(|x, st, i, a| { let c = x.int(st, &a[1])?; let r = st.ss.norm(&Rc::new(vec![Seg::Ch(c)])); x.append(st, &ptr(&a[0])?, &r)?; Ok(NR::V(unit())) })),
        "std::string::String::pop" => return Some(nat!(|x, st, i, a| {
            let p = ptr(&a[0])?;
            let r = x.text(st, &a[0])?;
            Ok(NR::V(match st.ss.uncons_back(&r)? { Some((q, c)) => { x.write(st, &p, Val::Str(q))?; some(Val::Int(c)) } None => none() }))
        })),
        "std::string::String::insert" | "std::string::String::insert_str" => return Some(nat!(|x, st, i, a| {
            let p = ptr(&a[0])?;
            let r = x.text(st, &a[0])?;
            let k = x.int(st, &a[1])?;
            let m = if i.def.ends_with("insert_str") { x.text(st, &a[2])? } else { let c = x.int(st, &a[2])?; st.ss.norm(&Rc::new(vec![Seg::Ch(c)])) };
            match st.ss.split_at(&r, k)? { Some((u, v)) => { x.write(st, &p, Val::Str(concat(&[u, m, v])))?; Ok(NR::V(unit())) } None => Err(Stop::Panic("insert at a bad byte index".into())) }
        })),
        "std::string::String::remove" => return Some(nat!(|x, st, i, a| {
            let p = ptr(&a[0])?;
            let r = x.text(st, &a[0])?;
            let k = x.int(st, &a[1])?;
            match st.ss.split_at(&r, k)? { Some((u, v)) => match st.ss.uncons(&v)? { Some((c, v)) => { x.write(st, &p, Val::Str(concat(&[u, v])))?; Ok(NR::V(Val::Int(c))) } None => Err(Stop::Panic("cannot remove a char from the end of a string".into())) }, None => Err(Stop::Panic("remove at a bad byte index".into())) }
        })),
        "std::string::String::truncate" => return Some(nat!(|x, st, i, a| {
            let p = ptr(&a[0])?;
            let r = x.text(st, &a[0])?;
            let k = x.int(st, &a[1])?;
            let l = st.ss.len(&r);
            if x.decide(st, l.bin(Op::Ule, k))? { return Ok(NR::V(unit())); }
            match st.ss.split_at(&r, k)? { Some((u, _)) => { x.write(st, &p, Val::Str(u))?; Ok(NR::V(unit())) } None => Err(Stop::Panic("truncate at a bad byte index".into())) }
        })),
        "core::str::<impl str>::len" | "std::string::String::len" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; Ok(NR::V(Val::Int(len_term(x, st, &r)?))) })),
        "core::str::<impl str>::is_empty" | "std::string::String::is_empty" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; Ok(NR::V(vbool(st.ss.is_empty(&r)?))) })),
        "core::str::<impl str>::trim" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let (_, b) = st.ss.take_while(&r, CS::ws())?; let (m, _) = st.ss.rtake_while(&b, CS::ws())?; Ok(NR::V(Val::Str(m))) })),
        "core::str::<impl str>::trim_start" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let (_, b) = st.ss.take_while(&r, CS::ws())?; Ok(NR::V(Val::Str(b))) })),
        "core::str::<impl str>::trim_end" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let (m, _) = st.ss.rtake_while(&r, CS::ws())?; Ok(NR::V(Val::Str(m))) })),
        "core::str::<impl str>::trim_matches" | "core::str::<impl str>::trim_start_matches" | "core::str::<impl str>::trim_end_matches" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let mut r = r;
            let cs = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => c,
                Pat::Lit(l) if !l.is_empty() => {
                    let (mut n, front, back) = (0, !i.def.ends_with("end_matches"), !i.def.ends_with("start_matches"));
                    if front { while let Some(q) = st.ss.strip_prefix(&r, &l)? { r = q; n += 1; if n > 40 { return unsup("trim: too many occurrences"); } } }
                    if back { while let Some(q) = st.ss.strip_suffix(&r, &l)? { r = q; n += 1; if n > 40 { return unsup("trim: too many occurrences"); } } }
                    return Ok(NR::V(Val::Str(st.ss.norm(&r))));
                }
                _ => return unsup("trim pattern"),
            };
            if !i.def.ends_with("end_matches") { r = st.ss.take_while(&r, cs)?.1; }
            if !i.def.ends_with("start_matches") { r = st.ss.rtake_while(&r, cs)?.0; }
            Ok(NR::V(Val::Str(r)))
        })),
        "core::str::<impl str>::lines" => return Some(val!(|x, st, i, a| it(It::Lines(x.text(st, &a[0])?)))),
        "core::str::<impl str>::bytes" => return Some(val!(|x, st, i, a| it(It::Bytes(x.text(st, &a[0])?)))),
        "core::str::<impl str>::chars" => return Some(val!(|x, st, i, a| it(It::Chars(x.text(st, &a[0])?)))),
        "core::str::<impl str>::char_indices" => return Some(val!(|x, st, i, a| it(It::CharIdx(x.text(st, &a[0])?, T::c(0, 64))))),
        "std::str::Chars::as_str" => return Some(nat!(|x, st, i, a| match x.deref_all(st, &a[0])? { Val::It(i) => match &*i { It::Chars(r) => Ok(NR::V(Val::Str(st.ss.norm(r)))), _ => unsup("as_str") }, _ => unsup("as_str") })),
        "core::str::<impl str>::split" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; Ok(NR::V(match pattern(x, st, &i.tys[0], &a[1])? { Pat::Set(c) => it(It::Split(r, c, false)), Pat::Lit(l) if !l.is_empty() => it(It::SplitLit(r, l, false)), _ => return unsup("split pattern") })) })),
        "core::str::<impl str>::split_whitespace" => return Some(val!(|x, st, i, a| it(It::SplitWs(x.text(st, &a[0])?)))),
        "core::str::<impl str>::splitn" | "core::str::<impl str>::split_terminator" | "core::str::<impl str>::split_inclusive" | "core::str::<impl str>::rsplit" | "core::str::<impl str>::rsplitn" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let m = i.def.rsplit("::").next().unwrap();
            let n = if m.ends_with("splitn") { x.usize_const(st, &a[1])? } else { usize::MAX };
            let sep = match pattern(x, st, i.tys.last().unwrap(), a.last().unwrap())? { Pat::Set(c) => Sep::Set(c), Pat::Lit(l) if !l.is_empty() => Sep::Lit(l), _ => return unsup("split pattern") };
            Ok(NR::V(it(It::SplitX(r, sep, n, match m { "splitn" => SplitKind::Plain, "split_terminator" => SplitKind::Term, "split_inclusive" => SplitKind::Incl, _ => SplitKind::Back }))))
        })),
        "core::str::<impl str>::rsplit_once" | "core::str::<impl str>::rfind" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let sep = match pattern(x, st, i.tys.last().unwrap(), &a[1])? { Pat::Set(c) => Sep::Set(c), _ => return unsup("search from the end for a text") };
            let (tail, before) = split_step(st, &r, &sep, true)?;
            let once = i.def.ends_with("once");
            Ok(NR::V(match before { Some((p, _)) => some(if once { agg(vec![Val::Str(p), Val::Str(tail)]) } else { Val::Int(st.ss.len(&p)) }), None => none() }))
        })),
        "core::str::<impl str>::contains" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let b = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => { let (_, post) = st.ss.take_while(&r, c.inv())?; !st.ss.is_empty(&post)? }
                Pat::Lit(l) => if l.is_empty() { true } else { st.ss.find(&r, &l)?.is_some() },
                Pat::Rope(_) => return unsup("contains symbolic"),
            };
            Ok(NR::V(vbool(b)))
        })),
        "core::str::<impl str>::starts_with" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let b = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => starts(st, &r, c)?,
                Pat::Lit(l) => st.ss.strip_prefix(&r, &l)?.is_some(),
                Pat::Rope(_) => return unsup("starts_with symbolic"),
            };
            Ok(NR::V(vbool(b)))
        })),
        "core::str::<impl str>::ends_with" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let b = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => match c.single() { Some(ch) => st.ss.strip_suffix(&r, &ch.to_string())?.is_some(), None => return unsup("ends_with set") },
                Pat::Lit(l) => st.ss.strip_suffix(&r, &l)?.is_some(),
                Pat::Rope(_) => return unsup("ends_with symbolic"),
            };
            Ok(NR::V(vbool(b)))
        })),
        "core::str::<impl str>::strip_prefix" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let o = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => if starts(st, &r, c)? { st.ss.uncons(&r)?.map(|z| z.1) } else { None },
                Pat::Lit(l) => st.ss.strip_prefix(&r, &l)?,
                Pat::Rope(p) => { let r2 = st.ss.norm(&r); let p = st.ss.norm(&p); if r2.len() >= p.len() && r2[..p.len()] == p[..] { Some(rope_of(&r2[p.len()..])) } else { return unsup("strip symbolic prefix") } }
            };
            Ok(NR::V(match o { Some(r) => some(Val::Str(r)), None => none() }))
        })),
        "core::str::<impl str>::strip_suffix" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let o = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => match c.single() { Some(ch) => st.ss.strip_suffix(&r, &ch.to_string())?, None => return unsup("strip_suffix set") },
                Pat::Lit(l) => st.ss.strip_suffix(&r, &l)?,
                Pat::Rope(l) => {
                    // the same text at the end
                    let (r, l) = (st.ss.norm(&r), st.ss.norm(&l));
                    match rope_minus(&r, &l) { Some(q) => Some(q), None => return unsup(format!("strip symbolic suffix {} of {}", st.ss.show(&l), st.ss.show(&r))) }
                }
            };
            Ok(NR::V(match o { Some(r) => some(Val::Str(r)), None => none() }))
        })),
        "core::str::<impl str>::find" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let o = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => { let (pre, post) = st.ss.take_while(&r, c.inv())?; if st.ss.is_empty(&post)? { None } else { Some(pre) } }
                Pat::Lit(l) => if l.is_empty() { Some(lit("")) } else { st.ss.find(&r, &l)?.map(|z| z.0) },
                Pat::Rope(_) => return unsup("find symbolic"),
            };
            Ok(NR::V(match o { Some(p) => some(Val::Int(st.ss.len(&p))), None => none() }))
        })),
        "core::str::<impl str>::split_once" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let o = match pattern(x, st, &i.tys[0], &a[1])? {
                Pat::Set(c) => match split_next(st, &r, c)? { (p, Some(q)) => Some((p, q)), _ => None },
                Pat::Lit(l) => match st.ss.find(&r, &l)? { Some((p, q)) => { let q = st.ss.strip_prefix(&q, &l)?.ok_or(Stop::Unsup("split_once".into()))?; Some((p, q)) } None => None },
                Pat::Rope(_) => return unsup("split_once symbolic"),
            };
            Ok(NR::V(match o { Some((p, q)) => some(agg(vec![Val::Str(p), Val::Str(q)])), None => none() }))
        })),
        "core::str::<impl str>::split_at" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let t = x.int(st, &a[1])?; match st.ss.split_at(&r, t)? { Some((p, q)) => Ok(NR::V(agg(vec![Val::Str(p), Val::Str(q)]))), None => Err(Stop::Panic("split_at on a bad byte index".into())) } })),
        "core::str::<impl str>::get" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let (lo, hi) = range_of(x, st, &ty_name(&i.tys[0]), &a[1])?; match str_slice(st, &r, lo, hi) { Ok(r) => Ok(NR::V(some(Val::Str(r)))), Err(Stop::Panic(_)) => Ok(NR::V(none())), Err(e) => Err(e) } })),
        "core::str::<impl str>::to_lowercase" | "std::str::<impl str>::to_lowercase" => return Some(val!(|x, st, i, a| { let r = x.text(st, &a[0])?; Val::Str(case_map(st, &r, true, false)?) })),
        "core::str::<impl str>::to_uppercase" | "std::str::<impl str>::to_uppercase" => return Some(val!(|x, st, i, a| { let r = x.text(st, &a[0])?; Val::Str(case_map(st, &r, false, false)?) })),
        "std::str::<impl str>::to_ascii_lowercase" => return Some(val!(|x, st, i, a| { let r = x.text(st, &a[0])?; Val::Str(case_map(st, &r, true, true)?) })),
        "std::str::<impl str>::repeat" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let n = x.usize_const(st, &a[1])?; Ok(NR::V(Val::Str(concat(&vec![r; n])))) })),
        "std::str::<impl str>::replace" => return Some(nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let to = x.text(st, &a[2])?;
            let l: Rc<str> = match pattern(x, st, &i.tys[0], &a[1])? { Pat::Set(c) => match c.single() { Some(ch) => ch.to_string().into(), None => return unsup("replace set") }, Pat::Lit(l) => l, Pat::Rope(_) => return unsup("replace symbolic") };
            if l.is_empty() {
                let (Some(r), Some(to)) = (rope_is_lit(&st.ss.norm(&r)), rope_is_lit(&st.ss.norm(&to))) else { return unsup("replace nothing") };
                return Ok(NR::V(Val::Str(lit(&r.replace("", &to)))));
            }
            let mut out = lit("");
            let mut rest = r;
            for _ in 0..64 {
                match st.ss.find(&rest, &l)? { None => { let rest = st.ss.norm(&rest); return Ok(NR::V(Val::Str(concat(&[out, rest])))); } Some((p, q)) => { out = concat(&[out, p, to.clone()]); rest = st.ss.strip_prefix(&q, &l)?.ok_or(Stop::Unsup("replace".into()))?; } }
            }
            unsup("replace: too many occurrences")
        })),
        "core::str::<impl str>::eq_ignore_ascii_case" => return Some(nat!(|x, st, i, a| {
            let (p, q) = (x.text(st, &a[0])?, x.text(st, &a[1])?);
            let (p, q) = (case_map(st, &p, true, true)?, case_map(st, &q, true, true)?);
            Ok(NR::V(vbool(st.ss.rope_eq(&p, &q)?)))
        })),
        "core::str::<impl str>::is_char_boundary" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let t = x.int(st, &a[1])?; Ok(NR::V(vbool(st.ss.split_at(&r, t)?.is_some()))) })),
        "core::str::<impl str>::as_bytes" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; match rope_is_lit(&r) { Some(l) => { let p = x.prog.add_const(agg(l.bytes().map(|b| Val::Int(T::c(b as u128, 8))).collect())); Ok(NR::V(Val::Slice(p, 0, l.len()))) } None => unsup("bytes of a symbolic text") } })),
        "core::str::<impl str>::matches" => return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let c = match pattern(x, st, &i.tys[0], &a[1])? { Pat::Lit(l) if !l.is_empty() => l, Pat::Set(c) if c.single().is_some() => c.single().unwrap().to_string().into(), _ => return unsup("matches pattern") }; Ok(NR::V(it(It::Matches(r, c)))) })),
        "std::slice::<impl [T]>::join" | "std::slice::<impl [S]>::concat" | "std::slice::<impl [T]>::concat" | "std::slice::Join::join" | "<[S] as std::slice::Join<&str>>::join" | "std::str::<impl std::slice::Join<&str> for [S]>::join" | "std::str::<impl std::slice::Concat<str> for [S]>::concat" => return Some(nat!(|x, st, i, a| {
            if let Val::LinesVec(r) = x.deref_all(st, &a[0])? {
                if rope_is_lit(&x.text(st, &a[1])?).as_deref() != Some("\n") { return unsup("join of lines"); }
                return Ok(NR::V(Val::Str(match st.ss.strip_suffix(&r, "\n")? { Some(q) => q, None => r })));
            }
            let e = x.elems(st, &a[0])?;
            let sep = if a.len() > 1 { x.text(st, &a[1])? } else { lit("") };
            let mut v = vec![];
            for (k, s) in e.iter().enumerate() { if k > 0 { v.push(sep.clone()); } v.push(x.text(st, s)?); }
            Ok(NR::V(Val::Str(concat(&v))))
        })),
        _ => {}
    }
    // equality of texts in all its impls
    if (d.ends_with("::eq") || d.ends_with("::ne")) && d.contains("PartialEq") {
        let is_text = |s: &str| { let s = s.trim_start_matches('&').trim_start_matches("mut "); s == "str" || s == "std::string::String" || s == "std::path::Path" || s == "std::path::PathBuf" || s.starts_with("std::borrow::Cow<str") };
        // self type and argument from the signature
        if let Some(sig) = info.inst.ty().kind().fn_sig() {
            let sig = sig.skip_binder();
            if sig.inputs().len() == 2 {
                let (p, q) = (ty_name(&sig.inputs()[0]), ty_name(&sig.inputs()[1]));
                if is_text(&p) && is_text(&q) {
                    return Some(if d.ends_with("::eq") { nat!(|x, st, i, a| { let (p, q) = (x.text(st, &a[0])?, x.text(st, &a[1])?); Ok(NR::V(vbool(st.ss.rope_eq(&p, &q)?))) }) }
                        else { nat!(|x, st, i, a| { let (p, q) = (x.text(st, &a[0])?, x.text(st, &a[1])?); Ok(NR::V(vbool(!st.ss.rope_eq(&p, &q)?))) }) });
                }
            }
        }
    }
    if (d.contains("std::ops::Index<I> for str>::index") || d.contains("std::string::String as std::ops::Index<I>>::index")) || (d.contains("std::ops::Index<") && d.contains("std::string::String") && d.ends_with("::index")) {
        return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let ty = i.tys.first().map(ty_name).unwrap_or_else(|| i.name.clone()); let (lo, hi) = range_of(x, st, &ty, &a[1])?; Ok(NR::V(Val::Str(str_slice(st, &r, lo, hi)?))) }));
    }
    // ---- paths ----
    if d.starts_with("std::path::Path::new") || d == "std::path::Path::to_path_buf" || d == "std::path::PathBuf::as_path" || d.contains("as std::convert::AsRef<std::path::Path>>::as_ref") || d.contains("std::convert::AsRef<std::path::Path> for") || d == "<std::path::PathBuf as std::ops::Deref>::deref" || d == "<std::path::Path as std::borrow::ToOwned>::to_owned" || d == "<std::path::PathBuf as std::clone::Clone>::clone" || d.contains("std::path::PathBuf as std::convert::From<") || d == "std::path::Path::display" || d.contains("std::path::PathBuf as std::str::FromStr") && false {
        return Some(val!(|x, st, i, a| Val::Str(x.text(st, &a[0])?)));
    }
    if d == "std::path::Path::to_string_lossy" || d == "std::ffi::OsStr::to_string_lossy" { return Some(val!(|x, st, i, a| Val::Enum(0, Rc::new(vec![Val::Str(x.text(st, &a[0])?)])))); }
    if d == "<&std::ffi::OsStr as std::default::Default>::default" { return Some(val!(|x, st, i, a| vstr(""))); }
    if d == "std::path::Path::to_str" || d == "std::ffi::OsStr::to_str" { return Some(val!(|x, st, i, a| some(Val::Str(x.text(st, &a[0])?)))); }
    if d == "<std::path::PathBuf as std::default::Default>::default" || d == "std::path::PathBuf::new" { return Some(val!(|x, st, i, a| vstr(""))); }

    // ---- integers ----
    if d.ends_with("std::str::FromStr>::from_str") || d.contains("<impl std::str::FromStr for ") {
        for t in ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"] {
            if n == format!("<{} as std::str::FromStr>::from_str", t) || n.ends_with(&format!("<impl std::str::FromStr for {}>::from_str", t)) {
                return Some(nat!(|x, st, i, a| {
                    let sig = i.inst.ty().kind().fn_sig().unwrap().skip_binder();
                    // Result<T, ParseIntError>
                    let TyKind::RigidTy(RigidTy::Adt(_, args)) = sig.output().kind() else { return unsup("from_str") };
                    let (w, s) = int_of(args.0[0].expect_ty());
                    let r = x.text(st, &a[0])?;
                    Ok(NR::V(parse_int_native(x, st, &r, w, s)?))
                }));
            }
        }
        if n.contains("std::str::FromStr for std::num::NonZero<") || n.starts_with("<std::num::NonZero<") {
            return Some(nat!(|x, st, i, a| {
                let sig = i.inst.ty().kind().fn_sig().unwrap().skip_binder();
                let TyKind::RigidTy(RigidTy::Adt(_, args)) = sig.output().kind() else { return unsup("from_str") };
                let TyKind::RigidTy(RigidTy::Adt(_, a2)) = args.0[0].expect_ty().kind() else { return unsup("from_str") };
                let (w, s) = int_of(a2.0[0].expect_ty());
                let r = x.text(st, &a[0])?;
                let v = parse_int_native(x, st, &r, w, s)?;
                if let Val::Enum(0, f) = &v { let Val::Int(t) = f[0] else { return unsup("from_str") }; let z = t.teq(T::c(0, w)); if x.decide(st, z)? { return Ok(NR::V(err(Val::IntErr(r, w, s)))); } }
                Ok(NR::V(v))
            }));
        }
        if n == "<rust_decimal::Decimal as std::str::FromStr>::from_str" || n.ends_with("<impl std::str::FromStr for rust_decimal::Decimal>::from_str") {
            return Some(nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; Ok(NR::V(match parse_dec_native(x, st, &r)? { Some(t) => ok(Val::Dec(t)), None => err(err_unit()) })) }));
        }
        if n == "<std::string::String as std::str::FromStr>::from_str" || n == "<std::path::PathBuf as std::str::FromStr>::from_str" { return Some(val!(|x, st, i, a| ok(Val::Str(x.text(st, &a[0])?)))); }
    }
    match d {
        "std::convert::num::<impl std::convert::TryFrom<u32> for std::num::NonZero<u32>>::try_from" | "std::convert::num::<impl std::convert::TryFrom<usize> for std::num::NonZero<usize>>::try_from" => return Some(nat!(|x, st, i, a| { let t = x.int(st, &a[0])?; let z = t.teq(T::c(0, t.w())); Ok(NR::V(if x.decide(st, z)? { err(agg(vec![unit()])) } else { ok(Val::Int(t)) })) })),
        "std::num::NonZero::<T>::new" => return Some(nat!(|x, st, i, a| { let t = x.int(st, &a[0])?; let z = t.teq(T::c(0, t.w())); Ok(NR::V(if x.decide(st, z)? { none() } else { some(Val::Int(t)) })) })),
        "std::num::NonZero::<T>::get" | "std::num::NonZero::<T>::new_unchecked" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?))),
        "<std::num::NonZero<T> as std::cmp::PartialEq>::eq" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.teq(x.int(st, &a[1])?)))),
        "<std::num::NonZero<T> as std::clone::Clone>::clone" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?))),
        "std::num::ParseIntError::kind" => return Some(nat!(|x, st, i, a| { let Val::IntErr(r, w, s) = x.deref(st, &a[0])? else { return unsup("ParseIntError::kind") }; let k = int_err_kind(st, &r, w, s)?; let p = st.alloc(Val::Enum(k, Rc::new(vec![]))); Ok(NR::V(Val::Ref(p))) })),
        "<std::num::ParseIntError as std::cmp::PartialEq>::eq" => return Some(val!(|x, st, i, a| vbool(x.deref(st, &a[0])? == x.deref(st, &a[1])?))),
        "<std::num::ParseIntError as std::clone::Clone>::clone" => return Some(val!(|x, st, i, a| x.deref(st, &a[0])?)),
        _ => {}
    }
    if d.contains("core::num::<impl ") || d.contains("std::num::<impl ") {
        let m = d.rsplit("::").next().unwrap();
        use rustc_public::mir::BinOp::*;
        let _ = Add;
        match m {
            "checked_add" | "checked_sub" | "checked_mul" => return Some(nat!(|x, st, i, a| {
                use rustc_public::mir::BinOp::*;
                let op = if i.def.ends_with("add") { Add } else if i.def.ends_with("sub") { Sub } else { Mul };
                let s = i.def.contains("<impl i");
                let (p, q) = (x.int(st, &a[0])?, x.int(st, &a[1])?);
                let v = x.arith(st, op, p, q, s)?; let o = x.overflow(st, op, p, q, s)?;
                Ok(NR::V(if x.decide(st, o)? { none() } else { some(Val::Int(v)) }))
            })),
            "wrapping_add" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Add, x.int(st, &a[1])?)))),
            "wrapping_sub" => return Some(val!(|x, st, i, a| Val::Int(x.int(st, &a[0])?.bin(Op::Sub, x.int(st, &a[1])?)))),
            "pow" => return Some(nat!(|x, st, i, a| { let (p, q) = (x.int(st, &a[0])?, x.int(st, &a[1])?); match (p.konst(), q.konst()) { (Some(b), Some(e)) => match b.checked_pow(e as u32) { Some(v) if v <= mask(p.w()) => Ok(NR::V(Val::Int(T::c(v, p.w())))), _ => Err(Stop::Panic("pow overflow".into())) }, _ => unsup("symbolic pow") } })),
            _ => {}
        }
    }
    // ---- chars ----
    if d.starts_with("core::char::methods::<impl char>::") || d.starts_with("std::char::methods::<impl char>::") {
        let m = d.rsplit("::").next().unwrap();
        macro_rules! cls { ($p:expr) => { nat!(|x, st, i, a| {
            let t = x.int(st, &a[0])?;
            let p: fn(char) -> bool = $p;
            if let Some(k) = t.konst() { return Ok(NR::V(vbool(p(char::from_u32(k as u32).unwrap())))); }
            let cs = st.ss.chars.get(&t).copied().unwrap_or(CS::ALL);
            let yes = cs.filter(p);
            if yes == cs { return Ok(NR::V(vbool(true))); }
            if yes.is_none() { return Ok(NR::V(vbool(false))); }
            Err(Stop::Fork(vec![vec![Upd::NarrowCh(t, yes)], vec![Upd::NarrowCh(t, cs.minus(yes))]]))
        }) } }
        match m {
            "is_whitespace" => return Some(cls!(|c| c.is_whitespace())),
            "is_numeric" => return Some(cls!(|c| c.is_numeric())),
            "is_alphabetic" => return Some(cls!(|c| c.is_alphabetic())),
            "is_alphanumeric" => return Some(cls!(|c| c.is_alphanumeric())),
            "is_control" => return Some(cls!(|c| c.is_control())),
            "is_lowercase" => return Some(cls!(|c| c.is_lowercase())),
            "is_uppercase" => return Some(cls!(|c| c.is_uppercase())),
            "len_utf8" => return Some(nat!(|x, st, i, a| { let t = x.int(st, &a[0])?; Ok(NR::V(Val::Int(st.ss.len(&st.ss.norm(&Rc::new(vec![Seg::Ch(t)])))))) })),
            _ => {}
        }
    }
    // ---- decimals ----
    if d.contains("rust_decimal") {
        match d {
            "rust_decimal::Decimal::from_parts" => return Some(nat!(|x, st, i, a| {
                let k = |x: &mut Ex, j: usize| -> Res<u128> { x.int(st, &a[j])?.konst().ok_or(Stop::Unsup("from_parts".into())) };
                let (lo, mid, hi, neg, sc) = (k(x, 0)?, k(x, 1)?, k(x, 2)?, k(x, 3)?, k(x, 4)?);
                let m = (hi << 64 | mid << 32 | lo) as i128;
                Ok(NR::V(Val::Dec(T::real(if neg != 0 { -m } else { m }, sc as u32))))
            })),
            "rust_decimal::Decimal::new" => return Some(nat!(|x, st, i, a| { match (x.int(st, &a[0])?.ksigned(), x.int(st, &a[1])?.konst()) { (Some(m), Some(s)) => Ok(NR::V(Val::Dec(T::real(m, s as u32)))), _ => unsup("Decimal::new") } })),
            "<rust_decimal::Decimal as std::default::Default>::default" => return Some(val!(|x, st, i, a| Val::Dec(T::real(0, 0)))),
            "<rust_decimal::Decimal as std::clone::Clone>::clone" => return Some(val!(|x, st, i, a| Val::Dec(dec(x, st, &a[0])?))),
            "<rust_decimal::Decimal as std::cmp::PartialEq>::eq" => return Some(nat!(|x, st, i, a| { let (p, q) = (dec(x, st, &a[0])?, dec(x, st, &a[1])?); let e = p.teq(q); Ok(NR::V(Val::Int(e))) })),
            "<rust_decimal::Decimal as std::cmp::PartialOrd>::partial_cmp" | "<rust_decimal::Decimal as std::cmp::Ord>::cmp" => return Some(nat!(|x, st, i, a| {
                let (p, q) = (dec(x, st, &a[0])?, dec(x, st, &a[1])?);
                let lt = p.bin(Op::RLt, q); let eq = p.teq(q);
                let o = if x.decide(st, lt)? { Ex::ord(-1) } else if x.decide(st, eq)? { Ex::ord(0) } else { Ex::ord(1) };
                Ok(NR::V(if i.def.ends_with("partial_cmp") { some(o) } else { o }))
            })),
            "rust_decimal::Decimal::is_zero" => return Some(val!(|x, st, i, a| Val::Int(dec(x, st, &a[0])?.teq(T::real(0, 0))))),
            "rust_decimal::Decimal::max" | "rust_decimal::Decimal::min" => return Some(nat!(|x, st, i, a| { let (p, q) = (dec(x, st, &a[0])?, dec(x, st, &a[1])?); let lt = p.bin(Op::RLt, q); let less = x.decide(st, lt)?; Ok(NR::V(Val::Dec(if less == i.def.ends_with("max") { q } else { p }))) })),
            "rust_decimal::Decimal::abs" => return Some(nat!(|x, st, i, a| { let t = dec(x, st, &a[0])?; let neg = t.bin(Op::RLt, T::real(0, 0)); Ok(NR::V(Val::Dec(if x.decide(st, neg)? { t.neg() } else { t }))) })),
            "<rust_decimal::Decimal as std::ops::Neg>::neg" => return Some(val!(|x, st, i, a| Val::Dec(dec(x, st, &a[0])?.neg()))),
            _ => {}
        }
        if d.contains("std::convert::From<") && d.ends_with("::from") || d.contains("<impl std::convert::From<") {
            if let Some(sig) = info.inst.ty().kind().fn_sig() {
                let sig = sig.skip_binder();
                if ty_name(&sig.output()) == "rust_decimal::Decimal" {
                    if let Some((_, s)) = int_info(&sig.inputs()[0]) {
                        return Some(if s { val!(|x, st, i, a| Val::Dec(x.int(st, &a[0])?.s2r())) } else { val!(|x, st, i, a| Val::Dec(x.int(st, &a[0])?.u2r())) });
                    }
                }
            }
        }
        for (m, op) in [("checked_add", Op::RAdd), ("checked_sub", Op::RSub), ("checked_mul", Op::RMul), ("checked_div", Op::RDiv)] {
            if d.ends_with(&format!("::{}", m)) {
                let _ = op;
                return Some(nat!(|x, st, i, a| {
                    let m = i.def.rsplit("::").next().unwrap();
                    let (p, q) = (dec(x, st, &a[0])?, dec(x, st, &a[1])?);
                    let op = match m { "checked_add" => Op::RAdd, "checked_sub" => Op::RSub, "checked_mul" => Op::RMul, _ => Op::RDiv };
                    if op == Op::RDiv {
                        if x.decide(st, q.teq(T::real(0, 0)))? { return Ok(NR::V(none())); }
                        st.ss.taint.get_or_insert("decimal division treated as exact");
                    }
                    let t = p.bin(op, q);
                    Ok(NR::V(if x.decide(st, dec_range(t))? { some(Val::Dec(t)) } else { none() }))
                }));
            }
        }
        for (tr, m) in [("std::ops::Add", "add"), ("std::ops::Sub", "sub"), ("std::ops::Mul", "mul"), ("std::ops::Div", "div"), ("std::ops::AddAssign", "add_assign"), ("std::ops::SubAssign", "sub_assign")] {
            if d.contains(&format!("{}", tr)) && d.ends_with(&format!("::{}", m)) {
                return Some(nat!(|x, st, i, a| {
                    let m = i.def.rsplit("::").next().unwrap();
                    let (p, q) = (dec(x, st, &a[0])?, dec(x, st, &a[1])?);
                    let op = if m.starts_with("add") { Op::RAdd } else if m.starts_with("sub") { Op::RSub } else if m.starts_with("mul") { Op::RMul } else { Op::RDiv };
                    if op == Op::RDiv { let w = x.where_(st); x.ensure(st, &format!("no panic: decimal division by zero in {}", w), q.teq(T::real(0, 0)).bnot())?; st.ss.taint.get_or_insert("decimal division treated as exact"); }
                    let v = dec_result(x, st, p.bin(op, q), m.trim_end_matches("_assign"))?;
                    if m.ends_with("_assign") { x.write(st, &ptr(&a[0])?, v)?; return Ok(NR::V(unit())); }
                    Ok(NR::V(v))
                }));
            }
        }
        if d.contains("std::convert::TryFrom<") || d.contains("ToPrimitive") { return None; }
    }

    // ---- vectors and slices ----
    match d {
        "std::vec::Vec::<T>::new" | "std::vec::Vec::<T>::with_capacity" | "<std::vec::Vec<T> as std::default::Default>::default" => return Some(val!(|x, st, i, a| Val::Vec(Rc::new(vec![])))),
        "std::vec::Vec::<T, A>::push" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; match x.read(st, &p)? { Val::Vec(f) => { let mut f = f; Rc::make_mut(&mut f).push(a[1].clone()); x.write(st, &p, Val::Vec(f))?; Ok(NR::V(unit())) } Val::VecM(f) => { let mut f = f; Rc::make_mut(&mut f).push(a[1].clone()); x.write(st, &p, Val::VecM(f))?; Ok(NR::V(unit())) } o => unsup(format!("push to {}", short(&o))) } })),
        "std::vec::Vec::<T, A>::push_mut" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; match x.read(st, &p)? { Val::Vec(f) => { let mut f = f; let n = f.len(); Rc::make_mut(&mut f).push(a[1].clone()); x.write(st, &p, Val::Vec(f))?; Ok(NR::V(Val::Ref(p.field(n as u32)))) } Val::VecM(f) => { let mut f = f; let n = f.len(); Rc::make_mut(&mut f).push(a[1].clone()); x.write(st, &p, Val::VecM(f))?; Ok(NR::V(Val::Ref(p.field(n as u32)))) } o => unsup(format!("push to {}", short(&o))) } })),
        "std::vec::Vec::<T, A>::split_off" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; let k = x.usize_const(st, &a[1])?; match x.read(st, &p)? { Val::Vec(f) => { if k > f.len() { return Err(Stop::Panic("split_off index".into())); } let mut f = f; let t = Rc::make_mut(&mut f).split_off(k); x.write(st, &p, Val::Vec(f))?; Ok(NR::V(Val::Vec(Rc::new(t)))) } o => unsup(format!("split_off {}", short(&o))) } })),
        "core::slice::<impl [T]>::swap" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; let (k, l) = (x.usize_const(st, &a[1])?, x.usize_const(st, &a[2])?); if k >= n || l >= n { return Err(Stop::Panic("swap index".into())); } let (q, r) = (p.field((o + k) as u32), p.field((o + l) as u32)); let (u, v) = (x.read(st, &q)?, x.read(st, &r)?); x.write(st, &q, v)?; x.write(st, &r, u)?; Ok(NR::V(unit())) })),
        "core::slice::<impl [T]>::windows" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; let k = x.usize_const(st, &a[1])?; if k == 0 { return Err(Stop::Panic("window size".into())); } Ok(NR::V(it(It::Windows(p, o, n, k)))) })),
        "std::vec::Vec::<T, A>::pop" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; match x.read(st, &p)? { Val::Vec(f) => { let mut f = f; let v = Rc::make_mut(&mut f).pop(); x.write(st, &p, Val::Vec(f))?; Ok(NR::V(match v { Some(v) => some(v), None => none() })) } o => unsup(format!("pop from {}", short(&o))) } })),
        "std::vec::Vec::<T, A>::clear" => return Some(nat!(|x, st, i, a| { x.write(st, &ptr(&a[0])?, Val::Vec(Rc::new(vec![])))?; Ok(NR::V(unit())) })),
        "std::vec::Vec::<T, A>::reserve" => return Some(val!(|x, st, i, a| unit())),
        "std::vec::Vec::<T, A>::insert" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; let k = x.usize_const(st, &a[1])?; match x.read(st, &p)? { Val::Vec(f) => { if k > f.len() { return Err(Stop::Panic("insert index".into())); } let mut f = f; Rc::make_mut(&mut f).insert(k, a[2].clone()); x.write(st, &p, Val::Vec(f))?; Ok(NR::V(unit())) } o => unsup(format!("insert into {}", short(&o))) } })),
        "std::vec::Vec::<T, A>::remove" | "std::vec::Vec::<T, A>::swap_remove" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; let k = x.usize_const(st, &a[1])?; match x.read(st, &p)? { Val::Vec(f) => { if k >= f.len() { return Err(Stop::Panic("remove index".into())); } let mut f = f; let v = if i.def.ends_with("swap_remove") { Rc::make_mut(&mut f).swap_remove(k) } else { Rc::make_mut(&mut f).remove(k) }; x.write(st, &p, Val::Vec(f))?; Ok(NR::V(v)) } o => unsup(format!("remove from {}", short(&o))) } })),
        "std::vec::Vec::<T, A>::truncate" => return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; let k = x.usize_const(st, &a[1])?; match x.read(st, &p)? { Val::Vec(f) => { let mut f = f; Rc::make_mut(&mut f).truncate(k); x.write(st, &p, Val::Vec(f))?; Ok(NR::V(unit())) } o => unsup(format!("truncate {}", short(&o))) } })),
        "std::vec::Vec::<T, A>::append" => return Some(nat!(|x, st, i, a| { let (p, q) = (ptr(&a[0])?, ptr(&a[1])?); match (x.read(st, &p)?, x.read(st, &q)?) { (Val::Vec(f), Val::Vec(g)) => { let mut f = f; Rc::make_mut(&mut f).extend(g.iter().cloned()); x.write(st, &p, Val::Vec(f))?; x.write(st, &q, Val::Vec(Rc::new(vec![])))?; Ok(NR::V(unit())) } _ => unsup("append") } })),
        "std::vec::Vec::<T, A>::len" | "core::slice::<impl [T]>::len" => return Some(nat!(|x, st, i, a| { let (_, _, n) = x.slice_of(st, &a[0])?; Ok(NR::V(vusize(n))) })),
        "std::vec::Vec::<T, A>::is_empty" | "core::slice::<impl [T]>::is_empty" => return Some(nat!(|x, st, i, a| { if let Val::VecM(f) = x.deref_all(st, &a[0])? { if f.iter().any(|v| !matches!(v, Val::Many(..))) { return Ok(NR::V(vbool(false))); } } let (_, _, n) = x.slice_of(st, &a[0])?; Ok(NR::V(vbool(n == 0))) })),
        "std::vec::Vec::<T, A>::as_slice" | "std::vec::Vec::<T, A>::as_mut_slice" | "<std::vec::Vec<T, A> as std::ops::Deref>::deref" | "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut" | "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref" | "std::array::<impl [T; N]>::as_slice" | "core::array::<impl [T; N]>::as_slice" => return Some(nat!(|x, st, i, a| { if let Val::LinesVec(_) | Val::VecM(_) = x.deref(st, &a[0])? { return Ok(NR::V(a[0].clone())); } let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(Val::Slice(p, o, n))) })),
        "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(it(It::Slice(p, o, n)))) })),
        "core::slice::<impl [T]>::chunks" | "core::slice::<impl [T]>::chunks_exact" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; let k = x.usize_const(st, &a[1])?; if k == 0 { return Err(Stop::Panic("chunk size".into())); } Ok(NR::V(it(It::Chunks(p, o, n, k, i.def.ends_with("exact"))))) })),
        "core::slice::<impl [T]>::first" | "core::slice::<impl [T]>::first_mut" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(if n == 0 { none() } else { some(Val::Ref(p.field(o as u32))) })) })),
        "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::last_mut" => return Some(nat!(|x, st, i, a| { if let Val::VecM(f) = x.deref(st, &a[0])? { if !matches!(f.last(), Some(Val::Many(..)) | None) { let mut r = a[0].clone(); loop { match x.deref(st, &r)? { v @ Val::Ref(_) => r = v, _ => break } } return Ok(NR::V(some(Val::Ref(ptr(&r)?.field(f.len() as u32 - 1))))); } } let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(if n == 0 { none() } else { some(Val::Ref(p.field((o + n - 1) as u32))) })) })),
        "core::slice::<impl [T]>::split_at" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; let k = x.usize_const(st, &a[1])?; if k > n { return Err(Stop::Panic("split_at".into())); } Ok(NR::V(agg(vec![Val::Slice(p.clone(), o, k), Val::Slice(p, o + k, n - k)]))) })),
        "core::slice::<impl [T]>::split_first" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(if n == 0 { none() } else { some(agg(vec![Val::Ref(p.field(o as u32)), Val::Slice(p, o + 1, n - 1)])) })) })),
        "core::slice::<impl [T]>::split_last" => return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(if n == 0 { none() } else { some(agg(vec![Val::Ref(p.field((o + n - 1) as u32)), Val::Slice(p, o, n - 1)])) })) })),
        "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => return Some(nat!(|x, st, i, a| {
            let (p, o, n) = x.slice_of(st, &a[0])?;
            let ty = ty_name(&i.tys[1]);
            if ty == "usize" { let t = x.int(st, &a[1])?; if t.konst().is_none() { let inb = t.bin(Op::Ult, T::c(n as u128, 64)); if !x.decide(st, inb)? { return Ok(NR::V(none())); } } let k = x.pick_index(st, &a[1], n)?; return Ok(NR::V(if k < n { some(Val::Ref(p.field((o + k) as u32))) } else { none() })); }
            let (lo, hi) = range_of(x, st, &ty, &a[1])?;
            let (lo, hi) = (lo.map(|t| t.konst().map(|v| v as usize)).unwrap_or(Some(0)), hi.map(|t| t.konst().map(|v| v as usize)).unwrap_or(Some(n)));
            match (lo, hi) { (Some(l), Some(h)) => Ok(NR::V(if l <= h && h <= n { some(Val::Slice(p, o + l, h - l)) } else { none() })), _ => unsup("slice range") }
        })),
        "core::slice::<impl [T]>::reverse" => return Some(nat!(|x, st, i, a| { let e = x.elems(st, &a[0])?; let (p, o, _) = x.slice_of(st, &a[0])?; for (k, v) in e.into_iter().rev().enumerate() { x.write(st, &p.field((o + k) as u32), v)?; } Ok(NR::V(unit())) })),
        _ => {}
    }
    if d.contains("std::ops::Index") && (d.ends_with("::index") || d.ends_with("::index_mut")) && (d.contains("std::vec::Vec<T, A>") || d.contains("for [T]>") || d.contains("for [T; N]>")) {
        return Some(nat!(|x, st, i, a| {
            let (p, o, n) = x.slice_of(st, &a[0])?;
            let ty = i.tys.iter().map(ty_name).find(|t| t == "usize" || t.contains("Range")).unwrap_or_default();
            if ty == "usize" {
                let t = x.int(st, &a[1])?;
                let label = format!("no panic: index out of bounds in {}", x.where_(st));
                x.ensure(st, &label, t.bin(Op::Ult, T::c(n as u128, 64)))?;
                let k = x.pick_index(st, &a[1], n)?;
                return Ok(NR::V(Val::Ref(p.field((o + k) as u32))));
            }
            let (lo, hi) = range_of(x, st, &ty, &a[1])?;
            let (lo, hi) = (lo.map(|t| t.konst().map(|v| v as usize)).unwrap_or(Some(0)), hi.map(|t| t.konst().map(|v| v as usize)).unwrap_or(Some(n)));
            match (lo, hi) { (Some(l), Some(h)) => if l <= h && h <= n { Ok(NR::V(Val::Slice(p, o + l, h - l))) } else { Err(Stop::Panic("slice range out of bounds".into())) }, _ => unsup("slice range") }
        }));
    }
    // ---- base iterators ----
    let iters = ["<std::slice::Iter<", "<std::slice::IterMut<", "<std::vec::IntoIter<", "<std::str::Lines", "<std::str::Chars", "<std::str::CharIndices", "<std::str::Split<", "<std::str::SplitN<", "<std::str::SplitTerminator<", "<std::str::SplitInclusive<", "<std::str::RSplit<", "<std::str::RSplitN<", "<std::str::SplitWhitespace", "<std::array::IntoIter<", "<std::slice::Chunks", "<std::slice::Windows<"];
    if iters.iter().any(|p| d.starts_with(p)) {
        if d.ends_with("Iterator>::next") { return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; Ok(NR::V(iter_next(x, st, &p)?)) })); }
        if d.ends_with("Iterator>::next_back") { return Some(nat!(|x, st, i, a| { let p = ptr(&a[0])?; Ok(NR::V(iter_next_back(x, st, &p)?)) })); }
        if d.ends_with("Clone>::clone") { return Some(val!(|x, st, i, a| x.deref(st, &a[0])?)); }
        if d.ends_with("ExactSizeIterator>::len") { return Some(nat!(|x, st, i, a| match x.deref(st, &a[0])? { Val::It(k) => match &*k { It::Slice(_, _, n) => Ok(NR::V(vusize(*n))), It::VecInto(_, i, n) => Ok(NR::V(vusize(n - i))), _ => unsup("len") }, _ => unsup("len") })); }
    }
    if d.ends_with("std::iter::IntoIterator>::into_iter") {
        if d.starts_with("<std::vec::Vec<") { return Some(nat!(|x, st, i, a| match &a[0] { Val::Vec(f) => Ok(NR::V(it(It::VecInto(f.clone(), 0, f.len())))), o => unsup(format!("into_iter of {}", short(o))) })); }
        if d.starts_with("<&std::vec::Vec<") || d.starts_with("<&mut std::vec::Vec<") || d.starts_with("<&[T]") || d.starts_with("<&mut [T]") { return Some(nat!(|x, st, i, a| { let (p, o, n) = x.slice_of(st, &a[0])?; Ok(NR::V(it(It::Slice(p, o, n)))) })); }
    }
    if d.contains("<impl std::iter::IntoIterator for [T; N]>::into_iter") || d.contains("<impl std::iter::IntoIterator for &[T; N]>") || d.contains("<impl std::iter::IntoIterator for &[T]>") || d.contains("<impl std::iter::IntoIterator for &mut [T]>") || d.starts_with("<[T; N] as std::iter::IntoIterator>") || d.starts_with("<&[T; N] as std::iter::IntoIterator") {
        return Some(nat!(|x, st, i, a| match &a[0] { Val::Agg(f) => Ok(NR::V(it(It::VecInto(f.clone(), 0, f.len())))), v => { let (p, o, n) = x.slice_of(st, v)?; Ok(NR::V(it(It::Slice(p, o, n)))) } }));
    }
    // ---- nom on &str ----
    if d.contains("nom::") || n.contains("nom::") {
        if let Some(f) = nom_lookup(info) { return Some(f); }
    }
    None
}

fn starts(st: &mut State, r: &Rope, c: CS) -> Res<bool> {
    let r = st.ss.norm(r);
    let (f, maybe_empty) = st.ss.rope_first(&r);
    if f.disjoint(c) { return Ok(false); }
    if !maybe_empty && f.sub(c) { return Ok(true); }
    match &r[0] {
        Seg::Sym(s) => {
            let inf = st.ss.info(*s).clone();
            if !inf.nonempty { return Err(Stop::Fork(vec![vec![Upd::Subst(*s, lit(""))], vec![Upd::NonEmpty(*s)]])); }
            Err(Stop::Fork(vec![vec![Upd::First(*s, c)], vec![Upd::First(*s, c.inv())]]))
        }
        Seg::Ch(t) => Err(Stop::Fork(vec![vec![Upd::NarrowCh(*t, c)], vec![Upd::NarrowCh(*t, c.inv())]])),
        _ => unsup("first character of a number"),
    }
}

fn nom_lookup(info: &InstInfo) -> Option<NativeFn> {
    let d = info.def.as_str();
    macro_rules! nat { (|$x:ident, $st:ident, $i:ident, $a:ident| $b:expr) => {{ fn f($x: &mut Ex, $st: &mut State, $i: &InstInfo, $a: Vec<Val>) -> Res<NR> { let _ = (&$x, &$st, &$i, &$a); $b } f as NativeFn }} }
    if !(d.contains("&str") || d.contains(" str") || d.contains("for str")) { return None; }
    let m = d.rsplit("::").next().unwrap();
    let tr = d;
    if tr.contains("InputTakeAtPosition") {
        return Some(match m {
            "split_at_position_complete" | "split_at_position" => nat!(|x, st, i, a| {
                let r = x.text(st, &a[0])?;
                let cs = st.ss.rope_cs(&r);
                let stop = eval_pred(x, st, &i.tys[0], &a[1], CS::ALL)?;
                let _ = cs;
                let (p, q) = st.ss.take_while(&r, stop.inv())?;
                if i.def.ends_with("split_at_position") { return unsup("streaming input"); }
                Ok(NR::V(ok(agg(vec![Val::Str(q), Val::Str(p)]))))
            }),
            "split_at_position1_complete" => nat!(|x, st, i, a| {
                let r = x.text(st, &a[0])?;
                let stop = eval_pred(x, st, &i.tys[0], &a[1], CS::ALL)?;
                let (p, q) = st.ss.take_while(&r, stop.inv())?;
                if st.ss.is_empty(&p)? {
                    // Err(Err::Error(E::from_error_kind(input, kind)))
                    let id = model_id(x, "m_nom_error", vec![str_ref_ty(), i.tys[1]])?;
                    return Ok(NR::Call(id, vec![Val::Str(r), a[2].clone(), Val::Agg(Rc::new(vec![Val::Str(q), Val::Str(p)]))]));
                }
                Ok(NR::V(ok(agg(vec![Val::Str(q), Val::Str(p)]))))
            }),
            _ => return None,
        });
    }
    if tr.contains("nom::InputTake>") || tr.contains("nom::InputTake for") || tr.contains("nom::traits::InputTake") {
        return Some(match m {
            "take" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let t = x.int(st, &a[1])?; match st.ss.split_at(&r, t)? { Some((p, _)) => Ok(NR::V(Val::Str(p))), None => Err(Stop::Panic("take on a bad byte index".into())) } }),
            "take_split" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let t = x.int(st, &a[1])?; match st.ss.split_at(&r, t)? { Some((p, q)) => Ok(NR::V(agg(vec![Val::Str(q), Val::Str(p)]))), None => Err(Stop::Panic("take_split on a bad byte index".into())) } }),
            _ => return None,
        });
    }
    Some(match m {
        "compare" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let t = x.text(st, &a[1])?; match rope_is_lit(&t) { Some(l) => { let b = st.ss.strip_prefix(&r, &l)?.is_some(); Ok(NR::V(Val::Enum(if b { 0 } else { 2 }, Rc::new(vec![])))) } None => {
            let (r2, t2) = (st.ss.norm(&r), st.ss.norm(&t));
            if r2.len() >= t2.len() && r2[..t2.len()] == t2[..] { return Ok(NR::V(Val::Enum(0, Rc::new(vec![])))); }
            unsup("tag with a symbolic text") } } }),
        "find_substring" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let t = x.text(st, &a[1])?; match rope_is_lit(&t) { Some(l) => Ok(NR::V(match st.ss.find(&r, &l)? { Some((p, _)) => some(Val::Int(st.ss.len(&p))), None => none() })), None => unsup("take_until with a symbolic text") } }),
        "input_len" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; Ok(NR::V(Val::Int(len_term(x, st, &r)?))) }),
        "iter_elements" => nat!(|x, st, i, a| Ok(NR::V(it(It::Chars(x.text(st, &a[0])?))))),
        "iter_indices" => nat!(|x, st, i, a| Ok(NR::V(it(It::CharIdx(x.text(st, &a[0])?, T::c(0, 64)))))),
        "position" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let cs = eval_pred(x, st, &i.tys[0], &a[1], CS::ALL)?; let (p, q) = st.ss.take_while(&r, cs.inv())?; Ok(NR::V(if st.ss.is_empty(&q)? { none() } else { some(Val::Int(st.ss.len(&p))) })) }),
        "slice_index" => nat!(|x, st, i, a| {
            let r = x.text(st, &a[0])?;
            let k = x.usize_const(st, &a[1])?;
            let mut rest = r.clone();
            for _ in 0..k { match st.ss.uncons(&rest)? { Some((_, q)) => rest = q, None => return Ok(NR::V(err(Val::Enum(0, Rc::new(vec![]))))) } }
            let o = offset(st, &r, &rest)?;
            Ok(NR::V(ok(Val::Int(o))))
        }),
        "offset" => nat!(|x, st, i, a| { let (p, q) = (x.text(st, &a[0])?, x.text(st, &a[1])?); Ok(NR::V(Val::Int(offset(st, &p, &q)?))) }),
        "slice" => nat!(|x, st, i, a| { let r = x.text(st, &a[0])?; let sig = i.inst.ty().kind().fn_sig().unwrap().skip_binder(); let ty = ty_name(&sig.inputs()[1]); let (lo, hi) = range_of(x, st, &ty, &a[1])?; Ok(NR::V(Val::Str(str_slice(st, &r, lo, hi)?))) }),
        _ => return None,
    })
}
