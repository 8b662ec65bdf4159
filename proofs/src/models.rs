//! Contracts of library functions written as code that mirv executes in their place.
use std::fmt::{Display, Formatter};
use std::ops::Try;

pub fn m_display<T: Display + ?Sized>(x: &T, f: &mut Formatter<'_>) -> std::fmt::Result { x.fmt(f) }

pub fn m_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v
}
pub fn m_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(x); }
}
pub fn m_string_from_iter<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push_str(&x); }
    s
}
pub fn m_str_from_iter<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push_str(x); }
    s
}
pub fn m_char_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push(x); }
    s
}
pub fn m_slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s.iter() { if *y == *x { return true; } }
    false
}
pub fn m_slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub fn m_slice_ne<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool { !m_slice_eq(a, b) }
pub fn m_vec_clone<T: Clone>(v: &[T]) -> Vec<T> {
    let mut o = Vec::new();
    for x in v.iter() { o.push(x.clone()); }
    o
}
pub fn m_nom_error<I, E: nom::error::ParseError<I>>(input: I, kind: nom::error::ErrorKind, _split: (I, I)) -> nom::IResult<I, I, E> {
    Err(nom::Err::Error(E::from_error_kind(input, kind)))
}
pub fn m_iter_fold<S: Iterator, B, F: FnMut(B, S::Item) -> B>(mut it: S, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn m_iter_try_fold<S: Iterator, B, F: FnMut(B, S::Item) -> R, R: Try<Output = B>>(it: &mut S, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; }
    R::from_output(acc)
}
pub fn m_iter_any<S: Iterator, F: FnMut(S::Item) -> bool>(it: &mut S, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn m_iter_all<S: Iterator, F: FnMut(S::Item) -> bool>(it: &mut S, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn m_iter_position<S: Iterator, F: FnMut(S::Item) -> bool>(it: &mut S, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn m_iter_rposition<S: DoubleEndedIterator + ExactSizeIterator, F: FnMut(S::Item) -> bool>(it: &mut S, mut f: F) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } }
    None
}
pub fn m_iter_find<S: Iterator, F: FnMut(&S::Item) -> bool>(it: &mut S, mut f: F) -> Option<S::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn m_iter_find_map<S: Iterator, B, F: FnMut(S::Item) -> Option<B>>(it: &mut S, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn m_iter_for_each<S: Iterator, F: FnMut(S::Item)>(mut it: S, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn m_iter_count<S: Iterator>(mut it: S) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn m_iter_last<S: Iterator>(mut it: S) -> Option<S::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
pub fn m_iter_nth<S: Iterator>(it: &mut S, n: usize) -> Option<S::Item> {
    let mut i = 0;
    while i < n { match it.next() { Some(_) => i += 1, None => return None } }
    it.next()
}
pub fn m_iter_nth_back<S: DoubleEndedIterator>(it: &mut S, n: usize) -> Option<S::Item> {
    let mut i = 0;
    while i < n { match it.next_back() { Some(_) => i += 1, None => return None } }
    it.next_back()
}
pub fn m_iter_size_hint<S: Iterator>(_it: &S) -> (usize, Option<usize>) { (0, None) }
pub fn m_iter_advance_by<S: Iterator>(it: &mut S, n: usize) -> Result<(), std::num::NonZero<usize>> {
    let mut i = 0;
    while i < n { match it.next() { Some(_) => i += 1, None => return match std::num::NonZero::new(n - i) { Some(k) => Err(k), None => Ok(()) } } }
    Ok(())
}

pub fn m_vec_extend_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) { for x in s.iter() { v.push(x.clone()); } }
pub fn m_vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { v.truncate(n); while v.len() < n { v.push(x.clone()); } }
pub fn m_vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() { if f(&v[i]) { i += 1; } else { v.remove(i); } }
}
pub fn m_vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() { if v[i] == v[i - 1] { v.remove(i); } else { i += 1; } }
}
pub fn m_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j], &v[j - 1]) == std::cmp::Ordering::Less { v.swap(j, j - 1); j -= 1; }
        i += 1;
    }
}
pub fn m_sort<T: Ord>(v: &mut [T]) { m_sort_by(v, |a, b| a.cmp(b)) }
pub fn m_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) { m_sort_by(v, |a, b| f(a).cmp(&f(b))) }
pub fn m_slice_starts<T: PartialEq>(a: &[T], b: &[T]) -> bool { a.len() >= b.len() && m_slice_eq(&a[..b.len()], b) }
pub fn m_slice_ends<T: PartialEq>(a: &[T], b: &[T]) -> bool { a.len() >= b.len() && m_slice_eq(&a[a.len() - b.len()..], b) }
pub fn m_parse_bool(s: &str) -> Result<bool, std::str::ParseBoolError> {
    if s == "true" { Ok(true) } else if s == "false" { Ok(false) } else { m_bool_err() }
}
/// the only error value of the type
fn m_bool_err() -> Result<bool, std::str::ParseBoolError> { Err(m_opaque()) }
pub fn m_opaque<T>() -> T { unreachable!() }

// paths are their texts
pub fn m_path_file_name(p: &str) -> Option<&str> {
    let mut p = p.trim_end_matches('/');
    while let Some(q) = p.strip_suffix("/.") { p = q.trim_end_matches('/'); }
    let n = match p.rsplit_once('/') { Some((_, n)) => n, None => p };
    if n == "" || n == "." || n == ".." { None } else { Some(n) }
}
pub fn m_path_extension(p: &str) -> Option<&str> {
    match m_path_file_name(p) {
        Some(n) => match n.rsplit_once('.') { Some((b, e)) if b != "" => Some(e), _ => None },
        None => None,
    }
}
pub fn m_path_file_stem(p: &str) -> Option<&str> {
    match m_path_file_name(p) {
        Some(n) => match n.rsplit_once('.') { Some((b, _)) if b != "" => Some(b), _ => Some(n) },
        None => None,
    }
}
pub fn m_path_is_absolute(p: &str) -> bool { p.starts_with('/') }
pub fn m_path_is_relative(p: &str) -> bool { !p.starts_with('/') }
pub fn m_empty() -> &'static str { "" }

// Sets and maps: the list of their elements. (The order of iteration is not modelled.)
pub fn m_set_insert<T: PartialEq>(s: &mut Vec<T>, x: T) -> bool {
    for y in s.iter() { if *y == x { return false; } }
    s.push(x);
    true
}
pub fn m_set_contains<T: std::borrow::Borrow<Q>, Q: PartialEq + ?Sized>(s: &Vec<T>, x: &Q) -> bool {
    for y in s.iter() { if y.borrow() == x { return true; } }
    false
}
pub fn m_set_remove<T: std::borrow::Borrow<Q>, Q: PartialEq + ?Sized>(s: &mut Vec<T>, x: &Q) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i].borrow() == x { s.remove(i); return true; }
        i += 1;
    }
    false
}
pub fn m_map_insert<K: PartialEq, V>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> {
    let mut i = 0;
    while i < m.len() {
        if m[i].0 == k { return Some(std::mem::replace(&mut m[i].1, v)); }
        i += 1;
    }
    m.push((k, v));
    None
}
pub fn m_map_get<'a, K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &'a Vec<(K, V)>, k: &Q) -> Option<&'a V> {
    for e in m.iter() { if e.0.borrow() == k { return Some(&e.1); } }
    None
}
pub fn m_map_get_mut<'a, K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &'a mut Vec<(K, V)>, k: &Q) -> Option<&'a mut V> {
    let mut i = 0;
    while i < m.len() {
        if m[i].0.borrow() == k { return Some(&mut m[i].1); }
        i += 1;
    }
    None
}
pub fn m_map_contains<K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> bool {
    for e in m.iter() { if e.0.borrow() == k { return true; } }
    false
}
pub fn m_map_remove<K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &mut Vec<(K, V)>, k: &Q) -> Option<V> {
    let mut i = 0;
    while i < m.len() {
        if m[i].0.borrow() == k { return Some(m.remove(i).1); }
        i += 1;
    }
    None
}
pub fn m_set_from_iter<T: PartialEq, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut s = Vec::new();
    for x in it { m_set_insert(&mut s, x); }
    s
}
pub fn m_map_from_iter<K: PartialEq, V, I: IntoIterator<Item = (K, V)>>(it: I) -> Vec<(K, V)> {
    let mut s = Vec::new();
    for (k, v) in it { m_map_insert(&mut s, k, v); }
    s
}
pub fn m_coll_len<T>(s: &Vec<T>) -> usize { s.len() }
pub fn m_coll_empty<T>(s: &Vec<T>) -> bool { s.is_empty() }
pub fn m_coll_new<T>() -> Vec<T> { Vec::new() }
pub fn m_coll_clear<T>(s: &mut Vec<T>) { s.clear() }
pub fn m_deque_push_back<T>(s: &mut Vec<T>, x: T) { s.push(x) }
pub fn m_deque_push_front<T>(s: &mut Vec<T>, x: T) { s.insert(0, x) }
pub fn m_deque_pop_back<T>(s: &mut Vec<T>) -> Option<T> { s.pop() }
pub fn m_deque_pop_front<T>(s: &mut Vec<T>) -> Option<T> { if s.is_empty() { None } else { Some(s.remove(0)) } }
