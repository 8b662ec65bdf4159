//! The specification interface. mirv gives these calls their symbolic meaning; compiled
//! natively they read a replay file or draw from a generator.
use rust_decimal::Decimal;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub struct Item { pub kind: u8, pub label: String, pub value: String }
#[derive(Default)]
pub struct Src {
    pub replay: Option<VecDeque<Item>>,
    pub rng: u64,
    pub log: Vec<Item>,
    pub failed: Vec<String>,
    pub checked: u64,
    pub covers: Vec<String>,
    /// texts the generator may use as they are
    pub dict: Vec<String>,
    pub mismatch: bool,
    pub lenient: bool,
}
thread_local! { pub static SRC: RefCell<Src> = RefCell::new(Src::default()); }
pub struct Rejected;

fn next(kind: u8, label: &str, gen: impl FnOnce(&mut Src) -> String) -> String {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        let v = match &mut s.replay {
            Some(q) => match q.pop_front() {
                Some(i) if i.label == label && i.kind == kind => i.value,
                _ if s.lenient => { s.replay = None; gen(&mut s) }
                _ => { s.mismatch = true; drop(s); std::panic::resume_unwind(Box::new(Rejected)) }
            },
            None => gen(&mut s),
        };
        s.log.push(Item { kind, label: label.into(), value: v.clone() });
        v
    })
}
impl Src {
    pub fn start(&mut self, items: Option<Vec<Item>>, lenient: bool, rng: u64, dict: &[String]) {
        self.replay = items.map(|v| v.into());
        self.lenient = lenient;
        self.rng = rng;
        self.log.clear();
        self.failed.clear();
        self.checked = 0;
        self.covers.clear();
        self.mismatch = false;
        if self.dict.len() != dict.len() { self.dict = dict.to_vec(); }
    }
    pub fn r(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: u64) -> u64 { self.r() % n }
    fn int(&mut self) -> i64 {
        match self.below(8) {
            0 => *[0i64, 1, -1, 2, 3, 4, 7, 8, 12, 100, 101, 255, 256, 128, 127].get(self.r() as usize % 15).unwrap(),
            1 => *[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 23, i32::MAX as i64 - 24, i32::MIN as i64 + 24, i32::MIN as i64 + 23, i64::MAX, 4294967295].get(self.r() as usize % 8).unwrap(),
            2 => self.below(40) as i64,
            3 => self.below(300) as i64 - 20,
            4 => 1 << self.below(31),
            5 => self.r() as i32 as i64,
            _ => self.below(16) as i64,
        }
    }
    fn word(&mut self) -> String {
        match self.below(14) {
            0 => String::new(),
            1 | 2 | 3 | 4 => self.int().to_string(),
            5 => format!("{}.{}", self.int() % 1000, self.below(1000)),
            6 => { let n = 1 + self.below(3); (0..n).map(|_| *['a', 'é', ' ', ',', ':', '|', '"', '/', '1', '-', '_', '\t', '[', '$', '=', 'L', '\u{3000}', '漢'].get(self.r() as usize % 18).unwrap()).collect() }
            7 => format!("{}{}", ["+", "0", "-0", " ", "00", "-"][self.r() as usize % 6], self.below(50)),
            8 => ["79228162514264337593543950335", "79228162514264337593543950336", "-79228162514264337593543950335", "1e5", "NaN", ".5", "5.", "1_0", "99999999999999999999999999999999999"][self.r() as usize % 9].into(),
            _ => if self.dict.is_empty() { self.int().to_string() } else { let k = self.r() as usize % self.dict.len(); self.dict[k].clone() },
        }
    }
    fn text(&mut self, allowed: &dyn Fn(char) -> bool) -> String {
        let n = match self.below(6) { 0 => 3, 1 => 2, _ => 1 };
        let mut o = String::new();
        for i in 0..n {
            if i > 0 { o.push_str([",", ":", "|", "\n", " ", "\r\n", ""][self.r() as usize % 7]); }
            o.push_str(&self.word());
        }
        o.chars().filter(|c| allowed(*c)).collect()
    }
}
pub fn any_i32(label: &str) -> i32 { next(1, label, |s| (s.int() as i32).to_string()).parse().unwrap() }
pub fn any_u8(label: &str) -> u8 { next(2, label, |s| ((s.int() & 255) as u8).to_string()).parse().unwrap() }
pub fn any_bool(label: &str) -> bool { next(3, label, |s| (s.below(2)).to_string()) == "1" }
pub fn any_usize(label: &str) -> usize { next(4, label, |s| (s.int().unsigned_abs()).to_string()).parse().unwrap() }
pub fn any_i64(label: &str) -> i64 { next(5, label, |s| s.int().to_string()).parse().unwrap() }
pub fn any_dec(label: &str) -> Decimal {
    next(6, label, |s| match s.below(3) { 0 => s.int().to_string(), 1 => format!("{}.{}", s.int() % 1000, s.below(1000)), _ => ["79228162514264337593543950335", "-79228162514264337593543950335", "0.0000000000000000000000000001", "0"][s.r() as usize % 4].into() }).parse().unwrap()
}
/// any text without the given characters
pub fn any_str_not(label: &str, except: &'static str) -> &'static str {
    let t = next(0, label, |s| s.text(&|c| !except.contains(c)));
    if t.chars().any(|c| except.contains(c)) { assume(false); }
    Box::leak(t.into_boxed_str())
}
/// any text over the given characters
pub fn any_str_of(label: &str, only: &'static str) -> &'static str {
    let t = next(0, label, |s| { let n = s.below(5); let cs: Vec<char> = only.chars().collect(); (0..n).map(|_| cs[s.r() as usize % cs.len()]).collect() });
    if t.chars().any(|c| !only.contains(c)) { assume(false); }
    Box::leak(t.into_boxed_str())
}
/// any number of whole lines: the empty text or a text that ends with a line break. No line has a
/// character of `except` or begins with one of `first`.
pub fn any_lines(label: &str, except: &'static str, first: &'static str) -> &'static str {
    let t = next(0, label, |s| {
        let n = s.below(5);
        (0..n).map(|_| { let l = s.text(&|c| c != '\n' && !except.contains(c)); format!("{}\n", if first_in(&l, first) { String::new() } else { l }) }).collect()
    });
    if !(t.is_empty() || t.ends_with('\n')) || t.chars().any(|c| c != '\n' && except.contains(c)) || t.split('\n').any(|l| first_in(l, first)) { assume(false); }
    Box::leak(t.into_boxed_str())
}
/// equality of lists
pub fn same_list<T: PartialEq>(a: &Vec<T>, b: &Vec<T>) -> bool { a == b }
pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(Rejected)); } }
pub fn ensure(label: &str, c: bool) {
    SRC.with(|s| { let mut s = s.borrow_mut(); s.checked += 1; if !c { s.failed.push(label.into()); } })
}
pub fn cover(label: &str) { SRC.with(|s| s.borrow_mut().covers.push(label.into())); }
pub fn bounded(_label: &str) {}
pub fn debug(_s: &str) {}
/// at most `n` occurrences of `c` in the text (a stated bound on the length of lists)
pub fn at_most(s: &str, c: char, n: usize) { assume(s.matches(c).count() <= n) }

pub fn has_char(s: &str, set: &str) -> bool { s.chars().any(|c| set.contains(c)) }
pub fn first_in(s: &str, set: &str) -> bool { s.chars().next().map_or(false, |c| set.contains(c)) }
pub fn last_in(s: &str, set: &str) -> bool { s.chars().next_back().map_or(false, |c| set.contains(c)) }

use osu_file_parser::osu_file::{VersionedFromStr, VersionedToString};
/// The contract of a type's parser and printer as its callers may use it. `codec_proof::<T>()`
/// proves it on the real code; after `use_codec::<T>()` mirv replaces calls of the type's
/// `from_str`, `to_string`, `clone` and equality by it.
pub trait Codec: VersionedFromStr + VersionedToString + PartialEq + Clone {
    /// characters that no printed text contains / starts with / ends with
    const PRINTED_NOT: &'static str;
    const FIRST_NOT: &'static str = "";
    const LAST_NOT: &'static str = "";
    /// characters that no accepted text contains
    const ACCEPTS_NOT: &'static str = "";
    /// characters that callers must keep out of the text for the contract to apply
    const PRE_NOT: &'static str = "";
    /// characters that the text must not begin with
    const PRE_FIRST_NOT: &'static str = "";
    const NONEMPTY: bool = true;
    /// first version that prints the value
    const FROM: u8 = 0;
    /// last version that prints the value
    const UNTIL: u8 = 255;
    /// the separator of the elements of a list
    const LIST: Option<char> = None;
    /// every text is accepted
    const TOTAL: bool = false;
    /// `same` is equality
    const EXACT: bool = true;
    const EXAMPLES: &'static [&'static str];
    /// equality of what the text of the version carries
    fn same(a: &Self, b: &Self, _v: u8) -> bool { *a == *b }
}
fn for_lists(s: &str, sep: Option<char>) {
    if let Some(c) = sep { at_most(s, c, 2); bounded("lists in a value have at most 3 items"); }
}
pub fn codec_proof<T: Codec>() {
    let v = any_u8("version");
    assume(v >= 3 && v <= 14);
    let s = any_str_not("text", T::PRE_NOT);
    assume(!first_in(s, T::PRE_FIRST_NOT));
    for_lists(s, T::LIST);
    match T::from_str(s, v) {
        Err(_) => if T::TOTAL { ensure("every text is accepted", false) },
        Ok(None) => ensure("the type exists in every version", false),
        Ok(Some(x)) => {
            cover("accepted");
            ensure("accepted texts have no excluded character", !has_char(s, T::ACCEPTS_NOT));
            let y = x.clone();
            ensure("a clone is equal", y == x);
            let t = x.to_string(v);
            ensure("the type is printed in exactly its versions", t.is_some() == (v >= T::FROM && v <= T::UNTIL));
            if let Some(t) = t {
                ensure("printed texts have no excluded character", !has_char(&t, T::PRINTED_NOT));
                if T::NONEMPTY { ensure("printed text is not empty", !t.is_empty()); }
                if !T::FIRST_NOT.is_empty() { ensure("first character of the printed text", !first_in(&t, T::FIRST_NOT)); }
                if !T::LAST_NOT.is_empty() { ensure("last character of the printed text", !last_in(&t, T::LAST_NOT)); }
                match T::from_str(&t, v) {
                    Ok(Some(y)) => {
                        ensure("printed text parses back to the same value", T::same(&x, &y, v));
                        ensure("printed text is a fixed point", match y.to_string(v) { Some(u) => u == t, None => false });
                    }
                    _ => ensure("printed text is accepted", false),
                }
            }
        }
    }
}
pub fn use_codec<T: Codec>() { use_codec_raw::<T>(T::PRINTED_NOT, T::FIRST_NOT, T::LAST_NOT, T::ACCEPTS_NOT, T::NONEMPTY, T::FROM, T::EXACT, T::EXAMPLES, T::PRE_NOT, false, T::PRE_FIRST_NOT, T::UNTIL, T::TOTAL) }
/// From here on mirv takes the parser of the section `T` as an unknown function of its text and the
/// version (with its errors on one of the text's lines), and its printer as an unknown function of
/// the value and the version: whatever is then proved holds for any such functions.
pub fn use_pure<T>(from: u8, examples: &'static [&'static str]) { use_codec_raw::<T>("", "", "", "", false, from, true, examples, "", true, "", 255, false) }
/// From here on the parser of the type `T` is an unknown function of its text and the version: any
/// text may be accepted or rejected, and its values are equal only to themselves.
pub fn use_line<T>(examples: &'static [&'static str]) { use_codec_raw::<T>("", "", "", "", false, 0, true, examples, "", false, "", 255, false) }
/// The same, with errors of any kind of the error type.
pub fn use_line_errors<T: osu_file_parser::osu_file::VersionedFromStr>(examples: &'static [&'static str]) { use_codec_errs::<T, T::Err>("", "", "", "", false, 0, true, examples, "", false, "", 255, false) }
pub fn use_codec_errs<T, E>(_: &'static str, _: &'static str, _: &'static str, _: &'static str, _: bool, _: u8, _: bool, _: &'static [&'static str], _: &'static str, _: bool, _: &'static str, _: u8, _: bool) {}
pub fn use_codec_raw<T>(_: &'static str, _: &'static str, _: &'static str, _: &'static str, _: bool, _: u8, _: bool, _: &'static [&'static str], _: &'static str, _: bool, _: &'static str, _: u8, _: bool) {}
