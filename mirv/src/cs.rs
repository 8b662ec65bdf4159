//! Character sets: ASCII exactly, the rest of Unicode by classes.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct CS { pub a: u128, pub n: u16 }

/// one representative per class of non-ASCII characters
pub const REPS: [char; 12] = [
    '\u{85}',   // 0: 2 bytes, whitespace, control
    '\u{a0}',   // 1: 2 bytes, whitespace
    '\u{2003}', // 2: 3 bytes, whitespace
    'é',        // 3: 2 bytes, lower case
    'É',        // 4: 2 bytes, upper case
    '\u{663}',  // 5: 2 bytes, decimal digit (numeric)
    '½',        // 6: 2 bytes, numeric, not a digit
    'あ',       // 7: 3 bytes, alphabetic
    '€',        // 8: 3 bytes, symbol
    '\u{feff}', // 9: byte order mark
    '😀',       // 10: 4 bytes
    '§',        // 11: 2 bytes, symbol
];

pub fn class_of(c: char) -> usize {
    if let Some(i) = REPS.iter().position(|r| *r == c) { return i; }
    let l = c.len_utf8();
    if c.is_whitespace() { return if c == '\u{85}' { 0 } else if l == 2 { 1 } else { 2 }; }
    if l == 4 { return 10; }
    if l == 3 { return if c.is_alphabetic() { 7 } else { 8 }; }
    if c.is_numeric() { return if c.to_digit(10).is_some() || matches!(c, '\u{660}'..='\u{669}') { 5 } else { 6 }; }
    if c.is_lowercase() { return 3; }
    if c.is_uppercase() { return 4; }
    11
}

impl CS {
    pub const ALL: CS = CS { a: u128::MAX, n: 0xfff };
    pub const NONE: CS = CS { a: 0, n: 0 };
    pub const ASCII: CS = CS { a: u128::MAX, n: 0 };
    pub fn one(c: char) -> CS {
        if (c as u32) < 128 { CS { a: 1u128 << (c as u32), n: 0 } } else { CS { a: 0, n: 1 << class_of(c) } }
    }
    pub fn of(s: &str) -> CS { s.chars().fold(CS::NONE, |x, c| x.or(CS::one(c))) }
    pub fn and(self, o: CS) -> CS { CS { a: self.a & o.a, n: self.n & o.n } }
    pub fn or(self, o: CS) -> CS { CS { a: self.a | o.a, n: self.n | o.n } }
    pub fn inv(self) -> CS { CS { a: !self.a, n: !self.n & 0xfff } }
    pub fn minus(self, o: CS) -> CS { self.and(o.inv()) }
    pub fn is_none(self) -> bool { self.a == 0 && self.n == 0 }
    pub fn sub(self, o: CS) -> bool { self.minus(o).is_none() }
    pub fn disjoint(self, o: CS) -> bool { self.and(o).is_none() }
    /// is membership of this character decided exactly by the set?
    pub fn has(self, c: char) -> bool { !self.and(CS::one(c)).is_none() }
    /// a single concrete character, if the set is exactly one
    pub fn single(self) -> Option<char> {
        if self.n == 0 && self.a.count_ones() == 1 { return char::from_u32(self.a.trailing_zeros()); }
        if self.a == 0 && self.n == 1 << 9 { return Some('\u{feff}'); }
        if self.a == 0 && self.n == 1 << 0 { return Some('\u{85}'); }
        None
    }
    pub fn reps(self) -> Vec<char> {
        let mut v = vec![];
        for i in 0..128u32 { if self.a >> i & 1 == 1 { v.push(char::from_u32(i).unwrap()); } }
        for i in 0..12 { if self.n >> i & 1 == 1 { v.push(REPS[i]); } }
        v
    }
    pub fn ascii_only(self) -> bool { self.n == 0 }
    pub fn ws() -> CS { CS::ALL.filter(|c| c.is_whitespace()) }
    pub fn filter(self, f: impl Fn(char) -> bool) -> CS {
        self.reps().into_iter().filter(|c| f(*c)).fold(CS::NONE, |x, c| x.or(CS::one(c)))
    }
    pub fn digits() -> CS { CS { a: 0x3ff << 48, n: 0 } }
    pub fn intchars() -> CS { CS::digits().or(CS::of("+-")) }
    pub fn decchars() -> CS { CS::digits().or(CS::of("+-._")) }
}
