//! Hash-consed SMT terms: booleans, bit vectors and reals.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, BAnd, BOr,
    // reals
    RAdd, RSub, RMul, RDiv, RLt, RLe,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    /// bit vector or boolean constant
    C(u128),
    /// real constant: mantissa / 10^scale
    R(i128, u32),
    /// free variable
    V(u32),
    /// byte length of string symbol
    StrLen(u32),
    /// char length of string symbol
    ChrLen(u32),
    /// number of line breaks in a string symbol
    NlCnt(u32),
    Bin(Op, T, T),
    BNot(T),
    Not(T),
    Neg(T),
    Ite(T, T, T),
    Zext(T),
    Sext(T),
    Trunc(T),
    /// signed integer to real
    S2R(T),
    /// unsigned integer to real
    U2R(T),
    /// uninterpreted real function of real arguments (opaque decimal operation)
    UF(u32, T, T),
}

/// Width 0 = Bool, 1..=128 bit vector, REAL = real
pub const REAL: u16 = 999;

struct Arena {
    nodes: Vec<(Node, u16, bool)>, // node, width, has string/char dependent leaves
    map: HashMap<(Node, u16), T>,
    nvars: u32,
    charvars: Vec<bool>,
}

thread_local! {
    static A: RefCell<Arena> = RefCell::new(Arena{nodes: vec![], map: HashMap::new(), nvars: 0, charvars: vec![]});
}

fn mk(n: Node, w: u16) -> T {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(t) = a.map.get(&(n, w)) {
            return *t;
        }
        let dep = match n {
            Node::C(_) | Node::R(..) => false,
            Node::V(v) => a.charvars[v as usize],
            Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => true,
            Node::Bin(_, x, y) | Node::UF(_, x, y) => a.nodes[x.0 as usize].2 || a.nodes[y.0 as usize].2,
            Node::BNot(x) | Node::Not(x) | Node::Neg(x) | Node::Zext(x) | Node::Sext(x) | Node::Trunc(x) | Node::S2R(x) | Node::U2R(x) => a.nodes[x.0 as usize].2,
            Node::Ite(x, y, z) => a.nodes[x.0 as usize].2 || a.nodes[y.0 as usize].2 || a.nodes[z.0 as usize].2,
        };
        let t = T(a.nodes.len() as u32);
        a.nodes.push((n, w, dep));
        a.map.insert((n, w), t);
        t
    })
}

pub fn mask(w: u16) -> u128 {
    if w == 0 { 1 } else if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}

impl T {
    pub fn node(self) -> Node { A.with(|a| a.borrow().nodes[self.0 as usize].0) }
    pub fn w(self) -> u16 { A.with(|a| a.borrow().nodes[self.0 as usize].1) }
    pub fn dep(self) -> bool { A.with(|a| a.borrow().nodes[self.0 as usize].2) }
    pub fn c(v: u128, w: u16) -> T { mk(Node::C(v & mask(w)), w) }
    pub fn b(v: bool) -> T { mk(Node::C(v as u128), 0) }
    pub fn real(m: i128, scale: u32) -> T { mk(Node::R(m, scale), REAL) }
    pub fn var(w: u16) -> T {
        let id = A.with(|a| { let mut a = a.borrow_mut(); a.nvars += 1; a.charvars.push(false); a.nvars - 1 });
        mk(Node::V(id), w)
    }
    /// variable standing for one character; its value is constrained by a character set held in the state
    pub fn charvar() -> T {
        let id = A.with(|a| { let mut a = a.borrow_mut(); a.nvars += 1; a.charvars.push(true); a.nvars - 1 });
        mk(Node::V(id), 32)
    }
    pub fn is_charvar(self) -> bool {
        if let Node::V(v) = self.node() { A.with(|a| a.borrow().charvars[v as usize]) } else { false }
    }
    pub fn strlen(sym: u32) -> T { mk(Node::StrLen(sym), 64) }
    pub fn chrlen(sym: u32) -> T { mk(Node::ChrLen(sym), 64) }
    pub fn nlcnt(sym: u32) -> T { mk(Node::NlCnt(sym), 64) }
    pub fn konst(self) -> Option<u128> { if let Node::C(v) = self.node() { Some(v) } else { None } }
    pub fn kbool(self) -> Option<bool> { self.konst().map(|v| v != 0) }
    pub fn ksigned(self) -> Option<i128> { self.konst().map(|v| sext128(v, self.w())) }

    pub fn bnot(self) -> T {
        match self.node() {
            Node::C(v) => T::b(v == 0),
            Node::BNot(x) => x,
            _ => mk(Node::BNot(self), 0),
        }
    }
    pub fn band(self, o: T) -> T {
        match (self.kbool(), o.kbool()) {
            (Some(false), _) | (_, Some(false)) => T::b(false),
            (Some(true), _) => o,
            (_, Some(true)) => self,
            _ => if self == o { self } else if self.bnot() == o { T::b(false) } else { mk(Node::Bin(Op::BAnd, self, o), 0) },
        }
    }
    pub fn bor(self, o: T) -> T {
        match (self.kbool(), o.kbool()) {
            (Some(true), _) | (_, Some(true)) => T::b(true),
            (Some(false), _) => o,
            (_, Some(false)) => self,
            _ => if self == o { self } else if self.bnot() == o { T::b(true) } else { mk(Node::Bin(Op::BOr, self, o), 0) },
        }
    }
    pub fn teq(self, o: T) -> T {
        if self == o { return T::b(true); }
        let w = self.w();
        if w == REAL {
            if let (Node::R(a, s), Node::R(b, t)) = (self.node(), o.node()) {
                return T::b(rcmp(a, s, b, t) == std::cmp::Ordering::Equal);
            }
            // integer-valued reals
            match (self.node(), o.node()) {
                (Node::S2R(a), Node::S2R(b)) if a.w() == b.w() => return a.teq(b),
                (Node::U2R(a), Node::U2R(b)) if a.w() == b.w() => return a.teq(b),
                _ => {}
            }
            if let (Some((b1, m1, s1)), Some((b2, m2, s2))) = (rsplit(self), rsplit(o)) {
                if b1 == b2 && (m1 != 0 || m2 != 0) {
                    return T::b(rcmp(m1, s1, m2, s2) == std::cmp::Ordering::Equal);
                }
            }
            let (a, b) = if self < o { (self, o) } else { (o, self) };
            return mk(Node::Bin(Op::Eq, a, b), 0);
        }
        if w == 0 {
            match (self.kbool(), o.kbool()) {
                (Some(a), Some(b)) => return T::b(a == b),
                (Some(true), _) => return o,
                (Some(false), _) => return o.bnot(),
                (_, Some(true)) => return self,
                (_, Some(false)) => return self.bnot(),
                _ => {
                    if self.bnot() == o { return T::b(false); }
                }
            }
        } else {
            let (x, k) = match (self.konst(), o.konst()) {
                (Some(a), Some(b)) => return T::b(a == b),
                (Some(a), None) => (o, Some(a)),
                (None, Some(b)) => (self, Some(b)),
                _ => (self, None),
            };
            if let Some(k) = k {
                match x.node() {
                    Node::Zext(y) => {
                        if k & !mask(y.w()) != 0 { return T::b(false); }
                        if y.w() == 0 { return if k == 1 { y } else { y.bnot() }; }
                        return y.teq(T::c(k, y.w()));
                    }
                    Node::Sext(y) => {
                        let back = sext128(k & mask(y.w()), y.w()) as u128 & mask(w);
                        if back != k { return T::b(false); }
                        return y.teq(T::c(k, y.w()));
                    }
                    Node::Ite(c, a, b) => {
                        if let (Some(va), Some(vb)) = (a.konst(), b.konst()) {
                            return match (va == k, vb == k) {
                                (true, true) => T::b(true),
                                (true, false) => c,
                                (false, true) => c.bnot(),
                                _ => T::b(false),
                            };
                        }
                    }
                    Node::Bin(Op::Add, a, b) => {
                        if let Some(kb) = b.konst() { return a.teq(T::c(k.wrapping_sub(kb), w)); }
                    }
                    Node::Bin(Op::Sub, a, b) => {
                        if let Some(kb) = b.konst() { return a.teq(T::c(k.wrapping_add(kb), w)); }
                    }
                    _ => {}
                }
            } else {
                match (self.node(), o.node()) {
                    (Node::Zext(a), Node::Zext(b)) | (Node::Sext(a), Node::Sext(b)) if a.w() == b.w() => return a.teq(b),
                    _ => {}
                }
            }
        }
        let (a, b) = if self < o { (self, o) } else { (o, self) };
        mk(Node::Bin(Op::Eq, a, b), 0)
    }
    pub fn tne(self, o: T) -> T { self.teq(o).bnot() }
    pub fn ite(self, a: T, b: T) -> T {
        match self.kbool() {
            Some(true) => a,
            Some(false) => b,
            None => {
                if a == b { return a; }
                if a.w() == 0 {
                    match (a.kbool(), b.kbool()) {
                        (Some(true), Some(false)) => return self,
                        (Some(false), Some(true)) => return self.bnot(),
                        (Some(true), None) => return self.bor(b),
                        (Some(false), None) => return self.bnot().band(b),
                        (None, Some(true)) => return self.bnot().bor(a),
                        (None, Some(false)) => return self.band(a),
                        _ => {}
                    }
                }
                let w = a.w();
                mk(Node::Ite(self, a, b), w)
            }
        }
    }
    pub fn not(self) -> T {
        if self.w() == 0 { return self.bnot(); }
        match self.node() {
            Node::C(v) => T::c(!v, self.w()),
            Node::Not(x) => x,
            _ => mk(Node::Not(self), self.w()),
        }
    }
    pub fn neg(self) -> T {
        match self.node() {
            Node::C(v) => T::c(v.wrapping_neg(), self.w()),
            Node::R(m, s) => T::real(-m, s),
            _ => if self.w() == REAL { T::real(0, 0).bin(Op::RSub, self) } else { mk(Node::Neg(self), self.w()) },
        }
    }
    pub fn zext(self, w: u16) -> T {
        let sw = self.w();
        if sw == w { return self; }
        match self.node() {
            Node::C(v) => T::c(v, w),
            Node::Zext(x) => x.zext(w),
            _ => mk(Node::Zext(self), w),
        }
    }
    pub fn sext(self, w: u16) -> T {
        let sw = self.w();
        if sw == w { return self; }
        match self.node() {
            Node::C(v) => T::c(sext128(v, sw) as u128, w),
            Node::Sext(x) => x.sext(w),
            Node::Zext(x) => x.zext(w),
            _ => mk(Node::Sext(self), w),
        }
    }
    pub fn trunc(self, w: u16) -> T {
        let sw = self.w();
        if sw == w { return self; }
        match self.node() {
            Node::C(v) => T::c(v, w),
            Node::Zext(x) => if x.w() <= w { x.zext(w) } else { x.trunc(w) },
            Node::Sext(x) => if x.w() <= w { x.sext(w) } else { x.trunc(w) },
            Node::Trunc(x) => x.trunc(w),
            _ => mk(Node::Trunc(self), w),
        }
    }
    pub fn s2r(self) -> T {
        if let Some(v) = self.ksigned() { return T::real(v, 0); }
        mk(Node::S2R(self), REAL)
    }
    pub fn u2r(self) -> T {
        if let Some(v) = self.konst() { return T::real(v as i128, 0); }
        mk(Node::U2R(self), REAL)
    }
    pub fn uf(f: u32, a: T, b: T) -> T { mk(Node::UF(f, a, b), REAL) }

    pub fn bin(self, op: Op, o: T) -> T {
        use Op::*;
        let w = self.w();
        match op {
            Eq => return self.teq(o),
            BAnd => return self.band(o),
            BOr => return self.bor(o),
            _ => {}
        }
        if w == 0 {
            match op {
                And => return self.band(o),
                Or => return self.bor(o),
                Xor => return self.teq(o).bnot(),
                Ult => return self.bnot().band(o),
                Ule => return self.bnot().bor(o),
                _ => {}
            }
        }
        if w == REAL {
            if let (Node::R(a, s), Node::R(b, t)) = (self.node(), o.node()) {
                let m = s.max(t);
                let (Some(x), Some(y)) = (10i128.checked_pow(m - s).and_then(|p| a.checked_mul(p)), 10i128.checked_pow(m - t).and_then(|p| b.checked_mul(p))) else {
                    return mk(Node::Bin(op, self, o), if matches!(op, RLt | RLe) { 0 } else { REAL });
                };
                match op {
                    RAdd => return T::real(x + y, m),
                    RSub => return T::real(x - y, m),
                    RLt => return T::b(x < y),
                    RLe => return T::b(x <= y),
                    RMul => if let Some(p) = a.checked_mul(b) { return T::real(p, s + t); },
                    _ => {}
                }
            }
            match op {
                RAdd | RSub => {
                    // normalise to base + constant
                    if let Node::R(k, s) = o.node() {
                        let k = if op == RSub { -k } else { k };
                        if k == 0 && s == 0 { return self; }
                        if let Some((base, m, t)) = rsplit(self) {
                            let mm = s.max(t);
                            let tot = m * 10i128.pow(mm - t) + k * 10i128.pow(mm - s);
                            if tot == 0 { return base; }
                            return mk(Node::Bin(RAdd, base, T::real(tot, mm)), REAL);
                        }
                        return mk(Node::Bin(RAdd, self, T::real(k, s)), REAL);
                    }
                }
                RLe if self == o => return T::b(true),
                RLt if self == o => return T::b(false),
                _ => {}
            }
            return mk(Node::Bin(op, self, o), if matches!(op, RLt | RLe) { 0 } else { REAL });
        }
        let m = mask(w);
        if let (Some(a), Some(b)) = (self.konst(), o.konst()) {
            let sa = sext128(a, w);
            let sb = sext128(b, w);
            let r = match op {
                Add => a.wrapping_add(b),
                Sub => a.wrapping_sub(b),
                Mul => a.wrapping_mul(b),
                UDiv => if b == 0 { m } else { a / b },
                URem => if b == 0 { a } else { a % b },
                SDiv => if b == 0 { if sa < 0 { 1 } else { m } } else { sa.wrapping_div(sb) as u128 },
                SRem => if b == 0 { a } else { sa.wrapping_rem(sb) as u128 },
                And => a & b,
                Or => a | b,
                Xor => a ^ b,
                Shl => if b >= w as u128 { 0 } else { a << b },
                LShr => if b >= w as u128 { 0 } else { a >> b },
                AShr => if b >= w as u128 { (sa >> 127) as u128 } else { (sa >> b) as u128 },
                Ult => return T::b(a < b),
                Ule => return T::b(a <= b),
                Slt => return T::b(sa < sb),
                Sle => return T::b(sa <= sb),
                _ => unreachable!(),
            };
            return T::c(r, w);
        }
        // identities
        let kb = o.konst();
        let ka = self.konst();
        match op {
            Add => {
                if ka == Some(0) { return o; }
                if kb == Some(0) { return self; }
                if ka.is_some() { return o.bin(Add, self); }
                if let (Some(k), Node::Bin(Add, x, y)) = (kb, self.node()) {
                    if let Some(k2) = y.konst() { return x.bin(Add, T::c(k.wrapping_add(k2), w)); }
                }
                // canonical left-assoc ordering for sums of lengths
            }
            Sub => {
                if kb == Some(0) { return self; }
                if self == o { return T::c(0, w); }
                if let Some(k) = kb { return self.bin(Add, T::c(k.wrapping_neg(), w)); }
                if let Node::Bin(Add, x, y) = self.node() {
                    if x == o { return y; }
                    if y == o { return x; }
                }
            }
            Mul => {
                if ka == Some(0) || kb == Some(0) { return T::c(0, w); }
                if ka == Some(1) { return o; }
                if kb == Some(1) { return self; }
            }
            And => {
                if ka == Some(0) || kb == Some(0) { return T::c(0, w); }
                if ka == Some(m) { return o; }
                if kb == Some(m) || self == o { return self; }
            }
            Or => {
                if ka == Some(0) || self == o { return o; }
                if kb == Some(0) { return self; }
            }
            Xor => {
                if ka == Some(0) { return o; }
                if kb == Some(0) { return self; }
                if self == o { return T::c(0, w); }
            }
            Shl | LShr | AShr => {
                if kb == Some(0) { return self; }
            }
            Ult => {
                if self == o || kb == Some(0) { return T::b(false); }
                if let (Node::Zext(x), Some(k)) = (self.node(), kb) { if k > mask(x.w()) { return T::b(true); } }
                if let Some(k) = kb { if k == 1 { return self.teq(T::c(0, w)); } }
            }
            Ule => {
                if self == o || ka == Some(0) || kb == Some(m) { return T::b(true); }
                if let (Node::Zext(x), Some(k)) = (self.node(), kb) { if k >= mask(x.w()) { return T::b(true); } }
            }
            Slt => if self == o { return T::b(false); },
            Sle => if self == o { return T::b(true); },
            _ => {}
        }
        let rw = if matches!(op, Ult | Ule | Slt | Sle) { 0 } else { w };
        mk(Node::Bin(op, self, o), rw)
    }

    /// rebuild with substitution on leaves
    pub fn map_leaves(self, f: &mut dyn FnMut(T) -> Option<T>, memo: &mut HashMap<T, T>) -> T {
        if !self.dep() { return self; }
        if let Some(r) = memo.get(&self) { return *r; }
        let w = self.w();
        let r = match self.node() {
            Node::C(_) | Node::R(..) => self,
            Node::V(_) | Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => match f(self) {
                Some(t) => if t == self { t } else { t.map_leaves(f, memo) },
                None => self,
            },
            Node::Bin(op, a, b) => { let a = a.map_leaves(f, memo); let b = b.map_leaves(f, memo); a.bin(op, b) }
            Node::UF(op, a, b) => { let a = a.map_leaves(f, memo); let b = b.map_leaves(f, memo); T::uf(op, a, b) }
            Node::BNot(a) => a.map_leaves(f, memo).bnot(),
            Node::Not(a) => a.map_leaves(f, memo).not(),
            Node::Neg(a) => a.map_leaves(f, memo).neg(),
            Node::Zext(a) => a.map_leaves(f, memo).zext(w),
            Node::Sext(a) => a.map_leaves(f, memo).sext(w),
            Node::Trunc(a) => a.map_leaves(f, memo).trunc(w),
            Node::S2R(a) => a.map_leaves(f, memo).s2r(),
            Node::U2R(a) => a.map_leaves(f, memo).u2r(),
            Node::Ite(a, b, c) => { let a = a.map_leaves(f, memo); let b = b.map_leaves(f, memo); let c = c.map_leaves(f, memo); a.ite(b, c) }
        };
        memo.insert(self, r);
        r
    }

    pub fn subst_all(self, f: &mut dyn FnMut(T) -> Option<T>, memo: &mut HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&self) { return *r; }
        let w = self.w();
        let r = match self.node() {
            Node::C(_) | Node::R(..) => self,
            Node::V(_) | Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => f(self).unwrap_or(self),
            Node::Bin(op, a, b) => { let a = a.subst_all(f, memo); let b = b.subst_all(f, memo); a.bin(op, b) }
            Node::UF(op, a, b) => { let a = a.subst_all(f, memo); let b = b.subst_all(f, memo); T::uf(op, a, b) }
            Node::BNot(a) => a.subst_all(f, memo).bnot(),
            Node::Not(a) => a.subst_all(f, memo).not(),
            Node::Neg(a) => a.subst_all(f, memo).neg(),
            Node::Zext(a) => a.subst_all(f, memo).zext(w),
            Node::Sext(a) => a.subst_all(f, memo).sext(w),
            Node::Trunc(a) => a.subst_all(f, memo).trunc(w),
            Node::S2R(a) => a.subst_all(f, memo).s2r(),
            Node::U2R(a) => a.subst_all(f, memo).u2r(),
            Node::Ite(a, b, c) => { let a = a.subst_all(f, memo); let b = b.subst_all(f, memo); let c = c.subst_all(f, memo); a.ite(b, c) }
        };
        memo.insert(self, r);
        r
    }

    pub fn leaves(self, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) {
        if !seen.insert(self) { return; }
        match self.node() {
            Node::C(_) | Node::R(..) => {}
            Node::V(_) | Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => out.push(self),
            Node::Bin(_, a, b) | Node::UF(_, a, b) => { a.leaves(out, seen); b.leaves(out, seen); }
            Node::BNot(a) | Node::Not(a) | Node::Neg(a) | Node::Zext(a) | Node::Sext(a) | Node::Trunc(a) | Node::S2R(a) | Node::U2R(a) => a.leaves(out, seen),
            Node::Ite(a, b, c) => { a.leaves(out, seen); b.leaves(out, seen); c.leaves(out, seen); }
        }
    }
    pub fn leaf_vec(self) -> Vec<T> {
        let mut o = vec![];
        self.leaves(&mut o, &mut Default::default());
        o
    }

    pub fn smt(self, out: &mut String) {
        use std::fmt::Write;
        let w = self.w();
        match self.node() {
            Node::C(v) => {
                if w == 0 { out.push_str(if v != 0 { "true" } else { "false" }) }
                else { let _ = write!(out, "(_ bv{} {})", v, w); }
            }
            Node::R(m, s) => {
                let a = m.unsigned_abs();
                let body = if s == 0 { format!("{}.0", a) } else { format!("(/ {}.0 1{}.0)", a, "0".repeat(s as usize)) };
                if m < 0 { let _ = write!(out, "(- {})", body); } else { out.push_str(&body); }
            }
            Node::V(_) | Node::StrLen(_) | Node::ChrLen(_) | Node::NlCnt(_) => { let _ = write!(out, "{}", self.leaf_name()); }
            Node::Bin(op, a, b) => {
                let aw = a.w();
                let s = match op {
                    Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::SDiv => "bvsdiv",
                    Op::URem => "bvurem", Op::SRem => "bvsrem", Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor",
                    Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::Eq => "=",
                    Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", Op::Sle => "bvsle",
                    Op::BAnd => "and", Op::BOr => "or",
                    Op::RAdd => "+", Op::RSub => "-", Op::RMul => "*", Op::RDiv => "/", Op::RLt => "<", Op::RLe => "<=",
                };
                let _ = aw;
                out.push('('); out.push_str(s); out.push(' ');
                a.smt(out); out.push(' '); b.smt(out); out.push(')');
            }
            Node::UF(f, a, b) => { let _ = write!(out, "(uf{} ", f); a.smt(out); out.push(' '); b.smt(out); out.push(')'); }
            Node::BNot(a) => { out.push_str("(not "); a.smt(out); out.push(')'); }
            Node::Not(a) => { out.push_str("(bvnot "); a.smt(out); out.push(')'); }
            Node::Neg(a) => { out.push_str("(bvneg "); a.smt(out); out.push(')'); }
            Node::Zext(a) => {
                if a.w() == 0 { out.push_str("(ite "); a.smt(out); let _ = write!(out, " (_ bv1 {}) (_ bv0 {}))", w, w); }
                else { let _ = write!(out, "((_ zero_extend {}) ", w - a.w()); a.smt(out); out.push(')'); }
            }
            Node::Sext(a) => { let _ = write!(out, "((_ sign_extend {}) ", w - a.w()); a.smt(out); out.push(')'); }
            Node::Trunc(a) => {
                let _ = write!(out, "((_ extract {} 0) ", w - 1); a.smt(out); out.push(')');
            }
            Node::U2R(a) => { out.push_str("(to_real (bv2nat "); a.smt(out); out.push_str("))"); }
            Node::S2R(a) => {
                let aw = a.w();
                out.push_str("(ite (bvslt "); a.smt(out); let _ = write!(out, " (_ bv0 {})) (- (to_real (bv2nat (bvneg ", aw); a.smt(out);
                out.push_str(")))) (to_real (bv2nat "); a.smt(out); out.push_str(")))");
            }
            Node::Ite(a, b, c) => { out.push_str("(ite "); a.smt(out); out.push(' '); b.smt(out); out.push(' '); c.smt(out); out.push(')'); }
        }
    }
    pub fn leaf_name(self) -> String {
        let w = self.w();
        match self.node() {
            Node::V(v) => format!("v{}_{}", v, w),
            Node::StrLen(s) => format!("len{}", s),
            Node::ChrLen(s) => format!("chl{}", s),
            Node::NlCnt(s) => format!("nl{}", s),
            _ => unreachable!(),
        }
    }
    pub fn leaf_decl(self) -> String {
        let w = self.w();
        let sort = if w == 0 { "Bool".to_string() } else if w == REAL { "Real".to_string() } else { format!("(_ BitVec {})", w) };
        format!("(declare-const {} {})\n", self.leaf_name(), sort)
    }
    pub fn show(self) -> String { let mut s = String::new(); self.smt(&mut s); s }
}

/// real term as base + constant
fn rsplit(t: T) -> Option<(T, i128, u32)> {
    match t.node() {
        Node::Bin(Op::RAdd, b, k) => if let Node::R(m, s) = k.node() { Some((b, m, s)) } else { Some((t, 0, 0)) },
        Node::R(..) => None,
        _ => Some((t, 0, 0)),
    }
}
fn rcmp(a: i128, s: u32, b: i128, t: u32) -> std::cmp::Ordering {
    let m = s.max(t);
    let x = 10i128.checked_pow(m - s).and_then(|p| a.checked_mul(p));
    let y = 10i128.checked_pow(m - t).and_then(|p| b.checked_mul(p));
    match (x, y) {
        (Some(x), Some(y)) => x.cmp(&y),
        _ => (a as f64 / 10f64.powi(s as i32)).partial_cmp(&(b as f64 / 10f64.powi(t as i32))).unwrap(),
    }
}
