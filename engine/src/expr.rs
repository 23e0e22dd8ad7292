//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(u128),
    V(u32),
    B(Op, E, E),
    /// extract, low bit; the width is the node's width
    X(E, u16),
    Z(E),
    S(E),
    I(E, E, E),
    /// concat (hi, lo)
    Cat(E, E),
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<FxH>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// unsigned interval, bits known to be zero, bits known to be one
#[derive(Clone, Copy, Debug)]
pub struct Ab {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128,
    pub ko: u128,
}
impl Ab {
    fn top(w: u32) -> Ab {
        Ab { lo: 0, hi: mask(w), kz: 0, ko: 0 }
    }
    fn norm(mut self, w: u32) -> Ab {
        let m = mask(w);
        self.kz &= m;
        self.ko &= m;
        for _ in 0..2 {
            self.hi = self.hi.min(m & !self.kz);
            self.lo = self.lo.max(self.ko);
            let d = self.lo ^ self.hi;
            let known = if d == 0 { m } else { m & !mask(128 - d.leading_zeros()) };
            self.ko |= self.hi & known;
            self.kz |= !self.hi & known;
        }
        self
    }
}

pub struct Exprs {
    pub n: Vec<N>,
    pub w: Vec<u16>,
    pub sup: Vec<u128>,
    map: FxMap<(N, u16), E>,
    pub var_w: Vec<u32>,
    pub var_e: Vec<E>,
    pub var_hi: Vec<u128>,
    /// what is known of a node's value on every path
    ab: Vec<Ab>,
    var_map: FxMap<(u32, u32, u128), u32>,
    /// sums that do not wrap and one of their addends, for sums that were simplified
    sums: FxMap<(E, E), ()>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
}

pub type Model = Vec<u128>;

impl Exprs {
    pub fn new() -> Self {
        let mut x = Exprs {
            n: vec![],
            w: vec![],
            sup: vec![],
            map: FxMap::default(),
            var_w: vec![],
            var_e: vec![],
            var_hi: vec![],
            ab: vec![],
            var_map: FxMap::default(),
            sums: FxMap::default(),
            ev_gen: vec![],
            ev_val: vec![],
            gen: 0,
        };
        // node 0 is reserved as "no expression".
        x.mk(N::K(0), 1);
        x
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize] as u32
    }
    pub fn node(&self, e: E) -> N {
        self.n[e as usize]
    }
    pub fn is_k(&self, e: E) -> Option<u128> {
        if let N::K(v) = self.n[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w as u16)) {
            return e;
        }
        let e = self.n.len() as E;
        let s = |x: &Self, e: E| x.sup[e as usize];
        let sup = match n {
            N::K(_) => 0,
            N::V(v) => 1u128 << (v % 128),
            N::B(_, a, b) | N::Cat(a, b) => s(self, a) | s(self, b),
            N::X(a, _) | N::Z(a) | N::S(a) => s(self, a),
            N::I(c, a, b) => s(self, c) | s(self, a) | s(self, b),
        };
        let ab = self.abst(n, w);
        if ab.lo == ab.hi && !matches!(n, N::K(_)) {
            let k = self.k(ab.lo, w);
            self.map.insert((n, w as u16), k);
            return k;
        }
        self.ab.push(ab);
        self.n.push(n);
        self.w.push(w as u16);
        self.sup.push(sup);
        self.map.insert((n, w as u16), e);
        e
    }
    pub fn ab(&self, e: E) -> Ab {
        self.ab[e as usize]
    }
    fn abst(&self, n: N, w: u32) -> Ab {
        let m = mask(w);
        let mut r = Ab::top(w);
        match n {
            N::K(v) => r = Ab { lo: v, hi: v, kz: !v & m, ko: v },
            N::V(v) => r.hi = self.var_hi[v as usize],
            N::Z(a) => {
                let x = self.ab(a);
                r = Ab { kz: x.kz | (m & !mask(self.width(a))), ..x };
            }
            N::S(a) => {
                let x = self.ab(a);
                let wa = self.width(a);
                let up = m & !mask(wa);
                if x.kz >> (wa - 1) & 1 == 1 {
                    r = Ab { kz: x.kz | up, ..x };
                } else if x.ko >> (wa - 1) & 1 == 1 {
                    r = Ab { lo: x.lo | up, hi: x.hi | up, kz: x.kz, ko: x.ko | up };
                } else {
                    r.kz = x.kz;
                    r.ko = x.ko;
                }
            }
            N::X(a, l) => {
                let x = self.ab(a);
                r.kz = x.kz >> l & m;
                r.ko = x.ko >> l & m;
                if x.hi >> l <= m {
                    r.lo = x.lo >> l;
                    r.hi = x.hi >> l;
                }
            }
            N::Cat(a, b) => {
                let (x, y, wb) = (self.ab(a), self.ab(b), self.width(b));
                r = Ab { lo: x.lo << wb | y.lo, hi: x.hi << wb | y.hi, kz: x.kz << wb | y.kz, ko: x.ko << wb | y.ko };
            }
            N::I(_, a, b) => {
                let (x, y) = (self.ab(a), self.ab(b));
                r = Ab { lo: x.lo.min(y.lo), hi: x.hi.max(y.hi), kz: x.kz & y.kz, ko: x.ko & y.ko };
            }
            N::B(op, a, b) => {
                let (x, y) = (self.ab(a), self.ab(b));
                let wa = self.width(a);
                let kb = self.is_k(b);
                match op {
                    Op::And => {
                        r.kz = x.kz | y.kz;
                        r.ko = x.ko & y.ko;
                        r.hi = x.hi.min(y.hi);
                    }
                    Op::Or => {
                        r.kz = x.kz & y.kz;
                        r.ko = x.ko | y.ko;
                        r.lo = x.lo.max(y.lo);
                    }
                    Op::Xor => {
                        r.kz = (x.kz & y.kz) | (x.ko & y.ko);
                        r.ko = (x.kz & y.ko) | (x.ko & y.kz);
                    }
                    Op::Add => {
                        let t = (x.kz.trailing_ones().min(y.kz.trailing_ones())).min(w);
                        r.kz = mask(t) & m;
                        if let Some(h) = x.hi.checked_add(y.hi) {
                            if h <= m {
                                r.lo = x.lo + y.lo;
                                r.hi = h;
                            }
                        }
                    }
                    Op::Sub => {
                        let t = (x.kz.trailing_ones().min(y.kz.trailing_ones())).min(w);
                        r.kz = mask(t) & m;
                        if x.lo >= y.hi {
                            r.lo = x.lo - y.hi;
                            r.hi = x.hi - y.lo;
                        }
                    }
                    Op::Mul => {
                        let t = (x.kz.trailing_ones() + y.kz.trailing_ones()).min(w);
                        r.kz = mask(t) & m;
                        if let Some(h) = x.hi.checked_mul(y.hi) {
                            if h <= m {
                                r.lo = x.lo * y.lo;
                                r.hi = h;
                            }
                        }
                    }
                    Op::UDiv => {
                        if y.lo > 0 {
                            r.lo = x.lo / y.hi;
                            r.hi = x.hi / y.lo;
                        }
                    }
                    Op::URem => {
                        if y.lo > 0 {
                            if x.hi < y.lo {
                                r.lo = x.lo;
                                r.hi = x.hi;
                            } else {
                                r.hi = x.hi.min(y.hi - 1);
                            }
                        }
                    }
                    Op::Shl => {
                        if let Some(k) = kb {
                            if k < w as u128 {
                                let k = k as u32;
                                r.kz = (x.kz << k | mask(k)) & m;
                                r.ko = x.ko << k & m;
                                if x.hi <= m >> k {
                                    r.lo = x.lo << k;
                                    r.hi = x.hi << k;
                                }
                            }
                        }
                    }
                    Op::LShr => {
                        if let Some(k) = kb {
                            if k < w as u128 {
                                let k = k as u32;
                                r.kz = x.kz >> k | (m & !(m >> k));
                                r.ko = x.ko >> k;
                                r.lo = x.lo >> k;
                                r.hi = x.hi >> k;
                            }
                        } else {
                            r.hi = x.hi;
                        }
                    }
                    Op::AShr => {
                        if x.kz >> (w - 1) & 1 == 1 {
                            r.hi = x.hi;
                            if let Some(k) = kb {
                                if k < w as u128 {
                                    r.lo = x.lo >> k;
                                    r.hi = x.hi >> k;
                                    r.kz = x.kz >> k;
                                    r.ko = x.ko >> k;
                                }
                            }
                        }
                    }
                    Op::Eq => {
                        if x.hi < y.lo || y.hi < x.lo || (x.ko & y.kz) | (x.kz & y.ko) != 0 {
                            r.hi = 0;
                        } else if x.lo == x.hi && y.lo == y.hi {
                            r.lo = 1;
                        }
                    }
                    Op::Ult => {
                        if x.hi < y.lo {
                            r.lo = 1;
                        } else if x.lo >= y.hi {
                            r.hi = 0;
                        }
                    }
                    Op::Slt => {
                        let sg = |v: Ab| {
                            if v.kz >> (wa - 1) & 1 == 1 {
                                0
                            } else if v.ko >> (wa - 1) & 1 == 1 {
                                1
                            } else {
                                2
                            }
                        };
                        match (sg(x), sg(y)) {
                            (1, 0) => r.lo = 1,
                            (0, 1) => r.hi = 0,
                            (0, 0) | (1, 1) => {
                                if x.hi < y.lo {
                                    r.lo = 1;
                                } else if x.lo >= y.hi {
                                    r.hi = 0;
                                }
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
        }
        r.norm(w)
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        // constants of width 1 must not return the reserved node as "missing":
        // node 0 is K(0) of width 1 under its own key, so make a distinct one.
        let v = v & mask(w);
        if w == 1 && v == 0 {
            return 0;
        }
        self.mk(N::K(v), w)
    }
    pub fn tru(&mut self) -> E {
        self.k(1, 1)
    }
    fn var(&mut self, w: u32, hi: u128) -> (u32, E) {
        let id = self.var_w.len() as u32;
        self.var_w.push(w);
        self.var_hi.push(hi);
        let e = self.mk(N::V(id), w);
        self.var_e.push(e);
        (id, e)
    }
    /// The variable for the `pos`-th symbolic input of a path, with width `w`.
    /// Inputs are numbered per path, so that paths share variables (and cached queries).
    pub fn var_for(&mut self, pos: u32, w: u32, hi: u128) -> (u32, E) {
        if let Some(&id) = self.var_map.get(&(pos, w, hi)) {
            return (id, self.var_e[id as usize]);
        }
        let (id, e) = self.var(w, hi);
        self.var_map.insert((pos, w, hi), id);
        (id, e)
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.width(e);
        let o = self.k(mask(w), w);
        self.bin(Op::Xor, e, o)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.bin(Op::Eq, a, b);
        self.not(e)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let e = self.bin(Op::Ult, b, a);
        self.not(e)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let e = self.bin(Op::Slt, b, a);
        self.not(e)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    /// an upper bound of the unsigned value
    pub fn umax(&self, e: E, _: u32) -> u128 {
        self.ab[e as usize].hi
    }
    /// number of trailing bits known to be zero
    pub fn tz(&self, e: E, _: u32) -> u32 {
        self.ab[e as usize].kz.trailing_ones()
    }

    pub fn fold(op: Op, a: u128, b: u128, w: u32) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                (sext128(a, w) >> s) as u128
            }
            Op::Eq => return (a == b) as u128,
            Op::Ult => return (a < b) as u128,
            Op::Slt => return (sext128(a, w) < sext128(b, w)) as u128,
        };
        r & m
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = Self::fold(op, x, y, w);
            return self.k(v, rw);
        }
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                // constant to the right, otherwise ordered
                if ka.is_some() || (kb.is_none() && a > b) {
                    return self.bin_s(op, b, a, w, rw);
                }
                self.bin_s(op, a, b, w, rw)
            }
            _ => self.bin_s(op, a, b, w, rw),
        }
    }

    fn bin_s(&mut self, op: Op, a: E, b: E, w: u32, rw: u32) -> E {
        let kb = self.is_k(b);
        let ka = self.is_k(a);
        let m = mask(w);
        match op {
            Op::Add => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    match self.node(a) {
                        N::B(Op::Add, p, q) => {
                            if let Some(z) = self.is_k(q) {
                                let k = self.k(y.wrapping_add(z), w);
                                return self.bin(Op::Add, p, k);
                            }
                        }
                        N::I(c, p, q) if self.is_k(p).is_some() && self.is_k(q).is_some() => {
                            let x = self.bin(Op::Add, p, b);
                            let z = self.bin(Op::Add, q, b);
                            return self.ite(c, x, z);
                        }
                        _ => {}
                    }
                } else if let N::B(Op::Add, p, q) = self.node(a) {
                    // (p + k) + b => (p + b) + k
                    if self.is_k(q).is_some() {
                        let s = self.bin(Op::Add, p, b);
                        return self.bin(Op::Add, s, q);
                    }
                } else if let N::B(Op::Add, p, q) = self.node(b) {
                    if self.is_k(q).is_some() {
                        let s = self.bin(Op::Add, a, p);
                        return self.bin(Op::Add, s, q);
                    }
                }
                if kb.is_none() {
                    let mut r = self.fuse(a, b, w);
                    if r.is_none() {
                        r = self.fuse(b, a, w);
                    }
                    if let Some(r) = r {
                        if self.ab(a).hi.checked_add(self.ab(b).hi).is_some_and(|h| h <= m) {
                            self.sums.insert((r, a), ());
                            self.sums.insert((r, b), ());
                        }
                        return r;
                    }
                }
                // a + (x - a) = x
                if let N::B(Op::Sub, x, y) = self.node(b) {
                    if y == a {
                        return x;
                    }
                }
                if let N::B(Op::Sub, x, y) = self.node(a) {
                    if y == b {
                        return x;
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = kb {
                    let k = self.k((!y).wrapping_add(1), w);
                    return self.bin(Op::Add, a, k);
                }
                // (p + k) - p = k ; (p + k1) - (p + k2)
                let (pa, qa) = self.split_add(a);
                let (pb, qb) = self.split_add(b);
                if pa == pb {
                    return self.k(qa.wrapping_sub(qb), w);
                }
                if qa != 0 || qb != 0 {
                    if self.is_k(pa).is_none() && self.is_k(pb).is_none() {
                        let s = self.bin(Op::Sub, pa, pb);
                        let k = self.k(qa.wrapping_sub(qb), w);
                        return self.bin(Op::Add, s, k);
                    }
                }
                // (x + y) - x
                if let N::B(Op::Add, x, y) = self.node(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
            }
            Op::Mul => {
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                    if let N::B(Op::Mul, p, q) = self.node(a) {
                        if let Some(z) = self.is_k(q) {
                            let k = self.k(y.wrapping_mul(z), w);
                            return self.bin(Op::Mul, p, k);
                        }
                    }
                    if let N::I(c, p, q) = self.node(a) {
                        if self.is_k(p).is_some() && self.is_k(q).is_some() {
                            let x = self.bin(Op::Mul, p, b);
                            let z = self.bin(Op::Mul, q, b);
                            return self.ite(c, x, z);
                        }
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = kb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                    if self.umax(a, 8) < y {
                        return self.k(0, w);
                    }
                    // (s / k1) / y = s / (k1 * y)
                    if let N::B(Op::UDiv, s, k1) = self.node(self.strip(a)) {
                        if let Some(k) = self.is_k(k1).and_then(|k1| k1.checked_mul(y)).filter(|&k| k > 0) {
                            let sw = self.width(s);
                            if k > mask(sw) {
                                return self.k(0, w);
                            }
                            let k = self.k(k, sw);
                            let r = self.bin(Op::UDiv, s, k);
                            return self.resize(r, w);
                        }
                    }
                    // narrow the division
                    if let Some(n) = self.narrow(a, y, w) {
                        let x = self.extract(a, 0, n);
                        let k = self.k(y, n);
                        let r = self.bin(Op::UDiv, x, k);
                        return self.zext(r, w);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = kb {
                    if y == 1 {
                        return self.k(0, w);
                    }
                    if y.is_power_of_two() {
                        let k = self.k(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                    if y > 0 && self.umax(a, 8) < y {
                        return a;
                    }
                    if let Some(n) = self.narrow(a, y, w) {
                        let x = self.extract(a, 0, n);
                        let k = self.k(y, n);
                        let r = self.bin(Op::URem, x, k);
                        return self.zext(r, w);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if let Some(y) = kb {
                    // both non-negative: unsigned
                    if y >> (w - 1) == 0 && y != 0 && self.umax(a, 8) >> (w - 1) == 0 {
                        let o = if op == Op::SDiv { Op::UDiv } else { Op::URem };
                        return self.bin(o, a, b);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // low mask
                    if (y & (y + 1)) == 0 {
                        let n = 128 - y.leading_zeros();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    // contiguous mask of bits [lo, hi)
                    let lo = y.trailing_zeros();
                    let hi = 128 - y.leading_zeros();
                    if y == (mask(hi - lo) << lo) {
                        let x = self.extract(a, lo, hi - lo);
                        let z = self.k(0, lo);
                        let c = self.cat(x, z);
                        return self.zext(c, w);
                    }
                    if let N::B(Op::And, p, q) = self.node(a) {
                        if let Some(z) = self.is_k(q) {
                            let k = self.k(y & z, w);
                            return self.bin(Op::And, p, k);
                        }
                    }
                    match self.node(a) {
                        N::I(c, p, q) if self.is_k(p).is_some() && self.is_k(q).is_some() => {
                            let x = self.bin(Op::And, p, b);
                            let z = self.bin(Op::And, q, b);
                            return self.ite(c, x, z);
                        }
                        N::Cat(h, l) => {
                            let lw = self.width(l);
                            let (kh, kl) = (self.k(y >> lw, w - lw), self.k(y, lw));
                            let h2 = self.bin(Op::And, h, kh);
                            let l2 = self.bin(Op::And, l, kl);
                            return self.cat(h2, l2);
                        }
                        N::Z(x) => {
                            let n = self.width(x);
                            let k = self.k(y, n);
                            let r = self.bin(Op::And, x, k);
                            return self.zext(r, w);
                        }
                        _ => {}
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.k(0, 1);
                }
                if kb.is_none() {
                    if let (N::Z(x), N::Z(y)) = (self.node(a), self.node(b)) {
                        if self.width(x) == self.width(y) {
                            let r = self.bin(Op::And, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                    if let N::I(c, p, q) = self.node(a) {
                        if self.is_k(p).is_some() && self.is_k(q).is_some() {
                            let x = self.bin(Op::Or, p, b);
                            let z = self.bin(Op::Or, q, b);
                            return self.ite(c, x, z);
                        }
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.k(1, 1);
                }
                if let Some(r) = self.or_disjoint(a, b, w) {
                    return r;
                }
                if let Some(r) = self.or_disjoint(b, a, w) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if let N::B(Op::Xor, p, q) = self.node(a) {
                        if let Some(z) = self.is_k(q) {
                            let k = self.k(y ^ z, w);
                            return self.bin(Op::Xor, p, k);
                        }
                    }
                    if let N::I(c, p, q) = self.node(a) {
                        if self.is_k(p).is_some() && self.is_k(q).is_some() {
                            let x = self.bin(Op::Xor, p, b);
                            let z = self.bin(Op::Xor, q, b);
                            return self.ite(c, x, z);
                        }
                    }
                    if let N::Z(x) = self.node(a) {
                        let n = self.width(x);
                        if y >> n == 0 {
                            let k = self.k(y, n);
                            let r = self.bin(Op::Xor, x, k);
                            return self.zext(r, w);
                        }
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.k(1, 1);
                }
                if kb.is_none() {
                    if let (N::Z(x), N::Z(y)) = (self.node(a), self.node(b)) {
                        if self.width(x) == self.width(y) {
                            let r = self.bin(Op::Xor, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(0, w);
                    }
                    let y = y as u32;
                    let x = self.extract(a, 0, w - y);
                    let z = self.k(0, y);
                    return self.cat(x, z);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(0, w);
                    }
                    let y = y as u32;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    let y = (y as u32).min(w - 1);
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    if let Some(y) = kb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(y) = kb {
                    // s / k = 0  <=>  s < k
                    if y == 0 {
                        if let N::B(Op::UDiv, s, k) = self.node(a) {
                            if self.is_k(k).is_some_and(|k| k > 0) {
                                return self.bin(Op::Ult, s, k);
                            }
                        }
                    }
                    match self.node(a) {
                        N::Z(x) => {
                            let n = self.width(x);
                            if y >> n != 0 {
                                return self.k(0, 1);
                            }
                            let k = self.k(y, n);
                            return self.bin(Op::Eq, x, k);
                        }
                        N::S(x) => {
                            let n = self.width(x);
                            let back = (sext128(y & mask(n), n) as u128) & m;
                            if back != y {
                                return self.k(0, 1);
                            }
                            let k = self.k(y, n);
                            return self.bin(Op::Eq, x, k);
                        }
                        N::Cat(h, l) => {
                            let lw = self.width(l);
                            let (kh, kl) = (self.k(y >> lw, w - lw), self.k(y, lw));
                            let x = self.bin(Op::Eq, h, kh);
                            if self.is_k(x) == Some(0) {
                                return x;
                            }
                            let z = self.bin(Op::Eq, l, kl);
                            return self.and1(x, z);
                        }
                        N::I(c, p, q) => {
                            if self.is_k(p).is_some() || self.is_k(q).is_some() {
                                let x = self.bin(Op::Eq, p, b);
                                let z = self.bin(Op::Eq, q, b);
                                return self.ite(c, x, z);
                            }
                        }
                        N::B(Op::Add, p, q) => {
                            if let Some(z) = self.is_k(q) {
                                let k = self.k(y.wrapping_sub(z), w);
                                return self.bin(Op::Eq, p, k);
                            }
                        }
                        N::B(Op::Sub, p, q) => {
                            if y == 0 {
                                return self.bin(Op::Eq, p, q);
                            }
                            if let Some(z) = self.is_k(p) {
                                let k = self.k(z.wrapping_sub(y), w);
                                return self.bin(Op::Eq, q, k);
                            }
                        }
                        N::B(Op::Xor, p, q) => {
                            if y == 0 {
                                return self.bin(Op::Eq, p, q);
                            }
                            if let Some(z) = self.is_k(q) {
                                let k = self.k(y ^ z, w);
                                return self.bin(Op::Eq, p, k);
                            }
                        }
                        N::B(Op::Or, p, q) => {
                            if y == 0 {
                                let x = self.bin(Op::Eq, p, b);
                                let z = self.bin(Op::Eq, q, b);
                                return self.and1(x, z);
                            }
                        }
                        _ => {
                            if self.umax(a, 6) < y {
                                return self.k(0, 1);
                            }
                        }
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (N::Z(x), N::Z(y)) => {
                            let (nx, ny) = (self.width(x), self.width(y));
                            let n = nx.max(ny);
                            let p = self.zext(x, n);
                            let q = self.zext(y, n);
                            return self.bin(Op::Eq, p, q);
                        }
                        (N::Cat(h1, l1), N::Cat(h2, l2)) if self.width(l1) == self.width(l2) => {
                            let x = self.bin(Op::Eq, h1, h2);
                            let y = self.bin(Op::Eq, l1, l2);
                            return self.and1(x, y);
                        }
                        _ => {}
                    }
                    let (pa, qa) = self.split_add(a);
                    let (pb, qb) = self.split_add(b);
                    if pa == pb {
                        return self.k((qa == qb) as u128, 1);
                    }
                    if qa != 0 && qb != 0 {
                        let k = self.k(qa.wrapping_sub(qb), w);
                        let x = self.bin(Op::Add, pa, k);
                        return self.bin(Op::Eq, x, pb);
                    }
                }
            }
            Op::Ult => {
                if a == b || self.sums.contains_key(&(a, b)) {
                    return self.k(0, 1);
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return self.k(0, 1);
                    }
                    if self.umax(a, 8) < y {
                        return self.k(1, 1);
                    }
                    if y == 1 {
                        let z = self.k(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    match self.node(a) {
                        // s / k < y  <=>  s < k * y
                        N::B(Op::UDiv, s, k) if self.is_k(k).is_some_and(|k| k > 0) => {
                            let ky = self.is_k(k).unwrap().checked_mul(y);
                            match ky {
                                Some(ky) if ky <= m => {
                                    let k = self.k(ky, w);
                                    return self.bin(Op::Ult, s, k);
                                }
                                _ => return self.k(1, 1),
                            }
                        }
                        N::Z(x) => {
                            let n = self.width(x);
                            if y >> n != 0 {
                                return self.k(1, 1);
                            }
                            let k = self.k(y, n);
                            return self.bin(Op::Ult, x, k);
                        }
                        N::I(c, p, q) => {
                            if self.is_k(p).is_some() || self.is_k(q).is_some() {
                                let x = self.bin(Op::Ult, p, b);
                                let z = self.bin(Op::Ult, q, b);
                                return self.ite(c, x, z);
                            }
                        }
                        N::Cat(h, l) => {
                            // h:l < yh:yl
                            let lw = self.width(l);
                            let yl = y & mask(lw);
                            if yl == 0 {
                                let k = self.k(y >> lw, w - lw);
                                return self.bin(Op::Ult, h, k);
                            }
                        }
                        _ => {}
                    }
                }
                if let Some(x) = ka {
                    if x == m {
                        return self.k(0, 1);
                    }
                    if x == 0 {
                        let z = self.k(0, w);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                    if x == m - 1 {
                        let z = self.k(m, w);
                        return self.bin(Op::Eq, b, z);
                    }
                    if self.umax(b, 8) <= x {
                        return self.k(0, 1);
                    }
                    match self.node(b) {
                        N::Z(z) => {
                            let n = self.width(z);
                            if x >> n != 0 {
                                return self.k(0, 1);
                            }
                            let k = self.k(x, n);
                            return self.bin(Op::Ult, k, z);
                        }
                        N::I(c, p, q) => {
                            if self.is_k(p).is_some() || self.is_k(q).is_some() {
                                let s = self.bin(Op::Ult, a, p);
                                let t = self.bin(Op::Ult, a, q);
                                return self.ite(c, s, t);
                            }
                        }
                        N::Cat(h, l) => {
                            let lw = self.width(l);
                            if x & mask(lw) == mask(lw) {
                                let k = self.k(x >> lw, w - lw);
                                return self.bin(Op::Ult, k, h);
                            }
                        }
                        _ => {}
                    }
                }
                if let (N::Z(x), N::Z(y)) = (self.node(a), self.node(b)) {
                    let n = self.width(x).max(self.width(y));
                    let p = self.zext(x, n);
                    let q = self.zext(y, n);
                    return self.bin(Op::Ult, p, q);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.k(0, 1);
                }
                // both known non-negative: unsigned
                let half = 1u128 << (w - 1);
                if self.umax(a, 8) < half && self.umax(b, 8) < half {
                    return self.bin(Op::Ult, a, b);
                }
                if kb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if ka == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if let Some(y) = kb {
                    match self.node(a) {
                        N::S(x) => {
                            let n = self.width(x);
                            let sy = sext128(y, w);
                            let (lo, hi) = (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1);
                            if sy > hi {
                                return self.k(1, 1);
                            }
                            if sy <= lo {
                                return self.k(0, 1);
                            }
                            let k = self.k(y, n);
                            return self.bin(Op::Slt, x, k);
                        }
                        N::I(c, p, q) if self.is_k(p).is_some() || self.is_k(q).is_some() => {
                            let x = self.bin(Op::Slt, p, b);
                            let z = self.bin(Op::Slt, q, b);
                            return self.ite(c, x, z);
                        }
                        _ => {}
                    }
                }
                if let Some(x) = ka {
                    match self.node(b) {
                        N::S(z) => {
                            let n = self.width(z);
                            let sx = sext128(x, w);
                            let (lo, hi) = (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1);
                            if sx >= hi {
                                return self.k(0, 1);
                            }
                            if sx < lo {
                                return self.k(1, 1);
                            }
                            let k = self.k(x, n);
                            return self.bin(Op::Slt, k, z);
                        }
                        N::I(c, p, q) if self.is_k(p).is_some() || self.is_k(q).is_some() => {
                            let s = self.bin(Op::Slt, a, p);
                            let t = self.bin(Op::Slt, a, q);
                            return self.ite(c, s, t);
                        }
                        _ => {}
                    }
                }
            }
        }
        self.mk(N::B(op, a, b), rw)
    }

    /// width to which a division by the constant y can be narrowed
    fn narrow(&self, a: E, y: u128, w: u32) -> Option<u32> {
        let u = self.umax(a, 8).max(y);
        let n = (128 - u.leading_zeros()).max(1);
        if n + 1 < w && n < w {
            Some(n)
        } else {
            None
        }
    }
    /// the same value without extensions and truncations that change nothing
    fn strip(&self, mut e: E) -> E {
        loop {
            match self.node(e) {
                N::Z(a) => e = a,
                N::X(a, 0) if self.ab(a).hi <= mask(self.width(e)) => e = a,
                _ => return e,
            }
        }
    }
    fn resize(&mut self, e: E, w: u32) -> E {
        if self.width(e) <= w {
            self.zext(e, w)
        } else {
            self.extract(e, 0, w)
        }
    }
    /// e as factor * constant; the factor's value is exact, e's is exact or modulo 2^w
    fn coef(&self, e: E, w: u32) -> (E, u128) {
        if let N::B(Op::Mul, x, k) = self.node(e) {
            if let Some(k) = self.is_k(k) {
                if self.width(e) == w {
                    return (x, k);
                }
            }
        }
        let s = self.strip(e);
        if let N::B(Op::Mul, x, k) = self.node(s) {
            if let Some(k) = self.is_k(k) {
                if let Some(h) = self.ab(x).hi.checked_mul(k) {
                    if h <= mask(self.width(s)) {
                        return (x, k);
                    }
                }
            }
        }
        (e, 1)
    }
    /// is x the quotient of m by k?
    fn quot(&self, x: E, m: E, k: u128) -> bool {
        if let N::B(Op::UDiv, m2, k2) = self.node(self.strip(x)) {
            let m2 = self.strip(m2);
            if let Some(k2) = self.is_k(k2) {
                if m2 == m && k2 == k {
                    return true;
                }
                // (s / k1) / k = s / (k1 * k)
                if let N::B(Op::UDiv, s, k1) = self.node(m) {
                    if let Some(k1) = self.is_k(k1) {
                        return self.strip(s) == m2 && k1.checked_mul(k) == Some(k2);
                    }
                }
            }
        }
        false
    }
    /// (m / k) * (k * c) + (m % k) * c  =  m * c, also with further addends
    fn fuse(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (r, c) = self.coef(b, w);
        let N::B(Op::URem, m, k) = self.node(self.strip(r)) else { return None };
        let k = self.is_k(k)?;
        if k == 0 || c == 0 {
            return None;
        }
        let m = self.strip(m);
        let kc = k.checked_mul(c)?;
        if kc > mask(w) {
            return None;
        }
        self.fuse2(a, m, k, c, kc, w, 3)
    }
    fn fuse2(&mut self, a: E, m: E, k: u128, c: u128, kc: u128, w: u32, depth: u32) -> Option<E> {
        let (x, y) = self.coef(a, w);
        let mc = |s: &mut Self| {
            let mr = s.resize(m, w);
            let cc = s.k(c, w);
            s.bin(Op::Mul, mr, cc)
        };
        if y == kc {
            if self.quot(x, m, k) {
                return Some(mc(self));
            }
            // ((m / k) % j) * k + m % k = m % (j * k)
            if let N::B(Op::URem, q, j) = self.node(self.strip(x)) {
                if let Some(jk) = self.is_k(j).and_then(|j| j.checked_mul(k)) {
                    if self.quot(q, m, k) {
                        let mw = self.width(m);
                        let r = if jk > mask(mw) {
                            m
                        } else {
                            let kk = self.k(jk, mw);
                            self.bin(Op::URem, m, kk)
                        };
                        let r = self.resize(r, w);
                        let cc = self.k(c, w);
                        return Some(self.bin(Op::Mul, r, cc));
                    }
                }
            }
            if let N::B(Op::Add, p, q) = self.node(x) {
                if self.width(x) == w {
                    for (p, q) in [(p, q), (q, p)] {
                        if self.quot(q, m, k) {
                            let kk = self.k(kc, w);
                            let pp = self.bin(Op::Mul, p, kk);
                            let mm = mc(self);
                            return Some(self.bin(Op::Add, pp, mm));
                        }
                    }
                }
            }
        }
        if depth > 0 {
            if let N::B(Op::Add, p, q) = self.node(a) {
                for (p, q) in [(p, q), (q, p)] {
                    if let Some(r) = self.fuse2(q, m, k, c, kc, w, depth - 1) {
                        return Some(self.bin(Op::Add, p, r));
                    }
                }
            }
        }
        None
    }
    fn split_add(&self, a: E) -> (E, u128) {
        if let N::B(Op::Add, p, q) = self.node(a) {
            if let Some(k) = self.is_k(q) {
                return (p, k);
            }
        }
        (a, 0)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let t = |x: E, y: E| {
            if let N::B(Op::Xor, p, q) = self.node(x) {
                p == y && self.is_k(q) == Some(1)
            } else {
                false
            }
        };
        t(a, b) || t(b, a)
    }
    /// or of a value with zero low bits and one that fits these low bits
    fn or_disjoint(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let t = self.tz(a, 6);
        if t == 0 || t >= w {
            return None;
        }
        let u = self.umax(b, 6);
        if u >> t != 0 {
            return None;
        }
        // only where it leads to a plain concat
        let h = self.extract(a, t, w - t);
        let l = self.extract(b, 0, t);
        Some(self.cat(h, l))
    }

    /// a part of a stored value: keeps the parts of a sum recognizable, so that they join again
    pub fn part(&mut self, a: E, lo: u32, w: u32) -> E {
        match self.node(a) {
            N::B(Op::Add | Op::Sub | Op::Mul, _, _) if self.width(a) > w => self.mk(N::X(a, lo as u16), w),
            _ => self.extract(a, lo, w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.width(a);
        if w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        match self.node(a) {
            N::K(v) => return self.k(v >> lo, w),
            N::X(b, l2) => return self.extract(b, l2 as u32 + lo, w),
            N::Z(b) => {
                let bw = self.width(b);
                if lo >= bw {
                    return self.k(0, w);
                }
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                let x = self.extract(b, lo, bw - lo);
                return self.zext(x, w);
            }
            N::S(b) => {
                let bw = self.width(b);
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                if lo < bw {
                    let x = self.extract(b, lo, bw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(b, bw - 1, 1);
                return self.sext(x, w);
            }
            N::Cat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let x = self.extract(h, 0, lo + w - lw);
                let y = self.extract(l, lo, lw - lo);
                return self.cat(x, y);
            }
            N::I(c, p, q) => {
                let kp = self.is_k(p).is_some();
                let kq = self.is_k(q).is_some();
                if kp || kq {
                    let x = self.extract(p, lo, w);
                    let y = self.extract(q, lo, w);
                    return self.ite(c, x, y);
                }
            }
            N::B(op @ (Op::And | Op::Or | Op::Xor), p, q) => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.bin(op, x, y);
            }
            N::B(op @ (Op::Add | Op::Sub | Op::Mul), p, q) if lo == 0 => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.bin(op, x, y);
            }
            _ => {
                if lo > 0 && self.umax(a, 6) >> lo == 0 {
                    return self.k(0, w);
                }
            }
        }
        self.mk(N::X(a, lo as u16), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        debug_assert!(w > aw);
        match self.node(a) {
            N::K(v) => self.k(v, w),
            N::Z(b) => self.zext(b, w),
            N::I(c, p, q) if self.is_k(p).is_some() && self.is_k(q).is_some() => {
                let x = self.zext(p, w);
                let y = self.zext(q, w);
                self.ite(c, x, y)
            }
            N::Cat(h, l) if self.is_k(h) == Some(0) => self.zext(l, w),
            N::X(b, 0) if self.ab(b).hi <= mask(aw) => self.resize(b, w),
            N::B(Op::Add, p, q) if self.is_k(q).is_some() && self.ab(p).hi.checked_add(self.ab(q).hi).map_or(false, |h| h <= mask(aw)) => {
                let x = self.zext(p, w);
                let y = self.zext(q, w);
                self.bin(Op::Add, x, y)
            }
            _ => self.mk(N::Z(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            N::K(v) => return self.k(sext128(v, aw) as u128, w),
            N::Z(b) => return self.zext(b, w),
            N::S(b) => return self.sext(b, w),
            _ => {}
        }
        if self.umax(a, 8) >> (aw - 1) == 0 {
            return self.zext(a, w);
        }
        if aw == 1 {
            let m = self.k(mask(w), w);
            let z = self.k(0, w);
            return self.ite(a, m, z);
        }
        self.mk(N::S(a), w)
    }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.width(h), self.width(l));
        let w = hw + lw;
        assert!(w <= 128, "concat wider than 128 bits");
        if let (Some(x), Some(y)) = (self.is_k(h), self.is_k(l)) {
            return self.k((x << lw) | y, w);
        }
        if self.is_k(h) == Some(0) {
            return self.zext(l, w);
        }
        // zext pulled out
        if let N::Z(x) = self.node(h) {
            let c = self.cat(x, l);
            return self.zext(c, w);
        }
        if let (N::X(a, la), N::X(b, lb)) = (self.node(h), self.node(l)) {
            if a == b && la as u32 == lb as u32 + lw {
                return self.extract(a, lb as u32, w);
            }
        }
        // a : (b : c) with a,b adjacent extracts
        if let N::Cat(p, q) = self.node(l) {
            if let (N::X(a, la), N::X(b, lb)) = (self.node(h), self.node(p)) {
                if a == b && la as u32 == lb as u32 + self.width(p) {
                    let x = self.extract(a, lb as u32, hw + self.width(p));
                    return self.cat(x, q);
                }
            }
            if self.is_k(h).is_some() && self.is_k(p).is_some() {
                let x = self.cat(h, p);
                return self.cat(x, q);
            }
        }
        // extract hi of x : x(low part as plain var covering)
        if let N::X(a, la) = self.node(h) {
            if let N::X(b, 0) = self.node(l) {
                if a == b && la as u32 == lw {
                    return self.extract(a, 0, w);
                }
            }
        }
        // right-assoc normal form
        if let N::Cat(p, q) = self.node(h) {
            let r = self.cat(q, l);
            return self.cat(p, r);
        }
        self.mk(N::Cat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_k(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 {
            match (self.is_k(a), self.is_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                (None, Some(0)) => return self.and1(c, a),
                _ => {}
            }
        }
        // ite(!c, a, b) => ite(c, b, a)
        if let N::B(Op::Xor, p, q) = self.node(c) {
            if self.is_k(q) == Some(1) {
                return self.ite(p, b, a);
            }
        }
        if let N::I(c2, p, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, p, b);
            }
        }
        if let N::I(c2, _, q) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, q);
            }
        }
        // ite(x == k, k, x) = x
        self.mk(N::I(c, a, b), w)
    }

    pub fn new_gen(&mut self) {
        self.gen += 1;
    }
    /// evaluates under the model; `new_gen` must be called when the model changes
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        let i = e as usize;
        if let N::K(v) = self.n[i] {
            return v;
        }
        if self.ev_gen.len() < self.n.len() {
            let l = self.n.len() * 2;
            self.ev_gen.resize(l, 0);
            self.ev_val.resize(l, 0);
        }
        if self.ev_gen[i] == self.gen {
            return self.ev_val[i];
        }
        let w = self.w[i] as u32;
        let r = match self.n[i] {
            N::K(v) => v,
            N::V(v) => m.get(v as usize).copied().unwrap_or(0) & mask(w),
            N::B(op, a, b) => {
                let x = self.eval(a, m);
                let y = self.eval(b, m);
                Self::fold(op, x, y, self.w[a as usize] as u32)
            }
            N::X(a, lo) => (self.eval(a, m) >> lo) & mask(w),
            N::Z(a) => self.eval(a, m),
            N::S(a) => {
                let aw = self.w[a as usize] as u32;
                (sext128(self.eval(a, m), aw) as u128) & mask(w)
            }
            N::I(c, a, b) => {
                if self.eval(c, m) == 1 {
                    self.eval(a, m)
                } else {
                    self.eval(b, m)
                }
            }
            N::Cat(h, l) => {
                let lw = self.w[l as usize] as u32;
                (self.eval(h, m) << lw) | self.eval(l, m)
            }
        };
        self.ev_gen[i] = self.gen;
        self.ev_val[i] = r;
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.node(e) {
            N::K(v) => format!("{:#x}:{}", v, self.width(e)),
            N::V(v) => format!("v{}", v),
            N::B(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            N::X(a, lo) => format!("{}[{}+:{}]", self.show(a, d), lo, self.width(e)),
            N::Z(a) => format!("z{}({})", self.width(e), self.show(a, d)),
            N::S(a) => format!("s{}({})", self.width(e), self.show(a, d)),
            N::I(c, a, b) => format!("(if {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::Cat(a, b) => format!("{{{},{}}}", self.show(a, d), self.show(b, d)),
        }
    }
}
