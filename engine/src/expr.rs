//! Hash-consed bit-vector expressions with local simplification and interval analysis.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // b = low bit
    Concat,  // a = high part, b = low part
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    ev_stamp: Vec<u64>,
    ev_val: Vec<u128>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                m
            } else {
                (sext(x, w).wrapping_div(sext(y, w)) as u128) & m
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((sext(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    }
}

pub type Ranges = Vec<(u64, u64)>;

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: Vec::new(), map: HashMap::new(), ev_stamp: Vec::new(), ev_val: Vec::new() }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as u32;
        self.nodes.push(n);
        self.map.insert(n, e);
        self.ev_stamp.push(0);
        self.ev_val.push(0);
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Node { op: Op::Var, w: w as u8, a: idx, b: 0, c: 0, k: 0 })
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u8, a, b, c: 0, k: 0 })
    }
    pub fn not1(&mut self, e: E) -> E {
        let n = self.n(e);
        debug_assert!(n.w == 1);
        if n.op == Op::Const {
            return self.konst(1, 1 - n.k);
        }
        if n.op == Op::Xor {
            if self.as_const(n.b) == Some(1) {
                return n.a;
            }
        }
        let one = self.konst(1, 1);
        self.raw(Op::Xor, 1, e, one)
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.w == 1 && n.op == Op::Xor && self.as_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
            let v = fold(op, w, x, y);
            return self.konst(rw, v);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if commut && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(x) = self.as_const(n.b) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                    if let Some(e) = self.ite_lift(op, a, b) {
                        return e;
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = kb {
                    let k = self.konst(w, 0u128.wrapping_sub(y));
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(y) = kb {
                    let n = self.n(a);
                    if n.op == Op::And {
                        if let Some(x) = self.as_const(n.b) {
                            let k = self.konst(w, x & y);
                            return self.bin(Op::And, n.a, k);
                        }
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if y & mask(iw) == mask(iw) {
                            return a;
                        }
                        if y & mask(iw) == 0 {
                            return self.konst(w, 0);
                        }
                        let k = self.konst(iw, y);
                        let i = self.bin(Op::And, n.a, k);
                        return self.zext(i, w);
                    }
                    // low mask: zext of extract
                    if y & (y + 1) == 0 {
                        let bits = 128 - y.leading_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if let Some(e) = self.ite_lift(op, a, b) {
                        return e;
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) {
                    return self.konst(1, 1);
                }
                if kb.is_some() {
                    if let Some(e) = self.ite_lift(op, a, b) {
                        return e;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(x) = self.as_const(n.b) {
                            let k = self.konst(w, x ^ y);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if w > 1 {
                        if let Some(e) = self.ite_lift(op, a, b) {
                            return e;
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if op != Op::AShr && y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    if op == Op::LShr {
                        let x = self.extract(a, y as u32, w - y as u32);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        let n = self.n(a);
                        if n.op == Op::ZExt {
                            // fold zext(x) << k as concat when it fits
                            let iw = self.w(n.a);
                            if iw + y as u32 <= w {
                                let z = self.konst(y as u32, 0);
                                let c = self.concat(n.a, z);
                                return self.zext(c, w);
                            }
                        }
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if kb == Some(1) {
                    return self.konst(w, 0);
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(y) = kb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not1(a) };
                    }
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if (sext(y & mask(iw), iw) as u128) & m != y {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Add => {
                            if let Some(x) = self.as_const(n.b) {
                                let k = self.konst(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.as_const(n.b) {
                                let k = self.konst(w, y ^ x);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Or => {
                            if let Some(x) = self.as_const(n.b) {
                                if x & !y != 0 {
                                    return self.konst(1, 0);
                                }
                            }
                        }
                        Op::And => {
                            if let Some(x) = self.as_const(n.b) {
                                if y & !x != 0 {
                                    return self.konst(1, 0);
                                }
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kh = self.konst(hw, y >> lw);
                            let kl = self.konst(lw, y);
                            let x = self.bin(Op::Eq, n.a, kh);
                            let z = self.bin(Op::Eq, n.b, kl);
                            return self.and1(x, z);
                        }
                        _ => {}
                    }
                    if let Some(e) = self.ite_lift(op, a, b) {
                        return e;
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let t = wa.max(wb);
                        if t < w {
                            let x = self.zext(na.a, t);
                            let y = self.zext(nb.a, t);
                            return self.bin(Op::Eq, x, y);
                        }
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst(1, (op == Op::Ule) as u128);
                }
                if op == Op::Ult {
                    if kb == Some(0) || ka == Some(m) {
                        return self.konst(1, 0);
                    }
                    if kb == Some(1) {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                } else {
                    if ka == Some(0) || kb == Some(m) {
                        return self.konst(1, 1);
                    }
                    if kb == Some(0) {
                        return self.bin(Op::Eq, a, b);
                    }
                    // canonical: a <= k  ->  a < k+1
                    if let Some(y) = kb {
                        let k = self.konst(w, y + 1);
                        return self.bin(Op::Ult, a, k);
                    }
                    if ka.is_some() {
                        // k <= b  ->  !(b < k)
                        let x = self.bin(Op::Ult, b, a);
                        return self.not1(x);
                    }
                    let x = self.bin(Op::Ult, b, a);
                    return self.not1(x);
                }
                if let Some(x) = ka {
                    // k < b  ->  !(b < k+1)
                    let k = self.konst(w, x + 1);
                    let t = self.bin(Op::Ult, b, k);
                    return self.not1(t);
                }
                if let Some(y) = kb {
                    let n = self.n(a);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if y > mask(iw) {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(iw, y);
                        return self.bin(Op::Ult, n.a, k);
                    }
                    if let Some(e) = self.ite_lift(op, a, b) {
                        return e;
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let t = self.w(na.a).max(self.w(nb.a));
                        if t < w {
                            let x = self.zext(na.a, t);
                            let y = self.zext(nb.a, t);
                            return self.bin(op, x, y);
                        }
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                let nonneg = |s: &Self, e: E| -> bool {
                    let n = s.n(e);
                    (n.op == Op::ZExt) || (n.op == Op::Const && n.k >> (w - 1) == 0)
                };
                if nonneg(self, a) && nonneg(self, b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if kb.is_some() || ka.is_some() {
                    if let Some(e) = self.ite_lift(op, a, b) {
                        return e;
                    }
                }
            }
            _ => {}
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        self.raw(op, rw, a, b)
    }
    /// op(ite(c, k1, x), k) -> ite(c, op(k1,k), op(x,k)) when a branch is constant (depth-limited by structure).
    fn ite_lift(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let n = self.n(a);
        if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) && self.as_const(b).is_some() {
            let x = self.bin(op, n.b, b);
            let y = self.bin(op, n.c, b);
            return Some(self.ite(n.a, x, y));
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some()) && self.as_const(a).is_some() {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.or1(c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Op::ZExt, w, e, 0),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => self.konst(w, sext(n.k, n.w as u32) as u128),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Op::SExt, w, e, 0),
        }
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        if lo == 0 && n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => self.konst(w, n.k >> lo),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Node { op: Op::Extract, w: w as u8, a: e, b: lo, c: 0, k: 0 })
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            _ => self.mk(Node { op: Op::Extract, w: w as u8, a: e, b: lo, c: 0, k: 0 }),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let (hw, lw) = (nh.w as u32, nl.w as u32);
        let w = hw + lw;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst(w, (nh.k << lw) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, w);
        }
        if nh.op == Op::ZExt {
            // concat(zext(x), l) = zext(concat(x, l))
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        if nl.op == Op::Concat {
            // keep right-nested joins canonical: try to merge h with the high part of l
            let (la, lb) = (self.n(nl.a), nl.b);
            if nh.op == Op::Extract && la.op == Op::Extract && nh.a == la.a && nh.b == la.b + la.w as u32 {
                let x = self.extract(nh.a, la.b, hw + la.w as u32);
                return self.concat(x, lb);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u8, a: h, b: l, c: 0, k: 0 })
    }

    /// Value under a model (stamp identifies the model).
    pub fn eval(&mut self, e: E, model: &[u64], stamp: u64) -> u128 {
        let i = e as usize;
        if self.ev_stamp[i] == stamp {
            return self.ev_val[i];
        }
        let n = self.nodes[i];
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => (model.get(n.a as usize).copied().unwrap_or(0) as u128) & mask(w),
            Op::Ite => {
                if self.eval(n.a, model, stamp) == 1 {
                    self.eval(n.b, model, stamp)
                } else {
                    self.eval(n.c, model, stamp)
                }
            }
            Op::ZExt => self.eval(n.a, model, stamp),
            Op::SExt => {
                let x = self.eval(n.a, model, stamp);
                (sext(x, self.w(n.a)) as u128) & mask(w)
            }
            Op::Extract => (self.eval(n.a, model, stamp) >> n.b) & mask(w),
            Op::Concat => {
                let h = self.eval(n.a, model, stamp);
                let l = self.eval(n.b, model, stamp);
                (h << self.w(n.b)) | l
            }
            _ => {
                let x = self.eval(n.a, model, stamp);
                let y = self.eval(n.b, model, stamp);
                fold(n.op, self.w(n.a), x, y)
            }
        };
        self.ev_stamp[i] = stamp;
        self.ev_val[i] = v;
        v
    }

    /// Unsigned interval of an expression given intervals of the variables.
    pub fn range(&self, e: E, r: &Ranges, depth: u32) -> (u128, u128) {
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let top = (0, mask(w));
        if depth == 0 {
            return if n.op == Op::Const { (n.k, n.k) } else { top };
        }
        let d = depth - 1;
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => r.get(n.a as usize).map(|&(a, b)| (a as u128, b as u128)).unwrap_or(top),
            Op::ZExt => self.range(n.a, r, d),
            Op::SExt => {
                let iw = self.w(n.a);
                let x = self.range(n.a, r, d);
                if x.1 >> (iw - 1) == 0 {
                    x
                } else {
                    top
                }
            }
            Op::Extract => {
                let x = self.range(n.a, r, d);
                let (lo, hi) = (x.0 >> n.b, x.1 >> n.b);
                if hi <= mask(w) {
                    (lo, hi)
                } else {
                    top
                }
            }
            Op::Concat => {
                let h = self.range(n.a, r, d);
                let l = self.range(n.b, r, d);
                let lw = self.w(n.b);
                ((h.0 << lw) | l.0, (h.1 << lw) | l.1)
            }
            Op::Ite => {
                let c = self.range(n.a, r, d);
                if c.0 == 1 {
                    return self.range(n.b, r, d);
                }
                if c.1 == 0 {
                    return self.range(n.c, r, d);
                }
                let x = self.range(n.b, r, d);
                let y = self.range(n.c, r, d);
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::Add => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                let m = mask(w);
                match (x.0.checked_add(y.0), x.1.checked_add(y.1)) {
                    (Some(lo), Some(hi)) if hi <= m => (lo, hi),
                    (Some(lo), Some(hi)) if w < 128 && lo > m && hi <= 2 * m + 1 => (lo - m - 1, hi - m - 1),
                    _ => top,
                }
            }
            Op::Sub => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                if x.0 >= y.1 {
                    (x.0 - y.1, x.1 - y.0)
                } else {
                    top
                }
            }
            Op::Mul => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                match x.1.checked_mul(y.1) {
                    Some(hi) if hi <= mask(w) => (x.0 * y.0, hi),
                    _ => top,
                }
            }
            Op::And => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                if w == 1 {
                    return (x.0 & y.0, x.1 & y.1);
                }
                (0, x.1.min(y.1))
            }
            Op::Or => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                let hb = x.1 | y.1;
                let hi = if hb == 0 { 0 } else { mask(128 - hb.leading_zeros()) };
                (x.0.max(y.0), hi)
            }
            Op::Xor => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                if w == 1 {
                    if x.0 == x.1 && y.0 == y.1 {
                        let v = x.0 ^ y.0;
                        return (v, v);
                    }
                    return top;
                }
                let hb = x.1 | y.1;
                let hi = if hb == 0 { 0 } else { mask(128 - hb.leading_zeros()) };
                (0, hi)
            }
            Op::Shl => {
                if let Some(k) = self.as_const(n.b) {
                    let x = self.range(n.a, r, d);
                    if k < w as u128 && x.1 << k >> k == x.1 && (x.1 << k) <= mask(w) {
                        return (x.0 << k, x.1 << k);
                    }
                }
                top
            }
            Op::LShr => {
                if let Some(k) = self.as_const(n.b) {
                    let x = self.range(n.a, r, d);
                    if k < w as u128 {
                        return (x.0 >> k, x.1 >> k);
                    }
                }
                (0, self.range(n.a, r, d).1)
            }
            Op::UDiv => {
                let y = self.range(n.b, r, d);
                let x = self.range(n.a, r, d);
                if y.0 > 0 {
                    (x.0 / y.1, x.1 / y.0)
                } else {
                    top
                }
            }
            Op::URem => {
                let y = self.range(n.b, r, d);
                let x = self.range(n.a, r, d);
                if y.0 > 0 {
                    (0, x.1.min(y.1 - 1))
                } else {
                    top
                }
            }
            Op::Eq => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                if x.1 < y.0 || y.1 < x.0 {
                    (0, 0)
                } else if x.0 == x.1 && y == x {
                    (1, 1)
                } else {
                    (0, 1)
                }
            }
            Op::Ult => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                if x.1 < y.0 {
                    (1, 1)
                } else if x.0 >= y.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ule => {
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                if x.1 <= y.0 {
                    (1, 1)
                } else if x.0 > y.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt | Op::Sle => {
                let iw = self.w(n.a);
                let x = self.range(n.a, r, d);
                let y = self.range(n.b, r, d);
                let h = 1u128 << (iw - 1);
                if x.1 < h && y.1 < h {
                    let strict = n.op == Op::Slt;
                    if (strict && x.1 < y.0) || (!strict && x.1 <= y.0) {
                        return (1, 1);
                    }
                    if (strict && x.0 >= y.1) || (!strict && x.0 > y.1) {
                        return (0, 0);
                    }
                }
                if x.1 < h && y.0 >= h {
                    return (0, 0);
                }
                if x.0 >= h && y.1 < h {
                    return (1, 1);
                }
                (0, 1)
            }
            _ => top,
        }
    }

    /// Narrow variable intervals with a constraint known to hold.
    pub fn refine(&self, e: E, truth: bool, r: &mut Ranges) {
        if let Some(i) = self.is_not(e) {
            return self.refine(i, !truth, r);
        }
        let n = self.n(e);
        match n.op {
            Op::And if n.w == 1 && truth => {
                self.refine(n.a, true, r);
                self.refine(n.b, true, r);
            }
            Op::Or if n.w == 1 && !truth => {
                self.refine(n.a, false, r);
                self.refine(n.b, false, r);
            }
            Op::Eq => {
                if let Some(k) = self.as_const(n.b) {
                    if truth {
                        self.refine_range(n.a, k, k, r, 8);
                    } else {
                        let (lo, hi) = self.range(n.a, r, 12);
                        if k == lo && lo < hi {
                            self.refine_range(n.a, lo + 1, hi, r, 8);
                        } else if k == hi && lo < hi {
                            self.refine_range(n.a, lo, hi - 1, r, 8);
                        }
                    }
                } else if truth {
                    let x = self.range(n.a, r, 12);
                    let y = self.range(n.b, r, 12);
                    let (lo, hi) = (x.0.max(y.0), x.1.min(y.1));
                    if lo <= hi {
                        self.refine_range(n.a, lo, hi, r, 8);
                        self.refine_range(n.b, lo, hi, r, 8);
                    }
                }
            }
            Op::Ult => {
                let x = self.range(n.a, r, 12);
                let y = self.range(n.b, r, 12);
                if truth {
                    if y.1 > 0 {
                        self.refine_range(n.a, x.0, x.1.min(y.1 - 1), r, 8);
                    }
                    self.refine_range(n.b, y.0.max(x.0.saturating_add(1)), y.1, r, 8);
                } else {
                    self.refine_range(n.a, x.0.max(y.0), x.1, r, 8);
                    self.refine_range(n.b, y.0, y.1.min(x.1), r, 8);
                }
            }
            _ => {}
        }
    }
    fn refine_range(&self, e: E, lo: u128, hi: u128, r: &mut Ranges, depth: u32) {
        if depth == 0 || lo > hi {
            return;
        }
        let n = self.n(e);
        match n.op {
            Op::Var => {
                if let Some(x) = r.get_mut(n.a as usize) {
                    let l = x.0.max(lo.min(u64::MAX as u128) as u64);
                    let h = x.1.min(hi.min(u64::MAX as u128) as u64);
                    if l <= h {
                        *x = (l, h);
                    }
                }
            }
            Op::ZExt => self.refine_range(n.a, lo, hi, r, depth - 1),
            Op::Add => {
                if let Some(k) = self.as_const(n.b) {
                    let x = self.range(n.a, r, 8);
                    let m = mask(n.w as u32);
                    if let Some(t) = x.1.checked_add(k) {
                        if t <= m {
                            if hi >= k {
                                self.refine_range(n.a, lo.saturating_sub(k), hi - k, r, depth - 1);
                            }
                        } else if (n.w as u32) < 128 && x.0 + k > m {
                            // always wraps: value = x + k - (m+1)
                            let off = m + 1 - k;
                            self.refine_range(n.a, lo + off, hi + off, r, depth - 1);
                        }
                    }
                }
            }
            Op::Extract if n.b == 0 => {
                let x = self.range(n.a, r, 8);
                if x.1 <= mask(n.w as u32) {
                    self.refine_range(n.a, lo, hi, r, depth - 1);
                }
            }
            _ => {}
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}", n.a),
            _ if depth == 0 => "..".into(),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("(ext[{}+{}] {})", n.b, n.w, self.show(n.a, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
