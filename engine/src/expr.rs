//! Hash-consed bit-vector expressions with a simplifying builder.
//! Widths run from 1 to 128 bits; every variable is one symbolic input byte.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Not,
    Uf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    pub vs: u32,
    pub umax: u128,
    pub leaves: u32,
}

/// A run-time value: concrete (width <= 64) or an expression.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    C(u64),
    S(Id),
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    tab: Map<Key, Id>,
    pub varsets: Vec<Vec<u32>>,
    vstab: Map<Vec<u32>, u32>,
    union_memo: Map<(u32, u32), u32>,
    canon_memo: Map<(Id, u32), Id>,
    stamp: Vec<(u32, Option<u128>)>,
    cur: u32,
}

const MAXLEAF: u32 = 48;

impl Exprs {
    pub fn new() -> Self {
        let mut e = Exprs {
            nodes: vec![],
            tab: Map::default(),
            varsets: vec![vec![]],
            vstab: Map::default(),
            union_memo: Map::default(),
            canon_memo: Map::default(),
            stamp: vec![],
            cur: 0,
        };
        e.vstab.insert(vec![], 0);
        // id 0 is reserved (means "concrete byte" in memory overlays)
        let z = Node {
            key: Key { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 },
            vs: 0,
            umax: 0,
            leaves: 0,
        };
        e.nodes.push(z);
        e
    }
    pub fn intern_vs(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.vstab.get(&v) {
            return i;
        }
        let i = self.varsets.len() as u32;
        self.varsets.push(v.clone());
        self.vstab.insert(v, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_memo.get(&k) {
            return r;
        }
        let mut v = self.varsets[a as usize].clone();
        v.extend_from_slice(&self.varsets[b as usize]);
        v.sort_unstable();
        v.dedup();
        let r = self.intern_vs(v);
        self.union_memo.insert(k, r);
        r
    }
    #[inline]
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].key.w as u32
    }
    #[inline]
    pub fn n(&self, i: Id) -> Key {
        self.nodes[i as usize].key
    }
    #[inline]
    pub fn cst(&self, i: Id) -> Option<u128> {
        let k = &self.nodes[i as usize].key;
        if k.op == Op::Const {
            Some(k.k)
        } else {
            None
        }
    }
    pub fn vs(&self, i: Id) -> u32 {
        self.nodes[i as usize].vs
    }
    pub fn umax(&self, i: Id) -> u128 {
        self.nodes[i as usize].umax
    }

    fn raw(&mut self, key: Key) -> Id {
        if let Some(&i) = self.tab.get(&key) {
            return i;
        }
        let w = key.w as u32;
        let m = mask(w);
        let mx = |i: Id| self.nodes[i as usize].umax;
        let (umax, leaves) = match key.op {
            Op::Const => (key.k, 1),
            Op::ZExt => (mx(key.a), 0),
            Op::And => (mx(key.a).min(mx(key.b)), 0),
            Op::Or | Op::Xor => {
                let t = mx(key.a) | mx(key.b);
                let bits = 128 - t.leading_zeros();
                (mask(bits).min(m), 0)
            }
            Op::Add => {
                let s = mx(key.a).checked_add(mx(key.b));
                (s.filter(|s| *s <= m).unwrap_or(m), 0)
            }
            Op::Mul => {
                let s = mx(key.a).checked_mul(mx(key.b));
                (s.filter(|s| *s <= m).unwrap_or(m), 0)
            }
            Op::LShr => {
                if let Some(k) = self.cst(key.b) {
                    (if k >= 128 { 0 } else { mx(key.a) >> k }, 0)
                } else {
                    (mx(key.a), 0)
                }
            }
            Op::Shl => {
                if let Some(k) = self.cst(key.b) {
                    if k < 64 && mx(key.a) <= (m >> k) {
                        (mx(key.a) << k, 0)
                    } else {
                        (m, 0)
                    }
                } else {
                    (m, 0)
                }
            }
            Op::UDiv => {
                if let Some(k) = self.cst(key.b) {
                    (if k == 0 { m } else { mx(key.a) / k }, 0)
                } else {
                    (m, 0)
                }
            }
            Op::URem => {
                if let Some(k) = self.cst(key.b) {
                    (if k == 0 { mx(key.a) } else { mx(key.a).min(k - 1) }, 0)
                } else {
                    (mx(key.a), 0)
                }
            }
            Op::Concat => {
                let wb = self.w(key.b);
                ((mx(key.a) << wb) | mask(wb), 0)
            }
            Op::Ite => {
                let (la, lb) = (self.nodes[key.b as usize].leaves, self.nodes[key.c as usize].leaves);
                let l = if la > 0 && lb > 0 { la + lb } else { 0 };
                (mx(key.b).max(mx(key.c)), l)
            }
            _ => (m, 0),
        };
        let mut vs = 0;
        if key.op == Op::Var {
            vs = self.intern_vs(vec![key.k as u32]);
        } else if key.op != Op::Const {
            for x in [key.a, key.b, key.c] {
                if x != 0 {
                    let v = self.vs(x);
                    vs = self.union(vs, v);
                }
            }
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(Node { key, vs, umax, leaves });
        self.tab.insert(key, i);
        i
    }
    pub fn konst(&mut self, w: u32, k: u128) -> Id {
        self.raw(Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> Id {
        self.raw(Key { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    fn mk(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id, k: u128) -> Id {
        self.raw(Key { op, w: w as u16, a, b, c, k })
    }
    #[inline]
    pub fn to_id(&mut self, v: Val, w: u32) -> Id {
        match v {
            Val::C(k) => self.konst(w, k as u128),
            Val::S(i) => {
                debug_assert_eq!(self.w(i), w, "width mismatch {}", self.show(i));
                i
            }
        }
    }
    #[inline]
    pub fn to_val(&self, i: Id) -> Val {
        let k = &self.nodes[i as usize].key;
        if k.op == Op::Const && k.w <= 64 {
            Val::C(k.k as u64)
        } else {
            Val::S(i)
        }
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let a = sx(x, w);
                if y >= w as u128 {
                    if a < 0 {
                        m
                    } else {
                        0
                    }
                } else {
                    (a >> y) as u128
                }
            }
            _ => unreachable!(),
        };
        r & m
    }
    fn cmp_fold(op: Op, w: u32, x: u128, y: u128) -> bool {
        match op {
            Op::Eq => x == y,
            Op::Ult => x < y,
            Op::Ule => x <= y,
            Op::Slt => sx(x, w) < sx(y, w),
            Op::Sle => sx(x, w) <= sx(y, w),
            _ => unreachable!(),
        }
    }
    fn leaves(&self, i: Id) -> u32 {
        self.nodes[i as usize].leaves
    }
    fn is_tree(&self, i: Id) -> bool {
        self.nodes[i as usize].key.op == Op::Ite && self.leaves(i) > 0 && self.leaves(i) <= MAXLEAF
    }
    /// Applies f to the leaves of an if-then-else tree with constant leaves.
    fn map_tree(&mut self, i: Id, f: &mut dyn FnMut(&mut Self, u128) -> Id) -> Id {
        let n = self.n(i);
        if n.op == Op::Const {
            return f(self, n.k);
        }
        let a = self.map_tree(n.b, f);
        let b = self.map_tree(n.c, f);
        self.ite(n.a, a, b)
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, Self::fold(op, w, x, y));
        }
        if w == 1 {
            // booleans
            match op {
                Op::Add | Op::Sub => return self.bin(Op::Xor, a, b),
                Op::Mul => return self.bin(Op::And, a, b),
                _ => {}
            }
        }
        // constants to the right for commutative operators
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            if ca.is_some() && cb.is_none() {
                return self.bin(op, b, a);
            }
            if cb.is_none() {
                return self.bin2(op, w, m, b, a);
            }
        }
        self.bin2(op, w, m, a, b)
    }
    fn bin2(&mut self, op: Op, w: u32, m: u128, a: Id, b: Id) -> Id {
        let cb = self.cst(b);
        if self.is_tree(a) && cb.is_some() {
            return self.map_tree(a, &mut |s, k| {
                let k = s.konst(w, k);
                s.bin(op, k, b)
            });
        }
        if self.is_tree(b) && self.cst(a).is_some() {
            return self.map_tree(b, &mut |s, k| {
                let k = s.konst(w, k);
                s.bin(op, a, k)
            });
        }
        let na = self.n(a);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.cst(na.b) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if let Some(y) = cb {
                    let k = self.konst(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                if a == b {
                    return self.konst(w, 0);
                }
                // (x+c1)-(y) where x==y
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                let nb = self.n(b);
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y != 0 && self.umax(a) < y {
                        return self.konst(w, 0);
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y != 0 && self.umax(a) < y {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // mask covers the value
                    let ones = 128 - self.umax(a).leading_zeros();
                    if mask(ones) & y == mask(ones) {
                        return a;
                    }
                    if mask(ones) & y == 0 {
                        return self.konst(w, 0);
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.cst(na.b) {
                            let k = self.konst(w, x & y);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.konst(iw, y);
                        let t = self.bin(Op::And, na.a, k);
                        return self.zext(t, w);
                    }
                    // low mask => extract
                    if w > 1 && (y + 1).is_power_of_two() && y != m {
                        let lw = y.count_ones();
                        let t = self.extract(a, 0, lw);
                        if self.n(t).op != Op::Extract {
                            return self.zext(t, w);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    if (na.op == Op::Not && na.a == b) || (self.n(b).op == Op::Not && self.n(b).a == a) {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    if (na.op == Op::Not && na.a == b) || (self.n(b).op == Op::Not && self.n(b).a == a) {
                        return self.konst(1, 1);
                    }
                }
                // (x << k) | zext(y) with y < 2^k  =>  concat
                if let Some(r) = self.or_concat(w, a, b) {
                    return r;
                }
                if let Some(r) = self.or_concat(w, b, a) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(x) = self.cst(na.b) {
                            let k = self.konst(w, x ^ y);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let y = y as u32;
                    if y % 8 == 0 && w % 8 == 0 {
                        let lo = self.extract(a, 0, w - y);
                        let z = self.konst(y, 0);
                        return self.concat(lo, z);
                    }
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let y = y as u32;
                    if self.umax(a) >> y == 0 {
                        return self.konst(w, 0);
                    }
                    let t = self.extract(a, y, w - y);
                    return self.zext(t, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if self.umax(a) <= m >> 1 {
                    return self.bin(Op::LShr, a, b);
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn or_concat(&mut self, w: u32, a: Id, b: Id) -> Option<Id> {
        let na = self.n(a);
        if na.op != Op::Concat {
            return None;
        }
        if self.cst(na.b) != Some(0) {
            return None;
        }
        let lw = self.w(na.b);
        if self.umax(b) > mask(lw) {
            return None;
        }
        let lo = self.extract(b, 0, lw);
        let r = self.concat(na.a, lo);
        debug_assert_eq!(self.w(r), w);
        Some(r)
    }
    pub fn not(&mut self, a: Id) -> Id {
        debug_assert_eq!(self.w(a), 1);
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(1, 1 - n.k),
            Op::Not => n.a,
            Op::Ult => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => self.cmp(Op::Slt, n.b, n.a),
            Op::Ite if self.leaves(n.b) == 1 || self.leaves(n.c) == 1 => {
                let x = self.not(n.b);
                let y = self.not(n.c);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Not, 1, a, 0, 0, 0),
        }
    }
    pub fn cmp(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(1, Self::cmp_fold(op, w, x, y) as u128);
        }
        if a == b {
            return self.konst(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128);
        }
        if op == Op::Eq && ca.is_some() {
            return self.cmp(op, b, a);
        }
        if self.is_tree(a) && cb.is_some() {
            return self.map_tree(a, &mut |s, k| s.konst(1, Self::cmp_fold(op, w, k, cb.unwrap()) as u128));
        }
        if self.is_tree(b) && ca.is_some() {
            return self.map_tree(b, &mut |s, k| s.konst(1, Self::cmp_fold(op, w, ca.unwrap(), k) as u128));
        }
        let (na, nb) = (self.n(a), self.n(b));
        match op {
            Op::Eq => {
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(y) = cb {
                    if self.umax(a) < y {
                        return self.konst(1, 0);
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let k = self.konst(iw, y);
                            return self.cmp(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let k = self.konst(iw, y);
                            return if (sx(y & mask(iw), iw) as u128) & mask(w) == y {
                                self.cmp(Op::Eq, na.a, k)
                            } else {
                                self.konst(1, 0)
                            };
                        }
                        Op::Add => {
                            if let Some(x) = self.cst(na.b) {
                                let k = self.konst(w, y.wrapping_sub(x));
                                return self.cmp(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.cst(na.b) {
                                let k = self.konst(w, y ^ x);
                                return self.cmp(Op::Eq, na.a, k);
                            }
                            if y == 0 {
                                return self.cmp(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub if y == 0 => return self.cmp(Op::Eq, na.a, na.b),
                        Op::Or if y == 0 => {
                            let z = self.konst(w, 0);
                            let p = self.cmp(Op::Eq, na.a, z);
                            let q = self.cmp(Op::Eq, na.b, z);
                            return self.bin(Op::And, p, q);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hk = self.konst(w - lw, y >> lw);
                            let lk = self.konst(lw, y);
                            let p = self.cmp(Op::Eq, na.a, hk);
                            let q = self.cmp(Op::Eq, na.b, lk);
                            return self.bin(Op::And, p, q);
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.cmp(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let p = self.cmp(Op::Eq, na.a, nb.a);
                        let q = self.cmp(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, p, q);
                    }
                    if a > b {
                        return self.cmp(Op::Eq, b, a);
                    }
                }
            }
            Op::Ult => {
                if cb == Some(0) {
                    return self.konst(1, 0);
                }
                if let Some(y) = cb {
                    if self.umax(a) < y {
                        return self.konst(1, 1);
                    }
                    if y == 1 {
                        let z = self.konst(w, 0);
                        return self.cmp(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let k = self.konst(self.w(na.a), y);
                        return self.cmp(Op::Ult, na.a, k);
                    }
                }
                if let Some(x) = ca {
                    if self.umax(b) <= x {
                        return self.konst(1, 0);
                    }
                    if x == 0 {
                        let z = self.konst(w, 0);
                        let e = self.cmp(Op::Eq, b, z);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let k = self.konst(self.w(nb.a), x);
                        return self.cmp(Op::Ult, k, nb.a);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                // a <= y  ==  a < y+1
                if let Some(y) = cb {
                    if self.umax(a) <= y {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(w, y + 1);
                    return self.cmp(Op::Ult, a, k);
                }
                if let Some(x) = ca {
                    if x == 0 {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(w, x - 1);
                    return self.cmp(Op::Ult, k, b);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                let top = mask(w) >> 1;
                if self.umax(a) <= top && self.umax(b) <= top {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.cmp(o, a, b);
                }
                if let Some(x) = ca {
                    if x > top && self.umax(b) <= top {
                        return self.konst(1, 1);
                    }
                }
                if let Some(y) = cb {
                    if y > top && self.umax(a) <= top {
                        return self.konst(1, 0);
                    }
                }
            }
            _ => {}
        }
        self.mk(op, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.bin(Op::Or, c, nb.a);
            return self.ite(d, a, nb.c);
        }
        if nb.op == Op::Ite && nb.c == a {
            let nn = self.not(nb.a);
            let d = self.bin(Op::Or, c, nn);
            return self.ite(d, a, nb.b);
        }
        if na.op == Op::Ite && na.c == b {
            let d = self.bin(Op::And, c, na.a);
            return self.ite(d, na.b, b);
        }
        if na.op == Op::Ite && na.b == b {
            let nn = self.not(na.a);
            let d = self.bin(Op::And, c, nn);
            return self.ite(d, na.c, b);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let t = self.ite(c, na.a, nb.a);
            return self.zext(t, w);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if self.is_tree(a) {
            return self.map_tree(a, &mut |s, k| s.konst(w, k));
        }
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if self.umax(a) <= mask(aw) >> 1 {
            return self.zext(a, w);
        }
        if self.is_tree(a) {
            return self.map_tree(a, &mut |s, k| s.konst(w, sx(k, aw) as u128));
        }
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(w, sx(n.k, aw) as u128),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ if aw == 1 => {
                let t = self.konst(w, u128::MAX);
                let f = self.konst(w, 0);
                self.ite(a, t, f)
            }
            _ => self.mk(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if w == aw {
            return a;
        }
        if lo >= 128 - self.umax(a).leading_zeros() {
            return self.konst(w, 0);
        }
        if self.is_tree(a) {
            return self.map_tree(a, &mut |s, k| s.konst(w, k >> lo));
        }
        let n = self.n(a);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let t = self.extract(n.a, lo, iw - lo);
                return self.zext(t, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl if lo == 0 => {
                if let Some(k) = self.cst(n.b) {
                    let x = self.extract(n.a, 0, w);
                    let k = self.konst(w, k);
                    return self.bin(Op::Shl, x, k);
                }
            }
            Op::Ite => {
                if self.leaves(n.b) == 1 || self.leaves(n.c) == 1 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    /// hi ++ lo
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const {
            if nb.op == Op::Const {
                return self.konst(w, (na.k << wb) | nb.k);
            }
            if na.k == 0 {
                return self.zext(b, w);
            }
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k as u32 == nb.k as u32 + wb {
            return self.extract(na.a, nb.k as u32, w);
        }
        // zext(x) truncated pieces: Extract from ZExt are already resolved;
        // ite pieces sharing their condition
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Ite && nb.op == Op::Const && self.is_tree(a) {
            return self.map_tree(a, &mut |s, k| s.konst(w, (k << wb) | nb.k));
        }
        if nb.op == Op::Ite && na.op == Op::Const && self.is_tree(b) {
            return self.map_tree(b, &mut |s, k| s.konst(w, (na.k << wb) | k));
        }
        if na.op == Op::ZExt {
            let t = self.concat(na.a, b);
            return self.zext(t, w);
        }
        // right-assoc: (x ++ y) ++ z with y,z adjacent extracts
        if na.op == Op::Concat {
            let ny = self.n(na.b);
            if ny.op == Op::Extract && nb.op == Op::Extract && ny.a == nb.a && ny.k as u32 == nb.k as u32 + wb {
                let t = self.concat(na.b, b);
                return self.concat(na.a, t);
            }
            if ny.op == Op::Const && nb.op == Op::Const {
                let t = self.concat(na.b, b);
                return self.concat(na.a, t);
            }
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn uf(&mut self, code: u128, w: u32, a: Id, b: Id) -> Id {
        self.mk(Op::Uf, w, a, b, 0, code)
    }

    /// Renames the variables of `i` to their ranks in the variable set `vs`.
    pub fn canon(&mut self, i: Id, vs: u32) -> Id {
        if self.vs(i) == 0 {
            return i;
        }
        if let Some(&r) = self.canon_memo.get(&(i, vs)) {
            return r;
        }
        let n = self.n(i);
        let r = if n.op == Op::Var {
            let p = self.varsets[vs as usize].binary_search(&(n.k as u32)).unwrap();
            self.var(p as u32)
        } else {
            let a = if n.a != 0 { self.canon(n.a, vs) } else { 0 };
            let b = if n.b != 0 { self.canon(n.b, vs) } else { 0 };
            let c = if n.c != 0 { self.canon(n.c, vs) } else { 0 };
            let (mut a, mut b) = (a, b);
            if matches!(n.op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && self.cst(b).is_none() && a > b {
                std::mem::swap(&mut a, &mut b);
            }
            self.mk(n.op, n.w as u32, a, b, c, n.k)
        };
        self.canon_memo.insert((i, vs), r);
        r
    }

    /// Evaluates under an assignment; None when an operation outside the encoding matters.
    pub fn eval(&mut self, i: Id, f: &dyn Fn(u32) -> u8) -> Option<u128> {
        self.cur += 1;
        if self.stamp.len() < self.nodes.len() {
            self.stamp.resize(self.nodes.len() + 1024, (0, None));
        }
        self.ev(i, f)
    }
    fn ev(&mut self, i: Id, f: &dyn Fn(u32) -> u8) -> Option<u128> {
        let n = self.n(i);
        if n.op == Op::Const {
            return Some(n.k);
        }
        if self.stamp[i as usize].0 == self.cur {
            return self.stamp[i as usize].1;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => unreachable!(),
            Op::Var => Some(f(n.k as u32) as u128),
            Op::Uf => {
                let aw = self.w(n.a);
                let x = self.ev(n.a, f);
                let y = if n.b != 0 { self.ev(n.b, f) } else { Some(0) };
                match (x, y) {
                    (Some(x), Some(y)) => crate::float::eval((n.k / 1000) as u32, w, aw, x as u64, y as u64).map(|r| r as u128),
                    _ => None,
                }
            }
            Op::Not => self.ev(n.a, f).map(|x| 1 - x),
            Op::Ite => match self.ev(n.a, f) {
                Some(1) => self.ev(n.b, f),
                Some(_) => self.ev(n.c, f),
                None => None,
            },
            Op::ZExt => self.ev(n.a, f),
            Op::SExt => {
                let aw = self.w(n.a);
                self.ev(n.a, f).map(|x| sx(x, aw) as u128 & mask(w))
            }
            Op::Extract => self.ev(n.a, f).map(|x| (x >> n.k) & mask(w)),
            Op::Concat => {
                let wb = self.w(n.b);
                match (self.ev(n.a, f), self.ev(n.b, f)) {
                    (Some(x), Some(y)) => Some((x << wb) | y),
                    _ => None,
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let aw = self.w(n.a);
                match (self.ev(n.a, f), self.ev(n.b, f)) {
                    (Some(x), Some(y)) => Some(Self::cmp_fold(n.op, aw, x, y) as u128),
                    _ => None,
                }
            }
            _ => match (self.ev(n.a, f), self.ev(n.b, f)) {
                (Some(x), Some(y)) => Some(Self::fold(n.op, w, x, y)),
                (Some(0), _) | (_, Some(0)) if n.op == Op::And => Some(0),
                _ => None,
            },
        };
        self.stamp[i as usize] = (self.cur, r);
        r
    }
    pub fn show(&self, i: Id) -> String {
        self.show_d(i, 6)
    }
    fn show_d(&self, i: Id, d: u32) -> String {
        let n = self.n(i);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.k),
            _ if d == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Extract {
                    s += &format!("[{}+{}]", n.k, n.w);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show_d(x, d - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
