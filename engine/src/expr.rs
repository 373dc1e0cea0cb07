//! Hash-consed bit-vector expressions (width 1..=128) with simplification and evaluation.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,  // a = high, b = low
    Extract, // val = low bit, width = w
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub v: u128, // constant value / var id / extract lo
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, FxB>,
    pub vars: Vec<Option<Rc<Vec<u32>>>>,
    pub nvars: u32,
    pub var_nodes: Vec<E>,
}

#[derive(Clone, Copy, Default)]
pub struct FxB;
pub struct FxH(u64);
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    // w: operand width
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a >= 0 { m } else { 1 }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext(x, w);
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((a >> s.min(127)) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => return None,
    })
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: Vec::new(), map: HashMap::default(), vars: Vec::new(), nvars: 0, var_nodes: vec![] };
        // index 0 reserved
        a.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, v: 0 });
        a.vars.push(Some(Rc::new(vec![])));
        a
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(None);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    pub fn var(&mut self, w: u32) -> E {
        let id = self.nvars;
        self.nvars += 1;
        let e = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, v: id as u128 });
        self.var_nodes.push(e);
        e
    }
    pub fn varnode(&self, id: u32) -> E {
        self.var_nodes[id as usize]
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn not1(&mut self, e: E) -> E {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, e, one)
    }
    /// if e is `not x`, return x
    pub fn strip_not(&self, e: E) -> (E, bool) {
        let n = self.n(e);
        if n.w == 1 && n.op == Op::Xor {
            if self.cv(n.b) == Some(1) {
                return (n.a, true);
            }
        }
        (e, false)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y).unwrap();
            return self.konst(rw, v);
        }
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        // commutative: constant right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                    std::mem::swap(&mut ca, &mut cb);
                }
            }
            _ => {}
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(x) = self.cv(n.b) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.konst(w, (!y).wrapping_add(1));
                    return self.bin(Op::Add, a, k);
                }
                // x - (x / d) * d
                if self.is_quot_mul(a, b) {
                    let n = self.n(b);
                    let d = if self.n(n.a).op == Op::UDiv && self.n(n.a).a == a && self.n(n.a).b == n.b { n.b } else { n.a };
                    return self.bin(Op::URem, a, d);
                }
                // (x + c) - x
                let n = self.n(a);
                if n.op == Op::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y != 0 && y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if cb == Some(1) {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    if y != 0 && y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(y) = cb {
                    // mask of low bits: zext(extract)
                    if (y & (y + 1)) == 0 {
                        let k = y.count_ones();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let (sa, na) = self.strip_not(a);
                    let (sb, nb) = self.strip_not(b);
                    if sa == sb && na != nb {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                // zext(x) | (zext(y) << k) => concat
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
                if w == 1 {
                    let (sa, na) = self.strip_not(a);
                    let (sb, nb) = self.strip_not(b);
                    if sa == sb && na != nb {
                        return self.konst(1, 1);
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(x) = self.cv(n.b) {
                            let k = self.konst(w, x ^ y);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if w == 1 && y == 1 {
                        // push negation into comparisons
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = y as u32;
                    let hi = self.extract(a, 0, w - k);
                    let z = self.konst(k, 0);
                    return self.concat(hi, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = y as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let k = (y.min((w - 1) as u128)) as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not1(a);
                    }
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let t = y & mask(iw);
                            if (sext(t, iw) as u128) & m != y {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, t);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.konst(lw, y);
                            let kh = self.konst(hw, y >> lw);
                            let el = self.bin(Op::Eq, n.b, kl);
                            if self.cv(el) == Some(0) {
                                return el;
                            }
                            let eh = self.bin(Op::Eq, n.a, kh);
                            return self.bin(Op::And, eh, el);
                        }
                        Op::Add => {
                            if let Some(x) = self.cv(n.b) {
                                let k = self.konst(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.cv(n.b) {
                                let k = self.konst(w, y ^ x);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Ite => {
                            let (ct, cf) = (self.cv(n.b), self.cv(n.c));
                            if ct.is_some() || cf.is_some() {
                                let kb = self.konst(w, y);
                                let t = self.bin(Op::Eq, n.b, kb);
                                let f = self.bin(Op::Eq, n.c, kb);
                                return self.ite(n.a, t, f);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let el = self.bin(Op::Eq, na.b, nb.b);
                        let eh = self.bin(Op::Eq, na.a, nb.a);
                        return self.bin(Op::And, eh, el);
                    }
                    if na.op == Op::Add && na.a == b && self.cv(na.b).is_some() {
                        return self.konst(1, 0);
                    }
                    if nb.op == Op::Add && nb.a == a && self.cv(nb.b).is_some() {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Ult => {
                if let (Some(x), None) = (ca, cb) {
                    if self.upper(b, 4) <= x {
                        return self.konst(1, 0);
                    }
                }
                if let (Some(y), None) = (cb, ca) {
                    if self.upper(a, 4) < y {
                        return self.konst(1, 1);
                    }
                }
                // x < (x / d) * d never holds
                if self.is_quot_mul(a, b) {
                    return self.konst(1, 0);
                }
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.konst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(w, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not1(e);
                }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Ule => {
                if let (Some(x), None) = (ca, cb) {
                    if self.upper(b, 4) < x {
                        return self.konst(1, 0);
                    }
                }
                if let (Some(y), None) = (cb, ca) {
                    if self.upper(a, 4) <= y {
                        return self.konst(1, 1);
                    }
                }
                if self.is_quot_mul(b, a) {
                    return self.konst(1, 1);
                }
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.konst(1, 1);
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) {
                    return r;
                }
                if let Some(y) = cb {
                    let k = self.konst(w, y + 1);
                    return self.bin(Op::Ult, a, k);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.konst(1, 0);
                }
                let (na, nb) = (self.n(a), self.n(b));
                // both non-negative by zext
                let nna = na.op == Op::ZExt || ca.map_or(false, |x| sext(x, w) >= 0);
                let nnb = nb.op == Op::ZExt || cb.map_or(false, |x| sext(x, w) >= 0);
                if nna && nnb {
                    return self.bin(Op::Ult, a, b);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.konst(1, 1);
                }
                let (na, nb) = (self.n(a), self.n(b));
                let nna = na.op == Op::ZExt || ca.map_or(false, |x| sext(x, w) >= 0);
                let nnb = nb.op == Op::ZExt || cb.map_or(false, |x| sext(x, w) >= 0);
                if nna && nnb {
                    return self.bin(Op::Ule, a, b);
                }
            }
            _ => {}
        }
        if let Some(r) = self.by_range(op, w, a, b, ca, cb) {
            return r;
        }
        // distribute binary ops with a constant over ite of constants
        if let (Some(_), true) = (cb, matches!(op, Op::Add | Op::Mul | Op::UDiv | Op::URem | Op::And | Op::Or | Op::Xor | Op::Ult | Op::Ule | Op::Slt | Op::Sle)) {
            let n = self.n(a);
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let t = self.bin(op, n.b, b);
                let f = self.bin(op, n.c, b);
                return self.ite(n.a, t, f);
            }
        }
        self.mk(Node { op, w: rw, a, b, c: 0, v: 0 })
    }
    fn cmp_zext(&mut self, op: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(y) = cb {
                if y > mask(iw) {
                    return Some(self.konst(1, 1));
                }
                let k = self.konst(iw, y);
                return Some(self.bin(op, na.a, k));
            }
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                return Some(self.bin(op, na.a, nb.a));
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if let Some(x) = ca {
                if x > mask(iw) {
                    return Some(self.konst(1, 0));
                }
                let k = self.konst(iw, x);
                return Some(self.bin(op, k, nb.a));
            }
        }
        None
    }
    /// Recognise disjoint-bits `or` (byte assembling) and turn it into a concat.
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        // one is concat(h, 0_k), other is zext(l) with |l| <= k
        let try_ = |s: &mut Self, hi: Node, lo: Node, loe: E| -> Option<E> {
            if hi.op != Op::Concat {
                return None;
            }
            let k = s.w(hi.b);
            if s.cv(hi.b) != Some(0) {
                return None;
            }
            if lo.op == Op::ZExt && s.w(lo.a) <= k {
                let l = s.zext(lo.a, k);
                return Some(s.concat(hi.a, l));
            }
            if lo.op == Op::Concat {
                // lo = concat(lh, ll): need its high part (w-k bits) to be zero
                let h = s.extract(loe, k, w - k);
                if s.cv(h) == Some(0) {
                    let l = s.extract(loe, 0, k);
                    return Some(s.concat(hi.a, l));
                }
            }
            if lo.op == Op::Const && lo.v <= mask(k) {
                let l = s.konst(k, lo.v);
                return Some(s.concat(hi.a, l));
            }
            None
        };
        if let Some(r) = try_(self, na, nb, b) {
            return Some(r);
        }
        if let Some(r) = try_(self, nb, na, a) {
            return Some(r);
        }
        // const with concat/zext: split by zext boundary
        None
    }
    /// Divisions and comparisons with a constant that the interval of the other side decides.
    fn by_range(&mut self, op: Op, w: u32, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        if w > 64 {
            return None;
        }
        match op {
            Op::SDiv | Op::SRem | Op::UDiv | Op::URem => {
                let c = cb? as i128;
                let (lo, hi) = self.srange(a, 8)?;
                if c <= 0 || c > (mask(w) >> 1) as i128 || (matches!(op, Op::UDiv | Op::URem) && lo < 0) || lo / c != hi / c {
                    return None;
                }
                // the quotient is the same everywhere
                let q = lo / c;
                if matches!(op, Op::SDiv | Op::UDiv) {
                    return Some(self.konst(w, q as u128 & mask(w)));
                }
                let k = self.konst(w, (-(q * c)) as u128 & mask(w));
                Some(self.bin(Op::Add, a, k))
            }
            Op::Slt | Op::Sle | Op::Ult | Op::Ule if ca.is_some() != cb.is_some() => {
                let (la, ha) = self.srange(a, 4)?;
                let (lb, hb) = self.srange(b, 4)?;
                if matches!(op, Op::Ult | Op::Ule) && (la < 0 || lb < 0) {
                    return None;
                }
                let (yes, no) = if matches!(op, Op::Slt | Op::Ult) { (ha < lb, la >= hb) } else { (ha <= lb, la > hb) };
                (yes || no).then(|| self.konst(1, yes as u128))
            }
            _ => None,
        }
    }
    /// The interval of the value taken as signed, when anything is known.
    fn srange(&self, e: E, depth: u32) -> Option<(i128, i128)> {
        let n = self.n(e);
        let w = self.w(e);
        if w > 64 {
            return None;
        }
        if n.op == Op::Const {
            let x = sext(n.v, w);
            return Some((x, x));
        }
        if depth == 0 {
            return None;
        }
        let d = depth - 1;
        let h = (mask(w) >> 1) as i128;
        let fits = |r: (i128, i128)| (r.0 >= -h - 1 && r.1 <= h).then_some(r);
        match n.op {
            Op::ZExt | Op::URem | Op::UDiv | Op::And | Op::Concat => {
                let u = self.upper(e, d);
                (u <= h as u128).then_some((0, u as i128))
            }
            Op::SExt => self.srange(n.a, d),
            Op::Extract if n.v == 0 => fits(self.srange(n.a, d)?),
            Op::Add | Op::Sub => {
                let (a, b) = (self.srange(n.a, d)?, self.srange(n.b, d)?);
                fits(if n.op == Op::Add { (a.0 + b.0, a.1 + b.1) } else { (a.0 - b.1, a.1 - b.0) })
            }
            Op::Mul | Op::SDiv => {
                let (a, b) = (self.srange(n.a, d)?, sext(self.cv(n.b)?, w));
                if b <= 0 {
                    return None;
                }
                fits(if n.op == Op::Mul { (a.0 * b, a.1 * b) } else { (a.0 / b, a.1 / b) })
            }
            Op::SRem => {
                let c = sext(self.cv(n.b)?, w).checked_abs()?;
                if c == 0 {
                    return None;
                }
                let neg = self.srange(n.a, d).is_none_or(|r| r.0 < 0);
                Some((if neg { 1 - c } else { 0 }, c - 1))
            }
            Op::Ite => {
                let (a, b) = (self.srange(n.b, d)?, self.srange(n.c, d)?);
                Some((a.0.min(b.0), a.1.max(b.1)))
            }
            _ => None,
        }
    }
    /// An upper bound of the (unsigned) value.
    fn upper(&self, e: E, depth: u32) -> u128 {
        let n = self.n(e);
        let m = mask(self.w(e));
        if n.op == Op::Const {
            return n.v;
        }
        if depth == 0 {
            return m;
        }
        let d = depth - 1;
        match n.op {
            Op::ZExt => self.upper(n.a, d),
            Op::URem => match self.cv(n.b) {
                Some(c) if c > 0 => self.upper(n.a, d).min(c - 1),
                _ => self.upper(n.a, d),
            },
            Op::UDiv => match self.cv(n.b) {
                Some(c) if c > 0 => self.upper(n.a, d) / c,
                _ => m,
            },
            Op::And => self.upper(n.a, d).min(self.upper(n.b, d)),
            Op::Ite => self.upper(n.b, d).max(self.upper(n.c, d)),
            Op::Add => self.upper(n.a, d).checked_add(self.upper(n.b, d)).filter(|x| *x <= m).unwrap_or(m),
            Op::Mul => self.upper(n.a, d).checked_mul(self.upper(n.b, d)).filter(|x| *x <= m).unwrap_or(m),
            Op::Concat => {
                let wl = self.w(n.b);
                let lo = self.upper(n.b, d);
                (self.upper(n.a, d) << wl) | lo
            }
            _ => m,
        }
    }
    /// p == (x / d) * d, whose value never exceeds x
    fn is_quot_mul(&self, x: E, p: E) -> bool {
        let n = self.n(p);
        if n.op != Op::Mul {
            return false;
        }
        let (u, v) = (self.n(n.a), self.n(n.b));
        (u.op == Op::UDiv && u.a == x && u.b == n.b) || (v.op == Op::UDiv && v.a == x && v.b == n.a)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        debug_assert!(w <= 128);
        let (ch, cl) = (self.cv(h), self.cv(l));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.konst(w, (x << wl) | y);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let a = self.concat(nh.b, nl.b);
            let b = self.concat(nh.c, nl.c);
            return self.ite(nh.a, a, b);
        }
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.v as u32 == nl.v as u32 + wl {
            return self.extract(nh.a, nl.v as u32, w);
        }
        if nh.op == Op::Extract && nh.a == l && nh.v as u32 == wl {
            return self.extract(l, 0, w);
        }
        // l is itself whole low part of nh.a: extract(a, wl..) ++ extract... handled by Extract case; low part may be `trunc` = Extract lo 0
        // right-assoc: concat(concat(x,y), l) => concat(x, concat(y,l)) when mergeable
        if nh.op == Op::Concat {
            let (x, y) = (nh.a, nh.b);
            let ny = self.n(y);
            let mergeable = (ny.op == Op::Extract && nl.op == Op::Extract && ny.a == nl.a && ny.v as u32 == nl.v as u32 + wl)
                || (ny.op == Op::Const && nl.op == Op::Const);
            if mergeable {
                let yl = self.concat(y, l);
                return self.concat(x, yl);
            }
        }
        if nl.op == Op::Concat {
            let (x, y) = (nl.a, nl.b);
            let nx = self.n(x);
            let wx = self.w(x);
            let mergeable = (nh.op == Op::Extract && nx.op == Op::Extract && nh.a == nx.a && nh.v as u32 == nx.v as u32 + wx)
                || (nh.op == Op::Const && nx.op == Op::Const);
            if mergeable {
                let hx = self.concat(h, x);
                return self.concat(hx, y);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, v: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        debug_assert!(lo + w <= n.w && w > 0, "extract {} {} of {}", lo, w, n.w);
        if lo == 0 && w == n.w {
            return e;
        }
        match n.op {
            Op::Const => return self.konst(w, n.v >> lo),
            Op::Extract => return self.extract(n.a, lo + n.v as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let l = self.extract(n.a, lo, iw - lo);
                    return self.sext(l, w);
                }
            }
            // only where the result gets simpler: bytes stored to memory must merge again when reloaded
            Op::And | Op::Or | Op::Xor if self.cv(n.a).is_some() || self.cv(n.b).is_some() => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let a = self.extract(n.b, lo, w);
                let b = self.extract(n.c, lo, w);
                return self.ite(n.a, a, b);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, v: lo as u128 })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        match n.op {
            Op::Const => return self.konst(w, n.v),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let a = self.zext(n.b, w);
                let b = self.zext(n.c, w);
                return self.ite(n.a, a, b);
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a: e, b: 0, c: 0, v: 0 })
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        match n.op {
            Op::Const => return self.konst(w, sext(n.v, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0, v: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let (sc, neg) = self.strip_not(c);
        if neg {
            return self.ite(sc, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(Op::And, nc, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        let nf = self.n(f);
        if nf.op == Op::Ite && nf.b == t {
            let cc = self.bin(Op::Or, c, nf.a);
            return self.ite(cc, t, nf.c);
        }
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, v: 0 })
    }
    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        let n = self.n(e);
        let r: Rc<Vec<u32>> = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.v as u32]),
            Op::Extract | Op::ZExt | Op::SExt => self.vars_of(n.a),
            Op::Ite => {
                let a = self.vars_of(n.a);
                let b = self.vars_of(n.b);
                let c = self.vars_of(n.c);
                let x = merge(&a, &b);
                Rc::new(merge(&x, &c))
            }
            _ => {
                let a = self.vars_of(n.a);
                let b = self.vars_of(n.b);
                if b.is_empty() {
                    a
                } else if a.is_empty() {
                    b
                } else {
                    Rc::new(merge(&a, &b))
                }
            }
        };
        self.vars[e as usize] = Some(r.clone());
        r
    }
    pub fn eval(&self, e: E, m: &HashMap<u32, u128, FxB>, memo: &mut HashMap<E, u128, FxB>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.v,
            Op::Var => return m.get(&(n.v as u32)).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let n = *n;
        let r = match n.op {
            Op::Concat => {
                let wl = self.w(n.b);
                (self.eval(n.a, m, memo) << wl) | self.eval(n.b, m, memo)
            }
            Op::Extract => (self.eval(n.a, m, memo) >> n.v as u32) & mask(n.w),
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => {
                let iw = self.w(n.a);
                (sext(self.eval(n.a, m, memo), iw) as u128) & mask(n.w)
            }
            Op::Ite => {
                if self.eval(n.a, m, memo) == 1 {
                    self.eval(n.b, m, memo)
                } else {
                    self.eval(n.c, m, memo)
                }
            }
            op => {
                let w = self.w(n.a);
                let x = self.eval(n.a, m, memo);
                let y = self.eval(n.b, m, memo);
                fold(op, w, x, y).unwrap()
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", n.v, n.w),
            Op::Var => format!("v{}:{}", n.v, n.w),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.v, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

fn merge(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            r.push(a[i]);
            i += 1
        } else if a[i] > b[j] {
            r.push(b[j]);
            j += 1
        } else {
            r.push(a[i]);
            i += 1;
            j += 1
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
