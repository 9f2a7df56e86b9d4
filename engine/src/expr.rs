//! Hash-consed bit-vector expressions (width 1..=128) with simplification.
//!
//! The arena is process-global and single-threaded (the engine parallelises with fork(2)).

use crate::ir::{mask, sext};
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    /// Bits that may be one.
    pub may: u128,
    /// Bits known to be one.
    pub one: u128,
    /// Symbols the expression depends on.
    pub sup: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E, std::hash::BuildHasherDefault<Fx>>,
    pub sets: HashMap<E, [u64; 4]>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

static mut ARENA: Option<Box<Arena>> = None;

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Box::new(Arena { nodes: Vec::with_capacity(1 << 16), map: HashMap::default(), sets: HashMap::new() }));
        }
        ARENA.as_mut().unwrap()
    }
}

pub fn node(e: E) -> &'static Node {
    &ar().nodes[e as usize]
}
pub fn width(e: E) -> u32 {
    node(e).key.w as u32
}
pub fn cval(e: E) -> Option<u128> {
    let n = node(e);
    if n.key.op == Op::Const {
        Some(n.key.k)
    } else {
        None
    }
}
pub fn support(e: E) -> u128 {
    node(e).sup
}

fn intern(key: Key) -> E {
    let a = ar();
    if let Some(&e) = a.map.get(&key) {
        return e;
    }
    let w = key.w as u32;
    let full = mask(u128::MAX, w);
    let (mut may, mut one) = (full, 0u128);
    let na = if key.op != Op::Const && key.op != Op::Sym { Some(a.nodes[key.a as usize]) } else { None };
    let two = matches!(
        key.op,
        Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl
            | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Ite | Op::Concat
    );
    let nb = if two { Some(a.nodes[key.b as usize]) } else { None };
    let mut sup = 0u128;
    if let Some(n) = &na {
        sup |= n.sup;
    }
    if let Some(n) = &nb {
        sup |= n.sup;
    }
    match key.op {
        Op::Const => {
            may = key.k;
            one = key.k;
        }
        Op::Sym => sup = 1u128 << key.k,
        Op::And => {
            may = na.unwrap().may & nb.unwrap().may;
            one = na.unwrap().one & nb.unwrap().one;
        }
        Op::Or => {
            may = na.unwrap().may | nb.unwrap().may;
            one = na.unwrap().one | nb.unwrap().one;
        }
        Op::Xor => {
            let (x, y) = (na.unwrap(), nb.unwrap());
            // known bits: bit known in both
            let kx = x.one | !x.may;
            let ky = y.one | !y.may;
            let k = kx & ky;
            let v = x.one ^ y.one;
            may = full & (!k | v);
            one = full & k & v;
        }
        Op::ZExt => {
            may = na.unwrap().may;
            one = na.unwrap().one;
        }
        Op::SExt => {
            let n = na.unwrap();
            let wa = n.key.w as u32;
            may = mask(sext(n.may, wa) as u128, w);
            one = mask(sext(n.one, wa) as u128, w);
        }
        Op::Extract => {
            may = full & (na.unwrap().may >> key.k);
            one = full & (na.unwrap().one >> key.k);
        }
        Op::Concat => {
            let lw = nb.unwrap().key.w as u32;
            may = full & ((na.unwrap().may << lw) | nb.unwrap().may);
            one = full & ((na.unwrap().one << lw) | nb.unwrap().one);
        }
        Op::Ite => {
            let nc = a.nodes[key.c as usize];
            sup |= nc.sup;
            may = nb.unwrap().may | nc.may;
            one = nb.unwrap().one & nc.one;
        }
        Op::Add => {
            // upper bound on the sum
            let (x, y) = (na.unwrap().may, nb.unwrap().may);
            if let Some(s) = x.checked_add(y) {
                let bits = 128 - s.leading_zeros();
                may = full & mask(u128::MAX, bits);
            }
            // trailing zeros preserved
            let tz = x.trailing_zeros().min(y.trailing_zeros());
            if tz < 128 {
                may &= !mask(u128::MAX, tz);
            }
        }
        Op::Mul => {
            let (x, y) = (na.unwrap().may, nb.unwrap().may);
            if let Some(s) = x.checked_mul(y) {
                let bits = 128 - s.leading_zeros();
                may = full & mask(u128::MAX, bits);
            }
        }
        Op::UDiv => {
            let x = na.unwrap().may;
            may = full & mask(u128::MAX, 128 - x.leading_zeros());
        }
        Op::URem => {
            let x = na.unwrap().may;
            may = full & mask(u128::MAX, 128 - x.leading_zeros());
            if let Op::Const = nb.unwrap().key.op {
                let k = nb.unwrap().key.k;
                if k > 0 {
                    may &= mask(u128::MAX, 128 - (k - 1).leading_zeros());
                }
            }
        }
        Op::LShr => {
            let x = na.unwrap().may;
            may = full & mask(u128::MAX, 128 - x.leading_zeros());
        }
        _ => {}
    }
    let e = a.nodes.len() as E;
    a.nodes.push(Node { key, may, one, sup });
    a.map.insert(key, e);
    e
}

pub fn k(v: u128, w: u32) -> E {
    intern(Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: mask(v, w) })
}
pub fn sym(i: u32) -> E {
    assert!(i < 128, "too many symbols");
    intern(Key { op: Op::Sym, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
}
fn raw2(op: Op, w: u32, a: E, b: E) -> E {
    let e = intern(Key { op, w: w as u16, a, b, c: 0, k: 0 });
    let n = node(e);
    if n.may == n.one && op != Op::Const {
        return k(n.one, w);
    }
    e
}

pub fn zext(a: E, w: u32) -> E {
    let wa = width(a);
    if wa == w {
        return a;
    }
    if let Some(c) = cval(a) {
        return k(c, w);
    }
    let n = node(a);
    if n.key.op == Op::ZExt {
        return zext(n.key.a, w);
    }
    intern(Key { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
}
pub fn sext_e(a: E, w: u32) -> E {
    let wa = width(a);
    if wa == w {
        return a;
    }
    if let Some(c) = cval(a) {
        return k(sext(c, wa) as u128, w);
    }
    let n = node(a);
    if n.may >> (wa - 1) & 1 == 0 {
        return zext(a, w);
    }
    if n.key.op == Op::SExt {
        return sext_e(n.key.a, w);
    }
    intern(Key { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
}
pub fn extract(a: E, lo: u32, w: u32) -> E {
    let wa = width(a);
    if lo == 0 && w == wa {
        return a;
    }
    let n = *node(a);
    let full = mask(u128::MAX, w);
    let may = (n.may >> lo) & full;
    let one = (n.one >> lo) & full;
    if may == one {
        return k(one, w);
    }
    match n.key.op {
        Op::Const => return k(n.key.k >> lo, w),
        Op::Extract => return extract(n.key.a, lo + n.key.k as u32, w),
        Op::Concat => {
            let lw = width(n.key.b);
            if lo >= lw {
                return extract(n.key.a, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(n.key.b, lo, w);
            }
            return concat(extract(n.key.a, 0, lo + w - lw), extract(n.key.b, lo, lw - lo));
        }
        Op::ZExt => {
            let iw = width(n.key.a);
            if lo + w <= iw {
                return extract(n.key.a, lo, w);
            }
            // lo < iw since may != one
            return zext(extract(n.key.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(n.key.a);
            if lo + w <= iw {
                return extract(n.key.a, lo, w);
            }
            if lo < iw {
                return sext_e(extract(n.key.a, lo, iw - lo), w);
            }
            return sext_e(extract(n.key.a, iw - 1, 1), w);
        }
        Op::And | Op::Or | Op::Xor => {
            let x = extract(n.key.a, lo, w);
            let y = extract(n.key.b, lo, w);
            return bin(n.key.op, x, y);
        }
        Op::Ite => {
            let b = node(n.key.b).key.op == Op::Const;
            let c = node(n.key.c).key.op == Op::Const;
            if b || c {
                return ite(n.key.a, extract(n.key.b, lo, w), extract(n.key.c, lo, w));
            }
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let x = extract(n.key.a, 0, w);
            let y = extract(n.key.b, 0, w);
            return bin(n.key.op, x, y);
        }
        _ => {}
    }
    intern(Key { op: Op::Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
}
pub fn concat(hi: E, lo: E) -> E {
    let (wh, wl) = (width(hi), width(lo));
    let w = wh + wl;
    let nh = *node(hi);
    let nl = *node(lo);
    if nh.key.op == Op::Const && nl.key.op == Op::Const {
        return k((nh.key.k << wl) | nl.key.k, w);
    }
    if nh.key.op == Op::Const && nh.key.k == 0 {
        return zext(lo, w);
    }
    // adjacent extracts of the same expression
    if nh.key.op == Op::Extract {
        if nl.key.op == Op::Extract && nl.key.a == nh.key.a && nh.key.k == nl.key.k + wl as u128 {
            return extract(nl.key.a, nl.key.k as u32, w);
        }
        if nh.key.a == lo && nh.key.k == wl as u128 {
            return extract(lo, 0, w);
        }
        if nl.key.op == Op::Concat {
            // hi ++ (x ++ y): merge hi with x when adjacent
            let nx = *node(nl.key.a);
            if nx.key.op == Op::Extract && nx.key.a == nh.key.a && nh.key.k == nx.key.k + nx.key.w as u128 {
                return concat(concat(hi, nl.key.a), nl.key.b);
            }
        }
        // lo is itself a low extract-like of same expression with lo==0 handled above
        if nl.key.op != Op::Extract && node(nh.key.a).key.op == Op::ZExt && node(nh.key.a).key.a == lo && nh.key.k == wl as u128 {
            return extract(nh.key.a, 0, w);
        }
    }
    if nh.key.op == Op::Const && nl.key.op == Op::Concat && node(nl.key.a).key.op == Op::Const {
        return concat(concat(hi, nl.key.a), nl.key.b);
    }
    // normal form: right-nested; (a ++ b) ++ c => a ++ (b ++ c)
    if nh.key.op == Op::Concat {
        return concat(nh.key.a, concat(nh.key.b, lo));
    }
    if nh.key.op == Op::ZExt {
        // 0 ++ x ++ lo
        return zext(concat(nh.key.a, lo), w);
    }
    intern(Key { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0, k: 0 })
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = cval(c) {
        return if v != 0 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    let nc = *node(c);
    if nc.key.op == Op::Xor && cval(nc.key.b) == Some(1) {
        return ite(nc.key.a, b, a);
    }
    let nb = *node(b);
    if nb.key.op == Op::Ite && nb.key.a == c {
        return ite(c, a, nb.key.c);
    }
    let na = *node(a);
    if na.key.op == Op::Ite && na.key.a == c {
        return ite(c, na.key.b, b);
    }
    intern(Key { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
}
pub fn not(a: E) -> E {
    let w = width(a);
    bin(Op::Xor, a, k(u128::MAX, w))
}
pub fn eq(a: E, b: E) -> E {
    if a == b {
        return k(1, 1);
    }
    let (mut a, mut b) = (a, b);
    if cval(a).is_some() {
        std::mem::swap(&mut a, &mut b);
    }
    let w = width(a);
    let na = *node(a);
    let nb = *node(b);
    // conflicting known bits
    if (na.one & !nb.may) != 0 || (nb.one & !na.may) != 0 {
        return k(0, 1);
    }
    if let Some(c) = cval(b) {
        if cval(a).is_some() {
            return k((cval(a) == Some(c)) as u128, 1);
        }
        if w == 1 {
            return if c == 1 { a } else { not(a) };
        }
        match na.key.op {
            Op::ZExt => {
                let iw = width(na.key.a);
                return eq(na.key.a, k(c, iw));
            }
            Op::SExt => {
                let iw = width(na.key.a);
                if mask(sext(mask(c, iw), iw) as u128, w) == c {
                    return eq(na.key.a, k(c, iw));
                }
                return k(0, 1);
            }
            Op::Concat => {
                let lw = width(na.key.b);
                return bin(Op::And, eq(na.key.a, k(c >> lw, w - lw)), eq(na.key.b, k(c, lw)));
            }
            Op::Add if cval(na.key.b).is_some() => {
                return eq(na.key.a, k(c.wrapping_sub(cval(na.key.b).unwrap()), w));
            }
            Op::Sub if cval(na.key.b).is_some() => {
                return eq(na.key.a, k(c.wrapping_add(cval(na.key.b).unwrap()), w));
            }
            Op::Sub if c == 0 => return eq(na.key.a, na.key.b),
            Op::Xor if cval(na.key.b).is_some() => {
                return eq(na.key.a, k(c ^ cval(na.key.b).unwrap(), w));
            }
            Op::Or if c == 0 => {
                return bin(Op::And, eq(na.key.a, k(0, w)), eq(na.key.b, k(0, w)));
            }
            Op::Ite => {
                let x = cval(na.key.b);
                let y = cval(na.key.c);
                if x.is_some() || y.is_some() {
                    return ite(na.key.a, eq(na.key.b, b), eq(na.key.c, b));
                }
            }
            _ => {}
        }
        // trailing known bits: shrink to the part that may differ
        let may = na.may;
        let hi = 128 - may.leading_zeros();
        if hi < w && hi > 0 && na.key.op != Op::Sym {
            let x = extract(a, 0, hi);
            if width(x) < w && node(x).key.op != Op::Extract {
                return eq(x, k(c, hi));
            }
        }
    } else {
        if na.key.op == Op::ZExt && nb.key.op == Op::ZExt {
            let (x, y) = (na.key.a, nb.key.a);
            if width(x) == width(y) {
                return eq(x, y);
            }
        }
        if na.key.op == Op::SExt && nb.key.op == Op::SExt && width(na.key.a) == width(nb.key.a) {
            return eq(na.key.a, nb.key.a);
        }
        if na.key.op == Op::Concat && nb.key.op == Op::Concat && width(na.key.b) == width(nb.key.b) {
            return bin(Op::And, eq(na.key.a, nb.key.a), eq(na.key.b, nb.key.b));
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
    }
    raw2(Op::Eq, 1, a, b)
}
pub fn ult(a: E, b: E) -> E {
    if a == b {
        return k(0, 1);
    }
    let (na, nb) = (*node(a), *node(b));
    // max(a) < min(b)
    if na.may < nb.one {
        return k(1, 1);
    }
    // min(a) >= max(b)
    if na.one >= nb.may {
        return k(0, 1);
    }
    let w = width(a);
    if w == 1 {
        return bin(Op::And, not(a), b);
    }
    if nb.key.op == Op::Const && nb.key.k == 1 {
        return eq(a, k(0, w));
    }
    if na.key.op == Op::Const && na.key.k == 0 {
        return not(eq(b, k(0, w)));
    }
    if na.key.op == Op::ZExt {
        let iw = width(na.key.a);
        if nb.may >> iw == 0 {
            let b2 = extract(b, 0, iw);
            return ult(na.key.a, b2);
        }
    }
    if nb.key.op == Op::ZExt {
        let iw = width(nb.key.a);
        if na.may >> iw == 0 {
            let a2 = extract(a, 0, iw);
            return ult(a2, nb.key.a);
        }
    }
    raw2(Op::Ult, 1, a, b)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return k(0, 1);
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return k((sext(x, w) < sext(y, w)) as u128, 1);
    }
    let s = 1u128 << (w - 1);
    let (na, nb) = (*node(a), *node(b));
    if na.may & s == 0 && nb.may & s == 0 {
        return ult(a, b);
    }
    if na.one & s != 0 && nb.may & s == 0 {
        return k(1, 1);
    }
    if na.may & s == 0 && nb.one & s != 0 {
        return k(0, 1);
    }
    if na.one & s != 0 && nb.one & s != 0 {
        return ult(a, b);
    }
    if cval(b) == Some(0) {
        return extract(a, w - 1, 1);
    }
    if cval(a) == Some(mask(u128::MAX, w)) {
        return not(extract(b, w - 1, 1));
    }
    raw2(Op::Slt, 1, a, b)
}
pub fn sle(a: E, b: E) -> E {
    not(slt(b, a))
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    Some(mask(
        match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                if y == 0 {
                    return None;
                }
                sext(x, w).wrapping_div(sext(y, w)) as u128
            }
            Op::SRem => {
                if y == 0 {
                    return None;
                }
                sext(x, w).wrapping_rem(sext(y, w)) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u128 { (w - 1) as u128 } else { y };
                (sext(x, w) >> s) as u128
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sext(x, w) < sext(y, w)) as u128,
            Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
            _ => panic!("fold {:?}", op),
        },
        w,
    ))
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    match op {
        Op::Eq => return eq(a, b),
        Op::Ult => return ult(a, b),
        Op::Ule => return ule(a, b),
        Op::Slt => return slt(a, b),
        Op::Sle => return sle(a, b),
        _ => {}
    }
    let (mut a, mut b) = (a, b);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        if let Some(r) = fold(op, w, x, y) {
            return k(r, w);
        }
    }
    let full = mask(u128::MAX, w);
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
    if comm {
        if cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        } else if cval(b).is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let (na, nb) = (*node(a), *node(b));
    let cb = cval(b);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            if let Some(c) = cb {
                if na.key.op == Op::Add {
                    if let Some(c2) = cval(na.key.b) {
                        return bin(Op::Add, na.key.a, k(c.wrapping_add(c2), w));
                    }
                }
                if na.key.op == Op::Sub {
                    if let Some(c2) = cval(na.key.b) {
                        return bin(Op::Add, na.key.a, k(c.wrapping_sub(c2), w));
                    }
                }
            }
            if na.may & nb.may == 0 {
                return bin(Op::Or, a, b);
            }
        }
        Op::Sub => {
            if a == b {
                return k(0, w);
            }
            if let Some(c) = cb {
                return bin(Op::Add, a, k(0u128.wrapping_sub(c), w));
            }
        }
        Op::Mul => {
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == 1 {
                    return a;
                }
                if c.is_power_of_two() {
                    return bin(Op::Shl, a, k(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if let Some(c) = cb {
                if c == 1 {
                    return a;
                }
                if c != 0 && c.is_power_of_two() {
                    return bin(Op::LShr, a, k(c.trailing_zeros() as u128, w));
                }
                if c > na.may {
                    return k(0, w);
                }
            }
        }
        Op::URem => {
            if let Some(c) = cb {
                if c != 0 && c.is_power_of_two() {
                    return bin(Op::And, a, k(c - 1, w));
                }
                if c > na.may {
                    return a;
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if na.may & !c & full == 0 {
                    return a;
                }
                if na.may & c == 0 {
                    return k(0, w);
                }
                if na.key.op == Op::And {
                    if let Some(c2) = cval(na.key.b) {
                        return bin(Op::And, na.key.a, k(c & c2, w));
                    }
                }
                // contiguous mask => extract
                let tz = c.trailing_zeros();
                let m = c >> tz;
                if (m & (m + 1)) == 0 {
                    let n = 128 - m.leading_zeros();
                    if tz + n <= w {
                        let x = extract(a, tz, n);
                        let x = if tz > 0 { concat(x, k(0, tz)) } else { x };
                        return zext(x, w);
                    }
                }
            }
            if na.may & nb.may == 0 {
                return k(0, w);
            }
            if w == 1 && not(a) == b {
                return k(0, 1);
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c == full {
                    return b;
                }
            }
            if na.may & nb.may == 0 && w > 1 {
                // Disjoint: normalise into a concatenation when split at a bit boundary.
                let (hi, lo, nh, nl) = if na.may > nb.may { (a, b, na, nb) } else { (b, a, nb, na) };
                let _ = nh;
                let cut = 128 - nl.may.leading_zeros();
                if nh.may.trailing_zeros() >= cut && cut > 0 && cut < w {
                    return concat(extract(hi, cut, w - cut), extract(lo, 0, cut));
                }
            }
        }
        Op::Xor => {
            if a == b {
                return k(0, w);
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if na.key.op == Op::Xor {
                    if let Some(c2) = cval(na.key.b) {
                        return bin(Op::Xor, na.key.a, k(c ^ c2, w));
                    }
                }
                if w == 1 && c == 1 && na.key.op == Op::Ite {
                    return ite(na.key.a, not(na.key.b), not(na.key.c));
                }
            }
        }
        Op::Shl => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return k(0, w);
                }
                let c = c as u32;
                return concat(extract(a, 0, w - c), k(0, c));
            }
            if na.may == 0 {
                return a;
            }
        }
        Op::LShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return k(0, w);
                }
                let c = c as u32;
                return zext(extract(a, c, w - c), w);
            }
        }
        Op::AShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                let c = if c >= w as u128 { w - 1 } else { c as u32 };
                return sext_e(extract(a, c, w - c), w);
            }
        }
        _ => {}
    }
    // distribute over Ite with constants on both arms (keeps lookups small)
    if cb.is_some() && na.key.op == Op::Ite {
        if let (Some(_), Some(_)) = (cval(na.key.b), cval(na.key.c)) {
            return ite(na.key.a, bin(op, na.key.b, b), bin(op, na.key.c, b));
        }
    }
    raw2(op, w, a, b)
}

/// Evaluate under an assignment.
pub struct Eval<'a> {
    pub model: &'a [u8],
    memo: HashMap<E, u128, std::hash::BuildHasherDefault<Fx>>,
}
impl<'a> Eval<'a> {
    pub fn new(model: &'a [u8]) -> Self {
        Eval { model, memo: HashMap::default() }
    }
    pub fn ev(&mut self, e: E) -> u128 {
        let n = node(e);
        match n.key.op {
            Op::Const => return n.key.k,
            Op::Sym => return self.model[n.key.k as usize] as u128,
            _ => {}
        }
        if let Some(&v) = self.memo.get(&e) {
            return v;
        }
        let w = n.key.w as u32;
        let v = match n.key.op {
            Op::Ite => {
                if self.ev(n.key.a) != 0 {
                    self.ev(n.key.b)
                } else {
                    self.ev(n.key.c)
                }
            }
            Op::ZExt => self.ev(n.key.a),
            Op::SExt => mask(sext(self.ev(n.key.a), width(n.key.a)) as u128, w),
            Op::Extract => mask(self.ev(n.key.a) >> n.key.k, w),
            Op::Concat => (self.ev(n.key.a) << width(n.key.b)) | self.ev(n.key.b),
            op => {
                let x = self.ev(n.key.a);
                let y = self.ev(n.key.b);
                let ow = width(n.key.a);
                match fold(op, ow, x, y) {
                    Some(v) => v,
                    // division by zero, SMT-LIB semantics
                    None => match op {
                        Op::UDiv => mask(u128::MAX, w),
                        Op::SDiv => {
                            if sext(x, ow) < 0 {
                                1
                            } else {
                                mask(u128::MAX, w)
                            }
                        }
                        _ => x,
                    },
                }
            }
        };
        self.memo.insert(e, v);
        v
    }
}
pub fn eval(e: E, model: &[u8]) -> u128 {
    Eval::new(model).ev(e)
}

/// Truth set of a width-1 expression that depends on exactly one symbol.
pub fn truth_set(e: E) -> [u64; 4] {
    if let Some(s) = ar().sets.get(&e) {
        return *s;
    }
    let s = support(e).trailing_zeros() as usize;
    let mut m = [0u8; 128];
    let mut set = [0u64; 4];
    for v in 0..256usize {
        m[s] = v as u8;
        if eval(e, &m) != 0 {
            set[v / 64] |= 1 << (v % 64);
        }
    }
    ar().sets.insert(e, set);
    set
}

/// Rebuild an expression with some symbols replaced by constants.
pub fn subst(e: E, fixed: u128, model: &[u8], memo: &mut HashMap<E, E, std::hash::BuildHasherDefault<Fx>>) -> E {
    let n = *node(e);
    if n.sup & fixed == 0 {
        return e;
    }
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let w = n.key.w as u32;
    let r = match n.key.op {
        Op::Const => e,
        Op::Sym => k(model[n.key.k as usize] as u128, 8),
        Op::Ite => {
            let c = subst(n.key.a, fixed, model, memo);
            match cval(c) {
                Some(0) => subst(n.key.c, fixed, model, memo),
                Some(_) => subst(n.key.b, fixed, model, memo),
                None => {
                    let x = subst(n.key.b, fixed, model, memo);
                    let y = subst(n.key.c, fixed, model, memo);
                    ite(c, x, y)
                }
            }
        }
        Op::ZExt => zext(subst(n.key.a, fixed, model, memo), w),
        Op::SExt => sext_e(subst(n.key.a, fixed, model, memo), w),
        Op::Extract => extract(subst(n.key.a, fixed, model, memo), n.key.k as u32, w),
        Op::Concat => concat(subst(n.key.a, fixed, model, memo), subst(n.key.b, fixed, model, memo)),
        op => bin(op, subst(n.key.a, fixed, model, memo), subst(n.key.b, fixed, model, memo)),
    };
    memo.insert(e, r);
    r
}

pub fn show(e: E) -> String {
    fn go(e: E, d: u32, out: &mut String) {
        use std::fmt::Write;
        let n = node(e);
        match n.key.op {
            Op::Const => {
                let _ = write!(out, "{:#x}", n.key.k);
            }
            Op::Sym => {
                let _ = write!(out, "s{}", n.key.k);
            }
            _ if d > 12 => out.push_str("…"),
            Op::ZExt | Op::SExt => {
                let _ = write!(out, "{:?}{}(", n.key.op, n.key.w);
                go(n.key.a, d + 1, out);
                out.push(')');
            }
            Op::Extract => {
                go(n.key.a, d + 1, out);
                let _ = write!(out, "[{}+{}]", n.key.k, n.key.w);
            }
            Op::Ite => {
                out.push_str("ite(");
                go(n.key.a, d + 1, out);
                out.push_str(", ");
                go(n.key.b, d + 1, out);
                out.push_str(", ");
                go(n.key.c, d + 1, out);
                out.push(')');
            }
            _ => {
                let _ = write!(out, "{:?}(", n.key.op);
                go(n.key.a, d + 1, out);
                out.push_str(", ");
                go(n.key.b, d + 1, out);
                out.push(')');
            }
        }
    }
    let mut s = String::new();
    go(e, 0, &mut s);
    s
}
