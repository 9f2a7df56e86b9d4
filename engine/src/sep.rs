//! Decides conditions over sums of functions of single bytes (`digit0 * 100 + digit1 * 10 + ...`)
//! from the domains of the bytes, without the solver. Sound for any constraints between the bytes,
//! because it only answers when the condition has one value on the whole product of the domains.

use crate::expr::*;
use crate::ir::sext;
use std::collections::HashMap;
use std::rc::Rc;

const LIM: i128 = 1 << 120;

/// A sum of tables, one for each byte, as an integer.
#[derive(Clone)]
struct Sep {
    c: i128,
    tabs: Vec<(u32, Rc<Vec<i128>>)>,
}

pub struct Seps<'a> {
    dom: &'a [[u64; 4]],
    memo: HashMap<E, Option<Sep>>,
    budget: u32,
}

fn pow2(w: u32) -> Option<i128> {
    if w < 120 {
        Some(1i128 << w)
    } else {
        None
    }
}

impl<'a> Seps<'a> {
    pub fn new(dom: &'a [[u64; 4]]) -> Self {
        Seps { dom, memo: HashMap::new(), budget: 4000 }
    }

    fn table(&self, e: E) -> Option<Rc<Vec<i128>>> {
        let i = support(e).trailing_zeros() as usize;
        let mut m = [0u8; 128];
        let mut t = vec![0i128; 256];
        for v in 0..256usize {
            if self.dom[i][v / 64] >> (v % 64) & 1 == 0 {
                continue;
            }
            m[i] = v as u8;
            let x = eval(e, &m);
            if x >= LIM as u128 {
                return None;
            }
            t[v] = x as i128;
        }
        Some(Rc::new(t))
    }

    fn range(&self, s: &Sep) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (s.c, s.c);
        for (i, t) in &s.tabs {
            let d = &self.dom[*i as usize];
            let (mut a, mut b) = (i128::MAX, i128::MIN);
            for v in 0..256usize {
                if d[v / 64] >> (v % 64) & 1 == 1 {
                    a = a.min(t[v]);
                    b = b.max(t[v]);
                }
            }
            if a > b {
                return None;
            }
            lo = lo.checked_add(a)?;
            hi = hi.checked_add(b)?;
        }
        if lo < -LIM || hi > LIM {
            return None;
        }
        Some((lo, hi))
    }

    /// Shifts by multiples of 2^w so that the sum lies in [base, base + 2^w).
    fn norm(&self, mut s: Sep, w: u32, base: i128) -> Option<Sep> {
        let (lo, hi) = self.range(&s)?;
        match pow2(w) {
            Some(m) => {
                let q = (lo - base).div_euclid(m);
                if (hi - base).div_euclid(m) != q {
                    return None;
                }
                s.c -= q * m;
                Some(s)
            }
            None => {
                if lo >= base.max(-LIM) {
                    Some(s)
                } else {
                    None
                }
            }
        }
    }
    fn unsigned(&self, s: Sep, w: u32) -> Option<Sep> {
        self.norm(s, w, 0)
    }
    fn signed(&self, s: Sep, w: u32) -> Option<Sep> {
        match pow2(w) {
            Some(m) => self.norm(s, w, -(m / 2)),
            None => Some(s),
        }
    }

    fn comb(a: &Sep, b: &Sep, sub: bool) -> Option<Sep> {
        let f = if sub { -1 } else { 1 };
        let mut r = a.clone();
        r.c = r.c.checked_add(b.c * f)?;
        for (i, t) in &b.tabs {
            match r.tabs.iter_mut().find(|(j, _)| j == i) {
                Some((_, u)) => {
                    let mut n = u.as_ref().clone();
                    for v in 0..256 {
                        n[v] = n[v].checked_add(t[v] * f)?;
                    }
                    *u = Rc::new(n);
                }
                None => {
                    let n: Vec<i128> = t.iter().map(|x| x * f).collect();
                    r.tabs.push((*i, Rc::new(n)));
                }
            }
        }
        Some(r)
    }
    fn scale(a: &Sep, f: i128) -> Option<Sep> {
        let mut r = a.clone();
        r.c = r.c.checked_mul(f)?;
        for (_, t) in r.tabs.iter_mut() {
            let mut n = t.as_ref().clone();
            for x in n.iter_mut() {
                *x = x.checked_mul(f)?;
                if *x > LIM || *x < -LIM {
                    return None;
                }
            }
            *t = Rc::new(n);
        }
        Some(r)
    }

    fn sep(&mut self, e: E) -> Option<Sep> {
        if let Some(r) = self.memo.get(&e) {
            return r.clone();
        }
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        let r = self.sep1(e);
        self.memo.insert(e, r.clone());
        r
    }
    fn konst(v: u128, w: u32) -> Option<Sep> {
        let c = sext(v, w);
        if c > LIM || c < -LIM {
            return None;
        }
        Some(Sep { c, tabs: vec![] })
    }
    fn sep1(&mut self, e: E) -> Option<Sep> {
        let n = *node(e);
        let w = n.key.w as u32;
        if let Some(c) = cval(e) {
            return Self::konst(c, w);
        }
        if n.sup.count_ones() == 1 {
            let t = self.table(e)?;
            return Some(Sep { c: 0, tabs: vec![(n.sup.trailing_zeros(), t)] });
        }
        match n.key.op {
            Op::Add | Op::Sub => {
                let (a, b) = (self.sep(n.key.a)?, self.sep(n.key.b)?);
                Self::comb(&a, &b, n.key.op == Op::Sub)
            }
            Op::Or | Op::Xor if node(n.key.a).may & node(n.key.b).may == 0 => {
                let (a, b) = (self.sep(n.key.a)?, self.sep(n.key.b)?);
                Self::comb(&a, &b, false)
            }
            Op::Mul => {
                let (x, c) = match (cval(n.key.a), cval(n.key.b)) {
                    (_, Some(c)) => (n.key.a, c),
                    (Some(c), _) => (n.key.b, c),
                    _ => return None,
                };
                let a = self.sep(x)?;
                Self::scale(&a, sext(c, w))
            }
            Op::Shl => {
                let c = cval(n.key.b)?;
                if c >= 100 {
                    return None;
                }
                let a = self.sep(n.key.a)?;
                Self::scale(&a, 1i128 << c)
            }
            Op::ZExt => {
                let a = self.sep(n.key.a)?;
                self.unsigned(a, width(n.key.a))
            }
            Op::SExt => {
                let a = self.sep(n.key.a)?;
                self.signed(a, width(n.key.a))
            }
            Op::Extract if n.key.k == 0 => self.sep(n.key.a),
            Op::And => {
                let (x, c) = match (cval(n.key.a), cval(n.key.b)) {
                    (_, Some(c)) => (n.key.a, c),
                    (Some(c), _) => (n.key.b, c),
                    _ => return None,
                };
                if c & c.wrapping_add(1) != 0 {
                    return None;
                }
                let a = self.sep(x)?;
                let a = self.unsigned(a, w)?;
                let (_, hi) = self.range(&a)?;
                if hi as u128 <= c {
                    Some(a)
                } else {
                    None
                }
            }
            Op::Concat => {
                let wl = width(n.key.b);
                if wl >= 100 {
                    return None;
                }
                let (h, l) = (self.sep(n.key.a)?, self.sep(n.key.b)?);
                let l = self.unsigned(l, wl)?;
                let h = Self::scale(&h, 1i128 << wl)?;
                Self::comb(&h, &l, false)
            }
            Op::Ite => {
                if self.cond(n.key.a)? {
                    self.sep(n.key.b)
                } else {
                    self.sep(n.key.c)
                }
            }
            _ => None,
        }
    }

    /// The value of a condition, when it is the same on the whole domain.
    pub fn cond(&mut self, e: E) -> Option<bool> {
        if let Some(c) = cval(e) {
            return Some(c & 1 == 1);
        }
        let n = *node(e);
        if n.key.w != 1 {
            return None;
        }
        if n.sup.count_ones() == 1 {
            let t = truth_set(e);
            let d = self.dom[n.sup.trailing_zeros() as usize];
            if (0..4).all(|w| t[w] & d[w] == 0) {
                return Some(false);
            }
            if (0..4).all(|w| !t[w] & d[w] == 0) {
                return Some(true);
            }
            return None;
        }
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        let (a, b) = (n.key.a, n.key.b);
        match n.key.op {
            Op::And => match (self.cond(a), self.cond(b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.cond(a), self.cond(b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Xor => Some(self.cond(a)? ^ self.cond(b)?),
            Op::Ite => match self.cond(a)? {
                true => self.cond(b),
                false => self.cond(n.key.c),
            },
            Op::Eq if width(a) == 1 => Some(self.cond(a)? == self.cond(b)?),
            Op::Eq => {
                let w = width(a);
                let (x, y) = (self.sep(a)?, self.sep(b)?);
                let d = Self::comb(&x, &y, true)?;
                let (lo, hi) = self.range(&d)?;
                match pow2(w) {
                    Some(m) => {
                        if lo == hi {
                            return Some(lo.rem_euclid(m) == 0);
                        }
                        // No multiple of 2^w in the range: never equal.
                        if lo.div_euclid(m) == hi.div_euclid(m) && lo.rem_euclid(m) != 0 {
                            return Some(false);
                        }
                        None
                    }
                    None => {
                        if lo == hi && lo == 0 {
                            return Some(true);
                        }
                        None
                    }
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let w = width(a);
                let (x, y) = (self.sep(a)?, self.sep(b)?);
                let (x, y) = match n.key.op {
                    Op::Ult | Op::Ule => (self.unsigned(x, w)?, self.unsigned(y, w)?),
                    _ => (self.signed(x, w)?, self.signed(y, w)?),
                };
                let d = Self::comb(&x, &y, true)?;
                let (lo, hi) = self.range(&d)?;
                let strict = matches!(n.key.op, Op::Ult | Op::Slt);
                if hi < 0 || (!strict && hi == 0) {
                    Some(true)
                } else if lo > 0 || (strict && lo == 0) {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}
