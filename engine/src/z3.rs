//! Minimal Z3 FFI: translation of expressions and satisfiability queries.

use crate::expr::*;
use crate::ir::mask;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

#[allow(non_camel_case_types)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_uint));
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

extern "C" fn on_error(_c: P, e: c_uint) {
    eprintln!("z3 error {}", e);
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    cx: P,
    solver: P,
    bvs: HashMap<E, P>,
    bools: HashMap<E, P>,
    sorts: HashMap<u32, P>,
    pub queries: u64,
    pub nanos: u128,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    since_reset: u64,
    timeout_ms: u32,
    pub dump: Option<std::fs::File>,
    slow: Option<std::fs::File>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 {
            cx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            bvs: HashMap::new(),
            bools: HashMap::new(),
            sorts: HashMap::new(),
            queries: 0,
            nanos: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            since_reset: 0,
            timeout_ms,
            dump: None,
            slow: std::env::var("SYMX_SLOW").ok().and_then(|f| std::fs::OpenOptions::new().create(true).append(true).open(f).ok()),
        };
        z.init();
        z
    }
    fn init(&mut self) {
        unsafe {
            let c = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(c, k.as_ptr(), v.as_ptr());
            self.cx = Z3_mk_context(c);
            Z3_set_error_handler(self.cx, on_error);
            self.solver = Z3_mk_simple_solver(self.cx);
            Z3_solver_inc_ref(self.cx, self.solver);
            self.set_timeout(self.solver, self.timeout_ms);
        }
        self.bvs.clear();
        self.bools.clear();
        self.sorts.clear();
        self.since_reset = 0;
    }
    fn set_timeout(&self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), ms);
            Z3_solver_set_params(self.cx, s, p);
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let cx = self.cx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(cx, w) })
    }
    fn konst(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.cx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", mask(v, w))).unwrap();
                Z3_mk_numeral(self.cx, t.as_ptr(), s)
            }
        }
    }
    fn bv(&mut self, e: E) -> P {
        if let Some(&p) = self.bvs.get(&e) {
            return p;
        }
        let n = *node(e);
        let w = n.key.w as u32;
        let cx = self.cx;
        let r = unsafe {
            if w == 1 && !matches!(n.key.op, Op::Const | Op::Extract) {
                let b = self.boolean(e);
                let one = self.konst(1, 1);
                let zero = self.konst(0, 1);
                Z3_mk_ite(cx, b, one, zero)
            } else {
                match n.key.op {
                    Op::Const => self.konst(n.key.k, w),
                    Op::Sym => {
                        let nm = CString::new(format!("s{}", n.key.k)).unwrap();
                        let sy = Z3_mk_string_symbol(cx, nm.as_ptr());
                        let s = self.sort(8);
                        Z3_mk_const(cx, sy, s)
                    }
                    Op::Ite => {
                        let c = self.boolean(n.key.a);
                        let a = self.bv(n.key.b);
                        let b = self.bv(n.key.c);
                        Z3_mk_ite(cx, c, a, b)
                    }
                    Op::ZExt => {
                        let a = self.bv(n.key.a);
                        Z3_mk_zero_ext(cx, w - width(n.key.a), a)
                    }
                    Op::SExt => {
                        let a = self.bv(n.key.a);
                        Z3_mk_sign_ext(cx, w - width(n.key.a), a)
                    }
                    Op::Extract => {
                        let a = self.bv(n.key.a);
                        Z3_mk_extract(cx, n.key.k as u32 + w - 1, n.key.k as u32, a)
                    }
                    _ => {
                        let a = self.bv(n.key.a);
                        let b = self.bv(n.key.b);
                        match n.key.op {
                            Op::Add => Z3_mk_bvadd(cx, a, b),
                            Op::Sub => Z3_mk_bvsub(cx, a, b),
                            Op::Mul => Z3_mk_bvmul(cx, a, b),
                            Op::UDiv => Z3_mk_bvudiv(cx, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(cx, a, b),
                            Op::URem => Z3_mk_bvurem(cx, a, b),
                            Op::SRem => Z3_mk_bvsrem(cx, a, b),
                            Op::And => Z3_mk_bvand(cx, a, b),
                            Op::Or => Z3_mk_bvor(cx, a, b),
                            Op::Xor => Z3_mk_bvxor(cx, a, b),
                            Op::Shl => Z3_mk_bvshl(cx, a, b),
                            Op::LShr => Z3_mk_bvlshr(cx, a, b),
                            Op::AShr => Z3_mk_bvashr(cx, a, b),
                            Op::Concat => Z3_mk_concat(cx, a, b),
                            x => panic!("bv {:?}", x),
                        }
                    }
                }
            }
        };
        self.bvs.insert(e, r);
        r
    }
    fn boolean(&mut self, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let n = *node(e);
        let cx = self.cx;
        debug_assert_eq!(n.key.w, 1);
        let r = unsafe {
            match n.key.op {
                Op::Const => {
                    if n.key.k != 0 {
                        Z3_mk_true(cx)
                    } else {
                        Z3_mk_false(cx)
                    }
                }
                Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul => {
                    if n.key.op == Op::Xor && cval(n.key.b) == Some(1) {
                        let a = self.boolean(n.key.a);
                        Z3_mk_not(cx, a)
                    } else {
                        let a = self.boolean(n.key.a);
                        let b = self.boolean(n.key.b);
                        let v = [a, b];
                        match n.key.op {
                            Op::And | Op::Mul => Z3_mk_and(cx, 2, v.as_ptr()),
                            Op::Or => Z3_mk_or(cx, 2, v.as_ptr()),
                            _ => Z3_mk_xor(cx, a, b),
                        }
                    }
                }
                Op::Eq => {
                    let a = self.bv(n.key.a);
                    let b = self.bv(n.key.b);
                    Z3_mk_eq(cx, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(n.key.a);
                    let b = self.bv(n.key.b);
                    match n.key.op {
                        Op::Ult => Z3_mk_bvult(cx, a, b),
                        Op::Ule => Z3_mk_bvule(cx, a, b),
                        Op::Slt => Z3_mk_bvslt(cx, a, b),
                        _ => Z3_mk_bvsle(cx, a, b),
                    }
                }
                Op::Ite => {
                    let c = self.boolean(n.key.a);
                    let a = self.boolean(n.key.b);
                    let b = self.boolean(n.key.c);
                    Z3_mk_ite(cx, c, a, b)
                }
                _ => {
                    let a = self.bv(e);
                    let one = self.konst(1, 1);
                    Z3_mk_eq(cx, a, one)
                }
            }
        };
        self.bools.insert(e, r);
        r
    }
    /// Check the conjunction; on Sat, write values of `sup` symbols into `model`.
    pub fn check(&mut self, cs: &[E], sup: u128, model: &mut [u8]) -> Res {
        if self.since_reset > 60_000 || self.bvs.len() > 2_000_000 {
            unsafe { Z3_del_context(self.cx) };
            self.init();
        }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.since_reset += 1;
        // Terms must exist before the push: without reference counting, terms created inside a
        // scope die with it.
        for i in 0..128u32 {
            if sup >> i & 1 == 1 {
                self.bv(sym(i));
            }
        }
        let terms: Vec<P> = cs.iter().map(|&c| self.boolean(c)).collect();
        let r = unsafe {
            let mut s = self.solver;
            Z3_solver_push(self.cx, s);
            for &b in &terms {
                Z3_solver_assert(self.cx, s, b);
            }
            if let Some(f) = &mut self.dump {
                use std::io::Write;
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.cx, s));
                let _ = writeln!(f, "(push)\n{}(check-sat)\n(pop)", t.to_string_lossy());
            }
            let mut r = Z3_solver_check(self.cx, s);
            let mut fallback = false;
            if r == 0 {
                // second opinion: bit-blasting QF_BV solver, longer limit
                fallback = true;
                let nm = CString::new("QF_BV").unwrap();
                let s2 = Z3_mk_solver_for_logic(self.cx, Z3_mk_string_symbol(self.cx, nm.as_ptr()));
                Z3_solver_inc_ref(self.cx, s2);
                self.set_timeout(s2, self.timeout_ms * 4);
                for &b in &terms {
                    Z3_solver_assert(self.cx, s2, b);
                }
                r = Z3_solver_check(self.cx, s2);
                s = s2;
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.cx, s);
                    Z3_model_inc_ref(self.cx, m);
                    for i in 0..128u32 {
                        if sup >> i & 1 == 1 {
                            let t = self.bv(sym(i));
                            let mut v: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.cx, m, t, true, &mut v) && Z3_get_numeral_uint64(self.cx, v, &mut u) {
                                model[i as usize] = u as u8;
                            } else {
                                eprintln!("model eval failed");
                                std::process::exit(70);
                            }
                        }
                    }
                    Z3_model_dec_ref(self.cx, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let _ = fallback;
            Z3_solver_pop(self.cx, self.solver, 1);
            res
        };
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.nanos += t0.elapsed().as_nanos();
        if let Some(f) = &mut self.slow {
            if t0.elapsed().as_millis() > 1000 {
                use std::io::Write;
                let _ = writeln!(f, "---- {:?} {:.1} s", r, t0.elapsed().as_secs_f64());
                for &c in cs {
                    let _ = writeln!(f, "  {}", show(c));
                }
            }
        }
        if r == Res::Sat {
            // soundness self-check of the translation: the model must satisfy every conjunct
            let mut ev = Eval::new(model);
            for &c in cs {
                if ev.ev(c) == 0 {
                    eprintln!("z3 model does not satisfy {}", show(c));
                    std::process::exit(70);
                }
            }
        }
        r
    }
}
