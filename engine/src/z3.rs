//! Minimal binding of the Z3 C API and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("llsym: z3 error {}", code);
    std::process::exit(3);
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = if std::env::var("LLSYM_SIMPLE").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                let q = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, q.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: vec![], bo: vec![] }
        }
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let c = self.c;
        if w <= 64 {
            return Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w));
        }
        let lo = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
        Z3_inc_ref(c, lo);
        let hi = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, w - 64));
        Z3_inc_ref(c, hi);
        Z3_mk_concat(c, hi, lo)
    }
    /// the Boolean for a 1-bit expression
    pub fn tb(&mut self, x: &Exprs, e: E) -> P {
        let i = e as usize;
        if self.bo.len() <= i {
            self.bo.resize(x.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bo[i].is_null() {
            return self.bo[i];
        }
        let c = self.c;
        let r = unsafe {
            match x.node(e) {
                N::K(1) => Z3_mk_true(c),
                N::K(_) => Z3_mk_false(c),
                N::B(Op::Eq, a, b) => {
                    if x.width(a) == 1 {
                        let (p, q) = (self.tb(x, a), self.tb(x, b));
                        Z3_mk_eq(c, p, q)
                    } else {
                        let (p, q) = (self.ta(x, a), self.ta(x, b));
                        Z3_mk_eq(c, p, q)
                    }
                }
                N::B(Op::Ult, a, b) => {
                    let (p, q) = (self.ta(x, a), self.ta(x, b));
                    Z3_mk_bvult(c, p, q)
                }
                N::B(Op::Slt, a, b) => {
                    let (p, q) = (self.ta(x, a), self.ta(x, b));
                    Z3_mk_bvslt(c, p, q)
                }
                N::B(Op::And, a, b) => {
                    let v = [self.tb(x, a), self.tb(x, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::B(Op::Or, a, b) => {
                    let v = [self.tb(x, a), self.tb(x, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::B(Op::Xor, a, b) => {
                    let p = self.tb(x, a);
                    if x.is_k(b) == Some(1) {
                        Z3_mk_not(c, p)
                    } else {
                        let q = self.tb(x, b);
                        Z3_mk_xor(c, p, q)
                    }
                }
                N::I(i, a, b) => {
                    let (i, a, b) = (self.tb(x, i), self.tb(x, a), self.tb(x, b));
                    Z3_mk_ite(c, i, a, b)
                }
                _ => {
                    let p = self.ta(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, p, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bo[i] = r;
        r
    }
    pub fn ta(&mut self, x: &Exprs, e: E) -> P {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(x.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let c = self.c;
        let w = x.width(e);
        let r = unsafe {
            match x.node(e) {
                N::K(v) => self.num(v, w),
                N::V(v) => Z3_mk_const(c, Z3_mk_int_symbol(c, v as c_int), Z3_mk_bv_sort(c, w)),
                N::B(Op::Eq | Op::Ult | Op::Slt, _, _) => {
                    let b = self.tb(x, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                N::B(op, a, b) => {
                    let (p, q) = (self.ta(x, a), self.ta(x, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, p, q),
                        Op::Sub => Z3_mk_bvsub(c, p, q),
                        Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q),
                        Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q),
                        Op::Or => Z3_mk_bvor(c, p, q),
                        Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q),
                        Op::LShr => Z3_mk_bvlshr(c, p, q),
                        Op::AShr => Z3_mk_bvashr(c, p, q),
                        _ => unreachable!(),
                    }
                }
                N::X(a, lo) => {
                    let p = self.ta(x, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, p)
                }
                N::Z(a) => {
                    let p = self.ta(x, a);
                    Z3_mk_zero_ext(c, w - x.width(a), p)
                }
                N::S(a) => {
                    let p = self.ta(x, a);
                    Z3_mk_sign_ext(c, w - x.width(a), p)
                }
                N::I(i, a, b) => {
                    let i = self.tb(x, i);
                    let (a, b) = (self.ta(x, a), self.ta(x, b));
                    Z3_mk_ite(c, i, a, b)
                }
                N::Cat(a, b) => {
                    let (a, b) = (self.ta(x, a), self.ta(x, b));
                    Z3_mk_concat(c, a, b)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv[i] = r;
        r
    }
    pub fn check(&mut self, x: &Exprs, cs: &[E]) -> Res {
        unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            let mut sup = 0u128;
            for &e in cs {
                let a = self.tb(x, e);
                Z3_solver_assert(c, self.s, a);
                sup |= x.sup[e as usize];
            }
            for id in 0..x.var_w.len() as u32 {
                if sup >> (id % 128) & 1 == 1 && x.var_hi[id as usize] != mask(x.var_w[id as usize]) {
                    let ve = self.ta(x, x.var_e[id as usize]);
                    let k = self.num(x.var_hi[id as usize], x.var_w[id as usize]);
                    let a = Z3_mk_bvule(c, ve, k);
                    Z3_solver_assert(c, self.s, a);
                }
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    for id in 0..x.var_w.len() as u32 {
                        if sup >> (id % 128) & 1 == 0 {
                            continue;
                        }
                        let w = x.var_w[id as usize];
                        let ve = self.ta(x, x.var_e[id as usize]);
                        let mut get = |t: P| -> u64 {
                            let mut v: P = std::ptr::null_mut();
                            if !Z3_model_eval(c, m, t, true, &mut v) {
                                eprintln!("llsym: z3 model evaluation failed");
                                std::process::exit(3);
                            }
                            Z3_inc_ref(c, v);
                            let mut o = 0u64;
                            if !Z3_get_numeral_uint64(c, v, &mut o) {
                                eprintln!("llsym: z3 numeral failed");
                                std::process::exit(3);
                            }
                            o
                        };
                        let val = if w <= 64 {
                            get(ve) as u128
                        } else {
                            let lo = Z3_mk_extract(c, 63, 0, ve);
                            Z3_inc_ref(c, lo);
                            let hi = Z3_mk_extract(c, w - 1, 64, ve);
                            Z3_inc_ref(c, hi);
                            get(lo) as u128 | (get(hi) as u128) << 64
                        };
                        vals.push((id, val));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(vals)
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, self.s, 1);
            out
        }
    }
}
