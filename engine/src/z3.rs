//! Minimal binding to libz3 and an incremental solver synchronised with a path condition.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    stack: Vec<u32>,
    bv: Vec<P>,   // term -> bv ast
    bo: Vec<P>,   // term -> bool ast (width 1)
    /// Queries made of comparisons between sums of variables and constants are put as integer constraints, for
    /// which z3 is much faster than for bit-vectors: own solver, assertion stack and translations.
    s2: P,
    stack2: Vec<u32>,
    iv: Vec<P>,
    ib: Vec<P>,
    able: Vec<u8>,
    max: Vec<u128>,
    new_bounds: Vec<P>,
    pub queries: u64,
    pub int_queries: u64,
    int_unsat: u64,
    pub cross: u64,
    last_int: bool,
    pub sat: u64,
    pub unsat: u64,
    pub time: Duration,
    /// queries slower than this are printed (development)
    dump: u128,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let (k, v) = (CString::new("smt.arith.solver").unwrap(), CString::new("2").unwrap());
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            };
            // a deterministic resource limit; a time limit would cost a timer thread per query
            set("rlimit", "400000000");
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let s2 = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s2);
            Z3 { c, s, stack: vec![], bv: vec![], bo: vec![], s2, stack2: vec![], iv: vec![], ib: vec![], able: vec![], max: vec![], new_bounds: vec![], int_queries: 0, int_unsat: 0, cross: 0, last_int: false, queries: 0, sat: 0, unsat: 0, time: Duration::ZERO, dump: std::env::var("SYMX_DUMP_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(0) }
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    fn grow(&mut self, t: &Terms) {
        if self.bv.len() < t.t.len() {
            self.bv.resize(t.t.len(), std::ptr::null_mut());
            self.bo.resize(t.t.len(), std::ptr::null_mut());
            self.iv.resize(t.t.len(), std::ptr::null_mut());
            self.ib.resize(t.t.len(), std::ptr::null_mut());
            self.able.resize(t.t.len(), 0);
            self.max.resize(t.t.len(), 0);
        }
    }
    /// can the term be put as an integer (or, for width 1, a truth value over integers)?
    fn is_able(&mut self, t: &Terms, id: u32) -> bool {
        match self.able[id as usize] {
            0 => {}
            r => return r == 1,
        }
        let x = t.t[id as usize];
        let r = match x.op {
            Op::Const | Op::Var => true,
            Op::Add | Op::Sub => x.w > 1 && self.is_able(t, x.a) && self.is_able(t, x.b),
            Op::Concat => t.t[x.a as usize].op == Op::Const && t.t[x.a as usize].k == 0 && t.w(x.b) > 1 && self.is_able(t, x.b),
            Op::Ite => self.is_able(t, x.a) && self.is_able(t, x.b) && self.is_able(t, x.c),
            Op::Eq | Op::Ult => (x.op == Op::Eq || t.w(x.a) > 1) && self.is_able(t, x.a) && self.is_able(t, x.b),
            Op::Not => self.is_able(t, x.a),
            Op::And | Op::Or | Op::Xor if x.w == 1 => self.is_able(t, x.a) && self.is_able(t, x.b),
            _ => false,
        };
        self.able[id as usize] = if r { 1 } else { 2 };
        if r && x.w > 1 {
            let full = (1u128 << x.w as u32) - 1;
            self.max[id as usize] = match x.op {
                Op::Const => x.k as u128,
                Op::Concat => self.max[x.b as usize],
                Op::Ite => self.max[x.b as usize].max(self.max[x.c as usize]),
                Op::Add => (self.max[x.a as usize] + self.max[x.b as usize]).min(full),
                _ => full,
            };
        }
        r
    }
    unsafe fn toint(&mut self, t: &Terms, id: u32) -> P {
        let e = self.iv[id as usize];
        if !e.is_null() {
            return e;
        }
        let c = self.c;
        let x = t.t[id as usize];
        let int = self.keep(Z3_mk_int_sort(c));
        let r = match x.op {
            Op::Const => Z3_mk_unsigned_int64(c, x.k, int),
            Op::Var => {
                let n = CString::new(format!("i{}_{}", x.k, x.w)).unwrap();
                let v = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), int));
                let zero = self.keep(Z3_mk_unsigned_int64(c, 0, int));
                let max = self.keep(Z3_mk_unsigned_int64(c, u64::MAX >> (64 - x.w as u32), int));
                for (p, q) in [(zero, v), (v, max)] {
                    let b = self.keep(Z3_mk_le(c, p, q));
                    self.new_bounds.push(b);
                }
                v
            }
            Op::Concat => self.toint(t, x.b),
            // exact, wrapping included
            Op::Add | Op::Sub => {
                let (a, b) = (self.toint(t, x.a), self.toint(t, x.b));
                let n = CString::new((1u128 << x.w as u32).to_string()).unwrap();
                let m = self.keep(Z3_mk_numeral(c, n.as_ptr(), int));
                let v = [a, b];
                if x.op == Op::Add {
                    let s = self.keep(Z3_mk_add(c, 2, v.as_ptr()));
                    if self.max[x.a as usize] + self.max[x.b as usize] < 1u128 << x.w as u32 {
                        s
                    } else {
                        let f = self.keep(Z3_mk_lt(c, s, m));
                        let v = [s, m];
                        let w = self.keep(Z3_mk_sub(c, 2, v.as_ptr()));
                        Z3_mk_ite(c, f, s, w)
                    }
                } else {
                    let s = self.keep(Z3_mk_sub(c, 2, v.as_ptr()));
                    let f = self.keep(Z3_mk_le(c, b, a));
                    let v = [s, m];
                    let w = self.keep(Z3_mk_add(c, 2, v.as_ptr()));
                    Z3_mk_ite(c, f, s, w)
                }
            }
            Op::Ite => {
                let b = self.toib(t, x.a);
                let p = self.toint(t, x.b);
                let q = self.toint(t, x.c);
                Z3_mk_ite(c, b, p, q)
            }
            o => unreachable!("{:?}", o),
        };
        self.keep(r);
        self.iv[id as usize] = r;
        r
    }
    unsafe fn toib(&mut self, t: &Terms, id: u32) -> P {
        let e = self.ib[id as usize];
        if !e.is_null() {
            return e;
        }
        let c = self.c;
        let x = t.t[id as usize];
        let r = match x.op {
            Op::Const if x.k == 1 => Z3_mk_true(c),
            Op::Const => Z3_mk_false(c),
            Op::Var => {
                let n = CString::new(format!("b{}", x.k)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bool_sort(c))
            }
            Op::Not => {
                let a = self.toib(t, x.a);
                Z3_mk_not(c, a)
            }
            Op::Eq if t.w(x.a) == 1 => {
                let (a, b) = (self.toib(t, x.a), self.toib(t, x.b));
                Z3_mk_eq(c, a, b)
            }
            Op::Eq => {
                let (a, b) = (self.toint(t, x.a), self.toint(t, x.b));
                Z3_mk_eq(c, a, b)
            }
            Op::Ult => {
                let (a, b) = (self.toint(t, x.a), self.toint(t, x.b));
                Z3_mk_lt(c, a, b)
            }
            Op::Xor => {
                let (a, b) = (self.toib(t, x.a), self.toib(t, x.b));
                Z3_mk_not(c, self.keep(Z3_mk_eq(c, a, b)))
            }
            Op::And | Op::Or => {
                let v = [self.toib(t, x.a), self.toib(t, x.b)];
                if x.op == Op::And {
                    Z3_mk_and(c, 2, v.as_ptr())
                } else {
                    Z3_mk_or(c, 2, v.as_ptr())
                }
            }
            Op::Ite => {
                let (a, p, q) = (self.toib(t, x.a), self.toib(t, x.b), self.toib(t, x.c));
                Z3_mk_ite(c, a, p, q)
            }
            o => unreachable!("{:?}", o),
        };
        self.keep(r);
        self.ib[id as usize] = r;
        r
    }
    unsafe fn tobv(&mut self, t: &Terms, id: u32) -> P {
        let e = self.bv[id as usize];
        if !e.is_null() {
            return e;
        }
        let c = self.c;
        let x = t.t[id as usize];
        let w = x.w as u32;
        let r = match x.op {
            Op::Const => Z3_mk_unsigned_int64(c, x.k, Z3_mk_bv_sort(c, w)),
            Op::Var | Op::Undef => {
                let n = CString::new(format!("{}{}_{}", if x.op == Op::Var { "v" } else { "u" }, x.k, w)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w))
            }
            _ if w == 1 && matches!(x.op, Op::Not | Op::Eq | Op::Ult | Op::Slt | Op::And | Op::Or | Op::Ite) => {
                let b = self.tobool(t, id);
                let s = Z3_mk_bv_sort(c, 1);
                Z3_mk_ite(c, b, self.keep(Z3_mk_unsigned_int64(c, 1, s)), self.keep(Z3_mk_unsigned_int64(c, 0, s)))
            }
            Op::Ite => {
                let b = self.tobool(t, x.a);
                let p = self.tobv(t, x.b);
                let q = self.tobv(t, x.c);
                Z3_mk_ite(c, b, p, q)
            }
            Op::Extract => {
                let a = self.tobv(t, x.a);
                Z3_mk_extract(c, x.k as u32 + w - 1, x.k as u32, a)
            }
            Op::SExt => {
                let a = self.tobv(t, x.a);
                Z3_mk_sign_ext(c, w - t.w(x.a), a)
            }
            _ => {
                let a = self.tobv(t, x.a);
                let b = self.tobv(t, x.b);
                match x.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    o => unreachable!("{:?}", o),
                }
            }
        };
        self.keep(r);
        self.bv[id as usize] = r;
        r
    }
    unsafe fn tobool(&mut self, t: &Terms, id: u32) -> P {
        let e = self.bo[id as usize];
        if !e.is_null() {
            return e;
        }
        let c = self.c;
        let x = t.t[id as usize];
        debug_assert!(x.w == 1);
        let r = match x.op {
            Op::Const => {
                if x.k == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::Not => {
                let a = self.tobool(t, x.a);
                Z3_mk_not(c, a)
            }
            Op::Eq if t.w(x.a) == 1 => {
                let a = self.tobool(t, x.a);
                let b = self.tobool(t, x.b);
                Z3_mk_eq(c, a, b)
            }
            Op::Eq => {
                let a = self.tobv(t, x.a);
                let b = self.tobv(t, x.b);
                Z3_mk_eq(c, a, b)
            }
            Op::Ult => {
                let a = self.tobv(t, x.a);
                let b = self.tobv(t, x.b);
                Z3_mk_bvult(c, a, b)
            }
            Op::Slt => {
                let a = self.tobv(t, x.a);
                let b = self.tobv(t, x.b);
                Z3_mk_bvslt(c, a, b)
            }
            Op::And | Op::Or => {
                let v = [self.tobool(t, x.a), self.tobool(t, x.b)];
                if x.op == Op::And {
                    Z3_mk_and(c, 2, v.as_ptr())
                } else {
                    Z3_mk_or(c, 2, v.as_ptr())
                }
            }
            Op::Ite => {
                let a = self.tobool(t, x.a);
                let p = self.tobool(t, x.b);
                let q = self.tobool(t, x.c);
                Z3_mk_ite(c, a, p, q)
            }
            _ => {
                let a = self.tobv(t, id);
                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                Z3_mk_eq(c, a, self.keep(one))
            }
        };
        self.keep(r);
        self.bo[id as usize] = r;
        r
    }
    /// check pc /\ extra; on sat returns values for `nvars` variables with the given terms
    pub fn check(&mut self, t: &Terms, pc: &[u32], extra: Option<u32>, vars: &[u32]) -> Res {
        let r = self.check1(t, pc, extra, vars, true);
        // the two encodings must agree: every 512th refutation over integers is repeated over bit-vectors
        if matches!(r, Res::Unsat) && self.last_int {
            self.int_unsat += 1;
            if self.int_unsat % 512 == 1 {
                self.cross += 1;
                if let Res::Sat(_) = self.check1(t, pc, extra, vars, false) {
                    eprintln!("solver encodings disagree");
                    std::process::exit(4);
                }
            }
        }
        r
    }
    fn check1(&mut self, t: &Terms, pc: &[u32], extra: Option<u32>, vars: &[u32], may_int: bool) -> Res {
        let t0 = Instant::now();
        self.grow(t);
        self.queries += 1;
        let int = may_int && pc.iter().chain(extra.iter()).all(|p| self.is_able(t, *p));
        self.last_int = int;
        let r = unsafe {
            let s = if int { self.s2 } else { self.s };
            let mut stack = std::mem::take(if int { &mut self.stack2 } else { &mut self.stack });
            if int {
                self.int_queries += 1;
                for &p in pc.iter().chain(extra.iter()) {
                    self.toib(t, p);
                }
                if !self.new_bounds.is_empty() {
                    // ranges of variables seen for the first time hold for good: below every pushed assertion
                    if !stack.is_empty() {
                        Z3_solver_pop(self.c, s, stack.len() as u32);
                        stack.clear();
                    }
                    for b in self.new_bounds.drain(..) {
                        Z3_solver_assert(self.c, s, b);
                    }
                }
            }
            let mut common = 0;
            while common < stack.len() && common < pc.len() && stack[common] == pc[common] {
                common += 1;
            }
            let drop = stack.len() - common;
            if drop > 0 {
                Z3_solver_pop(self.c, s, drop as u32);
                stack.truncate(common);
            }
            for &p in &pc[common..] {
                let b = if int { self.toib(t, p) } else { self.tobool(t, p) };
                Z3_solver_push(self.c, s);
                Z3_solver_assert(self.c, s, b);
                stack.push(p);
            }
            if let Some(e) = extra {
                let b = if int { self.toib(t, e) } else { self.tobool(t, e) };
                Z3_solver_push(self.c, s);
                Z3_solver_assert(self.c, s, b);
            }
            let res = match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in vars {
                        // a variable no integer query has mentioned is unconstrained here
                        let known = v != 0 && (!int || !self.iv[v as usize].is_null() || !self.ib[v as usize].is_null());
                        if !known {
                            out.push(0);
                            continue;
                        }
                        let boolean = int && self.iv[v as usize].is_null();
                        let a = if boolean { self.ib[v as usize] } else if int { self.iv[v as usize] } else { self.tobv(t, v) };
                        let mut o: P = std::ptr::null_mut();
                        let mut n = 0u64;
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            if boolean {
                                n = (Z3_get_bool_value(self.c, o) == 1) as u64;
                            } else {
                                Z3_get_numeral_uint64(self.c, o, &mut n);
                            }
                        }
                        out.push(n);
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            };
            if self.dump > 0 && t0.elapsed().as_millis() > self.dump {
                eprintln!("=== {:?}\n{}", t0.elapsed(), std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy());
            }
            if extra.is_some() {
                Z3_solver_pop(self.c, s, 1);
            }
            *(if int { &mut self.stack2 } else { &mut self.stack }) = stack;
            res
        };
        self.time += t0.elapsed();
        r
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
