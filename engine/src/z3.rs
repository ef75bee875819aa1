//! Minimal binding to the Z3 C API and the incremental solver mirroring a path condition.
use crate::expr::{Arena, Op, E};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

extern "C" fn on_error(_: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(70);
}

pub enum Res {
    Unsat,
    Sat(Vec<u64>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    sorts: Vec<P>,
    one: P,
    zero: P,
    bv: Vec<P>,
    bl: Vec<P>,
    asserted: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let s = if std::env::var("SX_Z3_QFBV").is_err() {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            let mut sorts = vec![std::ptr::null_mut(); 257];
            let s1 = Z3_mk_bv_sort(ctx, 1);
            Z3_inc_ref(ctx, s1);
            sorts[1] = s1;
            let one = Z3_mk_unsigned_int64(ctx, 1, s1);
            Z3_inc_ref(ctx, one);
            let zero = Z3_mk_unsigned_int64(ctx, 0, s1);
            Z3_inc_ref(ctx, zero);
            Solver { ctx, s, sorts, one, zero, bv: Vec::new(), bl: Vec::new(), asserted: Vec::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, max_secs: 0.0 }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let p = self.sorts[w as usize];
        if !p.is_null() {
            return p;
        }
        unsafe {
            let p = Z3_mk_bv_sort(self.ctx, w);
            Z3_inc_ref(self.ctx, p);
            self.sorts[w as usize] = p;
            p
        }
    }
    fn grow(&mut self, ar: &Arena) {
        self.bv.resize(ar.nodes.len(), std::ptr::null_mut());
        self.bl.resize(ar.nodes.len(), std::ptr::null_mut());
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if self.bv.len() < ar.nodes.len() {
            self.grow(ar);
        }
        let p = self.bv[e as usize];
        if !p.is_null() {
            return p;
        }
        let n = ar.n(e);
        let c = self.ctx;
        let r = unsafe {
            if n.w == 1 && !matches!(n.op, Op::Var | Op::Const | Op::Extract) {
                let b = self.bl(ar, e);
                Z3_mk_ite(c, b, self.one, self.zero)
            } else {
                match n.op {
                    Op::Const => {
                        let s = self.sort(n.w as u32);
                        if n.k >> 64 == 0 {
                            Z3_mk_unsigned_int64(c, n.k as u64, s)
                        } else {
                            let t = CString::new(n.k.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                    Op::Var => {
                        let t = CString::new(format!("v{}_{}", n.a, n.w)).unwrap();
                        let s = self.sort(n.w as u32);
                        Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), s)
                    }
                    Op::Ite => {
                        let x = self.bl(ar, n.a);
                        let y = self.bv(ar, n.b);
                        let z = self.bv(ar, n.c);
                        Z3_mk_ite(c, x, y, z)
                    }
                    Op::ZExt => {
                        let x = self.bv(ar, n.a);
                        Z3_mk_zero_ext(c, n.w as u32 - ar.w(n.a), x)
                    }
                    Op::SExt => {
                        let x = self.bv(ar, n.a);
                        Z3_mk_sign_ext(c, n.w as u32 - ar.w(n.a), x)
                    }
                    Op::Extract => {
                        let x = self.bv(ar, n.a);
                        Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x)
                    }
                    _ => {
                        let x = self.bv(ar, n.a);
                        let y = self.bv(ar, n.b);
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv[e as usize] = r;
        r
    }
    fn bl(&mut self, ar: &Arena, e: E) -> P {
        if self.bl.len() < ar.nodes.len() {
            self.grow(ar);
        }
        let p = self.bl[e as usize];
        if !p.is_null() {
            return p;
        }
        let n = ar.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let a = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    if let Some(i) = ar.is_not(e) {
                        let x = self.bl(ar, i);
                        Z3_mk_not(c, x)
                    } else {
                        let x = self.bl(ar, n.a);
                        let y = self.bl(ar, n.b);
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.bl(ar, n.a);
                    let y = self.bl(ar, n.b);
                    let z = self.bl(ar, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq if ar.w(n.a) == 1 => {
                    let x = self.bl(ar, n.a);
                    let y = self.bl(ar, n.b);
                    Z3_mk_eq(c, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.bv(ar, n.a);
                    let y = self.bv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Var | Op::Extract => {
                    let x = self.bv(ar, e);
                    Z3_mk_eq(c, x, self.one)
                }
                // one-bit arithmetic
                Op::Add | Op::Sub => {
                    let x = self.bl(ar, n.a);
                    let y = self.bl(ar, n.b);
                    Z3_mk_xor(c, x, y)
                }
                Op::Mul => {
                    let a = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                _ => {
                    eprintln!("unsupported one-bit op {:?}", n.op);
                    std::process::exit(70);
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bl[e as usize] = r;
        r
    }
    /// Is pc /\ extra satisfiable?  `vars` are (index, width) of the variables to read back.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], extra: E, vars: &[u32]) -> Res {
        let t0 = std::time::Instant::now();
        let mut common = 0;
        while common < pc.len() && common < self.asserted.len() && pc[common] == self.asserted[common] {
            common += 1;
        }
        unsafe {
            if self.asserted.len() > common {
                Z3_solver_pop(self.ctx, self.s, (self.asserted.len() - common) as u32);
                self.asserted.truncate(common);
            }
            for &e in &pc[common..] {
                let b = self.bl(ar, e);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, b);
                self.asserted.push(e);
            }
            let b = self.bl(ar, extra);
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, b);
            let r = Z3_solver_check(self.ctx, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = Vec::with_capacity(vars.len());
                    for (i, &w) in vars.iter().enumerate() {
                        let v = ar.var(i as u32, w);
                        let p = self.bv(ar, v);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.ctx, m, p, true, &mut o) {
                            Z3_inc_ref(self.ctx, o);
                            Z3_get_numeral_uint64(self.ctx, o, &mut x);
                            Z3_dec_ref(self.ctx, o);
                        }
                        vals.push(x);
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Res::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            self.queries += 1;
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            if dt > self.max_secs {
                self.max_secs = dt;
            }
            out
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}
