//! Z3 (C API) back end: decides conjunctions of bit-vector constraints.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(7);
}

pub struct Solver {
    ctx: P,
    simple: P,
    blast: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time_ns: u64,
    pub slow: u64,
    temps: std::cell::RefCell<Vec<P>>,
    cache: HashMap<u128, Option<Vec<(u32, u64)>>, BuildFx>,
}

pub enum Answer {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

impl Solver {
    /// `timeout_ms` is a Z3 resource limit.
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let simple = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, simple);
            let s = CString::new("QF_BV").unwrap();
            let blast = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, s.as_ptr()));
            Z3_solver_inc_ref(ctx, blast);
            // resource limits, not wall-clock timeouts: deterministic and free of timer threads
            let t = CString::new("rlimit").unwrap();
            for (sv, ms) in [(simple, 30_000.min(timeout_ms)), (blast, timeout_ms)] {
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), ms);
                Z3_solver_set_params(ctx, sv, p);
            }
            Solver {
                ctx,
                simple,
                blast,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cache_hits: 0,
                time_ns: 0,
                slow: 0,
                temps: Default::default(),
                cache: HashMap::with_hasher(BuildFx),
            }
        }
    }

    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.cache_hits = 0;
        self.time_ns = 0;
        self.slow = 0;
    }

    pub fn release(&self, z: P) {
        unsafe { Z3_dec_ref(self.ctx, z) }
    }

    /// Hold a temporary alive until the node being translated is finished.
    unsafe fn keep(&self, z: P) -> P {
        Z3_inc_ref(self.ctx, z);
        self.temps.borrow_mut().push(z);
        z
    }
    unsafe fn drop_temps(&self) {
        for z in self.temps.borrow_mut().drain(..) {
            Z3_dec_ref(self.ctx, z);
        }
    }
    unsafe fn num(&self, v: u64, w: c_uint) -> P {
        let s = self.keep(Z3_mk_bv_sort(self.ctx, w));
        self.keep(Z3_mk_unsigned_int64(self.ctx, v, s))
    }
    unsafe fn as_bv(&self, ar: &Arena, e: Ex) -> P {
        let z = ar.z3[e as usize];
        if ar.nodes[e as usize].w == 1 {
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            self.keep(Z3_mk_ite(self.ctx, z, one, zero))
        } else {
            z
        }
    }

    /// Translate (width-1 nodes are Z3 booleans).
    fn tr(&mut self, ar: &mut Arena, e: Ex) -> P {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !ar.z3[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = ar.nodes[x as usize];
            let kids: &[u32] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for k in kids {
                if ar.z3[*k as usize].is_null() {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let c = self.ctx;
            let z = unsafe {
                let w = n.w as c_uint;
                let bl = n.w == 1;
                match n.op {
                    Op::Const => {
                        let v = ar.cval(x).unwrap();
                        if bl {
                            if v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else if w <= 64 {
                            self.num(v as u64, w)
                        } else {
                            let h = self.num((v >> 64) as u64, w - 64);
                            let l = self.num(v as u64, 64);
                            Z3_mk_concat(c, h, l)
                        }
                    }
                    Op::Var => {
                        let s = self.keep(if bl { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) });
                        Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), s)
                    }
                    Op::Not => {
                        let a = ar.z3[n.a as usize];
                        if bl {
                            Z3_mk_not(c, a)
                        } else {
                            Z3_mk_bvnot(c, a)
                        }
                    }
                    Op::Ite => Z3_mk_ite(c, ar.z3[n.a as usize], ar.z3[n.b as usize], ar.z3[n.c as usize]),
                    Op::Concat => Z3_mk_concat(c, self.as_bv(ar, n.a), self.as_bv(ar, n.b)),
                    Op::Extract => {
                        let z = self.keep(Z3_mk_extract(c, n.b + w - 1, n.b, self.as_bv(ar, n.a)));
                        if bl {
                            Z3_mk_eq(c, z, self.num(1, 1))
                        } else {
                            z
                        }
                    }
                    Op::ZExt => {
                        let iw = ar.width(n.a) as c_uint;
                        if iw == 1 {
                            Z3_mk_ite(c, ar.z3[n.a as usize], self.num(1, w), self.num(0, w))
                        } else {
                            Z3_mk_zero_ext(c, w - iw, ar.z3[n.a as usize])
                        }
                    }
                    Op::SExt => {
                        let iw = ar.width(n.a) as c_uint;
                        Z3_mk_sign_ext(c, w - iw, self.as_bv(ar, n.a))
                    }
                    op => {
                        let a = ar.z3[n.a as usize];
                        let b = ar.z3[n.b as usize];
                        let bits1 = ar.width(n.a) == 1;
                        if bits1 {
                            match op {
                                Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                                Op::Xor => Z3_mk_xor(c, a, b),
                                Op::Eq => Z3_mk_iff(c, a, b),
                                _ => {
                                    let a = self.as_bv(ar, n.a);
                                    let b = self.as_bv(ar, n.b);
                                    match op {
                                        Op::Slt => Z3_mk_bvslt(c, a, b),
                                        Op::Sle => Z3_mk_bvsle(c, a, b),
                                        Op::Ult => Z3_mk_bvult(c, a, b),
                                        Op::Ule => Z3_mk_bvule(c, a, b),
                                        _ => panic!("1-bit {:?}", op),
                                    }
                                }
                            }
                        } else {
                            match op {
                                Op::Add => Z3_mk_bvadd(c, a, b),
                                Op::Sub => Z3_mk_bvsub(c, a, b),
                                Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                                Op::URem => Z3_mk_bvurem(c, a, b),
                                Op::SRem => Z3_mk_bvsrem(c, a, b),
                                Op::And => Z3_mk_bvand(c, a, b),
                                Op::Or => Z3_mk_bvor(c, a, b),
                                Op::Xor => Z3_mk_bvxor(c, a, b),
                                Op::Shl => Z3_mk_bvshl(c, a, b),
                                Op::LShr => Z3_mk_bvlshr(c, a, b),
                                Op::AShr => Z3_mk_bvashr(c, a, b),
                                Op::Eq => Z3_mk_eq(c, a, b),
                                Op::Ult => Z3_mk_bvult(c, a, b),
                                Op::Ule => Z3_mk_bvule(c, a, b),
                                Op::Slt => Z3_mk_bvslt(c, a, b),
                                Op::Sle => Z3_mk_bvsle(c, a, b),
                                _ => unreachable!(),
                            }
                        }
                    }
                }
            };
            unsafe {
                Z3_inc_ref(self.ctx, z);
                self.drop_temps();
            }
            ar.z3[x as usize] = z;
            st.pop();
        }
        ar.z3[e as usize]
    }

    /// Decide the conjunction of `cs`. `vars` are the variables occurring in it.
    pub fn check(&mut self, ar: &mut Arena, cs: &[Ex], vars: &[u32]) -> Answer {
        let mut key: u128 = 0x51;
        let mut hs: Vec<u128> = cs.iter().map(|c| ar.hash[*c as usize]).collect();
        hs.sort_unstable();
        hs.dedup();
        for h in hs {
            key = key.rotate_left(7).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835) ^ h;
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Answer::Sat(m.clone()),
                None => Answer::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        let zs: Vec<P> = cs.iter().map(|c| self.tr(ar, *c)).collect();
        self.queries += 1;
        let mut res = 0;
        let mut model = vec![];
        for solver in [self.simple, self.blast] {
            unsafe {
                Z3_solver_push(self.ctx, solver);
                for z in &zs {
                    Z3_solver_assert(self.ctx, solver, *z);
                }
                res = Z3_solver_check(self.ctx, solver);
                if res == 1 {
                    let m = Z3_solver_get_model(self.ctx, solver);
                    Z3_model_inc_ref(self.ctx, m);
                    for v in vars {
                        let w = ar.var_width[*v as usize];
                        let s = if w == 1 { Z3_mk_bool_sort(self.ctx) } else { Z3_mk_bv_sort(self.ctx, w as c_uint) };
                        let zc = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, *v as c_int), s);
                        Z3_inc_ref(self.ctx, zc);
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, zc, true, &mut out);
                        Z3_inc_ref(self.ctx, out);
                        let mut u = 0u64;
                        if w == 1 {
                            u = (Z3_get_bool_value(self.ctx, out) == 1) as u64;
                        } else {
                            Z3_get_numeral_uint64(self.ctx, out, &mut u);
                        }
                        Z3_dec_ref(self.ctx, out);
                        Z3_dec_ref(self.ctx, zc);
                        model.push((*v, u));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                if t0.elapsed().as_millis() > 1500 {
                    if let Ok(d) = std::env::var("VH_DUMP") {
                        let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, solver));
                        let _ = std::fs::write(format!("{}/q-{}-{}.smt2", d, std::process::id(), self.queries), t.to_bytes());
                    }
                }
                Z3_solver_pop(self.ctx, solver, 1);
            }
            if res != 0 {
                break;
            }
        }
        let dt = t0.elapsed().as_nanos() as u64;
        self.time_ns += dt;
        if dt > 200_000_000 {
            self.slow += 1;
        }
        match res {
            1 => {
                self.sat += 1;
                if self.cache.len() > 400_000 {
                    self.cache.clear();
                }
                self.cache.insert(key, Some(model.clone()));
                Answer::Sat(model)
            }
            -1 => {
                self.unsat += 1;
                if self.cache.len() > 400_000 {
                    self.cache.clear();
                }
                self.cache.insert(key, None);
                Answer::Unsat
            }
            _ => {
                self.unknown += 1;
                Answer::Unknown
            }
        }
    }
}
