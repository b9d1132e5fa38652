//! Lowering of expressions to Z3 bit-vectors and the satisfiability queries.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub time_us: u64, pub max_us: u64 }

pub struct Solver {
    ctx: P,
    /// (bv term) cache; width-1 nodes keep a Bool in `bools`
    bvs: HashMap<Id, P>,
    bools: HashMap<Id, P>,
    bv1: P,
    bv0: P,
    fresh: u64,
    pub stats: Stats,
    pub timeout_ms: u32,
    cache: HashMap<Vec<Id>, (Sat, Vec<(u32, u128)>)>,
}

impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_del_context(self.ctx) } } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s1 = Z3_mk_bv_sort(ctx, 1);
            let one = CString::new("1").unwrap();
            let zero = CString::new("0").unwrap();
            let bv1 = Z3_mk_numeral(ctx, one.as_ptr(), s1);
            let bv0 = Z3_mk_numeral(ctx, zero.as_ptr(), s1);
            Solver { ctx, bvs: HashMap::new(), bools: HashMap::new(), bv1, bv0, fresh: 0, stats: Stats::default(), timeout_ms, cache: HashMap::new() }
        }
    }
    fn sort(&self, w: u16) -> P { unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) } }
    fn fsort(&self, w: u16) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.ctx) } else { Z3_mk_fpa_sort_32(self.ctx) } } }
    fn num(&self, v: u128, w: u16) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), self.sort(w)) }
    }
    fn var(&self, i: u32, w: u16, undef: bool) -> P {
        let s = CString::new(format!("{}{}_{}", if undef { "u" } else { "v" }, i, w)).unwrap();
        unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), self.sort(w)) }
    }
    /// children first, iteratively (terms can be deep)
    fn prepare(&mut self, ar: &Arena, root: Id) {
        let mut st = vec![(root, false)];
        while let Some((x, done)) = st.pop() {
            let n = ar.nodes[x as usize];
            if n.w == 1 { if self.bools.contains_key(&x) { continue; } } else if self.bvs.contains_key(&x) { continue; }
            if done { self.lower(ar, x); continue; }
            st.push((x, true));
            match n.k {
                Kind::Bin(_, a, b) | Kind::Concat(a, b) => { st.push((a, false)); st.push((b, false)); }
                Kind::Ite(c, a, b) => { st.push((c, false)); st.push((a, false)); st.push((b, false)); }
                Kind::ZExt(a) | Kind::SExt(a) | Kind::Extract(a, _) | Kind::UToF(a) | Kind::SToF(a) | Kind::FToU(a) | Kind::FToS(a) | Kind::FCvt(a) | Kind::FNaN(a) | Kind::FSqrt(a) | Kind::FRnd(a, _) => st.push((a, false)),
                _ => {}
            }
        }
    }
    fn bv(&self, ar: &Arena, x: Id) -> P {
        if ar.w(x) == 1 { let b = self.bools[&x]; unsafe { Z3_mk_ite(self.ctx, b, self.bv1, self.bv0) } } else { self.bvs[&x] }
    }
    fn fp(&self, ar: &Arena, x: Id) -> P { unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, self.bv(ar, x), self.fsort(ar.w(x))) } }
    fn lower(&mut self, ar: &Arena, x: Id) {
        let c = self.ctx;
        let n = ar.nodes[x as usize];
        unsafe {
            if n.w == 1 {
                let r = match n.k {
                    Kind::Const(v) => if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    Kind::Var(i, u) => Z3_mk_eq(c, self.var(i, 1, u), self.bv1),
                    Kind::Bin(op, a, b) => {
                        let wa = ar.w(a);
                        if wa == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq | Op::Add | Op::Sub | Op::Ult) {
                            let (p, q) = (self.bools[&a], self.bools[&b]);
                            match op {
                                Op::And => Z3_mk_and(c, 2, [p, q].as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                                Op::Xor | Op::Add | Op::Sub => {
                                    if ar.is_const(b) == Some(1) { Z3_mk_not(c, p) } else { Z3_mk_xor(c, p, q) }
                                }
                                Op::Eq => Z3_mk_eq(c, p, q),
                                _ => { let np = Z3_mk_not(c, p); Z3_mk_and(c, 2, [np, q].as_ptr()) }
                            }
                        } else {
                            match op {
                                Op::Eq => Z3_mk_eq(c, self.bv(ar, a), self.bv(ar, b)),
                                Op::Ult => Z3_mk_bvult(c, self.bv(ar, a), self.bv(ar, b)),
                                Op::Ule => Z3_mk_bvule(c, self.bv(ar, a), self.bv(ar, b)),
                                Op::Slt => Z3_mk_bvslt(c, self.bv(ar, a), self.bv(ar, b)),
                                Op::Sle => Z3_mk_bvsle(c, self.bv(ar, a), self.bv(ar, b)),
                                Op::FEq => Z3_mk_fpa_eq(c, self.fp(ar, a), self.fp(ar, b)),
                                Op::FLt => Z3_mk_fpa_lt(c, self.fp(ar, a), self.fp(ar, b)),
                                Op::FLe => Z3_mk_fpa_leq(c, self.fp(ar, a), self.fp(ar, b)),
                                _ => { let t = self.binbv(ar, op, a, b); Z3_mk_eq(c, t, self.bv1) }
                            }
                        }
                    }
                    Kind::Extract(a, lo) => Z3_mk_eq(c, Z3_mk_extract(c, lo as c_uint, lo as c_uint, self.bv(ar, a)), self.bv1),
                    Kind::Ite(z, a, b) => Z3_mk_ite(c, self.bools[&z], self.bools[&a], self.bools[&b]),
                    Kind::FNaN(a) => Z3_mk_fpa_is_nan(c, self.fp(ar, a)),
                    k => panic!("lower1 {:?}", k),
                };
                self.bools.insert(x, r);
                return;
            }
            let r = match n.k {
                Kind::Const(v) => self.num(v, n.w),
                Kind::Var(i, u) => self.var(i, n.w, u),
                Kind::Bin(op, a, b) => self.binbv(ar, op, a, b),
                Kind::ZExt(a) => Z3_mk_zero_ext(c, (n.w - ar.w(a)) as c_uint, self.bv(ar, a)),
                Kind::SExt(a) => Z3_mk_sign_ext(c, (n.w - ar.w(a)) as c_uint, self.bv(ar, a)),
                Kind::Extract(a, lo) => Z3_mk_extract(c, (lo + n.w - 1) as c_uint, lo as c_uint, self.bv(ar, a)),
                Kind::Concat(a, b) => Z3_mk_concat(c, self.bv(ar, a), self.bv(ar, b)),
                Kind::Ite(z, a, b) => Z3_mk_ite(c, self.bools[&z], self.bv(ar, a), self.bv(ar, b)),
                Kind::UToF(a) => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), self.bv(ar, a), self.fsort(n.w))),
                Kind::SToF(a) => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), self.bv(ar, a), self.fsort(n.w))),
                Kind::FToU(a) => Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), self.fp(ar, a), n.w as c_uint),
                Kind::FToS(a) => Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), self.fp(ar, a), n.w as c_uint),
                Kind::FCvt(a) => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.fp(ar, a), self.fsort(n.w))),
                Kind::FSqrt(a) => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), self.fp(ar, a))),
                Kind::FRnd(a, m) => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, match m { 0 => Z3_mk_fpa_rtn(c), 1 => Z3_mk_fpa_rtp(c), 2 => Z3_mk_fpa_rtz(c), 3 => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) }, self.fp(ar, a))),
                Kind::FNaN(_) => unreachable!(),
            };
            self.bvs.insert(x, r);
        }
    }
    unsafe fn binbv(&self, ar: &Arena, op: Op, a: Id, b: Id) -> P {
        let c = self.ctx;
        let (p, q) = (self.bv(ar, a), self.bv(ar, b));
        match op {
            Op::Add => Z3_mk_bvadd(c, p, q),
            Op::Sub => Z3_mk_bvsub(c, p, q),
            Op::Mul => Z3_mk_bvmul(c, p, q),
            Op::UDiv => Z3_mk_bvudiv(c, p, q),
            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
            Op::URem => Z3_mk_bvurem(c, p, q),
            Op::SRem => Z3_mk_bvsrem(c, p, q),
            Op::And => Z3_mk_bvand(c, p, q),
            Op::Or => Z3_mk_bvor(c, p, q),
            Op::Xor => Z3_mk_bvxor(c, p, q),
            Op::Shl => Z3_mk_bvshl(c, p, q),
            Op::LShr => Z3_mk_bvlshr(c, p, q),
            Op::AShr => Z3_mk_bvashr(c, p, q),
            Op::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), self.fp(ar, a), self.fp(ar, b))),
            Op::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), self.fp(ar, a), self.fp(ar, b))),
            Op::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), self.fp(ar, a), self.fp(ar, b))),
            Op::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), self.fp(ar, a), self.fp(ar, b))),
            _ => panic!("binbv {:?}", op),
        }
    }

    /// Is the conjunction of `cs` (width-1 expressions) satisfiable?  On Sat returns the values of
    /// the variables occurring in `cs`.
    pub fn check(&mut self, ar: &mut Arena, cs: &[Id]) -> (Sat, Vec<(u32, u128)>) {
        let mut key: Vec<Id> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.stats.cached += 1; return r.clone(); }
        self.fresh += 1;
        if self.bvs.len() + self.bools.len() > 3_000_000 { self.reset(); }
        let t0 = std::time::Instant::now();
        let fp = key.iter().any(|c| ar.nodes[*c as usize].fp);
        for &c in &key { self.prepare(ar, c); }
        let mut vars: Vec<Id> = vec![];
        for &c in &key { vars.extend(ar.vars(c).iter().copied()); }
        vars.sort_unstable();
        vars.dedup();
        let res;
        let mut model = vec![];
        unsafe {
            let lg = CString::new(if fp { "QF_BVFP" } else { "QF_BV" }).unwrap();
            let s = if fp { Z3_mk_solver(self.ctx) } else { Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, lg.as_ptr())) };
            Z3_solver_inc_ref(self.ctx, s);
            let pr = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, pr);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, pr, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, s, pr);
            for &c in &key { Z3_solver_assert(self.ctx, s, self.bools[&c]); }
            let r = Z3_solver_check(self.ctx, s);
            res = match r { 1 => Sat::Sat, -1 => Sat::Unsat, _ => Sat::Unknown };
            if Z3_get_error_code(self.ctx) != 0 && res != Sat::Unknown { eprintln!("z3 error code {}", Z3_get_error_code(self.ctx)); std::process::exit(9); }
            if res == Sat::Sat {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                for &v in &vars {
                    if let Kind::Var(i, u) = ar.nodes[v as usize].k {
                        let mut out: P = std::ptr::null_mut();
                        let t = self.var(i, ar.w(v), u);
                        if Z3_model_eval(self.ctx, m, t, true, &mut out) {
                            let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, out));
                            model.push((i, st.to_str().unwrap().parse::<u128>().unwrap_or(0)));
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            Z3_params_dec_ref(self.ctx, pr);
            Z3_solver_dec_ref(self.ctx, s);
        }
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match res { Sat::Sat => self.stats.sat += 1, Sat::Unsat => self.stats.unsat += 1, Sat::Unknown => self.stats.unknown += 1 }
        self.cache.insert(key, (res, model.clone()));
        (res, model)
    }
    fn reset(&mut self) {
        let s = Solver::new(self.timeout_ms);
        let st = self.stats.clone();
        let cache = std::mem::take(&mut self.cache);
        *self = s;
        self.stats = st;
        self.cache = cache;
    }
}
