//! Z3 back end: translation of expressions, query cache, independent-constraint slicing.
#![allow(non_snake_case)]
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_get_numeral_decimal_string(c: P, a: P, prec: c_uint) -> *const c_char;
    fn Z3_mk_int64(c: P, v: i64, t: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_get_numeral_int64(c: P, a: P, v: *mut i64) -> bool;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned();
        eprintln!("z3 error {}: {}", e, m);
    }
    std::process::exit(70);
}

#[derive(Clone)]
pub enum Sat { Sat(Rc<Vec<(u32, u128)>>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cached: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub secs: f64, pub asserts: u64, pub max: f64, pub shortcut: u64, pub abs_unsat: u64, pub searched: u64, pub fullfp: u64 }

pub struct Solver {
    c: P,
    s: P,
    fp: P,
    rlimit: u32,
    bvm: FxMap<E, P>,
    bom: FxMap<E, P>,
    cache: FxMap<Rc<Vec<E>>, Sat>,
    pub st: Stats,
    pub dump: Option<String>,
    abs: bool,
    o: P,
    om: FxMap<E, P>,
    ot: FxMap<E, P>,
    abvm: FxMap<E, P>,
    abom: FxMap<E, P>,
}

fn slow_limit() -> f64 { std::env::var("SYMX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(5.0) }
impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = if std::env::var("SYMX_QFBV").is_ok() { let l = CString::new("QF_BV").unwrap(); Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let rl = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, rl.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, fp: p, rlimit, bvm: Default::default(), bom: Default::default(), cache: Default::default(), st: Default::default(), dump: None, abs: false, o: { let o = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, o); o }, om: Default::default(), ot: Default::default(), abvm: Default::default(), abom: Default::default() }
        }
    }
    fn fpsort(&self, w: u16) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) } } }
    fn ieee(&self, f: P, w: u16) -> P {
        unsafe {
            let nan = if w == 64 { 0x7ff8000000000000u128 } else { 0x7fc00000 };
            Z3_mk_ite(self.c, Z3_mk_fpa_is_nan(self.c, f), self.num(nan, w), Z3_mk_fpa_to_ieee_bv(self.c, f))
        }
    }
    fn tofp(&mut self, e: E) -> P {
        let a = self.bv(e);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, self.fpsort(width(e))) }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn boolean(&mut self, e: E) -> P {
        if let Some(p) = self.bom.get(&e) { return *p; }
        let c = self.c;
        let r = unsafe {
            match kind(e) {
                K::Const(1) => Z3_mk_true(c),
                K::Const(_) => Z3_mk_false(c),
                K::Cmp(op, a, b) => {
                    let wa = width(a);
                    if op == C::Eq && wa == 1 {
                        let (x, y) = (self.boolean(a), self.boolean(b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.bv(a), self.bv(b));
                        match op {
                            C::Eq => Z3_mk_eq(c, x, y),
                            C::Ult => Z3_mk_bvult(c, x, y),
                            C::Ule => Z3_mk_bvule(c, x, y),
                            C::Slt => Z3_mk_bvslt(c, x, y),
                            C::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                K::Bin(B::And, a, b) => { let v = [self.boolean(a), self.boolean(b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Bin(B::Or, a, b) => { let v = [self.boolean(a), self.boolean(b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                K::Bin(B::Xor, a, b) => {
                    let x = self.boolean(a);
                    if cval(b) == Some(1) { Z3_mk_not(c, x) } else { let y = self.boolean(b); Z3_mk_xor(c, x, y) }
                }
                K::Ite(i, a, b) => { let (i, x, y) = (self.boolean(i), self.boolean(a), self.boolean(b)); Z3_mk_ite(c, i, x, y) }
                _ => { let x = self.bv(e); Z3_mk_eq(c, x, self.num(1, 1)) }
            }
        };
        self.bom.insert(e, r);
        r
    }
    fn bv(&mut self, e: E) -> P {
        if let Some(p) = self.bvm.get(&e) { return *p; }
        let c = self.c;
        let w = width(e);
        let k = kind(e);
        let r = unsafe {
            if w == 1 && matches!(k, K::Cmp(..) | K::Bin(..) | K::Ite(..)) {
                let b = self.boolean(e);
                Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
            } else {
                match k {
                    K::Const(v) => self.num(v, w),
                    K::Var(id) => {
                        let n = CString::new(format!("v{}", id)).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w as c_uint))
                    }
                    K::Bin(op, a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y),
                            B::Sub => Z3_mk_bvsub(c, x, y),
                            B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y),
                            B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y),
                            B::SRem => Z3_mk_bvsrem(c, x, y),
                            B::And => Z3_mk_bvand(c, x, y),
                            B::Or => Z3_mk_bvor(c, x, y),
                            B::Xor => Z3_mk_bvxor(c, x, y),
                            B::Shl => Z3_mk_bvshl(c, x, y),
                            B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y),
                        }
                    }
                    K::Cmp(..) => unreachable!(),
                    K::Ite(i, a, b) => { let (i, x, y) = (self.boolean(i), self.bv(a), self.bv(b)); Z3_mk_ite(c, i, x, y) }
                    K::Zext(a) => { let x = self.bv(a); Z3_mk_zero_ext(c, (w - width(a)) as c_uint, x) }
                    K::Sext(a) => { let x = self.bv(a); Z3_mk_sign_ext(c, (w - width(a)) as c_uint, x) }
                    K::Ext(a, lo) => { let x = self.bv(a); Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x) }
                    K::Cat(a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_concat(c, x, y) }
                    K::FBin(..) | K::FUn(..) if self.abs => {
                        let n = CString::new(format!("a{}", e)).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w as c_uint))
                    }
                    K::FBin(op, a, b) => {
                        let (x, y) = (self.tofp(a), self.tofp(b));
                        let r = Z3_mk_fpa_rne(c);
                        let f = match op {
                            F::Add => Z3_mk_fpa_add(c, r, x, y),
                            F::Sub => Z3_mk_fpa_sub(c, r, x, y),
                            F::Mul => Z3_mk_fpa_mul(c, r, x, y),
                            F::Div => Z3_mk_fpa_div(c, r, x, y),
                            F::Rem => { eprintln!("frem unsupported"); std::process::exit(70) }
                        };
                        self.ieee(f, w)
                    }
                    K::FUn(op, a) => {
                        let aw = width(a);
                        match op {
                            U::Sqrt => { let x = self.tofp(a); self.ieee(Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x), w) }
                            U::Floor | U::Ceil | U::Trunc | U::RoundAway | U::RoundEven => {
                                let x = self.tofp(a);
                                let r = match op { U::Floor => Z3_mk_fpa_rtn(c), U::Ceil => Z3_mk_fpa_rtp(c), U::Trunc => Z3_mk_fpa_rtz(c), U::RoundAway => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) };
                                self.ieee(Z3_mk_fpa_round_to_integral(c, r, x), w)
                            }
                            U::ToSI | U::ToUI => {
                                let x = self.tofp(a);
                                let so = self.fpsort(aw);
                                let rtz = Z3_mk_fpa_rtz(c);
                                let (lo, hi, vlo, vhi, cv) = if op == U::ToSI {
                                    (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), (1u128 << (w - 1)) & mask(w), mask(w) >> 1, Z3_mk_fpa_to_sbv(c, rtz, x, w as c_uint))
                                } else {
                                    (0.0, 2f64.powi(w as i32), 0, mask(w), Z3_mk_fpa_to_ubv(c, rtz, x, w as c_uint))
                                };
                                let l = Z3_mk_fpa_lt(c, x, Z3_mk_fpa_numeral_double(c, lo, so));
                                let h = Z3_mk_fpa_geq(c, x, Z3_mk_fpa_numeral_double(c, hi, so));
                                let n = Z3_mk_fpa_is_nan(c, x);
                                Z3_mk_ite(c, n, self.num(0, w), Z3_mk_ite(c, l, self.num(vlo, w), Z3_mk_ite(c, h, self.num(vhi, w), cv)))
                            }
                            U::FromSI => { let x = self.bv(a); self.ieee(Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, self.fpsort(w)), w) }
                            U::FromUI => { let x = self.bv(a); self.ieee(Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, self.fpsort(w)), w) }
                            U::Ext | U::Trn => { let x = self.tofp(a); self.ieee(Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, self.fpsort(w)), w) }
                        }
                    }
                }
            }
        };
        self.bvm.insert(e, r);
        r
    }

    /// Satisfiability of the conjunction of `cs`.
    pub fn check(&mut self, mut cs: Vec<E>, hint: &Model) -> Sat {
        cs.sort_unstable();
        cs.dedup();
        cs.retain(|e| cval(*e) != Some(1));
        if cs.iter().any(|e| cval(*e) == Some(0)) { return Sat::Unsat; }
        if cs.is_empty() { return Sat::Sat(Rc::new(vec![])); }
        let key = Rc::new(cs);
        if let Some(r) = self.cache.get(&key) { self.st.cached += 1; return r.clone(); }
        let t = Instant::now();
        if let Some(r) = self.order(&key, hint) {
            self.st.queries += 1;
            self.st.secs += t.elapsed().as_secs_f64();
            match &r { Sat::Sat(_) => self.st.sat += 1, _ => self.st.unsat += 1 }
            self.cache.insert(key, r.clone());
            return r;
        }
        let fp = key.iter().any(|e| has_fp(*e));
        let r = if fp {
            // floating-point operations as unconstrained results first, with interval facts
            let extra = crate::fpa::lemmas(&key);
            std::mem::swap(&mut self.bvm, &mut self.abvm);
            std::mem::swap(&mut self.bom, &mut self.abom);
            self.abs = true;
            let r = self.query_with(&key, &extra, false);
            self.abs = false;
            std::mem::swap(&mut self.bvm, &mut self.abvm);
            std::mem::swap(&mut self.bom, &mut self.abom);
            match r {
                Sat::Unsat => { self.st.abs_unsat += 1; Sat::Unsat }
                r => {
                    let am: FxMap<u32, u128> = if let Sat::Sat(v) = &r { v.iter().copied().collect() } else { Default::default() };
                    match crate::fpa::search(&key, &[&am, &hint.vals], 4000) {
                        Some(v) => { self.st.searched += 1; Sat::Sat(v) }
                        None => { self.st.fullfp += 1; self.query(&key, true) }
                    }
                }
            }
        } else { self.query(&key, false) };
        match &r { Sat::Sat(_) => self.st.sat += 1, Sat::Unsat => self.st.unsat += 1, Sat::Unknown => self.st.unknown += 1 }
        self.st.queries += 1;
        let dt = t.elapsed().as_secs_f64();
        self.st.secs += dt;
        if dt > self.st.max { self.st.max = dt; }
        if dt > 0.005 && dt > slow_limit() {
            eprintln!("slow query {:.1}s fp={} n={} rl={}", dt, fp, key.len(), self.rlimit);
            for e in key.iter() { eprintln!("   {}", show(*e, 12)); }
        }
        self.cache.insert(key, r.clone());
        r
    }
    fn query(&mut self, key: &Rc<Vec<E>>, fp: bool) -> Sat { self.query_with(key, &[], fp) }
    fn query_with(&mut self, key: &Rc<Vec<E>>, extra: &[E], fp: bool) -> Sat {
        let c = self.c;
        unsafe {
            let (s, own) = if fp {
                let l = CString::new("QF_BVFP").unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, s);
                Z3_solver_set_params(c, s, self.fp);
                (s, true)
            } else { Z3_solver_push(c, self.s); (self.s, false) };
            for e in key.iter().chain(extra) { let b = self.boolean(*e); Z3_solver_assert(c, s, b); }
            if let Some(d) = &self.dump {
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}-{}.smt2", d, std::process::id(), self.st.queries), t + "\n(check-sat)\n");
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vs: Vec<u32> = vec![];
                    for e in key.iter() { vs.extend(varset(*e).iter()); }
                    vs.sort_unstable();
                    vs.dedup();
                    let mut vals = vec![];
                    for v in vs {
                        let w = ar().vars[v as usize].w;
                        let ve = self.bv_var(v, w);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, ve, true, &mut o);
                        let val = if w <= 64 { let mut u = 0u64; Z3_get_numeral_uint64(c, o, &mut u); u as u128 } else {
                            std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap()
                        };
                        vals.push((v, val));
                    }
                    Z3_model_dec_ref(c, m);
                                        Sat::Sat(Rc::new(vals))
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if own { Z3_solver_dec_ref(c, s) } else { Z3_solver_pop(c, s, 1) }
            out
        }
    }
    /// Branch feasibility: cheap sound shortcuts (contradictory order atoms; a small change of the
    /// current model, verified by evaluation) before the solver.
    pub fn feasible(&mut self, cs: Vec<E>, cond: E, m: &Rc<Model>) -> Sat {
        if cs.len() > 1 && order_unsat(&cs) { self.st.shortcut += 1; return Sat::Unsat; }
        if let Some(v) = repair(&cs, cond, m) { self.st.shortcut += 1; return Sat::Sat(Rc::new(v)); }
        self.check(cs, m)
    }
    /// A term compared by signed order, as an integer.
    fn oterm(&mut self, e: E) -> P {
        if let Some(p) = self.ot.get(&e) { return *p; }
        let c = self.c;
        let r = unsafe {
            let so = Z3_mk_int_sort(c);
            match cval(e) {
                Some(v) => Z3_mk_int64(c, sx(v, width(e)) as i64, so),
                None => { let n = CString::new(format!("o{}", e)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), so) }
            }
        };
        self.ot.insert(e, r);
        r
    }
    fn obool(&mut self, e: E, used: &mut Vec<E>) -> P {
        let c = self.c;
        unsafe {
            match kind(e) {
                K::Const(1) => Z3_mk_true(c),
                K::Const(_) => Z3_mk_false(c),
                K::Cmp(op @ (C::Slt | C::Sle | C::Eq), a, b) if width(a) == 64 => {
                    used.push(a);
                    used.push(b);
                    let (x, y) = (self.oterm(a), self.oterm(b));
                    match op { C::Slt => Z3_mk_lt(c, x, y), C::Sle => Z3_mk_le(c, x, y), _ => Z3_mk_eq(c, x, y) }
                }
                K::Cmp(op @ (C::Ult | C::Ule), a, b) if width(a) == 63 && cval(b).is_some() && mag_of(a).is_some() => {
                    let k = fkey(mag_of(a).unwrap());
                    used.push(k);
                    let x = self.oterm(k);
                    let m = cval(b).unwrap() as i64;
                    let so = Z3_mk_int_sort(c);
                    let (lo, hi) = (Z3_mk_int64(c, -m, so), Z3_mk_int64(c, m, so));
                    let v = if op == C::Ult { [Z3_mk_lt(c, lo, x), Z3_mk_lt(c, x, hi)] } else { [Z3_mk_le(c, lo, x), Z3_mk_le(c, x, hi)] };
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                K::Bin(B::And, a, b) => { let v = [self.obool(a, used), self.obool(b, used)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Bin(B::Or, a, b) => { let v = [self.obool(a, used), self.obool(b, used)]; Z3_mk_or(c, 2, v.as_ptr()) }
                K::Bin(B::Xor, a, b) => { let x = self.obool(a, used); if cval(b) == Some(1) { Z3_mk_not(c, x) } else { let y = self.obool(b, used); Z3_mk_xor(c, x, y) } }
                K::Ite(i, a, b) => { let (i, x, y) = (self.obool(i, used), self.obool(a, used), self.obool(b, used)); Z3_mk_ite(c, i, x, y) }
                _ => {
                    if let Some(p) = self.om.get(&e) { return *p; }
                    let n = CString::new(format!("p{}", e)).unwrap();
                    let r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bool_sort(c));
                    self.om.insert(e, r);
                    r
                }
            }
        }
    }
    /// Order abstraction: 64-bit terms under signed comparison as integers, other atoms free.
    /// Unsatisfiability carries over; a model counts only if the original constraints hold in it.
    fn order(&mut self, key: &[E], hint: &Model) -> Option<Sat> {
        if key.len() > 80 || !key.iter().any(|e| has_order(*e, 6)) { return None; }
        let c = self.c;
        unsafe {
            Z3_solver_push(c, self.o);
            let mut used = vec![];
            for e in key { let b = self.obool(*e, &mut used); Z3_solver_assert(c, self.o, b); }
            let r = match Z3_solver_check(c, self.o) {
                -1 => Some(Sat::Unsat),
                1 => {
                    let m = Z3_solver_get_model(c, self.o);
                    Z3_model_inc_ref(c, m);
                    let mut vals: FxMap<u32, u128> = Default::default();
                    for e in key { for v in varset(*e).iter() { vals.insert(*v, hint.vals.get(v).copied().unwrap_or(0)); } }
                    used.sort_unstable();
                    used.dedup();
                    for e in used {
                        let (v, fl) = match key_var(e) { Some(v) => v, None => continue };
                        let t = self.oterm(e);
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, t, true, &mut out);
                        let mut i = 0i64;
                        if !Z3_get_numeral_int64(c, out, &mut i) { continue; }
                        let bits = if fl && i < 0 { (i as u64) ^ (u64::MAX >> 1) } else { i as u64 };
                        vals.insert(v, bits as u128);
                    }
                    Z3_model_dec_ref(c, m);
                    let t = Model::new(vals);
                    if key.iter().all(|e| t.eval(*e) == 1) { Some(Sat::Sat(Rc::new(t.vals.iter().map(|(k, x)| (*k, *x)).collect()))) } else { None }
                }
                _ => None,
            };
            Z3_solver_pop(c, self.o, 1);
            r
        }
    }
    fn rterm(&mut self, e: E) -> Result<P, String> {
        let c = self.c;
        unsafe {
            let so = Z3_mk_real_sort(c);
            Ok(match kind(e) {
                K::Const(v) => rnum(c, f64::from_bits(v as u64)),
                K::Var(v) => { let n = CString::new(format!("r{}", v)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), so) }
                K::FBin(op, a, b) if op != F::Rem => {
                    let v = [self.rterm(a)?, self.rterm(b)?];
                    match op { F::Add => Z3_mk_add(c, 2, v.as_ptr()), F::Sub => Z3_mk_sub(c, 2, v.as_ptr()), F::Mul => Z3_mk_mul(c, 2, v.as_ptr()), _ => Z3_mk_div(c, v[0], v[1]) }
                }
                _ => return Err(format!("not a rational function: {}", show(e, 4))),
            })
        }
    }
    /// Is the value of the program at least -1e-6 for all values in [0,1] of its variables?
    /// Err: not decided; Ok(Some): a counterexample.
    pub fn real_nonneg(&mut self, prog: &[(u64, E)]) -> Result<Option<Vec<(u32, f64)>>, String> {
        let c = self.c;
        let t = Instant::now();
        let mut st: Vec<P> = vec![];
        let mut vars: Vec<u32> = vec![];
        for (op, e) in prog {
            match op {
                0 => { vars.extend(varset(*e).iter()); let t = self.rterm(*e)?; st.push(t) }
                1 => st.push(unsafe { rnum(c, cval(*e).ok_or("symbolic constant")? as u64 as i64 as f64) }),
                _ => {
                    let (b, a) = (st.pop().unwrap(), st.pop().unwrap());
                    let v = [a, b];
                    st.push(unsafe { match op { 2 => Z3_mk_add(c, 2, v.as_ptr()), 3 => Z3_mk_sub(c, 2, v.as_ptr()), 4 => Z3_mk_mul(c, 2, v.as_ptr()), _ => Z3_mk_div(c, a, b) } })
                }
            }
        }
        vars.sort_unstable();
        vars.dedup();
        let r = unsafe {
            let l = CString::new("QF_NRA").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let mut ts = vec![];
            for v in &vars {
                let n = CString::new(format!("r{}", v)).unwrap();
                let x = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_real_sort(c));
                Z3_solver_assert(c, s, Z3_mk_le(c, rnum(c, 0.0), x));
                Z3_solver_assert(c, s, Z3_mk_le(c, x, rnum(c, 1.0)));
                ts.push(x);
            }
            Z3_solver_assert(c, s, Z3_mk_lt(c, st[0], Z3_mk_div(c, rnum(c, -1.0), rnum(c, 1000000.0))));
            let r = match Z3_solver_check(c, s) {
                -1 => { self.st.unsat += 1; Ok(None) }
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (v, x) in vars.iter().zip(ts) {
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, x, true, &mut o);
                        let t = std::ffi::CStr::from_ptr(Z3_get_numeral_decimal_string(c, o, 20)).to_str().unwrap().trim_end_matches('?').to_string();
                        out.push((*v, t.parse::<f64>().map_err(|_| t)?));
                    }
                    Z3_model_dec_ref(c, m);
                    Ok(Some(out))
                }
                _ => { self.st.unknown += 1; Err("solver gave no answer on a real query".to_string()) }
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        self.st.queries += 1;
        let dt = t.elapsed().as_secs_f64();
        self.st.secs += dt;
        if dt > self.st.max { self.st.max = dt; }
        r
    }
    fn bv_var(&mut self, v: u32, w: u16) -> P {
        let n = CString::new(format!("v{}", v)).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, w as c_uint)) }
    }

    /// Constraints of `pc` transitively sharing variables with `cond`.
    pub fn slice(pc: &[E], cond: E) -> Vec<E> {
        let vs = varset(cond);
        let mut set: FxSet<u32> = vs.iter().copied().collect();
        let mut taken = vec![false; pc.len()];
        let mut out = vec![cond];
        loop {
            let mut ch = false;
            for (i, e) in pc.iter().enumerate() {
                if taken[i] { continue; }
                let v = varset(*e);
                if v.iter().any(|x| set.contains(x)) {
                    taken[i] = true;
                    ch = true;
                    out.push(*e);
                    for x in v.iter() { set.insert(*x); }
                }
            }
            if !ch { break; }
        }
        out
    }
}

/// A double as an exact rational.
unsafe fn rnum(c: P, f: f64) -> P {
    let so = Z3_mk_real_sort(c);
    let (m, e) = { let b = f.to_bits(); let x = (b >> 52 & 0x7ff) as i64; let m = b & ((1 << 52) - 1); if x == 0 { (m, -1074) } else { (m | 1 << 52, x - 1075) } };
    let (m, e) = if m == 0 { (0, 0) } else { let z = m.trailing_zeros(); (m >> z, e + z as i64) };
    let num = |s: String| { let n = CString::new(s).unwrap(); Z3_mk_numeral(c, n.as_ptr(), so) };
    let mut r = num(format!("{}{}", if f < 0.0 { "-" } else { "" }, m));
    let two = |k: i64| -> P { let mut p = num("1".into()); let mut k = k; while k > 0 { let j = k.min(62); let v = [p, num((1u64 << j).to_string())]; p = Z3_mk_mul(c, 2, v.as_ptr()); k -= j; } p };
    if e > 0 { let v = [r, two(e)]; r = Z3_mk_mul(c, 2, v.as_ptr()) }
    if e < 0 { r = Z3_mk_div(c, r, two(-e)) }
    r
}
pub fn real_eval(prog: &[(u64, E)], m: &Model) -> f64 {
    let mut st: Vec<f64> = vec![];
    for (op, e) in prog {
        match op {
            0 => st.push(f64::from_bits(m.eval(*e) as u64)),
            1 => st.push(m.eval(*e) as u64 as i64 as f64),
            _ => { let (b, a) = (st.pop().unwrap(), st.pop().unwrap()); st.push(match op { 2 => a + b, 3 => a - b, 4 => a * b, _ => a / b }) }
        }
    }
    st[0]
}
/// Do the signed order atoms among `cs` contradict each other?  (sound, incomplete)
fn order_unsat(cs: &[E]) -> bool {
    let mut nodes: Vec<E> = vec![];
    let mut edges: Vec<(usize, usize, bool)> = vec![]; // a <(=) b, strict
    let mut ne: Vec<(usize, usize)> = vec![];
    let mut id = |e: E| -> usize { match nodes.iter().position(|x| *x == e) { Some(i) => i, None => { nodes.push(e); nodes.len() - 1 } } };
    for e in cs {
        let (e, pos) = match kind(*e) { K::Bin(B::Xor, x, o) if cval(o) == Some(1) => (x, false), _ => (*e, true) };
        match (kind(e), pos) {
            (K::Cmp(C::Slt, a, b), true) => { let (a, b) = (id(a), id(b)); edges.push((a, b, true)) }
            (K::Cmp(C::Slt, a, b), false) => { let (a, b) = (id(a), id(b)); edges.push((b, a, false)) }
            (K::Cmp(C::Sle, a, b), true) => { let (a, b) = (id(a), id(b)); edges.push((a, b, false)) }
            (K::Cmp(C::Sle, a, b), false) => { let (a, b) = (id(a), id(b)); edges.push((b, a, true)) }
            (K::Cmp(C::Eq, a, b), true) if width(a) > 1 => { let (a, b) = (id(a), id(b)); edges.push((a, b, false)); edges.push((b, a, false)) }
            (K::Cmp(C::Eq, a, b), false) if width(a) > 1 => { let (a, b) = (id(a), id(b)); ne.push((a, b)) }
            _ => {}
        }
    }
    let n = nodes.len();
    if edges.len() < 2 || n > 24 { return false; }
    for i in 0..n { for j in 0..n {
        if let (Some(x), Some(y)) = (cval(nodes[i]), cval(nodes[j])) {
            if width(nodes[i]) == width(nodes[j]) && sx(x, width(nodes[i])) < sx(y, width(nodes[j])) { edges.push((i, j, true)); }
        }
    } }
    // 0 none, 1 <=, 2 <
    let mut d = vec![0u8; n * n];
    for (a, b, s) in edges { let v = 1 + s as u8; if d[a * n + b] < v { d[a * n + b] = v } }
    for k in 0..n { for i in 0..n { if d[i * n + k] == 0 { continue; } for j in 0..n {
        if d[k * n + j] == 0 { continue; }
        let v = d[i * n + k].max(d[k * n + j]);
        if d[i * n + j] < v { d[i * n + j] = v }
    } } }
    (0..n).any(|i| d[i * n + i] == 2) || ne.iter().any(|(a, b)| d[a * n + b] > 0 && d[b * n + a] > 0)
}
/// Change one variable of `cond` in the model so that all of `cs` holds.
fn repair(cs: &[E], cond: E, m: &Rc<Model>) -> Option<Vec<(u32, u128)>> {
    let vs = varset(cond);
    if vs.len() > 4 { return None; }
    let mut all: Vec<u32> = vec![];
    for e in cs { all.extend(varset(*e).iter()); }
    all.sort_unstable();
    all.dedup();
    if all.len() > 24 { return None; }
    let base: FxMap<u32, u128> = all.iter().map(|v| (*v, m.vals.get(v).copied().unwrap_or(0))).collect();
    for v in vs.iter() {
        let w = ar().vars[*v as usize].w;
        if w > 64 { continue; }
        let mut pts: Vec<u128> = all.iter().filter(|u| **u != *v && ar().vars[**u as usize].w == w).map(|u| base[u]).collect();
        pts.push(0);
        if w == 64 { pts.push(1f64.to_bits() as u128); pts.push((-1f64).to_bits() as u128); }
        pts.sort_unstable();
        pts.dedup();
        let mut cand: Vec<u128> = vec![];
        for k in 0..pts.len() {
            cand.push(pts[k]);
            cand.push(pts[k].wrapping_add(1) & mask(w));
            cand.push(pts[k].wrapping_sub(1) & mask(w));
            if k > 0 { cand.push((pts[k - 1] + pts[k]) / 2); }
        }
        if cand.len() > 48 { cand.truncate(48); }
        for c in cand {
            if c == base[v] { continue; }
            let mut t = base.clone();
            t.insert(*v, c);
            let t = Model::new(t);
            if t.eval(cond) == 1 && cs.iter().all(|e| t.eval(*e) == 1) { return Some(t.vals.iter().map(|(k, x)| (*k, *x)).collect()); }
        }
    }
    None
}

fn has_order(e: E, d: u32) -> bool {
    match kind(e) {
        K::Cmp(C::Slt | C::Sle, a, _) => width(a) == 64,
        K::Cmp(C::Eq, a, b) => width(a) == 64 && (key_var(a).is_some() || key_var(b).is_some()),
        K::Bin(_, a, b) if width(e) == 1 && d > 0 => has_order(a, d - 1) || has_order(b, d - 1),
        _ => false,
    }
}
fn mag_of(a: E) -> Option<E> { match kind(a) { K::Ext(x, 0) if width(x) == 64 => Some(x), _ => None } }
/// The variable a term is the order key of (true: floating point, false: plain integer).
fn key_var(e: E) -> Option<(u32, bool)> {
    match kind(e) {
        K::Var(v) if width(e) == 64 => Some((v, false)),
        K::Ite(_, z, i) if cval(z) == Some(0) => match kind(i) {
            K::Ite(_, _, x) => match kind(x) { K::Var(v) if width(x) == 64 && fkey(x) == e => Some((v, true)), _ => None },
            _ => None,
        },
        _ => None,
    }
}
