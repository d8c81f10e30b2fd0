//! The interface between harness code (and the stubs in the vendored `rand`) and the symbolic
//! executor.  In the bitcode build the `symx_*` functions are undefined and interpreted by the
//! executor; with the feature `native` they are defined here and replay recorded values, so the
//! same harness becomes an ordinary test of the real build.
#[cfg(feature = "native")]
pub mod native;

mod raw {
    extern "C" {
        pub fn symx_sym(width: u64, name: *const u8, len: usize) -> u64;
        pub fn symx_fmag(max: u64, name: *const u8, len: usize) -> u64;
        pub fn symx_assume(c: bool);
        pub fn symx_check(c: bool, label: *const u8, len: usize);
        pub fn symx_cover(label: *const u8, len: usize);
        pub fn symx_flag_set(k: u64, v: u64);
        pub fn symx_flag(k: u64) -> u64;
        pub fn symx_observe(label: *const u8, len: usize, v: u64);
        pub fn symx_conc(v: u64) -> u64;
        pub fn symx_kill();
        pub fn symx_print(label: *const u8, len: usize, v: u64);
        pub fn symx_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn symx_decide(c: bool) -> bool;
        pub fn symx_must(c: bool) -> bool;
        pub fn symx_os_dir(p: *mut u8, cap: usize) -> usize;
        pub fn symx_os_act(ord: u64, at: u64, kind: u64, arg: u64, p: *const u8, n: usize);
        pub fn symx_os_proc(i: u64, p: *mut u64) -> u64;
        pub fn symx_os_arg(i: u64, j: u64, p: *mut u8, cap: usize) -> u64;
        pub fn symx_os_signal(at: u64, sig: u64);
        pub fn symx_os_cli(f: extern "C" fn(u64) -> u64) -> u64;
        pub fn symx_os_clock() -> u64;
        pub fn symx_os_setargs(argc: u64, argv: *const *const u8);
        pub fn symx_real(prog: *const u64, n: usize, label: *const u8, len: usize);
    }
}
/// RNG draws are symbolic (arbitrary RNG state) when non-zero.
pub const RNG_SYM: u64 = 1;
/// Cauchy draws are zero when non-zero.
pub const CAUCHY_ZERO: u64 = 3;
/// RNG draws are reported through `observe` when non-zero (selection-probability analysis).
pub const RNG_LOG: u64 = 2;

/// A fresh unconstrained bit-vector.
#[inline(never)] pub fn bits(width: u32, name: &str) -> u64 { unsafe { raw::symx_sym(width as u64, name.as_ptr(), name.len()) } }
pub fn u64(name: &str) -> u64 { bits(64, name) }
pub fn i64(name: &str) -> i64 { bits(64, name) as i64 }
pub fn u8(name: &str) -> u8 { bits(8, name) as u8 }
pub fn bool(name: &str) -> bool { bits(1, name) & 1 == 1 }
/// An arbitrary double (including NaN and infinities).
pub fn f64(name: &str) -> f64 { f64::from_bits(bits(64, name)) }
/// An arbitrary finite double with magnitude at most `max`.
pub fn f64_mag(name: &str, max: f64) -> f64 {
    f64::from_bits(unsafe { raw::symx_fmag(max.to_bits(), name.as_ptr(), name.len()) })
}
/// An arbitrary integer-valued double of magnitude at most 2^15 (sums and means are exact).
pub fn f64_small(name: &str) -> f64 { bits(16, name) as u16 as i16 as f64 }
/// An arbitrary finite double.
pub fn f64_fin(name: &str) -> f64 { f64_mag(name, f64::MAX) }
#[inline(never)] pub fn assume(c: bool) { unsafe { raw::symx_assume(c) } }
#[inline(never)] pub fn check(c: bool, label: &str) { unsafe { raw::symx_check(c, label.as_ptr(), label.len()) } }
#[inline(never)] pub fn cover(label: &str) { unsafe { raw::symx_cover(label.as_ptr(), label.len()) } }
pub fn set_flag(k: u64, v: u64) { unsafe { raw::symx_flag_set(k, v) } }
pub fn flag(k: u64) -> u64 { unsafe { raw::symx_flag(k) } }
#[inline(never)] pub fn observe(label: &str, v: u64) { unsafe { raw::symx_observe(label.as_ptr(), label.len(), v) } }
/// Forks over the possible values.
#[inline(never)] pub fn conc(v: u64) -> u64 { unsafe { raw::symx_conc(v) } }
#[inline(never)] pub fn kill() -> ! { unsafe { raw::symx_kill() }; loop { std::hint::spin_loop() } }
pub fn print(label: &str, v: u64) { unsafe { raw::symx_print(label.as_ptr(), label.len(), v) } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { raw::symx_ite(c, a, b) } }
pub fn decide(c: bool) -> bool { unsafe { raw::symx_decide(c) } }
pub fn must(c: bool) -> bool { unsafe { raw::symx_must(c) } }

/// A symbolic choice among `n` alternatives, as a concrete number on each path.
#[inline(never)] pub fn choose(n: usize, name: &str) -> usize {
    if n <= 1 { return 0; }
    let v = bits(8, name);
    assume(v < n as u64);
    conc(v) as usize
}
/// A symbolic boolean, concrete on each path.
pub fn flip(name: &str) -> bool { choose(2, name) == 1 }
pub fn implies(a: bool, b: bool) -> bool { !a | b }
/// Same double value, bit for bit except that NaNs never occur.
pub fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
/// Finite, decided on the bits (no floating-point reasoning needed).
pub fn finite(a: f64) -> bool { (a.to_bits() & (u64::MAX >> 1)) < f64::INFINITY.to_bits() }

/// Exact probabilities: the outcomes of the draws are enumerated (`script::next`), the probability
/// of an outcome of a draw is a symbolic real, and sums of products are compared by `real::nonneg`.
pub const SCRIPT: u64 = 5;
/// Sign of a Cauchy draw when non-zero: 1 positive, 2 negative, of magnitude 1 ..= 2^20.
pub const CAUCHY_SIGN: u64 = 4;
/// Every Bernoulli draw is true, every index 0, Cauchy draws are this number (as bits).
pub const FORCED: u64 = 6;
pub mod real {
    /// Postfix program: 0 double, 1 integer, 2 + 3 - 4 * 5 /, 9 not analysable
    pub type Prog = Vec<u64>;
    pub fn int(v: i64) -> Prog { vec![1, v as u64] }
    pub fn of(v: f64) -> Prog { vec![0, v.to_bits()] }
    pub fn op(o: u64, mut a: Prog, b: &Prog) -> Prog { a.extend_from_slice(b); a.push(o); a }
    #[inline(never)] pub fn nonneg(p: &Prog, label: &str) { unsafe { super::raw::symx_real(p.as_ptr(), p.len(), label.as_ptr(), label.len()) } }
}
pub mod script {
    use super::real::{int, of, op, Prog};
    pub struct T { at: usize, picks: Vec<(u64, u64)>, weight: Option<Prog>, started: bool }
    static mut S: T = T { at: 0, picks: vec![], weight: None, started: false };
    #[allow(static_mut_refs)] fn s() -> &'static mut T { unsafe { &mut S } }
    pub fn begin() { let t = s(); t.at = 0; t.picks.clear(); t.weight = None; t.started = false; super::set_flag(super::SCRIPT, 1); }
    /// Moves to the next combination of outcomes; false when all have been seen.
    pub fn next() -> bool {
        let t = s();
        t.at = 0;
        t.weight = None;
        if !t.started { t.started = true; return true; }
        while let Some((k, n)) = t.picks.pop() { if k + 1 < n { t.picks.push((k + 1, n)); return true; } }
        super::set_flag(super::SCRIPT, 0);
        false
    }
    fn pick(n: u64) -> u64 {
        let t = s();
        if t.at == t.picks.len() { t.picks.push((0, n)); }
        t.at += 1;
        t.picks[t.at - 1].0
    }
    fn times(f: Prog) { let t = s(); t.weight = Some(match t.weight.take() { None => f, Some(w) => op(4, w, &f) }); }
    /// The probability of this combination.
    pub fn weight() -> Prog { s().weight.clone().unwrap_or(int(1)) }
    pub fn bernoulli(p: f64) -> bool { let r = pick(2) == 0; times(if r { of(p) } else { op(3, int(1), &of(p)) }); r }
    pub fn index(n: u64) -> u64 { if n > 64 { raw(); } let r = pick(n); times(op(5, int(1), &int(n as i64))); r }
    pub fn raw() { times(vec![9]) }
}
/// Stubs used by the vendored `rand` and `rand_distr`.
pub mod rng {
    use super::*;
    #[inline] pub fn sym() -> bool { flag(RNG_SYM) != 0 }
    pub fn next_u64() -> u64 { if flag(SCRIPT) != 0 { script::raw() } if flag(RNG_LOG) != 0 { observe("draw:raw", 0) } bits(64, "rng") }
    pub fn bernoulli(p: f64) -> bool {
        if flag(SCRIPT) != 0 { return script::bernoulli(p); }
        if flag(FORCED) != 0 { return true; }
        let r = bits(1, "bern") & 1 == 1;
        // v < (p * 2^64) as u64 for an arbitrary 64-bit v; p = 1 is special-cased by rand
        assume((!r) | (p >= 1.0 / 18446744073709551616.0));
        assume(r | (p < 1.0));
        if flag(RNG_LOG) != 0 { observe("draw:p", p.to_bits()); observe("draw:b", r as u64); }
        r
    }
    pub fn index(n: u64) -> u64 {
        if flag(SCRIPT) != 0 { return script::index(n); }
        if flag(FORCED) != 0 { return 0; }
        let i = bits(64, "idx");
        assume(i < n);
        if flag(RNG_LOG) != 0 { observe("draw:n", n); observe("draw:i", i); }
        i
    }
    /// tan(PI * x) for x a multiple of 2^-53 in [0, 1): zero or of magnitude 2^-54 ..= 2^54.
    pub fn cauchy() -> f64 {
        if flag(CAUCHY_ZERO) != 0 { return 0.0; }
        if flag(FORCED) != 0 { return f64::from_bits(flag(FORCED)); }
        if flag(CAUCHY_SIGN) != 0 {
            let c = f64::from_bits(unsafe { raw::symx_fmag((2f64).powi(20).to_bits(), "cauchy".as_ptr(), 6) });
            assume(if flag(CAUCHY_SIGN) == 1 { c >= 1.0 } else { c <= -1.0 });
            return c;
        }
        let b = unsafe { raw::symx_fmag((2f64).powi(54).to_bits(), "cauchy".as_ptr(), 6) };
        let m = b & (u64::MAX >> 1);
        assume((m == 0) | (m >= (2f64).powi(-54).to_bits()));
        if flag(RNG_LOG) != 0 { observe("draw:cauchy", b) }
        f64::from_bits(b)
    }
}

/// The operating system around the code under test: executed programs follow scripts, their fate
/// can be asked for.  Times are in milliseconds.
pub mod os {
    use super::raw::*;
    pub const OUT: u64 = 1;
    pub const ERR: u64 = 2;
    pub const CLOSE: u64 = 3;
    /// With the exit status, or from the signal `arg / 256`.
    pub const EXIT: u64 = 4;
    pub const GRAND: u64 = 5;
    pub const IGN: u64 = 6;
    /// One write by a helper thread may be held back when non-zero.
    pub const LATE: u64 = 901;
    /// Other threads run right after a kill, before the killer goes on, when non-zero.
    pub const PREEMPT: u64 = 903;
    /// The directory everything happens in; it contains the program `obj`.
    #[inline(never)] pub fn dir() -> String { let mut b = vec![0u8; 256]; let n = unsafe { symx_os_dir(b.as_mut_ptr(), 256) }; b.truncate(n); String::from_utf8(b).unwrap() }
    pub fn path(n: &str) -> String { format!("{}/{}", dir(), n) }
    /// The `ord`-th executed program does this `at` ms after its start.
    #[inline(never)] pub fn act(ord: usize, at: u64, kind: u64, arg: u64, bytes: &[u8]) { unsafe { symx_os_act(ord as u64, at, kind, arg, bytes.as_ptr(), bytes.len()) } }
    #[derive(Clone, Copy, Debug)]
    pub struct Proc { pub pid: u64, pub alive: bool, pub killed: bool, pub ord: i64, pub start: u64, pub end: u64, pub main: bool, pub argc: usize }
    #[inline(never)] pub fn procs() -> Vec<Proc> {
        let mut r = vec![];
        loop {
            let mut w = [0u64; 9];
            if unsafe { symx_os_proc(r.len() as u64, w.as_mut_ptr()) } == 0 { return r; }
            r.push(Proc { pid: w[0], alive: w[1] != 0, killed: w[2] != 0, ord: w[3] as i64, start: w[4], end: w[5], main: w[8] > 0, argc: w[8] as usize });
        }
    }
    /// Argument `j` of the `i`-th process.
    #[inline(never)] pub fn arg(i: usize, j: usize) -> Vec<u8> { let mut b = vec![0u8; 4096]; let n = unsafe { symx_os_arg(i as u64, j as u64, b.as_mut_ptr(), b.len()) }; b.truncate(if n == u64::MAX { 0 } else { n as usize }); b }
    #[inline(never)] pub fn signal(at: u64, sig: u64) { unsafe { symx_os_signal(at, sig) } }
    #[inline(never)] pub fn clock() -> u64 { unsafe { symx_os_clock() } }
    /// Run `f` as the main function of a program with these arguments; its exit status.
    #[inline(never)] pub fn cli(f: extern "C" fn(u64) -> u64, args: &[Vec<u8>]) -> u64 {
        let mut bufs: Vec<Vec<u8>> = vec![];
        for a in args { let mut a = a.clone(); a.push(0); bufs.push(a); }
        let mut v: Vec<*const u8> = bufs.iter().map(|a| a.as_ptr()).collect();
        v.push(std::ptr::null());
        unsafe { symx_os_setargs(args.len() as u64, v.as_ptr()); symx_os_cli(f) }
    }
}
