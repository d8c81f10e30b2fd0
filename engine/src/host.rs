//! Host (modelled) functions: allocator, C memory functions, panics, the symx_* API.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::state::*;
use std::rc::Rc;

fn c(x: &mut Exec, st: &mut State, v: &Val) -> R<u64> { x.conc(st, v) }
fn ok(v: u64) -> R<Val> { Ok(Val::C(v)) }

// ---- allocator
fn rust_alloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let n = c(x, st, &a[0])?; big(n)?; ok(x.alloc(st, n)) }
fn big(n: u64) -> R<()> { if n > 1 << 27 { Err(Exc::Viol("alloc".into(), format!("allocation of {} bytes", n))) } else { Ok(()) } }
fn rust_dealloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; x.free(st, p)?; ok(0) }
fn realloc_(x: &mut Exec, st: &mut State, p: u64, n: u64) -> R<Val> {
    big(n)?;
    let q = x.alloc(st, n);
    if p != 0 {
        let old = x.obj(st, p)?.0.data.len() as u64;
        x.copy(st, q, p, old.min(n))?;
        x.free(st, p)?;
    }
    ok(q)
}
fn rust_realloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[3])?); realloc_(x, st, p, n) }
fn nop(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(0) }
fn malloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let n = c(x, st, &a[0])?; big(n)?; ok(x.alloc(st, n)) }
fn calloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let n = c(x, st, &a[0])? * c(x, st, &a[1])?; big(n)?; ok(x.alloc(st, n)) }
fn crealloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?); realloc_(x, st, p, n) }
fn posix_memalign(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(x, st, &a[2])?; let q = x.alloc(st, n); let p = c(x, st, &a[0])?; x.w64(st, p, q)?; ok(0)
}
fn aligned_alloc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let n = c(x, st, &a[1])?; ok(x.alloc(st, n)) }

// ---- memory functions
fn memcmp_(x: &mut Exec, st: &mut State, a: &[Val], order: bool) -> R<Val> {
    let (p, q, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?);
    let (u, v) = (x.byte_exprs(st, p, n)?, x.byte_exprs(st, q, n)?);
    // common concrete prefix
    let mut i = 0;
    while i < u.len() && u[i] == v[i] { i += 1; }
    if i == u.len() { return ok(0); }
    if let (Some(s), Some(t)) = (cval(u[i]), cval(v[i])) { return ok(if s < t { 0xffffffff } else { 1 }); }
    if !order {
        let mut e = tru();
        for k in i..u.len() { e = and(e, eq(u[k], v[k])); }
        return Ok(from(ite(e, konst(0, 32), konst(1, 32))));
    }
    let mut r = konst(0, 32);
    for k in (i..u.len()).rev() {
        let d = ite(cmp(C::Ult, u[k], v[k]), konst(0xffffffff, 32), konst(1, 32));
        r = ite(eq(u[k], v[k]), r, d);
    }
    Ok(from(r))
}
fn memcmp(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { memcmp_(x, st, a, true) }
fn bcmp(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { memcmp_(x, st, a, false) }
fn strlen(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; ok(x.cstr(st, p)?.len() as u64) }
fn memchr(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, b, n) = (c(x, st, &a[0])?, c(x, st, &a[1])? as u8, c(x, st, &a[2])?);
    for i in 0..n { if x.bytes(st, p + i, 1)?[0] == b { return ok(p + i); } }
    ok(0)
}
fn memrchr(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, b, n) = (c(x, st, &a[0])?, c(x, st, &a[1])? as u8, c(x, st, &a[2])?);
    for i in (0..n).rev() { if x.bytes(st, p + i, 1)?[0] == b { return ok(p + i); } }
    ok(0)
}
fn memcpy(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (d, s, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?);
    x.copy(st, d, s, n)?;
    ok(d)
}
fn memset(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (d, n) = (c(x, st, &a[0])?, c(x, st, &a[2])?);
    let b = x.cast1(Cast::Trunc, 32, 8, &a[1]);
    x.fill(st, d, &b, n)?;
    ok(d)
}
fn strnlen(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    for i in 0..n { if x.bytes(st, p + i, 1)?[0] == 0 { return ok(i); } }
    ok(n)
}

// ---- libm
pub fn pow(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    if let (Val::C(p), Val::C(q)) = (&a[0], &a[1]) {
        let v = crate::intr::libm_pow(f64::from_bits(*p), f64::from_bits(*q)).to_bits();
        return ok(v);
    }
    // Uninterpreted result: for base 10 (the only symbolic use) a value in [+0, +inf], or any
    // double otherwise.  The native replay returns the recorded value (interposed `pow`).
    for (n, v) in [("powa", &a[0]), ("powb", &a[1])] { st.log.push(LogEnt { name: n.into(), e: ex(v, 64) }); }
    let e = x.fresh(st, 64, "pow");
    if let Val::C(p) = &a[0] {
        let b = f64::from_bits(*p);
        if b > 0.0 && b.is_finite() {
            // result is never NaN for a non-NaN exponent and is non-negative
            let y = ex(&a[1], 64);
            let iv = crate::fpa::Facts::new(&st.pc).iv(y);
            let le = cmp(C::Ule, e, konst(f64::INFINITY.to_bits() as u128, 64));
            if !iv.nan {
                if let K::Var(v) = kind(e) { ar().vars[v as usize].nonnan = true; }
                x.assume(st, &from(le))?;
            } else {
                let nn = or(is_nan(y), le);
                x.assume(st, &from(nn))?;
            }
            if b > 1.0 {
                let one = konst(1f64.to_bits() as u128, 64);
                let z = konst(0, 64);
                let pos = or(not(fle(z, y)), fle(one, e));
                let neg = or(not(fle(y, z)), fle(e, one));
                let nan = if iv.nan { is_nan(y) } else { fls() };
                x.assume(st, &from(or(nan, and(pos, neg))))?;
            }
        }
    }
    Ok(from(e))
}
macro_rules! m1 { ($n:ident, $s:expr) => { fn $n(_x: &mut Exec, _st: &mut State, a: &[Val]) -> R<Val> { match &a[0] { Val::C(p) => ok(crate::intr::libm1($s, f64::from_bits(*p)).unwrap().to_bits()), _ => Err(Exc::Unsup(format!("{} of a symbolic value", $s))) } } } }
m1!(exp_, "exp"); m1!(log_, "log"); m1!(log2_, "log2"); m1!(log10_, "log10"); m1!(sin_, "sin"); m1!(cos_, "cos"); m1!(tan_, "tan"); m1!(exp2_, "exp2");
fn floor_(x: &mut Exec, _: &mut State, a: &[Val]) -> R<Val> { Ok(x.fun1(U::Floor, 64, 64, &a[0])) }
fn ceil_(x: &mut Exec, _: &mut State, a: &[Val]) -> R<Val> { Ok(x.fun1(U::Ceil, 64, 64, &a[0])) }
fn round_(x: &mut Exec, _: &mut State, a: &[Val]) -> R<Val> { Ok(x.fun1(U::RoundAway, 64, 64, &a[0])) }
fn trunc_(x: &mut Exec, _: &mut State, a: &[Val]) -> R<Val> { Ok(x.fun1(U::Trunc, 64, 64, &a[0])) }
fn fmod_(_: &mut Exec, _: &mut State, a: &[Val]) -> R<Val> {
    if let (Val::C(p), Val::C(q)) = (&a[0], &a[1]) { return ok((f64::from_bits(*p) % f64::from_bits(*q)).to_bits()); }
    Err(Exc::Unsup("fmod of a symbolic value".into()))
}

// ---- panics and aborts
/// Innermost cambrian function on the stack: the panic site reported.
pub fn site(x: &Exec, st: &State) -> String {
    let bt = x.backtrace(st);
    for f in &bt { if f.starts_with("cambrian::") { return f.clone(); } }
    for f in &bt { if !f.starts_with("core::") && !f.starts_with("std::") && !f.starts_with("alloc::") { return f.clone(); } }
    bt.first().cloned().unwrap_or_default()
}
fn panic_(x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> {
    let s = site(x, st);
    Err(Exc::Viol(format!("panic:{}", s), "panic".into()))
}
fn abort_(x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> {
    let s = site(x, st);
    Err(Exc::Viol(format!("abort:{}", s), "process abort".into()))
}

// ---- symx API
fn symx_sym(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let w = c(x, st, &a[0])? as u16;
    let (p, n) = (c(x, st, &a[1])?, c(x, st, &a[2])?);
    let name = x.string(st, p, n)?;
    let e = x.fresh(st, w, &name);
    Ok(from(zext(e, 64)))
}
/// A double of magnitude at most `max` (given as bits), hence not a NaN.
fn symx_fmag(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let m = c(x, st, &a[0])?;
    let (p, n) = (c(x, st, &a[1])?, c(x, st, &a[2])?);
    let name = x.string(st, p, n)?;
    let e = x.fresh(st, 64, &name);
    if let K::Var(v) = kind(e) { ar().vars[v as usize].nonnan = m <= 0x7ff0000000000000; }
    let g = cmp(C::Ule, extract(e, 0, 63), konst(m as u128, 63));
    x.assume(st, &from(g))?;
    Ok(from(e))
}
fn tobool(v: &Val) -> Val { match v { Val::C(k) => Val::C(k & 1), v => from(extract(ex(v, width_of(v)), 0, 1)) } }
pub fn width_of(v: &Val) -> u16 { match v { Val::S(e) => width(*e), _ => 64 } }
fn symx_assume(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { x.assume(st, &tobool(&a[0]))?; ok(0) }
fn symx_check(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[1])?, c(x, st, &a[2])?);
    let l = x.string(st, p, n)?;
    x.check(st, &tobool(&a[0]), &l, "assertion fails")?;
    ok(0)
}
fn symx_cover(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let l = x.string(st, p, n)?;
    *x.stats.covers.entry(l).or_default() += 1;
    ok(0)
}
fn symx_flag_set(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (k, v) = (c(x, st, &a[0])? as u32, c(x, st, &a[1])?); st.flags.insert(k, v); ok(0) }
fn symx_flag(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let k = c(x, st, &a[0])? as u32; ok(st.flags.get(&k).copied().unwrap_or(0)) }
fn symx_observe(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let l = x.string(st, p, n)?;
    st.obs.push((l.as_str().into(), a[2].clone()));
    ok(0)
}
fn symx_conc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { ok(c(x, st, &a[0])?) }
fn symx_kill(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { Err(Exc::Kill) }
fn symx_print(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let s = x.string(st, p, n)?;
    if x.verbose { eprintln!("guest: {} {}", s, match &a[2] { Val::C(k) => format!("{} ({:#x})", k, k), Val::S(e) => show(*e, 8), v => format!("{:?}", v) }); }
    let t = match &a[2] { Val::C(0) => s, Val::C(k) => format!("{} {}", s, k), Val::S(e) => format!("{} {}", s, show(*e, 6)), v => format!("{} {:?}", s, v) };
    st.trail.push(t.as_str().into());
    ok(0)
}
/// Branch-free selection on 64-bit values.
fn symx_ite(x: &mut Exec, _st: &mut State, a: &[Val]) -> R<Val> {
    let _ = x;
    Ok(match tobool(&a[0]) { Val::C(1) => a[1].clone(), Val::C(_) => a[2].clone(), v => from(ite(ex(&v, 1), ex(&a[1], 64), ex(&a[2], 64))) })
}
/// Fork eagerly on a boolean (returns a concrete value).
fn symx_decide(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let b = x.decide(st, &tobool(&a[0]))?; ok(b as u64) }
/// Must the condition hold (given the path)?  Does not fork.
fn symx_must(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    match tobool(&a[0]) {
        Val::C(k) => ok(k),
        v => {
            let e = ex(&v, 1);
            if let Some(b) = st.known.get(&e) { return ok(*b as u64); }
            match x.solver.check(crate::solver::Solver::slice(&st.pc, not(e)), &st.model.clone()) { crate::solver::Sat::Unsat => ok(1), crate::solver::Sat::Sat(_) => ok(0), _ => Err(Exc::Unsup("solver gave no answer (must)".into())) }
        }
    }
}

/// A polynomial (as a postfix program) over doubles in [0,1] read as reals must not be negative.
fn symx_real(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let (lp, ln) = (c(x, st, &a[2])?, c(x, st, &a[3])?);
    let label = x.string(st, lp, ln)?;
    let mut prog = vec![];
    let mut k = 0;
    while k < n {
        let op = x.load(st, p + 8 * k, &Ty::Int(64))?;
        let op = match op { Val::C(v) => v, _ => return Err(Exc::Unsup("symbolic real program".into())) };
        k += 1;
        prog.push(match op {
            0 | 1 => { let v = x.load(st, p + 8 * k, &Ty::Int(64))?; k += 1; (op, ex(&v, 64)) }
            2..=5 => (op, 0),
            _ => return Err(Exc::Unsup("probability of a draw is not analysed".into())),
        });
    }
    x.stats.checks += 1;
    *x.stats.labels.entry(label.clone()).or_default() += 1;
    x.solver.st.asserts += 1;
    match x.solver.real_nonneg(&prog) {
        Err(e) => Err(Exc::Unsup(e)),
        Ok(None) => ok(0),
        Ok(Some(vals)) => {
            // a point of the path near the real counterexample
            let mut cs = st.pc.clone();
            for (v, f) in &vals { cs.push(cmp(C::Eq, varexpr(*v), konst(f.to_bits() as u128, 64))); }
            let m = st.model.clone();
            let m = match x.solver.check(cs, &m) { crate::solver::Sat::Sat(v) => x.merge_model(st, &v), _ => m };
            if crate::solver::real_eval(&prog, &m) < -1e-7 { x.record(st, &label, "probability inequality fails", &m); Err(Exc::Kill) } else { Err(Exc::Unsup("real counterexample lies off the path".into())) }
        }
    }
}

pub const EXACT: &[(&str, Host)] = &[
    ("malloc", malloc), ("calloc", calloc), ("realloc", crealloc), ("free", rust_dealloc), ("posix_memalign", posix_memalign), ("aligned_alloc", aligned_alloc),
    ("memcmp", memcmp), ("bcmp", bcmp), ("strlen", strlen), ("memchr", memchr), ("memrchr", memrchr), ("memcpy", memcpy), ("memmove", memcpy), ("memset", memset), ("strnlen", strnlen),
    ("pow", pow), ("exp", exp_), ("log", log_), ("log2", log2_), ("log10", log10_), ("sin", sin_), ("cos", cos_), ("tan", tan_), ("exp2", exp2_), ("fmod", fmod_),
    ("floor", floor_), ("ceil", ceil_), ("round", round_), ("trunc", trunc_),
    ("abort", abort_), ("rust_begin_unwind", panic_),
    ("symx_sym", symx_sym), ("symx_fmag", symx_fmag), ("symx_assume", symx_assume), ("symx_check", symx_check), ("symx_cover", symx_cover), ("symx_flag_set", symx_flag_set), ("symx_flag", symx_flag),
    ("symx_observe", symx_observe), ("symx_conc", symx_conc), ("symx_kill", symx_kill), ("symx_print", symx_print), ("symx_ite", symx_ite), ("symx_decide", symx_decide), ("symx_must", symx_must), ("symx_real", symx_real),
];

pub fn pattern(short: &str, name: &str) -> Option<Host> {
    // no CPU features beyond the baseline
    if name.contains("std_detect6detect5cache21detect_and_initialize") || short.contains("std_detect::detect::cache::detect_and_initialize") { return Some(nop); }
    match short {
        "core::panicking::panic_fmt" | "core::panicking::panic_nounwind_fmt" | "core::panicking::panic_nounwind" | "core::panicking::panic_cannot_unwind" | "core::panicking::panic_in_cleanup"
        | "core::panicking::panic" | "std::panicking::begin_panic_handler" | "std::panicking::panic_with_hook" | "std::panicking::resume_unwind" | "std::panic::resume_unwind" | "core::panicking::panic_display"
        | "core::option::unwrap_failed" | "core::result::unwrap_failed" | "core::panicking::panic_bounds_check" | "core::option::expect_failed" => return Some(panic_),
        "alloc::alloc::handle_alloc_error" | "std::process::abort" | "std::alloc::rust_oom" | "std::sys::abort_internal" => return Some(abort_),
        _ => {}
    }
    if let Some(k) = short.strip_prefix("__rustc::") {
        match k {
            "__rust_alloc" | "__rust_alloc_zeroed" | "__rdl_alloc" => return Some(rust_alloc),
            "__rust_dealloc" => return Some(rust_dealloc),
            "__rust_realloc" => return Some(rust_realloc),
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" | "__rust_alloc_error_handler_should_panic_v2" => return Some(nop),
            "rust_begin_unwind" | "rust_panic" | "__rust_start_panic" => return Some(panic_),
            _ => {}
        }
    }
    None
}
pub fn register(x: &mut Exec) {
    for (n, h) in EXACT { x.hosts.insert(n.to_string(), *h); }
    for (n, h) in crate::kernel::EXACT { x.hosts.insert(n.to_string(), *h); }
    for (n, h) in crate::posix::EXACT { x.hosts.insert(n.to_string(), *h); }
}
#[allow(dead_code)]
fn _unused(_: Rc<u8>) {}
