//! LLVM intrinsics and inline assembly.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::state::*;
use std::rc::Rc;

/// Call with a "one of these two addresses" pointer resolved.
fn len(x: &mut Exec, st: &mut State, v: &Val) -> R<u64> { x.conc(st, v) }

pub fn fabs(a: E) -> E { let w = width(a); cat(konst(0, 1), extract(a, 0, w - 1)) }

fn minmax(x: &Exec, w: u16, a: &Val, b: &Val, max: bool, num: bool, ieee2019: bool) -> Val {
    if let (Val::C(p), Val::C(q)) = (a, b) {
        let (p, q) = if w == 64 { (f64::from_bits(*p), f64::from_bits(*q)) } else { (f32::from_bits(*p as u32) as f64, f32::from_bits(*q as u32) as f64) };
        let r = if p.is_nan() || q.is_nan() {
            if num { if p.is_nan() { q } else { p } } else { f64::NAN }
        } else if p == q { if (p.is_sign_negative()) ^ max { p } else { q } } else if (p < q) ^ max { p } else { q };
        return Val::C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 });
    }
    let _ = (x, ieee2019);
    let (p, q) = (ex(a, w), ex(b, w));
    let (np, nq) = (is_nan(p), is_nan(q));
    let lt = flt(p, q);
    let e = feq(p, q);
    let sp = eq(extract(p, w - 1, 1), konst(1, 1));
    let tie = if max { ite(sp, q, p) } else { ite(sp, p, q) };
    let ord = if max { ite(lt, q, p) } else { ite(lt, p, q) };
    let both = ite(e, tie, ord);
    let nan = konst(if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 }, w);
    from(if num { ite(np, q, ite(nq, p, both)) } else { ite(or(np, nq), nan, both) })
}
fn cttz(e: E, w: u16) -> E {
    let mut r = konst(w as u128, w);
    for i in (0..w).rev() { r = ite(eq(extract(e, i, 1), konst(1, 1)), konst(i as u128, w), r); }
    r
}
fn ctlz(e: E, w: u16) -> E {
    let mut r = konst(w as u128, w);
    for i in 0..w { r = ite(eq(extract(e, i, 1), konst(1, 1)), konst((w - 1 - i) as u128, w), r); }
    r
}

pub fn overflow(op: B, signed: bool, w: u16, a: E, b: E) -> R<(E, E)> {
    let r = bin(op, a, b);
    let o = match (op, signed) {
        (B::Add, false) => cmp(C::Ult, r, a),
        (B::Sub, false) => cmp(C::Ult, a, b),
        (B::Add, true) => {
            if w + 1 <= 128 { let (x, y) = (sext(a, w + 1), sext(b, w + 1)); let s = bin(B::Add, x, y); ne(s, sext(r, w + 1)) } else { return Err(Exc::Unsup("sadd.with.overflow.i128".into())); }
        }
        (B::Sub, true) => {
            if w + 1 <= 128 { let (x, y) = (sext(a, w + 1), sext(b, w + 1)); let s = bin(B::Sub, x, y); ne(s, sext(r, w + 1)) } else { return Err(Exc::Unsup("ssub.with.overflow.i128".into())); }
        }
        (_, sg) => {
            if w <= 64 {
                let w2 = w * 2;
                if sg { let s = bin(B::Mul, sext(a, w2), sext(b, w2)); ne(s, sext(r, w2)) } else {
                    // by a constant: overflow iff a > max / c
                    if let Some(c) = cval(b) { if c != 0 { cmp(C::Ult, konst(mask(w) / c, w), a) } else { fls() } }
                    else if let Some(c) = cval(a) { if c != 0 { cmp(C::Ult, konst(mask(w) / c, w), b) } else { fls() } }
                    else { let s = bin(B::Mul, zext(a, w2), zext(b, w2)); ne(extract(s, w, w), konst(0, w)) }
                }
            } else { return Err(Exc::Unsup("mul.with.overflow.i128".into())); }
        }
    };
    Ok((r, o))
}
fn overflow_c(op: B, signed: bool, w: u16, a: u128, b: u128) -> (u128, bool) {
    if signed {
        let (x, y) = (sx(a, w), sx(b, w));
        let (r, o) = match op { B::Add => x.overflowing_add(y), B::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
        let t = (r as u128) & mask(w);
        (t, o || sx(t, w) != r)
    } else {
        let (r, o) = match op { B::Add => a.overflowing_add(b), B::Sub => a.overflowing_sub(b), _ => a.overflowing_mul(b) };
        (r & mask(w), o || r & !mask(w) != 0)
    }
}

extern "C" {
    fn pow(a: f64, b: f64) -> f64; fn exp(a: f64) -> f64; fn log(a: f64) -> f64; fn log2(a: f64) -> f64; fn log10(a: f64) -> f64;
    fn sin(a: f64) -> f64; fn cos(a: f64) -> f64; fn exp2(a: f64) -> f64; fn tan(a: f64) -> f64;
}
pub fn libm1(n: &str, x: f64) -> Option<f64> {
    unsafe { Some(match n { "exp" => exp(x), "log" => log(x), "log2" => log2(x), "log10" => log10(x), "sin" => sin(x), "cos" => cos(x), "exp2" => exp2(x), "tan" => tan(x), _ => return None }) }
}
pub fn libm_pow(x: f64, y: f64) -> f64 { unsafe { pow(x, y) } }

pub fn call(x: &mut Exec, st: &mut State, name: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> R<Val> {
    let n = &name[5..];
    let base = n;
    let is = |p: &str| base == p || (base.starts_with(p) && base.as_bytes().get(p.len()) == Some(&b'.'));
    if is("memcpy") || is("memmove") || n.starts_with("memcpy.inline") {
        let k = len(x, st, &a[2])?;
        let (d, s) = (x.conc(st, &a[0])?, x.conc(st, &a[1])?);
        x.copy(st, d, s, k)?;
        return Ok(Val::z());
    }
    if is("memset") || n.starts_with("memset.inline") {
        let k = len(x, st, &a[2])?;
        let d = x.conc(st, &a[0])?;
        x.fill(st, d, &a[1], k)?;
        return Ok(Val::z());
    }
    if is("threadlocal.address") {
        // per (guest) thread copy of the variable
        let g = x.conc(st, &a[0])?;
        let gi = (g >> SHIFT) as u32;
        let cur = st.cur;
        if let Some(t) = st.threads[cur].tls.iter().find(|t| t.0 == gi) { return Ok(Val::C(t.1)); }
        let data = x.p.glob_bytes(gi as usize - 1);
        let p = x.alloc(st, data.len().max(1) as u64);
        x.write_bytes(st, p, &data)?;
        st.threads[cur].tls.push((gi, p));
        return Ok(Val::C(p));
    }
    if is("expect") || is("expect.with.probability") || is("launder.invariant.group") || is("strip.invariant.group") || is("ssa.copy") { return Ok(a[0].clone()); }
    if is("trap") || is("ubsantrap") || is("debugtrap") { return Err(Exc::Viol("abort".into(), "trap instruction (abort)".into())); }
    if n.starts_with("x86.sse2.pause") || n.starts_with("x86.avx.vzeroupper") || is("sideeffect") || is("stackrestore") { return Ok(Val::z()); }
    if is("stacksave") { return Ok(Val::C(0)); }
    if is("is.constant") { return Ok(Val::C(0)); }
    if is("allow.runtime.check") || is("allow.ubsan.check") { return Ok(Val::C(1)); }
    if is("objectsize") { return Ok(Val::C(u64::MAX)); }
    if is("returnaddress") || is("frameaddress") { return Ok(Val::C(0)); }
    if is("ptrmask") { let w = 64; return Ok(x.bin(B::And, w, &a[0], &a[1])); }
    if is("load.relative") {
        let p = x.conc(st, &a[0])?;
        let o = x.conc(st, &a[1])?;
        // The table entry is (target - base): resolved through the global's initializer, which
        // glob_bytes flattens as a 32-bit truncation; recover the target from the constant.
        return x.load_relative(st, p, o);
    }
    if is("vector.reduce.or") || is("vector.reduce.and") || is("vector.reduce.add") || is("vector.reduce.xor") || is("vector.reduce.umax") || is("vector.reduce.umin") || is("vector.reduce.mul") || is("vector.reduce.smax") || is("vector.reduce.smin") {
        let w = ret.bits();
        let op = n.split('.').nth(2).unwrap();
        let v = a[0].agg().clone();
        let mut r = v[0].clone();
        for y in &v[1..] {
            r = match op {
                "or" => x.bin(B::Or, w, &r, y),
                "and" => x.bin(B::And, w, &r, y),
                "add" => x.bin(B::Add, w, &r, y),
                "xor" => x.bin(B::Xor, w, &r, y),
                "mul" => x.bin(B::Mul, w, &r, y),
                o => {
                    let p = match o { "umax" => 34, "umin" => 36, "smax" => 38, _ => 40 };
                    let c = x.icmp(p, w, &r, y);
                    match c { Val::C(1) => r, Val::C(_) => y.clone(), c => from(ite(ex(&c, 1), ex(&r, w), ex(y, w))) }
                }
            };
        }
        return Ok(r);
    }
    // scalar or lane-wise operations
    let lanes = ret.lanes();
    let w = if let Some(t) = tys.first() { match t.scalar() { Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => t.scalar().bits(), _ => 0 } } else { 0 };
    if lanes > 0 {
        let mut out = vec![];
        let st_ty: Vec<Ty> = tys.iter().map(|t| t.scalar().clone()).collect();
        for i in 0..lanes as usize {
            let av: Vec<Val> = a.iter().zip(tys).map(|(v, t)| if t.lanes() > 0 { v.agg()[i].clone() } else { v.clone() }).collect();
            out.push(scalar(x, st, n, &av, &st_ty, ret.scalar(), w)?);
        }
        return Ok(Val::A(Rc::new(out)));
    }
    scalar(x, st, n, a, tys, ret, w)
}

fn scalar(x: &mut Exec, st: &mut State, n: &str, a: &[Val], tys: &[Ty], ret: &Ty, w: u16) -> R<Val> {
    let is = |p: &str| n == p || (n.starts_with(p) && n.as_bytes().get(p.len()) == Some(&b'.'));
    let sel = |x: &mut Exec, p: i32| -> Val {
        let c = x.icmp(p, w, &a[0], &a[1]);
        match c { Val::C(1) => a[0].clone(), Val::C(_) => a[1].clone(), c => from(ite(ex(&c, 1), ex(&a[0], w), ex(&a[1], w))) }
    };
    if is("umax") { return Ok(sel(x, 34)); }
    if is("umin") { return Ok(sel(x, 36)); }
    if is("smax") { return Ok(sel(x, 38)); }
    if is("smin") { return Ok(sel(x, 40)); }
    if is("abs") {
        if let Some(v) = w128(&a[0]) { return Ok(mkc(sx(v, w).unsigned_abs(), w)); }
        let e = ex(&a[0], w);
        return Ok(from(ite(cmp(C::Slt, e, konst(0, w)), bin(B::Sub, konst(0, w), e), e)));
    }
    for (p, op, s) in [("sadd", B::Add, true), ("uadd", B::Add, false), ("ssub", B::Sub, true), ("usub", B::Sub, false), ("smul", B::Mul, true), ("umul", B::Mul, false)] {
        if let Some(r) = n.strip_prefix(p) {
            if r.starts_with(".with.overflow") {
                if let (Some(p), Some(q)) = (w128(&a[0]), w128(&a[1])) {
                    let (r, o) = overflow_c(op, s, w, p, q);
                    return Ok(Val::A(Rc::new(vec![mkc(r, w), Val::C(o as u64)])));
                }
                let (r, o) = overflow(op, s, w, ex(&a[0], w), ex(&a[1], w))?;
                return Ok(Val::A(Rc::new(vec![from(r), from(o)])));
            }
            if r.starts_with(".sat") {
                let (r, o) = overflow(op, s, w, ex(&a[0], w), ex(&a[1], w))?;
                let sat = if s {
                    let neg = cmp(C::Slt, ex(&a[0], w), konst(0, w));
                    ite(neg, konst(1u128 << (w - 1), w), konst(mask(w) >> 1, w))
                } else if op == B::Add { konst(mask(w), w) } else { konst(0, w) };
                return Ok(from(ite(o, sat, r)));
            }
        }
    }
    if is("ucmp") || is("scmp") {
        let u = is("ucmp");
        let aw = tys[0].bits();
        let lt = x.icmp(if u { 36 } else { 40 }, aw, &a[0], &a[1]);
        let gt = x.icmp(if u { 34 } else { 38 }, aw, &a[0], &a[1]);
        let rw = ret.bits();
        return Ok(from(ite(ex(&lt, 1), konst(mask(rw), rw), ite(ex(&gt, 1), konst(1, rw), konst(0, rw)))));
    }
    if is("bswap") {
        let e = ex(&a[0], w);
        let mut r = extract(e, 0, 8);
        for i in 1..w / 8 { r = cat(r, extract(e, i * 8, 8)); }
        return Ok(from(r));
    }
    if is("bitreverse") {
        let e = ex(&a[0], w);
        let mut r = extract(e, 0, 1);
        for i in 1..w { r = cat(r, extract(e, i, 1)); }
        return Ok(from(r));
    }
    if is("ctpop") {
        if let Some(v) = w128(&a[0]) { return Ok(mkc(v.count_ones() as u128, w)); }
        let e = ex(&a[0], w);
        let mut r = konst(0, w);
        for i in 0..w { r = bin(B::Add, r, zext(extract(e, i, 1), w)); }
        return Ok(from(r));
    }
    if is("cttz") {
        if let Some(v) = w128(&a[0]) { return Ok(mkc(if v == 0 { w as u128 } else { v.trailing_zeros() as u128 }, w)); }
        return Ok(from(cttz(ex(&a[0], w), w)));
    }
    if is("ctlz") {
        if let Some(v) = w128(&a[0]) { return Ok(mkc((v.leading_zeros() as u128).wrapping_sub(128 - w as u128), w)); }
        return Ok(from(ctlz(ex(&a[0], w), w)));
    }
    if is("fshl") || is("fshr") {
        let k = x.conc(st, &a[2])? as u16 % w;
        if w > 64 { return Err(Exc::Unsup("wide funnel shift".into())); }
        if let (Val::C(h), Val::C(l)) = (&a[0], &a[1]) {
            let c = ((*h as u128) << w) | *l as u128;
            let r = if is("fshl") { (c << k) >> w } else { c >> k };
            return Ok(mkc(r & mask(w), w));
        }
        let c = cat(ex(&a[0], w), ex(&a[1], w));
        return Ok(from(if is("fshl") { extract(c, w - k, w) } else { extract(c, k, w) }));
    }
    if is("fabs") {
        if let Val::C(c) = &a[0] { return Ok(Val::C(c & (m64(w) >> 1))); }
        return Ok(from(fabs(ex(&a[0], w))));
    }
    if is("copysign") {
        let e = cat(extract(ex(&a[1], w), w - 1, 1), extract(ex(&a[0], w), 0, w - 1));
        return Ok(from(e));
    }
    for (p, u) in [("sqrt", U::Sqrt), ("floor", U::Floor), ("ceil", U::Ceil), ("trunc", U::Trunc), ("round", U::RoundAway), ("roundeven", U::RoundEven), ("rint", U::RoundEven), ("nearbyint", U::RoundEven)] {
        if is(p) { return Ok(x.fun1(u, w, w, &a[0])); }
    }
    if is("fptosi.sat") { return Ok(x.fun1(U::ToSI, tys[0].bits(), ret.bits(), &a[0])); }
    if is("fptoui.sat") { return Ok(x.fun1(U::ToUI, tys[0].bits(), ret.bits(), &a[0])); }
    if is("minnum") || is("minimumnum") { return Ok(minmax(x, w, &a[0], &a[1], false, true, false)); }
    if is("maxnum") || is("maximumnum") { return Ok(minmax(x, w, &a[0], &a[1], true, true, false)); }
    if is("minimum") { return Ok(minmax(x, w, &a[0], &a[1], false, false, true)); }
    if is("maximum") { return Ok(minmax(x, w, &a[0], &a[1], true, false, true)); }
    if is("fma") || is("fmuladd") {
        if let (Val::C(p), Val::C(q), Val::C(r)) = (&a[0], &a[1], &a[2]) {
            if w == 64 {
                let (p, q, r) = (f64::from_bits(*p), f64::from_bits(*q), f64::from_bits(*r));
                return Ok(Val::C(if is("fma") { p.mul_add(q, r) } else { p * q + r }.to_bits()));
            }
        }
        if is("fmuladd") { let m = x.fbin(FOp::Mul, w, &a[0], &a[1]); return Ok(x.fbin(FOp::Add, w, &m, &a[2])); }
    }
    if is("pow") && w == 64 { return crate::host::pow(x, st, a); }
    if is("powi") && w == 64 {
        if let (Val::C(p), Val::C(q)) = (&a[0], &a[1]) { return Ok(Val::C(f64::from_bits(*p).powi(*q as i32).to_bits())); }
    }
    for f in ["exp", "log", "log2", "log10", "sin", "cos", "exp2", "tan"] {
        if is(f) && w == 64 {
            if let Val::C(p) = &a[0] { return Ok(Val::C(libm1(f, f64::from_bits(*p)).unwrap().to_bits())); }
            return Err(Exc::Unsup(format!("{} of a symbolic value", f)));
        }
    }
    if is("is.fpclass") {
        let mk = x.conc(st, &a[1])? as u32;
        let e = ex(&a[0], w);
        let mag = extract(e, 0, w - 1);
        let neg = eq(extract(e, w - 1, 1), konst(1, 1));
        let inf = konst(if w == 64 { 0x7ff0000000000000 } else { 0x7f800000 }, w - 1);
        let minn = konst(if w == 64 { 0x0010000000000000 } else { 0x00800000 }, w - 1);
        let q = konst(if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 }, w - 1);
        let z = eq(mag, konst(0, w - 1));
        let isinf = eq(mag, inf);
        let nan = cmp(C::Ult, inf, mag);
        let qn = cmp(C::Ule, q, mag);
        let norm = and(cmp(C::Ule, minn, mag), cmp(C::Ult, mag, inf));
        let sub = and(not(z), cmp(C::Ult, mag, minn));
        let bits = [and(nan, not(qn)), qn, and(neg, isinf), and(neg, norm), and(neg, sub), and(neg, z), and(not(neg), z), and(not(neg), sub), and(not(neg), norm), and(not(neg), isinf)];
        let mut r = fls();
        for (i, b) in bits.iter().enumerate() { if mk >> i & 1 == 1 { r = or(r, *b); } }
        return Ok(from(r));
    }
    Err(Exc::Unsup(format!("intrinsic llvm.{}", n)))
}

pub fn asm(_x: &mut Exec, _st: &mut State, s: &str, _a: &[Val], ret: &Ty) -> R<Val> {
    if s.contains("cpuid") { return Ok(ret.zero()); }
    let t = s.trim();
    if (t.starts_with("/*") && t.ends_with("*/")) || t.is_empty() { if let (Some(v), true) = (_a.first(), *ret != Ty::Void) { return Ok(v.clone()); } }
    if s.trim().is_empty() { return Ok(if *ret == Ty::Void { Val::z() } else { ret.zero() }); }
    Err(Exc::Unsup(format!("inline assembly {:?}", s)))
}
