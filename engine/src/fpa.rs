//! Help for queries with floating-point operations: interval facts for the abstraction in which
//! an operation's result is unconstrained, and a guided search for models (every model found is
//! checked by evaluating the original constraints).
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv { pub lo: f64, pub hi: f64, pub nan: bool }
const TOP: Iv = Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };
impl Iv {
    fn join(self, o: Iv) -> Iv { Iv { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi), nan: self.nan | o.nan } }
    fn meet(self, o: Iv) -> Iv { Iv { lo: self.lo.max(o.lo), hi: self.hi.min(o.hi), nan: self.nan & o.nan } }
    fn has(self, x: f64) -> bool { self.lo <= x && x <= self.hi }
    fn inf(self) -> bool { self.lo == f64::NEG_INFINITY || self.hi == f64::INFINITY }
}
fn from_key(k: i128) -> f64 { let i = k as i64; f64::from_bits(if i < 0 { (i as u64) ^ (u64::MAX >> 1) } else { i as u64 }) }
/// The double whose order key the term is.
pub fn key_of(e: E) -> Option<E> {
    if width(e) != 64 { return None; }
    if let K::Ite(_, z, i) = kind(e) {
        if cval(z) == Some(0) { if let K::Ite(_, _, x) = kind(i) { if fkey(x) == e { return Some(x); } } }
    }
    None
}
/// Interval facts implied by `c` being true, as (term, interval).
fn facts(c: E, pos: bool, out: &mut Vec<(E, Iv)>) {
    match kind(c) {
        K::Bin(B::Xor, x, o) if cval(o) == Some(1) => facts(x, !pos, out),
        K::Bin(B::And, a, b) if pos => { facts(a, pos, out); facts(b, pos, out) }
        K::Bin(B::Or, a, b) if !pos => { facts(a, pos, out); facts(b, pos, out) }
        K::Bin(B::Or, a, b) => {
            let (mut p, mut q) = (vec![], vec![]);
            facts(a, pos, &mut p);
            facts(b, pos, &mut q);
            for (t, i) in &p { for (u, j) in &q { if t == u { out.push((*t, i.join(*j))); } } }
        }
        K::Cmp(op, a, b) => {
            let (op, a, b) = match (op, pos) {
                (o, true) => (o, a, b),
                (C::Slt, false) => (C::Sle, b, a),
                (C::Sle, false) => (C::Slt, b, a),
                (C::Ult, false) => (C::Ule, b, a),
                (C::Ule, false) => (C::Ult, b, a),
                (C::Eq, false) => return,
            };
            match op {
                C::Slt | C::Sle => {
                    let d = (op == C::Slt) as i128;
                    // keys beyond infinity belong to NaNs
                    let (pinf, ninf) = (0x7ff0000000000000i128, sx(0xffff_ffff_ffff_ffff ^ 0x7ff0000000000000u128, 64));
                    if let (Some(k), Some(x)) = (cval(a), key_of(b)) {
                        let k = sx(k, 64) + d;
                        if k <= pinf { out.push((x, Iv { lo: if k <= ninf { f64::NEG_INFINITY } else { from_key(k) }, hi: f64::INFINITY, nan: true })); }
                    }
                    if let (Some(x), Some(k)) = (key_of(a), cval(b)) {
                        let k = sx(k, 64) - d;
                        if k >= ninf { out.push((x, Iv { lo: f64::NEG_INFINITY, hi: if k >= pinf { f64::INFINITY } else { from_key(k) }, nan: true })); }
                    }
                }
                C::Ult | C::Ule => {
                    if width(a) == 63 {
                        if let (K::Ext(x, 0), Some(k)) = (kind(a), cval(b)) {
                            if width(x) == 64 {
                                let k = k as u64 - (op == C::Ult) as u64;
                                let h = if k > 0x7ff0000000000000 { f64::INFINITY } else { f64::from_bits(k) };
                                out.push((x, Iv { lo: -h, hi: h, nan: k > 0x7ff0000000000000 }));
                            }
                        }
                    }
                    // positive doubles compared as unsigned integers
                    if width(a) == 64 {
                        if let Some(k) = cval(b) {
                            let k = k as u64;
                            if k != 0 || op == C::Ule {
                                let k = k - (op == C::Ult) as u64;
                                if k <= 0x7ff0000000000000 { out.push((a, Iv { lo: 0.0, hi: f64::from_bits(k), nan: false })); }
                            }
                        }
                    }
                }
                C::Eq => {
                    if width(a) == 64 {
                        for (p, q) in [(a, b), (b, a)] {
                            if let (Some(x), Some(k)) = (key_of(p), cval(q)) { let k = sx(k, 64); if k.unsigned_abs() <= 0x7ff0000000000000 { let v = from_key(k); if !v.is_nan() { out.push((x, Iv { lo: v, hi: v, nan: true })) } } }
                            if let Some(k) = cval(q) { let v = f64::from_bits(k as u64); if !v.is_nan() { out.push((p, Iv { lo: v, hi: v, nan: false })) } }
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
pub struct Facts { pub m: FxMap<E, Iv>, memo: FxMap<E, Iv> }
impl Facts {
    pub fn new(cs: &[E]) -> Facts {
        let mut m: FxMap<E, Iv> = Default::default();
        for c in cs {
            let mut v = vec![];
            facts(*c, true, &mut v);
            for (t, i) in v { let o = m.get(&t).copied().unwrap_or(TOP); m.insert(t, o.meet(i)); }
        }
        Facts { m, memo: Default::default() }
    }
    pub fn iv(&mut self, e: E) -> Iv {
        if let Some(i) = self.memo.get(&e) { return *i; }
        let mut r = self.raw(e);
        if let Some(f) = self.m.get(&e) { r = r.meet(*f); }
        self.memo.insert(e, r);
        r
    }
    fn refined(&mut self, e: E, c: E, pos: bool) -> Iv {
        let mut i = self.iv(e);
        let mut v = vec![];
        facts(c, pos, &mut v);
        for (t, f) in v { if t == e { i = i.meet(f) } }
        i
    }
    fn raw(&mut self, e: E) -> Iv {
        if width(e) != 64 { return TOP; }
        match kind(e) {
            K::Const(c) => { let v = f64::from_bits(c as u64); if v.is_nan() { TOP } else { Iv { lo: v, hi: v, nan: false } } }
            K::Var(v) => Iv { nan: !ar().vars[v as usize].nonnan, ..TOP },
            K::Ite(c, a, b) => { let (x, y) = (self.refined(a, c, true), self.refined(b, c, false)); if cval(c).is_some() { TOP } else { x.join(y) } }
            K::FBin(op, a, b) if width(a) == 64 => {
                let (x, y) = (self.iv(a), self.iv(b));
                if x.lo > x.hi || y.lo > y.hi { return TOP; }
                let mut nan = x.nan | y.nan;
                let corners = |f: &dyn Fn(f64, f64) -> f64| -> (f64, f64, bool) {
                    let v = [f(x.lo, y.lo), f(x.lo, y.hi), f(x.hi, y.lo), f(x.hi, y.hi)];
                    let (mut lo, mut hi, mut bad) = (f64::INFINITY, f64::NEG_INFINITY, false);
                    for k in v { if k.is_nan() { bad = true } else { lo = lo.min(k); hi = hi.max(k) } }
                    (lo, hi, bad)
                };
                match op {
                    F::Add | F::Sub => {
                        let (lo, hi, bad) = corners(&|p, q| if op == F::Add { p + q } else { p - q });
                        if bad { return TOP; }
                        nan |= x.inf() && y.inf() && if op == F::Add { (x.lo == f64::NEG_INFINITY && y.hi == f64::INFINITY) || (x.hi == f64::INFINITY && y.lo == f64::NEG_INFINITY) } else { (x.hi == f64::INFINITY && y.hi == f64::INFINITY) || (x.lo == f64::NEG_INFINITY && y.lo == f64::NEG_INFINITY) };
                        Iv { lo, hi, nan }
                    }
                    F::Mul => {
                        let (lo, hi, bad) = corners(&|p, q| p * q);
                        let zi = (x.has(0.0) && y.inf()) || (y.has(0.0) && x.inf());
                        if bad || zi { let z = x.lo >= 0.0 && y.lo >= 0.0; return Iv { lo: if z { 0.0 } else { f64::NEG_INFINITY }, hi: f64::INFINITY, nan: true }; }
                        Iv { lo, hi, nan }
                    }
                    F::Div => {
                        if y.has(0.0) || (x.inf() && y.inf()) { return TOP; }
                        let (lo, hi, bad) = corners(&|p, q| p / q);
                        if bad { return TOP; }
                        Iv { lo, hi, nan }
                    }
                    F::Rem => TOP,
                }
            }
            K::FUn(op, a) => match op {
                U::Sqrt | U::Floor | U::Ceil | U::Trunc | U::RoundAway | U::RoundEven if width(a) == 64 => {
                    let x = self.iv(a);
                    if x.lo > x.hi || (op == U::Sqrt && x.lo < 0.0) { return TOP; }
                    let f = |v: f64| f64::from_bits(eval_fun(op, 64, 64, v.to_bits() as u128) as u64);
                    Iv { lo: f(x.lo), hi: f(x.hi), nan: x.nan }
                }
                U::FromSI => { let b = 2f64.powi(width(a) as i32 - 1); Iv { lo: -b, hi: b, nan: false } }
                U::FromUI => { let b = 2f64.powi(width(a) as i32); Iv { lo: 0.0, hi: b, nan: false } }
                _ => TOP,
            },
            _ => TOP,
        }
    }
}
/// All floating-point operations below the terms.
pub fn fp_terms(cs: &[E]) -> Vec<E> {
    let mut seen: FxSet<E> = Default::default();
    let mut out = vec![];
    let mut st: Vec<E> = cs.to_vec();
    while let Some(e) = st.pop() {
        if !has_fp(e) || !seen.insert(e) { continue; }
        match kind(e) {
            K::Const(_) | K::Var(_) => {}
            K::FBin(_, a, b) => { out.push(e); st.push(a); st.push(b) }
            K::FUn(_, a) => { out.push(e); st.push(a) }
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) => { st.push(a); st.push(b) }
            K::Ite(c, a, b) => { st.push(c); st.push(a); st.push(b) }
            K::Zext(a) | K::Sext(a) | K::Ext(a, _) => st.push(a),
        }
    }
    out
}
/// Facts about the results of the floating-point operations in `cs`, implied by `cs`.
pub fn lemmas(cs: &[E]) -> Vec<E> {
    let mut f = Facts::new(cs);
    let mut out = vec![];
    for e in fp_terms(cs) {
        match kind(e) {
            K::FUn(op @ (U::ToSI | U::ToUI), a) if width(a) == 64 => {
                let (i, w) = (f.iv(a), width(e));
                if i.nan || i.lo > i.hi || w > 64 { continue; }
                let (lo, hi) = (eval_fun(op, w, 64, i.lo.to_bits() as u128), eval_fun(op, w, 64, i.hi.to_bits() as u128));
                let k = if op == U::ToSI { C::Sle } else { C::Ule };
                if let K::FUn(U::FromSI, x) = kind(a) {
                    if op == U::ToSI && width(x) == w && w == 64 {
                        // exact up to 2^53
                        let b = 1i64 << 53;
                        out.push(or(not(and(cmp(C::Sle, konst(-b as u64 as u128, 64), x), cmp(C::Sle, x, konst(b as u128, 64)))), eq(e, x)));
                    }
                }
                out.push(cmp(k, konst(lo, w), e));
                out.push(cmp(k, e, konst(hi, w)));
            }
            _ if width(e) == 64 => {
                let i = f.iv(e);
                if i.lo > i.hi { continue; }
                // a result is either a canonical NaN or not a NaN
                let nan = eq(e, konst(0x7ff8000000000000, 64));
                let num = cmp(C::Ule, extract(e, 0, 63), konst(0x7ff0000000000000, 63));
                let mut ok = num;
                let lo = konst(i.lo.to_bits() as u128, 64);
                let hi = konst(i.hi.to_bits() as u128, 64);
                if i.lo > f64::NEG_INFINITY { ok = and(ok, fle(lo, e)); }
                if i.hi < f64::INFINITY { ok = and(ok, fle(e, hi)); }
                out.push(if i.nan { or(nan, ok) } else { ok });
                // relations with the operands
                if let K::FBin(op, a, b) = kind(e) {
                    let (x, y) = (f.iv(a), f.iv(b));
                    let z = konst(0, 64);
                    match op {
                        F::Add if !x.nan && !y.nan && !i.nan => {
                            for (p, q) in [(a, b), (b, a)] {
                                out.push(or(not(fle(z, q)), fle(p, e)));
                                out.push(or(not(fle(q, z)), fle(e, p)));
                            }
                        }
                        F::Sub if !x.nan && !y.nan && !i.nan => {
                            out.push(or(not(fle(z, b)), fle(e, a)));
                            out.push(or(not(fle(b, z)), fle(a, e)));
                            out.push(or(not(fle(b, a)), fle(z, e)));
                            out.push(or(not(fle(a, b)), fle(e, z)));
                        }
                        F::Mul if !x.nan && !y.nan && !i.nan => {
                            out.push(or(not(feq(a, z)), feq(e, z)));
                            out.push(or(not(feq(b, z)), feq(e, z)));
                            let one = konst(1f64.to_bits() as u128, 64);
                            for (p, q) in [(a, b), (b, a)] {
                                // p >= 0: q >= 1 gives e >= p; 0 <= q <= 1 gives 0 <= e <= p
                                let pp = fle(z, p);
                                out.push(or(not(and(pp, fle(one, q))), fle(p, e)));
                                out.push(or(not(and(pp, and(fle(z, q), fle(q, one)))), and(fle(z, e), fle(e, p))));
                            }
                        }
                        F::Div if !x.nan && !y.nan && !i.nan => {
                            let one = konst(1f64.to_bits() as u128, 64);
                            let pp = fle(z, a);
                            out.push(or(not(and(pp, fle(one, b))), and(fle(z, e), fle(e, a))));
                        }
                        _ => {}
                    }
                }
                if let K::FUn(U::FromSI, a) = kind(e) {
                    // monotone around zero and exact for small values
                    let zi = konst(0, width(a));
                    out.push(or(not(cmp(C::Sle, zi, a)), fle(konst(0, 64), e)));
                    out.push(or(not(cmp(C::Sle, a, zi)), fle(e, konst(0, 64))));
                    out.push(or(not(eq(a, zi)), eq(e, konst(0, 64))));
                    if width(a) == 64 {
                        let b = 1i64 << 53;
                        let (fb, nb) = (konst((b as f64).to_bits() as u128, 64), konst((-(b as f64)).to_bits() as u128, 64));
                        let (bb, mb) = (konst(b as u128, 64), konst(-b as u64 as u128, 64));
                        out.push(or(not(cmp(C::Sle, a, bb)), fle(e, fb)));
                        out.push(or(not(cmp(C::Sle, mb, a)), fle(nb, e)));
                        out.push(or(not(cmp(C::Sle, bb, a)), fle(fb, e)));
                        out.push(or(not(cmp(C::Sle, a, mb)), fle(e, nb)));
                    }
                }
            }
            _ => {}
        }
    }
    out.retain(|e| cval(*e) != Some(1));
    out
}

// ---- guided search
fn gap(a: i128, b: i128) -> f64 { let d = a.wrapping_sub(b).unsigned_abs(); ((d as f64) + 1.0).log2() / 130.0 + 0.01 }
/// How far the constraint is from being true (0: true).
fn dist(m: &Model, e: E, pos: bool, d: u32) -> f64 {
    if (m.eval(e) == 1) == pos { return 0.0; }
    if d == 0 { return 1.0; }
    match kind(e) {
        K::Bin(B::Xor, x, o) if cval(o) == Some(1) => dist(m, x, !pos, d),
        K::Bin(B::And, a, b) => if pos { dist(m, a, true, d - 1) + dist(m, b, true, d - 1) } else { dist(m, a, false, d - 1).min(dist(m, b, false, d - 1)) },
        K::Bin(B::Or, a, b) => if pos { dist(m, a, true, d - 1).min(dist(m, b, true, d - 1)) } else { dist(m, a, false, d - 1) + dist(m, b, false, d - 1) },
        K::Ite(c, a, b) => (dist(m, c, true, d - 1) + dist(m, a, pos, d - 1)).min(dist(m, c, false, d - 1) + dist(m, b, pos, d - 1)),
        K::Cmp(op, a, b) => {
            let w = width(a);
            let (x, y) = (m.eval(a), m.eval(b));
            match op {
                C::Slt | C::Sle => gap(sx(x, w), sx(y, w)),
                C::Eq if w > 1 && pos => gap(sx(x, w), sx(y, w)),
                C::Ult | C::Ule if w < 128 => gap(x as i128, y as i128),
                _ => 0.5,
            }
        }
        _ => 1.0,
    }
}
fn consts(cs: &[E], out: &mut Vec<u64>) {
    let mut seen: FxSet<E> = Default::default();
    let mut st: Vec<E> = cs.to_vec();
    while let Some(e) = st.pop() {
        if !seen.insert(e) { continue; }
        match kind(e) {
            K::Const(c) => if width(e) == 64 && c > 4 { let c = c as u64; out.push(c); if c >> 63 == 1 { out.push(c ^ (u64::MAX >> 1)); } },
            K::Var(_) => {}
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) | K::FBin(_, a, b) => { st.push(a); st.push(b) }
            K::Ite(c, a, b) => { st.push(c); st.push(a); st.push(b) }
            K::Zext(a) | K::Sext(a) | K::Ext(a, _) | K::FUn(_, a) => st.push(a),
        }
        if seen.len() > 600 { break; }
    }
    out.sort_unstable();
    out.dedup();
    out.truncate(40);
}
/// A model of all of `cs` near one of the starting points, or nothing.
pub fn search(cs: &[E], starts: &[&FxMap<u32, u128>], budget: usize) -> Option<Rc<Vec<(u32, u128)>>> {
    let mut vars: Vec<u32> = vec![];
    for c in cs { vars.extend(varset(*c).iter()); }
    vars.sort_unstable();
    vars.dedup();
    if vars.len() > 60 { return None; }
    let mut ks = vec![];
    consts(cs, &mut ks);
    const POOL: &[f64] = &[0.0, 1.0, -1.0, 0.5, 2.0, 1e-10, 1e10, -1e10, 1e100, -1e100, 1e300, -1e300, 1e-300, 5e-324, 9007199254740992.0, -9007199254740992.0, 1e18, -1e18, 3.5, 18014398509481984.0, -18014398509481984.0, 1e-5, 1e5, -1e5, -1e-5, f64::MAX, f64::MIN];
    // constraints on one variable only are never broken
    let unary: Vec<Vec<E>> = vars.iter().map(|v| cs.iter().copied().filter(|c| { let s = varset(*c); s.len() == 1 && s[0] == *v }).collect()).collect();
    let rest: Vec<E> = cs.iter().copied().filter(|c| varset(*c).len() != 1).collect();
    let mut f = Facts::new(cs);
    let okv = |i: usize, x: u128| -> bool {
        let mut m: FxMap<u32, u128> = Default::default();
        m.insert(vars[i], x);
        let m = Model::new(m);
        unary[i].iter().all(|c| m.eval(*c) == 1)
    };
    // fixed candidates per variable
    let mut pool: Vec<Vec<u128>> = vec![];
    for (i, v) in vars.iter().enumerate() {
        let w = ar().vars[*v as usize].w;
        let mut p: Vec<u128> = vec![];
        if w == 64 {
            for x in POOL { p.push(x.to_bits() as u128); }
            for k in &ks { for d in [0u64, 1, u64::MAX] { p.push(k.wrapping_add(d) as u128); } }
            if let Some(e) = cs.iter().find_map(|c| var_term(*c, *v)) { let iv = f.iv(e); for x in [iv.lo, iv.hi] { if x.is_finite() { for d in [0u64, 1, u64::MAX] { p.push(x.to_bits().wrapping_add(d) as u128); } } } }
            for k in [1u64, 2, 3, u64::MAX, 100] { p.push(k as u128); }
        } else if w <= 8 { for k in 0..(1u128 << w).min(16) { p.push(k); } } else { p.push(0); p.push(mask(w)); p.push(1); }
        for st in starts { if let Some(x) = st.get(v) { p.push(*x); } }
        p.retain(|x| okv(i, *x));
        if p.is_empty() { return None; }
        pool.push(p);
    }
    let score = |m: &FxMap<u32, u128>| -> (f64, Vec<E>) {
        let m = Model::new(m.clone());
        let (mut s, mut bad) = (0.0, vec![]);
        for c in &rest { let d = dist(&m, *c, true, 6); if d > 0.0 { s += d; bad.push(*c); } }
        (s, bad)
    };
    let mut left = budget;
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = |n: usize| -> usize { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed >> 11) as usize % n };
    let mut attempt = 0;
    while left > 0 {
        let mut cur: FxMap<u32, u128> = Default::default();
        for (i, v) in vars.iter().enumerate() {
            let d = starts.get(attempt).and_then(|s| s.get(v).copied()).filter(|x| okv(i, *x));
            let near = if attempt >= starts.len() && rnd(3) == 0 { starts.last().and_then(|s| s.get(v).copied()).filter(|x| okv(i, *x)) } else { None };
            let x = d.or(near).unwrap_or_else(|| pool[i][rnd(pool[i].len())]);
            cur.insert(*v, x);
        }
        attempt += 1;
        left -= 1;
        let (mut best, mut bad) = score(&cur);
        let mut rounds = 0;
        while best > 0.0 && left > 0 && rounds < 10 {
            rounds += 1;
            let mut bv: Vec<u32> = vec![];
            for c in &bad { bv.extend(varset(*c).iter()); }
            bv.sort_unstable();
            bv.dedup();
            let mut mv: Option<(f64, u32, u128)> = None;
            'o: for v in &bv {
                let i = vars.binary_search(v).unwrap();
                let w = ar().vars[*v as usize].w;
                let base = cur[v];
                let mut cand: Vec<u128> = vec![];
                if w == 64 {
                    for u in &vars { if u != v && ar().vars[*u as usize].w == 64 { for d in [0u64, 1, u64::MAX] { cand.push((cur[u] as u64).wrapping_add(d) as u128); } } }
                    for k in [0, 1, 8, 24, 40, 48, 51, 52, 53, 54, 56, 58, 60, 61] { let s = 1u64 << k; cand.push((base as u64).wrapping_add(s) as u128); cand.push((base as u64).wrapping_sub(s) as u128); }
                    cand.push(base ^ (1 << 63));
                } else if w > 8 { for k in 0..w { cand.push(base ^ (1 << k)); } }
                cand.retain(|x| okv(i, *x));
                for c in pool[i].iter().copied().chain(cand) {
                    if c == base { continue; }
                    if left == 0 { break 'o; }
                    left -= 1;
                    cur.insert(*v, c);
                    let (s, _) = score(&cur);
                    if mv.map_or(s < best, |(t, _, _)| s < t) { mv = Some((s, *v, c)); }
                    if s == 0.0 { break; }
                }
                cur.insert(*v, base);
                if mv.map_or(false, |(s, _, _)| s == 0.0) { break; }
            }
            match mv {
                Some((s, v, c)) => { cur.insert(v, c); best = s; bad = score(&cur).1; }
                None => break,
            }
        }
        if best == 0.0 {
            let m = Model::new(cur);
            if cs.iter().all(|c| m.eval(*c) == 1) { return Some(Rc::new(m.vals.iter().map(|(k, x)| (*k, *x)).collect())); }
        }
    }
    if std::env::var("SYMX_SEARCH").is_ok() { eprintln!("search fails after {} attempts", attempt); for b in cs { eprintln!("    {}", show(*b, 14)); } }
    None
}
fn var_term(c: E, v: u32) -> Option<E> {
    match kind(c) {
        K::Const(_) => None,
        K::Var(x) => if x == v { Some(c) } else { None },
        K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) | K::FBin(_, a, b) => var_term(a, v).or_else(|| var_term(b, v)),
        K::Ite(i, a, b) => var_term(i, v).or_else(|| var_term(a, v)).or_else(|| var_term(b, v)),
        K::Zext(a) | K::Sext(a) | K::Ext(a, _) | K::FUn(_, a) => var_term(a, v),
    }
}
