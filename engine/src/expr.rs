//! Hash-consed bit-vector / floating-point expressions with a simplifier and an evaluator.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F { Add, Sub, Mul, Div, Rem }
/// Unary FP ops. `w` of the node is the result width; the operand width selects the source type.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum U { Sqrt, Floor, Ceil, Trunc, RoundAway, RoundEven, ToSI, ToUI, FromSI, FromUI, Ext, Trn }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(C, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Ext(E, u16), // bits [lo, lo+w)
    Cat(E, E),   // hi, lo
    FBin(F, E, E),
    FUn(U, E),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub k: K, pub w: u16 }

pub struct VarInfo { pub name: String, pub w: u16, pub nonnan: bool }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub vars: Vec<VarInfo>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
    has_fp: Vec<u8>,
    empty: Rc<Vec<u32>>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
pub fn init() {
    let a = Box::new(Arena {
        nodes: vec![], map: FxMap::default(), vars: vec![], varsets: vec![], has_fp: vec![],
        empty: Rc::new(vec![]),
    });
    unsafe { ARENA = Box::into_raw(a) }
}
#[inline(always)]
pub fn ar() -> &'static mut Arena { unsafe { &mut *ARENA } }

#[inline(always)]
pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn m64(w: u16) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl Arena {
    fn put(&mut self, k: K, w: u16) -> E {
        let n = Node { k, w };
        if let Some(e) = self.map.get(&n) { return *e; }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.varsets.push(None);
        self.has_fp.push(2);
        self.map.insert(n, id);
        id
    }
}
#[inline] pub fn kind(e: E) -> K { ar().nodes[e as usize].k }
#[inline] pub fn width(e: E) -> u16 { ar().nodes[e as usize].w }
#[inline] pub fn cval(e: E) -> Option<u128> { if let K::Const(c) = kind(e) { Some(c) } else { None } }

pub fn konst(v: u128, w: u16) -> E { ar().put(K::Const(v & mask(w)), w) }
pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(0, 1) }
pub fn var(name: &str, w: u16) -> (u32, E) {
    let a = ar();
    let id = a.vars.len() as u32;
    a.vars.push(VarInfo { name: name.to_string(), w, nonnan: false });
    (id, a.put(K::Var(id), w))
}

pub fn varexpr(id: u32) -> E { let w = ar().vars[id as usize].w; ar().put(K::Var(id), w) }

pub fn varset(e: E) -> Rc<Vec<u32>> {
    if let Some(s) = &ar().varsets[e as usize] { return s.clone(); }
    let r: Rc<Vec<u32>> = match kind(e) {
        K::Const(_) => ar().empty.clone(),
        K::Var(v) => Rc::new(vec![v]),
        K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) | K::FBin(_, a, b) => merge(varset(a), varset(b)),
        K::Ite(c, a, b) => merge(merge(varset(c), varset(a)), varset(b)),
        K::Zext(a) | K::Sext(a) | K::Ext(a, _) | K::FUn(_, a) => varset(a),
    };
    ar().varsets[e as usize] = Some(r.clone());
    r
}
fn merge(a: Rc<Vec<u32>>, b: Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() { return b; }
    if b.is_empty() || Rc::ptr_eq(&a, &b) || *a == *b { return a; }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] { r.push(a[i]); i += 1 } else if a[i] > b[j] { r.push(b[j]); j += 1 } else { r.push(a[i]); i += 1; j += 1 }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    Rc::new(r)
}
pub fn has_fp(e: E) -> bool {
    let h = ar().has_fp[e as usize];
    if h != 2 { return h == 1; }
    let r = match kind(e) {
        K::Const(_) | K::Var(_) => false,
        K::FBin(..) | K::FUn(..) => true,
        K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) => has_fp(a) || has_fp(b),
        K::Ite(c, a, b) => has_fp(c) || has_fp(a) || has_fp(b),
        K::Zext(a) | K::Sext(a) | K::Ext(a, _) => has_fp(a),
    };
    ar().has_fp[e as usize] = r as u8;
    r
}

pub fn eval_bin(op: B, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 } }
        B::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => { let s = sx(a, w); (if b >= w as u128 { s >> 127 } else { s >> b }) as u128 }
    };
    r & m
}
pub fn eval_cmp(op: C, w: u16, a: u128, b: u128) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sx(a, w) < sx(b, w),
        C::Sle => sx(a, w) <= sx(b, w),
    }
}
fn canon64(x: f64) -> u64 { if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() } }
fn canon32(x: f32) -> u32 { if x.is_nan() { 0x7fc00000 } else { x.to_bits() } }
pub fn eval_fbin(op: F, w: u16, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        canon64(match op { F::Add => x + y, F::Sub => x - y, F::Mul => x * y, F::Div => x / y, F::Rem => x % y }) as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        canon32(match op { F::Add => x + y, F::Sub => x - y, F::Mul => x * y, F::Div => x / y, F::Rem => x % y }) as u128
    }
}
pub fn eval_fun(op: U, w: u16, aw: u16, a: u128) -> u128 {
    let f = || -> f64 { if aw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 } };
    let pack = |x: f64| -> u128 { if w == 64 { canon64(x) as u128 } else { canon32(x as f32) as u128 } };
    match op {
        U::Sqrt => if aw == 64 { pack(f().sqrt()) } else { canon32(f32::from_bits(a as u32).sqrt()) as u128 },
        U::Floor => pack(f().floor()),
        U::Ceil => pack(f().ceil()),
        U::Trunc => pack(f().trunc()),
        U::RoundAway => pack(f().round()),
        U::RoundEven => pack(f().round_ties_even()),
        U::ToSI => {
            let x = f();
            if x.is_nan() { return 0; }
            let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1));
            if x < lo { (1u128 << (w - 1)) & mask(w) } else if x >= hi { mask(w) >> 1 } else { (x as i128) as u128 & mask(w) }
        }
        U::ToUI => {
            let x = f();
            if x.is_nan() || x <= 0.0 { return 0; }
            if x >= 2f64.powi(w as i32) { mask(w) } else { (x as u128) & mask(w) }
        }
        U::FromSI => { let s = sx(a, aw); if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
        U::FromUI => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        U::Ext => canon64(f32::from_bits(a as u32) as f64) as u128,
        U::Trn => canon32(f64::from_bits(a as u64) as f32) as u128,
    }
}

fn ite_consts(e: E) -> Option<(E, u128, u128)> {
    if let K::Ite(c, a, b) = kind(e) {
        if let (Some(x), Some(y)) = (cval(a), cval(b)) { return Some((c, x, y)); }
    }
    None
}
/// Ite tree (bounded) all of whose leaves are constants.
fn ite_leaves_const(e: E, d: u32) -> bool {
    match kind(e) {
        K::Const(_) => true,
        K::Ite(_, a, b) if d > 0 => ite_leaves_const(a, d - 1) && ite_leaves_const(b, d - 1),
        _ => false,
    }
}
fn map_ite(e: E, f: &dyn Fn(u128) -> E) -> E {
    match kind(e) {
        K::Const(c) => f(c),
        K::Ite(c, a, b) => { let (x, y) = (map_ite(a, f), map_ite(b, f)); ite(c, x, y) }
        _ => unreachable!(),
    }
}

pub fn bin(op: B, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) { return konst(eval_bin(op, w, x, y), w); }
    let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
    if comm && (ca.is_some() || (cb.is_none() && a > b)) { return bin_n(op, b, a, w); }
    bin_n(op, a, b, w)
}
fn bin_n(op: B, a: E, b: E, w: u16) -> E {
    let cb = cval(b);
    let m = mask(w);
    if let Some(y) = cb {
        match (op, y) {
            (B::Add, 0) | (B::Sub, 0) | (B::Or, 0) | (B::Xor, 0) | (B::Shl, 0) | (B::LShr, 0) | (B::AShr, 0) => return a,
            (B::Mul, 0) | (B::And, 0) => return b,
            (B::Mul, 1) | (B::UDiv, 1) => return a,
            (B::SDiv, 1) if w > 1 => return a,
            (B::URem, 1) => return konst(0, w),
            _ => {}
        }
        if y == m { match op { B::And => return a, B::Or => return b, _ => {} } }
        match op {
            B::Sub => return bin(B::Add, a, konst(y.wrapping_neg(), w)),
            B::Mul if y.is_power_of_two() => return bin(B::Shl, a, konst(y.trailing_zeros() as u128, w)),
            B::UDiv if y.is_power_of_two() => return bin(B::LShr, a, konst(y.trailing_zeros() as u128, w)),
            B::URem if y.is_power_of_two() => return bin(B::And, a, konst(y - 1, w)),
            B::Shl if y >= w as u128 => return konst(0, w),
            B::LShr if y >= w as u128 => return konst(0, w),
            B::LShr => return zext(extract(a, y as u16, w - y as u16), w),
            B::Shl => return cat(extract(a, 0, w - y as u16), konst(0, y as u16)),
            B::And => {
                // low mask / shifted contiguous mask -> zext(extract)
                let lo = y.trailing_zeros() as u16;
                let t = y >> lo;
                if (t & (t + 1)) == 0 && w > 1 {
                    let n = (128 - t.leading_zeros()) as u16;
                    let x = extract(a, lo, n);
                    let x = if lo > 0 { cat(x, konst(0, lo)) } else { x };
                    return zext(x, w);
                }
            }
            B::AShr if y >= w as u128 => return bin(B::AShr, a, konst(w as u128 - 1, w)),
            _ => {}
        }
        if let K::Bin(op2, x, c2) = kind(a) {
            if op2 == op {
                if let Some(c2) = cval(c2) {
                    match op {
                        B::Add => return bin(B::Add, x, konst(c2.wrapping_add(y), w)),
                        B::And => return bin(B::And, x, konst(c2 & y, w)),
                        B::Or => return bin(B::Or, x, konst(c2 | y, w)),
                        B::Xor => return bin(B::Xor, x, konst(c2 ^ y, w)),
                        _ => {}
                    }
                }
            }
        }
        if w == 1 && op == B::Xor {
            // not
            match kind(a) {
                K::Cmp(C::Ult, x, z) => return cmp(C::Ule, z, x),
                K::Cmp(C::Ule, x, z) => return cmp(C::Ult, z, x),
                K::Cmp(C::Slt, x, z) => return cmp(C::Sle, z, x),
                K::Cmp(C::Sle, x, z) => return cmp(C::Slt, z, x),
                _ => {}
            }
        }
        if ite_leaves_const(a, 6) && matches!(kind(a), K::Ite(..)) {
            return map_ite(a, &|x| konst(eval_bin(op, w, x, y), w));
        }
        // bitwise with a constant over zext: narrow
        if let K::Zext(x) = kind(a) {
            let xw = width(x);
            match op {
                B::And => return zext(bin(B::And, x, konst(y, xw)), w),
                B::Or | B::Xor if y >> xw == 0 => return zext(bin(op, x, konst(y, xw)), w),
                _ => {}
            }
        }
    } else if let Some(x) = cval(a) {
        match (op, x) {
            (B::Shl, 0) | (B::LShr, 0) | (B::AShr, 0) | (B::UDiv, 0) | (B::URem, 0) => {
                if !matches!(op, B::UDiv | B::URem) { return a; }
            }
            _ => {}
        }
        if matches!(kind(b), K::Ite(..)) && ite_leaves_const(b, 6) {
            return map_ite(b, &|y| konst(eval_bin(op, w, x, y), w));
        }
    }
    if a == b {
        match op {
            B::Sub | B::Xor => return konst(0, w),
            B::And | B::Or => return a,
            _ => {}
        }
    }
    if w == 1 {
        match op {
            B::And => {
                if is_not(a, b) { return fls(); }
                // a <= b and b <= a
                if let (K::Cmp(C::Sle, p, q), K::Cmp(C::Sle, r, t)) = (kind(a), kind(b)) { if p == t && q == r { return eq(p, q); } }
                if let (K::Cmp(C::Ule, p, q), K::Cmp(C::Ule, r, t)) = (kind(a), kind(b)) { if p == t && q == r { return eq(p, q); } }
                // a < b and a <= b
                for (x, y) in [(a, b), (b, a)] {
                    match (kind(x), kind(y)) {
                        (K::Cmp(C::Slt, p, q), K::Cmp(C::Sle, r, t)) | (K::Cmp(C::Ult, p, q), K::Cmp(C::Ule, r, t)) if p == r && q == t => return x,
                        (K::Cmp(C::Slt, p, q), K::Cmp(C::Sle, r, t)) | (K::Cmp(C::Ult, p, q), K::Cmp(C::Ule, r, t)) if p == t && q == r => return fls(),
                        _ => {}
                    }
                }
            }
            B::Or => { if is_not(a, b) { return tru(); } }
            B::Add | B::Sub => return bin(B::Xor, a, b),
            B::Mul => return bin(B::And, a, b),
            _ => {}
        }
    }
    if op == B::Or || op == B::Add || op == B::Xor {
        // disjoint zext / shifted parts -> concat
        if let Some(r) = join_disjoint(a, b, w) { return r; }
    }
    if op == B::Sub {
        if let K::Bin(B::Add, x, y) = kind(a) {
            if x == b { return y; }
            if y == b { return x; }
        }
    }
    // bitwise ops on two zexts of the same width
    if matches!(op, B::And | B::Or | B::Xor) {
        if let (K::Zext(x), K::Zext(y)) = (kind(a), kind(b)) {
            if width(x) == width(y) { return zext(bin(op, x, y), w); }
        }
    }
    ar().put(K::Bin(op, a, b), w)
}
/// a = zext(x) with x narrower than the zero tail of b = zext?(cat(y, 0^n)).
fn join_disjoint(a: E, b: E, w: u16) -> Option<E> {
    fn tail0(e: E) -> u16 {
        match kind(e) {
            K::Cat(_, l) => if cval(l) == Some(0) { width(l) } else { 0 },
            K::Zext(x) => tail0(x),
            K::Const(c) => if c == 0 { 0 } else { c.trailing_zeros() as u16 },
            _ => 0,
        }
    }
    fn low(e: E) -> u16 {
        match kind(e) {
            K::Zext(x) => width(x),
            K::Const(c) => (128 - c.leading_zeros()) as u16,
            _ => width(e),
        }
    }
    for (x, y) in [(a, b), (b, a)] {
        let lw = low(x);
        if lw > 0 && lw < w && tail0(y) >= lw {
            return Some(cat(extract(y, lw, w - lw), extract(x, 0, lw)));
        }
    }
    None
}
fn is_not(a: E, b: E) -> bool { not(a) == b }
pub fn not(a: E) -> E { bin(B::Xor, a, konst(mask(width(a)), width(a))) }
pub fn and(a: E, b: E) -> E { bin(B::And, a, b) }
pub fn or(a: E, b: E) -> E { bin(B::Or, a, b) }
pub fn eq(a: E, b: E) -> E { cmp(C::Eq, a, b) }
pub fn ne(a: E, b: E) -> E { not(cmp(C::Eq, a, b)) }

pub fn cmp(op: C, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) { return konst(eval_cmp(op, w, x, y) as u128, 1); }
    if a == b { return konst(matches!(op, C::Eq | C::Ule | C::Sle) as u128, 1); }
    let m = mask(w);
    if w == 63 && (ca.is_some() || cb.is_some()) {
        // the magnitude bits of a float of known range against a constant beyond it
        let (c, x) = match (ca, cb) { (Some(c), _) => (c, b), (_, Some(c)) => (c, a), _ => unreachable!() };
        if let K::Ext(f, 0) = kind(x) {
            if width(f) == 64 && c > 1u128 << 52 {
                if let Some(d) = dyadic(f) {
                    if c > (d.bound as f64).to_bits() as u128 {
                        return if op == C::Eq { fls() } else if matches!(op, C::Ult | C::Ule | C::Slt | C::Sle) && c < 1 << 62 { konst((cb.is_some()) as u128, 1) } else if matches!(op, C::Ult | C::Ule) { konst(cb.is_some() as u128, 1) } else { ar().put(K::Cmp(op, a, b), 1) };
                    }
                }
            }
        }
    }
    if op == C::Eq {
        if ca.is_some() || (cb.is_none() && a > b) { return cmp(C::Eq, b, a); }
        if w == 1 {
            if let Some(y) = cb { return if y == 1 { a } else { not(a) }; }
        }
        if w == 64 && matches!(kind(a), K::FBin(..) | K::FUn(U::FromSI, _)) {
            if cb == Some(1 << 63) && dyadic(a).is_some() { return fls(); }
            // neither can be a negative zero
            if cb.is_some() || matches!(kind(b), K::FBin(..) | K::FUn(U::FromSI, _)) { if let Some(r) = dy_cmp(C::Eq, a, b) { return r; } }
        }
        if let Some(y) = cb {
            match kind(a) {
                K::Bin(B::Add, x, c) => if let Some(c) = cval(c) { return cmp(C::Eq, x, konst(y.wrapping_sub(c), w)); },
                K::Bin(B::Xor, x, c) => if let Some(c) = cval(c) { return cmp(C::Eq, x, konst(y ^ c, w)); },
                K::Zext(x) => { let xw = width(x); return if y >> xw != 0 { fls() } else { cmp(C::Eq, x, konst(y, xw)) }; }
                K::Sext(x) => { let xw = width(x); let yy = y & mask(xw); return if (sx(yy, xw) as u128) & m != y { fls() } else { cmp(C::Eq, x, konst(yy, xw)) }; }
                K::Ite(c, p, q) => {
                    if ite_leaves_const(a, 8) { return map_ite(a, &|x| konst((x == y) as u128, 1)); }
                    if let Some(pc) = cval(p) { if pc != y { return and(not(c), cmp(C::Eq, q, b)); } else { return or(c, cmp(C::Eq, q, b)); } }
                    if let Some(qc) = cval(q) { if qc != y { return and(c, cmp(C::Eq, p, b)); } else { return or(not(c), cmp(C::Eq, p, b)); } }
                }
                K::Cat(h, l) => {
                    let lw = width(l);
                    if cval(h).is_some() || cval(l).is_some() {
                        return and(cmp(C::Eq, h, konst(y >> lw, width(h))), cmp(C::Eq, l, konst(y & mask(lw), lw)));
                    }
                }
                _ => {}
            }
        } else if let (K::Zext(x), K::Zext(y)) = (kind(a), kind(b)) {
            if width(x) == width(y) { return cmp(C::Eq, x, y); }
        }
        return ar().put(K::Cmp(op, a, b), 1);
    }
    match op {
        C::Ult => {
            if cb == Some(0) || ca == Some(m) { return fls(); }
            if cb == Some(1) { return eq(a, konst(0, w)); }
            if ca == Some(0) { return ne(b, a); }
            if cb == Some(m) { return ne(a, b); }
        }
        C::Ule => {
            if ca == Some(0) || cb == Some(m) { return tru(); }
            if cb == Some(0) { return eq(a, b); }
            if ca == Some(m) { return eq(a, b); }
            if let Some(y) = cb { return cmp(C::Ult, a, konst(y + 1, w)); }
            if let Some(x) = ca { return cmp(C::Ult, konst(x - 1, w), b); }
        }
        C::Slt => {
            let (mn, mx) = (1u128 << (w - 1), m >> 1);
            if cb == Some(mn) || ca == Some(mx) { return fls(); }
        }
        C::Sle => {
            let (mn, mx) = (1u128 << (w - 1), m >> 1);
            if ca == Some(mn) || cb == Some(mx) { return tru(); }
            if let Some(y) = cb { return cmp(C::Slt, a, konst(y.wrapping_add(1), w)); }
            if let Some(x) = ca { return cmp(C::Slt, konst(x.wrapping_sub(1), w), b); }
        }
        C::Eq => {}
    }
    if w == 1 {
        return match op {
            C::Ult => and(not(a), b),
            C::Ule => or(not(a), b),
            C::Slt => and(a, not(b)),
            _ => or(a, not(b)),
        };
    }
    // narrowing
    match (kind(a), cb) {
        (K::Zext(x), Some(y)) => {
            let xw = width(x);
            match op {
                C::Ult => return if y >> xw != 0 { tru() } else { cmp(C::Ult, x, konst(y, xw)) },
                C::Slt => {
                    if sx(y, w) <= 0 { return fls(); }
                    return if y >> xw != 0 { tru() } else { cmp(C::Ult, x, konst(y, xw)) };
                }
                _ => {}
            }
        }
        (K::Ite(..), Some(y)) if ite_leaves_const(a, 8) => return map_ite(a, &|x| konst(eval_cmp(op, w, x, y) as u128, 1)),
        (K::Sext(x), Some(y)) if op == C::Slt => {
            let xw = width(x);
            let s = sx(y, w);
            if s > sx(mask(xw) >> 1, xw) { return tru(); }
            if s <= -(1i128 << (xw - 1)) { return fls(); }
            return cmp(C::Slt, x, konst(y, xw));
        }
        _ => {}
    }
    match (ca, kind(b)) {
        (Some(x), K::Zext(y)) => {
            let yw = width(y);
            match op {
                C::Ult => return if x >> yw != 0 { fls() } else { cmp(C::Ult, konst(x, yw), y) },
                C::Slt => {
                    if sx(x, w) < 0 { return tru(); }
                    return if x >> yw != 0 { fls() } else { cmp(C::Ult, konst(x, yw), y) };
                }
                _ => {}
            }
        }
        (Some(x), K::Ite(..)) if ite_leaves_const(b, 8) => return map_ite(b, &|y| konst(eval_cmp(op, w, x, y) as u128, 1)),
        _ => {}
    }
    if let (K::Zext(x), K::Zext(y)) = (kind(a), kind(b)) {
        if width(x) == width(y) {
            return cmp(match op { C::Slt => C::Ult, C::Sle => C::Ule, o => o }, x, y);
        }
    }
    ar().put(K::Cmp(op, a, b), 1)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = cval(c) { return if v == 1 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
        if a == c { return or(c, b); }
        if b == c { return and(c, a); }
    }
    if let K::Bin(B::Xor, x, o) = kind(c) {
        if cval(o) == Some(1) { return ite(x, b, a); }
    }
    let a = if let K::Ite(c2, p, _) = kind(a) { if c2 == c { p } else { a } } else { a };
    let b = if let K::Ite(c2, _, q) = kind(b) { if c2 == c { q } else { b } } else { b };
    if a == b { return a; }
    if let K::Ite(c2, p, q) = kind(b) {
        if p == a { return ite(or(c, c2), a, q); }
    }
    ar().put(K::Ite(c, a, b), w)
}
pub fn zext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w { return a; }
    debug_assert!(w > aw);
    match kind(a) {
        K::Const(c) => konst(c, w),
        K::Zext(x) => zext(x, w),
        K::Ite(c, x, y) if aw > 1 && ite_consts(a).is_some() => ite(c, zext(x, w), zext(y, w)),
        _ => ar().put(K::Zext(a), w),
    }
}
pub fn sext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w { return a; }
    match kind(a) {
        K::Const(c) => konst(sx(c, aw) as u128, w),
        K::Sext(x) => sext(x, w),
        K::Zext(x) => zext(x, w),
        K::Ite(c, x, y) if aw > 1 && ite_consts(a).is_some() => ite(c, sext(x, w), sext(y, w)),
        _ if aw == 1 => ite(a, konst(!0, w), konst(0, w)),
        _ => ar().put(K::Sext(a), w),
    }
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    let aw = width(a);
    if lo == 0 && w == aw { return a; }
    debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
    match kind(a) {
        K::Const(c) => return konst(c >> lo, w),
        K::Ext(x, l2) => return extract(x, lo + l2, w),
        K::Zext(x) => {
            let xw = width(x);
            if lo >= xw { return konst(0, w); }
            if lo + w <= xw { return extract(x, lo, w); }
            return zext(extract(x, lo, xw - lo), w);
        }
        K::Sext(x) => {
            let xw = width(x);
            if lo + w <= xw { return extract(x, lo, w); }
            if lo == 0 { return sext(x, w); }
        }
        K::Cat(h, l) => {
            let lw = width(l);
            if lo + w <= lw { return extract(l, lo, w); }
            if lo >= lw { return extract(h, lo - lw, w); }
            return cat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        K::Bin(op @ (B::And | B::Or | B::Xor), x, y) => return bin(op, extract(x, lo, w), extract(y, lo, w)),
        K::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => return bin(op, extract(x, 0, w), extract(y, 0, w)),
        K::Ite(c, x, y) => {
            if cval(x).is_some() || cval(y).is_some() { return ite(c, extract(x, lo, w), extract(y, lo, w)); }
        }
        _ => {}
    }
    ar().put(K::Ext(a, lo), w)
}
pub fn cat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let (Some(x), Some(y)) = (cval(h), cval(l)) { return konst((x << lw) | y, w); }
    if cval(h) == Some(0) { return zext(l, w); }
    if let (K::Ext(x, lh), K::Ext(y, ll)) = (kind(h), kind(l)) {
        if x == y && ll + lw == lh { return extract(x, ll, w); }
    }
    if let (K::Ext(x, lh), K::Cat(h2, l2)) = (kind(h), kind(l)) {
        if let K::Ext(y, ll) = kind(h2) {
            if x == y && ll + width(h2) == lh { return cat(extract(x, ll, hw + width(h2)), l2); }
        }
    }
    // ext(x, lh) ++ x where l is the full low part handled as Ext; l may be an un-extracted narrower var
    if let K::Zext(x) = kind(h) {
        // cat(zext(x), l) = zext(cat(x,l))
        return zext(cat(x, l), w);
    }
    if let (K::Cat(h1, l1), Some(_)) = (kind(h), cval(l)) {
        if cval(l1).is_some() { return cat(h1, cat(l1, l)); }
    }
    // bytewise reassembly of a selection between doubles
    if let (K::Ite(c, x1, y1), K::Ite(c2, x2, y2)) = (kind(h), kind(l)) {
        if c == c2 { return ite(c, cat(x1, x2), cat(y1, y2)); }
    }
    if let (K::Ite(c, x1, y1), Some(_)) = (kind(h), cval(l)) { if cval(x1).is_some() || cval(y1).is_some() { return ite(c, cat(x1, l), cat(y1, l)); } }
    // 128-bit ite distribution for bytewise reassembly of ite(c, const, const)
    if let (Some((c, x1, y1)), Some((c2, x2, y2))) = (ite_consts(h), ite_consts(l)) {
        if c == c2 { return ite(c, konst((x1 << lw) | x2, w), konst((y1 << lw) | y2, w)); }
    }
    if let (Some((c, x1, y1)), Some(y)) = (ite_consts(h), cval(l)) {
        return ite(c, konst((x1 << lw) | y, w), konst((y1 << lw) | y, w));
    }
    if let (Some(x), Some((c, x2, y2))) = (cval(h), ite_consts(l)) {
        return ite(c, konst((x << lw) | x2, w), konst((x << lw) | y2, w));
    }
    ar().put(K::Cat(h, l), w)
}
pub fn fbin(op: F, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return konst(eval_fbin(op, w, x, y), w); }
    let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
    match op {
        F::Mul => { if cval(b) == Some(one) { return a; } if cval(a) == Some(one) { return b; } }
        F::Div => if cval(b) == Some(one) { return a; },
        F::Sub => if cval(b) == Some(0) { return a; },
        F::Add if cval(a) == Some(0) && matches!(kind(b), K::FUn(U::FromSI | U::FromUI, _)) => return b,
        F::Add if cval(b) == Some(0) && matches!(kind(a), K::FUn(U::FromSI | U::FromUI, _)) => return a,
        F::Add => { let nz = 1u128 << (w - 1); if cval(b) == Some(nz) { return a; } if cval(a) == Some(nz) { return b; } }
        _ => {}
    }
    let (a, b) = if matches!(op, F::Add | F::Mul) && a > b { (b, a) } else { (a, b) };
    // push into an ite of constants
    if let (K::Ite(c, x, y), Some(_)) = (kind(a), cval(b)) {
        if cval(x).is_some() || cval(y).is_some() { return ite(c, fbin(op, x, b), fbin(op, y, b)); }
    }
    if let (Some(_), K::Ite(c, x, y)) = (cval(a), kind(b)) {
        if cval(x).is_some() || cval(y).is_some() { return ite(c, fbin(op, a, x), fbin(op, a, y)); }
    }
    ar().put(K::FBin(op, a, b), w)
}
pub fn fun(op: U, a: E, w: u16) -> E {
    let aw = width(a);
    // an integer is its own rounding
    if matches!(op, U::Floor | U::Ceil | U::Trunc | U::RoundAway | U::RoundEven) {
        if let K::FUn(U::FromSI | U::FromUI | U::Floor | U::Ceil | U::Trunc | U::RoundAway | U::RoundEven, _) = kind(a) { return a; }
    }
    if let Some(x) = cval(a) { return konst(eval_fun(op, w, aw, x), w); }
    if let K::Ite(c, x, y) = kind(a) {
        if cval(x).is_some() || cval(y).is_some() { return ite(c, fun(op, x, w), fun(op, y, w)); }
    }
    ar().put(K::FUn(op, a), w)
}
// ---- floating point predicates as bit-vector formulas
fn inf_bits(w: u16) -> u128 { if w == 64 { 0x7ff0000000000000 } else { 0x7f800000 } }
pub fn is_nan(a: E) -> E {
    let w = width(a);
    if let K::Var(v) = kind(a) { if ar().vars[v as usize].nonnan { return fls(); } }
    if let K::Ite(c, x, y) = kind(a) { return ite(c, is_nan(x), is_nan(y)); }
    if dyadic(a).is_some() { return fls(); }
    let mag = extract(a, 0, w - 1);
    cmp(C::Ult, konst(inf_bits(w), w - 1), mag)
}
/// Order key: monotone signed-integer image of a non-NaN float, with -0 == +0.
fn key(a: E) -> E {
    let w = width(a);
    if let Some(c) = cval(a) {
        let c = if c == 1u128 << (w - 1) { 0 } else { c };
        let k = if (c >> (w - 1)) & 1 == 1 { c ^ (mask(w) >> 1) } else { c };
        // negative: magnitude inverted; +1 so that -0 and +0 coincide is handled above
        return konst(k, w);
    }
    let sign = extract(a, w - 1, 1);
    let z = eq(a, konst(1u128 << (w - 1), w));
    let neg = bin(B::Xor, a, konst(mask(w) >> 1, w));
    ite(z, konst(0, w), ite(sign, neg, a))
}
pub fn fkey(a: E) -> E { key(a) }
/// A double that is `n / den` (correctly rounded if `rounded`, otherwise exactly) with
/// `|n| <= bound < 2^53`, by its construction; never a negative zero unless it is a constant.
#[derive(Clone, Copy)]
pub struct Dy { n: E, den: u64, bound: u64, rounded: bool }
const DY_LIM: u64 = 1 << 50;
pub fn dyadic(a: E) -> Option<Dy> {
    if width(a) != 64 { return None; }
    let exact = |n, bound| Some(Dy { n, den: 1, bound, rounded: false });
    match kind(a) {
        K::Const(c) => {
            let x = f64::from_bits(c as u64);
            let (mut den, mut y) = (1, x);
            while den < 1 << 20 && y.fract() != 0.0 { y *= 2.0; den *= 2; }
            if !(y.abs() < (1u64 << 40) as f64) || y.fract() != 0.0 { return None; }
            Some(Dy { n: konst(y as i64 as u64 as u128, 64), den, bound: y.abs() as u64, rounded: false })
        }
        K::Bin(B::And, x, m) if cval(m) == Some(mask(64) >> 1) => { let d = dyadic(x)?; Some(Dy { n: ite(cmp(C::Slt, d.n, konst(0, 64)), bin(B::Sub, konst(0, 64), d.n), d.n), ..d }) }
        K::FUn(U::FromSI, x) if width(x) <= 32 => exact(sext(x, 64), 1 << (width(x) - 1)),
        K::FUn(U::FromSI, x) => match kind(x) { K::Sext(y) if width(y) <= 32 => exact(x, 1 << (width(y) - 1)), _ => None },
        K::FBin(op @ (F::Add | F::Sub), x, y) => {
            let (p, q) = (dyadic(x)?, dyadic(y)?);
            let den = p.den.max(q.den);
            if p.rounded | q.rounded { return None; }
            let (pn, pb) = dy_up(p, den / p.den)?;
            let (qn, qb) = dy_up(q, den / q.den)?;
            if pb + qb >= DY_LIM { return None; }
            Some(Dy { n: bin(if op == F::Add { B::Add } else { B::Sub }, pn, qn), den, bound: pb + qb, rounded: false })
        }
        K::FBin(op @ (F::Mul | F::Div), x, y) => {
            let (x, c) = match (op, cval(x), cval(y)) { (_, _, Some(c)) => (x, c), (F::Mul, Some(c), _) => (y, c), _ => return None };
            let c = f64::from_bits(c as u64);
            let d = dyadic(x)?;
            let h = if op == F::Mul { 1.0 / c } else { c };
            if d.rounded || d.den > 1 << 20 || !(h >= 2.0 && h <= 256.0 && h.fract() == 0.0) { return None; }
            let pow2 = (h as u64).is_power_of_two();
            if op == F::Mul && !pow2 { return None; }
            Some(Dy { den: d.den * h as u64, rounded: !pow2, ..d })
        }
        _ => None,
    }
}
fn dy_up(d: Dy, f: u64) -> Option<(E, u64)> {
    let b = d.bound.checked_mul(f)?;
    if b >= DY_LIM { return None; }
    Some((if f.is_power_of_two() { bin(B::Shl, d.n, konst(f.trailing_zeros() as u128, 64)) } else { bin(B::Mul, d.n, konst(f as u128, 64)) }, b))
}
/// Comparison of two such doubles as integers: unequal fractions are further apart than rounding.
fn dy_cmp(op: C, a: E, b: E) -> Option<E> {
    if cval(a).is_some() && cval(b).is_some() { return None; }
    // against a constant out of reach
    for (x, y, left) in [(a, b, true), (b, a, false)] {
        if let (Some(c), 64) = (cval(y), width(y)) {
            let c = f64::from_bits(c as u64);
            if !c.is_nan() { if let Some(d) = dyadic(x) { if c.abs() > d.bound as f64 { return Some(if op != C::Eq && (c > 0.0) == left { tru() } else { fls() }); } } }
        }
    }
    let (p, q) = (dyadic(a)?, dyadic(b)?);
    let g = if p.den % q.den == 0 { q.den } else if q.den % p.den == 0 { p.den } else { 1 };
    let (x, xb) = dy_up(p, q.den / g)?;
    let (y, yb) = dy_up(q, p.den / g)?;
    if (p.rounded || q.rounded) && (xb.max(yb) as u128) * (p.den as u128) * (q.den as u128) >= DY_LIM as u128 { return None; }
    Some(if op == C::Eq { eq(x, y) } else { cmp(op, x, y) })
}
pub fn flt(a: E, b: E) -> E { dy_cmp(C::Slt, a, b).unwrap_or_else(|| cmp(C::Slt, key(a), key(b))) }
pub fn fle(a: E, b: E) -> E { dy_cmp(C::Sle, a, b).unwrap_or_else(|| cmp(C::Sle, key(a), key(b))) }
pub fn feq(a: E, b: E) -> E { dy_cmp(C::Eq, a, b).unwrap_or_else(|| eq(key(a), key(b))) }
/// LLVM fcmp predicate (0..15)
pub fn fcmp(p: i32, a: E, b: E) -> E {
    let un = or(is_nan(a), is_nan(b));
    let rel = |p: i32| match p & 7 {
        0 => fls(),
        1 => feq(a, b),
        2 => flt(b, a),
        3 => fle(b, a),
        4 => flt(a, b),
        5 => fle(a, b),
        6 => not(feq(a, b)),
        _ => tru(),
    };
    if p >= 8 { or(un, rel(p)) } else { and(not(un), rel(p)) }
}
pub fn fcmp_c(p: i32, w: u16, a: u64, b: u64) -> bool {
    let (x, y) = if w == 64 { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
    let un = x.is_nan() || y.is_nan();
    let rel = match p & 7 { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => x != y, _ => true };
    if p >= 8 { un || rel } else { !un && rel }
}

// ---- models
pub struct Model { pub vals: FxMap<u32, u128>, pub cache: std::cell::RefCell<FxMap<E, u128>> }
impl Model {
    pub fn new(vals: FxMap<u32, u128>) -> Rc<Model> { Rc::new(Model { vals, cache: Default::default() }) }
    pub fn eval(&self, e: E) -> u128 {
        match kind(e) {
            K::Const(c) => return c,
            K::Var(v) => return self.vals.get(&v).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = self.cache.borrow().get(&e) { return *v; }
        let w = width(e);
        let r = match kind(e) {
            K::Const(c) => c,
            K::Var(_) => unreachable!(),
            K::Bin(op, a, b) => eval_bin(op, w, self.eval(a), self.eval(b)),
            K::Cmp(op, a, b) => eval_cmp(op, width(a), self.eval(a), self.eval(b)) as u128,
            K::Ite(c, a, b) => if self.eval(c) == 1 { self.eval(a) } else { self.eval(b) },
            K::Zext(a) => self.eval(a),
            K::Sext(a) => sx(self.eval(a), width(a)) as u128 & mask(w),
            K::Ext(a, lo) => (self.eval(a) >> lo) & mask(w),
            K::Cat(h, l) => (self.eval(h) << width(l)) | self.eval(l),
            K::FBin(op, a, b) => eval_fbin(op, w, self.eval(a), self.eval(b)),
            K::FUn(op, a) => eval_fun(op, w, width(a), self.eval(a)),
        };
        self.cache.borrow_mut().insert(e, r);
        r
    }
}
pub fn show(e: E, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match kind(e) {
        K::Const(c) => format!("{:#x}:{}", c, width(e)),
        K::Var(v) => ar().vars[v as usize].name.clone() + &format!("#{}", v),
        K::Bin(o, a, b) => format!("({:?} {} {})", o, show(a, d - 1), show(b, d - 1)),
        K::Cmp(o, a, b) => format!("({:?} {} {})", o, show(a, d - 1), show(b, d - 1)),
        K::Ite(c, a, b) => format!("(ite {} {} {})", show(c, d - 1), show(a, d - 1), show(b, d - 1)),
        K::Zext(a) => format!("(zx{} {})", width(e), show(a, d - 1)),
        K::Sext(a) => format!("(sx{} {})", width(e), show(a, d - 1)),
        K::Ext(a, lo) => format!("{}[{}+:{}]", show(a, d - 1), lo, width(e)),
        K::Cat(a, b) => format!("(cat {} {})", show(a, d - 1), show(b, d - 1)),
        K::FBin(o, a, b) => format!("(f{:?} {} {})", o, show(a, d - 1), show(b, d - 1)),
        K::FUn(o, a) => format!("(f{:?} {})", o, show(a, d - 1)),
    }
}
