//! Generators of specs and conforming values, and the reference predicates over them.
//! Shapes (kinds, key sets, options) are symbolic choices that become concrete per path; leaf
//! values stay symbolic.  Predicates combine conditions with `&`/`|` so that they do not fork.
use cambrian::spec::Node as S;
use cambrian::value::Node as V;
use std::ops::Deref;

pub const REAL: usize = 0;
pub const INT: usize = 1;
pub const BOOL: usize = 2;
pub const ENUM: usize = 3;
pub const CONST: usize = 4;
pub const SUB: usize = 5;
pub const ARRAY: usize = 6;
pub const MAP: usize = 7;
pub const VARIANT: usize = 8;
pub const OPTIONAL: usize = 9;
pub const LEAVES: &[usize] = &[REAL, INT, BOOL, ENUM, CONST];
pub const ALL: &[usize] = &[REAL, INT, BOOL, ENUM, CONST, SUB, ARRAY, MAP, VARIANT, OPTIONAL];

pub fn b<T>(x: T) -> Box<T> { Box::new(x) }
pub fn pick(kinds: &[usize]) -> usize { kinds[symx::choose(kinds.len(), "kind")] }

/// How leaves and maps of a generated spec look.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// numeric attributes symbolic (otherwise fixed)
    pub sym_num: bool,
    /// bounds of numeric leaves present
    pub bounds: bool,
    /// map bounds (min, max) and initial size
    pub map: (Option<usize>, Option<usize>, usize),
    /// largest number of elements of a generated map value, lowest key choices
    pub map_cap: usize,
    pub key_bases: usize,
}
pub const CFG: Cfg = Cfg { sym_num: false, bounds: false, map: (None, None, 1), map_cap: 2, key_bases: 2 };

pub fn sub(kids: Vec<(&str, S)>) -> S { S::Sub { map: kids.into_iter().map(|(k, v)| (k.to_string(), b(v))).collect() } }
pub fn variant(kids: Vec<(&str, S)>, init: &str) -> S { S::Variant { map: kids.into_iter().map(|(k, v)| (k.to_string(), b(v))).collect(), init: init.into() } }
pub fn enumeration() -> S { S::Enum { values: vec!["r".into(), "g".into(), "b".into()], init: "g".into() } }
pub fn real() -> S { S::Real { init: 1.5, scale: 1.0, min: None, max: None } }
pub fn int() -> S { S::Int { init: 7, scale: 1.0, min: None, max: None } }

/// A numeric leaf with symbolic attributes satisfying the spec rules, magnitudes up to 1e100.
pub fn sym_real(bounded: bool) -> S {
    let scale = symx::f64_mag("scale", 1e100);
    symx::assume(scale > 0.0);
    let init = symx::f64_mag("init", 1e100);
    if bounded {
        let (lo, hi) = (symx::f64_mag("min", 1e100), symx::f64_mag("max", 1e100));
        symx::assume((lo < hi) & (lo <= init) & (init <= hi));
        S::Real { init, scale, min: Some(lo), max: Some(hi) }
    } else { S::Real { init, scale, min: None, max: None } }
}
pub fn sym_int(bounded: bool) -> S {
    let scale = symx::f64_mag("scale", 1e100);
    symx::assume(scale > 0.0);
    let init = symx::i64("init");
    if bounded {
        let (lo, hi) = (symx::i64("min"), symx::i64("max"));
        symx::assume((lo < hi) & (lo <= init) & (init <= hi));
        S::Int { init, scale, min: Some(lo), max: Some(hi) }
    } else { S::Int { init, scale, min: None, max: None } }
}

/// A spec node of the given kind whose children come from `kid`.
pub fn node(kind: usize, c: &Cfg, mut kid: impl FnMut(usize) -> S) -> S {
    match kind {
        REAL => if c.sym_num { sym_real(c.bounds) } else { real() },
        INT => if c.sym_num { sym_int(c.bounds) } else { int() },
        BOOL => S::Bool { init: false },
        ENUM => enumeration(),
        CONST => S::Const,
        SUB => sub(vec![("p", kid(0)), ("q", kid(1))]),
        ARRAY => S::Array { value_type: b(kid(0)), size: 2 },
        MAP => S::AnonMap { value_type: b(kid(0)), init_size: c.map.2, min_size: c.map.0, max_size: c.map.1 },
        VARIANT => variant(vec![("u", kid(0)), ("w", kid(1))], "u"),
        _ => S::Optional { value_type: b(kid(0)), init_present: false },
    }
}

/// An arbitrary value conforming to `s`.
pub fn any_value(s: &S, c: &Cfg) -> V {
    match s {
        S::Real { min, max, .. } => {
            let x = symx::f64_fin("real");
            if let Some(m) = min { symx::assume(x >= *m) }
            if let Some(m) = max { symx::assume(x <= *m) }
            V::Real(x)
        }
        S::Int { min, max, .. } => {
            let x = symx::i64("int");
            if let Some(m) = min { symx::assume(x >= *m) }
            if let Some(m) = max { symx::assume(x <= *m) }
            V::Int(x)
        }
        S::Bool { .. } => V::Bool(symx::bool("bool")),
        S::Sub { map } => V::Sub(map.iter().map(|(k, v)| (k.clone(), b(any_value(v, c)))).collect()),
        S::Array { value_type, size } => V::Array((0..*size).map(|_| b(any_value(value_type, c))).collect()),
        S::AnonMap { value_type, min_size, max_size, .. } => {
            let lo = min_size.unwrap_or(0);
            let cap = c.map_cap.max(lo);
            let hi = max_size.unwrap_or(cap).min(cap);
            let n = lo + symx::choose(hi - lo + 1, "size");
            let base = if n > 0 { symx::choose(c.key_bases, "keybase") } else { 0 };
            V::AnonMap((0..n).map(|i| (base + i, b(any_value(value_type, c)))).collect())
        }
        S::Variant { map, .. } => {
            let mut ks: Vec<&String> = map.keys().collect();
            ks.sort();
            let k = ks[symx::choose(ks.len(), "option")];
            V::Variant(k.clone(), b(any_value(&map[k], c)))
        }
        S::Enum { values, .. } => V::Enum(values[symx::choose(values.len(), "enum")].clone()),
        S::Optional { value_type, .. } => V::Optional(if symx::flip("present") { Some(b(any_value(value_type, c))) } else { None }),
        S::Const => V::Const,
    }
}

/// Does `v` conform to `s`?  (structure concrete, numbers symbolic)
pub fn conforms(s: &S, v: &V) -> bool {
    match (s, v) {
        (S::Real { min, max, .. }, V::Real(x)) => symx::finite(*x) & min.map_or(true, |m| *x >= m) & max.map_or(true, |m| *x <= m),
        (S::Int { min, max, .. }, V::Int(x)) => min.map_or(true, |m| *x >= m) & max.map_or(true, |m| *x <= m),
        (S::Bool { .. }, V::Bool(_)) => true,
        (S::Const, V::Const) => true,
        (S::Enum { values, .. }, V::Enum(n)) => values.contains(n),
        (S::Sub { map }, V::Sub(vm)) => {
            let mut ok = map.len() == vm.len();
            for (k, sn) in map { ok &= match vm.get(k) { Some(x) => conforms(sn, x), None => false }; }
            ok
        }
        (S::Array { value_type, size }, V::Array(es)) => {
            let mut ok = es.len() == *size;
            for e in es { ok &= conforms(value_type, e); }
            ok
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(m)) => {
            let mut ok = min_size.map_or(true, |k| m.len() >= k) & max_size.map_or(true, |k| m.len() <= k);
            for e in m.values() { ok &= conforms(value_type, e); }
            ok
        }
        (S::Variant { map, .. }, V::Variant(n, x)) => match map.get(n) { Some(sn) => conforms(sn, x), None => false },
        (S::Optional { value_type, .. }, V::Optional(o)) => match o { Some(x) => conforms(value_type, x), None => true },
        _ => false,
    }
}
/// The same over the JSON form handed to the objective function.
pub fn json_conforms(s: &S, j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (s, j) {
        (S::Real { min, max, .. }, J::Number(n)) => match n.as_f64() {
            Some(x) => n.is_f64() & symx::finite(x) & min.map_or(true, |m| x >= m) & max.map_or(true, |m| x <= m),
            None => false,
        },
        (S::Int { min, max, .. }, J::Number(n)) => match n.as_i64() {
            Some(x) => min.map_or(true, |m| x >= m) & max.map_or(true, |m| x <= m),
            None => false,
        },
        (S::Bool { .. }, J::Bool(_)) => true,
        (S::Const, J::Null) => true,
        (S::Enum { values, .. }, J::String(n)) => values.contains(n),
        (S::Sub { map }, J::Object(m)) => {
            let mut ok = map.len() == m.len();
            for (k, sn) in map { ok &= match m.get(k) { Some(x) => json_conforms(sn, x), None => false }; }
            ok
        }
        (S::Array { value_type, size }, J::Array(es)) => {
            let mut ok = es.len() == *size;
            for e in es { ok &= json_conforms(value_type, e); }
            ok
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Object(m)) => {
            let mut ok = min_size.map_or(true, |k| m.len() >= k) & max_size.map_or(true, |k| m.len() <= k);
            for (k, e) in m { ok &= k.parse::<usize>().is_ok() & json_conforms(value_type, e); }
            ok
        }
        (S::Variant { map, .. }, J::Object(m)) => {
            let mut ok = m.len() == 1;
            for (k, x) in m { ok &= match map.get(k) { Some(sn) => json_conforms(sn, x), None => false }; }
            ok
        }
        (S::Optional { .. }, J::Null) => true,
        (S::Optional { value_type, .. }, x) => json_conforms(value_type, x),
        _ => false,
    }
}

/// Equality of values (bitwise on reals), without forking on leaves.
pub fn same(x: &V, y: &V) -> bool {
    match (x, y) {
        (V::Real(p), V::Real(q)) => p.to_bits() == q.to_bits(),
        (V::Int(p), V::Int(q)) => p == q,
        (V::Bool(p), V::Bool(q)) => p == q,
        (V::Const, V::Const) => true,
        (V::Enum(p), V::Enum(q)) => p == q,
        (V::Sub(p), V::Sub(q)) => {
            let mut ok = p.len() == q.len();
            for (k, a) in p { ok &= match q.get(k) { Some(c) => same(a, c), None => false }; }
            ok
        }
        (V::Array(p), V::Array(q)) => {
            let mut ok = p.len() == q.len();
            for (a, c) in p.iter().zip(q.iter()) { ok &= same(a, c); }
            ok
        }
        (V::AnonMap(p), V::AnonMap(q)) => {
            let mut ok = p.len() == q.len();
            for (k, a) in p { ok &= match q.get(k) { Some(c) => same(a, c), None => false }; }
            ok
        }
        (V::Variant(n, p), V::Variant(m, q)) => (n == m) && same(p, q),
        (V::Optional(None), V::Optional(None)) => true,
        (V::Optional(Some(p)), V::Optional(Some(q))) => same(p, q),
        _ => false,
    }
}
/// Equality of JSON documents without forking on numbers.
pub fn json_same(x: &serde_json::Value, y: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (x, y) {
        (J::Number(p), J::Number(q)) => {
            if p.is_f64() | q.is_f64() {
                match (p.is_f64() & q.is_f64(), p.as_f64(), q.as_f64()) { (true, Some(a), Some(c)) => a.to_bits() == c.to_bits(), _ => false }
            } else {
                match (p.as_i64(), q.as_i64(), p.as_u64(), q.as_u64()) { (Some(a), Some(c), _, _) => a == c, (None, None, Some(a), Some(c)) => a == c, _ => false }
            }
        }
        (J::Array(p), J::Array(q)) => {
            let mut ok = p.len() == q.len();
            for (a, c) in p.iter().zip(q.iter()) { ok &= json_same(a, c); }
            ok
        }
        (J::Object(p), J::Object(q)) => {
            let mut ok = p.len() == q.len();
            for (k, a) in p { ok &= match q.get(k) { Some(c) => json_same(a, c), None => false }; }
            ok
        }
        (J::Bool(p), J::Bool(q)) => p == q,
        (J::String(p), J::String(q)) => p == q,
        (J::Null, J::Null) => true,
        _ => false,
    }
}
/// The JSON encoding of a value, written independently of `Value::to_json`.
pub fn json_of(v: &V) -> serde_json::Value {
    use serde_json::Value as J;
    match v {
        V::Real(x) => { symx::assume(symx::finite(*x)); J::Number(serde_json::Number::from_f64(*x).unwrap()) }
        V::Int(x) => J::Number((*x).into()),
        V::Bool(x) => J::Bool(*x),
        V::Enum(n) => J::String(n.clone()),
        V::Const | V::Optional(None) => J::Null,
        V::Optional(Some(x)) => json_of(x),
        V::Array(e) => J::Array(e.iter().map(|x| json_of(x)).collect()),
        V::Sub(m) => J::Object(m.iter().map(|(k, x)| (k.clone(), json_of(x))).collect()),
        V::AnonMap(m) => J::Object(m.iter().map(|(k, x)| (k.to_string(), json_of(x))).collect()),
        V::Variant(n, x) => { let mut m = serde_json::Map::new(); m.insert(n.clone(), json_of(x)); J::Object(m) }
    }
}
/// The initial value a spec declares, written independently of `Spec::initial_value`.
pub fn init_of(s: &S) -> V {
    match s {
        S::Real { init, .. } => V::Real(*init),
        S::Int { init, .. } => V::Int(*init),
        S::Bool { init } => V::Bool(*init),
        S::Enum { init, .. } => V::Enum(init.clone()),
        S::Const => V::Const,
        S::Sub { map } => V::Sub(map.iter().map(|(k, x)| (k.clone(), b(init_of(x)))).collect()),
        S::Array { value_type, size } => V::Array((0..*size).map(|_| b(init_of(value_type))).collect()),
        S::AnonMap { value_type, init_size, .. } => V::AnonMap((0..*init_size).map(|k| (k, b(init_of(value_type)))).collect()),
        S::Variant { map, init } => V::Variant(init.clone(), b(init_of(&map[init]))),
        S::Optional { value_type, init_present } => V::Optional(if *init_present { Some(b(init_of(value_type))) } else { None }),
    }
}
/// The maps inside values, whatever their hasher is.
#[macro_export] macro_rules! amap { ($v:expr) => { match $v { V::AnonMap(m) => m, _ => unreachable!() } } }
#[macro_export] macro_rules! smap { ($v:expr) => { match $v { V::Sub(m) => m, _ => unreachable!() } } }
pub fn opt(v: &V) -> Option<&V> { match v { V::Optional(o) => o.as_ref().map(|x| x.deref()), _ => unreachable!() } }
pub fn arr(v: &V) -> &Vec<Box<V>> { match v { V::Array(m) => m, _ => unreachable!() } }
pub fn var(v: &V) -> (&str, &V) { match v { V::Variant(n, x) => (n, x), _ => unreachable!() } }
