//! C01 and C13: what mutation and recombination may produce from conforming parents.
use crate::gen::*;
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation::mutate;
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::verif_hooks::{AlgoContext, PathContext};
use rand::rngs::StdRng;
use rand::SeedableRng;
use tangram_finite::FiniteF64;

pub const SIZES: &[(Option<usize>, Option<usize>, usize)] = &[(None, None, 1), (None, Some(1), 0), (Some(0), Some(1), 1), (Some(1), None, 1), (Some(1), Some(2), 2), (None, Some(2), 1), (Some(2), None, 2), (Some(0), None, 0)];
/// Map bounds as one of the legal combinations.
pub fn with_sizes(c: Cfg) -> Cfg { Cfg { map: SIZES[symx::choose(SIZES.len(), "sizes")], ..c } }

fn prob(name: &str) -> f64 { let p = symx::f64(name); symx::assume((p >= 0.0) & (p <= 1.0)); p }
/// Mutation parameters as the adaptation can produce them.
pub fn params(p: f64) -> MutationParams {
    let s = symx::f64_fin("mutation_scale");
    symx::assume(s > 0.0);
    MutationParams { mutation_prob: p, mutation_scale: s }
}
fn rng() -> StdRng { StdRng::seed_from_u64(0) }
/// What the algorithm keeps about a value it has seen.
fn seen(vs: &[&Value]) -> PathContext { let mut pc = PathContext::default(); for v in vs { pc.add_nodes_for(v); } pc }

// ---------------------------------------------------------------- C01
fn conf_mut(s: S, c: &Cfg) {
    symx::set_flag(symx::RNG_SYM, 1);
    let s = Spec(s);
    let v = Value(any_value(&s.0, c));
    let p = prob("mutation_prob");
    let out = mutate(&s, &v, &params(p), &mut seen(&[&v]), &mut rng());
    symx::check(conforms(&s.0, &out.0), "C01:mutation");
    symx::check(json_conforms(&s.0, &out.to_json()), "C01:mutation-json");
    symx::cover("end");
}
const NUM: Cfg = Cfg { sym_num: true, map_cap: 2, key_bases: 1, ..CFG };
fn leaf(kind: usize, bounded: bool) -> S { node(kind, &Cfg { bounds: bounded, ..NUM }, |_| int()) }
fn any_leaf() -> S { leaf(pick(LEAVES), symx::flip("bounded")) }
/// A real or int with one or two bounds, or none.
fn num_leaf(kind: usize) -> S {
    let (lo, hi) = (symx::flip("has-min"), symx::flip("has-max"));
    match leaf(kind, lo | hi) {
        S::Real { init, scale, min, max } => S::Real { init, scale, min: if lo { min } else { None }, max: if hi { max } else { None } },
        S::Int { init, scale, min, max } => S::Int { init, scale, min: if lo { min } else { None }, max: if hi { max } else { None } },
        x => x,
    }
}
pub fn c01_real() { conf_mut(num_leaf(REAL), &NUM) }
/// Scales over the whole range the spec accepts.
pub fn c01_real_scale() {
    let scale = symx::f64_fin("scale");
    symx::assume(scale > 0.0);
    conf_mut(S::Real { init: 0.0, scale, min: None, max: None }, &NUM)
}
pub fn c01_int() { conf_mut(num_leaf(INT), &NUM) }
pub fn c01_discrete() { conf_mut(leaf(pick(&[BOOL, ENUM, CONST]), false), &NUM) }
fn kid(c: Cfg) -> impl FnMut(usize) -> S { move |i| if i == 0 { let k = pick(&[REAL, BOOL, ENUM, SUB, ARRAY, MAP, VARIANT, OPTIONAL]); node(k, &c, |_| S::Bool { init: false }) } else { S::Int { init: 3, scale: 2.0, min: Some(0), max: Some(9) } } }
const SMALL: Cfg = Cfg { map_cap: 2, key_bases: 1, ..CFG };
const ONE: Cfg = Cfg { map_cap: 1, key_bases: 1, ..CFG };
pub fn c01_containers() { let k = pick(&[SUB, ARRAY, VARIANT, OPTIONAL]); conf_mut(node(k, &ONE, |i| if i == 0 { let k = pick(&[INT, SUB, VARIANT, OPTIONAL, ENUM]); node(k, &ONE, |_| S::Bool { init: false }) } else { S::Bool { init: true } }), &ONE) }
pub fn c01_map() { let c = with_sizes(SMALL); let k = pick(&[BOOL, ENUM, CONST]); conf_mut(node(MAP, &c, |_| node(k, &SMALL, |_| int())), &SMALL) }
pub fn c01_mapnest() {
    let c = with_sizes(ONE);
    let k = pick(&[VARIANT, OPTIONAL, MAP, SUB, ARRAY]);
    let inner = with_sizes(ONE);
    let inner = if k == MAP { inner } else { symx::assume(inner.map == SIZES[0]); ONE };
    conf_mut(node(MAP, &c, |_| node(k, &inner, |_| S::Bool { init: false })), &ONE)
}
/// Two conforming parents recombine into a conforming child, for every legal pair of size bounds.
pub fn c01_crossmap() {
    symx::set_flag(symx::RNG_SYM, 1);
    let c = with_sizes(Cfg { key_bases: 2, map_cap: 2, ..CFG });
    let s = Spec(node(MAP, &c, |_| S::Bool { init: false }));
    let (a, b2) = (Value(any_value(&s.0, &c)), Value(any_value(&s.0, &c)));
    let params = CrossoverParams { crossover_prob: prob("crossover_prob"), selection_pressure: prob("selection_pressure") };
    let out = Crossover::new().crossover(&s, &[&a, &b2], &params, &mut seen(&[&a, &b2]), &mut rng());
    symx::check(conforms(&s.0, &out.0), "C01:crossover");
    symx::cover("end");
}
/// The declared initial value conforms and is the one declared.
pub fn c01_init() {
    let c = with_sizes(NUM);
    let k = pick(ALL);
    let s = Spec(node(k, &Cfg { bounds: true, ..c }, |_| any_leaf()));
    let v = s.initial_value();
    symx::check(conforms(&s.0, &v.0), "C01:initial");
    symx::check(same(&v.0, &init_of(&s.0)), "C01:initial-declared");
    symx::cover("end");
}
fn val(name: &str) -> FiniteF64 { let v = symx::f64_mag(name, 1e300); FiniteF64::new(v).unwrap() }
/// The whole algorithm with an arbitrary random generator: every candidate conforms.
pub fn history(s: S, steps: usize) {
    history_with(s, steps, Some((CrossoverParams { crossover_prob: prob("crossover_prob"), selection_pressure: prob("selection_pressure") }, params(prob("mutation_prob")))))
}
fn history_with(s: S, steps: usize, p: Option<(CrossoverParams, MutationParams)>) {
    symx::set_flag(symx::RNG_SYM, 1);
    let s = Spec(s);
    let mut a = AlgoContext::new(Spec(clone_spec(&s.0)), 1, p, None);
    for k in 0..steps {
        let i = a.next_individual();
        symx::check(conforms(&s.0, &i.value.0), "C01:candidate");
        if k == 0 { symx::check(same(&i.value.0, &init_of(&s.0)), "C01:first-is-initial"); }
        if k + 1 < steps { a.process_individual_eval(i, if symx::flip("rejected") { None } else { Some(val("val")) }); }
        if let Some((_, v)) = a.best_seen_final() { symx::check(conforms(&s.0, &v.0), "C01:best-seen"); }
    }
    symx::cover("end");
}
pub fn c01_history_small() { let c = Cfg { map: SIZES[2 + symx::choose(3, "sizes")], ..ONE }; history(node(MAP, &c, |_| S::Const), 3) }
pub fn c01_history_map() { let c = with_sizes(ONE); history(node(MAP, &c, |_| S::Bool { init: false }), 3) }
pub fn c01_history_nest() { let k = pick(&[VARIANT, OPTIONAL]); history(node(k, &ONE, |i| if i == 0 { node(MAP, &ONE, |_| S::Const) } else { S::Bool { init: true } }), 3) }
pub fn c01_history_real() {
    let s = if symx::flip("int") { S::Int { init: 1, scale: 2.0, min: Some(-3), max: Some(4) } } else { S::Real { init: 1.0, scale: 0.5, min: Some(-2.0), max: if symx::flip("has-max") { Some(3.0) } else { None } } };
    history_with(s, 3, Some((CrossoverParams { crossover_prob: prob("crossover_prob"), selection_pressure: prob("selection_pressure") }, MutationParams { mutation_prob: prob("mutation_prob"), mutation_scale: 1.0 })))
}

pub fn clone_spec(s: &S) -> S { s.clone() }

// ---------------------------------------------------------------- C13
/// Cauchy draws are zero: reals and ints move only through structural steps.
use symx::CAUCHY_ZERO;
/// What must have happened: every unpinned map resized, every boolean, enum, variant and optional changed.
#[derive(Clone, Copy)]
pub struct Sure { pub resize: bool, pub change: bool, pub born: bool }
pub const ANY: Sure = Sure { resize: false, change: false, born: true };
pub const RESIZE: Sure = Sure { resize: true, change: false, born: true };
/// Everything discrete changes; what comes into being only conforms.
pub const LIVE: Sure = Sure { resize: true, change: true, born: false };
/// `after` is what mutation may make of `before` when no numeric step is taken.
pub fn stepped(s: &S, before: &V, after: &V, sure: Sure) -> bool {
    match (s, before, after) {
        (S::Real { .. }, V::Real(x), V::Real(y)) => x == y,
        (S::Int { .. } | S::Const, _, _) => same(before, after),
        (S::Bool { .. }, V::Bool(x), V::Bool(y)) => !sure.change | (x != y),
        (S::Enum { values, .. }, V::Enum(x), V::Enum(y)) => values.contains(y) & (!sure.change | (x != y)),
        (S::Sub { map }, V::Sub(x), V::Sub(y)) => {
            let mut ok = x.len() == y.len();
            for (k, sn) in map { ok &= match (x.get(k), y.get(k)) { (Some(p), Some(q)) => stepped(sn, p, q, sure), _ => false }; }
            ok
        }
        (S::Array { value_type, .. }, V::Array(x), V::Array(y)) => {
            let mut ok = x.len() == y.len();
            for (p, q) in x.iter().zip(y.iter()) { ok &= stepped(value_type, p, q, sure); }
            ok
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(x), V::AnonMap(y)) => {
            let added: Vec<usize> = y.keys().filter(|k| !x.contains_key(k)).copied().collect();
            let removed = x.keys().filter(|k| !y.contains_key(k)).count();
            if added.len() + removed > 1 { return false; }
            let pinned = *min_size == Some(x.len()) && *max_size == Some(x.len());
            let mut ok = !(sure.resize | sure.change) | pinned | (added.len() + removed == 1);
            for (k, q) in y { ok &= match x.get(k) { Some(p) => stepped(value_type, p, q, sure), None => conforms(value_type, q) }; }
            ok
        }
        (S::Variant { map, .. }, V::Variant(n, x), V::Variant(m, y)) => match map.get(m) {
            Some(sn) => if n == m { !sure.change & stepped(sn, x, y, sure) } else if sure.born { stepped(sn, &init_of(sn), y, sure) } else { conforms(sn, y) },
            None => false,
        },
        (S::Optional { value_type, .. }, V::Optional(x), V::Optional(y)) => match (x, y) {
            (None, None) => !sure.change,
            (Some(_), None) => true,
            (None, Some(q)) => if sure.born { stepped(value_type, &init_of(value_type), q, sure) } else { conforms(value_type, q) },
            (Some(p), Some(q)) => !sure.change & stepped(value_type, p, q, sure),
        },
        _ => false,
    }
}
pub fn small_ints(v: &V) -> bool {
    match v {
        V::Int(x) => (*x <= 1 << 53) & (*x >= -(1 << 53)),
        V::Sub(m) => { let mut ok = true; for x in m.values() { ok &= small_ints(x); } ok }
        V::AnonMap(m) => { let mut ok = true; for x in m.values() { ok &= small_ints(x); } ok }
        V::Array(m) => { let mut ok = true; for x in m { ok &= small_ints(x); } ok }
        V::Variant(_, x) | V::Optional(Some(x)) => small_ints(x),
        _ => true,
    }
}
/// Mutation with probability 0 is the identity.
fn identity(s: S, c: &Cfg) {
    symx::set_flag(symx::RNG_SYM, 1);
    let s = Spec(s);
    let v = Value(any_value(&s.0, c));
    let out = mutate(&s, &v, &params(0.0), &mut seen(&[&v]), &mut rng());
    symx::check(same(&v.0, &out.0), "C13:identity");
    symx::cover("end");
}
pub fn c13_zero() { let c = with_sizes(SMALL); let k = pick(ALL); identity(node(k, &c, kid(SMALL)), &SMALL) }
/// One or more mutations in sequence: each one local, keys fresh.  The last one with
/// probability 1 if `sure`, which also shows up an added element overwriting another.
fn local(s: S, c: &Cfg, steps: usize, sure: Sure, label: &str) {
    symx::set_flag(symx::RNG_SYM, 1);
    symx::set_flag(CAUCHY_ZERO, 1);
    let s = Spec(s);
    let mut v = Value(any_value(&s.0, c));
    symx::assume(small_ints(&v.0));
    let mut pc = seen(&[&v]);
    let mut r = rng();
    for k in 0..steps {
        let certain = k + 1 == steps && (sure.resize || sure.change);
        let m = MutationParams { mutation_prob: if certain { 1.0 } else { prob("mutation_prob") }, mutation_scale: 1.0 };
        let out = mutate(&s, &v, &m, &mut pc, &mut r);
        symx::check(stepped(&s.0, &v.0, &out.0, if certain { sure } else { ANY }), if certain { label } else { "C13:not-local" });
        v = out;
    }
    symx::cover("end");
}
pub fn c13_map() { let c = with_sizes(Cfg { key_bases: 2, ..SMALL }); let k = pick(&[BOOL, REAL]); local(node(MAP, &c, |_| node(k, &c, |_| int())), &c, 1, ANY, "") }
pub fn c13_map3() { let c = with_sizes(ONE); local(node(MAP, &c, |_| S::Const), &c, 3, ANY, "") }
pub fn c13_sure() { let c = with_sizes(SMALL); let k = pick(ALL); local(node(k, &c, kid(ONE)), &ONE, 1, RESIZE, "C13:not-resized") }
pub fn c13_sure_map() {
    let c = with_sizes(Cfg { key_bases: 3, map_cap: 3, ..CFG });
    let inner = Cfg { map: (None, None, symx::choose(2, "inner-init")), ..ONE };
    let k = pick(&[CONST, MAP, OPTIONAL]);
    local(node(MAP, &c, |_| node(k, &inner, |_| S::Const)), &Cfg { map_cap: if k == CONST { 3 } else { 1 }, key_bases: 2, ..CFG }, 1, RESIZE, "C13:not-resized")
}
pub fn c13_nest() { let k = pick(&[SUB, ARRAY, VARIANT, OPTIONAL]); local(node(k, &ONE, |i| if i == 0 { let k = pick(&[MAP, VARIANT, OPTIONAL, ENUM, REAL]); node(k, &ONE, |_| int()) } else { S::Bool { init: true } }), &ONE, 1, ANY, "") }
/// A map that comes into being during a mutation (variant switch, optional, map element) and is
/// resized by a later one.
pub fn c13_born() {
    let c = Cfg { map: (None, None, symx::choose(3, "initsize")), ..ONE };
    let m = node(MAP, &c, |_| S::Const);
    let s = match symx::choose(3, "outer") {
        0 => variant(vec![("u", S::Bool { init: false }), ("w", m)], "u"),
        1 => S::Optional { value_type: b(m), init_present: false },
        _ => S::AnonMap { value_type: b(m), init_size: 0, min_size: None, max_size: Some(2) },
    };
    local(s, &ONE, 2, RESIZE, "C13:not-resized")
}
/// With probability 1 everything changes, what has just come into being too - from the declared initial value on.
pub fn c13_switch() {
    const FRESH: Sure = Sure { resize: true, change: true, born: true };
    let flag = |x| S::Bool { init: x };
    let en = |i: &str| S::Enum { values: vec!["r".into(), "g".into(), "b".into()], init: i.into() };
    let leaf = |k: usize, second: bool| match k {
        0 => flag(second),
        1 => en(if second { "b" } else { "r" }),
        2 => S::Int { init: if second { 9 } else { -4 }, scale: 1.0, min: None, max: None },
        3 => S::Real { init: if second { 9.5 } else { -4.0 }, scale: 1.0, min: None, max: None },
        4 => sub(vec![("x", flag(second)), ("y", en(if second { "g" } else { "r" }))]),
        5 => S::Array { value_type: b(flag(second)), size: 2 },
        6 => S::Optional { value_type: b(flag(second)), init_present: second },
        7 => variant(vec![("r", flag(second)), ("s", flag(!second))], if second { "r" } else { "s" }),
        _ => S::AnonMap { value_type: b(flag(second)), init_size: if second { 2 } else { 0 }, min_size: None, max_size: None },
    };
    let k = symx::choose(9, "kind");
    let v = variant(vec![("u", leaf(k, false)), ("w", leaf(k, true))], if symx::flip("init-w") { "w" } else { "u" });
    let s = match symx::choose(4, "outer") {
        0 => v,
        1 => sub(vec![("o", v)]),
        2 => S::Optional { value_type: b(v), init_present: symx::flip("present") },
        _ => S::Optional { value_type: b(leaf(k, symx::flip("second"))), init_present: symx::flip("present") },
    };
    local(s, &ONE, 1, FRESH, "C13:not-from-the-initial-value");
}
/// The algorithm started from a value (a guess) with arbitrary keys: offspring of the only
/// individual is that individual mutated.
pub fn c13_guess() {
    symx::set_flag(symx::RNG_SYM, 1);
    let n = 1 + symx::choose(2, "size");
    let nested = symx::flip("nested");
    let map = |vt: S| S::AnonMap { value_type: b(vt), init_size: 1, min_size: None, max_size: None };
    let keys: Vec<usize> = match symx::choose(5, "keys") { 0 => vec![0, 1], 1 => vec![7, 3], 2 => vec![usize::MAX, 0], 3 => vec![usize::MAX - 1, usize::MAX], _ => vec![1, usize::MAX] };
    let inner = |ks: &[usize], x: V| V::AnonMap(ks.iter().map(|k| (*k, b(x.clone()))).collect());
    let (s, v) = if nested { (map(map(S::Const)), inner(&[4], inner(&keys[..n], V::Const))) } else { (map(S::Const), inner(&keys[..n], V::Const)) };
    let p = (CrossoverParams { crossover_prob: prob("crossover_prob"), selection_pressure: prob("selection_pressure") }, params(1.0));
    let mut a = AlgoContext::new(Spec(s.clone()), 1, Some(p), Some(Value(v.clone())));
    let i = a.next_individual();
    symx::check(same(&i.value.0, &v), "C13:first-is-guess");
    a.process_individual_eval(i, Some(val("val")));
    for _ in 0..2 {
        let i = a.next_individual();
        symx::check(stepped(&s, &v, &i.value.0, RESIZE), "C13:not-resized");
        a.process_individual_eval(i, None);
    }
    symx::cover("end");
}
