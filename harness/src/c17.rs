//! C17: selection is directed, every kind of parameter is varied, recombination mixes.
use crate::gen::*;
use crate::{amap, smap};
use crate::mutat::stepped;
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation::mutate;
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::verif_hooks::{AlgoContext, PathContext, Selection, SelectionImpl};
use rand::rngs::StdRng;
use rand::SeedableRng;
use symx::real::{int as num, nonneg, op, Prog};
use symx::script;
use tangram_finite::FiniteF64;

fn rng() -> StdRng { StdRng::seed_from_u64(0) }
fn prob(name: &str) -> f64 { let p = symx::f64(name); symx::assume((p >= 0.0) & (p <= 1.0)); p }
fn seen(vs: &[&Value]) -> PathContext { let mut pc = PathContext::default(); for v in vs { pc.add_nodes_for(v); } pc }
/// The probability of each of `n` outcomes (and of none of them, last), as a function of the pressure.
fn distribution(n: usize, mut f: impl FnMut() -> Option<usize>) -> Vec<Prog> {
    symx::set_flag(symx::RNG_SYM, 1);
    let mut w: Vec<Prog> = (0..n + 1).map(|_| num(0)).collect();
    script::begin();
    while script::next() {
        let k = f().unwrap_or(n);
        let x = script::weight();
        w[k] = op(2, std::mem::take(&mut w[k]), &x);
    }
    w
}
fn never_increases(w: &[Prog], label: &str) { for k in 1..w.len() { nonneg(&op(3, w[k - 1].clone(), &w[k]), label); } }
fn complete(w: &[Prog]) -> Prog { w.iter().skip(1).fold(w[0].clone(), |a, b| op(2, a, b)) }

/// With a pressure that is not tiny the best is picked more often than the worst.
fn favours(w: &[Prog], strict: bool) { if w.len() > 1 && strict { nonneg(&op(3, op(4, op(3, w[0].clone(), &w[w.len() - 1]), &num(1000)), &num(1)), "C17:selection-blind"); } }
fn pressure() -> (f64, bool) { let q = prob("pressure"); let strict = symx::flip("strict"); (if strict { 0.1 + 0.9 * q } else { q }, strict) }
/// Selection itself, for every pressure.
pub fn select() {
    let n = 1 + symx::choose(10, "n");
    let (p, strict) = pressure();
    let items: Vec<usize> = (0..n).collect();
    let refs: Vec<&usize> = items.iter().collect();
    let how = symx::flip("by-value");
    let w = distribution(n, || { let k = if how { SelectionImpl::new().select_value(&items, p, &mut rng()) } else { *SelectionImpl::new().select_ref(&refs, p, &mut rng()) }; Some(k) });
    never_increases(&w[..n], "C17:selection-increases");
    nonneg(&op(3, complete(&w[..n]), &num(1)), "C17:selects-nothing");
    favours(&w[..n], strict);
    symx::cover("end");
}
/// The same through recombination of distinct leaf parents, at any crossover probability.
pub fn select_leaf() {
    let n = 2 + symx::choose(5, "n");
    let (p, strict) = pressure();
    let cp = prob("crossover_prob");
    let k = pick(&[INT, REAL, ENUM]);
    let names: Vec<String> = (0..n).map(|k| format!("e{k}")).collect();
    let (s, vs): (S, Vec<Value>) = match k {
        INT => (int(), (0..n).map(|k| Value(V::Int(k as i64))).collect()),
        REAL => (real(), (0..n).map(|k| Value(V::Real(k as f64))).collect()),
        _ => (S::Enum { values: names.clone(), init: names[0].clone() }, names.iter().map(|k| Value(V::Enum(k.clone()))).collect()),
    };
    let s = Spec(s);
    let refs: Vec<&Value> = vs.iter().collect();
    let w = distribution(n, || {
        let out = Crossover::new().crossover(&s, &refs, &CrossoverParams { crossover_prob: cp, selection_pressure: p }, &mut seen(&refs), &mut rng());
        vs.iter().position(|v| same(&v.0, &out.0))
    });
    never_increases(&w[..n], "C17:selection-increases");
    nonneg(&op(3, complete(&w[..n]), &num(1)), "C17:selects-nothing");
    favours(&w[..n], strict);
    symx::cover("end");
}
/// Through the algorithm: which evaluated individual is copied into an offspring.
pub fn select_population() {
    let n = 3;
    let p = prob("pressure");
    symx::set_flag(symx::RNG_SYM, 1);
    let over = (CrossoverParams { crossover_prob: 0.5, selection_pressure: p }, MutationParams { mutation_prob: 0.5, mutation_scale: 1.0 });
    let mut a = AlgoContext::new(Spec(int()), 1, Some(over), None);
    let mut pop: Vec<(f64, V)> = vec![];
    for k in 0..n {
        symx::set_flag(symx::FORCED, (100f64.powi(k as i32 + 1)).to_bits());
        let i = a.next_individual();
        let v = symx::f64_mag("val", 1e300);
        pop.push((v, i.value.0.clone()));
        a.process_individual_eval(i, Some(FiniteF64::new(v).unwrap()));
    }
    symx::set_flag(symx::FORCED, 0);
    for x in 0..n { for y in 0..x { if same(&pop[x].1, &pop[y].1) { symx::kill(); } } }
    // best first; equal ones in any order
    let mut by: Vec<usize> = vec![];
    for k in 0..n { let mut at = 0; while at < by.len() && symx::decide(pop[by[at]].0 <= pop[k].0) { at += 1; } by.insert(at, k); }
    symx::set_flag(symx::CAUCHY_ZERO, 1);
    let a = std::cell::RefCell::new(a);
    let w = distribution(n, || { let i = a.borrow_mut().next_individual(); (0..n).position(|r| same(&pop[by[r]].1, &i.value.0)) });
    for r in 1..n { if symx::decide(pop[by[r - 1]].0 < pop[by[r]].0) { nonneg(&op(3, w[r - 1].clone(), &w[r]), "C17:selection-increases"); } }
    nonneg(&op(3, complete(&w[..n]), &num(1)), "C17:selects-nothing");
    symx::cover("end");
}

// ---- every kind of parameter is varied
/// Mutation with probability 1 changes every boolean, enum, variant, optional and map size.
fn live(s: S, c: &Cfg) {
    symx::set_flag(symx::RNG_SYM, 1);
    symx::set_flag(symx::CAUCHY_ZERO, 1);
    let s = Spec(s);
    let v = Value(any_value(&s.0, c));
    symx::assume(crate::mutat::small_ints(&v.0));
    let out = mutate(&s, &v, &MutationParams { mutation_prob: 1.0, mutation_scale: 1.0 }, &mut seen(&[&v]), &mut rng());
    symx::check(stepped(&s.0, &v.0, &out.0, crate::mutat::LIVE), "C17:not-varied");
    symx::cover("end");
}
const ONE: Cfg = Cfg { map_cap: 1, key_bases: 1, ..CFG };
const TWO: Cfg = Cfg { map_cap: 2, key_bases: 2, ..CFG };
fn kid(c: Cfg) -> impl FnMut(usize) -> S { move |i| if i == 0 { let k = pick(&[BOOL, ENUM, SUB, ARRAY, MAP, VARIANT, OPTIONAL]); node(k, &c, |_| S::Bool { init: false }) } else { enumeration() } }
pub fn live_any() { let c = crate::mutat::with_sizes(ONE); let k = pick(ALL); live(node(k, &c, kid(ONE)), &ONE) }
pub fn live_map() { let c = crate::mutat::with_sizes(TWO); let k = pick(&[BOOL, ENUM, MAP, OPTIONAL]); live(node(MAP, &c, |_| node(k, &ONE, |_| S::Const)), &TWO) }
pub fn live_deep() {
    let k1 = pick(&[SUB, ARRAY, MAP, VARIANT, OPTIONAL]);
    let k2 = pick(&[SUB, ARRAY, MAP, VARIANT, OPTIONAL]);
    let k3 = pick(&[BOOL, ENUM, MAP, VARIANT, OPTIONAL]);
    live(node(k1, &ONE, |i| if i == 0 { node(k2, &ONE, |i| if i == 0 { node(k3, &ONE, |_| S::Const) } else { S::Const }) } else { S::Const }), &ONE)
}
/// Enums and variants of more options than two.
pub fn live_many() {
    let n = 2 + symx::choose(4, "n");
    let names: Vec<String> = (0..n).map(|k| format!("e{k}")).collect();
    let s = if symx::flip("enum") { S::Enum { values: names.clone(), init: names[n - 1].clone() } } else { variant(names.iter().map(|n| (n.as_str(), S::Const)).collect(), &names[n - 1]) };
    live(if symx::flip("nested") { sub(vec![("a", s), ("z", S::Const)]) } else { s }, &ONE)
}
/// A step of one scale or more, up or down: one of the two always changes an unpinned number.
/// (A Cauchy draw is that large upwards with probability 1/4 and downwards with probability 1/4.)
fn varies(s: S, at: impl Fn(S) -> S, inner: impl Fn(&V) -> V, outer: impl Fn(V) -> V) {
    symx::set_flag(symx::RNG_SYM, 1);
    let leaf = s.clone();
    let s = Spec(at(s));
    let v0 = any_value(&leaf, &CFG);
    match &v0 { V::Real(x) => symx::assume((*x >= -1e12) & (*x <= 1e12)), V::Int(x) => symx::assume((*x >= -(1 << 15)) & (*x <= 1 << 15)), _ => {} }
    let v = Value(outer(v0.clone()));
    let go = |sign| { symx::set_flag(symx::CAUCHY_SIGN, sign); inner(&mutate(&s, &v, &MutationParams { mutation_prob: 1.0, mutation_scale: 1.0 }, &mut seen(&[&v]), &mut rng()).0) };
    let (up, down) = (go(1), go(2));
    symx::check(!(same(&v0, &up) & same(&v0, &down)), "C17:number-not-varied");
    symx::cover("end");
}
fn number(kind: usize) -> S {
    let (lo, hi) = (symx::flip("has-min"), symx::flip("has-max"));
    let scale = [1.0, 1e6][symx::choose(2, "scale")];
    if kind == REAL {
        let (min, max) = (symx::f64_small("min"), symx::f64_small("max"));
        symx::assume(min < max);
        S::Real { init: 0.0, scale, min: if lo { Some(min) } else { None }, max: if hi { Some(max) } else { None } }
    } else {
        let (min, max) = (symx::bits(16, "min") as i16 as i64, symx::bits(16, "max") as i16 as i64);
        symx::assume(min < max);
        S::Int { init: 0, scale, min: if lo { Some(min) } else { None }, max: if hi { Some(max) } else { None } }
    }
}
pub fn varies_real() { varies(number(REAL), |s| s, |v| v.clone(), |v| v) }
pub fn varies_int() { varies(number(INT), |s| s, |v| v.clone(), |v| v) }
pub fn varies_nested() {
    let s = if symx::flip("int") { S::Int { init: 0, scale: 1.0, min: Some(-3), max: Some(3) } } else { S::Real { init: 0.0, scale: 1.0, min: Some(-3.0), max: None } };
    match symx::choose(3, "in") {
        0 => varies(s, |s| sub(vec![("k", s)]), |v| (*smap!(v)["k"]).clone(), |v| V::Sub([("k".to_string(), b(v))].into_iter().collect())),
        1 => varies(s, |s| S::Array { value_type: b(s), size: 2 }, |v| (*arr(v)[1]).clone(), |v| V::Array(vec![b(v.clone()), b(v)])),
        _ => varies(s, |s| S::AnonMap { value_type: b(s), init_size: 1, min_size: Some(1), max_size: Some(1) }, |v| (*amap!(v)[&5]).clone(), |v| V::AnonMap([(5, b(v))].into_iter().collect())),
    }
}

// ---- recombination mixes
fn take(parent: bool) -> V { V::Bool(parent) }
/// Two parents differing in two parts; with crossover probability 1 an offspring with one part of
/// each comes out with a probability bounded from below.
pub fn mix() {
    let k = symx::choose(6, "kind");
    let q = prob("pressure");
    let p = q * 0.9;
    let two = |x: bool| V::Sub([("p".to_string(), b(take(x))), ("q".to_string(), b(take(x)))].into_iter().collect());
    let t2 = || sub(vec![("p", S::Bool { init: false }), ("q", S::Bool { init: false })]);
    let (s, mk): (S, fn(V, bool) -> V) = match k {
        0 => (t2(), |v, _| v),
        1 => (S::Array { value_type: b(S::Bool { init: false }), size: 2 }, |v, _| { let m = smap!(&v); V::Array(vec![m["p"].clone(), m["q"].clone()]) }),
        2 => (S::AnonMap { value_type: b(S::Bool { init: false }), init_size: 2, min_size: None, max_size: None }, |v, _| { let m = smap!(&v); V::AnonMap([(3, m["p"].clone()), (9, m["q"].clone())].into_iter().collect()) }),
        3 => (variant(vec![("u", t2()), ("w", S::Const)], "u"), |v, _| V::Variant("u".into(), b(v))),
        4 => (S::Optional { value_type: b(t2()), init_present: true }, |v, _| V::Optional(Some(b(v)))),
        _ => (S::Array { value_type: b(t2()), size: 2 }, |v, _| V::Array(vec![b(v.clone()), b(v)])),
    };
    let s = if symx::flip("nested") { (sub(vec![("a", s)]), true) } else { (s, false) };
    let nested = s.1;
    let wrap = |v: V| if nested { V::Sub([("a".to_string(), b(v))].into_iter().collect()) } else { v };
    let s = Spec(s.0);
    let (x, y) = (Value(wrap(mk(two(false), false))), Value(wrap(mk(two(true), true))));
    let refs = [&x, &y];
    let w = distribution(1, || {
        let out = Crossover::new().crossover(&s, &refs, &CrossoverParams { crossover_prob: 1.0, selection_pressure: p }, &mut seen(&refs), &mut rng());
        if same(&out.0, &x.0) || same(&out.0, &y.0) { None } else { Some(0) }
    });
    // at least 1/1000 for every pressure up to 0.9
    nonneg(&op(3, op(4, w[0].clone(), &num(1000)), &num(1)), "C17:never-mixed");
    symx::cover("end");
}

// ---- the battery
use crate::run::{start, Conf, Out};
use serde_json::Value as J;
fn f(j: &J, k: &str) -> f64 { j[k].as_f64().unwrap() }
fn re(init: f64, scale: f64, min: Option<f64>, max: Option<f64>) -> S { S::Real { init, scale, min, max } }
fn it(init: i64, min: Option<i64>, max: Option<i64>) -> S { S::Int { init, scale: 4.0, min, max } }
pub struct Problem { pub name: &'static str, pub spec: fn() -> S, pub obj: fn(&J) -> f64, pub n: usize }
const BOOLS: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
pub const BATTERY: &[Problem] = &[
    Problem { name: "sphere2", spec: || sub(vec![("x", re(30.0, 1.0, None, None)), ("y", re(-50.0, 1.0, None, None))]), obj: |j| f(j, "x").powi(2) + f(j, "y").powi(2), n: 600 },
    Problem { name: "ellipse4", spec: || sub(vec![("a", re(3.0, 1.0, None, None)), ("b", re(-40.0, 10.0, None, None)), ("c", re(0.2, 0.1, None, None)), ("d", re(500.0, 100.0, None, None))]), obj: |j| f(j, "a").powi(2) + (f(j, "b") / 10.0).powi(2) + (f(j, "c") / 0.1).powi(2) + (f(j, "d") / 100.0).powi(2), n: 600 },
    Problem { name: "onbound", spec: || sub(vec![("x", re(7.0, 1.0, Some(-3.0), Some(9.0))), ("y", re(0.0, 1.0, None, Some(4.0)))]), obj: |j| f(j, "x") - f(j, "y"), n: 500 },
    Problem { name: "grid", spec: || sub(vec![("x", it(100, None, None)), ("y", it(-60, Some(-70), Some(70)))]), obj: |j| (j["x"].as_i64().unwrap() as f64 - 17.0).abs() + (j["y"].as_i64().unwrap() as f64 + 9.0).abs(), n: 600 },
    Problem { name: "onemax", spec: || sub(BOOLS.iter().map(|k| (*k, S::Bool { init: false })).collect()), obj: |j| BOOLS.iter().filter(|k| j[**k] == J::Bool(false)).count() as f64, n: 600 },
    Problem { name: "mapsize", spec: || S::AnonMap { value_type: b(S::Bool { init: false }), init_size: 2, min_size: None, max_size: Some(20) }, obj: |j| (j.as_object().unwrap().len() as f64 - 9.0).abs(), n: 300 },
    Problem { name: "choice", spec: || sub(vec![("e", S::Enum { values: (0..6).map(|k| format!("v{k}")).collect(), init: "v0".into() }), ("w", variant(vec![("p", it(0, None, None)), ("q", it(5, None, None)), ("r", S::Const)], "r")), ("o", S::Optional { value_type: b(S::Bool { init: false }), init_present: false })]),
        obj: |j| (j["e"] != "v4") as u32 as f64 + (match j["w"].get("q") { Some(x) => (x.as_i64().unwrap() as f64 - 20.0).abs().min(30.0), None => 40.0 }) + (j["o"] != J::Bool(true)) as u32 as f64, n: 500 },
];
/// Best value after the problem's budget; `order` says which of several open evaluations ends next.
pub fn solve(p: &Problem, conc: usize, n: usize, mut order: impl FnMut(usize, usize) -> usize) -> (f64, f64) {
    let mut r = start(Conf { spec: (p.spec)(), sample: 1, conc, n: Some(n), target: None, init: None, honour: true, report_cap: 16 });
    let mut first = None;
    let mut k = 0;
    let mut open: Vec<usize> = vec![];
    let mut known = 0;
    loop {
        r.drive();
        if r.result.is_some() { break; }
        while known < r.evs().len() { open.push(known); known += 1; }
        let i = open.remove(order(k, open.len()));
        k += 1;
        let v = (p.obj)(&r.evs()[i].json);
        if first.is_none() { first = Some(v); }
        r.finish(i, Out::Accept(v));
    }
    match r.result { Some(Ok(rep)) => (first.unwrap(), rep.best_seen.obj_func_val), _ => { symx::check(false, "C17:no-result"); (0.0, 0.0) } }
}
fn good(p: &Problem, first: f64, best: f64, n: usize) {
    let limit = match (p.name, n > p.n) {
        ("sphere2", l) => first * if l { 1e-5 } else { 1e-3 },
        ("ellipse4", l) => first * if l { 1e-2 } else { 5e-2 },
        ("onbound", _) => -7.0,
        ("mapsize", _) | ("grid", true) => 0.0,
        ("onemax", true) => 1.0,
        ("choice", true) => 2.0,
        _ => first * 0.25,
    };
    symx::check(best <= limit, &format!("C17:{}-not-solved", p.name));
    symx::cover(p.name);
}
fn battery(points: &'static [usize]) {
    let p = &BATTERY[symx::choose(BATTERY.len(), "problem")];
    let conc = [1, 4][symx::choose(2, "conc")];
    let (a, z) = solve(p, conc, p.n, |k, n| if points.contains(&k) { symx::choose(n, "next") } else { 0 });
    good(p, a, z, p.n);
}
pub fn battery_orders() { battery(&[6, 40]) }
pub fn battery_orders_many() { battery(&[3, 12, 50, 200]) }
pub fn battery_long() {
    let p = &BATTERY[symx::choose(BATTERY.len(), "problem")];
    let (conc, last) = [(1, false), (4, false), (4, true)][symx::choose(3, "how")];
    let (a, z) = solve(p, conc, 1000, |_, n| if last { n - 1 } else { 0 });
    good(p, a, z, 1000);
}
