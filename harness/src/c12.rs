//! C12: recombination invents nothing.
use crate::gen::*;
use crate::{amap, smap};
use cambrian::crossover::Crossover;
use cambrian::meta::CrossoverParams;
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::verif_hooks::PathContext;
use rand::rngs::StdRng;
use rand::SeedableRng;

/// Every part of `c` comes from one of `ps` at the same position.
pub fn prov(s: &S, c: &V, ps: &[&V]) -> bool {
    match s {
        S::Real { .. } | S::Int { .. } | S::Bool { .. } | S::Enum { .. } | S::Const => {
            let mut ok = false;
            for p in ps { ok |= same(c, p); }
            ok
        }
        S::Sub { map } => {
            let cm = smap!(c);
            let mut ok = cm.len() == map.len();
            for (k, sn) in map {
                let kids: Vec<&V> = ps.iter().map(|p| &*smap!(p)[k]).collect();
                ok &= match cm.get(k) { Some(x) => prov(sn, x, &kids), None => false };
            }
            ok
        }
        S::Array { value_type, size } => {
            let ca = arr(c);
            if ca.len() != *size { return false; }
            let mut ok = true;
            for i in 0..*size { let kids: Vec<&V> = ps.iter().map(|p| &*arr(p)[i]).collect(); ok &= prov(value_type, &ca[i], &kids); }
            ok
        }
        S::AnonMap { value_type, .. } => {
            let mut ok = true;
            for (k, x) in amap!(c) {
                let kids: Vec<&V> = ps.iter().filter_map(|p| amap!(p).get(k).map(|x| &**x)).collect();
                if kids.is_empty() { return false; }
                ok &= prov(value_type, x, &kids);
            }
            ok
        }
        S::Variant { map, .. } => {
            let (n, x) = var(c);
            let kids: Vec<&V> = ps.iter().filter(|p| var(p).0 == n).map(|p| var(p).1).collect();
            !kids.is_empty() && prov(&map[n], x, &kids)
        }
        S::Optional { value_type, .. } => match opt(c) {
            None => ps.iter().any(|p| opt(p).is_none()),
            Some(x) => { let kids: Vec<&V> = ps.iter().filter_map(|p| opt(p)).collect(); !kids.is_empty() && prov(value_type, x, &kids) }
        },
    }
}

pub fn cross(spec: &Spec, parents: &[&Value]) -> Value {
    symx::set_flag(symx::RNG_SYM, 1);
    let (cp, sp) = (symx::f64("crossover_prob"), symx::f64("selection_pressure"));
    symx::assume((cp >= 0.0) & (cp <= 1.0) & (sp >= 0.0) & (sp <= 1.0));
    let params = CrossoverParams { crossover_prob: cp, selection_pressure: sp };
    let mut rng = StdRng::seed_from_u64(0);
    let mut pc = PathContext::default();
    for p in parents { pc.add_nodes_for(p); }
    Crossover::new().crossover(spec, parents, &params, &mut pc, &mut rng)
}

fn run(spec: S, n: usize, c: &Cfg) {
    let spec = Spec(spec);
    let ps: Vec<Value> = (0..n).map(|_| Value(any_value(&spec.0, c))).collect();
    let refs: Vec<&Value> = ps.iter().collect();
    let out = cross(&spec, &refs);
    let nodes: Vec<&V> = ps.iter().map(|p| &p.0).collect();
    symx::check(conforms(&spec.0, &out.0), "C12:conforms");
    symx::check(prov(&spec.0, &out.0, &nodes), "C12:provenance");
    let mut all = true;
    for p in &nodes[1..] { all &= same(p, nodes[0]); }
    symx::check(symx::implies(all, same(&out.0, nodes[0])), "C12:identical-parents");
    symx::cover("C12:end");
}
fn kid_of(kinds: &'static [usize], c: Cfg) -> impl FnMut(usize) -> S {
    move |i| if i == 0 { let k = pick(kinds); node(k, &c, |j| if j == 0 { int() } else { S::Bool { init: true } }) } else { int() }
}
const TWO: Cfg = Cfg { map_cap: 2, key_bases: 2, ..CFG };
const ONE: Cfg = Cfg { map_cap: 1, key_bases: 2, ..CFG };
pub fn sub2() { run(node(SUB, &ONE, kid_of(ALL, ONE)), 2, &ONE) }
pub fn array2() { run(node(ARRAY, &ONE, kid_of(&[REAL, BOOL, ENUM, VARIANT, OPTIONAL], ONE)), 2, &ONE) }
pub fn map2() { run(node(MAP, &TWO, kid_of(&[REAL], TWO)), 2, &TWO) }
pub fn mapnest2() { run(node(MAP, &ONE, kid_of(&[SUB, MAP, VARIANT, OPTIONAL], ONE)), 2, &ONE) }
pub fn variant2() { run(node(VARIANT, &ONE, kid_of(ALL, ONE)), 2, &ONE) }
pub fn optional2() { run(node(OPTIONAL, &ONE, kid_of(ALL, ONE)), 2, &ONE) }
pub fn leaf8() { let n = 1 + symx::choose(8, "parents"); let k = pick(&[REAL, INT, BOOL, CONST]); run(node(k, &ONE, |_| int()), n, &ONE) }
