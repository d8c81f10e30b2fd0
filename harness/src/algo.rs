//! The algorithm core (`AlgoContext`) and the adaptation of its parameters, with an arbitrary random
//! generator: which individual is proposed next, and what is kept of the results.
use crate::gen::*;
use crate::mutat::params;
use crate::run::{close, meta_ok};
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::spec::{Node as S, Spec};
use cambrian::value::Value;
use cambrian::verif_hooks::{create_exploratory, mutate_meta_params, AlgoContext, IndContext};
use rand::rngs::StdRng;
use rand::SeedableRng;
use tangram_finite::FiniteF64;

fn prob(name: &str) -> f64 { let p = symx::f64(name); symx::assume((p >= 0.0) & (p <= 1.0)); p }
/// The adaptation keeps probabilities in [0,1] and the scale positive and finite, from any such.
pub fn meta_step() {
    symx::set_flag(symx::RNG_SYM, 1);
    let mut rng = StdRng::seed_from_u64(0);
    let (c, m) = if symx::flip("exploratory") { create_exploratory(&mut rng) } else {
        mutate_meta_params(CrossoverParams { crossover_prob: prob("crossover_prob"), selection_pressure: prob("selection_pressure") }, params(prob("mutation_prob")), &mut rng)
    };
    symx::check(meta_ok(&c, &m), "C14:meta-params");
    symx::cover("end");
}

struct Seen { id: usize, value: Value, given: Vec<f64>, pending: bool, rejected: bool }
/// A controller of its own: keeps `conc` individuals in evaluation, the solver chooses which
/// ends, how, and (through the symbolic generator) whether an individual is re-evaluated.
fn drive(p: &str, sample: usize, warm: usize, warm_val: fn(usize) -> f64, conc: usize, steps: usize, reject: bool) {
    let is = |q: &str| p == q;
    let over = (CrossoverParams { crossover_prob: 0.0, selection_pressure: 1.0 }, MutationParams { mutation_prob: 0.0, mutation_scale: 1.0 });
    let mut a = AlgoContext::new(Spec(S::Bool { init: true }), sample, Some(over), None);
    let mut seen: Vec<Seen> = vec![];
    let mut flying: Vec<IndContext> = vec![];
    let mut reevals = 0;
    for k in 0..warm {
        let i = a.next_individual();
        seen.push(Seen { id: i.id, value: i.value.clone(), given: vec![warm_val(k)], pending: false, rejected: false });
        a.process_individual_eval(i, Some(FiniteF64::new(warm_val(k)).unwrap()));
    }
    symx::set_flag(symx::RNG_SYM, 1);
    for k in 0..steps + conc {
        if k >= conc {
            let i = symx::choose(flying.len(), "which");
            let ind = flying.remove(i);
            let s = seen.iter_mut().find(|s| s.id == ind.id).unwrap();
            s.pending = false;
            let val = if reject && symx::flip("rejected") { s.rejected = true; None } else { let v = if sample == 1 { symx::f64_mag("val", 1e300) } else { symx::f64_small("val") }; s.given.push(v); Some(FiniteF64::new(v).unwrap()) };
            a.process_individual_eval(ind, val);
            if is("C02") { best(&a, &seen, sample); }
        }
        let i = a.next_individual();
        match seen.iter_mut().find(|s| s.id == i.id) {
            Some(s) => {
                reevals += 1;
                if is("C05") { symx::check(!s.pending, "C05:same-individual-twice"); }
                if is("C08") {
                    symx::check(same(&s.value.0, &i.value.0), "C08:individual-changed");
                    symx::check(s.given.len() + (s.rejected | s.pending) as usize + 1 <= sample, "C08:evaluated-too-often");
                }
                s.pending = true;
            }
            None => seen.push(Seen { id: i.id, value: i.value.clone(), given: vec![], pending: true, rejected: false }),
        }
        flying.push(i);
        if is("C05") { for x in 0..flying.len() { for y in 0..x { symx::check(flying[x].id != flying[y].id, "C05:same-individual-twice"); } } }
    }
    if sample > 1 && reevals > 0 { symx::cover("reeval"); }
    if reevals > 1 { symx::cover("reeval-2"); }
    symx::cover("end");
}
fn best(a: &AlgoContext, seen: &[Seen], sample: usize) {
    let full: Vec<(f64, &Value)> = seen.iter().filter(|s| s.given.len() == sample).map(|s| (s.given.iter().sum::<f64>() / sample as f64, &s.value)).collect();
    match a.best_seen_final() {
        Some((v, val)) => {
            let mut real = false;
            let mut min = true;
            for (m, x) in &full { real |= same(&x.0, &val.0) & close(*m, v.get()); min &= v.get() <= *m; }
            symx::check(real, "C02:not-the-mean-of-a-full-sample");
            if sample == 1 { symx::check(min, "C02:not-minimum"); }
            symx::cover("best");
        }
        None => if sample == 1 { symx::check(full.is_empty(), "C02:no-individuals-despite-accepted"); },
    }
}
const TIES: fn(usize) -> f64 = |_| 1.0;
fn warm_len() -> usize { 19 + symx::choose(2, "warm") }
pub fn c02_reeval() { drive("C02", 2, warm_len(), TIES, 2, 3, true) }
pub fn c05_reeval() { drive("C05", 2, warm_len(), TIES, 2, 3, true) }
pub fn c08_reeval() { drive("C08", 2, warm_len(), TIES, 2, 3, true) }
pub fn c08_reeval3() { drive("C08", 3, 20, TIES, 1, 4, false) }
pub fn c02_reeval3() { drive("C02", 3, 20, TIES, 1, 4, false) }
pub fn c02_cap() { drive("C02", 1, 98, |k| (k % 2) as f64, 1, 4, false) }
pub fn c02_reeval_deep() { drive("C02", 2, warm_len(), TIES, 2, 4, true) }
pub fn c05_reeval_deep() { drive("C05", 2, warm_len(), TIES, 3, 4, true) }
pub fn c08_reeval_deep() { drive("C08", 2, warm_len(), TIES, 2, 4, true) }
