//! C09: two runs over separately built inputs, in different surroundings (hash seeds, clock,
//! process id, addresses, draws of select!), given the same results in the same order.
use crate::gen::*;
use crate::run::{rich, start, Conf, Out, Run};
use cambrian::spec::Node as S;
use serde_json::{Map, Value as J};

/// The surroundings a run finds (see the executor's getrandom, clock_gettime and getpid).
const SURROUNDINGS: u64 = 900;
struct Side { r: Run, env: u64 }
impl Side {
    fn new(env: u64, c: impl FnOnce() -> Conf) -> Side {
        symx::set_flag(SURROUNDINGS, env);
        let ballast: Vec<Vec<u8>> = (0..env as usize * 3).map(|i| vec![1; 40 + 24 * i]).collect();
        let r = start(c());
        std::mem::forget(ballast);
        Side { r, env }
    }
    fn drive(&mut self) { symx::set_flag(SURROUNDINGS, self.env); self.r.drive(); }
}
/// A copy that shares no table (nor hash seed) with the original.
fn fresh(s: &S) -> S {
    let kids = |m: &mut dyn Iterator<Item = (&String, &Box<S>)>| { let mut k: Vec<(String, S)> = m.map(|(k, x)| (k.clone(), fresh(x))).collect(); k.sort_by(|x, y| x.0.cmp(&y.0)); k };
    match s {
        S::Sub { map } => S::Sub { map: kids(&mut map.iter()).into_iter().map(|(k, x)| (k, b(x))).collect() },
        S::Variant { map, init } => S::Variant { map: kids(&mut map.iter()).into_iter().map(|(k, x)| (k, b(x))).collect(), init: init.clone() },
        S::Array { value_type, size } => S::Array { value_type: b(fresh(value_type)), size: *size },
        S::AnonMap { value_type, init_size, min_size, max_size } => S::AnonMap { value_type: b(fresh(value_type)), init_size: *init_size, min_size: *min_size, max_size: *max_size },
        S::Optional { value_type, init_present } => S::Optional { value_type: b(fresh(value_type)), init_present: *init_present },
        S::Real { init, scale, min, max } => S::Real { init: *init, scale: *scale, min: *min, max: *max },
        S::Int { init, scale, min, max } => S::Int { init: *init, scale: *scale, min: *min, max: *max },
        S::Bool { init } => S::Bool { init: *init },
        S::Enum { values, init } => S::Enum { values: values.clone(), init: init.clone() },
        S::Const => S::Const,
    }
}
fn same_so_far(x: &Run, y: &Run) {
    let (a, c) = (x.evs(), y.evs());
    symx::check(a.len() == c.len(), "C09:different-number-of-evaluations");
    for (p, q) in a.iter().zip(c.iter()) {
        symx::check(p.id == q.id, "C09:different-id");
        symx::check(p.seed == q.seed, "C09:different-seed");
        symx::check(json_same(&p.json, &q.json), "C09:different-parameters");
    }
    symx::check(x.result.is_some() == y.result.is_some(), "C09:different-end");
}
fn same_result(x: &Run, y: &Run) {
    match (&x.result, &y.result) {
        (Some(Ok(p)), Some(Ok(q))) => {
            symx::check(json_same(&p.best_seen.value, &q.best_seen.value), "C09:different-best");
            symx::check(p.best_seen.obj_func_val.to_bits() == q.best_seen.obj_func_val.to_bits(), "C09:different-best-objective");
            symx::check((p.num_obj_func_eval_completed == q.num_obj_func_eval_completed) & (p.num_obj_func_eval_rejected == q.num_obj_func_eval_rejected), "C09:different-counts");
            symx::cover("report");
        }
        (Some(Err(p)), Some(Err(q))) => { symx::check(p.to_string() == q.to_string(), "C09:different-error"); symx::cover("error") }
        (None, None) => {}
        _ => symx::check(false, "C09:different-end"),
    }
}
#[derive(Clone, Copy)]
struct Plan { conc: usize, sample: usize, warm: usize, more: usize, target: bool, terminate: bool }
type Step = Vec<(usize, Out)>;
/// Both runs step by step.
fn lockstep(s: S, init: Option<J>, p: Plan) {
    let target = if p.target { Some(symx::f64_mag("target", 1e300)) } else { None };
    let mk = |s: S, init: Option<J>| Conf { spec: s, sample: p.sample, conc: p.conc, n: Some(p.warm + p.more), target, init, honour: true, report_cap: 256 };
    let (mut x, mut y) = (Side::new(1, || mk(fresh(&s), init.clone())), Side::new(2, || mk(fresh(&s), init.clone())));
    let mut k = 0;
    let mut term = false;
    let mut steps: Vec<Step> = vec![];
    loop {
        x.drive();
        y.drive();
        same_so_far(&x.r, &y.r);
        if x.r.result.is_some() { break; }
        let mut open = x.r.open();
        if open.is_empty() { break; }
        let mut step: Step = vec![];
        if k < p.warm { step.push((open[0], warm_value(k))); k += 1; } else {
            if p.terminate && !term && symx::flip("terminate") { term = true; x.r.terminate(); y.r.terminate(); continue; }
            for _ in 0..=symx::choose(open.len().min(2), "batch") {
                let i = open.remove(symx::choose(open.len(), "event"));
                step.push((i, if symx::flip("accept") { Out::Accept(symx::f64_mag("val", 1e300)) } else { Out::Reject }));
                k += 1;
            }
        }
        for (i, o) in &step { x.r.finish(*i, *o); }
        for (i, o) in &step { y.r.finish(*i, *o); }
        steps.push(step);
    }
    same_result(&x.r, &y.r);
    symx::cover("end");
}
fn warm_value(k: usize) -> Out { if k % 6 == 4 { Out::Reject } else { Out::Accept(((k * 7) % 5) as f64) } }

fn plan(conc: usize, sample: usize, warm: usize, more: usize) -> Plan { Plan { conc, sample, warm, more, target: false, terminate: false } }
fn kind_of_spec() -> S {
    let k = pick(&[SUB, ARRAY, MAP, VARIANT, OPTIONAL]);
    let c = Cfg { map: (Some(1), Some(5), 3), ..CFG };
    sub(vec![
        ("a", node(k, &c, |i| if i == 0 { let k = pick(&[REAL, BOOL, MAP, VARIANT]); node(k, &c, |_| int()) } else { enumeration() })),
        ("z", S::AnonMap { value_type: b(real()), init_size: 3, min_size: None, max_size: None }),
    ])
}
/// Many names and many elements: their order shows in everything.
fn wide() -> S {
    let leaf = |k: usize| match k % 4 { 0 => S::Real { init: 1.0, scale: 1.0, min: Some(-8.0), max: Some(8.0) }, 1 => S::Bool { init: false }, 2 => enumeration(), _ => S::Int { init: 2, scale: 1.0, min: None, max: Some(9) } };
    let names = ["a", "bb", "c", "delta", "e", "f6", "g", "h"];
    let opts = variant(vec![("u", leaf(0)), ("v", leaf(1)), ("w", leaf(2)), ("x", leaf(3)), ("y", S::Const)], "w");
    let elem = sub(vec![("k", leaf(0)), ("l", leaf(1)), ("o", opts)]);
    let mut kids: Vec<(&str, S)> = names.iter().enumerate().map(|(i, n)| (*n, leaf(i))).collect();
    kids.push(("m", S::AnonMap { value_type: b(elem), init_size: 6, min_size: None, max_size: Some(9) }));
    kids.push(("n", S::Array { value_type: b(S::AnonMap { value_type: b(S::Optional { value_type: b(leaf(3)), init_present: true }), init_size: 4, min_size: Some(2), max_size: None }), size: 3 }));
    sub(kids)
}
pub fn small() { let c = 1 + symx::choose(3, "conc"); lockstep(kind_of_spec(), None, Plan { target: symx::flip("target"), ..plan(c, 1, 0, 3) }) }
pub fn stopped() { lockstep(rich(), None, Plan { terminate: true, target: true, ..plan(2, 1, 3, 3) }) }
pub fn sampled() { let c = 1 + symx::choose(2, "conc"); lockstep(wide(), None, plan(c, 2 + symx::choose(2, "sample"), 24, 2)) }
pub fn sampled_more() { lockstep(wide(), None, plan(2, 2, 26, 3)) }
pub fn long() { lockstep(wide(), None, plan(2, 1, 60, 2)) }
pub fn long_more() { lockstep(wide(), None, plan(2, 1, 80, 3)) }
pub fn long_kinds() { lockstep(kind_of_spec(), None, plan(1, 1, 40, 1)) }
pub fn evict() { lockstep(wide(), None, plan(4, 1, 118, 2)) }
/// A guess whose maps have keys of its own.
pub fn guess() {
    let s = sub(vec![("m", S::AnonMap { value_type: b(sub(vec![("k", real()), ("f", S::AnonMap { value_type: b(int()), init_size: 1, min_size: None, max_size: None })])), init_size: 2, min_size: None, max_size: None }), ("t", S::Bool { init: true })]);
    let text = r#"{"t":false,"m":{"7":{"f":{"3":1,"0":2,"11":5},"k":0.5},"2":{"k":-1.5,"f":[4,5]},"30":{"f":{},"k":2.0},"4":{"f":{"9":9},"k":3.0}}}"#;
    let j: J = serde_json::from_str(text).unwrap();
    let mut again = Map::new();
    for (k, v) in j.as_object().unwrap() { again.insert(k.clone(), v.clone()); }
    lockstep(s, Some(J::Object(again)), plan(2, 1, 10, 2))
}
const TEXT: &str = "
typeDef cell:
  type: sub
  on:
    type: bool
    init: false
  weight:
    type: real
    init: 0.5
    scale: 0.1
    min: 0
    max: 1
layers:
  type: anon map
  initSize: 3
  maxSize: 6
  valueType:
    type: variant
    init: dense
    dense:
      type: cell
    none:
      type: const
    conv:
      width:
        type: int
        init: 3
        scale: 2
        min: 1
      inner:
        type: cell
rate:
  type: real
  init: 0.01
  scale: 0.01
kind:
  type: enum
  init: b
  values: [a, b, c]
extra:
  type: optional
  initPresent: true
  valueType:
    type: array
    size: 2
    valueType:
      type: cell
";
/// One after the other in one process, with a different run in between; the spec is read from its
/// text each time.
pub fn in_turn() {
    let spec = || cambrian::spec_util::from_yaml_str(TEXT).unwrap().0;
    let sample = 1 + symx::choose(2, "sample");
    let conf = |s: S| Conf { spec: s, sample, conc: 2, n: Some(28), target: None, init: None, honour: true, report_cap: 256 };
    let mut x = Side::new(1, || conf(spec()));
    let mut steps: Vec<(usize, Out)> = vec![];
    loop {
        x.drive();
        if x.r.result.is_some() { break; }
        let open = x.r.open();
        if open.is_empty() { break; }
        let k = steps.len();
        let (i, o) = if k < 26 { (open[0], warm_value(k)) } else { (open[symx::choose(open.len(), "event")], if symx::flip("accept") { Out::Accept(symx::f64_mag("val", 1e300)) } else { Out::Reject }) };
        steps.push((i, o));
        x.r.finish(i, o);
    }
    let mut other = Side::new(3, || Conf { spec: rich(), ..conf(S::Const) });
    for k in 0..7 { other.drive(); let o = other.r.open(); other.r.finish(o[0], warm_value(k)); }
    let mut y = Side::new(2, || conf(spec()));
    for (i, o) in &steps { y.drive(); symx::check(y.r.evs().len() > *i && !y.r.evs()[*i].ended, "C09:different-number-of-evaluations"); y.r.finish(*i, *o); }
    y.drive();
    same_so_far(&x.r, &y.r);
    same_result(&x.r, &y.r);
    symx::cover("end");
}
