//! C11: the value/JSON codec and the validation of the initial guess.
use crate::gen::*;
use crate::run::{rich, start, Conf, Out, Run};
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::value_util::{from_json_str, from_json_value};
use serde_json::{Map, Number, Value as J};

/// What a guess means under a spec, written independently of value_util.
pub enum Dec { Yes(V), No, Open }
use Dec::*;

fn all<K>(it: impl Iterator<Item = (K, Dec)>) -> Result<Vec<(K, Box<V>)>, Dec> {
    let mut out = vec![];
    let mut open = false;
    for (k, d) in it { match d { Yes(v) => out.push((k, b(v))), No => return Err(No), Open => open = true } }
    if open { Err(Open) } else { Ok(out) }
}
fn key(k: &str) -> Option<usize> {
    if !k.is_empty() && k.bytes().all(|c| c.is_ascii_digit()) && (k == "0" || !k.starts_with('0')) { k.parse().ok() } else { None }
}
fn digits(k: &str) -> bool { let t = k.strip_prefix('+').unwrap_or(k); !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) }
pub fn decode(s: &S, j: &J) -> Dec {
    let inside = |ok: bool, v: V| if symx::decide(ok) { Yes(v) } else { No };
    match (s, j) {
        (S::Real { min, max, .. }, J::Number(n)) => match n.as_f64() {
            Some(x) => inside(symx::finite(x) & min.map_or(true, |m| x >= m) & max.map_or(true, |m| x <= m), V::Real(x)),
            None => No,
        },
        (S::Int { min, max, .. }, J::Number(n)) => match n.as_i64() {
            Some(x) => inside(min.map_or(true, |m| x >= m) & max.map_or(true, |m| x <= m), V::Int(x)),
            None => No,
        },
        (S::Bool { .. }, J::Bool(x)) => Yes(V::Bool(*x)),
        (S::Enum { values, .. }, J::String(n)) => if values.contains(n) { Yes(V::Enum(n.clone())) } else { No },
        (S::Const, J::Null) => Yes(V::Const),
        (S::Sub { map }, J::Object(m)) => {
            if m.len() != map.len() || !map.keys().all(|k| m.contains_key(k)) { return No; }
            match all(m.iter().map(|(k, x)| (k.clone(), decode(&map[k], x)))) { Ok(v) => Yes(V::Sub(v.into_iter().collect())), Err(d) => d }
        }
        (S::Array { value_type, size }, J::Array(es)) => {
            if es.len() != *size { return No; }
            match all(es.iter().map(|x| ((), decode(value_type, x)))) { Ok(v) => Yes(V::Array(v.into_iter().map(|x| x.1).collect())), Err(d) => d }
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Array(es)) => {
            if min_size.map_or(false, |k| es.len() < k) || max_size.map_or(false, |k| es.len() > k) { return No; }
            match all(es.iter().enumerate().map(|(i, x)| (i, decode(value_type, x)))) { Ok(v) => Yes(V::AnonMap(v.into_iter().collect())), Err(d) => d }
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Object(m)) => {
            // unusual spellings of a number are left open
            if m.keys().any(|k| key(k).is_none() && digits(k)) { return Open; }
            if m.keys().any(|k| key(k).is_none()) { return No; }
            if min_size.map_or(false, |k| m.len() < k) || max_size.map_or(false, |k| m.len() > k) { return No; }
            match all(m.iter().map(|(k, x)| (key(k).unwrap(), decode(value_type, x)))) { Ok(v) => Yes(V::AnonMap(v.into_iter().collect())), Err(d) => d }
        }
        (S::Variant { map, .. }, J::Object(m)) => {
            if m.len() != 1 { return No; }
            let (k, x) = m.iter().next().unwrap();
            match map.get(k) { None => No, Some(sn) => match decode(sn, x) { Yes(v) => Yes(V::Variant(k.clone(), b(v))), d => d } }
        }
        (S::Optional { .. }, J::Null) => Yes(V::Optional(None)),
        (S::Optional { value_type, .. }, x) => match decode(value_type, x) { Yes(v) => Yes(V::Optional(Some(b(v)))), d => d },
        _ => No,
    }
}
/// The guess is accepted exactly if it conforms, and is read as what it says.
fn judge(s: &Spec, j: &J) {
    let got = from_json_value(j, s);
    match (decode(&s.0, j), got) {
        (Yes(v), Ok(w)) => { symx::check(same(&v, &w.0), "C11:read-as-something-else"); symx::check(conforms(&s.0, &w.0), "C11:does-not-conform"); symx::cover("accepted") }
        (Yes(_), Err(_)) => symx::check(false, "C11:conforming-guess-rejected"),
        (No, Ok(_)) => symx::check(false, "C11:nonconforming-guess-accepted"),
        (No, Err(_)) => symx::cover("rejected"),
        (Open, Ok(w)) => symx::check(conforms(&s.0, &w.0), "C11:does-not-conform"),
        (Open, Err(_)) => {}
    }
}

// ---- round trip
fn renumbered(v: &V) -> (V, J) {
    match v {
        V::Sub(m) => {
            let kids: Vec<(String, (V, J))> = m.iter().map(|(k, x)| (k.clone(), renumbered(x))).collect();
            (V::Sub(kids.iter().map(|(k, x)| (k.clone(), b(x.0.clone()))).collect()), J::Object(kids.into_iter().map(|(k, x)| (k, x.1)).collect()))
        }
        V::Array(e) => { let kids: Vec<(V, J)> = e.iter().map(|x| renumbered(x)).collect(); (V::Array(kids.iter().map(|x| b(x.0.clone())).collect()), J::Array(kids.into_iter().map(|x| x.1).collect())) }
        V::AnonMap(m) => {
            let mut ks: Vec<&usize> = m.keys().collect();
            ks.sort();
            let kids: Vec<(V, J)> = ks.into_iter().map(|k| renumbered(&m[k])).collect();
            (V::AnonMap(kids.iter().enumerate().map(|(k, x)| (k, b(x.0.clone()))).collect()), J::Array(kids.into_iter().map(|x| x.1).collect()))
        }
        V::Variant(n, x) => { let (v, j) = renumbered(x); let mut m = Map::new(); m.insert(n.clone(), j); (V::Variant(n.clone(), b(v)), J::Object(m)) }
        V::Optional(Some(x)) => { let (v, j) = renumbered(x); (V::Optional(Some(b(v))), j) }
        v => (v.clone(), json_of(v)),
    }
}
/// Some optional holds a value whose encoding is null.
fn ambiguous(v: &V) -> bool {
    match v {
        V::Optional(Some(x)) => json_of(x).is_null() || ambiguous(x),
        V::Sub(m) => m.values().any(|x| ambiguous(x)),
        V::AnonMap(m) => m.values().any(|x| ambiguous(x)),
        V::Array(m) => m.iter().any(|x| ambiguous(x)),
        V::Variant(_, x) => ambiguous(x),
        _ => false,
    }
}
fn round(s: S, c: &Cfg) {
    let s = Spec(s);
    let v = Value(any_value(&s.0, c));
    let j = v.to_json();
    symx::check(json_same(&j, &json_of(&v.0)), "C11:encoding");
    match from_json_value(&j, &s) {
        Ok(w) => {
            symx::check(conforms(&s.0, &w.0), "C11:does-not-conform");
            symx::check(json_same(&w.to_json(), &j), "C11:serialises-differently");
            if !ambiguous(&v.0) { symx::check(same(&v.0, &w.0), "C11:read-as-something-else"); }
        }
        Err(_) => symx::check(false, "C11:own-encoding-rejected"),
    }
    let (v, j) = renumbered(&v.0);
    match from_json_value(&j, &s) {
        Ok(w) => {
            symx::check(json_same(&w.to_json(), &Value(v.clone()).to_json()), "C11:array-encoding-differs");
            if !ambiguous(&v) { symx::check(same(&v, &w.0), "C11:array-encoding-read-as-something-else"); }
        }
        Err(_) => symx::check(false, "C11:array-encoding-rejected"),
    }
    symx::cover("end");
}
const NUM: Cfg = Cfg { sym_num: true, bounds: true, map: (None, None, 1), map_cap: 2, key_bases: 2 };
const NB: Cfg = Cfg { sym_num: true, bounds: true, map: (Some(1), Some(2), 1), map_cap: 2, key_bases: 2 };
const ONE: Cfg = Cfg { sym_num: true, bounds: true, map: (None, Some(2), 1), map_cap: 1, key_bases: 2 };
fn leaf() -> S { sym_int(true) }
fn shape(c: Cfg, roots: &[usize], kinds: &'static [usize]) -> S {
    let r = pick(roots);
    node(r, &c, |i| if i == 0 { let k = pick(kinds); node(k, &c, |j| if j == 0 { leaf() } else { S::Bool { init: true } }) } else { int() })
}
pub fn round_leaf() { let bounded = symx::flip("bounded"); let c = Cfg { bounds: bounded, ..NUM }; round(node(pick(LEAVES), &c, |_| int()), &c) }
pub fn round_sub() { round(shape(ONE, &[SUB], ALL), &ONE) }
pub fn round_array() { round(shape(ONE, &[ARRAY], ALL), &ONE) }
pub fn round_map() { round(shape(NUM, &[MAP], &[REAL, INT, BOOL, ENUM, CONST]), &NUM); }
pub fn round_mapnest() { round(shape(NB, &[MAP], &[SUB, ARRAY, MAP, VARIANT, OPTIONAL]), &ONE); }
pub fn round_choice() { round(shape(ONE, &[VARIANT, OPTIONAL], ALL), &ONE) }

// ---- guesses near the spec
fn num(k: usize) -> J {
    match k {
        0 => J::Number(symx::i64("num").into()),
        1 => { let x = symx::f64_fin("float"); symx::assume(symx::finite(x)); J::Number(Number::from_f64(x).unwrap()) }
        _ => { let x = symx::u64("unsigned"); symx::assume(x > i64::MAX as u64); J::Number(x.into()) }
    }
}
fn obj(kids: Vec<(&str, J)>) -> J { J::Object(kids.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
const FOREIGN: usize = 14;
fn foreign(k: usize) -> J {
    match k {
        0 => J::Null,
        1 => J::Bool(true),
        2..=4 => num(k - 2),
        5 => J::String("g".into()),
        6 => J::String("zz".into()),
        7 => J::String("7".into()),
        8 => J::Array(vec![]),
        9 => J::Array(vec![num(0)]),
        10 => J::Array(vec![num(0), num(1), J::Null]),
        11 => obj(vec![]),
        12 => obj(vec![("0", num(0))]),
        _ => obj(vec![("u", J::Bool(true))]),
    }
}
const KEYS: &[&str] = &["x", "", "-1", "1.5", "18446744073709551616", "18446744073709551615", "01", "+1", "0x1"];
/// A document for `s` with up to `dmg` defects (which may turn out to conform all the same).
fn doc(s: &S, c: &Cfg, dmg: &mut usize) -> J {
    if *dmg > 0 && symx::flip("damage") {
        *dmg -= 1;
        return damaged(s, c);
    }
    good(s, c, dmg)
}
fn good(s: &S, c: &Cfg, dmg: &mut usize) -> J {
    match s {
        S::Real { .. } => num(1),
        S::Int { .. } => num(0),
        S::Sub { map } => { let mut ks: Vec<&String> = map.keys().collect(); ks.sort(); J::Object(ks.into_iter().map(|k| (k.clone(), doc(&map[k], c, dmg))).collect()) }
        S::Array { value_type, size } => J::Array((0..*size).map(|_| doc(value_type, c, dmg)).collect()),
        S::AnonMap { value_type, min_size, max_size, .. } => {
            let lo = min_size.unwrap_or(0);
            let hi = max_size.unwrap_or(2).min(c.map_cap.max(lo));
            let n = lo + symx::choose(hi - lo + 1, "size");
            let kids: Vec<J> = (0..n).map(|_| doc(value_type, c, dmg)).collect();
            if symx::flip("as-array") { J::Array(kids) } else { J::Object(kids.into_iter().enumerate().map(|(i, x)| ((i * 3).to_string(), x)).collect()) }
        }
        S::Variant { map, .. } => {
            let mut ks: Vec<&String> = map.keys().collect();
            ks.sort();
            let k = ks[symx::choose(ks.len(), "option")];
            obj(vec![(k, doc(&map[k], c, dmg))])
        }
        S::Optional { value_type, .. } => if symx::flip("present") { doc(value_type, c, dmg) } else { J::Null },
        leaf => json_of(&any_value(leaf, c)),
    }
}
fn damaged(s: &S, c: &Cfg) -> J {
    let own = match s { S::Sub { .. } => 4, S::Array { .. } => 3, S::AnonMap { .. } => 4 + KEYS.len(), S::Variant { .. } => 3, S::Enum { .. } => 2, _ => 0 };
    let k = symx::choose(FOREIGN + own, "defect");
    if k < FOREIGN { return foreign(k); }
    let k = k - FOREIGN;
    let mut none = 0;
    match s {
        S::Sub { map } => {
            let mut ks: Vec<&String> = map.keys().collect();
            ks.sort();
            let mut m: Map<String, J> = ks.iter().map(|k| (k.to_string(), good(&map[*k], c, &mut none))).collect();
            match k { 0 => { m.remove(ks[0]); } 1 => { m.remove(ks[1]); } 2 => { m.insert("extra".into(), J::Null); } _ => { let x = m.remove(ks[0]).unwrap(); m.insert(format!("{}x", ks[0]), x); } }
            J::Object(m)
        }
        S::Array { value_type, size } => J::Array((0..[size - 1, size + 1, 0][k]).map(|_| good(value_type, c, &mut none)).collect()),
        S::AnonMap { value_type, min_size, max_size, .. } => {
            let (lo, hi) = (min_size.unwrap_or(0), max_size.unwrap_or(3));
            if k < 4 {
                let n = if k % 2 == 0 { lo.max(1) - 1 } else { hi + 1 };
                let kids: Vec<J> = (0..n).map(|_| good(value_type, c, &mut none)).collect();
                if k < 2 { J::Array(kids) } else { J::Object(kids.into_iter().enumerate().map(|(i, x)| ((i + 9).to_string(), x)).collect()) }
            } else {
                let mut m = Map::new();
                if symx::flip("beside") { m.insert("1".into(), good(value_type, c, &mut none)); }
                m.insert(KEYS[k - 4].into(), good(value_type, c, &mut none));
                J::Object(m)
            }
        }
        S::Variant { map, .. } => {
            let mut ks: Vec<&String> = map.keys().collect();
            ks.sort();
            match k { 0 => obj(vec![("unknown", good(&map[ks[0]], c, &mut none))]), 1 => J::Object(ks.iter().map(|k| (k.to_string(), good(&map[*k], c, &mut none))).collect()), _ => J::String(ks[0].clone()) }
        }
        _ => J::String(["", "G"][k].into()),
    }
}
fn near(s: S, c: &Cfg, mut dmg: usize) { let s = Spec(s); let j = doc(&s.0, c, &mut dmg); judge(&s, &j); symx::cover("end") }
pub fn near_leaf() { let bounded = symx::flip("bounded"); let c = Cfg { bounds: bounded, ..NUM }; near(node(pick(LEAVES), &c, |_| int()), &c, 1) }
pub fn near_sub() { near(shape(ONE, &[SUB], ALL), &ONE, 1) }
pub fn near_array() { near(shape(ONE, &[ARRAY], ALL), &ONE, 1) }
pub fn near_map() { near(shape(NUM, &[MAP], &[REAL, INT, BOOL, ENUM, CONST]), &NUM, 1) }
pub fn near_mapnest() { near(shape(NB, &[MAP], &[SUB, ARRAY, MAP, VARIANT, OPTIONAL]), &ONE, 1) }
pub fn near_choice() { near(shape(NB, &[VARIANT, OPTIONAL], ALL), &ONE, 1) }
pub fn near_two() { near(shape(ONE, &[SUB, ARRAY, MAP, VARIANT, OPTIONAL], &[INT, ENUM, MAP, OPTIONAL]), &ONE, 2) }

// ---- any document at all
fn any_doc(depth: usize, leaves: &[usize]) -> J {
    let k = symx::choose(if depth == 0 { leaves.len() } else { leaves.len() + 2 }, "json");
    if k < leaves.len() { return foreign(leaves[k]); }
    let n = symx::choose(3, "len");
    if k == leaves.len() { return J::Array((0..n).map(|i| any_doc(if i == 0 { depth - 1 } else { 0 }, leaves)).collect()); }
    let mut m = Map::new();
    for i in 0..n { let k = if i == 0 { ["p", "u", "0", "q"] } else { ["q", "w", "5", "zz"] }[symx::choose(4, "key")]; m.insert(k.into(), any_doc(if i == 0 { depth - 1 } else { 0 }, leaves)); }
    J::Object(m)
}
pub fn any_leafs() { let s = Spec(shape(NB, ALL, &[INT])); let j = any_doc(1, &[0, 1, 2, 3, 4, 5, 6, 7]); judge(&s, &j); symx::cover("end") }
pub fn any_deep() { let s = Spec(shape(NB, &[SUB, ARRAY, MAP, VARIANT, OPTIONAL], &[OPTIONAL, MAP])); let j = any_doc(2, &[0, 2]); judge(&s, &j); symx::cover("end") }

// ---- before anything is evaluated
fn conf(spec: S, init: Option<J>) -> Conf { Conf { spec, sample: 1, conc: 2, n: Some(4), target: None, init, honour: true, report_cap: 256 } }
pub fn guess_run() {
    let c = NB;
    let s = shape(c, &[SUB, ARRAY, MAP], &[INT, MAP]);
    let mut dmg = 1;
    let j = doc(&s, &c, &mut dmg);
    let mut r = start(conf(s.clone(), Some(j.clone())));
    r.drive();
    match decode(&s, &j) {
        Yes(v) => { symx::check(r.result.is_none() && r.evs().len() > 0, "C11:conforming-guess-rejected"); symx::check(json_same(&r.evs()[0].json, &json_of(&v)), "C11:first-is-not-the-guess"); symx::cover("started") }
        No => { symx::check(r.evs().is_empty(), "C11:evaluated-despite-bad-guess"); symx::check(matches!(r.result, Some(Err(_))), "C11:bad-guess-not-reported"); symx::cover("refused") }
        Open => {}
    }
    symx::cover("end");
}
/// The spec's own initial value as the guess, against no guess.
fn lockstep(s: S, warm: usize, more: usize) {
    let init = json_of(&init_of(&s));
    let mk = |i: Option<J>| { let mut c = conf(s.clone(), i); c.n = Some(warm + more); start(c) };
    let (mut x, mut y) = (mk(None), mk(Some(init)));
    let mut k = 0;
    loop {
        x.drive();
        y.drive();
        same_so_far(&x, &y);
        if x.result.is_some() { break; }
        let open = x.open();
        if open.is_empty() { break; }
        let (i, o) = if k < warm { (open[0], Out::Accept(((k * 7) % 5) as f64)) } else {
            let i = open[symx::choose(open.len(), "event")];
            (i, if symx::flip("accept") { Out::Accept(symx::f64_mag("val", 1e300)) } else { Out::Reject })
        };
        k += 1;
        x.finish(i, o);
        y.finish(i, o);
    }
    match (&x.result, &y.result) {
        (Some(Ok(p)), Some(Ok(q))) => symx::check(json_same(&p.best_seen.value, &q.best_seen.value) & (p.best_seen.obj_func_val.to_bits() == q.best_seen.obj_func_val.to_bits()) & (p.num_obj_func_eval_completed == q.num_obj_func_eval_completed), "C11:report-differs"),
        (Some(Err(_)), Some(Err(_))) => {}
        _ => symx::check(false, "C11:result-differs"),
    }
    symx::cover("end");
}
fn same_so_far(x: &Run, y: &Run) {
    let (a, c) = (x.evs(), y.evs());
    symx::check(a.len() == c.len(), "C11:run-differs");
    for (p, q) in a.iter().zip(c.iter()) { symx::check((p.id == q.id) & (p.seed == q.seed) & json_same(&p.json, &q.json), "C11:run-differs"); }
    symx::check(x.result.is_some() == y.result.is_some(), "C11:run-differs");
}
fn many() -> S {
    let k = pick(&[SUB, ARRAY, MAP, VARIANT, OPTIONAL]);
    let c = Cfg { map: (Some(1), Some(4), 2), ..CFG };
    sub(vec![("a", node(k, &c, |i| if i == 0 { let k = pick(&[REAL, BOOL, MAP, VARIANT]); node(k, &c, |_| int()) } else { int() })), ("z", S::AnonMap { value_type: b(real()), init_size: 3, min_size: None, max_size: None })])
}
pub fn same_run() { lockstep(rich(), 0, 4) }
pub fn same_run_many() { lockstep(many(), 3, 2) }
pub fn same_run_long() { lockstep(rich(), 40, 2) }

// ---- through text
pub fn text() {
    let n = [symx::u8("c0"), symx::u8("c1")];
    symx::assume((n[0] < 128) & (n[1] < 128));
    let name = String::from_utf8(n.to_vec()).unwrap();
    let s = Spec(S::Enum { values: vec!["r".into(), name.clone()], init: "r".into() });
    let t = Value(V::Enum(name.clone())).to_json().to_string();
    match from_json_str(&t, &s) { Ok(Value(V::Enum(x))) => symx::check(x == name, "C11:text-differs"), _ => symx::check(false, "C11:own-text-rejected") }
    symx::cover("end");
}
fn text_of(s: &Spec, v: V) -> Option<V> { from_json_str(&Value(v).to_json().to_string(), s).ok().map(|w| w.0) }
/// Numbers through text: integers (symbolic), and some reals.
pub fn text_int() {
    let s = Spec(S::Int { init: 0, scale: 1.0, min: None, max: None });
    let k = symx::bits(8, "k") as u8 as i8 as i64;
    match text_of(&s, V::Int(k)) { Some(V::Int(x)) => symx::check(x == k, "C11:text-differs"), _ => symx::check(false, "C11:own-text-rejected") }
    symx::cover("end");
}
const EXACT: &[f64] = &[0.0, -0.0, 1.5, -0.1, 123456.789, 1e22, 4.5e-7, 9007199254740992.0, 1e-10];
const SEVENTEEN: &[f64] = &[-1.6797147598904503, 5.8561809917293355e-241, -2.2783162035019427e170];
pub fn text_real() {
    let s = Spec(real());
    let k = symx::choose(EXACT.len() + SEVENTEEN.len(), "which");
    let x = if k < EXACT.len() { EXACT[k] } else { SEVENTEEN[k - EXACT.len()] };
    match text_of(&s, V::Real(x)) {
        Some(V::Real(y)) => {
            let d = (x.to_bits() as i64).wrapping_sub(y.to_bits() as i64).abs();
            symx::check(d <= 1, "C11:text-real-far-off");
            symx::check(d == 0, if k < EXACT.len() { "C11:text-real-short-literal-changed" } else { "C11:text-real-17-digits-changed" });
        }
        _ => symx::check(false, "C11:own-text-rejected"),
    }
    symx::cover("end");
}
/// Keys that need quoting, through text.
const HOSTILE: &[&str] = &["a\"b", "\\", "\u{0}", "\u{e9}", "\n", "", "{\"u\":1}", "$(x)", "' '", "\u{1f600}"];
pub fn text_keys() {
    let (p, q) = (symx::choose(HOSTILE.len(), "p"), symx::choose(HOSTILE.len(), "q"));
    if p == q { symx::kill(); }
    let s = Spec(if symx::flip("sub") { sub(vec![(HOSTILE[p], S::Bool { init: true }), (HOSTILE[q], S::AnonMap { value_type: b(S::Const), init_size: 1, min_size: None, max_size: None })]) } else { variant(vec![(HOSTILE[p], S::Optional { value_type: b(S::Bool { init: true }), init_present: true }), (HOSTILE[q], S::Const)], HOSTILE[q]) });
    let v = any_value(&s.0, &CFG);
    match text_of(&s, v.clone()) { Some(w) => symx::check(same(&v, &w), "C11:text-differs"), None => symx::check(false, "C11:own-text-rejected") }
    symx::cover("end");
}
