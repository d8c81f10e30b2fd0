//! C10: spec documents.  The document is a YAML tree whose structure is chosen and whose numbers
//! are symbolic; `reference` says what it means.
use crate::gen::{b, conforms, init_of, pick, ALL, ARRAY, BOOL, CONST, ENUM, INT, LEAVES, MAP, OPTIONAL, REAL, SUB, VARIANT};
use cambrian::error::Error;
use cambrian::spec::{Node as S, Spec};
use cambrian::spec_util::from_yaml_str;
use serde_yaml::{Mapping, Value as Y};

fn st(s: &str) -> Y { Y::String(s.into()) }
fn map(kids: Vec<(&str, Y)>) -> Y { Y::Mapping(kids.into_iter().map(|(k, v)| (st(k), v)).collect()) }
fn get<'a>(m: &'a Mapping, k: &str) -> Option<&'a Y> { m.iter().find(|(x, _)| x.as_str() == Some(k)).map(|(_, v)| v) }
fn only(m: &Mapping, ks: &[&str]) -> bool { m.keys().all(|k| ks.contains(&k.as_str().unwrap())) }

type Scope = Vec<(String, S)>;
fn f(m: &Mapping, k: &str) -> Option<Option<f64>> {
    match get(m, k) {
        None => Some(None),
        Some(Y::Number(n)) => { let x = n.as_f64().unwrap(); if symx::decide(symx::finite(x)) { Some(Some(x)) } else { None } }
        _ => None,
    }
}
fn i(m: &Mapping, k: &str) -> Option<Option<i64>> {
    match get(m, k) { None => Some(None), Some(Y::Number(n)) => n.as_i64().map(Some), _ => None }
}
fn u(m: &Mapping, k: &str) -> Option<Option<usize>> {
    match get(m, k) { None => Some(None), Some(Y::Number(n)) => n.as_u64().map(|x| Some(x as usize)), _ => None }
}
fn when(ok: bool, s: S) -> Option<S> { if symx::decide(ok) { Some(s) } else { None } }
fn lt<T: PartialOrd + Copy>(a: Option<T>, c: Option<T>) -> bool { match (a, c) { (Some(a), Some(c)) => a < c, _ => true } }
fn within<T: PartialOrd + Copy>(x: T, a: Option<T>, c: Option<T>) -> bool { a.map_or(true, |a| a <= x) & c.map_or(true, |c| x <= c) }
const BUILTIN: &[&str] = &["real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const"];

/// The parameter space a document declares, or None if it must be rejected.
pub fn reference(y: &Y, scope: &Scope) -> Option<S> {
    let m = match y { Y::Mapping(m) => m, _ => return None };
    if m.keys().any(|k| k.as_str().is_none()) { return None; }
    let ty = match get(m, "type") { None => "sub", Some(Y::String(s)) => s.as_str(), _ => return None };
    let inner = |m: &Mapping| get(m, "valueType").and_then(|v| reference(v, scope));
    match ty {
        "real" => {
            if !only(m, &["type", "min", "max", "scale", "init"]) { return None; }
            let (min, max, init, scale) = (f(m, "min")?, f(m, "max")?, f(m, "init")??, f(m, "scale")??);
            when(lt(min, max) & within(init, min, max) & (scale > 0.0), S::Real { init, scale, min, max })
        }
        "int" => {
            if !only(m, &["type", "min", "max", "scale", "init"]) { return None; }
            let (min, max, init, scale) = (i(m, "min")?, i(m, "max")?, i(m, "init")??, f(m, "scale")??);
            when(lt(min, max) & within(init, min, max) & (scale > 0.0), S::Int { init, scale, min, max })
        }
        "bool" => if only(m, &["type", "init"]) { match get(m, "init") { Some(Y::Bool(x)) => Some(S::Bool { init: *x }), _ => None } } else { None },
        "const" => if only(m, &["type"]) { Some(S::Const) } else { None },
        "sub" => {
            let mut scope = scope.clone();
            for (k, v) in m {
                if let Some(name) = k.as_str().unwrap().strip_prefix("typeDef ") {
                    if BUILTIN.contains(&name) { return None; }
                    let s = reference(v, &scope)?;
                    scope.push((name.into(), s));
                }
            }
            let mut kids = vec![];
            for (k, v) in m {
                let k = k.as_str().unwrap();
                if k != "type" && !k.starts_with("typeDef ") { kids.push((k.to_string(), b(reference(v, &scope)?))); }
            }
            if kids.is_empty() { None } else { Some(S::Sub { map: kids.into_iter().collect() }) }
        }
        "array" => {
            if !only(m, &["type", "size", "valueType"]) { return None; }
            let (value_type, size) = (b(inner(m)?), u(m, "size")??);
            when(size >= 2, S::Array { value_type, size })
        }
        "anon map" => {
            if !only(m, &["type", "initSize", "minSize", "maxSize", "valueType"]) { return None; }
            let (value_type, min_size, max_size, init_size) = (b(inner(m)?), u(m, "minSize")?, u(m, "maxSize")?, u(m, "initSize")??);
            when(lt(min_size, max_size) & max_size.map_or(true, |x| x > 0) & within(init_size, min_size, max_size), S::AnonMap { value_type, init_size, min_size, max_size })
        }
        "variant" => {
            let init = match get(m, "init") { Some(Y::String(s)) => s.clone(), _ => return None };
            let mut kids = vec![];
            for (k, v) in m { let k = k.as_str().unwrap(); if k != "type" && k != "init" { kids.push((k.to_string(), b(reference(v, scope)?))); } }
            if kids.len() < 2 || !kids.iter().any(|k| k.0 == init) { None } else { Some(S::Variant { map: kids.into_iter().collect(), init }) }
        }
        "enum" => {
            if !only(m, &["type", "init", "values"]) { return None; }
            let init = match get(m, "init") { Some(Y::String(s)) => s.clone(), _ => return None };
            let mut values = vec![];
            match get(m, "values") { Some(Y::Sequence(v)) => for x in v { match x { Y::String(s) => values.push(s.clone()), _ => return None } }, _ => return None }
            if !values.iter().any(|v| *v != values[0]) || !values.contains(&init) { None } else { Some(S::Enum { values, init }) }
        }
        "optional" => {
            if !only(m, &["type", "initPresent", "valueType"]) { return None; }
            let value_type = b(inner(m)?);
            match get(m, "initPresent") { Some(Y::Bool(x)) => Some(S::Optional { value_type, init_present: *x }), _ => None }
        }
        t => if only(m, &["type"]) { scope.iter().rev().find(|d| d.0 == t).map(|d| d.1.clone()) } else { None },
    }
}
fn fsame(a: Option<f64>, c: Option<f64>) -> bool { match (a, c) { (Some(a), Some(c)) => a.to_bits() == c.to_bits(), (None, None) => true, _ => false } }
fn osame<T: PartialEq>(a: Option<T>, c: Option<T>) -> bool { match (a, c) { (Some(a), Some(c)) => a == c, (None, None) => true, _ => false } }
pub fn same_spec(a: &S, c: &S) -> bool {
    match (a, c) {
        (S::Real { init, scale, min, max }, S::Real { init: i2, scale: s2, min: m2, max: x2 }) => (init.to_bits() == i2.to_bits()) & (scale.to_bits() == s2.to_bits()) & fsame(*min, *m2) & fsame(*max, *x2),
        (S::Int { init, scale, min, max }, S::Int { init: i2, scale: s2, min: m2, max: x2 }) => (init == i2) & (scale.to_bits() == s2.to_bits()) & osame(*min, *m2) & osame(*max, *x2),
        (S::Bool { init }, S::Bool { init: i2 }) => init == i2,
        (S::Const, S::Const) => true,
        (S::Enum { values, init }, S::Enum { values: v2, init: i2 }) => values == v2 && init == i2,
        (S::Sub { map }, S::Sub { map: m2 }) => map.len() == m2.len() && { let mut ok = true; for (k, x) in map { ok &= match m2.get(k) { Some(y) => same_spec(x, y), None => false }; } ok },
        (S::Variant { map, init }, S::Variant { map: m2, init: i2 }) => init == i2 && map.len() == m2.len() && { let mut ok = true; for (k, x) in map { ok &= match m2.get(k) { Some(y) => same_spec(x, y), None => false }; } ok },
        (S::Array { value_type, size }, S::Array { value_type: v2, size: s2 }) => (size == s2) & same_spec(value_type, v2),
        (S::AnonMap { value_type, init_size, min_size, max_size }, S::AnonMap { value_type: v2, init_size: i2, min_size: m2, max_size: x2 }) => (init_size == i2) & osame(*min_size, *m2) & osame(*max_size, *x2) & same_spec(value_type, v2),
        (S::Optional { value_type, init_present }, S::Optional { value_type: v2, init_present: i2 }) => (init_present == i2) & same_spec(value_type, v2),
        _ => false,
    }
}
/// The rules of the statement, directly.
pub fn wellformed(s: &S) -> bool {
    let o = |x: Option<f64>| x.map_or(true, symx::finite);
    match s {
        S::Real { init, scale, min, max } => symx::finite(*init) & symx::finite(*scale) & o(*min) & o(*max) & lt(*min, *max) & within(*init, *min, *max) & (*scale > 0.0),
        S::Int { init, scale, min, max } => symx::finite(*scale) & lt(*min, *max) & within(*init, *min, *max) & (*scale > 0.0),
        S::Bool { .. } | S::Const => true,
        S::Enum { values, init } => values.iter().any(|v| *v != values[0]) && values.contains(init),
        S::Sub { map } => { let mut ok = true; for x in map.values() { ok &= wellformed(x); } ok }
        S::Variant { map, init } => { let mut ok = map.len() >= 2 && map.contains_key(init); for x in map.values() { ok &= wellformed(x); } ok }
        S::Array { value_type, size } => (*size >= 2) & wellformed(value_type),
        S::AnonMap { value_type, init_size, min_size, max_size } => lt(*min_size, *max_size) & within(*init_size, *min_size, *max_size) & wellformed(value_type),
        S::Optional { value_type, .. } => wellformed(value_type),
    }
}
fn parse(y: &Y) -> Result<Spec, Error> {
    if cfg!(feature = "native") { from_yaml_str(&serde_yaml::to_string(y).unwrap()) } else { serde_yaml::install_tree(y.clone()); from_yaml_str("") }
}
pub fn judge(y: &Y) {
    match (reference(y, &vec![]), parse(y)) {
        (Some(s), Ok(t)) => { symx::check(same_spec(&s, &t.0), "C10:not-the-space-written"); symx::check(wellformed(&t.0), "C10:ill-formed"); symx::cover("accepted") }
        (Some(_), Err(_)) => symx::check(false, "C10:good-document-rejected"),
        (None, Ok(t)) => { symx::check(wellformed(&t.0), "C10:ill-formed"); symx::check(false, "C10:bad-document-accepted") }
        (None, Err(_)) => symx::cover("rejected"),
    }
    symx::cover("end");
}

// ---- numbers
fn num(k: usize, name: &str) -> Y {
    let small = symx::flag(950) == 1 || name == "scale";
    match k {
        0 if small => Y::Number((symx::bits(16, name) as u16 as i16 as i64).into()),
        0 => Y::Number(symx::i64(name).into()),
        2 if small => Y::Number((i64::MAX as u64 + 1).into()),
        1 => Y::Number(symx::f64(name).into()),
        _ => { let x = symx::u64(name); symx::assume(x > i64::MAX as u64); Y::Number(x.into()) }
    }
}
fn odd(k: usize) -> Y { match k { 0 => st("1"), 1 => Y::Null, 2 => Y::Bool(true), 3 => Y::Sequence(vec![Y::Number(1.into())]), _ => map(vec![("type", st("const"))]) } }
const ODD: usize = 5;
/// A mapping with the numeric attributes `ks`; one of them may be something else.
fn attrs(mut base: Vec<(&'static str, Y)>, ks: &[&'static str], kinds: usize) -> Y {
    let k = symx::choose(ks.len() + 2, "odd");
    if k < ks.len() {
        for (j, a) in ks.iter().enumerate() { base.push((a, if j == k { odd(symx::choose(ODD, "what")) } else { Y::Number(2.into()) })); }
    } else {
        for a in ks { let c = symx::choose(kinds + 1, "as"); if c < kinds { base.push((a, num(c, a))); } }
        if k == ks.len() + 1 { base.push((["Min", "size", "typeDef q", ""][symx::choose(4, "extra")], Y::Bool(true))); }
    }
    map(base)
}
pub fn number() { judge(&attrs(vec![("type", st("int"))], &["min", "max", "init", "scale"], 3)) }
/// Whole numbers given for a real are small here, so that their conversion is exact.
pub fn number_real() { symx::set_flag(950, 1); judge(&attrs(vec![("type", st("real"))], &["min", "max", "init", "scale"], 3)) }
pub fn sizes() {
    let mut base = vec![("type", st("anon map"))];
    match symx::choose(4, "vt") { 0 => {} 1 => base.push(("valueType", st("const"))), 2 => base.push(("valueType", map(vec![("type", st("bool")), ("init", Y::Bool(true))]))), _ => base.push(("valueType", map(vec![("type", st("bool"))]))) }
    judge(&attrs(base, &["minSize", "maxSize", "initSize"], 3));
}
pub fn array() {
    let mut base = vec![("type", st("array"))];
    if symx::flip("vt") { base.push(("valueType", map(vec![("type", st("const"))]))); }
    judge(&attrs(base, &["size"], 3));
}
// ---- names
pub fn choices() {
    let t = symx::choose(2, "t");
    let mut m = vec![("type", st(["enum", "variant"][t]))];
    match symx::choose(5, "init") { 0 => {} k @ 1..=3 => m.push(("init", st(["a", "b", "zz"][k - 1]))), _ => m.push(("init", Y::Bool(true))) }
    let n = symx::choose(4, "n");
    if t == 0 {
        let vs: Vec<Y> = (0..n).map(|_| match symx::choose(4, "v") { 3 => Y::Number(1.into()), k => st(["a", "b", ""][k]) }).collect();
        if !symx::flip("no-values") { m.push(("values", if symx::flip("list") { Y::Sequence(vs) } else { st("ab") })); }
        if symx::flip("extra") { m.push(("scale", Y::Number(1.into()))); }
    } else {
        for k in &["a", "", "typeDef b", "values"][..n] { m.push((k, match symx::choose(3, "o") { 0 => map(vec![("type", st("const"))]), 1 => map(vec![("type", st("bool")), ("init", Y::Bool(false))]), _ => st("const") })); }
    }
    judge(&map(m));
}
pub fn flags() {
    let t = ["bool", "optional", "const", "sub", "nothing", "Bool", ""][symx::choose(7, "t")];
    let mut m = vec![("type", st(t))];
    for k in ["init", "initPresent", "valueType", "x"] {
        match symx::choose(4, k) { 0 => {} 1 => m.push((k, Y::Bool(true))), 2 => m.push((k, Y::Number(1.into()))), _ => m.push((k, map(vec![("type", st("const"))]))) }
    }
    judge(&map(m));
}
/// Documents that are no mapping, and mappings whose type or keys are odd.
pub fn odd_docs() {
    let y = match symx::choose(4, "shape") {
        0 => odd(symx::choose(4, "what")),
        1 => num(symx::choose(3, "n"), "n"),
        2 => map(vec![("type", [odd(1), odd(2), odd(3), odd(4), Y::Number(1.into())][symx::choose(5, "ty")].clone()), ("x", odd(4))]),
        _ => {
            let mut m = Mapping::new();
            m.insert(st("type"), st(["sub", "variant", "real", "array", "anon map", "enum", "optional", "const", "bool"][symx::choose(9, "ty")]));
            m.insert([Y::Null, Y::Bool(false), Y::Number(7.into()), Y::Sequence(vec![]), odd(4)][symx::choose(5, "key")].clone(), odd(4));
            if symx::flip("more") { m.insert(st("a"), odd(4)); m.insert(st("b"), odd(4)); m.insert(st("init"), st("a")); }
            Y::Mapping(m)
        }
    };
    judge(&y);
}
// ---- type definitions
fn leafdef(k: i64) -> Y { map(vec![("type", st("int")), ("init", Y::Number(k.into())), ("scale", Y::Number(1.into()))]) }
fn use_of(t: &str) -> Y { map(vec![("type", st(t))]) }
fn named(of: &[&'static str]) -> &'static str { of[symx::choose(of.len(), "uses")] }
fn ty(t: &str) -> Y { if t == "int" { leafdef(9) } else { use_of(t) } }
fn wrap(k: usize, y: Y) -> Y {
    match k {
        0 => y,
        1 => map(vec![("type", st("array")), ("size", Y::Number(2.into())), ("valueType", y)]),
        2 => map(vec![("type", st("anon map")), ("initSize", Y::Number(1.into())), ("valueType", y)]),
        3 => map(vec![("type", st("optional")), ("initPresent", Y::Bool(true)), ("valueType", y)]),
        4 => map(vec![("type", st("variant")), ("init", st("a")), ("a", y), ("b", leafdef(5))]),
        5 => map(vec![("k", y)]),
        6 => map(vec![("type", st("sub")), ("typeDef W", leafdef(6)), ("k", y), ("l", use_of("W"))]),
        _ => map(vec![("type", st("sub")), ("typeDef W", y), ("l", use_of("W"))]),
    }
}
/// Definitions at two levels, shadowing, uses before, inside and after the inner scope.
pub fn scopes() {
    let mut outer = vec![];
    let late = symx::flip("late");
    let dt = symx::flip("defT");
    let defs: Vec<(&str, Y)> = if dt { vec![("typeDef T", leafdef(1)), ("typeDef U", wrap(symx::choose(2, "inU") * 2, ty(named(&["T", "int"]))))] } else { vec![("typeDef T", wrap(3, leafdef(2)))] };
    if !late { outer.extend(defs.clone()); }
    outer.push(("p", ty(named(&["T", "zz"]))));
    let mut inner = vec![];
    if symx::flip("shadow") { inner.push(("typeDef T", wrap(symx::choose(2, "inT") * 3, if symx::flip("self") { use_of("T") } else { leafdef(3) }))); }
    inner.push(("r", ty(named(&["T", "U"]))));
    if symx::flip("innerU") { inner.push(("typeDef U", use_of("T"))); }
    outer.push(("q", wrap([0, 4, 7][symx::choose(3, "wrapped")], map(inner))));
    if late { outer.extend(defs); }
    outer.push(("w", ty(["T", "U"][symx::choose(2, "after")])));
    judge(&map(outer));
}
/// Names that look like keywords.
pub fn keywords() {
    const K: &[&str] = &["typeDef", "typeDefs", "typeDefX", "typeDef ", "typeDef  T", "typedef T", "TypeDef T", "init", "values", "valueType", "type ", "", "typeDef real", "typeDef anon map", "typeDef anon", "typeDef \u{e9}", "sub", "<<", "typeDef\tT", " typeDef T"];
    let k = K[symx::choose(K.len(), "key")];
    let uses = ["T", "", " T", "anon", "\u{e9}", "int"][symx::choose(6, "uses")];
    let member = ty(uses);
    let m = match symx::choose(3, "order") { 0 => vec![(k, leafdef(1)), ("m", member)], 1 => vec![("m", member), (k, leafdef(1))], _ => vec![(k, leafdef(1))] };
    judge(&wrap(symx::choose(8, "wrapped"), map(m)));
}
// ---- any well-formed spec, with at most one defect somewhere
fn render(s: &S, dmg: &mut usize) -> Y {
    let n = |x: usize| Y::Number((x as u64).into());
    let mut m: Vec<(&str, Y)> = match s {
        S::Real { .. } => vec![("type", st("real")), ("init", num(1, "init")), ("scale", num(1, "scale")), ("min", num(1, "min")), ("max", num(1, "max"))],
        S::Int { .. } => vec![("type", st("int")), ("init", num(0, "init")), ("scale", num(0, "scale")), ("min", num(0, "min")), ("max", num(0, "max"))],
        S::Bool { init } => vec![("type", st("bool")), ("init", Y::Bool(*init))],
        S::Const => vec![("type", st("const"))],
        S::Enum { values, init } => vec![("type", st("enum")), ("init", st(init)), ("values", Y::Sequence(values.iter().map(|v| st(v)).collect()))],
        S::Sub { map } => { let mut ks: Vec<&String> = map.keys().collect(); ks.sort(); ks.into_iter().map(|k| (k.as_str(), render(&map[k], dmg))).collect() }
        S::Array { value_type, .. } => vec![("type", st("array")), ("size", num(0, "size")), ("valueType", render(value_type, dmg))],
        S::AnonMap { value_type, init_size, .. } => vec![("type", st("anon map")), ("initSize", n(*init_size)), ("maxSize", num(0, "maxsize")), ("valueType", render(value_type, dmg))],
        S::Variant { map, init } => { let mut ks: Vec<&String> = map.keys().collect(); ks.sort(); let mut m = vec![("type", st("variant")), ("init", st(init))]; m.extend(ks.into_iter().map(|k| (k.as_str(), render(&map[k], dmg)))); m }
        S::Optional { value_type, init_present } => vec![("type", st("optional")), ("initPresent", Y::Bool(*init_present)), ("valueType", render(value_type, dmg))],
    };
    if *dmg > 0 && symx::flip("damage") {
        *dmg -= 1;
        let k = symx::choose(6, "defect");
        match k {
            0 => return odd(symx::choose(4, "what")),
            1 => { let a = symx::choose(m.len(), "attr"); m.remove(a); }
            2 => { let a = symx::choose(m.len(), "attr"); m[a].1 = odd(symx::choose(ODD, "what")); }
            3 => m.push((["extra", "min", "init", "valueType", "typeDef Z"][symx::choose(5, "key")], odd([1, 4][symx::choose(2, "what")]))),
            4 => { let a = symx::choose(m.len(), "attr"); m[a].0 = ["typ", "Init", "typeDefZ"][symx::choose(3, "key")]; }
            _ => { m.retain(|a| a.0 != "type"); m.insert(0, ("type", st(["Real", "zz", "", "map", "sub", "const", "real"][symx::choose(7, "ty")]))); }
        }
        // no duplicate keys: the text layer rejects those
        let mut seen: Vec<&str> = vec![];
        for (k, _) in &m { if seen.contains(k) { symx::kill(); } seen.push(k); }
    }
    map(m)
}
fn general(roots: &[usize], kids: &'static [usize], dmg: usize) {
    let c = crate::gen::CFG;
    let r = pick(roots);
    let s = crate::gen::node(r, &c, |j| if j == 0 { let k = pick(kids); crate::gen::node(k, &c, |l| if l == 0 { crate::gen::int() } else { S::Bool { init: true } }) } else { S::Const });
    let mut d = dmg;
    judge(&render(&s, &mut d));
}
pub fn gen_sub() { general(&[SUB], ALL, 1) }
pub fn gen_array() { general(&[ARRAY, MAP], &[REAL, BOOL, ENUM, CONST, SUB, VARIANT, OPTIONAL], 1) }
pub fn gen_choice() { general(&[VARIANT, OPTIONAL], ALL, 1) }
pub fn gen_leaf() { general(LEAVES, LEAVES, 1) }
pub fn gen_two() { general(&[SUB, MAP, VARIANT, OPTIONAL], &[INT, BOOL, ENUM, CONST, SUB, OPTIONAL], 2) }
pub fn gen_wrapped() { let k = symx::choose(8, "wrapped"); let c = crate::gen::CFG; let s = crate::gen::node(pick(&[REAL, INT, ENUM]), &c, |_| S::Const); let mut d = 0; judge(&wrap(k, render(&s, &mut d))) }
// ---- attribute soup
pub fn soup() {
    const K: &[&str] = &["type", "init", "min", "scale", "size", "valueType", "values", "initSize", "typeDef T", "foo"];
    let n = 1 + symx::choose(3, "n");
    let mut m = vec![];
    let mut at = 0;
    for _ in 0..n {
        if at >= K.len() { symx::kill(); }
        let k = at + symx::choose(K.len() - at, "key");
        at = k + 1;
        let v = if k == 0 { st(["T", "real", "int", "bool", "anon map", "array", "variant", "enum", "optional", "sub"][symx::choose(10, "t")]) } else { match symx::choose(5, "v") { 0 => num(0, "n"), 1 => num(1, "f"), 2 => st("foo"), 3 => Y::Sequence(vec![st("foo"), st("bar")]), _ => map(vec![("type", st("const"))]) } };
        m.push((K[k], v));
    }
    judge(&map(m));
}
/// What is accepted has a conforming initial value (sizes small enough to build it).
pub fn initial() {
    let c = crate::gen::Cfg { map: (Some(1), Some(3), 2), ..crate::gen::CFG };
    let s = crate::gen::node(pick(ALL), &c, |j| if j == 0 { crate::gen::node(pick(ALL), &c, |_| crate::gen::int()) } else { S::Const });
    let mut d = 0;
    let y = render(&s, &mut d);
    if let Ok(t) = parse(&y) {
        if let S::Array { size, .. } = &t.0 { if !symx::decide(*size <= 2) { symx::kill(); } }
        if deep_array(&t.0, true) { symx::kill(); }
        symx::check(conforms(&t.0, &init_of(&t.0)), "C10:initial-value");
        symx::check(crate::gen::same(&t.initial_value().0, &init_of(&t.0)), "C10:initial-value");
        symx::cover("accepted");
    }
}
fn deep_array(s: &S, root: bool) -> bool {
    match s {
        S::Array { size, value_type } => !root && !symx::decide(*size <= 2) || deep_array(value_type, false),
        S::Sub { map } | S::Variant { map, .. } => map.values().any(|x| deep_array(x, false)),
        S::AnonMap { value_type, .. } | S::Optional { value_type, .. } => deep_array(value_type, false),
        _ => false,
    }
}
// ---- the text layer
/// Any text of up to two ASCII characters, alone and inside a document.
pub fn text_any() {
    let n = symx::choose(3, "n");
    let mut t: Vec<u8> = vec![];
    for i in 0..n { let c = symx::u8(["c0", "c1"][i]); symx::assume(c < 128); t.push(c); }
    let t = String::from_utf8(t).unwrap();
    match from_yaml_str(&t) { Ok(_) => symx::check(false, "C10:bad-document-accepted"), Err(_) => symx::cover("rejected") }
}
/// One arbitrary character in place of each character of a small document.
pub fn text_edit() {
    const D: &str = "a:\n    type: int\n    init: 1\n    scale: 2\n";
    let at = symx::choose(D.len() + 1, "at");
    const C: &[u8] = b"\0\t\n \"'#&*:-{[!%~0x.\x7f,|<?";
    let c = C[symx::choose(C.len(), "c")];
    let mut t = D.as_bytes().to_vec();
    if at < D.len() && symx::flip("replace") { t[at] = c } else { t.insert(at, c) }
    if let Ok(s) = from_yaml_str(&String::from_utf8(t).unwrap()) { symx::check(wellformed(&s.0), "C10:ill-formed"); symx::cover("accepted") } else { symx::cover("rejected") }
}
