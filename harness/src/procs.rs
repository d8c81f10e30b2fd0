//! Whole runs of `sync_launch` with the real process-based objective function; the operating
//! system is modelled (see `symx::os`), the child processes follow scripts.
use crate::gen::{json_conforms, json_same};
use cambrian::error::Error;
use cambrian::meta::AlgoConfigBuilder;
use cambrian::process::ObjFuncProcessDef;
use cambrian::result::FinalReport;
use cambrian::spec::{Node as S, Spec};
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion as T;
use std::ffi::OsString;
use std::time::Duration;
use symx::os;

pub struct P {
    pub spec: S,
    pub conc: usize,
    pub sample: usize,
    pub crit: Vec<T>,
    pub kill_after: Option<u64>,
    /// detailed report, best-seen file
    pub files: Option<(&'static str, &'static str)>,
    pub args: Vec<OsString>,
    pub prog: Option<OsString>,
}
pub fn p(conc: usize, crit: Vec<T>) -> P { P { spec: S::Bool { init: false }, conc, sample: 1, crit, kill_after: None, files: None, args: vec![], prog: None } }
pub fn run(p: P) -> Result<FinalReport, Error> {
    let cfg = AlgoConfigBuilder::new().individual_sample_size(p.sample).num_concurrent(p.conc).build().unwrap();
    let prog = p.prog.unwrap_or_else(|| os::path("obj").into());
    let def = ObjFuncProcessDef::new(prog, p.args, p.kill_after.map(Duration::from_millis));
    let info = p.files.map(|(d, b)| DetailedReportingFileInfo { detailed_report_file_path: os::path(d).into(), best_seen_file_path: os::path(b).into() });
    sync_launch::launch_with_async_obj_func(Spec(p.spec), def, cfg, p.crit, None, false, info.as_ref())
}

/// What a child does; `dur`: ms until the evaluation completes by itself.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B { Fast, Slow, Never, GrandPipes, GrandAlone, Stubborn, Fails, Closes, Both, Null, Garbage, Hit, Dies }
const INF: u64 = 1 << 40;
const KILL: u64 = 270;
fn dur(b: B) -> u64 { match b { B::Fast | B::GrandAlone | B::Fails | B::Null | B::Garbage | B::Hit | B::Dies => 100, B::Slow => 600, _ => INF } }
fn fails(b: B) -> bool { matches!(b, B::Fails | B::Garbage | B::Dies) }
fn script(ord: usize, b: B) {
    let val: &[u8] = if b == B::Hit { b"{\"objFuncVal\": 0.5}" } else { b"{\"objFuncVal\": 1.5}" };
    let out = |at| os::act(ord, at, os::OUT, 0, val);
    let exit = |at, c| os::act(ord, at, os::EXIT, c, b"");
    match b {
        B::Fast | B::Hit => { out(100); exit(100, 0) }
        B::Slow => { out(600); exit(600, 0) }
        B::Never => os::act(ord, 0, os::ERR, 0, b"x"),
        B::GrandPipes => { os::act(ord, 0, os::GRAND, 1, b""); out(100); exit(100, 0) }
        B::GrandAlone => { os::act(ord, 0, os::GRAND, 0, b""); out(100); exit(100, 0) }
        B::Stubborn => os::act(ord, 0, os::IGN, 0, b""),
        B::Fails => { out(100); exit(100, 1) }
        B::Dies => { out(100); exit(100, 11 << 8) }
        B::Closes => { out(100); os::act(ord, 100, os::CLOSE, 6, b"") }
        B::Both => { os::act(ord, 0, os::GRAND, 1, b""); os::act(ord, 0, os::GRAND, 0, b"") }
        B::Null => { os::act(ord, 100, os::OUT, 0, b"{\"objFuncVal\": null}"); exit(100, 0) }
        B::Garbage => { os::act(ord, 100, os::OUT, 0, b"nonsense"); exit(100, 0) }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop { Budget, Target, Limit(u64), Interrupt(u64), Twice(u64) }
const SLACK: u64 = 80;
/// One run with these children; what must hold at its end, as far as it concerns property `p`.
pub fn scenario(p: &str, n: usize, conc: usize, stop: Stop, kill_after: bool, bs: &[B]) {
    let infinite = !kill_after && matches!(stop, Stop::Budget | Stop::Target);
    if infinite && bs.iter().any(|b| dur(*b) == INF) { symx::kill(); }
    for (i, b) in bs.iter().enumerate() { script(i, *b); }
    for i in bs.len()..n { script(i, B::Fast); }
    let of = |i: usize| bs.get(i).copied().unwrap_or(B::Fast);
    let mut crit = vec![T::NumObjFuncEval(n)];
    match stop {
        Stop::Budget => {}
        Stop::Target => crit.push(T::TargetObjFuncVal(1.0)),
        Stop::Limit(t) => crit.push(T::TerminateAfter(Duration::from_millis(t))),
        Stop::Interrupt(t) => { crit.push(T::Signal); os::signal(t, 2) }
        Stop::Twice(t) => { crit.push(T::TerminateAfter(Duration::from_millis(t))); crit.push(T::Signal); os::signal(t, 2); os::signal(t + 2, 2) }
    }
    let mut conf = self::p(conc, crit);
    if kill_after { conf.kill_after = Some(KILL); }
    let t0 = os::clock();
    if bs.contains(&B::Closes) && symx::flip("preempt") { symx::set_flag(os::PREEMPT, 1); }
    let r = run(conf);
    let t1 = os::clock();
    let ps = os::procs();
    let mains = || ps.iter().filter(|q| q.main);
    let is = |q: &str| p == q;
    // when the run was told to stop
    let asked = match stop { Stop::Limit(t) | Stop::Interrupt(t) | Stop::Twice(t) => t0 + t, _ => INF };
    let mut hit = INF;
    let mut fail = INF;
    for q in mains() {
        let b = of(q.ord as usize);
        if stop == Stop::Target && b == B::Hit { hit = hit.min(q.start + 100); }
        if fails(b) { fail = fail.min(q.start + 100); }
    }
    let t_stop = asked.min(hit).min(fail);
    if is("C07") { for q in &ps { symx::check(!q.alive, if q.main { "C07:child-alive-at-return" } else { "C07:descendant-alive-at-return" }); } }
    if t_stop < INF {
        let own = if t_stop == fail { "C06" } else { "C04" };
        if is(own) {
            symx::check(mains().all(|q| q.start <= t_stop + SLACK), &format!("{}:started-after-stop", p));
            symx::check(t1 <= t_stop + SLACK, &format!("{}:return-delayed", p));
        }
        let value = mains().any(|q| { let b = of(q.ord as usize); !fails(b) && b != B::Null && q.start + dur(b) + SLACK < t_stop });
        if is("C04") && fail > t_stop + SLACK {
            if t_stop == hit { symx::check(matches!(&r, Ok(f) if f.best_seen.obj_func_val <= 1.0), "C04:target-reached-but-not-reported"); symx::cover("hit") }
            else { symx::check(match &r { Ok(_) => true, Err(Error::NoIndividuals) => !value, Err(_) => false }, "C04:best-seen-lost"); symx::cover("asked") }
        }
        if is("C06") && fail + SLACK < asked.min(hit) { symx::check(matches!(r, Err(Error::ObjFuncProcFailed(_)) | Err(Error::ObjFuncProcInvalidOutput(_))), "C06:failure-not-reported"); symx::cover("failure"); }
        symx::cover("stopped");
        if mains().any(|q| q.end + SLACK >= t_stop && dur(of(q.ord as usize)) == INF) { symx::cover("stopped-with-siblings"); }
    }
    if is("C07") {
        let mut late = 0;
        let mut null = 0;
        let mut full = 0;
        for q in mains() {
            let b = of(q.ord as usize);
            let d = dur(b);
            let timed_out = kill_after && d > KILL;
            // in time and before the stop: left alone
            if !timed_out && q.start + d + SLACK < t_stop { symx::check(!q.killed, "C07:killed-though-in-time"); }
            if timed_out && q.start + KILL + SLACK < t_stop {
                late += 1;
                if b != B::GrandPipes { symx::check(q.killed & (q.end + SLACK >= q.start + KILL), "C07:killed-early"); }
                for g in ps.iter().filter(|g| g.ord == q.ord) { symx::check(g.end <= q.start + KILL + SLACK, "C07:group-outlives-timeout"); }
                symx::cover("timed-out");
            } else if b == B::Null && q.end + SLACK < t_stop { null += 1 } else if !fails(b) && q.start + d + SLACK < t_stop { full += 1 }
        }
        if t_stop == INF {
            match &r {
                Ok(f) => {
                    symx::check(f.num_obj_func_eval_rejected == late + null, "C07:timeouts-not-counted-as-rejected");
                    symx::check(f.num_obj_func_eval_completed == full, "C07:completed-count");
                    symx::check(late + null + full == n, "C07:run-did-not-continue");
                }
                Err(e) => symx::check(matches!(e, Error::NoIndividuals) & (full == 0), "C07:run-failed-after-timeout"),
            }
            symx::check(mains().count() == n, "C07:run-did-not-continue");
        }
    }
    symx::cover("end");
}
pub fn smoke() { scenario("C07", 3, 1, Stop::Budget, true, &[B::Fast, B::Never]) }
const ALL: [B; 13] = [B::Fast, B::Slow, B::Never, B::GrandPipes, B::GrandAlone, B::Stubborn, B::Fails, B::Closes, B::Both, B::Null, B::Garbage, B::Hit, B::Dies];
fn any(n: &str) -> B { ALL[symx::choose(ALL.len(), n)] }
const STOPS: [Stop; 6] = [Stop::Budget, Stop::Target, Stop::Limit(145), Stop::Limit(420), Stop::Interrupt(145), Stop::Twice(145)];
fn pair(p: &str) {
    let bs = [any("b0"), any("b1")];
    let conc = 1 + symx::choose(2, "conc");
    let stop = STOPS[symx::choose(6, "stop")];
    let kill = symx::flip("kill");
    scenario(p, 3, conc, stop, kill, &bs);
}
pub fn c07_pair() { pair("C07") }
pub fn c04_pair() { pair("C04") }
pub fn c06_pair() { pair("C06") }
/// Three different children, all at once or two at a time.
fn triple(p: &str) {
    let bs = [any("b0"), any("b1"), any("b2")];
    let conc = 2 + symx::choose(2, "conc");
    let stop = STOPS[symx::choose(6, "stop")];
    let kill = symx::flip("kill");
    scenario(p, 4, conc, stop, kill, &bs);
}
pub fn c07_triple() { triple("C07") }
pub fn c04_triple() { triple("C04") }
pub fn c06_triple() { triple("C06") }
/// The run ends because a reporting file cannot be created, with children in flight.
pub fn c07_report_fails() {
    let bs = [any("b0"), any("b1")];
    for (i, b) in bs.iter().enumerate() { script(i, *b); }
    std::fs::create_dir(os::path("dir")).unwrap();
    let mut conf = p(2, vec![T::NumObjFuncEval(3)]);
    conf.kill_after = Some(KILL);
    conf.files = Some([("missing/d.csv", "best.json"), ("dir", "best.json"), ("d.csv", "missing/best.json"), ("d.csv", "dir")][symx::choose(4, "files")]);
    let early = conf.files.unwrap().0 != "d.csv";
    let r = run(conf);
    let ps = os::procs();
    for q in &ps { symx::check(!q.alive, if q.main { "C07:child-alive-at-return" } else { "C07:descendant-alive-at-return" }); }
    if early { symx::check(matches!(r, Err(Error::UnableToCreateDetailedReportingFile { .. })), "C07:report-failure"); }
    if r.is_err() && ps.iter().any(|q| q.killed) { symx::cover("killed"); }
    symx::cover("end");
}
/// Which branch `select!` polls first: the same one throughout a run.
#[no_mangle] pub extern "C" fn vh_sel1(n: u32) -> u32 {
    let v = symx::flag(902);
    if v != 0 { return ((v - 1) % n as u64) as u32; }
    let c = symx::choose(n as usize, "selall");
    symx::set_flag(902, c as u64 + 1);
    c as u32
}

// ---- C14: the files
/// Records of the detailed report: everything before the parameters, parameters, seed, result.
pub struct Row { pub id: usize, pub meta: Vec<String>, pub value: String, pub seed: u64, pub result: String }
pub fn rows(text: &str) -> Option<Vec<Row>> {
    let mut r = vec![];
    if !text.is_empty() && !text.ends_with('\n') { return None; }
    for l in text.lines().skip(1) {
        let f: Vec<&str> = l.split(';').collect();
        if f.len() < 10 { return None; }
        let n = f.len();
        r.push(Row { id: f[0].parse().ok()?, meta: f[1..7].iter().map(|s| s.to_string()).collect(), value: f[7..n - 2].join(";"), seed: f[n - 2].parse().ok()?, result: f[n - 1].to_string() });
    }
    Some(r)
}
fn num(s: &str) -> f64 { s.parse().unwrap_or(f64::NAN) }
pub fn row_meta_ok(m: &[String]) -> bool {
    if m[1].is_empty() { return m[2..].iter().all(|x| x.is_empty()); }
    let p = |s: &str| { let x = num(s); x >= 0.0 && x <= 1.0 };
    p(&m[2]) && p(&m[3]) && p(&m[4]) && num(&m[5]) > 0.0 && num(&m[5]).is_finite() && num(&m[0]) >= 0.0
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F { Val(&'static str), Null, Fail, Hang }
fn fscript(ord: usize, f: F, at: u64) {
    match f {
        F::Val(v) => { os::act(ord, at, os::OUT, 0, format!("{{\"objFuncVal\": {}}}", v).as_bytes()); os::act(ord, at, os::EXIT, 0, b"") }
        F::Null => { os::act(ord, at, os::OUT, 0, b"{}"); os::act(ord, at, os::EXIT, 0, b"") }
        F::Fail => os::act(ord, at, os::EXIT, 3, b""),
        F::Hang => os::act(ord, 0, os::IGN, 0, b""),
    }
}
/// One run with the files switched on; the files must agree with what the children did.
fn files(conc: usize, crit: Vec<T>, kill: bool, fs: &[(F, u64)]) {
    for (i, (f, at)) in fs.iter().enumerate() { fscript(i, *f, *at); }
    let mut conf = p(conc, crit);
    conf.spec = S::Int { init: 3, scale: 100.0, min: None, max: None };
    conf.files = Some(("detailed.csv", "best_seen.json"));
    if kill { conf.kill_after = Some(KILL); }
    let t0 = os::clock();
    let mut t_stop = INF;
    let mut target = f64::NEG_INFINITY;
    for c in &conf.crit { match c { T::TargetObjFuncVal(t) => target = *t, T::TerminateAfter(d) => t_stop = t0 + d.as_millis() as u64, T::Signal => t_stop = t_stop.min(t0 + 160), _ => {} } }
    let r = run(conf);
    let text = std::fs::read_to_string(os::path("detailed.csv")).unwrap_or_default();
    let rows = match rows(&text) { Some(r) => r, None => { symx::check(false, "C14:report-malformed"); return } };
    let ps = os::procs();
    let mains: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].main).collect();
    let arg = |i: usize, back: usize| String::from_utf8(os::arg(i, ps[i].argc - back)).unwrap();
    let mut min: Option<f64> = None;
    for i in &mains {
        match fs[ps[*i].ord as usize].0 { F::Fail => t_stop = t_stop.min(ps[*i].end), F::Val(v) if num(v) <= target => t_stop = t_stop.min(ps[*i].end), _ => {} }
    }
    for (k, w) in rows.iter().enumerate() {
        let of: Vec<usize> = mains.iter().copied().filter(|i| arg(*i, 1) == w.seed.to_string()).collect();
        if of.is_empty() { symx::check(false, "C14:record-of-nothing"); return; }
        symx::check(of.len() == 1, "C14:record-seed");
        symx::check(arg(of[0], 2) == w.value, "C14:record-value");
        symx::check(row_meta_ok(&w.meta), "C14:meta-params");
        for q in &rows[..k] { symx::check(q.seed != w.seed, "C14:duplicate-record"); }
        let f = fs[ps[of[0]].ord as usize].0;
        if w.result.is_empty() && (ps[of[0]].killed || ps[of[0]].end + SLACK >= t_stop) { symx::cover("aborted"); continue; }
        symx::check(match f { F::Val(v) => !w.result.is_empty() && num(&w.result) == num(v), F::Null | F::Hang => w.result.is_empty(), F::Fail => false }, "C14:record-result");
        if !w.result.is_empty() { let v = num(&w.result); min = Some(min.map_or(v, |m: f64| m.min(v))); }
    }
    for i in &mains {
        let q = &ps[*i];
        if q.end + SLACK < t_stop && fs[q.ord as usize].0 != F::Fail { symx::check(rows.iter().any(|w| w.seed.to_string() == arg(*i, 1)), "C14:missing-record"); }
    }
    for (k, w) in rows.iter().enumerate() { symx::check(rows[..k].iter().all(|v| v.id != w.id), "C14:duplicate-id"); }
    let best = std::fs::read_to_string(os::path("best_seen.json")).ok();
    match (&best, min) {
        (None, None) => {}
        (Some(b), Some(m)) => {
            let v: Result<serde_json::Value, _> = serde_json::from_str(b);
            symx::check(v.is_ok(), "C14:best-seen-malformed");
            symx::check(rows.iter().any(|w| !w.result.is_empty() && num(&w.result) == m && w.value == *b), "C14:best-seen-is-not-a-minimum");
            symx::cover("best");
        }
        _ => symx::check(false, "C14:best-seen-presence"),
    }
    let acc = rows.iter().filter(|w| !w.result.is_empty()).count();
    match &r {
        Ok(f) => {
            symx::check((f.num_obj_func_eval_completed == acc) & (f.num_obj_func_eval_rejected == rows.len() - acc), "C14:counts");
            symx::check(min.map_or(false, |m| m == f.best_seen.obj_func_val) & (best.as_deref() == Some(&f.best_seen.value.to_string())), "C14:best-seen-is-not-the-report's");
            symx::cover("report");
        }
        Err(Error::NoIndividuals) => symx::check(acc == 0, "C14:counts"),
        Err(_) => symx::cover("failed"),
    }
    symx::cover("end");
}
const FS: [F; 5] = [F::Val("2.0"), F::Val("1.0"), F::Val("-3e5"), F::Null, F::Fail];
fn anyf(n: &str) -> (F, u64) { (FS[symx::choose(5, n)], 100) }
/// Several results at the same moment; a write to a file may come late.
pub fn c14_files() {
    let conc = 1 + symx::choose(3, "conc");
    let fs = [anyf("f"), anyf("f"), anyf("f")];
    symx::set_flag(os::LATE, 1);
    files(conc, vec![T::NumObjFuncEval(3)], false, &fs);
}
/// Values of all kinds of magnitude.
pub fn c14_files_range() {
    const R: [&str; 12] = ["0.1", "-0.0", "0", "5e-324", "1e-20", "1.5e-20", "1e300", "-1e300", "123456789.012345", "1e21", "-0.000123456789012", "-7"];
    let conc = 1 + symx::choose(2, "conc");
    let fs: Vec<(F, u64)> = (0..2).map(|_| (F::Val(R[symx::choose(12, "f")]), 100)).collect();
    files(conc, vec![T::NumObjFuncEval(2)], false, &fs);
}
pub fn c14_files_stop() {
    let conc = 1 + symx::choose(2, "conc");
    let fs: Vec<(F, u64)> = (0..4).map(|i| if i < 2 { (([F::Val("2.0"), F::Val("1.0"), F::Null, F::Fail, F::Hang])[symx::choose(5, "f")], [100, 230][symx::choose(2, "at")]) } else { (F::Val(["4.0", "-1.0"][i - 2]), 100) }).collect();
    let mut crit = vec![T::NumObjFuncEval(4)];
    match symx::choose(4, "stop") {
        0 => {}
        1 => crit.push(T::TargetObjFuncVal(1.0)),
        2 => crit.push(T::TerminateAfter(Duration::from_millis(160))),
        _ => { crit.push(T::Signal); os::signal(160, 2) }
    }
    files(conc, crit, true, &fs);
}

// ---- runs with nothing but well-behaved children: what they are given and when they are started
const PS: [F; 5] = [F::Val("2.5"), F::Val("-1e-3"), F::Val("-3e5"), F::Null, F::Hang];
fn protocol(p: &str, sample: usize) {
    let conc = if sample > 1 { [1, 3][symx::choose(2, "conc")] } else { [1, 2, 3, 6][symx::choose(4, "conc")] };
    let (warm, free) = if sample > 1 { (24, 3) } else { (2 * symx::choose(2, "more-warm"), 3) };
    let n = warm + free;
    let mode = symx::choose(3, "duration");
    let at = |k: usize| match mode { 0 => 100, 1 => 100 * (1 + k as u64 % 2), _ => 100 * (3 - k as u64 % 3) };
    let fs: Vec<F> = (0..n).map(|k| if k < warm { F::Val(["4", "3", "5.5"][k % 3]) } else { PS[symx::choose(if sample > 1 { 4 } else { 5 }, "f")] }).collect();
    for k in 0..n { fscript(k, fs[k], at(k)); }
    let mut conf = self::p(conc, vec![T::NumObjFuncEval(n)]);
    conf.sample = sample;
    conf.kill_after = Some(420);
    conf.spec = if p == "C01" { crate::run::rich() } else { S::Array { size: 8, value_type: Box::new(S::Int { init: 3, scale: 100.0, min: None, max: None }) } };
    let spec = conf.spec.clone();
    let init = crate::gen::json_of(&crate::gen::init_of(&spec));
    if sample > 1 { conf.files = Some(("detailed.csv", "best_seen.json")); }
    let t0 = os::clock();
    let r = run(conf);
    let ps = os::procs();
    let mains: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].main).collect();
    let arg = |i: usize, back: usize| os::arg(i, ps[i].argc - back);
    // the individual, by the seed: values of different individuals may be the same
    let text = std::fs::read_to_string(os::path("detailed.csv")).unwrap_or_default();
    let rows = rows(&text).unwrap_or_default();
    let id = |i: usize| -> Option<usize> { let s = String::from_utf8(arg(i, 1)).ok()?; rows.iter().find(|w| w.seed.to_string() == s).map(|w| w.id) };
    if sample > 1 { for i in &mains { if id(*i).is_none() { symx::check(false, &format!("{}:individual-unknown", p)); return } } }
    let value = |i: usize| -> Option<serde_json::Value> { serde_json::from_slice(&arg(i, 2)).ok() };
    let res = |i: usize| match fs[ps[i].ord as usize] { F::Val(v) => Some(num(v)), _ => None };
    let is = |q: &str| p == q;
    for (k, i) in mains.iter().enumerate() {
        let v = match value(*i) { Some(v) => v, None => { symx::check(false, &format!("{}:argument-malformed", p)); return } };
        if is("C01") { symx::check(json_conforms(&spec, &v), "C01:evaluated"); }
        if is("C01") || is("C08") { if k == 0 { symx::check(json_same(&v, &init), &format!("{}:first-is-not-initial", p)); } }
        if is("C08") {
            symx::check(String::from_utf8(arg(*i, 1)).ok().map_or(false, |s| s.parse::<u64>().is_ok()), "C08:seed-malformed");
            symx::check(mains[..k].iter().all(|j| arg(*j, 1) != arg(*i, 1)), "C08:seed-reused");
            if sample > 1 {
                let own: Vec<usize> = mains.iter().copied().filter(|j| id(*j) == id(*i)).collect();
                symx::check(own.len() <= sample, "C08:evaluated-too-often");
                symx::check(own.iter().all(|j| arg(*j, 2) == arg(*i, 2)), "C08:individual-changed");
                if own.len() > 1 { symx::cover("again"); }
            }
        }
    }
    if is("C03") { symx::check(mains.len() == n, "C03:not-started-exactly-n"); }
    if is("C05") {
        let mut ends: Vec<u64> = mains.iter().map(|i| ps[*i].end).collect();
        ends.sort();
        for (k, i) in mains.iter().enumerate() {
            let q = &ps[*i];
            symx::check(mains.iter().filter(|j| ps[**j].start < q.start && ps[**j].end > q.start + SLACK).count() < conc, "C05:too-many-in-progress");
            symx::check(q.start <= if k < conc { t0 } else { ends[k - conc] } + SLACK, "C05:not-work-conserving");
            if sample > 1 { for j in &mains[..k] { if id(*j) == id(*i) { symx::check(ps[*j].end <= q.start + SLACK, "C05:same-individual-twice"); symx::cover("again"); } } }
        }
    }
    let acc = mains.iter().filter(|i| res(**i).is_some()).count();
    match &r {
        Ok(f) => {
            if is("C01") { symx::check(json_conforms(&spec, &f.best_seen.value), "C01:reported"); }
            if is("C03") { symx::check(f.num_obj_func_eval_completed == acc && f.num_obj_func_eval_rejected == n - acc, "C03:report-counts"); }
            if is("C02") {
                let v = f.best_seen.obj_func_val;
                if sample == 1 {
                    symx::check(mains.iter().all(|i| res(*i).map_or(true, |w| v <= w)), "C02:not-minimum");
                    symx::check(mains.iter().any(|i| res(*i) == Some(v) && json_same(&value(*i).unwrap(), &f.best_seen.value)), "C02:not-evaluated-or-wrong-value");
                } else {
                    let mut ok = false;
                    for i in &mains {
                        let vs: Vec<f64> = mains.iter().filter(|j| id(**j) == id(*i)).filter_map(|j| res(*j)).collect();
                        ok |= vs.len() == sample && json_same(&value(*i).unwrap(), &f.best_seen.value) && (vs.iter().sum::<f64>() / sample as f64 - v).abs() <= 1e-9 * v.abs();
                    }
                    symx::check(ok, "C02:not-the-mean-of-a-full-sample");
                }
            }
            symx::cover("report");
        }
        Err(e) => symx::check(matches!(e, Error::NoIndividuals) && (acc == 0 || sample > 1), &format!("{}:unexpected-error", p)),
    }
    symx::cover("end");
}
pub fn c01_children() { protocol("C01", 1) }
pub fn c02_children() { protocol("C02", 1) }
pub fn c03_children() { protocol("C03", 1) }
pub fn c05_children() { protocol("C05", 1) }
pub fn c08_children() { protocol("C08", 1) }
pub fn c02_children2() { protocol("C02", 2) }
pub fn c05_children2() { protocol("C05", 2) }
pub fn c08_children2() { protocol("C08", 2) }

// ---- C15: what children write
struct Sink;
static LINES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LINES.fetch_add(format!("{} {}", r.level(), r.args()).len(), std::sync::atomic::Ordering::SeqCst); }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
fn verbose() -> bool {
    let v = symx::flip("verbose");
    if v { log::set_logger(&SINK).ok(); log::set_max_level(log::LevelFilter::Trace); }
    v
}
/// What the protocol says about this output of a successful child: Some(result) or failure.
/// Unsure (None) about repeated keys.
enum Dec { Res(Option<f64>), Bad, Unsure }
fn decode(b: &[u8]) -> Dec {
    if b.windows(10).filter(|w| w == b"objFuncVal").count() > 1 { return Dec::Unsure; }
    match serde_json::from_slice::<serde_json::Value>(b) {
        Ok(serde_json::Value::Object(m)) => {
            if m.is_empty() { return Dec::Res(None); }
            if m.len() > 1 { return Dec::Bad; }
            match m.get("objFuncVal") { Some(serde_json::Value::Null) => Dec::Res(None), Some(serde_json::Value::Number(n)) => Dec::Res(n.as_f64()), _ => Dec::Bad }
        }
        _ => Dec::Bad,
    }
}
fn one(p: &str, out: &[u8], err: &[u8], code: u64) {
    os::act(0, 0, os::ERR, 0, err);
    os::act(0, 100, os::OUT, 0, out);
    os::act(0, 100, os::EXIT, code, b"");
    let v = verbose();
    let r = run(self::p(1, vec![T::NumObjFuncEval(1)]));
    let _ = v;
    let is = |q: &str| p == q;
    if is("C15") {
        symx::check(match &r { Ok(_) => true, Err(e) => { let s = e.to_string(); !s.is_empty() } }, "C15:undescribed-error");
    }
    let good = if code == 0 { decode(out) } else { Dec::Bad };
    let label = |s: &str| format!("{}:{}", p, s);
    match (&r, good) {
        (_, Dec::Unsure) => {}
        (Ok(f), Dec::Res(Some(x))) if !is("C06") => { symx::check((f.best_seen.obj_func_val == x) & (f.num_obj_func_eval_completed == 1) & (f.num_obj_func_eval_rejected == 0), &label("wrong-result")); symx::cover("accepted") }
        (_, Dec::Res(_)) if is("C06") => symx::cover("result"),
        (Ok(_), _) => symx::check(false, &label("accepted-output-that-is-no-result")),
        (Err(e), Dec::Res(Some(_))) => symx::check(matches!(e, Error::ObjFuncValMustBeFinite), &label("valid-result-refused")),
        (Err(e), Dec::Res(None)) => { symx::check(matches!(e, Error::NoIndividuals), &label("null-is-not-a-rejection")); symx::cover("null") }
        (Err(e), Dec::Bad) => {
            let d = match e { Error::ObjFuncProcFailed(d) => { symx::check(code != 0, &label("wrong-error")); Some(d) } Error::ObjFuncProcInvalidOutput(d) => { symx::check(code == 0, &label("wrong-error")); Some(d) } _ => None };
            match d {
                Some(d) => symx::check((d.output.stdout == out) & (d.output.stderr == err), &label("diagnostics-differ")),
                None => symx::check(false, &label("wrong-error")),
            }
            symx::cover("refused");
        }
    }
    symx::cover("end");
}
const DOCS: [&[u8]; 26] = [b"", b" ", b"{}", b"{\"objFuncVal\": 1.5}", b"{\"objFuncVal\": null}\n", b" {\"objFuncVal\":-7}", b"[1.5]", b"[null]", b"[]", b"null", b"1.5", b"\"objFuncVal\"", b"{\"objFuncVal\": \"1\"}", b"{\"objFuncVal\": [1]}", b"{\"objFuncVal\": true}", b"{\"objfuncval\": 1}", b"{\"objFuncVal\": 1, \"x\": 2}", b"{\"x\": 2}", b"{\"objFuncVal\": 1} {}", b"{\"objFuncVal\": 1", b"{objFuncVal: 1}", b"{\"objFuncVal\": 1e400}", b"{\"objFuncVal\": NaN}", b"\xff\xfe", b"{\"objFuncVal\": 1}\xff", b"hello"];
fn docs(p: &str) {
    let d = DOCS[symx::choose(DOCS.len(), "doc")];
    // the last two: death by a signal
    let code = [0, 1, 255, 9 << 8, 15 << 8][symx::choose(5, "code")];
    let err: &[u8] = [&b""[..], b"warning", b"\xff\x00\xc3"][symx::choose(3, "err")];
    one(p, d, err, code);
}
pub fn c15_docs() { docs("C15") }
pub fn c16_docs() { docs("C16") }
pub fn c06_docs() { docs("C06") }
/// Any two bytes on each stream.
pub fn c15_bytes() {
    let n = 1 + symx::choose(2, "nout");
    let m = symx::choose(3, "nerr");
    let n = if m > 0 { 0 } else { n };
    let o: Vec<u8> = (0..n).map(|_| symx::u8("out")).collect();
    let e: Vec<u8> = (0..m).map(|_| symx::u8("err")).collect();
    one("C15", &o, &e, symx::choose(2, "code") as u64);
}
/// A result document with one byte put at or over any position.
fn edit(p: &str) {
    let mut d = b"{\"objFuncVal\":-4}".to_vec();
    let at = symx::choose(d.len() + 1, "at");
    let mut c = symx::u8("byte");
    if c.is_ascii_digit() { c = symx::conc(c as u64) as u8; }
    if symx::flip("insert") || at == d.len() { d.insert(at, c) } else { d[at] = c }
    one(p, &d, b"", 0);
}
pub fn c15_edit() { edit("C15") }
pub fn c16_edit() { edit("C16") }
pub fn c06_edit() { edit("C06") }
/// More output than pipes hold, on either stream, in whatever order.
pub fn c15_huge() {
    let big = vec![b' '; 150_000];
    let first = symx::flip("first");
    let bad = symx::flip("bad");
    os::act(0, 0, if first { os::OUT } else { os::ERR }, 0, &big);
    os::act(0, 10, if first { os::ERR } else { os::OUT }, 0, &big);
    os::act(0, 20, os::OUT, 0, if bad { b"{" } else { b"{\"objFuncVal\": 2}" });
    os::act(0, 30, os::EXIT, 0, b"");
    verbose();
    let r = run(p(1, vec![T::NumObjFuncEval(1)]));
    match r {
        Ok(f) => symx::check(!bad & (f.best_seen.obj_func_val == 2.0), "C15:huge"),
        Err(e) => symx::check(bad & matches!(e, Error::ObjFuncProcInvalidOutput(_)), "C15:huge"),
    }
    symx::cover("end");
}

/// Long output in which characters of several bytes come to lie at any offset.
fn wide() -> Vec<u8> {
    let unit: [&[u8]; 4] = ["é".as_bytes(), "あ".as_bytes(), "\u{1f600}".as_bytes(), b"\xc3"];
    let u = unit[symx::choose(4, "unit")];
    let mut v = vec![b'x'; symx::choose(4, "shift")];
    while v.len() < 6000 { v.extend(u); }
    v
}
pub fn c15_wide() {
    let w = wide();
    match symx::choose(4, "where") {
        0 => one("C15", b"{\"objFuncVal\": 1}", &w, 0),
        1 => one("C15", &w, b"", 0),
        2 => one("C15", b"", &w, 1),
        _ => one("C15", &w, &w, 9 << 8),
    }
}

// ---- C16: the command line of children
const HOSTILE: [&[u8]; 10] = [b"", b" ", b"-x", b"--", b"a b", b"\"q\"", b"'", b"$HOME;`ls`\n", b"\xff\x80", b"*"];
pub fn c16_argv() {
    let n = symx::choose(3, "nargs");
    let mut args: Vec<Vec<u8>> = vec![];
    for _ in 0..n { args.push(HOSTILE[symx::choose(HOSTILE.len(), "arg")].to_vec()); }
    let keys = ["a", "\"", "\\", " ;$(x)\n", "\u{1F600}\u{7f}\u{0}", ""];
    let k = keys[symx::choose(keys.len(), "key")];
    let spec = crate::gen::sub(vec![(k, S::Enum { values: vec!["r".into(), "'\"\\\u{2028}".into()], init: "'\"\\\u{2028}".into() }), ("z", S::Real { init: 0.1, scale: 1.0, min: None, max: None })]);
    use std::os::unix::ffi::OsStringExt;
    for i in 0..2 { os::act(i, 50, os::OUT, 0, b"{\"objFuncVal\": 1}"); os::act(i, 50, os::EXIT, 0, b""); }
    let mut conf = p(1, vec![T::NumObjFuncEval(2)]);
    conf.args = args.iter().map(|a| OsString::from_vec(a.clone())).collect();
    conf.spec = spec.clone();
    let r = run(conf);
    symx::check(r.is_ok(), "C16:run-failed");
    let ps = os::procs();
    symx::check(ps.len() == 2, "C16:number-of-children");
    let mut vals = vec![];
    let mut seeds = vec![];
    for (i, q) in ps.iter().enumerate() {
        symx::check(q.argc == args.len() + 3, "C16:argument-count");
        symx::check(os::arg(i, 0) == os::path("obj").into_bytes(), "C16:program-name");
        for (j, a) in args.iter().enumerate() { symx::check(os::arg(i, j + 1) == *a, "C16:user-argument"); }
        let j: Result<serde_json::Value, _> = serde_json::from_slice(&os::arg(i, args.len() + 1));
        match j { Ok(v) => { symx::check(crate::gen::json_conforms(&spec, &v), "C16:parameters-do-not-conform"); vals.push(v) } Err(_) => symx::check(false, "C16:parameters-are-not-json") }
        let s = String::from_utf8(os::arg(i, args.len() + 2)).unwrap();
        symx::check(s.parse::<u64>().map_or(false, |n| n.to_string() == s), "C16:seed");
        seeds.push(s);
    }
    symx::check(seeds[0] != seeds[1], "C16:seed");
    symx::check(crate::gen::json_same(&vals[0], &crate::gen::json_of(&crate::gen::init_of(&spec))), "C16:first-parameters");
    symx::check(vals.contains(&r.unwrap().best_seen.value), "C16:reported-value");
    symx::cover("end");
}
/// Programs that cannot be started, also in the middle of a run.
pub fn c16_unlaunchable() {
    let prog = ["missing", "dir", "plain"][symx::choose(3, "prog")];
    std::fs::create_dir(os::path("dir")).unwrap();
    std::fs::write(os::path("plain"), "x").unwrap();
    let mut conf = p(1 + symx::choose(2, "conc"), vec![T::NumObjFuncEval(2)]);
    conf.prog = Some(os::path(prog).into());
    let r = run(conf);
    symx::check(matches!(r, Err(Error::UnableToLaunchObjFuncProcess(_))), "C16:unlaunchable");
    symx::check(os::procs().is_empty(), "C16:unlaunchable");
    symx::cover("end");
}

// ---- C16: the command-line tool
fn cli(args: &[&[u8]]) -> u64 {
    let mut v: Vec<Vec<u8>> = vec![b"cambrian".to_vec()];
    v.extend(args.iter().map(|a| a.to_vec()));
    os::cli(crate::cli::vh_cli_main, &v)
}
fn text(n: &str) -> String { std::fs::read_to_string(os::path(n)).unwrap_or_default() }
const SPECS: [&str; 4] = [
    "type: int\ninit: 3\nscale: 2\n",
    r#"{"a b;$(x)": {"type": "bool", "init": true}, "\"q\\": {"type": "enum", "values": ["it's", "\"", "\\ \n"], "init": "\""}, "Größe": {"type": "real", "init": 0.5, "scale": 1, "min": 0, "max": 1}, "": {"type": "optional", "initPresent": false, "valueType": {"type": "int", "init": -4, "scale": 1, "max": -2}}}"#,
    "type: anon map\ninitSize: 2\nminSize: 1\nmaxSize: 3\nvalueType:\n  type: array\n  size: 2\n  valueType:\n    type: bool\n    init: false\n",
    "type: variant\ninit: x y\nx y:\n  type: const\n--:\n  type: real\n  init: 1e300\n  scale: 1e300\n",
];
fn put_spec(i: usize) -> S { std::fs::write(os::path("spec.yaml"), SPECS[i]).unwrap(); cambrian::spec_util::from_yaml_str(SPECS[i]).unwrap().0 }
struct Files(Vec<(String, Vec<u8>)>);
/// Everything in this directory, sorted; None when there is no such directory.
fn ls(d: &str) -> Option<Files> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(os::path(d)).ok()?.map(|e| { let n = e.unwrap().file_name().into_string().unwrap(); let c = std::fs::read(os::path(&format!("{}/{}", d, n))).unwrap_or_default(); (n, c) }).collect();
    v.sort();
    Some(Files(v))
}
impl Files {
    fn names(&self) -> Vec<&str> { self.0.iter().map(|f| &*f.0).collect() }
    fn get(&self, n: &str) -> Option<&[u8]> { self.0.iter().find(|f| f.0 == n).map(|f| &*f.1) }
}
/// What children were given: parameters as JSON text and seed; checks everything before them.
fn given(user: &[&[u8]], spec: &S) -> Vec<(String, String)> {
    let mut r = vec![];
    for (i, q) in os::procs().iter().enumerate().filter(|q| q.1.main) {
        symx::check(q.argc == user.len() + 3, "C16:argument-count");
        for (j, a) in user.iter().enumerate() { symx::check(os::arg(i, j + 1) == *a, "C16:user-argument"); }
        let t = String::from_utf8(os::arg(i, user.len() + 1)).unwrap_or_default();
        let ok = serde_json::from_str(&t).map_or(false, |v: serde_json::Value| crate::gen::json_conforms(spec, &v));
        symx::check(ok, "C16:parameters-do-not-conform");
        let s = String::from_utf8(os::arg(i, user.len() + 2)).unwrap_or_default();
        symx::check(s.parse::<u64>().map_or(false, |n| n.to_string() == s), "C16:seed");
        symx::check(r.iter().all(|(_, q)| *q != s), "C16:seed");
        r.push((t, s));
    }
    r
}
/// A child that answers after 50 ms.
fn answer(ord: usize, b: &[u8], code: u64) { os::act(ord, 50, os::OUT, 0, b); os::act(ord, 50, os::EXIT, code, b""); }
fn one_line(out: &str, spec: &S) -> bool { out.ends_with('\n') && out.matches('\n').count() == 1 && serde_json::from_str(out).map_or(false, |v: serde_json::Value| crate::gen::json_conforms(spec, &v)) }
fn same_json(a: &str, b: &str) -> bool { match (serde_json::from_str(a), serde_json::from_str(b)) { (Ok(a), Ok(b)) => crate::gen::json_same(&a, &b), _ => false } }
/// Runs that succeed: one line, exit status 0, the files.
pub fn cli_ok() {
    let spec = put_spec(symx::choose(SPECS.len(), "spec"));
    let vals: [&[u8]; 3] = [b"{\"objFuncVal\": 2.5}", b"{\"objFuncVal\": 1}", b"{}"];
    let pat = symx::choose(7, "pattern");
    // three digits that may be anything
    if pat == 6 { return cli_digits(&spec); }
    // which of the three evaluations answers what
    let res: [usize; 3] = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [0, 0, 1], [1, 0, 0], [2, 2, 0]][pat];
    for i in 0..3 { answer(i, vals[res[i]], 0); }
    let out = [None, Some("out"), Some("new/out")][symx::choose(3, "out")];
    let verbose = symx::flip("verbose");
    let conc = 1 + symx::choose(2, "conc");
    let users: [&[&[u8]]; 3] = [&[], &[b"x", b"a b"], &[b"--", b"-n", b"\xff$\"'"]];
    let user = users[symx::choose(3, "user")];
    let obj = os::path("obj").into_bytes();
    let mut a: Vec<&[u8]> = vec![b"--spec-file", b"spec.yaml", b"-n", b"3"];
    if let Some(o) = out { a.extend([&b"-o"[..], o.as_bytes()]); }
    if verbose { a.push(b"-v"); }
    if conc == 2 { a.extend([&b"--num-concurrent"[..], b"2"]); }
    if symx::flip("nosig") { a.push(b"--no-signal-result"); }
    // hyphens are passed on after "--"
    let user = if user.first() == Some(&&b"--"[..]) { a.push(b"--"); a.push(&obj); &user[1..] } else { a.push(&obj); user };
    a.extend(user);
    let code = cli(&a);
    symx::check(code == 0, "C16:exit-status");
    let g = given(user, &spec);
    symx::check(g.len() == 3, "C16:number-of-children");
    if g.len() != 3 { return; }
    symx::check(same_json(&g[0].0, &crate::gen::json_of(&crate::gen::init_of(&spec)).to_string()), "C16:first-parameters");
    let stdout = text("stdout");
    symx::check(one_line(&stdout, &spec), "C16:stdout");
    let min = *res.iter().min_by_key(|r| [25, 10, 100][**r]).unwrap();
    symx::check((0..3).any(|i| res[i] == min && same_json(&g[i].0, &stdout)), "C16:printed-parameters-are-not-the-best");
    symx::check(text("stderr").is_empty() != verbose, "C16:log");
    match out {
        None => symx::check(ls("out").is_none() && ls("new").is_none(), "C16:files"),
        Some(o) => match ls(o) {
            None => symx::check(false, "C16:files"),
            Some(f) => {
                symx::check(f.names() == ["best_seen.json", "detailed_report.csv", "summary_report.txt"], "C16:files");
                symx::check(f.get("best_seen.json").map_or(false, |b| same_json(std::str::from_utf8(b).unwrap_or(""), &stdout)), "C16:best-seen-file");
                let rows = rows(std::str::from_utf8(f.get("detailed_report.csv").unwrap_or(b"")).unwrap_or(""));
                symx::check(rows.map_or(false, |r| r.len() == 3), "C16:detailed-report");
                let s = String::from_utf8(f.get("summary_report.txt").unwrap_or(b"").to_vec()).unwrap_or_default();
                let acc = res.iter().filter(|r| **r != 2).count();
                let best = ["2.5", "1"][min];
                symx::check(s.lines().any(|l| l.ends_with(&format!(": {}", best))) && s.lines().any(|l| l.contains("completed") && l.ends_with(&format!(": {}", acc))) && s.lines().any(|l| l.contains("rejected") && l.ends_with(&format!(": {}", 3 - acc))), "C16:summary");
                symx::cover("files");
            }
        },
    }
    symx::cover("end");
}
fn cli_digits(spec: &S) {
    let d: Vec<u8> = (0..3).map(|_| { let c = symx::u8("digit"); symx::assume(c.is_ascii_digit()); c }).collect();
    for (i, c) in d.iter().enumerate() { let mut t = b"{\"objFuncVal\": 0}".to_vec(); t[15] = *c; answer(i, &t, 0); }
    let obj = os::path("obj").into_bytes();
    let code = cli(&[b"-s", b"spec.yaml", b"-n", b"3", &obj]);
    symx::check(code == 0, "C16:exit-status");
    let g = given(&[], spec);
    symx::check(g.len() == 3, "C16:number-of-children");
    if g.len() != 3 { return; }
    let stdout = text("stdout");
    symx::check(one_line(&stdout, spec), "C16:stdout");
    symx::check((0..3).any(|i| d.iter().all(|x| d[i] <= *x) && same_json(&g[i].0, &stdout)), "C16:printed-parameters-are-not-the-best");
    symx::cover("digits");
    symx::cover("end");
}
/// Runs that fail: a message, a non-zero exit status, nothing on stdout, diagnostic files.
pub fn cli_fail() {
    let spec = put_spec(symx::choose(2, "spec"));
    let out = symx::flip("out");
    let verbose = symx::flip("verbose");
    let kind = symx::choose(12, "kind");
    let first = symx::flip("first");
    let wide = if kind >= 10 { wide() } else { vec![] };
    let bad: (&[u8], &[u8], u64) = [(&b"{\"objFuncVal\": 1}"[..], &b"oops\xff"[..], 1), (b"", b"", 2), (b"nonsense\xfe", b"why", 0), (b"{\"objFuncVal\": 1, \"y\": 2}", b"", 0), (b"[1]", b"", 0), (b"", b"", 0), (b"{\"objFuncVal\": \"1\"}", b"", 0), (b"", b"", 0), (b"", b"", 0), (b"{\"objFuncVal\": 1}", b"", 9 << 8), (b"{\"objFuncVal\": 1}", &wide, 1), (&wide, &wide, 0)][kind];
    let prog = match kind { 7 => "missing", 8 => { std::fs::write(os::path("plain"), "x").unwrap(); "plain" } _ => "obj" };
    let at = if first { 0 } else { 1 };
    for i in 0..3 {
        if i == at { os::act(i, 40, os::ERR, 0, bad.1); answer(i, bad.0, bad.2) } else { answer(i, b"{\"objFuncVal\": 7}", 0) }
    }
    let prog_bad = prog != "obj";
    let prog = os::path(prog).into_bytes();
    let mut a: Vec<&[u8]> = vec![b"-s", b"spec.yaml", b"-n", b"3"];
    if out { a.extend([&b"--out-dir"[..], b"out"]); }
    if verbose { a.push(b"--verbose"); }
    a.push(&prog);
    a.push(b"u");
    let code = cli(&a);
    symx::check(code != 0, "C16:exit-status");
    symx::check(text("stdout").is_empty(), "C16:stdout");
    let e = std::fs::read(os::path("stderr")).unwrap_or_default();
    symx::check(e.windows(6).any(|w| w == b"Error:"), "C16:error-message");
    if prog_bad { symx::check(os::procs().is_empty(), "C16:unlaunchable"); if out { symx::check(ls("out").map_or(false, |f| f.names().iter().all(|n| !n.starts_with("failed"))), "C16:files") } symx::cover("unlaunchable"); }
    else {
        let g = given(&[b"u"], &spec);
        symx::check(g.len() == at + 1, "C16:number-of-children");
        if g.len() != at + 1 { return; }
        match ls("out") {
            None => symx::check(!out, "C16:files"),
            Some(f) => {
                symx::check(out, "C16:files");
                symx::check(f.get("failed_obj_func_stdout") == Some(bad.0) && f.get("failed_obj_func_stderr") == Some(bad.1), "C16:failed-output");
                let t = String::from_utf8(f.get("failed_obj_func_arg").unwrap_or(b"").to_vec()).unwrap_or_default();
                let (j, s) = &g[at];
                symx::check((t.contains(&**j) || t.contains(&format!("{:?}", j))) && t.trim_end().ends_with(&**s), "C16:failed-arguments");
                symx::check(f.get("summary_report.txt").is_none(), "C16:files");
                symx::cover("dumped");
            }
        }
    }
    symx::cover("end");
}
/// What becomes of a directory that exists already.
pub fn cli_out() {
    let there = symx::choose(4, "there");
    match there {
        0 => {}
        1 => std::fs::create_dir(os::path("out")).unwrap(),
        2 => { std::fs::create_dir(os::path("out")).unwrap(); std::fs::create_dir(os::path("out/sub")).unwrap(); for n in ["best_seen.json", "old", "sub/deep"] { std::fs::write(os::path(&format!("out/{}", n)), n).unwrap(); } }
        _ => std::fs::write(os::path("out"), "file").unwrap(),
    }
    let force = symx::choose(3, "force");
    let good = symx::flip("spec");
    put_spec(0);
    if !good { std::fs::write(os::path("spec.yaml"), "type: nothing").unwrap(); }
    for i in 0..2 { answer(i, b"{\"objFuncVal\": 7}", 0); }
    let prog = os::path("obj").into_bytes();
    let name = [&b"out"[..], b"./out/"][symx::choose(2, "name")];
    let mut a: Vec<&[u8]> = vec![b"-n", b"2", b"-o", name, b"-s", b"spec.yaml"];
    if force > 0 { a.push([&b"-f"[..], b"--force"][force - 1]); }
    a.push(&prog);
    let before = ls("out");
    let code = cli(&a);
    let after = ls("out");
    let refused = there != 0 && force == 0;
    if refused {
        symx::check(code != 0, "C16:existing-directory-accepted");
        match (&before, &after) {
            (Some(b), Some(a)) => { symx::check(b.0 == a.0, "C16:existing-directory-touched"); if there == 2 { symx::check(std::fs::read(os::path("out/sub/deep")).map_or(false, |d| d == b"sub/deep"), "C16:existing-directory-touched"); } }
            (None, None) => symx::check(text("out") == "file", "C16:existing-directory-touched"),
            _ => symx::check(false, "C16:existing-directory-touched"),
        }
        symx::cover("refused");
    } else if there != 3 {
        symx::check((code == 0) == good, "C16:exit-status");
        if let Some(a) = &after { symx::check(a.get("old").is_none() && !a.names().contains(&"sub"), "C16:old-files-stay"); if good { symx::check(a.names() == ["best_seen.json", "detailed_report.csv", "summary_report.txt"], "C16:files"); } } else { symx::check(!good, "C16:files") }
        symx::cover("made");
    }
    if code != 0 { symx::check(text("stdout").is_empty() && text("stderr").contains("Error:"), "C16:error-message"); symx::check(os::procs().is_empty(), "C16:evaluated-in-spite-of-invalid-options"); }
    symx::cover("end");
}
/// Options that make no sense, among ones that do.
pub fn cli_invalid() {
    put_spec(0);
    std::fs::write(os::path("empty.yaml"), "").unwrap();
    std::fs::write(os::path("latin.yaml"), b"type: int # \xe4\n").unwrap();
    for i in 0..4 { answer(i, b"{\"objFuncVal\": 7}", 0); }
    let prog = os::path("obj").into_bytes();
    let bad: &[&[&[u8]]] = &[
        &[b"--num-concurrent", b"0"], &[b"--sample-size", b"0"], &[b"--num-concurrent", b"-1"], &[b"--sample-size", b"1.5"], &[b"-n", b"x"], &[b"-n", b"-1"], &[b"-n", b"3", b"-n", b"4"], &[b"-n"], &[b"--max-obj-func-eval="],
        &[b"-t", b"one"], &[b"-t", b"1", b"-t", b"2"], &[b"--terminate-after", b"soon"], &[b"--terminate-after", b""], &[b"--terminate-after", b"-5s"], &[b"-k", b"later"], &[b"-k", b"5 parsecs"], &[b"--kill-obj-func-after", b"\xff"],
        &[b"--initial-guess", b"{"], &[b"--initial-guess", b"\"a\""], &[b"--initial-guess", b"1.5"], &[b"--initial-guess", b""], &[b"--bogus"], &[b"-z"], &[b"-s", b"spec.yaml"], &[b"--force=maybe"], &[b"-n", b"18446744073709551616"],
    ];
    let n = symx::choose(bad.len() + 6, "bad");
    let later = symx::flip("later");
    let out = symx::flip("out");
    let mut a: Vec<&[u8]> = vec![];
    let mut spec: &[u8] = b"spec.yaml";
    let mut with_prog = true;
    if n >= bad.len() {
        match n - bad.len() { 0 => spec = b"missing.yaml", 1 => spec = b"empty.yaml", 2 => spec = b"latin.yaml", 3 => spec = b".", 4 => with_prog = false, _ => {} }
    } else if !later { a.extend(bad[n]); }
    if n != bad.len() + 5 { a.extend([&b"-s"[..], spec]); }
    if out { a.extend([&b"-o"[..], b"out"]); }
    if n < bad.len() && later { a.extend(bad[n]); }
    if with_prog { a.push(&prog); }
    let code = cli(&a);
    symx::check(code != 0, "C16:exit-status");
    symx::check(os::procs().is_empty(), "C16:evaluated-in-spite-of-invalid-options");
    symx::check(text("stdout").is_empty(), "C16:stdout");
    symx::check(!std::fs::read(os::path("stderr")).unwrap_or_default().is_empty(), "C16:error-message");
    symx::cover("end");
}
/// A character put into or over a duration, and a list of texts that are none or look like one.
pub fn cli_duration() {
    put_spec(0);
    for i in 0..4 { answer(i, b"{\"objFuncVal\": 7}", 0); }
    let texts: &[&[u8]] = &[b"", b" ", b"s", b"ms", b"1", b"1s,2x", b"1s, 2s", b"1s 2x", b"1m 30s", b"2 parsecs", b"1 minute", b"one minute", b"1.5.5s", b"1s;", b"x1s", b"1e400s", b"1 s s", b"0.5 s", b"12 hours", b"99999999999999999999s", b"1s\n", b"\t1s", b"none", b"NaN s", b"inf", b"0x1s", b"--1s", b"+1s"];
    let which = symx::choose(texts.len() + 3, "text");
    let mut t: Vec<u8> = if which < texts.len() { texts[which].to_vec() } else { b"10s".to_vec() };
    if which >= texts.len() {
        let c = symx::u8("char");
        symx::assume(c > 0 && c < 128);
        let at = which - texts.len();
        if at < 2 { t[2 * at] = c } else { t.insert(2, c) }
    }
    let kill = which % 2 == 0;
    let s = String::from_utf8(t.clone()).unwrap();
    let prog = os::path("obj").into_bytes();
    let opt: &[u8] = if kill { b"-k" } else { b"--terminate-after" };
    let want = parse_duration::parse(&s);
    // a limit that ends evaluations at once would keep the run going for ever
    symx::assume(want.as_ref().map_or(true, |d| d.as_millis() > 300));
    let code = cli(&[b"-s", b"spec.yaml", opt, &t, b"-n", b"2", &prog]);
    match want {
        Ok(_) if !s.starts_with('-') => { symx::check(code == 0, "C16:valid-option-refused"); symx::cover("accepted") }
        Ok(_) => {}
        Err(_) => { symx::check(code != 0, "C16:invalid-option-accepted"); symx::check(os::procs().is_empty(), "C16:evaluated-in-spite-of-invalid-options"); symx::cover("refused") }
    }
    symx::cover("end");
}
/// One or two characters as the value of an option that takes a number.
pub fn cli_number() {
    put_spec(0);
    for i in 0..16 { answer(i, b"{\"objFuncVal\": 7}", 0); }
    let which = symx::choose(5, "which");
    let opt: &[u8] = [&b"-n"[..], b"--num-concurrent", b"--sample-size", b"-t", b"--initial-guess"][which];
    let n = 1 + symx::choose(2, "len");
    let mut t: Vec<u8> = (0..n).map(|_| { let c = symx::u8("char"); symx::assume(c > 0 && c < 128); c }).collect();
    for c in t.iter_mut() { if c.is_ascii_digit() { *c = symx::conc(*c as u64) as u8; } }
    let s = String::from_utf8(t.clone()).unwrap();
    if which < 2 { symx::assume(s.parse::<usize>().map_or(true, |n| n <= 12)); }
    let prog = os::path("obj").into_bytes();
    let mut a: Vec<&[u8]> = vec![b"-s", b"spec.yaml", opt, &t];
    if which != 0 { a.extend([&b"-n"[..], b"2"]); }
    a.push(&prog);
    let code = cli(&a);
    let small = |x: usize| x == 1;
    // None: not judged
    let want = match which {
        0 => s.parse::<usize>().ok().map(|x| x >= 1),
        1 => s.parse::<usize>().ok().map(|x| x >= 1),
        2 => s.parse::<usize>().ok().map(small),
        3 => s.parse::<f64>().ok().map(|x| x.is_finite()),
        _ => serde_json::from_str::<serde_json::Value>(&s).ok().map(|v| v.is_i64()),
    };
    if s.starts_with('-') { if which < 3 { symx::check(code != 0, "C16:exit-status"); } }
    else {
        match want {
            Some(true) => { symx::check(code == 0, "C16:valid-option-refused"); symx::check(text("stdout").matches('\n').count() == 1, "C16:stdout"); symx::cover("accepted") }
            Some(false) if which == 3 || which == 2 && s.parse::<usize>().map_or(false, |n| n > 1) => {}
            _ => { symx::check(code != 0, "C16:invalid-option-accepted"); symx::check(os::procs().is_empty(), "C16:evaluated-in-spite-of-invalid-options"); symx::cover("refused") }
        }
    }
    symx::cover("end");
}
/// Runs that are ended by time limits, a target or an interrupt.
pub fn cli_stop() {
    put_spec(0);
    let kind = symx::choose(5, "kind");
    let conc = 1 + symx::choose(2, "conc");
    let before = symx::choose(3, "before");
    let out = symx::flip("out");
    // some evaluations that end, then ones that do not
    for i in 0..8 { if i < before { os::act(i, 100, os::OUT, 0, [&b"{\"objFuncVal\": 3}"[..], b"{\"objFuncVal\": 2}"][i]); os::act(i, 100, os::EXIT, 0, b""); } else { os::act(i, 0, os::IGN, 0, b""); } }
    let prog = os::path("obj").into_bytes();
    let mut a: Vec<&[u8]> = vec![b"-s", b"spec.yaml", b"--num-concurrent", [&b"1"[..], b"2"][conc - 1]];
    if out { a.extend([&b"-o"[..], b"out"]); }
    let t0 = os::clock();
    // the run is told to stop at 350 ms, evaluations are cut off after 400 ms
    match kind {
        0 => a.extend([&b"--terminate-after"[..], b"350ms"]),
        1 => { os::signal(350, 2) }
        2 => { a.extend([&b"-k"[..], b"0.4 s", b"-n", b"4"]) }
        3 => { a.extend([&b"-t"[..], b"2.0", b"-k", b"400 milliseconds", b"-n", b"4"]) }
        _ => { a.extend([&b"-k"[..], b"400ms", b"--terminate-after", b"1000 ms"]) }
    }
    a.push(&prog);
    let code = cli(&a);
    let t1 = os::clock();
    let ps = os::procs();
    for q in &ps { symx::check(!q.alive, "C16:child-alive-at-exit"); }
    symx::check((code == 0) == (before > 0), "C16:exit-status");
    symx::check(text("stdout").matches('\n').count() == (before > 0) as usize, "C16:stdout");
    if before > 0 {
        let i = (0..before).max().unwrap();
        let best = ps.iter().position(|q| q.main && q.ord == i as i64).unwrap();
        symx::check(same_json(std::str::from_utf8(&os::arg(best, 1)).unwrap_or(""), &text("stdout")), "C16:printed-parameters-are-not-the-best");
        if out { symx::check(ls("out").map_or(false, |f| f.names() == ["best_seen.json", "detailed_report.csv", "summary_report.txt"]), "C16:files"); }
        symx::cover("best");
    } else { symx::check(text("stderr").contains("Error:"), "C16:error-message"); symx::cover("none"); }
    let end = match kind { 0 | 1 => 350, 4 => 1000, 3 if before == 2 => 100 * (3 - conc as u64), _ => 5000 };
    if kind != 2 && !(kind == 3 && before < 2) { symx::check(t1 <= t0 + end + 2 * SLACK && t1 + SLACK >= t0 + end, "C16:duration"); }
    else { symx::check(ps.iter().filter(|q| q.main).count() == 4, "C16:number-of-children"); }
    symx::cover("end");
}
/// The library refuses the same things.
pub fn config() {
    let kind = symx::choose(6, "kind");
    let mut b = AlgoConfigBuilder::new();
    match kind { 0 => { b.num_concurrent(0); } 1 => { b.individual_sample_size(0); } _ => {} }
    let c = b.build();
    if kind < 2 { symx::check(matches!((kind, c), (0, Err(Error::ZeroNumConcurrent)) | (1, Err(Error::ZeroSampleSize))), "C16:config"); symx::cover("end"); return; }
    let crit = match kind { 2 => vec![T::NumObjFuncEval(1), T::NumObjFuncEval(2)], 3 => vec![T::TargetObjFuncVal(1.0), T::NumObjFuncEval(1), T::TargetObjFuncVal(1.0)], 4 => vec![T::TerminateAfter(Duration::from_millis(100)), T::TerminateAfter(Duration::from_millis(100))], _ => vec![T::Signal, T::Signal] };
    let mut conf = p(1, crit);
    conf.files = if symx::flip("files") { Some(("detailed.csv", "best_seen.json")) } else { None };
    let r = run(conf);
    symx::check(matches!(r, Err(Error::ConflictingTerminationCriteria)), "C16:conflicting-criteria");
    symx::check(os::procs().is_empty(), "C16:evaluated-in-spite-of-invalid-options");
    symx::cover("end");
}
