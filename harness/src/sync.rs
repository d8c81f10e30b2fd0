//! Whole runs of `sync_launch::launch` with an objective function that is a plain function,
//! computed by the threads of the runtime (the operating system is modelled, see `symx::os`).
use cambrian::error::Error;
use cambrian::meta::{make_obj_func, AlgoConfigBuilder};
use cambrian::spec::{Node as S, Spec};
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion as T;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symx::os;

struct Call { value: serde_json::Value, start: u64, end: Option<u64>, at_once: usize }
#[derive(Clone, Copy, PartialEq)]
enum Stop { Budget, Target, Limit(u64), Interrupt(u64), Twice(u64) }
const SLACK: u64 = 80;
/// What the k-th call returns, and after how many ms.
type Script = Vec<(Option<f64>, u64)>;
fn scenario(p: &str, n: usize, conc: usize, threads: bool, stop: Stop, files: bool, script: Script) {
    let log: Arc<Mutex<Vec<Call>>> = Arc::default();
    let (l, s) = (log.clone(), script.clone());
    let f = make_obj_func(move |value: serde_json::Value| -> Option<f64> {
        let k = {
            let mut l = l.lock().unwrap();
            let at_once = 1 + l.iter().filter(|c| c.end.is_none()).count();
            l.push(Call { value, start: os::clock(), end: None, at_once });
            l.len() - 1
        };
        let (v, ms) = s.get(k).copied().unwrap_or((Some(9.0), 100));
        if ms > 0 { std::thread::sleep(Duration::from_millis(ms)); }
        l.lock().unwrap()[k].end = Some(os::clock());
        v
    });
    let spec = if files { S::Array { size: 8, value_type: Box::new(S::Int { init: 3, scale: 100.0, min: None, max: None }) } } else { S::Optional { value_type: Box::new(S::Bool { init: false }), init_present: true } };
    let mut crit = vec![T::NumObjFuncEval(n)];
    match stop {
        Stop::Budget => {}
        Stop::Target => crit.push(T::TargetObjFuncVal(0.0)),
        Stop::Limit(t) => crit.push(T::TerminateAfter(Duration::from_millis(t))),
        Stop::Interrupt(t) => { crit.push(T::Signal); os::signal(t, 2) }
        Stop::Twice(t) => { crit.push(T::TerminateAfter(Duration::from_millis(t))); crit.push(T::Signal); os::signal(t, 2); os::signal(t + 2, 2) }
    }
    let info = if files { Some(DetailedReportingFileInfo { detailed_report_file_path: os::path("detailed.csv").into(), best_seen_file_path: os::path("best.json").into() }) } else { None };
    let cfg = AlgoConfigBuilder::new().num_concurrent(conc).build().unwrap();
    let t0 = os::clock();
    let r = sync_launch::launch(Spec(spec.clone()), f, cfg, crit, None, threads, info.as_ref());
    let t1 = os::clock();
    let is = |q: &str| p == q;
    let log = log.lock().unwrap();
    let val = |k: usize| script.get(k).map_or((Some(9.0), 100), |x| *x).0;
    let asked = match stop { Stop::Limit(t) | Stop::Interrupt(t) | Stop::Twice(t) => t0 + t, _ => u64::MAX / 2 };
    let ended = |k: usize| log[k].end.unwrap_or(u64::MAX / 2);
    let mut hit = u64::MAX / 2;
    let mut fail = u64::MAX / 2;
    for k in 0..log.len() { match val(k) { Some(v) if !v.is_finite() => fail = fail.min(ended(k)), Some(v) if stop == Stop::Target && v <= 0.0 => hit = hit.min(ended(k)), _ => {} } }
    let t_stop = asked.min(hit).min(fail);
    let stopped = t_stop < u64::MAX / 2;
    if is("C08") { symx::check(log.first().map_or(true, |c| c.value == serde_json::Value::Bool(false)), "C08:first-value"); }
    if is("C05") {
        symx::check(log.iter().all(|c| c.at_once <= conc), "C05:too-many-in-flight");
        // replaced at once: the k-th call starts when the (k - conc)-th ends at the latest
        if threads && !stopped {
            let mut ends: Vec<u64> = (0..log.len()).map(ended).collect();
            ends.sort();
            for k in 0..log.len() { let due = if k < conc { t0 } else { ends[k - conc] }; symx::check(log[k].start <= due + SLACK, "C05:not-replaced"); }
            symx::cover("full");
        }
    }
    if is("C03") {
        symx::check(log.len() <= n, "C03:budget-exceeded");
        if !stopped {
            symx::check(log.len() == n, "C03:budget-not-used");
            if let Ok(r) = &r { symx::check(r.num_obj_func_eval_completed + r.num_obj_func_eval_rejected == n, "C03:counts"); symx::cover("exact"); }
        }
    }
    if is("C04") && t_stop != fail {
        if stopped {
            // a function running on a thread of its own cannot be told to abort
            symx::check(log.iter().all(|c| c.start <= t_stop + SLACK || !threads), "C04:started-after-stop");
            let busy = (0..log.len()).map(ended).max().unwrap_or(t_stop);
            symx::check(t1 <= t_stop.max(busy) + SLACK, "C04:return-delayed");
        }
        let before = (0..log.len()).filter(|k| ended(*k) + SLACK < t_stop);
        if stopped && t_stop == hit && asked > hit + SLACK && fail > hit + SLACK { symx::check(matches!(&r, Ok(f) if f.best_seen.obj_func_val <= 0.0), "C04:target-reached-but-not-reported"); symx::cover("hit"); }
        else if stopped && fail > t_stop + SLACK {
            match &r {
                Ok(f) => { symx::check(before.filter_map(val).all(|v| f.best_seen.obj_func_val <= v), "C04:best-seen-lost"); symx::cover("asked") }
                Err(Error::NoIndividuals) => symx::check(before.filter_map(val).count() == 0, "C04:best-seen-lost"),
                Err(_) => symx::check(false, "C04:error-instead-of-best"),
            }
        }
    }
    if is("C06") && fail + SLACK < asked.min(hit) {
        symx::check(matches!(r, Err(Error::ObjFuncValMustBeFinite)), "C06:failure-not-reported");
        symx::check(!threads || log.iter().all(|c| c.start <= fail + SLACK), "C06:started-after-failure");
        symx::cover("failure");
    }
    if !stopped || t_stop == hit && fail > hit + SLACK {
        match &r {
            Ok(f) => {
                let v = f.best_seen.obj_func_val;
                if is("C02") {
                    symx::check((0..log.len()).any(|k| val(k).map_or(false, |w| w.to_bits() == v.to_bits()) && log[k].value == f.best_seen.value), "C02:not-an-evaluation");
                    if !stopped { symx::check((0..log.len()).all(|k| val(k).map_or(true, |w| v <= w)), "C02:not-the-minimum"); }
                    symx::cover("report");
                }
                if is("C14") && !stopped {
                    symx::check(f.num_obj_func_eval_completed == (0..log.len()).filter(|k| val(*k).is_some()).count() && f.num_obj_func_eval_rejected == (0..log.len()).filter(|k| val(*k).is_none()).count(), "C14:counts");
                    symx::cover("counts");
                }
            }
            Err(e) => if is("C02") { symx::check(matches!(e, Error::NoIndividuals) && (stopped || (0..log.len()).all(|k| val(k).is_none())), "C02:error"); }
        }
    }
    if files {
        // what has been processed: the records of the report, by parameter set
        let text = std::fs::read_to_string(os::path("detailed.csv")).unwrap_or_default();
        let rows = match crate::procs::rows(&text) { Some(r) => r, None => { symx::check(false, "C14:report-malformed"); return } };
        let mut seen: Vec<f64> = vec![];
        let mut acc = 0;
        let best = std::fs::read_to_string(os::path("best.json")).ok();
        let mut mine = None;
        for w in &rows {
            let k = w.id;
            symx::check(rows.iter().filter(|v| v.id == k).count() == 1, "C14:duplicate-record");
            if k >= log.len() { symx::check(false, "C14:record-of-nothing"); return; }
            let known = log.iter().filter(|c| c.value.to_string() == w.value).count();
            if known != 1 { symx::cover("ambiguous"); return; }
            let k = log.iter().position(|c| c.value.to_string() == w.value).unwrap();
            symx::check(w.result.is_empty() == val(k).is_none(), "C14:record-result");
            if let Some(v) = val(k) { seen.push(v); acc += 1; if best.as_deref() == Some(&w.value) { mine = Some(v); } }
        }
        if !stopped { symx::check(rows.len() == log.len(), "C14:missing-record"); }
        symx::check(best.is_some() == (acc > 0), "C14:best-seen-presence");
        if let Some(m) = mine { symx::check(seen.iter().all(|v| m <= *v), "C14:best-seen-is-not-a-minimum"); symx::cover("best") } else { symx::check(acc == 0, "C14:best-seen-is-not-a-minimum") }
        if let Ok(f) = &r { symx::check((f.num_obj_func_eval_completed == acc) & (f.num_obj_func_eval_rejected == rows.len() - acc) & mine.map_or(false, |m| m == f.best_seen.obj_func_val), "C14:best-seen-is-not-the-report's"); }
    }
    if is("C15") { symx::check(!matches!(r, Err(Error::ClientHungUp)), "C15:error"); symx::cover("run"); }
    symx::cover("end");
}
fn outcome() -> Option<f64> {
    match symx::choose(3, "kind") { 0 => None, 1 => Some(f64::NAN), _ => { let v = symx::f64("value"); symx::assume(v.abs() <= 1e300); Some(v) } }
}
fn any(p: &str, n: usize, max_conc: usize, stops: &[Stop]) {
    let n = 1 + symx::choose(n, "n");
    let conc = 1 + symx::choose(max_conc, "conc");
    let threads = symx::flip("threads");
    let stop = stops[symx::choose(stops.len(), "stop")];
    // a busy thread notices nothing
    if !threads && p != "C15" && matches!(stop, Stop::Limit(_) | Stop::Interrupt(_) | Stop::Twice(_)) { symx::kill(); }
    let script: Script = (0..n).map(|_| { let o = outcome(); (o, [0, 100, 300][symx::choose(3, "duration")]) }).collect();
    scenario(p, n, conc, threads, stop, false, script)
}
const FREE: [Stop; 2] = [Stop::Budget, Stop::Target];
const ALL: [Stop; 5] = [Stop::Budget, Stop::Target, Stop::Limit(150), Stop::Interrupt(150), Stop::Twice(150)];
pub fn c02() { any("C02", 3, 2, &FREE) }
pub fn c03() { any("C03", 3, 2, &FREE) }
pub fn c04() { any("C04", 3, 2, &ALL) }
pub fn c05() { any("C05", 3, 2, &FREE) }
pub fn c06() { any("C06", 3, 2, &ALL) }
pub fn c08() { any("C08", 2, 2, &FREE) }
pub fn c14() { any("C14", 3, 2, &FREE) }
/// The files of runs with arbitrary objective values; numbers are printed as "0" by the executor
/// (`vh_fmt`), so that the values stay arbitrary.
pub fn c14_values() {
    let n = 2 + symx::choose(3, "n");
    let conc = 1 + symx::choose(2, "conc");
    let threads = symx::flip("threads");
    let stop = FREE[symx::choose(2, "stop")];
    let script: Script = (0..n).map(|_| (if symx::flip("rejected") { None } else { let v = symx::f64("value"); symx::assume(v.abs() <= 1e300); Some(v) }, 100)).collect();
    scenario("C14", n, conc, threads, stop, true, script)
}
#[no_mangle] pub fn vh_fmt(_: &f64, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("0") }
/// More functions at once than the other entries have.
fn wide(p: &str) {
    let conc = 3 + symx::choose(6, "conc");
    let n = conc + symx::choose(3, "more");
    let stop = FREE[symx::choose(2, "stop")];
    let mode = symx::choose(3, "duration");
    let script: Script = (0..n).map(|k| (Some(1.0 + k as f64), match mode { 0 => 100, 1 => 100 * (1 + k as u64 % 2), _ => 100 * (1 + k as u64 % 3) })).collect();
    scenario(p, n, conc, true, stop, false, script)
}
pub fn c05_wide() { wide("C05") }
pub fn c03_wide() { wide("C03") }
pub fn c15() { any("C15", 3, 2, &ALL) }
