//! A whole run (`async_launch::launch`) driven by hand: the environment decides which evaluation
//! ends when and how, and when a terminate command arrives; monitors watch every start, every
//! abort notification, the report stream and the final report.
use crate::gen::*;
use async_trait::async_trait;
use cambrian::async_launch;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::spec::{Node as S, Spec};
use cambrian::verif_hooks::DetailedReportItem;
use futures::channel::mpsc;
use futures::Stream;
use serde_json::Value as J;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// How one evaluation ends.
#[derive(Clone, Copy, PartialEq)]
pub enum Out { Accept(f64), Reject, Fail(i32), NonFinite(f64) }

pub struct Ev {
    pub seed: u64,
    pub id: usize,
    pub json: J,
    pub out: Option<Out>,
    /// the future has returned the outcome (or was dropped)
    pub ended: bool,
    pub dropped: bool,
    pub saw_abort: bool,
    /// number of results processed before this start
    pub started_at_poll: usize,
    waker: Option<Waker>,
}
#[derive(Default)]
pub struct Log {
    pub ev: Vec<Ev>,
    /// order in which evaluations delivered their result
    pub delivered: Vec<usize>,
    pub polls: usize,
}
pub struct Shared(UnsafeCell<Log>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn get(&self) -> &mut Log { unsafe { &mut *self.0.get() } }
}
pub struct Obj { pub log: Arc<Shared>, pub honour: bool }
struct EvalFut { log: Arc<Shared>, idx: usize, abort: async_broadcast::Receiver<()>, honour: bool, done: bool }
unsafe impl Send for EvalFut {}
impl Drop for EvalFut {
    fn drop(&mut self) { let e = &mut self.log.get().ev[self.idx]; if !self.done { e.dropped = true; } e.ended = true; e.waker = None; }
}
impl Future for EvalFut {
    type Output = Result<Option<f64>, Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let aborted = match Pin::new(&mut self.abort).poll_next(cx) { Poll::Ready(Some(())) => true, _ => false };
        let log = self.log.get();
        let idx = self.idx;
        let e = &mut log.ev[idx];
        if aborted { e.saw_abort = true; }
        if e.out.is_none() && e.saw_abort && self.honour { e.out = Some(Out::Reject); }
        match e.out {
            None => { e.waker = Some(cx.waker().clone()); Poll::Pending }
            Some(o) => {
                e.ended = true;
                log.delivered.push(idx);
                self.done = true;
                Poll::Ready(match o {
                    Out::Accept(v) | Out::NonFinite(v) => Ok(Some(v)),
                    Out::Reject => Ok(None),
                    Out::Fail(k) => Err(Error::Io(std::io::Error::from_raw_os_error(k))),
                })
            }
        }
    }
}
#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(&self, value: J, abort: async_broadcast::Receiver<()>, seed: u64, id: usize) -> Result<Option<f64>, Error> {
        let fut = {
            let log = self.log.get();
            let idx = log.ev.len();
            let polls = log.polls;
            log.ev.push(Ev { seed, id, json: value, out: None, ended: false, dropped: false, saw_abort: false, started_at_poll: polls, waker: None });
            EvalFut { log: self.log.clone(), idx, abort, honour: self.honour, done: false }
        };
        fut.await
    }
}
pub struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }

pub type Launch = Pin<Box<dyn Future<Output = Result<FinalReport, Error>>>>;
/// A run in progress.
pub struct Run {
    pub log: Arc<Shared>,
    pub fut: Launch,
    pub cmd: mpsc::Sender<Command>,
    pub report: mpsc::Receiver<DetailedReportItem>,
    pub items: Vec<DetailedReportItem>,
    pub flag: Arc<Flag>,
    pub result: Option<Result<FinalReport, Error>>,
    pub spun: bool,
}
pub struct Conf {
    pub spec: S,
    pub sample: usize,
    pub conc: usize,
    pub n: Option<usize>,
    pub target: Option<f64>,
    pub init: Option<J>,
    pub honour: bool,
    pub report_cap: usize,
}
pub fn start(c: Conf) -> Run {
    let log = Arc::new(Shared(UnsafeCell::new(Log::default())));
    let (cmd, cmd_recv) = mpsc::channel::<Command>(8);
    let (rs, report) = mpsc::channel::<DetailedReportItem>(c.report_cap);
    let cfg = AlgoConfigBuilder::new().individual_sample_size(c.sample).num_concurrent(c.conc).build().unwrap();
    let obj = Obj { log: log.clone(), honour: c.honour };
    let fut: Launch = Box::pin(async_launch::launch(Spec(c.spec), obj, cfg, cmd_recv, rs, c.n, c.target, c.init));
    Run { log, fut, cmd, report, items: vec![], flag: Arc::new(Flag(AtomicBool::new(true))), result: None, spun: false }
}
impl Run {
    /// Poll until the run has ended or waits for an event from outside.
    pub fn drive(&mut self) {
        if self.result.is_some() { return; }
        let w = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&w);
        let mut k = 0;
        while self.flag.0.swap(false, Ordering::SeqCst) {
            k += 1;
            if k > 60 { self.spun = true; return; }
            self.log.get().polls += 1;
            if let Poll::Ready(r) = self.fut.as_mut().poll(&mut cx) { self.result = Some(r); break; }
            self.drain();
        }
        self.drain();
    }
    pub fn drain(&mut self) { while let Ok(i) = self.report.try_recv() { self.items.push(i); } }
    pub fn terminate(&mut self) { self.cmd.try_send(Command::Terminate).ok().unwrap(); }
    pub fn finish(&mut self, idx: usize, o: Out) {
        let e = &mut self.log.get().ev[idx];
        e.out = Some(o);
        if let Some(w) = e.waker.take() { w.wake(); }
    }
    pub fn evs(&self) -> &Vec<Ev> { &self.log.get().ev }
    pub fn running(&self) -> Vec<usize> { (0..self.evs().len()).filter(|i| !self.evs()[*i].ended).collect() }
    /// In flight with no outcome assigned yet.
    pub fn open(&self) -> Vec<usize> { (0..self.evs().len()).filter(|i| !self.evs()[*i].ended && self.evs()[*i].out.is_none()).collect() }
}

/// What the environment may do in an exploration.
pub struct Env {
    pub conf: Conf,
    pub outcomes: &'static [u8], // kinds: b'a' accept, b'c' accept with a value that falls every second time, b'x' accept with a huge, tiny or zero value, b's' accept with a small whole value, b'r' reject, b'f' fail, b'n' non-finite
    pub terminate: bool,
    /// up to this many evaluations end between two polls
    pub batch: usize,
    /// evaluations after which the exploration stops (None: until the run ends)
    pub events: usize,
    /// the terminate command may already be waiting when the run starts
    pub early: bool,
    pub mag: f64,
    /// the first evaluations end in order of their start, with these outcomes
    pub warm: Option<(usize, fn(usize) -> Out)>,
    /// in which order evaluations end (None: any order)
    pub order: Option<usize>,
    /// terminate commands that may be delivered
    pub requests: usize,
}
fn outcome(e: &Env, k: usize) -> Out {
    match e.outcomes[symx::choose(e.outcomes.len(), "outcome")] {
        b'a' => Out::Accept(symx::f64_mag("val", e.mag)),
        b'c' => Out::Accept(if k % 2 == 0 { k as f64 } else { -(k as f64) }),
        b'x' => Out::Accept([1e300, -1e300, -0.0, 5e-324][symx::choose(4, "extreme")]),
        b's' => Out::Accept(symx::f64_small("val")),
        b'r' => Out::Reject,
        b'f' => Out::Fail(1000 + k as i32),
        _ => { let v = symx::f64("nonfinite"); symx::assume(!symx::finite(v)); Out::NonFinite(v) }
    }
}
fn le(a: f64, b: f64) -> bool { a <= b }

/// Explore one run; checks of the property `p` only.
pub fn explore(p: &str, env: Env) {
    let (n, nc, sample, target) = (env.conf.n, env.conf.conc, env.conf.sample, env.conf.target);
    let init_json = match &env.conf.init { Some(j) => j.clone(), None => json_of(&init_of(&env.conf.spec)) };
    let early = env.early && symx::flip("early");
    let (outcomes, terminate, batch, max_events, mag, warm) = (env.outcomes, env.terminate, env.batch, env.events, env.mag, env.warm);
    let spec = env.conf.spec.clone();
    let e = Env { conf: Conf { spec: S::Const, sample: 1, conc: 1, n: None, target: None, init: None, honour: true, report_cap: 0 }, outcomes, terminate, batch, events: max_events, early: false, mag, warm, order: env.order, requests: env.requests };
    let mut warmed = 0;
    let mut items_before = 0;
    let mut r = start(env.conf);
    let is = |q: &str| p == q;
    let mut asked = 0;
    let mut term = false;       // a terminate command has been delivered
    let mut failed: Option<Out> = None; // the first failure, when it preceded a termination request
    let mut events = 0;
    let mut late_fail = false;
    if early { r.terminate(); term = true; asked = 1; }
    let mut starts_frozen: Option<usize> = None;
    loop {
        let before = r.evs().len();
        let processed_before = r.log.get().delivered.len();
        r.drive();
        symx::check(!r.spun, if is("C15") { "C15:spin" } else { "hang:spin" });
        let log = r.log.get();
        // ---- bookkeeping of what the run has seen
        for k in processed_before..log.delivered.len() {
            match log.ev[log.delivered[k]].out.unwrap() {
                o @ (Out::Fail(_) | Out::NonFinite(_)) if failed.is_none() => { if !term { failed = Some(o) } else { late_fail = true } }
                _ => {}
            }
        }
        let best: Option<f64> = log.delivered.iter().filter_map(|i| match log.ev[*i].out { Some(Out::Accept(v)) => Some(v), _ => None }).fold(None, |m, v| match m { None => Some(v), Some(x) => Some(if symx::decide(v < x) { v } else { x }) });
        let hit = match (target, best) { (Some(t), Some(x)) => if sample == 1 { symx::decide(le(x, t)) } else { means(log, sample).iter().any(|m| symx::decide(le(*m, t))) }, _ => false };
        let stopping = term || failed.is_some() || hit;
        let running = r.running();
        // ---- C03 / C05: bounds
        if is("C03") { if let Some(n) = n { symx::check(log.ev.len() <= n, "C03:budget-exceeded"); } }
        if is("C05") {
            symx::check(running.len() <= nc, "C05:too-many-in-progress");
            for a in 0..running.len() { for b in 0..a { symx::check(log.ev[running[a]].id != log.ev[running[b]].id, "C05:same-individual-twice"); } }
            if r.result.is_none() && !stopping {
                let rest = match n { Some(n) => n - log.delivered.len().min(n), None => nc };
                symx::check(running.len() == nc.min(rest), "C05:not-work-conserving");
                symx::cover("C05:full");
            }
        }
        // ---- C08: seeds, ids, values
        if is("C08") {
            for a in before..log.ev.len() {
                for b in 0..a {
                    symx::check(log.ev[a].seed != log.ev[b].seed, "C08:seed-reused");
                    if log.ev[a].id == log.ev[b].id {
                        symx::check(json_same(&log.ev[a].json, &log.ev[b].json), "C08:individual-changed");
                        symx::cover("C08:reeval");
                    }
                }
                let count = log.ev.iter().filter(|x| x.id == log.ev[a].id).count();
                symx::check(count <= sample, "C08:evaluated-too-often");
            }
            if !log.ev.is_empty() {
                symx::check(json_same(&log.ev[0].json, &init_json), "C08:first-is-not-initial");
            }
        }
        // ---- nothing new starts after a stop
        if let Some(k) = starts_frozen {
            if is("C04") && failed.is_none() { symx::check(log.ev.len() == k, "C04:started-after-stop"); }
            if is("C06") && failed.is_some() { symx::check(log.ev.len() == k, "C06:started-after-failure"); }
        } else if stopping {
            if is("C04") && term { symx::check(log.ev.len() == before, "C04:started-after-terminate"); }
            starts_frozen = Some(log.ev.len());
            // in the poll that observed the stop: one start at most per result processed before it
            if is("C04") && hit && !term && batch == 1 { symx::check(log.ev.len() == before, "C04:started-after-target"); }
            if is("C06") && failed.is_some() && batch == 1 { symx::check(log.ev.len() == before, "C06:started-on-failure"); }
        }
        if (term || failed.is_some()) && r.result.is_none() {
            for i in &running {
                if is("C04") && failed.is_none() { symx::check(log.ev[*i].saw_abort, "C04:in-flight-not-asked-to-abort"); symx::cover("C04:abort-seen"); }
                if is("C06") && failed.is_some() { symx::check(log.ev[*i].saw_abort, "C06:in-flight-not-asked-to-abort"); symx::cover("C06:abort-seen"); }
            }
            // all in-flight evaluations have ended: the run must return
            if is("C04") && failed.is_none() { symx::check(!running.is_empty(), "C04:did-not-return"); }
            if is("C06") && failed.is_some() { symx::check(!running.is_empty(), "C06:did-not-return"); }
        }
        if hit && failed.is_none() && !term && is("C04") { symx::check(r.result.is_some(), "C04:did-not-return-at-target"); }
        if r.result.is_none() && running.is_empty() && !(term || failed.is_some()) { symx::check(false, if is("C15") { "C15:stuck" } else { "hang:stuck" }); }
        // ---- C14: the stream
        if is("C14") {
            symx::check(r.items.len() <= log.delivered.len(), "C14:extra-record");
            for (k, it) in r.items.iter().enumerate().skip(items_before) {
                // a record belongs to the evaluation with that seed
                let ev: Vec<usize> = (0..log.ev.len()).filter(|i| log.ev[*i].seed == it.seed).collect();
                symx::check(ev.len() == 1, "C14:record-seed");
                let x = &log.ev[ev[0]];
                symx::check(x.id == it.individual_id, "C14:record-id");
                symx::check(json_same(&x.json, &it.input_val), "C14:record-value");
                symx::check(match (x.out, it.obj_func_val) { (Some(Out::Accept(a)), Some(b)) => a.to_bits() == b.to_bits(), (Some(Out::Reject), None) => true, _ => false }, "C14:record-result");
                for m in 0..k { symx::check(r.items[m].seed != it.seed, "C14:duplicate-record"); }
                if let Some(mp) = &it.meta_params_used { symx::check(meta_ok(&mp.crossover_params, &mp.mutation_params), "C14:meta-params"); }
            }
        }
        items_before = r.items.len();
        // ---- C01: what the objective function receives
        if is("C01") {
            for x in &log.ev[before..] { symx::check(json_conforms(&spec, &x.json), "C01:evaluated"); }
            if before == 0 && !log.ev.is_empty() { symx::check(json_same(&log.ev[0].json, &init_json), "C01:first-is-not-initial"); }
        }
        if r.result.is_some() { break; }
        if let Some((w, f)) = e.warm {
            if warmed < w {
                let i = r.open()[0];
                r.finish(i, f(warmed));
                warmed += 1;
                continue;
            }
        }
        if events >= max_events { symx::kill(); }
        // ---- the environment's move
        let open = r.open();
        let can_term = e.terminate && asked < e.requests && (!term && failed.is_none() || e.requests > 1);
        let opts = open.len() + can_term as usize;
        if opts == 0 { break; }
        let c = match e.order {
            None => symx::choose(opts, "event"),
            Some(m) if can_term && symx::flip("terminate") => { let _ = m; open.len() }
            Some(_) if open.is_empty() => break,
            Some(0) => 0,
            Some(1) => open.len() - 1,
            // the first evaluation in flight is held back until nothing else can end
            Some(2) => 1.min(open.len() - 1),
            Some(_) => if events % 2 == 0 { 0 } else { open.len() - 1 },
        };
        events += 1;
        if c == open.len() {
            r.terminate();
            asked += 1;
            if failed.is_none() { term = true; }
            // delivered together with results?
            if e.batch > 1 { let open = r.open(); if !open.is_empty() && symx::flip("with-result") { let i = open[symx::choose(open.len(), "which")]; let o = outcome(&e, i); r.finish(i, o); } }
        } else {
            let o = outcome(&e, open[c]);
            r.finish(open[c], o);
            for _ in 1..e.batch {
                let open = r.open();
                if open.is_empty() || !symx::flip("more") { break; }
                let i = open[symx::choose(open.len(), "which")];
                let o = outcome(&e, i);
                r.finish(i, o);
            }
        }
    }
    // ---- the end
    let log = r.log.get();
    for e in &log.ev { symx::observe("id", e.id as u64); symx::observe("seed", e.seed); }
    if let Some(Ok(rep)) = &r.result { symx::observe("best", rep.best_seen.obj_func_val.to_bits()); }
    if is("C06") && failed.is_some() && batch == 1 { for x in &log.ev { symx::check(x.ended & !x.dropped, "C06:returned-before-in-flight-ended"); } }
    let mut accepted: Vec<(usize, f64)> = vec![];
    let mut rejected = 0;
    for i in &log.delivered { match log.ev[*i].out { Some(Out::Accept(v)) => accepted.push((*i, v)), Some(Out::Reject) => rejected += 1, _ => {} } }
    let hit = match target {
        Some(t) => { let mut h = false; for v in if sample == 1 { accepted.iter().map(|(_, v)| *v).collect() } else { means(log, sample) } { h |= le(v, t); } symx::decide(h) }
        None => false
    };
    if (is("C04") || is("C05")) && !term && failed.is_none() && !hit {
        symx::check(n == Some(log.delivered.len()), if is("C04") { "C04:ended-without-cause" } else { "C05:ended-without-cause" });
        if is("C04") { symx::cover("C04:whole"); }
    }
    match r.result.as_ref().unwrap() {
        Ok(rep) => {
            if is("C06") { symx::check(failed.is_none(), "C06:success-after-failure"); }
            if is("C03") {
                if let (Some(n), false) = (n, term || hit || failed.is_some()) {
                    symx::check(log.ev.len() == n, "C03:not-started-exactly-n");
                    symx::check(rep.num_obj_func_eval_completed + rep.num_obj_func_eval_rejected == n, "C03:report-counts");
                    symx::cover("C03:exact");
                }
            }
            if is("C14") {
                symx::check(rep.num_obj_func_eval_completed == accepted.len(), "C14:completed-count");
                symx::check(rep.num_obj_func_eval_rejected == rejected, "C14:rejected-count");
                symx::check(r.items.len() == accepted.len() + rejected, "C14:record-count");
                symx::cover("C14:report");
            }
            let v = rep.best_seen.obj_func_val;
            if is("C01") { symx::check(json_conforms(&spec, &rep.best_seen.value), "C01:reported"); symx::cover("C01:report"); }
            if is("C02") {
                if sample == 1 {
                    let mut real = false;
                    let mut min = true;
                    for (i, x) in &accepted { real |= (x.to_bits() == v.to_bits() || false) & json_same(&log.ev[*i].json, &rep.best_seen.value); min &= le(v, *x); }
                    symx::check(real, "C02:not-evaluated-or-wrong-value");
                    symx::check(min, "C02:not-minimum");
                } else {
                    check_mean(log, sample, rep);
                }
                symx::cover("C02:report");
            }
            if is("C04") {
                if hit && !term { symx::check(le(v, target.unwrap()), "C04:target-not-reached"); symx::cover("C04:target"); }
                if term && sample == 1 { let mut min = true; for (_, x) in &accepted { min &= le(v, *x); } symx::check(min & !accepted.is_empty(), "C04:not-best-seen"); symx::cover("C04:terminated"); }
            }
        }
        Err(err) => {
            if is("C02") && failed.is_none() && !late_fail && sample == 1 { symx::check(accepted.is_empty(), "C02:no-individuals-despite-accepted"); symx::cover("C02:none"); }
            if is("C04") && failed.is_none() && sample == 1 {
                symx::check(accepted.is_empty() & matches!(err, Error::NoIndividuals), "C04:error-instead-of-best");
                symx::cover("C04:none");
            }
            if is("C06") {
                match failed {
                    Some(Out::Fail(k)) => symx::check(matches!(err, Error::Io(e) if e.raw_os_error() == Some(k)), "C06:not-the-first-failure"),
                    Some(_) => symx::check(matches!(err, Error::ObjFuncValMustBeFinite), "C06:not-the-first-failure"),
                    None => if sample == 1 { symx::check(late_fail | accepted.is_empty(), "C06:error-without-failure") } else { symx::check(late_fail | matches!(err, Error::NoIndividuals), "C06:error-without-failure") },
                }
                if failed.is_some() { symx::cover("C06:failed"); }
            }
            if is("C03") && failed.is_none() && !late_fail {
                symx::check(matches!(err, Error::NoIndividuals), "C03:unexpected-error");
                if let (Some(n), false) = (n, term) { symx::check(log.ev.len() == n, "C03:not-started-exactly-n"); symx::cover("C03:none"); }
            }
            if is("C15") { symx::check(failed.is_some() | late_fail | matches!(err, Error::NoIndividuals), "C15:undescribed-error"); }
        }
    }
    symx::cover("run:end");
}
pub fn meta_ok(c: &cambrian::meta::CrossoverParams, m: &cambrian::meta::MutationParams) -> bool {
    let p = |x: f64| (x >= 0.0) & (x <= 1.0);
    p(c.crossover_prob) & p(c.selection_pressure) & p(m.mutation_prob) & symx::finite(m.mutation_scale) & (m.mutation_scale > 0.0)
}
/// Equal up to the rounding of a differently ordered computation.
pub fn close(a: f64, b: f64) -> bool {
    let eq = a.to_bits() == b.to_bits();
    if symx::must(eq) { return true; }
    eq | ((a - b).abs() <= 1e-9 * a.abs().max(b.abs()))
}
/// The means of the individuals with a full sample.
fn means(log: &Log, sample: usize) -> Vec<f64> {
    let mut sums: Vec<(usize, usize, f64)> = vec![];
    for i in &log.delivered {
        if let Some(Out::Accept(v)) = log.ev[*i].out {
            let id = log.ev[*i].id;
            match sums.iter_mut().find(|s| s.0 == id) { Some(s) => { s.1 += 1; s.2 += v } None => sums.push((id, 1, v)) }
        }
    }
    sums.into_iter().filter(|s| s.1 == sample).map(|s| s.2 / sample as f64).collect()
}
/// sample > 1: the reported individual has exactly `sample` accepted results and their mean is reported.
fn check_mean(log: &Log, sample: usize, rep: &FinalReport) {
    let mut ok = false;
    let mut ids: Vec<usize> = log.ev.iter().map(|e| e.id).collect();
    ids.sort(); ids.dedup();
    for id in ids {
        let vs: Vec<f64> = log.delivered.iter().filter(|i| log.ev[**i].id == id).filter_map(|i| match log.ev[*i].out { Some(Out::Accept(v)) => Some(v), _ => None }).collect();
        if vs.len() != sample { continue; }
        let json = &log.ev.iter().find(|e| e.id == id).unwrap().json;
        let mean = vs.iter().sum::<f64>() / sample as f64;
        ok |= json_same(json, &rep.best_seen.value) & close(mean, rep.best_seen.obj_func_val);
    }
    symx::check(ok, "C02:not-the-mean-of-a-full-sample");
}

fn conf(n: Option<usize>, conc: usize) -> Conf { Conf { spec: S::Bool { init: false }, sample: 1, conc, n, target: None, init: None, honour: true, report_cap: 16 } }
fn conc() -> usize { 1 + symx::choose(3, "conc") }
const A: &[u8] = b"a";
const AR: &[u8] = b"ar";
const SR: &[u8] = b"sr";
const ARF: &[u8] = b"arf";
const ARFN: &[u8] = b"arfn";

fn small(p: &str, outcomes: &'static [u8], nmax: usize, terminate: bool, batch: usize, target: bool, honour_both: bool) {
    let nc = conc();
    let n = symx::choose(nmax + 1, "n");
    let mut c = conf(Some(n), nc);
    if target { c.target = Some(symx::f64_mag("target", 1e300)); }
    if honour_both { c.honour = symx::flip("honour"); }
    explore(p, Env { conf: c, outcomes, terminate, batch, events: 12, early: batch > 1 && terminate, mag: 1e300, warm: None, order: None, requests: 1 });
}
pub fn c03_budget() { small("C03", ARF, 4, false, 1, false, false) }
pub fn c03_stop() { small("C03", AR, 3, true, 1, true, true) }
pub fn c05_conc() { small("C05", AR, 4, false, 1, false, false) }
pub fn c05_batch() { small("C05", AR, 4, false, 3, false, false) }
pub fn c05_stop() { small("C05", ARF, 3, true, 1, true, true) }
pub fn c06_fail() { small("C06", ARFN, 3, true, 1, false, true) }
pub fn c06_target() { small("C06", b"af", 3, false, 1, true, true) }
pub fn c04_term() { small("C04", AR, 3, true, 1, false, true) }
/// Further requests while the run is already stopping.
fn again(p: &str, outcomes: &'static [u8], n: usize) {
    let mut c = conf(Some(n), conc());
    c.honour = symx::flip("honour");
    explore(p, Env { conf: c, outcomes, terminate: true, batch: 1, events: 12, early: true, mag: 1e300, warm: None, order: None, requests: 3 });
}
pub fn c04_again() { again("C04", AR, 3) }
pub fn c06_again() { again("C06", ARF, 3) }
pub fn c15_again() { again("C15", ARF, 3) }
pub fn c04_target() { small("C04", AR, 3, true, 1, true, true) }
pub fn c04_batch() { small("C04", A, 3, true, 2, true, true) }
pub fn c08_small() { small("C08", ARF, 4, true, 1, false, false) }
pub fn c14_stream() { small("C14", ARF, 3, true, 1, true, true) }
pub fn c02_small() { small("C02", AR, 4, true, 1, false, true) }
pub fn c02_target() { small("C02", A, 3, false, 2, true, false) }
pub fn c15_run() { small("C15", ARFN, 3, true, 1, true, true) }
/// Longer runs: every pattern of outcomes under four orders of completion.
fn streak(p: &str, outcomes: &'static [u8], n: usize, terminate: bool) {
    let nc = [2, 3, 6][symx::choose(3, "conc")];
    let mode = symx::choose(4, "order");
    let mut c = conf(Some(n), nc);
    if terminate { c.honour = symx::flip("honour"); }
    explore(p, Env { conf: c, outcomes, terminate, batch: 1, events: n + 2, early: false, mag: 1e300, warm: None, order: Some(mode), requests: 1 });
}
/// Every order of completion.
fn orders(p: &str, outcomes: &'static [u8], n: usize, terminate: bool) {
    let nc = 2 + symx::choose(2, "conc");
    explore(p, Env { conf: conf(Some(n), nc), outcomes, terminate, batch: 1, events: n + 2, early: false, mag: 1e300, warm: None, order: None, requests: 1 });
}
/// The same in the population phase, with samples of 2 and 3.
fn streak_sample(p: &str, outcomes: &'static [u8], more: usize, terminate: bool) { streak_sample_target(p, outcomes, more, terminate, false) }
fn streak_sample_target(p: &str, outcomes: &'static [u8], more: usize, terminate: bool, target: bool) {
    let warm = 20 + symx::choose(3, "more-warm");
    let mut c = conf(Some(warm + more), [2, 4][symx::choose(2, "conc")]);
    c.sample = 2 + symx::choose(2, "sample");
    c.report_cap = 256;
    if target { c.target = Some(symx::f64_mag("target", 1e300)); }
    let mode = symx::choose(4, "order");
    explore(p, Env { conf: c, outcomes, terminate, batch: 1, events: more + 2, early: false, mag: 1e300, warm: Some((warm, WARM[[0, 3][symx::choose(2, "pattern")]])), order: Some(mode), requests: 1 });
}
const CR: &[u8] = b"cr";
const CRF: &[u8] = b"crf";
const XR: &[u8] = b"xr";
pub fn c02_streak() { streak("C02", CR, 11, false) }
pub fn c02_orders() { orders("C02", CR, 6, false) }
pub fn c02_streak_sample() { streak_sample("C02", CR, 7, false) }
pub fn c03_streak() { streak("C03", CR, 11, false) }
pub fn c03_orders() { orders("C03", CR, 6, false) }
pub fn c03_streak_sample() { streak_sample("C03", CR, 7, false) }
pub fn c04_streak() { streak("C04", CR, 7, true) }
pub fn c04_orders() { orders("C04", CR, 5, true) }
pub fn c04_streak_sample() { streak_sample("C04", CR, 5, true) }
/// A target and samples: what counts is the mean of a full sample.
pub fn c04_target_sample() { streak_sample_target("C04", CR, 5, false, true) }
/// No budget, or one that is never reached: only a target, a request or a failure ends the run.
fn unbounded(p: &str, outcomes: &'static [u8], target: bool, events: usize) {
    let mut c = conf([None, Some(usize::MAX)][symx::choose(2, "budget")], 1 + symx::choose(2, "conc"));
    if target { c.target = Some(symx::f64_mag("target", 1e300)); }
    if p == "C08" && symx::flip("guess") { c.init = Some(J::Bool(true)); }
    c.honour = symx::flip("honour");
    explore(p, Env { conf: c, outcomes, terminate: true, batch: 1, events, early: false, mag: 1e300, warm: None, order: None, requests: 1 });
}
pub fn c02_unbounded() { unbounded("C02", CR, false, 4) }
pub fn c03_unbounded() { unbounded("C03", CRF, false, 4) }
pub fn c04_unbounded() { unbounded("C04", CR, true, 4) }
pub fn c05_unbounded() { unbounded("C05", CRF, true, 4) }
pub fn c06_unbounded() { unbounded("C06", CRF, true, 4) }
pub fn c08_unbounded() { unbounded("C08", CR, false, 4) }
pub fn c14_unbounded() { unbounded("C14", CR, true, 4) }
pub fn c15_unbounded() { unbounded("C15", b"crfn", true, 4) }
/// Several results between two polls, and a report channel without room for them.
pub fn c14_batch() {
    let mut c = conf(Some(symx::choose(4, "n")), conc());
    c.report_cap = symx::choose(2, "cap");
    c.honour = symx::flip("honour");
    explore("C14", Env { conf: c, outcomes: ARF, terminate: true, batch: 3, events: 12, early: true, mag: 1e300, warm: None, order: None, requests: 1 });
}
pub fn c05_streak() { streak("C05", CR, 11, false) }
pub fn c05_orders() { orders("C05", CR, 6, false) }
pub fn c05_streak_sample() { streak_sample("C05", CR, 7, false) }
pub fn c06_streak() { streak("C06", CRF, 7, false) }
pub fn c06_orders() { orders("C06", CRF, 5, false) }
pub fn c06_streak_sample() { streak_sample("C06", CRF, 5, false) }
pub fn c08_streak() { streak("C08", CR, 11, false) }
pub fn c08_orders() { orders("C08", CR, 6, false) }
pub fn c08_streak_sample() { streak_sample("C08", CR, 7, false) }
pub fn c14_streak() { streak("C14", CRF, 7, false) }
pub fn c14_orders() { orders("C14", CRF, 5, false) }
pub fn c14_streak_sample() { streak_sample("C14", CRF, 5, false) }
pub fn c15_streak() { streak("C15", CRF, 7, true) }
pub fn c15_orders() { orders("C15", CRF, 5, true) }
pub fn c15_streak_sample() { streak_sample("C15", CRF, 5, true) }
/// Values of extreme magnitude, alone and in samples.
pub fn c02_extreme() { streak("C02", XR, 5, false) }
pub fn c15_extreme() { streak("C15", XR, 5, false) }
pub fn c02_extreme_sample() { streak_sample("C02", XR, 4, false) }
pub fn c15_extreme_sample() { streak_sample("C15", XR, 4, false) }
/// Many evaluations before the explored ones: ties, increasing, decreasing, alternating values.
const WARM: &[fn(usize) -> Out] = &[|_| Out::Accept(1.0), |k| Out::Accept(k as f64), |k| Out::Accept(-(k as f64)), |k| Out::Accept(if k % 2 == 0 { 1e300 } else { -1e300 }), |k| if k % 5 == 3 { Out::Reject } else { Out::Accept(((k * 7) % 3) as f64) }];
fn long(p: &str, outcomes: &'static [u8], sample: usize, nc: usize, warm: usize, patterns: usize, more: usize, terminate: bool) {
    let pat = WARM[symx::choose(patterns, "pattern")];
    let mut c = conf(Some(warm + more), nc);
    c.sample = sample;
    c.report_cap = 256;
    explore(p, Env { conf: c, outcomes, terminate, batch: 1, events: more + 2, early: false, mag: 1e300, warm: Some((warm, pat)), order: None, requests: 1 });
}
/// The population cap (100) is exceeded; the explored values fall anywhere.
pub fn c02_evict() { long("C02", A, 1, 1, 99, 1, 4, false) }
pub fn c02_evict2() { long("C02", AR, 1, 2, 100, 2, 2, true) }
/// Re-evaluation (population of 20 and more, sample size 2).
pub fn c02_sample() { let w = 20 + symx::choose(3, "more-warm"); long("C02", SR, 2, 2, w, 1, 3, true) }
pub fn c02_sample_deep() { let w = 20 + symx::choose(4, "more-warm"); long("C02", SR, 2, 2, w, 1, 4, true) }
pub fn c05_sample() { let w = 20 + symx::choose(3, "more-warm"); long("C05", SR, 2, 3, w, 1, 3, false) }
pub fn c05_sample_deep() { let w = 20 + symx::choose(4, "more-warm"); long("C05", SR, 2, 3, w, 1, 4, false) }
pub fn c08_sample() { let w = 20 + symx::choose(3, "more-warm"); long("C08", SR, 2, 2, w, 1, 3, false) }
pub fn c08_sample_deep() { let w = 20 + symx::choose(4, "more-warm"); long("C08", SR, 2, 2, w, 1, 4, false) }
pub fn c14_sample() { long("C14", SR, 2, 2, 22, 1, 4, true) }
pub fn c03_long() { long("C03", SR, 2, 2, 24, 1, 4, false) }
/// Candidates of a run over a spec of every kind.
pub fn rich() -> S {
    sub(vec![
        ("r", S::Real { init: 1.0, scale: 2.0, min: Some(-3.0), max: Some(4.0) }),
        ("i", S::Int { init: 3, scale: 2.0, min: Some(0), max: Some(4) }),
        ("v", variant(vec![("u", S::Bool { init: false }), ("w", S::Optional { value_type: b(enumeration()), init_present: true })], "u")),
        ("m", S::AnonMap { value_type: b(S::Array { value_type: b(S::Int { init: 0, scale: 1.0, min: None, max: None }), size: 2 }), init_size: 2, min_size: Some(1), max_size: Some(3) }),
        ("c", S::Const),
    ])
}
pub fn c01_run() {
    let mut c = conf(Some(5), 2);
    c.spec = rich();
    explore("C01", Env { conf: c, outcomes: AR, terminate: false, batch: 1, events: 12, early: false, mag: 1e300, warm: None, order: None, requests: 1 });
}
pub fn c01_long() {
    let mut c = conf(Some(42), 2);
    c.spec = rich();
    c.report_cap = 256;
    let pat = WARM[symx::choose(3, "pattern")];
    explore("C01", Env { conf: c, outcomes: AR, terminate: false, batch: 1, events: 12, early: false, mag: 1e300, warm: Some((40, pat)), order: None, requests: 1 });
}
/// Stands in for tokio's choice of the branch that `select!` polls first.
#[no_mangle] pub extern "C" fn vh_sel(n: u32) -> u32 { symx::choose(n as usize, "sel") as u32 }
