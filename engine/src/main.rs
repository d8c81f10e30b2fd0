//! symx-engine: symbolic execution of LLVM bitcode with Z3.
#![allow(static_mut_refs, dead_code)]
mod exec;
mod expr;
mod fpa;
mod host;
mod intr;
mod ir;
mod kernel;
mod llvm;
mod posix;
mod solver;
mod state;

use exec::*;
use expr::FxMap;
use state::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
pub struct Shared { pub stop: AtomicU32, pub procs: AtomicU32, pub live: AtomicI32, pub slots: *const AtomicI32, pub max: i32, pub t0: u64 }
const MAXE: usize = 256;

struct Cfg {
    bc: Vec<String>, entries: Vec<String>, out: String, jobs: i32, time: u64, max_instrs: u64, rlimit: u32, known: Vec<String>,
    redirects: Vec<(String, String)>, samples: usize, verbose: bool, trace: bool, flags: Vec<(u32, u64)>, dump: Option<String>, list: bool, values: Option<String>, follow: Option<String>, tracev: Option<String>,
}

/// End a worker and everything it forked.
fn kill_tree(root: i32) {
    // a worker dies with the one that forked it (PR_SET_PDEATHSIG)
    unsafe { kill(root, 9); }
}
/// Give half of the remaining work to a forked process when a processor is free.
pub fn split(x: &mut Exec) {
    let sh = match x.shared { Some(s) => s, None => return };
    if x.work.is_empty() { return; }
    let slots = unsafe { &*sh.slots };
    if x.started.elapsed() < Duration::from_millis(15) { return; }
    if slots.fetch_add(1, SeqCst) >= sh.max { slots.fetch_sub(1, SeqCst); return; }
    // reap finished children so that the process table stays small
    let k = 1;
    sh.procs.fetch_add(1, SeqCst);
    sh.live.fetch_add(1, SeqCst);
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0); }
        x.work.truncate(k);
        x.stats = Stats::default();
        x.solver.st = Default::default();
        x.children.clear();
        x.started = Instant::now();
        x.forked = true;
        // the state that was just popped belongs to the parent
        worker_loop(x);
    } else if pid > 0 {
        x.work.drain(..k);
        x.children.push(pid);
    } else {
        sh.procs.fetch_sub(1, SeqCst);
        sh.live.fetch_sub(1, SeqCst);
        slots.fetch_sub(1, SeqCst);
    }
}

fn worker_loop(x: &mut Exec) -> ! {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.explore()));
    if r.is_err() { *x.stats.unsup.entry("engine panic".into()).or_default() += 1; }
    finish(x)
}
fn finish(x: &mut Exec) -> ! {
    let sh = x.shared.unwrap();
    unsafe { &*sh.slots }.fetch_sub(1, SeqCst);
    sh.live.fetch_sub(1, SeqCst);
    let res = format!("{}.e{}.{}", x.out, x.entry_ix, std::process::id());
    let _ = std::fs::write(&res, serialize(x));
    for c in &x.children { let mut st = 0; unsafe { waitpid(*c, &mut st, 0); } }
    unsafe { _exit(0) }
}

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t") }
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => r.push('\n'), Some('t') => r.push('\t'), Some(c) => r.push(c), None => {} } } else { r.push(c) } }
    r
}
fn viol_line(v: &Violation) -> String {
    format!("V\t{}\t{}\t{}\t{}\t{}\n", esc(&v.kind), esc(&v.detail), v.values.iter().map(|(n, w, x)| format!("{}:{}:{}", n.replace([':', ','], "_"), w, x)).collect::<Vec<_>>().join(","), esc(&v.trace.join("|")), esc(&v.trail.join("|")))
}
/// Keep a violation where it survives the end of this process.
pub fn save_violation(x: &Exec, v: &Violation) {
    use std::io::Write;
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.v{}.{}", x.out, x.entry_ix, std::process::id())) { let _ = f.write_all(viol_line(v).as_bytes()); }
}
fn serialize(x: &Exec) -> String {
    let s = &x.stats;
    let q = &x.solver.st;
    let mut o = String::new();
    use std::fmt::Write;
    for (k, v) in [("paths", s.paths), ("killed", s.killed), ("instrs", s.instrs), ("forks", s.forks), ("trivial_checks", s.trivial_checks), ("checks", s.checks), ("inconclusive", s.inconclusive),
        ("queries", q.queries), ("cached", q.cached), ("sat", q.sat), ("unsat", q.unsat), ("unknown", q.unknown), ("asserts", q.asserts), ("timed_out", x.timed_out as u64)] { writeln!(o, "n\t{}\t{}", k, v).unwrap(); }
    writeln!(o, "m\tmax_depth\t{}", s.max_depth).unwrap();
    writeln!(o, "f\tsolver_s\t{}", q.secs).unwrap();
    writeln!(o, "x\tmax_query_s\t{}", q.max).unwrap();
    for (k, v) in &s.covers { writeln!(o, "c\t{}\t{}", esc(k), v).unwrap(); }
    for (k, v) in &s.labels { writeln!(o, "l\t{}\t{}", esc(k), v).unwrap(); }
    for (k, v) in &s.unsup { writeln!(o, "u\t{}\t{}", esc(k), v).unwrap(); }
    for f in &x.p.fns { if f.executed { writeln!(o, "F\t{}\t1", esc(&f.short)).unwrap(); } }
    for v in &s.viols { o.push_str(&viol_line(v)); }
    for v in &s.samples {
        writeln!(o, "S\t{}\t{}", v.values.iter().map(|(n, w, x)| format!("{}:{}:{}", n.replace([':', ','], "_"), w, x)).collect::<Vec<_>>().join(","), v.obs.iter().map(|(n, x)| format!("{}={}", esc(n).replace(',', "_"), x)).collect::<Vec<_>>().join(",")).unwrap();
    }
    o
}
#[derive(Default)]
struct Res { n: BTreeMap<String, u64>, f: BTreeMap<String, f64>, c: BTreeMap<String, u64>, l: BTreeMap<String, u64>, u: BTreeMap<String, u64>, fns: BTreeMap<String, u64>, v: Vec<Vec<String>>, s: Vec<Vec<String>> }
fn merge(r: &mut Res, t: &str) {
    for line in t.lines() {
        let p: Vec<&str> = line.split('\t').collect();
        if p.len() < 2 || (p[0] == "V" && p.len() < 6) || (matches!(p[0], "S" | "n" | "m" | "f" | "x" | "c" | "l" | "u") && p.len() < 3) { continue; }
        match p[0] {
            "n" => *r.n.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
            "m" => { let e = r.n.entry(p[1].into()).or_default(); *e = (*e).max(p[2].parse::<u64>().unwrap()); }
            "f" => *r.f.entry(p[1].into()).or_default() += p[2].parse::<f64>().unwrap(),
            "x" => { let e = r.f.entry(p[1].into()).or_default(); *e = e.max(p[2].parse::<f64>().unwrap()); }
            "c" => *r.c.entry(unesc(p[1])).or_default() += p[2].parse::<u64>().unwrap(),
            "l" => *r.l.entry(unesc(p[1])).or_default() += p[2].parse::<u64>().unwrap(),
            "u" => *r.u.entry(unesc(p[1])).or_default() += p[2].parse::<u64>().unwrap(),
            "F" => { r.fns.insert(unesc(p[1]), 1); }
            "V" => { let l = unesc(p[1]); if !r.v.iter().any(|v| v[0] == l) { r.v.push(vec![l, unesc(p[2]), p[3].into(), unesc(p[4]), unesc(p[5])]) } }
            "S" => r.s.push(vec![p[1].into(), p[2].into()]),
            _ => {}
        }
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jvals(s: &str) -> String {
    let mut v = vec![];
    for e in s.split(',').filter(|e| !e.is_empty()) { let p: Vec<&str> = e.split(':').collect(); v.push(format!("[{},{},{}]", js(p[0]), p[1], js(p[2]))); }
    format!("[{}]", v.join(","))
}
fn to_json(entry: &str, r: &Res, wall: f64, procs: u32, crashed: bool) -> String {
    let mut o = vec![format!("\"entry\":{}", js(entry)), format!("\"wall_s\":{:.3}", wall), format!("\"procs\":{}", procs), format!("\"crashed\":{}", crashed)];
    for (k, v) in &r.n { o.push(format!("{}:{}", js(k), v)); }
    for (k, v) in &r.f { o.push(format!("{}:{:.3}", js(k), v)); }
    let m = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push(format!("\"covers\":{}", m(&r.c)));
    o.push(format!("\"labels\":{}", m(&r.l)));
    o.push(format!("\"unsup\":{}", m(&r.u)));
    o.push(format!("\"functions\":[{}]", r.fns.keys().map(|k| js(k)).collect::<Vec<_>>().join(",")));
    o.push(format!("\"viols\":[{}]", r.v.iter().map(|v| format!("{{\"label\":{},\"detail\":{},\"values\":{},\"trace\":{},\"trail\":{}}}", js(&v[0]), js(&v[1]), jvals(&v[2]), js(&v[3]), js(&v[4]))).collect::<Vec<_>>().join(",")));
    o.push(format!("\"samples\":[{}]", r.s.iter().map(|v| format!("{{\"values\":{},\"obs\":{}}}", jvals(&v[0]), js(&v[1]))).collect::<Vec<_>>().join(",")));
    format!("{{{}}}", o.join(",\n "))
}

fn run_entry(p: ir::Program, cfg: &Cfg, ix: usize, entry: &str, sh: &'static Shared) -> ! {
    unsafe { prctl(1, 9, 0, 0, 0); }
    let mut x = Exec {
        p, solver: solver::Solver::new(cfg.rlimit), stats: Default::default(), work: vec![], templates: vec![], hosts: Default::default(), host_list: vec![], redirects: cfg.redirects.clone(),
        max_instrs: cfg.max_instrs, deadline: Instant::now() + Duration::from_secs(cfg.time), known_labels: cfg.known.clone(), entry: entry.into(), verbose: cfg.verbose, stop: false,
        nsamples: cfg.samples, path_ix: 0, shared: Some(sh), children: vec![], kill_msg: Default::default(), trace: cfg.trace, calls: std::env::var("SYMX_CALLS").is_ok(), forced: Default::default(), follow: Default::default(), tracev: cfg.tracev.as_ref().map(|f| std::fs::File::create(f).unwrap()), timed_out: false,
        started: Instant::now(), forked: false, out: cfg.out.clone(), entry_ix: ix,
    };
    x.solver.dump = cfg.dump.clone();
    if let Some(f) = &cfg.values {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() { if let Some((n, v)) = l.rsplit_once(' ') { x.forced.entry(n.into()).or_default().push(v.parse().unwrap_or(0)); } }
        if !cfg.flags.iter().any(|f| f.0 == 999) { x.forced.entry("*".into()).or_default(); }
    }
    if let Some(f) = &cfg.follow {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() { if let Some((n, v)) = l.rsplit_once(' ') { x.follow.entry(n.into()).or_default().push(v.parse().unwrap_or(0)); } }
        x.follow.entry("*".into()).or_default();
    }
    host::register(&mut x);
    let f = match x.p.find_fn(entry) { Some(f) => f, None => { *x.stats.unsup.entry(format!("no entry function {}", entry)).or_default() += 1; finish(&mut x) } };
    let mut st = State {
        heap: Default::default(), next_heap: 0, globs: Default::default(), threads: vec![Thread::new()], cur: 0, pc: vec![], known: Default::default(), conc: Default::default(),
        model: expr::Model::new(Default::default()), log: vec![], obs: vec![], instrs: 0, forks: 0, conc_run: (0, 0), flags: FxMap::default(), os: Default::default(), trail: vec![],
    };
    for (k, v) in &cfg.flags { st.flags.insert(*k, *v); }
    if let Err(e) = x.push_frame(&mut st, f, &[], u32::MAX) { eprintln!("{:?}", e); }
    let _ = Rc::new(0);
    x.work.push(st);
    worker_loop(&mut x)
}

fn real_main() {
    let mut cfg = Cfg { bc: vec![], entries: vec![], out: "/tmp/symx-out.json".into(), jobs: 8, time: 600, max_instrs: 400_000_000, rlimit: 0, known: vec![], redirects: vec![], samples: 3, verbose: false, trace: false, flags: vec![], dump: None, list: false, values: None, follow: None, tracev: None };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut n = || a.next().unwrap_or_default();
        match k.as_str() {
            "--entry" => cfg.entries.push(n()),
            "--out" => cfg.out = n(),
            "--jobs" => cfg.jobs = n().parse().unwrap(),
            "--time" => cfg.time = n().parse().unwrap(),
            "--max-instrs" => cfg.max_instrs = n().parse().unwrap(),
            "--rlimit" => cfg.rlimit = n().parse().unwrap(),
            "--known" => cfg.known.push(n()),
            "--redirect" => { let s = n(); let (p, q) = s.split_once('=').unwrap(); cfg.redirects.push((p.into(), q.into())); }
            "--samples" => cfg.samples = n().parse().unwrap(),
            "--flag" => { let s = n(); let (p, q) = s.split_once('=').unwrap(); cfg.flags.push((p.parse().unwrap(), q.parse().unwrap())); }
            "--verbose" => cfg.verbose = true,
            "--trace" => cfg.trace = true,
            "--dump" => cfg.dump = Some(n()),
            "--follow" => cfg.follow = Some(n()),
            "--trace-values" => cfg.tracev = Some(n()),
            "--values" => cfg.values = Some(n()),
            "--list" => cfg.list = true,
            _ => cfg.bc.push(k),
        }
    }
    let t = Instant::now();
    expr::init();
    let p = match ir::Program::load(&cfg.bc) { Ok(p) => p, Err(e) => { eprintln!("cannot load bitcode: {}", e); std::process::exit(3) } };
    if cfg.verbose { eprintln!("loaded {} modules in {:.2}s", cfg.bc.len(), t.elapsed().as_secs_f64()); }
    if cfg.list { for (n, _) in p.defined_names() { if n.starts_with("vh_") { println!("{}", n); } } return; }
    assert!(cfg.entries.len() <= MAXE);
    let mem = unsafe { mmap(std::ptr::null_mut(), 1 << 16, 3, 0x21, -1, 0) };
    let slots = mem as *const AtomicI32;
    let shs = unsafe { mem.add(64) } as *mut Shared;
    unsafe { (*slots).store(0, SeqCst); }
    let mut pids: Vec<(i32, usize, Instant)> = vec![];
    let mut walls = vec![0.0; cfg.entries.len()];
    let mut started = 0;
    let mut done = 0;
    let mut crashed = vec![false; cfg.entries.len()];
    let mut killed = vec![false; cfg.entries.len()];
    let mut stopped: Vec<Option<Instant>> = vec![None; cfg.entries.len()];
    let mut p = Some(p);
    while done < cfg.entries.len() {
        let sl = unsafe { &*slots };
        if started < cfg.entries.len() && sl.load(SeqCst) < cfg.jobs {
            sl.fetch_add(1, SeqCst);
            let ix = started;
            let sh: &'static Shared = unsafe {
                let s = &mut *shs.add(ix);
                s.stop.store(0, SeqCst); s.procs.store(1, SeqCst); s.live.store(1, SeqCst); s.slots = slots; s.max = cfg.jobs;
                &*s
            };
            let pid = unsafe { fork() };
            if pid == 0 { run_entry(p.take().unwrap(), &cfg, ix, &cfg.entries[ix].clone(), sh); }
            pids.push((pid, ix, Instant::now()));
            started += 1;
            continue;
        }
        let mut st = 0;
        let w = unsafe { waitpid(-1, &mut st, 1) };
        if w > 0 {
            if let Some(k) = pids.iter().position(|q| q.0 == w) {
                let (_, ix, t) = pids[k];
                walls[ix] = t.elapsed().as_secs_f64();
                if st != 0 { crashed[ix] = true; }
                done += 1;
            }
        } else {
            // a query that outlasts the time limit (or a violation already found) is given up with its process
            for (pid, ix, t) in &pids {
                if killed[*ix] || walls[*ix] > 0.0 { continue; }
                let s = unsafe { &*shs.add(*ix) };
                if stopped[*ix].is_none() && s.stop.load(SeqCst) != 0 { stopped[*ix] = Some(Instant::now()); }
                if t.elapsed() > Duration::from_secs(cfg.time + 15) || stopped[*ix].map_or(false, |t| t.elapsed() > Duration::from_secs(5)) {
                    killed[*ix] = true;
                    kill_tree(*pid);
                    sl.fetch_sub(s.live.swap(0, SeqCst), SeqCst);
                }
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    if killed.iter().any(|k| *k) { std::thread::sleep(Duration::from_millis(300)); }
    let dir = std::path::Path::new(&cfg.out).parent().unwrap().to_path_buf();
    let base = std::path::Path::new(&cfg.out).file_name().unwrap().to_string_lossy().into_owned();
    let mut rs: Vec<Res> = (0..cfg.entries.len()).map(|_| Res::default()).collect();
    let mut files = vec![0u32; cfg.entries.len()];
    for e in std::fs::read_dir(&dir).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(r) = n.strip_prefix(&format!("{}.v", base)) {
            if let Some(ix) = r.split_once('.').and_then(|r| r.0.parse::<usize>().ok()) {
                if ix < rs.len() { merge(&mut rs[ix], &std::fs::read_to_string(e.path()).unwrap_or_default()); }
                let _ = std::fs::remove_file(e.path());
            }
        }
        if let Some(r) = n.strip_prefix(&format!("{}.e", base)) {
            if let Some((ix, _)) = r.split_once('.') {
                if let Ok(ix) = ix.parse::<usize>() {
                    if ix < rs.len() { merge(&mut rs[ix], &std::fs::read_to_string(e.path()).unwrap_or_default()); files[ix] += 1; }
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
    }
    let mut out = vec![];
    for (ix, r) in rs.iter_mut().enumerate() {
        for k in ["paths", "killed", "instrs", "forks", "trivial_checks", "checks", "inconclusive", "queries", "cached", "sat", "unsat", "unknown", "asserts", "timed_out", "max_depth"] { r.n.entry(k.into()).or_default(); }
        for k in ["solver_s", "max_query_s"] { r.f.entry(k.into()).or_default(); }
        if killed[ix] { *r.n.get_mut("timed_out").unwrap() += 1; }
        let procs = unsafe { (*shs.add(ix)).procs.load(SeqCst) };
        out.push(to_json(&cfg.entries[ix], r, walls[ix], procs, !killed[ix] && (crashed[ix] || files[ix] != procs)));
    }
    std::fs::write(&cfg.out, format!("[{}]\n", out.join(",\n"))).unwrap();
}

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
