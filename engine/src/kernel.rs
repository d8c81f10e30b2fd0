//! Files, pipes, sockets, event descriptors, epoll, processes and signals.
//!
//! The process under test has pid SELF.  `fork` continues as the child on the cloned state; at
//! `execvp` or `_exit` the parent's state is put back (with the kernel objects of the child's) and
//! `fork` returns the pid there.  What an executed program does afterwards is a script given by
//! the harness: the k-th executed program follows script k.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::posix::{c, fail, ok};
use crate::state::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub const SELF: i32 = 100;
pub const TICK: u64 = 100_000_000;
const PIPE_CAP: usize = 65536;
const KWAIT: TStat = TStat::Block(1);
const PARKED: TStat = TStat::Block(3);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Null, File(usize), PipeR(usize), PipeW(usize), Sock(usize, usize), Event(usize), Epoll(usize), Pidfd(i32), Dir(usize), Out(u8) }
#[derive(Clone)]
pub struct Desc { kind: Kind, off: u64, nonblock: bool, append: bool, writable: bool }
#[derive(Clone, Copy)]
pub struct Fd { d: usize, cloexec: bool }
#[derive(Clone, Default)]
pub struct Pipe { buf: VecDeque<E>, written: u64, taken: u64 }
#[derive(Clone, Debug)]
pub struct Reg { fd: i32, d: usize, events: u32, data: u64, last: Option<(u64, u64, bool)> }
#[derive(Clone)]
pub enum Node { Dir, File(usize), Prog, Link }
#[derive(Clone)]
pub struct Act { at: u64, kind: u8, arg: u64, bytes: Rc<Vec<E>> }
#[derive(Clone, PartialEq, Debug)]
pub enum PStat { Alive, Zombie(i32), Gone(i32) }
#[derive(Clone)]
pub struct Proc {
    pub pid: i32, pub pgid: i32, pub ppid: i32, pub stat: PStat, pub fds: BTreeMap<i32, Fd>,
    pub acts: VecDeque<Act>, pub ign_term: bool, pub start: u64, pub end: u64, pub argv: Rc<Vec<Vec<u8>>>, pub ord: i64, pub killed: i32,
}
#[derive(Clone, Default)]
pub struct Kernel {
    pub fds: BTreeMap<i32, Fd>,
    pub descs: Vec<Desc>,
    pub pipes: Vec<Pipe>,
    pub counters: Vec<(u64, u64)>, // value, number of writes
    pub epolls: Vec<Vec<Reg>>,
    pub inodes: Vec<Rc<Vec<E>>>,
    pub fs: BTreeMap<Vec<u8>, Node>,
    pub dirs: Vec<(Vec<Vec<u8>>, u64)>, // entries, address of the dirent buffer
    pub procs: Vec<Proc>,
    pub scripts: BTreeMap<u64, Vec<Act>>,
    pub nprog: u64,
    pub pgid: i32,
    /// state of the parent while the child of a fork runs
    pub saved: Option<Rc<State>>,
    pub fork_ret: Option<i32>,
    pub kill_ret: Option<usize>,
    pub handlers: BTreeMap<i32, u64>,
    pub signals: Vec<(u64, i32)>, // scheduled for this process
    pub spawn: BTreeMap<u64, Vec<(u8, i32, i32)>>, // posix_spawn objects
    pub cli: Option<(usize, Option<i32>)>, // thread that runs main, exit code
    pub env: BTreeMap<Vec<u8>, u64>,
    pub init: bool,
    pub sems: BTreeMap<u64, i64>,
    pub late: u32,
}
const ENOENT: i32 = 2; const ESRCH: i32 = 3; const EBADF: i32 = 9; const ECHILD: i32 = 10; const EAGAIN: i32 = 11; const EACCES: i32 = 13; const EEXIST: i32 = 17; const ENOTDIR: i32 = 20; const EISDIR: i32 = 21; const EINVAL: i32 = 22; const EPIPE: i32 = 32; const ENOSYS: i32 = 38; const ENOTEMPTY: i32 = 39; const EPERM: i32 = 1;

fn kn(st: &mut State) -> &mut Kernel {
    let k = &mut st.os.k;
    if !k.init {
        k.init = true;
        k.pgid = SELF;
        for d in [&b"/"[..], b"/sim", b"/dev", b"/tmp"] { k.fs.insert(d.to_vec(), Node::Dir); }
        k.fs.insert(b"/sim/obj".to_vec(), Node::Prog);
        for fd in 0..3 {
            k.descs.push(Desc { kind: if fd == 0 { Kind::Null } else { Kind::Out(fd as u8) }, off: 0, nonblock: false, append: true, writable: true });
            k.fds.insert(fd, Fd { d: fd as usize, cloexec: false });
        }
        // what is written to descriptors 1 and 2 ends up in these files
        for (i, n) in [(0usize, &b"/sim/stdout"[..]), (1, b"/sim/stderr")] { k.inodes.push(Rc::new(vec![])); k.fs.insert(n.to_vec(), Node::File(i)); }
    }
    k
}
fn newfd(k: &mut Kernel, kind: Kind, nonblock: bool, cloexec: bool, min: i32) -> i32 {
    k.descs.push(Desc { kind, off: 0, nonblock, append: false, writable: true });
    let d = k.descs.len() - 1;
    putfd(k, Fd { d, cloexec }, min)
}
fn putfd(k: &mut Kernel, f: Fd, min: i32) -> i32 {
    let mut n = min;
    while k.fds.contains_key(&n) { n += 1; }
    k.fds.insert(n, f);
    n
}
fn desc(st: &mut State, fd: u64) -> Option<usize> { kn(st).fds.get(&(fd as i32)).map(|f| f.d) }
fn open_anywhere(k: &Kernel, want: impl Fn(Kind) -> bool) -> bool {
    let has = |t: &BTreeMap<i32, Fd>| t.values().any(|f| want(k.descs[f.d].kind));
    has(&k.fds) || k.procs.iter().any(|p| p.stat == PStat::Alive && has(&p.fds)) || k.saved.as_ref().map_or(false, |s| has(&s.os.k.fds))
}
fn writers(k: &Kernel, p: usize) -> bool { open_anywhere(k, |x| matches!(x, Kind::PipeW(q) if q == p) || matches!(x, Kind::Sock(_, q) if q == p)) }
fn readers(k: &Kernel, p: usize) -> bool { open_anywhere(k, |x| matches!(x, Kind::PipeR(q) if q == p) || matches!(x, Kind::Sock(q, _) if q == p)) }
/// Readiness and the state it stems from (for edge-triggered reports).
fn ready(k: &Kernel, d: usize) -> (u32, (u64, u64, bool)) {
    let rd = |p: usize| { let (b, w) = (!k.pipes[p].buf.is_empty(), writers(k, p)); (if b { 1 } else { 0 } | if !w { 0x10 | 1 } else { 0 }, b, w) };
    match k.descs[d].kind {
        Kind::PipeR(p) => { let (m, b, w) = rd(p); (if !b && !w { 0x10 } else if b && !w { 0x11 } else { m }, (k.pipes[p].written, 0, w)) }
        Kind::PipeW(p) => { let r = readers(k, p); (if !r { 0x8 | 4 } else if k.pipes[p].buf.len() < PIPE_CAP { 4 } else { 0 }, (k.pipes[p].taken, 0, r)) }
        Kind::Sock(r, w) => { let (m, _, o) = rd(r); (m | if !o { 0x2000 } else { 0 } | if k.pipes[w].buf.len() < PIPE_CAP { 4 } else { 0 }, (k.pipes[r].written, k.pipes[w].taken, o)) }
        Kind::Event(e) => (if k.counters[e].0 > 0 { 1 } else { 0 } | 4, (k.counters[e].1, 0, true)),
        Kind::Pidfd(p) => { let dead = k.procs.iter().find(|q| q.pid == p).map_or(true, |q| q.stat != PStat::Alive); (dead as u32, (0, 0, dead)) }
        _ => (5, (0, 0, true)),
    }
}
pub fn wake(st: &mut State) { for t in st.threads.iter_mut() { if t.stat == KWAIT { t.stat = TStat::Run; } } }
/// Wait in the kernel until something changes (or `rel` ns have passed): Ok(true) = timed out.
fn kwait(st: &mut State, rel: Option<u64>) -> R<bool> {
    let cur = st.cur;
    let clock = st.os.clock;
    let t = &mut st.threads[cur];
    if std::mem::take(&mut t.timed_out) { t.deadline = None; return Ok(true); }
    if t.deadline.is_none() { t.deadline = rel.map(|r| clock.saturating_add(r)); }
    t.stat = KWAIT;
    Err(Exc::Block)
}
fn done_waiting(st: &mut State) { let cur = st.cur; st.threads[cur].deadline = None; st.threads[cur].timed_out = false; }

// ---- processes
fn die(k: &mut Kernel, i: usize, status: i32, now: u64) {
    let p = &mut k.procs[i];
    p.stat = if p.ppid == SELF { PStat::Zombie(status) } else { PStat::Gone(status) };
    p.end = now;
    p.fds.clear();
    p.acts.clear();
    let pid = p.pid;
    for q in k.procs.iter_mut() { if q.ppid == pid { q.ppid = 1; if let PStat::Zombie(s) = q.stat { q.stat = PStat::Gone(s) } } }
}
fn signal_proc(k: &mut Kernel, i: usize, sig: i32, now: u64) {
    if k.procs[i].stat != PStat::Alive || sig == 0 { return; }
    match sig {
        9 => { k.procs[i].killed = sig; die(k, i, 9, now) }
        15 | 2 | 1 | 3 => if !k.procs[i].ign_term { k.procs[i].killed = sig; die(k, i, sig, now) },
        _ => {}
    }
}
/// Perform the due actions of the children; true if anything happened.
fn run_due(st: &mut State) -> bool {
    let now = st.os.clock;
    let k = kn(st);
    let mut any = false;
    let mut i = 0;
    while i < k.procs.len() {
        loop {
            if k.procs[i].stat != PStat::Alive { break; }
            let a = match k.procs[i].acts.front() { Some(a) if a.at <= now => a.clone(), _ => break };
            match a.kind {
                1 | 2 => {
                    let pipe = k.procs[i].fds.get(&(a.kind as i32)).map(|f| k.descs[f.d].kind);
                    match pipe {
                        Some(Kind::PipeW(p)) => {
                            if !readers(k, p) { any = true; k.procs[i].killed = 13; die(k, i, 13, now); break; }
                            let room = PIPE_CAP - k.pipes[p].buf.len();
                            let n = a.bytes.len().min(room);
                            if n == 0 && !a.bytes.is_empty() { break; }
                            any = true;
                            for b in &a.bytes[..n] { k.pipes[p].buf.push_back(*b); }
                            k.pipes[p].written += n as u64;
                            if n < a.bytes.len() { k.procs[i].acts[0].bytes = Rc::new(a.bytes[n..].to_vec()); break; }
                        }
                        Some(Kind::File(ino)) => Rc::make_mut(&mut k.inodes[ino]).extend(a.bytes.iter()),
                        Some(Kind::Out(w)) => Rc::make_mut(&mut k.inodes[w as usize - 1]).extend(a.bytes.iter()),
                        _ => {}
                    }
                }
                3 => for f in 0..3 { if a.arg >> f & 1 == 1 { k.procs[i].fds.remove(&f); } },
                // the higher byte: the signal it dies from
                4 => { any = true; let s = (a.arg >> 8) as i32; die(k, i, if s > 0 { s } else { ((a.arg & 0xff) << 8) as i32 }, now); break; }
                5 => {
                    // a process of its own in the same group; bit 0: it keeps the pipes open; the
                    // higher bits: ticks until it ends (0: never)
                    let p = k.procs[i].clone();
                    let pid = SELF + 1 + k.procs.len() as i32;
                    let life = a.arg >> 1;
                    let acts = if life > 0 { VecDeque::from(vec![Act { at: now + life * TICK, kind: 4, arg: 0, bytes: Rc::default() }]) } else { VecDeque::new() };
                    k.procs.push(Proc { pid, ppid: p.pid, fds: if a.arg & 1 == 1 { p.fds.clone() } else { BTreeMap::new() }, acts, start: now, argv: Rc::default(), ord: p.ord, ..p });
                }
                6 => k.procs[i].ign_term = true,
                _ => {}
            }
            any = true;
            if k.procs[i].stat == PStat::Alive { k.procs[i].acts.pop_front(); }
        }
        i += 1;
    }
    any
}
fn tick(st: &mut State) { if !st.os.k.procs.is_empty() && run_due(st) { wake(st); } }
/// When the next thing happens outside the process, if ever.
pub fn next_event(st: &mut State) -> Option<u64> {
    let now = st.os.clock;
    let k = kn(st);
    let a = k.procs.iter().filter(|p| p.stat == PStat::Alive).filter_map(|p| p.acts.front().map(|a| a.at)).filter(|t| *t > now).min();
    let s = k.signals.iter().map(|s| s.0).min();
    match (a, s) { (Some(a), Some(s)) => Some(a.min(s)), (a, s) => a.or(s) }
}
/// Nobody can run: perform what is due now; true if a thread may continue.
pub fn progress(x: &mut Exec, st: &mut State) -> R<bool> {
    if !st.os.k.init { return Ok(false); }
    // threads that were held back
    if let Some(t) = st.threads.iter_mut().find(|t| t.stat == TStat::Block(2)) { t.stat = TStat::Run; return Ok(true); }
    let now = st.os.clock;
    if let Some(i) = st.os.k.signals.iter().position(|s| s.0 <= now) {
        let (_, sig) = st.os.k.signals.remove(i);
        let h = st.os.k.handlers.get(&sig).copied().unwrap_or(0);
        if h <= 1 {
            if h == 1 { return Ok(true); }
            return Err(Exc::Viol("killed-by-signal".into(), format!("signal {} is not handled", sig)));
        }
        let f = x.fn_of_addr(h).ok_or_else(|| Exc::Unsup("signal handler".into()))?;
        // some blocked thread runs the handler and then repeats its call
        let t = (0..st.threads.len()).find(|t| st.threads[*t].stat == KWAIT).ok_or_else(|| Exc::Unsup("no thread to run a signal handler".into()))?;
        let info = x.alloc(st, 128);
        x.w32(st, info, sig as u32)?;
        let old = st.cur;
        st.cur = t;
        st.threads[t].stat = TStat::Run;
        let r = x.push_frame(st, f, &[Val::C(sig as u64), Val::C(info), Val::C(0)], u32::MAX);
        st.cur = old;
        r?;
        return Ok(true);
    }
    if run_due(st) { wake(st); return Ok(st.threads.iter().any(|t| t.stat == TStat::Run)); }
    Ok(false)
}
/// End of the program image in the child of a fork: back to the parent.
fn back_to_parent(st: &mut State, pid: i32) {
    let saved = st.os.k.saved.take().unwrap();
    let mut p = (*saved).clone();
    let child = std::mem::replace(st, p.clone());
    std::mem::swap(st, &mut p);
    // what was learned and drawn while in the child stays
    st.pc = child.pc; st.known = child.known; st.conc = child.conc; st.model = child.model; st.log = child.log; st.obs = child.obs;
    st.instrs = child.instrs; st.forks = child.forks; st.conc_run = child.conc_run; st.trail = child.trail; st.flags = child.flags;
    let pk = std::mem::take(&mut st.os.k);
    st.os.clock = child.os.clock;
    st.os.rand_calls = child.os.rand_calls;
    let mut k = child.os.k;
    k.fds = pk.fds; k.pgid = pk.pgid; k.saved = pk.saved; k.handlers = pk.handlers; k.cli = pk.cli; k.spawn = pk.spawn; k.env = pk.env; k.dirs = pk.dirs; k.sems = pk.sems;
    k.fork_ret = Some(pid);
    st.os.k = k;
}
fn fork(_x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> {
    let k = kn(st);
    if let Some(p) = k.fork_ret.take() { return ok(p as u64); }
    if k.saved.is_some() { return Err(Exc::Unsup("fork in a forked child".into())); }
    let s = Rc::new(st.clone());
    let cur = st.cur;
    for (i, t) in st.threads.iter_mut().enumerate() { if i != cur { t.stat = TStat::Done; } }
    st.os.k.saved = Some(s);
    ok(0)
}
fn fork_ppid(st: &State) -> bool { st.os.k.saved.is_some() }
fn argv(x: &mut Exec, st: &mut State, p: u64) -> R<Vec<Vec<u8>>> {
    let mut r = vec![];
    loop {
        let q = x.r64(st, p + 8 * r.len() as u64)?;
        if q == 0 { return Ok(r); }
        r.push(x.cstr(st, q)?);
    }
}
fn find_prog(k: &Kernel, name: &[u8]) -> Result<(), i32> {
    let path = if name.contains(&b'/') { name.to_vec() } else { [&b"/sim/"[..], name].concat() };
    match k.fs.get(&path) { Some(Node::Prog) => Ok(()), Some(_) => Err(EACCES), None => Err(ENOENT) }
}
fn add_proc(st: &mut State, pgid: i32, argv: Vec<Vec<u8>>, fds: BTreeMap<i32, Fd>) -> i32 {
    let now = st.os.clock;
    let k = kn(st);
    let pid = SELF + 1 + k.procs.len() as i32;
    let ord = k.nprog;
    k.nprog += 1;
    let mut acts: Vec<Act> = k.scripts.get(&ord).cloned().unwrap_or_else(|| vec![Act { at: 0, kind: 4, arg: 0, bytes: Rc::default() }]);
    for a in acts.iter_mut() { a.at += now; }
    acts.sort_by_key(|a| a.at);
    k.procs.push(Proc { pid, pgid: if pgid == 0 { pid } else { pgid }, ppid: SELF, stat: PStat::Alive, fds, acts: acts.into(), ign_term: false, start: now, end: 0, argv: Rc::new(argv), ord: ord as i64, killed: 0 });
    pid
}
fn execvp(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    let name = x.cstr(st, p)?;
    let ap = c(x, st, &a[1])?;
    let av = argv(x, st, ap)?;
    if let Err(e) = find_prog(kn(st), &name) { return fail(x, st, e); }
    if !fork_ppid(st) { return Err(Exc::Unsup("exec without fork".into())); }
    let k = kn(st);
    let fds = k.fds.iter().filter(|f| !f.1.cloexec).map(|f| (*f.0, *f.1)).collect();
    // pgid: 0 stands for "its own group" (setsid / setpgid(0, 0) in the child)
    let pgid = if k.pgid == -1 { 0 } else { k.pgid };
    k.fds.clear();
    let pid = add_proc(st, pgid, av, fds);
    back_to_parent(st, pid);
    Err(Exc::Again)
}
fn exit_child(st: &mut State, code: i32) -> R<Val> {
    let now = st.os.clock;
    let k = kn(st);
    k.fds.clear();
    let pid = SELF + 1 + k.procs.len() as i32;
    k.procs.push(Proc { pid, pgid: pid, ppid: SELF, stat: PStat::Zombie((code & 0xff) << 8), fds: BTreeMap::new(), acts: VecDeque::new(), ign_term: false, start: now, end: now, argv: Rc::default(), ord: -1, killed: 0 });
    back_to_parent(st, pid);
    Err(Exc::Again)
}
fn exit(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let code = c(x, st, &a[0])? as i32;
    if fork_ppid(st) { return exit_child(st, code); }
    let cur = st.cur;
    let _ = cur;
    if let Some((_, code_slot)) = &mut kn(st).cli {
        *code_slot = Some(code & 0xff);
        for t in 1..st.threads.len() { st.threads[t].stat = TStat::Done; }
        wake_parked(st);
        return match crate::posix::reschedule(x, st) { Err(Exc::Again) => Err(Exc::Again), Err(e) => Err(e), Ok(()) => Err(Exc::Again) };
    }
    Err(Exc::Viol("exit".into(), format!("the process exits with status {}", code)))
}
fn wake_parked(st: &mut State) { for t in st.threads.iter_mut() { if t.stat == PARKED { t.stat = TStat::Run; } } }
fn setsid(_: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> {
    if fork_ppid(st) { kn(st).pgid = -1; return ok(0x7ffffff0); }
    ok(SELF as u64)
}
fn setpgid(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, g) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])? as i32);
    if fork_ppid(st) && p == 0 { kn(st).pgid = if g == 0 { -1 } else { g }; return ok(0); }
    let k = kn(st);
    if let Some(q) = k.procs.iter_mut().find(|q| q.pid == p) { q.pgid = if g == 0 { p } else { g }; return ok(0); }
    ok(0)
}
fn getpgid(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])? as i32;
    let k = kn(st);
    if p == 0 || p == SELF { return ok(k.pgid as u64); }
    match k.procs.iter().find(|q| q.pid == p && !matches!(q.stat, PStat::Gone(_))) { Some(q) => { let g = q.pgid; ok(g as u64) } None => fail(x, st, ESRCH) }
}
fn do_kill(x: &mut Exec, st: &mut State, p: i32, sig: i32) -> R<Val> {
    let cur = st.cur;
    if kn(st).kill_ret == Some(cur) { kn(st).kill_ret = None; return ok(0); }
    tick(st);
    let now = st.os.clock;
    if p == SELF || p == 0 || p == -1 || p == -SELF { return Err(Exc::Viol("kills-itself".into(), format!("kill({}, {}) reaches this process and others", p, sig))); }
    if !(0..=64).contains(&sig) { return fail(x, st, EINVAL); }
    let k = kn(st);
    let who: Vec<usize> = (0..k.procs.len()).filter(|i| { let q = &k.procs[*i]; !matches!(q.stat, PStat::Gone(_)) && if p > 0 { q.pid == p } else { q.pgid == -p } }).collect();
    if who.is_empty() {
        return fail(x, st, ESRCH);
    }
    for i in who { signal_proc(k, i, sig, now); }
    wake(st);
    // flag 903: whoever waits for the death runs before the killer goes on
    if st.flags.get(&903).copied().unwrap_or(0) != 0 && st.threads.len() > 1 {
        let cur = st.cur;
        kn(st).kill_ret = Some(cur);
        st.threads[cur].stat = TStat::Block(2);
        return Err(Exc::Block);
    }
    ok(0)
}
fn kill(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, s) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])? as i32); do_kill(x, st, p, s) }
fn killpg(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, s) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])? as i32); if p < 0 { return fail(x, st, EINVAL); } do_kill(x, st, -p, s) }
fn raise(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { Err(Exc::Unsup("raise".into())) }
/// (pid, status) of a waitable child, None to wait, Err(errno)
fn reap(st: &mut State, p: i32, keep: bool) -> Result<Option<(i32, i32)>, i32> {
    let k = kn(st);
    let mine = |q: &Proc| q.ppid == SELF && !matches!(q.stat, PStat::Gone(_)) && match p { -1 => true, 0 => q.pgid == SELF, p if p > 0 => q.pid == p, p => q.pgid == -p };
    if !k.procs.iter().any(mine) { return Err(ECHILD); }
    for q in k.procs.iter_mut() {
        if mine(q) { if let PStat::Zombie(s) = q.stat { if !keep { q.stat = PStat::Gone(s); } return Ok(Some((q.pid, s))); } }
    }
    Ok(None)
}
fn waitpid(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    tick(st);
    let (p, sp, fl) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?, c(x, st, &a[2])?);
    match reap(st, p, false) {
        Err(e) => { done_waiting(st); fail(x, st, e) }
        Ok(Some((pid, s))) => { done_waiting(st); if sp != 0 { x.w32(st, sp, s as u32)?; } wake(st); ok(pid as u64) }
        Ok(None) => if fl & 1 == 1 { ok(0) } else { kwait(st, None)?; ok(0) },
    }
}
fn waitid(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    tick(st);
    let (ty, id, info, fl) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32, c(x, st, &a[2])?, c(x, st, &a[3])?);
    let p = match ty & 0xffffffff { 0 => -1, 1 => id, 2 => -id, 3 => match desc(st, id as u64).map(|d| kn(st).descs[d].kind) { Some(Kind::Pidfd(p)) => p, _ => return fail(x, st, EBADF) }, _ => return fail(x, st, EINVAL) };
    if info != 0 { x.write_bytes(st, info, &[0; 128])?; }
    match reap(st, p, fl & 0x1000000 != 0) {
        Err(e) => { done_waiting(st); fail(x, st, e) }
        Ok(Some((pid, s))) => {
            done_waiting(st);
            if info != 0 {
                x.w32(st, info, 17)?;
                x.w32(st, info + 8, if s & 0x7f == 0 { 1 } else { 2 })?;
                x.w32(st, info + 16, pid as u32)?;
                x.w32(st, info + 24, if s & 0x7f == 0 { (s >> 8) as u32 } else { (s & 0x7f) as u32 })?;
            }
            wake(st);
            ok(0)
        }
        Ok(None) => if fl & 1 == 1 { ok(0) } else { kwait(st, None)?; ok(0) },
    }
}
// posix_spawn
fn sp_init(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; kn(st).spawn.insert(p, vec![]); ok(0) }
fn sp_drop(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; kn(st).spawn.remove(&p); ok(0) }
fn sp_dup2(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, f, g) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32, c(x, st, &a[2])? as i32); kn(st).spawn.entry(p).or_default().push((1, f, g)); ok(0) }
fn sp_close(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, f) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32); kn(st).spawn.entry(p).or_default().push((2, f, 0)); ok(0) }
fn sp_pgroup(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, g) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32); kn(st).spawn.entry(p).or_default().push((3, g, 0)); ok(0) }
fn sp_flags(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, g) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32); kn(st).spawn.entry(p).or_default().push((4, g & 0xffff, 0)); ok(0) }
fn posix_spawnp(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (pp, np, fa, at, ap) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?, c(x, st, &a[3])?, c(x, st, &a[4])?);
    let name = x.cstr(st, np)?;
    let av = argv(x, st, ap)?;
    let k = kn(st);
    if let Err(e) = find_prog(k, &name) { return ok(e as u64); }
    let mut t = k.fds.clone();
    for (o, f, g) in k.spawn.get(&fa).cloned().unwrap_or_default() {
        match o { 1 => if let Some(mut d) = t.get(&f).copied() { d.cloexec = false; t.insert(g, d); }, _ => { t.remove(&f); } }
    }
    t.retain(|_, f| !f.cloexec);
    let at = k.spawn.get(&at).cloned().unwrap_or_default();
    let flags = at.iter().filter(|o| o.0 == 4).map(|o| o.1).last().unwrap_or(0);
    let pg = at.iter().filter(|o| o.0 == 3).map(|o| o.1).last().unwrap_or(0);
    let pgid = if flags & 2 != 0 { pg } else if flags & 0x80 != 0 { 0 } else { SELF };
    let pid = add_proc(st, pgid, av, t);
    x.w32(st, pp, pid as u32)?;
    ok(0)
}

// ---- descriptors
fn close_fd(st: &mut State, fd: i32) -> bool {
    let k = kn(st);
    let f = match k.fds.remove(&fd) { Some(f) => f, None => return false };
    let d = f.d;
    if !k.fds.values().any(|g| g.d == d) { for e in k.epolls.iter_mut() { e.retain(|r| r.d != d); } }
    wake(st);
    true
}
fn close(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let f = c(x, st, &a[0])? as i32; if close_fd(st, f) { ok(0) } else { fail(x, st, EBADF) } }
fn norm(x: &mut Exec, st: &mut State, dirfd: i32, p: u64) -> R<Vec<u8>> {
    let mut s = x.cstr(st, p)?;
    if s.first() != Some(&b'/') {
        let base = if dirfd != -100 { match desc(st, dirfd as u64).map(|d| kn(st).descs[d].kind) { Some(Kind::Dir(i)) => kn(st).dirs[i].0[0].clone(), _ => b"/".to_vec() } } else { b"/sim".to_vec() };
        s = [&base[..], b"/", &s[..]].concat();
    }
    let mut parts: Vec<&[u8]> = vec![];
    for q in s.split(|b| *b == b'/') { match q { b"" | b"." => {} b".." => { parts.pop(); } q => parts.push(q) } }
    let mut r = vec![];
    for q in parts { r.push(b'/'); r.extend_from_slice(q); }
    if r.is_empty() { r.push(b'/'); }
    Ok(r)
}
fn parent(p: &[u8]) -> Vec<u8> { let i = p.iter().rposition(|b| *b == b'/').unwrap_or(0); if i == 0 { b"/".to_vec() } else { p[..i].to_vec() } }
/// Why a path cannot be created.
fn parent_err(k: &Kernel, p: &[u8]) -> Option<i32> {
    match k.fs.get(&parent(p)) { Some(Node::Dir) => None, Some(_) => Some(ENOTDIR), None => { let mut q = parent(p); while q.len() > 1 { if matches!(k.fs.get(&q), Some(Node::File(_) | Node::Prog)) { return Some(ENOTDIR); } q = parent(&q); } Some(ENOENT) } }
}
fn do_open(x: &mut Exec, st: &mut State, path: Vec<u8>, fl: u64) -> R<Val> {
    let k = kn(st);
    let cloexec = fl & 0o2000000 != 0;
    let wr = fl & 3 != 0;
    if path == b"/dev/null" { let f = newfd(k, Kind::Null, false, cloexec, 0); return ok(f as u64); }
    let e = match k.fs.get(&path).cloned() {
        Some(Node::Dir) => {
            if wr { EISDIR } else {
                let mut names = vec![path.clone()];
                for q in k.fs.keys() { if q.len() > 1 && parent(q) == path { names.push(q[q.iter().rposition(|b| *b == b'/').unwrap() + 1..].to_vec()); } }
                k.dirs.push((names, 0));
                let i = k.dirs.len() - 1;
                let f = newfd(k, Kind::Dir(i), false, cloexec, 0);
                return ok(f as u64);
            }
        }
        Some(_) if fl & 0o200000 != 0 => ENOTDIR,
        Some(Node::File(i)) => {
            if fl & 0o300 == 0o300 { EEXIST } else {
                if fl & 0o1000 != 0 && wr { k.inodes[i] = Rc::new(vec![]); }
                let f = newfd(k, Kind::File(i), false, cloexec, 0);
                let d = k.descs.len() - 1;
                k.descs[d].append = fl & 0o2000 != 0;
                k.descs[d].writable = wr;
                return ok(f as u64);
            }
        }
        Some(Node::Prog) => EACCES,
        Some(Node::Link) => ENOENT,
        None => match parent_err(k, &path) {
            Some(e) => e,
            None if fl & 0o100 == 0 => ENOENT,
            None => {
                k.inodes.push(Rc::new(vec![]));
                let i = k.inodes.len() - 1;
                k.fs.insert(path, Node::File(i));
                let f = newfd(k, Kind::File(i), false, cloexec, 0);
                let d = k.descs.len() - 1;
                k.descs[d].append = fl & 0o2000 != 0;
                k.descs[d].writable = wr;
                return ok(f as u64);
            }
        },
    };
    fail(x, st, e)
}
fn open(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, fl) = (c(x, st, &a[0])?, c(x, st, &a[1])?); let s = norm(x, st, -100, p)?; do_open(x, st, s, fl) }
fn openat(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (d, p, fl) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?, c(x, st, &a[2])?); let s = norm(x, st, d, p)?; do_open(x, st, s, fl) }
fn put(x: &mut Exec, st: &mut State, p: u64, b: &[E]) -> R<()> {
    if b.iter().all(|e| cval(*e).is_some()) { let v: Vec<u8> = b.iter().map(|e| cval(*e).unwrap() as u8).collect(); return x.write_bytes(st, p, &v); }
    for (i, e) in b.iter().enumerate() { x.store(st, p + i as u64, &from(*e), &Ty::Int(8))?; }
    Ok(())
}
fn do_read(x: &mut Exec, st: &mut State, fd: u64, p: u64, n: u64) -> R<Val> {
    tick(st);
    let d = match desc(st, fd) { Some(d) => d, None => return fail(x, st, EBADF) };
    let k = kn(st);
    let (kind, nb, off) = (k.descs[d].kind, k.descs[d].nonblock, k.descs[d].off);
    match kind {
        Kind::File(i) => {
            let f = k.inodes[i].clone();
            let (s, e) = ((off as usize).min(f.len()), (off as usize).saturating_add(n as usize).min(f.len()));
            put(x, st, p, &f[s..e])?;
            kn(st).descs[d].off = e as u64;
            ok((e - s) as u64)
        }
        Kind::PipeR(q) | Kind::Sock(q, _) => {
            if k.pipes[q].buf.is_empty() {
                if !writers(k, q) { done_waiting(st); return ok(0); }
                if nb { return fail(x, st, EAGAIN); }
                kwait(st, None)?;
                return fail(x, st, EAGAIN);
            }
            let m = (n as usize).min(k.pipes[q].buf.len());
            let b: Vec<E> = k.pipes[q].buf.iter().take(m).copied().collect();
            put(x, st, p, &b)?;
            let k = kn(st);
            k.pipes[q].buf.drain(..m);
            k.pipes[q].taken += m as u64;
            done_waiting(st);
            wake(st);
            tick(st);
            ok(m as u64)
        }
        Kind::Event(e) => {
            let v = k.counters[e].0;
            if v == 0 { if nb { return fail(x, st, EAGAIN); } kwait(st, None)?; return fail(x, st, EAGAIN); }
            k.counters[e].0 = 0;
            x.w64(st, p, v)?;
            done_waiting(st);
            ok(8)
        }
        Kind::Null => ok(0),
        Kind::Dir(_) => fail(x, st, EISDIR),
        _ => fail(x, st, EINVAL),
    }
}
fn do_write(x: &mut Exec, st: &mut State, fd: u64, b: Vec<E>) -> R<Val> {
    tick(st);
    let d = match desc(st, fd) { Some(d) => d, None => return fail(x, st, EBADF) };
    let k = kn(st);
    let (kind, nb, off, append) = (k.descs[d].kind, k.descs[d].nonblock, k.descs[d].off, k.descs[d].append);
    let n = b.len();
    match kind {
        Kind::File(i) => {
            if !k.descs[d].writable { return fail(x, st, EBADF); }
            let f = Rc::make_mut(&mut k.inodes[i]);
            let at = if append { f.len() } else { off as usize };
            while f.len() < at { f.push(konst(0, 8)); }
            for (j, e) in b.iter().enumerate() { if at + j < f.len() { f[at + j] = *e } else { f.push(*e) } }
            k.descs[d].off = (at + n) as u64;
            ok(n as u64)
        }
        Kind::Out(w) => { Rc::make_mut(&mut k.inodes[w as usize - 1]).extend(b.iter()); ok(n as u64) }
        Kind::Null => ok(n as u64),
        Kind::PipeW(q) | Kind::Sock(_, q) => {
            if !readers(k, q) { return fail(x, st, EPIPE); }
            let m = n.min(PIPE_CAP - k.pipes[q].buf.len());
            if m == 0 && n > 0 { if nb { return fail(x, st, EAGAIN); } kwait(st, None)?; return fail(x, st, EAGAIN); }
            for e in &b[..m] { k.pipes[q].buf.push_back(*e); }
            k.pipes[q].written += m as u64;
            wake(st);
            ok(m as u64)
        }
        Kind::Event(e) => {
            let mut v = 0u64;
            for (j, e) in b.iter().take(8).enumerate() { v |= (cval(*e).unwrap_or(0) as u64) << (8 * j); }
            k.counters[e].0 = k.counters[e].0.saturating_add(v);
            k.counters[e].1 += 1;
            wake(st);
            ok(8)
        }
        _ => fail(x, st, EBADF),
    }
}
fn read(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (f, p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?); do_read(x, st, f, p, n) }
/// A write to a file by a helper thread may come later than anything else that can run.
fn held_back(x: &mut Exec, st: &mut State, fd: u64) -> R<bool> {
    let cur = st.cur;
    if cur == 0 || st.flags.get(&901).copied().unwrap_or(0) == 0 || kn(st).late >= 1 { return Ok(false); }
    if !matches!(desc(st, fd).map(|d| kn(st).descs[d].kind), Some(Kind::File(_))) { return Ok(false); }
    let n = st.log.iter().filter(|l| &*l.name == "late").count();
    let asked = st.threads[cur].retval == 0x1a7e;
    if asked { st.threads[cur].retval = 0; return Ok(false); }
    let _ = n;
    // the draw is made once: remember it while the decision forks
    let e = match st.threads[cur].specific.iter().find(|s| s.0 == u64::MAX) { Some(s) => s.1 as E, None => { let e = x.fresh(st, 1, "late"); st.threads[cur].specific.push((u64::MAX, e as u64)); e } };
    let b = x.decide(st, &from(e))?;
    st.threads[cur].specific.retain(|s| s.0 != u64::MAX);
    if b { kn(st).late += 1; st.threads[cur].retval = 0x1a7e; st.threads[cur].stat = TStat::Block(2); return Err(Exc::Block); }
    st.threads[cur].retval = 0x1a7e;
    Ok(false)
}
fn write(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?);
    held_back(x, st, f)?;
    let b = x.byte_exprs(st, p, n)?;
    let r = do_write(x, st, f, b);
    let cur = st.cur;
    if r.is_ok() && st.threads[cur].retval == 0x1a7e { st.threads[cur].retval = 0; }
    r
}
fn writev(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?);
    let mut b = vec![];
    for i in 0..n { let (q, l) = (x.r64(st, p + 16 * i)?, x.r64(st, p + 16 * i + 8)?); b.extend(x.byte_exprs(st, q, l)?); }
    do_write(x, st, f, b)
}
fn pread(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let _ = a; fail(x, st, ENOSYS) }
fn fcntl(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, cmd) = (c(x, st, &a[0])?, c(x, st, &a[1])? & 0xffffffff);
    let arg = if a.len() > 2 { c(x, st, &a[2])? } else { 0 };
    let d = match desc(st, f) { Some(d) => d, None => return fail(x, st, EBADF) };
    let k = kn(st);
    match cmd {
        0 | 1030 => { let g = putfd(k, Fd { d, cloexec: cmd == 1030 }, arg as i32); ok(g as u64) }
        1 => { let v = k.fds[&(f as i32)].cloexec; ok(v as u64) }
        2 => { k.fds.get_mut(&(f as i32)).unwrap().cloexec = arg & 1 == 1; ok(0) }
        3 => { let v = if k.descs[d].nonblock { 0o4000 } else { 0 } | 2; ok(v) }
        4 => { k.descs[d].nonblock = arg & 0o4000 != 0; ok(0) }
        _ => fail(x, st, EINVAL),
    }
}
fn dup(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let f = c(x, st, &a[0])?; match desc(st, f) { Some(d) => { let g = putfd(kn(st), Fd { d, cloexec: false }, 0); ok(g as u64) } None => fail(x, st, EBADF) } }
fn dup2(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, g) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32);
    match desc(st, f) { Some(d) => { if f as i32 != g { close_fd(st, g); kn(st).fds.insert(g, Fd { d, cloexec: false }); } ok(g as u64) } None => fail(x, st, EBADF) }
}
fn pipe2(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, fl) = (c(x, st, &a[0])?, if a.len() > 1 { c(x, st, &a[1])? } else { 0 });
    let k = kn(st);
    k.pipes.push(Pipe::default());
    let i = k.pipes.len() - 1;
    let (nb, ce) = (fl & 0o4000 != 0, fl & 0o2000000 != 0);
    let r = newfd(k, Kind::PipeR(i), nb, ce, 0);
    let w = newfd(k, Kind::PipeW(i), nb, ce, 0);
    x.w32(st, p, r as u32)?;
    x.w32(st, p + 4, w as u32)?;
    ok(0)
}
fn pipe(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { pipe2(x, st, &a[..1]) }
fn socketpair(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (ty, p) = (c(x, st, &a[1])?, c(x, st, &a[3])?);
    let k = kn(st);
    k.pipes.push(Pipe::default());
    k.pipes.push(Pipe::default());
    let i = k.pipes.len() - 2;
    let (nb, ce) = (ty & 0o4000 != 0, ty & 0o2000000 != 0);
    let r = newfd(k, Kind::Sock(i, i + 1), nb, ce, 0);
    let w = newfd(k, Kind::Sock(i + 1, i), nb, ce, 0);
    x.w32(st, p, r as u32)?;
    x.w32(st, p + 4, w as u32)?;
    ok(0)
}
fn recv(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { read(x, st, &a[..3]) }
fn send(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (f, p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])?); let b = x.byte_exprs(st, p, n)?; do_write(x, st, f, b) }
fn eventfd(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (v, fl) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let k = kn(st);
    k.counters.push((v, 0));
    let i = k.counters.len() - 1;
    let f = newfd(k, Kind::Event(i), fl & 0o4000 != 0, fl & 0o2000000 != 0, 0);
    ok(f as u64)
}
fn epoll_create1(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let fl = c(x, st, &a[0])?;
    let k = kn(st);
    k.epolls.push(vec![]);
    let i = k.epolls.len() - 1;
    let f = newfd(k, Kind::Epoll(i), false, fl & 0o2000000 != 0, 0);
    ok(f as u64)
}
fn epoll_of(st: &mut State, fd: u64) -> Option<usize> { desc(st, fd).and_then(|d| match kn(st).descs[d].kind { Kind::Epoll(i) => Some(i), _ => None }) }
fn epoll_ctl(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (e, op, fd, ev) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])? as i32, c(x, st, &a[3])?);
    let i = match epoll_of(st, e) { Some(i) => i, None => return fail(x, st, EBADF) };
    let d = match desc(st, fd as u64) { Some(d) => d, None => return fail(x, st, EBADF) };
    if matches!(kn(st).descs[d].kind, Kind::File(_) | Kind::Dir(_) | Kind::Null) { return fail(x, st, EPERM); }
    let (m, data) = if ev != 0 { (x.r32(st, ev)?, x.r64(st, ev + 4)?) } else { (0, 0) };
    let regs = &mut kn(st).epolls[i];
    let at = regs.iter().position(|r| r.fd == fd && r.d == d);
    match (op, at) {
        (1, None) => regs.push(Reg { fd, d, events: m, data, last: None }),
        (1, Some(_)) => return fail(x, st, EEXIST),
        (2, Some(j)) => { regs.remove(j); }
        (3, Some(j)) => { regs[j].events = m; regs[j].data = data; regs[j].last = None; }
        _ => return fail(x, st, ENOENT),
    }
    wake(st);
    ok(0)
}
fn epoll_wait(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    tick(st);
    let (e, p, max, to) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])? as i32, c(x, st, &a[3])? as i32);
    let i = match epoll_of(st, e) { Some(i) => i, None => return fail(x, st, EBADF) };
    let k = kn(st);
    let mut out = vec![];
    for j in 0..k.epolls[i].len() {
        let r = k.epolls[i][j].clone();
        let (m, sig) = ready(k, r.d);
        let m = m & (r.events | 0x18);
        if m == 0 { continue; }
        if r.events & 0x80000000 != 0 && r.last == Some(sig) { continue; }
        if (out.len() as i32) < max { k.epolls[i][j].last = Some(sig); out.push((m, r.data)); }
    }
    if !out.is_empty() {
        done_waiting(st);
        for (j, (m, d)) in out.iter().enumerate() { x.w32(st, p + 12 * j as u64, *m)?; x.w64(st, p + 12 * j as u64 + 4, *d)?; }
        return ok(out.len() as u64);
    }
    if to == 0 { done_waiting(st); return ok(0); }
    kwait(st, if to < 0 { None } else { Some(to as u64 * 1_000_000) })?;
    ok(0)
}
fn poll(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    tick(st);
    let (p, n, to) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])? as i32);
    let mut hits = 0;
    for i in 0..n {
        let (fd, ev) = (x.r32(st, p + 8 * i)?, x.r32(st, p + 8 * i + 4)? & 0xffff);
        let m = match desc(st, fd as u64) { Some(d) => ready(kn(st), d).0 & (ev | 0x18), None => 0x20 };
        if m != 0 { hits += 1; }
        x.write_bytes(st, p + 8 * i + 6, &(m as u16).to_le_bytes())?;
    }
    if hits > 0 || to == 0 { done_waiting(st); return ok(hits); }
    kwait(st, if to < 0 { None } else { Some(to as u64 * 1_000_000) })?;
    ok(0)
}
fn lseek(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, o, w) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i64, c(x, st, &a[2])? & 0xffffffff);
    let d = match desc(st, f) { Some(d) => d, None => return fail(x, st, EBADF) };
    let k = kn(st);
    let n = match k.descs[d].kind { Kind::File(i) => k.inodes[i].len() as i64, _ => return fail(x, st, 29) };
    let v = match w { 0 => o, 1 => k.descs[d].off as i64 + o, _ => n + o };
    k.descs[d].off = v as u64;
    ok(v as u64)
}
fn ftruncate(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, n) = (c(x, st, &a[0])?, c(x, st, &a[1])? as usize);
    let d = match desc(st, f) { Some(d) => d, None => return fail(x, st, EBADF) };
    let k = kn(st);
    if let Kind::File(i) = k.descs[d].kind { let v = Rc::make_mut(&mut k.inodes[i]); v.truncate(n); while v.len() < n { v.push(konst(0, 8)); } return ok(0); }
    fail(x, st, EINVAL)
}
fn put_stat(x: &mut Exec, st: &mut State, p: u64, mode: u32, size: u64, ino: u64) -> R<Val> {
    x.write_bytes(st, p, &[0; 144])?;
    x.w64(st, p, 1)?;
    x.w64(st, p + 8, ino + 10)?;
    x.w64(st, p + 16, 1)?;
    x.w32(st, p + 24, mode)?;
    x.w64(st, p + 48, size)?;
    x.w64(st, p + 56, 4096)?;
    ok(0)
}
fn stat_path(x: &mut Exec, st: &mut State, s: Vec<u8>, p: u64, follow: bool) -> R<Val> {
    let k = kn(st);
    match k.fs.get(&s).cloned() {
        Some(Node::Dir) => put_stat(x, st, p, 0o40755, 4096, 1),
        Some(Node::File(i)) => { let n = k.inodes[i].len() as u64; put_stat(x, st, p, 0o100644, n, i as u64) }
        Some(Node::Prog) => put_stat(x, st, p, 0o100755, 4, 3),
        Some(Node::Link) => if follow { fail(x, st, ENOENT) } else { put_stat(x, st, p, 0o120777, 4, 4) },
        None => { let e = parent_err(k, &s).unwrap_or(ENOENT); fail(x, st, e) }
    }
}
fn stat(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, q) = (c(x, st, &a[0])?, c(x, st, &a[1])?); let s = norm(x, st, -100, p)?; stat_path(x, st, s, q, true) }
fn lstat(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, q) = (c(x, st, &a[0])?, c(x, st, &a[1])?); let s = norm(x, st, -100, p)?; stat_path(x, st, s, q, false) }
fn fstatat(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (d, p, q) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?, c(x, st, &a[2])?); let s = norm(x, st, d, p)?; stat_path(x, st, s, q, false) }
fn fstat(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (f, p) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let d = match desc(st, f) { Some(d) => d, None => return fail(x, st, EBADF) };
    let k = kn(st);
    match k.descs[d].kind {
        Kind::File(i) => { let n = k.inodes[i].len() as u64; put_stat(x, st, p, 0o100644, n, i as u64) }
        Kind::Dir(_) => put_stat(x, st, p, 0o40755, 4096, 1),
        Kind::PipeR(_) | Kind::PipeW(_) => put_stat(x, st, p, 0o10600, 0, 2),
        _ => put_stat(x, st, p, 0o20666, 0, 2),
    }
}
fn access(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; let s = norm(x, st, -100, p)?; if kn(st).fs.contains_key(&s) { ok(0) } else { fail(x, st, ENOENT) } }
fn mkdir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    let s = norm(x, st, -100, p)?;
    let k = kn(st);
    if k.fs.contains_key(&s) { return fail(x, st, EEXIST); }
    if let Some(e) = parent_err(k, &s) { return fail(x, st, e); }
    k.fs.insert(s, Node::Dir);
    ok(0)
}
fn remove(x: &mut Exec, st: &mut State, s: Vec<u8>, dir: bool) -> R<Val> {
    let k = kn(st);
    let e = match k.fs.get(&s) {
        None => ENOENT,
        Some(Node::Dir) => if !dir { EISDIR } else if k.fs.keys().any(|q| q.len() > s.len() && q.starts_with(&s) && q[s.len()] == b'/') { ENOTEMPTY } else { 0 },
        Some(_) => if dir { ENOTDIR } else { 0 },
    };
    if e != 0 { return fail(x, st, e); }
    k.fs.remove(&s);
    ok(0)
}
fn rmdir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; let s = norm(x, st, -100, p)?; remove(x, st, s, true) }
fn unlink(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; let s = norm(x, st, -100, p)?; remove(x, st, s, false) }
fn unlinkat(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (d, p, fl) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?, c(x, st, &a[2])?); let s = norm(x, st, d, p)?; remove(x, st, s, fl & 0x200 != 0) }
fn rename(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, q) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let (s, t) = (norm(x, st, -100, p)?, norm(x, st, -100, q)?);
    let k = kn(st);
    if let Some(e) = parent_err(k, &t) { return fail(x, st, e); }
    match k.fs.remove(&s) { Some(Node::Dir) => Err(Exc::Unsup("rename of a directory".into())), Some(n) => { k.fs.insert(t, n); ok(0) } None => fail(x, st, ENOENT) }
}
fn opendir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    let s = norm(x, st, -100, p)?;
    match do_open(x, st, s, 0o200000)? { Val::C(f) if f as i64 >= 0 => fdopendir(x, st, &[Val::C(f)]), _ => ok(0) }
}
fn fdopendir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let f = c(x, st, &a[0])?;
    // DIR: descriptor, position, entry
    let p = x.alloc(st, 16 + 280);
    x.w64(st, p, f)?;
    x.w64(st, p + 8, 1)?;
    ok(p)
}
fn dirfd(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; let f = x.r64(st, p)?; ok(f) }
fn closedir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; let f = x.r64(st, p)?; close_fd(st, f as i32); x.free(st, p)?; ok(0) }
fn readdir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    let (f, i) = (x.r64(st, p)?, x.r64(st, p + 8)?);
    let d = match desc(st, f) { Some(d) => d, None => return ok(0) };
    let names = match kn(st).descs[d].kind { Kind::Dir(j) => kn(st).dirs[j].0.clone(), _ => return ok(0) };
    if i as usize >= names.len() { return ok(0); }
    let full = [&names[0][..], b"/", &names[i as usize][..]].concat();
    let ty = match kn(st).fs.get(&full) { Some(Node::Dir) => 4u8, Some(Node::Link) => 10, _ => 8 };
    x.w64(st, p + 8, i + 1)?;
    x.w64(st, p + 16, 20 + i)?;
    x.write_bytes(st, p + 16 + 16, &280u16.to_le_bytes())?;
    x.write_bytes(st, p + 16 + 18, &[ty])?;
    x.write_bytes(st, p + 16 + 19, &[&names[i as usize][..], b"\0"].concat())?;
    ok(p + 16)
}
fn getcwd(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; x.write_bytes(st, p, b"/sim\0")?; ok(p) }
fn isatty(x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> { let p = crate::posix::errno_addr(x, st); x.w32(st, p, 25)?; ok(0) }
fn enosys(x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> { fail(x, st, ENOSYS) }
fn rtmin(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(34) }
fn rtmax(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(64) }
fn zero(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(0) }
fn one(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(1000) }

// ---- signals
fn sigaction(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (s, n, o) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?, c(x, st, &a[2])?);
    let old = kn(st).handlers.get(&s).copied().unwrap_or(0);
    if n != 0 { let h = x.r64(st, n)?; kn(st).handlers.insert(s, h); }
    if o != 0 { x.write_bytes(st, o, &[0; 152])?; x.w64(st, o, old)?; }
    ok(0)
}
fn signal(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (s, h) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?); let o = kn(st).handlers.insert(s, h).unwrap_or(0); ok(o) }
fn sigset(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; x.write_bytes(st, p, &[0; 128])?; ok(0) }
fn sigmask(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[2])?; if p != 0 { x.write_bytes(st, p, &[0; 128])?; } ok(0) }

// ---- threads
fn pthread_create(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, f, arg) = (c(x, st, &a[0])?, c(x, st, &a[2])?, c(x, st, &a[3])?);
    let f = x.fn_of_addr(f).ok_or_else(|| Exc::Unsup("thread function".into()))?;
    let t = st.threads.len();
    st.threads.push(Thread::new());
    let old = st.cur;
    st.cur = t;
    let r = x.push_frame(st, f, &[Val::C(arg)], u32::MAX);
    st.cur = old;
    r?;
    x.w64(st, p, t as u64 + 1)?;
    ok(0)
}
fn pthread_self(_: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> { ok(st.cur as u64 + 1) }
fn pthread_join(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (t, p) = (c(x, st, &a[0])? as usize - 1, c(x, st, &a[1])?);
    if st.threads[t].stat != TStat::Done { let cur = st.cur; st.threads[cur].stat = TStat::Block(1000 + t as u32); return Err(Exc::Block); }
    if p != 0 { let v = st.threads[t].retval; x.w64(st, p, v)?; }
    ok(0)
}
fn attr_getstack(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, q) = (c(x, st, &a[1])?, c(x, st, &a[2])?); x.w64(st, p, 1 << 40)?; x.w64(st, q, 1 << 23)?; ok(0) }
fn sched_getaffinity(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (n, p) = (c(x, st, &a[1])?, c(x, st, &a[2])?); for i in 0..n { x.write_bytes(st, p + i, &[if i == 0 { 15 } else { 0 }])?; } ok(0) }
fn nanosleep(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    let t = x.r64(st, p)?.saturating_mul(1_000_000_000).saturating_add(x.r64(st, p + 8)?);
    sleep_ns(st, t)
}
fn clock_nanosleep(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let fl = c(x, st, &a[1])?; if fl & 1 == 1 { return Err(Exc::Unsup("absolute sleep".into())); } nanosleep(x, st, &a[2..]) }
fn sleep_ns(st: &mut State, t: u64) -> R<Val> {
    let cur = st.cur;
    let clock = st.os.clock;
    let th = &mut st.threads[cur];
    if std::mem::take(&mut th.timed_out) { th.deadline = None; return ok(0); }
    if th.deadline.is_none() { th.deadline = Some(clock.saturating_add(t)); }
    th.stat = TStat::Block(4);
    Err(Exc::Block)
}
fn sem_init(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, v) = (c(x, st, &a[0])?, c(x, st, &a[2])?); kn(st).sems.insert(p, v as i64); ok(0) }
fn sem_post(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; *kn(st).sems.entry(p).or_default() += 1; wake(st); ok(0) }
fn sem_wait(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    let v = kn(st).sems.entry(p).or_default();
    if *v > 0 { *v -= 1; done_waiting(st); return ok(0); }
    kwait(st, None)?;
    ok(0)
}

// ---- interface to the harness
fn os_act(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (ord, at, kind, arg, p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?, c(x, st, &a[2])? as u8, c(x, st, &a[3])?, c(x, st, &a[4])?, c(x, st, &a[5])?);
    let bytes = x.byte_exprs(st, p, n)?;
    kn(st).scripts.entry(ord).or_default().push(Act { at: at * (TICK / 100), kind, arg, bytes: Rc::new(bytes) });
    ok(0)
}
/// What became of the process with this index: pid, alive, signal that killed it, ordinal, start and end in 1/100 ticks, pgid
fn strerror_r(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (e, p, n) = (c(x, st, &a[0])? as i32, c(x, st, &a[1])?, c(x, st, &a[2])? as usize);
    let t = std::io::Error::from_raw_os_error(e).to_string();
    let mut t = t[..t.rfind(" (os error").unwrap_or(t.len())].as_bytes().to_vec();
    t.truncate(n - 1);
    t.push(0);
    x.write_bytes(st, p, &t)?;
    ok(0)
}
fn os_proc(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (i, p) = (c(x, st, &a[0])? as usize, c(x, st, &a[1])?);
    tick(st);
    let k = kn(st);
    // forked processes that executed nothing are not listed
    let q = match k.procs.iter().filter(|q| q.ord >= 0).nth(i) { Some(q) => q.clone(), None => return ok(0) };
    let u = TICK / 100;
    for (j, v) in [q.pid as u64, (q.stat == PStat::Alive) as u64, q.killed as u64, q.ord as u64, q.start / u, q.end / u, q.pgid as u64, matches!(q.stat, PStat::Zombie(_)) as u64, q.argv.len() as u64].iter().enumerate() { x.w64(st, p + 8 * j as u64, *v)?; }
    ok(1)
}
/// Copies argument j of process i; returns its length.
fn os_arg(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (i, j, p, n) = (c(x, st, &a[0])? as usize, c(x, st, &a[1])? as usize, c(x, st, &a[2])?, c(x, st, &a[3])? as usize);
    let v = match kn(st).procs.iter().filter(|q| q.ord >= 0).nth(i).and_then(|q| q.argv.get(j)) { Some(v) => v.clone(), None => return ok(u64::MAX) };
    x.write_bytes(st, p, &v[..v.len().min(n)])?;
    ok(v.len() as u64)
}
fn os_signal(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (at, s) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32); let t = st.os.clock + at * (TICK / 100); kn(st).signals.push((t, s)); ok(0) }
/// Run `f` as the main thread of a program; returns its exit status.
fn os_cli(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let f = c(x, st, &a[0])?;
    let cur = st.cur;
    match kn(st).cli {
        None => {
            let f = x.fn_of_addr(f).ok_or_else(|| Exc::Unsup("main".into()))?;
            let t = st.threads.len();
            st.threads.push(Thread::new());
            st.cur = t;
            let r = x.push_frame(st, f, &[Val::C(0)], u32::MAX);
            st.cur = cur;
            r?;
            kn(st).cli = Some((t, None));
            st.threads[cur].stat = PARKED;
            Err(Exc::Block)
        }
        Some((_, Some(code))) => { kn(st).cli = None; ok(code as u64) }
        Some((t, None)) => {
            if st.threads[t].stat == TStat::Done { kn(st).cli = None; return ok(st.threads[t].retval); }
            st.threads[cur].stat = PARKED;
            Err(Exc::Block)
        }
    }
}
pub fn thread_ended(st: &mut State, t: usize) { if matches!(st.os.k.cli, Some((u, _)) if u == t) { for i in 1..st.threads.len() { st.threads[i].stat = TStat::Done; } wake_parked(st); } }
fn os_dir(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let p = c(x, st, &a[0])?; kn(st); x.write_bytes(st, p, b"/sim")?; ok(4) }
fn os_clock(_: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> { ok(st.os.clock / (TICK / 100)) }
fn os_link(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?); let s = x.bytes(st, p, n)?; kn(st).fs.insert(s, Node::Link); ok(0) }
/// Remaining open descriptors of this process beyond the standard ones.
fn os_setargs(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (argc, argv) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    for (n, v, w) in [("imp::ARGC", argc, 8), ("imp::ARGV", argv, 8)] {
        let g = x.p.global_by_name(n).ok_or_else(|| Exc::Unsup(format!("no global {}", n)))?;
        let _ = w;
        x.w64(st, g, v)?;
    }
    ok(0)
}

pub fn syscall(x: &mut Exec, st: &mut State, n: u64, a: &[Val]) -> R<Val> {
    match n {
        434 => {
            let p = c(x, st, &a[0])? as i32;
            let k = kn(st);
            if !k.procs.iter().any(|q| q.pid == p && !matches!(q.stat, PStat::Gone(_))) { return fail(x, st, ESRCH); }
            let f = newfd(k, Kind::Pidfd(p), true, true, 0);
            ok(f as u64)
        }
        424 => { let (f, s) = (c(x, st, &a[0])?, c(x, st, &a[1])? as i32); match desc(st, f).map(|d| kn(st).descs[d].kind) { Some(Kind::Pidfd(p)) => do_kill(x, st, p, s), _ => fail(x, st, EBADF) } }
        257 => openat(x, st, a),
        332 | 435 | 436 | 439 => fail(x, st, ENOSYS),
        _ => Err(Exc::Unsup(format!("system call {}", n))),
    }
}
pub const EXACT: &[(&str, Host)] = &[
    ("open", open), ("open64", open), ("openat", openat), ("openat64", openat), ("read", read), ("write", write), ("writev", writev), ("pread64", pread), ("close", close), ("fcntl", fcntl), ("fcntl64", fcntl),
    ("dup", dup), ("dup2", dup2), ("dup3", dup2), ("pipe2", pipe2), ("pipe", pipe), ("socketpair", socketpair), ("recv", recv), ("send", send), ("eventfd", eventfd), ("epoll_create1", epoll_create1), ("epoll_ctl", epoll_ctl), ("epoll_wait", epoll_wait), ("poll", poll),
    ("lseek", lseek), ("lseek64", lseek), ("ftruncate64", ftruncate), ("ftruncate", ftruncate), ("stat64", stat), ("stat", stat), ("lstat64", lstat), ("lstat", lstat), ("fstat64", fstat), ("fstat", fstat), ("fstatat64", fstatat), ("statx", enosys), ("access", access),
    ("mkdir", mkdir), ("rmdir", rmdir), ("unlink", unlink), ("unlinkat", unlinkat), ("rename", rename), ("opendir", opendir), ("fdopendir", fdopendir), ("dirfd", dirfd), ("closedir", closedir), ("readdir64", readdir), ("getcwd", getcwd), ("isatty", isatty), ("fsync", zero), ("fdatasync", zero), ("ioctl", zero),
    ("__libc_current_sigrtmin", rtmin), ("__libc_current_sigrtmax", rtmax), ("sigaction", sigaction), ("signal", signal), ("sigemptyset", sigset), ("sigfillset", sigset), ("sigaddset", zero), ("sigdelset", zero), ("sigprocmask", sigmask), ("pthread_sigmask", sigmask), ("raise", raise), ("sigaltstack", zero),
    ("kill", kill), ("killpg", killpg), ("fork", fork), ("vfork", fork), ("setsid", setsid), ("setpgid", setpgid), ("getpgid", getpgid), ("execvp", execvp), ("execv", execvp), ("execve", execvp), ("_exit", exit), ("exit", exit), ("waitpid", waitpid), ("waitid", waitid),
    ("posix_spawnp", posix_spawnp), ("posix_spawn", posix_spawnp), ("posix_spawn_file_actions_init", sp_init), ("posix_spawn_file_actions_destroy", sp_drop), ("posix_spawn_file_actions_adddup2", sp_dup2), ("posix_spawn_file_actions_addclose", sp_close),
    ("posix_spawnattr_init", sp_init), ("posix_spawnattr_destroy", sp_drop), ("posix_spawnattr_setpgroup", sp_pgroup), ("posix_spawnattr_setflags", sp_flags), ("posix_spawnattr_setsigmask", zero), ("posix_spawnattr_setsigdefault", zero),
    ("pthread_create", pthread_create), ("pthread_self", pthread_self), ("pthread_join", pthread_join), ("pthread_detach", zero), ("pthread_attr_init", zero), ("pthread_attr_destroy", zero), ("pthread_attr_setstacksize", zero), ("pthread_attr_setguardsize", zero), ("pthread_getattr_np", zero),
    ("pthread_attr_getstack", attr_getstack), ("pthread_attr_getguardsize", zero), ("pthread_setname_np", zero), ("prctl", zero), ("sched_getaffinity", sched_getaffinity), ("nanosleep", nanosleep), ("clock_nanosleep", clock_nanosleep), ("getuid", one), ("geteuid", one), ("getgid", one), ("getegid", one), ("getppid", one),
    ("sem_init", sem_init), ("sem_post", sem_post), ("sem_wait", sem_wait), ("sem_destroy", zero), ("dlsym", zero), ("mmap", enosys), ("munmap", zero), ("mprotect", zero),
    ("__xpg_strerror_r", strerror_r), ("symx_os_dir", os_dir), ("symx_os_act", os_act), ("symx_os_proc", os_proc), ("symx_os_arg", os_arg), ("symx_os_signal", os_signal), ("symx_os_cli", os_cli), ("symx_os_clock", os_clock), ("symx_os_link", os_link), ("symx_os_setargs", os_setargs),
];
