//! Model of the operating system interface used by std / tokio / cambrian.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::state::*;

#[derive(Clone, Default)]
pub struct Os {
    pub clock: u64, // ns
    pub errno: Vec<u64>, // per thread address
    pub next_key: u64,
    pub rand_calls: u64,
    pub k: crate::kernel::Kernel,
}

pub fn c(x: &mut Exec, st: &mut State, v: &Val) -> R<u64> { x.conc(st, v) }
pub fn ok(v: u64) -> R<Val> { Ok(Val::C(v)) }

pub fn errno_addr(x: &mut Exec, st: &mut State) -> u64 {
    let t = st.cur;
    while st.os.errno.len() <= t { st.os.errno.push(0); }
    if st.os.errno[t] == 0 { let p = x.alloc(st, 8); st.os.errno[t] = p; }
    st.os.errno[t]
}
pub fn fail(x: &mut Exec, st: &mut State, e: i32) -> R<Val> {
    let p = errno_addr(x, st);
    x.w32(st, p, e as u32)?;
    ok(u64::MAX)
}

// ---- scheduling
/// The current thread cannot continue: choose another one.  Err(Again) = switched / retry.
pub fn reschedule(x: &mut Exec, st: &mut State) -> R<()> {
    let n = st.threads.len();
    for k in 1..=n {
        let t = (st.cur + k) % n;
        if st.threads[t].stat == TStat::Run { st.cur = t; return Err(Exc::Again); }
    }
    // nobody runnable: let the environment act (kernel events), then advance the clock
    if crate::kernel::progress(x, st)? { return reschedule(x, st); }
    let next = if st.os.k.init { crate::kernel::next_event(st) } else { None };
    let mut best: Option<(u64, usize)> = None;
    for (i, t) in st.threads.iter().enumerate() {
        if t.stat == TStat::Done { continue; }
        if let Some(d) = t.deadline { if best.map(|b| d < b.0).unwrap_or(true) { best = Some((d, i)); } }
    }
    if let Some(t) = next { if best.map(|b| t <= b.0).unwrap_or(true) { st.os.clock = st.os.clock.max(t); return reschedule(x, st); } }
    match best {
        Some((d, i)) => {
            if d > st.os.clock { st.os.clock = d; }
            let t = &mut st.threads[i];
            t.deadline = None;
            t.timed_out = true;
            t.stat = TStat::Run;
            st.cur = i;
            Err(Exc::Again)
        }
        None => {
            let bt: Vec<String> = (0..n).filter(|t| st.threads[*t].stat != TStat::Done).map(|t| { let s = &st.threads[t]; format!("thread {} ({:?}): {}", t, s.stat, s.frames.iter().rev().take(6).map(|f| x.p.fns[f.f.id as usize].short.clone()).collect::<Vec<_>>().join(" < ")) }).collect();
            Err(Exc::Viol("hang".into(), format!("no thread can make progress: {}", bt.join("; "))))
        }
    }
}
/// The current thread's last frame returned.
pub fn thread_done(x: &mut Exec, st: &mut State) -> R<()> {
    if st.cur == 0 { return Err(Exc::Done); }
    let cur = st.cur;
    // thread-local destructors are run by the guest trampoline; wake joiners
    st.threads[cur].stat = TStat::Done;
    crate::kernel::thread_ended(st, cur);
    for t in 0..st.threads.len() { if st.threads[t].stat == TStat::Block(1000 + cur as u32) { st.threads[t].stat = TStat::Run; } }
    match reschedule(x, st) { Err(Exc::Again) => Ok(()), r => r }
}
/// Block the current thread until woken (the instruction is retried).
pub fn block(st: &mut State, s: TStat, deadline: Option<u64>) -> R<Val> {
    let cur = st.cur;
    st.threads[cur].stat = s;
    st.threads[cur].deadline = deadline;
    Err(Exc::Block)
}
pub fn take_timeout(st: &mut State) -> bool { let cur = st.cur; std::mem::take(&mut st.threads[cur].timed_out) }

// ---- libc
fn errno_location(x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> { ok(errno_addr(x, st)) }
fn clock_gettime(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[1])?;
    let id = c(x, st, &a[0])?;
    // time passes, differently in different surroundings (flag 900)
    st.os.clock += 1000 + 37 * st.flags.get(&900).copied().unwrap_or(0);
    let base = if id == 0 { 1_700_000_000 } else { 1000 };
    let t = st.os.clock;
    x.w64(st, p, base + t / 1_000_000_000)?;
    x.w64(st, p + 8, t % 1_000_000_000)?;
    ok(0)
}
fn getrandom(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (p, n) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    // flag 900: environment identity (self-composition runs use different values)
    let env = st.flags.get(&900).copied().unwrap_or(0);
    for i in 0..n {
        st.os.rand_calls += 1;
        let v = (st.os.rand_calls.wrapping_mul(0x9e3779b97f4a7c15) >> 56) as u8 ^ (env.wrapping_mul(0x5d) as u8);
        x.write_bytes(st, p + i, &[v])?;
    }
    ok(n)
}
fn zero(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(0) }
fn key_create(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let p = c(x, st, &a[0])?;
    st.os.next_key += 1;
    let k = st.os.next_key;
    x.w32(st, p, k as u32)?;
    ok(0)
}
fn getspecific(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let k = c(x, st, &a[0])?;
    let cur = st.cur;
    ok(st.threads[cur].specific.iter().find(|s| s.0 == k).map(|s| s.1).unwrap_or(0))
}
fn setspecific(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (k, v) = (c(x, st, &a[0])?, c(x, st, &a[1])?);
    let cur = st.cur;
    let s = &mut st.threads[cur].specific;
    if let Some(e) = s.iter_mut().find(|s| s.0 == k) { e.1 = v } else { s.push((k, v)) }
    ok(0)
}
fn sched_yield(_: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> {
    let n = st.threads.len();
    let _ = n;
    st.os.clock += 1000;
    ok(0)
}
pub fn futex(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let (addr, op, val) = (c(x, st, &a[0])?, c(x, st, &a[1])? & 0x7f, c(x, st, &a[2])?);
    match op {
        0 | 9 => {
            // FUTEX_WAIT / WAIT_BITSET
            if take_timeout(st) { return fail(x, st, 110); }
            let cur = st.cur;
            if st.threads[cur].stat == TStat::Futex(addr) { st.threads[cur].stat = TStat::Run; }
            let v = x.r32(st, addr)?;
            if v != val as u32 { return fail(x, st, 11); }
            if st.threads[cur].woken { st.threads[cur].woken = false; return ok(0); }
            let ts = c(x, st, &a[3])?;
            let dl = if ts != 0 {
                let (s, n) = (x.r64(st, ts)?, x.r64(st, ts + 8)?);
                let t = s.saturating_mul(1_000_000_000).saturating_add(n);
                Some(if op == 9 { t.saturating_sub(1000 * 1_000_000_000) } else { st.os.clock.saturating_add(t) })
            } else { None };
            block(st, TStat::Futex(addr), dl)
        }
        1 | 10 => {
            let mut n = 0;
            for t in 0..st.threads.len() {
                if n >= val as u32 { break; }
                if st.threads[t].stat == TStat::Futex(addr) {
                    let th = &mut st.threads[t];
                    th.stat = TStat::Run;
                    th.deadline = None;
                    th.woken = true;
                    n += 1;
                }
            }
            ok(n as u64)
        }
        _ => Err(Exc::Unsup(format!("futex op {}", op))),
    }
}
fn syscall(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> {
    let n = c(x, st, &a[0])?;
    match n {
        202 => futex(x, st, &a[1..]),
        318 => getrandom(x, st, &a[1..]),
        186 => ok(1 + st.cur as u64),
        _ => crate::kernel::syscall(x, st, n, &a[1..]),
    }
}
fn getenv(_: &mut Exec, _: &mut State, _: &[Val]) -> R<Val> { ok(0) }
fn getpid(x: &mut Exec, st: &mut State, _: &[Val]) -> R<Val> { let _ = x; ok(crate::kernel::SELF as u64 + 17 * st.flags.get(&900).copied().unwrap_or(0)) }
fn sysconf(x: &mut Exec, st: &mut State, a: &[Val]) -> R<Val> { ok(match c(x, st, &a[0])? { 30 => 4096, 83 | 84 => 4, 4 => 1024, 70 => 1024, 69 => 1024, _ => 4096 }) }

pub const EXACT: &[(&str, Host)] = &[
    ("__errno_location", errno_location), ("clock_gettime", clock_gettime), ("getrandom", getrandom), ("getenv", getenv), ("getpid", getpid), ("secure_getenv", getenv),
    ("__cxa_thread_atexit_impl", zero), ("pthread_key_create", key_create), ("pthread_getspecific", getspecific), ("pthread_setspecific", setspecific), ("pthread_key_delete", zero),
    ("sched_yield", sched_yield), ("syscall", syscall), ("sysconf", sysconf), ("pthread_atfork", zero),
];
#[allow(dead_code)]
fn _u(_: E) {}
