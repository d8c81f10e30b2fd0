//! Concrete replay of a recorded assignment: `SYMX_VALUES` names a file with one line
//! `name value` per symbolic draw; draws with the same name are served in order.
use std::collections::{HashMap, VecDeque};
use std::io::Write;
use std::sync::Mutex;

#[derive(Default)]
struct S { vals: HashMap<String, VecDeque<u64>>, flags: HashMap<u64, u64>, loaded: bool, replay: bool, missing: u64 }
static ST: Mutex<Option<S>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut S) -> T) -> T {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.get_or_insert_with(S::default);
    if !s.loaded {
        s.loaded = true;
        if let Ok(p) = std::env::var("SYMX_VALUES") {
            s.replay = true;
            for l in std::fs::read_to_string(p).unwrap().lines() {
                if let Some((n, v)) = l.rsplit_once(' ') { s.vals.entry(n.into()).or_default().push_back(v.parse().unwrap()); }
            }
        }
    }
    f(s)
}
fn s(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() }
pub fn out(l: &str) { let mut o = std::io::stdout().lock(); let _ = writeln!(o, "{}", l); let _ = o.flush(); }
fn leave(code: i32) -> ! { extern "C" { fn _exit(c: i32) -> !; } os::cleanup(); unsafe { _exit(code) } }
pub mod os;

#[no_mangle] pub extern "C" fn symx_sym(w: u64, p: *const u8, n: usize) -> u64 {
    let k = s(p, n).replace([':', ','], "_");
    let v = with(|s| match s.vals.get_mut(&k).and_then(|q| q.pop_front()) { Some(v) => v, None => { s.missing += 1; 0 } });
    if w >= 64 { v } else { v & ((1 << w) - 1) }
}
#[no_mangle] pub extern "C" fn symx_fmag(max: u64, p: *const u8, n: usize) -> u64 {
    let v = symx_sym(64, p, n);
    symx_assume((v & (u64::MAX >> 1)) <= max);
    v
}
#[no_mangle] pub extern "C" fn symx_assume(c: bool) { if !c { out("SYMX-ASSUME-FALSE"); leave(9) } }
#[no_mangle] pub extern "C" fn symx_check(c: bool, p: *const u8, n: usize) { if !c { out(&format!("SYMX-VIOLATED {}", s(p, n))); leave(7) } }
#[no_mangle] pub extern "C" fn symx_cover(_p: *const u8, _n: usize) {}
#[no_mangle] pub extern "C" fn symx_flag_set(k: u64, v: u64) {
    if k == crate::os::LATE { os::LATE.store(v, std::sync::atomic::Ordering::SeqCst) }
    if k == crate::os::PREEMPT { os::PREEMPT.store(v, std::sync::atomic::Ordering::SeqCst) }
    with(|s| { s.flags.insert(k, v); })
}
#[no_mangle] pub extern "C" fn symx_flag(k: u64) -> u64 { with(|s| s.flags.get(&k).copied().unwrap_or(0)) }
#[no_mangle] pub extern "C" fn symx_observe(p: *const u8, n: usize, v: u64) { out(&format!("OBS {} {}", s(p, n), v)) }
#[no_mangle] pub extern "C" fn symx_conc(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn symx_kill() { out("SYMX-KILL"); leave(9) }
#[no_mangle] pub extern "C" fn symx_print(p: *const u8, n: usize, v: u64) { out(&format!("PRINT {} {}", s(p, n), v)) }
#[no_mangle] pub extern "C" fn symx_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle] pub extern "C" fn symx_decide(c: bool) -> bool { c }
#[no_mangle] pub extern "C" fn symx_real(p: *const u64, n: usize, l: *const u8, ln: usize) {
    let w = unsafe { std::slice::from_raw_parts(p, n) };
    let (mut st, mut k): (Vec<f64>, usize) = (vec![], 0);
    while k < n {
        match w[k] {
            0 => { k += 1; st.push(f64::from_bits(w[k])) }
            1 => { k += 1; st.push(w[k] as i64 as f64) }
            9 => return,
            o => { let (b, a) = (st.pop().unwrap(), st.pop().unwrap()); st.push(match o { 2 => a + b, 3 => a - b, 4 => a * b, _ => a / b }) }
        }
        k += 1;
    }
    symx_check(st[0] > -1e-8, l, ln)
}
#[no_mangle] pub extern "C" fn symx_must(c: bool) -> bool { c }

/// `10^x` is an uninterpreted symbol in the encoding, constrained by its contract; the replay
/// serves the recorded result, exactly as it serves recorded RNG draws.
#[no_mangle] pub extern "C" fn pow(a: f64, b: f64) -> f64 {
    // by argument: calls may be made in another order than in the encoding
    let found = with(|s| {
        let (qa, qb) = (s.vals.get("powa")?, s.vals.get("powb")?);
        let i = (0..qa.len()).find(|i| qa[*i] == a.to_bits() && qb[*i] == b.to_bits())?;
        for n in ["powa", "powb"] { s.vals.get_mut(n)?.remove(i); }
        s.vals.get_mut("pow")?.remove(i)
    });
    if let Some(v) = found { return f64::from_bits(v); }
    extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
    let f = unsafe { dlsym(-1isize as *mut u8, b"pow\0".as_ptr()) };
    assert!(!f.is_null());
    let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(f) };
    f(a, b)
}

/// Runs `f` and reports how it ended: a violated assertion exits 7, a panic exits 8.
pub fn run(f: fn()) -> ! {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        out(&format!("SYMX-PANIC {} {}", loc, i.payload_as_str().unwrap_or("").replace('\n', " ")));
        leave(8)
    }));
    f();
    with(|s| if s.missing > 0 && s.replay { out(&format!("NOTE {} draws without a recorded value", s.missing)) });
    out("SYMX-DONE");
    leave(0)
}
