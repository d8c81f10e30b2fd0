//! The native counterpart of the executor's operating-system model: a scratch directory, a helper
//! program (this executable under the name `obj`) that follows a script, and locks on files that
//! tell which helpers are alive.
use std::fs::{self, File, OpenOptions};
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn flock(fd: i32, op: i32) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn getpid() -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn close(fd: i32) -> i32;
    fn mkdtemp(p: *mut u8) -> *mut u8;
}
/// The scheduling that the executor chose is reproduced by delays: a write to a file by a helper
/// thread comes later, or others run right after a kill.
pub static LATE: AtomicU64 = AtomicU64::new(0);
pub static PREEMPT: AtomicU64 = AtomicU64::new(0);
unsafe fn regular(fd: i32) -> bool { let mut st = [0u32; 64]; syscall(5, fd as i64, st.as_mut_ptr()) == 0 && st[6] & 0o170000 == 0o100000 }
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if LATE.load(Ordering::SeqCst) != 0 && fd > 2 && syscall(186) != getpid() as i64 && regular(fd) {
        if super::symx_sym(1, b"late".as_ptr(), 4) == 1 { LATE.store(0, Ordering::SeqCst); std::thread::sleep(Duration::from_millis(150)); }
    }
    syscall(1, fd as i64, p, n) as isize
}
/// Only children (and their groups) may be signalled, whatever the code under test does.
unsafe fn mine(pid: i32) -> bool {
    if pid == 0 || pid == -1 || pid == i32::MIN { return false; }
    let p = pid.abs();
    if with(|n| n.cli) == Some(p as u32) { return true; }
    if p == getpid() { return pid > 0 && std::thread::current().name() == Some("symx-signal"); }
    // a child that has been started (the group keeps its number when it has ended), or nobody
    BORN.lock().unwrap_or_else(|e| e.into_inner()).contains(&p) || syscall(62, pid as i64, 0i64) != 0
}
/// Every process started (the numbers are those of the namespace, so /proc is of no use).
static BORN: Mutex<Vec<i32>> = Mutex::new(Vec::new());
unsafe fn real(name: &[u8]) -> *mut u8 { extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; } let f = dlsym(-1isize as *mut u8, name.as_ptr()); assert!(!f.is_null()); f }
fn born(p: i32) { if p > 0 { BORN.lock().unwrap_or_else(|e| e.into_inner()).push(p) } }
#[no_mangle] pub unsafe extern "C" fn fork() -> i32 {
    let f: extern "C" fn() -> i32 = std::mem::transmute(real(b"fork\0"));
    let p = f();
    born(p);
    p
}
type Spawn = extern "C" fn(*mut i32, *const u8, *const u8, *const u8, *const u8, *const u8) -> i32;
#[no_mangle] pub unsafe extern "C" fn posix_spawn(p: *mut i32, a: *const u8, b: *const u8, c: *const u8, d: *const u8, e: *const u8) -> i32 {
    let f: Spawn = std::mem::transmute(real(b"posix_spawn\0"));
    let r = f(p, a, b, c, d, e);
    if r == 0 { born(*p) }
    r
}
#[no_mangle] pub unsafe extern "C" fn posix_spawnp(p: *mut i32, a: *const u8, b: *const u8, c: *const u8, d: *const u8, e: *const u8) -> i32 {
    let f: Spawn = std::mem::transmute(real(b"posix_spawnp\0"));
    let r = f(p, a, b, c, d, e);
    if r == 0 { born(*p) }
    r
}
#[no_mangle] pub unsafe extern "C" fn kill(pid: i32, sig: i32) -> i32 {
    if !mine(pid) { println!("SYMX-VIOLATED kills-itself"); println!("kill({}, {})", pid, sig); super::leave(7); }
    let r = syscall(62, pid as i64, sig as i64) as i32;
    if PREEMPT.load(Ordering::SeqCst) != 0 { std::thread::sleep(Duration::from_millis(30)); }
    r
}
#[no_mangle] pub unsafe extern "C" fn killpg(pid: i32, sig: i32) -> i32 { kill(-pid, sig) }
struct N { dir: Option<PathBuf>, t0: Instant, args: Vec<Vec<u8>>, signals: Vec<(u64, i32)>, cli: Option<u32> }
static S: Mutex<Option<N>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut N) -> T) -> T {
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(|| N { dir: None, t0: Instant::now(), args: vec![], signals: vec![], cli: None }))
}
fn scale() -> f64 { std::env::var("SYMX_SLOW_CLOCK").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0) }
fn ms(t: u64) -> Duration { Duration::from_secs_f64(t as f64 * scale() / 1000.0) }
fn dir() -> PathBuf {
    with(|n| {
        if n.dir.is_none() {
            let base = std::env::var("TMPDIR").unwrap_or("/tmp".into());
            let mut t = format!("{}/symx-os-XXXXXX\0", base).into_bytes();
            assert!(!unsafe { mkdtemp(t.as_mut_ptr()) }.is_null());
            t.pop();
            let d = PathBuf::from(String::from_utf8(t).unwrap());
            std::os::unix::fs::symlink(std::env::current_exe().unwrap(), d.join("obj")).unwrap();
            n.dir = Some(d.clone());
            n.t0 = Instant::now();
            let t0 = n.t0;
            // when helpers came and went
            std::thread::spawn(move || loop {
                if !d.exists() { return; }
                let l = list_in(&d);
                let now = (t0.elapsed().as_secs_f64() * 1000.0 / scale()) as u64;
                let mut w = WATCH.lock().unwrap();
                for (f, _, _) in l {
                    let e = w.entry(f.clone()).or_insert((now, 0));
                    if e.1 == 0 && !held(&f) { e.1 = now; }
                }
                drop(w);
                std::thread::sleep(Duration::from_millis(5));
            });
        }
        n.dir.clone().unwrap()
    })
}
fn held(p: &Path) -> bool {
    use std::os::fd::AsRawFd;
    match File::open(p) { Ok(f) => unsafe { flock(f.as_raw_fd(), 2 | 4) != 0 }, Err(_) => false }
}
/// Ends what is left over and removes the directory.
pub fn cleanup() {
    let d = match with(|n| n.dir.take()) { Some(d) => d, None => return };
    for e in fs::read_dir(&d).into_iter().flatten().flatten() {
        let n = e.file_name().into_string().unwrap_or_default();
        if (n.starts_with("proc.") || n.starts_with("grand.")) && held(&e.path()) {
            if let Some(p) = fs::read_to_string(e.path()).ok().and_then(|t| t.lines().next().and_then(|l| l.parse::<i32>().ok())) { if p > 1 { unsafe { syscall(62, p as i64, 9i64); } } }
        }
    }
    if d.to_string_lossy().contains("/symx-os-") { let _ = fs::remove_dir_all(&d); }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

#[no_mangle] pub extern "C" fn symx_os_dir(p: *mut u8, cap: usize) -> usize {
    let d = dir().to_string_lossy().into_owned();
    assert!(d.len() <= cap);
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len()) }
    d.len()
}
#[no_mangle] pub extern "C" fn symx_os_act(ord: u64, at: u64, kind: u64, arg: u64, p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let mut f = OpenOptions::new().create(true).append(true).open(dir().join(format!("script.{}", ord))).unwrap();
    writeln!(f, "{} {} {} x{}", at, kind, arg, hex(b)).unwrap();
}
/// Main processes in order of their start, then the others.
fn list() -> Vec<(PathBuf, i64, bool)> { list_in(&dir()) }
static WATCH: Mutex<std::collections::BTreeMap<PathBuf, (u64, u64)>> = Mutex::new(std::collections::BTreeMap::new());
fn list_in(d: &Path) -> Vec<(PathBuf, i64, bool)> {
    let mut v = vec![];
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let n = e.file_name().into_string().unwrap();
        let w: Vec<&str> = n.split('.').collect();
        match w[0] { "proc" => v.push((e.path(), w[1].parse().unwrap(), true)), "grand" => v.push((e.path(), w[1].parse().unwrap(), false)), _ => {} }
    }
    v.sort_by_key(|x| (!x.2, x.1, x.0.clone()));
    v
}
#[no_mangle] pub extern "C" fn symx_os_proc(i: u64, p: *mut u64) -> u64 {
    if i == 0 { std::thread::sleep(ms(150)); }
    let l = list();
    if i as usize >= l.len() { return 0; }
    let (f, ord, main) = &l[i as usize];
    let alive = held(f);
    let t = fs::read_to_string(f).unwrap();
    let mut it = t.lines();
    let pid: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let argc = t.lines().filter(|l| l.starts_with('x')).count();
    let times = WATCH.lock().unwrap().get(f).copied().unwrap_or((0, 0));
    let ended = t.lines().any(|l| l == "end");
    let w = [pid, alive as u64, (!alive && !ended) as u64, *ord as u64, times.0, times.1, 0, 0, if *main { argc as u64 } else { 0 }];
    unsafe { std::ptr::copy_nonoverlapping(w.as_ptr(), p, 9) }
    1
}
#[no_mangle] pub extern "C" fn symx_os_arg(i: u64, j: u64, p: *mut u8, cap: usize) -> u64 {
    let l = list();
    if i as usize >= l.len() { return u64::MAX; }
    let t = fs::read_to_string(&l[i as usize].0).unwrap();
    match t.lines().filter(|l| l.starts_with('x')).nth(j as usize) {
        Some(h) => { let b = unhex(&h[1..]); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len().min(cap)) } b.len() as u64 }
        None => u64::MAX,
    }
}
#[no_mangle] pub extern "C" fn symx_os_signal(at: u64, sig: u64) {
    with(|n| n.signals.push((at, sig as i32)));
    let _ = std::thread::Builder::new().name("symx-signal".into()).spawn(move || {
        std::thread::sleep(ms(at));
        let to = with(|n| n.cli).map(|p| p as i32).unwrap_or(unsafe { getpid() });
        unsafe { kill(to, sig as i32); }
    });
}
#[no_mangle] pub extern "C" fn symx_os_setargs(argc: u64, argv: *const *const u8) {
    let v = (0..argc as usize).map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i) as *const _) }.to_bytes().to_vec()).collect();
    with(|n| n.args = v);
}
#[no_mangle] pub extern "C" fn symx_os_cli(_f: extern "C" fn(u64) -> u64) -> u64 {
    use std::os::unix::ffi::OsStrExt;
    let args = with(|n| n.args.clone());
    let d = dir();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg0("cambrian");
    for a in &args[1..] { c.arg(std::ffi::OsStr::from_bytes(a)); }
    c.env_clear().env("PATH", format!("{}:/usr/bin:/bin", d.display())).current_dir(&d).stdin(std::process::Stdio::null());
    for v in ["SYMX_SLOW_CLOCK", "TMPDIR"] { if let Ok(x) = std::env::var(v) { c.env(v, x); } }
    let app = |n: &str| OpenOptions::new().create(true).append(true).open(d.join(n)).unwrap();
    let mut p = c.stdout(app("stdout")).stderr(app("stderr")).spawn().unwrap();
    with(|n| n.cli = Some(p.id()));
    let s = p.wait().unwrap();
    with(|n| n.cli = None);
    use std::os::unix::process::ExitStatusExt;
    s.code().unwrap_or(128 + s.signal().unwrap_or(0)) as u64
}
#[no_mangle] pub extern "C" fn symx_os_clock() -> u64 { (with(|n| n.t0.elapsed()).as_secs_f64() * 1000.0 / scale()) as u64 }

fn lock(f: &File) { use std::os::fd::AsRawFd; unsafe { flock(f.as_raw_fd(), 2); } }
/// What this executable does under the name `obj`.
pub fn helper() -> ! {
    use std::os::unix::ffi::OsStrExt;
    let args: Vec<Vec<u8>> = std::env::args_os().map(|a| a.as_bytes().to_vec()).collect();
    let t0 = Instant::now();
    let me = PathBuf::from(std::ffi::OsStr::from_bytes(&args[0]));
    // found through the search path: the directory is the current one
    let d = match me.parent() { Some(p) if p != Path::new("") => p.to_path_buf(), _ => std::env::current_dir().unwrap() };
    if args.len() > 1 && args[1] == b"--grand" {
        let a: Vec<u64> = args[2..5].iter().map(|a| std::str::from_utf8(a).unwrap().parse().unwrap()).collect();
        let (ord, k, life) = (a[0], a[1], a[2]);
        let tmp = d.join(format!("tmp.{}.{}", ord, k));
        let mut f = File::create(&tmp).unwrap();
        lock(&f);
        writeln!(f, "{}", std::process::id()).unwrap();
        fs::rename(&tmp, d.join(format!("grand.{}.{}", ord, k))).unwrap();
        std::thread::sleep(if life == 0 { Duration::from_secs(60) } else { ms(life) });
        writeln!(f, "end").unwrap();
        std::process::exit(0);
    }
    // order of start: by pid among those that have registered
    let pid = std::process::id();
    fs::write(d.join(format!("reg.{}", pid)), "").unwrap();
    std::thread::sleep(Duration::from_millis(20));
    let ord = fs::read_dir(&d).unwrap().flatten().filter_map(|e| e.file_name().into_string().ok()?.strip_prefix("reg.")?.parse::<u32>().ok()).filter(|p| *p < pid).count() as u64;
    let tmp = d.join(format!("tmp.{}", pid));
    let mut f = File::create(&tmp).unwrap();
    lock(&f);
    writeln!(f, "{}", pid).unwrap();
    for a in &args { writeln!(f, "x{}", hex(a)).unwrap(); }
    fs::rename(&tmp, d.join(format!("proc.{}", ord))).unwrap();
    let mut acts: Vec<(u64, u64, u64, Vec<u8>)> = match fs::read_to_string(d.join(format!("script.{}", ord))) {
        Ok(t) => t.lines().map(|l| { let w: Vec<&str> = l.split(' ').collect(); (w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap(), unhex(&w[3][1..])) }).collect(),
        Err(_) => vec![(0, 4, 0, vec![])],
    };
    acts.sort_by_key(|a| a.0);
    let mut k = 0;
    for (at, kind, arg, bytes) in acts {
        let due = t0 + ms(at);
        let now = Instant::now();
        if due > now { std::thread::sleep(due - now); }
        match kind {
            1 | 2 => { let mut b = &bytes[..]; while !b.is_empty() { let n = unsafe { write(kind as i32, b.as_ptr(), b.len()) }; if n <= 0 { break; } b = &b[n as usize..]; } }
            3 => for i in 0..3 { if arg >> i & 1 == 1 { unsafe { close(i); } } },
            4 => {
                writeln!(f, "end").unwrap();
                drop(f);
                extern "C" { fn _exit(c: i32) -> !; fn signal(s: i32, h: usize) -> usize; }
                if arg >> 8 > 0 { unsafe { signal((arg >> 8) as i32, 0); syscall(62, std::process::id() as i64, arg as i64 >> 8); } std::thread::sleep(Duration::from_secs(60)); }
                unsafe { _exit(arg as i32) }
            }
            5 => {
                let mut c = std::process::Command::new(&me);
                c.arg0(&me).arg("--grand").arg(ord.to_string()).arg(k.to_string()).arg(((arg >> 1) * 100).to_string());
                if arg & 1 == 0 { c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()); }
                c.spawn().unwrap();
                let g = d.join(format!("grand.{}.{}", ord, k));
                while !g.exists() { std::thread::sleep(Duration::from_millis(1)); }
                k += 1;
            }
            6 => unsafe { signal(15, 1); },
            _ => {}
        }
    }
    std::thread::sleep(Duration::from_secs(60));
    std::process::exit(0)
}
