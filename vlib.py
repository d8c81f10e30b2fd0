"""Driver: rebuild bitcode from /repo, explore symbolically, replay natively, write evidence."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
H = os.path.join(V, "harness")
ENGINE = os.path.join(B, "engine/release/symx-engine")
SKIP = re.compile(r"/(syn|serde_derive|quote|proc_macro|clap_derive|async_trait|heck|futures_macro|tokio_macros|thiserror_impl|derivative|enum_display_derive|unicode_ident|rustversion)")
BC_FLAGS = "--cfg cambrian_verif --emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp"
NATIVE_FLAGS = "--cfg cambrian_verif"


class CheckError(Exception):
    pass


def env(flags):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def forget(tgt, prof):
    """Drop cached builds of /repo's crate and the harness, so that they are rebuilt from source."""
    d = os.path.join(tgt, prof)
    for pat in (".fingerprint/cambrian-*", ".fingerprint/harness-*", "deps/cambrian-*", "deps/harness-*", "deps/libcambrian-*", "deps/libharness-*", "incremental"):
        for p in glob.glob(os.path.join(d, pat)):
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)


def cargo(args, flags, what):
    for n in (1, 2):
        r = subprocess.run(["cargo"] + args, cwd=H, env=env(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return r.stdout
    raise CheckError("%s failed:\n%s" % (what, r.stdout[-4000:]))


def build_bitcode():
    tgt = os.path.join(B, "tgt")
    forget(tgt, "bc")
    cargo(["build", "--profile", "bc", "--lib", "--offline", "--target-dir", tgt], BC_FLAGS, "bitcode build")
    bcs = [p for p in glob.glob(os.path.join(tgt, "bc/deps/*.bc")) if not SKIP.search(p)]
    std = [os.path.join(B, "std", c + ".bc") for c in ("std", "core", "alloc", "hashbrown")]
    # one file per crate (the newest)
    return sorted(bcs) + std


def build_native(profile):
    tgt = os.path.join(B, "native")
    d = {"release": "release", "dev": "debug"}[profile]
    forget(tgt, d)
    cargo(["build", "--profile", profile, "--features", "native", "--bin", "replay", "--offline", "--target-dir", tgt], NATIVE_FLAGS, "native build")
    return os.path.join(tgt, d, "replay")


_native = {}


def native(profile):
    if profile not in _native:
        _native[profile] = build_native(profile)
    return _native[profile]


# processes and signals of the code under test stay inside a namespace of their own
CONTAIN = ["unshare", "-Urpf", "--kill-child", "sh", "-c", '"$0" "$@"; exit $?']
_contain = None


def contain():
    global _contain
    if _contain is None:
        try:
            ok = subprocess.run(CONTAIN + ["sh", "-c", "exit 5"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 5
        except (OSError, subprocess.TimeoutExpired):
            ok = False
        _contain = CONTAIN if ok else []
    return _contain


def run_native_os(exe, entry, values, scale=1, timeout=60):
    """Like run_native, for entries that start processes; `scale` stretches all their times."""
    d = tempfile.mkdtemp(prefix="symx-", dir=B)
    e = dict(os.environ, SYMX_VALUES=values, RUST_BACKTRACE="0", TMPDIR=d, SYMX_SLOW_CLOCK=str(scale))
    p = subprocess.Popen(contain() + [exe, entry], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=B, start_new_session=True)
    try:
        t = p.communicate(timeout=timeout)[0].decode("utf8", "replace")
        k = {0: "done", 7: "violated", 8: "panic", 9: "assume"}.get(p.returncode, "abort" if p.returncode < 0 or p.returncode in (134, 139) else "other")
    except subprocess.TimeoutExpired:
        p.kill()
        t = p.communicate()[0].decode("utf8", "replace")
        k = "timeout"
    shutil.rmtree(d, ignore_errors=True)
    return k, t


def run_native(exe, entry, values, flags=None, timeout=120):
    """-> (kind, text): kind is done/violated/panic/assume/other/timeout"""
    e = dict(os.environ)
    e["SYMX_VALUES"] = values
    e["RUST_BACKTRACE"] = "0"
    if flags:
        e["SYMX_FLAGS"] = ",".join("%s=%s" % f for f in flags)
    try:
        r = subprocess.run([exe, entry], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=B)
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf8", "replace")
    t = r.stdout.decode("utf8", "replace")
    k = {0: "done", 7: "violated", 8: "panic", 9: "assume"}.get(r.returncode, "abort" if r.returncode < 0 else "other")
    return k, t


def write_values(path, values):
    with open(path, "w") as f:
        for n, _w, x in values:
            f.write("%s %s\n" % (n, x))


def explore(bcs, entries, opts, secs, out):
    cmd = [ENGINE] + bcs
    for e in entries:
        cmd += ["--entry", e]
    cmd += ["--out", out, "--jobs", "8", "--time", str(secs)] + opts
    for f in glob.glob(glob.escape(out) + "*"):
        os.unlink(f)  # parts left by a run that was stopped would count as this run's
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=B)
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError("symbolic executor failed (%d):\n%s" % (r.returncode, r.stdout[-4000:]))
    return json.load(open(out))


def reproduces(kind, text, label):
    if label.startswith(("panic:", "abort:")):
        return kind in ("panic", "abort")
    if label.startswith(("hang", "deadlock")):
        return kind == "timeout"
    return (kind == "violated" and ("SYMX-VIOLATED " + label) in text) or kind in ("panic", "abort")


def runs_of(exe, res, vf, viol, repeat):
    hang = viol["label"].startswith(("hang", "deadlock"))
    if not res["group"].get("os"):
        for _ in range(repeat):
            yield run_native(exe, res["entry"], vf, timeout=20 if hang else 120)
        return
    # timing is not controlled natively: several attempts, also with all times stretched
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for scale in (1, 1, 3, 1, 3):
            fs = [ex.submit(run_native_os, exe, res["entry"], vf, scale, 25 if hang else 60) for _ in range(3)]
            for f in fs:
                yield f.result()


def confirm(pid, res, viol, repeat=1):
    """Replay a counterexample against the real build; -> replay file or None."""
    d = os.path.join(B, "cex", pid)
    os.makedirs(d, exist_ok=True)
    slug = re.sub(r"[^A-Za-z0-9_.-]+", "_", viol["label"])[:80]
    vf = os.path.join(d, "%s-%s.values" % (res["entry"], slug))
    write_values(vf, viol["values"])
    log = []
    for profile in ("release", "dev"):
        exe = native(profile)
        if any(n == "sel" for n, _w, _x in viol["values"]):
            repeat = max(repeat, 300)  # the branch order of an unbiased select! cannot be replayed
        for kind, text in runs_of(exe, res, vf, viol, repeat):
            log.append("%s: %s\n%s" % (profile, kind, text[-1500:]))
            if reproduces(kind, text, viol["label"]):
                rp = os.path.join(d, "%s-%s.txt" % (res["entry"], slug))
                with open(rp, "w") as f:
                    f.write("property %s\nentry %s\nlabel %s\ndetail %s\nprofile %s\nreplay: SYMX_VALUES=%s %s %s\n\n%s\n" % (pid, res["entry"], viol["label"], viol["detail"], profile, vf, exe, res["entry"], text))
                return rp, log
    return None, log


def validate_samples(res, exe, limit=3):
    """Replay sample paths natively and compare outcome and observations."""
    n, bad = 0, []
    d = os.path.join(B, "cex")
    os.makedirs(d, exist_ok=True)
    for i, s in enumerate(res["samples"][:limit]):
        if any(n == "sel" for n, _w, _x in s["values"]):
            continue
        vf = os.path.join(d, "sample-%s-%d.values" % (res["entry"], i))
        write_values(vf, s["values"])
        if res["group"].get("os"):
            # not an error when it fails: native timing is not controlled
            for scale in (1, 3):
                kind, _ = run_native_os(exe, res["entry"], vf, scale)
                if kind == "done":
                    n += 1
                    break
            continue
        kind, text = run_native(exe, res["entry"], vf)
        obs = [l[4:] for l in text.splitlines() if l.startswith("OBS ")]
        want = [o.replace("=", " ") for o in s["obs"].split(",") if o]
        if kind != "done" or obs != want:
            bad.append("%s sample %d: native run ended %s; observations %s, expected %s\n%s" % (res["entry"], i, kind, obs[:20], want[:20], text[-800:]))
        else:
            n += 1
            os.unlink(vf)
    return n, bad


def known_findings():
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) label=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r
