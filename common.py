"""Builds, process running and reporting shared by the checks."""
import fcntl, hashlib, json, os, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
HARNESS = os.path.join(VERIF, "harness")
LITLIB = os.path.join(VERIF, "litlib")
HOST = "x86_64-unknown-linux-gnu"
JOBS = os.cpu_count() or 8


class Broken(Exception):
    """The check itself could not give an answer."""


class Uncompilable(Broken):
    """The library itself does not compile in this configuration: nothing runs there, so nothing can be judged."""


def say(*a):
    print(*a, flush=True)


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_TARGET", "RUSTC", "RUSTFLAGS", "MIRI"))}
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN="1.90.0", RUSTUP_AUTO_INSTALL="0",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", NO_COLOR="1", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    if extra:
        e.update(extra)
    return e


def tree_hash():
    """Identity of the library's sources, independent of modification times."""
    h = hashlib.sha256()
    todo = [os.path.join(REPO, "Cargo.toml")]
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        todo += [os.path.join(d, f) for f in sorted(files)]
    for f in todo:
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()


ALL = "i16,i32,i64,i128"
FEW = "--cfg fewprec"
# name -> (crate, toolchain, profile, features, rustflags, extra cargo arguments)
CONFIGS = {
    "core-chk": ("harness", "1.90.0", "chk", f"std,{ALL},wrap", "", []),
    "core-rel": ("harness", "1.90.0", "rel", f"std,{ALL},wrap", "", []),
    "few-chk": ("harness", "1.90.0", "chk", f"std,{ALL},wrap", FEW, []),
    "nostd-chk": ("harness", "1.90.0", "chk", f"{ALL}", FEW, []),
    "nostd-rel": ("harness", "1.90.0", "rel", f"{ALL}", FEW, []),
    "nostdall-chk": ("harness", "1.90.0", "chk", f"{ALL}", "", []),
    "nostdall-rel": ("harness", "1.90.0", "rel", f"{ALL}", "", []),
    "codec-chk": ("harness", "1.90.0", "chk", f"std,{ALL},schema", FEW, []),
    "codec-rel": ("harness", "1.90.0", "rel", f"std,{ALL},schema", FEW, []),
    "codecall-rel": ("harness", "1.90.0", "rel", f"std,{ALL},schema", "", []),
    "nostdcodec-rel": ("harness", "1.90.0", "rel", f"{ALL},codec", FEW, []),
    "i16-rel": ("harness", "1.90.0", "rel", "std,i16", "", []),
    "i16-chk": ("harness", "1.90.0", "chk", "std,i16", "", []),
    "i32-chk": ("harness", "1.90.0", "chk", "i32", "", []),
    "i32-rel": ("harness", "1.90.0", "rel", "i32", "", []),
    "i64-rel": ("harness", "1.90.0", "rel", "std,i64", "", []),
    "i128-rel": ("harness", "1.90.0", "rel", "i128", "", []),
    "i64-chk": ("harness", "1.90.0", "chk", "i64", "", []),
    # Other sets of layouts and integrations.
    "mix-a": ("harness", "1.90.0", "rel", "std,i16,i64,fixnum/serde", "", []),
    "mix-b": ("harness", "1.90.0", "rel", "i32,i128,fixnum/parity", FEW, []),
    "mix-c": ("harness", "1.90.0", "rel", "std,i16,i32,fixnum/parity", "", []),
    "mix-d": ("harness", "1.90.0", "rel", "std,i16,i128,fixnum/serde,fixnum/quick-xml", FEW, []),
    "mix-e": ("harness", "1.90.0", "chk", "std,i32,i64,fixnum/schemars", "", []),
    "mix-f": ("harness", "1.90.0", "chk", "i64,i128", FEW, []),
    "mix-g": ("harness", "1.90.0", "rel", "i16,i32,i64", "", []),
    "mix-h": ("harness", "1.90.0", "rel", "std,i32,i64,i128,fixnum/serde", FEW, []),
    "dbg": ("harness", "1.90.0", "dbg", f"std,{ALL},wrap", FEW, []),
    "max": ("harness", "1.90.0", "max", f"std,{ALL},wrap", FEW, []),
    "stable-rel": ("harness", "stable", "rel", f"std,{ALL},wrap", FEW, []),
    "asan": ("harness", "nightly", "san", f"std,{ALL},schema,wrap", FEW + " -Zsanitizer=address -Zub-checks=yes", ["--target", HOST]),
    "asan-i16": ("harness", "nightly", "san", "std,i16", "-Zsanitizer=address -Zub-checks=yes", ["--target", HOST]),
    "asan-i32": ("harness", "nightly", "san", "std,i32,i16", "-Zsanitizer=address -Zub-checks=yes", ["--target", HOST]),
    "asan-i64": ("harness", "nightly", "san", "std,i64", "-Zsanitizer=address -Zub-checks=yes", ["--target", HOST]),
    "asan-i128": ("harness", "nightly", "san", "std,i128", "-Zsanitizer=address -Zub-checks=yes", ["--target", HOST]),
    "msan": ("harness", "nightly", "san", f"std,{ALL},wrap", FEW + " -Zsanitizer=memory -Zsanitizer-memory-track-origins",
             ["--target", HOST, "-Zbuild-std"]),
    "msan-codec": ("harness", "nightly", "san", f"std,{ALL},schema", FEW + " -Zsanitizer=memory -Zsanitizer-memory-track-origins",
                   ["--target", HOST, "-Zbuild-std"]),
    "tsan": ("harness", "nightly", "san", f"std,{ALL}", FEW + " -Zsanitizer=thread", ["--target", HOST, "-Zbuild-std"]),
    "miri": ("harness", "nightly", "miri", f"std,{ALL},schema,wrap", FEW, []),
    "miri-be": ("harness", "nightly", "miri", f"std,{ALL},schema,wrap", FEW, ["--target", "s390x-unknown-linux-gnu"]),
    "miri-32": ("harness", "nightly", "miri", f"{ALL},codec,wrap", FEW, ["--target", "i686-unknown-linux-gnu"]),
    "miri-core": ("harness", "nightly", "miri", f"{ALL}", FEW, []),
    "miri-i16": ("harness", "nightly", "miri", "std,i16", FEW, []),
    "miri-i64": ("harness", "nightly", "miri", "std,i64", FEW, []),
    "lit64-chk": ("litlib", "1.90.0", "chk", "i16,i32,i64", "", []),
    "lit64-rel": ("litlib", "1.90.0", "rel", "i16,i32,i64", "", []),
    "lit128-chk": ("litlib", "1.90.0", "chk", ALL, "", []),
    "lit128-rel": ("litlib", "1.90.0", "rel", ALL, "", []),
}
_built = {}
_lock = threading.Lock()


def binary(cfg):
    crate, tc, prof, _, _, extra = CONFIGS[cfg]
    d = os.path.join(TARGET, cfg)
    if "--target" in extra:
        d = os.path.join(d, HOST)
    return os.path.join(d, prof, "fxmon")


def cargo_env(cfg):
    crate, tc, prof, feats, flags, extra = CONFIGS[cfg]
    x = {"RUSTUP_TOOLCHAIN": tc}
    if flags:
        x["RUSTFLAGS"] = flags
    return env(x)


def build(cfg):
    """Builds one configuration from the library's current working tree."""
    crate, tc, prof, feats, flags, extra = CONFIGS[cfg]
    src = HARNESS if crate == "harness" else LITLIB
    d = os.path.join(TARGET, cfg)
    os.makedirs(d, exist_ok=True)
    start = time.time()
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, now = os.path.join(d, ".stamp"), tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != now and old is not None:
            # Do not trust modification times: throw the library's artifacts away.
            subprocess.run(["cargo", "clean", "--offline", "-p", "fixnum", "--target-dir", d] +
                           (["--profile", prof] if prof != "miri" else []) + [a for a in extra if not a.startswith("-Z")],
                           cwd=src, env=cargo_env(cfg), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if prof == "miri":
                subprocess.run(["rm", "-rf", os.path.join(d, "miri")])
        if old != now and os.path.exists(stamp):
            os.remove(stamp)
        if prof == "miri":
            cmd = ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--no-default-features", "--features", feats, "--target-dir", d] + extra + ["--", "types"]
        else:
            cmd = ["cargo", "build", "--offline", "--locked", "--profile", prof, "--no-default-features", "--features", feats, "--target-dir", d] + extra
            if crate == "litlib":
                cmd.append("--message-format=json")
        p = subprocess.run(cmd, cwd=src, env=cargo_env(cfg), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode:
            broken = Uncompilable if "could not compile `fixnum` (lib)" in p.stderr else Broken
            raise broken(f"build {cfg} failed:\n{p.stderr[-4000:]}")
        if crate == "litlib":
            for line in p.stdout.splitlines():
                m = json.loads(line) if line.startswith("{") else {}
                if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "fixnum":
                    _built[cfg + ":rlib"] = [f for f in m["filenames"] if f.endswith(".rlib")][0]
            if cfg + ":rlib" not in _built:
                raise Broken(f"build {cfg}: no library artifact")
        open(stamp, "w").write(now)
    _built[cfg] = round(time.time() - start, 1)


def build_all(cfgs, optional=()):
    """Builds what is not built yet. Returns the optional configurations in which the library itself does not compile."""
    cfgs = [c for c in dict.fromkeys(cfgs) if c not in _built]
    errors, without = [], []

    def one(c):
        try:
            build(c)
        except Uncompilable as e:
            if c in optional:
                without.append(c)
            else:
                errors.append(e)
        except Broken as e:
            errors.append(e)
        except Exception as e:  # noqa
            errors.append(Broken(f"build {c}: {e!r}"))
    ts = [threading.Thread(target=one, args=(c,)) for c in cfgs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    return without


def build_times():
    return {k: v for k, v in _built.items() if ":" not in k}


class Done:
    def __init__(self, code, out, err, timed_out):
        self.code, self.out, self.err, self.timed_out = code, out, err, timed_out


def launch(cmd, extra_env=None, timeout=600, cwd=None, base_env=None):
    e = base_env or env()
    e = dict(e, **(extra_env or {}))
    p = subprocess.Popen(cmd, cwd=cwd or VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return Done(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return Done(None, out, err, True)


def parallel(jobs, width=JOBS):
    """Runs thunks in threads, returns results in order; the first exception is raised."""
    res, errs, it = [None] * len(jobs), [], iter(range(len(jobs)))

    def work():
        while True:
            with _lock:
                i = next(it, None)
            if i is None or errs:
                return
            try:
                res[i] = jobs[i]()
            except Exception as e:  # noqa
                errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(min(width, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res
