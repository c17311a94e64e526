"""C19: programs full of literals, compiled and run; every constant (or compile error) is judged."""
import json, os, random, re, shutil, subprocess, tempfile, time
from common import *
from common import _built

BITS = {"i16": 16, "i32": 32, "i64": 64, "i128": 128}
MAXP = {"i16": 4, "i32": 9, "i64": 18, "i128": 38}


def bounds(lay):
    b = BITS[lay]
    return -(1 << (b - 1)), (1 << (b - 1)) - 1


PLAIN = re.compile(r"-?[0-9]+(\.[0-9]*)?\Z")


def value(lit, prec):
    """Raw value of a plain decimal, None if it is not one or has too many fractional digits."""
    if not PLAIN.match(lit):
        return None
    neg, t = lit.startswith("-"), lit.lstrip("-")
    i, _, f = t.partition(".")
    if len(f) > prec:
        return None
    raw = int(i + f + "0" * (prec - len(f)))
    return -raw if neg else raw


def dec(raw, prec):
    s = str(abs(raw)).rjust(prec + 1, "0")
    return ("-" if raw < 0 else "") + s[:len(s) - prec] + ("." + s[len(s) - prec:] if prec else "")


def spelled(rnd, raw, prec):
    """One of the ways to write a value."""
    t = dec(raw, prec)
    k = rnd.random()
    if "." in t and k < 0.6:
        t = t.rstrip("0")
        if t.endswith("."):
            t = t[:-1] if rnd.random() < 0.5 else t + ("" if rnd.random() < 0.5 or not prec else "0")
    neg, u = t.startswith("-"), t.lstrip("-")
    if rnd.random() < 0.15:
        u = "0" * rnd.randint(1, 4) + u
    if neg:
        u = "-" + u
    return u


def some_raw(rnd, lay, prec):
    lo, hi = bounds(lay)
    c = 10 ** prec
    k = rnd.random()
    if k < 0.12:
        return lo + rnd.choice([0, 0, 1, 2, 9, 10])
    if k < 0.24:
        return hi - rnd.choice([0, 0, 1, 2, 9, 10])
    if k < 0.34:
        r = rnd.choice([0, 1, -1, c, -c, c - 1, c + 1, -c - 1, 1 - c])
    elif k < 0.5:
        r = rnd.choice([1, -1]) * 10 ** rnd.randint(0, len(str(hi)) - 1) + rnd.choice([-1, 0, 1])
    elif k < 0.6:
        r = rnd.choice([1, -1]) * (1 << rnd.randint(0, BITS[lay] - 1)) + rnd.choice([-1, 0, 1])
    elif k < 0.75:
        r = rnd.choice([1, -1]) * rnd.randint(0, 999999)
    else:
        r = rnd.choice([1, -1]) * rnd.randint(0, 1 << rnd.randint(1, BITS[lay] - 1))
    return r if lo <= r <= hi else rnd.randint(lo, hi)


def valid_cases(rnd, layouts, n):
    out = []
    types = [(l, p) for l in layouts for p in range(MAXP[l] + 1)]
    for l, p in types:  # the bounds of every type, and zero
        lo, hi = bounds(l)
        out += [(l, p, dec(lo, p)), (l, p, dec(hi, p)), (l, p, "0"), (l, p, "-0.")]
    while len(out) < n:
        l, p = rnd.choice(types)
        out.append((l, p, spelled(rnd, some_raw(rnd, l, p), p)))
    return out


def beyond(rnd, lay, prec):
    """A decimal of at most `prec` fractional digits outside the range."""
    lo, hi = bounds(lay)
    k = rnd.random()
    if k < 0.3:
        r = hi + rnd.choice([1, 1, 2, 10])
    elif k < 0.6:
        r = lo - rnd.choice([1, 1, 2, 10])
    elif k < 0.75:
        r = rnd.choice([1, -1]) * ((1 << rnd.choice([16, 32, 63, 64, 65, 127, 128, 129])) * rnd.randint(1, 9) + rnd.randint(0, 30000))
    elif k < 0.85:  # a multiple of the modulus plus something small: wraps into range if truncated
        r = (1 << BITS[lay]) * rnd.choice([1, -1, 2, 3, 10, 100]) + rnd.randint(-300, 300)
    else:
        r = rnd.choice([1, -1]) * (hi * rnd.randint(2, 10 ** rnd.randint(1, 20)) + rnd.randint(0, hi))
    if lo <= r <= hi:
        r = hi + 1
    return spelled(rnd, r, prec)


ODD = ["1_000", "1_0.5", "1.5_0", "0x10", "0b11", "0o17", "1e5", "1.5e3", "1e-3", "1E5", "2.0e+1", "1i64", "1.5f64", "7u8", "1f32", "'5'", "b'5'", "\"1.5\"",
       "\"12\"", "r\"1\"", "b\"1\"", "true", "false", "0xff", "-1e2", "-0x1", "-1_0", "12.5e0", "10i128", "\"\"", "'.'", "0.5f32", "-1.5f64", "1._5", "\"-1\"", "\"+1\"", "1e0"]


def too_long(rnd, lay, prec):
    """More fractional digits than the precision, with an integral part that fits."""
    n = prec + rnd.choice([1, 1, 1, 2, 3, 10])
    top = bounds(lay)[1] // 10 ** prec
    i = rnd.randint(0, min(top, 10 ** rnd.randint(0, 6)))
    k = rnd.random()
    f = "0" * n if k < 0.2 else "0" * (n - 1) + str(rnd.randint(1, 9)) if k < 0.5 else "".join(rnd.choice("0123456789") for _ in range(n))
    return ("-" if rnd.random() < 0.4 else "") + f"{i}.{f}"


def invalid_cases(rnd, layouts, n_range, n_long, n_odd):
    types = [(l, p) for l in layouts for p in range(MAXP[l] + 1)]
    out = []
    for l, p in types:
        lo, hi = bounds(l)
        out += [(l, p, dec(hi + 1, p), "range"), (l, p, dec(lo - 1, p), "range")]
    for _ in range(n_range):
        l, p = rnd.choice(types)
        out.append((l, p, beyond(rnd, l, p), "range"))
    for _ in range(n_long):
        l, p = rnd.choice(types)
        out.append((l, p, too_long(rnd, l, p), "too_long"))
    odd = ODD[:]
    rnd.shuffle(odd)
    for i in range(n_odd):
        l, p = rnd.choice([t for t in types if t[1] >= 1])
        out.append((l, p, odd[i % len(odd)], "odd"))
    return [c for c in out if c[3] == "odd" or value(c[2], c[1]) is None or not bounds(c[0])[0] <= value(c[2], c[1]) <= bounds(c[0])[1]]


HEAD = """#![allow(dead_code, unused_imports, overflowing_literals)]
use fixnum::{fixnum, fixnum_const, typenum::*, FixedPoint};
struct W<T>(T);
impl<T> From<T> for W<T> { fn from(x: T) -> Self { W(x) } }
"""


def ty(l, p):
    return f"FixedPoint<{l}, U{p}>"


def rustc(cfg, src, out, crate_type="bin"):
    prof = CONFIGS[cfg][2]
    flags = ["-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on"] if prof == "chk" else ["-Copt-level=2", "-Cdebug-assertions=off"]
    rlib = _built[cfg + ":rlib"]
    cmd = ["rustc", "--edition=2021", f"--crate-type={crate_type}", "--error-format=json", "--crate-name=lits",
           "--extern", f"fixnum={rlib}", "-L", f"dependency={os.path.dirname(rlib)}", "-o", out, src] + flags
    if crate_type == "lib":
        cmd += ["--emit=metadata"]
    return launch(cmd, timeout=200)


def error_lines(stderr, src):
    """Lines of the program the errors belong to, through macro expansions."""
    lines, general = {}, []

    def root(span):
        while span is not None:
            if os.path.basename(span["file_name"]) == os.path.basename(src):
                yield span["line_start"]
            e = span.get("expansion")
            span = e["span"] if e else None
    for l in stderr.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error":
            continue
        got = set()
        for s in m["spans"]:
            got.update(root(s))
        for ch in m.get("children", []):
            for s in ch["spans"]:
                got.update(root(s))
        for g in got:
            lines.setdefault(g, m["message"])
        if not got and not m["message"].startswith("aborting due to"):
            general.append(m["message"])
    return lines, general


def compile_program(cfg, text, tmp, name, crate_type="bin"):
    src = os.path.join(tmp, name + ".rs")
    open(src, "w").write(text)
    out = os.path.join(tmp, name + (".rmeta" if crate_type == "lib" else ""))
    d = rustc(cfg, src, out, crate_type)
    if d.timed_out:
        raise Broken(f"compiling {name} for {cfg} did not end")
    lines, general = error_lines(d.err, src)
    if d.code not in (0, 1) or (d.code == 1 and not lines):
        raise Broken(f"compiling {name} for {cfg}: exit {d.code}: {general[:3]} {d.err[-1500:]}")
    return d.code, lines, out


def valid_program(cases):
    t = HEAD + "fn main() {\n"
    at = {}
    body = []
    for i, (l, p, lit) in enumerate(cases):
        body.append((i, f"{{ const X: {ty(l, p)} = fixnum_const!({lit}, {p}); println!(\"{i} {{}}\", X.into_bits() as i128); }}"))
    for i, (l, p, lit) in enumerate(cases):
        body.append((i, f"{{ let x: {ty(l, p)} = fixnum!({lit}, {p}); println!(\"{i} {{}}\", x.into_bits() as i128); }}"))
        if i % 4 == 0:
            body.append((i, f"{{ let x: W<{ty(l, p)}> = fixnum!({lit}, {p}); println!(\"{i} {{}}\", x.0.into_bits() as i128); }}"))
    n = t.count("\n")
    for i, b in body:
        n += 1
        at[n] = i
        t += b + "\n"
    return t + "}\n", at


def invalid_program(cases):
    t, at = HEAD, {}
    n = t.count("\n")
    for i, (l, p, lit, why) in enumerate(cases):
        n += 1
        at[n] = i
        t += f"pub const X{i}: {ty(l, p)} = fixnum_const!({lit}, {p});\n"
    return t, at


def sieve(cfg, program, n, tmp, name, crate_type, cov):
    """Compiles a program of n literals, taking out those with errors, until the rest compiles: {index: message}, the result."""
    errors, todo = {}, list(range(n))
    while todo:
        text, at = program(todo)
        code, lines, out = compile_program(cfg, text, tmp, f"{name}{len(errors)}", crate_type)
        cov["programs"] += 1
        if not code:
            return errors, out
        hit = {at[l]: m for l, m in lines.items() if l in at}
        if not hit:
            raise Broken(f"{name}: errors outside the literals: {lines}")
        for k, m in hit.items():
            errors[todo[k]] = m
        todo = [i for i in todo if i not in errors]
    return errors, None


def outputs(exe):
    d = launch([exe], timeout=60)
    if d.code:
        raise Broken(f"{exe} died: {d.code} {d.err[-300:]}")
    return [(int(l.split()[0]), l.split()[1]) for l in d.out.splitlines()]


def stop_program(cases):
    """`fixnum!` may stop at the literal when it runs; it must not go on with another number."""
    t, at = HEAD + "fn main() {\nstd::panic::set_hook(Box::new(|_| {}));\n", {}
    for i, (l, p, lit) in enumerate(cases):
        at[t.count("\n") + 1] = i
        t += f"match std::panic::catch_unwind(|| {{ let x: {ty(l, p)} = fixnum!({lit}, {p}); x.into_bits() as i128 }}) {{ Ok(x) => println!(\"{i} {{x}}\"), Err(_) => println!(\"{i} stop\") }}\n"
    return t + "}\n", at


def run(seed, thorough, cfgs):
    """Returns (violations, coverage)."""
    build_all(cfgs)
    bad, cov = [], {"literals": 0, "values_compared": 0, "compile_errors_observed": 0, "runtime_stops_observed": 0, "programs": 0}
    distinct, samples = set(), []
    tmp = tempfile.mkdtemp(prefix="fxlits-")
    try:
        jobs = []
        rounds = 6 if thorough else 1
        for ci, cfg in enumerate(cfgs):
            layouts = CONFIGS[cfg][3].split(",")
            for rd in range(rounds):
                rnd = random.Random(f"{seed}/{layouts}/{rd}")
                jobs.append(lambda cfg=cfg, rnd=rnd, layouts=layouts, rd=rd: one(cfg, rnd, layouts, tmp, f"{cfg.replace('-', '_')}_{rd}", thorough))
        for b, c, d, s in parallel(jobs, 8):
            bad += b
            for k, v in c.items():
                cov[k] += v
            distinct |= d
            samples += s
    finally:
        shutil.rmtree(tmp)
    cov["distinct"] = len(distinct)
    cov["samples"] = samples[:12]
    return bad, cov


def one(cfg, rnd, layouts, tmp, name, thorough):
    bad, distinct, samples = [], set(), []
    cov = dict(literals=0, values_compared=0, compile_errors_observed=0, runtime_stops_observed=0, programs=0)

    def report(l, p, lit, why, got):
        bad.append({"cfg": cfg, "layout": l, "precision": p, "literal": lit, "why": why, "observed": got})
    # 1. Valid literals: compile and equal the exact value.
    cases = valid_cases(rnd, layouts, 1100 if thorough else 550)
    text, at = valid_program(cases)
    code, lines, exe = compile_program(cfg, text, tmp, name + "_valid")
    cov["programs"] += 1
    cov["literals"] += len(cases)
    distinct |= {(l, p, x) for l, p, x in cases}
    if code:
        for n, msg in sorted(lines.items()):
            if n in at:
                l, p, x = cases[at[n]]
                report(l, p, x, f"a valid literal of {value(x, p)} steps did not compile", msg)
        if not bad:
            raise Broken(f"{name}: errors outside the literals: {lines}")
    else:
        d = launch([exe], timeout=60)
        seen = {}
        for line in d.out.splitlines():
            i, v = line.split()
            seen.setdefault(int(i), []).append(int(v))
        for i, (l, p, x) in enumerate(cases):
            if i not in seen:
                if d.code:
                    report(l, p, x, "the program stopped at a valid literal", d.err[-200:])
                    break
                raise Broken(f"{name}: no output for literal {i}")
            for v in seen[i]:
                cov["values_compared"] += 1
                if v != value(x, p):
                    report(l, p, x, f"the literal spells {value(x, p)} steps", v)
        for i in rnd.sample(range(len(cases)), 2):
            l, p, x = cases[i]
            samples.append(f"{cfg}: fixnum_const!({x}, {p}): {ty(l, p)} => {seen.get(i)}")
    # 2. Invalid ones: each must be a compile error. Errors of early phases hide later ones, so those lines are taken out and the rest is tried again.
    cases = invalid_cases(rnd, layouts, *((500, 200, len(ODD)) if thorough else (220, 50, len(ODD))))
    distinct |= {(l, p, x) for l, p, x, _ in cases}
    cov["literals"] += len(cases)
    errors, exe = sieve(cfg, lambda todo: invalid_program([cases[i] for i in todo]), len(cases), tmp, name + "_invalid", "lib", cov)
    missing = [i for i in range(len(cases)) if i not in errors]
    cov["compile_errors_observed"] += len(errors)
    if missing:
        # Those that compiled must at least stop when used: confirm each in a program that runs.
        more, exe = sieve(cfg, lambda todo: stop_program([cases[missing[i]][:3] for i in todo]), len(missing), tmp, name + "_missing", "bin", cov)
        cov["compile_errors_observed"] += len(more)
        left = [missing[i] for i in range(len(missing)) if i not in more]
        for k, v in outputs(exe) if left else ():
            l, p, x, why = cases[left[k]]
            if v != "stop":
                report(l, p, x, {"range": "the literal is outside the range of the type", "too_long": "the literal has more fractional digits than the precision",
                                 "odd": "the literal is not a plain decimal number"}[why] + ", but it compiles", v)
    for i in rnd.sample(range(len(cases)), 2):
        l, p, x, why = cases[i]
        samples.append(f"{cfg}: fixnum_const!({x}, {p}): {ty(l, p)} ({why}) => compile error: {errors.get(i)}")
    # 3. Out-of-range literals in running code.
    small = [l for l in layouts if l != layouts[-1]]
    top = bounds(layouts[-1])[1]
    cases = []
    while len(cases) < (300 if thorough else 120):
        l = rnd.choice(small)
        p = rnd.randint(0, MAXP[l])
        x = beyond(rnd, l, p)
        # `fixnum!` parses in the widest enabled layout, so only what fits that one can get as far as running.
        if value(x, p) is not None and abs(value(x, p)) <= top and len(x) < (38 if layouts[-1] == "i128" else 19):
            cases.append((l, p, x))
    cov["literals"] += len(cases)
    distinct |= set(cases)
    errors, exe = sieve(cfg, lambda todo: stop_program([cases[i] for i in todo]), len(cases), tmp, name + "_stop", "bin", cov)
    cov["compile_errors_observed"] += len(errors)
    left = [i for i in range(len(cases)) if i not in errors]
    for k, v in outputs(exe) if left else ():
        if v == "stop":
            cov["runtime_stops_observed"] += 1
        else:
            report(*cases[left[k]], "the literal is outside the range of the type, but the program goes on with another number", v)
    return bad, cov, distinct, samples


def replay(v):
    """Re-executes one literal: True if it is still violated."""
    build_all([v["cfg"]])
    l, p, x = v["layout"], v["precision"], v["literal"]
    lo, hi = bounds(l)
    want = value(x, p)
    if want is not None and not lo <= want <= hi:
        want = None
    tmp = tempfile.mkdtemp(prefix="fxlits-")
    try:
        text, _ = stop_program([(l, p, x)])
        code, lines, exe = compile_program(v["cfg"], text, tmp, "replay")
        const, _ = invalid_program([(l, p, x, "")])
        ccode, clines, _ = compile_program(v["cfg"], const, tmp, "replayc", "lib")
        say(f"as a constant: {'does not compile: ' + str(list(clines.values())[:1]) if ccode else 'compiles'}")
        got = "compile error" if code else launch([exe], timeout=60).out.split()[1]
        say(f"fixnum!({x}, {p}) as {ty(l, p)}: {got}; expected {'an error' if want is None else want}")
        if want is None:
            return (not ccode and got not in ("stop", "compile error")) or got not in ("stop", "compile error")
        return bool(ccode) or got != str(want)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    t = time.time()
    b, c = run(int(os.environ.get("VERIF_SEED", "1")), False, ["lit64-chk", "lit64-rel", "lit128-chk", "lit128-rel"])
    print(json.dumps(b[:10], indent=1), json.dumps(c, indent=1), len(b), time.time() - t, build_times())
