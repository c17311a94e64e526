#!/usr/bin/env python3
"""Runs the monitors that decide one property.

  check.py C01 [--tier quick|thorough] [--seed N]   decide the property on /repo's working tree
  check.py --replay FILE                            re-execute a reported violation
  check.py --setup                                  build what the quick checks use

Exit 0: held on everything observed. Exit 1 and a line `VIOLATION property=<id> replay=<path>`: broken.
Exit 2: no answer (the check itself failed).
"""
import argparse, hashlib, json, os, re, shutil, sys, tempfile, time, traceback
import lits
from common import *

# Operations per property and build: cases per type and operation, quick and thorough.
CORE = ["core-chk", "core-rel"]
CODEC = ["codec-chk", "codec-rel"]
RUN = {
    # property: (builds, extra builds of the thorough tier, quick cases, thorough cases)
    "C01": (CORE, [], 200000, 4000000),
    "C02": (CORE, [], 100000, 2000000),
    "C03": (CORE, [], 200000, 3000000),
    "C04": (CORE, [], 80000, 1500000),
    "C05": (CORE + ["nostd-chk", "nostd-rel"], ["nostdall-chk", "nostdall-rel"], 400000, 3000000),
    "C06": (CORE, [], 100000, 2000000),
    "C07": (CORE, [], 250000, 5000000),
    "C08": (CORE, [], 250000, 4000000),
    "C09": (CORE, [], 200000, 3000000),
    "C10": (CORE + ["i16-chk", "i32-chk", "i64-chk", "i128-rel"], ["i16-rel", "i32-rel", "i64-rel"], 150000, 800000),
    "C11": (CORE, ["nostdall-rel"], 100000, 1000000),
    "C12": (CORE, [], 150000, 1500000),
    "C13": (CORE, [], 250000, 4000000),
    "C14": (CORE, [], 1500000, 20000000),
    "C15": (CODEC, ["codecall-rel"], 60000, 200000),
    "C16": (CODEC, ["codecall-rel"], 200000, 2500000),
    "C17": (CODEC, ["codecall-rel"], 500000, 1500000),
    "C20": (CORE, [], 30000000, 400000000),
    "C22": (CORE, [], 60000, 800000),
}
TECH = {}
RULE = ("Each event is one call of the real library with generated operands (uniform, boundary, tie-, overflow-edge- and history-derived; whole 16-bit domains for one-operand "
        "operations), observed and judged online against exact integer arithmetic; distinct by hash filter of (type, operation, mode, operands), non-trivial when the "
        "first operand is not zero or a text or byte input is not empty.")


class Violation(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.violations = []
        self.known_lines = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": []}
        self.tmp = tempfile.mkdtemp(prefix="fxmon-")
        self.n = 0

    # --- known findings -------------------------------------------------
    def known(self):
        """Signatures of the listed findings of this property: `known: property=<id> case=<line> :: <what fails>`."""
        out = {}
        f = os.path.join(VERIF, "known_findings.txt")
        for l in open(f).read().splitlines() if os.path.exists(f) else []:
            m = re.match(r"known: property=(\S+) case=(.*?) :: (.*)", l)
            if m and m.group(1) == self.prop:
                out[m.group(2)] = m.group(3)
        return out

    # --- reporting ------------------------------------------------------
    def violation(self, what, replay):
        """Records a confirmed violation and writes what is needed to run it again."""
        os.makedirs(REPLAYS, exist_ok=True)
        replay = dict(replay, property=self.prop, what=what)
        text = json.dumps(replay, indent=1, default=str)
        path = os.path.join(REPLAYS, f"{self.prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json")
        open(path, "w").write(text + "\n")
        self.violations.append((what, path))

    def built(self, cfgs, optional):
        """Builds; the feature sets in which the library does not compile are left out, and the evidence says so."""
        without = build_all(cfgs, optional)
        if without:
            say(f"the library does not compile for {without}: not judged")
            self.cov["not_compiled"] = sorted(self.cov.get("not_compiled", []) + without)
        return [f for f in cfgs if f not in without]

    def tmpfile(self, suffix=""):
        with common_lock:
            self.n += 1
            return os.path.join(self.tmp, f"{self.n}{suffix}")

    # --- running the monitor --------------------------------------------
    def fx(self, cfg, args, timeout, extra_env=None):
        return launch([binary(cfg)] + args, extra_env, timeout)

    def replay_line(self, cfg, line, timeout=60, extra_env=None):
        """Executes one call alone: (violated, what was observed)."""
        d = self.fx(cfg, ["replay", line], timeout, extra_env)
        if d.timed_out:
            return True, f"the call does not return within {timeout} s"
        if d.code == 0:
            return False, d.out.strip()
        if d.code == 1:
            return True, d.out.strip()
        if d.code == 70:
            return False, d.err.strip()
        if d.code == -9:
            return False, "ended by the system (memory)"
        return True, f"the process died ({death(d)}): {last(d.err)}"

    def died(self, cfg, d, slots, how, args, extra_env=None):
        """A run ended abnormally: find out which call did it."""
        if d.code == 70:
            raise Broken(f"{how}: harness error: {d.err[-2000:]}")
        if d.code == -9:
            raise Broken(f"{how}: ended by the system, presumably for memory")
        s = self.fx(cfg, ["slots", slots], 60) if slots else Done(0, "", "", False)
        lines = [l.split(" ", 1)[1] for l in s.out.splitlines()]
        if d.code == 77 or d.timed_out:
            for l in lines:
                bad, what = self.replay_line(cfg, l)
                if bad:
                    self.violation(f"{l}: {what}", {"kind": "case", "cfg": cfg, "case": l, "env": extra_env})
                    return
            raise Broken(f"{how}: stalled, but no single call does")
        for l in lines:
            bad, what = self.replay_line(cfg, l, 60, extra_env)
            if bad:
                self.violation(f"{l}: {what}", {"kind": "case", "cfg": cfg, "case": l, "env": extra_env})
                return
        # Not a single call: does the run die again?
        d2 = self.fx(cfg, args, 900, extra_env)
        if d2.code not in (0, 70, 77, -9, None):
            self.violation(f"{how}: the process died ({death(d2)}): {last(d2.err)}; in flight: {lines[:8]}",
                           {"kind": "command", "cfg": cfg, "args": [a if a != slots else "SLOTS" for a in args], "env": extra_env})
            return
        if sanitizer(d.err):
            self.violation(f"{how}: {last(d.err)}; in flight: {lines[:8]}", {"kind": "command", "cfg": cfg, "args": args, "env": extra_env, "report": d.err[-6000:]})
            return
        raise Broken(f"{how}: died once ({death(d)}), not reproduced: {d.err[-1500:]}")

    def run(self, cfg, prop, cases, seed=None, extra=(), extra_env=None, threads=JOBS, timeout=3000):
        """One monitored run. Returns its result or None if it was a violation by crash."""
        out, slots = self.tmpfile(".json"), self.tmpfile(".slots")
        args = ["run", "--prop", prop, "--seed", str(seed if seed is not None else self.seed), "--cases", str(cases), "--threads", str(threads),
                "--out", out, "--slots", slots] + list(extra)
        d = self.fx(cfg, args, timeout, extra_env)
        if d.code != 0:
            self.died(cfg, d, slots, f"{prop} on {cfg}", args, extra_env)
            return None
        r = json.load(open(out))
        os.remove(out)
        os.remove(slots)
        if not r["complete"] and not r["violations"]:
            raise Broken(f"{prop} on {cfg}: incomplete run")
        return r

    def judge_run(self, cfg, r, args_note=""):
        """Confirms the violations a run observed by executing the calls alone."""
        known = self.known()
        for v in r["violations"]:
            bad, what = self.replay_line(cfg, v["case"])
            if v["case"] in known:
                self.known_lines.append((v["case"], known[v["case"]]))
                continue
            text = f"{v['case']} => {v['observed'][:300]}: {v['why'][:600]}"
            if not bad:
                text += " (observed during the run; the call alone does not show it, so it depends on what ran before or alongside)"
            self.violation(f"[{cfg}] {text}", {"kind": "case", "cfg": cfg, "case": v["case"], "observed": v["observed"], "why": v["why"], "alone": bad,
                                               "run": {"seed": r["seed"], "prop": r["prop"]}})

    def add(self, r, same_cases=True):
        c = self.cov
        c["evaluations"] += r["events"]
        if same_cases:
            c["distinct_nontrivial"] = max(c["distinct_nontrivial"], r["distinct"])
        else:
            c["distinct_nontrivial"] += r["distinct"]
        cl = c.setdefault("classes", {})
        for k, (n, types) in r["classes"].items():
            a = cl.setdefault(k, [0, 0])
            a[0] += n
            a[1] = max(a[1], types)
        for s in r["samples"]:
            if len(c["samples"]) < 16 and not any(s.split()[0] == t.split()[0] and s[-12:] == t[-12:] for t in c["samples"]):
                c["samples"].append(s[:400])

    def expect_classes(self):
        """The workload must have reached what it is meant to reach, or the check has no answer."""
        f = os.path.join(VERIF, "expect.json")
        want = json.load(open(f)).get(self.prop, []) if os.path.exists(f) else []
        missing = [k for k in want if k not in self.cov.get("classes", {})]
        if missing and not self.violations:
            raise Broken(f"the workload did not reach {missing}")
        self.cov["classes_required"] = len(want)

    # --- finishing ------------------------------------------------------
    def finish(self):
        known = self.known()
        for case in known:
            # A listed finding is re-executed even if this run did not come across it.
            if case not in [k for k, _ in self.known_lines]:
                cfg = RUN.get(self.prop, (["core-rel"],))[0][0]
                build_all([cfg])
                if self.replay_line(cfg, case)[0]:
                    self.known_lines.append((case, known[case]))
        for case, what in dict(self.known_lines).items():
            say(f"KNOWN-FINDING: property={self.prop} {case}: {what}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": self.cov,
              "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations),
              "assumptions": ["The monitor's exact integer arithmetic (self-tested on every run) and its reading of the operands are right.",
                              "Calls not generated are not judged."]}
        ev["coverage"]["builds_s"] = build_times()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        say(f"{self.prop} {self.tier} seed {self.seed}: {self.cov['evaluations']} events, {self.cov['distinct_nontrivial']} distinct, "
            f"{len(self.violations)} violations, {ev['wall_s']} s")
        for what, path in self.violations[:8]:
            say("  " + what.replace("\n", " | ")[:1500])
            say(f"VIOLATION property={self.prop} replay={path}")
        return 1 if self.violations else 0


common_lock = __import__("threading").Lock()


def death(d):
    if d.timed_out:
        return "timeout"
    return f"signal {-d.code}" if d.code < 0 else f"exit {d.code}"


def sanitizer(err):
    return re.search(r"(AddressSanitizer|MemorySanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer|Undefined Behavior|unsafe precondition)", err) is not None


def last(err):
    ls = [l for l in err.splitlines() if re.search(r"SUMMARY|ERROR: |WARNING: .*Sanitizer|Undefined Behavior|unsafe precondition|overflowed its stack|panicked|fatal", l)]
    return " | ".join(ls[:3]) if ls else err.strip()[-300:]


# --- plain runs ------------------------------------------------------------
def plain(c):
    cfgs, more, q, t = RUN[c.prop]
    cfgs = cfgs + (more if c.thorough else [])
    foreign = FOREIGN.get(c.prop, ()) if c.thorough else ()
    cfgs = c.built(cfgs + list(foreign), cfgs[2:] + list(foreign))
    foreign = [f for f in cfgs if f in foreign]
    cfgs = [f for f in cfgs if f not in foreign]
    seeds = [c.seed] + ([c.seed + 1000003 * i for i in (1, 2)] if c.thorough else [])
    for si, seed in enumerate(seeds):
        best = 0
        for cfg in cfgs:
            r = c.run(cfg, c.prop, t if c.thorough else q, seed)
            if r is None:
                return
            c.add(r)
            c.judge_run(cfg, r)
            if c.prop == "C20":
                c.cov["wrapper_operation_combinations"] = r["combos"]
                c.cov["least_events_of_a_combination"] = r["least_combo"]
                if not c.violations and (r["least_combo"] < 1000):
                    raise Broken("a wrapper combination was hardly exercised")
            c.cov.setdefault("runs", []).append({"build": cfg, "seed": seed, "events": r["events"], "distinct": r["distinct"], "cells": r["cells"], "panics_observed": r["panics"], "secs": r["secs"]})
            if c.violations:
                return
    if c.thorough and c.prop in WALK:
        # All 2^32 operands of one 32-bit type; the seed chooses which.
        only = f"i32/{c.seed % 10}"
        r = c.run("core-rel", c.prop, 0, c.seed, ["--walk", "--only", only], timeout=12000)
        if r is None:
            return
        c.add(r)
        c.judge_run("core-rel", r)
        c.cov["complete_32_bit_domain"] = {"type": only, "events": r["events"], "secs": r["secs"]}
    if foreign and not c.violations:
        interpret(c, foreign)
    c.cov["cells_rule"] = "cells: distinct (operation, type, mode, class of the operands) combinations observed"
    c.expect_classes()


# Properties whose operations of one operand the thorough tier takes through a complete 32-bit domain.
WALK = ("C02", "C03", "C05", "C06", "C08", "C10", "C13")


# Properties whose thorough tier also judges calls executed by the interpreter for other machines: big-endian 64 bit, and 32 bit.
FOREIGN = {p: ("miri-be", "miri-32") for p in "C01 C02 C05 C09 C10 C12 C13 C14 C15 C16 C17 C20 C22".split()}


def interpret(c, cfgs):
    """Small judged workloads under Miri for other targets."""
    k = 4
    jobs = [(cfg, ["mini", c.prop, str(c.seed), "12", f"{i}/{k}"], c.seed, "") for cfg in cfgs for i in range(k)]
    res = parallel([lambda j=j: miri(c, *j[:3], flags=j[3], timeout=6000) for j in jobs])
    for (cfg, args, seed, flags), d in zip(jobs, res):
        m = re.search(r"EVENTS (\d+) DISTINCT (\d+)", d.out)
        if d.code not in (0, 1) or not m or d.timed_out:
            raise Broken(f"Miri for {cfg} gave no answer: exit {d.code}: {d.err[-2000:]}")
        e = c.cov.setdefault("interpreted_for_other_targets", {})
        e[cfg] = e.get(cfg, 0) + int(m.group(1))
        c.cov["evaluations"] += int(m.group(1))
        for bad in [l[4:] for l in d.out.splitlines() if l.startswith("BAD ")][:3]:
            c.violation(f"[{cfg}] {bad}", {"kind": "foreign", "cfg": cfg, "args": args, "seed": seed, "flags": flags})


# --- C18: sanitizers -------------------------------------------------------
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:symbolize=1",
    "MSAN_OPTIONS": "exitcode=86:symbolize=1",
    "TSAN_OPTIONS": "exitcode=86:halt_on_error=1:symbolize=1",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18", "MSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18", "TSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}
NUMERIC = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C22"
CODECS = "C15,C16,C17"


def tsan_histories(c):
    t = c.thorough
    warm = [["hist", "--seed", str(c.seed + s), "--order", str(s), "--families", "30", "--rounds", "3", "--threads", "8", "--ledgers", "6", "--steps", "200"] for s in range(2 if not t else 10)]
    cold = [["hist", "--seed", str(c.seed + 50 + s), "--order", str(s), "--families", "300", "--rounds", "1", "--threads", str(8 - s % 5), "--cold"] for s in range(8 if not t else 40)]
    return warm + cold


def miri(c, cfg, args, seed, timeout=1500, flags=""):
    feats, extra = CONFIGS[cfg][3], CONFIGS[cfg][5]
    d = os.path.join(TARGET, cfg)
    e = cargo_env(cfg)
    e["MIRIFLAGS"] = f"-Zmiri-seed={seed} {flags}".strip()
    return launch(["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--no-default-features", "--features", feats, "--target-dir", d] + extra + ["--"] + args,
                  timeout=timeout, cwd=HARNESS, base_env=e)


def c18(c):
    t = c.thorough
    sans = ["asan", "asan-i16", "asan-i32", "asan-i64", "asan-i128", "msan", "tsan"] + (["msan-codec"] if t else [])
    foreign = ["miri-i16", "miri-i64", "miri-core", "miri-be", "miri-32"] if t else []
    have = c.built(sans + ["miri", "core-chk", "codec-chk"] + foreign, [s for s in sans if s.startswith("asan-")] + foreign)
    c.cov["rule"] = ("Each evaluation is one call of the real library under an instrument that reports undefined behaviour when it happens: AddressSanitizer (several feature sets), "
                     "MemorySanitizer and ThreadSanitizer with an instrumented standard library, the Miri interpreter, and the assertions of checked builds. Distinct by hash filter of "
                     "(type, operation, mode, operands), non-trivial when the first operand is not zero or a text or byte input is not empty; counted per instrument.")
    inst = c.cov["instruments"] = {}

    def note(name, **kw):
        e = inst.setdefault(name, {})
        for k, v in kw.items():
            e[k] = e.get(k, 0) + v
    # Sanitized runs. What they compute is judged by the other properties; here only reports count.
    plan = [("asan", f"{NUMERIC},{CODECS},C20", 1500 if not t else 20000), ("asan-i16", NUMERIC, 1500 if not t else 20000), ("asan-i32", NUMERIC, 1000 if not t else 20000),
            ("asan-i64", NUMERIC, 1000 if not t else 20000), ("asan-i128", NUMERIC, 600 if not t else 10000), ("msan", NUMERIC + ",C20", 500 if not t else 8000),
            ("core-chk", NUMERIC + ",C20", 1000 if not t else 10000), ("codec-chk", f"{NUMERIC},{CODECS}", 1000 if not t else 10000)]
    if t:
        plan.append(("msan-codec", f"{NUMERIC},{CODECS}", 8000))
    for cfg, props, n in plan:
        if cfg not in have:
            continue
        r = c.run(cfg, props, n, extra=["--hash", "--stall", "200"], extra_env=SAN_ENV)
        if r is None:
            return
        c.add(r, same_cases=False)
        note(cfg, events=r["events"], cells=r["cells"], panics_observed=r["panics"])
        if r["violations"]:
            c.cov.setdefault("wrong_results_left_to_other_properties", []).append(r["violations"][0]["case"])
    # Races: concurrent histories under ThreadSanitizer, also in fresh processes in which several threads compute everything for the first time.
    for s, args in enumerate(tsan_histories(c)):
        d = c.fx("tsan", args, 900, SAN_ENV)
        if d.code != 0:
            c.died("tsan", d, None, "histories under ThreadSanitizer", args, SAN_ENV)
            return
        r = json.loads(d.out)
        note("tsan", events=r["events"] + r["ledger_events"], overlapping_calls=r["overlaps"], processes=1)
        c.cov["evaluations"] += r["events"] + r["ledger_events"]
    # Miri: the same calls interpreted.
    jobs = []
    k = 8 if not t else 24
    for i in range(k):
        jobs.append(("miri", ["mini", f"{NUMERIC},{CODECS},C20", str(c.seed), "1" if not t else "6", f"{i}/{k}"], c.seed, ""))
    for i in range(2 if not t else 16):
        jobs.append(("miri", ["hist", "--seed", str(c.seed + i), "--order", str(i), "--families", "3", "--rounds", "1", "--threads", "3", "--ledgers", "1", "--steps", "12"] + (["--cold"] if i % 2 else []), c.seed + i,
                     "-Zmiri-preemption-rate=0.05"))
    for cfg in foreign:
        if cfg in have:
            for i in range(8):
                jobs.append((cfg, ["mini", NUMERIC + ("," + CODECS if cfg in ("miri-be", "miri-32") else ""), str(c.seed + 7), "6", f"{i}/8"], c.seed + 7, "-Zmiri-symbolic-alignment-check"))
    res = parallel([lambda j=j: miri(c, *j[:3], flags=j[3], timeout=800 if not t else 6000) for j in jobs])
    # Reports first: an instance without an answer must not hide them.
    for (cfg, args, seed, flags), d in sorted(zip(jobs, res), key=lambda x: not ("Undefined Behavior" in x[1].err or "Data race" in x[1].err)):
        if d.timed_out:
            raise Broken(f"Miri did not end: {args}")
        m = re.search(r"EVENTS (\d+) DISTINCT (\d+)", d.out)
        if args[0] == "hist" and d.code == 0:
            r = json.loads(d.out)
            note("miri threads", events=r["events"] + r["ledger_events"], schedules=1, overlapping_calls=r["overlaps"])
            c.cov["evaluations"] += r["events"] + r["ledger_events"]
        elif m and d.code in (0, 1):
            note("miri", events=int(m.group(1)))
            c.cov["evaluations"] += int(m.group(1))
            c.cov["distinct_nontrivial"] += int(m.group(2))
        elif "Undefined Behavior" in d.err or "Data race" in d.err:
            e = miri(c, cfg, args + ["--echo"], seed, flags=flags) if args[0] == "mini" else d
            at = [l for l in e.out.splitlines() if l.startswith("CASE ")]
            ub = [l for l in d.err.splitlines() if "Undefined Behavior" in l or l.strip().startswith("-->")]
            c.violation(f"Miri: {' | '.join(x.strip() for x in ub[:4])} in {at[-1] if at else args}",
                        {"kind": "miri", "cfg": cfg, "args": args, "seed": seed, "flags": flags, "case": at[-1] if at else None, "report": d.err[-5000:]})
            if len(c.violations) > 2:
                return
        elif d.code == -9:
            raise Broken("Miri was ended by the system")
        else:
            raise Broken(f"Miri gave no answer for {args}: exit {d.code}: {d.err[-2000:]}")
    if not c.violations:
        c.expect_classes()


# --- C19: literals ---------------------------------------------------------
def c19(c):
    c.cov["rule"] = ("Each evaluation is one literal in a generated program, compiled against the library and run (value compared with the exact decimal), or expected not to compile. "
                     "Distinct: (type, literal) pairs; all are non-trivial except 0.")
    bad, cov = lits.run(c.seed, c.thorough, ["lit64-chk", "lit64-rel", "lit128-chk", "lit128-rel"])
    c.cov["evaluations"] = cov["literals"]
    c.cov["distinct_nontrivial"] = cov.pop("distinct")
    c.cov["samples"] = cov.pop("samples")
    c.cov.update({k: v for k, v in cov.items() if k != "literals"})
    for v in bad[:8]:
        c.violation(f"[{v['cfg']}] {v['literal']} as {lits.ty(v['layout'], v['precision'])}: {v['why']}; observed {v['observed']}", dict(v, kind="literal"))
    if not bad and (cov["compile_errors_observed"] < 500 or cov["values_compared"] < 2000):
        raise Broken("too few literals observed")


# --- C21: builds agree -----------------------------------------------------
def c21(c):
    t = c.thorough
    groups = [
        # (properties, base build, builds compared with it)
        (NUMERIC + ",C20", "core-rel", ["core-chk"] + (["dbg", "max", "stable-rel"] if t else [])),
        (NUMERIC, "core-rel", ["nostd-rel", "nostd-chk", "i16-rel", "i32-rel", "i64-rel", "i64-chk", "i128-rel", "mix-a", "mix-b"]
         + (["nostdall-rel", "nostdall-chk", "mix-c", "mix-d", "mix-e", "mix-f", "mix-g", "mix-h"] if t else [])),
        (NUMERIC, "core-rel", ["codec-rel"]),
        (CODECS, "codec-rel", ["codec-chk"] + (["nostdcodec-rel", "codecall-rel"] if t else [])),
    ]
    have = c.built([b for _, base, bs in groups for b in [base] + bs], [b for _, _, bs in groups for b in bs if b not in ("core-rel", "codec-rel")])
    groups = [(props, base, [b for b in bs if b in have]) for props, base, bs in groups]
    c.cov["rule"] = ("Each evaluation is one call of the real library in one of the builds, the same calls in all builds; the accumulated hash of (call, result) per operation and type is "
                     "compared between builds. Distinct: distinct non-trivial calls of the base build; non-trivial when the first operand is not zero or the input is not empty.")
    n = 1500 if not t else 25000
    cache = {}
    compared = c.cov["compared"] = {}
    known = c.known()
    for seed in [c.seed] + ([c.seed + 17] if t else []):
        for props, base, others in groups:
            for b in [base] + others:
                if (b, props, seed) not in cache:
                    r = c.run(b, props, n, seed, ["--hash"])
                    if r is None:
                        return
                    cache[b, props, seed] = r
                    if b == base:
                        c.add(r, same_cases=False)
                    else:
                        c.cov["evaluations"] += r["events"]
            h0 = cache[base, props, seed]["hashes"]
            for b in others:
                h = cache[b, props, seed]["hashes"]
                keys = [k for k in h if k in h0]
                if not keys:
                    raise Broken(f"nothing to compare between {base} and {b}")
                compared[f"{base} = {b}"] = compared.get(f"{base} = {b}", 0) + len(keys)
                diff = [k for k in keys if h[k] != h0[k]]
                for k in diff[:3]:
                    explain(c, props, base, b, k, n, seed, known)
                if c.violations:
                    return
    c.cov["compared_rule"] = "compared: per pair of builds, (operation, type) result histories compared"
    c.expect_classes()


def explain(c, props, base, b, key, n, seed, known):
    """Two builds disagree on an operation of a type: find the calls."""
    op, ty = key.split()
    logs = []
    for cfg in (base, b):
        f = c.tmpfile(".log")
        r = c.run(cfg, props, n, seed, ["--hash", "--op", op, "--only", ty, "--log", f, "--threads", "1"], threads=1)
        if r is None:
            return
        logs.append(dict(l.rstrip("\n").split(" => ", 1) for l in open(f + ".0", errors="replace") if " => " in l))
    strip = lambda x: "panic" if x is not None and x.startswith("panic:") else re.sub(r"Err\((?!Overflow|DivisionByZero|DomainViolation|codec).*\)", "Err(conversion)", x) if x else x
    cases = [k for k in logs[0] if k in logs[1] and strip(logs[0][k]) != strip(logs[1][k])]
    if not cases:
        raise Broken(f"{base} and {b} disagree on {key}, but no call shows it")
    case = min(cases, key=len)
    what = f"{case}: {base} gives {logs[0][case][:200]} but {b} gives {logs[1][case][:200]}"
    if case in known:
        c.known_lines.append((case, known[case]))
        return
    c.violation(what, {"kind": "pair", "cfgs": [base, b], "case": case, "results": [logs[0][case], logs[1][case]]})


# --- C23: histories --------------------------------------------------------
def c23(c):
    t = c.thorough
    cfgs = ["core-chk", "core-rel"]
    build_all(cfgs + ["tsan"])
    c.cov["rule"] = ("Each evaluation is one call inside a recorded history (permuted orders, repeated calls, 8 threads, fresh processes) or a ledger of concurrent transfers. Every call must give "
                     "the result it gave before; results of whole histories are compared between orders and processes by digest. Distinct: distinct calls repeated in the histories.")
    tot = dict(events=0, cases=0, adjacent=0, overlaps=0, peak=0, ledger_events=0, ledger_checks=0, transfers=0, refused=0, histories=0, processes=0, digests_compared=0, ledgers=0)

    def go(cfg, args, timeout=900):
        slots = c.tmpfile(".slots")
        d = c.fx(cfg, args + ["--slots", slots], timeout)
        tot["processes"] += 1
        if d.code != 0:
            c.died(cfg, d, slots, f"history on {cfg}", args + ["--slots", slots])
            return None
        r = json.loads(d.out)
        for k in tot:
            if k in r:
                tot[k] = max(tot[k], r[k]) if k == "peak" else tot[k] + r[k]
        c.cov["evaluations"] += r["events"] + r["ledger_events"]
        for s in r["samples"]:
            if len(c.cov["samples"]) < 12:
                c.cov["samples"].append(s)
        for v in r["violations"][:4]:
            c.violation(f"[{cfg}] {v['case']} => {v['observed'][:300]}: {v['why'][:500]}",
                        {"kind": "command", "cfg": cfg, "args": args, "case": v["case"], "why": v["why"], "observed": v["observed"], "history": v["history"][-60:]})
        return r

    def agree(cfg, runs, what):
        """All runs executed the same calls in other orders: their digests must be equal."""
        ds = {}
        for args, r in runs:
            ds.setdefault(r["digest"], args)
        tot["digests_compared"] += len(runs)
        if len(ds) > 1:
            c.violation(f"[{cfg}] {what}: the same calls give different results in different histories: {ds}", {"kind": "digests", "cfg": cfg, "runs": list(ds.values())})
    distinct = 0
    for s in range(1 if not t else 6):
        seed = str(c.seed + 100 * s)
        for cfg in cfgs:
            runs = []
            for order in range(3 if not t else 8):
                args = ["hist", "--seed", seed, "--order", str(order), "--families", "2000" if not t else "6000", "--rounds", "4", "--threads", "8" if order != 1 else "1",
                        "--ledgers", "24" if order == 0 else "0", "--steps", "500" if not t else "3000"]
                r = go(cfg, args)
                if r is None or c.violations:
                    return
                tot["histories"] += 1
                distinct = max(distinct, r["cases"])
                runs.append((args, r))
            agree(cfg, runs, "warm processes")
            # Fresh processes: whatever is computed first differs from process to process.
            jobs, cold = [], []
            for order in range(64 if not t else 240):
                jobs.append(["hist", "--seed", seed, "--order", str(order), "--families", "2", "--rounds", "1", "--threads", str(1 + order % 4), "--cold"])
            for args, r in zip(jobs, parallel([lambda a=a: go(cfg, a) for a in jobs])):
                if r is None or c.violations:
                    return
                cold.append((args, r))
            agree(cfg, cold, "fresh processes")
            if c.violations:
                return
    # Unsynchronised shared state shows under ThreadSanitizer even when the values happen to agree.
    tot["tsan_events"] = 0
    for args in tsan_histories(c):
        d = c.fx("tsan", args, 900, SAN_ENV)
        if d.code != 0:
            c.died("tsan", d, None, "histories under ThreadSanitizer", args, SAN_ENV)
            return
        r = json.loads(d.out)
        tot["tsan_events"] += r["events"] + r["ledger_events"]
    c.cov["evaluations"] += tot["tsan_events"]
    c.cov["distinct_nontrivial"] = distinct
    c.cov.update({k: v for k, v in tot.items() if k != "cases"})
    c.cov["notes"] = ("adjacent: distinct (previous call, call) operation pairs; overlaps: calls observed to overlap in time with others; peak: calls in flight at once; "
                      "ledger_checks: conservation equations and loss bounds checked")
    if not c.violations and (tot["overlaps"] < 1000 or tot["transfers"] < 1000 or tot["ledger_checks"] < 1000):
        raise Broken(f"the histories hardly overlapped: {tot}")


SPECIAL = {"C18": c18, "C19": c19, "C21": c21, "C23": c23}


def decide(prop, tier, seed):
    c = Check(prop, tier, seed)
    try:
        try:
            SPECIAL.get(prop, plain)(c)
        except Broken as e:
            # What was observed and confirmed before stays true.
            if not c.violations:
                raise
            say(f"incomplete: {e}")
        return c.finish()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    c = Check(v["property"], "quick", 1)
    try:
        k = v["kind"]
        say(v["what"])
        if k == "literal":
            bad = lits.replay(v)
        elif k == "pair":
            build_all(v["cfgs"])
            res = [c.fx(b, ["replay", v["case"]], 120) for b in v["cfgs"]]
            for b, d in zip(v["cfgs"], res):
                say(f"{b}: {d.out.strip() or d.err.strip()}")
            bad = len({re.sub(r"panic: .*", "panic", d.out) for d in res}) > 1
        elif k == "case" and v.get("alone", True):
            build_all([v["cfg"]])
            bad, what = c.replay_line(v["cfg"], v["case"], 120, v.get("env"))
            say(what)
        elif k == "case":
            build_all([v["cfg"]])
            r = c.run(v["cfg"], v["run"]["prop"], RUN.get(v["property"], (0, 0, 2000))[2], v["run"]["seed"])
            bad = r is None or bool(r["violations"])
        elif k == "miri":
            build_all([v["cfg"]])
            d = miri(c, v["cfg"], v["args"], v["seed"], flags=v["flags"])
            say(d.err[-3000:])
            bad = "Undefined Behavior" in d.err or "Data race" in d.err
        elif k == "foreign":
            build_all([v["cfg"]])
            d = miri(c, v["cfg"], v["args"], v["seed"], flags=v["flags"])
            say(d.out[-3000:])
            bad = d.code == 1 and "BAD " in d.out
        elif k == "command":
            build_all([v["cfg"]])
            d = c.fx(v["cfg"], [a if a != "SLOTS" else c.tmpfile() for a in v["args"]], 900, v.get("env"))
            say(d.out[-1500:], d.err[-3000:])
            bad = d.code != 0 or ('"violations": []' not in d.out and '"violations":\n[]' not in d.out)
        elif k == "digests":
            build_all([v["cfg"]])
            res = [json.loads(c.fx(v["cfg"], a, 900).out)["digest"] for a in v["runs"]]
            say(res)
            bad = len(set(res)) > 1
        else:
            raise Broken(f"unknown kind {k}")
        say("VIOLATED" if bad else "HELD")
        return 1 if bad else 0
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int.from_bytes(os.environ["VERIF_SEED"].encode()[:7], "little")
    try:
        if a.setup:
            build_all(CORE + CODEC)
            say("built:", build_times())
            return 0
        if a.replay:
            return replay(a.replay)
        if a.prop not in RUN and a.prop not in SPECIAL:
            say(f"unknown property {a.prop}")
            return 2
        return decide(a.prop, "thorough" if a.tier == "thorough" else "quick", seed)
    except Broken as e:
        say(f"NO ANSWER: {e}")
        return 2
    except Exception:  # noqa
        traceback.print_exc()
        say("NO ANSWER: the check failed")
        return 2


if __name__ == "__main__":
    sys.exit(main())
