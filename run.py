#!/usr/bin/env python3
"""Runs the monitors of one property: run.py C01 [--tier quick|thorough]
                  or replays a violation: run.py --replay out/replay/C01/1.json

Builds every unit of the property from /repo's current working tree in a
scratch directory, runs the units, collects what the monitors observed, writes
evidence/<id>.json and decides: exit 0 held, exit 1 + VIOLATION line, exit 2
inconclusive / error of the check.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import checks  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "LC_ALL": "C.UTF-8",
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1",
    "MSAN_OPTIONS": "abort_on_error=1",
})
COMPILE_TIMEOUT = 400
JOBS = 8


class Inconclusive(Exception):
    pass


def run_proc(cmd, timeout, cwd=None, env=None, stdin=None):
    """Returns (rc or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


NOOP_STATEMENT = re.compile(r"^[ \t]*\(void\)\s*0\s*;[ \t]*$", re.M)
_lock = threading.Lock()


def without_noops(tmp):
    """A copy of the headers without statements that do nothing: C++11 forbids
    those in constexpr functions, but they are no change of behaviour."""
    dst = os.path.join(tmp, "include-no-noops")
    with _lock:
        if not os.path.isdir(dst):
            src = os.path.join(REPO, "include")
            for d, _, fs in os.walk(src):
                to = os.path.join(dst + ".new", os.path.relpath(d, src))
                os.makedirs(to, exist_ok=True)
                for f in fs:
                    with open(os.path.join(d, f), encoding="utf-8", errors="surrogateescape") as i:
                        t = i.read()
                    with open(os.path.join(to, f), "w", encoding="utf-8", errors="surrogateescape") as o:
                        o.write(NOOP_STATEMENT.sub("", t))
            os.rename(dst + ".new", dst)
    return dst


def compile_proc(ctx, cmd, timeout, strict=False):
    """run_proc for a compiler.  What C++11 and C++14 alone reject is the
    business of C18 (strict); the other properties are then observed in the next
    language standard that accepts the code."""
    r = run_proc(cmd, timeout)
    at = next((i for i, a in enumerate(cmd) if re.match(r"-std=(c|gnu)\+\+1[14]$", a)), None)
    if at is None or r[0] is None or r[0] <= 0:
        return r
    inc = os.path.join(REPO, "include")
    tries = [[a.replace("-I" + inc, "-I" + without_noops(ctx.tmp)) if a == "-I" + inc else a for a in cmd]]
    if not strict:
        for std in ("14", "17"):
            if std > cmd[at][-2:]:
                tries.append(cmd[:at] + [cmd[at][:-2] + std] + cmd[at + 1:])
    for t in tries:
        r2 = run_proc(t, timeout)
        if r2[0] == 0:
            ctx.count("builds the language standard alone rejected")
            return r2
    return r


class Unit:
    """One instrumented program: sources + build flavour + workload arguments."""

    def __init__(self, name, src, flavour="asan", cxx=None, std="gnu++17", flags=(),
                 defs=(), args=(), timeout=200, libs=(), wrapper=(), objs=None,
                 runs=1, tier=None):
        self.name = name
        self.src = src
        self.flavour = flavour
        self.cxx = cxx or "g++"
        self.std = std
        self.flags = list(flags)
        self.defs = list(defs)
        self.args = list(args)
        self.timeout = timeout
        self.libs = list(libs)
        self.wrapper = list(wrapper)
        self.objs = objs  # list of (source, defs): extra translation units
        self.runs = runs
        self.tier = tier

    def base_cmd(self):
        fl = checks.FLAVOURS[self.flavour]
        return ([self.cxx, "-std=" + self.std] + fl + self.flags +
                ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "lib"),
                 "-I" + os.path.join(VERIF, "harness")])

    def compile_jobs(self, tmp):
        jobs = []
        allsrc = [(self.src, [])] + list(self.objs or [])
        for i, (src, defs) in enumerate(allsrc):
            o = os.path.join(tmp, "%s.%d.o" % (self.name, i))
            extra = []
            if isinstance(defs, dict):
                extra = defs.get("flags", [])
                defs = defs.get("defs", [])
            jobs.append((self.base_cmd() + extra + self.defs + list(defs) +
                         ["-c", os.path.join(VERIF, "harness", src), "-o", o], o))
        return jobs

    def link_cmd(self, tmp, objs):
        return self.base_cmd() + objs + ["-o", os.path.join(tmp, self.name)] + self.libs


class Ctx:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.violations = []       # dicts: key, msg, unit, record
        self.evaluations = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.counters = {}
        self.samples = []
        self.inconclusive = []
        self.units_run = []
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self._sanity = None
        self.hung = False

    def violation(self, key, msg, unit=None, record=None, detail=""):
        self.violations.append({"key": key, "msg": msg, "unit": unit, "record": record,
                                "detail": detail})

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def toolchain_ok(self, cxx, std):
        """Distinguishes 'the code no longer builds' from 'nothing builds here'."""
        src = os.path.join(self.tmp, "sanity.cpp")
        with open(src, "w") as f:
            f.write("#include <vector>\n#include <string>\nint main(){std::vector<std::string> v;return (int)v.size();}\n")
        rc, _, _ = run_proc([cxx, "-std=" + std, src, "-o", os.path.join(self.tmp, "sanity")], 120)
        return rc == 0

    def compile_failed(self, unit, cmd, rc, err):
        if rc is None:
            self.inconclusive.append("%s: compile timed out" % unit.name)
            return
        if rc < 0 or re.search(r"No space left|Killed signal|out of memory|cannot allocate", err):
            self.inconclusive.append("%s: compiler was stopped: %s" % (unit.name, err[-300:]))
            return
        if not self.toolchain_ok(unit.cxx, unit.std):
            self.inconclusive.append("%s: toolchain does not work" % unit.name)
            return
        m = re.search(r"^.*error:.*$", err, re.M)
        self.violation("compile:" + unit.name,
                       "valid use of the library no longer compiles: " +
                       (m.group(0) if m else err[-300:]),
                       unit=unit.name, record={"cmd": cmd}, detail=err[-6000:])

    def build(self, unit):
        jobs = unit.compile_jobs(self.tmp)
        if len(jobs) == 1:
            rcs = [compile_proc(self, jobs[0][0], COMPILE_TIMEOUT)]
        else:
            with cf.ThreadPoolExecutor(JOBS) as p:
                rcs = list(p.map(lambda j: compile_proc(self, j[0], COMPILE_TIMEOUT), jobs))
        for (cmd, _), (rc, _, err) in zip(jobs, rcs):
            if rc != 0:
                self.compile_failed(unit, cmd, rc, err)
                return False
        cmd = unit.link_cmd(self.tmp, [o for _, o in jobs])
        rc, _, err = run_proc(cmd, COMPILE_TIMEOUT)
        if rc != 0:
            self.compile_failed(unit, cmd, rc, err)
            return False
        return True

    def execute(self, unit, run=0, only=None):
        exe = os.path.join(self.tmp, unit.name)
        rep = os.path.join(self.tmp, "%s.%d.report" % (unit.name, run))
        dis = os.path.join(self.tmp, "%s.%d.distinct" % (unit.name, run))
        seed = self.seed + 1000003 * run
        cmd = unit.wrapper + [exe, "--seed", str(seed), "--tier", self.tier,
                              "--report", rep, "--distinct", dis] + unit.args
        if only:
            cmd += ["--only", only]
        timeout = unit.timeout * (4 if self.tier == "thorough" else 1)
        for attempt in (0, 1):
            for f in (rep, dis):
                if os.path.exists(f):
                    os.unlink(f)
            # after one confirmed hang the others need no more patience
            rc, out, err = run_proc(cmd, 60 if self.hung else timeout, cwd=self.tmp)
            if rc is None and attempt == 0 and not self.hung and not self.reported(rep):
                continue      # re-run once before calling it a hang
            if rc is None and attempt == 1:
                self.hung = True
            if rc is not None and rc == -signal.SIGKILL and attempt == 0:
                continue
            break
        recs = []
        if os.path.exists(rep):
            with open(rep, errors="replace") as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        pass
        return {"rc": rc, "out": out, "err": err, "recs": recs, "distinct": dis,
                "cmd": cmd, "seed": seed}

    @staticmethod
    def reported(rep):
        try:
            with open(rep, errors="replace") as f:
                return any('"type":"violation"' in l for l in f)
        except OSError:
            return False

    def digest(self, unit, r):
        stats = None
        for rec in r["recs"]:
            if rec["type"] == "violation":
                self.violation("%s/%s" % (rec["section"], rec["key"]), rec["msg"], unit.name,
                               dict(rec, seed=r["seed"]))
            elif rec["type"] == "crash":
                kind = "signal%d" % rec["signal"]
                m = re.search(r"(?:ERROR|WARNING|SUMMARY): (\w+Sanitizer): ([\w-]+)", r["err"])
                if m:
                    kind = m.group(1) + ":" + m.group(2)
                elif "runtime error:" in r["err"]:
                    kind = "UBSan:" + re.sub(r"[^\w]+", "-", re.search(r"runtime error: (.{0,60})", r["err"]).group(1))[:40]
                elif "Assertion" in r["err"]:
                    m = re.search(r"Assertion [`'](.{0,80}?)' failed", r["err"])
                    kind = "assert:" + (re.sub(r"\s+", "", m.group(1)) if m else "")
                elif "terminate called" in r["err"]:
                    kind = "terminate"
                self.violation("crash/%s/%s" % (rec["section"], kind),
                               "execution ended by %s at %s" % (kind, rec.get("where", "")),
                               unit.name, dict(rec, seed=r["seed"]), r["err"][-6000:])
            elif rec["type"] == "stats":
                stats = rec
        self.units_run.append({"unit": unit.name, "flavour": unit.flavour, "std": unit.std,
                               "cxx": unit.cxx, "rc": r["rc"], "seed": r["seed"],
                               "evaluations": stats["evaluations"] if stats else None})
        if stats:
            self.evaluations += stats["evaluations"]
            for k, n in stats["counters"].items():
                self.count(k, n)
            for s in stats["samples"]:
                if len(self.samples) < 24:
                    self.samples.append("%s: %s" % (unit.name, s))
            for u in stats["unmet"]:
                self.inconclusive.append("%s observed too little: %s" % (unit.name, u))
            if os.path.exists(r["distinct"]):
                with open(r["distinct"], "rb") as f:
                    data = f.read()
                self.distinct.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        else:
            rc = r["rc"]
            if rc is None:
                last = r["recs"][-1] if r["recs"] else {}
                self.violation("hang/" + unit.name, "did not finish twice within its time limit",
                               unit.name, {"seed": r["seed"], "last": last}, r["err"][-3000:])
            elif rc == 99:
                pass  # crash record handled above
            elif rc == -signal.SIGKILL:
                self.inconclusive.append("%s was killed (memory?)" % unit.name)
            elif rc < 0:
                self.violation("died/%s/signal%d" % (unit.name, -rc), "died from signal %d" % -rc,
                               unit.name, {"seed": r["seed"]}, r["err"][-6000:])
            elif not any(x["type"] in ("violation", "crash") for x in r["recs"]):
                m = re.search(r"(\w+Sanitizer): ([\w-]+)", r["err"])
                if m:
                    self.violation("died/%s/%s" % (unit.name, m.group(2)), m.group(0),
                                   unit.name, {"seed": r["seed"]}, r["err"][-6000:])
                else:
                    self.inconclusive.append("%s ended with %s and no report: %s" %
                                             (unit.name, rc, r["err"][-400:]))

    def run_units(self, units):
        units = [u for u in units if u.tier in (None, self.tier)]
        built = list(self.pool.map(self.build, units))
        todo = [(u, i) for u, ok in zip(units, built) if ok for i in range(u.runs)]
        for (u, _), r in zip(todo, self.pool.map(lambda t: self.execute(*t), todo)):
            self.digest(u, r)


def load_known():
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) key=(\S+)\s*(.*)", line)
            if m:
                known.append(m.groups())
    return known


def replay(path):
    rec = json.load(open(path))
    prop = rec["property"]
    spec = checks.CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        r = rec.get("record") or {}
        ctx = Ctx(prop, rec["tier"], r.get("seed", rec["seed"]), tmp)
        units = [u for u in checks.units(Unit, prop) if u.name == rec.get("unit")]
        if units and r.get("section") and r.get("case", -1) >= 0:
            u = units[0]
            if ctx.build(u):
                res = ctx.execute(u, only="%s:%d" % (r["section"], r["case"]))
                print(res["out"] + res["err"])
                for x in res["recs"]:
                    print(json.dumps(x))
                ctx.digest(u, res)
        else:
            decide(ctx, spec)
        for v in ctx.violations:
            print("REPRODUCED %s: %s" % (v["key"], v["msg"]))
        return 1 if ctx.violations else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(ctx, spec):
    if spec.get("units"):
        ctx.run_units(checks.units(Unit, ctx.prop))
    for fn in spec.get("custom", []):
        fn(ctx)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    spec = checks.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    ctx = Ctx(prop, a.tier, a.seed, tmp)
    try:
        decide(ctx, spec)
    except Inconclusive as e:
        ctx.inconclusive.append(str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = [(k, d) for p, k, d in load_known() if p == prop]
    new, seen_known = [], {}
    for v in ctx.violations:
        hit = [kd for kd in known if kd[0] == v["key"]]
        if hit:
            seen_known[hit[0][0]] = hit[0][1]
        else:
            new.append(v)

    evaluations = ctx.evaluations
    distinct = len(ctx.distinct) + ctx.extra_distinct
    if evaluations == 0 or distinct == 0:
        if not new:
            ctx.inconclusive.append("nothing was observed")
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": ctx.samples[:24] or ["none"],
            "events": dict(sorted(ctx.counters.items())),
            "units": ctx.units_run,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for k, d in seen_known.items():
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, d))
    if new:
        rdir = os.path.join(VERIF, "out", "replay", prop)
        os.makedirs(rdir, exist_ok=True)
        by_key = {}
        for v in new:
            by_key.setdefault(v["key"], v)
        for i, (k, v) in enumerate(by_key.items()):
            if i >= 20:
                break
            path = os.path.join(rdir, "%d.json" % (i + 1))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": a.tier, "seed": a.seed, **v}, f, indent=1)
            print("%s [%s] %s" % (k, v["unit"], v["msg"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if ctx.inconclusive:
        for m in ctx.inconclusive:
            print("INCONCLUSIVE property=%s %s" % (prop, m))
        return 2
    print("HELD property=%s on %d executions (%d distinct), %.1fs" %
          (prop, evaluations, distinct, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
