#!/usr/bin/env python3
"""Confirm seeded changes: applies, builds, passes the tests, the demonstration
tells the trees apart, and say which checks report it.  Development tool; works
on a scratch copy (/tmp/seedrepo) and is not used by any check.

  try_seed.py ID... [--checks C01,C02 | --no-check]
"""
import argparse, json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = "/tmp/seedrepo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scripts():
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", "/tmp/seed_build.sh").replace("/repo", SEED)
        open("/tmp/seed_" + n, "w").write(s)


def prepare():
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if os.path.isdir(SEED):
        sh(["git", "-C", SEED, "checkout", "-q", "--", "."])
        if sh(["git", "-C", SEED, "rev-parse", "HEAD"]).stdout.strip() == head:
            return
        shutil.rmtree("/tmp/seedrepo")
    sh(["git", "clone", "-q", "/repo", SEED])
    scripts()
    r = sh(["bash", "/tmp/seed_build.sh"])
    if r.returncode:
        sys.exit(r.stdout[-2000:])


def demo(d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    try:
        return sh(["bash", os.path.join(d, "demo.sh")], cwd=SEED, env=env, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "timeout")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--checks", default="")
    ap.add_argument("--no-check", action="store_true")
    a = ap.parse_args()
    prepare()
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in a.ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        out = []
        r = demo(d)
        out.append("clean-demo=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        p = sh(["git", "-C", SEED, "apply", os.path.join(d, "patch.diff")])
        if p.returncode:
            print(i, "DOES NOT APPLY", p.stdout)
            continue
        t = sh(["bash", "/tmp/seed_test.sh", "/tmp/seed_out.json"])
        res = json.load(open("/tmp/seed_out.json"))
        missing = [x for x in base if x not in set(res["passed"])]
        out.append("tests=%d/%d" % (len(res["passed"]), len(res["passed"]) + len(res["failed"])))
        if res["failed"] or missing or not res["passed"]:
            out.append("TESTS-FAIL %s" % (res["failed"][:3] or t.stdout[-600:]))
        r = demo(d)
        out.append("patched-demo=%d" % r.returncode)
        if r.returncode == 0:
            out.append("DEMO-MISSES")
        else:
            out.append("[" + (r.stdout.strip().splitlines() or [""])[-1][:100] + "]")
        if not a.no_check:
            for c in (a.checks.split(",") if a.checks else [meta["property"]]):
                env = dict(os.environ, VERIF_REPO=SEED, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE="/tmp/seed_evidence")
                r = sh([sys.executable, os.path.join(VERIF, "run.py"), c], env=env, cwd=VERIF)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s:%s(%d)" % (c, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode))
                m = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "HELD"))]
                out.append("{" + " ".join(m)[:160] + "}")
        sh(["git", "-C", SEED, "checkout", "-q", "--", "."])
        print(i, *out, flush=True)


main()
