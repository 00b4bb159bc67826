"""C18: harness/trace.cpp built in many configurations; every trace must equal
the first one (floating point to within rounding).  Every public header is
compiled on its own in every language standard."""
import hashlib
import os
import random
import re

VERIF = os.path.dirname(os.path.abspath(__file__))
STDS = ["c++11", "c++14", "c++17", "c++20"]
HEADER_STDS = STDS + ["c++23"]
OPTS = ["-O0", "-O1", "-O2", "-O3", "-Os"]
EXC = [[], ["-fno-exceptions", "-fno-rtti"]]
HALF = [["-fno-rtti"], ["-fno-exceptions"]]
ASSERTS = [[], ["-DNDEBUG"]]
GCEM = ["-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR", "-I" + os.path.join(VERIF, "lib", "stubs", "gcem")]
# needs a third-party declaration before it can be used at all
PRELUDE = {"ostream_ops.h": "namespace fpm { template <typename T1, typename T2, unsigned B> class fixed; }\n"}
SKIP = {"variant.h"}  # only re-exports the absent mpark::variant


class Conf:
    def __init__(self, cxx, std, opt, exc, asserts, extra=()):
        self.cxx, self.std = cxx, std
        self.flags = [opt] + exc + asserts + list(extra)
        self.exceptions = "-fno-exceptions" not in exc

    def __str__(self):
        return " ".join([self.cxx, "-std=" + self.std] + [f for f in self.flags if not f.startswith("-I")])


def configurations(tier, seed):
    full = []
    for std in STDS:
        for opt in OPTS:
            for exc in EXC:
                for a in ASSERTS:
                    full.append(Conf("g++", std, opt, exc, a))
                    full.append(Conf("clang++", std, opt, exc, a, GCEM))
    for std in STDS:
        full.append(Conf("g++", std, "-O1", [], [], GCEM))
        full.append(Conf("g++", std, "-O2", EXC[1], ASSERTS[1], GCEM))
        full.append(Conf("g++", "gnu++" + std[3:], "-O1", [], []))
        full.append(Conf("g++", "gnu++" + std[3:], "-O3", [], ASSERTS[1], ["-march=native"]))
        full.append(Conf("g++", std, "-O1", [], [], ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]))
        full.append(Conf("g++", std, "-O2", [], [], ["-funsigned-char", "-fno-strict-aliasing"]))
        full.append(Conf("g++", std, "-O2", EXC[1], [], ["-D_GLIBCXX_DEBUG"]))
        for half in HALF:
            full.append(Conf("g++", std, "-O1", half, []))
            full.append(Conf("clang++", std, "-O1", half, [], GCEM))
    for opt in OPTS:
        full.append(Conf("g++", "c++23", opt, [], []))
        full.append(Conf("clang++", "c++23", opt, [], [], GCEM))
    if tier == "thorough":
        return full
    r = random.Random(seed)
    # every value of every dimension with every standard, in a few builds
    pick = [Conf("g++", "c++11", "-O0", EXC[0], ASSERTS[0]), Conf("g++", "c++11", "-O2", EXC[1], ASSERTS[1]),
            Conf("g++", "c++14", "-O1", EXC[1], ASSERTS[0]), Conf("g++", "c++14", "-O3", EXC[0], ASSERTS[1]),
            Conf("g++", "c++17", "-O0", EXC[1], ASSERTS[1]), Conf("g++", "c++17", "-O2", EXC[0], ASSERTS[0]),
            Conf("g++", "c++20", "-Os", EXC[0], ASSERTS[0]), Conf("g++", "c++20", "-O2", EXC[1], ASSERTS[1]),
            Conf("clang++", "c++11", "-O0", EXC[0], ASSERTS[0], GCEM), Conf("clang++", "c++14", "-O2", EXC[1], ASSERTS[1], GCEM),
            Conf("clang++", "c++17", "-O1", EXC[0], ASSERTS[1], GCEM), Conf("clang++", "c++20", "-O3", EXC[1], ASSERTS[0], GCEM),
            Conf("g++", "c++17", "-O1", HALF[0], []), Conf("clang++", "c++11", "-O1", HALF[0], [], GCEM),
            Conf("g++", "c++14", "-O1", HALF[1], []),
            Conf("g++", "c++17", "-O0", [], [], GCEM), Conf("g++", "c++11", "-O0", [], [], ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
            Conf("g++", "gnu++11", "-O2", EXC[0], ASSERTS[1]), Conf("g++", "gnu++20", "-O1", EXC[0], ASSERTS[0], ["-funsigned-char"]),
            Conf("g++", "gnu++17", "-O1", EXC[0], ASSERTS[0], ["-D_GLIBCXX_DEBUG"]), Conf("g++", "c++23", "-O2", EXC[0], ASSERTS[0])]
    return pick + r.sample([c for c in full if "-fsanitize=address,undefined" not in c.flags], 2)


def trace(ctx, run_proc, compile_proc, repo, conf, seed):
    key = hashlib.sha1(str(conf).encode()).hexdigest()[:10]
    base = os.path.join(ctx.tmp, "trace-" + key)
    inc = ["-w", "-I" + os.path.join(repo, "include"), "-I" + os.path.join(VERIF, "lib")]
    objs = []
    for i, d in enumerate(([], ["-DTU2"])):
        o = "%s.%d.o" % (base, i)
        cmd = [conf.cxx, "-std=" + conf.std] + conf.flags + inc + d + ["-c", os.path.join(VERIF, "harness", "trace.cpp"), "-o", o]
        rc, _, err = compile_proc(ctx, cmd, 400, True)
        if rc != 0:
            if rc is None or rc < 0 or not ctx.toolchain_ok(conf.cxx, conf.std):
                ctx.inconclusive.append("compile as %s: %s" % (conf, err[-300:]))
                return None
            m = re.search(r"^.*error:.*$", err, re.M)
            ctx.violation("config/compile", "%s: does not compile: %s" % (conf, m.group(0) if m else err[-300:]), str(conf), {"cmd": cmd}, err[:4000])
            return None
        objs.append(o)
    cmd = [conf.cxx, "-std=" + conf.std] + conf.flags + objs + ["-o", base]
    rc, _, err = run_proc(cmd, 120)
    if rc != 0:
        ctx.violation("config/link", "%s: two translation units do not link: %s" % (conf, err[-300:]), str(conf), {"cmd": cmd})
        return None
    rc, out, err = run_proc([base, str(seed)], 120)
    for f in objs + [base]:
        os.unlink(f)
    if rc != 0:
        m = re.search(r"Assertion.*failed|runtime error:.*|ERROR: AddressSanitizer.*", err)
        ctx.violation("config/run", "%s: ended with %s: %s" % (conf, rc, m.group(0) if m else err[-200:]), str(conf), {"seed": seed}, err[-3000:])
        return None
    return out.splitlines()


def key_of(line):
    p = line.split(" ", 2)
    return p[0] + " " + p[1] if len(p) > 2 else line


def compare(ctx, conf, ref_conf, lines, ref, seed):
    if not conf.exceptions or not ref_conf.exceptions:
        lines = [l for l in lines if not l.startswith("X ")]
        ref = [l for l in ref if not l.startswith("X ")]
    if [key_of(l) for l in lines] != [key_of(l) for l in ref]:
        ctx.violation("config/trace", "%s: trace has different entries than %s" % (conf, ref_conf), str(conf), {"seed": seed})
        return
    for a, b in zip(lines, ref):
        ctx.evaluations += 1
        if a == b:
            ctx.count("identical entries")
            continue
        if a.startswith("F "):
            fa, fb = a.split(), b.split()
            tol = float.fromhex(fa[2]) * max(float.fromhex(fa[3]), float.fromhex(fb[3]))
            va, vb = [float.fromhex(x) for x in fa[4:]], [float.fromhex(x) for x in fb[4:]]
            if len(va) == len(vb) and all(abs(x - y) <= tol for x, y in zip(va, vb)):
                ctx.count("entries equal to within rounding")
                continue
            i = next((i for i, (x, y) in enumerate(zip(va, vb)) if not abs(x - y) <= tol), 0)
            ctx.violation("config/" + re.sub(r"[\d]+", "N", fa[1]), "%s gives %s value %d as %r, %s as %r" % (conf, fa[1], i, va[i], ref_conf, vb[i]), str(conf), {"seed": seed})
        else:
            ctx.violation("config/" + re.sub(r"[\d]+", "N", a.split()[1]), "%s: '%s', but '%s' with %s" % (conf, a[:200], b[:200], ref_conf), str(conf), {"seed": seed})


def headers(ctx, compile_proc, repo):
    root = os.path.join(repo, "include")
    hs = []
    for d, _, fs in os.walk(os.path.join(root, "embedded")):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), root)
            if f.endswith(".h") and f not in SKIP and "/detail/" not in rel:
                hs.append(rel)
    jobs = []
    for h in sorted(hs):
        pre = PRELUDE.get(os.path.basename(h), "")
        src = os.path.join(ctx.tmp, "header_" + re.sub(r"\W", "_", h) + ".cpp")
        with open(src, "w") as f:
            f.write('%s#include "%s"\n#include "%s"\nint unit() { return 0; }\n' % (pre, h, h))
        for std in HEADER_STDS:
            for cxx, extra in (("g++", []), ("clang++", GCEM)):
                for exc in EXC + HALF:
                    jobs.append((h, [cxx, "-std=" + std, "-pedantic-errors", "-fsyntax-only", "-w"] + extra + exc + ["-I" + root, src], cxx, std))

    def go(j):
        h, cmd, cxx, std = j
        rc, _, err = compile_proc(ctx, cmd, 200, True)
        return j, rc, err
    for (h, cmd, cxx, std), rc, err in ctx.pool.map(go, jobs):
        ctx.evaluations += 1
        if rc == 0:
            ctx.count("headers compiled alone")
            ctx.distinct.add(hash((h, cxx, std)))
            continue
        if rc is None or rc < 0 or not ctx.toolchain_ok(cxx, std):
            ctx.inconclusive.append("header %s: %s" % (h, err[-200:]))
            continue
        m = re.search(r"^.*error:.*$", err, re.M)
        ctx.violation("config/header/" + h, "%s -std=%s: %s does not compile on its own: %s" % (cxx, std, h, m.group(0) if m else err[-200:]), "headers", {"cmd": cmd}, err[:3000])


def check(ctx):
    from run import REPO, compile_proc, run_proc
    confs = configurations(ctx.tier, ctx.seed)
    traces = list(ctx.pool.map(lambda c: trace(ctx, run_proc, compile_proc, REPO, c, ctx.seed), confs))
    ref = next(((c, t) for c, t in zip(confs, traces) if t and c.exceptions), None)
    if ref is not None:
        for c, t in zip(confs, traces):
            if t is None:
                continue
            ctx.count("configurations")
            if len(ctx.samples) < 24:
                ctx.samples.append("%s: %d entries" % (c, len(t)))
            compare(ctx, c, ref[0], t, ref[1], ctx.seed)
            # both translation units of one program agree as well
            k = t.index("second unit")
            compare(ctx, c, c, t[:k], t[k + 1:], ctx.seed)
            ctx.distinct.update(hash(l) for l in t)
    headers(ctx, compile_proc, REPO)
