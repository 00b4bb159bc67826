"""C29: generated translation units register random mixes of designs; the
records are read back with the repository's own parser script and compared with
the coefficients and names the same program reports at run time."""
import collections
import os
import random
import re
import struct
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
FAMS = ["butterworth<%d>()", "chebyshev1<%d>(%r)", "chebyshev2<%d>(%r)", "bessel<%d>()"]
HEAD = """#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <cstdio>
namespace es = embedded::signal;
template <typename F, std::size_t N>
void show(es::sos_design<F, N> const& d) {
  std::printf("0 %zu", d.sos().size() * 5);
  for (std::size_t i = 0; i < d.sos().size(); ++i) {
    auto b = d.sos()[i].b(), a = d.sos()[i].a();
    std::printf(" %a %a %a %a %a", double(b[0]), double(b[1]), double(b[2]), double(a[1]), double(a[2]));
  }
}
template <typename F, std::size_t N>
void show(es::poly_design<F, N> const& d) {
  std::printf("1 %zu", 2 * (N + 1));
  for (std::size_t i = 0; i <= N; ++i) std::printf(" %a", double(d.b()[i]));
  for (std::size_t i = 0; i <= N; ++i) std::printf(" %a", double(d.a()[i]));
}
void rec(char const* name) {
  std::printf("\\n@ ");
  for (; *name; ++name) std::printf("%02x", static_cast<unsigned char>(*name));
  std::printf(" ");
}
"""


def c_string(b):
    out, hexed = '"', False
    for x in b:
        c = chr(x)
        if x >= 127 or c in '"\\?':
            out += "\\%03o" % x
        else:
            out += c
    return out + '"'


def rand_name(r):
    n = r.choice([0, 1, 2, 7, 8, 20, 57, 60, 63, 64, 100, 116, 117, 118, 119, 120, 121, 127, 128, 129, 200, r.randrange(0, 300)])
    k = r.randrange(4)
    if k == 0:
        s = "".join(chr(r.randrange(33, 126)) for _ in range(n))
    elif k == 1:
        s = "".join(r.choice("aé€😀ß") for _ in range(n))
    elif k == 2:
        s = ("FILT" * n)[:n]
    else:
        s = "".join(r.choice("abcdef/ ().<>,:") for _ in range(n))
    return "n" + s[1:] if s.startswith(" ") else s  # "  x" would look like a coefficient line


def var_names(r, n):
    stems = ["lp", "lp1", "hp", "f", "libemb", "filter_", "coef_0"]
    names, out = set(), []
    while len(out) < n:
        s = r.choice(stems) + (str(r.randrange(0, 25)) if r.random() < 0.9 else "")
        if s not in names:
            names.add(s)
            out.append(s)
    return out


def generate(seed, path):
    r = random.Random(seed)
    nd = r.choice([1, 2, 3, 5, 8, 12])
    vs = var_names(r, nd)
    src = HEAD
    for v in vs:
        fam = r.randrange(4)
        order = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
        proto = FAMS[fam] % ((order,) if fam in (0, 3) else (order, round(r.uniform(0.2, 3) if fam == 1 else r.uniform(20, 70), 3)))
        dt = r.choice(["double", "double", "float"]) if order < 6 else "double"
        form = "sos" if r.random() < 0.55 else "poly"
        arg = ""
        if form == "sos" and r.random() < 0.4:
            arg = "es::sos_gain::distribute"
        src += "%s auto %s = es::iirfilter<%s>(%d).%spass(es::%s, %r).%s<%s>(%s);\n" % (
            r.choice(["constexpr", "static constexpr", "extern constexpr"]), v, dt, 1000, r.choice(["low", "high"]),
            proto, round(r.uniform(40, 450), 2), form, r.choice(["float", "double"]), arg)
    regs = []
    nr = r.choice([1, nd, nd, nd + 3, 3 * nd, 40])
    line = src.count("\n") + 1
    for i in range(nr):
        v = vs[i % nd] if r.random() < 0.8 else r.choice(vs)
        if r.random() < 0.3:
            line = src.count("\n") + 1
            src += "LIBEMB_DEBUG_FILTER_COEFS(%s);\n" % v
            regs.append((v, "%s (%s:%d)" % (v, path, line)))
        else:
            n = rand_name(r)
            src += "LIBEMB_DEBUG_FILTER_COEFS_NAME(%s, %s);\n" % (v, c_string(n.encode()))
            regs.append((v, n))
        if r.random() < 0.2:
            src += "char pad%d[%d] __attribute__((aligned(1))) = {1};\n" % (i, r.randrange(1, 20))
    src += "int main() {\n"
    for v, n in regs:
        src += "  rec(%s); show(%s);\n" % (c_string(n.encode()), v)
    src += "  std::printf(\"\\n\");\n}\n"
    with open(path, "w") as f:
        f.write(src)
    return len(regs)


def expected(out):
    recs = []
    for line in out.splitlines():
        if not line.startswith("@"):
            continue
        m = re.match(r"@ ([0-9a-f]*) ([01]) (\d+)((?: \S+)*)$", line)
        name = bytes.fromhex(m.group(1))[:118].decode("utf-8", "ignore")
        vals = tuple(struct.pack("<d", float.fromhex(x)) for x in m.group(4).split())
        assert len(vals) == int(m.group(3))
        recs.append((name, int(m.group(2)), vals))
    return recs


LABELS = ["b0", "b1", "b2", "a1", "a2"]


def parsed(out):
    """Back from the text the script printed to (name, structure, values)."""
    recs = []
    for line in out.split("\n"):
        if not line.strip():
            continue
        if not line.startswith("  "):
            if not line.endswith(":"):
                raise ValueError("unexpected line %r" % line)
            recs.append([line[:-1], None, [], 0])
            continue
        m = re.match(r"\s+SOS stage (\d+):$", line)
        if m:
            rec = recs[-1]
            if rec[1] == 1 or int(m.group(1)) != rec[3] + 1 or len(rec[2]) != 5 * rec[3]:
                raise ValueError("stage out of order: %r" % line)
            rec[1] = 0
            rec[3] += 1
            continue
        m = re.match(r"\s+([ab])(\d|\[(\d+)\]) = (\S+)$", line)
        if not m:
            raise ValueError("unexpected line %r" % line)
        rec = recs[-1]
        if m.group(3) is None:
            if rec[1] != 0 or LABELS[len(rec[2]) % 5] != m.group(1) + m.group(2):
                raise ValueError("coefficient out of order: %r" % line)
        else:
            if rec[1] == 0:
                raise ValueError("polynomial coefficient in a SOS record: %r" % line)
            rec[1] = 1
            rec[2].append((m.group(1), int(m.group(3))) + (struct.pack("<d", float(m.group(4))),))
            continue
        rec[2].append(struct.pack("<d", float(m.group(4))))
    res = []
    for name, st, vals, _ in recs:
        if st == 1:
            n = len(vals) // 2
            if [v[:2] for v in vals] != [("b", i) for i in range(n)] + [("a", i) for i in range(n)]:
                raise ValueError("coefficients of %r out of order" % name)
            vals = [v[2] for v in vals]
        res.append((name, st, tuple(vals)))
    return res


FLAGS = [("c++11", ["-O0"]), ("c++17", ["-O2"]), ("c++20", ["-O2", "-fdata-sections"]), ("c++14", ["-O3"]),
         ("c++17", ["-Os", "-fPIC"]), ("c++17", ["-O2", "-DNDEBUG", "-fno-exceptions", "-fno-rtti"]),
         ("c++20", ["-O0", "-g"]), ("gnu++17", ["-O1", "-fno-toplevel-reorder"])]


def one(ctx, run_proc, compile_proc, repo, seed):
    std, flags = FLAGS[seed % len(FLAGS)]
    src = os.path.join(ctx.tmp, "records%d.cpp" % seed)
    nregs = generate(seed, src)
    obj, exe = src[:-4] + ".o", src[:-4]
    cmd = ["g++", "-std=" + std] + flags + ["-I" + os.path.join(repo, "include"), "-c", src, "-o", obj]
    info = {"seed": seed, "std": std, "flags": flags}
    rc, _, err = compile_proc(ctx, cmd, 300)
    if rc != 0:
        if rc is None or rc < 0 or not ctx.toolchain_ok("g++", std):
            ctx.inconclusive.append("compile of records%d: %s" % (seed, err[-300:]))
            return
        m = re.search(r"^.*error:.*$", err, re.M)
        ctx.violation("records/compile", "registering designs does not compile: " + (m.group(0) if m else err[-300:]), "records", info, open(src).read()[-3000:])
        return
    rc, _, err = run_proc(["g++", obj, "-o", exe], 120)
    if rc != 0:
        ctx.violation("records/link", err[-300:], "records", info)
        return
    rc, out, err = run_proc([exe], 60)
    if rc != 0:
        ctx.violation("records/run", "program ended with %s" % rc, "records", info)
        return
    exp = expected(out)
    assert len(exp) == nregs
    env = dict(os.environ, PYTHONPATH=os.path.join(VERIF, "lib", "stubs"), PYTHONDONTWRITEBYTECODE="1",
               PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8")
    for what, f in (("object file", obj), ("executable", exe)):
        rc, out, err = run_proc([sys.executable, os.path.join(repo, "scripts", "parse-filter-coefs.py"), f], 60, env=env)
        if rc != 0:
            ctx.violation("records/script", "the parser script failed on the %s: %s" % (what, err[-300:]), "records", info, err)
            continue
        try:
            got = parsed(out)
        except ValueError as e:
            ctx.violation("records/format", "%s: %s" % (what, e), "records", info, out[-2000:])
            continue
        miss = collections.Counter(exp) - collections.Counter(got)
        extra = collections.Counter(got) - collections.Counter(exp)
        ctx.count("records", len(got))
        ctx.count("coefficients", sum(len(g[2]) for g in got))
        ctx.evaluations += len(got)
        for g in got:
            ctx.distinct.add(hash((g[0], g[1], g[2])))
        if miss or extra:
            def show(c):
                return "; ".join("%r %s %s" % (n, s, [struct.unpack("<d", x)[0] for x in v][:10]) for n, s, v in list(c)[:2]) or "nothing"
            ctx.violation("records/content", "%s: printed %d records for %d designs; missing %s; unexpected %s" % (what, len(got), len(exp), show(miss), show(extra)), "records", info)
    if len(ctx.samples) < 12:
        ctx.samples.append("seed %d: %d records, %s %s" % (seed, nregs, std, " ".join(flags)))


def check(ctx):
    from run import REPO, compile_proc, run_proc
    n = 96 if ctx.tier == "quick" else 1500
    list(ctx.pool.map(lambda i: one(ctx, run_proc, compile_proc, REPO, ctx.seed * 100000 + i), range(n)))
