"""C32: generated programs ask the back-ported type utilities and (in C++17/20)
the standard ones the same random questions; the answers are compared across
language standards and compilers."""
import os
import random
import re

PRE = r"""
#include <embedded/type_traits.h>
#include <embedded/typelist.h>
#include <embedded/type_traits/conjunction.h>
#include <embedded/type_traits/is_invocable.h>
#include <embedded/utility/integer_sequence.h>
#include <cstddef>
#include <cstdio>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
struct MO { MO(int = 0) {} MO(MO&&) {} MO& operator=(MO&&) { return *this; } };
struct CP { CP() {} CP(CP const&) {} };
struct B { virtual ~B() {} };
struct D : B {};
struct PB {};
struct PD : private PB {};
struct Abs { virtual void f() = 0; };
struct Cnv { Cnv(int) {} };
struct Exp { explicit Exp(int) {} };
struct ToInt { operator int() const { return 1; } };
struct ExToBool { explicit operator bool() const { return true; } };
struct Empty {};
struct Inc;
enum En { en0 };
enum class Ec { e0 };
union Un { int i; };
struct F0 { int operator()(); };
struct F1 { int operator()() const; };
struct F2 { int operator()() &; };
struct F3 { int operator()() &&; };
struct F4 { int operator()() const&; long operator()() &&; };
struct F5 { void operator()(int); };
struct F6 { MO operator()(MO); };
struct F7 { MO&& operator()(MO&&); };
struct F8 { int& operator()(int&); };
struct F9 { int const& operator()(int const&) const; };
struct F10 { int&& operator()(int&&); };
struct F11 { template <class... A> int operator()(A&&...) const; };
struct F12 { int operator()(int, int = 3); };
struct F13 { int operator()(...); };
struct F14 { D* operator()(B*); };
struct F15 { int operator()() = delete; };
class F16 { int operator()(); };
struct F17 { int operator()(int) const; std::string operator()(std::string) const; };
struct F18 { Cnv operator()(Cnv); };
struct F19 { ToInt operator()(); };
struct F20 { ExToBool operator()() const; };
struct F21 { std::nullptr_t operator()(std::nullptr_t); };
struct F22 { B& operator()(D&); };
struct F23 { void operator()() const; };
struct F24 { using P = int (*)(int); operator P() const; };
struct F25 { Ec operator()(En); };
struct F26 { template <class T> T operator()(T) const; };
struct F27 { int operator()(int) const volatile; };
struct F28 : F1 {};
struct F29 : private F1 {};
struct F30 { const char* operator()(char const*); };
struct F31 { PD* operator()(); };
struct F32 { template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type> long operator()(T) const; };
struct F33 { CP const& operator()() const; };
template <class... T> struct Box {};
struct NoValue {};
struct HasType : std::true_type { typedef int marker; };
struct Weird { static constexpr int value = 7; };
struct WeirdZero { static constexpr int value = 0; typedef Weird marker; };
template <bool V> struct Tag : std::integral_constant<bool, V> {};
template <class T> struct Poison { static_assert(sizeof(T) == 0, "instantiated"); static constexpr bool value = T::value; };
"""

FNS = ["F%d" % i for i in range(34)]
QUAL = ["%s", "%s", "%s&", "%s const&", "%s const", "%s&&", "%s const&&"]
PLAIN = ["int(*)()", "int(&)(int)", "void(*)()", "int(int)", "int&(*)(int&)", "MO(*)(MO)", "MO(&&)(MO&&)", "void(*)(...)",
         "std::string(*)(std::string const&)", "double(*const)(double)", "double(*&)(double)", "B*(*)(D*)", "Un(*)(Un)", "int const(*)()",
         "int", "int*", "void*", "Empty", "En", "Ec", "void", "const void", "int[3]", "int[]", "std::nullptr_t", "int(**)()", "Un", "Inc*", "std::string",
         "Box<int>", "int const&", "Abs&", "decltype(nullptr)&"]
ARGS = [[], [], ["int"], ["int&"], ["int const&"], ["int&&"], ["double"], ["MO"], ["MO&"], ["MO const&"], ["D*"], ["B*"], ["D&"], ["char const*"],
        ["std::string"], ["int", "int"], ["int", "double", "char"], ["std::nullptr_t"], ["void"], ["ToInt"], ["Cnv"], ["En"], ["Ec"], ["Un"], ["Empty"],
        ["int[3]"], ["int(&)[3]"], ["int()"], ["Inc*"], ["short"], ["bool"], ["PD*"]]
RES = ["void", "const void", "int", "const int", "long", "double", "bool", "char", "short", "int&", "int const&", "int&&", "MO", "MO&", "MO&&", "MO const&",
       "B*", "D*", "B&", "D&", "Cnv", "Exp", "Empty", "std::string", "En", "Ec", "Abs", "Abs&", "void*", "void const*", "Un", "char const*", "CP", "CP const&", "PB*", "std::nullptr_t", "ToInt"]
MATCH = [("F5", ["int"]), ("F6", ["MO"]), ("F7", ["MO"]), ("F8", ["int"]), ("F9", ["int"]), ("F10", ["int"]), ("F11", ["MO", "int"]), ("F12", ["int"]),
         ("F12", ["int", "int"]), ("F13", ["int", "double"]), ("F14", ["B*"]), ("F17", ["int"]), ("F17", ["std::string"]), ("F18", ["Cnv"]), ("F18", ["int"]),
         ("F21", ["std::nullptr_t"]), ("F22", ["D"]), ("F24", ["int"]), ("F25", ["En"]), ("F26", ["MO"]), ("F26", ["CP"]), ("F27", ["int"]), ("F30", ["char const*"]),
         ("F32", ["int"]), ("F0", []), ("F1", []), ("F2", []), ("F3", []), ("F4", []), ("F23", []), ("F33", []), ("F28", []), ("F29", []),
         ("MO(*)(MO)", ["MO"]), ("MO(&&)(MO&&)", ["MO"]), ("int&(*)(int&)", ["int"]), ("std::string(*)(std::string const&)", ["std::string"]),
         ("double(*&)(double)", ["float"]), ("void(*)(...)", ["int", "MO*"]), ("int(&)(int)", ["short"])]
INTS = [("int", -8, 40), ("short", -5, 9), ("signed char", -128, 127), ("unsigned char", 0, 255), ("unsigned", 0, 60), ("long long", -9, 9),
        ("std::size_t", 0, 300), ("char", 0, 100), ("unsigned short", 0, 65535)]
CONJ_OK = ["std::true_type", "std::false_type", "HasType", "Weird", "WeirdZero", "Tag<true>", "Tag<false>", "std::is_same<int,int>", "std::is_same<int,long>",
           "std::integral_constant<int,4>", "std::integral_constant<int,0>"]
FALSY = {"std::false_type", "WeirdZero", "Tag<false>", "std::is_same<int,long>", "std::integral_constant<int,0>"}
TYPES = ["int", "char", "void", "int&", "int const&", "MO", "Inc", "Box<>", "int[3]", "int()", "B", "Empty", "std::string", "void const*", "Abs"]


def generate(seed, path, nq):
    r = random.Random(seed)
    q = []
    for _ in range(nq):
        if r.random() < 0.75:
            f = r.choice(QUAL) % r.choice(FNS)
        else:
            f = r.choice(PLAIN)
        q.append((r.choice(RES), f, r.choice(ARGS)))
    # functors with the arguments they are made for, in every category
    for f, args in MATCH:
        for _ in range(6):
            a = [r.choice(["%s", "%s", "%s&", "%s const&", "%s&&", "%s const"]) % x for x in args]
            for R in ("void", "const void", r.choice(RES), r.choice(RES)):
                q.append((R, r.choice(QUAL) % f if f.startswith("F") else f, a))
    seqs = []
    for _ in range(30):
        t, lo, hi = r.choice(INTS)
        b = r.randint(lo, hi)
        e = min(hi, b + r.choice([0, 1, 2, 3, 7, 20, 60]))
        seqs.append((t, b, e))
    for t, lo, hi in INTS:  # both ends of each type's range, and empty ones
        seqs += [(t, lo, lo + 2), (t, hi - 2, hi), (t, hi, hi)]
    counts = [("int", n) for n in (0, 1, 2, 5, 33)] + [(r.choice(INTS)[0], r.randrange(0, 100)) for _ in range(12)] + [("std::size_t", r.choice([200, 300, 400]))]
    conj = []
    for _ in range(120):
        items, dead = [], False
        for _ in range(r.randrange(0, 6)):
            if dead and r.random() < 0.6:
                items.append(r.choice(["Poison<int>", "NoValue", "Inc", "void"]))
            else:
                x = r.choice(CONJ_OK)
                items.append(x)
                dead = dead or x in FALSY
        conj.append(items)
    tls = [([r.choice(TYPES) for _ in range(r.randrange(0, 7))], [r.choice(TYPES) for _ in range(r.randrange(0, 7))]) for _ in range(60)]
    s = PRE
    s += "#if __cplusplus >= 201703L\n#define STD 1\n#else\n#define STD 0\n#endif\n"

    def inv(ns):
        return ",\n".join("  %s::is_invocable_r<%s>::value" % (ns, ", ".join([R, f] + a)) for R, f, a in q)
    s += "static const bool inv[] = {\n%s\n};\n#if STD\nstatic const bool sinv[] = {\n%s\n};\n#endif\n" % (inv("embedded"), inv("std"))
    s += r"""
static void line(char const* k, bool const* b, std::size_t n) {
  std::printf("%s ", k);
  for (std::size_t i = 0; i < n; ++i) std::printf("%d", b[i]);
  std::printf("\n");
}
template <class T, T... Is>
static void seq(char const* k, embedded::integer_sequence<T, Is...> s) {
  long long v[] = {0, static_cast<long long>(Is)...};
  std::printf("%s size=%zu sizeof=%zu same=%d :", k, s.size(), sizeof...(Is), std::is_same<T, typename decltype(s)::value_type>::value);
  for (std::size_t i = 1; i <= sizeof...(Is); ++i) std::printf(" %lld", v[i]);
  std::printf("\n");
}
template <class T, class S>
static void typed(S) {
  if (!std::is_same<typename S::value_type, T>::value) std::printf("value_type differs\n");
}
#if STD
template <class T, T... Is>
static void sseq(char const* k, std::integer_sequence<T, Is...> s) {
  std::printf("%s size=%zu sizeof=%zu same=1 :", k, s.size(), sizeof...(Is));
  long long v[] = {0, static_cast<long long>(Is)...};
  for (std::size_t i = 1; i <= sizeof...(Is); ++i) std::printf(" %lld", v[i]);
  std::printf("\n");
}
#endif
template <class C, class Base>
static void conj(char const* k) {
  std::printf("%s %lld base=%d type=%d\n", k, static_cast<long long>(C::value), std::is_base_of<Base, C>::value, std::is_same<decltype(C::value), decltype(Base::value)>::value);
}
int main() {
  line("inv", inv, sizeof inv);
#if STD
  line("std:inv", sinv, sizeof sinv);
#endif
"""
    for i, (t, n) in enumerate(counts):
        s += '  seq("seq%d", embedded::make_integer_sequence<%s, %d>{}); typed<%s>(embedded::make_integer_sequence<%s, %d>{});\n' % (i, t, n, t, t, n)
        s += '#if STD\n  sseq("std:seq%d", std::make_integer_sequence<%s, %d>{});\n#endif\n' % (i, t, n)
    for i, n in enumerate([0, 1, 4, 17, 100, 256, 300, 513]):
        s += '  seq("idx%d", embedded::make_index_sequence<%d>{});\n#if STD\n  sseq("std:idx%d", std::make_index_sequence<%d>{});\n#endif\n' % (i, n, i, n)
    for i, (a, b) in enumerate(tls[:20]):
        s += '  seq("for%d", embedded::index_sequence_for<%s>{});\n#if STD\n  sseq("std:for%d", std::index_sequence_for<%s>{});\n#endif\n' % (i, ", ".join(a), i, ", ".join(a))
    expect = {}
    for i, (t, b, e) in enumerate(seqs):
        s += '  seq("rng%d", embedded::make_integer_range<%s, %d, %d>{}); typed<%s>(embedded::make_integer_range<%s, %d, %d>{});\n' % (i, t, b, e, t, t, b, e)
        expect["rng%d" % i] = "size=%d sizeof=%d same=1 :%s" % (e - b, e - b, "".join(" %d" % x for x in range(b, e)))
    b = r.randrange(0, 300)
    s += '  seq("irng", embedded::make_index_range<%d, %d>{});\n' % (b, b + 40)
    ids = [r.choice([0, 1, 127, 128, 255, 256, 257, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, r.randrange(2**63)]) for _ in range(12)]
    s += '  seq("idxv", embedded::index_sequence<%s>{});\n  static_assert(std::is_same<embedded::index_sequence<%s>, embedded::integer_sequence<std::size_t, %s>>::value, "");\n' % ((", ".join("%du" % x for x in ids),) * 3)
    expect["idxv"] = "size=12 sizeof=12 same=1 :" + "".join(" %d" % x for x in ids)
    expect["irng"] = "size=40 sizeof=40 same=1 :" + "".join(" %d" % x for x in range(b, b + 40))
    for i, items in enumerate(conj):
        base = next((x for x in items if x in FALSY), items[-1] if items else "std::true_type")
        s += '  conj<embedded::conjunction<%s>, %s>("conj%d");\n' % (", ".join(items), base, i)
        s += '#if STD\n  conj<std::conjunction<%s>, %s>("std:conj%d");\n#endif\n' % (", ".join(items), base, i)
    s += '#define TL(...) embedded::typelist<__VA_ARGS__>\n'
    for i, (a, b) in enumerate(tls):
        A, Bl, AB = ", ".join(a), ", ".join(b), ", ".join(a + b)
        s += '  std::printf("tl%d %%d%%d%%d\\n", std::is_same<TL(%s)::append<%s>, TL(%s)>::value, std::is_same<TL(%s)::append<%s>::to<Box>, Box<%s>>::value, std::is_same<TL(%s)::to<std::tuple>, std::tuple<%s>>::value);\n' % (i, A, Bl, AB, A, Bl, AB, A, A)
        expect["tl%d" % i] = "111"
    s += "}\n"
    with open(path, "w") as f:
        f.write(s)
    return q, expect, len(seqs) + len(counts) + 31 + len(conj) + len(tls)


BUILDS = [("g++", "c++11"), ("g++", "c++14"), ("g++", "c++17"), ("g++", "c++20"), ("clang++", "c++11"), ("clang++", "c++14"), ("clang++", "c++17"), ("clang++", "c++20")]


def build(ctx, run_proc, compile_proc, repo, src, seed, cxx, std):
    exe = "%s.%s.%s" % (src, cxx, std)
    cmd = [cxx, "-std=" + std, "-O0", "-w", "-I" + os.path.join(repo, "include"), src, "-o", exe]
    rc, _, err = compile_proc(ctx, cmd, 300, True)
    info = {"seed": seed, "cmd": cmd}
    if rc != 0:
        if rc is None or rc < 0 or not ctx.toolchain_ok(cxx, std):
            ctx.inconclusive.append("compile with %s %s: %s" % (cxx, std, err[-300:]))
            return None
        m = re.search(r"^.*error:.*$", err, re.M)
        ctx.violation("types/compile-%s" % std, "%s -std=%s: valid use does not compile: %s" % (cxx, std, m.group(0) if m else err[-300:]), "types", info, err[:4000])
        return None
    rc, out, err = run_proc([exe], 60)
    if rc != 0:
        ctx.violation("types/run-%s" % std, "%s -std=%s: program ended with %s" % (cxx, std, rc), "types", info)
        return None
    os.unlink(exe)
    ans = {}
    for l in out.splitlines():
        k, _, v = l.partition(" ")
        ans[k] = v
    return ans


def one(ctx, run_proc, compile_proc, repo, seed, nq):
    src = os.path.join(ctx.tmp, "types%d.cpp" % seed)
    q, expect, n = generate(seed, src, nq)
    res = list(ctx.pool.map(lambda b: build(ctx, run_proc, compile_proc, repo, src, seed, *b), BUILDS))
    std = {}
    for b, a in zip(BUILDS, res):
        for k, v in (a or {}).items():
            if k.startswith("std:"):
                std.setdefault(k[4:], []).append(v)
    if "inv" not in std:
        if not ctx.violations:
            ctx.inconclusive.append("no standard answers")
        return
    for b, a in zip(BUILDS, res):
        if a is None:
            continue
        name = "%s -std=%s" % b
        if "value_type" in a:
            ctx.violation("types/value_type", name + ": value_type of a sequence is not the requested type", "types", {"seed": seed})
        for k, v in a.items():
            if k.startswith("std:") or k == "inv" or k == "value_type":
                continue
            want = expect.get(k) or std[k][0]
            ctx.evaluations += 1
            ctx.distinct.add(hash((k, v)))
            if v != want:
                ctx.violation("types/" + re.sub(r"\d", "", k), "%s: %s is '%s', expected '%s'" % (name, k, v[:300], want[:300]), "types", {"seed": seed})
        bad = 0
        for i, c in enumerate(a["inv"]):
            votes = {s[i] for s in std["inv"]}
            if len(votes) > 1:  # the standard libraries differ (dangling references)
                ctx.count("undecided questions")
                continue
            ctx.evaluations += 1
            ctx.count("invocable" if c == "1" else "not invocable")
            ctx.distinct.add(hash(q[i][0] + "|" + q[i][1] + "|" + ",".join(q[i][2])))
            if c not in votes and bad < 3:
                bad += 1
                ctx.violation("types/is_invocable_r", "%s: is_invocable_r<%s> is %s, the standard says %s" % (name, ", ".join([q[i][0], q[i][1]] + q[i][2]), c, votes.pop()), "types", {"seed": seed})
    ctx.samples.append("seed %d: %d is_invocable_r questions, %d others, in %d builds" % (seed, len(q), n, sum(a is not None for a in res)))


def check(ctx):
    from run import REPO, compile_proc, run_proc
    for i in range(4 if ctx.tier == "quick" else 60):
        one(ctx, run_proc, compile_proc, REPO, ctx.seed * 1000 + i, 4000)
