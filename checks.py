"""Registry: property id -> units (instrumented programs) and rules."""
SAN = ["-fno-sanitize-recover=all"]
FLAVOURS = {
    # asserts on, address + undefined behaviour sanitizers
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-D_GLIBCXX_ASSERTIONS"] + SAN,
    # as shipped: optimised, no assertions, sanitizers still watching
    "asan-ndebug": ["-O2", "-g", "-DNDEBUG", "-fsanitize=address,undefined"] + SAN,
    # as shipped, uninstrumented
    "release": ["-O2", "-g", "-DNDEBUG"],
    "debug": ["-O0", "-g"],
    "O3": ["-O3"],
    "clang-san": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"] + SAN,
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}

CHECKS = {}
NOT_APPLICABLE = {
    "C34": "variant.h only re-exports mpark::variant, whose sources (a git submodule) are absent here: no execution of it can be observed",
}


def U(name, src, flavour="asan", **kw):
    return dict(name=name, src=src, flavour=flavour, **kw)


def units(Unit, prop):
    return [Unit(**u) for u in CHECKS[prop].get("units", [])]


CHECKS["C01"] = dict(
    technique='runtime monitoring: online refinement check against a deque model under ASan+UBSan',
    note='Every state/operation/second operation for capacities up to 4, random histories for larger ones, sparse memory beyond 2^32 elements; exploration, not proof.',
    units=[U("asan", "cb_model.cpp", "asan", defs=["-DNO_HUGE"]),
           U("ndebug", "cb_model.cpp", "release")],
    rule="Cases: every (capacity<=4, first, count) state x every operation x every argument x every "
         "second operation, random operation histories over ten element types, capacities up to 2^20 "
         "and, on sparse memory, 2^31..2^33. Distinct non-trivial: distinct (capacity, first slot, "
         "size, element type, operation) combinations observed against the deque model.",
)

CHECKS["C02"] = dict(
    technique='runtime monitoring: byte snapshots, guard pages and write protection around every operation, under ASan+UBSan',
    note='Every byte outside the slots an operation may write is compared before/after; random histories over nine element types.',
    units=[U("asan", "cb_memory.cpp", "asan"), U("ndebug", "cb_memory.cpp", "release"),
           U("large-asan", "cb_large.cpp", "asan", defs=["-DPART=2"]), U("large-ndebug", "cb_large.cpp", "release", defs=["-DPART=2"])],
    rule="Cases: random operation histories over nine element types with the buffer flush against an "
         "inaccessible page; each operation is one evaluation, judged by a byte snapshot of the whole "
         "arena before/after and by write protection. Distinct non-trivial: distinct (capacity, first "
         "slot, size, element type, operation, argument).",
)
CHECKS["C03"] = dict(
    technique='runtime monitoring: crash points after every operation, adapter rebuilt (same memory, byte copy, other process) and compared with the model',
    note='Every state for small capacities and random histories; the adapter object is discarded at every point.',
    units=[U("asan", "cb_reattach.cpp", "asan"), U("ndebug", "cb_reattach.cpp", "release"),
           U("large-asan", "cb_large.cpp", "asan", defs=["-DPART=3"]), U("large-ndebug", "cb_large.cpp", "release", defs=["-DPART=3"])],
    rule="Cases: every (capacity, first, count, constructor) state plus random histories with a crash "
         "point after every operation (adapter rebuilt from raw_index/size on the same memory, on a "
         "byte copy, or in another process after the writer exited). Distinct non-trivial: distinct "
         "(state, operation, persisted index) crash points.",
)
CHECKS["C07"] = dict(
    technique='runtime monitoring: element-wise twin and exactly sized external arrays under ASan+UBSan',
    note='All small states x counts x range starts, seven element sizes, plus random histories.',
    units=[U("asan", "cb_bulk.cpp", "asan"), U("ndebug", "cb_bulk.cpp", "release"),
           U("large-asan", "cb_large.cpp", "asan", defs=["-DPART=7"]), U("large-ndebug", "cb_large.cpp", "release", defs=["-DPART=7", "-DHUGE_BULK"]),
           U("kinds", "cb_kinds.cpp", "asan", defs=["-DBULK_ONLY"])],
    rule="Cases: every (capacity, first, size, bulk operation, count, range start) for small capacities "
         "and seven element sizes next to an element-wise twin, plus random bulk histories; external "
         "arrays are exactly sized heap blocks. Distinct non-trivial: distinct such tuples.",
)

CHECKS["C04"] = dict(
    technique='runtime monitoring: online registry of live objects and exact event counts under ASan+UBSan',
    note='Every (capacity,first,count) x operation for small capacities and random histories over four instrumented element types, and every state x operation for eighteen shapes of element type (which special members are trivial, deleted, virtual; empty, final, aggregate).',
    units=[U("asan", "cb_lifetime.cpp", "asan"), U("ndebug", "cb_lifetime.cpp", "release"),
           U("kinds-asan", "cb_kinds.cpp", "asan"), U("kinds-clang", "cb_kinds.cpp", "clang-san", cxx="clang++"), U("kinds-ndebug", "cb_kinds.cpp", "release"),
           U("large-asan", "cb_large.cpp", "asan", defs=["-DPART=4"]), U("large-ndebug", "cb_large.cpp", "release", defs=["-DPART=4"])],
    rule="Cases: every (capacity, first, count) state x operation x argument plus random histories over "
         "four instrumented element types; each operation is one evaluation, judged by an online "
         "registry of live objects by address and by exact construction/copy/move/destruction counts. "
         "Distinct non-trivial: distinct (element type, capacity, first slot, size, operation).",
)
CHECKS["C05"] = dict(
    technique='runtime monitoring with fault injection at every element construction',
    note='Every construction in every state of small buffers is made to throw once; state compared before/after.',
    level="fault_enumeration",
    units=[U("asan", "cb_faults.cpp", "asan"), U("ndebug", "cb_faults.cpp", "release"),
           U("large-asan", "cb_large.cpp", "asan", defs=["-DPART=5"]), U("large-ndebug", "cb_large.cpp", "release", defs=["-DPART=5"])],
    rule="Fault points: the element construction of every push/emplace at every (capacity, first, size) "
         "state, and every at() position class; one evaluation per injected fault or at() call. Distinct "
         "non-trivial: distinct (capacity, first slot, size, operation) fault points and at() states.",
)
CHECKS["C06"] = dict(
    technique='runtime monitoring: iterator algebra oracle over all position pairs and standard algorithms next to std::vector, ASan+UBSan',
    note='All states with all pairs of positions for small capacities; algorithms on random contents.',
    units=[U("asan", "cb_iter.cpp", "asan"), U("ndebug", "cb_iter.cpp", "release"),
           U("large-asan", "cb_large.cpp", "asan", defs=["-DPART=6"]), U("large-ndebug", "cb_large.cpp", "release", defs=["-DPART=6"])],
    rule="Cases: every (capacity, first, count) state with all pairs of positions and all iterator kinds "
         "(one evaluation per state), plus standard algorithms next to a std::vector (one per run). "
         "Distinct non-trivial: distinct states per element size, distinct (state, algorithm).",
)

# --- varint ------------------------------------------------------------------
CHECKS["C08"] = dict(
    technique="runtime monitoring: exhaustive/hostile workload under ASan+UBSan, online comparison with an independent reference codec",
    note="Every 8/16-bit value, boundaries and random values of wider types (all 2^32 in thorough), every overload and iterator kind; the oracle is a division-based codec in 128-bit arithmetic.",
    units=[U("asan", "varint_round.cpp", "asan"),
           U("release", "varint_round.cpp", "release", defs=["-DFULL32"]),
           U("clang", "varint_round.cpp", "clang-san", cxx="clang++")],
    rule="One evaluation per value round trip. Distinct non-trivial: distinct (type, value) and distinct "
         "concatenated sequences judged against the reference codec.",
)
CHECKS["C09"] = dict(
    technique="runtime monitoring: hostile byte strings under ASan+UBSan with guard pages and access-recording iterators against a decode oracle",
    note="All byte strings up to length 2 (3 in thorough), all last bytes at every width boundary, random/mutated/truncated strings; reads are confined by a guard page and recorded one by one.",
    units=[U("asan", "varint_bytes.cpp", "asan"), U("release", "varint_bytes.cpp", "release"),
           U("clang", "varint_bytes.cpp", "clang-san", cxx="clang++")],
    rule="One evaluation per (byte string, target type). Distinct non-trivial: distinct byte strings.",
)
CHECKS["C10"] = dict(
    technique="runtime monitoring: guard pages, canaries and write-recording iterators under ASan+UBSan",
    note="Every room 0..size+3 for boundary and random values of every integer type; writes are observed by guard page, by canary bytes on both sides and by a recording iterator.",
    units=[U("asan", "varint_bound.cpp", "asan"), U("release", "varint_bound.cpp", "release"),
           U("clang", "varint_bound.cpp", "clang-san", cxx="clang++")],
    rule="One evaluation per (type, value, room). Distinct non-trivial: distinct such triples.",
)

# --- function ----------------------------------------------------------------
CHECKS["C11"] = dict(
    technique="runtime monitoring: call traces through the wrapper compared with direct calls under ASan+UBSan",
    note="Argument/result categories, ~30 kinds of target, exceptions and random call/move histories next to a directly called twin; exploration over a fixed catalogue of signatures.",
    units=[U("asan", "fn_call.cpp", "asan"), U("release", "fn_call.cpp", "release"),
           U("clang", "fn_call.cpp", "clang-san", cxx="clang++", std="c++20")],
    rule="One evaluation per call compared with its direct counterpart. Distinct non-trivial: distinct "
         "(catalogue group, value) and distinct twin histories.",
)
CHECKS["C12"] = dict(
    technique="runtime monitoring: online registry of live targets and event counts over operation histories, ASan+UBSan",
    note="All three-operation sequences over two functions plus random histories over four, four target types, ownership chains and captured resources.",
    units=[U("asan", "fn_life.cpp", "asan"), U("release", "fn_life.cpp", "release"),
           U("clang", "fn_life.cpp", "clang-san", cxx="clang++")],
    rule="One evaluation per operation after which the registry was compared with the model. Distinct "
         "non-trivial: distinct (population state, operation, operands).",
)
_NOEX = ["-fno-exceptions", "-DNOEX=1"]
CHECKS["C13"] = dict(
    technique="runtime monitoring: online emptiness model over operation histories, both exception configurations, ASan+UBSan",
    note="All three-operation sequences, random histories, 18 signatures; with -fno-exceptions every empty call runs in a child whose termination is observed; two translation units must agree.",
    units=[U("asan", "fn_empty.cpp", "asan", objs=[("fn_empty_tu.cpp", [])]),
           U("release", "fn_empty.cpp", "release", objs=[("fn_empty_tu.cpp", [])]),
           U("noexcept", "fn_empty.cpp", "release", flags=_NOEX, objs=[("fn_empty_tu.cpp", [])]),
           U("noexcept-nortti", "fn_empty.cpp", "debug", flags=_NOEX + ["-fno-rtti"], std="c++14", objs=[("fn_empty_tu.cpp", [])]),
           U("mixed-std", "fn_empty.cpp", "debug", std="c++17", objs=[("fn_empty_tu.cpp", {"flags": ["-std=c++11"], "defs": []})]),
           U("clang", "fn_empty.cpp", "clang-san", cxx="clang++", std="c++14", objs=[("fn_empty_tu.cpp", [])])],
    rule="One evaluation per emptiness comparison or empty call. Distinct non-trivial: distinct "
         "(signature, way of becoming empty) and (emptiness state, operation, operands).",
)
CHECKS["C14"] = dict(
    technique="runtime monitoring: address traces of every target operation, byte snapshots and guard pages under ASan+UBSan (alignment)",
    note="8 alignments x 12 capacities x up to 16 target sizes/alignments, three placements each incl. minimally aligned and flush against inaccessible pages.",
    units=[U("%s%d" % (fl.split("-")[0], p), "fn_place.cpp", fl, defs=["-DPART%d" % p], cxx="clang++" if fl == "clang-san" else None)
           for p, fl in ((0, "asan"), (1, "asan"), (2, "asan"), (1, "release"), (2, "clang-san"))],
    rule="One evaluation per placement of a (capacity, alignment, target size, target alignment) "
         "combination. Distinct non-trivial: distinct combinations x placement x constness.",
)

# --- small utilities -----------------------------------------------------------
CHECKS["C15"] = dict(
    technique="runtime monitoring with injected throwing moves: registry of live values and ownership over copy/move chains, ASan+UBSan",
    note="Random copy/move chains over four value types (move-only, throwing), lambdas in std::function, containers as values.",
    units=[U("asan", "wrap_move.cpp", "asan"), U("release", "wrap_move.cpp", "release"),
           U("clang", "wrap_move.cpp", "clang-san", cxx="clang++", std="c++20")],
    rule="One evaluation per transfer. Distinct non-trivial: distinct (population size, source, kind, "
         "fault, ownership) and distinct wrapped lambda values.",
)
CHECKS["C16"] = dict(
    technique="runtime monitoring: lock/unlock trace checker on all exit paths; ThreadSanitizer and exclusion counters under 4-thread stress",
    note="Well-nestedness of every recorded trace, throwing locks, random nesting programs; real schedules only (about 200 runs, distinct interleavings counted).",
    units=[U("asan", "lock.cpp", "asan", libs=["-pthread"]),
           U("tsan", "lock.cpp", "tsan", libs=["-pthread"]),
           U("release", "lock.cpp", "release", libs=["-pthread"])],
    rule="One evaluation per guarded scope. Distinct non-trivial: distinct lock traces and distinct "
         "interleavings of critical sections between threads.",
)
CHECKS["C17"] = dict(
    technique="runtime monitoring: every allocator entry point of the process intercepted while random workloads run",
    note="malloc family interposed in the binary (operator new goes through it); armed around random histories of every component in four configurations.",
    units=[U("O0", "noalloc.cpp", "debug"),
           U("O2", "noalloc.cpp", "release"),
           U("noexcept", "noalloc.cpp", "release", flags=["-fno-exceptions", "-fno-rtti"]),
           U("cxx11", "noalloc.cpp", "debug", std="c++11")],
    rule="One evaluation per armed workload section. Distinct non-trivial: distinct (component, capacity or seed).",
)

# --- filter responses ----------------------------------------------------------
_ORDERS = list(range(1, 17)) + [20, 24, 30]


def _orders(orders, defs, flags=("-O0",)):
    return [("filt_order.cpp", {"flags": list(flags), "defs": ["-DORDER=%d" % n] + defs}) for n in orders]


for _i, (_p, _t) in enumerate((("C19", "Butterworth"), ("C20", "Chebyshev I"), ("C21", "Chebyshev II"), ("C22", "Bessel"))):
    CHECKS[_p] = dict(
        technique="runtime monitoring: designs executed over random/boundary parameters, complex response compared with an independent long double oracle; ASan+UBSan",
        note="Orders 1..16,20,24,30 (%s), random cutoff/rate/ripple incl. both extremes, complex response (magnitude and phase) of all three output forms at 24 frequencies per design with a running rounding-error bound; exploration." % _t,
        units=[U("resp", "filt_resp.cpp", "release", defs=["-DFAMILY=%d" % _i],
                 objs=_orders(_ORDERS, ["-DFAMILIES=%d" % (1 << _i)])),
               U("resp-O2", "filt_resp.cpp", "release", defs=["-DFAMILY=%d" % _i],
                 objs=_orders(range(1, 9), ["-DFAMILIES=%d" % (1 << _i)], ["-O2"])),
               U("asan", "filt_resp.cpp", "asan", defs=["-DFAMILY=%d" % _i, "-DLIGHT"],
                 objs=_orders(range(1, 10), ["-DFAMILIES=%d" % (1 << _i)], ["-O0"]))],
        rule="One evaluation per (design, frequency). Distinct non-trivial: distinct (order, kind, cutoff, ripple) designs.",
    )
for _i, _p in enumerate(("C19", "C20", "C21")):
    CHECKS[_p]["units"].append(U("prototypes", "filt_proto.cpp", "release", flags=["-O0", "-ftemplate-depth=2000"], defs=["-DFAMILY=%d" % _i]))
    CHECKS[_p]["technique"] += "; prototype poles, zeros and DC gain of orders 1..100 against their closed forms"
CHECKS["C22"]["units"].append(U("poles", "filt_poles.cpp", "release", flags=["-O0", "-ftemplate-depth=2000"],
                               objs=[("filt_poles.cpp", {"flags": ["-O2"], "defs": ["-DMATH"]})]))
CHECKS["C22"]["technique"] += "; every pole of orders 1..100 checked against the reverse Bessel polynomial in 120-digit arithmetic"
CHECKS["C23"] = dict(
    technique="runtime monitoring: designs over extreme parameters judged by the Jury stability test, scaling twins and recorded impulse responses; ASan+UBSan",
    note="All four families, orders 1..12,16,20,30 (prototypes of orders 1..100), cutoff/rate ratios 1e-6..0.499999; polynomial stability only for orders up to 6 (higher ones are numerically meaningless); exploration.",
    units=[U("stable", "filt_stable.cpp", "release", objs=_orders(list(range(1, 13)) + [16, 20, 30], [])),
           U("asan", "filt_stable.cpp", "asan", objs=_orders([1, 2, 3, 4, 5, 6, 8, 9], [])),
           U("prototypes", "filt_proto.cpp", "release", flags=["-O0", "-ftemplate-depth=2000"], defs=["-DFAMILY=4"])],
    rule="One evaluation per design. Distinct non-trivial: distinct (family, order, kind, cutoff, ripple) designs.",
)
CHECKS["C24"] = dict(
    technique="runtime monitoring: every section explained by one pair of the design's poles and one of its zeros (exact cover search); ASan+UBSan",
    note="Random mixes of real/complex/repeated poles and zeros of orders 1..12, as digital sets and as user-supplied analog prototypes (24 shapes), and the four families; both gain modes; exploration.",
    units=[U("%s%d" % (fl, p), "filt_sos.cpp", fl, defs=["-DPART=%d" % p]) for fl in ("release", "asan") for p in (0, 1, 2)],
    rule="One evaluation per design judged. Distinct non-trivial: distinct pole/zero sets.",
)
CHECKS["C25"] = dict(
    technique="runtime monitoring: instance outputs against the direct-form difference equation, exact in a ring/integers and bounded in floating point; ASan+UBSan with dirty memory",
    note="Orders 1..11,13,16,20, poly and SOS, six value types incl. Z/2^64 with unrelated coefficients (exact equality), copies taken mid-stream, linearity/causality/time invariance; exploration over input sequences.",
    units=[U("%s%d" % (fl, p), "filt_diff.cpp", fl, defs=["-DPART=%d" % p] + (["-DLIGHT"] if p and fl != "debug" else [])) for fl in ("release", "asan", "debug") for p in (0, 1)],
    rule="One evaluation per instance run. Distinct non-trivial: distinct output traces.",
)
CHECKS["C26"] = dict(
    technique="runtime monitoring: interleaved and threaded instances compared bit for bit with solo runs, designs in write-protected pages; ThreadSanitizer, ASan+UBSan",
    note="Random interleavings of up to 31 instances over 27 designs and 2..5 threads under TSan; real schedules only (distinct interleavings counted).",
    units=[U("asan", "filt_indep.cpp", "asan", libs=["-pthread"]),
           U("tsan", "filt_indep.cpp", "tsan", libs=["-pthread"]),
           U("release", "filt_indep.cpp", "release", libs=["-pthread"])],
    rule="One evaluation per interleaving or threaded run. Distinct non-trivial: distinct interleavings of samples between instances/threads.",
)


def _ct(ctx):
    """The constants of the compile-time designs come from the seed."""
    from run import Unit
    seeds = [ctx.seed] if ctx.tier == "quick" else [ctx.seed + 1000 * i for i in range(12)]
    us = []
    for s in seeds:
        d = ["-DSEED=%d" % s]
        us += [Unit("p%d-%d" % (p, s), "filt_ct.cpp", "release", defs=d + ["-DPART=%d" % p]) for p in (0, 1, 2)]
        us += [Unit("O0-%d" % s, "filt_ct.cpp", "asan", flags=["-O0"], defs=d + ["-DPART=0"]),
               Unit("cxx11-%d" % s, "filt_ct.cpp", "debug", std="c++11", defs=d + ["-DPART=0"]),
               Unit("cxx20-%d" % s, "filt_ct.cpp", "debug", std="c++20", defs=d + ["-DPART=1"])]
    ctx.run_units(us)


CHECKS["C27"] = dict(
    technique="runtime monitoring: designs and small computations evaluated by the compiler compared with the same evaluated at run time from laundered parameters",
    note="184 designs over four families, orders 1..12, cutoffs 1e-5..0.49999 of fs, six design/value type pairs and ~1400 vector/complex/poly/varint expressions per seed (12 seeds in thorough), C++11/17/20; GCC only (clang has no constexpr math here).",
    custom=[_ct],
    rule="One evaluation per design. Distinct non-trivial: distinct designs and expression operands.",
)
CHECKS["C28"] = dict(
    technique="runtime monitoring: converted coefficients and filtering compared with design-precision twins for built-in and user-defined fixed-point types (every operation counted); ASan+UBSan",
    note="Twelve design/value type pairs, four families, both output forms and gain modes; a counting fixed-point class records that arithmetic happens in it; exploration.",
    units=[U("%s%d" % (fl, p), "filt_types.cpp", fl, defs=["-DPART=%d" % p]) for fl in ("release", "asan") for p in (0, 1, 2, 3)],
    rule="One evaluation per design or instance run. Distinct non-trivial: distinct designs and output traces.",
)


def _records(ctx):
    import debugrec
    debugrec.check(ctx)


CHECKS["C29"] = dict(
    technique="runtime monitoring: records of generated programs read back with the repository's parser script and compared with the running program's own coefficients",
    note="Random mixes of 1..40 records (families, orders, forms, names of 0..300 characters incl. UTF-8), eight compiler configurations, object files and executables; pyelftools replaced by a stub ELF reader; GCC only.",
    custom=[_records],
    rule="One evaluation per record printed. Distinct non-trivial: distinct records.",
)
CHECKS["C30"] = dict(
    technique="runtime monitoring: every vector operation compared with a std::vector model over all positions, free term arithmetic and operand watches; ASan+UBSan",
    note="Sizes 0..7, 12, 17, 33 (and 257, 300) with all positions (<=6) or strided ones, int, string, nested, complex, NaN/signed zero contents, a term algebra making operand order visible; random contents.",
    units=[U("%s%d" % (fl, p), "vec_ops.cpp", fl, defs=["-DPART=%d" % p], flags=["-O0"] if fl == "asan" else ["-O1"]) for fl in ("release", "asan") for p in (0, 1, 2)] +
          [U("large", "vec_ops.cpp", "debug", defs=["-DPART=3"])],
    rule="One evaluation per operation result compared. Distinct non-trivial: distinct (element type, size, contents).",
)
CHECKS["C31"] = dict(
    technique="runtime monitoring: complex arithmetic compared with __float128, convolution and expansion with exact ring arithmetic (integers mod 2^64, Gaussian integers); ASan+UBSan",
    note="Random operands of three precisions over the whole exponent range, extreme divisions, all convolution sizes up to 8x8 and some up to 260x259, expansions of 0..20, 65 and 258 roots; exploration.",
    units=[U("large", "poly_large.cpp", "debug"), U("asan", "cplx.cpp", "asan", flags=["-O0"], libs=["-lquadmath"]),
           U("ndebug", "cplx.cpp", "release", libs=["-lquadmath"]),
           U("cxx11", "cplx.cpp", "debug", std="gnu++11", libs=["-lquadmath"]),
           U("cxx20", "cplx.cpp", "release", flags=["-O1"], std="gnu++20", libs=["-lquadmath"])],
    rule="One evaluation per result compared. Distinct non-trivial: distinct operand pairs, coefficient vectors and root sets.",
)


def _types(ctx):
    import typeutil
    typeutil.check(ctx)


CHECKS["C32"] = dict(
    technique="runtime monitoring: answers printed by generated programs in four language standards and two compilers compared with the standard library's",
    note="Random questions from a catalogue of 34 functors x qualifiers and 34 other types x 32 argument lists x 37 result types, random sequences/ranges/conjunctions/type lists; member pointers and volatile void excluded.",
    custom=[_types],
    rule="One evaluation per question and build. Distinct non-trivial: distinct questions.",
)
CHECKS["C33"] = dict(
    technique="runtime monitoring: everything streamed is read back by an independent parser (structure, signs, number tokens, values); ASan+UBSan",
    note="33 types (complex, nested vectors/arrays of sizes 0..7, sections, zero/pole/gain sets, fixed point through a stand-in for the absent fpm library) x random stream formats and values incl. -0, infinities and NaN.",
    units=[U("asan", "streams.cpp", "asan"), U("ndebug", "streams.cpp", "release"),
           U("cxx11", "streams.cpp", "debug", std="c++11"), U("cxx20", "streams.cpp", "debug", std="c++20")],
    rule="One evaluation per streamed value. Distinct non-trivial: distinct texts.",
)


CHECKS["C35"] = dict(
    technique="runtime monitoring: workloads of every component give the same results alone, in concurrent threads (ThreadSanitizer), interrupted by a timer signal whose handler uses the library, and nested inside of user code the library calls; ASan+UBSan",
    note="Seven workload families; every pair is nested at random calls of user code and interrupted at random instructions; 2..6 threads on real schedules.",
    units=[U("tsan", "shared.cpp", "tsan", defs=["-DNO_SIGNALS"], libs=["-pthread"]),
           U("asan", "shared.cpp", "asan", libs=["-pthread"]),
           U("release", "shared.cpp", "release", libs=["-pthread"]),
           U("debug", "shared.cpp", "debug", libs=["-pthread"])],
    rule="One evaluation per nested run, interruption series or threaded run. Distinct non-trivial: distinct (outer, inner, seeds) nestings that took place and threaded runs.",
)


def _config(ctx):
    import config
    config.check(ctx)


CHECKS["C18"] = dict(
    technique="runtime monitoring: recorded traces of one program over all components compared between build configurations (two compilers, four standards, optimisation, exceptions/RTTI, assertions, sanitizers, two translation units)",
    note="19 configurations per quick run, all of about 200 in thorough; clang (and a GCC variant) use a stand-in for the absent gcem; every public header compiled alone in 32 configurations.",
    custom=[_config],
    rule="One evaluation per trace entry compared or header compiled. Distinct non-trivial: distinct trace entries and header builds.",
)


def _more_builds():
    """The header-only parts once more as C++20 with the other optimisation
    levels, and with clang where that compiles them: code selected by language
    standard or compiler must keep the property too."""
    for p, src in (("C01", "cb_model.cpp"), ("C02", "cb_memory.cpp"), ("C03", "cb_reattach.cpp"), ("C04", "cb_lifetime.cpp"),
                   ("C05", "cb_faults.cpp"), ("C06", "cb_iter.cpp"), ("C07", "cb_bulk.cpp")):
        CHECKS[p]["units"] += [U("cxx20", src, "O3", std="c++20", defs=["-DNO_HUGE"] if p == "C01" else []),
                               U("clang", src, "clang-san", cxx="clang++", defs=["-DNO_HUGE"] if p == "C01" else [])]
    for p, src in (("C08", "varint_round.cpp"), ("C09", "varint_bytes.cpp"), ("C10", "varint_bound.cpp"), ("C11", "fn_call.cpp"),
                   ("C12", "fn_life.cpp"), ("C15", "wrap_move.cpp")):
        CHECKS[p]["units"].append(U("cxx20", src, "O3", std="c++20"))
    CHECKS["C16"]["units"].append(U("cxx20", "lock.cpp", "O3", std="c++20", libs=["-pthread"]))
    CHECKS["C17"]["units"].append(U("cxx20", "noalloc.cpp", "O3", std="c++20"))
    CHECKS["C13"]["units"].append(U("cxx20", "fn_empty.cpp", "O3", std="c++20", objs=[("fn_empty_tu.cpp", [])]))
    # the oldest standard the library supports
    for p, src in (("C04", "cb_kinds.cpp"), ("C08", "varint_round.cpp"), ("C09", "varint_bytes.cpp"), ("C10", "varint_bound.cpp"),
                   ("C14", "fn_place.cpp"), ("C30", "vec_ops.cpp")):
        CHECKS[p]["units"].append(U("cxx11", src, "O3", std="c++11", defs=["-DPART0"] if p == "C14" else []))
    CHECKS["C13"]["units"].append(U("cxx11", "fn_empty.cpp", "O3", std="c++11", objs=[("fn_empty_tu.cpp", [])]))
    CHECKS["C05"]["units"].append(U("cxx14", "cb_faults.cpp", "O3", std="c++14"))


_more_builds()
