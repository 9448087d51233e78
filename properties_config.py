"""What each check compiles and runs.  Unit(src, cfg, shard): tests/<src> in configuration cfg."""
from run import Unit


def grid(src, cfgs, shards=(None,), **kw):
    return [Unit(src, c, s, **kw) for s in shards for c in cfgs]


STD3 = ["std-O2-v3", "fb-O2-v3", "std-Os-sse"]
BOTH = ["std-O2-v3", "fb-O2-v3"]
DEEP = STD3 + ["fb-Os-sse", "std-O3-v4", "std-asan", "fb-asan", "clang-std-O2-v3", "clang-fb-Os-sse"]
FB = ["fb-O2-v3"]
FBDEEP = ["fb-O2-v3", "fb-Os-sse", "fb-O3-v4", "fb-ubsan", "fb-asan", "clang-fb-O2-v3"]

CHECKS = {}


def check(prop, src, shards, quick, deep, rule, cases=1200, deep_cases=8000, assumptions=(), gens=(),
          deep_gens=None, max_seconds=40, unit_gen=None, **kw):
    CHECKS[prop] = {
        "rule": rule, "assumptions": list(assumptions),
        "quick": {"units": grid(src, quick, shards, **kw) if src else [], "cases": cases,
                  "max_seconds": max_seconds, "gens": list(gens), "unit_gen": unit_gen},
        "thorough": {"units": grid(src, deep, shards, **kw) if src else [], "cases": deep_cases,
                     "max_seconds": 400, "gens": list(gens if deep_gens is None else deep_gens),
                     "unit_gen": unit_gen},
    }


def huge_units(shard):
    def make(tier, seed):
        if tier == "quick":
            return [Unit("huge.cpp", c, shard, cases=6) for c in (["std-O2-v3"] if shard > 1 else BOTH)]
        return [Unit("huge.cpp", c, shard, cases=20) for c in ("std-O2-v3", "fb-O2-v3", "std-Os-sse", "fb-O3-v4", "std-O3-v4")]
    return make


check("C01", "c01_for_each.cpp", range(6), STD3, DEEP,
      "a case draws a policy, an element type, a range length (clustered around the chunk widths of "
      "the policy), an alignment of the range inside a guarded arena and element values; "
      "non-trivial: at least one chunk was processed; distinct by the drawn choices",
      unit_gen=huge_units(0))
check("C02", "c02_transform.cpp", range(5), STD3, DEEP,
      "a case draws policy, input/output element types, range length, independent placements of "
      "inputs and output (incl. exact overlap) in guarded arenas and values; non-trivial: at least "
      "one output element was due; distinct by the drawn choices",
      unit_gen=huge_units(1))
check("C03", "c03_reduce.cpp", range(7), STD3, DEEP,
      "a case draws policy, element types, length, placement, values, initial value and operations "
      "(sum, bit-xor, product mod 2^n, min, max, user callables); non-trivial: range not empty; "
      "distinct by the drawn choices",
      unit_gen=huge_units(2))
CHECKS["C03"]["quick"]["units"] = [  # the two most expensive shards: not all configurations in quick
    u for u in CHECKS["C03"]["quick"]["units"]
    if (u.shard, u.cfg) not in ((1, "fb-O2-v3"), (2, "fb-O2-v3"), (2, "std-Os-sse"))]
check("C04", "c04_count_if.cpp", range(4), STD3, DEEP,
      "a case draws policy, element type, length, placement, values and predicate; non-trivial: "
      "range not empty and the expected count is neither 0 nor the length, or length 1; distinct by "
      "the drawn choices",
      unit_gen=huge_units(3))
check("C05", "c05_policy.cpp", range(5), STD3, DEEP,
      "a case draws policy, algorithm, element type, length, placement; the callables record position, "
      "width and number of their arguments, elements are tagged with their index; non-trivial: at "
      "least one full chunk fits; distinct by the drawn choices", cases=1500, deep_cases=8000)


def ce_units(tier, seed):
    from gen import cegen
    deep = tier == "thorough"
    us = []
    for k in range(6 if deep else 1):
        for cfg, std in (("std-O2-v3", "gnu++23"), ("fb-O2-v3", "gnu++20"), ("clang-fb-O2-v3", "gnu++23")) + (
                (("std-Os-sse", "gnu++20"), ("fb-Os-sse", "gnu++23")) if deep else ()):
            sh = cegen.sources(seed * 100 + k if deep else seed, "fb-" in cfg, 200, 4)
            us += [Unit("ce", cfg, i + 4 * k, text=t, std=std) for i, t in enumerate(sh)]
    return us


check("C06", None, (), (), (),
      "a program draws algorithm or operation family, element type, width or range length and policy, "
      "and an input whose result is computed in a constant expression; a case evaluates the call at "
      "run time on that input (compared with the constant and with a scalar reference) or on a fresh "
      "input (compared with the reference); non-trivial: every case; distinct by test and the drawn choices",
      cases=40, deep_cases=400, unit_gen=ce_units,
      assumptions=["operations that libstdc++'s <experimental/simd> does not implement as constexpr "
                   "are evaluated for the fallback implementation only"])


def precond_units(tier, seed):
    levels = [-1, 0, 1, 2, 3, 4, 5]
    cf = {"quick": [("fb-O2-v3", levels), ("std-O2-v3", [-1, 5]), ("clang-fb-O2-v3", [5])],
          "thorough": [(c, levels) for c in ("fb-O2-v3", "fb-Os-sse", "fb-O3-v4", "std-O2-v3", "std-Os-sse", "clang-fb-O2-v3",
                                               "clang-std-Os-sse")]}
    return [Unit("c07_precond.cpp", c, k, defs=["-DPBT_LEVEL=%d" % l])
            for c, ls in cf[tier] for k, l in enumerate(ls)]


check("C07", None, (), (), (),
      "a case draws operation, element type, width, index / mask / range length (at, below and far "
      "beyond the limit) and runs the call in a child process; one unit per checking level; plus "
      "programs whose violation is a constant; non-trivial: the call was executed in a child; distinct "
      "by the drawn choices", cases=60, deep_cases=600, unit_gen=precond_units,
      gens=[{"module": "precond"}],
      assumptions=["levels 0 and 1 document undefined behaviour for violations: only conforming calls run there"])
check("C08", "c08_ops.cpp", range(5), FB + ["fb-Os-sse"], FBDEEP,
      "a case draws the operand lanes (boundary values, special floating-point values, random bits) "
      "and the operator; one test per operator family, element type and width; non-trivial: the "
      "operation was defined for at least one lane; distinct by the drawn choices",
      cases=6000, deep_cases=60000)
check("C09", "c09_mem.cpp", range(4), FB + ["fb-Os-sse"], FBDEEP,
      "a case draws lanes, memory contents, the address inside a guarded arena and the alignment "
      "flag, or a history of load/store/subscript steps; non-trivial: at least one element was "
      "transferred; distinct by the drawn choices", cases=6000, deep_cases=60000)
check("C10", "c10_mask.cpp", range(2), FB + ["fb-Os-sse"], FBDEEP,
      "a case draws two bit patterns (sparse, dense, single, none, all) and a lane; non-trivial: "
      "every case; distinct by the drawn choices", cases=6000, deep_cases=60000)
check("C11", "c11_where.cpp", range(3), FB + ["fb-Os-sse"], FBDEEP,
      "a case draws mask, lanes, operand, memory contents and placement, and the operation (or a "
      "history of masked operations); non-trivial: the mask is neither all-false nor all-true, or "
      "the width is 1; distinct by the drawn choices", cases=6000, deep_cases=60000)
check("C12", "c12_reduce.cpp", range(8), FB, FBDEEP,
      "a case draws lanes (boundary, special and random values), a mask (none, single, sparse, dense, "
      "all), and the operation; non-trivial: every case; distinct by the drawn choices",
      cases=3000, deep_cases=30000)
check("C13", "c13_cast.cpp", range(6), FB, FBDEEP,
      "a case draws the source lanes (values around the limits of the target type included); one test "
      "per conversion function, source type, target type and width; non-trivial: at least one lane is "
      "representable in the target; distinct by the drawn choices", cases=3000, deep_cases=30000)
check("C14", "c14_math.cpp", range(6), FB, FBDEEP,
      "a case draws argument lanes (special values, boundary magnitudes, random bits) for one math "
      "function; non-trivial: every case; distinct by the drawn choices", cases=2000, deep_cases=20000)
check("C15", "c15_permute.cpp", range(7), BOTH, DEEP,
      "a case draws lanes, an index function (named permutations with generated parameters and index "
      "functions generated from the seed at compile time) and the operation; non-trivial: the result "
      "has at least one lane from the input; distinct by the drawn choices", cases=1000, deep_cases=4000)
check("C16", "c16_resize.cpp", range(3), STD3, DEEP,
      "a case draws the lanes; one test per source and target width and type; non-trivial: every case; "
      "distinct by the drawn choices", cases=2000, deep_cases=20000)
check("C17", "c17_bitset.cpp", range(2), STD3, DEEP,
      "a case draws a bit pattern (sparse, dense, single, none, all); one test per mask type; "
      "non-trivial: the pattern is neither empty nor full, or the width is 1; distinct by the drawn "
      "choices", cases=3000, deep_cases=30000)
check("C18", "c18_bits.cpp", range(2), STD3, DEEP,
      "a case draws the bit patterns of the operands (special values included) and the operator; one "
      "test per type and width; non-trivial: every case; distinct by the drawn choices",
      cases=3000, deep_cases=30000)
check("C19", "c19_iota_cvt.cpp", range(3), STD3, DEEP,
      "a case draws lanes, values to convert and target types; iota constants of every type and size "
      "are compared per case; non-trivial: at least one value is representable in the target; distinct "
      "by the drawn choices", cases=2000, deep_cases=20000)


def struct_units(test):
    def make(tier, seed):
        from gen import structs
        us = []
        deep = tier == "thorough"
        for c in (DEEP if deep else BOTH):
            shards = structs.sources(seed, 60 if deep else 16, 12 if deep else 6, test)
            us += [Unit("structs_" + test, c, i, text=t) for i, t in enumerate(shards)]
        return us
    return make


check("C20", None, (), (), (),
      "a case draws the values of all members of all structs, their placement in a guarded arena and "
      "the way of loading/storing, for one generated struct shape (fixed core plus shapes drawn from "
      "the seed) and width; non-trivial: every case; distinct by the drawn choices",
      cases=200, deep_cases=2000, unit_gen=struct_units("load_store"))
check("C21", "c21_ops.cpp", (None,), STD3, DEEP,
      "a case draws the values of all members of all lanes and an operation, or a history of "
      "broadcasts, member writes, loads and stores, for one generated struct shape and width; "
      "non-trivial: every case; distinct by the drawn choices",
      cases=200, deep_cases=2000, unit_gen=struct_units("interface"))


def reflect_units(tier, seed):
    from gen import reflect
    deep = tier == "thorough"
    us = []
    for k in range(4 if deep else 1):
        shards = reflect.sources(seed * 1000 + k if deep else seed, 40 if deep else 12, 8)
        us += [Unit("reflect", "plain-O1", i + 8 * k, text=t, std="gnu++20" if k % 2 else "gnu++23")
               for i, t in enumerate(shards)]
    return us


check("C22", None, (), (), (),
      "a program draws struct definitions (every number of members from 1 to 50; scalar, class, array, "
      "const members; empty bases; std::tuple/pair/array; classes with the tuple protocol), a case "
      "draws the values of all members; non-trivial: every case; distinct by the drawn choices",
      cases=20, deep_cases=100, unit_gen=reflect_units)


def cw_units(tier, seed):
    from gen import cwgen
    deep = tier == "thorough"
    us = []
    for k in range(12 if deep else 2):
        shards = cwgen.sources(seed * 1000 + k if deep else seed + k * 7919, 400 if deep else 160 - 80 * k, 8)
        us += [Unit("cw", "plain-O1", i + 8 * k, text=t, std="gnu++20" if k % 2 else "gnu++23")
               for i, t in enumerate(shards)]
    return us


check("C23", None, (), (), (),
      "a program draws expression trees over constexpr_wrapper, integral_constant and plain operands of "
      "all integer types (values with a defined result by a Python model of C++ arithmetic), class-type "
      "operands, and _cw literals in every base, with digit separators, leading zeros and values at the "
      "limits of every type; literals above 2^64-1 must be rejected; non-trivial: at least one operator "
      "or a literal; distinct by expression and the drawn choices",
      cases=5, deep_cases=5, unit_gen=cw_units, gens=[{"module": "cwgen"}])

check("C24", "c24_version.cpp", range(3), (), (),
      "a case draws two version triples (independent, equal in some components, or one step apart) or a "
      "list of versions to sort; non-trivial: every case; distinct by the drawn choices",
      cases=4000, deep_cases=200000,
      unit_gen=lambda tier, seed: [Unit("c24_version.cpp", "plain-O1", k, std="gnu++" + s)
                                   for k in range(3) for s in ("17", "20", "23")])
check("C25", "c25_fake.cpp", range(4), STD3 + ["clang-std-O2-v3", "clang-fb-O2-v3"], DEEP + ["std-O2-v2", "fb-O3-v4"],
      "a case draws the values of all arguments and the number and mix of arguments; one test per "
      "argument type; non-trivial: every case; distinct by the drawn choices",
      cases=1000, deep_cases=20000)


def trait_units(tier, seed):
    from gen import traits
    deep = tier == "thorough"
    us = []
    for cfg, std, n in (("fb-O2-v3", "gnu++20", 4), ("std-O2-v3", "gnu++23", 3), ("fb-Os-sse", "gnu++23", 1)):
        for i, t in enumerate(traits.sources(seed, cfg, 40 if deep else 15, 24 if deep else n)):
            us.append(Unit("traits", cfg, i, text=t, std=std))
    return us


check("C26", None, (), (), (),
      "a program draws element types, ABI tags, widths, qualifiers and struct shapes and states facts "
      "about traits, concepts, conversions and simdize whose truth value comes from a Python model of "
      "the definitions; a case is one fact; non-trivial: every fact; distinct by the text of the fact",
      cases=1, deep_cases=1, unit_gen=trait_units)

check("C27", None, (), (), (),
      "a program draws 1-3 translation units, each a sequence of includes (repetitions allowed) with uses of the header's "
      "documented contents between them, the language standard, the documented options and the optimization "
      "level; it must compile, link and compute what a scalar model says; non-trivial: more than one include; "
      "distinct by program text and flags",
      cases=1, deep_cases=1, gens=[{"module": "headers"}])

check("C28", None, (), (), (),
      "a program draws three or four element types, a width, flags and a history of statements over simd and simd_mask variables "
      "and runs it for many rounds with libstdc++'s TS implementation and with the fallback; a case is one printed result "
      "(statement x round); non-trivial: a statement accepted by the reference; distinct by types, width, "
      "flags and text of the statement",
      cases=1, deep_cases=1, gens=[{"module": "dropin"}])
