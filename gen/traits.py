"""C26: generated compile-time facts about traits, concepts, conversions and simdize.

The expected answer of every fact comes from a Python model of the definitions (README, Parallelism
TS 2): which types are arithmetic / vectorizable, when a conversion is value-preserving, integer
conversion rank, native widths, and how simdize maps a struct shape."""
import random

# name: (kind, bits, signed, rank, mantissa digits)
ARITH = {
    "signed char": ("i", 8, True, 1), "unsigned char": ("i", 8, False, 1), "char": ("i", 8, True, 1),
    "short": ("i", 16, True, 2), "unsigned short": ("i", 16, False, 2), "int": ("i", 32, True, 3),
    "unsigned": ("i", 32, False, 3), "long": ("i", 64, True, 4), "unsigned long": ("i", 64, False, 4),
    "long long": ("i", 64, True, 5), "unsigned long long": ("i", 64, False, 5),
    "wchar_t": ("i", 32, True, 3), "char16_t": ("i", 16, False, 2), "char32_t": ("i", 32, False, 3),
    "char8_t": ("i", 8, False, 1),
    "float": ("f", 32, True, 24), "double": ("f", 64, True, 53), "long double": ("f", 128, True, 64),
    "bool": ("b", 8, False, 0)}
VEC = [t for t in ARITH if t != "bool"]
SIZES = {t: v[1] // 8 for t, v in ARITH.items()}
# what only exists as operand of conversions and traits
OTHERS = ["void", "void*", "int*", "Enum", "ScopedEnum", "Empty", "int&", "const float&", "float&&", "int[3]", "int()",
          "std::string", "ConvFloat", "std::nullptr_t", "NoAbi"]


def digits(t):
    k, b, s, x = ARITH[t]
    return x if k == "f" else 1 if k == "b" else b - (1 if s else 0)


def span(t):
    k, b, s, x = ARITH[t]
    if k == "f":
        return (-10 ** (20 + b * 40), 10 ** (20 + b * 40))
    if k == "b":
        return (0, 1)
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def preserving(a, b):
    """every value of a is representable in b"""
    if a == b:
        return True
    if b == "bool":
        return False
    (la, ha), (lb, hb) = span(a), span(b)
    return digits(a) <= digits(b) and la >= lb and ha <= hb


def rank_greater(a, b):
    """integer conversion rank of a is greater than that of b"""
    return ARITH[a][3] > ARITH[b][3]


def native(t, cfg):
    if SIZES[t] > 8:
        return 1
    return (32 if "v3" in cfg else 64 if "v4" in cfg else 16) // SIZES[t]


def S(e):
    return "stdx::" + e


class Gen:
    def __init__(self, seed, cfg):
        self.r = random.Random("%d-%s" % (seed, cfg))
        self.cfg, self.fb = cfg, cfg.startswith("fb")
        self.defs, self.items, self.seen, self.nstruct = [], [], set(), 0

    def fact(self, expr, want=True):
        if isinstance(want, bool):
            e = "FACT(bool(%s) == %s)" % (expr, "true" if want else "false")
        else:
            e = "FACT(int(%s) == %d)" % (expr, want)
        if e not in self.seen:
            self.seen.add(e)
            self.items.append(e)

    def same(self, a, b, want=True):
        self.fact("std::is_same_v<%s, %s>" % (a, b), want)

    def abi(self, t):
        """-> ABI tag expression, size"""
        r = self.r
        k = r.choice("nnscffff")
        if k == "n":
            return "stdx::simd_abi::native<%s>" % t, native(t, self.cfg) if self.fb else None
        if k == "s":
            return "stdx::simd_abi::scalar", 1
        if k == "c":
            return "stdx::simd_abi::compatible<%s>" % t, (16 // SIZES[t] if SIZES[t] <= 8 else 1) if self.fb else None
        n = r.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 31, 32])
        return "stdx::simd_abi::fixed_size<%d>" % n, n

    def cv(self, t):
        return self.r.choice(["%s"] * 6 + ["const %s", "volatile %s", "%s&", "const %s&"]) % t

    def concepts(self):
        r = self.r
        t = r.choice(list(ARITH) + OTHERS)
        q = r.choice(["", "", "", "const ", "volatile "])
        if t in ARITH:
            ref = r.choice(["", "", "", "&", "*"])
            x = q + t + ref
            self.fact("vir::arithmetic<%s>" % x, not ref)
            self.fact("vir::vectorizable<%s>" % x, not ref and t != "bool" or (t == "bool" and q != "" and not ref)) \
                if not (t == "bool" and q) else None
        else:
            self.fact("vir::arithmetic<%s>" % t, False)
            self.fact("vir::vectorizable<%s>" % t, False)
        t = r.choice(VEC)
        a, n = self.abi(t)
        self.fact("vir::simd_abi_tag<%s>" % a, True)
        self.fact("vir::simd_abi_tag<%s>" % r.choice(OTHERS + VEC), False)
        v, m = "stdx::simd<%s, %s>" % (t, a), "stdx::simd_mask<%s, %s>" % (t, a)
        for c, e in (("any_simd", (True, False)), ("any_simd_mask", (False, True)), ("any_simd_or_mask", (True, True))):
            self.fact("vir::%s<%s>" % (c, v), e[0])
            self.fact("vir::%s<%s>" % (c, m), e[1])
            self.fact("vir::%s<%s>" % (c, r.choice(VEC + OTHERS)), False)
            self.fact("vir::%s<%s>" % (c, r.choice(["%s&", "%s*", "std::vector<%s>"]) % v), False)
            self.fact("vir::%s<stdx::%s<%s, %s>>" % (c, r.choice(["simd", "simd_mask"]), r.choice(["bool", "void*", "Enum", "Empty"]),
                                                     "stdx::simd_abi::" + r.choice(["scalar", "fixed_size<4>"])), False)
            self.fact("vir::%s<stdx::%s<%s, %s>>" % (c, r.choice(["simd", "simd_mask"]), t, r.choice(["int", "Empty", "NoAbi"])), False)
        u = r.choice(VEC)
        self.fact("vir::typed_simd<%s, %s>" % (v, u), t == u)
        self.fact("vir::typed_simd<%s, %s>" % (v, t), True)
        self.fact("vir::typed_simd<%s, %s>" % (m, t), False)
        self.fact("vir::typed_simd<%s, %s>" % (t, t), False)
        if n:
            for k in {n, n + 1, n - 1, r.choice([1, 2, 4, 8, 16])}:
                if k < 0:
                    continue
                self.fact("vir::sized_simd<%s, %d>" % (v, k), k == n)
                self.fact("vir::sized_simd_mask<%s, %d>" % (m, k), k == n)
            self.fact("vir::sized_simd<%s, %d>" % (m, n), False)
            self.fact("vir::sized_simd_mask<%s, %d>" % (v, n), False)

    def traits(self):
        r = self.r
        t, u = r.choice(VEC), r.choice(VEC)
        a, n = self.abi(t)
        v, m = "stdx::simd<%s, %s>" % (t, a), "stdx::simd_mask<%s, %s>" % (t, a)
        for x, e in ((v, (1, 0)), (m, (0, 1)), (t, (0, 0)), (r.choice(OTHERS), (0, 0)), (v + "&", (0, 0)), (m + "*", (0, 0))):
            self.fact("stdx::is_simd_v<%s>" % x, bool(e[0]))
            self.fact("stdx::is_simd_mask_v<%s>" % x, bool(e[1]))
            self.fact("stdx::is_simd<%s>::value" % x, bool(e[0]))
            self.fact("stdx::is_simd_mask<%s>::value" % x, bool(e[1]))
        self.fact("stdx::is_abi_tag_v<%s>" % a, True)
        self.fact("stdx::is_abi_tag_v<%s>" % r.choice(OTHERS + VEC), False)
        k = 1 << r.randrange(0, 9)
        for f, e in (("stdx::element_aligned_tag", 1), ("stdx::vector_aligned_tag", 1), ("stdx::overaligned_tag<%d>" % k, 1),
                     (r.choice(OTHERS + VEC), 0), (a, 0), (v, 0)):
            self.fact("stdx::is_simd_flag_type_v<%s>" % f, bool(e))
        self.same("%s::value_type" % v, t)
        self.same("%s::mask_type" % v, m)
        self.same("%s::simd_type" % m, v)
        self.same("%s::value_type" % m, "bool")
        self.same("%s::abi_type" % v, a)
        if not self.fb:
            return
        self.fact("stdx::simd_size_v<%s, %s>" % (t, a), n)
        self.fact("stdx::simd_size<%s, %s>::value" % (t, a), n)
        self.fact("%s::size()" % v, n)
        self.fact("%s::size()" % m, n)
        self.fact("(stdx::memory_alignment_v<%s, %s> %% alignof(%s))" % (v, u, u), 0)
        self.fact("(stdx::memory_alignment_v<%s> %% alignof(bool))" % m, 0)
        rv = "stdx::rebind_simd_t<%s, %s>" % (u, v)
        rm = "stdx::rebind_simd_t<%s, %s>" % (u, m)
        self.fact("vir::typed_simd<%s, %s> and vir::sized_simd<%s, %d>" % (rv, u, rv, n))
        self.fact("vir::any_simd_mask<%s> and %s::size() == %d and std::is_same_v<%s::simd_type, %s>" % (rm, rm, n, rm, rv))
        self.same("stdx::rebind_simd_t<%s, %s>" % (t, v), v)
        k = r.choice([1, 2, 3, 4, 6, 8, 13, 16, 32, 40])
        sv, sm = "stdx::resize_simd_t<%d, %s>" % (k, v), "stdx::resize_simd_t<%d, %s>" % (k, m)
        self.fact("vir::typed_simd<%s, %s> and vir::sized_simd<%s, %d>" % (sv, t, sv, k))
        self.fact("vir::sized_simd_mask<%s, %d> and std::is_same_v<%s::simd_type, %s>" % (sm, k, sm, sv))
        d = "stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>" % (t, t, k)
        self.same(d, sv)
        self.same(d, "stdx::simd<%s, stdx::simd_abi::deduce<%s, %d>::type>" % (t, t, k))
        self.fact("%s::size()" % d, k)
        self.fact("stdx::native_simd<%s>::size()" % t, native(t, self.cfg))
        self.fact("stdx::native_simd_mask<%s>::size()" % t, native(t, self.cfg))
        self.same("stdx::fixed_size_simd<%s, %d>" % (t, k), "stdx::simd<%s, stdx::simd_abi::fixed_size<%d>>" % (t, k))
        self.same("stdx::fixed_size_simd_mask<%s, %d>" % (t, k), "stdx::simd_mask<%s, stdx::simd_abi::fixed_size<%d>>" % (t, k))

    def conversions(self):
        if not self.fb:
            return self.traits()
        r = self.r
        t, u = r.choice(VEC), r.choice(list(ARITH))
        a, n = self.abi(t)
        v = "stdx::simd<%s, %s>" % (t, a)
        ok = preserving(u, t) or u == "int" or (u == "unsigned" and ARITH[t][0] == "i" and not ARITH[t][2])
        q = r.choice(["%s", "const %s&", "%s&", "const %s"]) % u
        self.fact("std::is_convertible_v<%s, %s>" % (q, v), ok)
        self.fact("std::is_constructible_v<%s, %s>" % (v, q), ok)
        self.fact("std::is_assignable_v<%s&, %s>" % (v, q), ok)
        self.fact("std::is_convertible_v<ConvFloat, stdx::simd<float, %s>>" % a, True)
        self.fact("std::is_convertible_v<%s, %s>" % (r.choice(["void*", "ScopedEnum", "Empty", "std::string", "std::nullptr_t"]), v), False)
        if u != "bool":
            n = r.choice([1, 2, 3, 4, 7, 8, 16])
            f = "stdx::fixed_size_simd<%s, %d>"
            ok = t == u or (preserving(u, t) and (ARITH[t][0] != "i" or ARITH[u][0] != "i" or rank_greater(t, u)))
            # equal rank and range (e.g. wchar_t and int): accepted or not, no claim
            if t == u or not preserving(u, t) or ARITH[t][3] != ARITH[u][3]:
                self.fact("std::is_convertible_v<%s, %s>" % (f % (u, n), f % (t, n)), ok)
                self.fact("std::is_constructible_v<%s, %s>" % (f % (t, n), f % (u, n)), ok)
            self.fact("std::is_convertible_v<%s, %s>" % (f % (u, n), f % (t, n + 1)), False)
            w = "stdx::simd<%s, stdx::simd_abi::scalar>"
            self.fact("std::is_convertible_v<%s, %s>" % (w % u, w % t), t == u)
            self.fact("std::is_convertible_v<%s, %s>" % ((f % (u, n)).replace("_simd<", "_simd_mask<"),
                                                         (f % (t, n)).replace("_simd<", "_simd_mask<")), True)
            # simd_cast: value-preserving only; static_simd_cast: always
            self.fact("CanCast<%s, %s>" % (f % (u, n), t), preserving(u, t))
            self.fact("CanStaticCast<%s, %s>" % (f % (u, n), t), True)
        self.fact("std::is_convertible_v<bool, stdx::simd_mask<%s, %s>>" % (t, a), False)
        self.fact("std::is_constructible_v<stdx::simd_mask<%s, %s>, bool>" % (t, a), True)
        k = "i" == ARITH[t][0]
        for op in r.sample(["Mod", "And", "Or", "Xor", "Shl", "Shr", "Not", "ModA", "AndA", "OrA", "XorA", "ShlA", "ShrA"], 4):
            self.fact("Can%s<%s>" % (op, v), k)
        for op in r.sample(["Add", "Sub", "Mul", "Div", "Neg", "Pos", "Inc", "Dec", "Eq", "Lt", "Ge", "LNot"], 2):
            self.fact("Can%s<%s>" % (op, v), True)

    # ------------------------------------------------------------------ simdize
    def simd_of(self, t, n):
        return "stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>" % (t, t, n)

    def nat(self, leaves):
        if self.fb:
            return str(max(native(t, self.cfg) for t in leaves))
        return "std::max({%s})" % ", ".join("int(stdx::native_simd<%s>::size())" % t for t in leaves)

    def simdize_scalar(self):
        r = self.r
        t = r.choice(VEC)
        n = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31])
        self.same("vir::simdize<%s, %d>" % (t, n), self.simd_of(t, n))
        self.same("vir::simdize<%s>" % t, "stdx::native_simd<%s>" % t)
        self.same("vir::simdize<%s, 0>" % t, "stdx::native_simd<%s>" % t)
        self.fact("vir::simdize_size_v<vir::simdize<%s, %d>>" % (t, n), n)
        self.fact("vir::simdize_size<%s>::value" % self.simd_of(t, n), n)
        self.fact("vir::simdize_size_v<%s>" % r.choice(VEC + ["bool", "Empty", "void*", "std::tuple<>"]), 0)
        m = r.choice([1, 2, 4, 6, 9])
        self.same("vir::resize_simdize_t<%d, vir::simdize<%s, %d>>" % (m, t, n), "vir::simdize<%s, %d>" % (t, m))
        x = r.choice(["void", "bool", "void*", "Empty", "std::tuple<>", "ScopedEnum", "std::string", "int&", "std::vector<float>", "const char*"])
        self.same("vir::simdize<%s, %s>" % (x, r.choice([0, 1, 4])), x)
        # homogeneous and mixed tuples of simd
        ws = [n, n, r.choice([n, n, n + 1])]
        ts = [r.choice(VEC) for _ in ws]
        self.fact("vir::simdize_size_v<std::tuple<%s>>" % ", ".join(self.simd_of(t, w) for t, w in zip(ts, ws)),
                  n if len(set(ws)) == 1 else 0)
        self.fact("vir::simdize_size_v<std::tuple<%s, %s>>" % (self.simd_of(ts[0], n), ts[1]), 0)

    def struct(self):
        r = self.r
        shape = r.choice(["plain", "plain", "plain", "nested", "tuple", "pair", "array", "tpl", "tpl", "bad", "badnested"])
        k = r.randrange(1, 6)
        ts = [r.choice(VEC) for _ in range(k)]
        n = r.choice([1, 2, 3, 4, 5, 8, 9, 16])
        exp = [self.simd_of(t, n) for t in ts]
        leaves = list(ts)
        expr = None
        if shape in ("bad", "badnested"):
            at = r.randrange(k)
            ts[at] = r.choice(["bool", "void*", "Enum", "Empty2", "std::string"]) if shape == "bad" else "Bad"
        if shape in ("plain", "bad", "badnested", "nested"):
            self.nstruct += 1
            nm = "S%d" % self.nstruct
            ms = list(ts)
            if shape == "nested":
                self.nstruct += 1
                inner = "S%d" % self.nstruct
                its = [r.choice(VEC) for _ in range(r.randrange(1, 4))]
                self.defs.append("struct %s { %s };" % (inner, " ".join("%s m%d;" % (t, i) for i, t in enumerate(its))))
                at = r.randrange(k)
                ms[at] = inner
                exp[at] = "vir::simdize<%s, %d>" % (inner, n)
                leaves = [t for i, t in enumerate(ts) if i != at] + its
            self.defs.append("struct %s { %s };" % (nm, " ".join("%s m%d;" % (t, i) for i, t in enumerate(ms))))
            expr = nm
        elif shape == "tuple":
            expr = "std::tuple<%s>" % ", ".join(ts)
        elif shape == "pair":
            ts = (ts + ts)[:2]
            exp, leaves = (exp + exp)[:2], ts
            expr = "std::pair<%s, %s>" % tuple(ts)
        elif shape == "array":
            ts = [ts[0]] * k
            exp, leaves = [exp[0]] * k, ts
            expr = "std::array<%s, %d>" % (ts[0], k)
        elif shape == "tpl":
            expr = "T%d<%s>" % (k, ", ".join(ts))
        if shape in ("bad", "badnested"):
            self.same("vir::simdize<%s, %d>" % (expr, n), expr)
            self.same("vir::simdize<%s>" % expr, expr)
            self.fact("vir::vectorizable_struct<%s>" % expr, False)
            return
        v = "vir::simdize<%s, %d>" % (expr, n)
        self.fact("vir::vectorizable_struct<%s>" % expr, True)
        self.fact("%s::size()" % v, n)
        self.fact("vir::simdize_size_v<%s>" % v, n)
        self.same("typename %s::value_type" % v, expr)
        self.same("vir::simdize<%s>" % expr, "vir::simdize<%s, %s>" % (expr, self.nat(leaves)))
        m = r.choice([1, 2, 4, 6, 9])
        self.same("vir::resize_simdize_t<%d, %s>" % (m, v), "vir::simdize<%s, %d>" % (expr, m))
        self.fact("vir::simdize_size_v<%s>" % expr, 0)
        if shape == "tpl":
            b = "T%d<%s>" % (k, ", ".join(exp))
            self.fact("std::is_base_of_v<%s, %s>" % (b, v), True)
            self.fact("vir::vectorizable_struct_template<%s>" % expr, True)
            for i in range(k):
                self.same("decltype(%s::m%d)" % (v, i), exp[i])
        elif shape in ("plain", "nested"):
            self.fact("vir::vectorizable_struct_template<%s>" % expr, False)
            self.fact("std::tuple_size_v<%s>" % v, len(exp))
            for i, e in enumerate(exp):
                self.same("std::tuple_element_t<%d, %s>" % (i, v), e)
            self.same("std::remove_cvref_t<decltype(std::declval<%s&>().as_tuple())>" % v, "std::tuple<%s>" % ", ".join(exp))


PRELUDE = '''#include "pbt.h"
#include <vir/simd.h>
#include <vir/simd_concepts.h>
#include <vir/simdize.h>
#include <array>
#include <string>
#include <tuple>
#include <vector>
namespace stdx = vir::stdx;
enum Enum { e0 };
enum class ScopedEnum { e0 };
struct Empty {};
struct NoAbi {};
struct Empty2 { Empty2(int); };
struct ConvFloat { operator float() const; };
struct Bad { int a; bool b; };
template <typename A> struct T1 { A m0; };
template <typename A, typename B> struct T2 { A m0; B m1; };
template <typename A, typename B, typename C> struct T3 { A m0; B m1; C m2; };
template <typename A, typename B, typename C, typename D> struct T4 { A m0; B m1; C m2; D m3; };
template <typename A, typename B, typename C, typename D, typename E> struct T5 { A m0; B m1; C m2; D m3; E m4; };
template <typename V, typename T> concept CanCast = requires(const V& x) { stdx::simd_cast<T>(x); };
template <typename V, typename T> concept CanStaticCast = requires(const V& x) { stdx::static_simd_cast<T>(x); };
#define CAN(Name, ...) template <typename V> concept Can##Name = requires(V x) { __VA_ARGS__; };
CAN(Mod, x % x) CAN(And, x & x) CAN(Or, x | x) CAN(Xor, x ^ x) CAN(Shl, x << x) CAN(Shr, x >> x) CAN(Not, ~x)
CAN(ModA, x %= x) CAN(AndA, x &= x) CAN(OrA, x |= x) CAN(XorA, x ^= x) CAN(ShlA, x <<= x) CAN(ShrA, x >>= x)
CAN(Add, x + x) CAN(Sub, x - x) CAN(Mul, x * x) CAN(Div, x / x) CAN(Neg, -x) CAN(Pos, +x) CAN(Inc, ++x) CAN(Dec, x--)
CAN(Eq, x == x) CAN(Lt, x < x) CAN(Ge, x >= x) CAN(LNot, !x)
#define FACT(...) facts.push_back({#__VA_ARGS__, bool(__VA_ARGS__)});
struct Fact { const char* text; bool value; };
'''
EPILOGUE = '''
  for (const auto& f : facts)
    pbt::add(f.text, [f](pbt::Src& s) {
      s.nontrivial();
      if (not f.value)
        pbt::fail(std::string("does not hold: ") + f.text);
    });
  return pbt::main(argc, argv);
}
'''


def sources(seed, cfg, rounds, shards):
    out = []
    for k in range(shards):
        g = Gen(seed * 64 + k, cfg)
        for i in range(rounds):
            for f in (g.concepts, g.traits, g.conversions, g.conversions, g.simdize_scalar, g.struct, g.struct):
                f()
        pre = PRELUDE + "\n".join(g.defs) + "\nint main(int argc, char** argv)\n{\n  std::vector<Fact> facts;\n"
        out.append((pre, g.items, EPILOGUE))
    return out
