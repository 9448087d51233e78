"""C28: differential check of vir-simd's fallback against libstdc++'s implementation of the TS.

A program draws element types, a width and a history of statements over simd and simd_mask variables (operators, where, casts,
loads/stores, split/concat, reductions, math).  Every statement that libstdc++ accepts must be accepted by the fallback,
and after every statement of every round the lanes (and the element type) of the result must be the same."""
import concurrent.futures as cf
import os
import random
import re

TYPES = {"float": 4, "double": 8, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "char": 1, "char16_t": 2, "char32_t": 4, "wchar_t": 4}
NV, NM = 3, 2

PRELUDE = r'''
#ifdef USE_TS
#include <experimental/simd>
namespace stdx = std::experimental;
#else
#include <vir/simd.h>
namespace stdx = vir::stdx;
#endif
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <tuple>
#include <type_traits>
#include <utility>
static int g_round;
static void begin(int id) { std::printf("%d.%d", id, g_round); }
template <class T> void lane(T x)
{
  if constexpr (std::is_same_v<T, bool>) std::printf(" %d", int(x));
  else if constexpr (std::is_floating_point_v<T>) { if (x != x) std::printf(" nan"); else std::printf(" %a", double(x)); }
  else if constexpr (std::is_signed_v<T>) std::printf(" %lld", (long long)x);
  else std::printf(" %llu", (unsigned long long)x);
}
template <class T> void type() { std::printf(" %c%d:", std::is_same_v<T, bool> ? 'b' : std::is_floating_point_v<T> ? 'f' : std::is_signed_v<T> ? 'i' : 'u', int(sizeof(T))); }
template <class T> std::enable_if_t<std::is_arithmetic_v<T>> put(int id, T x) { begin(id); type<T>(); lane(x); std::printf("\n"); }
template <class T, class A> void put(int id, const stdx::simd<T, A>& v)
{ begin(id); type<T>(); for (std::size_t i = 0; i < v.size(); ++i) lane(static_cast<T>(v[i])); std::printf("\n"); }
template <class T, class A> void put(int id, const stdx::simd_mask<T, A>& v)
{ begin(id); std::printf(" mask:"); for (std::size_t i = 0; i < v.size(); ++i) lane(static_cast<bool>(v[i])); std::printf("\n"); }
template <class T, std::size_t N> void put(int id, const std::array<T, N>& v) { for (auto& x : v) put(id, x); }
static std::uint64_t rng = 1;
static std::uint64_t rnd() { std::uint64_t z = (rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
template <class T> T value()
{
  const auto k = rnd() % 8;
  if constexpr (std::is_floating_point_v<T>)
    { const T a[] = {0, T(-0.), 1, T(-1), T(.5), T(-2.5), T(3.5), 7}; 
      if (rnd() % 8 == 0) // values that matter for conversions to integers
        return (rnd() & 1 ? 1 : -1) * (std::ldexp(T(1), int(rnd() & 1 ? rnd() % 65 : (8 << rnd() % 4) - int(rnd() & 1))) + T(int(rnd() % 3) - 1));
      return k < 4 ? a[rnd() % 8] : T(std::int64_t(rnd() % 4000) - 2000) / T(16); }
  else
    { using L = std::numeric_limits<T>; const T a[] = {0, 1, L::max(), L::min(), T(-1), T(L::max() / 2), 2, 3};
      return k < 3 ? a[rnd() % 8] : k < 5 ? T(rnd() % 16) : T(rnd()); }
}
template <class T> struct data { alignas(256) static inline T in[128]; alignas(256) static inline T out[128]; };
template <class T> void fill() { for (auto& x : data<T>::in) x = value<T>(); for (auto& x : data<T>::out) x = T(5); }
alignas(256) static bool bin[128];
alignas(256) static bool bout[128];
// keep what the integral type To can represent
template <class To, class V> V fit(V v)
{
  using T = typename V::value_type;
  const V hi = std::ldexp(T(1), std::numeric_limits<To>::digits), lo = std::is_signed_v<To> ? T(-hi[0]) : T(0);
  where(!(v < hi && v >= lo), v) = V(T(3)); where(v == V(T(0)), v) = V(T(0)); return v;
}
template <class V> V tame(V v)
{ using T = typename V::value_type; where(!(abs(v) < V(T(100))), v) = V(T(3)); where(v == V(T(0)), v) = V(T(0)); return v; }
'''


class Gen:
    def __init__(self, r):
        self.r = r
        names = list(TYPES)
        self.types = r.sample(names, 3)
        if not any(t in ("float", "double") for t in self.types):
            self.types[0] = r.choice(["float", "double"])
        if r.random() < .12:
            self.n, self.abi = 1, "stdx::simd_abi::scalar"
        else:
            self.n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 13, 16, 16, 17, 24, 31, 32])
            self.abi = "stdx::simd_abi::fixed_size<%d>" % self.n
        if r.random() < .5 and "unsigned char" not in self.types:
            self.types.append("int" if "int" not in self.types else "unsigned")

    def flt(self, t):
        return t in ("float", "double")

    def signed(self, t):
        return t in ("float", "double", "signed char", "short", "int", "long", "long long", "char", "wchar_t")

    def T(self, k="any"):
        c = [t for t in self.types if k == "any" or (k == "f") == self.flt(t)]
        return self.r.choice(c) if c else None

    def ix(self, t):
        return self.types.index(t)

    def v(self, t):
        return "v%d_%d" % (self.ix(t), self.r.randrange(NV))

    def m(self, t):
        return "m%d_%d" % (self.ix(t), self.r.randrange(NM))

    def V(self, t, n=None):
        if n is None:
            return "V%d" % self.ix(t)
        return "stdx::simd<%s, stdx::simd_abi::fixed_size<%d>>" % (t, n)

    def sc(self, t):
        r = self.r
        x = r.choice([0, 1, 2, 3, 7, 100]) if r.random() < .7 or not self.signed(t) else -r.choice([1, 2, 5])
        return "static_cast<%s>(%d)" % (t, x)

    def lane(self):
        return self.r.randrange(self.n)

    def cmp(self):
        return self.r.choice(["<", "<=", ">", ">=", "==", "!="])

    def flag(self):
        return "stdx::element_aligned"

    def casts(self, k):
        """conversions of fresh values to types other than the program's"""
        r, res = self.r, []
        for t in self.types:
            for u in TYPES if self.flt(t) else r.sample(list(TYPES), 5):
                if u == t:
                    continue
                src = "e"
                if self.flt(t):
                    src = "tame(e)" if self.flt(u) else "fit<%s>(e)" % u
                elif self.flt(u) and TYPES[t] == 8:  # libstdc++ rounds some larger values wrongly
                    src = "(e %% %s(static_cast<%s>(1000003)))" % (self.V(t), t)
                res.append("{ const %s e(data<%s>::in + %d, stdx::element_aligned); put(%d, stdx::%s<%s>(%s)); }" % (
                    self.V(t), t, r.randrange(64), k + len(res), r.choice(["static_simd_cast", "simd_cast"] if self.flt(u) and TYPES[t] < TYPES[u] else ["static_simd_cast"]),
                    u if r.random() < .5 else "stdx::simd<%s, %s>" % (u, self.abi), src))
        return res

    # each returns (code, variable to show); code only changes declared variables
    def stmt(self, k):
        r = self.r
        t = self.T()
        a, b, c, m, n2 = self.v(t), self.v(t), self.v(t), self.m(t), self.m(t)
        V, M, N = self.V(t), "M%d" % self.ix(t), self.n
        f = self.flt(t)
        bits = TYPES[t] * 8
        mask = "%s(static_cast<%s>(%d))" % (V, t, bits - 1)
        small = "((%s & %s(static_cast<%s>(31))) | %s(static_cast<%s>(1)))" % (b, V, t, V, t)
        kind = r.choice(["bin", "bin", "bin", "scal", "un", "comp", "cmp", "cmp", "where", "where", "where", "wherex", "mask", "mask", "maskx", "cast", "cast",
                         "cast", "mem", "mem", "split", "split", "gen", "minmax", "sub", "sub", "red", "red", "math", "math", "shift", "mcast", "wmem", "bool", "alias"])
        out = "put(%d, %%s);" % k
        if kind == "bin":
            if f:
                return "%s = %s %s %s; %s" % (a, b, r.choice("+-*/"), c, out % a)
            op = r.choice("+-*&|^/%")
            if op in "/%":
                return "%s = %s %s %s; %s" % (a, c, op, small, out % a)
            return "%s = %s %s %s; %s" % (a, b, op, c, out % a)
        if kind == "scal":
            op = r.choice("+-*" if f else "+-*&|^")
            s = self.sc(t)
            e = "%s %s %s" % ((b, op, s) if r.random() < .5 else (s, op, b))
            return "auto e = %s; %s %s = e;" % (e, out % "e", a)
        if kind == "un":
            e = r.choice(["-%s", "+%s", "++%s", "%s++", "--%s", "%s--"] + ([] if f else ["~%s"])) % b
            return "{ auto e = %s; %s %s = e; %s }" % (e, out % "e", a, out % b)
        if kind == "comp":
            op = r.choice("+-*" if f else "+-*&|^")
            return "%s %s= %s; %s" % (a, op, r.choice([b, self.sc(t)]), out % a)
        if kind == "cmp":
            return "%s = %s %s %s; %s" % (m, a, self.cmp(), r.choice([b, c, self.sc(t)]), out % m) + (
                "" if r.random() < .7 else " %s = !%s; %s" % (m, a, out % m))
        if kind == "where":
            op = r.choice(["=", "=", "+=", "-=", "*="] + ([] if f else ["&=", "|=", "^="]))
            return "where(%s, %s) %s %s; %s" % (m, a, op, r.choice([b, self.sc(t)]), out % a)
        if kind == "wherex":
            q = r.randrange(5)
            if q == 0:
                return "{ auto e = %swhere(%s, %s); %s }" % ("-", m, a, out % "e")
            if q == 1:
                # (+ 0: libstdc++ turns unselected -0 into +0)
                return "%s%s; %s" % ("%s = %s + %s(0); " % (a, a, V) if f else "", r.choice(["++where(%s, %s)", "where(%s, %s)++", "--where(%s, %s)", "where(%s, %s)--"]) % (m, a), out % a)
            if q == 2:
                return "where(%s, %s) = %s; %s" % (m, n2, r.choice(["true", "false", "!" + n2, m]), out % n2)
            if q == 3 and not f:
                return "where(%s, %s) %s %s; %s" % (m, a, r.choice(["/=", "%="]), small, out % a)
            x = self.lane()
            return "{ %s s = %s[%d]; stdx::where(bool(%s[%d]), s) = %s; %s stdx::where(bool(%s[%d]), s) += %s; %s }" % (
                t, a, x, m, x, self.sc(t), out % "s", n2, x, self.sc(t), out % "s")
        if kind == "mask":
            e = r.choice(["%s & %s", "%s | %s", "%s ^ %s", "%s && %s", "%s || %s", "%s == %s", "%s != %s", "!%s", "%s"])
            e = e % ((m, n2) if e.count("%s") == 2 else (m,))
            if r.random() < .3:
                return "%s %s %s; %s" % (n2, r.choice(["&=", "|=", "^="]), m, out % n2)
            return "%s = %s; %s" % (n2, e, out % n2)
        if kind == "maskx":
            return r.choice(["put(%d, all_of(%s)); put(%d, any_of(%s));" % (k, m, k, m), "put(%d, none_of(%s)); put(%d, some_of(%s));" % (k, m, k, m),
                             "put(%d, popcount(%s));" % (k, m), "if (any_of(%s)) { put(%d, find_first_set(%s)); put(%d, find_last_set(%s)); }" % (m, k, m, k, m),
                             "%s[%d] = %s; %s" % (m, self.lane(), r.choice(["true", "false", "!%s[%d]" % (m, self.lane())]), out % m),
                             "%s = %s(%s); %s" % (m, M, r.choice(["true", "false"]), out % m),
                             "put(%d, all_of(%s == %s)); put(%d, stdx::any_of(true)); put(%d, stdx::popcount(false)); put(%d, stdx::some_of(true));" % (k, m, n2, k, k, k)])
        if kind == "cast":
            u = self.T()
            if u == t:
                return self.stmt(k)
            src = a
            if f and not self.flt(u):
                src = "fit<%s>(%s)" % (u, a)
            elif f and t == "double":
                src = "tame(%s)" % a
            elif self.flt(u) and TYPES[t] == 8:  # libstdc++ rounds some larger values wrongly
                src = "(%s %% %s(static_cast<%s>(1000003)))" % (a, V, t)
            q = r.randrange(4)
            tgt = self.V(u)
            if q == 0:
                return "%s = stdx::static_simd_cast<%s>(%s); %s" % (self.v(u), tgt, src, "put(%d, stdx::static_simd_cast<%s>(%s));" % (k, tgt, src))
            if q == 1:
                return "put(%d, stdx::static_simd_cast<%s>(%s));" % (k, u, src)
            if q == 2:
                return "put(%d, stdx::simd_cast<%s>(%s));" % (k, r.choice([u, tgt]), src)
            return "{ %s e = %s; %s }" % (tgt, src, out % "e")
        if kind == "mcast":
            u = self.T()
            return "{ M%d e = %s; %s %s = e; }" % (self.ix(u), m, out % "e", self.m(u))
        if kind == "mem":
            u = self.T()
            fl, al = r.choice([("stdx::element_aligned", 1), ("stdx::element_aligned", 1), ("stdx::vector_aligned", 0), ("stdx::overaligned<128>", 0)])
            off = r.randrange(32) if al else 0
            if r.random() < .5:
                if self.flt(u) and not f:
                    u = t
                if (u == "double" and t == "float") or (f and TYPES[u] == 8):
                    u = t
                if r.random() < .5:
                    return "%s = %s(data<%s>::in + %d, %s); %s" % (a, V, u, off, fl, out % a)
                return "%s.copy_from(data<%s>::in + %d, %s); %s" % (a, u, off, fl, out % a)
            src = a
            if f and u != t:
                src = ("tame(%s)" % a) if self.flt(u) else "fit<%s>(%s)" % (u, a)
            elif self.flt(u) and TYPES[t] == 8 and u != t:
                src = "(%s %% %s(static_cast<%s>(1000003)))" % (a, V, t)
            return "{ fill_out<%s>(); auto e = %s; e.copy_to(data<%s>::out + %d, %s); put(%d, stdx::fixed_size_simd<%s, %d>(data<%s>::out + %d, stdx::element_aligned)); put(%d, data<%s>::out[%d]); }" % (
                u, src, u, off, fl, k, u, N, u, off, k, u, off + N)
        if kind == "wmem":
            u = t
            off = r.randrange(32)
            if r.random() < .5:
                return "where(%s, %s).copy_from(data<%s>::in + %d, stdx::element_aligned); %s" % (m, a, u, off, out % a)
            return "{ fill_out<%s>(); where(%s, %s).copy_to(data<%s>::out + %d, stdx::element_aligned); put(%d, stdx::fixed_size_simd<%s, %d>(data<%s>::out + %d, stdx::element_aligned)); }" % (
                u, m, a, u, off, k, u, N, u, off)
        if kind == "bool":
            off = r.randrange(32)
            q = r.randrange(3)
            if q == 0:
                return "%s.copy_from(bin + %d, stdx::element_aligned); %s" % (m, off, out % m)
            if q == 1:
                return "where(%s, %s).copy_from(bin + %d, stdx::element_aligned); %s" % (m, n2, off, out % n2)
            return "{ std::memset(bout, 1, sizeof bout); %s.copy_to(bout + %d, stdx::element_aligned); for (int i = 0; i <= %d; ++i) put(%d, bout[%d + i]); }" % (
                m, off, N, k, off)
        if kind == "split":
            if "scalar" in self.abi or N < 2:
                return self.stmt(k)
            q = r.randrange(4)
            if q == 0:
                parts = []
                left = N
                while left and len(parts) < 4:
                    x = r.randint(1, left)
                    parts.append(x)
                    left -= x
                if left:
                    parts.append(left)
                ps = list(range(len(parts)))
                r.shuffle(ps)
                s = "auto p = stdx::split<%s>(%s); " % (", ".join(map(str, parts)), a)
                s += " ".join("put(%d, std::get<%d>(p));" % (k, i) for i in range(len(parts)))
                return "{ %s auto e = stdx::concat(%s); %s }" % (s, ", ".join("std::get<%d>(p)" % i for i in ps), out % "e")
            if q == 1:
                d = r.choice([x for x in range(1, N + 1) if N % x == 0])
                return "{ auto p = stdx::split<%s>(%s); for (auto& x : p) put(%d, x); put(%d, stdx::concat(p)); }" % (self.V(t, d), a, k, k)
            if q == 2:
                d = r.choice([x for x in range(1, N + 1) if N % x == 0])
                return "{ auto p = stdx::split<%s>(%s); for (auto& x : p) put(%d, x); put(%d, stdx::concat(p[0], p[0])); }" % (
                    self.V(t, d), a, k, k) if 2 * d <= 32 else self.stmt(k)
            u, w = self.v(t), self.V(t, 2 * N)
            if 3 * N > 32:
                return self.stmt(k)
            return "{ auto e = stdx::concat(%s, %s, %s); put(%d, e); }" % (a, u, b, k)
        if kind == "gen":
            return "%s = %s([&](auto i) { return static_cast<%s>(%s); }); %s" % (
                a, V, t, r.choice(["i + 1", "2 * i", "%s[i]" % b, "%s[(i + 1) %% %d]" % (b, N), "%d - int(i)" % N if self.signed(t) else "%d - int(i)" % (N + 1), "data<%s>::in[i]" % t]), out % a)
        if kind == "minmax":
            q = r.randrange(4)
            fin = "tame" if f else ""
            b2, c2 = "%s(%s)" % (fin, b), "%s(%s)" % (fin, c)
            if q == 3:
                return "%s = clamp(%s(%s), min(%s, %s), max(%s, %s)); %s" % (a, fin, a, b2, c2, b2, c2, out % a)
            return "%s = %s(%s, %s); %s" % (a, ["min", "max", "max"][q], b2, c2, out % a)
        if kind == "sub":
            i, j = self.lane(), self.lane()
            e = r.choice(["%s[%d] = %s", "%s[%d] += %s", "%s[%d] -= %s", "%s[%d] *= %s"] + ([] if f else ["%s[%d] &= %s", "%s[%d] |= %s", "%s[%d] ^= %s"])) % (
                a, i, r.choice([self.sc(t), "static_cast<%s>(%s[%d])" % (t, b, j)]))
            q = r.random()
            if q < .15:
                e = "using std::swap; swap(%s[%d], %s[%d])" % (a, i, b, j)
            elif q < .3:
                e = r.choice(["++%s[%d]", "%s[%d]++", "--%s[%d]"]) % (a, i)
            elif q < .4 and not f:
                e = r.choice(["%s[%d] <<= 1", "%s[%d] >>= 1", "%s[%d] /= 3", "%s[%d] %%= 3"]) % (a, i)
            return "%s; %s" % (e, out % a) + (" put(%d, %s(%s[%d]));" % (k, "static_cast<%s>" % t if r.random() < .7 else "+", a, j) if r.random() < .5 else "")
        if kind == "red":
            x = "trunc(tame(%s)) + %s(static_cast<%s>(0))" % (a, V, t) if f else a
            ops = ["", ", std::plus<>()", ", [](auto x, auto y) { return x + y; }"]
            if not f:
                ops += [", std::multiplies<>()", ", std::bit_and<>()", ", std::bit_or<>()", ", std::bit_xor<>()", ", [](auto x, auto y) { return x ^ y; }"]
            q = r.randrange(5)
            if q == 0:
                return "{ auto e = %s; put(%d, reduce(e%s)); }" % (x, k, r.choice(ops))
            if q == 1:
                return "{ auto e = %s; put(%d, hmin(e)); put(%d, hmax(e)); }" % (x, k, k)
            if q == 2:
                return "{ auto e = %s; put(%d, hmin(where(%s, e))); put(%d, hmax(where(%s, e))); }" % (x, k, m, k, m)
            op = r.choice(ops[:2] + [o for o in ops if "bit_" in o])
            return "{ const auto e = %s; put(%d, reduce(where(%s, e)%s)); }" % (x, k, m, op)
        if kind == "math":
            if not f:
                if not self.signed(t) or t in ("char", "wchar_t"):
                    return self.stmt(k)
                return "{ auto e = abs(where_min(%s)); %s }" % (a, out % "e")
            q = r.randrange(4)
            if q == 0:
                # (+ 0: libstdc++ loses the sign of zero)
                return "%s = %s(%s) + %s(0); %s" % (a, r.choice(["sqrt", "abs", "fabs", "floor", "ceil", "trunc", "rint", "nearbyint", "round"]), b, V, out % a)
            if q == 1:
                return "%s = %s(%s); %s" % (m, r.choice(["isnan", "isinf", "isfinite", "isnormal"]), b, out % m)
            if q == 2:
                return "%s = %s(tame(%s), tame(%s)); %s" % (a, r.choice(["copysign", "fmin", "fmax", "fdim", "fmod", "remainder", "nextafter"]), b, c, out % a)
            return r.choice(["%s = fma(%s, %s, %s); %s" % (a, *r.choice([(a, b, c), (a, self.sc(t), c), (self.sc(t), b, c), (a, b, self.sc(t)), (self.sc(t), b, self.sc(t))]), out % a),
                             "%s = isunordered(%s, %s); %s" % (m, a, b, out % m), "%s = isless(%s, %s); %s" % (m, a, b, out % m),
                             "%s = isgreaterequal(%s, %s); %s" % (m, a, b, out % m), "%s = signbit(tame(%s)); %s" % (m, a, out % m),
                             "{ auto e = fpclassify(%s); %s }" % (a, out % "e")])
        if kind == "shift":
            if f:
                return self.stmt(k)
            e = r.choice(["%s << %s" % (b, r.randrange(bits)), "%s >> %s" % (b, r.randrange(bits)), "%s << (%s & %s)" % (b, c, mask),
                          "%s >> (%s & %s)" % (b, c, mask)])
            if r.random() < .3:
                return "%s %s %s; %s" % (a, r.choice(["<<=", ">>="]), r.choice([str(r.randrange(bits)), "(%s & %s)" % (c, mask)]), out % a)
            return "%s = %s; %s" % (a, e, out % a)
        return r.choice(["%s = %s = %s; %s" % (a, b, c, out % a), "%s += %s; %s" % (a, a, out % a), "std::swap(%s, %s); %s" % (a, b, out % a),
                         "%s = %s(); %s = %s; %s" % (b, V, b, a, out % b), "where(%s, %s) = %s; %s" % (m, a, a, out % a),
                         "put(%d, %s.size()); put(%d, %s::size());" % (k, a, k, M)])

    def head(self):
        o = [PRELUDE]
        o.append("template <class V> V where_min(V v) { using T = typename V::value_type; where(v == V(std::numeric_limits<T>::min()), v) = V(T(1)); return v; }")
        o.append("template <class T> void fill_out() { for (auto& x : data<T>::out) x = T(5); }")
        for i, t in enumerate(self.types):
            o.append("using V%d = stdx::simd<%s, %s>; using M%d = stdx::simd_mask<%s, %s>;" % (i, t, self.abi, i, t, self.abi))
        o.append("int main() { for (g_round = 0; g_round < ROUNDS; ++g_round) { for (bool& b : bin) b = rnd() & 1;")
        for i, t in enumerate(self.types):
            o.append("fill<%s>();" % t)
            for j in range(NV):
                o.append("V%d v%d_%d(data<%s>::in + %d, stdx::element_aligned);" % (i, i, j, t, 33 * j))
            for j in range(NM):
                o.append("M%d m%d_%d(bin + %d, stdx::element_aligned);" % (i, i, j, 33 * j + i))
        return "\n".join(o) + "\n"


def source(head, stmts, rounds):
    h = head.replace("ROUNDS", str(rounds))
    # a line number of its own for each statement
    return h + "\n".join("#line %d\n%s" % (100000 + k, ("if (true) { %s }" % s)) for k, s in enumerate(stmts) if s) + "\n}}\n"


def run(prop, tier, seed, workdir, pool, **kw):
    import run as R
    master = random.Random(seed * 50021 + 5)
    deep = tier == "thorough"
    nprog, nst, rounds = (120, 60, 60) if deep else (12, 44, 40)
    inc = " ".join(R.INC)
    base = [R.CXX, "-w", "-fwrapv", "-ffp-contract=off", "-fmax-errors=60"]

    def compile_run(tag, src, flags, ts):
        p = os.path.join(workdir, "di_%s_%d.cpp" % (tag, ts))
        exe = p[:-4]
        with open(p, "w") as f:
            f.write(src)
        cmd = base + flags + R.INC + (["-DUSE_TS"] if ts else ["-DVIR_DISABLE_STDX_SIMD"]) + [p, "-o", exe]
        rc, out = R.sh(cmd, 280)
        if rc not in (0, 1):
            rc, out = R.sh(cmd, 280)
        if rc:
            return ("killed" if rc not in (0, 1) else "compile"), out
        rc, out = R.sh([exe], 60)
        os.unlink(exe)
        return ("ok" if rc == 0 else "crash %d" % rc), out

    def lines_of(err, path_part):
        return {int(m.group(1)) - 100000 for m in re.finditer(r"%s[^:\s]*:(1\d{5}):" % re.escape(path_part), err)}

    def one(a):
        i, s = a
        r = random.Random(s)
        g = Gen(r)
        head = g.head()
        stmts = [g.stmt(k) for k in range(nst)]
        stmts += g.casts(nst)
        flags = ["-std=" + r.choice(["gnu++17", "gnu++20"]), r.choice(["-O1", "-O1", "-O2"]), r.choice(["-march=x86-64-v3", "-march=x86-64-v2", "-march=x86-64"])]
        tag = "p%d" % i
        info = "%s x %d (%s), %d statements, %s" % ("/".join(g.types), g.n, g.abi[16:], nst, " ".join(flags))
        for _ in range(4):  # drop what the TS implementation does not accept
            st, ref = compile_run(tag, source(head, stmts, rounds), flags, 1)
            if st != "compile":
                break
            bad = lines_of(ref, "di_" + tag)
            bad = {b for b in bad if b < len(stmts)}
            if os.environ.get("DROPIN_DEBUG"):
                for b in bad:
                    print("TS rejects:", stmts[b])
                if not bad:
                    print(ref[:2000])
            if not bad:
                break
            stmts = ["" if j in bad else x for j, x in enumerate(stmts)]
        if st != "ok":
            return info, 0, 0, None, "reference: " + st
        st, got = compile_run(tag, source(head, stmts, rounds), flags, 0)
        used = sum(1 for x in stmts if x)
        if st == "killed":
            return info, 0, 0, None, st
        if st == "ok" and got == ref:
            return info, used, ref.count("\n"), None, stmts
        return info, used, ref.count("\n"), (head, stmts, flags), stmts

    def fails(tag, head, stmts, flags, rnd=rounds):
        src = source(head, stmts, rnd)
        s1, ref = compile_run(tag, src, flags, 1)
        if s1 != "ok":
            return None
        s0, got = compile_run(tag, src, flags, 0)
        if s0 == "killed":
            return None
        if s0 == "compile":
            return "libstdc++ accepts the program, the fallback does not:\n" + got[:1500]
        if s0 != "ok":
            return "the program ends with %s" % s0
        if ref != got:
            for x, y in zip(ref.splitlines(), got.splitlines()):
                if x != y:
                    return "statement.round, type, lanes: libstdc++ %s, fallback %s" % (x, y)
            return "different output"
        return None

    with cf.ThreadPoolExecutor(pool) as ex:
        done = list(ex.map(one, [(i, master.getrandbits(60)) for i in range(nprog)]))
    ev, nt, samples, bad, notes = 0, set(), [], None, []
    for info, used, obs, failure, extra in done:
        if isinstance(extra, str):
            notes.append(extra)
            continue
        ev += obs
        for x in extra:
            if x:
                nt.add(info + x)
        samples.append(info + "; e.g. " + next(x for x in extra if x)[:140])
        if failure and bad is None:
            bad = failure
    res = {"unit": "fallback against libstdc++", "evaluations": ev, "distinct_nontrivial": len(nt), "samples": samples[:5]}
    if notes:
        res["skipped"] = "; ".join(sorted(set(notes)))
    if bad:
        head, stmts, flags = bad
        msg = fails("s", head, stmts, flags) or "differs"
        live = [j for j, x in enumerate(stmts) if x]
        step, tries = max(1, len(live) // 2), 0
        while step and tries < 45:
            j = 0
            while j < len(live) and tries < 45:
                cand = live[:j] + live[j + step:]
                tries += 1
                m = fails("s", head, [x if q in cand else "" for q, x in enumerate(stmts)], flags)
                if m:
                    live, msg = cand, m
                else:
                    j += step
            step //= 2
        stmts = [stmts[j] for j in live]
        src = source(head, stmts, rounds)
        c = " ".join(base + flags + R.INC)
        res["program_failure"] = {
            "source": src, "run": False, "test": "fallback against libstdc++",
            "cmd": ["bash", "-c", "%s -DUSE_TS @SRC@ -o @EXE@.ts && %s -DVIR_DISABLE_STDX_SIMD @SRC@ -o @EXE@.fb && @EXE@.ts > @EXE@.o1 && "
                    "@EXE@.fb > @EXE@.o2 && diff @EXE@.o1 @EXE@.o2" % (c, c)],
            "message": msg + "\n" + "\n".join(stmts)[:1200]}
    return [res]
