"""C23: random expression trees over constexpr_wrapper operands and random _cw literals.

The Python model (C++ integer promotion and usual arithmetic conversions) serves to draw only
expressions with a defined value and gives a second, independent expected value."""
import os
import random
import subprocess

T = {"bool": (1, False, 0), "signed char": (8, True, 1), "unsigned char": (8, False, 1),
     "char": (8, True, 1), "short": (16, True, 2), "unsigned short": (16, False, 2), "int": (32, True, 3),
     "unsigned": (32, False, 3), "long": (64, True, 4), "unsigned long": (64, False, 4),
     "long long": (64, True, 5), "unsigned long long": (64, False, 5)}


def rng(t):
    b, s, _ = T[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def promote(t):
    return "int" if T[t][2] < 3 else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    (ba, sa, ra), (bb, sb, rb) = T[a], T[b]
    if sa == sb:
        return a if ra >= rb else b
    u, s = (b, a) if sa else (a, b)
    if T[u][2] >= T[s][2]:
        return u
    if T[s][0] > T[u][0]:
        return s
    return "unsigned long" if s == "long" else "unsigned long long"


def conv(v, t):
    b, s, _ = T[t]
    if t == "bool":
        return int(v != 0)
    v &= (1 << b) - 1
    return v - (1 << b) if s and v >> (b - 1) else v


def fits(v, t):
    lo, hi = rng(t)
    return lo <= v <= hi


def binop(op, ta, a, tb, b):
    """-> (type, value) or None when undefined"""
    if op in ("<<", ">>"):
        t = promote(ta)
        n = T[t][0]
        if b < 0 or b >= n:
            return None
        a = conv(a, t)
        return (t, conv(a << b, t)) if op == "<<" else (t, a >> b)
    if op in ("&&", "||"):
        return ("bool", int(bool(a) and bool(b)) if op == "&&" else int(bool(a) or bool(b)))
    if op == ",":
        return (tb, b)
    t = common(ta, tb)
    x, y = conv(a, t), conv(b, t)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return ("bool", int(eval("x %s y" % op)))
    if op in ("/", "%"):
        if y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if not fits(q, t) and T[t][1]:
            return None
        r = q if op == "/" else x - q * y
    else:
        r = eval("x %s y" % op)
    if T[t][1] and not fits(r, t):
        return None
    return (t, conv(r, t))


def unop(op, t, a):
    if op == "!":
        return ("bool", int(not a))
    p = promote(t)
    a = conv(a, p)
    r = {"+": a, "-": -a, "~": ~a}[op]
    if T[p][1] and not fits(r, p):
        return None
    return (p, conv(r, p))


def lit(t, v):
    """v as an expression of type t"""
    if t == "bool":
        return "true" if v else "false"
    lo, _ = rng(t)
    if v == lo and v < 0:
        return "%s(%dll - 1)" % ("static_cast<%s>" % t, v + 1)
    return "static_cast<%s>(%d%s)" % (t, v, "ull" if v > (1 << 63) - 1 else "ll")


class Node:
    def __init__(self, t, v, plain, run, wrapped, iscw, ops):
        self.t, self.v, self.plain, self.run, self.wrapped, self.iscw, self.ops = t, v, plain, run, wrapped, iscw, ops


def rand_value(r, t):
    lo, hi = rng(t)
    k = r.randrange(5)
    if k == 0:
        v = r.choice([lo, hi, 0, 1, hi - 1, lo + 1])
    elif k == 1:
        v = r.randint(max(lo, -5), min(hi, 5))
    elif k == 2:
        v = r.randint(lo, hi)
    else:
        v = r.randint(max(lo, -40), min(hi, 70))
    return max(lo, min(hi, v))


def leaf(r, vars_, allow_ic=True):
    t = r.choice(list(T))
    v = rand_value(r, t)
    p = lit(t, v)
    name = "v%d" % len(vars_)
    vars_.append("volatile %s %s_ = %s; const %s %s = %s_;" % (t, name, p, t, name, name))
    if allow_ic and r.random() < .15:
        return Node(t, v, p, name, "std::integral_constant<%s, %s>()" % (t, p), False, 0)
    return Node(t, v, p, name, "vir::cw<%s>" % p, True, 0)


BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", ","]
UN = ["+", "-", "~", "!"]


def tree(r, depth, vars_, ops=BIN):
    if depth == 0:
        return leaf(r, vars_)
    if r.random() < .2:
        a = tree(r, depth - 1, vars_)
        if not a.iscw:
            return a
        op = r.choice(UN)
        x = unop(op, a.t, a.v)
        if x is None:
            return a
        return Node(x[0], x[1], "(%s(%s))" % (op, a.plain), "(%s(%s))" % (op, a.run),
                    "(%s(%s))" % (op, a.wrapped), True, a.ops + 1)
    a = tree(r, depth - 1, vars_)
    b = tree(r, r.randrange(depth), vars_)
    if not (a.iscw or b.iscw):
        return a
    for _ in range(20):
        op = r.choice(ops)
        x = binop(op, a.t, a.v, b.t, b.v)
        if x is None and op in ("<<", ">>") and b.ops == 0:
            continue
        if x is not None:
            def f(x, y):
                return "(" + x + " " + op + " " + y + ")"

            return Node(x[0], x[1], f(a.plain, b.plain), f(a.run, b.run), f(a.wrapped, b.wrapped),
                        True, a.ops + b.ops + 1)
    return a if a.iscw else b


def expr_item(r, k, op=None):
    while True:
        vars_ = []
        n = tree(r, r.choice([1, 1, 2, 3]), vars_, [op] if op else BIN)
        if n.iscw and n.ops:
            break
    s = "CW_SAME(%s, %s);\n" % (n.wrapped, n.plain)
    s += "static_assert(%s == %s);\n" % (n.plain, lit(n.t, n.v))
    s += "static void e%d(Src& s) { s.nontrivial(); s.note(\"%s\");\n" % (k, n.wrapped)
    s += "  %s\n" % " ".join(vars_)
    s += "  cw_eq<%s>((%s).value, %s, \"run-time value\"); }\n" % (n.t, n.wrapped, n.run)
    s += "static const bool re%d = (add(\"expression %d\", &e%d), true);\n" % (k, k, k)
    return s


def mixed_item(r, k):
    """one plain operand: unwrapped result"""
    while True:
        ta, tb = r.choice(list(T)), r.choice(list(T))
        a, b = rand_value(r, ta), rand_value(r, tb)
        op = r.choice(BIN[:-1])
        if binop(op, ta, a, tb, b):
            break
    left = r.random() < .5
    w = "(vir::cw<%s> %s %s)" % (lit(ta, a), op, lit(tb, b)) if left else \
        "(%s %s vir::cw<%s>)" % (lit(ta, a), op, lit(tb, b))
    s = "CW_PLAIN(%s, (%s %s %s));\n" % (w, lit(ta, a), op, lit(tb, b))
    s += "static void m%d(Src& s) { s.nontrivial(); s.note(\"%s\"); volatile %s a = %s; volatile %s b = %s;\n" % (
        k, w, ta, lit(ta, a), tb, lit(tb, b))
    s += "  const %s x = a; const %s y = b; cw_eq<decltype(x %s y)>(%s, (x %s y), \"run-time value\"); }\n" % (
        ta, tb, op, "vir::cw<%s> %s y" % (lit(ta, a), op) if left else "x %s vir::cw<%s>" % (op, lit(tb, b)), op)
    s += "static const bool rm%d = (add(\"mixed expression %d\", &m%d), true);\n" % (k, k, k)
    return s


def spell(r, v, base=None, zeros=None):
    base = base or r.choice([2, 8, 10, 10, 16, 16])
    if base == 10:
        d = str(v)
        pre = ""
    elif base == 16:
        d = "%x" % v
        d = "".join(c.upper() if r.random() < .5 else c for c in d)
        pre = r.choice(["0x", "0X"])
    elif base == 2:
        d = bin(v)[2:]
        pre = r.choice(["0b", "0B"])
    else:
        d = "%o" % v
        pre = "0"
    if base != 10 and r.random() < .3:
        d = "0" * r.randint(1, 6) + d
    if r.random() < .5:
        out = d[0]
        for c in d[1:]:
            if out[-1] != "'" and r.random() < .3:
                out += "'"
            out += c
        d = out
    if base == 8 and r.random() < .1:
        d = "'" + d
    return pre + d


def lit_type(v):
    for t in ("signed char", "short", "int", "long", "long long"):
        if v <= rng(t)[1]:
            return t
    return "unsigned long long"


def rand_lit(r):
    k = r.randrange(5)
    if k == 0:
        return r.randint(0, 300)
    if k == 1:
        b = r.choice([7, 8, 15, 16, 31, 32, 63, 64])
        return max(0, min((1 << 64) - 1, (1 << b) + r.randint(-2, 1)))
    if k == 2:
        return r.getrandbits(r.randint(1, 64))
    if k == 3:
        return max(0, min((1 << 64) - 1, 10 ** r.randint(0, 19) + r.randint(-1, 1)))
    return (1 << r.randint(0, 63)) + r.choice([-1, 0, 1])


def lit_item(r, k, v=None, base=None):
    v = rand_lit(r) if v is None else v
    s = spell(r, v, base)
    t = lit_type(v)
    return ("static_assert(literal_is<%s, %s>(%s_cw));\n"
            "static void l%d(Src& s) { s.nontrivial(); s.note(\"%s_cw\"); auto x = %s_cw; volatile %s y = %s;\n"
            "  %s z = x; cw_eq<%s>(z, y, \"run-time value\"); cw_eq<%s>(x.value, y, \"value\"); cw_eq<%s>(x(), y, \"call\"); }\n"
            "static const bool rl%d = (add(\"literal %d\", &l%d), true);\n"
            % (t, lit(t, v), s, k, s, s, t, lit(t, v), t, t, t, t, k, k, k))


FIXED = r"""
struct Pt
{
  int x, y;
  constexpr bool operator==(const Pt&) const = default;
  constexpr Pt operator+(Pt o) const { return {x + o.x, y + o.y}; }
  constexpr Pt operator-(Pt o) const { return {x - o.x, y - o.y}; }
  constexpr Pt operator*(Pt o) const { return {x * o.x, y * o.y}; }
  constexpr Pt operator+=(Pt o) const { return {x + o.x + 1, y + o.y}; }
  constexpr Pt operator-=(Pt o) const { return {x - o.x + 2, y - o.y}; }
  constexpr Pt operator*=(Pt o) const { return {x * o.x + 3, y * o.y}; }
  constexpr Pt operator/=(Pt o) const { return {x / o.x + 4, y / o.y}; }
  constexpr Pt operator%=(Pt o) const { return {x % o.x + 5, y % o.y}; }
  constexpr Pt operator&=(Pt o) const { return {(x & o.x) + 6, y & o.y}; }
  constexpr Pt operator|=(Pt o) const { return {(x | o.x) + 7, y | o.y}; }
  constexpr Pt operator^=(Pt o) const { return {(x ^ o.x) + 8, y ^ o.y}; }
  constexpr Pt operator<<=(Pt o) const { return {(x << o.x) + 9, y << o.y}; }
  constexpr Pt operator>>=(Pt o) const { return {(x >> o.x) + 10, y >> o.y}; }
  constexpr Pt operator++() const { return {x + 1, y}; }
  constexpr Pt operator++(int) const { return {x, y + 1}; }
  constexpr Pt operator--() const { return {x - 1, y}; }
  constexpr Pt operator--(int) const { return {x, y - 1}; }
  constexpr Pt operator~() const { return {y, x}; }
  constexpr int operator[](int i) const { return i ? y : x; }
#if __cpp_multidimensional_subscript
  constexpr int operator[](int a, int b) const { return a * y - b * x; }
  constexpr int operator[]() const { return 3 * x + y; }
#endif
  constexpr int operator()(int a, int b) const { return a * x - b * y; }
  constexpr Pt operator->*(Pt o) const { return {x - o.y, y - o.x}; }
  constexpr int sum() const { return x + y; }
};
"""


def class_item(r, k):
    x, y, u, v = [r.randint(1, 9) for _ in range(4)]
    a, b = "Pt{%d, %d}" % (x, y), "Pt{%d, %d}" % (u, v)
    lines = []
    for op in ("+", "-", "*", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "->*", "==", "!="):
        lines.append("static_assert((vir::cw<%s> %s vir::cw<%s>).value == (%s %s %s));" % (a, op, b, a, op, b))
        lines.append("static_assert(is_cw<decltype(vir::cw<%s> %s vir::cw<%s>)>::value);" % (a, op, b))
    for op in ("++", "--", "~"):
        lines.append("static_assert((%svir::cw<%s>).value == %s%s);" % (op, a, op, a))
    for op in ("++", "--"):
        lines.append("static_assert((vir::cw<%s>%s).value == %s%s);" % (a, op, a, op))
    i = r.randint(0, 1)
    p, q = r.randint(-9, 9), r.randint(-9, 9)
    lines += ["static_assert((vir::cw<%s>[vir::cw<%d>]).value == %s[%d]);" % (a, i, a, i),
              "static_assert(vir::cw<%s>[%d] == %s[%d]);" % (a, i, a, i),
              "static_assert(vir::cw<%s>(vir::cw<%d>, vir::cw<%d>).value == %s(%d, %d));" % (a, p, q, a, p, q),
              "static_assert(vir::cw<%s>(vir::cw<%d>, %d) == %s(%d, %d));" % (a, p, q, a, p, q),
              "static_assert(vir::cw<%s>(%d, %d) == %s(%d, %d));" % (a, p, q, a, p, q),
              "static_assert(vir::cw<%s>->sum() == %d);" % (a, x + y),
              "static_assert(vir::cw<%s>()  == %s);" % (a, a),
              "static_assert(vir::constexpr_value<decltype(vir::cw<%s>), Pt>);" % a,
              "static_assert(not vir::constexpr_value<decltype(vir::cw<%s>), int>);" % a,
              "static_assert(vir::constexpr_value<std::integral_constant<int, %d>>);" % p,
              "static_assert(vir::constexpr_value<std::integral_constant<int, %d>, long>);" % p,
              "static_assert(not vir::constexpr_value<int> and not vir::constexpr_value<Pt>);",
              "static_assert(std::array<int, %d_cw>{}.size() == %d);" % (x, x)]
    lines += ["static_assert((vir::cw<%s>[std::integral_constant<int, %d>()]).value == %s[%d]);" % (a, i, a, i),
              "static_assert(is_cw<decltype(vir::cw<%s>[vir::cw<%d>])>::value);" % (a, i),
              "static_assert(is_cw<decltype(vir::cw<%s>(vir::cw<%d>, vir::cw<%d>))>::value);" % (a, p, q),
              "static_assert(std::is_same_v<decltype(vir::cw<%s>[%d]), int>);" % (a, i),
              "#if __cpp_multidimensional_subscript",
              "static_assert((vir::cw<%s>[vir::cw<%d>, vir::cw<%d>]).value == %s[%d, %d]);" % (a, p, q, a, p, q),
              "static_assert(is_cw<decltype(vir::cw<%s>[vir::cw<%d>, vir::cw<%d>])>::value);" % (a, p, q),
              "static_assert(vir::cw<%s>[vir::cw<%d>, %d] == %s[%d, %d]);" % (a, p, q, a, p, q),
              "static_assert(vir::cw<%s>[%d, vir::cw<%d>] == %s[%d, %d]);" % (a, p, q, a, p, q),
              "static_assert(vir::cw<%s>[%d, %d] == %s[%d, %d]);" % (a, p, q, a, p, q),
              "static_assert(vir::cw<%s>[].value == %s[]);" % (a, a),
              "#endif"]
    d, e = r.choice([.5, 1.25, -3., 100., 1e10]), r.choice([2., .25, -8., 3.5])
    for op in ("+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="):
        lines.append("CW_SAME((vir::cw<%r> %s vir::cw<%r>), (%r %s %r));" % (d, op, e, d, op, e))
        lines.append("CW_SAME((vir::cw<%rf> %s vir::cw<%d>), (%rf %s %d));" % (d, op, q or 1, d, op, q or 1))
    lines.append("CW_SAME((-vir::cw<%r>), -(%r)); CW_SAME((!vir::cw<%r>), !(%r));" % (d, d, d, d))
    s = "\n".join(lines) + "\n"
    s += "static void c%d(Src& s) { s.nontrivial(); s.note(\"class operands %s %s\"); auto w = vir::cw<%s>; int i = s.range(0, 1); cw_eq<int>(w[i], (%s)[i], \"subscript\"); int j = s.range(-50, 50); cw_eq<int>(w(i, j), (%s)(i, j), \"call\"); }\n" % (k, a, b, a, a, a)
    s += "static const bool rc%d = (add(\"class operands %d\", &c%d), true);\n" % (k, k, k)
    return s


def sources(seed, n, shards):
    r = random.Random(seed * 6151 + 3)
    items = []
    for i in range(n):
        items.append(expr_item(r, len(items)))
    for op in BIN:  # every operator on its own
        for _ in range(3):
            items.append(expr_item(r, len(items), op))
    for i in range(n // 3):
        items.append(mixed_item(r, len(items)))
    for i in range(n):
        items.append(lit_item(r, len(items)))
    for v in [0, 1, 2, 3, 7, 8, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1,
              2**32, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]:
        for b in (2, 8, 10, 16):
            items.append(lit_item(r, len(items), v, b))
    for i in range(6):
        items.append(class_item(r, len(items)))
    r.shuffle(items)
    pre = "#include \"cw_common.h\"\n" + FIXED
    return [(pre, items[i::shards], "int main(int argc, char** argv) { return pbt::main(argc, argv); }\n")
            for i in range(shards)]


def run(prop, tier, seed, workdir, pool, **kw):
    """literals that exceed unsigned long long must be rejected"""
    import run as R
    r = random.Random(seed * 31 + 7)
    n = 40 if tier == "thorough" else 12
    out, samples = [], []
    bad = None
    for i in range(n):
        v = r.choice([1 << 64, (1 << 64) + 1, 10 ** 20, (1 << 64) + r.getrandbits(60), r.getrandbits(40) + (1 << 65),
                      (1 << 64) * r.randint(2, 17), (1 << 64) * 10 + r.getrandbits(20), (1 << 72) - 1])
        s = spell(r, v)
        src = os.path.join(workdir, "cwneg%d.cpp" % i)
        text = "#include <vir/constexpr_wrapper.h>\nusing namespace vir::literals;\nauto x = %s_cw;\n" % s
        open(src, "w").write(text)
        rc, o = R.sh([R.CXX, "-std=gnu++20", "-w", "-fsyntax-only"] + R.INC + [src], 100)
        samples.append("%s_cw (= %d) rejected: %s" % (s, v, rc != 0))
        if rc == 0 and bad is None:
            # replay: a program that fails to compile or exits non-zero while the literal is accepted
            bad = {"source": "#include <vir/constexpr_wrapper.h>\nusing namespace vir::literals;\n"
                             "auto x = %s_cw;\nint main() { return 1; } // accepted although too large\n" % s,
                   "cmd": [R.CXX, "-std=gnu++20", "-w"] + R.INC + ["@SRC@", "-o", "@EXE@"], "run": True,
                   "test": "literal out of range", "expect_reject": True,
                   "message": "%s_cw exceeds unsigned long long but is accepted" % s}
    res = {"unit": "out-of-range literals", "evaluations": n, "distinct_nontrivial": len(set(samples)),
           "samples": samples[:3]}
    if bad:
        res["program_failure"] = bad
    return [res]
