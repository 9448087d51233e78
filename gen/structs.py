"""Generates struct shapes for C20/C21: a fixed core plus shapes drawn from the seed.

A shape is (definitions, type expression, tree); a tree is a leaf type (str) or (kind, members) with
kind 'agg' (members named), 'tup' (std::tuple/pair/array) or 'carr' (C array)."""
import random

SCALARS = ["float", "double", "signed char", "unsigned char", "short", "unsigned short", "int",
           "unsigned", "long", "unsigned long", "char", "char16_t", "char32_t", "wchar_t",
           "long long", "unsigned long long"]
NAMES = "x y z w a b c d e f g h".split()


class Shape:
    def __init__(self, expr, tree, defs=""):
        self.expr, self.tree, self.defs = expr, tree, defs


def leaves(tree, acc="s", path=()):
    """-> list of (type, access expression, index path)"""
    if isinstance(tree, str):
        return [(tree, acc, path)]
    kind, ms = tree
    out = []
    for i, m in enumerate(ms):
        if kind == "agg":
            a = "%s.%s" % (acc, m[0])
            sub = m[1]
        elif kind == "tup":
            a = "std::get<%d>(%s)" % (i, acc)
            sub = m
        else:
            a = "%s[%d]" % (acc, i)
            sub = m
        out += leaves(sub, a, path + (i,))
    return out


PRELUDE = """template <typename A> struct P1 { A x; };
template <typename A> struct P2 { A x, y; };
template <typename A> struct P3 { A x, y, z; };
template <typename A> struct P4 { A x, y, z, w; };
template <typename A> struct P5 { A x, y, z, w, a; };
template <typename A, typename B> struct Q2 { A x; B y; };
template <typename A, typename B> struct R3 { A x; B y; A z; };
template <typename A, typename B, typename C> struct Q3 { A x; B y; C z; };
template <typename A, typename B, typename C, typename D> struct Q4 { A x; B y; C z; D w; };
template <typename A, std::size_t N> struct Arr { A x[N]; };
template <typename A> struct W { A x; };
template <typename A> struct WP2 { P2<A> x; };
template <typename A> struct WP3 { P3<A> x; };
"""


def P(k, t):
    return Shape("P%d<%s>" % (k, t), ("agg", [(NAMES[i], t) for i in range(k)]))


def Q(*ts):
    return Shape("Q%d<%s>" % (len(ts), ", ".join(ts)), ("agg", [(NAMES[i], t) for i, t in enumerate(ts)]))


def R3(a, b):
    return Shape("R3<%s, %s>" % (a, b), ("agg", [("x", a), ("y", b), ("z", a)]))


def ARR(t, n):
    return Shape("Arr<%s, %d>" % (t, n), ("agg", [("x", ("carr", [t] * n))]))


def WP(k, t):
    return Shape("WP%d<%s>" % (k, t), ("agg", [("x", P(k, t).tree)]))


def TUP(*ts):
    return Shape("std::tuple<%s>" % ", ".join(ts), ("tup", list(ts)))


def PAIR(a, b):
    return Shape("std::pair<%s, %s>" % (a, b), ("tup", [a, b]))


def SARR(t, n):
    return Shape("std::array<%s, %d>" % (t, n), ("tup", [t] * n))


class Namer:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return "G%d" % self.n


def plain(nm, members):
    """non-template aggregate; members: scalars or Shapes"""
    name = nm.next()
    defs, body, ms = "", "", []
    for i, m in enumerate(members):
        if isinstance(m, Shape):
            defs += m.defs
            body += " %s %s;" % (m.expr, NAMES[i])
            ms.append((NAMES[i], m.tree))
        else:
            body += " %s %s;" % (m, NAMES[i])
            ms.append((NAMES[i], m))
    return Shape(name, ("agg", ms), defs + "struct %s {%s };\n" % (name, body))


def tpl(nm, args, members):
    """template aggregate with |args| type parameters; members: indexes of parameters"""
    name = nm.next()
    ps = ", ".join("typename A%d" % i for i in range(len(args)))
    body = "".join(" A%d %s;" % (m, NAMES[i]) for i, m in enumerate(members))
    return Shape("%s<%s>" % (name, ", ".join(args)),
                 ("agg", [(NAMES[i], args[m]) for i, m in enumerate(members)]),
                 "template <%s> struct %s {%s };\n" % (ps, name, body))


def qn(*shapes):
    """Qk over shapes/scalars"""
    es = [m.expr if isinstance(m, Shape) else m for m in shapes]
    return Shape("Q%d<%s>" % (len(es), ", ".join(es)),
                 ("agg", [(NAMES[i], m.tree if isinstance(m, Shape) else m) for i, m in enumerate(shapes)]),
                 "".join(m.defs for m in shapes if isinstance(m, Shape)))


def core(nm):
    s = []
    # every shuffled load/store path: 2 and 3 members of equal size, all element sizes, all widths
    pow2 = [1, 2, 3, 4, 5, 8, 16, 32, 0]
    for t in ["float", "double", "int", "unsigned short", "signed char", "long"]:
        s.append((P(2, t), pow2))
        s.append((P(3, t), pow2))
    s.append((Q("float", "int"), [2, 4, 8, 0]))
    s.append((Q("int", "float", "unsigned"), [2, 4, 8, 3, 0]))
    s.append((Q("float", "float", "int"), [4, 8]))
    s.append((Q("short", "unsigned short", "char16_t"), [4, 8, 16]))
    s.append((Q("unsigned char", "signed char", "char"), [4, 8, 16, 0]))
    s.append((Q("float", "short"), [2, 4, 8, 0]))
    s.append((Q("double", "signed char", "short"), [4, 8, 3]))
    s.append((R3("float", "unsigned"), [4, 8, 0]))
    s.append((P(1, "float"), [1, 4, 7, 0]))
    s.append((P(4, "float"), [2, 4, 8, 3, 0]))
    s.append((P(4, "short"), [4, 8, 0]))
    s.append((P(5, "double"), [2, 4, 0]))
    s.append((ARR("float", 2), [1, 2, 4, 8, 0]))
    s.append((ARR("float", 3), [1, 4, 8, 6, 0]))
    s.append((ARR("short", 4), [4, 8]))
    s.append((WP(2, "float"), [2, 4, 8, 5]))
    s.append((WP(3, "float"), [4, 8, 5]))
    s.append((WP(3, "int"), [4, 8]))
    s.append((SARR("float", 2), [2, 4, 8, 0]))
    s.append((SARR("float", 3), [4, 8, 3, 0]))
    s.append((SARR("unsigned short", 3), [8, 16]))
    s.append((PAIR("float", "int"), [2, 4, 8, 0]))
    s.append((PAIR("double", "double"), [2, 4, 0]))
    s.append((TUP("float", "float"), [2, 4, 8, 0]))
    s.append((TUP("float", "float", "float"), [4, 8, 0]))
    s.append((TUP("int", "short", "double"), [2, 4, 8]))
    s.append((TUP("short", "short", "short"), [8]))
    s.append((plain(nm, ["float", "short"]), [1, 4, 3, 8, 0]))
    s.append((plain(nm, ["float", "float"]), [4, 8]))
    s.append((plain(nm, ["float", "float", "float"]), [4, 8, 0]))
    s.append((plain(nm, ["int", "double", "short"]), [4, 8]))
    s.append((plain(nm, [plain(nm, ["float", "short"]), "double"]), [2, 4]))
    s.append((plain(nm, ["signed char", P(2, "float")]), [3, 4]))
    s.append((plain(nm, [P(3, "float"), P(3, "float")]), [4, 8]))
    s.append((plain(nm, [TUP("float", "int"), SARR("short", 3)]), [4]))
    s.append((qn(P(2, "float"), "float"), [4, 8]))
    s.append((qn("int", P(3, "int")), [4, 8]))
    s.append((plain(nm, [plain(nm, [P(2, "short"), "char"]), plain(nm, ["long"])]), [2, 4]))
    return s


def flat(tree):
    return not isinstance(tree, str) and all(
        isinstance(m[1] if tree[0] == "agg" else m, str) for m in tree[1])


def rand_shape(r, nm, depth=0):
    k = r.randrange(8)
    ts = lambda n: [r.choice(SCALARS) for _ in range(n)]
    if k == 0:
        n = r.randint(1, 3)
        a = ts(n)
        return tpl(nm, a, list(range(n)) + [r.randrange(n) for _ in range(r.randint(0, 3))])
    if k == 1:
        t = r.choice(SCALARS)
        return tpl(nm, [t], [0] * r.randint(2, 6))
    if k == 2:
        return TUP(*ts(r.randint(1, 5)))
    if k == 3:
        return r.choice([lambda: PAIR(*ts(2)), lambda: SARR(r.choice(SCALARS), r.randint(2, 6)),
                         lambda: ARR(r.choice(SCALARS), r.randint(2, 5))])()
    if k == 4 or depth >= 2:
        return plain(nm, ts(r.randint(1, 7)))
    if k == 5:
        sz = r.choice([["float", "int", "unsigned", "char32_t"], ["short", "unsigned short", "char16_t"],
                       ["double", "long", "unsigned long"], ["signed char", "unsigned char", "char"]])
        return Q(*[r.choice(sz) for _ in range(r.randint(2, 3))])
    ms = []
    for _ in range(r.randint(1, 3)):
        ms.append(rand_shape(r, nm, depth + 1) if r.random() < .5 else r.choice(SCALARS))
    return plain(nm, ms)


def item(shape, ns, idx):
    ls = leaves(shape.tree)
    s = shape.defs
    s += "using S%d = %s;\n" % (idx, shape.expr)
    s += "template <> struct Desc<S%d>\n{\n" % idx
    s += "  static constexpr int n = %d; static constexpr bool flat = %s;\n" % (
        len(ls), "true" if flat(shape.tree) else "false")
    members = ", ".join("%s %s" % (t, a) for t, a, _ in ls)
    s += "  static const char* name() { return \"%s {%s}\"; }\n" % (shape.expr, members)
    s += "  template <int I> static auto& leaf(auto& s)\n  {\n"
    for i, (t, a, p) in enumerate(ls):
        s += "    %sif constexpr (I == %d) return %s;\n" % ("else " if i else "", i, a)
    s += "  }\n  template <int I> static auto& vleaf(auto& v)\n  {\n"
    for i, (t, a, p) in enumerate(ls):
        s += "    %sif constexpr (I == %d) return vget<%s>(v);\n" % (
            "else " if i else "", i, ", ".join(map(str, p)))
    s += "  }\n};\n"
    s += "static const bool r%d = (reg_struct<S%d, %s>(), true);\n" % (idx, idx, ", ".join(map(str, ns)))
    return s


def sources(seed, nrandom, shards, test):
    """-> list of (prelude, [items], epilogue)"""
    nm = Namer()
    r = random.Random(seed * 7919 + 17)
    shapes = core(nm)
    seen = {s.expr for s, _ in shapes}
    while nrandom:
        s = rand_shape(r, nm)
        nl = len(leaves(s.tree))
        if nl > 14 or s.expr in seen:
            continue
        seen.add(s.expr)
        shapes.append((s, sorted(r.sample([1, 2, 3, 4, 5, 6, 7, 8, 12, 16], 3))))
        nrandom -= 1
    # balance by number of instances x leaves
    bins = [[0, []] for _ in range(shards)]
    for i, (s, ns) in sorted(enumerate(shapes), key=lambda x: -len(x[1][1]) * (2 + len(leaves(x[1][0].tree)))):
        b = min(bins, key=lambda b: b[0])
        b[0] += len(ns) * (2 + len(leaves(s.tree)))
        b[1].append(item(s, ns, i))
    pre = "#define STRUCT_TEST %s\n#include \"struct_common.h\"\n%s" % (test, PRELUDE)
    return [(pre, b[1], "int main(int argc, char** argv) { return pbt::main(argc, argv); }\n") for b in bins]
