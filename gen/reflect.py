"""Generates struct definitions for C22: every supported number of members in several flavours, plus
shapes drawn from the seed."""
import random

SCALAR = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned",
          "long", "unsigned long", "float", "double", "long double", "char16_t", "char8_t"]
CLASS = ["std::string", "In", "Deep", "Color", "Big", "Un", "int*", "const char*", "std::array<short, 3>",
         "std::pair<int, char>", "std::tuple<int, float>", "NoCopyMove", "std::array<int, 1>"]
ARRAY = ["int[3]", "char[5]", "In[2]", "float[2][2]", "unsigned char[1]", "std::string[2]"]
MAX = 50


def decl(t, n):
    if "[" in t:
        i = t.index("[")
        return "%s %s%s;" % (t[:i], n, t[i:])
    return "%s %s;" % (t, n)


def alias(t):
    return "Tag<%s>::type" % t


def body(name, types, access, copies, k):
    out = "static void t_%s(Src& s)\n{\n" % name
    out += "  static_assert(vir::reflectable_struct<%s> and vir::reflectable_struct<const %s&>);\n" % (name, name)
    out += "  static_assert(vir::struct_size_v<%s> == %d);\n" % (name, k)
    out += "  static %s obj{};\n" % name
    for i in range(k):
        if "const" not in types[i].split():
            out += "  gen_into(s, %s);\n" % access(i)
    out += "  s.note(\"%d members\"); s.nontrivial();\n" % k
    for i in range(k):
        out += "  check_member<%d, %s>(s, obj, %s);\n" % (i, alias(types[i]), access(i))
    if copies:
        for i in range(k):
            out += "  check_copy<%d, %s>(s, obj, %s);\n" % (i, alias(types[i]), access(i))
        ts = ", ".join(types)
        out += "  static_assert(std::is_same_v<vir::as_tuple_t<%s>, std::tuple<%s>>);\n" % (name, ts)
        if k == 2:
            out += "  static_assert(std::is_same_v<vir::as_pair_t<%s>, std::pair<%s>>);\n" % (name, ts)
    out += "}\n"
    return out


def aggregate(r, name, types, bases=()):
    d = "struct %s%s { " % (name, " : " + ", ".join(bases) if bases else "")
    for i, t in enumerate(types):
        x = decl(t, "m%d" % i)
        if t in ("int", "float", "long") and r.random() < .2:
            x = x[:-1] + " = 3;"
        if r.random() < .05:
            x += " static inline int st%d = 1; void f%d() {}" % (i, i)
        d += x + " "
    d += "};\n"
    copies = not any("[" in t for t in types)
    desc = "%s{%s}" % (" : " + ", ".join(bases) if bases else "", " ".join(types))
    return d + body(name, types, lambda i: "obj.m%d" % i, copies, len(types)), desc


def stdtuple(r, name, types, kind):
    if kind == "array":
        d = "using %s = std::array<%s, %d>;\n" % (name, types[0], len(types))
    elif kind == "pair":
        d = "using %s = std::pair<%s>;\n" % (name, ", ".join(types))
    else:
        d = "using %s = std::tuple<%s>;\n" % (name, ", ".join(types))
    return (d + body(name, types, lambda i: "std::get<%d>(obj)" % i, True, len(types)),
            "std::%s<%s>" % (kind, ", ".join(types)))


def userlike(r, name, types):
    """a class with private, shuffled data members that specializes the tuple protocol"""
    k = len(types)
    order = list(range(k))
    r.shuffle(order)
    d = "class %s {" % name
    for i in order:
        d += " %s m%d{};" % (types[i], i)
    d += "\npublic:\n"
    for c in ("", " const"):
        d += "  template <std::size_t I> auto& get()%s {" % c
        d += " else ".join(" if constexpr (I == %d) return m%d;" % (i, i) for i in range(k)) + " }\n"
    d += "};\n"
    d += "template <> struct std::tuple_size<%s> : std::integral_constant<std::size_t, %d> {};\n" % (name, k)
    for i, t in enumerate(types):
        d += "template <> struct std::tuple_element<%d, %s> { using type = %s; };\n" % (i, name, t)
    return (d + body(name, types, lambda i: "obj.template get<%d>()" % i, True, k),
            "class with tuple protocol <%s>" % ", ".join(types))


def sources(seed, nrandom, shards):
    r = random.Random(seed * 104729 + 5)
    items = []

    def add(kind, types, *a):
        name = "S%d" % len(items)
        src, desc = kind(r, name, types, *a)
        d = desc if len(desc) < 150 else desc[:150] + "..."
        items.append((len(types), src + "static const bool r_%s = (add(\"%s\", &t_%s), true);\n" % (name, d, name)))

    def mixed(n, pool):
        # large objects with 8 or more members make the search for the size very slow to compile
        if n >= 8:
            pool = [t for t in pool if "string" not in t and t not in ("Deep", "In[2]", "float[2][2]")]
        return [r.choice(pool) for _ in range(n)]

    for n in range(1, MAX + 1):
        add(aggregate, mixed(n, SCALAR))
    for n in list(range(1, 13)) + r.sample(range(13, MAX + 1), 4):
        add(aggregate, mixed(n, SCALAR + CLASS))
    for n in sorted(r.sample(range(1, 20), 6)):
        add(aggregate, mixed(n, SCALAR + CLASS + ARRAY))
    for n in range(1, 10):
        add(aggregate, mixed(n, SCALAR + CLASS + ARRAY + ["const int", "const double"]))
    for n in (1, 2, 3, 5, 8, 9, 17):
        add(aggregate, mixed(n, SCALAR), r.sample(["E1", "E2", "E3"], r.randint(1, 3)))
    for n in (7, 8, 9, 16, 17, 33):
        add(aggregate, ["char"] * n)   # sizeof(S) * CHAR_BIT bounds the search
        add(aggregate, ["bool"] * n)
    for n in list(range(1, 17)) + r.sample(range(17, MAX + 1), 6) + [MAX]:
        add(stdtuple, mixed(n, SCALAR + CLASS), "tuple")
    for n in (1, 2, 3, 4, 7, 16, 50):
        add(stdtuple, mixed(1, SCALAR + CLASS) * n if n < 8 else mixed(8, SCALAR + CLASS)[:1] * n, "array")
    for _ in range(4):
        add(stdtuple, mixed(2, SCALAR + CLASS), "pair")
    for n in (1, 2, 3, 5, 9):
        add(userlike, mixed(n, SCALAR))
    while nrandom:
        nrandom -= 1
        n = r.choice([r.randint(1, 8), r.randint(1, MAX)])
        k = r.randrange(4)
        if k == 0:
            add(aggregate, mixed(n, SCALAR + CLASS + ARRAY))
        elif k == 1:
            add(aggregate, mixed(n, SCALAR + CLASS), r.sample(["E1", "E2", "E3"], r.randint(0, 3)))
        elif k == 2:
            add(stdtuple, mixed(n, SCALAR + CLASS), "tuple")
        else:
            add(userlike, mixed(min(n, 20), SCALAR))
    bins = [[0, []] for _ in range(shards)]
    for n, t in sorted(items, key=lambda x: -x[0]):
        b = min(bins, key=lambda b: b[0])
        b[0] += 4 + n
        b[1].append(t)
    pre = "#include \"reflect_common.h\"\n"
    return [(pre, b[1], "int main(int argc, char** argv) { return pbt::main(argc, argv); }\n") for b in bins]
