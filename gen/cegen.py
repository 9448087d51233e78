"""C06: programs that evaluate the same randomly drawn calls in a constant expression and at run time."""
import random

ALG = ["ForEach", "Visit", "ForEachStruct", "Transform", "Transform2", "TransformStruct",
       "TransformReduce", "TransformReduce2", "Reduce", "CountIf"]
SIMD = ["Ops", "Cmp", "MaskOps", "IntOps", "Permute", "Misc", "Struct"]
FBONLY = ["Where", "Red", "Cast"]  # not constexpr in libstdc++'s <experimental/simd>
TYPES = ["float", "double", "int", "unsigned", "short", "unsigned char", "signed char", "long", "unsigned short"]
INTS = [t for t in TYPES if t not in ("float", "double")]


def one(r, fallback, kind):
    seed = r.randrange(1, 10000)
    if kind == "alg":
        k = r.choice(ALG)
        t = r.choice(TYPES)
        size = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16])
        unroll = r.choice([0, 0, 0, 2, 3, 4, 5, 6])
        pro = r.choice("nnnaum")
        if "Struct" in k:
            size = min(size, 8)
        w = size or (8 if "Struct" in k else 16)
        n = r.choice([0, 1, r.randrange(2, 12), r.randrange(0, 40), w, w - 1, w + 1,
                      w * max(1, unroll) + r.randrange(-1, 3), 2 * w * max(1, unroll) + 1])
        n = max(0, min(n, 70))
        return "ITEM(%d, ce::%s<%s, %d, Pol<%d, %d, '%s'>>)" % (seed, k, t, n, size, unroll, pro)
    k = r.choice(SIMD + (FBONLY * 2 if fallback else []))
    t = r.choice(INTS if k == "IntOps" else TYPES)
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 15, 16])
    if k == "Struct":
        n = r.choice([1, 2, 3, 4, 5, 7, 8])
    return "ITEM(%d, ce::%s<%s, %d>)" % (seed, k, t, n)


def sources(seed, fallback, count, shards):
    r = random.Random("%d-%s" % (seed, fallback))
    seen, items = set(), []
    while len(items) < count:
        x = one(r, fallback, "alg" if r.random() < .55 else "simd")
        key = x.split(",", 1)[1]
        if key not in seen:
            seen.add(key)
            items.append(x)
    pre = '#include "ce_common.h"\nint main(int argc, char** argv)\n{\n'
    return [(pre, items[k::shards], "  return pbt::main(argc, argv);\n}\n") for k in range(shards)]
