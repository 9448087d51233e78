"""C27: headers work alone, together, in any order and in several translation units.

A program is a list of translation units; each is a sequence of includes and, after any include, a function that uses
what that header documents and compares with a scalar model.  Language standard, standard library simd or
fallback, documented options and optimization level are drawn.  It must compile, link and return 0."""
import concurrent.futures as cf
import os
import random

ALWAYS = ["simd", "simd_version", "simd_bit", "simd_bitset", "simd_cast", "simd_float_ops", "simd_resize", "detail"]
CONCEPTS = ["simd_concepts", "simd_cvt", "simd_iota", "simd_permute", "simdize", "simd_execution", "struct_reflect",
            "constexpr_wrapper", "simd_benchmarking"]
FLOATS = ["float", "double"]
INTS = ["int", "short", "unsigned char", "long long", "unsigned"]
MACRO = {"simd_concepts": "VIR_HAVE_SIMD_CONCEPTS", "simd_cvt": "VIR_HAVE_SIMD_CVT", "simd_iota": "VIR_HAVE_SIMD_IOTA",
         "simd_permute": "VIR_HAVE_SIMD_PERMUTE", "simdize": "VIR_HAVE_SIMDIZE", "simd_execution": "VIR_HAVE_SIMD_EXECUTION",
         "struct_reflect": "VIR_HAVE_STRUCT_REFLECT", "constexpr_wrapper": "VIR_HAVE_CONSTEXPR_WRAPPER",
         "simd_benchmarking": "VIR_HAVE_SIMD_BENCHMARKING"}


def fix(t, n):
    return "vir::stdx::simd<%s, vir::stdx::simd_abi::fixed_size<%d>>" % (t, n)


def mfix(t, n):
    return "vir::stdx::simd_mask<%s, vir::stdx::simd_abi::fixed_size<%d>>" % (t, n)


def s_simd(r):
    t, n, a, b = r.choice(FLOATS + INTS), r.randrange(1, 13), r.randrange(1, 9), r.randrange(1, 9)
    k = r.randrange(4)
    if k == 0:
        return "%s v([](int i) { return %s(i + %d); }); v += %d; int s = 0; for (int i = 0; i < %d; ++i) s += int(v[i]); return s == %d;" % (
            fix(t, n), "static_cast<%s>" % t, a, b, n, sum(i + a + b for i in range(n)))
    if k == 1:
        return "%s v([](int i) { return static_cast<%s>(i); }); auto m = v < %s(%d); return popcount(m) == %d;" % (
            fix(t, n), t, "static_cast<%s>" % t, a, min(a, n))
    if k == 2:
        return "%s v([](int i) { return static_cast<%s>(i); }); where(v > %s(%d), v) = %s(0); return int(reduce(v)) == %d;" % (
            fix(t, n), t, "static_cast<%s>" % t, a, "static_cast<%s>" % t, sum(i if i <= a else 0 for i in range(n)))
    return ("%s m(true); m[%d] = false; auto x = vir::stdx::static_simd_cast<%s>(m); return popcount(x) == %d;"
            % (mfix(t, n), a % n, mfix(r.choice(INTS), n), n - 1))


def s_version(r):
    k = r.randrange(3)
    if k == 0:
        return ("constexpr vir::simd_version_t w{%d, %d, %d}; return (vir::simd_version < w) == "
                "(vir::simd_version.major < %d or (vir::simd_version.major == %d and (vir::simd_version.minor < %d "
                "or (vir::simd_version.minor == %d and vir::simd_version.patchlevel < %d))));" % ((0, 4, 3, 0, 0, 4, 4, 3)))
    if k == 1:
        return ("return vir::simd_version == vir::simd_version_t{VIR_SIMD_VERSION_MAJOR, VIR_SIMD_VERSION_MINOR, "
                "VIR_SIMD_VERSION_PATCHLEVEL};")
    return ("return VIR_SIMD_VERSION == VIR_SIMD_VERSION_MAJOR * 0x10000 + VIR_SIMD_VERSION_MINOR * 0x100 + "
            "VIR_SIMD_VERSION_PATCHLEVEL;")


def s_bit(r):
    n = r.randrange(1, 9)
    return ("%s v(1.5f); auto i = vir::simd_bit_cast<%s>(v); bool ok = true; for (int k = 0; k < %d; ++k) ok = ok and "
            "int(i[k]) == 0x3fc00000; return ok;" % (fix("float", n), fix("int", n), n))


def s_bitset(r):
    n, b = r.randrange(1, 65), r.getrandbits(64)
    t = r.choice(INTS + FLOATS)
    n = min(n, 32)
    b &= (1 << n) - 1
    if r.random() < .5:
        return ("auto k = vir::to_simd_mask<%s, %d>(std::bitset<%d>(%dull)); return popcount(k) == %d and "
                "vir::to_bitset(k).to_ullong() == %dull;" % (t, n, n, b, bin(b).count("1"), b))
    return ("constexpr int n = vir::stdx::simd_size_v<%s>; auto k = vir::to_simd_mask<%s, vir::stdx::simd_abi::native<%s>>(std::bitset<n>(1)); "
            "return popcount(k) == 1 and bool(k[0]);" % ("%s, vir::stdx::simd_abi::native<%s>" % (t, t), t, t))


def s_cast(r):
    n, t, u = r.randrange(1, 9), r.choice(INTS), r.choice(INTS + FLOATS)
    # (documented for masks; with libstdc++ vir::static_simd_cast is limited to them)
    return ("%s k(true); k[%d] = false; auto w = vir::static_simd_cast<%s>(k); return popcount(w) == %d and not w[%d];"
            % (mfix(t, n), n - 1, mfix(u, n), n - 1, n - 1))


def s_float_ops(r):
    n, t = r.randrange(1, 9), r.choice(FLOATS)
    return ("using namespace vir::simd_float_ops; %s v(%s(-3)); auto w = v & %s(%s(-0.)); auto x = v ^ w; return 1 / w[%d] < 0 and x[%d] == 3;"
            % (fix(t, n), t, fix(t, n), t, n - 1, n - 1)).replace("1 / w[%d] < 0" % (n - 1), "1 / %s(w[%d]) < 0" % (t, n - 1))


def s_resize(r):
    t, n, m = r.choice(INTS + FLOATS), r.randrange(1, 17), r.randrange(1, 17)
    return ("%s v([](int i) { return static_cast<%s>(i + 1); }); auto w = vir::simd_resize<%d>(v); int s = 0; for (int i = 0; i < %d; ++i) "
            "s += int(w[i]); return s == %d;" % (fix(t, n), t, m, m, sum(i + 1 for i in range(min(n, m)))))


def s_detail(r):
    return "return true;"


def s_concepts(r):
    t, n = r.choice(INTS + FLOATS), r.randrange(1, 17)
    return ("return vir::sized_simd<%s, %d> and not vir::sized_simd<%s, %d> and vir::typed_simd<%s, %s> and not vir::any_simd_mask<%s>;"
            % (fix(t, n), n, fix(t, n), n + 1, fix(t, n), t, fix(t, n)))


def s_cvt(r):
    n, t, u = r.randrange(1, 9), r.choice(INTS), r.choice(INTS + FLOATS)
    return ("const %s v([](int i) { return static_cast<%s>(i + 1); }); %s w = vir::cvt(v); return int(w[%d]) == %d;"
            % (fix(t, n), t, fix(u, n), n - 1, n))


def s_iota(r):
    t, n = r.choice(INTS + FLOATS), r.randrange(1, 17)
    return "return int(vir::iota_v<%s>[%d]) == %d and vir::iota_v<%s[%d]>[%d] == %d;" % (fix(t, n), n - 1, n - 1, t, n, n - 1, n - 1)


def s_permute(r):
    t, n = r.choice(INTS + FLOATS), r.randrange(1, 17)
    k = r.randrange(-n, n + 1)
    return ("%s v([](int i) { return static_cast<%s>(i); }); auto w = vir::simd_permute(v, vir::simd_permutations::rotate<%d>); auto x = "
            "vir::simd_permute(v, vir::simd_permutations::reverse); return int(w[0]) == %d and int(x[0]) == %d;"
            % (fix(t, n), t, k, k % n, n - 1))


def s_simdize(r):
    n = r.choice([1, 2, 4, 7])
    t, u = r.choice(INTS + FLOATS), r.choice(INTS + FLOATS)
    return ("struct P { %s a; %s b; }; P m[%d] = {}; for (int i = 0; i < %d; ++i) { m[i].a = static_cast<%s>(i); m[i].b = static_cast<%s>(i + 1); } "
            "vir::simdize<P, %d> v(&m[0]); return int(vir::get<0>(v)[%d]) == %d and int(vir::get<1>(v)[%d]) == %d;"
            % (t, u, n, n, t, u, n, n - 1, n - 1, n - 1, n))


def s_execution(r):
    t, n = r.choice(INTS + FLOATS), r.randrange(0, 15)
    pol = "vir::execution::simd" + r.choice(["", ".prefer_size<4>()", ".unroll_by<2>()", ".prefer_aligned()"])
    k = r.randrange(3)
    pre = "%s m[16] = {}; for (int i = 0; i < %d; ++i) m[i] = static_cast<%s>(i); " % (t, n, t)
    ns = r.choice(["std", "vir"])
    if k == 0:
        return pre + "%s::for_each(%s, m, m + %d, [](auto&... v) { ((v += 1), ...); }); int s = 0; for (auto x : m) s += int(x); return s == %d;" % (
            ns, pol, n, sum(range(n)) + n)
    if k == 1:
        return pre + "return %s::count_if(%s, m, m + %d, [](auto v) { return v > 3; }) == %d;" % (ns, pol, n, max(0, n - 4))
    return pre + "return int(%s::reduce(%s, m, m + %d, static_cast<%s>(1))) == %d;" % (ns, pol, n, t, 1 + sum(range(n)))


def s_reflect(r):
    t, u = r.choice(INTS + FLOATS), r.choice(INTS + FLOATS)
    return ("struct P { %s a; %s b; }; P p{3, 4}; return vir::struct_size_v<P> == 2 and vir::struct_get<1>(p) == 4 and vir::struct_get<0>(p) == 3;"
            % (t, u))


def s_cw(r):
    a, b = r.randrange(1, 1000), r.randrange(1, 1000)
    return "using namespace vir::literals; auto x = %d_cw + vir::cw<%d>; int m[x] = {}; return sizeof(m) == %d;" % (a, b, 4 * (a + b))


def s_bench(r):
    a = r.randrange(1, 100)
    return "int x = %d; double y = %d; vir::fake_modify(x, y); vir::fake_read(x, y); return x == %d and y == %d;" % (a, a, a, a)


SNIP = {"simd": s_simd, "simd_version": s_version, "simd_bit": s_bit, "simd_bitset": s_bitset, "simd_cast": s_cast,
        "simd_float_ops": s_float_ops, "simd_resize": s_resize, "detail": s_detail, "simd_concepts": s_concepts, "simd_cvt": s_cvt,
        "simd_iota": s_iota, "simd_permute": s_permute, "simdize": s_simdize, "simd_execution": s_execution,
        "struct_reflect": s_reflect, "constexpr_wrapper": s_cw, "simd_benchmarking": s_bench}


def draw(r):
    std = r.choice(["c++17", "gnu++17", "c++20", "gnu++20", "gnu++20", "c++23", "gnu++23"])
    flags = ["-std=" + std]
    if r.random() < .5:
        flags.append("-DVIR_DISABLE_STDX_SIMD")
        if r.random() < .25:
            flags.append("-DVIR_SIMD_TS_DROPIN")
    flags.append("-O%d" % r.choice([0, 1, 1, 2]))
    if r.random() < .3:
        flags.append("-march=x86-64-v3")
    if r.random() < .25:
        flags.append("-DVIR_CHECK_PRECONDITIONS=%d" % r.randrange(6))
    if r.random() < .15:
        flags.append("-D_GLIBCXX_DEBUG_UB")
    if r.random() < .15:
        flags.append("-fno-exceptions")
    if r.random() < .15:
        flags.append("-fno-rtti")
    if r.random() < .3:  # the compile-time diagnosis depends on Clang's optimizer: even levels only warn
        flags = ["--clang"] + [f for f in flags if "PRECONDITIONS" not in f] + ["-DVIR_CHECK_PRECONDITIONS=%d" % r.choice([0, 2, 4])]
    old = "17" in std
    units = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        hs = ALWAYS + CONCEPTS
        k = r.choice([1, 2, 3, 3, 4, 4, 5, 8])
        seq = [r.choice(hs) for _ in range(k)]
        items = []
        for h in seq:
            usable = h in ALWAYS or not old
            code = SNIP[h](r) if usable and r.random() < .75 else None
            m = MACRO.get(h)
            # feature test macro: says whether the header can be used with these flags
            items.append([h, code, (m, usable) if m and h != "simd_benchmarking" else None])
        units.append(items)
    return flags, units


def source(units):
    out = []
    for u, items in enumerate(units):
        out.append("#if TU == %d" % u)
        fs = []
        for k, (h, code, macro) in enumerate(items):
            out.append("#include <vir/%s.h>" % h)
            if macro:
                out.append("#if %s%s\n#error wrong value of %s\n#endif" % ("not " if macro[1] else "", macro[0], macro[0]))
            if code:
                out.append("static bool f%d() { %s }" % (k, code))
                fs.append("f%d" % k)
        out.append("int tu%d() { %sreturn 0; }" % (u, "".join("if (not %s()) return %d; " % (f, i + 1) for i, f in enumerate(fs))))
        out.append("#endif")
    n = len(units)
    out.append("#if TU == 0")
    out += ["int tu%d();" % u for u in range(1, n)]
    out.append("int main() { return %s; }" % " + ".join("100 * %d * (tu%d() != 0) + tu%d()" % (u, u, u) if False else "tu%d()" % u for u in range(n)))
    out.append("#endif")
    return "\n".join(out) + "\n"


def command(R, flags, n):
    cxx = R.CLANG if "--clang" in flags else R.CXX
    base = " ".join([cxx] + [f for f in flags if f != "--clang"] + ["-w"] + R.INC)
    parts = ["%s -DTU=%d -c @SRC@ -o @EXE@.%d.o" % (base, u, u) for u in range(n)]
    parts.append("%s %s -o @EXE@" % (cxx, " ".join("@EXE@.%d.o" % u for u in range(n))))
    return ["bash", "-c", " && ".join(parts)]


def run(prop, tier, seed, workdir, pool, **kw):
    import run as R
    r = random.Random(seed * 104729 + 11)
    progs = [draw(r) for _ in range(600 if tier == "thorough" else 90)]

    def attempt(tag, flags, units):
        src = os.path.join(workdir, "hd_%s.cpp" % tag)
        exe = src[:-4]
        with open(src, "w") as f:
            f.write(source(units))
        cmd = [c.replace("@SRC@", src).replace("@EXE@", exe) for c in command(R, flags, len(units))]
        rc, out = R.sh(cmd, 280)
        if rc not in (0, 1):
            rc, out = R.sh(cmd, 280)
            if rc not in (0, 1):
                return "nothing", ""
        if rc:
            return "does not " + ("link" if "error:" not in out else "compile"), out
        rc, out = R.sh([exe], 60)
        for u in range(len(units)):
            os.unlink("%s.%d.o" % (exe, u))
        os.unlink(exe)
        return ("returns a wrong result (%d)" % rc, out) if rc else (None, out)

    with cf.ThreadPoolExecutor(pool) as ex:
        done = list(ex.map(lambda a: attempt(str(a[0]), *a[1]), enumerate(progs)))
    bad, n, nt, samples = None, 0, set(), []
    for (flags, units), (msg, out) in zip(progs, done):
        if msg == "nothing":
            continue
        n += 1
        if sum(len(u) for u in units) > 1:
            nt.add(source(units) + " ".join(flags))
        samples.append("%s; %s" % (" ".join(flags), " | ".join(" ".join(i[0] + ("*" if i[1] else "") for i in u) for u in units)))
        if msg and bad is None:
            bad = (flags, units, msg, out)
    res = {"unit": "header combinations", "evaluations": n, "distinct_nontrivial": len(nt), "samples": samples[:4]}
    if bad:
        flags, units, msg, out = bad
        steps, again = 0, True
        while again and steps < 60:  # shrink: drop units, includes, uses, flags
            again = False
            cands = [(flags, units[:i] + units[i + 1:]) for i in range(len(units)) if len(units) > 1]
            cands += [(flags, units[:i] + [u[:j] + u[j + 1:]] + units[i + 1:]) for i, u in enumerate(units) for j in range(len(u))
                      if len(u) > 1]
            cands += [(flags, units[:i] + [u[:j] + [[u[j][0], None, u[j][2]]] + u[j + 1:]] + units[i + 1:]) for i, u in enumerate(units)
                      for j in range(len(u)) if u[j][1]]
            cands += [(flags[:i] + flags[i + 1:], units) for i in range(len(flags)) if not flags[i].startswith("-std")]
            for c in cands:
                steps += 1
                m, o = attempt("shrink", *c)
                if m and m != "nothing":
                    (flags, units), msg, out, again = c, m, o, True
                    break
                if steps >= 60:
                    break
        res["program_failure"] = {"source": source(units), "cmd": command(R, flags, len(units)), "run": True,
                                  "test": "header combinations", "message": "%s: %s\n%s" % (
                                      " | ".join(" ".join(i[0] for i in u) for u in units), msg, out[:1500])}
    return [res]
