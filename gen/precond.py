"""C07: diagnosis at compile time.  Programs with a call whose violation of a precondition is a plain
constant: rejected for VIR_CHECK_PRECONDITIONS=1, 3, 5 and by default, accepted with a warning for
0, 2, 4; never a constant expression.  The same programs with conforming calls: accepted, silently."""
import concurrent.futures as cf
import os
import random

TYPES = ["float", "double", "int", "unsigned char", "short", "unsigned long"]


def program(r, bad):
    t = r.choice(TYPES)
    n = r.choice([1, 2, 3, 4, 8, 16])
    abi = r.choice(["stdx::simd_abi::fixed_size<%d>" % n, "stdx::simd_abi::scalar"])
    if "scalar" in abi:
        n = 1
    i = n + r.choice([0, 1, 5, 100, (1 << 32), (1 << 64) - 1 - n]) if bad else r.randrange(n)
    kind = r.choice(["simd", "mask", "csimd", "find"])
    if kind == "find" and n > 4:
        n, abi = 4, "stdx::simd_abi::fixed_size<4>"
    if kind == "find":
        f = r.choice(["find_first_set", "find_last_set"])
        expr = "%s(stdx::simd_mask<%s, %s>(%s))" % (f, t, abi, "false" if bad else "true")
        want = 0 if f == "find_first_set" else n - 1
        body = "int f() { return %s; }" % expr
    elif kind == "mask":
        expr = "bool(stdx::simd_mask<%s, %s>(true)[%dull])" % (t, abi, i)
        want = 1
        body = "bool f() { stdx::simd_mask<%s, %s> k(true); return k[%dull]; }" % (t, abi, i)
    elif kind == "csimd":
        expr = "(%s)(stdx::simd<%s, %s>((%s)3)[%dull])" % (t, t, abi, t, i)
        want = 3
        body = ("%s f(const %s* p) { const stdx::simd<%s, %s> v(p, stdx::element_aligned); return v[%dull]; }"
                % (t, t, t, abi, i))
    else:
        expr = "(%s)(stdx::simd<%s, %s>((%s)3)[%dull])" % (t, t, abi, t, i)
        want = 3
        body = ("void f(%s* p) { stdx::simd<%s, %s> v(p, stdx::element_aligned); v[%dull] = (%s)1; "
                "v.copy_to(p, stdx::element_aligned); }" % (t, t, abi, i, t))
    return body, expr, want


def run(prop, tier, seed, workdir, pool, **kw):
    import run as R
    r = random.Random(seed * 7919 + 3)
    head = "#include <vir/simd.h>\nnamespace stdx = vir::stdx;\n"
    jobs = []
    for k in range(140 if tier == "thorough" else 28):
        bad = k % 4 != 3
        level = [-1, 0, 1, 2, 3, 4, 5][k % 7]
        body, expr, want = program(r, bad)
        std = "gnu++%d" % r.choice([17, 20, 23])
        opt = r.choice(["-O2", "-O2", "-O3"])
        base = [R.CXX, "-std=" + std, opt, "-DVIR_DISABLE_STDX_SIMD"] + R.INC
        if level >= 0:
            base.append("-DVIR_CHECK_PRECONDITIONS=%d" % level)
        if not (bad and "_set(" in body):  # needs more than constant folding: no claim
            jobs.append(("run", k, bad, level, head + body + "\n", base))
        jobs.append(("const", k, bad, level, head + "constexpr auto x = %s;\nstatic_assert(x == %d);\n" % (expr, want), base))

    def one(j):
        kind, k, bad, level, text, base = j
        src = os.path.join(workdir, "pc_%s%d.cpp" % (kind, k))
        with open(src, "w") as f:
            f.write(text)
        rc, out = R.sh(base + ["-c", src, "-o", "/dev/null"], 100)
        if rc not in (0, 1):
            rc, out = R.sh(base + ["-c", src, "-o", "/dev/null"], 100)
        err, warn = "error:" in out, "precondition failure" in out
        msg = None
        if rc not in (0, 1):
            return j, None, out
        if not bad:
            if rc or warn:
                msg = "a conforming call is diagnosed at compile time"
        elif kind == "const":
            if rc == 0:
                msg = "a violated precondition is accepted in a constant expression"
        elif level in (-1, 1, 3, 5):
            if rc == 0:
                msg = "the violation is a constant but the program is accepted"
            elif not warn:
                msg = "rejected, but without naming the precondition"
        elif rc or not warn:
            msg = "the violation is a constant: a warning is documented, got %s" % ("an error" if rc else "nothing")
        return j, msg, out

    samples, bad, n = [], None, 0
    with cf.ThreadPoolExecutor(max(2, pool // 2)) as ex:
        done = list(ex.map(one, jobs))
    for j, msg, out in done:
        n += 1
        samples.append("%s level %s, %s: %s" % (j[0], j[3], "violated" if j[2] else "met",
                                                j[4].splitlines()[-1][:150]))
        if msg and bad is None:
            want_fail = j[2] and (j[0] == "const" or j[3] in (-1, 1, 3, 5))
            bad = {"source": j[4], "cmd": j[5] + (["-Werror"] if j[2] and not want_fail else [])
                   + ["-c", "@SRC@", "-o", "@EXE@"], "run": False, "expect_reject": want_fail,
                   "test": "diagnosis at compile time", "message": msg + "\n" + out[:1500]}
    res = {"unit": "compile-time diagnosis", "evaluations": n, "distinct_nontrivial": len(set(samples)),
           "samples": samples[:4]}
    if bad:
        res["program_failure"] = bad
    return [res]
