#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N]   decide one property
   run.py --replay <file>                                 re-run a recorded failing case
   run.py --selftest                                      compile and run a trivial unit (setup)

Every unit of a check is a C++ translation unit compiled from /repo's working tree and driven by
lib/pbt.h; the compile-time checks are generated C++ programs (gen/*.py).  Exit 0: held on
everything explored.  Exit 1 + VIOLATION line: broken, with a minimised replay file."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.environ.get("VERIF_CXX", "g++")
JOBS = int(os.environ.get("VERIF_JOBS") or max(2, min(8, os.cpu_count() or 8)))
sys.path.insert(0, VERIF)

INC = ["-I" + REPO, "-I" + os.path.join(VERIF, "lib")]

CONFIGS = {
    "std-O2-v3": ["-O2", "-march=x86-64-v3"],
    "fb-O2-v3": ["-O2", "-march=x86-64-v3", "-DVIR_DISABLE_STDX_SIMD"],
    "std-Os-sse": ["-Os"],
    "fb-Os-sse": ["-Os", "-DVIR_DISABLE_STDX_SIMD"],
    "std-O2-sse": ["-O2"],
    "fb-O2-sse": ["-O2", "-DVIR_DISABLE_STDX_SIMD"],
    "std-Os-v3": ["-Os", "-march=x86-64-v3"],
    "std-O3-v4": ["-O3", "-march=x86-64-v4"],
    "std-O2-v2": ["-O2", "-march=x86-64-v2"],
    "fb-O3-v4": ["-O3", "-march=x86-64-v4", "-DVIR_DISABLE_STDX_SIMD"],
    "plain-O1": ["-O1"],
    # memory errors and undefined behaviour of the library itself become visible
    "std-asan": ["-O1", "-march=x86-64-v3", "-fsanitize=address,undefined",
                 "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all", "-DPBT_SAN"],
    "fb-asan": ["-O1", "-march=x86-64-v3", "-DVIR_DISABLE_STDX_SIMD",
                "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr",
                "-fno-sanitize-recover=all", "-DPBT_SAN"],
    "fb-ubsan": ["-O1", "-march=x86-64-v3", "-DVIR_DISABLE_STDX_SIMD", "-fsanitize=undefined",
                 "-fno-sanitize=alignment,vptr,float-cast-overflow", "-fno-sanitize-recover=all",
                 "-DPBT_SAN"],
}
# Clang reports precondition failures on paths that are never taken (documented in the README): level 2 only warns
CONFIGS.update({"clang-" + k: ["-fbracket-depth=2048", "-ftemplate-depth=2048", "-DVIR_CHECK_PRECONDITIONS=2"] + v for k, v in list(CONFIGS.items())})
CLANG = "clang++"


def cpu_has(cfg):
    if cfg.startswith("clang-") and not shutil.which(CLANG):
        return False
    if "v4" in cfg:
        try:
            fl = open("/proc/cpuinfo").read()
        except OSError:
            return False
        return all(re.search(r"\b%s\b" % f, fl) for f in
                   ("avx512f", "avx512dq", "avx512bw", "avx512vl", "avx512cd"))
    return True


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return 124, out + "\n[timeout]"


class Unit:
    """One translation unit in one configuration."""

    def __init__(self, src, cfg, shard=None, std="gnu++23", cases=None, defs=(), extra=(), text=None):
        self.src, self.cfg, self.shard, self.std = src, cfg, shard, std
        self.text = text  # generated source: (prelude, [items], epilogue)
        self.cases, self.defs, self.extra = cases, list(defs), list(extra)
        self.seed = 1

    @property
    def name(self):
        return "%s%s@%s,%s" % (os.path.splitext(os.path.basename(self.src))[0],
                               "" if self.shard is None else "#%d" % self.shard, self.cfg, self.std)

    def source_text(self, items=None):
        pre, its, post = self.text
        return pre + "".join(its if items is None else items) + post

    def compile_cmd(self, exe, src=None):
        src = src or os.path.join(VERIF, "tests", self.src)
        cxx = CLANG if self.cfg.startswith("clang-") else CXX
        return ([cxx, "-std=" + self.std, "-w", "-ffp-contract=off"] + CONFIGS[self.cfg] + INC + self.defs
                + ["-DPBT_GENSEED=%d" % (self.seed % 1000003)]
                + (["-DPBT_SHARD=%d" % self.shard] if self.shard is not None else [])
                + self.extra + [src, "-o", exe])


def first_errors(out, n=12):
    lines = [l for l in out.splitlines() if "error:" in l or "required from" in l or "fatal" in l]
    return "\n".join(lines[:n])


def reduce_items(u, src, exe):
    """the generated source does not compile: keep as few of its items as still fail"""
    def fails(items):
        with open(src, "w") as f:
            f.write(u.source_text(items))
        rc, out = sh(u.compile_cmd(exe, src), 300)
        return rc != 0 and "error:" in out

    its = list(u.text[1])
    n, t0 = 2, time.time()
    while len(its) > 1 and time.time() - t0 < 240:
        size = max(1, len(its) // n)
        for k in range(0, len(its), size):
            part = its[k:k + size]
            if len(part) < len(its) and fails(part):
                its, n = part, 2
                break
        else:
            if size == 1:
                break
            n *= 2
    return its


def run_unit(u, workdir, seed, cases, max_seconds):
    exe = os.path.join(workdir, hashlib.sha1(u.name.encode()).hexdigest()[:12])
    res = {"unit": u.name}
    t0 = time.time()
    src = None
    if u.text:
        src = exe + ".cpp"
        with open(src, "w") as f:
            f.write(u.source_text())
    rc, out = sh(u.compile_cmd(exe, src), 500)
    if rc != 0 and not re.search(r"error:", out):
        rc, out = sh(u.compile_cmd(exe, src), 500)  # e.g. killed for memory: once more
    res["compile_s"] = round(time.time() - t0, 1)
    if rc != 0:
        if re.search(r"error:", out):
            res["compile_error"] = first_errors(out)
            if u.text:
                u.text = (u.text[0], reduce_items(u, src, exe), u.text[2])
                with open(src, "w") as f:
                    f.write(u.source_text())
                rc, out = sh(u.compile_cmd(exe, src), 300)
                res["compile_error"] = first_errors(out) or res["compile_error"]
        else:
            res["skipped"] = "compiler ended with status %d without a diagnostic" % rc
        return res
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=0",
               UBSAN_OPTIONS="abort_on_error=1")
    jf = exe + ".json"
    cmd = [exe, "--seed", str(seed), "--cases", str(u.cases or cases),
           "--max-seconds", str(max_seconds), "--out", jf]
    for round_ in range(2):
        if os.path.exists(jf):
            os.remove(jf)
        rc, out = sh(cmd, max_seconds + 240, env=env)
        try:
            r = json.load(open(jf))
        except (OSError, ValueError):
            res["skipped"] = "the harness ended with status %d and no result" % rc
            continue
        res.pop("skipped", None)
        f = r.get("failure")
        if f and f["confirmed"] < 3 and round_ == 0:
            first = f
            continue  # not reproducible from its choices alone: same seed again
        if f and f["confirmed"] < 3:
            if f["test"] == first["test"] and f["message"] == first["message"]:
                f["note"] = "reproduces only with the whole run (same seed)"
            else:
                r.pop("failure")
                r["unstable"] = [first, f]
        res.update(r)
        break
    for f in (exe, jf):
        if os.path.exists(f):
            os.remove(f)
    return res


def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    data["property"] = prop
    data["how"] = "python3 %s --replay <this file>" % os.path.join(VERIF, "run.py")
    h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def replay(path):
    d = json.load(open(path))
    w = tempfile.mkdtemp(prefix="replay-", dir=build_root())
    try:
        if d["kind"] == "program":
            src = os.path.join(w, "replay.cpp")
            open(src, "w").write(d["source"])
            cmd = [c.replace("@SRC@", src).replace("@EXE@", os.path.join(w, "exe")) for c in d["cmd"]]
            rc, out = sh(cmd, 600)
            print(out)
            if rc == 0 and d.get("run"):
                rc, out = sh([os.path.join(w, "exe")], 100)
                print(out)
            if d.get("expect_reject") and not d.get("run"):
                rc = 0 if rc else 1
            print("FAILS" if rc else "passes")
            return 1 if rc else 0
        exe = os.path.join(w, "exe")
        if d.get("source"):
            open(os.path.join(w, "replay.cpp"), "w").write(d["source"])
        cmd = [c.replace("@EXE@", exe).replace("@SRC@", os.path.join(w, "replay.cpp"))
               for c in d["compile"]]
        rc, out = sh(cmd, 600)
        if rc:
            print(out)
            print("FAILS: the harness does not compile" if d["kind"] == "compile" else "cannot compile")
            return 1
        if d["kind"] == "compile":
            print("passes: the harness compiles")
            return 0
        rf = os.path.join(w, "choices")
        open(rf, "w").write(d["test"] + "\n" + "\n".join(map(str, d["choices"])) + "\n")
        rc, out = sh([exe, "--replay", rf], 300)
        print(out)
        return rc
    finally:
        shutil.rmtree(w, ignore_errors=True)


def build_root():
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    return d


def known_findings(prop):
    """lines 'finding: property=<id> unit=<substring> test=<exact> message=<substring> :: text'"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def decide(prop, tier, seed):
    import properties_config as pc
    t0 = time.time()
    spec = pc.CHECKS[prop]
    conf = spec[tier] if tier in spec else spec["quick"]
    workdir = tempfile.mkdtemp(prefix=prop + "-", dir=build_root())
    results, violations = [], []
    try:
        units = list(conf.get("units", []))
        if conf.get("unit_gen"):
            units += conf["unit_gen"](tier, seed)
        force = os.environ.get("VERIF_COMPILER")  # e.g. clang-: run all configurations with clang++
        for u in units:
            if force and not u.cfg.startswith(force):
                u.cfg = force + u.cfg
        units = [u for u in units if cpu_has(u.cfg)]
        for u in units:
            u.seed = seed
        # longest compilations first (a hint for the order only)
        weights = json.load(open(os.path.join(VERIF, "lib", "unit_weights.json")))
        units.sort(key=lambda u: -weights.get(u.name, 5))
        gens = conf.get("gens", [])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(run_unit, u, workdir, seed, conf["cases"],
                              conf.get("max_seconds", 60)): u for u in units}
            gfuts = []
            for g in gens:
                mod = importlib.import_module("gen." + g["module"])
                gfuts.append(ex.submit(mod.run, prop=prop, tier=tier, seed=seed, workdir=workdir,
                                       pool=JOBS, **g.get("args", {})))
            for f in cf.as_completed(futs):
                u, r = futs[f], f.result()
                results.append(r)
                ccmd = u.compile_cmd("@EXE@", "@SRC@" if u.text else None)
                gsrc = {"source": u.source_text()} if u.text else {}
                if "compile_error" in r:
                    violations.append((r, write_replay(prop, {
                        "kind": "compile", "unit": u.name, "compile": ccmd, **gsrc,
                        "message": "a program using the documented API is rejected:\n"
                                   + r["compile_error"]})))
                elif "failure" in r:
                    fl = r["failure"]
                    violations.append((r, write_replay(prop, {
                        "kind": "case", "unit": u.name, "compile": ccmd, **gsrc,
                        "seed": seed, **fl})))
            for f in gfuts:
                for r in f.result():
                    results.append(r)
                    if "program_failure" in r:
                        violations.append((r, write_replay(prop, {
                            "kind": "program", **r["program_failure"]})))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    for key, text in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    samples = []
    results.sort(key=lambda r: r["unit"])
    for r in results:
        for s in r.get("samples", [])[:2]:
            if len(samples) < 24:
                samples.append({"unit": r["unit"], "case": s})
    cov = {
        "evaluations": sum(r.get("evaluations", 0) for r in results),
        "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for r in results),
        "rule": spec["rule"],
        "samples": samples,
        "units": [{k: r[k] for k in ("unit", "evaluations", "distinct_nontrivial", "tests", "seconds",
                                     "compile_s", "skipped", "unstable", "min_cases_per_test")
                   if k in r} for r in results],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r, path in violations:
        fl = r.get("failure") or r.get("program_failure") or {}
        print("-- %s: %s" % (r["unit"], fl.get("test", "")))
        print("   %s" % (r.get("compile_error") or fl.get("message", "")))
        if fl.get("case"):
            print("   case: %s" % fl["case"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d cases, %d distinct non-trivial, %d units, %d violations, %.1f s"
          % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], len(results),
             len(violations), time.time() - t0))
    skipped = [r for r in results if "skipped" in r]
    for r in skipped:
        print("   skipped %s: %s" % (r["unit"], r["skipped"]))
    if violations:
        return 1
    return 0 if cov["evaluations"] else 2  # 2: no answer (nothing could be run)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--selftest":
        rc, out = sh([CXX, "--version"], 30)
        print(out.splitlines()[0] if out else "no compiler")
        return 0 if rc == 0 else 1
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--seed":
            seed = int(a[i + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return decide(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
