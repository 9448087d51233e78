#!/usr/bin/env python3
"""Mutation sampling, to find gaps in the checks (a development tool; no check uses it).

  mutate.py FILE COUNT SEED OUT [--checks C01,C02] [--lines A-B]

Applies COUNT randomly drawn one-token mutations of /repo/vir/FILE, one at a time, in a scratch copy
of /repo (MUT_WORK, default /tmp/mut/w0), runs the quick checks for that part of the code from a copy of
/verif until one of them reports, and appends a line per mutant to OUT:
killed by / survived / does not compile."""
import json
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("MUT_WORK", "/tmp/mut/w0")

# file -> [(first line regex or None, checks)]: the checks from the last matching region on
REGION = {
    "simd_execution.h": [(r"", "C05 C01 C02 C03 C04 C06 C07")],
    "simd_permute.h": [(r"", "C15 C06 C20")],
    "simd_resize.h": [(r"", "C16 C26")],
    "simdize.h": [(r"", "C20 C21 C26 C06")],
    "struct_reflect.h": [(r"", "C22 C20")],
    "constexpr_wrapper.h": [(r"", "C23")],
    "simd_float_ops.h": [(r"", "C18 C06")],
    "simd_bit.h": [(r"", "C18")],
    "simd_bitset.h": [(r"", "C17")],
    "simd_cvt.h": [(r"", "C19")],
    "simd_iota.h": [(r"", "C19")],
    "simd_cast.h": [(r"", "C13")],
    "simd_version.h": [(r"", "C24")],
    "simd_benchmarking.h": [(r"", "C25")],
    "simd_concepts.h": [(r"", "C26")],
    "detail.h": [(r"", "C26 C18 C20 C15")],
    "simd.h": [(r"", "C07 C10 C08 C26 C27"),
               (r"^namespace vir::detail$", "C26 C08 C10 C11 C09 C27"),
               (r"^  // flags //", "C26 C09 C11 C28"),
               (r"^  // simd_mask .scalar", "C10 C11 C09 C28 C26 C07"),
               (r"^  // scalar_simd_int_base", "C08 C28 C26"),
               (r"^  // simd .scalar", "C08 C09 C28 C26 C07"),
               (r"^  // fixed_simd_int_base", "C08 C28 C26"),
               (r"^  // simd .fixed_size", "C08 C09 C28 C26 C07"),
               (r"^  // casts .simd", "C13 C28 C26 C06"),
               (r"^  // const_where_expression", "C11 C12 C28 C06"),
               (r"^  // reductions .simd", "C12 C28 C06"),
               (r"^  // math", "C14 C28 C06")],
}


def repl(tok, r, line):
    m = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"],
         "*": ["+"], "/": ["*"], "%": ["/"], "&&": ["||"], "||": ["&&"], "and": ["or"], "or": ["and"], "true": ["false"],
         "false": ["true"], "&": ["|"], "|": ["&"], "^": ["|"], "<<": [">>"], ">>": ["<<"], "++": ["--"], "--": ["++"],
         "+=": ["-="], "-=": ["+="], "not": [""], "!": [""], "min": ["max"], "max": ["min"], "first1": ["last1"],
         "lo": ["hi"], "hi": ["lo"], "?": None}
    if tok in m:
        return r.choice(m[tok]) if m[tok] is not None else None
    if re.fullmatch(r"\d+", tok):
        return str(int(tok) + r.choice([1, 1, -1])) if tok != "0" else "1"
    return None


TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[A-Za-z_]\w*|\d[\w.\']*|<<=|>>=|<=>|\+\+|--|->|&&|\|\||<=|>=|==|!=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|>>|::|\.\.\.|.')


def sites(text, r, lo, hi):
    out = []
    lines = text.split("\n")
    comment = False
    pp = False
    for n, l in enumerate(lines):
        if comment:
            comment = "*/" not in l
            continue
        if l.lstrip().startswith("/*"):
            comment = "*/" not in l
            continue
        if pp or l.lstrip().startswith("#"):
            keep = l.rstrip().endswith("\\") and ("define" in l or pp)
            pp = l.rstrip().endswith("\\")
            if not keep or l.lstrip().startswith("#"):
                continue
        if not lo <= n + 1 <= hi or "static_assert" in l or re.match(r"\s*(using|namespace|//|friend)", l):
            continue
        code = l.split("//")[0]
        istmpl = re.match(r"\s*(template|requires)", l)
        for m in TOK.finditer(code):
            t = m.group(0)
            if t in "<>" and len(t) == 1:
                if istmpl or not (code[m.start() - 1:m.start()] == " " and code[m.end():m.end() + 1] == " "):
                    continue
                if re.search(r"(template|static_cast|simd|tuple|integral_constant|is_\w+|same_v|operator) $", code[:m.start()]):
                    continue
            if t in ("&&", "&", "*", "||") and (istmpl or code[m.end():m.end() + 1] != " " or code[m.start() - 1:m.start()] != " "):
                continue
            if t == "-" and code[m.end():m.end() + 1] == ">":
                continue
            if istmpl and t in ("=", "true", "false"):
                continue
            v = repl(t, r, code)
            if v is not None:
                out.append((n, m.start(), m.end(), t, v))
        # statement deletion
        if re.match(r"\s+[\w:.\[\]]+(\(.*\)| [-+*/|&^]?= .*|\+\+|--);$", code) and not re.match(r"\s*(return|using|constexpr|typename|T|auto)\b", code):
            out.append((n, len(code) - len(code.lstrip()), len(code), code.strip(), ";"))
        m = re.search(r"if constexpr \((.*)\)$", code)
        if m:
            out.append((n, m.start(1), m.end(1), m.group(1), "not (%s)" % m.group(1)))
        m = re.search(r"\bif \((.*)\)$", code)
        if m:
            out.append((n, m.start(1), m.end(1), m.group(1), "not (%s)" % m.group(1)))
            out.append((n, m.start(1), m.end(1), m.group(1), "false"))
    return lines, out


def main():
    f, count, seed, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    checks = None
    lo, hi = 1, 10**9
    for i, a in enumerate(sys.argv):
        if a == "--checks":
            checks = sys.argv[i + 1].split(",")
        if a == "--lines":
            lo, hi = map(int, sys.argv[i + 1].split("-"))
    repo = os.path.join(WORK, "repo")
    ver = os.path.join(WORK, "verif")
    os.makedirs(WORK, exist_ok=True)
    for d in (repo, ver):
        if os.path.exists(d):
            shutil.rmtree(d)
    src = os.environ.get("MUT_REPO", "/repo")
    shutil.copytree(src, repo, ignore=shutil.ignore_patterns(".git", "build*"))
    shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns(".git", "build", "seeded", "evidence", "replays", "__pycache__"))
    path = os.path.join(repo, "vir", f)
    orig = open(path).read()
    r = random.Random(seed)
    lines, ss = sites(orig, r, lo, hi)
    r.shuffle(ss)
    print(len(ss), "sites")
    smoke = os.path.join(WORK, "smoke.cpp")
    incs = "".join("#include <vir/%s>\n" % h for h in sorted(os.listdir(os.path.join(repo, "vir"))) if h.endswith(".h"))
    open(smoke, "w").write(incs + "int main() {}\n")
    done = 0
    for n, a, b, t, v in ss:
        if done >= count:
            break
        l = lines[n]
        new = l[:a] + v + l[b:]
        mut = lines[:n] + [new] + lines[n + 1:]
        open(path, "w").write("\n".join(mut))
        bad = False
        for d in (["-DVIR_DISABLE_STDX_SIMD"], []):
            if subprocess.run(["g++", "-std=gnu++2b", "-w", "-fsyntax-only", "-I" + repo, smoke] + d, stderr=subprocess.DEVNULL).returncode:
                bad = True
        if bad:
            open(path, "w").write(orig)
            continue
        done += 1
        ch = checks
        if ch is None:
            ch = []
            for rx, c in REGION[f]:
                if not rx or any(re.search(rx, x) for x in lines[:n + 1]):
                    ch = c.split()
        res = "SURVIVED"
        for c in ch:
            p = subprocess.run([sys.executable, "run.py", c, "--tier", "quick"], cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            if p.returncode:
                res = "killed %s%s" % (c, "" if p.returncode == 1 else " rc=%d" % p.returncode)
                break
        with open(outp, "a") as o:
            o.write("%s %s:%d [%s -> %s] %s || %s\n" % (res, f, n + 1, t, v, l.strip(), " ".join(ch)))
        open(path, "w").write(orig)


main()
