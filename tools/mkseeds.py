#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/<id>.py definitions.

A definition file sets: prop, needs, breaks, edits=[(file, old, new)],
and either demo (C++ source) + mods (src modules to compile) + flags, or demo_sh.
The edits are checked to touch only lines of the original repository."""
import os, subprocess, sys, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
REPO = "/repo"; BASE = "ba5e8fc"
OPT = "-DSUPPORT_SM3_YANG15 -DSUPPORT_SM4_LANG18"
SIMD = (OPT + " -DCPU_FLAG_SSE2 -DCPU_FLAG_AVX2 -DCPU_FLAG_AES -DCPU_FLAG_MOVBE -DCPU_FLAG_BMI2 -DCPU_FLAG_RDSEED"
        " -DCPU_FLAG_RDRAND -DCPU_FLAG_PCLMUL -msse2 -mavx2 -maes -mmovbe -mbmi2 -mrdseed -mrdrnd -mpclmul")
SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 {cf} -w -I include {flags} "$D/demo.cpp" {srcs} -o "$T/d" {lf} || exit 2
{pre}timeout 250 "$T/d"
'''

def blame_base(f):
    out = subprocess.check_output(["git", "-C", REPO, "blame", "-s", "--abbrev=40", BASE + "..HEAD", "--", f], text=True)
    return [l.startswith("^") for l in out.splitlines()]

def make(name):
    d = {"flags": "OPT", "mods": "", "cf": "-O1", "lf": "", "pre": ""}
    sys.path.insert(0, os.path.join(HERE, "seeds"))
    exec(open(os.path.join(HERE, "seeds", name + ".py")).read(), d)
    out = os.path.join(V, "seeded", name); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    t = tempfile.mkdtemp(); patch = ""
    try:
        subprocess.check_call("git -C %s archive HEAD include src | tar x -C %s && cd %s && git init -q . && git add -A && "
                              "git -c user.name=x -c user.email=x@x commit -qm x" % (REPO, t, t), shell=True)
        for f, old, new in d["edits"]:
            p = os.path.join(t, f); s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.count(old)
            assert n == 1, "%s: %r occurs %d times in %s" % (name, old, n, f)
            # which lines change
            open(p, "w", newline="").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", t, "diff"])
        cur = None; ln = 0; blames = {}
        for l in patch.decode(errors="replace").splitlines():
            if l.startswith("--- a/"): cur = l[6:]; blames[cur] = blame_base(cur)
            elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if not blames[cur][ln - 1]: print("WARNING %s: %s:%d was added by a fix" % (name, cur, ln))
                ln += 1
            elif l.startswith(" "): ln += 1
        if b"\n-" not in patch.replace(b"\n---", b""): print("NOTE %s: only adds lines" % name)
    finally:
        shutil.rmtree(t)
    open(os.path.join(out, "patch.diff"), "wb").write(patch)
    if "demo_sh" in d: sh = d["demo_sh"]
    else:
        srcs = " ".join("src/%s/*.cpp" % m if "/" not in m else "src/" + m for m in d["mods"].split())
        fl = {"OPT": OPT, "SIMD": SIMD, "NONE": ""}.get(d["flags"], d["flags"])
        sh = SH.format(cf=d["cf"], flags=fl, srcs=srcs, lf=d["lf"], pre=d["pre"])
    open(os.path.join(out, "demo.sh"), "w").write(sh); os.chmod(os.path.join(out, "demo.sh"), 0o755)
    if "demo" in d: open(os.path.join(out, "demo.cpp"), "w").write(d["demo"].lstrip("\n"))
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
for n in sys.argv[1:]:
    make(n)
