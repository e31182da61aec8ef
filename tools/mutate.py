#!/usr/bin/env python3
"""Mutation sampling: changes one place of the library at a time in a scratch
copy and runs the checks of the properties that cover the file, to find
behaviour no check looks at. Survivors are printed; they are read by hand.

  mutate.py OUT SEED COUNT WORKERS [path-regex]
Works in /tmp/mut only (removed by hand afterwards)."""
import os, re, sys, random, subprocess, shutil, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, SEED, COUNT, WORKERS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
RX = sys.argv[5] if len(sys.argv) > 5 else "."
MAP = [(r"/aes/", ["C04"]), (r"/sm4/", ["C03"]), (r"/sm3/", ["C01"]), (r"hash_lib/hmac", ["C02"]), (r"hash_lib/", ["C01", "C02"]),
       (r"/ghash/", ["C10", "C32"]), (r"mode/.*gcm", ["C08", "C09"]), (r"mode/.*(ecb|cbc)", ["C05", "C07"]), (r"mode/.*(cfb|ofb|ctr)", ["C06", "C07"]),
       (r"block_cipher_mode/", ["C05", "C06", "C07", "C08", "C09"]), (r"memdump", ["C34"]), (r"asn1_dump", ["C34"]), (r"memory_utils/", ["C11"]),
       (r"number/.*mont", ["C13"]), (r"number/", ["C12", "C13"]), (r"sm2.*asn1", ["C22"]), (r"asn1/", ["C20", "C21"]),
       (r"src/sm2/|sm2/internal/sm2p", ["C14", "C16"]), (r"sm2/", ["C16", "C17", "C18", "C19", "C15"]),
       (r"src/sm9/|sm9/internal/sm9_f", ["C23", "C24", "C25"]), (r"sm9/", ["C26", "C27"]), (r"rng/", ["C28"])]
LATE = [] if os.environ.get("NOLATE") else ["C31", "C33", "C32"]
SKIP = r"wincrypt|bcrypt|cstd_rng|std_rng"
def files():
    r = []
    for top in ("src", "include"):
        for d, _, fs in os.walk("/repo/" + top):
            for f in fs:
                p = os.path.join(d, f)[6:]
                if re.search(SKIP, p) or not re.search(RX, p): continue
                r.append(p)
    return sorted(r)
def sites(p):
    s = open("/repo/" + p, newline="", errors="replace").read().split("\n")
    res, incom, msc = [], False, False
    for i, l in enumerate(s):
        t = l.strip()
        if "/*" in t: incom = True
        c = incom
        if "*/" in t: incom = False
        if t.startswith("#if") and "_MSC_VER" in t: msc = True
        if t.startswith("#el") or t.startswith("#endif"): msc = False
        if c or msc or not t or t.startswith(("//", "#", "*", "namespace", "using", "template", "class", "public", "private", "friend", "}", "{", "static_assert", "throw", "goto")): continue
        code = l.split("//")[0]
        if code.count("0x") >= 4:
            if random.random() < 0.04:
                m = random.choice(list(re.finditer(r"0x([0-9a-fA-F]+)", code))); v = int(m.group(1), 16) ^ 1 << random.randrange(4 * len(m.group(1)))
                res.append((i, l, l[:m.start()] + "0x%0*x" % (len(m.group(1)), v) + l[m.end():]))
            continue
        if re.search(r'"[^"]*"', code): code = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group(0)), code)
        def sub(m, new): res.append((i, l, l[:m.start()] + new + l[m.end():]))
        decl = re.match(r"\s*(inline|const|static|virtual|void|std::\w+|int|bool|size_t|auto|internal::\w+)\b[^=(]*[;(,]\s*$", code) 
        for a, b in ((" < ", [" <= ", " > "]), (" > ", [" >= ", " < "]), (" <= ", [" < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                     (" + ", [" - "]), (" - ", [" + "]), (" && ", [" || "]), (" || ", [" && "]), (" ^ ", [" | "]), (" & ", [" | "]), (" | ", [" ^ ", " & "]),
                     (" << ", [" >> "]), (" >> ", [" << "]), (" += ", [" -= ", " = "]), (" -= ", [" += "]), (" ^= ", [" = "]), (" |= ", [" = "]), ("++", ["--"])):
            for m in re.finditer(re.escape(a), code):
                if decl: continue
                sub(m, random.choice(b))
        for m in re.finditer(r"(?<![\w.\[x])(\d+)(?![\w.])", code):
            v = int(m.group(1)); sub(m, str(random.choice([v + 1, max(v - 1, 0)] if v else [1])))
        for m in re.finditer(r"\[(\d+)\](?!\s*=\s*\{)", code):
            v = int(m.group(1))
            if v < 4 and not decl: sub(m, "[%d]" % (v ^ 1))
        m = re.match(r"(\s*)(if|while) \((.*)\)\s*$", code)
        if m: res.append((i, l, l.replace("(", "(false && (", 1).rstrip("\r") + ")" + ("\r" if l.endswith("\r") else "")))
        m = re.match(r"\s*[\w:>.*\[\]-]+(\(.*\)|\s*[-+^|&]?=[^=].*);\s*$", code)
        if m and not re.match(r"\s*(return|const|static|int|auto|bool|std::\w+(_t)?\s)", code): res.append((i, l, ";" + ("\r" if l.endswith("\r") else "")))
        m = re.search(r"\ba\[0\]|\ba\b(?=, b)", code)
        if m and m.group(0) == "a" and "(" in code and not decl: sub(m, "b")
        m = re.search(r"return (-1|0|true|false|1|-2);", code)
        if m: sub(m, "return %s;" % {"-1": "0", "0": "-1", "true": "false", "false": "true", "1": "0", "-2": "0"}[m.group(1)])
    return res
random.seed(SEED)
allm = []
for p in files():
    st = sites(p)
    random.shuffle(st)
    allm.append([(p,) + x for x in st])
# round-robin weighted by the square root of the number of sites
pool = []
w = [max(1, len(x) ** .6) for x in allm]
while len(pool) < COUNT and any(allm):
    k = random.choices(range(len(allm)), [a if x else 0 for a, x in zip(w, allm)])[0]
    pool.append(allm[k].pop())
print("%d mutants of %d sites" % (len(pool), sum(map(len, allm)) + len(pool)), flush=True)
q = queue.Queue()
for m in pool: q.put(m)
lock = threading.Lock(); stat = {}
def worker(k):
    R = "/tmp/mut/r%d" % k; shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
    subprocess.check_call("cp -a /repo/src /repo/include %s/" % R, shell=True)
    vd = "/tmp/mut/v%d" % k
    subprocess.check_call("mkdir -p %s && cp -a %s/check.py %s/config.py %s/harness %s/known-findings.txt %s/" % (vd, V, V, V, V, vd), shell=True)
    # the plain builds are enough to find most of them; the late checks run as they are
    open(vd + "/config.py", "a").write("\nfor _p in PROPS:\n    if _p not in %r:\n        PROPS[_p]['runs'] = [r for r in PROPS[_p]['runs'] if not CONFIGS[r['cfg']].get('san')] or PROPS[_p]['runs']\nfor _c in CONFIGS.values():\n    _c['flags'] = ['-O1' if f == '-O2' else f for f in _c['flags']]\n" % (LATE,))
    while True:
        try: p, i, old, new = q.get_nowait()
        except queue.Empty: return
        f = os.path.join(R, p); s = open("/repo/" + p, newline="", errors="replace").read(); l = s.split("\n"); l[i] = new
        open(f, "w", newline="", errors="replace").write("\n".join(l))
        props = next((v for r, v in MAP if re.search(r, "/" + p)), []) + LATE
        res, by = "SURVIVED", ""
        t0 = time.time()
        for c in props:
            try:
                r = subprocess.run(["nice", "-n", "5", "python3", vd + "/check.py", c], env=dict(os.environ, VERIF_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
                o, rc = r.stdout.decode(errors="replace"), r.returncode
            except subprocess.TimeoutExpired: o, rc = "timeout", 9
            if rc == 1: res, by = "killed", c; break
            if rc != 0:
                if "compile failed" in o or "link failed" in o: res, by = "invalid", c; break
                res, by = "ODD", c + " " + o[-300:].replace("\n", " | "); break
        open(f, "w", newline="", errors="replace").write(s)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            with open(OUT, "a") as g:
                g.write("%s by=%s %s:%d %.0fs\n" % (res, by, p, i + 1, time.time() - t0))
                if res in ("SURVIVED", "ODD") or by in LATE: g.write("   - %s\n   + %s\n" % (old.strip(), new.strip()))
ts = [threading.Thread(target=worker, args=(k,)) for k in range(WORKERS)]
for t in ts: t.start()
for t in ts: t.join()
print(stat)
