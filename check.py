#!/usr/bin/env python3
"""Builds gmlib's current sources with one driver in the needed configurations,
runs the workload of one property, and reports the verdict.

  check.py PROP            quick or thorough, from $VERIF_TIER (default quick)
  check.py PROP --replay F re-run the one case recorded in a replay file
  check.py --list
Exit: 0 held, 1 violation (VIOLATION line), 2 inconclusive / harness error.
"""
import sys, os, json, hashlib, subprocess, time, shutil, re, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from config import PROPS, CONFIGS, DRIVERS, SUPP, MULT  # noqa

CACHE = os.path.join(HERE, ".cache")
NCPU = min(8, os.cpu_count() or 8)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()

class HarnessError(Exception):
    pass

def sh(cmd, timeout=900):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")

def compile_obj(cfg, src, hdrs):
    c = CONFIGS[cfg]
    flags = c["cxx"] + c["flags"]
    with open(src, "rb") as f:
        key = sha(" ".join(flags), src, f.read(), hdrs)
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        cmd = flags + ["-std=c++17", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness"),
                       "-w", "-c", src, "-o", tmp]
        rc, out = sh(cmd)
        if rc != 0:
            raise HarnessError("compile failed (%s): %s\n%s" % (cfg, src, out[-3000:]))
        os.replace(tmp, obj)
    return obj, key

def build(pairs, pool):
    """pairs: set of (driver, cfg) -> {pair: exe}"""
    os.makedirs(CACHE, exist_ok=True)
    hdr_repo = tree_hash(os.path.join(REPO, "include"), (".h", ".hpp", ".inc"))
    # sources may include each other / private headers next to them
    hdr_src = tree_hash(os.path.join(REPO, "src"), (".h", ".hpp", ".inc"))
    hdr_me = tree_hash(os.path.join(HERE, "harness"), (".h",))
    jobs = {}
    for drv, cfg in pairs:
        srcs = [os.path.join(HERE, "harness", drv + ".cpp")]
        for m in DRIVERS[drv]["modules"]:
            d = os.path.join(REPO, "src", m)
            for root, _, fs in os.walk(d):
                srcs += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".c"))]
        for s in srcs:
            mine = s.startswith(HERE)
            jobs.setdefault((cfg, s), pool.submit(compile_obj, cfg, s, hdr_repo + hdr_src + (hdr_me if mine else "")))
        jobs[(drv, cfg, "list")] = srcs
    exes = {}
    for drv, cfg in pairs:
        objs = [jobs[(cfg, s)].result() for s in jobs[(drv, cfg, "list")]]
        c = CONFIGS[cfg]
        key = sha(drv, cfg, *[k for _, k in objs])
        exe = os.path.join(CACHE, "%s-%s-%s" % (drv, cfg, key))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            libs = DRIVERS[drv].get("libs", [])
            rc, out = sh(c["cxx"] + c["flags"] + [o for o, _ in objs] + ["-o", tmp] + libs)
            if rc != 0:
                # the sources may have come to depend on other modules
                have = set(jobs[(drv, cfg, "list")])
                more = []
                for root, _, fs in os.walk(os.path.join(REPO, "src")):
                    more += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".c")) and os.path.join(root, f) not in have]
                extra = [pool.submit(compile_obj, cfg, s, hdr_repo + hdr_src) for s in more]
                extra = [e.result()[0] for e in extra]
                rc, out = sh(c["cxx"] + c["flags"] + [o for o, _ in objs] + extra + ["-o", tmp] + libs)
            if rc != 0:
                raise HarnessError("link failed (%s %s)\n%s" % (drv, cfg, out[-3000:]))
            os.replace(tmp, exe)
        exes[(drv, cfg)] = exe
    return exes

def prune_cache(limit=1500 << 20):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in
              (os.path.join(CACHE, f) for f in os.listdir(CACHE)) if os.path.isfile(p)]
    except OSError:
        return
    tot = sum(s for _, s, _ in fs)
    for m, s, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.remove(p)
            tot -= s
        except OSError:
            pass

def san_env():
    e = dict(os.environ)
    supp = os.path.join(HERE, "harness", "lsan.supp")
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:handle_abort=0:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e.pop("OPENSSL_CONF", None)
    return e

def read_current(out):
    try:
        with open(os.path.join(out, "current"), "rb") as f:
            s = f.read(512).split(b"\n")[0].decode()
        n, i, lim, t = s.rsplit(" ", 3)
        return n, int(i), int(lim), int(t)
    except Exception:
        return None

def summarize(err):
    """first informative lines of a sanitizer report"""
    keep = []
    for l in err.splitlines():
        if re.search(r"runtime error|ERROR: AddressSanitizer|SUMMARY:|WARNING: ThreadSanitizer|^\s+#[0-9]+ .*(/repo/|gmlib)|terminate called|what\(\)|Assertion|Invalid (read|write)|[Uu]ninitialised|^==[0-9]+==    (at|by) 0x|stack smashing|free\(\)|malloc", l):
            keep.append(l.strip())
        if len(keep) > 14:
            break
    return " | ".join(keep)[:1800] or err[-600:].replace("\n", " | ")

def run_proc(cmd, out, hard_limit, slow=1, logname="stderr"):
    """Runs one process; kills it when one case exceeds its (generous) limit.
    Returns (rc, stderr, hang_case)"""
    os.makedirs(out, exist_ok=True)
    ef = open(os.path.join(out, logname), "wb")
    of = open(os.path.join(out, "stdout"), "wb")
    p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=san_env(), start_new_session=True, cwd=out)
    t0 = time.time()
    hang = None
    while True:
        try:
            p.wait(timeout=0.05 if time.time() - t0 < 5 else 0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        cur = read_current(out)
        now = time.time()
        if (cur and now - cur[3] > cur[2] * slow) or now - t0 > hard_limit:
            hang = cur or ("?", 0, 0, 0)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    ef.close(), of.close()
    with open(os.path.join(out, logname), "rb") as f:
        err = f.read().decode(errors="replace")
    return p.returncode, err, hang

def load_known():
    """known-findings.txt: lines 'known: property=<id> key=<key> <text>' and 'fixed: ...'"""
    known = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--list":
        print("\n".join(sorted(PROPS)))
        return 0
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    for i, a in enumerate(sys.argv):
        if a == "--replay":
            only = json.load(open(sys.argv[i + 1]))
            seed, tier = only["seed"], only["tier"]
    t0 = time.time()
    work = os.path.join(HERE, ".work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return run(prop, spec, tier, seed, only, t0, work)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def task_cmd(exe, cfg, t, out):
    cmd = [exe] + t + ["--out", out]
    c = CONFIGS[cfg]
    if c.get("wrap"):
        cmd = [w.replace("@HERE@", HERE) for w in c["wrap"]] + cmd
    return cmd

def run(prop, spec, tier, seed, only, t0, work):
    runs = spec["runs"]
    pool = ThreadPoolExecutor(NCPU)
    runs_t = [r for r in runs if not (r.get("tier") == "thorough" and tier == "quick")]
    exes = build(set((r["driver"], r["cfg"]) for r in runs_t), pool)
    t_build = time.time() - t0
    tasks = []
    for r in runs_t:
        c = CONFIGS[r["cfg"]]
        n = r.get("shards", 4)
        base = ["--prop", r.get("prop", prop), "--seed", str(seed), "--config", r["cfg"],
                "--salt", r.get("salt", r["cfg"]), "--thorough", "1" if tier == "thorough" else "0",
                "--san", "1" if c.get("san") else "0", "--scale", str(r.get("scale", 1)), "--mult", str(MULT.get(prop, 1) if "prop" not in r else 1)]
        if only:
            pair = only["key"].startswith("builds:") and r.get("transcript")
            if (only["config"] != r["cfg"] and not pair) or only["driver"] != r["driver"] or only.get("cases_of", prop) != r.get("prop", prop):
                continue
            tasks.append((r, base + ["--case", only["case"], "--idx", str(only["idx"])], 0))
            continue
        if r.get("cases"):
            base += ["--case", r["cases"]]
        for s in range(n):
            tasks.append((r, base + ["--shard", str(s), "--nshards", str(n)], s))
    hard = 700 if tier == "quick" else 20 * 3600
    results = []
    fails = []      # dicts
    incon = []
    lock = threading.Lock()

    def do(t):
        r, args, s = t
        cfg = r["cfg"]
        out = os.path.join(work, "%s-%s-%s-%d" % (r["driver"], r.get("prop", prop), cfg, s))
        os.makedirs(out, exist_ok=True)
        a = list(args)
        if r.get("transcript"):
            a += ["--transcript", os.path.join(out, "transcript")]
        rc, err, hang = run_proc(task_cmd(exes[(r["driver"], cfg)], cfg, a, out), out, hard, CONFIGS[cfg].get("slow", 1))
        res = None
        try:
            res = json.load(open(os.path.join(out, "result.json")))
        except Exception:
            pass
        with lock:
            if res:
                results.append((r, out, res))
                for f in res["fails"]:
                    if not r.get("only") or re.search(r["only"], f["key"]):
                        fails.append(dict(f, config=cfg, driver=r["driver"], cases_of=r.get("prop", prop)))
        if hang:
            with lock:
                if any(f["key"].startswith("hang:") for f in fails):
                    fails.append({"case": hang[0], "idx": hang[1], "key": "hang:" + hang[0], "config": cfg, "driver": r["driver"], "cases_of": r.get("prop", prop),
                                  "detail": "case does not terminate (limit %ds)" % hang[2]})
                    return
            # one retry of that case alone, with twice the limit
            name, idx, lim, _ = hang
            out2 = out + "-retry"
            i = args.index("--shard") if "--shard" in args else None
            a2 = (args[:i] + args[i + 4:] if i is not None else args)
            if "--idx" not in a2:
                a2 = a2 + ["--case", name, "--idx", str(idx)]
            lim *= CONFIGS[cfg].get("slow", 1)
            lim2 = max(2 * lim, 60)
            p_out = os.path.join(out2, "x")
            os.makedirs(p_out, exist_ok=True)
            cmd = task_cmd(exes[(r["driver"], cfg)], cfg, a2, p_out)
            t1 = time.time()
            try:
                rr = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=san_env(), timeout=lim2, cwd=p_out)
                with lock:
                    if rr.returncode in (0, 10):
                        incon.append("case %s #%d (%s) exceeded %ds once, finished in %.1fs when re-run" % (name, idx, cfg, lim, time.time() - t1))
                    else:
                        fails.append({"case": name, "idx": idx, "key": "crash:" + name, "config": cfg, "driver": r["driver"], "cases_of": r.get("prop", prop),
                                      "detail": summarize(rr.stderr.decode(errors="replace"))})
            except subprocess.TimeoutExpired:
                with lock:
                    fails.append({"case": name, "idx": idx, "key": "hang:" + name, "config": cfg, "driver": r["driver"], "cases_of": r.get("prop", prop),
                                  "detail": "case does not terminate (limit %ds, again alone within %ds)" % (lim, lim2)})
            return
        sanitizer = re.search(r"AddressSanitizer|runtime error:|ThreadSanitizer|ERROR SUMMARY: [1-9]", err)
        if rc in (0, 10) and res and not (sanitizer and CONFIGS[cfg].get("san")):
            return
        cur = read_current(out)
        if rc == 3 or (rc == 66 and not sanitizer) or (cur is None and not sanitizer):
            with lock:
                incon.append("driver %s (%s) failed rc=%s: %s" % (r["driver"], cfg, rc, err[-800:]))
            return
        name, idx = (cur[0], cur[1]) if cur else ("?", 0)
        kind = "crash"
        if "ThreadSanitizer" in err:
            kind = "race"
        with lock:
            fails.append({"case": name, "idx": idx, "key": "%s:%s" % (kind, name), "config": cfg, "driver": r["driver"], "cases_of": r.get("prop", prop),
                          "detail": "rc=%s %s" % (rc, summarize(err))})
    list(pool.map(do, tasks))

    # cross-build comparison
    post = spec.get("post")
    if post and (not only or only["key"].startswith("builds:")):
        extra, info = post(results)
        fails += extra
    # merge
    percase, tags, samples, req = {}, {}, [], set()
    fps = set()
    evals = 0
    import array
    per_cfg = {}
    for r, out, res in results:
        evals += res["evals"]
        per_cfg[r["cfg"]] = per_cfg.get(r["cfg"], 0) + res["evals"]
        for k, v in res["percase"].items():
            percase[k] = percase.get(k, 0) + v
        for k, v in res["tags"].items():
            tags[k] = tags.get(k, 0) + v
        if "prop" not in r:
            req |= set(res["required"])
        if len(samples) < 12:
            for s in res["samples"]:
                if len(samples) < 12 and s not in samples:
                    samples.append(s)
        try:
            a = array.array("Q")
            with open(os.path.join(out, "fps.bin"), "rb") as f:
                a.frombytes(f.read())
            fps |= set(a)
        except Exception:
            pass
    known = load_known()
    viol, knownhit = [], {}
    for f in fails:
        if (prop, f["key"]) in known:
            knownhit.setdefault(f["key"], f)
        else:
            viol.append(f)
    missing = sorted(t for t in req if not tags.get(t)) if not only else []
    if missing:
        incon.append("required situations never observed: %s" % ", ".join(missing))
    if not only:
        cov = {"evaluations": evals, "distinct_nontrivial": len(fps), "rule": spec["rule"], "samples": samples[:12],
               "cases": percase, "observed": dict(sorted(tags.items())), "builds": per_cfg}
        if post:
            cov.update(info)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for k, f in knownhit.items():
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[(prop, k)], k))
    print("%s %s: %d evaluations, %d distinct, build %.1fs, total %.1fs" % (prop, tier, evals, len(fps), t_build, time.time() - t0))
    prune_cache()
    if viol:
        seen = set()
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for f in viol:
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            if len(seen) > 10:
                break
            rp = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", f["key"])[:80]))
            with open(rp, "w") as fh:
                json.dump(dict(f, property=prop, seed=seed, tier=tier, rerun="python3 check.py %s --replay %s" % (prop, rp)), fh, indent=1)
            print("  %s [%s %s #%s] %s" % (f["key"], f["config"], f["case"], f["idx"], f["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if incon:
        for i in incon:
            print("INCONCLUSIVE: %s" % i)
        return 2
    if not only and evals == 0:
        print("INCONCLUSIVE: nothing was evaluated")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
