#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  python3 check.py C01 [--tier quick|thorough]    run the check of a property
  python3 check.py --setup                         build everything once
  python3 check.py --replay FILE                   run a saved failing case again

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..":
broken.  Exit 2: no verdict (harness or build failure, inconclusive run).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
NCPU = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, DRIVERS  # noqa: E402


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ building
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for d in (SRC, HARN, os.path.join(HARN, "cfg")):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and f.endswith((".h", ".hpp", ".cpp")) and not (d == SRC and f == "config.h"):
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h


BASE = ["-DHAVE_CONFIG_H", "-I" + HARN, "-I" + os.path.join(HARN, "cfg"), "-I" + SRC, "-I/usr/include/tcl8.6",
        "-include", os.path.join(SRC, "stdio-gets-hack.h"), "-w", "-g", "-U_FORTIFY_SOURCE"]


_objs, _objs_lock = {}, threading.Lock()


def lib_sources(tcl):
    """The library: every source file of /repo/src (the Tcl binding only where it is used)."""
    return sorted(f for f in os.listdir(SRC) if f.endswith(".cpp") and (tcl or "TCL" not in f))


def compile_one(src, v, flags, dst):
    p = sh([v["cxx"]] + v["flags"] + BASE + flags + v.get("defs", []) + ["-c", src, "-o", dst])
    if p.returncode:
        raise Inconclusive("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
    return dst


def build(driver, variant, pool, tmp):
    """Returns a function that waits for the executable and gives its path."""
    d, v = DRIVERS[driver], VARIANTS[variant]
    key = tree_hash()
    key.update(json.dumps([driver, d, variant, v], sort_keys=True).encode())
    dst = os.path.join(BUILD, "%s-%s-%s" % (driver, variant, key.hexdigest()[:20]))
    exe = os.path.join(dst, "run")
    if os.path.exists(exe):
        return lambda: exe
    mains = []
    for s in [d.get("src", driver)]:
        k = ("main", driver, variant)
        if k not in _objs:
            _objs[k] = pool.submit(compile_one, os.path.join(HARN, s + ".cpp"), v, d.get("flags", []), os.path.join(tmp, "%s-%s.o" % (driver, variant)))
        mains.append(_objs[k])
    libs = []
    for s in lib_sources(d.get("tcl")):
        k = ("lib", s, variant)
        if k not in _objs:
            _objs[k] = pool.submit(compile_one, os.path.join(SRC, s), v, [], os.path.join(tmp, "lib-%s-%s.o" % (s[:-4], variant)))
        libs.append(_objs[k])

    def finish():
        with _objs_lock:
            if os.path.exists(exe):
                return exe
            objs = [f.result() for f in mains + libs]
            part = os.path.join(BUILD, "tmp-%d-%s-%s" % (os.getpid(), driver, variant))
            os.makedirs(part, exist_ok=True)
            r = sh([v["cxx"]] + v["flags"] + objs + ["-o", os.path.join(part, "run")] + d.get("link", []) + ["-lpthread"])
            if r.returncode:
                shutil.rmtree(part, ignore_errors=True)
                raise Inconclusive("link of %s/%s failed:\n%s" % (driver, variant, r.stdout[-3000:]))
            shutil.rmtree(dst, ignore_errors=True)
            os.rename(part, dst)
            return exe
    return finish


def build_all(pairs):
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vh-build-")
    try:
        with ThreadPoolExecutor(NCPU) as pool:
            waits = [build(d, v, pool, tmp) for d, v in pairs]
            return [w() for w in waits]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def prune(keep):
    """Forget executables of earlier trees."""
    if os.path.isdir(BUILD):
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if p not in keep and time.time() - os.path.getmtime(p) > 1800:
                shutil.rmtree(p, ignore_errors=True)


# ------------------------------------------------------------------- running
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:handle_abort=0:malloc_context_size=12",
    "LSAN_OPTIONS": "exitcode=99:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=5",
    "MALLOC_PERTURB_": "165",
    "LC_ALL": "C", "TZ": "UTC",
}


def run_one(exe, job, prop, seed, start, count, scratch, tag, known, cpu=None, timeout=None):
    log = os.path.join(scratch, tag + ".log")
    st = os.path.join(scratch, tag + ".json")
    for f in (log, st, st + ".set"):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ); env.update(ENV)
    if job.get("noleak"):
        env["ASAN_OPTIONS"] += ":detect_leaks=0"
    env.update(job.get("env", {}))
    wd = os.path.join(scratch, tag + ".d")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    cmd = [exe, "--prop", prop, "--mode", job.get("mode", "-"), "--seed", str(seed), "--start", str(start), "--count", str(count),
           "--stats", st, "--log", log, "--cpu", str(cpu or job.get("cpu", 60))]
    if "tool" in VARIANTS[job["variant"]]:
        cmd = VARIANTS[job["variant"]]["tool"] + cmd
    for k in known:
        cmd += ["--known", k]
    for k in CHECKS[prop].get("keys", []):
        cmd += ["--only", k]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    to = False
    try:
        err = p.communicate(timeout=timeout or job.get("timeout", 600))[1]
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        err = p.communicate()[1]
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    sh(["chmod", "-R", "u+rwx", wd])
    shutil.rmtree(wd, ignore_errors=True)
    err = err.decode("utf-8", "replace")
    logtxt = ""
    if os.path.exists(log):
        logtxt = open(log, "rb").read().split(b"\0", 1)[0].decode("utf-8", "replace")
        os.unlink(log)
    res = {"rc": p.returncode, "err": err, "log": logtxt, "timeout": to, "wall": time.time() - t0, "cmd": cmd, "stats": None}
    m = re.match(r"case (\d+) ", logtxt)
    res["case"] = int(m.group(1)) if m else None
    if p.returncode == 0 and os.path.exists(st):
        res["stats"] = json.load(open(st))
        b = open(st + ".set", "rb").read()
        res["set"] = set(b[i:i + 8] for i in range(0, len(b), 8))
    return res


def describe(r):
    m = re.search(r"VIOL key=(\S+)(.*)\n?(.*)", r["err"])
    if m:
        return m.group(1), (m.group(1) + ": " + m.group(3).strip())
    m = re.search(r"SUMMARY: (\S+): ([^\n]*)", r["err"])
    if m:
        return m.group(2).split()[0], m.group(1) + " " + re.sub(r"0x[0-9a-f]+", "", m.group(2))
    m = re.search(r"^==\d+== ((?:Conditional|Use of|Invalid|Syscall|Argument|Mismatched|Source|Jump)[^\n]*)\n==\d+== +at [^:]*: ([^\n]*)", r["err"], re.M)
    if m:
        return "memcheck", "memcheck: %s at %s" % m.groups()
    m = re.search(r"runtime error: ([^\n]*)", r["err"])
    if m:
        return "undefined-behaviour", m.group(1)
    m = re.search(r"Assertion `(.*?)' failed|terminate called[^\n]*(?:\n[^\n]*what\(\):[^\n]*)?", r["err"])
    if m:
        return "abort", m.group(0)
    return ("signal-%d" % -r["rc"] if r["rc"] < 0 else "exit-%d" % r["rc"]), "ended with status %d" % r["rc"]


def load_known(prop):
    """Lines: known: property=<id> key=<oracle key> <what fails>"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    known = load_known(prop)
    os.makedirs(OUT, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        jobs = spec["jobs"]
        exes = build_all([(j["driver"], j["variant"]) for j in jobs])
        t_build = time.time() - t0
        work = []
        for ji, j in enumerate(jobs):
            total = j[tier]
            per = j.get("shards", NCPU)
            per = min(per, max(1, total))
            step = (total + per - 1) // per
            for s in range(per):
                a, b = s * step, min(total, (s + 1) * step)
                if a < b:
                    work.append((ji, a, b - a))
        def without(j, r):
            """a job that needs much memory ended for the lack of it"""
            return j.get("optional") and (r["timeout"] or r["rc"] == -9)

        # heavy (threaded) jobs say how many run side by side
        stop = []

        def go(w):
            ji, a, c = w
            if stop:
                return None
            r = run_one(exes[ji], jobs[ji], prop, seed, a, c, scratch, "w%d-%d" % (ji, a), [k for k, _ in known])
            r["job"], r["start"], r["count"] = ji, a, c
            if r["rc"] != 0 and not without(jobs[ji], r):
                stop.append(1)
            return r
        res = []
        for par in sorted(set(j.get("par", NCPU) for j in jobs), reverse=True):
            ws = [w for w in work if jobs[w[0]].get("par", NCPU) == par]
            with ThreadPoolExecutor(par) as ex:
                res += [r for r in ex.map(go, ws) if r is not None]
        bad = [r for r in res if r["rc"] != 0 and not without(jobs[r["job"]], r)]
        notes, confirmed = [], None
        for r in bad:
            j, exe = jobs[r["job"]], exes[r["job"]]
            if r["rc"] == 3 and not r["timeout"]:
                notes.append("harness error: " + r["err"][-800:])
                continue
            tries = []
            if r["case"] is not None:
                tries.append((r["case"], 1))
                tries.append((r["start"], r["case"] - r["start"] + 1))
            else:
                tries.append((r["start"], r["count"]))
            if not j.get("det", True):
                tries = [(r["start"], r["count"])] * 2 + tries[:1]
            again = None
            for a, c in tries:
                x = run_one(exe, j, prop, seed, a, c, scratch, "again", [k for k, _ in known], cpu=4 * j.get("cpu", 60))
                if x["rc"] not in (0, 3):
                    again = x
                    again["start"], again["count"] = a, c
                    break
            hard = r["rc"] in (77, 99, 66) or "runtime error" in r["err"]
            if again is not None or (hard and not j.get("det", True)) or r["rc"] in (99, 66):
                use = again if again is not None else r
                if use["timeout"] or use["rc"] == -9:
                    notes.append("no verdict: case %s ended with %s" % (use["case"], "a timeout" if use["timeout"] else "SIGKILL"))
                    continue
                use["job"] = r["job"]
                confirmed = use
                break
            if hard:
                notes.append("a failure did not reproduce: %s" % describe(r)[1])
            else:
                notes.append("run ended with %s and did not fail again" % r["rc"])
        # evidence
        good = [r for r in res if r["stats"]]
        counters, samples, dist, ev = {}, [], set(), 0
        cases = 0
        per_job = []
        for ji, j in enumerate(jobs):
            pj = {"driver": j["driver"], "variant": j["variant"], "mode": j.get("mode", "-"), "cases": 0, "oracle_evaluations": 0}
            for r in good:
                if r["job"] != ji:
                    continue
                pj["cases"] += r["stats"]["cases"]; pj["oracle_evaluations"] += r["stats"]["oracle_evaluations"]
                for k, v in r["stats"]["counters"].items():
                    if k != "cases":
                        counters[k] = counters.get(k, 0) + v
                if len(samples) < 6:
                    samples += [{"driver": j["driver"], "trace": s} for s in r["stats"]["samples"][:1]]
                dist |= set((ji if j.get("own_set") else 0, h) for h in r["set"])
            cases += pj["cases"]; ev += pj["oracle_evaluations"]
            per_job.append(pj)
        hits = {}
        for r in good:
            for k, v in r["stats"]["known"].items():
                hits[k] = hits.get(k, 0) + v
        for k, what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        viol = 1 if confirmed else 0
        cov = {"evaluations": cases, "distinct_nontrivial": len(dist), "rule": spec["rule"], "samples": samples,
               "oracle_comparisons": ev, "jobs": per_job, "observed": dict(sorted(counters.items())), "build_s": round(t_build, 1)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
                       "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol,
                       "known_findings_hit": hits, "notes": notes}, f, indent=1)
            f.write("\n")
        if confirmed:
            j = jobs[confirmed["job"]]
            key, what = describe(confirmed)
            rp = os.path.join(OUT, "%s-%s-%s-s%d-c%s.json" % (prop, j["driver"], j["variant"], seed, confirmed["case"]))
            json.dump({"property": prop, "driver": j["driver"], "variant": j["variant"], "job": j, "seed": seed, "start": confirmed["start"], "count": confirmed["count"],
                       "what": what, "stderr": confirmed["err"][-20000:], "operations": confirmed["log"][-60000:].split("\n")}, open(rp, "w"), indent=1)
            print("%s [%s/%s] %s" % (prop, j["driver"], j["variant"], what))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        for n in notes:
            print("NO-VERDICT %s: %s" % (prop, n))
        if notes:
            return 2
        if len(good) != len(work) or cases == 0 or ev == 0 or not dist:
            print("NO-VERDICT %s: nothing observed" % prop)
            return 2
        for need in spec.get("need", []):
            if not counters.get(need):
                print("NO-VERDICT %s: the workload never reached %s" % (prop, need))
                return 2
        print("%s held: %d cases, %d oracle comparisons, %d distinct, %.1f s (build %.1f s)" % (prop, cases, ev, len(dist), time.time() - t0, t_build))
        return 0
    finally:
        sh(["chmod", "-R", "u+rwx", scratch])
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if a[:1] == ["--setup"]:
        pairs = sorted(set((j["driver"], j["variant"]) for c in CHECKS.values() for j in c["jobs"]))
        prune([os.path.dirname(e) for e in build_all(pairs)])
        print("built %d drivers" % len(pairs))
        return 0
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        j = r["job"]
        exe = build_all([(r["driver"], r["variant"])])[0]
        sc = tempfile.mkdtemp(prefix="vh-replay-")
        os.chmod(sc, 0o755)
        x = run_one(exe, j, r["property"], r["seed"], r["start"], r["count"], sc, "replay", [])
        shutil.rmtree(sc, ignore_errors=True)
        print(x["log"]); print(x["err"])
        return 1 if x["rc"] else 0
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(a) != 1 or a[0] not in CHECKS:
        print(__doc__); return 2
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print("NO-VERDICT: %s" % e)
        sys.exit(2)
