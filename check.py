#!/usr/bin/env python3
"""Runs the simulation check of one property (see DESIGN.md).

  check.py PROPERTY [--tier quick|thorough]     the check
  check.py --replay FILE                        re-executes a replay file
  check.py --setup                              builds everything
"""
import argparse, collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NPROC = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
sys.path.insert(0, os.path.join(VERIF, "sim"))
import gen_ninja  # noqa: E402
import props  # noqa: E402


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------------------------- building ---
def sh(cmd, timeout, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        log("build failed:", cmd if isinstance(cmd, str) else " ".join(cmd))
        sys.exit(2)
    return p.stdout


def build_core(target):
    d = os.path.join(BUILD, "core")
    gen_ninja.generate(d, REPO)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"))
    sh(["ninja", "-C", d, target], 1500, env=env)
    return os.path.join(d, target)


def build_py(_target):
    d = os.path.join(BUILD, "py")
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"))
    sh(["bash", os.path.join(VERIF, "sim", "build_py.sh"), d], 1500, env=env)
    return os.path.join(VERIF, "sim", "py", "simpy.sh")


ENGINES = {
    "core": lambda: build_core("simcore"),
    "trace": lambda: build_core("simtrace"),
    "py": lambda: build_py("pywrenfold"),
}


def sources():
    """Digests of the sources; ninja goes by time stamps, which a copied or restored tree may have kept."""
    out = {}
    for top, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in (".git", "__pycache__") and not d.startswith("build"))
        for n in sorted(fs):
            if n.endswith((".h", ".hpp", ".cc", ".cpp", ".c", ".inl", ".txt", ".cmake", ".in")):
                p = os.path.join(top, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, REPO)] = hashlib.sha256(f.read()).hexdigest()
    return out


def build(engine):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        t = time.time()
        now, d = sources(), os.path.join(BUILD, "py" if engine == "py" else "core")
        rec = d + ".sources"
        if os.path.exists(rec):
            with open(rec) as f2:
                then = json.load(f2)
            old = os.path.getmtime(rec)
            for n in set(now) | set(then):
                if now.get(n) != then.get(n) and (n not in now or os.path.getmtime(os.path.join(REPO, n)) <= old):
                    log("rebuilding: %s changed without a newer time stamp" % n)
                    shutil.rmtree(d, ignore_errors=True)
                    os.remove(rec)
                    break
        started = time.time()
        b = ENGINES[engine]()
        with open(rec, "w") as f2:
            json.dump(now, f2)
        os.utime(rec, (started, started))
        log("built", engine, "in %.1f s" % (time.time() - t))
        return b


# ------------------------------------------------------------------------------------- workers ---
class Scratch:
    """A scratch directory of its own for every simulator process."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="wfsim.", dir="/tmp")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run_plan(binary, text, timeout=400):
    """Executes one plan in a fresh process; returns its result line."""
    with Scratch() as d:
        f = os.path.join(d, "plan.txt")
        open(f, "w").write(text)
        w = os.path.join(d, "w")
        os.mkdir(w)
        try:
            p = subprocess.run([binary, "run", f], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
            return json.loads(p.stdout.strip().splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError) as e:
            return {"status": 3, "kind": "no-answer", "hash": "", "detail": str(e)[:300], "c": {}, "pre": [], "plan": text}


class Batch:
    def __init__(self):
        self.lines, self.bad, self.stop = 0, [], threading.Event()
        self.procs, self.lock = [], threading.Lock()

    def worker(self, binary, scen, first, count, tier, stride, dup, secs, sink):
        with Scratch() as d:
            p = subprocess.Popen([binary, "batch", scen, str(first), str(count), str(tier), str(stride), str(dup), str(secs)], cwd=d,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
            with self.lock:
                self.procs.append(p)
            last = None
            for l in p.stdout:
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                last = x["seed"]
                sink(x)
            p.wait()
            if p.returncode != 0 and not self.stop.is_set():
                sink({"seed": -1, "status": 3, "kind": "worker-died", "hash": "", "sched": "", "runs": 0, "sim_ns": 0, "c": {}, "plan": "", "pre": [],
                      "detail": "simulator process ended with %d after seed %s" % (p.returncode, last)})

    def kill(self):
        self.stop.set()
        with self.lock:
            for p in self.procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass


# ----------------------------------------------------------------------------------- minimising ---
def plan_lines(text):
    return [l for l in text.splitlines() if l.strip()]


def ddmin(items, test, deadline, pool):
    """Classic delta debugging, testing the candidates of one granularity in parallel."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        n = min(n, max(len(items), 1))
        size = max(1, (len(items) + n - 1) // n)
        parts = [items[i:i + size] for i in range(0, len(items), size)]
        cands = [[x for j, q in enumerate(parts) if j != i for x in q] for i in range(len(parts))]
        if len(parts) > 2:
            cands = parts + cands
        if len(items) == 1:
            cands = [[]]
        hit = None
        futs = [pool.submit(test, c) for c in cands]
        for c, f in zip(cands, futs):
            if hit is None:
                try:
                    if f.result():
                        hit = c
                except Exception:
                    pass
            else:
                f.cancel()
        if hit is not None:
            if len(hit) == 0:
                return []
            n = 2 if len(hit) < len(items) // 2 + 1 else max(n - 1, 2)
            items = hit
        elif n >= len(items):
            return items
        else:
            n = min(len(items), n * 2)
    return items


def minimise(binary, text, kind, budget):
    deadline = time.time() + budget
    per = max(20, budget)

    def same(lines):
        if time.time() > deadline:
            return False
        r = run_plan(binary, "\n".join(lines) + "\n", timeout=per)
        return r["status"] == 2 and r["kind"] == kind

    with cf.ThreadPoolExecutor(NPROC) as pool:
        lines = plan_lines(text)
        for key in ("fault ", "op "):
            rest = [l for l in lines if not l.startswith(key)]
            cur = [l for l in lines if l.startswith(key)]
            if not cur:
                continue
            # keep the order op, fault
            def rebuild(sel, key=key, lines=lines):
                left = collections.Counter(sel)
                out = []
                for l in lines:
                    if l.startswith(key):
                        if left[l] > 0:
                            left[l] -= 1
                            out.append(l)
                    else:
                        out.append(l)
                return out
            best = ddmin(cur, lambda s: same(rebuild(s)), deadline, pool)
            if len(best) < len(cur):
                lines = rebuild(best)
        # the schedule: replay the recorded preemptions and drop those that are not needed
        r = run_plan(binary, "\n".join(lines) + "\n", timeout=per)
        if r["status"] == 2 and r["kind"] == kind and not any(l.startswith("script") for l in lines) and 0 < len(r.get("pre", [])) < 15000:
            pres = ["pre %d %d %d" % tuple(x) for x in r["pre"]]
            base = lines + ["script 1"]
            if same(base + pres):
                best = ddmin(pres, lambda s: same(base + s), deadline, pool)
                lines = base + best
    return "\n".join(lines) + "\n"


def symbolise(binary, pcs):
    if not pcs or not os.path.exists(binary) or binary.endswith(".sh"):
        return []
    try:
        out = subprocess.run(["addr2line", "-Cfpi", "-e", binary] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout
        return [re.sub(r"\s+", " ", l)[:260] for l in out.splitlines()][:60]
    except Exception:
        return []


# -------------------------------------------------------------------------------- known findings ---
def known_findings(prop):
    """known: property=<id> engine=<e> plan=<file> <what fails>"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+engine=(\S+)\s+plan=(\S+)\s+kinds=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(engine=m.group(2), plan=os.path.join(VERIF, m.group(3)), kinds=m.group(4).split(","), what=m.group(5).strip()))
    return out


# -------------------------------------------------------------------------------------- checking ---
def confirm(binary, x):
    """A violation counts when the same plan fails in the same way in fresh processes."""
    a = run_plan(binary, x["plan"])
    b = run_plan(binary, x["plan"])
    ok = a["status"] == 2 and b["status"] == 2 and a["kind"] == b["kind"]
    return ok, a, b


def report(prop, tier, engine, binary, x, a, b):
    kind = a["kind"]
    budget = 60 if tier == "quick" else 240
    small = minimise(binary, x["plan"], kind, budget)
    c, d = run_plan(binary, small), run_plan(binary, small)
    if not (c["status"] == 2 and d["status"] == 2 and c["kind"] == kind):
        small, c, d = x["plan"], a, b
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    path = os.path.join(EVID, "replays", "%s-%s.json" % (prop, x["seed"]))
    rep = dict(property=prop, engine=engine, seed=x["seed"], kind=kind, hash=c["hash"], exact=c["hash"] == d["hash"], detail=c.get("detail", ""),
               plan=small.splitlines(), unminimised_plan=x["plan"].splitlines(),
               where=c.get("where") or symbolise(binary, c.get("pcs", [])), where_other=symbolise(binary, c.get("pcs2", [])))
    json.dump(rep, open(path, "w"), indent=1)
    log("violation", kind, "-", c.get("detail", "")[:1500])
    for l in rep["where"][:14]:
        print("    at", l)
    if rep["where_other"]:
        print("  other access:")
        for l in rep["where_other"][:10]:
            print("    at", l)
    print("  minimised plan: %d lines (from %d), exact replay: %s; re-run with: python3 check.py --replay %s" %
          (len(rep["plan"]), len(rep["unminimised_plan"]), rep["exact"], path))
    return path


def write_evidence(prop, tier, seed, cfg, parts, violations, extra):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=cfg["rule"], samples=[])
    tot, kinds = collections.Counter(), collections.Counter()
    sim_ns = procs = 0
    search_s = 0.0
    comp = []
    for q in parts:
        cov["evaluations"] += q["n"]
        cov["distinct_nontrivial"] += len(q["distinct"])
        cov["samples"] += q["samples"]
        tot.update(q["tot"])
        sim_ns += q["sim_ns"]
        procs += q["runs"]
        search_s += q["secs"]
        comp.append(dict(engine=q["engine"], scenario=q["scen"], plans=q["n"], distinct_schedules=len(q["scheds"]), distinct_executions=len(q["hashes"]),
                         repeated_for_determinism=q["dups"], wall_s=round(q["secs"], 1), stopped_by_time_limit=q["timed_out"]))
    cov["parts"] = comp
    cov["simulated_processes"] = procs
    cov["seeds_per_hour"] = round(cov["evaluations"] / max(search_s, 1e-3) * 3600)
    cov["simulated_time_s"] = round(sim_ns / 1e9, 6)
    cov["counters"] = dict(tot)
    cov["faults_injected"] = {k: tot[v] for k, v in cfg["faults"].items() if tot.get(v)}
    cov["real_components"] = cfg["real"]
    cov["stubbed_components"] = cfg["stub"]
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov, assumptions=cfg["assumptions"], wall_s=round(time.time() - T0, 2),
              violations=violations)
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def check(prop, tier):
    cfg = props.PROPS[prop]
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    seed0 = (base % 1000000) * 1000000
    parts, suspects, harness = [], [], []
    binaries = {}
    violation = None
    extra = {"known_findings": []}
    limit = cfg["seconds"][0 if tier == "quick" else 1]
    for e in dict.fromkeys([q["engine"] for q in cfg["parts"]]):
        binaries[e] = build(e)
    weight = sum(q.get("share", 1) for q in cfg["parts"])
    for q in cfg["parts"]:
        if violation:
            break
        engine, scen = q["engine"], q["scen"]
        binary = binaries[engine]
        n = q["count"][0 if tier == "quick" else 1]
        secs = max(5, int(limit * q.get("share", 1) / weight))
        st = dict(engine=engine, scen=scen, n=0, distinct=set(), samples=[], tot=collections.Counter(), sim_ns=0, runs=0, scheds=set(), hashes=set(), secs=0.0,
                  dups=0, timed_out=False)
        parts.append(st)
        b = Batch()
        lock = threading.Lock()
        fresh = []
        nontrivial = q["nontrivial"]

        def sink(x, st=st, fresh=fresh, lock=lock, nontrivial=nontrivial):
            with lock:
                if x["status"] == 2:
                    fresh.append(x)
                elif x["status"] != 1:
                    harness.append((engine, x))
                if x["seed"] < 0:
                    return
                st["n"] += 1
                st["runs"] += x["runs"]
                st["sim_ns"] += x["sim_ns"]
                st["tot"].update(x["c"])
                st["scheds"].add(x["sched"])
                st["hashes"].add(x["hash"])
                if nontrivial(x["c"]):
                    st["distinct"].add(x["sched"] if q["by"] == "schedule" else x["hash"])

        stride = NPROC
        dup = q["dup"][0 if tier == "quick" else 1]
        per = (n + stride - 1) // stride
        t = time.time()
        threads = [threading.Thread(target=b.worker, args=(binary, scen, seed0 + i, per, 1 if tier == "thorough" else 0, stride, dup, secs, sink)) for i in range(stride)]
        for th in threads:
            th.start()
        tried = set()
        while any(th.is_alive() for th in threads) or len(fresh) > len(tried):
            time.sleep(0.1)
            if time.time() - t > secs + 240:
                b.kill()
                st["timed_out"] = True
            if violation is None and len(tried) < 12:
                with lock:
                    todo = [x for x in fresh if x["seed"] not in tried]
                for x in todo[:3]:
                    tried.add(x["seed"])
                    ok, a, c = confirm(binary, x)
                    if ok:
                        violation = (engine, binary, x, a, c)
                        b.kill()
                        break
                    suspects.append((x["seed"], x["kind"], a["status"], a["kind"], c["status"], c["kind"]))
            elif violation is not None or len(tried) >= 12:
                b.kill()
                break
        for th in threads:
            th.join()
        st["secs"] = time.time() - t
        st["timed_out"] = st["timed_out"] or st["n"] < per * stride and violation is None
        st["dups"] = 0 if not dup else sum(1 for i in range(st["n"] // stride) if i % dup == 0) * stride
        for s in (seed0, seed0 + 1, seed0 + 2):
            try:
                st["samples"].append(subprocess.run([binary, "plan", scen, str(s), "1" if tier == "thorough" else "0"], stdout=subprocess.PIPE, text=True, timeout=60).stdout[:3000])
            except Exception:
                pass
        log("%s %s: %d plans, %d simulated processes, %d distinct non-trivial, %.1f s%s" %
            (engine, scen, st["n"], st["runs"], len(st["distinct"]), st["secs"], ", stopped by the time limit" if st["timed_out"] else ""))
    path = None
    if violation:
        engine, binary, x, a, c = violation
        path = report(prop, tier, engine, binary, x, a, c)
    else:
        # a simulated process that does not end is run again, alone
        rest = []
        for engine, x in harness:
            if x["kind"] in ("wall-clock-limit", "no-answer") and x.get("plan") and path is None:
                a = run_plan(binaries[engine], x["plan"])
                if a["status"] == 2 or (a["status"] == 3 and a["kind"] == "wall-clock-limit"):
                    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
                    path = os.path.join(EVID, "replays", "%s-%s.json" % (prop, x["seed"]))
                    json.dump(dict(property=prop, engine=engine, seed=x["seed"], kind=a["kind"] if a["status"] == 2 else "hang", hash=a["hash"], detail="the simulated run does not end",
                                   plan=x["plan"].splitlines()), open(path, "w"), indent=1)
                elif a["status"] != 1:
                    rest.append((engine, a))
            else:
                rest.append((engine, x))
        harness = rest
    if path is None:
        for k in known_findings(prop):
            text = open(k["plan"]).read()
            if k["engine"] not in binaries:
                binaries[k["engine"]] = build(k["engine"])
            r = run_plan(binaries[k["engine"]], text)
            still = r["status"] == 2
            extra["known_findings"].append(dict(plan=os.path.relpath(k["plan"], VERIF), still_fails=still, kind=r["kind"]))
            if still and r["kind"] in k["kinds"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            elif still:
                r2 = run_plan(binaries[k["engine"]], text)
                if r2["status"] == 2 and r2["kind"] == r["kind"]:
                    r["seed"], r["plan"] = "known", text
                    path = report(prop, tier, k["engine"], binaries[k["engine"]], r, r, r2)
    extra["unconfirmed"] = [list(s) for s in suspects]
    extra["harness_errors"] = [dict(engine=e, seed=x["seed"] if "seed" in x else None, kind=x["kind"], detail=x.get("detail", "")[:300]) for e, x in harness[:10]]
    write_evidence(prop, tier, base, cfg, parts, 1 if path else 0, extra)
    if path:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    hard = [x for _, x in harness if x["kind"] not in ("nondeterministic",)]
    for e, x in harness[:5]:
        log("harness problem:", e, x.get("seed"), x["kind"], x.get("detail", "")[:300])
    for s in suspects[:5]:
        log("not reproduced:", s)
    if hard:
        log("the check gives no answer")
        return 2
    log("held on everything explored")
    return 0


def replay(path):
    rep = json.load(open(path))
    binary = build(rep["engine"])
    r = run_plan(binary, "\n".join(rep["plan"]) + "\n")
    same = r["status"] == 2 and r["kind"] == rep["kind"]
    log("status", r["status"], r["kind"], "hash", r["hash"], "recorded", rep["hash"], "identical execution" if r["hash"] == rep["hash"] else "different execution")
    print(r.get("detail", "")[:3000])
    if same or (rep["kind"] == "hang" and r["kind"] == "wall-clock-limit"):
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for e in props.ENGINES_USED:
            build(e)
        return 0
    if a.replay:
        return replay(a.replay)
    return check(a.property, a.tier)


if __name__ == "__main__":
    sys.exit(main())
