"""Python simulator: deterministic simulation of the Python layer (see DESIGN.md).

  batch SCENARIO FIRST COUNT TIER STRIDE DUP SECS | plan SCENARIO SEED TIER | run FILE
"""
import gc
import importlib
import json
import os
import re
import sys
import time
import traceback

import fw

SCENARIOS = {}


def load():
    """Everything is imported once; simulated processes are forked from this state."""
    import numpy  # noqa
    import sympy  # noqa
    import wrenfold  # noqa
    import work  # noqa

    for n in ("c01", "c02", "c03", "c06", "c07", "c08", "c10", "c11", "c12", "c13"):
        if os.path.exists(os.path.join(fw.HERE, "s_%s.py" % n)):
            SCENARIOS[n.upper()] = importlib.import_module("s_" + n)
    for l in open("/proc/self/maps"):
        m = re.match(r"([0-9a-f]+)-([0-9a-f]+) r-xp .*python3", l)
        if m:
            fw.exe_range(int(m.group(1), 16), int(m.group(2), 16))
            break
    if fw.heap_init() != 0:
        raise SystemExit("the arena cannot be mapped")
    gc.collect()
    gc.freeze()


def one(make, scenario):
    """Runs one plan in a supervisor process of its own; returns its result."""

    def sup():
        plan = make()
        mod = SCENARIOS[plan.scenario]
        r = fw.run_plan(mod, plan)
        if r["status"] != 1:
            r["plan"] = plan.text()
        return r

    mod = SCENARIOS[scenario]
    for h in getattr(mod, "HASHSEEDS", []):
        if h not in fw.HELPERS:
            fw.start_helper(h, scenario)
    r = fw.fork_call(sup, limit=6 * fw.LIMIT_S)
    if r[0] != "value" or r[1]["status"] == 3:
        fw.stop_helpers()  # (their pipes may hold half a message)
    if r[0] == "value":
        return r[1]
    return dict(seed=-1, status=3, kind="wall-clock-limit" if r[0] == "timeout" else "harness", detail="supervisor ended with %s" % (r,), hash="", sched="", runs=0, sim_ns=0, c={}, pre=[])


def main():
    cmd = sys.argv[1]
    load()
    if cmd == "run":
        text = open(sys.argv[2]).read()
        r = one(lambda: fw.Plan.parse(text), fw.Plan.parse(text).scenario)
        r["plan"] = text
        print(json.dumps(r), flush=True)
        fw.stop_helpers()
    elif cmd == "serve":
        fw.serve(SCENARIOS[sys.argv[2]], int(sys.argv[3]))
    elif cmd == "plan":
        print(SCENARIOS[sys.argv[2]].make_plan(int(sys.argv[3]), int(sys.argv[4])).text(), end="")
    elif cmd == "batch":
        scen = SCENARIOS[sys.argv[2]]
        first, count, tier, stride, dup, secs = map(int, sys.argv[3:9])
        t = time.monotonic()
        for i in range(count):
            if time.monotonic() - t > secs:
                break
            seed = first + i * stride
            make = lambda: scen.make_plan(seed, tier)
            r = one(make, sys.argv[2])
            if dup and i % dup == 0 and r["status"] == 1:
                q = one(make, sys.argv[2])
                if q["status"] == 1 and q["hash"] != r["hash"]:
                    r.update(status=3, kind="nondeterministic", detail="two executions differ", plan=make().text())
                elif q["status"] != 1:
                    r = q
            r["seed"] = seed
            print(json.dumps(r), flush=True)
        fw.stop_helpers()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
