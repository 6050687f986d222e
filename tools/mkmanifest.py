"""Writes MANIFEST.json from sim/props.py and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import props
PURE = "A pure function of its input in one thread: no concurrency, time, I/O, fault or multi-party behaviour takes part, so a schedule- or fault-driven simulation has nothing to decide. (Reproducibility of the same code across layouts, histories and threads is decided by C01 and C03.)"
NA = {f"N{i:02d}": PURE for i in range(1, 19)}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        c = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=c["technique"], level=c["level"], level_note=c["note"]))
        NA.pop(i, None)
    elif i not in NA:
        NA[i] = "Belongs to this family; its simulation is not built yet."
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="No hook was added to /repo: the seams are the compiler's -fsanitize=thread instrumentation bound to our own runtime, linker --wrap of libc, "
                    "the virtual interfaces of the code generators, Python's trace function and an LD_PRELOAD shim.", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Deterministic simulation with fault injection; see DESIGN.md. Replay a violation with: python3 check.py --replay FILE")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
