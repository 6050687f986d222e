"""C10: functions made by generate_python do not influence each other."""
import builtins
import random

import fw
import s_c06
import s_c07
import wfsim_import
import work
import wrenfold as wf
from wrenfold import code_generation as cg
from wrenfold import sym

TARGETS = ["np64", "np64", "np32", "np-out", "jax", "torch", "default"]
CONTEXTS = ["none", "empty", "a", "a", "b", "b", "c", "c", "nopoint", "clash", "np"]
FAILS = ["-", "-", "-", "-", "-", "user", "import", "import-late", "badcode", "ternary"]


class FakeNumpy:
    """A module given by the caller under the name of the target module."""

    def __getattr__(self, k):
        import numpy

        v = getattr(numpy, k)
        if k == "cos":
            return lambda x: v(x) + 100
        return v


def make_context(kind):
    if kind == "none":
        return None
    if kind == "empty":
        return {}
    c = work.num_context({"a": 1.0, "b": 2.5, "c": -3.0}.get(kind, 0.5))
    if kind == "nopoint":
        del c["Point"]
    if kind == "clash":
        # names that the library uses itself
        c.update(sym=1, FunctionDescription=2, transpile=3, dataclasses=None, generate_function=len, code="x", func=7, context=0)
    if kind == "np":
        c.update(np=FakeNumpy(), jnp=FakeNumpy(), th=FakeNumpy())
    return c


def make_generator(target, ov, hook=None):
    if target == "default":
        return None
    return work.GeneratorSpec(ov, base=target, overrides=2 if ov % 3 == 0 else 0).make(hook)


def user_function(f, ext, same_name, fail):
    fn = work.FunctionSpec(f).build(ext)
    inner = fn
    if fail == "user":
        src = work.FunctionSpec(f).source.replace("return [", "raise ZeroDivisionError('from the user function')\n    return [")
        ns = work.FunctionSpec(f).namespace(ext)
        exec(compile(src, work.USER % inner.__name__, "exec"), ns)
        fn = ns[inner.__name__]
    if same_name:
        fn.__name__ = "shared_name"
    return fn


BAD = ["raise ValueError('loaded code')", "1 / 0", "undefined_name", "x = = 1"]


def bad_generator(text, args):
    class BadGenerator(wf.PythonGenerator):
        def format_function_definition(self, e):
            return text + "\n"

    return BadGenerator(*args)


def perform(w, ext, gens, ctx_dict):
    """One call of generate_python; returns (outcome for comparison, the function)."""
    f, target, ov, how, same, imp, conv, fail = int(w[1]), w[2], int(w[3]), w[4], int(w[5]), int(w[6]), w[7], w[8]
    fn = user_function(f, ext, same, fail)
    gen = gens(target, ov)
    if fail == "badcode":
        gen = bad_generator(BAD[f % len(BAD)], work.base_args(target if target != "default" else "np64"))
    keep = []

    def call():
        kw = {}
        if conv != "-":
            kw["convert_ternaries"] = conv == "1"
        if fail == "ternary":
            kw["convert_ternaries"] = "neither"
        g, code = cg.generate_python(fn, generator=gen, context=ctx_dict, import_target_module=bool(imp), **kw)
        keep.append(g)
        return code

    o = fw.outcome(call)
    return o, (keep[0] if keep else None)


def evaluate(fn, f, how):
    if fn is None:
        return None
    spec = work.FunctionSpec(f)
    # arguments are made from a context of their own: only the loaded code uses the caller's
    nums = work.num_context(1.0)
    a = fw.outcome(lambda: work.describe_number(work.call_numeric(fn, spec.numeric_args(nums, 1))))
    b = fw.outcome(lambda: work.describe_number(work.call_numeric(fn, spec.numeric_args(nums, 2), flags=False)))
    return a, b


def make_plan(seed, tier):
    r = random.Random("c10-%d" % seed)
    p = fw.Plan("C10", seed)
    n = p.s["threads"] = r.choice([1, 1, 2, 2, 3])
    p.s["p"] = r.choice([20, 60, 200, 500])
    p.s["reuse_context"] = int(r.random() < 0.3)
    fs = [r.randrange(100000) for _ in range(r.randint(1, 3))]
    ovs = [r.randrange(1000) for _ in range(2)]
    for t in range(n):
        for _ in range(r.randint(1, 3 if n > 1 else 5) if tier == 0 else r.randint(2, 7)):
            target = r.choice(TARGETS)
            fail = r.choice(FAILS)
            if fail.startswith("import") and target not in ("jax", "torch"):
                target = r.choice(["jax", "torch"])
            p.op(t, "gen", r.choice(fs), target, r.choice(ovs), r.choice(CONTEXTS), int(r.random() < 0.35), int(r.random() < 0.75), r.choice(["-", "-", "0", "1"]), fail)
    return p


def n_refs(plan):
    return len(plan.ops)


def ref_key(w):
    return tuple(w[1:])


def references(plan):
    out = {}
    for _, w in plan.ops:
        k = ref_key(w)
        if k in out or w[8].startswith("import"):
            continue

        def alone(w=w):
            import os

            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            ext = work.make_externals()
            o, fn = perform(w, ext, make_generator, make_context(w[4]))
            return o, evaluate(fn, int(w[1]), w[4])

        out[k] = fw.reference(alone)
    return out


def snapshot(d):
    return {k: id(v) for k, v in d.items()}


def execute(ctx):
    import os

    plan = ctx.plan
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    n = plan.get("threads")
    wfsim_import.thread, wfsim_import.switch = s_c07.my_tid, fw.sim_yield
    made, shared = {}, {}

    def hook(kind, e, g):
        fw.sim_yield()

    for _, w in plan.ops:
        if (w[2], w[3]) not in shared and w[2] != "default":
            shared[w[2], w[3]] = make_generator(w[2], int(w[3]), hook)
    gens = lambda target, ov: shared.get((target, str(ov)))
    ext = work.make_externals()
    spaces = {"wrenfold.code_generation": vars(cg), "wrenfold": vars(wf), "wrenfold.sym": vars(sym), "builtins": vars(builtins)}
    before = {k: snapshot(v) for k, v in spaces.items()}
    contexts = {}  # per thread when reused
    results = []

    def check_eval(t, w, fn, when):
        got = evaluate(fn, int(w[1]), w[4])
        want = ctx.refs[ref_key(w)][1]
        if got != want:
            ctx.fail("wrong-function", "thread %d, `%s`, %s: %s" % (t, " ".join(w), when, fw.differ(got, want)))

    def body(t):
        for ot, w in plan.ops:
            if ot != t:
                continue
            fail = w[8]
            if plan.get("reuse_context"):
                c = contexts.setdefault(t, {})
                c.clear()
                new = make_context(w[4])
                c.update(new or {})
                c = c if new is not None else None
            else:
                c = make_context(w[4])
            snap = None if c is None else dict(c)
            armed = False
            if fail.startswith("import") and int(w[6]):
                point = {"jax": ["jax", "jax.numpy"], "torch": ["torch", "torch"]}[w[2]][fail == "import"]
                if fail == "import-late":
                    point = {"jax": "jax.numpy end", "torch": "torch end"}[w[2]]
                import sys

                if {"jax": "jax.numpy", "torch": "torch"}[w[2]] not in sys.modules:
                    wfsim_import.fail_next[t] = point
                    armed = True
            o, fn = perform(w, ext, gens, c)
            if c is not None and (list(c) != list(snap) or any(c[k] is not snap[k] for k in c)):
                ctx.fail("context-changed", "`%s`: the caller's context changed: now %s" % (" ".join(w), sorted(set(map(str, c)) ^ set(map(str, snap)))))
            if fail.startswith("import"):
                fired = armed and t not in wfsim_import.fail_next
                wfsim_import.fail_next.pop(t, None)
                ctx.count("import_failures", int(fired))
                if fired and o[0] == "ok":
                    ctx.fail("error-lost", "importing the target module failed, generate_python returned")
                if fired and o[1] != "ImportError" and not (o[1] == "TypeError" or o[0] == "error"):
                    ctx.fail("error-changed", "importing the target module failed, the caller got %s" % (o,))
                if not fired and o[0] == "ok":
                    results.append((t, w[:8] + ["-"], None))
                continue
            if o[0] == "error":
                ctx.count("failed_generations")
            want = ctx.refs[ref_key(w)][0]
            if o != want:
                ctx.fail("wrong-code", "thread %d, `%s`: %s" % (t, " ".join(w), fw.differ(o, want)))
            check_eval(t, w, fn, "just made")
            ctx.count("generations")
            results.append((t, w, fn))

    bodies = [lambda t=t: body(t) for t in range(n)]
    ctx.threads(bodies, plan.get("p") / 1000.0, trace=s_c07.in_user_code)
    ctx.count("ops", len(plan.ops))
    for t in contexts:
        contexts[t].clear()
        contexts[t].update(Point=None, scale=None, lookup=None)
    for t, w, fn in results:
        if w[8] != "-" or fn is not None:
            check_eval(t, w, fn, "after all others were made")
        ctx.log(*w)
    for k, v in spaces.items():
        now = snapshot(v)
        if now != before[k]:
            ctx.fail("namespace-changed", "the namespace of %s changed: %s" % (k, sorted(x for x in set(now) | set(before[k]) if now.get(x) != before[k].get(x))[:10]))
