"""C07: several threads share one generator instance."""
import gc
import random

import fw
import s_c06
import work
import wrenfold as wf
from wrenfold import code_generation as cg

my_tid = fw._fn("sim_my_tid", fw.I)
build = s_c06.build
references = s_c06.references


class SharedHook:
    """One hook per generator; every thread has its own count and action."""

    def __init__(self, n):
        self.t = [s_c06.Hook() for _ in range(n)]

    def __call__(self, kind, element, gen):
        fw.sim_yield()
        i = my_tid()
        if i >= 0:
            return self.t[i](kind, element, gen)


def make_plan(seed, tier):
    r = random.Random("c07-%d" % seed)
    p = fw.Plan("C07", seed)
    n = p.s["threads"] = r.choice([2, 2, 2, 3, 4])
    p.s["functions"] = ",".join(str(r.randrange(100000)) for _ in range(r.randint(1, 3)))
    p.s["generators"] = ",".join(str(r.randrange(100000)) for _ in range(r.choice([1, 1, 1, 2])))
    p.s["p"] = r.choice([20, 60, 150, 400, 800])
    p.s["lines"] = int(r.random() < 0.4)
    p.s["shared_ast"] = int(r.random() < 0.6)
    if r.random() < 0.4:
        p.s["functions"] += ",%d" % (work.DEEP + r.randrange(100000))
        p.s["generators"] = str(work.DEEP + r.randrange(100000))
    fs, gs = p.s["functions"].split(","), p.s["generators"].split(",")
    for t in range(n):
        for _ in range(r.randint(1, 3 if tier == 0 else 6)):
            g, f, k = r.choice(gs), r.choice(fs), r.randrange(100000)
            c = r.random()
            if c < 0.5:
                p.op(t, "gen", g, f, k)
            elif c < 0.62:
                p.op(t, "raise", g, f, k, r.choice(list(s_c06.ERRORS)))
            elif c < 0.74:
                p.op(t, "reenter", g, f, k, r.choice(gs), r.choice(fs))
            elif c < 0.80:
                p.op(t, "loop", g, f, k)
            elif c < 0.93:
                p.op(t, "whole", g, f, k)
            else:
                p.op(t, "gc", g, f, k)
    return p


def in_user_code(frame):
    fn = frame.f_code.co_filename
    return fn.endswith("/work.py") or "/wrenfold/" in fn or fn.startswith("<user")


def execute(ctx):
    plan = ctx.plan
    n = plan.get("threads")
    asts = build(plan)
    hooks = {g: SharedHook(n) for g in plan.s["generators"].split(",")}
    gens = {g: s_c06.make_gen(int(g), h) for g, h in hooks.items()}
    usable = {(g, f) for (g, f) in ctx.refs if asts[f][0] == "ok"}
    exts = [work.make_externals() for _ in range(n)]

    def check(g, f, got, what):
        want = ctx.refs[g, f][0]
        if got != want:
            if got[0] == "error" and want[0] == "ok":
                ctx.fail("foreign-error", "%s: generator %s, function %s: %s: %s" % (what, g, f, got[1], got[2][:600]))
            ctx.fail("wrong-text", "%s: generator %s, function %s: %s" % (what, g, f, fw.differ(got, want)))

    own = [0] * n

    def body(t):
        own_asts = asts if plan.get("shared_ast") else build(plan)
        for ot, w in plan.ops:
            if ot != t:
                continue
            op, g, f, k = w[0], w[1], w[2], int(w[3])
            if (g, f) not in usable:
                continue
            h, gen, ast, m = hooks[g].t[t], gens[g], own_asts[f][1], ctx.refs[g, f][1]
            for x in hooks.values():
                x.t[t].reset()
            own[t] += 1
            if op == "gc":
                gc.collect()
                continue
            if op == "whole":
                # the other threads see only immutable inputs: everything else is made here
                def whole():
                    d = cg.create_function_description(work.FunctionSpec(int(f)).build(exts[t]))
                    return gen.generate(wf.transpile(d))

                check(g, f, fw.outcome(whole), "thread %d, describe, transpile and generate" % t)
                continue
            if op == "gen" or m == 0:
                check(g, f, fw.outcome(lambda: gen.generate(ast)), "thread %d, generate" % t)
                continue
            h.at = 1 + k % m
            if op == "raise":
                err = s_c06.ERRORS[w[4]]()

                def act(kind, e, s):
                    raise err

                h.act = act
                try:
                    gen.generate(ast)
                except BaseException as e:
                    if e is not err and not s_c06.from_generator(e, err):
                        ctx.fail("error-changed", "thread %d: a callback raised %r, the caller got %r" % (t, err, e))
                else:
                    ctx.fail("error-lost", "thread %d: a callback raised %r, generate() returned" % (t, err))
                ctx.count("callbacks_thrown")
            elif op == "reenter":
                g2, f2 = w[4], w[5]
                if (g2, f2) not in usable or min(int(f), int(f2)) >= work.DEEP:
                    continue  # (together they may exceed the depth at which recursion is reported)

                def act(kind, e, s):
                    check(g2, f2, fw.outcome(lambda: gens[g2].generate(own_asts[f2][1])), "thread %d, inner generation" % t)

                h.act = act
                ctx.count("reentrant_calls")
                check(g, f, fw.outcome(lambda: gen.generate(ast)), "thread %d, outer generation" % t)
            elif op == "loop":
                def act(kind, e, s):
                    h.at, h.act = h.n + 1, act
                    return s.format(e)

                h.act = act
                got = fw.outcome(lambda: gen.generate(ast))
                ctx.count("self_recursions")
                if got[0] == "ok":
                    check(g, f, got, "thread %d, repeated formatting" % t)
                elif got[1] not in ("RuntimeError", "RecursionError", "TypeError"):
                    ctx.fail("foreign-error", "thread %d: unbounded recursion gave %s" % (t, got[:2]))

    def guarded(t):
        return lambda: body(t)

    ctx.threads([guarded(t) for t in range(n)], plan.get("p") / 1000.0, trace=in_user_code if plan.get("lines") else None)
    ctx.count("ops", sum(own))
    for g, f in sorted(usable):
        for x in hooks.values():
            for y in x.t:
                y.reset()
        check(g, f, fw.outcome(lambda: gens[g].generate(asts[f][1])), "afterwards")
        ctx.log(g, f, ctx.refs[g, f][0])
