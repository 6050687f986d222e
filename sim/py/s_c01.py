"""C01, Python layer: threads that share expressions, user types and external functions work at the same time."""
import random

import fw
import s_c03

# ("write" uses one directory per operation and belongs to C08)
OPS = [o for o in s_c03.OPS if o != "write"]


def make_plan(seed, tier):
    r = random.Random("c01-%d" % seed)
    p = fw.Plan("C01", seed)
    n = p.s["threads"] = r.choice([2, 2, 3, 4])
    p.s["p"] = r.choice([10, 30, 100, 300])
    p.s["lines"] = int(r.random() < 0.8)
    p.s["own"] = int(r.random() < 0.2)
    kinds = r.sample(OPS, r.choice([1, 2, 4, 8]))
    seeds = [r.randrange(100000) for _ in range(r.choice([1, 2, 4]))]
    for t in range(n):
        for _ in range(r.randint(1, 3 if tier == 0 else 6)):
            p.op(t, r.choice(kinds), r.choice(seeds), r.choice(seeds))
    return p


def references(plan):
    """Each operation in a process of its own kind: nothing else ever happened before the first of them."""
    return fw.reference(lambda: s_c03.outputs(plan))


def execute(ctx):
    plan = ctx.plan
    n = plan.get("threads")
    shared = s_c03.World()
    worlds = [s_c03.World() if plan.get("own") else shared for _ in range(n)]
    done = [0] * n

    def body(t):
        for ot, w in plan.ops:
            if ot != t:
                continue
            got = fw.outcome(lambda: worlds[t].perform(w))
            done[t] += 1
            ctx.same("wrong-result", "thread %d: `%s`" % (t, s_c03.key(w)), got, ctx.refs[s_c03.key(w)])

    ctx.threads([lambda t=t: body(t) for t in range(n)], plan.get("p") / 1000.0, trace=s_c03.in_user_code if plan.get("lines") else None)
    ctx.count("ops", sum(done))
    for k in sorted(ctx.refs):
        got = fw.outcome(lambda: shared.perform(k.split(" ")))
        ctx.same("wrong-result", "afterwards: `%s`" % k, got, ctx.refs[k])
        ctx.log(k, fw.clean(repr(got[:1])))
    ctx.check_heap()
