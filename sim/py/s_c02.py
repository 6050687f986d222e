"""C02, Python layer: threads create unique symbols; no two of them are ever the same."""
import gc
import random

import fw
import s_c03
from wrenfold import sym

FLAGS = [{}, {}, {"real": True}, {"positive": True}, {"nonnegative": True}, {"complex": True}]


def make_plan(seed, tier):
    r = random.Random("c02-%d" % seed)
    p = fw.Plan("C02", seed)
    n = p.s["threads"] = r.choice([1, 2, 2, 3, 4])
    p.s["p"] = r.choice([10, 50, 200, 500])
    p.s["lines"] = int(r.random() < 0.8)
    for t in range(n):
        for _ in range(r.randint(2, 8 if tier == 0 else 16)):
            c = r.random()
            if c < 0.55:
                p.op(t, "make", r.choice([1, 1, 1, 2, 3, 5, 8, 20]), r.randrange(len(FLAGS)))
            elif c < 0.65:
                p.op(t, "drop", r.randrange(1000), r.choice([1, 1, 100]))
            elif c < 0.72:
                p.op(t, "many", r.choice([10, 100, 400, 3000]), r.randrange(len(FLAGS)))
            elif c < 0.80:
                p.op(t, "gc")
            elif c < 0.90:
                p.op(t, "diff", r.randrange(100000))
            elif c < 0.95:
                p.op(t, "bad")
            else:
                p.op(t, "swap", r.randrange(1000))
    return p


def references(plan):
    return None


def execute(ctx):
    plan = ctx.plan
    n = plan.get("threads")
    held = [[] for _ in range(n)]  # (symbol, flags)
    names = [[] for _ in range(n)]  # of all that were ever created
    swapped = []

    def made(t, r, count, flags):
        got = list(r) if count > 1 else [r]
        if len(got) != count or not all(isinstance(x, sym.Expr) for x in got):
            ctx.fail("wrong-symbols", "unique_symbols(%d) returned %s" % (count, fw.short(repr(r))))
        names[t] += [repr(x) for x in got]
        ctx.count("unique_symbols", count)
        return [(x, flags) for x in got]

    def body(t):
        for ot, w in plan.ops:
            if ot != t:
                continue
            fw.sim_yield()
            ctx.count("ops")
            if w[0] in ("make", "many"):
                k, flags = int(w[1]), FLAGS[int(w[2])]
                new = made(t, sym.unique_symbols(k, **flags), k, flags)
                if w[0] == "make":
                    held[t] += new
                else:
                    held[t] += new[:: max(1, k // 5)]
            elif w[0] == "drop":
                for _ in range(int(w[2])):
                    if held[t]:
                        held[t].pop(int(w[1]) % len(held[t]))
            elif w[0] == "gc":
                gc.collect()
            elif w[0] == "swap" and held[t]:
                swapped.append(held[t].pop(int(w[1]) % len(held[t])))
            elif w[0] == "bad":
                if fw.outcome(lambda: sym.unique_symbols(0))[0] != "error":
                    ctx.fail("wrong-symbols", "unique_symbols(0) is accepted")
            elif w[0] == "diff":
                # derivatives of symbolic functions of expressions make unique symbols of their own
                x, y = sym.symbols("x, y")
                s = sym.unique_symbols(1)
                names[t].append(repr(s))
                ctx.count("unique_symbols")
                f = sym.Function("f")
                e = f(x * s, y + s).diff(s)
                if e.is_identical_to(f(x * y, y + y).diff(y)):
                    ctx.fail("merged", "the derivative by a unique symbol equals that by another symbol")
                held[t].append((s, {}))

    ctx.threads([lambda t=t: body(t) for t in range(n)], plan.get("p") / 1000.0, trace=s_c03.in_user_code if plan.get("lines") else None)
    every = [x for h in held for x in h] + swapped
    # symbols that are still held, and new ones
    every += made(0, sym.unique_symbols(3), 3, {})
    symbols = [x for x, _ in every]
    for i, a in enumerate(symbols):
        for b in symbols[:i]:
            if a == b or not a != b or a.is_identical_to(b):
                ctx.fail("equal-symbols", "two unique symbols are equal: %r and %r" % (a, b))
        if not a.is_identical_to(a):
            ctx.fail("equal-symbols", "a unique symbol differs from itself: %r" % a)
    if len(set(symbols)) != len(symbols):
        ctx.fail("equal-symbols", "%d unique symbols make a set of %d" % (len(symbols), len(set(symbols))))
    printed = [x for h in names for x in h]
    if len(set(printed)) != len(printed):
        twice = sorted(x for x in set(printed) if printed.count(x) > 1)
        ctx.fail("equal-symbols", "%d symbols were printed alike: %s" % (len(printed) - len(set(printed)), twice[:5]))
    some = symbols[-50:]
    total = sym.integer(0)
    for s in some:
        total = total + s
    for i, s in enumerate(some):
        if repr(total.diff(s)) != "1":
            ctx.fail("merged", "a sum of %d unique symbols has the derivative %r by one of them" % (len(some), total.diff(s)))
    value = total.subs([(s, sym.integer(1 << i)) for i, s in enumerate(some)])
    if repr(value) != str((1 << len(some)) - 1):
        ctx.fail("merged", "a sum of %d unique symbols with values 1, 2, 4, ... is %r" % (len(some), value))
    kind = lambda e: e.expression_tree_str().strip().rsplit(", ", 1)[-1]
    for s, flags in every:
        if kind(s) != kind(sym.symbols("a", **flags)):
            ctx.fail("wrong-symbols", "a unique symbol with the properties %s is %s" % (flags, s.expression_tree_str()))
    ctx.log(len(symbols), len(printed))
    ctx.check_heap()
