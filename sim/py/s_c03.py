"""C03, Python layer: outputs do not depend on hash seeds, addresses, history, threads or the environment."""
import dataclasses
import gc
import os
import random
import sys

import fw
import s_c12
import s_c13
import work
import wrenfold as wf
from wrenfold import code_generation as cg
from wrenfold import custom_types, external_functions, sym, sympy_conversion

HASHSEEDS = [1, 77]  # of the helper processes; this process has 0
OPS = ["describe", "terms", "terms", "generate", "generate", "generate", "own", "python", "cse", "expr", "expr", "from_sympy", "to_sympy", "types", "call", "matrix", "tree", "kept", "number", "error", "write"]


class World:
    def __init__(self):
        # user types of its own: where they are depends on the heap of this process
        self.ext = work.make_externals(work.make_types())
        self.c13 = s_c13.World()

    def perform(self, w):
        op, s, s2 = w[0], int(w[1]), int(w[2])
        r = random.Random("c03op%d" % s)
        if op == "describe":
            d = cg.create_function_description(s_c12.user_function(s, self.ext))
            t = wf.transpile(d, convert_ternaries=bool(s2 % 2))
            return repr(d), s_c12.value(d.arguments), [(repr(k), repr(v)) for k, v in d.output_expressions().items()], s_c12.value(t)
        if op == "generate":
            return cg.generate_function(s_c12.user_function(s, self.ext), work.GeneratorSpec(s2, overrides=0).make(), name="renamed" if s % 3 == 0 else None)
        if op == "own":
            return cg.generate_function(work.FunctionSpec(s).build(self.ext), work.GeneratorSpec(s2).make())
        if op == "python":
            f, code = cg.generate_python(work.FunctionSpec(s).build(self.ext), context=work.num_context(1.5))
            return code, fw.outcome(lambda: work.describe_number(work.call_numeric(f, work.FunctionSpec(s).numeric_args(work.num_context(1.5), 1))))
        if op == "cse":
            m, v = cg.cse_function_description(cg.create_function_description(work.FunctionSpec(s).build(self.ext)))
            return [(repr(k), repr(x)) for k, x in m.items()], repr(v)
        if op == "expr":
            e = work.wf_expression(s)
            out = [repr(e), e.expression_tree_str(), repr(e.diff(sym.symbol("x"))), repr(e.distribute()), repr(e.subs(sym.symbol("x"), sym.symbol("y") * s2)), hash(e)]
            if isinstance(e, sym.Expr):
                out += [repr(e.collect([sym.symbol("x"), sym.symbol("y")])), repr(e.args), repr(sym.eliminate_subexpressions(e, None)), repr(e.subs({sym.symbol("x"): 2, sym.symbol("y"): 3, sym.symbol("z"): 5}) if s2 % 2 else e.subs([(sym.symbol("x"), 2), (sym.symbol("z"), e)]))]
            return out
        if op == "terms":
            # sums and products of values of several user types
            x, y, z = sym.symbols("x, y, z")
            inner = dataclasses.make_dataclass("T0", [("v", wf.Vector2), ("w", wf.FloatScalar)])
            ts = [inner] + [dataclasses.make_dataclass("T%d" % i, [("a", wf.FloatScalar), ("b", inner if (s >> i) & 1 else wf.FloatScalar)]) for i in range(1, 5)]
            fs = [external_functions.declare_external_function("f%d" % i, [("x", wf.FloatScalar)] + [("t", ts[i - 1])] * (i > 2), t) for i, t in enumerate(ts)]
            last, out = None, sym.cos(x)
            for i, f in enumerate(fs):
                last = f(x * y, last) if i > 2 else f(x * y)
                a = last.w if i == 0 else last.a
                b = last.v[1] if i == 0 else last.b.w if (s >> i) & 1 else last.b
                out = (out * (a + a * b * z)) if (s2 >> i) & 1 else (out + a * b * sym.sin(a))
            e = out * out + out
            return repr(e), e.expression_tree_str(), repr(e.diff(z)), repr(sym.eliminate_subexpressions(e, None)), repr(sym.eliminate_subexpressions(sym.vector(e, e.diff(x), out), None)), repr(e.distribute()), hash(e)
        if op == "matrix":
            e = [work.wf_expression(s + i) for i in range(4)]
            e = [x[0, 0] if isinstance(x, sym.MatrixExpr) else x for x in e]
            m = sym.matrix([e[:2], e[2:]])
            x, y, z = sym.make_symbols("x", "y", "z")
            return repr(m * m.T), repr(m.det()), repr(sym.jacobian(e, [x, y, z])), hash(m), repr(sym.eliminate_subexpressions(m, lambda i: sym.symbol("q%d" % i)))
        if op == "from_sympy":
            e = sympy_conversion.from_sympy(work.sympy_expression(s))
            return repr(e), e.expression_tree_str()
        if op == "to_sympy":
            import sympy

            return sympy.srepr(sympy_conversion.to_sympy(work.wf_expression(s), evaluate=bool(s2 % 2)))
        if op == "types":
            cache = {}
            ts = [custom_types.convert_to_internal_type(t, cache, "test") for t in s_c12.fresh_types(r)[:2] + (self.ext.types["Pose"], self.ext.types["Table"])]
            o = custom_types.map_expressions_into_custom_type([sym.symbol("e%d" % i) for i in range(ts[1].total_size)], ts[1])[0]
            return s_c12.value(ts), [k.__name__ for k in cache], fw.clean(repr(o)), [repr(e) for e in custom_types.map_expressions_out_of_custom_type(o, ts[1])]
        if op == "call":
            x, y = sym.symbols("x, y")
            a = repr(self.ext["scale"](y=x + s2, x=y * s))
            p = self.ext["mid"](a=self.ext.types["Point"](x * s2, y), s=x)
            return a, repr(p.x), repr(self.ext["turn"](sym.vector(x, y + s))), [s_c12.value(e) for e in self.ext.values()]
        if op == "tree":
            return s_c12.value(s_c12.make_root("ast", s, self.ext))
        if op == "kept":
            return [(k, s_c12.value(e)) for k, e in s_c12.make_root("kept", s, self.ext)]
        if op == "number":
            e = work.wf_expression(s)
            if isinstance(e, sym.MatrixExpr):
                e = e[0, 0]
            v = e.subs(sym.symbol("x"), sym.rational(s2 % 7, 3)).subs(sym.symbol("y"), sym.rational(s % 5, 7)).subs(sym.symbol("z"), 2).eval()
            return v.hex() if isinstance(v, float) else repr(v)
        if op == "error":
            # messages are output, too
            x, y = sym.symbols("x, y")
            return [fw.outcome(f) for f in (
                lambda: self.ext["scale"](x, z=3), lambda: self.ext["mid"](x, y), lambda: self.ext["scale"](x),
                lambda: sym.matrix([[x, y], [x]]), lambda: cg.create_function_description(lambda q: q),
                lambda: wf.generate_function(work.FunctionSpec(s).build(self.ext), wf.BaseGenerator()),
                lambda: custom_types.convert_to_internal_type(sym.Expr, {}, "test"), lambda: sym.vector(x, y) * sym.vector(x, y))]
        if op == "write":
            # file names and contents
            d = os.path.join(os.getcwd(), "w%d" % s)
            text = cg.generate_function(work.FunctionSpec(s).build(self.ext), work.GeneratorSpec(s2, overrides=0).make())
            cg.mkdir_and_write_file(text, os.path.join(d, "a", "b.txt"))
            found = sorted((os.path.relpath(p, d), tuple(sorted(f))) for p, _, f in os.walk(d))
            with open(os.path.join(d, "a", "b.txt"), "rb") as f:
                data = f.read()
            import shutil

            shutil.rmtree(d)
            return found, data
        raise ValueError(op)


def in_user_code(frame):
    fn = frame.f_code.co_filename
    return "/wrenfold/" in fn or fn.endswith("/work.py") or fn.endswith("/s_c03.py") or fn.startswith("<user")


def key(w):
    return " ".join(w[:3])


def outputs(plan, order=None):
    """All outputs of a plan in this process; `order` is a seeded order."""
    world = World()
    ops = [w for _, w in plan.ops]
    if order is not None:
        random.Random("order%s" % order).shuffle(ops)
    out = {}
    for w in ops:
        out[key(w)] = fw.outcome(lambda: world.perform(w))
    return out


def make_plan(seed, tier):
    r = random.Random("c03-%d" % seed)
    p = fw.Plan("C03", seed)
    p.s["threads"] = r.choice([0, 0, 0, 2])
    p.s["p"] = r.choice([30, 150])
    p.s["history"] = ",".join("%s:%d" % (r.choice(OPS), r.randrange(100000)) for _ in range(r.choice([0, 1, 3, 6]))) or "-"
    p.s["gc"] = r.choice([0, 1, 700])
    p.s["interrupts"] = r.choice([0, 0, 2])
    seeds = [r.randrange(100000) for _ in range(3)]
    for _ in range(r.randint(2, 5 if tier == 0 else 10)):
        p.op(0, r.choice(OPS), r.choice(seeds), r.choice(seeds))
    return p


def n_refs(plan):
    return 1 + len(HASHSEEDS)


def serve(plan, hashseed):
    """In a helper process with another hash seed, forked from its pristine state."""
    h = random.Random("serve%d-%d" % (plan.seed, hashseed))
    fw.heap_start(h.getrandbits(62), h.choice([0, 40, 120]), h.choice([0, 0xAB, 0xFF]))
    os.environ["WREN_%d" % h.randrange(10)] = "x" * h.randrange(100)
    return outputs(plan, order=hashseed)


def references(plan):
    out = {0: fw.reference(lambda: outputs(plan))}
    for s in HASHSEEDS:
        out[s] = fw.helper(s, plan)
    return out


def execute(ctx):
    plan = ctx.plan
    os.chdir(ctx.scratch)
    want = ctx.refs[0]

    def compare(got, what):
        for k in want:
            ctx.same("output-differs", "%s: `%s`" % (what, k), got[k], want[k])

    for s in HASHSEEDS:
        compare(ctx.refs[s], "in a process with hash seed %d instead of 0" % s)
    ctx.count("hash_seeds", len(HASHSEEDS))
    # this process has a past
    r = random.Random("past%d" % plan.seed)
    if plan.get("gc"):
        gc.set_threshold(plan.get("gc"))
    keep = []
    world = World()
    for h in plan.s["history"].split(","):
        if h == "-":
            continue
        op, s = h.split(":")
        o = fw.outcome(lambda: world.perform([op, s, str(r.randrange(100000))]))
        ctx.count("history")
        if r.random() < 0.5:
            keep.append(o)
    for i in range(plan.get("interrupts")):
        # work that was given up half way
        t = world.c13.trap
        w = [r.choice(["describe", "cse", "unary_map", "generate"]), str(r.randrange(1000)), "7"]

        def act():
            raise KeyboardInterrupt

        t.reset(1 + r.randrange(8), act)
        fw.outcome(lambda: world.c13.perform(w))
        t.reset()
        ctx.count("given_up")
    junk = [[0] * r.randrange(50) for _ in range(r.randrange(2000))]
    del junk[:: r.choice([2, 3])]
    n = plan.get("threads")
    if n:
        got = {}

        def main():
            got.update(outputs(plan, order="t%d" % plan.seed))

        def other():
            w = World()
            for i in range(4):
                fw.outcome(lambda: w.perform([OPS[(plan.seed + i) % (len(OPS) - 1)], str(plan.seed % 997 + i), "5"]))

        ctx.threads([main, other], plan.get("p") / 1000.0, trace=in_user_code)
        compare(got, "beside other threads")
    else:
        compare(outputs(plan, order="m%d" % plan.seed), "after other work")
        if plan.seed % 4 == 0:
            compare(outputs(plan), "repeated in the same process")
    ctx.count("ops", len(plan.ops))
