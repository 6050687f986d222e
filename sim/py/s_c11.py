"""C11: an asynchronous exception at any point of the Python layer."""
import gc
import os
import random
import sys

import fw
import s_c06
import s_c08
import work
import wrenfold as wf
from wrenfold import code_generation as cg
from wrenfold import custom_types, external_functions, geometry, sym, sympy_conversion, type_info


class Cancelled(BaseException):
    pass


class Timeout(Exception):
    pass


KINDS = {"interrupt": KeyboardInterrupt, "exit": SystemExit, "cancel": Cancelled, "timeout": Timeout}


def inner(fn):
    """Outcome of a part of an operation; injected exceptions pass through."""
    try:
        return ("ok", fn())
    except tuple(KINDS.values()):
        raise
    except Exception as e:
        return ("error", type(e).__name__, fw.clean(e))


OPS = ["function", "function", "python", "python", "override", "write", "from_sympy", "to_sympy", "declare", "call", "types", "describe", "geometry", "cse"]


class World:
    """The objects that survive an interrupt: generators, external functions, types, trees."""

    def __init__(self, plan, scratch):
        self.ext = work.make_externals()
        self.gens, self.funcs, self.scratch = {}, {}, scratch
        self.context = work.num_context(1.5)
        self.trees = {}
        self.exprs = {}

    def gen(self, s, overrides=None):
        if (s, overrides) not in self.gens:
            self.gens[s, overrides] = work.GeneratorSpec(s, overrides=overrides).make()
        return self.gens[s, overrides]

    def func(self, s):
        if s not in self.funcs:
            self.funcs[s] = work.FunctionSpec(s).build(self.ext)
        return self.funcs[s]

    def prepare(self, w):
        """Made outside of the part that is interrupted."""
        op, s = w[0], int(w[1])
        if op in ("function", "python", "override", "describe", "cse"):
            self.func(s)
        if op in ("function", "override"):
            self.gen(int(w[2]), None if op == "override" else 0)
        if op == "override" and s not in self.trees:
            self.trees[s] = fw.outcome(lambda: wf.transpile(cg.create_function_description(self.func(s))))
        if op in ("from_sympy", "to_sympy") and (op, s) not in self.exprs:
            self.exprs[op, s] = fw.outcome(lambda: work.sympy_expression(s) if op == "from_sympy" else work.wf_expression(s))

    def perform(self, w):
        op, s, s2 = w[0], int(w[1]), int(w[2])
        r = random.Random("op%d" % s)
        if op == "function":
            return cg.generate_function(self.func(s), self.gen(s2, 0), name=r.choice([None, "renamed"]), convert_ternaries=bool(s2 % 2))
        if op == "python":
            f, code = cg.generate_python(self.func(s), context=self.context)
            return code, inner(lambda: work.describe_number(work.call_numeric(f, work.FunctionSpec(s).numeric_args(work.num_context(1.5), 1))))
        if op == "override":
            t = self.trees[s]
            return self.gen(s2).generate(t[1]) if t[0] == "ok" else t
        if op == "write":
            p = os.path.join(self.scratch, "d%d" % (s % 3), "e%d" % (s % 5), "f%d" % (s % 7))
            text = s_c08.content(s)
            cg.mkdir_and_write_file(text, p)
            with open(p, "rb") as f:
                return f.read() == text.encode()
        if op == "from_sympy":
            e = self.exprs[op, s]
            if e[0] != "ok":
                return e
            x = sympy_conversion.from_sympy(e[1])
            return repr(x), x.expression_tree_str()
        if op == "to_sympy":
            import sympy

            e = self.exprs[op, s]
            if e[0] != "ok":
                return e
            return sympy.srepr(sympy_conversion.to_sympy(e[1], evaluate=bool(s2 % 2)))
        if op == "declare":
            kinds = [wf.FloatScalar, wf.IntScalar, wf.Vector2, wf.Matrix2x3, work.Point, work.Patch, work.Pose, work.Table]
            args = [("p%d" % i, r.choice(kinds)) for i in range(r.randint(1, 4))]
            f = external_functions.declare_external_function("ext%d" % (s % 10), args, r.choice(kinds[:6]))
            return repr(f), [(a.name, repr(a.type)) for a in f.arguments]
        if op == "call":
            x, y = sym.symbols("x, y")
            k = s % 4
            if k == 0:
                return repr(self.ext["scale"](y=x + s2, x=y * 2))
            if k == 1:
                p = self.ext["mid"](a=work.Point(x * s2, y), s=x)
                return repr(p.x) + repr(p.y)
            if k == 2:
                return repr(self.ext["turn"](sym.vector(x, y + s2)))
            return inner(lambda: self.ext["scale"](x, z=3))
        if op == "types":
            cache = {}
            t = custom_types.convert_to_internal_type(r.choice([work.Point, work.Patch, work.Pose]), cache, "test")
            es = [sym.symbol("e%d" % i) for i in range(t.total_size)]
            obj, rest = custom_types.map_expressions_into_custom_type(es, t)
            back = custom_types.map_expressions_out_of_custom_type(obj, t)
            return fw.clean(repr(t)), [fw.clean(repr(f)) for f in t.fields], fw.clean(repr(obj)), repr(back), len(rest), sorted(k.__name__ for k in cache)
        if op == "describe":
            d = cg.create_function_description(self.func(s))
            return repr(d), [repr(a) for a in d.arguments], repr(wf.transpile(d))
        if op == "cse":
            d = cg.create_function_description(self.func(s))
            m, v = cg.cse_function_description(d)
            return repr(sorted((repr(k), repr(x)) for k, x in m.items())) + repr(v)
        if op == "geometry":
            v = [sym.symbol(n) for n in ("w", "x", "y", "z")]
            q = geometry.Quaternion(*v)
            return repr(q.to_rotation_matrix()) + repr((q * q.conjugate()).to_vector4() if hasattr(q, "to_vector4") else q)
        raise ValueError(op)


HERE = os.path.dirname(os.path.abspath(__file__))


class Tracer:
    """Counts points of the Python layer; raises at the chosen one."""

    def __init__(self, fine, inside_sympy):
        self.n, self.at, self.err, self.fired = 0, -1, None, None
        self.fine, self.sympy = fine, inside_sympy

    def point(self, frame, event):
        self.n += 1
        if self.n == self.at:
            self.fired = "%s:%d %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, event)
            raise self.err

    def local(self, frame, event, arg):
        if event == "opcode" if self.fine else event == "line":
            self.point(frame, event)
        return self.local

    def enter(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "/wrenfold/" in fn and fn.endswith(".py") or fn.startswith("<user") or fn == "<string>":
            self.point(frame, event)
            if self.fine:
                frame.f_trace_opcodes = True
            return self.local
        if fn.endswith("/work.py"):
            if frame.f_code.co_name == "impl" or frame.f_code.co_name == "__init__" or frame.f_code.co_name.startswith("format_"):
                self.point(frame, event)
                return self.local
            return None
        if self.sympy and "/sympy/" in fn:
            b = frame.f_back
            # entries from the conversion, not sympy calling itself
            if b is None or "/sympy/" not in b.f_code.co_filename:
                self.point(frame, event)
        return None

    def run(self, fn):
        sys.settrace(self.enter)
        try:
            return fn()
        finally:
            sys.settrace(None)


def n_refs(plan):
    return len(plan.ops)


def key(w):
    return tuple(w[:3])


def quiet():
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)


def references(plan):
    out = {}
    for _, w in plan.ops:
        if key(w) in out:
            continue

        def alone(w=w):
            quiet()
            d = os.path.join(os.getcwd(), "ref%d" % os.getpid())
            os.mkdir(d)
            world = World(plan, d)
            world.prepare(w)
            t = Tracer(plan.get("fine"), plan.get("sympy"))
            o = t.run(lambda: fw.outcome(lambda: world.perform(w)))
            import shutil

            shutil.rmtree(d)
            return o, t.n

        out[key(w)] = fw.reference(alone)
    return out


def make_plan(seed, tier):
    r = random.Random("c11-%d" % seed)
    p = fw.Plan("C11", seed)
    p.s["fine"] = int(r.random() < 0.7)
    p.s["sympy"] = int(r.random() < 0.6)
    seeds = [r.randrange(100000) for _ in range(3)]
    for _ in range(r.randint(2, 6 if tier == 0 else 12)):
        op = r.choice(OPS)
        p.op(0, op, r.choice(seeds), r.choice(seeds), r.randrange(1000000), r.choice(list(KINDS)), r.choice([1, 1, 2, 3, 5]), int(r.random() < 0.1))
    return p


def execute(ctx):
    plan = ctx.plan
    quiet()
    os.chdir(ctx.scratch)
    fw.file_start(ctx.scratch.encode(), 0)
    world = World(plan, ctx.scratch)
    ops = [w for _, w in plan.ops]

    def check(w, when):
        got = fw.outcome(lambda: world.perform(w))
        ctx.same("wrong-result", "`%s` %s" % (" ".join(w), when), got, ctx.refs[key(w)][0])

    for w in ops:
        world.prepare(w)
    for w in ops:
        want, n = ctx.refs[key(w)]
        r = random.Random("at%s" % w[3])
        ctx.count("ops")

        def interrupted(at, kind):
            t = Tracer(plan.get("fine"), plan.get("sympy"))
            t.at, t.err = at, KINDS[kind]("simulated")
            e = t.err
            try:
                got = t.run(lambda: ("ok", world.perform(w)))
            except KINDS[kind] as x:
                if x is not e:
                    raise
                got = ("interrupted",)
            except Exception as x:
                got = ("error", type(x).__name__, fw.clean(x))
            e.__traceback__ = e.__context__ = None
            t.err = None
            return t.fired, got

        for _ in range(int(w[5])):
            at = 1 + r.randrange(max(n, 1))
            kind = w[4]
            fired, got = interrupted(at, kind)
            ctx.log(w[0], fired, got)
            if fired is None:
                if got != want:
                    ctx.fail("wrong-result", "`%s`: %s" % (" ".join(w), fw.differ(got, want)))
                ctx.count("not_reached")
                continue
            ctx.count("interrupts")
            ctx.count("interrupts_" + w[0])
            if got[0] != "interrupted":
                ctx.fail("interrupt-lost", "`%s`: %s raised at %s did not reach the caller, who got %s" % (" ".join(w), kind, fired, fw.short(got)))
            if r.random() < 0.5:
                check(w, "after an interrupt at %s" % fired)
        if int(w[6]) and n:
            at = 1 + r.randrange(n)
            ctx.growth("`%s` interrupted at point %d" % (" ".join(w), at), lambda: interrupted(at, w[4]))
    gc.collect()
    if fw.file_stat(4) != 0:
        ctx.fail("descriptor-leak", "%d files are still open after interrupts" % fw.file_stat(4))
    for w in ops:
        check(w, "after all interrupts")
    fw.file_stop()
