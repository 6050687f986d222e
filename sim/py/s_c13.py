"""C13, Python layer: user callbacks of library calls that raise or re-enter."""
import dataclasses
import random
import types

import fw
import s_c06
import work
import wrenfold as wf
from wrenfold import code_generation as cg
from wrenfold import custom_types, external_functions, geometry, sym, sympy_conversion

ERRORS = dict(s_c06.ERRORS)
ERRORS["key"] = lambda: KeyError("from a callback")
OPS = ["describe", "describe", "generate", "python", "unary_map", "unary_map", "cse", "cse", "cse_matrix", "dataclass", "fields", "opaque", "external", "matrix", "nested_matrix", "symbols", "quaternion", "to_sympy",
       "to_sympy", "from_sympy", "preamble"]


class Trap:
    """Counts invocations of user code; acts at the chosen one."""

    def __init__(self):
        self.reset()

    def reset(self, at=-1, act=None):
        self.n, self.at, self.act, self.after = 0, at, act, 0

    def __call__(self):
        self.n += 1
        if self.act is not None and self.n > self.at:
            self.after += 1
        if self.n == self.at and self.act is not None:
            return self.act()


class Calls:
    """An iterator made by the user."""

    def __init__(self, trap, items):
        self.trap, self.items, self.i = trap, items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i == len(self.items):
            raise StopIteration
        self.trap()
        self.i += 1
        return self.items[self.i - 1]


class Rows:
    def __init__(self, trap, rows):
        self.trap, self.rows = trap, rows

    def __iter__(self):
        self.trap()
        return Calls(self.trap, self.rows)


def module(trap, catch):
    """A stand-in for the sympy module: attributes and functions are user code."""
    import sympy

    def get(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if catch & 1:
            trap()
        o = getattr(sympy, name)
        if isinstance(o, type) and catch & 2:

            def construct(*a, **k):
                trap()
                return o(*a, **k)

            return construct
        return o

    m = types.ModuleType("lazy_sympy")
    m.__getattr__ = get
    return m


class World:
    def __init__(self):
        self.trap = t = Trap()
        self.ext = work.make_externals()
        self.funcs, self.inputs, self.gens = {}, {}, {}

        @dataclasses.dataclass
        class Checked:
            x: wf.FloatScalar
            v: wf.Vector2
            p: work.Point

            def __post_init__(self):
                t()

        @dataclasses.dataclass
        class Guarded:
            x: wf.FloatScalar
            c: Checked

            def __getattribute__(self, name):
                if name in ("x", "c"):
                    t()
                return object.__getattribute__(self, name)

        class Handle(wf.Opaque):
            def __init__(self, provenance=None):
                t()
                super().__init__(provenance=provenance)

        self.Checked, self.Guarded, self.Handle = Checked, Guarded, Handle
        self.probe = external_functions.declare_external_function("probe", [("c", Checked), ("s", wf.FloatScalar)], Checked)
        self.open = external_functions.declare_external_function("open_it", [("h", Handle), ("s", wf.FloatScalar)], Handle)
        self.wide = external_functions.declare_external_function("wide", [("g", Guarded)], Guarded)

    def func(self, s):
        """A symbolic function that calls user code between all of its statements."""
        if s not in self.funcs:
            spec = work.FunctionSpec(s)
            head, body = spec.source.split("\n", 1)
            src = head + "\n" + "".join("    trap()\n" + l + "\n" for l in body.rstrip("\n").split("\n"))
            ns = spec.namespace(self.ext)
            ns["trap"] = self.trap
            exec(compile(src, work.USER % spec.name, "exec"), ns)
            self.funcs[s] = ns[spec.name]
        return self.funcs[s]

    def input(self, op, s):
        """What an operation is applied to; it survives the operation."""
        if (op, s) not in self.inputs:
            r = random.Random("in%d" % s)
            e = work.wf_expression(s)
            if isinstance(e, sym.MatrixExpr):
                e = e[0, 0]
            if op in ("unary_map", "cse_matrix", "matrix", "nested_matrix"):
                x, y = sym.symbols("x, y")
                m = sym.matrix([[e, e * x + sym.cos(x * y)], [y + sym.cos(x * y), x ** (1 + s % 3)], [e * e, 4]])
                self.inputs[op, s] = m
            elif op == "from_sympy":
                self.inputs[op, s] = work.sympy_expression(s)
            elif op == "cse":
                self.inputs[op, s] = sym.sin(e) * e + sym.cos(e + 1) / (e + 1)
            else:
                self.inputs[op, s] = e
        return self.inputs[op, s]

    def perform(self, w):
        op, s, s2 = w[0], int(w[1]), int(w[2])
        trap = self.trap
        x, y, z = sym.make_symbols("x", "y", "z")
        if op == "describe":
            d = cg.create_function_description(self.func(s))
            return repr(d), [repr(a) for a in d.arguments], repr(wf.transpile(d))
        if op == "generate":
            if s2 not in self.gens:
                self.gens[s2] = work.GeneratorSpec(s2).make(lambda k, e, g: self.trap())
            return cg.generate_function(self.func(s), self.gens[s2])
        if op == "python":
            return cg.generate_python(self.func(s), context=work.num_context(2.0))[1]
        if op == "preamble":
            # (calls apply_preamble of a user's class)
            if ("p", s2) not in self.gens:

                class G(wf.RustGenerator if s2 % 2 else wf.CppGenerator):
                    def apply_preamble(self, *a, **k):
                        trap()
                        return super().apply_preamble(*a, **k)

                    def format_add(self, e):
                        trap()
                        return self.super_format(e)

                self.gens["p", s2] = G()
            g = self.gens["p", s2]
            return cg.generate_function(self.func(s), g), g.apply_preamble("code", "ns%d" % (s2 % 5)) if not s2 % 2 else g.apply_preamble("code")
        if op == "unary_map":
            m = self.input(op, s)

            def f(e):
                trap()
                if s2 % 3 == 0:
                    return e * 2 + s2
                if s2 % 3 == 1:
                    return sym.vector(e, x).unary_map(lambda q: (trap(), q.diff(x))[1])[0, 0]
                return s2  # converted

            return repr(m.unary_map(f))
        if op in ("cse", "cse_matrix"):
            m = self.input(op, s)

            def make(i):
                trap()
                return sym.symbol("tmp%d" % i)

            out, pairs = sym.eliminate_subexpressions(m, make, 1 + s2 % 3)
            return repr(out), [(repr(a), repr(b)) for a, b in pairs]
        if op == "dataclass":
            t = custom_types.convert_to_internal_type(self.Checked, {}, "test")
            o, rest = custom_types.map_expressions_into_custom_type([x, y, z, x * s, y * 2], t)
            return repr(o), rest
        if op == "fields":
            t = custom_types.convert_to_internal_type(self.Guarded, {}, "test")
            o = self.Guarded(x * s, self.Checked(y, sym.vector(z, x), work.Point(x, y)))
            return [repr(e) for e in custom_types.map_expressions_out_of_custom_type(o, t)]
        if op == "opaque":
            Handle, opened = self.Handle, self.open

            def f(h: Handle, q: wf.FloatScalar):
                trap()
                a = opened(h, q)
                opened(a, q * s)
                return [wf.ReturnValue(q + s2)]

            return repr(cg.create_function_description(f))
        if op == "external":
            o = self.probe(s=x + s, c=self.Checked(y, sym.vector(z, s2), work.Point(x, y)))
            g = self.wide(self.Guarded(x, o))
            return repr(o), repr(g)
        if op == "matrix":
            return repr(sym.matrix(Calls(trap, self.input(op, s).to_flat_list())))
        if op == "nested_matrix":
            return repr(sym.matrix(Rows(trap, [Rows(trap, r) for r in self.input(op, s).to_list()])))
        if op == "symbols":
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return repr(sym.symbols(Rows(trap, ["a", Rows(trap, ["b%d" % s, "c d"]), "e"])))
        if op == "quaternion":
            f = geometry.Quaternion.from_wxyz if s2 % 2 else geometry.Quaternion.from_xyzw
            return repr(f(Calls(trap, [x * s, y, z, sym.cos(x)])))
        if op == "to_sympy":
            import sympy

            return sympy.srepr(sympy_conversion.to_sympy(self.input(op, s), sp=module(trap, 1 + s2 % 3), evaluate=bool(s2 % 2)))
        if op == "from_sympy":
            a = sympy_conversion.from_sympy(self.input(op, s), sp=module(trap, 1))
            return repr(a)
        raise ValueError(op)


def make_plan(seed, tier):
    r = random.Random("c13-%d" % seed)
    p = fw.Plan("C13", seed)
    seeds = [r.randrange(100000) for _ in range(3)]
    kinds = r.sample(OPS, r.choice([1, 2, 4]))
    for _ in range(r.randint(2, 8 if tier == 0 else 16)):
        act = r.choice(["raise", "raise", "raise", "raise", "reenter", "other"])
        p.op(0, r.choice(kinds), r.choice(seeds), r.choice(seeds), r.randrange(1000000), act, r.choice(list(ERRORS)), int(r.random() < 0.12))
    return p


def n_refs(plan):
    return len(plan.ops)


def key(w):
    return tuple(w[:3])


def references(plan):
    out = {}
    for _, w in plan.ops:
        if key(w) not in out:

            def alone(w=w):
                world = World()
                world.trap.reset()
                o = fw.outcome(lambda: world.perform(w))
                return o, world.trap.n

            out[key(w)] = fw.reference(alone)
    return out


def execute(ctx):
    plan = ctx.plan
    world = World()
    trap = world.trap
    ops = [w for _, w in plan.ops]

    def check(w, when):
        trap.reset()
        got = fw.outcome(lambda: world.perform(w))
        ctx.same("wrong-result", "`%s` %s" % (" ".join(w), when), got, ctx.refs[key(w)][0])

    inputs = {}

    def inputs_same(when):
        for k, e in world.inputs.items():
            v = repr(e)
            if inputs.setdefault(k, v) != v:
                ctx.fail("input-changed", "%s %s: %s" % (k, when, fw.differ(v, inputs[k])))

    for w in ops:
        (want, n), r = ctx.refs[key(w)], random.Random("at%s" % w[3])
        ctx.count("ops")
        if n == 0:
            check(w, "without callbacks")
            continue
        at = 1 + r.randrange(n)
        if w[4] == "raise":
            err = ERRORS[w[5]]()
            if isinstance(err, (AttributeError, StopIteration)) and w[0] in ("to_sympy", "from_sympy", "matrix", "nested_matrix", "symbols", "quaternion"):
                err = LookupError("from a callback")  # (these have a meaning for the caller of user code)

            def act():
                raise err

            def attempt():
                trap.reset(at, act)
                try:
                    return ("ok", world.perform(w))
                except fw.Violation:
                    raise
                except BaseException as e:
                    if e is not err and not s_c06.from_generator(e, err):
                        return ("other", type(e).__name__, fw.clean(e))
                    return ("same",)
                finally:
                    # (a traceback grows each time the same error is raised)
                    err.__traceback__ = err.__context__ = None

            got = attempt()
            ctx.log(w[0], at, got[0])
            ctx.count("callbacks_thrown")
            ctx.count("thrown_" + w[0])
            if got[0] == "ok":
                ctx.fail("error-lost", "`%s`: invocation %d raised %r, the call returned" % (" ".join(w), at, err))
            if got[0] == "other":
                ctx.fail("error-changed", "`%s`: invocation %d raised %r, the caller got %s" % (" ".join(w), at, err, got))
            if trap.after:
                ctx.fail("called-again", "`%s`: user code was called %d more times after it raised" % (" ".join(w), trap.after))
            if int(w[6]):
                ctx.growth("`%s` failing at invocation %d" % (" ".join(w), at), lambda: attempt() and None)
            err.__traceback__ = err.__context__ = None
        else:
            v = w if w[4] == "reenter" else r.choice(ops)

            def act():
                trap.reset()
                inner.append(fw.outcome(lambda: world.perform(v)))
                trap.reset()

            inner = []
            trap.reset(at, act)
            got = fw.outcome(lambda: world.perform(w))
            ctx.count("reentrant_calls")
            ctx.same("wrong-result", "`%s` re-entered by `%s`" % (" ".join(w), " ".join(v)), got, want)
            if not inner:
                ctx.fail("not-called", "`%s`: invocation %d did not happen" % (" ".join(w), at))
            ctx.same("wrong-result", "`%s` called by user code of `%s`" % (" ".join(v), " ".join(w)), inner[0], ctx.refs[key(v)][0])
        inputs_same("after `%s`" % " ".join(w))
        check(w, "after a callback failed")
    for w in ops:
        check(w, "at the end")
