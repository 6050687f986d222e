"""Workload: seeded symbolic functions, generators and formatting overrides for the Python simulator."""
import dataclasses
import inspect
import random

import numpy as np
import wrenfold as wf
from wrenfold import ast, external_functions, sym, type_info

USER = "<user %s>"  # file name of generated user code, seen by the tracer


# ------------------------------------------------------------------------------- user types ---
def make_types():
    """A fresh set of user types."""

    @dataclasses.dataclass
    class Point:
        x: wf.FloatScalar
        y: wf.FloatScalar

    @dataclasses.dataclass
    class Patch:
        v: wf.Vector2
        z: wf.FloatScalar

    @dataclasses.dataclass
    class Pose:
        """Nested custom type."""

        p: Point
        m: wf.Matrix2
        q: Patch

    class Table(wf.Opaque):
        """Opaque type, passed to external functions only."""

    out = {}
    for t in (Point, Patch, Pose, Table):
        t.__qualname__ = t.__name__
        out[t.__name__] = t
    return out


TYPES = make_types()
Point, Patch, Pose, Table = TYPES.values()


class Externals(dict):
    """External functions by name, and the user types they are declared with."""

    types = TYPES


def make_externals(types=TYPES):
    """External functions; declared anew in every simulated process."""
    d = external_functions.declare_external_function
    out = Externals(
        lookup=d("lookup", [("t", types["Table"]), ("x", wf.FloatScalar)], wf.FloatScalar),
        mid=d("mid", [("a", types["Point"]), ("s", wf.FloatScalar)], types["Point"]),
        turn=d("turn", [("v", wf.Vector2)], wf.Vector2),
        scale=d("scale", [("x", wf.FloatScalar), ("y", wf.FloatScalar)], wf.FloatScalar),
    )
    out.types = types
    return out


# Numeric counterparts, used when generated Python is executed.
def num_context(k=1.0):
    class NPoint:
        def __init__(self, x=0.0, y=0.0):
            self.x, self.y = x, y

    class NPatch:
        def __init__(self, v=None, z=0.0):
            self.v, self.z = v, z

    class NPose:
        def __init__(self, p=None, m=None, q=None):
            self.p, self.m, self.q = p, m, q

    return {
        "Point": NPoint,
        "Patch": NPatch,
        "Pose": NPose,
        "Table": float,
        "lookup": lambda t, x: t * 2.0 + x * k,
        "mid": lambda a, s: NPoint(a.x * s + k, a.y - s),
        "turn": lambda v: np.asarray(v).reshape(2, 1)[::-1] * k,
        "scale": lambda x, y: x * k + y,
    }


# -------------------------------------------------------------------------- random functions ---
ARG_KINDS = ["wf.FloatScalar"] * 6 + ["wf.IntScalar", "wf.Vector2", "wf.Vector3", "wf.Matrix2", "wf.Matrix2x3", "Point", "Patch", "Pose", "Table"]
UNARY = ["sym.sin({})", "sym.cos({})", "sym.exp({} / 10)", "sym.sqrt(sym.abs({}) + 1)", "sym.log(sym.abs({}) + 2)", "sym.atan({})", "sym.tanh({})", "sym.floor({})", "sym.sign({})",
         "sym.abs({})", "sym.pow({}, 2)", "sym.pow({}, 3)", "-({})", "({}) / 3", "({}) * 5", "sym.sinh({} / 7)", "sym.pow(sym.abs({}) + 1, sym.rational(2, 3))", "({}) * sym.pi", "sym.acosh(sym.abs({}) + 1)"]
BINARY = ["({}) + ({})", "({}) * ({})", "({}) - ({})", "({}) / (sym.abs({}) + 1)", "sym.atan2({}, {})", "sym.max({}, {})", "sym.min({}, {})", "({0}) * ({1}) + ({0}) * 2", "sym.pow(sym.abs({}) + 1, sym.cos({}))",
          "({0}) ** 2 * ({1}) + ({1}) ** 2"]
TERNARY = ["sym.where({} > {}, {}, 1)", "sym.where({0} < {1}, {2} + 1, {1} * {2})", "sym.where(sym.eq({0}, {1}), {2}, {0} * 3)", "sym.iverson({0} >= {1}) * ({2})", "sym.where({0} > 0, sym.where({1} > 1, {2}, {0} + 1), {1} * 4)"]


DEEP = 1000000  # seeds from here on make deeply nested functions, and generators that override conditionals


class FunctionSpec:
    """A seeded user function; `source` is executed in a namespace made by `namespace()`."""

    def __init__(self, seed, size=None, kinds=None, outputs=None):
        self.seed = seed
        r = random.Random("f%d" % seed)
        self.name = "func%d" % (seed % 997)
        self.args = []
        if seed >= DEEP:
            return self.deep(r)
        n_args = r.randint(1, 4)
        kinds = kinds or ARG_KINDS
        scal, mats, pts, tabs = [], [], [], []
        for i in range(n_args):
            k = r.choice(kinds)
            if i == 0 and k in ("Table",):
                k = "wf.FloatScalar"
            n = "a%d" % i
            self.args.append((n, k))
            if k in ("wf.FloatScalar", "wf.IntScalar"):
                scal.append(n)
            elif k == "wf.Vector2":
                mats.append((n, 2, 1))
            elif k == "wf.Vector3":
                mats.append((n, 3, 1))
            elif k == "wf.Matrix2":
                mats.append((n, 2, 2))
            elif k == "wf.Matrix2x3":
                mats.append((n, 2, 3))
            elif k == "Point":
                scal += [n + ".x", n + ".y"]
                pts.append(n)
            elif k == "Patch":
                scal.append(n + ".z")
                mats.append((n + ".v", 2, 1))
            elif k == "Pose":
                scal += [n + ".p.x", n + ".q.z"]
                mats += [(n + ".m", 2, 2), (n + ".q.v", 2, 1)]
                pts.append(n + ".p")
            elif k == "Table":
                tabs.append(n)
        lines = []
        for n, rr, cc in mats:
            scal.append("%s[%d, %d]" % (n, r.randrange(rr), r.randrange(cc)))
        if not scal:
            scal.append("sym.integer(3)")
        size = size or r.randint(2, 9)
        for i in range(size):
            t = "t%d" % i
            c = r.random()
            if c < 0.34:
                lines.append("%s = %s" % (t, r.choice(UNARY).format(r.choice(scal))))
            elif c < 0.66:
                lines.append("%s = %s" % (t, r.choice(BINARY).format(r.choice(scal), r.choice(scal))))
            elif c < 0.76:
                lines.append("%s = %s" % (t, r.choice(TERNARY).format(r.choice(scal), r.choice(scal), r.choice(scal))))
            elif c < 0.80 and tabs:
                lines.append("%s = ext['lookup'](%s, %s)" % (t, r.choice(tabs), r.choice(scal)))
            elif c < 0.84:
                lines.append("%s = ext['scale'](%s, %s)" % (t, r.choice(scal), r.choice(scal)))
            elif c < 0.88 and pts:
                lines.append("p%d = ext['mid'](%s, %s)" % (i, r.choice(pts), r.choice(scal)))
                pts.append("p%d" % i)
                lines.append("%s = p%d.x - p%d.y" % (t, i, i))
            elif c < 0.93 and mats:
                m, rr, cc = r.choice(mats)
                x = r.choice(scal)
                lines.append("m%d = %s * (%s) + sym.cos(%s) * %s" % (i, m, x, r.choice(scal), m))
                mats.append(("m%d" % i, rr, cc))
                lines.append("%s = (m%d.T * %s)[0, 0]" % (t, i, m))
            elif c < 0.96 and mats:
                v2 = [m for m in mats if m[1:] == (2, 1)]
                if v2:
                    lines.append("m%d = ext['turn'](%s)" % (i, r.choice(v2)[0]))
                    mats.append(("m%d" % i, 2, 1))
                    lines.append("%s = m%d[0, 0] + m%d[1, 0]" % (t, i, i))
                else:
                    lines.append("%s = %s.squared_norm()" % (t, r.choice(mats)[0]))
            else:
                s = r.choice(scal)
                lines.append("%s = sym.vector(%s, %s * 2).norm() + 1" % (t, s, r.choice(scal)))
            scal.append(t)
        # differentiate with respect to a plain scalar argument
        plain = [n for n, k in self.args if k == "wf.FloatScalar"]
        if plain and r.random() < 0.5:
            lines.append("d = (%s).diff(%s)" % (scal[-1], r.choice(plain)))
            scal.append("d")
        outs = []
        n_out = outputs if outputs is not None else r.randint(0, 3)
        if r.random() < 0.75 or n_out == 0:
            c = r.random()
            if c < 0.6:
                outs.append("wf.ReturnValue(%s)" % scal[-1])
            elif c < 0.75 and mats:
                outs.append("wf.ReturnValue(%s)" % mats[-1][0])
            elif c < 0.9:
                outs.append("wf.ReturnValue(Point(%s, %s))" % (r.choice(scal), scal[-1]))
            else:
                outs.append("wf.ReturnValue(sym.vector(%s, %s, 2))" % (r.choice(scal), scal[-1]))
        for i in range(n_out):
            opt = "True" if r.random() < 0.5 else "False"
            c = r.random()
            if c < 0.5:
                v = r.choice(scal)
                if v == "sym.integer(3)" and not lines:
                    v = scal[-1]
            elif c < 0.7:
                v = "sym.vector(%s, %s)" % (r.choice(scal), r.choice(scal))
            elif c < 0.8 and mats:
                v = r.choice(mats)[0] + " * 2"
            elif c < 0.9:
                v = "Point(%s, %s)" % (r.choice(scal), r.choice(scal))
            else:
                v = "Patch(sym.vector(%s, 1), %s)" % (r.choice(scal), r.choice(scal))
            outs.append("wf.OutputArg(%s, 'o%d', %s)" % (v, i, opt))
        r.shuffle(outs)
        body = "\n    ".join(lines + ["return [" + ", ".join(outs) + "]"])
        sig = ", ".join("%s: %s" % a for a in self.args)
        self.source = "def %s(%s):\n    %s\n" % (self.name, sig, body)

    def deep(self, r):
        """Deeply nested conditionals: syntax trees are as deep."""
        self.args = [("a0", "wf.FloatScalar"), ("a1", "wf.FloatScalar")]
        lines = ["t = a0 * a1"]
        for i in range(r.randint(9, 26)):
            v = r.choice(["t + %d" % i, "sym.cos(t)", "t * a1", "t"])
            lines.append("t = sym.where(a%d > %d, %s, a%d * %d)" % (r.randrange(2), i, v, r.randrange(2), i + 2))
        out = "wf.ReturnValue(t)" if r.random() < 0.5 else "wf.OutputArg(t, 'o0', True)"
        self.source = "def %s(a0: wf.FloatScalar, a1: wf.FloatScalar):\n    %s\n    return [%s]\n" % (self.name, "\n    ".join(lines), out)

    def namespace(self, ext):
        ns = {"wf": wf, "sym": sym, "ext": ext}
        ns.update(getattr(ext, "types", TYPES))
        return ns

    def build(self, ext):
        ns = self.namespace(ext)
        exec(compile(self.source, USER % self.name, "exec"), ns)
        return ns[self.name]

    def numeric_args(self, ctx, seed=0):
        """Arguments for a numeric call of the generated function."""
        r = random.Random("n%d-%d" % (self.seed, seed))
        f = lambda: r.randint(-8, 8) / 4.0 + 0.125
        out = []
        for _, k in self.args:
            if k == "wf.FloatScalar":
                out.append(f())
            elif k == "wf.IntScalar":
                out.append(r.randint(-3, 5))
            elif k == "wf.Vector2":
                out.append(np.array([f(), f()]))
            elif k == "wf.Vector3":
                out.append(np.array([f(), f(), f()]))
            elif k == "wf.Matrix2":
                out.append(np.array([[f(), f()], [f(), f()]]))
            elif k == "wf.Matrix2x3":
                out.append(np.array([[f(), f(), f()], [f(), f(), f()]]))
            elif k == "Point":
                out.append(ctx["Point"](f(), f()))
            elif k == "Patch":
                out.append(ctx["Patch"](np.array([[f()], [f()]]), f()))
            elif k == "Pose":
                out.append(ctx["Pose"](ctx["Point"](f(), f()), np.array([[f(), f()], [f(), f()]]), ctx["Patch"](np.array([[f()], [f()]]), f())))
            else:
                out.append(f())
        return out


def call_numeric(fn, args, flags=True):
    """Calls a generated function; flags of optional outputs are passed by name."""
    kw = {n: flags for n in inspect.signature(fn).parameters if n.startswith("compute_")}
    with np.errstate(all="ignore"):
        return fn(*args, **kw)


def describe_number(x):
    """A value returned by generated code, as comparable text."""
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(describe_number(i) for i in x) + ")"
    if isinstance(x, np.ndarray):
        return "array%s[%s]" % (x.shape, ",".join(float(v).hex() for v in x.reshape(-1)))
    if isinstance(x, (int, float, np.floating, np.integer, bool, np.bool_)):
        return float(x).hex()
    if hasattr(x, "__dict__"):
        return type(x).__name__ + "{" + ", ".join("%s=%s" % (k, describe_number(v)) for k, v in sorted(vars(x).items())) + "}"
    return repr(x)


# --------------------------------------------------------------------------------- generators ---
KINDS = ["add", "assign_temporary", "assign_output_matrix", "assign_output_scalar", "assign_output_struct", "boolean_literal", "branch", "call_external_function", "call_std_function", "cast", "comment",
         "compare", "construct_custom_type", "construct_matrix", "declaration", "divide", "float_literal", "get_argument", "get_field", "get_matrix_element", "integer_literal", "multiply", "negate",
         "optional_output_branch", "parenthetical", "special_constant", "return_object", "ternary", "variable_ref", "function_definition", "function_signature", "custom_type", "matrix_type", "scalar_type"]


class TextGenerator(wf.BaseGenerator):
    """A complete generator written on top of BaseGenerator (prints an unambiguous tree)."""

    def _all(self, xs):
        return " ".join(self.format(x) for x in xs)

    def format_add(self, e):
        return "(+ %s)" % self._all(e.args)

    def format_multiply(self, e):
        return "(* %s)" % self._all(e.args)

    def format_assign_temporary(self, e):
        return "(set %s %s)" % (e.left, self.format(e.right))

    def format_assign_output_matrix(self, e):
        return "(out %s %s)" % (e.arg.name, self.format(e.value))

    def format_assign_output_scalar(self, e):
        return "(out %s %s)" % (e.arg.name, self.format(e.value))

    def format_assign_output_struct(self, e):
        return "(out %s %s)" % (e.arg.name, self.format(e.value))

    def format_boolean_literal(self, e):
        return "true" if e.value else "false"

    def format_branch(self, e):
        return "(if %s {%s} {%s})" % (self.format(e.condition), self._all(e.if_branch), self._all(e.else_branch))

    def format_call_external_function(self, e):
        return "(call %s %s)" % (e.function.name, self._all(e.args))

    def format_call_std_function(self, e):
        return "(%s %s)" % (e.function.name, self._all(e.args))

    def format_cast(self, e):
        return "(cast %s %s)" % (e.destination_type.name, self.format(e.arg))

    def format_comment(self, e):
        return "".join("; %s\n" % l for l in e.split_lines())

    def format_compare(self, e):
        return "(%s %s %s)" % (e.operation.name, self.format(e.left), self.format(e.right))

    def format_construct_matrix(self, e):
        return "(matrix %s %s)" % (self.format(e.type), self._all(e.args))

    def format_construct_custom_type(self, e):
        return "(new %s %s)" % (self.format(e.type), " ".join("%s=%s" % (f.name, self.format(e.get_field_value(f.name))) for f in e.type.fields))

    def format_declaration(self, e):
        return "(let %s %s %s)" % (self.format(e.type), e.name, self.format(e.value) if e.value is not None else "_")

    def format_divide(self, e):
        return "(/ %s %s)" % (self.format(e.left), self.format(e.right))

    def format_float_literal(self, e):
        return repr(e.value)

    def format_get_argument(self, e):
        return "$" + e.argument.name

    def format_get_field(self, e):
        return "(. %s %s)" % (self.format(e.arg), e.field_name)

    def format_get_matrix_element(self, e):
        return "(at %s %d %d)" % (self.format(e.arg), e.row, e.col)

    def format_integer_literal(self, e):
        return str(e.value)

    def format_negate(self, e):
        return "(- %s)" % self.format(e.arg)

    def format_optional_output_branch(self, e):
        return "(opt %s {%s})" % (e.argument.name, self._all(e.statements))

    def format_parenthetical(self, e):
        return "(%s)" % self.format(e.contents)

    def format_special_constant(self, e):
        return e.value.name

    def format_return_object(self, e):
        return "(return %s)" % self.format(e.value)

    def format_ternary(self, e):
        return "(? %s %s %s)" % (self.format(e.condition), self.format(e.left), self.format(e.right))

    def format_variable_ref(self, e):
        return e.name

    def format_function_definition(self, e):
        return "%s\n%s\n" % (self.format(e.signature), "\n".join(self.format(x) for x in e.body))

    def format_function_signature(self, e):
        return "(def %s (%s) %s)" % (e.name, " ".join("%s:%s" % (a.name, self.format(a.type)) for a in e.arguments), self.format(e.return_type) if e.return_type is not None else "void")

    def format_custom_type(self, e):
        return "<%s>" % e.name

    def format_matrix_type(self, e):
        return "mat%dx%d" % (e.rows, e.cols)

    def format_scalar_type(self, e):
        return e.numeric_type.name


BASES = ["cpp-span", "cpp-eigen", "rust", "np64", "np32", "np-out", "jax", "torch", "text"]


def base_class(b):
    return {"cpp": wf.CppGenerator, "rus": wf.RustGenerator, "tex": TextGenerator}.get(b[:3], wf.PythonGenerator)


def base_args(b):
    P, W = wf.PythonGeneratorTarget, wf.PythonGeneratorFloatWidth
    return {
        "cpp-span": (),
        "cpp-eigen": (wf.CppMatrixTypeBehavior.Eigen,),
        "rust": (),
        "np64": (P.NumPy, W.Float64),
        "np32": (P.NumPy, W.Float32, 2),
        "np-out": (P.NumPy, W.Float64, 4, True),
        "jax": (P.JAX, W.Float32),
        "torch": (P.PyTorch, W.Float64),
        "text": (),
    }[b]


def children(e):
    """Child elements of a syntax tree node, in order."""
    out = []
    for a in ("args", "right", "value", "condition", "left", "arg", "contents", "if_branch", "else_branch", "statements"):
        v = getattr(e, a, None)
        if v is None or isinstance(v, (int, float, str, bool)):
            continue
        n = type(v).__name__
        if n == "AstSpan":
            out.extend(v)
        elif hasattr(ast, n):
            out.append(v)
    return out


def own_format(kind, gen, e):
    if kind == "matrix_type":
        return "M%dx%d" % (e.rows, e.cols)
    return "%s{%s}" % (gen.format(e.type), ", ".join(gen.format(x) for x in e.args))


class GeneratorSpec:
    """A seeded generator: a base and a set of overrides, each with a style."""

    def __init__(self, seed, base=None, overrides=None):
        r = random.Random("g%d" % seed)
        self.base = base or r.choice(BASES)
        n = r.randint(1, 7) if overrides is None else overrides
        self.overrides = {}
        for k in r.sample(KINDS, n):
            self.overrides[k] = r.choice(["super", "super", "mark", "children", "twice"])
        if seed >= DEEP:
            self.overrides["branch"] = r.choice(["super", "children", "super"])
        if self.base in ("cpp-span", "rust") and r.random() < 0.8:
            # these targets have no matrix type of their own
            self.overrides["matrix_type"] = self.overrides["construct_matrix"] = "own"

    def make(self, hook=None):
        """`hook(kind, element, generator)` is invoked at the start of every callback."""
        ns = {}
        base = base_class(self.base)
        is_text = self.base == "text"

        def method(kind, style):
            parent = getattr(base, "format_" + kind) if is_text else None

            def impl(self, element):
                if hook is not None:
                    hook(kind, element, self)
                if is_text:
                    orig = lambda: parent(self, element)
                elif kind == "function_definition":
                    orig = lambda: "{}\n{}\n".format(self.format(element.signature), "\n".join(self.format(x) for x in element.body))
                elif style == "own":
                    orig = lambda: own_format(kind, self, element)
                else:
                    orig = lambda: self.super_format(element)
                if style == "mark":
                    return "/*%s*/%s" % (kind, orig())
                if style == "children":
                    return "/*%s:%s*/%s" % (kind, "|".join(type(c).__name__ for c in children(element)), orig())
                if style == "twice":
                    a, b = orig(), orig()
                    return a if a == b else "/*UNSTABLE*/" + a + b
                return orig()

            impl.__name__ = "format_" + kind
            return impl

        for k, s in self.overrides.items():
            ns["format_" + k] = method(k, s)
        if is_text:
            # the remaining callbacks are points of failure and of thread switches too
            for k in KINDS:
                if k not in self.overrides:
                    ns["format_" + k] = method(k, "super")
        return type("Gen_" + self.base.replace("-", "_"), (base,), ns)(*base_args(self.base))


# --------------------------------------------------------------------------- sympy expressions ---
def sympy_expression(seed):
    import sympy as sp

    r = random.Random("s%d" % seed)
    xs = [sp.Symbol("x"), sp.Symbol("y", real=True), sp.Symbol("z", positive=True), sp.Symbol("w", nonnegative=True)]
    pool = list(xs) + [sp.Integer(2), sp.Rational(3, 7), sp.pi, sp.Float(1.25)]
    for _ in range(r.randint(2, 8)):
        a, b, c = r.choice(pool), r.choice(pool), r.choice(pool)
        k = r.randrange(11)
        try:
            if k == 0:
                e = a + b * c
            elif k == 1:
                e = a * b - c
            elif k == 2:
                e = sp.Pow(a, r.choice([2, 3, sp.Rational(1, 2)]))
            elif k == 3:
                e = sp.sin(a) * sp.cos(b)
            elif k == 4:
                e = sp.Piecewise((a, b < c), (c, True)) if not (b - c).is_number else a + c
            elif k == 5:
                e = sp.Abs(a) + sp.sign(b)
            elif k == 6:
                e = sp.Max(a, b) if len(sp.Max(a, b).args) <= 2 else a * 3
            elif k == 7:
                e = sp.exp(a / 5)
            elif k == 8:
                e = sp.Function("f")(a, b)
            elif k == 9:
                e = sp.atan2(a, b) if not a.is_number else sp.tanh(b)
            else:
                e = sp.log(sp.Abs(a) + 1)
        except (TypeError, ValueError):
            continue
        pool.append(e)
    if r.random() < 0.25:
        return sp.Matrix([[pool[-1], pool[-2]], [pool[-3], 1]])
    return pool[-1]


def wf_expression(seed):
    """A seeded wrenfold expression, built from the same grammar as the functions."""
    r = random.Random("e%d" % seed)
    ns = {"sym": sym}
    x, y, z = sym.symbol("x"), sym.symbol("y"), sym.symbol("z")
    ns.update(x=x, y=y, z=z)
    scal = ["x", "y", "z"]
    for i in range(r.randint(2, 8)):
        c = r.random()
        if c < 0.4:
            e = r.choice(UNARY).format(r.choice(scal))
        elif c < 0.85:
            e = r.choice(BINARY).format(r.choice(scal), r.choice(scal))
        else:
            e = r.choice(TERNARY[:3]).format(r.choice(scal), r.choice(scal), r.choice(scal))
        ns["t%d" % i] = eval(e, ns)
        scal.append("t%d" % i)
    if r.random() < 0.2:
        return sym.matrix([[ns[scal[-1]], ns[scal[-2]]], [ns[scal[-1]] * 2, ns["x"]]])
    return ns[scal[-1]]
