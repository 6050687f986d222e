"""C12: objects stay valid in whatever order their parents are collected."""
import dataclasses
import enum
import gc
import inspect
import random
import re

import fw
import work
import wrenfold as wf
from wrenfold import ast, custom_types, code_generation as cg, external_functions, geometry, sym, type_info

METHODS = {
    "Comment": ["split_lines"],
    "Argument": ["create_symbolic_input"],
    "FunctionDescription": ["output_expressions"],
    "MatrixExpr": ["to_list", "to_flat_list", "transpose", "squared_norm"],
    "Quaternion": ["to_list", "to_vector_wxyz", "to_rotation_matrix", "conjugate"],
}
ROOTS = ["ast", "ast", "ast", "ast", "desc", "desc", "type", "ext", "kept", "kept", "expr", "quat", "obj", "cse", "python", "gen", "call"]


def native(o):
    return type(o).__module__.startswith("pywrenfold")


_props = {}


def properties(t):
    # (the cache must not keep types of the user alive)
    if t in _props:
        return _props[t]
    p = sorted({n for k in t.__mro__ for n, v in vars(k).items() if isinstance(v, property)})
    if t.__module__.startswith("pywrenfold"):
        _props[t] = p
    return p


def kids(o):
    """Everything that can be reached from an object in one step: (label, getter)."""
    if isinstance(o, (list, tuple)):
        return [("[%d]" % i, (lambda i=i: o[i])) for i in range(len(o))]
    if isinstance(o, dict):
        return [("{%s}" % fw.clean(repr(k)), (lambda k=k: o[k])) for k in sorted(o, key=repr)]
    if isinstance(o, enum.Enum) or isinstance(o, (str, int, float)) or inspect.isclass(o) or o is None:
        return []
    n = type(o).__name__
    if n == "AstSpan":
        return [("[%d]" % i, (lambda i=i: o[i])) for i in range(len(o))] + ([("[-1]", lambda: o[-1])] if len(o) else [])
    if not any(k.__module__.startswith("pywrenfold") for k in type(o).__mro__):
        if dataclasses.is_dataclass(o):
            return [("." + f.name, (lambda f=f: getattr(o, f.name))) for f in dataclasses.fields(o)]
        return []
    out = [("." + p, (lambda p=p: getattr(o, p))) for p in properties(type(o))]
    out += [("." + m + "()", (lambda m=m: getattr(o, m)())) for m in METHODS.get(n, [])]
    if n == "ConstructCustomType":
        out += [(".get_field_value(%s)" % f, (lambda f=f: o.get_field_value(f))) for f in [f.name for f in o.type.fields]]
    if n == "MatrixExpr":
        r, c = o.shape
        out += [("[%d,%d]" % (i, j), (lambda i=i, j=j: o[i, j])) for i in range(r) for j in range(c)]
        out += [("[%d,:]" % i, (lambda i=i: o[i, :])) for i in range(r)]
        out += [("[row%d]" % i, (lambda i=i: list(o)[i])) for i in range(r)]
    return out


def edges(o):
    """A path to each kind of step (type and accessor) that can be made below an object."""
    out, expanded, todo = {}, {}, [(o, "")]
    while todo and len(expanded) < 100:
        x, path = todo.pop(0)
        t = type(x).__name__
        expanded[t] = expanded.get(t, 0) + 1
        if expanded[t] > 5:
            continue
        for label, get in kids(x)[:40]:
            out.setdefault((t, re.sub(r"[0-9]+", "#", label)), path + label)
            todo.append((get(), path + label))
    return list(out.values())


def value(o):
    """A complete picture of an object, as text."""
    n = type(o).__name__
    if isinstance(o, (str, int, float, bool)) or o is None:
        return repr(o)
    if isinstance(o, enum.Enum):
        return str(o)
    if isinstance(o, (list, tuple)):
        return "[" + ",".join(value(x) for x in o) + "]"
    if isinstance(o, dict):
        return "{" + ",".join("%s:%s" % (value(k), value(o[k])) for k in sorted(o, key=repr)) + "}"
    if inspect.isclass(o):
        return o.__name__
    if n == "AstSpan":
        return "[" + ",".join(value(x) for x in o) + "]"
    if type(o).__module__ == "pywrenfold.ast" or n in ("Argument", "CustomType", "StructField", "ExternalFunction", "OutputKey", "MatrixType", "ScalarType"):
        return n + "(" + ",".join("%s=%s" % (p, value(getattr(o, p))) for p in properties(type(o))) + ")"
    if dataclasses.is_dataclass(o):
        return n + "(" + ",".join(value(getattr(o, f.name)) for f in dataclasses.fields(o)) + ")"
    return fw.clean(repr(o))


def fresh_types(r):
    """User types of their own, so that nothing else keeps them."""

    @dataclasses.dataclass
    class Inner:
        x: wf.FloatScalar
        v: wf.Vector2

    @dataclasses.dataclass
    class Outer:
        a: Inner
        m: wf.Matrix2x3
        s: wf.FloatScalar

    class Blob(wf.Opaque):
        pass

    return Inner, Outer, Blob


def user_function(s, ext):
    """Half of the functions use types that live no longer than they do."""
    r = random.Random("u%d" % s)
    if r.random() < 0.5:
        return work.FunctionSpec(s).build(ext)
    Inner, Outer, Blob = fresh_types(r)
    f = external_functions.declare_external_function("probe", [("b", Blob), ("i", Inner)], Inner)

    def func(a: Outer, b: Blob, x: wf.FloatScalar, k: wf.IntScalar):
        i = f(b, a.a)
        y = sym.where(x > i.x, i.v[0] * a.s, sym.cos(x * a.m[1, 2]) + k)
        return [
            wf.ReturnValue(Outer(i, a.m * x, y)) if s % 2 else wf.ReturnValue(y),
            wf.OutputArg(Inner(y, a.a.v * y), "o0", bool(s % 3)),
            wf.OutputArg(sym.vector(y, x, i.v[1]), "o1", True),
        ]

    return func


class Keeper:
    """Keeps what formatting callbacks were given."""

    def __init__(self):
        self.seen = []

    def __call__(self, kind, element, gen):
        if len(self.seen) < 400:
            self.seen.append((kind, element))


def make_root(kind, s, ext):
    r = random.Random("root%d" % s)
    if kind in ("desc", "ast", "cse", "python"):
        if kind == "python":
            f, code = cg.generate_python(work.FunctionSpec(s).build(ext), context=work.num_context(1.5))
            return [code, type(f).__name__]
        d = cg.create_function_description(user_function(s, ext))
        if kind == "desc":
            return d
        if kind == "cse":
            return list(cg.cse_function_description(d))
        return wf.transpile(d, convert_ternaries=bool(r.getrandbits(1)))
    if kind == "type":
        cache = {}
        return custom_types.convert_to_internal_type(r.choice(fresh_types(r)[:2] + (work.Pose,)), cache, "root")
    if kind == "ext":
        a, b, c = fresh_types(r)
        return external_functions.declare_external_function("e%d" % (s % 9), [("p", a), ("q", b), ("r", c), ("s", wf.Vector3)], r.choice([a, b, wf.Matrix2, wf.FloatScalar]))
    if kind == "call":
        a, b, c = fresh_types(r)
        f = external_functions.declare_external_function("g%d" % (s % 9), [("p", wf.Vector2), ("s", wf.FloatScalar)], r.choice([a, b, wf.Matrix2, wf.FloatScalar]))
        x, y = sym.symbols("x, y")
        return f(sym.vector(x, y * s), y)
    if kind == "kept":
        k = Keeper()
        g = work.GeneratorSpec(s, base="text").make(k)
        d = cg.create_function_description(user_function(s, ext))
        fw.outcome(lambda: g.generate(wf.transpile(d)))
        return k.seen
    if kind == "expr":
        return work.wf_expression(s)
    if kind == "quat":
        w, x, y, z = sym.symbols("w, x, y, z")
        return geometry.Quaternion(w * s, x + y, y * y, sym.cos(z))
    if kind == "obj":
        t = custom_types.convert_to_internal_type(r.choice(fresh_types(r)[:2] + (work.Pose,)), {}, "root")
        return custom_types.map_expressions_into_custom_type([sym.symbol("e%d" % i) for i in range(t.total_size)], t)[0]
    if kind == "gen":
        return work.GeneratorSpec(s).make()
    raise ValueError(kind)


class Handle:
    __slots__ = ("obj", "val", "root", "path")

    def __init__(self, obj, root, path, val=None):
        self.obj, self.root, self.path, self.val = obj, root, path, val


def make_plan(seed, tier):
    r = random.Random("c12-%d" % seed)
    p = fw.Plan("C12", seed)
    n = p.s["threads"] = r.choice([1, 1, 1, 2, 3])
    p.s["p"] = r.choice([20, 100, 400])
    p.s["leak"] = int(n == 1 and r.random() < 0.35)
    seeds = [r.randrange(100000) for _ in range(r.choice([1, 2, 3]))]
    roots = r.sample(ROOTS, r.choice([1, 2, 3, 5]))
    for t in range(n):
        p.op(t, "root", r.choice(roots), r.choice(seeds))
        p.op(t, "root", r.choice(roots), r.choice(seeds))
        # a thread prefers to look deeper, or to drop, or to make new objects
        w = dict(edge=r.choice([0, 2, 8]), get=r.choice([4, 8, 12]), iter=2, next=3, drop=r.choice([2, 4, 7]), droproot=r.choice([0, 1, 2]), root=1, collect=r.choice([0, 1, 2]), cycle=1, mutate=1, churn=1, gen=1, check=2)
        for _ in range(r.randint(10, 50 if tier == 0 else 140)):
            op = r.choices(list(w), list(w.values()))[0]
            if op == "root":
                p.op(t, op, r.choice(roots), r.choice(seeds))
            elif op == "collect":
                p.op(t, op)
            elif op == "churn":
                p.op(t, op, r.choice(seeds))
            else:
                p.op(t, op, r.randrange(100000), r.randrange(100000))
    return p


def n_refs(plan):
    return 0


def references(plan):
    return {}


class History:
    def __init__(self, ctx, ext):
        self.ctx, self.ext = ctx, ext
        self.table, self.iters, self.next, self.mutations = {}, {}, 0, 0
        self.facts = []

    def add(self, h):
        h.val = value(h.obj) if h.path != "" or h.root[0] != "desc" else None
        if h.root[0] != "desc":
            self.facts.append((h.root, h.path, h.val))
        else:
            self.facts.append((h.root, h.path, None))
        self.next += 1
        self.table[self.next] = h

    def pick(self, k, want=None):
        keys = [i for i, h in list(self.table.items()) if want is None or want(h)]
        return self.table.get(keys[k % len(keys)]) if keys else None

    def check(self, h, when):
        if h.val is None:
            return
        self.ctx.count("checks")
        v = value(h.obj)
        if v != h.val:
            self.ctx.fail("object-changed", "%s of %s %s: %s" % (h.path or "root", h.root[0], when, fw.differ(v, h.val)))

    def step(self, w):
        op = w[0]
        if op == "root":
            # (some drawn functions are rejected)
            o = fw.outcome(lambda: make_root(w[1], int(w[2]), self.ext))
            self.ctx.count("roots_" + o[0])
            if o[0] == "ok":
                self.add(Handle(o[1], (w[1], int(w[2])), ""))
            return
        if op == "collect":
            gc.collect()
            return
        if op == "churn":
            d = cg.create_function_description(work.FunctionSpec(int(w[1]) + 1).build(self.ext))
            t = fw.outcome(lambda: wf.transpile(d))
            del d, t
            return
        k, j = int(w[1]), int(w[2])
        if op == "get":
            h = self.pick(k, lambda h: True)
            if h is None:
                return
            ks = kids(h.obj)
            if not ks:
                return
            label, get = ks[j % len(ks)]
            o = get()
            del get, ks
            self.add(Handle(o, h.root, h.path + label))
        elif op == "edge":
            # every kind of accessor is equally likely, and only what it returned is kept
            keys = [i for i, h in list(self.table.items()) if h.path == ""]
            h = self.table.get(keys[k % len(keys)]) if keys else None
            if h is None:
                return
            es = edges(h.obj)
            if not es:
                return
            path = es[j % len(es)]
            self.add(Handle(walk(h.obj, path), h.root, path))
            if k % 2:
                for i in [i for i, x in list(self.table.items()) if x.root == h.root and x.path != path]:
                    self.table.pop(i, None)
        elif op == "iter":
            h = self.pick(k, lambda h: type(h.obj).__name__ in ("AstSpan", "MatrixExpr", "list", "tuple"))
            if h is not None:
                self.next += 1
                self.iters[self.next] = [iter(h.obj), h.root, h.path, 0, type(h.obj).__name__]
        elif op == "next":
            keys = list(self.iters)
            if not keys:
                return
            key = keys[k % len(keys)]
            it = self.iters.get(key)
            if it is None:
                return
            i, it[3] = it[3], it[3] + 1
            try:
                o = next(it[0])
            except StopIteration:
                self.iters.pop(key, None)
                return
            self.add(Handle(o, it[1], it[2] + ("[%d]" % i if it[4] != "MatrixExpr" else "[row%d]" % i)) if self.ctx.plan.get("threads") == 1 else Handle(o, ("desc", 0), "iterated"))
        elif op == "drop":
            keys = list(self.table)
            if keys:
                self.table.pop(keys[k % len(keys)], None)
            if self.iters and j % 4 == 0:
                keys = list(self.iters)
                self.iters.pop(keys[j // 4 % len(keys)], None)
        elif op == "droproot":
            # everything except what was reached last
            keys = list(self.table)
            for i in keys[: max(0, len(keys) - 1 - j % 3)]:
                self.table.pop(i, None)
        elif op == "cycle":
            h = self.pick(k)
            if h is not None:
                c = [h.obj, None]
                c[1] = c
                for i in [i for i, x in list(self.table.items()) if x is h]:
                    self.table.pop(i, None)
        elif op == "mutate":
            h = self.pick(k, lambda h: type(h.obj).__name__ == "FunctionDescription")
            if h is None:
                return
            d, self.mutations = h.obj, self.mutations + 1
            n = "added%d" % self.mutations
            before = value(d.arguments)
            if j % 3 == 0:
                fw.outcome(lambda: d.add_input_argument(n, type_info.ScalarType(type_info.NumericType.Float)))
            elif j % 3 == 1:
                fw.outcome(lambda: d.add_output_argument(n, bool(j % 2), sym.symbol("x") * j))
            else:
                fw.outcome(lambda: d.add_input_argument(n, custom_types.convert_to_internal_type(fresh_types(None)[1], {}, n)))
            after = value(d.arguments)
            if not after.startswith(before[:-1]):
                self.ctx.fail("object-changed", "arguments of a description after a declaration: %s" % fw.differ(after, before))
        elif op == "gen":
            h = self.pick(k, lambda h: type(h.obj).__name__ == "FunctionDefinition" and "iterated" not in h.path)
            if h is None:
                return
            g = work.GeneratorSpec(j % 40).make()
            a = fw.outcome(lambda: g.generate(h.obj))
            b = fw.outcome(lambda: g.generate(make(h.root, h.path, self.ext)))
            self.ctx.same("object-changed", "code generated from %s %s" % h.root, a, b)
        elif op == "check":
            h = self.pick(k)
            if h is not None:
                self.check(h, "checked later")


def walk(o, path):
    rest = path
    while rest:
        for label, get in kids(o):
            if rest.startswith(label) and (rest == label or rest[len(label)] in ".[{"):
                o = get()
                rest = rest[len(label) :]
                break
        else:
            raise fw.Violation("object-changed", "%s is not reachable" % path)
    return o


def make(root, path, ext):
    """The object at a path of a fresh root."""
    return walk(make_root(root[0], root[1], ext), path)


def execute(ctx):
    plan = ctx.plan
    n = plan.get("threads")
    ext = work.make_externals()

    if n == 1:
        def history():
            h = History(ctx, ext)
            for _, w in plan.ops:
                h.step(w)
            for x in list(h.table.values()):
                h.check(x, "at the end")
            return h.facts

        facts = history()
        settle = fw.settle
        settle()
        ctx.count("ops", len(plan.ops))
        fresh = {}
        for root, path, val in facts:
            if val is None:
                continue
            if (root, path) in fresh:
                continue
            fresh[root, path] = value(make(root, path, ext))
            ctx.same("wrong-object", "%s of %s" % (path or "root", root), val, fresh[root, path])
        del facts, fresh
        if plan.get("leak"):
            ctx.growth("a history of derived objects", lambda: history() and None)
        return
    h = History(ctx, ext)

    def body(t):
        def run():
            for ot, w in plan.ops:
                if ot == t:
                    h.step(w)
                    ctx.count("ops")

        return run

    def traced(frame):
        return frame.f_code.co_filename == __file__ and frame.f_code.co_name in ("step", "value", "kids")

    ctx.threads([body(t) for t in range(n)], plan.get("p") / 1000.0, trace=traced if plan.seed % 3 == 0 else None)
    for x in list(h.table.values()):
        h.check(x, "at the end")
        ctx.log(x.val)
