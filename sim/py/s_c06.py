"""C06: callbacks of a generator that raise, misbehave or re-enter."""
import builtins
import gc
import random

import fw
import work
import wrenfold as wf
from wrenfold import code_generation as cg, exceptions


class UserError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.b = b


class UserAbort(BaseException):
    pass


def _with_cause():
    e = RuntimeError("outer")
    e.__cause__ = KeyError("inner")
    return e


ERRORS = {
    "value": lambda: ValueError("from a callback"),
    "user": lambda: UserError("from a callback", 7),
    "abort": lambda: UserAbort(),
    "interrupt": lambda: KeyboardInterrupt(),
    "memory": lambda: MemoryError(),
    "stop": lambda: StopIteration(3),
    "exit": lambda: SystemExit(4),
    "type": lambda: TypeError("from a callback"),
    "recursion": lambda: RecursionError("from a callback"),
    "attribute": lambda: AttributeError("from a callback"),
    "wfdomain": lambda: exceptions.DomainError("from a callback"),
    "cause": lambda: _with_cause(),
}
for _n, _c in sorted(vars(builtins).items()):
    if isinstance(_c, type) and issubclass(_c, BaseException) and not issubclass(_c, (UnicodeError, BaseExceptionGroup)):
        # every class the interpreter has, and a class derived from it
        ERRORS["b:" + _n] = lambda c=_c: c("from a callback")
        ERRORS["d:" + _n] = lambda c=_c, n=_n: type("My" + n, (c,), {})("from a callback")
LOOKUP_ERRORS = [e for e in ERRORS if not isinstance(ERRORS[e](), AttributeError)]
BAD = {"none": None, "int": 5, "bytes": b"x", "list": ["a"], "surrogate": "\ud800", "float": 1.5}


def from_generator(e, err):
    """The interpreter itself replaces a StopIteration that leaves a generator expression."""
    return isinstance(err, StopIteration) and isinstance(e, RuntimeError) and (e.__cause__ is err or from_generator(e.__cause__, err))


def build(plan):
    """Functions and generators of the plan; deterministic."""
    ext = work.make_externals()
    asts = {}
    for f in plan.s["functions"].split(","):
        asts[f] = fw.outcome(lambda: wf.transpile(cg.create_function_description(work.FunctionSpec(int(f)).build(ext))))
    return asts


class Hook:
    """Counts callbacks; acts at the chosen one."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n, self.at, self.act, self.depth = 0, -1, None, 0

    def __call__(self, kind, element, gen):
        self.n += 1
        if self.n == self.at:
            act, self.at = self.act, -1
            return act(kind, element, gen)


def make_gen(spec_seed, hook):
    return work.GeneratorSpec(spec_seed).make(hook)


def references(plan):
    def compute():
        asts = build(plan)
        out = {}
        for g in plan.s["generators"].split(","):
            for f, a in asts.items():
                if a[0] != "ok":
                    out[g, f] = (a, 0)
                    continue
                h = Hook()
                gen = make_gen(int(g), h)
                out[g, f] = (fw.outcome(lambda: gen.generate(a[1])), h.n)
        return out

    return fw.reference(compute)


def make_plan(seed, tier):
    r = random.Random("c06-%d" % seed)
    p = fw.Plan("C06", seed)
    p.s["functions"] = ",".join(str(r.randrange(100000)) for _ in range(r.randint(2, 3)))
    p.s["generators"] = ",".join(str(r.randrange(100000)) for _ in range(r.randint(1, 2)))
    if r.random() < 0.2:
        p.s["functions"] += ",%d" % (work.DEEP + r.randrange(100000))
        p.s["generators"] = str(work.DEEP + r.randrange(100000))
    fs, gs = p.s["functions"].split(","), p.s["generators"].split(",")
    n = r.randint(3, 12 if tier == 0 else 24)
    for _ in range(n):
        g, f, k = r.choice(gs), r.choice(fs), r.randrange(100000)
        c = r.random()
        if c < 0.08:
            p.op(0, "lookup", g, f, k, r.choice(LOOKUP_ERRORS))
        elif c < 0.35:
            p.op(0, "raise", g, f, k, r.choice(list(ERRORS)))
        elif c < 0.45:
            p.op(0, "bad", g, f, k, r.choice(list(BAD)))
        elif c < 0.55:
            p.op(0, "reenter", g, f, k, g, r.choice(fs))
        elif c < 0.65:
            p.op(0, "reenter", g, f, k, r.choice(gs), r.choice(fs))
        elif c < 0.75:
            p.op(0, "nested", g, f, k, g, r.choice(fs), r.randrange(100000), r.choice(list(ERRORS)), r.randrange(2))
        elif c < 0.83:
            p.op(0, "loop", g, f, k)
        elif c < 0.86:
            p.op(0, "cross", g, f, k)
        elif c < 0.89:
            p.op(0, "leak", g, f, k)
        elif c < 0.92:
            p.op(0, "gc", g, f, k)
        else:
            p.op(0, "gen", g, f, k)
    return p


def execute(ctx):
    plan = ctx.plan
    asts = build(plan)
    hooks = {g: Hook() for g in plan.s["generators"].split(",")}
    gens = {g: make_gen(int(g), h) for g, h in hooks.items()}

    def check(g, f, what):
        hooks[g].reset()
        got = fw.outcome(lambda: gens[g].generate(asts[f][1]))
        ctx.same("wrong-text", "%s: generator %s, function %s" % (what, g, f), got, ctx.refs[g, f][0])

    def position(g, f, k):
        return 1 + k % ctx.refs[g, f][1]

    usable = [(g, f) for (g, f), (o, n) in ctx.refs.items() if asts[f][0] == "ok"]
    for _, w in plan.ops:
        op, g, f, k = w[0], w[1], w[2], int(w[3])
        if (g, f) not in usable:
            continue
        h, gen, ast = hooks[g], gens[g], asts[f][1]
        n = ctx.refs[g, f][1]
        ctx.count("ops")
        if op == "gc":
            gc.collect()
            continue
        if op == "gen" or n == 0:
            check(g, f, op)
            continue
        for x in hooks.values():
            x.reset()
        h.at = position(g, f, k)
        if op == "raise":
            err = ERRORS[w[4]]()

            def act(kind, e, s, err=err):
                raise err

            h.act = act
            try:
                gen.generate(ast)
                ctx.fail("error-lost", "a callback raised %r, generate() returned" % err)
            except fw.Violation:
                raise
            except BaseException as e:
                ctx.count("callbacks_thrown")
                ctx.log("raise", type(e).__name__)
                if e is not err and not from_generator(e, err):
                    ctx.fail("error-changed", "a callback raised %r, the caller got %r" % (err, e))
                if w[4] == "cause" and not isinstance(e.__cause__, KeyError):
                    ctx.fail("error-changed", "the cause of the error is lost")
            err = None
        elif op == "lookup":
            err = ERRORS[w[4]]()
            h.at = -1
            if k % 3:
                # a generator that was never used: nothing is known about its overrides yet
                m = _generate_lookup(make_gen(int(g), h), ast, -1, None)[0]
                gen = gens[g] = make_gen(int(g), h)
                ctx.count("lookups_fresh")
            else:
                m = _generate_lookup(gen, ast, -1, None)[0]
            if m == 0:
                continue
            e = _generate_lookup(gen, ast, 1 + k // 3 % m, err)[1]
            ctx.count("callbacks_thrown")
            ctx.count("lookups_failed")
            ctx.log("lookup", type(e).__name__)
            if e is None:
                ctx.fail("error-lost", "looking up an override raised %r, generate() returned" % err)
            if e is not err and not from_generator(e, err):
                ctx.fail("error-changed", "looking up an override raised %r, the caller got %r" % (err, e))
            err = e = None
        elif op == "bad":
            text = BAD[w[4]]

            class Bad(Exception):
                pass

            # the override returns something that is not text
            kind_at = {}

            def act(kind, e, s):
                kind_at["kind"] = kind
                raise Bad

            # wrap: the hook cannot choose the return value, so the method does
            o = fw.outcome(lambda: _generate_bad(gen, h, ast, text))
            ctx.count("bad_returns")
            ctx.log("bad", w[4], o[0], o[1] if o[0] == "error" else "")
            ctx.count("bad_%s" % (o[1] if o[0] == "error" else "ok"))
            if o[0] == "ok" and not isinstance(o[1], str):
                ctx.fail("wrong-text", "generate() returned %r" % (o[1],))
        elif op == "reenter":
            g2, f2 = w[4], w[5]
            if (g2, f2) not in usable or min(int(f), int(f2)) >= work.DEEP:
                continue
            inner = []

            def act(kind, e, s):
                inner.append(fw.outcome(lambda: gens[g2].generate(asts[f2][1])))

            h.act = act
            got = fw.outcome(lambda: gen.generate(ast))
            ctx.count("reentrant_calls")
            ctx.same("wrong-text", "outer text of a re-entrant generation: generator %s, function %s" % (g, f), got, ctx.refs[g, f][0])
            ctx.same("wrong-text", "inner text of a re-entrant generation: generator %s, function %s" % (g2, f2), inner and inner[0], ctx.refs[g2, f2][0])
        elif op == "nested":
            g2, f2, k2, ek, swallow = w[4], w[5], int(w[6]), w[7], int(w[8])
            if (g2, f2) not in usable or ctx.refs[g2, f2][1] == 0 or min(int(f), int(f2)) >= work.DEEP:
                continue
            err = ERRORS[ek]()

            def fail(kind, e, s):
                raise err

            def act(kind, e, s):
                h2 = hooks[g2]
                n0 = h2.n
                h2.at, h2.act = n0 + position(g2, f2, k2), fail
                try:
                    gens[g2].generate(asts[f2][1])
                except BaseException as x:
                    if x is not err and not from_generator(x, err):
                        ctx.fail("error-changed", "a callback raised %r, the caller got %r" % (err, x))
                    if not swallow:
                        raise
                    return
                ctx.fail("error-lost", "a nested callback raised %r, generate() returned" % err)

            h.act = act
            try:
                got = ("ok", gen.generate(ast))
            except fw.Violation:
                raise
            except BaseException as x:
                if not swallow and x is not err and not from_generator(x, err):
                    ctx.fail("error-changed", "a callback raised %r, the caller got %r" % (err, x))
                got = ("error", type(x).__name__, fw.clean(x))
            ctx.count("callbacks_thrown")
            ctx.count("reentrant_calls")
            if swallow:
                ctx.same("wrong-text", "text after a nested failure that the callback handled: generator %s, function %s" % (g, f), got, ctx.refs[g, f][0])
            elif got[0] == "ok":
                ctx.fail("error-lost", "a nested callback raised %r, generate() returned" % err)
        elif op == "loop":
            def act(kind, e, s):
                h.at, h.act = h.n + 1, act
                return s.format(e)

            h.act = act
            got = fw.outcome(lambda: gen.generate(ast))
            ctx.count("self_recursions")
            ctx.log("loop", got[0], got[1] if got[0] == "error" else "")
            ctx.count("loop_%s" % (got[1] if got[0] == "error" else "ok"))
            if got[0] == "ok" and h.n > 100000:
                ctx.fail("error-lost", "unbounded self-recursion was not reported")
            if got[0] == "ok":
                # the recursion ended because other overrides were invoked in between
                ctx.same("wrong-text", "text of a generation with repeated formatting", got, ctx.refs[g, f][0])
        elif op == "cross":
            def act(kind, e, s):
                h.at, h.act = h.n + 1, act
                return s.generate(ast)

            h.act = act
            got = fw.outcome(lambda: gen.generate(ast))
            ctx.count("self_recursions")
            ctx.log("cross", got[0], got[1] if got[0] == "error" else "")
            ctx.count("cross_%s" % (got[1] if got[0] == "error" else "ok"))
            if got[0] == "ok":
                ctx.fail("error-lost", "unbounded recursion of generate() was not reported")
        elif op == "leak":
            err = ValueError("again")

            def act(kind, e, s):
                raise err

            def repeat():
                h.reset()
                h.at, h.act = position(g, f, k), act
                try:
                    gen.generate(ast)
                except ValueError as e:
                    e.__traceback__ = None

            ctx.growth("generate() with a failing callback", repeat)
            err = None
            ctx.count("callbacks_thrown", 8)
        check(g, f, "generation after `%s`" % " ".join(w))
    for g, f in usable:
        check(g, f, "at the end")


def _generate_lookup(gen, ast, at, err):
    """Generates with overrides that are descriptors, of which one lookup fails."""
    cls = type(gen)
    saved = {}
    n = [0]

    class Lookup:
        def __init__(self, fn):
            self.fn = fn

        def __get__(self, obj, owner):
            if obj is not None:
                n[0] += 1
                if n[0] == at:
                    raise err
            return self.fn.__get__(obj, owner)

    for name in [k for k in vars(cls) if k.startswith("format_")]:
        saved[name] = vars(cls)[name]
        setattr(cls, name, Lookup(saved[name]))
    try:
        gen.generate(ast)
    except BaseException as e:
        return n[0], e
    finally:
        for name, fn in saved.items():
            setattr(cls, name, fn)
    return n[0], None


def _generate_bad(gen, h, ast, value):
    """Generates with an override whose result at the chosen invocation is `value`."""
    cls = type(gen)
    saved = {}
    at, h.at = h.at, -1

    def wrap(name, fn):
        def impl(self, e):
            before = h.n
            r = fn(self, e)
            return value if before < at <= h.n and before + 1 == at else r

        return impl

    for name in [k for k in vars(cls) if k.startswith("format_")]:
        saved[name] = vars(cls)[name]
        setattr(cls, name, wrap(name, saved[name]))
    try:
        return gen.generate(ast)
    finally:
        for name, fn in saved.items():
            setattr(cls, name, fn)
