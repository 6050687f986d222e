"""C08: writing generated code to files while file operations fail, are cut short or interleave."""
import errno
import os
import pathlib
import random

import fw
import s_c07
import work
import wrenfold as wf
from wrenfold import code_generation as cg

pause = fw._fn("sim_file_pause", None, fw.I)
KIND = {"open": 1, "write": 2, "close": 3, "mkdir": 4, "stat": 5, "rename": 6, "fsync": 7}
ERR = {
    "open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "EINTR"],
    "write": ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EINTR", "EFBIG", "short", "short", "short"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "mkdir": ["EACCES", "ENOSPC", "EMLINK", "EROFS", "EEXIST", "EEXIST", "EEXIST"],
    "stat": ["EACCES", "ENOENT", "EIO"],
    "rename": ["EIO", "ENOSPC"],
    "fsync": ["EIO"],
}
ALPHABET = ["x", "y = 1\n", "\r\n", "\t", "é", "λ", "漢", "😀", "\x00", "return v01;\n", " " * 40, "\u2028", "\ufeff"]


def references(plan):
    return {}


def n_refs(plan):
    return 0


VARIANTS = ["head", "mid", "tail", "cut", "grow", "same", "case"]


def content(seed, variant="-"):
    """The text of an operation. Variants of one text are much alike: they often have the same length, start and end."""
    s = base_content(seed)
    n = len(s)
    if variant == "sur":  # cannot be encoded
        k = seed % (n + 1)
        return s[:k] + "\udc80" + s[k:]
    if n == 0 or variant in ("-", "same"):
        return s
    if variant == "cut":
        return s[: n - 1 - seed % n] or s[:-1]
    if variant == "grow":
        return s + s[-1 - seed % n:]
    if variant == "case":
        return s.swapcase()
    k = {"head": 0, "mid": n // 2, "tail": n - 1}[variant]
    c = s[k]
    new = {1: "q" if c == "x" else "x", 2: "é" if c == "λ" else "λ", 3: "字" if c == "漢" else "漢", 4: "🙂" if c == "😀" else "😀"}[len(c.encode())]
    return s[:k] + new + s[k + 1:]


def base_content(seed):
    r = random.Random("content%d" % seed)
    c = r.random()
    if c < 0.06:
        return ""
    if c < 0.35:
        return "".join(r.choice(ALPHABET) for _ in range(r.randint(1, 60)))
    if c < 0.75:
        return "".join(r.choice(ALPHABET) for _ in range(r.randint(500, 9000)))
    if c < 0.9:
        return "\n".join("const Scalar v%03d = v%03d * %d;" % (i, i // 2, seed) for i in range(r.randint(100, 4000)))
    return r.choice(ALPHABET) * r.choice([4095, 4096, 4097, 8191, 8192, 8193, 65536, 131072, 200001])


DIRS = ["out", "out/a", "out/a/b", "out/a/b/c/d", "gen é/x", "out/b", "deep/1/2/3/4/5/6", ".", "out/a/../z"]
# Paths that cannot be written: a file in the place of a directory, a directory in the place of the file.
BAD = ["blocked", "blocked/x", "blocked/x/y/z", "folder"]


# Names of targets: thread, number. Names in one directory may differ in the suffix only, or have none.
SUFFIXES = ["h", "cc", "py", "rs", "txt", "hpp", "cpp", "c", "cu", "inl", "pyi", "md"]
STYLES = [
    lambda t, i: "f%d_%d.txt" % (t, i),
    lambda t, i: "gen.%s" % SUFFIXES[t * 3 + i],
    lambda t, i: "gen.v%d.%s" % (t, SUFFIXES[i]),
    lambda t, i: "gen" + "_" * (t * 3 + i),
    lambda t, i: ".gen%d%s" % (t, ["", ".h", ".h.in"][i]),
    lambda t, i: "n" * 247 + "%d_%d.cc" % (t, i),
]
# Names that a careless writer may use for files of its own.
SENTINELS = ["keep.txt", "tmp", "temp", ".tmp", "lock"] + [s % n for n in ("f0_0", "gen", "gen.v0", ".gen0") for s in ("%s.tmp", "%s.bak", "%s.lock", "%s.temp", "%s.new", "%s~", ".%s.swp")] \
    + [s % n for n in ("f0_0.txt", "gen.h", "gen.v0.h", "gen_") for s in ("%s.tmp", "%s.bak", "%s.lock", ".%s.tmp", "%s.new", "%s.part", "%s~", "tmp_%s", "%s.orig")] + ["f0_0.tx"]


def make_plan(seed, tier):
    r = random.Random("c08-%d" % seed)
    p = fw.Plan("C08", seed)
    n = p.s["threads"] = r.choice([1, 1, 2, 2, 3, 4])
    p.s["p"] = r.choice([0, 100, 300, 600])
    p.s["lines"] = int(r.random() < 0.4)
    dirs = r.sample(DIRS, r.randint(1, 4))
    alike = [r.randrange(1000000) for _ in range(r.randint(1, 3))] if r.random() < 0.4 else None
    style = r.randrange(len(STYLES))
    p.s["style"] = style
    for t in range(n):
        for i in range(r.randint(1, 5 if tier == 0 else 10)):
            # a thread may write the same file again, others write other files
            name = STYLES[style](t, r.randrange(3))
            d, cs, how, var = DIRS.index(r.choice(dirs)), r.randrange(1000000), r.choice(["str", "path", "rel"]), "-"
            if DIRS[d] == "." and r.random() < 0.4:
                how = "bare"
            if alike:
                cs, var = r.choice(alike), r.choice(VARIANTS + ["-", "-"])
            if r.random() < 0.04:
                var = "sur"
            if r.random() < 0.04:
                p.op(t, "bad", r.randrange(len(BAD)), name, cs, r.choice(["str", "path", "rel"]), "-")
            p.op(t, "write", d, name, cs, how, var)
    if r.random() < 0.85:
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.choice(["open", "write", "write", "write", "close", "mkdir", "mkdir", "stat"] + (["rename", "fsync"] if r.random() < 0.1 else []))
            e = r.choice(ERR[k])
            n_times, size = r.choice([1, 1, 2, 3, -1]) if e != "EINTR" else r.randint(1, 4), r.choice([1, 2, 7, 100, 4095, 4096, 8191])
            if e == "short" and n_times < 0 and size < 4095:
                n_times = r.randint(4, 300)  # every write cut to a few bytes makes a run of nearly endless steps
            p.fault(k, r.randrange(8), n_times, e, size)
    return p


def read(path):
    pause(1)
    try:
        with open(path, "rb") as f:
            return f.read()
    finally:
        pause(-1)


def tree(root):
    pause(1)
    try:
        return {os.path.normpath(os.path.join(d, x)) for d, _, fs in os.walk(root) for x in fs}
    finally:
        pause(-1)


def execute(ctx):
    plan = ctx.plan
    root = ctx.scratch
    sentinels = {}
    for d in ("out", "out/a", "."):
        if random.Random("%d%s" % (plan.seed, d)).random() < 0.5 or d == ".":
            os.makedirs(os.path.join(root, d), exist_ok=True)
            for nm in random.Random("%d-%s" % (plan.seed, d)).sample(SENTINELS, 24):
                q = os.path.normpath(os.path.join(root, d, nm))
                with open(q, "wb") as f:
                    f.write(("sentinel " + d + nm).encode())
                sentinels[q] = ("sentinel " + d + nm).encode()
    pre = []  # what an earlier process left at the targets, and files in the way
    for _, w in plan.ops:
        q = os.path.join(root, DIRS[int(w[1])], w[2]) if w[0] == "write" else None
        rp = random.Random("pre%d-%s-%s" % (plan.seed, w[1], w[2]))
        if q and q not in pre and rp.random() < 0.25:
            pre.append(q)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(content(int(w[3]), rp.choice(VARIANTS)).encode() + b"tail" * rp.choice([0, 0, 0, 1, 5000]))
    if any(w[0] == "bad" for _, w in plan.ops):
        q = os.path.join(root, "blocked")
        with open(q, "wb") as f:
            f.write(b"a file")
        sentinels[q] = b"a file"
        os.makedirs(os.path.join(root, "folder"))
        for _, w in plan.ops:
            if w[0] == "bad":
                os.makedirs(os.path.join(root, "folder", w[2]), exist_ok=True)
    os.chdir(root)
    fw.file_start(root.encode(), 1)
    n = plan.get("threads")

    def arm():
        fw.file_faults_clear()
        for k, at, cnt, e, arg in plan.faults:
            fw.file_fault(KIND[k], int(at), int(cnt), 0 if e == "short" else getattr(errno, e), int(arg))

    # faults after which a call has to succeed all the same
    harmless = all(e in ("short", "EEXIST") or (e == "EINTR" and k in ("write", "open")) for k, _, _, e, _ in plan.faults)
    failed = []
    targets = {}

    def target(w):
        d, name, how = (BAD if w[0] == "bad" else DIRS)[int(w[1])], w[2], w[4]
        full = os.path.join(root, d, name)
        if how == "str":
            return full, full
        if how == "path":
            return full, pathlib.Path(full)
        if how == "bare":
            return full, name
        return full, os.path.join(d, name)

    def write(t, w, strict):
        text = content(int(w[3]), w[5])
        full, arg = target(w)
        if w[0] == "bad":
            try:
                cg.mkdir_and_write_file(text, arg)
            except OSError:
                ctx.count("write_errors")
                return
            except Exception as e:
                ctx.fail("foreign-error", "thread %d: writing below a file: %r" % (t, e))
            ctx.fail("wrong-file", "thread %d: %s cannot exist but was written without an error" % (t, full))
        if w[5] == "sur":
            targets[os.path.normpath(full)] = None
            try:
                cg.mkdir_and_write_file(text, arg)
            except (OSError, UnicodeError):
                ctx.count("write_errors")
                return
            except Exception as e:
                ctx.fail("foreign-error", "thread %d: writing %s: %r" % (t, w[2], e))
            ctx.fail("wrong-file", "thread %d: %s was written without an error but the text has no encoding" % (t, full))
        targets[os.path.normpath(full)] = None
        f0 = fw.file_stat(1)
        try:
            cg.mkdir_and_write_file(text, arg)
        except OSError as e:
            ctx.count("write_errors")
            ctx.log(t, "error", e.errno)
            if strict or fw.file_stat(1) == f0 and n == 1 or harmless:
                ctx.fail("foreign-error", "thread %d: writing %s failed although no file operation failed for good: %r" % (t, w[2], e))
            failed.append((t, w))
            return
        except Exception as e:
            ctx.fail("foreign-error", "thread %d: writing %s: %r" % (t, w[2], e))
        ctx.count("writes")
        pause(1)
        try:
            got = read(full)
        except OSError as e:
            ctx.fail("wrong-file", "thread %d: %s was written without an error but cannot be read: %r" % (t, full, e))
        finally:
            pause(-1)
        want = text.encode("utf-8")
        ctx.log(t, len(got))
        if got != want:
            ctx.fail("wrong-file", "thread %d: %s was written without an error, has %d bytes instead of %d: %s" % (t, w[2], len(got), len(want), fw.differ(got, want)))

    def body(t):
        for ot, w in plan.ops:
            if ot == t:
                write(t, w, False)

    arm()
    ctx.threads([lambda t=t: body(t) for t in range(n)], plan.get("p") / 1000.0, trace=s_c07.in_user_code if plan.get("lines") else None)
    ctx.count("ops", len(plan.ops))
    ctx.count("file_faults", fw.file_stat(1))
    ctx.count("short_writes", fw.file_stat(2))
    ctx.count("interrupted", fw.file_stat(3))
    ctx.count("file_ops", fw.file_stat(0))
    fw.settle()
    if fw.file_stat(4) != 0:
        ctx.fail("descriptor-leak", "%d files are still open" % fw.file_stat(4))
    fw.file_faults_clear()
    for t, w in failed:
        write(t, w, True)
        ctx.count("retries")
    # everything that was there is as it was; the last write of every thread is in place
    for q, v in sentinels.items():
        try:
            now = read(q)
        except OSError:
            now = None
        if now != v:
            ctx.fail("wrong-file", "%s was changed" % q)
    last = {}
    for t, w in [x for x in plan.ops if x not in failed and x[1][0] != "bad"] + failed:
        last[os.path.normpath(target(w)[0])] = (t, w)
    for q, (t, w) in last.items():
        if w[5] == "sur":
            continue
        if read(q) != content(int(w[3]), w[5]).encode():
            if all(x[1][2] != w[2] or os.path.normpath(target(x[1])[0]) != q for x in failed):
                ctx.fail("wrong-file", "%s was changed after it was written" % q)
    if not plan.faults:
        extra = tree(root) - set(sentinels) - set(targets)
        if extra:
            ctx.fail("wrong-file", "unexpected files: %s" % sorted(extra))
    if fw.file_stat(4) != 0:
        ctx.fail("descriptor-leak", "%d files are still open" % fw.file_stat(4))
    fw.file_stop()
