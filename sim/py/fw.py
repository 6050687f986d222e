"""Framework of the Python simulator: plans, simulated processes, references, scheduling."""
import collections
import ctypes
import faulthandler
import gc
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time
import traceback
import _thread

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT_S = 90  # wall-clock limit of one simulated process

# ------------------------------------------------------------------------------- interposer ---
lib = ctypes.CDLL(None)


def _fn(name, res, *args):
    f = getattr(lib, name)
    f.restype, f.argtypes = res, args
    return f


L, I, U64, S = ctypes.c_long, ctypes.c_int, ctypes.c_uint64, ctypes.c_char_p
heap_init = _fn("sim_heap_init", I)
heap_start = _fn("sim_heap_start", None, U64, I, I)
heap_check = _fn("sim_heap_check", None)
live_blocks = _fn("sim_live_blocks", L)
live_bytes = _fn("sim_live_bytes", L)
total_allocs = _fn("sim_total_allocs", L)
shim_violation = _fn("sim_violation", S)
sched_init = _fn("sim_sched_init", None, I, U64, ctypes.c_double, I)
script_add = _fn("sim_script_add", None, L, I)
thread_begin = _fn("sim_thread_begin", None, I)
thread_end = _fn("sim_thread_end", None)
wait_parked = _fn("sim_wait_parked", None, ctypes.c_uint32)
sched_go = _fn("sim_sched_go", None, I)
sim_yield = _fn("sim_yield", None)
taken = _fn("sim_taken", I, ctypes.POINTER(L), I)
steps = _fn("sim_steps", L)
switches = _fn("sim_switches", L)
hash_in = _fn("sim_hash", None, U64)
hash_get = _fn("sim_hash_get", U64)
gil_points = _fn("sim_gil_points", L)
race_stat = _fn("sim_race_stat", L, I)
exe_range = _fn("sim_exe_range", None, U64, U64)
file_start = _fn("sim_file_start", None, S, I)
file_stop = _fn("sim_file_stop", None)
file_fault = _fn("sim_file_fault", None, I, L, L, I, L)
file_faults_clear = _fn("sim_file_faults_clear", None)
file_stat = _fn("sim_file_stat", L, I)
no_yield = _fn("sim_no_yield", None, I)


# ------------------------------------------------------------------------------------- plans ---
class Plan:
    def __init__(self, scenario, seed):
        self.scenario, self.seed = scenario, seed
        self.s = {}  # settings
        self.ops = []  # (thread, [words])
        self.faults = []  # [words]
        self.scripted, self.pre = False, []

    def op(self, t, *w):
        self.ops.append((t, [str(x) for x in w]))

    def fault(self, *w):
        self.faults.append([str(x) for x in w])

    def get(self, k, default=0):
        return int(self.s.get(k, default))

    def text(self):
        out = ["scenario %s" % self.scenario, "seed %d" % self.seed]
        out += ["set %s %s" % kv for kv in self.s.items()]
        out += ["op %d %s" % (t, " ".join(w)) for t, w in self.ops]
        out += ["fault %s" % " ".join(w) for w in self.faults]
        if self.scripted:
            out.append("script 1")
        out += ["pre %d %d %d" % p for p in self.pre]
        return "\n".join(out) + "\n"

    @staticmethod
    def parse(text):
        p = Plan("", 0)
        for l in text.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == "scenario":
                p.scenario = w[1]
            elif w[0] == "seed":
                p.seed = int(w[1])
            elif w[0] == "set":
                p.s[w[1]] = w[2]
            elif w[0] == "op":
                p.ops.append((int(w[1]), w[2:]))
            elif w[0] == "fault":
                p.faults.append(w[1:])
            elif w[0] == "script":
                p.scripted = w[1] == "1"
            elif w[0] == "pre":
                p.pre.append((int(w[1]), int(w[2]), int(w[3])))
        return p


class Violation(BaseException):
    def __init__(self, kind, detail):
        BaseException.__init__(self, kind, detail)
        self.kind, self.detail = kind, detail


def mix(*xs):
    h = 0xCBF29CE484222325
    for x in xs:
        for b in str(x).encode() + b"\0":
            h = ((h ^ b) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
    return h


def clean(s):
    """Text of an error without addresses and positions in the user's memory."""
    return re.sub(r"0x[0-9a-fA-F]{4,}", "0x_", str(s))


def outcome(fn):
    """Runs fn; the result is what a caller observes."""
    try:
        r = fn()
        return ("ok", r)
    except Violation:
        raise
    except BaseException as e:
        return ("error", type(e).__name__, clean(e))


def short(x, n=700):
    x = x if isinstance(x, str) else repr(x)
    return x if len(x) <= n else x[: n // 2] + " ... " + x[-n // 2 :]


def differ(a, b):
    """Describes how two results differ."""
    a, b = (x if isinstance(x, str) else repr(x) for x in (a, b))
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "at character %d: %r instead of %r" % (i, a[max(0, i - 60) : i + 120], b[max(0, i - 60) : i + 120])


def settle():
    if "sympy" in sys.modules:
        sys.modules["sympy"].core.cache.clear_cache()  # (it remembers up to 1000 results)
    gc.collect()
    sys._clear_type_cache()


class Ctx:
    """What a scenario sees inside the simulated process."""

    def __init__(self, plan, refs, scratch):
        self.plan, self.refs, self.scratch = plan, refs, scratch
        self.c = collections.Counter()
        self.h = 0xCBF29CE484222325
        self.violation = None
        self.child = 0
        self.sched_hash = 0

    def log(self, *xs):
        self.h = mix(self.h, *xs)

    def count(self, k, n=1):
        self.c[k] += n

    def fail(self, kind, detail):
        raise Violation(kind, detail)

    def same(self, kind, what, got, want):
        self.log(what, got)
        if got != want:
            self.fail(kind, "%s: %s" % (what, differ(got, want)))

    # ---- threads ----
    def threads(self, bodies, p, trace=None):
        """Runs the bodies as simulated threads; `trace(frame)` selects the frames whose lines are
        scheduling points."""
        n = len(bodies)
        sched_init(n, mix(self.plan.seed, "sched", self.child) & 0x7FFFFFFFFFFFFFFF, p, 1 if self.plan.scripted else 0)
        if self.plan.scripted:
            for c, s, t in self.plan.pre:
                if c == self.child:
                    script_add(s, t)

        def local(frame, event, arg):
            if event == "line":
                sim_yield()
            return local

        def global_trace(frame, event, arg):
            return local if trace(frame) else None

        def body(i):
            thread_begin(i)
            try:
                if trace is not None:
                    sys.settrace(global_trace)
                try:
                    bodies[i]()
                finally:
                    sys.settrace(None)
            except Violation as v:
                if self.violation is None:
                    self.violation = (v.kind, v.detail)
            except BaseException:
                if self.violation is None:
                    self.violation = ("unexpected-error", traceback.format_exc()[-1500:])
            thread_end()

        for i in range(n):
            _thread.start_new_thread(body, (i,))
            wait_parked(i + 1)
        sched_go(mix(self.plan.seed, "first", self.child) % n)
        self.log("sched", hash_get())
        self.sched_hash = mix(self.sched_hash, hash_get())
        self.count("sched_points", steps())
        self.count("preemptions", switches())
        self.count("lock_releases", race_stat(0))
        self.count("accesses_without_lock", race_stat(1))
        if self.violation is not None:
            raise Violation(*self.violation)

    def preemptions(self):
        buf = (L * 131072)()
        n = min(taken(buf, 65536), 65536)
        return [[self.child, buf[2 * i], buf[2 * i + 1]] for i in range(n)]

    # ---- heap ----
    def check_heap(self):
        heap_check()
        v = shim_violation()
        if v:
            self.fail("memory-error", v.decode())

    def growth(self, what, fn, rounds=5, slack=1):
        """Repeats fn and reports memory that stays allocated with every repetition."""
        for _ in range(3):
            fn()
        settle()
        self.count("leak_windows")
        for n in (rounds, 16, 140):
            marks = [0] * n
            for i in range(n):
                fn()
                settle()
                marks[i] = 1000000007 + live_blocks()
            d = [b - a for a, b in zip(marks, marks[1:])]
            if min(d) <= slack:
                return  # (caches of the interpreter and of sympy fill up for some time)
        self.fail("leak", "%s: %s more blocks are live after each repetition" % (what, d))


# ------------------------------------------------------------------------ simulated processes ---
def fork_call(fn, limit=LIMIT_S, err=None):
    """Runs fn() in a forked process; returns ('value', x), ('signal', n), ('exit', n) or ('timeout',)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if err is not None:
                faulthandler.enable(file=err, all_threads=False)
            data = pickle.dumps(fn())
            i = 0
            while i < len(data):
                i += os.write(w, data[i : i + 65536])
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.stderr)
        finally:
            os._exit(code)
    os.close(w)
    buf, end = [], time.monotonic() + limit
    timeout = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timeout = True
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timeout:
        return ("timeout",)
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st))
    if os.WEXITSTATUS(st) != 0:
        return ("exit", os.WEXITSTATUS(st))
    return ("value", pickle.loads(b"".join(buf)))


class Harness(Exception):
    pass


HELPERS = {}


def start_helper(hashseed, scenario):
    """A second simulator process, of which only the hash seed of the interpreter differs."""
    import subprocess

    env = dict(os.environ, WFSIM_HASHSEED=str(hashseed))
    env.pop("LD_PRELOAD", None)
    HELPERS[hashseed] = subprocess.Popen([os.path.join(HERE, "simpy.sh"), "serve", scenario, str(hashseed)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)


def stop_helpers():
    for h in HELPERS.values():
        h.kill()
        h.wait()
    HELPERS.clear()


def send(f, x):
    d = pickle.dumps(x)
    f.write(len(d).to_bytes(8, "little") + d)
    f.flush()


def receive(f):
    n = f.read(8)
    if len(n) != 8:
        return None
    return pickle.loads(f.read(int.from_bytes(n, "little")))


def helper(hashseed, plan):
    h = HELPERS[hashseed]
    send(h.stdin, plan.text())
    r = receive(h.stdout)
    if r is None:
        raise Harness("the helper process ended")
    if r[0] == "signal" and r[1] != signal.SIGKILL:
        raise Violation("crash", "without any fault, in one thread, the process was ended by signal %d" % r[1])
    if r[0] != "value":
        raise Harness("helper process: %s" % (r,))
    return r[1]


def serve(mod, hashseed):
    fin, fout = sys.stdin.buffer, sys.stdout.buffer
    while True:
        t = receive(fin)
        if t is None:
            return
        send(fout, fork_call(lambda: mod.serve(Plan.parse(t), hashseed)))


def reference(fn):
    """A value computed in a pristine process that sees no faults and one thread."""
    r = fork_call(fn)
    if r[0] == "signal" and r[1] != signal.SIGKILL:
        raise Violation("crash", "without any fault, in one thread, the process was ended by signal %d" % r[1])
    if r[0] != "value":
        raise Harness("reference process ended with %s" % (r,))
    return r[1]


def executor(mod, plan, refs, scratch):
    h = random.Random("heap%d" % plan.seed)
    heap_start(h.getrandbits(62), h.choice([0, 0, 40, 120]), h.choice([0, 0xAB, 0xFF]))
    random.seed(plan.seed)
    ctx = Ctx(plan, refs, scratch)
    st, kind, detail = 1, "", ""
    try:
        mod.execute(ctx)
        ctx.check_heap()
    except Violation as v:
        st, kind, detail = 2, v.kind, v.detail
    except BaseException:
        st, kind, detail = 2, "unexpected-error", traceback.format_exc()[-2000:]
    sys.settrace(None)
    v = (shim_violation() or b"").decode()
    if v and (st == 1 or "race" in v):
        st, kind, detail = 2, "data-race" if "race" in v else "memory-error", v + ("\n" + detail if detail else "")
    return dict(status=st, kind=kind, detail=detail[:3000], hash="%016x" % ctx.h, sched="%016x" % ctx.sched_hash, c=dict(ctx.c), pre=ctx.preemptions() if st != 1 else [])


def locate(text):
    """Adds function and line to addresses in the extension module."""

    def at(m):
        import pywrenfold
        import subprocess

        r = subprocess.run(["addr2line", "-ifCe", pywrenfold.__file__, m.group(1)], stdout=subprocess.PIPE, text=True)
        lines = r.stdout.split("\n")
        return m.group(0) + " (" + "; ".join("%s %s" % (f[:120], os.path.relpath(l.split(" ")[0], "/repo")) for f, l in list(zip(lines[::2], lines[1::2]))[:4]) + ")"

    try:
        return re.sub(r"pywrenfold\S*\+(0x[0-9a-f]+)", at, text, count=1)
    except OSError:
        return text


def run_plan(mod, plan):
    """In the supervisor: references first, then the simulated process."""
    base = dict(seed=plan.seed, status=3, kind="", hash="", sched="", runs=0, sim_ns=0, c={}, pre=[])
    scratch = os.path.join(os.getcwd(), "p%d" % os.getpid())
    os.mkdir(scratch)
    crash = open(os.path.join(scratch, "crash.txt"), "w+")
    try:
        n0 = reference.count = 0
        refs = mod.references(plan)
        work = os.path.join(scratch, "w")
        os.mkdir(work)
        r = fork_call(lambda: executor(mod, plan, refs, work), err=crash)
        base["runs"] = 1 + getattr(mod, "n_refs", lambda p: 1)(plan)
        if r[0] == "value":
            base.update(r[1])
            if base["kind"] == "data-race":
                base["detail"] = locate(base["detail"])
        elif r[0] == "signal" and r[1] != signal.SIGKILL:
            crash.seek(0)
            t = crash.read()
            base.update(status=2, kind="crash", detail="the process was ended by signal %d\n%s" % (r[1], t[-1500:]), where=[l.strip() for l in t.splitlines()][:20], hash="signal%d" % r[1])
        elif r == ("exit", 87):
            base.update(status=2, kind="deadlock", detail="no simulated thread can run", hash="deadlock")
        elif r == ("exit", 88):
            base.update(status=2, kind="no-progress", detail="the step limit was reached", hash="steps")
        elif r[0] == "timeout" or r == ("signal", signal.SIGKILL):
            base.update(kind="wall-clock-limit", detail=str(r))
        else:
            base.update(kind="harness", detail="executor ended with %s" % (r,))
    except Violation as v:
        base.update(status=2, kind=v.kind, detail=v.detail, hash="reference")
    except Harness as e:
        base.update(kind="harness", detail=str(e))
    finally:
        crash.close()
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    return base
