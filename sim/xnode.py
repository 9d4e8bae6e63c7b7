"""In-node modes that need more than file-operation gates: several threads under a
token scheduler, asynchronous interruption, statistics and trails, failing and
hostile memory allocation."""
import _thread
import contextlib
import ctypes
import gc
import io
import os
import random
import re
import sys
import threading
import types
import zlib

import numpy as np

import hermipy as hm
import hermipy.stats as hstats
import ops
import simlock

REPO = os.environ.get("SIM_REPO_DIR", "/repo")
PYIO = ("/numpy/lib/npyio.py", "/numpy/lib/format.py", "/scipy/sparse/_matrix_io.py", "/zipfile/__init__.py", "/zipfile.py", "/uuid.py", "/contextlib.py")
SHIM = None
CFG = {}


def setup(cfg, shim):
    global SHIM
    SHIM = shim
    SHIM.sim_events.restype = ctypes.c_long
    CFG.update(cfg)
    x = cfg.get("xcfg", {})
    if x.get("heap") is not None:
        heap_setup(x["heap"])


CODES = {}     # scope -> code objects


def in_scope(filename, scope):
    h = filename.startswith(REPO + "/hermipy/")
    if scope == "cache":
        return filename.endswith("/hermipy/cache.py")
    if scope == "stats":
        return filename.endswith("/hermipy/stats.py")
    if scope == "io":
        return filename.endswith(PYIO) or filename.endswith("/hermipy/cache.py")
    if scope == "hermipy":
        return h
    return h or filename.endswith(PYIO)


def collect():
    """Code objects of the files whose steps are scheduling and interruption points (called once, in the zygote)."""
    seen = {}

    def rec(c):
        if id(c) not in seen and in_scope(c.co_filename, "all"):
            seen[id(c)] = c
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    rec(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            rec(o.__code__)
    cs = sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    for sc in ("cache", "stats", "io", "hermipy", "all"):
        CODES[sc] = [c for c in cs if in_scope(c.co_filename, sc)]


collect()
MON = sys.monitoring
TOOL = 4


def watch(scope, event, cb):
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "sim")
    MON.register_callback(TOOL, event, cb)
    for c in CODES[scope]:
        MON.set_local_events(TOOL, c, event)


def unwatch(scope, event):
    MON.register_callback(TOOL, event, None)
    for c in CODES[scope]:
        MON.set_local_events(TOOL, c, 0)


# ---------------------------------------------------------------- threads

class Deadlock(BaseException):
    pass


class Sched:
    """Exactly one of the threads runs; the token moves only at traced lines, lock
    operations and thread ends, as decided by the seed or by an explicit list."""

    def __init__(self, n, sched):
        self.n = n
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.state = ["ready"]*n
        self.wait = [None]*n
        self.steps = [0]*n
        self.ids = {}
        self.used = []
        self.total = 0
        self.trail = self.sys = self.mid = 0
        self.deadlock = False
        if isinstance(sched, list):
            self.explicit = {(a, b): c for a, b, c in sched}
        else:
            self.explicit = None
            self.rng = random.Random(sched["seed"])
            self.mode, self.p = sched["mode"], sched["p"]
            self.salt = b"%d" % sched["seed"]

    def tid(self):
        return self.ids.get(_thread.get_ident())

    def others(self, t):
        return [i for i in range(self.n) if i != t and self.state[i] == "ready"]

    def go(self, t, to, park=True):
        self.trail = zlib.crc32(b"%d,%d,%d" % (t, self.steps[t], to), self.trail)
        self.locks[to].release()
        if park:
            self.locks[t].acquire()

    def pick(self, t, forced):
        o = self.others(t)
        if not o:
            return None
        if self.explicit is not None:
            to = self.explicit.get((t, self.steps[t]))
            return to if to in o else o[0] if forced else None
        to = self.rng.choice(o)
        return to

    def point(self, t, code, line, boost=0):
        self.steps[t] += 1
        self.total += 1
        if self.total > 400000:
            return
        if self.explicit is None:
            if self.mode == "walk":
                y = self.rng.random() < max(self.p, boost)
            else:
                site = code if isinstance(code, bytes) else b"%s:%d" % (code.co_name.encode(), line - (code.co_firstlineno if not boost else 0))
                y = zlib.crc32(site, zlib.crc32(self.salt)) % 1000 < 1000*max(self.p, boost)
            if not y:
                return
            to = self.pick(t, False)
        else:
            if (t, self.steps[t]) not in self.explicit:
                return
            to = self.pick(t, False)
        if to is not None:
            self.used.append([t, self.steps[t], to])
            self.go(t, to)

    def finish(self, t):
        self.state[t] = "done"
        self.steps[t] += 1
        to = self.pick(t, True)
        if to is not None:
            if len(self.others(t)) > 1:
                self.used.append([t, self.steps[t], to])
            self.go(t, to, park=False)
        elif all(s == "done" for s in self.state):
            self.main.release()
        else:
            self.stuck()

    def stuck(self):
        self.deadlock = True
        self.main.release()

    def block(self, t, lock, timed):
        self.steps[t] += 1
        to = self.pick(t, True)
        if to is None:
            if timed:
                return False
            self.stuck()
            _thread.allocate_lock().acquire() if False else None
            raise Deadlock()
        self.state[t], self.wait[t] = "blocked", lock
        self.used.append([t, self.steps[t], to])
        self.go(t, to)
        return True

    def unblock(self, lock):
        for i in range(self.n):
            if self.state[i] == "blocked" and self.wait[i] is lock:
                self.state[i] = "ready"


YIELD = ctypes.CFUNCTYPE(None, ctypes.c_char_p)


def after_calls(code):
    """Offsets of the instructions that follow a call: there the interpreter may hand over to another thread."""
    import dis
    out, prev = set(), False
    for i in dis.get_instructions(code):
        if prev and i.opname not in ("CACHE",):
            out.add(i.offset)
            prev = False
        if i.opname.startswith("CALL"):
            prev = True
    return out


def run_threads(spec):
    s = dict(ops.DEFAULTS)
    s.update(spec.get("set", {}))
    hm.settings.clear()
    hm.settings.update(s)
    hm.settings.update(cache=False)
    shared = {}
    prog = []
    for th in spec["threads"]:
        l = []
        for o in th:
            args, thunk = ops.prepare(o, {"shared": shared} if spec.get("share") else {})
            l.append((o, args, {k: ops.digest(v) for k, v in args.items()}, thunk))
        prog.append(l)
    hm.settings.clear()
    hm.settings.update(s)
    n = len(prog)
    sched = Sched(n, spec["sched"])
    outs = [[] for _ in range(n)]
    pst = ops.proc_state()

    def body(t):
        sched.ids[_thread.get_ident()] = t
        sched.locks[t].acquire()

        try:
            for o, args, before, thunk in prog[t]:
                out = {}
                try:
                    live[t] = True
                    try:
                        r = thunk()
                    finally:
                        live[t] = False
                    out["k"] = "ok"
                    out["v"] = ops.canon(r)
                except BaseException as e:
                    out["k"], out["t"], out["m"], out["b"] = "exc", type(e).__name__, str(e)[:300], not isinstance(e, Exception)
                if not spec.get("share"):
                    mut = [k for k in before if before[k] != ops.digest(args[k])]
                    if mut:
                        out["mut"] = mut
                outs[t].append(out)
        finally:
            if not sched.deadlock:
                sched.finish(t)

    live = [False]*n

    def line(code, lineno):
        t = sched.tid()
        if t is not None and live[t]:
            sched.point(t, code, lineno)
    if spec.get("fine"):     # also within a line, where the interpreter may switch: after calls
        aft = {}

        def instr(code, off):
            t = sched.tid()
            if t is not None and live[t]:
                if code not in aft:
                    aft[code] = after_calls(code)
                if off in aft[code]:
                    sched.mid += 1
                    sched.point(t, code, off, .001)

        MON.use_tool_id(TOOL + 1, "sim fine") if MON.get_tool(TOOL + 1) is None else None
        MON.register_callback(TOOL + 1, MON.events.INSTRUCTION, instr)
        for c in CODES["hermipy"]:
            MON.set_local_events(TOOL + 1, c, MON.events.INSTRUCTION)
    watch("all", MON.events.LINE, line)
    SHIM.sim_set_tick(ctypes.c_int64(0))

    def sysop(op):
        t = sched.tid()
        if t is not None and live[t]:
            sched.sys += 1
            sched.point(t, b"sys " + op, 0, .15)
    yielder = YIELD(sysop)
    if spec.get("sys"):
        SHIM.sim_set_yield(yielder)
    simlock.ACTIVE[0] = sched
    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    for t in ts:
        _thread.start_new_thread(t.run, ())
    while len(sched.ids) < n:
        _time_sleep()
    first = 0
    if sched.explicit is None:
        first = sched.rng.randrange(n)
        sched.used.append([-1, 0, first])
    else:
        first = sched.explicit.get((-1, 0), 0)
    sched.locks[first if first < n else 0].release()
    sched.main.acquire()
    simlock.ACTIVE[0] = None
    SHIM.sim_set_yield(None)
    if spec.get("fine"):
        MON.register_callback(TOOL + 1, MON.events.INSTRUCTION, None)
        for c in CODES["hermipy"]:
            MON.set_local_events(TOOL + 1, c, 0)
    SHIM.sim_set_tick(ctypes.c_int64(1000))
    unwatch("all", MON.events.LINE)
    out = {"k": "threads", "outs": outs, "used": {"sched": sched.used}, "steps": sched.total, "sys": sched.sys, "mid": sched.mid, "switches": len(sched.used), "trail": sched.trail}
    if sched.deadlock:
        out["deadlock"] = 1
    for t in prog:
        for o, args, before, thunk in t:
            mut = [k for k in before if before[k] != ops.digest(args[k])]
            if mut:
                out["mut"] = mut
    cfg = [k for k in s if hm.settings.get(k, "<gone>") != s[k]] + [k for k in hm.settings if k not in s]
    pst2 = ops.proc_state()
    cfg += [k for k in pst if pst[k] != pst2[k]]
    if cfg:
        out["cfg"] = cfg
    return out


def _time_sleep():
    import select
    select.select([], [], [], .0005)


# ---------------------------------------------------------------- interruption

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "TimeoutError": TimeoutError, "SystemExit": SystemExit,
       "RuntimeError": RuntimeError, "GeneratorExit": GeneratorExit, "OSError": OSError}


def run_interrupted(spec):
    it = spec["intr"]
    st = {"n": 0, "hit": None, "on": False}
    exc, at, scope, fine = EXC[it["exc"]], it["at"], it.get("scope", "all"), it.get("fine", False)

    after, ev0 = it.get("after", 0), [0]    # start counting at the after-th file operation of the call
    ev = MON.events.INSTRUCTION if fine else MON.events.LINE

    def step(code, where):
        if not st["on"]:
            return
        if after and SHIM.sim_events() - ev0[0] < after:
            return
        st["n"] += 1
        if st["n"] == at:
            st["on"] = False
            st["hit"] = "%s:%d" % (code.co_name, where if fine else where - code.co_firstlineno)
            raise exc("injected")

    def wrap(thunk):
        watch(scope, ev, step)
        ev0[0] = SHIM.sim_events()
        st["on"] = True
        try:
            return thunk()
        finally:
            st["on"] = False
            unwatch(scope, ev)
    out = ops.run({k: v for k, v in spec.items() if k != "intr"}, thunk_wrap=wrap)
    out["hit"], out["seen"] = st["hit"], st["n"]
    sys.last_value = None
    gc.collect()
    return out


def run_sweep(spec):
    """The same call interrupted again and again, at steps drawn evenly over the distinct places it
    passes (so that a place passed once is met as often as one passed a thousand times)."""
    sw = spec["sweep"]
    rng = random.Random(sw["seed"])
    sp = {k: v for k, v in spec.items() if k not in ("sweep", "steps")}
    ev = MON.events.INSTRUCTION if sw.get("fine") else MON.events.LINE
    scope = sw.get("scope", "all")
    steps = spec.get("steps")
    out = {"k": "sweep", "tries": []}
    if steps is None:
        sites, order = {}, []

        def see(code, where):
            if len(order) < 400000:
                order.append(sites.setdefault((id(code), where), len(sites)))

        def record(thunk):
            watch(scope, ev, see)
            try:
                return thunk()
            finally:
                unwatch(scope, ev)
        if sw.get("warm"):
            out["base"] = ops.run(sp)
        out["base"] = ops.run(sp, thunk_wrap=record)
        at = {}
        for i, s in enumerate(order):
            at.setdefault(s, []).append(i + 1)
        out["sites"] = len(sites)
        names = sorted(at)
        rng.shuffle(names)
        steps = []
        for s in names[:sw["n"]]:
            l = at[s]
            steps.append(rng.choice([l[0], l[0], l[-1], rng.choice(l)]))
        steps = [[k, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError", "OSError"]), int(rng.random() < .15)] for k in steps]
        if steps:
            steps[-1][2] = 1
    for k, exc, again in steps:
        o = run_interrupted(dict(sp, intr={"exc": exc, "at": k, "scope": scope, "fine": sw.get("fine", False)}))
        out["tries"].append([k, exc, o, ops.run(sp) if again else None])
    out["used"] = {"steps": steps}
    return out


# ---------------------------------------------------------------- statistics

TREE = {}


def make_tree_fns():
    def mk(name, module):
        def f(node, model):
            return tree_body(node, model)
        f.__name__ = f.__qualname__ = name
        f.__module__ = module
        return hstats.log_stats()(f)
    for n in ("alpha", "beta", "gamma"):
        TREE[n] = mk(n, "usermod")
    TREE["alpha@p"] = mk("alpha", "p.usermod")
    TREE["alpha@q"] = mk("alpha", "q.usermod")
    TREE["beta@p"] = mk("beta", "p")
    TREE["usermod"] = mk("usermod", "alpha")


class Boom(Exception):
    pass


TEXC = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "ValueError": ValueError, "StopIteration": StopIteration}


def tree_body(node, model):
    import time
    model["depth"] += 1
    try:
        for c in node["steps"]:
            if "sleep" in c:
                time.sleep(c["sleep"])
            elif "raise" in c:
                raise TEXC[c["raise"]]("x")
            elif "call" in c:
                try:
                    tree_call(c, model)
                except BaseException:
                    if not c.get("catch"):
                        raise
        return node.get("ret", 1)
    finally:
        model["depth"] -= 1


def tree_call(node, model):
    import time
    f = TREE[node["call"]]
    key = f.__name__ + "-" + f.__module__
    depth = model["depth"]
    model["enter"].append([depth, key])
    model["lines"].append(["E", depth, key])
    t0 = time.monotonic_ns()
    r = f(node, model)
    t1 = time.monotonic_ns()
    model["lines"].append(["F", depth, key, t1 - t0])
    m = model["stats"].setdefault(key, [0, 0, 0])
    m[0] += 1
    m[1] += t1 - t0          # upper bound
    return r


def snapshot():
    return {k: (int(v["Calls"]), float(v["Time"])) for k, v in hstats.stats.items()}


ENTER = re.compile(r"^( *)(\d+) Entering (\S+)$")


@contextlib.contextmanager
def struck(strike, out):
    """An exception (a signal handler's, a timeout's) arrives while the k-th reading of a clock is made."""
    import time
    names = ["perf_counter", "monotonic", "process_time", "thread_time", "time", "perf_counter_ns"]
    real = {k: getattr(time, k) for k in names}
    left = [strike["at"]]

    def wrap(f):
        def read():
            r = f()
            left[0] -= 1
            if left[0] == 0:
                out["struck"] = 1
                raise TEXC[strike["exc"]]("struck")
            return r
        return read
    for k in names:
        setattr(time, k, wrap(real[k]))
    try:
        yield
    finally:
        for k in names:
            setattr(time, k, real[k])


def run_stats(spec):
    """A tree of instrumented user functions, or a library call, with trails captured."""
    if not TREE:
        make_tree_fns()
    before = snapshot()
    old, buf = sys.stdout, io.StringIO()
    out = {"k": "ok", "enter": [], "lines": []}
    s = dict(ops.DEFAULTS)
    s.update(spec.get("set", {}))
    model = {"depth": 0, "enter": [], "stats": {}, "lines": []}
    sys.stdout = buf
    hstats.threshold = spec.get("threshold", 0)
    try:
        if "tree" in spec:
            hm.settings.clear()
            hm.settings.update(s)
            try:
                with struck(spec["strike"], out) if "strike" in spec else contextlib.nullcontext():
                    tree_call(spec["tree"], model)
            except BaseException as e:
                out["k"], out["t"], out["m"], out["b"] = "exc", type(e).__name__, "", not isinstance(e, Exception)
        else:
            out.update(ops.run({k: v for k, v in spec.items() if k != "stats"}))
    finally:
        sys.stdout = old
        hstats.threshold = 0
    after = snapshot()
    out["delta"] = {k: [after[k][0] - before.get(k, (0, 0))[0], after[k][1] - before.get(k, (0, 0))[1]] for k in after
                    if k not in before or after[k] != before[k]}
    out["gone"] = [k for k in before if k not in after]
    out["model"] = {k: model[k] for k in ("enter", "stats", "lines")}
    for l in buf.getvalue().splitlines():
        m = ENTER.match(l)
        if m:
            out["enter"].append([len(m.group(1)), int(m.group(2)), m.group(3)])
            out["lines"].append(["E", len(m.group(1)), m.group(3)])
        else:
            m = re.match(r"^( *)(\d+) Function (\S+): (\S+)$", l)
            if m:
                out["lines"].append(["F", len(m.group(1)), m.group(3), m.group(4)])
    old, buf = sys.stdout, io.StringIO()
    sys.stdout = buf
    try:
        hstats.print_stats()
    finally:
        sys.stdout = old
    shown = {}
    for k, c, t in re.findall(r"'([^']+)': Calls: (\d+), Time: (\S+)", buf.getvalue()):
        shown[k] = int(c), float(t)
    out["shown"] = {k: v for k, v in shown.items() if k not in after or v[0] != after[k][0] or abs(v[1] - after[k][1]) > 1e-3*(1 + v[1])}
    out["unshown"] = [k for k in after if k not in shown]
    return out


# ---------------------------------------------------------------- memory

HEAP = None


def heap_setup(h):
    global HEAP
    HEAP = ctypes.CDLL(None)
    for n in ("simheap_count", "simheap_live", "simheap_errors"):
        getattr(HEAP, n).restype = ctypes.c_long
    HEAP.simheap_report.restype = ctypes.c_char_p
    lo, hi = component_range()
    HEAP.simheap_setup(ctypes.c_ulong(lo), ctypes.c_ulong(hi), ctypes.c_int(h["fill"]), ctypes.c_ulong(h["seed"]), ctypes.c_int(h.get("reuse", 0)))
    HEAP.simheap_enable(1)


def component_range():
    import hermite_cpp
    name = os.path.realpath(hermite_cpp.__file__)
    lo, hi = 1 << 62, 0
    for l in open("/proc/self/maps"):
        if name in l:
            a, b = l.split()[0].split("-")
            lo, hi = min(lo, int(a, 16)), max(hi, int(b, 16))
    return lo, hi


def plain(spec):
    return {k: v for k, v in spec.items() if k != "alloc"}


def heap_errors():
    if HEAP.simheap_errors():
        return HEAP.simheap_report().decode()
    return ""


def settle():
    gc.collect()
    return HEAP.simheap_live()


def run_alloc(spec):
    """alloc: {"ks": [...] or {"n": m, "seed": s}, "persist": bool, "repeat": r}: fail the k-th allocation
    of the call, for several k; after each failure the call is made again with memory available."""
    a = spec["alloc"]
    sp = plain(spec)
    other = a.get("other")
    cold = None
    if a.get("cold"):     # the very first call meets the failure, before anything was built up
        HEAP.simheap_arm(ctypes.c_long(a["cold"]), ctypes.c_int(1 if a.get("persist") else 0))
        o = ops.run(sp)
        n = HEAP.simheap_count()
        HEAP.simheap_arm(ctypes.c_long(0), ctypes.c_int(0))
        cold = {"k": a["cold"], "outs": [o], "lives": [], "reached": n >= a["cold"]}
        cold["again"] = ops.run(sp)
    base = ops.run(sp)
    HEAP.simheap_arm(ctypes.c_long(0), ctypes.c_int(0))
    base = ops.run(sp)
    total = HEAP.simheap_count()
    ks = a["ks"]
    if isinstance(ks, dict):
        rng = random.Random(ks["seed"])
        ks = sorted(rng.sample(range(1, total + 1), min(total, ks["n"]))) if total else []
    tries = [cold] if cold else []
    for k in ks:
        lives, outs = [], []
        if other:
            ops.run(other)
        for r in range(a.get("repeat", 1)):
            HEAP.simheap_arm(ctypes.c_long(k), ctypes.c_int(1 if a.get("persist") else 0))
            o = ops.run(sp)
            n = HEAP.simheap_count()
            HEAP.simheap_arm(ctypes.c_long(0), ctypes.c_int(0))
            outs.append(o)
            del o
            lives.append(settle())
        again = ops.run(sp)
        tries.append({"k": k, "outs": outs, "lives": lives, "again": again, "reached": n >= k})
    out = {"k": "alloc", "base": base, "total": total, "tries": tries, "heap": heap_errors(), "used": {"alloc": dict(a, ks=ks)}}
    return out


def run_heap(spec):
    out = ops.run(spec)
    gc.collect()
    HEAP.simheap_check()
    out["blocks"] = HEAP.simheap_count()
    e = heap_errors()
    if e:
        out["heap"] = e
    return out


def run(spec):
    if "threads" in spec:
        return run_threads(spec)
    if "sweep" in spec:
        return run_sweep(spec)
    if "intr" in spec:
        return run_interrupted(spec)
    if "tree" in spec or "stats" in spec:
        return run_stats(spec)
    if "alloc" in spec:
        return run_alloc(spec)
    if HEAP is not None:
        return run_heap(spec)
    return ops.run(spec)
