"""The simulator: controller of nodes (real processes running real hermipy code),
one of which runs at any time; every file-system step, sleep, compiler step and
clock value goes through here.

One run is a pure function of (plan, decisions).  A plan fixes the nodes'
programs and their environment; decisions map a decision point
"node:op:attempt:event" to what the scheduler and the fault injector did there.
While exploring, decisions come from a policy driven by one PRNG and are
recorded (only those that differ from the default "go on"); while replaying,
they are read back.
"""
import errno
import hashlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import socket
import subprocess
import sys
import time

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")

V_GO, V_ERR, V_SPLIT, V_SHORT, V_KILL = range(5)
MODE_PASS, MODE_GATE = 1, 2

MUTATING = {"opentrunc", "openexcl", "openw", "write", "write2", "flush", "rename", "link", "unlink", "mkdir", "trunc", "chmod"}
ERRNOS = {
    "openr": ["EACCES", "EMFILE", "EIO"], "opentrunc": ["ENOSPC", "EACCES", "EMFILE", "EROFS"],
    "openexcl": ["ENOSPC", "EACCES", "EMFILE", "EDQUOT"], "openw": ["ENOSPC", "EACCES", "EMFILE"],
    "opendir": ["EACCES", "EMFILE"], "read": ["EIO"], "write": ["ENOSPC", "EIO", "EDQUOT"], "write2": ["ENOSPC", "EIO"],
    "flush": ["ENOSPC", "EIO"], "fsync": ["EIO", "ENOSPC"], "rename": ["EIO", "ENOSPC", "EACCES"], "link": ["EPERM", "ENOSPC"],
    "unlink": ["EACCES", "EIO"], "mkdir": ["ENOSPC", "EACCES"], "stat": ["EIO", "EACCES"], "trunc": ["EIO"],
    "dlopen": ["EIO"], "cc": ["EIO"], "system": ["EAGAIN", "ENOMEM"], "lock": ["ENOLCK"],
}


class HarnessError(Exception):
    pass


class Zygote:
    def __init__(self, paths, hashseed, preload=(), env=None):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        e = {"PYTHONHASHSEED": str(hashseed), "PATH": paths["ccbin"] + ":/usr/bin:/bin", "HOME": "/nonexistent",
             "SIM_REPO_DIR": REPO, "PYTHONPATH": paths["lib"] + ":" + REPO, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
             "MPLCONFIGDIR": paths["mpl"], "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
             "LD_PRELOAD": ":".join([paths["shim"], *preload])}
        if os.environ.get("SIM_STDERR"):
            e["SIM_STDERR"] = "1"
        e.update(env or {})
        self.proc = subprocess.Popen(["setarch", "-R", sys.executable, "-s", os.path.join(HERE, "node.py"), str(b.fileno())],
                                     env=e, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=None)
        b.close()
        self.sock = a
        self.hashseed = hashseed
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            self.sock.settimeout(240)
            if self.sock.recv(100) != b"ready":
                raise HarnessError("zygote failed to start (does hermipy import?)")
            self.sock.settimeout(None)
            self.ready = True

    def fork(self, cfg):
        self.wait_ready()
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 22)
        socket.send_fds(self.sock, [json.dumps({"cmd": "fork", "cfg": cfg}).encode()], [b.fileno()])
        b.close()
        pid = int(self.sock.recv(100))
        return a, pid

    def wait(self, pid):
        self.sock.send(json.dumps({"cmd": "wait", "pid": pid}).encode())
        return int(self.sock.recv(100))

    def close(self):
        try:
            self.sock.close()
            self.proc.kill()
            self.proc.wait()
        except Exception:
            pass


class Proc:
    """One incarnation of a node."""

    def __init__(self, zy, cfg):
        self.zy = zy
        self.sock, self.pid = zy.fork(cfg)
        self.alive = True

    def recv(self, timeout=90):
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r:
            return None
        try:
            return self.sock.recv(1 << 20)
        except ConnectionResetError:
            return b""

    def send(self, data):
        try:
            self.sock.send(data)
        except (BrokenPipeError, ConnectionResetError):
            pass

    def kill(self):
        if self.alive:
            for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
                try:
                    f()
                except (ProcessLookupError, PermissionError):
                    pass
            self.sock.close()
            self.alive = False
            return self.zy.wait(self.pid)

    def reap(self):
        """The process ended by itself; returns its status."""
        st = None
        try:
            os.killpg(self.pid, signal.SIGKILL) if False else None
        except ProcessLookupError:
            pass
        self.sock.close()
        self.alive = False
        st = self.zy.wait(self.pid)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        return st

    def result(self, head):
        n = int(head[1:])
        data = b""
        for _ in range(n):
            m = self.recv()
            if not m:
                raise HarnessError("truncated result")
            data += m
        return pickle.loads(data)


def status_text(st):
    if st is None or st < 0:
        return "unknown"
    if os.WIFSIGNALED(st):
        return "signal %d" % os.WTERMSIG(st)
    return "exit %d" % os.WEXITSTATUS(st)


# ---------------------------------------------------------------- comparison

def compare(ref, got, tol=1e-9):
    """None if equal, else a short description."""
    if ref[0] in ("num", "arr") and got[0] in ("num", "arr"):
        if tuple(ref[1]) != tuple(got[1]):
            return "shape %s instead of %s" % (tuple(got[1]), tuple(ref[1]))
        return cmp_num(ref[2], got[2], tol)
    if ref[0] != got[0]:
        return "kind %s instead of %s" % (got[0], ref[0])
    if ref[0] == "csr":
        if tuple(ref[1]) != tuple(got[1]):
            return "shape %s instead of %s" % (tuple(got[1]), tuple(ref[1]))
        return cmp_num(ref[2], got[2], tol)
    if ref[0] == "lit":
        return None if ref[1] == got[1] else "%r instead of %r" % (got[1], ref[1])
    if ref[0] == "obj":
        if ref[1] != got[1]:
            return "%s instead of %s" % (got[1], ref[1])
        for (a, x), (b, y) in zip(ref[2], got[2]):
            m = compare(x, y, tol)
            if m:
                return "%s.%s: %s" % (ref[1], a, m)
        return None
    if ref[0] == "seq":
        if len(ref[1]) != len(got[1]):
            return "length %d instead of %d" % (len(got[1]), len(ref[1]))
        for i, (x, y) in enumerate(zip(ref[1], got[1])):
            m = compare(x, y, tol)
            if m:
                return "[%d]: %s" % (i, m)
        return None
    if ref[0] == "map":
        if [k for k, _ in ref[1]] != [k for k, _ in got[1]]:
            return "keys differ"
        for (k, x), (_, y) in zip(ref[1], got[1]):
            m = compare(x, y, tol)
            if m:
                return "%s: %s" % (k, m)
        return None
    return "uncomparable"


def cmp_num(a, b, tol):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    if a.size == 0:
        return None
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return "not-a-number entries differ"
    ia, ib = np.isinf(a), np.isinf(b)
    if (ia != ib).any() or (ia.any() and (a[ia] != b[ib]).any()):
        return "infinite entries differ"
    ok = ~(na | ia)
    if not ok.any():
        return None
    with np.errstate(all="ignore"):
        scale = float(np.max(np.abs(a[ok])))
        d = np.where(ok, np.abs(np.where(ok, a, 0) - np.where(ok, b, 0)), 0)
    i = int(np.argmax(d))
    if float(d.flat[i]) > tol*scale + (1e-12 if tol else 0):
        return "entry %d is %.16g instead of %.16g" % (i, b.flat[i].real, a.flat[i].real)
    return None


def tol_of(spec):
    if spec.get("op") == "quad" and spec.get("m") in ("eigs",):
        return 1e-5
    if spec.get("op") == "quad" and spec.get("m") in ("solve", "pipeline"):
        return 1e-6
    if spec.get("op") == "user":
        return 0.
    if spec.get("op") == "call" and spec.get("m") == "solve":
        return 1e-6
    return 1e-9


# ---------------------------------------------------------------- power-loss model of the disk

class DiskModel:
    """What survives a power loss: file data up to its last fsync for certain, later
    data arbitrarily (all, none, a prefix, zeros, a beginning, all but one block, a block mix); directory changes in
    order, up to the last fsync for certain, any prefix of the rest."""

    def __init__(self, world, hidden):
        self.world, self.hidden = world, hidden
        os.makedirs(hidden, exist_ok=True)
        self.files = {}      # ino -> hidden path
        self.durable = {}    # ino -> bytes
        self.snaps = [self.scan()]

    def scan(self):
        ns = {}
        for base, dirs, files in os.walk(self.world):
            for d in dirs:
                ns[os.path.relpath(os.path.join(base, d), self.world)] = "dir"
            for f in files:
                p = os.path.join(base, f)
                try:
                    st = os.lstat(p)
                except FileNotFoundError:
                    continue
                if not os.path.isfile(p):
                    continue
                if st.st_ino not in self.files:
                    h = os.path.join(self.hidden, str(st.st_ino))
                    try:
                        os.link(p, h)
                    except FileNotFoundError:
                        continue
                    self.files[st.st_ino] = h
                ns[os.path.relpath(p, self.world)] = st.st_ino
        return ns

    def mutated(self):
        s = self.scan()
        if s != self.snaps[-1]:
            self.snaps.append(s)

    def synced(self, path):
        p = self.world + path
        try:
            st = os.lstat(p)
        except OSError:
            return
        if os.path.isfile(p) and st.st_ino in self.files:
            with open(p, "rb") as f:
                self.durable[st.st_ino] = f.read()
        self.snaps = [self.snaps[-1]]

    def power_loss(self, rng, keep_prefixes):
        """Rewrites the world to one state the disk may be found in. Returns a summary."""
        i = rng.randrange(len(self.snaps)) if rng.random() < .6 else len(self.snaps) - 1
        ns = self.snaps[i]
        out, note = {}, ["snapshot %d of %d" % (i, len(self.snaps) - 1)]
        for p in sorted(ns):
            if ns[p] == "dir":
                out[p] = None
                continue
            with open(self.files[ns[p]], "rb") as f:
                live = f.read()
            base = self.durable.get(ns[p])
            if base == live:
                out[p] = live
                continue
            kind = rng.choice(["live", "base", "zeros", "prefix", "mix", "tail", "tail", "hole", "hole"])
            b = base or b""
            if kind == "live":
                c = live
            elif kind == "base":
                c = b
            elif kind == "zeros":
                c = b[:len(live)] + b"\0"*(len(live) - len(b[:len(live)]))
            elif kind == "prefix":
                c = live[:rng.randrange(len(live) + 1)]
            elif kind == "tail":       # the beginning reached the disk
                k = 64*rng.randrange(1 + len(live)//64)
                c = live[:k] + (b[k:len(live)] + b"\0"*len(live))[:len(live) - k]
            elif kind == "hole":       # one piece did not
                k = 64*rng.randrange(1 + len(live)//64)
                c = live[:k] + (b[k:k+64] + b"\0"*64)[:len(live[k:k+64])] + live[k+64:]
            else:
                c = bytearray(live)
                for o in range(0, len(live), 64):
                    if rng.random() < .5:
                        c[o:o+64] = (b[o:o+64] + b"\0"*64)[:len(c[o:o+64])]
                c = bytes(c)
            note.append("%s: %s" % (p, kind))
            out[p] = c
        for d in os.listdir(self.world):
            full = os.path.join(self.world, d)
            for e in os.listdir(full):
                q = os.path.join(full, e)
                shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
        for p in sorted(out):
            top = p.split("/")
            full = os.path.join(self.world, p)
            if top[0] == "tmp" and len(top) > 1 and not any(p == k or p.startswith(k + "/") or k.startswith(p + "/") for k in keep_prefixes):
                continue   # /tmp is cleaned at boot, except the cache directories users put there
            if out[p] is None:
                os.makedirs(full, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "wb") as f:
                    f.write(out[p])
        shutil.rmtree(self.hidden)
        os.makedirs(self.hidden)
        self.files, self.durable = {}, {}
        ns = self.scan()
        for p, k in ns.items():
            if k != "dir":
                with open(os.path.join(self.world, p), "rb") as f:
                    self.durable[k] = f.read()
        self.snaps = [ns]
        return "; ".join(note)


# ---------------------------------------------------------------- policies

class Policy:
    """Seeded choice of schedule and faults.  cfg keys: switch (probability of a switch at
    an arbitrary step), hot (the same right after a mutating step), err/crash/power/split/
    short/kill (rates per eligible step), kinds (operations eligible for errors), max_faults,
    jump (clock jumps)."""

    def __init__(self, seed, cfg):
        self.rng = random.Random(seed)
        self.cfg = cfg
        self.left = cfg.get("max_faults", 3)
        self.sticky = 0
        self.sticky_errno = None

    def switch(self, run, ev, others):
        p = self.cfg.get("switch", 0)
        if ev and ev["prev"] in MUTATING:
            p = max(p, self.cfg.get("hot", 0))
        if ev and ev["op"] == "start":
            p = max(p, self.cfg.get("opswitch", .3))
        if others and self.rng.random() < p:
            return self.rng.choice(others)
        return None

    def fault(self, run, ev):
        c, r, op = self.cfg, self.rng, ev["op"]
        if op in ("lockwait", "start"):
            return {}
        d = {}
        if c.get("jump") and r.random() < c["jump"]:
            d["clock"] = r.choice([-3600, -86400*365, 3600, -1, 86400, -30, 86400*40, 86400*800])
        if self.sticky > 0 and op in MUTATING and op in ERRNOS:
            self.sticky -= 1
            d["err"] = self.sticky_errno
            return d
        if self.left > 0:
            hot = 3 if op in MUTATING or op == "fsync" else 1
            if c.get("crash") and r.random() < c["crash"]*hot:
                self.left -= 1
                d["crash"] = 1
                return d
            if c.get("power") and r.random() < c["power"]*hot:
                self.left -= 1
                d["power"] = r.randrange(1 << 30)
                return d
            if c.get("kill") and ev["child"] and r.random() < c["kill"]*hot:
                self.left -= 1
                d["kill"] = r.choice([1, 1, 2])      # 2: and the shell that runs it
                return d
            if c.get("err") and op in ERRNOS and (not c.get("kinds") or op in c["kinds"]) and r.random() < c["err"]*hot:
                self.left -= 1
                d["err"] = r.choice(ERRNOS[op])
                if c.get("sticky") and r.random() < c["sticky"]:
                    self.sticky, self.sticky_errno = r.randrange(2, 30), "ENOSPC"
                return d
        if op in ("write",) and ev["n"] > 1:
            if c.get("split") and r.random() < c["split"]:
                d["split"] = r.randrange(1 << 20)
            elif c.get("short") and r.random() < c["short"] and not ev["child"]:
                d["short"] = r.randrange(1 << 20)
        elif op == "read" and ev["n"] > 1 and c.get("short") and r.random() < c["short"]:
            d["short"] = 1 + r.randrange(max(1, min(ev["n"] - 1, 200)))
        return d


class Replay:
    def __init__(self, decisions):
        self.d = decisions

    def switch(self, run, ev, others):
        m = self.d.get(ev["key"], {}).get("sw") if ev else None
        return m if m in others else None

    def fault(self, run, ev):
        return {k: v for k, v in self.d.get(ev["key"], {}).items() if k != "sw"}


# ---------------------------------------------------------------- one run

class Violation(Exception):
    def __init__(self, cls, text):
        self.cls, self.text = cls, text
        super().__init__(text)


class Node:
    def __init__(self, idx, spec):
        self.idx, self.spec = idx, spec
        self.ops = spec["ops"]
        self.i = 0            # current op
        self.attempt = 0
        self.inc = 0          # incarnation
        self.proc = None
        self.state = "idle"   # idle (next op not sent) | parked | blocked | done
        self.ev = None        # event parked at
        self.e = 0            # event counter in this attempt
        self.faulted = False  # error injected in this attempt
        self.disturbed = False
        self.compiled = 0
        self.skey = None
        self.expect = False
        self.listing = None
        self.prev = None
        self.wake = 0


class Run:
    def __init__(self, eng, plan, policy):
        self.eng, self.plan, self.pol = eng, plan, policy
        self.decisions = {}
        self.h = hashlib.blake2b(digest_size=12)
        self.log = []
        self.events = 0
        self.stats = {"events": 0, "switches": 0, "crash": 0, "power": 0, "kill": 0, "split": 0, "short": 0, "clock": 0,
                      "ops": 0, "ops_exc_faulted": 0, "err": {}, "op_kinds": {}}
        self.history = []
        self.mono, self.wall = 1000000000, plan.get("clock0", 1700000000)*1000000000
        self.sig = hashlib.blake2b(digest_size=8)
        self.disk = None
        self.max_events = plan.get("max_events", 100000 if plan.get("x") else 20000)
        self.stored = {}       # call -> a completed, undisturbed call stored this result
        self.versions = {}     # call -> versions of the computation whose result may be stored
        self.probes = {}
        self.used = {}         # in-node schedules actually used, per op

    # -- helpers
    def note(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.log.append(line)
        self.h.update(line.encode() + b"\n")

    def key(self, n):
        o = n.ops[n.i].get("id", n.i) if n.i < len(n.ops) else "end"
        return "%d:%s:%d:%d" % (n.spec.get("id", n.idx), o, n.attempt, n.e)

    def decide(self, n, k, v):
        self.decisions.setdefault(self.key(n), {})[k] = v

    def start(self, n):
        sp = n.spec
        cfg = {"world": self.world, "mode": MODE_GATE, "vpid": sp.get("vpid", 1000 + 7*n.idx) + (0 if sp.get("pidreuse") else 101*n.inc),
               "seed": (self.plan["seed"]*1000003 + n.idx*7919 + n.inc*104729 + sp.get("rndsalt", 0)) & 0xffffffffffff,
               "ccbin": self.eng.paths["ccbin"], "ccmemo": self.eng.paths["ccmemo"], "cwd": sp.get("cwd", "cwd"),
               "pyseed": self.plan["seed"] & 0xffff if sp.get("samerandom") else None,
               "clock": [self.mono, self.wall], "counters": self.plan.get("counters", False), "env": sp.get("env", {})}
        if sp.get("nocc"):
            cfg["env"] = dict(cfg["env"], PATH="/nonexistent")
        if sp.get("extra"):
            cfg["extra"] = sp["extra"]
            cfg["xcfg"] = sp.get("xcfg", {})
        os.makedirs(os.path.join(self.world, cfg["cwd"]), exist_ok=True)
        n.proc = Proc(self.eng.zygote(sp.get("zy", 0), sp.get("zkind")), cfg)
        n.state = "idle"
        n.e = 0
        n.prev = None
        n.faulted = False

    def execute(self):
        self.world = self.eng.new_world()
        try:
            self.setup_world()
            if self.plan.get("disk"):
                self.disk = DiskModel(self.world, self.world + ".ino")
            self.nodes = [Node(i, s) for i, s in enumerate(self.plan["nodes"])]
            try:
                for n in self.nodes:
                    self.start(n)
                self.stamp()
                self.loop(self.nodes)
                for n in self.nodes:
                    if n.proc:
                        n.proc.kill()
                if self.disk and "endpower" in self.plan:
                    self.stats["power"] += 1
                    self.note("power loss after the last call")
                    self.power(None, self.plan["endpower"], self.nodes)
                self.after()
                if self.plan.get("epilogue"):
                    self.epilogue()
            finally:
                for n in self.nodes:
                    if n.proc:
                        n.proc.kill()
        finally:
            self.eng.drop_world(self.world)

    def setup_world(self):
        for p, c in self.plan.get("files", {}).items():
            full = self.world + p
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(bytes.fromhex(c))

    def stamp(self):
        """What the simulator itself wrote dates from this simulated moment."""
        for d, _, files in os.walk(self.world):
            for f in [d] + [os.path.join(d, f) for f in files]:
                os.utime(f, ns=(self.wall, self.wall), follow_symlinks=False)

    def after(self):
        pass

    def runnable(self, nodes):
        return [n.idx for n in nodes if n.state in ("idle", "parked") and n.state != "done"]

    def loop(self, nodes, faults=True):
        cur = nodes[0]
        first = True
        while True:
            ready = [n for n in nodes if n.state in ("idle", "parked")]
            if not ready:
                blocked = [n for n in nodes if n.state == "blocked"]
                if not blocked:
                    return
                sl = [n for n in blocked if n.wake]
                if sl:   # discrete-event time: jump to the next wake-up
                    n = min(sl, key=lambda n: (n.wake, n.idx))
                    self.mono = max(self.mono, n.wake)
                    n.state, n.wake = "parked", 0
                    continue
                raise Violation("deadlock", "no node can make progress: all wait for locks (%s)" % ", ".join(n.ev["p"] for n in blocked))
            if cur.state not in ("idle", "parked"):
                cur = ready[0]
            others = [n.idx for n in ready if n is not cur]
            ev = cur.ev if cur.state == "parked" else {"op": "start", "prev": None, "key": self.key(cur)}
            if faults and others:
                m = self.pol.switch(self, ev, others)
                if m is not None:
                    self.decisions.setdefault(ev["key"], {})["sw"] = m
                    self.stats["switches"] += 1
                    cur = [n for n in nodes if n.idx == m][0]
            self.step(cur, nodes, faults)
            for n in nodes:
                if n.state == "blocked" and not n.wake and n is not cur:
                    n.state = "parked"

    def step(self, n, nodes, faults):
        self.sig.update(b"%d" % n.idx)
        if n.state == "idle":
            if n.i >= len(n.ops):
                n.state = "done"
                return
            spec = n.ops[n.i]
            if "ctl" in spec:
                self.control(n, spec, nodes)
                n.i += 1
                n.e = 0
                return
            if n.proc is None or not n.proc.alive:
                self.start(n)
            n.faulted = bool(n.spec.get("nocc"))
            n.disturbed = n.faulted
            n.compiled = 0
            n.prev = None
            n.e = 0
            n.skey = self.store_key(spec, n)
            if spec.get("set", {}).get("cache"):
                self.versions.setdefault(self.version_key(spec), set()).add(spec.get("version", 0))
            n.expect = n.skey is not None and n.skey in self.stored
            n.listing = self.listing(spec) if len(nodes) == 1 and (n.expect or not self.caching(spec)) else None
            self.note("start", n.idx, n.i, n.attempt)
            n.proc.send(json.dumps({"t": "x" if n.spec.get("extra") else "op", "spec": spec}).encode())
            n.t0 = self.events
        else:
            ev = n.ev
            d = self.pol.fault(self, ev) if faults and not n.ops[n.i].get("calm") else {}
            verdict = "0 0"
            if d:
                for k, v in d.items():
                    self.decide(n, k, v)
            if "clock" in d:
                self.wall += d["clock"]*1000000000
                self.stats["clock"] += 1
                self.note("clock", n.idx, d["clock"])
            if "crash" in d:
                self.stats["crash"] += 1
                self.note("crash", n.idx, ev["op"], ev["p"])
                n.proc.kill()
                n.proc = None
                self.mutation(ev)
                self.restart(n)
                return
            if "power" in d:
                self.stats["power"] += 1
                self.note("power", n.idx, ev["op"], ev["p"])
                self.power(n, d["power"], nodes)
                return
            if "err" in d:
                n.faulted = n.disturbed = True
                self.stored.clear()
                k = ev["op"] + ":" + d["err"]
                self.stats["err"][k] = self.stats["err"].get(k, 0) + 1
                verdict = "%d %d" % (V_ERR, getattr(errno, d["err"]))
            elif "kill" in d and ev["child"]:
                n.faulted = n.disturbed = True
                self.stats["kill"] += 1
                verdict = "%d %d" % (V_KILL, d["kill"] - 1)
            elif "split" in d:
                self.stats["split"] += 1
                verdict = "%d %d" % (V_SPLIT, d["split"])
            elif "short" in d:
                self.stats["short"] += 1
                verdict = "%d %d" % (V_SHORT, d["short"])
            self.mono += 1000
            self.wall += 1000
            self.note("go", n.idx, verdict)
            n.proc.send(("%s %d %d" % (verdict, self.mono, self.wall)).encode())
            n.prev = ev["op"]
        self.pump(n)

    def pump(self, n):
        """Let node n run until it parks, completes its op, or dies."""
        while True:
            m = n.proc.recv(self.plan.get("timeout", 60))
            if m is None:
                self.eng.stuck += 1
                raise Violation("hang", "op %s of node %d makes no progress" % (json.dumps(n.ops[n.i])[:300], n.idx))
            if m == b"":
                st = n.proc.reap()
                n.proc = None
                t = status_text(st)
                if t == "signal 9" and not self.plan.get("allow_kill9"):
                    raise HarnessError("node killed from outside (memory?)")
                if t == "exit 97" or t == "exit 99":
                    raise HarnessError("node harness failure " + t)
                self.note("death", n.idx, t)
                self.finish(n, {"k": "dead", "m": t})
                return
            if m[:1] == b"R":
                out = n.proc.result(m)
                if out.get("k") == "harness":
                    raise HarnessError(out["m"])
                if n.ev is not None and n.prev:
                    self.mutation(n.ev)
                n.ev = None
                self.finish(n, out)
                return
            f = m.decode("utf-8", "replace").split("\x1f")
            if n.prev and n.ev is not None:
                self.mutation(n.ev)
            child = f[0] == "C"
            n.e += 1
            self.events += 1
            self.stats["events"] += 1
            op = f[1]
            if op == "stat" and f[2] == "/tmp/.cc-step":
                op = "cc"
            ev = {"op": op, "p": f[2], "q": f[3], "n": int(f[4]), "child": child, "prev": n.prev, "key": self.key(n),
                  "pret": int(f[5]), "perr": int(f[6])}
            self.mono = max(self.mono, int(f[7]))
            if op in ("system", "cc"):
                n.compiled += 1
            self.stats["op_kinds"][op] = self.stats["op_kinds"].get(op, 0) + 1
            self.note("ev", n.idx, n.i, n.e, op, f[2], f[3], f[4], "prev", f[5], f[6])
            self.sig.update(op.encode())
            n.ev = ev
            if self.events > self.max_events:
                raise Violation("livelock", "more than %d steps without completing" % self.max_events)
            if op == "lockwait":
                n.state = "blocked"
            elif op == "sleep":
                n.state = "blocked"
                n.wake = self.mono + ev["n"]
            else:
                n.state = "parked"
            return

    def mutation(self, ev):
        if self.disk is None or ev is None:
            return
        if ev["op"] in MUTATING:
            self.disk.mutated()
        elif ev["op"] == "fsync":
            self.disk.mutated()
            self.disk.synced(ev["p"])

    def restart(self, n):
        n.attempt += 1
        n.inc += 1
        n.ev = None
        n.proc = None
        n.state = "idle"
        n.e = 0
        n.prev = None
        if n.attempt > 40:
            raise Violation("livelock", "op never completes")

    def power(self, n, seed, nodes):
        for m in nodes:
            if m.proc:
                m.proc.kill()
                m.proc = None
        self.disk.mutated()
        self.stored.clear()
        t = self.disk.power_loss(random.Random(seed), self.plan.get("cachedirs", []) + self.plan.get("keep", []))
        self.note("disk after power loss:", t)
        for d in ("tmp", "cwd", "home"):
            os.makedirs(self.world + "/" + d, exist_ok=True)
        self.stamp()
        for m in nodes:
            if m.state != "done":
                if m.state != "idle" or m is n:
                    self.restart(m)
                else:
                    m.inc += 1

    def control(self, n, spec, nodes):
        c = spec["ctl"]
        self.note("ctl", n.idx, json.dumps(spec, sort_keys=True))
        if c == "restart":
            if n.proc:
                n.proc.kill()
            n.proc = None
            n.inc += 1
            if "zy" in spec:
                n.spec = dict(n.spec, zy=spec["zy"])
            self.wall += spec.get("later", 0)*1000000000
        elif c == "wipe_tmp":
            shutil.rmtree(self.world + "/tmp")
            os.makedirs(self.world + "/tmp")
            self.stored.clear()
            self.stamp()
        elif c == "damage":     # outdated or damaged stored results
            self.damage(spec)

    def damage(self, spec):
        rng = random.Random(spec["seed"])
        d = self.world + spec["dir"]
        self.stored.clear()
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            p = os.path.join(d, f)
            if os.path.isfile(p) and re.fullmatch(spec.get("only", ".*"), f) and rng.random() < spec.get("p", .7):
                b = open(p, "rb").read()
                how = rng.choice(spec.get("how", ["trunc", "empty", "garbage"]))
                b = b[:rng.randrange(max(1, len(b)))] if how == "trunc" else b"" if how == "empty" else bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300)))
                os.remove(p)
                open(p, "wb").write(b)
        self.stamp()

    def finish(self, n, out):
        spec = n.ops[n.i]
        self.stats["ops"] += 1
        rec = {"node": n.idx, "op": n.i, "attempt": n.attempt, "t0": n.t0, "t1": self.events, "k": out["k"], "faulted": n.faulted,
               "inc": n.inc}
        dg = hashlib.blake2b(repr(canon_digest(out)).encode(), digest_size=8).hexdigest()
        self.note("end", n.idx, n.i, out["k"], out.get("t", ""), dg)
        self.history.append(rec)
        if out.get("used"):
            self.used[(n.spec.get("id", n.idx), spec.get("id"))] = out["used"]
        if out["k"] == "exc" and n.faulted:
            self.stats["ops_exc_faulted"] += 1
        self.check_op(n, spec, out, rec)
        n.state = "idle"
        n.i += 1
        n.attempt = 0
        n.e = 0
        if n.proc is None:
            n.inc += 1

    # -- oracle
    def caching(self, spec):
        c = spec.get("set", {}).get("cache", False)
        return spec.get("kw", {}).get("cache", c)

    def cachedir(self, spec, n):
        d = spec.get("set", {}).get("cachedir", ".cache")
        return d if d.startswith("/") else "/" + n.spec.get("cwd", "cwd") + "/" + d

    def store_key(self, spec, n):
        """Identity of a call whose result is stored (None: not one the library stores)."""
        st = spec.get("set", {})
        if not st.get("cache") or "cache" in spec.get("kw", {}) or spec.get("noreuse") or not self.plan.get("reuse"):
            return None
        return json.dumps([self.eng.ref_key(spec), self.cachedir(spec, n)], sort_keys=True)

    def version_key(self, spec):
        # calls that are equal as calls may be written differently (array layouts): one key per function
        return spec.get("fn", spec.get("m", ""))

    def listing(self, spec):
        out = {}
        for d in self.plan.get("cachedirs", []):
            full = os.path.join(self.world, d)
            if not os.path.isdir(full):
                out[d] = None
            for base, dirs, files in os.walk(full):
                out[base[len(self.world):] + "/"] = None
                for f in files:
                    with open(os.path.join(base, f), "rb") as h:
                        out[os.path.join(base, f)[len(self.world):]] = hashlib.blake2b(h.read(), digest_size=8).hexdigest()
        return out

    def check_op(self, n, spec, out, rec):
        where = "node %d op %d" % (n.idx, n.i)
        vs = self.versions.setdefault(self.version_key(spec), set())
        ver = spec.get("version", 0)
        excused = False
        if not self.caching(spec) and out["k"] == "exc" and not out.get("b") and vs - {ver}:
            # a stored result really differs from what is computed now
            excused = True
            self.probes["difference reported"] = self.probes.get("difference reported", 0) + 1
        if not excused:
            judge(self.eng, spec, out, n.faulted, where)
        if n.expect and out["k"] == "ok" and not n.disturbed:
            self.probes["reuse checked"] = self.probes.get("reuse checked", 0) + 1
            if out["count"] or out["calls"] or n.compiled:
                raise Violation("recomputed", "%s: an identical call was completed and stored before, yet this one computes again (%s): %s"
                                % (where, ", ".join(sorted(set(out["count"]) | set(out["calls"]) | ({"compiler"} if n.compiled else set()))), short(spec)))
            if n.listing is not None and self.listing(spec) != n.listing:
                raise Violation("rewritten", "%s: an identical call was completed and stored before, yet this one changes the directory (%s): %s"
                                % (where, diff_listing(n.listing, self.listing(spec)), short(spec)))
        if not self.caching(spec) and not n.faulted and self.plan.get("counters"):
            ref = self.eng.reference(spec, counters=True)
            if ref["k"] == "ok" and out["k"] == "ok" and (out["count"] != ref["count"] or out["calls"] != ref["calls"]):
                raise Violation("not computed", "%s: caching is off, yet the computation did not run as in a fresh process (%s instead of %s): %s"
                                % (where, dict(out["count"], **out["calls"]), dict(ref["count"], **ref["calls"]), short(spec)))
        if n.listing is not None and not spec.get("set", {}).get("cache") and self.listing(spec) != n.listing:
            raise Violation("stored", "%s: caching is off, yet the cache directory changed (%s): %s"
                            % (where, diff_listing(n.listing, self.listing(spec)), short(spec)))
        if n.skey is not None and out["k"] == "ok" and not n.disturbed:
            self.stored[n.skey] = 1
        if n.disturbed:
            self.stored.pop(n.skey, None)

    def epilogue(self):
        """Faults have stopped: a fresh process must get everything right."""
        n = Node(len(self.nodes), {"ops": self.plan["epilogue"], "zy": self.plan.get("ezy", 1)})
        self.nodes.append(n)
        self.start(n)
        self.loop([n], faults=False)
        n.proc and n.proc.kill()
        n.proc = None


def canon_digest(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes())
    if isinstance(x, dict):
        return [(k, canon_digest(x[k])) for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [canon_digest(e) for e in x]
    return x


def contiguous(x):
    """The same call with every array stored contiguously."""
    if isinstance(x, dict):
        return {k: contiguous(v) for k, v in x.items() if not (k == "layout" and v in ("F", "T", "slice", "rows", "cut", "neg", "ro"))}
    if isinstance(x, list):
        return [contiguous(e) for e in x]
    return x


def diff_listing(a, b):
    return "; ".join(["+" + k for k in sorted(b) if k not in a] + ["-" + k for k in sorted(a) if k not in b]
                     + ["~" + k for k in sorted(a) if k in b and a[k] != b[k]])[:300]


def short(spec, n=400):
    return json.dumps(spec, sort_keys=True)[:n]


def judge(eng, spec, out, faulted, where):
    if out["k"] == "dead":
        raise Violation("death", "%s: the process died (%s) during %s" % (where, out["m"], short(spec)))
    ref = eng.reference(spec)
    if out.get("cfg"):
        raise Violation("state", "%s: process or library state changed (%s) by %s" % (where, out["cfg"], short(spec)))
    if out.get("mut"):
        raise Violation("mutation", "%s: arguments modified (%s) by %s" % (where, out["mut"], short(spec)))
    if ref["k"] == "dead":
        raise Violation("death", "%s: a pristine process dies (%s) during %s" % (where, ref["m"], short(spec)))
    if out["k"] == "exc":
        if spec.get("must_raise") and not out.get("b"):
            return
        if faulted and not out.get("b"):
            return
        if ref["k"] == "exc":
            return
        raise Violation("exception", "%s: %s: %s raised by %s" % (where, out["t"], out["m"], short(spec)))
    if ref["k"] == "exc" and not spec.get("must_raise"):
        raise Violation("value", "%s: returned a value although the call is invalid (fresh process: %s): %s" % (where, ref["t"], short(spec)))
    if spec.get("must_raise"):
        raise Violation("value", "%s: a value was returned for a request that cannot be served: %s" % (where, short(spec)))
    m = compare(ref["v"], out["v"], tol_of(spec))
    if m:
        raise Violation("value", "%s: wrong result (%s) of %s" % (where, m, short(spec)))


# ---------------------------------------------------------------- engine

class Engine:
    HASHSEEDS = [0, 4242, 99991]

    def __init__(self, paths, wid=0):
        self.paths = paths
        self.zys = {}
        self.refs = {}
        self.base = "/dev/shm/hsim-%d-%d" % (os.getpid(), wid)
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.paths = dict(paths, mpl=self.base + "/mpl")
        os.makedirs(self.paths["mpl"])
        self.stuck = 0

    def zygote(self, i, kind=None):
        k = (i % len(self.HASHSEEDS), kind)
        if k not in self.zys:
            pre = [self.paths["alloc"]] if kind == "alloc" else []
            self.zys[k] = Zygote(self.paths, self.HASHSEEDS[k[0]], pre)
        return self.zys[k]

    def prewarm(self, ks):
        for k in ks:
            self.zygote(*k) if isinstance(k, tuple) else self.zygote(k)
        for z in self.zys.values():
            z.wait_ready()

    def new_world(self, name="w"):
        w = self.base + "/" + name
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + ".ino", ignore_errors=True)
        for d in ("tmp", "cwd", "home"):
            os.makedirs(w + "/" + d)
        return w

    def drop_world(self, w):
        if os.environ.get("SIM_KEEP"):
            return
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + ".ino", ignore_errors=True)

    def ref_key(self, spec):
        s = dict(spec)
        st = dict(s.get("set", {}))
        for k in ("cache", "cachedir"):
            st.pop(k, None)
        s["set"] = st
        for k in ("scribble", "fam", "noreuse", "keep", "calm", "id", "intr", "sweep", "steps", "alloc", "stats"):
            s.pop(k, None)
        if "kw" in s and "cache" in s["kw"]:
            s["kw"] = {k: v for k, v in s["kw"].items() if k != "cache"}
        return s

    def reference(self, spec, counters=False):
        s = self.ref_key(spec)
        if not counters and s.get("op") in ("core", "call", "quad"):
            s = contiguous(s)      # values do not depend on how an array lies in memory
        k = json.dumps(s, sort_keys=True) + ("#" if counters else "")
        if k not in self.refs:
            if len(self.refs) > 20000:
                self.refs.clear()
            self.refs[k] = self.isolated(s, counters=counters)
        return self.refs[k]

    def isolated(self, spec, zy=0, **kw):
        """The op alone, in a pristine process and an empty world, no gates, no faults."""
        w = self.new_world("r")
        p = None
        try:
            cfg = {"world": w, "mode": MODE_PASS, "vpid": 4321, "seed": 77, "ccbin": self.paths["ccbin"], "ccmemo": self.paths["ccmemo"]}
            cfg.update(kw)
            p = Proc(self.zygote(zy), cfg)
            p.send(json.dumps({"t": "x" if cfg.get("extra") else "op", "spec": spec}).encode())
            m = p.recv(120)
            if m is None:
                return {"k": "dead", "m": "hang"}
            if m == b"":
                st = p.reap()
                p = None
                return {"k": "dead", "m": status_text(st)}
            out = p.result(m)
            if out.get("k") == "harness":
                raise HarnessError(out["m"])
            return out
        finally:
            if p:
                p.kill()
            self.drop_world(w)

    def close(self):
        for z in self.zys.values():
            z.close()
        shutil.rmtree(self.base, ignore_errors=True)
