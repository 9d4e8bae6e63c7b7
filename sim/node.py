"""Zygote and node processes: real hermipy, under the shim."""
import array
import ctypes
import gc
import json
import os
import pickle
import signal
import socket
import sys
import traceback


def send_big(sock, data):
    # SEQPACKET messages are bounded; split
    CH = 60000
    n = (len(data) + CH - 1) // CH
    sock.send(b"R%08d" % n)
    for i in range(n):
        sock.send(data[i*CH:(i+1)*CH])


def node_main(sock, cfg):
    import random
    import numpy as np
    import tempfile
    os.setsid()
    world = cfg["world"]
    os.chdir(world + "/" + cfg.get("cwd", "cwd"))
    os.environ["HOME"] = world + "/home"
    os.environ["SIM_CCMEMO"] = cfg["ccmemo"]
    os.environ["PATH"] = cfg["ccbin"] + ":/usr/bin:/bin"
    os.environ.pop("TMPDIR", None)
    for k, v in cfg.get("env", {}).items():
        os.environ[k] = v
    shim = ctypes.CDLL(None)
    shim.sim_attach(ctypes.c_int(sock.fileno()), world.encode(), ctypes.c_int(cfg["mode"]),
                    ctypes.c_int(cfg["vpid"]), ctypes.c_uint64(cfg["seed"]), cfg["ccbin"].encode())
    for k in ("SIM_FD", "SIM_MODE", "SIM_VPID", "SIM_SEED", "SIM_WORLD", "SIM_CCBIN"):
        os.environ[k] = {"SIM_FD": str(sock.fileno()), "SIM_MODE": str(cfg["mode"]), "SIM_VPID": str(cfg["vpid"]),
                         "SIM_SEED": str(cfg["seed"]), "SIM_WORLD": world, "SIM_CCBIN": cfg["ccbin"]}[k]
    if cfg.get("clock"):
        shim.sim_set_clock(ctypes.c_int64(cfg["clock"][0]), ctypes.c_int64(cfg["clock"][1]))
    ps = cfg["seed"] if cfg.get("pyseed") is None else cfg["pyseed"]
    random.seed(ps)
    np.random.seed(ps & 0x7fffffff)
    tempfile._name_sequence = None
    tempfile.tempdir = None
    import ops
    if cfg.get("counters"):
        ops.install_counters()
    extra = None
    if cfg.get("extra"):
        extra = __import__(cfg["extra"])
        extra.setup(cfg, shim)
    while True:
        msg = sock.recv(1 << 20)
        if not msg:
            os._exit(0)
        if msg[:1] == b"X":
            os._exit(0)
        req = json.loads(msg)
        try:
            if extra is not None and req.get("t") == "x":
                out = extra.run(req["spec"])
            else:
                out = ops.run(req["spec"])
        except BaseException:
            out = {"k": "harness", "m": traceback.format_exc()}
        send_big(sock, pickle.dumps(out))


def zygote_main(fd):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import numpy as np
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.linalg
    import sympy
    import tempfile, zipfile, uuid, shutil, subprocess, pdb, cmd, code, glob, random, hashlib, io, threading, contextlib  # noqa
    import numpy.lib.format  # noqa
    import encodings.idna, encodings.ascii, encodings.latin_1, encodings.cp437  # noqa
    import simlock
    simlock.install()
    import ops  # imports hermipy
    import xnode  # noqa
    # warm third-party code only (no hermipy call: nodes must be pristine)
    q = sympy.Symbol('q', real=True)
    sympy.ccode(sympy.exp(q)*q + q**2)
    sympy.simplify(q*q/q)
    b = io.BytesIO()
    np.save(b, np.zeros(3))
    b.seek(0)
    np.load(b)
    b = io.BytesIO()
    scipy.sparse.save_npz(b, scipy.sparse.eye(3, format="csr"))
    b.seek(0)
    scipy.sparse.load_npz(b)
    scipy.sparse.linalg.spsolve(scipy.sparse.eye(3, format="csr"), np.ones(3))
    scipy.sparse.linalg.eigs(np.diag(np.arange(1., 9.)), k=2)
    np.linalg.eig(np.eye(2)); np.linalg.solve(np.eye(2), np.ones(2)); np.linalg.norm(np.eye(2), 2)
    np.polynomial.hermite_e.hermegauss(4)
    sock = socket.socket(fileno=fd)
    gc.collect()
    gc.freeze()
    gc.disable()
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(dn, 2)
    sock.send(b"ready")
    while True:
        msg, fds, flags, addr = socket.recv_fds(sock, 1 << 20, 1)
        if not msg:
            os._exit(0)
        req = json.loads(msg)
        if req["cmd"] == "fork":
            pid = os.fork()
            if pid == 0:
                try:
                    sock.close()
                    s = socket.socket(fileno=fds[0])
                    # inheritable, out of the way of small descriptors
                    nfd = 700
                    os.dup2(s.fileno(), nfd, inheritable=True)
                    s.close()
                    s = socket.socket(fileno=nfd)
                    gc.enable()
                    node_main(s, req["cfg"])
                except BaseException:
                    try:
                        sys.stderr.write(traceback.format_exc())
                        sys.stderr.flush()
                    finally:
                        os._exit(97)
                os._exit(0)
            for f in fds:
                os.close(f)
            sock.send(str(pid).encode())
        elif req["cmd"] == "wait":
            try:
                _, st = os.waitpid(req["pid"], 0)
            except ChildProcessError:
                st = -1
            sock.send(str(st).encode())


if __name__ == "__main__":
    zygote_main(int(sys.argv[1]))
