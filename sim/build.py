"""Builds, from /repo's current tree, the extension module the nodes load, and the simulator's own C parts."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXXFLAGS = "-O3 -DNDEBUG -Ofast -std=gnu++14 -fPIC -w".split()


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit(3)
    return r.stdout


def atomic(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    sh([tmp if c == "@OUT" else c for c in cmd])
    os.replace(tmp, out)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build_ext():
    """hermite_cpp.so, compiled with the shipped flags; objects are cached by content."""
    src = os.path.join(REPO, "cpp", "src")
    cpps = sorted(glob.glob(os.path.join(src, "hermite", "**", "*.cpp"), recursive=True))
    heads = sorted(glob.glob(os.path.join(src, "hermite", "**", "*.h*"), recursive=True))
    hh = digest(*[os.path.relpath(h, src).encode() + b":" + read(h) for h in heads])
    inc = sysconfig.get_paths()["include"]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs, objs = [], []
    for c in cpps:
        o = os.path.join(BUILD, "obj", digest(hh, os.path.relpath(c, src), read(c), " ".join(CXXFLAGS)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((["g++", "-I" + src, "-isystem", inc, *CXXFLAGS, "-c", c, "-o", "@OUT"], o))
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: atomic(*j), jobs))
    lib = os.path.join(BUILD, "lib-" + digest(*objs))
    so = os.path.join(lib, "hermite_cpp.so")
    if not os.path.exists(so):
        os.makedirs(lib, exist_ok=True)
        pv = "%d%d" % sys.version_info[:2]
        libs = ["-lboost_python" + pv, "-lboost_numpy" + pv, "-lpython%d.%d" % sys.version_info[:2], "-ldl"]
        atomic(["g++", "-shared", "-o", "@OUT", *objs, *libs], so)
    return lib


def build_sim():
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "ccmemo"), exist_ok=True)
    out = {}
    for src, name, flags in (("shim.c", "shim", ["gcc", "-O1", "-shared", "-fPIC", "-w"]),
                             ("alloc.cpp", "alloc", ["g++", "-O1", "-shared", "-fPIC", "-w"])):
        p = os.path.join(VERIF, "sim", src)
        if not os.path.exists(p):
            continue
        o = os.path.join(BUILD, name + "-" + digest(read(p)) + ".so")
        if not os.path.exists(o):
            atomic([*flags, "-o", "@OUT", p, "-ldl", "-lpthread"], o)
        out[name] = o
    p = os.path.join(VERIF, "sim", "fakecc.c")
    d = os.path.join(BUILD, "bin-" + digest(read(p)))
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(d, "c++")):
        atomic(["gcc", "-O1", "-w", "-o", "@OUT", p, "-ldl"], os.path.join(d, "c++"))
    for n in ("g++", "gcc", "cc", "clang++", "clang"):
        q = os.path.join(d, n)
        if not os.path.lexists(q):
            try:
                os.symlink("c++", q)
            except FileExistsError:
                pass
    out["ccbin"] = d
    out["ccmemo"] = os.path.join(BUILD, "ccmemo")
    return out


def build_all():
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_ext), ex.submit(build_sim)
        paths = b.result()
        paths["lib"] = a.result()
    return paths


if __name__ == "__main__":
    print(build_all())
