"""Execution of operation specs inside a node (real hermipy code).

A spec is plain JSON; run(spec) builds every argument from scratch, makes the
public call, and returns an outcome dict:
  {"k": "ok", "v": canonical value}          the call returned
  {"k": "exc", "t": type name, "m": message} the call raised
plus "mut" (names of arguments that changed during the call) and "cfg"
(settings or process state that changed during the call).
"""
import builtins
import ctypes
import hashlib
import os
import re
import sys
import warnings

import numpy as np
import scipy.sparse as ss
import sympy

import matplotlib.font_manager  # noqa: F401  (reads the font list once, before the simulation starts)
import hermipy as hm
import hermipy.core as core
import hermipy.lib as hlib
import hermipy.stats as hstats
import hermipy.cache as hcache
import hermipy.compquad as hcomp
import hermipy.equations as heq
import hermite_cpp as hm_cpp

DEFAULTS = {'cache': False, 'cachedir': '.cache', 'debug': False,
            'sparse': False, 'tensorize': True, 'trails': False}

# ---------------------------------------------------------------- values


def build(v, env):
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    if isinstance(v, list):
        return [build(e, env) for e in v]
    (k, d), = v.items()
    if k == "arr":
        return buffer(build_arr(d), env)
    if k == "csr":
        a = build_arr({x: d[x] for x in d if x not in ("density", "dseed")})
        mask = np.random.RandomState(d.get("dseed", 7)).rand(*a.shape) < d.get("density", .3)
        return ss.csr_matrix(a * mask)
    if k == "csrlit":
        return ss.csr_matrix((np.array(d["data"], float), (d["row"], d["col"])), shape=tuple(d["shape"]))
    if k == "lit":
        a = np.array(d["v"], dtype=d.get("dtype", "f8"))
        return a.reshape(d["shape"]) if "shape" in d else a
    if k == "tuple":
        return tuple(build(e, env) for e in d)
    if k == "fs":
        return frozenset(build(e, env) for e in d)
    if k == "dict":
        return {hashable(build(a, env)): build(b, env) for a, b in d}
    if k == "sym":
        return sympy.sympify(d)
    if k == "symf":
        return sympy.Float(float(d))*sympy.Symbol("x")
    if k == "symr":
        return sympy.Symbol(d, real=True) + 1
    if k == "masked":
        return np.ma.array(np.arange(1., 1. + len(d)), mask=d)
    if k == "matrix":
        return np.matrix(build_arr(d)) if isinstance(d, dict) else np.matrix(d, float)
    if k == "view":
        return build(d[0], {}).view(d[1])
    if k == "transposed":
        return build(d, {}).T
    if k == "symx":
        return sympy.sympify(d[0], locals={n: sympy.Symbol(n, **kw) for n, kw in d[1].items()})
    if k == "bytes":
        return d.encode()
    if k == "objarr":
        r = np.empty(len(d), object)
        r[:] = [build(e, env) for e in d]
        return r
    if k == "struct":
        return np.array([(1., 2.)], dtype=[(n, c) for n, c in d])
    if k == "complex":
        return complex(*d)
    if k == "float":
        return float(d)
    if k == "np":
        return getattr(np, d[0])(d[1])
    if k == "nodes":
        return hlib.hermegauss_nd(d)[0]
    if k == "weights":
        return hlib.hermegauss_nd(d)[1]
    if k == "nodesarr":
        return np.asarray(hlib.hermegauss_nd(d)[0], float)
    if k == "weightsarr":
        return np.asarray(hlib.hermegauss_nd(d)[1], float)
    if k == "fnodes":
        return np.array([-np.pi + 2*np.pi*np.arange(n)/n for n in d])
    if k == "fweights":
        return np.array([2*np.pi/n*np.ones(n) for n in d])
    if k == "expr":
        return fun(d)
    if k == "ax":
        from matplotlib.figure import Figure
        return Figure().subplots()
    if k in OBJECTS:
        if "shared" not in env:
            return OBJECTS[k](d, env)
        # the caller keeps its objects and arrays, and overwrites array contents in place
        inplace = "buf" in env
        key = repr((k, {a: b for a, b in d.items() if a not in ("c", "m")} if inplace else d))
        if inplace and k in ("series", "varf"):      # one object per place in the call
            i = env["bufn"].get(key, 0)
            env["bufn"][key] = i + 1
            key += "#%d" % i
        if key not in env["shared"]:
            env["shared"][key] = OBJECTS[k](d, env)
        o = env["shared"][key]
        if not inplace:
            return o
        if k == "series":
            c = build(d["c"], {})
            if o.coeffs.shape == c.shape and o.coeffs.dtype == c.dtype and o.coeffs.flags.writeable:
                o.coeffs[:] = c
            else:
                o = env["shared"][key] = OBJECTS[k](d, env)
        elif k == "varf":
            m = build(d["m"], {})
            if isinstance(o.matrix, np.ndarray) and isinstance(m, np.ndarray) and o.matrix.shape == m.shape and o.matrix.dtype == m.dtype:
                o.matrix[:] = m
            else:
                o = env["shared"][key] = OBJECTS[k](d, env)
        return o
    raise KeyError(k)


def buffer(a, env):
    """In keep mode the caller fills one long-lived array per shape, type and place in the call."""
    if "buf" not in env or a.ndim == 0 or not a.flags.writeable:
        return a
    k = (a.shape, a.dtype.str, a.flags.c_contiguous)
    i = env["bufn"].get(k, 0)
    env["bufn"][k] = i + 1
    b = env["buf"].setdefault((k, i), a)
    if b is not a:
        b[...] = a
    return b


def _series(d, env):
    q = quad_of(d["quad"], env)
    return hm.Series(build(d["c"], {}), q.position, factor=q.factor, index_set=d.get("set", "triangle"))


def _varf(d, env):
    q = quad_of(d["quad"], env)
    return hm.Varf(build(d["m"], {}), q.position, factor=q.factor, index_set=d.get("set", "triangle"))


def _equation(d, env):
    import hermipy.equations as eq
    cls = getattr(eq, d["cls"])
    return cls


OBJECTS = {
    "quad": lambda d, env: quad_of(d, env),
    "series": _series,
    "varf": _varf,
    "function": lambda d, env: hm.Function(fun(d["e"]), dirs=list(d["dirs"])),
    "operator": lambda d, env: opr(d["e"], d["dirs"]),
    "pos": lambda d, env: hm.Position(**{k: build(v, {}) for k, v in d.items()}),
    "comp": lambda d, env: hcomp.CompQuad([quad_of(q, env) for q in d["quads"]], list(d["w"])),
}


def hashable(x):
    return tuple(x) if isinstance(x, list) else x


def build_arr(d):
    shape = tuple(d["shape"])
    rs = np.random.RandomState(d.get("seed", 0) & 0x7fffffff)
    n = int(np.prod(shape)) if shape else 1
    dist = d.get("dist", "normal")
    if dist == "normal":
        a = rs.standard_normal(n)
    elif dist == "zeros":
        a = np.zeros(n)
    elif dist == "int":
        a = rs.randint(-5, 6, n).astype(float)
    elif dist == "range":
        a = np.arange(n, dtype=float)
    elif dist == "const":
        a = np.full(n, float(d.get("c", 1.)))
    elif dist == "dom":       # well conditioned square matrix
        a = .1*rs.standard_normal(n)
        a = (a.reshape(shape) + 3*np.eye(shape[0])).ravel()
    elif dist == "tiny":
        a = 1e-9*rs.standard_normal(n)
    elif dist == "huge":
        a = 1e9*rs.standard_normal(n)
    else:
        raise KeyError(dist)
    for m in d.get("mods", []):
        if m[0] == "set":
            a[m[1] % n] = m[2]
        elif m[0] == "add":
            a[m[1] % n] += m[2]
        elif m[0] == "neg":
            a[m[1] % n] *= -1
        elif m[0] == "swap":
            i, j = m[1] % n, m[2] % n
            a[i], a[j] = a[j], a[i]
        elif m[0] == "scale":
            a *= m[1]
        elif m[0] == "nan":
            a[m[1] % n] = np.nan
        elif m[0] == "rev":
            a = a[::-1].copy()
    a = a.reshape(shape)
    if d.get("dtype"):
        a = a.astype(d["dtype"])
    lay = d.get("layout")
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "T":
        a = np.ascontiguousarray(a.T).T
    elif lay == "slice":
        big = np.zeros(tuple(2*s for s in a.shape))
        sl = tuple(slice(0, None, 2) for _ in a.shape)
        big[sl] = a
        a = big[sl]
    elif lay == "rows":     # every second row of a larger matrix
        big = np.full((2*a.shape[0],) + a.shape[1:], 1e30).astype(a.dtype)
        big[::2] = a
        a = big[::2]
    elif lay == "cut":      # the leading part of longer rows
        big = np.full(a.shape[:-1] + (a.shape[-1] + 3,), -1e30).astype(a.dtype)
        big[..., :a.shape[-1]] = a
        a = big[..., :a.shape[-1]]
    elif lay == "neg":      # stored in reverse order
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif lay == "ro":
        a.setflags(write=False)
    elif lay == "tr":       # the transposed matrix, as a view (memory order differs)
        a = a.T
    return a


def digest(x, depth=0):
    """Deep digest of an argument, to detect mutation."""
    h = hashlib.md5()

    def rec(x, depth):
        if isinstance(x, np.ndarray):
            h.update(b"A" + str(x.shape).encode() + str(x.dtype).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, ss.csr_matrix):
            h.update(b"S" + str(x.shape).encode())
            for y in (x.data, x.indices, x.indptr):
                h.update(np.ascontiguousarray(y).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b"L%d" % len(x))
            for y in x:
                rec(y, depth + 1)
        elif isinstance(x, dict):
            h.update(b"D%d" % len(x))
            for k in x:
                rec(k, depth + 1)
                rec(x[k], depth + 1)
        elif isinstance(x, (set, frozenset)):
            for y in sorted(map(repr, x)):
                h.update(y.encode())
        elif type(x).__module__.startswith("matplotlib"):
            h.update(b"plot")
        elif isinstance(x, (hm.Quad, hm.Series, hm.Varf, hm.Position, hm.Function, hm.Operator, hcomp.CompQuad)) and depth < 6:
            h.update(type(x).__name__.encode())
            for k in sorted(vars(x)):
                if k.startswith("_"):
                    continue
                h.update(k.encode())
                rec(vars(x)[k], depth + 1)
        else:
            h.update(repr(x).encode())
    rec(x, depth)
    return h.hexdigest()


def canon(x):
    """Canonical, picklable, implementation independent form of a result."""
    if x is None or isinstance(x, str):
        return ("lit", x)
    if isinstance(x, (bool, np.bool_)):
        return ("num", (), np.array(float(x)))
    if isinstance(x, (int, float, complex, np.number)):
        return ("num", (), np.array(x, dtype=complex if isinstance(x, (complex, np.complexfloating)) else float))
    if isinstance(x, np.matrix):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biuf":
            return ("arr", x.shape, np.ascontiguousarray(x).astype(float))
        if x.dtype.kind == "c":
            return ("arr", x.shape, np.ascontiguousarray(x).astype(complex))
        return ("seq", [canon(list(x.shape))] + [canon(e) for e in x.ravel().tolist()])
    if ss.issparse(x):
        d = np.asarray(x.todense())
        return ("csr", x.shape, d.astype(complex if d.dtype.kind == "c" else float))
    if isinstance(x, hm.Series):
        return ("obj", "Series", [("dirs", canon(list(x.position.dirs))), ("set", ("lit", x.index_set)), ("deg", canon(int(x.degree))),
                                  ("c", canon(x.coeffs)), ("mean", canon(x.position.mean)), ("cov", canon(x.position.cov)),
                                  ("factor", ("lit", str(x.factor)))])
    if isinstance(x, hm.Varf):
        return ("obj", "Varf", [("dirs", canon(list(x.position.dirs))), ("set", ("lit", x.index_set)), ("deg", canon(int(x.degree))),
                                ("m", canon(x.matrix)), ("mean", canon(x.position.mean)), ("cov", canon(x.position.cov)),
                                ("factor", ("lit", str(x.factor)))])
    if isinstance(x, hm.Quad):
        return ("obj", "Quad", [("dirs", canon(list(x.position.dirs))), ("n", canon(x.nodes)), ("w", canon(x.weights)),
                                ("mean", canon(x.position.mean)), ("cov", canon(x.position.cov)), ("factor", ("lit", str(x.factor)))])
    if isinstance(x, (hm.Function, hm.Operator)):
        return ("lit", str(x))
    if isinstance(x, hm.Position):
        return ("obj", "Position", [("dirs", canon(list(x.dirs))), ("mean", canon(x.mean)), ("cov", canon(x.cov)), ("types", canon(list(x.types))),
                                    ("factor", canon(x.factor)), ("diag", canon(bool(x.is_diag)))])
    if isinstance(x, hcomp.CompQuad):
        return ("obj", "CompQuad", [("quads", canon(list(x.quads))), ("w", canon(list(x.qweights)))])
    if type(x).__name__ == "Line2D":
        return canon(np.asarray(x.get_xydata()))
    if type(x).__module__.startswith("matplotlib"):
        return ("lit", type(x).__name__)
    if isinstance(x, (set, frozenset)):
        return ("lit", repr(sorted(repr(sorted(e)) if isinstance(e, frozenset) else repr(e) for e in x)))
    if isinstance(x, sympy.Basic):
        return ("lit", str(x))
    if isinstance(x, (list, tuple)):
        return ("seq", [canon(e) for e in x])
    if isinstance(x, dict):
        return ("map", sorted((str(k), canon(x[k])) for k in x))
    return ("lit", re.sub(" at 0x[0-9a-f]+", "", repr(x)))

# ---------------------------------------------------------------- user functions
# Functions a user would decorate with the cache.  They are pure; each execution
# of a body is counted (and may be told to misbehave by the spec).


def plain(x):
    """A printable form that differs whenever two arguments differ (equal numbers are one argument)."""
    if isinstance(x, np.ma.MaskedArray):
        return ("masked", plain(x.data), plain(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return (type(x).__name__, str(x.dtype), x.shape, [plain(e) for e in x.ravel().tolist()] if x.dtype.hasobject else x.tolist())
    if ss.issparse(x):
        return ("csr", x.shape, x.data.tolist(), x.indices.tolist(), x.indptr.tolist())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(e) for e in x])
    if isinstance(x, frozenset):
        return ("fs", sorted(repr(plain(e)) for e in x))
    if isinstance(x, dict):
        return ("dict", sorted((repr(plain(k)), plain(v)) for k, v in x.items()))
    if isinstance(x, sympy.Basic):
        return ("sym", sympy.srepr(x))
    if isinstance(x, (int, float)):
        if x == x and abs(x) != float("inf") and x == int(x) and repr(x) != "-0.0":
            return ("num", int(x))
        return ("num", repr(float(x)))
    return (type(x).__name__, repr(x))


COUNT = {}
VERSION = [0]


def _count(name):
    COUNT[name] = COUNT.get(name, 0) + 1


def make_user():
    @hm.cache()
    def user_scale(a, c):
        _count("user_scale")
        return np.asarray(a, float)*c + VERSION[0]

    @hm.cache()
    def user_norm(a, p=2):
        _count("user_norm")
        return float(np.sum(np.abs(np.asarray(a, float))**p)) + VERSION[0]

    @hm.cache()
    def user_ident(a, b=None, c="u"):
        _count("user_ident")
        s = repr((a, b, c)).encode()
        return float(int(hashlib.md5(s).hexdigest()[:10], 16)) + VERSION[0]

    @hm.cache()
    def user_sparse(m, c=1.):
        _count("user_sparse")
        return ss.csr_matrix(m)*c + ss.eye(m.shape[0], format="csr")*VERSION[0]

    @hm.cache()
    def user_cube(a):
        _count("user_cube")
        a = np.asarray(a, float)
        return a[:, None, None]*a[None, :, None]*a[None, None, :] + VERSION[0]

    @hm.cache()
    def user_complex(a, c=1.):
        _count("user_complex")
        a = np.asarray(a, float)
        return complex(a.sum()*c, (a*a).sum()) + VERSION[0]

    @hm.cache()
    def user_mat(a):
        _count("user_mat")
        return np.outer(np.asarray(a, float).ravel(), np.arange(3.)) + VERSION[0]

    @hm.cache()
    def user_int(a):
        _count("user_int")
        return int(np.sum(np.asarray(a)))*3 + 2**60 + VERSION[0]

    @hm.cache()
    def user_nan(a):
        _count("user_nan")
        r = np.asarray(a, float).copy()
        r[0] = np.nan
        return r + VERSION[0]

    @hm.cache()
    def user_sym(e, n):
        _count("user_sym")
        return float(sympy.sympify(e).subs({s: n for s in sympy.sympify(e).free_symbols})) + VERSION[0]

    @hm.cache(hash_extend=lambda a: "obj-" + str(a.tag))
    def user_obj(o, a):
        _count("user_obj")
        return np.asarray(a, float)*o.tag + VERSION[0]

    @hm.cache(quiet=True)
    def user_quiet(a, c=0):
        _count("user_quiet")
        return np.asarray(a, float) + c + VERSION[0]

    @hm.cache()
    def user_pair(a, b):
        _count("user_pair")
        return (np.asarray(a, float) + b, float(b))

    @hm.cache()
    def user_set(s):
        _count("user_set")
        return float(len(s)) + sum(float(len(str(e))) for e in s) + VERSION[0]

    @hm.cache()
    def user_dict(d):
        _count("user_dict")
        return np.array([float(v) for k, v in sorted(d.items())]) + VERSION[0]

    @hm.cache()
    def user_kind(k, a):
        _count("user_kind")
        v = VERSION[0]
        a = np.asarray(a, float) + v
        t = float(np.sum(a*np.arange(1, a.size + 1)))
        return {
            "bool": lambda: a > 0, "int": lambda: np.round(a*7).astype(int), "f4": lambda: a.astype("f4"), "c16": lambda: a + 1j*a**2, "c8": lambda: (a + 1j*a**2).astype("c8"),
            "empty": lambda: np.zeros(0), "empty2": lambda: np.zeros((0, 3)), "one": lambda: a[:1]*2, "one2": lambda: a[:1].reshape(1, 1)*3, "zero": lambda: 0.*v + v,
            "neg": lambda: -abs(t) - .5, "nan": lambda: float("nan"), "inf": lambda: float("inf"), "npf": lambda: np.float64(t), "npf4": lambda: np.float32(t),
            "npbool": lambda: np.bool_(t > 0), "pybool": lambda: bool(t > 0), "npint": lambda: np.int64(round(t*9)), "csrzero": lambda: ss.csr_matrix((3, 3)) + v*ss.eye(3, format="csr"),
            "csrcomplex": lambda: ss.csr_matrix(np.diag(a + 2j)), "csrint": lambda: ss.csr_matrix(np.diag(np.round(a*7).astype(int))), "csrrect": lambda: ss.csr_matrix(np.outer(a, [1., 0., 2.])),
            "csrunsorted": lambda: ss.csr_matrix((a[:3].copy(), np.array([2, 0, 1]), np.array([0, 2, 3, 3])), shape=(3, 3)), "big": lambda: np.repeat(a, 900) + np.arange(900*a.size)*1e-3,
            "fortran": lambda: np.asfortranarray(np.outer(a, [1., 2., 3.])), "strided": lambda: np.outer(a, [1., 2., 3.])[:, ::2], "cubearr": lambda: np.multiply.outer(np.outer(a, a), a),
            "negzero": lambda: -0. if not v else float(v), "u1": lambda: (np.abs(a*9) % 250).astype("u1"), "bigint": lambda: 2**62 + int(round(t)), "tiny": lambda: 1e-300*t,
            "csrnan": lambda: ss.csr_matrix(np.array([[t, np.nan], [0., 1.]])), "csrinf": lambda: ss.csr_matrix(np.array([[t, np.inf], [-np.inf, 1.]])),
            "csrexplicit": lambda: ss.csr_matrix((np.array([0., t, 0.]), np.array([0, 1, 2]), np.array([0, 1, 2, 3])), shape=(3, 3)),
            "csrwide": lambda: ss.csr_matrix((np.array([t, 2.]), np.array([0, 1]), np.array([0, 1, 2])), shape=(2, 9)), "csrf4": lambda: ss.csr_matrix(np.diag(a).astype("f4")),
            "csrtail": lambda: ss.csr_matrix((np.array([t]), np.array([0]), np.array([0, 1, 1, 1])), shape=(3, 3)), "c16nan": lambda: np.array([complex(np.nan, t), 1j]),
            "matnan": lambda: np.array([[t, np.nan], [np.inf, -np.inf]]), "npc": lambda: np.complex128(t + 2j), "f2": lambda: (a*3).astype("f2"), "i2": lambda: np.round(a*50).astype("i2"),
            "complexnan": lambda: complex(t, float("nan")), "big2": lambda: np.outer(np.arange(90.), np.arange(95.)) + t, "csrbig": lambda: ss.csr_matrix(np.diag(np.arange(1., 700.)*(abs(t) + 1))),
            "zerod": lambda: np.array(t), "be": lambda: a.astype(">f8"), "denorm": lambda: a*1e-310, "hugef": lambda: a*1e300,
            "complexreal": lambda: complex(t, 0.), "vec1": lambda: np.array([t]), "csr1": lambda: ss.csr_matrix(np.array([[t]])),
            "str": lambda: "s%r" % t, "none": lambda: None, "list": lambda: [t, 2.], "tuple": lambda: (a*2, t), "obj": lambda: np.array([None, t], dtype=object),
            "strarr": lambda: np.array(["a", "b%r" % t]), "csc": lambda: ss.csc_matrix(np.diag(a)), "coo": lambda: ss.coo_matrix(np.diag(a)), "matrix": lambda: np.matrix(np.diag(a)),
            "hugeint": lambda: 2**80 + int(round(t)), "dict": lambda: {"t": t},
        }[k]()

    @hm.cache()
    def user_any(*args, **kw):
        _count("user_any")
        s = repr(("args", [plain(a) for a in args], sorted((k, plain(v)) for k, v in kw.items()))).encode()
        return float(int(hashlib.md5(s).hexdigest()[:10], 16)) + VERSION[0]

    @hm.cache()
    def user_opt(a, power=2, shift=.5, mode="up", w=None, flag=True):
        _count("user_opt")
        r = np.asarray(a, float)**power + shift
        return (r if mode == "up" else -r)*(2. if w is None else np.sum(w)) + (10. if flag else 0.) + VERSION[0]

    @hm.cache()
    def user_fail(a):
        _count("user_fail")
        raise ArithmeticError("user failure %r" % (a,))
    return {k: v for k, v in locals().items()}


# functions that share a name, in several modules, classes and functions
SAME = '''
@hm.cache()
def user_same(x):
    _count("user_same")
    return x*FACTOR + VERSION[0]


class K:
    @staticmethod
    @hm.cache()
    def user_same(x):
        _count("user_same")
        return x*FACTOR*10 + VERSION[0]


class L:
    @staticmethod
    @hm.cache()
    def user_same(x):
        _count("user_same")
        return x*FACTOR*100 + VERSION[0]


def outer():
    @hm.cache()
    def user_same(x):
        _count("user_same")
        return x*FACTOR*1000 + VERSION[0]
    return user_same
'''


def make_same():
    out = {}
    for i, m in enumerate(("usera", "userb", "pkg.usera")):
        ns = {"__name__": m, "hm": hm, "_count": _count, "VERSION": VERSION, "FACTOR": i + 2.5}
        exec(compile(SAME, m.replace(".", "/") + ".py", "exec"), ns)
        for k, f in (("top", ns["user_same"]), ("K", ns["K"].user_same), ("L", ns["L"].user_same), ("in", ns["outer"]())):
            out["user_same_%d%s" % (i, k)] = f
    return out


USER = make_user()
USER.update(make_same())


class Tagged:
    def __init__(self, tag):
        self.tag = tag


# ---------------------------------------------------------------- counting computations
CALLS = {}
COUNTED = ["discretize", "integrate", "transform", "inner", "varf", "varf_sp", "varfd", "project",
           "tensorize", "tensorize_sp"]


def install_counters():
    for name in COUNTED:
        f = getattr(hm_cpp, name, None)
        if f is None:
            continue

        def wrap(*a, _f=f, _n=name, **k):
            CALLS[_n] = CALLS.get(_n, 0) + 1
            return _f(*a, **k)
        setattr(hm_cpp, name, wrap)


# ---------------------------------------------------------------- operations

def quad_of(q, env):
    if "shared" in env:
        k = repr(q)
        if k not in env["shared"]:
            env["shared"][k] = quad_of(q, {})
        return env["shared"][k]
    k = q["kind"]
    kw = {}
    for name in ("mean", "cov", "dirs", "factor", "dim"):
        if name in q:
            kw[name] = build(q[name], env)
    if "factor" in kw and isinstance(kw["factor"], str):
        kw["factor"] = sympy.sympify(kw["factor"], locals={str(s): s for s in hm.Function.xyz})
    if k == "gh":
        return hm.Quad.gauss_hermite(q["n"], **kw)
    if k == "nc":
        return hm.Quad.newton_cotes(q["n"], q["ext"], **kw)
    if k == "fourier":
        if "bounds" in q:
            kw["bounds"] = [tuple(b) for b in q["bounds"]]
        return hm.Quad.fourier(q["n"], **kw)
    if k == "prod":
        a, b = quad_of(q["a"], env), quad_of(q["b"], env)
        return a*b
    raise KeyError(k)


def fun(s):
    return sympy.sympify(s, locals={str(x): x for x in hm.Function.xyz})


def prepare(spec, env):
    """Returns (args to watch, thunk)."""
    op = spec["op"]
    if op == "core":
        f = getattr(core, spec["fn"])
        args = [build(a, env) for a in spec.get("args", [])]
        kw = {k: build(v, env) for k, v in spec.get("kw", {}).items()}
        kwin = {k: v for k, v in kw.items()}
        return {"args": args, "kw": kwin}, lambda: f(*args, **kw)
    if op == "user":
        f = USER[spec["fn"]]
        args = [build(a, env) for a in spec.get("args", [])]
        if spec["fn"] == "user_obj":
            args[0] = Tagged(args[0])
        kw = {k: build(v, env) for k, v in spec.get("kw", {}).items()}

        def go():
            VERSION[0] = spec.get("version", 0)
            return f(*args, **kw)
        return {"args": args[1:] if spec["fn"] == "user_obj" else args, "kw": {k: v for k, v in kw.items()}}, go
    if op == "quad":
        q = quad_of(spec["quad"], env)
        m = spec["m"]
        kw = {k: build(v, env) for k, v in spec.get("kw", {}).items()}
        w = {"quad": q}
        if m == "discretize":
            f = fun(spec["f"])
            return w, lambda: q.discretize(f)
        if m == "discretize_c":
            return w, lambda: core.discretize(spec["f"], q.nodes, q.position.mean, q.position.factor)
        if m == "integrate":
            f = fun(spec["f"]) if isinstance(spec["f"], str) else build(spec["f"], env)
            w["f"] = f
            return w, lambda: q.integrate(f, **kw)
        if m == "integrate_series":
            f = hm.Series(build(spec["f"], env), q.position, factor=q.factor)
            w["f"] = f
            return w, lambda: q.integrate(f, **kw)
        if m == "norm":
            f = build(spec["f"], env)
            w["f"] = f
            return w, lambda: q.norm(f, **kw)
        if m == "transform":
            f = fun(spec["f"]) if isinstance(spec["f"], str) else build(spec["f"], env)
            w["f"] = f
            return w, lambda: q.transform(f, spec["degree"], **kw)
        if m == "eval":
            c = build(spec["c"], env)
            s = hm.Series(c, q.position, factor=q.factor, **kw)
            w["s"] = s
            return w, lambda: q.eval(s)
        if m in ("varf", "varfd"):
            f = fun(spec["f"]) if isinstance(spec["f"], str) else build(spec["f"], env)
            w["f"] = f
            if m == "varf":
                return w, lambda: q.varf(f, spec["degree"], **kw)
            return w, lambda: q.varfd(f, spec["degree"], spec["dirs"], **kw)
        if m == "op":
            o = opr(spec["f"], spec["dirs"])
            return w, lambda: q.discretize_op(o, spec["degree"], **kw)
        if m == "solve":
            o = opr(spec["f"], spec["dirs"])
            v = q.discretize_op(o, spec["degree"], **kw)
            s = q.transform(fun(spec["g"]), spec["degree"], index_set=kw.get("index_set", "triangle"))
            w.update(v=v, s=s)
            return w, lambda: v.solve(s, **spec.get("skw", {}))
        if m == "eigs":
            o = opr(spec["f"], spec["dirs"])
            v = q.discretize_op(o, spec["degree"], **kw)
            w.update(v=v)
            return w, lambda: sorted(np.real(v.eigs(**spec.get("skw", {}))[0]).tolist())
        if m == "pipeline":
            o = opr(spec["f"], spec["dirs"])

            def pipe():
                v = q.discretize_op(o, spec["degree"], **kw)
                s = q.transform(fun(spec["g"]), spec["degree"], index_set=kw.get("index_set", "triangle"))
                r = v(s)
                e = q.eval(r)
                return [v, s, r, e, q.integrate(fun(spec["g"])), q.norm(e)]
            return w, pipe
        if m == "series_ops":
            c = build(spec["c"], env)
            s = hm.Series(c, q.position, factor=q.factor, **kw)
            w["s"] = s

            def sops():
                out = [s*2., s + s, s - s*3., -s, s/2.]
                if q.position.dim > 1:
                    out += [s.project(d) for d in q.position.dirs]
                    out.append(s.project(q.position.dirs[0])*s.project(q.position.dirs[1]))
                out.append(s*s)
                out.append(s.subdegree(max(s.degree - 1, 1)))
                out.append(s.subdegree(s.degree + 1))
                return out
            return w, sops
        if m == "project":
            return w, lambda: [q.project(d) for d in q.position.dirs]
        if m == "series_sig":
            c = build(spec["c"], env)
            w["c"] = c
            return w, lambda: hm.Series(c, q.position, significant=spec["sig"])
        raise KeyError(m)
    if op == "call":
        args = [build(a, env) for a in spec.get("args", [])]
        kw = {k: build(v, env) for k, v in spec.get("kw", {}).items()}
        w = {"args": args, "kw": dict(kw)}
        if "obj" in spec:
            o = build(spec["obj"], env)
            w["obj"] = o
            f = getattr(o, spec["m"])
        else:
            f = CALLS_BY_NAME[spec["m"]]
        return w, lambda: f(*args, **kw)
    if op == "sleep":
        import time
        return {}, lambda: time.sleep(spec["s"])
    if op == "bad":
        return prepare_bad(spec, env)
    raise KeyError(op)


def _symf(x):
    return {s: fun(str(e)) if isinstance(e, str) else e for s, e in x.items()}


def _build_equation(name, method, over, arg=None):
    cls = getattr(heq, name)
    p = cls.params() if arg is None and hasattr(cls, "params") else cls.params(arg) if hasattr(cls, "params") and arg is not None else {}
    p = dict(p)
    for k, e in over.items():
        p[k] = sympy.sympify(e, locals={str(v): v for v in hm.Function.xyz})
    r = getattr(cls, method)(p)
    return r


def _ivec(b):
    v = hm_cpp.int_vec()
    v.extend(b)
    return v


CALLS_BY_NAME = {
    "finest_common": lambda a, b: hlib.finest_common({frozenset(x) for x in a}, {frozenset(x) for x in b}),
    "cross_in_triangle": hlib.cross_in_triangle,
    "hermegauss_nd": hlib.hermegauss_nd,
    "triple_products": core.triple_products,
    "triple_products_fourier": core.triple_products_fourier,
    "Quad.gauss_hermite": lambda *a, **k: hm.Quad.gauss_hermite(*a, **k),
    "Quad.newton_cotes": lambda *a, **k: hm.Quad.newton_cotes(*a, **k),
    "Quad.fourier": lambda *a, **k: hm.Quad.fourier(*a, **k),
    "Quad.tensorize": lambda l: hm.Quad.tensorize(l),
    "Series.tensorize": lambda l: hm.Series.tensorize(l),
    "Varf.tensorize": lambda l, **k: hm.Varf.tensorize(l, **k),
    "Function.tensorize": lambda l: hm.Function.tensorize(l),
    "Function.sanitize": lambda e: hm.Function.sanitize(e),
    "Position.tensorize": lambda l: hm.Position.tensorize(l),
    "equation": _build_equation,
    "map_operator": lambda e, g: heq.map_operator(opr(e, [0]).as_xyz(), sympy.Function('f')(hm.Function.xyz[0]), fun(g)),
    "cpp_bmat": lambda a: hm_cpp.to_numpy(hm_cpp.to_bmat(a)),
    "cpp_boost": lambda a: hm_cpp.to_numpy(hm_cpp.to_boost_mat(a)),
    "cpp_mat": lambda a: hm_cpp.to_numpy(hm_cpp.to_mat(a)),
    "cpp_sp": lambda a: core.to_csr(hm_cpp.to_spmat(hm_cpp.to_mat(a))),
    "cpp_full": lambda a: hm_cpp.to_numpy(hm_cpp.full(core.convert_to_cpp_sparse(a))),
    "cpp_sparse": lambda a: core.to_csr(core.convert_to_cpp_sparse(a)),
    "cpp_rcv": lambda a: np.array([list(r) for r in hm_cpp.row_col_val(core.convert_to_cpp_sparse(a))]),
    "cpp_cube": lambda b: np.array([list(m) for m in hm_cpp.list_cube_indices(_ivec(b))]),
    "cpp_empty": lambda k, rows, dim, st: _cpp_empty(k, rows, dim, st),
    "cpp_vec": lambda a: core.to_numpy(core.to_cpp(a)),
    "cpp_tp": lambda n: np.array([[list(r) for r in m] for m in hm_cpp.triple_products(n)]),
    "cpp_keep": lambda a, b: (lambda x, y: [hm_cpp.to_numpy(x), hm_cpp.to_numpy(y)])(hm_cpp.to_boost_mat(a), hm_cpp.to_mat(b)),
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a*b,
    "truediv": lambda a, b: a/b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
    "neg": lambda a: -a,
    "apply": lambda a, b: a(b),
    "item": lambda a, i: a[i],
    "Operator.zero": lambda: hm.Operator(0),
    "to_csr": core.to_csr,
    "float": float,
    "str": str,
    "repr": repr,
    "sum": lambda l: sum(l[1:], l[0]),
    "seconds": lambda f, *a, **k: f(*a, **k)[0],
}


def _cpp_empty(k, rows, dim, st):
    """The compiled component with empty arguments."""
    m = hm_cpp.double_mat()
    for _ in range(rows):
        m.append(hm_cpp.double_vec())
    c = hm_cpp.double_cube()
    c.append(m)
    v = hm_cpp.double_vec()
    dirs = hm_cpp.int_mat()
    dirs.append(_ivec([0]))
    z = _ivec([0]*rows)
    r = {"numpy": lambda: hm_cpp.to_numpy(m), "spmat": lambda: core.to_csr(hm_cpp.to_spmat(m)), "project": lambda: hm_cpp.project(m, dim, 0, st), "projvec": lambda: hm_cpp.project(v, dim, 0, st),
         "projnone": lambda: hm_cpp.project(m, dim, _ivec([]), st), "tensid": lambda: hm_cpp.tensorize(m, dim, 0, st), "tensidsp": lambda: hm_cpp.tensorize_sp(m, dim, 0, st),
         "tensvec": lambda: hm_cpp.tensorize(v, dim, 0, st), "axes": lambda: hm_cpp.tensorize(c, st), "axessp": lambda: hm_cpp.tensorize_sp(c, st), "dirs": lambda: hm_cpp.tensorize(c, dirs, st),
         "discretize": lambda: hm_cpp.discretize("v[0]", m, v, m), "integrate": lambda: hm_cpp.integrate(v, m, m, z), "transform": lambda: hm_cpp.transform(dim, v, m, m, z, True, st),
         "back": lambda: hm_cpp.transform(dim, v, m, m, z, False, st), "varf": lambda: hm_cpp.varf(dim, v, m, m, z, st), "inner": lambda: hm_cpp.inner(v, v, _ivec(range(dim)), _ivec(range(dim)), st),
         "grid": lambda: hm_cpp.list_cube_indices(_ivec([0]*dim)), "index": lambda: getattr(hm_cpp, "cube_index" if dim else "triangle_index")(_ivec([]))}[k]()
    return type(r).__name__


def opr(s, dirs):
    x = [hm.Function.xyz[d] for d in dirs]
    f = sympy.Function('f')(*x)
    loc = {str(v): v for v in hm.Function.xyz}
    loc.update(f=f, d=sympy.diff)
    return hm.Operator(sympy.sympify(s, locals=loc), dirs=list(dirs)) if s != "0" else hm.Operator(0, dirs=list(dirs))


def prepare_bad(spec, env):
    return prepare(spec["spec"], env)


LIBC, LIBM = ctypes.CDLL(None), ctypes.CDLL("libm.so.6")
ENVIRON = ctypes.POINTER(ctypes.c_char_p).in_dll(LIBC, "environ")


def cstate():
    """The environment and the floating-point modes as compiled code sees them."""
    env, i = [], 0
    while ENVIRON and ENVIRON[i] is not None:
        env.append(ENVIRON[i])
        i += 1
    fenv = (ctypes.c_uint32*8)()
    LIBM.fegetenv(fenv)
    return hash(tuple(sorted(env))), fenv[0] & 0xffff, fenv[7] & 0xffc0


def proc_state():
    environ, x87, mxcsr = cstate()
    return {"cwd": os.getcwd(), "environ": hash(tuple(sorted(os.environ.items()))), "environ of C": environ, "err": repr((np.geterr(), np.geterrcall())),
            "floating-point modes": (x87, mxcsr),
            "filters": len(warnings.filters), "print": repr(np.get_printoptions()), "reclimit": sys.getrecursionlimit()}


SHARED, BUF = {}, {}
HELD = []      # results handed out earlier and still held by the caller, with their digests


def run_burst(spec):
    """Many calls that are reported together."""
    out, vals = {"k": "ok", "count": {}, "calls": {}}, []
    for sp in spec["specs"]:
        o = run(dict(sp, set=dict(sp.get("set", {}), **spec.get("set", {}))))
        vals.append(("seq", [("lit", o["k"]), o.get("v", ("lit", ""))]))
        for k in ("count", "calls"):
            for f, c in o[k].items():
                out[k][f] = out[k].get(f, 0) + c
        for k in ("mut", "cfg"):
            if o.get(k):
                out[k] = o[k]
    out["v"] = ("seq", vals)
    return out


def run(spec, env=None, thunk_wrap=None):
    if spec["op"] == "burst":
        return run_burst(spec)
    env = env or ({"shared": SHARED, "buf": BUF, "bufn": {}} if spec.get("keep") else {})
    if spec.get("keep"):
        HELD.clear()     # results may refer to the caller's own arrays
    s = dict(DEFAULTS)
    s.update(spec.get("set", {}))
    hm.settings.clear()
    hm.settings.update(s)
    out = {}
    COUNT.clear()
    CALLS.clear()
    try:
        # arguments are built with caching off, so that the measured call is the spec'd one
        hm.settings.update(cache=False)
        if spec.get("op") == "quad" and spec.get("m") in ("solve", "eigs") and s["cache"]:
            hm.settings.update(cache=True)
        watch, thunk = prepare(spec, env)
        hm.settings.clear()
        hm.settings.update(s)
        COUNT.clear()
        CALLS.clear()
        before = {k: digest(v) for k, v in watch.items()}
        pst = proc_state()
        try:
            r = thunk_wrap(thunk) if thunk_wrap else thunk()
            out["k"] = "ok"
            out["v"] = canon(r)
            if spec.get("scribble"):
                scribble(r)
            if spec.get("scribble", 0) > 1:     # and what it passed
                scribble(dict(watch))
            HELD.append((r, digest(r)))
            del HELD[:-6]
        finally:
            if any(d != digest(x) for x, d in HELD):
                out["mut"] = ["result of an earlier call"]
            after = {k: digest(v) for k, v in watch.items()}
            mut = [k for k in before if before[k] != after[k]]
            if mut and not spec.get("scribble"):
                out["mut"] = mut + out.get("mut", [])
            cfg = [k for k in s if hm.settings.get(k, "<gone>") != s[k]] + [k for k in hm.settings if k not in s]
            pst2 = proc_state()
            cfg += [k for k in pst if pst[k] != pst2[k]]
            if cfg:
                out["cfg"] = cfg
    except BaseException as e:
        out["k"] = "exc"
        out["t"] = type(e).__name__
        out["m"] = str(e)[:300]
        out["b"] = not isinstance(e, Exception)
    out["count"] = dict(COUNT)
    out["calls"] = dict(CALLS)
    return out


def scribble(r):
    """The caller modifies what it was given."""
    if isinstance(r, np.ndarray) and r.flags.writeable and r.dtype.kind in "fc":
        r *= -3.
        r += 17.
    elif ss.issparse(r):
        r.data[:] = 5.
    elif isinstance(r, hm.Series):
        scribble(r.coeffs)
    elif isinstance(r, hm.Varf):
        scribble(r.matrix)
    elif isinstance(r, hm.Quad):
        scribble([r.nodes, r.weights])
    elif isinstance(r, hm.Position):
        scribble([r.mean, r.cov])
    elif isinstance(r, tuple):
        for e in r:
            scribble(e)
    elif isinstance(r, list):
        for e in r:
            scribble(e)
        r.clear()
    elif isinstance(r, dict):
        for e in list(r.values()):
            scribble(e)
        r.clear()
