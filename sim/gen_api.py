"""Families over the whole public interface: Quad, Series, Varf, Position, Function,
Operator, CompQuad, equations, lib.  Same conventions as gen.py."""
import copy

import gen
from gen import SIZES, arr, arr_alt, fam, setter

Q1 = [{"kind": "gh", "n": 5, "dim": 1}, {"kind": "gh", "n": 5, "dirs": [1]}, {"kind": "gh", "n": 5, "dirs": [2], "mean": [1.]},
      {"kind": "gh", "n": 6, "dim": 1, "mean": [.5], "cov": [[.5]]}, {"kind": "gh", "n": 5, "dim": 1, "factor": "exp(-x**2/4)"},
      {"kind": "gh", "n": 20, "dim": 1}, {"kind": "fourier", "n": 9}, {"kind": "fourier", "n": 9, "bounds": [[0., 2.]]},
      {"kind": "fourier", "n": 8, "dirs": [1]}, {"kind": "nc", "n": [7], "ext": [3.]}, {"kind": "nc", "n": [7], "ext": [3.], "mean": [1.]},
      {"kind": "gh", "n": 5, "dim": 1, "factor": "exp(-x**2/8)"}, {"kind": "gh", "n": 5, "dim": 1, "cov": [[3.]], "factor": "exp(-x**2/4)"}]
D1 = [[0], [1], [2], [0], [0], [0], [0], [0], [1], [0], [0], [0], [0]]
Q2 = [{"kind": "gh", "n": 4, "dim": 2}, {"kind": "gh", "n": 4, "dirs": [0, 2]}, {"kind": "gh", "n": 4, "dirs": [1, 2], "mean": [.5, -1.]},
      {"kind": "gh", "n": 4, "dim": 2, "cov": [[2., .5], [.5, 1.]]}, {"kind": "gh", "n": 4, "dim": 2, "cov": [[1., 0.], [0., 3.]], "mean": [0., 1.]},
      {"kind": "gh", "n": 4, "dim": 2, "factor": "exp(-x**2/4)*exp(-y**2/6)"}, {"kind": "gh", "n": 4, "dim": 2, "factor": "exp(-x**2/4)"},
      {"kind": "prod", "a": {"kind": "gh", "n": 6, "dirs": [0]}, "b": {"kind": "fourier", "n": 6, "dirs": [1]}},
      {"kind": "prod", "a": {"kind": "fourier", "n": 6, "dirs": [0]}, "b": {"kind": "gh", "n": 6, "dirs": [1]}},
      {"kind": "prod", "a": {"kind": "gh", "n": 4, "dirs": [1], "mean": [1.]}, "b": {"kind": "gh", "n": 4, "dirs": [0]}},
      {"kind": "fourier", "n": [6, 6]}, {"kind": "nc", "n": [5, 5], "ext": [2., 3.]}, {"kind": "gh", "n": 34, "dim": 2},
      {"kind": "gh", "n": 4, "dim": 2, "cov": [[3., 0.], [0., 1.]], "mean": [1., 0.]}]
D2 = [[0, 1], [0, 2], [1, 2]] + [[0, 1]]*11
Q3 = [{"kind": "gh", "n": 3, "dim": 3}, {"kind": "gh", "n": 3, "dim": 3, "mean": [1., 0., -1.]},
      {"kind": "prod", "a": {"kind": "gh", "n": 3, "dirs": [0, 2]}, "b": {"kind": "gh", "n": 3, "dirs": [1], "cov": [[2.]]}}]
D3 = [[0, 1, 2]]*3
QS = {1: list(zip(Q1, D1)), 2: list(zip(Q2, D2)), 3: list(zip(Q3, D3))}
FOURIER = {1: [6, 7, 8], 2: [7, 8, 10]}
NONDIAG = [3]
E1 = ["1", "{0}", "{0}**2 - 1", "cos({0})", "exp(-{0}**2/4)", "{0}*sin({0}) + 2", "1/(1 + {0}**2)", "2", "{0}/3", "0"]
E2 = E1[:6] + ["{0}*{1}", "cos({0} + {1})", "{0}**2*{1} - {1}", "exp(-{0}**2/4)*sin({1})", "{0} + {1} + {0}*{1}", "{1}", "2*{1}"]
E3 = ["1", "{2}", "{0}*{1}*{2}", "cos({0}*{1})*{2}", "{0} + {2}", "{1}**2*{2}"]
ES = {1: E1, 2: E2, 3: E3}
O1 = ["d(f,{0},{0})", "d(f,{0})*{0} - f", "{0}**2*f", "d({0}*f,{0}) + d(f,{0},{0})/2", "0", "cos({0})*d(f,{0})"]
O2 = O1 + ["d(f,{0},{0}) + d(f,{1},{1})", "{1}*d(f,{0}) - {0}*d(f,{1})", "d(f,{0},{1})", "{0}*{1}*f"]
OS = {1: O1, 2: O2, 3: ["d(f,{2})", "{1}*d(f,{0})", "{2}*f + d(f,{0},{0})"]}
LET = "xyzwv"


def sub(e, dirs):
    for i, d in enumerate(dirs):
        e = e.replace("{%d}" % i, LET[d])
    return e


def call(m, *args, obj=None, **kw):
    o = {"op": "call", "m": m, "args": list(args), "kw": kw}
    if obj is not None:
        o["obj"] = obj
    return o


def fourier(p):
    return p["dim"] < 3 and p["q"] in FOURIER[p["dim"]]


def degs(p):
    if fourier(p):
        return [2, 4]
    return [1, 2, 3] if p["dim"] < 3 else [1, 2]


def npoints(q):
    if q["kind"] == "prod":
        return npoints(q["a"])*npoints(q["b"])
    n = q["n"]
    if isinstance(n, list):
        r = 1
        for x in n:
            r *= x
        return r
    return n**(q.get("dim") or len(q.get("dirs") or q.get("bounds") or [0]))


QM = ["discretize", "integrate", "integrate", "transform", "transform", "varf", "varf", "varfd", "discretize_op", "norm", "eval", "project", "integrate_a",
      "transform_a", "varf_a", "eval_other", "plot", "plot_hf", "series", "integrate_s", "eq", "str"]


def _q_new(rng):
    dim = rng.choice([1, 1, 2, 2, 3])
    p = {"dim": dim, "q": rng.randrange(len(QS[dim])), "m": rng.choice(QM), "e": rng.randrange(99), "o": rng.randrange(99), "set": rng.choice(["triangle", "triangle", "cube", "cross"]),
         "sparse": rng.choice([None, True, False]), "tens": rng.choice([None, None, True, False]), "flat": rng.random() < .3, "sig": rng.choice([0, 0, 3, 8]),
         "n": rng.choice([1, 2]), "seed": rng.randrange(1000), "d": rng.randrange(9), "deg": 0}
    p["deg"] = rng.choice(degs(p))
    return p


def _q_fix(p):
    """Combinations the library does not offer are replaced by ones it does."""
    p = copy.deepcopy(p)
    if p["deg"] not in degs(p):
        p["deg"] = degs(p)[p["deg"] % len(degs(p))]
    if fourier(p):
        p["set"] = "triangle" if p["dim"] == 1 else "rectangle" if p["q"] in (7, 8) else "cube"
    return p


def _q_op(p):
    p = _q_fix(p)
    q, dirs = QS[p["dim"]][p["q"]]
    e = sub(ES[p["dim"]][p["e"] % len(ES[p["dim"]])], dirs)
    o = sub(OS[p["dim"]][p["o"] % len(OS[p["dim"]])], dirs)
    Q = {"quad": q}
    m = p["m"]
    g = {"arr": {"shape": [npoints(q)], "seed": p["seed"]}}
    size = SIZES[p["set"]][p["dim"]]
    c = {"arr": {"shape": [size[min(p["deg"], len(size) - 1)]], "seed": p["seed"]}}
    kw = {"index_set": p["set"]}
    if p["tens"] is not None:
        kw["tensorize"] = p["tens"]
    skw = {k: v for k, v in kw.items()}
    if p["sparse"] is not None:
        skw["sparse"] = p["sparse"]
    okw = {k: v for k, v in skw.items() if k != "tensorize"}
    if m == "discretize":
        return call("discretize", {"expr": e}, obj=Q)
    if m == "integrate":
        return call("integrate", {"function": {"e": e, "dirs": dirs}} if p["seed"] % 2 else {"expr": e}, obj=Q, flat=p["flat"],
                    **({"tensorize": p["tens"]} if p["tens"] is not None else {}))
    if m == "integrate_a":
        return call("integrate", g, obj=Q, flat=p["flat"])
    if m == "integrate_s":
        return call("integrate", {"series": {"quad": q, "c": c, "set": p["set"]}}, obj=Q)
    if m == "transform":
        return call("transform", {"expr": e}, p["deg"], obj=Q, significant=p["sig"], **kw)
    if m == "transform_a":
        return call("transform", g, p["deg"], obj=Q, significant=p["sig"], **kw)
    if m == "varf":
        return call("varf", {"expr": e}, p["deg"], obj=Q, **skw)
    if m == "varf_a":
        return call("varf", g, p["deg"], obj=Q, **skw)
    if m == "varfd":
        dd = [[dirs[0]], [dirs[-1]], [dirs[0], dirs[0]], [dirs[0], dirs[-1]], []][p["d"] % 5]
        return call("varfd", {"expr": e}, p["deg"], dd, obj=Q, **skw)
    if m == "discretize_op":
        return call("discretize_op", {"operator": {"e": o, "dirs": dirs}}, p["deg"], obj=Q, **okw)
    if m == "norm":
        return call("norm", g if p["seed"] % 2 else {"series": {"quad": q, "c": c, "set": p["set"]}}, obj=Q, n=p["n"], flat=p["flat"])
    if m == "eval":
        return call("eval", {"series": {"quad": q, "c": c, "set": p["set"]}}, obj=Q)
    if m == "eval_other":
        other = QS[p["dim"]][p["d"] % len(QS[p["dim"]])][0]
        return call("eval", {"series": {"quad": other, "c": c, "set": p["set"]}}, obj=Q)
    if m == "project":
        return call("project", [dirs[0]] if p["d"] % 2 else [dirs[-1]], obj=Q)
    if m == "plot":
        if p["dim"] > 1:
            return call("str", Q)
        return call("plot", {"series": {"quad": q, "c": c, "set": p["set"]}} if p["seed"] % 2 else g, obj=Q, ax={"ax": 1}, bounds=bool(p["d"] % 2))
    if m == "plot_hf":
        if p["dim"] > 1:
            return call("repr", Q)
        return call("plot_hf", [p["d"] % 4], obj=Q, ax={"ax": 1})
    if m == "series":
        return call("series", c, obj=Q, index_set=p["set"])
    if m == "eq":
        return call("eq", Q, {"quad": QS[p["dim"]][p["d"] % len(QS[p["dim"]])][0]})
    return call("str", Q)


def bump(key, k=97):
    def f(p, rng):
        p[key] = rng.randrange(k)
    return f


_QALTS = [bump("e"), bump("e"), bump("o"), setter("q", lambda p: range(len(QS[p["dim"]]))), setter("q", lambda p: range(len(QS[p["dim"]]))), bump("seed"),
          setter("deg", degs), setter("set", ["triangle", "cube", "cross"]), setter("sparse", [None, True, False]), setter("tens", [None, True, False]),
          setter("flat", [True, False]), setter("sig", [0, 3, 8]), setter("n", [1, 2]), setter("m", QM), bump("d", 9)]
fam("x_quad", _q_new, _QALTS, _q_op)


def around_quad(rng, n):
    """Several calls on one quadrature, which often has a factor, a mean or a covariance."""
    p = _q_new(rng)
    if rng.random() < .6:
        p["dim"] = rng.choice([1, 2])
        p["q"] = rng.choice([i for i, q in enumerate([Q1, Q2][p["dim"] - 1]) if set(q) & {"factor", "mean", "cov", "a"}])
        p["deg"] = rng.choice(degs(p))
    out = []
    for _ in range(n):
        q = dict(p, m=rng.choice(["discretize_op", "discretize_op", "varfd"] + QM), e=rng.randrange(99), o=rng.randrange(99))
        out.append(dict(_q_op(q), fam="x_quad"))
    return out


# ---- Series
SM = ["project", "subdegree", "to_cross", "to_function", "add", "sub", "mul", "mulc", "neg", "truediv", "eq", "repr", "item", "multi_indices", "addc", "tens", "inner"]


def _s_new(rng):
    dim = rng.choice([1, 2, 2, 3])
    return {"dim": dim, "q": rng.choice([0, 1, 2, 4, 5]) if dim < 3 else rng.choice([0, 1]), "set": rng.choice(["triangle", "triangle", "cube", "cross", "rectangle"]),
            "deg": rng.choice([2, 3, 4]) if dim < 3 else 2, "s1": rng.randrange(1000), "s2": rng.randrange(1000), "m": rng.choice(SM), "k": rng.randrange(30)}


def _s_op(p):
    q, dirs = QS[p["dim"]][p["q"]]
    n = SIZES[p["set"]][p["dim"]][p["deg"]]
    S = {"series": {"quad": q, "set": p["set"], "c": {"arr": {"shape": [n], "seed": p["s1"]}}}}
    T = {"series": {"quad": q, "set": p["set"], "c": {"arr": {"shape": [n], "seed": p["s2"]}}}}
    k, m = p["k"], p["m"]
    if m == "project":
        dd = [[d] for d in dirs] + ([[dirs[0], dirs[-1]]] if p["dim"] > 1 else [])
        return call("project", dd[k % len(dd)], obj=S)
    if m == "subdegree":
        return call("subdegree", 1 + k % 6, obj=S)
    if m == "to_cross":
        return call("to_cross", 1 + k % 3, obj=S)
    if m == "to_function":
        return call("to_function", obj=S) if p["deg"] < 4 and p["dim"] < 3 else call("repr", S)
    if m in ("add", "sub", "eq", "inner"):
        return call("mul" if m == "inner" else m, S, T)
    if m == "tens":
        a = {"series": {"quad": {"kind": "gh", "n": 4, "dirs": [0]}, "set": p["set"], "c": {"arr": {"shape": [SIZES[p["set"]][1][p["deg"]]], "seed": p["s1"]}}}}
        b = {"series": {"quad": {"kind": "gh", "n": 4, "dirs": [1 + k % 2]}, "set": p["set"], "c": {"arr": {"shape": [SIZES[p["set"]][1][p["deg"]]], "seed": p["s2"]}}}}
        return call("Series.tensorize", [a, b] if k % 3 else [b, a])
    if m == "mul":
        return call("mul", S, T)
    if m == "mulc":
        return call("mul", S, [2., -3, .5][k % 3])
    if m == "addc":
        return call("add", S, [2., -3, .5][k % 3])
    if m == "neg":
        return call("neg", S)
    if m == "truediv":
        return call("truediv", S, [2., -3, .5][k % 3])
    if m == "item":
        return call("item", S, k % n)
    if m == "multi_indices":
        return call("multi_indices", obj=S)
    return call("repr", S)


fam("x_series", _s_new, [setter("m", SM), bump("s1"), bump("s2"), bump("k", 30), setter("deg", lambda p: [2, 3, 4] if p["dim"] < 3 else [1, 2]),
                         setter("set", ["triangle", "cube", "cross", "rectangle"]), setter("q", lambda p: [0, 1, 2, 4, 5] if p["dim"] < 3 else [0, 1])], _s_op)

# ---- Varf
VM = ["subdegree", "to_cross", "add", "sub", "mulc", "neg", "eq", "apply", "item", "multi_indices", "tens", "solve", "solve", "addc", "mul"]


def _v_new(rng):
    dim = rng.choice([1, 1, 2])
    return {"dim": dim, "q": rng.choice([0, 1, 2, 4, 5]), "set": rng.choice(["triangle", "triangle", "cube"]), "deg": rng.choice([2, 3]), "s1": rng.randrange(1000),
            "s2": rng.randrange(1000), "m": rng.choice(VM), "k": rng.randrange(30), "sp": rng.random() < .4}


def _mat(p, seed, n, dom=False):
    if p["sp"]:
        return {"csr": {"shape": [n, n], "seed": seed, "density": .5, "dseed": seed}} if not dom else {"csr": {"shape": [n, n], "seed": seed, "density": 2., "dist": "dom"}}
    return {"arr": {"shape": [n, n], "seed": seed, **({"dist": "dom"} if dom else {})}}


def _v_op(p):
    q, dirs = QS[p["dim"]][p["q"]]
    n = SIZES[p["set"]][p["dim"]][p["deg"]]
    k, m = p["k"], p["m"]
    V = {"varf": {"quad": q, "set": p["set"], "m": _mat(p, p["s1"], n, m == "solve")}}
    W = {"varf": {"quad": q, "set": p["set"], "m": _mat(p, p["s2"], n)}}
    S = {"series": {"quad": q, "set": p["set"], "c": {"arr": {"shape": [n], "seed": p["s2"]}}}}
    if m == "subdegree":
        return call("subdegree", 1 + k % 3, obj=V)
    if m == "to_cross":
        return call("to_cross", 1 + k % 2, obj=V)
    if m in ("add", "sub", "eq"):
        return call(m, V, W)
    if m == "mulc":
        return call("mul", V, [2., -3, .5][k % 3])
    if m == "addc":
        return call("add", V, [2., -3, .5][k % 3])
    if m == "neg":
        return call("neg", V)
    if m == "apply":
        return call("apply", V, S)
    if m == "item":
        return call("item", V, k % n) if not p["sp"] else call("item", V, {"tuple": [k % n, 0]})
    if m == "multi_indices":
        return call("multi_indices", obj=V)
    if m in ("tens", "mul"):
        n1 = SIZES[p["set"]][1][p["deg"]]
        a = {"varf": {"quad": {"kind": "gh", "n": 4, "dirs": [0]}, "set": p["set"], "m": _mat(p, p["s1"], n1)}}
        b = {"varf": {"quad": {"kind": "gh", "n": 4, "dirs": [1 + k % 2]}, "set": p["set"], "m": _mat(p, p["s2"], n1)}}
        if m == "mul":
            return call("mul", a, b)
        return call("Varf.tensorize", [a, b] if k % 3 else [b, a], **({"sparse": bool(k % 2)} if k % 5 else {}))
    return call("solve", S, obj=V)


fam("x_varf", _v_new, [setter("m", VM), bump("s1"), bump("s2"), bump("k", 30), setter("deg", [2, 3]), setter("sp", [True, False]), setter("set", ["triangle", "cube"]),
                       setter("q", [0, 1, 2, 4, 5])], _v_op)


def _sv_op(p):
    n = SIZES["triangle"][1][p["deg"]]
    V = {"varf": {"quad": Q1[0], "m": _mat(p, p["s1"], n, True)}}
    S = {"series": {"quad": Q1[0], "c": {"arr": {"shape": [n], "seed": p["s2"]}}}}
    R = {"series": {"quad": Q1[0], "c": {"arr": {"shape": [n], "seed": p["s2"] + 1}}}}
    if p["how"] == "vec":
        return call("solve", S, obj=V, remove_vec=R, quiet=True)
    if p["how"] == "ilu":
        p = dict(p, sp=True)
        V["varf"]["m"] = _mat(p, p["s1"], n, True)
        return call("solve", S, obj=V, use_gmres=True, preconditioner="ilu", **({"tol": p["tol"]} if p["tol"] else {}))
    return call("solve", S, obj=V)


fam("x_solve", lambda rng: {"deg": rng.choice([3, 5]), "s1": rng.randrange(1000), "s2": rng.randrange(1000), "how": rng.choice(["vec", "ilu", "plain"]), "sp": rng.random() < .4,
                            "tol": rng.choice([0, 1e-12, 1e-10])},
    [bump("s1"), bump("s2"), setter("how", ["vec", "ilu", "plain"]), setter("sp", [True, False]), setter("tol", [0, 1e-12, 1e-10])], _sv_op, reuse=False)

# ---- Function, Operator, Position
FM = ["mul", "add", "truediv", "eq", "ccode", "project", "split", "as_xyz", "str", "tens", "sanitize", "split_new"]


def _f_op(p):
    dim = p["dim"]
    dirs = [[0], [1], [2]][p["k"] % 3] if dim == 1 else [[0, 1], [0, 2], [1, 2]][p["k"] % 3] if dim == 2 else [0, 1, 2]
    F = {"function": {"e": sub(ES[dim][p["e"] % len(ES[dim])], dirs), "dirs": dirs}}
    G = {"function": {"e": sub(ES[dim][p["g"] % len(ES[dim])], dirs), "dirs": dirs}}
    m = p["m"]
    if m in ("mul", "add", "eq"):
        return call(m, F, G)
    if m == "truediv":
        return call("truediv", F, {"function": {"e": sub("1 + {0}**2", dirs), "dirs": dirs}})
    if m == "project":
        return call("project", [dirs[0]], obj=F)
    if m == "split":
        return call("split", obj=F)
    if m == "split_new":
        return call("split", obj=F, legacy=False)
    if m == "tens":
        return call("Function.tensorize", [{"function": {"e": sub(E1[p["e"] % len(E1)], [0]), "dirs": [0]}}, {"function": {"e": sub(E1[p["g"] % len(E1)], [1]), "dirs": [1]}}])
    if m == "sanitize":
        return call("Function.sanitize", {"expr": ["0.5*x + 0.25", "0.3333333333*x**2", "x + 1e-16", "2.0*cos(x)"][p["k"] % 4]})
    if m == "str":
        return call("str", F)
    return call(m, obj=F)


fam("x_fun", lambda rng: {"dim": rng.choice([1, 2, 2, 3]), "e": rng.randrange(99), "g": rng.randrange(99), "k": rng.randrange(12), "m": rng.choice(FM)},
    [bump("e"), bump("g"), bump("k", 12), setter("m", FM)], _f_op)
OM = ["mul", "add", "sub", "neg", "eq", "apply", "map", "split", "as_xyz", "str", "applyop"]


def _o_op(p):
    dim = p["dim"]
    dirs = [[0], [1]][p["k"] % 2] if dim == 1 else [[0, 1], [0, 2]][p["k"] % 2]
    O = {"operator": {"e": sub(OS[dim][p["e"] % len(OS[dim])], dirs), "dirs": dirs}}
    P = {"operator": {"e": sub(OS[dim][p["g"] % len(OS[dim])], dirs), "dirs": dirs}}
    F = {"function": {"e": sub(ES[dim][p["g"] % len(ES[dim])], dirs), "dirs": dirs}}
    m = p["m"]
    if m in ("add", "sub", "eq"):
        return call(m, O, P)
    if m in ("mul", "apply"):
        return call(m, O, F)
    if m == "applyop":
        return call("apply", O, P)
    if m == "neg":
        return call("neg", O)
    if m == "map":
        return call("map", {"function": {"e": sub(["exp(-{0}**2/4)", "exp({0})", "1"][p["g"] % 3], dirs), "dirs": dirs}}, obj=O)
    if m == "str":
        return call("str", O)
    return call(m, obj=O)


fam("x_oper", lambda rng: {"dim": rng.choice([1, 2]), "e": rng.randrange(99), "g": rng.randrange(99), "k": rng.randrange(12), "m": rng.choice(OM)},
    [bump("e"), bump("g"), bump("k", 12), setter("m", OM)], _o_op)
POS = [{"dim": 1}, {"dim": 2}, {"dirs": [0], "mean": [1.]}, {"dirs": [1], "cov": [[2.]]}, {"dirs": [2], "mean": [-1.], "cov": [[.5]]}, {"dim": 2, "mean": [1., -2.]},
       {"dim": 2, "cov": [[2., .5], [.5, 1.]]}, {"dirs": [0, 2], "cov": [[2., 0.], [0., 3.]]}, {"dirs": [1], "types": ["fourier"]}, {"dim": 3}]
PM = ["mul", "weight", "weights", "project", "eq", "repr", "tens"]


def _p_op(p):
    P, R = {"pos": POS[p["a"] % len(POS)]}, {"pos": POS[p["b"] % len(POS)]}
    m = p["m"]
    if m == "tens":
        return call("Position.tensorize", [P, R])
    if m in ("mul", "eq"):
        return call(m, P, R)
    if m == "repr":
        return call("repr", P)
    if m == "project":
        return call("project", [p["b"] % 3], obj=P)
    return call(m, obj=P)


fam("x_pos", lambda rng: {"a": rng.randrange(30), "b": rng.randrange(30), "m": rng.choice(PM)}, [bump("a", 30), bump("b", 30), setter("m", PM)], _p_op)

# ---- compound quadratures, library functions, equations
COMP = [[{"kind": "gh", "n": 4, "dim": 1}, {"kind": "gh", "n": 6, "dim": 1}], [{"kind": "gh", "n": 3, "dim": 2}, {"kind": "gh", "n": 4, "dim": 2}]]


def _c_op(p):
    C = {"comp": {"quads": COMP[p["two"]], "w": [[1., -.5], [2., 1.]][p["w"]]}}
    e = sub(ES[1 + p["two"]][p["e"] % len(ES[1 + p["two"]])], [0, 1])
    if p["m"] == "integrate":
        return call("integrate", {"expr": e}, obj=C)
    return call(p["m"], {"expr": e}, 2, obj=C)


fam("x_comp", lambda rng: {"two": rng.randrange(2), "w": rng.randrange(2), "e": rng.randrange(99), "m": "integrate"}, [bump("e"), bump("w", 2)], _c_op)


def _l_op(p):
    k = p["k"]
    m = p["m"]
    if m == "finest_common":
        return call(m, *[[[[0], [1], [2]], [[0, 1], [2]]], [[[0], [1, 2]], [[0, 1], [2]]], [[[0], [1]], [[0], [1]]], [[[0, 2], [1]], [[0], [1], [2]]],
                         [[[0, 1], [2], [3]], [[0], [1], [2, 3]]]][k % 5])
    if m == "cross_in_triangle":
        return call(m, 1 + k % 3, 1 + k % 4)
    if m == "hermegauss_nd":
        return call(m, [[3], [4, 5], [2, 2, 2], [30], [3, 4]][k % 5])
    if m == "gh":
        return call("Quad.gauss_hermite", 3 + k % 4, dim=1 + k % 2, **({"mean": [1.]*(1 + k % 2)} if k % 3 == 0 else {}))
    if m == "nc":
        return call("Quad.newton_cotes", [4 + k % 3], [2. + k % 2])
    if m == "fo":
        return call("Quad.fourier", 5 + k % 4, **({"bounds": [[0., 1. + k % 3]]} if k % 2 else {}))
    if m == "qt":
        return call("Quad.tensorize", [{"quad": Q1[0]}, {"quad": Q1[1 + k % 2]}])
    if m == "map":
        return call("map_operator", O1[k % 4].replace("{0}", "x"), ["exp(-x**2/4)", "exp(x)"][k % 2])
    return call(m, 2 + k % 4)


LM = ["finest_common", "cross_in_triangle", "hermegauss_nd", "triple_products", "triple_products_fourier", "gh", "nc", "fo", "qt", "map"]
fam("x_lib", lambda rng: {"k": rng.randrange(60), "m": rng.choice(LM)}, [bump("k", 60), setter("m", LM)], _l_op)
EQS = [["Fokker_Planck_1d", "equation", {"Vp": "x**4/4 - x**2/2"}], ["Fokker_Planck_1d", "equation", {"Vp": "x**2/2", "β": "2"}], ["McKean_Vlasov_white", "equation", {}],
       ["McKean_Vlasov", "equation", {}], ["McKean_Vlasov", "fluxes", {}], ["McKean_Vlasov_harmonic_noise", "equation", {}], ["McKean_Vlasov_white", "fluxes", {}],
       ["Generalized_Langevin", "backward", {}, 1], ["Generalized_Langevin", "backward", {}, 2]]
fam("x_eq", lambda rng: {"k": rng.randrange(len(EQS))}, [bump("k", len(EQS))], lambda p: call("equation", *EQS[p["k"]][:2], {"dict": [[k, v] for k, v in EQS[p["k"]][2].items()]}, *EQS[p["k"]][3:]))


def _cpp_op(p):
    m = {"arr": {"shape": [p["n"], p["k"]], "seed": p["seed"], "dist": p["dist"], "layout": p["lay"]}}
    if p["m"] in ("cpp_full", "cpp_sparse", "cpp_rcv"):
        m = {"csr": {"shape": [p["n"], p["k"]], "seed": p["seed"], "density": .4}}
    if p["m"] == "cpp_cube":
        return call("cpp_cube", [1 + (p["seed"] + i) % 4 for i in range(p["n"])])
    if p["m"] == "cpp_vec":
        return call("cpp_vec", {"arr": {"shape": [p["n"]*p["k"]], "seed": p["seed"]}})
    if p["m"] == "cpp_tp":
        return call("cpp_tp", p["n"])
    if p["m"] == "cpp_keep":
        return call("cpp_keep", m, {"arr": {"shape": [p["k"], p["n"]], "seed": p["seed"] + 1}})
    return call(p["m"], m)


CPPM = ["cpp_bmat", "cpp_boost", "cpp_mat", "cpp_sp", "cpp_full", "cpp_sparse", "cpp_rcv", "cpp_cube", "cpp_vec", "cpp_tp", "cpp_keep"]
CPPL = [None, None, "ro", "rows", "cut", "neg"]
fam("x_cpp", lambda rng: {"m": rng.choice(CPPM), "n": rng.choice([1, 2, 3, 5]), "k": rng.choice([1, 2, 4, 7]), "seed": rng.randrange(500), "dist": rng.choice(["normal", "int"]),
                          "lay": rng.choice(CPPL)},
    [setter("m", CPPM), setter("lay", CPPL), setter("n", [1, 2, 3, 5]), setter("k", [1, 2, 4, 7]), bump("seed", 500)], _cpp_op)

API = ["x_quad", "x_quad", "x_quad", "x_series", "x_series", "x_varf", "x_varf", "x_solve", "x_fun", "x_oper", "x_pos", "x_comp", "x_lib", "x_eq", "x_cpp"]
