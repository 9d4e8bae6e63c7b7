"""Requests the library cannot serve; each must end in a Python exception."""
import copy

import gen
from gen import core, arr


def bad_set(rng):
    fn = rng.choice(["transform", "varf", "varfd", "project", "tensorize", "inner", "iterator_size", "iterator_list_indices", "iterator_get_degree",
                     "iterator_index", "projmat", "tensmat", "tensid", "qtransform", "qvarf", "series"])
    st = rng.choice(["triangles", "", "Cube", "hyperbolic", "none"])
    n = {"nodes": [4]}, {"weights": [4]}
    if fn == "transform":
        return core("transform", 2, arr(rng, [4]), *n, True, index_set=st)
    if fn == "varf":
        return core("varf", 2, arr(rng, [4]), *n, index_set=st, sparse=rng.random() < .5)
    if fn == "varfd":
        return core("varfd", 1, 2, 0, arr(rng, [3, 3]), index_set=st)
    if fn == "project":
        return core("project", arr(rng, [6]), 2, 0, index_set=st)
    if fn == "projmat":
        return core("project", arr(rng, [6, 6]), 2, 0, index_set=st)
    if fn == "tensorize":
        return core("tensorize", [arr(rng, [3]), arr(rng, [3])], index_set=st)
    if fn == "tensmat":
        return core("tensorize", [arr(rng, [3, 3]), arr(rng, [3, 3])], index_set=st, sparse=rng.random() < .5)
    if fn == "tensid":
        return core("tensorize", arr(rng, [3]), 2, 1, index_set=st)
    if fn == "inner":
        return core("inner", arr(rng, [3]), arr(rng, [3]), [0], [1], index_set=st)
    if fn == "iterator_index":
        return core("iterator_index", [1, 2], index_set=rng.choice([st, "cross", "rectangle"]))
    if fn in ("iterator_size", "iterator_list_indices", "iterator_get_degree"):
        return core(fn, 2, 3, index_set=st)
    if fn == "qtransform":
        return {"op": "quad", "m": "transform", "quad": gen.QUADS1[0], "f": "x", "degree": 2, "kw": {"index_set": st}}
    if fn == "qvarf":
        return {"op": "quad", "m": "varf", "quad": gen.QUADS1[0], "f": "x", "degree": 2, "kw": {"index_set": st}}
    return {"op": "quad", "m": "eval", "quad": gen.QUADS2[0], "c": arr(rng, [6]), "kw": {"index_set": st}}


VALID = {   # all sizes of index sets up to 80
    "triangle": {2: [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66, 78], 3: [1, 4, 10, 20, 35, 56]},
    "cube": {2: [1, 4, 9, 16, 25, 36, 49, 64], 3: [1, 8, 27, 64]},
    "cross": {2: [4, 8, 12, 17, 21, 27, 31, 37, 42, 48, 52, 60, 64, 70, 76], 3: [8, 20, 32, 50, 62]},
    "rectangle": {2: [1, 2, 6, 8, 15, 18, 28, 32, 45, 50, 66, 72], 3: [1, 2, 12, 16, 45, 54]},
}
VALID["cross_nc"] = VALID["cross"]


def wrong_n(rng, st, dim, big=True):
    ok = set(VALID[st][dim]) | set(gen.SIZES[st][dim]) | {0}
    c = [k for k in range(2, 80) if k not in ok]
    return rng.choice(c)


def bad_size(rng):
    st = rng.choice(gen.SETS)
    dim = rng.choice([2, 3])
    n = wrong_n(rng, st, dim)
    k = rng.choice(["deg", "project", "projmat", "inner", "eval", "seriesops", "inner2"])
    if k == "deg":
        return core("iterator_get_degree", dim, n, index_set=st)
    if k == "project":
        return core("project", arr(rng, [n]), dim, rng.randrange(dim), index_set=st)
    if k == "projmat":
        return core("project", arr(rng, [n, n]), dim, rng.randrange(dim), index_set=st)
    if k == "inner":
        return core("inner", arr(rng, [n]), arr(rng, [n]), list(range(dim)), list(range(dim)), index_set=st)
    if k == "inner2":   # degrees of the factors differ
        return core("inner", arr(rng, [3]), arr(rng, [rng.choice([4, 5, 2])]), [0], [1], index_set=rng.choice(["triangle", "cube"]))
    if k == "eval":
        return {"op": "quad", "m": "eval", "quad": gen.QUADS2[0], "c": arr(rng, [wrong_n(rng, st, 2)]), "kw": {"index_set": st}}
    return {"op": "quad", "m": "series_ops", "quad": gen.QUADS2[0], "c": arr(rng, [wrong_n(rng, "triangle", 2)]), "kw": {}}


def bad_grid(rng):
    """Grid values, nodes and weights that do not belong together."""
    k = rng.choice(["grid", "grid2", "weights", "back", "fourier", "varf", "integrate", "nodim"])
    n = {"nodes": [4]}, {"weights": [4]}
    m = rng.choice([1, 2, 3, 5, 7])
    if k == "grid":
        return core("transform", 2, arr(rng, [m]), *n, True)
    if k == "grid2":
        return core("transform", 2, arr(rng, [rng.choice([4, 15, 17])]), {"nodes": [4, 4]}, {"weights": [4, 4]}, True, index_set=rng.choice(["triangle", "cube"]))
    if k == "weights":
        return core("varf", 2, arr(rng, [4]), {"nodes": [4]}, {"weights": [rng.choice([2, 3])]}) if rng.random() < .5 else \
            core("transform", 2, arr(rng, [4]), {"nodes": [4]}, {"weights": [rng.choice([2, 3, 5])]}, True)
    if k == "back":
        return core("transform", 3, arr(rng, [rng.choice([1, 2, 3, 5])]), *n, forward=False)
    if k == "fourier":
        return core("transform", 2, arr(rng, [16]), {"nodes": [4, 4]}, {"weights": [4, 4]}, True, do_fourier=[0])
    if k == "varf":
        return core("varf", 2, arr(rng, [m]), *n, sparse=rng.random() < .5)
    if k == "integrate":
        return core("integrate", arr(rng, [m]), *n)
    return core("integrate", arr(rng, [4]), {"nodes": [4]}, {"weights": [4, 4]}) if rng.random() < 0 else core("integrate", arr(rng, [16]), {"nodes": [4, 4]}, {"weights": [4]})


def bad_dirs(rng):
    k = rng.choice(["dup", "missing", "dupm", "varfd", "tensid", "tensidm", "project", "sizes", "sizesm"])
    fs = lambda *d: {"fs": list(d)}
    sp = rng.random() < .5
    if k == "dup":
        return core("tensorize", {"dict": [[{"fs": [0, 1]}, arr(rng, [6])], [fs(1), arr(rng, [3])]]})
    if k == "missing":
        return core("tensorize", {"dict": [[fs(0), arr(rng, [3])], [fs(2), arr(rng, [3])]]})
    if k == "dupm":
        return core("tensorize", {"dict": [[{"fs": [0, 1]}, arr(rng, [6, 6])], [fs(1), arr(rng, [3, 3])]]}, sparse=sp)
    if k == "sizes":
        return core("tensorize", [arr(rng, [3]), arr(rng, [rng.choice([2, 4])])])
    if k == "sizesm":
        return core("tensorize", [arr(rng, [3, 3]), arr(rng, [4, 4])], sparse=sp)
    if k == "varfd":
        n = rng.choice([5, 4, 12])
        return core("varfd", 2, 2, rng.choice([0, 1]), arr(rng, [n, n]), index_set="triangle") if rng.random() < .5 else \
            core("varfd", 2, 2, rng.choice([2, 5]), arr(rng, [6, 6]), index_set="triangle")
    if k == "tensid":
        return core("tensorize", arr(rng, [3]), 2, rng.choice([2, 9]))
    if k == "tensidm":
        return core("tensorize", arr(rng, [3, 3]), 2, rng.choice([2, 9]), sparse=sp)
    return core("project", arr(rng, [6]), 2, rng.choice([2, 7, [0, 5]]))


def bad_fourier(rng):
    k = rng.choice(["transform", "varf", "triple", "qtransform"])
    d = rng.choice([1, 3, 5])
    n = {"fnodes": [8]}, {"fweights": [8]}
    if k == "triple":
        return {"op": "core", "fn": "triple_products_fourier", "args": [d], "kw": {}}
    if k == "qtransform":
        return {"op": "quad", "m": rng.choice(["transform", "varf"]), "quad": gen.QUADS1[5], "f": "cos(x)", "degree": d, "kw": {}}
    return core(k, d, arr(rng, [8]), *n, **({"forward": True} if k == "transform" else {}), do_fourier=[1])


def bad_misc(rng):
    k = rng.choice(["solve_pos", "mul", "order", "noarg", "type", "empty", "opdirs", "quad"])
    if k == "noarg":
        return core("tensorize", arr(rng, [3]))
    if k == "type":
        return core("integrate", "text", {"nodes": [4]}, {"weights": [4]})
    if k == "empty":
        return core("tensorize", [])
    if k == "opdirs":
        return {"op": "quad", "m": "op", "quad": gen.QUADS2[0], "f": "d(f,x)", "dirs": [0], "degree": 2, "kw": {}}
    if k == "quad":
        return {"op": "quad", "m": "integrate", "quad": {"kind": "gh", "n": 4, "dirs": [0], "mean": [0., 1.]}, "f": "x"}
    if k == "mul":
        return core("inner", arr(rng, [3]), arr(rng, [3]), [0], [1, 2])
    if k == "order":
        a, b = ([[1, 0], [0]], [[0, 0], [1]], [[1, 0], [0, 1]])[rng.randrange(3)]
        a, b = (a, b) if rng.random() < .5 else (b, a)
        return core("inner", arr(rng, [{1: 3, 2: 6}[len(a)]]), arr(rng, [{1: 3, 2: 6}[len(b)]]), a, b)
    return core("varfd", 1, 2, 0, arr(rng, [3, 4]))


def bad_shape(rng):
    """Matrices whose rows do not belong together, or that are not matrices of numbers of the expected kind."""
    k = rng.choice(["ragged", "raggedsp", "raggeddict", "conv", "convdim", "csrproj", "csrvarfd", "rect", "dupdir", "mixdict", "discr", "rows"])
    sp = rng.random() < .5
    if k in ("ragged", "raggedsp"):
        n = rng.choice([2, 3])
        bad = [[rng.choice([0., 1., 2.5]) for _ in range(n)] for _ in range(n)]
        i = rng.randrange(1, n)
        bad[i] = bad[i][:-1] if rng.random() < .6 else bad[i] + [7.]
        good = [[1.*(a == b) for b in range(n)] for a in range(n)]
        return core("tensorize", [good, bad] if rng.random() < .5 else [bad, good], sparse=k == "raggedsp")
    if k == "conv":
        return {"op": "call", "m": rng.choice(["cpp_mat", "cpp_bmat", "cpp_boost", "cpp_sp"]),
                "args": [{"arr": {"shape": [3, 4], "seed": 1, "dist": "int", "dtype": rng.choice(["int64", "float32", "int32", "complex128", ">f8", "bool"])}}]}
    if k == "convdim":
        return {"op": "call", "m": rng.choice(["cpp_mat", "cpp_bmat", "cpp_boost"]), "args": [arr(rng, rng.choice([[4], [2, 2, 2]]))]}
    if k == "csrproj":
        n = wrong_n(rng, "triangle", 2)
        return core("project", {"csr": {"shape": [n, n], "seed": rng.randrange(99), "density": .5}}, 2, rng.randrange(2))
    if k == "csrvarfd":
        n = rng.choice([2, 4, 5, 7])
        return core("varfd", 2, 2, rng.randrange(2), {"csr": {"shape": [n, n], "seed": rng.randrange(99), "density": .5}})
    if k == "rect":
        m = rng.choice([5, 7, 3])
        return core("project", arr(rng, [6, m]) if sp else {"csr": {"shape": [6, m], "seed": rng.randrange(99), "density": .5}}, 2, 0)
    if k == "dupdir":
        return core("project", arr(rng, [6]) if sp else arr(rng, [6, 6]), 2, rng.choice([[0, 0], [1, 1]]))
    if k == "mixdict":
        return core("tensorize", {"dict": [[{"fs": [0]}, arr(rng, [3])], [{"fs": [1]}, arr(rng, [rng.choice([2, 4])])]]})
    if k == "raggeddict":
        return core("tensorize", {"dict": [[{"fs": [0]}, arr(rng, [3, 3])], [{"fs": [1]}, arr(rng, [3, rng.choice([2, 4])])]]}, sparse=sp)
    if k == "discr":
        return core("discretize", "v[0]", {"nodes": [4, 4]}, arr(rng, [rng.choice([1, 3])]), arr(rng, [2, 2])) if sp else \
            core("discretize", "v[0]", {"nodes": [4, 4]}, arr(rng, [2]), arr(rng, [2, rng.choice([1, 3])]))
    return core("tensorize", arr(rng, [3, rng.choice([2, 4])]), 2, rng.randrange(2), sparse=sp)


def bad_object(rng):
    """Objects of the library that do not belong together."""
    k = rng.choice(["add", "addset", "apply", "applyset", "varfadd", "sdeg", "subdeg", "cross", "matrix", "pos", "project", "mulset", "solve", "dirs", "cov"])
    q, q1 = rng.sample([QA, QB, QC], 2)
    ser = lambda n=6, quad=q, st="triangle": {"series": {"quad": quad, "c": arr(rng, [n]), "set": st}}
    var = lambda n=6, quad=q, st="triangle": {"varf": {"quad": quad, "m": arr(rng, [n, n]), "set": st}}
    call = lambda m, *a, **kw: {"op": "call", "m": m, "args": list(a), "kw": kw}
    meth = lambda o, m, *a, **kw: {"op": "call", "obj": o, "m": m, "args": list(a), "kw": kw}
    if k == "add":
        return call(rng.choice(["add", "sub"]), ser(), ser(quad=q1))
    if k == "addset":
        return call(rng.choice(["add", "sub"]), ser(36), ser(36, st="cube"))
    if k == "apply":
        return call("apply", var(), ser(quad=q1))
    if k == "applyset":
        return call("apply", var(36), ser(36, st="cube"))
    if k == "varfadd":
        return call(rng.choice(["add", "sub"]), var(), var(quad=q1))
    if k == "sdeg":
        return call(rng.choice(["add", "sub"]), ser(6), ser(10))
    if k == "subdeg":
        return meth(var(6), "subdegree", rng.choice([3, 4, 9]))
    if k == "cross":
        return meth(rng.choice([ser, var])(rng.choice([6, 10])), "to_cross", rng.choice([3, 4, 7]))
    if k == "matrix":
        return meth(var(wrong_n(rng, "triangle", 2)), "multi_indices")
    if k == "project":
        return meth(rng.choice([ser, var])(), "project", rng.choice([2, [0, 3], [5]]))
    if k == "mulset":
        return call("mul", ser(36), ser(36, st="cube"))
    if k == "solve":
        return meth(var(), "solve", ser(quad=q1))
    if k == "dirs":
        return {"op": "call", "m": "str", "args": [{"pos": {"dim": 2, "dirs": rng.choice([[0], [0, 1, 2]])}}]}
    if k == "cov":
        return {"op": "call", "m": "str", "args": [{"pos": {"dim": 2, "cov": rng.choice([[[1.]], [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]])}}]}
    return call("Position.tensorize", [{"pos": {"dim": 2, "cov": [[2., .5], [.5, 1.]]}}, {"pos": {"dirs": [2]}}])


JUNK = [None, "junk", -1, [], {"tuple": []}, 1.5, "", {"lit": {"v": []}}, {"lit": {"v": [1., 2.]}}, {"lit": {"v": ["a"]}}, {"dict": []}, [None], {"float": "nan"}, {"lit": {"v": [[1.], [2.]]}},
        {"sym": "besselj(1, x)"}, {"complex": [1, 2]}, True]
NOTC = ["besselj(1, x)", "Heaviside(x)*zeta(x)", "x*polylog(2, x)"]


def corrupt(rng):
    """A valid call of any part of the library with one detail spoiled.  It may raise or not, but has no after-effect."""
    import gen_api
    o = copy.deepcopy(gen.cluster(rng, rng.choice([gen.QUAD, gen_api.API, gen_api.API, ["x_quad"], ["x_quad"], gen.CORE, ["x_varf", "x_series", "x_solve"]]), 1)[0])
    kw = o.setdefault("kw", {})
    r = rng.random()
    if r < .4 and ("index_set" in kw or o["op"] == "quad"):
        kw["index_set"] = rng.choice(["triangles", "", "none", None, 3])
    elif r < .6 and "f" in o and isinstance(o["f"], str) and o.get("m") != "op":
        o["f"] = rng.choice(NOTC)
    elif r < .65 and "degree" in o:
        o["degree"] = rng.choice([-1, None, "a", 1.5, 3, 5])
    elif r < .85 and o.get("args"):
        i = rng.randrange(len(o["args"]))
        a = o["args"][i]
        if isinstance(a, dict) and "expr" in a and rng.random() < .6:
            a["expr"] = rng.choice(NOTC)
        elif isinstance(a, dict) and "arr" in a and rng.random() < .6:
            s = a["arr"]["shape"]
            s[rng.randrange(len(s))] += rng.choice([1, -1, 2]) if min(s) > 1 else 1
            a["arr"]["dist"] = "normal"
            a["arr"].pop("mods", None)
        elif isinstance(a, int) and not isinstance(a, bool) and rng.random() < .5:
            o["args"][i] = rng.choice([a + 1, a - 1, -a - 1])
        else:
            o["args"][i] = copy.deepcopy(rng.choice(JUNK))
    elif r < .93 and kw:
        kw[rng.choice(sorted(kw))] = copy.deepcopy(rng.choice(JUNK))
    elif o.get("args"):
        o["args"].pop() if rng.random() < .5 else o["args"].append(copy.deepcopy(rng.choice(JUNK)))
    o.pop("fam", None)
    return o


def anyarr(rng, n, kinds=("v", "m", "s")):
    k = rng.choice(kinds)
    return arr(rng, [n]) if k == "v" else arr(rng, [n, n]) if k == "m" else {"csr": {"shape": [n, n], "seed": rng.randrange(99), "density": .5}}


def bad_dirlist(rng):
    """Lists of directions with one that occurs twice or does not exist, anywhere in the list."""
    st = rng.choice(gen.SETS)
    dim = rng.choice([2, 3])
    size = gen.SIZES[st][dim]
    n = size[rng.randrange(1, min(4, len(size)))]
    k = rng.choice(["project", "project", "project", "inner", "tens"])
    if k == "project":
        dirs = rng.sample(range(dim), rng.choice([1, 2, dim]))
        if rng.random() < .6:
            dirs.insert(rng.randrange(len(dirs) + 1), rng.choice(dirs))
        else:
            dirs[rng.randrange(len(dirs))] = rng.choice([dim, dim + 1, 17])
        return core("project", anyarr(rng, n), dim, dirs, index_set=st)
    if k == "inner":
        a = sorted(rng.sample(range(5), dim))
        b = sorted(rng.sample(range(5), rng.choice([1, 2])))
        i = rng.randrange(dim - 1)
        a[i], a[i + 1] = (a[i + 1], a[i]) if rng.random() < .5 else (a[i], a[i])
        d = size.index(n)
        ca, cb = arr(rng, [n]), arr(rng, [gen.SIZES[st][len(b)][d]])
        return core("inner", ca, cb, a, b, index_set=st) if rng.random() < .5 else core("inner", cb, ca, b, a, index_set=st)
    # three parts of which two share a direction, or one is missing
    one, two = gen.SIZES[st][1], gen.SIZES[st][2]
    d = rng.randrange(1, 3)
    mats = rng.random() < .5      # matrices may be given on any different directions
    parts = rng.choice([[[0], [1], [1, 2]], [[0, 1], [1, 2]], [[0, 2], [1], [2]], [[0], [1], [0, 2]], [[3], [0, 3]]] + ([] if mats else [[[0, 1], [3]], [[0], [2], [3]], [[1], [2]], [[0, 2]], [[0], [1], [0, 3]]]))
    val = lambda q: arr(rng, [(one if len(q) == 1 else two)[d]] * (2 if mats else 1))
    l = [[{"fs": q}, val(q)] for q in parts]
    rng.shuffle(l)
    return core("tensorize", {"dict": l}, index_set=st, **({"sparse": rng.random() < .5} if mats else {}))


def bad_grid_nd(rng):
    """One of the sizes, in any direction, does not belong to the others."""
    dim = rng.choice([1, 2, 2, 3])
    p = [rng.choice([3, 4, 5]) for _ in range(dim)]
    w, tot = list(p), 1
    for q in p:
        tot *= q
    fn = rng.choice(["transform", "varf", "integrate"])
    if rng.random() < .5:
        tot += rng.choice([-1, 1, 2, -2, tot])
    else:
        i = rng.randrange(dim)
        w[i] += rng.choice([-1, 1, 2])
    st = rng.choice(gen.SETS)
    deg = rng.choice([1, 2])
    if fn == "integrate":
        return core("integrate", arr(rng, [tot]), {"nodes": p}, {"weights": w})
    if fn == "varf":
        return core("varf", deg, arr(rng, [tot]), {"nodes": p}, {"weights": w}, index_set=st, sparse=rng.random() < .5)
    return core("transform", deg, arr(rng, [tot]), {"nodes": p}, {"weights": w}, True, index_set=st)


def bad_parts(rng):
    """Parts of a tensor product that have different degrees, any number and any of them."""
    st = rng.choice(gen.SETS)
    k = rng.choice([2, 3, 3, 4])
    n = [rng.choice([3, 4])]*k
    n[rng.randrange(k)] += rng.choice([-1, 1, 2])
    mats = rng.random() < .5
    l = [arr(rng, [q]*(2 if mats else 1)) for q in n]
    if rng.random() < .4:
        l = {"dict": [[{"fs": [i]}, a] for i, a in enumerate(l)]}
    return core("tensorize", l, index_set=st, **({"sparse": rng.random() < .5} if mats else {}))


def bad_algebra(rng):
    """Functions, operators, positions, quadratures and series that cannot be combined."""
    call = lambda m, *a, **kw: {"op": "call", "m": m, "args": list(a), "kw": kw}
    meth = lambda o, m, *a, **kw: {"op": "call", "obj": o, "m": m, "args": list(a), "kw": kw}
    fun = lambda e, *d: {"function": {"e": e, "dirs": list(d)}}
    opr = lambda e, *d: {"operator": {"e": e, "dirs": list(d)}}
    ser = lambda quad, n=6, st="triangle": {"series": {"quad": quad, "c": arr(rng, [n]), "set": st}}
    var = lambda quad, n=6, st="triangle": {"varf": {"quad": quad, "m": arr(rng, [n, n]), "set": st}}
    gh = lambda **kw: dict({"kind": "gh", "n": 4}, **kw)
    F = {"kind": "gh", "n": 4, "dim": 2, "cov": [[2., .5], [.5, 1.]]}
    X, Y = fun(rng.choice(["x", "x**2 + 1", "sin(x)", "exp(-x)"]), 0), rng.choice([fun("y", 1), fun("x*y", 0, 1), fun("cos(z)", 2)])
    OX, OY = opr(rng.choice(["x*f", "d(f,x)", "d(f,x,x) - f"]), 0), rng.choice([opr("d(f,y)", 1), opr("d(f,x) + y*f", 0, 1)])
    G = gh(dim=2, factor=rng.choice(["1 + x**2", "exp(x) + exp(-y)"]))
    swap = lambda a, b: [a, b] if rng.random() < .5 else [b, a]
    return rng.choice([
        lambda: call(rng.choice(["add", "mul", "truediv"]), *swap(X, Y)),
        lambda: call("str", fun(rng.choice(["x*y", "x + y"]), *rng.choice([[1, 0], [0], [1], [2, 1, 0]]))),
        lambda: meth(fun(rng.choice(["x*y + x", "exp(x) + y"]), 0, 1), "project", rng.choice([0, 1, [0]])),
        lambda: meth(fun(rng.choice(["cos(x*y)", "exp(x*y)"]), 0, 1), "project", rng.choice([0, 1, [0], [1]])),
        lambda: call("Operator.zero"),
        lambda: call(rng.choice(["add", "sub"]), *swap(OX, OY)),
        lambda: call("mul", OX, Y),
        lambda: meth(OX, "map", Y),
        lambda: meth(opr(rng.choice(["d(f,x,6)", "d(f,x,7) + x*f", "d(f,x,x) + d(f,x,8)"]), 0), "split"),
        lambda: call("Position.tensorize", [{"pos": {"dirs": [0]}}]*2 + [{"pos": {"dirs": rng.choice([[0], [0, 1]])}}]),
        lambda: call("str", {"pos": {}}),
        lambda: call("Position.tensorize", [{"pos": {"dirs": [0, 1], "mean": [0., 1.]}}, {"pos": {"dirs": [1], "mean": [rng.choice([0., 2.])]}}]),
        lambda: call("Position.tensorize", [{"pos": {"dirs": [1], "cov": [[1.]]}}, {"pos": {"dirs": [1, 3], "cov": [[rng.choice([2., .5]), 0.], [0., 1.]]}}]),
        lambda: call("Quad.fourier", 4, bounds=[[0, 1]], dirs=[0, rng.choice([1, 2])]),
        lambda: call("Quad.fourier", rng.choice([[4, 4, 4], [4]]), bounds=[[0, 1], [0, 2]]),
        lambda: call("Quad.tensorize", rng.choice([[], ["x"], [{"quad": QA}, 1]])),
        lambda: {"op": "call", "obj": {"quad": G}, "m": rng.choice(["discretize", "integrate"]) if 0 else "integrate", "args": [{"expr": rng.choice(["x*y", "x"])}], "kw": {"tensorize": True}},
        lambda: {"op": "call", "obj": {"quad": G}, "m": rng.choice(["transform", "varf"]), "args": [{"expr": rng.choice(["x*y", "y"])}, 2], "kw": {"tensorize": True}},
        lambda: meth({"quad": rng.choice([QA, QB])}, "eval", ser(F)),
        lambda: meth({"quad": F}, "plot", {"expr": "x"}, ax={"ax": 1}),
        lambda: meth({"quad": QA}, "plot", {"expr": "x*y"}, {"expr": "x"}, ax={"ax": 1}),
        lambda: meth({"quad": QA}, "plot", rng.choice([1, "x", {"dict": []}]), ax={"ax": 1}),
        lambda: meth({"quad": rng.choice([F, gh(dim=1)])}, "streamlines", {"expr": "x"}, {"expr": "-x"}, ax={"ax": 1}),
        lambda: meth({"quad": QA}, "streamlines", {"expr": "y"}, rng.choice([ser(QA), 1]), ax={"ax": 1}),
        lambda: meth({"quad": QA}, "streamlines", {"expr": "y"}, {"expr": "x"}, {"expr": "x"}, ax={"ax": 1}),
        lambda: meth({"quad": QA}, "streamlines", 1, 2, ax={"ax": 1}),
        lambda: call("mul", *swap(ser(gh(dirs=[0, 1], factor="exp(-x**2/4)")), ser(gh(dirs=rng.choice([[0, 1], [0, 2]]))))),
        lambda: call("mul", *swap(ser(QA, 6), ser(gh(dirs=rng.choice([[0, 1], [1, 2]])), 10))),
        lambda: call("Series.tensorize", swap(ser(QA, 36, "cube"), ser(gh(dirs=[1, 2]), 21, "triangle"))),
        lambda: meth(ser(QA, 21, "cross_nc"), "subdegree", 2),
        lambda: meth(ser(F), "to_function"),
        lambda: call("float", ser(QA)),
        lambda: call("truediv", ser(QA), rng.choice([ser(QA), "a", None])),
        lambda: call("Varf.tensorize", swap(var(QA, 6), var(gh(dirs=[2]), 4))),
        lambda: call("Varf.tensorize", swap(var(QA, 9, "cube"), var(gh(dirs=[2]), 3, "triangle"))),
        lambda: call("mul", *swap(var(QA, 9, "cube"), var(gh(dirs=[2]), 3, "triangle"))),
        lambda: call("mul", *swap(ser(QA, 9, "cube"), ser(gh(dirs=[2]), 3, "triangle"))),
        lambda: call("eq", rng.choice([var(QA), {"comp": {"quads": [QA], "w": [1]}}]), rng.choice(["a", 1])),
        lambda: call("str", {"comp": {"quads": rng.choice([[QA, QB], [QC, QA], [QA, QA, QB]]), "w": [1, 1, 1][:2]}}),
        lambda: call("str", {"comp": {"quads": rng.choice([[QA, QA], [QB]]), "w": [1, 1, 1]}}),
        lambda: call("str", {"comp": {"quads": [], "w": []}}),
        lambda: call("to_csr", rng.choice([arr(rng, [3, 3]), 1, "a"])),
        lambda: core("tensorize", {"dict": [[{"fs": [0]}, rng.choice(["a", [1., 2.], None])]]}),
        lambda: core("tensorize", {"dict": [[{"fs": [0]}, arr(rng, [2, 2, 2])], [{"fs": [1]}, arr(rng, [2, 2, 2])]]}),
        lambda: core("tensorize", [arr(rng, [3]), arr(rng, [3])], *rng.choice([[2], [None, 0], [2, 1]])),
        lambda: call(rng.choice(["cpp_mat", "cpp_bmat", "cpp_boost", "cpp_sp"]), {"transposed": arr(rng, [3, 4])}),
    ])()


QA, QB, QC = {"kind": "gh", "n": 4, "dim": 2}, {"kind": "gh", "n": 4, "dim": 2, "mean": [.5, -1.]}, {"kind": "gh", "n": 4, "dim": 2, "cov": [[1., 0.], [0., 2.]]}
EMPTY = ["numpy", "spmat", "project", "projvec", "projnone", "tensid", "tensidsp", "tensvec", "axes", "axessp", "dirs", "discretize", "integrate", "transform", "back", "varf", "inner", "grid", "index"]
KINDS = [bad_set, bad_set, bad_size, bad_size, bad_grid, bad_dirs, bad_dirs, bad_fourier, bad_misc, bad_shape, bad_shape, bad_object, bad_dirlist, bad_dirlist, bad_grid_nd, bad_parts, bad_algebra, bad_algebra, bad_algebra]


def make(rng):
    if rng.random() < .3:
        return corrupt(rng)
    if rng.random() < .06:
        return {"op": "call", "m": "cpp_empty", "args": [rng.choice(EMPTY), rng.randrange(3), rng.randrange(3), rng.choice(gen.SETS)], "kw": {}}
    o = rng.choice(KINDS)(rng)
    o["must_raise"] = 1
    return o
