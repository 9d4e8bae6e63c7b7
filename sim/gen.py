"""Workload generation: families of library calls with alternatives.

A family builds an op spec from a parameter dict; alt() changes exactly one
parameter, giving a *sibling* call: one a correct library must tell apart from
the original (or, for layout, must treat alike).  Everything is drawn from one
random.Random, and nothing here looks at the tree under test.
"""
import copy

SIZES = {
    "triangle": {1: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], 2: [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66, 78, 91],
                 3: [1, 4, 10, 20, 35, 56, 84, 120, 165], 4: [1, 5, 15, 35, 70, 126, 210]},
    "cube": {1: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], 2: [1, 4, 9, 16, 25, 36, 49, 64, 81, 100, 121, 144, 169],
             3: [1, 8, 27, 64, 125, 216, 343, 512, 729], 4: [1, 16, 81, 256, 625, 1296, 2401]},
    "cross": {1: [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], 2: [0, 4, 8, 12, 17, 21, 27, 31, 37, 42, 48, 52, 60],
              3: [0, 8, 20, 32, 50, 62, 86, 98, 123], 4: [0, 16, 48, 80, 136, 168, 248]},
    "rectangle": {1: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], 2: [1, 2, 6, 8, 15, 18, 28, 32, 45, 50, 66, 72, 91],
                  3: [1, 2, 12, 16, 45, 54, 112, 128, 225], 4: [1, 2, 24, 32, 135, 162, 448]},
}
SIZES["cross_nc"] = SIZES["cross"]
SETS = ["triangle", "cube", "cross", "cross_nc", "rectangle"]
F1 = ["1", "x", "x**2", "cos(x)", "exp(-x**2/4)", "x**3 - x", "sin(x) + 2", "x**2/(1 + x**2)", "2*x", "x - 1"]
F2 = ["x*y", "x**2 + y**2", "cos(x)*y", "exp(-(x**2 + y**2)/8)", "x*y**2 + 1", "sin(x + y)", "x - y", "y", "x", "y*y*x"]
OPS1 = ["d(f,x,x) + d(x*f,x)", "d(f,x)", "x*f", "d(f,x,x) - x**2*f", "d((x**3 - x)*f,x) + d(f,x,x)/2", "d(cos(x)*f,x)"]
OPS2 = ["d(f,x,x) + d(f,y,y)", "y*d(f,x) - x*d(f,y)", "d(f,x) + y*f", "d(x*f,x) + d(f,y,y)", "d(x*y*f,x)"]
LONG = "0.125*v[0]*v[0]*v[0]*v[0] + 0.25*v[0]*v[0]*v[0] + 0.5*v[0]*v[0] + 0.75*v[0] + "
CTEXT2 = [LONG + "1.0", LONG + "2.0", LONG + "10.", "1.0 + " + LONG + "1.0", "v[0] - 2", "2 - v[0]", "v[0]*2 - 1", "v[0]*1 - 2", "-v[0]", "v[0]/2", "1/2*v[0]",
          "1./2*v[0]", "v[0]+2", "cos(2*v[0])", "cos(v[0]*2.5)", "sin(v[0])", "v[0]*v[0]", "2.5", "-1.5", "v[0]\n + 1", "exp(-v[0]*v[0]/4)", "pow(v[0], 2)",
          "pow(2, v[0])", "fabs(v[0]) + 1", "(v[0] > 0) ? 1.0 : 2.0", "(v[0] > 0) ? 2.0 : 1.0", "0*v[0]", "1 - -v[0]", "sizeof(\" \")*v[0]", "sizeof(\"\")*v[0]", "'a'*v[0]", "'A'*v[0]", "v[0]*3 ", " v[0]*3"]
CTEXT = ["v[0]*v[0] + 1", "v[0]", "cos(v[0])", "1.5", "fabs(v[0])", "exp(-v[0]*v[0]/3)", "v[0]*v[0]*v[0]", "v[0] + 2", "v[0]*3", "sin(v[0])*M_PI"] + CTEXT2
QUADS1 = [{"kind": "gh", "n": 4, "dim": 1}, {"kind": "gh", "n": 6, "dim": 1}, {"kind": "gh", "n": 5, "dim": 1, "mean": [.5]},
          {"kind": "gh", "n": 5, "dim": 1, "cov": [[2.]]}, {"kind": "nc", "n": [5], "ext": [2.]}, {"kind": "fourier", "n": 8},
          {"kind": "gh", "n": 5, "dim": 1, "mean": [-1.]}, {"kind": "gh", "n": 5, "dim": 1, "mean": [-2.]}]
QUADS2 = [{"kind": "gh", "n": 4, "dim": 2}, {"kind": "gh", "n": 5, "dim": 2}, {"kind": "gh", "n": 4, "dim": 2, "mean": [.5, -1.]},
          {"kind": "gh", "n": 4, "dim": 2, "mean": [.5, -2.]}, {"kind": "gh", "n": 4, "dim": 2, "cov": [[1., 0.], [0., 2.]]},
          {"kind": "gh", "n": 4, "dim": 2, "cov": [[2., 0.], [0., 1.]]}, {"kind": "gh", "n": 4, "dim": 2, "cov": [[2., .5], [.5, 1.]]},
          {"kind": "nc", "n": [4, 4], "ext": [2., 3.]}]


def arr(rng, shape, **kw):
    d = {"shape": list(shape), "seed": rng.randrange(1000)}
    d.update(kw)
    return {"arr": d}


def prod(l):
    r = 1
    for x in l:
        r *= x
    return r


def arr_alt(a, rng, exact=False, layout=True, dtype=False):
    """A sibling of an array argument."""
    a = copy.deepcopy(a)
    d = a["arr"]
    n = max(1, prod(d["shape"]))
    k = rng.choice(["first", "last", "mid", "rand", "neg", "swap", "rev", "seed"] + (["tiny", "tiny", "tinylast"] if exact else [])
                   + (["layout"] if layout and len(d["shape"]) >= 1 else []))
    m = d.setdefault("mods", [])
    if k == "first":
        m.append(["add", 0, 1.])
    elif k == "last":
        m.append(["add", n - 1, 1.])
    elif k == "mid":
        m.append(["add", n//2, -.75])
    elif k == "rand":
        m.append(["add", rng.randrange(n), .5])
    elif k == "neg":
        m.append(["neg", rng.randrange(n)])
    elif k == "swap":
        m.append(["swap", rng.randrange(n), rng.randrange(n)])
    elif k == "rev":
        m.append(["rev"])
    elif k == "seed":
        d["seed"] = rng.randrange(1000)
    elif k == "tiny":
        m.append(["add", rng.randrange(n), 1e-11])
    elif k == "tinylast":
        m.append(["add", n - 1, 1e-9])
    elif k == "layout":
        d["layout"] = rng.choice(["F", "T", "slice", "ro", "rows", "cut", "neg"])
    return a


class Family:
    def __init__(self, name, new, alts, op, reuse=True):
        self.name, self.new, self._alts, self.op, self.reuse = name, new, alts, op, reuse

    def alt(self, p, rng):
        q = copy.deepcopy(p)
        a = rng.choice(self._alts)
        a(q, rng)
        return q


def setter(key, vals):
    def f(p, rng):
        v = [x for x in (vals(p) if callable(vals) else vals) if x != p.get(key)]
        if v:
            p[key] = rng.choice(v)
    return f


def aalt(key, **kw):
    def f(p, rng):
        p[key] = arr_alt(p[key], rng, **kw)
    return f


FAMS = {}


def fam(name, new, alts, op, **kw):
    FAMS[name] = Family(name, new, alts, op, **kw)


def core(fn, *args, **kw):
    return {"op": "core", "fn": fn, "args": list(args), "kw": kw}


def kwset(p, d):
    """Pass the index set by keyword, by position or as the default."""
    return d


# ---- iterators
def _it_new(rng):
    return {"dim": rng.choice([1, 2, 2, 3, 3, 4]), "deg": rng.choice([1, 2, 3, 4, 5, 6]), "set": rng.choice(SETS)}


fam("it_size", _it_new, [setter("dim", [1, 2, 3, 4]), setter("deg", [1, 2, 3, 4, 5, 6]), setter("set", SETS)],
    lambda p: core("iterator_size", p["dim"], p["deg"], index_set=p["set"]))
fam("it_list", _it_new, [setter("dim", [1, 2, 3, 4]), setter("deg", [1, 2, 3, 4]), setter("set", SETS)],
    lambda p: core("iterator_list_indices", p["dim"], p["deg"], index_set=p["set"]))
fam("it_degree", _it_new, [setter("dim", [1, 2, 3, 4]), setter("deg", [1, 2, 3, 4, 5, 6]), setter("set", SETS)],
    lambda p: core("iterator_get_degree", p["dim"], SIZES[p["set"]][p["dim"]][p["deg"]], index_set=p["set"]))
fam("it_index", lambda rng: {"m": [rng.randrange(rng.choice([4, 12])) for _ in range(rng.choice([1, 2, 3, 4]))], "set": rng.choice(["triangle", "cube"])},
    [lambda p, rng: p["m"].__setitem__(rng.randrange(len(p["m"])), rng.randrange(5)), lambda p, rng: p["m"].reverse(),
     setter("set", ["triangle", "cube"])],
    lambda p: core("iterator_index", p["m"], index_set=p["set"]))
# iterator_size and iterator_get_degree accept the same argument tuple in one dimension
fam("it_same_args", lambda rng: {"fn": rng.choice(["iterator_size", "iterator_get_degree"]), "n": rng.choice([2, 3, 4, 5])},
    [setter("fn", ["iterator_size", "iterator_get_degree", "iterator_list_indices"]), setter("n", [2, 3, 4, 5])],
    lambda p: core(p["fn"], 1, p["n"]))


# ---- grids
GDEG = {1: [1, 2, 3, 5, 8], 2: [1, 2, 3, 5], 3: [1, 2, 3]}


def _grid_new(rng):
    dim = rng.choice([1, 1, 2, 2, 3])
    n = rng.choice({1: [3, 4, 5, 12, 30], 2: [3, 4, 5, 9], 3: [3, 4]}[dim])
    if dim == 2 and rng.random() < .08:
        n = 36
    st = rng.choice(SETS)
    return {"dim": dim, "n": n, "set": st, "deg": rng.choice(GDEG[dim]), "f": scaled(rng, arr(rng, [n**dim], dist=rng.choice(["normal", "int"]))),
            "nodes": rng.choice(["nodes", "nodesarr"]), "sparse": rng.random() < .4, "kwf": rng.random() < .5}


def scaled(rng, a):
    if rng.random() < .3:
        a["arr"]["mods"] = [["scale", rng.choice(SCALES)]]
    return a


def _scale_alt(p, rng):
    d = p["f"]["arr"]
    d["mods"] = [m for m in d.get("mods", []) if m[0] != "scale"] + [["scale", rng.choice(SCALES)]]


SCALES = [1e-9, 1e-5, 1e-3, 1e6, 1e12, 1e15]


def _nodes(p):
    return {p["nodes"]: [p["n"]]*p["dim"]}, {"weightsarr" if p["nodes"] == "nodesarr" else "weights": [p["n"]]*p["dim"]}


_galts = [aalt("f"), aalt("f"), _scale_alt, setter("set", SETS), setter("deg", lambda p: GDEG[p["dim"]])]
# more entries than any sample or buffer has
BIGN = [[110, 2], [160, 2], [30, 3]]


def _big_new(rng):
    n, dim = rng.choice(BIGN)
    return {"g": [n]*dim, "f": arr(rng, [n**dim])}


fam("big", _big_new, [aalt("f", layout=False)], lambda p: core("integrate", p["f"], {"nodes": p["g"]}, {"weights": p["g"]}))


fam("integrate", _grid_new, [aalt("f")], lambda p: core("integrate", p["f"], *_nodes(p)))
fam("transform", _grid_new, _galts, lambda p: core("transform", p["deg"], p["f"], *_nodes(p), index_set=p["set"]))
fam("varf", _grid_new, _galts + [setter("sparse", [True, False])],
    lambda p: core("varf", p["deg"], p["f"], *_nodes(p), sparse=p["sparse"], index_set=p["set"]))


def _back_new(rng):
    p = _grid_new(rng)
    return {"dim": p["dim"], "n": p["n"], "set": p["set"], "deg": p["deg"], "nodes": p["nodes"],
            "c": arr(rng, [SIZES[p["set"]][p["dim"]][p["deg"]]])}


fam("eval_core", _back_new, [aalt("c")], lambda p: core("transform", p["deg"], p["c"], *_nodes(p), forward=False, index_set=p["set"]))


def _fourier_new(rng):
    n = rng.choice([5, 6, 8, 17])
    return {"n": n, "deg": rng.choice([2, 4, 6]), "f": arr(rng, [n]), "fo": rng.choice([0, 1]), "fn": rng.choice(["transform", "varf", "integrate"])}


def _fourier_op(p):
    g = ({"fnodes": [p["n"]]}, {"fweights": [p["n"]]})
    if p["fn"] == "integrate":
        return core("integrate", p["f"], *g, do_fourier=[p["fo"]])
    return core(p["fn"], p["deg"], p["f"], *g, do_fourier=[p["fo"]])


fam("fourier", _fourier_new, [aalt("f"), setter("fo", [0, 1]), setter("deg", [2, 4, 6]), setter("fn", ["transform", "varf", "integrate"])], _fourier_op)


# ---- matrices
def _varfd_new(rng):
    dim = rng.choice([1, 2, 2, 3])
    st = rng.choice(["triangle", "cube", "triangle", "rectangle"])
    deg = rng.choice({1: [1, 2, 3, 6, 9], 2: [1, 2, 3, 4], 3: [1, 2]}[dim])
    n = SIZES[st][dim][deg]
    sp = rng.random() < .4
    m = {"csr": {"shape": [n, n], "seed": rng.randrange(1000), "density": .4}} if sp else arr(rng, [n, n])
    return {"dim": dim, "deg": deg, "dir": rng.randrange(dim), "set": st, "m": m, "sp": sp, "fo": 0}


def _m_alt(p, rng):
    if p["sp"]:
        k = rng.choice(["seed", "dseed", "mods", "dense"])
        if k == "dseed":
            p["m"]["csr"]["dseed"] = rng.randrange(99)
        elif k == "seed":
            p["m"]["csr"]["seed"] = rng.randrange(1000)
        elif k == "mods":
            p["m"]["csr"].setdefault("mods", []).append(["scale", -1.])
        else:
            d = p["m"]["csr"]
            p["m"] = {"arr": {"shape": d["shape"], "seed": d["seed"]}}
            p["sp"] = False
    else:
        p["m"] = arr_alt(p["m"], rng, layout=False)


fam("varfd", _varfd_new, [_m_alt, _m_alt, setter("dir", lambda p: list(range(p["dim"])))],
    lambda p: core("varfd", p["dim"], p["deg"], p["dir"], p["m"], index_set=p["set"]))


def _proj_new(rng):
    dim = rng.choice([2, 2, 3, 3, 4])
    st = rng.choice(SETS)
    deg = rng.choice({2: [1, 2, 4, 6], 3: [1, 2, 3], 4: [1, 2]}[dim])
    n = SIZES[st][dim][deg]
    mat = rng.random() < .4
    return {"dim": dim, "set": st, "deg": deg, "m": arr(rng, [n, n] if mat else [n]), "dirs": sorted(rng.sample(range(dim), rng.choice([1, 1, 2])))}


fam("project", _proj_new, [aalt("m"), setter("dirs", lambda p: [[0], [1], [0, 1]] + ([[2], [0, 2], [1, 2]] if p["dim"] >= 3 else []) + ([[3], [0, 1, 3]] if p["dim"] == 4 else []))],
    lambda p: core("project", p["m"], p["dim"], p["dirs"] if len(p["dirs"]) > 1 else p["dirs"][0], index_set=p["set"]))


def _tens_new(rng):
    st = rng.choice(SETS)
    dim = rng.choice([2, 2, 3, 4])
    deg = rng.choice({2: [1, 2, 3, 6], 3: [1, 2, 3], 4: [1, 2]}[dim])
    n = SIZES[st][1][deg]
    mat = rng.random() < .5
    return {"set": st, "a": [arr(rng, [n, n] if mat else [n]) for _ in range(dim)], "mat": mat, "sparse": mat and rng.random() < .5,
            "how": rng.choice(["list", "dict", "dict"]), "order": list(range(dim))}


def _tens_alt(p, rng):
    i = rng.randrange(len(p["a"]))
    p["a"][i] = arr_alt(p["a"][i], rng, layout=True)


def _tens_op(p):
    if p["how"] == "list":
        inp = p["a"]
    else:
        inp = {"dict": [[{"fs": [d]}, a] for d, a in zip(p["order"], p["a"])]}
    kw = {"index_set": p["set"]}
    if p["sparse"]:
        kw["sparse"] = True
    return core("tensorize", inp, **kw)


fam("tensorize", _tens_new, [_tens_alt, _tens_alt, lambda p, rng: p["a"].reverse(), lambda p, rng: rng.shuffle(p["order"]),
                             lambda p, rng: p.update(sparse=not p["sparse"] and p["mat"]), setter("how", ["list", "dict"])], _tens_op)


def _block_op(p):
    inp = {"dict": [[{"fs": b}, {"arr": {"shape": [SIZES[p["set"]][len(b)][p["deg"]]]*(2 if p["mat"] else 1), "seed": p["seed"] + i}}] for i, b in enumerate(BLOCKS[p["b"]])]}
    kw = {"index_set": p["set"]}
    if p["sparse"] and p["mat"]:
        kw["sparse"] = True
    return core("tensorize", inp, **kw)


BLOCKS = [[[0, 1], [2]], [[2], [0, 1]], [[0, 2], [1]], [[1, 2], [0]], [[0, 1], [2, 3]], [[0, 3], [1, 2]], [[0], [1], [2, 3]], [[0, 1, 2], [3]]]
fam("tens_block", lambda rng: {"b": rng.randrange(len(BLOCKS)), "deg": rng.choice([1, 2]), "mat": rng.random() < .4, "sparse": rng.random() < .4, "seed": rng.randrange(900),
                               "set": rng.choice(["triangle", "cube", "cross"])},
    [setter("b", range(len(BLOCKS))), setter("deg", [1, 2]), setter("seed", range(4)), setter("sparse", [True, False]), setter("set", ["triangle", "cube", "cross"])], _block_op)
fam("tens_id", lambda rng: {"n": rng.choice([3, 4]), "mat": rng.random() < .5, "dim": rng.choice([2, 3]), "dir": rng.choice([0, 1]),
                            "seed": rng.randrange(1000), "set": rng.choice(["triangle", "cube"])},
    [setter("dim", [2, 3]), setter("dir", [0, 1]), setter("seed", [1, 2, 3]), setter("set", ["triangle", "cube"])],
    lambda p: core("tensorize", {"arr": {"shape": [p["n"]]*(2 if p["mat"] else 1), "seed": p["seed"]}}, p["dim"], p["dir"], index_set=p["set"]))
fam("tens_scal", lambda rng: {"v": [float(rng.choice([1.5, 2.5, -1.5, 3.25])) for _ in range(2)]},
    [lambda p, rng: p["v"].__setitem__(rng.randrange(2), rng.choice([1.5, 2.5, -1.5, 3.25, -2.5, -1., -2.]))],
    lambda p: core("tensorize", p["v"]))


def _inner_new(rng):
    st = rng.choice(["triangle", "cube", "rectangle", "triangle"])
    deg = rng.choice([1, 2, 3, 5])
    d1, d2 = rng.choice([([0], [1]), ([1], [0]), ([0], [0]), ([0, 1], [1]), ([0], [0, 1]), ([0, 1], [0, 1])])
    if st == "rectangle":
        d1, d2 = rng.choice([([0], [0]), ([0, 1], [0, 1])])
    return {"set": st, "a": arr(rng, [SIZES[st][len(d1)][deg]]), "b": arr(rng, [SIZES[st][len(d2)][deg]]), "d1": d1, "d2": d2}


def _inner_alt(p, rng):
    if len(p["d1"]) == 1 and len(p["d2"]) == 1 and p["set"] != "rectangle":
        p["d1"], p["d2"] = rng.choice([([0], [1]), ([1], [0]), ([0], [0]), ([0], [2])])
    else:
        p["a"] = arr_alt(p["a"], rng)


fam("inner", _inner_new, [aalt("a"), aalt("b"), _inner_alt], lambda p: core("inner", p["a"], p["b"], p["d1"], p["d2"], index_set=p["set"]))

# ---- compiled integrands
fam("ctext", lambda rng: {"f": rng.choice(CTEXT), "n": rng.choice([3, 4, 5]), "mean": rng.choice([0., .5, -1., -2.]), "dil": rng.choice([1., 2.])},
    [setter("f", CTEXT), setter("f", CTEXT), setter("mean", [0., .5, -1., -2.]), setter("dil", [1., 2.]), setter("n", [3, 4, 5])],
    lambda p: core("discretize", p["f"], {"nodes": [p["n"]]}, {"lit": {"v": [p["mean"]]}}, {"lit": {"v": [[p["dil"]]]}}))
TEXT2D = ["v[0]*v[1]", "v[1]*v[0] + 1", "v[0] - v[1]", "v[1] - v[0]", "cos(v[0])*v[1]", "v[0]", "v[1]"]
fam("ctext2d", lambda rng: {"f": rng.choice(TEXT2D), "n": rng.choice([3, 4]), "m": rng.choice([[0., 0.], [1., 0.], [0., 1.]]), "d": rng.choice([[[1., 0.], [0., 1.]], [[1., .5], [0., 1.]],
                                                                                                                     [[1., 0.], [.5, 1.]]])},
    [setter("f", TEXT2D), setter("n", [3, 4]), setter("m", [[0., 0.], [1., 0.], [0., 1.]]), setter("d", [[[1., 0.], [0., 1.]], [[1., .5], [0., 1.]], [[1., 0.], [.5, 1.]]])],
    lambda p: core("discretize", p["f"], {"nodes": [p["n"]]*2}, {"lit": {"v": p["m"]}}, {"lit": {"v": p["d"]}}))
fam("discretize1", lambda rng: {"q": rng.randrange(len(QUADS1)), "f": rng.choice(F1)}, [setter("q", range(len(QUADS1))), setter("f", F1), setter("f", F1)],
    lambda p: {"op": "quad", "m": "discretize", "quad": QUADS1[p["q"]], "f": p["f"]})
fam("discretize2", lambda rng: {"q": rng.randrange(len(QUADS2)), "f": rng.choice(F2)}, [setter("q", range(len(QUADS2))), setter("f", F2), setter("f", F2)],
    lambda p: {"op": "quad", "m": "discretize", "quad": QUADS2[p["q"]], "f": p["f"]})
fam("integrate1", lambda rng: {"q": rng.randrange(len(QUADS1)), "f": rng.choice(F1)}, [setter("q", range(len(QUADS1))), setter("f", F1)],
    lambda p: {"op": "quad", "m": "integrate", "quad": QUADS1[p["q"]], "f": p["f"]})
fam("integrate2", lambda rng: {"q": rng.choice([0, 1, 2, 3]), "f": rng.choice(F2)}, [setter("q", [0, 1, 2, 3]), setter("f", F2)],
    lambda p: {"op": "quad", "m": "integrate", "quad": QUADS2[p["q"]], "f": p["f"]})


def _qt_new(rng):
    two = rng.random() < .4
    return {"two": two, "q": rng.choice([0, 1, 2, 3]), "f": rng.choice(F2 if two else F1), "deg": rng.choice([2, 3]), "set": rng.choice(["triangle", "cube"]),
            "m": rng.choice(["transform", "varf"]), "sparse": None}


def _qt_op(p):
    kw = {"index_set": p["set"]}
    if p["m"] == "varf" and p.get("sparse") is not None:
        kw["sparse"] = p["sparse"]
    return {"op": "quad", "m": p["m"], "quad": (QUADS2 if p["two"] else QUADS1)[p["q"]], "f": p["f"], "degree": p["deg"], "kw": kw}


fam("qtransform", _qt_new, [setter("q", [0, 1, 2, 3]), setter("f", lambda p: F2 if p["two"] else F1), setter("deg", [2, 3]),
                            setter("set", ["triangle", "cube"]), setter("m", ["transform", "varf"]), setter("sparse", [True, False, None])], _qt_op)


def _qo_new(rng):
    two = rng.random() < .4
    return {"two": two, "q": rng.choice([0, 1]), "f": rng.choice(OPS2 if two else OPS1), "deg": rng.choice([2, 3]), "set": rng.choice(["triangle", "cube"])}


fam("qop", _qo_new, [setter("q", [0, 1]), setter("f", lambda p: OPS2 if p["two"] else OPS1), setter("deg", [2, 3])],
    lambda p: {"op": "quad", "m": "op", "quad": (QUADS2 if p["two"] else QUADS1)[p["q"]], "f": p["f"], "dirs": [0, 1] if p["two"] else [0],
               "degree": p["deg"], "kw": {"index_set": p["set"]}})
fam("pipeline", _qo_new, [setter("f", lambda p: OPS2 if p["two"] else OPS1), setter("deg", [2, 3])],
    lambda p: {"op": "quad", "m": "pipeline", "quad": (QUADS2 if p["two"] else QUADS1)[p["q"]], "f": p["f"], "dirs": [0, 1] if p["two"] else [0],
               "degree": p["deg"], "g": "x**2 + 1", "kw": {"index_set": p["set"]}})
fam("solve", lambda rng: {"f": rng.choice(["d(f,x,x) + d(x*f,x) - 2*f", "d(f,x,x) - 3*f", "x*d(f,x) - 4*f"]), "deg": rng.choice([3, 4]),
                          "g": rng.choice(["1 + x", "x**2", "cos(x)"]), "sparse": rng.random() < .5},
    [setter("f", ["d(f,x,x) + d(x*f,x) - 2*f", "d(f,x,x) - 3*f", "x*d(f,x) - 4*f"]), setter("g", ["1 + x", "x**2", "cos(x)"]),
     setter("sparse", [True, False])],
    lambda p: {"op": "quad", "m": "solve", "quad": QUADS1[1], "f": p["f"], "dirs": [0], "degree": p["deg"], "g": p["g"], "kw": {"sparse": p["sparse"]}})
fam("eigs", lambda rng: {"deg": rng.choice([6, 7]), "k": rng.choice([1, 2])}, [setter("deg", [6, 7]), setter("k", [1, 2])],
    lambda p: {"op": "quad", "m": "eigs", "quad": {"kind": "gh", "n": 10, "dim": 1}, "f": "d(f,x,x) + d(x*f,x) - x**2*f/9 - 2*f", "dirs": [0],
               "degree": p["deg"], "skw": {"k": p["k"], "which": "LR"}}, reuse=False)
fam("series_ops", lambda rng: {"two": rng.random() < .6, "deg": rng.choice([2, 3]), "set": rng.choice(["triangle", "cube"]), "seed": rng.randrange(1000)},
    [setter("seed", range(5)), setter("deg", [2, 3])],
    lambda p: {"op": "quad", "m": "series_ops", "quad": (QUADS2 if p["two"] else QUADS1)[0],
               "c": {"arr": {"shape": [SIZES[p["set"]][2 if p["two"] else 1][p["deg"]]], "seed": p["seed"]}}, "kw": {"index_set": p["set"]}})
fam("eval", lambda rng: {"two": rng.random() < .6, "deg": rng.choice([2, 3]), "set": rng.choice(["triangle", "cube"]), "seed": rng.randrange(1000)},
    [setter("seed", range(5)), setter("deg", [2, 3])],
    lambda p: {"op": "quad", "m": "eval", "quad": (QUADS2 if p["two"] else QUADS1)[0],
               "c": {"arr": {"shape": [SIZES[p["set"]][2 if p["two"] else 1][p["deg"]]], "seed": p["seed"]}}, "kw": {"index_set": p["set"]}})


# ---- functions of the user, decorated with the cache
def user(fn, *args, **kw):
    return {"op": "user", "fn": fn, "args": list(args), "kw": kw}


SCAL = [1.5, 2.5, 2., 3., 0., -1., -2., 1e-9, 0.1, 0.1 + 1e-12, 1e300, 314159., -1e-300, 2**60, 2**61 - 1, 2**61, 7, -1, -2, 0.30000000000000004, 0.3]


def _us_new(rng):
    n = rng.choice([2, 3, 4, 6, 8])
    return {"fn": rng.choice(["user_scale", "user_quiet"]), "a": arr(rng, rng.choice([[n], [n], [n, 2], [2, n//2], [1, n], [n, 1], [1200], [40, 30]]),
                                                                      dist=rng.choice(["normal", "int", "range", "huge"])), "c": rng.choice(SCAL)}


def _reshape(key):
    def f(p, rng):
        sh = p[key]["arr"]["shape"]
        n = prod(sh)
        c = [[n], [1, n], [n, 1]] + ([[2, n//2], [n//2, 2]] if n % 2 == 0 else [])
        p[key]["arr"]["shape"] = rng.choice([x for x in c if x != sh])
    return f


def _redtype(key):
    def f(p, rng):
        d = p[key]["arr"]
        d["dist"] = "int"
        d["dtype"] = rng.choice(["f4", "i8", "i4", "f8"])
    return f


_uarr = [aalt("a", exact=True), aalt("a", exact=True), _reshape("a"), _redtype("a")]
fam("user_scale", _us_new, _uarr + [setter("c", SCAL), setter("fn", ["user_scale", "user_quiet"])], lambda p: user(p["fn"], p["a"], p["c"]))
fam("user_same_args", lambda rng: {"fn": rng.choice(["user_cube", "user_mat", "user_nan", "user_int", "user_complex", "user_norm"]),
                                   "a": arr(rng, [rng.choice([3, 4])], dist=rng.choice(["int", "normal"]))},
    [setter("fn", ["user_cube", "user_mat", "user_nan", "user_int", "user_complex", "user_norm"]), aalt("a", exact=False), aalt("a"), _redtype("a")],
    lambda p: user(p["fn"], p["a"]))
ODD = [None, "", "None", 0, 1, -1, -2, 5, "5", "0", 5.5, "5.5", "u", "b", "c", "v", "k", [1, 2], [[1], 2], [[1, 2]], [1, [2]], [], [[]], "list", [2, 1],
       {"complex": [1, 2]}, {"tuple": [1, 2, 3]}, 2**61 - 1, 2**61, 2**61 + 4, 314159, {"float": "inf"}, {"float": "-inf"}, "-1", "-2", [-1, 3], [-2, 3],
       "a-b", "a", ["a", "b"], ["a-b"], {"float": "nan"}, 1e-320, 0.1, 0.1 + 2**-56, "é", "x_0", {"sym": "x + 1"}, {"sym": "x - 1"}, "x + 1",
       {"dict": [["b", 1]]}, {"dict": [["b", 2]]}, {"dict": [["c", 1]]}, ["k", ["b"], "v", [1]], {"fs": [1, 2]}, {"fs": [1, 3]}]
ODD = [o for o in ODD if o != {"complex": [1, 2]}]
fam("user_ident", lambda rng: {"a": rng.choice(ODD), "b": rng.choice(ODD), "c": rng.choice(ODD), "how": rng.choice(["ppp", "pkk", "ppk", "pk", "p", "pp"])},
    [setter("a", ODD), setter("b", ODD), setter("c", ODD), setter("how", ["ppp", "pkk", "ppk", "pk", "p", "pp"]),
     lambda p, rng: p.update(a=p["b"], b=p["a"]), lambda p, rng: p.update(b=p["c"], c=p["b"])],
    lambda p: {"ppp": user("user_ident", p["a"], p["b"], p["c"]), "pkk": user("user_ident", p["a"], b=p["b"], c=p["c"]),
               "ppk": user("user_ident", p["a"], p["b"], c=p["c"]), "pk": user("user_ident", p["a"], c=p["c"]),
               "pp": user("user_ident", p["a"], p["b"]), "p": user("user_ident", p["a"])}[p["how"]])
fam("user_posname", lambda rng: {"v": rng.choice(["q", 7, 2.5]), "how": rng.choice([0, 1, 2, 3])}, [setter("how", [0, 1, 2, 3]), setter("v", ["q", 7, 2.5])],
    lambda p: [user("user_ident", 1, "c", p["v"]), user("user_ident", 1, c=p["v"]), user("user_ident", 1, "b", p["v"]),
               user("user_ident", 1, b=p["v"])][p["how"]])


def _csr_new(rng):
    n = rng.choice([3, 4])
    k = rng.choice([2, 3])
    rc = rng.sample([(i, j) for i in range(n) for j in range(n)], k)
    return {"n": n, "m": n, "row": [r for r, _ in rc], "col": [c for _, c in rc], "data": [float(rng.choice([1, 2, 3.5, -1, -2])) for _ in rc],
            "c": rng.choice([1., 2., -1., -2.])}


def _csr_alt(p, rng):
    k = rng.choice(["row", "col", "data", "swap", "size", "neg", "cols", "cols"])
    i = rng.randrange(len(p["row"]))
    if k == "row":
        p["row"][i] = (p["row"][i] + 1) % p["n"]
    elif k == "col":
        p["col"][i] = (p["col"][i] + 1) % p["n"]
    elif k == "data":
        p["data"][i] += 1e-9
    elif k == "neg":
        p["data"][i] *= -1
    elif k == "cols":
        p["m"] += rng.choice([1, 2, 4])
    elif k == "swap" and p["n"] == p["m"]:
        p["row"], p["col"] = p["col"], p["row"]
    else:
        p["n"] += 1
        p["m"] += 1


fam("user_sparse", _csr_new, [_csr_alt, _csr_alt, setter("c", [1., 2., -1., -2.])],
    lambda p: user("user_sparse", {"csrlit": {"row": p["row"], "col": p["col"], "data": p["data"], "shape": [p["n"], p["m"]]}}, c=p["c"]))
SYMS = ["x + 1", "x - 1", "x**2", "2*x", "x/2", "x*y", "x + y", "exp(x)", "exp(-x)"]
fam("user_sym", lambda rng: {"e": rng.choice(SYMS), "n": rng.choice([1, 2, 3, -1, -2])}, [setter("e", SYMS), setter("n", [1, 2, 3, -1, -2])],
    lambda p: user("user_sym", {"sym": p["e"]}, p["n"]))
fam("user_obj", lambda rng: {"t": rng.choice([1, 2, 3]), "a": arr(rng, [3])}, [setter("t", [1, 2, 3]), aalt("a", exact=True)],
    lambda p: user("user_obj", p["t"], p["a"]))
fam("user_pair", lambda rng: {"a": arr(rng, [3]), "b": rng.choice([1., 2., -1.])}, [aalt("a", exact=True), setter("b", [1., 2., -1., -2.])],
    lambda p: user("user_pair", p["a"], p["b"]), reuse=False)
WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]
fam("user_set", lambda rng: {"s": sorted(rng.sample(WORDS, rng.choice([2, 3, 5])))}, [lambda p, rng: p.update(s=sorted(rng.sample(WORDS, rng.choice([2, 3, 5]))))],
    lambda p: user("user_set", {"fs": p["s"]}))
fam("user_dict", lambda rng: {"k": rng.sample(WORDS, 2), "v": [rng.choice([1., 2., -1., -2.]) for _ in range(2)]},
    [lambda p, rng: p["v"].reverse(), lambda p, rng: p["v"].__setitem__(0, rng.choice([1., 2., -1., -2., 3.])), lambda p, rng: p["k"].__setitem__(0, rng.choice(["a1", "zz"]))],
    lambda p: user("user_dict", {"dict": [[k, v] for k, v in zip(p["k"], p["v"])]}))
KINDS = ["bool", "int", "f4", "c16", "c8", "empty", "empty2", "one", "one2", "zero", "neg", "nan", "inf", "npf", "npf4", "npbool", "pybool", "npint", "csrzero", "csrcomplex",
         "csrint", "csrrect", "csrunsorted", "big", "fortran", "strided", "cubearr", "negzero", "u1", "bigint", "tiny", "complexreal", "vec1", "csr1"]
KINDS += ["csrnan", "csrinf", "csrexplicit", "csrwide", "csrf4", "csrtail", "c16nan", "matnan", "npc", "f2", "i2", "complexnan", "big2", "csrbig", "zerod", "be", "denorm", "hugef"]
KINDS2 = ["str", "none", "list", "tuple", "obj", "strarr", "csc", "coo", "matrix", "hugeint", "dict"]
fam("user_kind", lambda rng: {"k": rng.choice(KINDS), "a": arr(rng, [4], dist=rng.choice(["normal", "int"]))}, [setter("k", KINDS), setter("k", KINDS), aalt("a", exact=False)],
    lambda p: user("user_kind", p["k"], p["a"]))
fam("user_kind2", lambda rng: {"k": rng.choice(KINDS2), "a": arr(rng, [4], dist=rng.choice(["normal", "int"]))}, [setter("k", KINDS + KINDS2), aalt("a", exact=False)],
    lambda p: user("user_kind", p["k"], p["a"]), reuse=False)
fam("user_fail", lambda rng: {"n": rng.randrange(9)}, [setter("n", range(9))], lambda p: user("user_fail", p["n"]), reuse=False)



# ---- arguments of any structure, and changes of one detail
LEAVES = [0, 1, 2, -1, -2, 10, 1.5, -1.5, 1e-9, "", "a", "b", "ab", "0", "1", "None", "a-b", "-", "k", "v", "str:a", None, 2**61 - 1, 2**61, {"float": "inf"}, {"float": "-inf"},
          {"float": "nan"}, -0.5, {"sym": "x"}, {"sym": "x + 1"}, "x", "x + 1"]
# arguments that are easily taken for one another
LEAVES += [{"symf": 0.1}, {"symf": 0.1 + 2**-56}, {"symr": "x"}, {"masked": [0, 1, 0]}, {"masked": [1, 0, 0]}, {"masked": [0, 0, 0]}, {"lit": {"v": [1, 2, 3]}},
           {"matrix": [[1, 2, 3]]}, {"lit": {"v": [[1, 2, 3]]}}, {"objarr": [1, 2, 3]}, {"objarr": [2**70, 2, 3]}, {"objarr": [2**70 + 1, 2, 3]}, {"objarr": [1, None, 3]},
           {"struct": [["a", "f8"], ["b", "f8"]]}, {"struct": [["b", "f8"], ["a", "f8"]]}, {"struct": [["a", "f8"], ["b", "i8"]]}]


def anyval(rng, depth=0):
    k = rng.random()
    if depth > 2 or k < .45:
        return copy.deepcopy(rng.choice(LEAVES))
    n = rng.choice([0, 1, 2, 2, 3])
    if k < .6:
        return [anyval(rng, depth + 1) for _ in range(n)]
    if k < .68:
        return {"tuple": [anyval(rng, depth + 1) for _ in range(n)]}
    if k < .74:
        return {"fs": sorted(rng.sample(["a", "b", "c", "ab", "d"], min(n + 1, 5)))}
    if k < .84:
        ks = rng.sample(["a", "b", "c", "ab", "k", "v"], n)
        return {"dict": [[x, anyval(rng, depth + 1)] for x in ks]}
    if k < .95:
        sh = rng.choice([[2], [3], [1], [0], [2, 2], [1, 3], [2, 1, 2], [40], [600]])
        return {"arr": {"shape": sh, "seed": rng.randrange(50), "dist": rng.choice(["int", "normal", "range", "zeros"])}}
    n = rng.choice([2, 3])
    rc = rng.sample([(i, j) for i in range(n) for j in range(n)], 2)
    return {"csrlit": {"row": [a for a, _ in rc], "col": [b for _, b in rc], "data": [1., rng.choice([1., 2., -1.])], "shape": [n, n]}}


def subst(v, rng):
    """The value with one detail changed."""
    if isinstance(v, list):
        return seqmut(v, rng)
    if not isinstance(v, dict):
        k = rng.random()
        if isinstance(v, (int, float)) and k < .5:
            return rng.choice([-v, v + 1, v*2 + 1, v + 1e-9, str(v)])
        if isinstance(v, str) and k < .4:
            return rng.choice([v + "a", v[:-1], v.upper(), v[::-1], [v], v + " "])
        if k < .7:
            return rng.choice([[v], {"tuple": [v]}, [v, v], str(v)])
        return copy.deepcopy(rng.choice(LEAVES))
    (k, d), = v.items()
    if k == "tuple":
        return {"tuple": seqmut(d, rng)} if rng.random() < .7 else list(d)
    if k == "dict":
        d = copy.deepcopy(d)
        r = rng.random()
        if len(d) > 1 and r < .4:
            i, j = rng.sample(range(len(d)), 2)
            d[i][1], d[j][1] = d[j][1], d[i][1]
            if rng.random() < .5:
                d[i], d[j] = d[j], d[i]
        elif len(d) > 1 and r < .5:
            i, j = rng.sample(range(len(d)), 2)
            d[i][0], d[j][0] = d[j][0], d[i][0]
        elif d and r < .8:
            i = rng.randrange(len(d))
            d[i][1] = subst(d[i][1], rng)
        elif d and r < .9:
            return [[x, y] for x, y in d]
        else:
            d.append([rng.choice(["z", "w", "aa"]), anyval(rng, 3)])
            if len({x for x, _ in d}) < len(d):
                d.pop()
        return {"dict": d}
    if k == "fs":
        return {"fs": sorted(set(d) ^ {rng.choice(["a", "b", "e"])})} if rng.random() < .7 else {"tuple": list(d)}
    if k == "arr":
        a = copy.deepcopy(v)
        n = prod(d["shape"])
        r = rng.random()
        if r < .2 and n > 1:
            a["arr"]["shape"] = rng.choice([[n], [1, n], [n, 1], [1, 1, n]])
        elif r < .35:
            a["arr"]["dtype"] = rng.choice(["f4", "i8", "i4", "u1", "?", "f8", "c16"])
        elif r < .45:
            a["arr"]["shape"] = d["shape"][:-1] + [d["shape"][-1] + 1]
        elif r < .5:
            return [0.]*n if n < 10 else [n]
        elif n:
            a = arr_alt(a, rng, exact=True, layout=False)
        return a
    if k == "csrlit":
        d = copy.deepcopy(d)
        r = rng.random()
        if r < .4:
            d["shape"][rng.randrange(2)] += rng.choice([1, 3])
        elif r < .7:
            d["data"][rng.randrange(2)] += rng.choice([1., 1e-9, -3.])
        else:
            d["row"], d["col"] = d["col"], d["row"]
            if max(d["row"]) >= d["shape"][0] or max(d["col"]) >= d["shape"][1]:
                d["row"], d["col"] = d["col"], d["row"]
        return {"csrlit": d}
    near = [e for e in LEAVES if e != v and isinstance(e, dict) and (k in e or k in ("matrix", "masked", "objarr") and "lit" in e or "sym" in k and "sym" in min(e))]
    if near and rng.random() < .7:
        return copy.deepcopy(rng.choice(near))
    return copy.deepcopy(rng.choice(LEAVES))


def seqmut(v, rng):
    v = copy.deepcopy(v)
    r = rng.random()
    if v and r < .45:
        i = rng.randrange(len(v))
        v[i] = subst(v[i], rng)
    elif len(v) > 1 and r < .6:
        i, j = rng.sample(range(len(v)), 2)
        v[i], v[j] = v[j], v[i]
    elif v and r < .7:
        v.insert(rng.randrange(len(v)), copy.deepcopy(rng.choice(v)))
    elif v and r < .8:
        v.pop(rng.randrange(len(v)))
    elif len(v) > 1 and r < .9:          # (a, b, c) -> ((a, b), c)
        i = rng.randrange(1, len(v) + 1)
        v = [v[:i]] + v[i:]
    elif v and isinstance(v[0], list):
        v = v[0] + v[1:]
    else:
        v.append(anyval(rng, 3))
    return v


def _any_new(rng):
    return {"args": [anyval(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))], "kw": [[k, anyval(rng)] for k in rng.sample(["a", "b", "c", "ab", "power"], rng.choice([0, 0, 1, 2]))]}


def _any_alt(p, rng):
    r = rng.random()
    if r < .55 or not p["kw"]:
        p["args"] = seqmut(p["args"], rng)
    elif r < .7 and len(p["kw"]) > 1:
        p["kw"][0][1], p["kw"][1][1] = p["kw"][1][1], p["kw"][0][1]
        if rng.random() < .5:
            p["kw"].reverse()
    elif r < .75:
        p["args"] += [p["kw"][0][0], p["kw"][0][1]]       # a keyword becomes two positional arguments
        p["kw"] = p["kw"][1:]
    elif r < .8:
        p["args"].append(p["kw"][0][1])
        p["kw"] = p["kw"][1:]
    elif r < .87:
        p["kw"] = p["kw"][1:]
    elif r < .93:
        p["kw"][0][0] = rng.choice(["d", "e", "ba"])
    else:
        p["kw"][-1][1] = subst(p["kw"][-1][1], rng)


# ---- groups of arguments that are different, but alike in content, text or bytes
def A(shape, **kw):
    return {"arr": dict({"shape": shape, "seed": 3, "dist": "normal"}, **kw)}


def twins():
    f = A([4])
    sq, sq3 = A([2, 2]), A([3, 3])
    csr = {"row": [0, 1], "col": [1, 0], "data": [1., 2.], "shape": [2, 2]}
    return [
        LEAVES[-16:-13] + [{"sym": "x/10"}, {"sym": "x + 1"}, {"symx": ["x + 1", {"x": {"positive": True}}]}, {"symx": ["x + 1", {"x": {"commutative": False}}]}],
        [{"masked": [0, 1, 0]}, {"masked": [1, 0, 0]}, {"masked": [0, 0, 0]}, {"lit": {"v": [1, 2, 3]}}],
        [{"matrix": [[1, 2, 3]]}, {"lit": {"v": [[1, 2, 3]]}}, [[1, 2, 3]], {"tuple": [[1, 2, 3]]}, {"lit": {"v": [[1], [2], [3]]}}, {"matrix": [[1], [2], [3]]}],
        [{"objarr": [1, 2, 3]}, {"objarr": [2**70, 2, 3]}, {"objarr": [2**70 + 1, 2, 3]}, {"objarr": [1, None, 3]}, {"objarr": ["1", 2, 3]}, {"lit": {"v": [1, 2, 3], "dtype": "i8"}}, [1, 2, 3]],
        [{"struct": [["a", "f8"], ["b", "f8"]]}, {"struct": [["b", "f8"], ["a", "f8"]]}, {"struct": [["a", "f8"], ["b", "i8"]]}],
        [f] + [{"view": [f, t]} for t in ("i8", "u8", ">f8", "c8", "M8[s]", "M8[D]")],
        [A([4], dist="zeros", dtype=t) for t in ("f8", "i8", "u8", "c8", "f4", "i4", "u1", "?")],
        [sq, {"transposed": sq}, sq3, {"transposed": sq3}, A([2, 2], layout="F"), {"transposed": A([2, 2], layout="F")}],
        [A([6]), A([2, 3]), A([3, 2]), A([6, 1]), A([1, 6]), A([2, 3, 1]), A([1, 2, 3]), {"transposed": A([2, 3])}, {"transposed": A([3, 2])}],
        [A(s, dist="zeros") for s in ([0], [0, 3], [3, 0], [1], [1, 1], [2], [3])] + [[], [0.], 0.],
        [A([1500]), A([1500], mods=[["add", 750, 1.]]), A([1500], mods=[["add", 750, 1e-9]]), A([1500], mods=[["add", 1499, 1.]]), A([1500], mods=[["swap", 700, 800]]), A([1500], mods=[["neg", 2]]), A([1499])],
        [A([40, 40]), A([40, 40], mods=[["add", 777, 1.]]), A([40, 40], mods=[["add", 1599, 1.]]), {"transposed": A([40, 40])}, A([40, 40], mods=[["swap", 801, 840]])],
        [A([25000]), A([25000], mods=[["add", 12345, 1.]]), A([25000], mods=[["add", 24998, 1.]]), A([25000], mods=[["neg", 1]]), A([25000], mods=[["swap", 12000, 13001]]), A([24999]), A([250, 100]), A([25000], dtype="f4")],
        [A([1200, 300]), A([1200, 300], mods=[["add", 180001, 1e-9]]), A([1200, 300], mods=[["add", 359997, 1.]]), A([1200, 300], mods=[["swap", 3, 4]]), A([300, 1200]), {"transposed": A([300, 1200])}],
        [A([3]), A([3], mods=[["add", 1, 1e-12]]), A([3], mods=[["neg", 1]]), A([3], mods=[["swap", 0, 2]]), A([3], mods=[["swap", 0, 1]]), A([3], dtype="f4"), A([3], mods=[["add", 0, 1e-9], ["add", 1, -1e-9]])],
        [{"lit": {"v": [2**k + e, 5], "dtype": t}} for k, e, t in ((60, 0, "i8"), (60, 1, "i8"), (60, -1, "i8"), (60, 0, "u8"), (53, 0, "i8"), (53, 1, "i8"), (60, 0, "f8"), (62, 0, "i8"))],
        [{"lit": {"v": v, "dtype": "f8"}} for v in ([1e300, 1.], [1e300*(1 + 2**-52), 1.], [-1e300, 1.], [1e-300, 1.], [2e-300, 1.], [1e300, 1. + 2**-52])] + [{"lit": {"v": [1., 1.], "dtype": "f4"}}, {"lit": {"v": [1. + 2**-23, 1.], "dtype": "f4"}}],
        [{"lit": {"v": v, "dtype": "f8"}} for v in ([0., 1.], [-0., 1.])] + [{"lit": {"v": [0, 1], "dtype": t}} for t in ("?", "i1", "u1", "i2")],
        [{"lit": {"v": [["a", "b"]]}}, {"lit": {"v": [["ab", ""]]}}, {"lit": {"v": [["a"], ["b"]]}}, {"lit": {"v": ["a", "b"]}}, {"lit": {"v": ["ab", ""]}}, ["a", "b"]],
        [A([3], dist="int"), A([3], dist="int", dtype="i8"), A([3], dist="int", dtype="i4"), A([3], dist="int", dtype="c16"), A([3], dist="int", dtype=">f8")],
        [{"csrlit": csr}, {"csrlit": dict(csr, shape=[2, 3])}, {"csrlit": dict(csr, shape=[3, 2])}, {"csrlit": dict(csr, row=[0, 0], col=[0, 1])}, {"csrlit": dict(csr, row=[0, 0])}, {"csrlit": dict(csr, row=[1, 1])},
         {"csrlit": dict(csr, data=[2., 1.])}, {"csrlit": dict(csr, data=[1., 0.])}, {"lit": {"v": [[0., 1.], [2., 0.]]}}, {"csrlit": dict(csr, row=[0, 1], col=[0, 1])}],
        [1, "1", [1], [[1]], {"tuple": [1]}, {"lit": {"v": [1]}}, {"lit": {"v": 1}}, {"dict": [["1", 1]]}, {"fs": [1]}, {"objarr": [1]}],
        ["", [], {"tuple": []}, {"dict": []}, {"fs": []}, None, "None", [None], [[]], 0, "0", "[]", "()", "{}", {"objarr": []}, {"lit": {"v": []}}],
        [["a", "b"], ["a-b"], ["ab"], ["a", "b", ""], "ab", "a-b", {"tuple": ["a", "b"]}, {"fs": ["a", "b"]}, ["b", "a"], ["a", ["b"]], [["a"], "b"], "['a', 'b']", {"dict": [["a", "b"]]}, {"dict": [["b", "a"]]}],
        [{"dict": [["a", 1], ["b", 2]]}, {"dict": [["a", 2], ["b", 1]]}, {"dict": [["b", 1], ["a", 2]]}, {"dict": [["a", 1]]}, {"dict": [["a", [1, "b", 2]]]}, {"dict": [["a", 1], ["b", "2"]]}, [["a", 1], ["b", 2]],
         ["k", "a", "b", "v", 1, 2], {"dict": [[1, "a"], [2, "b"]]}],
        [{"dict": [[0, A([2])], [1, A([2], mods=[["rev"]])]]}, {"dict": [[1, A([2])], [0, A([2], mods=[["rev"]])]]}, {"dict": [[0, A([2], mods=[["rev"]])], [1, A([2])]]}, [A([2]), A([2], mods=[["rev"]])]],
        [1., 1.5, -1.5, 15, .15, 1.5 + 2**-50, "1.5", 1.5e10, 1.5e-10, 2, {"float": "nan"}, {"float": "inf"}, {"float": "-inf"}, "inf", "nan"],
        [.1, .1 + 2**-56, .1 - 2**-57, .1 + 1e-9, "0.1", .01, 1e-200, 1e-201, 2e-200],
        [2**53, 2**53 + 1, 2**61 - 1, 2**61, 0, -1, -2, 1, 2**64, 2**64 + 1, 2**31, -2**31, 2**32],
        ["x" * 300, "x" * 301, "x" * 299 + "y", "y" + "x" * 299, "x" * 150 + "y" + "x" * 149, "X" * 300],
        [list(range(300)), list(range(299)), list(range(150)) + [0] + list(range(151, 300)), list(range(299, -1, -1)), {"tuple": list(range(300))}],
        [[1, 2, 3], [12, 3], [1, 23], [123], [1, [2, 3]], [[1, 2], 3], [[1, 2, 3]], [3, 2, 1], [1, 2, 3, 3], [1, 2], [1., 2., 3.5], {"tuple": [1, 2, 3]}, {"fs": [1, 2, 3]}],
        [[[1, 2], [3, 4]], [[1, 2, 3, 4]], [[1], [2, 3, 4]], [[1, 3], [2, 4]], [1, 2, 3, 4], [[1, 2], {"tuple": [3, 4]}]],
        ["x", "y", "X", "x ", " x", "x\n", "é", "é", "𝑥", "x\x00", "x\x00y"],
        [{"lit": {"v": ["a", "b"], "dtype": "U1"}}, {"lit": {"v": ["a", "b"], "dtype": "U2"}}, {"lit": {"v": ["b", "a"], "dtype": "U1"}}, ["a", "b"], {"objarr": ["a", "b"]}],
    ]


TW = twins()
HOW = ["arg", "list", "dict", "second", "kw", "deep"]


def _twin_op(p):
    v = TW[p["g"]][p["i"] % len(TW[p["g"]])]
    h = p["how"]
    if h == "kw":
        return user("user_any", 1, a=v)
    return user("user_any", *{"arg": [v], "list": [[v, 2]], "dict": [{"dict": [["a", v]]}], "second": ["a", v], "deep": [[[0, v], "z"]]}[h])


fam("user_twin", lambda rng: {"g": rng.randrange(len(TW)), "i": rng.randrange(99), "how": rng.choice(HOW)}, [lambda p, rng: p.update(i=p["i"] + rng.randrange(1, 15))] * 7 + [setter("how", HOW)], _twin_op)
SAMEF = ["user_same_%d%s" % (i, k) for i in range(3) for k in ("top", "K", "L", "in")]
fam("user_samename", lambda rng: {"f": rng.choice(SAMEF), "x": rng.choice([1., 2., 3.])}, [setter("f", SAMEF)] * 5 + [setter("x", [1., 2., 3.])], lambda p: user(p["f"], p["x"]))
fam("user_any", _any_new, [_any_alt], lambda p: user("user_any", *p["args"], **dict(map(tuple, p["kw"]))))
OPT = {"power": [0, 1, 2, 3], "shift": [0., .5, -.5, 1.], "mode": ["up", "down", ""], "w": [None, 0, 1., [], [1., 2.], 2.], "flag": [True, False, None, 2]}


def _opt_alt(p, rng):
    k = rng.choice(sorted(OPT))
    if k in p["o"] and rng.random() < .5:
        del p["o"][k]
    else:
        p["o"][k] = rng.choice(OPT[k])


def _opt_new(rng):
    p = {"a": [rng.choice([1., 2., 3.]) for _ in range(2)], "o": {}}
    if rng.random() < .5:
        _opt_alt(p, rng)
    return p


fam("user_opt", _opt_new, [_opt_alt], lambda p: user("user_opt", {"lit": {"v": p["a"]}}, **p["o"]))
LONGT = [[60, 0], [300, 0], [0, 300], [1100, 0], [0, 1100], [1100, 1100], [4200, 0], [4200, 300], [9000, 60]]


def longtext(p):
    def pad(n):
        return "".join(" + %d*v[0]" % (k % 7) for k in range(n//9))
    return "v[0]" + pad(LONGT[p["w"]][0]) + " + %s" % p["mid"] + pad(LONGT[p["w"]][1])


fam("ctext_long", lambda rng: {"w": rng.randrange(len(LONGT)), "mid": rng.choice(["1.5", "2.5"]), "n": 3}, [setter("mid", ["1.5", "2.5"]), setter("mid", ["1.5", "2.5"]), setter("w", range(len(LONGT)))],
    lambda p: core("discretize", longtext(p), {"nodes": [p["n"]]}, {"lit": {"v": [0.]}}, {"lit": {"v": [[1.]]}}))

CORE = ["big", "it_size", "it_list", "it_degree", "it_index", "it_same_args", "integrate", "transform", "varf", "eval_core", "fourier", "varfd", "project",
        "tensorize", "tens_block", "tens_id", "tens_scal", "inner"]
JIT = ["ctext", "ctext", "ctext_long", "ctext2d", "discretize1", "discretize2", "integrate1", "integrate2"]
QUAD = ["qtransform", "qop", "pipeline", "solve", "eigs", "series_ops", "eval"]
USER = ["user_scale", "user_same_args", "user_ident", "user_posname", "user_sparse", "user_sym", "user_obj", "user_pair", "user_set", "user_dict", "user_kind",
        "user_kind", "user_kind2", "user_any", "user_any", "user_any", "user_any", "user_samename", "user_twin", "user_twin", "user_twin", "user_opt", "user_opt"]
LIGHTQ = ["qtransform", "eval", "series_ops"]


def pick(rng, names):
    f = FAMS[rng.choice(names)]
    p = f.new(rng)
    return f, p


def cluster(rng, names, n):
    """A base call and n-1 siblings."""
    f, p = pick(rng, names)
    ps = [p]
    for _ in range(n - 1):
        ps.append(f.alt(rng.choice(ps), rng))
    out = []
    for q in ps:
        o = copy.deepcopy(f.op(q))
        o["fam"] = f.name
        out.append(o)
    return out


def with_set(op, **st):
    o = copy.deepcopy(op)
    s = dict(o.get("set", {}))
    s.update(st)
    o["set"] = s
    return o
