"""Per-property workloads, fault mixes and plans.  make(prop, seed) -> (plan, policy config)."""
import random

import gen
import gen_api
from gen import with_set

API = gen_api.API

CD = ["/tmp/hc", "/tmp/hc2", "cachesub/deep", ".cache"]
CDIRS = ["tmp/hc", "tmp/hc2", "cwd/cachesub", "cwd/.cache"]
CHEAP = ["it_size", "it_list", "it_degree", "it_index", "integrate", "transform", "tens_scal", "project", "tensorize", "varf", "inner",
         "user_scale", "user_scale", "user_same_args", "user_sparse", "user_sparse", "user_same_args"]


def number(plan):
    for i, n in enumerate(plan["nodes"]):
        n.setdefault("id", i)
        for j, o in enumerate(n["ops"]):
            o["id"] = j
    for j, o in enumerate(plan.get("epilogue", [])):
        o["id"] = j
    return plan


def restart(rng):
    o = {"ctl": "restart", "zy": rng.randrange(3)}
    if rng.random() < .25:
        o["later"] = rng.choice([2, 86400, 86400*100, 86400*2000])
    return o


def noreuse(o):
    f = o.get("fam")
    if f and not gen.FAMS[f].reuse:
        o["noreuse"] = 1
    return o


def uniq(ops):
    seen, out = set(), []
    for o in ops:
        k = repr({k: v for k, v in o.items() if k not in ("scribble", "id", "calm", "keep")})
        if k not in seen and "ctl" not in o and o.get("op"):
            seen.add(k)
            o = dict(o)
            for x in ("scribble", "calm", "keep"):
                o.pop(x, None)
            out.append(o)
    return out


def quadset(rng, o):
    """Random library options for calls that depend on them."""
    if o["op"] in ("quad", "call") and rng.random() < .5:
        return with_set(o, sparse=rng.random() < .5, tensorize=rng.random() < .7)
    return o


LONG = [["it_size", "it_list", "it_degree", "it_index", "integrate", "transform", "tens_scal", "project", "tensorize", "varf", "inner"], ["it_size", "it_degree", "integrate", "tens_scal"],
        ["user_scale", "user_same_args", "user_sparse", "user_ident"], ["x_pos", "x_lib", "x_quad"], ["x_quad"]]


def burst(rng, small=False):
    """A long history: hundreds of different calls between the ones that are looked at."""
    names = rng.choice(LONG)
    n = rng.choice([40, 100, 150, 300]) if names[0][0] != "x" else rng.choice([20, 40])
    specs = []
    while len(specs) < (min(n, 100) if small else n):
        specs += gen.cluster(rng, names, rng.choice([1, 2, 3]))
    o = {"op": "burst", "specs": [{k: v for k, v in s.items() if k != "fam"} for s in specs], "fam": "burst"}
    if not all(gen.FAMS[s["fam"]].reuse for s in specs):
        o["noreuse"] = 1
    return o


def long_history(rng, p, ops, **kw):
    if rng.random() < p:
        k = len(ops)//2 + rng.randrange(len(ops) - len(ops)//2 + 1)
        o = with_set(burst(rng), **kw) if kw else burst(rng)
        ops[k:k] = [o] + [dict(rng.choice([x for x in ops if "ctl" not in x])) for _ in range(3)]


def c01(rng):
    names = rng.choice([gen.CORE, gen.USER, gen.USER, gen.USER, gen.JIT, gen.QUAD, gen.CORE + gen.USER, API, API, gen.CORE + gen.USER + gen.JIT + gen.QUAD + API, ["user_twin"], ["user_twin"], ["user_samename"]])
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        pool += gen.cluster(rng, names, rng.choice([2, 3, 4, 6]) + (6 if len(names) == 1 else 0))
    dirs = rng.sample(CD, rng.choice([1, 1, 2]))
    ops = []
    keep = rng.random() < .3
    for o in pool + [rng.choice(pool) for _ in range(rng.choice([2, 4, 6]))]:
        o = with_set(quadset(rng, o), cache=rng.random() < .95, cachedir=rng.choice(dirs))
        if rng.random() < .1:
            o = with_set(o, debug=True)
        if rng.random() < .1:
            o = with_set(o, trails=True)
        if keep:
            o["keep"] = 1
        elif rng.random() < .25:
            o["scribble"] = rng.choice([1, 2])
        ops.append(o)
    rng.shuffle(ops)
    for _ in range(rng.choice([0, 1, 1, 2])):
        ops.insert(rng.randrange(len(ops) + 1), restart(rng))
    long_history(rng, .03, ops, cache=True, cachedir=dirs[0])
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3)}], "cachedirs": CDIRS}
    return plan, {"jump": .02 if rng.random() < .3 else 0, "split": .1 if rng.random() < .3 else 0, "short": .1 if rng.random() < .2 else 0}


def c02(rng):
    names = rng.choice([gen.CORE, gen.USER, gen.USER, gen.JIT, gen.QUAD, API, API, gen.CORE + gen.USER, gen.CORE + gen.USER + gen.JIT + gen.QUAD + API])
    pool = []
    for _ in range(rng.choice([1, 2])):
        pool += gen.cluster(rng, names, rng.choice([1, 2, 3]))
    dirs = rng.sample(CD, rng.choice([1, 1, 2]))
    pool = [noreuse(with_set(quadset(rng, o), cache=True, cachedir=rng.choice(dirs))) for o in pool]
    ops = list(pool)
    for _ in range(rng.choice([1, 2])):
        if rng.random() < .8:
            ops.append(restart(rng))
        again = [dict(o) for o in pool]
        rng.shuffle(again)
        if rng.random() < .5:
            again.insert(rng.randrange(len(again) + 1), noreuse(with_set(gen.cluster(rng, names, 1)[0], cache=True, cachedir=dirs[0])))
        for o in again:
            if rng.random() < .2:
                o["scribble"] = rng.choice([1, 2])
        ops += again
    long_history(rng, .04, ops, cache=True, cachedir=dirs[0])
    env = {}
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "cwd": "cwd", "env": env}], "cachedirs": CDIRS, "counters": True, "reuse": True}
    return plan, {"jump": .03 if rng.random() < .5 else 0, "split": .1 if rng.random() < .3 else 0, "short": .1 if rng.random() < .3 else 0}


def pool_for(rng, n, dirs):
    names = rng.choice([CHEAP, CHEAP, CHEAP, gen.CORE, gen.USER, gen.USER, gen.JIT, ["qtransform"], ["solve", "eval"], ["user_pair", "eigs"] + gen.USER, ["x_quad", "x_varf", "x_series"]])
    pool = []
    while len(pool) < n:
        pool += gen.cluster(rng, names, rng.choice([1, 2]))
    return [noreuse(with_set(o, cache=True, cachedir=rng.choice(dirs))) for o in pool[:n]]


def epilogue(rng, ops):
    u = uniq(ops)
    return [dict(o) for o in u] + [dict(o) for o in u]


def c03(rng):
    dirs = rng.sample(CD, 1)
    pool = pool_for(rng, rng.choice([1, 2, 3, 4]), dirs)
    nn = rng.choice([1, 1, 1, 2])
    nodes = []
    for i in range(nn):
        ops = [dict(rng.choice(pool)) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < .3:
            ops.insert(rng.randrange(len(ops) + 1), restart(rng))
        nodes.append({"ops": ops, "zy": rng.randrange(3), "pidreuse": rng.random() < .4, "vpid": 1000 + (0 if rng.random() < .3 else 7*i),
                      "samerandom": rng.random() < .3})
    power = rng.random() < .5
    plan = {"nodes": nodes, "disk": power, "cachedirs": CDIRS, "counters": True, "reuse": True, "ezy": rng.randrange(3),
            "epilogue": epilogue(rng, [o for n in nodes for o in n["ops"]])}
    if power and rng.random() < .5:
        plan["endpower"] = rng.randrange(1 << 30)
    r = rng.choice([.01, .03, .08])
    pol = {"max_faults": rng.choice([1, 1, 2, 3]), "switch": .2 if nn > 1 else 0, "hot": .5 if nn > 1 else 0, "split": rng.choice([0, .3, .6]),
           "power": r if power else 0, "crash": r if not power or rng.random() < .3 else 0}
    return plan, pol


def c04(rng):
    dirs = rng.sample(CD, rng.choice([1, 1, 1, 2]))
    pool = pool_for(rng, rng.choice([1, 1, 2, 3]), dirs)
    nn = rng.choice([2, 2, 2, 3, 4])
    containers = rng.random() < .5
    same = rng.random() < .4
    nodes = []
    for i in range(nn):
        ops = [dict(rng.choice(pool)) for _ in range(rng.choice([1, 2, 3, 4]))]
        if rng.random() < .15:
            ops.insert(rng.randrange(len(ops) + 1), restart(rng))
        if rng.random() < .2:
            ops.insert(rng.randrange(len(ops) + 1), with_set(rng.choice(pool), cache=False))
        nodes.append({"ops": ops, "zy": rng.randrange(3), "vpid": 1000 if containers else 1000 + 7*i, "samerandom": same})
    plan = {"nodes": nodes, "cachedirs": CDIRS, "counters": True, "reuse": True, "epilogue": epilogue(rng, [o for n in nodes for o in n["ops"]])}
    return plan, {"switch": rng.choice([.05, .2, .5]), "hot": rng.choice([.3, .6, .9]), "opswitch": .6, "split": rng.choice([0, .4]),
                  "short": rng.choice([0, 0, .1]), "jump": rng.choice([0, 0, .02])}


def c05(rng):
    dirs = rng.sample(CD, 1)
    pool = pool_for(rng, rng.choice([1, 2, 3]), dirs)
    nn = rng.choice([1, 1, 2])
    nodes = []
    for i in range(nn):
        ops = [dict(rng.choice(pool)) for _ in range(rng.choice([2, 3, 5]))]
        if rng.random() < .2:
            ops.insert(rng.randrange(len(ops) + 1), restart(rng))
        if rng.random() < .6:    # the faults stop while the process lives on
            ops += [dict(o, calm=1) for o in 2*uniq(ops)]
        nodes.append({"ops": ops, "zy": rng.randrange(3), "vpid": 1000 + 7*i})
    plan = {"nodes": nodes, "cachedirs": CDIRS, "counters": True, "reuse": True, "epilogue": epilogue(rng, [o for n in nodes for o in n["ops"]])}
    kinds = rng.choice([None, None, ["write", "flush", "fsync", "rename", "opentrunc", "openexcl"], ["openr", "read", "stat"], ["rename", "unlink", "fsync"],
                        ["mkdir", "stat", "opendir"]])
    return plan, {"max_faults": rng.choice([1, 1, 2, 4]), "err": rng.choice([.03, .1, .2]), "kinds": kinds, "sticky": rng.choice([0, 0, .5]),
                  "split": rng.choice([0, .2]), "short": rng.choice([0, .1]), "switch": .1 if nn > 1 else 0, "hot": .3 if nn > 1 else 0,
                  "crash": rng.choice([0, 0, 0, .01])}


def c06(rng):
    names = rng.choice([gen.CORE, gen.USER, gen.USER, gen.USER, gen.USER, gen.JIT, gen.CORE + gen.USER, gen.QUAD, API])
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        pool += gen.cluster(rng, names, rng.choice([1, 2, 2]))
    d = rng.choice(CD)
    ops = []
    stored = [with_set(quadset(rng, o), cachedir=d) for o in pool]
    vary = rng.random() < .4
    for o in stored:
        k = rng.random()
        if k < .75:
            ops.append(with_set(o, cache=True))
        elif k < .85:
            ops.append(with_set(o, cache=False))
    dmg = rng.random() < .25
    if dmg:
        ops.append({"ctl": "damage", "dir": {"/tmp/hc": "/tmp/hc", "/tmp/hc2": "/tmp/hc2", "cachesub/deep": "/cwd/cachesub/deep", ".cache": "/cwd/.cache"}[d],
                    "seed": rng.randrange(1 << 30)})
    if rng.random() < .4:
        ops.append(restart(rng))
    for _ in range(rng.choice([2, 4, 6])):
        o = rng.choice(stored)
        k = rng.random()
        if k < .6:
            o = with_set(o, cache=False)
        elif k < .8 and o["op"] in ("core", "user"):
            o = with_set(o, cache=True)
            o["kw"] = dict(o.get("kw", {}), cache=False)
        elif k < .87 and o["op"] in ("core", "user") and not vary:
            o = with_set(o, cache=False)
            o["kw"] = dict(o.get("kw", {}), cache=True)
        else:
            o = with_set(o, cache=False, debug=True)
        if vary and o["op"] == "user" and not gen.FAMS[o["fam"]].name == "user_pair" and rng.random() < .6:
            o = dict(o, version=rng.choice([1, 2, 1e-12, 1e-13]))    # the last two agree with what is stored
        if rng.random() < .2:
            o["scribble"] = rng.choice([1, 2])
        ops.append(o)
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3)}], "cachedirs": CDIRS, "counters": True}
    return plan, {}


def c07(rng):
    names = rng.choice([["ctext"], ["ctext"], ["ctext", "ctext2d"], ["discretize1"], gen.JIT, gen.JIT + ["qtransform"], ["x_quad"]])
    pool = []
    for _ in range(rng.choice([1, 1, 2])):
        pool += gen.cluster(rng, names, rng.choice([1, 2, 3]))
    cached = rng.random() < .15
    if cached:
        pool = [with_set(o, cache=True, cachedir="/tmp/hc") for o in pool]
    nn = rng.choice([1, 2, 2, 2, 3])
    containers = rng.random() < .4
    same = rng.random() < .4
    nodes = []
    for i in range(nn):
        ops = [dict(rng.choice(pool)) for _ in range(rng.choice([2, 3, 4]) + (3 if nn == 1 else 0))]
        if rng.random() < .2:
            ops.insert(rng.randrange(len(ops) + 1), restart(rng))
        nodes.append({"ops": ops, "zy": rng.randrange(3), "vpid": 1000 if containers else 1000 + 7*i, "samerandom": same})
    plan = {"nodes": nodes, "cachedirs": CDIRS, "epilogue": uniq([o for n in nodes for o in n["ops"]])}
    return plan, {"switch": rng.choice([.05, .2, .4]), "hot": rng.choice([.2, .5]), "opswitch": .6, "split": rng.choice([0, .3]),
                  "jump": rng.choice([0, .02])}


BADTEXT = ["1 --v[0]", "v[0] +", "undeclared_name*v[0]", "v[0]]", "no_such_function(v[0])", "\"text\"", "v[0]; }  int ("]


def badtext(rng):
    o = gen.cluster(rng, ["ctext"], 1)[0]
    o["args"][0] = rng.choice(BADTEXT)
    o["must_raise"] = 1
    o["fam"] = "badtext"
    return o


gen.FAMS["burst"] = gen.Family("burst", None, [], None)
gen.FAMS["badtext"] = gen.Family("badtext", None, [], None, reuse=False)


def c08(rng):
    pool = gen.cluster(rng, rng.choice([["ctext"], ["ctext"], ["discretize1"], gen.JIT]), rng.choice([1, 2]))
    if rng.random() < .2:
        pool = [with_set(o, cache=True, cachedir="/tmp/hc") for o in pool]
    nn = rng.choice([1, 1, 2])
    nodes = []
    for i in range(nn):
        ops = [dict(rng.choice(pool)) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < .35:
            ops.insert(rng.randrange(len(ops) + 1), badtext(rng))
        if rng.random() < .3:
            ops.insert(rng.randrange(len(ops) + 1), restart(rng))
        if nn == 1 and rng.random() < .15:
            # What a build that was interrupted while it wrote under the final name left
            ops += [{"ctl": "damage", "dir": "/tmp", "only": r"\d+\.so", "how": ["empty", "garbage"], "p": .8, "seed": rng.randrange(1 << 30)}]
            ops += [restart(rng)]*(rng.random() < .5) + [dict(rng.choice(pool))]
        if rng.random() < .5:
            ops += [dict(o, calm=1) for o in uniq(ops)]
        nodes.append({"ops": ops, "zy": rng.randrange(3), "pidreuse": rng.random() < .4, "vpid": 1000 + (0 if rng.random() < .3 else 7*i),
                      "samerandom": rng.random() < .3, "nocc": rng.random() < .1})
    plan = {"nodes": nodes, "cachedirs": CDIRS, "epilogue": uniq([o for n in nodes for o in n["ops"]])}
    mode = rng.choice(["crash", "err", "kill", "err", "power", "mix", "none"])
    r = rng.choice([.02, .05, .1])
    pol = {"max_faults": rng.choice([1, 1, 2, 3]), "switch": .2 if nn > 1 else 0, "hot": .4 if nn > 1 else 0, "split": rng.choice([0, .3])}
    if mode in ("crash", "mix"):
        pol["crash"] = r
    if mode in ("kill", "mix"):
        pol["kill"] = r
    if mode in ("err", "mix"):
        pol["err"] = r
        pol["kinds"] = rng.choice([None, ["system", "cc", "dlopen"], ["opentrunc", "openexcl", "write", "flush"], ["rename", "chmod", "unlink", "openr"]])
        pol["sticky"] = rng.choice([0, .5])
    if mode == "power":
        pol["power"] = r
        plan["disk"] = True
        # a power loss clears /tmp at boot, or not: keep whatever survived in half of the runs
        if rng.random() < .6:
            plan["keep"] = ["tmp"]
        if rng.random() < .5:
            plan["endpower"] = rng.randrange(1 << 30)
    return plan, pol


def c12(rng):
    names = rng.choice([gen.CORE, gen.JIT + gen.QUAD, gen.QUAD, API, API, API, ["x_quad"], gen.CORE + gen.JIT + gen.QUAD + gen.USER + API,
                        ["tensorize", "varf", "varfd", "qop", "qtransform"]])
    keep = rng.random() < .4
    pool = []
    for _ in range(rng.choice([2, 3, 4])):
        pool += gen.cluster(rng, names, rng.choice([1, 2, 3]))
    ops = []
    for o in pool + [rng.choice(pool) for _ in range(rng.choice([3, 6]))]:
        o = quadset(rng, o)
        if rng.random() < .08:
            o = with_set(o, debug=True)
        if rng.random() < .08:
            o = with_set(o, trails=True)
        if keep:
            o = dict(o, keep=1)
        elif rng.random() < .35:
            o = dict(o, scribble=rng.choice([1, 2]))
        ops.append(o)
    rng.shuffle(ops)
    for _ in range(rng.choice([0, 1, 2])):
        ops.insert(rng.randrange(len(ops) + 1), rng.choice([badreq, badtext, failing])(rng))
    long_history(rng, .05, ops)
    if rng.random() < .3:
        ops.insert(rng.randrange(len(ops) + 1), {"op": "quad", "m": "series_sig", "quad": gen.QUADS1[0], "sig": 2, "c": gen.arr(rng, [4])})
    env = {}
    if rng.random() < .5:
        env = rng.choice([{"LANG": "de_DE.UTF-8"}, {"TMPDIR": "/tmp/other"}, {"OMP_NUM_THREADS": "2"}, {"HOME": "/root"}, {"TERM": "dumb"}])
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "vpid": rng.choice([1, 2, 999, 32768, 4194304 - 7]), "cwd": rng.choice(["cwd", "cwd/sub", "home"]), "env": env}],
            "cachedirs": CDIRS, "clock0": rng.choice([86400, 1000000000, 1700000000, 4102444800])}
    return plan, {"jump": rng.choice([0, .05, .2])}


def failing(rng):
    return gen.cluster(rng, ["user_fail"], 1)[0]


def badreq(rng):
    import badreqs
    return badreqs.make(rng)


def c09(rng):
    names = rng.choice([gen.CORE, gen.JIT + gen.QUAD, API, gen.CORE + gen.JIT + gen.QUAD])
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        pool += gen.cluster(rng, names, rng.choice([1, 2]))
    cache = rng.random() < .3
    ops = [with_set(rng.choice(pool), cache=cache, cachedir="/tmp/hc") for _ in range(rng.choice([2, 4]))]
    for _ in range(rng.choice([1, 2, 3])):
        b = with_set(badreq(rng), cache=cache and rng.random() < .7, cachedir="/tmp/hc")
        ops.insert(rng.randrange(len(ops) + 1), b)
        if rng.random() < .4:
            ops.insert(rng.randrange(len(ops) + 1), dict(b))
    if rng.random() < .2:
        ops.insert(rng.randrange(len(ops) + 1), restart(rng))
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3)}], "cachedirs": CDIRS, "epilogue": uniq(ops)}
    return plan, {}


THREADY = ["it_size", "it_list", "it_degree", "integrate", "transform", "tens_scal", "project", "tensorize", "varf", "inner", "varfd", "fourier",
           "user_scale", "user_same_args", "user_sparse", "user_ident", "user_sparse"]


def c13(rng):
    names = rng.choice([THREADY, THREADY, THREADY, gen.USER, gen.JIT, ["qtransform", "eval", "series_ops"], ["qop", "qtransform", "pipeline"], ["solve", "user_pair"], API, ["x_quad"],
                        ["x_series", "x_varf", "x_pos", "x_lib"]])
    heavy = "qop" in names or "qtransform" in names or "x_quad" in names
    st = {"cache": rng.random() < .75, "cachedir": rng.choice(CD)}
    if rng.random() < .15:
        st["trails"] = True
    if rng.random() < .1:
        st["debug"] = True
    if rng.random() < .3:
        st.update(sparse=rng.random() < .5, tensorize=rng.random() < .7)
    ops = []
    for _ in range(1 if heavy else rng.choice([1, 1, 2])):
        pool = []
        while len(pool) < 1 or rng.random() < .5:
            pool += gen.cluster(rng, names, rng.choice([1, 2, 3]))
        nt = 2 if heavy else rng.choice([2, 2, 2, 3, 4])
        th = [[dict(rng.choice(pool)) for _ in range(1 if heavy else rng.choice([1, 1, 2, 3]))] for _ in range(nt)]
        mode = rng.choice(["walk", "walk", "site"])
        sched = {"seed": rng.randrange(1 << 40), "mode": mode, "p": rng.choice([.02, .1, .3, .6] if mode == "walk" else [.02, .05, .15])}
        if rng.random() < .25:
            ops.append(with_set(rng.choice(pool), **st))
        ops.append({"threads": th, "sched": sched, "set": st, "share": rng.random() < .4, "sys": rng.random() < .6, "fine": rng.random() < .25})
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "extra": "xnode", "samerandom": rng.random() < .3}], "cachedirs": CDIRS, "x": 1, "counters": True}
    sub = [with_set(o, **dict(st, cache=True)) for p in ops for t in p.get("threads", []) for o in t]
    plan["epilogue"] = epilogue(rng, sub)[:16]
    return plan, {"split": rng.choice([0, .3]), "short": rng.choice([0, 0, .1])}


def intr(rng, cached):
    scope = rng.choice(["cache", "cache", "io", "io", "all", "all", "hermipy", "stats"]) if cached else rng.choice(["all", "hermipy", "hermipy", "stats", "cache"])
    fine = rng.random() < .4
    top = {"cache": 350, "io": 1500, "all": 2500, "hermipy": 1500, "stats": 40}[scope]*(6 if fine else 1)
    at = rng.randrange(1, 40) if rng.random() < .3 else int(top**rng.random()) + 1
    if cached and rng.random() < .45:
        return {"exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError"]), "scope": "all", "fine": fine,
                "after": int(26**rng.random()), "at": int((300 if fine else 60)**rng.random())}
    return {"exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "TimeoutError", "SystemExit", "RuntimeError", "OSError"]),
            "at": at, "scope": scope, "fine": fine}


def swept(rng, n, scopes):
    return {"seed": rng.randrange(1 << 40), "n": n, "fine": rng.random() < .25, "warm": rng.random() < .3, "scope": rng.choice(scopes)}


def sweeps(rng):
    """Many different calls of the whole interface, each interrupted at many places."""
    if rng.random() < .6:
        pool = gen_api.around_quad(rng, rng.choice([3, 4, 6]))
    else:
        pool = []
        for _ in range(rng.choice([2, 3, 4])):
            pool += gen.cluster(rng, rng.choice([API, API, gen.QUAD, ["series_ops", "qop", "pipeline", "qtransform"], ["x_oper", "x_fun", "x_pos", "x_lib", "x_comp"]]), 1)
    ops = []
    for o in uniq(pool)[:6]:
        o = quadset(rng, o)
        if rng.random() < .3:
            o = with_set(o, debug=True) if rng.random() < .5 else with_set(o, trails=True)
        o["sweep"] = swept(rng, rng.choice([8, 16, 30]), ["hermipy", "hermipy", "all"])
        ops.append(o)
    plain = [{k: v for k, v in o.items() if k != "sweep"} for o in ops]
    return {"nodes": [{"ops": ops, "zy": rng.randrange(3), "extra": "xnode"}], "cachedirs": CDIRS, "x": 1, "counters": True, "reuse": True, "epilogue": plain[:8]}


def c14(rng):
    cached = rng.random() < .6
    dirs = rng.sample(CD, 1)
    if not cached and rng.random() < .6:
        return sweeps(rng), {"jump": rng.choice([0, .05])}
    if cached:
        pool = pool_for(rng, rng.choice([1, 2, 3]), dirs)
    else:
        pool = gen.cluster(rng, rng.choice([gen.CORE, gen.QUAD, gen.JIT + gen.QUAD, API, API, ["series_ops", "qop", "pipeline", "qtransform"]]), rng.choice([1, 2]))
        if rng.random() < .4:
            pool = gen_api.around_quad(rng, rng.choice([2, 3, 4]))
        pool = [quadset(rng, o) for o in pool]
    keep = not cached and rng.random() < .5
    sweep = not keep and rng.random() < .6
    ops = []
    for _ in range(rng.choice([3, 4, 6, 8]) if not sweep else rng.choice([2, 3])):
        o = dict(rng.choice(pool))
        k = rng.random()
        if k < (.3 if sweep else .1):
            o["sweep"] = swept(rng, rng.choice([4, 10, 25]), ["hermipy", "hermipy", "all", "cache"] if cached else ["hermipy", "hermipy", "all"])
        elif k < .6:
            o["intr"] = intr(rng, cached)
        elif rng.random() < .1 and not (not cached and keep):
            o["scribble"] = rng.choice([1, 2])
        if not cached and keep:
            o["keep"] = 1
        if cached and rng.random() < .1:
            o = with_set(o, cache=False)
        ops.append(o)
    if rng.random() < .25:
        ops.insert(rng.randrange(len(ops) + 1), restart(rng))
    plain = [{k: v for k, v in o.items() if k not in ("intr", "keep", "sweep")} for o in ops]
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "extra": "xnode"}], "cachedirs": CDIRS, "x": 1, "counters": True, "reuse": True,
            "epilogue": epilogue(rng, plain)[:16]}
    return plan, {"split": rng.choice([0, .3]), "jump": rng.choice([0, .05])}


def tree(rng, depth=0):
    n = {"call": rng.choice(["alpha", "alpha", "beta", "gamma", "alpha@p", "alpha@q", "beta@p", "usermod"]), "steps": []}
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.random()
        if k < .45:
            n["steps"].append({"sleep": rng.choice([.00005, .0002, .001, .01, .5, 2., 30., 3600.])})
        elif k < .85 and depth < 4:
            c = tree(rng, depth + 1)
            c["catch"] = rng.random() < .6
            n["steps"].append(c)
        elif k > .92:
            n["steps"].append({"raise": rng.choice(["Boom", "Boom", "ValueError", "KeyboardInterrupt", "SystemExit", "StopIteration"])})
    return n


def c15(rng):
    ops = []
    lib = []
    if rng.random() < .5:
        lib = gen.cluster(rng, rng.choice([gen.CORE, gen.QUAD, gen.JIT + ["qtransform"], CHEAP, ["x_quad", "x_varf"]]), rng.choice([1, 2]))
    for _ in range(rng.choice([2, 4, 6, 9])):
        tr = rng.random() < .6
        k = rng.random()
        if lib and k < .35:
            ops.append(dict(with_set(rng.choice(lib), trails=tr), stats=1))
        elif k < .5:
            o = dict(with_set(rng.choice([badreq, badtext])(rng), trails=tr), stats=1)
            ops.append(o)
        else:
            o = {"tree": tree(rng), "set": {"trails": tr}}
            if rng.random() < .2:
                o["threshold"] = rng.choice([.0001, .005, 1., 100.])
            if rng.random() < .2:
                o["strike"] = {"at": rng.choice([1, 2, 3, 4, 5, 6, 8, 11]), "exc": rng.choice(["KeyboardInterrupt", "Boom", "SystemExit"])}
            ops.append(o)
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "extra": "xnode"}], "cachedirs": CDIRS, "x": 1}
    return plan, {"jump": rng.choice([0, .3, .7])}


HEAPOPS = gen.CORE + ["ctext", "discretize1", "discretize2", "integrate2", "qtransform", "eval", "series_ops", "qop"]
MEMORY = ["transform", "varf", "eval_core", "fourier", "varfd", "project", "tensorize", "tens_block", "tens_id", "ctext2d", "inner", "it_list", "ctext", "qtransform", "it_degree", "integrate"]


def heapcfg(rng):
    return {"fill": rng.randrange(7), "seed": rng.randrange(1, 1 << 20), "reuse": rng.choice([0, 0, 1, 2])}


def c10(rng):
    pool = gen.cluster(rng, rng.choice([MEMORY, MEMORY, ["ctext"], gen.CORE, ["qop", "series_ops", "qtransform", "eval"], ["x_quad", "x_series", "x_varf", "x_lib"], ["x_cpp"]]), rng.choice([1, 1, 2, 3]))
    ops = []
    for o in pool:
        o = dict(quadset(rng, o))
        rep = rng.choice([1, 1, 6])
        a = {}
        if rng.random() < .5:
            a["cold"] = int(60**rng.random())
        if rng.random() < .5:
            a["other"] = {k: v for k, v in rng.choice(pool + gen.cluster(rng, [o["fam"]], 2)).items()}
        o["alloc"] = {**a, "ks": {"n": 3 if rep > 1 else 8, "seed": rng.randrange(1 << 30)}, "persist": rng.random() < .3, "repeat": rep}
        ops.append(o)
        if rng.random() < .3:
            ops.append({k: v for k, v in rng.choice(pool).items()})
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "zkind": "alloc", "extra": "xnode", "xcfg": {"heap": heapcfg(rng)}}], "cachedirs": CDIRS, "x": 1,
            "epilogue": uniq([{k: v for k, v in o.items() if k != "alloc"} for o in ops])}
    return plan, {}


def c11(rng):
    names = rng.choice([HEAPOPS, gen.CORE, gen.CORE, ["varfd", "tensorize", "tens_block", "project", "inner", "tens_id"], ["transform", "varf", "eval_core", "fourier"],
                        ["ctext", "ctext2d", "discretize1", "discretize2"], ["qop", "series_ops", "qtransform", "eval"], ["x_quad", "x_series", "x_varf", "x_lib"], ["x_cpp"]])
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        pool += gen.cluster(rng, names, rng.choice([1, 2, 3]))
    ops = [quadset(rng, dict(o)) for o in pool + [rng.choice(pool) for _ in range(rng.choice([2, 4]))]]
    rng.shuffle(ops)
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.insert(rng.randrange(len(ops) + 1), rng.choice([badreq, badreq, badtext])(rng))
    plan = {"nodes": [{"ops": ops, "zy": rng.randrange(3), "zkind": "alloc", "extra": "xnode", "xcfg": {"heap": heapcfg(rng)}}], "cachedirs": CDIRS, "x": 1}
    return plan, {}


MAKERS = {"C10": c10, "C11": c11, "C13": c13, "C14": c14, "C15": c15, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C12": c12}


def make(prop, seed):
    rng = random.Random(seed)
    plan, pol = MAKERS[prop](rng)
    plan["seed"] = seed
    return number(plan), pol


def run_class(plan):
    import engine
    import xrun
    return xrun.XRun if plan.get("x") else engine.Run


def materialise(plan, run):
    """Replace seeded in-node schedules by the explicit ones the run used."""
    import copy
    plan = copy.deepcopy(plan)
    for n in plan["nodes"]:
        for o in n["ops"]:
            o.update(run.used.get((n.get("id"), o.get("id")), {}))
    return plan


def zygotes(prop):
    return ZY.get(prop, [0, 1, 2])


ZY = {p: [0, 1, 2] for p in ()}
ZY.update({p: [0, (0, 'alloc'), (1, 'alloc'), (2, 'alloc')] for p in ('C10', 'C11')})
QUICK = {}


def budget(prop, tier):
    """(number of runs, wall-clock cap in seconds)"""
    n, cap = QUICK.get(prop, (2400, 70))
    if tier == "thorough":
        return n*20, 780
    return n, cap


def min_budget(tier):
    return 40 if tier == "quick" else 90


COMPONENTS = ["real code: hermipy (Python), hermite_cpp (compiled from /repo with the shipped flags), CPython, numpy, scipy, sympy, glibc, dynamic loader, kernel tmpfs",
              "simulated or stubbed: scheduling of processes, clocks, sleeps, pids, kernel randomness, /tmp location, failing system calls, crash and power-loss disk state, "
              "the compiler driver (fakecc: real g++ output memoised, its file operations replayed step by step)"]
ASSUMPTIONS = ["seeded search samples schedules and faults: a pass is evidence, not proof", "the reference of each call is the same tree's own result in a pristine process without cache, faults or concurrency"]

BASE = "seeded search over %s; every violation is replayed from its seed, minimised and replayed again in a fresh process before it is reported; a pass is evidence for the schedules and faults sampled, not proof"
NOTES = {
    "C01": ("call histories (short and long) over clusters of easily confused calls, restarts, hash seeds, options; oracle: the same call in a pristine process without cache", BASE % "call histories"),
    "C02": ("call histories (short and long), restarts and elapsed time with different hash seeds; oracle: executions of the computation and directory contents", BASE % "call histories"),
    "C03": ("process death and power loss at any file operation, torn and unsynced data; oracle: pristine reference, reuse after recovery", BASE % "crash points and disk states"),
    "C04": ("seeded interleaving of the file operations of 2-4 processes on one cache directory", BASE % "interleavings of file operations"),
    "C05": ("error returns and short transfers of file operations; oracle: pristine reference, recovery after the faults", BASE % "fault sequences"),
    "C06": ("histories with caching switched on and off, outdated and damaged stored results; oracle: executions, directory contents, reference", BASE % "call histories"),
    "C07": ("seeded interleaving of processes building and loading integrands at file-operation and compiler-step granularity", BASE % "interleavings of builds"),
    "C08": ("crashes, compiler deaths, error returns and power loss during integrand builds", BASE % "fault sequences and crash points of builds"),
    "C09": ("invalid requests injected into call histories; oracle: exception, survival, reference values of the other calls", BASE % "call histories with invalid requests"),
    "C12": ("call histories (short and long) under varied environment, hash seed, clock, caller interference; oracle: pristine reference, argument and process-state digests", BASE % "call histories and environments"),
    "C10": ("failure of chosen allocations of the compiled component, single and persistent, repeated; oracle: exception or reference value, immediate recovery, live bytes", BASE % "failure points"),
    "C11": ("hostile heap (contents, guards, quarantine, reuse order) under call histories; oracle: reference under the ordinary heap, guard bytes", BASE % "heap contents and call histories"),
    "C13": ("seeded token scheduling of 2-4 threads at Python lines, sampled bytecodes, lock operations and where the interpreter lock is given away; oracle: pristine reference per call", BASE % "thread interleavings"),
    "C14": ("asynchronous exceptions at any Python line or bytecode of a call, single and swept over the places of one call; oracle: settings, arguments, reference values of later calls", BASE % "interruption points"),
    "C15": ("histories of nested, failing, interrupted calls under clock jumps; oracle: model of calls, durations and nesting", BASE % "call histories and clock adjustments"),
}
