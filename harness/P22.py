"""Set and array helpers of skmine.utils."""
import copy
import warnings

warnings.filterwarnings("ignore")
TRACE = "HelpersTrace"
RULE = ("every graph and set family of the small scope of Helpers.tla (sampled in quick), seeded larger ones, arrays and windows; "
        "non-trivial: non-empty result")
CFG = ("SPECIFICATION Spec\nCONSTANTS Nodes = {%s}\nUniv = {1,2,3}\nMaxFam = %d\nEmitCases = TRUE\n"
       "INVARIANTS CliquesExact GrownSame FilterExact Emit\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Helpers", CFG % ("1,2,3,4", 8))], "thorough": [("Helpers", CFG % ("1,2,3,4,5", 8))]}
TIMEOUT = 100


def preload():
    import numpy, pandas  # noqa
    import skmine.utils  # noqa


def lists(f):
    return [sorted(x) for x in f]


def run_case(case):
    import numpy as np
    import skmine.utils as U
    k = case["kind"]
    exc = ""
    if k in ("max", "min"):
        e = dict(ev="FilterMax" if k == "max" else "FilterMin", fam=case["fam"], out=[], exc="", kept=True)
        mk = dict(set=set, frozenset=frozenset)[case["type"]]
        arg = [mk(x) for x in case["fam"]]
        before = copy.deepcopy(arg)
        try:
            f = U.filter_maximal if k == "max" else U.filter_minimal
            a = arg
            if case["cont"] == "iter":
                a = iter(arg)
            elif case["cont"] == "tuple":
                a = tuple(arg)
            elif case["cont"] == "series":
                import pandas as pd
                a = pd.Series(arg, dtype=object)
            e["out"] = lists(f(a))
            e["kept"] = arg == before
        except Exception as ex:
            e["exc"] = type(ex).__name__
    elif k == "graph":
        nodes = case["nodes"]
        num = {n: i + 1 for i, n in enumerate(nodes)}
        mk = dict(list=list, set=set, tuple=tuple, str=lambda z: "".join(z))[case["type"]]
        g = {nodes[i]: mk([nodes[j - 1] for j in nb]) for i, nb in enumerate(case["adj"])}
        if case.get("perm"):
            g = {nodes[i]: g[nodes[i]] for i in case["perm"]}
        before = copy.deepcopy(g)
        e = dict(ev="Cliques", adj=case["adj"], part=False, out=[], exc="", kept=True)
        try:
            it = U.bron_kerbosch(g)
            e["part"] = bool(case.get("first"))
            e["out"] = [[num[x] for x in c] for c in (it if not case.get("first") else [next(iter(it), [])])]
            e["kept"] = g == before and list(g) == list(before)
        except Exception as ex:
            e["exc"] = type(ex).__name__
    elif k == "inter":
        mk = dict(list=lambda z: z, array=lambda z: np.array(z), f=lambda z: np.asfortranarray(np.array(z)),
                  float=lambda z: np.array(z, dtype=float), i1=lambda z: np.array(z, dtype=np.int8),
                  half=lambda z: np.array(z, dtype=float) / 2)
        ta, tb = case["type"], case.get("type2", case["type"])
        half = 2 if "half" in (ta, tb) else 1
        a, b = mk[ta](copy.deepcopy(case["a"])), mk[tb](copy.deepcopy(case["b"]))
        if half == 2:  # halves against whole numbers: all recorded in halves
            case = dict(case, a=[[v * (1 if ta == "half" else 2) for v in x] for x in case["a"]], b=[[v * (1 if tb == "half" else 2) for v in x] for x in case["b"]])
        e = dict(ev="Intersect", a=case["a"], b=case["b"], out=[], i1=[-1], i2=[-1], exc="", kept=True)
        try:
            if case["idx"]:
                r, i, j = U.intersect2d(a, b)
                e["i1"], e["i2"] = [int(v) for v in i], [int(v) for v in j]
            else:
                r = U.intersect2d(a, b, return_indices=False)
            e["out"] = [[int(float(v) * half) if float(v) * half == int(float(v) * half) else 10 ** 9 for v in x] for x in r]
            e["kept"] = np.array_equal(np.asarray(a, dtype=float) * half, case["a"]) and np.array_equal(np.asarray(b, dtype=float) * half, case["b"])
        except Exception as ex:
            e["exc"] = type(ex).__name__
    else:
        return windows(case)
    return [e]


def windows(case):
    import numpy as np
    import skmine.utils as U
    shape, w, axes = case["shape"], case["w"], case["axes"]
    n = int(np.prod(shape))
    base = np.array(case["flat"], dtype=case.get("dtype", "int64")).reshape(shape)
    a, t = base, case["type"]
    if t == "t":
        a = np.asfortranarray(base)
    elif t == "step":
        a = np.repeat(base, 2, axis=0)[::2]
    elif t == "back":
        a = base[::-1].copy()[::-1]
    elif t == "swap" and len(shape) > 1:
        a = np.ascontiguousarray(base.swapaxes(0, -1)).swapaxes(0, -1)
    elif t == "list":
        a = base.tolist()
    kw = {} if axes is None else dict(axis=axes[0] if case["scalar"] and len(axes) == 1 else tuple(axes))
    dims = list(range(1, len(shape) + 1)) if axes is None else [x % len(shape) + 1 for x in axes]
    e = dict(ev="Window", shape=list(shape), flat=list(case["flat"]), axes=dims, w=list(w), oshape=[], oflat=[], exc="", kept=True)
    try:
        r = U.sliding_window_view(a, w[0] if case["scalar"] and len(w) == 1 else tuple(w), **kw)
        out = np.array(r)
        e["oshape"], e["oflat"] = list(out.shape), [int(v) for v in out.reshape(-1)]
        e["kept"] = np.array_equal(a, base)
        if t != "list":  # a view: what is written in the array shows in the windows
            at = np.unravel_index(case["touch"] % n, shape)
            a[at] = 77
            out = np.array(r)
            f = dict(e, flat=[int(v) for v in np.array(a).reshape(-1)], oshape=list(out.shape), oflat=[int(v) for v in out.reshape(-1)])
            return [e, f]
    except Exception as ex:
        e["exc"] = type(ex).__name__
    return [e]


NODES = [list("ABCDEFGHIJKL"), list(range(12)), [(1, "x"), (2, "y"), "z", 3, 4.5, "w", "u", 77, 78, 79, 80, 81]]


def graph_case(rng, adj):
    ns = rng.randrange(3)
    perm = list(range(len(adj)))
    rng.shuffle(perm)
    return dict(kind="graph", adj=adj, nodes=NODES[ns][:len(adj)], perm=perm,
                type=rng.choice(("list", "set", "tuple", "str") if ns == 0 else ("list", "set", "tuple")))


def fam_case(rng, kind, fam):
    fam = [list(x) for x in fam]
    rng.shuffle(fam)
    if fam and rng.random() < 0.3:
        fam.append(list(rng.choice(fam)))
    return dict(kind=kind, fam=fam, type=rng.choice(("set", "frozenset")), cont=rng.choice(("list", "iter", "tuple", "series")))


def cases(tier, rng, emitted):
    q = tier == "quick"
    em = emitted.get("Helpers", [])
    lim = 900 if q else 4000
    g = [e for e in em if e["kind"] == "graph"]
    f = [e for e in em if e["kind"] != "graph"]
    for e in g if len(g) <= lim else rng.sample(g, lim):
        yield graph_case(rng, e["adj"])
    for e in f if len(f) <= lim else rng.sample(f, lim):
        yield fam_case(rng, e["kind"], e["fam"])
    for i in range(500 if q else 5000):
        n = rng.randrange(2, 11)
        p = rng.choice((0.3, 0.5, 0.7, 0.9, 1.0))
        ed = {(a, b) for a in range(n) for b in range(a) if rng.random() < p}
        yield graph_case(rng, [[b + 1 for b in range(n) if (a, b) in ed or (b, a) in ed] for a in range(n)])
        n = rng.randrange(1, 10)
        yield fam_case(rng, rng.choice(("max", "min")), [[j for j in range(n) if rng.random() < rng.choice((0.2, 0.5, 0.8))] for _ in range(rng.randrange(0, 25))])
        w = rng.randrange(1, 4)
        vals = rng.choice((range(2), range(3), range(-2, 3), range(-100, 100, 30)))
        a = [[rng.choice(vals) for _ in range(w)] for _ in range(rng.randrange(1, 9))]
        b = [rng.choice(a) if rng.random() < 0.4 else [rng.choice(vals) for _ in range(w)] for _ in range(rng.randrange(1, 9))]
        yield dict(kind="inter", a=a, b=b, idx=rng.random() < 0.7, type=rng.choice(("list", "array", "f", "float", "i1")))
        if i % 3 == 0:
            types = rng.choice((("half", "array"), ("array", "half"), ("half", "half"), ("i1", "half"), ("array", "float"), ("i1", "array"), ("float", "i1"), ("list", "half")))
            yield dict(kind="inter", a=a, b=b, idx=rng.random() < 0.7, type=types[0], type2=types[1])
        yield win_case(rng)
    # larger inputs
    for n in (range(12, 27) if q else list(range(12, 40)) * 4):
        p = rng.choice((0.2, 0.4, 0.6))
        ed = {(a, b) for a in range(n) for b in range(a) if rng.random() < p}
        k = rng.choice((0, 0, 6, 9, 12))
        cl = rng.sample(range(n), min(k, n))
        ed |= {(a, b) for a in cl for b in cl if a > b}
        yield dict(graph_case(rng, [[b + 1 for b in range(n) if (a, b) in ed or (b, a) in ed] for a in range(n)][:n]), nodes=list(range(n)),
                   type=rng.choice(("list", "set", "tuple")))
    for n in ((15, 16, 17) if q else (15, 17, 19, 20, 21)):  # cliques far beyond the usual
        m = n + rng.randrange(0, 5)
        adj = [[b + 1 for b in range(n) if b != a] if a < n else [] for a in range(m)]
        for a in range(n, m):
            for b in rng.sample(range(n), rng.randrange(0, 4)):
                adj[a].append(b + 1)
                adj[b].append(a + 1)
        yield dict(graph_case(rng, adj), nodes=["n%d" % x for x in range(m)], type="set")
    for n in (21, 22, 23):  # the one clique of a complete graph comes first
        yield dict(kind="graph", adj=[[b + 1 for b in range(n) if b != a] for a in range(n)], nodes=list(range(n)), type="list", first=True)
    for _ in range(12 if q else 120):
        n, k = rng.choice(((12, 150), (20, 300), (9, 300), (40, 500)) if q else ((12, 150), (20, 600), (40, 1500), (30, 2500)))
        d = rng.choice((0.1, 0.3, 0.5, 0.9))
        fam = [[j for j in range(n) if rng.random() < d] for _ in range(k)]
        for _ in range(k // 3):
            x = rng.choice(fam)
            fam.append([j for j in x if rng.random() < 0.9])
        yield fam_case(rng, rng.choice(("max", "min")), fam)
    for _ in range(25 if q else 250):
        w = rng.choice((1, 2, 3, 4, 5, 9, 14))
        vals = rng.choice((range(2), range(3), range(-2, 3), range(-100, 100, 30), range(-2 * 10 ** 9, 2 * 10 ** 9, 10 ** 8 + 7)))
        t = rng.choice(("list", "array", "f", "float"))
        a = [[rng.choice(vals) for _ in range(w)] for _ in range(rng.choice((30, 90, 300)))]
        b = [rng.choice(a) if rng.random() < 0.4 else [rng.choice(vals) for _ in range(w)] for _ in range(rng.choice((3, 60, 260)))]
        for x in rng.sample(range(len(b)), len(b) // 3):  # rows that differ in one place
            b[x] = list(rng.choice(a))
            b[x][rng.choice((-1, rng.randrange(w)))] = rng.choice(vals)
        yield dict(kind="inter", a=a, b=b, idx=True, type=t)


def win_case(rng):
    nd = rng.choice((1, 1, 1, 2, 2, 2, 3, 3, 4))
    shape = [rng.randrange(1, {1: 12, 2: 6, 3: 5, 4: 4}[nd]) for _ in range(nd)]
    if nd == 1 and rng.random() < 0.1:
        shape = [rng.randrange(20, 120)]
    n = 1
    for d in shape:
        n *= d
    axes = None
    if rng.random() < 0.5:
        axes = [rng.randrange(-nd, nd) for _ in range(rng.choice((1, 1, 2, 3)))]
    left = list(shape)
    w = []
    for ax in (range(nd) if axes is None else axes):
        k = rng.randrange(1, max(1, left[ax]) + 1) if rng.random() < 0.93 else left[ax] + rng.choice((1, 1, 2, 5))
        k = min(k, 8) if k <= left[ax] else k
        left[ax] -= k - 1
        w.append(max(1, k))
    if rng.random() < 0.05 and (axes is None or len({a % nd for a in axes}) == len(axes)):  # empty windows, along distinct axes
        w[rng.randrange(len(w))] = 0
    return dict(kind="win", shape=shape, flat=[rng.randrange(50) for _ in range(n)], axes=axes, w=w, scalar=rng.random() < 0.5, touch=rng.randrange(n),
                type=rng.choice(("c", "t", "step", "back", "swap", "list")), dtype=rng.choice(("int64", "int64", "int32", "float64", "uint8")))


def nontrivial(case, events):
    return bool(events[0].get("out") or events[0].get("oflat"))


ROUNDS = 4
