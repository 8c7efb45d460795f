"""Periodic pattern trees: expansion, corrections, factorisation, combination."""
import copy

from periodic_drv import (apply_factor, cyc, expand, factor_paths, from_nodes, leaf, nb, rand_log, rand_tree, to_nodes)

TRACE = "PatternTrace"
RULE = ("every building history of the small scope of Pattern.tla, seeded larger and deeper trees with random corrections and times, "
        "factorisations, concatenations and the candidate pools of mining runs; non-trivial: a tree with more than one level or child")
CFG = ("SPECIFICATION Spec\nCONSTANTS Evs = {%s}\nRs = {%s}\nPs = {%s}\nDs = {%s}\nMaxOps = %d\nMaxOccs = %d\nEVals = {%s}\n"
       "EmitCases = TRUE\nINVARIANTS CountExact KeysDistinct RefsAgree Perfect InverseExact Onto FactorKeeps Emit\n"
       "PROPERTIES Grows\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Pattern", CFG % ("1,2", "2,3", "2,5", "0,1", 3, 8, "0,1")), ("Pattern", CFG % ("1", "2", "3", "0,1", 4, 8, "0,1"))],
          "thorough": [("Pattern", CFG % ("1,2", "2,3", "2,5", "0,1", 4, 8, "0,1")), ("Pattern", CFG % ("1", "2", "3", "0,1", 5, 8, "-1,0,1"))]}
TIMEOUT = 100


def preload():
    import numpy, pandas, graphviz  # noqa
    import skmine.periodic.run_mine  # noqa


def ints(x):
    return [int(v) for v in x]


def look(P, e):
    e["tree"] = from_nodes(P.nodes)
    e["star"] = [[int(o[0]), int(o[1])] for o in P.getOccsStar()]
    e["nb"] = int(P.getNbOccs())
    e["card"] = int(P.cardO())
    e["minor"] = ints(P.getEventsMinor(rep=True))
    e["alpha"] = ints(P.getAlphabet())
    e["depth"] = int(P.getDepth())
    e["width"] = int(P.getWidth())


def blank(**k):
    return dict(tree=cyc(1, 1, 1), star=[], nb=0, card=0, minor=[], alpha=[], depth=0, width=0, exc="", **k)


def nid_at(P, path):
    n = 0
    for j in path:
        n = P.nodes[n]["children"][j][0]
    return n


def anchor(P, o):
    if "leaf" in o:  # not a block: the root is meant
        return [max(n for n in P.nodes if "event" in P.nodes[n])]
    return [nid_at(P, [j - 1 for j in o["at"]])] if "at" in o else []


def block_paths(t, path=()):
    return [] if t["r"] == 0 else [list(path)] + [q for j, c in enumerate(t["ch"]) for q in block_paths(c["n"], path + (j + 1,))]


def add_at(t, path, child):
    for j in path:
        t = t["ch"][j - 1]["n"]
    t["ch"].append(child)


def factor_tree(rng):
    """a tree that can be factorised, with children of equal length and period"""
    r, p = rng.choice([2, 3]), rng.choice([2, 7])
    def kid(k):
        return dict(r=r, p=p, ch=[dict(d=0, n=leaf(k) if rng.random() < .7 else cyc(k, 2, 1))])
    return dict(r=rng.choice([2, 3]), p=rng.choice([20, 50]), ch=[dict(d=0 if k == 0 else rng.choice([0, 1, 4]), n=kid(k + 1)) for k in range(rng.choice([2, 2, 3]))])


def wide_tree(rng):
    """long cycles and wide blocks; blocks of the same length and period, but for one"""
    x = rng.random()
    if x < .35:
        return cyc(rng.choice([1, 2, 3]), rng.choice([11, 14, 25, 40, 70]), rng.choice([1, 5, 9]))
    if x < .6:
        t = dict(r=rng.choice([2, 3, 7]), p=rng.choice([30, 100]), ch=[])
        for k in range(rng.choice([4, 5, 6, 9])):
            t["ch"].append(dict(d=0 if k == 0 else rng.choice([0, 1, 4]), n=leaf(rng.choice([1, 2, 3])) if rng.random() < .8 else cyc(1, 2, 3)))
        return t
    t = factor_tree(rng)
    while len(t["ch"]) < rng.choice([2, 3, 4]):
        t["ch"].append(dict(d=rng.choice([0, 1, 4]), n=copy.deepcopy(t["ch"][0]["n"])))
    b = rng.choice(t["ch"])["n"]
    y = rng.random()
    if y < .35:
        b["r"] += rng.choice([1, 1, 2])
    elif y < .7:
        b["p"] += 1
    elif y < .85:
        b["ch"].append(dict(d=1, n=leaf(2)))
    return t if rng.random() < .6 else dict(r=2, p=rng.choice([200, 300]), ch=[dict(d=0, n=t)])


def make(t):
    from skmine.periodic.pattern import Pattern
    return Pattern(to_nodes(t))


def run_case(case):
    from skmine.periodic.pattern import Pattern, getEDict
    from skmine.periodic.candidate import Candidate
    import skmine.periodic.run_mine as RM
    ev = []
    if case["kind"] == "ops":
        P = None
        for o in case["ops"]:
            if o["op"] in ("cycle", "append", "merge", "repeat", "factor", "given"):
                e = blank(ev="Op", op=o["op"], e=o.get("e", 0), r=o.get("r", 0), p=o.get("p", 0), d=o.get("d", 0),
                          at=o.get("at", []), sub=cyc(1, 1, 1), want=cyc(1, 1, 1))
                try:
                    if o["op"] == "cycle":
                        P = Pattern(o["e"], o["r"], o["p"])
                    elif o["op"] == "given":
                        e["want"] = o["tree"]
                        P = make(o["tree"])
                    elif o["op"] == "append":
                        P.append(o["e"], o["d"], *anchor(P, o))
                    elif o["op"] == "merge":
                        e["sub"] = o["sub"] if "sub" in o else cyc(o["e"], o["r"], o["p"])
                        Q = make(o["sub"]) if "sub" in o else Pattern(o["e"], o["r"], o["p"])
                        for path in o.get("fac", []):  # what factorisation makes of the tree is the business of op factor
                            Q.factorizeTree(nid_at(Q, path))
                            e["sub"] = from_nodes(Q.nodes)
                        P.merge(Q, o["d"], *anchor(P, o))
                    elif o["op"] == "repeat":
                        P.repeat(o["r"], o["p"])
                    else:
                        P.factorizeTree(nid_at(P, [j - 1 for j in o["path"]]))
                    look(P, e)
                except Exception as ex:
                    e["exc"] = type(ex).__name__
                ev.append(e)
                if e["exc"]:
                    return ev
            elif o["op"] == "copy":
                e = dict(ev="Again", star=[], exc="")
                try:
                    Q = P.copy()
                    Q.append(9, 4)
                    if o.get("rep"):
                        Q.repeat(2, 3)
                    Q.merge(P, 1)
                    Q.nodes[0]["r"] = 1
                    e["star"] = [[int(x[0]), int(x[1])] for x in P.getOccsStar()]
                except Exception as ex:
                    e["exc"] = type(ex).__name__
                ev.append(e)
            elif o["op"] == "expand":
                n = int(P.getNbOccs())
                E = [o["E"][i % len(o["E"])] for i in range(n - 1)]
                e = dict(ev="Expand", t0=o["t0"], E=E, times=[], cov=[], exc="")
                try:
                    st = P.getOccsStar()
                    Ed = getEDict(st, E) if o.get("dict") else E
                    e["times"] = ints(P.getOccs(st, o["t0"], Ed))
                    e["cov"] = [[int(a), int(b)] for a, b in P.getCovSeq(o["t0"], E)]
                except Exception as ex:
                    e["exc"] = type(ex).__name__
                ev.append(e)
            elif o["op"] == "inverse":
                n = int(P.getNbOccs())
                O = [o["O"][i % len(o["O"])] + i // len(o["O"]) for i in range(n)]
                e = dict(ev="Inverse", O=O, E=[], back=[], exc="")
                try:
                    e["E"] = ints(P.computeEFromO(O))
                    e["back"] = ints(P.getOccs(P.getOccsStar(), O[0], e["E"]))
                except Exception as ex:
                    e["exc"] = type(ex).__name__
                ev.append(e)
    elif case["kind"] == "factored":
        t = case["tree"]
        E = [0] + [case["E"][i % len(case["E"])] for i in range(nb(t) - 1)]
        O = [x for x, _ in expand(t, case["t0"], E)]
        e = dict(ev="Factored", src=dict(tree=t, O=O, E=E[1:]), res=[], exc="")
        try:
            C = Candidate(-1, make(t), list(O), list(E[1:]))
            e["res"] = [dict(tree=from_nodes(q.P.nodes), O=ints(q.O), E=ints(q.E)) for q in C.factorizePattern()]
        except Exception as ex:
            e["exc"] = type(ex).__name__
        ev.append(e)
    elif case["kind"] == "pool":
        e = dict(ev="Pool", log=case["log"], cands=[], exc="")
        try:
            seq = {}
            for t, a in sorted(map(tuple, {tuple(x) for x in case["log"]})):
                seq.setdefault(a, []).append(t)
            import pandas as pd
            ren = {k: i for i, k in enumerate(sorted(seq))}
            e["log"] = [[t, ren[a]] for a in seq for t in seq[a]]
            cpool, ds, pc = RM.mine_seqs({k: pd.Index(v) for k, v in seq.items()})
            cands = list(cpool.getCandidates().values())
            cands.sort(key=lambda q: (0 if q.isComplex() else 1, -len(q.O)))
            for q in cands[:case["n"]]:
                P, t0, E = q.getPattT0E()
                e["cands"].append(dict(tree=from_nodes(P.nodes), O=ints(q.O), E=ints(E),
                                       evocc=[[int(a), int(b)] for a, b in q.getEvOccs()]))
            for P, t0, E in pc.getPatterns():
                cov = [[int(a), int(b)] for a, b in P.getCovSeq(t0, E)]
                e["cands"].append(dict(tree=from_nodes(P.nodes), O=[int(a) for a, _ in cov], E=ints(E), evocc=cov))
        except Exception as ex:
            e["exc"] = type(ex).__name__
        ev.append(e)
    elif case["kind"] == "concat":
        f = getattr(RM, "prepare_candidate_concats", None)
        if f is None:
            return ev
        parts, cands = [], []
        for q in case["parts"]:
            t = q["tree"]
            E = [0] + [q["E"][i % len(q["E"])] for i in range(nb(t) - 1)]
            O = [x for x, _ in expand(t, q["t0"], E)]
            parts.append(dict(tree=t, O=O, E=E[1:]))
            if q["simple"]:
                cands.append(Candidate(-1, {"alpha": t["ch"][0]["n"]["ev"], "p": t["p"], "occs": list(O), "E": list(E[1:])}))
            else:
                cands.append(Candidate(-1, make(t), list(O), list(E[1:])))
        r0 = min(q["tree"]["r"] - o for q, o in zip(case["parts"], case["first"]))
        full = all(q["tree"]["r"] == r0 for q in case["parts"])
        e = dict(ev="Combine", parts=parts, res=parts[0], full=full, exc="")
        try:
            q = f(cands, case["p0"], r0, case["first"])
            e["res"] = dict(tree=from_nodes(q.P.nodes), O=ints(q.O), E=ints(q.E))
        except Exception as ex:
            e["exc"] = type(ex).__name__
        ev.append(e)
    return ev


def extras(rng):
    out = [dict(op="expand", t0=rng.choice([0, 5, 100, -3]), E=[rng.choice([0, 0, 1, -1, 3, -7]) for _ in range(7)], dict=rng.random() < .5),
           dict(op="inverse", O=[rng.randrange(-20, 100) for _ in range(5)])]
    if rng.random() < .4:
        out.append(dict(op="copy", rep=rng.random() < .5))
    return out


def where(rng, t, o):
    if rng.random() < .25:
        o["at"] = rng.choice(block_paths(t))
    elif rng.random() < .1:
        o["leaf"] = True
    return o


def rand_ops(rng):
    if rng.random() < .5:
        x = rng.random()
        ops = [dict(op="given", tree=rand_tree(rng, rng.choice([1, 2, 3]), 60) if x < .5 else factor_tree(rng) if x < .8 else wide_tree(rng))]
        t = ops[0]["tree"]
    else:
        t = cyc(rng.choice([1, 2, 3]), rng.choice([2, 2, 3, 3, 4, 4, 13, 30]), rng.choice([1, 4, 9]))
        ops = [dict(op="cycle", e=t["ch"][0]["n"]["ev"], r=t["r"], p=t["p"])]
    t = copy.deepcopy(t)
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        k = rng.choice(["append", "merge", "repeat", "factor"])
        fp = factor_paths(t)
        if k == "factor" and fp:
            path = rng.choice(fp)
            ops.append(dict(op="factor", path=[j + 1 for j in path]))
            apply_factor(t, path)
        elif k == "append":
            o = dict(op="append", e=rng.choice([1, 2, 3]), d=rng.choice([0, 1, 4]))
            ops.append(where(rng, t, o))
            add_at(t, o.get("at", []), dict(d=o["d"], n=leaf(o["e"])))
        elif k == "merge":
            s = rand_tree(rng, rng.choice([1, 2]), 8) if rng.random() < .6 else factor_tree(rng)
            o = where(rng, t, dict(op="merge", sub=s, d=rng.choice([0, 1, 4]), fac=[]))
            s = copy.deepcopy(s)
            while factor_paths(s) and rng.random() < .7:
                o["fac"].append(list(rng.choice(factor_paths(s))))
                apply_factor(s, o["fac"][-1])
            ops.append(o)
            add_at(t, o.get("at", []), dict(d=o["d"], n=s))
        elif k == "repeat" and nb(t) <= 40:
            o = dict(op="repeat", r=rng.choice([2, 3]), p=rng.choice([2, 20, 50]))
            ops.append(o)
            t = dict(r=o["r"], p=o["p"], ch=[dict(d=0, n=t)])
        if rng.random() < .4:
            ops += extras(rng)
        if nb(t) > 90:
            break
    return ops + extras(rng)


def cases(tier, rng, emitted):
    em = emitted.get("Pattern", [])
    q = tier == "quick"
    if q and len(em) > 900:
        em = rng.sample(em, 900)
    for ops in em:
        out = []
        for o in ops:
            out.append(o)
            if rng.random() < .3:
                out += extras(rng)
        yield dict(kind="ops", ops=out + extras(rng))
    for _ in range(500 if q else 4000):
        yield dict(kind="ops", ops=rand_ops(rng))
    for _ in range(120 if q else 1500):
        yield dict(kind="factored", tree=wide_tree(rng), t0=rng.choice([0, 50]), E=[rng.choice([0, 0, 1, -1, 2]) for _ in range(5)])
    n = 0
    while n < (150 if q else 1500):
        t = rand_tree(rng, rng.choice([2, 3]), 40)
        if factor_paths(t):
            n += 1
            yield dict(kind="factored", tree=t, t0=rng.choice([0, 50]), E=[rng.choice([0, 0, 1, -1, 2]) for _ in range(5)])
    for _ in range(250 if q else 2500):
        k = rng.choice([2, 2, 3])
        parts, p0 = [], rng.choice([10, 30])
        for _ in range(k):
            simple = rng.random() < .4
            t = cyc(rng.choice([1, 2, 3]), 3, p0) if simple else rand_tree(rng, rng.choice([1, 2]), 20)
            t["r"], t["p"] = rng.choice([3, 3, 4]), p0 + rng.choice([0, 0, 1])
            parts.append(dict(tree=t, simple=simple, t0=rng.randrange(0, 20), E=[rng.choice([0, 0, 1, -1]) for _ in range(5)]))
        parts.sort(key=lambda x: x["t0"])
        yield dict(kind="concat", parts=parts, p0=p0, first=[rng.choice([0, 0, 0, 1]) for _ in parts])
    for _ in range(120 if q else 1500):
        yield dict(kind="pool", log=rand_log(rng), n=15)


def nontrivial(case, events):
    if case["kind"] == "ops":
        return any(e["ev"] == "Op" and (e["depth"] > 1 or e["width"] > 1) for e in events)
    if case["kind"] == "pool":
        return any(e["ev"] == "Pool" and any(q["tree"]["ch"][0]["n"]["r"] or len(q["tree"]["ch"]) > 1 for q in e["cands"]) for e in events)
    return bool(events)


ROUNDS = 2
