"""Costs of periodic pattern collections."""
import copy

from periodic_drv import (PDESIGN, apply_factor, bits, cyc, expand, factor_paths, from_nodes, leaf, nb, rand_tree, to_nodes)
from periodic_drv import history, kinds_log, train_log, long_log, many_log, mk_case, pick_log, preload, uneven_log  # noqa

TRACE = "PeriodicTrace"
DESIGN = PDESIGN
RULE = ("logs of the small scope of Periodic.tla and seeded logs whose span in mining units is at most 10**9 and whose list costs at most 30000 bits "
        "(integers of the specification); non-trivial: at least one pattern")
TIMEOUT = 400
CLAUSES = {"CostError", "PatternCost", "PatternCostPositive", "SumOfPatterns", "ResidualCost", "ListingCost", "TotalIsSum", "Ratio", "NeverWorse",
           "NewEach", "CountReported", "MadeTree", "MadeSpan", "Unexpected", "OutsideSpec"}


def made(case):
    """A pattern made by hand (by the operations of its class), in a log of its own occurrences and others."""
    from skmine.periodic.data_sequence import DataSequence
    from skmine.periodic.pattern import Pattern
    t = case["tree"]
    E = [0] + [case["E"][i % len(case["E"])] for i in range(nb(t) - 1)]
    log = sorted({tuple(x) for x in expand(t, case["t0"], E)} | {tuple(x) for x in case["others"]})
    e = dict(ev="Made", log=[list(x) for x in log], tree=t, want=t, t0=case["t0"] - log[0][0], E=E[1:], dt=0, cl=0, exc="")
    try:
        P = None
        for o in case["ops"]:
            if o["op"] == "given":
                P = Pattern(to_nodes(o["tree"]))
            elif o["op"] == "cycle":
                P = Pattern(o["e"], o["r"], o["p"])
            elif o["op"] == "append":
                P.append(o["e"], o["d"])
            elif o["op"] == "merge":
                P.merge(Pattern(to_nodes(o["sub"])), o["d"])
            elif o["op"] == "repeat":
                P.repeat(o["r"], o["p"])
            else:
                n = 0
                for j in o["path"]:
                    n = P.nodes[n]["children"][j][0]
                P.factorizeTree(n)
        e["tree"] = from_nodes(P.nodes)
        dd = DataSequence(log if case["aslist"] else {k: [a for a, b in log if b == k] for k in {b for _, b in log}}).getDetails()
        e["dt"] = int(dd["deltaT"])
        e["cl"] = bits(P.codeLength(case["t0"], E[1:], dd))
    except Exception as ex:
        e["exc"] = type(ex).__name__
    return [e]


def made_case(rng):
    while True:
        k = rng.choice(["given", "cycle"])
        if k == "given":
            t = rand_tree(rng, rng.choice([1, 2, 2, 3]), 40, (0, 1, 2))
            ops = [dict(op="given", tree=copy.deepcopy(t))]
        else:
            t = cyc(rng.randrange(3), rng.choice([2, 3, 4, 12]), rng.choice([1, 4, 9]))
            ops = [dict(op="cycle", e=t["ch"][0]["n"]["ev"], r=t["r"], p=t["p"])]
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = rng.choice(["append", "append", "merge", "repeat", "repeat", "factor"])
            fp = factor_paths(t)
            if k == "factor" and fp:
                ops.append(dict(op="factor", path=list(rng.choice(fp))))
                apply_factor(t, ops[-1]["path"])
            elif k == "append":
                ops.append(dict(op="append", e=rng.randrange(3), d=rng.choice([0, 1, 4])))
                t["ch"].append(dict(d=ops[-1]["d"], n=leaf(ops[-1]["e"])))
            elif k == "merge":
                ops.append(dict(op="merge", sub=rand_tree(rng, rng.choice([1, 2]), 8, (0, 1, 2)), d=rng.choice([0, 1, 4])))
                t["ch"].append(dict(d=ops[-1]["d"], n=copy.deepcopy(ops[-1]["sub"])))
            elif k == "repeat" and nb(t) <= 30:
                ops.append(dict(op="repeat", r=rng.choice([2, 3]), p=rng.choice([2, 20, 50])))
                t = dict(r=ops[-1]["r"], p=ops[-1]["p"], ch=[dict(d=0, n=t)])

        def repeats(n):
            return not n["r"] or n["r"] > 1 and all(repeats(c["n"]) for c in n["ch"])
        if nb(t) <= 90 and repeats(t):
            break
    t0 = rng.choice([0, 7, 100])
    hi = max(x for x, _ in expand(t, t0, [0] * nb(t)))
    others = [[rng.randrange(max(0, t0 - 5), hi + rng.choice([1, 5, 60])), rng.choice([0, 1, 2])] for _ in range(rng.choice([0, 3, 12]))]
    return dict(kind="made", tree=t, ops=ops, t0=t0, E=[rng.choice([0, 0, 0, 1, -1, 3]) for _ in range(7)] if rng.random() < .7 else [0],
                others=others + [[t0 + hi, e] for e in range(3)], aslist=rng.random() < .5)


def run_case(case):
    return made(case) if case.get("kind") == "made" else history(case)


def cfg(rng):
    return rng.choice([dict(idx="int", mul=1, base=0), dict(idx="int", mul=1, base=rng.choice([5, -8, 1000])), dict(idx="int", mul=100, base=300),
                       dict(idx="dt", unit="D", mul=1, base=0), dict(idx="dt", unit="min", mul=1, base=1577836800 * 10 ** 9),
                       dict(idx="dt", unit="ns", mul=1, base=1577836800 * 10 ** 9 + 1)])


def cases(tier, rng, emitted):
    em = emitted.get("Periodic", [])
    q = tier == "quick"
    for i in range(12 if q else 120):
        yield mk_case(rng, [[x for x in long_log(rng, rng.choice([201, 205, 241]), 1480) if x[0] < 1485] if i % 3 else many_log(rng, 240)],
                      [dict(act="fit", log=0), dict(act="cost")], cfg(rng), dict(complex=rng.random() < .8, auto_time_scale=rng.random() < .8))
    for _ in range(4 if q else 30):
        yield mk_case(rng, [train_log(rng, rng.choice([300, 520] if q else [300, 520, 800, 1050]))], [dict(act="fit", log=0), dict(act="cost")], cfg(rng),
                      dict(complex=rng.random() < .3, auto_time_scale=True))
    for _ in range(400 if q else 4000):
        yield made_case(rng)
    for _ in range(120 if q else 1200):
        yield mk_case(rng, [kinds_log(rng)], [dict(act="fit", log=0), dict(act="cost")], cfg(rng), dict(complex=rng.random() < .7, auto_time_scale=True))
    for _ in range(150 if q else 3000):
        yield mk_case(rng, [uneven_log(rng)], [dict(act="fit", log=0), dict(act="cost")], cfg(rng), dict(complex=rng.random() < .7, auto_time_scale=True))
    for lg in (rng.sample(em, min(len(em), 700)) if q else em):
        yield mk_case(rng, [[list(x) for x in lg]], [dict(act="fit", log=0), dict(act="cost")], cfg(rng), dict(complex=rng.random() < .65, auto_time_scale=True))
    for _ in range(1200 if q else 14000):
        k = rng.choice([1, 1, 1, 2])
        acts = []
        for i in range(k):
            acts += [dict(act="fit", log=i), dict(act="cost")]
        yield mk_case(rng, [pick_log(rng, em, 80) for _ in range(k)], acts, cfg(rng), dict(complex=rng.random() < .8, auto_time_scale=rng.random() < .8))


def nontrivial(case, events):
    return any(e["ev"] in ("Single", "Made") for e in events)
