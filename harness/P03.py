from itemset_drv import *
import itemset_drv as d
TRACE = "ItemsetTrace"
RULE = ("seeded random databases, each with a random sequence of transforms over the product of options (max length, order, tids, "
        "file with/without previous content, in other folders, beside other files) and refits on the same miner; non-trivial: some transform returned >= 2 itemsets")
ROUNDS = 4
DESIGN = {"quick": [("LCM", cfg(3, 2, [1, 2]))], "thorough": [("LCM", cfg(3, 3, [1, 2, 3]))]}
TIMEOUT = 120


def options(rng, m):
    return dict(op="transform", maxlen=rng.choice([-1, -1, -1, 1, 1, 2, 2, 2, 3, 3, m, m + 1, 0]), lex=rng.random() < 0.6,
                tids=rng.random() < 0.5, file=rng.random() < 0.5, prefill=rng.random() < 0.5,
                others=rng.random() < 0.3, where=rng.choice(("", "", "sub", "abs")))


def cases(tier, rng, emitted):
    q = tier == "quick"
    for e in replayed(emitted.get("LCM", []), "closed") + replayed(emitted.get("LCM", []), "max"):
        e["steps"][1:] = [options(rng, e["nitems"]) for _ in range(2)]
        yield e
    for i in range(500 if q else 5000):
        kind = ["closed", "max"][i % 2]
        c = generic_case(rng, kind, big=i % 5 == 0)
        m = c["nitems"]
        steps = [c["steps"][0]] + [options(rng, m) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.4:
            c2 = generic_case(rng, kind)
            f = c2["steps"][0]
            f["db"] = [[x % m for x in t] for t in f["db"]]
            if f["container"] == "array":
                f["container"] = "list"
            f["db"] = [list(dict.fromkeys(t)) for t in f["db"]]
            steps += [f] + [options(rng, m) for _ in range(2)]
            c["fresh"] = rng.random() < 0.3
        c["steps"] = steps
        yield c
    for i in range(40 if q else 400):
        c = shaped_case(rng, ["closed", "max"][i % 2], "tall" if i % 4 < 2 else "wide")
        c["steps"][1:] = [options(rng, c["nitems"]) for _ in range(2)]
        yield c
    for i in range(6 if q else 40):  # thousands of transaction ids
        c = shaped_case(rng, ["closed", "max"][i % 2], "tall", sizes=(600, 1030, 2100))
        c["steps"][1:] = [dict(options(rng, c["nitems"]), tids=True, maxlen=-1, file=k == 0) for k in range(2)]
        yield c
    if True:  # every option combination on one rich database
        base = [[0, 1, 2, 3], [0, 1, 2], [0, 1], [1, 2, 3], [0, 2, 3], [3], [1, 3], [0, 1, 2, 3]]
        for kind in ("closed", "max"):
            for jobs in (1, 2):
                yield dict(nitems=4, label="numstr", steps=[
                    dict(op="fit", kind=kind, db=base, thr=dict(kind="abs", num=2, den=1), container="list", jobs=jobs)] + [
                    dict(op="transform", maxlen=ml, lex=lx, tids=td, file=fl, prefill=True)
                    for ml in (-1, 1, 2, 3, 4) for lx in (True, False) for td in (True, False) for fl in (True, False)][::1 if jobs == 1 else 7])
