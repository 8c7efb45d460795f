"""Emerging patterns (MBD-LLBorder)."""
import warnings
from fractions import Fraction
from math import ceil, prod

warnings.filterwarnings("ignore")
TRACE = "BordersTrace"
RULE = ("every pair of collections of the small scope of Borders.tla (sampled in quick) and seeded larger pairs, thresholds on and around "
        "exact fractions, label types, refits; border differences and enumerations on arbitrary borders; "
        "wide itemsets with hundreds of minimal ones, dozens of maximal itemsets, borders of more than ten items; non-trivial: a non-empty border with a left itemset")
CFG = ("SPECIFICATION Spec\nCONSTANTS NItems = %d\nN1 = %d\nN2 = %d\nT1 = %d\nT2 = %d\nEmitCases = %s\n"
       "INVARIANTS Sound Complete LeftMinimal WideAgrees Emit\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Borders", CFG % (3, 2, 2, 1, 1, "TRUE")), ("Borders", CFG % (3, 2, 2, 2, 1, "TRUE"))],
          "thorough": [("Borders", CFG % (3, 2, 2, 1, 1, "TRUE")), ("Borders", CFG % (3, 2, 2, 2, 1, "TRUE")),
                       ("Borders", CFG % (3, 3, 2, 2, 1, "TRUE")), ("Borders", CFG % (3, 2, 3, 1, 2, "FALSE")),
                       ("Borders", CFG % (4, 2, 2, 1, 1, "FALSE"))]}
TIMEOUT = 200
LABELS = [list(range(1, 21)), list("abcdefghijklmnopqrst"), [10, 3, 7, 25, 1, 14, 2, 30, 11, 100, 12, 13, 99, 4, 5, 6, 8, 9, 15, 16]]
YS = [(0, 1), ("a", "b"), (False, True), ("drink", "food"), (-1, 1), (3, 17)]
YFORMS = ("array", "list", "series", "category", "tuple")


def preload():
    import numpy, pandas, joblib  # noqa
    import skmine.emerging.mbdldorber  # noqa


def make_y(case, s):
    import numpy as np
    import pandas as pd
    lo, hi = YS[case["y"]]
    y = [hi if v else lo for v in s["y"]]
    f = case["yform"]
    if f == "array":
        return np.array(y)
    if f == "list":
        return y
    if f == "tuple":
        return tuple(y)
    return pd.Series(y, index=s["index"], dtype="category" if f == "category" else None)


def run_case(case):
    import pandas as pd
    from skmine.emerging.mbdldorber import MBDLLBorder, border_diff, borders_to_patterns
    lab = LABELS[case["labels"]]
    num = {x: i + 1 for i, x in enumerate(lab)}
    ev = []
    m = None
    for s in case["steps"]:
        if s["op"] == "fit":
            d1 = [[i + 1 for i in t] for t, v in zip(s["db"], s["y"]) if not v]
            d2 = [[i + 1 for i in t] for t, v in zip(s["db"], s["y"]) if v]
            p, g = Fraction(s["supp"]), Fraction(s["rate"])
            e = dict(ev="Fit", db1=d1, db2=d2, t1=max(1, ceil(p * len(d1))), t2=max(1, ceil(p * g * len(d2))), borders=[], exc="", wide=bool(s.get("wide")))
            try:
                if m is None or s.get("fresh"):
                    m = MBDLLBorder(min_supp=float(p), min_growth_rate=(int(g) if g.denominator == 1 else float(g)), n_jobs=s.get("n_jobs", 1))
                else:
                    m.set_params(min_supp=float(p), min_growth_rate=(int(g) if g.denominator == 1 else float(g)))
                D = pd.Series([[lab[i] for i in t] for t in s["db"]], index=s["index"], dtype=object)
                m.fit(D, make_y(case, s))
                e["borders"] = [dict(left=[[num[i] for i in x] for x in L], right=[num[i] for i in R]) for L, R in m.borders_]
            except Exception as ex:
                e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
            ev.append(e)
            if e["exc"]:
                break
        elif s["op"] == "discover":
            e = dict(ev="Discover", min=s["min"] or 0, pats=[], exc="")
            try:
                r = m.discover() if s["min"] == -1 else m.discover(min_size=s["min"])
                e["min"] = 3 if s["min"] == -1 else e["min"]
                e["pats"] = [[num[i] for i in x] for x in r]
            except Exception as ex:
                e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
            ev.append(e)
        elif s["op"] == "diff":
            e = dict(ev="Diff", U=[i + 1 for i in s["U"]], S=[[i + 1 for i in x] for x in s["S"]], left=[], right=[], exc="")
            try:
                L, R = border_diff({lab[i] for i in s["U"]}, [{lab[i] for i in x} for x in s["S"]])
                e["left"] = [[num[i] for i in x] for x in L]
                e["right"] = [num[i] for i in R]
            except Exception as ex:
                e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
            ev.append(e)
        else:
            e = dict(ev="Enum", left=[[i + 1 for i in x] for x in s["left"]], right=[i + 1 for i in s["right"]], min=s["min"] or 0, pats=[], exc="")
            try:
                r = borders_to_patterns([{lab[i] for i in x} for x in s["left"]], {lab[i] for i in s["right"]}, min_size=s["min"])
                e["pats"] = [[num[i] for i in x] for x in r]
            except Exception as ex:
                e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
            ev.append(e)
    return ev


def index_for(rng, n):
    return rng.choice((list(range(n)), [3 * i + 1 for i in range(n)][::-1], [f"r{i}" for i in range(n)]))


def discovers(rng):
    return [dict(op="discover", min=v) for v in rng.sample((None, 0, 1, 2, 3, 4, -1), rng.choice((1, 2)))]


def from_design(rng, e):
    n1, n2 = len(e["db1"]), len(e["db2"])
    rows = [([i - 1 for i in t], 0) for t in e["db1"]] + [([i - 1 for i in t], 1) for t in e["db2"]]
    # a threshold t1 of n1 rows in the first collection and t2 of n2 rows in the second
    for _ in range(50):
        p = Fraction(rng.randrange(1, 20), 20)
        g = Fraction(rng.randrange(11, 60), 10)
        if p * g <= 1 and ceil(p * n1) == e["t1"] and ceil(p * g * n2) == e["t2"]:
            break
    else:
        return None
    rng.shuffle(rows)
    s = dict(op="fit", db=[r[0] for r in rows], y=[r[1] for r in rows], supp=str(p), rate=str(g), index=index_for(rng, n1 + n2))
    return dict(labels=rng.randrange(3), y=rng.randrange(len(YS)), yform=rng.choice(YFORMS), steps=[s] + discovers(rng))


def random_case(rng, big):
    ni = rng.randrange(2, 8 if big else 6)
    case = dict(labels=rng.randrange(3), y=rng.randrange(len(YS)), yform=rng.choice(YFORMS), steps=[])
    for _ in range(rng.choice((1, 1, 2))):
        n = rng.randrange(2, 25 if big else 10)
        db, y = [], []
        base = [rng.sample(range(ni), rng.randrange(1, ni + 1)) for _ in range(3)]
        for i in range(n):
            v = rng.randrange(2) if i > 1 else i
            if rng.random() < 0.6:
                t = list(rng.choice(base[v:v + 2]))
                if rng.random() < 0.5:
                    t = list(set(t) ^ {rng.randrange(ni)})
            else:
                t = [j for j in range(ni) if rng.random() < rng.choice((0.3, 0.6, 0.8))]
            rng.shuffle(t)
            if t and rng.random() < 0.1:
                t = t + [t[0]]
            db.append(t)
            y.append(v)
        n1, n2 = y.count(0), y.count(1)
        for _ in range(200):
            p = rng.choice((Fraction(rng.randrange(1, n1 + 1), n1), Fraction(rng.randrange(1, 100), 100), Fraction(1, 10)))
            g = rng.choice((Fraction(2), Fraction(3), Fraction(rng.randrange(11, 40), 10), Fraction(rng.randrange(1, n2 + 1), n2) / p))
            # keep away from float products that land within rounding of the wrong side
            if g > 1 and p * g <= 1 and float(p) * float(g) <= 1 and float(p) <= 1:
                break
        else:
            p, g = Fraction(1, 10), Fraction(2)
        o = list(range(n))
        rng.shuffle(o)
        case["steps"].append(dict(op="fit", db=[db[i] for i in o], y=[y[i] for i in o], supp=str(p), rate=str(g), index=index_for(rng, n),
                                  fresh=rng.random() < 0.5, n_jobs=2 if rng.random() < 0.01 else 1))
        case["steps"] += discovers(rng)
    return case


def wide_case(rng):
    """few long transactions: borders with many left itemsets"""
    ni = rng.choice((9, 10, 11, 12, 16))
    case = dict(labels=rng.randrange(3), y=rng.randrange(len(YS)), yform=rng.choice(YFORMS), steps=[])
    n1, n2 = rng.randrange(2, 7), rng.choice((1, 2, 3, 4))
    rows = [([i for i in range(ni) if rng.random() < rng.choice((0.6, 0.75, 0.85))], 0) for _ in range(n1)]
    rows += [([i for i in range(ni) if rng.random() < 0.92], 1) for _ in range(n2)]
    if rng.random() < 0.3:  # disjoint gaps
        k = ni // 4
        rows[:n1] = [([i for i in range(ni) if i // k != j], 0) for j in range(min(4, n1))]
        n1 = min(4, n1)
    while True:
        p = rng.choice((Fraction(rng.randrange(1, n1 + 1), n1), Fraction(1, 10), Fraction(rng.randrange(1, 50), 100)))
        g = rng.choice((Fraction(2), Fraction(3), Fraction(3, 2)))
        if p * g <= 1 and float(p) * float(g) <= 1:
            break
    rng.shuffle(rows)
    case["steps"].append(dict(op="fit", db=[r[0] for r in rows], y=[r[1] for r in rows], supp=str(p), rate=str(g), index=index_for(rng, n1 + n2), wide=True))
    if ni <= 11:
        case["steps"].append(dict(op="discover", min=rng.choice((None, 3, ni - 2, ni // 2, -1))))
    return case


def many_case(rng):
    """dozens of maximal itemsets in either collection"""
    ni = rng.choice((12, 14, 16))
    k = rng.choice((3, 4, 5))
    case = dict(labels=rng.randrange(3), y=rng.randrange(len(YS)), yform=rng.choice(YFORMS), steps=[])
    n1, n2 = rng.choice((70, 90, 120)), rng.choice((4, 8, 70))
    rows = [(rng.sample(range(ni), k), 0) for _ in range(n1)]
    rows += [(sorted(rng.choice(rows)[0]) if rng.random() < 0.5 else rng.sample(range(ni), rng.choice((3, 4, 5, 6))), 1) for _ in range(n2)]
    ones = [set(r[0]) for r in rows[:n1]]

    def choices(U):  # the left itemsets are among the choices of one missing item per maximal intersection
        inter = {frozenset(U) & o for o in ones}
        return prod(len(U) - len(i) for i in inter if not any(i < j for j in inter))
    rows = rows[:n1] + [r for r in rows[n1:] if choices(r[0]) < 2000] + [(rows[0][0], 1)]
    n2 = len(rows) - n1
    p = Fraction(1, n1)
    g = rng.choice((Fraction(2), Fraction(3), Fraction(n1, n2)))
    g = g if g > 1 and float(p) * float(g) <= 1 else Fraction(2)
    rng.shuffle(rows)
    case["steps"].append(dict(op="fit", db=[r[0] for r in rows], y=[r[1] for r in rows], supp=str(p), rate=str(g), index=index_for(rng, n1 + n2), wide=True))
    case["steps"] += discovers(rng)
    return case


def full_case(rng):
    """thresholds at or near all of the second collection, dozens of rows"""
    ni = rng.choice((4, 5, 6))
    n1, n2 = rng.randrange(10, 40), rng.randrange(20, 70)
    case = dict(labels=rng.randrange(3), y=rng.randrange(len(YS)), yform=rng.choice(YFORMS), steps=[])
    rows = [([i for i in range(ni) if rng.random() < rng.choice((0.3, 0.5))], 0) for _ in range(n1)]
    miss = {i: set(rng.sample(range(n2), rng.choice((0, 0, 1, 2)))) for i in range(ni)}
    rows += [([i for i in range(ni) if j not in miss[i]], 1) for j in range(n2)]
    while True:
        g = rng.choice((Fraction(2), Fraction(4), Fraction(5, 2), Fraction(5, 4), Fraction(3)))
        p = rng.choice((Fraction(1), Fraction(n2 - 1, n2), Fraction(97, 100))) / g
        if float(p) * float(g) <= 1:
            break
    rng.shuffle(rows)
    case["steps"].append(dict(op="fit", db=[r[0] for r in rows], y=[r[1] for r in rows], supp=str(p), rate=str(g), index=index_for(rng, n1 + n2), fresh=rng.random() < 0.5))
    case["steps"] += discovers(rng)
    return case


def long_enum(rng):
    """the patterns of borders of more than ten items"""
    n = rng.choice((11, 12, 12, 13))
    U = rng.sample(range(20), n)
    left = [rng.sample(U, rng.choice((1, 2, 2, 3))) for _ in range(rng.choice((1, 2, 4)))]
    return dict(labels=rng.randrange(3), y=0, yform="array", steps=[dict(op="enum", left=left, right=U, min=rng.choice((None, 1, 2, 2, 3, 6)))])


def wide_diff(rng):
    n = rng.choice((10, 12, 16, 20))
    k = rng.choice((2, 3, 4))
    U = rng.sample(range(20), n)
    if rng.random() < 0.5:
        S = [[i for i in U if i not in U[j * k:(j + 1) * k]] for j in range(min(4, n // k))]
    else:
        S = [[i for i in range(20) if rng.random() < 0.75] for _ in range(rng.randrange(2, 6))]
    return dict(labels=rng.randrange(3), y=0, yform="array", steps=[dict(op="diff", U=U, S=S)])


def border_case(rng):
    case = dict(labels=rng.randrange(3), y=0, yform="array", steps=[])
    n = rng.randrange(1, 8)
    for _ in range(3):
        U = rng.sample(range(9), n)
        S = [[i for i in range(9) if rng.random() < rng.choice((0.3, 0.6))] for _ in range(rng.randrange(1, 5))]
        case["steps"].append(dict(op="diff", U=U, S=S))
        left = [[i for i in U if rng.random() < 0.4] for _ in range(rng.randrange(1, 5))]
        case["steps"].append(dict(op="enum", left=left, right=U, min=rng.choice((None, 0, 1, 2, 3, 4))))
    return case


def cases(tier, rng, emitted):
    q = tier == "quick"
    em = emitted.get("Borders", [])
    lim = 700 if q else 9000
    if len(em) > lim:
        em = rng.sample(em, lim)
    for e in em:
        c = from_design(rng, e)
        if c:
            yield c
    for i in range(350 if q else 4000):
        yield random_case(rng, big=i % 4 == 0)
    for i in range(250 if q else 3000):
        yield border_case(rng)
    for i in range(80 if q else 800):
        yield wide_case(rng)
        yield wide_diff(rng)
    for i in range(16 if q else 160):
        yield many_case(rng)
    for i in range(10 if q else 100):
        yield long_enum(rng)
    for i in range(40 if q else 400):
        yield full_case(rng)


def nontrivial(case, events):
    return any(b["left"] for e in events if e["ev"] == "Fit" for b in e["borders"]) or any(e.get("left") for e in events)


ROUNDS = 2
