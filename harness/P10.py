"""Supervised discretisation (MDLP)."""
import math
from collections import Counter
from math import log2
import warnings

warnings.filterwarnings("ignore")
TRACE = "MdlpTrace"
RULE = ("every label sequence of the small scope of Mdlp.tla (sampled in quick) laid on distinct and tied values, plus seeded tables "
        "over dtypes, ties, negative labels, DataFrame/array, column orders, refits; new rows on, just beside and away from cut points; "
        "tables with 13 to 70 classes; non-trivial: at least one cut point")
CFG = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\nNLab = %d\nINVARIANTS Tiling LabelChange Final Theorem1 EntropySane AdmitsSame Emit\n"
       "PROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Mdlp", CFG % (6, 3))], "thorough": [("Mdlp", CFG % (8, 3)), ("Mdlp", CFG % (11, 2))]}
TIMEOUT = 200
BIG = 10 ** 8
#        name: (dtype, base, step, max code)
KINDS = dict(f8=("float64", -3.0, 0.5, 1400), f4=("float32", 10.0, 0.25, 400), i8=("int64", -20, 2, 1400), i1=("int8", -100, 4, 50),
             u1=("uint8", 20, 4, 58), i2=("int16", -32000, 1000, 60), huge=("float64", 2.0 ** 40, 1024.0, 60), b1=("bool", 0, 1, 1),
             tiny=("float64", 0.0, 2.0 ** -30, 1400), u2=("uint16", 5, 1000, 60),
             i8s=("int64", -20, 1, 1400), i1s=("int8", -100, 1, 200), u1s=("uint8", 3, 1, 240), f4s=("float32", -7.0, 1.0, 400))


def preload():
    import numpy, pandas, scipy.stats  # noqa
    import skmine.preprocessing.mdlp_discretizer  # noqa


def val(kind, code):
    return KINDS[kind][1] + KINDS[kind][2] * code


def table(case, fit):
    import numpy as np
    import pandas as pd
    cols = [np.array([val(k, v) for v in fit["cols"][j]]).astype(KINDS[k][0]) for j, k in enumerate(case["kinds"])]
    if case["form"] == "df":
        return pd.DataFrame({n: c for n, c in zip(case["names"], cols)}, columns=case["names"])
    if case["form"] == "dfidx":
        return pd.DataFrame({n: c for n, c in zip(case["names"], cols)}, columns=case["names"], index=[3 * i + 5 for i in range(len(cols[0]))][::-1])
    return np.stack(cols, axis=1)


def new_value(kind, u):
    """value at u eighths of the grid; u = 8*q + 4*h + d with d in -1, 0, 1 (one ulp beside)"""
    import numpy as np
    d = ((u + 1) % 4) - 1 if (u + 1) % 4 < 3 else 0
    b = u - d
    x = np.float64(val(kind, b / 8))
    if d:
        x = np.nextafter(x, np.inf if d > 0 else -np.inf)
    return float(x)


def units(kind, x):
    u = (float(x) - KINDS[kind][1]) / KINDS[kind][2] * 8
    if not math.isfinite(u) or abs(u) > BIG:
        return BIG
    return int(round(u)) if abs(u - round(u)) < 1e-6 else BIG - 1


def run_case(case):
    import numpy as np
    import pandas as pd
    from skmine.preprocessing import MDLPDiscretizer
    kw = dict(n_jobs=case.get("n_jobs", 1))
    if case["random_state"] is not None:
        kw["random_state"] = case["random_state"]
    m = MDLPDiscretizer(**kw)
    ev = []
    ncol = len(case["kinds"])
    keys = case["names"] if case["form"].startswith("df") else list(range(ncol))
    for s in case["steps"]:
        if s["op"] == "fit":
            e = dict(ev="Fit", cols=[[8 * v for v in col] for col in s["cols"]], y=s["y"], cuts=[], view=[], exc="")
            try:
                X = table(case, s)
                y = np.array(s["y"]).astype(s["ydtype"])
                y = pd.Series(y, index=[7 * i for i in range(len(y))]) if s["yseries"] else y
                if m.fit(X, y) is not m:
                    raise AssertionError("fit does not return self")
                if set(m.cut_points_) != set(keys):
                    raise AssertionError("keys " + str(list(m.cut_points_)))
                e["cuts"] = [[units(k, v) for v in m.cut_points_[n]] for k, n in zip(case["kinds"], keys)]
                d = m.discover()
                e["view"] = [[units(k, v) for v in d[n]] for k, n in zip(case["kinds"], keys)]
            except Exception as ex:
                e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
            ev.append(e)
            if e["exc"]:
                break
        else:
            order = s["order"]
            e = dict(ev="Transform", names=[j + 1 for j in order], outnames=[], rows=s["rows"], bins=[], exc="")
            try:
                arr = np.array([[new_value(case["kinds"][j], u) for j, u in zip(order, r)] for r in s["rows"]],
                               dtype=float).reshape(len(s["rows"]), len(order))
                if s.get("native"):  # the type of the training data
                    cs = [np.array([val(case["kinds"][j], r[k] // 8) for r in s["rows"]]).astype(KINDS[case["kinds"][j]][0])
                          for k, j in enumerate(order)]
                    arr = np.stack(cs, axis=1) if s["form"] != "df" else None
                if s["form"] == "df":
                    d = pd.DataFrame({keys[j]: c for j, c in zip(order, cs)}) if s.get("native") else pd.DataFrame(arr, columns=[keys[j] for j in order])
                    out = m.transform(d)
                    e["outnames"] = [keys.index(c) + 1 for c in out.columns]
                    out = out.values
                else:
                    out = m.transform(arr)
                    e["outnames"] = e["names"]
                e["bins"] = [[int(v) for v in r] for r in out.tolist()]
                if any(int(v) != v for r in out.tolist() for v in r):
                    raise AssertionError("bins are not integers")
            except Exception as ex:
                e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
            ev.append(e)
    return ev


def perms_count(groups):
    p = 1
    for g in groups:
        n = math.factorial(len(g))
        for v in set(g):
            n //= math.factorial(g.count(v))
        p *= n
    return p


def column(rng, kind, y, limit=24):
    """codes for one column: related to the labels, with a bounded number of orders of mixed ties"""
    mx = KINDS[kind][3]
    n = len(y)
    if kind == "b1":
        col = [(v % 2 if rng.random() < 0.9 else 1 - v % 2) for v in y]
        if perms_count([[y[i] for i in range(n) if col[i] == c] for c in (0, 1)]) > 400:
            return [rng.choice((0, 1))] * n if len(set(y)) == 1 or n <= 6 else None
        return col
    style = rng.randrange(4)
    for attempt in range(40):
        if style == 0:  # distinct
            col = rng.sample(range(mx + 1), n) if n <= mx + 1 else None
            if col and rng.random() < 0.7:
                # sorted with labels in runs
                idx = sorted(range(n), key=lambda i: (y[i] if rng.random() < 0.85 else rng.choice(y), rng.random()))
                srt = sorted(col)
                col = [0] * n
                for k, i in enumerate(idx):
                    col[i] = srt[k]
        elif style == 1:
            col = [min(mx, max(0, int(rng.gauss(12 * (abs(v) % 4) + 6, 5)))) for v in y]
        elif style == 2:
            col = [min(mx, (abs(v) % 4) * 10 + rng.randrange(3) * rng.randrange(1, 3)) for v in y]
        else:
            col = [rng.randrange(min(mx, 8) + 1) for _ in y] if n <= 8 else [min(mx, max(0, int(rng.gauss(15 * (abs(v) % 4), 2)))) for v in y]
        if col and perms_count([[y[i] for i in range(n) if col[i] == c] for c in set(col)]) <= limit:
            return col
        if attempt > 10:
            style = 0
    return rng.sample(range(mx + 1), n)


def rows_for(rng, kinds, order, fit, cutsguess=True):
    out = []
    for _ in range(rng.choice((0, 1, 5, 8, 16))):
        r = []
        for j in order:
            col = sorted(set(fit["cols"][j]))
            if rng.random() < 0.6 and len(col) > 1:
                k = rng.randrange(len(col) - 1)
                u = 4 * (col[k] + col[k + 1])
            elif rng.random() < 0.5:
                u = 8 * rng.choice(col)
            else:
                u = 8 * rng.randrange(-5, KINDS[kinds[j]][3] + 9) + 4
            r.append(u + rng.choice((-1, 0, 0, 1)))
        out.append(r)
    return out


def transform_step(rng, case, fit):
    n = len(case["kinds"])
    form = "array"
    order = list(range(n))
    if case["form"].startswith("df") and rng.random() < 0.7:
        form = "df"
        rng.shuffle(order)
    elif not case["form"].startswith("df") and rng.random() < 0.2:
        form = "df"
    rows = rows_for(rng, case["kinds"], order, fit)
    native = rng.random() < 0.4 and "b1" not in case["kinds"] and bool(rows)
    if native:
        rows = [[8 * min(KINDS[case["kinds"][j]][3], max(0, u // 8 + rng.choice((0, 0, 1)))) for j, u in zip(order, r)] for r in rows]
    return dict(op="transform", form=form, order=order, rows=rows, native=native)


def from_labels(rng, y):
    """a behaviour of Mdlp.tla: the sequence is the labels in sorted order of the value"""
    kind = rng.choice(("f8", "i8", "u1", "i1", "huge", "i8s", "i1s", "u1s", "f4s"))
    n = len(y)
    labs = rng.sample((-3, -1, 0, 1, 2, 5), 3)
    yy = [labs[v - 1] for v in y]
    code = sorted(rng.sample(range(KINDS[kind][3] + 1), n))
    for k in range(1, n):  # sometimes ties
        if rng.random() < 0.15:
            code[k] = code[k - 1]
    p = list(range(n))
    rng.shuffle(p)
    f = dict(op="fit", cols=[[code[i] for i in p]], y=[yy[i] for i in p], ydtype="int64", yseries=False)
    case = dict(kinds=[kind], names=["v"], form="array", random_state=rng.choice((None, 0, 7)), steps=[f])
    case["steps"].append(transform_step(rng, case, f))
    return case


def random_case(rng, big, xl=False):
    nc = rng.choice((1, 1, 2, 2, 3, 3, 4, 5, 6) if not big else (1, 2, 3)) if not xl else 1
    if rng.random() < 0.5:
        kinds = [rng.choice([k for k in KINDS if k not in ("b1",)])] * nc
    else:
        kinds = [rng.choice([k for k in KINDS if k not in ("b1", "huge")]) for _ in range(nc)]
    if rng.random() < 0.06:
        kinds = ["b1"] * nc
    if xl:
        kinds = [rng.choice(("f8", "f4", "i8", "tiny"))]
    form = rng.choice(("array", "df", "df", "dfidx"))
    if form == "array" and len(set(kinds)) > 1:
        kinds = [kinds[0]] * nc
    names = rng.sample(["a", "b", "z", "col 1", 0, 2, 1, 10], nc)
    case = dict(kinds=kinds, names=names, form=form, random_state=rng.choice((None, 0, 1, 42)), steps=[])
    if rng.random() < 0.02:
        case["n_jobs"] = 2
    for _ in range(rng.choice((1, 1, 1, 2))):
        n = rng.choice((1, 2, 3, 4, 6, 8, 12)) if not big else rng.randrange(16, 49)
        if xl:
            n = rng.randrange(60, 360)
        k = rng.choice((1, 2, 2, 3, 3, 4, 6, 10))
        neg = rng.random() < 0.4
        labs = rng.sample(range(-7, 7) if neg else range(0, 12), min(k, n))
        y = [rng.choice(labs) for _ in range(n)]
        if rng.random() < 0.6:
            y.sort()
        cols = [column(rng, kd, y) for kd in kinds]
        if any(c is None for c in cols):
            continue
        f = dict(op="fit", cols=cols, y=y, ydtype=rng.choice(("int64", "int32", "int8") if neg else ("int64", "int32", "uint8")),
                 yseries=rng.random() < 0.3)
        case["steps"].append(f)
        for _ in range(rng.choice((1, 1, 2))):
            case["steps"].append(transform_step(rng, case, f))
    return case if case["steps"] else random_case(rng, big)


def margin(y):
    """gain minus threshold of the first split, in bits times the length (generation only: the specification decides)"""
    def ent(v):
        c = Counter(v)
        return -sum(k / len(v) * log2(k / len(v)) for k in c.values()), len(c)
    best = min(((ent(y[:i])[0] * i + ent(y[i:])[0] * (len(y) - i), i) for i in range(1, len(y)) if y[i - 1] != y[i]), default=None)
    if best is None:
        return None
    (e, k), (e1, k1), (e2, k2) = ent(y), ent(y[:best[1]]), ent(y[best[1]:])
    return len(y) * e - best[0] - log2(len(y) - 1) - log2(3 ** k - 2) + k * e - k1 * e1 - k2 * e2


def knife_edge(rng):
    """labels whose best split only just passes, or just fails, the acceptance test"""
    best = None
    for _ in range(60):
        n = rng.choice((rng.randrange(6, 20), rng.randrange(20, 66), rng.randrange(66, 140)))
        k = rng.choice((2, 2, 2, 3))
        a = rng.randrange(1, n)
        w1, w2 = [rng.random() for _ in range(k)], [rng.random() for _ in range(k)]
        y = rng.choices(range(k), w1, k=a) + rng.choices(range(k), w2, k=n - a)
        m = margin(y)
        if m is not None and 0.002 < abs(m) and (best is None or abs(m) < abs(best[0])):
            best = (m, y)
    y = best[1] if best else [0, 0, 1, 1]
    n = len(y)
    kind = rng.choice(("f8", "i8", "tiny", "i8s"))
    code = sorted(rng.sample(range(KINDS[kind][3] + 1), n))
    p = list(range(n))
    rng.shuffle(p)
    f = dict(op="fit", cols=[[code[i] for i in p]], y=[y[i] for i in p], ydtype="int64", yseries=rng.random() < 0.3)
    case = dict(kinds=[kind], names=["v"], form=rng.choice(("array", "df")), random_state=rng.choice((None, 0, 7)), steps=[f])
    case["steps"].append(transform_step(rng, case, f))
    return case


def long_runs(rng):
    """hundreds of rows in a few runs of labels, with little noise"""
    n = rng.randrange(400, 1300)
    labs = rng.sample(range(-5, 12), rng.choice((2, 2, 3, 5)))
    y = []
    while len(y) < n:
        y += [rng.choice(labs)] * rng.choice((n // 2, n // 3, n // 5, 40, 300))
    y = y[:n]
    for _ in range(rng.randrange(0, 6)):
        y[rng.randrange(n)] = rng.choice(labs)
    kind = rng.choice(("f8", "i8", "tiny", "i8s"))
    code = sorted(rng.sample(range(KINDS[kind][3] + 1), n))
    p = list(range(n))
    rng.shuffle(p)
    f = dict(op="fit", cols=[[code[i] for i in p]], y=[y[i] for i in p], ydtype="int64", yseries=rng.random() < 0.3)
    case = dict(kinds=[kind], names=["v"], form=rng.choice(("array", "df")), random_state=rng.choice((None, 0, 7)), steps=[f])
    case["steps"].append(transform_step(rng, case, f))
    return case


def many_labels(rng):
    """many classes in runs of uneven length, with some noise: thresholds that grow with the number of classes"""
    k = rng.choice((13, 16, 20, 30, 39, 40, 41, 43, 44, 50, 52, 55, 60, 70))
    labs = rng.sample(range(-90, 120), k)
    y = []
    for v in labs:
        y += [v] * rng.choice((1, 1, 2, 3, 4))
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 12)):
            y[rng.randrange(len(y))] = rng.choice(labs)
    n = len(y)
    kind = rng.choice(("f8", "f4", "i8", "tiny"))
    code = sorted(rng.sample(range(KINDS[kind][3] + 1), n))
    p = list(range(n))
    rng.shuffle(p)
    f = dict(op="fit", cols=[[code[i] for i in p]], y=[y[i] for i in p], ydtype=rng.choice(("int64", "int16")), yseries=rng.random() < 0.3)
    case = dict(kinds=[kind], names=["v"], form=rng.choice(("array", "df")), random_state=rng.choice((None, 0, 7)), steps=[f])
    case["steps"].append(transform_step(rng, case, f))
    return case


def cases(tier, rng, emitted):
    em = emitted.get("Mdlp", [])
    q = tier == "quick"
    lim = 1100 if q else 14000
    if len(em) > lim:
        em = rng.sample(em, lim)
    for e in em:
        yield from_labels(rng, e["y"])
    for i in range(600 if q else 8000):
        yield random_case(rng, big=i % 3 == 0, xl=i % 40 == 0)
    for i in range(40 if q else 500):
        yield many_labels(rng)
    for i in range(16 if q else 160):
        yield long_runs(rng)
    for i in range(110 if q else 1100):
        yield knife_edge(rng)


def nontrivial(case, events):
    return any(c for e in events if e["ev"] == "Fit" for c in e["cuts"])


ROUNDS = 2
