"""Driver for SLIM: replays histories (fit / prefit / evaluate / update / report) and records the code table."""
import os
import re
import warnings

from itemset_drv import LABELS, Malformed, rand_db, tall_db, wide_db, mesh_db, core_db

warnings.filterwarnings("ignore")
SC = 65536


def preload():
    import numpy, pandas  # noqa
    import skmine.itemsets.slim  # noqa
    import skmine.itemsets.slim_classifier  # noqa
    import skmine.feature_extraction  # noqa


def tabular(kind, rows, labels):
    import numpy as np
    import pandas as pd
    mat = np.array([[1 if j in r else 0 for j in range(len(labels))] for r in rows])
    if kind == "array":
        return mat
    if kind == "df":
        return pd.DataFrame(mat, columns=labels)
    if kind == "dfbool":
        return pd.DataFrame(mat.astype(bool), columns=labels)
    if kind == "dfidx":
        return pd.DataFrame(mat, columns=labels, index=[7 * i + 2 for i in range(len(rows))][::-1])
    raise ValueError(kind)


TAB = ("array", "df", "dfbool", "dfidx")


def make(kind, rows, labels):
    import pandas as pd
    if kind in TAB:
        return tabular(kind, rows, labels)
    D = [[labels[i] for i in t] for t in rows]
    if kind == "series":
        return pd.Series(D)
    if kind == "seriesidx":
        return pd.Series(D, index=[5 * i + 1 for i in range(len(D))][::-1])
    if kind == "strings":
        return ["".join(t) for t in D]
    if kind == "sets":
        return [set(t) for t in D]
    return D


def table(ct, num):
    return [dict(x=[num[i] for i in iset], t=[int(t) for t in tids]) for iset, tids in ct.items()]


def sc(x):
    v = float(x)
    if not (abs(v) < 30000):
        raise Malformed("size " + str(x))
    return int(round(v * SC))


def labels_for(case):
    if case["form"] == "array":
        return list(range(case["nitems"]))
    if case["form"] == "strings":
        return LABELS["str"](case["nitems"])
    return LABELS[case["label"]](case["nitems"])


def run_case(case):
    """case: nitems, label, form, pruning, max_time?, items?(extra alphabet), steps [{op:fit|prefit, db}|{op:update|evaluate, x}|{op:report..}]"""
    from skmine.itemsets import SLIM
    labels = labels_for(case)
    num = {x: i + 1 for i, x in enumerate(labels)}
    numstr = {str(x): i + 1 for i, x in enumerate(labels)}
    kw = {}
    if case.get("items") is not None:
        kw["items"] = set(labels[i] for i in case["items"])
    if "max_time" in case:
        kw["max_time"] = case["max_time"]
    if not case.get("defaultpruning"):
        kw["pruning"] = case["pruning"]
    pruning = case["pruning"]
    m = SLIM(**kw)
    events = []
    cur = dict(D=None)

    def obs(ev):
        ev["ct"] = table(m.codetable_, num)
        ev["data"] = sc(m.data_size_)
        ev["model"] = sc(m.model_size_)
        return ev

    def recon(ev):
        ev["reconexc"] = ""
        ev["recon"] = []
        try:
            r = m.reconstruct()
            ev["recon"] = [[num[i] for i in t] for t in r]
        except Exception as ex:
            ev["reconexc"] = type(ex).__name__
        return ev

    orig_update = m.update
    watching = dict(on=False)

    def update(*a, **k):
        r = orig_update(*a, **k)
        if watching["on"]:
            try:
                events.append(obs(dict(ev="Step", exc="")))
            except Malformed as ex:
                events.append(dict(ev="Malformed", why=str(ex)))
        return r

    m.update = update
    for s in case["steps"]:
        op = s["op"]
        if op in ("fit", "prefit"):
            D = make(case["form"], s["db"], labels)
            cur["D"] = D
            alpha = {i for t in s["db"] for i in t} | set(case.get("items") or [])
            if case["form"] in TAB:
                alpha |= set(range(case["nitems"]))
            events.append(dict(ev="Begin", db=[[i + 1 for i in t] for t in s["db"]], alphabet=[i + 1 for i in sorted(alpha)]))
            ev = dict(ev="Ready", how=op, exc="")
            try:
                watching["on"] = True
                getattr(m, op)(D)
                watching["on"] = False
                recon(obs(ev))
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            watching["on"] = False
            events.append(ev)
            if ev["exc"]:
                break
        elif op in ("update", "evaluate"):
            x = frozenset(labels[i] for i in s["x"])
            ev = dict(ev=op.capitalize(), x=[i + 1 for i in s["x"]], exc="", pruning=pruning)
            try:
                if op == "update":
                    m.update(candidate=x)
                    recon(obs(ev))
                else:
                    ds, ms, us = m.evaluate(x)
                    ev["usages"] = table(us, num)
                    ev["data"], ev["model"] = sc(ds), sc(ms)
                    ev["ct"] = table(m.codetable_, num)
                    ev["data2"], ev["model2"] = sc(m.data_size_), sc(m.model_size_)
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
        else:
            ev = dict(ev="Report", singletons=s["singletons"], tids=s["tids"], lex=s["lex"], dropnull=s["dropnull"], exc="", rows=[])
            try:
                kw = dict(singletons=s["singletons"], return_tids=s["tids"], lexicographic_order=s["lex"], drop_null_usage=s["dropnull"])
                if s.get("file"):
                    r = m.transform(cur["D"], out="slim.out", **kw)
                    if r is not None:
                        raise Malformed("return value")
                    with open("slim.out") as f:
                        lines = f.read().split("\n")
                    os.remove("slim.out")
                    for h in [x for x in lines if x.strip()]:
                        mm = re.fullmatch(r"\((\d+)\) (.*)", h)
                        if mm:
                            ev["rows"].append(dict(x=[numstr[i] for i in mm.group(2).split()], u=int(mm.group(1)), t=[]))
                        else:
                            ev["rows"][-1]["t"] = [int(t) for t in h.split()]
                            if not s["tids"]:
                                raise Malformed("unexpected tids")
                    if s["tids"] and len("\n".join(lines).removesuffix("\n").split("\n")) != 2 * len(ev["rows"]) and ev["rows"]:
                        raise Malformed("a line of tids under each itemset")
                else:
                    r = m.transform(cur["D"], **kw)
                    if list(r.columns) != ["itemset", "tids" if s["tids"] else "usage"]:
                        raise Malformed("columns")
                    for _, row in r.iterrows():
                        ev["rows"].append(dict(x=[num[i] for i in row["itemset"]], u=0 if s["tids"] else int(row["usage"]),
                                               t=[int(t) for t in row["tids"]] if s["tids"] else []))
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
    return events


# ------------------------------------------------------------------ generation
def rand_form(rng):
    return rng.choice(["list", "list", "list", "series", "seriesidx", "strings", "sets", "array", "df", "dfbool", "dfidx"])


def fix_db(form, db, rng, m):
    if form == "strings":
        return [t if t else [rng.randrange(m)] for t in db]
    return db


def rand_case(rng, big=False, shape=None):
    m = dict(tall=rng.randint(2, 4), wide=rng.randint(15, 40), mesh=rng.randint(4, 8), core=rng.randint(11, 18)).get(shape) or rng.randint(1, 7 if not big else 9)
    form = rand_form(rng)
    if form == "strings" and m > 26:
        form = "list"
    case = dict(nitems=m, label=rng.choice(list(LABELS)), form=form, pruning=rng.random() < 0.5)
    if form == "df" and case["label"] == "float":
        case["label"] = "int"
    if rng.random() < 0.15:
        case["items"] = sorted(rng.sample(range(m), rng.randint(1, m)))
    if rng.random() < 0.1:
        case["max_time"] = rng.choice([0, 30])
    if case["pruning"] and rng.random() < 0.5:
        case["defaultpruning"] = True

    def newdb():
        if shape == "tall":
            return tall_db(rng, m)
        if shape == "wide":
            return wide_db(rng, m, rng.randint(2, 7))
        if shape == "mesh":
            return mesh_db(rng, m, rng.randint(8, 40))
        if shape == "core":
            return core_db(rng, m, rng.randint(4, 12))
        n = rng.randint(1, 9 if not big else 22)
        return fix_db(form, rand_db(rng, n, m, dup=rng.random() < 0.2, empty=rng.choice([0, 0, 0.6]), planted=rng.random() < 0.7), rng, m)

    return case, newdb


COUNTS = (64, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 500, 512)


def counted(rng, k):
    """an itemset used exactly k times, and a few other transactions"""
    m = rng.randint(2, 4)
    pair = rng.choice([[0, 1], [0, 1], [0]] + ([[0, 1, 2]] if m > 3 else []))
    rest = [t for t in ([1], [2], [1, 2], [1, 3], [3], [0]) if max(t) < m and not set(pair) <= set(t)]
    db = [list(pair)] * k + [list(rng.choice(rest)) for _ in range(rng.randint(0, 8))]
    if rng.random() < 0.5:
        rng.shuffle(db)
    return dict(nitems=m, label=rng.choice(list(LABELS)), form=rng.choice(["list", "series", "df"]), pruning=rng.random() < 0.5,
                steps=[dict(op="fit", db=db)] + ([dict(op="evaluate", x=pair)] if rng.random() < 0.5 else []))


def rand_candidate(rng, db, m, size=None):
    if size and any(len(set(t)) >= size for t in db):  # of a given length, occurring
        return sorted(rng.sample(sorted(set(rng.choice([t for t in db if len(set(t)) >= size]))), size))
    present = sorted({i for t in db for i in t})
    if m > 10 and rng.random() < 0.5:  # a whole transaction
        return sorted(set(rng.choice([t for t in db if t])))
    k = rng.random()
    if k < 0.5:  # something that occurs
        t = rng.choice([t for t in db if t])
        t = sorted(set(t))
        return sorted(rng.sample(t, rng.randint(1, len(t))))
    return sorted(rng.sample(present, rng.randint(1, len(present))))


def rand_report(rng):
    return dict(op="report", singletons=rng.random() < 0.6, tids=rng.random() < 0.5, lex=rng.random() < 0.6,
                dropnull=rng.random() < 0.5, file=rng.random() < 0.3)


def trailing_empty(rng, db, form):
    if form == "strings":
        return db
    if rng.random() < 0.5:
        return db + [[]] * rng.randint(1, 2)
    return [[]] + db


def history(rng, big=False, w=("update", "evaluate", "report"), refit=0.3, empties=0.1, shape=None):
    case, newdb = rand_case(rng, big, shape)
    db = newdb()
    if rng.random() < empties:
        db = trailing_empty(rng, db, case["form"])
    steps = [dict(op=rng.choice(["fit", "fit", "prefit"]), db=db)]
    last = None
    fitted = steps[0]["op"] == "fit"
    size = rng.choice([2, 2, 3]) if shape == "mesh" else None
    for _ in range(rng.randint(3, 8) if size else rng.randint(0, 5)):
        k = rng.random()
        if k < (refit if not size else refit / 4):
            db = newdb()
            steps.append(dict(op=rng.choice(["fit", "fit", "prefit"]), db=db))
            fitted = fitted or steps[-1]["op"] == "fit"
        else:
            op = rng.choice(w)
            if op == "report":
                if fitted:
                    steps.append(rand_report(rng))
            else:
                x = last if last and rng.random() < 0.3 and set(last) <= {i for t in db for i in t} else rand_candidate(rng, db, case["nitems"], size if rng.random() < 0.8 else None)
                last = x
                steps.append(dict(op=op, x=x))
    case["steps"] = steps
    return case


def replayed(emitted, rng, limit):
    em = emitted if len(emitted) <= limit else rng.sample(emitted, limit)
    for e in em:
        db = [[i - 1 for i in t] for t in e["db"]]
        form = rng.choice(["list", "df"])
        yield dict(nitems=3, label="str", form=form, pruning=rng.random() < 0.5,
                   steps=[dict(op="prefit", db=db)] + [dict(op="update", x=[i - 1 for i in h["x"]]) for h in e["hist"]])


def cfg(n, t, steps, inter, emit):
    b = lambda x: "TRUE" if x else "FALSE"
    return (f"SPECIFICATION Spec\nCONSTANTS NItems = {n}\nNTrans = {t}\nMaxSteps = {steps}\nInteractive = {b(inter)}\n"
            f"EmitCases = {b(emit)}\nINVARIANTS Lossless Valid KeepSingletons SizesSane NeverWorse Emit\n"
            + ("" if inter else "PROPERTY Decreasing\n") + "CHECK_DEADLOCK FALSE\n")


ALWAYS = {"NoError", "Unexpected", "OutsideSpec", "Table", "InRange"}


def nontrivial(case, events):
    return any(len(r["x"]) > 1 for e in events for r in e.get("ct", []))
