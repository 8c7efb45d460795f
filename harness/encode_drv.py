"""Drivers for encoding unseen data: SLIM.cover / get_code_length, SlimClassifier, SLIMVectorizer."""
import warnings

from slim_drv import LABELS, Malformed, TAB, labels_for, make, preload, rand_db, tall_db, wide_db, mesh_db, core_db, sc, table, rand_candidate, fix_db  # noqa

warnings.filterwarnings("ignore")


def lens_of(s):
    import math
    return [-1 if math.isinf(float(x)) and float(x) > 0 else sc(x) for x in s]


def run_case(case):
    return dict(slim=run_slim, clf=run_clf, vec=run_vec)[case["kind"]](case)


def run_slim(case):
    from skmine.itemsets import SLIM
    labels = labels_for(case)
    num = {x: i + 1 for i, x in enumerate(labels)}
    kw = dict(pruning=case["pruning"])
    if case.get("items") is not None:
        kw["items"] = set(labels[i] for i in case["items"])
    m = SLIM(**kw)
    events = []
    db = None

    def model(ev):
        ev["ct"] = table(m.codetable_, num)
        return ev

    for s in case["steps"]:
        if s["op"] == "fit":
            db = s["db"]
            ev = dict(ev="Model", db=[[i + 1 for i in t] for t in db], exc="", ct=[])
            try:
                # the training alphabet is the first case["known"] items in tabular form
                lab = labels[:case["known"]]
                m.fit(make(case["form"], db, lab))
                model(ev)
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
            if ev["exc"]:
                break
        elif s["op"] == "update":
            ev = dict(ev="Model", db=[[i + 1 for i in t] for t in db], exc="", ct=[])
            try:
                m.update(candidate=frozenset(labels[i] for i in s["x"]))
                model(ev)
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
        else:
            rows = s["rows"]
            ev = dict(ev="Encode", rows=[[i + 1 for i in t] for t in rows], cols=[], mat=[], lens=[], exc="", ct=[])
            try:
                form = s["form"]
                mk = (lambda: make(form, rows, labels if s.get("unknowncols", True) else labels[:case["known"]]))
                new = mk()
                if s.get("lenfirst"):
                    L = m.get_code_length(new)
                    C = m.cover(mk())
                else:
                    C = m.cover(new)
                    L = m.get_code_length(mk())
                ev["cols"] = [[num[i] for i in col] for col in C.columns]
                vals = C.values.tolist()
                if any(v not in (True, False) for r in vals for v in r):
                    raise Malformed("cells")
                ev["mat"] = [[k + 1 for k, v in enumerate(r) if v] for r in vals]
                if not len(ev["cols"]):
                    ev["mat"] = [[] for _ in range(len(C))]
                ev["lens"] = lens_of(L)
                model(ev)
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
    return events


def run_clf(case):
    import numpy as np
    import pandas as pd
    from skmine.itemsets import SLIM
    from skmine.itemsets.slim_classifier import SlimClassifier
    labels = LABELS[case["label"]](case["nitems"])
    num = {x: i + 1 for i, x in enumerate(labels)}
    classes = case["classes"]  # label values; index = class number
    cnum = {x: i + 1 for i, x in enumerate(classes)}
    kw = {}
    if case.get("items") is not None:
        kw["items"] = set(labels[i] for i in case["items"])
    if case["pruning"] is not None:
        kw["pruning"] = case["pruning"]
    clf = SlimClassifier(**kw)
    events = []
    first = True
    for s in case["steps"]:
        if s["op"] == "train":
            X = [[labels[i] for i in t] for t in s["X"]]
            y = [classes[k] for k in s["y"]]
            yy = dict(array=np.array(y), list=y, series=pd.Series(y, index=range(50, 50 + len(y))))[s["ykind"]]
            XX = pd.Series(X) if s.get("series") else X
            ev = dict(ev="Train", X=[[i + 1 for i in t] for t in s["X"]], y=[k + 1 for k in s["y"]], exc="", classes=[], models=[],
                      items=[i + 1 for i in (case.get("items") or [])], sameasbefore=bool(s.get("same")) and not first)
            first = False
            try:
                if s.get("fresh"):
                    clf = SlimClassifier(**kw)
                clf.fit(XX, yy)
                ev["classes"] = [cnum[c.item() if hasattr(c, "item") else c] for c in clf.classes_]
                for k, md in zip(clf.classes_, clf.models_):
                    data = [t for t, c in zip(X, y) if c == k]
                    d = SLIM(items=kw.get("items"), pruning=case["pruning"] or False).fit(data)
                    ev["models"].append(dict(ct=table(md.codetable_, num), direct=table(d.codetable_, num),
                                             recon=[[num[i] for i in t] for t in md.reconstruct()]))
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
            if ev["exc"]:
                break
        else:
            ev = dict(ev="Predict", rows=[[i + 1 for i in t] for t in s["rows"]], pred=[], exc="")
            try:
                R = [[labels[i] for i in t] for t in s["rows"]]
                p = clf.predict(pd.Series(R) if s.get("series") else R)
                ev["pred"] = [cnum.get(c.item() if hasattr(c, "item") else c, 0) for c in p]
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
    return events


def run_vec(case):
    from skmine.feature_extraction import SLIMVectorizer
    labels = LABELS[case["label"]](case["nitems"])
    num = {x: i + 1 for i, x in enumerate(labels)}
    stop = case.get("stop") or []
    kw = dict(strategy=case["strategy"], k=case["k"], pruning=case["pruning"])
    if case.get("stop") is not None:
        kw["stop_items"] = {"set": set, "list": list, "tuple": tuple}[case.get("stopkind", "set")](labels[i] for i in stop)
    if case.get("usedefaults"):
        kw.pop("k")
        kw.pop("pruning")
    v = SLIMVectorizer(**kw)
    events = []
    for s in case["steps"]:
        rows = [[labels[i] for i in t] for t in s["rows"]]
        if s["op"] == "fit":
            ev = dict(ev="Model", db=[[i + 1 for i in t if i not in stop] for t in s["rows"]], exc="", ct=[])
            try:
                v.fit(rows)
                ev["ct"] = table(v.codetable_, num)
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
            if ev["exc"]:
                break
        else:
            ev = dict(ev="Vectorize", rows=[[i + 1 for i in t] for t in s["rows"]], stop=[i + 1 for i in stop], k=case["k"],
                      strategy=case["strategy"], cols=[], mat=[], exc="", ct=[])
            try:
                r = v.transform(rows)
                ev["cols"] = [[num[i] for i in c] for c in r.columns]
                ev["mat"] = [[int(round(float(x) * 1e6)) for x in row] for row in r.values.tolist()]
                if len(r) != len(ev["mat"]):
                    raise Malformed("rows")
                ev["ct"] = table(v.codetable_, num)
            except Exception as ex:
                ev["exc"] = type(ex).__name__ + ": " + str(ex)[:60]
            events.append(ev)
    return events


# ------------------------------------------------------------------ generation
def slim_case(rng, big=False, shape=None):
    known = dict(tall=rng.randint(2, 4), wide=rng.randint(15, 45), mesh=rng.randint(4, 8), core=rng.randint(11, 18)).get(shape) or rng.randint(1, 7)
    extra = rng.choice([0, 1, 2, 2, 12]) if shape is None else rng.randint(0, 2)
    form = rng.choice(["list", "list", "series", "sets", "df", "dfbool", "dfidx"])
    n = known + extra
    case = dict(kind="slim", nitems=n, known=known, label=rng.choice(["int", "gap", "str", "numstr", "words"]), form=form,
                pruning=rng.random() < 0.5)
    if rng.random() < 0.3:
        case["items"] = sorted(rng.sample(range(known), rng.randint(1, known))) if rng.random() < 0.5 else sorted(rng.sample(range(n), rng.randint(1, n)))

    def newdb():
        if shape == "tall":
            return tall_db(rng, known)
        if shape == "wide":
            return wide_db(rng, known, rng.randint(2, 8))
        if shape == "mesh":
            return mesh_db(rng, known, rng.randint(8, 40))
        if shape == "core":
            return core_db(rng, known, rng.randint(4, 12))
        return rand_db(rng, rng.randint(1, 8 if not big else 20), known, empty=rng.choice([0, 0, 0.6]), planted=rng.random() < 0.8)

    def rows():
        k = rng.randint(1, 6)
        out = core_db(rng, known, 3) if shape == "core" else []
        for _ in range(k):
            p = rng.choice([0.3, 0.6, 0.9])
            t = [i for i in range(n) if rng.random() < p]
            if rng.random() < 0.1:
                t = [i for i in range(known, n)]
            out.append(t)
        if rng.random() < 0.2 and len(out) > 1:
            out[-1] = list(out[0])
        return out

    def enc(R):
        tab = form in ("df", "dfbool", "dfidx")
        f = rng.choice(["df", "dfbool", "dfidx"] if tab else ["list", "series", "sets", "seriesidx"])
        if rng.random() < 0.15:
            f = rng.choice(["df", "list"])
        return dict(op="encode", rows=R, form=f, lenfirst=rng.random() < 0.5)

    db = newdb()
    steps = [dict(op="fit", db=db)]
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < 0.2:
            db = newdb()
            steps.append(dict(op="fit", db=db))
        elif k < 0.4:
            steps.append(dict(op="update", x=rand_candidate(rng, db, known)))
        if shape == "mesh":
            size = rng.choice([2, 2, 3])
            steps += [dict(op="update", x=rand_candidate(rng, db, known, size)) for _ in range(rng.randint(1, 4))]
        R = rows() if rng.random() < 0.8 or shape == "tall" and rng.random() < 0.7 else [list(t) for t in db]
        steps.append(enc(R))
        if rng.random() < 0.7:  # the same transactions alone, permuted, or in the other form
            R2 = [list(t) for t in R]
            rng.shuffle(R2)
            steps.append(enc(R2[:rng.randint(1, len(R2))]))
    case["steps"] = steps
    return case


CLASSES = [[0, 1], [0, 1, 2], ["neg", "pos"], [3, 7, 11, 20], ["a", "b", "c"], [False, True], [5],
           ["customer_north", "customer_south", "customer_southwest"], [100000001, 100000002], ["A", "a", "aa"], [-2, -1, 0, 1, 2, 10]]


def clf_case(rng, big=False, shape=None):
    m = dict(tall=rng.randint(2, 4), wide=rng.randint(15, 45), long=rng.randint(85, 110), mesh=rng.randint(4, 8)).get(shape) or rng.randint(2, 8)
    classes = rng.choice(CLASSES)
    spare = rng.choice([1, 1, 1, 4, 20, 40]) if m < 60 else 1  # items that never occur in the training data
    case = dict(kind="clf", nitems=m + spare, label=rng.choice(["int", "gap", "str", "numstr"] + ["words"] * (m + spare < 99)), classes=classes,
                pruning=rng.choice([None, True, False]))
    if rng.random() < 0.6:
        case["items"] = sorted(rng.sample(range(m + spare), rng.randint(1, m + spare)))

    def train():
        X, y = [], []
        for k in range(len(classes)):
            if shape == "long":  # mostly single items: nothing to compress, so codes are long
                X += [[i] for i in range(m) for _ in range(rng.choice([1, 1, 1, 2, 4])) if rng.random() < 0.95]
                X += [sorted(rng.sample(range(m), 2)) for _ in range(rng.randint(0, 2))]
                y += [k] * (len(X) - len(y))
                continue
            if shape == "mesh":
                X += mesh_db(rng, m, rng.randint(4, 20))
                y += [k] * (len(X) - len(y))
                continue
            prof = [rng.choice([0.1, 0.4, 0.9]) for _ in range(m)]
            for _ in range(rng.choice([60, 127, 128, 129, 256]) if shape == "tall" else rng.randint(1, 7 if not big else 14)):
                t = [i for i in range(m) if rng.random() < prof[i]]
                if not t:
                    t = [rng.randrange(m)]
                X.append(t)
                y.append(k)
        idx = list(range(len(X)))
        rng.shuffle(idx)
        return [X[i] for i in idx], [y[i] for i in idx]

    X, y = train()
    st = [dict(op="train", X=X, y=y, ykind=rng.choice(["array", "list", "series"]), series=rng.random() < 0.3)]

    def rows():
        p = 0.45 if shape not in ("wide", "long") else rng.choice([0.45, 0.9, 1])
        return [[i for i in range(m + spare) if rng.random() < (p if i <= m else p / 4)] for _ in range(rng.randint(1, 5))] + ([rng.choice(X)] if rng.random() < 0.6 else [])

    R = rows()
    st.append(dict(op="predict", rows=R, series=rng.random() < 0.3))
    R2 = [list(t) for t in R]
    rng.shuffle(R2)
    st.append(dict(op="predict", rows=R2[:rng.randint(1, len(R2))] + rows()))
    if rng.random() < 0.5:  # same data, other interleaving of the classes
        seqs = {k: [t for t, c in zip(X, y) if c == k] for k in set(y)}
        y2 = list(y)
        rng.shuffle(y2)
        its = {k: iter(v) for k, v in seqs.items()}
        st.append(dict(op="train", X=[next(its[k]) for k in y2], y=y2, ykind="array", same=True, fresh=rng.random() < 0.5))
        st.append(dict(op="predict", rows=R))
    elif rng.random() < 0.5:
        X, y = train()
        st.append(dict(op="train", X=X, y=y, ykind="array"))
        st.append(dict(op="predict", rows=R))
    case["steps"] = st
    return case


def vec_case(rng, big=False, shape=None):
    m = dict(tall=rng.randint(2, 4), wide=rng.randint(12, 30), mesh=rng.randint(4, 8)).get(shape) or rng.randint(2, 7)
    n = m + rng.randint(0, 2)
    case = dict(kind="vec", nitems=n, label=rng.choice(["int", "str", "words", "gap"]), k=rng.choice([1, 2, 3, 5, 5, 8, 20]),
                strategy=rng.choice(["codes", "one-hot"]), pruning=rng.random() < 0.4)
    if rng.random() < 0.15:
        case.update(k=5, pruning=False, usedefaults=True)
    if rng.random() < 0.4:
        case["stop"] = sorted(rng.sample(range(n), rng.randint(0, n - 1)))
        case["stopkind"] = rng.choice(["set", "list", "tuple"])
        if all(i in case["stop"] for i in range(m)):
            case["stop"] = [case["stop"][0]]

    def db():
        d = (tall_db(rng, m) if shape == "tall" else mesh_db(rng, m, rng.randint(8, 40)) if shape == "mesh" else wide_db(rng, m, rng.randint(2, 8)) if shape == "wide"
             else rand_db(rng, rng.randint(1, 8 if not big else 16), m, planted=rng.random() < 0.8))
        keep = [i for i in range(m) if i not in case.get("stop", [])]
        if not any(i in keep for t in d for i in t):
            d[0] = list(set(d[0]) | {keep[0]})
        return d

    D = db()
    st = [dict(op="fit", rows=D), dict(op="vec", rows=D)]
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.2:
            D = db()
            st.append(dict(op="fit", rows=D))
        st.append(dict(op="vec", rows=[[i for i in range(n) if rng.random() < 0.5] for _ in range(rng.randint(1, 6))]))
    case["steps"] = st
    return case


DESIGN = {"quick": [("SlimEncode", "SPECIFICATION Spec\nCONSTANTS NItems = 3\nNRows = 2\nUnknown = {4}\n"
                     "INVARIANTS PerRow Partition Known Greedy\nCHECK_DEADLOCK FALSE\n")],
          "thorough": [("SlimEncode", "SPECIFICATION Spec\nCONSTANTS NItems = 3\nNRows = 3\nUnknown = {4}\n"
                        "INVARIANTS PerRow Partition Known Greedy\nCHECK_DEADLOCK FALSE\n")]}


def nontrivial(case, events):
    return any(len(r["x"]) > 1 for e in events for r in e.get("ct", []) + [x for md in e.get("models", []) for x in md["ct"]])
