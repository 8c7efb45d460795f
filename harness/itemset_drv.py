"""Driver for the closed / maximal itemset miners: replays a case on the real code and records a trace."""
import os
import random
import re
import shutil
import tempfile
import warnings

warnings.filterwarnings("ignore")


def preload():
    import numpy, pandas  # noqa
    import skmine.itemsets.lcm  # noqa


LABELS = {
    "int": lambda n: list(range(1, n + 1)),
    "gap": lambda n: [-7 + 5 * i for i in range(n)],
    "big": lambda n: [10 ** 6 * (i + 1) for i in range(n)],
    "str": lambda n: [chr(97 + i) if i < 26 else "z%03d" % i for i in range(n)],
    "numstr": lambda n: sorted(str(i + 3) for i in range(n)),
    "words": lambda n: sorted("it%dem" % (i * 37 % 101) for i in range(n)),
    "float": lambda n: [0.5 * i for i in range(n)],
}


def container(kind, D):
    import numpy as np
    import pandas as pd
    if kind == "list":
        return [list(t) for t in D]
    if kind == "tuple":
        return [tuple(t) for t in D]
    if kind == "series":
        return pd.Series([list(t) for t in D])
    if kind == "seriesidx":
        return pd.Series([list(t) for t in D], index=[10 * i + 3 for i in range(len(D))][::-1])
    if kind == "array":
        return np.array([list(t) for t in D])
    if kind == "listset":
        return [set(t) for t in D]
    raise ValueError(kind)


def snapshot(D):
    import numpy as np
    if isinstance(D, list):
        return [sorted(t) if isinstance(t, set) else list(t) for t in D]
    if isinstance(D, np.ndarray):
        return D.tolist()
    return (list(D.index), [list(t) for t in D])


OTHERS = ("TEMP_dir/keep.txt", "TEMP_dir/root0.dat", "root0.dat", "other.dat", "sub/root1.dat")
IGNORED = ("joblib", "loky", "pymp", "__pycache__")


def others(base, make):
    for f in OTHERS if make else ():
        f = os.path.join(base, f)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as g:
            g.write("(7) mine\n1 2 3\n")


def tree(base):
    """every file and folder below the working directory (where temporary files go, too), with the contents"""
    out = {}
    for d, ds, fs in os.walk(base):
        ds[:] = [x for x in ds if not x.startswith(IGNORED)]
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), base)] = None
        for x in fs:
            if not x.startswith(IGNORED):
                with open(os.path.join(d, x), "rb") as g:
                    out[os.path.relpath(os.path.join(d, x), base)] = g.read()
    return out


def run_case(case):
    """case: nitems, label, steps: [{op:fit, kind, db(lists of 0-based item indexes), thr, container, jobs} |
    {op:transform, maxlen, lex, tids, file, prefill}]"""
    from skmine.itemsets import LCM
    from skmine.itemsets.lcm import LCMMax
    labels = LABELS[case["label"]](case["nitems"])
    num = {x: i + 1 for i, x in enumerate(labels)}
    numstr = {str(x): i + 1 for i, x in enumerate(labels)}
    events = []
    miner = D = None
    cwd = os.getcwd()
    work = os.path.realpath(tempfile.mkdtemp(dir=cwd))
    os.chdir(work)
    os.mkdir("temp")
    keep, tempfile.tempdir = tempfile.tempdir, os.path.join(work, "temp")
    try:
        for s in case["steps"]:
            if s["op"] == "fit":
                D = container(s["container"], [[labels[i] for i in t] for t in s["db"]])
                thr = s["thr"]
                if miner is None or case.get("fresh", True):
                    ms = thr["num"] if thr["kind"] == "abs" else thr["num"] / thr["den"]
                    cls = LCM if s["kind"] == "closed" else LCMMax
                    miner = cls(min_supp=ms, n_jobs=s.get("jobs", 1))
                else:
                    ms = thr["num"] if thr["kind"] == "abs" else thr["num"] / thr["den"]
                    miner.set_params(min_supp=ms)
                ev = dict(ev="Fit", kind=s["kind"], thr=thr, db=[[i + 1 for i in t] for t in s["db"]], exc="")
                try:
                    miner.fit(D)
                except Exception as ex:
                    ev["exc"] = type(ex).__name__
                events.append(ev)
            else:
                ev = dict(ev="Transform", maxlen=s["maxlen"], lex=s["lex"], tids=s["tids"], file=s["file"], rows=[],
                          hastids=False, returnednone=False, leftovers=[], otherskept=True, inputkept=True, exc="")
                snap = snapshot(D)
                others(".", s.get("others", False))
                kw = dict(return_tids=s["tids"], lexicographic_order=s["lex"], max_length=s["maxlen"])
                fn = {"sub": "sub/out.txt", "abs": os.path.join(work, "abs.dat")}.get(s.get("where"), "result.dat")
                os.makedirs("sub", exist_ok=True)
                if s["file"]:
                    kw["out"] = fn
                    if s.get("prefill"):
                        with open(fn, "w") as f:
                            f.write("(99) stale\n1 2 3\n")
                if s.get("defaults"):
                    kw = {}
                before = tree(".")
                try:
                    r = miner.transform(D, **kw)
                    ev["returnednone"] = r is None
                    if s["file"]:
                        with open(fn) as f:
                            lines = [x for x in f.read().split("\n") if x.strip()]
                        ev["hastids"] = s["tids"] if not lines else False
                        for h in lines:
                            m = re.fullmatch(r"\((\d+)\) (.*)", h)
                            if m:
                                ev["rows"].append(dict(items=[numstr[x] for x in m.group(2).split()],
                                                       supp=int(m.group(1)), tids=[]))
                                ev["hastids"] = ev["hastids"] or (s["tids"] and ev["rows"][-1]["supp"] == 0)
                            else:
                                ev["hastids"] = True
                                if ev["rows"][-1]["tids"]:
                                    raise Malformed("two transaction id lines")
                                ev["rows"][-1]["tids"] = [int(x) for x in h.split()]
                    elif r is not None:
                        ev["hastids"] = "tids" in r.columns
                        for _, x in r.iterrows():
                            row = dict(items=[num[i] for i in x["itemset"]], supp=int(x["support"]), tids=[])
                            if float(x["support"]) != int(x["support"]):
                                raise Malformed("support")
                            if ev["hastids"]:
                                row["tids"] = [int(t) for t in x["tids"]]
                            ev["rows"].append(row)
                except Exception as ex:
                    ev["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
                after = tree(".")
                mine = os.path.relpath(fn, work) if os.path.isabs(fn) else fn
                ev["leftovers"] = sorted(f for f in after if f not in before and not (s["file"] and f == mine))
                ev["otherskept"] = all(after.get(f) == before[f] for f in before if not (s["file"] and f == mine))
                ev["inputkept"] = snapshot(D) == snap
                events.append(ev)
    finally:
        tempfile.tempdir = keep
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)
    return events


class Malformed(Exception):
    pass


# ------------------------------------------------------------------ generation
def rand_db(rng, n, m, p=None, dup=False, empty=0.0, planted=False):
    p = p or rng.choice([0.2, 0.35, 0.5, 0.65, 0.8])
    db = []
    pats = [[i for i in range(m) if rng.random() < 0.5] for _ in range(rng.randint(1, 3))] if planted else []
    for _ in range(n):
        t = [i for i in range(m) if rng.random() < p]
        for q in pats:
            if rng.random() < 0.4:
                t += [i for i in q if i not in t]
        if not t and rng.random() >= empty:
            t = [rng.randrange(m)]
        rng.shuffle(t)
        if dup and t and rng.random() < 0.5:
            t = t + [rng.choice(t)]
        db.append(t)
        if rng.random() < 0.15 and len(db) < n:
            db.append(list(t))
    db = db[:n]
    if not db[-1] or all(not t for t in db):
        db[-1] = [rng.randrange(m)]
    return db


def tall_db(rng, m, sizes=(100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300)):
    """Many transactions, most of them of a few kinds; counts of the kinds sit on powers of two."""
    kinds = [[i for i in range(m) if rng.random() < 0.6] or [rng.randrange(m)] for _ in range(rng.randint(2, 4))]
    n = rng.choice(sizes)
    first = rng.choice([n, n, n // 2, 128, 127])
    db = [list(kinds[0]) for _ in range(min(first, n))]
    while len(db) < n:
        db.append(list(rng.choice(kinds[1:])))
    for _ in range(rng.randint(0, 6)):
        db.append([i for i in range(m) if rng.random() < 0.5] or [rng.randrange(m)])
    if rng.random() < 0.5:
        rng.shuffle(db)
    return db


def mesh_db(rng, m, n):
    """Blocks of two or three items that overlap, joined at random: many itemsets of one length compete for the same items."""
    size = rng.choice([2, 2, 3])
    blocks = [sorted({(i + j) % m for j in range(size)}) for i in range(m)]
    weight = [rng.choice([1, 1, 2, 4]) for _ in blocks]
    db = []
    for _ in range(n):
        t = set()
        for b in rng.choices(blocks, weight, k=rng.choice([1, 1, 2, 2, 3])):
            t |= set(b)
        if rng.random() < 0.2:
            t ^= {rng.randrange(m)}
        t = sorted(t) or [rng.randrange(m)]
        db.append(t)
    return db


def core_db(rng, m, n):
    """One or two long groups of items, present in full or with one or two of the items missing."""
    cut = rng.choice([m, m, m // 2])
    cores = [g for g in (list(range(cut)), list(range(cut, m))) if g]
    db = []
    for _ in range(n):
        t = [i for g in cores if rng.random() < 0.75 for i in g]
        k = rng.choice([0, 0, 1, 1, 2])
        t = [i for i in t if i not in set(rng.sample(t, min(k, len(t))))] or [rng.randrange(m)]
        rng.shuffle(t)
        db.append(t)
    return db


def wide_db(rng, m, n):
    """Few transactions over many items, long ones included; groups of items that go together."""
    groups, left = [], list(range(m))
    rng.shuffle(left)
    while left:
        k = rng.randint(1, max(1, min(len(left), rng.choice([2, 5, 12]))))
        groups.append(left[:k])
        left = left[k:]
    db = []
    for _ in range(n):
        p = rng.choice([0.2, 0.5, 0.9])
        t = [i for g in groups if rng.random() < p for i in g if rng.random() < 0.97]
        rng.shuffle(t)
        db.append(t or [rng.randrange(m)])
    return db


RELS = [(1, 2), (1, 4), (1, 5), (1, 10), (3, 10), (7, 10), (1, 3), (2, 3), (1, 1), (0, 1), (7, 100), (11, 20), (7, 25),
        (14, 25), (3, 5), (9, 10), (7, 20), (29, 100), (57, 100), (58, 100)]


def rand_thr(rng, n):
    if rng.random() < 0.5:
        return dict(kind="abs", num=rng.choice([1, 1, 2, 2, 3, max(1, n // 2), max(1, n // 3), n, n + 1]), den=1)
    a, b = rng.choice(RELS)
    return dict(kind="rel", num=a, den=b)


# n where p/q*n is an integer but the float product is not (boundary cases)
BOUNDARY = [((7, 100), 100), ((14, 100), 50), ((28, 100), 25), ((55, 100), 20), ((56, 100), 25), ((57, 100), 100),
            ((29, 100), 100), ((11, 20), 20), ((7, 25), 25), ((1, 10), 30), ((3, 10), 10), ((1, 5), 15)]


def boundary_case(rng, kind, pair=None):
    (a, b), n = pair or rng.choice(BOUNDARY)
    k = a * n // b
    m = 4
    db = [[0] for _ in range(n)]
    for it, s in ((1, k), (2, k - 1), (3, k + 1)):
        for t in rng.sample(range(n), max(0, min(n, s))):
            db[t].append(it)
    return dict(nitems=m, label=rng.choice(["int", "str"]), steps=[
        dict(op="fit", kind=kind, db=db, thr=dict(kind="rel", num=a, den=b), container="list"),
        dict(op="transform", maxlen=-1, lex=True, tids=True, file=False)])


def replayed(emitted, kind, label="int", limit=None, rng=None):
    """Behaviours emitted by TLC from LCM.tla (every small database and threshold)."""
    seen = set()
    out = []
    for e in emitted:
        key = (str(e["db"]), e["ms"])
        if key in seen:
            continue
        seen.add(key)
        if not any(e["db"]):
            continue
        out.append(dict(nitems=max(max(t) for t in e["db"] if t), label=label, steps=[
            dict(op="fit", kind=kind, db=[[i - 1 for i in t] for t in e["db"]], thr=dict(kind="abs", num=e["ms"], den=1),
                 container="list"),
            dict(op="transform", maxlen=-1, lex=True, tids=True, file=False)]))
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    return out


def generic_case(rng, kind, big=False, jobs=1):
    m = rng.randint(1, 9 if big else 7)
    n = rng.randint(1, 24 if big else 9)
    dup = rng.random() < 0.3
    db = rand_db(rng, n, m, dup=dup, empty=0.5 if rng.random() < 0.4 else 0.0, planted=rng.random() < 0.5)
    cont = rng.choice(["list", "list", "tuple", "series", "seriesidx", "listset"])
    if cont == "listset":
        db = [sorted(set(t)) for t in db]
    label = rng.choice(list(LABELS))
    if rng.random() < 0.1:  # rectangular array of items
        w = rng.randint(1, m)
        db = [rng.sample(range(m), w) for _ in range(n)]
        cont = "array"
    return dict(nitems=m, label=label, steps=[
        dict(op="fit", kind=kind, db=db, thr=rand_thr(rng, n), container=cont, jobs=jobs),
        dict(op="transform", maxlen=-1, lex=rng.random() < 0.7, tids=rng.random() < 0.7, file=False,
             defaults=False)])


def shaped_case(rng, kind, shape, **kw):
    """Tall (hundreds of transactions) or wide (dozens of items) data."""
    if shape == "tall":
        m = rng.randint(2, 5)
        db = tall_db(rng, m, **kw)
        n = len(db)
        thr = rng.choice([dict(kind="abs", num=rng.choice([1, 2, 100, 127, 128, 129, 255, 256, 257, n]), den=1), rand_thr(rng, n)])
    elif shape == "rich":  # hundreds of itemsets in the answer
        if kind == "max":
            m, n, k = rng.choice([(16, 190, 4), (30, 230, 3), (60, 260, 2), (14, 150, 5)])
            db = [rng.sample(range(m), rng.choice([k, k, k, k - 1])) for _ in range(n)]
            thr = dict(kind="abs", num=1, den=1)
        else:
            m, n, k = rng.choice([(24, 110, 3), (40, 130, 3), (45, 150, 2), (80, 170, 2)])
            db = [rng.sample(range(m), rng.choice([k, k, 1, 2])) for _ in range(n)]
            db += [list(t) for t in db[:10]]
            thr = dict(kind="abs", num=rng.choice([1, 1, 2]), den=1)
        n = len(db)
    else:
        m = rng.choice([rng.randint(18, 40), rng.randint(55, 95)])
        n = rng.randint(2, 6 if m < 50 else 9)
        db = wide_db(rng, m, n)
        thr = dict(kind="abs", num=rng.choice([1, 2, 2, n]), den=1)
    return dict(nitems=m, label=rng.choice(list(LABELS)), steps=[
        dict(op="fit", kind=kind, db=db, thr=thr, container=rng.choice(["list", "series", "seriesidx"])),
        dict(op="transform", maxlen=-1, lex=rng.random() < 0.7, tids=rng.random() < 0.8, file=False, defaults=False)])


def nontrivial(case, events):
    return any(e["ev"] == "Transform" and len(e["rows"]) >= 2 for e in events)


def cfg(n, t, ms, emit=True):
    return (f"SPECIFICATION Spec\nCONSTANTS NItems = {n}\nNTrans = {t}\nMinSupps = {{{', '.join(map(str, ms))}}}\n"
            f"EmitCases = {'TRUE' if emit else 'FALSE'}\nINVARIANTS Sound Once Complete Emit\nPROPERTY Terminates\n"
            "CHECK_DEADLOCK FALSE\n")
