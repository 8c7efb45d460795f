"""Dataset generators, readers, summaries and the cache of downloaded files."""
import gzip
import os
import shutil
import tempfile

TRACE = "DatasetTrace"
RULE = ("all well-formed files of up to 5 symbols, all fetching histories of two files in two folders and all sharings of up to 7 samples of "
        "Datasets.tla, plus seeded larger files, logs, generator settings and summaries; non-trivial: at least two rows, events or fetches")
CFG = ("SPECIFICATION Spec\nCONSTANTS Symbols = {\"a\",\"b\",\"_\",\"/\",\".\"}\nMaxLen = %d\nFiles = {1,2}\nHomes = {1,2}\nMaxFetch = %d\n"
       "MaxSamples = %d\nMaxWeight = 3\nMaxClasses = 3\nEmitCases = TRUE\nINVARIANTS ReadsFile OneDownload SameAnswer Shared Emit\n"
       "PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Datasets", CFG % (5, 4, 7))], "thorough": [("Datasets", CFG % (6, 5, 12))]}
TIMEOUT = 120
ASSUMPTIONS = ["files have no empty lines, items or events, and no quotes; dates of a log share one format",
               "the mean size of generated transactions is compared within 6 standard deviations",
               "downloads are replaced by a stand-in that records them; no network is used"]
ITEMS = ["a", "b", "milk", "é", "x1", "日", "7", "NA", "-", "a-b", "c/d", "None"]
EVENTS = ["a", "b", "coffee", "go home", "NA", "null", "nan", "None", "1", "007", "1.5", "true", "é", "N/A", "x;y", "-", "2020-01-01", "a/b", "#c", "<NA>"]


def preload():
    import numpy, pandas  # noqa
    import skmine.datasets, skmine.datasets.fimi, skmine.datasets.periodic, skmine.datasets.utils  # noqa


def exc(ex):
    return type(ex).__name__ + ": " + str(ex)[:150]


def ints(rows):
    return [[int(x) for x in r] for r in rows]


def gen(c, ev):
    import numpy as np
    from skmine.datasets import make_transactions
    e = dict(ev="Gen", n=c["n"], N=c["N"], dp=c["d"][0], dq=c["d"][1], lo=c["lo"], exc="", rows=[], again=[], varied=True, index=[])
    kw = dict(n_transactions=c["n"], n_items=c["N"], density=c["d"][0] / c["d"][1])
    if c["lo"]:
        kw["item_start"] = c["lo"]
    seed = lambda: np.random.RandomState(c["seed"]) if c["rs"] else c["seed"]
    try:
        D = make_transactions(random_state=seed(), **kw)
        e["rows"] = ints(D)
        e["index"] = [int(i) for i in D.index]
        np.random.seed(c["seed"] % 7)
        e["again"] = ints(make_transactions(random_state=seed(), **kw))
        big = c["n"] >= 20 and c["N"] >= 8 and 0.2 < c["d"][0] / c["d"][1] < 0.8
        if big:
            e["varied"] = ints(make_transactions(random_state=c["seed"] + 1, **kw)) != e["rows"] and len({tuple(sorted(r)) for r in e["rows"]}) > 1
    except Exception as ex:
        e["exc"] = exc(ex)
    ev.append(e)


def classif(c, ev):
    import numpy as np
    from skmine.datasets import make_classification
    w, q, k = c["w"], sum(c["w"]), len(c["w"])
    e = dict(ev="Class", n=c["n"], N=c["N"], w=w, pad=c["N"] * c["sep"][0] // c["sep"][1], shuffle=c["shuffle"], exc="", rows=[], y=[],
             again=[], yagain=[], aligned=False, shuffled=True, dens=(c.get("dens") or [5] * k)[:k])
    kw = dict(n_samples=c["n"], n_items_per_class=c["N"], n_classes=k, class_sep=c["sep"][0] / c["sep"][1], shuffle=c["shuffle"])
    if len(set(w)) > 1 or c["given"]:
        kw["weights"] = [x / q for x in w]
    if c.get("dens"):
        kw["densities"] = [x / 10 for x in c["dens"][:k]]
    seed = lambda: np.random.RandomState(c["seed"]) if c["rs"] else c["seed"]
    try:
        D, y = make_classification(random_state=seed(), **kw)
        e["rows"], e["y"] = ints(D), [int(v) for v in y]
        e["aligned"] = list(D.index) == list(y.index)
        np.random.seed(c["seed"] % 5)
        D, y = make_classification(random_state=seed(), **kw)
        e["again"], e["yagain"] = ints(D), [int(v) for v in y]
        if c["shuffle"] and c["n"] >= 30 and min(w) * c["n"] >= 5 * q and k > 1:
            e["shuffled"] = e["y"] != sorted(e["y"])
    except Exception as ex:
        e["exc"] = exc(ex)
    ev.append(e)


def bad(c, ev):
    from skmine.datasets import make_classification, make_transactions
    e = dict(ev="Bad", want=c["want"], exc="")
    try:
        (make_transactions if c["f"] == "t" else make_classification)(**c["kw"])
    except Exception as ex:
        e["exc"] = type(ex).__name__
    ev.append(e)


def write(path, text, crlf, enc="utf-8"):
    with open(path, "wb") as f:
        f.write((text.replace("\n", "\r\n") if crlf else text).encode(enc))


def read(c, ev):
    from skmine.datasets.fimi import fetch_file
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, c["name"])
    write(path, c["text"], c.get("crlf", False))
    e = dict(ev="Read", text=list(c["text"]), sep=c["sep"], exc="", rows=[], types=False, name="", wantname=os.path.splitext(c["name"])[0], index=[])
    kw = {} if c["sep"] == " " and not c["explicit"] else dict(separator=c["sep"])
    if c["int"] or c["explicit"]:
        kw["int_values"] = c["int"]
    try:
        s = fetch_file(path, **kw)
        rows = [list(r) for r in s]
        e["types"] = all(isinstance(x, int if c["int"] else str) for r in rows for x in r) and all(isinstance(r, list) for r in s)
        e["rows"] = [[list(str(x)) for x in r] for r in rows]
        e["name"] = str(s.name)
        e["index"] = [int(i) for i in s.index]
    except Exception as ex:
        e["exc"] = exc(ex)
    shutil.rmtree(d)
    ev.append(e)


def stamp(t, fmt):
    from datetime import datetime, timedelta
    return (datetime(2020, 1, 1) + timedelta(seconds=t)).strftime(fmt)


def log(c, ev):
    import pandas as pd
    from skmine.datasets.periodic import fetch_file
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, "log.csv")
    sep, kind = c["sep"], c["kind2"]
    gap = " " if c.get("gap") else ""
    if kind == "one":
        lines = [x for _, x in c["pairs"]]
    elif kind == "int":
        lines = [f"{t}{sep}{gap}{x}" for t, x in c["pairs"]]
    else:
        lines = [f"{stamp(t, c['fmt'])}{sep}{gap}{x}" for t, x in c["pairs"]]
    write(path, "\n".join(lines) + ("\n" if c.get("end", True) else ""), c.get("crlf", False))
    far = lambda t: t if abs(t) < 2 ** 31 else "t%d" % t
    e = dict(ev="Log", exc="", wrote=[[i if kind == "one" else far(t), x] for i, (t, x) in enumerate(c["pairs"])], got=[], isdate=False,
             wantdate=kind == "date", strings=False, iname="")
    kw = {} if sep == "," else dict(separator=sep)
    if c.get("givefmt"):
        kw["format"] = c["fmt"]
    try:
        s = fetch_file(path, **kw)
        e["isdate"] = isinstance(s.index, pd.DatetimeIndex)
        e["iname"] = str(s.index.name)
        e["strings"] = all(isinstance(x, str) for x in s)
        base = pd.Timestamp("2020-01-01")
        tt = [(t - base).total_seconds() for t in s.index] if e["isdate"] else list(s.index)
        e["got"] = [[far(int(t)) if int(t) == t else str(t), x if isinstance(x, str) else "?"] for t, x in zip(tt, s)]
    except Exception as ex:
        e["exc"] = exc(ex)
    shutil.rmtree(d)
    ev.append(e)


def near(x):
    r = round(float(x))
    return r if abs(float(x) - r) < 1e-6 else -1


def describe(c, ev):
    import numpy as np
    import pandas as pd
    from skmine.datasets import utils
    if c["logs"]:
        ix = [t for t, _ in c["pairs"]]
        if c["date"]:
            ix = pd.DatetimeIndex([pd.Timestamp("2021-03-01") + pd.Timedelta(seconds=t) for t in ix])
        e = dict(ev="DescribeLog", log=c["pairs"], exc="", n_events=-1, points=-1, delta=-1)
        try:
            r = utils.describe_logs(pd.Series([x for _, x in c["pairs"]], index=ix))
            k = int(r["n_events"])
            e["n_events"], e["points"] = k, near(r["avg_nb_points_per_event"] * k)
            dlt = r["avg_delta_per_event"]
            e["delta"] = near((dlt.total_seconds() if c["date"] else dlt) * k)
            if c["date"] and abs(dlt.total_seconds() * k - round(dlt.total_seconds() * k)) < 1e-5:
                e["delta"] = round(dlt.total_seconds() * k)
        except Exception as ex:
            e["exc"] = exc(ex)
    else:
        e = dict(ev="Describe", rows=c["rows"], exc="", n_items=-1, n_transactions=-1, avg=-1, dens=-1)
        mk = {"list": list, "array": np.array, "tuple": tuple}[c["form"]]
        try:
            r = utils.describe(pd.Series([mk(x) for x in c["rows"]], index=c["index"], dtype=object))
            e["n_items"], e["n_transactions"] = int(r["n_items"]), int(r["n_transactions"])
            e["avg"] = near(r["avg_transaction_size"] * len(c["rows"]))
            e["dens"] = near(r["density"] * len(c["rows"]) * len({x for t in c["rows"] for x in t}))
        except Exception as ex:
            e["exc"] = exc(ex)
    ev.append(e)


NAMED = {1: ("fetch_chess", "chess.dat", ""), 2: ("fetch_mushroom", "mushroom.dat", "first"), 3: ("fetch_retail", "retail.dat", ""),
         4: ("fetch_iris", "iris.D19.N150.C3.num.gz", "last"), 5: ("fetch_connect", "connect.dat", ""), 6: ("fetch_kosarak", "kosarak.dat", ""),
         7: ("fetch_accidents", "accidents.dat", ""), 8: ("fetch_pumsb", "pumsb.dat", ""), 9: ("fetch_pumsb_star", "pumsb_star.dat", ""),
         10: ("fetch_breast", "breast.D20.N699.C2.num", "last"), 11: ("fetch_tictactoe", "ticTacToe.D29.N958.C2.num", "last")}


def fetch(c, ev):
    from skmine.datasets import fimi
    calls, failing = [], []
    root = tempfile.mkdtemp(dir=".")
    remote = {}

    def download(url, out=None, bar=None):
        calls.append(url)
        if failing:
            raise ConnectionError("no route to host")
        name = os.path.basename(url)
        raw = "".join(" ".join(map(str, r)) + c["tail"] + "\n" for r in remote[name]).encode()
        with open(out, "wb") as f:
            f.write(gzip.compress(raw) if "fimi" not in url else raw)
        return out
    old = getattr(fimi, "wget", None)
    was = os.environ.get("SCIKIT_MINE_DATA")

    class Stub:
        pass
    stub = Stub()
    stub.download = download
    fimi.wget = stub
    try:
        for h, f, lab, rows, env, fail in c["hist"]:
            fn, file, label = NAMED[f]
            home = os.path.join(root, "h%d" % h)
            if not env:
                os.makedirs(home, exist_ok=True)
            if c["near"]:  # other files and folders of about the same name
                os.makedirs(home, exist_ok=True)
                stem, ext = os.path.splitext(file)
                for other in (file + ".bak", stem, "x" + file, stem + "2" + ext, file.upper(), "sub/" + file):
                    p = os.path.join(home, other)
                    if not os.path.exists(p):
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, "w") as g:
                            g.write("900 901\n")
            failing[:] = [1] if fail else []
            e = dict(ev="Fetch", fails=bool(fail), home=h, file=file, remote=rows, label=label if lab else "", exc="", rows=[], y=[], downloads=0, listing=[])
            remote[file] = rows
            n = len(calls)
            try:
                kw = dict(return_y=True) if lab and label else {}
                if env:
                    os.environ["SCIKIT_MINE_DATA"] = home
                    r = getattr(fimi, fn)(**kw)
                else:
                    r = getattr(fimi, fn)(data_home=home, **kw)
                X, y = r if kw else (r, [])
                e["rows"], e["y"] = ints(X), [int(v) for v in y]
                if not kw:
                    e["label"] = ""
            except Exception as ex:
                e["exc"] = exc(ex)
            e["downloads"] = len(calls) - n
            e["listing"] = sorted(os.listdir(home)) if os.path.isdir(home) else []
            ev.append(e)
    finally:
        fimi.wget = old
        os.environ.pop("SCIKIT_MINE_DATA", None)
        if was is not None:
            os.environ["SCIKIT_MINE_DATA"] = was
        shutil.rmtree(root)


def tv(c, ev):
    """the two logs: fetched from a local stand-in for their address, then from the folder"""
    import pandas as pd
    from skmine.datasets import periodic as P
    root = os.path.abspath(tempfile.mkdtemp(dir="."))
    src, home = os.path.join(root, "src"), os.path.join(root, "home")
    os.mkdir(home)
    var = "health_app_url" if c["app"] else "canadianTV_url"
    if not hasattr(P, var):
        return
    old = getattr(P, var)
    try:
        if c["app"]:
            lines = ["%s:%03d|%s|3000|what happened" % (stamp(t, "%Y%m%d-%H:%M:%S"), 0, x) for t, x in c["pairs"]]
        else:
            lines = ["%s,%s" % (stamp(t, "%Y-%m-%d %H:%M:%S"), x) for t, x in c["pairs"]]
        write(src, "\n".join(lines) + "\n", False)
        setattr(P, var, src)
        for k in range(2):
            e = dict(ev="Log", exc="", wrote=c["pairs"], got=[], isdate=False, wantdate=True, strings=False, iname="")
            try:
                s = (P.fetch_health_app if c["app"] else P.fetch_canadian_tv)(data_home=home)
                e["isdate"] = isinstance(s.index, pd.DatetimeIndex)
                e["iname"] = str(s.index.name)
                e["strings"] = all(isinstance(x, str) for x in s)
                e["got"] = [[int((t - pd.Timestamp("2020-01-01")).total_seconds()), str(x)] for t, x in zip(s.index, s)]
                if k == 0:
                    os.remove(src)
            except Exception as ex:
                e["exc"] = exc(ex)
            ev.append(e)
    finally:
        setattr(P, var, old)
        shutil.rmtree(root)


def ubiq(c, ev):
    """application logs of a user: parsed from the raw lines into a file, which is then read"""
    import contextlib
    import io
    import pandas as pd
    from skmine.datasets.periodic import read_ubiq_user
    try:
        from skmine.datasets.periodic import parse_all_user
    except ImportError:
        return
    root = os.path.abspath(tempfile.mkdtemp(dir="."))
    raw, out = os.path.join(root, "raw.txt"), os.path.join(root, "out")
    os.mkdir(out)
    want, cnt = [], {}
    with open(raw, "w") as f:
        for t, dur, p in c["runs"]:
            f.write('UbiqLog4UCI/7_F/log_1-1-2020.txt:{"Application":{"ProcessName":"%s","Start":"%s","End":"%s"}}\n'
                    % (p, stamp(t, "%m-%d-%Y %H:%M:%S"), stamp(t + dur, "%m-%d-%Y %H:%M:%S")))
            want += [(t, p + "_I")] if dur < 60 else [(t, p + "_S"), (t + dur, p + "_E")]
    for _, x in want:
        cnt[x] = cnt.get(x, 0) + 1
    want = sorted(set(x for x in want if cnt[x[1]] > 1))
    e = dict(ev="Log", exc="", wrote=[list(x) for x in want], got=[], isdate=False, wantdate=True, strings=False, iname="timestamp")
    short = sorted(set((t, x[:-2]) for t, x in want if x[-1] in "IS"))
    f = dict(e, wrote=[[i + 1, x] for i, (t, x) in enumerate(short)], wantdate=False)
    if len(want) < 3:
        shutil.rmtree(root)
        return
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            parse_all_user(raw, out, min_occ=1)
        s, user, start = read_ubiq_user(os.path.join(out, "7_F_ISE_data.dat"))
        e["isdate"] = isinstance(s.index, pd.DatetimeIndex)
        e["strings"] = all(isinstance(x, str) for x in s) and user == "7_F"
        e["got"] = [[int((t - pd.Timestamp("2020-01-01")).total_seconds()), str(x)] for t, x in zip(s.index, s)]
        # the file of successions: times dropped, the same start written once
        s, user, start = read_ubiq_user(os.path.join(out, "7_F_IS_data.dat"))
        f["strings"] = all(isinstance(x, str) for x in s) and user == "7_F"
        f["isdate"] = isinstance(s.index, pd.DatetimeIndex)
        f["got"] = [[int(t), str(x)] for t, x in zip(s.index, s)]
    except Exception as ex:
        e["exc"] = exc(ex)
    shutil.rmtree(root)
    ev.append(e)
    if not e["exc"] and short:
        ev.append(f)


def home(c, ev):
    from skmine.datasets import get_data_home
    root = os.path.abspath(tempfile.mkdtemp(dir="."))
    was, olduser = os.environ.get("SCIKIT_MINE_DATA"), os.environ.get("HOME")
    try:
        for kind in c["kinds"]:
            e = dict(ev="Home", exc="", path="", want="", exists=False)
            os.environ["HOME"] = root
            os.environ.pop("SCIKIT_MINE_DATA", None)
            want = os.path.join(root, *c["sub"], kind)
            try:
                if kind == "env":
                    os.environ["SCIKIT_MINE_DATA"] = want
                    p = get_data_home()
                elif kind == "arg":
                    os.environ["SCIKIT_MINE_DATA"] = os.path.join(root, "other")
                    p = get_data_home(want)
                else:
                    p = get_data_home(os.path.join("~", *c["sub"], kind))
                e["path"], e["exists"] = p.replace(root, "R"), os.path.isdir(p)
            except Exception as ex:
                e["exc"] = exc(ex)
            e["want"] = want.replace(root, "R")
            ev.append(e)
    finally:
        os.environ.pop("SCIKIT_MINE_DATA", None)
        if was is not None:
            os.environ["SCIKIT_MINE_DATA"] = was
        if olduser is not None:
            os.environ["HOME"] = olduser
        shutil.rmtree(root)


DO = dict(gen=gen, classif=classif, bad=bad, read=read, log=log, describe=describe, fetch=fetch, tv=tv, ubiq=ubiq, home=home)


def run_case(case):
    ev = []
    DO[case["kind"]](case, ev)
    return ev


# ---------------------------------------------------------------- cases
def rows(r, n=None, hi=9):
    return [r.sample(range(1, hi + 1), r.randint(1, 5)) for _ in range(n or r.randint(1, 6))]


def pairs(r, n=None, big=False, sorted_=None, events=EVENTS):
    out = [[r.choice([r.randint(0, 90), r.randint(-20, 300), r.randint(1700, 2200), 20200101 + r.randint(0, 20), r.randint(0, 10 ** 9)] if big
                     else [r.randint(0, 3000)]), r.choice(events)] for _ in range(n or r.randint(1, 8))]
    if sorted_ or r.random() < 0.5:
        out.sort()
    return out


def file_case(r, symbols=None):
    """real text from the symbols of the specification, or seeded"""
    isint = r.random() < 0.4
    sep = r.choice([" ", " ", ",", "\t", ";"])
    if symbols is not None:
        m = {"a": r.choice(ITEMS) if not isint else str(r.randint(1, 40)), "b": r.choice(ITEMS) if not isint else str(r.randint(41, 99)),
             "_": sep, "/": "\n", ".": " " if sep != " " else "\t"}
        if isint and sep in ("\t",):
            m["."] = ""
        if isint and "." in symbols:
            isint = False
            m["a"], m["b"] = r.choice(ITEMS), r.choice(ITEMS)
        text = "".join(m[s] for s in symbols)
        if text.startswith(" ") or "\t" in text and sep == "\t" and "\t\n" in text:
            pass
    else:
        lines = []
        long = r.random() < 0.05
        for _ in range(r.randint(1, 7) if not long else r.choice([130, 257, 400])):
            it = [str(r.randint(-3 if r.random() < 0.1 else 0, 10 ** r.randint(1, 7))) if isint else r.choice(ITEMS) for _ in range(r.randint(1, 6))]
            lines.append(sep.join(it) + (r.choice(["", " ", "  ", "\t"]) if r.random() < 0.3 else ""))
        text = "\n".join(lines) + r.choice(["\n", ""])
    return dict(kind="read", text=text, sep=sep, int=isint, crlf=r.random() < 0.2, explicit=r.random() < 0.5,
                name=r.choice(["f.dat", "data.txt", "plain", "a.b.num"]))


def log_case(r):
    kind2 = r.choice(["int", "int", "date", "date", "one"])
    sep = r.choice([",", ",", ";", "\t", "|"])
    fmt = r.choice(["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%d/%m/%Y %H:%M:%S", "%Y%m%d%H%M%S", "%Y/%m/%d %H:%M:%S"])
    give = kind2 == "date" and (fmt.startswith("%d") or fmt == "%Y%m%d%H%M%S" or r.random() < 0.3)
    give = give or kind2 == "int" and fmt != "%Y%m%d%H%M%S" and r.random() < 0.12  # a format that the integers do not have
    p = pairs(r, n=r.choice([None] * 19 + [130, 257, 400]), big=kind2 == "int", events=[e for e in EVENTS if sep not in e])
    if kind2 == "int" and r.random() < 0.1:
        b = r.choice([2 ** 31 - 2, 2 ** 53, 10 ** 10, 10 ** 18, -2 ** 40, 9 * 10 ** 18])
        p = [[b + t % 10 ** 6, x] for t, x in p]
    elif kind2 == "int" and r.random() < 0.25:
        p = [[r.randint(1700, 2200), x] for _, x in p]
    return dict(kind="log", kind2=kind2, sep=sep, fmt=fmt, givefmt=give, pairs=p, gap=r.random() < 0.2 and sep != "\t", crlf=r.random() < 0.2,
                end=r.random() < 0.8)


def cases(tier, rng, emitted):
    q = tier == "quick"
    k = 1 if q else 10
    r = rng
    em = emitted.get("Datasets", [])
    rng.shuffle(em)
    left = dict(file=1500 * k, cache=500 * k, share=700 * k)
    for e in em:
        if left[e["k"]] <= 0:
            continue
        left[e["k"]] -= 1
        if e["k"] == "file":
            yield file_case(r, e["file"])
        elif e["k"] == "cache":
            two = r.choice([[r.randint(1, 11) for _ in range(2)]] * 3 + [[8, 9], [9, 8]])
            yield dict(kind="fetch", tail=r.choice(["", " "]), near=r.random() < 0.3,
                       hist=[[h["home"], two[h["file"] - 1], r.random() < 0.5, fetch_rows(r), r.random() < 0.3, not h["ok"]]
                             for h in e["hist"]])
        else:
            yield class_case(r, e["n"], e["w"])
    for _ in range(120 * k):  # longer successions of fetches over more files
        some = r.sample(range(1, 12), r.randint(2, 5)) + r.choice([[], [8, 9]])
        yield dict(kind="fetch", tail=r.choice(["", " "]), near=r.random() < 0.3,
                   hist=[[r.randint(1, 2), r.choice(some), r.random() < 0.5, fetch_rows(r), r.random() < 0.3, r.random() < 0.15]
                         for _ in range(r.randint(4, 9))])
    for _ in range(700 * k):
        yield file_case(r)
    for _ in range(1200 * k):
        yield log_case(r)
    for _ in range(700 * k):
        N = r.randint(1, 30) if r.random() < 0.9 else r.randint(30, 120)
        n = r.choice([0, 1, 2, 5, 20, 40, 60])
        if r.random() < 0.15:
            n, N = r.choice([150, 256, 300]), min(N, 14)
        d = r.choice([[1, 2], [1, 4], [3, 4], [9, 10], [1, 10], [r.randint(1, 19), 20], [r.randint(1, 99), 100], [r.randint(50, 65), 100], [99, 100]])
        yield dict(kind="gen", n=n, N=N, d=d, lo=r.choice([0, 0, 5, 100]), seed=seed_of(r), rs=r.random() < 0.2)
    for _ in range(300 * k):
        w = [r.randint(0 if r.random() < 0.2 else 1, 5) for _ in range(r.randint(1, 5))]
        if sum(w):
            yield class_case(r, r.choice([0, 1, 7, 10, 31, 50, 64]), w)
    for f, kw, want in BADS:
        yield dict(kind="bad", f=f, kw=kw, want=want)
    for _ in range(300 * k):
        if r.random() < 0.5:
            yield dict(kind="describe", logs=True, date=r.random() < 0.5, pairs=pairs(r, events=["a", "b", "c"]))
        else:
            R = rows(r)
            yield dict(kind="describe", logs=False, rows=R, form=r.choice(["list", "array", "tuple"]),
                       index=r.choice([list(range(len(R))), ["i%d" % i for i in range(len(R))], [0] * len(R)]))
    for _ in range(60 * k):
        yield dict(kind="tv", app=r.random() < 0.5, pairs=pairs(r, n=r.randint(2, 8), events=["a", "b", "Big Block", "c d", "x"]))
    for _ in range(60 * k):
        runs = [[r.randint(0, 20000), r.choice([0, 5, 59, 60, 61, 400]), r.choice(["com.a", "org.b.c"])] for _ in range(r.randint(3, 12))]
        runs += [[t, r.choice([5, 70, d]), x] for t, d, x in runs if r.random() < 0.25]
        yield dict(kind="ubiq", runs=runs)
    for _ in range(12):
        yield dict(kind="home", kinds=[r.choice(["env", "arg", "user"]) for _ in range(3)], sub=r.choice([[], ["a"], ["a", "b c"]]))


def seed_of(r):
    return r.choice([0, 1, 2, 42, 2 ** 32 - 2]) if r.random() < 0.25 else r.randint(0, 10 ** 6)


def fetch_rows(r):
    return [r.sample(range(1, 12), r.randint(2, 5)) for _ in range(r.randint(1, 5))]


def class_case(r, n, w):
    return dict(kind="classif", n=n, w=w, N=r.randint(2, 12), sep=r.choice([[0, 1], [1, 1], [1, 2], [1, 4]]), shuffle=r.random() < 0.7,
                seed=seed_of(r), rs=r.random() < 0.15, given=r.random() < 0.5, dens=r.choice([None, None, [5, 2, 8, 3, 6]]))


BADS = [("t", dict(density=0.0), "ValueError"), ("t", dict(density=1.0), "ValueError"), ("t", dict(density=-0.2), "ValueError"),
        ("t", dict(density=1.2), "ValueError"), ("c", dict(densities=[0.5, 1.5]), "ValueError"), ("c", dict(n_classes=0), "AssertionError"),
        ("c", dict(weights=[0.5, 0.6]), "AssertionError"), ("c", dict(class_sep=1.5), "AssertionError"), ("c", dict(class_sep=-0.1), "AssertionError"),
        ("c", dict(weights=[1.0]), "AssertionError"), ("c", dict(densities=[0.5]), "AssertionError")]


def nontrivial(case, events):
    return any(len(e.get("rows", e.get("wrote", e.get("log", [])))) >= 2 for e in events)


ROUNDS = 2
