"""Miners as objects: refits, uses and parameters over shared data, each answer compared with that of a fresh miner in a process of its own."""
import copy
import inspect
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import traceback
import warnings

TRACE = "EstimatorTrace"
RULE = ("histories of fit, update, use, copy, set_params and get_params on two miners of every kind sharing their data: all of those of the small "
        "scope of Estimators.tla (sampled), plus seeded longer ones; every answer compared with that of a miner created afresh in another "
        "process, often one with other string hashes (which also uses pickled miners); non-trivial: a use of a miner fitted at least twice, or of one of two fitted miners")
CFG = ("SPECIFICATION Spec\nCONSTANTS Miners = {1,2}\nData = {1,2}\nBad = {3}\nParams = {1,2}\nUses = {1}\nMaxOps = %d\nEmitCases = TRUE\n"
       "INVARIANTS LikeFresh CopyAlike DataKept Emit\nPROPERTIES Independent\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Estimators", CFG % 3)], "thorough": [("Estimators", CFG % 4)]}
TIMEOUT = 300
ASSUMPTIONS = ["answers after a failed fit, or after set_params and before the next fit, are not specified",
               "a model only prefitted answers what does not require it to be fitted", "random_state is an integer (the discretiser is documented as random without one); data are not changed by the user between calls"]


def preload():
    import numpy, pandas, networkx, sklearn, matplotlib  # noqa
    import skmine.callbacks, skmine.itemsets, skmine.graph, skmine.preprocessing, skmine.emerging, skmine.periodic  # noqa
    import skmine.feature_extraction, skmine.itemsets.lcm, skmine.graph.graphmdl.graph_mdl  # noqa


# ---------------------------------------------------------------- texts
def canon(x):
    import networkx as nx
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ["df", [str(t) for t in x.dtypes], canon(list(x.columns)), canon(x.index), [canon(list(x.iloc[:, i])) for i in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ["series", str(x.dtype), canon(x.index), canon(list(x)), str(x.name)]
    if isinstance(x, pd.Index):
        return ["index", str(x.dtype), canon(list(x)), str(x.names)]
    if isinstance(x, np.ndarray):
        return ["array", str(x.dtype), list(x.shape), canon(x.tolist())]
    if isinstance(x, (nx.Graph, nx.DiGraph)):
        ed = [[repr(e), sorted(map(repr, d.items()))] for *e, d in x.edges(data=True)]
        return ["graph", type(x).__name__, sorted([repr(n), sorted(map(repr, d.items()))] for n, d in x.nodes(data=True)), sorted(ed),
                sorted(map(repr, x.graph.items()))]
    if hasattr(x, "source") and hasattr(x, "render"):
        return ["drawing", x.source]
    if isinstance(x, dict):
        return ["dict", [[canon(k), canon(v)] for k, v in x.items()]]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((canon(e) for e in x), key=json.dumps)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [canon(e) for e in x]]
    if x is None or isinstance(x, (str, int, float, bool, np.generic, pd.Timestamp, pd.Timedelta)):
        return type(x).__name__ + repr(x)
    if hasattr(x, "__iter__") and hasattr(x, "__len__"):
        return ["items", [canon(e) for e in x]]
    return type(x).__name__


def text(x):
    import hashlib
    s = json.dumps(canon(x))
    return s if len(s) < 120 else s[:60] + hashlib.sha1(s.encode()).hexdigest()


def settings():
    """library and process settings a miner has no business changing"""
    import decimal
    import locale
    import logging
    import signal
    import numpy as np
    import pandas as pd
    import matplotlib
    import sklearn
    out = {}
    for k in sorted(pd._config.config._registered_options):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out["pd." + k] = repr(pd.get_option(k))
        except Exception:
            pass
    for k, v in np.geterr().items():
        out["np." + k] = v
    out["np.print"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    out["warnings"] = repr(warnings.filters)
    out["recursion"] = sys.getrecursionlimit()
    out["cwd"] = os.getcwd()
    out["environ"] = repr(sorted(os.environ.items()))
    out["logging"] = repr((logging.root.level, logging.root.disabled, logging.root.manager.disable))
    out["decimal"] = repr(decimal.getcontext())
    out["sklearn"] = repr(sorted(sklearn.get_config().items(), key=str))
    out["mpl"] = matplotlib.get_backend()
    out["signal"] = repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)])
    out["locale"] = repr(locale.setlocale(locale.LC_ALL))
    out["random"] = repr(hash(random.getstate()))
    out["np.random"] = repr([hash(x.tobytes()) if hasattr(x, "tobytes") else x for x in np.random.get_state()])
    out["stdout"] = repr((id(sys.stdout), id(sys.stderr)))
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# ---------------------------------------------------------------- kinds of miners
def classes():
    from skmine.emerging import MBDLLBorder
    from skmine.feature_extraction import SLIMVectorizer
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    from skmine.itemsets import LCM, SLIM, SlimClassifier
    from skmine.itemsets.lcm import LCMMax
    from skmine.periodic import PeriodicPatternMiner
    from skmine.preprocessing import MDLPDiscretizer
    return dict(lcm=LCM, lcmmax=LCMMax, slim=SLIM, clf=SlimClassifier, vec=SLIMVectorizer, mdlp=MDLPDiscretizer, border=MBDLLBorder,
                periodic=PeriodicPatternMiner, graph=GraphMDL)


PARAMS = {
    "lcm": [dict(min_supp=2), dict(min_supp=0.4), dict(min_supp=1, verbose=False, n_jobs=1), dict(min_supp=3)],
    "lcmmax": [dict(min_supp=2), dict(min_supp=0.3), dict(min_supp=1)],
    "slim": [dict(), dict(pruning=False), dict(items=["a", "b", "c", "d", "e"]), dict(pruning=False, items=["set", "b", "q"], max_time=-1)],
    "clf": [dict(), dict(items=["set", "a", "b", "c", "d", "e", "f"]), dict(pruning=True)],
    "vec": [dict(), dict(k=2, strategy="one-hot"), dict(stop_items=["set", "a"]), dict(items=["set", "a", "e"], k=3), dict(pruning=True, max_time=100)],
    "mdlp": [dict(random_state=0), dict(random_state=3), dict(random_state=7, n_jobs=1)],
    "border": [dict(), dict(min_growth_rate=1.5, min_supp=0.2), dict(min_supp=0.34, min_growth_rate=2, n_jobs=1)],
    "periodic": [dict(), dict(complex=False), dict(auto_time_scale=False)],
    "graph": [dict()],
}
# operations: fits forget everything before, steps add to the state, uses must leave no trace in the answers
FITS = {"lcm": ["fit", "fit_transform"], "lcmmax": ["fit", "fit_transform"], "slim": ["fit", "fit", "prefit", "fit_transform"], "clf": ["fit"],
        "vec": ["fit", "fit_transform"], "mdlp": ["fit", "fit_transform"], "border": ["fit", "fit_discover"], "periodic": ["fit", "fit", "fit_transform", "import"],
        "graph": ["fit"]}
STEPS = {"slim": ["update"], "vec": ["update"]}
USES = {"lcm": ["transform", "tids", "maxlen", "lex", "write"], "lcmmax": ["transform", "tids"],
        "slim": ["transform", "tids", "cover", "decision", "codelen", "reconstruct", "support", "candidates", "evaluate", "attrs"],
        "clf": ["predict", "score", "decisions"], "vec": ["transform", "decision", "cover"], "mdlp": ["transform", "discover"],
        "border": ["discover", "discover2"], "periodic": ["transform", "errors", "reconstruct", "residuals", "residuals0", "export", "draw", "recon0"],
        "graph": ["length", "initial", "patterns"]}
# copies that are as fitted as the original, copies that are not fitted
FULL = ["deep", "pickle"]
BARE = {"slim": ["copy", "clone"], "clf": ["copy", "clone"], "vec": ["copy", "clone"]}
# drawing a pattern requires that patterns were listed since the last fit
DRAWS = ["draw"]
SHOWS = ["transform", "errors", "export", "fit_transform"]


def preset(case):
    """settings of the user"""
    import numpy as np
    import pandas as pd
    warnings.simplefilter("ignore")
    if case.get("preset"):
        pd.set_option("mode.use_inf_as_na", True)
        pd.set_option("mode.chained_assignment", "raise")
        np.seterr(divide="ignore", over="ignore")
        sys.setrecursionlimit(4321)


def value(p):
    """a parameter value: lists are handed over as they are, lists starting with 'set' as sets"""
    return {k: (set(v[1:]) if isinstance(v, list) and v[:1] == ["set"] else v) for k, v in p.items()}


def make_data(kind, spec):
    """an input (X, y) from its description"""
    import networkx as nx
    import numpy as np
    import pandas as pd
    f = spec["form"]
    if kind in ("lcm", "lcmmax", "slim", "clf", "vec", "border"):
        T, A = spec["T"], spec.get("A", "abcdef")
        X = {"list": lambda: [list(t) for t in T], "series": lambda: pd.Series([list(t) for t in T], dtype=object),
             "named": lambda: pd.Series([list(t) for t in T], dtype=object, index=["r%d" % i for i in range(len(T))]),
             "df": lambda: pd.DataFrame([[i in t for i in A] for t in T], columns=list(A), index=range(5, 5 + len(T))),
             "arr": lambda: np.array([[int(i in t) for i in A] for t in T]),
             "none": lambda: None, "empty": lambda: [], "unhash": lambda: [[["a"], ["b"]], [["a"]]], "notlists": lambda: [1, 2, 3],
             "objdf": lambda: pd.DataFrame({"a": ["x", "y"], "b": [1, 2]}), "nandf": lambda: pd.DataFrame({"a": [1.0, np.nan], "b": [1.0, 0.0]}),
             "infdf": lambda: pd.DataFrame({"a": [1.0, np.inf], "b": [1.0, 0.0]})}[f]()
        y = None
        if kind in ("clf", "border"):
            y = np.array(spec["y"]) if spec.get("yform") != "series" else pd.Series(spec["y"], index=X.index if isinstance(X, pd.Series) else None)
            if kind == "clf" and spec.get("yform") == "list":
                y = list(spec["y"])
        return X, y
    if kind == "mdlp":
        y = np.array(spec["y"])
        X = np.array(spec["X"], dtype=float)
        if f == "df":
            return pd.DataFrame(X, columns=[spec["cols"] + str(i) for i in range(X.shape[1])], index=range(3, 3 + len(X))), pd.Series(y, index=range(3, 3 + len(y)))
        if f == "none":
            return X, None
        if f == "floaty":
            return X, y.astype(float)
        return X, y
    if kind == "periodic":
        if f == "none":
            return None, None
        if f == "list":
            return list(spec["t"]), None
        ix = list(spec["t"])
        if f == "date":
            ix = pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=t) for t in spec["t"]])
        if f == "float":
            ix = [float(t) for t in spec["t"]]
        return pd.Series(spec["e"], index=ix, name="log"), None
    if f == "none":
        return None, None
    g = nx.DiGraph()
    for i, lab in enumerate(spec["v"], 1):
        g.add_node(i, **({"label": lab} if isinstance(lab, str) else {"label": tuple(lab)} if lab else {}))
    for u, v, a in spec["edges"]:
        g.add_edge(u, v, label=a) if f != "nolabel" else g.add_edge(u, v)
    return g, None


def perform(kind, m, op, X, y, opt, fs):
    """one operation on the real miner; returns its answer. fs: files of exported patterns by data"""
    import skmine.itemsets.slim  # noqa
    if op == "fit":
        r = m.fit(X, y) if y is not None else m.fit(X)
        return "self" if r is m else r
    if op == "prefit":
        r = m.prefit(X)
        return "self" if r is m else r
    if op == "fit_transform":
        return m.fit_transform(X, y) if y is not None else m.fit_transform(X)
    if op == "fit_discover":
        return m.fit_discover(X, y, min_size=1)
    if op == "import":
        return m.import_patterns(fs(opt))
    if op == "update":
        return m.update(candidate=frozenset(opt))
    if op == "transform":
        return m.transform(X)
    if kind in ("lcm", "lcmmax"):
        if op == "write":
            name = os.path.join(tempfile.mkdtemp(dir="."), "out.txt")
            r = m.transform(X, out=name)
            return [r, open(name).read()]
        kw = dict(tids=dict(return_tids=True), maxlen=dict(max_length=2), lex=dict(lexicographic_order=False))[op]
        return m.transform(X, **kw)
    if op == "tids":
        return m.transform(X, singletons=True, return_tids=True, drop_null_usage=False)
    if op == "cover":
        return m.cover(X)
    if op == "decision":
        return m.decision_function(X)
    if op == "codelen":
        return m.get_code_length(X)
    if op == "reconstruct":
        return m.reconstruct()
    if op == "support":
        return sorted(m.get_support(*opt))
    if op == "candidates":
        return [[sorted(a), b] for a, b in m.generate_candidates()]
    if op == "evaluate":
        a, b, u = m.evaluate(frozenset(opt))
        return [a, b]
    if op == "attrs":
        return [[[sorted(k), sorted(v)] for k, v in m.codetable_.items()], m.data_size_, m.model_size_]
    if op == "predict":
        return m.predict(X)
    if op == "score":
        return m.score(X, y)
    if op == "decisions":
        return [x.decision_function(X) for x in m.models_]
    if op == "discover":
        return m.discover() if kind == "mdlp" else m.discover(min_size=1)
    if op == "discover2":
        return m.discover(min_size=2)
    if op == "errors":
        return m.transform(X, dE_sum=False, chronological_order=False)
    if op == "residuals":
        return m.get_residuals(sort="event")
    if op == "residuals0":
        return m.get_residuals([])
    if op == "recon0":
        return m.reconstruct([0])
    if op == "export":
        name = os.path.join(tempfile.mkdtemp(dir="."), "p.json")
        m.export_patterns(name)
        return json.load(open(name))
    if op == "draw":
        return m.draw_pattern(0)
    if op == "length":
        return m.description_length()
    if op == "initial":
        return m.initial_description_length()
    if op == "patterns":
        return sorted(json.dumps(canon(g)) for g in m.patterns())
    raise ValueError(op)


def copied(m, how):
    if how == "copy":
        return copy.copy(m)
    if how == "deep":
        return copy.deepcopy(m)
    if how == "pickle":
        return pickle.loads(pickle.dumps(m))
    from sklearn.base import clone
    return clone(m)


class Away:
    """a process of another hash seed, which answers (function, arguments) in forked children"""
    own = None

    @classmethod
    def call(cls, fn, *args):
        if cls.own is None or cls.own[0] != os.getpid() or cls.own[1].poll() is not None:
            e = dict(os.environ, PYTHONHASHSEED=str(int(os.environ.get("PYTHONHASHSEED") or 1) + 4242))
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)
            cls.own = (os.getpid(), p)
        p = cls.own[1]
        pickle.dump((fn, args, os.getcwd()), p.stdin)
        p.stdin.flush()
        st, out = pickle.load(p.stdout)
        if st == "err":
            raise RuntimeError(out)
        return out


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    preload()
    while True:
        try:
            fn, args, cwd = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        try:
            os.chdir(cwd)
            r = ("ok", in_child(lambda: globals()[fn](*args)))
        except Exception:
            r = ("err", traceback.format_exc())
        pickle.dump(r, out)
        out.flush()


def in_child(fn):
    """run in a forked process with a directory of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                d = tempfile.mkdtemp(dir=".")
                os.chdir(d)
                out = ("ok", fn())
            except BaseException:
                out = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise RuntimeError("child died")
    st, out = pickle.loads(b)
    if st == "err":
        raise RuntimeError(out)
    return out


def exported(case, k):
    """file of patterns exported by a fresh miner fitted on a datum"""
    name = os.path.abspath("exported%d.json" % k)
    if not os.path.exists(name):
        import contextlib
        m = classes()["periodic"]()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(make_data("periodic", case["data"][k])[0])
            m.export_patterns(name)
    return name


def query(o):
    return "/".join([o["op"], str(o.get("d", "")), json.dumps(o.get("opt", ""))])


def op_of(o):
    return o["op"] in ("discover", "discover2", "fit_discover")


def reference(case, p, s, o, shown):
    """the answer of a fresh miner"""
    preset(case)
    kind = case["kind"]
    m = classes()[kind](**value(case["params"][p]))
    for x in s:
        run_op(case, kind, m, x, {k: make_data(kind, v) for k, v in enumerate(case["data"])})
    if shown:
        run_op(case, kind, m, dict(op=SHOWS[0], d=0), {0: make_data(kind, case["data"][0])})
    return run_op(case, kind, m, o, {k: make_data(kind, v) for k, v in enumerate(case["data"])})


def elsewhere(case, b, o):
    """the answer of a pickled miner"""
    preset(case)
    return run_op(case, case["kind"], pickle.loads(b), o, {k: make_data(case["kind"], v) for k, v in enumerate(case["data"])})


def run_op(case, kind, m, o, D):
    X, y = D[o["d"]] if o.get("d") is not None else (None, None)
    try:
        r = perform(kind, m, o["op"], X, y, o.get("opt"), lambda k: exported(case, k))
        if kind == "border" and op_of(o):  # in no particular order
            r = sorted(sorted(map(str, x)) for x in r)
        return text(r), ""
    except Exception as ex:
        return "", type(ex).__name__


def run_case(case):
    kind = case["kind"]
    ptext = {i: json.dumps(p, sort_keys=True) for i, p in enumerate(case["params"])}

    def needs():
        """the references the history asks for"""
        cur = {}
        for o in case["hist"]:
            if o["op"] == "new":
                cur[o["m"]] = [o["p"], []]
            elif o["op"] == "set":
                cur[o["m"]] = [o["p"], cur[o["m"]][1] and None]
            elif o["op"] in ("get", "setbad"):
                pass
            elif o["op"] == "copy":
                p, s = cur[o["of"]]
                cur[o["m"]] = [p, s if o["how"] in FULL else []]
            else:
                p, s = cur[o["m"]]
                fit, step = o["op"] in FITS[kind], o["op"] in STEPS.get(kind, [])
                if fit:
                    yield p, (), o, False
                    cur[o["m"]] = [p, [o]]
                elif s is not None:
                    for shown in ([False, True] if o["op"] in DRAWS else [False]):
                        yield p, tuple(s), o, shown
                    if step:
                        cur[o["m"]] = [p, s + [o]]
    todo = {}
    for x in needs():
        todo[json.dumps(x, sort_keys=True)] = x

    ev = []
    for p, s, o, shown in todo.values():
        if case.get("away"):
            out, exc = Away.call("reference", case, p, s, o, shown)
        else:
            out, exc = in_child(lambda: reference(case, p, s, o, shown))
        ev.append(dict(ev="Ref", m="-", kind=kind, params=ptext[p], steps=[query(x) for x in s], q=query(o) + "+" * shown, out=out, exc=exc))

    def history():
        preset(case)
        cls = classes()[kind]
        D = {k: make_data(kind, v) for k, v in enumerate(case["data"])}
        P = {i: value(p) for i, p in enumerate(case["params"])}
        ms, out = {}, []
        now = settings()
        was = {k: text(v) for k, v in [*D.items(), *[("p%d" % i, p) for i, p in P.items()]]}
        names = [k for k, q in inspect.signature(cls.__init__).parameters.items()
                 if k != "self" and q.kind not in (q.VAR_KEYWORD, q.VAR_POSITIONAL)] if cls.__init__ is not object.__init__ else []
        for o in case["hist"]:
            e = dict(m="M%d" % o["m"], exc="")
            if o["op"] == "new":
                e.update(ev="New", kind=kind, params=ptext[o["p"]], given={k: text(v) for k, v in P[o["p"]].items()})
                try:
                    ms[o["m"]] = cls(**P[o["p"]])
                except Exception as ex:
                    e["exc"] = type(ex).__name__
            elif o["op"] == "set":
                given = dict(P[o["p"]])
                e.update(ev="Set", unknown=False, params=ptext[o["p"]], given={k: text(v) for k, v in given.items()})
                for k, v in defaults(cls).items():
                    given.setdefault(k, v)
                try:
                    ms[o["m"]].set_params(**given)
                except Exception as ex:
                    e["exc"] = type(ex).__name__
            elif o["op"] == "setbad":
                e.update(ev="Set", unknown=True, params="", given={"x": "x"})
                try:
                    ms[o["m"]].set_params(**{o["name"]: 3})
                except Exception as ex:
                    e["exc"] = type(ex).__name__
            elif o["op"] == "copy":
                e.update(ev="Copy", of="M%d" % o["of"], full=o["how"] in FULL)
                try:
                    ms[o["m"]] = copied(ms[o["of"]], o["how"])
                except Exception as ex:
                    e["exc"] = type(ex).__name__
                e["same"] = type(ms[o["m"]]) is type(ms[o["of"]])
            elif o["op"] == "get":
                e.update(ev="Get", got={"-": ""}, names=names)
                try:
                    e["got"].update({k: text(v) for k, v in ms[o["m"]].get_params().items()})
                except Exception as ex:
                    e["exc"] = type(ex).__name__
            else:
                e.update(ev="Op", q=query(o), fit=o["op"] in FITS[kind], step=o["op"] in STEPS.get(kind, []), out="",
                         draws=o["op"] in DRAWS, shows=kind == "periodic" and o["op"] in SHOWS and not o.get("away"))
                if o.get("away"):
                    try:
                        b = pickle.dumps(ms[o["m"]])
                        e["out"], e["exc"] = Away.call("elsewhere", case, b, {k: v for k, v in o.items() if k != "away"})
                    except Exception as ex:
                        e["exc"] = "pickle: " + type(ex).__name__
                else:
                    e["out"], e["exc"] = run_op(case, kind, ms[o["m"]], o, D)
            is_now = {k: text(v) for k, v in [*D.items(), *[("p%d" % i, p) for i, p in P.items()]]}
            e["changed"] = [str(k) for k in is_now if is_now[k] != was[k]]
            was = is_now
            after = settings()
            e["settings"] = diff(now, after)
            now = after
            out.append(e)
            if e["exc"] and o["op"] in ("new", "copy"):
                break
        return out
    return ev + in_child(history)


def defaults(cls):
    out = {}
    for c in cls.__mro__:
        if "__init__" in vars(c):
            for k, q in inspect.signature(c.__init__).parameters.items():
                if q.default is not inspect.Parameter.empty:
                    out.setdefault(k, q.default)
    return out


# ---------------------------------------------------------------- cases
def rand_data(kind, r, bad=False):
    if kind in ("lcm", "lcmmax", "slim", "clf", "vec", "border"):
        big = kind != "border" and r.random() < .15
        n = r.randint(4, 9) if not big else r.randint(12, 25)
        A = "abcdef" if not big else "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[:r.choice([20, 36, 50])]
        T = [sorted(r.sample(A, r.randint(1, 4))) for _ in range(n)]
        if big:  # most items, and some sets more than once
            T[-1] = sorted(A)
            T[:4] = [sorted(r.sample("abcdef", 3))] * 4
        if kind == "border" and r.random() < .25:
            A = "abcdefghijkl"
            T = [sorted(r.sample(A, r.randint(1, 3))) for _ in range(r.randint(14, 24))]
            n = len(T)
        if kind in ("slim", "vec", "lcm", "lcmmax"):
            forms = ["list", "series", "named"] + (["df", "arr"] if kind == "slim" else [])
            f = r.choice(forms)
            if bad:
                f = r.choice(["none", "empty", "unhash", "notlists"] + (["objdf", "nandf", "infdf", "nandf", "infdf"] if kind == "slim" else []))
            return dict(form=f, T=T, A=A)
        k = 2 if kind == "border" else r.choice([2, 2, 3, 4])
        y = [i % k for i in range(n)]
        r.shuffle(y)
        if kind == "clf":
            y = [["x", "z", "w", "y"][v] for v in y]
            return dict(form="list" if not bad else r.choice(["notlists", "unhash", "none"]), T=T, y=y, yform=r.choice(["array", "list"]))
        return dict(form=r.choice(["series", "named"]) if not bad else r.choice(["list", "none"]), T=T, y=y, yform=r.choice(["array", "series"]))
    if kind == "mdlp":
        n = r.randint(6, 14)
        if r.random() < .15:
            n = r.randint(30, 60)
        w = r.choice([1, 2, 2, 2, 3, 4])
        X = [[float(r.randint(0, 9)) for _ in range(w)] for _ in range(n)]
        y = [int(X[i][0] > 4) if r.random() < 0.8 else r.randint(0, 2) for i in range(n)]
        return dict(form=r.choice(["arr", "df"]) if not bad else r.choice(["none", "floaty"]), X=X, y=y, cols=r.choice(["c", "d"]))
    if kind == "periodic":
        t, e = [], []
        for a in "abcdefghi"[:r.randint(1, 3) if r.random() < .8 else 9]:
            s, p = r.randint(0, 9), r.randint(2, 6)
            for i in range(r.randint(4, 9)):
                t.append(s + i * p + r.choice([0, 0, 0, 1]))
                e.append(a)
        for _ in range(r.randint(0, 3)):
            t.append(r.randint(0, 60))
            e.append(r.choice("abd"))
        s = list(zip(t, e))
        if r.random() < 0.6:
            s.sort()
        mul = r.choice([1, 1, 10, 60])
        return dict(form=r.choice(["int", "date"]) if not bad else r.choice(["none", "list", "float"]), t=[mul * x for x, _ in s], e=[x for _, x in s])
    n = r.randint(2, 6) if r.random() < .9 else r.randint(8, 12)
    v = [r.choice(["A", "B", ["A", "B"], []]) for _ in range(n)]
    pairs = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1) if i != j]
    edges = [[i, j, r.choice("xy")] for i, j in r.sample(pairs, min(len(pairs), r.randint(1, 7) if n < 7 else r.randint(7, 14)))]
    return dict(form="g" if not bad else r.choice(["none", "nolabel"]), v=v, edges=edges)


def options(kind, op, d, r):
    """an operation with what it needs"""
    o = dict(op=op)
    if op == "import":
        o["opt"] = d
        return o
    if op in ("fit", "prefit", "fit_transform", "fit_discover", "transform", "tids", "maxlen", "lex", "write", "cover", "decision", "codelen",
              "predict", "score", "decisions", "errors"):
        o["d"] = d
    if op in ("support", "evaluate", "update"):
        o["opt"] = sorted(r.sample("abcd", 2 if op != "support" else r.randint(1, 3)))
    return o


def concrete(kind, h, r):
    """a history of the specification on a kind of miner; data 1, 2 are good, 3 is not"""
    params = PARAMS[kind]
    pick = [r.randrange(len(params)), r.randrange(len(params))]
    data = [rand_data(kind, r), rand_data(kind, r), rand_data(kind, r, bad=True)]
    out, last = [], {}
    for o in h:
        if o["op"] == "new":
            out += [dict(op="new", m=i + 1, p=pick[p - 1]) for i, p in enumerate(o["par"])]
        elif o["op"] == "fit":
            fs = FITS[kind] if o["d"] != 3 else [f for f in FITS[kind] if f != "import"]
            last[o["m"]] = r.choice(fs)
            out.append(dict(options(kind, last[o["m"]], o["d"] - 1, r), m=o["m"]))
            if kind in STEPS and r.random() < 0.3 and o["d"] != 3:
                out.append(dict(options(kind, r.choice(STEPS[kind]), 0, r), m=o["m"]))
        elif o["op"] == "use":
            us = USES[kind] if last.get(o["m"]) != "prefit" else ["reconstruct", "support", "candidates", "evaluate", "attrs"]
            for u in r.sample(us, min(2, len(us))):
                out.append(dict(options(kind, u, o["d"] - 1, r), m=o["m"], **({"away": True} if r.random() < 0.1 else {})))
        elif o["op"] == "set":
            out.append(dict(op="set", m=o["m"], p=pick[o["p"] - 1]))
        elif o["op"] == "setbad":
            out.append(dict(op="setbad", m=o["m"], name=r.choice(["nothing", "minsupp", "Pruning", "fit"])))
        elif o["op"] == "copy":
            how = r.choice(FULL) if o["full"] else r.choice(BARE.get(kind, ["clone"]))
            out.append(dict(op="copy", m=o["m"], of=o["of"], how=how))
            last[o["m"]] = last.get(o["of"]) if o["full"] else None
            out.append(dict(op="get", m=o["m"]))
        else:
            out.append(dict(op="get", m=o["m"]))
    return dict(kind=kind, params=params, data=data, hist=out, preset=r.random() < 0.15, away=r.random() < 0.4)


def rand_history(r, n):
    h = [dict(op="new", par=[r.choice([1, 2]), r.choice([1, 2])])]
    for _ in range(n):
        m = r.choice([1, 2])
        x = r.random()
        if x < 0.35:
            h.append(dict(op="fit", m=m, d=r.choice([1, 2, 1, 2, 1, 2, 3])))
        elif x < 0.76:
            h.append(dict(op="use", m=m, u=1, d=r.choice([1, 2])))
        elif x < 0.84:
            h.append(dict(op="copy", m=m, of=r.choice([m, 3 - m, 3 - m]), full=r.random() < 0.7))
        elif x < 0.89:
            h.append(dict(op="set", m=m, p=r.choice([1, 2])))
        elif x < 0.93:
            h.append(dict(op="setbad", m=m))
        else:
            h.append(dict(op="get", m=m))
    return h


def cases(tier, rng, emitted):
    q = tier == "quick"
    em = emitted.get("Estimators", [])
    rng.shuffle(em)
    kinds = sorted(PARAMS)
    for h in em[:420 if q else 8000]:
        yield concrete(rng.choice(kinds), h, rng)
    for i in range(450 if q else 8000):
        yield concrete(kinds[i % len(kinds)], rand_history(rng, rng.randint(4, 8)), rng)


def nontrivial(case, events):
    return sum(e["ev"] == "Op" and e["fit"] and not e["exc"] for e in events) >= 2


if __name__ == "__main__":
    serve()
