"""Callbacks: each runs once after its method, with its result, and disturbs nothing."""
import collections
import functools
import types

TRACE = "CallbackTrace"
RULE = ("every history of attachments and calls of the small scope of Callbacks.tla, seeded longer ones over all callback forms and result "
        "shapes, collections that must be refused, and real miners with callbacks against the same without; non-trivial: a call with a callback")
CFG = ("SPECIFICATION Spec\nCONSTANTS Miners = {1,2}\nMethods = {\"f\",\"g\"}\nForms = {%s}\nResults = {\"int\",\"raise\"}\nMaxOps = %d\n"
       "EmitCases = TRUE\nINVARIANTS RunsOnce Emit\nPROPERTIES Returns\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Callbacks", CFG % ('"one","boom"', 3))], "thorough": [("Callbacks", CFG % ('"one","boom"', 4))]}
TIMEOUT = 120
ASSUMPTIONS = ["callbacks take at least one argument; those with several take as many as the result has parts; results are not iterators"]
ONE = ["one", "append", "default", "onedef", "deque", "self1", "self2", "selfdef", "selfopt", "var", "extend", "self2", "one"]
ITER = {"pair", "triple", "list1", "str1", "str", "empty", "dict1", "df", "set1", "tup1", "arr", "ser", "estr", "etup", "nt"}
NOTITER = {"int", "none", "float", "zero", "false", "me", "obj", "nan"}
ERRORS = {"raise": LookupError, "rstop": StopIteration, "rvalue": ValueError, "rtype": TypeError, "rattr": AttributeError, "rkbd": KeyboardInterrupt,
          "rgen": GeneratorExit, "rassert": AssertionError, "rnot": NotImplementedError}
BOOMS = {"boom": TypeError, "boomval": KeyError, "boomstop": StopIteration, "boomerr": ValueError, "boomkbd": KeyboardInterrupt, "boomattr": AttributeError}
Point = collections.namedtuple("Point", "x y")


class Thing:
    def __repr__(self):
        return "thing"

    def __bool__(self):
        raise RuntimeError("no truth value")

    def __eq__(self, other):
        raise RuntimeError("not compared")


THING, MARK, NAN = Thing(), [3, 1, 2], float("nan")
# arguments of the calls: the method gets them as they are
CALLS = [((1,), {"key": 2}), ((), {}), ((None,), {"key": None}), ((MARK,), {}), ((), {"D": MARK, "y": None}), ((0, "", False, []), {"a": 0, "b": "", "c": False}),
         ((THING, [THING]), {"self_": 1, "res": 3, "args": (1,), "kwargs": {"x": 1}}), ((), {"callback": None, "func": 1, "func_name": "f"}),
         (tuple(range(12)), {"k%d" % i: i for i in range(9)})]
PARTS = {"multi", "selfN"}


def preload():
    import numpy, pandas, networkx  # noqa
    import skmine.callbacks, skmine.itemsets, skmine.graph, skmine.preprocessing, skmine.emerging, skmine.periodic  # noqa


def value(kind):
    import numpy as np
    import pandas as pd
    return {"int": 10, "none": None, "float": 2.5, "pair": (2, 5), "triple": (2, 10, 3), "list1": [7], "str1": "a", "str": "abc", "empty": [],
            "dict1": {"k": 1}, "set1": {4}, "tup1": (8,), "zero": 0, "false": False, "estr": "", "etup": (), "nt": Point(1, 2), "obj": THING, "nan": NAN,
            "arr": np.array([4, 5]), "ser": pd.Series([1, 2]), "df": pd.DataFrame({"c": [1, 2]})}[kind]


def text(x):
    if isinstance(x, Miner):
        return x.name
    if hasattr(x, "to_json"):
        return "df:" + x.to_json()
    return repr(x)


class Miner:
    def __init__(self, name):
        self.name = name
        self.next = None
        self.body = 0
        self.last = None
        self.call = 0

    def f(self, *a, **k):
        return self._go(a, k)

    def g(self, *a, **k):
        return self._go(a, k)

    def _go(self, a, k):
        wa, wk = CALLS[self.call]
        self.body += len(a) == len(wa) and all(x is y for x, y in zip(a, wa)) and list(k) == list(wk) and all(k[x] is wk[x] for x in k)
        if self.next in ERRORS:
            self.last = ERRORS[self.next]("asked for")
            raise self.last
        self.last = value(self.next) if self.next != "me" else self
        return self.last


def make(form, i, rec):
    """a callback of a form, recording [number, what it got]"""
    if form == "append":
        lst = []
        rec.lists.append((i, form, lst))
        return lst.append
    if form == "deque":
        lst = collections.deque()
        rec.lists.append((i, form, lst))
        return lst.append
    if form == "extend":
        lst = []
        rec.lists.append((i, form, lst))
        return lst.extend
    if form == "one":
        def cb(res):
            rec(i, [res])
    elif form == "default":
        def cb(res, number=i):
            rec(number, [res])
    elif form == "onedef":
        def cb(res="nothing"):
            rec(i, [res])
    elif form == "self1":
        def cb(self):
            rec(i, [self])
    elif form == "self2":
        def cb(self, res):
            rec(i, [self, res])
    elif form == "selfdef":
        def cb(self, res, number=i):
            rec(number, [self, res])
    elif form == "selfopt":
        def cb(self, res="nothing"):
            rec(i, [self, res])
    elif form == "selfN":
        def cb(self, a, b, *rest):
            rec(i, [self, a, b, *rest])
    elif form == "multi":
        def cb(a, b, *rest):
            rec(i, [a, b, *rest])
    elif form == "var":
        def cb(*parts):
            rec(i, list(parts))
    elif form in BOOMS:
        def cb(res):
            rec(i, [res])
            raise BOOMS[form]("from the callback")
    else:
        raise ValueError(form)
    return cb


class Recorder:
    def __init__(self):
        self.lists = []
        self.seq = []

    def __call__(self, i, got):
        self.seq.append(dict(id=i, got=[text(x) for x in got]))

    def take(self, attached):
        """runs since the last time, in order; those of built-in callables are placed where they belong"""
        out, self.seq = self.seq, []
        for i, form, lst in self.lists:
            new = list(lst)
            lst.clear()
            runs = []
            if form == "extend":
                if new or i in attached:
                    runs = [dict(id=i, got=[text(x) for x in new])]
            else:
                runs = [dict(id=i, got=[text(x)]) for x in new]
            if runs:
                pos = next((k for k, r in enumerate(out) if r["id"] > i), len(out))
                out[pos:pos] = runs
        return out


# ---------------------------------------------------------------- functions that may or may not be callbacks
def a1(self):
    self.x = 1


def a2(self, res):
    if res:
        self.seen_ = res


def a3(self):
    self = None
    return self


def a4(self):
    self.count += 1


def a5(self):
    self.inner.value = 2


def a6(self, res):
    self.total -= res


def ok1(self):
    return self.x == 1


def ok2(self, res):
    return self.x <= res or self.x >= 3 or self.x != 2


def ok3(res):
    myself = res
    return myself


def ok4(self, res):
    out = self.x
    return out


class Callable:
    def __call__(self, res):
        return res


def candidates():
    ns = {}
    exec("def made(res):\n    return res\n", ns)
    yield from [(f, "ValueError") for f in (a1, a2, a3, a4, a5, a6)]
    yield from [(f, "") for f in (ok1, ok2, ok3, ok4, print, [].append, len, functools.partial(ok4, 1), Callable(), ns["made"], int,
                                  lambda res: None, "abc".join)]
    yield from [(v, "TypeError") for v in (3, "name", None, [ok1], {"f": ok1}, 2.5, True)]


def state(m):
    return {k: id(v) for k, v in vars(m).items()}


def run_history(case, ev):
    from skmine.callbacks import CallBacks
    rec = Recorder()
    Fresh = type("Miner", (Miner,), {**{k: types.FunctionType(v.__code__, globals()) for k, v in vars(Miner).items() if k in ("f", "g")},
                                         "limit": 3, "size": property(lambda self: 4), "__doc__": "a miner"})
    ms = {1: Fresh("M1"), 2: Fresh("M2")}
    n = 0
    where = {}
    for o in case["hist"]:
        m = ms[o["m"]]
        if o["op"] in ("attach", "unknown"):
            cbs, kw = [], {}
            for f, form in o["cbs"]:
                n += 1
                kw[f] = make(form, n, rec)
                cbs.append(dict(m=m.name, f=f, id=n, form="boom" if form in BOOMS else form, fails=BOOMS[form].__name__ if form in BOOMS else ""))
            if o["op"] == "unknown":
                kw["nope" if o.get("name") is None else o["name"]] = make("one", 0, rec)
                if o.get("first"):
                    kw = dict(reversed(list(kw.items())))
            e = dict(ev="Attach", cbs=cbs, exc="", want="ValueError" if o["op"] == "unknown" else "", changed=False)
            before = state(m), state(ms[3 - o["m"]])
            try:
                coll = CallBacks(**kw)
                coll(m)
            except Exception as ex:
                e["exc"] = type(ex).__name__
            if o["op"] == "unknown":
                e["changed"] = before != (state(m), state(ms[3 - o["m"]]))
            else:
                for x in cbs:
                    where.setdefault((x["m"], x["f"]), []).append((x["id"], x["fails"]))
            ev.append(e)
            if e["exc"] and not e["want"]:
                return
        else:
            att = where.get((m.name, o["f"]), [])
            k = next((j for j, (_, f) in enumerate(att) if f), len(att))
            m.next, m.body, m.last, m.call = o["r"], 0, None, o.get("a", 0)
            fails = o["r"] in ERRORS
            e = dict(ev="Call", m=m.name, f=o["f"], text="", parts=[], raises=ERRORS[o["r"]].__name__ if fails else "", exc="", same=False, ran=[], body=0)
            try:
                a, kw = CALLS[m.call]
                r = getattr(m, o["f"])(*a, **kw)
                e["same"] = r is m.last
            except BaseException as ex:
                e["exc"] = type(ex).__name__
                e["same"] = ex is m.last
            e["body"] = m.body
            if not fails and (m.last is not None or o["r"] == "none"):
                e["text"] = text(m.last)
                e["parts"] = [text(x) for x in m.last] if o["r"] in ITER else [text(m.last)]
                if m.last is not None and o["r"] != "me" and text(m.last) != text(value(o["r"])):
                    e["same"] = False
            e["ran"] = rec.take([i for i, _ in att[:k]] if not fails else [])
            ev.append(e)


def real(case):
    """a real miner with callbacks on several of its methods, and the same without"""
    import numpy as np
    import pandas as pd
    import networkx as nx
    from skmine.callbacks import CallBacks, mdl_prints
    from skmine.itemsets import LCM, SLIM
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    from skmine.preprocessing import MDLPDiscretizer
    from skmine.emerging import MBDLLBorder
    from skmine.periodic import PeriodicPatternMiner
    D = [["a", "b", "c"], ["a", "b"], ["b", "c"], ["a", "b", "c"], ["a", "c"], ["a", "b", "d"]] + case["extra"]
    g = nx.DiGraph()
    for i in range(1, 5):
        g.add_node(i, label="AB"[i % 2])
        g.add_edge(i, i % 4 + 1, label="e")
    X = pd.DataFrame({"x": [1.0, 2, 3, 4, 5, 6, 7, 8], "y": [1.0, 5, 2, 8, 3, 1, 2, 9]})
    y = np.array([0, 0, 0, 0, 1, 1, 1, 1])
    log = pd.Series(["a"] * 6 + ["b"], index=[1, 4, 7, 10, 13, 16, 30])
    kinds = {
        "lcm": (LCM, dict(min_supp=2), lambda m: m.fit(D).transform(D).to_json()),
        "slim": (SLIM, dict(), lambda m: m.fit(D).transform(D, singletons=True, return_tids=True).to_string() + str(list(m.get_code_length(D)))),
        "mdlp": (MDLPDiscretizer, dict(), lambda m: m.fit(X, y).transform(X).to_json()),
        "graph": (GraphMDL, dict(), lambda m: str(m.fit(g).description_length()) + str(len(m.patterns()))),
        "border": (MBDLLBorder, dict(min_growth_rate=2, min_supp=0.1), lambda m: str(m.fit(pd.Series(D), y=np.array([0, 1, 0, 1, 0, 1] + [0] * len(case["extra"]))).discover().values.tolist())),
        "periodic": (PeriodicPatternMiner, dict(), lambda m: m.fit(log).transform(log).to_string()),
    }
    cls, kw, use = kinds[case["miner"]]
    e = dict(ev="Miner", exc="", same=False, calls=0, runs=0, got=True)
    Base = type(cls.__name__, (cls,), {})
    try:
        want = use(Base(**kw))
    except Exception as ex:
        e["exc"] = type(ex).__name__ + str(ex)[:200]
        return e
    results, got = [], []

    def counted(name):
        def meth(self, *a, **k):
            r = getattr(super(Sub, self), name)(*a, **k)
            results.append((name, id(r)))
            keep.append(r)
            return r
        return meth
    keep = []
    Sub = type(cls.__name__, (cls,), {})
    for name in case["methods"]:
        setattr(Sub, name, counted(name))
    try:
        m = Sub(**kw)
        if case.get("prints"):
            mdl_prints(m)
        recs = {}
        for name in case["methods"]:
            form = case["form"]
            if form == "one":
                recs[name] = lambda res, name=name: got.append((name, id(res)))
            elif form == "self2":
                recs[name] = (lambda nm: lambda self, res: got.append((nm, id(res))))(name)
            else:
                recs[name] = (lambda nm: lambda self: got.append((nm, 0)))(name)
        for coll in ([recs] if not case.get("apart") else [{k: v} for k, v in recs.items()]):
            CallBacks(**coll)(m)
        e["same"] = use(m) == want and use(Base(**kw)) == want
        e["calls"], e["runs"] = len(results), len(got)
        e["got"] = case["form"] == "self1" or sorted(results) == sorted(got)
    except Exception as ex:
        e["exc"] = type(ex).__name__ + str(ex)[:200]
    return e


METHODS = {"lcm": ["fit", "transform"], "slim": ["fit", "evaluate", "generate_candidates", "update", "transform", "get_code_length"], "mdlp": ["fit", "transform"],
           "graph": ["fit", "patterns", "description_length"], "border": ["fit", "discover"], "periodic": ["fit", "transform"]}


def run_case(case):
    from skmine.callbacks import CallBacks
    ev = []
    if case["kind"] == "history":
        run_history(case, ev)
    elif case["kind"] == "build":
        f, want = list(candidates())[case["i"]]
        e = dict(ev="Build", want=want, exc="")
        try:
            CallBacks(**({"fit": f} if not case["two"] else {"fit": print, "transform": f}))
        except Exception as ex:
            e["exc"] = type(ex).__name__
        ev.append(e)
    elif case["kind"] == "frozen":
        coll = CallBacks(fit=print, transform=len)
        for op in case["ops"]:
            before = list(coll.items())
            e = dict(ev="Frozen", exc="", changed=False)
            try:
                if op == "setitem":
                    coll["fit"] = len
                elif op == "new":
                    coll["other"] = 3
                elif op == "update":
                    coll.update(other=3)
                elif op == "update2":
                    coll.update({"fit": 3})
                elif op == "del":
                    del coll["fit"]
                elif op == "pop":
                    coll.pop("fit")
                elif op == "popitem":
                    coll.popitem()
                elif op == "clear":
                    coll.clear()
                elif op == "setdefault":
                    coll.setdefault("other", 3)
                else:
                    coll |= {"other": 3}
            except Exception as ex:
                e["exc"] = type(ex).__name__
            e["changed"] = list(coll.items()) != before
            ev.append(e)
    else:
        ev.append(real(case))
    return ev


def rand_history(r, n):
    h, forms = [], {}
    for _ in range(n):
        m = r.choice([1, 2])
        x = r.random()
        if x < 0.4:
            cbs = []
            for f in r.sample(["f", "g"], r.choice([1, 1, 2])):
                form = r.choice(ONE + ["multi", "selfN", r.choice(sorted(BOOMS)), r.choice(sorted(BOOMS))])
                have = forms.setdefault((m, f), [])
                if form in PARTS or form == "extend":
                    pass
                have.append(form)
                cbs.append([f, form])
            h.append(dict(op="attach", m=m, cbs=cbs))
        elif x < 0.47:
            h.append(dict(op="unknown", m=m, cbs=[[r.choice(["f", "g"]), "one"]], first=r.random() < 0.5,
                          name=r.choice(["nope", "last", "name", "x_", "limit", "size", "F", "f_", "__doc__"])))
        else:
            f = r.choice(["f", "g"])
            have = forms.get((m, f), [])
            if PARTS & set(have):
                k = r.choice(["pair", "triple", "arr", "ser", "nt"])
            elif "extend" in have:
                k = r.choice(sorted(ITER))
            else:
                k = r.choice(sorted(ITER) + sorted(NOTITER))
            if r.random() < 0.15:
                k = r.choice(sorted(ERRORS))
            h.append(dict(op="call", m=m, f=f, r=k, a=r.randrange(len(CALLS))))
    return h


def cases(tier, rng, emitted):
    q = tier == "quick"
    em = emitted.get("Callbacks", [])
    rng.shuffle(em)
    for h in em[:3000 if q else 40000]:
        kinds = {}
        for o in h:
            if o["op"] == "attach":
                o["cbs"] = [[f, rng.choice(ONE) if form == "one" else rng.choice(sorted(BOOMS))] for f, form in o["cbs"]]
                for f, form in o["cbs"]:
                    kinds.setdefault((o["m"], f), []).append(form)
            elif o["op"] == "unknown":
                o["cbs"] = [[f, "one"] for f, _ in o["cbs"]]
                o["name"] = rng.choice(["nope", "limit", "size"])
            elif o["r"] == "raise":
                o["r"] = rng.choice(sorted(ERRORS))
                o["a"] = rng.randrange(len(CALLS))
            elif o["r"] == "int":
                o["a"] = rng.randrange(len(CALLS))
                o["r"] = rng.choice(sorted(ITER) if "extend" in kinds.get((o["m"], o["f"]), []) else sorted(ITER) + sorted(NOTITER))
        yield dict(kind="history", hist=h)
    for _ in range(2500 if q else 25000):
        yield dict(kind="history", hist=rand_history(rng, rng.randint(3, 9)))
    for i in range(26):
        for two in (False, True):
            yield dict(kind="build", i=i, two=two)
    ops = ["setitem", "new", "update", "update2", "del", "pop", "popitem", "clear", "setdefault", "ior"]
    yield dict(kind="frozen", ops=ops)
    for _ in range(20):
        yield dict(kind="frozen", ops=[rng.choice(ops) for _ in range(4)])
    for name in METHODS:
        for form in ("one", "self2", "self1"):
            for _ in range(3 if q else 12):
                ms = rng.sample(METHODS[name], rng.randint(1, len(METHODS[name])))
                extra = [rng.sample("abcde", rng.randint(1, 4)) for _ in range(rng.randint(0, 4))]
                yield dict(kind="real", miner=name, methods=ms, form=form, extra=extra, apart=rng.random() < 0.5,
                           prints=name == "slim" and rng.random() < 0.5)


def nontrivial(case, events):
    return any(e["ev"] == "Call" and e["ran"] for e in events) or case["kind"] == "real"


ROUNDS = 3
