"""Shared pieces of the periodic pattern drivers: logs, trees, conversions."""
import math
import warnings

warnings.filterwarnings("ignore")


# ------------------------------------------------------------- trees: {"r":0,"ev":e} or {"r","p","ch":[{"d","n"}]}
def leaf(e):
    return dict(r=0, ev=e)


def cyc(e, r, p):
    return dict(r=r, p=p, ch=[dict(d=0, n=leaf(e))])


def nb(t):
    return 1 if t["r"] == 0 else t["r"] * sum(nb(c["n"]) for c in t["ch"])


def to_nodes(t):
    """A tree as the dictionary of nodes the code uses, the root first, numbered in depth first order."""
    nodes = {}
    cnt = [0]

    def rec(x, parent):
        i = cnt[0]
        cnt[0] += 1
        if x["r"] == 0:
            nodes[i] = {"event": x["ev"], "parent": parent}
        else:
            nodes[i] = {"p": x["p"], "r": x["r"], "children": [], "parent": parent}
            nodes[i]["children"] = [(rec(c["n"], i), c["d"]) for c in x["ch"]]
        return i
    rec(t, None)
    return nodes


def from_nodes(nodes, nid=0):
    n = nodes[nid]
    if "children" not in n:
        return dict(r=0, ev=int(n["event"]))
    return dict(r=int(n["r"]), p=int(n["p"]), ch=[dict(d=int(d), n=from_nodes(nodes, k)) for k, d in n["children"]])


def rand_tree(rng, depth, maxocc, evs=(1, 2, 3)):
    for _ in range(200):
        t = _rt(rng, depth, evs)
        if t["r"] and nb(t) <= maxocc:
            return t
    return cyc(rng.choice(evs), 3, rng.randrange(1, 9))


def _rt(rng, depth, evs):
    if depth == 0:
        return leaf(rng.choice(evs))
    k = rng.choice([1, 1, 2, 2, 3])
    ch = []
    for j in range(k):
        ch.append(dict(d=0 if j == 0 else rng.choice([0, 1, 2, 3, 7, 11]), n=_rt(rng, rng.choice([0, depth - 1]), evs)))
    if rng.random() < .35 and k > 1:
        r, p = rng.randrange(2, 4), rng.randrange(1, 9)
        for c in ch:
            c["n"] = dict(r=r, p=p, ch=[dict(d=0, n=leaf(rng.choice(evs)))])
    return dict(r=rng.choice([1, 2, 2, 2, 3, 3, 4]), p=rng.choice([1, 2, 5, 8, 13, 30]), ch=ch)


def expand(t, t0, E):
    """Reference expansion, used only to generate inputs (the judge is PatternCore.tla)."""
    out = []

    def rec(n, start):
        if n["r"] == 0:
            x = start + E[len(out)]
            out.append((x, n["ev"]))
            return x
        first = None
        s = start
        for _ in range(n["r"]):
            a = None
            prev = s
            for j, c in enumerate(n["ch"]):
                f = rec(c["n"], prev if j == 0 else prev + c["d"])
                prev = f
                if j == 0:
                    a = f
            if first is None:
                first = a
            s = a + n["p"]
        return first
    rec(t, t0)
    return out


def factor_paths(t, path=()):
    if t["r"] == 0:
        return []
    out = []
    for j, c in enumerate(t["ch"]):
        out += factor_paths(c["n"], path + (j,))
    ch = [c["n"] for c in t["ch"]]
    if len(ch) > 1 and all(x["r"] and len(x["ch"]) == 1 for x in ch) and len({(x["r"], x["p"]) for x in ch}) == 1:
        out.append(path)
    return out


def apply_factor(t, path):
    n = t
    for j in path:
        n = n["ch"][j]["n"]
    b = n["ch"]
    n["ch"] = [dict(d=0, n=dict(r=b[0]["n"]["r"], p=b[0]["n"]["p"], ch=[dict(d=c["d"], n=c["n"]["ch"][0]["n"]) for c in b]))]


# ------------------------------------------------------------- logs
def rand_log(rng, big=False):
    """A list of (time, event number) pairs, small non-negative integer times."""
    style = rng.random()
    ne = rng.choice([1, 1, 2, 3])
    evs = []
    if style < .2:
        n = rng.choice([2, 3, 5, 8, 12, 20])
        evs = [(rng.randrange(0, rng.choice([10, 40, 200])), rng.randrange(ne)) for _ in range(n)]
    elif style < .3:  # nested cycles
        ps = rng.choice([[2, 15, 90], [3, 20, 120], [5, 60, 400], [1, 30, 300], [4, 50, 400], [5, 60, 400]])
        rs = [rng.choice([3, 3, 4]) for _ in range(3)]
        ne = min(ne, 2)
        pos = [(0, 0)] + [(rng.randrange(0, 6), e) for e in range(1, ne)]
        for i in range(rs[2]):
            for j in range(rs[1]):
                for k in range(rs[0]):
                    for d, e in pos:
                        evs.append((i * ps[2] + j * ps[1] + k * ps[0] + d, e))
        if rng.random() < .5:
            evs = [(t + (rng.choice([-1, 1]) if rng.random() < .03 else 0), e) for t, e in evs]
    elif style < .6:
        for _ in range(rng.choice([1, 2, 3])):
            t0, p, r = rng.randrange(0, 50), rng.randrange(1, 30), rng.randrange(3, 12)
            block = [(rng.randrange(0, p + 3), rng.randrange(ne)) for _ in range(rng.choice([1, 1, 2, 3]))]
            for i in range(r):
                for d, e in block:
                    evs.append((t0 + i * p + d + rng.choice([0, 0, 0, 0, 0, 1, -1]), e))
        for _ in range(rng.choice([0, 0, 2, 5])):
            evs.append((rng.randrange(0, 200), rng.randrange(ne)))
    else:
        R, P = rng.randrange(3, 7), rng.choice([40, 60, 100])
        off, blocks = 0, []
        for e in range(rng.choice([1, 2, 3, 3])):
            off += rng.choice([0, 1, 2, 5, 10])
            blocks.append((e, off, rng.randrange(3, 6), rng.choice([2, 3, 5])) if rng.random() < .45 else (e, off, 1, 0))
        rng.shuffle(blocks)
        noise = rng.choice([0, 0, .05, .15])
        late = {e: rng.choice([0, 0, 1, 2]) if R > 4 else 0 for e, _, _, _ in blocks}  # an event may begin later than the others
        if rng.random() < .6:
            late = {}
        for i in range(R):
            for e, o, r, p in blocks:
                if i < late.get(e, 0):
                    continue
                for k in range(r):
                    t = i * P + o + k * p + (rng.choice([-1, 1]) if rng.random() < noise else 0)
                    if rng.random() >= noise / 3:
                        evs.append((t, e))
    lo = min(t for t, _ in evs)
    evs = [(t - min(lo, 0), e) for t, e in evs]
    if rng.random() < .3:
        evs += rng.sample(evs, min(len(evs), rng.choice([1, 2, 5])))  # duplicates
    if rng.random() < .7:
        evs.sort()
    else:
        rng.shuffle(evs)
    if len(evs) < 2:
        evs += [(t + 3, e) for t, e in evs]
    return [list(x) for x in evs]


# ------------------------------------------------------------- histories of a miner
UNITS = dict(ns=1, us=10 ** 3, ms=10 ** 6, s=10 ** 9, min=60 * 10 ** 9, h=3600 * 10 ** 9, D=86400 * 10 ** 9)
BAD = 10 ** 8  # a time or duration that is not a multiple of the unit of the case


def preload():
    import json, numpy, pandas, graphviz, sklearn  # noqa
    import skmine.periodic  # noqa


class View:
    """Conversion between the times of a case (small integers) and those of the log given to the miner."""

    def __init__(self, case):
        self.case = case
        self.dt = case["idx"] == "dt"
        self.unit = case["mul"] if not self.dt else case["mul"] * UNITS[case["unit"]]
        self.base = case["base"]
        self.names = case["names"]
        # the grain in which traces are written: periods may be fractions of the unit of the case
        auto = all(q["auto_time_scale"] for q in [case["params"]] + [a["params"] for a in case["acts"] if "params" in a])
        g = min(self.grain(log) for log in case["logs"]) if auto else 1
        g = math.gcd(g, self.unit)
        self.exact = self.unit // g <= 1000
        if not self.exact:
            g = self.unit // math.gcd(self.unit, 1000)
        self.mult = self.unit // g
        self.given, self.unit = self.unit, g
        self.off = 0  # durations met that are not a multiple of the grain

    def grain(self, log):
        ts = [self.base + t * self.unit for t, _ in log]
        n = 0
        while n < 9 and all(x % 10 ** (n + 1) == 0 for x in ts):
            n += 1
        for d in (86400, 3600, 60):
            if n == 9 and all(x % (d * 10 ** 9) == 0 for x in ts):
                return d * 10 ** 9
        return 10 ** n

    def log(self, log):
        return sorted([t * self.mult, e] for t, e in {tuple(x) for x in log})

    def series(self, log):
        import numpy as np
        import pandas as pd
        ts = [self.base + t * self.given for t, _ in log]
        if self.dt:
            idx = pd.DatetimeIndex(np.array(ts, dtype="int64").astype("datetime64[ns]"))
            if self.case.get("res"):
                idx = idx.as_unit(self.case["res"])
        elif self.case.get("range") and len(ts) > 1 and len({b - a for a, b in zip(ts, ts[1:])}) == 1 and ts[1] > ts[0]:
            idx = pd.RangeIndex(ts[0], ts[-1] + 1, ts[1] - ts[0])
        else:
            idx = pd.Index(np.array(ts, dtype=self.case.get("dtype", "int64")))
        return pd.Series([self.names[e] for _, e in log], index=idx, name="ev")

    def t(self, x):
        import pandas as pd
        if self.dt:
            if not isinstance(x, pd.Timestamp):
                return BAD
            v = x.value
        else:
            if isinstance(x, (pd.Timestamp, float)):
                return BAD
            v = int(x)
        q, r = divmod(v - self.base, self.unit)
        return q if r == 0 and abs(q) < BAD else BAD

    def d(self, x):
        """a duration"""
        import pandas as pd
        if self.dt:
            if isinstance(x, (int, float)) and not x:
                return 0  # the sum of no corrections
            if not isinstance(x, pd.Timedelta):
                try:
                    x = pd.Timedelta(x)
                except Exception:
                    return BAD
            v = x.value
        else:
            if isinstance(x, (pd.Timedelta, float)):
                return BAD
            v = int(x)
        q, r = divmod(v, self.unit)
        if r and not self.exact:
            self.off += 1
        return q if r == 0 and abs(q) < BAD else BAD

    def ev(self, x):
        try:
            return self.names.index(x) if type(x).__name__ != "bool" else 99
        except ValueError:
            return 99

    def pairs(self, df):
        return [[self.t(t), self.ev(e)] for t, e in zip(df["time"], df["event"])]

    def dtext(self, s):
        import re
        import pandas as pd
        if not self.dt:
            return self.d(int(s)) if re.fullmatch(r"-?\d+", s) else BAD
        m = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{6}))?", s)
        if not m:
            return BAD
        g = [int(x or 0) for x in m.groups()]
        return self.d(pd.Timedelta(days=g[0], hours=g[1], minutes=g[2], seconds=g[3], microseconds=g[4]))

    def tree(self, s):
        """(ev [d=1] (ev)[r=2 p=3])[r=4 p=5]"""
        import re
        names = {str(n): i for i, n in enumerate(self.names)}

        def node(i):
            if s[i] == "(":
                ch, d = [], 0
                i += 1
                while True:
                    n, i = node(i)
                    ch.append(dict(d=d, n=n))
                    m = re.compile(r"\s*\[d=([^\]]*)\]\s*").match(s, i)
                    if not m:
                        break
                    d = self.dtext(m.group(1))
                    i = m.end()
                m = re.compile(r"\)\[r=(\d+) p=([^\]]*)\]").match(s, i)
                if not m:
                    raise ValueError(s)
                return dict(r=int(m.group(1)), p=self.dtext(m.group(2)), ch=ch), m.end()
            for n in sorted(names, key=len, reverse=True):
                if s.startswith(n, i) and re.compile(r"\s*\[d=|\)\[r=").match(s, i + len(n)):
                    return dict(r=0, ev=names[n]), i + len(n)
            m = re.compile(r"[^\s\[\]()]+").match(s, i)
            if not m:
                raise ValueError(s)
            return dict(r=0, ev=99), m.end()
        n, i = node(0)
        if i != len(s):
            raise ValueError(s)
        return n

    def text_ok(self):
        return not self.dt or self.unit % 1000 == 0


NOTREE = dict(r=1, p=0, ch=[dict(d=0, n=dict(r=0, ev=99))])


def rows(V, df, summed):
    out = []
    for i, (pid, r) in enumerate(df.iterrows()):
        try:
            tree = V.tree(r["pattern"]) if V.text_ok() else NOTREE
        except ValueError:
            tree = NOTREE
        out.append(dict(id=int(pid), t0=V.t(r["t0"]), tree=tree, E=[] if summed else [V.d(x) for x in r["E"]],
                        sumE=V.d(r["sum_E"]) if summed else 0, rmaj=int(r["repetition_major"]), pmaj=V.d(r["period_major"])))
    return out


def dot_tree(V, src):
    """The tree shown by a drawing."""
    import re
    import pandas as pd
    lab, kids, dist = {}, {}, {}
    for m in re.finditer(r'^\t(\d+) \[label=("(?:[^"\\]|\\.)*"|[^\s\]"]+)', src, re.M):
        lab[int(m.group(1))] = m.group(2).strip('"')
    for m in re.finditer(r'^\t(\d+) -> (\d+) \[([^\]]*)\]', src, re.M):
        a, b, att = int(m.group(1)), int(m.group(2)), m.group(3)
        if "dotted" in att:
            dist[b] = re.search(r'label=("[^"]*"|\S+)', att).group(1).strip('"')
        else:
            kids.setdefault(a, []).append(b)
    names = {str(n): i for i, n in enumerate(V.names)}
    t0 = [None]

    def node(i):
        m = re.search(r"(?:^|\s|n)p=(.*?)(?:\n|\\n)r=(\d+)", lab[i], re.S)
        if m and i in kids:
            s = re.match(r"𝜏=(.*?)(?:\n|\\n)p=", lab[i], re.S)
            if s:
                t0[0] = V.t(pd.Timestamp(s.group(1)) if V.dt else int(s.group(1)))
            return dict(r=int(m.group(2)), p=V.dtext(m.group(1)),
                        ch=[dict(d=V.dtext(dist[k]) if k in dist else 0, n=node(k)) for k in kids[i]])
        return dict(r=0, ev=names.get(lab[i], 99))
    return node(0), t0[0]


def bits(x):
    import math
    x = float(x)
    return round(x * 65536) if math.isfinite(x) and abs(x) < 32000 else -999


def cost_event(m, V, nlog):
    ds = m.data_details_
    dd = ds.getDetails()
    dt = int(dd["deltaT"])
    if dt > 10 ** 9 or nlog * (math.log2(dt + 1) + math.log2(nlog + 1)) > 30000:
        return None  # beyond the integers of the specification
    num = {k: V.ev(v) for k, v in ds.getNumToEv().items()}

    def ren(t):
        return dict(r=0, ev=num.get(t["ev"], 99)) if t["r"] == 0 else dict(r=t["r"], p=t["p"], ch=[dict(d=c["d"], n=ren(c["n"])) for c in t["ch"]])
    e = dict(ev="Cost", dt=dt, pats=[], patterns=0, residuals=0, total=0, only=0, coll=0, ratio=0, nres=0, npat=0, exc="")
    try:
        for P, t0, E in m.miners_.getPatterns():
            cl = bits(P.codeLength(t0, E, dd))
            e["pats"].append(dict(tree=ren(from_nodes(P.nodes)), t0=int(t0) - int(dd["t_start"]), E=[int(x) for x in E], cl=cl))
        g, _ = m.miners_.output_detailed(ds)
        e["patterns"], e["residuals"] = bits(g["Code length patterns"]), bits(g["Code length residuals"])
        e["nres"], e["npat"] = int(g["Total residual nb"]), int(g["Total patterns nb"])
        e["coll"] = bits(m.miners_.codeLength(ds))
        e["only"] = bits(ds.codeLengthResiduals())
        e["total"] = bits(g["Code length total"]) if "Code length total" in g else e["coll"]
        if "Total compression ratio" in g:
            e["ratio"] = round(10 * float(g["Total compression ratio"]))
            if e["only"] != bits(g["Code length residuals only"]):
                e["only"] = -999
    except Exception as ex:
        e["exc"] = type(ex).__name__
    return e


def history(case):
    import json
    import os
    import tempfile
    import warnings
    warnings.filterwarnings("ignore")
    import pandas as pd
    from skmine.periodic import PeriodicPatternMiner
    V = View(case)
    ev = []
    m = PeriodicPatternMiner(**case["params"])
    npat = 0
    nlog = 0
    S = None

    def singles(mm, who, n):
        for i in range(n):
            e = dict(ev="Single", who=who, id=i, out=[], exc="")
            try:
                e["out"] = V.pairs(mm.reconstruct([i], sort="construction_order", drop_duplicates=False))
            except Exception as ex:
                e["exc"] = type(ex).__name__
            ev.append(e)
    for a in case["acts"]:
        k = a["act"]
        if k == "fit":
            log = case["logs"][a["log"]]
            S = V.series(log)
            keep = S.copy(deep=True)
            e = dict(ev="Fit", log=V.log(log), kept=True, exc="")
            try:
                m.fit(S)
                e["kept"] = bool(S.equals(keep) and S.index.equals(keep.index) and S.index.dtype == keep.index.dtype)
                npat = len(m.miners_)
            except Exception as ex:
                e["exc"] = type(ex).__name__
            ev.append(e)
            if e["exc"]:
                return ev
            nlog = len(e["log"])
            singles(m, 1, npat)
        elif k in ("recon", "resid"):
            ids = a["ids"]
            if ids == "all":
                args, ids = (), [-1]
            else:
                ids = sorted({i % npat for i in ids}) if npat else []
                if a.get("rev"):
                    ids = ids[::-1]
                args = (tuple(ids) if a.get("tuple") else list(ids),)
            kw = dict(sort=a["sort"])
            if k == "recon":
                e = dict(ev="Recon", ids=ids, sort=a["sort"], drop=a["sort"] != "construction_order", out=[], exc="")
                if a["drop"] is not None:
                    kw["drop_duplicates"] = e["drop"] = a["drop"]
            else:
                e = dict(ev="Resid", ids=ids, sort=a["sort"], out=[], exc="")
            try:
                e["out"] = V.pairs(m.reconstruct(*args, **kw) if k == "recon" else m.get_residuals(*args, **kw))
            except Exception as ex:
                e["exc"] = type(ex).__name__
            ev.append(e)
        elif k == "table":
            e = dict(ev="Table", rows=[], chrono=a["chrono"], sum=a["sum"], text=V.text_ok(), exact=True, exc="")
            try:
                V.off = 0
                e["rows"] = rows(V, m.transform(S, dE_sum=a["sum"], chronological_order=a["chrono"]), a["sum"])
                e["text"], e["exact"] = e["text"] and not V.off, not V.off
            except Exception as ex:
                e["exc"] = type(ex).__name__
            ev.append(e)
        elif k == "draw" and npat and V.text_ok():
            e = dict(ev="Draw", tree=NOTREE, t0=0, row=dict(tree=NOTREE, t0=0), exc="")
            try:
                pid = a["id"] % npat
                df = m.transform(S)
                e["row"] = [dict(tree=r["tree"], t0=r["t0"]) for r in rows(V, df, True) if r["id"] == pid][0]
                e["tree"], t0 = dot_tree(V, m.draw_pattern(pid).source)
                e["t0"] = BAD if t0 is None else t0
            except Exception as ex:
                e["exc"] = type(ex).__name__
            ev.append(e)
        elif k == "io":
            fd, path = tempfile.mkstemp(suffix=".json", dir=".")
            os.close(fd)
            e = dict(ev="Io", kept=True, exc="")
            m2 = None
            try:
                before = m.transform(S, dE_sum=False, chronological_order=False)
                m.export_patterns(path)
                e["kept"] = bool(before.equals(m.transform(S, dE_sum=False, chronological_order=False)))
                json.load(open(path))
                if a["to"] == "same":
                    m2 = m
                else:
                    m2 = PeriodicPatternMiner(**a["params"])
                    if a["to"] == "fitted":
                        m2.fit(V.series(case["logs"][a["log"]]))
                        m2.transform(None)
                m2.import_patterns(path)
            except Exception as ex:
                e["exc"] = type(ex).__name__
            finally:
                os.unlink(path)
            ev.append(e)
            if e["exc"]:
                return ev
            ev.append(dict(ev="Count", n=len(m2.miners_)))
            if len(m2.miners_) != npat:
                return ev
            singles(m2, 2, npat)
            try:
                after = m2.transform(S, dE_sum=False, chronological_order=False)
                ok = bool(before.equals(after) and list(before.dtypes) == list(after.dtypes))
            except Exception:
                ok = False
            ev.append(dict(ev="Same", ok=ok))
            m = m2
        elif k == "cost":
            e = cost_event(m, V, nlog)
            if e:
                ev.append(e)
    return ev


SORTS = ["time", "event", "construction_order"]


def view_cfg(rng):
    """How the times of a case appear in the log."""
    if rng.random() < .45:
        k = rng.choice([0, 0, 0, 1, 2, 3, 6, 9, 10])
        mul = 10 ** k * rng.choice([1, 1, 1, 3, 60, 7])
        c = dict(idx="int", mul=mul, base=mul * rng.choice([0, 0, 0, 5, -7, 100]) + rng.choice([0, 0, 0, 0, 3]))
        if k < 3 and rng.random() < .3:
            c["dtype"] = "int32"
        c["range"] = rng.random() < .5
    else:
        u = rng.choice(["ns", "us", "ms", "s", "s", "min", "h", "D", "D"])
        mul = rng.choice([1, 1, 1, 10, 30, 7])
        if u == "D":
            mul = rng.choice([1, 7])
        b = rng.choice([1577836800 * 10 ** 9, 0, -86400 * 10 ** 9, -86400 * 400 * 10 ** 9, 1600000000123456789 // UNITS[u] * UNITS[u], 951782400 * 10 ** 9])
        c = dict(idx="dt", unit=u, mul=mul, base=b + rng.choice([0, 0, UNITS[u]]))
        ok = [r for r in ("s", "ms", "us") if UNITS[u] % UNITS[r] == 0 and c["base"] % UNITS[r] == 0]
        if ok and rng.random() < .3:
            c["res"] = rng.choice(ok)
    return c


def names_cfg(rng, log):
    n = max(e for _, e in log) + 1
    if n > 5:
        return rng.choice([["e%02d" % i for i in range(n)], [chr(65 + i) if i < 26 else chr(71 + i) for i in range(n)], list(range(n)),
                           sorted(str(i) for i in range(n))])
    return rng.choice([["a", "b", "c", "d", "e"], ["A b".replace(" ", "_"), "B-1", "Z", "a", "é"], [3, 7, 11, 20, 30], ["10", "2", "3", "4", "5"],
                       ["A", "AB", "Ab", "a", "ab"], ["a", "a b", "a c", "b", "b a"], [-2, -1, 0, 1, 2], [0.5, 1.0, 1.5, 2.0, 10.0]])[:max(n, 1)]


def params(rng):
    return dict(complex=rng.random() < .65, auto_time_scale=rng.random() < .7)


def mk_case(rng, logs, acts, cfg=None, prm=None):
    mx = [[0, max(e for lg in logs for _, e in lg)]]
    hi = max(t for lg in logs for t, _ in lg)
    c = dict(cfg or view_cfg(rng))
    while c["base"] + hi * c["mul"] * UNITS.get(c.get("unit"), 1) >= (2 ** 31 if c.get("dtype") else 9 * 10 ** 18):
        c = view_cfg(rng)
    c.update(logs=logs, names=names_cfg(rng, mx), params=prm or params(rng), acts=acts)
    return c


def recon_acts(rng, n=4):
    out = [dict(act="recon", ids="all", sort=rng.choice(SORTS), drop=rng.choice([None, True, False])),
           dict(act="resid", ids="all", sort=rng.choice(SORTS))]
    for _ in range(n):
        ids = rng.choice(["all", [], [0], [0, 1], [1], [rng.randrange(0, 9) for _ in range(3)], [rng.randrange(0, 30) for _ in range(12)]])
        if rng.random() < .5:
            out.append(dict(act="recon", ids=ids, sort=rng.choice(SORTS), drop=rng.choice([None, True, False]), rev=rng.random() < .3, tuple=rng.random() < .3))
        else:
            out.append(dict(act="resid", ids=ids, sort=rng.choice(SORTS), rev=rng.random() < .3, tuple=rng.random() < .3))
    return out


def table_acts(rng):
    return [dict(act="table", chrono=rng.random() < .5, sum=False), dict(act="table", chrono=rng.random() < .5, sum=True)]


def long_log(rng, n, span=None):
    """More than two blocks of occurrences of one event (the code then works on overlapping blocks), others beside it."""
    style = rng.choice(["noise", "cycle", "mix"])
    out = []
    if style == "noise":
        out = [[t, 0] for t in rng.sample(range(span or rng.choice([3, 6, 40]) * n), n)]
    else:
        t = 0
        while len(out) < n:
            p = rng.randint(1, 5)
            for _ in range(n if style == "cycle" else rng.choice([3, 5, 9, 30, 120])):
                if len(out) < n:
                    out.append([t + (rng.choice([-1, 1]) if p > 2 and rng.random() < .1 else 0), 0])
                    t += p
            t += rng.randint(0, 9)
    hi = max(t for t, _ in out)
    out += [[rng.randrange(0, hi), 1] for _ in range(rng.choice([0, 0, 5, 30]))]
    lo = min(0, min(t for t, _ in out))
    out = [[t - lo, e] for t, e in out]
    if rng.random() < .3:
        rng.shuffle(out)
    return out


def uneven_log(rng):
    """A frequent event without much regularity, and rare ones."""
    T = rng.choice([150, 400, 1000, 1480])
    n = min(rng.randint(12, 70), T // 3)
    out = [[t, 0] for t in rng.sample(range(T), n)]
    for e in range(1, rng.choice([2, 2, 3])):
        out += [[rng.randrange(T), e] for _ in range(rng.choice([1, 1, 2, 4]))]
    if rng.random() < .5:
        p, t0 = rng.randrange(2, 40), rng.randrange(20)
        out += [[t0 + i * p + rng.choice([0, 0, 0, -1, 1]), rng.choice([0, 0, 1])] for i in range(rng.randint(3, 8))]
    return [x for x in out if 0 <= x[0] <= 1485]


def many_log(rng, n):
    """Several hundred candidates of several events (the code then compares them by slices)."""
    ne = rng.choice([2, 4, 5])
    return [[t, rng.randrange(ne)] for t in sorted(rng.sample(range(rng.choice([3, 4, 6]) * n), n))]


def kinds_log(rng):
    """Many kinds of events, some of them periodic."""
    ne = rng.choice([8, 12, 20, 30])
    T = rng.choice([300, 1200, 40000])
    out = []
    for e in range(ne):
        if rng.random() < .5:
            p, t0 = rng.randrange(2, max(3, T // 12)), rng.randrange(T // 4)
            out += [[t0 + i * p + rng.choice([0, 0, 0, 0, 1, -1]), e] for i in range(rng.randint(3, 12))]
        else:
            out += [[rng.randrange(T), e] for _ in range(rng.choice([1, 1, 2, 5]))]
    lo = min(t for t, _ in out)
    out = [[t - min(lo, 0), e] for t, e in out]
    if rng.random() < .5:
        out.sort()
    return out


def block_log(rng):
    """Blocks of many cycles (alike or not), again and again: trees of many nodes."""
    n, R, P = rng.choice([7, 8, 8, 9]), rng.choice([3, 4]), rng.choice([700, 900])
    alike, out, at = rng.random() < .5, set(), 0
    for e in range(n):
        r, p = (3, 2) if alike else (3 + e % 3, 2 + e)
        out |= {(i * P + at + j * p + (rng.choice([-1, 1]) if rng.random() < .01 else 0), e) for i in range(R) for j in range(r)}
        at += rng.choice([1, 1, 2]) if alike else r * p + rng.choice([1, 3])
    lo = min(t for t, _ in out)
    return [[t - min(lo, 0), e] for t, e in sorted(out)]


def train_log(rng, n):
    """One event, very many times and almost regularly, and others beside it: patterns of hundreds of occurrences."""
    p = rng.randint(3, 60)
    out = [[5 + p * i, 0] for i in range(n)]
    for _ in range(rng.choice([0, 0, 1, 3])):
        out[rng.randrange(n)][0] += rng.choice([-2, -1, 1])
    out += [[rng.randrange(p * n), 1] for _ in range(rng.choice([0, 5]))]
    q = rng.randint(2, n // 20)
    out += [[p * q * i + 5 + rng.choice([0, 0, 0, 1]), 2] for i in range(rng.choice([0, 12]))]
    return out


def pick_log(rng, em, big=60):
    if em and rng.random() < .4:
        lg = [list(x) for x in rng.choice(em)]
        rng.shuffle(lg)
        return lg
    while True:
        lg = rand_log(rng)
        if len(lg) <= big or rng.random() < .1:
            return lg[:140]


PCFG = ("SPECIFICATION Spec\nCONSTANTS Times = {%s}\nNEv = %d\nMinEvents = 2\nMinCov = 3\nMaxPats = %d\nEmitCases = TRUE\n"
        "INVARIANTS Lossless WithinLog Complement NewEach NeverWorse Positive Emit\nCHECK_DEADLOCK FALSE\n")
PDESIGN = {"quick": [("Periodic", PCFG % ("0,1,2,3,4,5,6,7,8", 1, 2)), ("Periodic", PCFG % ("0,1,2,3,4,5", 2, 2)),
                     ("Periodic", PCFG % ("0,7,14,21,28,29,36,50", 1, 2))],
           "thorough": [("Periodic", PCFG % ("0,1,2,3,4,5,6,7,8,9,10", 1, 2)), ("Periodic", PCFG % ("0,1,2,3,4,5,6", 2, 2)),
                        ("Periodic", PCFG % ("0,7,14,21,28,29,36,50,57", 1, 3))]}
