"""Driver of the graph miner: builds graphs, code tables, covers, merges and fits, and records them as numbers."""
import random
import signal
import time
from collections import Counter


class Hang(BaseException):
    pass


def limit(seconds):
    """Interrupt the code under test after that much processor time."""
    def h(*_):
        raise Hang()
    signal.signal(signal.SIGVTALRM, h)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def unlimit():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def exc_of(ex):
    return "Timeout" if isinstance(ex, Hang) else type(ex).__name__


# names: vertex labels are numbered 1.., edge labels 1..; styles give them different spellings
INNER = ["A", "AB", "B", "BAB", "ABA", "ABAB", "AA", "BB", "BA", "BBA", "AAB", "AAA", "BBB"]


def vname(style, a):
    if style == "digits":
        return str(a)
    if style == "pats":
        return "P%d" % (a - 1)
    if style == "same":
        return "xyzwuvrstqpnm"[a - 1]
    return INNER[a - 1] if style == "inner" else "ABCDEFGHIJKLM"[a - 1]


def ename(style, a):
    if style == "digits":
        return str(a + 20)
    return ["x", "xy", "y", "yx", "xyx", "A", "yy", "xx"][a - 1] if style == "inner" else "xyzwuvrs"[a - 1]


def build(j, case, pattern=False):
    """networkx graph of [n, lab, edges]"""
    import networkx as nx
    style = case.get("style", "plain")
    multi = case.get("multi", False)
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    name = (lambda v: v) if pattern else namer(case)
    order = list(range(1, j["n"] + 1))
    if not pattern and case.get("shuffle"):
        random.Random(case["shuffle"]).shuffle(order)
    for v in order:
        L = [vname(style, a) for a in j["lab"][v - 1]]
        if not L:
            g.add_node(name(v))
        elif len(L) == 1 and not (case.get("onetuple") and not pattern):
            g.add_node(name(v), label=L[0])
        else:
            g.add_node(name(v), label=tuple(L))
    E = list(j["edges"])
    if not pattern and case.get("shuffle"):
        random.Random(case["shuffle"] + 1).shuffle(E)
    for i, (u, v, a) in enumerate(E):
        if multi and case.get("keys") and not pattern:
            g.add_edge(name(u), name(v), key="k%d" % i, label=ename(style, a))
        else:
            g.add_edge(name(u), name(v), label=ename(style, a))
    return g


def namer(case):
    k = case.get("names", "int")
    if k == "str":
        return lambda v: "n%d" % v
    if k == "alike":  # 1, "1", 2, "2", ...: different vertices that print alike
        return lambda v: (v + 1) // 2 if v % 2 else str(v // 2)
    if k == "shift":
        return lambda v: v * 7 + 30
    return lambda v: v


def nums(labels, f):
    rev = {}
    for a in range(1, 14):
        try:
            rev[f(a)] = a
        except IndexError:
            break
    if labels is None:
        return []
    if isinstance(labels, str):
        labels = (labels,)
    return [rev[x] for x in labels]


def to_json(p, case):
    """[n, lab, edges] of a networkx pattern, and the order of its vertices"""
    style = case.get("style", "plain")
    order = sorted(p.nodes())
    pos = {v: i + 1 for i, v in enumerate(order)}
    lab = [nums(p.nodes[v].get("label"), lambda a: vname(style, a)) for v in order]
    edges = [[pos[u], pos[v], nums(d["label"], lambda a: ename(style, a))[0]] for u, v, d in p.edges(data=True)]
    return dict(n=len(order), lab=lab, edges=edges), pos


def units(x):
    x = float(x)
    if x != x or abs(x) > 30000:
        return 2000000000
    return int(round(x * 65536))


def read_cover(ct, gj, case):
    """everything a cover reports"""
    style = case.get("style", "plain")
    name = namer(case)
    data = {name(v): v for v in range(1, gj["n"] + 1)}
    bylabel = {str(k): v for k, v in data.items()}
    rows = []
    for r in ct.rows():
        pj, pos = to_json(r.pattern(), case)
        used = []
        for emb, ports in r.used_embeddings():
            m = [0] * pj["n"]
            for d, q in emb.items():
                m[pos[q] - 1] = data[d]
            used.append(dict(m=m, ports=[pos[q] for _, q in ports]))
        rows.append(dict(p=pj, usage=int(r.pattern_usage()), used=used,
                         pu=[[pos[q], int(n)] for q, n in r.pattern_port_usage().items()], len=0, pos=pos))
    rw = ct.rewritten_graph()
    els, nports, degrees = [], 0, []
    for v, d in rw.nodes(data=True):
        if "is_Pattern" not in d:
            nports += 1
            degrees.append(len(rw.in_edges(v)))
            continue
        if "is_singleton" in d:
            # a label used for vertices and edges: edge singletons have two ports (one for a loop, whose port is the second)
            out = [e[2]["label"] for e in rw.out_edges(v, data=True)]
            edge = len(out) == 2 or out == ["v2"]
            kind = "E" if edge else "V"
            i = nums(d["label"], (lambda a: ename(style, a)) if edge else (lambda a: vname(style, a)))[0]
        else:
            kind, i = "P", int(d["label"][1:]) + 1
        ports = []
        for _, q, a in rw.out_edges(v, data=True):
            k = int(a["label"][1:])
            if kind == "P" and 0 < i <= len(rows):
                k = rows[i - 1]["pos"][k]
            # the port knows its vertex; otherwise its label names it
            ports.append([data[rw.nodes[q]["data_node"]] if "data_node" in rw.nodes[q] else bylabel[rw.nodes[q]["label"]], k])
        els.append(dict(kind=kind, id=i, ports=ports))
    for r in rows:
        del r["pos"]
    if hasattr(ct, "_vertex_singleton_usage") and hasattr(ct, "_edge_singleton_usage"):
        sv = [[nums(a, lambda b: vname(style, b))[0], int(n)] for a, n in ct._vertex_singleton_usage.items() if n]
        se = [[nums(a, lambda b: ename(style, b))[0], int(n)] for a, n in ct._edge_singleton_usage.items() if n]
    else:  # not kept under these names: those of the rewritten graph
        sv, se = ([[a, n] for a, n in sorted(Counter(x["id"] for x in els if x["kind"] == k).items())] for k in "VE")
    return dict(g=gj, rows=rows, rw=els, nports=nports, degrees=degrees, sv=sv, se=se, listed=[data[v] for v in ct.data_port()])


def table_of(m):
    """the code table of a fitted miner"""
    from skmine.graph.graphmdl.code_table import CodeTable
    return next(x for x in vars(m).values() if isinstance(x, CodeTable))


def blank_cover(gj):
    return dict(g=gj, rows=[], rw=[], nports=0, degrees=[], sv=[], se=[], listed=[])


def name_of(x, f):
    """number of a label, 0 when it is none"""
    try:
        return nums(x, f)[0]
    except KeyError:
        return 0


def read_display(ct, case):
    """the table as displayed: rows of patterns [usage, code, [ports]], rows of singletons [vertex label, edge label, usage, code]"""
    style = case.get("style", "plain")
    pats, singles = [], []
    for row in ct.display_ct().values.tolist():
        if isinstance(row[4], dict):
            pats.append(dict(usage=int(row[1]), code=units(row[2]), n=int(row[3]), pu=sorted(int(n) for n in row[4].values()),
                             ports=[[int(row[4][q]), units(c)] for q, c in row[5].items()]))
        else:
            singles.append([name_of(row[0], lambda a: vname(style, a)), name_of(row[0], lambda a: ename(style, a)), int(row[1]), units(row[2])])
    return dict(pats=pats, singles=singles)


def read_lengths(ct, cov, case):
    e = dict(cov, ev="Lengths", exc="", ct_len=0, rw_len=0, len=0, shown=dict(pats=[], singles=[]))
    try:
        limit(20)
        e["len"] = units(ct.compute_total_description_length())
        e["ct_len"] = units(ct.description_length())
        e["rw_len"] = units(ct.compute_rewritten_graph_description())
        e["rows"] = [dict(x, len=units(r.description_length())) for x, r in zip(cov["rows"], ct.rows())]
        e["shown"] = read_display(ct, case)
    except (Exception, Hang) as ex:
        e["exc"] = exc_of(ex)
    finally:
        unlimit()
    return e


class Clock:
    """Replaces the clocks of the time module while the miner runs: every reading is one second later."""

    def __enter__(self):
        self.t = 0
        self.old = time.time, time.monotonic, time.perf_counter

        def tick():
            self.t += 1
            return float(self.t)
        time.time = time.monotonic = time.perf_counter = tick
        return self

    def __exit__(self, *a):
        time.time, time.monotonic, time.perf_counter = self.old


# ---------------------------------------------------------------- generation
def rand_graph(r, n, nv, ne, p, multi=False, loops=0.1, maxlab=3):
    lab = []
    for _ in range(n):
        k = min(r.choice([0, 1, 1, 2, 3]), maxlab, nv)
        lab.append(r.sample(range(1, nv + 1), k))
    edges = []
    for u in range(1, n + 1):
        for v in range(1, n + 1):
            if u == v and r.random() > loops:
                continue
            if r.random() < p:
                k = r.randint(1, ne) if multi else 1
                for a in r.sample(range(1, ne + 1), k):
                    edges.append([u, v, a])
    return dict(n=n, lab=lab, edges=edges)


def blocks(r, copies, motif, glue=0.5, nv=2, ne=2):
    """several copies of a motif, some sharing vertices: graphs in which patterns pay"""
    lab, edges = [], []
    n = 0
    for _ in range(copies):
        base = []
        for v in range(motif["n"]):
            if n and r.random() < glue / motif["n"]:
                w = r.randint(1, n)
                if w in base:
                    n += 1
                    lab.append([])
                    w = n
            else:
                n += 1
                lab.append([])
                w = n
            base.append(w)
            lab[w - 1] = sorted(set(lab[w - 1]) | set(motif["lab"][v]))
        for u, v, a in motif["edges"]:
            if r.random() < 0.93:
                edges.append((base[u - 1], base[v - 1], a))
    seen, out = set(), []
    for u, v, a in edges:
        if (u, v) not in seen:
            seen.add((u, v))
            out.append([u, v, a])
    return dict(n=n, lab=lab, edges=out)


def rand_motif(r, nv=2, ne=2, kmax=4):
    k = r.randint(1, kmax)
    lab = [r.sample(range(1, nv + 1), min(r.choice([0, 1, 1, 2]), nv)) for _ in range(k)]
    edges = []
    for v in range(2, k + 1):
        u = r.randint(1, v - 1)
        edges.append([u, v, r.randint(1, ne)] if r.random() < 0.5 else [v, u, r.randint(1, ne)])
    if k > 1 and r.random() < 0.4:
        u, v = r.sample(range(1, k + 1), 2)
        if [u, v] not in [[a, b] for a, b, _ in edges]:
            edges.append([u, v, r.randint(1, ne)])
    if k == 1 and not lab[0]:
        lab[0] = [1]
    return dict(n=k, lab=lab, edges=edges)


def rand_pattern(r, gj, multi=False):
    """a connected pattern taken from the graph, sometimes altered"""
    seed = [x for x in range(1, gj["n"] + 1)]
    v = r.choice(seed)
    E = [e for e in gj["edges"] if v in e[:2]]
    k = r.choice([0, 1, 1, 2, 2, 3])
    chosen, nodes = [], [v]
    for _ in range(k):
        cand = [e for e in gj["edges"] if e not in chosen and (e[0] in nodes or e[1] in nodes)]
        if not cand:
            break
        e = r.choice(cand)
        chosen.append(e)
        for x in e[:2]:
            if x not in nodes:
                nodes.append(x)
    if len(nodes) > 4:
        nodes = nodes[:4]
        chosen = [e for e in chosen if e[0] in nodes and e[1] in nodes]
    r.shuffle(nodes)
    pos = {x: i + 1 for i, x in enumerate(nodes)}
    lab = [[a for a in gj["lab"][x - 1] if r.random() < 0.6] for x in nodes]
    if not chosen and not lab[0]:
        lab[0] = gj["lab"][nodes[0] - 1][:2] or [1]
    if r.random() < 0.05:
        lab[0] = sorted(set(lab[0]) | {2})
    if not chosen:
        lab = lab[:1]
        nodes = nodes[:1]
    # the vertices of a pattern without edges other than the first are dropped
    return dict(n=len(nodes), lab=lab, edges=[[pos[u], pos[w], a] for u, w, a in chosen])
