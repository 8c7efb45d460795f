"""Covers of labelled graphs by code tables: true occurrences, every edge once, every label described, lossless."""
from graph_drv import *  # noqa

TRACE = "GraphTrace"
RULE = ("every graph and pattern list of the small scope of Graph.tla, seeded larger graphs and multigraphs with patterns taken from "
        "them, and the tables of fits; non-trivial: a cover that uses at least one pattern and one singleton")
CFG = ("SPECIFICATION Spec\nCONSTANTS N = %d\nLabSets = {%s}\nELs = {%s}\nLoops = %s\nMaxRows = %d\nEmitCases = TRUE\nPool = {%s}\n"
       "INVARIANTS EdgeOnce LabelMarked Greedy PortsExact Lossless OccsExact Emit\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("Graph", CFG % (2, "{}, {1}, {1,2}", "1,2", "TRUE", 1, "1,2,3,4,5,8,9,10,11")),
                    ("Graph", CFG % (3, "{}, {1,2}", "1", "FALSE", 2, "1,3,5,6,7"))],
          "thorough": [("Graph", CFG % (2, "{}, {1}, {1,2}", "1,2", "TRUE", 1, "1,2,3,4,5,8,9,10,11")),
                       ("Graph", CFG % (2, "{}, {1}, {1,2}", "1", "TRUE", 3, "1,2,3,4,5,8,10,11")),
                       ("Graph", CFG % (3, "{}, {1,2}", "1", "FALSE", 2, "1,2,3,4,5,6,7,8,11"))]}
TIMEOUT = 120
CLAUSES = {"NoError", "Ends", "AllOccurrences", "NoRepeat", "Merged", "NoLabelTwice", "RewrittenShape", "TrueOccurrences", "Usage", "PortUsage", "EdgeOnce",
           "EdgeSingletonsTrue", "LabelCovered", "VertexSingletonsTrue", "SingletonUsage", "Greedy", "RewrittenPorts", "Lossless",
           "PortsNamed", "PortsListed", "Unexpected", "OutsideSpec"}
ASSUMPTIONS = ["labels are strings or tuples of strings, every edge carries one string label, no two parallel edges carry the same label",
               "patterns are connected and describe something; one label is given as a string, several as a tuple"]


def preload():
    import networkx, numpy, pandas  # noqa
    import skmine.graph.graphmdl.graph_mdl  # noqa


def cover_event(ct, case, exc=""):
    e = blank_cover(case["g"]) if exc else read_cover(ct, case["g"], case)
    return dict(e, ev="Cover", exc=exc)


def run_case(case):
    from skmine.graph.graphmdl import utils
    from skmine.graph.graphmdl.code_table import CodeTable
    from skmine.graph.graphmdl.code_table_row import CodeTableRow
    from skmine.graph.graphmdl.label_codes import LabelCodes
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    from skmine.graph.graphmdl.candidate import Candidate
    ev = []
    g = build(case["g"], case)
    name = namer(case)
    data = {name(v): v for v in range(1, case["g"]["n"] + 1)}
    if case["kind"] == "table":
        ct = CodeTable(LabelCodes(g), g)
        rows = []
        for q in case["rows"]:
            p = build(q, case, True)
            e = dict(ev="Occs", g=case["g"], p=q, occs=[], exc="")
            try:
                limit(20)
                for m in utils.get_embeddings(p, g):
                    f = [0] * q["n"]
                    for d, v in m.items():
                        f[v - 1] = data[d]
                    e["occs"].append(f)
                rows.append(CodeTableRow(p))
            except (Exception, Hang) as ex:
                e["exc"] = exc_of(ex)
            finally:
                unlimit()
            ev.append(e)
            if e["exc"]:
                return ev
        exc = ""
        # rows are added, removed and added again; the last cover is that of the table as it stands
        for op in case.get("ops", [["add", i] for i in range(len(rows))] + [["cover"]]):
            try:
                limit(20)
                if op[0] == "add":
                    ct.add_row(rows[op[1]])
                elif op[0] == "remove":
                    ct.remove_row(rows[op[1]])
                else:
                    ct.cover()
                    ev.append(cover_event(ct, case))
            except (Exception, Hang) as ex:
                ev.append(cover_event(ct, case, exc_of(ex)))
                return ev
            finally:
                unlimit()
    elif case["kind"] == "merge":
        p, q = build(case["p"], case, True), build(case["q"], case, True)
        e = dict(ev="Merge", p=case["p"], q=case["q"], ports=case["ports"], res=dict(n=0, lab=[], edges=[]), exc="")
        try:
            c = Candidate("P0", "P1", [("v%d" % a, "v%d" % b) for a, b in case["ports"]])
            c.first_pattern, c.second_pattern = p, q
            e["res"] = to_json(c.final_pattern(), case)[0]
        except Exception as ex:
            e["exc"] = exc_of(ex)
        ev.append(e)
    else:
        try:
            limit(60)
            m = GraphMDL().fit(g)
            ev.append(cover_event(table_of(m), case))
        except (Exception, Hang) as ex:
            ev.append(cover_event(None, case, exc_of(ex)))
        finally:
            unlimit()
    return ev


def style_of(r, multi):
    c = {}
    if multi:
        c["multi"] = True
        c["keys"] = r.random() < 0.3
    c["names"] = r.choice(["int", "int", "str", "shift", "alike"])
    c["style"] = r.choice(["plain", "plain", "plain", "digits", "pats", "same", "inner", "inner"])
    if r.random() < 0.4:
        c["shuffle"] = r.randint(1, 999)
    if r.random() < 0.1:
        c["onetuple"] = True
    return c


def is_multi(g):
    return len({(u, v) for u, v, _ in g["edges"]}) < len(g["edges"])


def some_graph(r, big=False):
    multi = r.random() < 0.3
    if r.random() < 0.55 and not multi:
        nv, ne = r.randint(1, 3), r.randint(1, 2)
        g = blocks(r, r.randint(2, 5 if big else 4), rand_motif(r, nv, ne), r.choice([0, 0.3, 0.8]), nv, ne)
    else:
        g = rand_graph(r, r.randint(1, 7 if big else 5), r.randint(1, 4), r.choice([1, 2, 2, 3, 3, 3, 6]), r.choice([0.2, 0.35, 0.5]), multi,
                       r.choice([0, 0, 0.2]))
    if not g["edges"] and not any(g["lab"]):
        g["lab"][0] = [1]
    return g, multi


def many_graph(r, copies=(8, 14)):
    """many copies of a motif over many labels: usages, rows and vertices of two digits"""
    nv, ne = r.randint(2, 12), r.choice([1, 2, 3, 4, 7])
    return blocks(r, r.randint(*copies), rand_motif(r, nv, ne), r.choice([0, 0.3, 0.8]), nv, ne)


def tree_rows(r):
    """a graph made of copies of a tree of ten vertices or more, and that tree: vertices and ports of two digits"""
    k, nv, ne = r.randint(10, 14), r.randint(3, 12), r.randint(1, 3)
    lab = [sorted(r.sample(range(1, nv + 1), r.choice([1, 1, 2]))) for _ in range(k)]
    if r.random() < 0.4:  # a label of nearly all vertices, and one of each
        k, nv = r.randint(12, 16), 13
        lab = [sorted({1} | ({i + 2} if i < 12 else set(r.sample(range(2, 14), 2)))) for i in range(k)]
        for i in r.sample(range(k), r.choice([0, 1, 2])):
            lab[i].remove(1)
    edges = []
    for v in range(2, k + 1):
        u = r.randint(max(1, v - 3), v - 1)
        edges.append([u, v, r.randint(1, ne)] if r.random() < 0.5 else [v, u, r.randint(1, ne)])
    motif = dict(n=k, lab=lab, edges=edges)
    g = blocks(r, r.randint(1, 3), motif, r.choice([0, 1, 2, 3]), nv, ne)
    drop = set(r.sample(range(k), r.choice([0, 0, 2])))
    p = dict(n=k, lab=[[] if i in drop else x for i, x in enumerate(lab)], edges=edges)
    return g, [p]


def big_table(r):
    if r.random() < 0.35:
        g, rows = tree_rows(r)
    else:
        g = many_graph(r)
        rows = []
    for _ in range(r.choice([1, 3, 14])):
        p = rand_pattern(r, g)
        known = {a for x in g["lab"] for a in x}
        if p not in rows and all(set(x) <= known for x in p["lab"]):
            rows.append(p)
    c = dict(kind="table", g=g, rows=rows, ops=rand_ops(r, len(rows)) if len(rows) < 5 else [["add", i] for i in range(len(rows))] + [["cover"]])
    c.update(style_of(r, False))
    return c


def star_table(r):
    """a pattern used very many times, at one vertex or several"""
    n, hubs, ne = r.choice([70, 90, 135, 150]), r.choice([1, 1, 2, 3]), r.randint(1, 5)
    lab = [[1] for _ in range(hubs)]
    edges = []
    for i in range(n):
        lab.append(r.choice([[2], [2], [2], [3], []]))
        edges.append([i % hubs + 1, len(lab), 1 if r.random() < 0.8 else r.randint(1, ne)])
    rows = [dict(n=2, lab=r.choice([[[], [2]], [[1], [2]], [[], []]]), edges=[[1, 2, 1]])]
    if r.random() < 0.4:
        rows.append(dict(n=1, lab=[[2]], edges=[]))
    c = dict(kind="table", g=dict(n=len(lab), lab=lab, edges=edges), rows=rows, ops=[["add", i] for i in range(len(rows))] + [["cover"]])
    c.update(style_of(r, False))
    return c


def rand_ops(r, k):
    ops = []
    inside = []
    for i in range(k):
        ops.append(["add", i])
        inside.append(i)
        if r.random() < 0.5:
            ops.append(["cover"])
        if r.random() < 0.3:
            x = r.choice(inside)
            ops.append(["remove", x])
            if r.random() < 0.5:
                ops.append(["cover"])
            if r.random() < 0.7:
                ops.append(["add", x])
            else:
                inside.remove(x)
    return ops + [["cover"]]


def cases(tier, rng, emitted):
    q = tier == "quick"
    em = emitted.get("Graph", [])
    rng.shuffle(em)
    n = 0
    for x in em:
        c = dict(kind="table", g=x["g"], rows=x["rows"])
        if is_multi(x["g"]) or any(is_multi(p) for p in x["rows"]):
            c["multi"] = True
        elif rng.random() < 0.1:
            c["multi"] = True
        c["style"] = rng.choice(["plain", "plain", "pats", "digits", "inner", "inner"])
        yield c
        n += 1
        if n >= (2500 if q else 20000):
            break
    for _ in range(1200 if q else 12000):
        g, multi = some_graph(rng, not q)
        k = rng.randint(1, 3)
        rows = []
        for _ in range(k):
            p = rand_pattern(rng, g)
            if p not in rows:
                rows.append(p)
        c = dict(kind="table", g=g, rows=rows, ops=rand_ops(rng, len(rows)))
        c.update(style_of(rng, multi or any(is_multi(p) for p in rows)))
        yield c
    for _ in range(120 if q else 1500):
        yield big_table(rng)
    for _ in range(300 if q else 3000):
        p, s = rand_motif(rng, 3, 2), rand_motif(rng, 3, 2)
        m = rng.randint(1, min(p["n"], s["n"]))
        ports = [[a, b] for a, b in zip(rng.sample(range(1, p["n"] + 1), m), rng.sample(range(1, s["n"] + 1), m))]
        # patterns glued on vertices of a simple graph share no edge
        to = {b: a for a, b in ports}
        if any(u in to and v in to and [to[u], to[v]] in [e[:2] for e in p["edges"]] for u, v, _ in s["edges"]):
            continue
        if rng.random() < 0.4:  # vertices with many labels, partly shared
            for x in (p, s):
                x["lab"] = [rng.sample(range(1, 7), rng.randint(0, 5)) for _ in x["lab"]]
        yield dict(kind="merge", g=p, p=p, q=s, ports=ports)
    for _ in range(500 if q else 5000):
        g, multi = some_graph(rng, not q)
        c = dict(kind="fit", g=g)
        c.update(style_of(rng, multi))
        yield c
    for _ in range(20 if q else 200):
        c = dict(kind="fit", g=many_graph(rng, (6, 10)))
        c.update(style_of(rng, False))
        yield c


def nontrivial(case, events):
    for e in events:
        if e["ev"] == "Cover" and any(r["usage"] for r in e["rows"]) and (e["sv"] or e["se"]):
            return True
        if e["ev"] == "Merge":
            return len(case["ports"]) > 1
    return False
