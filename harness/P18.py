"""Graph mining: termination under any time budget, lengths of the description, monotone search."""
from graph_drv import *  # noqa
from P17 import preload, rand_ops, some_graph, style_of, is_multi, big_table, many_graph, star_table  # noqa

TRACE = "GraphTrace"
RULE = ("fits of seeded graphs and multigraphs without a time budget and with a clock that runs out at every point of the search, "
        "and the lengths of seeded tables; non-trivial: a fit that keeps at least one pattern, or a table with a used pattern")
CFG = ("SPECIFICATION Spec\nCONSTANTS Pool = {%s}\nMaxLen = %d\nINVARIANTS Consistent NeverLonger StrictlyShorter BestSeen PruneInTable\n"
       "PROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("GraphSearch", CFG % ("1,2,3", 3))],
          "thorough": [("GraphSearch", CFG % ("1,2,3", 4))]}
TIMEOUT = 150
CLAUSES = {"NoError", "Ends", "DisplayedTable", "TableLength", "GraphLength", "TotalLength", "RowLengths", "NeverLonger", "KeptShortens", "BestKept",
           "InitialLength", "FarBudget", "Reported", "Patterns", "Unexpected", "OutsideSpec"}
ASSUMPTIONS = ["lengths are compared within 400/65536 bit with the formulas of GraphCore.tla, evaluated with a table of logarithms",
               "labels are strings or tuples of strings, every edge carries one string label, no two parallel edges carry the same label"]


FAR = 10 ** 6


def fit_events(case):
    import skmine.graph.graphmdl.code_table as CT
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    g = build(case["g"], case)
    e = dict(blank_cover(case["g"]), ev="Fit", exc="", evals=[], irank=0, rank=0, trank=0, ilen=0, ilen2=0, final=[], npat=0, nrowpat=0,
             patv=[], pate=[], shared=False, free=True)
    evals = []
    keep = []
    orig = CT.CodeTable.compute_total_description_length

    def spy(self, *a, **k):
        v = orig(self, *a, **k)
        keep.append([r.pattern() for r in self.rows()])
        evals.append(([id(p) for p in keep[-1]], v))
        return v
    CT.CodeTable.compute_total_description_length = spy
    m = GraphMDL()
    try:
        limit(case.get("cpu", 40))
        if case.get("clock") is not None:
            with Clock():
                m.fit(g, timeout=case["clock"])
        elif "timeout" in case:
            m.fit(g, timeout=case["timeout"])
        else:
            m.fit(g)
    except (Exception, Hang) as ex:
        e["exc"] = exc_of(ex)
    finally:
        unlimit()
        CT.CodeTable.compute_total_description_length = orig
    if e["exc"]:
        return [e]
    if case.get("timeout") == FAR:
        # a budget that never runs out changes nothing
        other = GraphMDL()
        try:
            limit(case.get("cpu", 40))
            other.fit(build(case["g"], case))
            e["free"] = bool(other.description_length() == m.description_length() and len(other.patterns()) == len(m.patterns()))
        except (Exception, Hang) as ex:
            e["exc"] = exc_of(ex)
            return [e]
        finally:
            unlimit()
    ct = table_of(m)
    cov = read_cover(ct, case["g"], case)
    L = read_lengths(ct, cov, case)
    total = float(ct.compute_total_description_length())
    final, initial = float(m.description_length()), float(m.initial_description_length())
    vals = sorted({v for _, v in evals} | {final, initial, total})
    rank = {v: i for i, v in enumerate(vals)}
    ids = {}
    num = lambda i: ids.setdefault(i, len(ids) + 1)
    e.update(cov)
    e["evals"] = [dict(rows=[num(i) for i in rows], rank=rank[v]) for rows, v in evals]
    e["final"] = [num(id(r.pattern())) for r in ct.rows()]
    e["irank"], e["rank"], e["trank"] = rank[initial], rank[final], rank[total]
    # the length of the table of singletons of the same graph
    from skmine.graph.graphmdl.label_codes import LabelCodes
    g2 = build(case["g"], case)
    ct0 = CT.CodeTable(LabelCodes(g2), g2)
    ct0.cover()
    e["ilen"], e["ilen2"] = units(initial), units(ct0.compute_total_description_length())
    L0 = read_lengths(ct0, read_cover(ct0, case["g"], case), case)
    style = case.get("style", "plain")
    pats = list(m.patterns())
    rows = {id(r.pattern()) for r in ct.rows()}
    single = [p for p in pats if id(p) not in rows]
    e["npat"], e["nrowpat"] = len(pats), len(pats) - len(single)
    e["patv"] = [nums(p.nodes[1]["label"], lambda a: vname(style, a))[0] for p in single if len(p.nodes()) == 1]
    e["pate"] = [nums(d["label"], lambda a: ename(style, a))[0] for p in single for _, _, d in p.edges(data=True)]
    return [e, L, L0]


def run_case(case):
    from skmine.graph.graphmdl.code_table import CodeTable
    from skmine.graph.graphmdl.code_table_row import CodeTableRow
    from skmine.graph.graphmdl.label_codes import LabelCodes
    if case["kind"] == "fit":
        return fit_events(case)
    g = build(case["g"], case)
    ev = []
    try:
        limit(20)
        ct = CodeTable(LabelCodes(g), g)
        rows = [CodeTableRow(build(q, case, True)) for q in case["rows"]]
        for op in case["ops"]:
            if op[0] == "add":
                ct.add_row(rows[op[1]])
            elif op[0] == "remove":
                ct.remove_row(rows[op[1]])
            else:
                ct.cover()
                ev.append(read_lengths(ct, read_cover(ct, case["g"], case), case))
                limit(20)
    except (Exception, Hang) as ex:
        ev.append(dict(blank_cover(case["g"]), ev="Lengths", exc=exc_of(ex), ct_len=0, rw_len=0, len=0))
    finally:
        unlimit()
    return ev


def cases(tier, rng, emitted):
    q = tier == "quick"
    for _ in range(700 if q else 6000):
        g, multi = some_graph(rng, not q)
        c = dict(kind="fit", g=g)
        c.update(style_of(rng, multi))
        yield c
        x = rng.random()
        if x < 0.25:
            # the budget runs out at a point of the search
            for t in rng.sample(range(1, 60), 3 if q else 8):
                yield dict(c, clock=t)
        elif x < 0.32:
            yield dict(c, timeout=rng.choice([0, 1e-9, 0.001, 30, FAR, FAR]))
    for _ in range(8 if q else 40):
        g, multi = some_graph(rng, True)
        for t in range(1, 40 if q else 120):
            yield dict(kind="fit", g=g, clock=t, multi=multi)
    from graph_drv import rand_pattern
    for _ in range(500 if q else 4000):
        g, multi = some_graph(rng, not q)
        rows = []
        for _ in range(rng.randint(1, 3)):
            p = rand_pattern(rng, g)
            if p not in rows and all(set(x) <= {a for y in g["lab"] for a in y} for x in p["lab"]):
                rows.append(p)
        c = dict(kind="table", g=g, rows=rows, ops=rand_ops(rng, len(rows)))
        c.update(style_of(rng, multi or any(is_multi(p) for p in rows)))
        yield c
    for _ in range(100 if q else 1000):
        yield big_table(rng)
    for _ in range(16 if q else 160):
        yield star_table(rng)
    for _ in range(20 if q else 200):
        c = dict(kind="fit", g=many_graph(rng, (6, 10)))
        c.update(style_of(rng, False))
        yield c


def nontrivial(case, events):
    return any(any(r["usage"] for r in e.get("rows", [])) for e in events)


ROUNDS = 2
