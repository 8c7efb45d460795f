from slim_drv import *
TRACE = "SlimTrace"
CLAUSES = ALWAYS | {"Singletons", "Alphabet", "Disjoint", "ExactUnion", "CoverOrder", "InsertsCandidate", "KeepsOthers",
                    "PrefitIsStandard", "ReportError", "ReportRows", "ReportUsage", "ReportSorted"}
RULE = ("as P04, with user reports over all option combinations; non-trivial: a multi-item entry in the table")
ROUNDS = 2
DESIGN = {"quick": [("Slim", cfg(3, 2, 2, True, True))],
          "thorough": [("Slim", cfg(3, 2, 3, True, True)), ("Slim", cfg(3, 3, 2, True, False))]}
TIMEOUT = 300


def cases(tier, rng, emitted):
    q = tier == "quick"
    yield from replayed(emitted.get("Slim", []), rng, 300 if q else 5000)
    for i in range(350 if q else 4000):
        yield history(rng, big=i % 5 == 0, w=("update", "evaluate", "report", "report", "report"))
    for i in range(40 if q else 400):
        yield history(rng, w=("update", "report", "report"), shape="tall" if i % 4 else "wide")
    for i in range(40 if q else 400):
        yield history(rng, w=("update", "report", "report"), shape="core")
    for i in range(120 if q else 1200):
        yield history(rng, w=("update", "report", "report"), shape="mesh")
    for k in COUNTS * (2 if q else 10):
        c = counted(rng, k)
        c["steps"].append(rand_report(rng))
        yield c
