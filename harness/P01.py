from itemset_drv import *
import itemset_drv as d
TRACE = "ItemsetTrace"
RULE = ("databases: every one of the small scope of LCM.tla (emitted by TLC) plus seeded random ones over containers, item types, "
        "duplicates, empty transactions, absolute/relative thresholds and boundary thresholds; non-trivial: >= 2 itemsets returned")
ROUNDS = 3
DESIGN = {"quick": [("LCM", cfg(3, 3, [1, 2, 3]))], "thorough": [("LCM", cfg(3, 4, [1, 2, 3, 4])), ("LCM", cfg(4, 3, [1, 2, 3]))]}
TIMEOUT = 120


def cases(tier, rng, emitted):
    q = tier == "quick"
    yield from replayed(emitted.get("LCM", []), "closed", limit=None if not q else 1000, rng=rng)
    for pair in d.BOUNDARY:
        yield boundary_case(rng, "closed", pair)
    for i in range(500 if q else 6000):
        yield generic_case(rng, "closed", big=i % 4 == 0)
    for i in range(4 if q else 16):
        yield generic_case(rng, "closed", big=True, jobs=2 + i % 2)
    for i in range(60 if q else 600):
        yield shaped_case(rng, "closed", "tall" if i % 2 else "wide")
    for i in range(6 if q else 60):
        yield shaped_case(rng, "closed", "rich")
