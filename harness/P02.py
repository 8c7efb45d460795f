from itemset_drv import *
import itemset_drv as d
TRACE = "ItemsetTrace"
RULE = ("as P01, for the maximal itemset miner; non-trivial: >= 2 itemsets returned")
ROUNDS = 4
DESIGN = {"quick": [("LCM", cfg(3, 3, [1, 2, 3]))], "thorough": [("LCM", cfg(3, 4, [1, 2, 3, 4])), ("LCM", cfg(4, 3, [1, 2, 3]))]}
TIMEOUT = 120


def cases(tier, rng, emitted):
    q = tier == "quick"
    yield from replayed(emitted.get("LCM", []), "max", limit=None if not q else 1000, rng=rng)
    for pair in d.BOUNDARY:
        yield boundary_case(rng, "max", pair)
    for i in range(600 if q else 6000):
        yield generic_case(rng, "max", big=i % 3 == 0)
    for i in range(2 if q else 8):
        yield generic_case(rng, "max", big=True, jobs=2)
    for i in range(60 if q else 600):
        yield shaped_case(rng, "max", "tall" if i % 2 else "wide")
    for i in range(12 if q else 60):
        yield shaped_case(rng, "max", "rich")
