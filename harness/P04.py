from slim_drv import *
TRACE = "SlimTrace"
CLAUSES = ALWAYS | {"ReconError", "ReconCount", "Lossless", "ReconSorted"}
RULE = ("histories of fit/prefit/insert on one model: all 2-step insertion histories of the small scope of Slim.tla (sampled in quick) "
        "plus seeded random ones over container forms, alphabets, pruning, refits; non-trivial: a multi-item entry in the table")
ROUNDS = 2
DESIGN = {"quick": [("Slim", cfg(3, 2, 2, True, True))],
          "thorough": [("Slim", cfg(3, 2, 3, True, True)), ("Slim", cfg(3, 3, 2, True, False))]}
TIMEOUT = 300


def cases(tier, rng, emitted):
    q = tier == "quick"
    yield from replayed(emitted.get("Slim", []), rng, 500 if q else 8000)
    for i in range(350 if q else 4000):
        yield history(rng, big=i % 5 == 0, w=("update", "update", "evaluate"), empties=0.25)
    for i in range(40 if q else 400):
        yield history(rng, w=("update", "update", "evaluate"), shape="tall" if i % 4 else "wide")
    for i in range(40 if q else 400):
        yield history(rng, w=("update", "update", "evaluate"), shape="core")
    for i in range(120 if q else 1200):
        yield history(rng, w=("update", "update", "evaluate"), shape="mesh")
    for k in COUNTS * (2 if q else 10):
        c = counted(rng, k)
        yield c
