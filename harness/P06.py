from slim_drv import *
TRACE = "SlimTrace"
CLAUSES = ALWAYS | {"DataSize", "ModelSize", "StrictlyShorter", "NeverWorse", "EvalPure", "EvalKeepsCandidate", "Disjoint", "ExactUnion"}
RULE = ("as P04, with candidate evaluations and every accepted step of fitting observed; non-trivial: a multi-item entry in the table")
ROUNDS = 2
DESIGN = {"quick": [("Slim", cfg(3, 3, 3, False, False)), ("Slim", cfg(3, 2, 2, True, True))],
          "thorough": [("Slim", cfg(3, 4, 4, False, False)), ("Slim", cfg(3, 2, 3, True, True))]}
TIMEOUT = 300


def cases(tier, rng, emitted):
    q = tier == "quick"
    yield from replayed(emitted.get("Slim", []), rng, 300 if q else 5000)
    for i in range(400 if q else 4000):
        yield history(rng, big=i % 3 == 0, w=("evaluate", "evaluate", "update"), refit=0.2)
    for i in range(40 if q else 400):
        yield history(rng, w=("evaluate", "evaluate", "update"), shape="tall" if i % 4 else "wide")
    for i in range(40 if q else 400):
        yield history(rng, w=("evaluate", "evaluate", "update"), shape="core")
    for i in range(120 if q else 1200):
        yield history(rng, w=("evaluate", "evaluate", "update"), shape="mesh")
    for k in COUNTS * (2 if q else 10):
        c = counted(rng, k)
        yield c
