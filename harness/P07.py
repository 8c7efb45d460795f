from encode_drv import *
TRACE = "EncodeTrace"
RULE = ("seeded random training data and batches of unseen transactions (unknown items, empty, repeated, permuted, re-batched, both forms), "
        "refits and insertions between encodings; non-trivial: the table has a multi-item entry")
TIMEOUT = 300


def cases(tier, rng, emitted):
    for i in range(700 if tier == "quick" else 8000):
        yield slim_case(rng, big=i % 5 == 0)
    for i in range(60 if tier == "quick" else 600):
        yield slim_case(rng, shape="tall" if i % 2 == 0 else "wide")
    for i in range(40 if tier == "quick" else 400):
        yield slim_case(rng, shape="core")
    for i in range(120 if tier == "quick" else 1200):
        yield slim_case(rng, shape="mesh")


ROUNDS = 2
