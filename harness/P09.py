from encode_drv import *
TRACE = "EncodeTrace"
RULE = ("seeded random training/new data, k, strategies, stop items; non-trivial: the table has a multi-item entry")
TIMEOUT = 300


def cases(tier, rng, emitted):
    for i in range(600 if tier == "quick" else 6000):
        yield vec_case(rng, big=i % 5 == 0)
    for i in range(60 if tier == "quick" else 600):
        yield vec_case(rng, shape="tall" if i % 2 == 0 else "wide")
    for i in range(120 if tier == "quick" else 1200):
        yield vec_case(rng, shape="mesh")


ROUNDS = 3
