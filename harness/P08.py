from encode_drv import *
TRACE = "EncodeTrace"
RULE = ("seeded random labelled data (2-4 classes or one, int/str/bool labels, alphabets, pruning), batches re-predicted alone and permuted, "
        "retraining on re-interleaved rows; non-trivial: some class table has a multi-item entry")
TIMEOUT = 300


def cases(tier, rng, emitted):
    for i in range(300 if tier == "quick" else 4000):
        yield clf_case(rng, big=i % 5 == 0)
    for i in range(60 if tier == "quick" else 600):
        yield clf_case(rng, shape="tall" if i % 3 == 0 else "wide")
    for i in range(120 if tier == "quick" else 1200):
        yield clf_case(rng, shape="mesh")
    for i in range(30 if tier == "quick" else 300):  # code lengths of hundreds of bits
        yield clf_case(rng, shape="long")
