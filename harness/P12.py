"""Periodic mining is lossless: histories of fit, reconstruct and residuals."""
from periodic_drv import PDESIGN, history, kinds_log, train_log, long_log, many_log, mk_case, pick_log, preload, recon_acts  # noqa

TRACE = "PeriodicTrace"
DESIGN = PDESIGN
RULE = ("logs of the small scope of Periodic.tla and seeded logs (cycles, nested and concatenated cycles, noise, duplicates, any order), as integer "
        "or datetime logs of several units; non-trivial: at least one pattern and one residual event or two patterns")
TIMEOUT = 400
CLAUSES = {"FitError", "FitKeepsInput", "ReconError", "OccursInLog", "ReconExact", "ReconInLog", "ReconOnce", "ReconKeepsCopies", "ReconSorted",
           "ResidError", "ResidComplement", "ResidOnce", "ResidSorted", "Unexpected", "OutsideSpec"}
run_case = history


def cases(tier, rng, emitted):
    em = emitted.get("Periodic", [])
    q = tier == "quick"
    for _ in range(1 if q else 4):  # more than two slices of occurrences
        n = rng.choice([3001, 3010])
        yield mk_case(rng, [[[t, 0] for t in sorted(rng.sample(range(1000 * n), n))]],
                      [dict(act="fit", log=0), dict(act="recon", ids="all", sort="time", drop=True), dict(act="resid", ids="all", sort="time")],
                      dict(idx="int", mul=1, base=0), dict(complex=False, auto_time_scale=True))
    for i in range(10 if q else 100):
        yield mk_case(rng, [long_log(rng, rng.choice([201, 205, 241, 281, 330])) if i % 3 else many_log(rng, rng.choice([250, 400]))],
                      [dict(act="fit", log=0)] + recon_acts(rng, 1))
    for _ in range(3 if q else 30):
        yield mk_case(rng, [train_log(rng, rng.choice([300, 520] if q else [300, 520, 1050, 1300]))], [dict(act="fit", log=0)] + recon_acts(rng, 2),
                      None, dict(complex=rng.random() < .3, auto_time_scale=True))
    yield mk_case(rng, [train_log(rng, 1050)[:1050]], [dict(act="fit", log=0)] + recon_acts(rng, 1), None, dict(complex=False, auto_time_scale=True))
    for _ in range(80 if q else 800):
        yield mk_case(rng, [kinds_log(rng)], [dict(act="fit", log=0)] + recon_acts(rng, 3))
    for _ in range(60 if q else 600):  # events whose names differ only by spaces or are empty
        c = mk_case(rng, [pick_log(rng, em, 80)], [dict(act="fit", log=0)] + recon_acts(rng, 2))
        c["names"] = rng.choice([["", " ", "a", "a ", "b"], ["a", "a ", "a  ", "b", "b "], ["1", "1.0", "1e0", "2", "2 "], ["nan", "none", "null", "true", "x"]])
        yield c
    for _ in range(50 if q else 500):  # long names that begin alike
        c = mk_case(rng, [pick_log(rng, em, 80)], [dict(act="fit", log=0)] + recon_acts(rng, 2))
        w = rng.choice(["event-number-00%d", "a rather long event name, the %d", "/var/log/%d/events", "%d" + "0" * 30, "é" * 17 + "%d"])
        c["names"] = sorted(w % i for i in range(5))
        yield c
    for _ in range(3 if q else 30):  # over a hundred kinds of events
        ne = rng.choice([103, 130, 260])
        log = [[7 * i + rng.randrange(6), rng.randrange(ne) if i >= ne else i] for i in range(ne + rng.choice([0, 60, 200]))]
        c = mk_case(rng, [log], [dict(act="fit", log=0)] + recon_acts(rng, 1), None, dict(complex=rng.random() < .3, auto_time_scale=True))
        c["names"] = ["e%03d" % i for i in range(ne)] if rng.random() < .6 else list(range(ne))
        yield c
    for lg in (rng.sample(em, min(len(em), 700)) if q else em):
        yield mk_case(rng, [[list(x) for x in lg]], [dict(act="fit", log=0)] + recon_acts(rng, 1))
    for _ in range(900 if q else 12000):
        k = rng.choice([1, 1, 2])
        logs = [pick_log(rng, em, 80) for _ in range(k)]
        acts = []
        for i in range(k):
            acts += [dict(act="fit", log=i)] + recon_acts(rng)
        yield mk_case(rng, logs, acts)


def nontrivial(case, events):
    return sum(e["ev"] == "Single" for e in events) > 1 or (any(e["ev"] == "Single" for e in events) and any(e["ev"] == "Resid" and e["out"] for e in events))
