"""The pattern table, drawings and pattern files describe the fitted patterns."""
from periodic_drv import PDESIGN, block_log, history, kinds_log, train_log, long_log, mk_case, params, pick_log, preload, recon_acts, table_acts  # noqa

TRACE = "PeriodicTrace"
DESIGN = PDESIGN
RULE = ("as P12, with the table in its forms, drawings, and export/import into the same, a new or an already fitted miner, repeated; "
        "non-trivial: at least one pattern")
TIMEOUT = 400
CLAUSES = {"TableError", "RowPerPattern", "Chronological", "InOrder", "StartTime", "Major", "MajorPeriod", "RowExpands", "RowCounts", "SumOfCorrections", "IoError",
           "IoKeeps", "ImportError", "ImportSameEvents", "ImportSameCount", "ImportSameTable", "DrawSame", "DrawStart", "DrawError",
           "Unexpected", "OutsideSpec"} | {"ResidComplement", "ReconExact", "ReconError", "ResidError"}
run_case = history


def cases(tier, rng, emitted):
    em = emitted.get("Periodic", [])
    q = tier == "quick"
    for i in range(6 if q else 60):
        yield mk_case(rng, [long_log(rng, rng.choice([201, 205, 241]))], [dict(act="fit", log=0)] + table_acts(rng) + [
            dict(act="io", to="new", log=0, params=params(rng))])
    for _ in range(2 if q else 20):
        yield mk_case(rng, [train_log(rng, rng.choice([150, 300] if q else [300, 520, 1050]))],
                      [dict(act="fit", log=0)] + table_acts(rng) + [dict(act="io", to="new", log=0, params=params(rng))],
                      None, dict(complex=rng.random() < .3, auto_time_scale=True))
    for _ in range(30 if q else 300):
        yield mk_case(rng, [block_log(rng)], [dict(act="fit", log=0)] + table_acts(rng) + [dict(act="draw", id=0),
                      dict(act="io", to=rng.choice(["new", "same"]), log=0, params=params(rng)), dict(act="draw", id=0)] + table_acts(rng),
                      None, dict(complex=True, auto_time_scale=rng.random() < .8))
    for _ in range(60 if q else 600):
        yield mk_case(rng, [kinds_log(rng)], [dict(act="fit", log=0)] + table_acts(rng) + [dict(act="draw", id=rng.randrange(30)),
                      dict(act="io", to=rng.choice(["new", "same", "fitted"]), log=0, params=params(rng)), dict(act="draw", id=rng.randrange(30))])
    for _ in range(1300 if q else 14000):
        k = rng.choice([1, 1, 2])
        logs = [pick_log(rng, em, 80) for _ in range(2)]
        acts = []
        for i in range(k):
            acts += [dict(act="fit", log=i)]
            for _ in range(rng.choice([1, 2, 3])):
                x = rng.random()
                if x < .35:
                    acts += table_acts(rng)
                elif x < .5:
                    acts.append(dict(act="draw", id=rng.randrange(5)))
                elif x < .6:
                    acts += recon_acts(rng, 0)
                else:
                    acts.append(dict(act="io", to=rng.choice(["new", "new", "same", "fitted"]), log=1 - i, params=params(rng)))
                    if rng.random() < .4:
                        acts += recon_acts(rng, 0)
                    if rng.random() < .3:
                        acts += table_acts(rng)
        yield mk_case(rng, logs, acts)


def nontrivial(case, events):
    return any(e["ev"] == "Single" for e in events)
