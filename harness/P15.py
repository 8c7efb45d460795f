"""Automatic time scaling: the scaling function and mining with scaling on or off."""
import warnings

from periodic_drv import UNITS

warnings.filterwarnings("ignore")
TRACE = "ScaleTrace"
RULE = ("every set of times of the small scope of TimeScale.tla laid on real units (digit k of the model is one of the ten-powers or time units), "
        "seeded sets of integers and datetimes up to 4e18, given to the scaling function and to the miner with scaling on and off; non-trivial: "
        "a factor other than 1")
CFG = ("SPECIFICATION Spec\nCONSTANTS Half = %d\nMaxTimes = %d\nBase = %d\nMaxShift = %d\nU1 = %d\nU2 = %d\nU3 = %d\nEmitCases = TRUE\n"
       "INVARIANTS Exact Order Whole Emit\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n")
DESIGN = {"quick": [("TimeScale", CFG % (24, 2, 2, 2, 2, 4, 8)), ("TimeScale", CFG % (8, 4, 2, 1, 2, 4, 8))],
          "thorough": [("TimeScale", CFG % (40, 2, 2, 2, 3, 6, 12)), ("TimeScale", CFG % (12, 4, 2, 1, 2, 4, 8)),
                       ("TimeScale", CFG % (16, 3, 2, 3, 2, 4, 8))]}
TIMEOUT = 100


def preload():
    import numpy, pandas  # noqa
    import skmine.periodic.cycles  # noqa


def limbs(x):
    x = int(x)
    s = -1 if x < 0 else 1
    x = abs(x)
    m = []
    while x:
        m.append(x % 10000)
        x //= 10000
    return dict(s=s, m=m)


def num(x):
    """A time given back by the miner, in nano-seconds for datetimes."""
    return x.value if hasattr(x, "value") and not isinstance(x, int) else int(x)


def run_case(case):
    import numpy as np
    import pandas as pd
    import skmine.periodic.cycles as C
    ts = case["times"]
    ev = []
    if case["kind"] == "func":
        f = getattr(C, "autoscale_time_unit", None)
        if f is None:
            return ev
        e = dict(ev="Scale", orig=[limbs(t) for t in ts], conv=[], n=0, div=1, kept=True, exc="")
        try:
            a = np.array(ts, dtype="int64")
            b = a.copy()
            x = pd.Index(a) if case["index"] else a
            r = f(x, verbose=False)
            e["conv"], e["n"], e["div"] = [limbs(v) for v in r[0]], int(r[1]), int(r[3])
            e["kept"] = bool((a == b).all())
        except Exception as ex:
            e["exc"] = type(ex).__name__
        return [e]
    from skmine.periodic import PeriodicPatternMiner
    if case["dt"]:
        idx = pd.DatetimeIndex(np.array(ts, dtype="int64").astype("datetime64[ns]"))
        if case.get("res"):
            idx = idx.as_unit(case["res"])
    else:
        idx = pd.Index(np.array(ts, dtype="int64"))
    S = pd.Series([("a", "b")[i % case["nev"]] for i in range(len(ts))], index=idx)
    for auto in case["autos"]:
        e = dict(ev="Times", log=[limbs(t) for t in ts], out=[], exc="")
        try:
            m = PeriodicPatternMiner(complex=case["complex"], auto_time_scale=auto).fit(S)
            o = list(m.reconstruct()["time"]) + list(m.get_residuals()["time"])
            if any(isinstance(x, pd.Timestamp) != case["dt"] for x in o):
                raise TypeError
            e["out"] = [limbs(num(x)) for x in o]
        except Exception as ex:
            e["exc"] = type(ex).__name__
        ev.append(e)
    return ev


def lay(rng, em):
    """Times of a model behaviour on real units: powers of two of the model become ten-powers, then time units."""
    f = rng.choice([1, 10, 10 ** 3, 10 ** 6, 10 ** 8, 10 ** 9, 5 * 10 ** 8, 10 ** 9 * 30, 60 * 10 ** 9, 1800 * 10 ** 9, 3600 * 10 ** 9,
                    43200 * 10 ** 9, 86400 * 10 ** 9, 6 * 10 ** 9, 10 ** 9 * 720])
    b = rng.choice([0, 0, 0, f * 1000, 86400 * 10 ** 9 * 18000])
    return [b + t * f for t in em["times"]]


def rand_times(rng):
    u = rng.choice(list(UNITS.values()) + [10 ** rng.randrange(0, 12), 7, 15 * 60 * 10 ** 9, 12 * 3600 * 10 ** 9])
    hi = max(1, min(4 * 10 ** 18 // u, rng.choice([10, 100, 10 ** 4, 10 ** 9])))
    n = rng.choice([2, 3, 5, 9, 14])
    base = rng.choice([0, 0, rng.randrange(-3, 3), 1577836800 * 10 ** 9 // u, -hi])
    ts = [(base + rng.randrange(0, hi + 1)) * u for _ in range(n)]
    if rng.random() < .3:  # one time off the common grid
        ts[rng.randrange(n)] += rng.choice([1, -1, 10, 500, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9])
    if rng.random() < .3:
        p = rng.choice([1, 2, 7])
        ts = [(base + i * p) * u for i in range(n)]
    return [t for t in ts if abs(t) <= 4 * 10 ** 18] or [0, u]


def long_times(rng, n):
    """many times on a grid, one or two of them off it"""
    u = rng.choice(list(UNITS.values()) + [10, 10 ** 4, 10 ** 8])
    base = rng.choice([0, 1577836800 * 10 ** 9 // u])
    ts = sorted((base + x) * u for x in rng.sample(range(20 * n), n))
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        ts[rng.choice([rng.randrange(n), n - 1, 0, n - 2, 1])] += rng.choice([1, 5, 10, 500, 10 ** 6, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9])
    return ts


def stride_times(rng, n):
    """many times, all of them a whole number of weeks, fortnights, months... apart"""
    u = rng.choice([86400 * 10 ** 9] * 4 + list(UNITS.values()) + [10, 10 ** 5])
    k = rng.choice([7, 7, 7, 14, 28, 30, 5, 12, 24, 60])
    base = rng.choice([0, 1577836800 * 10 ** 9 // u]) + rng.randrange(0, 40)
    ts = [(base + i * k) * u for i in range(n)] if rng.random() < .5 else [(base + i * k) * u for i in sorted(rng.sample(range(2 * n), n))]
    return [t for t in ts if t <= 4 * 10 ** 18]


def cases(tier, rng, emitted):
    em = emitted.get("TimeScale", [])
    q = tier == "quick"
    for e in (rng.sample(em, min(len(em), 1500)) if q else em):
        yield dict(kind="func", times=lay(rng, e), index=rng.random() < .5)
    for _ in range(1500 if q else 20000):
        yield dict(kind="func", times=rand_times(rng), index=rng.random() < .5)
    for _ in range(60 if q else 800):
        yield dict(kind="func", times=long_times(rng, rng.choice([60, 300, 1100])), index=rng.random() < .5)
    for _ in range(80 if q else 800):
        yield dict(kind="func", times=stride_times(rng, rng.choice([12, 55, 70, 120])), index=rng.random() < .5)
    for _ in range(40 if q else 400):
        yield dict(kind="mine", times=stride_times(rng, rng.choice([12, 55, 70, 120])), dt=rng.random() < .7, nev=rng.choice([1, 2]),
                   complex=rng.random() < .3, autos=[True])
    for _ in range(8 if q else 80):
        yield dict(kind="mine", times=long_times(rng, rng.choice([120, 260, 600])), dt=rng.random() < .5, nev=rng.choice([1, 2]), complex=False, autos=[True])
    for _ in range(600 if q else 8000):
        ts = lay(rng, rng.choice(em)) if em and rng.random() < .5 else rand_times(rng)
        if len(ts) < 2:
            ts = ts + [ts[0] + rng.choice([1, 10, 10 ** 9])]
        dt = rng.random() < .5
        ok = [r for r in ("s", "ms", "us") if all(t % UNITS[r] == 0 for t in ts)]
        yield dict(kind="mine", times=ts, dt=dt, nev=rng.choice([1, 1, 2]), complex=rng.random() < .5,
                   autos=rng.choice([[True], [False], [True, False]]), res=rng.choice(ok) if dt and ok and rng.random() < .3 else None)


def nontrivial(case, events):
    return case["kind"] == "mine" or any(e["n"] > 0 for e in events if e["ev"] == "Scale")
