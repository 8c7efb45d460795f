"""Runner: check.py <property> [--tier quick|thorough] [--replay FILE].

1. TLC model-checks the design specification(s) of the property (small constants, exhaustively); terminal states are
   emitted as behaviours.  2. The behaviours, plus seeded generated ones, are replayed against the real code in /repo.
3. The recorded traces are validated by TLC against the trace specification; every clause that fails is named."""
import argparse
import importlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def reexec():
    """Fixed environment: the interpreter and settings the repository's tests use."""
    want = dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8", TZ="UTC", VERIF_CHILD="1",
                OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    want["PYTHONHASHSEED"] = str(int(os.environ.get("VERIF_SEED", "1") or 1) % 1000)
    if os.environ.get("VERIF_CHILD") != "1":
        e = dict(os.environ)
        e.update(want)
        e.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
        e["PYTHONPATH"] = HERE + os.pathsep + os.environ.get("VERIF_REPO", "/repo")
        os.execve(sys.executable, [sys.executable] + sys.argv, e)


def main():
    reexec()
    sys.path.insert(0, HERE)
    import common
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-design", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        rc = run(common, a.pid, a.tier, seed, a.replay, t0, a.no_design)
    except common.Machinery as ex:
        print("MACHINERY-ERROR:", ex, flush=True)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


def run(common, pid, tier, seed, replay, t0, no_design=False):
    mod = importlib.import_module(pid)
    rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
    designs, emitted = [], {}
    if replay:
        rep = json.load(open(replay))
        cases = [rep["case"]]
    else:
        for d in mod.DESIGN[tier] if not no_design else []:
            name, cfg = d[0], d[1]
            r, em = common.tlc_design(name, cfg)
            emitted.setdefault(name, []).extend(em)
            designs.append(dict(module=name, states=r["distinct"], transitions=r["generated"], depth=r["depth"],
                                behaviours_emitted=len(em), constants=cfg.split("\n")))
            print(f"design {name}: {r['distinct']} distinct states, {r['generated']} generated, "
                  f"{len(em)} behaviours emitted ({time.time() - t0:.1f}s)", flush=True)
        cases = list(mod.cases(tier, rng, emitted))
        if tier == "quick":  # further rounds of seeded cases where they are cheap
            seen = {common.jhash(c) for c in cases}
            for k in range(1, getattr(mod, "ROUNDS", 1)):
                for c in mod.cases(tier, random.Random(seed * 1000003 + sum(map(ord, pid)) + 7919 * k), {}):
                    h = common.jhash(c)
                    if h not in seen:
                        seen.add(h)
                        cases.append(c)
    evs = common.run_cases(mod.__name__, cases, timeout=getattr(mod, "TIMEOUT", 120),
                           budget=getattr(mod, "BUDGET", {}).get(tier))
    broken = [i for i in range(len(cases)) if evs[i] and evs[i][0].get("ev") == "DRIVER"]
    done = [i for i in range(len(cases)) if evs[i] is not None and i not in set(broken)]
    print(f"executed {len(done)}/{len(cases)} cases against the real code ({time.time() - t0:.1f}s)", flush=True)
    groups = {}
    for i in done:
        groups.setdefault(mod.trace_module(cases[i]) if hasattr(mod, "trace_module") else mod.TRACE, []).append(i)
    fails, st, tr, nev = [], 0, 0, 0
    for g, idx in sorted(groups.items()):
        traces = [dict(events=evs[i]) for i in idx]
        nev += sum(len(t["events"]) for t in traces)
        f, tot = common.tlc_trace(g, traces)
        st += tot["states"]
        tr += tot["transitions"]
        fails += [(idx[c], l, clause) for c, l, clause in f]
        print(f"trace {g}: {len(idx)} traces, {tot['states']} states, {len(f)} failing clauses "
              f"({time.time() - t0:.1f}s)", flush=True)
    if hasattr(mod, "CLAUSES"):
        other = [f for f in fails if f[2] not in mod.CLAUSES]
        if other:
            print(f"note: {len(other)} failing clauses belong to other properties: {sorted({f[2] for f in other})}")
        fails = [f for f in fails if f[2] in mod.CLAUSES]
    known = common.known_findings(pid)
    kf = {k: (txt, 0) for k, txt in known}
    new = []
    for i, l, clause in sorted(fails):
        key = mod.finding_key(cases[i], evs[i], l, clause) if hasattr(mod, "finding_key") else None
        if key in kf:
            kf[key] = (kf[key][0], kf[key][1] + 1)
        else:
            new.append((i, l, clause))
    rc = 0
    if replay:
        print(json.dumps(evs[0])[:4000])
    for k, (txt, n) in kf.items():
        if n:
            print(f"KNOWN-FINDING: property={pid} {txt} [{n} observation(s)]")
    if fails:
        from collections import Counter
        print("failing clauses:", dict(Counter(c for _, _, c in fails)))
    if new:
        rc = 1
        os.makedirs(common.OUT, exist_ok=True)
        seen = set()
        for i, l, clause in new:
            if i in seen or len(seen) >= 5:
                continue
            seen.add(i)
            path = os.path.join(common.OUT, f"{pid}-{common.jhash(cases[i])}.json")
            cl = sorted({c for j, _, c in new if j == i})
            json.dump(dict(property=pid, clauses=cl, event_index=l, case=cases[i], events=evs[i]), open(path, "w"), indent=1)
            print(f"  clause(s) {', '.join(cl)} fail at event {l + 1} "
                  f"({json.dumps(evs[i][l] if l < len(evs[i]) else evs[i])[:400]})")
            print(f"  case: {json.dumps(cases[i])[:400]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
    if broken:
        print(f"note: {len(broken)} case(s) could not be driven, first: {evs[broken[0]][0]['tb'][-300:]}")
    if not done:
        raise common.Machinery(f"{len(broken)} driver error(s), first on case {json.dumps(cases[broken[0]])[:2000]}\n{evs[broken[0]][0]['tb']}")
    if replay:
        return rc
    nt = {}
    for i in done:
        if mod.nontrivial(cases[i], evs[i]):
            nt[common.jhash(cases[i])] = i
    samples = [dict(case=cases[i], events=json.loads(json.dumps(evs[i]))[:3]) for i in list(nt.values())[:2]]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=st + sum(d["states"] for d in designs),
                            transitions=tr + sum(d["transitions"] for d in designs),
                            traces_validated_against_impl=len(done), samples=samples,
                            evaluations=nev, distinct_nontrivial=len(nt), rule=mod.RULE,
                            design_models=designs, cases_generated=len(cases), cases_executed=len(done),
                            failing_clauses=len(fails), exhaustive=False),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: {'VIOLATED' if rc else 'held'}; wall {time.time() - t0:.1f}s")
    return rc


if __name__ == "__main__":
    main()
