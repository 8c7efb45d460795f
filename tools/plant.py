"""Make and confirm planted bugs: plant.py DEFS.py [id...]; DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo=python text)].  Everything is confirmed on a scratch clone of /repo."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore\nexport PYTHONPATH="$PWD"\n' \
          'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


R = tempfile.mkdtemp(prefix="plant_") + "/repo"
sh(f"cp -a /repo {R}")


def restore():
    sh(f"git -C {R} checkout -- .")


def tests(out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", LC_ALL="C.UTF-8", TZ="UTC",
               SCIKIT_MINE_DATA=R + "/../data")
    sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --doctest-modules -o junit_family=xunit2 "
       f"--junitxml={out}.xml skmine; python3 /opt/vp/results.py {out} junit:{out}.xml; git -C {R} clean -qfd", cwd=R, env=env)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = os.path.join(V, "seeded", b["id"])
        if os.path.exists(d) and not want:
            continue
        if sh(f"git -C {R} status --porcelain").stdout.strip():
            sys.exit("/repo is not clean")
        try:
            msg = []
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                if s.count(old) != 1:
                    msg.append(f"edit of {f}: {s.count(old)} matches")
                    continue
                orig = sh(f"git -C /repo show {BASE}:{f}").stdout
                for ln in old.splitlines():
                    if ln.strip() and ln not in new.splitlines() and ln not in orig.splitlines():
                        msg.append(f"changes a line that is not original: {ln}")
                open(p, "w").write(s.replace(old, new))
            diff = sh(f"git -C {R} diff").stdout
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            with tempfile.TemporaryDirectory() as t:
                shutil.copytree(d, t + "/x")
                r1 = sh(f"bash {t}/x/demo.sh", cwd=R)
                tests(f"{t}/o.json")
                lost = STABLE - set(json.load(open(t + "/o.json"))["passed"])
                if lost:
                    msg.append(f"tests lost: {sorted(lost)[:3]}")
                chk = sh(f"/opt/venv/bin/python {V}/harness/check.py {b['property']}", env=dict(os.environ, VERIF_REPO=R))
                restore()
                r0 = sh(f"bash {t}/x/demo.sh", cwd=R)
            if r1.returncode == 0:
                msg.append("demo passes with the bug")
            if r0.returncode != 0:
                msg.append("demo fails without the bug: " + (r0.stdout + r0.stderr)[-300:])
            fc = [x for x in chk.stdout.splitlines() if x.startswith("failing clauses")]
            print(f"{b['id']:28s} {'OK ' if not msg else 'BAD'} check rc={chk.returncode} {'CAUGHT' if chk.returncode == 1 and 'VIOLATION property=' + b['property'] in chk.stdout else 'MISSED'}",
                  msg, (fc or [chk.stdout[-200:] if chk.returncode > 1 else ""])[0][:200], flush=True)
            if msg:
                os.rename(d, tempfile.mkdtemp(prefix="badbug_") + "/x")
        finally:
            restore()


try:
    main()
finally:
    shutil.rmtree(os.path.dirname(R))
