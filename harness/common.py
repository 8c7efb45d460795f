"""Shared machinery: running TLC, executing cases against the real code in killable workers, verdicts, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """Something is wrong with the check itself (never with the code under test)."""


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=NCPU, timeout=800, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla with the configuration text cfg. Returns dict with stdout, states, distinct, ok."""
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        cfgf = os.path.join(work, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={work}", "-cp", CP, "tlc2.TLC",
               "-config", cfgf, "-metadir", os.path.join(work, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
               *extra, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return dict(out=out, generated=gen, distinct=dist, depth=int(d[-1]) if d else 0, rc=p.returncode,
                ok=p.returncode == 0 and "No error has been found" in out)


def unq(line):
    """A TLC PrintT string line: strip quotes and undo TLA+ escaping."""
    s = line.strip()
    if s.startswith('"') and s.endswith('"'):
        s = s[1:-1]
    return s.replace('\\"', '"').replace("\\\\", "\\")


def tlc_design(module, cfg, **kw):
    """Model-check a design specification; returns (result, emitted JSON cases)."""
    r = tlc(module, cfg, **kw)
    if not r["ok"]:
        raise Machinery(f"design check of {module} failed:\n" + r["out"][-4000:])
    em = []
    for ln in r["out"].splitlines():
        ln = ln.strip()
        if ln.startswith('"CASE|'):
            em.append(json.loads(unq(ln)[5:]))
    return r, em


def tlc_trace(module, traces, timeout=800, heap="8g", consts=""):
    """Validate recorded traces. traces: list of dicts with an 'events' list. Returns (fails, stats);
    fails: list of (case index, event index, clause)."""
    if not traces:
        raise Machinery("no traces recorded")
    work = tempfile.mkdtemp(prefix="trace_")
    try:
        path = os.path.join(work, "trace.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + consts
        fails = []
        skip = set()
        tot = dict(states=0, transitions=0)
        for attempt in range(6):
            r = tlc(module, cfg, env={"TRACE": path, "SKIP": json.dumps(sorted(skip))}, timeout=timeout, heap=heap)
            tot = dict(states=r["distinct"], transitions=r["generated"])
            fails = [f for f in fails if f[2].startswith("OutsideSpec")]
            for ln in r["out"].splitlines():
                ln = ln.strip()
                if ln.startswith('"FAIL|'):
                    _, c, l, clause = unq(ln).split("|", 3)
                    fails.append((int(c) - 1, int(l) - 1, clause))
            if r["ok"]:
                break
            # an observation outside the domain on which the specification is defined
            m = re.findall(r"/\\ c = (\d+)", r["out"])
            ml = re.findall(r"/\\ l = (\d+)", r["out"])
            if not m or ("Error: Evaluating" not in r["out"] and "Attempted to" not in r["out"]
                         and "TLC threw an unexpected exception" not in r["out"]
                         and "In applying" not in r["out"] and "Error:" not in r["out"]):
                raise Machinery("trace validation failed:\n" + r["out"][-4000:])
            if "OutOfMemory" in r["out"] or "StackOverflow" in r["out"]:
                raise Machinery("trace validation ran out of memory:\n" + r["out"][-3000:])
            c = int(m[-1]) - 1
            fails.append((c, int(ml[-1]) - 1 if ml else 0, "OutsideSpec"))
            skip.add(c + 1)
            # drop the offending case and go on so that the rest is still judged
            traces[c]["events"] = []
            with open(path, "w") as f:
                for t in traces:
                    f.write(json.dumps(t) + "\n")
        expected = sum(len(t["events"]) + 1 for t in traces)
        if not fails and tot["states"] != expected:
            raise Machinery(f"trace validation visited {tot['states']} states, expected {expected}\n" + r["out"][-3000:])
        return fails, tot
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- running the real code
def exc_name(ex):
    return type(ex).__name__


def harness_side(ex):
    """Errors of a driver that come from how the code is written (a private member it looks at has gone or changed its signature);
    any other error of a driver means that an observed value is not what any specification allows (wrong type, unknown item...)."""
    if isinstance(ex, (AttributeError, ImportError, OSError, MemoryError, KeyboardInterrupt)):
        return True
    return isinstance(ex, TypeError) and ("argument" in str(ex))


def _worker(modname, conn, scratch):
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    out = os.open(os.devnull, os.O_WRONLY)
    os.dup2(out, 1)
    os.dup2(out, 2)
    mod = importlib.import_module(modname)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        try:
            ev = mod.run_case(job)
        except BaseException as ex:  # a defect of the driver, not of the code under test
            # an error raised by the code under test where no driver expects one is an observation outside every specification
            frames = traceback.extract_tb(ex.__traceback__)
            inside = any(os.path.abspath(f.filename).startswith(os.path.join(os.path.abspath(REPO), "skmine") + os.sep) for f in frames)
            ev = [{"ev": "Crashed" if inside or not harness_side(ex) else "DRIVER", "tb": traceback.format_exc()}]
            if isinstance(ex, (KeyboardInterrupt,)):
                os._exit(1)
        try:
            conn.send(ev)
        except Exception:
            conn.send([{"ev": "DRIVER", "tb": traceback.format_exc()}])


def run_cases(modname, cases, timeout=60, workers=NCPU, budget=None):
    """Execute every case in a pool of killable forked workers. Returns list of event lists (None = not run: budget)."""
    mod = importlib.import_module(modname)
    if hasattr(mod, "preload"):
        mod.preload()
    root = tempfile.mkdtemp(prefix="run_")
    res = [None] * len(cases)
    ctx = mp.get_context("fork")
    procs = {}
    t0 = time.time()

    def spawn(k):
        d = os.path.join(root, f"w{k}")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(modname, b, d), daemon=False)
        p.start()
        b.close()
        procs[k] = [p, a, None, 0.0]

    def kill(k):
        p, a = procs[k][0], procs[k][1]
        try:
            os.kill(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.join(5)
        a.close()

    try:
        n = min(workers, max(1, len(cases)))
        for k in range(n):
            spawn(k)
        nxt = 0
        done = 0
        late = 0
        while done < len(cases):
            for k in range(n):
                if procs[k][2] is None and nxt < len(cases):
                    if budget and time.time() - t0 > budget:
                        done += len(cases) - nxt
                        nxt = len(cases)
                        break
                    procs[k][1].send(cases[nxt])
                    procs[k][2], procs[k][3] = nxt, time.time()
                    nxt += 1
            busy = [k for k in range(n) if procs[k][2] is not None]
            if not busy:
                break
            ready = mpwait([procs[k][1] for k in busy], timeout=1.0)
            for k in busy:
                p, a, i, ts = procs[k]
                if a in ready:
                    try:
                        res[i] = a.recv()
                    except (EOFError, OSError):
                        res[i] = [{"ev": "Crashed"}]
                        kill(k)
                        spawn(k)
                    procs[k][2] = None
                    done += 1
                elif time.time() - ts > cases[i].get("limit", timeout):
                    res[i] = [{"ev": "Timeout"}]
                    late += 1
                    if late >= 3:  # enough: judge what has been observed
                        done += len(cases) - nxt
                        nxt = len(cases)
                    kill(k)
                    spawn(k)
                    done += 1
    finally:
        for k in list(procs):
            kill(k)
        shutil.rmtree(root, ignore_errors=True)
    return res


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def jhash(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]
