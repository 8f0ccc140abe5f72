"""
Common machinery for the run-time monitors: case scheduling, scratch space,
process-level watchers (audit hook, CPU budget), verdicts, replay files and
evidence.

Terminology
-----------
check    one property; a module in harness/checks with PROP, RULE, CASES,
         and run_case(rng, mon, idx)
case     one generated workload (deterministic in (seed, idx)); it drives the
         real pdr code and hands what it observed to an oracle
mon      the monitor object given to the case; oracles report through it
"""
from __future__ import annotations

import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from contextlib import contextmanager
from pathlib import Path

HERE = Path(__file__).resolve().parent
ROOT = HERE.parent
EVID = ROOT / "evidence"
KNOWN = ROOT / "known_findings.json"
CASE_CPU_S = 90
MEM_LIMIT = 6 * 2**30


class Violation(Exception):
    """The oracle and the code under observation disagree."""

    def __init__(self, msg, mech="generic"):
        super().__init__(msg)
        self.mech = mech


class Hang(BaseException):
    pass


class Skip(Exception):
    """The case turned out not to exercise anything; not counted."""


# --------------------------------------------------------------------------
# process-wide watcher: what does the code under test do to the file system?
# --------------------------------------------------------------------------
class Auditor:
    """sys.addaudithook based recorder of effects on the outside world"""

    EFFECTS = {
        "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate",
        "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime",
        "shutil.rmtree", "shutil.move", "shutil.copyfile",
        "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
        "os.fork", "socket.connect", "socket.getaddrinfo", "socket.bind",
        "urllib.Request", "os.setxattr", "os.removexattr",
        "tempfile.mkstemp", "tempfile.mkdtemp",
    }

    def __init__(self):
        self.on = False
        self.effects = []
        self.reads = []
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = (list(args) + [None, None])[:3]
            if isinstance(path, int):
                return
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            path = str(path)
            writing = False
            if isinstance(mode, str):
                writing = any(c in mode for c in "wax+")
            if isinstance(flags, int):
                writing = writing or bool(
                    flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                             | os.O_TRUNC | os.O_APPEND)
                )
            if writing:
                self.effects.append(("open-for-write", path))
            else:
                self.reads.append(path)
        elif event in self.EFFECTS:
            self.effects.append((event, repr(args)[:300]))

    @contextmanager
    def watching(self):
        self.effects, self.reads, self.on = [], [], True
        try:
            yield self
        finally:
            self.on = False


_AUDITOR = None


def auditor() -> Auditor:
    global _AUDITOR
    if _AUDITOR is None:
        _AUDITOR = Auditor()
    return _AUDITOR


# --------------------------------------------------------------------------
class Monitor:
    """what a case uses to record observations and raise violations"""

    def __init__(self, tmp: Path, tier: str):
        self.tmp = tmp
        self.tier = tier
        self.events = Counter()
        self.sigs = set()
        self.desc = None

    def saw(self, kind, n=1):
        self.events[kind] += n

    def sig(self, *parts):
        """register a distinct, non-trivial behaviour that was observed"""
        self.sigs.add("|".join(str(p) for p in parts))

    def describe(self, desc):
        self.desc = desc

    def fail(self, msg, mech="generic"):
        raise Violation(msg, mech)

    def check(self, cond, msg, mech="generic"):
        self.events["assertions"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, mech)


def case_rng(seed, prop, idx):
    h = hashlib.sha256(f"{seed}:{prop}:{idx}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def _alarm(*_):
    raise Hang()


def load_known():
    if not KNOWN.exists():
        return []
    return json.loads(KNOWN.read_text())["findings"]


def run_one(mod, seed, idx, base, tier):
    """run a single case; returns a result dict"""
    tmp = Path(tempfile.mkdtemp(prefix=f"c{idx}_", dir=base))
    mon = Monitor(tmp, tier)
    rng = case_rng(seed, mod.PROP, idx)
    out = {"idx": idx, "ok": True}
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run_case(rng, mon, idx)
    except Skip:
        out["skip"] = True
    except Violation as v:
        out.update(ok=False, msg=str(v), mech=v.mech)
    except Hang:
        out.update(
            ok=False, mech="hang",
            msg=f"no answer after {CASE_CPU_S} s of CPU time",
        )
    except MemoryError:
        out.update(ok=False, mech="memory", msg="memory limit exceeded")
    except Exception as ex:
        # the generators and oracles are deterministic and exception-free on a
        # tree where the property holds, so an unexpected exception means the
        # code under observation raised or returned something of a wrong shape
        broken_env = isinstance(ex, ImportError) or (
            isinstance(ex, OSError) and ex.errno in (28, 23, 24, 12)
        )
        out.update(
            ok=False,
            mech="harness-error" if broken_env else "exception",
            msg="".join(traceback.format_exception(ex))[-3000:],
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        shutil.rmtree(tmp, ignore_errors=True)
    out["events"] = dict(mon.events)
    out["sigs"] = sorted(mon.sigs)
    out["desc"] = mon.desc
    return out


def _worker(prop, seed, indices, base, tier, conn, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    os.environ["TMPDIR"] = str(base)
    tempfile.tempdir = str(base)
    os.chdir(base)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        for i, idx in enumerate(indices):
            if time.time() > deadline:
                conn.send({"late": len(indices) - i})
                break
            conn.send(run_one(mod, seed, idx, base, tier))
            if i % 20 == 19:
                gc.collect()
        conn.send(None)
    except BaseException as ex:  # noqa
        conn.send({"fatal": "".join(traceback.format_exception(ex))[-3000:]})
        conn.send(None)
    finally:
        conn.close()


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return json.loads(json.dumps(x, default=repr))


def write_replay(prop, seed, tier, res):
    d = EVID / "replay"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{prop}-{seed}-{res['idx']}.json"
    p.write_text(json.dumps({
        "property": prop, "seed": seed, "idx": res["idx"], "tier": tier,
        "mech": res["mech"], "message": res["msg"],
        "desc": jsonable(res.get("desc")),
        "how": f"bash /verif/run.sh {prop} --replay {p}",
    }, indent=1, default=repr))
    return p


def assert_repo():
    import pdr
    got = Path(pdr.__file__).resolve()
    if not str(got).startswith("/repo/pdr"):
        print(f"pdr imported from {got}, not /repo", file=sys.stderr)
        sys.exit(3)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(
        os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    assert_repo()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    base = Path(tempfile.mkdtemp(prefix=f"pdrmon_{prop}_"))
    try:
        if a.replay:
            r = json.loads(Path(a.replay).read_text())
            os.chdir(base)
            res = run_one(mod, r["seed"], r["idx"], base, r["tier"])
            print(json.dumps(res, indent=1, default=repr))
            return 0 if res["ok"] else 1
        if a.only is not None:
            os.chdir(base)
            res = run_one(mod, seed, a.only, base, tier)
            for k, v in res.items():
                print(k, ":", v)
            return 0 if res["ok"] else 1
        return run_check(mod, prop, tier, seed, base, t0, a)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def run_check(mod, prop, tier, seed, base, t0, a):
    ncases = a.cases or mod.CASES[tier]
    jobs = a.jobs or min(8, os.cpu_count() or 2, ncases)
    budget = {"quick": 420, "thorough": 840}[tier]
    deadline = t0 + budget
    ctx = mp.get_context("fork")
    conns, procs = [], []
    for j in range(jobs):
        rd, wr = ctx.Pipe(duplex=False)
        p = ctx.Process(
            target=_worker,
            args=(prop, seed, list(range(j, ncases, jobs)), base, tier, wr,
                  deadline),
        )
        p.start()
        wr.close()
        conns.append(rd)
        procs.append(p)
    results, fatal, late = [], [], 0
    live = list(conns)
    while live:
        for c in mp.connection.wait(live, timeout=5):
            try:
                m = c.recv()
            except EOFError:
                live.remove(c)
                p = procs[conns.index(c)]
                p.join(10)
                fatal.append(f"worker died (exit code {p.exitcode})")
                continue
            if m is None:
                live.remove(c)
            elif "fatal" in m:
                fatal.append(m["fatal"])
            elif "late" in m:
                late += m["late"]
            else:
                results.append(m)
        if time.time() > deadline + CASE_CPU_S + 60:
            fatal.append("workers did not finish")
            break
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()
    results.sort(key=lambda r: r["idx"])
    events, sigs = Counter(), set()
    known = [k for k in load_known()
             if k["property"] == prop and k.get("status") == "known"]
    viols, known_hit, harness = [], Counter(), []
    ran = 0
    for r in results:
        events.update(r["events"])
        if r.get("skip"):
            events["skipped"] += 1
            continue
        ran += 1
        sigs.update(r["sigs"])
        if r["ok"]:
            continue
        if r["mech"] == "harness-error":
            harness.append(r)
            continue
        for k in known:
            if k["mech"] == r["mech"]:
                known_hit[k["id"]] += 1
                break
        else:
            viols.append(r)
    required = getattr(mod, "REQUIRED", ())
    missing = [k for k in required if not events.get(k)]
    samples = []
    for r in results:
        if r.get("desc") is not None and len(samples) < 6:
            samples.append({"idx": r["idx"], "case": jsonable(r["desc"])})
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or ["(no case described itself)"],
            "monitor_events": dict(sorted(events.items())),
            "behaviours_sample": sorted(sigs)[:40],
            "cases_not_reached_in_time": late,
            "known_findings_seen": dict(known_hit),
            "violation_details": [
                {"idx": v["idx"], "mech": v["mech"], "msg": v["msg"][:1500]}
                for v in viols[:20]
            ],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    EVID.mkdir(exist_ok=True)
    (EVID / f"{prop}.json").write_text(
        json.dumps(ev, indent=1, default=repr) + "\n")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} [{tier} seed={seed}] cases={ran} behaviours={len(sigs)} "
          f"events={sum(events.values())} late={late} "
          f"wall={ev['wall_s']}s")
    if viols:
        bymech = {}
        for v in viols:
            bymech.setdefault(v["mech"], []).append(v)
        for mech, vs in bymech.items():
            v = min(vs, key=lambda r: len(r["msg"]))
            p = write_replay(prop, seed, tier, v)
            print(f"  [{mech}] x{len(vs)} e.g. case {v['idx']}: "
                  f"{v['msg'][-1500:]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if harness or fatal:
        for h in harness[:3]:
            print("HARNESS ERROR case", h["idx"], h["msg"], file=sys.stderr)
        for f in fatal[:3]:
            print("FATAL", f, file=sys.stderr)
        return 3
    if missing:
        print(f"INCONCLUSIVE: monitor never observed {missing}",
              file=sys.stderr)
        return 4
    if ran < max(1, ncases // 4):
        print(f"INCONCLUSIVE: only {ran} of {ncases} cases ran",
              file=sys.stderr)
        return 4
    return 0
