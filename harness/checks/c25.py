"""C25: what is read depends on the files alone"""
import gc
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import threading
import traceback
from pathlib import Path

import lib
import work
from twist import Twister

PROP = "C25"
CASES = {"quick": 150, "thorough": 2600}
RULE = (
    "case = several workloads of other checks, each first run in a process "
    "that has not read anything; then, in one process, one after another "
    "(some twice, some with their data changed or damaged, and always in the same "
    "directory, so under the same paths) "
    "or call by call in turns under a random schedule, or in a new "
    "interpreter with another hash seed, locale, time zone, directory or order "
    "of directory listings; or with the threads switched inside of calls. "
    "Every outermost call's outcome (digest of the value, or the error) and "
    "everything that each reader holds at the end, and once all others have "
    "been used, have to be the same. A behaviour is (how, pair of checks in "
    "succession)"
)
REQUIRED = ("histories", "interleaved", "environments", "calls_compared",
            "readers_compared", "looked_again", "repeated", "switches",
            "twisted", "broken")

PACKED = (".gz", ".zip", ".bz2")
ENVIRON = [
    {"PYTHONHASHSEED": "1"},
    {"PYTHONHASHSEED": "77", "TZ": "Pacific/Kiritimati"},
    {"PYTHONHASHSEED": "3", "LC_ALL": "POSIX", "PYTHONUTF8": "0",
     "PYTHONCOERCECLOCALE": "0"},
    {"PYTHONHASHSEED": "9", "PYTHONOPTIMIZE": "1", "HOME": "/nonexistent",
     "COLUMNS": "20"},
    {"PYTHONHASHSEED": "11", "C25_LISTING": "backwards"},
]


def backwards():
    """directories in another order"""
    ls, sc = os.listdir, os.scandir

    class Scan(list):
        def __enter__(self):
            return iter(self)

        def __exit__(self, *_):
            pass

        def close(self):
            pass

    def scandir(*a):
        with sc(*a) as it:
            return Scan(reversed(list(it)))
    os.listdir = lambda *a: ls(*a)[::-1]
    os.scandir = scandir


class Recorder:
    """what comes out of each call"""
    def __init__(self, tmp, turn=None, w=()):
        self.tmp, self.turn = tmp, turn
        self.twist = Twister(w[3]) if len(w) > 3 else None
        self.log, self.readers, self.files = [], [], []

    def before(self, name, args, kw):
        if name == "__init__":
            if self.twist:
                self.twist(self.tmp)
            # compressed files know when they were made: only their names count
            self.files.append(sorted(
                (k, v[0] if len(v) == 2 else v[-1])
                if isinstance(v, tuple) and not k.lower().endswith(PACKED)
                else (k, None if isinstance(v, tuple) else v)
                for k, v in work.tree(self.tmp).items()))

    def after(self, name, args, kw, out, err, state):
        if err is not None:
            res = ("raised", type(err).__name__,
                   work.ADDR.sub("0x", str(err).replace(str(self.tmp),
                                                        "TMP"))[:300])
        else:
            res = ("value", work.digest(out, self.tmp))
        self.log.append((name, [str(a).replace(str(self.tmp), "TMP")[:80]
                                for a in args[1:]], res))
        if name == "__init__" and err is None:
            self.readers.append(args[0])
        if self.turn:
            self.turn()

    def looks(self):
        return [work.look(r, self.tmp) for r in self.readers]

    def result(self):
        return {"log": self.log, "looks": self.looks(), "files": self.files,
                "twisted": self.twist.n if self.twist else 0}


class Split:
    """one Tap for several recorders, each with a thread of its own"""
    def __init__(self):
        self.by = threading.local()

    def before(self, *a):
        return self.by.rec.before(*a)

    def after(self, *a):
        return self.by.rec.after(*a)


def clean(d):
    for p in list(d.iterdir()):
        if p.is_dir() and not p.is_symlink():
            shutil.rmtree(p)
        else:
            p.unlink()


def child(f, *args):
    """f(*args), from a forked process; None if it came to nothing"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            # (timers are not inherited)
            signal.signal(signal.SIGPROF, lib._alarm)
            signal.setitimer(signal.ITIMER_PROF, lib.CASE_CPU_S)
            try:
                out = True, f(*args)
            except lib.Hang:
                out = True, "hung"
            except BaseException:
                out = False, traceback.format_exc()
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        blob = h.read()
    os.waitpid(pid, 0)
    if not blob:
        return None
    good, out = pickle.loads(blob)
    if not good:
        raise RuntimeError(out)
    return out


def alone(w, d):
    """a workload in a process that has done nothing else"""
    rec = Recorder(d, w=w)
    here = os.getcwd()
    with work.Tap(rec):
        work.run(w, d)
    os.chdir(here)
    return rec.result()


def history(ws, d):
    """one after another, all in the same directory"""
    recs, out = [], []
    here = os.getcwd()
    for w in ws:
        clean(d)
        rec = Recorder(d, w=w)
        with work.Tap(rec):
            work.run(w, d)
        os.chdir(here)
        out.append(rec.result())
        recs.append(rec)
    return out, [r.looks() for r in recs]


HERE = os.path.dirname(os.path.abspath(lib.__file__))
CODE = os.path.dirname(os.path.abspath(work.pdr.__file__)) + os.sep


def switcher(turn, rng, often):
    """lets another thread go on whenever some function of pdr is entered"""
    def trace(frame, event, _):
        f = frame.f_code.co_filename
        if f.startswith(CODE) and rng.random() < often:
            # (not while a lock may be held)
            up = frame
            while up is not None:
                f = up.f_code.co_filename
                if "cached_property" in f or "logg" in f:
                    return
                up = up.f_back
            sys.settrace(None)
            try:
                turn()
            finally:
                sys.settrace(trace)
    return trace


def in_turns(ws, dirs, seed, often=0):
    """one call of this, some calls of that; or even some of each call"""
    rng = random.Random(seed)
    n = len(ws)
    go = [threading.Event() for _ in ws]
    back = threading.Event()
    state = {"live": set(range(n)), "switches": 0}
    tap = Split()
    recs = []

    def turn(i):
        def f():
            back.set()
            go[i].wait()
            go[i].clear()
        return f

    def body(i):
        tap.by.rec = recs[i]
        go[i].wait()
        go[i].clear()
        if often:
            sys.settrace(switcher(turn(i), random.Random(seed + i), often))
        try:
            work.run(ws[i], dirs[i])
        finally:
            sys.settrace(None)
            state["live"].discard(i)
            back.set()
    for i in range(n):
        recs.append(Recorder(dirs[i], turn(i), ws[i]))
    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(n)]
    with work.Tap(tap):
        for t in threads:
            t.start()
        last = None
        while state["live"]:
            i = rng.choice(sorted(state["live"]))
            state["switches"] += i != last
            last = i
            back.clear()
            go[i].set()
            if not back.wait(120):
                return "stuck"
    for t in threads:
        t.join()
    return ([r.result() for r in recs], [r.looks() for r in recs],
            state["switches"])


def compare(mon, one, two, what, again=None):
    """the same workload, here and there"""
    if one is None or two is None:
        mon.check(one is None and two is None, lambda: (
            f"{what}: came to an end only "
            f"{'there' if one is None else 'alone'}"), "died")
        return mon.saw("died")
    if one["files"] != two["files"]:
        return mon.saw("other_files")
    for i, (a, b) in enumerate(zip(one["log"], two["log"])):
        mon.check(a == b, lambda: (
            f"{what}: call {i} was {a} alone, but {b}"), "call")
        mon.saw("calls_compared")
    mon.check(len(one["log"]) == len(two["log"]), lambda: (
        f"{what}: {len(one['log'])} calls alone, but {len(two['log'])}"),
        "calls")
    for looks, when, mech in ((two["looks"], "", "held"),
                              (again, " later", "changed")):
        if looks is None:
            continue
        for i, (a, b) in enumerate(zip(one["looks"], looks)):
            mon.check(a == b, lambda: (
                f"{what}: reader {i}{when} differs from alone in "
                f"{[k for k in {**a, **b} if a.get(k) != b.get(k)]}"), mech)
            mon.saw("looked_again" if when else "readers_compared")


def elsewhere(ws, d, rng):
    """in a new interpreter"""
    env = dict(os.environ)
    env.update(rng.choice(ENVIRON))
    job = d / "job.json"
    job.write_text(json.dumps(ws))
    sub = d / rng.choice(["here", "a b"])
    sub.mkdir()
    r = subprocess.run(
        [sys.executable, "-B", __file__, str(job), str(sub)],
        env=env, cwd=sub, capture_output=True, timeout=400)
    f = d / "out.pickle"
    if r.returncode or not f.exists():
        raise RuntimeError("the other interpreter: "
                           + r.stderr.decode(errors="replace")[-1500:])
    return pickle.loads(f.read_bytes())


def run_case(rng, mon, idx):
    if not work.MODS:
        work.prepare()
    gc.collect()
    how = "environment" if idx % 12 == 5 else rng.choice(
        ["history", "history", "turns", "inside"])
    # (those of C20 change the working directory of the whole process)
    ws = work.pick(rng, {"history": rng.randint(3, 7), "turns": rng.randint(
        2, 4), "inside": rng.randint(2, 3), "environment": 14}[how],
        ("C20",) if how in ("turns", "inside") else ())
    ws = [w if rng.random() < .8 else (*w, "break") for w in ws]
    if how == "environment":
        ws += [("MORE", rng.randrange(10**6), i) for i in range(6)]
    if how == "history":
        if rng.random() < .5:
            # two of a kind: with the same names for other things
            k = rng.choice(ws)
            ws.insert(rng.randint(0, len(ws)), (k[0], k[1] + 1, *k[2:]))
        if rng.random() < .5:
            k = rng.choice(ws)
            ws.insert(rng.randint(0, len(ws)), k)
            mon.saw("repeated")
        # and the same files, but for what is in them
        k = rng.sample(range(len(ws)), 2)
        for i in sorted(k, reverse=True):
            if len(ws[i]) == 3:
                ws.insert(rng.randint(0, len(ws)), (*ws[i], "twist"))
    mon.describe({"how": how, "workloads": ws})
    fresh = {}
    dirs = []
    for i, w in enumerate(ws):
        d = mon.tmp / (f"w{i}" if how in ("turns", "inside") else "w")
        d.mkdir(exist_ok=True)
        dirs.append(d)
        if w not in fresh:
            clean(d)
            fresh[w] = child(alone, w, d)
            if fresh[w] == "hung":
                # not this property's business
                return mon.saw("hung")
        clean(d)
    again = [None] * len(ws)
    if how == "history":
        got = child(history, ws, dirs[0])
        mon.saw("histories")
    elif how in ("turns", "inside"):
        seed = rng.randrange(10**9)
        often = 0 if how == "turns" else rng.choice([.003, .03, .3])
        got = child(in_turns, ws, dirs, seed, often)
        if got == "stuck":
            return mon.saw("stuck")
        mon.saw("interleaved")
        if got:
            mon.saw("switches" + ("" if how == "turns" else "_inside"), got[2])
    else:
        got = elsewhere(ws, mon.tmp, rng), again
        if "hung" in got[0]:
            got = "hung"
        mon.saw("environments")
    if got == "hung":
        mon.fail(f"{ws} {how}: takes forever", "hung")
    if got is None:
        if all(fresh[w] is not None for w in ws):
            mon.fail(f"{ws} {how}: the process came to an end", "died")
        return
    for i, w in enumerate(ws):
        compare(mon, fresh[w], got[0][i], f"{w} ({how} of {ws})", got[1][i])
        if fresh[w] and fresh[w]["twisted"]:
            mon.saw("twisted" if w[3] == "twist" else "broken")
        if i:
            mon.sig(how, ws[i - 1][0], w[0])


def main(job, sub):
    work.prepare()
    if os.environ.get("C25_LISTING"):
        backwards()
    d = Path(sub)
    out = [child(alone, tuple(w), d) for w in json.loads(
        Path(job).read_text()) if not clean(d)]
    Path(job).with_name("out.pickle").write_bytes(pickle.dumps(out))


if __name__ == "__main__":
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
    main(*sys.argv[1:])
