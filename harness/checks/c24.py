"""C24: reading changes nothing else"""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings
import weakref
from pathlib import Path

import numpy as np
import pandas as pd

import lib
import work
from twist import Twister

PROP = "C24"
CASES = {"quick": 480, "thorough": 8000}
RULE = (
    "case = a workload of another check (all of them in turn: PDS3, PDS4, "
    "FITS and desktop products, damaged ones, missions' known-bad ones), some "
    "with their files cut, garbled or emptied, "
    "with every outermost call of the public interface watched: an audit "
    "hook records everything that is opened for writing, created, removed, "
    "started or connected; the product's files (content, time and mode), the "
    "interpreter's state and the output streams are compared from before to "
    "after; then everything that was loaded is overwritten in place, and the "
    "files, and the process's open files once nothing is loaded, are "
    "compared. A behaviour is (check, call, outcome)"
)
REQUIRED = ("calls", "calls_failed", "files_compared", "state_compared",
            "scribbled", "readers_dropped", "reads_seen", "browse_written",
            "handles_checked", "files_damaged")


def options():
    out = {}
    for k in ("mode.chained_assignment", "display.max_rows",
              "display.precision", "display.width", "display.max_columns",
              "mode.copy_on_write", "compute.use_numexpr",
              "future.infer_string", "future.no_silent_downcasting",
              "io.excel.xlsx.reader"):
        with contextlib.suppress(Exception):
            out[k] = pd.get_option(k)
    return out


def fits_conf():
    from astropy.io import fits
    return {k: getattr(fits.conf, k) for k in (
        "enable_record_valued_keyword_cards", "extension_name_case_sensitive",
        "strip_header_whitespace", "use_memmap", "lazy_load_hdus",
        "enable_uint")}


def state():
    """what reading a file has no business to change"""
    import PIL.Image
    import PIL.ImageFile
    um = os.umask(0o022)
    os.umask(um)
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": um,
        "sys.path": list(sys.path),
        "sys.argv": list(sys.argv),
        "sys.stdout": sys.stdout, "sys.stderr": sys.stderr,
        "sys.stdin": sys.stdin,
        "sys.excepthook": sys.excepthook,
        "sys.displayhook": sys.displayhook,
        "threading.excepthook": threading.excepthook,
        "sys.unraisablehook": sys.unraisablehook,
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "trace": (sys.gettrace(), sys.getprofile()),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "warning filters": list(warnings.filters),
        "warnings.showwarning": (warnings.showwarning,
                                 warnings.formatwarning),
        "numpy errors": np.geterr(),
        "numpy error handler": np.geterrcall(),
        "numpy print options": np.get_printoptions(),
        "numpy random state": hash(
            np.random.get_state()[1].tobytes()) ^ np.random.get_state()[2],
        "random state": hash(random.getstate()),
        "pandas options": options(),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": {s: signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM,
            signal.SIGUSR1, signal.SIGCHLD, signal.SIGPROF)},
        "PIL truncated images": PIL.ImageFile.LOAD_TRUNCATED_IMAGES,
        "PIL pixel limit": PIL.Image.MAX_IMAGE_PIXELS,
        "FITS configuration": fits_conf(),
        "root logger": (logging.root.level, list(logging.root.handlers),
                        logging.root.disabled, logging.root.manager.disable),
        "threads": sorted(t.name for t in threading.enumerate()),
        "open": (open, io.open, os.open),
        "default temporary directory": tempfile.tempdir,
        "socket timeout": __import__("socket").getdefaulttimeout(),
    }


def handles():
    """the files that this process has open: {what: how many}"""
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            t = os.readlink(f"/proc/self/fd/{fd}")
            if t.startswith(("pipe:", "anon_inode:", "socket:")):
                t = t.split(":")[0]
            out[t] = out.get(t, 0) + 1
    return out


class Listener:
    def __init__(self, mon, tmp, w):
        self.mon, self.tmp, self.prop = mon, tmp, w[0]
        self.twist = Twister(w[3]) if len(w) > 3 else None
        self.readers = []
        self.audit = lib.auditor()
        self.bad = None

    def before(self, name, args, kw):
        if self.bad:
            return None
        if self.twist and name == "__init__":
            n = self.twist.n
            self.twist(self.tmp)
            self.mon.saw("files_damaged", self.twist.n - n)
        s = {"files": work.tree(self.tmp), "state": state(),
             "stdout": sys.stdout, "stderr": sys.stderr,
             "args": work.digest([args[1:], kw], self.tmp)}
        if name != "dump_browse":
            s["out"] = sys.stdout = io.StringIO()
        s["state"]["sys.stdout"] = sys.stdout
        self.audit.effects, self.audit.reads = [], []
        self.audit.on = True
        return s

    def after(self, name, args, kw, out, err, s):
        self.audit.on = False
        if s is None:
            return
        try:
            self.judge(name, args, kw, out, err, s)
        finally:
            sys.stdout = s["stdout"]

    def problem(self, msg, mech):
        # (the workload may swallow exceptions; so only remember it)
        self.bad = self.bad or (msg, mech)

    def judge(self, name, args, kw, out, err, s):
        mon = self.mon
        what = (f"{self.prop}: {name}("
                f"{', '.join(repr(a)[-60:] for a in args[1:])})"
                + (f" which raised {type(err).__name__}" if err else ""))
        if work.digest([args[1:], kw], self.tmp) != s["args"]:
            self.problem(f"{what} changed its arguments: {kw}", "arguments")
        effects = self.audit.effects
        mon.saw("reads_seen", len(self.audit.reads))
        now = state()
        browse = name == "dump_browse"
        if name == "__init__" and err is None:
            self.readers.append(args[0])
        for k, v in s["state"].items():
            if now[k] is v:
                continue
            try:
                same = bool(now[k] == v)
            except Exception:
                same = repr(now[k]) == repr(v)
            if not same:
                self.problem(f"{what} changed the {k}: {str(v)[:300]} to "
                             f"{str(now[k])[:300]}", "state")
        mon.saw("state_compared", len(now))
        if not browse and s["out"].getvalue():
            self.problem(f"{what} printed {s['out'].getvalue()[:200]!r}",
                         "printed")
        after = work.tree(self.tmp)
        new = {k for k in after if k not in s["files"]}
        if browse:
            # the files that it is asked to write, and only those
            mon.saw("browse_written", len(new))
            where = Path(kw.get("outpath") or ".").absolute()
            for e, p in effects:
                q = Path(str(p).split("'")[1] if e != "open-for-write" else p)
                if e != "open-for-write" and e != "os.mkdir" or \
                        q.absolute().parent != where:
                    self.problem(f"{what}, which writes to {where}, did {e} "
                                 f"{p}", "effect")
        else:
            for e, p in effects:
                self.problem(f"{what} did {e} {p}", "effect")
            if new:
                self.problem(f"{what} created {sorted(new)}", "created")
        for k, v in s["files"].items():
            if after.get(k) != v and not (browse and after.get(k) and any(
                    str(p).endswith(k.split("/")[-1]) for _, p in effects)):
                self.problem(f"{what} changed {k}: {v} to {after.get(k)}",
                             "file")
        mon.saw("files_compared", len(s["files"]))
        mon.saw("calls")
        mon.saw("calls_failed", int(err is not None))
        mon.sig(self.prop, name, type(out).__name__ if err is None else
                "raised " + type(err).__name__)


def scribble(v, mon, seen):
    """overwrite whatever can be overwritten, in place"""
    if id(v) in seen or v is None:
        return
    seen[id(v)] = v
    with contextlib.suppress(ValueError, TypeError, RuntimeError,
                             AttributeError, IndexError, KeyError):
        if isinstance(v, np.ndarray):
            if isinstance(v, np.ma.MaskedArray):
                scribble(v.data, mon, seen)
            if v.flags.writeable and v.size and not v.dtype.hasobject:
                v.view(np.ndarray)[...] = np.zeros((), v.dtype)
                v.view(np.ndarray).reshape(-1).view("u1")[...] = 0xA5
                mon.saw("scribbled")
            if hasattr(v, "base"):
                scribble(v.base, mon, seen)
        elif isinstance(v, pd.DataFrame):
            for i in range(v.shape[1]):
                scribble(v.iloc[:, i].to_numpy(), mon, seen)
            for c in list(v.columns):
                v[c] = 0
            mon.saw("scribbled")
        elif hasattr(v, "clear") and hasattr(v, "items"):
            v.clear()
            mon.saw("scribbled")


def run_case(rng, mon, idx):
    if not work.MODS:
        work.prepare()
    names = list(work.SOURCES)
    # each source in turn, and then by weight
    w = work.pick(rng, 1)[0]
    if rng.random() < .5:
        w = (names[idx % len(names)],) + w[1:]
    if rng.random() < .3:
        w += ("break",)
    mon.describe({"workload": w})
    tmp = mon.tmp / "w"
    tmp.mkdir()
    here = os.getcwd()
    gc.collect()
    before = handles()
    ear = Listener(mon, tmp, w)
    with work.Tap(ear):
        res = work.run(w, tmp)
    ear.audit.on = False
    os.chdir(here)
    mon.saw("workload_" + ("done" if res == "done" else "other"))
    if ear.bad:
        mon.fail(*ear.bad)
    if not ear.readers:
        return
    # what is loaded is the user's; the files are not
    files = work.tree(tmp)
    seen = {}
    for r in ear.readers:
        for k in list(r.__dict__.get("index", ())):
            scribble(r.__dict__.get(k), mon, seen)
    seen.clear()
    gc.collect()
    after = work.tree(tmp)
    for k, v in files.items():
        mon.check(after.get(k) == v, lambda: (
            f"{w[0]}: overwriting loaded objects in place changed {k}: {v} "
            f"to {after.get(k)}"), "scribble")
    refs = [weakref.ref(r) for r in ear.readers]
    for r in ear.readers:
        with contextlib.suppress(TypeError):
            refs.append(weakref.ref(r.__dict__.get("metadata")))
    r = None
    ear.readers.clear()
    ear = None
    gc.collect()
    mon.check(res != "done" or all(x() is None for x in refs), lambda: (
        f"{w[0]}: {sum(x() is not None for x in refs)} of {len(refs)} readers"
        " are kept in memory once nobody has them"), "kept")
    mon.saw("readers_dropped", len(refs))
    now = handles()
    left = {k: n for k, n in now.items() if n > before.get(k, 0)}
    mon.check(not left, lambda: (
        f"{w[0]}: still open once no reader is left: {left}"), "handles")
    mon.saw("handles_checked")
