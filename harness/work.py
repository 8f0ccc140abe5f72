"""
Workloads of all other checks, watched from the outside (C24, C25).

Every check's run_case() writes a product (or several), uses pdr on it in its
own way, and compares. Here the same workloads run with pdr's public interface
tapped: what goes in and what comes out of every call is passed to a listener,
which judges something other than the values: effects on the rest of the
world (C24), or that they are the same as in another process (C25).
"""
from __future__ import annotations

import gc
import hashlib
import importlib
import pkgutil
import random
import re
import threading
import traceback
import warnings
from contextlib import contextmanager
from pathlib import Path

import numpy as np
import pandas as pd

import lib
import pdr
import pdr.pdr as P

SOURCES = {
    "C01": 3, "C02": 3, "C03": 3, "C04": 3, "C05": 3, "C06": 2, "C07": 1,
    "C08": 2, "C09": 1, "C10": 2, "C11": 1, "C12": 2, "C13": 3, "C14": 3,
    "C15": 4, "C16": 4, "C17": 4, "C18": 2, "C19": 4, "C20": 3, "C21": 2,
    "C22": 9, "C23": 3,
    "MORE": 4,
}
CALLS = ("__init__", "load", "load_all", "get_scaled", "show", "dump_browse",
         "find_special_constants", "metaget", "metablock", "__str__",
         "__repr__")
MODS = {}


def prepare():
    """
    import everything that pdr imports when it is needed, so that importing
    is nothing that reading does
    """
    import astropy.io.fits  # noqa
    import astropy.table  # noqa
    import PIL.Image
    import PIL.ImageFile  # noqa
    import pdr.formats
    import pdr.loaders
    import pdr.pds4_tools
    PIL.Image.init()
    for pkg in (pdr, pdr.formats, pdr.loaders, pdr.pds4_tools):
        for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
            if "test" in m.name or "viewer" in m.name:
                continue
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    for p in SOURCES:
        MODS[p] = importlib.import_module(f"checks.{p.lower()}")
    warmup()


def warmup():
    """let libraries do what they do once"""
    import io
    from PIL import Image
    from astropy.io import fits
    b = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(np.zeros((2, 2)))]).writeto(b)
    fits.open(io.BytesIO(b.getvalue()))[0].data
    b = io.BytesIO()
    Image.new("L", (2, 2)).save(b, "PNG")
    Image.open(io.BytesIO(b.getvalue())).load()
    pd.read_csv(io.StringIO("1 2\n3 4\n"), sep=r"\s+")
    pd.read_fwf(io.StringIO("1 2\n3 4\n"))


def pick(rng, n, but=()):
    """n workloads: (check, seed, index)"""
    names = [p for p in SOURCES if p not in but]
    return [(rng.choices(names, [SOURCES[p] for p in names])[0],
             rng.randrange(10**6), rng.randrange(10**6)) for _ in range(n)]


class Tap:
    """
    calls of the outermost public methods, seen by a listener with
    before(name, args) and after(name, args, outcome, error)
    """
    def __init__(self, listener):
        self.listener = listener
        self.depth = threading.local()
        self.old = {}

    def __enter__(self):
        for name in CALLS:
            # (may be inherited)
            self.old[name] = P.Data.__dict__.get(name)
            setattr(P.Data, name, self.wrap(name, getattr(P.Data, name)))
        return self

    def __exit__(self, *_):
        for name, f in self.old.items():
            if f is None:
                delattr(P.Data, name)
            else:
                setattr(P.Data, name, f)

    def wrap(self, name, f):
        depth, seen = self.depth, self.listener

        def call(*args, **kw):
            if getattr(depth, "n", 0):
                return f(*args, **kw)
            depth.n = 1
            out = err = None
            try:
                state = seen.before(name, args, kw)
                try:
                    out = f(*args, **kw)
                    return out
                except Exception as ex:
                    err = ex
                    raise
                finally:
                    seen.after(name, args, kw, out, err, state)
            finally:
                depth.n = 0
        call.__name__ = name
        call.__doc__ = f.__doc__
        return call


class Deaf(lib.Monitor):
    """a workload goes on whatever its own oracle finds"""
    def fail(self, msg, mech="generic"):
        pass

    def check(self, cond, msg, mech="generic"):
        pass


def run(work, tmp, tier="quick"):
    """run a workload; whatever it finds is the business of its own check"""
    prop, seed, idx = work[:3]
    mon = Deaf(Path(tmp), tier)
    rng = lib.case_rng(seed, prop, idx)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            MODS[prop].run_case(rng, mon, idx)
    except lib.Skip:
        return "skipped"
    except Exception as ex:
        traceback.clear_frames(ex.__traceback__)
        return type(ex).__name__
    finally:
        mon.desc = None
    return "done"


ADDR = re.compile(r"0x[0-9a-fA-F]{6,}")


def canon(v, tmp, depth=0):
    """a value as nested tuples, the same for equal values in any process"""
    if depth > 40:
        return "deep"
    n = type(v).__name__
    if v is None or isinstance(v, (bool, int)):
        return (n, v)
    if isinstance(v, float):
        return (n, repr(v))
    if isinstance(v, str):
        return (n, ADDR.sub("0x", v.replace(str(tmp), "TMP")))
    if isinstance(v, (bytes, bytearray)):
        return (n, hashlib.sha256(v).hexdigest())
    if isinstance(v, Path):
        return (n, str(v).replace(str(tmp), "TMP"))
    if isinstance(v, np.ma.MaskedArray):
        m = np.ma.getmaskarray(v)
        d = np.where(m, np.zeros((), v.dtype), v.data) if v.dtype.names is \
            None else v.data
        return (n, str(v.dtype), v.shape, canon(np.asarray(d), tmp),
                hashlib.sha256(m.tobytes()).hexdigest())
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            return (n, str(v.dtype), v.shape,
                    [canon(x, tmp, depth + 1) for x in v.ravel().tolist()])
        return (n, str(v.dtype), v.shape,
                hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, np.generic):
        return (n, str(v.dtype), repr(v))
    if isinstance(v, pd.DataFrame):
        return (n, [canon(c, tmp, depth + 1) for c in v.columns],
                [str(d) for d in v.dtypes], len(v),
                [canon(list(v.iloc[:, i]), tmp, depth + 1)
                 for i in range(v.shape[1])])
    if isinstance(v, (pd.Series, pd.Index)):
        return (n, str(v.dtype), canon(list(v), tmp, depth + 1))
    if hasattr(v, "getroot"):
        from xml.etree import ElementTree
        try:
            return (n, ElementTree.tostring(v.getroot()).hex())
        except Exception:
            return n
    if "Header" in n and hasattr(v, "tostring"):
        return (n, repr(v))
    if hasattr(v, "mode") and hasattr(v, "tobytes"):       # an image
        return (n, v.mode, v.size, hashlib.sha256(v.tobytes()).hexdigest())
    if hasattr(v, "items"):
        return (n, [(canon(k, tmp, depth + 1), canon(x, tmp, depth + 1))
                    for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (n, [canon(x, tmp, depth + 1) for x in v])
    if isinstance(v, (set, frozenset)):
        return (n, sorted(repr(canon(x, tmp, depth + 1)) for x in v))
    return (n, ADDR.sub("0x", repr(v)).replace(str(tmp), "TMP")
            if type(v).__repr__ is not object.__repr__ else "")


def digest(v, tmp):
    return hashlib.sha256(repr(canon(v, tmp)).encode(
        "utf-8", "backslashreplace")).hexdigest()[:20]


def look(data, tmp):
    """everything that a reader holds, without loading anything"""
    out = {}
    d = data.__dict__
    for k in ("filename", "labelname", "standard", "index", "file_mapping",
              "identifiers", "search_paths"):
        out[k] = digest(d.get(k), tmp)
    if d.get("metadata") is not None:
        out["metadata"] = digest(d["metadata"], tmp)
        out["fieldcounts"] = digest(sorted(
            (str(a), b) for a, b in d["metadata"].fieldcounts.items()), tmp)
        # names to which several keys may be equally similar
        for text in ("LINE", "INSTRUMENT", "TIMES", ""):
            try:
                v = d["metadata"].metaget_fuzzy(text)
            except Exception as ex:
                v = type(ex).__name__
            out["most similar to " + text] = digest(v, tmp)
    for k in d.get("index", ()):
        if k in d:
            out["object " + str(k)] = digest(d[k], tmp)
    return out


def tree(d):
    """the files below a directory and what is in them"""
    out = {}
    for p in sorted(Path(d).rglob("*")):
        st = p.lstat()
        if p.is_symlink():
            out[str(p.relative_to(d))] = "link"
        elif p.is_dir():
            out[str(p.relative_to(d))] = "dir"
        elif st.st_size > 4_000_000:
            out[str(p.relative_to(d))] = (st.st_size, st.st_mtime_ns)
        else:
            out[str(p.relative_to(d))] = (
                st.st_size, st.st_mtime_ns, st.st_mode,
                hashlib.sha256(p.read_bytes()).hexdigest())
    return out
