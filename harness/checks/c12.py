"""C12: lifecycle of the objects of a product"""
import os
import warnings

import numpy as np
import pandas as pd
from multidict import MultiDict

import pdr
from checks.c02 import make_objs
from checks.c02 import snapshot as snap02
from checks.c15 import primary_keys
from fitsw import gen_file, write
from pdr.errors import AlreadyLoadedError
from pds3w import build_product, IDENTIFIERS, Obj, render, write_detached

PROP = "C12"
CASES = {"quick": 360, "thorough": 5000}
RULE = (
    "case = one product (PDS3 attached / detached / split with some files "
    "missing at first and unsupported objects; FITS; FITS behind a PDS3 "
    "label; multi-frame GIF; PDS4) and a random history of 30-60 operations "
    "on one reader (item and attribute access, load, load again, reload, load "
    "all, unknown names, membership, unloaded, repr, iteration, in-place "
    "modification, replacement, deletion, files coming and going), with a "
    "second reader of the same product used in between; oracle: a state "
    "machine of what is loaded, by identity and content. A behaviour is "
    "(product kind, operation, state of the object)"
)
REQUIRED = ("ops", "identity_checks", "already_loaded", "reloads", "load_all",
            "unknown", "mutations", "missing_files", "iterations", "deleted",
            "companions", "kind_pds3", "kind_fits", "kind_gif",
            "kind_pds3fits", "kind_pds4", "unsupported", "ignored")


class Missing:
    """what an object that cannot be loaded should be"""


def snapshot(v):
    return v.to_string() if hasattr(v, "getroot") else snap02(v)


def frame(rng, n):
    from PIL import Image
    return Image.frombytes("RGB", (8, 6), rng.randbytes(144))


def make_product(rng, mon):
    """
    (path, initial keys, {name: file or None}, companions of each name,
     names ignored by load_all, kind)
    """
    kind = rng.choice(["pds3", "pds3", "pds3", "fits", "gif", "pds3fits",
                       "pds4"])
    d = mon.tmp
    comp, ignored, gone = {}, set(), {}
    if kind == "pds3":
        objs, dup = make_objs(rng)
        mode = rng.choice(["attached", "detached", "split"])
        extra = []
        for nm in rng.sample(["DATA_SET_DESC", "SPECIAL_DESCRIPTION",
                              "WEIRD_THING", "NOTES_TEXT"],
                             rng.randint(0, 3)):
            extra.append((f"^{nm}", nm.lower() + ".txt"))
            (d / (nm.lower() + ".txt")).write_text(f"about {nm}\n")
        path, info = build_product(rng, d, objs, mode=mode, extra=extra)
        data = pdr.read(path)
        keys = list(data.keys())
        exp = {"LABEL"} | {o.name for o in objs} | {n[1:] for n, _ in extra}
        mon.check(set(keys) == exp, lambda: f"keys {keys}, written {exp}",
                  "keys")
        ignored = {n[1:] for n, _ in extra if "DESC" in n}
        files = {n: None for n in keys}
        if mode == "split":
            for o in objs:
                files[o.name] = info["files"].get(o.name)
        for n, f in extra:
            files[n[1:]] = d / f
        if any("WEIRD" in n for n, _ in extra):
            mon.saw("unsupported")
    elif kind in ("fits", "pds3fits"):
        hdus = gen_file(rng, rng.randint(1, 4), ["SCI", "ERR", "EVENTS"])
        blob, where = write(hdus)
        (d / "a.fits").write_bytes(blob)
        if kind == "fits":
            path = d / "a.fits"
            names, order = primary_keys(hdus)
            keys = [names[i] for i in order]
            names = keys
        else:
            ptr, names = [], []
            for i, (h, (a, b)) in enumerate(zip(hdus, where)):
                if not h.data:
                    continue
                n = f"{'IMAGE' if h.kind == 'image' else 'TABLE'}_{i}"
                names.append(n)
                ptr.append(("^" + n, ("a.fits", b // 2880 + 1)))
            path = write_detached(d, "p", [
                ("PDS_VERSION_ID", "PDS3"), ("RECORD_BYTES", 2880),
                *IDENTIFIERS, *ptr])
            keys = ["LABEL"] + names
        comp = {n: [n + "_HEADER"] for n in names}
        files = {n: None for n in keys}
    elif kind == "gif":
        n = rng.choice([1, 2, 5])
        fr = [frame(rng, i) for i in range(n)]
        path = d / "a.gif"
        fr[0].save(path, save_all=True, append_images=fr[1:])
        keys = ["IMAGE"] if n == 1 else [f"FRAME_{i}" for i in range(n)]
        files = {k: None for k in keys}
    else:
        from pds4w import simple_product
        path, keys = simple_product(rng, d)
        files = {k: None for k in keys}
    mon.saw("kind_" + kind)
    return path, keys, files, comp, ignored, kind


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = f(*a, **k)
    return out, [x for x in w if x.category is not ResourceWarning]


def mutate(rng, v):
    """change an object in place; False if it can't be"""
    if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
        if v.dtype.kind in "iuf":
            f = v.reshape(-1) if v.flags.c_contiguous else None
            if f is None:
                return False
            f[0] = f[0] + 1 if np.isfinite(f[0]) and f[0] < 100 else 3
            return True
    if isinstance(v, pd.DataFrame) and len(v):
        v["NEW_COLUMN"] = list(range(len(v)))
        return True
    return False


def run_case(rng, mon, idx):
    path, keys, files, comp, ignored, kind = make_product(rng, mon)
    fresh = pdr.read(path)
    mon.check(list(fresh.keys()) == keys,
              lambda: f"keys {fresh.keys()}, should be {keys}", "keys")
    truth = {}
    for k in keys:
        truth[k] = snapshot(quiet(lambda: pdr.read(path)[k])[0])
        for c in comp.get(k, ()):
            truth[c] = snapshot(quiet(lambda: (r := pdr.read(path), r[k],
                                               r[c]))[0][2])
    desc = []
    mon.describe({"kind": kind, "keys": keys, "ops": desc})
    # some files are not there to begin with
    away = {}
    for k in keys:
        if files.get(k) is not None and rng.random() < 0.3:
            f = files[k]
            if f in away.values():
                continue
            os.rename(f, str(f) + ".moved")
            away[k] = f
    data = pdr.read(path)
    other = pdr.read(path)
    keys = list(keys)
    parent = {}
    ref, state = {}, {}
    if kind == "pds4":        # the label is read when the product is opened
        ref["label"], state["label"] = data.getattr("label"), "clean"
    # loaded objects; name -> clean|dirty|fallback

    def unavailable(n):
        return n in away

    def note(op, n=None):
        desc.append((op, n))
        mon.saw("ops")
        mon.sig(kind, op, state.get(n, "unloaded") if n else "")

    def settle(n, why):
        """n has just been loaded: see what we got"""
        if n in parent:
            # headers come with their objects; a loaded object stays as it was
            if parent[n] not in state:
                settle(parent[n], why)
                return
        v = data.getattr(n)
        if unavailable(n):
            exp = data.metaget_(n)
            mon.check(v is exp or snapshot(v) == snapshot(exp),
                      lambda: f"{why}: {n}, whose file is missing, is {v!r}, "
                              f"not its metadata {exp!r}", "fallback")
            state[n] = "fallback"
            mon.saw("missing_files")
        else:
            mon.check(snapshot(v) == truth[n],
                      lambda: f"{why}: {n} is not what the file has: "
                              f"{str(v)[:300]}", "content")
            state[n] = "clean"
        ref[n] = v
        for c in comp.get(n, ()):
            mon.check(c in data.keys(), lambda: f"{why}: no {c} in "
                      f"{data.keys()}", "companion")
            cv = data.getattr(c)
            mon.check(snapshot(cv) == truth[c], lambda: f"{why}: {c} is not "
                      f"what the file has", "content")
            if c not in keys:
                keys.append(c)
            parent[c] = n
            ref[c], state[c] = cv, "clean"
            mon.saw("companions")

    def target(n):
        """the object whose file gives n"""
        return parent.get(n, n)

    def steady(why):
        """nothing else has changed"""
        mon.check(list(data.keys()) == keys, lambda: f"{why}: keys "
                  f"{data.keys()}, should be {keys}", "keys")
        mon.check(data.unloaded() == tuple(k for k in keys if k not in state),
                  lambda: f"{why}: unloaded() = {data.unloaded()}, should be "
                          f"{[k for k in keys if k not in state]}",
                  "unloaded")
        for k in state:
            mon.check(data.getattr(k) is ref[k], lambda: f"{why}: {k} became "
                      f"another object", "identity")
            if state[k] == "clean":
                mon.check(snapshot(ref[k]) == truth[k],
                          lambda: f"{why}: {k} changed", "changed")
            mon.saw("identity_checks")

    def warned_missing(n, w, why):
        if unavailable(n):
            mon.check(w,
                      lambda: f"{why}: no warning that the file of {n} is "
                              f"missing: {[str(x.message) for x in w]}",
                      "nowarning")

    ops = ["item", "item", "attr", "load", "reload", "all", "unknown",
           "contains", "repr", "iter", "mutate", "replace", "delete", "other",
           "files", "len", "nonkey"]
    weights = [6, 4, 4, 4, 3, 1, 1, 1, 1, .5, 3, 1, 2, 1, 2, 1, 1]
    for _ in range(rng.randint(30, 60)):
        op = rng.choices(ops, weights)[0]
        n = rng.choice(keys)
        why = f"[{kind}] {op} {n} (op {len(desc)})"
        if op in ("item", "attr"):
            note(op, n)
            get = (lambda: data[n]) if op == "item" else (
                lambda: getattr(data, n))
            v, w = quiet(get)
            if n in state:
                mon.check(v is ref[n], lambda: f"{why}: gave another object",
                          "identity")
                mon.check(not w, lambda: f"{why}: warned again: "
                          f"{[str(x.message) for x in w]}", "warning")
            else:
                warned_missing(target(n), w, why)
                settle(n, why)
                mon.check(v is ref[n], lambda: f"{why}: gave another object",
                          "identity")
        elif op == "load":
            note(op, n)
            if n in state:
                try:
                    quiet(data.load, n)
                    mon.fail(f"{why}: loaded again without complaint",
                             "reloaded")
                except AlreadyLoadedError:
                    mon.saw("already_loaded")
            else:
                r, w = quiet(data.load, n)
                warned_missing(target(n), w, why)
                mon.check(r is None, lambda: f"{why}: returned {r!r}",
                          "return")
                settle(n, why)
        elif op == "reload":
            note(op, n)
            old = ref.get(n)
            _, w = quiet(data.load, n, reload=True)
            settle(n, why)
            if isinstance(old, (np.ndarray, pd.DataFrame)) and state[
                    n] == "clean":
                mon.check(ref[n] is not old, lambda: f"{why}: still "
                          f"the same object", "reload")
            mon.saw("reloads")
        elif op == "all":
            note(op)
            todo = [k for k in keys if k not in state and k not in ignored]
            quiet(data.load, "all")
            for k in todo:
                if k not in state:
                    settle(k, why)
            if ignored:
                mon.saw("ignored")
            mon.saw("load_all")
        elif op == "unknown":
            note(op)
            bad = rng.choice([b for b in ("NO_SUCH", n + "_X",
                                          n.lower() + "q", "")
                              if b not in keys])
            try:
                quiet(data.load, bad)
                mon.fail(f"load({bad!r}) did not raise", "unknown")
            except KeyError:
                pass
            try:
                quiet(lambda: data[bad])
                mon.fail(f"data[{bad!r}] did not raise", "unknown")
            except AttributeError:
                pass
            mon.check(bad not in data, lambda: f"{bad!r} in data", "contains")
            mon.saw("unknown")
        elif op == "contains":
            note(op, n)
            mon.check(n in data, f"{n} not in data", "contains")
        elif op == "len":
            mon.check(len(data) == len(keys), "len", "len")
        elif op == "repr":
            note(op)
            for t in (repr(data), str(data)):
                mon.check(str(path) in t, f"{t} lacks the file", "repr")
                rest = [k for k in keys if k not in state]
                mon.check(("not yet loaded" in t) == bool(rest) and
                          all(k in t for k in keys),
                          lambda: f"repr {t}; unloaded {rest}", "repr")
        elif op == "iter":
            note(op)
            before = [k for k in keys if k not in state]
            got, w = quiet(list, data)
            for k in before:
                if k not in state:
                    settle(k, why)
            mon.check(any(issubclass(x.category, DeprecationWarning)
                          for x in w), "iteration gave no warning",
                      "nowarning")
            mon.check(len(got) == len(keys) and all(
                a is ref[k] for a, k in zip(got, keys)),
                lambda: f"{why}: iteration gave {len(got)} objects for "
                        f"{keys}, or others", "iteration")
            mon.saw("iterations")
        elif op == "mutate":
            if n in state and state[n] != "fallback" and mutate(rng, ref[n]):
                note(op, n)
                state[n] = "dirty"
                mon.saw("mutations")
        elif op == "replace":
            if n in state:
                note(op, n)
                v = rng.choice([np.zeros(3), "text", [1]])
                setattr(data, n, v)
                ref[n], state[n] = v, "dirty"
        elif op == "delete":
            if n in state:
                note(op, n)
                delattr(data, n)
                del state[n]
                mon.saw("deleted")
        elif op == "other":
            note(op, n)
            if n in truth and n in other.keys() and not unavailable(n):
                if not any(unavailable(k) for k in [n]):
                    v, _ = quiet(lambda: other[n])
                    if n not in data.__dict__ or state.get(n) != "x":
                        mon.check(snapshot(v) == truth[n] or
                                  n in getattr(other, "_tainted", ()),
                                  lambda: f"{why}: another reader sees "
                                          f"{str(v)[:200]}", "shared")
                    other._tainted = getattr(other, "_tainted", set()) | {n}
                    if mutate(rng, v):
                        mon.saw("mutations")
        elif op == "files":
            if away and rng.random() < .6:
                k = rng.choice(list(away))
                note("restore", k)
                os.rename(str(away[k]) + ".moved", away.pop(k))
            else:
                f = files.get(n)
                if f is not None and n not in away and all(
                        f != g for g in away.values()):
                    note("remove", n)
                    os.rename(f, str(f) + ".moved")
                    away[n] = f
        mon.check(data.index is data.keys() or list(data.keys()) == keys,
                  "keys", "keys")
        steady(why)
