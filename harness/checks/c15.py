"""C15: FITS files, on their own or behind a PDS3 label"""
import gzip
import math

import numpy as np
import pandas as pd
from multidict import MultiDict

import pdr
from enc import numbered
from fitsw import gen_file, write
from pds3w import IDENTIFIERS, Obj, Qty, write_detached

PROP = "C15"
CASES = {"quick": 500, "thorough": 8000}
RULE = (
    "case = one FITS file of 1-6 HDUs (images of every BITPIX, 1-4 axes, "
    "scaled and unsigned, plain or in compressed tiles; stubs; binary tables of every scalar type, vector "
    "and 2-D cells, bits, scaled, unsigned and "
    "variable-length columns, repeated names; ASCII "
    "tables; repeated, missing and spaced names; headers of every value kind) "
    "written without astropy, opened on its own or through PDS3 pointers in "
    "records, bytes, either unit, or with none; oracle: the values and cards "
    "written. A behaviour is (opened how, pointer form, HDU kind, scaling, "
    "features)"
)
REQUIRED = ("images_compared", "tables_compared", "headers_compared", "stubs",
            "primary_mode", "pds3_mode", "names_like_headers", "duplicate_names", "gz", "scaled",
            "unsigned", "multidim", "bare_pointer", "records_unit", "tiled",
            "variable_length", "bad_cards", "hopeless_cards", "odd_cards",
            "blank_cards")


def close(got, exp, scale=None):
    if isinstance(exp, bool) or isinstance(got, (bool, np.bool_)):
        return bool(got) == exp
    if isinstance(exp, str):
        return got == exp
    if isinstance(exp, complex):
        return complex(got) == exp
    if isinstance(exp, int):
        return int(got) == exp and float(got) == float(exp)
    if math.isnan(exp):
        return math.isnan(got)
    if float(got) == exp:
        return True
    return scale is not None and abs(float(got) - exp) <= scale


def check_array(mon, got, h, where):
    mon.check(isinstance(got, np.ndarray), lambda: f"{where}is a {type(got)}",
              "type")
    if h.exp[0] == "empty":
        mon.check(got.size == 0, lambda: f"{where}stub HDU read as {got!r}",
                  "stub")
        mon.saw("stubs")
        return
    _, shape, vals, kind, size, exact = h.exp
    mon.check(got.shape == shape,
              lambda: f"{where}shape {got.shape}, written {shape}", "shape")
    flat = got.ravel().tolist()
    if exact:
        mon.check(got.dtype.kind == kind and got.dtype.itemsize == size,
                  lambda: f"{where}dtype {got.dtype}, written {kind}{size}",
                  "dtype")
        for i, (g, e) in enumerate(zip(flat, vals)):
            mon.check(close(g, e), lambda: f"{where}element {i} is {g}, "
                                           f"written {e}", "value")
    else:
        mon.check(got.dtype.kind == "f" or
                  all(isinstance(v, int) for v in vals),
                  lambda: f"{where}dtype {got.dtype} for scaled values",
                  "dtype")
        with np.errstate(all="ignore"):
            ex = np.array(vals, "f8").astype(got.dtype)
            raw = np.array(h.meta["raw"], "f8")
            tol = (np.abs(raw) * 2 + 101) * np.finfo(
                got.dtype if got.dtype.kind == "f" else "f8").eps * 4
            d = np.abs(got.ravel().astype("f8") - ex.astype("f8"))
            ok = (d <= tol) | (got.ravel() == ex) | (
                np.isnan(got.ravel()) & np.isnan(ex)) | ~np.isfinite(tol)
        mon.check(ok.all(), lambda: f"{where}scaled values "
                  f"{got.ravel()[~ok][:4]} should be {ex[~ok][:4]}", "scaled")
        mon.saw("scaled")
    mon.saw("unsigned", int(h.meta["scale"] == "unsigned"))
    mon.saw("images_compared")


KINDS = {"b": "b", "u": "iu", "i": "iu", "f": "f", "c": "c"}


def check_table(mon, got, h, where):
    mon.check(isinstance(got, pd.DataFrame), lambda: f"{where}is a "
              f"{type(got)}", "type")
    cols = h.exp[1]
    mon.check(list(got.columns) == [c[0] for c in cols],
              lambda: f"{where}columns {list(got.columns)}, written "
                      f"{[c[0] for c in cols]}", "columns")
    for i, (name, kind, vals) in enumerate(cols):
        s = got.iloc[:, i]
        mon.check(len(s) == len(vals), lambda: f"{where}{len(s)} rows, "
                  f"written {len(vals)}", "rows")
        mon.check(getattr(s.dtype, "isnative", True), lambda: f"{where}column "
                  f"{name} is in foreign byte order ({s.dtype.str})", "order")
        if kind == "v":
            for r, (g, e) in enumerate(zip(s.tolist(), vals)):
                g = np.asarray(g)
                mon.check(g.shape == (len(e),) and all(map(
                    close, g.tolist(), e)), lambda: f"{where}column {name} "
                    f"row {r} is {g!r}, written {e!r}", "cell")
            mon.saw("variable_length")
            continue
        if kind != "s" and len(vals):
            mon.check(s.dtype.kind in KINDS[kind], lambda: f"{where}column "
                      f"{name} has dtype {s.dtype}, written as {kind}",
                      "dtype")
        for r, (g, e) in enumerate(zip(s.tolist(), vals)):
            if kind == "s" and isinstance(g, str):
                g = g.rstrip()
            mon.check(close(g, e), lambda: f"{where}column {name} row {r} is "
                      f"{g!r}, written {e!r}", "cell")
    mon.saw("tables_compared")
    mon.saw("multidim", int("*" in h.meta["what"]))


def check_header(mon, got, h, where):
    mon.check(isinstance(got, MultiDict), lambda: f"{where}header is a "
              f"{type(got)}", "type")
    g, e = list(got.items()), h.header
    bad = {c[1][:8].strip(): c[2] for c in h.cards if c[0] == "BAD"}
    for k, text in bad.items():
        # whatever it is made of: nothing else may be lost
        # (with a hopeless one in the file, it may be left out)
        mon.check(h.meta["hopeless"] or text in str(got.get(k)), lambda:
                  f"{where}header card {k} with {text!r} is "
                  f"{got.get(k)!r}", "bad card")
        mon.saw("bad_cards" if text else "hopeless_cards")
    g = [x for x in g if x[0] not in bad
         and x[0].removesuffix("_comment") not in bad]
    g = [(k, complex(v)) if (k, str) == ("COMPLEX", type(v)) else (k, v)
         for k, v in g]
    for c in h.cards:
        if c[0] in ("ODD", "BLANK"):
            mon.saw(c[0].lower() + "_cards")
    if h.meta.get("tiled"):
        # how the image is stored is told somewhere among them, or nowhere
        mon.saw("tiled")
        # (no BZERO is a BZERO of zero)
        e = [x for x in e if x[0] not in ("BSCALE", "BZERO")]
        mon.check(all(x in g for x in e), lambda: f"{where}header of a tiled "
                  f"image lacks {[x for x in e if x not in g]}", "header")
        mon.saw("headers_compared")
        return
    ok = [k for k, _ in g] == [k for k, _ in e] and all(
        type(a) is type(b) and a == b for (_, a), (_, b) in zip(g, e))
    mon.check(ok, lambda: f"{where}header has "
              f"{[x for x in g if x not in e][:3]} / lacks "
              f"{[x for x in e if x not in g][:3]} (or order: {len(g)} vs "
              f"{len(e)})", "header")
    mon.saw("headers_compared")


def check_hdu(mon, got, h, where):
    if h.kind == "image":
        check_array(mon, got, h, where)
    else:
        check_table(mon, got, h, where)


def primary_keys(hdus):
    """name of each HDU in 'primary' mode, and the order of the keys"""
    nm = [(h.name or ("PRIMARY" if i == 0 else "")) for i, h in
          enumerate(hdus)]
    out, order = [None] * len(nm), []
    for n in dict.fromkeys(nm):
        ix = [i for i, m in enumerate(nm) if m == n]
        new = [n] if len(ix) == 1 else numbered(n, len(ix), nm)
        for j, i in enumerate(ix):
            out[i] = new[j]
            order.append(i)
    return out, order


def run_case(rng, mon, idx):
    hdus = gen_file(rng, tiled=True)
    blob, where = write(hdus)
    pds3 = rng.random() < 0.5
    gz = rng.random() < 0.15
    fn = mon.tmp / ("a.fits" + (".gz" if gz else ""))
    fn.write_bytes(gzip.compress(blob) if gz else blob)
    mon.saw("gz", int(gz))
    mon.describe({"hdus": [(h.meta["what"], h.name, h.meta["scale"])
                           for h in hdus], "pds3": pds3, "gz": gz})
    if not pds3:
        names, order = primary_keys(hdus)
        data = pdr.read(fn)
        mon.check(data.standard == "FITS", "not FITS", "standard")
        exp_keys = [names[i] for i in order]
        mon.check(data.keys() == exp_keys, lambda: f"keys {data.keys()}, "
                  f"written {exp_keys}", "keys")
        mon.saw("duplicate_names", int(len(set(h.name for h in hdus[1:]))
                                       < len(hdus) - 1))
        for i in rng.sample(range(len(hdus)), len(hdus)):
            h, n = hdus[i], names[i]
            wh = f"HDU {i} {n!r} ({h.meta['what']}): "
            if rng.random() < .3:
                check_header(mon, data.metadata[n], h, wh + "metadata ")
            check_hdu(mon, data[n], h, wh)
            if n + "_HEADER" not in exp_keys:
                check_header(mon, data[n + "_HEADER"], h, wh)
            else:
                mon.saw("names_like_headers")
            if h.kind == "image" and h.exp[0] == "array":
                mon.check(data.get_scaled(n) is data[n],
                          lambda: f"{wh}scaled twice", "rescaled")
            mon.sig("primary", h.meta["what"], h.meta["scale"], gz,
                    "+".join(sorted(h.meta.get("used", ()))))
        mon.check(set(data.keys()) == set(exp_keys) | {
            n + "_HEADER" for n in exp_keys}, lambda: f"keys {data.keys()}",
            "keys")
        mon.saw("primary_mode")
        return
    items = [("PDS_VERSION_ID", "PDS3"), ("RECORD_TYPE", "FIXED_LENGTH"),
             ("RECORD_BYTES", 2880), *IDENTIFIERS]
    form = rng.choice(["records", "bytes", "records_unit", "none"])
    ptrs, todo = [], []
    for i, h in enumerate(hdus):
        if form == "none" and i != 0:
            break
        a, b = where[i]
        last = not h.data and i + 1 < len(hdus)
        base = rng.choice(["IMAGE", "MASK_IMAGE", "DATA"]) if h.kind == \
            "image" else rng.choice(["TABLE", "EVENT_TABLE", "SERIES"])
        base = f"{base}_{i}" if i or rng.random() < .5 else base
        for which, off, nm in (("h", a, base + "_HEADER"), ("d", b, base)):
            if which == "d" and (last or not h.data and i):
                continue        # no data of its own to point to
            if which == "d" and form == "none" and not h.data:
                continue
            if which == "h" and rng.random() < .3:
                continue
            p = {"records": off // 2880 + 1, "bytes": Qty(off + 1, "BYTES"),
                 "records_unit": Qty(off // 2880 + 1, "RECORDS")}.get(form)
            file = rng.choice(["a.fits", "A.FITS"])
            ptrs.append(("^" + nm, file if p is None else (file, p)))
            todo.append((nm, which, i))
    if not todo:
        return
    blocks = []
    for nm, which, i in todo:
        if which == "d" and rng.random() < .8:
            d = hdus[i].meta.get("dims", [1, 1])
            blocks.append(Obj(nm, [("LINES", d[-1]), ("LINE_SAMPLES", d[0]),
                                   ("SAMPLE_BITS", 8)]))
    p = write_detached(mon.tmp, "prod", items + ptrs + blocks)
    data = pdr.read(p)
    mon.check(data.keys() == ["LABEL"] + [n for n, _, _ in todo],
              lambda: f"keys {data.keys()}", "keys")
    explicit = {n for n, _, _ in todo}
    for nm, which, i in rng.sample(todo, len(todo)):
        h = hdus[i]
        wh = f"{nm} [{form}] -> HDU {i} ({h.meta['what']}): "
        if which == "h":
            check_header(mon, data[nm], h, wh)
        else:
            check_hdu(mon, data[nm], h, wh)
            if h.kind == "image" and h.exp[0] == "array":
                mon.check(data.get_scaled(nm) is data[nm],
                          lambda: f"{wh}scaled twice", "rescaled")
            if nm + "_HEADER" not in explicit:
                check_header(mon, data[nm + "_HEADER"], h, wh)
        mon.sig("pds3", form, which, h.meta["what"], h.meta["scale"], gz)
    mon.saw("bare_pointer", int(form == "none"))
    mon.saw("records_unit", int(form == "records_unit"))
    mon.saw("pds3_mode")
