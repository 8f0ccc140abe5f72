"""C20: browse products"""
import csv
import math
import os
import warnings

import numpy as np
import pandas as pd
from PIL import Image

import pdr
from checks.c02 import make_objs
from checks.c14 import pds3_object
from checks.c12 import make_product, quiet, snapshot
from fitsw import gen_file, write
from pds3w import build_product
from pdr.browsify import browsify
from pds4w import gen_product

PROP = "C20"
CASES = {"quick": 1200, "thorough": 15000}
RULE = (
    "case = either one array (every element type, byte order, shape, masks, "
    "invalid values, extreme ranges, sparse and constant contents) rendered "
    "with random options and compared with exact arithmetic on the pixels, or "
    "one generated product (PDS3, FITS, PDS4, images) of which some objects "
    "are loaded and dumped, in which case the files, their names, and their "
    "contents are compared with the objects. A behaviour is (kind of array or "
    "product, options)"
)
REQUIRED = ("pixels", "masked_pixels", "invalid", "multiband", "burst", "rgb",
            "sparse", "clip", "purge_render", "int64", "bool", "long_axis",
            "dumps", "tables", "texts", "images", "purged", "unloaded_kept",
            "both", "unscaled", "prefix", "cwd", "slash", "show", "vectors",
            "odd_arrays", "single_row",
            "scaling")


def gen_values(rng, shape):
    """an array of any type, perhaps masked"""
    g = np.random.default_rng(rng.randrange(2 ** 32))
    dt = rng.choice(["u1", "u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8",
                     "f2", "f4", "f4", "f8", "f8", "?"])
    how = rng.choice(["full", "small", "sparse", "const", "smooth", "normal"])
    if dt == "?":
        a = g.integers(0, 2, shape).astype("?")
    elif dt[0] in "ui":
        info = np.iinfo(dt)
        if how == "full":
            a = g.integers(info.min, info.max, shape, dtype=dt, endpoint=True)
        elif how in ("small", "normal"):
            lo = rng.choice([0, max(info.min, -100), info.max - 60])
            a = g.integers(lo, lo + 50, shape, dtype=dt)
        elif how == "sparse":
            base = rng.randint(info.min, info.max)
            a = np.full(shape, base, dt)
            f = a.reshape(-1)
            f[rng.randrange(f.size)] = rng.randint(info.min, info.max)
        elif how == "const":
            a = np.full(shape, rng.randint(info.min, info.max), dt)
        else:
            a = (np.indices(shape).sum(0) * rng.randint(1, 9)).astype(dt)
    else:
        scale = 10.0 ** (rng.randint(-2, 3) if dt == "f2" else
                         rng.randint(-20, 30))
        if how == "full":
            a = (g.random(shape) - .5) * scale
        elif how in ("small", "normal"):
            a = g.normal(1, .1, shape) * scale
        elif how == "sparse":
            a = np.zeros(shape)
            f = a.reshape(-1)
            f[rng.randrange(f.size)] = scale
        elif how == "const":
            a = np.full(shape, scale)
        else:
            a = np.indices(shape).sum(0) * scale / 100
        a = a.astype(dt)
    if dt[1:] not in ("", "1") and rng.random() < .3:
        a = a.astype(a.dtype.newbyteorder(">"))
    return a, dt, how


def finite(a):
    return np.isfinite(a) if a.dtype.kind == "f" else np.ones(a.shape, bool)


def expect(a, bad, clip):
    """
    lowest and highest acceptable pixel for each element of a (int arrays of
    exactly representable numbers or floats); None if anything goes
    """
    v = a[~bad].astype("f8")
    if v.size == 0:
        return None
    nice = clip is None
    lo, hi = (1, 1) if nice else clip if isinstance(clip, tuple) else (
        clip, clip)
    exact = a.dtype.kind in "iub"
    p0 = float(np.percentile(v, lo)) if lo else float(v.min())
    p1 = float(np.percentile(v, 100 - hi)) if hi else float(v.max())
    # where percentiles fall between integers, either neighbour will do
    los = {math.floor(p0), math.ceil(p0)} if exact and lo else {p0}
    his = {math.floor(p1), math.ceil(p1)} if exact and hi else {p1}
    # elements far from small ranges are not interesting
    out = []
    with np.errstate(all="ignore"):
        x = a.astype("f8")
    for m in los:
        for n in his:
            if m >= n or (not exact and n - m <= 1e-5 * max(abs(m), abs(n))):
                if not nice:
                    return None
                m, n = float(v.min()), float(v.max())
                if m == n or (not exact and n - m <= 1e-5 * max(
                        abs(m), abs(n))):
                    return None
            with np.errstate(all="ignore"):
                out.append(np.clip((x - m) / (n - m), 0, 1) * 255)
    tol = 1.01
    if exact and np.abs(v).max() > 2 ** 50:
        tol = 2
    return np.min(out, 0) - tol, np.max(out, 0) + tol


def check_pixels(mon, img, plane, bad, clip, color, where, rgb=False):
    """img: uint8 [y, x] or [y, x, 3]; plane: [y, x] or [y, x, 3]"""
    mon.check(img.shape[:2] == plane.shape[:2], lambda: f"{where}: image "
              f"{img.shape}, array {plane.shape}", "size")
    exp = expect(plane, bad, clip)
    if not rgb and img.ndim == 3 and (exp is not None or clip is None):
        gray = (img[..., 0] == img[..., 1]) & (img[..., 1] == img[..., 2])
        mon.check((gray | bad).all(), lambda: f"{where}: colors in a "
                  "monochrome image", "gray")
    if not rgb and img.ndim == 3:
        pix = img[..., 0]
    else:
        pix = img
    if exp is not None:
        ok = ((pix >= exp[0]) & (pix <= exp[1])) | bad
        if not ok.all():
            at = tuple(int(i) for i in np.argwhere(~ok)[0])
            mon.fail(f"{where}: element {at} of value {plane[at]!r} is "
                     f"rendered {pix[at]}, should be {exp[0][at]:.1f} to "
                     f"{exp[1][at]:.1f} ({(~ok).sum()} of {ok.size} wrong)",
                     "values")
        mon.saw("pixels", int((~bad).sum()))
    else:
        v = plane[~bad]
        if v.size and (v == v[0]).all():
            got = pix[~bad]
            mon.check((got == got[0]).all(), lambda: f"{where}: constant "
                      "image is not constant", "constant")
            if bad.any() and img.ndim == 3 and not rgb and color not in (
                    None, (0, 0, 0), (255,) * 3):
                mon.check((img[~bad] != np.array(color)).any(), lambda:
                          f"{where}: valid elements in mask color", "mask")
    if color is not None and bad.any():
        if isinstance(color, int):
            if not rgb:
                mon.check((pix[bad] == color).all(), lambda: f"{where}: "
                          "masked pixels have other values", "mask")
        else:
            if not rgb:
                ok = img.ndim == 3 and (img[bad] == np.array(color)).all()
            else:
                ok = all((img[..., i][bad[..., i]] == color[i]).all()
                         for i in range(3))
            mon.check(ok, lambda: f"{where}: masked pixels are not "
                      f"{color}", "mask")
        mon.saw("masked_pixels", int(bad.sum()))


def planes_of(arr, opts):
    """[(suffix, [y, x] or [y, x, 3] array)] that should be rendered"""
    if arr.ndim == 2:
        return [("", arr)]
    axis = opts.get("slice_axis", 0)
    arr = arr.swapaxes(0, axis)
    n = arr.shape[0]
    if opts.get("rgb_channels"):
        return [("", np.ma.stack([arr[i] for i in opts["rgb_channels"]], -1))]
    if n in (3, 4) and not opts.get("override_rgba"):
        return [("", np.ma.stack([arr[i] for i in range(3)], -1))]
    b = opts.get("band_ix")
    if b == "burst":
        return [(f"_{i}", arr[i]) for i in range(n)]
    mid = round(n / 2)
    if b is None or not -n <= b < n:
        return [("", arr[mid])]
    return [("", arr[b])]


def check_render(mon, files, base, arr, opts, where, fmt):
    """the files {name: path} made for arr"""
    clip, color = opts.get("image_clip"), opts.get("mask_color", (0, 255, 255))
    todo = planes_of(arr, opts)
    names = sorted(f"{base}{s}.{fmt}" for s, _ in todo)
    mon.check(sorted(files) == names, lambda: f"{where}: files "
              f"{sorted(files)}, should be {names}", "files")
    for s, plane in todo:
        img = np.array(Image.open(files[f"{base}{s}.{fmt}"]))
        data = np.ma.getdata(plane)
        bad = np.ma.getmaskarray(plane) | ~finite(data)
        rgb = plane.ndim == 3
        if fmt != "png":
            mon.check(img.shape[:2] == data.shape[:2], lambda: f"{where}: "
                      f"image {img.shape}, array {data.shape}", "size")
            continue
        check_pixels(mon, img, data, bad, clip, color, where, rgb)
        if rgb:
            mon.saw("rgb")


def gen_options(rng, ndim=2, shape=()):
    o = {}
    if rng.random() < .5:
        o["image_clip"] = rng.choice([0, 0, 1, 5, (0, 0), (2, 10), (0, 3),
                                      (3, 0)])
    if rng.random() < .4:
        o["mask_color"] = rng.choice([(255, 0, 0), (1, 2, 3), None, 0, 77])
    if ndim == 3:
        if rng.random() < .2:
            o["slice_axis"] = rng.choice([0, 1, 2])
        n = shape[o.get("slice_axis", 0)] if shape else 1
        if rng.random() < .4:
            o["band_ix"] = rng.choice(["burst", 0, n - 1, n, n + 5, -1])
        if rng.random() < .3:
            o["override_rgba"] = True
        if shape and rng.random() < .2:
            o["rgb_channels"] = tuple(rng.randrange(n) for _ in "rgb")
    return o


def render_case(rng, mon):
    nd = rng.choice([2, 2, 3])
    if nd == 2:
        shape = (rng.randint(1, 20), rng.randint(1, 20))
        if rng.random() < .02:
            long = rng.randint(65490, 140000)
            shape = rng.choice([(long, 1), (2, long), (long, 3)])
    else:
        shape = (rng.choice([1, 2, 3, 3, 4, 5, 7]), rng.randint(1, 12),
                 rng.randint(1, 12))
    a, dt, how = gen_values(rng, shape)
    opts = gen_options(rng, nd, shape)
    if a.dtype.kind == "f" and rng.random() < .3:
        f = a.reshape(-1)
        for _ in range(rng.randint(1, 1 + f.size // 5)):
            f[rng.randrange(f.size)] = rng.choice([np.nan, np.inf, -np.inf])
        mon.saw("invalid")
    masked = rng.random() < .3
    if masked:
        m = np.random.default_rng(rng.randrange(2 ** 32)).random(shape) < \
            rng.choice([0, .1, .5, 1])
        a = np.ma.masked_array(a, m)
    before = a.copy()
    purge = rng.random() < .3
    fmt = rng.choice(["png", "png", "png", "jpg"])
    if max(shape) > 65500:
        fmt = "jpg"
    out = mon.tmp / "out"
    out.mkdir()
    mon.describe({"dtype": str(a.dtype), "shape": shape, "content": how,
                  "masked": masked, "purge": purge, "options": str(opts),
                  "format": fmt, "array": str(a)[:500]})
    kw = dict(opts)
    if fmt != "jpg" or rng.random() < .5:
        kw["image_format"] = fmt
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            browsify(a, out / "b", purge=purge, **kw)
    except Exception as ex:
        mon.fail(f"browsify raised {ex!r}", "raise")
    files = {p.name: p for p in out.iterdir()}
    if max(shape) > 65500:
        mon.saw("long_axis")
        mon.check(list(files) == ["b.jpg"], f"files {list(files)}", "files")
        w, h = Image.open(files["b.jpg"]).size
        mon.check(max(w, h) <= 65500 and (w > h) == (shape[1] > shape[0]),
                  lambda: f"array {shape}, image {(h, w)}", "size")
        return
    check_render(mon, files, "b", before, opts, "render", fmt)
    if not purge:
        same = np.array_equal(np.ma.getdata(a), np.ma.getdata(before),
                              equal_nan=a.dtype.kind == "f")
        same = same and np.array_equal(np.ma.getmaskarray(a),
                                       np.ma.getmaskarray(before))
        mon.check(same, "rendering changed the array", "mutated")
    else:
        mon.saw("purge_render")
    if nd == 3:
        mon.saw("multiband")
    if opts.get("band_ix") == "burst" and len(files) > 1:
        mon.saw("burst")
    if how == "sparse":
        mon.saw("sparse")
    if "image_clip" in opts:
        mon.saw("clip")
    if dt in ("u8", "i8"):
        mon.saw("int64")
    if dt == "?":
        mon.saw("bool")
    mon.sig("render", dt, how, masked, purge, nd, *sorted(opts))


# ------------------------------------------------------------------ products
def slash_product(rng, mon):
    d = mon.tmp
    mon.saw("slash")
    hdus = gen_file(rng, rng.randint(1, 4), ["I/F", "A/B/C", "../up"])
    (d / "s.fits").write_bytes(write(hdus)[0])
    return d / "s.fits", "fits"


def cell_same(cell, v):
    if v is None or v is pd.NaT or (
            isinstance(v, (float, np.floating)) and v != v):
        return cell in ("", "nan", "NaN", "None")
    if isinstance(v, (complex, np.complexfloating)):
        try:
            c, v = complex(cell), complex(v)
        except ValueError:
            return cell in ("", "nan") and v != v
        return all(math.isclose(x, y, rel_tol=1e-6, abs_tol=1e-38) or x == y
                   or x != x and y != y
                   for x, y in ((c.real, v.real), (c.imag, v.imag)))
    if isinstance(v, (bool, np.bool_)):
        return cell == str(bool(v))
    if isinstance(v, (int, np.integer)):
        try:
            return int(cell) == int(v)
        except ValueError:
            return False
    if isinstance(v, (float, np.floating)):
        try:
            t = 1e-6 if isinstance(v, np.floating) and v.itemsize < 8 \
                else 1e-14
            return math.isclose(float(cell), float(v), rel_tol=t) or \
                float(cell) == float(v)
        except ValueError:
            return False
    return cell == str(v)


def check_table(mon, path, df, where):
    text = path.open(newline="", encoding="utf-8", errors="replace").read()
    if "\r" in text or "\0" in text:
        return
    with path.open(newline="") as f:
        rows = list(csv.reader(f))
    if len(df) == 1:
        mon.saw("single_row")
        cells = {r[0]: r[1] for r in rows[1:]}
        mon.check(len(rows) - 1 == len(df.columns), lambda: f"{where}: "
                  f"{len(rows)} rows for {len(df.columns)} columns", "table")
        for i, (c, r) in enumerate(zip(df.columns, rows[1:])):
            v = df.iloc[:, i].iloc[0]
            mon.check(r[0] == str(c) and cell_same(r[1], v),
                      lambda: f"{where}: {r} for {c}={v!r}", "table")
        return
    mon.check(rows[0][1:] == [str(c) for c in df.columns],
              lambda: f"{where}: columns {rows[0]}, table "
                      f"{list(df.columns)}", "table")
    mon.check(len(rows) == len(df) + 1, lambda: f"{where}: {len(rows) - 1} "
              f"rows, table {len(df)}", "table")
    for i, c in enumerate(df.columns):
        col = df.iloc[:, i]
        for r, v in zip(rows[1:], col.to_numpy()):
            mon.check(cell_same(r[i + 1], v), lambda: f"{where}: {c} is "
                      f"{r[i + 1]!r}, table {v!r}", "table")
    mon.saw("tables")


def scaled_product(rng, mon):
    mon.saw("scaling")
    objs = []
    for _ in range(1):
        dt = np.dtype(rng.choice(["<i2", ">i2", "u1", ">u2", ">f4"]))
        shape = (rng.randint(2, 6), rng.randint(2, 6))
        if rng.random() < .3:
            shape = (rng.choice([2, 3]),) + shape
        g = np.random.default_rng(rng.randrange(2 ** 32))
        arr = g.integers(10, 100, shape).astype(dt)
        labels = {}
        if rng.random() < .6:
            labels["MISSING_CONSTANT"] = c = rng.choice([0, 3, 200])
            arr.reshape(-1)[g.integers(0, arr.size, 2)] = c
        objs.append(pds3_object(
            rng, arr, labels, rng.choice([None, -2, -1, -0.5, 3]),
            rng.choice([None, 7, -120.5])))
    path, _ = build_product(rng, mon.tmp, objs)
    return path, "scaled"


def product_case(rng, mon):
    kind = rng.random()
    if kind > .8:
        path, kind = scaled_product(rng, mon)
    elif kind < .15:
        path, kind = slash_product(rng, mon)
    elif kind < .25:
        path, _ = gen_product(rng, mon.tmp, 4)
        kind = "pds4"
    elif kind < .5:
        objs, _ = make_objs(rng)
        path, _ = build_product(rng, mon.tmp, objs,
                                mode=rng.choice(["attached", "detached",
                                                 "split"]))
        kind = "pds3"
    else:
        path, _, _, _, _, kind = make_product(rng, mon)
    src = {p: p.read_bytes() for p in mon.tmp.rglob("*") if p.is_file()}
    data = pdr.read(path)
    names = list(data.keys())
    some = rng.sample(names, rng.randint(1, len(names)))
    if rng.random() < .2:
        some = names
    purge = rng.random() < .25
    scaled = rng.choice([True, True, True, False, "both"])
    cwd = rng.random() < .25
    out = mon.tmp / "cwd" if cwd else mon.tmp / "out dir"
    out.mkdir()
    kw, stem = {}, path.stem
    if rng.random() < .4:
        kw["prefix"] = stem = rng.choice(["pre", "a.b", "with space"])
        mon.saw("prefix")
    if not cwd:
        kw["outpath"] = rng.choice([out, str(out)])
    kw |= dict(scaled=scaled) if scaled is not True or rng.random() < .5 else {}
    kw |= dict(purge=purge) if purge or rng.random() < .5 else {}
    fmt = rng.choice(["png", "png", "jpg"])
    if fmt != "jpg":
        kw["image_format"] = fmt
    opts = gen_options(rng, 3)
    opts.pop("slice_axis", 0)
    kw |= opts
    mon.describe({"kind": kind, "keys": names, "load": some, "kw": str(kw)})
    for k in some:
        quiet(lambda: data[k])
    loaded = [k for k in data.keys() if k in vars(data)]
    if kind == "pds4" and "label" not in loaded:
        loaded.append("label")
    unloaded = [k for k in data.keys() if k not in loaded]
    truth = {k: data.getattr(k) for k in loaded}
    snaps = {k: snapshot(v) for k, v in truth.items()}
    # what the images should show, from another reader
    other, arrays = pdr.read(path), {}
    for k in loaded:
        if isinstance(truth[k], np.ndarray):
            quiet(lambda: other[k])
            raw = other[k].copy()
            arrays[k] = {"unscaled": raw}
            try:
                arrays[k]["scaled"] = quiet(other.get_scaled, k)[0].copy()
            except Exception:
                arrays[k]["scaled"] = None
    # show
    arrs = [k for k in loaded if isinstance(truth[k], np.ndarray)
            and truth[k].ndim in (2, 3) and truth[k].size
            and truth[k].dtype.kind in "iufb"]
    if arrs and rng.random() < .4:
        k = rng.choice(arrs)
        so = {x: v for x, v in opts.items() if x in ("image_clip",
                                                      "mask_color")}
        sc = rng.random() < .5
        ref = arrays[k]["scaled"]
        if ref is None or ref.dtype.kind not in "iufb":
            sc = False
        ims = quiet(data.show, k, scaled=sc, band_ix="burst",
                    override_rgba=True, **so)[0]
        ims = ims if isinstance(ims, list) else [ims]
        ref = arrays[k]["scaled" if sc else "unscaled"]
        if ref is not None:
            bands = [ref] if ref.ndim == 2 else list(ref)
            mon.check(len(bands) == len(ims), lambda: f"show({k}): "
                      f"{len(ims)} images of {len(bands)} bands", "show")
            for im, b in zip(ims, bands):
                dat = np.ma.getdata(b)
                check_pixels(mon, np.array(im), dat,
                             np.ma.getmaskarray(b) | ~finite(dat),
                             so.get("image_clip"),
                             so.get("mask_color", (0, 255, 255)),
                             f"show({k})")
            mon.saw("show")
        mon.check(snapshot(data.getattr(k)) == snaps[k], f"show changed {k}",
                  "mutated")
    here = os.getcwd()
    try:
        if cwd:
            os.chdir(out)
            mon.saw("cwd")
        quiet(data.dump_browse, **kw)
    except Exception as ex:
        mon.fail(f"dump_browse raised {ex!r}", "raise")
    finally:
        os.chdir(here)
    mon.saw("dumps")
    after = {p: p for p in mon.tmp.rglob("*") if p.is_file()}
    for p, b in src.items():
        mon.check(p in after and p.read_bytes() == b, lambda: f"{p} changed",
                  "source")
    made = [p for p in after if p not in src]
    mon.check(all(p.parent == out for p in made), lambda: f"files outside of "
              f"{out}: {made}", "place")
    left = {p.name: p for p in made}
    fitsfile = str(path).lower().endswith(".fits")
    for k in sorted(loaded, key=len, reverse=True):
        v = truth[k]
        base = f"{stem}_{k}"
        if "/" in k:
            # any name will do, as long as it is there
            base = f"{stem}_" + k.replace("/", "_")
        where = f"{k} of {kind}"
        mine = {n: p for n, p in left.items() if n.startswith(base)
                and not any(n.startswith(f"{stem}_{o.replace('/', '_')}")
                            for o in loaded if len(o) > len(k)
                            and o.startswith(k))}
        if v is None:
            mon.check(not mine, lambda: f"{where}: {mine} for None", "files")
            continue
        for n in mine:
            left.pop(n)
        if isinstance(v, np.ndarray) and v.ndim != 1:
            if scaled == "both" or (fitsfile and scaled is False):
                versions = ["scaled"] if fitsfile else ["scaled", "unscaled"]
                suff = {x: "_" + x for x in versions}
                mon.saw("both")
            else:
                versions = ["scaled" if scaled else "unscaled"]
                suff = {versions[0]: ""}
                if scaled is False:
                    mon.saw("unscaled")
            for ver in versions:
                vb = base + suff[ver]
                f = {n: p for n, p in mine.items() if n.startswith(vb)}
                ref = arrays[k][ver]
                odd = v.ndim > 3 or v.size == 0 or v.dtype.kind not in "iufb"
                # pds4_tools scales to objects beyond the range of int64
                if odd or ref is None or ref.dtype.kind not in "iufb":
                    mon.check(len(f) >= 1, lambda: f"{where}: no file",
                              "files")
                    mon.saw("odd_arrays")
                    continue
                check_render(mon, f, vb, ref, opts, where, fmt)
                mon.saw("images")
            continue
        mon.check(len(mine) == 1, lambda: f"{where} ({type(v).__name__}): "
                  f"files {sorted(mine)} of {sorted(n.name for n in made)}",
                  "files")
        n, p = list(mine.items())[0]
        ext = n[len(base):]
        if isinstance(v, pd.DataFrame):
            mon.check(ext == ".csv", f"{where}: {n}", "files")
            check_table(mon, p, snaps_df(other, k), where)
        elif isinstance(v, np.ndarray):
            if v.dtype.names is None and v.dtype.kind in "iuf":
                mon.check(ext == ".csv", f"{where}: {n}", "files")
                rows = p.read_text().splitlines()[1:]
                raw = arrays[k]["unscaled"]
                mon.check(len(rows) == len(v) and all(
                    cell_same(r.strip('"'), x) for r, x in zip(rows, raw)),
                    lambda: f"{where}: {rows[:5]}, array {raw[:5]}", "vector")
                mon.saw("vectors")
        elif hasattr(v, "to_string"):
            mon.check(ext == ".xml" and len(p.read_bytes()) > 10,
                      f"{where}: {n}", "files")
            mon.saw("texts")
        else:
            mon.check(ext == ".txt", f"{where}: {n}", "files")
            got = p.open(newline="", encoding="utf-8").read()
            mon.check(got == str(v), lambda: f"{where}: text {got[:80]!r}, "
                      f"object {str(v)[:80]!r}", "text")
            mon.saw("texts")
    mon.check(not left, lambda: f"unexpected files {sorted(left)}", "files")
    for k in unloaded:
        mon.check(k not in vars(data), f"dumping loaded {k}", "loaded")
        mon.saw("unloaded_kept")
    if purge:
        for k in loaded:
            mon.check(k not in vars(data), f"{k} was not purged", "purge")
        k = rng.choice(loaded)
        if k in data.keys() and "HEADER" not in k:
            got = quiet(lambda: data[k])[0]
            mon.check(snapshot(got) == snaps[k], lambda: f"{k}, loaded again "
                      f"after purging, is not what it was", "reload")
        mon.saw("purged")
    else:
        for k in loaded:
            mon.check(data.getattr(k) is truth[k]
                      and snapshot(data.getattr(k)) == snaps[k],
                      f"dumping changed {k}", "mutated")
    mon.sig("product", kind, purge, scaled, cwd, *sorted(opts))


def snaps_df(other, k):
    quiet(lambda: other[k])
    return other[k]


def run_case(rng, mon, idx):
    if rng.random() < .55:
        render_case(rng, mon)
    else:
        product_case(rng, mon)
