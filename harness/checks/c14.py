"""C14: get_scaled gives physical values and masks exactly the special ones"""
import struct

import numpy as np
from PIL import Image
from PIL.TiffImagePlugin import ImageFileDirectory_v2

import fitsw
import pds4w
import pdr
from pds3w import IDENTIFIERS, DataObj, Obj, Qty, Raw, build_product, write_detached

PROP = "C14"
CASES = {"quick": 4000, "thorough": 20000}
RULE = (
    "case = a PDS3 image / qube / binary array, a FITS image (alone or behind "
    "a PDS3 label), a desktop image behind a PDS3 label or a PDS4 array with random values, scaling factor, offset "
    "(integers, reals, per band, N/A) and special constants (named in the "
    "label or implicit for the type) planted among them, some of them next to "
    "the constants. get_scaled is called once or several times, with or "
    "without float_dtype / inplace. An independent model in exact arithmetic "
    "gives values and masks; the loaded array must not change unless asked. A "
    "behaviour is (standard, element type, scaling, constants, options)"
)
REQUIRED = ("pds3", "fits", "pds4", "elements_compared", "masked_explicit",
            "masked_implicit", "masked_nonfinite", "unmasked_neighbours",
            "widened", "constant_lists", "per_band", "inplace", "float_dtype", "not_array",
            "constants_named", "float_dtype_kept",
            "original_untouched", "repeat_call", "pds4_masked",
            "pds4_scaled", "desktop_geotiff", "desktop_jp2", "desktop_tiff",
            "desktop_png")

# PDS3 standards reference 3.8 chapter 17 / ISIS SpecialPixel.h, by element
# type, as bit patterns or values
F4 = [struct.unpack(">f", bytes.fromhex(h))[0] for h in (
    "FF7FFFFB", "FF7FFFFC", "FF7FFFFD", "FF7FFFFE", "FF7FFFFF")]
IMPLICIT = {
    "u1": [], "i1": [],
    "i2": [-32768, 32767, -32767, -32766, -32765, -32764],
    "u2": [0, 65533, 65534, 2, 1, 65535],
    "i4": [-2147483648, 2147483647],
    "u4": [4294967293, 4294967294] + [int(h, 16) for h in (
        "FF7FFFFB", "FF7FFFFC", "FF7FFFFD", "FF7FFFFE", "FF7FFFFF")],
    "f4": F4 + [np.float32(-1e32), np.float32(1e32)],
    "f8": [F4[0]],
    "u8": [], "i8": [-2147483648, 2147483647],
}
NAMES = [f"{w}_CONSTANT" for w in (
    "MISSING", "INVALID", "NULL", "UNKNOWN", "NOT_APPLICABLE", "INFINITY")] * 3
NAMES += [f"{c}{d}{e}{w}" for c in (
    "CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX_", "LINE_SUFFIX_", "")
    for d in ("HIGH_", "LOW_", "") for e in ("INST_", "REPR_", "")
    for w in ("NULL", "SATURATION", "SAT")]
TYPES = {"i1": ("MSB_INTEGER", 8), "u1": ("UNSIGNED_INTEGER", 8),
         ">i2": ("MSB_INTEGER", 16), "<i2": ("LSB_INTEGER", 16),
         ">u2": ("MSB_UNSIGNED_INTEGER", 16),
         "<u2": ("PC_UNSIGNED_INTEGER", 16),
         ">i4": ("SUN_INTEGER", 32), "<i4": ("VAX_INTEGER", 32),
         ">u4": ("MAC_UNSIGNED_INTEGER", 32),
         "<u4": ("LSB_UNSIGNED_INTEGER", 32),
         ">f4": ("IEEE_REAL", 32), "<f4": ("PC_REAL", 32),
         ">i8": ("MSB_INTEGER", 64), "<u8": ("LSB_UNSIGNED_INTEGER", 64),
         ">f8": ("IEEE_REAL", 64), "<f8": ("PC_REAL", 64)}


def key_of(dt):
    return dt.kind + str(dt.itemsize)


def rand_scale(rng, real, kind):
    if kind == "none":
        return None
    if kind == "int":
        return rng.choice([2, 3, 10, -1, -3, 100, 1000, 1, 7, 256, 300])
    return rng.choice([0.5, 2.0, 1e-3, -0.1, 123.456, 1.0, 3e-8, 1e10])


def rand_offset(rng, kind):
    if kind == "none":
        return None
    if kind == "int":
        return rng.choice([1, -1, 100, -128, 1000, 40000, -70000, 0])
    return rng.choice([0.5, -0.25, 1e3, 273.15, -1e-5, 0.0, 1e6])


def make_values(rng, dt, n):
    k = key_of(dt)
    if dt.kind == "f":
        v = [rng.choice([rng.uniform(-1, 1), rng.uniform(-1e4, 1e4), 0.0,
                         float(rng.randint(-9, 9)), rng.uniform(-1, 1) * 1e20,
                         -9999.0]) for _ in range(n)]
    else:
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        v = [rng.choice([rng.randint(max(lo, -60), 60) if lo or rng.random()
                         < .9 else 3, rng.randint(lo, hi)])
             for _ in range(n)]
        v = [min(max(lo, x), hi) for x in v]
    return np.array(v, dtype=dt)


def neighbours(dt, c):
    """values which are almost, but not, the constant"""
    if dt.kind == "f":
        c = dt.type(c)
        return [np.nextafter(c, dt.type(0)), dt.type(-c)]
    lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    return [x for x in (c - 1, c + 1, -c) if lo <= x <= hi]


def plant(rng, arr, mon, explicit_ok=True, k=None):
    """choose constants and plant them; returns ({name: label value},
    [all values that must be masked])"""
    dt, flat = arr.dtype, arr.reshape(-1)
    n = flat.size
    k = k or key_of(dt)
    labels, special = {}, []
    if explicit_ok and rng.random() < .6:
        for name in sorted(set(rng.sample(NAMES, rng.randint(1, 3)))):
            if dt.kind == "f":
                c = rng.choice([-9999.0, -9999.9, 1e32, -1e30, 0.1, -1.0,
                                -3.4028226550889045e38, 0.0, -999])
            else:
                lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
                c = rng.choice([lo, hi, 0, rng.randint(lo, hi), 5, 55,
                                min(hi, 9999)])
            labels[name] = c
            special.append(c)
            for _ in range(rng.randint(0, 3)):
                flat[rng.randrange(n)] = c
            for x in neighbours(dt, c):
                if rng.random() < .4:
                    flat[rng.randrange(n)] = x
        if rng.random() < .15:
            labels[rng.choice([m for m in NAMES if m not in labels])] = \
                rng.choice(["N/A", "N/A", "UNK", Raw("NULL"), Raw("UNK")])
        if rng.random() < .15:
            k0 = rng.choice(list(labels))
            if not isinstance(labels[k0], str):
                labels[k0] = Qty(labels[k0], "DN")
        if rng.random() < .2:
            # one per band, say; only the first occurs in the array
            k0 = rng.choice(list(labels))
            if isinstance(labels[k0], (int, float)):
                other = rng.choice([labels[k0], 77, -31])
                if other != labels[k0] and other in special:
                    other = labels[k0]
                labels[k0] = rng.choice([(labels[k0], other),
                                         (labels[k0],) * 3])
                if other in labels[k0][1:] and other != labels[k0][0]:
                    with np.errstate(all="ignore"):
                        flat[flat == other] = 3
                mon.saw("constant_lists")
    if rng.random() < .5:
        for c in rng.sample(IMPLICIT[k], min(len(IMPLICIT[k]),
                                             rng.randint(1, 2))):
            flat[rng.randrange(n)] = c
            for x in neighbours(dt, c):
                if rng.random() < .4:
                    flat[rng.randrange(n)] = x
    if dt.kind == "f" and rng.random() < .25:
        for _ in range(rng.randint(1, 3)):
            flat[rng.randrange(n)] = rng.choice([np.nan, np.inf, -np.inf])
    return labels, special


def mask_for(arr, consts):
    m = np.zeros(arr.shape, bool)
    for c in consts:
        with np.errstate(all="ignore"):
            m |= arr == arr.dtype.type(c)
    if arr.dtype.kind == "f":
        m |= ~np.isfinite(arr)
    return m


def named_constants(mon, got, labels, arr, where):
    """are these the constants of the label, by name, and those of the
    element type which occur?"""
    exp = {}
    for k, v in labels.items():
        v = v[0] if isinstance(v, tuple) else v
        v = v.value if isinstance(v, Qty) else v
        if isinstance(v, (int, float)):
            exp[k] = v
    for k, v in exp.items():
        mon.check(k in got and got[k] == v,
                  f"{where}{k} = {v!r} is missing from the special constants "
                  f"{got}", "constants")
    rest = {k: v for k, v in got.items() if k not in exp}
    with np.errstate(all="ignore"):
        implicit = {arr.dtype.type(c).item() for c in IMPLICIT[key_of(
            arr.dtype)] if (arr == arr.dtype.type(c)).any()}
        found = {arr.dtype.type(v).item() for v in rest.values() if v == v}
    mon.check(found == implicit, f"{where}special constants {rest} besides those "
              f"of the label, expected the values {implicit}", "constants")
    bad = arr.dtype.kind == "f" and not np.isfinite(arr).all()
    mon.check(any(v != v for v in rest.values()) == bad,
              f"{where}special constants {got} of an array with"
              f"{'' if bad else 'out'} values which are not numbers",
              "constants")
    mon.saw("constants_named", 1 + len(got))


def compare(mon, got, arr, mask, scale, offset, where, eps_floor=0.0,
            mech="scaling"):
    """got must be arr * scale + offset outside of mask"""
    mon.check(isinstance(got, np.ndarray),
              f"{where}returned {type(got).__name__}", mech)
    mon.check(got.shape == arr.shape,
              f"{where}shape {got.shape} != {arr.shape}", mech)
    gmask = np.ma.getmaskarray(got)
    if not np.array_equal(gmask, mask):
        bad = np.argwhere(gmask != mask)[0]
        mon.fail(f"{where}element {tuple(bad)} = {arr[tuple(bad)]!r} is "
                 f"{'not ' if mask[tuple(bad)] else ''}masked", "masking")
    gdata = np.asarray(got.data if np.ma.isMaskedArray(got) else got)
    mon.check(gdata.dtype.kind in "iuf",
              f"{where}result has dtype {gdata.dtype}", mech)
    mon.saw("elements_compared", int(arr.size))
    ints = (arr.dtype.kind in "iu"
            and all(float(x) == int(x) for x in np.ravel(scale))
            and all(float(x) == int(x) for x in np.ravel(offset)))
    bands = arr.shape[0] if np.ndim(scale) or np.ndim(offset) else None
    for ix in np.ndindex(arr.shape):
        if mask[ix]:
            continue
        s = scale[ix[0]] if np.ndim(scale) else scale
        o = offset[ix[0]] if np.ndim(offset) else offset
        g = gdata[ix]
        if gdata.dtype.kind in "iu":
            mon.check(ints, f"{where}result has integer dtype {gdata.dtype} "
                      f"with scale {scale} offset {offset}", mech)
            e = int(arr[ix]) * int(s) + int(o)
            ok = int(g) == e
        else:
            v = float(arr[ix])
            e = v * s + o
            eps = float(np.finfo(gdata.dtype).eps)
            eps = max(eps, eps_floor)
            if arr.dtype.kind == "f" and arr.dtype.itemsize == 4:
                # a plane may be widened after it was computed
                eps = max(eps, 2.0 ** -23)
            tol = 4 * eps * (abs(v * s) + abs(o)) + 1e-300
            if gdata.dtype.itemsize == 4:
                tol += 3e-45    # subnormals of single precision
            ok = abs(float(g) - e) <= tol
        if not ok:
            mon.fail(f"{where}element {ix}: raw {arr[ix]!r} * {s} + {o} = "
                     f"{e!r}, got {g!r} ({gdata.dtype})", mech)
    if gdata.dtype.itemsize > arr.dtype.itemsize:
        mon.saw("widened")
    if arr.dtype.kind == "f" and bands is None:
        mon.check(gdata.dtype.kind == "f", f"{where}dtype {gdata.dtype}",
                  mech)


def pds3_object(rng, arr, labels, scale, offset):
    b, (l, s) = (None, arr.shape) if arr.ndim == 2 else (
        arr.shape[0], arr.shape[1:])
    dt = arr.dtype
    tname = {str(np.dtype(k)): v for k, v in TYPES.items()}[str(dt)]
    items = list(labels.items())
    if scale is not None:
        items.append(("SCALING_FACTOR", scale))
    if offset is not None:
        items.append(("OFFSET", offset))
    kind = rng.choice(["IMAGE", "IMAGE", "QUBE"])
    if kind == "IMAGE":
        items += [("LINES", l), ("LINE_SAMPLES", s),
                  ("SAMPLE_TYPE", Raw(tname[0])), ("SAMPLE_BITS", tname[1])]
        if b:
            items += [("BANDS", b), ("BAND_STORAGE_TYPE",
                                     Raw("BAND_SEQUENTIAL"))]
    else:
        items += [("AXES", 3), ("AXIS_NAME", (Raw("SAMPLE"), Raw("LINE"),
                                              Raw("BAND"))),
                  ("CORE_ITEMS", (s, l, b or 1)),
                  ("CORE_ITEM_BYTES", dt.itemsize),
                  ("CORE_ITEM_TYPE", Raw(tname[0]))]
    rng.shuffle(items)
    return DataObj(kind, Obj(kind, items), arr.tobytes(), ext="IMG",
                   meta={"kind": kind})


def pds3_case(rng, mon):
    dt = np.dtype(rng.choice(list(TYPES)))
    bands = rng.choice([None, None, None, 2, 3])
    shape = (rng.randint(1, 6), rng.randint(1, 6))
    if bands:
        shape = (bands,) + shape
    arr = make_values(rng, dt, int(np.prod(shape))).reshape(shape)
    crism = rng.random() < .04 and key_of(dt) in ("f4", "u2", "i4", "u4")
    labels, special = plant(rng, arr, mon, explicit_ok=True)
    real = dt.kind == "f"
    kinds = ["none", "int", "real"]
    ks, ko = rng.choice(kinds), rng.choice(kinds)
    scale, offset = rand_scale(rng, real, ks), rand_offset(rng, ko)
    opt = rng.choice(["plain", "plain", "inplace", "float_dtype"])
    per_band = False
    lab_s, lab_o = scale, offset
    if bands and rng.random() < .4:
        per_band = True
        scale = [rand_scale(rng, real, rng.choice(["int", "real"]))
                 for _ in range(bands)]
        offset = [rand_offset(rng, rng.choice(["int", "real"]))
                  for _ in range(bands)]
        lab_s, lab_o = tuple(scale), tuple(offset)
        ks = ko = "per-band"
    elif rng.random() < .1:
        scale, lab_s = None, rng.choice(["N/A", "NULL", "", Raw("NULL")])
        ks = "N/A"
    elif offset is not None and rng.random() < .1:
        lab_o = Qty(offset, "KELVIN")
        ko = "quantity"
    elif rng.random() < .1:
        offset, lab_o = None, rng.choice(["N/A", "NULL", ""])
        ko = "N/A"
    obj = pds3_object(rng, arr, labels, lab_s, lab_o)
    ids = [("INSTRUMENT_ID", "CRISM") if crism and k == "INSTRUMENT_ID"
           else (k, v) for k, v in IDENTIFIERS]
    path, info = build_product(rng, mon.tmp, [obj], identifiers=ids)
    consts = special + (IMPLICIT[key_of(dt)])
    if crism:
        consts = [65535] if dt != np.dtype("f4") else [65535.0]
    name = obj.name
    where = (f"[PDS3 {dt.str} {'x'.join(map(str, shape))} {lab_s}*x+{lab_o} "
             f"constants {labels} {opt}{' CRISM' if crism else ''}] ")
    mon.describe({"what": where, "values": arr.reshape(-1)[:20].tolist()})
    data = pdr.read(path)
    raw = data[name]
    mon.check(raw.shape == arr.shape and np.array_equal(
        np.asarray(raw), arr, equal_nan=dt.kind == "f"),
        where + "raw array differs", "raw")
    mask = mask_for(arr, consts)
    if crism:
        # only 65535 counts for these
        with np.errstate(all="ignore"):
            mask = arr == dt.type(65535)
    s = 1 if scale is None else scale
    o = 0 if offset is None else offset
    if crism and dt.kind == "f" and not np.isfinite(arr).all():
        return
    kw, floor = {}, 0.0
    if opt == "inplace":
        kw["inplace"] = True
    elif opt == "float_dtype":
        fd = rng.choice([np.float32, np.float64])
        kw["float_dtype"] = fd
        if fd is np.float32:
            floor = 2.0 ** -23
    if not crism and rng.random() < .5:
        named_constants(mon, data.find_special_constants(name), labels, arr,
                        where)
    got = data.get_scaled(name, **kw)
    compare(mon, got, arr, mask, s, o, where, floor)
    if opt == "float_dtype" and not per_band and dt.kind in "iu" and not (
            isinstance(s, int) and isinstance(o, int) or (s, o) == (1, 0)
            or np.ma.isMaskedArray(got)):
        big = max([abs(float(x)) for x in arr.reshape(-1)] + [1.])
        mon.check(got.dtype == np.dtype(fd) or (
            big * abs(s) + abs(o) > 3e38), f"{where}asked for "
            f"{fd.__name__}, got {got.dtype}", "float-dtype")
        mon.saw("float_dtype_kept")
    if opt != "inplace":
        mon.check(data[name] is raw and np.array_equal(
            np.asarray(raw), arr, equal_nan=dt.kind == "f"),
            where + "get_scaled changed the loaded array", "mutation")
        mon.saw("original_untouched")
        if rng.random() < .5:
            got = data.get_scaled(name, **kw)
            compare(mon, got, arr, mask, s, o, where + "again: ", floor)
            mon.saw("repeat_call")
        if not per_band and not crism and rng.random() < .3:
            # what the user has put there is what is scaled
            new = np.array(arr[..., ::-1])
            setattr(data, name, new)
            compare(mon, data.get_scaled(name, **kw), new,
                    mask[..., ::-1], s, o, where + "replaced: ", floor)
    else:
        mon.saw("inplace")
    mon.saw("pds3")
    mon.saw("per_band", int(per_band))
    mon.saw("float_dtype", int(opt == "float_dtype"))
    with np.errstate(all="ignore"):
        ex = mask_for(arr, special) if special else np.zeros(shape, bool)
        if dt.kind == "f":
            nf = ~np.isfinite(arr)
            mon.saw("masked_nonfinite", int(nf.sum()))
            ex &= ~nf
        im = mask & ~ex
    mon.saw("masked_explicit", int(ex.sum()))
    mon.saw("masked_implicit", int(im.sum()))
    near = [x for c in consts for x in neighbours(dt, c)]
    mon.saw("unmasked_neighbours", int(np.isin(arr, near).sum()))
    mon.sig("pds3", dt.str, obj.meta["kind"], ks, ko, opt,
            "explicit" if special else "-", "implicit" if im.any() else "-",
            arr.ndim, "crism" if crism else "")
    if rng.random() < .1:
        for bad in ("LABEL",):
            try:
                data.get_scaled(bad)
            except TypeError:
                mon.saw("not_array")
            else:
                mon.fail(where + "get_scaled of a text object gave something",
                         "not-array")


def desktop_case(rng, mon):
    """images of desktop formats behind a PDS3 label: GeoTIFF and JPEG2000
    are scaled and masked, others hold what they are meant to show"""
    kind = rng.choice(["geotiff", "geotiff", "jp2", "jp2", "tiff", "png"])
    dt = np.dtype(rng.choice({"jp2": ["u1", "<u2"], "png": ["u1"]}.get(
        kind, ["u1", "<u2", "<i4", "<f4"])))
    shape = (rng.randint(16, 20), rng.randint(16, 20))
    arr = make_values(rng, dt, int(np.prod(shape))).reshape(shape)
    bands = rng.choice([None, None, 3]) if dt == "u1" else None
    if bands:
        shape = (bands,) + shape
        arr = np.stack([arr, arr[::-1], arr[:, ::-1]])
    labels, special = plant(rng, arr, mon)
    scale = rand_scale(rng, dt.kind == "f", rng.choice(["int", "real"]))
    offset = rand_offset(rng, rng.choice(["int", "real"]))
    im = Image.fromarray(np.ascontiguousarray(
        np.moveaxis(arr, 0, 2) if bands else arr))
    fn = "a." + rng.choice({"jp2": ["jp2", "JP2"], "png": ["png"]}.get(
        kind, ["tif", "tiff", "TIF"]))
    opts = {"irreversible": False} if kind == "jp2" else {}
    if kind == "geotiff":
        # GeoKeyDirectory: model type = projected
        opts["tiffinfo"] = ImageFileDirectory_v2()
        opts["tiffinfo"][34735] = (1, 1, 0, 1, 1024, 0, 1, 1)
    im.save(mon.tmp / fn, **opts)
    items = [*labels.items(), ("SCALING_FACTOR", scale), ("OFFSET", offset),
             ("LINES", shape[-2]), ("LINE_SAMPLES", shape[-1]),
             ("SAMPLE_BITS", 8 * dt.itemsize)]
    rng.shuffle(items)
    p = write_detached(mon.tmp, "prod", [
        ("PDS_VERSION_ID", "PDS3"), *IDENTIFIERS, ("^IMAGE", fn),
        Obj("IMAGE", items)])
    where = (f"[PDS3 {kind} {dt.str} {'x'.join(map(str, shape))} {scale}*x+"
             f"{offset} constants {labels}] ")
    mon.describe({"what": where, "values": arr.reshape(-1)[:20].tolist()})
    data = pdr.read(p)
    raw = data["IMAGE"]
    mon.check(isinstance(raw, np.ndarray) and raw.shape == arr.shape
              and np.array_equal(raw, arr, equal_nan=dt.kind == "f"),
              where + "raw array differs", "raw")
    got = data.get_scaled("IMAGE")
    if kind in ("geotiff", "jp2"):
        mask = mask_for(arr, special + IMPLICIT[key_of(dt)])
        compare(mon, got, arr, mask, 1 if scale is None else scale,
                0 if offset is None else offset, where)
    else:
        mon.check(got is raw, where + "was scaled", "prescaled")
    mon.check(data["IMAGE"] is raw and np.array_equal(
        raw, arr, equal_nan=dt.kind == "f"),
        where + "get_scaled changed the loaded array", "mutation")
    mon.saw("desktop_" + kind)
    mon.sig("desktop", kind, dt.str, bool(bands), bool(special))


def fits_case(rng, mon):
    """FITS arrays have been scaled by their own keywords already"""
    h = fitsw.gen_image(rng, primary=True)
    p = mon.tmp / "x.fits"
    blob, pos = fitsw.write([h])
    p.write_bytes(blob)
    behind = rng.random() < .5
    if behind:
        items = [("PDS_VERSION_ID", Raw("PDS3")),
                 ("^IMAGE", ("x.fits", Qty(pos[0][1] + 1, "BYTES"))),
                 *IDENTIFIERS,
                 Obj("IMAGE", [("LINES", 1), ("SCALING_FACTOR", 2.5),
                               ("OFFSET", 7), ("MISSING_CONSTANT", 0)])]
        data = pdr.read(write_detached(mon.tmp, "prod", items))
        name = "IMAGE"
    else:
        data = pdr.read(p)
        name = data.keys()[0]
    _, shape, vals, kind, size, exact = h.exp
    where = f"[FITS {'PDS3 ' if behind else ''}{name} {h.meta['what']}] "
    raw = data[name]
    snap = raw.copy()
    for tag in ("", "again: "):
        got = data.get_scaled(name)
        exp = np.array(vals, dtype="f8").reshape(shape)
        with np.errstate(all="ignore"):
            close = np.allclose(np.asarray(got, dtype="f8"), exp, rtol=1e-6,
                                atol=1e-300, equal_nan=True)
        mon.check(got.shape == shape and close and not np.ma.isMaskedArray(
            got), where + tag + "get_scaled is not the scaled image", "fits")
        mon.check(data[name] is raw and np.array_equal(
            raw, snap, equal_nan=raw.dtype.kind in "fc"),
            where + tag + "get_scaled changed the array", "mutation")
    mon.saw("fits")
    mon.sig("fits", raw.dtype.str, raw.ndim, behind, h.meta["scale"])


def pds4_case(rng, mon):
    st = pds4w.gen_array(rng, key="A", dtypes=list(pds4w.NUMERIC))
    for _ in range(20):
        if "special" in st.meta or "scale" in st.meta \
                or "offset" in st.meta or rng.random() < .1:
            break
        st = pds4w.gen_array(rng, key="A", dtypes=list(pds4w.NUMERIC))
    arr = st.truth
    # integer arrays whose scaled values leave 64 bits are meaningless
    s, o = st.meta.get("scale", 1), st.meta.get("offset", 0)
    if arr.dtype.kind in "iu" and arr.size:
        lo, hi = int(arr.min()), int(arr.max())
        ex = [int(x * s) + int(o) for x in (lo, hi)] + [
            int(x * s) for x in (lo, hi)]
        if max(ex) >= 2 ** 63 or min(ex) <= -2 ** 63:
            return pds4_case(rng, mon)
    st.names = [pds4w.el("local_identifier", "A")]
    label = pds4w.write_product(rng, mon.tmp, [("data.dat", [st])])
    data = pdr.read(label)
    special = list(st.meta.get("special", {}).values())
    where = f"[PDS4 {st.meta} {arr.shape}] "
    mon.describe({"what": where, "values": arr.reshape(-1)[:20].tolist()})
    mask = np.zeros(arr.shape, bool)
    for c in special:
        mask |= arr == arr.dtype.type(c)
    raw = data["A"]
    snap = raw.copy()
    nonfinite = arr.dtype.kind == "f" and not np.isfinite(arr).all()

    def look(a, m, tag):
        got = data.get_scaled("A")
        if nonfinite:
            f = np.isfinite(a)
            gm = np.ma.getmaskarray(got)
            # whether non-finite values are masked is left open
            mon.check(np.array_equal(gm[f], m[f]), where + tag + "mask",
                      "masking")
            g = np.ma.masked_array(np.where(f, np.ma.getdata(got), 0),
                                   gm | ~f)
            a = np.where(f, a, 0)
            compare(mon, g, a, m | ~f, s, o, where + tag, mech="pds4-scaling")
        else:
            compare(mon, got, a, m, s, o, where + tag, mech="pds4-scaling")
        mon.check(data["A"] is not None and np.array_equal(
            data["A"], a0, equal_nan=a0.dtype.kind == "f"),
            where + tag + "get_scaled changed the loaded array",
            "pds4-mutation")

    a0 = snap
    look(arr, mask, "")
    look(arr, mask, "again: ")
    mon.saw("repeat_call")
    if rng.random() < .3 and not nonfinite:
        a0 = np.array(arr[..., ::-1])
        data.A = a0
        look(a0, mask[..., ::-1], "replaced: ")
    mon.saw("pds4")
    mon.saw("original_untouched")
    mon.saw("pds4_masked", int(mask.sum()))
    mon.saw("pds4_scaled", int(s != 1 or o != 0))
    mon.sig("pds4", st.meta["dtype"], type(s).__name__, type(o).__name__,
            bool(special), mask.any())


def run_case(rng, mon, idx):
    r = rng.random()
    if r < .62:
        pds3_case(rng, mon)
    elif r < .65:
        desktop_case(rng, mon)
    elif r < .70:
        fits_case(rng, mon)
    else:
        pds4_case(rng, mon)
