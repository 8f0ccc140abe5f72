"""C16: arrays and headers of PDS4 products, FITS files behind PDS4 labels"""
import math
import warnings

import numpy as np

import pdr
import pds4w
from checks.c15 import check_hdu, check_header
from fitsw import gen_file, write
from pds4w import el

PROP = "C16"
CASES = {"quick": 2500, "thorough": 12000}
RULE = (
    "case = one generated PDS4 product: arrays of every element type, 1-6 "
    "axes in any document order, bit masks, special constants and scalings, "
    "headers, several files and file areas, any name or local identifier, "
    "unnamed and repeated ones included; or a FITS file whose HDUs a PDS4 "
    "label describes; or a file cut off before an array's end. Oracle: the "
    "values the (independent) writer put into the files. A behaviour is "
    "(element type, axes, area, name form, bit mask / specials, damage)"
)
REQUIRED = ("arrays_compared", "headers_compared", "elements_compared",
            "bit_masked", "specials_kept", "duplicate_names", "odd_names",
            "unnamed", "multi_file", "multi_area", "axes_5", "shuffled_axes",
            "fits_arrays", "fits_tables", "fits_headers", "fits_two_files",
            "truncated", "empty_file", "missing_file")

AREAS = ["File_Area_Observational", "File_Area_Observational_Supplemental",
         "File_Area_Ancillary", "File_Area_Browse"]
# root elements the areas belong to
ROOTS = {"File_Area_Ancillary": "Product_Ancillary",
         "File_Area_Browse": "Product_Browse"}
ODD = ["index", "metadata", "filename", "label", "keys", "standard", "load",
       "show", "debug", "unloaded", "pointers", "file_mapping", "__len__"]


def keys_of(ids):
    """key of each structure, from its identifiers (None if it has none)"""
    out, counts = [], {}
    for kind, name in ids:
        n = counts.get(kind, 0)
        counts[kind] = n + 1
        out.append((name or f"{kind.upper()}_{n}").replace(" ", "_"))
    return [k if out.count(k) == 1 else f"{k}_{out[:i].count(k)}"
            for i, k in enumerate(out)]


def name_xml(rng, pool):
    """(elements, identifier)"""
    how = rng.choice(["name", "id", "both", "none", "name"])
    nm = rng.choice(pool)
    lid = rng.choice(["LID_a", "obj.1", "Image-7", "b2"]) + str(
        rng.randint(0, 3))
    if how == "none":
        return [], None
    if how == "name":
        return [el("name", nm)], nm
    if how == "id":
        return [el("local_identifier", lid)], lid
    return [el("name", nm), el("local_identifier", lid)], lid


def many_axes(rng, names):
    """arrays of 5 or 6 axes"""
    nd = rng.choice([5, 6])
    shape = [rng.randint(1, 3) for _ in range(nd)]
    dtype = rng.choice(list(pds4w.NUMERIC))
    vals = [pds4w.rand_value(rng, dtype) for _ in range(math.prod(shape))]
    axes = [el("Axis_Array", [el("axis_name", f"Axis {i}"),
                              el("elements", n),
                              el("sequence_number", i + 1)])
            for i, n in enumerate(shape)]
    rng.shuffle(axes)
    inner = [el("axes", nd), el("axis_index_order", "Last Index Fastest"),
             el("Element_Array", [el("data_type", dtype)]), *axes]
    return pds4w.Struct(
        "array", "Array", "", inner,
        b"".join(pds4w.pack(dtype, v) for v in vals),
        np.array(vals, pds4w.np_of(dtype)).reshape(shape), names,
        {"dtype": dtype})


def add_mask(rng, s):
    """give an integer array a bit mask; returns the values under it"""
    dt = s.truth.dtype
    bits = dt.itemsize * 8
    width = rng.choice([bits, bits, rng.randint(1, bits)])
    mask = "".join(rng.choice("0111") for _ in range(width))
    if rng.random() < .3:
        mask = "0" * (width // 2) + "1" * (width - width // 2)
    s.inner.append(el("Object_Statistics", [el("bit_mask", mask)]))
    m = int(mask, 2)
    consts = set((s.meta.get("special") or {}).values())
    u = s.truth.astype(f"u{dt.itemsize}")      # the same bits
    out = (u & np.array(m, u.dtype)).astype(dt)
    keep = np.isin(s.truth, np.array(sorted(consts), dt)) if consts else \
        np.zeros(s.truth.shape, bool)
    s.truth = np.where(keep, s.truth, out)
    s.meta["mask"] = "0" in mask.zfill(bits)
    return s


def label_of(areas, root):
    return (
        '<?xml version="1.0" encoding="UTF-8"?>\n'
        f'<{root} xmlns="http://pds.nasa.gov/pds4/pds/v1">\n'
        "<Identification_Area>\n"
        "<logical_identifier>urn:nasa:pds:b:c:p</logical_identifier>\n"
        "<version_id>1.0</version_id>\n<title>A product</title>\n"
        "<information_model_version>1.14.0.0</information_model_version>\n"
        f"<product_class>{root}</product_class>\n"
        "</Identification_Area>\n" + "\n".join(areas) + f"\n</{root}>\n")


def same_array(mon, got, exp, where):
    mon.check(isinstance(got, np.ndarray) and not np.ma.isMaskedArray(got),
              lambda: f"{where}is a {type(got)}", "type")
    mon.check(got.shape == exp.shape, lambda: f"{where}shape {got.shape}, "
              f"written {exp.shape}", "axes")
    mon.check(got.dtype.kind == exp.dtype.kind
              and got.dtype.itemsize == exp.dtype.itemsize,
              lambda: f"{where}dtype {got.dtype}, written {exp.dtype}",
              "types")
    ok = got == exp
    if exp.dtype.kind in "fc":
        ok |= np.isnan(got) & np.isnan(exp)
    if not ok.all():
        at = tuple(int(i) for i in np.argwhere(~ok)[0])
        mon.fail(f"{where}element {at} is {got[at]!r}, written {exp[at]!r} "
                 f"({(~ok).sum()} of {exp.size} wrong)", "values")
    mon.saw("elements_compared", int(exp.size))


def plain_case(rng, mon):
    d = mon.tmp
    area = rng.choice(AREAS[:1] * 4 + AREAS)
    root = ROOTS.get(area, "Product_Observational")
    pool = rng.choice([[f"Image {i}" for i in range(20)],
                       ["data", "Data", "quality map", "x"],
                       ODD + ["img", "other"]])
    structs, areas, ids = [], [], []
    nfiles = rng.choice([1, 1, 2, 3])
    for i in range(nfiles):
        fname = f"d{i}{rng.choice(['.dat', '.img', '.raw', '.IMG', ''])}"
        blob, xs = rng.randbytes(rng.choice([0, 0, 7, 512])), []
        for _ in range(rng.randint(1, 3)):
            names, ident = name_xml(rng, pool)
            r = rng.random()
            if r < .2:
                s = pds4w.gen_header(rng, names)
            elif r < .35:
                s = many_axes(rng, names)
            else:
                s = pds4w.gen_array(rng, names)
                if s.truth.dtype.kind in "iu" and rng.random() < .3:
                    add_mask(rng, s)
            s.meta["file"] = d / fname
            ids.append((s.kind, ident))
            structs.append(s)
            xs.append(s.xml(len(blob)))
            s.meta["end"] = len(blob) + len(s.blob)
            blob += s.blob + rng.randbytes(rng.choice([0, 0, 1, 33]))
        (d / fname).write_bytes(blob)
        a = area if i == 0 or area in ROOTS else rng.choice(AREAS[:2])
        areas.append((a, el(a, [el("File", [el("file_name", fname)]), *xs])))
    # pds4 schemas have supplemental areas after the others
    order = sorted(range(len(areas)), key=lambda i: areas[i][0])
    if order != list(range(len(areas))):
        n = [sum(s.meta["file"].name.startswith(f"d{i}") for s in structs)
             for i in range(len(areas))]
        groups, k = [], 0
        for c in n:
            groups.append(range(k, k + c))
            k += c
        ix = [j for i in order for j in groups[i]]
        structs, ids = [structs[j] for j in ix], [ids[j] for j in ix]
    text = label_of([areas[i][1] for i in order], root)
    path = d / rng.choice(["p.xml", "p.lblx", "P.xml"])
    path.write_text(text)
    keys = keys_of(ids)
    for i, k in enumerate(keys):
        if k in ODD:
            keys[i] = None      # any key will do; it is the one in its place
            mon.saw("odd_names")
    mon.saw("duplicate_names", int(len({i for i in ids if i[1]}) < len(
        [i for i in ids if i[1]])))
    mon.saw("unnamed", int(any(i[1] is None for i in ids)))
    mon.saw("multi_file", int(nfiles > 1))
    mon.saw("multi_area", int(len({a for a, _ in areas}) > 1))
    damage = rng.random() < .25 and rng.choice(
        ["truncated", "empty_file", "missing_file"])
    victim = rng.choice(structs)
    f = victim.meta["file"]
    if damage == "truncated":
        b = f.read_bytes()
        cut = victim.meta["end"] - rng.randint(1, max(1, len(victim.blob)))
        f.write_bytes(b[:cut])
    elif damage == "empty_file":
        f.write_bytes(b"")
    elif damage == "missing_file":
        f.unlink()
    mon.describe({"label": text, "damage": damage})
    data = pdr.read(path)
    got = list(data.keys())
    mon.check(len(got) == len(keys) + 1 and got[-1] == "label"
              and len(set(got)) == len(got)
              and all(k in (None, g) for k, g in zip(keys, got)),
              lambda: f"keys {got}, written {keys} + label", "names")
    for i in rng.sample(range(len(structs)), len(structs)):
        s, k = structs[i], got[i]
        where = f"{k} ({s.tag} {s.meta.get('dtype', '')}): "
        short = damage and s.meta["file"] == f and (
            damage != "truncated" or s.meta["end"] > cut)
        if short:
            reported = False
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    x = data[k]
                except Exception:
                    reported = True
            if s.kind == "array" and not (reported or w):
                mon.fail(f"{where}{damage}: came back as an array of shape "
                         f"{x.shape}, written {s.truth.shape}, without any "
                         f"warning or error", "cut-off arrays")
            mon.saw(damage)
            continue
        x = data[k]
        if s.kind == "header":
            mon.check(x in (s.truth, s.truth.encode()),
                      lambda: f"{where}header is {x!r}, written "
                              f"{s.truth!r}", "headers")
            mon.saw("headers_compared")
        else:
            same_array(mon, x, s.truth, where)
            mon.saw("arrays_compared")
            mon.saw("axes_5", int(s.truth.ndim > 4))
            mon.saw("bit_masked", int(s.meta.get("mask", False)))
            mon.saw("specials_kept", int("special" in s.meta))
            seq = [x.split("<sequence_number>")[1][0] for x in s.inner
                   if "<sequence_number>" in x]
            mon.saw("shuffled_axes", int(seq != sorted(seq)))
            mon.check(getattr(data, k) is x and data[k] is x,
                      f"{where}another object the second time", "identity")
        mon.sig(s.meta.get("dtype", "header"), s.truth.ndim if
                s.kind == "array" else 0, area, bool(s.names),
                bool(s.meta.get("mask")), "special" in s.meta, damage)


def fits_case(rng, mon):
    d = mon.tmp
    structs, areas = [], []
    ids = []
    nfiles = rng.choice([1, 1, 2])
    for i in range(nfiles):
        hdus = gen_file(rng, rng.randint(1, 4))
        blob, where = write(hdus)
        fname = f"f{i}.{rng.choice(['fits', 'fit', 'FITS'])}"
        (d / fname).write_bytes(blob)
        xs = []
        for h, (a, b) in zip(hdus, where):
            n = len(ids)
            if rng.random() < .6:
                names = [[], [el("name", f"Header {n}")],
                         [el("local_identifier", f"H_{n}")],
                         [el("name", f"Header {n}"),
                          el("local_identifier", f"H_{n}")]]
                nm = rng.choice(names)
                xs.append(el("Header", [
                    *nm, el("offset", a, unit="byte"),
                    el("object_length", b - a, unit="byte"),
                    el("parsing_standard_id", "FITS 3.0")]))
                ids.append(("header", nm[-1].split(">")[1].split("<")[0]
                            if nm else None))
                structs.append((h, "h", i, a, b))
            if not h.data or rng.random() < .2:
                continue
            n = len(ids)
            nm, ident = rng.choice([
                ([], None), ([el("name", f"Data {n}")], f"Data {n}"),
                ([el("local_identifier", f"D{n}")], f"D{n}")])
            if h.kind == "image":
                shape = h.exp[1]
                kind = "array"
                xs.append(el(f"Array_{len(shape)}D_Image"
                             if len(shape) in (2, 3) else "Array", [
                    *nm, el("offset", b, unit="byte"),
                    el("axes", len(shape)),
                    el("axis_index_order", "Last Index Fastest"),
                    el("Element_Array", [el("data_type", "SignedMSB2")]),
                    *[el("Axis_Array", [
                        el("axis_name", f"A{j}"), el("elements", m),
                        el("sequence_number", j + 1)])
                      for j, m in enumerate(shape)]]))
            else:
                kind = "table"
                w = "Binary" if h.kind == "bintable" else "Character"
                xs.append(el(f"Table_{w}", [
                    *nm, el("offset", b, unit="byte"), el("records", 1),
                    el(f"Record_{w}", [
                        el("fields", 1), el("groups", 0),
                        el("record_length", 4, unit="byte"),
                        el(f"Field_{w}", [
                            el("name", "x"), el("field_number", 1),
                            el("field_location", 1, unit="byte"),
                            el("data_type", "ASCII_String"),
                            el("field_length", 4, unit="byte")])])]))
            ids.append((kind, ident))
            structs.append((h, "d", i, a, b))
        areas.append(el("File_Area_Observational", [
            el("File", [el("file_name", fname)]), *xs]))
    if not structs:
        return
    text = label_of(areas, "Product_Observational")
    path = d / "p.xml"
    path.write_text(text)
    keys = keys_of(ids)
    mon.describe({"label": text})
    data = pdr.read(path)
    mon.check(list(data.keys()) == keys + ["label"],
              lambda: f"keys {data.keys()}, written {keys}", "names")
    order = rng.sample(range(len(structs)), len(structs))
    heads = {(i, a): k for k, (h, w, i, a, b) in zip(keys, structs)
             if w == "h"}
    for j in order:
        h, w, i, a, b = structs[j]
        k = keys[j]
        where_ = f"{k} ({h.meta['what']} in file {i}): "
        if w == "h":
            check_header(mon, data[k], h, where_)
            mon.saw("fits_headers")
        else:
            check_hdu(mon, data[k], h, where_)
            mon.saw("fits_arrays" if h.kind == "image" else "fits_tables")
            hk = heads.get((i, a), k + "_HEADER")
            mon.check(hk in data.keys(), lambda: f"{where_}no {hk} among "
                      f"{data.keys()}", "fits headers")
            check_header(mon, data[hk], h, where_ + hk + ": ")
            if h.kind == "image" and h.exp[0] == "array":
                mon.check(data.get_scaled(k) is data[k],
                          f"{where_}scaled twice", "fits scaling")
        mon.sig("fits", w, h.meta["what"], h.meta["scale"], nfiles)
    for j in order:
        h, w, i, a, b = structs[j]
        if w == "h":
            check_header(mon, data[keys[j]], h, keys[j] + " in the end: ")
        else:
            check_hdu(mon, data[keys[j]], h, keys[j] + " in the end: ")
    exp = set(keys) | {"label"} | {
        k + "_HEADER" for k, (h, w, i, a, b) in zip(keys, structs)
        if w == "d" and (i, a) not in heads}
    mon.check(set(data.keys()) == exp, lambda: f"keys {data.keys()}, "
              f"expected {exp}", "fits headers")
    mon.saw("fits_two_files", int(nfiles > 1))


def run_case(rng, mon, idx):
    if rng.random() < .7:
        plain_case(rng, mon)
    else:
        fits_case(rng, mon)
