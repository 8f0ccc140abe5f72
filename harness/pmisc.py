"""
Generators of PDS3 ARRAY, HISTOGRAM, COLLECTION, HEADER and TEXT objects.
"""
from __future__ import annotations

import numpy as np

from enc import (INT_TYPES, PDS3_TYPES, REAL_TYPES, encode_many, float_bytes,
                 np_expected, same_array)
from pds3w import DataObj, Obj, Raw
from pobj import verifier
from ptab import ODD_NAMES, column_mismatch, Col, name_value, one_value

NONVAX = INT_TYPES + REAL_TYPES


def axes(rng, items):
    if len(items) == 1:
        return [("AXES", 1), ("AXIS_ITEMS", items[0])]
    return [("AXES", len(items)), ("AXIS_ITEMS", tuple(items))]


def gen_bin_array(rng, name="ARRAY"):
    """homogeneous binary ARRAY, no subobject"""
    type_ = rng.choice(NONVAX)
    width = rng.choice(PDS3_TYPES[type_][2])
    shape = [rng.randint(1, 6) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    n = int(np.prod(shape))
    raw, vals = encode_many(rng, type_, width, n)
    exp = np_expected(type_, width, vals).reshape(shape)
    items = axes(rng, shape) + [
        ("INTERCHANGE_FORMAT", Raw("BINARY")), ("DATA_TYPE", Raw(type_)),
        ("BYTES", width)]
    rng.shuffle(items)
    items.insert(0, ("NAME", "BINARY ARRAY"))
    desc = f"binary ARRAY {type_}{8 * width} {shape}"
    return DataObj(name, Obj(name, items), raw, verifier(exp, desc),
                   meta={"desc": desc, "kind": "array-bin", "type": type_,
                         "width": width, "ndim": len(shape), "exp": exp})


def gen_struct_array(rng, name="ARRAY", tails=False):
    """binary ARRAY of a single ELEMENT or of a COLLECTION of ELEMENTs"""
    shape = [rng.randint(1, 5) for _ in range(rng.choice([1, 1, 2]))]
    n = int(np.prod(shape))
    nel = rng.choice([1, 2, 3, 4])
    els, pos, gaps = [], 0, rng.random() < 0.3
    for i in range(nel):
        t = rng.choice(NONVAX)
        w = rng.choice(PDS3_TYPES[t][2])
        if gaps:
            pos += rng.choice([0, 0, 1, 3])
        nm = f"EL_{i}"
        if rng.random() < .08:
            nm = rng.choice([m for m in ODD_NAMES
                             if m not in [e[0] for e in els]])
        els.append((nm, t, w, pos))
        pos += w
    coll = nel > 1 or rng.random() < 0.2
    tail = rng.choice([1, 2, 4]) if tails and coll and n > 1 and rng.random() < 0.04 \
        else 0
    mech = "collection-tail-padding" if tail else "generic"
    body = pos + tail
    vals = [[] for _ in els]
    raw = bytearray()
    for _ in range(n):
        cell = bytearray(rng.randbytes(body))
        for i, (nm, t, w, off) in enumerate(els):
            b, v = encode_many(rng, t, w, 1)
            cell[off:off + w] = b
            vals[i] += v
        raw += cell
    blocks = []
    for nm, t, w, off in els:
        blocks.append(Obj("ELEMENT", [
            ("NAME", name_value(rng, nm)), ("START_BYTE", off + 1),
            ("BYTES", w),
            ("DATA_TYPE", Raw(t))]))
    items = [("NAME", "ARRAY OF THINGS")] + axes(rng, shape) + [
        ("INTERCHANGE_FORMAT", Raw("BINARY"))]
    if coll:
        items.append(Obj("COLLECTION", [
            ("NAME", "THING"), ("START_BYTE", 1), ("BYTES", body)] + blocks))
    else:
        items += blocks
    desc = (f"ARRAY{shape} tail={tail} of " + ", ".join(
        f"{t}{8 * w}@{o}" for _, t, w, o in els))

    def verify(data, nm, mon, where=""):
        got = data[nm]
        mon.check(isinstance(got, np.ndarray),
                  lambda: f"{where}{nm} ({desc}): {type(got)} {got!r:.200}")
        mon.check(got.shape == tuple(shape),
                  lambda: f"{where}{nm} ({desc}): shape {got.shape}")
        for (e, t, w, off), v in zip(els, vals):
            exp = np_expected(t, w, v).reshape(shape)
            mon.check(got.dtype.names and e in got.dtype.names,
                      lambda: f"{where}{nm} ({desc}): no field {e} in "
                              f"{got.dtype}")
            d = same_array(np.ascontiguousarray(got[e]), exp)
            mon.check(d is None, lambda: f"{where}{nm} ({desc}) {e}: {d}",
                      mech)
        mon.saw("objects_compared")
        mon.saw("elements_compared", n * nel)

    return DataObj(name, Obj(name, items), bytes(raw), verify,
                   meta={"desc": desc, "kind": "array-struct", "nel": nel,
                         "coll": coll, "gaps": gaps, "ndim": len(shape)})


def named_fields(arr, shape):
    """{name: array} of all the innermost fields of an array"""
    out = {}
    for n in arr.dtype.names or ():
        got = arr[n]
        if got.dtype.names:
            out |= named_fields(got, got.shape)
        elif got.dtype.itemsize:
            out[n] = got
    return out


def gen_nested_array(rng, name="ARRAY"):
    """binary ARRAY of COLLECTIONs which have ARRAYs in them, or of ARRAYs"""
    shape = [rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2]))]
    n = int(np.prod(shape))
    gaps = rng.random() < .4
    fields = []     # (name, type, width, offset in the cell, repeats, stride)
    used = set()

    def elements(k, gaps):
        out, pos = [], 0
        for i in range(k):
            t = rng.choice(NONVAX)
            w = rng.choice(PDS3_TYPES[t][2])
            if gaps:
                pos += rng.choice([0, 0, 1, 3])
            nm = f"{rng.choice('QXYZ')}{len(used)}"
            used.add(nm)
            out.append((nm, t, w, pos))
            pos += w
        return out, pos

    def blocks(els):
        return [Obj("ELEMENT", [("NAME", nm), ("START_BYTE", o + 1),
                                ("BYTES", w), ("DATA_TYPE", Raw(t))])
                for nm, t, w, o in els]

    def sub(pos):
        els, size = elements(rng.choice([1, 1, 2, 3]), gaps)
        sh = [rng.randint(1, 4) for _ in range(rng.choice([1, 1, 1, 2]))]
        inner = blocks(els)
        if len(els) > 1 and rng.random() < .5:
            inner = [Obj("COLLECTION", [
                ("NAME", f"C{len(used)}"), ("START_BYTE", 1),
                ("BYTES", size)] + inner)]
        used.add(f"C{len(used)}")
        ob = Obj("ARRAY", [("NAME", f"S{len(used)}"), ("START_BYTE", pos + 1)]
                 + axes(rng, sh) + inner)
        used.add(f"S{len(used)}")
        for nm, t, w, o in els:
            fields.append((nm, t, w, pos + o, tuple(sh), size))
        return ob, pos + size * int(np.prod(sh))

    direct = rng.random() < .2
    items = [("NAME", "ARRAY OF THINGS")] + axes(rng, shape) + [
        ("INTERCHANGE_FORMAT", Raw("BINARY"))]
    if direct:
        ob, size = sub(0)
        items.append(ob)
        subs = 1
    else:
        els, size = elements(rng.choice([1, 2, 3]), gaps)
        fields += [(*e, (), 0) for e in els]
        content = blocks(els)
        subs = rng.choice([1, 1, 2, 3])
        for i in range(subs):
            if gaps:
                size += rng.choice([0, 0, 1, 3])
            ob, size = sub(size)
            content.append(ob)
            if rng.random() < .25:
                after, k = elements(1, False)
                after = [(nm, t, w, o + size) for nm, t, w, o in after]
                fields += [(*e, (), 0) for e in after]
                content += blocks(after)
                size += k
        items.append(Obj("COLLECTION", [
            ("NAME", "THING"), ("START_BYTE", 1), ("BYTES", size)] + content))
    raw, vals = bytearray(), {f[0]: [] for f in fields}
    for _ in range(n):
        cell = bytearray(rng.randbytes(size))
        for nm, t, w, o, sh, stride in fields:
            for i in range(int(np.prod(sh))):
                b, v = encode_many(rng, t, w, 1)
                cell[o + i * stride:o + i * stride + w] = b
                vals[nm] += v
        raw += cell
    desc = (f"ARRAY{shape}{'' if direct else ' of COLLECTIONs'} of "
            + ", ".join(f"{t}{8 * w}@{o}{'x' + str(list(sh)) if sh else ''}"
                        for _, t, w, o, sh, _ in fields))

    def verify(data, nm, mon, where=""):
        got = data[nm]
        mon.check(isinstance(got, np.ndarray),
                  lambda: f"{where}{nm} ({desc}): {type(got)} {got!r:.200}")
        mon.check(got.shape == tuple(shape),
                  lambda: f"{where}{nm} ({desc}): shape {got.shape}")
        have = named_fields(got, got.shape)
        mon.check(set(have) == set(vals), lambda: f"{where}{nm} ({desc}): "
                  f"fields {sorted(have)}, expected {sorted(vals)}")
        for f, t, w, o, sh, _ in fields:
            exp = np_expected(t, w, vals[f]).reshape(tuple(shape) + sh)
            d = same_array(np.ascontiguousarray(have[f]), exp)
            mon.check(d is None, lambda: f"{where}{nm} ({desc}) {f}: {d}")
        mon.saw("objects_compared")
        mon.saw("nested_arrays", subs)
        mon.saw("elements_compared", n * sum(
            int(np.prod(f[4])) for f in fields))

    return DataObj(name, Obj(name, items), bytes(raw), verify,
                   meta={"desc": desc, "kind": "array-nested",
                         "nel": len(fields), "coll": not direct,
                         "gaps": gaps, "ndim": len(shape)})


def gen_ascii_array(rng, name="ARRAY"):
    """ASCII ARRAY: whitespace-separated numbers filling a file"""
    shape = [rng.randint(1, 6) for _ in range(rng.choice([1, 2, 2, 3]))]
    n = int(np.prod(shape))
    real = rng.random() < 0.6
    vals, toks = [], []
    for _ in range(n):
        if real:
            t = rng.choice([
                lambda: f"{rng.uniform(-100, 100):.{rng.randint(1, 6)}f}",
                lambda: f"{rng.randint(-999, 999)}",
                lambda: f"{rng.uniform(-9, 9):.4f}E{rng.randint(-9, 9):+03d}",
                lambda: f"{rng.uniform(0, 9):.3e}",
            ])()
        else:
            t = str(rng.randint(-9999, 9999))
        toks.append(t)
        vals.append(float(t))
    seps = [rng.choice([" ", "  ", "\r\n", " \r\n"]) for _ in toks]
    payload = "".join(a + b for a, b in zip(toks, seps)).encode()
    exp = np.array(vals).reshape(shape)
    items = axes(rng, shape)
    if rng.random() < 0.5:
        items.append(("INTERCHANGE_FORMAT", Raw("ASCII")))
    typed = rng.random() < .3
    if typed:
        w = rng.choice([4, 8])
        t = rng.choice(["REAL", "FLOAT", "IEEE_REAL"] + (
            [] if real else ["INTEGER"]))
        items += [("DATA_TYPE", Raw(t)), ("BYTES", w)]
        exp = exp.astype(f"{'i' if t == 'INTEGER' else 'f'}{w}")
    desc = f"ASCII ARRAY {shape} {'real' if real else 'int'} {items[-2:]}"
    return DataObj(name, Obj(name, [("NAME", "TXT")] + items), payload,
                   verifier(exp, desc), ext="ASC",
                   meta={"desc": desc, "kind": "array-ascii", "typed": typed,
                         "ndim": len(shape), "exp": exp})


def gen_histogram(rng, name="HISTOGRAM"):
    """binary HISTOGRAM: ITEMS bins, one row"""
    t = rng.choice(NONVAX)
    w = rng.choice(PDS3_TYPES[t][2])
    n = rng.choice([2, 3, 16, 64, 256])
    raw, vals = encode_many(rng, t, w, n)
    items = [("ITEMS", n), ("DATA_TYPE", Raw(t))]
    items += rng.choice([
        [("ITEM_BYTES", w)], [("ITEM_BITS", 8 * w), ("ITEM_BYTES", w)],
        [("ITEM_BYTES", w), ("BYTES", n * w)],
    ])
    if rng.random() < 0.3:
        items.append(("INTERCHANGE_FORMAT", Raw("BINARY")))
    desc = f"HISTOGRAM {n} x {t}{8 * w} {items[2:]}"

    def verify(data, nm, mon, where=""):
        import pandas as pd
        df = data[nm]
        mon.check(isinstance(df, pd.DataFrame),
                  lambda: f"{where}{nm} ({desc}): {type(df)} {df!r:.200}")
        mon.check(df.shape == (1, n),
                  lambda: f"{where}{nm} ({desc}): shape {df.shape}")
        exp = np_expected(t, w, vals)
        got = df.iloc[0].to_numpy()
        d = same_array(got, exp)
        mon.check(d is None, lambda: f"{where}{nm} ({desc}): {d}")
        mon.check(len(set(df.columns)) == n,
                  lambda: f"{where}{nm}: duplicated column names")
        mon.saw("objects_compared")
        mon.saw("elements_compared", n)

    return DataObj(name, Obj(name, items), raw, verify,
                   meta={"desc": desc, "kind": "histogram", "type": t,
                         "width": w})


TEXTCH = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
          " =,.;:'\"()<>/-_#%&*")


def rand_text(rng, nlines=None, eols=("\r\n",), latin=False):
    ch = TEXTCH + ("éüñ°±" if latin else "")
    out = []
    for _ in range(nlines or rng.randint(1, 12)):
        out.append("".join(rng.choice(ch)
                           for _ in range(rng.randint(0, 60))))
        out.append(rng.choice(eols))
    return "".join(out)


def canon(t):
    return t.replace("\r\n", "\n").replace("\r", "\n")


def gen_header(rng, name="HEADER"):
    """text HEADER located by byte count"""
    text = rand_text(rng, eols=rng.choice([("\r\n",), ("\n",)]), latin=True)
    raw = text.encode("latin-1")
    items = [("BYTES", len(raw)), ("HEADER_TYPE", "TEXT"),
             ("INTERCHANGE_FORMAT", Raw("ASCII"))]
    rng.shuffle(items)
    exp = canon(text)

    def verify(data, nm, mon, where=""):
        got = data[nm]
        mon.check(isinstance(got, str) and got == exp,
                  lambda: f"{where}{nm}: header text differs: got {got!r:.300}"
                          f" expected {exp!r:.300}")
        mon.saw("objects_compared")

    return DataObj(name, Obj(name, items), raw, verify, ext="TAB",
                   meta={"desc": f"HEADER {len(raw)} bytes", "kind": "header"})
