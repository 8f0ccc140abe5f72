"""
Generator of PDS3 binary TABLE-like objects. Builds a tree of fields with real
byte offsets, writes rows from scratch, renders the label definition and
computes the table a reader must see.
"""
from __future__ import annotations

import re
from dataclasses import dataclass, field

import numpy as np

from enc import (INT_TYPES, PDS3_TYPES, REAL_TYPES, float_bytes, int_bytes,
                 numbered,
                 rand_float, rand_ibm, rand_int, rand_vax)
from pds3w import DataObj, Obj, Raw

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-:."
FEATURES = ("items", "item_offset", "container", "gap", "rowpad",
            "prefix", "suffix", "dup", "bits", "ibm", "vax", "ebcdic",
            "bool", "char", "scale", "void", "shuffled", "wide", "numerals")
# features whose presence is a recorded finding (see known_findings.json)
BAD_CONTAINER = ("nested", "contgap", "contfirst", "contadj")


EBCDIC_MARKS = "[]!^|{}~@#$%&*()_-+=:;'<>?,./"


def mech_of(feats, parts, pre, suf, pad):
    if pre and (suf or pad):
        return "row-prefix-and-padding"

    def walk(ps, depth):
        for i, p in enumerate(ps):
            if isinstance(p, Cont):
                if depth or i == 0 or isinstance(ps[i - 1], Cont):
                    return True
                if ps[i - 1].rel + ps[i - 1].size() != p.rel:
                    return True
                if walk(p.parts, depth + 1):
                    return True
        return False

    if walk(parts, 0):
        return "container-layout"
    return "decode"


def pick_features(rng, bad=0.03):
    """a feature mixture; `bad` is the share of recorded-finding layouts"""
    f = {f for f in FEATURES if rng.random() < 0.35}
    if f & {"suffix", "rowpad"}:
        f.discard("prefix")
    r = rng.random()
    if r < bad / 2:
        return {"container", rng.choice(BAD_CONTAINER), "gap"}
    if r < bad:
        return {"prefix", rng.choice(["suffix", "rowpad"])}
    return f


@dataclass
class Col:
    name: str
    type: str
    width: int              # of one item
    rel: int = 0            # offset in the parent structure
    items: int | None = None
    stride: int | None = None
    bits: list | None = None        # [(startbit, nbits, items or None)]
    scale: object = None
    offset: object = None
    values: list = field(default_factory=list)   # [flat slot][row]

    def size(self):
        if self.items is None:
            return self.width
        return self.stride * (self.items - 1) + self.width


@dataclass
class Cont:
    name: str
    parts: list
    reps: int
    body: int
    rel: int = 0

    def size(self):
        return self.reps * self.body


def one_value(rng, c: Col):
    t, w = c.type, c.width
    if t in PDS3_TYPES and t != "VAX_REAL":
        kind, order, _ = PDS3_TYPES[t]
        if kind in "iu":
            v = rand_int(rng, w, kind == "i")
            return int_bytes(v, w, order, kind == "i"), v
        v = rand_float(rng, w)
        return float_bytes(v, w, order), v
    if t == "VAX_REAL":
        return rand_vax(rng)
    if t == "IBM_REAL":
        return rand_ibm(rng, w)
    if t == "BOOLEAN":
        v = rng.choice([0, 1, 1, 0, 1])
        return bytes([v]), bool(v)
    if t in ("CHARACTER", "DATE", "TIME"):
        return char_value(rng, w)
    if t in ("ASCII_INTEGER", "ASCII_REAL"):
        s = str(rng.randint(0, 10 ** min(w, 9) - 1))
        if t == "ASCII_REAL":
            k = rng.randint(0, len(s))
            s = (s[:k] + "." + s[k:])[:w]
        s = rng.choice([s.rjust, s.ljust, s.zfill])(w)
        return s.encode(), s
    if t.startswith("EBCDIC"):
        s = "".join(rng.choice(ALNUM[:62] + " " + EBCDIC_MARKS)
                    for _ in range(w))
        return s.encode("cp500"), s
    if "BIT_STRING" in t:
        b = rng.randbytes(w)
        if c.bits is None:
            return b, b
        order = b if t.startswith("MSB") else b[::-1]
        s = "".join(f"{x:08b}" for x in order)
        out = []
        for st, n, items in c.bits:
            for k in range(items or 1):
                a = st - 1 + k * n
                out.append(s[a:a + n])
        return b, out
    raise KeyError(t)


def char_value(rng, w):
    """
    (bytes, text) of a cell of a CHARACTER column: some are padded, some have
    characters outside ASCII. Trailing NULs are not part of the text.
    """
    s = "".join(rng.choice(ALNUM) for _ in range(w))
    r = rng.random()
    if r < .2:
        s = s[:rng.randint(0, w)].ljust(w)
    elif r < .3:
        s = s[:rng.randint(0, w)].rjust(w)
    elif r < .4:
        s = "".join(rng.choice(ALNUM + " \0,\"'\t\r\n") for _ in range(w))
    elif r < .5:
        s = s[:rng.randint(0, w)].ljust(w, "\0")
    elif r < .55:
        return (b := rng.randbytes(w)), b.decode("latin-1").rstrip("\0")
    return s.encode(), s.rstrip("\0")


WIDE = (3, 5, 6, 7, 8, 8, 10)
"""widths of integers which few computers have"""


def gen_col(rng, name, feats):
    roll = rng.random()
    opts = ["int", "int", "real"]
    for f in ("char", "bool", "ibm", "vax", "ebcdic", "bits", "void",
              "numerals"):
        if f in feats:
            opts.append(f)
    k = rng.choice(opts)
    c = None
    if k == "int":
        t = rng.choice(INT_TYPES)
        c = Col(name, t, rng.choice(
            WIDE if "wide" in feats and rng.random() < .4
            else PDS3_TYPES[t][2]))
    elif k == "numerals":
        c = Col(name, rng.choice(["ASCII_INTEGER", "ASCII_REAL"]),
                rng.randint(2, 12))
    elif k == "real":
        t = rng.choice(REAL_TYPES)
        c = Col(name, t, rng.choice(PDS3_TYPES[t][2]))
    elif k == "char":
        c = Col(name, rng.choice(["CHARACTER", "CHARACTER", "DATE", "TIME"]),
                rng.randint(1, 12))
    elif k == "bool":
        return Col(name, "BOOLEAN", 1)
    elif k == "ibm":
        return Col(name, "IBM_REAL", rng.choice([4, 8]))
    elif k == "vax":
        return Col(name, "VAX_REAL", 4)
    elif k == "ebcdic":
        return Col(name, rng.choice(["EBCDIC_CHARACTER", "EBCDIC"]),
                   rng.randint(2, 8))
    elif k == "void":
        return Col(name, rng.choice(["MSB_BIT_STRING", "LSB_BIT_STRING"]),
                   rng.randint(2, 6))
    else:
        t = rng.choice(["MSB_BIT_STRING", "LSB_BIT_STRING"])
        w = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11])
        c = Col(name, t, w, bits=[])
        pos = 1
        while pos <= 8 * w and len(c.bits) < 7:
            pos += rng.choice([0, 0, 0, 1, 3])
            n = rng.randint(1, min(13, 8 * w))
            it = rng.choice([None, None, 2, 3])
            if pos - 1 + n * (it or 1) > 8 * w:
                it = None
                n = min(n, 8 * w - pos + 1)
            if n <= 0:
                break
            c.bits.append((pos, n, it))
            pos += n * (it or 1)
        if not c.bits:
            c.bits = [(1, 1, None)]
        return c
    if "items" in feats and roll < 0.35:
        c.items = rng.choice([1, 2, 3, 5])
        c.stride = c.width
        if "item_offset" in feats and rng.random() < 0.6:
            c.stride += rng.choice([0, 1, 2])
    if "scale" in feats and k in ("int", "real") and rng.random() < 0.5:
        if rng.random() < 0.8:
            c.scale = rng.choice([0.5, 0.001, 2.0, 1e-3, 10, 3])
        if rng.random() < 0.7:
            c.offset = rng.choice([10, -3, 100.5, 0.25, 2000])
        if c.width == 8 and k == "int" and c.scale not in (None, .5, .001):
            c.scale = .5        # the products might not fit in 64 bits
    return c


def place(rng, parts, feats, cont=False):
    """assign offsets within a structure; returns its size"""
    pos, prev = 0, None
    for p in parts:
        if rng.random() < 0.3 and "gap" in feats:
            if not isinstance(p, Cont) or "contgap" in feats:
                pos += rng.randint(1, 6)
        p.rel = pos
        pos += p.size()
        prev = p
    return pos


def gen_parts(rng, feats, names, depth=0):
    n = rng.randint(1, 5)
    parts = []
    for i in range(n):
        want = ("container" in feats and rng.random() < 0.4 and depth < (
            2 if "nested" in feats else 1))
        # a layout outside the recorded findings has a plain column just
        # before every container
        follows = parts and isinstance(parts[-1], Col)
        if want and (follows or feats & {"contfirst", "contadj"}):
            prev = parts[-1] if parts else None
            sub = gen_parts(rng, feats, names, depth + 1)
            body = place(rng, sub, feats, True)
            if "gap" in feats and rng.random() < 0.3:
                body += rng.randint(1, 4)
            parts.append(Cont(f"GROUP_OBJ{len(names)}", sub,
                              rng.choice([1, 2, 3, 4]), body))
            names.append(None)
        else:
            nm = f"COL_{'ABCDEFGHJKLMNPQRSTUVWXYZ'[len(names) % 24]}" \
                 f"{len(names)}"
            if "dup" in feats and rng.random() < 0.3:
                nm = rng.choice(["TIME TAG", "DUPLICATE", "RESERVED",
                                 "PLACEHOLDER", "DUPLICATE_0", "DUPLICATE_1"])
            elif rng.random() < .04:
                nm = rng.choice(ODD_NAMES)
                if nm in names:
                    nm += str(len(names))
            names.append(nm)
            parts.append(gen_col(rng, nm, feats))
    return parts


def flatten(parts, base=0, reps_path=()):
    """-> list of (Col, absolute offset) slots in label order"""
    slots = []
    for p in parts:
        if isinstance(p, Cont):
            for r in range(p.reps):
                slots += flatten(p.parts, base + p.rel + r * p.body)
        else:
            for k in range(p.items or 1):
                slots.append((p, base + p.rel + k * (p.stride or 0)))
    return slots


ODD_NAMES = ["450", "0.55", "PLACEHOLDER", "PLACEHOLDER_0", "dt",
             "PLACEHOLDER_GROUP_OBJ1", "NAME", "index"]
"""names which are numbers, or which pdr might use itself"""


def name_value(rng, name):
    """a name as it is in a label; some numbers are not in quotation marks"""
    return Raw(name) if name[0].isdigit() and rng.random() < .7 else name


def col_block(rng, c: Col):
    items = [("NAME", name_value(rng, c.name)), ("DATA_TYPE", Raw(c.type)),
             ("START_BYTE", c.rel + 1)]
    if c.items is None:
        items.append(("BYTES", c.width))
    else:
        items += [("ITEMS", c.items), ("ITEM_BYTES", c.width)]
        if c.stride != c.width:
            items.append(("ITEM_OFFSET", c.stride))
            items.append(("BYTES", c.size()))
        else:
            items.append(("BYTES", c.size()))
    if rng.random() < 0.3:
        items.append(("DESCRIPTION", "a column; it is = to nothing else"))
    if c.scale is not None:
        items.append(("SCALING_FACTOR", c.scale))
    if c.offset is not None:
        items.append(("OFFSET", c.offset))
    for j, (st, n, it) in enumerate(c.bits or ()):
        b = [("NAME", f"BIT_{j}"), ("BIT_DATA_TYPE",
                                    Raw("MSB_UNSIGNED_INTEGER")),
             ("START_BIT", st)]
        if it:
            b += [("ITEMS", it), ("ITEM_BITS", n), ("BITS", it * n)]
        else:
            b.append(("BITS", n))
        items.append(Obj("BIT_COLUMN", b))
    return Obj("COLUMN", items)


def part_blocks(rng, parts):
    out = []
    for p in parts:
        if isinstance(p, Cont):
            out.append(Obj("CONTAINER", [
                ("NAME", p.name), ("START_BYTE", p.rel + 1),
                ("BYTES", p.body), ("REPETITIONS", p.reps),
            ] + part_blocks(rng, p.parts)))
        else:
            out.append(col_block(rng, p))
    return out


def rename(slots):
    """the documented rule for making column names unique"""
    groups = {}
    for i, (c, off) in enumerate(slots):
        groups.setdefault(c.name, []).append(i)
    names = [None] * len(slots)
    for name, ixs in groups.items():
        if len(ixs) == 1:
            names[ixs[0]] = name
            continue
        base = name
        if name == "RESERVED":
            base = f"RESERVED_{slots[ixs[0]][0].rel + 1}"
        for i, new in zip(ixs, numbered(base, len(ixs), groups)):
            names[i] = new
    return names


TEXT = ("CHARACTER", "DATE", "TIME", "ASCII_INTEGER", "ASCII_REAL")


def column_mismatch(series, c: Col, vals):
    """None if a DataFrame column holds exactly these values"""
    t = c.type
    got = list(series)
    if len(got) != len(vals):
        return f"{len(got)} rows instead of {len(vals)}"
    if not getattr(series.dtype, "isnative", True):
        # pandas cannot sort, group or index by such columns
        return f"values in foreign byte order ({series.dtype.str})"
    scaled = c.scale is not None or c.offset is not None
    for r, (g, v) in enumerate(zip(got, vals)):
        if t in TEXT or t.startswith("EBCDIC"):
            if isinstance(g, bytes):
                g = g.decode("latin-1")
            ok = g == v
        elif "BIT_STRING" in t:
            if c.bits is None:
                g = bytes(g)
            ok = g == v
        elif t == "BOOLEAN":
            ok = isinstance(g, (bool, np.bool_)) and bool(g) == v
        elif scaled:
            e = v
            e = e * c.scale if c.scale is not None else e
            e = e + c.offset if c.offset is not None else e
            tol = 1e-5 if c.width == 4 and PDS3_TYPES[t][0] == "f" else 1e-9
            ref = abs(v * (c.scale or 1)) + abs(c.offset or 0)
            if PDS3_TYPES[t][0] == "f" and c.width == 4 and ref > 3e38:
                continue
            ok = (g == e or (g != g and e != e)
                  or abs(float(g) - float(e)) <= tol * max(ref, 1e-300))
        elif t == "IBM_REAL":
            # 4-byte values are exact in float64; when the whole column fits
            # they may be narrowed to float32, which also holds 24 bits
            ok = float(g) == v or abs(float(g) - v) <= abs(v) * 1e-7
            if c.width == 8:
                ok = float(g) == v
        else:
            ok = g == v or (g != g and v != v)
            if isinstance(g, (bool, np.bool_)):
                ok = False
        if not ok:
            return f"row {r}: got {g!r}, expected {v!r}"
    if PDS3_TYPES.get(t, ("",))[0] in ("i", "u", "f", "vax") and not scaled:
        k = PDS3_TYPES[t][0]
        k = "f" if k == "vax" else k
        if k != "f" and c.width not in (1, 2, 4, 8):
            return None         # numpy has no integers as wide as these
        if series.dtype.kind != k or series.dtype.itemsize != c.width:
            return f"dtype {series.dtype}, expected {k}{c.width}"
    return None


BINARY_ONLY = re.compile(
    "(MSB|LSB|PC|VAX|SUN|MAC|IEEE|IBM)_|.*UNSIGNED").match


def gen_bin_table(rng, name="TABLE", feats=None, rows=None, defn="inline",
                  fmtname="FORMAT.FMT"):
    feats = set(feats) if feats is not None else pick_features(rng)
    names = []
    parts = gen_parts(rng, feats, names)
    size = place(rng, parts, feats)
    slots = flatten(parts)
    if (any(c.type in ("ASCII_INTEGER", "ASCII_REAL") for c, _ in slots)
            and not any(BINARY_ONLY(c.type) for c, _ in slots)):
        # nothing but INTERCHANGE_FORMAT tells this from a table of text,
        # and labels of such tables often say BINARY
        for c, _ in slots:
            if c.type in ("ASCII_INTEGER", "ASCII_REAL"):
                c.type = "CHARACTER"
    row_bytes = size
    if "rowpad" in feats:
        row_bytes += rng.randint(0, 9)
    pre = rng.randint(1, 9) if "prefix" in feats else 0
    suf = rng.randint(1, 9) if "suffix" in feats else 0
    endpad = row_bytes - max(off + c.width for c, off in slots)
    if pre and (suf or endpad) and feats not in (
            {"prefix", "suffix"}, {"prefix", "rowpad"}):
        pre = 0
    rows = rows or rng.choice([1, 2, 3, 5, 9, 20])
    cols = [[] for _ in slots]
    payload = bytearray()
    for r in range(rows):
        row = bytearray(rng.randbytes(row_bytes))
        for i, (c, off) in enumerate(slots):
            b, v = one_value(rng, c)
            assert len(b) == c.width
            row[off:off + c.width] = b
            cols[i].append(v)
        payload += rng.randbytes(pre) + row + rng.randbytes(suf)
    colblocks = part_blocks(rng, parts)
    ncol = len(parts)
    if "shuffled" in feats and not any(
            isinstance(p, Cont) for p in parts):
        # the order in which a label lists columns carries no meaning
        perm = list(range(len(parts)))
        rng.shuffle(perm)
        colblocks = [colblocks[i] for i in perm]
        order = []
        for i in perm:
            order += [j for j, (c, _) in enumerate(slots) if c is parts[i]]
        slots = [slots[j] for j in order]
        cols = [cols[j] for j in order]
    expnames = rename(slots)
    items = [("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", rows),
             ("COLUMNS", ncol), ("ROW_BYTES", row_bytes)]
    if pre:
        items.append(("ROW_PREFIX_BYTES", pre))
    if suf:
        items.append(("ROW_SUFFIX_BYTES", suf))
    sidecars = {}
    if defn == "file":
        from pds3w import finish_label, render
        sidecars[fmtname] = finish_label(render(colblocks) + ["END"])
        items.append(("^STRUCTURE", fmtname))
    else:
        items += colblocks
    desc = {"features": sorted(feats), "rows": rows, "row_bytes": row_bytes,
            "columns": [f"{n}:{c.type}{c.width}@{o}"
                        for n, (c, o) in zip(expnames, slots)][:12]}

    mech = mech_of(feats, parts, pre, suf, endpad)

    def verify(data, nm, mon, where=""):
        import pandas as pd
        df = data[nm]
        if mech != "decode":
            mon.saw("known-bad-layout:" + mech)
        mon.check(isinstance(df, pd.DataFrame),
                  lambda: f"{where}{nm}: expected a table, got {type(df)}: "
                          f"{str(df)[:300]} ({desc})", mech)
        mon.check(list(df.columns) == expnames,
                  lambda: f"{where}{nm}: columns {list(df.columns)} != "
                          f"expected {expnames} ({desc})",
                  "columns" if mech == "decode" else mech)
        mon.check(len(df) == rows,
                  lambda: f"{where}{nm}: {len(df)} rows != {rows} ({desc})",
                  mech)
        for n, (c, off), vals in zip(expnames, slots, cols):
            bad = column_mismatch(df[n], c, vals)
            mon.check(bad is None,
                      lambda: f"{where}{nm}: column {n} ({c.type} width "
                              f"{c.width} offset {off} scale={c.scale} "
                              f"offset={c.offset} bits={c.bits}): {bad} "
                              f"({desc})",
                      mech)
            mon.saw("columns_compared")
            mon.saw("cells_compared", len(vals))
        mon.saw("objects_compared")
        return df

    return DataObj(name, Obj(name, items), bytes(payload), verify, ext="TAB",
                   sidecars=sidecars,
                   meta={"desc": desc, "feats": feats, "rows": rows,
                         "slots": slots, "names": expnames, "cols": cols,
                         "types": sorted({c.type for c, _ in slots}),
                         "parts": parts})
