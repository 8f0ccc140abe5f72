"""
Generators of PDS3 ASCII TABLE / SPREADSHEET objects.
"""
from __future__ import annotations

import string

import numpy as np

from pds3w import DataObj, Obj, Raw
from enc import numbered
from ptab import ODD_NAMES, name_value

WORDS = ["Alpha", "bravo", "Charlie Delta", "x-ray", "Zulu_9", "a.b/c",
         "MOON", "q(1)", "N2K", "PDS3:obj", "it's", "T1=ok", "#7b", "50%x"]
DELIMS = {"COMMA": ",", "VERTICAL_BAR": "|", "SEMICOLON": ";", "TAB": "\t"}


def rand_cell(rng, kind, width):
    """(text without padding, expected python value) no wider than width"""
    if kind == "int":
        digits = rng.randint(1, max(1, min(width - 1, 15)))
        v = rng.randint(0, 10**digits - 1)
        if rng.random() < 0.4 and len(str(v)) < width:
            v = -v
        return str(v), v
    if kind == "real":
        for _ in range(20):
            if rng.random() < 0.35 and width >= 9:
                t = f"{rng.uniform(-9, 9):.{max(1, min(6, width - 9))}E}"
                if rng.random() < 0.5:
                    e = rng.choice([-12, -3, 5, 11, 20])
                    t = f"{rng.uniform(1, 9):.2f}E{e:+03d}"
            else:
                t = f"{rng.uniform(-99, 99):.{rng.randint(1, 5)}f}"
            if len(t) <= width:
                return t, float(t)
        t = f"{rng.randint(0, 9)}.{rng.randint(0, 9)}"[:width]
        return t, float(t)
    if kind == "date":
        t = (f"{rng.randint(1970, 2030)}-{rng.randint(1, 12):02d}-"
             f"{rng.randint(1, 28):02d}T{rng.randint(0, 23):02d}:"
             f"{rng.randint(0, 59):02d}:{rng.randint(0, 59):02d}")
        return t, t
    t = rng.choice(WORDS)
    if rng.random() < 0.4:
        t = rng.choice(string.ascii_letters) + "".join(
            rng.choice(string.ascii_letters + string.digits + "_-")
            for _ in range(rng.randint(0, 9)))
    if t.lower() in ("nan", "na", "null", "none", "n/a", "true", "false",
                     "inf", "infinity"):
        t = "word"
    t = t[:width].strip()
    if not any(c.isalpha() for c in t):
        t = "w"
    if t.lower() in ("nan", "na", "null", "none", "n/a", "inf", "true", "t"):
        t = "wo"
    return t, t


DT = {"int": ["ASCII_INTEGER"], "real": ["ASCII_REAL"],
      "char": ["CHARACTER"], "date": ["TIME", "DATE"]}


BLANK, EMPTY = object(), object()   # no value; text of blanks


def cell_ok(got, exp, kind, scale, offset):
    if exp is EMPTY:
        return isinstance(got, str) and got == ""
    if exp is BLANK:
        missing = got is None or isinstance(got, float) and got != got
        return missing or kind in ("char", "date") and got == ""
    if kind in ("char", "date"):
        return isinstance(got, str) and got == exp
    if isinstance(got, (str, bytes, bool, np.bool_)) or got is None:
        return False
    e = exp
    if scale is not None:
        e = e * scale
    if offset is not None:
        e = e + offset
    if kind == "int" and scale is None and offset is None:
        return got == e
    ref = max(abs(exp * (scale or 1)), abs(offset or 0), 1e-300)
    return abs(float(got) - float(e)) <= 1e-12 * ref


NUMERIC_TEXT = ["007", "0123", "1E5", "42", "-3", "0.50", "9"]
NA_TEXT = ["NA", "nan", "null", "None", "N/A", "NULL"]


def gen_ascii_table(rng, name="TABLE", style=None, standalone=True,
                    stream=False, odd_text=False):
    """
    style: fixed  - blank separated fixed-width columns
           csv    - fixed-width columns with commas and quoted strings
           sheet  - variable-width delimited fields (SPREADSHEET)
    """
    style = style or rng.choice(["fixed", "csv", "sheet"])
    if style == "sheet" and "SPREADSHEET" not in name:
        name = "SPREADSHEET"
    ncol = rng.randint(2, 7) if style == "fixed" else rng.randint(1, 7)
    rows = rng.choice([1, 2, 3, 6, 15])
    eol = "\r\n" if style != "sheet" else rng.choice(["\r\n", "\r\n", "\n"])
    cols = []
    for i in range(ncol):
        kind = rng.choice(["int", "real", "char", "date"])
        width = {"int": rng.randint(2, 10), "real": rng.randint(5, 14),
                 "char": rng.randint(3, 14), "date": 19}[kind]
        items = None
        if style != "sheet" and kind in ("int", "real") and \
                rng.random() < 0.15:
            items = rng.randint(2, 4)
        scale = offset = None
        if kind in ("int", "real") and rng.random() < 0.15:
            scale = rng.choice([0.5, 2, 0.01, None])
            offset = rng.choice([5, -1.5, None])
        cols.append({"name": f"F{i}_{kind.upper()}", "kind": kind,
                     "width": width, "items": items, "scale": scale,
                     "offset": offset, "dt": rng.choice(DT[kind]),
                     "mech": "decode"})
        if odd_text and kind == "char" and rng.random() < .02:
            # text which looks like a number, or like a missing value
            cols[-1]["mech"], cols[-1]["pool"] = rng.choice([
                ("numeric-text", NUMERIC_TEXT),
                ("na-text", NA_TEXT + ["word", "abc"])])
    if rng.random() < 0.2 and ncol > 2:
        cols[1]["name"] = cols[0]["name"] = "REPEATED"
        if rng.random() < .3:
            cols[-1]["name"] = rng.choice(["REPEATED_0", "REPEATED_1"])
    elif rng.random() < .12:
        rng.choice(cols)["name"] = rng.choice(ODD_NAMES)
    # physical layout
    delim = ","
    delim_name = None
    if style == "sheet":
        delim_name = rng.choice([None, "COMMA", "COMMA", "VERTICAL_BAR",
                                 "SEMICOLON", "TAB"])
        delim = DELIMS[delim_name or "COMMA"]
    pos = 0
    for c in cols:
        quoted = style == "csv" and c["kind"] in ("char", "date")
        c["quoted"] = quoted
        gap = 0
        if style == "fixed":
            gap = rng.randint(1, 3)
        c["start"] = pos + (1 if quoted else 0) + (
            gap if style == "fixed" else 0)
        n = c["items"] or 1
        step = c["width"] + 1
        c["stride"] = step
        end = c["start"] + step * (n - 1) + c["width"]
        c["bytes"] = end - c["start"]
        pos = end + (1 if quoted else 0)
        if style == "csv":
            pos += 1
    line_len = pos - (1 if style == "csv" else 0)
    pad = rng.choice([0, 0, 3]) if style == "fixed" else 0
    # bytes at the end of each row that belong to no column
    suffix = ""
    if style == "fixed" and rng.random() < 0.2:
        suffix = "".join(rng.choice("#*~ ") for _ in range(rng.randint(1, 9)))
    row_bytes = line_len + pad + (0 if suffix else len(eol))
    slots = []
    for c in cols:
        slots += [c] * (c["items"] or 1)
    def cell(c):
        if "pool" in c:
            t = rng.choice([w for w in c["pool"] if len(w) <= c["width"]])
            return t, t
        return rand_cell(rng, c["kind"], c["width"])

    vals = [[] for _ in slots]
    blank = rng.choice([0, 0, .15, .4]) if len(slots) > 1 else 0
    payload, longest = bytearray(), 0
    for r in range(rows):
        if style == "sheet":
            fields = []
            for i, c in enumerate(slots):
                t, v = cell(c)
                vals[i].append(v)
                if i and rng.random() < blank:
                    t, vals[i][-1] = rng.choice(
                        [("", BLANK), (" ", BLANK)]
                        if c["kind"] in ("int", "real") else
                        [('" "', EMPTY), ('"   "', EMPTY), ("", BLANK),
                         ('""', BLANK)])
                elif c["kind"] in ("char", "date") and rng.random() < 0.6:
                    if c["kind"] == "char" and rng.random() < 0.3:
                        t = t + delim + "z"
                        vals[i][-1] = t
                    t = f'"{t}"'
                fields.append(t)
            line = delim.join(fields)
        else:
            buf = [" "] * (line_len + pad)
            i = 0
            for c in cols:
                for k in range(c["items"] or 1):
                    t, v = cell(c)
                    if i and rng.random() < blank:
                        t, v = "", EMPTY if c["quoted"] else BLANK
                    vals[i].append(v)
                    i += 1
                    t = (t.rjust(c["width"]) if c["kind"] in ("int", "real")
                         else t.ljust(c["width"]))
                    s = c["start"] + k * c["stride"]
                    buf[s:s + c["width"]] = list(t)
                    if style == "csv" and k + 1 < (c["items"] or 1):
                        buf[s + c["width"]] = ","
                if c["quoted"]:
                    buf[c["start"] - 1] = '"'
                    buf[c["start"] + c["bytes"]] = '"'
                e = c["start"] + c["bytes"] + (1 if c["quoted"] else 0)
                if style == "csv" and c is not cols[-1]:
                    buf[e] = ","
            line = "".join(buf)
            assert len(line) == line_len + pad
        line += suffix + eol
        longest = max(longest, len(line))
        payload += line.encode("ascii")
    # label
    blocks = []
    for c in cols:
        if style == "sheet":
            items = [("NAME", name_value(rng, c["name"])), ("DATA_TYPE", Raw(c["dt"])),
                     ("BYTES", c["width"] + 4)]
            kind = "FIELD"
        else:
            items = [("NAME", name_value(rng, c["name"])), ("DATA_TYPE", Raw(c["dt"])),
                     ("START_BYTE", c["start"] + 1), ("BYTES", c["bytes"])]
            if c["items"]:
                items += [("ITEMS", c["items"]), ("ITEM_BYTES", c["width"]),
                          ("ITEM_OFFSET", c["stride"])]
            kind = "COLUMN"
        if c["scale"] is not None:
            items.append(("SCALING_FACTOR", c["scale"]))
        if c["offset"] is not None:
            items.append(("OFFSET", c["offset"]))
        blocks.append(Obj(kind, items))
    top = [("INTERCHANGE_FORMAT", Raw("ASCII")), ("ROWS", rows)]
    if style == "sheet":
        top += [("ROW_BYTES", longest + rng.randint(0, 3)),
                ("FIELDS", ncol)]
        if delim_name:
            top.append(("FIELD_DELIMITER", delim_name))
    else:
        top += [("ROW_BYTES", row_bytes), ("COLUMNS", ncol)]
        if suffix:
            top.append(("ROW_SUFFIX_BYTES", len(suffix) + len(eol)))
    groups = {}
    for i, c in enumerate(slots):
        groups.setdefault(c["name"], []).append(i)
    names = [None] * len(slots)
    for nm, ix in groups.items():
        new = [nm] if len(ix) == 1 else numbered(nm, len(ix), groups)
        for i, n in zip(ix, new):
            names[i] = n
    desc = {"style": style, "rows": rows, "delim": delim_name,
            "suffix": suffix,
            "columns": [f"{n}:{c['dt']}{c['width']}"
                        f"{'x%d' % c['items'] if c['items'] else ''}"
                        for n, c in zip(names, slots)]}

    def verify(data, nm, mon, where=""):
        import pandas as pd
        df = data[nm]
        mon.check(isinstance(df, pd.DataFrame),
                  lambda: f"{where}{nm}: expected a table, got {type(df)}: "
                          f"{str(df)[:300]} ({desc})", "decode")
        mon.check(list(df.columns) == names,
                  lambda: f"{where}{nm}: columns {list(df.columns)} != "
                          f"{names} ({desc})", "columns")
        mon.check(len(df) == rows, lambda: f"{where}{nm}: {len(df)} rows, "
                  f"expected {rows} ({desc})", "decode")
        for n, c, vs in zip(names, slots, vals):
            for r, (g, v) in enumerate(zip(list(df[n]), vs)):
                mon.check(
                    cell_ok(g, v, c["kind"], c["scale"], c["offset"]),
                    lambda: f"{where}{nm}: column {n} row {r}: got {g!r}, "
                            f"expected {v!r} (scale {c['scale']} offset "
                            f"{c['offset']}) ({desc})",
                    "decode" if isinstance(g, str) else c["mech"])
            mon.saw("columns_compared")
            mon.saw("cells_compared", len(vs))
        mon.saw("objects_compared")
        mon.saw("style_" + style)
        mon.saw("row_suffix", int(bool(suffix)))
        mon.saw("blank_cells", sum(v is BLANK or v is EMPTY
                                   for vs in vals for v in vs))
        return df

    return DataObj(name, Obj(name, top + blocks), bytes(payload), verify,
                   ext="TAB" if style != "sheet" else "CSV",
                   meta={"desc": desc, "style": style, "rows": rows,
                         "delim": delim_name, "vals": vals, "names": names,
                         "kinds": sorted({c["kind"] for c in cols}),
                         "items": any(c["items"] for c in cols)})
