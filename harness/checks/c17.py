"""C17: tables of PDS4 products"""
import math
import warnings

import numpy as np
import pandas as pd

import pdr
import pds4w
from pds4w import el

PROP = "C17"
CASES = {"quick": 3000, "thorough": 10000}
RULE = (
    "case = a PDS4 product with 1-3 tables: binary and character tables with "
    "fields of every type at explicit locations with gaps, groups nested to "
    "two levels, named or not, repeated names and uniformly sampled fields; "
    "delimited tables with every delimiter, quoted fields, groups, empty "
    "fields and any way of giving their lengths; inventories. Each may be "
    "cut off. Oracle: rows, column names and values the writer put there. A "
    "behaviour is (table kind, field type, group depth, extras, damage)"
)
REQUIRED = ("binary", "character", "delimited", "cells_compared", "groups",
            "nested_groups", "named_groups", "repeated_names",
            "uniformly_sampled", "nulls", "wide_integers", "text_cells",
            "quoted_delimiters", "two_tables", "truncated", "emptied",
            "all_text_truncated", "incomplete_records", "inventory", "group_names_kept",
            "bit_strings")


def cells(v):
    return v.tolist() if hasattr(v, "tolist") else list(v)


def same_cell(got, exp, f, fixed, loose):
    if exp is None:
        return got is None or got is pd.NA or (
            isinstance(got, float) and math.isnan(got))
    if pds4w.is_text(f.dtype):
        if not isinstance(got, str):
            return False
        return got.rstrip() == exp.rstrip() if fixed else \
            got.strip() == exp.strip()
    if isinstance(exp, bytes):
        return isinstance(got, bytes) and got == exp
    if isinstance(got, (str, bytes)):
        return False
    if isinstance(exp, complex):
        got = complex(got)
        return all(a == b or a != a and b != b for a, b in (
            (got.real, exp.real), (got.imag, exp.imag)))
    if isinstance(exp, float) and exp != exp:
        return got != got
    if loose and isinstance(exp, int):
        # columns with missing values are made of floats
        return got == float(exp)
    return got == exp


def check_table(mon, df, s, where):
    mon.check(isinstance(df, pd.DataFrame), lambda: f"{where}is a "
              f"{type(df)}", "type")
    uni = s.meta.get("uniform", [])
    names = [u[0] for u in uni] + pds4w.column_names(s.truth)
    mon.check(list(df.columns) == names, lambda: f"{where}columns "
              f"{list(df.columns)}, written {names}", "column names")
    n = s.meta["records"]
    mon.check(len(df) == n, lambda: f"{where}{len(df)} rows, written {n}",
              "rows")
    fixed = s.tag != "Table_Delimited"
    i = 0
    for name, vals in uni:
        got = df.iloc[:, i].tolist()
        i += 1
        ok = all(abs(a - b) <= 1e-9 * max(1, abs(b))
                 for a, b in zip(got, vals))
        mon.check(ok, lambda: f"{where}uniformly sampled {name} is "
                  f"{got[:4]}, written {vals[:4]}", "uniform")
        mon.saw("uniformly_sampled")
    for path, f, reps, vals in s.truth:
        null = any(e is None for v in vals for e in v)
        for k in range(reps):
            col = df.iloc[:, i]
            got = cells(col)
            i += 1
            exp = [v[k] for v in vals]
            mon.check(getattr(col.dtype, "isnative", True), lambda: (
                f"{where}{f.dtype} column {names[i - 1]!r} is in foreign byte "
                f"order ({col.dtype.str})"), "order")
            for r, (g, e) in enumerate(zip(got, exp)):
                if not same_cell(g, e, f, fixed, null):
                    mon.fail(f"{where}{f.dtype} column {names[i - 1]!r} row "
                             f"{r} is {g!r}, written {e!r}", "cells")
            mon.saw("bit_strings", int("BitString" in f.dtype))
            if not null and "Bit" not in f.dtype and not pds4w.is_text(f.dtype):
                want = ("b" if f.dtype == "ASCII_Boolean" else "f" if
                        f.dtype == "ASCII_Real" or "IEEE" in f.dtype else
                        "c" if "Complex" in f.dtype else "iuO")
                mon.check(col.dtype.kind in want, lambda: f"{where}"
                          f"{f.dtype} column {names[i - 1]!r} has dtype "
                          f"{col.dtype}", "types")
            mon.saw("cells_compared", len(got))
            mon.saw("nulls", int(null))
            mon.saw("text_cells", int(pds4w.is_text(f.dtype)))
            mon.saw("wide_integers", int(any(
                isinstance(e, int) and abs(e) >= 2 ** 62 for e in exp)))
        mon.saw("groups", int(len(path) > 1))
        mon.saw("nested_groups", int(len(path) > 2))
        mon.saw("named_groups", int(any(g[1] for g in path[:-1])))
        mon.saw("group_names_kept", int("GROUP" in path[-1]
                                        or "BACKGROUND" in path[-1]))
    mon.saw("repeated_names", int(any(" [1]" in x for x in names)))
    mon.saw(s.meta["what"])


def repeat_names(rng, members):
    """give two fields of one record or group the same name"""
    fs = [m for _, m in members if isinstance(m, pds4w.Fld)]
    if len(fs) > 1:
        a, b = rng.sample(range(len(fs)), 2)
        return fs[a].name, fs[b].name
    return None


def gen_table(rng, names):
    what = rng.choice(["binary", "binary", "character", "delimited",
                       "delimited", "inventory"])
    opts = []
    if what in ("binary", "character"):
        pool = pds4w.NAMES
        rep = rng.random() < .15
        if rep:
            # repeated names: names are drawn from few
            pds4w.NAMES = ["x", "y z"]
        try:
            s = pds4w.gen_fixed(rng, names, "", binary=what == "binary") \
                if not rep else gen_repeated(rng, names, what == "binary")
        finally:
            pds4w.NAMES = pool
        if rng.random() < .2:
            s.meta["uniform"] = []
            for nm in rng.sample(["freq", "step no", "t"],
                                 rng.randint(1, 2)):
                s.meta["uniform"].append(uniform(rng, s, nm))
            opts.append("uniform")
    elif what == "delimited":
        s = pds4w.gen_delimited(
            rng, names, "", nulls=rng.choice([0, 0, .2]),
            wide=rng.random() < .5)
        opts.append("nulls" if s.meta["nulls"] else "full")
    else:
        s = inventory(rng, names)
    s.meta["what"] = what
    s.meta["opts"] = opts
    return s


def gen_repeated(rng, names, binary):
    s = None
    n = rng.randint(2, 4)
    mk = pds4w.bin_field if binary else pds4w.char_field
    members, pos = [], 0
    for _ in range(n):
        f = mk(rng, rng.choice(["x", "y z"]))
        members.append((pos + 1, f))
        pos += f.length
    rows, blob = [], b""
    nrec = rng.randint(1, 10)
    tail = b"" if binary else b"\r\n"
    for _ in range(nrec):
        row = []
        for _, f in members:
            b, v = f.gen()
            blob += b
            row.append(v)
        blob += tail
        rows.append(row)
    word = "Binary" if binary else "Character"
    inner = [el("records", nrec)]
    if not binary:
        inner.append(el("record_delimiter", "Carriage-Return Line-Feed"))
    inner.append(el(f"Record_{word}", [
        el("fields", n), el("groups", 0),
        el("record_length", pos + len(tail), unit="byte"),
        *pds4w.members_xml(members, f"Group_Field_{word}")]))
    cols = [((f.name,), f, 1, [[r[i]] for r in rows])
            for i, (_, f) in enumerate(members)]
    return pds4w.Struct("table", f"Table_{word}", "", inner, blob, cols,
                        list(names), {"records": nrec})


def uniform(rng, s, nm):
    n = s.meta["records"]
    first = rng.choice([0, 1, 100, 2.5, -7])
    step = rng.choice([1, 2, 0.25, -3])
    kind = rng.choice(["Linear", "linear", None, "Logarithmic",
                       "Exponential"])
    extra = []
    if kind == "Logarithmic":
        first, step = rng.choice([1, 2.0]), rng.choice([2, 1.1])
        vals = [first * step ** j for j in range(n)]
    elif kind == "Exponential":
        first, step, base = 1, rng.choice([2, 5.0]), rng.choice([2, 10])
        vals = [math.log(base ** first + j * step, base) for j in range(n)]
        extra = [el("sampling_parameter_base", base)]
    else:
        vals = [first + j * step for j in range(n)]
    if kind:
        extra.append(el("sampling_parameter_scale", kind))
    x = el("Uniformly_Sampled", [
        el("sampling_parameter_name", nm),
        el("sampling_parameter_interval", step),
        el("sampling_parameter_first_value", repr(first)),
        el("sampling_parameter_last_value", repr(vals[-1])), *extra])
    # before the record
    at = next(i for i, e in enumerate(s.inner) if e.startswith("<Record_"))
    s.inner.insert(at, x)
    return nm, vals


def inventory(rng, names):
    n = rng.randint(1, 8)
    rows, blob = [], b""
    for i in range(n):
        a = rng.choice("PS")
        b = f"urn:nasa:pds:bundle:coll:prod_{i}::1.{i}"
        rows.append((a, b))
        blob += f"{a},{b}\r\n".encode()
    fs = []
    cols = []
    for i, (nm, t) in enumerate([("Member Status", "ASCII_String"),
                                 ("LIDVID_LID", "ASCII_LIDVID_LID")]):
        fs.append(el("Field_Delimited", [
            el("name", nm), el("field_number", i + 1), el("data_type", t)]))
        cols.append(((nm,), pds4w.Fld(nm, None, 0, t, None), 1,
                     [[r[i]] for r in rows]))
    inner = [el("parsing_standard_id", "PDS DSV 1"), el("records", n),
             el("record_delimiter", "Carriage-Return Line-Feed"),
             el("field_delimiter", "Comma"),
             el("Record_Delimited", [
                 el("fields", 2), el("groups", 0), *fs]),
             el("reference_type", "inventory_has_member_product")]
    return pds4w.Struct("table", "Inventory", "", inner, blob, cols,
                        list(names), {"records": n, "no_length": True})


def incomplete(s, size):
    """are entire values missing when only so many bytes are left?"""
    lines = s.meta.get("lines")
    if not lines or not lines[-1] or s.meta["delim"] not in lines[-1]:
        return False
    start = len(s.blob) - len(s.meta["eol"]) - len(lines[-1])
    return size <= start or (
        b'"' not in lines[-1]
        and size < start + lines[-1].rindex(s.meta["delim"]) + 1)


def short_record(rng, s, blob):
    """(what happened, file with a record that lacks values)"""
    m = s.meta
    can = [i for i, x in enumerate(m["lines"])
           if m["delim"] in x and b'"' not in x]
    if not can:
        return False, None
    lines = list(m["lines"])
    i = rng.choice(can)
    parts = lines[i].split(m["delim"])
    lines[i] = m["delim"].join(parts[:rng.randint(1, len(parts) - 1)])
    new = b"".join(x + m["eol"] for x in lines)
    at = m["end"] - len(s.blob)
    assert blob[at:m["end"]] == s.blob
    return "short record", blob[:at] + new.ljust(len(s.blob), b" ")


def run_case(rng, mon, idx):
    d = mon.tmp
    structs, xs = [], []
    blob = rng.randbytes(rng.choice([0, 0, 9]))
    for i in range(rng.choice([1, 1, 2, 3])):
        key = f"tab{i}"
        s = gen_table(rng, [el("local_identifier", key)])
        s.key = key
        xs.append(s.xml(len(blob)))
        blob += s.blob
        s.meta["end"] = len(blob)
        structs.append(s)
        if s.meta.get("no_length"):
            break
        blob += rng.randbytes(rng.choice([0, 0, 3]))
    fname = "t.tab"
    inv = structs[-1].tag == "Inventory"
    area = "File_Area_Inventory" if inv and len(structs) == 1 else \
        "File_Area_Observational"
    from checks.c16 import label_of
    root = "Product_Collection" if "Inv" in area else "Product_Observational"
    text = label_of([el(area, [el("File", [el("file_name", fname)]), *xs])],
                    root)
    path = d / "p.xml"
    path.write_text(text, encoding="utf-8")
    damage = rng.random() < .2 and rng.choice(["truncated", "emptied"])
    cut = len(blob)
    if damage:
        v = rng.choice(structs)
        cut = 0 if damage == "emptied" else v.meta["end"] - rng.randint(
            1, len(v.blob))
        if damage == "truncated" and rng.random() < .5:
            # between records
            n = v.meta["records"]
            if "Delim" not in v.tag and v.tag != "Inventory":
                ln = len(v.blob) // n
                cut = v.meta["end"] - ln * rng.randint(1, n)
    v = structs[-1]
    if v.meta.get("lines") and rng.random() < .12:
        # a record without its last values
        damage, cut = short_record(rng, v, blob)
        blob = cut or blob
        cut = v.meta["end"] - 1 if cut else len(blob)
    (d / fname).write_bytes(
        blob if damage == "short record" else blob[:cut])
    mon.describe({"label": text, "damage": damage, "cut": cut,
                  "size": len(blob)})
    data = pdr.read(path)
    mon.check(list(data.keys()) == [s.key for s in structs] + ["label"],
              lambda: f"keys {data.keys()}", "keys")
    for s in rng.sample(structs, len(structs)):
        where = f"{s.key} ({s.tag}): "
        if s.meta["end"] > cut:
            fixed = s.tag in ("Table_Binary", "Table_Character")
            reported = False
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    df = data[s.key]
                except Exception:
                    reported = True
            # nothing is lost with bytes behind the last field
            lost = s.meta["end"] - cut > s.meta.get(
                "slack", 2 if "Char" in s.tag else 0)
            if not fixed and (damage == "short record" or incomplete(
                    s, cut - s.meta["end"] + len(s.blob))):
                mon.saw("incomplete_records")
                mon.check(reported or w, lambda: (
                    f"{where}{damage}: values of a record are missing, and a "
                    f"table of {len(df)} rows comes back without any warning "
                    f"or error: {df.to_dict()}"), "incomplete records")
            if fixed and lost and not (reported or w):
                mon.fail(f"{where}{damage}: {s.meta['end'] - cut} of "
                         f"{len(s.blob)} bytes are missing, and a table of "
                         f"{len(df)} rows comes back without any warning or "
                         f"error", "cut-off tables")
            mon.saw(damage)
            mon.saw("all_text_truncated", int(all(
                pds4w.is_text(c[1].dtype) for c in s.truth)))
            continue
        df = data[s.key]
        check_table(mon, df, s, where)
        mon.check(data[s.key] is df, f"{where}another object", "identity")
        for path_, f, reps, _ in s.truth:
            mon.sig(s.tag, f.dtype, len(path_), s.meta["opts"])
        mon.saw("quoted_delimiters", int(s.tag == "Table_Delimited"
                                         and b'"' in s.blob))
    mon.saw("two_tables", int(len(structs) > 1))
