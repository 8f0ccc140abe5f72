"""C07: bit columns are the label's bits of each row"""
import pdr
from enc import int_bytes, rand_int, same_array  # noqa: F401
from lib import Skip
from pds3w import DataObj, Obj, Raw, build_product

PROP = "C07"
CASES = {"quick": 1200, "thorough": 16000}
RULE = (
    "case = one generated binary table with one to four bit-string COLUMNs "
    "(every length from 1 to 17 bytes, both byte orders, declared as bit "
    "strings or as another type whose BIT_COLUMNs give the order, plain, in "
    "ITEMS or in a CONTAINER), each cut into BIT_COLUMNs with any start, "
    "size, ITEMS, ITEM_OFFSET and order, next to ordinary columns, read with "
    "a stand-alone bit extractor as oracle. A behaviour is (byte order, "
    "length, how declared, repetition, sizes class)"
)
REQUIRED = ("bit_columns_compared", "bits_compared", "lsb_odd", "inferred",
            "bit_items", "bit_item_offset", "col_items", "container",
            "unsorted", "overlapping", "neighbours_compared")

MSB_DECL = ["MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER", "MSB_INTEGER",
            "INTEGER", "SUN_INTEGER", "MAC_UNSIGNED_INTEGER", "BOOLEAN"]
LSB_DECL = ["LSB_UNSIGNED_INTEGER", "LSB_INTEGER", "PC_INTEGER",
            "VAX_UNSIGNED_INTEGER"]


def cut(rng, nbits, mon):
    """BIT_COLUMN definitions of a bit string -> [(start, n, items, off)]"""
    out, pos = [], 1
    style = rng.choice(["pack", "gaps", "random", "single", "all"])
    if style == "all":
        return [(1, nbits, None, None)]
    if style == "single":
        return [(i + 1, 1, None, None) for i in range(min(nbits, 40))]
    for _ in range(rng.randint(1, 9)):
        if style == "random":
            pos = rng.randint(1, nbits)
        elif style == "gaps":
            pos += rng.choice([0, 1, 2, 9])
        if pos > nbits:
            break
        n = rng.randint(1, min(nbits - pos + 1, rng.choice([1, 3, 8, 17, 99])))
        items = off = None
        if rng.random() < 0.3:
            items = rng.randint(1, 5)
            off = n + rng.choice([0, 0, 1, 4])
            if pos - 1 + (items - 1) * off + n > nbits:
                items = off = None
        out.append((pos, n, items, off))
        pos += (n if not items else (items - 1) * off + n)
    if len(out) > 1 and rng.random() < 0.25:
        rng.shuffle(out)
    starts = [b[0] for b in out]
    if starts != sorted(starts):
        mon.saw("unsorted")
    end = 0
    for st, n, it, off in sorted(out, key=lambda b: b[0]):
        if st <= end:
            mon.saw("overlapping")
        end = max(end, st - 1 + (((it - 1) * off + n) if it else n))
    return out


def extract(raw, order, cuts):
    """independent of pdr: integer arithmetic on the whole string"""
    total = 8 * len(raw)
    word = int.from_bytes(raw, "big" if order == ">" else "little")
    out = []
    for st, n, items, off in cuts:
        for k in range(items or 1):
            a = st - 1 + k * (off or 0)
            v = (word >> (total - a - n)) & ((1 << n) - 1)
            out.append(format(v, f"0{n}b"))
    return out


def bit_blocks(rng, cuts, btype):
    blocks = []
    for j, (st, n, items, off) in enumerate(cuts):
        b = [("NAME", f"BIT_{j}"), ("BIT_DATA_TYPE", Raw(btype)),
             ("START_BIT", st)]
        if items:
            b += [("BITS", (items - 1) * off + n), ("ITEMS", items),
                  ("ITEM_BITS", n)]
            if off != n or rng.random() < 0.3:
                b.append(("ITEM_OFFSET", off))
        else:
            b.append(("BITS", n))
        if rng.random() < 0.3:
            b.append(("DESCRIPTION", "bits"))
        blocks.append(Obj("BIT_COLUMN", b))
    return blocks


def run_case(rng, mon, idx):
    rows = rng.choice([1, 1, 2, 3, 7, 30])
    ncols = rng.randint(1, 4)
    cols, pos = [], 0        # (name, kind, offset, ...)
    blocks = []
    data = [bytearray() for _ in range(rows)]
    expect = []              # (column name, [row values], description)
    for c in range(ncols):
        nm = f"FLAGS_{c}"
        order = rng.choice("<>")
        w = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17])
        cuts = cut(rng, 8 * w, mon)
        if not cuts:
            cuts = [(1, 1, None, None)]
        declared = rng.random() < 0.6
        if declared:
            dtype = ("MSB" if order == ">" else "LSB") + "_BIT_STRING"
            btype = rng.choice(MSB_DECL + LSB_DECL)
        else:
            btype = rng.choice(MSB_DECL if order == ">" else LSB_DECL)
            dtype = rng.choice(["CHARACTER", "UNSIGNED_INTEGER",
                                "MSB_UNSIGNED_INTEGER", "BINARY", "N/A"])
            mon.saw("inferred")
        rep = rng.choice(["plain", "plain", "plain", "items", "container"])
        if rep == "container" and c == 0:
            rep = "plain"      # (see known findings of C04)
        if rep == "plain":
            items = [("NAME", nm), ("DATA_TYPE", Raw(dtype)),
                     ("START_BYTE", pos + 1), ("BYTES", w)]
            blocks.append(Obj("COLUMN", items + bit_blocks(rng, cuts, btype)))
            n = 1
        elif rep == "items":
            n = rng.randint(1, 4)
            items = [("NAME", nm), ("DATA_TYPE", Raw(dtype)),
                     ("START_BYTE", pos + 1), ("BYTES", n * w), ("ITEMS", n),
                     ("ITEM_BYTES", w)]
            blocks.append(Obj("COLUMN", items + bit_blocks(rng, cuts, btype)))
            mon.saw("col_items")
        else:
            n = rng.randint(1, 3)
            # an ordinary column goes before the container
            col = [[rng.randbytes(1) for _ in range(rows)]]
            blocks.append(Obj("COLUMN", [
                ("NAME", f"PLAIN_{c}"), ("DATA_TYPE", Raw("UNSIGNED_INTEGER")),
                ("START_BYTE", pos + 1), ("BYTES", 1)]))
            for r in range(rows):
                data[r] += col[0][r]
            expect.append((f"PLAIN_{c}", [b[0] for b in col[0]], "uint8"))
            pos += 1
            blocks.append(Obj("CONTAINER", [
                ("NAME", f"CONT_{c}"), ("START_BYTE", pos + 1), ("BYTES", w),
                ("REPETITIONS", n), Obj("COLUMN", [
                    ("NAME", nm), ("DATA_TYPE", Raw(dtype)),
                    ("START_BYTE", 1), ("BYTES", w)]
                    + bit_blocks(rng, cuts, btype))]))
            mon.saw("container")
        for k in range(n):
            vals = []
            for r in range(rows):
                raw = rng.choice([rng.randbytes(w), rng.randbytes(w),
                                  bytes(w), b"\xff" * w,
                                  rng.randint(0, 9).to_bytes(w, "big"),
                                  rng.randint(0, 9).to_bytes(w, "little")])
                data[r] += raw
                vals.append(extract(raw, order, cuts))
            name = nm if n == 1 else f"{nm}_{k}"
            expect.append((name, vals, f"{dtype}[{btype}] {w} bytes {cuts}"))
        pos += n * w
        if any(b[2] for b in cuts):
            mon.saw("bit_items")
        if any(b[3] not in (None, b[1]) for b in cuts):
            mon.saw("bit_item_offset")
        if order == "<" and w not in (1, 2, 4, 8):
            mon.saw("lsb_odd")
        cols.append((order, w, declared, rep,
                     "big" if any(b[1] > 8 for b in cuts) else "small"))
        if rng.random() < 0.5:
            signed = rng.random() < 0.5
            iw = rng.choice([1, 2, 4])
            vs = [rand_int(rng, iw, signed) for _ in range(rows)]
            o2 = rng.choice("<>")
            t = ("MSB" if o2 == ">" else "LSB") + (
                "_INTEGER" if signed else "_UNSIGNED_INTEGER")
            blocks.append(Obj("COLUMN", [
                ("NAME", f"VALUE_{c}"), ("DATA_TYPE", Raw(t)),
                ("START_BYTE", pos + 1), ("BYTES", iw)]))
            for r in range(rows):
                data[r] += int_bytes(vs[r], iw, o2, signed)
            expect.append((f"VALUE_{c}", vs, t))
            pos += iw
    block = Obj("TABLE", [
        ("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", rows),
        ("COLUMNS", len(blocks)), ("ROW_BYTES", pos)] + blocks)
    obj = DataObj("TABLE", block, b"".join(bytes(d) for d in data), ext="TAB")
    path, info = build_product(rng, mon.tmp, [obj])
    desc = {"rows": rows, "columns": [(n, d) for n, _, d in expect]}
    mon.describe(desc)
    df = pdr.read(path)["TABLE"]
    mon.check(hasattr(df, "columns"), lambda: f"not a table: {df!r:.300} {desc}")
    mon.check(list(df.columns) == [e[0] for e in expect],
              lambda: f"columns {list(df.columns)} != "
                      f"{[e[0] for e in expect]}", "columns")
    mon.check(len(df) == rows, lambda: f"{len(df)} rows != {rows}")
    for name, vals, d in expect:
        got = list(df[name])
        for r in range(rows):
            g = got[r]
            if isinstance(vals[r], list):
                ok = isinstance(g, (list, tuple)) and list(g) == vals[r]
                mon.saw("bits_compared", sum(map(len, vals[r])))
            else:
                ok = g == vals[r]
            mon.check(ok, lambda: f"{name} ({d}) row {r}: got {got[r]!r}, "
                                  f"expected {vals[r]!r}", "bits")
        mon.saw("bit_columns_compared" if isinstance(vals[0], list)
                else "neighbours_compared")
    for c in cols:
        mon.sig(*c)
