"""
Helpers to write products of specific missions: text and binary tables whose
labels are wrong in the ways the special cases are about.
"""
from __future__ import annotations

import numpy as np

from enc import PDS3_TYPES, encode_many, np_expected, same_array
from pds3w import Obj, Qty, Raw, finish_label, render, write_detached

SCENARIOS = []

WORDS = ["Alpha", "bravo", "Zulu_9", "x-ray", "MOON", "N2K", "a.b", "Kilo"]


def scenario(*rules):
    """register a scenario; rules: names of the special cases it is about"""
    def deco(f):
        SCENARIOS.append((f.__name__.strip("_"), rules, f))
        return f
    return deco


PLAIN = {
    "DATA_SET_ID": "XYZ-Z-SYNTH-3-V1.0", "INSTRUMENT_ID": "SYNTHCAM",
    "INSTRUMENT_NAME": "SYNTHETIC CAMERA", "INSTRUMENT_HOST_NAME": "SYNTHETIC",
    "SPACECRAFT_NAME": "SYNTHETIC", "PRODUCT_ID": "SYNTH_000001",
    "PRODUCT_TYPE": "SYNTH", "DATA_SET_NAME": "SYNTHETIC DATA",
    "NOTE": "a note",
}


def ids_(rng, **need):
    """identifying keywords: those needed, and any others"""
    out = {k: v for k, v in PLAIN.items() if rng.random() < 0.5}
    out.update(need)
    out = list(out.items())
    rng.shuffle(out)
    return out


def decoy(rng, n=None):
    """bytes of no meaning"""
    return rng.randbytes(rng.randint(1, 90) if n is None else n)


def junk_lines(rng, n, sep="\r\n", width=None):
    """n lines of text"""
    out = []
    for _ in range(n):
        w = width if width is not None else rng.randint(3, 40)
        t = "".join(rng.choice("abcdefgh XYZ-.#") for _ in range(w - 1))
        out.append("H" + t + sep)
    return "".join(out)


def int_text(rng, width):
    n = rng.randint(1, max(1, min(width - 1, 9)))
    v = rng.randint(0, 10 ** n - 1)
    if rng.random() < .4 and len(str(v)) < width:
        v = -v
    return str(v), v


def real_text(rng, width):
    while True:
        if width >= 11 and rng.random() < .4:
            t = f"{rng.uniform(-9, 9):.3E}"
        else:
            t = f"{rng.uniform(-99, 99):.{rng.randint(1, 4)}f}"
        if len(t) <= width:
            return t, float(t)


class Txt:
    """
    a table of text cells that contain no blanks, in fixed-width columns

    sep: what stands between columns; kinds: of the columns
    """
    def __init__(self, rng, ncol=None, rows=None, kinds=None, sep=" ",
                 names=None, eol="\r\n", widths=None, prefix="F", items=None,
                 lead=0):
        ncol = (len(names) if names else len(kinds) if kinds
                else ncol or rng.randint(2, 6))
        self.rows = rows or rng.choice([1, 2, 3, 5, 9])
        self.sep, self.eol = sep, eol
        self.names = list(names or [f"{prefix}{i}_COL" for i in range(ncol)])
        if kinds is None:
            kinds = [rng.choice(["int", "real", "real", "char"])
                     for _ in range(ncol)]
            if not {"int", "real"} & set(kinds):
                kinds[0] = "real"
        self.kinds = kinds
        self.widths = list(widths or [
            rng.randint(3, 9) if k == "int" else rng.randint(7, 13)
            if k == "real" else rng.randint(4, 9) for k in kinds])
        self.items = items or [1] * ncol
        self.starts, pos = [], lead
        for w, n in zip(self.widths, self.items):
            self.starts.append(pos)
            pos += (w + len(sep)) * n
        self.width = pos - len(sep)
        self.lead = lead
        self.texts, self.values = [], []
        for _ in range(self.rows):
            t, v = [], []
            for k, w, n in zip(kinds, self.widths, self.items):
                for _ in range(n):
                    a, b = self.cell(rng, k, w)
                    t.append(a)
                    v.append(b)
            self.texts.append(t)
            self.values.append(v)

    @classmethod
    def fit(cls, rng, total, ncol=None, kinds=None, fixed=None, adjust=None,
            sep=" ", eol="\r\n", **kw):
        """
        a table whose rows are exactly total bytes long; fixed: {index: width}
        of columns; the (text) column at index adjust takes up the rest
        """
        while True:
            k = list(kinds or [rng.choice(["int", "real", "real", "char"])
                               for _ in range(ncol or rng.randint(3, 6))])
            a = len(k) - 1 if adjust is None else adjust
            if kinds is None:
                k[a] = "char"
            ws = [(fixed or {}).get(i) or (
                rng.randint(3, 9) if x == "int" else rng.randint(7, 11)
                if x == "real" else rng.randint(4, 9))
                for i, x in enumerate(k)]
            ws[a] = 0
            ws[a] = total - len(eol) - sum(ws) - len(sep) * (len(k) - 1)
            if ws[a] >= 3:
                t = cls(rng, kinds=k, widths=ws, sep=sep, eol=eol, **kw)
                assert t.row_bytes == total
                return t

    @staticmethod
    def cell(rng, k, w):
        if k == "int":
            return int_text(rng, w)
        if k == "real":
            return real_text(rng, w)
        if w >= 12 and rng.random() < .6:
            # all of it
            t = "".join(rng.choice("ABCdefXYZ.#") for _ in range(w))
            return t, t
        t = rng.choice(WORDS)[:w]
        return t, t

    @property
    def row_bytes(self):
        return self.width + len(self.eol)

    @property
    def kinds_(self):
        return [k for k, n in zip(self.kinds, self.items) for _ in range(n)]

    def lines(self):
        ws = [w for w, n in zip(self.widths, self.items) for _ in range(n)]
        return [" " * self.lead + self.sep.join(
            x.rjust(w) if k != "char" else x.ljust(w)
            for x, w, k in zip(t, ws, self.kinds_)) for t in self.texts]

    def loose(self, sep, eol="\r\n"):
        """without any fixed widths"""
        return "".join(sep.join(t) + eol for t in self.texts)

    def text(self, eol=None):
        eol = self.eol if eol is None else eol
        return "".join(s + eol for s in self.lines())

    def data(self, eol=None):
        return self.text(eol).encode("ascii")

    def columns(self, over=None, kind="COLUMN", drop=()):
        """
        definitions of the columns; over: {index: {keyword: value or None}}
        """
        out = []
        dt = {"int": "ASCII_INTEGER", "real": "ASCII_REAL",
              "char": "CHARACTER"}
        for i, (n, k, w, s, m) in enumerate(zip(
                self.names, self.kinds, self.widths, self.starts,
                self.items)):
            total = w * m + len(self.sep) * (m - 1)
            it = {"NAME": n, "DATA_TYPE": Raw(dt[k])}
            if kind == "COLUMN":
                it["START_BYTE"] = s + 1
            it["BYTES"] = total
            if m > 1:
                it |= {"ITEMS": m, "ITEM_BYTES": w,
                       "ITEM_OFFSET": w + len(self.sep)}
            for a, b in ((over or {}).get(i, {})).items():
                it[a] = b
            out.append(Obj(kind, [(a, b) for a, b in it.items()
                                  if b is not None and a not in drop]))
        return out

    def block(self, name="TABLE", over=None, columns=None, kind="COLUMN",
              extra=(), **top):
        """label block; top overrides keywords (None removes them)"""
        it = {"INTERCHANGE_FORMAT": Raw("ASCII"), "ROWS": self.rows,
              "ROW_BYTES": self.row_bytes,
              ("COLUMNS" if kind == "COLUMN" else "FIELDS"):
                  len(self.names)}
        it.update(top)
        cols = self.columns(over, kind) if columns is None else columns
        return Obj(name, [(a, b) for a, b in it.items() if b is not None]
                   + list(extra) + cols)

    def fmt(self, over=None, kind="COLUMN"):
        """as a format file"""
        return finish_label(render(self.columns(over, kind)) + ["END"])

    def out_names(self):
        out = []
        for n, m in zip(self.names, self.items):
            out += [n] if m == 1 else [f"{n}_{i}" for i in range(m)]
        return out

    def check(self, names=None, rows=None):
        """verifier for the whole table"""
        return frame(names or self.out_names(), list(zip(*self.values)),
                     self.kinds_)


def near(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-9 * max(abs(float(b)), 1e-300)


def frame(names, columns, kinds=None):
    """verifier: a DataFrame of exactly these names and columns"""
    def verify(got, mon, where):
        import pandas as pd
        mon.check(isinstance(got, pd.DataFrame),
                  lambda: f"{where}: not a table but {got!r:.200}", "table")
        have = [str(c).strip() for c in got.columns]
        mon.check(have == [str(n) for n in names], lambda: (
            f"{where}: columns {have}, not {list(names)}"), "names")
        n = len(columns[0]) if len(columns) else 0
        mon.check(len(got) == n, lambda: (
            f"{where}: {len(got)} rows, not {n}: {got.head().to_dict()}"),
            "rows")
        for i, exp in enumerate(columns):
            col = got.iloc[:, i]
            mon.check(getattr(col.dtype, "isnative", True), lambda: (
                f"{where}: column {names[i]} in foreign byte order "
                f"({col.dtype.str})"), "order")
            for r, (g, e) in enumerate(zip(list(col), exp)):
                if isinstance(e, str):
                    ok = isinstance(g, (str, bytes)) and (
                        g.decode("latin-1") if isinstance(g, bytes)
                        else g).strip() == e
                elif isinstance(e, bytes):
                    ok = bytes(g) == e
                elif isinstance(g, (str, bytes)) or g is None:
                    ok = False
                else:
                    ok = near(g, e) if e == e else g != g
                mon.check(ok, lambda: (
                    f"{where}: column {names[i]} row {r}: {g!r}, not {e!r}"),
                    "cell")
            mon.saw("columns_compared")
        mon.saw("tables_compared")
        mon.saw("cells_compared", n * len(columns))
    return verify


def array(exp, dtype=True, size=None):
    """verifier: exactly this array"""
    exp = np.asarray(exp)

    def verify(got, mon, where):
        if dtype:
            d = same_array(got, exp)
            mon.check(d is None, lambda: f"{where}: {d}", "array")
        else:
            mon.check(isinstance(got, np.ndarray) and got.shape == exp.shape
                      and bool(((got == exp) | ((got != got) & (exp != exp))
                                ).all()),
                      lambda: f"{where}: {got!r:.300}, not {exp!r:.300}",
                      "array")
        mon.saw("arrays_compared")
        mon.saw("cells_compared", size or exp.size)
    return verify


def text(exp):
    def verify(got, mon, where):
        mon.check(isinstance(got, str) and got.replace("\r\n", "\n").strip()
                  == exp.replace("\r\n", "\n").strip(), lambda: (
                      f"{where}: {got!r:.200}, not {exp!r:.200}"), "text")
        mon.saw("texts_compared")
    return verify


def nothing():
    """verifier: known not to be readable; no data, and no error"""
    def verify(got, mon, where):
        mon.check(got is None or isinstance(got, (str, dict)) or
                  "MultiDict" in type(got).__name__, lambda: (
                      f"{where}: should not be read, but is {got!r:.200}"),
                  "trivial")
        mon.saw("unsupported_left_alone")
    return verify


class Bin:
    """
    a binary table

    cols: list of (name, type, width, items), placed one after another from
    byte `lead` with `gap` bytes between
    """
    def __init__(self, rng, cols=None, rows=None, gaps=None, lead=0, tail=0,
                 types=None):
        self.rows = rows or rng.choice([1, 2, 3, 5, 9])
        if cols is None:
            cols = []
            for i in range(rng.randint(2, 5)):
                t = rng.choice(types or ["MSB_INTEGER", "MSB_UNSIGNED_INTEGER",
                                         "IEEE_REAL", "CHARACTER",
                                         "LSB_INTEGER"])
                w = (rng.randint(3, 8) if t == "CHARACTER"
                     else rng.choice(PDS3_TYPES[t][2]))
                cols.append((f"B{i}_COL", t, w, 1))
        self.cols = cols
        self.gaps = gaps or [0] * len(cols)
        self.starts, pos = [], lead
        for (n, t, w, m), g in zip(cols, self.gaps):
            self.starts.append(pos)
            pos += w * m + g
        self.row_bytes = pos + tail
        self.raw = [bytearray(rng.randbytes(self.row_bytes))
                    for _ in range(self.rows)]
        self.values = []
        for (n, t, w, m), s in zip(cols, self.starts):
            n_ = self.rows * m
            if t == "CHARACTER":
                vals = [rng.choice(WORDS)[:w] for _ in range(n_)]
                raw = b"".join(v.ljust(w).encode() for v in vals)
            elif t == "RAW":
                vals = [rng.randbytes(w) for _ in range(n_)]
                raw = b"".join(vals)
            else:
                raw, vals = encode_many(rng, t, w, n_)
                vals = np_expected(t, w, vals).tolist()
            for r in range(self.rows):
                self.raw[r][s:s + w * m] = raw[r * w * m:(r + 1) * w * m]
            for i in range(m):
                self.values.append(vals[i::m])

    def data(self):
        return b"".join(self.raw)

    def columns(self, over=None):
        out = []
        for i, ((n, t, w, m), s) in enumerate(zip(self.cols, self.starts)):
            it = {"NAME": n, "DATA_TYPE": Raw(t), "START_BYTE": s + 1,
                  "BYTES": w * m}
            if m > 1:
                it |= {"ITEMS": m, "ITEM_BYTES": w}
            it.update((over or {}).get(i, {}))
            out.append(Obj("COLUMN", [(a, b) for a, b in it.items()
                                      if b is not None]))
        return out

    def block(self, name="TABLE", over=None, columns=None, extra=(), **top):
        it = {"INTERCHANGE_FORMAT": Raw("BINARY"), "ROWS": self.rows,
              "ROW_BYTES": self.row_bytes, "COLUMNS": len(self.cols)}
        it.update(top)
        cols = self.columns(over) if columns is None else columns
        return Obj(name, [(a, b) for a, b in it.items() if b is not None]
                   + list(extra) + cols)

    def fmt(self, over=None):
        return finish_label(render(self.columns(over)) + ["END"])

    def out_names(self):
        out = []
        for n, t, w, m in self.cols:
            out += [n] if m == 1 else [f"{n}_{i}" for i in range(m)]
        return out

    def check(self, names=None):
        return frame(names or self.out_names(), self.values)


class Img:
    """a plain image of one band"""
    def __init__(self, rng, type_=None, width=None, dims=None, bands=1):
        t = type_ or rng.choice(["MSB_INTEGER", "LSB_INTEGER", "IEEE_REAL",
                                 "MSB_UNSIGNED_INTEGER", "PC_REAL"])
        w = width or rng.choice(PDS3_TYPES[t][2])
        self.lines, self.samples = dims or (rng.randint(2, 9),
                                            rng.randint(2, 9))
        shape = ((bands,) if bands > 1 else ()) + (self.lines, self.samples)
        self.raw, vals = encode_many(rng, t, w, int(np.prod(shape)))
        self.exp = np_expected(t, w, vals).reshape(shape)
        self.items = {"LINES": self.lines, "LINE_SAMPLES": self.samples,
                      "SAMPLE_TYPE": Raw(t), "SAMPLE_BITS": 8 * w}
        if bands > 1:
            self.items |= {"BANDS": bands,
                           "BAND_STORAGE_TYPE": Raw("BAND_SEQUENTIAL")}

    def data(self):
        return self.raw

    def block(self, name="IMAGE", **over):
        it = dict(self.items)
        it.update(over)
        return Obj(name, [(a, b) for a, b in it.items() if b is not None])

    def check(self):
        return array(self.exp)


def put(d, name, *parts):
    """write a file made of these parts; returns its name"""
    (d / name).write_bytes(b"".join(
        p if isinstance(p, bytes) else p.encode("ascii") for p in parts))
    return name


def label(rng, d, ids, items, stem="prod", name=None):
    """write a detached label"""
    head = [("PDS_VERSION_ID", Raw("PDS3"))]
    return write_detached(d, stem, head + list(ids) + list(items), name=name)
