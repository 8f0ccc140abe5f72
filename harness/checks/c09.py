"""C09: every statement of a PVL label is in the metadata, as written"""
import random
import string

from multidict import MultiDict

import pdr
from pdr.parselabel.pds3 import parse_pvl
from pds3w import IDENTIFIERS  # noqa: F401

PROP = "C09"
CASES = {"quick": 1200, "thorough": 16000}
RULE = (
    "case = one generated PVL label (any nesting of OBJECT / GROUP / "
    "BEGIN_OBJECT / BEGIN_GROUP blocks, repeated names, comments, blank "
    "lines, continuation lines, layouts, line endings) with values of every "
    "PDS3 kind written in every spelling; oracle: the generator's own tree. "
    "Every key, value, type, order and nesting is compared, through "
    "pdr.read().metadata and parse_pvl. A behaviour is (value kind, spelling, "
    "how laid out)"
)
REQUIRED = ("values_compared", "blocks_compared", "multiline_text",
            "quantity_exp_plus", "sequence", "set", "based", "comment",
            "end_keyword", "underscored", "fieldcounts", "short_key",
            "text_next_line", "after_end")

WORDS = ["spectrum", "Image", "of", "THE", "target", "a", "crater", "at",
         "45 degrees", "it's", "<unknown>", "(see note)", "{set}", "50%",
         "R&D", "#5", "x,y", "1.5", "^up", "don't", "end", "OBJECT", "I/F",
         "semi;colon", "e.g.", "GROUP", "N/A", "NULL",
         # backslashes (but not those of "format effectors" such as \\n)
         "C:\\data", "\\users\\x1", "\\", "\\bin\\101", "a\\'b",
         "DATA/*.IMG", "/* no remark */"]
UNITS = ["KM", "km", "DEGREES", "M/S", "km/s", "MILLISECONDS", "deg", "PIXEL",
         "W*M**-2*SR**-1", "BYTES", "RECORDS", "LOCALDAY/24", "mm", "s"]
SYMBOLS = ["FIXED_LENGTH", "IMAGE", "MSB_UNSIGNED_INTEGER", "N/A", "NULL",
           "UNK", "TRUE", "FALSE", "MARS", "VOYAGER-1", "DATA.IMG", "A",
           "MRO:CTX", "PDS3", "Galileo", "camelCase", "X2", "BAND_SEQUENTIAL"]


def text(rng):
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(0, 7)))


def date(rng):
    y, m, d = rng.randint(1965, 2030), rng.randint(1, 12), rng.randint(1, 28)
    t = f"{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:" \
        f"{rng.randint(0, 59):02}"
    return rng.choice([
        f"{y}-{m:02}-{d:02}", f"{y}-{m:02}-{d:02}T{t}",
        f"{y}-{m:02}-{d:02}T{t}.{rng.randint(0, 999):03}",
        f"{y}-{m:02}-{d:02}T{t}Z", f"{y}-{rng.randint(1, 365):03}T{t}",
        f"{y}-{rng.randint(100, 365)}", t])


def number(rng):
    """(spelling, value, kind)"""
    k = rng.choice(["int", "int", "big", "plus", "real", "exp", "exp",
                    "dot", "lead", "zeros"])
    if k == "zeros":
        v = rng.randint(0, 999)
        g = rng.choice(["", "", "-", "+"])
        return f"{g}{v:0{rng.randint(2, 6)}}", -v if g == "-" else v, k
    if k == "int":
        v = rng.randint(-1000, 1000)
        return str(v), v, k
    if k == "big":
        v = rng.randint(-10 ** 17, 10 ** 17)
        return str(v), v, k
    if k == "plus":
        v = rng.randint(0, 10 ** 5)
        return f"+{v}", v, k
    if k == "real":
        s = f"{rng.uniform(-1e5, 1e5):.{rng.randint(1, 9)}f}"
        return s, float(s), k
    if k == "dot":
        v = rng.randint(-999, 999)
        return f"{v}.", float(v), k
    if k == "lead":
        s = f"{rng.choice(['', '-'])}.{rng.randint(0, 9999)}"
        return s, float(s), k
    m = rng.choice([f"{rng.uniform(-10, 10):.{rng.randint(1, 7)}f}",
                    str(rng.randint(-9, 9))])
    e = rng.choice([f"+{rng.randint(0, 20):02}", f"-{rng.randint(1, 20):02}",
                    str(rng.randint(0, 20)), f"-{rng.randint(1, 9)}"])
    s = m + rng.choice("eE") + e
    return s, float(s), "exp" + ("+" if "+" in e else "")


def based(rng):
    b = rng.choice([2, 8, 16, 16])
    v = rng.randint(0, 2 ** rng.choice([4, 16, 32]) - 1)
    s = {2: f"{v:b}", 8: f"{v:o}", 16: f"{v:X}"}[b]
    if b == 16 and rng.random() < 0.3:
        s = s.lower()
    return f"{b}#{s}#", v


def quantity(rng, mon):
    s, v, k = number(rng)
    u = rng.choice(UNITS)
    if k == "exp+":
        mon.saw("quantity_exp_plus")
    return f"{s}{rng.choice([' ', ' ', ''])}<{u}>", \
        {"value": v, "units": u}, k


def element(rng, mon, depth):
    """(spelling, value) of an element of a sequence"""
    k = rng.choice(["number", "text", "symbol", "date", "quantity", "based",
                    "single", "sequence", "set"][:9 if depth < 2 else 7])
    if k == "number":
        return number(rng)[:2]
    if k == "text":
        t = text(rng)
        return f'"{t}"', t
    if k == "symbol":
        s = rng.choice(SYMBOLS)
        return s, s
    if k == "date":
        d = date(rng)
        return d, d
    if k == "quantity":
        return quantity(rng, mon)[:2]
    if k == "based":
        return based(rng)
    if k == "single":
        t = rng.choice(["abc", "A, B", "(x)"])
        return f"'{t}'", t
    mon.saw("nested_any")
    if k == "set":
        xs = []
        while len(xs) < 2:
            x = element(rng, mon, 2)
            if not isinstance(x[1], dict):
                xs.append(x)
        return "{" + ", ".join(a for a, _ in xs) + "}", {b for _, b in xs}
    xs = [element(rng, mon, depth + 1) for _ in range(rng.randint(2, 3))]
    return "(" + ", ".join(a for a, _ in xs) + ")", tuple(b for _, b in xs)


def sequence(rng, mon):
    """(parts, values, kind)"""
    kind = rng.choice(["num", "num", "text", "symbol", "date", "quantity",
                       "based", "mixed", "2d", "file", "any", "any"])
    n = rng.randint(2, 6)
    if kind == "num":
        xs = [number(rng)[:2] for _ in range(n)]
    elif kind == "text":
        ts = [text(rng) for _ in range(n)]
        xs = [(f'"{t}"', t) for t in ts]
    elif kind == "symbol":
        ss = [rng.choice(SYMBOLS) for _ in range(n)]
        if not any(c.isalpha() for s in ss for c in s):
            ss[0] = "MARS"
        xs = [(s, s) for s in ss]
    elif kind == "date":
        ds = [f"{rng.randint(1970, 2020)}-{rng.randint(1, 12):02}-"
              f"{rng.randint(10, 28)}" for _ in range(n)]
        xs = [(d, d) for d in ds]
    elif kind == "quantity":
        xs = [quantity(rng, mon)[:2] for _ in range(n)]
    elif kind == "based":
        xs = [based(rng) for _ in range(n)]
    elif kind == "mixed":
        xs = []
        for i in range(n):
            if i % 2:
                xs.append(number(rng)[:2])
            else:
                t = "".join(rng.choice(string.ascii_uppercase)
                            for _ in range(4))
                xs.append((f'"{t}"', t))
    elif kind == "any":
        xs = [element(rng, mon, 0) for _ in range(n)]
    elif kind == "file":
        xs = [('"DATA.TAB"', "DATA.TAB"), ("501 <BYTES>",
                                           {"value": 501, "units": "BYTES"})]
    else:
        xs = []
        for _ in range(n):
            inner = [number(rng)[:2] for _ in range(rng.choice([2, 3]))]
            xs.append(("(" + ", ".join(a for a, _ in inner) + ")",
                       tuple(b for _, b in inner)))
    return [a for a, _ in xs], [b for _, b in xs], kind


def value(rng, mon):
    """(list of physical lines, expected value, signature)"""
    k = rng.choice(["number", "number", "text", "text", "longtext", "symbol",
                    "date", "quantity", "quantity", "based", "seq", "seq",
                    "set", "single", "underscored"])
    if k == "number":
        s, v, kind = number(rng)
        return [s], v, "number:" + kind
    if k == "text":
        t = text(rng)
        return [f'"{t}"'], t, "text" + (":empty" if not t else "")
    if k == "longtext":
        lines = []
        for _ in range(rng.randint(2, 4)):
            ln = text(rng) or "filler words"
            if ln.split(" ")[0].startswith("END"):
                ln = "and " + ln
            if rng.random() < 0.2 and lines:
                ln = "so that x = " + ln
            lines.append(ln)
        mon.saw("multiline_text")
        exp = " ".join(lines)
        lines[0] = '"' + lines[0]
        lines[-1] += '"'
        sp = " " * rng.choice([0, 2, 33])
        if "=" in lines[0]:
            raise AssertionError
        out = [lines[0]] + [sp + ln for ln in lines[1:]]
        kind = "sameline"
        if rng.random() < 0.3:
            out.insert(0, "")
            mon.saw("text_next_line")
            kind = "nextline"
        return out, exp, f"longtext:{kind}:{len(lines)}"
    if k == "symbol":
        s = rng.choice(SYMBOLS)
        return [s], s, "symbol"
    if k == "date":
        d = date(rng)
        return [d], d, "date"
    if k == "quantity":
        s, v, kind = quantity(rng, mon)
        return [s], v, "quantity:" + kind
    if k == "based":
        s, v = based(rng)
        mon.saw("based")
        return [s], v, "based:" + s.split("#")[0]
    if k == "single":
        s = rng.choice(["abc", "ABC DEF", "X-Y"])
        return [f"'{s}'"], s, "single-quoted"
    if k == "underscored":
        s = f"{rng.randint(1, 9999)}_{rng.randint(0, 9999):04}"
        mon.saw("underscored")
        return [s], s, "underscored"
    parts, vals, kind = sequence(rng, mon)
    if k == "set" and kind in ("num", "text", "symbol", "based"):
        if kind == "text":
            parts, vals = parts[:2], vals[:2]
        mon.saw("set")
        lines = layout(rng, parts, "{", "}")
        return lines, set(vals), f"set:{kind}:{min(len(lines), 2)}"
    mon.saw("sequence")
    lines = layout(rng, parts, "(", ")")
    return lines, tuple(vals), f"seq:{kind}:{min(len(lines), 2)}"


def layout(rng, parts, a, b):
    if rng.random() < 0.2:
        a, b = a + " " * rng.randint(0, 3), " " * rng.randint(0, 3) + b
    if rng.random() < 0.6:
        return [a + rng.choice([", ", ",", " , "]).join(parts) + b]
    lines, cur = [], a
    for i, p in enumerate(parts):
        cur += p + ("," if i < len(parts) - 1 else b)
        if rng.random() < 0.5 and i < len(parts) - 1:
            lines.append(cur)
            cur = " " * 12
        elif i < len(parts) - 1:
            cur += " "
    lines.append(cur)
    if rng.random() < 0.2:
        lines.insert(0, "")
    return lines


class Writer:
    def __init__(self, rng, mon):
        self.rng, self.mon, self.out = rng, mon, []
        self.n = 0
        self.params = []
        self.style = rng.choice(["padded", "compact", "tight"])
        self.short = False

    def key(self):
        rng = self.rng
        self.n += 1
        r = rng.random()
        if r < 0.06:
            self.mon.saw("end_keyword")
            return rng.choice(["END_TIMESTAMP", "ENDIAN_FLAG", "ENDING_ORBIT"])
        if r < 0.12:
            return rng.choice(["REPEATED_KEY", "DESCRIPTION", "COMMENT_TEXT"])
        if r < 0.2:
            return f"MRO:LOCAL_KEY_{self.n}"
        return rng.choice(["PARAMETER", "QUALITY", "INSTRUMENT_STATE",
                           "TEMPERATURE", "ORBIT_NO"]) + f"_{self.n}"

    def statement(self, indent):
        rng = self.rng
        k = self.key()
        lines, v, sig = value(rng, self.mon)
        sp = " " * indent
        if self.style == "padded":
            head = f"{sp}{k:<30} = "
        elif self.style == "compact":
            head = f"{sp}{k} = "
        else:
            head = f"{sp}{k}="
        first = head + lines[0]
        if len(lines) == 1 and not sig.startswith(("text", "longtext")) \
                and rng.random() < 0.15:
            first += rng.choice([
                "  /* a remark, with = and 'quotes' */",
                '  /* a "remark" of 5" */'])
            self.mon.saw("comment")
        self.out.append(first.rstrip() if len(lines) > 1 else first)
        self.out += lines[1:]
        self.mon.sig(sig, self.style)
        self.params.append(k)
        return k, v

    def noise(self):
        r = self.rng.random()
        if r < 0.06:
            self.out.append("")
        elif r < 0.12:
            self.out.append("/* " + self.rng.choice(
                ["comment", "OBJECT = FAKE", "---- section ----",
                 "KEYWORD = 5"]) + " */")
            self.mon.saw("comment")

    def block(self, depth, indent, n):
        rng, tree = self.rng, []
        for _ in range(n):
            self.noise()
            if depth < 4 and rng.random() < 0.2:
                kw = rng.choice(["OBJECT", "GROUP", "BEGIN_OBJECT",
                                 "BEGIN_GROUP"])
                end = kw.replace("BEGIN_", "END_") if "BEGIN" in kw \
                    else "END_" + kw
                name = rng.choice(["IMAGE_MAP", "COLUMN", "STATE_PARMS",
                                   f"BLOCK_{self.n}"])
                self.out.append(f"{' ' * indent}{kw:<12} = {name}")
                at = len(self.params)
                sub = self.block(depth + 1, indent + rng.choice([0, 2, 4]),
                                 rng.randint(0, 6))
                if rng.random() < 0.85 or end == "END_GROUP":
                    self.out.append(f"{' ' * indent}{end:<12} = {name}")
                else:
                    self.out.append(f"{' ' * indent}{end}")
                self.params.append(name)
                tree.append((name, sub))
                assert at <= len(self.params)
            else:
                tree.append(self.statement(indent))
        return tree


def compare(got, tree, mon, path=""):
    mon.check(isinstance(got, MultiDict), lambda: f"{path}: not a block")
    items = list(got.items())
    mon.check([k for k, _ in items] == [k for k, _ in tree],
              lambda: f"{path}: keys {[k for k, _ in items]} != written "
                      f"{[k for k, _ in tree]}", "structure")
    for (k, g), (_, e) in zip(items, tree):
        if isinstance(e, list):
            mon.saw("blocks_compared")
            compare(g, e, mon, f"{path}/{k}")
        else:
            mon.check(same(g, e), lambda: f"{path}/{k}: got {g!r}, written "
                                          f"{e!r}", "value")
            mon.saw("values_compared")


def same(g, e):
    if type(g) is not type(e):
        return False
    if isinstance(e, dict):
        return set(g) == set(e) and all(same(g[k], e[k]) for k in e)
    if isinstance(e, tuple):
        return len(g) == len(e) and all(same(a, b) for a, b in zip(g, e))
    if isinstance(e, set):
        return g == e and {type(x) for x in g} == {type(x) for x in e}
    return g == e


def run_case(rng: random.Random, mon, idx):
    w = Writer(rng, mon)
    lines0 = ["PDS_VERSION_ID                 = PDS3"]
    tree = [("PDS_VERSION_ID", "PDS3")]
    w.out = lines0
    w.params.append("PDS_VERSION_ID")
    if rng.random() < 0.02:
        # recorded finding: keyword too short for the parser's heuristic
        mon.saw("short_key")
        w.out.append("UNIT = metres")
        tree.append(("UNIT", "metres"))
        short = True
        w.params.append("UNIT")
    else:
        short = False
    tree += w.block(0, 0, rng.randint(1, 25))
    eol = rng.choice(["\r\n", "\n"])
    body = eol.join(w.out) + eol
    tail = rng.choice(["END", "END", "END", None])
    after = ""
    if tail:
        after = "END" + eol
        if rng.random() < 0.4:
            mon.saw("after_end")
            after += rng.choice(
                ["JUNK_AFTER_END = 5" + eol, " " * 40, "OBJECT = LEFTOVER"
                 + eol + "PARAMETER_X = 1" + eol])
    p = mon.tmp / f"label{rng.choice(['.lbl', '.LBL', '.Lbl'])}"
    p.write_bytes((body + after).encode("ascii"))
    mon.describe({"label": (body + after)[:800]})
    meta = pdr.read(p).metadata
    try:
        compare(meta, tree, mon)
        counts = {}
        for k in w.params:
            counts[k] = counts.get(k, 0) + 1
        mon.check(dict(meta.fieldcounts) == counts,
                  lambda: f"fieldcounts {dict(meta.fieldcounts)} != {counts}",
                  "counts")
        mon.saw("fieldcounts")
        again, params = parse_pvl(body + ("END" + eol if tail else ""))
        compare(again, tree, mon)
        mon.check(sorted(params) == sorted(w.params),
                  lambda: f"parameters {params} != {w.params}", "counts")
    except Exception as v:
        if short and hasattr(v, "mech"):
            v.mech = "short-keyword"
        raise
