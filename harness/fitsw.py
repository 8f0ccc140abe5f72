"""
Independent writer of FITS files (no astropy): headers, image HDUs, binary and
ASCII tables, with the physical values each should be read as.
"""
from __future__ import annotations

import gzip
import itertools
import math
import struct
from dataclasses import dataclass, field

from enc import float_bytes, int_bytes, numbered, rand_float, rand_int

BLOCK = 2880
WORDS = ["raw", "dark frame", "O'Brien", "N/A", "flat", "a / slash", "M=2",
         "1.5", "T", "exposed twice", "x" * 60]


def fval(v):
    """fixed-format value field"""
    if v is None:
        return ""
    if isinstance(v, bool):
        return f"{'T' if v else 'F':>20}"
    if isinstance(v, int):
        return f"{v:>20}"
    if isinstance(v, float):
        t = repr(v).upper()
        return f"{t:>20}"
    t = v.replace("'", "''")
    return f"'{t:<8}'"


def card(key, val=None, com="", commentary=False):
    if commentary:
        return f"{key:<8}{val:<72}"[:80]
    s = f"{key:<8}= {fval(val)}"
    if com:
        s += f" / {com}"
    assert len(s) <= 80, s
    return f"{s:<80}"


@dataclass
class HDU:
    kind: str                     # image | bintable | asciitable
    name: str | None
    cards: list                   # (key, value, comment) in order
    data: bytes
    exp: object                   # expectations; see gen_*
    header: list = field(default_factory=list)  # expected (key, value) pairs
    meta: dict = field(default_factory=dict)

    def encode(self):
        text = "".join(
            long_card(*c[1:]) if c[0] == "LONG" else
            f"{c[1]:<80}" if c[0] in ("BAD", "ODD", "BLANK") else
            card(*c) if len(c) == 3 else card(c[0], c[1], commentary=True)
            for c in self.cards) + f"{'END':<80}"
        h = text.encode("ascii")
        h += b" " * (-len(h) % BLOCK)
        fill = b" " if self.kind == "asciitable" else b"\0"
        return h, self.data + fill * (-len(self.data) % BLOCK)


def long_card(key, text):
    """CONTINUE convention"""
    parts = [text[i:i + 50] for i in range(0, len(text), 50)]
    out = ""
    for i, p in enumerate(parts):
        amp = "&" if i + 1 < len(parts) else ""
        head = f"{key:<8}= " if i == 0 else "CONTINUE  "
        out += f"{head}'{p}{amp}'".ljust(80)
    return out


# (text of the card, what can be made of its value)
BAD = [("FILENAME= some name", "some name"), ("SEEING  = 1.2.3", "1.2.3"),
       ("UT      = 12:30:00", "12:30:00"),
       ("BADQUOTE= 'never closed", "never closed"),
       ("CODES   = 1 2 3", "1 2 3"), ("MASKBITS= 0x1F", "0x1F"),
       ("PAIR    = [1,2]", "[1,2]"), ("CUTSHORT= 1E", "1E"),
       ("BELL    = 'a\x07b'", None)]
# other ways of writing values
ODD = [("D_EXP   = 1.5D3", 1500.), ("PLUS    = +5", 5), ("POINT   = .5", .5),
       ("ZEROS   = 007", 7), ("LONGINT = 12345678901234567890",
                              12345678901234567890),
       ("lower   = 3", 3), ("LEAD    = '  lead'", "  lead"),
       ("COMPLEX = (1.5, -2.0)", 1.5 - 2j), ("COMPLEX = (1, 2)", 1 + 2j)]
BLANK = ["", "         some text in a blank card", "          = 5"]


def extra_cards(rng):
    out, used = [], set()
    if rng.random() < 0.1:
        out.append(("HIERARCH", f" ESO DET CHIP {rng.choice('ABC')} = "
                                f"{rng.randint(0, 99)}"))
    if rng.random() < 0.1:
        out.append(("LONG", "LONGSTR", "".join(
            rng.choice("abc def") for _ in range(rng.randint(60, 180)))
            + "z"))
    if rng.random() < 0.05:
        out.append(("BAD", *rng.choice(BAD)))
    if rng.random() < 0.08:
        out.append(("ODD", *rng.choice(ODD)))
    if rng.random() < 0.08:
        out.append(("BLANK", rng.choice(BLANK)))
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        com = rng.choice(["", "", "a comment", "[m] unit", "it's = odd"])
        if r < 0.2:
            out.append((rng.choice(["COMMENT", "HISTORY"]),
                        rng.choice(WORDS)))
            continue
        key = rng.choice(["EXPTIME", "FILTER", "DATE-OBS", "GAIN_1", "MODE",
                          "NCOMB", "TEMP", "VALID", "OBSERVER", "X", "SLIT-W",
                          "INSTRUME", "TARGNAME"])
        if key in used:
            continue
        used.add(key)
        val = rng.choice([
            rng.randint(-10**9, 10**9), rng.random() < .5,
            rng.choice([0.5, -1.25, 1e-30, 3.0, 2.5e10, 1.0]),
            rng.choice(WORDS)[:40], "", None, 0])
        if isinstance(val, str) and com:
            val = val[:20]
        out.append((key, val, com))
    return out


def expected_header(cards):
    out = []
    for c in cards:
        if c[0] in ("BAD", "BLANK"):
            continue
        if c[0] == "ODD":
            out.append((c[1][:8].strip().upper(), c[2]))
            continue
        if c[0] == "HIERARCH":
            out.append((c[1].split(" = ")[0].strip(), int(c[1].split(" = ")[1])))
            continue
        if c[0] == "LONG":
            out.append((c[1], c[2]))
            continue
        if len(c) == 2:
            out.append((c[0], c[1].rstrip()))
            continue
        k, v, com = c
        if isinstance(v, str):
            v = v.rstrip()
        out.append((k, v))
        if com:
            out.append((k + "_comment", com))
    return out


def finish(rng, kind, name, cards, data, exp, primary=False, **meta):
    if name is not None:
        cards = cards + [("EXTNAME", name, rng.choice(["", "name"]))]
    cards = cards + extra_cards(rng)
    return HDU(kind, name, cards, data, exp, expected_header(cards), meta)


def gen_image(rng, name=None, primary=False, scale=None, small=False):
    """image HDU; exp = ('array', shape, values, kind, itemsize, exact)"""
    bitpix = rng.choice([8, 16, 32, 64, -32, -64])
    nax = rng.choice([1, 2, 2, 2, 3, 3, 4])
    if small:
        nax = rng.choice([2, 3])
    dims = [rng.randint(1, 7) for _ in range(nax)]      # NAXIS1 first
    shape = tuple(reversed(dims))
    n = math.prod(dims)
    w = abs(bitpix) // 8
    signed = bitpix != 8
    if bitpix > 0:
        raw = [rand_int(rng, w, signed) for _ in range(n)]
        blob = b"".join(int_bytes(v, w, ">", signed) for v in raw)
    else:
        raw = [rand_float(rng, w) for _ in range(n)]
        blob = b"".join(float_bytes(v, w, ">") for v in raw)
    cards = [("SIMPLE", True, "")] if primary else [("XTENSION", "IMAGE", "")]
    cards += [("BITPIX", bitpix, ""), ("NAXIS", nax, "")]
    cards += [(f"NAXIS{i + 1}", d, "") for i, d in enumerate(dims)]
    cards += [("EXTEND", True, "")] if primary else [
        ("PCOUNT", 0, ""), ("GCOUNT", 1, "")]
    scale = scale or rng.choice(["none"] * 4 + ["unsigned", "scaled"])
    vals, kind, size, exact = raw, ("u" if bitpix == 8 else
                                    "i" if bitpix > 0 else "f"), w, True
    if scale == "unsigned" and bitpix > 0:
        zero = -128 if bitpix == 8 else 2 ** (bitpix - 1)
        cards += [("BSCALE", 1, ""), ("BZERO", zero, "")]
        vals = [v + zero for v in raw]
        kind = "i" if bitpix == 8 else "u"
    elif scale == "scaled" and abs(bitpix) < 64:
        sc = rng.choice([0.5, 2.0, 0.25, 1.0])
        zo = rng.choice([0.0, 10.0, -100.5])
        cards += [("BSCALE", sc, ""), ("BZERO", zo, "")]
        vals = [v * sc + zo for v in raw]
        exact = (sc, zo) == (1.0, 0.0)
        vals = raw if exact else vals
    else:
        scale = "none"
    return finish(rng, "image", name, cards, blob,
                  ("array", shape, vals, kind, size, exact),
                  scale=scale, what=f"image{bitpix}x{nax}", dims=dims,
                  raw=raw)


def gen_tiled(rng, name=None):
    """an image that is stored in compressed tiles (as fpack does)"""
    while True:
        h = gen_image(rng, name)
        if h.cards[1][1] != 64:
            break
    dims, w = h.meta["dims"], abs(h.cards[1][1]) // 8
    cmp = rng.choice(["GZIP_1", "GZIP_2"])
    if rng.random() < .4:
        tile = [dims[0]] + [1] * (len(dims) - 1)
    else:
        tile = [rng.randint(1, d) for d in dims]
    strides = [math.prod(dims[:i]) for i in range(len(dims))]
    rows, heap, most = b"", b"", 0
    for corner in walk([range(0, d, t) for d, t in zip(dims, tile)]):
        part = b""
        for at in walk([range(c, min(c + t, d)) for c, t, d in
                        zip(corner, tile, dims)]):
            k = w * sum(a * b for a, b in zip(at, strides))
            part += h.data[k:k + w]
        if cmp == "GZIP_2":
            part = b"".join(part[i::w] for i in range(w))
        part = gzip.compress(part)
        rows += struct.pack(">ii", len(part), len(heap))
        heap += part
        most = max(most, len(part))
    cards, k = [], 0
    while not h.cards[k][0].startswith("GCOUNT"):
        k += 1
    rest = h.cards[k + 1:]
    form = rng.choice(["1P", "P"])
    cards = [("XTENSION", "BINTABLE", ""), ("BITPIX", 8, ""), ("NAXIS", 2, ""),
             ("NAXIS1", 8, ""), ("NAXIS2", len(rows) // 8, ""),
             ("PCOUNT", len(heap), ""), ("GCOUNT", 1, ""),
             ("TFIELDS", 1, ""), ("TTYPE1", "COMPRESSED_DATA", ""),
             ("TFORM1", f"{form}B({most})", ""), ("ZIMAGE", True, ""),
             ("ZTENSION", "IMAGE", ""), ("ZBITPIX", h.cards[1][1], ""),
             ("ZNAXIS", len(dims), "")]
    cards += [(f"ZNAXIS{i + 1}", d, "") for i, d in enumerate(dims)]
    cards += [(f"ZTILE{i + 1}", d, "") for i, d in enumerate(tile)]
    cards += [("ZPCOUNT", 0, ""), ("ZGCOUNT", 1, ""),
              ("ZCMPTYPE", cmp, "")]
    if h.cards[1][1] < 0 and rng.random() < .5:
        cards.append(("ZQUANTIZ", "NONE", ""))
    h.cards, h.data = cards + rest, rows + heap
    h.meta |= {"what": h.meta["what"] + "t", "tiled": True}
    return h


def walk(ranges):
    """all positions, the first axis varying fastest"""
    for p in itertools.product(*reversed(ranges)):
        yield p[::-1]


def gen_stub(rng, name=None, primary=False):
    cards = [("SIMPLE", True, "")] if primary else [("XTENSION", "IMAGE", "")]
    cards += [("BITPIX", 8, ""), ("NAXIS", 0, "")]
    if primary:
        cards += [("EXTEND", True, "")]
    else:
        cards += [("PCOUNT", 0, ""), ("GCOUNT", 1, "")]
    return finish(rng, "image", name, cards, b"", ("empty",), scale="none",
                  what="stub")


BIN = {  # code: (width, kind)
    "L": (1, "b"), "B": (1, "u"), "I": (2, "i"), "J": (4, "i"),
    "K": (8, "i"), "E": (4, "f"), "D": (8, "f"), "C": (8, "c"),
    "M": (16, "c"),
}
CHARS = "abcXYZ 0129-_.'/"


def rand_text(rng, n):
    t = "".join(rng.choice(CHARS) for _ in range(rng.randint(0, n)))
    return t.rstrip()


def cell(rng, code):
    """(bytes, value) of one element"""
    w, kind = BIN[code]
    if kind == "b":
        v = rng.random() < .5
        return (b"T" if v else b"F"), v
    if kind == "u":
        v = rng.randrange(256)
        return bytes([v]), v
    if kind == "i":
        v = rand_int(rng, w, True)
        return int_bytes(v, w, ">", True), v
    if kind == "f":
        v = rand_float(rng, w)
        return float_bytes(v, w, ">"), v
    a, b = (rand_float(rng, w // 2, special=False) for _ in range(2))
    return (float_bytes(a, w // 2, ">") + float_bytes(b, w // 2, ">"),
            complex(a, b))


NAMES = ["time", "FLUX", "Wave_len", "x", "Y", "flag", "QUALITY", "id",
         "target name", "ERR", "dn", "SCLK", "bits", "pos", "Spectrum"]


def gen_bintable(rng, name=None, rows=None, vary=0):
    """exp = ('table', [(column, kind, values)])"""
    rows = rng.choice([0, 1, 1, 2, 3, 5, 9]) if rows is None else rows
    ncol = rng.randint(1, 7)
    names = rng.sample(NAMES, ncol)
    dupes = ncol > 2 and rng.random() < 0.08
    if dupes:
        names[-1] = names[0]
        if rng.random() < .3:
            names[1] = f"{names[0]}_{rng.choice([0, 1])}"
    cols, cards2, heap = [], [], b""
    cells = [[] for _ in range(rows)]
    multi = rng.random() < 0.4
    used = set()
    for i, nm in enumerate(names):
        code = rng.choice("LBIJKEDCM" + "AAX" + "IJED" + "V" * vary)
        if code == "V":
            # of a length that differs among rows
            of, long = rng.choice("BIJKED"), rng.random() < .3
            most, vals = 0, []
            for r in range(rows):
                got = [cell(rng, of) for _ in range(rng.choice([0, 1, 2, 5]))]
                most = max(most, len(got))
                if rng.random() < .2:
                    heap += rng.randbytes(3)
                cells[r].append(struct.pack(">qq" if long else ">ii", len(got),
                                            len(heap)))
                heap += b"".join(b for b, _ in got)
                vals.append([v for _, v in got])
            cards2 += [("TTYPE%d" % (i + 1), nm, ""),
                       ("TFORM%d" % (i + 1), f"{rng.choice(['1', ''])}"
                        f"{'Q' if long else 'P'}{of}({most})", "")]
            used.add("V" + of)
            cols.append((nm, "v", [vals]))
            continue
        rep, dim = 1, None
        if multi and rng.random() < 0.5:
            rep = rng.choice([2, 3, 4, 9])
        if code == "A":
            rep = rng.choice([1, 3, 8, 20])
        if code == "X":
            rep = rng.choice([1, 3, 8, 9, 17])
        form = f"{rep}{code}" if rep != 1 or rng.random() < .5 else code
        c = [("TTYPE%d" % (i + 1), nm, ""), ("TFORM%d" % (i + 1), form, "")]
        used.add(code + ("" if rep == 1 or code in "AX" else "*"))
        vals = []
        if code == "A":
            for r in range(rows):
                t = rand_text(rng, rep)
                pad = rng.choice([b" ", b"\0"])
                cells[r].append(t.encode().ljust(rep, pad))
                vals.append(t)
            cols.append((nm, "s", [vals]))
        elif code == "X":
            nb = (rep + 7) // 8
            for r in range(rows):
                bits = [rng.random() < .5 for _ in range(rep)]
                word = sum(b << (8 * nb - 1 - j) for j, b in enumerate(bits))
                cells[r].append(word.to_bytes(nb, "big"))
                vals.append(bits)
            cols.append((nm, "b", [list(x) for x in zip(*vals)]
                         if rows else [[] for _ in range(rep)], True))
        else:
            if rep > 1 and rng.random() < 0.4 and rep in (4, 9):
                k = {4: 2, 9: 3}[rep]
                dim = (k, k)
                c.append(("TDIM%d" % (i + 1), f"({k},{k})", ""))
                used.add("2d")
            sc = zo = None
            kind = BIN[code][1]
            if code in "IJ" and rng.random() < 0.25:
                if rng.random() < .5:
                    zo, sc = 2 ** (8 * BIN[code][0] - 1), 1
                    kind = "u"
                    used.add("unsigned")
                else:
                    sc, zo = rng.choice([0.5, 2.0]), rng.choice([0., 10.])
                    kind = "f"
                    used.add("scaled")
                c += [("TSCAL%d" % (i + 1), sc, ""),
                      ("TZERO%d" % (i + 1), zo, "")]
            elif code in "BIJ" and rng.random() < .2:
                # the values that stand for none are still values
                c.append(("TNULL%d" % (i + 1), rng.choice([0, 99, 1]), ""))
                used.add("null")
            for r in range(rows):
                row = [cell(rng, code) for _ in range(rep)]
                cells[r].append(b"".join(b for b, _ in row))
                vs = [v for _, v in row]
                if sc is not None:
                    vs = [v * sc + zo for v in vs]
                vals.append(vs)
            cols.append((nm, kind, [list(x) for x in zip(*vals)]
                         if rows else [[] for _ in range(rep)]))
        if rng.random() < .3:
            c.append(("TUNIT%d" % (i + 1), rng.choice(["m", "km/s", "DN"]),
                      ""))
        cards2 += c
    body = b"".join(b"".join(r) for r in cells)
    width = len(b"".join(cells[0])) if rows else sum(
        row_width(c) for c in cards2 if c[0].startswith("TFORM"))
    cards = [("XTENSION", "BINTABLE", ""), ("BITPIX", 8, ""), ("NAXIS", 2, ""),
             ("NAXIS1", width, ""), ("NAXIS2", rows, ""),
             ("PCOUNT", len(heap), ""),
             ("GCOUNT", 1, ""), ("TFIELDS", ncol, "")] + cards2
    body += heap
    out = []
    anymulti = any(len(c[2]) > 1 or len(c) == 4 for c in cols)
    dup = {n for n in names if names.count(n) > 1}
    new = {n: numbered(n, names.count(n), names) for n in dup}
    for c in cols:
        nm, kind, subs = c[:3]
        if nm in dup:
            nm = new[nm].pop(0)
        if len(subs) > 1 or len(c) == 4:
            out += [(f"{nm}_{j}", kind, s) for j, s in enumerate(subs)]
        else:
            out.append((nm, kind, subs[0]))
    return finish(rng, "bintable", name, cards, body, ("table", out),
                  scale="none", what="bintable" + ("*" if anymulti else ""),
                  used=used, dup=bool(dup), rows=rows)


def row_width(c):
    f = c[1]
    if "(" in f:
        return 16 if "Q" in f else 8
    rep = int(f[:-1]) if len(f) > 1 else 1
    if f[-1] == "A":
        return rep
    if f[-1] == "X":
        return (rep + 7) // 8
    return rep * BIN[f[-1]][0]


def gen_asciitable(rng, name=None, rows=None):
    rows = rng.choice([1, 2, 3, 5, 9]) if rows is None else rows
    ncol = rng.randint(1, 5)
    names = rng.sample(NAMES, ncol)
    pos, cards2, exp = 0, [], []
    cells = [[] for _ in range(rows)]
    for i, nm in enumerate(names):
        gap = rng.choice([0, 1, 1, 2])
        code = rng.choice("AIFED")
        vals, texts = [], []
        if code == "A":
            w = rng.choice([1, 4, 10])
            form, kind = f"A{w}", "s"
            for _ in range(rows):
                t = rand_text(rng, w)
                vals.append(t)
                texts.append(f"{t:<{w}}")
        elif code == "I":
            w = rng.choice([4, 8, 12])
            form, kind = f"I{w}", "i"
            for _ in range(rows):
                v = rng.randint(-10 ** (w - 2), 10 ** (w - 2))
                vals.append(v)
                texts.append(f"{v:>{w}}")
        else:
            w, d = rng.choice([(12, 3), (16, 5)])
            form, kind = f"{code}{w}.{d}", "f"
            for _ in range(rows):
                v = rng.choice([0.0, 1.5, -2.25, 1234.5, rng.uniform(-99, 99)])
                t = f"{v:.{d}f}" if code == "F" else f"{v:.{d}E}".replace(
                    "E", code)
                vals.append(float(t.replace("D", "E")))
                texts.append(f"{t:>{w}}")
        pos += gap
        for r in range(rows):
            cells[r].append(" " * gap + texts[r])
        cards2 += [(f"TTYPE{i + 1}", nm, ""), (f"TBCOL{i + 1}", pos + 1, ""),
                   (f"TFORM{i + 1}", form, "")]
        pos += w
        exp.append((nm, kind, vals))
    body = "".join("".join(r) for r in cells).encode()
    cards = [("XTENSION", "TABLE", ""), ("BITPIX", 8, ""), ("NAXIS", 2, ""),
             ("NAXIS1", pos, ""), ("NAXIS2", rows, ""), ("PCOUNT", 0, ""),
             ("GCOUNT", 1, ""), ("TFIELDS", ncol, "")] + cards2
    return finish(rng, "asciitable", name, cards, body, ("table", exp),
                  scale="none", what="asciitable", used=set(), dup=False)


def gen_file(rng, nhdu=None, names=None, tiled=False):
    """list of HDUs; first is the primary"""
    nhdu = nhdu or rng.randint(1, 6)
    hdus = [gen_image(rng, None, True) if rng.random() < .6
            else gen_stub(rng, None, True)]
    pool = names or ["SCI", "ERR", "DQ", "EVENTS", "WAVE LEN", "EXT_TABLE",
                     "IMAGE HEADER", "SCI_HEADER", "ERR_0", "ERR_1"]
    for i in range(nhdu - 1):
        nm = rng.choice(pool) if rng.random() < .9 else None
        r = rng.random()
        if r < .4:
            if tiled and rng.random() < .25:
                h = gen_tiled(rng, nm or "TILES")
            else:
                h = gen_image(rng, nm)
        elif r < .45:
            h = gen_stub(rng, nm)
        elif r < .85:
            h = gen_bintable(rng, nm, vary=2 if tiled else 0)
        else:
            h = gen_asciitable(rng, nm)
        hdus.append(h)
    return hdus


def write(hdus):
    """(bytes, [(header offset, data offset)])"""
    hopeless = any(c[0] == "BAD" and c[2] is None for h in hdus
                   for c in h.cards)
    for h in hdus:
        h.meta["hopeless"] = hopeless
    blob, where = b"", []
    for h in hdus:
        a, b = h.encode()
        where.append((len(blob), len(blob) + len(a)))
        blob += a + b
    return blob, where


def f32(v):
    return struct.unpack(">f", struct.pack(">f", v))[0]
