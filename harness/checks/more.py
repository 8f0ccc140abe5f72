"""
Workloads for C24 and C25 of which no result is specified, only that it
depends on nothing else and changes nothing else: which of several candidate
files is taken, what becomes of arguments, products that lack something.
"""
import bz2
import gzip

import pdr
from checks.c03 import described_twice

PROP = "MORE"


def label(d, name, fn, n, extra=""):
    (d / name).write_bytes((
        "PDS_VERSION_ID = PDS3\r\n"
        f"RECORD_TYPE = FIXED_LENGTH\r\nRECORD_BYTES = {n}\r\n"
        f'^IMAGE = "{fn}"\r\n{extra}'
        f"OBJECT = IMAGE\r\nLINES = 2\r\nLINE_SAMPLES = {n}\r\n"
        "SAMPLE_BITS = 8\r\nSAMPLE_TYPE = UNSIGNED_INTEGER\r\n"
        "END_OBJECT = IMAGE\r\nEND\r\n").encode())
    return d / name


def use(p, **kw):
    try:
        data = pdr.Data(p, **kw)
    except Exception:
        return
    for k in list(data.index):
        try:
            data[k]
        except Exception:
            pass
    return data


def ambiguous(rng, d):
    """several files that may be meant"""
    n = rng.randint(1, 5)
    stem = rng.choice(["x", "dat-a", "a.b"])
    names = [stem + e for e in (".img", ".Img", ".IMG.gz", ".img.gz",
                                ".img.bz2", ".Img.BZ2")]
    names += [stem.upper() + ".img", stem.upper() + ".Img.gz"]
    names = rng.sample(names, rng.randint(2, 5))
    for f in names:
        blob = rng.randbytes(2 * n)
        if f.lower().endswith(".gz"):
            blob = gzip.compress(blob, mtime=0)
        elif f.lower().endswith(".bz2"):
            blob = bz2.compress(blob)
        (d / f).write_bytes(blob)
    use(label(d, "q.lbl", stem.upper() + ".IMG", n))


def formats(rng, d):
    """several format files that may be meant, in several places"""
    places = [d / f"p{i}" for i in range(3)]
    for p in places:
        p.mkdir()
    t = rng.randint(2, 4)
    for p in rng.sample(places + [d], rng.randint(1, 3)):
        for f in rng.sample(["f.fmt", "F.fmt", "F.Fmt"], rng.randint(1, 2)):
            (p / f).write_text(
                f"OBJECT = COLUMN\r\nNAME = {rng.choice('ABC')}\r\n"
                "DATA_TYPE = MSB_UNSIGNED_INTEGER\r\nSTART_BYTE = 1\r\n"
                f"BYTES = {rng.choice([1, 2])}\r\nEND_OBJECT = COLUMN\r\nEND\r\n")
    (d / "T.DAT").write_bytes(rng.randbytes(2 * t))
    (d / "t.lbl").write_bytes((
        'PDS_VERSION_ID = PDS3\r\n^TABLE = "T.DAT"\r\nOBJECT = TABLE\r\n'
        f"INTERCHANGE_FORMAT = BINARY\r\nROWS = {t}\r\nROW_BYTES = 2\r\n"
        'COLUMNS = 1\r\n^STRUCTURE = "F.FMT"\r\nEND_OBJECT = TABLE\r\n'
        "END\r\n").encode())
    where = [str(p) for p in rng.sample(places, rng.randint(0, 2))]
    use(d / "t.lbl", search_paths=where)


def unlabelled(rng, d):
    """a file with several labels that may be its own"""
    n = rng.randint(1, 5)
    names = rng.sample(["v.lbl", "V.LBL", "v.LBL", "V.lbl", "v.Lbl"],
                       rng.randint(2, 4))
    for f in names:
        label(d, f, "V.IMG", n, f"A = {rng.randint(0, 99)}\r\n")
    (d / "v.img").write_bytes(rng.randbytes(2 * n))
    use(d / rng.choice(["v.img", "V.IMG", "V.Lbl"]))


ODD = ["\\", '"C:\\bin\\q"', "'\\x'", '("a\\", {b, "\\u"})', '"\u00e9 \u03bc"',
       "1e999", "-1e-999", "16#FFFFFFFFFFFFFFFFFFFF#", "2#102#", "99#Z#",
       "10000000000000000000000000", "0x10", "1_000", "007", "None", "True",
       "nan", "inf", "-inf", "1j", "...", "()", "{}", "(,)", "((1,2),(3))",
       "{1, {2}}", "<>", "1 <", "5 <a> <b>", "<KM>", "(1 <a>, 2 <b>)", '""',
       "''", "'", "2001-02-30", "2001-366T25:61:61Z", "24:00", "+", "-", "--1",
       "*", "a.b.c", "f(x)", "[1]", "lambda: 0", "b'x'", "r'x'", "f'x'",
       "UNK", "N/A", "NULL", "#", "=", "= 5", "\t5", "5 /* c */", "/* c */",
       "(1, 2", "1, 2)", "{'a', \"b\", c}", "5; 6", "x" * 5000,
       "(" * 60 + ")" * 60, "9" * 300, "1" + "+1" * 200]
PLACES = ["X_VALUE_NAME", "LINES", "SAMPLE_TYPE", "BANDS", "MISSING_CONSTANT",
          "SCALING_FACTOR", "OFFSET", "LINE_PREFIX_BYTES", "INSTRUMENT_ID",
          "PRODUCT_ID", "RECORD_BYTES", "^IMAGE", "^TABLE", "OBJECT", "GROUP",
          "END_OBJECT", "FILE_RECORDS", "INSTRUMENT_HOST_NAME",
          "BAND_STORAGE_TYPE", "CHECKSUM"]


def odd_label(rng, d):
    """values that are unlikely, or not values at all"""
    n = rng.randint(1, 5)
    top, inner = [], []
    for _ in range(rng.randint(1, 4)):
        rng.choice([top, inner]).append(
            f"{rng.choice(PLACES)} = {rng.choice(ODD)}\r\n")
    text = ("PDS_VERSION_ID = PDS3\r\nRECORD_TYPE = FIXED_LENGTH\r\n"
            f'RECORD_BYTES = {n}\r\n^IMAGE = "o.img"\r\n{"".join(top)}'
            f"OBJECT = IMAGE\r\nLINES = 2\r\nLINE_SAMPLES = {n}\r\n"
            "SAMPLE_BITS = 8\r\nSAMPLE_TYPE = UNSIGNED_INTEGER\r\n"
            f"{''.join(inner)}END_OBJECT = IMAGE\r\nEND\r\n")
    (d / "o.lbl").write_bytes(text.encode(rng.choice(["utf-8", "latin-1"]),
                                          "replace"))
    (d / "o.img").write_bytes(rng.randbytes(2 * n))
    data = use(d / "o.lbl")
    if data is not None:
        for f in (lambda: data.find_special_constants("IMAGE"),
                  lambda: data.get_scaled("IMAGE"),
                  lambda: str(data), lambda: repr(data),
                  lambda: data.metaget(rng.choice(PLACES))):
            try:
                f()
            except Exception:
                pass
        (d / "b").mkdir()
        try:
            data.dump_browse(outpath=d / "b")
        except Exception:
            pass


def twice(rng, mon):
    """a compressed file and what has come of it"""
    described_twice(rng, mon, ("packed", "whole"))


def run_case(rng, mon, idx):
    f = rng.choice([ambiguous, formats, unlabelled, odd_label, twice])
    f(rng, mon.tmp if f is not twice else mon)
    mon.saw(f.__name__)
