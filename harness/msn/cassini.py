"""Cassini and Huygens"""
import numpy as np

from msn.core import *  # noqa: F401,F403
from msn.core import (Bin, Img, Obj, Qty, Raw, Txt, array, frame, ids_,
                      junk_lines, label, nothing, put, scenario, text)

MIMI = ("CO-S-MIMI-4-CHEMS-CALIB-V1.0", "CO-S-MIMI-4-LEMMS-CALIB-V1.0",
        "CO-S-MIMI-4-INCA-CALIB-V1.0")


@scenario("mimi", "mimi-ancillary")
def mimi(rng, d):
    t = Txt(rng, sep=",")
    ds = rng.choice(MIMI + ("CO-E/J/S/SW-MIMI-2-LEMMS-UNCALIB-V1.0",
                            "CO-SSA-RADAR-3-ABDR-SUMMARY-V1.0", "ANC"))
    ids = {"DATA_SET_ID": ds}
    if ds == "ANC":
        ids = {"DATA_SET_ID": "CO-S-MIMI-4-" + rng.choice(
            ["CHEMS", "LEMMS", "INCA"]) + "-ANC-V1.0",
               "INSTRUMENT_HOST_NAME": "CASSINI ORBITER",
               "PRODUCT_TYPE": "ANCILLARY"}
    full = rng.random() < .5
    fn = f"X_{'FULL' if full else 'AVG'}_1.CSV"
    body = t.loose(",")
    names = t.names
    if "UNCALIB" in ds or (full and ds == MIMI[0]):
        # names are those in the file
        names = [f"REAL_{i}" for i in range(len(t.names))]
        head = ",".join(names) + "\r\n"
        if "UNCALIB" not in ds:
            head += junk_lines(rng, 3)
    elif "RADAR" in ds and not full:
        head = ""
    else:
        head = junk_lines(rng, 4 if full else 7)
    put(d, fn, head, body)
    p = label(rng, d, ids_(rng, **ids), [
        ("^SPREADSHEET", fn),
        t.block("SPREADSHEET", kind="FIELD", ROW_BYTES=t.row_bytes + 9)])
    return p, {"SPREADSHEET": t.check(names)}, {"sig": (ds, full)}


@scenario("cda")
def cda(rng, d):
    t = Txt(rng, sep=" ")
    stem = rng.choice(["CDA_1", "EVENTS", "a.b"])
    put(d, f"{stem}.TAB", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="CO-D-CDA-" + rng.choice(
        ["3/4/5-DUST-V1.0", "2-V4.0"])),
              [("^TABLE", rng.choice(["OTHER.TAB", "CDA.TAB", stem])),
               t.block("TABLE")], stem=stem)
    return p, {"TABLE": t.check()}


@scenario("disr", "huygens")
def disr(rng, d):
    """tables counted from the end of the file"""
    t = Txt(rng, sep=rng.choice([" ", ","]),
            eol=rng.choice(["\n", "\r\n"]))
    by_name = rng.random() < .5
    kind = rng.choice(["STRIP", "VISIBL", "IMAGE", "TIME", "SUN", "SOLAR"])
    exact = rng.random() < .3
    fn = (f"HUY_{kind}_" + rng.choice(["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"])
          if exact else f"DISR_{kind}") + ".TAB"
    head = junk_lines(rng, rng.randint(1, 5))
    put(d, fn, head, t.data())
    ids = {"FILE_NAME": fn}
    if by_name:
        ids["INSTRUMENT_HOST_NAME"] = "HUYGENS PROBE"
    else:
        ids["INSTRUMENT_NAME"] = "DESCENT IMAGER SPECTRAL RADIOMETER"
        ids["PRODUCT_TYPE"] = "RDR"
        if rng.random() < .5:
            del ids["FILE_NAME"]
    start = rng.choice([1, 2, Qty(17, "BYTES")])
    items = [("^TABLE", (fn, start) if rng.random() < .7 else fn),
             t.block("TABLE", ROW_BYTES=t.row_bytes - (0 if exact else 1))]
    out = {"TABLE": t.check()}
    if rng.random() < .6:
        items = [("^HEADER", (fn, 1) if rng.random() < .5 else fn)] + items
        items += [Obj("HEADER", [("BYTES", rng.randint(5, 500)),
                                 ("HEADER_TYPE", "TEXT")])]
        out["HEADER"] = text(head)
    p = label(rng, d, ids_(rng, **ids), items)
    return p, out, {"sig": (by_name, exact, kind)}


@scenario("vims")
def vims(rng, d):
    s, b, l = (rng.randint(2, 5) for _ in range(3))
    a = np.arange(s * b * l, dtype=">i2").reshape(b, l, s)
    put(d, "v.qub", a.tobytes())
    p = label(rng, d, ids_(rng, INSTRUMENT_HOST_NAME="CASSINI_ORBITER"), [
        ("^QUBE", "v.qub"),
        Obj("QUBE", [("AXES", 3), ("AXIS_NAME", Raw("(SAMPLE,BAND,LINE)")),
                     ("CORE_ITEMS", (s, b, l)), ("CORE_ITEM_BYTES", 2),
                     ("CORE_ITEM_TYPE", Raw("MSB_INTEGER")),
                     ("SUFFIX_ITEMS", (0, 0, 0)), ("SUFFIX_BYTES", 4)])])
    return p, {"QUBE": array(a)}


@scenario("co-rpws")
def rpws(rng, d):
    """columns that cover the row prefix as well"""
    t = Bin(rng, [("SCLK", "MSB_UNSIGNED_INTEGER", 4, 1),
                  ("PARTS", "MSB_UNSIGNED_INTEGER", 2, 2),
                  ("FLAGS", "RAW", 24, 1),
                  ("TIME_SERIES", rng.choice(
                      ["MSB_UNSIGNED_INTEGER", "MSB_INTEGER", "IEEE_REAL",
                       "LSB_INTEGER"]), 4, rng.randint(2, 6))])
    t.cols[2] = ("FLAGS", "CHARACTER", 24, 1)
    put(d, "r.dat", t.data())
    for i in range(t.rows):
        w = rng.choice(["Alpha", "MOON"])
        t.raw[i][8:32] = w.ljust(24).encode()
        t.values[3][i] = w
    put(d, "r.dat", t.data())
    body = t.row_bytes - 32
    p = label(rng, d, ids_(rng, INSTRUMENT_HOST_NAME="CASSINI ORBITER",
                           INSTRUMENT_ID="RPWS"),
              [("RECORD_BYTES", t.row_bytes),
               ("^TIME_SERIES", rng.choice(["r.dat", ("r.dat", 1)])),
               t.block("TIME_SERIES", ROW_BYTES=body, ROW_PREFIX_BYTES=32)])
    return p, {"TIME_SERIES": t.check()}


@scenario("rpws-ancillary")
def rpws_ancillary(rng, d):
    """more rows than the label says"""
    t = Txt(rng)
    put(d, "a.tab", t.data())
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="CO-V/E/J/S/SS-RPWS-2-REFDR-ALL-V1.0",
        PRODUCT_TYPE="ANCILLARY"),
        [("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", t.row_bytes),
         ("FILE_RECORDS", t.rows),
         ("^RPWS_TIME_ORDERED_TABLE", ("a.tab", 1)),
         t.block("RPWS_TIME_ORDERED_TABLE",
                 ROWS=max(1, t.rows - rng.randint(0, 3)))])
    return p, {"RPWS_TIME_ORDERED_TABLE": t.check()}


@scenario("hasi", "aero")
def hasi(rng, d):
    aero = rng.random() < .5
    t = Txt(rng, ncol=rng.randint(8, 10), sep=rng.choice([" ", "; "]))
    fn = ("HUY_DTWG_ENTRY_AERO" if aero else "HASI_L4_ATMO_PROFILE") + ".TAB"
    put(d, fn, t.data())
    names = list(t.names)
    if aero:
        names[5:8] = ["KNUDSEN FREESTR. HARD SPHERE NR. [=2.8351E-8/RHO]",
                      "KNUDSEN NR. [=1.2533*SQRT(2)*Ma/Re]",
                      "REYNOLD NR. [=RHO*VREL*D/Mu]"]
    p = label(rng, d, ids_(
        rng, INSTRUMENT_HOST_NAME="HUYGENS PROBE",
        FILE_NAME=fn if not aero else rng.choice([fn, "DTWG"])),
        [("^TABLE", fn),
         t.block("TABLE")])
    return p, {"TABLE": t.check(names)}, {"sig": (aero,)}


ISS_EDR = ("CO-S-ISSNA/ISSWA-2-EDR-V1.0", "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0",
           "CO-CAL-ISSNA/ISSWA-2-EDR-V1.0")


def msb(t):
    return t.replace("LSB", "MSB")


@scenario("iss", "coiss-1006")
def iss(rng, d):
    """
    big-endian whatever the label says; format files in other places;
    pointers that are off by a record
    """
    ds = rng.choice(ISS_EDR + ("CO-CAL-ISS-2-V1.0",))
    early = rng.random() < .5 and ds == ISS_EDR[1]
    rb = rng.choice([24, 64, 100])
    clock = (rng.choice(["1359362956.000", "1363539029", "1361000000.123"])
             if early else rng.choice(["1359362955.9", "1363539030.0",
                                       "1500000000"]))
    # an image whose lines are preceded by a table
    w = rng.choice([1, 2, 4])
    typ = rng.choice(["LSB_INTEGER", "LSB_UNSIGNED_INTEGER", "MSB_INTEGER"])
    img = Img(rng, msb(typ), w, (rng.randint(2, 6), rng.randint(3, 9)))
    pre = Bin(rng, [("HUFFMAN", "MSB_UNSIGNED_INTEGER", 2, 1),
                    ("OVERCLOCK", "MSB_INTEGER", 4, 2),
                    ("PAD", "RAW", 2, 1)], rows=img.lines)
    line = img.samples * w
    inter = b"".join(bytes(r) + img.raw[i * line:(i + 1) * line]
                     for i, r in enumerate(pre.raw))
    tel = Bin(rng, [("TEMP", "IEEE_REAL", 4, 1),
                    ("COUNT", "MSB_UNSIGNED_INTEGER", 2, 1),
                    ("NA", "RAW", 3, 1),
                    ("BITS", "RAW", 2, 1)], rows=1)
    n1 = rng.randint(1, 15)
    bits = int.from_bytes(tel.raw[0][9:11], "big")
    fields = [f"{bits:016b}"[:n1], f"{bits:016b}"[n1:]]
    # layout: header record(s), telemetry, then the lines
    def pad(b):
        return b + rng.randbytes(-len(b) % rb)
    off = 1 if early else 0
    head = junk_lines(rng, 2)
    start_t = len(pad(head.encode())) // rb
    start_i = start_t + len(pad(tel.data())) // rb
    blob = b""
    real = {}
    put(d, "n.img", pad(head.encode()), pad(tel.data()), inter)
    lie = rng.random() < .6

    def typed(t):
        return Raw(t.replace("MSB", "LSB") if lie else t)
    pcols = pre.columns({0: {"DATA_TYPE": typed("MSB_UNSIGNED_INTEGER")},
                         1: {"DATA_TYPE": typed("MSB_INTEGER")},
                         2: {"DATA_TYPE": "N/A"}})
    bcol = Obj("COLUMN", [
        ("NAME", "BITS"), (rng.choice(["BIT_DATA_TYPE", "DATA_TYPE"]),
                           Raw("BINARY")),
        ("START_BYTE", 10), ("BYTES", 2),
        Obj("BIT_COLUMN", [("NAME", "B1"), ("BIT_DATA_TYPE", Raw(
            "MSB_UNSIGNED_INTEGER")), ("START_BIT", 1), ("BITS", n1)]),
        Obj("BIT_COLUMN", [("NAME", "B2"), ("BIT_DATA_TYPE", Raw(
            "MSB_UNSIGNED_INTEGER")), ("START_BIT", n1 + 1),
            ("BITS", 16 - n1)])])
    tcols = tel.columns({1: {"DATA_TYPE": typed("MSB_UNSIGNED_INTEGER")},
                         2: {"DATA_TYPE": "N/A"}})[:3] + [bcol]
    from pds3w import finish_label, render
    (d / "prefix3.fmt").write_bytes(
        finish_label(render(pcols) + ["END"]))
    (d / "tlmtab.fmt").write_bytes(
        finish_label(render(tcols) + ["END"]))
    away = "../../label/" if ds in ISS_EDR and rng.random() < .6 else ""
    items = [("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", rb),
             ("FILE_RECORDS", 1000),
             ("SPACECRAFT_CLOCK_STOP_COUNT", clock),
             ("^IMAGE_HEADER", ("n.img", 1)),
             ("^TELEMETRY_TABLE", ("n.img", start_t + 1 + off)),
             ("^LINE_PREFIX_TABLE", ("n.img", start_i + 1 + off)),
             ("^IMAGE", ("n.img", start_i + 1 + off)),
             Obj("IMAGE_HEADER", [("BYTES", len(head)),
                                  ("HEADER_TYPE", "VICAR2")]),
             Obj("TELEMETRY_TABLE", [
                 ("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", 1),
                 ("COLUMNS", 4), ("ROW_BYTES", tel.row_bytes),
                 ("^STRUCTURE", away + "tlmtab.fmt")]),
             Obj("LINE_PREFIX_TABLE", [
                 ("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", pre.rows),
                 ("COLUMNS", 3), ("ROW_BYTES", pre.row_bytes),
                 ("ROW_SUFFIX_BYTES", line),
                 ("^LINE_PREFIX_STRUCTURE", away + "prefix3.fmt")]),
             img.block("IMAGE", SAMPLE_TYPE=Raw(typ),
                       LINE_PREFIX_BYTES=pre.row_bytes)]
    p = label(rng, d, ids_(rng, DATA_SET_ID=ds), items)
    tnames = ["TEMP", "COUNT", "NA", "BITS"]
    out = {"IMAGE": img.check(),
           "LINE_PREFIX_TABLE": frame(
               ["HUFFMAN", "OVERCLOCK_0", "OVERCLOCK_1", "PAD"], pre.values),
           "TELEMETRY_TABLE": bits_frame(tel, fields),
           "IMAGE_HEADER": text(head)}
    return p, out, {"sig": (ds, early, lie, bool(away)), "scaled": ["IMAGE"]}


def bits_frame(tel, fields):
    def verify(got, mon, where):
        mon.check(list(got.columns) == ["TEMP", "COUNT", "NA", "BITS"],
                  lambda: f"{where}: columns {list(got.columns)}", "names")
        mon.check(got["COUNT"].iloc[0] == tel.values[1][0], lambda: (
            f"{where}: {got['COUNT'].iloc[0]}, not {tel.values[1][0]}"))
        mon.check(list(got["BITS"].iloc[0]) == fields, lambda: (
            f"{where}: bits {got['BITS'].iloc[0]}, not {fields}"), "bits")
        mon.check(bytes(got["NA"].iloc[0]).rstrip(b"\0")
                  == tel.values[2][0].rstrip(b"\0"), lambda: (
            f"{where}: {got['NA'].iloc[0]!r}, not {tel.values[2][0]!r}"))
        t = got["TEMP"].iloc[0]
        e = tel.values[0][0]
        mon.check(t == e or t != t and e != e, lambda: (
            f"{where}: {t}, not {e}"))
        mon.saw("bit_columns")
    return verify


@scenario("iss")
def iss_cal_da(rng, d):
    """calibration images without the line prefixes their labels claim"""
    by_name = rng.random() < .5
    img = Img(rng, "MSB_INTEGER", rng.choice([1, 2, 4]))
    fn = "X.DA" if by_name else "X.IMG"
    put(d, fn, b"\0" * 24, img.data())
    items = [("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", 24),
             ("FILE_RECORDS", 1025 if not by_name else rng.choice([7, 1025])),
             ("^IMAGE", (fn, 2))]
    out = {"IMAGE": img.check()}
    if not by_name:
        items += [("^TELEMETRY_TABLE", (fn, 1)),
                  ("^LINE_PREFIX_TABLE", (fn, 2)),
                  Obj("TELEMETRY_TABLE", [
                      ("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", 1),
                      ("COLUMNS", 4), ("ROW_BYTES", 24),
                      ("^STRUCTURE", "tlmtab.fmt")])]
        out["TELEMETRY_TABLE"] = nothing()
        out["LINE_PREFIX_TABLE"] = nothing()
    items += [img.block("IMAGE", LINE_PREFIX_BYTES=24)]
    p = label(rng, d, ids_(rng, DATA_SET_ID="CO-CAL-ISS-2-V1.0"), items)
    return p, out, {"sig": (by_name,), "scaled": ["IMAGE"]}


@scenario("xdr")
def xdr(rng, d):
    img = Img(rng, "MSB_INTEGER", 2)
    put(d, "x.xdr", junk_lines(rng, 1), img.data())
    n = (d / "x.xdr").stat().st_size - len(img.data())
    p = label(rng, d, ids_(rng), [
        ("^XDR_DOCUMENT", ("x.xdr", Qty(n + 1, "BYTES"))),
        img.block("IMAGE")])
    return p, {"XDR_DOCUMENT": img.check()}
