"""Mars rovers and orbiters, Lunar Reconnaissance Orbiter"""
import numpy as np

from enc import encode_many, np_expected
from msn.core import (WORDS, Bin, Img, Obj, Qty, Raw, Txt, array, decoy,
                      frame, ids_, int_text, junk_lines, label, nothing, put,
                      real_text, scenario, text)
from pmisc import gen_histogram


def adapt(o, name=None):
    """verifier of a DataObj from the other generators"""
    class Box(dict):
        pass

    def verify(got, mon, where):
        o.verify({o.name: got}, o.name, mon, where + ": ")
    return verify


@scenario("chemin")
def chemin_histogram(rng, d):
    """the pointer gives the length"""
    h = gen_histogram(rng)
    head = rng.randbytes(300)
    put(d, "c.img", head, h.payload, decoy(rng))
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="CHEMIN"), [
        ("^HISTOGRAM", ("c.img", Qty(rng.choice([4096, 1024, len(h.payload)]),
                                     "BYTES"))), h.block])
    return p, {"HISTOGRAM": adapt(h)}


@scenario("chemin", "chmn")
def chemin_hsk(rng, d):
    """the block has another name, and the pointer is wrong"""
    t = Bin(rng) if rng.random() < .5 else Txt(rng)
    put(d, "h.dat", t.data(), decoy(rng))
    chem = rng.random() < .7
    at = rng.choice([5, Qty(77, "BYTES")]) if chem else 1
    p = label(rng, d, ids_(rng, **({"INSTRUMENT_ID": "CHEMIN"}
                                   if chem else {})), [
        ("RECORD_BYTES", 64), ("^CHMN_HSK_HEADER_TABLE", ("h.dat", at)),
        t.block("CHMN_HSKN_HEADER_TABLE")])
    return p, {"CHMN_HSK_HEADER_TABLE": t.check()}


@scenario("chemin", "sam-qms", "sam-file", "places")
def msl_csv(rng, d):
    """csv files with a line of names"""
    t = Txt(rng)
    kind = rng.choice(["chemin", "sam", "places"])
    names = [f"Real {i}" for i in range(len(t.names))]
    put(d, "s.csv", ",".join(names) + "\n", t.loose(","))
    ids = {"chemin": {"INSTRUMENT_ID": "CHEMIN"},
           "sam": {"DATA_SET_ID": "MSL-M-SAM-2-RDR-L0-V1.0",
                   "PRODUCT_ID": "SM123_QMS_1"},
           "places": {"DATA_SET_ID": "MSL-M-ROVER-6-RDR-PLACES-V1.0"}}[kind]
    name = {"chemin": rng.choice(["SPREADSHEET", "CHMN_SPREADSHEET"]),
            "sam": rng.choice(["TABLE", "QMS_TABLE"]),
            "places": "SPREADSHEET"}[kind]
    items = [(f"^{name}", "s.csv"),
             t.block(name, kind="FIELD" if kind != "sam" else "COLUMN",
                     ROWS=rng.randint(1, 99), ROW_BYTES=40)]
    out = {name: t.check(t.names if kind == "places" else names)}
    if kind == "chemin" and rng.random() < .5:
        items = [("^HEADER", "s.csv")] + items + [
            Obj("HEADER", [("BYTES", 10)])]
        out["HEADER"] = nothing()
    if kind == "sam" and rng.random() < .5:
        put(d, "s.dat", "x")
        items = [("^SM_FILE", "s.dat")] + items
        out["SM_FILE"] = nothing()
    p = label(rng, d, ids_(rng, **ids), items)
    return p, out, {"sig": (kind, name)}


REMS = {"INSTRUMENT_HOST_NAME": "MARS SCIENCE LABORATORY",
        "INSTRUMENT_ID": "REMS"}


def fixed_rows(t, width, eol="\r\n"):
    """rows of a comma-separated table, all of the same length"""
    out = []
    for s in t.lines():
        assert len(s) + len(eol) <= width
        out.append(s.rjust(width - len(eol)) + eol)
    return "".join(out)


@scenario("rems-sp")
def rems_edr(rng, d):
    """several tables whose rows have one length, with wrong starts"""
    tabs, parts, items, blocks, out, row = [], [], [], [], {}, 0
    for i in range(rng.randint(1, 3)):
        t = Txt(rng, ncol=rng.randint(2, 5), sep=",", kinds=None)
        t = Txt(rng, kinds=["int"] + t.kinds, sep=",")
        name = ["REMS_REPORT_TABLE", "REMS_ENG_TABLE", "TABLE"][i]
        parts.append(fixed_rows(t, 399))
        start = row * 399 + rng.randint(0, 30) + 1
        row += t.rows
        items.append((f"^{name}", ("r.tab", Qty(start, "BYTES"))))
        blocks.append(t.block(name, ROW_BYTES=t.row_bytes,
                              ROW_SUFFIX_BYTES=390 - t.row_bytes))
        out[name] = t.check()
    put(d, "r.tab", *parts)
    p = label(rng, d, ids_(rng, **REMS, PRODUCT_ID="RSP_123SP_____4"),
              items + blocks)
    return p, out


@scenario("rems-report")
def rems_report(rng, d):
    """pointers in bytes without a unit"""
    t = Bin(rng) if rng.random() < .5 else Txt(rng)
    head = decoy(rng)
    put(d, "r.dat", head, t.data(), decoy(rng))
    p = label(rng, d, ids_(rng, **REMS, PRODUCT_ID=rng.choice(
        ["RME_HSDEF__1", "RME_HSREG__"])), [
        ("RECORD_BYTES", rng.choice([8, 64])),
        ("^REMS_REPORT_TABLE", ("r.dat", len(head) + 1)),
        t.block("REMS_REPORT_TABLE")])
    return p, {"REMS_REPORT_TABLE": t.check()}


@scenario("rems-rdr")
def rems_rdr(rng, d):
    t = Txt(rng, kinds=["char"] + [rng.choice(["int", "real"])
                                   for _ in range(rng.randint(2, 5))],
            sep=",")
    miss = [" UNK", "    UNK", "     UNK", "      UNK", "       UNK",
            "         UNK", "   NULL", "    NULL"]
    cols = list(map(list, zip(*t.values)))
    lines = []
    for r, cells in enumerate(t.texts):
        cells = list(cells)
        for c in range(1, len(cells)):
            if rng.random() < .3:
                cells[c] = rng.choice(miss)
                cols[c][r] = float("nan")
        lines.append(",".join(cells) + "\r\n")
    put(d, "r.tab", *lines)
    p = label(rng, d, ids_(
        rng, **REMS, DATA_SET_ID="MSL-M-REMS-4-ENVRDR-V1.0"),
        [("^REMS_SCIENCE_TABLE", "r.tab"),
         t.block("REMS_SCIENCE_TABLE", ROWS=t.rows + rng.randint(0, 2))])
    return p, {"REMS_SCIENCE_TABLE": frame(t.names, cols)}


@scenario("dlre")
def dlre(rng, d):
    t = Txt(rng, kinds=["real"] * rng.randint(2, 6), sep=",")
    cols = list(map(list, zip(*t.values)))
    lines = []
    for r, cells in enumerate(t.texts):
        cells = list(cells)
        for c in range(len(cells)):
            if rng.random() < .3:
                cells[c] = "     NaN"
                cols[c][r] = float("nan")
        lines.append(", ".join(cells) + "\r\n")
    put(d, "d.tab", " a, b\r\n", *lines)
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="DLRE", PRODUCT_TYPE=rng.choice(
        ["GCP", "PCP", "PRP"])), [
        ("^TABLE", "d.tab"), t.block("TABLE")])
    return p, {"TABLE": frame(t.names, cols)}


@scenario("lp-outages")
def lp_outages(rng, d):
    """commas are missing here and there"""
    t = Txt(rng, ncol=6, sep=",")
    lines = [list(s) for s in t.lines()]
    for s in lines:
        for st in t.starts[1:]:
            if rng.random() < .2:
                s[st - 1] = " "
    put(d, "o.tab", *("".join(s) + "\r\n" for s in lines))
    p = label(rng, d, ids_(rng, INSTRUMENT_HOST_NAME="LUNAR PROSPECTOR",
                           PRODUCT_ID="OUTAGES"),
              [("^TABLE", "o.tab"), t.block("TABLE")])
    return p, {"TABLE": t.check()}


@scenario("crater", "crater-bits")
def crater(rng, d):
    """the second table starts at byte 64, whatever the label says"""
    t = Bin(rng, [("SEC", "MSB_UNSIGNED_INTEGER", 4, 1),
                  ("SPARE", "MSB_UNSIGNED_INTEGER", rng.choice([1, 2, 4]),
                   1),
                  ("FLAG", "RAW", 2, 1)])
    head = Txt(rng, kinds=["char", "int"], widths=[40, 21], rows=1)
    assert head.row_bytes == 64
    put(d, "c.dat", head.data(), t.data())
    n = rng.randint(1, 15)
    words = [int.from_bytes(v, "big") for v in t.values[2]]
    both = [[f"{w:016b}"[:n], f"{w:016b}"[n:]] for w in words]
    bits = rng.random() < .7
    cols = t.columns({1: {"DATA_TYPE": "N/A"}})
    if bits:
        cols[2] = Obj("COLUMN", [
            ("NAME", "FLAG"), ("DATA_TYPE", Raw("BIT_STRING")),
            ("START_BYTE", t.starts[2] + 1), ("BYTES", 2),
            Obj("BIT_COLUMN", [("NAME", "A"), ("START_BIT", 1), ("BITS", n)]),
            Obj("BIT_COLUMN", [("NAME", "B"), ("START_BIT", n + 1),
                               ("BITS", 16 - n)])])
    else:
        cols[2] = Obj("COLUMN", [
            ("NAME", "FLAG"), ("DATA_TYPE", Raw("MSB_UNSIGNED_INTEGER")),
            ("START_BYTE", t.starts[2] + 1), ("BYTES", 2)])
    exp = [t.values[0], t.values[1]]

    def verify(got, mon, where):
        frame(["SEC", "SPARE"], exp)(got[["SEC", "SPARE"]], mon, where)
        mon.check(list(got.columns) == ["SEC", "SPARE", "FLAG"],
                  lambda: f"{where}: {list(got.columns)}", "names")
        g = [list(x) if bits else int(x) for x in got["FLAG"]]
        e = both if bits else words
        mon.check(g == e, lambda: f"{where}: {g} not {e}", "bits")
        mon.saw("bit_columns", bits)
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="CRAT", PRODUCT_TYPE="EDR",
                           DATA_SET_ID="LRO-L-CRAT-2-EDR-RAWDATA-V1.0"), [
        ("RECORD_BYTES", 64), ("^TABLE", ("c.dat", 1)),
        ("^TABLE_1", ("c.dat", rng.choice([2, 3, 7]))),
        head.block("TABLE"), t.block("TABLE_1", columns=cols)])
    return p, {"TABLE": head.check(), "TABLE_1": verify}, {"sig": (bits, n)}


@scenario("wea", "wea-position")
def wea(rng, d):
    """rows longer than the label says; times that are split"""
    t = Txt(rng, kinds=["int"] * rng.randint(4, 7))
    # more bytes per row than described
    split = rng.randint(1, len(t.kinds) - 1)
    loader = rng.random() < .6
    lines = []
    for cells in t.texts:
        s = ""
        for i, c in enumerate(cells):
            s += c + ("" if i == len(cells) - 1
                      else ":" if i < split else " " * rng.randint(1, 3))
        lines.append(s + "\r\n")
    ids = {}
    if loader:
        ids = {"INSTRUMENT_HOST_NAME": "LUNAR RECONNAISSANCE ORBITER",
               "INSTRUMENT_NAME": "RADIO SCIENCE SUBSYSTEM"}
        put(d, "w.tab", junk_lines(rng, 1), *lines)
        if rng.random() < .5:
            ids["DATA_SET_ID"] = "LRO-L-RSS-1-TRACKING-V1.0"
        at = Qty(30, "BYTES")
    else:
        ids = {"DATA_SET_ID": "LRO-L-RSS-1-TRACKING-V1.0"}
        head = junk_lines(rng, 1)
        put(d, "w.tab", head, t.data())
        at = Qty(len(head) + 1, "BYTES")
    p = label(rng, d, ids_(rng, **ids), [
        ("^WEAREC_TABLE", ("w.tab", at)),
        t.block("WEAREC_TABLE", ROW_BYTES=t.row_bytes - 1)])
    return p, {"WEAREC_TABLE": t.check()}, {"sig": (loader,)}


@scenario("minirf-mosaic")
def minirf_mosaic(rng, d):
    """the label has the wrong dimensions"""
    L, S = 5760, 11520
    a = np.zeros((L, S), "u1")
    with open(d / "g.img", "wb") as f:
        f.truncate(L * S)
        for _ in range(40):
            r = rng.choice([0, L - 1, rng.randrange(L)])
            row = rng.randbytes(50)
            c = rng.choice([0, S - 50, rng.randrange(S - 50)])
            f.seek(r * S + c)
            f.write(row)
            a[r, c:c + 50] = list(row)
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0",
        PRODUCT_ID="GLOBAL_S4_32PPD_1"), [
        ("^IMAGE", "g.img"),
        Obj("IMAGE", [("LINES", rng.choice([5761, 100])),
                      ("LINE_SAMPLES", rng.choice([11521, 23040])),
                      ("SAMPLE_BITS", 8),
                      ("SAMPLE_TYPE", Raw("MSB_UNSIGNED_INTEGER"))])])
    return p, {"IMAGE": array(a, size=2000)}


@scenario("minirf-hk")
def minirf_hk(rng, d):
    t = Txt(rng, kinds=["char", "char", "char"], sep=",")
    first = rng.choice(WORDS)
    cols = [[first] + [r[0] for r in t.values],
            [float("nan")] + [r[1] for r in t.values],
            [float("nan")] + [r[2] for r in t.values]]
    put(d, "h.csv", first + "\r\n", t.loose(","))
    p = label(rng, d, ids_(rng, DATA_SET_ID="LRO-L-MRFLRO-1-PDR-V1.0",
                           PRODUCT_ID="LSB_HK_01"), [
        ("^SPREADSHEET", "h.csv"),
        t.block("SPREADSHEET", kind="FIELD", ROWS=t.rows + 1)])
    return p, {"SPREADSHEET": frame(t.names, cols)}


@scenario("lroc")
def lroc(rng, d):
    n, m = rng.randint(2, 9), rng.randint(2, 9)
    b = rng.randbytes(n * m)
    put(d, "l.img", b)
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="LROC", PRODUCT_TYPE="EDR"), [
        ("^IMAGE", "l.img"),
        Obj("IMAGE", [("LINES", n), ("LINE_SAMPLES", m), ("SAMPLE_BITS", 8),
                      ("SAMPLE_TYPE", Raw(rng.choice(
                          ["LSB_INTEGER", "MSB_INTEGER"])))])])
    return p, {"IMAGE": array(np.frombuffer(b, "u1").reshape(n, m))}, {
        "scaled": ["IMAGE"]}


@scenario("mer-uhfd")
def uhfd(rng, d):
    t = Txt(rng, sep=",")
    put(d, "u.csv", t.loose(","))
    p = label(rng, d, ids_(rng, DATA_SET_ID=rng.choice(
        ["MER1-M-RSS-1-EDR-V1.0", "MER2-M-RSS-1-EDR-V1.0"]),
        PRODUCT_TYPE="UHFD"), [
        ("^SPREADSHEET", "u.csv"),
        t.block("SPREADSHEET", kind="FIELD", ROWS=rng.choice(
            [max(1, t.rows - 1), t.rows + 3]))])
    return p, {"SPREADSHEET": t.check()}


@scenario("mcs-edr")
def mcs_edr(rng, d):
    """a column named 1"""
    t = Txt(rng, sep=",")
    put(d, "m.tab", t.data())
    names = ["1"] + t.names[1:]
    p = label(rng, d, ids_(rng, DATA_SET_ID=rng.choice(
        ["MRO-M-MCS-4-RDR-V1.0", "MRO-M-MCS-2-EDR-V1.0"])), [
        ("^TABLE", "m.tab"), t.block("TABLE", over={0: {"NAME": Raw("1")}})])
    return p, {"TABLE": t.check(names)}


MCS_NAMES = (
    "QUAL DATE UTC SCLK L_S SOLAR_DIST ORB_NUM GQUAL SOLAR_LAT SOLAR_LON "
    "SOLAR_ZEN LTST PROFILE_LAT PROFILE_LON PROFILE_RAD PROFILE_ALT LIMB_ANG "
    "ARE_RAD SURF_LAT SURF_LON SURF_RAD T_SURF T_SURF_ERR T_NEAR_SURF "
    "T_NEAR_SURF_ERR DUST_COLUMN DUST_COLUMN_ERR H2OVAP_COLUMN "
    "H2OVAP_COLUMN_ERR H2OICE_COLUMN H2OICE_COLUMN_ERR CO2ICE_COLUMN "
    "CO2ICE_COLUMN_ERR P_SURF P_SURF_ERR P_RET_ALT P_RET P_RET_ERR RQUAL "
    "P_QUAL T_QUAL DUST_QUAL H2OVAP_QUAL H2OICE_QUAL CO2ICE_QUAL SURF_QUAL "
    "OBS_QUAL").split() + [f"REF_SCLK_{i}" for i in range(10)] + [
        f"REF_{k}_{i}" for i in range(10) for k in ("DATE", "UTC")] + (
    "1_layer PRES T T_ERR DUST DUST_ERR H2OVAP H2OVAP_ERR H2OICE H2OICE_ERR "
    "CO2ICE CO2ICE_ERR ALT LAT LON").split()


@scenario("mcs-ddr")
def mcs_ddr(rng, d):
    """records of one line about a profile and many of data"""
    reps = rng.choice([2, 3, 5, 105])
    n = rng.randint(1, 4)
    cut = rng.random() < .3
    rows, lines = [], []

    def cells(lo, hi):
        t, v = [], []
        for i in range(lo, hi):
            if i in (1,) or 57 <= i <= 76 and i % 2:
                a = f'"{rng.randint(1, 28):02d}-Mar-2007"'
                t.append(a)
                v.append(a.strip('"'))
            elif i in (2,) or 57 <= i <= 76:
                a = (f'"{rng.randint(0, 23):02d}:{rng.randint(10, 59)}:'
                     f'{rng.randint(10, 59)}.{rng.randint(1, 9)}"')
                t.append(a)
                v.append(a.strip('"'))
            elif i == 0 or i == 77:
                a = str(rng.randint(0, 9))
                t.append(a)
                v.append(a)
            elif i in (6, 7, 38, 39, 40, 41, 42, 43, 44):
                a, b = int_text(rng, 6)
                t.append(a.rjust(6))
                v.append(b)
            else:
                a, b = real_text(rng, 10)
                t.append(a.rjust(10))
                v.append(b)
        return t, v

    for b in range(n):
        t, meta = cells(0, 77)
        lines.append(", ".join(t) + " " * rng.choice([0, 30]))
        k = reps
        if cut and (b == n - 1 or rng.random() < .5):
            k = rng.randint(1, reps)
        for _ in range(k):
            t, v = cells(77, 92)
            lines.append(", ".join(t))
            rows.append(meta + v)
    # (what follows a line that is neither is not guessed)
    lost = rng.random() < .15
    if lost:
        i = rng.randrange(len(lines))
        lines[i] = lines[i].rsplit(",", rng.randint(1, 9))[0]
    head = junk_lines(rng, rng.randint(0, 3))
    put(d, "m.tab", head, *(s + "\r\n" for s in lines))
    fmt1 = [Obj("COLUMN", [("NAME", Raw("1")), ("DATA_TYPE", Raw(
        "ASCII_INTEGER")), ("START_BYTE", 1), ("BYTES", 1)]),
        Obj("COLUMN", [("NAME", "DATE"), ("DATA_TYPE", Raw("CHARACTER")),
                       ("START_BYTE", 4), ("BYTES", 11)])]
    fmt2 = [Obj("CONTAINER", [
        ("NAME", "DATA"), ("START_BYTE", 900), ("BYTES", 100),
        ("REPETITIONS", reps),
        Obj("COLUMN", [("NAME", "PRES"), ("DATA_TYPE", Raw("ASCII_REAL")),
                       ("START_BYTE", 1), ("BYTES", 12)])])]
    p = label(rng, d, ids_(
        rng, DATA_SET_ID=rng.choice(["MRO-M-MCS-5-DDR-V6.0",
                                     "MRO-M-MCS-5-DDR-V2.1"])), [
        ("^TABLE", ("m.tab", Qty(len(head) + 1, "BYTES"))),
        Obj("TABLE", [("INTERCHANGE_FORMAT", Raw("ASCII")), ("ROWS", n),
                      ("ROW_BYTES", 1000), ("COLUMNS", 3)] + fmt1 + fmt2)])
    return p, {"TABLE": nothing() if lost else frame(
        MCS_NAMES, list(zip(*rows)))}, {"sig": (reps, cut, lost)}


@scenario("mcs-ddr-old")
def mcs_ddr_old(rng, d):
    put(d, "m.tab", junk_lines(rng, 4))
    t = Txt(rng)
    p = label(rng, d, ids_(rng, DATA_SET_ID="MRO-M-MCS-5-DDR-V1.0"), [
        ("^TABLE", "m.tab"), t.block("TABLE")])
    return p, {"TABLE": nothing()}


@scenario("crism-mrdr")
def crism_mrdr(rng, d):
    """rows are longer than the label says"""
    t = Txt(rng, sep=rng.choice([",", " "]))
    put(d, "w.tab", t.data())
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0",
        PRODUCT_ID="T0001_MRRWV_1"), [
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", t.row_bytes),
        ("^TABLE", ("w.tab", 1)), t.block("TABLE", ROW_BYTES=t.row_bytes - 2)])
    return p, {"TABLE": t.check()}


@scenario("crism-obs")
def crism_obs(rng, d):
    """missing values; columns of digits that are text"""
    strs = {0, 44, 46, 47, 48}
    t = Txt(rng, kinds=["real"] * rng.randint(49, 52), sep=",")
    cols = list(map(list, zip(*t.values)))
    lines = []
    for r, cells in enumerate(t.texts):
        cells = list(cells)
        for c in range(len(cells)):
            if c in strs:
                cells[c] = cols[c][r] = f"{rng.randint(0, 999):05d}"
            elif rng.random() < .3:
                cells[c] = rng.choice(["N/A  ", "N/A   ", "N/A" + " " * 13,
                                       "N/A" + " " * 23])
                cols[c][r] = float("nan")
        lines.append(",".join(cells) + "\r\n")
    put(d, "o.tab", *lines)
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="CRISM",
                           PRODUCT_TYPE="ANCILLARY", PRODUCT_ID="OBS_ID_1"),
              [("^TABLE", "o.tab"), t.block("TABLE")])
    return p, {"TABLE": frame(t.names, cols)}


@scenario("ccam", "apxs-ect", "apxs-header", "mag-edr", "ssi-cubes",
          "nims-qube", "buglab", "themis-geo", "vra-tnf", "virtis-history",
          "kag-pace", "kag-qa", "kag-eng")
def unsupported(rng, d):
    """objects known not to be readable are left alone; others are read"""
    ids, name = rng.choice([
        ({"INSTRUMENT_NAME": "CHEMISTRY CAMERA REMOTE MICRO-IMAGER"},
         "IMAGE_REPLY_TABLE"),
        ({"INSTRUMENT_ID": "APXS"}, "ERROR_CONTROL_TABLE"),
        ({"INSTRUMENT_ID": "APXS"}, "XRF_ERROR_CONTROL_TABLE"),
        ({"DATA_SET_ID": "MSL-M-APXS-4/5-RDR-V1.0"}, "HEADER"),
        ({"INSTRUMENT_NAME": "TRIAXIAL FLUXGATE MAGNETOMETER",
          "DATA_SET_ID": "GO-J-MAG-2-EDR-V1.0"}, "TABLE"),
        ({"DATA_SET_ID": "GO-A-SSI-3-IDA-CALIMAGES-V1.0",
          "PRODUCT_ID": "1QUB2"}, "HEADER"),
        ({"INSTRUMENT_ID": "NIMS", "SPACECRAFT_NAME": "GALILEO_ORBITER"},
         "SAMPLE_SPECTRUM_QUBE"),
        ({"DATA_SET_ID": "BUGLAB-L-BUG-4-APOLLO-SAMPLES-V1.0"}, "HEADER"),
        ({"DATA_SET_ID": "ODY-M-THM-5-VISGEO-V2.0"}, "HEADER"),
        ({"DATA_SET_ID": "ODY-M-THM-5-IRGEO-V2.0"}, "HISTORY"),
        ({"INSTRUMENT_HOST_NAME": "VENUS EXPRESS", "INSTRUMENT_ID": "VRA",
          "PRODUCT_ID": "X_1A_TNF_1"}, "TABLE"),
        ({"INSTRUMENT_HOST_NAME": "VENUS EXPRESS",
          "INSTRUMENT_ID": "VIRTIS"}, "HISTORY"),
        ({"DATA_SET_ID": "SLN-L-PACE-3-PBF1-V3.0"}, "TIME_SERIES"),
        ({"DATA_SET_ID": "SLN-L-SP-3-X-V1.0"}, "L2D_RESULT_ARRAY"),
        ({"DATA_SET_ID": "SLN-L-TC-4-DEM-ORTHO-V1.0"}, "QA_FILENAME"),
        ({"DATA_SET_ID": "SLN-L-GRS-3-ENG-SPECTRUM-V1.0"}, "TABLE"),
        ({"SPACECRAFT_NAME": "CE1"}, "IMAGE_PREFIX"),
    ])
    put(d, "u.dat", rng.randbytes(200))
    img = Img(rng)
    put(d, "i.img", img.data())
    items = [(f"^{name}", rng.choice(["u.dat", ("u.dat", 1)])),
             ("^IMAGE", "i.img"), img.block()]
    if rng.random() < .5:
        items.append(Txt(rng).block(name))
    rng.shuffle(items)
    out = {name: nothing()}
    if "vra" not in str(ids).lower() or "1A_TNF" not in str(ids):
        out["IMAGE"] = img.check()
    p = label(rng, d, ids_(rng, **ids), items)
    return p, out, {"sig": (name,)}


@scenario("themis")
def themis(rng, d):
    """files that are gzipped although not so labelled; offsets in bytes"""
    import gzip
    s, l, b = (rng.randint(2, 5) for _ in range(3))
    a = np.array([rng.randint(-999, 999) for _ in range(s * l * b)],
                 ">i2").reshape(b, l, s)
    head = decoy(rng)
    rb = rng.choice([1, 32, 100])
    in_bytes = rng.random() < .5
    if not in_bytes:
        head += rng.randbytes(-len(head) % rb)
    blob = head + a.tobytes()
    how = rng.choice(["plain", "gz", "labelled"])
    fn = "t.cub" + (".gz" if how == "labelled" else "")
    if how != "plain":
        blob = gzip.compress(blob)
    put(d, "t.cub" + ("" if how == "plain" else ".gz"), blob)
    rec = (10 ** 6 if in_bytes else 2)
    at = len(head) + 1 if in_bytes else len(head) // rb + 1
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="THEMIS"), [
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", rb),
        ("FILE_RECORDS", rec), ("^QUBE", (fn, at)),
        Obj("QUBE", [("AXES", 3), ("AXIS_NAME", Raw("(SAMPLE,LINE,BAND)")),
                     ("CORE_ITEMS", (s, l, b)), ("CORE_ITEM_BYTES", 2),
                     ("CORE_ITEM_TYPE", Raw("MSB_INTEGER")),
                     ("SUFFIX_ITEMS", (0, 0, 0)), ("SUFFIX_BYTES", 4)])])
    return p, {"QUBE": array(a)}, {"sig": (how, in_bytes)}


@scenario("clem-bsr")
def clementine(rng, d):
    """pointers that are text; a column that stands for four"""
    kind = "IEEE_REAL"
    rows = rng.randint(1, 6)
    raw, vals = encode_many(rng, kind, 8, rows * 4)
    vals = np_expected(kind, 8, vals).tolist()
    head = Txt(rng, kinds=["char", "int"], widths=[16, 13], rows=2)
    assert head.row_bytes == 32
    put(d, "b.dat", head.data(), raw)
    p = label(rng, d, ids_(rng, DATA_SET_ID="CLEM1-L-RSS-5-BSR-V1.0"), [
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", 32),
        ("^HEADER_TABLE", "(b.dat,1)"), ("^DATA_TABLE", "(b.dat,3)"),
        head.block("HEADER_TABLE"),
        Obj("DATA_TABLE", [
            ("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", rows),
            ("COLUMNS", 1), ("ROW_BYTES", 32),
            Obj("COLUMN", [("NAME", "VOLTAGE_X"), ("DATA_TYPE", Raw(kind)),
                           ("START_BYTE", 1), ("BYTES", 32), ("ITEMS", 2),
                           ("ITEM_BYTES", 16)])])])
    return p, {"HEADER_TABLE": head.check(),
               "DATA_TABLE": frame([f"VOLTAGE_{i}" for i in range(4)],
                                   [vals[i::4] for i in range(4)])}
