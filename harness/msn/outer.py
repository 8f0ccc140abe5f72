"""Voyager, Viking, Galileo, Ulysses, New Horizons, Pioneer Venus, Magellan"""
from msn.core import (WORDS, Bin, Img, Obj, Qty, Raw, Txt, array, decoy,
                      frame, ids_, int_text, junk_lines, label, nothing, put,
                      real_text, scenario, text)
from pds3w import finish_label, render


def after(rng):
    """lines that follow a table"""
    return junk_lines(rng, rng.choice([0, 0, 1, 3]))


def before(rng, name, fn):
    """lines that precede a table, and the pointer past them"""
    j = junk_lines(rng, rng.choice([0, 1, 3]))
    return j, (f"^{name}", (fn, Qty(len(j) + 1, "BYTES")) if j else fn)


def off(rng, n, lo=1, hi=9):
    """a wrong number"""
    return n + rng.choice([-1, 1]) * rng.randint(lo, hi)


@scenario("vg-mag")
def vg_mag(rng, d):
    """rows are 145 bytes long"""
    t = Txt.fit(rng, 145)
    j, ptr = before(rng, "TABLE", "M.TAB")
    put(d, "M.TAB", j, t.data(), after(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG2-N-MAG-4-RDR-HGCOORDS-9.6SEC-V1.0",
        STANDARD_DATA_PRODUCT_ID="ASCII DATA"),
        [ptr, t.block("TABLE", ROW_BYTES=144)])
    return p, {"TABLE": t.check()}


@scenario("pls-avg")
def pls_avg(rng, d):
    """the last column and the rows are one byte longer"""
    t = Txt.fit(rng, 57, kinds=["char"] + ["int"] * 8, fixed={8: 6} | {
        i: 4 for i in range(1, 8)}, adjust=0)
    bad = rng.random() < .7
    fmt = "VGR_PLS_HR_2017.FMT" if bad else "VGR_PLS_HR.FMT"
    put(d, fmt, t.fmt(over={8: {"BYTES": 5}} if bad else None))
    j, ptr = before(rng, "TABLE", "P.TAB")
    put(d, "P.TAB", j, t.data(), after(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"),
        [ptr, t.block("TABLE", columns=[], extra=[("^STRUCTURE", fmt)],
                      ROW_BYTES=56 if bad else 57)])
    return p, {"TABLE": t.check()}, {"sig": (bad,)}


@scenario("pls-fine")
def pls_fine(rng, d):
    """rows of 57 bytes are really 64 long"""
    bad = rng.random() < .7
    n = 64 if bad else rng.choice([63, 70])
    t = Txt.fit(rng, n)
    j, ptr = before(rng, "TABLE", "P.TAB")
    put(d, "P.TAB", j, t.data(), after(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG2-SS-PLS-3-RDR-FINE-RES-V1.0"),
        [ptr, t.block("TABLE", ROW_BYTES=57 if bad else n)])
    return p, {"TABLE": t.check()}, {"sig": (bad,)}


@scenario("pls-ionbr")
def pls_ionbr(rng, d):
    """the label refers to the wrong format file"""
    t, wrong = Txt(rng), Txt(rng, prefix="G")
    put(d, "SUMRY.DAT", t.data(), after(rng))
    put(d, "SUMRY.FMT", t.fmt())
    put(d, "IONBR.FMT", wrong.fmt())
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG2-U-PLS-5-SUMM-IONBR-48SEC-V1.0",
        PRODUCT_ID="SUMRY.DAT"),
        [("^TIME_SERIES", "SUMRY.DAT"),
         t.block("TIME_SERIES", columns=[],
                 extra=[("^STRUCTURE", "IONBR.FMT")])])
    return p, {"TIME_SERIES": t.check()}


@scenario("pra")
def pra(rng, d):
    """columns of 71 items of 4 bytes each"""
    n = rng.randint(1, 3)
    t = Txt(rng, kinds=["int", "int"] + ["int"] * n, widths=[6, 6] + [4] * n,
            items=[1, 1] + [71] * n, sep="",
            names=["DATE", "SECOND"] + [f"SWEEP{i + 1}" for i in range(n)])
    j, ptr = before(rng, "TABLE", "P.TAB")
    put(d, "P.TAB", j, t.data(), after(rng))
    cut = {"ITEM_BYTES": None, "ITEM_OFFSET": None, "BYTES": 4}
    p = label(rng, d, ids_(
        rng, DATA_SET_ID=f"VG2-{rng.choice('SNU')}-PRA-3-RDR-LOWBAND-6SEC-V1.0"),
        [ptr, t.block("TABLE", over={2 + i: cut for i in range(n)})])
    return p, {"TABLE": t.check()}


@scenario("pra")
def pra_jupiter(rng, d):
    """places of columns in a container"""
    reps, m = rng.choice([1, 2, 8]), rng.choice([1, 3, 70])
    t = Bin(rng, [("DATE", "MSB_INTEGER", 4, 1),
                  ("SECOND", "MSB_INTEGER", 4, 1)] + [
        c for i in range(reps) for c in (
            (f"STATUS_WORD_{i}" if reps > 1 else "STATUS_WORD",
             "MSB_INTEGER", 4, 1),
            (f"DATA_CHANNELS_{i}", "MSB_INTEGER", 2, m))])
    put(d, "P.DAT", t.data())
    cols = t.columns()[:2]
    cont = Obj("CONTAINER", [
        ("NAME", "SWEEPS"), ("START_BYTE", 9), ("BYTES", 4 + 2 * m),
        ("REPETITIONS", reps),
        Obj("COLUMN", [("NAME", "STATUS_WORD"),
                       ("DATA_TYPE", Raw("MSB_INTEGER")),
                       ("START_BYTE", rng.choice([9, 2])), ("BYTES", 4)]),
        Obj("COLUMN", [("NAME", "DATA_CHANNELS"),
                       ("DATA_TYPE", Raw("MSB_INTEGER")),
                       ("START_BYTE", rng.choice([13, 4])),
                       ("BYTES", 2 * m)]
            + ([("ITEMS", m), ("ITEM_BYTES", 2)] if m > 1 else []))])
    names = ["DATE", "SECOND"]
    if reps == 1:
        names += ["STATUS_WORD"] + (
            [f"DATA_CHANNELS_{k}" for k in range(m)] if m > 1
            else ["DATA_CHANNELS"])
    else:
        for i in range(reps):
            names += [f"STATUS_WORD_{i}"] + [
                f"DATA_CHANNELS_{i * m + k}" for k in range(m)]
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG2-J-PRA-3-RDR-LOWBAND-6SEC-V1.0"),
        [("^TABLE", "P.DAT"), t.block("TABLE", columns=cols + [cont])])
    return p, {"TABLE": frame(names, t.values)}, {"sig": (reps, m)}


@scenario("lecp-j", "lecp-u")
def lecp(rng, d):
    """cells are separated by blanks, wherever the label puts them"""
    t = Txt(rng, widths=None)
    jup = rng.random() < .5
    put(d, "L.TAB", t.loose(rng.choice([" ", "   "])))
    over = {i: {"START_BYTE": off(rng, 20, 1, 9)} for i in range(2)}
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG1-J-LECP-4-SUMM-SECTOR-15MIN-V1.1" if jup
        else "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"),
        [("^TABLE", "L.TAB"),
         t.block("TABLE", over=over if rng.random() < .6 else None)])
    return p, {"TABLE": t.check()}, {"sig": (jup,)}


@scenario("lecp-u")
def lecp_u_binary(rng, d):
    """binary tables of the same data set are as their labels say"""
    t = Bin(rng)
    put(d, "L.DAT", t.data(), decoy(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"),
        [("^TABLE", "L.DAT"), t.block("TABLE")])
    return p, {"TABLE": t.check()}


@scenario("lecp-s")
def lecp_saturn(rng, d):
    """header rows in the middle"""
    t = Txt(rng)
    body = t.loose(",").splitlines(keepends=True)
    for _ in range(rng.randint(0, 2)):
        body.insert(rng.randint(0, len(body)), rng.choice(
            ["VOYAGER 1 LECP\r\n", "VOYAGER,1\r\n"]))
    put(d, "L.TAB", ",".join(f"Name {i}" for i in t.names) + "\r\n",
        "".join(body))
    p = label(rng, d, ids_(rng, DATA_SET_ID="VG1-S-LECP-3-RDR-STEP-6MIN-V1.0"),
              [("^SPREADSHEET", "L.TAB"),
               t.block("SPREADSHEET", kind="FIELD",
                       FIELD_DELIMITER="COMMA")])
    return p, {"SPREADSHEET": t.check()}


@scenario("pps", "nh")
def file_of_same_stem(rng, d):
    """the data are in the file called like the label"""
    t = Txt(rng)
    pps = rng.random() < .5
    stem = rng.choice(["PROD", "prod_1", "X.Y"])
    ids, name, ext = (
        ({"DATA_SET_ID": "VG2-SR/UR/NR-PPS-2/4-OCC-V1.0",
          "PRODUCT_TYPE": "JITTER"}, "SERIES", "TAB") if pps else
        ({"DATA_SET_ID": rng.choice([
            "NH-P-PEPSSI-4-PLASMA-V1.0", "NH-X-SWAP-5-DERIVED-SOLARWIND-V1.0",
            "NH-P/PSA-LORRI/ALICE/REX-5-ATMOS-V1.0"])}, "SPREADSHEET", "csv"))
    if pps:
        put(d, f"{stem}.{ext}", t.data())
        b = t.block(name)
    else:
        put(d, f"{stem}.{ext}", t.loose(","))
        b = t.block(name, kind="FIELD", FIELD_DELIMITER="COMMA")
    if rng.random() < .5:
        put(d, "OTHER.TAB", Txt(rng).data())
    p = label(rng, d, ids_(rng, **ids), [
        (f"^{name}", rng.choice(["OTHER.TAB", f" {stem}.{ext}",
                                 f"{stem}.{ext}"])), b], stem=stem)
    return p, {name: t.check()}, {"sig": (pps, stem)}


@scenario("vl-seis")
def seis(rng, d):
    """labels that define columns which are not there, or miss some"""
    kind = rng.choice(["event_wind_summary", "event_winds_summary", "x_event",
                       "high_rate_1"])
    fn = kind + ".tab"
    if rng.random() < .5:
        fn = fn.upper()
    n = rng.randint(8, 10)
    t = Txt(rng, ncol=n)
    names = list(t.names)
    table = "summary" in kind
    cols = t.columns(kind="COLUMN" if table else "FIELD")
    real = list(names)
    if table:
        extra = "SEISMIC_TIME_SOLS"
    elif kind == "x_event":
        extra = "SEISMIC_SOL"
    else:
        extra = None
    if kind == "event_wind_summary":
        del cols[7]
        real[7] = "ORIGINAL_LINES_COUNT"
    if extra:
        at = rng.randint(0, 6)
        cols.insert(at, Obj("COLUMN" if table else "FIELD", [
            ("NAME", extra), ("DATA_TYPE", Raw("ASCII_REAL"))]
            + ([("START_BYTE", 3)] if table else []) + [("BYTES", 4)]))
    name = "TABLE" if table else "SPREADSHEET"
    put(d, fn, t.loose("  " if table else ","))
    p = label(rng, d, ids_(rng, DATA_SET_ID="VL2-M-SEIS-5-RDR-V1.0"), [
        (f"^{name}", fn), t.block(
            name, columns=cols, kind="COLUMN" if table else "FIELD",
            **({} if table else {"FIELD_DELIMITER": "COMMA"}))])
    return p, {name: t.check(real)}, {"sig": (kind,)}


@scenario("gp")
def galileo_probe(rng, d):
    """lengths of single columns"""
    kind = rng.choice(["counts", "hk", "other"])
    # (columns may stand right next to each other)
    sep = rng.choice([" ", ""])
    if kind == "counts":
        t = Txt(rng, kinds=["int", "int", "real"], widths=[5, 8, 9],
                names=["TIME", "COUNTS", "X"], sep=sep)
        # values that need all of the width
        over = {1: {"BYTES": rng.choice([6, 7])}}
    elif kind == "hk":
        t = Txt(rng, kinds=["int"] * 7, widths=[3, 4, 3, 2, 3, 2, 3], sep=sep)
        over = {1: {"BYTES": 3}, 3: {"BYTES": 1}, 5: {"BYTES": 1}}
    else:
        t, over = Txt(rng), None
    put(d, "HK.TAB", t.data(), after(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID=f"GP-J-{rng.choice(['NMS', 'ASI'])}-3-ENTRY-V1.0",
        PRODUCT_ID="HK01AD.TAB" if kind == "hk" else "HK02AD.TAB"),
        [("^TABLE", "HK.TAB"), t.block("TABLE", over=over)])
    return p, {"TABLE": t.check()}, {"sig": (kind,)}


@scenario("epd-pad")
def epd_pad(rng, d):
    """each row begins with a byte more"""
    t = Txt(rng, ncol=9, lead=1)
    put(d, "E1PAD_7.TAB", t.data(), after(rng))
    p = label(rng, d, ids_(rng, DATA_SET_ID="GO-E-EPD-2-SAMP-PAD-V1.0",
                           PRODUCT_ID="E1PAD_7.TAB"),
              [("^TIME_SERIES", "E1PAD_7.TAB"),
               t.block("TIME_SERIES", over={
                   i: {"START_BYTE": s} for i, s in enumerate(t.starts)})])
    return p, {"TIME_SERIES": t.check()}


@scenario("epd-summ", "pws-summ")
def galileo_summ(rng, d):
    """lengths of rows"""
    kind = rng.choice(["epd", "B", "E", "A"])
    n = {"epd": rng.randint(60, 120), "B": 366, "E": 516,
         "A": rng.randint(60, 120)}[kind]
    t = Txt.fit(rng, n, ncol=rng.randint(5, 8))
    name = "TIME_SERIES" if kind == "epd" else rng.choice(
        ["TIME_SERIES", "TABLE"])
    ids = ({"DATA_SET_ID": "GO-E-EPD-4-SUMM-V1.0", "PRODUCT_ID": "E1_X.TAB"}
           if kind == "epd" else
           {"DATA_SET_ID": "GO-J-PWS-4-SUMM-SA60S-V1.0",
            "INSTRUMENT_NAME": "PLASMA WAVE RECEIVER",
            "PRODUCT_ID": f"P01{kind}.TAB"})
    put(d, "X.TAB", t.data(), after(rng))
    p = label(rng, d, ids_(rng, **ids), [
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", n),
        (f"^{name}", ("X.TAB", 1)),
        t.block(name, ROW_BYTES=90 if kind == "epd" else
                n - rng.choice([0, 2]) if kind != "A" else n)])
    return p, {name: t.check()}, {"sig": (kind,)}


@scenario("pws-density")
def pws_density(rng, d):
    """two lines of headers, and semicolons"""
    t = Txt(rng)
    put(d, "D.TAB", "Density of the plasma\r\n",
        ";".join(f"Name {i}" for i in t.names) + "\r\n", t.loose(";"))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="GO-J-PWS-5-DDR-PLASMA-DENSITY-FULL-V1.0"),
        [("^SPREADSHEET", "D.TAB"),
         t.block("SPREADSHEET", kind="FIELD", FIELD_DELIMITER="SEMICOLON")])
    return p, {"SPREADSHEET": t.check()}


@scenario("mgn-geom", "nims-sl9")
def null_bytes(rng, d):
    """null bytes between rows"""
    t = Txt(rng, ncol=rng.randint(2, 5))
    mgn = rng.random() < .5
    ids = ({"SPACECRAFT_NAME": "MAGELLAN",
            "NOTE": rng.choice(["Geometry", "Geometry table for orbit 1"])}
           if mgn else
           {"DATA_SET_ID": "GO-J-NIMS-4-ADR-SL9IMPACT-V1.0",
            "PRODUCT_ID": rng.choice(["CAL_DATA.TAB", "G_DATA.TAB",
                                      "R_DATA.TAB"])})
    put(d, "G.TAB", "".join(
        ",".join(r) + "\r\n" + "\0" * rng.choice([0, 1, 5])
        for r in t.texts))
    p = label(rng, d, ids_(rng, **ids), [("^TABLE", "G.TAB"),
                                         t.block("TABLE")])
    return p, {"TABLE": t.check()}, {"sig": (mgn,)}


@scenario("mgn-occ")
def mgn_occultation(rng, d):
    """line ends in the middle of rows that lack one"""
    t = Txt(rng, kinds=["real"] * rng.randint(3, 5), eol="\n", rows=rng.choice(
        [2, 5, 9]))
    out = ""
    for line in t.lines():
        if rng.random() < .4:
            # the newline is between two columns, not at the end, and the row
            # is a byte longer
            at = rng.choice(t.starts[1:])
            out += line[:at] + "\n" + line[at:] + "\n"
        else:
            out += line + "\n"
    put(d, "O.TAB", out)
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="MGN-V-RSS-5-OCC-PROF-ABS-V1.0"), [
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", t.row_bytes),
        ("FILE_RECORDS", t.rows), ("^TABLE", "O.TAB"), t.block("TABLE")])
    return p, {"TABLE": t.check()}


@scenario("mgn-img")
def mgn_img(rng, d):
    """tables in image files are not read"""
    img = Img(rng)
    fn = rng.choice(["F.img", "F.ibg"])
    t = Txt(rng)
    put(d, fn, img.data(), t.data())
    p = label(rng, d, ids_(rng, SPACECRAFT_NAME="MAGELLAN"), [
        ("^IMAGE", fn), ("^TABLE", (fn, Qty(len(img.data()) + 1, "BYTES"))),
        img.block(), t.block("TABLE")], stem="F")
    # opened by way of the label, the table is an ordinary one
    by_label = rng.random() < .4
    if by_label:
        return p, {"IMAGE": img.check(), "TABLE": t.check()}, {
            "sig": (True,), "scaled": ["IMAGE"]}
    p = d / fn
    return p, {"IMAGE": img.check(), "TABLE": nothing()}, {"scaled": ["IMAGE"]}


@scenario("gvanf")
def gvanf(rng, d):
    """columns of no type"""
    t = Bin(rng, [("A", "MSB_INTEGER", rng.choice([2, 4]), 1),
                  ("PAD", "MSB_UNSIGNED_INTEGER", 1, rng.choice([1, 3])),
                  ("B", "IEEE_REAL", 4, 1)])
    put(d, "G.DAT", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="MGN-V-RDRS-5-GVDR-V1.0",
                           PRODUCT_ID="GVANF.1"), [
        ("^TABLE", "G.DAT"),
        t.block("TABLE", over={1: {"DATA_TYPE": "N/A"}})])
    return p, {"TABLE": t.check()}


@scenario("orpa", "oims")
def pvo(rng, d):
    orpa = rng.random() < .5
    n = 243 if orpa else rng.randint(50, 90)
    t = Txt.fit(rng, n, ncol=6)
    put(d, "O.TAB", t.data(), after(rng) if orpa else "")
    ids = ({"DATA_SET_ID": "PVO-V-ORPA-5-ELE/ION/PHOTO/UADS-V1.0",
            "PRODUCT_ID": "ORPA_LOW_RES_0100.TAB"} if orpa else
           {"DATA_SET_ID": "PVO-V-OIMS-4-IONDENSITY-12S-V1.0"})
    p = label(rng, d, ids_(rng, **ids), [
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", n),
        ("FILE_RECORDS", t.rows), ("^TABLE", ("O.TAB", 1)),
        t.block("TABLE", **({"ROW_BYTES": rng.choice([241, 243])} if orpa
                            else {"ROWS": rng.choice([42, 1, 3])}))])
    return p, {"TABLE": t.check()}, {"sig": (orpa,)}


@scenario("nims-edr", "epac-bin")
def bit_strings(rng, d):
    """bit strings of an order that the label leaves open"""
    nims = rng.random() < .5
    w = rng.choice([1, 2, 4]) if nims else rng.choice([1, 2, 4])
    t = Bin(rng, [("A", "MSB_INTEGER", 2, 1), ("TEXT", "CHARACTER", 4, 1),
                  ("FLAG", "RAW", w, 1)])
    put(d, "N.DAT", t.data())
    n = rng.randint(1, 8 * w - 1)
    order = "little" if nims else "big"
    words = [f"{int.from_bytes(v, order):0{8 * w}b}" for v in t.values[2]]
    both = [[x[:n], x[n:]] for x in words]
    cols = t.columns({1: {"DATA_TYPE": "N/A"}} if nims else None)
    cols[2] = Obj("COLUMN", [
        ("NAME", "FLAG"), ("DATA_TYPE", Raw("BIT_STRING")),
        ("START_BYTE", t.starts[2] + 1), ("BYTES", w),
        Obj("BIT_COLUMN", [("NAME", "A"), ("START_BIT", 1), ("BITS", n)]),
        Obj("BIT_COLUMN", [("NAME", "B"), ("START_BIT", n + 1),
                           ("BITS", 8 * w - n)])])
    exp = t.values[:2]

    def verify(got, mon, where):
        frame(["A", "TEXT"], exp)(got[["A", "TEXT"]], mon, where)
        mon.check(list(got.columns) == ["A", "TEXT", "FLAG"],
                  lambda: f"{where}: {list(got.columns)}", "names")
        g = [list(x) for x in got["FLAG"]]
        mon.check(g == both, lambda: f"{where}: {g} not {both}", "bits")
        mon.saw("bit_columns")
    ids = ({"SPACECRAFT_NAME": "GALILEO_ORBITER",
            "DATA_SET_ID": "GO-J-NIMS-2-EDR-V1.0"} if nims else
           {"DATA_SET_ID": "ULY-J-EPAC-4-SUMM-PHA-24HR-V1.0",
            "PRODUCT_ID": rng.choice(["PHA92.BIN", "BIN"])})
    p = label(rng, d, ids_(rng, **ids), [
        ("^TABLE", "N.DAT"), t.block("TABLE", columns=cols)])
    return p, {"TABLE": verify}, {"sig": (nims, w, n)}


@scenario("epac")
def epac(rng, d):
    """places of repeated columns in a container"""
    reps = rng.choice([2, 3, 8])
    m = rng.choice([2, 4])
    t = Txt(rng, kinds=["char", "int"] + ["real"] * reps,
            widths=[10, 5] + [12] * reps, items=[1, 1] + [m] * reps)
    put(d, "E.TAB", t.data())
    inner = Obj("COLUMN", [
        ("NAME", "FLUX"), ("DATA_TYPE", Raw("ASCII_REAL")),
        ("START_BYTE", rng.choice([18, 3])), ("BYTES", 13 * m - 1),
        ("ITEMS", m), ("ITEM_BYTES", 12)])
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="ULY-J-EPAC-4-SUMM-PSTL-V1.0"), [
        ("^TABLE", "E.TAB"), t.block(
            "TABLE", columns=t.columns()[:2] + [Obj("CONTAINER", [
                ("NAME", "SECTORS"), ("START_BYTE", t.starts[2] + 1),
                ("BYTES", 13 * m), ("REPETITIONS", reps), inner])])])
    return p, {"TABLE": frame(
        t.names[:2] + [f"FLUX_{i}" for i in range(reps * m)],
        list(zip(*t.values)))}, {"sig": (reps, m)}


@scenario("epac")
def epac_channels(rng, d):
    """containers in containers"""
    r1, r2, r3 = rng.choice([2, 3]), rng.choice([2, 3]), rng.choice([2, 4])
    n = r1 + r2 * r3
    t = Txt(rng, kinds=["char"] + ["real"] * n, widths=[10] + [9] * n)
    put(d, "E.TAB", t.data())

    def col(name):
        return Obj("COLUMN", [("NAME", name), ("DATA_TYPE", Raw("ASCII_REAL")),
                              ("START_BYTE", rng.choice([12, 5])),
                              ("BYTES", 9)])
    a = Obj("CONTAINER", [("NAME", "ONE"), ("START_BYTE", 12), ("BYTES", 10),
                          ("REPETITIONS", r1), col("OMNI")])
    b = Obj("CONTAINER", [
        ("NAME", "TWO"), ("START_BYTE", 12 + 10 * r1), ("BYTES", 10 * r3),
        ("REPETITIONS", r2), Obj("CONTAINER", [
            ("NAME", "THREE"), ("START_BYTE", rng.choice([33, 2])),
            ("BYTES", 10), ("REPETITIONS", r3), col("SECT")])])
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="ULY-J-EPAC-4-SUMM-ALL-CHAN-1HR-V1.0"), [
        ("^TABLE", "E.TAB"),
        t.block("TABLE", columns=t.columns({0: {"BYTES": 11}})[:1]
                + [a, b])])
    return p, {"TABLE": frame(
        t.names[:1] + [f"OMNI_{i}" for i in range(r1)]
        + [f"SECT_{i}" for i in range(r2 * r3)],
        list(zip(*t.values)))}, {"sig": (r1, r2, r3)}


@scenario("uly-gas")
def gas(rng, d):
    """17 lines of header, then cells separated by blanks or tabs"""
    bad = rng.random() < .7
    reps = rng.choice([2, 5])
    t = Txt(rng, kinds=["int"] + ["real"] * reps, widths=[5] + [9] * reps)
    head = junk_lines(rng, 17)
    fmt = "GASDATA.FMT" if bad else "GASDAT.FMT"
    put(d, "G.TAB", head, t.loose(rng.choice([" ", "\t", "   "])) if bad
        else t.data())
    w = rng.choice([3, 20]) if bad else 1
    cols = t.columns({0: {"BYTES": 6}})[:1] + [Obj("CONTAINER", [
        ("NAME", "MAP"), ("START_BYTE", 7), ("BYTES", 10),
        ("REPETITIONS", reps), Obj("COLUMN", [
            ("NAME", "COUNTS"), ("DATA_TYPE", Raw("ASCII_REAL")),
            ("START_BYTE", w), ("BYTES", 9)])])]
    put(d, fmt, finish_label(render(cols) + ["END"]))
    p = label(rng, d, ids_(rng, DATA_SET_ID="ULY-J-GAS-5-SKY-MAPS-V1.0"), [
        ("^TABLE", ("G.TAB", Qty(len(head) + 1, "BYTES"))),
        t.block("TABLE", columns=[], extra=[("^STRUCTURE", fmt)])])
    return p, {"TABLE": frame(
        t.names[:1] + [f"COUNTS_{i}" for i in range(reps)],
        list(zip(*t.values)))}, {"sig": (bad, reps)}


@scenario("go-ssi")
def ssi(rng, d):
    """format files that give the size of an item as that of the column"""
    m = rng.choice([2, 3, 5])
    t = Bin(rng, [("A", "MSB_INTEGER", 2, 1),
                  ("ROW", "MSB_UNSIGNED_INTEGER", rng.choice([1, 2, 4]), m),
                  ("RATIO", "CHARACTER", 6, 1),
                  ("LAST", "MSB_UNSIGNED_INTEGER", 2, rng.choice([1, 3]))])
    over = {i: {"BYTES": t.cols[i][2], "ITEM_BYTES": None} for i in (1, 3)}
    put(d, "S.DAT", t.data())
    put(d, "TLM.FMT", t.fmt(over))
    p = label(rng, d, ids_(
        rng, SPACECRAFT_NAME="GALILEO ORBITER", INSTRUMENT_NAME=rng.choice(
            ["SOLID_STATE_IMAGING", "SOLID STATE IMAGING SYSTEM"])), [
        ("^TELEMETRY_TABLE", "S.DAT"),
        t.block("TELEMETRY_TABLE", columns=[],
                extra=[("^STRUCTURE", "TLM.FMT")])])
    return p, {"TELEMETRY_TABLE": t.check()}, {"sig": (m,)}


@scenario("go-ssi")
def ssi_prefix(rng, d):
    """a number as text in a binary table; tables between the lines"""
    img = Img(rng, "MSB_UNSIGNED_INTEGER", rng.choice([1, 2]))
    line = img.samples * img.exp.itemsize
    t = Bin(rng, [("A", "MSB_INTEGER", 2, 1),
                  ("COMPRESSION_RATIO", "CHARACTER", 6, 1),
                  ("ROW", "MSB_UNSIGNED_INTEGER", 1, rng.choice([2, 4]))],
            rows=img.lines)
    for r in range(t.rows):
        v = f"{rng.uniform(0, 99):.2f}"
        t.raw[r][2:8] = v.rjust(6).encode()
        t.values[1][r] = v
    over = {1: {"DATA_TYPE": Raw("ASCII_REAL")}}
    if t.cols[2][3] > 1:
        over[2] = {"BYTES": 1, "ITEM_BYTES": None}
    put(d, "S.IMG", b"".join(
        bytes(t.raw[i]) + img.raw[i * line:(i + 1) * line]
        for i in range(img.lines)))
    p = label(rng, d, ids_(
        rng, SPACECRAFT_NAME="GALILEO ORBITER",
        INSTRUMENT_NAME="SOLID STATE IMAGING SYSTEM"), [
        ("^LINE_PREFIX_TABLE", "S.IMG"), ("^IMAGE", "S.IMG"),
        t.block("LINE_PREFIX_TABLE", over=over, ROW_SUFFIX_BYTES=line),
        img.block("IMAGE", LINE_PREFIX_BYTES=t.row_bytes)])
    return p, {"LINE_PREFIX_TABLE": t.check(), "IMAGE": img.check()}, {
        "scaled": ["IMAGE"]}
