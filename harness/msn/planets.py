"""Phoenix, Rosetta, Mars/Venus Express, Vega, IHW, MGS, Juno and others"""
import re

from msn.core import (WORDS, Bin, Img, Obj, Qty, Raw, Txt, array, decoy,
                      frame, ids_, int_text, junk_lines, label, nothing, put,
                      real_text, scenario, text)
from msn.outer import after, before, off
from pds3w import finish_label, render


def fixed(n):
    return [("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", n)]


def numbered(t, over=None):
    """columns with numbers"""
    o = {i: {"COLUMN_NUMBER": i + 1} | (over or {}).get(i, {})
         for i in range(len(t.columns()))}
    return o


# --- Phoenix ---------------------------------------------------------------

@scenario("phxao")
def phxao(rng, d):
    """headers that lost blanks at the ends of their lines"""
    t = Txt(rng)
    n = rng.randint(1, 4)
    head = junk_lines(rng, n)
    put(d, "A.TAB", head, t.data())
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="PHX-M-SSI-5-ATMOS-OPACITY-V1.0"),
        fixed(t.row_bytes) + [
        ("^HEADER", ("A.TAB", 1)), ("^TABLE", ("A.TAB", n + 1)),
        Obj("HEADER", [("HEADER_TYPE", "TEXT"), ("INTERCHANGE_FORMAT",
                                                 Raw("ASCII")),
                       ("BYTES", n * t.row_bytes), ("RECORDS", n)]),
        t.block("TABLE")])
    return p, {"TABLE": t.check(), "HEADER": text(head)}


@scenario("wcl-rdr")
def wcl_rdr(rng, d):
    """pointers that count bytes but do not say so"""
    head, t = Txt(rng, prefix="H"), Txt(rng)
    put(d, "W.TAB", head.data(), t.data())
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="PHX-M-MECA-4-NIRDR-V1.0",
        PRODUCT_TYPE=rng.choice(["MECA_WCL_CP", "MECA_WCL_CV"])),
        fixed(rng.choice([80, t.row_bytes])) + [
        ("^HEADER_TABLE", ("W.TAB", 1)),
        ("^WCL_TABLE", ("W.TAB", len(head.data()) + 1)),
        head.block("HEADER_TABLE"), t.block("WCL_TABLE")])
    return p, {"HEADER_TABLE": head.check(), "WCL_TABLE": t.check()}


@scenario("afm")
def afm(rng, d):
    """
    four tables of 512 lines after four lines of header; names in lower case
    """
    head = Txt(rng, rows=4, sep=",", names=[
        rng.choice(["fStep", "sName", "nPts", "X_POS", "Y_POS"]) + str(i)
        for i in range(rng.randint(2, 6))])
    names = ["AFM_F_ERROR_TABLE", "AFM_F_HEIGHT_TABLE", "AFM_B_ERROR_TABLE",
             "AFM_B_HEIGHT_TABLE"]
    n = rng.randint(1, 4)
    ts = {x: Txt(rng, rows=512, kinds=["int", "real"] * rng.randint(1, 2),
                 sep=",", prefix=x[4] + x[6]) for x in names[:n]}
    put(d, "A.TAB", head.loose(","), *(t.loose(",") for t in ts.values()))
    items = [("^AFM_HEADER_TABLE", "A.TAB"), head.block(
        "AFM_HEADER_TABLE", over=numbered(head))]
    at = 5
    for x, t in ts.items():
        items += [(f"^{x}", ("A.TAB", at)),
                  t.block(x, over={0: {"BYTES": 4}})]
        at += 512
    p = label(rng, d, ids_(rng, DATA_SET_ID="PHX-M-MECA-4-NIRDR-V1.0",
                           INSTRUMENT_ID="MECA_AFM"),
              fixed(80) + items)
    # unquoted names in lower case, after the numbers of the columns
    text = re.sub(rb'( *)NAME +=( )"([fsn][A-Z]\w+)"\r\n((?: +[A-Z_]+ +=.*\r\n)*)'
                  rb'( +COLUMN_NUMBER.*\r\n)', rb"\5\1NAME = \3\r\n\4",
                  p.read_bytes())
    p.write_bytes(text)
    return p, {"AFM_HEADER_TABLE": head.check()} | {
        x: t.check() for x, t in ts.items()}, {"sig": (n,)}


@scenario("em6")
def em6(rng, d):
    """format file that counts from the start of the table"""
    n = rng.randint(2, 5)
    a = [("HEAD", "MSB_UNSIGNED_INTEGER", 4, 1),
         ("TEXT", "CHARACTER", 32, 1)]
    b = [(f"S{i}", rng.choice(["MSB_UNSIGNED_INTEGER", "MSB_INTEGER"]),
          rng.choice([1, 2, 4]), 1) for i in range(n)]
    t = Bin(rng, a + b, gaps=[0, 0] + [
        rng.choice([0, 0, 1, 3]) for _ in range(n - 1)] + [0])
    bad = rng.random() < .7
    fmt = "TBL_0_STATE_DATA.FMT" if bad else "TBL_1_STATE_DATA.FMT"
    cols = t.columns({i: {"START_BYTE": t.starts[i] + 1 - 36}
                      for i in range(2, n + 2)} if not bad else None)
    put(d, fmt, finish_label(render(cols[2:]) + ["END"]))
    put(d, "T.DAT", t.data())
    cont = Obj("CONTAINER", [
        ("NAME", "TBL0 DATA"), ("START_BYTE", 37),
        ("BYTES", t.row_bytes - 36), ("REPETITIONS", 1),
        ("^STRUCTURE", fmt)])
    p = label(rng, d, ids_(rng, DATA_SET_ID="PHX-M-MECA-2-NIEDR-V1.0"), [
        ("^TBL_TABLE", "T.DAT"),
        t.block("TBL_TABLE", columns=cols[:2] + [cont])])
    return p, {"TBL_TABLE": t.check()}, {"sig": (bad,)}


@scenario("led")
def led(rng, d):
    """1000 records, not 1010"""
    bad = rng.random() < .7
    reps = 1000 if bad else 10
    head = [(f"H{i}", "MSB_UNSIGNED_INTEGER", 4, 1) for i in range(5)]
    rec = [("A", "MSB_UNSIGNED_INTEGER", 2, 1), ("B", "MSB_INTEGER", 1, 1),
           ("C", "MSB_UNSIGNED_INTEGER", 4, 1)]
    gaps = [rng.choice([0, 0, 2]) for _ in range(4)] + [0]
    t = Bin(rng, head + rec * reps, rows=rng.randint(1, 2),
            gaps=gaps + [0] * (3 * reps))
    fmt = "TEGA_LED.FMT" if bad else "TEGA_LEDX.FMT"
    cols = t.columns()[:5]
    inner = Bin(rng, rec, rows=1).columns()
    put(d, fmt, finish_label(render(cols + [Obj("CONTAINER", [
        ("NAME", "LED_RECORDS"), ("START_BYTE", 21 + sum(gaps)), ("BYTES", 7),
        ("REPETITIONS", 1010 if bad else 10)] + inner)]) + ["END"]))
    put(d, "L.DAT", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="PHX-M-TEGA-2-LEDEDR-V1.0"), [
        ("^TIME_SERIES", "L.DAT"),
        t.block("TIME_SERIES", columns=[], extra=[("^STRUCTURE", fmt)])])
    names = [f"H{i}" for i in range(5)] + [
        f"{x}_{i}" for i in range(reps) for x in "ABC"]
    return p, {"TIME_SERIES": frame(names, t.values)}, {"sig": (bad,)}


@scenario("scrdr")
def scrdr(rng, d):
    """a column is 8 bytes long and the ones after it follow it"""
    bad = rng.random() < .7
    n = rng.randint(1, 4)
    t = Bin(rng, [("PHX_TIME", "MSB_UNSIGNED_INTEGER", 4, 1),
                  ("TEGA_TIME", "IEEE_REAL", 8, 1)] + [
        (f"C{i}", rng.choice(["IEEE_REAL", "MSB_INTEGER"]), 4, 1)
        for i in range(n)], gaps=[0] + [
            rng.choice([0, 0, 1, 4]) for _ in range(n)] + [0])
    fmt = "TEGA_SCRDR.FMT" if bad else "TEGA_SCRDR2.FMT"
    over = {1: {"BYTES": 4}} | {
        i: {"START_BYTE": t.starts[i] + 1 - 4} for i in range(2, n + 2)}
    put(d, fmt, t.fmt(numbered(t, over if bad else None)))
    put(d, "S.DAT", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="PHX-M-TEGA-4-SCRDR-V1.0"), [
        ("^TIME_SERIES", "S.DAT"),
        t.block("TIME_SERIES", columns=[], extra=[("^STRUCTURE", fmt)])])
    return p, {"TIME_SERIES": t.check()}, {"sig": (bad,)}


@scenario("wcl-edr")
def wcl_edr(rng, d):
    """columns 13 and 14 start earlier than labelled"""
    bad = rng.random() < .7
    t = Bin(rng, [(f"C{i}", "MSB_INTEGER", rng.choice([1, 2, 4]), 1)
                  for i in range(14)])
    over = {12: {"START_BYTE": t.starts[12] + 2},
            13: {"START_BYTE": t.starts[13] + 3}} if bad else None
    put(d, "W.DAT", t.data())
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="PHX-M-MECA-2-NIEDR-V1.0",
        PRODUCT_TYPE=f"MECA-EM1{rng.choice('012')}" if bad
        else rng.choice(["MECA-EM8", "MECA-EM15"])), [
        ("^WCHEM_TABLE", "W.DAT"),
        t.block("WCHEM_TABLE", over=numbered(t, over))])
    return p, {"WCHEM_TABLE": t.check()}, {"sig": (bad,)}


# --- Rosetta ---------------------------------------------------------------

@scenario("rpc-mip")
def rpc_mip(rng, d):
    t = Txt(rng, kinds=["int"] + ["real"] * rng.randint(1, 4))
    put(d, "M.TAB", t.loose(rng.choice([" ", "   "])))
    p = label(rng, d, ids_(
        rng, INSTRUMENT_NAME="ROSETTA PLASMA CONSORTIUM - MUTUAL IMPEDANCE "
                             "PROBE"), [
        ("^SPECTRUM_TABLE", "M.TAB"), t.block("SPECTRUM_TABLE")])
    return p, {"SPECTRUM_TABLE": t.check()}


@scenario("midas-sps")
def midas_sps(rng, d):
    """repeated columns, and a checksum after them"""
    reps = rng.randint(2, 6)
    rec = [(x, rng.choice(["MSB_INTEGER", "MSB_UNSIGNED_INTEGER"]), 2, 1)
           for x in ("AC", "DC", "PH", "ZP")]
    t = Bin(rng, rec * reps + [("CHECKSUM", "MSB_UNSIGNED_INTEGER", 2, 1)],
            lead=46)
    put(d, "M.DAT", t.data())
    inner = Bin(rng, rec, rows=1).columns()
    body = t.row_bytes - 46
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="RO-C-MIDAS-3-PRL-SAMPLES-V3.0",
        PRODUCT_ID="SPS_1407500_1408300_001_ZS"), [
        ("^TIME_SERIES", "M.DAT"),
        t.block("TIME_SERIES", NAME="CONTROL_DATA", ROW_BYTES=body,
                ROW_PREFIX_BYTES=46, columns=[
                    Obj("CONTAINER", [
                        ("NAME", "CONTROL_DATA_POINT"), ("START_BYTE", 1),
                        ("BYTES", 8), ("REPETITIONS", reps)] + inner),
                    Obj("COLUMN", [("NAME", "CHECKSUM"), (
                        "DATA_TYPE", Raw("MSB_UNSIGNED_INTEGER")),
                        ("START_BYTE", body - 1), ("BYTES", 2)])])])
    names = [f"{x[0]}_{i}" for i in range(reps) for x in rec] + ["CHECKSUM"]
    return p, {"TIME_SERIES": frame(names, t.values)}, {"sig": (reps,)}


@scenario("midas-fsc", "consert")
def prefixed_items(rng, d):
    """bytes before and after a column of items"""
    midas = rng.random() < .5
    pre, suf = rng.choice([2, 46, 104]), rng.choice([2, 1, 10])
    n = rng.randint(2, 9)
    typ = rng.choice(["MSB_INTEGER", "IEEE_REAL", "MSB_UNSIGNED_INTEGER"])
    t = Bin(rng, [("ITEM", typ, rng.choice([4, 2] if typ[0] == "M" else [4]),
                   n)], lead=pre, tail=suf)
    put(d, "F.DAT", t.data())
    name = "FREQUENCY_SERIES" if midas else rng.choice(["I_TABLE", "Q_TABLE"])
    ids = ({"DATA_SET_ID": "RO-C-MIDAS-3-PRL-SAMPLES-V3.0",
            "PRODUCT_ID": "FSC_1407500_001"} if midas else
           {"DATA_SET_NAME": "ROSETTA-ORBITER 67P CONSERT 2/3/4 V1.0"})
    p = label(rng, d, ids_(rng, **ids), [
        (f"^{name}", "F.DAT"),
        t.block(name, over={0: {"START_BYTE": 1}},
                ROW_BYTES=t.row_bytes - pre - suf, ROW_PREFIX_BYTES=pre,
                ROW_SUFFIX_BYTES=suf)])
    return p, {name: t.check()}, {"sig": (midas, pre, suf)}


# --- Mars Express, Venus Express -------------------------------------------

@scenario("marsis")
def marsis(rng, d):
    """rows of 143 bytes"""
    t = Txt.fit(rng, 143, ncol=8)
    put(d, "M.TAB", t.data(), after(rng))
    p = label(rng, d, ids_(
        rng, INSTRUMENT_ID="MARSIS",
        DATA_SET_NAME="MARS EXPRESS MARSIS TEC EXTENDED V1.0"),
        fixed(143) + [
        ("FILE_RECORDS", t.rows), ("^TABLE", "M.TAB"),
        t.block("TABLE", ROW_BYTES=rng.choice([141, 143, 145]),
                ROWS=rng.choice([t.rows, 1]))])
    return p, {"TABLE": t.check()}


@scenario("aspera-ima")
def aspera_ima(rng, d):
    """rows of two kinds, one with a comma too many"""
    n = rng.randint(3, 8)
    rows, lines = [], []
    for _ in range(rng.randint(2, 7)):
        sensor = not rows or rng.random() < .5
        name = "SENSOR" if sensor else "MODE"
        a, b = int_text(rng, 6)
        vals = [int_text(rng, 5) for _ in range(n if sensor else 1)]
        lines.append(",".join([name, a] + [v[0] for v in vals])
                     + ("" if sensor else "," * n) + "\r\n")
        rows.append([name, b] + [v[1] for v in vals]
                    + ([] if sensor else [float("nan")] * (n - 1)))
    put(d, "I.CSV", "".join(lines))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="MEX-M-ASPERA3-2-EDR-IMA-EXT1-V1.0"), [
        ("^SPREADSHEET", "I.CSV"), Obj("SPREADSHEET", [
            ("ROWS", len(rows)), ("ROW_BYTES", 60), ("FIELDS", 3),
            ("FIELD_DELIMITER", "COMMA"),
            Obj("FIELD", [("NAME", "NAME"), ("DATA_TYPE", Raw("CHARACTER")),
                          ("BYTES", 8)]),
            Obj("FIELD", [("NAME", "INDEX"),
                          ("DATA_TYPE", Raw("ASCII_INTEGER")), ("BYTES", 6)]),
            Obj("FIELD", [("NAME", "VALUES"),
                          ("DATA_TYPE", Raw("ASCII_REAL")),
                          ("BYTES", 6 * n), ("ITEMS", n),
                          ("ITEM_BYTES", 5)])])])
    return p, {"SPREADSHEET": frame(
        ["NAME", "INDEX"] + [f"VALUES_{i}" for i in range(n)],
        list(zip(*rows)))}


@scenario("swm")
def swm(rng, d):
    """lengths of two columns"""
    t = Txt(rng, kinds=["char", "int", "real", "real"]
            + ["real"] * rng.randint(0, 2), widths=None)
    t = Txt(rng, kinds=t.kinds, widths=[10, 5, 12, 12] + [9] * (
        len(t.kinds) - 4))
    put(d, "S.TAB", t.data(), after(rng))
    p = label(rng, d, ids_(rng, DATA_SET_ID="MEX-SUN-ASPERA3-4-SWM-V1.0"), [
        ("^TABLE", "S.TAB"), t.block("TABLE", over={
            2: {"BYTES": rng.choice([10, 13])},
            3: {"BYTES": rng.choice([6, 11])}})])
    return p, {"TABLE": t.check()}


@scenario("mrs-atm", "mrs-icl", "mrs-l02", "ebrocc")
def longer_rows(rng, d):
    """rows that are longer than the label says"""
    kind = rng.choice(["atm", "icl", "l02", "ebrocc"])
    n = 278 if kind == "atm" else rng.randint(50, 99)
    t = Txt.fit(rng, n, ncol=8)
    j, _ = before(rng, "X", "x")
    mrs = {"INSTRUMENT_HOST_NAME": "MARS EXPRESS", "INSTRUMENT_ID": "MRS"}
    name, less, ids = {
        "atm": ("ATM_TABLE", 2, {"DATA_SET_ID": "MEX-M-MRS-5-OCC-V1.0"}),
        "icl": ("DOPPLER_TABLE", 1, mrs | {
            "PRODUCT_ID": "M32ICL0L1B_D1X_1.TAB"}),
        "l02": ("RANGING_TABLE", 1, mrs | {
            "PRODUCT_ID": "M32ODF0L02_RGX_1.TAB"}),
        "ebrocc": ("SERIES", 2, {
            "DATA_SET_ID": rng.choice([
                "ESO1M-SR-APPH-4-OCC-V1.0", "ESO22M-SR-APPH-4-OCC-V1.0",
                "IRTF-SR-URAC-4-OCC-V1.0", "PAL200-SR-CIRC-4-OCC-V1.0",
                "MCD27M-SR-IIRAR-4-OCC-V1.0"]),
            "PRODUCT_ID": "ES1_EGEOM.TAB"})}[kind]
    put(d, "R.TAB", j, t.data(), after(rng))
    p = label(rng, d, ids_(rng, **ids), [
        (f"^{name}", ("R.TAB", Qty(len(j) + 1, "BYTES"))),
        t.block(name, ROW_BYTES=n - less)])
    return p, {name: t.check()}, {"sig": (kind,)}


@scenario("mrs-odf", "irfcurv", "grs-elements")
def by_blanks(rng, d):
    """cells are separated by blanks, wherever the label puts them"""
    kind = rng.choice(["odf", "rmp", "irf", "grs"])
    t = Txt(rng)
    put(d, "B.TAB", t.loose(rng.choice(
        [" ", "   "] + (["\t"] if kind == "grs" else []))))
    mrs = {"INSTRUMENT_HOST_NAME": "MARS EXPRESS", "INSTRUMENT_ID": "MRS"}
    ids = {"odf": mrs | {"PRODUCT_ID": "M32ODF0L1B_DPX_1.TAB"},
           "rmp": mrs | {"PRODUCT_ID": "M32ODF0L1B_RMP_1.TAB"},
           "irf": {"DATA_SET_ID": "IHW-C-IRFCURV-3-EDR-HALLEY-V2.0"},
           "grs": {"DATA_SET_ID": "ODY-M-GRS-5-ELEMENTS-V1.0"}}[kind]
    name = {"odf": "DOPPLER_TABLE", "rmp": "RAMP_S_TABLE"}.get(kind, "TABLE")
    block = "RAMP_TABLE" if kind == "rmp" else name
    over = {i: {"START_BYTE": off(rng, 20, 1, 9)} for i in range(2)}
    p = label(rng, d, ids_(rng, **ids), [
        (f"^{name}", "B.TAB"),
        t.block(block, over=over if rng.random() < .6 else None,
                ROW_BYTES=off(rng, t.row_bytes, 1, 5))])
    return p, {name: t.check()}, {"sig": (kind,)}


@scenario("pfs")
def pfs(rng, d):
    """numbers of rows and types of times before orbit 8945"""
    orbit = rng.choice([8944, 1, 8945, 9000, "N/A", "10"])
    bad = orbit in (8944, 1, "N/A", "10")
    t = Bin(rng, [("OBT OBSERVATION TIME", "PC_REAL", 8, 1),
                  ("SCET OBSERVATION TIME", "PC_UNSIGNED_INTEGER", 4, 1),
                  ("X", "LSB_INTEGER", 2, rng.choice([1, 3]))])
    lie = {0: {"DATA_TYPE": Raw(rng.choice(["IEEE_REAL", "PC_REAL"]))},
           1: {"DATA_TYPE": Raw("MSB_UNSIGNED_INTEGER")}}
    put(d, "P.DAT", t.data(), b"" if bad else decoy(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="MEX-M-PFS-2-EDR-NOMINAL-V1.0",
        PRODUCT_ID=rng.choice(["PFS_RAW_1.DAT", "PFS_HK_1.DAT"])),
        fixed(t.row_bytes) + [
        ("FILE_RECORDS", t.rows if bad else 999), ("ORBIT_NUMBER", orbit),
        ("^TABLE", "P.DAT"),
        t.block("TABLE", over=lie if bad else None,
                ROWS=max(1, off(rng, t.rows, 1, 2)) if bad else t.rows)])
    return p, {"TABLE": t.check()}, {"sig": (orbit,)}


@scenario("vra-udr")
def vra_udr(rng, d):
    """tables of which the label says nothing, after lines of header"""
    n = rng.randint(2, 5)
    t = Txt(rng, kinds=["real"] * n, sep="  ", rows=rng.choice([2, 5, 9]))
    names = [f"Col{i}" for i in range(n)]
    put(d, "V.RAW", junk_lines(rng, rng.randint(0, 4)),
        "//" + rng.choice(["", " "]) + "  ".join(names) + "\r\n",
        t.data())
    name = rng.choice(["TABLE", "RAW_TABLE"])
    p = label(rng, d, ids_(
        rng, INSTRUMENT_HOST_NAME="VENUS EXPRESS", INSTRUMENT_ID="VRA",
        PRODUCT_TYPE="UDR", PRODUCT_ID="V32ICL1L1A_AG1_1.RAW"), [
        (f"^{name}", "V.RAW"), Obj(name, [("DESCRIPTION", "see the file")])])
    return p, {name: t.check(names)}


@scenario("vra-rmp")
def vra_rmp(rng, d):
    t, other = Txt(rng), Txt(rng, prefix="G")
    put(d, "V.TAB", t.data())
    put(d, "W.TAB", other.data())
    p = label(rng, d, ids_(
        rng, INSTRUMENT_HOST_NAME="VENUS EXPRESS", INSTRUMENT_ID="VRA",
        PRODUCT_ID="V32ODF0L1B_RMP_1.TAB"), [
        ("^DOPPLER_SBAND_TABLE", "V.TAB"), ("^DOPPLER_XBAND_TABLE", "W.TAB"),
        t.block("RAMP_TABLE"), other.block("DOPPLER_XBAND_TABLE")])
    return p, {"DOPPLER_SBAND_TABLE": t.check(),
               "DOPPLER_XBAND_TABLE": other.check()}


# --- comets ----------------------------------------------------------------

@scenario("ducma")
def ducma(rng, d):
    """the last column of encounter data starts at byte 62"""
    bad = rng.random() < .7
    t = Txt(rng, kinds=["int"] * 10 + ["real"], widths=[5] * 9 + [6, 9])
    assert t.starts[10] == 61
    put(d, "D.TAB", t.data(), after(rng))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID=f"VEGA{rng.choice('12')}-C-DUCMA-3-RDR-HALLEY-V1.0"),
        [("^TABLE", "D.TAB"), t.block(
            "TABLE", over={10: {"START_BYTE": rng.choice([61, 63])}}
            if bad else None,
            DESCRIPTION="This is encounter data." if bad else "cruise data")])
    return p, {"TABLE": t.check()}, {"sig": (bad,)}


IHW = ("IHW-C-PPFLX-3-RDR-HALLEY-V1.0", "IHW-C-PPOL-3-RDR-HALLEY-V1.0",
       "IHW-C-PPSTOKE-3-RDR-HALLEY-V1.0", "IHW-C-PPMAG-3-RDR-HALLEY-V1.0",
       "IHW-C-MSNRDR-3-RDR-HALLEY-ETA-AQUAR-V1.0",
       "IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0",
       "IHW-C-MSNVIS-3-RDR-HALLEY-ETA-AQUAR-V1.0",
       "IHW-C-MSNVIS-3-RDR-HALLEY-ORIONID-V1.0",
       "IHW-C-IRFTAB-3-RDR-HALLEY-V1.0", "IHW-C-IRPOL-3-RDR-HALLEY-V1.0",
       "IHW-C-IRPHOT-3-RDR-HALLEY-V1.0")


@scenario("ihw-newlines", "ice-traj")
def no_newlines(rng, d):
    """rows without ends of lines"""
    ds = rng.choice(IHW + ("ICE-C-PLAWAV-3-RDR-GIACOBIN-ZIN-V1.0",) * 3)
    radar = "MSNRDR" in ds
    kinds = ["char", "int", "int", "int"] if radar else None
    t = Txt(rng, kinds=kinds, eol=rng.choice(["", "", "\r\n"]),
            widths=[15, 3, 3, 4] if radar else None, rows=rng.choice(
                [1, 2, 5, 9]))
    names, over = list(t.names), None
    if radar:
        assert t.starts == [0, 16, 20, 24]
        over = {}
        for i, x in ((1, ">=1SEC"), (2, ">=8SEC")):
            if rng.random() < .7:
                over[i] = {"NAME": None}
                names[i] = x
    fn = "TRAJ_ICE.TAB" if ds[:3] == "ICE" else "H.TAB"
    j, ptr = before(rng, "TABLE", fn)
    put(d, fn, j, t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID=ds), [
        ptr, t.block("TABLE", over=over)])
    return p, {"TABLE": t.check(names)}, {
        "sig": (ds[6:12], t.eol, str(over))}


@scenario("ihw-spec")
def ihw_spectrum(rng, d):
    """columns named in another keyword"""
    t = Bin(rng, [("FLUX", rng.choice(["MSB_INTEGER", "IEEE_REAL"]), 4, 1)])
    put(d, "S.DAT", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="IHW-C-SPEC-3-EDR-HALLEY-V2.0"), [
        ("^SPECTRUM", "S.DAT"), t.block("SPECTRUM", over={
            0: {"NAME": None, "COLUMN_NAME": "FLUX"}})])
    return p, {"SPECTRUM": t.check()}


@scenario("hartley")
def hartley(rng, d):
    """records and rows are 79 bytes long"""
    ts = [Txt.fit(rng, 79, prefix=x) for x in "ABC"]
    names = ["HEADER_TABLE", "VERTEX_TABLE", "PLATE_TABLE"]
    items, at = [], 1
    for n, t in zip(names, ts):
        items += [(f"^{n}", ("H.TAB", at)), t.block(n, ROW_BYTES=80)]
        at += t.rows
    put(d, "H.TAB", *(t.data() for t in ts))
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="DIF-C-HRIV/MRI-5-HARTLEY2-SHAPE-V1.0",
        PRODUCT_ID="HARTLEY2-CARTESIAN-PLATE-MODEL"),
        fixed(80) + items)
    return p, {n: t.check() for n, t in zip(names, ts)}


# --- others ----------------------------------------------------------------

@scenario("odf3b", "mgs-ecs")
def mgs_rss(rng, d):
    """length, or place, of a column"""
    odf = rng.random() < .5
    if odf:
        t = Bin(rng, [(f"C{i}", "MSB_UNSIGNED_INTEGER", 4, 1)
                      for i in range(7)]
                + [("C7", "MSB_UNSIGNED_INTEGER", 2, 1),
                   ("C8", "MSB_UNSIGNED_INTEGER", rng.choice([2, 4]), 1)])
        over = {7: {"BYTES": rng.choice([1, 4])}}
        name = "ODF3B_TABLE"
        ids = {"INSTRUMENT_ID": "RSS", "PRODUCT_TYPE": "ODF"}
    else:
        t = Bin(rng, [("C0", "CHARACTER", 40, 1)] + [
            (f"C{i}", "IEEE_REAL", 8, 1) for i in range(1, 5)]
            + [("C5", "IEEE_REAL", 8, 1), ("C6", "IEEE_REAL", 8, 1)],
            gaps=[0, 0, 0, 0, 7, 0, 0])
        assert t.starts[5] == 79
        over = {5: {"START_BYTE": rng.choice([79, 81])}}
        name = "TABLE"
        ids = {"INSTRUMENT_NAME": "RADIO SCIENCE SUBSYSTEM",
               "PRODUCT_TYPE": "ECS"}
    put(d, "O.DAT", t.data())
    p = label(rng, d, ids_(
        rng, INSTRUMENT_HOST_NAME="MARS GLOBAL SURVEYOR", **ids), [
        (f"^{name}", "O.DAT"), t.block(name, over=over)])
    return p, {name: t.check()}, {"sig": (odf,)}


@scenario("pedr")
def pedr(rng, d):
    """numbers of rows that the label does not know"""
    t = Bin(rng)
    head = decoy(rng, t.row_bytes * rng.choice([0, 1, 3]))
    put(d, "P.B", head, t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="MGS-M-MOLA-3-PEDR-L1A-V1.0"),
              fixed(t.row_bytes) + [
        ("FILE_RECORDS", "UNK"),
        ("^PEDR_TABLE", ("P.B", len(head) // t.row_bytes + 1)),
        t.block("PEDR_TABLE", ROWS="UNK")], stem="P")
    return d / "P.B", {"PEDR_TABLE": t.check()}


@scenario("wff-atm")
def wff_atm(rng, d):
    """lines and samples that are swapped"""
    img = Img(rng)
    pid = rng.choice(["SCHOONER2X2", "SEDAN2X2", "BBMESA2X2"])
    over = ({"LINES": img.samples, "LINE_SAMPLES": img.lines}
            if pid[0] == "S" else {})
    put(d, "W.IMG", img.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="WFF-E-ATM-1/5-V1.0",
                           PRODUCT_ID=pid), [
        ("^IMAGE", "W.IMG"), img.block("IMAGE", **over)])
    return p, {"IMAGE": img.check()}, {"sig": (pid,), "scaled": ["IMAGE"]}


@scenario("grs-ekernel")
def ekernel(rng, d):
    """notes among the tables"""
    t = Txt(rng)
    notes = junk_lines(rng, rng.randint(1, 6))
    fn = rng.choice(["n.txt", "N.TXT"])
    put(d, fn, notes)
    p = label(rng, d, ids_(rng, DATA_SET_ID="ODY-M-GRS-2-EDR-V1.0",
                           PRODUCT_TYPE="E_KERNEL"), [
        ("^TIME_SERIES", fn), Obj("TIME_SERIES", [
            ("DESCRIPTION", "notes")])])
    return p, {"TIME_SERIES": text(notes)}


@scenario("iue")
def iue(rng, d):
    """objects whose definition has another name"""
    a, b = Img(rng), Img(rng)
    put(d, "I.IMG", a.data(), b.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="IUE-C-SWP-3-EDR-IUECDB-V1.0"), [
        ("^IMAGE", "I.IMG"),
        ("^QUALITY_IMAGE", ("I.IMG", Qty(len(a.data()) + 1, "BYTES"))),
        a.block("IMAGE"), b.block(rng.choice(
            ["QUALITY_IMAGE", "QUALITY_QUALITY_IMAGE"]))])
    return p, {"IMAGE": a.check(), "QUALITY_IMAGE": b.check()}, {
        "scaled": ["IMAGE", "QUALITY_IMAGE"]}


@scenario("iris")
def iris(rng, d):
    """the place of a column counts the bytes before the row"""
    pre, n = 316, rng.choice([4, 1500])
    t = Bin(rng, [("RAD", "IEEE_REAL", 4, n)], lead=pre, rows=rng.randint(
        1, 3))
    name = rng.choice(["SPECTRAL_SERIES", "SPECTRUM_1", "CAL_SPECTRUM"])
    put(d, "I.DAT", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="M9-M-IRIS-3-RDR-V1.0"), [
        (f"^{name}", "I.DAT"), t.block(
            name, over={0: {"START_BYTE": rng.choice([317, 1])}},
            ROW_PREFIX_BYTES=pre, ROW_BYTES=4 * n)])
    return p, {name: t.check()}, {"sig": (name[:6], n)}


@scenario("msx")
def msx(rng, d):
    """headers of unknown length"""
    head = "ENVI\r\n" + junk_lines(rng, rng.randint(1, 5))
    img = Img(rng)
    put(d, "c.hdr", head)
    put(d, "c.img", img.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="MSX-L-SPIRIT3-2/4-V1.0"), [
        ("^ENVI_HEADER", "c.hdr"), ("^IMAGE", "c.img"),
        Obj("ENVI_HEADER", [("BYTES", "N/A"), ("HEADER_TYPE", "ENVI")]),
        img.block("IMAGE")])
    return p, {"ENVI_HEADER": text(head), "IMAGE": img.check()}


@scenario("spede")
def spede(rng, d):
    """commas that are doubled"""
    names = ["DATE", "JULIAN_DATE", "SHADOW", "SC_MX_SUN_ANGLE",
             "SC_MY_SUN_ANGLE", "SC_MZ_SUN_ANGLE", "SC_SA_ANGLE", "GSE_X",
             "GSE_Y", "GSE_Z", "LSE_X", "LSE_Y", "LSE_Z", "TIME_INCREMENT"] + [
        f"{x}_{i:02d}" for x in ("BIAS", "MEASUREMENT", "FLAGS")
        for i in range(40)]
    t = Txt(rng, kinds=["char"] + ["real"] * 133, names=names,
            rows=rng.randint(1, 4))
    fn = "PD_40_1.TAB"
    put(d, fn, junk_lines(rng, 64), "".join(
        rng.choice(["", " "]).join([""] + [
            c + ("" if i == 133 else rng.choice([",", ",", ",,", ", "]))
            for i, c in enumerate(r)]) + "\r\n" for r in t.texts))
    few = Txt(rng, prefix="G")
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="SPEDE", FILE_NAME=fn), [
        ("^TABLE", fn), few.block("TABLE")])
    return p, {"TABLE": t.check()}


@scenario("jiram")
def jiram(rng, d):
    """little-endian reals, whatever the label says"""
    img = Img(rng, "PC_REAL", 4)
    t = Bin(rng, [(f"C{i}", "PC_REAL", 4, rng.choice([1, 3]))
                  for i in range(rng.randint(1, 4))])
    put(d, "J.IMG", img.data())
    put(d, "J.DAT", t.data())
    p = label(rng, d, ids_(rng, DATA_SET_ID="JNO-J-JIRAM-3-RDR-V1.0",
                           PRODUCT_TYPE="RDR"), [
        ("^IMAGE", "J.IMG"), ("^TABLE", "J.DAT"),
        img.block("IMAGE", SAMPLE_TYPE=Raw("IEEE_REAL")),
        t.block("TABLE", over={i: {"DATA_TYPE": Raw(rng.choice(
            ["IEEE_REAL", "PC_REAL"]))} for i in range(len(t.cols))})])
    return p, {"IMAGE": img.check(), "TABLE": t.check()}, {
        "scaled": ["IMAGE"]}


@scenario("waves-burst")
def waves(rng, d):
    """definitions under the names of other objects"""
    both = rng.random() < .7
    a, b = Txt(rng), Txt(rng, prefix="G")
    put(d, "A.CSV", a.data())
    put(d, "B.CSV", b.data())
    if both:
        items = [("^FREQ_OFFSET_TABLE", "B.CSV"), ("^DATA_TABLE", "A.CSV"),
                 b.block("DATA_TABLE"), a.block("TABLE")]
        out = {"DATA_TABLE": a.check(), "FREQ_OFFSET_TABLE": b.check()}
    else:
        items = [("^DATA_TABLE", "A.CSV"), a.block("DATA_TABLE")]
        out = {"DATA_TABLE": a.check()}
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="JNO-E/J/SS-WAV-3-CDR-BSTFULL-V1.0"), items)
    return p, out, {"sig": (both,)}


@scenario("bits", "jiram-bits")
def bit_columns(rng, d):
    """bits in columns of other types, and a wrong place of a bit"""
    kind = rng.choice(["other", "jiram"])
    w = 2
    t = Bin(rng, [("A", "MSB_INTEGER", 2, 1), ("FLAG", "RAW", w, 1)])
    put(d, "B.DAT", t.data())
    words = [f"{int.from_bytes(v, 'big'):016b}" for v in t.values[1]]
    if kind == "jiram":
        last = rng.choice(["NADIR_OFFSET_SIGN", "OTHER_SIGN"])
        parts = [("X", 1, 15), (last, 16, 1)]
        said = 15 if last[0] == "N" else 16
        typ = "MSB_BIT_STRING"
        iname = "JOVIAN INFRARED AURORAL MAPPER"
    else:
        n = rng.randint(1, 15)
        parts = [("X", 1, n), ("Y", n + 1, 16 - n)]
        said = n + 1
        typ = "UNSIGNED_INTEGER"
        iname = rng.choice([
            "ALPHA PARTICLE X-RAY SPECTROMETER",
            "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
            "CHEMISTRY AND MINERALOGY INSTRUMENT",
            "MARS ADVANCED RADAR FOR SUBSURFACE AND IONOSPHERE SOUNDING"])
    want = [[x[s - 1:s - 1 + n] for _, s, n in parts] for x in words]
    cols = t.columns()
    cols[1] = Obj("COLUMN", [
        ("NAME", "FLAG"), ("DATA_TYPE", Raw(typ)), ("START_BYTE", 3),
        ("BYTES", 2)] + [
        Obj("BIT_COLUMN", [
            ("NAME", x), ("START_BIT", said if i else s), ("BITS", n),
            ("BIT_DATA_TYPE", Raw("UNSIGNED_INTEGER"))])
        for i, (x, s, n) in enumerate(parts)])
    values = t.values[0]

    def verify(got, mon, where):
        frame(["A"], [values])(got[["A"]], mon, where)
        g = [list(x) for x in got["FLAG"]]
        mon.check(g == want, lambda: f"{where}: {g} not {want}", "bits")
        mon.saw("bit_columns")
    p = label(rng, d, ids_(rng, INSTRUMENT_NAME=iname), [
        ("^TABLE", "B.DAT"), t.block("TABLE", columns=cols)])
    return p, {"TABLE": verify}, {"sig": (kind, parts[1][0], typ)}


@scenario("lamp-histogram")
def lamp_histogram(rng, d):
    """images that share one definition"""
    imgs = [Img(rng, "MSB_INTEGER", 4, (3, 5)) for _ in range(2)]
    put(d, "L.IMG", *(i.data() for i in imgs))
    names = ["CAL_HISTOGRAM_IMAGE_A", "CAL_HISTOGRAM_IMAGE_B"]
    p = label(rng, d, ids_(rng, INSTRUMENT_ID="LAMP", PRODUCT_TYPE="RDR"), [
        (f"^{names[0]}", "L.IMG"), (f"^{names[1]}", ("L.IMG", Qty(
            61, "BYTES"))), imgs[0].block("CAL_HISTOGRAM_DATA_IMAGE")])
    return p, {n: i.check() for n, i in zip(names, imgs)}


@scenario("kag-grs", "kag-sp", "kag-spx")
def kaguya_blocks(rng, d):
    grs = rng.random() < .5
    if grs:
        t = Txt(rng)
        put(d, "K.TAB", t.loose(","))
        p = label(rng, d, ids_(
            rng, DATA_SET_ID="SLN-L-GRS-5-NUCLIDE-MAP-V2.0"), [
            ("^TABLE", "K.TAB"), t.block("SPREADSHEET", kind="FIELD",
                                         FIELD_DELIMITER="COMMA")])
        return p, {"TABLE": t.check()}, {"sig": (grs,)}
    t = Bin(rng)
    put(d, "K.DAT", t.data())
    name = "ANCILLARY_AND_SUPPLEMENT_DATA"
    extra = [Obj("COLUMN", [("NAME", f"X{i}"), ("DATA_TYPE", Raw(
        "IEEE_REAL")), ("START_BYTE", t.row_bytes + 1 + 4 * i), ("BYTES", 4)])
        for i in range(4)]
    p = label(rng, d, ids_(
        rng, DATA_SET_ID="SLN-L-SP-3-LEVEL2B-V1.0"), [
        (f"^{name}", "K.DAT"), ("^L2D_RESULT_ARRAY", "K.DAT"),
        t.block(name, columns=t.columns() + extra,
                COLUMNS=len(t.cols) + 4), Obj("L2D_RESULT_ARRAY", [
                    ("BYTES", 0)])])
    return p, {name: t.check(), "L2D_RESULT_ARRAY": nothing()}, {
        "sig": (grs,)}


def table_of(rng, spec, rows, eol="\r\n", width=None):
    """fixed-width lines; spec: (name, first byte, bytes, kind)"""
    lines, cols = [], []
    for _ in range(rows):
        line, vals = [" "] * (width or 200), []
        for n, s, w, k in spec:
            a, v = (int_text(rng, w) if k == "int" else real_text(rng, w)
                    if k == "real" else (k(rng),) * 2)
            line[s - 1:s - 1 + w] = list(a.rjust(w))
            vals.append(v)
        lines.append("".join(line).rstrip().ljust(
            spec[-1][1] + spec[-1][2] - 1) + eol)
        cols.append(vals)
    return "".join(lines), list(zip(*cols))


@scenario("kag-grid", "kag-sigma", "kag-magts", "kag-rise")
def kaguya_tables(rng, d):
    """tables whose columns the label does not define, or wrongly"""
    kind = rng.choice(["grid"] + ["sigma", "magts", "rise"] * 4)
    wrong = Txt(rng, ncol=2)
    block = wrong.block("TABLE")
    if kind == "grid":
        names = "LATITUDE LONGITUDE X Y Z F X1 Y2 Z2 F2".split()
        spec = [(n, 1 + 9 * i, 8, "real") for i, n in enumerate(names)] + [
            ("A", 91, 4, "int")]
        part, c = table_of(rng, spec, 40)
        # 64440 lines, of which the same 40 again and again
        txt = part * 1611
        cols = [x * 1611 for x in c]
        ds, rb = "SLN-L-LMAG-5-MA-GRID-V1.0", 96
    elif kind == "sigma":
        spec = [("TOP_RADIUS", 1, 8, "real"), ("UNDER_RADIUS", 10, 8, "real"),
                ("ELECTRICAL_CONDUCTANCE", 19, 12, "real")]
        txt, cols = table_of(rng, spec, 2)
        ds, rb = "SLN-L-LMAG-5-1D-SIGMA-ECS-V1.0", 32
    elif kind == "magts":
        def when(rng):
            return (f"20{rng.randint(10, 20)}-0{rng.randint(1, 9)}-"
                    f"{rng.randint(10, 28)}T{rng.randint(10, 23)}:"
                    f"{rng.randint(10, 59)}:{rng.randint(10, 59)}")
        spec = [("TIME", 1, 19, when), ("X1", 21, 8, "real"),
                ("Y1", 30, 8, "real"), ("Z1", 39, 8, "real"),
                ("Bx1", 48, 7, "real"), ("By1", 56, 7, "real"),
                ("Bz1", 64, 7, "real"), ("X2", 72, 10, "real"),
                ("Y2", 83, 10, "real"), ("Z2", 94, 10, "real"),
                ("Bx2", 105, 7, "real"), ("By2", 113, 7, "real"),
                ("Bz2", 121, 7, "real")]
        n = rng.randint(1, 9)
        txt, cols = table_of(rng, spec, n)
        ds, rb = "SLN-L-LMAG-3-MAG-TS-V1.0", 129
        block = Obj("TIME_SERIES", [
            ("INTERCHANGE_FORMAT", Raw("ASCII")), ("ROWS", n),
            ("ROW_BYTES", 77), ("COLUMNS", 1)])
    else:
        spec = [("DATE", 2, 6, lambda r: f"{r.randint(101010, 991231)}"),
                ("GREENWICH_TIME_HHMM", 9, 4,
                 lambda r: f"{r.randint(1000, 2359)}"),
                ("GREENWICH_TIME_SS", 15, 8, "real"), ("X", 23, 13, "real"),
                ("Y", 36, 13, "real"), ("Z", 49, 13, "real"),
                ("VX", 62, 12, "real"), ("VY", 74, 12, "real"),
                ("VZ", 86, 12, "real"), ("LAT", 98, 11, "real"),
                ("LON", 109, 11, "real"), ("HEIGHT", 120, 13, "real")]
        txt, cols = table_of(rng, spec, rng.randint(1, 9), "\n")
        cols[:2] = [[int(x) for x in c] for c in cols[:2]]
        ds, rb = "SLN-L-RISE-5-TRAJ-V1.0", 133
    width = len(txt.split("\n")[0]) + 1
    assert width == rb, (kind, width)
    put(d, "K.TAB", txt)
    p = label(rng, d, ids_(rng, DATA_SET_ID=ds), [
        ("^TABLE", "K.TAB"), block])
    return p, {"TABLE": frame([s[0] for s in spec], cols)}, {"sig": (kind,)}
