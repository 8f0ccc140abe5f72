"""Chang'e and Chandrayaan-2 products with PDS4 labels"""
import numpy as np

from msn.core import WORDS, frame, int_text, real_text, scenario
from pds4w import el


def product(rng, d, name, areas):
    ids = el("Identification_Area", [
        el("logical_identifier", "urn:nasa:pds:a:b:c"),
        el("version_id", "1.0"), el("title", "A product"),
        el("information_model_version", "1.14.0.0"),
        el("product_class", "Product_Observational")])
    p = d / name
    p.write_text(
        '<?xml version="1.0" encoding="UTF-8"?>\n<Product_Observational '
        'xmlns="http://pds.nasa.gov/pds4/pds/v1">\n' + ids + "\n"
        + "\n".join(areas) + "\n</Product_Observational>\n", encoding="utf-8")
    return p


def where(rng, d):
    """some directory"""
    sub = rng.choice([None, None, "data.v1", "a.b", "CE0.L", "x L"])
    if sub is None:
        return d
    (d / sub).mkdir(exist_ok=True)
    return d / sub


def columns(rng, n):
    kinds = [rng.choice(["int", "real", "word", "time"]) for _ in range(n)]
    kinds[rng.randrange(n)] = "real"
    return kinds


def cell(rng, kind, width):
    if kind == "int":
        return int_text(rng, width)
    if kind == "real":
        return real_text(rng, width)
    if kind == "word":
        t = rng.choice([w for w in WORDS if len(w) <= width])
        return t, t
    t = f"20{rng.randrange(10, 30)}-0{rng.randrange(1, 10)}-1" \
        f"{rng.randrange(10)}T12:{rng.randrange(10, 60)}:00Z"
    return t, t


TYPES = {"int": "ASCII_Integer", "real": "ASCII_Real",
         "word": "ASCII_String", "time": "ASCII_Date_Time_YMD_UTC"}
WIDTHS = {"int": 9, "real": 12, "word": 8, "time": 20}


def text_table(rng, d, stem, ext, groups, fixed):
    """
    a table whose fields are not where, or not of the types, the label says
    """
    n, rows = rng.randint(2, 6), rng.choice([1, 2, 5, 130])
    kinds = columns(rng, n)
    names = [f"Field {i}_{rng.choice(WORDS)}" for i in range(n)]
    if rng.random() < .2:
        kinds.append("real")
        names.append("Z")
    reps = [(f"Channel{i}", rng.choice([1, 2, 3, 11]))
            for i in range(rng.choice([1, 1, 2]) if groups else 0)]
    all_kinds = kinds + ["real"] * sum(r for _, r in reps)
    all_names = names + [f"{g}_{i + 1}" for g, r in reps for i in range(r)]
    cells = [[cell(rng, k, WIDTHS[k]) for k in all_kinds]
             for _ in range(rows)]
    lines = []
    for row in cells:
        if fixed:
            t = "  ".join(
                f"{c[0]:>{WIDTHS[k]}}" if k in ("int", "real")
                else f"{c[0]:<{WIDTHS[k]}}" for c, k in zip(row, all_kinds))
        else:
            t = "".join(" " * rng.randint(1, 4) * bool(i or rng.random() < .2)
                        + c[0] for i, c in enumerate(row))
        lines.append(t + "\r\n")
    data = "".join(lines).encode()
    # what the label says of places and types is of no use
    pos, fields = 1, []
    for i, (k, nm) in enumerate(zip(kinds, names)):
        fields.append(el("Field_Character", [
            el("name", nm), el("field_number", i + 1),
            el("field_location", pos, unit="byte"),
            el("data_type", rng.choice([TYPES[k], "ASCII_Integer",
                                        "ASCII_Numeric_Base16"])),
            el("field_length", WIDTHS[k], unit="byte")]))
        pos += WIDTHS[k]
    for g, r in reps:
        fields.append(el("Group_Field_Character", [
            el("name", g), el("repetitions", r), el("fields", 1),
            el("groups", 0), el("group_location", pos, unit="byte"),
            el("group_length", r * 12, unit="byte"),
            el("Field_Character", [
                el("name", f"{g}_value"),
                el("field_location", 1, unit="byte"),
                el("data_type", "ASCII_Real"),
                el("field_length", 12, unit="byte")])]))
        pos += 12 * r
    table = el("Table_Character", [
        el("offset", 0, unit="byte"), el("records", rows),
        el("record_delimiter", "Carriage-Return Line-Feed"),
        el("Record_Character", [
            el("fields", len(names)), el("groups", len(reps)),
            el("record_length", pos + 1, unit="byte"), *fields])])
    (d / f"{stem}{ext}").write_bytes(data)
    path = product(rng, d, f"{stem}{ext}L", [el("File_Area_Observational", [
        el("File", [el("file_name", f"{stem}{ext}")]), table])])
    cols = [[row[i][1] for row in cells] for i in range(len(all_kinds))]
    return path, {"TABLE_0": frame(all_names, cols)}


@scenario("change-fw")
def change_fw(rng, d):
    """tables of fixed width whose types are not those of the label"""
    d = where(rng, d)
    stem = rng.choice(["CE6-L_GRAS_LMS-M", "CE6-L_GRAS_LMS-S",
                       "CE6-L_GRAS_LMS-N", "CE5-L_GRAS_LMS-N",
                       "CE5-L_GRAS_LMS-M"]) + "_SCI_N_2024_0001_B"
    if rng.random() < .3:
        stem = "CE4_GRAS_VNIS-SD_SCI_N_2019_0001_B"
    return text_table(rng, d, stem, ".2B", False, True) + (
        {"sig": (stem, d.name)},)


@scenario("change-spaces")
def change_spaces(rng, d):
    """tables whose fields are separated by any number of blanks"""
    d = where(rng, d)
    inst, ext = rng.choice([("ASAN-SCI", ".2B"), ("LND-DPSL", ".2A"),
                            ("LND-ThN", ".2A"), ("LND-TID", ".2A")])
    groups = rng.random() < .6
    return text_table(rng, d, f"CE4_GRAS_{inst}_SCI_N_2019_0001_{ext[-1]}",
                      ext, groups, False) + (
        {"sig": (inst, d.name, groups)},)


@scenario("ch2-class")
def ch2_class(rng, d):
    """FITS tables that the label gives a wrong place for"""
    from astropy.io import fits

    d = where(rng, d)
    n = rng.choice([1, 3, 2048])
    chan = np.arange(n, dtype=">i2") + rng.randrange(9)
    counts = np.array([rng.uniform(0, 99) for _ in range(n)], ">f4")
    hdu = fits.BinTableHDU.from_columns([
        fits.Column("CHANNEL", "I", array=chan),
        fits.Column("COUNTS", "E", array=counts)], name="SPECTRUM")
    val = rng.randrange(10**6)
    hdu.header["EXPOSURE"] = val
    stem = f"ch2_cla_l1_2021{rng.randrange(999)}T1204"
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(d / f"{stem}.fits")
    field = [el("Field_Binary", [
        el("name", nm), el("field_number", i + 1),
        el("field_location", loc, unit="byte"), el("data_type", t),
        el("field_length", w, unit="byte")])
        for i, (nm, loc, t, w) in enumerate([
            ("CHANNEL", 1, "SignedMSB2", 2),
            ("COUNTS", 3, "IEEE754MSBSingle", 4)])]
    path = product(rng, d, f"{stem}.xml", [el("File_Area_Observational", [
        el("File", [el("file_name", f"{stem}.fits")]),
        el("Header", [
            el("name", "header_Data"), el("local_identifier", "header_Data"),
            el("offset", 2880, unit="byte"),
            el("object_length", 2880, unit="byte"),
            el("parsing_standard_id", "FITS 3.0")]),
        el("Table_Binary", [
            el("name", "data"), el("local_identifier", "data"),
            el("offset", rng.choice([5760, 2880, 8640]), unit="byte"),
            el("records", n),
            el("Record_Binary", [
                el("fields", 2), el("groups", 0),
                el("record_length", 6, unit="byte"), *field])])])])

    def rec(got, mon, what):
        mon.check(got.dtype.names == ("CHANNEL", "COUNTS"), lambda: (
            f"{what}: columns {got.dtype.names}"), "names")
        mon.check(len(got) == n and (got["CHANNEL"] == chan).all()
                  and (got["COUNTS"] == counts).all(), lambda: (
            f"{what}: wrong values {got[:3]}"), "cell")
        mon.saw("tables_compared")

    def head(got, mon, what):
        mon.check(got.get("EXPOSURE") == val, lambda: (
            f"{what}: EXPOSURE {got.get('EXPOSURE')}, not {val}"), "cell")
    return path, {"data": rec, "header_Data": head}, {"sig": (n, d.name)}
