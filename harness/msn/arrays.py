"""Products whose arrays, FITS files or labels need special treatment"""
import fitsw
from checks.c15 import check_hdu, check_header
from enc import encode_many, np_expected
from msn.core import *
from pds3w import Obj, Qty, Raw, finish_label, render


def hdu_of(h):
    return lambda got, mon, where: check_hdu(mon, got, h, where + ": ")


def header_of(h):
    return lambda got, mon, where: check_header(mon, got, h, where + ": ")


@scenario("pia", "puma")
def spectra(rng, d):
    """spectra whose length follows from that of the records"""
    k, n = rng.choice([1, 1, 2, 3]), rng.randint(1, 5)
    length = rng.randint(2, 9)
    fields, pos = [], 1
    for i in range(rng.randint(1, 4)):
        t, w = rng.choice([("MSB_INTEGER", 2), ("MSB_INTEGER", 4),
                           ("MSB_UNSIGNED_INTEGER", 1), ("IEEE_REAL", 4)])
        fields.append((f"EL{i}", t, w, pos))
        pos += w
    points = [(f"P{i}", rng.choice(["MSB_UNSIGNED_INTEGER", "MSB_INTEGER"]))
              for i in range(k)]
    recs, values = [], []
    for _ in range(n):
        b, v = b"", []
        for _, t, w, _ in fields:
            raw, val = encode_many(rng, t, w, 1)
            b += raw
            v.append(np_expected(t, w, val)[0].item())
        spec = []
        for _ in range(length):
            pt = []
            for _, t in points:
                raw, val = encode_many(rng, t, 1, 1)
                b += raw
                pt.append(np_expected(t, 1, val)[0].item())
            spec.append(tuple(pt))
        recs.append(b)
        values.append((v, spec))
    els = [Obj("ELEMENT", [("NAME", a), ("DATA_TYPE", Raw(t)),
                           ("START_BYTE", s), ("BYTES", w)])
           for a, t, w, s in fields]
    inner = [Obj("ELEMENT", [("NAME", a), ("DATA_TYPE", Raw(t)),
                             ("START_BYTE", i + 1), ("BYTES", 1)])
             for i, (a, t) in enumerate(points)]
    if k > 1:
        inner = [Obj("COLLECTION", [("NAME", "SPECTRUM_POINT"),
                                    ("START_BYTE", 1), ("BYTES", k)] + inner)]
    size = len(recs[0])
    arr = Obj("ARRAY", [("NAME", "SPECTRUM"), ("AXES", 1), ("AXIS_ITEMS",
              rng.choice([length, length + 7, 1])), ("START_BYTE", pos)] +
              inner)
    start = rng.choice([0, 0, 1])
    put(d, "P.DAT", decoy(rng, size * start), *recs)
    p = label(rng, d, ids_(rng, DATA_SET_ID=rng.choice([
        "GIO-C-PIA-3-RDR-HALLEY-V1.0", "VEGA1-C-PUMA-2-EDR-HALLEY-V1.0",
        "VEGA2-C-PUMA-3-RDR-HALLEY-V1.0"])), [
        ("RECORD_BYTES", size), ("^ARRAY", ("P.DAT", start + 1)),
        Obj("ARRAY", [("NAME", "DATA"), ("INTERCHANGE_FORMAT", Raw("BINARY")),
                      ("AXES", 1), ("AXIS_ITEMS", n),
                      Obj("COLLECTION", [("NAME", "FRAME"), ("START_BYTE", 1),
                                         ("BYTES", size)] + els + [arr])])])

    def verify(got, mon, where):
        mon.check(isinstance(got, np.ndarray) and got.shape == (n,),
                  lambda: f"{where}: not an array of {n}: {got!r:.300}",
                  "array")
        names = [f[0] for f in fields] + ["SPECTRUM"]
        mon.check(list(got.dtype.names) == names, lambda: (
            f"{where}: elements {got.dtype.names}, should be {names}"),
            "elements")
        for i, (v, spec) in enumerate(values):
            g = [got[i][f[0]].item() for f in fields]
            mon.check(not same_array(np.array(g, "f8"),
                                     np.array(v, "f8")),
                      lambda: f"{where}: record {i} is {g}, should be {v}",
                      "values")
            s = [tuple(int(x[q[0]]) for q in points)
                 for x in got[i]["SPECTRUM"]]
            mon.check(s == spec, lambda: (
                f"{where}: spectrum {i} is {s}, should be {spec}"), "spectra")
        mon.saw("arrays_compared")
    return p, {"ARRAY": verify}, {"sig": (k,)}


def offset(rng, good):
    """a pointer's position that may be wrong"""
    r = rng.random()
    if r < .3:
        return Qty(good + 1, "BYTES")
    if r < .6:
        return Qty(rng.randint(1, 9000), "BYTES")
    return rng.randint(1, 7)


def fits_product(rng, d, ids, hdus, ptrs, right=(), blocks=True, gone=()):
    """
    hdus in a file; ptrs: (name, HDU number); those in right are where the
    label says, others may be anywhere; those in gone are not there
    """
    blob, where = fitsw.write(hdus)
    (d / "F.FIT").write_bytes(blob)
    items, objs = [("RECORD_BYTES", 2880)], {}
    defs = []
    for nm, i in ptrs:
        is_head = "HEADER" in nm
        at = where[i][0 if is_head else 1]
        good = Qty(at + 1, "BYTES")
        items.append((f"^{nm}", ("F.FIT", good if nm in right else
                                 offset(rng, at))))
        if not is_head:
            h = hdus[i].meta.get("dims", [1, 1])
            defs.append(Obj(nm, [("LINES", h[-1]), ("LINE_SAMPLES", h[0]),
                                 ("SAMPLE_BITS", 8)]))
        objs[nm] = nothing() if nm in gone else \
            (header_of if is_head else hdu_of)(hdus[i])
    p = label(rng, d, ids, items + (defs if blocks else []))
    return p, objs


def full_image(rng, *a, **k):
    return fitsw.gen_image(rng, *a, scale="none", **k)


@scenario("mdis", "mssso", "rpx")
def fits_first(rng, d):
    """images are in the first HDU, wherever the label says they are"""
    which = rng.choice(["mdis", "mssso", "rpx"])
    hdus = [full_image(rng, None, True)] + [
        full_image(rng, "EXTRA") for _ in range(rng.randint(0, 2))]
    ids = ids_(rng, DATA_SET_ID={
        "mdis": rng.choice(["MSGR-H-MDIS-6-CAL-V1.0",
                            "MSGR-H-MDIS-6-CAL-PIVOT-V2"]),
        "mssso": "MSSSO-J-CASPIR-3-RDR-SL9-STDS-V1.0",
        "rpx": "HST-S-WFPC2-3-RPX-V1.0"}[which])
    names = {"mdis": ["HEADER", "IMAGE"], "mssso": ["HEADER", "IMAGE"],
             "rpx": [f"{c}_IMAGE{s}" for c in ("PC1", "WF2", "WF3")
                     for s in ("_HEADER", "")]}[which]
    names = rng.sample(names, rng.randint(1, len(names)))
    p, o = fits_product(rng, d, ids, hdus, [(n, 0) for n in names])
    return p, o, {"sig": (which,), "scaled": [
        n for n in names if "HEADER" not in n]}


@scenario("hriv")
def hriv_mask(rng, d):
    """the mask is where its name says"""
    mask = full_image(rng, "MASK")
    hdus = [full_image(rng, None, True), full_image(rng, "OTHER"),
            full_image(rng, "SNR")]
    i = rng.randint(1, 3)
    hdus.insert(i, mask)
    bad = rng.random() < .75
    ids = ids_(rng, INSTRUMENT_ID="HRIV" if bad else "HRII",
               PRODUCT_TYPE="RADIANCE_DECONVOLVED")
    ptrs = [("IMAGE", 0), ("EXT_MASK_IMAGE", i), ("EXT_MASK_HEADER", i)]
    right = ["IMAGE"] + ([] if bad else [n for n, _ in ptrs])
    rng.shuffle(ptrs)
    p, o = fits_product(rng, d, ids, hdus, ptrs, right)
    return p, o, {"sig": (bad, i)}


@scenario("vmc")
def vmc(rng, d):
    """the calibrated image is in the second HDU"""
    hdus = [full_image(rng, None, True)] + [full_image(rng, f"X{i}") for i in
                                            range(rng.randint(1, 2))]
    ids = ids_(rng, DATA_SET_ID="MEX-M-VMC-3-RDR-V1.0")
    return fits_product(rng, d, ids, hdus, [("IMAGE", 1)])


@scenario("dawn")
def dawn(rng, d):
    """a history that is not there"""
    bad = rng.random() < .7
    hdus = [full_image(rng, None, True), full_image(rng, "B")]
    ids = ids_(rng, INSTRUMENT_HOST_NAME="DAWN",
               DATA_SET_ID="DAWN-A-FC2-3-RDR-CERES-IMAGES-V1.0")
    ptrs = [("IMAGE", 0)] + ([("HISTORY", 1)] if bad else [])
    p, o = fits_product(rng, d, ids, hdus, ptrs, right=("IMAGE", "HISTORY"),
                        gone=("HISTORY",), blocks=rng.random() < .5)
    o["HISTORY"] = nothing() if bad else None
    return p, {k: v for k, v in o.items() if v}, {"sig": (bad,)}


LAMP = ["Acquisition List", "Raw Frame Data", "Calculated Countrate",
        "LTS Data", "Housekeeping Data"]


def no_rows(rng, name):
    return fitsw.gen_bintable(rng, name, rows=0)


def a_table(rng, name):
    return fitsw.gen_bintable(rng, name, rows=rng.randint(1, 4))


@scenario("lamp-edr")
def lamp_edr(rng, d):
    """tables that may be empty"""
    names = ["ACQUISITION_LIST_TABLE", "FRAME_DATA_TABLE",
             "CALCULATED_COUNTRATE_TABLE", "LTS_DATA_TABLE",
             "HOUSEKEEPING_TABLE"]
    hdus, ptrs, gone = [full_image(rng, None, True)], [("IMAGE", 0)], []
    for n, x in rng.sample(list(zip(names, LAMP)), 5):
        if rng.random() < .35:
            gone.append(n)
            hdus.append(no_rows(rng, x))
        else:
            hdus.append(a_table(rng, x))
        ptrs.append((n, len(hdus) - 1))
    hdus.append(full_image(rng, "LAST"))
    ids = ids_(rng, DATA_SET_ID="LRO-L-LAMP-2-EDR-V1.0", INSTRUMENT_ID="LAMP")
    p, o = fits_product(rng, d, ids, hdus, ptrs, [n for n, _ in ptrs],
                        gone=gone)
    return p, o, {"sig": (len(gone),)}


@scenario("lamp-rdr")
def lamp_rdr(rng, d):
    """positions follow from the names of the HDUs"""
    second = rng.random() < .5
    names = [("ACQUISITION_LIST", "TABLE", "Acquisition List"),
             ("CAL_PIXELLIST_DATA", "TABLE",
              "Calibrated Pixel List Mode Data"),
             ("ANCILLARY_DATA", "TABLE", "Ancillary Data"),
             ("CAL_CALCULATED_COUNTRATE", "TABLE",
              "Reduced Count Rate" if second else "Calculated Countrate"),
             ("LTS_DATA", "TABLE", "LTS Data"),
             ("HOUSEKEEPING", "TABLE", "Housekeeping Data"),
             ("WAVELENGTH_LOOKUP", "IMAGE", "Wavelength Lookup Image")]
    hdus = [full_image(rng, None, True)]
    ptrs, gone = [("CAL_SPECTRAL_IMAGE_A", 0)], []
    for n, kind, x in rng.sample(names, rng.randint(3, 7)):
        full = f"{n}_{kind}"
        if kind == "TABLE" and rng.random() < .3:
            gone.append(full)
            hdus.append(no_rows(rng, x))
        elif kind == "TABLE":
            hdus.append(a_table(rng, x))
        else:
            hdus.append(full_image(rng, x))
        ptrs.append((full, len(hdus) - 1))
        # the header of an empty HDU is at the position of its data
        ptrs.append((f"{n}_HEADER", len(hdus) - 1))
    hdus.append(full_image(rng, "LAST"))
    ids = ids_(rng, DATA_SET_ID="LRO-L-LAMP-3-RDR-V1.0", PRODUCT_TYPE="RDR",
               INSTRUMENT_ID="LAMP")
    rng.shuffle(ptrs)
    p, o = fits_product(rng, d, ids, hdus, ptrs, ["CAL_SPECTRAL_IMAGE_A"],
                        gone=gone)
    return p, o, {"sig": (second, len(gone) > 0)}


@scenario("uvs-rdr", "uvs-edr")
def juno_uvs(rng, d):
    """the HDU of each object is known"""
    rdr = rng.random() < .5
    names = ["CALIBRATED_SPECTRAL/IMAGE", "ACQUISITION_LIST/TABLE",
             "CALIBRATED_PHOTON_LIST/TABLE", "ANCILLARY_DATA/TABLE",
             "CALIBRATED_ANALOG_COUNT_RATE/TABLE",
             "CALIBRATED_DIGITAL_COUNT_RATE/TABLE", "HOUSEKEEPING/TABLE",
             "WAVELENGTH_LOOKUP/IMAGE", "MASK_INFORMATION/TABLE"] if rdr else [
        "SPECTRAL_VS_SPATIAL/IMAGE", "SPATIAL_VS_TIME/QUBE",
        "FRAME_LIST/TABLE", "SCAN_MIRROR_POSITIONS/TABLE", "RAW_FRAME/TABLE",
        "ANALOG_COUNT_RATE/TABLE", "DIGITAL_COUNT_RATE/TABLE",
        "PULSE_HEIGHT_DISTRIBUTION_LA/QUBE",
        "PULSE_HEIGHT_DISTRIBUTION_STELLAR/QUBE",
        "PULSE_HEIGHT_DISTRIBUTION_STIM/QUBE", "HOUSEKEEPING/TABLE",
        "PARAMETER_LIST/TABLE"]
    names = [n.split("/") for n in names]
    hdus, ptrs = [], []
    for i, (n, kind) in enumerate(names):
        hdus.append(a_table(rng, n) if kind == "TABLE" else
                    full_image(rng, n if i else None, not i))
        ptrs += [(f"{n}_{kind}", i), (f"{n}_HEADER", i)]
    ptrs = rng.sample(ptrs, rng.randint(3, 10))
    ids = ids_(rng, PRODUCT_TYPE="RDR" if rdr else "EDR", DATA_SET_ID=(
        "JNO-J-UVS-3-RDR-V1.0" if rdr else "JNO-J-UVS-2-EDR-V1.0"))
    p, o = fits_product(rng, d, ids, hdus, ptrs)
    return p, o, {"sig": (rdr,)}


HAN = ["月球探测", "嫦娥一号干涉成像光谱仪", "数据产品", "光谱"]


def gb_label(d, name, items, size, *data):
    """an attached label in GB 18030"""
    raw = ("\r\n".join(render(items) + ["END"]) + "\r\n").encode("gb18030")
    assert len(raw) <= size
    (d / name).write_bytes(raw.ljust(size) + b"".join(data))
    return d / name


@scenario("ce1-prefix", "ce3-cal", "ce3-vnis")
def change(rng, d):
    """labels in a Chinese encoding, and objects that are not there"""
    which = rng.choice(["ce1", "cc", "sc", "sd", "other"])
    note = rng.choice(HAN) + rng.choice(["", " 1", rng.choice(HAN)])
    size = 4096
    img = Img(rng, bands=1)
    t = Bin(rng)
    head = [("PDS_VERSION_ID", Raw("PDS3")), ("RECORD_BYTES", size),
            ("NOTE_TEXT", note)]
    tail = rng.choice([".2A", ".2B", ".2C"]) if which in ("ce1", "other") \
        else ".2A"
    stem = {"ce1": "CE1_BMYK_IIM-TN_SCI_N_20080101", "other": "CE2_GRAS_CCD",
            "cc": "CE3_BMYK_VNIS-CC_SCI_N_2013", "sc":
                "CE3_BMYK_VNIS-SC_SCI_N_2013", "sd":
                "CE3_BMYK_VNIS-SD_SCI_N_2013"}[which]
    pid = stem + "_A" + tail
    craft = {"ce1": "CE1", "other": "CE2"}.get(which, "Chang'E-3 Rover")
    head += [("SPACECRAFT_NAME", craft), ("PRODUCT_ID", pid)]
    objs, keys = {}, ["LABEL"]
    if which in ("ce1", "cc", "other"):
        if which != "other":
            head.append(("^IMAGE_PREFIX", Qty(size + 1, "BYTES")))
            keys.append("IMAGE_PREFIX")
        head.append(("^IMAGE", Qty(size + 1, "BYTES")))
        head.append(img.block())
        objs["IMAGE"] = img.check()
        keys.append("IMAGE")
        if which == "ce1":
            objs["IMAGE_PREFIX"] = nothing()
        data = img.data()
    else:
        head += [("^TABLE", Qty(size + 1, "BYTES")), t.block("TABLE")]
        objs["TABLE"] = t.check()
        keys.append("TABLE")
        data = t.data()
    if which in ("cc", "sc", "sd"):
        head.insert(3, ("^CAL_TARGET_DATA", "光" + "cal.xlsx"))
    p = gb_label(d, pid, head, size, data)
    return p, objs, {"sig": (which,), "keys": keys,
                     "meta": {"NOTE_TEXT": note, "PRODUCT_ID": pid}}
