"""C21: identifying keywords of ordinary products do not change how they read"""
import json

import numpy as np

import pdr
from checks.c02 import snapshot
from pascii import gen_ascii_table
from pds3w import DataObj, Obj, Qty, Raw, build_product, IDENTIFIERS
from pmisc import (gen_ascii_array, gen_bin_array, gen_header, gen_histogram,
                   gen_struct_array)
from pobj import gen_image, gen_qube
from ptab import gen_bin_table
from rules import RULES, applicable

PROP = "C21"
CASES = {"quick": 4500, "thorough": 40000}
RULE = (
    "case = one product of 1-4 objects of known content, under names that "
    "special cases look for, whose identifying keywords are values of every "
    "PVL type, near misses of a special case (all of its conditions but one, "
    "which is missing, off by a character, differently cased or in another "
    "keyword), or exactly those of a special case for other objects than the "
    "ones it is about; in files and directories with tell-tale names. "
    "Everything must read as written. A behaviour is (way of choosing "
    "keywords, special case approached, condition broken, object kinds)"
)
REQUIRED = ("objects_compared", "types", "near", "other", "swapped", "paths",
            "rules_approached", "keyword_missing", "value_off",
            "special_constants", "block_differs", "notes")

KEYS = ("DATA_SET_ID", "DATA_SET_NAME", "DATA_QUALITY_DESC", "FILE_NAME",
        "INSTRUMENT_ID", "INSTRUMENT_HOST_NAME", "INSTRUMENT_NAME", "NOTE",
        "PRODUCT_ID", "PRODUCT_TYPE", "SPACECRAFT_NAME",
        "STANDARD_DATA_PRODUCT_ID")
TABLES = ("TABLE", "TABLE", "TABLE", "TABLE_1", "HEADER_TABLE", "DATA_TABLE",
          "TIME_SERIES", "TIME_SERIES", "WEAREC_TABLE", "SPECTRUM_TABLE",
          "DOPPLER_TABLE", "RANGING_TABLE", "ATM_TABLE", "I_TABLE",
          "Q_TABLE", "TBL_TABLE", "WCHEM_TABLE", "FREQ_OFFSET_TABLE",
          "FREQUENCY_SERIES", "SERIES", "SPECTRUM", "SPECTRAL_SERIES",
          "RPWS_TIME_ORDERED_TABLE", "ODF3B_TABLE", "IMAGE_REPLY_TABLE",
          "ERROR_CONTROL_TABLE", "REMS_REPORT_TABLE", "REMS_SCIENCE_TABLE",
          "TELEMETRY_TABLE", "PREFIX_TABLE", "ENGINEERING_TABLE")
KINDS = {
    "image": (("IMAGE", "IMAGE", "BROWSE_IMAGE", "QUALITY_IMAGE",
               "EXT_MASK_IMAGE", "IMAGE_2"), lambda r, n: gen_image(r, n)),
    "qube": (("QUBE", "QUBE", "SPECTRAL_QUBE", "SAMPLE_SPECTRAL_QUBE"),
             lambda r, n: gen_qube(r, n)),
    "table": (TABLES, lambda r, n: gen_bin_table(
        r, n, {f for f in ("items", "gap", "suffix", "bits", "vax", "ibm",
                           "char", "rowpad", "bool") if r.random() < .35})),
    "ascii": (TABLES, lambda r, n: gen_ascii_table(
        r, n, style=r.choice(["fixed", "csv"]))),
    "sheet": (("SPREADSHEET", "SPREADSHEET", "DATA_SPREADSHEET"),
              lambda r, n: gen_ascii_table(r, n, style="sheet")),
    "array": (("ARRAY", "ARRAY", "DATA_ARRAY"), gen_bin_array),
    "sarray": (("ARRAY", "STRUCT_ARRAY"), gen_struct_array),
    "aarray": (("ARRAY", "ASCII_ARRAY"), gen_ascii_array),
    "hist": (("HISTOGRAM", "IMAGE_HISTOGRAM"), gen_histogram),
    "header": (("HEADER", "HEADER", "IMAGE_HEADER", "ENVI_HEADER"),
               gen_header),
}
PLAIN = dict(IDENTIFIERS)


def odd_value(rng):
    """(value to write, what it is)"""
    return rng.choice([
        (rng.randint(-5, 10**9), "int"), (0, "int"),
        (rng.randint(1, 99999) / 8, "real"),
        (Qty(rng.randint(0, 99), rng.choice(["KM", "BYTES", "s"])), "qty"),
        (Raw('{"A-B", "C"}'), "set"), (Raw("{1, 2, 3}"), "set"),
        (Raw('("XX-Y-1", "B")'), "seq"), (Raw("(1, 2.5, 3)"), "seq"),
        (Raw("(5 <m>, 6 <m>)"), "seq"), (Raw('("A", 1)'), "seq"),
        (Raw("2004-05-06"), "date"), (Raw("2004-05-06T07:08:09.5"), "date"),
        (Raw("2004-127"), "date"), (Raw("12:30:00"), "date"),
        (Raw("UNK"), "sym"), (Raw("'N/A'"), "sym"), (Raw("NULL"), "sym"),
        (Raw("16#FF#"), "radix"), (Raw("2#101#"), "radix"),
        ("", "empty"), (" ", "empty"), ("A\r\n     B", "lines"),
        (Raw("CASSINI"), "sym"), (Raw("TRUE"), "sym"),
        ("ÅÄÖ".encode().decode("latin-1"), "non-ascii")
    ])


class Proxy(dict):
    """evaluates like the text a special case would see"""


def near_rule(rng, r):
    """
    ids like those of r with one condition broken, what was broken
    """
    name, conds, obj, fn, needs = r
    ids = {k: rng.choice(c.examples) for k, c in conds.items() if c.examples}
    how = []
    if ids:
        how += ["missing", "off", "off", "off", "swap"]
    if obj is not None or fn is not None or not ids:
        how += ["object", "object"]
    if needs is not None:
        how += ["block"] * 3
    how = rng.choice(how)
    k = rng.choice(list(ids)) if ids else None
    if how == "missing":
        ids.pop(k)
    elif how == "off":
        ids[k] = rng.choice(conds[k].near)
    elif how == "swap":
        other = rng.choice([x for x in KEYS if x != k])
        ids[k], ids[other] = ids.get(other, "NOTHING"), ids[k]
    return ids, how, k


def names_for(rng, r, avoid):
    obj = r[2] if r else None
    out = {}
    for k, (names, _) in KINDS.items():
        cand = list(names)
        if obj is not None and obj.examples and k in (
                "table", "ascii", "image", "sheet"):
            ex = [n for n in obj.examples if fits_kind(k, n)]
            cand += ex * 8
        if avoid and obj is not None:
            cand = [n for n in cand if not obj.ok(n)]
        out[k] = cand
    return out


def fits_kind(kind, n):
    if not n.replace("_", "").isalnum() or n == "XDR_DOCUMENT" or (
            "IMAGE_PREFIX" in n):
        return False
    tab = any(w in n for w in ("TABLE", "SERIES", "SPECTRUM"))
    if "ARRAY" in n or "HEADER" in n and "TABLE" not in n or "DESC" in n:
        return False
    if kind in ("table", "ascii"):
        return tab and "QUB" not in n
    if kind == "sheet":
        return "SPREADSHEET" in n
    return "IMAGE" in n and not tab and "HISTOGRAM" not in n


def constants_case(rng, mon, ids):
    """CRISM's extra constant belongs to CRISM's images only"""
    a = np.array([0, 5, 65535, 65535, 7, 9], ">i4").reshape(2, 3)
    (mon.tmp / "k.img").write_bytes(a.tobytes())
    from pds3w import write_detached
    crism = rng.random() < 0.5
    v = dict(ids)
    v["INSTRUMENT_ID"] = "CRISM" if crism else rng.choice(
        ["CRISMX", "crism", "HIRISE", "CRIS", "XCRISM"])
    if applicable(v, [("IMAGE", None)], []) not in ([], ["crism-null"]):
        return
    p = write_detached(mon.tmp, "k", [
        ("PDS_VERSION_ID", "PDS3"), *v.items(), ("^IMAGE", "k.img"),
        Obj("IMAGE", [("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_BITS", 32),
                      ("SAMPLE_TYPE", "MSB_INTEGER")])])
    data = pdr.read(p)
    got = data.get_scaled("IMAGE")
    mask = np.ma.getmaskarray(got)
    exp = (a == 65535) if crism else np.zeros_like(a, bool)
    mon.check((mask == exp).all(), lambda: (
        f"masked {mask.tolist()} of {a.tolist()} with INSTRUMENT_ID "
        f"{v['INSTRUMENT_ID']}"), "constants")
    mon.saw("special_constants")


def run_case(rng, mon, idx):
    how = rng.choice(["types", "near", "near", "near", "near", "paths"])
    broken, target = None, None
    for attempt in range(200):
        r = None
        ids = {}
        if how == "types":
            for k in rng.sample(KEYS + ("LABEL_RECORDS",),
                                rng.randint(1, 6)):
                ids[k] = odd_value(rng)
        elif how == "near":
            r = RULES[(idx * 7 + rng.randint(0, 6)) % len(RULES)]
            got, broken, k = near_rule(rng, r)
            ids = {a: (b, "text") for a, b in got.items()}
            target = (r[0], broken, k)
        base = {k: (v, "text") for k, v in PLAIN.items()}
        if rng.random() < 0.7:
            base = {k: v for k, v in base.items() if rng.random() < 0.5}
        full = {**base, **ids}
        if broken == "missing":
            full.pop(target[2], None)
        pool = names_for(rng, r, broken == "object")
        few = 2 if r is not None and r[2] is None else 1
        kinds = rng.sample([k for k in KINDS if pool[k]],
                           rng.randint(few, 4))
        if few == 2:
            # special cases about any object are mostly about data types
            kinds = list(dict.fromkeys(rng.sample(
                ["image", "table", "qube"], 2) + kinds))
        names = []
        if r is not None and r[2] is not None:
            # an object the special case is about comes first
            fit = [k for k in pool if any(r[2].ok(n) for n in pool[k])]
            if fit and broken != "object":
                k0 = rng.choice(fit)
                kinds = [k0] + [k for k in kinds if k != k0]
        objs, used = [], set()
        for i, k in enumerate(kinds):
            cand = [n for n in pool[k] if n not in used]
            if (i == 0 and r is not None and r[2] is not None
                    and broken != "object"):
                cand = [n for n in cand if r[2].ok(n)] or cand
            if not cand:
                continue
            n = rng.choice(cand)
            # names of which one contains another are C02's business
            o = KINDS[k][1](rng, n)
            if o.name in used:
                continue
            o.meta["kind"] = k
            used.add(o.name)
            objs.append(o)
        if not objs:
            continue
        stem, sub = "prod", ""
        if how == "paths" or rng.random() < 0.15:
            stem = rng.choice([
                "CE2_X.01", "MAG_X_DOY123_V1", "HUY_DTWG_ENTRY_AERO",
                "TRAJ_ICE", "ULVS_DDP_IMAGE", "x.txt", "CE1_a.2C",
                "ODF_TNF", "IMAGE_STRIP"])
            sub = rng.choice(["", "CE1.01", "CE3/x.2A", "MAG_DOY_V1.TAB",
                              "a.img", "EDR.txt", "TRAJ_ICE", "IMQ",
                              "HUY_DTWG_ENTRY_AERO", "data.gz", "x.fits"])
        mode = rng.choice(["attached", "detached", "split"])
        alone = {"sheet", "aarray"} & {o.meta["kind"] for o in objs}
        if alone:
            # these end where their file ends
            mode = "split" if len(objs) > 1 else mode
        text = {k: v for k, (v, t) in full.items() if t == "text"}
        seen = {k: str(v) for k, v in text.items()}
        files = [f"{sub}/{stem}.{o.ext}" for o in objs]
        if not applicable(seen, 
                          [("LABEL", None)] + [(o.name, o.block)
                                               for o in objs], files):
            break
        if rng.random() < .02:
            how = "near"
    else:
        mon.saw("rejected")
        return
    d = mon.tmp / sub if sub else mon.tmp
    d.mkdir(parents=True, exist_ok=True)
    written = [(k, v) for k, (v, _) in full.items()]
    rng.shuffle(written)
    extra, note = [], None
    if sub or rng.random() < 0.1:
        note = rng.choice(["25 °C é", "naïve – 5 µm", "日本 25°"])
        extra = [("SYNTH_REMARK", note.encode().decode("latin-1"))]
    if rng.random() < 0.15 and written:
        # keywords in a group count as well
        extra += [Obj("IDENTIFICATION", [written.pop()], "GROUP")]
    what = (f"{how} {target} {written} {[o.name for o in objs]} "
            f"{[o.meta['kind'] for o in objs]} {sub} {stem} {mode} ")
    mon.describe(what)
    path, info = build_product(rng, d, objs, mode=mode, identifiers=written,
                               extra=extra, stem=stem, junk=not alone,
                               trailing=not alone)
    data = pdr.read(path)
    # the label is text in UTF-8, wherever it is
    name = path.name
    if note is not None and not (
            any(t in name for t in ("CE1", "CE2", "CE3"))
            and any(f".{a}" in name for a in (
                "1A", "1B", "1C", "2A", "2B", "2C", "3A", "3B", "3C",
                "01", "02", "03"))) and not (
            ".TAB" in name and "_DOY" in name and "_V1" in name):
        got = data.metaget("SYNTH_REMARK")
        mon.check(got == note, lambda: (
            f"{what}: a remark reads as {got!r}, not {note!r}"),
            "encoding")
        mon.saw("notes")
    order = list(objs)
    rng.shuffle(order)
    for o in order:
        o.verify(data, o.name, mon, what)
        mon.saw("objects_compared")
    # and again
    if rng.random() < 0.3:
        first = {o.name: snapshot(data[o.name]) for o in objs}
        for o in order:
            data.load(o.name, reload=True)
            mon.check(snapshot(data[o.name]) == first[o.name],
                      lambda: f"{o.name} changed on reload", "reload")
    mon.saw("paths" if sub or stem != "prod" else "plain_paths")
    if how == "near":
        mon.saw("near")
        mon.saw("rules_approached")
        mon.saw({"missing": "keyword_missing", "off": "value_off",
                 "swap": "swapped", "object": "other",
                 "block": "block_differs"}[broken])
    elif how == "types":
        mon.saw("types")
    mon.sig(how, target, broken,
            tuple(sorted((k, t) for k, (v, t) in full.items()
                         if t != "text")),
            tuple(sorted(o.meta["kind"] for o in objs)))
    if rng.random() < 0.1:
        constants_case(rng, mon, {k: v for k, v in text.items()})
