"""C13: damage to one object is reported and contained (PDS3)"""
import gzip
import warnings

import numpy as np
import pandas as pd

import pdr
from checks.c02 import make_objs, snapshot
from pds3w import Obj, Raw, build_product
from pdrtools import quiet_tracker

PROP = "C13"
CASES = {"quick": 900, "thorough": 12000}
RULE = (
    "case = one generated PDS3 product of 2-6 objects, one of which is then "
    "damaged: file deleted, emptied, truncated, replaced by a bad gzip "
    "stream, pointer past the end of the file or of the wrong type, pointer "
    "in records without a record size, definition block missing, keyword "
    "missing or nonsensical, unknown type, missing, broken or circular format file, "
    "unsupported feature. Opening must work; accessing the damaged object "
    "must not raise, must warn and yield its label metadata where it cannot "
    "be read; every other object must equal what was written, before and "
    "after. A behaviour is (damage, object kind, debug, order)"
)
REQUIRED = ("damaged_warned", "siblings_compared", "fallback_metadata",
            "load_all", "debug_missing", "debug_contained",
            "missing_file", "truncated", "emptied", "bad_gzip", "past_end",
            "bad_type", "no_block", "drop_keyword", "bad_keyword",
            "no_record_size", "no_structure", "unsupported",
            "truncated_table_reported")

BINARY = ("IMAGE", "BROWSE_IMAGE", "SPECTRAL_QUBE", "TABLE",
          "ENGINEERING_TABLE", "DATA_ARRAY", "IMAGE_HISTOGRAM")
RASTER = ("IMAGE", "BROWSE_IMAGE", "SPECTRAL_QUBE")
BTABLE = ("TABLE", "ENGINEERING_TABLE")


def items_of(block):
    return [i for i, it in enumerate(block.items) if isinstance(it, tuple)]


def set_key(block, keys, val):
    for i, it in enumerate(block.items):
        if isinstance(it, tuple) and it[0] in keys:
            block.items[i] = (it[0], val)
            return True
    return False


# Each damage returns (decisive, how). `decisive` means that no sane reading
# of the object exists any more, so it must be reported.
def d_missing_file(rng, o, info):
    info["files"][o.name].unlink()
    return True


def d_emptied(rng, o, info):
    info["files"][o.name].write_bytes(b"")
    return o.meta["kind"] in BINARY


def d_truncated(rng, o, info):
    p = info["files"][o.name]
    b = p.read_bytes()
    start = info["start"][o.name]
    end = start + len(o.payload)
    cut = rng.choice([start, end - 1, rng.randint(start, end - 1)])
    p.write_bytes(b[:cut])
    return o.meta["kind"] in BINARY


def d_bad_gzip(rng, o, info):
    p = info["files"][o.name]
    raw = gzip.compress(p.read_bytes())
    p.unlink()
    how = rng.choice(["garbage", "header", "empty"])
    raw = {"garbage": b"this is not gzip data" * 20, "header": raw[:9],
           "empty": b""}[how]
    p.with_name(p.name + ".gz").write_bytes(raw)
    return how == "garbage" or o.meta["kind"] in BINARY


AFTER = {"missing_file": d_missing_file, "emptied": d_emptied,
         "truncated": d_truncated, "bad_gzip": d_bad_gzip}


def b_drop_keyword(rng, o):
    ix = items_of(o.block)
    k = rng.choice(ix)
    key = o.block.items[k][0]
    del o.block.items[k]
    decisive = (
        o.meta["kind"] in ("IMAGE", "BROWSE_IMAGE")
        and key in ("LINES", "LINE_SAMPLES", "SAMPLE_TYPE", "SAMPLE_BITS")
        or o.meta["kind"] == "SPECTRAL_QUBE"
        and key in ("CORE_ITEMS", "CORE_ITEM_BYTES", "CORE_ITEM_TYPE",
                    "AXIS_NAME")
    )
    return decisive, key


def b_bad_keyword(rng, o):
    ix = items_of(o.block)
    k = rng.choice(ix)
    key = o.block.items[k][0]
    val = rng.choice([Raw("UNK"), "N/A", -1, Raw("NULL"), Raw("(1, 2, 3)"),
                      1.5, "", Raw("2001-01-01T00:00:00"), Raw("{1, 2}"),
                      10 ** 12, 0, Raw("16#FF#"), Raw("(UNK, UNK)")])
    if key == "ITEMS" and val == 10 ** 12:
        # (each item has a field definition of its own: memory is the limit)
        val = 10 ** 4
    o.block.items[k] = (key, val)
    decisive = (o.meta["kind"] in ("IMAGE", "BROWSE_IMAGE")
                and key in ("LINES", "LINE_SAMPLES")
                and isinstance(val, str)
                and val in ("UNK", "N/A", "NULL", ""))
    return decisive, f"{key}={val}"


def b_bad_type(rng, o):
    bad = Raw(rng.choice(["FLUX_CAPACITOR", "COMPLEX_QUATERNION", "UNKNOWN"]))
    done = set_key(o.block, ("SAMPLE_TYPE", "CORE_ITEM_TYPE", "DATA_TYPE"),
                   bad)
    if not done:
        for it in o.block.items:
            if isinstance(it, Obj) and set_key(it, ("DATA_TYPE",), bad):
                done = True
                break
    return done and o.meta["kind"] in RASTER, str(bad)


def b_no_block(rng, o):
    o.block = None
    return o.meta["kind"] in RASTER + BTABLE, ""


def b_no_structure(rng, o):
    o.block.items = [it for it in o.block.items if not isinstance(it, Obj)]
    o.block.items.append(("^STRUCTURE", "NO_SUCH_FILE.FMT"))
    if rng.random() < .4:
        o.sidecars["NO_SUCH_FILE.FMT"] = rng.choice([
            b"", b"\x00\xff\xfe garbage", b"OBJECT = COLUMN\r\n NAME = X\r\n",
            b"END\r\n"])
        return True, "broken"
    if rng.random() < .4:
        # format files that contain themselves
        own = b'^STRUCTURE = "NO_SUCH_FILE.FMT"\r\n'
        col = (b"OBJECT = COLUMN\r\n NAME = X\r\n DATA_TYPE = CHARACTER\r\n "
               b"START_BYTE = 1\r\n BYTES = 1\r\nEND_OBJECT = COLUMN\r\n")
        how = rng.choice(["itself", "twice", "through another", "container"])
        if how == "through another":
            o.sidecars["OTHER_FILE.FMT"] = rng.choice([b"", col]) + own
            own = own.replace(b"NO_SUCH", b"OTHER")
        elif how == "twice":
            own += col + own
        elif how == "container":
            own = (b"OBJECT = CONTAINER\r\n NAME = Y\r\n START_BYTE = 1\r\n "
                   b"BYTES = 1\r\n REPETITIONS = 2\r\n" + own
                   + b"END_OBJECT = CONTAINER\r\n")
        o.sidecars["NO_SUCH_FILE.FMT"] = rng.choice([b"", col]) + own
        return True, "in a circle: " + how
    return True, "missing"


def b_unsupported(rng, o):
    how = rng.choice(["BIT_ELEMENT", "band storage", "axes"])
    if o.meta["kind"] == "DATA_ARRAY":
        o.block.items = [it for it in o.block.items
                         if not isinstance(it, Obj)]
        o.block.items.append(Obj("BIT_ELEMENT", [("NAME", "X")]))
        return False, "BIT_ELEMENT"
    if o.meta["kind"] == "SPECTRAL_QUBE":
        if how == "axes":
            set_key(o.block, ("AXES",), 4)
            set_key(o.block, ("AXIS_NAME",), Raw("(A, B, C, D)"))
            return False, "axes"
        set_key(o.block, ("AXIS_NAME",), Raw("(LINE, SAMPLE, BAND)"))
        return False, "axis order"
    set_key(o.block, ("BAND_STORAGE_TYPE",), Raw("SPIRAL_INTERLEAVED"))
    o.block.items.append(("ENCODING_TYPE", Raw("MYSTERY-COMPRESSION")))
    return False, "encoding"


BEFORE = {"drop_keyword": b_drop_keyword, "bad_keyword": b_bad_keyword,
          "bad_type": b_bad_type, "no_block": b_no_block,
          "no_structure": b_no_structure, "unsupported": b_unsupported}
LABEL = ("past_end", "bad_pointer", "no_record_size")


def edit_label(rng, label, o, how, info):
    """damage to a pointer in a detached label; returns decisive"""
    t = label.read_bytes()
    lines = t.split(b"\n")
    key = f"^{o.lname} ".encode()
    fn = info["files"][o.name].name
    for i, ln in enumerate(lines):
        if not ln.strip().startswith(key) or fn.encode() not in ln:
            continue
        cr = b"\r" if ln.endswith(b"\r") else b""
        if how == "past_end":
            n = rng.choice([10 ** 6, 10 ** 9])
            val = rng.choice([f'("{fn}", {n})', f'("{fn}", {n} <BYTES>)'])
            dec = o.meta["kind"] in BINARY
        elif how == "no_record_size":
            val, dec = f'("{fn}", 2)', None
        else:
            val = rng.choice(['"N/A"', '""', "UNK", "NULL", f'("{fn}", "X")',
                              "-5", "(1, 2, 3)", f'("{fn}", 1.5)',
                              "5 <FURLONGS>", f'("{fn}", 3 <FURLONGS>)',
                              "2001-01-01", f'{{"{fn}"}}',
                              f'("{fn}", "{fn}")', "TRUE", "()"])
            dec = False
        lines[i] = key + b"= " + val.encode() + cr
        label.write_bytes(b"\n".join(lines))
        return True, dec, val
    return False, None, None


def run_case(rng, mon, idx):
    objs, _ = make_objs(rng)
    o = rng.choice(objs)
    sib = [x for x in objs if x is not o]
    damage = rng.choice(
        ["missing_file"] * 2 + ["truncated"] * 3 + ["emptied", "bad_gzip"]
        + ["drop_keyword"] * 2 + ["bad_keyword"] * 3
        + ["bad_type", "no_block", "no_structure", "unsupported", "past_end",
           "bad_pointer", "bad_pointer", "no_record_size"])
    how, decisive, std = "", False, True
    if damage in BEFORE and o.block is None:
        damage = "truncated"
    if damage == "no_block" and o.label_name:
        # then nobody can tell which of the duplicates lost its definition
        damage = "bad_type"
    if damage == "no_structure" and o.meta["kind"] not in BTABLE + (
            "ASCII_TABLE",):
        damage = "missing_file"
    if damage in BEFORE:
        decisive, how = BEFORE[damage](rng, o)
    if damage == "no_record_size":
        std = False
    mode = "split"
    if damage in BEFORE:
        mode = rng.choice(["attached", "detached", "split"])
    path, info = build_product(rng, mon.tmp, objs, mode=mode, std=std,
                               ptr="bytes" if not std else None)
    if damage in AFTER:
        decisive = AFTER[damage](rng, o, info)
    if damage in LABEL:
        ok, decisive, how = edit_label(rng, info["label"], o, damage, info)
        assert ok
    kind = o.meta["kind"]
    where = f"[{damage} {how} on {kind} {o.name}, {mode}] "
    mon.describe({"damage": damage, "how": how, "object": o.name,
                  "kind": kind, "mode": mode,
                  "siblings": [x.name for x in sib]})
    opener = info.get("label", path)
    debug = rng.random() < .25
    data = pdr.read(opener)
    exp_keys = list(data.keys())
    mon.check(all(x.name in exp_keys for x in sib),
              lambda: f"{where}siblings missing from {exp_keys}", "keys")
    # a reference for the metadata, never used for loading
    meta = pdr.read(opener)
    if o.name not in exp_keys:
        # the damage was to the pointer itself (e.g. it no longer names
        # anything): all that's left is that siblings are fine
        mon.saw("dropped_from_index")
    before = rng.random() < .5
    text = str(data.metadata)

    def siblings(d, tag):
        for x in rng.sample(sib, len(sib)):
            x.verify(d, x.name, mon, where + tag)
            mon.saw("siblings_compared")

    if before:
        siblings(data, "before: ")
    if o.name in exp_keys:
        got, warned = access(data, o.name, mon, where)
        judge(mon, meta, o, kind, got, warned, decisive, where, damage)
        again, _ = access(data, o.name, mon, where + "again ")
        mon.check(again is got, f"{where}second access gave another object",
                  "second-access")
    siblings(data, "after: ")
    mon.check(data.keys() == exp_keys,
              lambda: f"{where}keys changed to {data.keys()}", "keys")
    mon.check(str(data.metadata) == text and repr(data),
              f"{where}metadata changed", "metadata")
    # everything at once
    every = pdr.read(opener)
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        every.load("all")
    mon.check(every.unloaded() == (),
              lambda: f"{where}load('all') left {every.unloaded()}",
              "load-all")
    for x in sib:
        x.verify(every, x.name, mon, where + "load all: ")
    mon.saw("load_all")
    if debug:
        debugging(rng, mon, opener, o, sib, damage, decisive, where)
    mon.saw(damage)
    mon.sig(damage, kind, mode, "before" if before else "after",
            "debug" if debug else "")


def access(data, name, mon, where):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            got = data[name]
        except Exception as ex:
            mon.fail(f"{where}access raised {ex!r}", "raised")
    return got, [str(x.message) for x in w
                 if x.category is not DeprecationWarning]


def judge(mon, meta, o, kind, got, warned, decisive, where, damage):
    fallback = meta.metaget_(o.name)
    is_fallback = type(got) is type(fallback) and (
        got == fallback if not isinstance(got, (np.ndarray, pd.DataFrame))
        else False)
    if is_fallback:
        mon.saw("fallback_metadata")
    if damage == "truncated" and isinstance(got, (np.ndarray, pd.DataFrame)):
        # a partial object is acceptable only if the user is told
        full = o.block is not None
        if kind in BINARY:
            mon.check(warned, f"{where}object of a truncated file was "
                      f"returned ({type(got).__name__} of {len(got)}) "
                      f"without a warning", "silent-truncation")
            mon.saw("truncated_table_reported")
        return
    if not decisive:
        return
    mon.check(any(o.name in t for t in warned) or warned,
              f"{where}no warning; got {type(got).__name__} {str(got)[:200]}",
              "silent")
    mon.saw("damaged_warned")
    if isinstance(got, pd.DataFrame) and len(got) == 0:
        return      # a table cut off before its first row
    mon.check(is_fallback, lambda: f"{where}got {type(got).__name__} "
              f"{str(got)[:200]}, not the label's metadata "
              f"{str(fallback)[:200]}; warnings {warned}", "fallback")


def debugging(rng, mon, opener, o, sib, damage, decisive, where):
    data = pdr.read(opener, debug=True, tracker=quiet_tracker())
    if o.name in data.keys():
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                data.load(o.name)
            mon.saw("debug_contained")
            if damage == "missing_file":
                mon.fail(f"{where}debug mode did not raise", "debug")
            mon.check(w or not decisive or damage == "truncated",
                      f"{where}no warning in debug mode", "debug")
        except FileNotFoundError:
            mon.check(damage in ("missing_file", "no_structure",
                                 "bad_pointer"),
                      f"{where}debug mode raised FileNotFoundError", "debug")
            mon.saw("debug_missing")
    for x in sib:
        x.verify(data, x.name, mon, where + "debug: ")
