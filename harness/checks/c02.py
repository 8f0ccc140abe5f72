"""C02: every object is found where the label says, and on its own"""
import copy

import numpy as np
import pandas as pd

import pdr
from enc import numbered
from packing import packed_bytes
from pascii import gen_ascii_table
from pds3w import IDENTIFIERS, Qty, Raw, build_product, write_detached
from pmisc import (gen_ascii_array, gen_bin_array, gen_header, gen_histogram,
                   gen_struct_array)
from pobj import gen_image, gen_qube
from ptab import gen_bin_table

PROP = "C02"
CASES = {"quick": 900, "thorough": 12000}
RULE = (
    "case = one product holding 2-6 data objects of different kinds (images, "
    "qubes, binary / ASCII tables, arrays, histograms, headers, objects of "
    "the same name) in one attached file, one detached file or several "
    "files, with junk between objects, pointers in records, bytes, "
    "(file, record), (file, byte) or bare file form, records of the label's "
    "size or the definition's own, optionally inside FILE "
    "objects; objects are loaded in random order and compared with what was "
    "written, and loaded again from a second reader in another order. A "
    "behaviour is (file layout, pointer form, kinds present)"
)
REQUIRED = ("products", "objects_compared", "duplicates", "wrapped",
            "duplicates_wrapped",
            "mode_attached", "mode_detached", "mode_split",
            "independence_checked", "own_records",
            "from_end", "from_end_compressed")

SAFE_FEATS = ("items", "gap", "rowpad", "suffix", "char", "bool", "vax",
              "ibm")


def snapshot(v):
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, pd.DataFrame):
        return ("d", tuple(v.columns), repr(v.to_dict("list")))
    return ("o", repr(v))


def make_objs(rng):
    makers = {
        "IMAGE": lambda n: gen_image(rng, n),
        "BROWSE_IMAGE": lambda n: gen_image(rng, n, max_bands=1),
        "SPECTRAL_QUBE": lambda n: gen_qube(rng, n),
        "TABLE": lambda n: gen_bin_table(
            rng, n, {f for f in SAFE_FEATS if rng.random() < .3}),
        "ENGINEERING_TABLE": lambda n: gen_bin_table(
            rng, n, {f for f in SAFE_FEATS if rng.random() < .3}),
        "ASCII_TABLE": lambda n: gen_ascii_table(
            rng, n, style=rng.choice(["fixed", "csv"])),
        "DATA_ARRAY": lambda n: gen_bin_array(rng, n),
        "IMAGE_HISTOGRAM": lambda n: gen_histogram(rng, n),
        "HEADER": lambda n: gen_header(rng, n),
        "IMAGE_HEADER": lambda n: gen_header(rng, n),
    }
    names = rng.sample(list(makers), rng.randint(2, 6))
    objs = []
    for n in names:
        o = makers[n](n)
        o.meta.setdefault("kind", n)
        o.meta["kind"] = n
        objs.append(o)
    dup = None
    if rng.random() < 0.25:
        dup = rng.choice(["IMAGE", "TABLE"])
        objs = [o for o in objs if o.name != dup]
        n = rng.choice([2, 2, 3])
        for i in range(n):
            o = makers[dup](dup)
            o.label_name, o.name = dup, f"{dup}_{i}"
            o.meta["kind"] = "dup-" + dup
            objs.insert(rng.randint(0, len(objs)), o)
        taken = ()
        if rng.random() < .2:
            # one has such a name to begin with
            taken = (f"{dup}_{rng.choice([0, 0, 1])}",)
            o = makers[dup](taken[0])
            o.meta["kind"] = "dup-" + dup
            objs.insert(rng.randint(0, len(objs)), o)
        new = numbered(dup, n, taken)
        for o in objs:
            if o.label_name:
                o.name = new.pop(0)
    return objs, dup


def own_records_case(rng, mon):
    """definitions with record sizes of their own, which the pointers count"""
    makers = {"IMAGE": gen_image, "TABLE": lambda r, n: gen_bin_table(
        r, n, {f for f in SAFE_FEATS if r.random() < .3}),
        "DATA_ARRAY": gen_bin_array, "HISTOGRAM": gen_histogram}
    objs = [makers[n](rng, n) for n in rng.sample(
        list(makers), rng.randint(1, 3))]
    whole = rng.choice([None, 7, 64, 80, 512])
    blob, ptrs = bytearray(rng.randbytes(rng.choice([0, 0, 5, 90]))), []
    for o in objs:
        own = rng.choice([None, 5, 16, 80, 100])
        size = own or whole
        if own:
            o.block.items.insert(rng.randint(0, len(o.block.items)),
                                 ("RECORD_BYTES", own))
            mon.saw("own_records")
        if size is None:
            ptrs.append((f"^{o.name}", ("all.dat", Qty(len(blob) + 1,
                                                       "BYTES"))))
        else:
            blob += rng.randbytes(-len(blob) % size)
            ptrs.append((f"^{o.name}", ("all.dat", len(blob) // size + 1)))
        blob += o.payload
    (mon.tmp / "all.dat").write_bytes(blob + rng.randbytes(9))
    head = [("PDS_VERSION_ID", Raw("PDS3"))]
    if whole:
        head += [("RECORD_TYPE", Raw("FIXED_LENGTH")),
                 ("RECORD_BYTES", whole)]
    path = write_detached(mon.tmp, "prod", head + ptrs + IDENTIFIERS + [
        o.block for o in objs])
    where = f"[records of {whole} bytes] "
    mon.describe({"where": where, "pointers": str(ptrs)})
    data = pdr.read(path)
    for o in rng.sample(objs, len(objs)):
        o.verify(data, o.name, mon, where)
    mon.sig("own-records", bool(whole), "+".join(sorted(
        o.name for o in objs)))


def from_end_case(rng, mon):
    """
    a table after some lines of text, which its pointer counts, of a file
    without records: it ends where the file does
    """
    o = gen_bin_table(rng, rng.choice(["TABLE", "TIME_SERIES"]), {
        f for f in SAFE_FEATS if f != "suffix" and rng.random() < .3})
    n = rng.randint(1, 5)
    blob = b"".join(rng.choice([b"", b"a line", b"x" * 70]) + b"\r\n"
                    for _ in range(n)) + o.payload
    packed = rng.choice([None, None, "gz", "bz2", "zip"])
    if packed:
        (mon.tmp / ("all.dat." + packed)).write_bytes(
            packed_bytes(rng, blob, "all.dat", packed))
        mon.saw("from_end_compressed")
    else:
        (mon.tmp / "all.dat").write_bytes(blob)
    path = write_detached(mon.tmp, "prod", [
        ("PDS_VERSION_ID", Raw("PDS3")),
        ("RECORD_TYPE", Raw(rng.choice(["STREAM", "UNDEFINED"]))),
        (f"^{o.name}", ("all.dat", n + 1))] + IDENTIFIERS + [o.block])
    where = f"[after {n} lines, {packed}] "
    mon.describe({"where": where, "object": o.meta["desc"]})
    o.verify(pdr.read(path), o.name, mon, where)
    mon.saw("from_end")
    mon.sig("from-end", packed)


def run_case(rng, mon, idx):
    if rng.random() < .04:
        return from_end_case(rng, mon)
    if rng.random() < .06:
        return own_records_case(rng, mon)
    objs, dup = make_objs(rng)
    mode = rng.choice(["attached", "detached", "split"])
    wrap = mode != "attached" and rng.random() < 0.3
    path, info = build_product(rng, mon.tmp, objs, mode=mode, wrap=wrap)
    mon.describe({"mode": mode, "ptr": info["ptr"], "wrap": wrap,
                  "objects": [(o.name, o.meta["desc"]) for o in objs]})
    where = f"[{mode}/{info['ptr']}/wrap={wrap}] "
    data = pdr.read(path)
    exp_keys = ["LABEL"] + [o.name for o in objs]
    mon.check(data.keys() == exp_keys,
              lambda: f"{where}keys {data.keys()} != {exp_keys}", "keys")
    mon.check(len(data) == len(exp_keys) and "IMAGE" not in data
              or "IMAGE" in exp_keys, "membership")
    order = rng.sample(objs, len(objs))
    snaps = {}
    for o in order:
        o.verify(data, o.name, mon, where)
        snaps[o.name] = snapshot(data[o.name])
    mon.check(data.keys() == exp_keys,
              lambda: f"{where}keys changed by loading: {data.keys()}",
              "keys")
    # earlier objects are untouched by loading later ones, and a second
    # reader that loads in another order sees the same things
    second = pdr.read(path)
    for o in sorted(objs, key=lambda o: o.name):
        a = snapshot(second[o.name])
        mon.check(a == snaps[o.name] == snapshot(data[o.name]),
                  lambda: f"{where}{o.name} depends on load order "
                          f"{[x.name for x in order]}", "independence")
        mon.saw("independence_checked")
    # a single object on its own
    one = rng.choice(objs)
    third = pdr.read(path)
    mon.check(snapshot(third[one.name]) == snaps[one.name],
              lambda: f"{where}{one.name} differs when loaded alone",
              "independence")
    left = set(exp_keys) - {one.name}
    mon.check(set(third.unloaded()) == left,
              lambda: f"{where}loading {one.name} also loaded "
                      f"{left - set(third.unloaded())}", "laziness")
    mon.saw("products")
    mon.saw("duplicates", int(dup is not None))
    mon.saw("wrapped", int(wrap))
    mon.saw("duplicates_wrapped", int(wrap and dup is not None))
    mon.saw("mode_" + mode)
    mon.sig(mode, info["ptr"], wrap, "+".join(sorted(
        o.meta["kind"] for o in objs)))
