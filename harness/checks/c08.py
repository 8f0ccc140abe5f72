"""C08: ARRAY, COLLECTION and HISTOGRAM objects"""
import pdr
from pds3w import build_product
from pmisc import (gen_ascii_array, gen_bin_array, gen_histogram,
                   gen_nested_array, gen_struct_array)

PROP = "C08"
CASES = {"quick": 1500, "thorough": 20000}
RULE = (
    "case = one product with 1-2 ARRAY (binary, ASCII, of ELEMENT, of "
    "COLLECTION, of ARRAY) or HISTOGRAM objects of random type, shape and placement, "
    "every element compared. A behaviour is (object kind, type, rank, "
    "layout)"
)
REQUIRED = ("objects_compared", "array-bin", "array-struct", "array-ascii",
            "histogram", "array-nested", "nested_arrays",
            "ascii_among_others", "array-ascii-typed")


def run_case(rng, mon, idx):
    k = rng.choice(["bin", "struct", "nested", "ascii", "hist", "mix"])
    if k == "ascii":
        objs = [gen_ascii_array(rng, rng.choice(["ARRAY", "DATA_ARRAY"]))]
        if rng.random() < .5:
            objs.append(rng.choice([gen_ascii_array, gen_bin_array])(
                rng, "SECOND_ARRAY"))
            mon.saw("ascii_among_others")
        path, info = build_product(rng, mon.tmp, objs)
    else:
        if k == "bin":
            objs = [gen_bin_array(rng)]
        elif k == "struct":
            objs = [gen_struct_array(rng, tails=True)]
        elif k == "nested":
            objs = [gen_nested_array(rng)]
        elif k == "hist":
            objs = [gen_histogram(rng, rng.choice(["HISTOGRAM",
                                                   "IMAGE_HISTOGRAM"]))]
        else:
            objs = [gen_bin_array(rng, "QUALITY_ARRAY"), gen_histogram(rng),
                    gen_struct_array(rng)]
            rng.shuffle(objs)
        path, info = build_product(rng, mon.tmp, objs)
    mon.describe([o.meta["desc"] for o in objs])
    data = pdr.read(path)
    for o in rng.sample(objs, len(objs)):
        o.verify(data, o.name, mon, f"[{info['mode']}/{info['ptr']}] ")
        m = o.meta
        mon.saw(m["kind"])
        if m.get("typed"):
            mon.saw("array-ascii-typed")
        mon.sig(m["kind"], m.get("type"), m.get("width"), m.get("ndim"),
                m.get("nel"), m.get("gaps"), info["mode"], info["ptr"])
