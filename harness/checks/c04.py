"""C04: binary tables decode to exactly the values and names of the label"""
import pdr
from pds3w import build_product
from ptab import gen_bin_table

PROP = "C04"
CASES = {"quick": 1500, "thorough": 20000}
RULE = (
    "case = one product with 1-2 binary TABLE / SERIES / SPECTRUM objects "
    "whose columns are drawn from every PDS3 binary type (integers of 1-8 and "
    "10 bytes, IEEE / PC / VAX / IBM reals, booleans, text, also of numbers, EBCDIC, bit strings) with gaps, "
    "ITEMS, ITEM_OFFSET, repeated CONTAINERs, row prefix/suffix/padding, "
    "duplicate names, scaling, columns listed out of byte order; rows are "
    "written byte by byte by the generator. A behaviour is (layout feature "
    "set, column type) of an object whose every cell was compared"
)
REQUIRED = ("objects_compared", "columns_compared", "f_items",
            "f_container", "f_bits", "f_ibm", "f_vax", "f_dup", "f_scale",
            "f_suffix", "f_prefix", "f_wide", "f_numerals")


def run_case(rng, mon, idx):
    names = rng.sample(["TABLE", "IMAGE_TIME_TABLE", "TIME_SERIES",
                        "SPECTRUM", "ENGINEERING_TABLE"],
                       rng.choice([1, 1, 2]))
    objs = [gen_bin_table(rng, n) for n in names]
    path, info = build_product(rng, mon.tmp, objs)
    mon.describe([o.meta["desc"] for o in objs])
    data = pdr.read(path)
    for o in rng.sample(objs, len(objs)):
        o.verify(data, o.name, mon)
        for f in o.meta["feats"]:
            mon.saw("f_" + f)
        for t in o.meta["types"]:
            mon.sig(t, "+".join(sorted(
                o.meta["feats"] & {"items", "container", "rowpad", "prefix",
                                   "suffix", "gap", "shuffled", "scale"})))
