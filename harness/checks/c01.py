"""C01: raster objects decode to exactly the array the label describes"""
import gc

import pdr
from pds3w import build_product
from pobj import gen_image, gen_qube

PROP = "C01"
CASES = {"quick": 1200, "thorough": 12000}
RULE = (
    "case = one generated PDS3 product holding 1-3 IMAGE / QUBE objects "
    "(random sample type, width, byte order, dimensions, band storage, line "
    "prefix/suffix bytes, ISIS pre/suffix planes) written by an independent "
    "encoder in attached, detached or per-object files with junk between "
    "objects; a behaviour is (type, width, band layout, padding, file "
    "layout, pointer unit) and counts when at least one array was compared "
    "element by element with the expectation"
)
REQUIRED = ("objects_compared", "image", "qube", "linefix", "axplane",
            "multiband")


def run_case(rng, mon, idx):
    nobj = rng.choice([1, 1, 2, 3])
    names = {"image": ["IMAGE", "BROWSE_IMAGE", "SECOND_IMAGE"],
             "qube": ["QUBE", "SPECTRAL_QUBE", "OTHER_QUBE"]}
    objs = []
    for i in range(nobj):
        kind = rng.choice(["image", "image", "qube"])
        n = names[kind].pop(0)
        o = gen_image(rng, n, big=rng.random() < 0.02) if kind == "image" \
            else gen_qube(rng, n)
        o.meta["kind"] = kind
        objs.append(o)
    path, info = build_product(rng, mon.tmp, objs)
    mon.describe({"objects": [o.meta["desc"] for o in objs],
                  "mode": info["mode"], "ptr": info["ptr"]})
    data = pdr.read(path)
    order = list(objs)
    rng.shuffle(order)
    for o in order:
        o.verify(data, o.name, mon, where=f"{info['mode']}/{info['ptr']}: ")
        m = o.meta
        mon.saw(m["kind"])
        mon.saw("multiband", int(m["bands"] > 1))
        if m["kind"] == "image":
            mon.saw("linefix", int(m["pre"] + m["suf"] > 0))
            mon.sig("image", m["type"], m["width"], m["bst"],
                    bool(m["pre"]), bool(m["suf"]), info["mode"],
                    info["ptr"])
        else:
            mon.saw("axplane", int(m["fix"][0] is not None))
            mon.sig("qube", m["type"], m["width"], m["order"], m["fix"][:2],
                    info["mode"], info["ptr"])
    del data
    gc.collect(0)
