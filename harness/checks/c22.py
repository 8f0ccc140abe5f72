"""C22: products known to be odd are read with their corrections"""
import importlib

import numpy as np

import pdr
from packing import packed_bytes
from msn.core import SCENARIOS

for m in ("cassini", "mars", "outer", "planets", "arrays",
          "labels4"):
    importlib.import_module(f"msn.{m}")

PROP = "C22"
CASES = {"quick": 3000, "thorough": 20000}
RULE = (
    "case = one product with the defect that one special case of pdr/formats "
    "is about (or without it, in a product of the same data set), of known "
    "contents and random shape, types and further keywords, its data "
    "files sometimes compressed; loaded in random "
    "order, compared value by value, and loaded again (reloaded, in reverse "
    "order, or all at once). A behaviour is (special case, its variant, way "
    "of loading again)"
)
REQUIRED = ("tables_compared", "arrays_compared", "unsupported_left_alone",
            "checked_reload", "checked_other", "checked_all",
            "compressed_files") + tuple(
                "scenario_" + s[0] for s in SCENARIOS)


# these go by the name of the file that is opened, which compression changes
BY_FILE_NAME = ("mgn_img", "change_fw", "change_spaces", "ch2_class")


def compressed(rng, d, path):
    """compress the data files of a product; returns what to open"""
    for p in sorted(d.iterdir()):
        if not p.is_file() or p.suffix.lower() in (".lbl", ".fmt", ".xml",
                                                   ".lblx", ".gz"):
            continue
        kind = rng.choice(["gz", "bz2"])
        new = p.with_name(f"{p.name}.{kind}")
        new.write_bytes(packed_bytes(rng, p.read_bytes(), p.name, kind))
        p.unlink()
        if p.name == path.name:
            path = path.with_name(new.name)
    return path


def run_case(rng, mon, idx):
    name, rules, f = SCENARIOS[idx % len(SCENARIOS)]
    got = f(rng, mon.tmp)
    path, objs = got[:2]
    opts = got[2] if len(got) > 2 else {}
    packed = name not in BY_FILE_NAME and rng.random() < .12
    if packed:
        path = compressed(rng, mon.tmp, path)
    mon.describe(f"{name} {sorted(objs)} {opts} {path.name}")
    before = {p: p.read_bytes() for p in mon.tmp.iterdir() if p.is_file()}
    data = pdr.read(path)
    if "keys" in opts:
        mon.check(sorted(data.keys()) == sorted(opts["keys"]), lambda: (
            f"{name}: keys {data.keys()}, should be {opts['keys']}"), "keys")
    for k, v in opts.get("meta", {}).items():
        mon.check(data.metaget(k) == v, lambda: (
            f"{name}: {k} is {data.metaget(k)!r}, should be {v!r}"), "meta")
    order = list(objs)
    rng.shuffle(order)
    for o in order:
        mon.check(o in data.keys(), lambda: (
            f"{name}: no {o} among {list(data.keys())}"), "keys")
        if f"{o}_HEADER" not in objs and not o.endswith("_HEADER"):
            data.load(o)
        objs[o](data[o], mon, f"{name}: {o} of {path.name}")
    # nothing of it depends on the order or number of times
    how = rng.choice(["reload", "other", "all"])
    if how == "reload":
        for o in order:
            data.load(o, reload=True)
            objs[o](data[o], mon, f"{name}: {o} of {path.name}, reloaded")
    elif how == "other":
        data = pdr.read(str(path))
        for o in order[::-1]:
            objs[o](data[o], mon, f"{name}: {o} of {path.name}, again")
    else:
        data = pdr.read(path)
        data.load("all")
        for o in order:
            objs[o](data[o], mon, f"{name}: {o} of {path.name}, all")
    mon.saw("checked_" + how)
    for o in opts.get("scaled", ()):
        got = data.get_scaled(o)
        mon.check(np.ma.getdata(got).shape == data[o].shape,
                  lambda: f"{name}: {o} is scaled to {got.shape}", "scaled")
        objs[o](data[o], mon, f"{name}: {o} after get_scaled")
    for p, b in before.items():
        mon.check(p.read_bytes() == b, lambda: f"{p.name} changed", "files")
    mon.saw("scenarios")
    if packed:
        mon.saw("compressed_files")
    mon.saw("scenario_" + name)
    for r in rules:
        mon.saw("rule_" + r)
    mon.sig(name, *opts.get("sig", ()), how)
