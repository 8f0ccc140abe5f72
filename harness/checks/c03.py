"""C03: files are found whatever their case, compression and place"""
import bz2
import gzip
import io
import shutil
import zipfile

import pdr
from packing import packed_bytes
from checks.c02 import snapshot
from pascii import gen_ascii_table
from pds3w import IDENTIFIERS, Obj, Qty, Raw, build_product, layout, \
    write_detached
from pmisc import (rand_text, gen_ascii_array, gen_bin_array, gen_header, gen_histogram,
                   gen_struct_array)
from pobj import gen_image, gen_qube
from ptab import gen_bin_table

PROP = "C03"
CASES = {"quick": 900, "thorough": 12000}
RULE = (
    "case = one generated product (1-3 objects of any kind, possibly an "
    "external format file) whose files are then renamed to random case, "
    "compressed with gzip / bzip2 / zip, moved to another directory given as "
    "search path, or surrounded by near-miss decoys, and which is opened "
    "through its label, its data file, an off-case spelling, label_fn or "
    "fastread. Every object must equal what was written. A behaviour is "
    "(disguise, way of opening, object kinds, file layout)"
)
REQUIRED = ("other_places", "objects_compared", "case", "gz", "bz2", "zip", "search_path",
            "open_label", "open_data", "open_offcase", "open_label_fn",
            "open_fastread", "decoy", "missing", "fmtfile",
            "comp_attached", "described_twice", "named_compressed", "open_compressed_data",
            "texts_compared")


def recase(rng, s):
    while True:
        t = rng.choice([str.upper, str.lower, lambda x: "".join(
            rng.choice([c.lower(), c.upper()]) for c in x)])(s)
        return t


def compress(rng, path, kind):
    """replace path with a compressed version; returns the new path"""
    raw = path.read_bytes()
    ext = {"gz": ".gz", "bz2": ".bz2", "zip": ".zip"}[kind]
    if rng.random() < 0.3:
        ext = ext.upper()
    new = path.with_name(path.name + ext)
    new.write_bytes(packed_bytes(rng, raw, path.name, kind))
    path.unlink()
    return new


MAKERS = {
    "image": lambda r: gen_image(r, "IMAGE"),
    "qube": lambda r: gen_qube(r, "QUBE"),
    "table": lambda r: gen_bin_table(
        r, "TABLE", {f for f in ("items", "gap", "suffix", "bits", "vax",
                                 "ibm", "char") if r.random() < .4}),
    "ascii": lambda r: gen_ascii_table(
        r, "ASCII_TABLE", style=r.choice(["fixed", "csv"])),
    "array": lambda r: gen_bin_array(r, "DATA_ARRAY"),
    "sarray": lambda r: gen_struct_array(r, "STRUCT_ARRAY"),
    "aarray": lambda r: gen_ascii_array(r, "ASCII_ARRAY"),
    "hist": lambda r: gen_histogram(r, "HISTOGRAM"),
    "header": lambda r: gen_header(r, "HEADER"),
}


def missing_file(rng, mon):
    name = recase(rng, "nothere.lbl")
    near = mon.tmp / (name[:-1] + rng.choice(["", "x", "l.txt"]))
    near.write_bytes(b"decoy")
    try:
        pdr.read(mon.tmp / name)
    except FileNotFoundError:
        pass
    else:
        mon.fail(f"reading nonexistent {name} next to {near.name} gave "
                 f"something", "missing")
    for url in ("http://x.y/z.lbl", "HTTPS://x.y/z.lbl", "ftp://a/b.img"):
        try:
            pdr.read(url)
        except ValueError:
            continue
        mon.fail("reading a URL did not raise ValueError", "missing")
    mon.saw("missing")
    mon.sig("missing", near.name[7:])


def described_twice(rng, mon, there=None):
    """
    a label that describes the compressed file (COMPRESSED_FILE) and what will
    come of it (UNCOMPRESSED_FILE): either, or both, may be there
    """
    tmp = mon.tmp / "prod"
    tmp.mkdir()
    kinds = rng.sample([k for k in MAKERS if k != "aarray"],
                       rng.choice([1, 1, 2]))
    objs = [MAKERS[k](rng) for k in kinds]
    for o in objs:
        for fn, content in o.sidecars.items():
            (tmp / fn).write_bytes(content)
    size = rng.choice([1, 64, 100, 512])
    blob, pos = layout(rng, objs, 0, size)
    whole = rng.choice(["prod", "PROD", "n1.v2"]) + ".IMG"
    kind = rng.choice(["gz", "bz2", "zip"])
    packed = (whole if rng.random() < .6 else whole[:-4]) + "." + kind.upper()
    ptrs = []
    for o in objs:
        if not pos[o.name] and rng.random() < .5:
            ptrs.append(("^" + o.name, whole))
        else:
            ptrs.append(("^" + o.name, (whole, rng.choice(
                [pos[o.name] // size + 1, Qty(pos[o.name] + 1, "BYTES")]))))
    un = Obj("UNCOMPRESSED_FILE", [
        ("FILE_NAME", whole), ("RECORD_TYPE", Raw("FIXED_LENGTH")),
        ("RECORD_BYTES", size)] + ptrs + [o.block for o in objs if o.block])
    co = Obj("COMPRESSED_FILE", [
        ("FILE_NAME", packed), ("RECORD_TYPE", Raw("UNDEFINED")),
        ("ENCODING_TYPE", kind.upper()),
        ("INTERCHANGE_FORMAT", Raw("BINARY")),
        ("UNCOMPRESSED_FILE_NAME", whole),
        ("REQUIRED_STORAGE_BYTES", len(blob))])
    items = [("PDS_VERSION_ID", Raw("PDS3"))] + list(IDENTIFIERS) + [co, un]
    label = write_detached(tmp, "q", items)
    there = there or rng.choice([("packed",), ("packed",), ("whole",),
                                 ("packed", "whole")])
    dirs = {w: tmp for w in there}
    kw = {}
    if rng.random() < .2:
        other = mon.tmp / "elsewhere"
        other.mkdir()
        for w in there:
            if rng.random() < .7:
                dirs[w] = other
        kw["search_paths"] = [str(other)]
    if "packed" in there:
        f = dirs["packed"] / whole
        f.write_bytes(blob)
        f = compress(rng, f, kind)
        f.rename(f.with_name(recase(rng, packed)))
    if "whole" in there:
        (dirs["whole"] / recase(rng, whole)).write_bytes(blob)
    mon.describe({"objects": [o.meta["desc"] for o in objs], "files": sorted(
        str(p.relative_to(mon.tmp)) for p in mon.tmp.rglob("*"))})
    where = f"[described twice, {' '.join(there)} {packed}] "
    data = pdr.read(label, **kw)
    for o in objs:
        mon.check(o.name in data.keys(),
                  lambda: f"{where}keys {data.keys()}", "keys")
        o.verify(data, o.name, mon, where)
    mon.saw("described_twice")
    mon.sig("twice", "+".join(there), kind, "+".join(sorted(kinds)))


def run_case(rng, mon, idx):
    if rng.random() < 0.03:
        return missing_file(rng, mon)
    if rng.random() < .07:
        return described_twice(rng, mon)
    tmp = mon.tmp / "prod"
    kinds = rng.sample(list(MAKERS), rng.choice([1, 1, 2, 3]))
    if "aarray" in kinds:
        kinds = ["aarray"]
    objs = [MAKERS[k](rng) for k in kinds]
    if kinds == ["table"] or rng.random() < 0.15:
        kinds = ["fmttable"]
        objs = [gen_bin_table(rng, "TABLE", {"items", "gap"}, defn="file",
                              fmtname=recase(rng, "columns.fmt"))]
        mon.saw("fmtfile")
    stem = rng.choice(["prod", "PROD", "my.prod", "p_1", "n1234.v2"])
    # text that the label only points to
    texts = {}
    tmp.mkdir()
    if rng.random() < .35:
        nm = rng.choice(["DATA_SET_DESCRIPTION", "TEXT", "NOTES_TEXT"])
        texts[nm] = rand_text(rng) + rng.choice(["", "5 µm, -10 °C\r\n"])
        (tmp / "about.txt").write_bytes(texts[nm].encode())
    path, info = build_product(rng, tmp, objs, stem=stem,
                               extra=[(f"^{n}", recase(rng, "about.txt"))
                                      for n in texts],
                               trailing="aarray" not in kinds,
                               junk="aarray" not in kinds)
    mode = info["mode"]
    attached = mode == "attached"
    datafiles = sorted(set(info["files"].values()))
    label = path if attached else info["label"]
    sidecars = [tmp / fn for o in objs for fn in o.sidecars]
    alone = datafiles[:]
    if texts:
        datafiles.append(tmp / "about.txt")
    disguise = []
    # --- disguises -------------------------------------------------------
    searchdir = None
    if not attached and rng.random() < 0.2:
        searchdir = mon.tmp / "elsewhere"
        searchdir.mkdir()
        moved = []
        for f in datafiles + [s for s in sidecars if rng.random() < 0.5]:
            shutil.move(f, searchdir / f.name)
            if f in datafiles:
                moved.append(searchdir / f.name)
        datafiles = moved
        disguise.append("moved")
        mon.saw("search_path")
    if searchdir is not None:
        alone = [searchdir / f.name for f in alone]
    opened = {}
    for f in datafiles + [s for s in sidecars if s.exists()]:
        g = f
        if rng.random() < 0.5:
            g = f.with_name(recase(rng, f.name))
            if g != f:
                f.rename(g)
                if f != path:
                    disguise.append("case")
                mon.saw("case")
        if f in datafiles:
            r = rng.random()
            if r < 0.5:
                kind = rng.choice(["gz", "bz2", "zip"])
                g = compress(rng, g, kind)
                mon.saw(kind)
                disguise.append(kind)
                if f in alone and not attached and rng.random() < .25:
                    # the label gives the name of the compressed file itself
                    named = recase(rng, f.name + g.suffix)
                    label.write_bytes(label.read_bytes().replace(
                        f'"{f.name}"'.encode(), f'"{named}"'.encode()))
                    disguise.append("named " + kind)
                    mon.saw("named_compressed")
                if attached:
                    mon.saw("comp_attached")
        opened[f] = g
    if attached:
        asked, real = path, opened[path]
    else:
        asked = real = label
        if rng.random() < 0.4:
            real = label.with_name(recase(rng, label.name))
            label.rename(real)
    if rng.random() < 0.3:
        # files that look similar but are other files
        for f in list(opened.values()) + [real]:
            for n in (f.name + "x", "x" + f.name, f.name + ".txt",
                      f.stem + "_1" + f.suffix):
                d = f.with_name(n)
                if not d.exists():
                    d.write_bytes(b"decoy" * 20)
        mon.saw("decoy")
        disguise.append("decoy")
    # --- ways of opening -------------------------------------------------
    kw = {}
    if searchdir is not None:
        kw["search_paths"] = rng.choice([str(searchdir), [str(searchdir)],
                                         (str(mon.tmp), str(searchdir))])
        if rng.random() < .4:
            # other places, where there is nothing to find
            empty = mon.tmp / "empty_place"
            empty.mkdir(exist_ok=True)
            kw["search_paths"] = [
                str(rng.choice([mon.tmp / "no_such_place", empty,
                                mon.tmp / "no" / "such" / "place"]))
                for _ in range(rng.randint(1, 2))] + [str(searchdir)]
            mon.saw("other_places")
    ways = ["label", "offcase", "fastread"]
    if not attached:
        ways.append("label_fn")
        if searchdir is None and len(alone) == 1 and \
                alone[0].stem.lower() == stem.lower():
            ways.append("data")
    way = rng.choice(ways)
    if way == "label_fn" and searchdir is not None:
        # the automatic search path is then the data file's directory
        kw["search_paths"] = [str(searchdir), str(tmp)]
    if way == "label":
        data = pdr.read(rng.choice([str, lambda x: x])(real), **kw)
    elif way == "offcase":
        name = rng.choice([asked.name, real.name])
        data = pdr.read(asked.with_name(recase(rng, name)), **kw)
    elif way == "label_fn":
        data = pdr.read(rng.choice([opened[f] for f in alone]), label_fn=real,
                        **kw)
    elif way == "fastread":
        data = pdr.fastread(real, **kw)
    else:
        f = rng.choice([opened[alone[0]], alone[0]])
        if opened[alone[0]].suffix.lower() in (".gz", ".bz2", ".zip"):
            mon.saw("open_compressed_data")
            if rng.random() < .3:
                f = f.with_name(recase(rng, f.name))
        data = pdr.read(f, **kw)
    mon.saw("open_" + way)
    mon.describe({"objects": [o.meta["desc"] for o in objs], "mode": mode,
                  "disguise": disguise, "way": way,
                  "files": sorted(str(p.relative_to(mon.tmp))
                                  for p in mon.tmp.rglob("*")
                                  if p.is_file())[:12]})
    where = f"[{mode} {way} {'+'.join(disguise)}] "
    mon.check([k for k in data.keys() if k not in texts]
              == ["LABEL"] + [o.name for o in objs]
              and set(texts) <= set(data.keys()),
              lambda: f"{where}keys {data.keys()}", "keys")
    for n, t in texts.items():
        mon.check(data[n] == t.replace("\r\n", "\n"), lambda: (
            f"{where}{n}: {data[n]!r:.300}, not {t!r:.300}"), "text")
        mon.saw("texts_compared")
    for o in objs:
        o.verify(data, o.name, mon, where)
    mon.sig(way, mode, "+".join(sorted(set(disguise))),
            "+".join(sorted(kinds)))
