"""C05: external format files mean the same as inline definitions"""
import pdr
from checks.c03 import compress, recase
from enc import PDS3_TYPES
from pascii import gen_ascii_table
from pds3w import Obj, Raw, build_product, finish_label, render
from pmisc import gen_bin_array
from pobj import gen_image
from ptab import gen_bin_table

PROP = "C05"
CASES = {"quick": 900, "thorough": 12000}
RULE = (
    "case = one generated binary or ASCII table whose COLUMN / CONTAINER "
    "definitions are moved, in random contiguous runs, into external format "
    "files named by ^STRUCTURE-like pointers (whole table, part of it, inside "
    "a CONTAINER, chained through further files), which lie beside the label, "
    "in the volume's LABEL directory, or in a search path, with names of any "
    "case. Every cell must be as written. A behaviour is (table kind, "
    "arrangement of format files, place, way of opening)"
)
REQUIRED = ("objects_compared", "whole", "part", "chain", "in_container",
            "place_same", "place_label_dir", "place_search", "binary",
            "ascii", "sibling", "two_tables", "decoys", "prefix_tables", "prefix_pointers",
            "no_structure")
POINTERS = ["^STRUCTURE", "^TABLE_STRUCTURE", "^STATE_STRUCTURE",
            "^X_Y_STRUCTURE"]


class Externalizer:
    def __init__(self, rng):
        self.rng, self.files, self.n, self.shape = rng, {}, 0, []

    def emit(self, blocks, depth=0):
        """put blocks in a new file; returns its pointer statement"""
        rng = self.rng
        self.n += 1
        name = recase(rng, f"fmt_{self.n}.fmt")
        if depth < 3 and rng.random() < 0.3:
            self.shape.append("chain")
            blocks = self.split(blocks, depth + 1)
        text = finish_label(
            render(blocks) + (["END"] if rng.random() < 0.8 else []),
            rng.choice(["\r\n", "\n"]))
        self.files[name] = text
        return (rng.choice(POINTERS), name)

    def split(self, blocks, depth=0):
        """replace a random run of blocks by a pointer"""
        rng = self.rng
        n = len(blocks)
        if n == 0:
            return blocks
        if rng.random() < 0.4:
            i, j = 0, n
        else:
            i = rng.randint(0, n - 1)
            j = rng.randint(i + 1, n)
        self.shape.append("whole" if (i, j) == (0, n) else "part")
        return blocks[:i] + [self.emit(blocks[i:j], depth)] + blocks[j:]


def externalize(rng, o):
    """rewrite an object's definition; returns (files, shape)"""
    ex = Externalizer(rng)
    items = o.block.items
    parts = [i for i in items if isinstance(i, Obj)]
    rest = [i for i in items if not isinstance(i, Obj)]
    new = []
    for p in parts:
        if p.name == "CONTAINER" and rng.random() < 0.6:
            sub = [i for i in p.items if isinstance(i, Obj)]
            head = [i for i in p.items if not isinstance(i, Obj)]
            p = Obj("CONTAINER", head + ex.split(sub))
            ex.shape.append("in_container")
        new.append(p)
    if not ex.shape or rng.random() < 0.7:
        new = ex.split(new)
        if len(new) > 2 and rng.random() < 0.4:
            # a second pointer at the same level, if any blocks are left
            k = [i for i, b in enumerate(new) if isinstance(b, Obj)]
            i = rng.choice(k) if k else None
            if i is not None:
                new[i] = ex.emit([new[i]])
                ex.shape.append("second")
    o.block = Obj(o.block.name, rest + new)
    return ex


def prefix_case(rng, mon):
    """
    images whose lines begin with a table row that is defined by a format
    file named inside the IMAGE definition
    """
    names = rng.sample(["IMAGE", "BROWSE_IMAGE", "SECOND_IMAGE"],
                       rng.choice([1, 1, 2]))
    objs, checks, files = [], [], {}
    for n in names:
        type_ = rng.choice(list(PDS3_TYPES))
        im = gen_image(rng, n, bands=1, linefix=False, type_=type_)
        m = im.meta
        w, lines, samples = m["width"], m["lines"], m["samples"]
        feats = {f for f in ("items", "gap", "char", "dup")
                 if rng.random() < 0.5}
        tab = gen_bin_table(rng, "T", feats, rows=lines)
        tm = tab.meta
        rb = len(tab.payload) // lines
        pre = rb
        while pre % w or rng.random() < 0.3:
            pre += 1
        body = im.payload
        out = bytearray()
        for i in range(lines):
            out += tab.payload[i * rb:(i + 1) * rb] + bytes(pre - rb)
            out += body[i * samples * w:(i + 1) * samples * w]
        cols = [i for i in tab.block.items if isinstance(i, Obj)]
        fn = recase(rng, f"{n.lower()}_pre.fmt")
        declared = rng.choice(["table", "columns"])
        key = rng.choice(["^LINE_PREFIX_STRUCTURE", "^STRUCTURE"])
        if declared == "table":
            text = [Obj("LINE_PREFIX_TABLE", [
                ("INTERCHANGE_FORMAT", Raw("BINARY")), ("ROWS", lines),
                ("COLUMNS", len(cols)), ("ROW_BYTES", pre),
                ("ROW_SUFFIX_BYTES", samples * w)] + cols)]
        else:
            text = [("ROW_BYTES", pre)] + cols
            # how many rows, and what is between them, follows from the image
            if rng.random() < .5:
                text.insert(rng.randrange(2), ("ROWS", lines))
            if rng.random() < .4:
                text.insert(rng.randrange(2),
                            ("ROW_SUFFIX_BYTES", samples * w))
        files[fn] = finish_label(render(text) + ["END"])
        im.block = Obj(n, [i for i in im.block.items
                           if i[0] not in ("LINE_PREFIX_BYTES",)]
                       + [("LINE_PREFIX_BYTES", pre), (key, fn)])
        im.payload = bytes(out)
        objs.append(im)
        checks.append((n, tab, f"{n}_LINE_PREFIX_TABLE"))
    blank = rng.random() < .15
    if blank:
        # images with prefixes of which nothing is said
        n = "FOURTH_IMAGE"
        im = gen_image(rng, n, bands=1, linefix=False)
        m, pre = im.meta, rng.randint(1, 9)
        row = m["samples"] * m["width"]
        pre *= m["width"]
        im.payload = b"".join(
            rng.randbytes(pre) + im.payload[i * row:(i + 1) * row]
            for i in range(m["lines"]))
        im.block = Obj(n, [i for i in im.block.items
                           if i[0] != "LINE_PREFIX_BYTES"]
                       + [("LINE_PREFIX_BYTES", pre),
                          ("^LINE_PREFIX_STRUCTURE", "")])
        objs.append(im)
        mon.saw("no_structure")
    top = rng.random() < 0.35
    path, info = build_product(
        rng, mon.tmp, objs,
        mode=rng.choice(["split", "detached"]) if top else None)
    for fn, t in files.items():
        (mon.tmp / fn).write_bytes(t)
    if top:
        # the prefix tables have pointers of their own, but no definitions
        lines = path.read_bytes().split(b"\n")
        for n in names:
            at = [i for i, ln in enumerate(lines)
                  if ln.split(b"=")[0].strip() == b"^" + n.encode()][0]
            own = rng.choice([f"{n}_LINE_PREFIX_TABLE", f"{n[0]}_LINE_PREFIX"
                              "_TABLE", f"LINE_PREFIX_TABLE_{n}"])
            lines.insert(at + rng.choice([0, 1]), lines[at].replace(
                b"^" + n.encode(), b"^" + own.encode(), 1))
            checks = [(a, t, own if a == n else k) for a, t, k in checks]
        path.write_bytes(b"\n".join(lines))
        mon.saw("prefix_pointers")
    mon.describe({"top": top, "prefix images": [o.meta["desc"] for o in objs],
                  "tables": [t.meta["desc"] for _, t, _ in checks]})
    data = pdr.read(path)
    todo = [(o, o.name) for o in objs] + [(t, k) for _, t, k in checks]
    keys = {"LABEL", *(o.name for o in objs), *(k for _, _, k in checks)}
    mon.check(set(data.keys()) | {"LABEL"} == keys
              and len(set(data.keys())) == len(data.keys()),
              lambda: f"keys {data.keys()}, product has {keys}", "prefix")
    for o, k in rng.sample(todo, len(todo)):
        o.verify(data, k, mon, "[line prefix] ")
        mon.saw("prefix_tables")
    mon.sig("prefix", info["mode"], len(names))


def run_case(rng, mon, idx):
    if rng.random() < 0.12:
        return prefix_case(rng, mon)
    root = mon.tmp / rng.choice(["vol_1", "data", "VOL.A"])
    ddir = root / rng.choice(["data", "DATA", "Data/orbit1", "data/a/b"])
    objs, shapes, files = [], [], {}
    kinds = []
    names = rng.sample(["TABLE", "TIME_SERIES", "CAL_TABLE",
                        "IMAGE_TIME_TABLE"],
                       rng.choice([1, 1, 1, 2]))
    for n in names:
        if rng.random() < 0.7:
            feats = {f for f in ("items", "gap", "container", "char", "dup",
                                 "suffix", "bits", "scale")
                     if rng.random() < 0.5}
            o = gen_bin_table(rng, n, feats)
            kinds.append("binary")
        else:
            o = gen_ascii_table(rng, n, style=rng.choice(["fixed", "csv"]))
            kinds.append("ascii")
        ex = externalize(rng, o)
        # file names of different tables must differ
        ren = {k: f"{n.lower()[:2]}_{k}" for k in ex.files}
        text = {}
        for k, v in ex.files.items():
            for a, b in ren.items():
                v = v.replace(f'"{a}"'.encode(), f'"{b}"'.encode())
            text[ren[k]] = v
        o.block = Obj(o.block.name, [_ren(i, ren) for i in o.block.items])
        files.update(text)
        shapes += ex.shape
        objs.append(o)
    if rng.random() < 0.4:
        objs.append(rng.choice([gen_image, gen_bin_array])(rng))
        mon.saw("sibling")
    path, info = build_product(rng, ddir, objs)
    place = rng.choice(["same", "label_dir", "search"])
    kw = {}
    if place == "same":
        fdir = ddir
    elif place == "label_dir":
        fdir = root / rng.choice(["label", "LABEL"])
    else:
        fdir = mon.tmp / "formats"
        kw["search_paths"] = rng.choice([str(fdir), [str(fdir)]])
    fdir.mkdir(parents=True, exist_ok=True)
    for fn, text in files.items():
        f = fdir / (fn if rng.random() < 0.5 else recase(rng, fn))
        f.write_bytes(text)
        if rng.random() < 0.1:
            compress(rng, f, "gz")
    if rng.random() < 0.35:
        # other versions of the files, in places that come later
        later = [root / d for d in ("label", "LABEL")]
        if place == "label_dir":
            later = []
        elif place == "same":
            kw["search_paths"] = str(mon.tmp / "old_formats")
            later.append(mon.tmp / "old_formats")
        for d in rng.sample(later, min(len(later), 1)):
            d.mkdir(parents=True, exist_ok=True)
            for fn in files:
                (d / fn).write_bytes(
                    b"OBJECT = COLUMN\r\n  NAME = WRONG_FILE\r\n"
                    b"  DATA_TYPE = CHARACTER\r\n  START_BYTE = 1\r\n"
                    b"  BYTES = 1\r\nEND_OBJECT = COLUMN\r\nEND\r\n")
            mon.saw("decoys")
    if place != "same" and rng.random() < 0.3:
        for fn in files:
            (ddir / (fn + ".bak")).write_bytes(b"OBJECT = COLUMN\r\nEND\r\n")
    mon.describe({"objects": [o.meta["desc"] for o in objs], "place": place,
                  "shape": shapes, "files": sorted(files)})
    where = f"[{place} {'/'.join(shapes)}] "
    data = pdr.read(path, **kw)
    mon.check({*data.keys()} | {"LABEL"} == {"LABEL", *(o.name for o in objs)},
              lambda: f"{where}keys {data.keys()}", "keys")
    for o in rng.sample(objs, len(objs)):
        o.verify(data, o.name, mon, where)
    for s in set(shapes):
        mon.saw(s)
    for k in kinds:
        mon.saw(k)
    mon.saw("place_" + place)
    mon.saw("two_tables", int(len(names) > 1))
    mon.sig("+".join(kinds), "/".join(sorted(set(shapes))), place,
            len(files))


def _ren(i, ren):
    if isinstance(i, Obj):
        return Obj(i.name, [_ren(x, ren) for x in i.items])
    if isinstance(i, tuple) and i[1] in ren:
        return (i[0], ren[i[1]])
    return i
