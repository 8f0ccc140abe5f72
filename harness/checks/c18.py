"""C18: metadata of PDS4 labels"""
import warnings
from xml.sax.saxutils import escape

from multidict import MultiDict

import pdr
from checks.c11 import call, keys_of, ratio, walk
from pds4w import gen_product

PROP = "C18"
CASES = {"quick": 1500, "thorough": 12000}
RULE = (
    "case = one generated PDS4 label (areas, repeated and nested elements, "
    "namespaces by default, prefixed, or declared locally, attributes, "
    "comments, CDATA, entities, empty elements, encodings, extensions) with or "
    "without data; the whole metadata mapping and lookups of every name in "
    "random order are compared with the generator's tree. A behaviour is "
    "(lookup, matches, depth, kind of value, namespace style, encoding)"
)
REQUIRED = ("elements", "repeated", "nested", "prefixed", "local_namespace",
            "attributes", "comment", "cdata", "empty", "multiline", "unicode",
            "entities", "metaget", "metablock", "warned", "missing", "fuzzy",
            "with_data", "encoding", "upper_extension", "changed")

PDS = "http://pds.nasa.gov/pds4/pds/v1"
NS = {"cart": "http://pds.nasa.gov/pds4/cart/v1",
      "disp": "http://pds.nasa.gov/pds4/disp/v1",
      "img": "http://pds.nasa.gov/pds4/img/v1",
      "sp": "http://pds.nasa.gov/pds4/sp/v1",
      "my": "http://pds.nasa.gov/pds4/mission/my/v1"}
CLASSES = ["Observing_System", "Target_Identification", "Internal_Reference",
           "Investigation_Area", "Time_Coordinates", "Display_Settings",
           "Image_Parameters", "Citation_Information", "Detector", "Exposure",
           "Reference_List"]
LEAVES = ["name", "type", "start_date_time", "exposure_duration", "title",
          "description", "lid_reference", "filter_number", "latitude",
          "comment", "version_id", "unit", "items", "index"]


class Tree:
    """writes a random subtree; keeps [(tag, value)] with value str/None/list"""

    def __init__(self, rng, mon, style, latin):
        self.rng, self.mon, self.style, self.latin = rng, mon, style, latin

    def tag(self, tag, ns):
        """(as written, as expected)"""
        if ns is None:
            return ("pds:" + tag if self.style == "prefixed" else tag), tag
        return f"{ns}:{tag}", f"{ns}:{tag}"

    def text(self):
        """(as written, value)"""
        rng, mon = self.rng, self.mon
        k = rng.random()
        if k < .25:
            v = str(rng.choice([0, 1, -5, 3.25, 1e-7, "007", "1E5", 12345678901]))
        elif k < .4:
            v = rng.choice(["2020-01-01T00:00:00Z", "N/A", "nan", "true", "UNK",
                            "urn:nasa:pds:bundle:coll::1.0", "(1, 2)",
                            "{'a': 1}", '"quoted"', "^POINTER", "a = b",
                            "5 <m>", "16#FF#", "None"])
        else:
            v = " ".join(rng.choice(["alpha", "beta", "x.img", "42", "--",
                                     "it's"]) for _ in range(rng.randint(1, 6)))
        if rng.random() < .1:
            v += " é ü" if self.latin else " Σ 火星 é"
            mon.saw("unicode")
        if rng.random() < .1:
            v += " a<b & c>d"
            mon.saw("entities")
        w = escape(v)
        if rng.random() < .08:
            w = f"<![CDATA[{v}]]>"
            mon.saw("cdata")
        elif rng.random() < .08 and " " in v:
            w = escape(v).replace(" ", " <!-- a <b>note</b> -->", 1)
            mon.saw("comment")
        if rng.random() < .2:
            w = rng.choice([" ", "\n   ", "\t"]) + w + rng.choice(["  ", "\n"])
        if rng.random() < .08:
            lines = [v, "second line", "  third   line"][:rng.randint(2, 3)]
            mon.saw("multiline")
            v = ("multi", "\n".join(lines))
            w = escape("\n" + "\n".join(lines) + "\n")
        return w, v

    def attrs(self, leaf=True):
        rng = self.rng
        if rng.random() < .2 and leaf:
            self.mon.saw("attributes")
            return rng.choice([' unit="m"', ' unit="s" other=" x "'])
        return ""

    def block(self, depth, ns, n, common=()):
        """(lines, tree)"""
        rng = self.rng
        lines, tree = [], []
        names = [rng.choice(LEAVES + list(common)) for _ in range(n)]
        names += [rng.choice(CLASSES) for _ in range(
            rng.randint(0, 3 if depth < 3 else 0))]
        rng.shuffle(names)
        for nm in names:
            here = ns
            if rng.random() < .1:
                here = rng.choice([None, *NS])
            if here:
                self.mon.saw("prefixed")
            wt, et = self.tag(nm, here)
            if rng.random() < .1:
                lines.append(f"<!-- <{wt}>not here</{wt}> -->")
                self.mon.saw("comment")
            if nm in CLASSES:
                self.mon.saw("nested")
                if rng.random() < .05:
                    lines.append(f"<{wt}/>")
                    tree.append((et, None))
                    self.mon.saw("empty")
                    continue
                ls, sub = self.block(depth + 1, here, rng.randint(1, 4), common)
                if rng.random() < .1 and not here:
                    # a default namespace declared on the spot: its elements
                    # have no prefix
                    uri = NS["cart"].replace("cart", "loc")
                    lines += [f'<{wt}>', f'<{nm} xmlns="{uri}">',
                              f"<local_leaf>7</local_leaf>", f"</{nm}>",
                              f"</{wt}>"]
                    tree.append((et, [(nm, [("local_leaf", "7")])]))
                    self.mon.saw("local_namespace")
                    continue
                lines += [f"<{wt}{self.attrs(False)}>", *ls, f"</{wt}>"]
                tree.append((et, sub))
            elif rng.random() < .06:
                self.mon.saw("empty")
                lines.append(rng.choice([f"<{wt}/>", f"<{wt}></{wt}>",
                                         f"<{wt}>  </{wt}>"]))
                tree.append((et, None))
            else:
                w, v = self.text()
                lines.append(f"<{wt}{self.attrs()}>{w}</{wt}>")
                tree.append((et, v))
        if len({t for t, _ in tree}) < len(tree):
            self.mon.saw("repeated")
        return lines, tree


def grouped(tree):
    """same-named siblings together, where the first of them was"""
    out = {}
    for k, v in tree:
        out.setdefault(k, []).append(
            (k, grouped(v) if isinstance(v, list) else v))
    return [kv for kvs in out.values() for kv in kvs]


def value_same(got, exp):
    if exp is None:
        return got is None or (isinstance(got, MultiDict) and not len(got))
    if isinstance(exp, tuple):
        return isinstance(got, str) and got.split() == exp[1].split() \
            and len(got.strip().splitlines()) == len(exp[1].splitlines())
    return isinstance(got, str) and got == exp


def agree(got, exp):
    if not isinstance(exp, list):
        return value_same(got, exp)
    if not isinstance(got, MultiDict):
        return False
    for k in {k for k, _ in exp}:
        mine = [v for kk, v in exp if kk == k]
        theirs = got.getall(k, [])
        if len(mine) != len(theirs) or not all(map(agree, theirs, mine)):
            return False
    return len(got) == len(exp)


def compare(mon, got, exp, where):
    """like agree, but says where"""
    mon.check(isinstance(got, MultiDict),
              lambda: f"{where} is a {type(got)}", "block")
    for k in dict.fromkeys(k for k, _ in exp):
        mine = [v for kk, v in exp if kk == k]
        theirs = got.getall(k, [])
        mon.check(len(mine) == len(theirs),
                  lambda: f"{where}/{k}: {len(theirs)} values, label has "
                          f"{len(mine)}", "repeated")
        for i, (t, m) in enumerate(zip(theirs, mine)):
            mon.saw("elements")
            if isinstance(m, list):
                compare(mon, t, m, f"{where}/{k}[{i}]")
            else:
                mon.check(value_same(t, m), lambda: f"{where}/{k}[{i}] is "
                          f"{t!r}, label has {m!r}", "value")
    mon.check(len(got) == len(exp), lambda: f"{where} has {list(got.keys())}, "
              f"label {[k for k, _ in exp]}", "extra")


def firsts(tree, key):
    """outermost first, then the first nested block that has it; empty
    elements do not stop the search for sure"""
    for k, v in tree:
        if k == key:
            return v
    for k, v in tree:
        if isinstance(v, list) and walk(v, key):
            return firsts(v, key)
    return None


def parse(path):
    """what the files' areas say, by the standard library's parser"""
    import xml.etree.ElementTree as ET

    def conv(e):
        tag = e.tag.split("}")[-1]
        kids = [conv(c) for c in e]
        t = (e.text or "").strip()
        return tag, kids if kids else (" ".join(t.split()) or None)
    return conv(ET.parse(path).getroot())


def run_case(rng, mon, idx):
    d = mon.tmp
    enc = rng.choice(["UTF-8"] * 5 + ["utf-8-sig", "UTF-16", "ISO-8859-1"])
    style = rng.choice(["default", "default", "prefixed"])
    with_data = style == "default" and rng.random() < .3
    t = Tree(rng, mon, style, enc == "ISO-8859-1")
    root = rng.choice(["Product_Observational", "Product_Ancillary",
                       "Product_Browse", "Product_Context",
                       "Product_Document"])
    areas, tree = [], []
    ident = [("logical_identifier", "urn:nasa:pds:b:c:p"),
             ("version_id", "1.0"), ("title", "A product"),
             ("information_model_version", "1.14.0.0"),
             ("product_class", root)]
    wt, _ = t.tag("Identification_Area", None)
    lines, sub = t.block(1, None, rng.randint(0, 3))
    areas += [f"<{wt}>"] + [
        f"<{t.tag(k, None)[0]}>{v}</{t.tag(k, None)[0]}>" for k, v in ident
    ] + lines + [f"</{wt}>"]
    tree.append(("Identification_Area", ident + sub))
    common = [rng.choice(LEAVES) for _ in range(2)] * 3
    for nm in rng.sample(["Observation_Area", "Context_Area", "Mission_Area",
                          "Discipline_Area"], rng.randint(1, 3)):
        wt, _ = t.tag(nm, None)
        lines, sub = t.block(1, rng.choice([None, None, *NS]),
                             rng.randint(1, 6), common)
        areas += [f"<{wt}>", *lines, f"</{wt}>"]
        tree.append((nm, sub))
    ext = rng.choice([".xml", ".xml", ".lblx", ".XML", ".LBLX", ".Xml"])
    if ext.lower() != ext:
        mon.saw("upper_extension")
    path = d / f"prod{ext}"
    decl = "".join(f' xmlns:{p}="{u}"' for p, u in NS.items())
    decl += f' xmlns{":pds" if style == "prefixed" else ""}="{PDS}"'
    decl += ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'
    if rng.random() < .5:
        decl += f' xsi:schemaLocation="{PDS} http://x/y.xsd"'
    structs = []
    if with_data:
        mon.saw("with_data")
        p0, structs = gen_product(rng, d, 2)
        full = p0.read_text(encoding="utf-8")
        at = full.index("<File_Area")
        tag0 = "</Product_Observational>"
        areas.append(full[at:full.rindex(tag0)])
        for k, v in parse(p0)[1]:
            if k == "File_Area_Observational":
                tree.append((k, v))
        p0.unlink()
        root = "Product_Observational"
        ident[-1] = ("product_class", root)
    rt = t.tag(root, None)[0]
    if with_data:
        areas = [a.replace("Product_Ancillary", root) for a in areas]
    head = '<?xml version="1.0" encoding="%s"?>\n' % (
        "UTF-8" if enc == "utf-8-sig" else enc)
    if rng.random() < .3:
        head += '<?xml-model href="http://x/y.sch" ?>\n'
    if rng.random() < .1:
        head += f'<!DOCTYPE {rt}>\n'
    if rng.random() < .2:
        head += "<!-- made by a generator -->\n"
    body = head + f"<{rt}{decl}>\n" + "\n".join(areas) + f"\n</{rt}>\n"
    if with_data:
        # the product class written above may not be the root's any more
        for k in ("Product_Ancillary", "Product_Browse", "Product_Context",
                  "Product_Document"):
            body = body.replace(k, root)
        tree[0] = ("Identification_Area",
                   [(k, root if k == "product_class" else v)
                    for k, v in tree[0][1]])
    path.write_bytes(body.encode(enc))
    if enc != "UTF-8":
        mon.saw("encoding")
    mon.describe({"label": body[:1500], "encoding": enc, "name": path.name})
    try:
        data = pdr.read(path)
    except Exception as ex:
        mon.fail(f"opening raised {ex!r}", "raise")
    meta = data.metadata
    mon.check(meta.standard == "PDS4", f"standard {meta.standard}", "standard")
    whole = [(root, tree)]
    if list(meta.keys()) == [k for k, _ in tree]:
        whole = tree
    compare(mon, meta, whole, "")
    for s in structs:
        mon.check(s.key in data.index, lambda: f"{s.key} not in {data.index}",
                  "index")
    names = sorted(keys_of(whole))
    absent = ["NO_SUCH", "no_such", names[0] + "X", "", "unit2",
              names[-1].upper()]
    absent = [a for a in absent if a not in names]
    gtree = grouped(whole)
    todo = [rng.choice(names + absent) for _ in range(25)] + names
    for name in todo:
        hits = walk(whole, name)
        exps = [firsts(whole, name), firsts(gtree, name)] if hits else []
        empty = any(v is None for _, v in hits)
        api = rng.choice([data, meta])
        which = rng.choice(["metaget", "metaget_", "metablock", "metablock_"])
        kw = {}
        if which.startswith("metaget") and rng.random() < .5:
            kw["default"] = rng.choice([None, 5, "missing", [], {}])
        quiet = which.endswith("_")
        if not quiet and rng.random() < .3:
            kw["warn"] = rng.random() < .5
            quiet = not kw["warn"]
        got, warned = call(getattr(api, which), name, **kw)
        kind = type(exps[0]).__name__ if hits else "absent"
        if which.startswith("metaget"):
            mon.saw("metaget")
            if not hits:
                mon.saw("missing")
                mon.check(got is kw.get("default"),
                          lambda: f"{which}({name!r}, {kw}) = {got!r}",
                          "default")
            else:
                ok = any(agree(got, e) for e in exps)
                if empty:
                    ok = ok or got == kw.get("default") or any(
                        agree(got, v) for _, v in hits)
                mon.check(ok, lambda: f"{which}({name!r}, {kw}) = {got!r}, "
                          f"label has {exps[0]!r} of {hits}", "lookup")
        elif hits:
            mon.saw("metablock")
            if isinstance(exps[0], list) and not empty:
                mon.check(any(agree(got, e) for e in exps),
                          lambda: f"{which}({name!r}) = {got!r}, label has "
                                  f"{exps[0]!r}", "block")
            elif not empty and not any(isinstance(v, list) for _, v in hits):
                mon.check(got is meta, lambda: f"{which}({name!r}) of a plain "
                          f"value = {got!r}", "block")
        else:
            mon.check(got is None or got is meta,
                      lambda: f"{which}({name!r}) = {got!r}", "block")
        should = len(hits) > 1 and not quiet
        mon.check(bool(warned) == should,
                  lambda: f"{which}({name!r}, {kw}): {len(warned)} duplicate-"
                          f"key warnings for {len(hits)} matches", "warn")
        if should:
            mon.saw("warned")
        mon.sig(which, min(len(hits), 3), min([h[0] for h in hits] or [9]),
                kind, style, enc)
    for _ in range(3):
        s = list(rng.choice(names))
        s[rng.randrange(len(s))] = rng.choice("abXZ_")
        s = "".join(s)
        best = max(ratio(n, s) for n in names)
        cands = [n for n in names if abs(ratio(n, s) - best) < 1e-9]
        if any(v is None for n in cands for _, v in walk(whole, n)):
            continue
        got, _ = call(meta.metaget_fuzzy, s)
        mon.check(any(agree(got, f(w, n)) for n in cands
                      for f, w in ((firsts, whole), (firsts, gtree))),
                  lambda: f"metaget_fuzzy({s!r}) = {got!r}; nearest {cands}",
                  "fuzzy")
        mon.saw("fuzzy")
    # the same label again, and the label object itself
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        again = pdr.read(path).metadata
        mon.check(agree(again, whole), "reading the label again gives other "
                  "metadata", "again")
        lab = data["label"]
        mon.check(lab is data.label, "label object", "label")
        got = lab.findtext(".//title")
        exp = next(e for e in [v for _, v in walk(whole, "title")])
        mon.check(got is not None, "label.findtext found no title", "label")
        str(meta), repr(meta)
    # after changes
    key = rng.choice([k for k, _ in whole])
    meta["Added_Area"] = "x"
    meta.refresh_cache()
    data.load_metadata_changes()
    mon.check(meta["Added_Area"] == "x" and agree(
        meta[key], next(v for k, v in whole if k == key)),
        "changing the metadata", "change")
    mon.saw("changed")
