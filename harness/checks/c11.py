"""C11: looking things up in metadata"""
import re
import warnings

from multidict import MultiDict

import fitsw
import pdr
from checks.c09 import Writer, same, value
from checks.c15 import primary_keys
from pdr.errors import DuplicateKeyWarning
from pds3w import IDENTIFIERS  # noqa: F401

PROP = "C11"
CASES = {"quick": 900, "thorough": 12000}
RULE = (
    "case = one generated label (or FITS file) with repeated and nested names, on which every "
    "name at every depth, names that are not there and misspelled names are "
    "looked up, in random order and repeatedly, through metaget, metaget_, "
    "metablock, metablock_ and metaget_fuzzy of both Data and Metadata, with "
    "every kind of default, before and after changes to the mapping; oracle: a "
    "walk of the generator's tree. A behaviour is (lookup, how many and where "
    "the matches are, default kind)"
)
REQUIRED = ("metaget", "metablock", "warned", "quiet", "missing", "fuzzy",
            "refreshed", "repr", "unhashable_default", "duplicates",
            "identifiers", "fits")


class DupWriter(Writer):
    def key(self):
        if self.rng.random() < 0.4:
            return self.rng.choice(
                ["REPEATED_KEY", "STANDARD_NAME", "IMAGE_MAP",
                 "START_TIME", "TARGET_NAME", "STATE_PARMS"])
        return super().key()


def walk(tree, key, depth=0):
    """all (depth, value) with this key"""
    out = []
    for k, v in tree:
        if k == key:
            out.append((depth, v))
        if isinstance(v, list):
            out += walk(v, key, depth + 1)
    return out


def keys_of(tree):
    out = set()
    for k, v in tree:
        out.add(k)
        if isinstance(v, list):
            out |= keys_of(v)
    return out


def first(tree, key):
    """outermost level first, then the first nested block that has it"""
    for k, v in tree:
        if k == key:
            return v
    for k, v in tree:
        if isinstance(v, list) and walk(v, key):
            return first(v, key)
    return None


def block_same(got, tree):
    if not isinstance(got, MultiDict):
        return False
    items = list(got.items())
    return [k for k, _ in items] == [k for k, _ in tree] and all(
        block_same(g, e) if isinstance(e, list) else same(g, e)
        for (_, g), (_, e) in zip(items, tree))


def agree(got, exp):
    return block_same(got, exp) if isinstance(exp, list) else same(got, exp)


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b):
            cur = row[j + 1]
            row[j + 1] = prev + 1 if x == y else max(row[j + 1], row[j])
            prev = cur
    return row[-1]


def ratio(a, b):
    return 2 * lcs(a, b) / (len(a) + len(b)) if a or b else 1.0


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = f(*a, **k)
    return out, [x for x in w if issubclass(x.category, DuplicateKeyWarning)]


DEFAULTS = [None, 5, "missing", (1, 2), [], {}, ["x"], set()]


def fits_product(rng, mon):
    """a FITS file, whose metadata are the headers of its HDUs"""
    while True:
        hdus = fitsw.gen_file(rng)
        if not any(c[0] == "BAD" or isinstance(c[-1], complex)
                   for h in hdus for c in h.cards):
            break
    names, order = primary_keys(hdus)
    p = mon.tmp / "a.fits"
    p.write_bytes(fitsw.write(hdus)[0])
    mon.describe({"fits": [(n, h.header[:20]) for n, h in zip(names, hdus)]})
    mon.saw("fits")
    return pdr.read(p), [(names[i], hdus[i].header) for i in order]


def pds3_product(rng, mon):
    w = DupWriter(rng, mon)
    w.out = ["PDS_VERSION_ID = PDS3", 'INSTRUMENT_ID = "SYNTHCAM"']
    tree = [("PDS_VERSION_ID", "PDS3"), ("INSTRUMENT_ID", "SYNTHCAM")]
    if rng.random() < 0.2:
        w.out.append("LONG_BLANK = \"" + " " * rng.randint(60, 120) + '"')
        tree.append(("LONG_BLANK", w.out[-1].split('"')[1]))
    if rng.random() < 0.3:
        w.out.append("LONG_TEXT_VALUE = \"" + "abc def " * 20 + '"')
        tree.append(("LONG_TEXT_VALUE", "abc def " * 20))
    tree += w.block(0, 0, rng.randint(1, 25))
    p = mon.tmp / "a.lbl"
    p.write_text("\r\n".join(w.out + ["END", ""]))
    mon.describe({"label": p.read_text()[:600]})
    return pdr.read(p), tree


def run_case(rng, mon, idx):
    fits = rng.random() < .1
    data, tree = (fits_product if fits else pds3_product)(rng, mon)
    meta = data.metadata
    names = sorted(keys_of(tree))
    absent = ["NO_SUCH_KEY", "no_such", names[0].lower(), names[-1] + "X", ""]
    todo = [rng.choice(names + absent) for _ in range(40)] + names
    for name in todo:
        hits = walk(tree, name)
        exp = first(tree, name) if hits else None
        api = rng.choice([data, meta])
        which = rng.choice(["metaget", "metaget_", "metablock", "metablock_"])
        f = getattr(api, which)
        kw = {}
        default = None
        if which.startswith("metaget") and rng.random() < 0.6:
            default = rng.choice(DEFAULTS)
            kw["default"] = default
        quiet = which.endswith("_")
        if not quiet and rng.random() < 0.3:
            kw["warn"] = rng.random() < 0.5
            quiet = not kw["warn"]
        try:
            got, warned = call(f, name, **kw)
        except TypeError as ex:
            mon.fail(f"{which}({name!r}, {kw}) raised {ex!r}", "raise")
        if isinstance(default, (list, dict, set)) and hits:
            mon.saw("unhashable_default")
        if which.startswith("metaget"):
            mon.saw("metaget")
            if not hits:
                mon.saw("missing")
                mon.check(got is default or got == default,
                          lambda: f"{which}({name!r}, {kw}) = {got!r}",
                          "default")
            elif exp is None:  # a card without a value
                mon.check(got is None or got is default,
                          lambda: f"{which}({name!r}, {kw}) = {got!r}, label "
                                  "has no value", "value")
            else:
                mon.check(agree(got, exp),
                          lambda: f"{which}({name!r}, {kw}) = {got!r}, label "
                                  f"has {exp!r} of {hits}", "value")
        else:
            mon.saw("metablock")
            if hits and isinstance(exp, list):
                mon.check(block_same(got, exp),
                          lambda: f"{which}({name!r}) = {got!r}, label has "
                                  f"{exp!r}", "block")
            elif hits and isinstance(exp, dict):
                mon.check(same(got, exp),
                          lambda: f"{which}({name!r}) = {got!r}", "block")
            elif hits:
                mon.check(got is meta, lambda: f"{which}({name!r}) of a plain "
                          f"value = {got!r}", "block")
            else:
                mon.check(got is None or got is meta,
                          lambda: f"{which}({name!r}) = {got!r}", "block")
        should = len(hits) > 1 and not quiet
        mon.check(bool(warned) == should,
                  lambda: f"{which}({name!r}, {kw}): {len(warned)} duplicate-"
                          f"key warnings for {len(hits)} matches", "warn")
        mon.saw("warned" if should else "quiet")
        if len(hits) > 1:
            mon.saw("duplicates")
        mon.sig(which, min(len(hits), 3), min([d for d, _ in hits] or [9]),
                type(default).__name__, quiet)
    # fuzzy lookup
    for _ in range(4):
        t = rng.choice(names + absent)
        t = list(t)
        for _ in range(rng.choice([0, 1, 2])):
            if t:
                t[rng.randrange(len(t))] = rng.choice("ABCXYZ_")
        t = "".join(t)
        got, _ = call(meta.metaget_fuzzy, t)
        best = max(ratio(n, t) for n in names)
        cands = [n for n in names if abs(ratio(n, t) - best) < 1e-9]
        mon.check(any(agree(got, first(tree, n)) for n in cands),
                  lambda: f"metaget_fuzzy({t!r}) = {got!r}; nearest names "
                          f"{cands}", "fuzzy")
        mon.saw("fuzzy")
    # identifiers
    for k in ("INSTRUMENT_ID", "PRODUCT_ID", "RECORD_BYTES"):
        e = first(tree, k) if walk(tree, k) else ""
        mon.check(meta.identifiers[k] == e,
                  lambda: f"identifier {k} = {meta.identifiers[k]!r}", "ident")
        mon.saw("identifiers")
    # text forms
    for t in (str(meta), repr(meta)):
        miss = [n for n in names if n not in t]
        mon.check(not miss, lambda: f"{miss} not in the text of the metadata",
                  "repr")
    mon.saw("repr")
    # changes are seen after a refresh
    name = tree[0][0] if fits else rng.choice(
        ["PDS_VERSION_ID", "INSTRUMENT_ID"])
    meta[name] = "CHANGED"
    data.load_metadata_changes()
    mon.check(data.metaget_(name) == "CHANGED", "change not seen", "refresh")
    mon.saw("refreshed")
