"""C23: images in the missions' own compressed formats decode to the pixels"""
import os

import numpy as np

import pdr
from msn import codecs
from msn.core import ids_
from pds3w import Obj, Raw, finish_label, render

PROP = "C23"
CASES = {"quick": 4000, "thorough": 60000}
RULE = (
    "case = one product holding an image compressed by an independent "
    "encoder: MGS MOC (raw, predictive in x and y with each of the 8 code "
    "tables and line markers, transform with 1-8 levels), in 1-5 fragments "
    "split anywhere, or MSL MAHLI/MARDI/Mastcam EDR (raw of 8 and 16 bits, "
    "thumbnails of odd sizes, predictive, gray and colour JPEG); whole, "
    "followed by padding or other images, cut off, without its last "
    "fragment, or with wrong data between markers. Pixels must be the original ones (of transform coding, those "
    "of an exact inverse transform; of JPEG, those of another reader). A "
    "behaviour is (format, variant, kind of picture, size class, damage)"
)
REQUIRED = ("moc_raw", "moc_xpred", "moc_ypred", "moc_dct", "msl_raw",
            "msl_raw16", "msl_thumb", "msl_pred", "msl_jpeg", "fragments",
            "markers", "cut", "unmarked", "resync",
            "all_lines", "damage_noted", "tables", "levels",
            "pixels", "exact_images", "files_closed")


def open_files():
    return len(os.listdir("/proc/self/fd"))


def load(mon, path, what, damaged=False):
    """(image, texts of warnings)"""
    import warnings

    before = open_files()
    with warnings.catch_warnings(record=True) as notes:
        warnings.simplefilter("always")
        data = pdr.read(path)
        data.load("IMAGE")
    got = data["IMAGE"]
    if not damaged:
        mon.check(open_files() <= before, lambda: (
            f"{what}: files are left open"), "open-files")
        mon.saw("files_closed")
    mon.check(isinstance(got, np.ndarray), lambda: (
        f"{what}: the image is a {type(got).__name__}"), "type")
    return got, [str(w.message) for w in notes]


def differ(a, b):
    if a.shape != b.shape:
        return f"shape {a.shape}, not {b.shape}"
    bad = np.argwhere(a != b)
    if len(bad):
        at = tuple(bad[0].tolist())
        return f"{len(bad)} pixels, first {at}: {a[at]}, not {b[at]}"
    return None


def same(mon, got, want, what, mech):
    how = differ(got, want)
    mon.check(how is None, lambda: f"{what}: {how}", mech)
    mon.check(got.dtype == want.dtype, lambda: (
        f"{what}: dtype {got.dtype}, not {want.dtype}"), "dtype")
    mon.saw("pixels", int(want.size))
    mon.saw("exact_images")


# ---------------------------------------------------------------------- MOC
def moc_product(rng, mon, body, w, h, quality):
    name = f"M{rng.randint(0, 9999999):07d}.{rng.choice(['IMQ', 'imq'])}"
    rec = 2048
    items = [
        ("PDS_VERSION_ID", Raw("PDS3")),
        ("FILE_NAME", name.upper()),
        ("RECORD_TYPE", Raw("FIXED_LENGTH")),
        ("RECORD_BYTES", rec), ("FILE_RECORDS", -(-len(body) // rec) + 1),
        ("LABEL_RECORDS", 1), ("^IMAGE", 2),
    ] + ids_(rng, SPACECRAFT_NAME=Raw("MARS_GLOBAL_SURVEYOR"),
             INSTRUMENT_ID=rng.choice(["MOC-NA", "MOC-WA"]),
             DATA_QUALITY_DESC=quality) + [
        Obj("IMAGE", [
            ("ENCODING_TYPE", rng.choice(["MOC-COMPRESSED", "N/A"])),
            ("LINES", h), ("LINE_SAMPLES", w), ("LINE_PREFIX_BYTES", 0),
            ("LINE_SUFFIX_BYTES", 0),
            ("SAMPLE_TYPE", Raw("UNSIGNED_INTEGER")), ("SAMPLE_BITS", 8),
            ("SAMPLE_BIT_MASK", Raw("2#11111111#"))]),
    ]
    label = finish_label(render(items) + ["END"])
    assert len(label) <= rec
    path = mon.tmp / name
    path.write_bytes(label + b" " * (rec - len(label)) + body)
    return path


def split(rng, data, n):
    at = sorted(rng.sample(range(1, len(data)), min(n, len(data)) - 1))
    return [data[a:b] for a, b in zip([0] + at, at + [len(data)])]


def moc_case(rng, mon):
    how = rng.choice(["raw", "xpred", "xpred", "ypred", "dct", "dct"])
    quality = rng.choice(["OK", "OK", "OK", "ERROR"])
    if how == "dct":
        return moc_dct_case(rng, mon, quality)
    w = 16 * rng.choice([1, 1, 2, 2, 3, 5])
    h = 16 * rng.choice([1, 1, 2, 3, 4, 9, 9, 17 if w < 48 else 10])
    table = rng.randrange(8)
    kind, img = codecs.picture(rng, h, w)
    pcomp = {"raw": 0, "xpred": 1, "ypred": 2}[how]
    if how == "raw":
        body, want, ends = codecs.moc_raw(img, table)
    else:
        body, want, ends = codecs.moc_pred(
            img, table, how == "ypred", rng.randrange(256))
    comp = codecs.moc_comp(rng, pcomp=pcomp, table=table)
    parts = split(rng, body, rng.choice([1, 1, 2, 3, 5]))
    damage = rng.choice([None] * 6 + ["unmarked", "cut", "cut", "no header"])
    if damage == "no header" and len(parts) == 1:
        damage = "cut"
    out = bytearray()
    for i, p in enumerate(parts):
        last = i == len(parts) - 1
        if last and damage == "no header":
            out += rng.randbytes(rng.randint(1, 61))
            break
        out += codecs.moc_header(
            rng, width=w, height=h, total=h, comp=comp, number=i,
            last=last and damage is None, length=len(p)) + p
        if not (last and damage == "cut"):
            out += rng.randbytes(1)
    whole = h
    if damage == "cut":
        # within the last fragment
        drop = rng.randint(1, len(parts[-1]))
        del out[-drop:]
        whole = sum(e <= len(body) - drop for e in ends)
    elif damage == "no header":
        whole = sum(e <= len(body) - len(parts[-1]) for e in ends)
    elif rng.random() < .5:
        out += bytes(rng.randint(0, 3000)) if damage else rng.randbytes(
            rng.randint(1, 3000))
    what = (f"MOC {how} {w}x{h} table {table} {kind} in {len(parts)} "
            f"fragments, {damage}")
    mon.describe(what)
    path = moc_product(rng, mon, out, w, h, quality)
    if damage in ("cut", "no header") and whole == 0:
        # nothing to be read
        try:
            load(mon, path, what, True)
        except Exception:
            pass
    else:
        got, notes = load(mon, path, what)
        if damage not in ("cut", "no header"):
            same(mon, got, want, what, "moc-" + how)
        else:
            # lines before the end
            mon.check(
                got.ndim == 2 and got.shape[1] == w and len(got) >= whole,
                lambda: f"{what}: {got.shape} though {whole} lines are there",
                "moc-cut")
            bad = differ(got[:whole], want[:whole])
            mon.check(bad is None, lambda: (
                f"{what}: of the first {whole} lines, {bad}"), "moc-cut")
            mon.saw("cut")
        noted(mon, notes, what, damage, quality)
    mon.saw("moc_" + how)
    mon.saw("tables")
    if len(parts) > 1:
        mon.saw("fragments")
    if h > 128 and pcomp:
        mon.saw("markers")
    if damage == "unmarked":
        mon.saw("unmarked")
    mon.sig("moc", how, table, kind, h > 128, min(len(parts), 3), damage)


def moc_resync_case(rng, mon):
    """parts of the data are wrong: lines after the next marker are right"""
    w, h = 16 * rng.choice([3, 3, 4]), 16 * rng.randint(17, 30)
    table = rng.randrange(7)
    ypred = rng.random() < .3
    y, x = np.mgrid[:h, :w]
    img = (100 + 60 * np.sin(rng.uniform(.02, .3) * x + rng.random())
           * np.cos(rng.uniform(.02, .3) * y)).astype("u1")
    if rng.random() < .5:
        img += np.array([rng.randrange(9) for _ in range(w * h)],
                        "u1").reshape(h, w)
    body, want, ends = codecs.moc_pred(img, table, ypred, 0)
    body = bytearray(body)
    at = [i for i in range(len(body) - 1) if body[i:i + 2] == b"\xca\xf0"]
    parts = -(-h // 128)
    if len(at) != parts:
        mon.saw("ambiguous")
        return
    # in any but the last of them
    hurt = sorted(rng.sample(range(parts - 1), rng.randint(1, parts - 1)))
    for k in hurt:
        lo, hi = at[k] + 2 + w, at[k + 1]
        a = rng.randrange(lo, hi - 1)
        n = rng.choice([1, 4, 20])
        body[a:a + n] = bytes(rng.choice(body[lo:hi])
                              for _ in body[a:min(a + n, hi)])
        if rng.random() < .3:
            # some are missing
            del body[a:a + 3]
            at = [p - 3 if p > a else p for p in at]
    if body.count(b"\xca\xf0") != parts:
        mon.saw("ambiguous")
        return
    comp = codecs.moc_comp(rng, pcomp=2 if ypred else 1, table=table)
    pieces = split(rng, bytes(body), rng.choice([1, 3]))
    out = b"".join(codecs.moc_header(
        rng, width=w, height=h, total=h, comp=comp, number=i,
        last=i == len(pieces) - 1, length=len(p)) + p + b"x"
        for i, p in enumerate(pieces))
    what = f"MOC {w}x{h} table {table} ypred {ypred}, damaged in {hurt}"
    mon.describe(what)
    got, notes = load(mon, moc_product(rng, mon, out, w, h, "ERROR"), what)
    short = any("Exceeded" in n for n in notes)
    mon.check(short or got.shape == want.shape, lambda: (
        f"{what}: shape {got.shape}"), "moc-resync")
    for k in range(parts):
        if k in hurt:
            continue
        a = slice(128 * k, 128 * (k + 1))
        bad = differ(got[a], want[a][:max(0, len(got) - a.start)])
        mon.check(bad is None, lambda: (
            f"{what}: in the whole part {k}, {bad}"), "moc-resync")
    mon.saw("resync")
    mon.saw("short" if short else "all_lines")
    mon.sig("resync", parts, tuple(hurt), ypred, short)


def noted(mon, notes, what, damage, quality):
    """damage must be noted, and only damage"""
    ours = [n for n in notes if any(t in n for t in (
        "Data Quality", "End of file", "Exceeded", "height", "sync",
        "decompress", "Group"))]
    mon.check(bool(ours) == (damage is not None or quality != "OK"), lambda: (
        f"{what}, quality {quality}: notes {notes}"), "notes")
    if ours:
        mon.saw("damage_noted")


def moc_dct_case(rng, mon, quality):
    w = 16 * rng.choice([1, 1, 2, 2, 3])
    n = rng.choice([1, 1, 2, 3])
    spacing = rng.choice([1, 3, 8, 20, 64, 300])
    levels = rng.randint(1, 8)
    # the lines of all
    hs = [16 * rng.choice([1, 1, 2, 3]) for _ in range(n)]
    kind, img = codecs.picture(rng, sum(hs), w)
    comp = codecs.moc_comp(rng, xcomp=2, levels=levels, spacing=spacing,
                           table=rng.randrange(8))
    damage = rng.choice([None] * 5 + ["cut"])
    out, want, y = bytearray(), [], 0
    for i, h in enumerate(hs):
        data, dec = codecs.moc_dct(rng, img[y:y + h], spacing, levels)
        want.append(dec)
        y += h
        out += codecs.moc_header(
            rng, width=w, height=h, total=sum(hs), comp=comp, number=i,
            last=i == n - 1, length=len(data)) + data
        if damage is None or i < n - 1:
            out += rng.randbytes(1)
    want = np.clip(np.concatenate(want), 0, 255)
    keep = len(want)
    if damage == "cut":
        # data of the last fragment end early
        del out[-rng.randint(1, min(len(data), 60)):]
        keep -= hs[-1]
    elif rng.random() < .6:
        out += bytes(rng.randint(0, 3000))
    what = (f"MOC transform {w}x{sum(hs)} spacing {spacing} levels {levels} "
            f"{kind} in {n} fragments, {damage}")
    mon.describe(what)
    path = moc_product(rng, mon, out, w, sum(hs), quality)
    got, notes = load(mon, path, what)
    mon.check(got.shape == want.shape and got.dtype == np.uint8, lambda: (
        f"{what}: {got.dtype} {got.shape}"), "moc-dct")
    off = np.abs(got.astype(float) - want)[:keep]
    mon.check(not off.size or off.max() <= 0.5001, lambda: (
        f"{what}: off by {off.max():.3f} at "
        f"{np.unravel_index(off.argmax(), off.shape)}"), "moc-dct")
    noted(mon, notes, what, damage, quality)
    mon.saw("moc_dct")
    mon.saw("pixels", off.size)
    if n > 1:
        mon.saw("fragments")
    if levels > 1:
        mon.saw("levels")
    if damage:
        # what cannot be decoded is left out
        tail, ref = got[keep:], want[keep:]
        near = np.abs(tail - ref) <= 0.5001
        mon.check((near | (tail == 0)).all(), lambda: (
            f"{what}: pixels of the fragment that is cut off are neither "
            f"right nor 0"), "moc-dct-cut")
        mon.saw("cut")
    mon.sig("moc", "dct", levels, spacing, kind, n, damage)


# ---------------------------------------------------------------------- MSL
INSTRUMENTS = {"MAHLI": "MHL", "MAST_LEFT": "MST", "MAST_RIGHT": "MST",
               "MARDI": "MRD"}


def msl_product(rng, mon, body, w, h, bands, bits):
    inst = rng.choice(list(INSTRUMENTS))
    upper = rng.random() < .6
    stem = f"{rng.randint(0, 9999):04d}MH000{rng.randint(0, 9)}_DXXX"
    if rng.random() < .2:
        stem += "." + rng.choice(["V1", "a", "IMGS"])
    ext = {"lbl": "LBL", "dat": "DAT", "img": "IMG"} if upper else {
        k: k for k in ("lbl", "dat", "img")}
    pointed = f"{stem}.{ext[rng.choice(['dat', 'dat', 'img'])]}"
    rec = rng.choice([64, w * max(1, bits // 8), 1024])
    ptr = rng.choice([pointed, Raw(f'("{pointed}", 2)'),
                      Raw(f'("{pointed}", 65 <BYTES>)')])
    items = [
        ("PDS_VERSION_ID", Raw("PDS3")),
        ("RECORD_TYPE", Raw("FIXED_LENGTH")), ("RECORD_BYTES", rec),
        ("FILE_RECORDS", len(body) // rec + 1), ("^IMAGE", ptr),
    ] + ids_(rng, INSTRUMENT_HOST_NAME="MARS SCIENCE LABORATORY",
             INSTRUMENT_ID=Raw(inst),
             DATA_SET_ID=f"MSL-M-{inst.replace('_', '')}-2-EDR-V1.0") + [
        Obj("IMAGE", [
            ("LINES", h), ("LINE_SAMPLES", w), ("BANDS", bands),
            ("SAMPLE_BITS", bits), ("MAXIMUM", Raw("N/A")),
            ("FIRST_LINE", 1), ("FIRST_LINE_SAMPLE", 1),
        ]),
    ]
    (mon.tmp / f"{stem}.{ext['lbl']}").write_bytes(
        finish_label(render(items) + ["END"]))
    (mon.tmp / f"{stem}.{ext['dat']}").write_bytes(body)
    return mon.tmp / f"{stem}.{ext[rng.choice(['lbl', 'lbl', 'dat'])]}"


def msl_case(rng, mon):
    how = rng.choice(["raw", "raw16", "thumb", "pred", "pred", "jpeg",
                      "jpeg"])
    w, h = (8 * rng.randint(1, 9) for _ in range(2))
    if rng.random() < .03:
        # sizes that do not fit
        w, h = rng.choice([(1648, 8), (8, 1200), (2040, 16)])
    damage, wide, bands, extra = None, False, 1, ""
    if how == "jpeg":
        color = rng.random() < .5
        kind, img = codecs.picture(rng, h, w, 3 if color else None)
        body, want = codecs.msl_jpeg(rng, img)
        if color:
            want = want.transpose(2, 0, 1)
            bands = 3
        extra = rng.choice(["", "", "second", "lead", "padding"])
        if extra == "second":
            # only the first one is read
            body += codecs.msl_jpeg(
                rng, codecs.picture(rng, h, w, 3 if color else None)[1])[0]
        elif extra == "lead":
            body = bytes(rng.randint(1, 60)) + body
        elif extra == "padding":
            body += bytes(rng.randint(1, 99))
        # the count of bands is that of the image
        head = codecs.msl_header(rng, width=w, height=h, kind="jpeg",
                                 color=color ^ (rng.random() < .2),
                                 thumbnail=rng.random() < .3)
    elif how == "pred":
        w = min(w, 2040)
        kind, want = codecs.picture(rng, h, w)
        body = codecs.msl_pred(rng, want)
        extra = rng.choice(["", "lead", "padding"])
        if extra == "lead":
            body = bytes(rng.randint(1, 9)) + b"\xff" + bytes(3) + body
            body = body[len(body) % 4:] if len(body) % 4 else body
        elif extra == "padding":
            body += bytes(rng.randint(1, 99))
        head = codecs.msl_header(rng, width=w, height=h, kind="pred",
                                 thumbnail=rng.random() < .3)
    else:
        wide = how == "raw16" or how == "thumb" and rng.random() < .4
        if how == "thumb":
            hh, ww = h, w
            extra = rng.choice([32, 56])
            for _ in range(50):
                hh, ww = h + rng.randrange(8), w + rng.randrange(8)
                # the first size that the count of bytes agrees with
                fits = [(a, b) for a in range(h, h + 8)
                        for b in range(w, w + 8)
                        if a * b * (1 + wide) + extra
                        in [hh * ww * (1 + wide) + x for x in (
                            32 - extra + extra, 0 + extra)]
                        or a * b * (1 + wide) in (
                            hh * ww * (1 + wide) + extra - 32,
                            hh * ww * (1 + wide) + extra - 56)]
                if set(fits) == {(hh, ww)} and (
                        hh * ww * (1 + wide) + extra
                        <= (w + 7) * (h + 7) * (1 + wide)
                        and hh * ww * (1 + wide) + extra
                        != h * w * (1 + wide)):
                    break
            else:
                mon.saw("ambiguous")
                return
        else:
            hh, ww = h, w
        kind, want = codecs.picture(rng, hh, ww)
        if wide:
            want = (want.astype("u2") * rng.choice([1, 8, 16, 257])
                    + np.arange(ww, dtype="u2") % 7).astype("u2")
        body = want.astype(">u2" if wide else "u1").tobytes()
        if how == "thumb":
            body += rng.randbytes(extra)
        elif rng.random() < .3:
            damage = "cut"
            keep = rng.randrange(len(body))
            body = body[:keep]
            if wide:
                keep -= keep % 2
            flat = want.ravel().copy()
            flat[keep // (2 if wide else 1):] = 0
            want = flat.reshape(want.shape)
        elif rng.random() < .5:
            extra = "padding"
            body += rng.randbytes(rng.randint(1, 90))
        head = codecs.msl_header(rng, width=w, height=h, kind="raw",
                                 wide=wide, thumbnail=how == "thumb")
    what = f"MSL {how} {want.shape} {kind} {extra} {damage}"
    mon.describe(what)
    path = msl_product(rng, mon, head + body, w, h, bands, 16 if wide else 8)
    what += f" {path.name}"
    from PIL import ImageFile

    flag = ImageFile.LOAD_TRUNCATED_IMAGES
    try:
        got, _ = load(mon, path, what)
        mon.check(ImageFile.LOAD_TRUNCATED_IMAGES == flag, lambda: (
            f"{what}: other images are read differently afterwards"),
            "global-state")
    finally:
        ImageFile.LOAD_TRUNCATED_IMAGES = flag
    if damage == "cut" and wide and len(body) % 2:
        # half of a pixel
        at = len(body) // 2
        want, got = want.ravel().copy(), got.ravel().copy()
        want[at] = got[at] = 0
    same(mon, got, np.ascontiguousarray(want), what, "msl-" + how)
    mon.saw("msl_" + how)
    if damage:
        mon.saw("cut")
    mon.sig("msl", how, kind, w > 99 or h > 99, wide, extra, damage,
            path.suffix)


def run_case(rng, mon, idx):
    if rng.random() < .06:
        moc_resync_case(rng, mon)
    elif rng.random() < .5:
        moc_case(rng, mon)
    else:
        msl_case(rng, mon)
