"""C19: 'desktop' images"""
import struct

import numpy as np

import deskw
import pdr

PROP = "C19"
CASES = {"quick": 6000, "thorough": 60000}
RULE = (
    "case = one generated PNG (all color types, depths, filters, interlacing), "
    "BMP, TIFF (byte orders, sample types, strips, planar configurations, "
    "compressions), GIF (palettes, partial and transparent frames), JPEG, "
    "JPEG2000, WEBP or MPO file, opened by itself or from a PDS3 label; every "
    "frame is loaded in random order and compared with what was written. A "
    "behaviour is (format, kind of pixels, frames, how it was opened)"
)
EXT = {"PNG": [".png", ".PNG"], "BMP": [".bmp", ".BMP"],
       "TIFF": [".tif", ".tiff", ".TIF", ".Tiff"], "GIF": [".gif", ".GIF"],
       "JPEG": [".jpg", ".jpeg", ".JPG"],
       "JPEG2000": [".jp2", ".JP2", ".jpf", ".jpx"],
       "WEBP": [".webp"], "MPO": [".jpg", ".JPG", ".jpeg"]}
WRITERS = {"PNG": deskw.png, "BMP": deskw.bmp, "TIFF": deskw.tiff,
           "GIF": deskw.gif, "JPEG": deskw.jpeg, "JPEG2000": deskw.jp2,
           "WEBP": deskw.webp, "MPO": deskw.mpo}
REQUIRED = ("pixels", "frames", "palette", "band_axis", "labeled", "metadata",
            "reload", "misnamed", "xmp", "bad_xmp", "icc", "exif", "gps",
            "load_all", *WRITERS)

XML_NS = ('xmlns:x="adobe:ns:meta/" '
          'xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" '
          'xmlns:dc="http://purl.org/dc/elements/1.1/"')


def xmp_packet(rng):
    """(bytes, tree or None if it can't be represented)"""
    def node(depth):
        tag = rng.choice(["rdf:li", "dc:title", "dc:rights", "dc:creator"])
        attrs = {f"a{i}": rng.choice(["1", "x y", "é"])
                 for i in range(rng.choice([0, 0, 1, 2]))}
        at = "".join(f' {k}="{v}"' for k, v in attrs.items())
        short = tag.split(":")[1]
        if depth < 3 and rng.random() < .5:
            kids = [node(depth + 1) for _ in range(rng.randint(1, 3))]
            tree = list(attrs.items()) + [
                k[1] for k in kids if k[1][1] not in (None, [], {})]
            return (f"<{tag}{at}>\n" + "".join(k[0] for k in kids)
                    + f"</{tag}>\n", (short, tree))
        text = rng.choice(["", "", "hello", "two words", "5"])
        if attrs and text:
            val = [("attrib", list(attrs.items())), ("text", text)]
        elif attrs:
            val = list(attrs.items())
        else:
            val = text or None
        return f"<{tag}{at}>{text}</{tag}>\n", (short, val)
    kids = [node(0) for _ in range(rng.randint(1, 3))]
    body = ('<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>'
            f'<x:xmpmeta {XML_NS}><rdf:RDF>' + "".join(k[0] for k in kids)
            + "</rdf:RDF></x:xmpmeta><?xpacket end='w'?>").encode()
    inner = [k[1] for k in kids if k[1][1] not in (None, [], {})]
    tree = [("RDF", inner)] if inner else []
    how = rng.random()
    if how < .15:
        return body + b"\0", tree
    if how < .3:
        return body + b" \n" * 10, tree
    if how < .5:
        return rng.choice([b"<a>", b"", b"\0", b"not xml", body[:-30],
                           b"<a>text<b>c</b></a>"]), None
    return body, tree


def xml_same(got, tree):
    if isinstance(tree, str):
        return got == tree
    if not hasattr(got, "items"):
        return False
    items = list(got.items())
    return [k for k, _ in items] == [k for k, _ in tree] and all(
        xml_same(g, e) for (_, g), (_, e) in zip(items, tree))


def exif_bytes(rng, mon):
    from PIL import Image
    ex = Image.Exif()
    exp = {}
    ex[0x0110] = exp["Model"] = rng.choice(["Camera One", "Mk 2"])
    if rng.random() < .3:
        ex[0xC7FF + rng.randrange(100)] = "private"
    if rng.random() < .7:
        g = ex.get_ifd(0x8825)
        g[1], g[2] = "N", (float(rng.randint(0, 89)), 33.0, 3.5)
        exp["LatitudeRef"], exp["Latitude"] = "N", g[2]
        if rng.random() < .3:
            g[rng.choice([77, 200, 999])] = 3
        mon.saw("gps")
    mon.saw("exif")
    return ex, exp


def run_case(rng, mon, idx):
    fmt = rng.choice(["PNG"] * 3 + ["TIFF"] * 3 + ["GIF"] * 2 + ["BMP"] * 2
                     + ["JPEG", "JPEG2000", "WEBP", "MPO"])
    xmp = exif = None
    if fmt == "TIFF" and rng.random() < .4:
        tags = []
        if rng.random() < .7:
            body, xmp = xmp_packet(rng)
            if len(body) > 1:
                mon.saw("xmp" if xmp is not None else "bad_xmp")
                tags.append((700, 1, len(body), body))
        if rng.random() < .4:
            from PIL import ImageCms
            icc = ImageCms.ImageCmsProfile(
                ImageCms.createProfile("sRGB")).tobytes()
            if rng.random() < .3:
                icc = icc[:rng.randint(5, 100)]
            tags.append((34675, 7, len(icc), icc))
            mon.saw("icc")
        if not any(t[0] == 700 for t in tags):
            xmp = None
        blob, frames, info = deskw.tiff(rng, tags)
    elif fmt == "JPEG" and rng.random() < .5:
        ex, exif = exif_bytes(rng, mon)
        blob, frames, info = deskw.jpeg(rng, exif=ex)
    else:
        blob, frames, info = WRITERS[fmt](rng)
    mon.saw(fmt)
    exts = EXT[fmt]
    if rng.random() < .06:
        exts = [e for v in EXT.values() for e in v]
        mon.saw("misnamed")
    d = mon.tmp
    path = d / f"a picture{rng.choice(exts)}" if rng.random() < .3 \
        else d / f"pic{rng.choice(exts)}"
    path.write_bytes(blob)
    labeled = len(frames) == 1 and rng.random() < .3
    target = path
    if labeled:
        mon.saw("labeled")
        w, h = info["size"]
        target = d / "other.lbl"
        target.write_text("\r\n".join([
            "PDS_VERSION_ID = PDS3", 'DATA_SET_ID = "X"',
            f'^IMAGE = "{path.name}"', "OBJECT = IMAGE", f"  LINES = {h}",
            f"  LINE_SAMPLES = {w}", "  SAMPLE_BITS = 8",
            "  SAMPLE_TYPE = UNSIGNED_INTEGER", "END_OBJECT = IMAGE", "END",
            ""]))
    mon.describe({"format": fmt, "kind": str(info["kind"]),
                  "size": info["size"], "name": path.name,
                  "labeled": labeled, "frames": len(frames)})
    mon.sig(fmt, str(info["kind"]), min(len(frames), 3), labeled)
    try:
        data = pdr.read(target)
    except Exception as ex:
        mon.fail(f"opening raised {ex!r}", "open")
    n = len(frames)
    keys = [k for k in data.keys() if k != "LABEL"]
    if labeled or n == 1:
        exp_keys = ["IMAGE"]
    elif fmt == "MPO":
        exp_keys = keys if len(keys) == n and keys[0] == "IMAGE" else None
        mon.check(exp_keys is not None and all(
            k.endswith(f"_{i}") and k.split("_")[0].split("-")[0].lower()
            == info["names"][i].split(" ")[0].split("-")[0].lower()
            for i, k in enumerate(keys) if i),
            lambda: f"keys {keys} for {n} images", "index")
    else:
        exp_keys = [f"FRAME_{i}" for i in range(n)]
    mon.check(keys == exp_keys, lambda: f"keys {keys}, file has {n} frames",
              "index")
    if not labeled:
        mon.check(data.standard == fmt, lambda: f"standard {data.standard}",
                  "standard")
        g = data.metaget
        w, h = info["size"]
        exp = dict(width=w, height=h, size=(w, h), format=fmt)
        if n > 1:
            exp["n_frames"] = n
        exp |= info.get("meta", {}) | (exif or {})
        for k, v in exp.items():
            mon.check(g(k) == v, lambda: f"metadata {k} is {g(k)!r}, file has "
                      f"{v!r}", "metadata")
        mon.saw("metadata", len(exp))
        if xmp is not None:
            got = data.metadata.get("XMLPacket")
            mon.check(got is not None and not isinstance(got, (bytes, str)),
                      lambda: f"XMP packet not parsed: {got!r}", "metadata")
            mon.check(xml_same(got, xmp), lambda: f"XMP {got!r}, written "
                      f"{xmp!r}", "metadata")
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < .2:
        data.load_all()
        mon.saw("load_all")
    if n > 1:
        order += [rng.randrange(n)]
        mon.saw("frames", n)
    for i in order:
        k = keys[i]
        try:
            got = data[k]
        except Exception as ex:
            mon.fail(f"loading {k} raised {ex!r}", "raise")
        compare(mon, got, frames[i], info, i, k)
    i = rng.randrange(n)
    data[keys[i]][...] = 0
    data.load(keys[i], reload=True)
    compare(mon, data[keys[i]], frames[i], info, i, f"reloaded {keys[i]}")
    mon.saw("reload")


def compare(mon, got, exp, info, i, where):
    mon.check(isinstance(got, np.ndarray), lambda: f"{where} is a "
              f"{type(got)}", "type")
    if info["pal"] is not None:
        mon.saw("palette")
        # frames with transparent parts may have a band for that
        if got.ndim == 3 and got.shape[0] == 4 and exp.shape[0] == 3:
            got = got[:3]
    mon.check(got.shape == exp.shape, lambda: f"{where} has shape {got.shape}, "
              f"file {exp.shape}", "shape")
    if got.ndim == 3:
        mon.saw("band_axis")
    mon.check(got.dtype.kind == exp.dtype.kind
              and got.dtype.itemsize >= exp.dtype.itemsize,
              lambda: f"{where} dtype {got.dtype}, file {exp.dtype}", "dtype")
    ok = got == exp
    if "masks" in info:
        ok = ok | ~info["masks"][i]
    if not ok.all():
        at = tuple(int(x) for x in np.argwhere(~ok)[0])
        mon.fail(f"{where}{at} is {got[at]!r}, file has {exp[at]!r} "
                 f"({(~ok).sum()} of {exp.size} wrong)", "values")
    mon.saw("pixels", int(exp.size))
