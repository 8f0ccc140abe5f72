"""
Independent writers of 'desktop' image formats (PNG, BMP, TIFF, GIF written
byte by byte here; JPEG, JPEG2000, WEBP and MPO by pillow). Every writer
returns (bytes, frames, info); frames are arrays in [y, x] or [band, y, x]
order with the values the file holds.
"""
import io
import struct
import zlib

import numpy as np


def rand_pixels(rng, shape, hi=255, dtype="u1"):
    kind = rng.random()
    g = np.random.default_rng(rng.randrange(2 ** 32))
    if kind < .3:   # smooth
        idx = np.indices(shape).sum(0) * rng.randint(1, 9)
        return (idx % (hi + 1)).astype(dtype)
    if kind < .4:   # constant
        return np.full(shape, rng.randint(0, hi), dtype)
    return g.integers(0, hi + 1, shape).astype(dtype)


def pack_rows(a, bits):
    """[y, x] of small ints -> list of row bytes, most significant bit first"""
    rows = []
    for row in a:
        if bits == 8:
            rows.append(bytes(row.tolist()))
            continue
        s = "".join(format(int(v), f"0{bits}b") for v in row)
        s += "0" * (-len(s) % 8)
        rows.append(int(s, 2).to_bytes(len(s) // 8, "big") if s else b"")
    return rows


# ------------------------------------------------------------------- PNG
ADAM7 = [(0, 0, 8, 8), (0, 4, 8, 8), (4, 0, 8, 4), (0, 2, 4, 4), (2, 0, 4, 2),
         (0, 1, 2, 2), (1, 0, 2, 1)]


def png_filter(rng, rows, bpp):
    out, prev = b"", None
    for row in rows:
        up = prev or bytes(len(row))
        left = bytes(bpp) + row[:-bpp] if len(row) > bpp else bytes(len(row))
        ul = bytes(bpp) + up[:-bpp] if len(row) > bpp else bytes(len(row))
        left, ul = left[:len(row)], ul[:len(row)]
        f = rng.randrange(5)
        if f == 0:
            enc = row
        elif f == 1:
            enc = bytes((r - a) & 255 for r, a in zip(row, left))
        elif f == 2:
            enc = bytes((r - b) & 255 for r, b in zip(row, up))
        elif f == 3:
            enc = bytes((r - (a + b) // 2) & 255
                        for r, a, b in zip(row, left, up))
        else:
            def paeth(a, b, c):
                p = a + b - c
                pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                return a if pa <= pb and pa <= pc else b if pb <= pc else c
            enc = bytes((r - paeth(a, b, c)) & 255
                        for r, a, b, c in zip(row, left, up, ul))
        out += bytes([f]) + enc
        prev = row
    return out


def chunk(tag, body):
    return (struct.pack(">I", len(body)) + tag + body
            + struct.pack(">I", zlib.crc32(tag + body)))


def png(rng):
    w, h = rng.randint(1, 24), rng.randint(1, 24)
    ctype, bits = rng.choice([(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8),
                              (2, 8), (3, 1), (3, 2), (3, 4), (3, 8), (3, 8),
                              (4, 8), (6, 8)])
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    hi = 2 ** bits - 1
    pal, extra = None, b""
    if ctype == 3:
        n = rng.randint(1, min(hi + 1, 256))
        pal = [tuple(rng.randrange(256) for _ in "rgb") for _ in range(n)]
        hi = n - 1
        extra += chunk(b"PLTE", b"".join(bytes(c) for c in pal))
        if rng.random() < .2:
            extra += chunk(b"tRNS", bytes([rng.randrange(256)]))
    a = rand_pixels(rng, (h, w, ch), hi, "u2")

    def rows(b):
        if b.size == 0:
            return []
        if bits == 16:
            return [r.astype(">u2").tobytes() for r in b]
        if ch > 1:
            return [r.astype("u1").tobytes() for r in b]
        return pack_rows(b[:, :, 0], bits)
    bpp = max(1, ch * bits // 8)
    lace = rng.random() < .2
    if lace:
        raw = b""
        for y0, x0, dy, dx in ADAM7:
            sub = a[y0::dy, x0::dx]
            if sub.size:
                raw += png_filter(rng, rows(sub), bpp)
    else:
        raw = png_filter(rng, rows(a), bpp)
    z = zlib.compress(raw)
    cut = rng.randint(0, len(z))
    if rng.random() < .2:
        extra = chunk(b"tEXt", b"Comment\0hi there") + extra
    blob = (b"\x89PNG\r\n\x1a\n"
            + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, bits, ctype, 0, 0,
                                         int(lace)))
            + extra + chunk(b"IDAT", z[:cut]) + chunk(b"IDAT", z[cut:])
            + chunk(b"IEND", b""))
    if ctype == 3:
        out = np.array(pal, "u1")[a[:, :, 0]].transpose(2, 0, 1)
    elif ch > 1:
        out = a.astype("u1").transpose(2, 0, 1)
    elif bits == 1:
        out = a[:, :, 0].astype(bool)
    elif bits < 8:
        out = (a[:, :, 0] * (255 // (2 ** bits - 1))).astype("u1")
    else:
        out = a[:, :, 0].astype("u1" if bits == 8 else "u2")
    return blob, [out], dict(format="PNG", size=(w, h), kind=(ctype, bits),
                             pal=pal)


# ------------------------------------------------------------------- BMP
def bmp(rng):
    w, h = rng.randint(1, 24), rng.randint(1, 24)
    bits = rng.choice([1, 4, 8, 24, 24, 32])
    pal, palb = None, b""
    if bits <= 8:
        n = rng.randint(2, 2 ** bits)
        pal = [tuple(rng.randrange(256) for _ in "rgb") for _ in range(n)]
        pal[0] = (200, 10, 30)        # never a gray ramp
        palb = b"".join(bytes([b, g, r, 0]) for r, g, b in pal)
        a = rand_pixels(rng, (h, w), n - 1)
        rows = pack_rows(a, bits)
        out = np.array(pal, "u1")[a].transpose(2, 0, 1)
    else:
        a = rand_pixels(rng, (h, w, 3))
        bgr = a[:, :, ::-1]
        if bits == 32:
            bgr = np.concatenate([bgr, np.zeros((h, w, 1), "u1")], 2)
        rows = [r.tobytes() for r in bgr]
        out = a.transpose(2, 0, 1)
    rows = [r + bytes(-len(r) % 4) for r in rows]
    down = rng.random() < .3
    body = b"".join(rows if down else rows[::-1])
    off = 14 + 40 + len(palb)
    blob = (b"BM" + struct.pack("<IHHI", off + len(body), 0, 0, off)
            + struct.pack("<IiiHHIIiiII", 40, w, -h if down else h, 1, bits, 0,
                          len(body), 2835, 2835, len(pal or ()), 0)
            + palb + body)
    return blob, [out], dict(format="BMP", size=(w, h), kind=(bits, down),
                             pal=pal)


# ------------------------------------------------------------------ TIFF
def packbits(data):
    out = b""
    for i in range(0, len(data), 100):
        c = data[i:i + 100]
        if len(set(c)) == 1 and len(c) > 1:
            out += struct.pack("b", 1 - len(c)) + c[:1]
        else:
            out += bytes([len(c) - 1]) + c
    return out


def tiff(rng, tags=()):
    """tags: [(tag, type, count, bytes)] to add; geotiff if rng says"""
    e = rng.choice("<>")
    w, h = rng.randint(1, 24), rng.randint(1, 24)
    kind = rng.choice(["L", "L", "RGB", "RGB", "RGBA", "P", "1", "I;16",
                       "i2", "i4", "f4"])
    pal, photo, spp, fmt = None, 1, 1, None
    if kind in ("RGB", "RGBA"):
        spp, photo = len(kind), 2
        a = rand_pixels(rng, (h, w, spp))
        bits, out = 8, a.transpose(2, 0, 1)
    elif kind == "P":
        photo, bits = 3, 8
        pal = [tuple(rng.randrange(256) for _ in "rgb") for _ in range(256)]
        a = rand_pixels(rng, (h, w))
        out = np.array(pal, "u1")[a].transpose(2, 0, 1)
    elif kind == "1":
        bits = 1
        a = rand_pixels(rng, (h, w), 1)
        out = a.astype(bool)
    elif kind == "L":
        bits, a = 8, rand_pixels(rng, (h, w))
        out = a
    elif kind == "I;16":
        bits, a = 16, rand_pixels(rng, (h, w), 65535, "u2")
        out = a
    elif kind in ("i2", "i4"):
        bits, fmt = 8 * int(kind[1]), 2
        m = 2 ** (bits - 1)
        a = rand_pixels(rng, (h, w), 2 * m - 1, "i8") - m
        out = a.astype("i4")
    else:
        bits, fmt = 32, 3
        a = np.random.default_rng(rng.randrange(2 ** 32)).normal(
            0, 10.0 ** rng.randint(-5, 5), (h, w)).astype("f4")
        out = a
    wide = {"I;16": "u2", "i2": "i2", "i4": "i4", "f4": "f4"}.get(kind)
    planar = 2 if spp > 1 and rng.random() < .3 else 1
    comp = rng.choice([1, 1, 32773, 8]) if kind != "1" else rng.choice([1, 8])
    if e == ">" and kind in ("i2", "i4", "f4"):
        comp = 1    # pillow mistakes these
    rps = rng.randint(1, h)
    strips = []
    planes = [a[:, :, i] for i in range(spp)] if planar == 2 else [a]
    for p in planes:
        for y in range(0, h, rps):
            part = p[y:y + rps]
            if kind == "1":
                b = b"".join(pack_rows(part, 1))
            elif wide:
                b = part.astype(e + wide).tobytes()
            else:
                b = part.astype("u1").tobytes()
            if comp == 8:
                b = zlib.compress(b)
            elif comp == 32773:
                # rows are packed one by one
                n = len(b) // len(part)
                b = b"".join(packbits(b[i:i + n])
                             for i in range(0, len(b), n))
            strips.append(b)
    ent = [(256, 3, [w]), (257, 3, [h]), (258, 3, [bits] * spp),
           (259, 3, [comp]), (262, 3, [photo]), (277, 3, [spp]),
           (278, 3, [rps]), (284, 3, [planar]),
           (273, 4, None), (279, 4, [len(s) for s in strips])]
    if pal:
        ent.append((320, 3, [c[i] * 256 for i in range(3) for c in pal]))
    if fmt:
        ent.append((339, 3, [fmt] * spp))
    if kind == "RGBA":
        ent.append((338, 3, [2]))
    texts = {}
    if rng.random() < .4:
        texts = {305: "some software", 272: "Model X"}
    codes = {3: "H", 4: "I"}
    pos, data, at = 8, b"", []
    for s in strips:
        at.append(8 + len(data))
        data += s + bytes(len(s) % 2)
    recs = []
    for tag, typ, vals in ent:
        vals = at if vals is None else vals
        recs.append((tag, typ, len(vals),
                     struct.pack(e + f"{len(vals)}{codes[typ]}", *vals)))
    for tag, txt in texts.items():
        recs.append((tag, 2, len(txt) + 1, txt.encode() + b"\0"))
    recs += list(tags)
    recs.sort()
    ifd_at = 8 + len(data)
    extra_at = ifd_at + 2 + 12 * len(recs) + 4
    ifd, extra = struct.pack(e + "H", len(recs)), b""
    for tag, typ, n, b in recs:
        if len(b) <= 4:
            v = b + bytes(4 - len(b))
        else:
            v = struct.pack(e + "I", extra_at + len(extra))
            extra += b + bytes(len(b) % 2)
        ifd += struct.pack(e + "HHI", tag, typ, n) + v
    ifd += bytes(4)
    blob = ((b"II*\0" if e == "<" else b"MM\0*") + struct.pack(e + "I", ifd_at)
            + data + ifd + extra)
    return blob, [out], dict(
        format="TIFF", size=(w, h), kind=(kind, e, planar, comp), pal=pal,
        meta={"Software": "some software", "Model": "Model X"} if texts else {})


# ------------------------------------------------------------------- GIF
def lzw(idx, mcs):
    """uncompressed LZW: a clear code often enough that codes never grow"""
    clear, end, size = 1 << mcs, (1 << mcs) + 1, mcs + 1
    codes = []
    for i, v in enumerate(idx):
        if i % ((1 << mcs) - 2 or 1) == 0:
            codes.append(clear)
        codes.append(int(v))
    codes.append(end)
    acc = nbits = 0
    out = bytearray()
    for c in codes:
        acc |= c << nbits
        nbits += size
        while nbits >= 8:
            out.append(acc & 255)
            acc >>= 8
            nbits -= 8
    if nbits:
        out.append(acc & 255)
    blob = bytes([mcs])
    for i in range(0, len(out), 255):
        blob += bytes([len(out[i:i + 255])]) + bytes(out[i:i + 255])
    return blob + b"\0"


def gif(rng, nframes=None):
    w, h = rng.randint(2, 24), rng.randint(2, 24)
    n = nframes or rng.choice([1, 1, 2, 3, 5, 11])
    bits = rng.choice([2, 3, 4, 8])

    def palette():
        p = [tuple(rng.randrange(256) for _ in "rgb") for _ in range(1 << bits)]
        p[0] = (200, 10, 30)
        p[1] = (1, 250, 7)
        return p

    def palb(p):
        return b"".join(bytes(c) for c in p)
    glob = palette()
    blob = (b"GIF89a" + struct.pack("<HHBBB", w, h, 0xF0 | (bits - 1), 0, 0)
            + palb(glob))
    if n > 1:
        blob += b"!\xff\x0bNETSCAPE2.0\x03\x01\0\0\0"
    canvas, frames, known = np.zeros((h, w, 3), "u1"), [], np.zeros((h, w), bool)
    masks = []
    for i in range(n):
        if i == 0 or rng.random() < .6:
            x0 = y0 = 0
            fw, fh = w, h
        else:
            x0, y0 = rng.randrange(w), rng.randrange(h)
            fw, fh = rng.randint(1, w - x0), rng.randint(1, h - y0)
        pal, flag = glob, 0
        if rng.random() < .3:
            pal, flag = palette(), 0x80 | (bits - 1)
        a = rand_pixels(rng, (fh, fw), (1 << bits) - 1)
        trans = rng.randrange(1 << bits) if i and rng.random() < .3 else None
        blob += b"!\xf9\x04" + struct.pack(
            "<BHB", (1 << 2) | (trans is not None), 10, trans or 0) + b"\0"
        blob += b"," + struct.pack("<HHHHB", x0, y0, fw, fh, flag)
        if flag:
            blob += palb(pal)
        blob += lzw(a.ravel(), bits)
        rgb = np.array(pal, "u1")[a]
        m = np.ones(a.shape, bool) if trans is None else a != trans
        canvas[y0:y0 + fh, x0:x0 + fw][m] = rgb[m]
        known[y0:y0 + fh, x0:x0 + fw] |= m
        frames.append(canvas.copy().transpose(2, 0, 1))
        masks.append(known.copy())
    blob += b";"
    return blob, frames, dict(format="GIF", size=(w, h), kind=(n > 1, bits),
                              pal=glob, masks=masks)


# ----------------------------------------------------- written by pillow
def _smooth(rng, shape):
    return rand_pixels(rng, shape)


def _save(im, fmt, **k):
    b = io.BytesIO()
    im.save(b, fmt, **k)
    return b.getvalue()


def _axes(im):
    a = np.array(im)
    return a.transpose(2, 0, 1) if a.ndim == 3 else a


def jpeg(rng, **k):
    from PIL import Image
    w, h = rng.randint(8, 40), rng.randint(8, 40)
    mode = rng.choice(["L", "RGB", "RGB", "CMYK"])
    ch = {"L": 1, "RGB": 3, "CMYK": 4}[mode]
    a = _smooth(rng, (h, w, ch))
    im = Image.fromarray(a[:, :, 0] if ch == 1 else a, mode=mode)
    blob = _save(im, "JPEG", quality=95, **k)
    return blob, [_axes(Image.open(io.BytesIO(blob)))], dict(
        format="JPEG", size=(w, h), kind=mode, pal=None)


def jp2(rng):
    from PIL import Image
    w, h = rng.randint(8, 40), rng.randint(8, 40)
    mode = rng.choice(["L", "RGB", "RGBA", "LA", "I;16"])
    ch = {"L": 1, "RGB": 3, "RGBA": 4, "LA": 2, "I;16": 1}[mode]
    if mode == "I;16":
        a = rand_pixels(rng, (h, w, 1), 65535, "u2")
    else:
        a = rand_pixels(rng, (h, w, ch))
    im = Image.fromarray(a[:, :, 0] if ch == 1 else a)
    blob = _save(im, "JPEG2000", irreversible=False)
    out = a[:, :, 0] if ch == 1 else a.transpose(2, 0, 1)
    return blob, [out], dict(format="JPEG2000", size=(w, h), kind=mode,
                             pal=None)


def webp(rng):
    from PIL import Image
    w, h = rng.randint(2, 30), rng.randint(2, 30)
    n = rng.choice([1, 1, 2, 4, 12])
    arrs = [rand_pixels(rng, (h, w, 3)) for _ in range(n)]
    ims = [Image.fromarray(a) for a in arrs]
    k = dict(lossless=True)
    if n > 1:
        # identical neighbours would be merged
        for i, a in enumerate(arrs):
            a[0, 0] = (i * 20, 255 - i, i)
        ims = [Image.fromarray(a) for a in arrs]
        k |= dict(save_all=True, append_images=ims[1:], duration=10,
                  kmin=1, kmax=1)
    blob = _save(ims[0], "WEBP", **k)
    return blob, [a.transpose(2, 0, 1) for a in arrs], dict(
        format="WEBP", size=(w, h), kind=n > 1, pal=None)


MPTYPES = {0x020002: "Multi-Frame Image (Disparity)",
           0x000000: "Undefined", 0x010001: "Large Thumbnail (VGA Equivalent)",
           0x010002: "Large Thumbnail (Full HD Equivalent)"}


def mpo(rng):
    """JPEGs by pillow, strung together here"""
    from PIL import Image
    n = rng.randint(2, 12)
    e = rng.choice("<>")
    jpegs, size = [], None
    for i in range(n):
        w, h = rng.randint(8, 30), rng.randint(8, 30)
        size = size or (w, h)
        jpegs.append(_save(Image.fromarray(rand_pixels(rng, (h, w, 3))),
                           "JPEG", quality=95))
    types = [0x030000] + [rng.choice(list(MPTYPES)) for _ in range(n - 1)]
    head = 8 + 2 + 12 * 3 + 4
    seg = 2 + 2 + 4 + head + 16 * n     # the whole APP2 segment
    # after the first segment (JFIF)
    at = 2 + 2 + struct.unpack(">H", jpegs[0][4:6])[0]
    start = at + 8                      # offsets count from here
    pos, ents = len(jpegs[0]) + seg, b""
    for i, (j, t) in enumerate(zip(jpegs, types)):
        size_i = len(j) + (seg if i == 0 else 0)
        ents += struct.pack(e + "IIIHH", t, size_i,
                            0 if i == 0 else pos - start, 0, 0)
        pos += len(j) if i else 0
    ifd = ((b"II*\0" if e == "<" else b"MM\0*") + struct.pack(e + "I", 8)
           + struct.pack(e + "H", 3)
           + struct.pack(e + "HHI", 0xB000, 7, 4) + b"0100"
           + struct.pack(e + "HHII", 0xB001, 4, 1, n)
           + struct.pack(e + "HHII", 0xB002, 7, 16 * n, head)
           + bytes(4) + ents)
    app2 = b"\xff\xe2" + struct.pack(">H", seg - 2) + b"MPF\0" + ifd
    blob = jpegs[0][:at] + app2 + jpegs[0][at:] + b"".join(jpegs[1:])
    frames = [_axes(Image.open(io.BytesIO(j))) for j in jpegs]
    return blob, frames, dict(
        format="MPO", size=size, kind=n, pal=None,
        names=[MPTYPES.get(t, "") for t in types])
