"""
Encoders of the compressed images that pdr decodes itself: MGS MOC (raw,
predictive and transform) and MSL MAHLI/MARDI/Mastcam EDR (raw, predictive and
JPEG). The code tables are those of the instruments' flight software.
"""
from __future__ import annotations

import io
import json
import struct
from pathlib import Path

import numpy as np

CODES = json.loads((Path(__file__).parent / "codes.json").read_text())
MOC, MSL = CODES["moc"], CODES["msl"]


class Bits:
    """a stream of bits, the least significant of a byte first"""
    def __init__(self):
        self.n, self.acc, self.out = 0, 0, bytearray()

    def put(self, value, n):
        self.acc |= value << self.n
        self.n += n
        while self.n >= 8:
            self.out.append(self.acc & 255)
            self.acc >>= 8
            self.n -= 8

    def align(self):
        if self.n:
            self.put(0, 8 - self.n)


# ------------------------------------------------------------------ MGS MOC
def moc_values(table):
    """what each value decodes to"""
    return (np.array(MOC["requant7"], "u1") if table == 7
            else np.arange(256, dtype="u1"))


def moc_encode(residuals, table, bits):
    b, n = MOC["bits"][table], MOC["len"][table]
    for r in residuals:
        bits.put(b[r], n[r])


def moc_raw(img, table):
    """(coded data, decoded image, end of each line)"""
    s = Bits()
    ends = []
    for line in img:
        moc_encode(line.tolist(), table, s)
        ends.append(len(s.out) + (s.n > 0))
    s.align()
    return bytes(s.out), moc_values(table)[img], ends


def moc_pred(img, table, ypred, junk):
    """the same for predictive coding, with a marker at every 128th line"""
    s, out, ends = Bits(), np.zeros_like(img), []
    vals = moc_values(table).astype(int)
    for y, line in enumerate(img):
        if y % 128 == 0:
            s.align()
            if len(s.out) % 2:
                s.put(junk, 8)
            s.out += b"\xca\xf0" + line.tobytes()
            out[y] = line
        elif ypred:
            # relative to what was decoded
            r = (line.astype(int) - out[y - 1]) & 255
            moc_encode(r.tolist(), table, s)
            out[y] = (vals[r] + out[y - 1]) & 255
        else:
            prev, r = 0, []
            for x, v in enumerate(line.tolist()):
                r.append((v - prev) & 255)
                prev = (prev + int(vals[r[-1]])) & 255
                out[y, x] = prev
            moc_encode(r, table, s)
        ends.append(len(s.out) + (s.n > 0))
    s.align()
    return bytes(s.out), out, ends


_n = np.arange(16)
BASIS = np.cos((2 * _n[:, None] + 1) * _n[None, :] * np.pi / 32)
BASIS[:, 0] = 1 / np.sqrt(2)


def moc_dct(rng, img, spacing, levels):
    """
    (coded data, decoded image as floats) of one fragment of transform coding
    """
    h, w = img.shape
    s = Bits()
    where = [(y, x) for x in range(0, w, 16) for y in range(0, h, 16)]
    groups = [rng.randrange(levels) for _ in where]
    for g in groups:
        s.put(g, 3)
    coefs = []
    for y, x in where:
        c = BASIS.T @ img[y:y + 16, x:x + 16].astype(float) @ BASIS / 64 * 127
        coefs.append(c.ravel())
    trans = np.array(MOC["trans"])
    out = np.zeros((h, w))
    for lv in range(levels):
        mine = [i for i, g in enumerate(groups) if g == lv]
        if not mine:
            continue
        dcs = [coefs[i][0] for i in mine]
        lo = max(0, int(min(dcs)) - rng.choice([0, 0, 300, 4000]))
        hi = min(65535, int(max(dcs)) + 1 + rng.choice([0, 0, 300, 4000]))
        if rng.random() < .2:
            lo, hi = 0, 64770
        var = [rng.randrange(8) for _ in range(255)]
        if rng.random() < .3:
            var = sorted(var, reverse=True)
        s.put(lo, 16)
        s.put(hi, 16)
        for v in var:
            s.put(v, 3)
        for i in mine:
            dc = 0 if hi == lo else min(255, max(0, round(
                (coefs[i][0] - lo) * 255 / (hi - lo))))
            q = np.zeros(256, int)
            q[trans] = np.rint(coefs[i] / spacing).astype(int)
            if rng.random() < .3:
                # few of them
                q[rng.randrange(256):] = 0
            elif rng.random() < .1:
                # large ones
                for _ in range(3):
                    q[rng.randrange(1, 40)] = rng.randint(
                        -30000, 30000) // spacing
            q[0] = 0
            last = int(np.flatnonzero(q)[-1]) if q.any() else 0
            last = rng.choice([last, last, max(last, rng.randrange(256))])
            s.put(dc, 8)
            s.put(255 - last, 8)
            for k in range(1, last + 1):
                put_coef(s, int(q[k]), var[k - 1])
            back = (q * spacing)[trans].astype(float)
            back[0] = dc * (hi - lo) // 255 + lo
            y, x = where[i]
            out[y:y + 16, x:x + 16] = (
                BASIS @ back.reshape(16, 16) @ BASIS.T) / 127
    s.align()
    return bytes(s.out), out


def put_coef(s, v, table):
    n, c = MOC["num"][table], MOC["code"][table]
    k = v + len(n) // 2
    if 0 < k < len(n) - 1:
        s.put(c[k], n[k])
    elif v < 0:
        s.put(c[0], n[0])
        s.put(v & 0x7FFF, 15)
    else:
        s.put(c[-1], n[-1])
        s.put(v, 15)


def moc_header(rng, *, width, height, total, comp, last, length, number):
    h = bytearray(rng.randbytes(62))
    h[0:4] = struct.pack("<HH", rng.randrange(65536), number)
    h[6:8] = struct.pack("<H", height // 16)
    h[13] = rng.randrange(256) & ~2 | (2 if last else 0)
    h[40:42] = struct.pack("<H", total // 16)
    h[43] = width // 16
    h[44:52] = comp
    h[58:62] = struct.pack("<I", length)
    return bytes(h)


def moc_comp(rng, *, pcomp=0, xcomp=0, table=0, levels=1, spacing=1):
    out = bytearray(rng.randbytes(8))
    out[0] = rng.choice([0, 0, 0x50, 0xf0]) | xcomp << 2 | pcomp
    out[1] = levels - 1 << 5 | rng.choice([0, 16]) | table
    out[4:6] = struct.pack("<H", spacing)
    return bytes(out)


# ------------------------------------------------------------------ MSL EDR
def _paths():
    flags, left, right = MSL[:255], MSL[255:510], MSL[510:]
    out = {}

    def walk(node, path):
        for bit, flag, side in ((0, 1, left), (1, 2, right)):
            if flags[node] & flag:
                walk(side[node], path + [bit])
            else:
                out.setdefault(side[node], []).append(path + [bit])
    walk(0, [])
    return out


PATHS = _paths()


def msl_header(rng, *, width, height, kind, color=False, thumbnail=False,
               wide=False, col=None, row=None):
    w = [rng.getrandbits(32) for _ in range(16)]
    w[0] = 0xff00f0ca & ~(0x8 << 24) | (0x8 << 24 if thumbnail else 0)
    w[5] = (rng.randrange(256) << 24 | rng.randrange(256) << 16
            | (width // 8 & 255) << 8 | (height // 8 & 255))
    w[8] = rng.getrandbits(16) << 16
    if kind == "jpeg":
        w[8] |= rng.randint(1, 255) | (rng.randint(1, 255) << 8 if color
                                       else 0)
    elif kind == "pred":
        w[8] |= rng.randint(1, 255) << 8
    w[9] = 255 if wide else rng.randint(0, 254)
    w[15] = 0x1010cc28
    out = struct.pack(">16I", *w)
    # no marker of a line in it
    return out.replace(b"\xff\xff\x00\x00", b"\xff\xfe\x00\x00")


def msl_pred(rng, img):
    h, w = img.shape
    out = bytearray()
    for y in range(0, h, 8):
        b = img[y:y + 8]
        for plane in (b[::2, ::2], b[::2, 1::2], b[1::2, ::2], b[1::2, 1::2]):
            prev, bits = 0, []
            for v in plane.ravel().tolist():
                bits += rng.choice(PATHS[(v - prev) & 255])
                prev = v
            bits += [0] * (-len(bits) % 32)
            out += b"\xff\xff\x00\x00" + np.packbits(
                np.array(bits, "u1")).tobytes()
    return bytes(out)


def msl_jpeg(rng, img):
    """(JPEG data, what it decodes to)"""
    from PIL import Image

    f = io.BytesIO()
    im = Image.fromarray(img)
    im.save(f, "JPEG", quality=rng.choice([60, 90, 98]))
    data = f.getvalue()
    with Image.open(io.BytesIO(data)) as im:
        return data, np.array(im)


# ------------------------------------------------------------------- images
def picture(rng, h, w, planes=None):
    """some image"""
    g = np.random.default_rng(rng.getrandbits(60))
    how = rng.choice(["noise", "smooth", "ramp", "flat", "runs", "edges"])
    shape = (h, w) if planes is None else (h, w, planes)
    if how == "noise":
        return how, g.integers(0, 256, shape).astype("u1")
    if how == "flat":
        return how, np.full(shape, rng.randrange(256), "u1")
    y, x = np.mgrid[:h, :w]
    k = [rng.uniform(.02, .4) for _ in range(4)]
    if how == "smooth":
        im = 128 + 80 * np.sin(k[0] * x + k[1]) * np.cos(k[2] * y)
    elif how == "ramp":
        im = x * 3.0 + y * 5 + rng.randrange(256)
    elif how == "runs":
        im = g.integers(0, 256, (h, w // 8 + 1)).repeat(8, 1)[:, :w]
    else:
        im = 255.0 * ((x * 7 // w + y * 5 // h) % 2)
    im = (im + g.normal(0, rng.choice([0, 2]), (h, w))).astype(int)
    im = np.clip(im, 0, 255) if how != "ramp" else im & 255
    if planes:
        im = np.stack([np.clip(im + 20 * i, 0, 255) for i in range(planes)],
                      axis=-1)
    return how, im.astype("u1")
