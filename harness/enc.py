"""
Independent encoders: produce (bytes, expected value) pairs for the physical
data types in the PDS standards without using numpy dtypes or pdr code.
Everything is built from Python integers / struct.
"""
import math
import struct

import numpy as np

# PDS3 sample types -> (kind, byte order, widths)
PDS3_TYPES = {
    "MSB_INTEGER": ("i", ">", (1, 2, 4)),
    "MSB_UNSIGNED_INTEGER": ("u", ">", (1, 2, 4)),
    "LSB_INTEGER": ("i", "<", (1, 2, 4)),
    "LSB_UNSIGNED_INTEGER": ("u", "<", (1, 2, 4)),
    "INTEGER": ("i", ">", (1, 2, 4)),
    "UNSIGNED_INTEGER": ("u", ">", (1, 2, 4)),
    "MAC_INTEGER": ("i", ">", (1, 2, 4)),
    "MAC_UNSIGNED_INTEGER": ("u", ">", (1, 2, 4)),
    "SUN_INTEGER": ("i", ">", (1, 2, 4)),
    "SUN_UNSIGNED_INTEGER": ("u", ">", (1, 2, 4)),
    "PC_INTEGER": ("i", "<", (1, 2, 4)),
    "PC_UNSIGNED_INTEGER": ("u", "<", (1, 2, 4)),
    "VAX_INTEGER": ("i", "<", (1, 2, 4)),
    "VAX_UNSIGNED_INTEGER": ("u", "<", (1, 2, 4)),
    "IEEE_REAL": ("f", ">", (4, 8)),
    "REAL": ("f", ">", (4, 8)),
    "FLOAT": ("f", ">", (4, 8)),
    "MAC_REAL": ("f", ">", (4, 8)),
    "SUN_REAL": ("f", ">", (4, 8)),
    "PC_REAL": ("f", "<", (4, 8)),
    "VAX_REAL": ("vax", "<", (4,)),
}
INT_TYPES = [t for t, v in PDS3_TYPES.items() if v[0] in "iu"]
REAL_TYPES = [t for t, v in PDS3_TYPES.items() if v[0] == "f"]


def int_bytes(v, width, order, signed):
    return int(v).to_bytes(
        width, "big" if order == ">" else "little", signed=signed)


def rand_int(rng, width, signed):
    bits = 8 * width
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (
        0, (1 << bits) - 1)
    r = rng.random()
    if r < 0.12:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, 1])
    if r < 0.5:
        return max(lo, min(hi, rng.randint(-300, 300)))
    return rng.randint(lo, hi)


def rand_float(rng, width, special=True):
    """a value exactly representable in IEEE `width`-byte floats"""
    r = rng.random()
    if special and r < 0.03:
        return rng.choice([float("nan"), float("inf"), float("-inf"), -0.0])
    if r < 0.3:
        v = float(rng.randint(-100000, 100000)) / rng.choice([1, 2, 4, 8, 64])
    elif r < 0.8:
        v = rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)
    else:
        v = rng.uniform(-1e4, 1e4)
    return struct.unpack(">f", struct.pack(">f", v))[0] if width == 4 else v


def float_bytes(v, width, order):
    return struct.pack(order + ("f" if width == 4 else "d"), v)


def rand_vax(rng):
    """(bytes, python float) for a VAX F_floating number"""
    if rng.random() < 0.06:
        return b"\0\0\0\0", 0.0
    sign = rng.getrandbits(1)
    exp = rng.choice([rng.randint(100, 156), rng.randint(4, 254)])
    man = rng.getrandbits(23)
    val = (-1.0) ** sign * math.ldexp(0.5 + man / 2.0**24, exp - 128)
    hi = sign << 15 | exp << 7 | man >> 16
    lo = man & 0xFFFF
    return hi.to_bytes(2, "little") + lo.to_bytes(2, "little"), val


def rand_ibm(rng, width):
    """(bytes, python float) for IBM hexadecimal floats (big endian)"""
    mbits = 24 if width == 4 else 56
    if rng.random() < 0.06:
        return b"\0" * width, 0.0
    sign = rng.getrandbits(1)
    # outside 33..96, the value may be out of the range of a 4-byte IEEE real
    exp = rng.randint(40, 90) if rng.random() < 0.85 else rng.choice(
        [rng.randint(0, 39), rng.randint(91, 127)])
    # keep the mantissa exactly representable in a double
    man = rng.getrandbits(min(mbits, 52)) << max(0, mbits - 52)
    val = (-1.0) ** sign * math.ldexp(man, -mbits) * 16.0 ** (exp - 64)
    return (sign << (8 * width - 1) | exp << mbits | man).to_bytes(
        width, "big"), val


def encode_many(rng, type_, width, n):
    """n random items of a PDS3 type -> (bytes, list of expected values)"""
    kind, order, _ = PDS3_TYPES[type_]
    out, vals = bytearray(), []
    for _ in range(n):
        if kind in "iu":
            v = rand_int(rng, width, kind == "i")
            out += int_bytes(v, width, order, kind == "i")
        elif kind == "f":
            v = rand_float(rng, width)
            out += float_bytes(v, width, order)
        else:
            b, v = rand_vax(rng)
            out += b
        vals.append(v)
    return bytes(out), vals


def expected_dtype(type_, width):
    kind = PDS3_TYPES[type_][0]
    return np.dtype(f"{'f' if kind == 'vax' else kind}{width}")


def np_expected(type_, width, vals, shape=None):
    a = np.array(vals, dtype=expected_dtype(type_, width))
    return a if shape is None else a.reshape(shape)


def same_array(got, exp, *, dtype=True):
    """
    None if `got` is element-for-element identical to `exp` (NaN == NaN, same
    shape, same kind and width ignoring byte order); else a description.
    """
    if not isinstance(got, np.ndarray):
        return f"expected ndarray, got {type(got).__name__}: {str(got)[:200]}"
    if got.shape != exp.shape:
        return f"shape {got.shape} != expected {exp.shape}"
    if dtype and (got.dtype.kind, got.dtype.itemsize) != (
            exp.dtype.kind, exp.dtype.itemsize):
        return f"dtype {got.dtype} != expected {exp.dtype}"
    if exp.size == 0:
        return None
    if got.dtype.kind == "f" or exp.dtype.kind == "f":
        g, e = got.astype("f8"), exp.astype("f8")
        bad = ~((g == e) | (np.isnan(g) & np.isnan(e)))
    else:
        bad = got != exp
    if np.any(bad):
        ix = tuple(int(i) for i in np.argwhere(bad)[0])
        return (f"{int(np.sum(bad))} of {exp.size} elements differ, first at "
                f"{ix}: got {got[ix]!r}, expected {exp[ix]!r}")
    return None


def numbered(name, n, taken):
    """n names from name and ascending integers, but those in use"""
    out, k = [], 0
    while len(out) < n:
        if f"{name}_{k}" not in taken:
            out.append(f"{name}_{k}")
        k += 1
    return out
