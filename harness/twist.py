"""
The same products with other contents (C25): files as a workload made them,
with their data changed in place, so that nothing but the contents tells them
from the others.
"""
import bz2
import gzip
import io
import random
import re
import zipfile

DIGITS = bytes.maketrans(b"12345678", b"23456781")
PICTURES = (b"\x89PNG", b"\xff\xd8", b"GIF8", b"II*\0", b"MM\0*", b"BM",
            b"<?xml", b"<Product")
ATTACHED = (b"PDS_VERSION", b"LBLSIZE=", b"CCSD", b"ODL_VERSION", b"NJPL")


def flip(blob, a, b):
    return blob[:a] + bytes(c ^ 1 for c in blob[a:b]) + blob[b:]


def digits(blob, a):
    return blob[:a] + blob[a:].translate(DIGITS)


def twisted(name, blob):
    """blob's counterpart, or None if it is not to be changed"""
    low = name.lower()
    try:
        if low.endswith(".gz"):
            t = twisted(name[:-3], gzip.decompress(blob))
            return t and gzip.compress(t, mtime=0)
        if low.endswith(".bz2"):
            t = twisted(name[:-4], bz2.decompress(blob))
            return t and bz2.compress(t)
        if low.endswith(".zip"):
            with zipfile.ZipFile(io.BytesIO(blob)) as z:
                old = [(i, z.read(i)) for i in z.infolist()]
            out, new = io.BytesIO(), False
            with zipfile.ZipFile(out, "w") as z:
                for i, b in old:
                    t = twisted(i.filename, b)
                    new = new or t
                    z.writestr(zipfile.ZipInfo(i.filename), t or b)
            return out.getvalue() if new else None
    except Exception:
        return None
    n = len(blob)
    if not n or n > 4_000_000 or blob.startswith(PICTURES):
        return None
    if blob.startswith(b"SIMPLE  ="):
        a = (n // 2880 - 1) * 2880
        if a < 2880 or blob[a:a + 80].isascii() and blob[a:a + 8].strip():
            return None
        return flip(blob, a, a + 40)
    if b"PDS_VERSION" not in blob and b"OBJECT" in blob and b"COLUMN" in blob:
        return re.sub(
            rb'(NAME\s*=\s*"?)([A-Z])',
            lambda m: m[1] + bytes([(m[2][0] - 64) % 26 + 65]), blob)
    start = n // 2
    if blob.startswith(ATTACHED):
        if re.search(rb"\nEND\s*\Z", blob):
            return None
        start = n - n // 4
    text = sum(32 <= c < 127 or c in b"\r\n\t" for c in blob[start:])
    if text >= .95 * (n - start):
        return digits(blob, start)
    return flip(blob, start, n)


def broken(name, blob):
    """some damage to blob, always the same, or None"""
    n = len(blob)
    rng = random.Random(f"{name} {n}")
    how = rng.choice([None, None, "cut", "cut", "garble", "garble", "block",
                      "empty", "more", "digits"])
    if not n or n > 4_000_000 or how is None:
        return None
    if how == "empty":
        return b"" if rng.random() < .3 else None
    if how == "cut":
        return blob[:n - rng.choice([1, 2, n // 10, n // 2, n // 3,
                                     rng.randint(1, n)])]
    if how == "more":
        return blob + rng.choice([b"\0", b"\x1a", b"END\r\n", blob[:100]])
    if how == "digits":
        return blob.translate(DIGITS)
    out = bytearray(blob)
    if how == "block":
        k = rng.randint(0, n)
        m = rng.choice([4, 80, 2880])
        out[k:k + m] = b"\0" * len(out[k:k + m])
    else:
        for _ in range(rng.choice([1, 3, 10])):
            k = rng.randrange(n)
            if 32 <= out[k] < 127:
                out[k] = rng.choice(b"A\"'=<(#.-^/ \n\xe9")
            else:
                out[k] = rng.randrange(256)
    return bytes(out)


CHANGES = {"twist": twisted, "break": broken}


class Twister:
    """changes the files below a directory, each once"""
    def __init__(self, how="twist"):
        self.how = CHANGES[how]
        self.done = {}
        self.n = 0

    def __call__(self, d):
        for p in sorted(d.rglob("*")):
            if p.is_symlink() or not p.is_file():
                continue
            st = p.stat()
            key = (st.st_size, st.st_mtime_ns)
            if self.done.get(p) == key:
                continue
            blob = p.read_bytes()
            t = self.how(p.name, blob)
            if t is not None and t != blob:
                with open(p, "r+b") as h:
                    h.write(t)
                    h.truncate()
                self.n += 1
            st = p.stat()
            self.done[p] = (st.st_size, st.st_mtime_ns)
