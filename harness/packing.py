"""compressed files"""
import bz2
import gzip
import io
import zipfile


def packed_bytes(rng, raw, name, kind):
    """one of the ways in which programs write compressed files"""
    if kind != "zip":
        f = gzip.compress if kind == "gz" else bz2.compress
        if rng.random() < .2:
            # as appending to such files, or parallel programs, do
            k = rng.randint(0, len(raw))
            return f(raw[:k]) + f(raw[k:])
        return f(raw)
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", rng.choice(
            [zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])) as z:
        if rng.random() < .3:
            # an archive of a directory
            parts = rng.choice(["data/", "a/b/"])
            for i, c in enumerate(parts):
                if c == "/":
                    z.mkdir(parts[:i])
            name = parts + name
        z.writestr(name, raw)
    return b.getvalue()
