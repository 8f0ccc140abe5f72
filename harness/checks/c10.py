"""C10: a label ends where its END statement is, whatever surrounds it"""
import gzip

import pdr
from pdr.parselabel.utils import trim_label
from pds3w import IDENTIFIERS, Obj, Raw, render
from pmisc import gen_bin_array
from pobj import gen_image
from ptab import gen_bin_table

PROP = "C10"
CASES = {"quick": 700, "thorough": 9000}
RULE = (
    "case = one file whose label is padded so that its END statement lies at a "
    "chosen place (mostly within 30 bytes of a multiple of the read size of 50 "
    "KiB, up to 400 KiB), is ended in one of the ways labels are ended, and is "
    "followed by data or text that may itself look like a label; oracle: the "
    "label text and statements that were written. A behaviour is (ending, "
    "what follows, END's place relative to the read boundary, attached or not, "
    "encoding)"
)
REQUIRED = ("labels_compared", "straddling", "objects_compared", "lookalike",
            "binary_head", "latin1_detached", "latin1_attached", "utf8",
            "compressed", "no_end")
CHUNK = 50 * 1024
ENDINGS = {
    "crlf": b"END\r\n", "lf": b"END\n", "cr": b"END\r",
    "spaces": b"END" + b" " * 8, "padded": b"END     \r\n",
    "padlf": b"END  \n", "nul": b"END\x00\x00\x00",
}


def filler(rng, n, eol):
    """statements of exactly n bytes"""
    out = b""
    k = 0
    while len(out) < n:
        left = n - len(out)
        head = f"FILLER_{k:06} = ".encode()
        if left < len(head) + 4 + 2 * len(eol) + 40:
            m = left - len(head) - 2 - len(eol)
            if m < 0:
                return None
            out += head + b'"' + b"x" * m + b'"' + eol
            break
        m = rng.randint(5, min(2000, left - 2 * len(head) - 2 * len(eol) - 10))
        t = "".join(rng.choice("abc DEF 123 END, ") for _ in range(m))
        t = t.strip() or "x"
        out += head + b'"' + t.encode() + b'"' + eol
        k += 1
    return out if len(out) == n else None


def place(rng):
    r = rng.random()
    if r < 0.6:
        return 20 + CHUNK * rng.choice([1, 1, 1, 2, 3]) + rng.randint(-30, 30)
    if r < 0.7:
        return CHUNK * rng.choice([1, 2]) + rng.randint(-30, 30)
    return rng.choice([3000, 20000, 60000, 200000]) + rng.randint(0, 3000)


def run_case(rng, mon, idx):
    r = rng.random()
    if r < 0.05:
        return binary_head(rng, mon)
    attached = rng.random() < 0.7
    eol = rng.choice([b"\r\n", b"\n"])
    endname = rng.choice(list(ENDINGS))
    if not attached and rng.random() < 0.15:
        endname = "none"
    objs = []
    if rng.random() < 0.8:
        g = rng.choice([gen_image, gen_bin_array, gen_bin_table])
        if g is gen_bin_table:
            objs = [gen_bin_table(rng, "TABLE", {"items", "char"})]
        else:
            objs = [g(rng)]
    # a label of a chosen size: pointers first, with fixed-width numbers
    target = place(rng)
    special = rng.choice([None] * 6 + ["utf8", "latin1"])
    note = {"utf8": "caf\u00e9 \u03bcm \u00b0".encode(),
            "latin1": b"caf\xe9 \xb5m \xb0", None: b"plain"}[special]

    def text(start):
        h = [("PDS_VERSION_ID", Raw("PDS3")),
             ("RECORD_TYPE", Raw("UNDEFINED"))]
        for o in objs:
            v = (Raw(f"{start:9d} <BYTES>") if attached else
                 Raw(f'("data.dat", {1:9d} <BYTES>)'))
            h.append((f"^{o.name}", v))
        h += IDENTIFIERS
        e = eol.decode()
        s = (e.join(render(h)) + e).encode()
        s += b'STRANGE_NOTE = "' + note + b'"' + eol
        t = (e.join(render([o.block for o in objs])) + e).encode() if objs \
            else b""
        need = target - len(s) - len(t)
        f = filler(rng_fill(), need, eol) if need > 40 else b""
        return s + (f or b"") + t

    seed = rng.getrandbits(32)
    import random

    def rng_fill():
        return random.Random(seed)

    head = text(1)
    end = ENDINGS.get(endname, b"")
    if endname == "none":
        mon.saw("no_end")
    follow = rng.choice(["binary", "ascii", "lookalike", "nothing", "nuls"])
    junk = {
        "binary": rng.randbytes(rng.randint(0, 200)),
        "ascii": b"1,2,3\r\n" * rng.randint(1, 5),
        "lookalike": b"\r\nOBJECT = IMPOSTOR\r\nIMPOSTOR_KEY = 5\r\n"
                     b"END_OBJECT = IMPOSTOR\r\nEND\r\n",
        "nothing": b"", "nuls": bytes(rng.randint(1, 50)),
    }[follow]
    if endname == "none":
        junk, follow = b"", "nothing"
    if endname == "nul" and follow == "lookalike":
        # three NULs only end a label that has no END line at all
        junk, follow = b"\r\n", "newline"
    body = b"".join(o.payload for o in objs)
    if attached:
        start = len(head) + len(end) + len(junk) + 1
        full = text(start)
        assert len(full) == len(head)
        content = full + end + junk + body
        name = rng.choice(["prod.img", "PROD.DAT", "p.qub", "x.tab"])
    else:
        full = head
        content = full + end + junk
        name = rng.choice(["prod.lbl", "PROD.LBL"])
        (mon.tmp / "data.dat").write_bytes(body)
    p = mon.tmp / name
    p.write_bytes(content)
    compressed = attached and rng.random() < 0.1
    opened = p
    if compressed:
        mon.saw("compressed")
        (mon.tmp / (name + ".gz")).write_bytes(gzip.compress(content))
        p.unlink()
    at = len(full)          # position of END
    rel = (at - 20) % CHUNK
    rel = rel - CHUNK if rel > CHUNK // 2 else rel
    near = abs(rel) <= 30
    if near:
        mon.saw("straddling")
    if follow == "lookalike":
        mon.saw("lookalike")
    desc = {"end_at": at, "relative to read boundary": rel, "ending": endname,
            "follow": follow, "attached": attached, "encoding": special,
            "eol": repr(eol), "objects": [o.meta["desc"] for o in objs]}
    mon.describe(desc)
    if special == "latin1" and attached:
        mon.saw("latin1_attached")
        try:
            pdr.read(opened)
        except ValueError:
            pass
        else:
            mon.fail(f"undecodable attached label was accepted ({desc})",
                     "decode")
        data = pdr.Data(opened, strict_label_decode=False)
        mon.check("IMPOSTOR_KEY" not in data.metadata.fieldcounts,
                  lambda: f"read past END ({desc})", "extent")
        for o in objs:
            o.verify(data, o.name, mon, f"[{endname}] ")
        return
    data = pdr.read(opened)
    meta = data.metadata
    want = ["PDS_VERSION_ID", "RECORD_TYPE"] + [f"^{o.name}" for o in objs] \
        + [k for k, _ in IDENTIFIERS] + ["STRANGE_NOTE"]
    nfill = full.count(b"FILLER_")
    want += [f"FILLER_{i:06}" for i in range(nfill)] + [o.name for o in objs]
    mon.check(list(meta.keys()) == want,
              lambda: f"statements {list(meta.keys())[-5:]} ({len(meta)}) != "
                      f"{want[-5:]} ({len(want)}) ({desc})", "extent")
    exp_note = note.decode("utf-8", "replace")
    mon.check(meta["STRANGE_NOTE"] == exp_note,
              lambda: f"note {meta['STRANGE_NOTE']!r} ({desc})", "decode")
    if special == "latin1":
        mon.saw("latin1_detached")
    elif special:
        mon.saw("utf8")
    got = data["LABEL"]
    mon.check(isinstance(got, str), lambda: f"LABEL is {type(got)} ({desc})",
              "label-text")
    exp = full.decode("utf-8", "replace").replace("\r\n", "\n")
    mon.check(got.startswith(exp),
              lambda: f"LABEL text differs before END, lengths {len(got)} "
                      f"{len(exp)} ({desc})", "label-text")
    rest = got[len(exp):]
    mon.check(rest.rstrip("\0 \r\n") == ("END" if end else ""),
              lambda: f"LABEL text after the last statement: {rest[:80]!r} "
                      f"({desc})", "extent")
    mon.saw("labels_compared")
    for o in objs:
        o.verify(data, o.name, mon, f"[{endname} {follow} {rel}] ")
    mon.sig(endname, follow, "near" if near else "far",
            rel if near else at // CHUNK, attached, special)


def binary_head(rng, mon):
    mon.saw("binary_head")
    p = mon.tmp / rng.choice(["a.img", "b.dat", "c.tab"])
    head = bytes([rng.randint(128, 255)]) + rng.randbytes(300)
    p.write_bytes(head)
    try:
        d = pdr.read(p)
    except ValueError:
        mon.sig("binary head")
        return
    mon.fail(f"a file with no label was opened: {d!r:.200}", "no-label")
