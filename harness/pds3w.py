"""
Writer for PDS3 labels and products (independent of pdr's parser).
Statements are (key, value) pairs; blocks are Obj instances.
"""
from __future__ import annotations

from dataclasses import dataclass, field
from pathlib import Path


class Raw(str):
    """PVL text emitted verbatim"""


@dataclass
class Qty:
    value: object
    unit: str


@dataclass
class Obj:
    name: str
    items: list
    kind: str = "OBJECT"


def fmt(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, Qty):
        return f"{fmt(v.value)} <{v.unit}>"
    if isinstance(v, (tuple, list)):
        return "(" + ", ".join(fmt(x) for x in v) + ")"
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    return repr(v)


def render(items, indent=0, pad=32):
    out = []
    sp = " " * indent
    for it in items:
        if isinstance(it, Obj):
            out.append(f"{sp}{it.kind:<{pad - indent}} = {it.name}")
            out += render(it.items, indent + 2, pad)
            out.append(f"{sp}{'END_' + it.kind:<{pad - indent}} = {it.name}")
        elif isinstance(it, str):
            out.append(sp + it)
        else:
            k, v = it
            out.append(f"{sp}{k:<{pad - indent}} = {fmt(v)}")
    return out


@dataclass
class DataObj:
    """one data object to be placed in a file"""
    name: str                # pointer name, e.g. IMAGE
    block: Obj | None        # its OBJECT definition
    payload: bytes
    verify: object = None    # verify(data, name, mon, where) raises Violation
    ext: str = "DAT"
    sidecars: dict = field(default_factory=dict)  # other files to write
    meta: dict = field(default_factory=dict)
    label_name: str | None = None   # name in the label if not unique

    @property
    def lname(self):
        return self.label_name or self.name


IDENTIFIERS = [
    ("DATA_SET_ID", "XYZ-Z-SYNTH-3-V1.0"),
    ("INSTRUMENT_ID", "SYNTHCAM"),
    ("INSTRUMENT_NAME", "SYNTHETIC CAMERA OF NOWHERE"),
    ("INSTRUMENT_HOST_NAME", "SYNTHETIC ORBITER"),
    ("INSTRUMENT_HOST_ID", "SYN"),
    ("SPACECRAFT_NAME", "SYNTHETIC ORBITER"),
    ("PRODUCT_ID", "SYNTH_000001"),
    ("PRODUCT_TYPE", "SYNTH"),
]


def finish_label(lines, eol="\r\n"):
    return (eol.join(lines) + eol).encode("latin-1")


def write_detached(dirpath: Path, stem, items, eol="\r\n", name=None):
    lines = render(items) + ["END"]
    p = dirpath / (name or f"{stem}.LBL")
    p.write_bytes(finish_label(lines, eol))
    return p


def layout(rng, objs, start, align, trailing=True, junk=True):
    """
    Place objs in a single file after `start` bytes, separated by junk gaps.
    Returns (blob from `start`, {name: byte offset}).
    """
    blob, pos = bytearray(), {}
    for o in objs:
        if junk and rng.random() < 0.5:
            blob += rng.randbytes(rng.randint(0, 40))
        if align:
            while (start + len(blob)) % align:
                blob += rng.randbytes(1)
        pos[o.name] = start + len(blob)
        blob += o.payload
    if trailing and rng.random() < 0.5:
        blob += rng.randbytes(rng.randint(1, 60))
    return bytes(blob), pos


def build_product(rng, dirpath: Path, objs, *, mode=None, ptr=None,
                  record_bytes=None, eol=None, extra=(), identifiers=None,
                  stem="prod", trailing=True, std=True, junk=True,
                  wrap=False):
    """
    Write a product with the given objects.

    mode: 'attached'  label and data in one file
          'detached'  label + one data file with every object in it
          'split'     label + one data file per object
    ptr:  'record' | 'bytes' - units of pointers
    Returns (path to open, info dict)
    """
    mode = mode or rng.choice(["attached", "detached", "split"])
    eol = eol or rng.choice(["\r\n", "\n"])
    ptr = ptr or rng.choice(["record", "bytes"])
    record_bytes = record_bytes or rng.choice([64, 80, 100, 256, 512, 7])
    dirpath.mkdir(parents=True, exist_ok=True)
    blocks = [o.block for o in objs if o.block is not None]
    ids = list(IDENTIFIERS if identifiers is None else identifiers)
    info = {"mode": mode, "ptr": ptr, "record_bytes": record_bytes,
            "eol": repr(eol), "files": {}, "start": {}}

    def head(nrec):
        h = []
        if std:
            h = [("PDS_VERSION_ID", Raw("PDS3")),
                 ("RECORD_TYPE", Raw("FIXED_LENGTH")),
                 ("RECORD_BYTES", record_bytes)]
            if nrec is not None:
                h.append(("FILE_RECORDS", nrec))
        return h

    for o in objs:
        for fn, content in o.sidecars.items():
            (dirpath / fn).write_bytes(content)

    unit_records = rng.random() < 0.15

    def loc(start):
        if ptr == "record":
            assert start % record_bytes == 0
            rec = start // record_bytes + 1
            return Qty(rec, "RECORDS") if unit_records else rec
        return Qty(start + 1, "BYTES")

    align = record_bytes if ptr == "record" else 0
    if mode == "attached":
        # iterate to a fixed point: the label's length depends on pointers
        guess = 1
        state = rng.getstate()
        for _ in range(40):
            rng.setstate(state)
            start = guess * record_bytes
            if ptr == "bytes":
                start = guess
            blob, pos = layout(rng, objs, start, align, trailing, junk)
            ptrs = [(f"^{o.lname}", loc(pos[o.name])) for o in objs]
            total = start + len(blob)
            items = (head(-(-total // record_bytes)) + ptrs + ids
                     + list(extra) + blocks)
            text = finish_label(render(items) + ["END"], eol)
            need = (-(-len(text) // record_bytes) if ptr == "record"
                    else len(text))
            if need <= guess:
                break
            guess = need + (0 if ptr == "record" else 3)
        else:
            raise RuntimeError("label layout did not converge")
        start = guess * record_bytes if ptr == "record" else guess
        text = text + b" " * (start - len(text))
        p = dirpath / f"{stem}.{objs[0].ext if objs else 'DAT'}"
        p.write_bytes(text + blob)
        info["files"] = {o.name: p for o in objs}
        info["start"] = pos
        info["label_end"] = len(text)
        return p, info
    record_sizes = [record_bytes] * len(objs)
    if mode == "detached":
        fn = f"{stem}.{objs[0].ext}"
        blob, pos = layout(rng, objs, 0, align, trailing, junk)
        (dirpath / fn).write_bytes(blob)
        ptrs = []
        for o in objs:
            if pos[o.name] == 0 and rng.random() < 0.5:
                ptrs.append((f"^{o.lname}", fn))
            else:
                ptrs.append((f"^{o.lname}", (fn, loc(pos[o.name]))))
        info["files"] = {o.name: dirpath / fn for o in objs}
        info["start"] = pos
        nrec = -(-len(blob) // record_bytes)
    else:
        ptrs, nrec, record_sizes = [], None, []
        for i, o in enumerate(objs):
            fn = f"{stem}_{i}.{o.ext}"
            if wrap and i:
                # FILE objects have record sizes of their own
                record_bytes = rng.choice([64, 80, 100, 256, 512, 7])
                align = record_bytes if ptr == "record" else 0
            record_sizes.append(record_bytes)
            blob, pos = layout(rng, [o], 0, align, trailing, junk)
            (dirpath / fn).write_bytes(blob)
            if pos[o.name] == 0 and rng.random() < 0.6:
                ptrs.append((f"^{o.lname}", fn))
            else:
                ptrs.append((f"^{o.lname}", (fn, loc(pos[o.name]))))
            info["files"][o.name] = dirpath / fn
            info["start"][o.name] = pos[o.name]
    if wrap:
        # each pointer and definition inside a FILE object
        files = []
        for (pk, pv), o, record_bytes in zip(ptrs, objs, record_sizes):
            fn = info["files"][o.name].name
            files.append(Obj("FILE", [
                ("FILE_NAME", fn), ("RECORD_TYPE", Raw("FIXED_LENGTH")),
                ("RECORD_BYTES", record_bytes), (pk, pv)]
                + ([o.block] if o.block is not None else [])))
        items = ([("PDS_VERSION_ID", Raw("PDS3"))] + ids + list(extra)
                 + files)
    else:
        items = head(nrec) + ptrs + ids + list(extra) + blocks
    p = write_detached(dirpath, stem, items, eol)
    info["label"] = p
    return p, info
