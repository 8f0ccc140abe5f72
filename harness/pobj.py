"""
Generators of PDS3 data objects: each returns a DataObj with the label block,
the bytes and a verifier that compares what pdr returns with an expectation
computed independently of pdr.
"""
from __future__ import annotations

import numpy as np

from enc import (PDS3_TYPES, encode_many, expected_dtype, np_expected,
                 same_array)
from pds3w import DataObj, Obj, Qty, Raw

SMALL = [1, 1, 2, 3, 4, 5, 7, 8, 11, 16]


def verifier(exp, what):
    def verify(data, name, mon, where=""):
        got = data[name]
        mon.saw("objects_compared")
        mon.saw("elements_compared", int(exp.size))
        diff = same_array(got, exp)
        mon.check(diff is None, lambda: f"{where}{name} ({what}): {diff}",
                  mech="decode")
        mon.check(got.flags["C_CONTIGUOUS"],
                  f"{where}{name}: array is not C-contiguous", "contiguity")
        return got
    verify.expected = exp
    return verify


def gen_image(rng, name="IMAGE", types=None, max_bands=4, linefix=None,
              big=False, bands=None, width=None, type_=None, dims=None):
    type_ = type_ or rng.choice(types or list(PDS3_TYPES))
    width = width or rng.choice(PDS3_TYPES[type_][2])
    lines, samples = dims or (rng.choice(SMALL), rng.choice(SMALL))
    if big:
        lines, samples = rng.randint(20, 90), rng.randint(20, 90)
    if bands is None:
        bands = rng.choice([1, 1, 2, 3, rng.randint(2, max(2, max_bands))])
        bands = min(bands, max_bands)
    bst = rng.choice(["BAND_SEQUENTIAL", "LINE_INTERLEAVED",
                      "SAMPLE_INTERLEAVED"])
    if linefix is None:
        linefix = rng.random() < 0.3
    pre = suf = 0
    if linefix and (bands == 1 or bst == "LINE_INTERLEAVED"):
        pre, suf = rng.choice([(1, 0), (0, 1), (2, 3), (5, 1), (0, 2),
                               (3, 0)])
    n = bands * lines * samples
    raw, vals = encode_many(rng, type_, width, n)
    exp = np_expected(type_, width, vals).reshape(bands, lines, samples)
    # one cell of width `width` per element, in (band, line, sample) order

    def cell(b, l, s):
        i = ((b * lines) + l) * samples + s
        return raw[i * width:(i + 1) * width]

    out = bytearray()
    if bands == 1 or bst == "LINE_INTERLEAVED":
        for l in range(lines):
            out += rng.randbytes(pre * width)
            for b in range(bands):
                for s in range(samples):
                    out += cell(b, l, s)
            out += rng.randbytes(suf * width)
    elif bst == "BAND_SEQUENTIAL":
        out += raw
    else:
        for l in range(lines):
            for s in range(samples):
                for b in range(bands):
                    out += cell(b, l, s)
    items = [("LINES", lines), ("LINE_SAMPLES", samples),
             ("SAMPLE_TYPE", Raw(type_)), ("SAMPLE_BITS", 8 * width)]
    if bands > 1:
        items += [("BANDS", bands), ("BAND_STORAGE_TYPE", Raw(bst))]
    elif rng.random() < 0.5:
        items += [("BANDS", 1)]
        if rng.random() < 0.5:
            items += [("BAND_STORAGE_TYPE", Raw(bst))]
    if pre or (linefix and rng.random() < 0.3):
        items.append(("LINE_PREFIX_BYTES", pre * width))
    if suf or (linefix and rng.random() < 0.3):
        items.append(("LINE_SUFFIX_BYTES", suf * width))
    rng.shuffle(items)
    if bands == 1:
        exp = exp[0]
    desc = (f"{type_}{8 * width} bands={bands} {bst if bands > 1 else '-'} "
            f"{lines}x{samples} prefix={pre} suffix={suf}")
    return DataObj(
        name, Obj(name, items), bytes(out), verifier(exp, desc), ext="IMG",
        meta={"desc": desc, "type": type_, "width": width, "bands": bands,
              "bst": bst if bands > 1 else "-", "pre": pre, "suf": suf,
              "exp": exp, "lines": lines, "samples": samples},
    )


def gen_qube(rng, name="QUBE", types=None, big=False):
    type_ = rng.choice(types or list(PDS3_TYPES))
    width = rng.choice(PDS3_TYPES[type_][2])
    lines, samples, bands = (rng.choice(SMALL), rng.choice(SMALL),
                             rng.choice([1, 2, 3, 5]))
    order = rng.choice([("SAMPLE", "LINE", "BAND"),
                        ("SAMPLE", "BAND", "LINE"),
                        ("BAND", "SAMPLE", "LINE")])
    count = {"SAMPLE": samples, "LINE": lines, "BAND": bands}
    # pre/suffix planes on at most one axis
    fixax, side, nfix = None, None, 0
    itembytes = width
    if rng.random() < 0.6:
        fixax = rng.choice(["SAMPLE", "LINE", "BAND"])
        side = rng.choice(["SUFFIX", "SUFFIX", "PREFIX"])
        nfix = rng.choice([1, 2, 3])
        itembytes = rng.choice([width, width * 2])
    fixpix = nfix * itembytes // width
    total = dict(count)
    if fixax:
        total[fixax] += fixpix
    raw, vals = encode_many(rng, type_, width, bands * lines * samples)
    exp = np_expected(type_, width, vals).reshape(bands, lines, samples)
    out = bytearray()
    idx = {}
    off = {a: (fixpix if fixax == a and side == "PREFIX" else 0)
           for a in count}
    a0, a1, a2 = order   # fastest first
    for k in range(total[a2]):
        for j in range(total[a1]):
            for i in range(total[a0]):
                idx[a0], idx[a1], idx[a2] = i, j, k
                b, l, s = (idx["BAND"] - off["BAND"],
                           idx["LINE"] - off["LINE"],
                           idx["SAMPLE"] - off["SAMPLE"])
                if (0 <= b < bands and 0 <= l < lines and 0 <= s < samples):
                    n = ((b * lines) + l) * samples + s
                    out += raw[n * width:(n + 1) * width]
                else:
                    out += rng.randbytes(width)
    items = [("AXES", 3), ("AXIS_NAME", tuple(Raw(a) for a in order)),
             ("CORE_ITEMS", tuple(count[a] for a in order)),
             ("CORE_ITEM_BYTES", width), ("CORE_ITEM_TYPE", Raw(type_)),
             ("CORE_BASE", 0.0), ("CORE_MULTIPLIER", 1.0)]
    if fixax:
        nums = tuple(nfix if a == fixax else 0 for a in order)
        items.append((f"{side}_ITEMS", nums))
        if rng.random() < 0.5:
            items.append((f"{fixax}_{side}_ITEM_BYTES", itembytes))
        else:
            items.append((f"{fixax}_{side}_ITEM_BYTES", (itembytes,) * nfix))
        for a in order:
            if a != fixax and rng.random() < 0.2:
                items.append((f"{a}_{side}_ITEM_BYTES", rng.choice([0, 4])))
    elif rng.random() < 0.5:
        items.append(("SUFFIX_ITEMS", (0, 0, 0)))
    if bands == 1:
        exp = exp[0]
    desc = (f"{type_}{8 * width} order={'/'.join(order)} "
            f"{bands}x{lines}x{samples} {fixax}_{side}={nfix}*{itembytes}B")
    return DataObj(
        name, Obj(name, items), bytes(out), verifier(exp, desc), ext="QUB",
        meta={"desc": desc, "type": type_, "width": width, "order": order,
              "fix": (fixax, side, fixpix), "exp": exp, "bands": bands},
    )
