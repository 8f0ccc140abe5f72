"""
An independent writer of PDS4 products: random arrays, fixed-width binary and
character tables, delimited tables and headers, with nested groups, and the
XML labels that describe them, together with what each of them says
"""
import struct
from dataclasses import dataclass, field
from xml.sax.saxutils import escape

import numpy as np

# PDS4 data type -> (struct code, bytes); written with struct, not numpy
NUMERIC = {
    "UnsignedByte": ("B", 1), "SignedByte": ("b", 1),
    **{f"{s}{e}{n}": (("<" if e == "LSB" else ">") + c, n)
       for e in ("LSB", "MSB")
       for s, cs in (("Unsigned", "HIQ"), ("Signed", "hiq"))
       for c, n in zip(cs, (2, 4, 8))},
    **{f"IEEE754{e}{p}": (("<" if e == "LSB" else ">") + c, n)
       for e in ("LSB", "MSB")
       for p, c, n in (("Single", "f", 4), ("Double", "d", 8))},
}
COMPLEX = {
    f"Complex{e}{n}": (("<" if e == "LSB" else ">") + c, n)
    for e in ("LSB", "MSB") for c, n in (("f", 8), ("d", 16))
}
NP = {"B": "u1", "b": "i1", "H": "u2", "I": "u4", "Q": "u8", "h": "i2",
      "i": "i4", "q": "i8", "f": "f4", "d": "f8"}


def np_of(dtype):
    if dtype in COMPLEX:
        return np.dtype({8: "c8", 16: "c16"}[COMPLEX[dtype][1]])
    return np.dtype(NP[NUMERIC[dtype][0][-1]])


def rand_value(rng, dtype):
    """one value of a binary type, as a Python number"""
    if dtype in COMPLEX:
        code = COMPLEX[dtype][0]
        return complex(*(rand_float(rng, code[-1]) for _ in "12"))
    code = NUMERIC[dtype][0][-1]
    if code in "fd":
        return rand_float(rng, code)
    bits = NUMERIC[dtype][1] * 8
    lo, hi = (0, 2 ** bits - 1) if code.isupper() else (
        -2 ** (bits - 1), 2 ** (bits - 1) - 1)
    return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi),
                       rng.randint(max(lo, -100), 100)])


def rand_float(rng, code):
    v = rng.choice([rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20),
                    rng.uniform(-1000, 1000), 0.0, -0.0, 1.5, -32768.0])
    if rng.random() < .02:
        v = rng.choice([float("nan"), float("inf"), -float("inf")])
    if code == "f":
        v = struct.unpack("<f", struct.pack("<f", v))[0]
    return v


def pack(dtype, v):
    if dtype in COMPLEX:
        c = COMPLEX[dtype][0]
        o = c[0] if len(c) > 1 else "<"
        return struct.pack(o + 2 * c[-1], v.real, v.imag)
    return struct.pack(NUMERIC[dtype][0], v)


def el(tag, value=None, **attrs):
    a = "".join(f' {k}="{v}"' for k, v in attrs.items())
    if isinstance(value, list):
        value = "\n" + "\n".join(value) + "\n"
    else:
        value = escape(str(value))
    return f"<{tag}{a}>{value}</{tag}>"


@dataclass
class Struct:
    kind: str                 # array | table | header
    tag: str
    key: str                  # name under which pdr should offer it
    inner: list               # elements after offset
    blob: bytes
    truth: object
    names: list = field(default_factory=list)   # name/local_identifier elements
    meta: dict = field(default_factory=dict)

    def xml(self, offset):
        head = list(self.names)
        head.append(el("offset", offset, unit="byte"))
        return el(self.tag, head + self.inner)


def ident(rng, counts, kind, used):
    """name and/or local identifier elements, and the resulting key"""
    names, key = [], None
    how = rng.choice(["name", "id", "both", "none"])
    base = rng.choice(["Image", "observation data", "Spectrum A", "TBL",
                       "calibration", "Quality map", "img.sub"])
    n = len(used)
    name, lid = f"{base} {n}", f"{base.replace(' ', '_')}_ID{n}"
    if how in ("name", "both"):
        names.append(el("name", name))
        key = name
    if how in ("id", "both"):
        names.append(el("local_identifier", lid))
        key = lid
    i = counts[kind]
    counts[kind] += 1
    if how == "none":
        key = f"{kind.upper()}_{i}"
    used.add(key)
    return names, key.replace(" ", "_"), how


# ---------------------------------------------------------------- arrays
ARRAY_TAGS = {
    1: ["Array"],
    2: ["Array_2D", "Array_2D_Image", "Array_2D_Map", "Array_2D_Spectrum",
        "Array"],
    3: ["Array_3D", "Array_3D_Image", "Array_3D_Movie", "Array_3D_Spectrum",
        "Array"],
    4: ["Array"],
}


def gen_array(rng, names=(), key="A", small=True, dtypes=None, ndim=None,
              scaling=True):
    ndim = ndim or rng.choice([1, 2, 2, 2, 3, 3, 4])
    shape = [rng.randint(1, {1: 40, 2: 12, 3: 6, 4: 4}[ndim])
             for _ in range(ndim)]
    dtype = rng.choice(dtypes or list(NUMERIC) + list(COMPLEX)[:2])
    n = int(np.prod(shape))
    vals = [rand_value(rng, dtype) for _ in range(n)]
    axes = []
    order = list(range(ndim))
    if rng.random() < .4:
        rng.shuffle(order)       # sequence_number decides, not document order
    axnames = {1: ["Sample"], 2: ["Line", "Sample"],
               3: ["Band", "Line", "Sample"],
               4: ["Time", "Band", "Line", "Sample"]}[ndim]
    for i in order:
        axes.append(el("Axis_Array", [
            el("axis_name", axnames[i]), el("elements", shape[i]),
            el("sequence_number", i + 1)]))
    earr = [el("data_type", dtype)]
    meta = {"dtype": dtype}
    if scaling and dtype in NUMERIC:
        if rng.random() < .4:
            meta["scale"] = rng.choice([2.0, 0.5, 3, 1, 1.0, 0.001, -1])
            earr.append(el("scaling_factor", meta["scale"]))
        if rng.random() < .4:
            meta["offset"] = rng.choice([0, 0.0, 10, -7, 100.5, 1e3])
            earr.append(el("value_offset", meta["offset"]))
    inner = [el("axes", ndim), el("axis_index_order", "Last Index Fastest"),
             el("Element_Array", earr), *axes]
    if dtype in NUMERIC and rng.random() < .4:
        cs = {}
        for c in rng.sample(["saturated_constant", "missing_constant",
                             "error_constant", "invalid_constant",
                             "unknown_constant", "not_applicable_constant"],
                            rng.randint(1, 3)):
            v = rand_value(rng, dtype)
            if v != v or v in (float("inf"), -float("inf")):
                continue
            cs[c] = v
            for _ in range(rng.randint(0, 3)):
                vals[rng.randrange(n)] = v
        if cs:
            meta["special"] = cs
            inner.append(el("Special_Constants",
                            [el(k, repr(v)) for k, v in cs.items()]))
    arr = np.array(vals, dtype=np_of(dtype)).reshape(shape)
    blob = b"".join(pack(dtype, v) for v in vals)
    return Struct("array", rng.choice(ARRAY_TAGS[ndim]), key, inner, blob,
                  arr, list(names), meta)


# ---------------------------------------------------------------- tables
NAMES = ["TIME", "Wavelength", "flag", "BACKGROUND_2", "x pos", "Count Rate",
         "GROUP_3_ID", "SUBGROUP7", "temperature", "_q", "a-b", "Q",
         "GROUP", "record number", "B1", "name"]


@dataclass
class Fld:
    name: str
    xml: object               # function of (location) -> xml
    length: int               # bytes in fixed-width tables
    dtype: str
    gen: object               # () -> (bytes, value)


@dataclass
class Group:
    name: str
    reps: int
    members: list             # [(location, Fld|Group)]
    length: int               # of one repetition


def bin_field(rng, name):
    dtype = rng.choice(list(NUMERIC) * 2 + list(COMPLEX)[:2] +
                       ["ASCII_String", "UTF8_String", "ASCII_Integer",
                        "ASCII_Real", "ASCII_Date_Time_YMD_UTC",
                        "UnsignedBitString", "SignedBitString"])
    if dtype in NUMERIC or dtype in COMPLEX:
        ln = (NUMERIC.get(dtype) or COMPLEX[dtype])[1]

        def gen():
            v = rand_value(rng, dtype)
            return pack(dtype, v), v
    elif "BitString" in dtype:
        ln = rng.randint(1, 5)

        def gen():
            v = bytes(rng.choice([0, 0, 255, rng.randrange(256)])
                      for _ in range(ln))
            return v, v
    else:
        return char_field(rng, name, dtype, binary=True)
    extra = scale_extra(rng, dtype)

    def xml(loc, num):
        return el("Field_Binary", [
            el("name", name), el("field_number", num),
            el("field_location", loc, unit="byte"), el("data_type", dtype),
            el("field_length", ln, unit="byte"), *extra])
    return Fld(name, xml, ln, dtype, gen)


def scale_extra(rng, dtype):
    """labels give scalings of fields; pdr reads tables without applying them"""
    out = []
    if rng.random() < .15 and dtype in NUMERIC:
        out.append(el("scaling_factor", rng.choice([2.0, 0.1])))
    if rng.random() < .1 and dtype in NUMERIC:
        out.append(el("value_offset", rng.choice([5, 0.5])))
    return out


TEXT = ["alpha", "b", "longer text", "x y z", "N/A", "0012", "quo'te",
        "semi;colon", "tab_", "-", "1e5", "e"]
ASCII_TYPES = ["ASCII_Integer", "ASCII_NonNegative_Integer", "ASCII_Real",
               "ASCII_String", "UTF8_String", "ASCII_Boolean",
               "ASCII_Date_YMD", "ASCII_Date_Time_YMD_UTC", "ASCII_Time",
               "ASCII_LID", "ASCII_Numeric_Base16", "ASCII_Numeric_Base2",
               "ASCII_Numeric_Base8", "ASCII_AnyURI"]


def ascii_value(rng, dtype):
    """(text, value)"""
    if dtype in ("ASCII_Integer", "ASCII_NonNegative_Integer"):
        lo = 0 if "Non" in dtype else -10 ** rng.randint(0, 9)
        v = rng.randint(lo, 10 ** rng.randint(0, 9))
        if rng.random() < .03:
            hi = 2 ** 64 if lo == 0 else 2 ** 63
            v = rng.choice([hi - 1, -lo and -hi, rng.randint(hi // 4, hi - 1)])
        t = str(v)
        if rng.random() < .1 and v > 0:
            t = rng.choice(["+", "0"]) + t
        return t, v
    if dtype == "ASCII_Real":
        v = rng.choice([rng.uniform(-1000, 1000), rng.uniform(-1, 1) *
                        10.0 ** rng.randint(-30, 30), 0.0,
                        float(rng.randint(-99, 99))])
        t = rng.choice([repr(v), f"{v:.5E}", f"{v:.3f}" if abs(v) < 1e6
                        else f"{v:.3e}"])
        return t, float(t)
    if dtype == "ASCII_Boolean":
        v = rng.random() < .5
        return rng.choice([("false", "0"), ("true", "1")][v]), v
    if dtype == "ASCII_Date_YMD":
        t = f"{rng.randint(1970, 2030)}-{rng.randint(1, 12):02d}-" \
            f"{rng.randint(1, 28):02d}"
        return t, t
    if dtype.startswith("ASCII_Date_Time"):
        t = f"{rng.randint(1970, 2030)}-{rng.randint(1, 12):02d}-" \
            f"{rng.randint(1, 28):02d}T{rng.randint(0, 23):02d}:" \
            f"{rng.randint(0, 59):02d}:{rng.randint(0, 59):02d}Z"
        return t, t
    if dtype == "ASCII_Time":
        t = f"{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}:01.5"
        return t, t
    if dtype.startswith("ASCII_Numeric_Base"):
        base = int(dtype[18:])
        v = rng.randint(0, 2 ** rng.choice([4, 10, 31]))
        if base == 16 and rng.random() < .05:
            v = rng.randint(2 ** 62, 2 ** 64 - 1)
        return {2: f"{v:b}", 8: f"{v:o}", 16: f"{v:{rng.choice('xX')}}"}[
            base], v
    if dtype == "ASCII_LID":
        t = f"urn:nasa:pds:b{rng.randint(0, 99)}:c"
        return t, t
    if dtype == "ASCII_AnyURI":
        return "https://pds.nasa.gov/?a=b", "https://pds.nasa.gov/?a=b"
    if dtype == "UTF8_String" and rng.random() < .4:
        t = rng.choice(["café", "Ångström", "日本", "µm", "ok"])
        return t, t
    t = rng.choice(TEXT)
    return t, t


def is_text(dtype):
    return not (dtype in NUMERIC or dtype in COMPLEX or dtype in (
        "UnsignedBitString", "SignedBitString",
        "ASCII_Integer", "ASCII_NonNegative_Integer", "ASCII_Real",
        "ASCII_Boolean") or dtype.startswith("ASCII_Numeric"))


def char_field(rng, name, dtype=None, binary=False):
    dtype = dtype or rng.choice(ASCII_TYPES)
    ln = {"ASCII_Real": 24, "ASCII_Integer": 24, "ASCII_Boolean": 6,
          "ASCII_NonNegative_Integer": 24, "ASCII_Date_YMD": 10,
          "ASCII_Date_Time_YMD_UTC": 22, "ASCII_LID": 20, "ASCII_Time": 12,
          "ASCII_AnyURI": 28}.get(dtype, 12)
    if dtype.startswith("ASCII_Numeric"):
        ln = 33
    left = is_text(dtype)

    def gen():
        t, v = ascii_value(rng, dtype)
        b = t.encode("utf-8")
        return (b.ljust(ln) if left else b.rjust(ln)), v

    def xml(loc, num):
        return el("Field_Binary" if binary else "Field_Character", [
            el("name", name), el("field_number", num),
            el("field_location", loc, unit="byte"), el("data_type", dtype),
            el("field_length", ln, unit="byte")])
    return Fld(name, xml, ln, dtype, gen)


def layout(rng, mk, depth, taken, nmax=5, gaps=True):
    """members of a record or group: [(location, item)], length"""
    out, pos = [], 0
    for _ in range(rng.randint(1, nmax)):
        if gaps and rng.random() < .2:
            pos += rng.randint(1, 4)
        if depth and rng.random() < .3:
            m, ln = layout(rng, mk, depth - 1, set(), 3, gaps)
            reps = rng.randint(1, 4) if depth == 2 else rng.randint(2, 3)
            g = Group(group_name(rng, taken), reps, m, ln)
            out.append((pos + 1, g))
            pos += ln * reps
        else:
            name = rng.choice([n for n in NAMES if n not in taken] or ["Z"])
            if name in taken:
                continue
            taken.add(name)
            f = mk(rng, name)
            out.append((pos + 1, f))
            pos += f.length
    if gaps and rng.random() < .2:
        pos += rng.randint(1, 3)
    return out, pos


def group_name(rng, taken):
    """most groups have no names"""
    n = rng.choice([None, None, None, "Position", "spectral group", "Sub x"])
    if n in taken:
        return None
    taken.add(n)
    return n


def column_names(cols):
    """what pdr should call the columns of [(path, field, reps, values)]"""
    bases = []
    for path, f, reps, _ in cols:
        groups = [g[1] for g in path[:-1] if g[1]]
        bases.append((path[:-1], groups, path[-1]))
    out = []
    for i, (parent, groups, name) in enumerate(bases):
        same = [j for j, b in enumerate(bases)
                if b[0] == parent and b[2] == name]
        if len(same) > 1:
            name = f"{name} [{same.index(i)}]"
        full = ", ".join([*groups, name]).replace(":", "_")
        if parent:
            out += [f"{full}_{k}" for k in range(cols[i][2])]
        else:
            out.append(full)
    return out


def count(members):
    return (sum(isinstance(m, Fld) for _, m in members),
            sum(isinstance(m, Group) for _, m in members))


def members_xml(members, tag):
    out = []
    for num, (loc, m) in enumerate(members, 1):
        if isinstance(m, Fld):
            out.append(m.xml(loc, num))
        else:
            f, g = count(m.members)
            head = [el("name", m.name)] if m.name else []
            out.append(el(tag, head + [
                el("group_number", num), el("repetitions", m.reps),
                el("fields", f), el("groups", g),
                el("group_location", loc, unit="byte"),
                el("group_length", m.length * m.reps, unit="byte"),
                *members_xml(m.members, tag.replace("X", ""))]))
    return out


def fill(members, buf, base, row, prefix):
    """write one record into buf; row: {(path): [values in order]}"""
    gi = 0
    for loc, m in members:
        at = base + loc - 1
        if isinstance(m, Fld):
            b, v = m.gen()
            buf[at:at + m.length] = b
            row.setdefault((*prefix, m.name), []).append(v)
        else:
            for r in range(m.reps):
                fill(m.members, buf, at + r * m.length, row,
                     (*prefix, (gi, m.name)))
            gi += 1


def flat_fields(members, prefix=(), reps=1):
    """[(path, field, number of values per record)] in column order"""
    out, gi = [], 0
    for _, m in members:
        if isinstance(m, Fld):
            out.append(((*prefix, m.name), m, reps))
        else:
            out += flat_fields(m.members, (*prefix, (gi, m.name)),
                               reps * m.reps)
            gi += 1
    return out


def depth_of(path):
    return len(path) - 1


def used_end(members):
    """where the last field of a record ends"""
    return max(loc - 1 + (m.length if isinstance(m, Fld) else
                          m.length * (m.reps - 1) + used_end(m.members))
               for loc, m in members)


def gen_fixed(rng, names=(), key="T", binary=True, nrec=None, depth=2):
    nrec = nrec or rng.randint(1, 20)
    mk = bin_field if binary else char_field
    members, ln = layout(rng, mk, depth, set())
    while not flat_fields(members):
        members, ln = layout(rng, mk, depth, set())
    tail = b""
    if not binary:
        tail = b"\r\n"
    reclen = ln + len(tail)
    pad = (lambda k: rng.randbytes(k)) if binary else (lambda k: b" " * k)
    rows, blob = [], b""
    for _ in range(nrec):
        buf, row = bytearray(pad(ln)), {}
        fill(members, buf, 0, row, ())
        rows.append(row)
        blob += bytes(buf) + tail
    word = "Binary" if binary else "Character"
    f, g = count(members)
    rec = [el("fields", f), el("groups", g),
           el("record_length", reclen, unit="byte"),
           *members_xml(members, f"Group_Field_{word}")]
    inner = [el("records", nrec)]
    if not binary:
        inner.append(el("record_delimiter", "Carriage-Return Line-Feed"))
    inner.append(el(f"Record_{word}", rec))
    cols = [(p, fl, reps, [r[p] for r in rows])
            for p, fl, reps in flat_fields(members)]
    return Struct("table", f"Table_{word}", key, inner, blob, cols,
                  list(names), {"records": nrec,
                                "slack": reclen - used_end(members)})


DELIMS = {"Comma": ",", "Semicolon": ";", "Horizontal Tab": "\t",
          "Vertical Bar": "|"}


def gen_delimited(rng, names=(), key="T", nrec=None, nulls=0.0, wide=False):
    nrec = nrec or rng.randint(1, 20)
    dname = rng.choice(list(DELIMS))
    d = DELIMS[dname]
    taken = set()
    members = []
    for _ in range(rng.randint(1, 6)):
        left = [n for n in NAMES if n not in taken]
        if rng.random() < .2:
            inner = []
            sub = set()
            for _ in range(rng.randint(1, 2)):
                n = rng.choice([n for n in NAMES if n not in sub])
                sub.add(n)
                inner.append((0, delim_field(rng, n)))
            members.append((0, Group(group_name(rng, taken),
                                     rng.randint(1, 3), inner, 0)))
        else:
            n = rng.choice(left)
            taken.add(n)
            members.append((0, delim_field(rng, n)))
    rows, lines = [], []
    for _ in range(nrec):
        row, parts = {}, []

        def put(ms, prefix):
            gi = 0
            for _, m in ms:
                if isinstance(m, Fld):
                    t, v = m.gen()
                    if nulls and rng.random() < nulls:
                        t, v = rng.choice(["", "", " "]), None
                        if is_text(m.dtype):
                            v = t
                    elif is_text(m.dtype):
                        if rng.random() < .15:
                            v = rng.choice([t + d + "x", d + t, t + d, d,
                                            t + d + d + "x", d * 3 + t,
                                            d.join("abcd"[:rng.randint(2, 4)]),
                                            ""])
                            t = f'"{v}"'
                        elif d in t or rng.random() < .2:
                            t = f'"{t}"'
                    row.setdefault((*prefix, m.name), []).append(v)
                    parts.append(t)
                else:
                    for _ in range(m.reps):
                        put(m.members, (*prefix, (gi, m.name)))
                    gi += 1
        put(members, ())
        rows.append(row)
        lines.append(d.join(parts))
    eol, ename = rng.choice([("\r\n", "Carriage-Return Line-Feed"),
                             ("\n", "Line-Feed")])
    blob = "".join(x + eol for x in lines).encode("utf-8")
    longest = max(len(x.encode("utf-8")) for x in lines) + len(eol)
    f, g = count(members)

    def mxml(ms):
        out = []
        for num, (_, m) in enumerate(ms, 1):
            if isinstance(m, Fld):
                out.append(el("Field_Delimited", [
                    el("name", m.name), el("field_number", num),
                    el("data_type", m.dtype)]))
            else:
                f, g = count(m.members)
                out.append(el("Group_Field_Delimited", [
                    *([el("name", m.name)] if m.name else []),
                    el("group_number", num), el("repetitions", m.reps),
                    el("fields", f), el("groups", g), *mxml(m.members)]))
        return out
    inner = []
    if rng.random() < .5:
        inner.append(el("object_length", len(blob), unit="byte"))
    inner += [el("parsing_standard_id", "PDS DSV 1"),
              el("records", nrec), el("record_delimiter", ename),
              el("field_delimiter", dname),
              el("Record_Delimited", [
                  el("fields", f), el("groups", g),
                  *([el("maximum_record_length", longest, unit="byte")]
                    if wide and not inner else []),
                  *mxml(members)])]
    cols = [(p, fl, reps, [r[p] for r in rows])
            for p, fl, reps in flat_fields(members)]
    return Struct("table", "Table_Delimited", key, inner, blob, cols,
                  list(names), {"records": nrec, "nulls": bool(nulls),
                                "no_length": len(inner) == 5,
                                "lines": [x.encode() for x in lines],
                                "delim": d.encode(), "eol": eol.encode()})


def delim_field(rng, name):
    dtype = rng.choice(ASCII_TYPES)
    return Fld(name, None, 0, dtype, lambda: ascii_value(rng, dtype))


# ---------------------------------------------------------------- headers
def gen_header(rng, names=(), key="H"):
    text = "".join(rng.choice(["KEY = 1\r\n", "a line of text\r\n",
                               "SIMPLE  =  T\r\n"])
                   for _ in range(rng.randint(1, 5)))
    blob = text.encode()
    return Struct("header", "Header", key, [
        el("object_length", len(blob), unit="byte"),
        el("parsing_standard_id", "7-Bit ASCII Text"),
    ], blob, text, list(names))


# ---------------------------------------------------------------- products
def write_product(rng, d, files, extra="", stem="product", root=None,
                  suffix=None, missing_ok=False):
    """
    files: [(file name, [structs])]; writes everything; returns label path
    """
    areas = []
    for fname, structs in files:
        blob, xs = b"", []
        for i, s in enumerate(structs):
            gap = rng.choice([0, 0, 1, 17, 512])
            blob += rng.randbytes(gap)
            xs.append(s.xml(len(blob)))
            blob += s.blob
        last = structs[-1] if structs else None
        if not (last and last.tag == "Table_Delimited"):
            blob += rng.randbytes(rng.choice([0, 0, 5]))
        (d / fname).write_bytes(blob)
        areas.append(el("File_Area_Observational", [
            el("File", [el("file_name", fname)]), *xs]))
    root = root or "Product_Observational"
    label = (
        '<?xml version="1.0" encoding="UTF-8"?>\n'
        f'<{root} xmlns="http://pds.nasa.gov/pds4/pds/v1">\n'
        "<Identification_Area>\n"
        "<logical_identifier>urn:nasa:pds:bundle:coll:product"
        "</logical_identifier>\n"
        "<version_id>1.0</version_id>\n"
        "<title>A product</title>\n"
        "<information_model_version>1.14.0.0</information_model_version>\n"
        "<product_class>Product_Observational</product_class>\n"
        "</Identification_Area>\n"
        + extra + "\n".join(areas) + f"\n</{root}>\n"
    )
    path = d / (stem + (suffix or rng.choice([".xml", ".xml", ".lblx"])))
    path.write_text(label, encoding="utf-8")
    return path


def gen_struct(rng, counts, used, kinds=None):
    kind = rng.choice(kinds or ["array", "array", "bin", "char", "delim",
                                "header"])
    base = {"array": "array", "header": "header"}.get(kind, "table")
    names, key, _ = ident(rng, counts, base, used)
    if kind == "array":
        return gen_array(rng, names, key)
    if kind == "header":
        return gen_header(rng, names, key)
    if kind == "delim":
        return gen_delimited(rng, names, key)
    return gen_fixed(rng, names, key, binary=kind == "bin")


def gen_product(rng, d, nmax=4, kinds=None, **kw):
    """(label path, structs in order)"""
    counts, used = {"array": 0, "table": 0, "header": 0}, set()
    files, all_ = [], []
    for i in range(rng.randint(1, 2)):
        structs = []
        for _ in range(rng.randint(1, nmax)):
            s = gen_struct(rng, counts, used, kinds)
            structs.append(s)
            if s.tag == "Table_Delimited" and s.meta["no_length"]:
                break           # it goes on to the end of the file
        files.append((f"data_{i}{rng.choice(['.dat', '.img', '.tab'])}",
                      structs))
        all_ += structs
    return write_product(rng, d, files, **kw), all_


def simple_product(rng, d):
    path, structs = gen_product(rng, d, 3)
    return path, [s.key for s in structs] + ["label"]
