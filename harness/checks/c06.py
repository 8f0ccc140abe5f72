"""C06: ASCII tables and spreadsheets"""
import pdr
from pascii import gen_ascii_table
from pds3w import IDENTIFIERS, Obj, Qty, Raw, build_product, write_detached

PROP = "C06"
CASES = {"quick": 1200, "thorough": 12000}
RULE = (
    "case = one ASCII table (blank-separated fixed width, comma-separated "
    "fixed width with quoted text, or delimited SPREADSHEET with variable "
    "width fields and any of four delimiters), fixed-record or STREAM "
    "layout, placed in attached / detached files; every cell is compared. "
    "A behaviour is (style, delimiter, column kinds, ITEMS, placement)"
)
REQUIRED = ("objects_compared", "style_fixed", "style_csv", "style_sheet",
            "stream", "row_suffix", "line_headers", "blank_cells")


def stream_product(rng, mon):
    """a STREAM product whose pointer counts lines rather than bytes"""
    style = rng.choice(["fixed", "csv", "sheet"])
    o = gen_ascii_table(rng, "ASCII_TABLE" if style != "sheet"
                        else "SPREADSHEET", style, odd_text=True)
    skip = rng.choice([0, 0, 1, 3])
    head = b"".join(b"junk line %d\r\n" % i for i in range(skip))
    tail = b"trailing, words\r\n" if rng.random() < 0.4 else b""
    fn = "prod.TAB"
    (mon.tmp / fn).write_bytes(head + o.payload + tail)
    ptr = (fn, skip + 1)
    if skip == 0 and rng.random() < 0.5:
        ptr = fn
    ptrs, blocks, lines = [(f"^{o.name}", ptr)], [o.block], None
    if skip and rng.random() < .6:
        # an object of its own, counted in lines as well
        n = rng.randint(1, skip)
        lines = [b"junk line %d" % i for i in range(n)]
        ptrs.insert(0, ("^HEADER", rng.choice([(fn, 1), fn])))
        blocks.insert(0, Obj("HEADER", [
            (rng.choice(["RECORDS", "ROWS"]), n), ("HEADER_TYPE", "TEXT")]))
        if rng.random() < .5:
            ptrs.reverse()
    p = write_detached(mon.tmp, "prod", [
        ("PDS_VERSION_ID", Raw("PDS3")), ("RECORD_TYPE", Raw("STREAM")),
        *ptrs] + IDENTIFIERS + blocks)
    mon.saw("stream")
    return o, p, f"stream-skip{skip}", lines


def run_case(rng, mon, idx):
    lines = None
    if rng.random() < 0.2:
        o, path, where, lines = stream_product(rng, mon)
    else:
        o = gen_ascii_table(rng, rng.choice(["TABLE", "TIME_TABLE",
                                             "SERIES"]), odd_text=True)
        sheet = o.meta["style"] == "sheet"
        path, info = build_product(
            rng, mon.tmp, [o], mode="split" if sheet else None,
            trailing=not sheet, ptr="bytes" if sheet else None)
        where = f"{info['mode']}-{info['ptr']}"
    mon.describe({"where": where, **o.meta["desc"]})
    data = pdr.read(path)
    o.verify(data, o.name, mon, where=f"[{where}] ")
    if lines is not None:
        got = data["HEADER"]
        mon.check(isinstance(got, str) and got.encode() == b"".join(
            x + b"\n" for x in lines), lambda: f"[{where}] header of "
            f"{len(lines)} lines: {got!r:.200}", "header-lines")
        mon.saw("line_headers")
    mon.sig(o.meta["style"], o.meta["delim"], "/".join(o.meta["kinds"]),
            o.meta["items"], where)
