"""rewrite the 'fixed' entries of known_findings.json from this list"""
import json, subprocess
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
FIXED = [
 # property, words that identify the commit, what failed
 ("C10", "straddle read chunks", "attached labels whose END statement straddled a read chunk, or ended in a bare newline, were read to the wrong length"),
 ("C01", "4-byte integer QUBEs", "QUBEs of 4-byte integers were read as 4-byte reals"),
 ("C01", "BIL images with line pre/suffixes", "BIL images with line prefix or suffix bytes read past their end"),
 ("C01", "zero-size axplanes", "QUBEs with zero-size axplanes, or one band and backplanes, failed or misread"),
 ("C04", "not listed in byte order", "ITEMS of a COLUMN listed out of byte order were placed at the wrong offsets"),
 ("C04", "true end of a table row", "row length of tables ending in a multi-item COLUMN was wrong"),
 ("C04", "overflow narrow integer", "scaled narrow integer columns overflowed"),
 ("C21", "unnamed instruments are not JIRAM", "BIT_COLUMNs of products without INSTRUMENT_NAME / INSTRUMENT_ID were treated as JIRAM's"),
 ("C08", "elements of structured binary", "ELEMENTs of structured ARRAYs were placed at the wrong offsets"),
 ("C08", "arrays within arrays", "ARRAYs within the COLLECTION of an ARRAY could not be read if they had several axes"),
 ("C06", "blank numbers", "one blank cell made a whole numeric column of a delimited table text"),
 ("C08", "exponents in ASCII", "ASCII ARRAYs with exponents, or followed by other data, were misread"),
 ("C03", "zip-compressed files", "binary objects in zip-compressed files failed to load"),
 ("C03", "homogeneous binary ARRAYs from compressed", "homogeneous binary ARRAYs in compressed files failed to load"),
 ("C05", "nothing but a ^TABLE_STRUCTURE", "format files that only point to another format file were ignored"),
 ("C05", "implicitly-defined line prefix tables in", "line prefix tables with no pointer of their own were sought in the label's file"),
 ("C05", "any image associated with line prefix", "line prefix tables of images not named IMAGE failed to load"),
 ("C07", "LSB bit strings whose length", "LSB bit strings of 3, 5, 6, 7, 9... bytes had their parts in the wrong order"),
 ("C07", "ITEM_OFFSET", "ITEM_OFFSET of BIT_COLUMNs was ignored"),
 ("C09", "merely start with END", "parameters whose names start with END were dropped"),
 ("C09", "positive signed exponents", "quantities like 1.5e+10 <KM> were left as text"),
 ("C09", "separate the first two lines", "the first two lines of multi-line values were run together"),
 ("C09", "2001_123", "unquoted values like 2001_123 were read as numbers"),
 ("C10", "LABEL of detached labels", "LABEL of detached labels with characters that are not UTF-8 failed to load"),
 ("C11", "defaults that cannot be hashed", "metaget raised for defaults that cannot be hashed"),
 ("C11", "long blank text", "repr of metadata with long blank text raised"),
 ("C12", "loaders return nothing", "asking for PDFs and unsupported objects raised AttributeError"),
 ("C15", "count FITS records", "<RECORDS> pointers to FITS HDUs were off by one"),
 ("C15", "nothing but the file's name", "FITS objects whose pointers give only a file name failed to load"),
 ("C12", "let headers that were found", "reloading headers of FITS objects raised"),
 ("C15", "HEADER in their names", "data of HDUs with HEADER in their names was lost"),
 ("C15", "invalid header cards", "FITS files with invalid cards could not be opened"),
 ("C12", "reread FITS HDUs", "reloading FITS objects returned the same array, modifications included"),
 ("C12", "reread PDS4 objects", "reloading PDS4 objects returned the same array, modifications included"),
 ("C12", "leave loaded FITS objects alone", "reloading a FITS header replaced its object"),
 ("C04", "would be subnormal as float32", "small values of 4-byte IBM_REAL columns lost precision"),
 ("C02", "record size of the FILE object", "record pointers inside the second and later FILE objects of a label were resolved with the first one's RECORD_BYTES"),
 ("C13", "tolerate empty pointers", "one empty pointer made every other object of the product fail"),
 ("C13", "cut off by the end of their file", "binary tables in truncated files came back short without a warning"),
 ("C14", "not exact in single precision", "special constants like -1e32 were not masked in 32-bit real arrays"),
 ("C14", "implicit N/A constant", "the implicit N/A constant of signed 32-bit integers was wrong"),
 ("C14", "no known implicit special constants", "get_scaled raised KeyError for arrays of types without implicit constants"),
 ("C14", "integer arrays from overflowing", "scaled integer arrays wrapped around"),
 ("C14", "leave PDS4 arrays alone", "get_scaled modified PDS4 arrays and sometimes left their special constants unmasked"),
 ("C14", "scale masked unsigned arrays in place", "scaling masked unsigned arrays in place raised"),
 ("C14", "signed PDS4 offsets", "negative offsets and factors of unsigned PDS4 arrays wrapped around"),
 ("C14", "exactly with integer arrays", "constants matched integers that merely round to them; per-plane in-place scaling overflowed"),
 ("C14", "words and quantities as special constants", "special constants that are words or quantities made get_scaled raise"),
 ("C14", "limits of their types exactly", "scaled values beyond single precision became infinite"),
 ("C16", "structure a name of its own", "same-named PDS4 structures hid each other"),
 ("C16", "labeled headers of FITS objects", "labeled headers of FITS objects of PDS4 products could not be loaded"),
 ("C16", "PDS4 arrays of one axis", "PDS4 arrays of one axis came back short from truncated files"),
 ("C16", "bit masks to signed integers", "PDS4 bit masks of signed integers raised or were left unapplied"),
 ("C17", "PDS4 tables that are cut off", "PDS4 tables came back short from truncated files without an error"),
 ("C17", "ends of their ranges", "PDS4 text integers near the ends of their ranges raised or wrapped"),
 ("C17", "columns that contain GROUP", "names of PDS4 columns that contain GROUP were cut"),
 ("C17", "missing from PDS4 delimited tables", "numbers missing from PDS4 delimited tables became zeros"),
 ("C17", "trailing zero bytes of PDS4 bit strings", "PDS4 bit strings lost their trailing zero bytes"),
 ("C18", "their extensions in any case", "PDS4 labels named .XML or .LBLX were parsed as PDS3 labels"),
 ("C19", "XMP packets, ICC profiles or GPS tags", "desktop images with odd XMP, ICC or GPS metadata could not be opened"),
 ("C20", "clipping leaves only one value", "images that are mostly one value wrapped around when rendered"),
 ("C20", "normalization does not fit their types", "booleans, half-precision and 64-bit integers were rendered wrongly or not at all"),
 ("C20", "images that contain invalid values", "one invalid value made a whole browse image black"),
 ("C20", "very long and narrow axes", "long and narrow arrays raised when downsampled"),
 ("C20", "objects with slashes in their names", "objects with slashes in their names could not be dumped"),
 ("C20", "arrays that cannot be rendered", "one complex, empty or four-dimensional array made dump_browse raise"),
 ("C20", "without converting their values", "single-row tables lost digits of integers when dumped"),
 ("C20", "purged constant images out of the mask", "valid elements of constant masked images were rendered in the mask colour when purging"),
 ("C14", "NULL constant when the type", "a constant which the label names NULL was not masked if the implicit NULL of the array's type occurred in the array too"),
 ("C21", "Huygens table offsets only for Huygens", "products of any mission whose FILE_NAME contains IMAGE, TIME, SUN etc. could not be read"),
 ("C22", "labels say they are gzipped", "THEMIS products whose labels name gzipped files were looked for in the working directory"),
 ("C21", "identifiers are numbers, dates or quantities", "products whose identifying keywords are numbers, dates, quantities or sequences could not be read"),
 ("C21", "ignore directory names when choosing", "labels in directories called like CE1.01 were read in the wrong encoding"),
 ("C22", "Diviner level 4 tables of one row", "Diviner level 4 tables of a single row raised"),
 ("C22", "last reference clock of MCS DDR", "one numeric column of MCS DDR tables came back as text"),
 ("C22", "incomplete record blocks of MCS DDR", "MCS DDR tables with an incomplete record block raised or mixed data and metadata"),
 ("C21", "lack what special cases look for", "products identified as one needing treatment raised when their labels lacked optional keywords"),
 ("C22", "format of Ulysses GAS tables", "Ulysses GAS tables whose rows count their line ends could not be read"),
 ("C22", "Galileo NIMS EDR columns", "bit columns of Galileo NIMS EDR tables were taken from the wrong bits"),
 ("C22", "format of Rosetta MIP tables", "Rosetta MIP tables whose rows count their line ends could not be read"),
 ("C22", "sizes of WFF ATM images only once", "WFF ATM images were transposed or unreadable when they were loaded or scaled again"),
 ("C22", "Phoenix WCL EDR tables only once", "columns of Phoenix WCL EDR tables were read from the wrong bytes when loaded again"),
 ("C22", "VNIS products only once", "Chang'e 3 VNIS products listed their label twice"),
    ("C23", "swap only the suffix in the names of MSL EDR",
     "MSL EDR images whose path has .img or .lbl elsewhere than at its end "
     "were looked for under another name"),
    ("C23", "do not have PIL load all truncated images",
     "reading an MSL JPEG EDR made PIL read truncated images without an "
     "error for the rest of the process"),
    ("C23", "do not go back to the start of the data of a truncated MOC",
     "the end of a truncated transform-coded MOC fragment was decoded from "
     "the start of its data, without a warning"),
    ("C23", "search MOC line markers after the last one",
     "after wrong data in two places, lines of an earlier part of a MOC "
     "image were repeated, and no marker was found in data longer than the "
     "image"),
    ("C22", "find CH-2 CLASS FITS files whatever dots",
     "a Chandrayaan-2 CLASS product with a dot in its name or a directory's "
     "was looked for under a wrong name"),
    ("C22", "infer extents of Chang'e table columns",
     "Chang'e table values wider than all of the first 100 rows' lost their "
     "sign or first digits"),
    ("C24", "do not leave PIL's limit of pixels deactivated",
     "opening any desktop image deactivated PIL's protection against "
     "decompression bombs for the rest of the process"),
    ("C24", "give back sys.excepthook after opening PDS4",
     "opening any PDS4 label replaced sys.excepthook: from then on, all "
     "uncaught exceptions of the program went to stdout, and a debugger's or "
     "reporter's hook was gone"),
    ("C17", "delimited records without all values",
     "the missing values of a PDS4 delimited record that has too few were "
     "arbitrary pieces of it, by what uninitialised memory held (found by "
     "C25: not the same twice)"),
    ("C03", "read text files that are compressed",
     "text objects (^TEXT, ^DESCRIPTION ...) in files that are compressed "
     "could not be read, and those with characters beyond ASCII only in some "
     "locales (the latter found by C25)"),
    ("C25", "write browse texts as UTF-8",
     "dump_browse of a label or text with characters beyond ASCII failed in "
     "locales that are not UTF-8"),
    ("C24", "do not print to stdout",
     "reading an MCS DDR table with an incomplete record printed the record "
     "to standard output"),
    ("C25", "whatever the order of their directory",
     "which of several off-case or compressed candidates was read depended "
     "on the order in which the file system lists them"),
    ("C25", "write sets of identifiers in the same order",
     "an identifier that is a set of the label was a text that differed from "
     "one interpreter to the next"),
    ("C09", "quoted text that contains backslashes",
     "quoted text with a backslash kept its quotation marks, or became other "
     "characters (\"\\\\bin\"), as if it were Python"),
    ("C09", "elements of mixed and nested PVL collections",
     "in sequences and sets with unquoted elements, numbers became text, "
     "quoted text kept its quotation marks and was split at its commas, and "
     "nested sequences were taken apart at their commas"),
    ("C09", "read integers with leading zeros",
     "integers with leading zeros (`START_BYTE = 007`) became text"),
    ("C09", "text within quotation marks for comments",
     "quoted text that contains /* (e.g. a path with a wildcard) lost the rest "
     "of its line, as if it were a comment"),
    ("C13", "format files that reference themselves",
     "reading a table whose format file refers to itself (directly or through "
     "another) never came to an end"),
    ("C25", "same one of equally similar names",
     "metaget_fuzzy() of a name equally similar to several keys gave another "
     "value under another hash seed"),
    ("C25", "same file of compressed and uncompressed ones",
     "a product of which the compressed and the uncompressed file are both "
     "there was read from the one or the other by hash seed"),
    ("C15", "names are those of headers",
     "an HDU named X_HEADER beside one named X could not be opened at all: "
     "its name meant the header of X"),
    ("C04", "so that none becomes one of the others",
     "names X, X, X_0 (of columns, HDUs or pointers) were numbered X_0, X_1, "
     "X_0: a table with such columns unreadable, such objects hidden"),
    ("C04", "columns of tables which are named PLACEHOLDER",
     "a column named PLACEHOLDER_... was dropped as if it were padding"),
    ("C04", "columns have numbers as names",
     "a table with columns whose names are unquoted numbers (wavelengths) was "
     "unreadable"),
    ("C04", "not columns named PLACEHOLDER",
     "a table with CONTAINERs whose first column was named PLACEHOLDER was "
     "unreadable"),
    ("C03", "names the label gives in another case",
     "a compressed file whose own name (X.IMG.GZ) the label gives in another "
     "case than the file's was not found"),
    ("C03", "find the labels of compressed files",
     "opening x.img, of which only x.img.gz is there, or x.img.gz itself, did "
     "not find the label x.lbl"),
    ("C04", "numbers written as text",
     "a table labeled INTERCHANGE_FORMAT = BINARY, with both binary columns "
     "and ASCII_INTEGER or ASCII_REAL ones, was read as text (garbage, or a "
     "failure)"),
    ("C04", "scale unsigned 64-bit integers",
     "8-byte unsigned integers above 2**63 in columns with a SCALING_FACTOR "
     "or OFFSET became negative"),
    ("C04", "binary integers of widths unknown",
     "integers of 3, 5, 6, 7 or more than 8 bytes in binary tables were read "
     "as one byte each"),
    ("C08", "ASCII ARRAYs that other objects follow",
     "an ASCII ARRAY with anything after it in its file was unreadable"),
    ("C03", "not its directory, in zip files",
     "the data of zip files whose first entry is a directory came out empty"),
    ("C02", "from the end of what is in compressed files",
     "a table which is placed by counting from the end of its file was "
     "misplaced in compressed files"),
    ("C22", "special cases of compressed files",
     "special cases that looked at the size or the lines of their files "
     "(THEMIS, MCS DDRs, MGN occultations, VRA and more) misread compressed "
     "ones, or did not read them"),
    ("C15", "mix variable-length and fixed columns",
     "FITS tables in which one fixed column stands between variable-length "
     "and array columns were unreadable"),
    ("C11", "count FITS keywords which occur more than once",
     "metaget and metablock did not warn of keywords repeated within one FITS "
     "header (such as HISTORY)"),
    ("C22", "unprintable header cards",
     "special cases that look HDUs up by name (LAMP, Saturn RPX, EPOXI and "
     "more) did not find their objects if any "
     "header had a card with unprintable text"),
]
def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                         capture_output=True, text=True).stdout.splitlines()
    fixes = [l for l in log if l.split(" ", 1)[1].startswith("fix:")]
    p = ROOT / "known_findings.json"
    d = json.loads(p.read_text())
    d["findings"] = [f for f in d["findings"] if f["status"] == "known"]
    used = set()
    for prop, words, what in FIXED:
        hit = [l for l in fixes if words in l]
        assert len(hit) == 1, (words, hit)
        h = hit[0].split()[0]
        used.add(hit[0])
        d["findings"].append({"property": prop, "status": "fixed",
            "text": f"fixed: property={prop} {h} {what}"})
    print("unlisted:", [l for l in fixes if l not in used])
    p.write_text(json.dumps(d, indent=1) + "\n")
main()
