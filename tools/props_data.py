NOT_APPLICABLE = []

PROPS = [
 dict(
  id="C01", title="Raster objects decode to exactly the array the label describes",
  statement=(
   "For every PDS3 product whose label defines IMAGE or QUBE objects, reading "
   "an object returns the array, element for element, that the label's sample "
   "type, sample width, byte order, dimensions and band storage describe, as "
   "(line, sample) for one band and (band, line, sample) otherwise, C-"
   "contiguous and with the label's element type and width. Line prefix and "
   "suffix bytes and ISIS-style pre/suffix planes are excluded from the "
   "array."),
  over=["inputs", "configurations"],
  quant="every sample type x width x band storage x dimensions x pre/suffix "
        "arrangement x placement of the object in its file, and all sample "
        "values including NaN, infinities, extremes",
  why="the unit tests read two tiny rasters and check shape or one type; the "
      "combinations of type, interleave and padding are never compared "
      "element by element",
  files=["pdr/loaders/image.py", "pdr/loaders/queries.py",
         "pdr/datatypes.py", "pdr/np_utils.py"],
  mech=[("sample type table", "pdr/datatypes.py:sample_types"),
        ("image properties", "pdr/loaders/queries.py:generic_image_properties,"
         " generic_qube_properties, get_image_properties"),
        ("band reshaping and pre/suffix removal", "pdr/loaders/image.py")],
  observe=["pdr.read(path)[object]"],
  technique="runtime monitoring: differential oracle over recorded encoder "
            "output for generated products",
  note="The oracle compares every element, the shape, the dtype and the "
       "memory layout of the returned array with what an independent "
       "bit-level encoder wrote."),
 dict(
  id="C04", title="Binary tables decode to exactly the label's columns and values",
  statement=(
   "For every binary PDS3 table-like object, the returned DataFrame has "
   "exactly the label's columns (ITEMS and CONTAINER repetitions unrolled, "
   "duplicate names made unique with ascending integers, padding left out) in "
   "label order and exactly the label's number of rows. Every cell holds the "
   "value encoded in the file at the offset the label gives it, for integers "
   "of every width and byte order, IEEE, PC, VAX and IBM reals, text (also of "
   "numbers; NULs at its end are padding), EBCDIC "
   "text, booleans and bit strings, with the column's SCALING_FACTOR and "
   "OFFSET applied. Numbers are in native byte order whatever the file's, as "
   "pandas needs them."),
  over=["inputs", "configurations"],
  quant="every combination of column types, widths, gaps, ITEMS, ITEM_OFFSET, "
        "CONTAINERs, row prefix/suffix bytes, column order in the label and "
        "cell values",
  why="unit tests decode a handful of hand-made columns; layouts mixing "
      "items, containers, padding and types are combinatorial",
  files=["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py",
         "pdr/bit_handling.py", "pdr/np_utils.py", "pdr/datatypes.py"],
  mech=[("format definition", "pdr/loaders/queries.py:read_format_block, "
         "parse_table_structure"),
        ("offsets", "pdr/pd_utils.py:compute_offsets"),
        ("type conversions", "pdr/loaders/table.py:_interpret_as_binary")],
  observe=["pdr.read(path)[object]"],
  technique="runtime monitoring: differential oracle over recorded encoder "
            "output for generated products",
  note="Every cell of every generated table is compared; two layouts that the "
       "code is known to misread are recorded findings."),
 dict(
  id="C06", title="ASCII tables and spreadsheets decode to the label's cells",
  statement=(
   "For every ASCII PDS3 TABLE or SPREADSHEET (fixed-width blank-separated, "
   "fixed-width comma-separated with quoted text, or delimited by comma, "
   "semicolon, vertical bar or tab), the returned DataFrame has the label's "
   "columns and rows and each cell has the number or the stripped, unquoted "
   "text written in the file. Only the part of the file that belongs to the "
   "table is read, whether the label locates it by record, by byte or, in "
   "STREAM files, by line (and so for HEADERs counted in lines); "
   "SCALING_FACTOR and OFFSET are applied. Blank numbers are missing values "
   "and leave the rest of their column numbers; quoted blanks are empty "
   "text."),
  over=["inputs", "configurations"],
  quant="every delimiter, column width, column type, item count, number and "
        "text formatting, table position in its file",
  why="unit tests read a single fixed ASCII table",
  files=["pdr/loaders/table.py", "pdr/loaders/queries.py",
         "pdr/loaders/_helpers.py"],
  mech=[("ASCII parse", "pdr/loaders/table.py:_interpret_as_ascii, "
         "_read_as_delimited, _read_fwf_with_colspecs"),
        ("extent", "pdr/loaders/queries.py:table_position")],
  observe=["pdr.read(path)[object]"],
  technique="runtime monitoring: differential oracle over recorded writer "
            "output for generated products",
  note="Every cell of every generated table is compared."),
 dict(
  id="C02", title="Each object is read from where the label says, on its own",
  statement=(
   "A Data object's keys are LABEL plus the label's object pointers in label "
   "order (pointers of the same name numbered _0, _1, ...), and each object is "
   "read from the file and start position its pointer gives: record, byte, "
   "(file, record), (file, byte), bare file name, or inside a FILE object. "
   "Objects load lazily, and what an object reads as does not depend on which "
   "other objects are in the product or in what order they are loaded."),
  over=["inputs", "configurations", "histories"],
  quant="every mixture of object kinds, pointer form, file layout, gap bytes "
        "between objects, and load order",
  why="unit tests load one object from one file; errors of one byte or one "
      "record, or leaks between objects, need many layouts and orders",
  files=["pdr/pdr.py", "pdr/loaders/queries.py", "pdr/loaders/_helpers.py",
         "pdr/loaders/dispatch.py", "pdr/loaders/datawrap.py",
         "pdr/parselabel/pds3.py"],
  mech=[("start bytes", "pdr/loaders/queries.py:data_start_byte, "
         "table_position; pdr/loaders/_helpers.py:quantity_start_byte"),
        ("object index", "pdr/pdr.py:Data._find_objects; "
         "pdr/parselabel/pds3.py:index_duplicate_pointers")],
  observe=["pdr.read(path).keys()", "pdr.read(path)[object]",
           "Data.unloaded()"],
  technique="runtime monitoring: differential oracle over recorded writer "
            "output plus a load-history monitor over random load orders",
  note="Objects of every kind are compared in full and compared again from a "
       "second reader that loads in another order."),
 dict(
  id="C03", title="Files are found whatever their case, compression or place",
  statement=(
   "Opening a PDS3 product by its label, its data file, through label_fn or with "
   "fastread finds the label and every data or format file it names when their "
   "names differ only in case, when they are compressed with gzip, bzip2 or zip "
   "under an added extension, or when they lie in a given search path, and "
   "reads the same objects as from the plain files. Files with merely similar "
   "names are never used instead, a missing product raises FileNotFoundError "
   "and a URL raises ValueError."),
  over=["inputs", "configurations"],
  quant="every combination of name case, compression, directory, decoy files, "
        "way of opening and object kind",
  why="unit tests use plain files next to their labels",
  files=["pdr/utils.py", "pdr/pdr.py", "pdr/np_utils.py",
         "pdr/loaders/table.py", "pdr/loaders/image.py"],
  mech=[("name matching", "pdr/utils.py:check_cases, stem_path, "
         "associate_label_file"),
        ("decompression", "pdr/utils.py:decompress; "
         "pdr/np_utils.py:np_from_buffered_io"),
        ("search paths", "pdr/pdr.py:Data._target_path, get_absolute_paths")],
  observe=["pdr.read", "pdr.fastread", "Data.file_mapping"],
  technique="runtime monitoring: metamorphic oracle (disguised product reads "
            "as the plain one) plus open-file event monitor",
  note="Each object of the disguised product is compared with what was "
       "written."),
 dict(
  id="C08", title="ARRAY, COLLECTION and HISTOGRAM objects decode exactly",
  statement=(
   "Every PDS3 ARRAY (binary or ASCII, of a primitive type, of one ELEMENT, "
   "of a COLLECTION of ELEMENTs, or with ARRAYs of any shape among or instead "
   "of these) is returned as an ndarray of shape AXIS_ITEMS "
   "holding exactly the values in the file, with one named field per ELEMENT, "
   "and every binary HISTOGRAM as a one-row DataFrame of its ITEMS bins. "
   "Reading starts where the label locates the object."),
  over=["inputs", "configurations"],
  quant="every element type, byte order, rank, shape, element layout, number "
        "format and placement",
  why="the unit tests contain no ARRAY at all",
  files=["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py",
         "pdr/np_utils.py"],
  mech=[("array format", "pdr/loaders/queries.py:parse_array_structure, "
         "get_histogram_fields"),
        ("array reading", "pdr/loaders/table.py:read_array")],
  observe=["pdr.read(path)[object]"],
  technique="runtime monitoring: differential oracle over recorded encoder "
            "output for generated products",
  note="Every element is compared; one layout the code is known to misread is "
       "a recorded finding."),
 dict(
  id="C05", title="External format files mean the same as inline definitions",
  statement=(
   "A PDS3 table whose COLUMN or CONTAINER definitions are given, in whole or "
   "in part and through any chain of files, by ^STRUCTURE-like pointers to "
   "external format files reads exactly as if they were written inline at the "
   "place of the pointer. Format files are found next to the label, in the "
   "volume's LABEL directory or in a given search path whatever the case of "
   "their names, and tables in the line prefixes of an image, whose definition "
   "is named inside the image's, read as the prefix bytes of its lines."),
  over=["inputs", "configurations"],
  quant="every way of dividing definitions among files, nesting, directory, "
        "name case, table kind, and image with line prefix tables",
  why="unit tests contain no format file",
  files=["pdr/loaders/queries.py", "pdr/pdr.py", "pdr/utils.py",
         "pdr/loaders/handlers.py"],
  mech=[("format file injection", "pdr/loaders/queries.py:"
         "inject_format_files, load_format_file, read_format_block"),
        ("format file search", "pdr/pdr.py:Data.load_metadata_changes, "
         "get_absolute_paths"),
        ("line prefix tables", "pdr/loaders/queries.py:"
         "standalone_start_byte; pdr/pdr.py:Data._object_to_filename")],
  observe=["pdr.read(path)[object]"],
  technique="runtime monitoring: differential oracle over recorded encoder "
            "output for products with their definitions dispersed",
  note="Every cell of every table is compared."),
 dict(
  id="C07", title="Bit columns are exactly the label's bits of each row",
  statement=(
   "A COLUMN that holds BIT_COLUMNs is returned, for each row, as the list of "
   "their bit substrings in label order with ITEMS expanded at ITEM_BITS or "
   "ITEM_OFFSET strides, each substring being exactly BITS (or ITEM_BITS) "
   "characters long and starting at START_BIT counted from the most "
   "significant bit of the column's bytes. This holds for columns of any "
   "length and both byte orders, whether given by an MSB/LSB_BIT_STRING type "
   "or by the BIT_COLUMNs' BIT_DATA_TYPE, and neighbouring columns are "
   "unaffected."),
  over=["inputs", "configurations"],
  quant="every column length, byte order, bit layout, repetition and content",
  why="the unit test extracts four fields from one two-byte column",
  files=["pdr/bit_handling.py", "pdr/loaders/handlers.py",
         "pdr/loaders/table.py", "pdr/datatypes.py"],
  mech=[("bit layout", "pdr/bit_handling.py:get_bit_start_and_size, "
         "set_bit_string_data_type"),
        ("conversion", "pdr/bit_handling.py:convert_byte_column_to_bits, "
         "factor_to_dtype, split_bits")],
  observe=["pdr.read(path)[object]"],
  technique="runtime monitoring: differential oracle (integer-arithmetic bit "
            "extractor) over generated tables",
  note="Every bit substring of every row is compared."),
 dict(
  id="C09", title="Every statement of a PDS3 label is in the metadata, as written",
  statement=(
   "The metadata of a PDS3 product, and what the PVL parser returns, hold "
   "exactly the label's statements: every parameter and OBJECT/GROUP block in "
   "label order and nesting, repeated names included, with numbers, based "
   "numbers, dates-as-text, symbols, quoted text, quantities with units, "
   "sequences and sets given the values written. This does not depend on "
   "layout: line endings, blank lines, comments, indentation, block keyword "
   "style, or how a value is continued over lines. (Statements whose own line "
   "has a further '=' in its value are outside this property: the parser "
   "deliberately drops them.)"),
  over=["inputs"],
  quant="every label built from these statements, values, nestings, layouts",
  why="the unit tests parse a handful of statements",
  files=["pdr/parselabel/pds3.py", "pdr/parselabel/utils.py", "pdr/pdr.py"],
  mech=[("statement chunking", "pdr/parselabel/pds3.py:chunk_statements, "
         "is_an_assignment_line"),
        ("blocks", "pdr/parselabel/pds3.py:BlockParser"),
        ("values", "pdr/parselabel/pds3.py:literalize_pvl, "
         "parse_pvl_quantity_statement, multidict_dig_and_edit")],
  observe=["pdr.read(path).metadata", "pdr.parselabel.pds3.parse_pvl"],
  technique="runtime monitoring: differential oracle (the generator's own "
            "statement tree) over generated labels",
  note="Every key, value, type, order and nesting is compared; statements with "
       "keywords so short that the parser takes them for text are a recorded "
       "finding."),
 dict(
  id="C10", title="A label ends at its END statement, and data never leaks into it",
  statement=(
   "Whatever the length of a PDS3 label, wherever its END statement falls "
   "relative to the blocks in which the file is read, and however END is "
   "terminated (line ending, padding, NULs or the end of the file), the "
   "metadata, the LABEL object and the positions of attached objects are those "
   "of the text up to END. Data after the label cannot add statements to it "
   "even if it looks like one, nor can undecodable bytes in it (in a non-UTF-8 "
   "label read non-strictly, or in the data) make the product unreadable."),
  over=["inputs", "configurations"],
  quant="every label length, ending, kind of content after the label, "
        "attached/detached/compressed, encoding",
  why="no unit test has a label longer than one read or data that looks like a "
      "label",
  files=["pdr/parselabel/utils.py", "pdr/parselabel/pds3.py",
         "pdr/loaders/text.py"],
  mech=[("label trimming", "pdr/parselabel/utils.py:trim_label, "
         "_scan_to_end_of_label"),
        ("decoding", "pdr/parselabel/pds3.py:read_pvl")],
  observe=["pdr.read(path).metadata", "pdr.read(path)['LABEL']"],
  technique="runtime monitoring: differential oracle (the label as written) "
            "over generated labels placed around read boundaries",
  note="END is placed within 30 bytes of a read boundary in most cases."),
 dict(
  id="C11", title="Metadata lookups find the first match at the outermost level",
  statement=(
   "metaget(key) returns the value of the first statement named key at the "
   "outermost level it occurs, looking inside blocks in label order, or the "
   "given default if there is none; metablock(key) gives the block found there "
   "(or the whole metadata if that value is not a block); both warn exactly "
   "when the name occurs more than once, and "
   "their underscored forms never warn. Answers do not depend on earlier "
   "lookups (once the cache is refreshed after a change), fuzzy lookups return "
   "the value of a most similar name, and looking up or displaying metadata "
   "never raises for any label, key or default. All this holds of PDS3 labels "
   "and of FITS headers alike."),
  over=["inputs", "histories"],
  quant="every label tree or FITS file, name, default, and order of lookups",
  why="unit tests look up a few names in one tree",
  files=["pdr/pdr.py", "pdr/utils.py"],
  mech=[("lookup", "pdr/pdr.py:Metadata.metaget, metablock, metaget_fuzzy, "
         "_metaget_factory, _metablock_factory"),
        ("display", "pdr/utils.py:prettify_multidict")],
  observe=["pdr.read(path).metaget", "pdr.read(path).metadata"],
  technique="runtime monitoring: reference-model oracle over random lookup "
            "histories",
  note="Every name at every depth is looked up, through every lookup."),
 dict(
  id="C12", title="Objects load lazily, once, and as the file says",
  statement=(
   "An object is read when first asked for (by key, attribute, load() or "
   "load('all')) and is from then on the same Python object, untouched by any "
   "other operation, until it is deleted, replaced or reloaded; loading it "
   "again raises AlreadyLoadedError unless reload=True, and a (re)loaded object "
   "always has what the file now says even if the old one was modified in "
   "place. keys(), len, in, unloaded() and repr always agree with the history; "
   "unknown names raise; an object whose file is missing warns and becomes its "
   "metadata and can be reloaded once the file is there. Readers of the same "
   "product do not affect each other."),
  over=["histories", "inputs"],
  quant="every product (PDS3, FITS, FITS behind PDS3 labels, GIF, PDS4), every "
        "order of operations on it",
  why="unit tests load each object once",
  files=["pdr/pdr.py", "pdr/loaders/handlers.py", "pdr/loaders/dispatch.py"],
  mech=[("lifecycle", "pdr/pdr.py:Data.load, load_all, _add_loaded_objects, "
         "__getattribute__, unloaded"),
        ("caches", "pdr/pdr.py:_load_primary_fits, _load_pds4")],
  observe=["pdr.read(path)[key]", "pdr.Data.load", "pdr.Data.unloaded"],
  technique="runtime monitoring: state-machine oracle (identity and content of "
            "every loaded object) over random operation histories",
  note="Histories of 30-60 operations; every loaded object is compared with "
       "what a fresh reader gets after every operation."),
 dict(
  id="C15", title="FITS objects are what the FITS file says",
  statement=(
   "Whether a FITS file is opened directly or through a PDS3 label, every HDU "
   "is available: images (all BITPIX, scaled by BSCALE/BZERO, any number of "
   "axes, tile-compressed ones too) and binary and ASCII tables (scaled, "
   "repeated, array and variable-length columns) have the file's values, shapes and column names (tables in native byte "
   "order), stubs are empty, and "
   "headers have every card's value and comment in order, bad cards "
   "notwithstanding. Pointers in bytes, records, or only names lead to the "
   "right HDU."),
  over=["inputs"],
  quant="every FITS file and every kind of pointer to its HDUs",
  why="unit tests open files made by astropy in one layout",
  files=["pdr/loaders/handlers.py", "pdr/loaders/queries.py", "pdr/pdr.py"],
  mech=[("HDUs", "pdr/loaders/handlers.py:handle_fits_file, "
         "_convert_fits_table_to_df, unpack_fits_headers"),
        ("pointers", "pdr/loaders/queries.py:get_fits_start_byte")],
  observe=["pdr.read(path)[key]", "pdr.read(path)[key + '_HEADER']"],
  technique="runtime monitoring: differential oracle (a FITS writer of our own) "
            "over generated files",
  note="Zero-row ASCII tables are not generated; tiles are compressed with GZIP."),
 dict(
  id="C13", title="Damage to one object is reported and stays contained",
  statement=(
   "When a file of a PDS3 product is missing, empty, truncated or corrupt, or "
   "the label's description of one object is broken or unsupported, the "
   "product still opens, and reading that object does not raise (outside of "
   "debug mode): it warns and gives the object's label metadata if the object "
   "cannot be read. All other objects of the product load as if nothing had "
   "happened, before and after. Arrays and binary tables that are cut off are "
   "never returned short without a warning."),
  over=["inputs", "faults"],
  quant="every kind of damage to any object of any PDS3 product",
  why="unit tests break only whole files that are missing, one at a time",
  files=["pdr/pdr.py", "pdr/loaders/_helpers.py", "pdr/loaders/datawrap.py",
         "pdr/loaders/image.py", "pdr/loaders/table.py"],
  mech=[("failure fallback", "pdr/pdr.py:Data.load, _file_not_found, "
         "_fallback_to_label"),
        ("missing files", "pdr/loaders/_helpers.py:check_explicit_delimiter; "
         "pdr/pdr.py:_target_path")],
  observe=["pdr.read(path)[key]", "warnings", "pdr.Data.load_all"],
  technique="runtime monitoring: fault injection with a containment oracle "
            "(siblings equal what was written) over generated products",
  note="ASCII tables that are cut off are only required not to harm others."),
 dict(
  id="C14", title="get_scaled gives physical values and masks the special ones",
  statement=(
   "For every array of a PDS3, FITS or PDS4 product, get_scaled returns raw * "
   "SCALING_FACTOR + OFFSET (per band where the label says so) to the "
   "precision of the result's type, never overflowed or wrapped, with exactly "
   "the elements masked that equal a special constant of the label or one "
   "implicit in the type. The loaded array is untouched unless inplace is "
   "asked for, and objects that are not arrays, or need no scaling, come back "
   "as they are."),
  over=["inputs"],
  quant="every array, element type, scaling and set of special constants",
  why="unit tests scale one array of one type",
  files=["pdr/pdr.py", "pdr/_scaling.py", "pdr/np_utils.py",
         "pdr/pds4_tools/reader/data_types.py"],
  mech=[("scaling", "pdr/pdr.py:Data.get_scaled; pdr/_scaling.py"),
        ("constants", "pdr/_scaling.py:find_special_constants, mask_specials")],
  observe=["pdr.Data.get_scaled", "pdr.Data.find_special_constants"],
  technique="runtime monitoring: exact-arithmetic oracle over generated arrays "
            "with planted constants and their neighbours",
  note="PDS4 arrays of int64-min and bases other than 16 are not generated."),
 dict(
  id="C16", title="PDS4 arrays and headers are what the files behind the label hold",
  statement=(
   "For every PDS4 product, each labeled array has the shape, values and axis "
   "order its label describes, whatever its type, byte order, offset and "
   "bit mask, and each labeled header comes back whole; this includes FITS "
   "files behind PDS4 labels. Every labeled structure has a key of its own, so "
   "none hides another. Arrays that are cut off raise or warn, never come back "
   "short."),
  over=["inputs"],
  quant="every PDS4 label with arrays and headers and every file behind it",
  why="unit tests have no PDS4 arrays except through one FITS product",
  files=["pdr/pdr.py",
         "pdr/pds4_tools/reader/read_arrays.py",
         "pdr/pds4_tools/reader/general_objects.py"],
  mech=[("keys", "pdr/pdr.py:Data._init_pds4"),
        ("arrays", "pdr/pds4_tools/reader/read_arrays.py; "
         "pdr/pds4_tools/reader/data.py")],
  observe=["pdr.read(label).keys()", "pdr.read(label)[key]"],
  technique="runtime monitoring: differential oracle (a PDS4 writer of our own) "
            "over generated products, with cut files",
  note="Headers are compared as text; array values exactly."),
 dict(
  id="C17", title="PDS4 tables hold the values, columns and rows of their files",
  statement=(
   "For every PDS4 binary, character and delimited table, reading the table "
   "gives a DataFrame with the labeled columns in order (groups expanded and "
   "named), as many rows as labeled, and each value the file holds: integers "
   "exactly over their whole range, reals to their precision, text without "
   "padding, bit fields whole, missing numbers missing. Tables that are cut "
   "off raise or warn, never come back short. Numbers are in native byte "
   "order."),
  over=["inputs"],
  quant="every PDS4 table description and every file that fits it",
  why="unit tests have no PDS4 tables",
  files=["pdr/pdr.py", "pdr/pds4_tools/reader/read_tables.py",
         "pdr/pds4_tools/reader/table_objects.py",
         "pdr/pds4_tools/reader/data_types.py"],
  mech=[("tables", "pdr/pds4_tools/reader/read_tables.py"),
        ("conversion to DataFrame", "pdr/pdr.py:Data._load_pds4")],
  observe=["pdr.read(label)[key]"],
  technique="runtime monitoring: differential oracle (a PDS4 table writer of "
            "our own) over generated tables, with cut files",
  note="Groups nested deeper than two levels are refused loudly and not "
       "generated; delimited tables cut inside the last record are open."),
 dict(
  id="C18", title="PDS4 metadata is what the label says",
  statement=(
   "For every PDS4 label, the metadata hold every element of the label, "
   "nested as in the label and without losing repeated siblings, with the "
   "element's text as value, whatever its namespaces, encoding, comments and "
   "entities. metaget, metablock and their quiet siblings find any element by "
   "name, outermost and first one first, and warn if there are several. "
   "Added metadata are found, and leave the rest as it was."),
  over=["inputs"],
  quant="every well-formed PDS4 label, names in it, and way of opening it",
  why="unit tests read one PDS4 label",
  files=["pdr/pdr.py", "pdr/parselabel/pds4.py", "pdr/utils.py",
         "pdr/pds4_tools/reader/label_objects.py"],
  mech=[("metadata", "pdr/parselabel/pds4.py; pdr/utils.py"),
        ("lookups", "pdr/pdr.py:Metadata")],
  observe=["pdr.read(label).metadata", "pdr.read(label).metaget"],
  technique="runtime monitoring: our own walk of the XML as oracle, over "
            "generated labels",
  note="XML attributes are not metadata. The order of same-named siblings "
       "that other elements separate is open."),
 dict(
  id="C19", title="Desktop images open as the pixels and frames they hold",
  statement=(
   "For every PNG, BMP, TIFF, GIF, JPEG, JPEG2000, WebP or MPO image, opened on "
   "its own or behind a PDS3 label, the frames have keys of their own and hold "
   "exactly the pixels of the file, bands first (lossy formats: as decoded), "
   "with palettes applied, and odd embedded "
   "metadata does not keep an image from opening."),
  over=["inputs"],
  quant="every image, mode, bit depth, frame count and embedded metadata",
  why="unit tests open a handful of images",
  files=["pdr/pdr.py", "pdr/loaders/image.py", "pdr/loaders/_helpers.py",
         "pdr/pil_utils.py"],
  mech=[("formats and metadata", "pdr/pil_utils.py"),
        ("pixels", "pdr/loaders/handlers.py; pdr/loaders/dispatch.py")],
  observe=["pdr.read(image)[key]", "pdr.read(image).metadata"],
  technique="runtime monitoring: differential oracle (image encoders of our "
            "own, or Pillow for lossy formats) over generated images",
  note="Formats Pillow itself converts (16-bit RGB, some TIFF types) are not "
       "generated; multi-frame PNG and TIFF are refused loudly."),
 dict(
  id="C20", title="Browse products show what the objects hold, and change nothing",
  statement=(
   "dump_browse writes one browse product, named after prefix, object and "
   "suffix into the requested folder, for every loaded object and no other: "
   "images whose pixels are the array's values stretched over the clipped range "
   "of its valid elements with invalid or masked ones in the mask colour, CSV "
   "files with every cell of each table, and text as it is. Unless purging "
   "is asked for, neither dumping nor show() alters, loads or drops any object "
   "or input file."),
  over=["inputs", "histories"],
  quant="every product, set of loaded objects, array content and option",
  why="unit tests dump one product and look for the files' existence",
  files=["pdr/browsify.py", "pdr/pdr.py"],
  mech=[("rendering", "pdr/browsify.py"),
        ("dumping", "pdr/pdr.py:Data.dump_browse, Data.show")],
  observe=["pdr.Data.dump_browse", "pdr.Data.show", "pdr.browsify.browsify"],
  technique="runtime monitoring: exact-arithmetic oracle on the pixels and "
            "cells of the written files, state monitor on Data",
  note="JPEG products are compared only by their size, PNG products pixel by "
       "pixel."),
 dict(
  id="C21", title="Identifying keywords of ordinary products do not change how they read",
  statement=(
   "A PDS3 product reads by its label alone, whatever the values and types of "
   "its identifying keywords (instrument, host, data set, product id and type, "
   "file name, notes) and whatever its files, directories and objects are "
   "called, unless exactly those identify a product and object known to need "
   "special treatment. In particular, a product that merely resembles one, or "
   "whose keywords are numbers, dates, sets or sequences, reads as written, "
   "and CRISM's extra null constant masks CRISM images only."),
  over=["inputs"],
  quant="every combination and value of identifying keywords, object, file "
        "and directory names",
  why="unit tests read products of a few missions, never near misses",
  files=["pdr/loaders/queries.py", "pdr/parselabel/pds3.py",
         "pdr/pdr.py", "pdr/formats/checkers.py", "pdr/formats/"],
  mech=[("selection of special cases", "pdr/formats/checkers.py"),
        ("identifying keywords", "pdr/pdr.py:Data._init_identifiers"),
        ("label encoding", "pdr/formats/checkers.py:check_special_label")],
  observe=["pdr.read(label)[object]", "pdr.Data.metaget",
           "pdr.Data.get_scaled"],
  technique="runtime monitoring: differential oracle (known contents) over "
            "products whose keywords approach, but do not meet, an "
            "independently written table of the special cases' conditions",
  note="That the special cases themselves are right is C22's business."),
 dict(
  id="C22", title="Known-bad mission products are read with their documented corrections",
  statement=(
   "A product that pdr's special cases (pdr/formats) are about is read with "
   "exactly the correction its special case documents: wrong row lengths, row "
   "counts, offsets, file names, byte orders, data types, dimensions, column "
   "names and format files of the label are replaced by the true ones, files "
   "that do not keep to their fixed widths are split as documented, and every "
   "value of the object comes back as stored in the file. Products of the "
   "same data sets whose labels are right, and other objects of the same "
   "product, are unaffected. Objects documented as unsupported are left "
   "alone without an error. Loading again, in another order, all at once or "
   "scaled gives the same data."),
  over=["inputs", "histories"],
  quant="every special case, product contents, shape, and order of loading",
  why="the test suite reads no product of most missions",
  files=["pdr/formats/", "pdr/loaders/queries.py", "pdr/loaders/datawrap.py",
         "pdr/loaders/table.py"],
  mech=[("selection of special cases", "pdr/formats/checkers.py"),
        ("corrections", "pdr/formats/"),
        ("dispatch", "pdr/func.py:specialize")],
  observe=["pdr.read(label)[object]", "pdr.Data.load", "pdr.Data.get_scaled"],
  technique="runtime monitoring: one workload generator per special case "
            "writes products with the documented defect and known contents; "
            "an oracle compares every value and repeats the reads",
  note="The corrections were taken from the documentation of each special "
       "case; whether the missions' real files have these defects cannot be "
       "checked here."),
 dict(
  id="C23", title="Images in missions' own compressed formats decode to their pixels",
  statement=(
   "An image in a compression that pdr decodes itself -- MGS MOC standard "
   "data products (uncompressed, predictive in x or y with any of the eight "
   "code tables and with line markers, transform coding with any number of "
   "levels and spacing, split into fragments anywhere) and MSL MAHLI, MARDI "
   "and Mastcam EDRs (raw of 8 and 16 bits, thumbnails whose size the header "
   "does not give, predictive, gray and colour JPEG) -- decodes to the pixels "
   "that were encoded: exactly, or, where the coding is lossy, to those that "
   "its exact inverse gives. Data that end early, lack their last marker or "
   "are damaged between markers give everything before the end, and again "
   "from the next marker on, with a warning; whole data give none. Decoding "
   "leaves no files open and no settings of the process changed."),
  over=["inputs", "faults"],
  quant="image content and size, coding parameters, fragmentation, place and "
        "kind of damage",
  why="the test suite decodes no such image, and every bit of the stream "
      "shifts what follows",
  files=["pdr/formats/mgs_moc.py", "pdr/formats/msl_edr.py",
         "pdr/formats/checkers.py", "pdr/loaders/datawrap.py"],
  mech=[("MOC fragments and decoders",
         "pdr/formats/mgs_moc.py:mgs_moc_comp_image_loader"),
        ("MSL header and decoders",
         "pdr/formats/msl_edr.py:msl_edr_image_loader"),
        ("dispatch",
         "pdr/formats/checkers.py:check_special_compressed_file_reader")],
  observe=["pdr.read(path)['IMAGE']", "warnings", "/proc/self/fd"],
  technique="runtime monitoring: independent encoders write images of known "
            "pixels in every variant, with faults injected into the stream; "
            "an oracle compares every pixel, the warnings and open files",
  note="Code tables are those of the repository at the start: a wrong entry "
       "there would go unnoticed."),
 dict(
  id="C24", title="Reading changes nothing but what it returns",
  statement=(
   "Opening, loading, scaling, querying, displaying and browsing products "
   "-- whether the calls succeed or raise -- leaves everything else as it "
   "was: the product's files (content, times, permissions), the directory "
   "they are in (no new files, but those dump_browse is asked for, where it "
   "is asked for them), the process (working directory, environment, umask, "
   "hooks, signal handlers, warning filters, random state, and the settings "
   "of numpy, pandas, Pillow, astropy, decimal, locale and logging), and "
   "standard output, and its arguments. It starts no programs or connections. What was loaded "
   "is the caller's: overwriting it in place does not reach the files. Once "
   "a reader is dropped, it is freed, and none of its files stay open."),
  over=["inputs", "histories", "faults"],
  quant="kind of product, every public call and its outcome, damage to the "
        "product",
  why="unit tests look at what is returned, not at what else has changed",
  files=["pdr/"],
  mech=[("opening files", "pdr/loaders/utility.py"),
        ("arrays over files", "pdr/loaders/image.py:process_single_band_image"),
        ("PDS4 and FITS", "pdr/loaders/handlers.py"),
        ("desktop images", "pdr/loaders/handlers.py:handle_desktop_image"),
        ("browse output", "pdr/browsify.py")],
  observe=["sys.addaudithook", "stat and content of files", "/proc/self/fd",
           "interpreter and library state", "weakref"],
  technique="runtime monitoring: an audit hook and snapshots of process, "
            "files and descriptors around every public call, over the "
            "workloads of all other checks, damaged products included",
  note="Imports are done beforehand. State that changes only on the first "
       "call of a process is seen by the first case of each worker."),
 dict(
  id="C25", title="What is read depends on the files alone",
  statement=(
   "The result of every call -- values, errors, and everything a reader "
   "holds at the end -- depends on the product's files and on the calls made "
   "on that reader, and on nothing else: not on what the process read "
   "before, be it other products, other versions of the same product under "
   "the same paths, or products that failed; not on readers that are used at "
   "the same time, in other threads, in turns call by call or within calls; "
   "not on hash seed, locale, time zone, environment, optimization, working "
   "directory, or the order in which directories are listed; and not on chance: reading the same twice gives the same. A "
   "reader that is left alone while others are used keeps what it holds."),
  over=["inputs", "histories", "schedules"],
  quant="sequences of products, interleavings of calls of several readers, "
        "environments of the interpreter",
  why="unit tests read each product once, in one order and environment; "
      "caches, shared defaults and module-level state show up only in "
      "histories",
  files=["pdr/"],
  mech=[("caches", "pdr/loaders/"), ("special cases' state", "pdr/formats/"),
        ("PDS4 reader", "pdr/pds4_tools/"), ("encodings", "pdr/loaders/text.py")],
  observe=["outcome of every public call", "every attribute of every reader"],
  technique="runtime monitoring: differential oracle between a fresh process "
            "and histories, random interleavings of calls and changed "
            "environments, over the workloads of all other checks",
  note="Switches between threads happen between calls of the public "
       "interface and at calls of pdr's own functions (not under a lock), not "
       "between any two instructions. Warnings are not compared."),
]
