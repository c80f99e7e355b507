"""How each property is decided (hand-written part of DESIGN.md)."""
M = {
'P01': 'Both `UnicodeReader` and `UnicodeWriter` are constructed on a dialect whose properties are independent symbols (each '
       'unspecified, null, or an arbitrary value), with and without explicit options; the arguments that reach `csv.reader` and '
       '`csv.writer`, and those of `open`, are compared with the format the dialect denotes. `writerow` is followed to '
       '`csv.writer`: the row handed over must be the row given.',
'P02': '`UnicodeReader.__next__` runs on an arbitrary stream of rows (first cell, blankness, number of physical lines symbolic); '
       'rows yielded, comments recorded and `line_num` are compared with a small reference automaton per combination of '
       'commentPrefix, skipRows, skipColumns, skipBlankRows and trim, over sequences of 1–3 rows.',
'P03': 'Effect/typestate analysis: every operation (open, read, visit, write, close, move) may succeed or raise; on each of the '
       'resulting paths, the events on the target path and on the temporary file are checked against the protocol (target never opened for '
       'writing; exactly one move, after the close; none after a failure), and the rows written against the visitor\'s returns.',
'P04': 'Typestate of handles: each call that opens a file, archive or member creates a tracked handle; all functions and context '
       'managers of the package that open something are run with every operation possibly failing; at every exit (return, raise, '
       'generator exhausted or closed early) opened handles must be closed and handles of the caller must not.',
'P05': '`UnicodeDictReader`, `NamedTupleReader`, `iterrows`, `UnicodeWriter` on rows of symbolic cells, for header lengths and row lengths '
       'up to 3 and all settings of restkey/restval/fieldnames; the dict or namedtuple must pair every header with its cell.',
'P06': '`Column.read` with symbolic text, null markers, separator, default, required, against the decision table of the CSVW cell-parsing '
       'steps (null before default before required before separator before datatype), item-wise for lists.',
'P07': '`Column.write` with a symbolic value; the text must be the inverse of the decision table: null marker for None, join of item texts, '
       'the datatype\'s formatting otherwise.',
'P08': '`Datatype.read`/`validate` with symbolic values and facets: the order between value and bound is a three-valued fact; a path accepting '
       'or rejecting must imply the strictness its facet prescribes. All numeric datatypes and facet names.',
'P09': '`Datatype.__attrs_post_init__` with all pairs of bounds and lengths symbolic (order between them a fact): rejects iff contradictory, '
       'otherwise keeps them unchanged.',
'P10': 'The registry of datatypes is evaluated abstractly: names, bases, ranges (order facts at both ends), kinds of values, and the language accepted '
       'by string formats (full match).',
'P11': 'Exception-effect analysis: text symbolic, every library function may raise what it is documented to raise on text (RAISES table); no exception '
       'other than ValueError may leave `Column.read`/`Datatype` for any datatype and any accepted format, or escape building the datatype.',
'P12': 'Token and character provenance: the tokens/characters the reader replaces and the writer emits are derived from the format by abstract '
       'interpretation and compared, for all pairs of decimal and group characters (plain and pattern formats).',
'P13': 'For each inherited property, all 16 combinations of "specified / not specified" on column, schema, table and group, values symbolic: '
       'the value used in reading and writing must be that of the nearest specifying description.',
'P14': '`Table.iterdicts` on rows with symbolic cells against column lists with virtual, required, renamed, suppressed and missing columns, all orders of the header '
       'and all row lengths, strict and with a log; per-path comparison of rows, their order, errors, and warnings.',
'P15': '`Table.write` on items with all subsets and orders of keys, positional or dict, file and zip targets, against the row the columns prescribe.',
'P16': '`Table.check_primary_key` on up to four rows, with all patterns of equality between key values as facts; the set of reported duplicates must equal the '
       'set implied by the pattern.',
'P17': '`TableGroup.check_referential_integrity` on up to four tables with all equality patterns between key values; reported rows must equal those without a partner.',
'P18': 'For each description class and each property with each kind of value (and for nested descriptions up to table groups), `fromvalue` → `asdict` → '
       '`fromvalue` is followed abstractly; the dict produced is compared with the one given minus defaults, the descriptions property by property.',
'P19': 'For each description class, property and invalid value (wrong JSON type, wrong content, lists and objects with wrong members) the loading of a '
       'description that has it is compared with loading it without: same description, one warning more; for valid values the value and no warning. '
       'Strings and numbers are symbolic where only their type matters.',
'P20': 'Loading of documents from a generated family (each structural fault at each nesting level) – raise ValueError iff the document has a fault of the list in the statement.',
'P21': 'Loading with a symbolic location, base declarations, remote and local, zipped, file-like; which URL or path is requested and which bytes are decoded '
       'how is compared with URL resolution on constants and provenance terms.',
'P22': '`CSVW.to_json` on described tables with symbolic cells (text, number, boolean, list, null…), value, about and property URLs, virtual and suppressed columns, '
       'up to two subjects per row, minimal and standard mode; the resulting JSON is compared as a tree with the conversion rules.',
'P23': '`CSVW.is_valid`, `csvwvalidate` and the recording of warnings with every prior state of the warning filters and registry; verdict and exit code compared with '
       'the events (warnings, failed checks) of the path.',
'P24': 'Taint analysis: every SQL text that reaches `execute`/`executemany` is taken apart; a part deriving from a name has to be inside of a quotation produced by the quoting '
       'function which doubles quotes, parts deriving from values must be parameters. An inventory of all execute calls makes sure that none is missed.',
'P25': 'The DDL text produced for symbolic column descriptions is parsed (own little parser) and compared with the constraints of the metadata: NOT NULL, primary key, CHECKs with strictness, '
       'foreign keys pairing columns, association tables.',
'P26': '`insertion order` on all dependency graphs of up to 3 (4 acyclic) tables and chains/stars of 130 tables; every table after those it refers to; cyclic: ValueError and nothing written.',
'P27': '`Database.write` with rows having all subsets and orders of keys, symbolic values: each value must be bound to the position of its column in the statement it is executed with.',
'P28': 'Typestate of the connection and file: all failures of statements; commit exactly once and last; nothing committed after a failure; existing files are only replaced if asked; connections are closed.',
'P29': 'Composition of write and read conversions on symbolic values per datatype, scalar, list, and list-valued foreign key: reading must apply the inverse the type has, with provenance terms cancelling.',
'P30': 'Conversion of data package descriptions with each supported property present or absent and with arbitrary values; the resulting description is compared property by property.',
'P31': 'For every supported date/time pattern the regular expression / parser layout and the formatting pattern are derived abstractly and compared field by field (order, width, separators, fraction digits, time zone), plus reading and writing of symbolic fields.',
'P32': 'On every abstract path of describing, loading, constructing, reading, checking, serialising, writing (files and databases) and converting, all objects of the caller (documents, lists, rows) and the whole description are recorded before and compared after the operation, including operations ending with an error; operations are repeated on the same objects and must give the same result.',
}
