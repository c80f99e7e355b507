"""Writes properties.jsonl."""
import json
import os

PROPS = []


def P(id, title, statement, qtext, why, mech, over=('inputs',), observe=(), hook=False):
    files = sorted({w.split(':')[0] for _, w in mech})
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=['src/csvw/' + f for f in files],
                     mechanism=[dict(name=n, where='src/csvw/' + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


P('P01', 'Reading and writing with one dialect use the same CSV format',
  "A dialect gives the CSV writer and the CSV reader one and the same format: its delimiter, quote "
  "character (none means none), quote doubling, initial-space skipping and encoding, with a "
  "backslash as escape character exactly if quotes are not doubled and a quote character exists, "
  "and strict parsing; options passed explicitly override it. Rows are handed to the CSV writer "
  "as they are, neither cells nor rows being changed, dropped or added, so that all text survives "
  "writing and reading. Files are opened with the dialect's encoding (a UTF-8 byte order mark is "
  "skipped on reading) and without newline translation; lines of bytes are decoded with it, too.",
  'all dialect descriptions and formatting options',
  'Tests use a handful of dialects; the agreement must hold for every combination of options.',
  [('dialect to csv parameters', 'dsv_dialects.py:Dialect.as_python_formatting_parameters'),
   ('writer set-up', 'dsv.py:UnicodeWriter.__init__'),
   ('reader set-up', 'dsv.py:UnicodeReader.__init__')],
  over=('inputs', 'configurations'), observe=['arguments handed to csv.reader and csv.writer'])
P('P02', 'Rows are skipped, trimmed and numbered as the dialect says',
  "A reader with a dialect yields exactly the rows which do not start with the comment prefix, are "
  "not blank if blank rows are to be skipped, and come after the rows to skip, each without its "
  "leading columns to skip and with every cell trimmed as specified; rows skipped as comments are "
  "recorded. Without a dialect all rows come through unchanged. The line number reported with a "
  "row is the number of the text line on which the row ends, counting skipped rows and line breaks "
  "inside of cells; the rows to skip are those which end within the first lines to skip.",
  'all dialects and all row sequences',
  'Tests sample some dialects on fixed files; interactions of the options are not enumerated.',
  [('row filter', 'dsv.py:UnicodeReader.__next__'), ('line numbers', 'dsv.py:UnicodeReader._next_row'),
   ('trimming', 'dsv_dialects.py:Dialect.trimmer')],
  over=('inputs', 'configurations', 'histories'))
P('P03', 'Rewriting a file in place is all or nothing',
  "Rewriting, filtering or appending to a delimited file never opens the target for writing: all "
  "output goes to a fresh temporary file, which replaces the target in one move after the "
  "temporary file has been completely written and closed. If reading, the visitor or writing "
  "fails at any point, the target is left untouched. Exactly the rows the visitor returns (not "
  "None) are written, in order, appended rows come after all existing rows, and the number of "
  "removed rows reported is the number of non-empty data rows the filter rejected, the header "
  "always being kept; rows are written in the format they are read in.",
  'every point at which reading, visiting or writing may fail',
  'Tests look at successful runs only.',
  [('rewrite', 'dsv.py:rewrite'), ('append', 'dsv.py:add_rows'), ('filter', 'dsv.py:DictFilter')],
  over=('crash_points', 'fault_sequences', 'inputs'))
P('P04', 'File handles opened by the package are closed on every exit',
  "Every file, archive or archive member the package opens is closed when the operation ends, "
  "normally or by an exception while rows are read, converted, visited or written, and row "
  "generators close theirs when they are exhausted or closed early. File objects passed in by the "
  "caller are never closed.",
  'every control path, including an exception at every such operation and early generator exit',
  'Tests do not inject failures, and leaked handles are invisible to them.',
  [('writer', 'dsv.py:UnicodeWriter.__exit__'), ('reader', 'dsv.py:UnicodeReader.__exit__'),
   ('table reader', 'metadata.py:Table.iterdicts')],
  over=('fault_sequences', 'inputs'))
P('P05', 'Rows read as dicts or namedtuples are complete and aligned',
  "Each row read as a dict maps the i-th field name to the i-th cell; surplus cells are kept, in "
  "order, under the designated rest key, missing cells get the designated rest value, empty rows "
  "are skipped, and the header is taken from the first row exactly if no field names were given, "
  "which is then not returned as data. Rows read as namedtuples have a field for every column, in "
  "column order, holding the same value as the dict; rows of the wrong length never raise or "
  "shift cells. Conversely, dicts given to the writer are written as one row of keys, if no row "
  "has been written before, followed by one row of values per dict.",
  'all rows, shorter or longer than the header, and all rest keys',
  'Tests use fixed files of mostly rectangular shape.',
  [('dict rows', 'dsv.py:UnicodeDictReader.item'), ('header', 'dsv.py:UnicodeDictReader.fieldnames'),
   ('namedtuples', 'dsv.py:NamedTupleReader.item')])
P('P06', 'Reading a cell follows the null, default, separator, required rules',
  "Reading a cell first replaces an empty cell by the column's default, then rejects it with a "
  "ValueError if the column is required and the cell equals one of the null markers, reads it as "
  "missing if it equals a null marker, and otherwise as a datatype value. With a separator the "
  "cell is split into elements (an empty cell is the empty list, a null marker is missing), where "
  "each empty element is replaced by the default and each element equal to a null marker is "
  "missing. A value the datatype rejects raises ValueError, except that a list column read "
  "non-strictly keeps the raw elements and warns.",
  'all cells and all combinations of null, default, separator, required, datatype',
  'The decision table has more rows than any test set covers, and interactions hide defects.',
  [('cell parsing', 'metadata.py:Column.read'), ('null markers', 'metadata.py:Description.inherit_null')],
  over=('inputs', 'configurations'))
P('P07', 'Writing a cell is the inverse of reading it',
  "A missing value is written as the first null marker of the column (or as an empty cell if it "
  "has none), any other value in the format of the column's datatype, or unchanged if it has none. "
  "With a separator the elements are written like this one by one and joined by the separator, a "
  "missing or empty list giving the empty cell.",
  'all values and all combinations of null, separator and datatype',
  'Tests round-trip a few columns only.',
  [('cell formatting', 'metadata.py:Column.write')],
  over=('inputs', 'configurations'))
P('P08', 'A value passes iff it satisfies all length and range facets',
  "A parsed value is accepted, unchanged, iff it satisfies every length facet (exact, minimal, "
  "maximal) and every bound (inclusive or exclusive, lower or upper, with exactly that "
  "strictness) of its datatype, whatever the value and however many facets are given; otherwise "
  "ValueError is raised. Missing values always pass, and reading a value applies the facets to "
  "the parsed value.",
  'all values, facet values and combinations of facets, for all ordered and text datatypes',
  'Boundary values per facet, datatype and combination are not enumerated by tests.',
  [('facets', 'metadata.py:Datatype.validate'), ('reading', 'metadata.py:Datatype.read')],
  over=('inputs', 'configurations'))
P('P09', 'Contradictory datatype descriptions are rejected',
  "A datatype description is rejected with ValueError if its length facets contradict each other, "
  "if a lower and an upper bound exclude every value or both an inclusive and an exclusive bound of "
  "the same side are given, if bounds are given for a datatype without order or length facets for "
  "one without length, or if its id is that of a built-in datatype. A consistent description is "
  "accepted with its facets unchanged, and an unknown base is replaced by string with a warning.",
  'all facet values, including zero, and all datatypes',
  'Falsy facet values and most combinations never occur in tests.',
  [('consistency checks', 'metadata.py:Datatype.__attrs_post_init__')],
  over=('inputs', 'configurations'))
P('P10', 'Built-in datatypes accept exactly their lexical and value range',
  "Every integer datatype accepts exactly the integers in the range the specification gives it "
  "(int being an alias of integer), and rejects all others with ValueError. All datatypes of the "
  "specification are known under their names, each with values of the right kind; text datatypes "
  "with a format accept exactly the values the format matches as a whole. Decimal and integer values have no "
  "exponent. Token values must consist of name characters only; in normalized strings line breaks and tabs "
  "become spaces, and surrounding space is removed.",
  'all cell values, for each built-in datatype',
  'Tests sample values per type, not the boundaries of each.',
  [('datatype registry', 'datatypes.py:DATATYPES'), ('integer ranges', 'datatypes.py:integer')])
P('P11', 'Invalid cells raise ValueError, and nothing else',
  "Whatever text a cell contains, and whatever consistent datatype its column has, parsing it "
  "either gives a value or raises ValueError. Tables can therefore be read with errors logged, or "
  "non-strictly, without being aborted by bad data.",
  'all strings and all datatype descriptions',
  'Only specially chosen strings make library parsers raise other errors.',
  [('parsers', 'datatypes.py:anyAtomicType.to_python'), ('cell', 'metadata.py:Column.read')],
  over=('inputs',))
P('P12', 'Boolean and number formats mean the same on reading and writing',
  "A boolean column reads exactly the two tokens of its format (or true/1 and false/0 by default) "
  "as true and false, and writes the corresponding token. A decimal or integer column reads a cell after "
  "removing the group character and turning the decimal character into a point, accepts percent "
  "and per-mille by scaling, and writes with the same two characters exchanged back, so that "
  "neither direction confuses decimal and group character.",
  'all formats (any pair of characters, with or without pattern) and values',
  'Tests use one or two formats.',
  [('booleans', 'datatypes.py:boolean'), ('numbers', 'datatypes.py:decimal')],
  over=('inputs', 'configurations'))
P('P13', 'Inherited properties take the value specified nearest to the column',
  "The effective value of an inherited property of a column is the one specified on the column, "
  "else on its schema, else on its table, else on its table group, else the default; the same "
  "holds for the list of null markers, where an explicitly empty list counts as specified. A "
  "value specified nearer is never overridden, for all inherited properties, including those "
  "with falsy values.",
  'all assignments of inherited properties to the four levels',
  'Tests put a property on one level at a time.',
  [('lookup', 'metadata.py:Description.inherit'), ('null', 'metadata.py:Description.inherit_null'),
   ('parents', 'metadata.py:Schema.__attrs_post_init__')],
  over=('configurations', 'inputs'))
P('P14', 'Reading a table accounts for every row and cell',
  "Reading a table yields one record per data row, in order, holding every column of the schema: "
  "cells are assigned to columns by header name (by position if the file has no header), regular "
  "columns missing from the data are None, virtual columns hold their expanded value URL, and "
  "unspecified columns are kept as text with a warning. A row with an invalid cell or lacking a "
  "required one raises ValueError naming file, line and column, or, if a logger is given, is "
  "logged and left out while reading goes on; read non-strictly, columns being assigned by "
  "position, an invalid cell is kept as raw text with a warning.",
  'all tables, headers, row shapes and error positions',
  'Tests cannot enumerate header permutations combined with row shapes and errors.',
  [('row iteration', 'metadata.py:Table.iterdicts')],
  over=('inputs', 'histories', 'configurations'))
P('P15', 'Writing a table gives a row per item with all non-virtual columns',
  "Writing a table writes a header row with the names of the non-virtual columns exactly if the "
  "dialect has a header, then one row per item, in order, with the formatted value of each "
  "non-virtual column: by name from dicts (missing keys count as missing values), by position from "
  "lists. In strict mode an item with unknown keys raises ValueError. The number of rows written "
  "is returned, or the content if no file is given, and writing a group writes each table's items "
  "to that table, and the metadata.",
  'all schemas with virtual columns anywhere, all items and dialects',
  'Tests write small homogeneous tables.',
  [('table writing', 'metadata.py:Table.write'), ('group writing', 'metadata.py:TableGroup.write')])
P('P16', 'Primary key check finds every duplicate, and nothing else',
  "The primary key check of a table succeeds iff no two rows agree in all key columns; a duplicate "
  "is reported with file and line of each further row by ValueError, or to the logger, after which "
  "checking goes on and the result is false. A table without primary key passes.",
  'all tables and keys, single or composite, in any row order',
  'Tests use two fixed tables.',
  [('check', 'metadata.py:Table.check_primary_key')], over=('inputs', 'histories'))
P('P17', 'Referential integrity check finds every dangling reference',
  "The referential integrity check reports every row whose foreign key, or any element of a "
  "list-valued single-column foreign key, is not among the keys of the referenced table, compared "
  "column by column in the declared order; missing references are ignored (composite ones if any "
  "part is missing). A report is a ValueError, or a log entry, after which all remaining rows, "
  "keys and tables are still checked and the result is false; without any such row and with a "
  "consistent schema the result is true, while an inconsistent schema is a ValueError or logged, "
  "with result false. In strict mode a missing reference raises ValueError and non-unique "
  "referenced keys give false.",
  'any number of tables and foreign keys, shared targets, list-valued and composite keys',
  'Tests have one or two keys; grouping by target is only exercised on small schemas.',
  [('check', 'metadata.py:TableGroup.check_referential_integrity'),
   ('schema consistency', 'metadata.py:TableGroup.validate_schema')], over=('inputs', 'histories', 'configurations'))
P('P18', 'Metadata survives being written out and read back',
  "The JSON form of a description contains every property that differs from its default, "
  "including common properties, @-properties, foreign keys, titles in all languages and nested "
  "tables, schemas, columns, datatypes and dialects, and nothing that was not specified. Building "
  "a description from the JSON form gives an equal description, and the null property survives "
  "even if it is the empty list.",
  'all descriptions with any subset of properties set to any valid value',
  'Tests round-trip some example files.',
  [('serialisation', 'metadata.py:DescriptionBase.asdict'), ('parsing', 'metadata.py:DescriptionBase.partition_properties'),
   ('titles', 'metadata.py:NaturalLanguage.asdict'), ('attributes', 'utils.py:attr_asdict')])
P('P19', 'Invalid property values are replaced by the default, with a warning',
  "A value of the wrong type or out of range for a property of a dialect, or for one of the properties "
  "default, lang, null, ordered, separator, textDirection, tableDirection, name, titles, "
  "suppressOutput, virtual, columns, foreignKeys, primaryKey, rowTitles, tableSchema, dialect, tables, "
  "transformations, or base of a datatype in a metadata document gives a warning and is replaced by the default of "
  "the property (string for the base of a datatype) as if it had not been given, so that an inherited "
  "value applies, and all other properties keep their values; members of the wrong type of columns, "
  "foreignKeys and tables, and titles with a language which are no strings, are left out. Valid values are kept unchanged and without warning. A property unknown "
  "for a description gives a warning and is ignored. Booleans do not count as numbers.",
  'all values of all these properties',
  'Tests try one bad value for some of the properties.',
  [('conversion', 'utils.py:converter'), ('unknown properties', 'metadata.py:DescriptionBase.partition_properties'),
   ('dialect', 'dsv_dialects.py:Dialect')])
P('P20', 'Structurally invalid metadata is rejected with ValueError',
  "Metadata is rejected with ValueError if a table has no URL, if an @type does not name the kind "
  "of description, an @id is a blank node, a context list holds anything but the CSVW context and an "
  "object with @base or @language, a non-virtual column follows a virtual one, two non-virtual "
  "columns have the same name, a foreign key specification has no reference, surplus properties, or "
  "both a resource and a schema reference, or if a common property misuses @value, @language, @type "
  "or other @-keys, at any nesting depth; opened as dataset, also if the CSVW context is missing or "
  "the tables are not a non-empty list. Metadata without such faults is accepted.",
  'all metadata documents',
  'Rules are tested with one document each, at one nesting depth.',
  [('partitioning', 'metadata.py:DescriptionBase.partition_properties'),
   ('common properties', 'metadata.py:valid_common_property'), ('schema', 'metadata.py:Schema.__attrs_post_init__'),
   ('references', 'metadata.py:ForeignKey.fromdict'), ('tables', 'metadata.py:Table.__attrs_post_init__')])
P('P21', 'Data files are located relative to their metadata',
  "A relative table URL is resolved against the directory of the metadata file, or, for metadata "
  "from the web, against its URL or the base it declares (a base in the context being itself "
  "resolved first); absolute URLs are used as they are. Tables of a group resolve against the "
  "group. If the data file does not exist but the file name with .zip appended does, the data is "
  "read from that archive's member of this name, with the same encoding and dialect. Schemas which metadata "
  "from the web gives by reference are taken from the URL relative to that of the metadata.",
  'all combinations of metadata location, @base and table URL',
  'Tests cover some combinations with fixed files.',
  [('links', 'metadata.py:Link.resolve'), ('base', 'metadata.py:TableLike.base'),
   ('opening', 'metadata.py:Table.iterdicts')], over=('configurations', 'inputs'))
P('P22', 'JSON conversion outputs every non-null, unsuppressed cell once',
  "The JSON form of a dataset has one entry per table not suppressed, with one row object per data "
  "row in order, numbered consecutively from 1, and carrying the source line number. The described "
  "object of a row has every cell which is not null, not empty and not in a suppressed column, "
  "under the column's property (its property URL, if given), values being replaced by the expanded "
  "value URL if one is given, then every unsuppressed virtual column. If columns have subjects of their "
  "own, each cell belongs to its subject, and each subject is described once. Minimal mode gives just the first "
  "described object of each row of each table.",
  'all tables, columns, suppression flags, null markers and cells',
  'The W3C test files are a sample of documents, not of the combinations.',
  [('tables', 'metadata.py:CSVW._table_to_json'), ('rows', 'metadata.py:CSVW._row_to_json'),
   ('cells', 'metadata.py:CSVW._describes'), ('triples', 'jsonld.py:Triple.from_col'),
   ('grouping', 'jsonld.py:group_triples')])
P('P23', 'The validity verdict reflects every warning and check',
  "A dataset opened for validation is valid iff neither loading its metadata nor reading all rows "
  "of all its tables gives a warning, no primary key is violated and referential integrity (with foreign "
  "keys that are not null) holds; data that cannot be read counts as invalid. The verdict depends on no "
  "warning filter, and does not change. The validation command exits with 0 and prints OK iff the dataset is valid, with 1 if it is not, "
  "and with 2 if the metadata is rejected on loading.",
  'all datasets, and all warning filters the process may have set',
  'Tests run under the test runner, which resets warning filters.',
  [('verdict', 'metadata.py:CSVW.is_valid'), ('command', '__main__.py:csvwvalidate')],
  over=('inputs', 'configurations'))
P('P24', 'No data value or name is ever interpreted as SQL',
  "In every SQL statement the package executes, data values are passed as bound parameters, and "
  "table and column names appear only inside of quotes, so that no cell value and no name of a "
  "table or column can change the meaning of a statement.",
  'all data values and all table and column names',
  'Tests use harmless names and values.',
  [('quoting', 'db.py:quoted'), ('inserts', 'db.py:insert'), ('selects', 'db.py:Database.select_many_to_many')])
P('P25', 'The database schema carries the constraints of the metadata',
  "The table created for a table description has a column for each of its columns except "
  "list-valued foreign keys, typed by its datatype (lists as text), NOT NULL iff it is required, "
  "with a CHECK for each range facet of a numeric or date column and each length facet of a string "
  "or hexBinary column that is given, including zero, and no CHECK for lists; the same primary key; "
  "and a foreign key for each foreign key of the metadata pairing the same columns (to the table "
  "itself only on request). Each list-valued foreign key gets an association table referencing both "
  "tables.",
  'all table descriptions',
  'Tests create a few databases, and do not test boundary facet values.',
  [('columns', 'db.py:ColSpec'), ('checks', 'db.py:ColSpec.check'), ('tables', 'db.py:TableSpec.from_table_metadata'),
   ('statements', 'db.py:TableSpec.sql')], over=('inputs', 'configurations'))
P('P26', 'Database tables are created in dependency order, for any schema size',
  "Every table of a dataset whose references are acyclic (apart from self-references) is created, "
  "once, after all tables it references, however many tables there are. Cyclic references are "
  "reported with ValueError, and nothing loops forever.",
  'all finite reference graphs',
  'Tests have schemas of a few tables.',
  [('ordering', 'db.py:schema')], over=('inputs', 'configurations'))
P('P27', 'Each value is inserted into the column it belongs to',
  "When rows are written to a database each value goes to the column named by its key, whatever "
  "the order or subset of keys of this row and of the other rows, and every row of every table "
  "with data is inserted. Unknown keys raise ValueError, or are skipped on request, and each "
  "element of a list-valued foreign key gives a row of the association table with the key of its "
  "own row and the element.",
  'all rows with any key order, subset and number',
  'Tests write rows with the same keys in the same order.',
  [('binding', 'db.py:Database.write'), ('insert', 'db.py:insert')], over=('inputs', 'histories'))
P('P28', 'Writing a database is safe: no silent overwrite, keys enforced, committed',
  "An existing database file is never touched without force, and replaced with force. Foreign keys "
  "are enforced before any row is inserted, everything is committed before writing returns, a "
  "failed insert raises, and file connections are always closed.",
  'all states of the target file and failures at any statement',
  'Tests do not inject failing statements.',
  [('writing', 'db.py:Database.write'), ('connections', 'db.py:Database.connection')],
  over=('fault_sequences', 'configurations'))
P('P29', 'Values read from the database are the values written',
  "For each datatype the conversion applied when writing a value to the database has its inverse "
  "applied when reading (decimals keep double precision), missing values stay missing and lists "
  "stay lists of the same items; empty and missing lists are kept apart except for list-valued "
  "foreign keys. The latter are read back from the association table for the right row and column, "
  "whatever the names are translated to.",
  'all datatypes, separators and values',
  'Tests write one value per type.',
  [('types', 'db.py:TYPE_MAP'), ('reading', 'db.py:Database.read'), ('writing', 'db.py:Database.write')])
P('P30', 'Importing a data package keeps every supported constraint',
  "Converting a Frictionless data package keeps, for each tabular CSV resource, every field in "
  "order with its name, type, title, description, length and range constraints, required flag, "
  "pattern, decimal and group character and boolean tokens, and the schema's missing values, "
  "primary key, foreign keys (self-references included) and CSV dialect (encoding included); "
  "patterns are kept where the format of a datatype is a regular expression and are ignored for numbers, "
  "booleans, dates and times. A valid package gives a valid table group.",
  'all data packages using the supported features',
  'Tests convert one package.',
  [('fields', 'frictionless.py:convert_column_spec'), ('schema', 'frictionless.py:convert_table_schema'),
   ('dialect', 'frictionless.py:convert_dialect'), ('package', 'frictionless.py:DataPackage.to_tablegroup')])
P('P31', 'Every supported date and time format is read and written alike',
  "For each date or time format the package accepts, the parser and the formatter are built from "
  "the same pattern, each field of the pattern is parsed by its own group and written by its own "
  "directive, with the same separators and precision, and time zone markers are honoured on both "
  "for date-times and times; a time zone following a date or time in default format is kept. "
  "A date or time format outside the supported grammar is not used: the "
  "default format replaces it, with a warning, when the column is described.",
  'all format strings in the supported grammar',
  'Tests sample some formats.',
  [('formats', 'datatypes.py:dt_format_and_regex'), ('datetimes', 'datatypes.py:datetime')])
P('P32', 'Describing, reading and converting data does not change inputs',
  "Reading or checking tables, serialising descriptions, and writing rows do not change the "
  "descriptions, and constructing descriptions, writing or converting does not modify dicts, lists "
  "or rows handed in by the caller. Hence reading twice, or after a conversion, gives the same "
  "result.",
  'all operations in any order on shared objects',
  'Tests use fresh objects; mutation shows only when objects are reused.',
  [('descriptions', 'metadata.py:Datatype.fromvalue'), ('conversion', 'metadata.py:CSVW._table_to_json')],
  over=('histories', 'inputs'))
P('P33', 'Numbers survive a write/read round trip',
  "Any number written in a column's format is read back as the same number.",
  'all numbers and formats', 'Infinite value set.',
  [('numbers', 'datatypes.py:decimal')])
P('P34', 'Dates and times survive a write/read round trip',
  "Any date, time or duration written in a column's format is read back as the same value, up to "
  "the precision of the format.",
  'all values and formats', 'Infinite value set.',
  [('dates', 'datatypes.py:datetime')])
P('P35', 'URI templates are expanded per RFC 6570 with the cells of the row',
  "The expansion of a property, about or value URL is the RFC 6570 expansion of its template with "
  "the values of the row.",
  'all templates and rows', 'Infinite value set.',
  [('expansion', 'metadata.py:TableLike.expand')])
P('P36', 'Number patterns accept exactly the numbers they describe',
  "A number is accepted by a number pattern iff it has the digits, grouping, fraction and exponent "
  "the pattern describes.",
  'all patterns and numbers', 'Infinite value set.',
  [('patterns', 'datatypes.py:NumberPattern')])


if __name__ == '__main__':
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(fn, 'w', encoding='utf8') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
