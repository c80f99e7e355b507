SEEDS = [
    dict(id='p01-initial-space', property='P01',
         needs='a dialect with skipInitialSpace and a delimiter other than the comma',
         breaks='skipInitialSpace is ignored for tab-delimited data',
         edits=[('dsv_dialects.py', "            'skipinitialspace': self.skipInitialSpace,",
                 "            'skipinitialspace': self.skipInitialSpace and not self.delimiter.isspace(),")],
         demo='''
from csvw.dsv import UnicodeReader
from csvw.dsv_dialects import Dialect
with UnicodeReader(['a\t  b'], dialect=Dialect(delimiter='\t', skipInitialSpace=True)) as r:
    rows = list(r)
sys.exit(0 if rows == [['a', 'b']] else 1)
'''),
    dict(id='p01-escape-alone', property='P01',
         needs='doubleQuote false, cells with quotes and delimiters, written and read back',
         breaks='without quote doubling the escape character is only used if the delimiter is not a tab',
         edits=[('dsv_dialects.py',
                 "            'escapechar': self.escape_character if not self.doubleQuote else None,",
                 "            'escapechar':\n                None if self.doubleQuote or self.delimiter == '\\t' else self.escape_character,")],
         demo='''
from csvw.dsv import UnicodeReader, UnicodeWriter
from csvw.dsv_dialects import Dialect
d = Dialect(doubleQuote=False, delimiter='\\t', lineTerminators='\\n')
try:
    with UnicodeWriter(None, dialect=d) as w:
        w.writerow(['a"b\\tc', 'd'])
        s = w.read().decode()
    with UnicodeReader(s.splitlines(True), dialect=d) as r:
        rows = list(r)
except Exception:
    sys.exit(1)
sys.exit(0 if rows == [['a"b\\tc', 'd']] else 1)
'''),
    dict(id='p02-comment-after-trim', property='P02',
         needs='a skipped blank row with empty cells directly after the rows to skip, with skipBlankRows',
         breaks='rows consisting of blanks only count as blank rows although not trimmed',
         edits=[('dsv.py', "((not row or set(row) == {''}) and self.dialect.skipBlankRows) or \\",
                 "((not ''.join(row).strip(' ')) and self.dialect.skipBlankRows) or \\")],
         demo='''
from csvw.dsv import UnicodeReader
from csvw.dsv_dialects import Dialect
with UnicodeReader(['a,b', ' , ', 'c,d'], dialect=Dialect(skipBlankRows=True)) as r:
    rows = list(r)
sys.exit(0 if rows == [['a', 'b'], [' ', ' '], ['c', 'd']] else 1)
'''),
    dict(id='p02-lineno-crlf', property='P02',
         needs='a quoted cell in the last column containing a line break',
         breaks='line breaks in the last cell of a row do not count for line numbers',
         edits=[('dsv.py', "        self.lineno += sum([list(s).count('\\n') for s in row])",
                 "        self.lineno += sum([list(s).count('\\n') for s in row[:-1] or row])")],
         demo='''
from csvw.dsv import UnicodeReaderWithLineNumber
with UnicodeReaderWithLineNumber(['a,b\\n', 'c,"d\\n', 'e"\\n', 'f,g\\n']) as r:
    nos = [n for n, _ in r]
sys.exit(0 if nos == [1, 3, 4] else 1)
'''),
    dict(id='p03-move-in-with', property='P03',
         needs='a failure between moving the temporary file and flushing the writer: more rows than fit a buffer',
         breaks='the temporary file replaces the target before it is closed, so buffered rows are lost to readers on failure',
         edits=[('dsv.py',
                 "                if row is not None:\n                    writer.writerow(row)\n    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+",
                 "                if row is not None:\n                    writer.writerow(row)\n            shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+")],
         demo='''
import pathlib, tempfile, shutil
from csvw import dsv
d = pathlib.Path(tempfile.mkdtemp())
try:
    p = d / 't.csv'
    p.write_text('a,b\\n1,2\\n')
    sizes = []
    move = shutil.move
    dsv.shutil = type('M', (), {'move': staticmethod(lambda a, b: (sizes.append(pathlib.Path(a).stat().st_size), move(a, b)))})
    dsv.rewrite(p, lambda i, r: r)
    ok = sizes and sizes[0] > 0
finally:
    shutil.rmtree(str(d))
sys.exit(0 if ok else 1)
'''),
    dict(id='p03-count-blank', property='P03',
         needs='a header-only first row and a filter rejecting a row whose first cell is empty',
         breaks='rejected rows with an empty first cell are not counted as removed',
         edits=[('dsv.py', "            else:\n                self.removed += 1", "            elif row[0] or len(row) == 1:\n                self.removed += 1")],
         demo='''
import pathlib, tempfile, shutil
from csvw import dsv
d = pathlib.Path(tempfile.mkdtemp())
try:
    p = d / 't.csv'
    p.write_text('a,b\\n,2\\n3,4\\n')
    n = dsv.filter_rows_as_dict(p, lambda r: False)
finally:
    shutil.rmtree(str(d))
sys.exit(0 if n == 2 else 1)
'''),
    dict(id='p04-zip-open', property='P04',
         needs='reading a table from its zip file',
         breaks='the archive is never closed',
         edits=[('metadata.py', "                        zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))",
                 "                        zipf = zipfile.ZipFile(str(zipfname))")],
         demo='''
import pathlib, tempfile, shutil, zipfile
from csvw import Table
d = pathlib.Path(tempfile.mkdtemp())
opened = []
class Z(zipfile.ZipFile):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        opened.append(self)
try:
    with zipfile.ZipFile(str(d / 't.csv.zip'), 'w') as z:
        z.writestr('t.csv', 'a,b\\n1,2\\n')
    t = Table.fromvalue({'url': 't.csv'})
    t._fname = d / 'md.json'
    zipfile.ZipFile = Z
    rows = list(t)
    ok = len(rows) == 1 and opened and all(z.fp is None for z in opened)
finally:
    shutil.rmtree(str(d))
sys.exit(0 if ok else 1)
'''),
    dict(id='p05-restkey-surplus', property='P05',
         needs='a row with exactly one surplus cell that is empty',
         breaks='an empty surplus cell is dropped instead of being kept under the rest key',
         edits=[('dsv.py', "        if lf < lr:\n            d[self.restkey] = row[lf:]",
                 "        if lf < lr and any(row[lf:]):\n            d[self.restkey] = row[lf:]")],
         demo='''
from csvw.dsv import UnicodeDictReader
with UnicodeDictReader(['a,b', '1,2,'], restkey='x') as r:
    rows = list(r)
sys.exit(0 if dict(rows[0]) == {'a': '1', 'b': '2', 'x': ['']} else 1)
'''),
    dict(id='p05-empty-fieldnames', property='P05',
         needs='rows read by a dict reader with field names given as an empty list of lines followed by blank rows',
         breaks='several consecutive empty rows: only the first is skipped',
         edits=[('dsv.py', "        while row == []:\n            row = super(UnicodeDictReader, self).__next__()\n        return self.item(row)",
                 "        if row == []:\n            row = super(UnicodeDictReader, self).__next__()\n        return self.item(row)")],
         demo='''
from csvw.dsv import UnicodeDictReader
with UnicodeDictReader(['a,b', '', '', '1,2']) as r:
    rows = [dict(d) for d in r]
sys.exit(0 if rows == [{'a': '1', 'b': '2'}] else 1)
'''),
]
