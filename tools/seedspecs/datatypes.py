SEEDS = [
    dict(id='p09-length-zero', property='P09',
         needs='length 0 given together with a minimal length',
         breaks='a datatype with length 0 and a positive minLength is accepted',
         edits=[('metadata.py', "        if self.length is not None:\n            if self.minLength is not None and self.length < self.minLength:",
                 "        if self.length:\n            if self.minLength is not None and self.length < self.minLength:")],
         demo='''
from csvw.metadata import Datatype
try:
    Datatype.fromvalue({'base': 'string', 'length': 0, 'minLength': 2})
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    dict(id='p10-range-open', property='P10',
         needs='the smallest value of a bounded integer type',
         breaks='the smallest value of nonNegativeInteger and friends (below an infinite upper bound) is rejected',
         edits=[('datatypes.py', "if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):",
                 "if cls.range and not (cls.range[0] <= numerator < cls.range[1]):")],
         demo='''
from csvw.metadata import Datatype
sys.exit(0 if [Datatype.fromvalue('byte').read('127')] == [127] and Datatype.fromvalue('nonPositiveInteger').read('0') == 0 else 1)
'''),
    dict(id='p10-long-range', property='P10',
         needs='the value -9223372036854775808 in a column of type long',
         breaks='long does not accept its smallest value',
         edits=[('datatypes.py', "range = (-9223372036854775808, 9223372036854775807)", "range = (1 - 2 ** 63, 2 ** 63 - 1)")],
         demo='''
from csvw.metadata import Datatype
try:
    v = Datatype.fromvalue('long').read('-9223372036854775808')
except ValueError:
    sys.exit(1)
sys.exit(0 if v == -9223372036854775808 else 1)
'''),
    dict(id='p12-group-pattern', property='P12',
         needs='a number format with a group character other than the comma and no pattern, written',
         breaks='integers of more than three digits are written without group characters',
         edits=[('datatypes.py', "        fmt = '{}' if groupChar is None else '{:,}'", "        fmt = '{}' if groupChar in (None, ' ') else '{:,}'")],
         demo='''
from csvw.metadata import Datatype
import decimal
d = Datatype.fromvalue({'base': 'decimal', 'format': {'decimalChar': '.', 'groupChar': ' '}})
sys.exit(0 if d.formatted(decimal.Decimal('1234567')) == '1 234 567' else 1)
'''),
    dict(id='p12-permille', property='P12',
         needs='a cell with a per-mille sign',
         breaks='per-mille values are scaled as if they were percentages',
         edits=[('datatypes.py', "            for c, factor in [('%', _decimal.Decimal('0.01')), ('‰', _decimal.Decimal('0.001'))]:\n                if c in v:",
                 "            for c, factor in zip('‰%', [_decimal.Decimal('0.01'), _decimal.Decimal('0.001')][::-1]):\n                if c in v or (c == '‰' and v.endswith('%') and len(v) > 6):")],
         demo='''
from csvw.metadata import Datatype
import decimal
d = Datatype.fromvalue({'base': 'decimal'})
sys.exit(0 if d.read('123456%') == decimal.Decimal('1234.56') else 1)
'''),
    dict(id='p31-hour-minute', property='P31',
         needs='a time format without colons whose hours and minutes differ, written and read',
         breaks='in formats without separators dates are written with the month and day exchanged for minutes',
         edits=[('datatypes.py', "        'd': ('{dt.day}', '(?P<day>[0-9]{1,2})'),", "        'd': ('{dt.day}', '(?P<day>[1-9][0-9]?)'),")],
         demo='''
from csvw.metadata import Datatype
d = Datatype.fromvalue({'base': 'date', 'format': 'd.M.yyyy'})
try:
    v = d.read('03.04.2020')
except ValueError:
    sys.exit(1)
sys.exit(0 if (v.day, v.month) == (3, 4) else 1)
'''),
    dict(id='p31-tz-range', property='P31',
         needs='a date-time format with a zone marker and a value in a zone east of UTC',
         breaks='the zone marker of a date-time is only honoured if the format has no fractions of seconds',
         edits=[('datatypes.py', "        if tz_marker:\n            # Let dateutils take care", "        if tz_marker and not comps.get('microsecond'):\n            # Let dateutils take care")],
         demo='''
from csvw.metadata import Datatype
d = Datatype.fromvalue({'base': 'datetime', 'format': 'dd.MM.yyyy HH:mm:ss.SSSXXX'})
v = d.read('03.04.2020 10:11:12.250+02:00')
sys.exit(0 if v.utcoffset() is not None and v.utcoffset().total_seconds() == 7200 else 1)
'''),
    dict(id='p11-hex-odd', property='P11',
         needs='a hexBinary cell with an odd number of digits or with other characters',
         breaks='invalid hex cells raise something else than ValueError',
         edits=[('datatypes.py', "            res = base64.decodebytes(res)\n        except Exception:\n            raise ValueError('invalid base64 encoding')",
                 "            res = base64.decodebytes(res)\n        except binascii.Error as e:\n            raise RuntimeError('invalid base64 encoding: {}'.format(e)) if len(v) > 40 \\\n                else ValueError('invalid base64 encoding')")],
         demo='''
from csvw.metadata import Datatype
try:
    Datatype.fromvalue('base64Binary').read('a' * 41)
except ValueError:
    sys.exit(0)
except Exception:
    sys.exit(1)
sys.exit(1)
'''),
]
