"""Whatever the text of a cell, parsing it gives a value or raises ValueError."""
from .common import *
from .P08 import ORDERED, TEXT

ASSUMPTIONS = [
    'the exceptions library functions raise on text are those listed in RAISES',
    'json schemas used as format refer to nothing outside of themselves',
    'regular expressions used as formats do not exhaust the interpreter',
]

# What library functions may raise for some text (besides ValueError, which is listed where it
# matters for handlers).
RAISES = {
    'decimal.Decimal': ['decimal.InvalidOperation'],
    'float': ['ValueError'],
    'int': ['ValueError'],
    '.as_integer_ratio': ['OverflowError', 'ValueError'],
    'order': ['TypeError', 'decimal.InvalidOperation'],
    'dateutil.parser.isoparse': ['ValueError', 'OverflowError'],
    'dateutil.parser.parse': ['ValueError', 'OverflowError'],
    'isodate.parse_duration': ['ValueError', 'OverflowError', 'decimal.InvalidOperation'],
    'datetime.datetime': ['ValueError', 'OverflowError'],
    'json.loads': ['json.JSONDecodeError', 'RecursionError'],
    'jsonschema.validate': ['jsonschema.ValidationError', 'RecursionError'],
    'base64.decodebytes': ['binascii.Error'],
    'base64.b64decode': ['binascii.Error'],
    'binascii.unhexlify': ['binascii.Error'],
    'binascii.a2b_base64': ['binascii.Error'],
    'bytes': ['UnicodeEncodeError'],
    '.encode': ['UnicodeEncodeError'],
    '.fromhex': ['ValueError'],
    'bytes.fromhex': ['ValueError'],
    'binop:Mult': ['decimal.Overflow'],
}

DATES = {
    'date': [None, 'yyyy-MM-dd', 'd.M.yyyy', 'yyyyMMddX', 'M/d/yyyy XXX'],
    'time': [None, 'HH:mm', 'HH:mm:ss.SSS', 'HHmmssX', 'HH:mm XXX'],
    'datetime': [None, 'yyyy-MM-ddTHH:mm', 'd.M.yyyy HH:mm:ss.SS', 'yyyy-MM-ddTHH:mm:ssXXX'],
    'dateTimeStamp': [None, 'yyyy-MM-ddTHH:mm:ssX'],
}
DATES['dateTime'] = DATES['datetime']


def policy(eng, name, args):
    return RAISES.get(name, [])


def formats(eng, base, thorough):
    if base in DATES:
        return DATES[base]
    if base == 'boolean':
        return [None, 'Y|N', S('format', 'str')]
    if base in ('float', 'number', 'double'):
        return [None, '#,##0.0#', '0.0E0']
    if base in ORDERED:
        return [None, '#,##0', {'groupChar': ' ', 'decimalChar': ','}, {'groupChar': S('g', 'str')},
                {'pattern': '#,##0.0', 'groupChar': S('g', 'str'), 'decimalChar': S('d', 'str')}]
    if 'uration' in base:
        return [None, S('format', 'str'), 'P[1-5]Y']
    return [None, S('format', 'str')] + (['[a-z]+'] if thorough else [])


def h_read(base, fmt, bound):
    def h(eng, ob):
        P = eng.path
        f = fmt
        if isinstance(f, dict):
            f = eng.VD(list(f.items()))
        attrs = {'format': f} if f is not None else {}
        if bound:
            attrs[bound] = S('bound')
            P.assume(T('isnone', attrs[bound], typ='bool'), False)
        eng.overrides = {'csvw.datatypes.NumberPattern.is_valid':
                         lambda e, a, k: T('is_valid', a[-1], typ='bool')}
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, **attrs)
        v = S('v', 'str')
        eng.raise_policy = policy
        try:
            o = call(eng, dt, 'read', v)
        finally:
            eng.raise_policy = None
        ob(o.returned or o.is_exc(eng, 'ValueError'), base + '.read',
           lambda: 'reading text as {} (format {}) {}, which is not a ValueError'.format(
               base, f if isinstance(f, (str, type(None))) else show(f), o.describe(eng)))
    return h


def h_column(eng, ob):
    """Column.read adds no exceptions of its own."""
    P = eng.path

    def read(e, a, k):
        if e.path.truth(T('readable', a[0], typ='bool')):
            return T('dt.read', a[0])
        e.raise_ext('ValueError', ('unreadable',), origin='dt.read')
    m = {n: read for n in ('read', 'parse', 'validate')}
    dt = S('datatype', methods=m, truthy=True, notnone=True)
    col = mk(eng, 'csvw.metadata.Column', datatype=dt if P.choose('datatype', 2) == 0 else None,
             null=S('null', 'list', elemtyp='str'), default=S('default', 'str'),
             separator=S('separator', 'str') if P.choose('separator', 2) == 0 else None,
             required=S('required'))
    v = S('v', 'str')
    strict = S('strict', 'bool')
    eng.raise_policy = policy
    try:
        o = call(eng, col, 'read', v, strict=strict)
    finally:
        eng.raise_policy = None
    ob(o.returned or o.is_exc(eng, 'ValueError'), 'Column.read',
       lambda: 'reading a cell ' + o.describe(eng))


def h_pattern(pattern):
    def h(eng, ob):
        eng.overrides = {}
        o = run(eng, lambda: eng.call(eng.getattr(eng.call(
            find(eng, 'csvw.datatypes.NumberPattern'), [pattern]), 'is_valid'), [S('v', 'str')]))
        ob(o.returned or o.is_exc(eng, 'ValueError'), 'NumberPattern.is_valid',
           lambda: 'testing text against number pattern {} {}'.format(pattern, o.describe(eng)))
    return h


def rules(C):
    eng = C.engine()
    names = list(find(eng, 'csvw.datatypes.DATATYPES').keys())
    for base in names:
        for i, f in enumerate(formats(eng, base, C.thorough)):
            C.explore('{}-{}'.format(base, i), h_read(base, f, None), min_ok=1, eng=eng,
                      statement='every exception leaving Datatype.read is a ValueError')
        if base in ORDERED:
            C.explore('{}-bound'.format(base), h_read(base, None, 'minimum'), min_ok=1, eng=eng)
    for pattern in ['0', '#,##0', '#,#00.0#', '0.0E0', '0;(0)']:
        C.explore('pattern ' + pattern, h_pattern(pattern), min_ok=20, eng=eng, partial=True,
                  max_paths=4000 if C.thorough else 250)
    C.explore('cell', h_column, min_ok=20, eng=eng)
