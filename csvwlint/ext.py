"""Models of the language's built-in types and functions and of the libraries the package uses."""
import io
import re
import string
import decimal
import datetime
import pathlib
import collections

from .values import (
    V, Sym, Term, Rest, Heap, VList, VDict, Inst, Env, Module, Func, Bound, Cls, Ext, BMethod,
    Native, Partial, Descr, Attrib, Iter, Super, Exc, Match, is_const, key, freeze, show)
from .path import Infeasible, Imprecise, neg, _NO, seq_items, CONTAINER



class AnyFile(io.TextIOWrapper):
    """members any file object may have"""
    getvalue = getbuffer = read1 = peek = file = delete = readinto = io.TextIOWrapper.read


TYP_REAL = {
    'str': str, 'bytes': bytes, 'int': int, 'bool': bool, 'float': float, 'list': list,
    'tuple': tuple, 'dict': dict, 'OrderedDict': collections.OrderedDict, 'set': set,
    'none': type(None), 'decimal': decimal.Decimal, 'path': pathlib.Path,
    'datetime': datetime.datetime, 'pattern': re.Pattern, 'match': re.Match,
    'frozenset': frozenset, 'iter': type(iter([])), 'file': AnyFile,
}
CONSTS = {
    'typing.TYPE_CHECKING': False,
    'sys.maxsize': 2 ** 63 - 1,
}
EXT_EXC = {
    'jsonschema.ValidationError': ['Exception'],
    'jsonschema.SchemaError': ['Exception'],
    'jsonschema.exceptions.ValidationError': ['Exception'],
    'requests.RequestException': ['OSError'],
    'rfc3986.exceptions.RFC3986Exception': ['Exception'],
    'isodate.ISO8601Error': ['ValueError'],
    'dateutil.parser.ParserError': ['ValueError'],
}
FOLD = {
    'int', 'float', 'abs', 'min', 'max', 'sum', 'ord', 'chr', 'repr', 'round', 'bytes', 'divmod',
    'pow', 'format', 'ascii', 'hex', 'bin',
    're.compile', 're.match', 're.fullmatch', 're.search', 're.sub', 're.escape', 're.split',
    're.findall', 'decimal.Decimal', 'math.isnan', 'math.isinf', 'math.floor', 'math.ceil',
    'unicodedata.normalize', 'unicodedata.category', 'html.escape', 'binascii.hexlify',
    'urllib.parse.urljoin', 'urllib.parse.urlparse', 'urllib.parse.urlunparse', 'urllib.parse.urlsplit',
    'urllib.parse.urlunsplit', 'urllib.parse.urldefrag', 'urllib.parse.quote', 'urllib.parse.unquote',
    'os.path.join', 'os.path.basename', 'os.path.dirname', 'keyword.iskeyword',
    'str.maketrans',
}
# name -> (typ, elemtyp, ext)
RESULT = {
    'io.open': ('file', 'str', None), 'open': ('file', 'str', None),
    'io.StringIO': ('file', 'str', None), 'io.BytesIO': ('file', 'bytes', None),
    'io.TextIOWrapper': ('file', 'str', None),
    'csv.reader': ('iter', ('list', 'str'), 'csv.reader'),
    'csv.writer': ('obj', None, 'csv.writer'),
    'csv.DictReader': ('iter', ('dict', 'str'), None),
    'pathlib.Path': ('path', None, None), 'pathlib.PurePath': ('path', None, None),
    'pathlib.PurePosixPath': ('path', None, None),
    'tempfile.NamedTemporaryFile': ('file', 'str', None),
    'tempfile.mkstemp': ('tuple', None, None),
    'tempfile.mkdtemp': ('str', None, None),
    're.match': (None, None, None), 're.search': (None, None, None),
    're.compile': ('pattern', None, None), 're.escape': ('str', None, None),
    're.sub': ('str', None, None), 're.split': ('list', 'str', None),
    're.findall': ('list', 'str', None),
    'json.dumps': ('str', None, None),
    'decimal.Decimal': ('decimal', None, None), 'float': ('float', None, None),
    'int': ('int', None, None), 'abs': ('int', None, None), 'repr': ('str', None, None),
    'chr': ('str', None, None), 'ord': ('int', None, None), 'bytes': ('bytes', None, None),
    'sqlite3.connect': ('obj', None, 'sqlite3.Connection'),
    'zipfile.ZipFile': ('obj', None, 'zipfile.ZipFile'),
    'requests.get': ('obj', None, 'requests.Response'),
    'requests.head': ('obj', None, 'requests.Response'),
    'urllib.parse.urlparse': ('obj', None, None), 'urllib.parse.urljoin': ('str', None, None),
    'urllib.parse.urlunparse': ('str', None, None),
    'shutil.which': (None, None, None),
    'shutil.move': (None, None, None),
    'html.escape': ('str', None, None),
    'binascii.hexlify': ('bytes', None, None), 'binascii.unhexlify': ('bytes', None, None),
    'base64.encodebytes': ('bytes', None, None), 'base64.decodebytes': ('bytes', None, None),
    'math.isnan': ('bool', None, None), 'math.isinf': ('bool', None, None),
    'unicodedata.normalize': ('str', None, None), 'unicodedata.category': ('str', None, None),
    'babel.dates.format_datetime': ('str', None, None),
    'babel.dates.format_date': ('str', None, None), 'babel.dates.format_time': ('str', None, None),
    'babel.numbers.format_decimal': ('str', None, None),
    'isodate.parse_duration': ('obj', None, None),
    'isodate.duration_isoformat': ('str', None, None),
    'dateutil.parser.isoparse': ('datetime', None, None),
    'dateutil.parser.parse': ('datetime', None, None),
    'datetime.datetime.now': ('datetime', None, None), 'datetime.date.today': ('datetime', None, None),
    'datetime.datetime': ('datetime', None, None),
    'rfc3986.normalize_uri': ('str', None, None),
    'rfc3986.URIReference.from_string': ('obj', None, 'rfc3986.URIReference'),
    'termcolor.colored': ('str', None, None),
    'language_tags.tags.check': ('bool', None, None),
    'codecs.lookup': ('obj', None, 'codecs.CodecInfo'),
    'min': (None, None, None), 'hash': ('int', None, None), 'id': ('int', None, None),
    'os.path.exists': ('bool', None, None), 'os.path.isfile': ('bool', None, None),
    'os.path.join': ('str', None, None),
    'rdflib.URIRef': ('obj', None, 'rdflib.URIRef'), 'rdflib.Literal': ('obj', None, 'rdflib.Literal'),
    'rdflib.Graph': ('obj', None, 'rdflib.Graph'),
}
FRESH = {
    'io.open', 'open', 'io.StringIO', 'io.BytesIO', 'io.TextIOWrapper', 'csv.reader', 'csv.writer',
    'tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'sqlite3.connect', 'zipfile.ZipFile',
    'requests.get', 'requests.head', 'rdflib.Graph', 'csv.DictReader', 'object',
    'argparse.ArgumentParser', 'subprocess.check_output',
}
PURE_EVENTS = ()
MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------------------------ folding
def is_url(v):
    """the parts of a constant URL"""
    return isinstance(v, tuple) and type(v).__module__ == 'urllib.parse'


def to_py(v):
    """python object of a fully known value (or _NO)"""
    if is_url(v):
        return v
    if isinstance(v, tuple):
        r = [to_py(x) for x in v]
        return _NO if any(x is _NO for x in r) else tuple(r)
    if isinstance(v, Match):
        return v.m
    if is_const(v):
        return v
    if isinstance(v, VList):
        r = [to_py(x) if not isinstance(x, Rest) else _NO for x in v.items]
        return _NO if any(x is _NO for x in r) else r
    if isinstance(v, VDict):
        if v.rest:
            return _NO
        r = [(to_py(e[0]), to_py(e[1])) for e in v.d.values()]
        if any(x is _NO or y is _NO for x, y in r):
            return _NO
        try:
            return set(x for x, y in r) if v.isset else dict(r)
        except TypeError:
            return _NO
    if isinstance(v, Ext) and v.name in ('collections.OrderedDict',):
        return collections.OrderedDict
    return _NO


def from_py(eng, v):
    if isinstance(v, re.Match):
        return Match(v)
    if is_url(v):
        return v
    if isinstance(v, tuple):
        return tuple(from_py(eng, x) for x in v)
    if isinstance(v, list):
        return eng.VL([from_py(eng, x) for x in v])
    if isinstance(v, (dict,)):
        return eng.VD([(from_py(eng, k), from_py(eng, x)) for k, x in v.items()],
                      cls='OrderedDict' if isinstance(v, collections.OrderedDict) else 'dict')
    if isinstance(v, (set, frozenset)):
        return eng.VD([(x, x) for x in sorted(v, key=repr)], isset=True)
    if isinstance(v, str) and type(v) is not str:
        return str(v)
    if is_const(v):
        return v
    return _NO


def fold(eng, real, args, kw):
    a = [to_py(x) for x in args]
    k = {n: to_py(x) for n, x in kw.items()}
    if any(x is _NO for x in a) or any(x is _NO for x in k.values()):
        return _NO
    try:
        r = real(*a, **k)
    except Exception as e:
        name = type(e).__name__
        mod = type(e).__module__
        if mod != 'builtins':
            name = mod.split('.')[0] + '.' + name if mod not in ('re._constants', '_decimal') else (
                're.error' if mod.startswith('re') else 'decimal.' + name)
            if isinstance(e, re.error):
                name = 're.error'
        raise eng.raised(Exc(Ext(name), (str(e),)))
    if isinstance(r, (map, filter, zip)):
        r = list(r)
    return from_py(eng, r)


# ------------------------------------------------------------------------------------ strings
def cat(eng, parts):
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == 'cat':
            sub = list(p.args)
        else:
            sub = [p]
        for s in sub:
            if isinstance(s, str):
                if not s:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
            out.append(s)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return Term('cat', out, typ='str')


def strval(eng, v):
    if isinstance(v, str):
        return v
    if is_const(v):
        if isinstance(v, (re.Pattern, Match)):
            return Term('str', (repr(v),), typ='str')
        return str(v)
    if isinstance(v, Inst):
        m = eng.class_attr(v.cls, '__str__')
        if m is not None:
            return eng.call(m, [v])
        if v.attrs.get('__ext_args__') and any(b.name == 'uritemplate.URITemplate' for b in eng.ext_bases(v.cls)):
            return strval(eng, v.attrs['__ext_args__'][0])
        return Term('str', (v,), typ='str')
    if isinstance(v, (Cls,)):
        return "<class '{}'>".format(v.qualname)
    if isinstance(v, BMethod):
        v = eng.force_attr(v)
    if isinstance(v, Sym) and '__str__' in v.methods:
        return v.methods['__str__'](eng, [], {})
    if eng.path.typ(v) == 'str':
        return v
    if const_path(v) is not None:
        return str(const_path(v))
    if isinstance(v, tuple):
        py = to_py(v)
        if py is not _NO:
            return str(py)
    kc = eng.path.known_const(v) if isinstance(v, (Sym, Term)) else _NO
    return Term('str', (v,), typ='str')


def fmt_value(eng, v, spec='', conv=None):
    if isinstance(v, BMethod):
        v = eng.force_attr(v)
    if conv == 'r':
        if is_const(v) and not isinstance(v, Match):
            v = repr(v)
        else:
            v = Term('repr', (v,), typ='str')
    elif conv in ('s', 'a'):
        v = strval(eng, v)
    if spec == '' or (spec == 's' and eng.path.typ(v) == 'str'):
        return strval(eng, v)
    if is_const(v) and isinstance(spec, str) and not isinstance(v, Match):
        try:
            return format(v, spec)
        except Exception as e:
            eng.raise_ext(type(e).__name__, (str(e),))
    return Term('fmt', (v, spec), typ='str')


def str_format(eng, s, args, kw):
    parts = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError as e:
        eng.raise_ext('ValueError', (str(e),))
    for lit, field, spec, conv in fields:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        m = re.match(r'[^.\[]*', field)
        head, rest = m.group(0), field[m.end():]
        if head == '':
            head = str(auto)
            auto += 1
        if head.isdigit():
            if int(head) >= len(args):
                eng.raise_ext('IndexError', ('Replacement index out of range',))
            v = args[int(head)]
        else:
            if head not in kw:
                eng.raise_ext('KeyError', (head,))
            v = kw[head]
        for acc in re.findall(r'\.[^.\[]+|\[[^\]]*\]', rest):
            if acc.startswith('.'):
                v = eng.getattr_value(v, acc[1:])
            else:
                k = acc[1:-1]
                v = getitem(eng, v, int(k) if k.isdigit() else k)
        if spec and '{' in spec:
            spec = str_format(eng, spec, args, kw)
        parts.append(fmt_value(eng, v, spec or '', conv))
    return cat(eng, parts)


def str_percent(eng, s, v):
    if isinstance(v, VDict):
        kwv = v
        vals = None
    else:
        vals = list(v) if isinstance(v, tuple) else [v]
        kwv = None
    parts, pos, i = [], 0, 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])', s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            parts.append('%')
            continue
        if m.group(1):
            x = getitem(eng, kwv, m.group(1))
        else:
            if vals is None or i >= len(vals):
                eng.raise_ext('TypeError', ('not enough arguments for format string',))
            x = vals[i]
            i += 1
        if is_const(x):
            try:
                parts.append(m.group(0).replace('({})'.format(m.group(1)), '') % (x,))
            except Exception as e:
                eng.raise_ext(type(e).__name__, (str(e),))
        elif m.group(5) in 'sd' and not m.group(2) and not m.group(3):
            parts.append(strval(eng, x))
        elif m.group(5) == 'r':
            parts.append(fmt_value(eng, x, '', 'r'))
        else:
            parts.append(Term('fmt', (x, m.group(0)), typ='str'))
    parts.append(s[pos:])
    if vals is not None and i < len(vals):
        eng.raise_ext('TypeError', ('not all arguments converted',))
    return cat(eng, parts)


STR_RES = {
    'strip': 'str', 'lstrip': 'str', 'rstrip': 'str', 'lower': 'str', 'upper': 'str',
    'replace': 'str', 'format': 'str', 'join': 'str', 'title': 'str', 'capitalize': 'str',
    'ljust': 'str', 'rjust': 'str', 'zfill': 'str', 'center': 'str', 'casefold': 'str',
    'swapcase': 'str', 'translate': 'str', 'expandtabs': 'str', 'removeprefix': 'str',
    'removesuffix': 'str', 'format_map': 'str',
    'split': ('list', 'str'), 'rsplit': ('list', 'str'), 'splitlines': ('list', 'str'),
    'partition': ('tuple', 'str'), 'rpartition': ('tuple', 'str'),
    'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool', 'isspace': 'bool',
    'isalpha': 'bool', 'isalnum': 'bool', 'isnumeric': 'bool', 'isdecimal': 'bool',
    'isupper': 'bool', 'islower': 'bool', 'isidentifier': 'bool', 'isascii': 'bool',
    'istitle': 'bool', 'isprintable': 'bool',
    'find': 'int', 'rfind': 'int', 'index': 'int', 'rindex': 'int', 'count': 'int',
    'encode': 'bytes',
}
GENERIC_RES = {
    '.groups': ('tuple', None), '.groupdict': ('dict', None), '.isoformat': ('str', None),
    '.decode': ('str', None), '.read_text': ('str', None), '.exists': ('bool', None),
    '.is_file': ('bool', None), '.is_dir': ('bool', None), '.namelist': ('list', 'str'),
    '.getvalue': ('str', None), '.readlines': ('list', 'str'), '.fetchall': ('list', None),
    '.unsplit': ('str', None), '.geturl': ('str', None), '.serialize': ('str', None),
    '.joinpath': ('path', None), '.resolve': (None, None), '.with_suffix': ('path', None),
    '.with_name': ('path', None), '.absolute': ('path', None), '.start': ('int', None),
    '.end': ('int', None), '.group': (None, None),
}


# ------------------------------------------------------------------------------------ members
def has_member(obj, name):
    if isinstance(obj, VList):
        return hasattr(list, name)
    if isinstance(obj, VDict):
        py = set if obj.isset else (
            collections.OrderedDict if obj.cls == 'OrderedDict' else
            collections.defaultdict if obj.cls == 'defaultdict' else
            collections.Counter if obj.cls == 'Counter' else dict)
        return hasattr(py, name)
    if isinstance(obj, Iter):
        return name in getattr(obj, 'attrs', ()) or name in ('__next__', '__iter__', 'close', 'send', 'throw')
    if isinstance(obj, Match):
        return hasattr(re.Match, name)
    return hasattr(type(obj), name)


def data_member(eng, obj, name):
    if isinstance(obj, re.Pattern) and name in ('pattern', 'flags', 'groups'):
        return getattr(obj, name)
    if isinstance(obj, re.Pattern) and name == 'groupindex':
        return from_py(eng, dict(obj.groupindex))
    if is_url(obj) and name in obj._fields + ('hostname', 'port', 'username', 'password'):
        return getattr(obj, name)
    if name == '__doc__':
        return None
    return _NO


PROPERTY_NAMES = {
    'name', 'parent', 'stem', 'suffix', 'suffixes', 'parts', 'year', 'month', 'day', 'hour',
    'minute', 'second', 'microsecond', 'tzinfo', 'scheme', 'netloc', 'path', 'query', 'fragment',
    'text', 'content', 'status_code', 'headers', 'links', 'uri', 'description', 'line_num',
    'value', 'message', 'pattern',
}
ATTR_TYP = {
    'name': 'str', 'parent': 'path', 'stem': 'str', 'suffix': 'str', 'text': 'str', 'uri': 'str',
    'content': 'bytes', 'line_num': 'int', 'year': 'int', 'month': 'int', 'day': 'int',
}


def const_path(v):
    """the real path of a constant path term"""
    if isinstance(v, Term) and v.op in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PurePosixPath') and (
            len(v.args) == 1 and isinstance(v.args[0], str)):
        return pathlib.PurePosixPath(v.args[0])


def path_term(v):
    return Term('pathlib.Path', (str(v),), typ='path') if isinstance(v, pathlib.PurePath) else v


def attr_term(eng, obj, name):
    cp = const_path(obj)
    if cp is not None and name in ('name', 'stem', 'suffix', 'parent'):
        return path_term(getattr(cp, name))
    typ = None
    if eng.path.typ(obj) == 'path' and name in ('name', 'stem', 'suffix'):
        typ = 'str'
    elif name in ATTR_TYP and name != 'name':
        typ = ATTR_TYP[name]
    if isinstance(obj, Sym) and obj.ext == 'argparse.Namespace':
        typ = None
    if eng.path.typ(obj) == 'file' and name == 'name':
        typ = 'str'
    return Term('attr:' + name, (obj,), typ=typ)


def type_of(eng, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, VList):
        return Ext('list')
    if isinstance(v, VDict):
        return Ext('set' if v.isset else 'dict' if v.cls == 'dict' else 'collections.' + v.cls)
    if isinstance(v, tuple):
        return Ext('tuple')
    if isinstance(v, Exc):
        return v.cls
    if is_const(v):
        n = type(v).__name__
        return Ext('decimal.Decimal' if n == 'Decimal' else n)
    if isinstance(v, Cls):
        return Ext('type')
    t = eng.path.typ(v)
    if t in TYP_REAL:
        real = TYP_REAL[t]
        return Ext(real.__name__ if real.__module__ == 'builtins' else '{}.{}'.format(
            real.__module__, real.__name__))
    return Term('type', (v,))


# ------------------------------------------------------------------------------------ containers
def splice(eng, v):
    """elements for *v"""
    if isinstance(v, VList):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, VDict):
        return v.keys() + list(v.rest)
    if isinstance(v, Term) and v.op in ('list', 'set'):
        return list(v.args)
    if isinstance(v, BMethod):
        v = eng.force_attr(v)
    if isinstance(v, (Sym, Term)):
        if eng.path.isnone(v):
            eng.raise_ext('TypeError', ('NoneType object is not iterable',))
        if isinstance(v, Term) and v.op in ('list_of', 'tuple_of'):
            return [Rest(v.args[0])]
        return [Rest(v)]
    if isinstance(v, Iter) and v.src is not None:
        return [Rest(v.src if not v.pos else Term('slice', (v.src, v.pos, None, None), typ='list'))]
    if isinstance(v, Iter) and getattr(v, 'comp', None):
        lst = eng.VL(())
        return splice(eng, materialise(eng, v))
    out = eng.VL(())
    for x in eng.iterate(v, 'splice'):
        list_append(eng, out, x)
    return list(out.items)


def materialise(eng, v):
    """list(v) for iterables, keeping maps over unknown sequences symbolic"""
    out = eng.VL(())
    comp = getattr(v, 'comp', None) if isinstance(v, Iter) else None
    if comp is not None:
        v.comp = None
    for x in eng.iterate(v, 'list'):
        list_append(eng, out, x)
    if comp is not None:
        return map_result(eng, comp[0], comp[1], out)
    return out


def opaque_src(eng, src):
    """the unknown sequence a comprehension ranges over (None if explicit)"""
    if isinstance(src, (Sym, Term)) and not (isinstance(src, Term) and src.op in (
            'list', 'set', 'dict')):
        return src
    if isinstance(src, Iter) and src.src is not None and getattr(src, 'pos', 0) == 0:
        return src.src
    if isinstance(src, VList) and len(src.items) == 1 and isinstance(src.items[0], Rest) \
            and not src.items[0].template:
        return src.items[0].src
    return None


def map_result(eng, node, src, out):
    """Turn the result of one representative iteration into a term for the whole sequence."""
    s = opaque_src(eng, src)
    if s is None or len(node.generators) != 1 or not isinstance(out, VList):
        return out
    if len(out.items) == 1 and not isinstance(out.items[0], Rest):
        t = out.items[0]
        if node.generators[0].ifs:
            m = Term('filtermap', (s, t), typ='list', elemtyp=eng.path.typ(t))
        elif key(t) == key(eng.elem(s)):
            m = s
        else:
            m = Term('map', (s, t), typ='list', elemtyp=eng.path.typ(t))
        out.items = [Rest(m)]
    return out


def list_append(eng, lst, x):
    eng.mut(lst, '[]')
    lst.items.append(x)


def list_extend(eng, lst, v):
    items = splice(eng, v)
    eng.mut(lst, '[]')
    lst.items.extend(items)


def set_add(eng, s, x):
    eng.mut(s, '{}')
    check_hashable(eng, x)
    if isinstance(x, (Sym, Term)) or s.rest:
        pass
    if key(x) not in s.d:
        s.d[key(x)] = [x, x]


def check_hashable(eng, x):
    if isinstance(x, (VList, VDict)):
        eng.raise_ext('TypeError', ('unhashable type',))
    if isinstance(x, (Sym, Term)) and eng.path.typ(x) in ('list', 'dict', 'set'):
        eng.raise_ext('TypeError', ('unhashable type',))


def set_update(eng, s, v):
    if isinstance(v, VDict):
        items = v.keys() + list(v.rest)
    else:
        items = splice(eng, v)
    eng.mut(s, '{}')
    for x in items:
        if isinstance(x, Rest):
            s.rest.append(x)
        else:
            set_add(eng, s, x)


def find_entry(eng, d, k):
    """entry of dict d for key k, deciding equality with unknown keys; None if absent"""
    kk = key(k)
    if kk in d.d:
        return d.d[kk]
    if isinstance(k, bool) and key(int(k)) in d.d:
        return d.d[key(int(k))]
    if isinstance(k, tuple) and d.d:
        for e in d.d.values():
            if isinstance(e[0], tuple) and len(e[0]) == len(k) and eng.path.eq(e[0], k):
                return e
        return None
    if isinstance(k, (Sym, Term)) or not all(is_const(e[0]) for e in d.d.values()):
        for e in list(d.d.values()):
            if is_const(k) and is_const(e[0]):
                continue
            if isinstance(e[0], (Func, Cls, Inst)) or isinstance(k, (Func, Cls, Inst)):
                continue
            if eng.equal(k, e[0]):
                return e
    return None


def dict_set(eng, d, k, v):
    check_hashable(eng, k)
    e = find_entry(eng, d, k)
    eng.mut(d, '{}')
    if e is not None:
        e[1] = v
        d.d[key(e[0])] = [e[0], v]
    else:
        d.d[key(k)] = [k, v]


def dict_items_of(eng, v):
    """(pairs, rests) of a mapping or an iterable of pairs"""
    if isinstance(v, Inst) and v.payload is not None:
        v = v.payload
    if isinstance(v, VDict):
        return v.pairs(), list(v.rest)
    if isinstance(v, Term) and v.op == 'dict':
        return [a for a in v.args if not isinstance(a, Rest)], [
            a for a in v.args if isinstance(a, Rest)]
    if isinstance(v, (Sym, Term)):
        return [], [Rest(v)]
    pairs = []
    rests = []
    for x in (v.items if isinstance(v, VList) else eng.iterate(v, 'dict')):
        if isinstance(x, Rest):
            rests.append(x)
            continue
        a = eng.unpack(x, [None, None])
        pairs.append((a[0], a[1]))
    return pairs, rests


def dict_update(eng, d, v):
    pairs, rests = dict_items_of(eng, v)
    for k, x in pairs:
        dict_set(eng, d, k, x)
    if rests:
        eng.mut(d, '{}')
        for r in rests:
            if isinstance(v, (Sym, Term)) and isinstance(r.src, (Sym, Term)) and isinstance(
                    v, Sym) and v.typ is None:
                pass
            d.rest.append(r)


def kw_update(eng, kw, v):
    pairs, rests = dict_items_of(eng, v)
    for k, x in pairs:
        if not isinstance(k, str):
            if isinstance(k, (Sym, Term)):
                if not isinstance(v, (Sym, Term)):
                    v = eng.VD([(a, b) for a, b in pairs]) if not rests else freeze(v)
                kw['**'] = v
                return
            eng.raise_ext('TypeError', ('keywords must be strings',))
        if k in kw:
            eng.raise_ext('TypeError', ("got multiple values for keyword argument '{}'".format(k),))
        kw[k] = x
    if rests:
        if len(rests) == 1 and '**' not in kw:
            kw['**'] = rests[0].src
        else:
            kw['**'] = Term('dict', tuple(rests), typ='dict')


def dict_get(eng, d, k, default):
    e = find_entry(eng, d, k)
    if e is not None:
        return e[1]
    for r in reversed(d.rest):
        if eng.path.in_src(k, r.src):
            return opaque_getitem(eng, r.src, k)
    if default is _NO:
        if d.cls == 'defaultdict' and d.default is not None:
            v = eng.call(d.default, [])
            dict_set(eng, d, k, v)
            return v
        if d.cls == 'Counter':
            return 0
        eng.raise_ext('KeyError', (k,))
    return default


def opaque_getitem(eng, o, i):
    et = o.elemtyp if isinstance(o, (Sym, Term)) else None
    t, sub = (et[0], et[1]) if isinstance(et, tuple) else (et, None)
    if t is None and eng.path.typ(o) == 'str':
        t = 'str'
    if isinstance(o, Sym) and '__getitem__' in o.methods:
        return o.methods['__getitem__'](eng, [i], {})
    return Term('getitem', (o, i), typ=t, elemtyp=sub)


def getitem(eng, o, i):
    p = eng.path
    if isinstance(o, BMethod):
        o = eng.force_attr(o)
    if isinstance(i, slice):
        return do_slice(eng, o, i)
    if isinstance(o, VDict) and not o.isset:
        return dict_get(eng, o, i, _NO)
    if isinstance(o, Term) and o.op == 'cat' and isinstance(o.args[0], str) and isinstance(
            i, int) and 0 <= i < len(o.args[0]):
        return o.args[0][i]
    if isinstance(o, (VList, tuple)) or (isinstance(o, Term) and o.op == 'list'):
        items = o.items if isinstance(o, VList) else list(o.args) if isinstance(o, Term) else list(o)
        if is_const(i) and isinstance(i, int):
            if not any(isinstance(x, Rest) for x in items):
                try:
                    return items[i]
                except IndexError:
                    eng.raise_ext('IndexError', ('list index out of range',))
            if i >= 0:
                for j, x in enumerate(items[:i + 1]):
                    if isinstance(x, Rest):
                        if len(items) == 1 or j == len(items) - 1:
                            return opaque_index(eng, x.src, i - j)
                        return Term('getitem', (freeze(o), i))
                return items[i]
            for j, x in enumerate(reversed(items)):
                if isinstance(x, Rest):
                    if len(items) == 1:
                        return opaque_index(eng, x.src, i)
                    return Term('getitem', (freeze(o), i))
                if j == -i - 1:
                    return x
            eng.raise_ext('IndexError', ('list index out of range',))
        if len(items) == 0:
            eng.raise_ext('IndexError', ('list index out of range',))
        if isinstance(i, (Sym, Term)):
            if isinstance(i, Term) and i.op == 'idx' and len(items) == 1 and isinstance(
                    items[0], Rest):
                return opaque_index(eng, items[0].src, i)
            return Term('getitem', (freeze(o), i))
        eng.raise_ext('TypeError', ('list indices must be integers',))
    if isinstance(o, (str, bytes)):
        if is_const(i):
            try:
                return o[i]
            except IndexError:
                eng.raise_ext('IndexError', ('string index out of range',))
            except TypeError:
                eng.raise_ext('TypeError', ('string indices must be integers',))
        return Term('getitem', (o, i), typ='str')
    if isinstance(o, Inst):
        m = eng.class_attr(o.cls, '__getitem__')
        if m is not None:
            return eng.call(m, [o, i])
        if o.payload is not None:
            return getitem(eng, o.payload, i)
        nt = [c for c in o.cls.mro if isinstance(c, Cls) and getattr(c, 'namedtuple', None)]
        if nt and isinstance(i, int):
            return o.attrs[nt[0].namedtuple[i]]
        return Term('getitem', (o, i))
    if isinstance(o, Match):
        return from_py(eng, o.m[i])
    if isinstance(o, Ext):
        return Ext(o.name)      # typing.List[...] and friends
    if o is None or (isinstance(o, (Sym, Term)) and p.isnone(o)):
        eng.raise_ext('TypeError', ("'NoneType' object is not subscriptable",))
    if isinstance(o, (Sym, Term)):
        if isinstance(o, Sym) and '__getitem__' in o.methods:
            return o.methods['__getitem__'](eng, [i], {})
        if isinstance(o, Term) and o.op == 'dict':
            for a in o.args:
                if not isinstance(a, Rest) and key(a[0]) == key(i):
                    return a[1]
        t = p.typ(o)
        if t == 'dict' or t == 'OrderedDict':
            if not p.in_src(i, o):
                eng.raise_ext('KeyError', (i,))
            return opaque_getitem(eng, o, i)
        return opaque_index(eng, o, i)
    if isinstance(o, Cls):
        return o
    if isinstance(o, (int, float, bool)):
        eng.raise_ext('TypeError', ('object is not subscriptable',))
    raise Imprecise('subscript of {}'.format(show(o)))


def opaque_index(eng, o, i):
    p = eng.path
    if isinstance(i, int) and not isinstance(i, bool) and p.typ(o) in ('list', 'str', 'tuple', 'bytes'):
        n = eng.length(o)
        if isinstance(o, Term) and o.op in ('.split', '.rsplit', '.partition', '.rpartition') and i in (
                0, -1):
            pass
        elif isinstance(o, Term) and o.op in ('.partition', '.rpartition') and -3 <= i <= 2:
            pass
        elif i >= 0:
            if not p.lt(i, n):
                eng.raise_ext('IndexError', ('list index out of range',))
        elif not p.lt(-i - 1, n):
            eng.raise_ext('IndexError', ('list index out of range',))
    if isinstance(o, Term) and o.op == 'map' and isinstance(i, int):
        return Term('getitem', (o, i), typ=o.elemtyp if not isinstance(o.elemtyp, tuple) else None)
    return opaque_getitem(eng, o, i)


def do_slice(eng, o, s):
    if isinstance(o, (str, bytes, tuple)) and all(is_const(x) for x in (s.start, s.stop, s.step)):
        return o[s]
    if isinstance(o, VList) and all(is_const(x) for x in (s.start, s.stop, s.step)):
        if o.exact():
            return eng.VL(o.items[s])
        if s.step in (None, 1):
            a = s.start or 0
            if a >= 0 and s.stop is None and not any(isinstance(x, Rest) for x in o.items[:a]):
                return eng.VL(o.items[a:])
            if s.stop is not None and s.stop >= 0 and a >= 0 and not any(
                    isinstance(x, Rest) for x in o.items[:s.stop]):
                return eng.VL(o.items[a:s.stop])
            if s.stop is not None and s.stop < 0 and a == 0 and not any(
                    isinstance(x, Rest) for x in o.items[s.stop:]):
                return eng.VL(o.items[:s.stop])
    if isinstance(o, Term) and o.op == 'cat' and isinstance(o.args[0], str) and s.step is None:
        lead, a, b = o.args[0], s.start or 0, s.stop
        if isinstance(a, int) and isinstance(b, int) and 0 <= a and 0 <= b <= len(lead):
            return lead[a:b]
        if isinstance(a, int) and 0 < a <= len(lead) and b is None:
            return cat(eng, [lead[a:]] + list(o.args[1:]))
    src = o
    if isinstance(o, VList) and len(o.items) == 1 and isinstance(o.items[0], Rest):
        src = o.items[0].src
    if isinstance(src, VList):
        src = freeze(src)
    if s.step is None and s.stop is None and s.start in (0, None):
        return o
    if isinstance(src, Inst) and src.payload is None:
        m = eng.class_attr(src.cls, '__getitem__')
        if m is not None:
            return eng.call(m, [src, Term('slice', (s.start, s.stop, s.step))])
    if src is None or (isinstance(src, (Sym, Term)) and eng.path.isnone(src)):
        eng.raise_ext('TypeError', ("'NoneType' object is not subscriptable",))
    t = eng.path.typ(src)
    res = Term('slice', (src, s.start, s.stop, s.step), typ=t if t in ('str', 'list', 'tuple', 'bytes')
               else ('list' if isinstance(o, VList) else None),
               elemtyp=src.elemtyp if isinstance(src, (Sym, Term)) else None)
    if isinstance(o, VList):
        return eng.VL([Rest(res)])
    return res


def setitem(eng, o, i, v):
    if isinstance(o, VDict):
        dict_set(eng, o, i, v)
        return
    if isinstance(o, VList):
        if isinstance(i, int) and o.exact():
            eng.mut(o, '[]')
            try:
                o.items[i] = v
            except IndexError:
                eng.raise_ext('IndexError', ('list assignment index out of range',))
            return
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                items = splice(eng, v)
                eng.mut(o, '[]')
                o.items = items
                return
        eng.mut(o, '[]')
        eng.path.note('assignment to unknown list position')
        o.items = [Rest(Term('setitem', (freeze(o), i if not isinstance(i, slice) else None, v),
                             typ='list'))]
        return
    if isinstance(o, Inst):
        m = eng.class_attr(o.cls, '__setitem__')
        if m is not None:
            eng.call(m, [o, i, v])
            return
        if o.payload is not None:
            setitem(eng, o.payload, i, v)
            return
    if isinstance(o, (Sym, Term)):
        e = eng.event('setitem', (o, i, v))
        eng.maybe_raise('setitem', (o, i, v), e)
        return
    if o is None:
        eng.raise_ext('TypeError', ("'NoneType' object does not support item assignment",))
    if isinstance(o, (tuple, str)):
        eng.raise_ext('TypeError', ('object does not support item assignment',))
    raise Imprecise('item assignment on {}'.format(show(o)))


def delitem(eng, o, i):
    if isinstance(o, Inst) and o.payload is not None:
        o = o.payload
    if isinstance(o, VDict):
        e = find_entry(eng, o, i)
        eng.mut(o, '{}')
        if e is not None:
            del o.d[key(e[0])]
            return
        if o.rest:
            for r in o.rest:
                if eng.path.in_src(i, r.src):
                    eng.event('delitem', (r.src, i))
                    o.rest = [Rest(Term('without', (x.src, i), typ='dict')) for x in o.rest]
                    return
        eng.raise_ext('KeyError', (i,))
    if isinstance(o, VList):
        if isinstance(i, int) and o.exact():
            eng.mut(o, '[]')
            try:
                del o.items[i]
            except IndexError:
                eng.raise_ext('IndexError', ())
            return
        if isinstance(i, slice) and o.exact() and all(
                is_const(x) for x in (i.start, i.stop, i.step)):
            eng.mut(o, '[]')
            del o.items[i]
            return
    if isinstance(o, (Sym, Term)):
        eng.event('delitem', (o, i))
        return
    raise Imprecise('del item of {}'.format(show(o)))


# ------------------------------------------------------------------------------------ operators
OPNAMES = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'FloorDiv': 'floordiv',
           'Mod': 'mod', 'Pow': 'pow', 'BitOr': 'bitor', 'BitAnd': 'bitand', 'BitXor': 'bitxor',
           'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}
PYOPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'div': lambda a, b: a / b, 'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    'pow': lambda a, b: a ** b, 'bitor': lambda a, b: a | b, 'bitand': lambda a, b: a & b,
    'bitxor': lambda a, b: a ^ b, 'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b,
}


def binop(eng, op, a, b):
    o = op if isinstance(op, str) else OPNAMES[type(op).__name__]
    if isinstance(a, BMethod):
        a = eng.force_attr(a)
    if isinstance(b, BMethod):
        b = eng.force_attr(b)
    p = eng.path
    if is_const(a) and is_const(b):
        if o == 'mod' and isinstance(a, str):
            return str_percent(eng, a, b)
        try:
            return PYOPS[o](a, b)
        except Exception as e:
            eng.raise_ext(type(e).__name__, (str(e),))
    if o == 'mod' and isinstance(a, str):
        return str_percent(eng, a, b)
    ta, tb = p.typ(a), p.typ(b)
    if o == 'add':
        if ta == 'str' or tb == 'str':
            for x, t in ((a, ta), (b, tb)):
                if t == 'none' or (t is None and isinstance(x, (Sym, Term)) and
                                   p.truths.get(('isnone', key(x)))) or t in (
                        'int', 'bool', 'list', 'dict'):
                    eng.raise_ext('TypeError', ('can only concatenate str',))
            return cat(eng, [a, b])
        if isinstance(a, VList) or isinstance(b, VList):
            if isinstance(a, tuple) or isinstance(b, tuple):
                eng.raise_ext('TypeError', ('can only concatenate list to list',))
            return eng.VL(splice(eng, a) + splice(eng, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if ta == 'list' and tb == 'list':
            return eng.VL([Rest(a), Rest(b)])
        if isinstance(b, int) and not isinstance(b, bool) and isinstance(a, Term) and a.op == 'add' \
                and isinstance(a.args[1], int):
            c = a.args[1] + b
            return a.args[0] if c == 0 else Term('add', (a.args[0], c), typ='int')
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            ta, tb = tb, ta
            if a == 0:
                return b
            if isinstance(a, Term) and a.op == 'add' and isinstance(a.args[1], int):
                return Term('add', (a.args[0], a.args[1] + b), typ='int')
        if b == 0 and is_const(b) and ta in ('int', 'float', 'decimal'):
            return a
        t = 'int' if ta in ('int', 'bool') and tb in ('int', 'bool') else (
            ta if ta == tb else ('float' if 'float' in (ta, tb) else None))
        return Term('add', (a, b), typ=t)
    if o == 'sub':
        if isinstance(a, VDict) and a.isset:
            return set_diff(eng, a, b)
        if ta == 'set' or (isinstance(a, Term) and a.op in ('.keys', 'set')):
            bb = b
            out = Term('setdiff', (a, b), typ='set')
            return out
        if isinstance(b, int) and not isinstance(b, bool):
            return binop(eng, 'add', a, -b) if ta == 'int' else Term('sub', (a, b), typ=ta)
        return Term('sub', (a, b), typ='int' if ta == tb == 'int' else None)
    if o == 'bitor':
        if isinstance(a, VDict) or isinstance(b, VDict):
            d = eng.VD((), isset=isinstance(a, VDict) and a.isset or isinstance(
                b, VDict) and b.isset)
            for x in (a, b):
                if d.isset:
                    set_update(eng, d, x)
                else:
                    dict_update(eng, d, x)
            return d
    if o == 'bitand' and isinstance(a, VDict) and a.isset:
        d = eng.VD((), isset=True)
        for x in a.keys():
            if p.truth(eng.in_value(x, b)):
                set_add(eng, d, x)
        for r in a.rest:
            d.rest.append(Rest(Term('setand', (r.src, b), typ='set')))
        return d
    if o == 'mul':
        if isinstance(a, str) and isinstance(b, int) or isinstance(a, int) and isinstance(b, str):
            return a * b
        if isinstance(a, VList) and isinstance(b, int):
            return eng.VL(a.items * b)
        if is_const(a) and a == 1 and not isinstance(a, bool) and tb in ('int', 'decimal', 'float'):
            return b
        if is_const(b) and b == 1 and not isinstance(b, bool) and ta in ('int', 'decimal', 'float'):
            return a
        for x, t, y in ((a, ta, b), (b, tb, a)):
            if t == 'str':
                if is_const(y) and y == 2:
                    return cat(eng, [x, x])
                return Term('mul', (a, b), typ='str')
        return Term('mul', (a, b), typ=ta if ta == tb else ('decimal' if 'decimal' in (
            ta, tb) else None))
    if o == 'div' and (ta == 'path' or tb == 'path'):
        ca, cb = const_path(a), const_path(b)
        ca, cb = a if ca is None else ca, b if cb is None else cb
        if all(isinstance(x, (str, pathlib.PurePath)) for x in (ca, cb)):
            return path_term(pathlib.PurePosixPath(ca) / cb)
        return Term('path/', (a, b), typ='path')
    if isinstance(a, Inst):
        m = eng.class_attr(a.cls, {'add': '__add__', 'sub': '__sub__', 'div': '__truediv__',
                                   'mod': '__mod__', 'mul': '__mul__'}.get(o, '__x__'))
        if m is not None:
            return eng.call(m, [a, b])
    for x in (a, b):
        if x is None or (isinstance(x, (Sym, Term)) and p.truths.get(('isnone', key(x)))):
            eng.raise_ext('TypeError', ('unsupported operand type(s)',))
    if o == 'mod' and ta == 'str':
        return Term('mod', (a, b), typ='str')
    return Term(o, (a, b), typ=ta if ta == tb else None)


def set_diff(eng, a, b):
    d = eng.VD((), isset=True)
    for x in a.keys():
        if not eng.path.truth(eng.in_value(x, b)):
            set_add(eng, d, x)
    for r in a.rest:
        d.rest.append(Rest(Term('setdiff', (r.src, freeze(b)), typ='set')))
    return d


def order(eng, n, a, b):
    if is_const(a) and is_const(b):
        try:
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b,
                    'GtE': lambda: a >= b}[n]()
        except TypeError as e:
            eng.raise_ext('TypeError', (str(e),))
        except decimal.InvalidOperation as e:
            eng.raise_ext('decimal.InvalidOperation', (str(e),))
    for x in (a, b):
        if x is None or (isinstance(x, (Sym, Term)) and eng.path.truths.get(('isnone', key(x)))):
            eng.raise_ext('TypeError', ("'<' not supported with NoneType",))
    if n in ('Gt', 'GtE'):
        a, b = b, a
        n = {'Gt': 'Lt', 'GtE': 'LtE'}[n]
    if isinstance(a, VDict) and a.isset or isinstance(b, VDict) and b.isset:
        if n == 'LtE':
            return subset(eng, a, b)
    if eng.raise_policy is not None:
        eng.maybe_raise('order', (a, b))
    return Term('lt' if n == 'Lt' else 'le', (a, b), typ='bool')


def subset(eng, a, b):
    for x in (a.keys() if isinstance(a, VDict) else []):
        if not eng.path.truth(eng.in_value(x, b)):
            return False
    rests = a.rest if isinstance(a, VDict) else [Rest(a)]
    for r in rests:
        fb = freeze(b) if not isinstance(b, (Sym, Term)) else b
        el = eng.elem(r.src)
        if not eng.path.forall(r.src, Term('in', (el, fb), typ='bool'), True):
            return False
    return True


# ------------------------------------------------------------------------------------ methods
def call_method(eng, o, name, args, kw):
    p = eng.path
    if isinstance(o, BMethod):
        o = eng.force_attr(o)
    m = eng.ext_overrides.get('.' + name)
    if m is not None:
        r = m(eng, [o] + list(args), kw)
        if r is not _NO:
            return r
    if isinstance(o, VList):
        return list_method(eng, o, name, args, kw)
    if isinstance(o, VDict):
        return set_method(eng, o, name, args, kw) if o.isset else dict_method(eng, o, name, args, kw)
    if isinstance(o, Iter):
        if name == '__next__':
            return m_next(eng, [o], {})
        if name == '__iter__':
            return o
        if name == 'close':
            if o.gen is not None:
                o.gen.close()
            return None
    if isinstance(o, tuple):
        if name in ('index', 'count') + (('_replace', '_asdict', 'geturl') if is_url(o) else ()) and (
                to_py(o) is not _NO):
            return fold(eng, getattr(o, name), args, kw)
    if name == 'join' and (isinstance(o, str) or p.typ(o) == 'str'):
        return str_join(eng, o, args[0])
    if isinstance(o, str) and name == 'format':
        if '**' in kw or any(isinstance(a, Rest) for a in args):
            return Term('.format', [o] + [freeze(a) for a in args], typ='str')
        return str_format(eng, o, args, kw)
    if isinstance(o, str) and name == 'format_map' and isinstance(args[0], VDict):
        return str_format(eng, o, [], {e[0]: e[1] for e in args[0].d.values()})
    if is_const(o) and not isinstance(o, tuple):
        real = o.m if isinstance(o, Match) else o
        r = fold(eng, getattr(real, name), args, kw)
        if r is not _NO:
            return r
        if isinstance(o, str):
            return str_method(eng, o, name, args, kw)
        if isinstance(o, re.Pattern) and name in ('match', 'search', 'fullmatch'):
            e = eng.event('.' + name, [o] + list(args), kw)
            eng.maybe_raise('.' + name, [o] + list(args), e)
            e.result = eng.mkterm('.' + name, [o] + list(args), kw)
            return e.result
        return eng.mkterm('.' + name, [o] + list(args), kw,
                          typ=GENERIC_RES.get('.' + name, (None,))[0])
    if isinstance(o, (Sym, Term)):
        if isinstance(o, Term) and o.op in ('list', 'dict', 'set') and name in (
                'items', 'keys', 'values', 'get', 'index', 'count', 'copy'):
            h = thaw(eng, o)
            return call_method(eng, h, name, args, kw)
        if p.isnone(o):
            eng.raise_ext('AttributeError', ("'NoneType' object has no attribute '{}'".format(
                name),))
        t = p.typ(o)
        if t == 'path' and name == 'open':
            return m_open(eng, [pathlib_src(o)] + list(args), kw)
        if t == 'str':
            return str_method(eng, o, name, args, kw)
        if t in ('dict', 'OrderedDict'):
            return opaque_dict_method(eng, o, name, args, kw)
        if t == 'set' and name in ('issubset',):
            return subset(eng, o, args[0])
        if t == 'list' and name in ('append', 'extend', 'insert', 'remove', 'pop', 'sort', 'clear'):
            e = eng.event('.' + name, [o] + list(args), kw)
            e.result = eng.mkterm('.' + name, [o] + list(args), kw) if name == 'pop' else None
            return e.result
        if t in TYP_REAL and not hasattr(TYP_REAL[t], name):
            eng.raise_ext('AttributeError', ("'{}' object has no attribute '{}'".format(t, name),))
        if t is None and not (isinstance(o, (Sym, Term)) and o.ext):
            # receiver of unknown type: classify by method
            if name in ('items', 'keys', 'values', 'get', 'setdefault', 'pop', 'update') and (
                    name != 'get' or args):
                if isinstance(o, Sym) and o.typ is None or isinstance(o, Term):
                    return opaque_dict_method(eng, o, name, args, kw)
            if name in STR_RES and name not in ('index', 'count', 'format', 'join', 'replace'):
                return str_method(eng, o, name, args, kw)
        return opaque_method(eng, o, name, args, kw)
    if isinstance(o, (Ext, Func, Cls, Native, Partial, Bound)):
        raise Imprecise('method {} of {}'.format(name, show(o)))
    raise Imprecise('method {} of {}'.format(name, show(o)))


def thaw(eng, o):
    if o.op == 'list':
        return eng.VL(list(o.args))
    if o.op == 'dict':
        return eng.VD([a for a in o.args if not isinstance(a, Rest)],
                      rest=[a for a in o.args if isinstance(a, Rest)])
    return eng.VD([(a, a) for a in o.args if not isinstance(a, Rest)], isset=True,
                  rest=[a for a in o.args if isinstance(a, Rest)])


MUTATORS = {'write', 'writerow', 'writerows', 'execute', 'executemany', 'commit', 'rollback',
            'close', 'seek', 'flush', 'unlink', 'mkdir', 'rename', 'replace', 'write_text',
            'write_bytes', 'touch', 'rmdir', 'append', 'add', 'extend', 'update', 'insert', 'warning',
            'error', 'info', 'debug', 'setdefault', 'pop', 'remove', 'clear', 'read', 'readline',
            'truncate', 'open', 'fetchall', 'fetchone'}


def match_pattern(o):
    """the constant pattern whose match `o` is, if any"""
    if isinstance(o, Term) and o.op in ('.match', '.search', '.fullmatch') and isinstance(
            o.args[0], re.Pattern):
        return o.args[0]
    if isinstance(o, Term) and o.op in ('re.match', 're.search', 're.fullmatch') and isinstance(
            o.args[0], str) and len(o.args) == 2:
        try:
            return re.compile(o.args[0])
        except re.error:
            pass


def optional_groups(pat, nonempty):
    """numbers of the groups of a pattern which need not take part in a match; `nonempty` gets
    those which are not empty if they do"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            from re import _parser as sre
        except ImportError:
            import sre_parse as sre
    res = set()

    def walk(p, opt):
        for op, av in p:
            n = str(op)
            if n == 'SUBPATTERN':
                if av[0] and opt:
                    res.add(av[0])
                if av[0] and av[-1].getwidth()[0]:
                    nonempty.add(av[0])
                walk(av[-1], opt)
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                walk(av[2], opt or av[0] == 0)
            elif n == 'BRANCH':
                for b in av[1]:
                    walk(b, True)
            elif n in ('ASSERT', 'ASSERT_NOT', 'ATOMIC_GROUP', 'GROUPREF_EXISTS'):
                for b in (av if isinstance(av, tuple) else [av]):
                    if hasattr(b, 'data'):
                        walk(b, True)
    walk(sre.parse(pat.pattern, pat.flags), False)
    return res


def match_method(eng, o, pat, name, args, kw):
    def group(i):
        if i == 0:
            return Term('group', (o, 0), typ='str')
        t = Term('group', (o, i), typ='str')
        if i in opt and not eng.path.truth(Term('took-part', (o, i), typ='bool')):
            return None
        if i in nonempty:
            eng.path.truths[('truth', t.key())] = True
        return t
    nonempty = set()
    opt = optional_groups(pat, nonempty)
    if name == 'groupdict' and not args and not kw:
        return eng.VD([(n, group(i)) for n, i in pat.groupindex.items()])
    if name == 'groups' and not args:
        return tuple(group(i) for i in range(1, pat.groups + 1))
    if name in ('group', '__getitem__') and len(args) <= 1:
        g = args[0] if args else 0
        if isinstance(g, str):
            if g not in pat.groupindex:
                eng.raise_ext('IndexError', ('no such group',))
            g = pat.groupindex[g]
        if isinstance(g, int):
            if g > pat.groups:
                eng.raise_ext('IndexError', ('no such group',))
            return group(g)
    return _NO


def opaque_method(eng, o, name, args, kw):
    pat = match_pattern(o)
    if pat is not None:
        r = match_method(eng, o, pat, name, args, kw)
        if r is not _NO:
            return r
    cp = const_path(o)
    if cp is not None and name in ('joinpath', 'with_suffix', 'with_name', 'as_posix',
                                   'is_absolute') and not kw:
        a = [const_path(x) if const_path(x) is not None else x for x in args]
        if all(isinstance(x, (str, pathlib.PurePath)) for x in a):
            try:
                return path_term(getattr(cp, name)(*a))
            except ValueError as ex:
                eng.raise_ext('ValueError', (str(ex),))
    e = eng.event('.' + name, [o] + list(args), kw)
    eng.maybe_raise('.' + name, [o] + list(args), e)
    typ, et = GENERIC_RES.get('.' + name, (None, None))
    if typ is None and name in ('read', 'readline', 'getvalue') and eng.path.typ(o) == 'file' and \
            getattr(o, 'elemtyp', None) in ('str', 'bytes'):
        typ = o.elemtyp
    if name in ('read', 'readline', 'fetchall', 'fetchone', 'execute', 'executemany', 'cursor',
                'open'):
        n = eng.path.fresh.get(name, 0)
        eng.path.fresh[name] = n + 1
        e.result = eng.mkterm('.{}#{}'.format(name, n), [o] + list(args), kw, typ=typ, elemtyp=et)
        if name == 'open' and eng.path.typ(o) in ('path',) or (
                isinstance(o, (Sym, Term)) and o.ext == 'zipfile.ZipFile' and name == 'open'):
            e.result = eng.mkterm('.{}#{}'.format(name, n), [o] + list(args), kw, typ='file',
                                  elemtyp='str')
    elif eng.path.typ(o) == 'path' and name == 'replace':
        e.result = eng.mkterm('.' + name, [o] + list(args), kw, typ='path')
    else:
        e.result = eng.mkterm('.' + name, [o] + list(args), kw, typ=typ, elemtyp=et)
    return e.result


def str_join(eng, sep, v):
    if isinstance(v, Iter) and getattr(v, 'comp', None):
        v = materialise(eng, v)
    elif isinstance(v, (Iter, VDict)):
        v = eng.VL(splice(eng, v)) if isinstance(v, VDict) else materialise(eng, v)
    if isinstance(v, Inst) and v.payload is not None:
        v = v.payload
    if isinstance(v, str):
        if isinstance(sep, str):
            return sep.join(v)
    items = None
    if isinstance(v, VList):
        items = v.items
    elif isinstance(v, tuple):
        items = list(v)
    elif isinstance(v, Term) and v.op == 'list':
        items = list(v.args)
    if items is not None and not any(isinstance(x, Rest) for x in items):
        parts = []
        for i, x in enumerate(items):
            if isinstance(x, BMethod):
                x = eng.force_attr(x)
            if x is None or (not isinstance(x, str) and is_const(x)) or isinstance(
                    x, (VList, VDict, tuple)):
                eng.raise_ext('TypeError', ('sequence item: expected str instance',))
            if isinstance(x, (Sym, Term)) and eng.path.typ(x) is None and eng.path.truths.get(
                    ('isnone', key(x))):
                eng.raise_ext('TypeError', ('sequence item: expected str instance',))
            if isinstance(x, (Sym, Term)) and eng.path.typ(x) in ('int', 'float', 'none', 'list',
                                                                  'decimal', 'bool'):
                eng.raise_ext('TypeError', ('sequence item: expected str instance',))
            if i:
                parts.append(sep)
            parts.append(x)
        r = cat(eng, parts)
        if isinstance(r, (Sym, Term)) and eng.path.typ(r) is None:
            # a single element: joining asserts that it is a string
            eng.path.types.setdefault(r.key(), 'str')
        return r
    src = v
    if items is not None and len(items) == 1:
        src = items[0].src
    elif items is not None:
        src = freeze(v if isinstance(v, VList) else eng.VL(items))
    if src is None or (isinstance(src, (Sym, Term)) and eng.path.isnone(src)):
        eng.raise_ext('TypeError', ('can only join an iterable',))
    return Term('join', (sep, src), typ='str')


def str_method(eng, o, name, args, kw):
    p = eng.path
    if name not in STR_RES and not hasattr(str, name):
        eng.raise_ext('AttributeError', ("'str' object has no attribute '{}'".format(name),))
    if name == '__len__':
        return eng.length(o)
    if name == 'format':
        return Term('.format', [o] + [freeze(a) for a in args] + [
            Term('kw:' + k, (v,)) for k, v in sorted(kw.items())], typ='str')
    if name == 'join':
        return str_join(eng, o, args[0])
    if name in ('startswith', 'endswith') and isinstance(args[0], str):
        if args[0] == '':
            return True
        if isinstance(o, Term) and o.op == 'cat':
            edge = o.args[0] if name == 'startswith' else o.args[-1]
            if isinstance(edge, str):
                if name == 'startswith' and len(edge) >= len(args[0]):
                    return edge.startswith(args[0])
                if name == 'endswith' and len(edge) >= len(args[0]):
                    return edge.endswith(args[0])
        if isinstance(o, Term) and o.op == 'str' and False:
            pass
    if name in ('startswith', 'endswith') and isinstance(args[0], tuple):
        return any([p.truth(str_method(eng, o, name, [a], {})) for a in args[0]])
    if name in ('strip', 'lstrip', 'rstrip'):
        if args and args[0] is None:
            args = []
        # idempotent
        if isinstance(o, Term) and o.op == '.' + name and len(o.args) == 1 + len(args) and [
                key(x) for x in o.args[1:]] == [key(x) for x in args]:
            return o
    for a in args:
        if a is None and name in ('replace', 'startswith', 'endswith', 'join'):
            eng.raise_ext('TypeError', ('argument must be str, not None',))
    if eng.raise_policy is not None:
        eng.maybe_raise('.' + name, [o] + list(args))
    r = STR_RES.get(name)
    t, et = r if isinstance(r, tuple) else (r, None)
    if name in ('find', 'count', 'index', 'rfind'):
        return eng.mkterm('.' + name, [o] + list(args), kw, typ='int')
    if name in ('partition', 'rpartition') and len(args) == 1:
        n = p.known_const(eng.mkterm('.count', [o, args[0]], {}, typ='int'))
        if n == 1 and isinstance(n, int):
            r_ = eng.mkterm('.split', [o] + list(args), kw, typ='list', elemtyp='str')
            return (eng.item(r_, 0), args[0], eng.item(r_, 1))
    if name in ('split', 'rsplit'):
        args, kw = list(args), dict(kw)
        if 'sep' in kw:
            args = [kw.pop('sep')] + args
        if 'maxsplit' in kw:
            args = (args or [None]) + [kw.pop('maxsplit')]
        if len(args) == 2 and args[1] == -1 and is_const(args[1]):
            args = args[:1]
        if name == 'rsplit' and len(args) == 1:
            name = 'split'
        if args and args[0] is None and len(args) == 1:
            args = []
        r_ = eng.mkterm('.' + name, [o] + args, kw, typ=t, elemtyp=et)
        if len(args) in (1, 2) and args[0] is not None and not kw and (
                len(args) == 1 or args[1] == 1):
            r_ = eng.mkterm('.' + name, [o] + args[:1], kw, typ=t, elemtyp=et) \
                if len(args) == 2 and p.known_const(
                    eng.mkterm('.count', [o, args[0]], {}, typ='int')) == 1 else r_
            n = p.known_const(eng.mkterm('.count', [o, args[0]], {}, typ='int'))
            if isinstance(n, int) and n < 8 and (len(args) == 1 or n <= 1):
                return eng.VL([eng.item(r_, i) for i in range(n + 1)])
        if args and args[0] is not None:
            p.truths[('truth', r_.key())] = True
        return r_
    return eng.mkterm('.' + name, [o] + list(args), kw, typ=t, elemtyp=et)


def list_method(eng, o, name, args, kw):
    if name == 'append':
        list_append(eng, o, args[0])
        return None
    if name == 'extend':
        list_extend(eng, o, args[0])
        return None
    if name == 'insert':
        eng.mut(o, '[]')
        if isinstance(args[0], int) and (o.exact() or args[0] == 0):
            o.items.insert(args[0], args[1])
            return None
        raise Imprecise('list.insert')
    if name == 'pop':
        if not o.items:
            eng.raise_ext('IndexError', ('pop from empty list',))
        i = args[0] if args else -1
        if isinstance(i, int) and (o.exact() or (i == -1 and not isinstance(o.items[-1], Rest)) or (
                i == 0 and not isinstance(o.items[0], Rest))):
            eng.mut(o, '[]')
            return o.items.pop(i)
        raise Imprecise('list.pop')
    if name in ('index', 'count', 'remove'):
        if o.exact():
            for j, x in enumerate(o.items):
                if eng.equal(x, args[0]):
                    if name == 'index':
                        return j
                    if name == 'remove':
                        eng.mut(o, '[]')
                        del o.items[j]
                        return None
                    if name == 'count':
                        return 1 + sum(1 for y in o.items[j + 1:] if eng.equal(y, args[0]))
            if name == 'count':
                return 0
            eng.raise_ext('ValueError', ('not in list',))
        if name == 'count':
            return Term('.count', (freeze(o), args[0]), typ='int')
        if name == 'index':
            return Term('.index', (freeze(o), args[0]), typ='int')
        raise Imprecise('list.' + name)
    if name == 'copy':
        return eng.VL(o.items)
    if name == 'clear':
        eng.mut(o, '[]')
        o.items = []
        return None
    if name == 'reverse':
        eng.mut(o, '[]')
        o.items = list(reversed(o.items))
        return None
    if name == 'sort':
        r = m_sorted(eng, [o], kw)
        eng.mut(o, '[]')
        o.items = list(r.items)
        return None
    if name == '__iter__':
        return eng.get_iter(o)
    if name == '__len__':
        return eng.length(o)
    if name == '__contains__':
        return eng.in_value(args[0], o)
    if name == '__getitem__':
        return getitem(eng, o, args[0])
    raise Imprecise('list.' + name)


def set_method(eng, o, name, args, kw):
    if name == 'add':
        set_add(eng, o, args[0])
        return None
    if name == 'update':
        for a in args:
            set_update(eng, o, a)
        return None
    if name in ('discard', 'remove'):
        e = find_entry(eng, o, args[0])
        if e is not None:
            eng.mut(o, '{}')
            del o.d[key(e[0])]
        elif o.rest:
            eng.mut(o, '{}')
            o.rest = [Rest(Term('without', (r.src, args[0]), typ='set')) for r in o.rest]
        elif name == 'remove':
            eng.raise_ext('KeyError', (args[0],))
        return None
    if name in ('union', 'copy'):
        d = eng.VD([(x, x) for x in o.keys()], isset=True, rest=list(o.rest))
        for a in args:
            set_update(eng, d, a)
        return d
    if name == 'difference':
        d = o
        for a in args:
            d = set_diff(eng, d, a if not isinstance(a, Iter) else materialise(eng, a))
        return d
    if name == 'intersection':
        return binop(eng, 'bitand', o, args[0])
    if name == 'issubset':
        return subset(eng, o, args[0] if not isinstance(args[0], Iter) else materialise(eng, args[0]))
    if name == 'issuperset':
        a = args[0]
        if not isinstance(a, VDict):
            a = eng.VD([(x, x) for x in splice(eng, a)], isset=True)
        return subset(eng, a, o)
    if name == 'isdisjoint':
        return not any(eng.path.truth(eng.in_value(x, args[0])) for x in o.keys())
    if name == 'clear':
        eng.mut(o, '{}')
        o.d, o.rest = {}, []
        return None
    if name == 'pop':
        if o.d:
            eng.mut(o, '{}')
            k = next(iter(o.d))
            return o.d.pop(k)[0]
        raise Imprecise('set.pop')
    if name == '__contains__':
        return eng.in_value(args[0], o)
    raise Imprecise('set.' + name)


def dict_method(eng, o, name, args, kw):
    if name == 'get':
        return dict_get(eng, o, args[0], args[1] if len(args) > 1 else kw.get('default'))
    if name == 'keys':
        v = eng.VD([(k, k) for k in o.keys()], isset=True, rest=list(o.rest))
        v.view = o
        return v
    if name == 'values':
        return eng.VL(o.values() + [Rest(Term('.values', (r.src,), typ='list')) for r in o.rest])
    if name == 'items':
        return eng.VL([(k, v) for k, v in o.pairs()] + [
            Rest(Term('dictitems', (r.src,), typ='list', elemtyp=('tuple', None))) for r in o.rest])
    if name == 'setdefault':
        e = find_entry(eng, o, args[0])
        if e is not None:
            return e[1]
        for r in o.rest:
            if eng.path.in_src(args[0], r.src):
                return opaque_getitem(eng, r.src, args[0])
        v = args[1] if len(args) > 1 else None
        dict_set(eng, o, args[0], v)
        return v
    if name == 'update':
        for a in args:
            if isinstance(a, Iter):
                a = materialise(eng, a)
            dict_update(eng, o, a)
        for k, v in kw.items():
            if k == '**':
                dict_update(eng, o, v)
            else:
                dict_set(eng, o, k, v)
        return None
    if name == 'pop':
        e = find_entry(eng, o, args[0])
        if e is not None:
            eng.mut(o, '{}')
            del o.d[key(e[0])]
            return e[1]
        for r in list(o.rest):
            if eng.path.in_src(args[0], r.src):
                eng.mut(o, '{}')
                o.rest = [Rest(Term('without', (x.src, args[0]), typ='dict')) for x in o.rest]
                return opaque_getitem(eng, r.src, args[0])
        if len(args) > 1:
            return args[1]
        eng.raise_ext('KeyError', (args[0],))
    if name == 'popitem':
        if o.d:
            eng.mut(o, '{}')
            k = list(o.d)[0 if kw.get('last') is False else -1]
            e = o.d.pop(k)
            return (e[0], e[1])
        eng.raise_ext('KeyError', ())
    if name == 'copy':
        return eng.VD(o.pairs(), rest=list(o.rest), cls=o.cls, default=o.default)
    if name == 'clear':
        eng.mut(o, '{}')
        o.d, o.rest = {}, []
        return None
    if name == '__contains__':
        return eng.in_value(args[0], o)
    if name == '__getitem__':
        return getitem(eng, o, args[0])
    if name == '__setitem__':
        return setitem(eng, o, args[0], args[1])
    if name == '__iter__':
        return eng.get_iter(o)
    if name == '__len__':
        return eng.length(o)
    if name == 'move_to_end':
        e = find_entry(eng, o, args[0])
        eng.mut(o, '{}')
        last = kw.get('last', args[1] if len(args) > 1 else True)
        if e is not None:
            k = key(e[0])
            ee = o.d.pop(k)
            if last is False:
                o.d = dict([(k, ee)] + list(o.d.items()))
            else:
                o.d[k] = ee
        return None
    if name == 'fromkeys':
        return eng.VD([(x, args[1] if len(args) > 1 else None) for x in eng.iterate(args[0])])
    if name == '__init__':
        if args:
            dict_update(eng, o, args[0])
        return None
    raise Imprecise('dict.' + name)


def opaque_dict_method(eng, o, name, args, kw):
    p = eng.path
    if name == 'get':
        if p.in_src(args[0], o):
            return opaque_getitem(eng, o, args[0])
        return args[1] if len(args) > 1 else None
    if name == 'items':
        return Term('dictitems', (o,), typ='list', elemtyp=('tuple', None))
    if name == 'keys':
        return Term('.keys', (o,), typ='list', elemtyp='str')
    if name == 'values':
        return Term('.values', (o,), typ='list', elemtyp=o.elemtyp)
    if name in ('pop', 'setdefault'):
        e = eng.event('.' + name, [o] + list(args), kw)
        if p.in_src(args[0], o):
            e.result = opaque_getitem(eng, o, args[0])
        elif len(args) > 1:
            e.result = args[1]
        elif name == 'setdefault':
            e.result = None
        else:
            eng.raise_ext('KeyError', (args[0],))
        return e.result
    if name == 'copy':
        return Term('copy', (o,), typ='dict', elemtyp=o.elemtyp)
    return opaque_method(eng, o, name, args, kw)


# ------------------------------------------------------------------------------------ builtins
@model('isinstance')
def m_isinstance(eng, args, kw):
    x, t = args
    if isinstance(x, BMethod):
        x = eng.force_attr(x)
    ts = t if isinstance(t, tuple) else t.items if isinstance(t, VList) else None
    if ts is not None:
        flat = []
        for tt in ts:
            flat += list(tt) if isinstance(tt, tuple) else [tt]
        known = [eng.isinstance_known(x, tt) for tt in flat]
        if any(k is True for k in known):
            return True
        if all(k is False for k in known):
            return False
        return Term('isinst', (x, tuple(flat)), typ='bool')
    r = eng.isinstance_known(x, t)
    if r is not None:
        return r
    return Term('isinst', (x, t), typ='bool')


@model('issubclass')
def m_issubclass(eng, args, kw):
    c, t = args
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, Cls):
        return any(any(m is tt or (isinstance(tt, Ext) and isinstance(m, Ext) and m.name == tt.name)
                       for m in c.mro) for tt in ts)
    return eng.mkterm('issubclass', args, kw, typ='bool')


@model('getattr')
def m_getattr(eng, args, kw):
    if not isinstance(args[1], str):
        return eng.mkterm('getattr', args, typ=None)
    if len(args) > 2:
        o = args[0]
        if isinstance(o, (Sym, Term)) and not isinstance(o, (Inst,)):
            if not eng.hasattr(o, args[1]):
                return args[2]
        v = eng.getattr(o, args[1], args[2])
    else:
        v = eng.getattr(args[0], args[1])
    if isinstance(v, BMethod) and isinstance(v.obj, (Sym, Term)):
        # may be called or used as value; keep as method reference
        return v
    return v


@model('setattr')
def m_setattr(eng, args, kw):
    if not isinstance(args[1], str):
        eng.event('setattr', args)
        return None
    eng.setattr(*args)


@model('hasattr')
def m_hasattr(eng, args, kw):
    return eng.hasattr(args[0], args[1])


@model('callable')
def m_callable(eng, args, kw):
    v = args[0]
    if isinstance(v, (Func, Bound, Native, Partial, Cls, BMethod)):
        return True
    if is_const(v):
        return False
    if isinstance(v, Inst):
        return eng.class_attr(v.cls, '__call__') is not None
    return Term('callable', (v,), typ='bool')


@model('len')
def m_len(eng, args, kw):
    v = args[0]
    if isinstance(v, BMethod):
        v = eng.force_attr(v)
    return eng.length(v)


@model('str')
def m_str(eng, args, kw):
    if not args:
        return ''
    if len(args) > 1 or kw:
        return eng.mkterm('str', args, kw, typ='str')
    return strval(eng, args[0])


@model('repr')
def m_repr(eng, args, kw):
    return fmt_value(eng, args[0], '', 'r')


@model('bool')
def m_bool(eng, args, kw):
    if not args:
        return False
    v = args[0]
    if isinstance(v, (Sym, Term)):
        if eng.path.typ(v) == 'bool':
            return v
        return Term('bool', (v,), typ='bool')
    return eng.path.truth(v)


@model('int')
def m_int(eng, args, kw):
    r = fold(eng, int, args, kw)
    if r is not _NO:
        return r
    if eng.path.typ(args[0]) == 'int':
        return args[0]
    e = eng.event('int', args, kw)
    eng.maybe_raise('int', args, e)
    return eng.mkterm('int', args, kw, typ='int')


@model('list')
def m_list(eng, args, kw):
    if not args:
        return eng.VL(())
    v = args[0]
    if isinstance(v, Iter) and v.src is None:
        return materialise(eng, v)
    return eng.VL(splice(eng, v))


@model('tuple')
def m_tuple(eng, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, Iter) and v.src is None:
        v = materialise(eng, v)
    items = splice(eng, v)
    if any(isinstance(x, Rest) for x in items):
        if len(items) == 1:
            return Term('tuple_of', (items[0].src,), typ='tuple', elemtyp=getattr(
                items[0].src, 'elemtyp', None))
        return Term('tuple_of', (freeze(eng.VL(items)),), typ='tuple')
    return tuple(items)


def mkset(eng, args, cls):
    d = eng.VD((), isset=True, cls=cls)
    if args:
        v = args[0]
        if isinstance(v, Iter) and v.src is None:
            v = materialise(eng, v)
        set_update(eng, d, v)
    return d


@model('set')
def m_set(eng, args, kw):
    return mkset(eng, args, 'set')


@model('frozenset')
def m_frozenset(eng, args, kw):
    return mkset(eng, args, 'frozenset')


def mkdict(cls):
    def m(eng, args, kw):
        d = eng.VD((), cls=cls)
        args = list(args)
        if cls == 'defaultdict' and args:
            d.default = args.pop(0)
        for a in args:
            if isinstance(a, Iter) and a.src is None:
                a = materialise(eng, a)
            if a is None and cls in ('dict', 'OrderedDict'):
                eng.raise_ext('TypeError', ('NoneType object is not iterable',))
            dict_update(eng, d, a)
        for k, v in kw.items():
            if k == '**':
                dict_update(eng, d, v)
            else:
                dict_set(eng, d, k, v)
        return d
    return m


MODELS['dict'] = mkdict('dict')
MODELS['collections.OrderedDict'] = mkdict('OrderedDict')
MODELS['collections.defaultdict'] = mkdict('defaultdict')


@model('dict.fromkeys', 'collections.OrderedDict.fromkeys')
def m_fromkeys(eng, args, kw):
    d = eng.VD(())
    for x in splice(eng, args[0]):
        if isinstance(x, Rest):
            d.rest.append(x)
        else:
            dict_set(eng, d, x, args[1] if len(args) > 1 else None)
    return d


@model('collections.Counter')
def m_counter(eng, args, kw):
    d = eng.VD((), cls='Counter')
    if args:
        for x in eng.iterate(args[0], 'counter'):
            dict_set(eng, d, x, binop(eng, 'add', dict_get(eng, d, x, 0), 1))
    return d


@model('collections.deque')
def m_deque(eng, args, kw):
    return eng.VL(splice(eng, args[0]) if args else ())


@model('sorted')
def m_sorted(eng, args, kw):
    v = args[0]
    if isinstance(v, Iter) and v.src is None:
        v = materialise(eng, v)
    items = splice(eng, v)
    kf = kw.get('key')
    rev = kw.get('reverse', False)
    if not any(isinstance(x, Rest) for x in items) and is_const(rev):
        if len(items) <= 1:
            return eng.VL(items)
        keys = [eng.call(kf, [x]) if kf is not None else x for x in items]
        pk = [to_py(k) for k in keys]
        if not all(k is not _NO for k in pk) and all(isinstance(k, tuple) and k for k in keys):
            # tuples with different known first elements
            first = [to_py(k[0]) for k in keys]
            if all(isinstance(k, (str, int)) for k in first) and len(set(first)) == len(first):
                pk = first
        if all(k is not _NO for k in pk):
            try:
                idx = sorted(range(len(items)), key=lambda i: pk[i], reverse=bool(rev))
            except TypeError as e:
                eng.raise_ext('TypeError', (str(e),))
            return eng.VL([items[i] for i in idx])
        if len(items) <= 4:
            # insertion sort by the ordering domain
            out = []
            for x, k in zip(items, keys):
                j = len(out)
                while j > 0 and lex_lt(eng, k, out[j - 1][1]):
                    j -= 1
                out.insert(j, (x, k))
            if rev:
                out.reverse()
            return eng.VL([x for x, k in out])
        return eng.VL([Rest(Term('sorted', (freeze(eng.VL(items)), kf, rev), typ='list'))])
    src = items[0].src if len(items) == 1 else freeze(eng.VL(items))
    if isinstance(src, Term) and src.op == 'dictitems' and kf is None:
        return eng.VL([Rest(src)])   # order of unknown items is immaterial to the domain
    a = (src,) if kf is None and not rev else (src, kf, rev)
    return eng.VL([Rest(Term('sorted', a, typ='list', elemtyp=getattr(src, 'elemtyp', None)))])


def lex_lt(eng, a, b):
    if isinstance(a, VList):
        a = tuple(a.items)
    if isinstance(b, VList):
        b = tuple(b.items)
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if lex_lt(eng, x, y):
                return True
            if lex_lt(eng, y, x):
                return False
        return len(a) < len(b)
    return eng.path.lt(a, b)


@model('reversed')
def m_reversed(eng, args, kw):
    items = splice(eng, args[0])
    return eng.get_iter(eng.VL([
        Rest(Term('reversed', (x.src,), typ='list')) if isinstance(x, Rest) else x
        for x in reversed(items)]))


def is_opaque(eng, v):
    if isinstance(v, Iter):
        return v.src is not None
    if isinstance(v, (Sym, Term)):
        return not (isinstance(v, Term) and v.op in ('list', 'set', 'dict', 'cat') and not any(
            isinstance(x, Rest) for x in v.args))
    if isinstance(v, VList):
        return not v.exact()
    if isinstance(v, VDict):
        return bool(v.rest)
    return False


@model('enumerate')
def m_enumerate(eng, args, kw):
    start = kw.get('start', args[1] if len(args) > 1 else 0)
    v = args[0]

    def gen():
        i = start
        it = eng.iterate(v, 'enum')
        n = 0
        try:
            before = len(eng.path.loops)
            for x in it:
                ctxs = eng.path.loops
                idx = Term('add', (Sym('n'), 0)) if False else i
                # inside an arbitrary later iteration of an unknown sequence
                ctx = ctxs[-1] if len(ctxs) > before else None
                if ctx is not None and getattr(ctx, 'mode', 'first') == 'later' and n == 0:
                    idx = Sym('index@' + ctx.key, typ='int')
                    if is_const(start):
                        eng.path.lo[idx.key()] = (start + 1, False)
                    i = idx
                yield (idx, x)
                n += 1
                i = binop(eng, 'add', i, 1)
        finally:
            it.close()
    it = Iter(gen(), 'enumerate')
    it.isgen = True
    # always offer a 'later' iteration, as the index differs
    force_later(eng, v)
    return eng.register(it, 'enumerate')


def force_later(eng, v):
    """loops over this unknown sequence need a 'later' mode even if they write nothing"""
    if is_opaque(eng, v) or isinstance(v, (Iter, Inst)):
        eng.want_later = True


@model('zip')
def m_zip(eng, args, kw):
    args = list(args)
    if any(isinstance(a, Rest) for a in args):
        return eng.get_iter(Term('zip', [freeze(a) for a in args], typ='list',
                                 elemtyp=('tuple', None)))
    finite = [a for a in args if not is_opaque(eng, a) and not is_count(a) and not (
        isinstance(a, Iter) and getattr(a, 'comp', None) is not None and is_opaque(
            eng, a.comp[1])) and not isinstance(a, Inst)]

    def pull(a):
        if isinstance(a, Inst):
            a = eng.get_iter(a)
        if isinstance(a, Iter) and a.src is not None or isinstance(a, Inst):
            return a
        if is_opaque(eng, a):
            if isinstance(a, VList):
                a = a.items[0].src if len(a.items) == 1 else freeze(a)
            if isinstance(a, VDict):
                a = freeze(a)
            it = eng.register(Iter(None, show(a), src=a), 'iter')
            it.pos = 0
            return it
        return eng.get_iter(a)

    def gen_pull():
        its = [pull(a) for a in args]
        while True:
            out = []
            for it in its:
                try:
                    out.append(eng.next_value(it))
                except StopIteration:
                    return
            yield tuple(out)

    def gen_rep():
        # representative iteration over all unknown sequences jointly
        opaque = [a for a in args if not is_count(a)]
        main = opaque[0]
        n = 0
        for x in eng.iterate(main, 'zip'):
            ctx = eng.path.loops[-1] if eng.path.loops else None
            mode = getattr(ctx, 'mode', 'first')
            row = []
            for a in args:
                if a is main:
                    row.append(x)
                elif is_count(a):
                    if mode == 'later':
                        s = Sym('index@' + ctx.key, typ='int')
                        if is_const(a.count[0]):
                            eng.path.lo[s.key()] = (a.count[0] + 1, False)
                        row.append(s)
                    else:
                        row.append(binop(eng, 'add', a.count[0], n))
                else:
                    src = opaque_src(eng, a)
                    if src is None:
                        src = freeze(a) if not isinstance(a, Iter) else None
                    if src is None:
                        its = eng.iterate(a, 'zip2')
                        try:
                            row.append(next(its))
                        except StopIteration:
                            return
                        continue
                    if not eng.more(src, 0 if mode == 'first' else Sym('pos@' + ctx.key, typ='int')):
                        return
                    row.append(eng.elem(src))
            n += 1
            yield tuple(row)
    if any(is_count(a) for a in args):
        force_later(eng, args[0])
    g = gen_pull() if finite else gen_rep()
    it = Iter(g, 'zip')
    it.isgen = True
    if not finite and len(args) == 2 and all(opaque_src(eng, a) is not None for a in args):
        # zip of two unknown sequences is itself an unknown sequence of pairs
        return eng.get_iter(Term('zip', [opaque_src(eng, a) for a in args], typ='list',
                                 elemtyp=('tuple', None)))
    return eng.register(it, 'zip')


def is_count(a):
    return isinstance(a, Iter) and getattr(a, 'count', None) is not None


@model('itertools.count')
def m_count(eng, args, kw):
    start = args[0] if args else kw.get('start', 0)
    step = args[1] if len(args) > 1 else kw.get('step', 1)

    def gen():
        i = start
        while True:
            yield i
            i = binop(eng, 'add', i, step)
    it = Iter(gen(), 'count')
    it.count = (start, step)
    return eng.register(it, 'count')


@model('map')
def m_map(eng, args, kw):
    f = args[0]

    def gen():
        if len(args) == 2:
            for x in eng.iterate(args[1], 'map'):
                yield eng.call(f, [x])
        else:
            for xs in eng.iterate(m_zip(eng, args[1:], {}), 'map'):
                yield eng.call(f, list(xs))
    it = Iter(gen(), 'map')
    it.isgen = True
    if len(args) == 2 and opaque_src(eng, args[1]) is not None:
        class N:
            pass
        n = N()
        g = N()
        g.ifs = []
        n.generators = [g]
        it.comp = (n, args[1])
    return eng.register(it, 'map')


@model('filter')
def m_filter(eng, args, kw):
    f = args[0]

    def gen():
        for x in eng.iterate(args[1], 'filter'):
            if eng.path.truth(eng.call(f, [x]) if f is not None else x):
                yield x
    it = Iter(gen(), 'filter')
    it.isgen = True
    if opaque_src(eng, args[1]) is not None:
        class N:
            pass
        n, g = N(), N()
        g.ifs = [1]
        n.generators = [g]
        it.comp = (n, args[1])
    return eng.register(it, 'filter')


def quantifier(eng, v, isall):
    p = eng.path
    comp = getattr(v, 'comp', None) if isinstance(v, Iter) else None
    src = None
    if comp is not None and len(comp[0].generators) == 1:
        src = opaque_src(eng, comp[1])
    if src is None and not isinstance(v, Iter):
        src = opaque_src(eng, v)
    if src is not None and comp is None:
        # all(xs) / any(xs) over an unknown sequence
        pred = eng.elem(src)
        if isinstance(pred, Term) and isinstance(src, Term) and src.op == 'map':
            pred, src = src.args[1], src.args[0]
        if isall:
            return Term('all', (src, pred), typ='bool')
        return Term('any', (src, pred), typ='bool')
    if src is not None and not comp[0].generators[0].ifs:
        if p.truths.get(('truth', key(src))) is False:
            return isall
        # evaluate the element predicate once; as a single predicate it is a quantified fact
        before = p.i
        val = _NO
        saved_more = eng.more
        el = None
        for x in eng.iterate(v, 'quant'):
            el = x
        if el is None:
            return isall
        if isinstance(el, (Sym, Term)) and p.i - before <= 1:
            return Term('all' if isall else 'any', (src, el), typ='bool')
        t = p.truth(el)
        # a witness decides; otherwise the representative stands for every element
        return t
    for x in eng.iterate(v, 'quant'):
        t = p.truth(x)
        if t != isall:
            return t
    return isall


@model('all')
def m_all(eng, args, kw):
    return quantifier(eng, args[0], True)


@model('any')
def m_any(eng, args, kw):
    return quantifier(eng, args[0], False)


@model('sum')
def m_sum(eng, args, kw):
    v = args[0]
    if isinstance(v, Iter) and v.src is None:
        v = materialise(eng, v)
    items = splice(eng, v)
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    for x in items:
        if isinstance(x, Rest):
            acc = binop(eng, 'add', acc, Term('sum', (x.src,), typ='int')) if acc != 0 else Term(
                'sum', (x.src,), typ='int')
        else:
            acc = binop(eng, 'add', acc, x)
    return acc


def minmax(name):
    def m(eng, args, kw):
        vals = args
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Iter) and v.src is None:
                v = materialise(eng, v)
            vals = splice(eng, v)
        if any(isinstance(x, Rest) for x in vals) or not vals:
            if not vals:
                if 'default' in kw:
                    return kw['default']
                eng.raise_ext('ValueError', ('empty sequence',))
            return eng.mkterm(name, [freeze(eng.VL(vals))], kw)
        kf = kw.get('key')
        best = vals[0]
        bk = eng.call(kf, [best]) if kf is not None else best
        for x in vals[1:]:
            k = eng.call(kf, [x]) if kf is not None else x
            lt = eng.path.truth(order(eng, 'Lt', k, bk)) if name == 'min' else eng.path.truth(
                order(eng, 'Lt', bk, k))
            if lt:
                best, bk = x, k
        return best
    return m


MODELS['min'] = minmax('min')
MODELS['max'] = minmax('max')


@model('iter')
def m_iter(eng, args, kw):
    if len(args) == 2:
        raise Imprecise('iter with sentinel')
    return eng.get_iter(args[0])


@model('next')
def m_next(eng, args, kw):
    it = args[0]
    try:
        return eng.next_value(it)
    except StopIteration:
        if len(args) > 1:
            return args[1]
        raise eng.raised(Exc(Ext('StopIteration'), ()))


@model('range')
def m_range(eng, args, kw):
    if all(isinstance(a, int) for a in args):
        r = range(*args)
        if len(r) <= 2000:
            return eng.VL(list(r))
    stop = args[-1] if len(args) < 3 else args[1]
    start = args[0] if len(args) > 1 else 0
    # indices of an unknown sequence
    if isinstance(stop, Term) and stop.op == 'len' and start == 0 and len(args) < 3:
        src = stop.args[0]
        return Sym('range({})'.format(show(stop)), typ='list', elem=lambda e: Term(
            'idx', (src,), typ='int')) if False else Term(
                'range', (stop,), typ='list', elemtyp='int')
    return Term('range', args, typ='list', elemtyp='int')


@model('type')
def m_type(eng, args, kw):
    if len(args) == 1:
        return type_of(eng, args[0])
    name, bases, ns = args
    cls = Cls(name, list(splice(eng, bases)), {e[0]: e[1] for e in ns.d.values()}, None, name)
    cls.bases = [b for b in cls.bases if not (isinstance(b, Ext) and b.name == 'object')]
    eng.register(cls, 'class:' + name)
    cls.mro = eng.compute_mro(cls)
    return cls


@model('property')
def m_property(eng, args, kw):
    return Descr('property', args[0] if args else kw.get('fget'),
                 args[1] if len(args) > 1 else kw.get('fset'))


@model('staticmethod')
def m_staticmethod(eng, args, kw):
    return Descr('staticmethod', args[0])


@model('classmethod', 'abc.abstractclassmethod')
def m_classmethod(eng, args, kw):
    return Descr('classmethod', args[0])


@model('functools.cached_property')
def m_cached_property(eng, args, kw):
    return Descr('cached_property', args[0])


@model('super')
def m_super(eng, args, kw):
    return Super(args[0], args[1])


@model('object')
def m_object(eng, args, kw):
    n = eng.path.fresh.get('object', 0) + 1
    eng.path.fresh['object'] = n
    cls = getattr(eng, '_objcls', None)
    if cls is None:
        cls = Cls('object', [], {}, None, 'object')
        eng.register(cls, 'class:object')
        cls.mro = [cls]
        eng._objcls = cls
    return eng.register(Inst(cls), 'object')


@model('functools.partial')
def m_partial(eng, args, kw):
    return Partial(args[0], args[1:], kw)


@model('functools.wraps', 'functools.lru_cache', 'functools.total_ordering')
def m_wraps(eng, args, kw):
    if args and isinstance(args[0], (Func, Cls)) and len(args) == 1 and not kw:
        return Native('wraps', lambda e, a, k: a[0])
    return Native('deco', lambda e, a, k: a[0])


@model('functools.cache')
def m_cache(eng, args, kw):
    return args[0]


@model('functools.reduce')
def m_reduce(eng, args, kw):
    it = eng.iterate(args[1], 'reduce')
    acc = args[2] if len(args) > 2 else _NO
    for x in it:
        acc = x if acc is _NO else eng.call(args[0], [acc, x])
    if acc is _NO:
        eng.raise_ext('TypeError', ('reduce of empty sequence',))
    return acc


class _Op:
    pass


for _n, _o in [('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('mod', 'mod'),
               ('or_', 'bitor'), ('and_', 'bitand'), ('floordiv', 'floordiv'), ('concat', 'add')]:
    MODELS['operator.' + _n] = (lambda o: lambda eng, a, k: binop(eng, o, a[0], a[1]))(_o)
for _n, _o in [('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')]:
    MODELS['operator.' + _n] = (lambda o: lambda eng, a, k: order(eng, o, a[0], a[1]))(_o)
MODELS['operator.eq'] = lambda eng, a, k: eng.eq_value(a[0], a[1])
MODELS['operator.ne'] = lambda eng, a, k: neg(eng.eq_value(a[0], a[1]))
MODELS['operator.is_'] = lambda eng, a, k: eng.is_value(a[0], a[1])
MODELS['operator.is_not'] = lambda eng, a, k: neg(eng.is_value(a[0], a[1]))
MODELS['operator.not_'] = lambda eng, a, k: neg(a[0]) if isinstance(
    a[0], (Sym, Term)) else not eng.path.truth(a[0])
MODELS['operator.truth'] = lambda eng, a, k: m_bool(eng, a, k)
MODELS['operator.contains'] = lambda eng, a, k: eng.in_value(a[1], a[0])
MODELS['operator.getitem'] = lambda eng, a, k: getitem(eng, a[0], a[1])


@model('operator.itemgetter')
def m_itemgetter(eng, args, kw):
    if any(isinstance(a, Rest) for a in args):
        src = args[0].src if len(args) == 1 else freeze(eng.VL(args))

        def g(e, a, k):
            # a scalar for a single key, a tuple otherwise
            return Term('itemget', (src, freeze(a[0])))
        n = Native('itemgetter', g)
        n.src = src
        return n
    if not args:
        eng.raise_ext('TypeError', ('itemgetter expected at least 1 argument',))
    if len(args) == 1:
        return Native('itemgetter', lambda e, a, k: getitem(e, a[0], args[0]))
    return Native('itemgetter', lambda e, a, k: tuple(getitem(e, a[0], i) for i in args))


@model('operator.attrgetter')
def m_attrgetter(eng, args, kw):
    def get(e, o, path):
        for n in path.split('.'):
            o = e.getattr_value(o, n)
        return o
    if len(args) == 1:
        return Native('attrgetter', lambda e, a, k: get(e, a[0], args[0]))
    return Native('attrgetter', lambda e, a, k: tuple(get(e, a[0], n) for n in args))


@model('operator.methodcaller')
def m_methodcaller(eng, args, kw):
    return Native('methodcaller', lambda e, a, k: e.call(
        e.getattr(a[0], args[0]), list(args[1:]), kw))


@model('itertools.chain')
def m_chain(eng, args, kw):
    out = []
    for a in args:
        if isinstance(a, Rest):
            out.append(Rest(Term('flatten', (a.src,), typ='list')))
        elif isinstance(a, Iter) and a.src is None:
            out += splice(eng, a)
        else:
            out += splice(eng, a)
    return eng.get_iter(eng.VL(out))


@model('itertools.chain.from_iterable')
def m_chain_fi(eng, args, kw):
    return m_chain(eng, splice(eng, args[0]), kw)


@model('itertools.islice')
def m_islice(eng, args, kw):
    a = args[0]
    if len(args) == 2:
        s = slice(None, args[1])
    else:
        s = slice(*args[1:])
    if is_opaque(eng, a) or isinstance(a, Iter):
        if isinstance(a, Iter) and a.src is None:
            def gen():
                i = 0
                for x in eng.iterate(a, 'islice'):
                    if s.stop is not None and i >= s.stop:
                        return
                    if i >= (s.start or 0):
                        yield x
                    i += 1
            return eng.register(Iter(gen(), 'islice'), 'islice')
        src = a.src if isinstance(a, Iter) else a
        if isinstance(src, VList):
            src = freeze(src) if len(src.items) != 1 else src.items[0].src
        return eng.get_iter(Term('slice', (src, s.start, s.stop, s.step), typ='list',
                                 elemtyp=getattr(src, 'elemtyp', None)))
    return eng.get_iter(do_slice(eng, m_list(eng, [a], {}), s))


@model('itertools.groupby')
def m_groupby(eng, args, kw):
    v = args[0]
    kf = args[1] if len(args) > 1 else kw.get('key')
    if isinstance(v, Iter) and v.src is None:
        v = materialise(eng, v)
    items = splice(eng, v)
    if any(isinstance(x, Rest) for x in items):
        src = items[0].src if len(items) == 1 else freeze(eng.VL(items))
        el = eng.elem(src)
        k = eng.call(kf, [el]) if kf is not None else el
        # each group is a run of consecutive elements with equal keys
        return eng.get_iter(Sym('groupby({})'.format(show(src)), typ=None, elem=lambda e: (
            k, e.VL([Rest(Term('group', (src, k), typ='list'), template=[el])]))))
    groups = []
    for x in items:
        k = eng.call(kf, [x]) if kf is not None else x
        if groups and eng.equal(groups[-1][0], k):
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    return eng.get_iter(eng.VL([(k, eng.get_iter(eng.VL(g))) for k, g in groups]))


@model('itertools.repeat')
def m_repeat(eng, args, kw):
    if len(args) > 1 and isinstance(args[1], int):
        return eng.VL([args[0]] * args[1])

    def gen():
        while True:
            yield args[0]
    return eng.register(Iter(gen(), 'repeat'), 'repeat')


@model('itertools.zip_longest')
def m_zip_longest(eng, args, kw):
    if any(is_opaque(eng, a) for a in args):
        raise Imprecise('zip_longest over unknown sequences')
    ls = [splice(eng, a) for a in args]
    n = max(len(x) for x in ls)
    fill = kw.get('fillvalue')
    return eng.get_iter(eng.VL([tuple(x[i] if i < len(x) else fill for x in ls) for i in range(n)]))


def _combinatoric(name):
    @model('itertools.' + name)
    def m(eng, args, kw):
        import itertools
        n = len(args) if name == 'product' else 1
        ls = []
        for a in args[:n]:
            a = materialise(eng, a) if isinstance(a, Iter) else a
            items = splice(eng, a)
            if is_opaque(eng, a) or any(isinstance(x, Rest) for x in items):
                raise Imprecise('itertools.{} over unknown sequences'.format(name))
            ls.append(items)
        rest = [to_py(x) for x in args[n:]]
        kw = {k: to_py(x) for k, x in kw.items()}
        return eng.get_iter(eng.VL(list(getattr(itertools, name)(*(ls + rest), **kw))))


for _n in ('product', 'combinations', 'permutations', 'pairwise', 'combinations_with_replacement'):
    _combinatoric(_n)


@model('itertools.starmap')
def m_starmap(eng, args, kw):
    def gen():
        for x in eng.iterate(args[1], 'starmap'):
            yield eng.call(args[0], splice(eng, x))
    it = Iter(gen(), 'starmap')
    it.isgen = True
    return eng.register(it, 'starmap')


@model('itertools.takewhile')
def m_takewhile(eng, args, kw):
    def gen():
        for x in eng.iterate(args[1], 'takewhile'):
            if not eng.path.truth(eng.call(args[0], [x])):
                return
            yield x
    return eng.register(Iter(gen(), 'takewhile'), 'takewhile')


@model('copy.deepcopy', 'copy.copy')
def m_copy(eng, args, kw):
    def cp(v, deep=True):
        if isinstance(v, VList):
            return eng.VL([cp(x) for x in v.items])
        if isinstance(v, VDict):
            return eng.VD([(k, cp(x)) for k, x in v.pairs()], isset=v.isset, rest=list(v.rest),
                          cls=v.cls, default=v.default)
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if isinstance(v, Inst):
            i = eng.register(Inst(v.cls, {k: cp(x) for k, x in v.attrs.items()}),
                             'inst:' + v.cls.qualname)
            if v.payload is not None:
                i.payload = cp(v.payload)
            return i
        return v
    return cp(args[0])


@model('collections.namedtuple')
def m_namedtuple(eng, args, kw):
    name, fields = args[0], args[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = splice(eng, fields)
    if not all(isinstance(f, str) for f in fields):
        return eng.mkterm('collections.namedtuple', [name, freeze(eng.VL(fields))])
    cls = Cls(name, [], {}, None, name)
    eng.register(cls, 'class:' + name)
    cls.mro = [cls]
    cls.namedtuple = fields
    nf = tuple(fields)

    if len(set(nf)) != len(nf) or any(n.startswith('_') or not n.isidentifier() for n in nf):
        if not kw.get('rename'):
            eng.raise_ext('ValueError', ('invalid field names',))
        return eng.mkterm('collections.namedtuple', [name, freeze(eng.VL(fields))])
    dflt = kw.get('defaults')
    dflt = splice(eng, dflt) if dflt is not None else []

    def init(e, a, k):
        inst = a[0]
        if any(isinstance(x, Rest) for x in a) or '**' in k:
            raise Imprecise('unknown arguments of a namedtuple')
        if len(a) - 1 > len(nf) or any(n not in nf or n in nf[:len(a) - 1] for n in k):
            e.raise_ext('TypeError', ('unexpected argument',))
        for n, v in zip(nf[len(nf) - len(dflt):], dflt):
            inst.attrs[n] = v
        for n, v in zip(nf, a[1:]):
            inst.attrs[n] = v
        for n, v in k.items():
            inst.attrs[n] = v
        if any(n not in inst.attrs for n in nf):
            e.raise_ext('TypeError', ('missing required positional arguments',))
    cls.ns['__init__'] = Native('init', init)
    cls.ns['_make'] = Native('_make', lambda e, a, k: e.call(cls, splice(e, a[-1])))
    cls.ns['_fields'] = nf
    cls.ns['_asdict'] = Native('_asdict', lambda e, a, k: e.VD([(n, a[0].attrs[n]) for n in nf]))
    cls.ns['__iter__'] = Native('__iter__', lambda e, a, k: e.get_iter(
        e.VL([a[0].attrs[n] for n in nf])))
    return cls


@model('warnings.warn')
def m_warn(eng, args, kw):
    e = eng.event('warnings.warn', args, kw)
    eng.maybe_raise('warnings.warn', args, e)
    return None


@model('print')
def m_print(eng, args, kw):
    eng.event('print', args, kw)
    return None


@model('id')
def m_id(eng, args, kw):
    return Term('id', (args[0],), typ='int')


@model('format')
def m_format(eng, args, kw):
    return fmt_value(eng, args[0], args[1] if len(args) > 1 else '', None)


@model('vars')
def m_vars(eng, args, kw):
    return eng.getattr(args[0], '__dict__')


for _n in ('typing.cast',):
    MODELS[_n] = lambda eng, a, k: a[1]


@model('typing.TypeVar', 'typing.NewType', 'typing.Protocol')
def m_typing(eng, args, kw):
    return Ext('typing.Any')


def pathlib_src(o):
    return o.args[0] if isinstance(o, Term) and o.op == 'pathlib.Path' and len(o.args) == 1 else o


@model('io.open', 'open')
def m_open(eng, args, kw):
    names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
    kw = dict(kw)
    for n, v in zip(names, args):
        kw[n] = v
    e = eng.event('open', (), kw)
    eng.maybe_raise('open', (), e)
    n = eng.path.fresh.get('open', 0)
    eng.path.fresh['open'] = n + 1
    e.result = Term('open#{}'.format(n), [Term('kw:' + k, (v,)) for k, v in sorted(kw.items())],
                    typ='file', elemtyp='str')
    return e.result


@model('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath')
def m_path(eng, args, kw):
    if len(args) == 1 and eng.path.typ(args[0]) == 'path':
        return args[0]
    if len(args) == 1 and (args[0] is None or isinstance(args[0], (Sym, Term)) and eng.path.typ(
            args[0]) is None and eng.path.truths.get(('isnone', key(args[0])))):
        eng.raise_ext('TypeError', ('expected str, bytes or os.PathLike object, not NoneType',))
    if args and all(isinstance(a, str) or const_path(a) is not None for a in args):
        return path_term(pathlib.PurePosixPath(*[
            a if isinstance(a, str) else const_path(a) for a in args]))
    return eng.mkterm('pathlib.Path', args, kw, typ='path')


@model('codecs.lookup')
def m_codecs_lookup(eng, args, kw):
    import codecs
    name = args[0]
    if isinstance(name, str):
        try:
            name = codecs.lookup(name).name
        except LookupError as ex:
            eng.raise_ext('LookupError', (str(ex),))
        return Sym('codec ' + name, attrs={'name': name}, notnone=True, truthy=True)
    e = eng.event('codecs.lookup', args, kw)
    eng.maybe_raise('codecs.lookup', args, e)
    e.result = eng.mkterm('codecs.lookup', args, kw, typ='obj')
    return e.result


@model('decimal.Decimal')
def m_decimal(eng, args, kw):
    r = fold(eng, decimal.Decimal, args, kw)
    if r is not _NO:
        return r
    if args and eng.path.typ(args[0]) == 'decimal':
        return args[0]
    e = eng.event('decimal.Decimal', args, kw)
    eng.maybe_raise('decimal.Decimal', args, e)
    return eng.mkterm('decimal.Decimal', args, kw, typ='decimal')


@model('float')
def m_float(eng, args, kw):
    r = fold(eng, float, args, kw)
    if r is not _NO:
        return r
    e = eng.event('float', args, kw)
    eng.maybe_raise('float', args, e)
    return eng.mkterm('float', args, kw, typ='float')


def sub_matches(eng, args, kw):
    # a replacement computed from each match in a constant text
    names = ['pattern', 'repl', 'string']
    a = dict(zip(names, args), **kw)
    pat, text = a.get('pattern'), a.get('string')
    if len(args) > 3 or set(a) != set(names) or not isinstance(pat, (str, re.Pattern)) or not isinstance(
            text, str) or not isinstance(a['repl'], (Func, Bound, Partial, Native)):
        return _NO
    try:
        ms = list(re.finditer(pat, text))
    except re.error:
        return _NO
    parts, end = [], 0
    for m in ms:
        parts += [text[end:m.start()], eng.call(a['repl'], [Match(m)])]
        end = m.end()
    return cat(eng, parts + [text[end:]])


def re_model(name):
    def m(eng, args, kw):
        r = fold(eng, getattr(re, name), args, kw)
        if r is _NO and name == 'sub':
            r = sub_matches(eng, args, kw)
        if r is not _NO:
            return r
        e = eng.event('re.' + name, args, kw)
        eng.maybe_raise('re.' + name, args, e)
        t, et, x = RESULT.get('re.' + name, (None, None, None))
        e.result = eng.mkterm('re.' + name, args, kw, typ=t, elemtyp=et)
        return e.result
    return m


for _n in ('match', 'search', 'fullmatch', 'sub', 'split', 'escape', 'findall', 'compile'):
    MODELS['re.' + _n] = re_model(_n)


# ------------------------------------------------------------------------------------ context managers
class CtxMan(V):
    def __init__(self, kind, data):
        self.kind, self.data = kind, data
        self.stack = []

    def key(self):
        return ('cm', id(self))


@model('contextlib.ExitStack')
def m_exitstack(eng, args, kw):
    cm = CtxMan('exitstack', None)
    s = Sym('ExitStack#{}'.format(eng.path.fresh.get('ExitStack', 0)), truthy=True)
    eng.path.fresh['ExitStack'] = eng.path.fresh.get('ExitStack', 0) + 1
    s.cm = cm

    def enter_context(e, a, k):
        v = e.enter(a[0])
        cm.stack.append(('cm', a[0]))
        return v

    def callback(e, a, k):
        cm.stack.append(('cb', (a[0], list(a[1:]), k)))
        return a[0]

    def close(e, a, k):
        exit_(e, s, None)

    def pop_all(e, a, k):
        raise Imprecise('ExitStack.pop_all')
    s.methods = {'enter_context': enter_context, 'callback': callback, 'push': callback,
                 'close': close, 'pop_all': pop_all}
    return s


@model('contextlib.closing')
def m_closing(eng, args, kw):
    s = Sym('closing({})'.format(show(args[0])), truthy=True)
    s.cm = CtxMan('closing', args[0])
    return s


@model('contextlib.suppress')
def m_suppress(eng, args, kw):
    s = Sym('suppress', truthy=True)
    s.cm = CtxMan('suppress', tuple(args))
    return s


@model('contextlib.nullcontext')
def m_nullcontext(eng, args, kw):
    s = Sym('nullcontext', truthy=True)
    s.cm = CtxMan('null', args[0] if args else None)
    return s


@model('contextlib.contextmanager')
def m_contextmanager(eng, args, kw):
    f = args[0]

    def make(e, a, k):
        g = e.call(f, a, k)
        s = Sym('contextmanager', truthy=True)
        s.cm = CtxMan('gen', g)
        return s
    return Native('contextmanager', make)


@model('warnings.catch_warnings')
def m_catch_warnings(eng, args, kw):
    n = eng.path.fresh.get('catch_warnings', 0)
    eng.path.fresh['catch_warnings'] = n + 1
    s = Sym('catch_warnings#{}'.format(n), truthy=True)
    s.cm = CtxMan('warnings', (kw.get('record', args[0] if args else False), n))
    return s


def enter(eng, cm):
    c = getattr(cm, 'cm', None)
    if c is None:
        if cm is None:
            eng.raise_ext('AttributeError', ('__enter__',))
        if isinstance(cm, Iter):
            raise Imprecise('generator as context manager')
        e = eng.event('__enter__', (cm,))
        eng.maybe_raise('__enter__', (cm,), e)
        if isinstance(cm, Sym) and '__enter__' in cm.methods:
            return cm.methods['__enter__'](eng, [], {})
        return cm
    if c.kind == 'exitstack':
        return cm
    if c.kind == 'closing':
        return c.data
    if c.kind in ('suppress',):
        return None
    if c.kind == 'null':
        return c.data
    if c.kind == 'gen':
        try:
            return next(c.data.gen)
        except StopIteration:
            eng.raise_ext('RuntimeError', ("generator didn't yield",))
    if c.kind == 'warnings':
        eng.event('catch_warnings.enter', (c.data[0], c.data[1]))
        if eng.path.truth(c.data[0]):
            r = Sym('recorded_warnings#{}'.format(c.data[1]), typ='list')
            r.start = len(eng.path.events)
            return r
        return None
    raise Imprecise('context manager ' + c.kind)


def exit_(eng, cm, raised):
    c = getattr(cm, 'cm', None)
    if c is None:
        e = eng.event('__exit__', (cm, raised.exc if raised else None))
        eng.maybe_raise('__exit__', (cm,), e)
        if isinstance(cm, Sym) and '__exit__' in cm.methods:
            return eng.path.truth(cm.methods['__exit__'](
                eng, [None] * 3 if raised is None else [raised.exc] * 3, {}))
        return False
    from .engine import Raised
    if c.kind == 'exitstack':
        swallowed = False
        cur = raised
        while c.stack:
            kind, x = c.stack.pop()
            if kind == 'cm':
                try:
                    if eng.exit(x, cur) and cur is not None:
                        cur = None
                        swallowed = True
                except Raised as r:
                    cur = r
                    swallowed = False
            else:
                eng.call(*x)
        if cur is not None and cur is not raised:
            raise cur
        return swallowed
    if c.kind == 'closing':
        eng.call(eng.getattr(c.data, 'close'), [])
        return False
    if c.kind == 'suppress':
        return raised is not None and any(eng.exc_match(raised.exc, t) for t in c.data)
    if c.kind == 'null':
        return False
    if c.kind == 'gen':
        if raised is None:
            try:
                next(c.data.gen)
            except StopIteration:
                return False
            eng.raise_ext('RuntimeError', ("generator didn't stop",))
        try:
            c.data.gen.throw(raised)
        except StopIteration:
            return True
        except Raised as r:
            if r is raised:
                return False
            raise
        eng.raise_ext('RuntimeError', ("generator didn't stop",))
    if c.kind == 'warnings':
        eng.event('catch_warnings.exit', (c.data[0], c.data[1]))
        return False
    raise Imprecise('context manager ' + c.kind)


exit = exit_


# ------------------------------------------------------------------------------------ attrs
NOTHING = Ext('attr.NOTHING')
CONSTS['attr.NOTHING'] = NOTHING


@model('attr.ib', 'attr.attrib', 'attrs.field', 'attr.field')
def m_attrib(eng, args, kw):
    kw = dict(kw)
    if args:
        kw['default'] = args[0]
    if 'factory' in kw:
        kw['default'] = m_factory(eng, [kw.pop('factory')], {})
    a = Attrib(kw)
    v = kw.get('validator')
    if v is not None:
        a.validators = splice(eng, v) if isinstance(v, (VList, tuple)) else [v]
    return a


class Factory(V):
    def __init__(self, f, takes_self=False):
        self.f, self.takes_self = f, takes_self

    def key(self):
        return ('factory', id(self))


@model('attr.Factory', 'attrs.Factory')
def m_factory(eng, args, kw):
    return Factory(args[0] if args else kw['factory'], kw.get('takes_self', False))


@model('attr.s', 'attr.attrs', 'attr.define', 'attrs.define', 'attr.dataclass', 'attrs.frozen',
       'attr.frozen')
def m_attrs(eng, args, kw):
    if args and isinstance(args[0], Cls):
        return make_attrs(eng, args[0], kw)
    return Native('attr.s', lambda e, a, k: make_attrs(e, a[0], kw))


def make_attrs(eng, cls, kw):
    fields = {}
    for c in reversed(cls.mro[1:]):
        if isinstance(c, Cls) and c.fields is not None:
            for n, f in c.fields.items():
                fields.pop(n, None)
                fields[n] = f
    own = [(n, v) for n, v in cls.ns.items() if isinstance(v, Attrib)]
    for n, v in own:
        v.name = n
        fields.pop(n, None)
    for n, v in own:
        fields[n] = v
        del cls.ns[n]
    cls.fields = fields

    if '__init__' not in cls.ns:
        cls.ns['__init__'] = Native('attrs.__init__:' + cls.name,
                                    lambda e, a, k: attrs_init(e, cls, a[0], a[1:], k))
    return cls


def attrs_init(eng, cls, inst, args, kw):
    kw = dict(kw)
    star = freeze(kw.pop('**', None))
    names = [n for n, f in cls.fields.items() if f.kw.get('init', True)]
    vals = {}
    if len(args) > len(names):
        eng.raise_ext('TypeError', ('too many positional arguments',))
    for n, v in zip(names, args):
        vals[n] = v
    for n in names:
        arg = n.lstrip('_')
        if arg in kw:
            if n in vals:
                eng.raise_ext('TypeError', ('multiple values for argument',))
            vals[n] = kw.pop(arg)
    if kw:
        eng.raise_ext('TypeError', ("{}.__init__() got an unexpected keyword argument '{}'".format(
            cls.name, sorted(kw)[0]),))
    eng.push_frame(cls.qualname + '.__init__', None, cls.module, None) if cls.module else None
    try:
        for n, f in cls.fields.items():
            if n in vals:
                v = vals[n]
            else:
                if star is not None:
                    if eng.path.in_src(n.lstrip('_'), star):
                        v = opaque_getitem(eng, star, n.lstrip('_'))
                    else:
                        v = field_default(eng, f, inst)
                else:
                    v = field_default(eng, f, inst)
            conv = f.kw.get('converter')
            if conv is not None:
                if isinstance(conv, (VList, tuple)):
                    for c in splice(eng, conv):
                        v = eng.call(c, [v])
                else:
                    v = eng.call(conv, [v])
            inst.attrs[n] = v
        for n, f in cls.fields.items():
            for val in f.validators:
                eng.call(val, [inst, attr_desc(eng, f), inst.attrs[n]])
    finally:
        if cls.module:
            eng.pop_frame()
    post = eng.class_attr(inst.cls, '__attrs_post_init__')
    if post is not None:
        eng.call(post, [inst])
    return None


def field_default(eng, f, inst):
    if 'default' not in f.kw:
        eng.raise_ext('TypeError', ("missing required argument: '{}'".format(f.name),))
    d = f.kw['default']
    if isinstance(d, Factory):
        return eng.call(d.f, [inst] if d.takes_self else [])
    if isinstance(d, tuple) and len(d) == 2 and d[0] == 'method':
        return eng.call(d[1], [inst])
    return d


def attr_desc(eng, f):
    d = Sym('attribute:' + f.name, truthy=True)
    default = f.kw.get('default', NOTHING)
    if isinstance(default, Factory):
        fac = default
        ds = Sym('Factory', truthy=True, ext='attr.Factory')
        ds.attrs = {'factory': fac.f, 'takes_self': fac.takes_self}
        default = ds
    d.attrs = {'name': f.name, 'default': default, 'validator': f.kw.get('validator'),
               'converter': f.kw.get('converter'), 'repr': f.kw.get('repr', True),
               'eq': f.kw.get('eq', True), 'init': f.kw.get('init', True),
               'metadata': f.kw.get('metadata'), 'alias': f.name.lstrip('_')}
    return d


def cls_fields(eng, c):
    if isinstance(c, Inst):
        c = c.cls
    if not isinstance(c, Cls) or c.fields is None:
        raise Imprecise('attr.fields of {}'.format(show(c)))
    return c.fields


@model('attr.fields', 'attrs.fields')
def m_fields(eng, args, kw):
    return tuple(attr_desc(eng, f) for f in cls_fields(eng, args[0]).values())


@model('attr.fields_dict', 'attrs.fields_dict')
def m_fields_dict(eng, args, kw):
    return eng.VD([(n, attr_desc(eng, f)) for n, f in cls_fields(eng, args[0]).items()])


@model('attr.asdict', 'attrs.asdict')
def m_asdict(eng, args, kw):
    inst = args[0]

    def conv(v):
        if isinstance(v, Inst) and v.cls.fields is not None:
            return eng.VD([(n, conv(v.attrs.get(n))) for n in v.cls.fields])
        if isinstance(v, VList):
            return eng.VL([conv(x) for x in v.items])
        return v
    return eng.VD([(n, conv(inst.attrs.get(n))) for n in inst.cls.fields])


@model('attr.evolve', 'attrs.evolve')
def m_evolve(eng, args, kw):
    inst = args[0]
    vals = {n.lstrip('_'): inst.attrs[n] for n in inst.cls.fields}
    vals.update(kw)
    return eng.instantiate(inst.cls, [], vals)


def validator_fail(eng, exc, msg):
    eng.raise_ext(exc, (msg,))


@model('attr.validators.instance_of', 'attrs.validators.instance_of')
def m_v_instance_of(eng, args, kw):
    def v(e, a, k):
        if not e.path.truth(m_isinstance(e, [a[2], args[0]], {})):
            e.raise_ext('TypeError', ("'{}' must be {}".format(show(a[1]), show(args[0])),))
    return Native('instance_of', v)


@model('attr.validators.in_', 'attrs.validators.in_')
def m_v_in(eng, args, kw):
    def v(e, a, k):
        if not e.path.truth(e.in_value(a[2], args[0])):
            e.raise_ext('ValueError', ('must be in',))
    return Native('in_', v)


@model('attr.validators.optional', 'attrs.validators.optional')
def m_v_optional(eng, args, kw):
    vals = splice(eng, args[0]) if isinstance(args[0], (VList, tuple)) else [args[0]]

    def v(e, a, k):
        if not e.path.isnone(a[2]):
            for x in vals:
                e.call(x, a)
    return Native('optional', v)


@model('attr.validators.and_', 'attrs.validators.and_')
def m_v_and(eng, args, kw):
    def v(e, a, k):
        for x in args:
            e.call(x, a)
    return Native('and_', v)


def _v_cmp(name, op):
    def m(eng, args, kw):
        def v(e, a, k):
            if not e.path.truth(order(e, op, a[2], args[0])):
                e.raise_ext('ValueError', ('must be {} {}'.format(name, show(args[0])),))
        return Native(name, v)
    return m


for _n, _o in (('ge', 'GtE'), ('gt', 'Gt'), ('le', 'LtE'), ('lt', 'Lt')):
    MODELS['attr.validators.' + _n] = MODELS['attrs.validators.' + _n] = _v_cmp(_n, _o)


@model('attr.converters.optional')
def m_c_optional(eng, args, kw):
    return Native('conv.optional', lambda e, a, k: None if e.path.isnone(a[0]) else e.call(
        args[0], [a[0]]))


@model('attr.converters.default_if_none')
def m_c_default(eng, args, kw):
    return Native('conv.default', lambda e, a, k: (
        args[0] if args else e.call(kw['factory'], [])) if e.path.isnone(a[0]) else a[0])


@model('types.MethodType')
def m_methodtype(eng, args, kw):
    return Bound(args[0], args[1])
