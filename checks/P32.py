"""Operations change neither descriptions nor what the caller hands in."""
from .tables import *
from . import P18, P19, P20, P22, database as D
from .P18 import NS, FULL, OWN, fill
from .P19 import place, target
from .P20 import doc
from csvwlint.path import _NO

ASSUMPTIONS = ['documents, rows and tables of the shapes listed stand for all; strings and numbers are arbitrary '
               'where no concrete value is given',
               'what counts as part of a description are its properties (attributes defined by attrs and entries), '
               'not what is only remembered for later, e.g. comments']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils', 'csvw.dsv_dialects']


def snap(v, seen=()):
    """a value with all that is reachable from it, as it is now"""
    if isinstance(v, Inst):
        if id(v) in seen:
            return 'cycle'
        seen = seen + (id(v),)
        fields = v.cls.fields
        res = [v.cls.name]
        for k, x in sorted(v.attrs.items()):
            if k == '_parent':
                res.append((k, id(x) if isinstance(x, Inst) else show(x)))
            elif (fields is None or k in fields) and not k.startswith('__'):
                res.append((k, snap(x, seen)))
        if v.payload is not None:
            res.append(snap(v.payload, seen))
        return tuple(res)
    if isinstance(v, VDict):
        return ('dict',) + tuple((show(e[0]), snap(e[1], seen)) for e in v.d.values()) + ((
            'rest', repr(v.rest)),) * bool(v.rest)
    if isinstance(v, (VList, list)):
        return ['list'] + [snap(x, seen) for x in (v.items if isinstance(v, VList) else v)]
    if isinstance(v, tuple):
        return ('tuple',) + tuple(snap(x, seen) for x in v)
    if isinstance(v, (Sym, Term, Rest)):
        return repr(key(v)) if not isinstance(v, Rest) else repr(v)
    return repr(v)


def changed(a, b, path=''):
    """where two snapshots differ"""
    if type(a) is not type(b) or not isinstance(a, (list, tuple)) or not a or not b or a[0] != b[0]:
        return None if a == b else '{} was {} and is {}'.format(path or 'the value', words(a), words(b))
    if len(a) != len(b):
        return '{} was {} and is {}'.format(path or a[0], words(a), words(b))
    for x, y in zip(a[1:], b[1:]):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) == 2 and x[0] == y[0]:
                return changed(x[1], y[1], path + '.' + str(x[0]))
            return changed(x, y, path + '[]')
    return None


def words(x):
    return str(x)[:300]


class Watch:
    """inputs which must be the same at the end"""
    def __init__(self, ob, what, **things):
        self.ob, self.what, self.things = ob, what, things
        self.before = {k: snap(v) for k, v in things.items()}

    def done(self, how=''):
        for k, v in self.things.items():
            r = changed(self.before[k], snap(v))
            self.ob(r is None, self.what + ': ' + k, lambda: '{} of the caller changed: {}{}'.format(
                k, r, how and ' ({})'.format(how)))


def prepare(eng):
    P19.prepare(eng)
    eng.overrides['csvw.metadata.get_json'] = lambda e, a, k: doc(e, {'delimiter': ';', 'foo': 1})


# -- describing ----------------------------------------------------------------------------
def describing(cls):
    vals = []
    for props in (P18.VALUES, P19.PROPS):
        for prop, vs in sorted(props.get(cls, {}).items()):
            for v in (vs if props is P18.VALUES else vs[1]):
                vals.append((prop, v))
    if cls != 'Dialect':
        vals += [('dc:x', v) for v in P20.GOOD + P20.BAD]
        vals += [('dc:x', w(v)) for _, w in P20.WRAP for v in P20.GOOD if isinstance(v, dict)]
        vals += [('dc:x', v) for v in INVALID]

    def h(eng, ob):
        prepare(eng)
        P = eng.path
        prop, v = vals[P.choose('value', len(vals))]
        v = fill(v)
        own = {k: x for k, x in OWN[cls].items() if k != prop}
        d = doc(eng, place(cls, v if cls == 'Datatype' and prop == 'dt' else dict(own, **{prop: v})))
        w = Watch(ob, 'describing ' + cls, document=d)
        run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.TableGroup'), 'fromvalue'), [d]))
        w.done('{} {!r}'.format(prop, v))
    return h


INVALID = [{'@value': 'x', '@language': 'no tag'}, {'@value': 'x', '@language': 5}, {'@id': 5}, {'@id': '_:x'}, {'@id': None},
           {'a': {'@value': 'x', '@language': 'no tag'}}, [{'@value': 1, '@language': None}], {'a': [{'@id': {}}]},
           {'@id': 'http://x', 'a': {'@id': 7, 'b': [{'@value': '', '@language': '-'}]}}]
CONTEXTS = [NS, [NS], [NS, {'@language': 'en'}], [NS, {'@language': 'no tag'}], [NS, {'@base': 'http://x.org/', '@language': 5}],
            [NS, {'@base': 'http://x.org/'}], [NS, {'@language': 'no tag', 'foo': 1}], [{'@language': '-'}, NS, {'@language': '-'}]]
SCHEMAS = [None, 's.json', 'http://y.org/s.json', {}, {'columns': [{'name': 'a', 'datatype': {'format': 'x'}}]}, 5]


def documents():
    """complete documents of table groups and tables"""
    res = []
    for ctx in CONTEXTS:
        for s in SCHEMAS:
            own = {} if s is None else {'tableSchema': s}
            t = dict({'url': 't.csv', 'dc:x': {'@value': 'x', '@language': 'no tag'}}, **own)
            res.append(('Table', dict(t, **{'@context': ctx})))
            res.append(('TableGroup', {'@context': ctx, 'tables': [{'url': 'u.csv'}, t, dict(t, url='v.csv')]}))
    res.append(('TableGroup', dict(FULL)))
    more = {'_x': 1, 'foo': 'y', '@foo': 'z', 'name': 'n', 'http://x.org/y': {'a': 1}, 'resource': 5, '@type': 'Table'}
    res.append(('Table', dict(more, url='t.csv', **{'@context': NS, 'tableSchema': dict(more, columns=[dict(more)], **{'@type': 'Schema'})})))
    res.append(('TableGroup', dict(more, **{'@context': NS, '@type': 'TableGroup', 'tables': [dict(more, url='t.csv')]})))
    res.append(('TableGroup', {'@context': NS, 'tables': [{'url': 't.csv', 'dialect': dict(more), 'tableSchema': {'columns': [
        {'name': 'a', 'datatype': dict(more, base='string')}], 'foreignKeys': [
            {'_x': 1, 'columnReference': ['a'], 'reference': {'resource': 't.csv', 'columnReference': ['a']}}]}}]}))
    for x in (None, 5, 'x', {}, {'url': 't.csv', 'tableSchema': 's.json'}, [], [5, None, 'x', {'url': 'x'}]):
        res.append(('TableGroup', {'@context': NS, 'tables': x}))
    for i in ('http://example.org/t', 5, None, '_:x'):
        res.append(('Table', {'@context': NS, '@id': i, 'url': 't.csv', 'dialect': 'd.json'}))
        res.append(('TableGroup', {'@context': NS, '@id': i, 'tables': [{'url': 't.csv', '@id': i}], 'dialect': 'd.json'}))
    res += [(c, dict(d, **{'@base': b})) for c, d in res[:4] for b in ('http://z.org/', 'x/')]
    return res


DOCS = documents()


def loading(eng, ob):
    """fromvalue, from_url and from_file with the data of the caller"""
    prepare(eng)
    P = eng.path
    cls, d = DOCS[P.choose('document', len(DOCS))]
    how = ['fromvalue', 'from_url', 'from_file', 'from_file with a URL'][P.choose('how', 4)]
    remote = {'columns': [{'name': 'r', 'datatype': {}}]}
    eng.ext_overrides['.json'] = lambda e, a, k: doc(e, remote)
    x = doc(eng, d)
    w = Watch(ob, how, document=x)
    c = find(eng, 'csvw.metadata.' + cls)

    def f():
        if how == 'fromvalue':
            return eng.call(eng.getattr(c, how), [x])
        where = 'dir/md.json' if how == 'from_file' else 'http://example.org/d/md.json'
        return eng.call(eng.getattr(c, how.split()[0]), [where], {'data': x})
    o = run(eng, f)
    w.done(str(d))
    if o.returned:
        # the description is made again from the same data
        o2 = run(eng, f)
        ob(o2.returned and P19.py(o.value) == P19.py(o2.value), how + ': again', lambda: (
            'describing {} twice gives different descriptions'.format(d)))


COLS = [{'name': 'a', 'titles': {'en': ['x', 'y']}, 'datatype': {'base': 'integer', 'minimum': 0}},
        {'name': 'b', 'datatype': {'format': 'a*'}, 'null': ['x'], 'dc:x': {'@id': 5}}]
ARGS = {
    'Dialect': [('lineTerminators', ['\n', '\r']), ('lineTerminators', []), ('lineTerminators', [5])],
    'Datatype': [('format', {'pattern': '0.0', 'decimalChar': ','}), ('common_props', {'dc:x': {'@id': 5}}),
                 ('at_props', {'id': 'http://example.org/d'}), ('at_props', {'id': None}), ('format', {})],
    'Column': [('null', ['x', 'y']), ('null', []), ('null', [5]), ('titles', ['x', 'y']), ('titles', {'en': ['x'], 'de': 'y'}),
               ('titles', {'en': ['x', 5]}), ('titles', [5]), ('datatype', {}), ('datatype', {'format': 'x'}),
               ('datatype', {'base': 'integer', 'minimum': 0, 'dc:x': {'@value': 'x', '@language': '-'}}),
               ('common_props', {'dc:x': ['y']}), ('at_props', {'id': None})],
    'Schema': [('columns', COLS), ('columns', [COLS[0], 5]), ('foreignKeys', [P18.FK]), ('foreignKeys', [P18.FK, 5]),
               ('primaryKey', ['a', 'b']), ('primaryKey', [5]), ('rowTitles', ['a']), ('rowTitles', [5]), ('datatype', {})],
    'Table': [('tableSchema', {'columns': COLS, 'foreignKeys': [P18.FK]}), ('dialect', {'delimiter': ';', 'foo': 1, '@type': 'Dialect'}),
              ('dialect', {'headerRowCount': 2, 'dc:x': {'@id': 5}}), ('notes', [{'a': []}]), ('transformations', P18.TRAFOS[0]),
              ('transformations', [{'url': 'x', 'foo': 1, 'dc:x': {'@id': 5}}]), ('at_props', {'id': None}),
              ('at_props', {'id': 'x', 'context': [NS, {'@language': '-'}]}), ('at_props', {'base': 'http://x.org/', 'id': None}),
              ('common_props', {'dc:x': {'@value': 5}}), ('null', ['x'])],
    'TableGroup': [('tables', [{'url': 't.csv', 'tableSchema': {'columns': COLS}}]), ('tables', [5, {'url': 't.csv'}]),
                   ('at_props', {'context': [NS, {'@language': 5, '@base': 'x'}], 'id': None}), ('tableSchema', {'columns': COLS}),
                   ('notes', ['x']), ('dialect', {})],
}
ARGS = [(c, k, v) for c in sorted(ARGS) for k, v in ARGS[c]]


def constructing(eng, ob):
    """constructors with objects of the caller"""
    prepare(eng)
    cls, name, v = ARGS[eng.path.choose('argument', len(ARGS))]
    x = doc(eng, v)
    w = Watch(ob, cls, argument=x)
    kw = dict({'Table': {'url': 't.csv'}, 'Datatype': {'base': 'decimal'}}.get(cls, {}), **{name: x})
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.' + cls), [], kw))
    w.done('{}({}={})'.format(cls, name, v))
    if o.returned and cls != 'Dialect':
        call(eng, o.value, 'asdict')
        w.done('{}({}={}).asdict()'.format(cls, name, v))


def growing(eng, ob):
    """what is added to a description later is not added to the data it was made from"""
    prepare(eng)
    P = eng.path
    how = P.choose('how', 7)
    if how < 3:
        lang = ['en', 'de', None][P.choose('language', 3)]
        x = doc(eng, [['x', 'y'], {'en': ['x', 'y'], 'de': 'z'}, {'en': []}][how])
        w = Watch(ob, 'adding titles', titles=x)
        col = eng.call(find(eng, 'csvw.metadata.Column'), [], {'titles': x})
        o = call(eng, eng.getattr(col, 'titles'), 'add', 'new', **({} if lang is None else {'lang': lang}))
        w.done()
    elif how == 3:
        keys, ref = doc(eng, ['a']), doc(eng, ['x'])
        d = doc(eng, {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}], 'foreignKeys': [P18.FK] * P.choose('keys', 2)}})
        w = Watch(ob, 'add_foreign_key', document=d, key=keys, referenced=ref)
        t = eng.call(eng.getattr(find(eng, 'csvw.metadata.Table'), 'fromvalue'), [d])
        call(eng, t, 'add_foreign_key', keys, 'u.csv', ref)
        o = call(eng, t, 'add_foreign_key', keys, 'w.csv', ref)
        w.done()
    elif how == 4:
        d = doc(eng, {'columnReference': ['a'], 'reference': {'resource': 'u.csv', 'columnReference': ['x']}})
        w = Watch(ob, 'ForeignKey', document=d)
        o = run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.ForeignKey'), 'fromdict'), [d]))
        w.done()
    elif how == 5:
        d = doc(eng, {'url': 't.csv', 'dc:x': 'y', '@id': 'x', 'tableSchema': {'columns': [{'name': 'a'}]}})
        w = Watch(ob, 'adding properties', document=d)
        t = eng.call(eng.getattr(find(eng, 'csvw.metadata.Table'), 'fromvalue'), [d])
        call(eng, eng.getattr(t, 'common_props'), '__setitem__', 'dc:z', 5)
        call(eng, eng.getattr(t, 'at_props'), '__setitem__', 'id', 'y')
        s = eng.getattr(t, 'tableSchema')
        o = call(eng, eng.getattr(s, 'columns'), 'append', eng.call(find(eng, 'csvw.metadata.Column'), [], {'name': 'b'}))
        w.done()
    else:
        d = doc(eng, {'tables': [{'url': 't.csv'}]})
        w = Watch(ob, 'adding tables', document=d)
        t = eng.call(eng.getattr(find(eng, 'csvw.metadata.TableGroup'), 'fromvalue'), [d])
        o = call(eng, eng.getattr(t, 'tables'), 'append', eng.call(find(eng, 'csvw.metadata.Table'), [], {'url': 'u.csv'}))
        w.done()
    ob(True if o.returned else None, 'growing', lambda: o.describe(eng))


# -- operations on descriptions ---------------------------------------------------------------
TG = {
    '@context': [NS, {'@language': 'en'}], 'dc:title': 'group', 'dc:x': [{'@value': 5}, {'@id': 'http://x.org'}, {'a': []}],
    'null': ['NA'], 'dialect': {'commentPrefix': '#'}, 'required': False,
    'tables': [
        {'url': 'p.csv', 'dc:description': 'text', 'notes': [{'@value': 'x'}, {'b': [1]}], 'tableSchema': {
            'primaryKey': ['a'], 'rowTitles': ['b'], 'columns': [
                {'name': 'a', 'datatype': {'base': 'integer', 'minimum': 0, 'maximum': 99}},
                {'name': 'b', 'titles': {'en': ['B', 'BB'], 'de': 'b'}, 'datatype': {'format': '[a-z]*'}, 'null': []}]}},
        {'url': 'c.csv', 'tableSchema': {
            'aboutUrl': '#{x}', 'primaryKey': ['y', 'x'],
            'foreignKeys': [{'columnReference': ['y'], 'reference': {'resource': 'p.csv', 'columnReference': ['a']}}],
            'columns': [
                {'name': 'x', 'required': True, 'dc:description': 'x'}, {'name': 'y', 'datatype': 'integer'},
                {'name': 'z', 'separator': ';', 'default': 'd', 'propertyUrl': 'dc:z'},
                {'name': 'v', 'virtual': True, 'propertyUrl': 'dc:type', 'valueUrl': '#{x}'}]}}]}
ROWS = {'p.csv': [['a', 'b'], ['1', 'x'], ['2', 'NA']], 'c.csv': [['x', 'y', 'z'], ['k', '1', 'u;v'], ['l', '2', '']]}
BADROWS = [
    {}, {'p.csv': [['a', 'b'], ['no', 'x'], ['2', 'y']]}, {'p.csv': [['b', 'a', 'more'], ['x', '1', '2'], ['y', '1', '3']]},
    {'p.csv': [['a', 'b'], ['1', '1'], ['2', 'x'], ['2', 'y']]}, {'c.csv': [['x', 'y', 'z'], ['k', '7', 'u'], ['', '1', 'v']]},
    {'c.csv': [['x', 'y'], ['k', ''], ['k', '']]}, {'c.csv': [['z', 'y', 'x', 'q', 'r'], ['u', '1', 'k', '5', '6'], ['u', '1', 'k']]},
    {'p.csv': [['a'], ['100'], ['3']]}, {'p.csv': []}, {'c.csv': [['x', 'y', 'z']]}]
TREES = ['as it is', 'no columns', 'no keys', 'no names']


def described(eng, tree):
    d = doc(eng, TG)
    tg = eng.call(eng.getattr(find(eng, 'csvw.metadata.TableGroup'), 'fromvalue'), [d])
    tg.attrs['_fname'] = T('pathlib.Path', 'd/md.json', typ='path')
    for t in thaw_items(eng.getattr(tg, 'tables')):
        s = eng.getattr(t, 'tableSchema')
        if tree == 'no columns':
            s.attrs['columns'] = eng.VL([])
        for c in thaw_items(s.attrs['columns']) if tree == 'no names' else []:
            c.attrs['name'] = None
        if tree != 'as it is':
            s.attrs['foreignKeys'], s.attrs['primaryKey'] = eng.VL([]), None
    return tg, d


def text(v):
    if isinstance(v, str):
        return v
    return ' '.join(text(a) for a in v.args) if isinstance(v, Term) else ''


def environment(eng, bad=0):
    prepare(eng)
    rows = dict(ROWS, **BADROWS[bad])

    def given(src):
        s = text(src) + ' ' + show(src)
        return rows['p.csv' if 'p.csv' in s else 'c.csv']
    given_rows(eng, given)
    P19.prepare(eng)
    eng.ext_overrides['.is_dir'] = lambda e, a, k: True
    eng.ext_overrides['os.path.isdir'] = lambda e, a, k: True


def outcome(eng, o):
    if not o.returned:
        return 'raises ' + o.describe(eng)
    return o.value


READS = ['iterdicts', 'iterdicts with log', 'lenient', 'with metadata', 'check_primary_key', 'check_primary_key with log',
         'read', 'check_referential_integrity', 'integrity with log', 'strict integrity', 'iter', 'validate_schema']


def do_read(eng, tg, op):
    ts = thaw_items(eng.getattr(tg, 'tables'))
    log = logger(eng)
    out = []
    if op in ('iterdicts', 'iterdicts with log', 'lenient', 'with metadata', 'iter'):
        kw = {'iterdicts with log': {'log': log}, 'lenient': {'strict': False}, 'with metadata': {'with_metadata': True}}.get(op, {})
        for t in ts:
            g = run(eng, lambda: eng.get_iter(t)) if op == 'iter' else call(eng, t, 'iterdicts', **kw)
            if not g.returned:
                out.append(g.describe(eng))
                continue
            items, o = collect(eng, g.value)
            out += [snap(x) for x in items] + ([o.describe(eng)] if o else [])
        return out
    if op.startswith('check_primary_key'):
        for t in ts:
            out.append(call(eng, t, 'check_primary_key', **({'log': log} if 'log' in op else {})))
    elif op == 'read':
        out.append(call(eng, tg, 'read'))
    elif op == 'validate_schema':
        out.append(call(eng, tg, 'validate_schema', strict=True))
    else:
        out.append(call(eng, tg, 'check_referential_integrity', **(
            {'log': log} if 'log' in op else {'strict': True} if 'strict' in op else {})))
    return [snap(o.value) if o.returned else o.describe(eng) for o in out]


def reads(eng, ob):
    P = eng.path
    bad = P.choose('rows', len(BADROWS))
    environment(eng, bad)
    tg, d = described(eng, TREES[P.choose('description', len(TREES))])
    op = READS[P.choose('operation', len(READS))]
    w = Watch(ob, op, description=tg, document=d)
    r1 = do_read(eng, tg, op)
    w.done()
    r2 = do_read(eng, tg, op)
    ob(r1 == r2, op + ': again', lambda: 'the second time gives {} instead of {}'.format(words(r2), words(r1)))
    w.done('the second time')


SERIAL = ['asdict', 'asdict with defaults', 'to_file', 'to_file with defaults', 'parts', 'lookups', 'markdown']


def do_serial(eng, tg, op, cls=None):
    out = []
    if op.startswith('asdict'):
        out.append(call(eng, tg, 'asdict', omit_defaults=op == 'asdict'))
    elif op.startswith('to_file'):
        start = len(eng.path.events)
        out.append(call(eng, tg, 'to_file', 'x.json', omit_defaults=op == 'to_file'))
        return [snap(e.args[0]) for e in events(eng, 'json.dump', start)] + [snap(o.value) if o.returned else o.describe(eng) for o in out]
    elif op == 'parts':
        for t in thaw_items(eng.getattr(tg, 'tables')):
            s = eng.getattr(t, 'tableSchema')
            cols = thaw_items(eng.getattr(s, 'columns'))
            for x in [t, s] + cols + thaw_items(eng.getattr(s, 'foreignKeys')) + [
                    dt for c in cols for dt in [eng.getattr(c, 'datatype')] if dt is not None]:
                out.append(call(eng, x, 'asdict'))
        out.append(call(eng, eng.getattr(tg, 'dialect'), 'asdict'))
    elif op == 'lookups':
        out.append(run(eng, lambda: eng.getattr(tg, 'tabledict')))
        out.append(call(eng, tg, 'foreign_keys'))
        out.append(run(eng, lambda: eng.getattr(tg, 'base')))
        for t in thaw_items(eng.getattr(tg, 'tables')):
            s = eng.getattr(t, 'tableSchema')
            out.append(run(eng, lambda: eng.getattr(t, 'base')))
            out.append(run(eng, lambda: eng.getattr(s, 'columndict')))
            for n in ('a', 'x', 'B', 'nope'):
                out.append(call(eng, t, 'get_column', n))
            for c in thaw_items(eng.getattr(s, 'columns')):
                for a in ('null', 'datatype', 'lang', 'default', 'separator', 'aboutUrl', 'required'):
                    out.append(call(eng, c, 'inherit', a))
                out.append(call(eng, c, 'inherit_null'))
                out.append(run(eng, lambda: eng.getattr(c, 'header')))
                out.append(call(eng, c, 'has_title', 'B'))
    else:
        out.append(run(eng, lambda: eng.call(find(eng, 'csvw.utils.metadata2markdown'), [tg])))
        return [(o.value and 'text') if o.returned else o.describe(eng) for o in out]
    return [snap(o.value) if o.returned else o.describe(eng) for o in out]


def serialising(eng, ob):
    P = eng.path
    environment(eng)
    tg, d = described(eng, TREES[P.choose('description', len(TREES))])
    op = SERIAL[P.choose('operation', len(SERIAL))]
    w = Watch(ob, op, description=tg, document=d)
    r1 = do_serial(eng, tg, op)
    w.done()
    r2 = do_serial(eng, tg, op)
    ob(r1 == r2, op + ': again', lambda: 'the second time gives {} instead of {}'.format(words(r2), words(r1)))


def datatypes(eng, ob):
    """the JSON form of datatypes with bounds; reading and writing with columns"""
    prepare(eng)
    P = eng.path
    dts = P18.VALUES['Datatype']['dt']
    d = doc(eng, {'name': 'a', 'datatype': dts[P.choose('datatype', len(dts))]})
    c = run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.Column'), 'fromvalue'), [d]))
    if not c.returned:
        return
    w = Watch(ob, 'datatype', description=c.value, document=d)
    for op in ('asdict', 'read'):
        if op == 'asdict':
            call(eng, c.value, op)
        else:
            call(eng, c.value, op, ['5', 'x', '2020-01-02'][P.choose('cell', 3)])
    w.done(show(d))


COLUMNS = [{}, {'separator': ';'}, {'null': []}, {'null': ['x', ''], 'separator': '|', 'default': 'x'},
           {'datatype': 'integer', 'separator': ' '}, {'datatype': {'base': 'json'}}, {'datatype': {'base': 'json'}, 'separator': ';'},
           {'required': True, 'null': ['']}, {'datatype': {'base': 'boolean', 'format': 'Y|N'}, 'separator': ';'},
           {'datatype': {'base': 'decimal', 'format': {'decimalChar': ',', 'groupChar': '.'}}}]
VALUES = [None, '', 'x', 'x;y', 5, True, [], ['x', 'y'], [None, 'x', ''], [5, 6], {'a': [1]}, [{'a': 1}], [True, None], [[1]]]


def cells(eng, ob):
    """Column.write with a value of the caller, Column.read"""
    prepare(eng)
    P = eng.path
    d = doc(eng, dict(COLUMNS[P.choose('column', len(COLUMNS))], name='a'))
    c = run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.Column'), 'fromvalue'), [d]))
    v = VALUES[P.choose('value', len(VALUES))]
    x = doc(eng, v)
    w = Watch(ob, 'Column.write', description=c.value, document=d, value=x)
    call(eng, c.value, 'write', x)
    w.done(repr(v))
    if isinstance(v, str):
        call(eng, c.value, 'read', x)
        call(eng, c.value, 'read', x, strict=False)
        w.done(repr(v))


ITEMS = [
    [['1', 'x']], [[1, 'x'], [2, None]], [{'a': 1, 'b': 'x'}, {'b': 'y', 'a': 2}], [{'a': 1}], [{'b': 'x', 'zz': 5, 'a': 1}],
    [{'a': 1, 'b': 'x', 'v': 'virtual'}], [[1, 'x', 'y', 'z'], {'a': 3, 'b': None}], [[1]], [{}], [], [{'B': 'x', 'a': 1}],
    [{'a': None, 'b': []}], [['no', ['x']]]]


def writes(eng, ob):
    """rows given to Table.write and TableGroup.write"""
    environment(eng)
    P = eng.path
    tg, d = described(eng, 'as it is')
    ts = thaw_items(eng.getattr(tg, 'tables'))
    rows = ITEMS[P.choose('rows', len(ITEMS))]
    strict = P.choose('strict', 2) == 0
    how = P.choose('how', 4)
    xs = doc(eng, rows)
    more = doc(eng, [{'x': 'k', 'y': 1, 'z': ['u', 'v']}, ['l', 2, []], ['m', 3, ['u', None]]])
    w = Watch(ob, 'writing', description=tg, document=d, rows=xs, more=more)

    def f():
        if how < 2:
            return eng.call(eng.getattr(ts[0], 'write'), [xs], {'fname': [None, 'x.csv'][how], 'strict': strict})
        if how == 2:
            return eng.call(eng.getattr(ts[1], 'write'), [more], {'fname': None, 'strict': strict})
        return eng.call(eng.getattr(tg, 'write'), ['d/x.json'], {'p.csv': xs, 'c.csv': more, 'strict': strict})
    o = run(eng, f)
    w.done(str(rows))
    if o.returned:
        start = len(eng.path.events)
        run(eng, f)
        w.done('the second time, ' + str(rows))


def dsv(eng, ob):
    """rows given to dsv writers, and options"""
    environment(eng)
    P = eng.path
    rows = doc(eng, [['a', None, 5], ['#x', '', 'y'], [], [None, 'z', None], ['z', 1.5, True, [1]], ['']])
    opts = [{}, {'commentPrefix': '#'}, {'quoteChar': None}, {'delimiter': ';', 'lineTerminators': ['\n', '\r']}][P.choose('dialect', 4)]
    lt = doc(eng, opts)
    dia = eng.call(find(eng, 'csvw.dsv.Dialect'), [], dict(lt.pairs()))
    w = Watch(ob, 'dsv', rows=rows, dialect=dia, options=lt)
    how = P.choose('how', 4)
    writer = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.UnicodeWriter'), [None], {'dialect': dia}))
    call(eng, writer.value, '__enter__')
    if how == 0:
        call(eng, writer.value, 'writerows', rows)
    elif how == 1:
        for r in thaw_items(rows):
            call(eng, writer.value, 'writerow', r)
    elif how == 2:
        run(eng, lambda: collect(eng, eng.call(find(eng, 'csvw.dsv.UnicodeReader'), [rows], {'dialect': dia})))
        run(eng, lambda: collect(eng, eng.call(find(eng, 'csvw.dsv.reader'), [rows], {'dicts': True, 'dialect': dia})))
    else:
        run(eng, lambda: eng.call(find(eng, 'csvw.dsv.add_rows'), ['x.csv'] + thaw_items(rows)))
        call(eng, dia, 'asdict')
        run(eng, lambda: eng.call(eng.getattr(dia, 'as_python_formatting_parameters'), []))
    w.done()


# -- conversions --------------------------------------------------------------------------------
def tojson(eng, ob):
    P = eng.path
    single = P.choose('metadata', 3)
    d = [dict(TG), dict(TG['tables'][1], **{'@context': NS, 'dc:x': [{'@value': 'y'}, {'@id': 'http://x'}]}),
         dict(TG, **{'tables': TG['tables'][:1]})][single]
    names = [['p.csv', 'c.csv'], ['c.csv'], ['p.csv']][single]
    vals = {'p.csv': {'a': 1, 'b': 'x'}, 'c.csv': {'x': 'k', 'y': 1, 'z': ['u', 'v'], 'more': None}}
    o = P22.setup(eng, P22.BASE + 'md.json', d, lambda url: [(i, {k: doc(eng, v) for k, v in vals[url].items()}) for i in (2, 3)])
    P19.prepare(eng)
    if not o.returned:
        ob(None, 'to_json', o.describe(eng))
        return
    ds = o.value
    t = eng.getattr(ds, 't')
    op = ['standard', 'minimal', 'is_valid', 'tablegroup'][P.choose('operation', 4)]
    before = [snap(x.attrs['tableSchema']) for x in thaw_items(eng.getattr(ds, 'tables'))], [
        [(k, snap(v)) for k, v in sorted(x.attrs.items()) if k in ('common_props', 'at_props', 'notes', 'dialect', 'null', 'lang', 'url')]
        for x in thaw_items(eng.getattr(ds, 'tables')) + [t]], len(thaw_items(eng.getattr(ds, 'tables')))

    def f():
        if op in ('is_valid', 'tablegroup'):
            r = run(eng, lambda: eng.getattr(ds, op))
            return r if op == 'is_valid' or not r.returned else call(eng, r.value, 'asdict')
        return call(eng, ds, 'to_json', minimal=op == 'minimal')
    r1 = f()
    r1 = snap(r1.value) if r1.returned else r1.describe(eng)
    after = [snap(x.attrs['tableSchema']) for x in thaw_items(eng.getattr(ds, 'tables'))], [
        [(k, snap(v)) for k, v in sorted(x.attrs.items()) if k in ('common_props', 'at_props', 'notes', 'dialect', 'null', 'lang', 'url')]
        for x in thaw_items(eng.getattr(ds, 'tables')) + [t]], len(thaw_items(eng.getattr(ds, 'tables')))
    ob(before == after, 'CSVW ' + op, lambda: 'the description changed: {}'.format(words([
        (a, b) for x, y in zip(before[:2], after[:2]) for a, b in zip(x, y) if a != b])))
    r2 = f()
    r2 = snap(r2.value) if r2.returned else r2.describe(eng)
    ob(r1 == r2 or op == 'is_valid', 'CSVW {}: again'.format(op), lambda: 'the second time gives {} instead of {}'.format(words(r2), words(r1)))


def databases(eng, ob):
    """Database.write and read"""
    P = eng.path
    P19.prepare(eng)
    D.Server(eng)
    eng.unroll = 60
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    parent = D.table(eng, 'parent', [D.column(eng, 'x', 1, required=True), D.column(eng, 'n', 2, datatype='integer')], pk=['x'])
    child = D.table(eng, 'child', [
        D.column(eng, 'a', 1), D.column(eng, 'b', 2, datatype='integer'), D.column(eng, 'c', 3, separator=';'),
        D.column(eng, 'd', 4, separator=';'), D.column(eng, 'e', 5, datatype='json')], pk=['a'],
        fks=[(['d'], 'parent', ['x']), (['c'], 'parent', ['x'])] if P.choose('relations', 2) else [(['b'], 'parent', ['n'])])
    tg = D.group(eng, [parent, child])
    kids = [[], [{'a': 'k', 'b': 1, 'c': ['u', 'v'], 'd': ['p', 'q'], 'e': None}],
            [{'a': 'k', 'c': []}, {'d': ['p'], 'a': 'l', 'b': None, 'c': None}], [{'a': 'k', 'd': ['p', 'p'], 'zz': 5}],
            [{'a': 'k', 'c': [None, 'x'], 'd': None, 'e': None}], [{'b': 2, 'a': 'm', 'd': []}, {'a': 'n'}]]
    items = {'parent': doc(eng, [{'x': 'p', 'n': 1}, {'n': None, 'x': 'q'}]), 'child': doc(eng, kids[P.choose('rows', len(kids))])}
    if P.choose('all given', 2):
        del items['parent']
    skip = P.choose('_skip_extra', 2) == 0
    w = Watch(ob, 'Database', description=tg, **items)
    o = run(eng, lambda: D.database(eng, tg))
    if not o.returned:
        ob(None, 'Database', o.describe(eng))
        return
    w.done('the schema')
    call(eng, o.value, 'write', **dict(items, _skip_extra=skip))
    w.done('write')
    call(eng, o.value, 'read')
    w.done('read')


PACKAGE = {
    'name': 'p', 'id': 'i', 'title': 't', 'keywords': ['a'], 'licenses': [{'name': 'x', 'path': 'http://x'}], 'profile': 'y',
    'sources': [{'title': 's'}], 'contributors': [{'title': 'me'}], 'resources': [
        {'name': 'r', 'path': 'r.csv', 'scheme': 'file', 'format': 'csv', 'encoding': 'utf-8',
         'dialect': {'csv': {'delimiter': ';', 'commentChar': '#', 'quoteChar': "'", 'doubleQuote': True, 'header': False}},
         'schema': {'missingValues': ['', 'NA'], 'primaryKey': ['a'], 'fields': [
             {'name': 'a', 'type': 'integer', 'title': 'A', 'description': 'd', 'rdfType': 'http://x',
              'constraints': {'required': True, 'minimum': 0, 'maximum': 9}},
             {'name': 'b', 'type': 'string', 'constraints': {'pattern': 'x*', 'minLength': 1, 'maxLength': 5}},
             {'name': 'c', 'type': 'number', 'decimalChar': ',', 'groupChar': '.'},
             {'name': 'd', 'type': 'boolean', 'trueValues': ['Y'], 'falseValues': ['N']}],
             'foreignKeys': [{'fields': ['b'], 'reference': {'resource': '', 'fields': ['a']}},
                             {'fields': 'b', 'reference': {'resource': 's', 'fields': 'x'}}]}},
        {'name': 's', 'path': 's.csv', 'scheme': 'file', 'format': 'csv', 'dialect': {'delimiter': ','},
         'schema': {'missingValues': [], 'fields': [{'name': 'x'}, {'name': 'y', 'type': 'geojson'}], 'primaryKey': 'x'}},
        {'name': 'no table', 'path': 'x.pdf', 'format': 'pdf'}, {'path': 'data.csv', 'schema': {'fields': [{'name': 'x'}]}}]}


def packages(eng, ob):
    """Frictionless data packages"""
    prepare(eng)
    P = eng.path
    res = PACKAGE['resources']
    which = P.choose('resources', 4)
    drop = [[], ['id'], ['name'], ['title'], ['id', 'title'], ['name', 'id', 'licenses', 'profile']][P.choose('package without', 6)]
    p = {k: v for k, v in PACKAGE.items() if k not in drop}
    p['resources'] = [res, res[:2], res[1::-1], []][which]
    if which < 2:
        k = P.choose('without', 8) if not drop else 0
        own = dict(res[0])
        if k == 5:
            own.pop('dialect')
        elif k == 6:
            own['dialect'] = {'csvddfVersion': 1, 'delimiter': ';', 'lineTerminator': '\n', 'nullSequence': ''}
        elif k == 7:
            own.update(mediatype='text/csv', bytes=5, hash='x', title='T', licenses=[], sources=[{'path': 'x'}], encoding='')
        s = dict(res[0]['schema'])
        f = [dict(x) for x in s['fields']]
        if k == 1:
            f[0].pop('constraints')
        elif k == 2:
            s.pop('missingValues')
        elif k == 3:
            s.pop('foreignKeys')
        elif k == 4:
            f[1]['format'] = 'uri'
        p['resources'] = [dict(own, schema=dict(s, fields=f))] + p['resources'][1:]
    d = doc(eng, p)
    w = Watch(ob, 'data package', package=d)
    o = run(eng, lambda: eng.call(find(eng, 'csvw.frictionless.DataPackage'), [d]))
    for i in (1, 2):
        o2 = call(eng, o.value, 'to_tablegroup')
        if i == 1 and o2.returned:
            first = P19.py(o2.value)
            for op in ('asdict',):
                call(eng, o2.value, op)
        elif o2.returned:
            ob(P19.py(o2.value) == first, 'data package: again', 'the second conversion gives another description')
        ob(True if o2.returned else None, 'data package: converted', lambda: o2.describe(eng))
        w.done()


def rules(C):
    for cls in sorted(P18.VALUES):
        C.explore('describing ' + cls, describing(cls), mods=MODS, min_ok=100,
                  statement='describing does not change the document, be it valid or not')
    C.explore('loading', loading, mods=MODS, min_ok=500, statement='loading does not change the data given')
    C.explore('constructing', constructing, mods=MODS, min_ok=60, statement='constructors do not change their arguments')
    C.explore('growing', growing, mods=MODS, min_ok=15, statement='descriptions can be changed without changing the data '
              'they were made from')
    C.explore('reading', reads, mods=MODS, min_ok=500, statement='reading and checking, twice')
    C.explore('serialising', serialising, mods=MODS, min_ok=50, statement='serialising and looking up, twice')
    C.explore('datatypes', datatypes, mods=MODS, min_ok=100, statement='JSON forms of and parsing with datatypes')
    C.explore('cells', cells, mods=MODS, min_ok=300, statement='values written')
    C.explore('writing', writes, mods=MODS, min_ok=200, statement='rows written')
    C.explore('dsv', dsv, mods=('csvw', 'csvw.dsv', 'csvw.dsv_dialects'), min_ok=30, statement='rows given to writers')
    C.explore('json', tojson, mods=P22.MODS, min_ok=20, statement='conversion to JSON and validation, twice')
    C.explore('databases', databases, mods=D.MODS, min_ok=100, statement='rows written to databases')
    C.explore('packages', packages, mods=('csvw', 'csvw.metadata', 'csvw.frictionless'), min_ok=20,
              statement='data packages converted, twice')
