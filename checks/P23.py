"""The validity verdict reflects every warning and check."""
from .tables import *
from .P20 import doc
from .P22 import plain_text

ASSUMPTIONS = ['Table.iterdicts, Table.check_primary_key and TableGroup.check_referential_integrity do what P14, P16 '
               'and P17 say, logging problems if a log is given and raising ValueError otherwise',
               'warning filters: ignore, error, always, default or once for all warnings, which have occurred before']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils', 'csvw.__main__']
NS = 'http://www.w3.org/ns/csvw'
AMBIENT = ['default', 'ignore', 'error', 'always', 'once']


class Warnings:
    """the state of the warnings module"""
    def __init__(self, eng, ambient):
        self.mode, self.record, self.stack, self.n = ambient, None, [], 0
        eng.ext_overrides['warnings.catch_warnings'] = self.catch
        for n in ('simplefilter', 'filterwarnings'):
            eng.ext_overrides['warnings.' + n] = self.filter
        eng.ext_overrides['warnings.resetwarnings'] = self.reset
        eng.ext_overrides['warnings.warn'] = self.warn

    def catch(self, e, a, k):
        record = e.path.truth(k.get('record', a[0] if a else False))

        def enter(e, a, k):
            self.stack.append((self.mode, self.record))
            if 'action' in kw:
                self.mode = kw['action']
            if record:
                self.record = e.VL([])
                return self.record
            return None

        def leave(e, a, k):
            self.mode, self.record = self.stack.pop()
            return False
        kw = k
        return S('catch_warnings', truthy=True, methods={'__enter__': enter, '__exit__': leave})

    def filter(self, e, a, k):
        action = k.get('action', a[0] if a else None)
        extra = [x for x in list(a[1:]) + [v for n, v in k.items() if n != 'action']]
        if not isinstance(action, str) or extra and action != 'always':
            raise Imprecise('warning filter ' + show(action))
        if not extra or all(x in ('', 0, False) for x in extra if is_const(x)):
            self.mode = action

    def reset(self, e, a, k):
        self.mode = 'default'

    def warn(self, e, a, k):
        e.event('warnings.warn', a, k)
        if self.mode == 'error':
            e.raise_ext('UserWarning', tuple(a[:1]))
        # entering catch_warnings forgets what has been shown, but not for "once"
        if self.mode in ('ignore', 'once') or self.mode == 'default' and not self.stack:
            return None
        if self.record is not None:
            self.n += 1
            self.record.items.append(S('warning{}'.format(self.n), truthy=True, notnone=True, attrs={
                'message': a[0] if a else k.get('message'), 'category': 'UserWarning'}))
        return None


ROWS = ['fine', 'warning first', 'warning last', 'error']
KEYS = ['fine', 'duplicate']
REFS = ['fine', 'broken', 'null']


def behave(eng, rows, keys, refs):
    """how tables (by url) and references behave"""
    def problem(e, log, msg):
        if log is None:
            e.raise_ext('ValueError', (msg,), origin='check')
        e.call(e.getattr(log, 'warning'), [msg], {})

    def iterdicts(e, a, k):
        kw = dict(zip(['log', 'with_metadata', 'fname', '_Row', 'strict'], a[1:]), **k)
        url = a[0].attrs['url'].attrs['string']
        kind = rows[url]

        def bad(msg):
            if e.path.truth(kw.get('strict', True)):
                problem(e, kw.get('log'), msg)
            else:
                eng.ext_overrides['warnings.warn'](e, [msg], {})

        def gen():
            if kind == 'error':
                e.raise_ext('ValueError', ('missing required columns',), origin='iterdicts')
            for i in range(3):
                if kind == ['warning first', None, 'warning last'][i]:
                    bad('bad row')
                d = e.VD([('a', i)], cls='OrderedDict')
                yield (url, i + 2, d) if kw.get('with_metadata') else d
        return e.register(Iter(gen(), 'rows'), 'rows')

    def pk(e, a, k):
        if keys[a[0].attrs['url'].attrs['string']] == 'duplicate':
            problem(e, k.get('log', a[1] if len(a) > 1 else None), 'duplicate primary key')
            return False
        return True

    def ri(e, a, k):
        log = k.get('log', a[2] if len(a) > 2 else None)
        have = {t.attrs['url'].attrs['string'] for t in thaw_items(a[0].attrs['tables'])}
        if refs == 'null':
            if e.path.truth(k.get('strict', a[3] if len(a) > 3 else False)):
                e.raise_ext('ValueError', ('Foreign key column is null',), origin='check')
        elif refs == 'broken':
            if have == set(rows):
                problem(e, log, 'key not found')
                return False
        elif refs == 'not unique':
            return not e.path.truth(k.get('strict', a[3] if len(a) > 3 else False))
        return True
    eng.overrides['csvw.metadata.Table.iterdicts'] = iterdicts
    eng.overrides['csvw.metadata.Table.__iter__'] = lambda e, a, k: iterdicts(e, a[:1], {})
    eng.overrides['csvw.metadata.Table.check_primary_key'] = pk
    eng.overrides['csvw.metadata.TableGroup.check_referential_integrity'] = ri


def dataset(eng, P, metadata):
    """a document, the behaviour of its tables, whether it is valid"""
    n = 1 + P.choose('tables', 2)
    group = n > 1 or P.choose('group', 2) == 0
    rows, keys, tabs = {}, {}, []
    # at most one thing is wrong
    what = ['nothing', 'metadata', 'rows', 'keys', 'references'][P.choose('problem', 5)]
    refs = ['broken', 'null', 'not unique'][P.choose('references', 3)] if what == 'references' else 'fine'
    where = P.choose('where', n) if n > 1 else 0
    for i in range(n):
        url = 't{}.csv'.format(i)
        rows[url] = ROWS[1 + P.choose('rows', 3)] if what == 'rows' and i == where else 'fine'
        keys[url] = 'duplicate' if what == 'keys' and i == where else 'fine'
        tabs.append({'url': url, 'tableSchema': {'columns': [{'name': 'a'}]}})
    if what == 'metadata':
        t = tabs[where]
        kind = P.choose('warning', 4)
        if kind == 0:
            t['lang'] = 1
        elif kind == 1:
            t['tableSchema']['columns'][0]['default'] = 5
        elif kind == 2:
            t['tableSchema']['columns'].append({'name': 'b', 'unknown': 'x'})
        else:
            t['dialect'] = {'header': 'x'}
    d = dict({'@context': NS}, **({'tables': tabs} if group else tabs[0]))
    return d, rows, keys, refs, what


def prepare(eng, d):
    given_rows(eng, [])
    eng.unroll = 100
    for f in ('.is_dir', 'os.path.isdir'):
        eng.ext_overrides[f] = lambda e, a, k: True if plain_text(a[0]) == 'dir' else False
    eng.overrides['csvw.metadata.get_json'] = lambda e, a, k: doc(e, d)
    eng.ext_overrides['language_tags.tags.check'] = lambda e, a, k: a[0] in ('en', 'und')


def verdict(eng, ob):
    P = eng.path
    ambient = AMBIENT[P.choose('warning filter', len(AMBIENT))]
    d, rows, keys, refs, what = dataset(eng, P, True)
    remote = P.choose('remote', 2) == 1
    prepare(eng, d)
    behave(eng, rows, keys, refs)
    w = Warnings(eng, ambient)
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [
        'http://example.org/md.json' if remote else 'dir/md.json'], {'validate': True}))
    if not o.returned:
        ob(False, 'opening', lambda: 'opening {} with warning filter {} {}'.format(d, ambient, o.describe(eng)))
        return
    for again in range(2):
        r = run(eng, lambda: eng.getattr(o.value, 'is_valid'))
        ob(r.returned and known(eng, r.value) is (what == 'nothing'), 'verdict', lambda: '{} with {} (rows {}, keys {}, '
           'references {}; warning filter {}): is_valid {}'.format(
               d, 'nothing wrong' if what == 'nothing' else 'wrong ' + what, rows, keys, refs, ambient, r.describe(eng)))
    ob(w.mode == ambient and not w.stack, 'warning filters', lambda: 'the warning filter is {} afterwards'.format(w.mode))


def command(eng, ob):
    P = eng.path
    ambient = AMBIENT[P.choose('warning filter', 3)]
    d, rows, keys, refs, what = dataset(eng, P, True)
    want = 0 if what == 'nothing' else 1
    reject = P.choose('rejected', 4)
    if reject == 0:
        d.pop('@context')
        want = 2
    elif reject == 1:
        (d['tables'][-1] if 'tables' in d else d)['@id'] = '_:blank'
        want = 2
    elif reject == 2:
        if 'tables' in d:
            d['tables'] = []
        else:
            d['tableSchema']['columns'].append(dict(d['tableSchema']['columns'][0]))
        want = 2
    prepare(eng, d)
    behave(eng, rows, keys, refs)
    Warnings(eng, ambient)
    verbose = P.choose('verbose', 2) == 0
    test = P.choose('exit', 2) == 0
    args = S('args', truthy=True, notnone=True, attrs={'url': 'dir/md.json', 'verbose': verbose})
    def leave(e, a, k):
        e.raise_ext('SystemExit', tuple(a[:1]), origin='exit')
    for n in ('sys.exit', 'exit', 'os._exit'):
        eng.ext_overrides[n] = leave
    start = len(eng.path.events)
    o = run(eng, lambda: eng.call(find(eng, 'csvw.__main__.csvwvalidate'), [args], {'test': True} if test else {}))
    code = None
    if o.returned:
        code = o.value if test else 0
    elif o.is_exc(eng, 'SystemExit'):
        code = (tuple(o.raised.exc.args) or (0,))[0]
    else:
        ob(False, 'exit code', lambda: '{} with problem in {}, rejected {}: csvwvalidate {}'.format(d, what, want == 2, o.describe(
            eng)))
        return
    code = 0 if code is None or code is False else code
    ob(code == want and code is not True, 'exit code', lambda: '{} with {} wrong{}: exits with {} rather than {}'.format(
        d, what, ' and rejected' if want == 2 else '', show(code), want))
    txt = ' '.join(text_of(a) for e in eng.path.events[start:] if e.name in ('print', '.write', 'sys.stdout.write')
                   for a in e.args)
    ob(('OK' in txt.split('\0') or 'OK' in txt.split()) == (want == 0), 'prints OK', lambda: '{} with {} wrong: prints {}'.format(d, what, repr(txt)))


def rules(C):
    C.explore('verdict', verdict, mods=MODS, min_ok=200, statement='valid iff nothing warns, no key is duplicate and '
              'references hold, whatever warning filters are set')
    C.explore('command', command, mods=MODS, min_ok=200, statement='exit codes and OK')
