"""Data files are located relative to their metadata."""
import codecs
import posixpath
from urllib.parse import urljoin

from .tables import *
from .P20 import doc
from csvwlint.path import _NO

ASSUMPTIONS = ['the files that exist are given; pathlib and urllib.parse.urljoin work as documented',
               'metadata in a local file does not declare a base in its context, and metadata with schemas given by '
               'reference neither']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils']
NS = 'http://www.w3.org/ns/csvw'


def text(v):
    """the text of a path or string"""
    while isinstance(v, Term) and v.op in ('str', 'pathlib.Path', 'os.fspath', '.as_posix') and len(v.args) == 1:
        v = v.args[0]
    return v if isinstance(v, str) else None


def plain(v):
    v = text(v)
    return None if v is None else v if '://' in v else posixpath.normpath(v)


def world(eng, files, document=None, members=(), dirs=()):
    given_rows(eng, [['a'], ['1']])
    eng.unroll = 200
    files = {posixpath.normpath(f) for f in files}
    known_dirs = {posixpath.normpath(d) for d in dirs}

    def exists(e, a, k):
        p = plain(a[0])
        return _NO if p is None else p in files or p in known_dirs

    def isfile(e, a, k):
        p = plain(a[0])
        return _NO if p is None else p in files

    def isdir(e, a, k):
        p = plain(a[0])
        return _NO if p is None else p in known_dirs
    for n, f in (('exists', exists), ('is_file', isfile), ('is_dir', isdir)):
        eng.ext_overrides['.' + n] = f
        eng.ext_overrides['os.path.' + n.replace('_', '')] = f
    eng.ext_overrides['.namelist'] = lambda e, a, k: e.VL(list(members))
    if document is not None:
        def get_json(e, a, k):
            e.event('get_json', a)
            return doc(e, document)
        eng.overrides['csvw.metadata.get_json'] = get_json


def inside(v, sub):
    """does the term hold the other one?"""
    if key(v) == key(sub):
        return True
    return isinstance(v, Term) and any(inside(a, sub) for a in v.args)


def keywords(v, name, res=None):
    res = [] if res is None else res
    if isinstance(v, Term):
        if v.op == 'kw:' + name:
            res.append(v.args[0])
        if v.op == '.decode' and name == 'encoding':
            res.extend(v.args[1:])
        for a in v.args:
            keywords(a, name, res)
    return res


def opened(eng, start):
    """(kind, where, encoding, newline, reader arguments) of the data read"""
    evs = eng.path.events[start:]
    rd = [e for e in evs if e.name == 'csv.reader']
    if len(rd) != 1:
        return None
    src = rd[0].args[0]
    got = []
    for e in evs:
        if e.name in ('open', 'io.open', '.open', 'requests.get', '.read', '.read_bytes', '.read_text'):
            if e.result is not None and inside(src, e.result):
                got.append(e)
    if not got:
        return None
    e = got[-1]
    encs = keywords(src, 'encoding')
    nl = keywords(src, 'newline')
    if e.name == 'requests.get':
        where = ('url', text((e.args or [e.kw.get('url')])[0]))
    elif e.name in ('.open', '.read') and isinstance(e.args[0], Term) and e.args[0].op.startswith('zipfile.'):
        z = e.args[0].args[0]
        where = ('zip', plain(z), text(e.args[1]) if len(e.args) > 1 else text(e.kw.get('name')))
    else:
        where = ('file', plain((list(e.args) or [e.kw.get('file')])[0]))
    return where, encs, nl, {k: v for k, v in rd[0].kw.items()}


def encoding_ok(encs, name):
    """decoded once, by the encoding (with any byte order mark)"""
    if len(encs) != 1 or not isinstance(encs[0], str):
        return False
    norm = lambda x: codecs.lookup(x).name.replace('utf-8-sig', 'utf-8')  # noqa: E731
    return norm(encs[0]) == norm(name)


def read_table(eng, ob, table, want, what, enc='utf-8', **kw):
    start = len(eng.path.events)
    o = call(eng, table, 'iterdicts', **kw)
    rows, end = collect(eng, o.value) if o.returned else ([], o)
    got = opened(eng, start)
    if got is None and end is not None and end.is_exc(eng, 'FileNotFoundError'):
        ob(False, what, lambda: 'expected {}, but reading {}'.format(want, end.describe(eng)))
        return None
    ob(got is not None and got[0] == want, what, lambda: 'data is expected at {}, but read from {}'.format(
        want, got and got[0] or (end.describe(eng) if end else 'nowhere')))
    if got and got[0] == want:
        ob(encoding_ok(got[1], enc), what + ' encoding', lambda: '{} is decoded as {} instead of {}'.format(
            want, got[1], enc))
        ob(got[2] == [''], what + ' newline', lambda: '{} is opened with newline {}'.format(want, got[2]))
    return got


URLS = ['t.csv', 'sub/t.csv', '../t.csv', 'http://other.org/x/y.csv', 'https://other.org/y.csv', '/top/t.csv']
LOCAL = ['dir/sub/md.json', 'md.json', '/abs/md.json', 'dir/md-metadata.json']
REMOTE = ['http://example.org/a/b/md.json', 'https://example.org/a/b/md.json?x=1#f', 'http://example.org/md.json']
CONTEXTS = [None, 'http://ctx.org/c/', 'data/', '../up/', 'https://ctx.org/c/d.json']
BASES = [None, 'http://base.org/q/', 'https://base.org/q/z.json']


def document(eng, url, group, ctx=None, base=None):
    t = {'url': url, 'tableSchema': {'columns': [{'name': 'a'}]}}
    d = dict({'@context': NS if ctx is None else [NS, {'@base': ctx}]}, **(
        {'tables': [{'url': 'other/o.csv'}, t]} if group else t))
    if base is not None:
        d['@base'] = base
    return d


def load(eng, ob, location, group, how):
    """the table of the document at the location, however it is loaded"""
    name = 'TableGroup' if group else 'Table'
    if how == 'dataset':
        o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [location]))
    else:
        arg = T('pathlib.Path', location, typ='path') if how == 'path' else location
        o = call(eng, find(eng, 'csvw.metadata.' + name), 'from_url' if how == 'url' else 'from_file', arg)
    if not o.returned:
        ob(False, 'loading', lambda: 'loading {} {}'.format(location, o.describe(eng)))
        return None
    obj = o.value
    if how == 'dataset':
        if eng.path.choose('as table group', 2) == 0:
            eng.getattr(obj, 'tablegroup')
        tables = thaw_items(eng.getattr(obj, 'tables'))
        return tables[-1]
    return thaw_items(obj.attrs['tables'])[-1] if group else obj


def local(eng, ob):
    P = eng.path
    loc = LOCAL[P.choose('metadata file', len(LOCAL))]
    url = URLS[P.choose('table url', len(URLS))]
    group = P.choose('group', 2) == 0
    how = ['path', 'str', 'dataset'][P.choose('loaded', 3)]
    base = BASES[P.choose('@base', 2)]
    d = posixpath.dirname(loc) or '.'
    if base:
        want = ('url', urljoin(base, url))
    elif '://' in url:
        want = ('url', url)
    else:
        want = ('file', posixpath.normpath(posixpath.join(d, url)))
    world(eng, [want[1]], document(eng, url, group, base=base), dirs=[d])
    t = load(eng, ob, loc, group, how)
    if t is not None:
        read_table(eng, ob, t, want, 'local metadata')


def remote(eng, ob):
    P = eng.path
    loc = REMOTE[P.choose('metadata URL', len(REMOTE))]
    url = URLS[P.choose('table url', len(URLS))]
    group = P.choose('group', 2) == 0
    how = ['url', 'str', 'dataset'][P.choose('loaded', 3)]
    ctx = CONTEXTS[P.choose('context base', len(CONTEXTS))]
    base = BASES[P.choose('@base', len(BASES))] if ctx is None or how == 'url' else None
    b = base or loc
    if ctx:
        b = urljoin(b, ctx)
    world(eng, [], document(eng, url, group, ctx, base))
    t = load(eng, ob, loc, group, how)
    if t is not None:
        read_table(eng, ob, t, ('url', urljoin(b, url)), 'remote metadata' + (' with base' if ctx or base else ''))


def without_metadata(eng, ob):
    """a CSV file without metadata is read itself"""
    P = eng.path
    locs = ['t.csv', 'dir/t.csv', '/abs/dir/t.csv', 'http://example.org/x/t.csv']
    loc = locs[P.choose('data', len(locs))]
    world(eng, [loc], dirs=[posixpath.dirname(loc) or '.'])

    def get_json(e, a, k):
        e.raise_ext('json.decoder.JSONDecodeError', ('no json', '', 0))
    eng.overrides['csvw.metadata.get_json'] = get_json
    if '://' in loc:
        eng.overrides['csvw.metadata.CSVW.locate_metadata'] = lambda e, a, k: (e.VD([
            ('@context', NS), ('url', loc)]), False)
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [loc]))
    if not o.returned:
        ob(False, 'no metadata', lambda: 'opening {} {}'.format(loc, o.describe(eng)))
        return
    if P.choose('as table group', 2) == 0:
        eng.getattr(o.value, 'tablegroup')
    t = thaw_items(eng.getattr(o.value, 'tables'))[0]
    read_table(eng, ob, t, ('url', loc) if '://' in loc else ('file', posixpath.normpath(loc)), 'no metadata')


ENC = [(None, 'utf-8'), ('latin-1', 'latin-1'), ('utf-16', 'utf-16'), ('utf-8', 'utf-8'), ('cp1252', 'cp1252')]
MEMBERS = [['t.csv'], ['x/t.csv'], ['other.csv', 't.csv'], ['at.csv', 't.csv', 't.csv.txt'],
           ['__MACOSX/._t.csv', 'dir/t.csv'], ['t.csv/readme', 'a/b/t.csv'], ['T.csv', 't.csv'], ['a/b/c/d/t.csv'], ['a/b/t.csv/c', 'b/c/d/t.csv']]


def sources(eng, ob):
    """plain, zipped and remote data, in any encoding and dialect"""
    P = eng.path
    kind = ['file', 'zip', 'both', 'url', 'none', 'explicit zip'][P.choose('data', 6)]
    enc, name = ENC[P.choose('encoding', len(ENC))]
    group = P.choose('group', 2) == 0
    members = MEMBERS[P.choose('members of the archive', len(MEMBERS))] if 'zip' in kind or kind == 'both' else []
    delim = [',', ';'][P.choose('delimiter', 2)]
    d = document(eng, 'http://x.org/t.csv' if kind == 'url' else 't.csv', group)
    dialect = {'delimiter': delim, 'header': True}
    if enc:
        dialect['encoding'] = enc
    where = P.choose('dialect of the group', 2) == 0
    (d if where or not group else d['tables'][-1])['dialect'] = dialect
    path = 'dir/t.csv'
    files = {'file': [path], 'zip': [path + '.zip'], 'both': [path, path + '.zip'], 'url': [], 'none': [],
             'explicit zip': ['dir/u.csv', 'far/t.csv.zip']}[kind]
    world(eng, files, d, members, dirs=['dir', 'far'])
    t = load(eng, ob, 'dir/md.json', group, 'path')
    if t is None:
        return
    member = [m for m in members if m.split('/')[-1] == 't.csv']
    want = {'file': ('file', path), 'both': ('file', path), 'none': ('file', path),
            'url': ('url', 'http://x.org/t.csv'), 'zip': ('zip', path + '.zip', member and member[0]),
            'explicit zip': ('zip', 'far/t.csv.zip', member and member[0])}[kind]
    if kind == 'none':
        start = len(eng.path.events)
        o = call(eng, t, 'iterdicts')
        rows, end = collect(eng, o.value) if o.returned else ([], o)
        got = opened(eng, start)
        ob(got is not None and got[0] == want or got is None and end is not None and end.is_exc(
            eng, 'FileNotFoundError', 'OSError'), 'missing file', lambda: 'a missing data file is {}'.format(
            'read from {}'.format(got[0]) if got else end.describe(eng) if end else 'ignored'))
        return
    kw = {}
    if kind == 'explicit zip':
        kw['fname'] = 'far/t.csv' if P.choose('as str', 2) == 0 else T('pathlib.Path', 'far/t.csv', typ='path')
    got = read_table(eng, ob, t, want, kind, name, **kw)
    if got:
        ob(got[3].get('delimiter') == delim, kind + ' dialect', lambda: '{} is read with delimiter {}'.format(
            kind, got[3].get('delimiter')))
    # what is opened is closed again
    zips = [e for e in eng.path.events if e.name.startswith('zipfile.')]
    closed = [e for e in eng.path.events if e.name in ('__exit__', '.close')]
    ob(all(any(key(c.args[0]) == key(z.result) for c in closed) for z in zips), kind + ' closed',
       'the archive is not closed')


def given_file(eng, ob):
    """an explicitly given file is read instead"""
    P = eng.path
    world(eng, ['dir/t.csv', 'x/u.csv'], document(eng, 't.csv', False), dirs=['dir', 'x'])
    t = load(eng, ob, 'dir/md.json', False, 'path')
    if t is None:
        return
    how = P.choose('given', 4)
    if how < 2:
        arg = ['x/u.csv', T('pathlib.Path', 'x/u.csv', typ='path')][how]
        read_table(eng, ob, t, ('file', 'x/u.csv'), 'given file', fname=arg)
    elif how == 2:
        read_table(eng, ob, t, ('url', 'http://x.org/u.csv'), 'given URL', fname='http://x.org/u.csv')
    else:
        f = S('handle', 'file', truthy=True, notnone=True)
        start = len(P.events)
        o = call(eng, t, 'iterdicts', fname=f)
        if o.returned:
            collect(eng, o.value)
        rd = [e for e in P.events[start:] if e.name == 'csv.reader']
        ob(len(rd) == 1 and inside(rd[0].args[0], f), 'given handle', 'a file-like object is not read')


def links(eng, ob):
    """links against a directory, the path of a file, and a URL"""
    P = eng.path
    url = URLS[P.choose('link', len(URLS))]
    how = ['dir', 'file', 'url'][P.choose('base', 3)]
    world(eng, ['dir/f.json'], dirs=['dir'])
    link = eng.call(find(eng, 'csvw.metadata.Link'), [url])
    base = {'dir': T('pathlib.Path', 'dir', typ='path'), 'file': T('pathlib.Path', 'dir/f.json', typ='path'),
            'url': 'http://example.org/a/b.json'}[how]
    o = call(eng, link, 'resolve', base)
    want = urljoin('http://example.org/a/b.json', url) if how == 'url' or '://' in url else \
        posixpath.normpath(posixpath.join('dir', url))
    ob(o.returned and plain(o.value) == want, 'link', lambda: '{} against a {}: {} instead of {}'.format(
        url, how, o.describe(eng), want))


REFS = ['s.json', 'sub/s.json', '../s.json', '/s.json', 'http://other.org/s.json', 'https://other.org/x/s.json']


def schemas(eng, ob):
    """schemas which are given by reference"""
    P = eng.path
    loc = REMOTE[P.choose('metadata URL', len(REMOTE))]
    ref = REFS[P.choose('reference', len(REFS))]
    how = ['url', 'str', 'dataset'][P.choose('loaded', 3)]
    shape = P.choose('shape', 5)
    t = {'url': 't.csv', 'tableSchema': ref}
    own = {'url': 'u.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}
    d = dict({'@context': NS}, **(t if not shape else {'tables': [[t], [own, t], [t, own], [dict(t, url='v.csv'), t]][shape - 1]}))
    base = BASES[P.choose('@base', len(BASES))] if how == 'url' else None
    if base:
        d['@base'] = base
    world(eng, [], d)
    eng.ext_overrides['.json'] = lambda e, a, k: doc(e, {'columns': [{'name': 'remote'}]})
    start = len(P.events)
    name = 'TableGroup' if shape else 'Table'
    if how == 'dataset':
        o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [loc]))
    else:
        o = call(eng, find(eng, 'csvw.metadata.' + name), 'from_url' if how == 'url' else 'from_file', loc)
    if not o.returned:
        ob(False, 'schema reference', lambda: 'loading {} with schema {} {}'.format(loc, ref, o.describe(eng)))
        return
    ts = thaw_items(eng.getattr(o.value, 'tables')) if shape or how == 'dataset' else [o.value]
    got = [text((list(e.args) or [e.kw.get('url')])[0]) for e in P.events[start:] if e.name == 'requests.get']
    want = [urljoin(base or loc, ref)] * (2 if shape == 4 else 1)
    ob(got == want, 'schema reference', lambda: 'the schema {} of {} is read from {} instead of {}'.format(ref, base or loc, got, want))
    for x in ts:
        cols = [eng.getattr(c, 'name') for c in thaw_items(eng.getattr(eng.getattr(x, 'tableSchema'), 'columns'))]
        mine = eng.getattr(eng.getattr(x, 'url'), 'string') == 'u.csv'
        ob(cols == ['a' if mine else 'remote'], 'schema reference used', lambda: 'the columns of the table are {}'.format(cols))


PAIRS = [('http://example.org/d/t.csv', 'http://example.org/m/md.json'),
         ('http://example.org/d/t.csv', 'http://meta.org/md.json?v=2'),
         ('http://example.org/d/t.csv', 'dir/md.json'), ('dir/t.csv', 'meta/md.json'), ('t.csv', '/abs/md.json'),
         ('dir/t.csv', 'http://example.org/m/md.json')]


def overriding(eng, ob):
    """metadata given together with the data"""
    P = eng.path
    data, loc = PAIRS[P.choose('data and metadata', len(PAIRS))]
    url = URLS[P.choose('table url', len(URLS))]
    group = P.choose('group', 2) == 0
    base = 'http://base.org/q/' if P.choose('@base', 2) == 0 else None
    d = posixpath.dirname(loc) or '.'
    if base or '://' in loc:
        want = ('url', urljoin(base or loc, url))
    elif '://' in url:
        want = ('url', url)
    else:
        want = ('file', posixpath.normpath(posixpath.join(d, url)))
    dd = posixpath.dirname(data) or '.'
    world(eng, [want[1], data], document(eng, url, group, base=base), dirs=[d, dd])
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [data], {'md_url': loc}))
    if not o.returned:
        ob(False, 'loading', lambda: 'loading {} with metadata {} {}'.format(data, loc, o.describe(eng)))
        return
    got = [e for e in P.events if e.name == 'get_json']
    ob(len(got) == 1 and plain(got[0].args[0]) == plain(loc), 'overriding metadata', lambda: 'metadata is read from '
       '{} instead of {}'.format([e.args[0] for e in got], loc))
    t = thaw_items(eng.getattr(o.value, 'tables'))[-1]
    read_table(eng, ob, t, want, 'overriding metadata')


DESCRIBEDBY = ['http://example.org/m/md.json', '../m/md.json', 'md.json']


def located(eng, ob):
    """metadata located by a link or at a default location"""
    P = eng.path
    data = 'http://example.org/d/t.csv'
    how = P.choose('located', 4)
    base = 'http://base.org/q/' if P.choose('@base', 2) == 0 else None
    url = ['t.csv', '../d/t.csv', 'http://example.org/d/t.csv', '/d/t.csv'][P.choose('table url', 4)]
    group = P.choose('group', 2) == 0
    link = DESCRIBEDBY[P.choose('link', len(DESCRIBEDBY))]
    loc = {0: urljoin(data, link), 1: data + '-metadata.json', 2: 'http://example.org/d/csv-metadata.json',
           3: 'http://example.org/m/md.json'}[how]
    world(eng, [])
    md = doc(eng, document(eng, url, group, base=base))
    def expand(e, a, k):
        t = a[0]
        while isinstance(t, Term) and t.args:
            t = t.args[0]
        uri = getattr(t, 'attrs', {}).get('__ext_args__', [t])[0]
        return uri.replace('{+url}', k['url']) if isinstance(uri, str) else _NO
    eng.ext_overrides['.expand'] = expand

    def get_json(e, a, k):
        if how == 0 and plain(a[0]) == loc:
            return md
        e.raise_ext('json.decoder.JSONDecodeError', ('no json', '', 0))
    eng.overrides['csvw.metadata.get_json'] = get_json

    def head(e, a, k):
        links = doc(e, {'describedby': {'url': link, 'type': 'application/csvm+json'}} if how == 0 else {})
        return S('head', attrs={'headers': doc(e, {'content-type': 'text/csv'}), 'links': links}, truthy=True)

    def get(e, a, k):
        u = plain(a[0])
        if u == loc:
            return S('found', attrs={'status_code': 200, 'text': '{}'}, methods={'json': lambda *x: md},
                     truthy=True)
        if u == data:
            return _NO
        if how == 3 and u == 'http://example.org/.well-known/csvm':
            return S('site', attrs={'status_code': 200, 'text': 'csv-metadata.json\n/m/md.json'}, truthy=True)
        if u in [data, 'http://example.org/.well-known/csvm', data + '-metadata.json',
                 'http://example.org/d/csv-metadata.json']:
            return S('missing ' + u, attrs={'status_code': 404, 'text': ''}, truthy=False)
        return _NO
    eng.ext_overrides['requests.head'] = head
    eng.ext_overrides['requests.get'] = get
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [data]))
    if not o.returned:
        ob(False, 'locating', lambda: 'opening {} with metadata at {} {}'.format(data, loc, o.describe(eng)))
        return
    t = thaw_items(eng.getattr(o.value, 'tables'))[-1]
    read_table(eng, ob, t, ('url', urljoin(base or loc, url)), 'located metadata')


def rules(C):
    C.explore('local', local, mods=MODS, min_ok=400, statement='relative to the metadata file')
    C.explore('remote', remote, mods=MODS, min_ok=1000, statement='relative to the URL or base of the metadata')
    C.explore('no-metadata', without_metadata, mods=MODS, min_ok=12, statement='the file itself')
    C.explore('sources', sources, mods=MODS, min_ok=1000, statement='the archive member of this name, decoded '
              'by the encoding of the dialect')
    C.explore('given', given_file, mods=MODS, min_ok=8, statement='a given file is read instead')
    C.explore('links', links, mods=MODS, min_ok=18, statement='links are resolved')
    C.explore('schemas', schemas, mods=MODS, min_ok=200, statement='schemas given by reference are taken from the URL relative to '
              'that of the metadata')
    C.explore('overriding', overriding, mods=MODS, min_ok=140, statement='relative to the overriding metadata')
    C.explore('located', located, mods=MODS, min_ok=60, statement='relative to the located metadata')
