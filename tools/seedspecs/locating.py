"""Seeds for P21."""
HEAD = '''
import io, json, pathlib, shutil, tempfile, zipfile
from csvw import *
import csvw.metadata as m
NS = 'http://www.w3.org/ns/csvw'
opened = []


class Response:
    def __init__(self, content=b'a\\n1\\n'):
        self.content = content


def get(url, *a, **kw):
    opened.append(url)
    return Response()


m.requests.get = get
tmp = pathlib.Path(tempfile.mkdtemp())


def table(**kw):
    return dict({'@context': NS, 'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}, **kw)
'''
SEEDS = [
    dict(id='p21-group-context', property='P21',
         needs='metadata from the web of several tables with a relative base in its context',
         breaks='a base in the context of a group is not resolved against the location of the metadata',
         edits=[('metadata.py', "                return Link(ctxbase).resolve(at_props['base'])",
                 "                return Link(ctxbase).resolve(at_props['base']) if not self._parent else ctxbase")],
         demo=HEAD + '''
tg = TableGroup.from_url('http://example.org/a/md.json', data={
    '@context': [NS, {'@base': 'data/'}], 'tables': [{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}]})
list(tg.tables[0])
shutil.rmtree(tmp)
sys.exit(0 if opened == ['http://example.org/a/data/t.csv'] else 1)
'''),
    dict(id='p21-absolute-in-local', property='P21',
         needs='local metadata with an https URL as url of its table',
         breaks='https URLs in local metadata are taken for paths',
         edits=[('metadata.py', "            if is_url(self.string):\n                return self.string\n            return (base",
                 "            if self.string.startswith('http:'):\n                return self.string\n            return (base")],
         demo=HEAD + '''
fn = tmp / 'md.json'
fn.write_text(json.dumps(table(url='https://example.org/x.csv')))
try:
    list(Table.from_file(fn))
except Exception as e:
    pass
shutil.rmtree(tmp)
sys.exit(0 if opened == ['https://example.org/x.csv'] else 1)
'''),
    dict(id='p21-zip-directory', property='P21',
         needs='an archive with the file in another depth of folders',
         breaks='only members two folders deep in the archive are found',
         edits=[('metadata.py', "n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]",
                 "n for n in zipf.namelist() if n.split('/', 2)[-1] == fpath.name][0]")],
         demo=HEAD + '''
ok = True
for name in ['x/y/t.csv', 't.csv', 'w/x/y/t.csv']:
    (tmp / 'md.json').write_text(json.dumps(table()))
    with zipfile.ZipFile(tmp / 't.csv.zip', 'w') as z:
        z.writestr('README', 'x')
        z.writestr(name, 'a\\n1\\n')
    try:
        ok = ok and [dict(r) for r in Table.from_file(tmp / 'md.json')] == [{'a': '1'}]
    except Exception as e:
        ok = False
shutil.rmtree(tmp)
sys.exit(0 if ok else 1)
'''),
    dict(id='p21-query', property='P21',
         needs='metadata whose URL has a query and no path component after it',
         breaks='an explicit @base is replaced by the location of metadata with a query',
         edits=[('metadata.py', "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))",
                 "        if '@base' not in data or url.query:\n            data['@base'] = urlunparse((url.scheme, url.netloc, url.path, '', '', ''))")],
         demo=HEAD + '''
t = Table.from_url('http://example.org/a/md.json?v=1', data=table(**{'@base': 'http://base.org/b/'}))
list(t)
shutil.rmtree(tmp)
sys.exit(0 if opened == ['http://base.org/b/t.csv'] else 1)
'''),
]
