HEAD = '''
import warnings
warnings.simplefilter('ignore')
from csvw.metadata import *
from csvw.metadata import Schema

def rejected(cls, d):
    try:
        cls.fromvalue(d)
    except ValueError:
        return True
    return False
'''
SEEDS = [
    dict(id='p20-nested-list', property='P20',
         needs='a fault inside an object nested in a list of a common property',
         breaks='only objects directly in lists of objects are checked, not in nested lists',
         edits=[('metadata.py', "        return [valid_common_property(vv) for vv in v]", "        return [valid_common_property(vv) if isinstance(vv, dict) else vv for vv in v]")],
         demo=HEAD + '''
ok = rejected(Table, {'url': 'x', 'dc:a': [{'@language': 'en'}]})
ok = ok and rejected(Table, {'url': 'x', 'dc:a': [[{'@language': 'en'}]]})
sys.exit(0 if ok else 1)
'''),
    dict(id='p20-virtual-gap', property='P20',
         needs='a regular column with only a title after a virtual one',
         breaks='regular columns without name may follow virtual columns',
         edits=[('metadata.py', "            elif virtual:  # non-virtual column after virtual column!", "            elif virtual and col.name:  # non-virtual column after virtual column!")],
         demo=HEAD + '''
sys.exit(0 if rejected(Schema, {'columns': [{'name': 'v', 'virtual': True}, {'titles': 'a'}]}) else 1)
'''),
    dict(id='p20-language-id', property='P20',
         needs='@language on an object with @id but without @value',
         breaks='objects with @id may have @language',
         edits=[('metadata.py', "        if '@language' in v and '@value' not in v:", "        if '@language' in v and not {'@value', '@id'} & set(v):")],
         demo=HEAD + '''
sys.exit(0 if rejected(Table, {'url': 'x', 'dc:a': {'@language': 'en', '@id': 'http://x'}}) else 1)
'''),
    dict(id='p20-context-order', property='P20',
         needs='a context list with a local context of a forbidden key next to an allowed one',
         breaks='a local context is accepted if it has one of the allowed keys',
         edits=[('metadata.py', "not set(obj.keys()).issubset({'@base', '@language'}))", "set(obj.keys()).isdisjoint({'@base', '@language'}) and obj)")],
         demo=HEAD + '''
sys.exit(0 if rejected(Table, {'url': 'x', '@context': ['http://www.w3.org/ns/csvw', {'@language': 'en', 'dc': 'x'}]}) else 1)
'''),
    dict(id='p20-fk-surplus', property='P20',
         needs='a foreign key with common properties',
         breaks='surplus common properties of foreign keys are dropped rather than rejected',
         edits=[('metadata.py', "            if not set(d.keys()).issubset({'columnReference', 'reference'}):", "            d = {k: v for k, v in d.items() if ':' not in k}\n            if not set(d.keys()).issubset({'columnReference', 'reference'}):")],
         demo=HEAD + '''
sys.exit(0 if rejected(Table, {'url': 'x', 'tableSchema': {'columns': [{'name': 'a'}], 'foreignKeys': [
    {'columnReference': 'a', 'reference': {'resource': 'y', 'columnReference': 'b'}, 'dc:title': 'x'}]}}) else 1)
'''),
]
