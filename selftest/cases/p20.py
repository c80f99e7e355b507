M = 'metadata.py'
BAD = [
    ('P20', M, "                if k == '@type' and v != type_name:", "                if k == '@type' and v not in (type_name, None):"),
    ('P20', M, "                if k == '@type' and v != type_name:", "                if k == '@type' and isinstance(v, str) and v != type_name:"),
    ('P20', M, "                if k == '@type' and v != type_name:", "                if k == '@type' and v.lower() != type_name.lower():"),
    ('P20', M, "                if k == '@id':\n                    v = valid_id_property(v)\n", ""),
    ('P20', M, "    if v.startswith('_'):\n        raise ValueError('Invalid @id", "    if v == '_:':\n        raise ValueError('Invalid @id"),
    ('P20', M, "    if v.startswith('_'):\n        raise ValueError('Invalid @id", "    if '_:' in v:\n        raise ValueError('Invalid @id"),
    ('P20', M, "                c[k] = valid_common_property(v)", "                c[k] = v"),
    ('P20', M, "                c[k] = valid_common_property(v)", "                c[k] = valid_common_property(v) if cls is not Column else v"),
    ('P20', M, "{'id', 'language', 'type', 'value'}):", "{'id', 'language', 'type', 'value', 'list'}):"),
    ('P20', M, "if not {k[1:] for k in v if k.startswith('@')}.issubset(", "if '@value' in v and not {k[1:] for k in v if k.startswith('@')}.issubset("),
    ('P20', M, "in [{'@value'}, {'@value', '@language'}, {'@value', '@type'}]", "in [{'@value'}, {'@value', '@language'}, {'@value', '@type'}, {'@value', '@id'}]"),
    ('P20', M, "(str, bool, int, float, decimal.Decimal)", "(str, bool, int, float, decimal.Decimal, list)"),
    ('P20', M, "(str, bool, int, float, decimal.Decimal)", "(str, int, decimal.Decimal)"),
    ('P20', M, "        if '@language' in v and '@value' not in v:", "        if '@language' in v and len(v) == 1:"),
    ('P20', M, "        if '@language' in v and '@value' not in v:", "        if '@language' in v and '@value' not in v and '@id' not in v:"),
    ('P20', M, "            v['@id'] = valid_id_property(v['@id'])", "            pass"),
    ('P20', M, "vv == ns or vv.startswith(ns + ':')", "vv.startswith(ns)"),
    ('P20', M, "vv == ns or vv.startswith(ns + ':')", "ns in vv"),
    ('P20', M, "return {k: valid_common_property(vv) for k, vv in v.items()}", "return {k: valid_common_property(vv) if isinstance(vv, dict) else vv for k, vv in v.items()}"),
    ('P20', M, "return {k: valid_common_property(vv) for k, vv in v.items()}", "return v"),
    ('P20', M, "        return [valid_common_property(vv) for vv in v]", "        return [valid_common_property(v[0])] + v[1:] if v else v"),
    ('P20', M, "        return [valid_common_property(vv) for vv in v]", "        return v"),
    ('P20', M, "            raise ValueError('url property is required for Tables')", "            warnings.warn('url property is required for Tables')"),
    ('P20', M, "        TableLike.__attrs_post_init__(self)\n        if not self.url:", "        TableLike.__attrs_post_init__(self)\n        if not self.url and self.tableSchema.columns:"),
    ('P20', M, "if (isinstance(obj, dict) and not set(obj.keys()).issubset({'@base', '@language'}))\\\n                        or", "if"),
    ('P20', M, "not set(obj.keys()).issubset({'@base', '@language'})", "not set(obj.keys()) & {'@base', '@language'}"),
    ('P20', M, "obj != 'http://www.w3.org/ns/csvw'):", "not obj.startswith('http://www.w3.org/ns/csvw')):"),
    ('P20', M, "        for obj in ctx:\n", "        for obj in ctx[1:]:\n", ) if False else
    ('P20', M, "            for obj in ctx:\n", "            for obj in ctx[1:]:\n"),
    ('P20', M, "            elif virtual:  # non-virtual", "            elif virtual and self.columns[i - 1].virtual and col.name:  # non-virtual"),
    ('P20', M, "            if col.virtual:  # first virtual column sets the flag\n                virtual = True", "            if col.virtual:  # first virtual column sets the flag\n                virtual = i > 0"),
    ('P20', M, "                    if col.name in names:", "                    if i and col.name == self.columns[i - 1].name:"),
    ('P20', M, "                    names.add(col.name)", "                    names = {col.name}"),
    ('P20', M, "        if self.resource is not None and self.schemaReference is not None:", "        if self.resource is not None and self.resource == self.schemaReference:"),
    ('P20', M, "            if not set(d.keys()).issubset({'columnReference', 'reference'}):", "            if 'columnReference' in d and not set(d.keys()).issubset({'columnReference', 'reference', 'resource'}):"),
    ('P20', M, "                raise ValueError('Invalid foreignKey spec')", "                warnings.warn('Invalid foreignKey spec')\n                d = {k: d[k] for k in d if k in ('columnReference', 'reference')}"),
    ('P20', M, "            except (KeyError, TypeError):\n", "            except KeyError:\n"),
    ('P20', M, '''            if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):''', '''            if md.get('@context') and "http://www.w3.org/ns/csvw" not in md.get('@context', ''):'''),
    ('P20', M, "if not md['tables'] or not isinstance(md['tables'], list):", "if not isinstance(md['tables'], list):"),
    ('P20', M, "if not md['tables'] or not isinstance(md['tables'], list):", "if not md['tables']:"),
]
GOOD = [
    ('P20', M, "                if k == '@type' and v != type_name:", "                if k == '@type' and not (v == type_name):"),
    ('P20', M, "    if v.startswith('_'):\n        raise ValueError('Invalid @id", "    if v.startswith('_:'):\n        raise ValueError('Invalid @id"),
    ('P20', M, "    if v.startswith('_'):\n        raise ValueError('Invalid @id", "    if v[:1] == '_':\n        raise ValueError('Invalid @id"),
    ('P20', M, "if not {k[1:] for k in v if k.startswith('@')}.issubset(\n                {'id', 'language', 'type', 'value'}):",
     "if any(k.startswith('@') and k not in ('@id', '@language', '@type', '@value') for k in v):"),
    ('P20', M, "        if '@language' in v and '@value' not in v:", "        if v.get('@language', INVALID) is not INVALID and not ('@value' in v):"),
    ('P20', M, "return {k: valid_common_property(vv) for k, vv in v.items()}", "res = {}\n        for k, vv in v.items():\n            res[k] = valid_common_property(vv)\n        return res"),
    ('P20', M, "        return [valid_common_property(vv) for vv in v]", "        return list(map(valid_common_property, v))"),
    ('P20', M, "        if not self.url:\n", "        if self.url is None:\n"),
    ('P20', M, "                    if col.name in names:\n                        raise ValueError('Duplicate column name {}'.format(col.name))\n                    names.add(col.name)",
     "                    known = len(names)\n                    names.add(col.name)\n                    if len(names) == known:\n                        raise ValueError('Duplicate column name {}'.format(col.name))"),
    ('P20', M, "not set(obj.keys()).issubset({'@base', '@language'})", "set(obj) - {'@base', '@language'}"),
    ('P20', M, "            if not set(d.keys()).issubset({'columnReference', 'reference'}):", "            if [k for k in d if k not in ['columnReference', 'reference']]:"),
    ('P20', M, "        if self.resource is not None and self.schemaReference is not None:\n            raise ValueError(self)", "        if None not in (self.resource, self.schemaReference):\n            raise ValueError(self)"),
    ('P20', M, "if not md['tables'] or not isinstance(md['tables'], list):", "if not (isinstance(md['tables'], list) and len(md['tables'])):"),
]
