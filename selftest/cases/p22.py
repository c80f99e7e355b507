M, J = 'metadata.py', 'jsonld.py'
BAD = [
 ('P22', M, "for table in self.tables if not table.suppressOutput]", "for table in self.tables]"),
 ('P22', M, "for table in self.tables if not table.suppressOutput]", "for table in self.tables if table.suppressOutput is not False or True]"),
 ('P22', M, "[[r['describes'][0] for r in t['row']] for t in res['tables']]", "[[r['describes'][0] for r in t['row']] for t in res['tables'][:1]]"),
 ('P22', M, "[[r['describes'][0] for r in t['row']] for t in res['tables']]", "[[r['describes'][-1] for r in t['row']] for t in res['tables']]"),
 ('P22', M, "[[r['describes'][0] for r in t['row']] for t in res['tables']]", "[[x for r in t['row'] for x in r['describes']] for t in res['tables']]"),
 ('P22', M, "with_metadata=True, strict=False), start=1)", "with_metadata=True, strict=False), start=0)"),
 ('P22', M, "res['url'] = '{}#row={}'.format(table.url.resolve(table.base), rowsourcenum)", "res['url'] = '{}#row={}'.format(table.url.resolve(table.base), rownum)"),
 ('P22', M, "res['rownum'] = rownum\n", "res['rownum'] = rowsourcenum\n"),
 ('P22', M, "for rownum, (_, rowsourcenum, row) in enumerate(\n", "for rowsourcenum, (_, rownum, row) in enumerate(\n"),
 ('P22', M, "if col and (col.suppressOutput or col.virtual):", "if col and col.virtual:"),
 ('P22', M, "if col and (col.suppressOutput or col.virtual):", "if col and col.suppressOutput:"),
 ('P22', M, "if col and (col.suppressOutput or col.virtual):\n                continue", "if col and (col.suppressOutput or col.virtual):\n                break"),
 ('P22', M, "null = col.inherit_null() if col else table.inherit_null()", "null = col.null if col else table.null"),
 ('P22', M, "null = col.inherit_null() if col else table.inherit_null()", "null = col.inherit_null() if col else []"),
 ('P22', M, "v == \"\" or (v is None) or", "not v or"),
 ('P22', M, "v == \"\" or (v is None) or", "(v is None) or"),
 ('P22', M, "v == \"\" or (v is None) or", "v == \"\" or"),
 ('P22', M, "(col and col.inherit('separator') and v == []):", "(col and col.separator and v == []):"),
 ('P22', M, "(col and col.inherit('separator') and v == []):", "(col and col.inherit('separator') and len(v) < 2):"),
 ('P22', M, "if col.virtual and not col.suppressOutput:", "if col.virtual:"),
 ('P22', M, "if col.virtual and not col.suppressOutput:", "if col.virtual and not col.suppressOutput and not triples:"),
 ('P22', M, "col.header, None, rownum))", "col.name, None, None))"),
 ('P22', J, "propertyUrl = (col or table).inherit('propertyUrl')", "propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')"),
 ('P22', J, "valueUrl = (col or table).inherit('valueUrl')", "valueUrl = col.valueUrl if col else None"),
 ('P22', J, "propertyUrl = (col or table).inherit('propertyUrl')", "propertyUrl = col.inherit('propertyUrl') if col else None"),
 ('P22', J, "prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)", "prop = table.expand(propertyUrl, row, _row=rownum, _name=_name)"),
 ('P22', J, "prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)", "prop = table.expand(propertyUrl, row, _row=rownum, qname=True)"),
 ('P22', J, "val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)", "val = table.expand(valueUrl, row, _row=0, _name=_name, qname=is_type)"),
 ('P22', J, "s = table.expand(aboutUrl, row, _row=rownum, _name=_name) or s", "s = table.expand(aboutUrl, {}, _row=rownum, _name=_name) or s"),
 ('P22', J, "    if isinstance(value, list):\n        return [format_value(v, col) for v in value]\n", ""),
 ('P22', J, "        value = float(value)\n", "        value = int(value)\n"),
 ('P22', J, "if root != ref['@id']:  # Objects must not become part of themselves.", "if True:"),
 ('P22', J, "if root != ref['@id']:  # Objects must not become part of themselves.", "if subjects[0].get('@id') != ref['@id']:"),
 ('P22', J, "ref.update(items.pop(ref['@id']))", "ref.update(items[ref['@id']])"),
 ('P22', J, "ref.update(items.pop(ref['@id']))", "items.pop(ref['@id'])"),
 ('P22', J, "items[item.get('@id') or index] = item", "items[item.get('@id')] = item"),
 ('P22', J, "        elif len(obj) == 1 and '@id' in obj:", "        elif '@id' in obj:"),
 ('P22', J, "            value = [\n                v for vs in (node[prop], value)", "            value = [\n                v for vs in (value,)"),
 ('P22', J, "for v in (vs if isinstance(vs, list) else [vs])]", "for v in [vs]]"),
 ('P22', J, "    if '@id' not in grouped and len(nodes) == 1:", "    if '@id' not in grouped:"),
 ('P22', J, "        if prop != '@id':\n            add(grouped, prop, value)", "        if prop != '@id':\n            grouped[prop] = value"),
 ('P22', J, "        nodes.move_to_end(None, last=False)\n", ""),
 ('P22', J, "    if any(prop != '@id' for prop in grouped):", "    if '@id' in grouped:"),
 ('P22', J, "    for prop, value in nodes.pop(grouped.get('@id'), {}).items():", "    for prop, value in nodes.get(grouped.get('@id'), {}).items():"),
]
GOOD = [
 ('P22', M, "        if minimal:\n            return list(\n                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))\n",
  "        if minimal:\n            objs = []\n            for t in res['tables']:\n                for r in t['row']:\n                    objs.append(r['describes'][0])\n            return objs\n"),
 ('P22', M, "        res['tables'] = [\n            self._table_to_json(table) for table in self.tables if not table.suppressOutput]\n",
  "        res['tables'] = []\n        for table in self.tables:\n            if table.suppressOutput:\n                continue\n            res['tables'].append(self._table_to_json(table))\n"),
 ('P22', M, "            if (null and v in null) or v == \"\" or (v is None) or \\\n                    (col and col.inherit('separator') and v == []):\n                continue\n",
  "            if self._skip(null, v):\n                continue\n            if col and col.inherit('separator') and not v and isinstance(v, list):\n                continue\n",
  M, "    def _describes(self,", "    @staticmethod\n    def _skip(null, v):\n        return v is None or v == '' or bool(null and v in null)\n\n    def _describes(self,"),
 ('P22', M, "        row = [\n            self._row_to_json(table, cols, row, rownum, rowsourcenum)\n            for rownum, (_, rowsourcenum, row) in enumerate(\n                table.iterdicts(with_metadata=True, strict=False), start=1)\n        ]\n",
  "        row = []\n        for _, rowsourcenum, item in table.iterdicts(with_metadata=True, strict=False):\n            row.append(self._row_to_json(table, cols, item, len(row) + 1, rowsourcenum))\n"),
 ('P22', M, "res['url'] = '{}#row={}'.format(table.url.resolve(table.base), rowsourcenum)", "res['url'] = str(table.url.resolve(table.base)) + f'#row={rowsourcenum}'"),
 ('P22', M, "        cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])\n", "        cols = {c.header: c for c in table.tableSchema.columns}\n"),
 ('P22', M, "        for col in table.tableSchema.columns:\n            if col.virtual and not col.suppressOutput:\n                triples.append(",
  "        for col in table.tableSchema.columns:\n            if col.suppressOutput or not col.virtual:\n                continue\n            if True:\n                triples.append("),
 ('P22', J, "        value = float(value)\n", "        return float(value)\n"),
 ('P22', J, "    for ref, subjects in refs.values():\n        if len(subjects) == 1 and ref['@id'] in items:\n", "    for target, (ref, subjects) in refs.items():\n        if len(subjects) == 1 and target in items:\n"),
 ('P22', J, "    if isinstance(obj, list):\n        if len(obj) == 1 and flatten_list:\n            return to_json(obj[0], flatten_list=flatten_list)\n        return [to_json(v, flatten_list=flatten_list) for v in obj]\n",
  "    if isinstance(obj, list):\n        res = [to_json(v, flatten_list=flatten_list) for v in obj]\n        return res[0] if flatten_list and len(res) == 1 else res\n"),
 ('P22', J, "    def add(node, prop, value):\n        # Several values of a property make up a list.\n        if prop in node:\n            value = [\n                v for vs in (node[prop], value) for v in (vs if isinstance(vs, list) else [vs])]\n        node[prop] = value\n",
  "    def add(node, prop, value):\n        if prop not in node:\n            node[prop] = value\n            return\n        old = node[prop] if isinstance(node[prop], list) else [node[prop]]\n        node[prop] = old + (value if isinstance(value, list) else [value])\n"),
 ('P22', J, "        nodes[None] = grouped\n        nodes.move_to_end(None, last=False)\n", "        nodes = collections.OrderedDict([(None, grouped)] + list(nodes.items()))\n"),
]
