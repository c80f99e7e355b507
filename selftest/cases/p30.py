F, M = 'frictionless.py', 'metadata.py'
BAD = [
 ('P30', F, "'yearmonth': 'gYearMonth',", "'yearmonth': 'gYear',"),
 ('P30', F, "spec.get('format') == 'binary':\n            res['datatype']['base'] = 'binary'", "spec.get('format') == 'binary':\n            res['datatype']['base'] = 'base64'"),
 ('P30', F, "        if spec['type'] == 'string' and spec.get('format') == 'binary':", "        if spec.get('format') == 'binary' and 'constraints' not in spec:"),
 ('P30', F, "        elif spec['type'] == 'string' and spec.get('format') == 'uri':", "        elif spec['type'] == 'string' and spec.get('format') == 'url':"),
 ('P30', F, "'date', 'time', 'datetime', 'duration',\n        ]:\n            res", "'date', 'time', 'datetime',\n        ]:\n            res"),
 ('P30', F, "        elif spec['type'] in ['object', 'array']:", "        elif spec['type'] in ['object']:"),
 ('P30', F, "                    (spec.get('trueValues') or ['true'])[0],", "                    (spec.get('trueValues') or ['true'])[-1],"),
 ('P30', F, "                    (spec.get('falseValues') or ['false'])[0])", "                    (spec.get('falseValues') or ['0'])[0])"),
 ('P30', F, "(spec.get('trueValues') or spec.get('falseValues'))", "(spec.get('trueValues') and spec.get('falseValues'))"),
 ('P30', F, "                if any(prop in spec for prop in ['decimalChar', 'groupChar']):", "                if all(prop in spec for prop in ['decimalChar', 'groupChar']):"),
 ('P30', F, "                    for p in ['decimalChar', 'groupChar']:\n                        if spec.get(p):", "                    for p in ['decimalChar', 'groupChar']:\n                        if spec.get(p) and not res['datatype']['format']:"),
 ('P30', F, "            if spec['type'] in ['number', 'integer']:", "            if spec['type'] in ['number']:"),
 ('P30', F, "    titles = [t for t in [spec.get('title')] if t]", "    titles = [t for t in [spec.get('title')] if t and t != spec['name']]"),
 ('P30', F, "        res['dc:description'] = [spec['description']]", "        res['dc:description'] = spec['description'].split('.')"),
 ('P30', F, "    if 'rdfType' in spec:", "    if 'rdfType' in spec and 'type' in spec:"),
 ('P30', F, "        res['required'] = constraints['required']", "        res['required'] = not constraints['required']"),
 ('P30', F, "        res['required'] = constraints['required']", "        res['datatype']['required'] = constraints['required']"),
 ('P30', F, "        if prop in constraints:\n", "        if constraints.get(prop):\n"),
 ('P30', F, "    for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:", "    for prop in ['minLength', 'maxLength', 'minimum']:"),
 ('P30', F, "        'number', 'integer', 'boolean', 'date', 'time', 'datetime',\n    ]:\n        res", "        'number', 'integer', 'boolean', 'date', 'time',\n    ]:\n        res"),
 ('P30', F, "        'number', 'integer', 'boolean', 'date', 'time', 'datetime',\n    ]:\n        res", "        'number', 'integer', 'boolean', 'date', 'time', 'datetime', 'json',\n    ]:\n        res"),
 ('P30', F, "        res['datatype']['format'] = constraints['pattern']", "        res['datatype']['format'] = '^{}$'.format(constraints['pattern'])"),
 ('P30', F, "        columnReference=fk['fields'],\n", "        columnReference=sorted(fk['fields']),\n"),
 ('P30', F, "resource_map[fk['reference'].get('resource') or rsc_name]", "resource_map.get(fk['reference'].get('resource'), resource_map[rsc_name])", ) if False else
 ('P30', F, "resource_map[fk['reference'].get('resource') or rsc_name]", "fk['reference'].get('resource') or resource_map[rsc_name]"),
 ('P30', F, "            columnReference=fk['reference']['fields'],", "            columnReference=fk['fields'],"),
 ('P30', F, "resource_map[fk['reference'].get('resource') or rsc_name]", "resource_map[fk['reference']['resource'] or rsc_name]"),
 ('P30', F, "        if prop in schema:\n", "        if schema.get(prop):\n"),
 ('P30', F, "        ('missingValues', 'null'),", "        'missingValues',"),
 ('P30', F, "                res[toprop] = [convert_foreignKey(rsc_name, fk, resource_map) for fk in res[toprop]]", "                res[toprop] = [convert_foreignKey(rsc_name, fk, resource_map) for fk in res[toprop][:1]]"),
 ('P30', F, "            res[toprop] = schema[prop]\n", "            res[toprop] = sorted(schema[prop]) if prop == 'primaryKey' else schema[prop]\n"),
 ('P30', F, "    if d.get('delimiter'):\n        res['delimiter'] = d['delimiter']\n    if rsc.get('encoding'):\n        res['encoding'] = rsc['encoding']", "    if rsc.get('encoding') and d:\n        res['encoding'] = rsc['encoding']"),
 ('P30', F, "        'doubleQuote',\n", ""),
 ('P30', F, "        if prop in d:\n            res[prop] = d[prop]", "        if d.get(prop):\n            res[prop] = d[prop]"),
 ('P30', F, "    if 'commentChar' in d:\n        res['commentPrefix']", "    if 'commentChar' in d and 'header' not in d:\n        res['commentPrefix']"),
 ('P30', F, "    if 'csv' in d:\n        d = d['csv']\n", "    if 'csv' in d and 'delimiter' in d['csv']:\n        d = d['csv']\n"),
 ('P30', F, "        if isinstance(spec, DataPackage):\n            self.json = spec.json\n            self.dir = spec.dir", "        if isinstance(spec, DataPackage):\n            self.json = spec.json\n            self.dir = pathlib.Path(directory or '.')"),
 ('P30', F, "self.dir = pathlib.Path(directory or spec.parent)", "self.dir = pathlib.Path(spec.parent)"),
 ('P30', F, "            if schema and \\\n", "            if schema and schema['fields'] and \\\n"),
 ('P30', F, "                    rsc.get('format') == 'csv':", "                    rsc.get('format') in ('csv', 'json'):"),
 ('P30', F, "                md['tables'].append(table)", "                md['tables'].insert(0, table)"),
 ('P30', F, "            elif 'title' not in self.json:\n                md['dc:title']", "            elif 'title' not in self.json:\n                md['title']['dc:title']"),
 ('P30', F, "                    dialect=convert_dialect(rsc),\n", "                    dialect=convert_dialect(resources[0]),\n"),
 ('P30', F, "tableSchema=convert_table_schema(rsc.get('name'), schema, resource_map)", "tableSchema=convert_table_schema(resources[0].get('name'), schema, resource_map)"),
 ('P30', F, "        res._fname = self.dir / 'csvw-metadata.json'", "        res._fname = pathlib.Path('csvw-metadata.json')"),
 ('P30', F, "columns=[convert_column_spec(f) for f in schema['fields']]", "columns=[convert_column_spec(f) for f in {f['name'].lower(): f for f in schema['fields']}.values()]") if False else
 ('P30', F, "columns=[convert_column_spec(f) for f in schema['fields']]", "columns=[convert_column_spec(f) for f in schema['fields'] if not f['name'].isdigit()]"),
]
GOOD = [
 ('P30', F, "    titles = [t for t in [spec.get('title')] if t]", "    title = spec.get('title')\n    titles = [title] if title else []"),
 ('P30', F, "        if prop in constraints:\n            res['datatype'][prop] = constraints[prop]\n", "        value = constraints.get(prop)\n        if value is not None:\n            res['datatype'][prop] = value\n"),
 ('P30', F, "        res['dc:description'] = [spec['description']]", "        res['dc:description'] = spec['description']"),
 ('P30', F, "    if d.get('delimiter'):\n        res['delimiter'] = d['delimiter']\n", ""),
 ('P30', F, "        if prop in schema:\n            res[toprop] = schema[prop]\n            if prop == 'foreignKeys':\n                res[toprop] = [convert_foreignKey(rsc_name, fk, resource_map) for fk in res[toprop]]\n",
  "        if prop not in schema:\n            continue\n        val = schema[prop]\n        if prop == 'foreignKeys':\n            val = []\n            for fk in schema[prop]:\n                val.append(convert_foreignKey(rsc_name, fk, resource_map))\n        res[toprop] = val\n"),
 ('P30', F, "        resource_map = {rsc['name']: rsc['path'] for rsc in resources if 'name' in rsc}\n", "        resource_map = {}\n        for rsc in resources:\n            if 'name' in rsc:\n                resource_map[rsc['name']] = rsc['path']\n"),
 ('P30', F, "                md.setdefault('tables', [])\n", "                if 'tables' not in md:\n                    md['tables'] = []\n"),
 ('P30', F, "    constraints = spec.get('constraints', {})\n", "    constraints = spec.get('constraints') or {}\n"),
 ('P30', F, "        md['dc:replaces'] = json.dumps(self.json)\n", "        md['dc:replaces'] = json.dumps(self.json, ensure_ascii=False)\n"),
 ('P30', F, "                if any(prop in spec for prop in ['decimalChar', 'groupChar']):\n                    res['datatype']['format'] = {}\n                    for p in ['decimalChar', 'groupChar']:\n                        if spec.get(p):\n                            res['datatype']['format'][p] = spec[p]\n",
  "                fmt = {p: spec[p] for p in ['decimalChar', 'groupChar'] if spec.get(p)}\n                if fmt:\n                    res['datatype']['format'] = fmt\n"),
]
