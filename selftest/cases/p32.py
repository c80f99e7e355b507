M, U, B, F, J, T, DSV, DT = 'metadata.py', 'utils.py', 'db.py', 'frictionless.py', 'jsonld.py', 'datatypes.py', 'dsv.py', 'dsv_dialects.py'
BAD = [
 ('P32', M, "            return cls(**cls.partition_properties({'base': 'string', **v}))", "            v.setdefault('base', 'string')\n            return cls(**cls.partition_properties(v))"),
 ('P32', M, "        v = dict(v)  # The data of the caller must not be changed.\n", ""),
 ('P32', M, "                        obj = {k: v for k, v in obj.items() if k != '@language'}\n", "                        del obj['@language']\n"),
 ('P32', M, "            self.at_props = dict(self.at_props, id=self.base)", "            self.at_props['id'] = self.base"),
 ('P32', M, "        data = dict(data or get_json(url))\n        url =", "        data = data or get_json(url)\n        url ="),
 ('P32', M, "                return dict(\n                    table, tableSchema=Link(table['tableSchema']).resolve(data['@base']))\n", "                table['tableSchema'] = Link(table['tableSchema']).resolve(data['@base'])\n"),
 ('P32', M, "                self[None] = list(self.value)\n", "                self[None] = self.value\n"),
 ('P32', M, "                titles = []\n                for vv in v:\n                    if isinstance(vv, str):\n                        titles.append(vv)\n                    else:\n                        warnings.warn('Title with value which is not a string is ignored')\n                self[k] = titles\n", "                for vv in v:\n                    if not isinstance(vv, str):\n                        warnings.warn('Title with value which is not a string is ignored')\n                self[k] = v if all(isinstance(vv, str) for vv in v) else [vv for vv in v if isinstance(vv, str)]\n"),
 ('P32', M, "        kw = dict(d, reference=Reference(**d['reference']))\n        return cls(**kw)", "        d['reference'] = Reference(**d['reference'])\n        return cls(**d)"),
 ('P32', M, "        c, a, dd = {}, {}, {}\n        for k, v in (d or {}).items():\n", "        c, a, dd = {}, {}, {}\n        for k in [k for k in d or {} if k.startswith('_')]:\n            d.pop(k)\n        for k, v in (d or {}).items():\n"),
 ('P32', M, "    del partitioned['at_props']\n", "    del partitioned['at_props']\n    d.pop('@type', None)\n"),
 ('P32', M, "        {k: v for k, v in d.items() if k not in unknown}, type_name='Dialect', strict=False)", "        d, type_name='Dialect', strict=False)\n    for k in unknown:\n        partitioned.pop(k, None)\n        d.pop(k)"),
 ('P32', M, "    res = [] if v is None else (v if isinstance(v, list) else [v])\n", "    res = [] if v is None else (v if isinstance(v, list) else [v])\n    if res == []:\n        res.append('')\n"),
 ('P32', M, "    res = [] if v is None else (v if isinstance(v, list) else [v])\n", "    res = [] if v is None else (v if isinstance(v, list) else [v])\n    res.sort(key=str)\n"),
 # reading
 ('P32', M, "                    virtualcols.append((col.header, col.valueUrl))\n", "                    virtualcols.append((col.header, col.valueUrl))\n                    col.name = col.header\n                    col.required = False\n"),
 ('P32', M, "            if col.required:\n                requiredcols.add(col.header)\n", "            col.required = col.inherit('required')\n            if col.required:\n                requiredcols.add(col.header)\n"),
 ('P32', M, "        separator = self.inherit('separator')\n        datatype = self.inherit('datatype')\n\n        if not v:", "        separator = self.inherit('separator')\n        datatype = self.inherit('datatype')\n        if not self.default:\n            self.default = default\n        self.null = null\n\n        if not v:"),
 ('P32', M, "        sep = self.inherit('separator')\n        null = self.inherit_null()\n", "        sep = self.inherit('separator')\n        null = self.null = self.inherit_null()\n"),
 ('P32', M, "            return sep.join(fmt(vv) for vv in v or [])\n", "            v = v if isinstance(v, list) else list(v or [])\n            for i, vv in enumerate(v):\n                v[i] = fmt(vv)\n            return sep.join(v)\n"),
 ('P32', M, "                            if isinstance(res, str) and res.split", "                            if not col.name:\n                                col.name = name\n                            if isinstance(res, str) and res.split"),
 ('P32', M, "                header_cols = list(zip(header, self.tableSchema.columns))\n            elif", "                self.tableSchema.columns = self.tableSchema.columns[:len(header)]\n                header_cols = list(zip(header, self.tableSchema.columns))\n            elif"),
 ('P32', M, "            get_pk = operator.itemgetter(*self.tableSchema.primaryKey)\n", "            self.tableSchema.primaryKey.sort()\n            get_pk = operator.itemgetter(*self.tableSchema.primaryKey)\n"),
 ('P32', M, "        return self.dialect or (self._parent and self._parent.dialect) or Dialect()", "        if not self.dialect:\n            self.dialect = (self._parent and self._parent.dialect) or Dialect()\n        return self.dialect"),
 ('P32', M, "            for (key, children), (_, seen) in zip(t_fkeys, get_seen):\n                single_column = (len(key) == 1)\n", "            for (key, children), (_, seen) in zip(t_fkeys, get_seen):\n                single_column = (len(key) == 1)\n                if single_column:\n                    key.append(key[0])\n"),
 # serialising
 ('P32', M, "                res[attr_] = self.formatted(res[attr_])\n", "                res[attr_] = self.formatted(res[attr_])\n                setattr(self, attr_, res[attr_])\n"),
 ('P32', M, "        for k, v in sorted(self.at_props.items()):\n            yield '@' + k, _asdict_multiple(v)\n", "        while self.at_props:\n            k, v = self.at_props.popitem()\n            yield '@' + k, _asdict_multiple(v)\n"),
 ('P32', M, "        data = self.asdict(omit_defaults=omit_defaults)\n", "        data = self.asdict(omit_defaults=omit_defaults)\n        self._fname = pathlib.Path(fname)\n"),
 ('P32', U, "        props = {k: v for k, v in copy.deepcopy(props).items() if v}\n", ""),
 # rows
 ('P32', M, "                        col.write(item.get(\n                            col.header, item.get('{}'.format(col))))\n", "                        col.write(item.pop(\n                            col.header, item.get('{}'.format(col))))\n"),
 ('P32', M, "                    row = [col.write(item[i]) for i, col in enumerate(non_virtual_cols)]\n", "                    row = item\n                    for i, col in enumerate(non_virtual_cols):\n                        row[i] = col.write(row[i])\n"),
 ('P32', M, "                        if add:\n                            raise", "                        for field in list(item):\n                            if field.startswith('_'):\n                                item.pop(field)\n                        if add and item.clear() is None:\n                            raise"),
 ('P32', B, "                    pk = row[t.primary_key[0]] \\\n                        if t.primary_key and len(t.primary_key) == 1 else None\n                    values = {}\n", "                    pk = row[t.primary_key[0]] \\\n                        if t.primary_key and len(t.primary_key) == 1 else None\n                    values = row\n") if False else
 ('P32', B, "                    values = {}\n                    for k, v in row.items():\n", "                    values = {}\n                    for k in cols:\n                        row.setdefault(k, None)\n                    for k, v in row.items():\n"),
 ('P32', B, "                            for vv in (v or []):\n", "                            while v:\n                                vv = v.pop(0)\n"),
 ('P32', B, "        spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)\n", "        spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)\n        for c in table.tableSchema.columns:\n            c.required = c.required or c.name in (spec.primary_key or [])\n"),
 ('P32', B, "                        list(fk.columnReference),\n                        fk", "                        fk.columnReference,\n                        fk") if False else
 ('P32', B, "                if len(fk.columnReference) == 1 and fk.columnReference[0] in list_valued:\n", "                if len(fk.columnReference) == 1 and fk.columnReference[0] in list_valued:\n                    table.tableSchema.columndict[fk.columnReference[0]].separator = ','\n"),
 ('P32', DSV, "        self.writer.writerow(self._escapedoubled(row))\n", "        if isinstance(row, list) and row and row[0] is None:\n            row[0] = ''\n        self.writer.writerow(self._escapedoubled(row))\n"),
 # conversions
 ('P32', J, "        if '@value' in obj:\n            obj = obj['@value']\n", "        if '@value' in obj:\n            obj = obj.pop('@value')\n"),
 ('P32', M, "        if table.notes:\n            res['notes'] = jsonld.to_json(table.notes)\n", "        if table.notes:\n            table.notes[:] = jsonld.to_json(table.notes)\n            res['notes'] = table.notes\n"),
 ('P32', M, "            if col and (col.suppressOutput or col.virtual):\n                continue\n", "            if col and (col.suppressOutput or col.virtual):\n                continue\n            if col and not col.propertyUrl:\n                col.propertyUrl = col.inherit('propertyUrl')\n                col.lang = 'de'\n"),
 ('P32', F, "    constraints = spec.get('constraints', {})\n", "    constraints = spec.pop('constraints', {})\n"),
 ('P32', F, "        columnReference=fk['fields'],\n", "        columnReference=fk.pop('fields'),\n"),
 ('P32', F, "    d = rsc.get('dialect', {})\n", "    d = rsc.setdefault('dialect', {})\n    d.pop('csvddfVersion', None)\n") ,
 ('P32', F, "            if prop == 'foreignKeys':\n                res[toprop] = [convert_foreignKey(rsc_name, fk, resource_map) for fk in res[toprop]]\n", "            if prop == 'foreignKeys':\n                for i, fk in enumerate(res[toprop]):\n                    res[toprop][i] = convert_foreignKey(rsc_name, fk, resource_map)\n"),
 ('P32', F, "        md = {'@context': \"http://www.w3.org/ns/csvw\"}\n", "        md = {'@context': \"http://www.w3.org/ns/csvw\"}\n        self.json.setdefault('id', self.json.get('name'))\n"),
]
GOOD = [
 ('P32', M, "            return cls(**cls.partition_properties({'base': 'string', **v}))", "            v = dict(v)\n            v.setdefault('base', 'string')\n            return cls(**cls.partition_properties(v))"),
 ('P32', M, "        v = dict(v)  # The data of the caller must not be changed.\n", "        v = copy.copy(v)\n", ) if False else
 ('P32', M, "        c, a, dd = {}, {}, {}\n        for k, v in (d or {}).items():\n", "        c, a, dd = {}, {}, {}\n        d = dict(d or {})\n        while d:\n            k = next(iter(d))\n            v = d.pop(k)\n"),
 ('P32', M, "                self[None] = list(self.value)\n", "                self[None] = [v for v in self.value]\n"),
 ('P32', M, "            self.at_props = dict(self.at_props, context=context)\n", "            self.at_props = {k: context if k == 'context' else v for k, v in self.at_props.items()}\n"),
 ('P32', M, "            return sep.join(fmt(vv) for vv in v or [])\n", "            v = list(v or [])\n            for i, vv in enumerate(v):\n                v[i] = fmt(vv)\n            return sep.join(v)\n"),
 ('P32', M, "        data = self.asdict(omit_defaults=omit_defaults)\n", "        data = self.asdict(omit_defaults=omit_defaults)\n        data.pop('@base_', None)\n"),
 ('P32', B, "                    values = {}\n                    for k, v in row.items():\n", "                    values = {}\n                    row = dict(row)\n                    while row:\n                        k = next(iter(row))\n                        v = row.pop(k)\n"),
 ('P32', F, "    constraints = spec.get('constraints', {})\n", "    spec = dict(spec)\n    constraints = spec.pop('constraints', {})\n"),
 ('P32', F, "            if prop == 'foreignKeys':\n                res[toprop] = [convert_foreignKey(rsc_name, fk, resource_map) for fk in res[toprop]]\n", "            if prop == 'foreignKeys':\n                fks = list(res[toprop])\n                for i, fk in enumerate(fks):\n                    fks[i] = convert_foreignKey(rsc_name, fk, resource_map)\n                res[toprop] = fks\n"),
 ('P32', M, "    res = [] if v is None else (v if isinstance(v, list) else [v])\n", "    res = [] if v is None else (list(v) if isinstance(v, list) else [v])\n"),
 ('P32', U, "        props = {k: v for k, v in copy.deepcopy(props).items() if v}\n", "        props = {k: copy.deepcopy(v) for k, v in props.items() if v}\n"),
]
