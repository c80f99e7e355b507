M, U, D = 'metadata.py', 'utils.py', 'dsv_dialects.py'
ASD = "            if (v not in ([], {}) or defaults.get(k, DEFAULT) != v))\n"
BAD = [
 ('P18', M, ASD, "            if v not in ([], {}))\n"),
 ('P18', M, ASD, "            if k == 'null' or v not in ([], {}))\n"),
 ('P18', M, ASD, "            if v or defaults.get(k, DEFAULT) != v)\n".replace("if v or defaults", "if v not in ([], {}, 0) or defaults")),
 ('P18', M, ASD, "            if v)\n"),
 ('P18', M, "dict(utils.attr_defaults(self.__class__), tableSchema={})", "dict(utils.attr_defaults(self.__class__), tableSchema={}, dialect={})"),
 ('P18', M, "dict(utils.attr_defaults(self.__class__), tableSchema={})", "dict(utils.attr_defaults(self.__class__), tableSchema={}, primaryKey=[])"),
 ('P18', M, "        for k, v in sorted(self.at_props.items()):\n            yield '@' + k, _asdict_multiple(v)\n", ""),
 ('P18', M, "            yield '@' + k, _asdict_multiple(v)\n", "            yield k, _asdict_multiple(v)\n"),
 ('P18', M, "        for k, v in sorted(self.common_props.items()):\n            yield k, _asdict_multiple(v)\n", ""),
 ('P18', M, "            if k not in ('common_props', 'at_props'):\n                yield", "            if k not in ('common_props', 'at_props', 'notes'):\n                yield"),
 ('P18', M, "            if k not in ('common_props', 'at_props'):\n                yield", "            if True:\n                yield"),
 ('P18', M, "            if isinstance(v, (list, tuple)):\n                return [_asdict_single(vv) for vv in v]\n", "            if isinstance(v, (list, tuple)):\n                return [_asdict_single(vv) for vv in v if vv]\n"),
 ('P18', M, "            if isinstance(v, (list, tuple)):\n                return [_asdict_single(vv) for vv in v]\n", ""),
 ('P18', M, "            if isinstance(v, (list, tuple)):\n                return [_asdict_single(vv) for vv in v]\n", "            if isinstance(v, (list, tuple)):\n                return _asdict_single(v[0]) if len(v) == 1 else [_asdict_single(vv) for vv in v]\n"),
 ('P18', M, "            if len(self[None]) == 1:\n                return self.getfirst()\n            return self[None]\n", "            return self.getfirst()\n"),
 ('P18', M, "        if list(self) == [None]:\n            if len", "        if None in self:\n            if len"),
 ('P18', M, "        if list(self) == [None]:\n            if len", "        if len(self) == 1:\n            return next(iter(self.values()))\n        if list(self) == [None]:\n            if len"),
 ('P18', M, "            ('und' if k is None else k, v[0] if len(v) == 1 else v)\n", "            ('und' if k is None else k, v[0] if v else v)\n"),
 ('P18', M, "            ('und' if k is None else k, v[0] if len(v) == 1 else v)\n            for k, v in self.items())", "            ('und' if k is None else k, v[0] if len(v) == 1 else v)\n            for k, v in self.items() if v)"),
 ('P18', M, "                res[attr_] = self.formatted(res[attr_])", "                res[attr_] = str(res[attr_]) if not self.minimum else self.formatted(self.minimum)"),
 ('P18', M, "            if res.get(attr_) is not None:\n                res", "            if res.get(attr_):\n                res"),
 ('P18', M, "            if attr_ in res and res", "") if False else
 ('P18', M, "            if res.get(attr_) is not None:\n                res", "            if attr_ in res:\n                res"),
 ('P18', M, "        if len(res) == 1 and 'base' in res:", "        if 'base' in res and not set(res).intersection(['format', 'length', 'minLength', 'minimum', 'maximum', 'minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive']):"),
 ('P18', M, "        if len(res) == 1 and 'base' in res:", "        if len(res) <= 2 and 'base' in res and 'format' not in res and 'minimum' not in res:"),
 ('P18', M, "        res['reference'] = utils.attr_asdict(res['reference'], **kw)\n", "        res['reference'] = {'resource': res['reference'].resource, 'columnReference': res['reference'].columnReference}\n"),
 ('P18', M, "        res['reference'] = utils.attr_asdict(res['reference'], **kw)\n", "        res['reference'] = utils.attr_asdict(res['reference'], **kw)\n        if len(res['columnReference']) == 1:\n            res['columnReference'] = res['reference']['columnReference']\n"),
 ('P18', M, "        data = self.asdict(omit_defaults=omit_defaults)\n", "        data = self.asdict(omit_defaults=True)\n        data.pop('dc:x', None)\n"),
 ('P18', M, "        data = self.asdict(omit_defaults=omit_defaults)\n", "        data = {k: v for k, v in self.asdict(omit_defaults=omit_defaults).items() if v}\n        data.pop('dc:y', None)\n"),
 ('P18', M, "        return '{}'.format(self)", "        return '{}'.format(self).lower()") if False else
 ('P18', U, "            if not (omit_defaults and value == defs[field.name]):\n", "            if not (omit_defaults and (not value or value == defs[field.name])):\n"),
 ('P18', U, "            if not (omit_defaults and value == defs[field.name]):\n", "            if not (omit_defaults and value in (None, defs[field.name])):\n"),
 ('P18', U, "            if not (omit_defaults and value == defs[field.name]):\n", "            if not (value == defs[field.name]) and value is not False:\n"),
 ('P18', U, "            default = default.factory()\n", "            default = None\n") if False else
 ('P18', D, "        return utils.attr_asdict(self, omit_defaults=omit_defaults)", "        return {k: v for k, v in utils.attr_asdict(self, omit_defaults=omit_defaults).items() if v is not None}"),
 ('P18', D, "        return utils.attr_asdict(self, omit_defaults=omit_defaults)", "        return {k: v for k, v in utils.attr_asdict(self, omit_defaults=omit_defaults).items() if k != 'header' or v}"),
 ('P18', D, "    def asdict(self, omit_defaults=True):\n", "    @functools.lru_cache\n    def _asd(self):\n        return utils.attr_asdict(self)\n\n    def asdict(self, omit_defaults=True):\n        return {k: v for k, v in utils.attr_asdict(self).items() if k not in ('quoteChar',)}\n"),
]
GOOD = [
 ('P18', M, ASD, "            if v not in ([], {}) or k not in defaults or defaults[k] != v)\n"),
 ('P18', M, "        return collections.OrderedDict(\n            (k, v) for k, v in self._iter_dict_items(omit_defaults)\n" + ASD, "        res = collections.OrderedDict()\n        for k, v in self._iter_dict_items(omit_defaults):\n            if v in ([], {}) and k in defaults and defaults[k] == v:\n                continue\n            res[k] = v\n        return res\n"),
 ('P18', M, "        if list(self) == [None]:\n            if len(self[None]) == 1:\n                return self.getfirst()\n            return self[None]\n", "        if None in self and len(self) == 1:\n            titles = self[None]\n            return titles[0] if len(titles) == 1 else titles\n"),
 ('P18', M, "        return collections.OrderedDict(\n            ('und' if k is None else k, v[0] if len(v) == 1 else v)\n            for k, v in self.items())", "        res = {}\n        for lang, titles in self.items():\n            res[lang or 'und'] = titles if len(titles) != 1 else titles[0]\n        return res"),
 ('P18', M, "            if isinstance(v, (list, tuple)):\n                return [_asdict_single(vv) for vv in v]\n            return _asdict_single(v)\n", "            return [_asdict_single(vv) for vv in v] if isinstance(v, (list, tuple)) else _asdict_single(v)\n"),
 ('P18', M, "        res['reference'] = utils.attr_asdict(res['reference'], **kw)\n        return res", "        return dict(res, reference=utils.attr_asdict(self.reference, **kw))"),
 ('P18', U, "    defs = attr_defaults(obj.__class__)\n    res = collections.OrderedDict()\n", "    defs, res = attr_defaults(type(obj)), {}\n"),
 ('P18', U, "            value = getattr(obj, field.name)\n            if not (omit_defaults and value == defs[field.name]):\n                if hasattr(value, 'asdict'):\n                    value = value.asdict(omit_defaults=True)\n                res[field.name] = value\n", "            value = getattr(obj, field.name)\n            if omit_defaults and value == defs[field.name]:\n                continue\n            res[field.name] = value.asdict() if hasattr(value, 'asdict') else value\n"),
 ('P18', M, "        data = self.asdict(omit_defaults=omit_defaults)\n        with json_open(str(fname), 'w') as f:\n            json.dump(data, f, indent=4, separators=(',', ': '))\n", "        with json_open(str(fname), 'w') as f:\n            f.write(json.dumps(self.asdict(omit_defaults=omit_defaults), indent=4, separators=(',', ': ')))\n"),
 ('P18', M, "        if len(res) == 1 and 'base' in res:\n            return res['base']\n        return res", "        return res['base'] if list(res) == ['base'] else res"),
 ('P18', M, "        for k, v in sorted(self.at_props.items()):\n            yield '@' + k, _asdict_multiple(v)\n", "        yield from (('@' + k, _asdict_multiple(v)) for k, v in sorted(self.at_props.items()))\n"),
]
