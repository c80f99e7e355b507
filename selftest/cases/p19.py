M, D, U = 'metadata.py', 'dsv_dialects.py', 'utils.py'
BAD = [
    ('P19', U, "(type_ == int and isinstance(s, bool)) or ", ""),
    ('P19', U, " or (cond and not cond(s)):", ":"),
    ('P19', U, "        warnings.warn('Invalid value for property: {}'.format(s))\n        return default", "        return default"),
    ('P19', U, "        warnings.warn('Invalid value for property: {}'.format(s))\n        return default", "        warnings.warn('Invalid value for property: {}'.format(s))\n        return s"),
    ('P19', U, "for ss in s] if v is not None]", "for ss in s]]"),
    ('P19', U, "allow_list=False):", "allow_list=True):"),
    ('P19', D, "        converter=functools.partial(utils.converter, int, 0, cond=lambda s: s >= 0),\n        validator=non_negative_int)\n\n    commentPrefix", "        converter=functools.partial(utils.converter, int, 0, cond=lambda s: s > 0),\n        validator=non_negative_int)\n\n    commentPrefix"),
    ('P19', D, "        converter=functools.partial(utils.converter, int, 0, cond=lambda s: s >= 0),\n        validator=non_negative_int)\n\n    commentPrefix", "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s >= 0),\n        validator=non_negative_int)\n\n    commentPrefix"),
    ('P19', D, "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s >= 0),", "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s >= -1),"),
    ('P19', D, "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s >= 0),", "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s in (0, 1)),"),
    ('P19', D, "        converter=functools.partial(utils.converter, str, ','),", "        converter=functools.partial(utils.converter, str, ',', cond=lambda s: s in ',;\\t|'),"),
    ('P19', D, "    s = utils.converter(str, 'utf-8', s)\n", "    s = str(s)\n"),
    ('P19', D, "    except (LookupError, ValueError):\n        warnings.warn('Invalid value for property: {}'.format(s))\n", "    except (LookupError, ValueError):\n"),
    ('P19', D, "ENCODING_MAP.get(s, s)", "s"),
    ('P19', D, "cond=lambda s: s in ['true', 'false', 'start', 'end']))", "cond=lambda s: s))"),
    ('P19', D, "cond=lambda s: s in ['true', 'false', 'start', 'end']))", "cond=lambda s: s in ['true', 'false', 'start']))"),
    ('P19', D, "            '{0}'.format(v).lower() if isinstance(v, bool) else v,", "            '{0}'.format(v).lower(),"),
    ('P19', D, "        converter=functools.partial(utils.converter, bool, True),\n        validator=attr.validators.instance_of(bool))\n\n    headerRowCount", "        converter=functools.partial(utils.converter, (bool, int), True),\n        validator=attr.validators.instance_of((bool, int)))\n\n    headerRowCount"),
    ('P19', D, "        converter=functools.partial(utils.converter, bool, True),\n        validator=attr.validators.instance_of(bool))\n\n    headerRowCount", "        converter=bool,\n        validator=attr.validators.instance_of(bool))\n\n    headerRowCount"),
    ('P19', M, "            utils.converter, str, 'auto', cond=lambda s: s in ['rtl', 'ltr', 'auto']),", "            utils.converter, str, 'auto', cond=lambda s: s.lower() in ['rtl', 'ltr', 'auto']),"),
    ('P19', M, 'cond=lambda v: v in [None, "ltr", "rtl", "auto", "inherit"])', 'cond=lambda v: v in [None, "ltr", "rtl", "auto"])'),
    ('P19', M, 'cond=lambda v: v in [None, "ltr", "rtl", "auto", "inherit"])', 'cond=lambda v: v in "ltr rtl auto inherit")'),
    ('P19', M, "        warnings.warn('Invalid null property')\n        return [\"\"]", "        warnings.warn('Invalid null property')\n        return []"),
    ('P19', M, "    if not all(isinstance(vv, str) for vv in res):\n        warnings.warn('Invalid null", "    if not any(isinstance(vv, str) for vv in res):\n        warnings.warn('Invalid null"),
    ('P19', M, "        warnings.warn('Invalid language tag')\n        return 'und'", "        warnings.warn('Invalid language tag')\n        return v"),
    ('P19', M, "        warnings.warn('Invalid titles property')\n        return None", "        warnings.warn('Invalid titles property')\n        return NaturalLanguage('')"),
    ('P19', M, "                if strict and (k not in fields):", "                if k not in fields:"),
    ('P19', M, "                if strict and (k not in fields):", "                if strict and (k.lower() not in fields):"),
    ('P19', M, "                    warnings.warn('Invalid property {} for {}'.format(k, type_name))\n", "                    pass\n"),
    ('P19', M, "    return Dialect(**props) if isinstance(v, dict) else None", "    return Dialect(**props)"),
    ('P19', M, "        warnings.warn('Invalid dialect spec')\n", ""),
    ('P19', M, "    if utils.converter(int, 0, partitioned.get('headerRowCount', 0)) > 0:", "    if partitioned.get('headerRowCount', 0):"),
    ('P19', M, "        {k: v for k, v in d.items() if k not in unknown}, type_name='Dialect', strict=False)", "        d, type_name='Dialect')"),
    ('P19', M, "    for k in unknown:\n        warnings.warn('Invalid property {} for Dialect'.format(k))\n", ""),
    ('P19', M, "            if v is not None:\n                warnings.warn('Invalid value for tableSchema", "            if isinstance(v, int):\n                warnings.warn('Invalid value for tableSchema"),
    ('P19', M, "    for vv in utils.converter((list, tuple), [], v):", "    for vv in v or []:"),
    ('P19', M, "            warnings.warn('Invalid value for Table spec')", "            pass"),
    ('P19', M, "            warnings.warn('Invalid foreignKeys spec')", "            pass") if False else
    ('P19', M, "    for d in utils.converter(dict, None, utils.converter(list, [], v), allow_list=True):", "    for d in [x for x in utils.converter(list, [], v) if isinstance(x, dict)]:"),
    ('P19', M, "        cond=lambda names: all(isinstance(name, str) for name in names))", "        cond=lambda names: names and isinstance(names[0], str))"),
    ('P19', M, "str, 'string', allow_none=True, cond=lambda ss: ss is None or ss in DATATYPES),", "str, 'string', allow_none=True, cond=lambda ss: ss is None or ss.lower() in DATATYPES),"),
    ('P19', M, "    virtual = attr.ib(default=False, converter=functools.partial(utils.converter, bool, False))", "    virtual = attr.ib(default=False, converter=functools.partial(utils.converter, bool, True))"),
    ('P19', M, "    virtual = attr.ib(default=False, converter=functools.partial(utils.converter, bool, False))", "    virtual = attr.ib(default=False, converter=lambda v: utils.converter(int, False, v) if not isinstance(v, bool) else v)"),
]
GOOD = [
    ('P19', U, "    if not isinstance(s, type_) or (type_ == int and isinstance(s, bool)) or (cond and not cond(s)):\n        warnings.warn('Invalid value for property: {}'.format(s))\n        return default\n    return s",
     "    valid = isinstance(s, type_) and not (type_ is int and isinstance(s, bool))\n    if valid and cond is not None:\n        valid = cond(s)\n    if valid:\n        return s\n    warnings.warn('Invalid value for property: {!r}'.format(s))\n    return default"),
    ('P19', U, "        return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]", "        res = []\n        for ss in s:\n            v = converter(type_, None, ss, cond=cond)\n            if v is not None:\n                res.append(v)\n        return res"),
    ('P19', D, "cond=lambda s: s in ['true', 'false', 'start', 'end']))", "cond={'true', 'false', 'start', 'end'}.__contains__))"),
    ('P19', M, "    if not all(isinstance(vv, str) for vv in res):\n        warnings.warn('Invalid null", "    if [vv for vv in res if not isinstance(vv, str)]:\n        warnings.warn('Invalid null"),
    ('P19', M, "                if strict and (k not in fields):\n                    warnings.warn('Invalid property {} for {}'.format(k, type_name))\n                else:\n                    dd[k] = v",
     "                if not strict or k in fields:\n                    dd[k] = v\n                else:\n                    warnings.warn('Invalid property {} for {}'.format(k, type_name))"),
    ('P19', M, "        {k: v for k, v in d.items() if k not in unknown}, type_name='Dialect', strict=False)", "        dict((k, d[k]) for k in d if not (k in unknown)), type_name='Dialect', strict=False)"),
    ('P19', M, "    for vv in utils.converter((list, tuple), [], v):", "    if not isinstance(v, (list, tuple)):\n        warnings.warn('Invalid value for tables')\n        return []\n    for vv in v:"),
    ('P19', M, "    return Dialect(**props) if isinstance(v, dict) else None", "    if not isinstance(v, dict):\n        return None\n    return Dialect(**props)"),
]
