M = 'metadata.py'
BAD = [
 ('P06', M, "        if not v:\n            v = default\n", "        if v is None:\n            v = default\n"),
 ('P06', M, "if required and v in null:", "if required and not v:"),
 ('P06', M, "if required and v in null:", "if required and not separator and v in null:"),
 ('P06', M, "                v = (vv or default for vv in v.split(separator))\n", "                v = v.split(separator)\n"),
 ('P06', M, "v.split(separator))\n", "v.split(separator, 1))\n"),
 ('P06', M, "[None if vv in null else vv for vv in v]", "[vv for vv in v if vv not in null]"),
 ('P06', M, "[None if vv in null else vv for vv in v]", "[None if not vv else vv for vv in v]"),
 ('P06', M, "            elif v in null:\n                v = None\n            else:", "            elif v in null:\n                v = []\n            else:"),
 ('P06', M, "                    if not strict:\n                        warnings.warn('Invalid value for list element.')\n                        return v\n                    raise\n", "                    warnings.warn('Invalid value for list element.')\n                    return v\n"),
 ('P06', M, "        elif v in null:\n            v = None\n\n", "        elif v == '':\n            v = None\n\n"),
 ('P06', M, "return [datatype.read(vv) for vv in v]", "return [datatype.parse(vv) for vv in v]"),
 ('P06', M, "                warnings.warn('required column value is missing')\n            raise ValueError('required column value is missing')", "                warnings.warn('required column value is missing')\n                return v\n            raise ValueError('required column value is missing')"),
 ('P06', M, "(vv or default for vv in v.split(separator))", "(vv.strip() or default for vv in v.split(separator))"),
]
GOOD = [
 ('P06', M, "                v = (vv or default for vv in v.split(separator))\n                v = [None if vv in null else vv for vv in v]\n",
"""                parts = []
                for part in v.split(separator):
                    if not part:
                        part = default
                    parts.append(part if part not in null else None)
                v = parts
"""),
 ('P06', M, "        if required and v in null:\n", "        is_null = v in null\n        if is_null and required:\n"),
 ('P06', M, "        if datatype:\n            if isinstance(v, list):\n                try:\n                    return [datatype.read(vv) for vv in v]\n                except ValueError:\n                    if not strict:\n                        warnings.warn('Invalid value for list element.')\n                        return v\n                    raise\n            return datatype.read(v)\n        return v\n",
 """        if not datatype:
            return v
        if not isinstance(v, list):
            return datatype.read(v)
        try:
            return list(map(datatype.read, v))
        except ValueError:
            if strict:
                raise
            warnings.warn('Invalid value for list element.')
        return v
"""),
 ('P06', M, "        if separator:\n            if not v:\n                v = []\n            elif v in null:\n                v = None\n            else:\n                v = (vv or default for vv in v.split(separator))\n                v = [None if vv in null else vv for vv in v]\n        elif v in null:\n            v = None\n",
 """        def nullify(s):
            return None if s in null else s
        if separator and v == '':
            v = []
        elif v in null:
            v = None
        elif separator:
            v = [nullify(s or default) for s in v.split(separator)]
"""),
 ('P06', M, "        if required and v in null:\n            if not strict:\n                warnings.warn('required column value is missing')\n            raise ValueError('required column value is missing')",
  "        self._check_required(v, required, null, strict)",
  M, "    def write(self, v):\n        sep =", "    @staticmethod\n    def _check_required(v, required, null, strict):\n        if not required:\n            return\n        for n in null:\n            if n == v:\n                if not strict:\n                    warnings.warn('required column value is missing')\n                raise ValueError('required column value is missing')\n\n    def write(self, v):\n        sep ="),
]
