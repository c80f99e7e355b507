M = 'metadata.py'
BAD = [
 ('P07', M, "return null[0] if null else ''", "return ''"),
 ('P07', M, "            if v is None:\n                return null[0]", "            if not v:\n                return null[0]"),
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])", "            return sep.join(fmt(vv) for vv in v or [] if vv is not None)"),
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])", "            return sep.join(fmt(vv) for vv in v or [None])"),
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])", "            return sep.join(sorted(fmt(vv) for vv in v or []))"),
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])", "            return sep.join(str(vv) for vv in v or [])"),
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])", "            return (sep + ' ').join(fmt(vv) for vv in v or [])"),
]
GOOD = [
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])\n        return fmt(v)", "            if not v:\n                return ''\n            return sep.join(map(fmt, v))\n        return fmt(v)"),
 ('P07', M, "            return sep.join(fmt(vv) for vv in v or [])\n        return fmt(v)", "            res = []\n            for vv in (v or ()):\n                res.append(fmt(vv))\n            v = sep.join(res)\n        else:\n            v = fmt(v)\n        return v"),
 ('P07', M, "            if datatype:\n                return datatype.formatted(v)\n            return v\n\n        if sep", "            return datatype.formatted(v) if datatype else v\n\n        if sep"),
]
