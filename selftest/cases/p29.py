M = 'db.py'
BAD = [
 ('P29', M, "lambda s: s if s is None else bool(s)),", "identity),"),
 ('P29', M, "decimal.Decimal(str(s))", "decimal.Decimal(s)"),
 ('P29', M, "lambda s: s if s is None else float(s),", "lambda s: s if s is None else int(s),"),
 ('P29', M, "d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]", "d[k] = [convert[k][1](v_) for v_ in (v or '').split(';')]"),
 ('P29', M, "v = (col.separator or ';').join(", "v = ';'.join("),
 ('P29', M, "                            if v is None:\n                                d[k] = None\n                            elif not v:", "                            if not v:"),
 ('P29', M, "                    None if v_ is None else convert[k][1](v_)\n" if False else "None if v_ is None else convert[k][1](v_)", "v_"),
 ('P29', M, "                                        None if vv is None else col.convert(vv) for vv in v]", "                                        vv for vv in v]"),
 ('P29', M, "d[k] = convert[k][1](v) if v is not None else None", "d[k] = convert[k][1](v) if v else None"),
 ('P29', M, "                                v = col.convert(v) if v is not None else None", "                                v = col.convert(v) if v else None"),
 ('P29', M, "                for col, at in table.many_to_many.items():\n                    for pk, v in self.select_many_to_many(conn, at, col).items():", "                for col, at in table.many_to_many.items():\n                    for pk, v in self.select_many_to_many(conn, at, list(table.many_to_many)[0]).items():"),
 ('P29', M, "refs[pk][self.translate(tname, col)] = v", "refs[pk][col] = v"),
 ('P29', M, "d.update({self.translate(tname, k): [] for k in table.many_to_many})", "pass"),
 ('P29', M, "            self.read = DATATYPES[self.csvw_type].to_python\n        if self.sep", "            self.read = DATATYPES['string'].to_python\n        if self.sep"),
 ('P29', M, "            if self.db_type == 'BLOB':  # Lists", "            if self.db_type == 'BLOBX':  # Lists"),
 ('P29', M, "            res[pk].append((k, v) if context is None else k)", "            res[k].append((pk, v) if context is None else pk)"),
]
GOOD = [
 ('P29', M, "lambda s: s if s is None else bool(s)),", "lambda s: None if s is None else s == 1 or bool(s)),"),
 ('P29', M, "decimal.Decimal(str(s))", "decimal.Decimal(repr(s))"),
 ('P29', M, "                            if v is None:\n                                d[k] = None\n                            elif not v:\n                                d[k] = []", "                            if not v:\n                                d[k] = None if v is None else []"),
]
