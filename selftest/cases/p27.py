M = 'db.py'
BAD = [
 ('P27', M, "rows = [tuple(row.get(k) for k in keys) for row in rows]", "rows = [tuple(row.values()) for row in rows]"),
 ('P27', M, "                            if k not in keys:\n                                keys.append(k)", "                            if len(rows) == 0:\n                                keys.append(k)"),
 ('P27', M, "refs[atkey].append((pk, fkey, context))", "refs[atkey].append((fkey, pk, context))"),
 ('P27', M, "                                refs[atkey].append((pk, fkey, context))", "                                refs[atkey] = [(pk, fkey, context)]"),
 ('P27', M, "                                if _skip_extra:\n                                    continue", "                                if _skip_extra:\n                                    break"),
 ('P27', M, "            _exists_ok=_exists_ok,\n            _skip_extra=_skip_extra,", "            _exists_ok=_exists_ok,"),
 ('P27', M, "                insert(db, self.translate, t.name, keys, *rows)\n", "                insert(db, self.translate, t.name, sorted(keys), *rows)\n"),
 ('P27', M, "            for vv in (v or []):" if False else "for vv in (v or []):", "for vv in (v or [])[:1]:"),
 ('P27', M, "        return fkey, column\n", "        return fkey, table.name\n"),
 ('P27', M, "                pk = row[t.primary_key[0]] \\\n" if False else "                    values = {}\n", "                    values = values if rows and not row else {}\n" if False else "                    values = dict(rows[-1]) if rows else {}\n"),
 ('P27', M, "                insert(db, self.translate, atkey[0], atkey[1:], *[", "                insert(db, self.translate, atkey[0], atkey[:0:-1], *["),
 ('P27', M, "                    if k not in cols:\n" if False else "                                        'unspecified column {0} found in data'.format(k))", "                                        'unspecified column {0} found in data'.format(k)) if v else 0\n                                continue" if False else "                                        'unspecified column {0} found in data'.format(k)) from KeyError(k)") if False else
 ('P27', M, "                                    raise ValueError(\n                                        'unspecified", "                                    raise KeyError(\n                                        'unspecified"),
]
GOOD = [
 ('P27', M, "                rows = [tuple(row.get(k) for k in keys) for row in rows]\n                insert(db, self.translate, t.name, keys, *rows)", "                for row in rows:\n                    insert(db, self.translate, t.name, list(row), list(row.values()))"),
 ('P27', M, "                            if k not in keys:\n                                keys.append(k)\n", "").__class__ and
 ('P27', M, "                rows = [tuple(row.get(k) for k in keys) for row in rows]\n", "                keys = sorted(keys, key=list(cols).index)\n                rows = [[row.get(k) for k in keys] for row in rows]\n"),
 ('P27', M, "            db.executemany(sql, rows)", "            for r in rows:\n                db.execute(sql, r)"),
]
