M = 'db.py'
L = '''            if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                # All referenced tables are already created (or self-referential).
                ordered[table] = tables.pop(table)
                break
        else:  # pragma: no cover
            raise ValueError('there seem to be cyclic dependencies between the tables')
'''
BAD = [
 ('P26', M, "if all((ref[1] in ordered) or ref[1] == table for", "if all((ref[1] in ordered) for"),
 ('P26', M, "if all((ref[1] in ordered) or ref[1] == table for", "if any((ref[1] in ordered) or ref[1] == table for"),
 ('P26', M, "                ordered[table] = tables.pop(table)\n                break\n        else:  # pragma: no cover\n            raise ValueError('there seem to be cyclic dependencies between the tables')\n", "                ordered[table] = tables.pop(table)\n                break\n        else:\n            ordered.update(tables)\n            tables = {}\n"),
 ('P26', M, "        else:  # pragma: no cover\n            raise ValueError('there seem to be cyclic dependencies between the tables')\n", ""),
 ('P26', M, "        else:  # pragma: no cover\n            raise ValueError('there", "        else:  # pragma: no cover\n            raise KeyError('there"),
 ('P26', M, "        tables[t.name] = t\n        for at in", "        for at in"),
 ('P26', M, "    while tables:\n        for table in", "    for _ in range(100):\n        for table in"),
 ('P26', M, "if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):", "if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys[:1]):"),
 ('P26', M, "            tables[at.name] = at\n", "            tables.setdefault(t.name + '_', at)\n"),
]
GOOD = [
 ('P26', M, "    while tables:\n        for table in list(tables.keys()):\n" + L, '''    while tables:
        ready = [
            name for name, spec in tables.items()
            if all(ref == name or ref in ordered for _, ref, _ in spec.foreign_keys)]
        if not ready:
            raise ValueError('there seem to be cyclic dependencies between the tables')
        for name in ready:
            ordered[name] = tables.pop(name)
'''),
 ('P26', M, "    while tables:\n        for table in list(tables.keys()):\n" + L, '''    def visit(name, path):
        if name in ordered:
            return
        if name in path or name not in tables:
            raise ValueError('cyclic')
        for _, ref, _ in tables[name].foreign_keys:
            if ref != name:
                visit(ref, path + (name,))
        ordered[name] = tables[name]

    for name in tables:
        visit(name, ())
'''),
]
