M = 'metadata.py'
BAD = [
    ('P16', M, "            for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):\n                pk", "            for fname, lineno, row in self.iterdicts(log=log, with_metadata=True):\n                pk"),
    ('P16', M, "                    success = False\n                else:\n                    seen.add(hashable(pk))", "                    success = False\n                    seen = set()\n                else:\n                    seen.add(hashable(pk))"),
    ('P16', M, "                if hashable(pk) in seen:", "                if pk is not None and hashable(pk) in seen:"),
    ('P16', M, "                if hashable(pk) in seen:", "                if pk and (not isinstance(pk, tuple) or None not in pk) and hashable(pk) in seen:"),
    ('P16', M, "                        '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),", "                        '{0}:{1} duplicate primary key: {2}'.format(fname, lineno + 1, pk),"),
    ('P16', M, "                        log=log)\n                    success = False\n                else:\n                    seen.add(hashable(pk))", "                        log=log)\n                    return False\n                else:\n                    seen.add(hashable(pk))"),
    ('P16', M, "operator.itemgetter(*self.tableSchema.primaryKey)", "operator.itemgetter(*self.tableSchema.primaryKey[:1])"),
    ('P16', M, "                else:\n                    seen.add(hashable(pk))\n        return success", "                else:\n                    seen = {hashable(pk)}\n        return success"),
    ('P16', M, "return tuple(hashable(vv) for vv in v) if", "return frozenset(hashable(vv) for vv in v) if"),
    ('P16', M, "                else:\n                    seen.add(hashable(pk))\n        return success", "                else:\n                    seen.add(hashable(pk))\n                    success = True\n        return success"),
]
GOOD = [
    ('P16', M, "                else:\n                    seen.add(hashable(pk))\n        return success", "                seen.add(hashable(pk))\n        return success"),
    ('P16', M, "            get_pk = operator.itemgetter(*self.tableSchema.primaryKey)\n", "            def get_pk(row):\n                return tuple(row[c] for c in self.tableSchema.primaryKey)\n"),
    ('P16', M, "            seen = set()\n            # Read", "            seen = collections.Counter()\n            # Read", M, "                    seen.add(hashable(pk))\n        return success", "                    seen[hashable(pk)] = 1\n        return success"),
]
