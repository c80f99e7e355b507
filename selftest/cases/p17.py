M = 'metadata.py'
BAD = [
    ('P17', M, "                        if colref is None:\n                            continue", "                        if not colref:\n                            break"),
    ('P17', M, "                        if colref is None:\n                            continue", "                        if colref is None:\n                            break"),
    ('P17', M, "if not single_column and None in colref:", "if not single_column and colref[0] is None:"),
    ('P17', M, "                                    log=log)\n                                success = False\n        return success", "                                    log=log)\n                                return False\n        return success"),
    ('P17', M, "                            elif colref not in seen:", "                            elif seen and colref not in seen:"),
    ('P17', M, "                            elif colref not in seen:", "                            elif colref not in seen and item.get('id') is not None:"),
    ('P17', M, "fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))", "fkeys = {(x[0].local_name, tuple(x[1]), x[2].local_name): x for x in fkeys}.values()"),
    ('P17', M, "                        if strict:\n                            success = False", "                        success = False"),
    ('P17', M, "                    seen.add(get(row))\n            for", "                        seen.add(get(row))\n            for"),
    ('P17', M, "                    seen.add(get(row))\n            for", "                    if get(row):\n                        seen.add(get(row))\n                get_seen = get_seen[:1] or get_seen\n            for"),
    ('P17', M, "single_column = (len(key) == 1)", "single_column = (len(key) <= 1 and len(children) == 1)"),
    ('P17', M, "                            colrefs = colref\n", "                            colrefs = colref[:1]\n"),
    ('P17', M, "if any(row.get(col) is None for col in fk.columnReference):", "if all(row.get(col) is None for col in fk.columnReference):"),
    ('P17', M, "if len(sc) != len(tc):", "if len(sc) < len(tc):"),
    ('P17', M, "if not (scolumn and tcolumn):", "if not (scolumn or tcolumn):"),
    ('P17', M, "scolumn.datatype.base != tcolumn.datatype.base:", "scolumn.datatype is tcolumn.datatype:"),
    ('P17', M, "for scol, tcol in zip(sc, tc):", "for scol, tcol in zip(sc[:1], tc[:1]):"),
    ('P17', M, "            for row in table.iterdicts(log=log):\n                for get", "            for row in table.iterdicts(log=nolog()):\n                if row is None: break\n                for get", M, "for fname, lineno, item in child.iterdicts(log=log, with_metadata=True):", "for fname, lineno, item in child.iterdicts(log=None, with_metadata=True):"),
    ('P17', M, "            for (key, children), (_, seen) in zip(t_fkeys, get_seen):", "            for (key, children), (_, seen) in zip(t_fkeys, reversed(get_seen)):"),
]
GOOD = [
    ('P17', M, "fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))", "fkeys = sorted(fkeys, key=lambda x: (x[2].local_name, x[1]))"),
    ('P17', M, "fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))", "fkeys = list(fkeys)"),
    ('P17', M, "fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))", "fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[2].local_name))"),
    ('P17', M, "            get_seen = [(operator.itemgetter(*key), set()) for key, _ in t_fkeys]", "            get_seen = []\n            for key, _ in t_fkeys:\n                get_seen.append((operator.itemgetter(*key), set()))"),
    ('P17', M, "                        if colref is None:\n                            continue\n                        elif", "                        if colref is None:\n                            continue\n                        if"),
    ('P17', M, "            for (key, children), (_, seen) in zip(t_fkeys, get_seen):\n                single", "            for i, (key, children) in enumerate(t_fkeys):\n                seen = get_seen[i][1]\n                single"),
    ('P17', M, "        for _, grp in itertools.groupby(fkeys, lambda x: x[0].local_name):\n            grp = list(grp)\n", "        grouped = collections.OrderedDict()\n        for fkey in fkeys:\n            grouped.setdefault(fkey[0].local_name, []).append(fkey)\n        for grp in grouped.values():\n"),
    ('P17', M, "                    get_ref = operator.itemgetter(*ref)\n", "                    def get_ref(r, ref=ref):\n                        return r[ref[0]] if len(ref) == 1 else tuple(r[c] for c in ref)\n\n"),
]
