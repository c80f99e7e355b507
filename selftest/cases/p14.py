M = 'metadata.py'
BAD = [
    ('P14', M, "                    res.setdefault(key, None)", "                    res.setdefault(key, '')"),
    ('P14', M, "                if not error:\n                    if with", "                if True:\n                    if with"),
    ('P14', M, "                for key in colnames:\n", "                for key in colnames[1:]:\n"),
    ('P14', M, "                            res[col.header] = col.read(v, strict=strict)",
     "                            res[k] = col.read(v, strict=strict)"),
    ('P14', M, "                            res[col.header] = col.read(v, strict=strict)",
     "                            res[col.header] = col.read(v, strict=strict) if v else None"),
    ('P14', M, "                if c.titles and c.titles.getfirst() == name:", "                if c.titles and c.name == name:"),
    ('P14', M, "                                fname, lineno, j + 1, k, 'required column value is missing'),\n                            log=log)\n                        error = True",
     "                                fname, lineno, j + 1, k, 'required column value is missing'),\n                            log=log)"),
    ('P14', M, "                                    log=log)\n                                error = True",
     "                                    log=log)\n                                error = True\n                                break"),
    ('P14', M, "            if missing:\n                raise ValueError('{0} is missing", "            if missing and strict:\n                raise ValueError('{0} is missing"),
    ('P14', M, "            if col.required:\n                requiredcols", "            if col.required and not col.titles:\n                requiredcols"),
    ('P14', M, "            for lineno, row in reader:\n                required = {h: j for j, h, c in header_cols if c and c.required}", "            required = {h: j for j, h, c in header_cols if c and c.required}\n            for lineno, row in reader:"),
    ('P14', M, "                    res[key] = valueUrl.expand(**res)", "                    res[key] = valueUrl.expand(**res)\n                    if error: res[key] = None\n                    break"),
    ('P14', M, "                        res[k] = v\n\n", "                            continue\n                        res[k] = v\n\n"),
    ('P14', M, "                                res[col.header] = v\n", "                                res[col.header] = None\n"),
    ('P14', M, "            if (header == colnames) or \\", "            if len(header) == len(colnames) or \\"),
    ('P14', M, "            if (header == colnames) or \\", "            if set(header) == set(colnames) or \\"),
    ('P14', M, "                        yield fname, lineno, res", "                        yield fname, lineno - 1, res"),
    ('P14', M, "                for (j, k, col), v in zip(header_cols, row):", "                for (j, k, col), v in itertools.zip_longest(header_cols, row, fillvalue=''):" ) ,
    ('P14', M, "            if dialect.header:\n                try:", "            if dialect.header or not colnames:\n                try:"),
    ('P14', M, "                        for i, _ in enumerate(row)]", "                        for i, _ in enumerate(row[:-1])]"),
    ('P14', M, "fname, lineno, j + 1, k, e),", "fname, lineno, j, k, e),"),
]
GOOD = [
    ('P14', M, "                error = False\n                if (not", "                errors = []\n                error = False\n                if (not"),
    ('P14', M, "                for key in colnames:\n                    res.setdefault(key, None)",
     "                for key in colnames:\n                    if key not in res:\n                        res[key] = None"),
    ('P14', M, "                        if k in required:\n                            del required[k]",
     "                        required.pop(k, None)"),
    ('P14', M, """                if not error:
                    if with_metadata:
                        yield fname, lineno, res
                    else:
                        yield res""", """                if error:
                    continue
                yield (fname, lineno, res) if with_metadata else res"""),
    ('P14', M, """            header_cols = [(j, h, c) for j, (h, c) in enumerate(header_cols)]
""", """            indexed = []
            for j, (h, c) in enumerate(header_cols):
                indexed.append((j, h, c))
            header_cols = indexed
"""),
    ('P14', M, "            missing = requiredcols - set(c.header for j, h, c in header_cols if c)",
     "            missing = requiredcols.difference(c.header for _, _, c in header_cols if c)"),
    ('P14', M, "            for lineno, row in reader:\n", "            while True:\n                try:\n                    lineno, row = next(reader)\n                except StopIteration:\n                    break\n"),
]
