M = 'metadata.py'
D = 'dsv.py'
ROW = """                    row = [
                        col.write(item.get(
                            col.header, item.get('{}'.format(col))))
                        for col in non_virtual_cols]
"""
BAD = [
    ('P15', M, "row = [col.write(item[i]) for i, col in enumerate(non_virtual_cols)]", "row = [col.write(item[col._number - 1]) for i, col in enumerate(non_virtual_cols)]"),
    ('P15', M, "row = [col.write(item[i]) for i, col in enumerate(non_virtual_cols)]", "row = [col.write(v) for col, v in zip(self.tableSchema.columns, item)]"),
    ('P15', M, ROW, ROW.replace("col.write(item.get(\n                            col.header, item.get('{}'.format(col))))", "col.write(item[col.header])")),
    ('P15', M, ROW, ROW.replace("for col in non_virtual_cols]", "for col in non_virtual_cols if col.header in item]")),
    ('P15', M, ROW, ROW.replace("for col in non_virtual_cols]", "for col in self.tableSchema.columns]")),
    ('P15', M, ROW, ROW.replace("col.header, item.get('{}'.format(col))", "col.name")),
    ('P15', M, "            if dialect.header:\n                writer", "            if dialect.header and items:\n                writer"),
    ('P15', M, "            if dialect.header:\n                writer", "            if (self.dialect or dialect).header or not self.dialect:\n                writer"),
    ('P15', M, "writer.writerow([c.header for c in non_virtual_cols])", "writer.writerow([c.name for c in non_virtual_cols])"),
    ('P15', M, "writer.writerow([c.header for c in non_virtual_cols])", "writer.writerow([c.header for c in self.tableSchema.columns])"),
    ('P15', M, "                rowcount += 1\n                writer.writerow(row)", "                if any(row):\n                    rowcount += 1\n                writer.writerow(row)"),
    ('P15', M, "                rowcount += 1\n                writer.writerow(row)", "                if item:\n                    rowcount += 1\n                    writer.writerow(row)"),
    ('P15', M, "                        if add:\n", "                        if len(add) > 1:\n"),
    ('P15', M, "                        if add:\n", "                        if add and not rowcount:\n"),
    ('P15', M, "            if fname is None:\n                return writer.read()", "            if fname is None:\n                return rowcount"),
    ('P15', M, "        if fname and _zipped:\n            fpath = pathlib.Path(fname)\n", "        if fname and _zipped:\n            fpath = pathlib.Path(fname)\n            rowcount = 1 + rowcount\n"),
    ('P15', M, "            fpath.unlink()\n        return rowcount", "        return rowcount", M, "                zipf.write(str(fpath), arcname=fpath.name)\n", "                fpath.unlink()\n                zipf.write(str(fpath), arcname=fpath.name)\n"),
    ('P15', M, "rows, base=fname.parent, strict=strict, _zipped=_zipped)", "rows, base=fname.parent, _zipped=_zipped)"),
    ('P15', M, "rows, base=fname.parent, strict=strict, _zipped=_zipped)", "rows, strict=strict, _zipped=_zipped)"),
    ('P15', M, "        for tname, rows in items.items():\n            self.tabledict[tname]", "        for table, rows in zip(self.tables, items.values()):\n            table"),
    ('P15', M, "        for tname, rows in items.items():\n            self.tabledict[tname]", "        for tname, rows in items.items():\n            if not rows:\n                continue\n            self.tabledict[tname]"),
    ('P15', M, "return self.dialect or (self._parent and self._parent.dialect) or Dialect()", "return self.dialect or Dialect()"),
    ('P15', M, "                else:\n                    if strict:\n                        add = ", "                else:\n                    if strict:\n                        item.pop('', None)\n                        item.setdefault('_', 1)\n                        add = {k for k in item if k != '_' and k.startswith('~')} or "),
    ('P15', M, "            fname = self.url.resolve(pathlib.Path(base) if base else self.base)\n\n        rowcount", "            fname = self.url.resolve(self.base or pathlib.Path(base))\n\n        rowcount"),
]
GOOD = [
    ('P15', M, "row = [col.write(item[i]) for i, col in enumerate(non_virtual_cols)]", "row = [col.write(v) for col, v in zip(non_virtual_cols, item)]"),
    ('P15', M, ROW, """                    row = []
                    for col in non_virtual_cols:
                        name = col.header
                        row.append(col.write(item[name] if name in item else None))
"""),
    ('P15', M, "                rowcount += 1\n                writer.writerow(row)", "                writer.writerow(row)\n                rowcount = rowcount + 1"),
    ('P15', M, "        rowcount = 0\n        with", "        rowcount = -1\n        with", M, "            for item in items:\n                if isinstance(item, (list, tuple)):", "            for rowcount, item in enumerate(items):\n                if isinstance(item, (list, tuple)):", M, "                rowcount += 1\n                writer.writerow(row)", "                writer.writerow(row)", M, "            fpath.unlink()\n        return rowcount", "            fpath.unlink()\n        return rowcount + 1"),
    ('P15', M, "        non_virtual_cols = [c for c in self.tableSchema.columns if not c.virtual]\n        if fname", "        non_virtual_cols = list(filter(lambda c: not c.virtual, self.tableSchema.columns))\n        if fname"),
    ('P15', M, "                        add = set(item.keys()) - {'{}'.format(col) for col in non_virtual_cols}", "                        allowed = [col.header for col in non_virtual_cols]\n                        add = [k for k in item if k not in allowed]"),
    ('P15', M, "                zipf.write(str(fpath), arcname=fpath.name)\n            fpath.unlink()", "                zipf.write(fpath, fpath.name)\n            fpath.unlink()"),
    ('P15', M, "        for tname, rows in items.items():\n            self.tabledict[tname].write(rows,", "        tables = self.tabledict\n        for tname in items:\n            tables[tname].write(items=items[tname],"),
    ('P15', M, "return self.dialect or (self._parent and self._parent.dialect) or Dialect()", "if self.dialect:\n            return self.dialect\n        if self._parent and self._parent.dialect:\n            return self._parent.dialect\n        return Dialect()"),
]
