D = 'dsv.py'
L = 'dsv_dialects.py'
COND = """            while (row and self.dialect.commentPrefix and  # noqa: W504
                   row[0].startswith(self.dialect.commentPrefix)) or \\
                    ((not row or set(row) == {''}) and self.dialect.skipBlankRows) or \\
                    (self.lineno < self.dialect.skipRows):
"""
REST = """                if (row and self.dialect.commentPrefix and  # noqa: W504
                        row[0].startswith(self.dialect.commentPrefix)) or \\
                        (row and self.lineno < self.dialect.skipRows):
                    self.comments.append((
                        self.lineno,
                        self.dialect.delimiter.join(row).lstrip(self.dialect.commentPrefix).strip(),
                    ))
                row = self._next_row()
"""
TRIM = "            row = [self.dialect.trimmer(s) for s in row][self.dialect.skipColumns:]\n"
BAD = [
    ('P02', D, "(self.lineno < self.dialect.skipRows):\n                if", "(self.lineno <= self.dialect.skipRows):\n                if"),
    ('P02', D, "((not row or set(row) == {''}) and self", "((row and set(row) == {''}) and self"),
    ('P02', D, "((not row or set(row) == {''}) and self", "((not row) and self"),
    ('P02', D, "((not row or set(row) == {''}) and self", "(not any(s.strip() for s in row) and self"),
    ('P02', D, COND + REST, COND.replace('while', 'if') + REST),
    ('P02', D, TRIM, "            row = [self.dialect.trimmer(s) for s in row[self.dialect.skipColumns:] or row]\n"),
    ('P02', D, TRIM, "            row = [self.dialect.trimmer(s) for s in row]\n            if len(row) > self.dialect.skipColumns:\n                row = row[self.dialect.skipColumns:]\n"),
    ('P02', D, COND, COND.replace('row[0].startswith', 'row[0].strip().startswith').replace('row[0]', 'row[-1]', 1) if 0 else COND.replace('row[0]', 'row[-1]')),
    ('P02', D, COND, COND.replace('row[0].startswith(self.dialect.commentPrefix)', 'any(c.startswith(self.dialect.commentPrefix) for c in row)')),
    ('P02', D, "        row = self._next_row()\n        if self.dialect:", "        row = self._next_row()\n        if self.dialect and self.dialect.trim != 'false':"),
    ('P02', D, "            s if isinstance(s, str) else s.decode(self._reader_encoding)\n            for s in next(self.reader)]\n        self.lineno += sum([list(s).count('\\n') for s in row])", "            s if isinstance(s, str) else s.decode(self._reader_encoding)\n            for s in next(self.reader)]\n        self.lineno += sum(['\\n' in s for s in row])"),
    ('P02', D, "        self.lineno += sum([list(s).count('\\n') for s in row])\n", ""),
    ('P02', D, "        return self.lineno + 1, row", "        return self.lineno, row"),
    ('P02', D, REST, "                if row and self.dialect.commentPrefix and row[0].startswith(\n                        self.dialect.commentPrefix):\n                    self.comments.append((self.lineno, ''))\n                else:\n                    self.lineno -= 1\n                row = self._next_row()\n"),
    ('P02', D, REST, "                row = self._next_row()\n"),
    ('P02', L, "            'start': lambda s: s.lstrip(),\n            'end': lambda s: s.rstrip()", "            'start': lambda s: s.rstrip(),\n            'end': lambda s: s.lstrip()"),
    ('P02', L, "            'true': lambda s: s.strip(),", "            'true': lambda s: ' '.join(s.split()),"),
    ('P02', D, COND, COND.replace("((not row or", "(self.dialect.commentPrefix and (not row or")),
    ('P02', D, "        row = self._next_row()\n        if self.dialect:", "        row = self._next_row()\n        if not row:\n            row = self._next_row()\n        if self.dialect:"),
    ('P02', L, "'{0}'.format(v).lower() if isinstance(v, bool) else v,\n            cond", "'{0}'.format(v or 'start').lower() if isinstance(v, bool) else v,\n            cond"),
]
GOOD = [
    ('P02', D, COND + REST, """            while True:
                prefix = self.dialect.commentPrefix
                comment = bool(row and prefix and row[0].startswith(prefix))
                preamble = self.lineno < self.dialect.skipRows
                blank = not any(row) and self.dialect.skipBlankRows
                if not (comment or preamble or blank):
                    break
                if comment or (row and preamble):
                    self.comments.append((
                        self.lineno, self.dialect.delimiter.join(row).lstrip(prefix).strip()))
                row = self._next_row()
"""),
    ('P02', D, TRIM, "            trim = self.dialect.trimmer\n            row = [trim(s) for i, s in enumerate(row) if i >= self.dialect.skipColumns]\n"),
    ('P02', D, TRIM, "            del row[:self.dialect.skipColumns]\n            row = list(map(self.dialect.trimmer, row))\n"),
    ('P02', D, "sum([list(s).count('\\n') for s in row])", "sum(s.count('\\n') for s in row)"),
    ('P02', L, "            'true': lambda s: s.strip(),\n", "            'true': str.strip,\n"),
    ('P02', D, "        self.lineno += 1\n        row = [\n            s if isinstance(s, str) else s.decode(self._reader_encoding)\n            for s in next(self.reader)]\n", "        row = []\n        for s in next(self.reader):\n            row.append(s if isinstance(s, str) else s.decode(self._reader_encoding))\n        self.lineno += 1\n"),
    ('P02', D, "        row = super(UnicodeReaderWithLineNumber, self).__next__()\n        return self.lineno + 1, row", "        row = super().__next__()\n        lineno = self.lineno + 1\n        return (lineno, row)"),
    ('P02', L, """        return {
            'true': lambda s: s.strip(),
            'false': lambda s: s,
            'start': lambda s: s.lstrip(),
            'end': lambda s: s.rstrip()
        }[self.trim]""", """        if self.trim == 'true':
            return lambda s: s.strip()
        if self.trim == 'start':
            return str.lstrip
        return (lambda s: s.rstrip()) if self.trim == 'end' else (lambda s: s)"""),
]
