D = 'dsv.py'
L = 'dsv_dialects.py'
BAD = [
    ('P01', L, "            'doublequote': self.doubleQuote,", "            'doublequote': True,"),
    ('P01', L, "self.escape_character if not self.doubleQuote else None", "self.escape_character"),
    ('P01', L, "self.line_terminators[0]", "self.line_terminators[-1]"),
    ('P01', L, "            'skipinitialspace': self.skipInitialSpace,", "            'skipinitialspace': self.skipInitialSpace or self.trim == 'start',"),
    ('P01', L, "            'quotechar': self.quoteChar,", "            'quotechar': self.quoteChar or '\"',"),
    ('P01', L, "return ENCODING_MAP.get(self.encoding, self.encoding)", "return self.encoding"),
    ('P01', L, "return ENCODING_MAP.get(self.encoding, self.encoding)", "return ENCODING_MAP.get(self.encoding, 'utf-8')"),
    ('P01', D, "            self.encoding = dialect.python_encoding\n            self.kw = dialect.as_python_formatting_parameters()\n            self.kw.update(kw)\n        else:\n            self.kw = kw\n            if dialect:\n                self.kw['dialect'] = dialect\n        self.encoding = normalize", "            self.kw = dialect.as_python_formatting_parameters()\n            self.kw.update(kw)\n        else:\n            self.kw = kw\n            if dialect:\n                self.kw['dialect'] = dialect\n        self.encoding = normalize"),
    ('P01', D, "            self.encoding = normalize_encoding(self.dialect.python_encoding)\n", ""),
    ('P01', D, "io.open(self.f, 'wt', encoding=self.encoding, newline='')", "io.open(self.f, 'wt', encoding=self.encoding)"),
    ('P01', D, "io.open(self.f, 'wt', encoding=self.encoding, newline='')", "io.open(self.f, 'at', encoding=self.encoding, newline='')"),
    ('P01', D, "newline=self.newline or ''", "newline=self.newline"),
    ('P01', D, "io.StringIO(newline='')", "io.StringIO(newline=None)"),
    ('P01', D, "        if self.encoding == 'utf-8':\n            self.encoding = 'utf-8-sig'\n", ""),
    ('P01', D, "        self.writer.writerow(self._escapedoubled(row))", "        self.writer.writerow(['' if c is None else c for c in row if c is not None])"),
    ('P01', D, "        self.writer.writerow(self._escapedoubled(row))", "        self.writer.writerow([str(c).strip() for c in row])"),
    ('P01', D, "                row = row.values()\n            self.writerow(row)", "                row = row.values()\n            if i:\n                self.writerow(row)"),
    ('P01', D, "        if sys.version_info < (3, 10) and \\\n                self", "        if \\\n                self"),
    ('P01', D, "lines.append(line.decode(self.encoding) if isinstance(line, bytes) else line)", "lines.append(str(line) if isinstance(line, bytes) else line)"),
    ('P01', D, "lines.append(line.decode(self.encoding) if isinstance(line, bytes) else line)", "lines.append(line.decode(self.encoding) if isinstance(line, bytes) else line.strip())"),
    ('P01', D, "        self.reader = csv.reader(self.f, **self.kw)", "        self.reader = csv.reader(self.f, **{k: v for k, v in self.kw.items() if v})"),
    ('P01', D, "        self.writer = csv.writer(self.f, **self.kw)", "        self.kw.pop('escapechar', None)\n        self.writer = csv.writer(self.f, **self.kw)"),
    ('P01', D, "            self.kw = dialect.as_python_formatting_parameters()\n            self.kw.update(kw)\n        else:\n            self.kw = kw\n            if dialect:\n                self.kw['dialect'] = dialect\n        self._close", "            self.kw = kw\n            self.kw.update(dialect.as_python_formatting_parameters())\n        else:\n            self.kw = kw\n            if dialect:\n                self.kw['dialect'] = dialect\n        self._close"),
]
GOOD = [
    ('P01', L, "        return {\n            'delimiter': self.delimiter,", "        res = {\n            'delimiter': self.delimiter,", L, "            'strict': True,\n        }", "            'strict': True,\n        }\n        return dict(sorted(res.items()))"),
    ('P01', D, "            self.kw = dialect.as_python_formatting_parameters()\n            self.kw.update(kw)\n        else:\n            self.kw = kw\n            if dialect:\n                self.kw['dialect'] = dialect\n        self.encoding = normalize", "            self.kw = {**dialect.as_python_formatting_parameters(), **kw}\n        else:\n            self.kw = dict(kw)\n            if dialect:\n                self.kw['dialect'] = dialect\n        self.encoding = normalize"),
    ('P01', D, "io.open(self.f, 'wt', encoding=self.encoding, newline='')", "open(self.f, mode='w', newline='', encoding=self.encoding)"),
    ('P01', D, "        self.writer.writerow(self._escapedoubled(row))", "        self.writer.writerow(list(self._escapedoubled(row)))"),
    ('P01', D, "            lines = []\n            for line in self.f:\n                lines.append(line.decode(self.encoding) if isinstance(line, bytes) else line)\n            self.f = lines", "            self.f = [\n                li.decode(self.encoding) if isinstance(li, bytes) else li for li in self.f]"),
    ('P01', D, "            if isinstance(self.f, pathlib.Path):\n                self.f = str(self.f)\n\n            self.f = io.open(self.f, 'wt',", "            self.f = pathlib.Path(self.f).open('wt',"),
    ('P01', D, "    return codecs.lookup(encoding).name", "    info = codecs.lookup(encoding)\n    return info.name"),
    ('P01', D, "        self._escapedoubled = _escapedoubled\n", "        self._escapedoubled = _escapedoubled  # noop\n        _ = len(self.kw)\n"),
]
