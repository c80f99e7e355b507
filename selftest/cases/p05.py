D = 'dsv.py'
ITEM = """        d = collections.OrderedDict((k, v) for k, v in zip(self.fieldnames, row))
        lf = len(self.fieldnames)
        lr = len(row)
        if lf < lr:
            d[self.restkey] = row[lf:]
        elif lf > lr:
            for key in self.fieldnames[lr:]:
                d[key] = self.restval
        return d
"""
BLANK = """        while row == []:
            row = super(UnicodeDictReader, self).__next__()
"""
NT = """        for name in self.fieldnames:
            d.setdefault(name, None)
        return self.cls(
            **{self._normalize_fieldname(k): v for k, v in d.items() if k in self.fieldnames})
"""
BAD = [
    ('P05', D, ITEM, ITEM.replace("if lf < lr:", "if lf < lr and self.restkey:")),
    ('P05', D, ITEM, ITEM.replace("row[lf:]", "row[lr:]")),
    ('P05', D, ITEM, ITEM.replace("row[lf:]", "row[-1:]")),
    ('P05', D, ITEM, ITEM.replace("self.fieldnames[lr:]", "self.fieldnames[lr:lr + 1]")),
    ('P05', D, ITEM, ITEM.replace("d[key] = self.restval", "d[key] = self.restval or ''")),
    ('P05', D, ITEM, ITEM.replace("d[key] = self.restval", "d[key] = None")),
    ('P05', D, ITEM, ITEM.replace("zip(self.fieldnames, row))", "zip(sorted(self.fieldnames), row))")),
    ('P05', D, ITEM, ITEM.replace("zip(self.fieldnames, row))", "zip(self.fieldnames, row) if v)")),
    ('P05', D, BLANK, BLANK.replace("while", "if")),
    ('P05', D, BLANK, ""),
    ('P05', D, BLANK, BLANK.replace("row == []", "len(row) < len(self.fieldnames)")),
    ('P05', D, "        if self._fieldnames is None:\n            try:", "        if not self.line_num:\n            try:"),
    ('P05', D, NT, NT.replace("if k in self.fieldnames", "if v is not None")),
    ('P05', D, NT, NT.replace(" if k in self.fieldnames", "")),
    ('P05', D, NT, NT.replace("            **{self._normalize_fieldname(k): v for k, v in d.items() if k in self.fieldnames})", "            *row)")),
    ('P05', D, "    elif dicts:\n        _reader = UnicodeDictReader\n", "    elif dicts:\n        _reader = functools.partial(UnicodeDictReader, restval='')\n"),
    ('P05', D, "                if i == 0 and not self._rows_written:", "                if i == 0:"),
    ('P05', D, "                if i == 0 and not self._rows_written:", "                if not self._rows_written or i == 1:"),
    ('P05', D, "        if self.line_num == 0:\n            # Used only for its side effect.\n            self.fieldnames\n        row = super(UnicodeDictReader, self).__next__()", "        row = super(UnicodeDictReader, self).__next__()\n        if self.line_num == 0:\n            # Used only for its side effect.\n            self.fieldnames"),
    ('P05', D, "        for item in r:\n            yield item", "        for item in r:\n            if item:\n                yield item"),
]
GOOD = [
    ('P05', D, ITEM, """        names = self.fieldnames
        d = collections.OrderedDict(itertools.zip_longest(names, row[:len(names)], fillvalue=self.restval))
        if len(row) > len(names):
            d[self.restkey] = row[len(names):]
        return d
""", D, "import codecs\n", "import codecs\nimport itertools\n"),
    ('P05', D, ITEM, """        d = collections.OrderedDict()
        for i, name in enumerate(self.fieldnames):
            d[name] = row[i] if i < len(row) else self.restval
        surplus = row[len(self.fieldnames):]
        if surplus:
            d[self.restkey] = surplus
        return d
"""),
    ('P05', D, BLANK, "        while not row:\n            row = super().__next__()\n"),
    ('P05', D, NT, "        return self.cls(*[d.get(name) for name in self.fieldnames])\n"),
    ('P05', D, NT, "        return self.cls._make(d[name] for name in self.fieldnames)\n"),
    ('P05', D, "        for i, row in enumerate(rows):\n            if isinstance(row, dict):\n                if i == 0 and not self._rows_written:\n                    # We write a header row.\n                    self.writerow(row.keys())\n                row = row.values()\n            self.writerow(row)", "        for row in rows:\n            if isinstance(row, dict):\n                if not self._rows_written:\n                    self.writerow(list(row))\n                row = list(row.values())\n            self.writerow(row)"),
]
