D = 'dsv.py'
M = 'metadata.py'
WEX = "        if self._close:\n            self.f.close()\n\n    def writerow("
REX = "        if self._close:\n            self.f.close()\n\n    def __iter__"
BAD = [
    ('P04', D, WEX, WEX.replace("if self._close:", "if self._close and type is None:")),
    ('P04', D, WEX, WEX.replace("if self._close:", "if self._close and self._rows_written:")),
    ('P04', D, WEX, WEX.replace("        if self._close:\n            self.f", "        if self.f:\n            self.f")),
    ('P04', D, REX, REX.replace("        if self._close:\n            self.f", "        if hasattr(self.f, 'close'):\n            self.f")),
    ('P04', D, REX, REX.replace("if self._close:", "if self._close and exc_type is not StopIteration and self.lineno >= 0:")),
    ('P04', D, "    with _reader(lines_or_file, encoding=encoding, **kw) as r:\n        for item in r:\n            yield item\n", "    r = _reader(lines_or_file, encoding=encoding, **kw).__enter__()\n    for item in r:\n        yield item\n    r.__exit__(None, None, None)\n"),
    ('P04', M, "                        zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))", "                        zipf = zipfile.ZipFile(str(zipfname))"),
    ('P04', M, "            reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))", "            reader = UnicodeReaderWithLineNumber(handle, dialect=dialect).__enter__()"),
    ('P04', M, "        with contextlib.ExitStack() as stack:\n            # Remote", "        stack = contextlib.ExitStack()\n        if True:\n            # Remote"),
    ('P04', M, "    with json_open(fname) as f:\n        return json.load(f, object_pairs_hook=collections.OrderedDict)", "    return json.load(json_open(fname), object_pairs_hook=collections.OrderedDict)"),
    ('P04', M, "            with zipfile.ZipFile(\n                str(fpath.parent.joinpath(fpath.name + '.zip')),\n                'w',\n                compression=zipfile.ZIP_DEFLATED\n            ) as zipf:\n                zipf.write(str(fpath), arcname=fpath.name)\n", "            zipf = zipfile.ZipFile(\n                str(fpath.parent.joinpath(fpath.name + '.zip')),\n                'w',\n                compression=zipfile.ZIP_DEFLATED)\n            zipf.write(str(fpath), arcname=fpath.name)\n            zipf.close()\n"),
    ('P04', M, "        with UnicodeWriter(fname, dialect=dialect) as writer:\n            if dialect.header:", "        writer = UnicodeWriter(fname, dialect=dialect)\n        with contextlib.suppress(KeyError):\n            writer.__enter__()\n            if dialect.header:"),
    ('P04', D, "        with UnicodeWriter(tmp, **kw) as writer:\n            for i", "            writer = UnicodeWriter(tmp, **kw)\n            writer.__enter__()\n            for i"),
]
GOOD = [
    ('P04', D, "    with _reader(lines_or_file, encoding=encoding, **kw) as r:\n        for item in r:\n            yield item\n", "    with _reader(lines_or_file, encoding=encoding, **kw) as r:\n        yield from r\n"),
    ('P04', D, "    with _reader(lines_or_file, encoding=encoding, **kw) as r:\n        for item in r:\n            yield item\n", "    r = _reader(lines_or_file, encoding=encoding, **kw)\n    r.__enter__()\n    try:\n        for item in r:\n            yield item\n    finally:\n        r.__exit__(None, None, None)\n"),
    ('P04', D, WEX, WEX.replace("        if self._close:\n            self.f.close()", "        if not self._close:\n            return\n        self._close = False\n        self.f.close()")),
    ('P04', M, "    with json_open(fname) as f:\n        return json.load(f, object_pairs_hook=collections.OrderedDict)", "    f = json_open(fname)\n    try:\n        return json.load(f, object_pairs_hook=collections.OrderedDict)\n    finally:\n        f.close()"),
    ('P04', M, "            reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))\n            reader = iter(reader)", "            reader = iter(stack.enter_context(\n                UnicodeReaderWithLineNumber(handle, dialect=dialect)))"),
]
