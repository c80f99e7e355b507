D = 'dsv.py'
RW = """    with UnicodeReader(fname, **kw) as reader_:
        with UnicodeWriter(tmp, **kw) as writer:
            for i, row in enumerate(reader_):
                row = visitor(i, row)
                if row is not None:
                    writer.writerow(row)
    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+


def add_rows"""
ADD = """    with UnicodeWriter(tmp) as writer:
        if fname.exists():
            with UnicodeReader(fname) as reader_:
                for row in reader_:
                    writer.writerow(row)
        writer.writerows(rows)
    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
"""
FIL = """        if row:
            item = dict(zip(self.header, row))
            if self.filter(item):
                return row
            else:
                self.removed += 1"""
BAD = [
    ('P03', D, RW, RW.replace("    shutil.move(str(tmp)", "            shutil.move(str(tmp)")),
    ('P03', D, RW, RW.replace("                if row is not None:", "                if row:")),
    ('P03', D, RW, RW.replace("    with UnicodeReader(fname", "    try:\n      with UnicodeReader(fname").replace("        with UnicodeWriter(tmp, **kw) as writer:\n            for i, row in enumerate(reader_):\n                row = visitor(i, row)\n                if row is not None:\n                    writer.writerow(row)\n    shutil", "        with UnicodeWriter(tmp, **kw) as writer:\n            for i, row in enumerate(reader_):\n                row = visitor(i, row)\n                if row is not None:\n                    writer.writerow(row)\n    finally:\n      shutil")),
    ('P03', D, RW, RW.replace("        with UnicodeWriter(tmp, **kw) as writer:\n            for i", "            writer = UnicodeWriter(tmp, **kw)\n            writer.__enter__()\n            for i")),
    ('P03', D, RW, RW.replace("    shutil.move(str(tmp), str(fname))", "    fname.write_text(tmp.read_text())")),
    ('P03', D, RW, RW.replace("    shutil.move(str(tmp), str(fname))", "    shutil.copy(str(tmp), str(fname))")),
    ('P03', D, RW, RW.replace("    shutil.move(str(tmp), str(fname))", "    fname.unlink()\n    shutil.move(str(tmp), str(fname))")),
    ('P03', D, RW, RW.replace("UnicodeWriter(tmp, **kw)", "UnicodeWriter(tmp)")),
    ('P03', D, RW, RW.replace("enumerate(reader_)", "enumerate(reader_, start=1)")),
    ('P03', D, RW, RW.replace("                row = visitor(i, row)\n", "                try:\n                    row = visitor(i, row)\n                except Exception:\n                    break\n")),
    ('P03', D, ADD, ADD.replace("        writer.writerows(rows)\n", "            writer.writerows(rows)\n") ),
    ('P03', D, ADD, ADD.replace("        if fname.exists():\n", "        if rows and fname.exists():\n")),
    ('P03', D, ADD, ADD.replace("        writer.writerows(rows)\n    shutil", "        writer.writerows(rows[:1])\n    shutil")),
    ('P03', D, ADD, ADD.replace("        writer.writerows(rows)\n    shutil.move(str(tmp), str(fname))", "        shutil.move(str(tmp), str(fname))\n        writer.writerows(rows)")),
    ('P03', D, FIL, FIL.replace("if self.filter(item):", "if self.filter(item) is True:")),
    ('P03', D, FIL, FIL.replace("        if row:\n", "        if len(row) == len(self.header):\n")),
    ('P03', D, FIL, FIL.replace("            else:\n                self.removed += 1", "        self.removed += 1")),
    ('P03', D, "        if i == 0:\n            self.header = row\n            return row", "        if not self.header:\n            self.header = row"),
    ('P03', D, "        if self._close:\n            self.f.close()\n\n    def writerow(", "        if self._close and type is None:\n            self._rows_written = 0\n\n    def writerow("),
    ('P03', D, "        if self._close:\n            self.f.close()\n\n    def __iter__", "        if self._close:\n            self.f.close()\n        return True\n\n    def __iter__"),
]
GOOD = [
    ('P03', D, RW, RW.replace("    with UnicodeReader(fname, **kw) as reader_:\n        with UnicodeWriter(tmp, **kw) as writer:\n", "    with UnicodeReader(fname, **kw) as reader_, UnicodeWriter(tmp, **kw) as writer:\n        if True:\n")),
    ('P03', D, RW, RW.replace("    shutil.move(str(tmp), str(fname))", "    tmp.replace(fname)")),
    ('P03', D, RW, RW.replace("    shutil.move(str(tmp), str(fname))", "    import os\n    os.replace(tmp, fname)")),
    ('P03', D, ADD, ADD.replace("                for row in reader_:\n                    writer.writerow(row)", "                writer.writerows(reader_)").replace("        writer.writerows(rows)\n    ", "        for row in rows:\n            writer.writerow(row)\n    ")),
    ('P03', D, FIL, FIL.replace("            else:\n                self.removed += 1", "            self.removed += 1\n        return None")),
    ('P03', D, FIL, """        if not row:
            return None
        keep = self.filter({k: v for k, v in zip(self.header, row)})
        self.removed += 0 if keep else 1
        return row if keep else None"""),
    ('P03', D, RW, RW.replace("            for i, row in enumerate(reader_):\n                row = visitor(i, row)\n                if row is not None:\n                    writer.writerow(row)", "            rows = (visitor(i, row) for i, row in enumerate(reader_))\n            writer.writerows(r for r in rows if r is not None)")),
]
