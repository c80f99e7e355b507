M = 'db.py'
BAD = [
 ('P28', M, "            if not force:\n", "            if not force and not _exists_ok and False:\n"),
 ('P28', M, "                self.fname.unlink()", "                pass"),
 ('P28', M, "            db.execute('PRAGMA foreign_keys = ON;')\n            db.commit()\n", ""),
 ('P28', M, "            db.execute('PRAGMA foreign_keys = ON;')", "            db.execute('PRAGMA foreign_keys = OFF;')"),
 ('P28', M, "                insert(db, self.translate, atkey[0], atkey[1:], *[\n                    [None if v is None else c.convert(v) for c, v in zip(cols, row)] + [row[2]]\n                    for row in rows])\n\n            db.commit()", "                db.commit()\n                insert(db, self.translate, atkey[0], atkey[1:], *[\n                    [None if v is None else c.convert(v) for c, v in zip(cols, row)] + [row[2]]\n                    for row in rows])\n"),
 ('P28', M, "                print(sql)\n                print(rows)\n                raise", "                print(sql)\n                print(rows)"),
 ('P28', M, "            return contextlib.closing(sqlite3.connect(str(self.fname)))", "            return sqlite3.connect(str(self.fname))"),
 ('P28', M, "        if not self._connection:\n            self._connection = sqlite3.connect(':memory:')\n        return self._connection", "        return sqlite3.connect(':memory:')"),
 ('P28', M, "            force=_force,\n", "            force=True,\n"),
 ('P28', M, "            raise ValueError('db file already exists, use force=True to overwrite')" if False else "if self.fname and self.fname.exists():\n            if not force:", "if self.fname and self.fname.exists():\n            self.fname.unlink()\n            if not force:"),
 ('P28', M, "            db.execute('PRAGMA foreign_keys = ON;')\n            db.commit()\n\n            refs", "            refs").__class__ and
 ('P28', M, "            for atkey, rows in refs.items():", "            db.execute('PRAGMA foreign_keys = OFF;')\n            for atkey, rows in refs.items():"),
]
GOOD = [
 ('P28', M, "            return contextlib.closing(sqlite3.connect(str(self.fname)))\n        if not", "            conn = sqlite3.connect(self.fname)\n            return contextlib.closing(conn)\n        if not"),
 ('P28', M, "            if not force:\n                raise ValueError('db file already exists, use force=True to overwrite')\n            else:\n                self.fname.unlink()", "            if force:\n                self.fname.unlink()\n            else:\n                raise ValueError('exists')"),
 ('P28', M, "        with self.connection() as db:\n            for table in", "        with self.connection() as db:\n            db.execute('PRAGMA foreign_keys = ON')\n            for table in", "            db.execute('PRAGMA foreign_keys = ON;')\n", ""),
]
