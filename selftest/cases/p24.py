M = 'db.py'
BAD = [
 ('P24', M, "'`{0}`'.format(name.replace('`', '``'))", "'`{0}`'.format(name)"),
 ('P24', M, "'`{0}`'.format(name.replace('`', '``'))", "'\"{0}\"'.format(name.replace('`', '``'))"),
 ('P24', M, '''            quoted(translate(self.name)), ',\\n    '.join(clauses))''', '''            translate(self.name), ',\\n    '.join(clauses))'''),
 ('P24', M, '''context_sql, params = "WHERE {0} = ?".format(context_col), (context,)''', '''context_sql, params = "WHERE {0} = '{1}'".format(context_col, context), ()'''),
 ('P24', M, '''                quoted(translate(ref)),''', '''                '`{}`'.format(translate(ref)),'''),
 ('P24', M, '''    cu = db.execute("SELECT * FROM {0}".format(quoted(table)))''', '''    cu = db.execute("SELECT * FROM '{0}'".format(table.replace("`", "``")))'''),
 ('P24', M, '''            ','.join(['?' for _ in keys]))
        try:
            db.executemany(sql, rows)''', '''            ','.join(["'{0}'" for _ in keys]))
        try:
            for row in rows:
                db.execute(sql.format(*row))'''),
 ('P24', M, '''            quoted(translate(self.name)),
            self.db_type,''' if False else '''            quoted(translate(self.name)),
            self.db_type''', '''            '[{}]'.format(translate(self.name)),
            self.db_type'''),
]
GOOD = [
 ('P24', M, "    return ','.join('`{0}`'.format(name.replace('`', '``')) for name in names)", "    return ','.join('\"' + name.replace('\"', '\"\"') + '\"' for name in names)"),
 ('P24', M, "    return ','.join('`{0}`'.format(name.replace('`', '``')) for name in names)", "    def q(n):\n        n = n.replace('`', '``')\n        return f'`{n}`'\n    return ','.join(map(q, names))"),
 ('P24', M, '''    cu = db.execute("SELECT * FROM {0}".format(quoted(table)))''', '''    cu = db.cursor()\n    cu.execute("SELECT * FROM %s" % quoted(table))'''),
]
