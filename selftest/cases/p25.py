M = 'db.py'
BAD = [
 ('P25', M, "for bound in bounds if bound is not None)", "for bound in bounds if bound)"),
 ('P25', M, "('>', [c.minExclusive])", "('>=', [c.minExclusive])"),
 ('P25', M, "('>=', [c.minimum, c.minInclusive])", "('>=', [c.minimum or c.minInclusive])"),
 ('P25', M, "        if not self.csvw or self.separator:", "        if not self.csvw:"),
 ('P25', M, "('CAST({0} AS NUMERIC)' if self.db_type == 'TEXT' else '{0}')", "'{0}'"),
 ('P25', M, "[('=', c.length), ('>=', c.minLength), ('<=', c.maxLength)]", "[('=', c.length), ('>=', c.minLength), ('<', c.maxLength)]"),
 ('P25', M, "                if length is not None:\n                    constraints", "                if length:\n                    constraints"),
 ('P25', M, "            ' NOT NULL' if self.required else '',", "            ' NOT NULL' if self.csvw and self.required else '',"),
 ('P25', M, "                    required=c.inherit('required'),", "                    required=c.required,"),
 ('P25', M, "                    separator=c.inherit('separator'),\n                    required", "                    separator=c.separator,\n                    required"),
 ('P25', M, "                        list(fk.columnReference),\n                        fk.reference.resource.string,\n                        list(fk.reference.columnReference),", "                        sorted(fk.columnReference),\n                        fk.reference.resource.string,\n                        list(fk.reference.columnReference),"),
 ('P25', M, "                ([afk.name], atable, [apk]),\n                ([bfk.name], btable, [bpk]),", "                ([bfk.name], atable, [apk]),\n                ([afk.name], btable, [bpk]),"),
 ('P25', M, "                *[col_translate(c) for c in self.primary_key])))", "                *sorted(col_translate(c) for c in self.primary_key))))"),
 ('P25', M, "        if self.primary_key:\n            clauses", "        if self.primary_key and len(self.primary_key) == 1:\n            clauses"),
 ('P25', M, "if c.header not in spec.many_to_many:", "if c.header not in list_valued or c.header not in spec.many_to_many or c.required:"),
 ('P25', M, "                'dateTimeStamp': 'datetime',\n", ""),
 ('P25', M, "elif not (drop_self_referential_fks and fk", "elif not (fk"),
 ('P25', M, "            self.db_type = 'TEXT'\n\n    def check", "            pass\n\n    def check"),
 ('P25', M, "                        at.columns[i] = ColSpec(at.columns[i].name, csvw_type=col.csvw_type)", "                        pass"),
]
GOOD = [
 ('P25', M, "            for op, bounds in [\n                ('>=', [c.minimum, c.minInclusive]),\n                ('>', [c.minExclusive]),\n                ('<=', [c.maximum, c.maxInclusive]),\n                ('<', [c.maxExclusive]),\n            ]:\n                constraints.extend(\n                    '{0} {1} {2}'.format(expr.format(cname), op, value.format(bound))\n                    for bound in bounds if bound is not None)",
  "            for facet, op in {'minimum': '>=', 'maximum': '<=', 'minInclusive': '>=', 'maxInclusive': '<=', 'minExclusive': '>', 'maxExclusive': '<'}.items():\n                bound = getattr(c, facet)\n                if bound is not None:\n                    constraints.append(f'{expr.format(cname)} {op} {value.format(bound)}')"),
 ('P25', M, "        return ' AND '.join(constraints)", "        return ' AND '.join('({})'.format(c) for c in constraints)"),
 ('P25', M, "        if self.primary_key:\n            clauses.append('PRIMARY KEY({0})'.format(quoted(\n                *[col_translate(c) for c in self.primary_key])))", "        pk = [col_translate(c) for c in self.primary_key or []]\n        if pk:\n            clauses.append('PRIMARY KEY (' + quoted(*pk) + ')')"),
]
