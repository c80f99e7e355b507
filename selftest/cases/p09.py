M = 'metadata.py'
BAD = [
    ('P09', M, "if self.minLength is not None and self.length < self.minLength:", "if self.minLength is not None and self.length <= self.minLength:"),
    ('P09', M, "                if self.length > self.maxLength:", "                if self.length and self.length > self.maxLength + 1:"),
    ('P09', M, "                and self.minLength > self.maxLength:", "                and self.minLength > self.maxLength > 0:"),
    ('P09', M, "if any(getattr(self, at) is not None for at in ['length', 'minLength', 'maxLength']):", "if self.length or self.minLength or self.maxLength:"),
    ('P09', M, "DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']", "DATATYPES[name] for name in ['decimal', 'float', 'date', 'duration']"),
    ('P09', M, "['minimum', 'minInclusive', 'minExclusive'],\n", "['minimum', 'minInclusive'],\n"),
    ('P09', M, "(max_ == min_ and 'Exclusive' in lower + upper)", "(max_ == min_ and 'Exclusive' in lower)"),
    ('P09', M, "            if min_ is None or max_ is None:\n", "            if not min_ or not max_:\n"),
    ('P09', M, "            if getattr(self, attr_) is not None:\n                setattr(self, attr_, self.parse(getattr(self, attr_)))", "            if getattr(self, attr_):\n                setattr(self, attr_, self.parse(getattr(self, attr_)))"),
    ('P09', M, "            v.setdefault('base', 'string')\n", ""),
    ('P09', M, "            self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):", "            self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in list(DATATYPES)[1:]):"),
    ('P09', M, "(self.maxInclusive is not None and self.maxExclusive is not None)", "(self.maxInclusive and self.maxExclusive)"),
]
GOOD = [
    ('P09', M, "            try:\n                empty = max_ < min_ or (max_ == min_ and 'Exclusive' in lower + upper)\n", "            try:\n                strict = lower.endswith('Exclusive') or upper.endswith('Exclusive')\n                empty = (max_ <= min_) if strict else min_ > max_\n"),
    ('P09', M, "        if self.length is not None:\n            if self.minLength is not None and self.length < self.minLength:\n                raise ValueError('minLength > length')\n\n            if self.maxLength is not None:\n                if self.length > self.maxLength:\n                    raise ValueError('maxLength < length')\n",
     "        lmin, lmax = self.minLength, self.maxLength\n        if self.length is not None and lmin is not None and lmin > self.length:\n            raise ValueError('minLength > length')\n        if None not in (self.length, lmax) and lmax < self.length:\n            raise ValueError('maxLength < length')\n"),
    ('P09', M, "        if 'id' in self.at_props and any(\n                self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):", "        if self.at_props.get('id') in {NAMESPACES['xsd'] + dt for dt in DATATYPES}:"),
    ('P09', M, "            v.setdefault('base', 'string')\n            return cls(**cls.partition_properties(v))", "            return cls(**cls.partition_properties(dict({'base': 'string'}, **v)))"),
]
