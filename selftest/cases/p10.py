D = 'datatypes.py'
BAD = [
 ('P10', D, "    range = (0, 4294967295)", "    range = (0, 4294967296)"),
 ('P10', D, "    range = (-32768, 32767)", "    range = (-32767, 32767)"),
 ('P10', D, "    range = (1, math.inf)", "    range = (0, math.inf)"),
 ('P10', D, "    range = (-math.inf, -1)", "    range = (-math.inf, 0)"),
 ('P10', D, "not (cls.range[0] <= numerator <= cls.range[1])", "not (cls.range[0] <= numerator < cls.range[1])"),
 ('P10', D, "            if cls.range and not", "            if numerator and cls.range and not"),
 ('P10', D, "        if denominator == 1:", "        if denominator <= 2:"),
 ('P10', D, r"re.compile(r'({})\Z'", r"re.compile(r'{}\Z'"),
 ('P10', D, r"re.compile(r'({})\Z'", r"re.compile(r'({})$'"),
 ('P10', D, r"re.compile(r'({})\Z'", r"re.compile(r'({})'"),
 ('P10', D, r"re.compile(r'({})\Z'.format(datatype.format))", r"re.compile(r'({})\Z'.format(datatype.format), re.I)"),
 ('P10', D, r"if not re.fullmatch(r'[\w.:-]*', v):", r"if not re.match(r'[\w.:-]*$', v):"),
 ('P10', D, r"if not re.fullmatch(r'[\w.:-]*', v):", r"if not re.fullmatch(r'[\w.:-_]*', v):"),
 ('P10', D, r"if not re.fullmatch(r'[\w.:-]*', v):", r"if not re.fullmatch(r'[a-z.:-]*', v):"),
 ('P10', D, "return string.to_python(v, regex=regex)\n\n\n@register\nclass QName", "return string.to_python(v, '')\n\n\n@register\nclass QName"),
 ('P10', D, "        v = string.to_python(v, regex=regex)\n        if not re.full", "        if not re.full"),
 ('P10', D, "        if regex and not regex.match(v):", "        if regex and not regex.search(v):"),
 ('P10', D, "@register\nclass gYear(", "class gYear("),
 ('P10', D, "            return numerator\n", "            return res\n"),
]
GOOD = [
 ('P10', D, r"re.compile(r'({})\Z'", r"re.compile(r'^(?:{})\Z'"),
 ('P10', D, "        if regex and not regex.match(v):", "        if regex and not regex.fullmatch(v):"),
 ('P10', D, r"if not re.fullmatch(r'[\w.:-]*', v):", r"if re.search(r'[^\w.:-]', v):"),
 ('P10', D, "            if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):", "            low, high = cls.range or (numerator, numerator)\n            if numerator < low or numerator > high:"),
 ('P10', D, "        if denominator == 1:\n            if cls", "        if denominator != 1:\n            raise ValueError('Invalid value for integer')\n        else:\n            if cls"),
]
