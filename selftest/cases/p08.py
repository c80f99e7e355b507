M = 'metadata.py'
D = 'datatypes.py'
BAD = [
 ('P08', M, "if self.minExclusive is not None and v <= self.minExclusive:", "if self.minExclusive is not None and v < self.minExclusive:"),
 ('P08', M, "if self.minInclusive is not None and v < self.minInclusive:", "if self.minInclusive and v < self.minInclusive:"),
 ('P08', M, "            if self.maxInclusive is not None and v > self.maxInclusive:", "            elif self.maxInclusive is not None and v > self.maxInclusive:") ,
 ('P08', M, "            l_ = len(v or '')", "            l_ = len(v.strip())"),
 ('P08', M, "if self.maxLength is not None and l_ > self.maxLength:", "if self.maxLength and l_ > self.maxLength:"),
 ('P08', M, "if self.minLength is not None and l_ < self.minLength:", "if self.minLength is not None and l_ <= self.minLength:"),
 ('P08', M, "        return self.validate(self.parse(v))", "        return self.parse(v)"),
 ('P08', D, "    name = 'float'\n    minmax = True\n", "    name = 'float'\n"),
 ('P08', M, "        if self.basetype.minmax:\n", "        if self.basetype.minmax and not isinstance(v, int) and v:\n"),
 ('P08', M, "        except TypeError:\n            pass\n        if self.base", "        except (TypeError, ValueError):\n            pass\n        if self.base"),
]
BAD[2] = ('P08', M, "            if self.maxInclusive is not None and v > self.maxInclusive:", "            if self.maxInclusive is not None and self.maximum is None and v > self.maxInclusive:")
GOOD = [
 ('P08', M, "        if self.basetype.minmax:\n            if self.minimum is not None and v < self.minimum:\n                raise ValueError('value must be >= {}'.format(self.minimum))\n            if self.minInclusive is not None and v < self.minInclusive:\n                raise ValueError('value must be >= {}'.format(self.minInclusive))\n",
  "        if self.basetype.minmax:\n            for low in (self.minimum, self.minInclusive):\n                if low is not None and not v >= low:\n                    raise ValueError('value must be >= {}'.format(low))\n"),
 ('P08', M, "            if self.minimum is not None and v < self.minimum:\n", "            if not (self.minimum is None or self.minimum <= v):\n"),
 ('P08', M, "            l_ = len(v or '')\n            if self.length is not None and l_ != self.length:", "            l_ = len(v) if v else 0\n            if not (self.length is None or self.length == l_):"),
]
