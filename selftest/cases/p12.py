D = 'datatypes.py'
BAD = [
 ('P12', D, "        return {'true': true, 'false': false}", "        return {'true': false, 'false': true}"),
 ('P12', D, "        return (true if v else false)[0]", "        return (true if v else false)[-1]"),
 ('P12', D, "        if s in false:\n            return False\n        raise boolean.value_error(s)", "        if s in false or not s:\n            return False\n        raise boolean.value_error(s)"),
 ('P12', D, "        if s in false:\n            return False\n        raise boolean.value_error(s)", "        return False"),
 ('P12', D, "        if s in true:", "        if s.lower() in true:"),
 ('P12', D, "            true, false = ['true', '1'], ['false', '0']", "            true, false = ['true', '1', 'yes'], ['false', '0']"),
 ('P12', D, "            if groupChar:\n                v = v.replace(groupChar, '')\n            if decimalChar and decimalChar != '.':\n                v = v.replace(decimalChar, '.')\n",
  "            if decimalChar and decimalChar != '.':\n                v = v.replace(decimalChar, '.')\n            if groupChar:\n                v = v.replace(groupChar, '')\n"),
 ('P12', D, "('‰', _decimal.Decimal('0.001'))", "('‰', _decimal.Decimal('0.01'))"),
 ('P12', D, "                    v = v.replace(c, '')\n                    break", "                    v = v.replace(c, '')"),
 ('P12', D, "        return replace_all(v, {'.': decimalChar or '.', ',': groupChar or ','})\n\n\n@register", "        return v.replace('.', decimalChar or '.').replace(',', groupChar or ',')\n\n\n@register"),
 ('P12', D, "            return replace_all(v, {'.': decimalChar or '.', ',': groupChar or ','})\n\n        fmt", "            return v.replace(',', groupChar or ',').replace('.', decimalChar or '.')\n\n        fmt"),
 ('P12', D, "        fmt = '{}' if groupChar is None else '{:,}'", "        fmt = '{:,}'"),
 ('P12', D, "        chars.update((c, p) for c, p in [(decimalChar, '.'), (groupChar, ',')] if c)\n", ""),
 ('P12', D, "            if decimalChar and decimalChar != '.':", "            if decimalChar and decimalChar != '.' and groupChar:"),
 ('P12', D, "            if groupChar:\n                v = v.replace(groupChar, '')", "            if groupChar and groupChar != '.':\n                v = v.replace(groupChar, '')"),
 ('P12', D, "        '|'.join(re.escape(k) for k in replacements)", "        '|'.join(k for k in replacements)"),
]
GOOD = [
 ('P12', D, "        return replace_all(v, {'.': decimalChar or '.', ',': groupChar or ','})\n\n\n@register", "        return v.translate({ord('.'): decimalChar or '.', ord(','): groupChar or ','})\n\n\n@register"),
 ('P12', D, "                v = v.replace(groupChar, '')", "                v = ''.join(v.split(groupChar))"),
 ('P12', D, "            if decimalChar and decimalChar != '.':", "            if decimalChar:"),
 ('P12', D, "            true, false = [[v] for v in datatype.format.split('|')]", "            yes, _, no = datatype.format.partition('|')\n            true, false = [yes], [no]"),
 ('P12', D, "        if s in true:\n            return True\n        if s in false:\n            return False\n        raise boolean.value_error(s)", "        if s not in true and s not in false:\n            boolean.value_error(s)\n        return s in true"),
 ('P12', D, "                if c in v:\n                    v = v.replace(c, '')\n                    break\n            else:\n                factor = 1", "                if c not in v:\n                    continue\n                v = v.replace(c, '')\n                break\n            else:\n                factor = 1"),
]
