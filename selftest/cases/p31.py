D = 'datatypes.py'
BAD = [
 ('P31', D, "        'MM': ('{dt.month:02d}', '(?P<month>[0-9]{2})'),", "        'MM': ('{dt.month:02d}', '(?P<minute>[0-9]{2})'),"),
 ('P31', D, "        'd': ('{dt.day}', '(?P<day>[0-9]{1,2})'),", "        'd': ('{dt.day}', '(?P<day>[0-9]{2})'),"),
 ('P31', D, "        \"d/M/yyyy\",  # e.g., 22/3/2015\n", ""),
 ('P31', D, "    time_patterns = {\"HH:mm:ss\", \"HHmmss\", \"HH:mm\", \"HHmm\"}", "    time_patterns = {\"HH:mm:ss\", \"HHmmss\", \"HH:mm\", \"HHmm\", \"HH\"}"),
 ('P31', D, "            for i, part in enumerate(dfmt.split(d_sep)):\n                if i > 0:\n                    format += d_sep\n                    regex += re.escape(d_sep)", "            for i, part in enumerate(dfmt.split(d_sep)):\n                if i > 0:\n                    format += d_sep\n                    regex += d_sep"),
 ('P31', D, "comps['microsecond'][:6].ljust(6, '0')", "comps['microsecond'][:6].zfill(6)"),
 ('P31', D, "        regex += r'(\\.(?P<microsecond>[0-9]{1,%s})(?![0-9]))?' % msecs", "        regex += r'(\\.(?P<microsecond>[0-9]{1,%s})(?![0-9]))?' % min(msecs, 6)"),
 ('P31', D, "        if len(set(tz_marker.strip())) != 1:  # mixing x and X is not allowed!\n            raise ValueError(fmt)\n", ""),
 ('P31', D, "        if set(msecs) != {'S'}:", "        if 'S' not in msecs:"),
 ('P31', D, "            return format_date(v, format=pattern, locale='en')", "            return format_date(v, format='long', locale='en')"),
 ('P31', D, "babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)", "babel.dates.format_datetime(v, format=pattern)"),
 ('P31', D, "        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)", "        return v.isoformat()"),
 ('P31', D, "    pattern = fmt\n\n    # First", "    pattern = fmt.strip('X')\n\n    # First"),
 ('P31', D, "            if tz_marker:\n", "            if tz_marker:\n"),
 ('P31', D, "            res.year, res.month, res.day, res.hour, res.minute, res.second, res.microsecond,", "            res.year, res.month, res.day, res.hour, res.second, res.minute, res.microsecond,"),
 ('P31', D, "        if tz_marker:\n            # Let", "        if tz_marker and not comps:\n            # Let"),
 ('P31', D, "    if (dfmt and dfmt not in date_patterns) or (tfmt and tfmt not in time_patterns):", "    if (dfmt and dfmt not in date_patterns) and (tfmt and tfmt not in time_patterns):"),
 ('P31', D, "    for dt_sep in ' T':", "    for dt_sep in 'T':"),
 ('P31', D, "        res = cls(**{k: int(v) for k, v in comps.items() if v is not None})", "        res = cls(**{k: int(v) for k, v in comps.items() if v is not None and v != '0000'})"),
]
BAD = [b for b in BAD if b[2] != b[3]][:-1]
GOOD = [
 ('P31', D, "                f, r = translate[part]\n                format += f\n                regex += r\n        else:\n            for _, chars in itertools.groupby(dfmt, lambda k: k):", "                regex += translate[part][1]\n                format += translate[part][0]\n        else:\n            for _, chars in itertools.groupby(dfmt, lambda k: k):"),
 ('P31', D, "        'yyyy': ('{dt.year:04d}', '(?P<year>[0-9]{4})'),", "        'yyyy': ('{dt.year:04d}', r'(?P<year>[0-9]{4,4})'),"),
 ('P31', D, "    for dt_sep in ' T':  # Only a single space or \"T\" may separate date and time format.\n        # Since space or \"T\" isn't allowed anywhere else in the format, checking whether\n        # we are dealing with a date or dateTime format is simple:\n        if dt_sep in fmt:\n            break\n    else:\n        dt_sep = None\n", "    dt_sep = next((c for c in ' T' if c in fmt), None)\n"),
 ('P31', D, "        res = cls(**{k: int(v) for k, v in comps.items() if v is not None})", "        kw = {}\n        for k, v in comps.items():\n            if v is None:\n                continue\n            kw[k] = int(v)\n        res = cls(**kw)"),
 ('P31', D, "        if tz_marker:\n            # Let dateutils take care of parsing the timezone info:\n            res = res.replace(tzinfo=dateutil.parser.parse(v).tzinfo)\n        return res", "        if not tz_marker:\n            return res\n        return res.replace(tzinfo=dateutil.parser.parse(v).tzinfo)"),
 ('P31', D, "        'M': ('{dt.month}', '(?P<month>[0-9]{1,2})'),", "        'M': ('{dt.month}', '(?P<month>1[0-2]|0?[1-9])'),"),
]
