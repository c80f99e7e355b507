M, C = 'metadata.py', '__main__.py'
INIT = "                w = stack.enter_context(warnings.catch_warnings(record=True))\n                warnings.simplefilter('always')\n"
VAL = "        with warnings.catch_warnings(record=True) as w:\n            warnings.simplefilter('always')\n"
LOOP = "                for table in self.tables:\n                    for _ in table.iterdicts(strict=False):\n                        pass\n"
BAD = [
 ('P23', M, INIT, "                w = stack.enter_context(warnings.catch_warnings(record=True))\n"),
 ('P23', M, VAL, "        with warnings.catch_warnings(record=True) as w:\n"),
 ('P23', M, INIT, "                w = stack.enter_context(warnings.catch_warnings(record=False))\n"),
 ('P23', M, "        if w:\n            self.warnings.extend(w)\n\n", "\n"),
 ('P23', M, "                    for _ in table.iterdicts(strict=False):\n                        pass\n", "                    for _ in table.iterdicts(strict=False):\n                        break\n"),
 ('P23', M, "                    for _ in table.iterdicts(strict=False):\n                        pass\n", "                    next(table.iterdicts(strict=False), None)\n"),
 ('P23', M, LOOP, "                for table in self.tables[:1]:\n                    for _ in table.iterdicts(strict=False):\n                        pass\n"),
 ('P23', M, LOOP, "                for table in self.tables:\n                    for _ in table.iterdicts(log=nolog(), strict=False):\n                        pass\n                for table in self.tables[1:]:\n"),
 ('P23', M, "                    if not table.check_primary_key():  # pragma: no cover\n                        warnings.warn('Duplicate primary key')\n", ""),
 ('P23', M, "                    if not table.check_primary_key():  # pragma: no cover\n", "                    if not table.check_primary_key(log=nolog()) and False:\n"),
 ('P23', M, "                if not self.tablegroup.check_referential_integrity(strict=True):\n                    warnings.warn('Referential integrity check failed')\n", ""),
 ('P23', M, "self.tablegroup.check_referential_integrity(strict=True)", "self.tablegroup.check_referential_integrity()"),
 ('P23', M, "                if not self.tablegroup.check_referential_integrity(strict=True):\n", "                if isinstance(self.t, TableGroup) and not self.tablegroup.check_referential_integrity(strict=True):\n"),
 ('P23', M, "                warnings.warn(str(e))\n", "                pass\n"),
 ('P23', M, "            except ValueError as e:  # Invalid data is no reason to reject the metadata.\n                warnings.warn(str(e))\n", "            except ZeroDivisionError as e:\n                warnings.warn(str(e))\n"),
 ('P23', M, "        return not bool(self.warnings)", "        return bool(self.warnings)"),
 ('P23', M, "        return not bool(self.warnings)", "        return len(self.warnings) < 2"),
 ('P23', M, "            if w:\n                self.warnings.extend(w)\n        return not", "        return not"),
 ('P23', M, VAL, "        with warnings.catch_warnings(record=True) as w:\n            warnings.simplefilter('error')\n"),
 ('P23', C, "        csvw = CSVW(args.url, validate=True)\n        if", "        csvw = CSVW(args.url)\n        if"),
 ('P23', C, "            ret = 1\n            print(colored('FAIL'", "            print(colored('FAIL'"),
 ('P23', C, "        ret = 2\n        print", "        ret = 1\n        print"),
 ('P23', C, "            ret = 1\n            print(colored('FAIL'", "            ret = 1\n            print(colored('OK'"),
 ('P23', C, "            if args.verbose:\n                for w in csvw.warnings:\n", "            if args.verbose:\n                ret = 0\n                for w in csvw.warnings:\n"),
 ('P23', C, "    except ValueError as e:\n        ret = 2", "    except KeyError as e:\n        ret = 2"),
]
GOOD = [
 ('P23', M, LOOP, "                for table in self.tables:\n                    collections.deque(table.iterdicts(strict=False), maxlen=0)\n"),
 ('P23', M, LOOP, "                for table in self.tables:\n                    list(table.iterdicts(strict=False))\n"),
 ('P23', M, "        return not bool(self.warnings)", "        return len(self.warnings) == 0"),
 ('P23', M, "            if w:\n                self.warnings.extend(w)\n        return not", "            self.warnings += list(w)\n        return not"),
 ('P23', M, "                if not self.tablegroup.check_referential_integrity(strict=True):\n", "                tg = self.tablegroup\n                ok = tg.check_referential_integrity(strict=True)\n                if ok is False:\n"),
 ('P23', M, "                    if not table.check_primary_key():  # pragma: no cover\n                        warnings.warn('Duplicate primary key')\n", "",
  M, "                if not self.tablegroup.check_referential_integrity(strict=True):\n", "                for table in self.tables:\n                    if not table.check_primary_key():\n                        warnings.warn('Duplicate primary key')\n                if not self.tablegroup.check_referential_integrity(strict=True):\n"),
 ('P23', C, "    ret = 0\n    try:\n        csvw = CSVW(args.url, validate=True)\n        if csvw.is_valid:\n            print(colored('OK', 'green', attrs=['bold']))\n        else:\n            ret = 1\n", "    ret = 0\n    try:\n        csvw = CSVW(args.url, validate=True)\n        ret = 0 if csvw.is_valid else 1\n        if not ret:\n            print(colored('OK', 'green', attrs=['bold']))\n        else:\n"),
 ('P23', M, INIT, "                w = stack.enter_context(warnings.catch_warnings(record=True))\n                warnings.resetwarnings()\n                warnings.filterwarnings('always')\n"),
]
