M = 'metadata.py'
D = 'datatypes.py'
BAD = [
 ('P11', M, "except (ArithmeticError, TypeError, RecursionError) as e:", "except (ArithmeticError, RecursionError) as e:"),
 ('P11', M, "except (ArithmeticError, TypeError, RecursionError) as e:", "except TypeError as e:"),
 ('P11', M, "except (ArithmeticError, TypeError, RecursionError) as e:", "except (ArithmeticError, TypeError) as e:"),
 ('P11', D, "            except jsonschema.ValidationError:\n                json.value_error(v)", "            except jsonschema.SchemaError:\n                json.value_error(v)"),
 ('P11', D, "        except AttributeError:  # pragma: no cover\n            dateTime.value_error(v)", "        except KeyError:  # pragma: no cover\n            dateTime.value_error(v)"),
 ('P11', D, "        tz = tz.groups()[0]", "        tz = tz.groups()[1]"),
 ('P11', D, "        raise boolean.value_error(s)", "        return {}[s]"),
 ('P11', D, "            except (re.error, TypeError):\n                warnings.warn('Invalid regex pattern as datatype format')\n        return {}\n\n    @staticmethod\n    def to_python(v, format=None, **kw):\n        if format and not re.match(format, v):\n            raise ValueError",
  "            except (re.error, TypeError):\n                warnings.warn('Invalid regex pattern as datatype format')\n        return {}\n\n    @staticmethod\n    def to_python(v, format=None, **kw):\n        if format and not re.match(format, v).end():\n            raise ValueError"),
 ('P11', D, "        integral_part, _, decimal_part = s.partition('.')", "        integral_part, decimal_part = s.split('.')\n        _ = integral_part[0]"),
 ('P11', D, "        if res.get('x'):", "        if res.get('x'):"),
]
BAD.pop()
GOOD = [
 ('P11', D, "        except (TypeError, _decimal.InvalidOperation):\n            decimal.value_error(v)", "        except (TypeError, ArithmeticError) as e:\n            raise ValueError('invalid decimal') from e"),
 ('P11', D, "        if s in true:\n            return True\n        if s in false:\n            return False\n        raise boolean.value_error(s)", "        for tokens, res in ((true, True), (false, False)):\n            if s in tokens:\n                return res\n        boolean.value_error(s)"),
 ('P11', D, "            comps = regex.match(v).groupdict()\n        except AttributeError:  # pragma: no cover\n            dateTime.value_error(v)", "            match = regex.match(v)\n            comps = match.groupdict()\n        except AttributeError:  # pragma: no cover\n            dateTime.value_error(v)"),
 ('P11', D, "        try:\n            comps = regex.match(v).groupdict()\n        except AttributeError:  # pragma: no cover\n            dateTime.value_error(v)", "        match = regex.match(v) if regex else None\n        if match is None:\n            dateTime.value_error(v)\n        comps = match.groupdict()"),
]
