M = 'metadata.py'
BAD = [
 ('P13', M, "        required = self.inherit('required')", "        required = self.required"),
 ('P13', M, "        datatype = self.inherit('datatype')\n\n        if not v:", "        datatype = self.datatype or (self._parent and self._parent.datatype)\n\n        if not v:"),
 ('P13', M, "        sep = self.inherit('separator')\n        null = self.inherit_null()", "        sep = self.inherit('separator')\n        null = self.null"),
 ('P13', M, "        if self.null == [\"\"]:\n", "        if not self.null:\n"),
 ('P13', M, "        if (v is None or (attr, v)", "        if (not v or (attr, v)"),
 ('P13', M, "return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \\\n                else getattr(self._parent, attr)", "return getattr(self._parent, attr)"),
 ('P13', M, "        v = getattr(self, attr)\n        #", "        v = self._parent.inherit(attr) if self._parent else None\n        if v is None:\n            v = getattr(self, attr)\n        #"),
 ('P13', M, "                return self._parent.inherit_null()\n", "                return self._parent.null\n"),
]
GOOD = [
 ('P13', M, "            return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \\\n                else getattr(self._parent, attr)\n        return v", "            obj = self._parent\n            while obj is not None:\n                w = getattr(obj, attr, None)\n                if w is not None and (attr, w) not in [('default', ''), ('lang', 'und')]:\n                    return w\n                obj = obj._parent\n        return v"),
]
