M = 'metadata.py'
BAD = [
    ('P21', M, "            return (base if base.is_dir() else base.parent) / self.string", "            return base / self.string"),
    ('P21', M, "            return (base if base.is_dir() else base.parent) / self.string", "            return base.parent / self.string"),
    ('P21', M, "            return (base if base.is_dir() else base.parent) / self.string", "            return (base if base.is_dir() else base.parent) / pathlib.Path(self.string).name"),
    ('P21', M, "            if is_url(self.string):\n                return self.string\n            return (base", "            return (base"),
    ('P21', M, "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))", "        data['@base'] = urlunparse((url.scheme, url.netloc, url.path, '', '', ''))"),
    ('P21', M, "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))", "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, '/', '', '', '')))"),
    ('P21', M, "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))", "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path + '/', '', '', '')))"),
    ('P21', M, "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))", "        data.setdefault('@base', urlunparse(('http', url.netloc, url.path, '', '', '')))"),
    ('P21', M, "                return Link(ctxbase).resolve(at_props['base'])", "                return ctxbase"),
    ('P21', M, "                return Link(ctxbase).resolve(at_props['base'])", "                return at_props['base']"),
    ('P21', M, "        at_props = self._parent.at_props if self._parent else self.at_props", "        at_props = self.at_props"),
    ('P21', M, "        res._fname = pathlib.Path(fname)\n", "        res._fname = pathlib.Path(pathlib.Path(fname).name)\n"),
    ('P21', M, "                location = md_url or url\n                # The", "                location = url\n                # The"),
    ('P21', M, "                    md.setdefault('@base', location)\n                    return", "                    return"),
    ('P21', M, "                            md.setdefault('@base', location)\n", ""),
    ('P21', M, "            TableGroup(at_props={'base': self.t.base}, tables=self.tables)", "            TableGroup(tables=self.tables)"),
    ('P21', M, "        fname = fname or self.url.resolve(self.base)", "        fname = self.url.resolve(self.base)"),
    ('P21', M, "                    zipfname = fpath.parent.joinpath(fpath.name + '.zip')", "                    zipfname = fpath.parent.joinpath(fpath.stem + '.zip')"),
    ('P21', M, "                    zipfname = fpath.parent.joinpath(fpath.name + '.zip')", "                    zipfname = pathlib.Path(fpath.name + '.zip')"),
    ('P21', M, "                if fpath and not fpath.exists():", "                if fpath:"),
    ('P21', M, "n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]", "n for n in zipf.namelist() if n.endswith(fpath.name)][0]"),
    ('P21', M, "n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]", "n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][-1]") if False else
    ('P21', M, "n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]", "n for n in zipf.namelist()][0]"),
    ('P21', M, "n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]", "n for n in zipf.namelist() if n.split('/')[-1].lower() == fpath.name][0]"),
    ('P21', M, "                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),\n                            encoding=encoding,", "                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),\n                            encoding='utf-8-sig',"),
    ('P21', M, "                    encoding=encoding,\n                    newline=''))\n            else:", "                    encoding='utf-8-sig',\n                    newline=''))\n            else:"),
    ('P21', M, "                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),\n                            encoding=encoding,\n                            newline=''))", "                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),\n                            encoding=encoding))"),
    ('P21', M, "            if encoding == 'utf-8':\n                encoding = 'utf-8-sig'\n\n            if is_url", "            encoding = 'utf-8-sig'\n\n            if is_url"),
    ('P21', M, "            if is_url(fname):\n", "            if is_url(fname) and not hasattr(self.base, 'joinpath'):\n"),
    ('P21', M, "        if is_url(str(fname)):\n            return cls.from_url(str(fname), data=data)\n        res = cls", "        res = cls"),
]
GOOD = [
    ('P21', M, "            TableGroup(at_props={'base': self.t.base}, tables=self.tables)", "            TableGroup(at_props=self.t.at_props, tables=self.tables)"),
    ('P21', M, "            return (base if base.is_dir() else base.parent) / self.string", "            folder = base if base.is_dir() else base.parent\n            return folder.joinpath(self.string)"),
    ('P21', M, "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))", "        data.setdefault('@base', url._replace(params='', query='', fragment='').geturl())"),
    ('P21', M, "        data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))", "        if '@base' not in data:\n            data['@base'] = '{}://{}{}'.format(url.scheme, url.netloc, url.path)"),
    ('P21', M, "                return Link(ctxbase).resolve(at_props['base'])", "                return urljoin(at_props['base'], ctxbase)"),
    ('P21', M, "        at_props = self._parent.at_props if self._parent else self.at_props", "        at_props = (self._parent or self).at_props"),
    ('P21', M, "        fname = fname or self.url.resolve(self.base)", "        if not fname:\n            fname = self.url.resolve(self.base)"),
    ('P21', M, "                    zipfname = fpath.parent.joinpath(fpath.name + '.zip')", "                    zipfname = pathlib.Path('{}.zip'.format(fpath))"),
    ('P21', M, "zipf.open([\n                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0])", "zipf.open(next(\n                                n for n in zipf.namelist() if pathlib.PurePosixPath(n).name == fpath.name))"),
    ('P21', M, "zipf.open([\n                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0])", "zipf.open(next(\n                                n for n in zipf.namelist() if n.rpartition('/')[2] == fpath.name))"),
    ('P21', M, "            TableGroup(at_props={'base': self.t.base}, tables=self.tables)", "            TableGroup(tables=self.tables, at_props=dict(base=self.t.base))"),
]
