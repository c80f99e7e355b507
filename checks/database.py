"""SQLite as the analysed code sees it: a model of connections, and a reader of SQL statements."""
import re

from .tables import *
from csvwlint.path import _NO
from csvwlint.values import Iter, Native

MODS = ('csvw', 'csvw.metadata', 'csvw.db')
QUOTES = {'`': '`', '"': '"', "'": "'", '[': ']'}
NUMERIC = ('int', 'float', 'decimal', 'bool')
DATES = ('datetime', 'date')


class NotSQL(Exception):
    """The statement cannot be read."""


class Tok:
    def __init__(self, kind, val):
        self.kind, self.val = kind, val     # id | str | num | word | op | param

    def __repr__(self):
        return '{}:{}'.format(self.kind, self.val if isinstance(self.val, str) else show(self.val))

    def key(self):
        return (self.kind, key(self.val))


def plain(v):
    while isinstance(v, Term) and v.op in ('str', 'fmt') and (len(v.args) == 1 or v.args[1] == ''):
        v = v.args[0]
    return v


def parts_of(v):
    if isinstance(v, str):
        return [v]
    v = plain(v)
    if isinstance(v, Term) and v.op == 'cat':
        return [x for a in v.args for x in parts_of(a)]
    return [v]


def unescaped(part, q):
    """The value whose quotes `q` are doubled in `part`, or None"""
    part = plain(part)
    if isinstance(part, Term) and part.op == '.replace' and len(part.args) == 3 \
            and part.args[1:] == (q, q + q):
        return plain(part.args[0])
    return None


def harmless(eng, part):
    """The text of numbers and dates has no quotes and no letters that make up SQL."""
    part = plain(part)
    return eng.path.typ(part) in NUMERIC + DATES


def tokens(eng, sql):
    """(tokens, injected parts) of a statement; NotSQL if its text is not known"""
    res, bad = [], []
    quote, buf = None, None
    for part in parts_of(sql):
        if not isinstance(part, str):
            if isinstance(part, Term) and part.op in ('.join', 'map', 'loop', 'havoc'):
                raise NotSQL('the text of {} is not known'.format(show(part)))
            if quote is None:
                if harmless(eng, part):
                    res.append(Tok('num', part))
                else:
                    bad.append((part, 'outside of quotes'))
                    res.append(Tok('word', '?'))
                continue
            raw = unescaped(part, quote)
            if raw is None:
                if not harmless(eng, part):
                    bad.append((part, 'inside of {} without escaping them'.format(quote)))
                raw = part
            buf.append(raw)
            continue
        i = 0
        while i < len(part):
            c = part[i]
            if quote is not None:
                if c == quote:
                    if part[i + 1:i + 2] == quote and quote != ']':
                        buf.append(quote)
                        i += 2
                        continue
                    val = buf[0] if len(buf) == 1 else (
                        ''.join(buf) if all(isinstance(b, str) for b in buf) else
                        eng.ext.cat(eng, buf))
                    res.append(Tok('str' if quote == "'" else 'id', val))
                    quote = buf = None
                elif buf and isinstance(buf[-1], str):
                    buf[-1] += c
                else:
                    buf.append(c)
                i += 1
                continue
            if c in QUOTES:
                quote, buf = QUOTES[c], []
                i += 1
                continue
            m = re.compile(r'\s+|--[^\n]*|[A-Za-z_]\w*|\d+(\.\d+)?([eE][+-]?\d+)?|<=|>=|<>|!=|==|.').match(part, i)
            t = m.group(0)
            i = m.end()
            if t.isspace() or t.startswith('--'):
                continue
            if t[0].isalpha() or t[0] == '_':
                res.append(Tok('word', t.upper()))
            elif t[0].isdigit():
                res.append(Tok('num', t))
            elif t == '?':
                res.append(Tok('param', '?'))
            elif t == ';':
                continue
            else:
                res.append(Tok('op', t))
    if quote is not None:
        bad.append((sql, 'with an open quote'))
    return res, bad


class Parser:
    def __init__(self, toks):
        self.toks, self.i = toks, 0

    def peek(self, *vals):
        for j, v in enumerate(vals):
            t = self.toks[self.i + j] if self.i + j < len(self.toks) else None
            if t is None or not (t.kind in ('word', 'op', 'param') and t.val == v):
                return False
        return True

    def take(self, *vals):
        if not self.peek(*vals):
            raise NotSQL('{} expected at {}'.format(' '.join(vals), self.toks[self.i:self.i + 3]))
        self.i += len(vals)

    def maybe(self, *vals):
        if self.peek(*vals):
            self.i += len(vals)
            return True
        return False

    def ident(self):
        t = self.toks[self.i] if self.i < len(self.toks) else None
        if t is None or t.kind not in ('id', 'word'):
            raise NotSQL('name expected at {}'.format(self.toks[self.i:self.i + 3]))
        self.i += 1
        return t.val.lower() if t.kind == 'word' else t.val

    def idents(self):
        self.take('(')
        res = [self.ident()]
        while self.maybe(','):
            res.append(self.ident())
        self.take(')')
        return res

    def group(self):
        """tokens up to the closing parenthesis"""
        self.take('(')
        depth, start = 1, self.i
        while depth:
            if self.i >= len(self.toks):
                raise NotSQL('unbalanced parentheses')
            t = self.toks[self.i]
            depth += 1 if t.kind == 'op' and t.val == '(' else -1 if t.kind == 'op' and t.val == ')' else 0
            self.i += 1
        return self.toks[start:self.i - 1]


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '==': '='}


def operand(toks):
    """('num', v) | ('str', v) | ('col', name) | (func, operand) | ('cast', operand, type)"""
    p = Parser(toks)
    if not toks:
        raise NotSQL('empty expression')
    if p.peek('('):
        inner = p.group()
        if p.i == len(toks):
            return operand(inner)
        raise NotSQL('expression {}'.format(toks))
    t = toks[0]
    if len(toks) == 1:
        if t.kind in ('num', 'str'):
            return (t.kind, t.val)
        if t.kind == 'id':
            return ('col', t.val)
    if t.kind == 'op' and t.val in '+-' and len(toks) == 2 and toks[1].kind == 'num':
        return ('num', t.val + toks[1].val if isinstance(toks[1].val, str) else toks[1].val)
    if t.kind == 'word' and p.toks[1:2] and p.toks[1].val == '(':
        p.i = 1
        inner = p.group()
        if p.i != len(toks):
            raise NotSQL('expression {}'.format(toks))
        if t.val == 'CAST':
            ins = [j for j, x in enumerate(inner) if x.kind == 'word' and x.val == 'AS']
            if len(ins) != 1 or len(inner) != ins[0] + 2:
                raise NotSQL('cast {}'.format(inner))
            return ('cast', operand(inner[:ins[0]]), inner[-1].val)
        return (t.val.lower(), operand(inner))
    raise NotSQL('expression {}'.format(toks))


def conditions(toks):
    """A conjunction of comparisons as a list of (left, op, right), columns on the left"""
    depth, cur, res = 0, [], []
    for t in toks + [None]:
        if t is not None and t.kind == 'op' and t.val in '()':
            depth += 1 if t.val == '(' else -1
        if t is None or (depth == 0 and t.kind == 'word' and t.val == 'AND'):
            p = Parser(cur)
            if p.peek('('):
                inner = p.group()
                if p.i == len(cur):
                    res.extend(conditions(inner))
                    cur = []
                    continue
            ops = [i for i, x in enumerate(cur) if x.kind == 'op' and x.val in FLIP]
            if len(ops) != 1:
                raise NotSQL('condition {}'.format(cur))
            a, op, b = operand(cur[:ops[0]]), cur[ops[0]].val, operand(cur[ops[0] + 1:])
            if has_col(b) and not has_col(a):
                a, op, b = b, FLIP[op], a
            res.append((a, '=' if op == '==' else op, b))
            cur = []
        else:
            cur.append(t)
    return res


def has_col(x):
    return x[0] == 'col' or any(isinstance(y, tuple) and has_col(y) for y in x)


class Created:
    """A parsed CREATE TABLE statement"""
    def __init__(self, toks):
        p = Parser(toks)
        p.take('CREATE')
        self.temp = p.maybe('TEMP') or p.maybe('TEMPORARY')
        p.take('TABLE')
        self.if_not_exists = p.maybe('IF', 'NOT', 'EXISTS')
        self.name = p.ident()
        body = p.group()
        self.columns, self.pk, self.fks, self.checks, self.unique = [], None, [], [], []
        items, cur, depth = [], [], 0
        for t in body:
            if t.kind == 'op' and t.val in '()':
                depth += 1 if t.val == '(' else -1
            if t.kind == 'op' and t.val == ',' and depth == 0:
                items.append(cur)
                cur = []
            else:
                cur.append(t)
        items.append(cur)
        for item in items:
            self.item(Parser(item))

    def item(self, p):
        if p.maybe('CONSTRAINT'):
            p.ident()
        if p.maybe('PRIMARY', 'KEY'):
            self.pk = p.idents()
        elif p.maybe('FOREIGN', 'KEY'):
            cols = p.idents()
            self.references(p, cols)
        elif p.maybe('CHECK'):
            self.checks.extend(conditions(p.group()))
        elif p.maybe('UNIQUE'):
            self.unique.append(p.idents())
        else:
            self.column(p)
        if p.i < len(p.toks):
            raise NotSQL('surplus {}'.format(p.toks[p.i:]))

    def references(self, p, cols):
        p.take('REFERENCES')
        table = p.ident()
        ref = p.idents() if p.peek('(') else None
        while p.peek('ON'):
            p.i += 2
            if not (p.maybe('CASCADE') or p.maybe('RESTRICT') or p.maybe('SET', 'NULL') or p.maybe(
                    'NO', 'ACTION')):
                raise NotSQL('foreign key action')
        if p.maybe('DEFERRABLE'):
            p.maybe('INITIALLY', 'DEFERRED')
        self.fks.append((cols, table, ref))

    def column(self, p):
        name = p.ident()
        typ = ''
        if p.i < len(p.toks) and p.toks[p.i].kind == 'word' and p.toks[p.i].val not in (
                'NOT', 'CHECK', 'PRIMARY', 'REFERENCES', 'UNIQUE', 'NULL'):
            typ = p.ident().upper()
        notnull = False
        while p.i < len(p.toks):
            if p.maybe('NOT', 'NULL'):
                notnull = True
            elif p.maybe('NULL'):
                pass
            elif p.maybe('CHECK'):
                self.checks.extend(conditions(p.group()))
            elif p.maybe('PRIMARY', 'KEY'):
                self.pk = [name]
            elif p.maybe('UNIQUE'):
                self.unique.append([name])
            elif p.peek('REFERENCES'):
                self.references(p, [name])
            else:
                raise NotSQL('column constraint {}'.format(p.toks[p.i:]))
        self.columns.append((name, typ, notnull))


class Inserted:
    def __init__(self, toks):
        p = Parser(toks)
        p.take('INSERT')
        if p.maybe('OR'):
            raise NotSQL('INSERT OR ...')
        p.take('INTO')
        self.table = p.ident()
        self.columns = p.idents() if p.peek('(') else None
        p.take('VALUES')
        vals = p.group()
        self.nparams = len([t for t in vals if t.kind == 'param'])
        if [t for t in vals if t.kind != 'param' and t.val != ','] or p.i < len(toks):
            raise NotSQL('values {}'.format(vals))


def statement(eng, ev):
    """(kind, tokens, injected parts) of an execute event"""
    toks, bad = tokens(eng, ev.args[1] if len(ev.args) > 1 else '')
    kind = toks[0].val if toks and toks[0].kind == 'word' else '?'
    return kind, toks, bad


class Server:
    """All SQL goes through eng.path.events named 'sql' with args
    (connection, sql, params or rows or None, many)"""
    def __init__(self, eng, answer=None, fails=None):
        self.eng, self.answer, self.fails = eng, answer, fails
        self.n = 0

        def connect(e, a, k):
            self.n += 1
            ev = e.event('connect', a, k)
            e.maybe_raise('connect', a, ev)
            ev.result = self.conn('conn#{}'.format(self.n))
            return ev.result
        eng.ext_overrides['sqlite3.connect'] = connect
        eng.unroll = max(eng.unroll or 0, 30)
        eng.injective = {'translate'}

    def conn(self, name):
        eng = self.eng
        c = Sym(name, truthy=True, notnone=True, ext='sqlite3.Connection')

        def meth(what):
            def f(e, a, k):
                e.event('db.' + what, [c] + list(a), k)
            return f

        def enter(e, a, k):
            e.event('db.enter', [c])
            return c

        def exit_(e, a, k):
            e.event('db.exit', [c] + list(a))
            e.event('db.rollback' if a and a[0] is not None else 'db.commit', [c])
            return False
        c.methods.update(
            {x: meth(x) for x in ('commit', 'close', 'rollback', 'create_function')},
            execute=lambda e, a, k: self.execute(c, a, k, False),
            executemany=lambda e, a, k: self.execute(c, a, k, True),
            executescript=lambda e, a, k: self.execute(c, a, k, False),
            cursor=lambda e, a, k: self.cursor(c),
            __enter__=enter, __exit__=exit_)
        return c

    def cursor(self, c, result=()):
        cu = Sym('cursor({}#{})'.format(c.name, len(self.eng.path.events)), truthy=True, notnone=True)
        state = {'result': result}

        def ex(many):
            def f(e, a, k):
                state['result'] = self.execute(c, a, k, many, raw=True)
                cu.attrs['description'] = self.description(state['result'])
                return cu
            return f

        def rows(e, a, k):
            return e.VL([tuple(r) for r in (state['result'] or {}).get('rows', ())])
        cu.methods.update(
            execute=ex(False), executemany=ex(True), fetchall=rows,
            fetchone=lambda e, a, k: (list((state['result'] or {}).get('rows', ())) or [None])[0],
            close=lambda e, a, k: None)
        cu.attrs['description'] = self.description(result)
        cu.methods['__iter__'] = rows
        return cu

    def description(self, result):
        if not result:
            return None
        return tuple((c,) + (None,) * 6 for c in result['columns'])

    def execute(self, c, a, k, many, raw=False):
        e = self.eng
        data = a[1] if len(a) > 1 else k.get('parameters')
        if many:
            rows = thaw_items(data)
            if rows is None:
                it = e.get_iter(data)
                rows = []
                while True:
                    try:
                        rows.append(e.next_value(it))
                    except StopIteration:
                        break
            data = e.VL(rows)
        ev = e.event('sql', [c, a[0], data, many])
        if self.fails is not None:
            x = self.fails(e, ev)
            if x:
                ev.raised = True
                e.raise_ext(x, ('failed',), origin='sqlite3')
        result = self.answer(e, ev) if self.answer else None
        return result if raw else self.cursor(c, result)


def sql_events(eng, start=0):
    return [e for e in eng.path.events[start:] if e.name == 'sql']


def sql_statement(eng, ev):
    toks, bad = tokens(eng, ev.args[1])
    kind = toks[0].val if toks and toks[0].kind == 'word' else '?'
    return kind, toks, bad


def names(eng, name, n):
    """different, non-empty names"""
    res = distinct(eng, name, n)
    for x in res:
        eng.path.assume(x, True)
    return res


def translator():
    def f(e, a, k):
        args = list(a) + [k[x] for x in ('column',) if x in k]
        if 'table' in k:
            args.insert(0, k['table'])
        return T('translate', *[n for n in args if n is not None], typ='str')
    return Native('translate', f)


def tr(*names):
    return T('translate', *names, typ='str')


def column(eng, name, number=1, **kw):
    dt = kw.pop('datatype', None)
    if isinstance(dt, str):
        dt = {'base': dt}
    if isinstance(dt, dict):
        dt = mk(eng, 'csvw.metadata.Datatype', **dt)
    return mk(eng, 'csvw.metadata.Column', name=name, _number=number, datatype=dt, **kw)


def table(eng, url, cols, pk=None, fks=(), **kw):
    """fks: (columns, target url, target columns)"""
    link = find(eng, 'csvw.metadata.Link')
    t = mk(eng, 'csvw.metadata.Table', url=mk(eng, 'csvw.metadata.Link', string=url), **kw)
    fkeys = []
    for child, target, parent in fks:
        ref = mk(eng, 'csvw.metadata.Reference',
                 resource=mk(eng, 'csvw.metadata.Link', string=target),
                 columnReference=eng.VL(list(parent)))
        fkeys.append(mk(eng, 'csvw.metadata.ForeignKey', columnReference=eng.VL(list(child)),
                        reference=ref))
    s = mk(eng, 'csvw.metadata.Schema', _parent=t, columns=eng.VL(cols),
           primaryKey=eng.VL(list(pk)) if pk is not None else None, foreignKeys=eng.VL(fkeys))
    for c in cols:
        c.attrs['_parent'] = s
    t.attrs['tableSchema'] = s
    return t


def group(eng, tables, **kw):
    tg = mk(eng, 'csvw.metadata.TableGroup', tables=eng.VL(tables), **kw)
    for t in tables:
        t.attrs['_parent'] = tg
    return tg


def database(eng, tg, fname=None, translate=None, **kw):
    return eng.call(find(eng, 'csvw.db.Database'), [tg], dict(
        kw, fname=fname, **({} if translate is None else {'translate': translate})))
