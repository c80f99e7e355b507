"""No data value or name is ever interpreted as SQL."""
import ast
import os

from .database import *
from csvwlint.harness import REPO

ASSUMPTIONS = ['the bounds of a datatype are numbers or dates (property P09)',
               'a name is any text; in SQLite a quote inside of a quoted name is doubled']
EXECUTE = ('execute', 'executemany', 'executescript')


def differ(eng, a, b):
    eng.path.assume(T('eq', a, b, typ='bool'), False)


def world(eng):
    """parent <- child, child has a list-valued foreign key and another foreign key; all names are
    arbitrary"""
    P, Cc = S('parent', 'str', notnone=True), S('child', 'str', notnone=True)
    differ(eng, P, Cc)
    pid, val = distinct(eng, 'pcol', 2)
    cid, ref, refs, lst = distinct(eng, 'ccol', 4)
    for s in [P, Cc, pid, val, cid, ref, refs, lst]:
        eng.path.assume(s, True)
    for t in (P, Cc):
        differ(eng, eng.ext.cat(eng, [Cc, '_', P]), t)
    a, b = eng.ext.cat(eng, [Cc, '_', cid]), eng.ext.cat(eng, [P, '_', pid])
    for x in (a, b):
        differ(eng, x, 'context')
    differ(eng, a, b)
    dec = S('bound', 'decimal', notnone=True)
    date = S('datebound', 'datetime', notnone=True)
    p = table(eng, P, [
        column(eng, pid, 1, required=True),
        column(eng, val, 2, datatype=dict(base='decimal', minInclusive=dec, maxExclusive=dec))],
        pk=[pid])
    c = table(eng, Cc, [
        column(eng, cid, 1, datatype=dict(base='string', length=S('len', 'int', notnone=True))),
        column(eng, ref, 2), column(eng, refs, 3, separator=' '),
        column(eng, lst, 4, datatype=dict(base='date', minimum=date))],
        pk=[cid], fks=[([ref], P, [pid]), ([refs], P, [pid])])
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    return group(eng, [p, c]), (P, pid, val), (Cc, cid, ref, refs, lst)


def judge(eng, ob, start=0):
    n = 0
    for ev in sql_events(eng, start):
        where = ev.stack[-1] if ev.stack else ev.loc
        try:
            kind, toks, bad = sql_statement(eng, ev)
        except NotSQL as e:
            ob(None, 'statement', str(e))
            continue
        n += 1
        for part, how in bad:
            ob(False, '{} statement'.format(kind), lambda: '{} gets into the statement {}'.format(
                show(part), how))
        if kind == 'INSERT' and any(t.kind in ('num', 'str') for t in toks):
            ob(False, 'INSERT statement', 'a value is part of the statement')
        elif not bad:
            ob(True, '{} statement'.format(kind))
    return n


def write(default):
    def h(eng, ob):
        Server(eng)
        tg, (P, pid, val), (Cc, cid, ref, refs, lst) = world(eng)
        db = database(eng, tg, translate=None if default else translator())
        row1 = eng.VD([(pid, S('v1', 'str', notnone=True)), (val, S('v2', 'decimal', notnone=True))])
        row2 = eng.VD([(cid, S('v3', 'str', notnone=True)), (ref, S('v4', 'str', notnone=True)),
                       (refs, eng.VL([S('v5', 'str', notnone=True), S('v6', 'str', notnone=True)])),
                       (lst, None)])
        start = len(eng.path.events)
        items = eng.VD([(P, eng.VL([row1])), (Cc, eng.VL([row2]))])
        eng.overrides['csvw.metadata.TableGroup.read'] = lambda e, a, k: items
        o = call(eng, db, 'write_from_tg')
        n = judge(eng, ob, start)
        ob(n >= 5 or None, 'write', lambda: 'only {} statements seen; {}'.format(n, o.describe(eng)))
    return h


def read(default):
    def h(eng, ob):
        tg, (P, pid, val), (Cc, cid, ref, refs, lst) = world(eng)
        Server(eng, lambda e, ev: {'columns': [], 'rows': []})
        db = database(eng, tg, translate=None if default else translator())
        start = len(eng.path.events)
        o = call(eng, db, 'read')
        n = judge(eng, ob, start)
        ob(n >= 3 or None, 'read', lambda: 'only {} statements seen; {}'.format(n, o.describe(eng)))
    return h


def select_all(eng, ob):
    """the content of an association table, whatever the context"""
    tg, (P, pid, val), (Cc, cid, ref, refs, lst) = world(eng)
    Server(eng, lambda e, ev: {'columns': [], 'rows': []})
    db = database(eng, tg, translate=translator())
    for t in thaw_items(eng.getattr(db, 'tables')):
        m2m = eng.getattr(t, 'many_to_many')
        for at in [x[1] for x in m2m.d.values()]:
            start = len(eng.path.events)
            conn = eng.call(eng.getattr(db, 'connection'), [], {})
            for ctx in (None, S('context', 'str', notnone=True)):
                call(eng, db, 'select_many_to_many', conn, at, ctx)
            ob(judge(eng, ob, start) >= 2 or None, 'select_many_to_many')


def inventory(C):
    """every function executing SQL was analysed"""
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        for fn in files:
            if not fn.endswith('.py'):
                continue
            tree = ast.parse(open(os.path.join(root, fn), encoding='utf8').read())
            for f in ast.walk(tree):
                if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                            and n.func.attr in EXECUTE:
                        seen = any(k.rsplit('.', 1)[-1] == f.name for k in C.analysed)
                        yield (True if seen else None, '{}:{}'.format(fn, f.name),
                               'statements executed by {} were not analysed'.format(f.name))


def rules(C):
    for default in (True, False):
        d = 'default' if default else 'translated'
        C.explore('write-' + d, write(default), mods=MODS, min_ok=5,
                  statement='names are quoted and escaped, values bound, in all statements of write()')
        C.explore('read-' + d, read(default), mods=MODS, min_ok=3,
                  statement='names are quoted and escaped, values bound, in all statements of read()')
    C.explore('select', select_all, mods=MODS, min_ok=2)
    C.table('inventory', inventory(C), statement='functions calling execute() are analysed')
