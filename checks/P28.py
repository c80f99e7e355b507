"""Writing a database is safe."""
from csvwlint.path import _NO

from .P27 import *

ASSUMPTIONS = ['closing a connection discards what is not committed', 'SQLite ignores PRAGMA '
               'foreign_keys inside of a transaction, and sqlite3 opens one before INSERT']
REMOVE = ('.unlink', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', '.rename', '.replace',
          'shutil.move', '.write_bytes', '.write_text', '.touch', 'open', 'shutil.copy',
          'shutil.copyfile', 'os.truncate')
GONE = ('.unlink', 'os.remove', 'os.unlink', 'os.rename', '.rename', 'shutil.move')


def files(eng, fname, exists):
    is_it = lambda v: plainpath(v) == key(fname)  # noqa: E731
    gone = []

    def ex(e, a, k):
        return (exists and not gone) if a and is_it(a[0]) else _NO
    for n in ('.exists', '.is_file', 'os.path.exists', 'os.path.isfile'):
        eng.ext_overrides[n] = ex

    def rm(name):
        def f(e, a, k):
            if not (a and is_it(a[0])):
                return _NO
            e.event('file', [name] + list(a))
            if not exists and name in GONE and not e.path.truth(k.get('missing_ok', False)):
                e.raise_ext('FileNotFoundError', ('no such file',))
            gone.append(name)
        return f
    for n in REMOVE:
        if n != 'open':
            eng.ext_overrides[n] = rm(n)


def plainpath(v):
    while isinstance(v, Term) and v.op in ('str', 'pathlib.Path', 'os.fspath', '.resolve', '.absolute',
                                           '.as_posix', 'os.path.abspath') and len(v.args) == 1:
        v = v.args[0]
    return key(v)


def safe(what):
    def h(eng, ob):
        P = eng.path
        tg, x, (a, b, c, d) = world(eng)
        pk, f, g = val('pk'), val('f'), val('g')
        child = [eng.VD([(a, val('pk{}'.format(i))), (b, val('b{}'.format(i))), (d, eng.VL([f]))])
                 for i in range(2)]
        items = {'parent': eng.VL([eng.VD([(x, f)])]), 'child': eng.VL(child)}
        n = 3
        if what == 'normal':        # with or without items of list-valued keys, or rows
            some = P.choose('rows', 4)
            if some == 1:
                items['child'] = eng.VL([eng.VD([(a, val('pk')), (b, val('b')), (d, eng.VL([]))])])
                n = 2
            elif some == 2:
                del items['child']
                n = 1
            elif some == 3:
                items = {'child': eng.VL([eng.VD([(a, val('pk')), (b, val('b'))])])}
                n = 1
        bad = None
        if what == 'failure':
            bad = [f, val('b0'), val('b1'), d][P.choose('which row fails', 4)]
        memory = P.choose('in memory', 2) == 0
        fname = S('fname', 'path' if memory or P.choose('name given as path', 2) == 0 else 'str', truthy=True)
        exists = not memory and P.choose('the file exists', 2) == 0
        force = P.choose('force', 2) == 0
        fromtg = P.choose('from the table group', 2) == 0

        def fails(e, ev):
            rows = thaw_items(ev.args[2]) if ev.args[3] else [ev.args[2]]
            if bad is not None and ev.args[2] is not None and any(
                    key(v) == key(bad) for r in rows or [] if r is not None for v in thaw_items(r) or []):
                return 'sqlite3.IntegrityError'
        Server(eng, fails=fails)
        files(eng, fname, exists)
        db = database(eng, tg, fname=None if memory else fname, translate=translator())
        start = len(eng.path.events)
        if fromtg:
            eng.overrides['csvw.metadata.TableGroup.read'] = lambda e, a, k: eng.VD(list(items.items()))
            o = call(eng, db, 'write_from_tg', _force=force)
        else:
            o = call(eng, db, 'write', force=force, **items)
        evs = eng.path.events[start:]
        touched = [e for e in evs if e.name in ('file', 'connect') or e.name == 'sql']
        if exists and not force:
            ob(o.is_exc(eng, 'ValueError'), 'existing file', lambda: 'writing to an existing file '
               'without force ' + o.describe(eng))
            ob(not touched, 'existing file touched', lambda: 'the file is touched: {}'.format(
                touched[0].name))
            return
        if exists:
            i = [e.n for e in evs if e.name == 'file' and e.args[0] in GONE]
            j = [e.n for e in evs if e.name == 'connect']
            ob(bool(i and j) and i[0] < j[0] and len(i) == 1, 'file replaced', 'with force, the existing '
               'file is not removed before connecting')
        failed = [e for e in evs if getattr(e, 'raised', None)]
        if bad is not None:
            ob(not o.returned, 'failed insert', lambda: 'an insert fails, but write ' + o.describe(eng))
        else:
            ob(o.returned, 'write', lambda: 'writing ' + o.describe(eng))
        connections(eng, ob, evs, memory)
        sqls = []
        for e in evs:
            if e.name == 'sql':
                try:
                    sqls.append((e, sql_statement(eng, e)))
                except NotSQL as x_:
                    ob(None, 'statement', str(x_))
                    return
        inserts = [e for e, (kind, toks, _) in sqls if kind == 'INSERT']
        on = []
        for e, (kind, toks, _) in sqls:
            if kind == 'PRAGMA' and any(t.val == 'FOREIGN_KEYS' for t in toks):
                on.append((e, toks[-1].val in ('ON', '1', 'TRUE', 'YES') or (
                    toks[-1].val == ')' and toks[-2].val in ('ON', '1', 'TRUE', 'YES'))))
        for e in inserts:
            before = [s for x_, s in on if x_.n < e.n and key(x_.args[0]) == key(e.args[0])]
            ob(bool(before) and before[-1], 'foreign keys', 'rows are inserted while foreign keys '
               'are not enforced')
            break
        if inserts:
            first = inserts[0].n
            ob(not [1 for x_, s in on if x_.n > first], 'foreign keys', 'the enforcement of foreign '
               'keys is changed after inserting')
        ob(len(inserts) >= (1 if bad is not None else n), 'inserts', lambda: '{} insert statements'.format(len(inserts)))
        if o.returned and inserts:
            last = inserts[-1]
            ob(any(e.name == 'db.commit' and e.n > last.n and key(e.args[0]) == key(last.args[0])
                   for e in evs), 'commit', 'what is inserted is not committed')
            closed = [e.n for e in evs if e.name == 'db.close']
            ob(not closed or closed[0] > last.n, 'commit', 'closed before inserting')
        if not memory:
            con = [e for e in evs if e.name == 'connect']
            ob(all(plainpath(e.args[0]) == key(fname) for e in con) and bool(con), 'database file', lambda:
               'connected to {}'.format([show(e.args[0]) for e in con]))
    return h


def connections(eng, ob, evs, memory):
    cons = [e for e in evs if e.name == 'connect' and not getattr(e, 'raised', None)]
    for c in cons:
        n = len([e for e in evs if e.name == 'db.close' and key(e.args[0]) == key(c.result)])
        if memory:
            ob(n == 0, 'connection', 'the connection of an in-memory database is closed')
        else:
            ob(n > 0, 'connection', lambda: 'the connection opened at {} is not closed'.format(c.loc))


def reading_closes(eng, ob):
    P = eng.path
    tg, x, cols = world(eng)
    memory = P.choose('in memory', 2) == 0
    fname = S('fname', 'path')
    fail = P.choose('reading fails', 2) == 0
    Server(eng, lambda e, ev: {'columns': [], 'rows': []},
           fails=lambda e, ev: 'sqlite3.OperationalError' if fail else None)
    files(eng, fname, True)
    db = database(eng, tg, fname=None if memory else fname, translate=translator())
    start = len(eng.path.events)
    o = call(eng, db, 'read')
    evs = eng.path.events[start:]
    ob(o.returned if not fail else o.is_exc(eng, 'sqlite3.OperationalError'), 'read', lambda: o.describe(eng))
    connections(eng, ob, evs, memory)
    ob(not [e for e in evs if e.name == 'file'], 'read', 'the file is touched by reading')


def same_connection(eng, ob):
    """an in-memory database keeps its data: writing and reading use the same connection"""
    tg, x, (a, b, c, d) = world(eng)
    Server(eng, lambda e, ev: {'columns': [], 'rows': []})
    db = database(eng, tg, translate=translator())
    start = len(eng.path.events)
    call(eng, db, 'write', child=eng.VL([eng.VD([(a, val('v'))])]))
    call(eng, db, 'read')
    sq = sql_events(eng, start)
    ob(len({key(e.args[0]) for e in sq}) == 1 and len(sq) > 3, 'in memory', 'an in-memory database is '
       'read from another connection')


def rules(C):
    C.explore('write', safe('normal'), mods=MODS, min_ok=30, statement='no overwrite without force, keys '
              'enforced before inserting, committed after it, connections closed')
    C.explore('failure', safe('failure'), mods=MODS, min_ok=30,
              statement='a failed insert raises and connections are closed')
    C.explore('read', reading_closes, mods=MODS, min_ok=4, statement='connections are closed')
    C.explore('memory', same_connection, mods=MODS, min_ok=1)
