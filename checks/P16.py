"""Primary keys: every duplicate, and nothing else, is reported."""
import itertools

from .tables import *

ASSUMPTIONS = ['Table.iterdicts gives the rows of the table, as P14 has it',
               'keys of up to three columns and tables of up to four rows are analysed, for all '
               'patterns of equal, different and missing values']


def scenario(npk, nrows, nvals, invalid=False, lists=False):
    def h(eng, ob):
        P = eng.path
        names = ['k{}'.format(i) for i in range(max(npk, 1))]
        pool = {n: distinct(eng, n + 'val', nvals) + [None] for n in names}
        if lists:
            x, y = distinct(eng, 'el', 2)
            pool['k0'] = [eng.VL(list(v)) for v in ((x,), (y,), (x, y), (y, x), ())]

        def patterns(n):
            if lists:
                return list(itertools.product(range(5), repeat=nrows))
            # restricted growth strings over nvals values, -1 standing for a missing value
            out = []
            for c in itertools.product(range(-1, nvals), repeat=nrows):
                seen = []
                for v in c:
                    if v >= 0 and v not in seen:
                        seen.append(v)
                if seen == list(range(len(seen))):
                    out.append(c)
            return out
        cols = {}
        for n in names:
            pats = patterns(n)
            cols[n] = pats[P.choose('values of {}'.format(n), len(pats))]
        bad = P.choose('invalid row', nrows + 1) - 1 if invalid else -1
        rows, keys = [], []
        for i in range(nrows):
            if i == bad:
                rows.append('invalid')
                keys.append(None)
                continue
            row = {n: pool[n][cols[n][i]] for n in names}
            row['other'] = S('other{}'.format(i))
            rows.append(row)
            keys.append(tuple(cols[n][i] for n in names))
        table_rows(eng, lambda t: rows)
        t = simple_table(eng, 't.csv', names + ['other'], names if npk else None)
        log = logger(eng) if P.choose('a logger is given', 2) == 0 else None
        start = len(P.events)
        o = run(eng, lambda: eng.call(eng.getattr(t, 'check_primary_key'), [], {'log': log}))
        dups, seen = [], set()
        for i, k in enumerate(keys):
            if k is None:
                continue
            if npk and k in seen:
                dups.append(i)
            seen.add(k)
        what = 'rows with keys {}: '.format([show(k) for k in keys])
        if dups and log is None:
            ob(o.is_exc(eng, 'ValueError'), 'duplicate', lambda: what + 'the duplicate must be '
               'reported, but ' + o.describe(eng))
            if o.is_exc(eng, 'ValueError'):
                ob(str(dups[0] + 2) in text_of(o.raised.exc), 'duplicate: line', lambda: what +
                   'the message must name line {}: {!r}'.format(dups[0] + 2, text_of(o.raised.exc)))
            return
        logged = events(eng, 'log', start)
        ob(o.returned and same(eng, o.value, not dups) is True, 'result', lambda: what + 'the check '
           'must return {}, but {}'.format(not dups, o.describe(eng)))
        ob(len(logged) == len(dups), 'reports', lambda: what + '{} duplicates are logged instead of '
           '{}'.format(len(logged), len(dups)))
        for e, i in zip(logged, dups):
            ob(str(i + 2) in text_of(e.args[1]), 'reports: line', lambda: what + 'the message must '
               'name line {}: {!r}'.format(i + 2, text_of(e.args[1])))
    return h


def rules(C):
    C.explore('no-key', scenario(0, 2, 1), min_ok=3)
    C.explore('single', scenario(1, 4, 3), min_ok=200)
    C.explore('composite', scenario(2, 3, 2), min_ok=500)
    C.explore('invalid-rows', scenario(1, 3, 2, invalid=True), min_ok=50)
    C.explore('list-values', scenario(1, 2, 2, lists=True), min_ok=20)
    if C.thorough:
        C.explore('triple', scenario(3, 3, 1), min_ok=500)
        C.explore('composite-4', scenario(2, 4, 2), min_ok=1000, max_paths=100000)
        C.explore('single-6', scenario(1, 6, 4), min_ok=1000, max_paths=100000)
