"""trace.py PID harness-name [n]: decisions of the first n paths (debugging aid)"""
import sys, importlib
sys.path.insert(0, '/verif')
from csvwlint.harness import Check
from csvwlint import values
def main():
    pid, rule, n = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 3
    mod = importlib.import_module('checks.' + pid)
    C = Check(pid)
    real = C.explore
    def explore(r, h, **kw):
        if r != rule: return
        kw.update(max_paths=60 + n, partial=True)
        ps = real(r, h, **kw)
        for p in (ps or [])[-n:]:
            print('-----', p.outcome, p.notes[:3])
            for t in p.trail:
                print('   ', str(t[0])[:230], t[1], '->', t[2])
            for o in p.obs[:30]:
                print('   OB', o[0], o[1], str(o[2])[:600])
    C.explore = explore
    C.table = lambda *a, **k: None
    (mod.rules if hasattr(mod, 'rules') else mod.run)(C)
    print(C.broken[:3])
main()
