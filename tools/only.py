"""only.py PID rule...: run only these rules of a check (debugging aid; writes no evidence)"""
import sys
import importlib
sys.path.insert(0, __file__.rsplit('/', 2)[0])
from csvwlint.harness import Check  # noqa: E402


def main():
    pid, names = sys.argv[1], sys.argv[2:]
    mod = importlib.import_module('checks.' + pid)
    C = Check(pid)
    real = C.explore
    C.explore = lambda r, h, **kw: real(r, h, **kw) if r in names else None
    C.table = lambda *a, **k: None
    mod.rules(C)
    for v in C.violations.items():
        print('VIOLATION', v)
    print(C.rules[-1] if C.rules else "", len(C.unknown), len(C.violations), 'violations', C.broken[:3])


main()
