"""diagnostic: statements of the package never reached by the abstract interpreter (python3 tools/coverage.py)"""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import interp  # noqa: E402
from sa.core import Ctx, Result  # noqa: E402
from sa import entry as E  # noqa: E402

SEEN = set()
orig = interp.Interp.stmt


def stmt(self, n, st):
    SEEN.add((self.frame.func.module.rel, n.lineno, n.col_offset))
    return orig(self, n, st)


interp.Interp.stmt = stmt


def one(ctx, item):
    c, m, f = item
    SEEN.clear()
    res = Result()
    it, rv, rs, ra = E.run_entry(ctx.p, ctx.lib, f, c, [])
    res.cov["seen"] = set(SEEN)
    if rs is None:
        res.cov["noreturn"] = {f"{c.name if c else str()}:{f.short}"}
    return res


if __name__ == "__main__":
    ctx = Ctx()
    items = []
    for c in ctx.p.all_classes():
        for k in ctx.p.mro(c):
            if not isinstance(k, str):
                for m, f in k.methods.items():
                    items.append((c, m, f))
    for mod in ctx.p.modules.values():
        for f in mod.functions.values():
            items.append((None, f.name, f))
    r = ctx.pmap(one, items)
    print("never return:", sorted(r.cov.get("noreturn", ())))
    tot = miss = 0
    for mod in ctx.p.modules.values():
        bad = []
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.FunctionDef,)):
                for s in ast.walk(n):
                    if isinstance(s, ast.stmt) and s is not n and not isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                        tot += 1
                        if (mod.rel, s.lineno, s.col_offset) not in r.cov["seen"]:
                            bad.append(s.lineno)
        miss += len(set(bad))
        if bad:
            print(mod.rel, sorted(set(bad)))
    print(tot, miss)
