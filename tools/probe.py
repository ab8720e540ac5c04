"""generates candidates for sa/spec/refused.json: which constant option/argument values are refused on all paths
(python3 tools/probe.py > /tmp/probe.jsonl); the candidates are reviewed by hand before they become the specification"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.core import Ctx, Result  # noqa: E402
from sa import entry as E  # noqa: E402
from sa.rules import common as C  # noqa: E402
from sa.interp import const  # noqa: E402

PROBES = [None, "?invalid", -1, 0, 1.5, -0.5]


def one(ctx, item):
    cn, m, kind, names = item
    p = ctx.p
    c = ctx.cls(cn) if cn else None
    f = E.public_methods(p, c, extra=("__init__", "__call__"))[m] if c else next(
        g for g in ctx.public_functions() if g.name == m)
    res = Result()
    out = res.cov.setdefault("r", set())
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [])
    if rs is None:
        out.add((cn, m, kind, "*", "NEVER RETURNS"))
        return res
    for nm in names:
        for v in PROBES:
            if kind == "arg":
                it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], overrides={nm: const(v)})
            else:
                it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], heap={(E.SELF, nm): const(v)})
            if rs is None:
                out.add((cn, m, kind, nm, v))
    return res


if __name__ == "__main__":
    ctx = Ctx()
    items = []
    for c in ctx.public_classes(exclude=set(C.EXPERIMENTAL) | set(C.SOLVER)):
        for m, f in E.public_methods(ctx.p, c, extra=("__init__", "__call__")).items():
            if f.abstract or f.is_property:
                continue
            own = list(f.user_params)
            for n in own:
                items.append((c.name, m, "arg", [n]))
            if m == "fit" or (m in ("__call__", "evaluate") and C.is_kernel(ctx.p, c)):
                for n in C.ctor_params(ctx.p, c):
                    items.append((c.name, m, "opt", [n]))
    for f in ctx.public_functions():
        for n in f.user_params:
            items.append((None, f.name, "arg", [n]))
    items.sort(key=lambda i: not str(i[0]).startswith(("EDMD", "TSCS")))
    print(len(items), file=sys.stderr)
    r = ctx.pmap(one, items)
    for x in sorted(r.cov["r"], key=str):
        print(json.dumps(x))
