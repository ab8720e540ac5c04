"""Caller data is never modified: interprocedural may-alias and effect analysis.

For every public method/function of the three layers every parameter is given an abstract
location.  The body is interpreted together with all resolvable project callees; locations are
propagated through views, slices, attribute access, containers, constructors that share memory,
dispatch, closures and loops.  A violation is any in-place effect (item/slice assignment, augmented
assignment, mutating method, out=/overwrite_a=/copy=False/inplace=True, attribute rebinding) that may
reach a location owned by the caller.
"""
import ast
from ..core import Finding, Result
from .. import entry as E
from ..project import ClassInfo, FuncInfo

RULE = ("no write effect of a public entry point may reach memory or metadata of an argument "
        "(or, for query methods of the data structures, of the receiver)")
ASSUMPTIONS = [
    "numpy/pandas/scipy/sklearn calls behave as in the library model sa/lib.py (views vs copies, mutators)",
    "user supplied estimators/kernels/callables do not modify their arguments (every shipped one is an entry itself)",
]
MINIMUM = {"entry_points": 350, "functions_analysed": 350, "write_effects_examined": 300}

# parameters that are documented outputs / objects the call exists to change, with the reason
ALLOWED_PARAM = {
    ("EDMDWindowPrediction.adapt_model", "estimator"): "purpose of the method: it equips the given model",
    ("mat_dot_diagmat", "out"): "documented output", ("diagmat_dot_mat", "out"): "documented output",
    ("remove_numeric_noise_symmetric_matrix", "matrix"): "internal helper that works in place, judged at its callers",
}
EXCLUDE = {
    "SystemSolveStrategy": "solver callbacks: they fill the output tensor they are handed",
    "MahalanobisKernel": "experimental, marked TODO, not importable from the public layers",
    "DmapKernelVariable": "experimental, not importable from the public layers",
    "DiffusionMapsVariable": "experimental, not importable from the public layers",
}
# data structures: methods that are documented/tested as in-place relabelling of the receiver
RECEIVERS = {"TSCDataFrame", "TSCAccessor", "PCManifold"}
INPLACE_OK = {
    ("TSCAccessor", "shift_time_by_delta"), ("TSCAccessor", "shift_time_per_time_series"),
    ("TSCAccessor", "normalize_time"), ("TSCAccessor", "assign_ids_sequential"),
    ("TSCDataFrame", "set_index"), ("PCManifold", "optimize_parameters"),
}
EXTRA = ("__init__", "__new__", "__call__", "__getitem__", "__array_finalize__", "__reduce__")


def consts(v):
    out = set(v.const or ())
    for e in v.elems or ():
        out |= set(e.const or ("?",))
    return out


class Hook:
    def __init__(self, res, entry, protect_self):
        self.res, self.entry, self.ps = res, entry, protect_self

    def owned(self, l):
        if l[0] == "P":
            return l[1]
        if self.ps:
            if l == E.SELF:
                return "self"
            if l[0] == "A" and l[1] == E.SELF:
                return "self." + l[2]
        return None

    def label(self, it, attr, labels, node):
        """the mandatory level names of the data structure written onto a caller's index object:
        one construct, whatever the entry point through which it is reached"""
        self.res.count("label_writes")
        where = f"{it.frame.func.module.rel}:{getattr(node, 'lineno', '?')}"
        self.res.add(Finding("labels|" + ",".join(labels), f"constructing a time series collection writes the names "
                             f"{labels} onto the index object of the caller's frame", where, "P01-labels",
                             [f.short for f in it.chain()]))

    def report(self, it, l, how, node):
        owner = self.owned(l)
        fr = it.frame
        where = f"{fr.func.module.rel}:{getattr(node, 'lineno', '?')}"
        key = f"mutates|{self.entry}|{owner}|{fr.func.short}|{how}"
        path = [f"{f.short} ({f.module.rel})" for f in it.chain()]
        self.res.add(Finding(key.replace(" ", ""), f"{self.entry} modifies its argument '{owner}' in place "
                             f"({how} in {fr.func.short})", where, "P01-mutation", path))

    def on_mutate(self, it, val, how, node, state, **k):
        self.res.count("write_effects_examined")
        if "equal" in how:
            return
        for l in val.mem:
            if self.owned(l) and not self.allowed(l):
                self.report(it, l, how, node)

    def allowed(self, l):
        return (self.entry, self.owned(l)) in ALLOWED_PARAM

    def on_setattr(self, it, base, attr, val, node, state, prop):
        self.res.count("write_effects_examined")
        if prop is not None:
            return
        if attr == "index" and "!equal-index" in val.tags:
            return  # normalised but equal index
        labels = sorted(str(c) for c in consts(val)) if attr in ("names", "name") else []
        for l in base.ident:
            if self.owned(l) and not self.allowed(l):
                if labels in (["ID", "time"], ["feature"]):
                    self.label(it, attr, labels, node)
                    continue
                if l == E.SELF and attr not in ("index", "columns", "values", "iloc", "loc", "at", "iat"):
                    continue
                self.report(it, l, f".{attr}=", node)

    def on_delattr(self, it, base, attr, node, state):
        for l in base.ident:
            if l[0] == "P":
                self.report(it, l, f"del .{attr}", node)


def entries(ctx):
    out = []
    for c in ctx.public_classes(EXCLUDE):
        for m, f in E.public_methods(ctx.p, c, extra=EXTRA).items():
            out.append((c, m, f))
    for f in ctx.public_functions():
        out.append((None, f.name, f))
    return out


def one(ctx, item):
    c, m, f = item
    res = Result()
    name = f"{c.name}.{m}" if c else m
    ps = bool(c) and c.name in RECEIVERS and (c.name, m) not in INPLACE_OK and not m.startswith("__")
    it, rv, rs, ra = E.run_entry(ctx.p, ctx.lib, f, c, [Hook(res, name, ps)])
    res.count("entry_points")
    res.count("calls_resolved", it.ncalls)
    res.cov["functions_analysed"] = {x.qual for x in it.visited}
    if f.user_params:
        res.sample(f"{name}({', '.join(f.user_params)})")
    return res


def run(ctx):
    es = entries(ctx)
    # long ones first
    es.sort(key=lambda e: 0 if e[0] is not None and e[0].name.startswith("EDMD") else 1)
    return ctx.pmap(one, es)


SELF = '''
import numpy as np
class A:
    def f(self, X):
        Y = np.asarray(X)
        return self._g(Y[2:])
    def _g(self, Z):
        Z -= Z.mean()
        return Z
    def ok(self, X):
        Y = np.array(X)
        Y -= 1
        return Y
'''


def selftest(ctx):
    from ..testkit import tiny
    out = {}
    p, lib = tiny(SELF)
    c = p.cls("A")
    for m, expect in (("f", True), ("ok", False)):
        r = Result()
        E.run_entry(p, lib, c.methods[m], c, [Hook(r, "A." + m, False)])
        out[f"detects:{m}" if expect else f"silent:{m}"] = bool(r.findings) == expect
    return out
