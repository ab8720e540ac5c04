"""Constructor options are kept as given.

For every public estimator/kernel class the constructor is interpreted with one abstract location per
option; the attribute of the same name must hold exactly that location when the constructor returns.
Every other public method is interpreted and each effect (attribute rebinding, deletion, in-place
change of the object or of something reached through it) is matched against the option attributes.
"""
import ast
from ..core import Finding, Result
from .. import entry as E
from . import common as C

RULE = ("after construction self.<option> is the given object; no other operation rebinds it or changes it in place")
ASSUMPTIONS = ["scikit-learn base classes keep the parameter protocol (set_params is the only legal way to change options)"]
MINIMUM = {"options": 90, "entry_points": 300}
DERIVED = {("RadialBasisKernel", "required_metric"): "abstract base, the value lives in the distance algorithm's metric"}


def same(v, loc, integral):
    """v is the object at loc, or its value-preserving conversion to a builtin number"""
    if v.ident == frozenset([loc]):
        return "~other" not in v.tags
    if f"!same:{loc!r}" in v.tags:
        return "int()" not in v.tags or loc[-2 if loc[0] == "P" else -1] in integral
    return False


def integral_params(f):
    """options declared as integers: int() does not change them"""
    out = set()
    for n in f.user_params:
        a = f.annotations.get(n)
        t = ast.unparse(a) if a is not None else ""
        d = f.defaults.get(n)
        if ("int" in t and "float" not in t) or (not t and isinstance(d, ast.Constant) and type(d.value) is int):
            out.add(n)
    return out


class Hook:
    def __init__(self, res, name, params, integral):
        self.res, self.name, self.params, self.integral = res, name, params, integral

    def add(self, it, attr, how, node):
        self.res.add(Finding(f"overwrites|{self.name}|{attr}", f"{self.name} changes the constructor option '{attr}' ({how})",
                             C.where(it, node), "P02-option-overwritten", C.chain(it)))

    def on_setattr(self, it, base, attr, val, node, state, prop):
        self.res.count("effects_examined")
        if prop is not None:
            return
        for l in base.ident:
            if l == E.SELF and attr in self.params:
                # storing the very same object/value again is no change
                if same(val, ("A", E.SELF, attr), self.integral):
                    continue
                self.add(it, attr, "rebinds it", node)

    def on_delattr(self, it, base, attr, node, state):
        if E.SELF in base.ident and attr in self.params:
            self.add(it, attr, "deletes it", node)

    def on_mutate(self, it, val, how, node, state, **k):
        self.res.count("effects_examined")
        if "equal" in how:
            return
        for l in val.ident:
            if l[0] == "A" and l[1] == E.SELF and l[2] in self.params:
                self.add(it, l[2], how, node)


def options(p, c):
    """the options that the object keeps: all of an estimator, of other classes (controllers, metrics, systems) the ones that the
    constructor stores directly"""
    ps = C.ctor_params(p, c)
    if C.has_params(p, c):
        return ps
    f = C.init_of(p, c)
    if f is None:
        return []
    stores = [n for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Store)]
    names = [n.attr if isinstance(n, ast.Attribute) else n.id for n in stores]
    kept = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute)
            and isinstance(n.value, ast.Name) and n.value.id == n.targets[0].attr and names.count(n.value.id) == 1}
    return [a for a in ps if a in kept]


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.p.cls(cn)
    res = Result()
    params = set(options(p, c))
    if m == "__init__":
        f = C.init_of(p, c)
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [])
        if rs is None:
            return res
        from ..project import AnalysisBroken
        for a in sorted(params):
            res.count("options")
            v = rs.heap.get((E.SELF, a))
            prop = p.find_method(c, a)
            if v is None:
                if prop is not None or (cn, a) in DERIVED:
                    continue  # derived, read-only
                res.add(Finding(f"notstored|{cn}|{a}", f"{cn}.__init__ does not keep the option '{a}'",
                                f"{f.module.rel}:{f.node.lineno}", "P02-not-stored"))
            elif a == "distance" and C.is_kernel(p, c) and ("param", a) in v.deps:
                # documented: the options of a distance may be given as dictionary, stored is the algorithm
                res.count("converted_options")
            elif prop is not None and not C.has_params(p, c):
                res.count("converted_options")  # the setter of a data structure may convert the value
            elif not same(v, ("P", a, ""), integral_params(f)):
                res.add(Finding(f"altered|{cn}|{a}", f"{cn}.__init__ stores something else than the given option '{a}'",
                                f"{f.module.rel}:{f.node.lineno}", "P02-altered"))
        return res
    f = E.public_methods(p, c, extra=("__call__",))[m]
    res.count("entry_points")
    E.run_entry(p, ctx.lib, f, c, [Hook(res, f"{cn}.{m}", params,
                                       integral_params(C.init_of(p, c)))])
    return res


def classes(ctx):
    return [c for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER})
            if options(ctx.p, c)]


def run(ctx):
    items = []
    for c in classes(ctx):
        items.append((c.name, "__init__"))
        items += [(c.name, m) for m in E.public_methods(ctx.p, c, extra=("__call__",))
                  if m not in ("set_params",)]
    items.sort(key=lambda e: 0 if e[0].startswith("EDMD") else 1)
    return ctx.pmap(one, items)


SRC = """
class A:
    def __init__(self, a, b: int = 1, c=None):
        self.a = a
        self.b = int(b)
        self.c = c or {}
    def fit(self, X):
        self.a = 2 * self.a
        return self
    def ok(self, X):
        self.b = int(self.b)
        self.x_ = self.a
        return self
    def inplace(self, X):
        opts = self.c
        opts["k"] = 1
        return self
"""


def selftest(ctx):
    from ..testkit import tiny
    p, lib = tiny(SRC)
    c = p.cls("A")
    f = c.methods["__init__"]
    _, _, rs, _ = E.run_entry(p, lib, f, c, [])
    ip = integral_params(f)
    out = {f"stored:{a}": same(rs.heap[(E.SELF, a)], ("P", a, ""), ip) == (a != "c") for a in "abc"}
    for m, bad in (("fit", True), ("ok", False), ("inplace", True)):
        r = Result()
        E.run_entry(p, lib, c.methods[m], c, [Hook(r, "A." + m, {"a", "b", "c"}, ip)])
        out[f"overwrite:{m}"] = bool(r.findings) == bad
    return out
