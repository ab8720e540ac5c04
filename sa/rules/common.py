"""shared notions of the rules: which classes/methods form the public surface, roles of methods, owner of locations"""
import ast
from .. import entry as E
from ..project import ClassInfo, FuncInfo

EXPERIMENTAL = {
    "MahalanobisKernel": "experimental, marked TODO, not importable from the public layers",
    "DmapKernelVariable": "experimental, not importable from the public layers",
    "DiffusionMapsVariable": "experimental, not importable from the public layers",
}
SOLVER = {"SystemSolveStrategy": "solver callbacks: they fill the output tensor they are handed"}
FITLIKE = {"fit", "partial_fit", "fit_transform", "fit_predict", "partial_fit_transform"}
# operations whose documented purpose is to (re)configure the object they are called on
CONFIGURE = {
    "setup_spectral_system", "setup_matrix_system",  # equip a linear system with its matrices
    "set_target_coords",                             # select the embedding coordinates
    "preset_target_state",                           # set the target of the regulator
    "adapt_model",                                   # equips the given model
    "optimize_parameters",                           # estimates the parameters of the manifold
    "update", "set_params", "set_index",
}
KERNEL_CALLS = {"__call__", "eval", "evaluate"}


def is_kernel(p, c):
    return p.is_sub(c, "BaseManifoldKernel")


def has_params(p, c):
    """objects with the scikit-learn parameter protocol (get_params / set_params / clone)"""
    return any(b in ("ext:sklearn.base.BaseEstimator", "ext:sklearn.gaussian_process.kernels.Kernel")
               or (isinstance(b, str) and b.startswith("ext:sklearn.")) for b in p.mro(c))


def init_of(p, c):
    f = p.find_method(c, "__init__")
    return f if isinstance(f, FuncInfo) else None


def ctor_params(p, c):
    f = init_of(p, c)
    return list(f.user_params) if f else []


def self_attr(l):
    """the attribute of self that a location belongs to (directly or below), else None"""
    while l[0] == "A":
        if l[1] == E.SELF:
            return l[2]
        l = l[1]
    return None


def where(it, node):
    return f"{it.frame.func.module.rel}:{getattr(node, 'lineno', '?')}"


def chain(it):
    return [f"{f.short} ({f.module.rel})" for f in it.chain()]


def property_names(p, c):
    out = set()
    for k in p.mro(c):
        if not isinstance(k, str):
            for n, f in k.methods.items():
                if f.is_property:
                    out.add(n)
    return out


def state_attrs(p, c):
    """fitted attributes: names ending with '_' that are assigned to self anywhere in the class family"""
    out = set()
    for k in p.mro(c):
        if isinstance(k, str):
            continue
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" \
                    and isinstance(n.ctx, ast.Store) and n.attr.endswith("_") and not n.attr.endswith("__"):
                out.add(n.attr)
    return out


def fitted_heap(p, c, attrs=None):
    """heap facts 'hasattr(self, a) is True' of a fitted object"""
    from ..interp import const
    return {(E.SELF, "has:" + a): const(True) for a in (attrs if attrs is not None else state_attrs(p, c))}


def fitted_parts(p, c, lib):
    """the same for the kernels that the object built itself during its fit"""
    from ..interp import const
    out = {}
    for k in p.mro(c):
        if isinstance(k, str):
            continue
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                for t in lib.built_types(p, c, n.attr):
                    if is_kernel(p, t):
                        for a in state_attrs(p, t):
                            out[(("A", E.SELF, n.attr), "has:" + a)] = const(True)
    return out


def writers(p, c, lib, _cache={}):
    """attribute -> set of public methods (by name) of class c that may rebind it on self"""
    k = (id(p), c.qual)
    if k in _cache:
        return _cache[k]
    out = {}

    class H:
        def on_setattr(self, it, base, attr, val, node, state, prop):
            if E.SELF in base.ident and prop is None:
                out.setdefault(attr, set()).add(self.m)
    for m, f in E.public_methods(p, c, extra=("__init__", "__call__")).items():
        if f.kind == "method" and (m in FITLIKE or m in CONFIGURE or m == "__init__"):
            h = H()
            h.m = m
            E.run_entry(p, lib, f, c, [h])
    _cache[k] = out
    return out
