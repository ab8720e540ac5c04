"""enumeration of the analysed entry points and construction of their abstract arguments"""
from .project import ClassInfo, FuncInfo
from .interp import Val, Interp, EMPTY, const
from .lib import Lib

SELF = ("S", "self", "")


def public_methods(p, c, extra=()):
    """name -> FuncInfo of public methods as seen on class c, incl. inherited project ones"""
    out = {}
    for k in p.mro(c):
        if isinstance(k, str):
            continue
        for n, f in k.methods.items():
            if n.startswith("_") and n not in extra:
                continue
            out.setdefault(n, f)
    return out


def setters(p, c):
    out = {}
    for k in p.mro(c):
        if not isinstance(k, str):
            for n, f in k.setters.items():
                out.setdefault(n, f)
    return out


def make_args(lib, p, f, recv_cls, overrides=None):
    env = {}
    heap = {}
    names = list(f.all_params)
    start = 0
    if f.name == "__new__" and names:
        env[names[0]] = Val(fn=(recv_cls,), types=frozenset(["type"]), ident=frozenset([("C", recv_cls.qual, "")]))
        start = 1
    elif f.kind == "method" and names:
        env[names[0]] = Val(ident=frozenset([SELF]), types=frozenset([recv_cls]), tags=frozenset(["!notnone"]))
        start = 1
    elif f.kind == "class" and names:
        env[names[0]] = Val(fn=(recv_cls,), types=frozenset(["type"]), ident=frozenset([("C", recv_cls.qual, "")]))
        start = 1
    for n in names[start:]:
        env[n] = param(lib, p, f, n)
    if f.vararg:
        env[f.vararg] = Val(ident=frozenset([("P", f.vararg, "")]), deps=frozenset([("param", f.vararg)]),
                            types=frozenset(["tuple"]))
    if f.kwarg:
        # the ** dict itself is a fresh object, its values belong to the caller
        loc = ("F", "kwargs", 0, 0, f.kwarg)
        env[f.kwarg] = Val(ident=frozenset([loc]), deps=frozenset([("param", f.kwarg)]), types=frozenset(["dict"]))
        heap[(loc, "[]")] = Val(ident=frozenset([("P", f.kwarg, "")]), deps=frozenset([("param", f.kwarg)]))
    if overrides:
        env.update(overrides)
    return env, heap


def param(lib, p, f, n):
    ty = EMPTY
    if n in f.annotations:
        ty = lib.annotation_types(p, f.module, f.annotations[n])
    return Val(ident=frozenset([("P", n, "")]), deps=frozenset([("param", n)]), types=ty)


def run_entry(p, lib, f, recv_cls, hooks, overrides=None, facts=EMPTY, assume=None, heap=None, **kw):
    it = Interp(p, lib, hooks=hooks, assume=assume, **kw)
    if recv_cls is not None:
        it.loc_types[SELF] = recv_cls
    env, h = make_args(lib, p, f, recv_cls, overrides)
    if heap:
        h.update(heap)
    rv, rs, raises = it.run(f, env, recv_cls, heap=h, facts=facts)
    it.env0 = env
    return it, rv, rs, raises
