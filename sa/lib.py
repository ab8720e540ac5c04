"""Models of the builtins and of the numpy/pandas/scipy/sklearn calls used by the tree."""
import ast
import math
from .project import ClassInfo, FuncInfo, Module, dotted
from .project import ext_methods
from .interp import (NAN, is_nan, given, Val, UNK, EMPTY, const, join, Bound, Closure, LibMethod, Partial, Super, LambdaInfo,
                     ARR, Dead)

IMMUT = {"int", "float", "str", "bool", "tuple", "NoneType", "function", "type", "slice", "complex", "module",
         "bytes", "ellipsis", "frozenset"}

NOMEM_ATTRS = {"shape", "ndim", "size", "dtype", "dtypes", "nlevels", "name", "names", "nbytes", "nnz", "empty",
               "__name__", "__doc__", "is_unique", "is_monotonic_increasing", "inferred_type", "kind", "format",
               "__module__", "__qualname__", "itemsize", "hasnans", "flags", "strides", "ids", "levels", "codes"}
SELF_VIEW_ATTRS = {"loc", "iloc", "at", "iat", "flat"}
BUF_ATTRS = {"values", "T", "real", "imag", "array", "data", "base", "A", "indices", "indptr"}
DEEP_ATTRS = {"index", "columns"}

MUTATORS = {"sort", "fill", "put", "resize", "partition", "itemset", "setflags", "append", "extend", "pop",
            "popitem", "remove", "clear", "update", "setdefault", "discard", "reverse", "eliminate_zeros",
            "sum_duplicates", "sort_indices", "setdiag", "prune", "__setitem__", "__delitem__", "add", "insert",
            "byteswap", "difference_update", "intersection_update", "appendleft", "rename_axis_inplace",
            "move_to_end", "setfield", "has_sorted_indices", "__iadd__", "__isub__", "__imul__", "__itruediv__",
            "set_value", "isetitem"}
# pandas methods that share a name with list/set mutators but return new objects
PANDAS_PURE = {"append", "update", "insert", "add", "pop", "clear", "remove"}
PANDAS_MUT = {"insert", "update", "pop", "isetitem"}
VIEW_METHODS = {"to_numpy", "reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal", "get",
                "to_records", "asarray", "__array__", "conj", "conjugate"}
SPARSE_VIEW = {"asfptype", "tocsr", "tocsc", "tocoo", "tolil", "todok", "todia", "tobsr", "asformat"}  # returns self if nothing to convert
COPY_METHODS = {"copy", "deepcopy", "__copy__", "__deepcopy__", "tolist", "flatten"}
ITER_METHODS = {"items", "iterrows", "itertuples", "iteritems", "groupby", "keys"}
FITNAMES = {"fit", "partial_fit", "fit_transform", "fit_predict"}
TRANSFORMISH = {"transform", "fit_transform", "inverse_transform", "partial_fit_transform"}

ALIAS_FUNCS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "ravel", "reshape",
               "transpose", "real", "imag", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "broadcast_to",
               "ascontiguousarray", "asfortranarray", "asarray_chkfinite", "split", "array_split", "hsplit",
               "vsplit", "diagonal", "rot90", "flip", "fliplr", "flipud", "require", "real_if_close", "asmatrix",
               "frombuffer", "sliding_window_view", "as_strided", "as_float_array", "matrix_transpose", "broadcast_arrays"}
MUT_FUNCS0 = {"fill_diagonal", "put", "place", "copyto", "putmask", "shuffle", "put_along_axis"}
SCIPY_SPARSE = {"csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "bsr_matrix", "dia_matrix",
                "csr_array", "coo_array"}

CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time",
         "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getpid", "builtins.id", "builtins.hash"}
NOW = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "pandas.Timestamp.now",
       "pandas.Timestamp.today"}  # datetime labels


class Lib:
    METHODY = {"copy", "fit_transform"}

    def __init__(self, proj):
        self.p = proj
        self.tsc = next((c for c in proj.all_classes() if c.name == "TSCDataFrame"), None)
        self._byname = {}
        if self.tsc is not None:
            for c in proj.mro(self.tsc):
                if isinstance(c, ClassInfo):
                    for n, f in c.methods.items():
                        self._byname.setdefault(n, f)

    # ------------------------------------------------------------------ types
    def immutable(self, v):
        if v.const is not None and v.const and all(not isinstance(c, (list, dict)) for c in v.const):
            return True
        if not v.ident and not v.buf:
            return bool(v.types) and all(t in IMMUT for t in v.types)
        return bool(v.types) and all(t in IMMUT for t in v.types)

    def annotation_types(self, proj, module, a, depth=0):
        r = self._ann(proj, module, a, depth)
        return r if r is not None else EMPTY

    def _ann(self, proj, module, a, depth):
        if depth > 6 or a is None:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return frozenset(["NoneType"])
            if isinstance(a.value, str):
                try:
                    return self._ann(proj, module, ast.parse(a.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp):
            l, r = self._ann(proj, module, a.left, depth + 1), self._ann(proj, module, a.right, depth + 1)
            return l | r if l and r else None
        if isinstance(a, ast.Subscript):
            h = (dotted(a.value) or "").split(".")[-1]
            if h == "Optional":
                r = self._ann(proj, module, a.slice, depth + 1)
                return r | {"NoneType"} if r else None
            if h == "Union":
                out = EMPTY
                els = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
                for e in els:
                    r = self._ann(proj, module, e, depth + 1)
                    if not r:
                        return None
                    out |= r
                return out
            if h == "Literal":
                return frozenset(["str"])
            m = {"list": "list", "List": "list", "dict": "dict", "Dict": "dict", "tuple": "tuple", "Tuple": "tuple",
                 "set": "set", "Callable": "function"}.get(h)
            return frozenset([m]) if m else None
        d = dotted(a)
        if d is None:
            return None
        last = d.split(".")[-1]
        m = {"int": "int", "float": "float", "str": "str", "bool": "bool", "dict": "dict", "list": "list",
             "tuple": "tuple", "ndarray": "ndarray", "DataFrame": "frame", "Series": "series", "Index": "index",
             "MultiIndex": "index", "Callable": "function", "spmatrix": "sparse", "csr_matrix": "sparse",
             "set": "set", "complex": "complex", "number": "float", "timedelta64": "int", "datetime64": "int",
             "ndarray": "ndarray", "array": "ndarray"}
        r = proj.resolve(module, d)
        if isinstance(r, ClassInfo):
            return frozenset([r])
        if isinstance(r, tuple) and r[0] == "global":
            return self._ann(proj, r[1], r[1].globals.get(r[2]), depth + 1)
        if last in m:
            return frozenset([m[last]])
        return None

    def attr_types(self, proj, cls, attr):
        """types of an attribute at entry, from the constructor annotation of that name; only immutable
        or exact numeric types are trusted"""
        for c in proj.mro(cls):
            if isinstance(c, ClassInfo) and "__init__" in c.methods:
                f = c.methods["__init__"]
                if attr in f.annotations:
                    t = self.annotation_types(proj, c.module, f.annotations[attr])
                    if t and all(x in IMMUT or isinstance(x, str) for x in t):
                        return t
        if attr == "_tsc_df" and self.tsc is not None:
            return frozenset([self.tsc])
        return self.built_types(proj, cls, attr)

    _handles = {}

    def handles(self, proj, cls, attr):
        """the functions of the project behind an attribute that holds a callable chosen by the constructor or fit"""
        from . import entry as E
        k = (id(proj), cls.qual)
        if k not in self._handles:
            self._handles[k] = {}
            called, stored = set(), set()
            for c in proj.mro(cls):
                for n in ast.walk(c.node) if isinstance(c, ClassInfo) else ():
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                        called.add(n.func.attr)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        stored.add(n.attr)
            want = {a for a in called & stored if proj.find_method(cls, a) is None}
            got = {}

            class Hook:
                def on_setattr(self, it, base, attr, val, node, state, prop):
                    if attr in want and prop is None and base.ident == frozenset([E.SELF]):
                        got.setdefault(attr, []).append(val)

            ms = E.public_methods(proj, cls, extra=("__init__",))
            for m in ("__init__", "fit", "partial_fit", "fit_transform") if want else ():
                if m in ms:
                    E.run_entry(proj, self, ms[m], cls, [Hook()])
            for a, vs in got.items():
                fs = tuple(f for v in vs for f in v.fn)
                if all(v.fn for v in vs) and any(not isinstance(f, str) for f in fs):
                    self._handles[k][a] = tuple(dict.fromkeys(fs))
        return self._handles[k].get(attr, ())

    _built = {}

    def built_types(self, proj, cls, attr):
        """the class of an attribute that is only ever assigned from constructor calls of one project class"""
        k = (id(proj), cls.qual, attr)
        if k in self._built:
            return self._built[k]
        out, ok = set(), True
        for c in proj.mro(cls):
            if not isinstance(c, ClassInfo):
                continue
            for n in ast.walk(c.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(e, ast.Attribute) and e.attr == attr and isinstance(e.value, ast.Name) \
                                    and e.value.id == "self" and n.value is not None:
                                v = n.value
                                if isinstance(v, ast.Constant) and v.value is None:
                                    continue
                                d = dotted(v.func) if isinstance(v, ast.Call) and e is t else None
                                r = proj.resolve(c.module, d) if d else None
                                if isinstance(r, ClassInfo):
                                    out.add(r)
                                else:
                                    ok = False
        r = frozenset(out) if ok and len(out) == 1 else EMPTY
        self._built[k] = r
        return r

    def type_names(self, it, node, module):
        out = []
        els = node.elts if isinstance(node, (ast.Tuple, ast.List)) else [node]
        for e in els:
            d = dotted(e)
            if d is None:
                return None
            r = it.p.resolve(module, d)
            if isinstance(r, ClassInfo):
                out.append(r)
                continue
            last = d.split(".")[-1]
            m = {"ndarray": "ndarray", "DataFrame": "frame", "Series": "series", "Index": "index", "int": "int",
                 "float": "float", "str": "str", "bool": "bool", "dict": "dict", "list": "list", "tuple": "tuple",
                 "spmatrix": "sparse", "csr_matrix": "sparse", "slice": "slice", "set": "set",
                 "integer": "int", "MultiIndex": "index", "Number": "float", "int_": "int"}
            if last in m:
                out.append(m[last])
            else:
                return None
        return out

    def subtype(self, p, t, ts):
        """is type t a subtype of any in ts: True/False/None"""
        for x in ts:
            if t == x:
                return True
            if isinstance(t, ClassInfo):
                if isinstance(x, ClassInfo) and x in p.mro(t):
                    return True
                if x == "frame" and p.is_sub(t, "DataFrame"):
                    return True
                if x == "ndarray" and p.is_sub(t, "ndarray"):
                    return True
        for x in ts:
            if isinstance(x, ClassInfo) and (t == "frame" and p.is_sub(x, "DataFrame")
                                             or t == "ndarray" and p.is_sub(x, "ndarray")
                                             or isinstance(t, ClassInfo) and t in p.mro(x)):
                return None
        if t == "int" and "float" in ts:
            return None
        return False

    # ------------------------------------------------------------------ values
    def truth(self, v):
        if v.const is not None and v.const:
            bs = {bool(c) for c in v.const}
            if len(bs) == 1:
                return bs.pop()
            return None
        if v.elems is not None:
            return len(v.elems) > 0
        if "!truthy" in v.tags:
            return True
        if "!falsy" in v.tags:
            return False
        return None

    def notnone(self, v):
        return given(v)

    def compare(self, it, op, a, b):
        isn = b.const == frozenset([None])
        if is_nan(a) and not isn or is_nan(b) and a.const != frozenset([None]):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)):
                return False
            if isinstance(op, ast.NotEq):
                return True
        if isn and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            r = None
            if a.const == frozenset([None]):
                r = True
            elif self.notnone(a):
                r = False
            if r is None:
                return None
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and a.const and b.const:
            eq = None
            if len(a.const) == 1 and len(b.const) == 1:
                x, y = next(iter(a.const)), next(iter(b.const))
                eq = x == y
            elif not any(x == y for x in a.const for y in b.const):
                eq = False
            if eq is None:
                return None
            return eq if isinstance(op, (ast.Eq, ast.Is)) else not eq
        ti = [t[7:] for t in a.tags if isinstance(t, str) and t.startswith("typeis:")]
        if len(ti) == 1 and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            names = self.class_names(it, b)
            if names is not None:
                r = ti[0] in [x.qual if isinstance(x, ClassInfo) else x for x in names]
                return r if isinstance(op, (ast.Eq, ast.Is, ast.In)) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)) and (a.fn or b.fn):
            return None
        if isinstance(op, (ast.In, ast.NotIn)) and a.const:
            cs = None
            if b.elems is not None and all(e.const is not None and len(e.const) == 1 for e in b.elems):
                cs = [next(iter(e.const)) for e in b.elems]
            elif b.const is not None and len(b.const) == 1 and isinstance(next(iter(b.const)), str):
                s = next(iter(b.const))
                if all(isinstance(c, str) for c in a.const):
                    rs = {c in s for c in a.const}
                    if len(rs) == 1:
                        r = rs.pop()
                        return r if isinstance(op, ast.In) else not r
            if cs is not None:
                rs = {any(c == x for x in cs) for c in a.const}
                if len(rs) == 1:
                    r = rs.pop()
                    return r if isinstance(op, ast.In) else not r
            return None
        if a.const and b.const and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
                 ast.GtE: lambda x, y: x >= y}[type(op)]
            try:
                rs = {bool(f(x, y)) for x in a.const for y in b.const}
            except TypeError:
                return None
            if len(rs) == 1:
                return rs.pop()
        return None

    def binop(self, it, op, a, b, n, inplace=False):
        d = a.deps | b.deps
        if is_nan(a) or is_nan(b):
            return const(NAN, deps=d)
        if a.const and b.const and len(a.const) * len(b.const) <= 16:
            f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                 ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y}.get(type(op))
            if f:
                try:
                    cs = frozenset(f(x, y) for x in a.const for y in b.const)
                    return Val(const=cs, deps=d, types=frozenset(type(c).__name__ for c in cs))
                except (TypeError, ValueError, ArithmeticError):
                    pass
        if isinstance(op, ast.Add) and (a.types & {"list", "tuple"} or b.types & {"list", "tuple"}):
            el = None
            if a.elems is not None and b.elems is not None:
                el = a.elems + b.elems
            return Val(ident=EMPTY, buf=a.mem | b.mem, deps=d, types=frozenset(["list"]), elems=el)
        ty = EMPTY
        if a.types & ARR or b.types & ARR or isinstance(op, ast.MatMult):
            num = {"int", "float", "bool", "complex"}
            if not isinstance(op, ast.MatMult):
                # element-wise with a number or another array
                for x, y in ((a, b), (b, a)):
                    if len(x.types) == 1 and x.types <= ARR | set() and y.types and y.types <= num | (x.types if x.types == {"ndarray"} else EMPTY):
                        ty = x.types
        elif a.types and b.types and a.types <= {"int", "float", "bool"} and b.types <= {"int", "float", "bool"}:
            ty = a.types | b.types
        elif "str" in a.types and isinstance(op, (ast.Mod, ast.Add)):
            ty = frozenset(["str"])
        return Val(deps=d, types=ty)

    def element(self, it, v, n, st):
        """abstract element obtained when iterating v"""
        r = None
        if v.elems is not None:
            for e in v.elems:
                r = join(r, e)
            return (r or UNK).plus(v.deps)
        ext = set()
        for l in v.ident:
            if (l, "[]") in st.heap:
                r = join(r, st.heap[(l, "[]")])
            elif l[0] != "F":
                ext.add(l)
        if ext:
            arr = v.types and all(t in ARR or isinstance(t, ClassInfo) for t in v.types)
            e = Val(ident=EMPTY if arr else frozenset(ext), buf=frozenset(ext) if arr else EMPTY, deps=v.deps)
            r = join(r, e)
        if v.buf:
            r = join(r, Val(buf=v.buf, deps=v.deps))
        if r is None:
            r = UNK
        return r.plus(v.deps)

    def attr(self, it, base, attr, n, st):
        if attr in NOMEM_ATTRS:
            ty = {"shape": "tuple", "ndim": "int", "size": "int", "nlevels": "int"}.get(attr)
            # a data attribute of a foreign object named like this is still only read
            return Val(deps=base.deps, types=frozenset([ty]) if ty else EMPTY)
        if attr in SELF_VIEW_ATTRS:
            return Val(ident=base.ident, buf=base.buf, deps=base.deps, types=EMPTY,
                       tags=frozenset(["indexer"]))
        if attr in BUF_ATTRS:
            return Val(buf=base.mem, deps=base.deps, types=frozenset(["ndarray"]) if attr == "values" else EMPTY,
                       fn=(LibMethod(base, attr, "unknown"),))
        if attr in DEEP_ATTRS:
            return Val(ident=base.mem, deps=base.deps, types=frozenset(["index"]))
        b = base.ident
        return Val(ident=b, buf=base.buf, deps=base.deps, fn=(LibMethod(base, attr, "unknown"),))

    def subscript(self, it, base, ix, n, st):
        d = base.deps | ix.deps
        if base.elems is not None and ix.const and len(ix.const) == 1:
            k = next(iter(ix.const))
            if isinstance(k, int) and not isinstance(k, bool) and -len(base.elems) <= k < len(base.elems):
                return base.elems[k].plus(d)
        r = None
        ext = set()
        keyed = ix.const is not None and len(ix.const) == 1
        for l in base.ident:
            if keyed and (l, ("k", next(iter(ix.const)))) in st.heap:
                r = join(r, st.heap[(l, ("k", next(iter(ix.const))))])
            elif (l, "[]") in st.heap:
                r = join(r, st.heap[(l, "[]")])
            else:
                ext.add(l)
        is_arr = bool(base.types) and all(t in ARR or t in ("index",) or (isinstance(t, ClassInfo)) for t in base.types)
        has_slice = isinstance(n.slice, ast.Slice) or (
            isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.slice.elts))
        scal = isinstance(n.slice, ast.Constant) or (isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.operand, ast.Constant))
        if "list" in base.types or "dict" in base.types or "tuple" in base.types:
            is_arr = False
        if ext or base.buf:
            mem = frozenset(ext) | base.buf
            if is_arr or "indexer" in base.tags:
                # basic indexing gives a view of the buffer, advanced indexing a copy
                adv = not (has_slice or scal or isinstance(n.slice, (ast.Name, ast.Attribute)))
                v = Val(buf=EMPTY if adv else mem, deps=d,
                        types=frozenset(t for t in base.types if t in ("ndarray",)))
                if "indexer" in base.tags:
                    v = v.repl(tags=frozenset(["!notnone"]))
                if isinstance(n.slice, ast.Tuple) and any(
                        isinstance(e, (ast.List, ast.Call, ast.Compare, ast.ListComp)) for e in n.slice.elts):
                    v = v.repl(buf=EMPTY)
            elif any(isinstance(e, (ast.List, ast.Compare, ast.ListComp))
                     for e in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice])):
                v = Val(deps=d)  # only arrays and frames take such an index, and they answer with a copy
            elif has_slice:
                v = Val(buf=mem, deps=d, types=base.types)
            else:
                v = Val(ident=frozenset(l for l in ext if l[0] != "F"), buf=base.buf | frozenset(l for l in ext if l[0] == "F"), deps=d)
            r = join(r, v)
        if r is None:
            r = UNK
        if has_slice and base.types <= {"list", "tuple"} and base.types:
            # slicing a list creates a new list with the same elements
            t = "list" if "list" in base.types else "tuple"
            v = it.fresh(n, t, key="slice", deps=d)
            el = self.element(it, base, n, st)
            for l in v.ident:
                st.heap[(l, "[]")] = el
            if base.elems is not None and isinstance(n.slice, ast.Slice):
                try:
                    lo, hi, sp = (None if x is None else ast.literal_eval(x) for x in
                                  (n.slice.lower, n.slice.upper, n.slice.step))
                    v = v.repl(elems=base.elems[lo:hi:sp])
                except (ValueError, TypeError):
                    pass
            return v.plus(d)
        if base.types and any(isinstance(t, ClassInfo) and it.p.is_sub(t, "DataFrame") for t in base.types) or \
                "indexer" in base.tags:
            r = r.repl(types=EMPTY)
        if has_slice and base.types == {"ndarray"} and "!exact" in base.tags:
            # a slice of an array is an array
            r = r.repl(types=base.types, tags=r.tags | {"!exact", "!notnone"})
        return r.plus(d)

    # ------------------------------------------------------------------ calls
    def callbacks(self, it, args, kwargs, n, st, feed):
        for a in list(args) + list(kwargs.values()):
            for f in a.fn:
                if isinstance(f, Closure):
                    k = len(f.func.args) - len(f.func.defaults)
                    try:
                        it.call_closure(f, [feed] * max(k, 0), {}, n, st, None, None)
                    except Dead:
                        pass
                elif isinstance(f, Bound) and isinstance(f.func, FuncInfo) and f.recv is not None:
                    k = len(f.func.args) - len([x for x in f.func.args if x in f.func.defaults]) - 1
                    try:
                        it.call_project(f.func, f.recv, f.cls, [feed] * max(k, 0), {}, n, st, None, None)
                    except Dead:
                        pass

    def unknown_call(self, it, fv, args, kwargs, n, st):
        self.callbacks(it, args, kwargs, n, st, UNK)
        return UNK

    def opaque_project(self, it, f, env, st, n):
        if isinstance(f, FuncInfo) and f.name in TRANSFORMISH and "X" in env:
            return Val(ident=env["X"].ident, buf=env["X"].buf)
        return UNK

    def estimator_effect(self, it, recv, name, args, kwargs, n, st):
        pass

    def method(self, it, recv, name, ext, args, kwargs, n, st, star, dstar):
        d = recv.deps
        for a in list(args) + list(kwargs.values()):
            d |= a.deps
        a0 = args[0] if args else kwargs.get("X")
        if name in ("any", "all", "item", "copy", "to_numpy") and recv.const is not None and len(recv.const) == 1 and not isinstance(
                next(iter(recv.const)), (str, type(None))):
            return recv.plus(d)
        if recv.const is not None and not args and not kwargs and name in ("lower", "upper", "strip", "title"):
            ks = [k for k in recv.const if isinstance(k, str)]
            if not ks and None in recv.const and len(recv.const) == 1:
                return self.fail(it, n, st, "AttributeError")
            if len(ks) == len(recv.const):
                return Val(const=frozenset(getattr(k, name)() for k in ks), deps=d, types=frozenset(["str"]))
        if name in ("fit", "partial_fit", "set_params") and ext.startswith("sklearn.") and recv.ident:
            return recv.plus(d)
        if name == "__init__" and ext.startswith("sklearn.") and recv.ident:
            fi = ext_methods(ext).get("__init__")
            if fi is not None:
                # the scikit-learn protocol: __init__ stores every parameter under its name
                names = [x.arg for x in fi.args.posonlyargs + fi.args.args][1:]
                vals = dict(zip(names, args))
                vals.update({k: v for k, v in kwargs.items()})
                for x in names + [x.arg for x in fi.args.kwonlyargs]:
                    v = vals.get(x)
                    if v is not None:
                        for l in recv.ident:
                            st.heap[(l, x)] = v
                return const(None)
        if name == "shuffle" and len(args) == 1:
            it.inplace(args[0], n, st, "shuffle")
            return const(None)
        feed = Val(buf=recv.mem, deps=recv.deps)
        # project TSCDataFrame methods called on an untyped receiver
        if ext == "unknown" and name in self._byname and not recv.types and name not in (
                "copy", "plot", "insert", "__init__", "loc", "iloc", "set_index", "__setitem__", "__getitem__", "transform", "fit"):
            f = self._byname[name]
            if not f.is_property and f.kind == "method":
                b = recv.repl(types=frozenset([self.tsc]), fn=())
                return it.call_project(f, b, self.tsc, args, kwargs, n, st, star, dstar)
        clss = it.classes_of(recv)
        if name == "fit_transform" and ext.startswith("sklearn.base.TransformerMixin"):
            for c in clss:
                f, t = it.p.find_method(c, "fit"), it.p.find_method(c, "transform")
                if isinstance(f, FuncInfo) and isinstance(t, FuncInfo):
                    kw = dict(kwargs)
                    X = args[0] if args else kw.pop("X", UNK)
                    y = args[1] if len(args) > 1 else kw.pop("y", const(None))
                    if len(args) > 1 or "y" in f.all_params:
                        kw["y"] = y
                    r = it.call_project(f, recv, c, [X], kw, n, st, None, dstar)
                    return it.call_project(t, r if r.types else recv, c, [X], {}, n, st, None, None)
            return Val(ident=a0.ident if a0 else EMPTY, deps=d)
        if name == "fit_predict" and "sklearn" in ext:
            return Val(deps=d)
        if name in ("_check_n_features", "_check_feature_names") and "sklearn" in ext:
            reset = kwargs.get("reset", args[1] if len(args) > 1 else const(True))
            if self.truth(reset) is not False:
                at = "n_features_in_" if name == "_check_n_features" else "feature_names_in_"
                x = args[0] if args else kwargs.get("X")
                if at == "feature_names_in_" and x is not None and x.types and x.types <= {"ndarray", "sparse"}:
                    return const(None)  # arrays have no names
                node = ast.copy_location(ast.Attribute(ast.Name("self", ast.Load()), at, ast.Store()), n)
                it.store_attr(recv, at, Val(deps=d), node, st)
            return const(None)
        if name == "set_params":
            it.emit("setattr", base=recv, attr="*", val=Val(deps=d), node=n, state=st, prop=None)
            return recv
        if name in ("__setattr__",) and args and args[0].const:
            it.emit("setattr", base=recv, attr=next(iter(args[0].const)), val=args[-1], node=n, state=st, prop=None)
            return const(None)
        isframe = any(t in ("frame", "series", "index") or isinstance(t, ClassInfo) and it.p.is_sub(t, "DataFrame")
                      for t in recv.types)
        inplace = kwargs.get("inplace")
        if inplace is not None and self.truth(inplace) is not False:
            it.inplace(recv, n, st, f"{name}(inplace)")
        ck = it.closed_keys(recv, st) if name in ("pop", "get", "setdefault", "update", "clear", "popitem") else None
        if ck is not None:
            l = next(iter(recv.ident))
            key = next(iter(a0.const)) if a0 is not None and a0.const and len(a0.const) == 1 else None
            if name in ("pop", "get") and a0 is not None and a0.const and len(a0.const) == 1:
                if name == "pop":
                    it.inplace(recv, n, st, ".pop()", index=a0)
                    st.heap.pop((l, ("k", key)), None)
                if key in ck:
                    return ck[key].plus(d)
                return (args[1] if len(args) > 1 else const(None)).plus(d)
            if name == "update" and not star and (a0 is None or it.closed_keys(a0, st) is not None) and dstar is None:
                it.inplace(recv, n, st, ".update()", value=a0)
                new = dict(it.closed_keys(a0, st) if a0 is not None else {})
                new.update(kwargs)
                for k, x in new.items():
                    st.heap[(l, ("k", k))] = x
                    it.heap_join(st, (l, "[]"), x)
                return Val(deps=d)
            if name not in ("get", "setdefault"):
                it.open_dict(l, st)
        if name in MUTATORS:
            if isframe and name in PANDAS_PURE and name not in PANDAS_MUT:
                pass
            elif "index" in recv.types:
                pass
            elif isframe and name == "add":
                pass
            elif name == "sort" and False:
                pass
            elif not self.immutable(recv):
                it.inplace(recv, n, st, f".{name}()", index=args[0] if args else None,
                           value=args[-1] if args else None)
                el = None
                for a in args:
                    el = join(el, a)
                if el is not None:
                    for l in recv.ident:
                        if l[0] == "F":
                            it.heap_join(st, (l, "[]"), el)
                            if name == "setdefault" and args and args[0].const and len(args[0].const) == 1:
                                k = (l, ("k", next(iter(args[0].const))))
                                st.heap[k] = join(st.heap.get(k), args[-1])
                    if "objdict" in recv.tags:
                        it.emit("setattr", base=recv, attr="*", val=el, node=n, state=st, prop=None)
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in st.env:
                        nm = n.func.value.id
                        v = st.env[nm]
                        if v.elems is not None:
                            v = v.repl(elems=v.elems + (args[0],) if name == "append" and st.pc == EMPTY and False else None)
                        st.env[nm] = v.plus(el.deps | st.pc) if nm != "self" else v
                    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute):
                        for l in recv.ident:
                            pass
            if name in ("pop", "popitem", "setdefault", "get"):
                r = self.elem_of(it, recv, args, st)
                for x in args[1:]:
                    r = join(r, x)
                return r.plus(d)
            return Val(deps=d)
        if "out" in kwargs:
            it.inplace(kwargs["out"], n, st, f"{name}(out=)")
        # library estimator configured to work in place
        if name in ("fit", "transform", "fit_transform", "inverse_transform", "partial_fit") and \
                any(isinstance(t, str) and t == "ext-inplace" for t in recv.types) and a0 is not None:
            if name != "fit" and name != "partial_fit" or True:
                it.inplace(a0, n, st, f"copy=False {name}")
        cpv = kwargs.get("copy")
        if name in ("transform", "inverse_transform", "fit_transform", "scale") and cpv is not None and \
                self.truth(cpv) is False and a0 is not None:
            it.inplace(a0, n, st, f"{name}(copy=False)")
        self.callbacks(it, args, kwargs, n, st, feed)
        if name == "remove_unused_levels":
            return Val(ident=recv.ident, buf=recv.buf, deps=d, types=frozenset(["index"]),
                       tags=frozenset(["!equal-index"]))
        if name in COPY_METHODS:
            deep = kwargs.get("deep", args[0] if args else None)
            if deep is not None and self.truth(deep) is False:
                return Val(buf=recv.mem, deps=d, types=recv.types)
            v = it.fresh(n, None, key="copy", deps=d)
            el = None
            for l in recv.ident:
                if (l, "[]") in st.heap and l[0] == "F":
                    el = join(el, st.heap[(l, "[]")])
                if l[0] == "F":
                    for k, x in list(st.heap.items()):
                        if k[0] == l:
                            for l2 in v.ident:
                                st.heap[(l2, k[1])] = x
            return v.repl(types=recv.types)
        if name == "get":
            r = self.elem_of(it, recv, args, st)
            if len(args) > 1:
                r = join(r, args[1])
            else:
                r = join(r, const(None)) if r is not UNK else r
            return r.plus(d)
        if name == "values" or name in ITER_METHODS:
            el = self.element(it, recv.repl(elems=None), n, st)
            if name == "items":
                kk = []
                for l in recv.ident:
                    kk += [k[1][1] for k in st.heap if k[0] == l and isinstance(k[1], tuple)]
                kv = Val(const=frozenset(kk)) if kk and len(kk) <= 12 else Val(deps=recv.deps)
                el = Val(elems=(kv, el), types=frozenset(["tuple"]), deps=recv.deps)
            elif name in ("iterrows", "groupby", "iteritems"):
                el = Val(elems=(Val(deps=recv.deps), Val(buf=recv.mem, deps=recv.deps)), deps=recv.deps)
            elif name == "keys":
                el = Val(deps=recv.deps)
            v = it.fresh(n, None, key=name, deps=d)
            for l in v.ident:
                st.heap[(l, "[]")] = el
            if name == "groupby":
                v = v.repl(buf=recv.mem)
            return v
        if name in VIEW_METHODS:
            cp = kwargs.get("copy")
            if name == "to_numpy" and cp is not None and self.truth(cp) is True:
                return Val(deps=d, types=frozenset(["ndarray"]))
            return Val(buf=recv.mem, deps=d, types=frozenset(["ndarray"]) if name != "get" else EMPTY)
        if name in SPARSE_VIEW:
            cp = kwargs.get("copy")
            if cp is not None and self.truth(cp) is True:
                return Val(deps=d)
            return Val(buf=recv.mem, deps=d)
        if name in ("astype", "rename", "set_axis", "reindex", "swaplevel", "droplevel", "set_index", "reset_index",
                    "to_frame", "infer_objects", "assign", "tz_localize", "truncate", "xs", "head", "tail"):
            cp = kwargs.get("copy")
            if cp is not None and self.truth(cp) is not True:
                return Val(buf=recv.mem, deps=d)
            if name in ("xs", "head", "tail", "droplevel", "to_frame", "set_axis", "swaplevel"):
                return Val(buf=recv.mem, deps=d, types=frozenset(t for t in recv.types if t in ("frame", "series")))
            return Val(deps=d)
        if name in TRANSFORMISH and a0 is not None and ext == "unknown":
            return Val(ident=a0.ident, buf=a0.buf, deps=d)
        if name in FITNAMES and ext == "unknown":
            return recv.repl(fn=()).plus(d)
        if name in ("get_params", "__sklearn_tags__"):
            return Val(deps=d)
        if name in ("get_feature_names_out",):
            return Val(deps=d)
        return Val(deps=d)

    def elem_of(self, it, recv, args, st):
        r = None
        k = args[0].const if args and args[0].const and len(args[0].const) == 1 else None
        for l in recv.ident:
            if k and (l, ("k", next(iter(k)))) in st.heap:
                r = join(r, st.heap[(l, ("k", next(iter(k))))])
            elif (l, "[]") in st.heap:
                r = join(r, st.heap[(l, "[]")])
            elif l[0] != "F":
                r = join(r, Val(ident=frozenset([l]), deps=recv.deps))
        if recv.buf:
            r = join(r, Val(ident=recv.buf))
        return r or UNK

    def function(self, it, name, args, kwargs, n, st, star, dstar):
        r = self._function(it, name, args, kwargs, n, st, star, dstar)
        if it.meta and name.split(".")[-1] in ("isfinite", "isnan", "isnull", "isna", "isinf"):
            r = r.plus(frozenset([("via", "finite")]))
        if name in CLOCK:
            r = r.repl(const=None, deps=r.deps | {("clock",)})
        parts = name.split(".")
        if r.const is None and (parts[0] in ("numpy", "scipy") and parts[-1] not in MUT_FUNCS0
                                or parts[-1] in ("check_array", "as_float_array", "check_random_state", "clone")):
            r = r.repl(tags=r.tags - {"maybenone"} | {"!notnone"})
        return r

    def _function(self, it, name, args, kwargs, n, st, star, dstar):
        last = name.split(".")[-1]
        d = EMPTY
        for a in list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]:
            d |= a.deps
        a0 = args[0] if args else (star if star is not None else None)
        root = name.split(".")[0]
        if root == "builtins":
            return self.builtin(it, last, args, kwargs, n, st, d, star, dstar)
        if "out" in kwargs:
            it.inplace(kwargs["out"], n, st, f"{last}(out=)")
        for k in ("overwrite_a", "overwrite_x"):
            if k in kwargs and self.truth(kwargs[k]) is not False and args:
                it.inplace(args[0], n, st, f"{last}({k})")
        if "overwrite_b" in kwargs and self.truth(kwargs["overwrite_b"]) is not False and len(args) > 1:
            it.inplace(args[1], n, st, f"{last}(overwrite_b)")
        if last == "check_scalar" and root == "sklearn":
            self.check_scalar(it, args, kwargs, n, st)
            return args[0].plus(d) if args else Val(deps=d)
        if is_nan(a0) and root in ("numpy", "math") and last in (
                "abs", "absolute", "fabs", "asarray", "array", "asanyarray", "atleast_1d", "float64", "round", "around", "max", "min",
                "unique", "sqrt", "subtract", "squeeze", "ravel"):
            return a0.plus(d)
        if is_nan(a0) and last in ("isnull", "isna") and root == "pandas":
            return const(True, deps=d)
        if last in ("assert_allclose", "assert_array_equal", "assert_equal", "assert_array_almost_equal") and len(args) > 1 \
                and is_nan(args[0]) != is_nan(args[1]):
            return self.fail(it, n, st, "AssertionError")
        if last in ("allclose", "isclose", "array_equal") and len(args) > 1 and (is_nan(args[0]) or is_nan(args[1])) and len(args) == 2 \
                and "equal_nan" not in kwargs:
            return const(False, deps=d)
        if root in ("numpy", "math") and last in ("isinf", "isnan", "isfinite", "isscalar") and a0 is not None and a0.const \
                and len(a0.const) == 1:
            try:
                c = next(iter(a0.const))
                return const(c is not None if last == "isscalar" else getattr(math, last)(c), deps=d)
            except TypeError:
                pass
        if root in ("numpy", "scipy"):
            if last in MUT_FUNCS0 and args:
                it.inplace(args[0], n, st, f"np.{last}")
                if isinstance(n.args[0], ast.Name) and n.args[0].id in st.env:
                    st.env[n.args[0].id] = st.env[n.args[0].id].plus(d)
                return const(None)
            if last == "at" and args:
                it.inplace(args[0], n, st, "ufunc.at")
                return const(None)
            if len(args) >= 3 and last in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
                it.inplace(args[2], n, st, f"np.{last}(out)")
            if len(args) >= 2 and last in ("exp", "sqrt", "log", "square", "abs", "absolute", "negative", "reciprocal"):
                it.inplace(args[1], n, st, f"np.{last}(out)")
            cp = kwargs.get("copy")
            if last in ("array", "nan_to_num") and cp is not None and self.truth(cp) is not True and a0 is not None:
                if last == "nan_to_num":
                    it.inplace(a0, n, st, "nan_to_num(copy=False)")
                return Val(ident=a0.ident, buf=a0.mem, deps=d)
            if last in ALIAS_FUNCS and a0 is not None:
                x = a0
                el = None
                if x.elems is not None or x.types & {"list", "tuple"}:
                    return Val(deps=d, types=frozenset(["ndarray"]))
                ty = x.types if last == "asanyarray" else frozenset(["ndarray"])
                ident = x.ident if last.startswith("asa") or last in ("ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "real") and not x.types else EMPTY
                # np.asarray of a frame is a view on its values
                if any(isinstance(t, ClassInfo) or t == "frame" for t in x.types) and not ("ndarray" in x.types):
                    ident = EMPTY
                r = Val(ident=ident, buf=x.mem, deps=d, types=ty if ty else EMPTY)
                if x.const is not None:
                    return Val(deps=d)
                return r
            if last in SCIPY_SPARSE and a0 is not None:
                if cp is not None and self.truth(cp) is True:
                    return Val(deps=d, types=frozenset(["sparse"]))
                if a0.elems is not None:
                    m = EMPTY
                    return Val(deps=d, types=frozenset(["sparse"]))
                return Val(buf=a0.mem if not a0.types or "sparse" in a0.types else EMPTY, deps=d, types=frozenset(["sparse"]))
            self.callbacks(it, args, kwargs, n, st, UNK)
            if last in ("array", "zeros", "ones", "empty", "eye", "zeros_like", "empty_like", "ones_like", "full",
                        "full_like", "vstack", "hstack", "concatenate", "column_stack", "linspace", "arange",
                        "identity", "outer", "dot"):
                v = it.fresh(n, "ndarray", key=last, deps=d)
                return v
            if last == "deepcopy":
                return Val(deps=d)
            return Val(deps=d)
        if root == "pandas":
            if last in ("DataFrame", "Series", "MultiIndex", "Index"):
                src = a0 if a0 is not None else kwargs.get("data")
                cp = kwargs.get("copy")
                v = it.fresh(n, "frame" if last == "DataFrame" else "series" if last == "Series" else "index",
                             key="pd." + last, deps=d)
                if src is not None and not (cp is not None and self.truth(cp) is True):
                    v = v.repl(buf=src.mem)
                loc = next(iter(v.ident))
                for nm in ("index", "columns"):
                    if nm in kwargs:
                        st.heap[(loc, nm)] = kwargs[nm]
                    else:
                        st.heap.pop((loc, nm), None)
                return v
            if last == "concat":
                cp = kwargs.get("copy")
                el = a0
                ty = EMPTY
                if a0 is not None:
                    e = self.element(it, a0, n, st)
                    ty = e.types
                    if cp is not None and self.truth(cp) is False:
                        return Val(buf=e.mem, deps=d, types=ty)
                return Val(deps=d, types=ty)
            self.callbacks(it, args, kwargs, n, st, UNK)
            return Val(deps=d)
        if root == "copy":
            if last == "deepcopy":
                return Val(deps=d, types=a0.types if a0 is not None else EMPTY)
            v = Val(buf=a0.mem if a0 is not None else EMPTY, deps=d, types=a0.types if a0 is not None else EMPTY)
            return v
        if name == "functools.partial" and args:
            return Val(fn=(Partial(args[0], tuple(args[1:]), dict(kwargs)),), deps=d, types=frozenset(["function"]))
        if root == "sklearn":
            if last in ("check_array", "as_float_array", "check_X_y", "indexable", "check_pairwise_arrays"):
                cp = kwargs.get("copy")
                one = frozenset(["!exact", "!notnone"] if last in ("check_array", "as_float_array") else [])
                if cp is not None and self.truth(cp) is True or a0 is None:
                    return Val(deps=d, types=frozenset(["ndarray"]))
                ty = frozenset(t for t in a0.types if t in ("ndarray", "sparse"))
                return Val(ident=a0.ident, buf=a0.buf, deps=d, types=ty, tags=one if ty == {"ndarray"} and a0.types == ty else EMPTY)
            if last == "clone":
                return Val(deps=d, types=a0.types if a0 is not None else EMPTY)
            cp = kwargs.get("copy")
            if last[:1].isupper():
                if cp is not None and self.truth(cp) is not True:
                    return it.fresh(n, "ext-inplace", key=last, deps=d)
                v = it.fresh(n, "ext:" + name, key=last, deps=d)
                return v.repl(types=frozenset(["ext:" + name]))
            if cp is not None and self.truth(cp) is False and args:
                it.inplace(args[0], n, st, f"{last}(copy=False)")
            self.callbacks(it, args, kwargs, n, st, UNK)
            return Val(deps=d)
        self.callbacks(it, args, kwargs, n, st, UNK)
        return Val(deps=d)

    def builtin(self, it, f, args, kwargs, n, st, d, star, dstar=None):
        a0 = args[0] if args else None
        if f in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
            if a0 is None:
                v = it.fresh(n, f, key=f)
                return v
            el = self.element(it, a0, n, st)
            v = it.fresh(n, {"sorted": "list", "reversed": "list", "iter": "list"}.get(f, f), key=f, deps=d)
            for l in v.ident:
                st.heap[(l, "[]")] = el
            if f in ("list", "tuple") and a0.elems is not None:
                v = v.repl(elems=a0.elems)
            if f == "reversed" and a0.elems is not None:
                v = v.repl(elems=a0.elems[::-1])
            if f in ("sorted", "reversed"):
                v = v.repl(tags=frozenset([f]))
            return v
        if f == "dict":
            v = it.fresh(n, "dict", key="dict", deps=d)
            loc = next(iter(v.ident))
            for k in [k for k in st.heap if k[0] == loc]:
                del st.heap[k]
            el = None
            closed = dstar is None and star is None
            if a0 is not None:
                closed = closed and it.closed_keys(a0, st) is not None
                for l in a0.ident:
                    for k, x in list(st.heap.items()):
                        if k[0] == l and k[1] != "closed":
                            st.heap[(loc, k[1])] = x
                el = self.element(it, a0, n, st)
            if closed:
                st.heap[(loc, "closed")] = const(True)
            for k, x in kwargs.items():
                st.heap[(loc, ("k", k))] = x
                el = join(el, x)
            if el is not None:
                it.heap_join(st, (loc, "[]"), el)
            return v
        if f == "zip":
            els = tuple(self.element(it, a, n, st) for a in args)
            v = it.fresh(n, "list", key="zip", deps=d)
            for l in v.ident:
                st.heap[(l, "[]")] = Val(elems=els, types=frozenset(["tuple"]), deps=d)
            return v
        if f == "enumerate":
            el = self.element(it, a0, n, st) if a0 is not None else UNK
            v = it.fresh(n, "list", key="enum", deps=d)
            for l in v.ident:
                st.heap[(l, "[]")] = Val(elems=(Val(types=frozenset(["int"]), deps=d), el), types=frozenset(["tuple"]), deps=d)
            return v
        if f in ("map", "filter"):
            el = [self.element(it, a, n, st) for a in args[1:]]
            r = UNK
            if a0 is not None and a0.fn:
                try:
                    r = it.call(a0, el, {}, n, st)
                except Dead:
                    pass
            if f == "filter":
                r = el[0] if el else UNK
            v = it.fresh(n, "list", key=f, deps=d)
            for l in v.ident:
                st.heap[(l, "[]")] = r
            return v
        if f == "next":
            return self.element(it, a0, n, st) if a0 is not None else UNK
        if f in ("abs", "round", "float") and is_nan(a0):
            return a0.plus(d)
        if f in ("min", "max", "sum", "abs", "round", "pow"):
            if f in ("max", "min") and len(args) >= 1 and all(a.const is not None and len(a.const) == 1 for a in args) and len(args) > 1:
                try:
                    return const((max if f == "max" else min)(next(iter(a.const)) for a in args), deps=d)
                except TypeError:
                    pass
            return Val(deps=d)
        if f == "isinstance" and len(args) == 2:
            r = self.isinst(it, args[0], n.args[1], args[1])
            if r is not None:
                return const(r, deps=d)
            return Val(deps=d, types=frozenset(["bool"]))
        if f == "callable" and a0 is not None:
            if a0.const is not None:
                return const(False, deps=d)
            return Val(deps=d, types=frozenset(["bool"]))
        if f in ("int", "float", "bool", "str", "complex", "repr", "hash", "len", "id", "ord", "chr", "bin", "format"):
            ty = {"len": "int", "repr": "str", "hash": "int", "id": "int", "format": "str"}.get(f, f)
            if a0 is not None and a0.const is not None and f in ("int", "float", "bool", "str"):
                try:
                    return Val(const=frozenset({"int": int, "float": float, "bool": bool, "str": str}[f](c) for c in a0.const),
                               types=frozenset([ty]), deps=d)
                except (TypeError, ValueError, OverflowError):
                    pass
            if f in ("float", "int") and a0 is not None:
                sm = {t for t in a0.tags if isinstance(t, str) and t.startswith("!same:")}
                if len(a0.ident) == 1 and not sm and next(iter(a0.ident))[0] in ("P", "A"):
                    sm = {f"!same:{next(iter(a0.ident))!r}"}
                if sm:
                    return Val(deps=d, types=frozenset([ty]), tags=frozenset(sm | ({"int()"} if f == "int" else set())))
            if f == "len" and a0 is not None and a0.elems is not None:
                return const(len(a0.elems), deps=d)
            return Val(deps=d, types=frozenset([ty]))
        if f == "range":
            return Val(deps=d, types=frozenset(["range"]))
        if f == "getattr" and len(args) >= 2:
            if args[1].const and len(args[1].const) == 1 and isinstance(next(iter(args[1].const)), str):
                at = next(iter(args[1].const))
                has = None
                if len(args[0].ident) == 1:
                    t = st.heap.get((next(iter(args[0].ident)), "has:" + at))
                    has = it.truth(t, st) if t is not None else None
                if has is False and len(args) > 2:
                    it.emit("readattr", base=args[0], attr=at, node=n, state=st)
                    return args[2].plus(d | {("attr", at)})
                r = it.read_attr(args[0], at, n, st)
                if len(args) > 2 and has is not True:
                    r = join(r, args[2])
                return r.plus(d)
            it.emit("readattr", base=args[0], attr="*", node=n, state=st)
            return Val(ident=args[0].ident, buf=args[0].buf, deps=d)
        if f == "hasattr" and len(args) == 2 and args[1].const and len(args[1].const) == 1:
            at = next(iter(args[1].const))
            it.emit("readattr", base=args[0], attr=at, node=n, state=st)
            if len(args[0].ident) == 1:
                l = next(iter(args[0].ident))
                t = st.heap.get((l, "has:" + str(at)))
                if t is not None:
                    return t
            if "!notnone" in args[0].tags and args[0].types and at in ("columns", "index", "iloc", "loc", "to_numpy"):
                # containers of data
                k = {True if (not isinstance(t, str) and it.p.is_sub(t, "TSCDataFrame")) or t == "frame" else False if t == "ndarray" else None
                     for t in args[0].types}
                if k in ({True}, {False}):
                    return const(k.pop()).plus(d)
            return Val(deps=d | {("attr", at)} if any(l[0] == "S" for l in args[0].ident) else d, types=frozenset(["bool"]))
        if f == "setattr" and len(args) == 3:
            at = next(iter(args[1].const)) if args[1].const and len(args[1].const) == 1 else "*"
            if at == "*":
                it.emit("setattr", base=args[0], attr="*", val=args[2], node=n, state=st, prop=None)
            else:
                it.store_attr(args[0], at, args[2], n, st)
            return const(None)
        if f == "delattr" and len(args) == 2:
            at = next(iter(args[1].const)) if args[1].const and len(args[1].const) == 1 else "*"
            it.emit("delattr", base=args[0], attr=at, node=n, state=st)
            if at != "*":
                it.del_attr(args[0], at, st)
            return const(None)
        if f == "vars" and a0 is not None:
            return Val(ident=a0.ident, deps=d, types=frozenset(["dict"]), tags=frozenset(["objdict"]))
        if f == "type" and len(args) == 1:
            cs = tuple(it.classes_of(a0))
            if "!exact" in a0.tags and len(a0.types) == 1:
                t = next(iter(a0.types))
                nm = {"frame": "DataFrame"}.get(t, t) if isinstance(t, str) else t.qual
                return Val(fn=cs, deps=d, types=frozenset(["type"]), tags=frozenset(["typeis:" + nm]))
            if cs and len(cs) == len(a0.types):
                return Val(fn=cs if len(cs) == 1 else (), deps=d, types=frozenset(["type"]))
            return Val(deps=d, types=frozenset(["type"]))
        if f in ("any", "all"):
            return Val(deps=d, types=frozenset(["bool"]))
        if f and f[0].isupper():
            return Val(deps=d, types=frozenset(["Exception"]) if f.endswith(("Error", "Exception", "Warning")) else EMPTY)
        self.callbacks(it, args, kwargs, n, st, UNK)
        return Val(deps=d)

    # abstract classes a python constant is (or is not) an instance of; other names are undecided
    INSTANCE = {"int": {"int"}, "bool": {"int", "bool"}, "float": {"float", "floating?"}, "str": {"str"},
                "NoneType": {"NoneType"}, "complex": {"complex"}, "bytes": {"bytes"}}
    NUMERIC = {"Number": {"int", "bool", "float", "complex"}, "Integral": {"int", "bool"}, "Real": {"int", "bool", "float"},
               "Hashable": {"int", "bool", "float", "str", "NoneType", "complex"}, "object": {"int", "bool", "float", "str", "NoneType", "complex"}}
    PLAIN = {"int", "bool", "float", "str", "complex", "bytes", "list", "tuple", "dict", "set", "slice", "ndarray", "DataFrame",
             "Series", "Index", "MultiIndex", "integer", "floating", "inexact", "bool_", "int_", "csr_matrix", "spmatrix", "NoneType", "Mapping", "Callable"}

    def const_isinst(self, it, c, names):
        """is the python constant c an instance of one of the classes: True/False/None"""
        t = type(c).__name__
        und = False
        for x in names:
            if isinstance(x, ClassInfo):
                if not any(isinstance(b, str) and b.split(".")[-1] in ("int", "str", "float") for b in it.p.mro(x)):
                    continue
                und = True
            elif x in self.INSTANCE.get(t, ()) or t in self.NUMERIC.get(x, ()):
                return True
            elif x not in self.PLAIN and x not in self.NUMERIC:
                und = True
        return None if und else False

    def class_names(self, it, v):
        """names of the classes a value denotes (a class or a tuple of classes), None if unknown"""
        vs = list(v.elems) if v.elems is not None else [v]
        out = []
        for e in vs:
            if e.elems is not None:
                r = self.class_names(it, e)
                if r is None:
                    return None
                out += r
            elif e.fn:
                for x in e.fn:
                    if isinstance(x, ClassInfo):
                        out.append(x)
                    elif isinstance(x, str) and x.startswith("lib:"):
                        out.append(x.split(".")[-1])
                    else:
                        return None
            else:
                return None
        return out

    def fail(self, it, n, st, exc):
        """the library call certainly raises"""
        it.frame.do_raise(n, Val(types=frozenset([exc])), st, it)
        raise Dead()

    def check_scalar(self, it, args, kwargs, n, st):
        a = dict(zip(("x", "name", "target_type"), args))
        a.update(kwargs)
        x, tt = a.get("x"), a.get("target_type")
        if not any(k.arg is None for k in n.keywords):
            # inconsistent use is refused whatever the value
            if not all(k in a for k in ("x", "name", "target_type")):
                self.fail(it, n, st, "TypeError")
            inc = a["include_boundaries"].const if "include_boundaries" in a else None
            for side, lim in (("right", "max_val"), ("left", "min_val")):
                if inc == frozenset([side]) and (lim not in a or a[lim].const == frozenset([None])):
                    self.fail(it, n, st, "ValueError")
        if x is None or not x.const or len(x.const) != 1:
            return
        c = next(iter(x.const))
        if tt is not None:
            names = self.class_names(it, tt)
            if names is not None and self.const_isinst(it, c, names) is False:
                self.fail(it, n, st, "TypeError")

        def num(k):
            v = a.get(k)
            if v is None or not v.const or len(v.const) != 1:
                return None
            return next(iter(v.const))
        lo, hi, inc = num("min_val"), num("max_val"), num("include_boundaries") if "include_boundaries" in a else "both"
        try:
            if lo is not None and inc is not None and (c < lo if inc in ("left", "both") else c <= lo):
                self.fail(it, n, st, "ValueError")
            if hi is not None and inc is not None and (c > hi if inc in ("right", "both") else c >= hi):
                self.fail(it, n, st, "ValueError")
        except TypeError:
            pass

    def isinst(self, it, v, node, vn=None):
        if v.const is not None and v.const:
            names = self.class_names(it, vn) if vn is not None else None
            if names is None:
                return None
            rs = {self.const_isinst(it, c, names) for c in v.const}
            if len(rs) == 1:
                return rs.pop()
            return None
        ts = self.type_names(it, node, it.frame.func.module)
        if ts is None:
            return None
        exact = "!exact" in v.tags or (v.ident and all(l[0] in ("F",) for l in v.ident) and v.types
                                       and all(isinstance(t, ClassInfo) or t in ("dict", "list", "ndarray", "frame", "set") for t in v.types))
        if v.elems is not None and v.types and v.types <= {"tuple", "list"}:
            exact = True
        if exact and v.types:
            rs = {self.subtype(it.p, t, ts) for t in v.types}
            if len(rs) == 1:
                return rs.pop()
        return None
