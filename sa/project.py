"""Loader: parses the analysed tree and resolves names, imports, classes and MROs.

Nothing of the analysed tree is ever imported or executed: files are read and parsed.
"""
import ast
import functools
import hashlib
import os
import re
import sys
import warnings

REPO = os.environ.get("DF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
PKG = "datafold"


class AnalysisBroken(Exception):
    """an anchor the analysis depends on cannot be found (error exit, never a pass)"""


class FuncInfo:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name
        self.kind = "method" if cls is not None else "function"
        self.is_property = self.is_setter = False
        self.decorators = []
        for d in node.decorator_list:
            t = ast.unparse(d)
            self.decorators.append(t)
            if t in ("property", "functools.cached_property", "cached_property"):
                self.is_property = True
            elif t.endswith(".setter"):
                self.is_setter = True
            elif t == "staticmethod":
                self.kind = "static"
            elif t == "classmethod":
                self.kind = "class"
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.args = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.args[len(self.args) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.annotations = {
            x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs
            if x.annotation is not None
        }

    @property
    def abstract(self):
        """the body does nothing but refuse: the caller reaches some override instead"""
        if not hasattr(self, "_abstract"):
            body = [s for s in self.node.body
                    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            self._abstract = bool(
                self.cls is not None and (
                    (body and isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.unparse(body[0]))
                    or ("abstractmethod" in " ".join(self.decorators)
                        and all(isinstance(s, ast.Pass) for s in body))))
        return self._abstract

    @property
    def qual(self):
        p = self.module.name
        if self.outer is not None:
            return f"{self.outer.qual}.<locals>.{self.name}"
        return f"{p}.{self.cls.name}.{self.name}" if self.cls else f"{p}.{self.name}"

    @property
    def short(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    @property
    def all_params(self):
        return self.args + self.kwonly

    @property
    def user_params(self):
        ps = self.all_params
        if self.kind in ("method", "class") and ps:
            ps = ps[1:]
        return ps

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', '?')}"

    def __repr__(self):
        return f"<F {self.qual}>"


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.setters, self.class_attrs = {}, {}, {}
        self.annotated = set()
        self.bases = []  # resolved later: ClassInfo or "ext:dotted"
        for st in node.body:
            self._member(st)

    def _member(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(self.module, st, cls=self)
            if f.is_setter:
                self.setters[st.name] = f
            else:
                self.methods[st.name] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.class_attrs[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.annotated.add(st.target.id)
            if st.value is not None:
                self.class_attrs[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._member(s)

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<C {self.qual}>"


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, path)
        self.imports = {}  # local name -> dotted
        self.star = []
        self.classes, self.functions, self.globals = {}, {}, {}
        self.multi = set()  # module variables with several bindings (value not constant)
        self.is_pkg = path.endswith("__init__.py")
        for st in self.tree.body:
            self._top(st)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.multi.update(n.names)
        # imports anywhere (function-level imports are local but we keep them available)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(n)

    def _imp(self, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    self.imports.setdefault(a.asname, a.name)
                else:
                    top = a.name.split(".")[0]
                    self.imports.setdefault(top, top)
        else:
            base = n.module or ""
            if n.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    self.star.append(base)
                else:
                    self.imports.setdefault(a.asname or a.name, f"{base}.{a.name}")

    def _top(self, st):
        if isinstance(st, ast.ClassDef):
            self.classes[st.name] = ClassInfo(self, st)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.functions[st.name] = FuncInfo(self, st)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for e in ast.walk(t):
                    if isinstance(e, ast.Name):
                        if e.id in self.globals:
                            self.multi.add(e.id)
                        self.globals[e.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.globals[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body + getattr(st, "orelse", []) + getattr(st, "finalbody", []):
                self._top(s)
            for h in getattr(st, "handlers", []):
                for s in h.body:
                    self._top(s)


class Project:
    def __init__(self, repo=None, pkg=PKG):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package directory {root}")
        h = hashlib.sha256()
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__", "test"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                src = open(p, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + src.encode())
                self.modules[".".join(parts)] = Module(".".join(parts), p, rel, src)
        self.digest = h.hexdigest()
        self._mro_cache = {}
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._resolve_base(m, b) for b in c.node.bases]
        for c in self.all_classes():
            # methods shared by assignment in the class body:  fit = Other.fit
            for n, v in list(c.class_attrs.items()):
                d = dotted(v) or ""
                if n in c.methods or not d:
                    continue
                head, _, last = d.rpartition(".")
                k = self.resolve(c.module, head) if head else None
                if isinstance(k, ClassInfo):
                    f = self.find_method(k, last)
                elif not head:
                    f = c.methods.get(last) or self.resolve(c.module, last)
                else:
                    f = None
                if isinstance(f, FuncInfo) and not f.is_property:
                    c.methods[n] = f
        self.accessors = {}
        for c in self.all_classes():
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith(
                    "register_dataframe_accessor"
                ) and d.args and isinstance(d.args[0], ast.Constant):
                    self.accessors[d.args[0].value] = c

    # ---- resolution
    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def _resolve_base(self, m, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        d = dotted(b)
        if d is None:
            return "ext:?"
        r = self.resolve(m, d)
        return r if isinstance(r, ClassInfo) else f"ext:{r if isinstance(r, str) else d}"

    def resolve(self, m, name, _seen=None):
        """resolve dotted name in module m -> ClassInfo | FuncInfo | Module | ('global', Module, name) | 'dotted.ext' | None"""
        head, _, rest = name.partition(".")
        r = self._resolve1(m, head)
        if r is None:
            return None
        for part in [p for p in rest.split(".") if p]:
            if isinstance(r, Module):
                sub = self.modules.get(f"{r.name}.{part}")
                r2 = self._resolve1(r, part)
                r = r2 if r2 is not None else sub
                if r is None:
                    return None
            elif isinstance(r, str):
                r = f"{r}.{part}"
            else:
                return None
        return r

    def _resolve1(self, m, n, _seen=()):
        if (m.name, n) in _seen:
            return None
        _seen = _seen + ((m.name, n),)
        if n in m.classes:
            return m.classes[n]
        if n in m.functions:
            return m.functions[n]
        if n in m.imports:
            return self.by_dotted(m.imports[n], _seen)
        if n in m.globals:
            return ("global", m, n)
        for s in m.star:
            if s in self.modules:
                r = self._resolve1(self.modules[s], n, _seen)
                if r is not None:
                    return r
        return None

    def by_dotted(self, d, _seen=()):
        if d in self.modules:
            return self.modules[d]
        if d.split(".")[0] != PKG:
            return d
        base, _, last = d.rpartition(".")
        if base in self.modules:
            r = self._resolve1(self.modules[base], last, _seen)
            if r is not None:
                return r
        return d

    def cls(self, name, module=None):
        c = [c for c in self.all_classes() if c.name == name
             and (module is None or c.module.name == module)]
        if not c:
            raise AnalysisBroken(f"class {name} not found")
        return c[0]

    def mro(self, c):
        if c in self._mro_cache:
            return self._mro_cache[c]

        def lin(x):
            if isinstance(x, str):
                return [x]
            seqs = [lin(b) for b in x.bases] + [list(x.bases)]
            out = [x]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[y for y in t if y != h] for t in seqs]
                seqs = [s for s in seqs if s]
            return out

        r = lin(c)
        self._mro_cache[c] = r
        return r

    def find_method(self, c, name, after=None, setter=False):
        """first definition of `name` in MRO of c (optionally after class `after`).
        returns FuncInfo | 'ext:cls' (an external base precedes/has it) | None"""
        mro = self.mro(c)
        if after is not None:
            try:
                mro = mro[mro.index(after) + 1:]
            except ValueError:
                pass
        ext = None
        for k in mro:
            if isinstance(k, str):
                if ext is None and ext_has(k[4:], name):
                    return k
                continue
            tab = k.setters if setter else k.methods
            if name in tab:
                return tab[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if not isinstance(k, str) and name in k.class_attrs:
                return k, k.class_attrs[name]
        return None

    def ext_bases(self, c):
        return [k[4:] for k in self.mro(c) if isinstance(k, str)]

    def is_sub(self, c, name):
        """does class c (ClassInfo) have project class / ext class whose last component is `name`"""
        for k in self.mro(c):
            n = k.split(".")[-1].split(":")[-1] if isinstance(k, str) else k.name
            if n == name:
                return True
        return False

    def subclasses(self, c):
        return [k for k in self.all_classes() if c in self.mro(k)]

    def public_names(self):
        """names importable from the three public layers, -> ClassInfo/FuncInfo"""
        out = {}
        for mn in ("datafold", "datafold.appfold", "datafold.dynfold", "datafold.pcfold"):
            m = self.modules.get(mn)
            if m is None:
                raise AnalysisBroken(f"module {mn} not found")
            for n, d in m.imports.items():
                r = self.by_dotted(d)
                if isinstance(r, (ClassInfo, FuncInfo)):
                    out[n] = r
        return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else f"{b}.{n.attr}"
    return None


# ---------------------------------------------------------------- external classes
_ext_cache = {}


def ext_class_node(d):
    """parse site-packages source to find external class `d` (dotted); ClassDef or None"""
    if d in _ext_cache:
        return _ext_cache[d]
    _ext_cache[d] = None
    parts = d.split(".")
    if parts[0] not in ("sklearn",):
        return None
    name = parts[-1]
    mod = parts[:-1]
    cands = [os.path.join(SITE, *mod) + ".py", os.path.join(SITE, *mod, "__init__.py")]
    for c in cands:
        if not os.path.exists(c):
            continue
        t = ast.parse(open(c, encoding="utf-8").read())
        for n in t.body:
            if isinstance(n, ast.ClassDef) and n.name == name:
                n._mod = ".".join(mod)
                n._tree = t
                n._ispkg = c.endswith("__init__.py")
                _ext_cache[d] = n
                return n
        for n in ast.walk(t):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        base = n.module or ""
                        if n.level:
                            pk = mod if c.endswith("__init__.py") else mod[:-1]
                            pk = pk[: len(pk) - (n.level - 1)]
                            base = ".".join(pk + ([n.module] if n.module else []))
                        r = ext_class_node(f"{base}.{a.name}")
                        _ext_cache[d] = r
                        return r
    return None


KEEPS_SIGNATURE = {"array_function_dispatch", "set_module", "validate_params", "wraps", "array_function_from_dispatcher", "finalize_array_function_like"}


@functools.lru_cache(None)
def _ext_module(path):
    """(source, [(imported module parts, name, asname)]) of an installed module; star imports have the name '*'"""
    src = open(path, encoding="utf-8", errors="replace").read()
    out = []
    mod = path[len(SITE) + 1:-3].split("/")
    ispkg = mod[-1] == "__init__"
    for mt in re.finditer(r"^(?: {4})?from\s+(\.*)([\w.]*)\s+import\s+(\([^)]*\)|(?:[^\n\\\\]|\\\\\n)*)", src, re.M):
        dots, base, names = mt.groups()
        base = base.split(".") if base else []
        if dots:
            pk = mod[:-1]
            base = list(pk[: len(pk) - (len(dots) - 1)]) + base
        names = re.sub(r"#[^\n]*", "", names).strip("() \n").replace("\\\n", " ")
        for a in names.split(","):
            w = a.split()
            if w:
                out.append((base, w[0], w[2] if len(w) == 3 else w[0]))
    return src, out


@functools.lru_cache(None)
def _ext_top(path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(_ext_module(path)[0])


_ext_funcs = {}


def ext_func(d):
    """FunctionDef of the installed Python function `d` (dotted) if its signature is certain, else None"""
    if d not in _ext_funcs:
        _ext_funcs[d] = None
        _ext_funcs[d] = _ext_func(d)
    return _ext_funcs[d]


def _ext_func(d):
    parts = d.split(".")
    if len(parts) < 2 or parts[0] in sys.stdlib_module_names:
        return None
    name, mod = parts[-1], parts[:-1]
    for c in (os.path.join(SITE, *mod, "__init__.py"), os.path.join(SITE, *mod) + ".py"):
        if not os.path.exists(c):
            continue
        src, imps = _ext_module(c)
        if re.search(rf"^(\s*async)?\s*(def|class)\s+{name}\b", src, re.M):
            t = _ext_top(c)
            top = [n for n in t.body if isinstance(n, ast.FunctionDef) and n.name == name
                   and not any((dotted(x) or "").split(".")[-1] == "overload" for x in n.decorator_list)]
            if len(top) != 1 or any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in t.body):
                return None
            for dec in top[0].decorator_list:
                k = dotted(dec.func if isinstance(dec, ast.Call) else dec) or "?"
                if k.split(".")[-1] not in KEEPS_SIGNATURE:
                    return None
            return top[0]
        for base, a, asname in imps:
            if asname == name:
                return ext_func(".".join(base + [a]))
        for base, a, _ in imps:
            if a == "*":
                r = ext_func(".".join(base + [name]))
                if r is not None:
                    return r
    return None


class ExtFunc:
    def __init__(self, d, node):
        self.node, self.short, self.kind = node, d, "function"


@functools.lru_cache(None)
def ext_mro(d, _depth=0):
    """list of ClassDef nodes of external class and (best effort) its bases, depth first"""
    n = ext_class_node(d)
    if n is None or _depth > 8:
        return []
    out = [n]
    imps = {}
    mod = n._mod.split(".")
    for st in ast.walk(n._tree):
        if isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                pk = mod if n._ispkg else mod[:-1]
                pk = pk[: len(pk) - (st.level - 1)]
                base = ".".join(pk + ([st.module] if st.module else []))
            for a in st.names:
                imps[a.asname or a.name] = f"{base}.{a.name}"
        elif isinstance(st, ast.ClassDef):
            imps.setdefault(st.name, f"{n._mod}.{st.name}")
    for b in n.bases:
        bd = dotted(b)
        if bd in imps:
            out += ext_mro(imps[bd], _depth + 1)
    return out


@functools.lru_cache(None)
def ext_methods(d):
    out = {}
    for n in ext_mro(d):
        for st in ast.walk(n):
            if isinstance(st, (ast.FunctionDef,)):
                out.setdefault(st.name, st)
    return out


def ext_property(d, name):
    m = ext_methods(d).get(name) if d.split(".")[0] == "sklearn" else None
    return m is not None and any(dotted(x) in ("property", "cached_property", "functools.cached_property")
                                 for x in m.decorator_list)


@functools.lru_cache(None)
def ext_attrs(d):
    """attribute names external class instances may have: methods, class attrs, self.x stores"""
    out = set()
    for n in ext_mro(d):
        for st in ast.walk(n):
            if isinstance(st, ast.FunctionDef):
                out.add(st.name)
            elif isinstance(st, ast.Attribute) and isinstance(st.value, ast.Name) and st.value.id == "self":
                if isinstance(st.ctx, ast.Store):
                    out.add(st.attr)
            elif isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                out.add(st.id)
    return out


OPEN_EXT = ("pandas.", "numpy.", "torch.", "pydmd")


def ext_has(d, name):
    if d == "?" or any(d.startswith(o) or o.rstrip(".") == d for o in OPEN_EXT):
        return True
    if d.split(".")[0] == "sklearn":
        return name in ext_methods(d)
    return False
