"""No operation stops at something that does not exist.

For every function of the package: all names are bound (scopes, and on every path: a path-sensitive pass that remembers
the outcome of repeated conditions), all attributes of `self` are defined somewhere in the class family, all members of
imported modules and accessors exist, calls of package functions fit the signature, unpacked results have the right number
of values, and public operations have at least one path to a normal exit (abstract interpretation).
"""
import ast
import builtins
import functools
import glob
import os
import re
from ..core import Finding, Result
from ..project import FuncInfo, ClassInfo, Module, dotted, ext_has, ext_attrs, SITE, PKG, ext_func, ext_mro, ExtFunc
from .. import entry as E
from . import common as C
from .p12 import never

RULE = ("every loaded name is bound on every path, every attribute of self and every module member exists, every resolved call binds "
        "to the signature of its target, every public operation can return")
ASSUMPTIONS = ["for-loops run at least once", "attributes set through setattr with computed names are not needed",
               "a chain of elif-branches that test one value is complete"]
MINIMUM = {"functions": 400, "name_loads": 8000, "self_attributes": 1500, "bound_calls": 500, "module_members": 500, "operations": 300}
BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__path__", "__package__"}
CONDITIONAL = {"IS_IMPORTED_PYDMD": "optional"}


# ------------------------------------------------------------------ scopes
def bound_names(node):
    """names bound in a scope (function, class or module), without nested scopes"""
    out, glob_ = set(), set()
    a = getattr(node, "args", None)
    if isinstance(a, ast.arguments):
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out |= {x.arg for x in (a.vararg, a.kwarg) if x}
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo += n.decorator_list
            if not isinstance(n, ast.ClassDef):
                todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, ast.Lambda):
            todo += n.args.defaults
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += [g.iter for g in n.generators]
            todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob_ |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return out - glob_, glob_


def undefined(p, m):
    """(function node, Name) loads that no scope binds; also counts"""
    mod_b, _ = bound_names(m.tree)
    for s in m.star:
        if s in p.modules:
            mod_b |= bound_names(p.modules[s].tree)[0]
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            mod_b |= set(n.names)
    out, cnt = [], [0]

    def visit(n, scopes, fn, clsscope):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, "decorator_list", []) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, scopes + ([clsscope] if clsscope else []), fn, None)
            b, _ = bound_names(n)
            for x in (n.body if isinstance(n.body, list) else [n.body]):
                visit(x, scopes + [b], n if not isinstance(n, ast.Lambda) else fn, None)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                visit(d, scopes, fn, clsscope)
            b, _ = bound_names(n)
            for x in n.body:
                visit(x, scopes, fn, b)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for x in ast.iter_child_nodes(n):
                visit(x, scopes + [b], fn, clsscope)
            return
        if isinstance(n, ast.comprehension):
            for x in ast.iter_child_nodes(n):
                visit(x, scopes, fn, clsscope)
            return
        if isinstance(n, (ast.AnnAssign, ast.arg)):
            if isinstance(n, ast.AnnAssign):
                visit(n.target, scopes, fn, clsscope)
                if n.value is not None:
                    visit(n.value, scopes, fn, clsscope)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            cnt[0] += 1
            if not any(n.id in s for s in scopes) and n.id not in (clsscope or ()) and n.id not in mod_b and n.id not in BUILTIN:
                out.append((fn, n))
            return
        for x in ast.iter_child_nodes(n):
            visit(x, scopes, fn, clsscope)
    for st in m.tree.body:
        visit(st, [], None, None)
    return out, cnt[0]


# ------------------------------------------------------------------ unbound locals, path-sensitive
def atoms(test, truth):
    """facts (text, truth) implied by the test being true/false"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return atoms(test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
            return [a for v in test.values for a in atoms(v, truth)] + [(ast.unparse(test), truth)]
        return [(ast.unparse(test), truth)]
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        neg = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}.get(type(test.ops[0]))
        if neg:
            return [(ast.unparse(ast.Compare(test.left, [neg()], test.comparators)), not truth)]
    return [(ast.unparse(test), truth)]


def expand(test, memo):
    """the test with the names of remembered boolean expressions (flag = a and b) replaced by these"""
    if isinstance(test, ast.Name) and "def:" + test.id in memo:
        return expand(ast.parse(memo["def:" + test.id], mode="eval").body, memo)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return ast.UnaryOp(test.op, expand(test.operand, memo))
    if isinstance(test, ast.BoolOp):
        return ast.BoolOp(test.op, [expand(v, memo) for v in test.values])
    return test


def decide(test, memo):
    """truth of the test under the remembered facts"""
    r = decide0(test, memo)
    if r is None:
        e = expand(test, memo)
        if e is not test:
            r = decide0(e, memo)
    return r


def learn(test, truth, memo):
    return {**memo, **dict(atoms(test, truth)), **dict(atoms(expand(test, memo), truth))}


def decide0(test, memo):
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = decide0(test.operand, memo)
        return None if r is None else not r
    if isinstance(test, ast.BoolOp):
        rs = [decide0(v, memo) for v in test.values]
        stop = isinstance(test.op, ast.Or)
        if any(r is stop for r in rs):
            return stop
        if all(r is (not stop) for r in rs):
            return not stop
    a = atoms(test, True)
    if len(a) == 1 and a[0][0] in memo:
        return memo[a[0][0]] == a[0][1]
    return memo.get(ast.unparse(test))


def refused_options(p, mod, c):
    """combinations of the options that the constructor of the class refuses (over self.<option>)"""
    init = next((x for x in c.node.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None) if c is not None else None
    if init is None or not init.args.args:
        return []
    me = init.args.args[0].arg
    attr = {s.value.id: s.targets[0] for s in init.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name)
            and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == me}

    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Attribute(ast.Name("self", ast.Load()), attr[n.id].attr, ast.Load()) if n.id in attr else n
    return [Sub().visit(ast.parse(ast.unparse(s.test), mode="eval").body) for s in init.body
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Raise)]


class Unbound:
    def __init__(self, p, mod, fn, cls=None):
        self.inv = refused_options(p, mod, cls) if fn.name != "__init__" else []
        self.p, self.mod, self.fn = p, mod, fn
        self.locals, g = bound_names(fn)
        self.out = {}
        self.exits = []

    def run(self):
        a = self.fn.args
        start = frozenset(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs) | frozenset(x.arg for x in (a.vararg, a.kwarg) if x)
        self.brk = []
        self.block(self.fn.body, [(start, {})])
        return self.out

    def limit(self, sts):
        seen, out = set(), []
        for b, m in sts:
            k = (b, tuple(sorted(m.items())))
            if k not in seen:
                seen.add(k)
                out.append((b, m))
        if len(out) > 96:
            # forget facts: states with the same bound names become one
            out = [(b, {}) for b in {b for b, _ in out}]
            if len(out) > 96:
                out = [(frozenset().union(*[b for b, _ in out]), {})]
        return out

    def block(self, body, sts):
        for s in body:
            if not sts:
                return []
            sts = self.limit(self.stmt(s, sts))
        return sts

    def use(self, e, sts):
        """expression evaluated in the states: check loads, bind walrus targets"""
        if e is None:
            return sts
        names, wal = [], []
        todo = [(e, frozenset())]
        while todo:
            n, inner = todo.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = inner | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if isinstance(n, ast.NamedExpr):
                wal.append(n.target.id)
                todo.append((n.value, inner))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in inner:
                names.append(n)
            if isinstance(n, ast.IfExp) or isinstance(n, ast.BoolOp) and len(n.values) > 1:
                # only the certainly evaluated part
                todo.append((n.test if isinstance(n, ast.IfExp) else n.values[0], inner))
                continue
            todo += [(x, inner) for x in ast.iter_child_nodes(n)]
        for n in names:
            for b, m in sts:
                if n.id not in b and n.id not in wal and not any(decide(t, m) is True for t in self.inv):
                    self.out.setdefault(n.id, n)
        return [(b | frozenset(wal), m) for b, m in sts] if wal else sts

    def bind(self, names, sts):
        if not names:
            return sts
        names = frozenset(names)
        rx = re.compile(r"\b(" + "|".join(map(re.escape, names)) + r")\b")
        return [(b | names, {k: v for k, v in m.items() if not rx.search(k) and not (isinstance(v, str) and rx.search(v))}) for b, m in sts]

    def forget_attr(self, s, sts):
        t = {ast.unparse(x) for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        if not t:
            return sts
        return [(b, {k: v for k, v in m.items() if not any(x in k or isinstance(v, str) and x in v for x in t)}) for b, m in sts]

    def targets(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

    def stmt(self, s, sts):
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.use(e, sts)
            return []
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1] += sts
            return []
        if isinstance(s, ast.Assign):
            sts = self.use(s.value, sts)
            for t in s.targets:
                sts = self.use(t, sts)
            sts = self.forget_attr(s, self.bind({n for t in s.targets for n in self.targets(t)}, sts))
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                k, v = s.targets[0].id, s.value.value
                sts = [(b, {**m, k: bool(v), f"{k} is None": v is None}) for b, m in sts]
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) \
                    and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) or isinstance(x, ast.Name) and x.id == s.targets[0].id
                                for x in ast.walk(s.value)):
                sts = [(b, {**m, "def:" + s.targets[0].id: ast.unparse(s.value)}) for b, m in sts]
            return sts
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), sts)
            sts = self.use(s.value, self.use(s.target, sts))
            return self.forget_attr(s, self.bind(self.targets(s.target), sts))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return sts
            return self.forget_attr(s, self.bind(self.targets(s.target), self.use(s.value, sts)))
        if isinstance(s, ast.Delete):
            n = set().union(*[self.targets(t) for t in s.targets])
            return [(b - n, m) for b, m in sts]
        if isinstance(s, ast.If):
            sts = self.use(s.test, sts)
            t, f = [], []
            for b, m in sts:
                d = decide(s.test, m)
                if d is not False:
                    t.append((b, learn(s.test, True, m)))
                if d is not True:
                    f.append((b, learn(s.test, False, m)))
            t = self.block(s.body, t)
            if not s.orelse and self.chained(s):
                f = []
            f = self.block(s.orelse, f) if s.orelse else f
            return t + f
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                sts = self.use(s.test, sts)
                # the body may change what is tested
                sts = [(b, dict(m)) for b, m in sts]
            else:
                sts = self.bind(self.targets(s.target), self.use(s.iter, sts))
            stored = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            self.brk.append([])
            # facts about variables the body changes do not survive to the next iteration
            out = self.block(s.body, [(b, m) for b, m in sts])
            out = out + self.brk.pop()
            rx = re.compile(r"\b(" + "|".join(map(re.escape, stored)) + r")\b") if stored else None
            if rx:
                out = [(b, {k: v for k, v in m.items() if not rx.search(k) and not (isinstance(v, str) and rx.search(v))}) for b, m in out]
            if s.orelse:
                out = self.block(s.orelse, out)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                sts = self.use(i.context_expr, sts)
                if i.optional_vars is not None:
                    sts = self.bind(self.targets(i.optional_vars), sts)
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            ok = self.block(s.body, sts)
            ok = self.block(s.orelse, ok) if s.orelse else ok
            for h in s.handlers:
                hs = [(b, {}) for b, m in sts]
                if h.name:
                    hs = self.bind({h.name}, hs)
                r = self.block(h.body, hs)
                if never(self.p, self.mod, h.body):
                    r = []
                ok = ok + ([(b - {h.name}, m) for b, m in r] if h.name else r)
            return self.block(s.finalbody, ok) if s.finalbody else ok
        if isinstance(s, ast.Assert):
            sts = self.use(s.test, sts)
            return [(b, learn(s.test, True, m)) for b, m in sts if decide(s.test, m) is not False]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.bind({s.name}, sts)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind({(x.asname or x.name).split(".")[0] for x in s.names}, sts)
        if isinstance(s, ast.Match):
            out = []
            for c in s.cases:
                out += self.block(c.body, self.bind({x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar))
                                                     and x.name}, sts))
            return out
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call) and never(self.p, self.mod, [s]):
                self.use(s.value, sts)
                return []
            return self.use(s.value, sts)
        return sts

    def chained(self, s):
        """the last elif of a chain of comparisons of one value: taken as complete"""
        par = getattr(self, "_par", None)
        if par is None:
            par = self._par = {}
            for n in ast.walk(self.fn):
                if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                    par[id(n.orelse[0])] = n
        k, heads = s, []
        while k is not None:
            h = self.head(k.test)
            if h is None:
                return False
            heads.append(h)
            k = par.get(id(k))
        return len(heads) > 1 and set.intersection(*heads) != set()

    def head(self, t):
        if isinstance(t, ast.BoolOp):
            hs = [self.head(v) for v in t.values]
            return set().union(*[h for h in hs if h]) or None
        if isinstance(t, ast.Compare):
            return {ast.unparse(t.left)} | {ast.unparse(c) for c in t.comparators if not isinstance(c, ast.Constant)}
        if isinstance(t, ast.Call) and dotted(t.func) in ("isinstance", "issubclass", "hasattr") and t.args:
            return {ast.unparse(t.args[0])}
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute):
            return {ast.unparse(t.func.value)} | {ast.unparse(a) for a in t.args}
        if isinstance(t, ast.Call):
            return {ast.unparse(a) for a in t.args}
        if isinstance(t, ast.UnaryOp):
            return self.head(t.operand)
        return None


# ------------------------------------------------------------------ attributes
@functools.lru_cache(None)
def words(pkg):
    """all identifiers in the sources of an installed package"""
    out = set()
    for f in glob.glob(os.path.join(SITE, pkg, "**", "*.py*"), recursive=True):
        if f.endswith((".py", ".pyi", ".pyx", ".pxd")) and "/tests/" not in f:
            out |= set(re.findall(r"[A-Za-z_]\w*", open(f, encoding="utf-8", errors="ignore").read()))
    return out


@functools.lru_cache(None)
def members(mod):
    """identifiers that may be members of an external module: everything written in its directory, or None"""
    base = os.path.join(SITE, *mod.split("."))
    out = set()
    if os.path.isdir(base):
        files = [f for f in glob.glob(base + "/*") if f.endswith((".py", ".pyi"))]
        out |= {os.path.basename(f).split(".")[0] for f in glob.glob(base + "/*")}
    elif os.path.exists(base + ".py"):
        files = [base + ".py"]
    else:
        return None
    for f in files:
        out |= set(re.findall(r"[A-Za-z_]\w*", open(f, encoding="utf-8", errors="ignore").read()))
    if os.path.isdir(base):
        for s in re.findall(r"from (?:\.|%s\.)([\w.]+) import" % mod.replace(".", r"\."), open(base + "/__init__.py").read() if os.path.exists(base + "/__init__.py") else ""):
            sub = os.path.join(base, *s.split("."))
            for f in ([sub + ".py"] if os.path.exists(sub + ".py") else glob.glob(sub + "/*.py")):
                out |= set(re.findall(r"[A-Za-z_]\w*", open(f, encoding="utf-8", errors="ignore").read()))
        init = open(base + "/__init__.py").read() if os.path.exists(base + "/__init__.py") else ""
        for s in re.findall(r"from ([\w.]+) import \*", init):
            if s.split(".")[0] == mod.split(".")[0] and s != mod:
                out |= members(s) or set()
    elif re.search(r"from ([\w.]+) import \*", open(files[0], encoding="utf-8", errors="ignore").read()):
        for s in re.findall(r"from ([\w.]+) import \*", open(files[0], encoding="utf-8", errors="ignore").read()):
            if s.split(".")[0] == mod.split(".")[0] and s != mod:
                out |= members(s) or set()
    return out


def family_attrs(p, c):
    """names that instances of the class (or of its sub/super classes) may have"""
    fam = set(x for x in p.mro(c))
    for s in p.subclasses(c):
        fam |= set(p.mro(s))
    names, opn = {"__class__", "__dict__", "__doc__", "__module__", "__init__", "__setattr__", "__getattribute__", "__new__", "__eq__", "__repr__"}, set()
    for k in fam:
        if isinstance(k, str):
            d = k[4:]
            if d.split(".")[0] in ("sklearn",):
                names |= ext_attrs(d)
            elif d not in ("object", "abc.ABC", "ABC"):
                opn.add(d.split(".")[0])
            continue
        names |= set(k.methods) | set(k.setters) | set(k.class_attrs) | k.annotated
        names |= bound_names(k.node)[0]
        if p.is_sub(k, "DataFrame") or any(isinstance(b, str) and b.split(".")[-1] == "DataFrame" for b in p.mro(k)):
            names |= set(p.accessors)
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(n.attr)
            elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "hasattr", "getattr") and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant):
                names.add(n.args[1].value)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and False:
                names.add(n.value)
    return names, opn


def guarded(fn):
    """attribute names tested by hasattr or read in a try block with an AttributeError handler"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and dotted(n.func) == "hasattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        elif isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) or ast.unparse(h.type) == "Exception"
                                            for h in n.handlers):
            out |= {x.attr for s in n.body for x in ast.walk(s) if isinstance(x, ast.Attribute)}
    return out


# ------------------------------------------------------------------ calls
def signature(f, bound):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[: len(pos) - nd]
    if bound and pos:
        req, pos = [x for x in req if x != pos[0]], pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, kwo, kreq, a.vararg is not None, a.kwarg is not None


def misfit(call, f, bound):
    """why the call does not bind to the function, or None"""
    pos, req, kwo, kreq, va, kw = signature(f, bound)
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if n > len(pos) and not va:
        return f"{n} positional arguments given, {f.short} takes {len(pos)}"
    names = [k.arg for k in call.keywords if k.arg]
    for k in names:
        if k not in pos and k not in kwo and not kw:
            return f"{f.short} has no parameter '{k}'"
        if k in pos[:n]:
            return f"'{k}' is given twice to {f.short}"
    if not star and not dstar:
        for r in req:
            if r not in pos[:n] and r not in names:
                return f"the parameter '{r}' of {f.short} is missing"
        for r in kreq:
            if r not in names:
                return f"the parameter '{r}' of {f.short} is missing"
    return None


def own_body(fn):
    """nodes of a function with closures, but without nested classes and functions that have their own `self`"""
    first = {x.arg for x in fn.args.args[:1]}
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, ast.ClassDef) or isinstance(n, ast.FunctionDef) and first & {x.arg for x in n.args.args}:
            continue
        todo += list(ast.iter_child_nodes(n))


def check_function(res, p, m, c, f, fn, fam):
    owner = f"{c.name}.{fn.name}" if c is not None else fn.name

    def add(kind, n, msg, extra):
        res.add(Finding(f"{kind}|{owner}|{extra}".replace(" ", "_"), msg + f" ({owner})", f"{m.rel}:{n.lineno}", "P13-" + kind, [owner]))
    res.count("functions")
    for name, n in Unbound(p, m, fn, c).run().items():
        add("unbound", n, f"the local variable '{name}' is read on a path that has not assigned it", name)
    args = [x.arg for x in fn.args.posonlyargs + fn.args.args]
    me = args[0] if c is not None and f is not None and f.kind == "method" and args else None
    for n in own_body(fn):
        if isinstance(n, ast.Attribute):
            chain(res, p, m, n, add)
        if me and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
            res.count("self_attributes")
            names, opn = fam
            if n.attr not in names and n.attr not in guarded(fn) and not any(n.attr in words(o) for o in opn):
                add("attribute", n, f"'{me}.{n.attr}' is not defined anywhere in the family of {c.name}", n.attr)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr in p.accessors and isinstance(n.ctx, ast.Load):
            acc = p.accessors[n.value.attr]
            nm = family_attrs(p, acc)[0]
            if n.attr not in nm:
                add("attribute", n, f"the accessor '{n.value.attr}' has no attribute '{n.attr}'", n.attr)
        if isinstance(n, ast.Call):
            for tgt, bound in targets(p, m, c, f, n, me):
                res.count("bound_calls")
                why = misfit(n, tgt, bound)
                if why:
                    add("call", n, why, tgt.short)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            els = n.targets[0].elts
            if not any(isinstance(e, ast.Starred) for e in els):
                for tgt, _ in targets(p, m, c, f, n.value, me):
                    k = n_returned(tgt)
                    if k is not None and len(els) not in k:
                        add("unpack", n, f"{tgt.short} returns {sorted(k)} values, {len(els)} are unpacked", tgt.short)


def n_returned(f):
    if isinstance(f, FuncInfo) and f.name in ("__init__", "__new__"):
        return None
    ks = set()
    for n in own(f.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts):
                ks.add(len(n.value.elts))
            else:
                return None
    return ks or None


def own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def chain(res, p, m, n, add):
    """members of modules: a.b.c with an imported module a"""
    d = dotted(n)
    if d is None:
        return
    head = d.split(".")[0]
    if head not in m.imports or head in m.globals:
        return
    local = m.imports[head]
    parts = d.split(".")[1:]
    r = p.resolve(m, head)
    if isinstance(r, Module):
        if len(parts) == 1:
            res.count("module_members")
            if p._resolve1(r, parts[0]) is None and f"{r.name}.{parts[0]}" not in p.modules and not parts[0].startswith("__"):
                add("member", n, f"the module {r.name} has no member '{parts[0]}'", d)
        return
    if not isinstance(r, str):
        return
    cur = r
    for k, x in enumerate(parts):
        mem = members(cur)
        if mem is None:
            return
        if k == len(parts) - 1:
            res.count("module_members")
            if x not in mem and not x.startswith("__"):
                add("member", n, f"the module {cur} has no member '{x}'", d)
        cur = f"{cur}.{x}"


def targets(p, m, c, f, n, me):
    """project functions a call certainly refers to: [(FuncInfo, receiver is bound)]"""
    fn = n.func
    if isinstance(fn, ast.Name) or isinstance(fn, ast.Attribute) and dotted(fn) and dotted(fn).split(".")[0] != me:
        d = dotted(fn)
        head = d.split(".")[0]
        if f is not None and head in bound_names_cached(f.node):
            return []
        r = p.resolve(m, d) if d else None
        if isinstance(r, FuncInfo):
            if r.node.decorator_list:
                return []
            return [(r, False)]
        if isinstance(r, ClassInfo):
            i = p.find_method(r, "__new__")
            if isinstance(i, FuncInfo):
                return [(i, True)]
            i = p.find_method(r, "__init__")
            if isinstance(i, FuncInfo):
                return [(i, True)]
            return []
        if isinstance(r, str):
            e = ext_func(r)
            if e is not None:
                return [(ExtFunc(r, e), False)]
            for k in ext_mro(r) if r.split(".")[0] == "sklearn" and r.split(".")[-1][:1].isupper() else []:
                i = [x for x in k.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"]
                if i:
                    return [(ExtFunc(r, i[0]), True)] if not i[0].decorator_list else []
        if isinstance(fn, ast.Attribute) and dotted(fn.value):
            k = p.resolve(m, dotted(fn.value))
            if isinstance(k, ClassInfo):
                t = p.find_method(k, fn.attr)
                if isinstance(t, FuncInfo) and plain(t):
                    return [(t, t.kind == "class")]
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Attribute) and fn.value.attr in p.accessors:
        t = p.find_method(p.accessors[fn.value.attr], fn.attr)
        return [(t, t.kind != "static")] if isinstance(t, FuncInfo) and plain(t) else []
    if c is None or f is None:
        return []
    if me and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
        out = []
        for k in [c] + list(p.subclasses(c)):
            t = p.find_method(k, fn.attr)
            if isinstance(t, FuncInfo) and plain(t) and (t, t.kind != "static") not in out:
                # the calling method must be the one the class uses
                if p.find_method(k, f.name) is f:
                    out.append((t, t.kind != "static"))
        return out
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and dotted(fn.value.func) == "super" and not fn.value.args:
        out = []
        for k in [c] + list(p.subclasses(c)):
            if p.find_method(k, f.name) is f or f.name in c.methods:
                t = p.find_method(k, fn.attr, after=c)
                if isinstance(t, FuncInfo) and plain(t) and (t, t.kind != "static") not in out:
                    out.append((t, t.kind != "static"))
        return out
    return []


def plain(t):
    return not t.is_property and not any(dotted(d.func if isinstance(d, ast.Call) else d) not in ("classmethod", "staticmethod", "abc.abstractmethod",
                                         "abstractmethod", "property") for d in t.node.decorator_list)


_bn = {}


def bound_names_cached(node):
    r = _bn.get(id(node))
    if r is None:
        r = _bn[id(node)] = (bound_names(node)[0], node)
    return r[0]


def static(p):
    res = Result()
    for m in p.modules.values():
        und, k = undefined(p, m)
        res.count("name_loads", k)
        for fn, n in und:
            o = fn.name if fn is not None else m.rel
            for c in m.classes.values():
                if fn is not None and any(x is fn for x in ast.walk(c.node)):
                    o = f"{c.name}.{o}"
            res.add(Finding(f"name|{o}|{n.id}", f"the name '{n.id}' is not defined ({o})", f"{m.rel}:{n.lineno}", "P13-name", [o]))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level or base.split(".")[0] == PKG:
                    continue
                mem = members(base)
                for a in n.names:
                    if mem is not None and a.name != "*":
                        res.count("module_members")
                        if a.name not in mem:
                            res.add(Finding(f"member|{m.rel}|{base}.{a.name}", f"the module {base} has no member '{a.name}'",
                                            f"{m.rel}:{n.lineno}", "P13-member", [m.rel]))
        for nm, d in m.imports.items():
            if d.split(".")[0] == PKG and isinstance(p.by_dotted(d), str) and not exported(p, d):
                res.add(Finding(f"member|{m.rel}|{d}", f"the imported '{d}' does not exist", m.rel, "P13-member", [m.rel]))
        for c in m.classes.values():
            fam = family_attrs(p, c)
            for f in list(c.methods.values()) + list(c.setters.values()):
                check_function(res, p, m, c, f, f.node, fam)
                for g in ast.walk(f.node):
                    if isinstance(g, ast.FunctionDef) and g is not f.node:
                        check_function(res, p, m, None, None, g, None)
        for f in m.functions.values():
            check_function(res, p, m, None, f, f.node, None)
            for g in ast.walk(f.node):
                if isinstance(g, ast.FunctionDef) and g is not f.node:
                    check_function(res, p, m, None, None, g, None)
    return res


def exported(p, d):
    """name re-exported by star imports of a package"""
    base, _, last = d.rpartition(".")
    return base in p.modules and last in star_names(p, p.modules[base], set())


def star_names(p, m, seen):
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = bound_names(m.tree)[0]
    for s in m.star:
        if s in p.modules:
            out = out | star_names(p, p.modules[s], seen)
    return out


UNSUPPORTED = {}


def normal(ctx, item):
    cn, m = item
    p = ctx.p
    c = ctx.cls(cn) if cn else None
    f = E.public_methods(p, c, extra=("__init__", "__call__"))[m] if c else next(g for g in ctx.public_functions() if g.name == m)
    res = Result()
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [])
    res.count("operations")
    n = f"{cn}.{m}" if cn else m
    if rs is None:
        res.add(Finding(f"never|{n}", f"{n} fails on every path", f"{f.module.rel}:{f.node.lineno}", "P13-never", [f.short]))
    return res


def items(ctx):
    out = []
    p = ctx.p
    for c in ctx.public_classes(exclude=set(C.EXPERIMENTAL) | set(C.SOLVER)):
        if any(f.abstract for f in E.public_methods(p, c, extra=("__init__", "__call__")).values()):
            continue
        for m, f in E.public_methods(p, c, extra=("__init__", "__call__")).items():
            if not f.abstract and not f.is_property:
                out.append((c.name, m))
    return out + [(None, f.name) for f in ctx.public_functions()]


def run(ctx):
    res = static(ctx.p)
    res.merge(ctx.pmap(normal, items(ctx)))
    return res


SRC = """
import numpy as np
import scipy.linalg
def n1(x):
    return xx
def n2(x):
    if x > 0:
        y = 1
    return y
def ok_n2(x):
    if x > 0:
        y = 1
    z = 2
    if x > 0:
        z = y
    return z
def ok_n3(x, mode):
    if mode == "a":
        y = 1
    elif mode == "b":
        y = 2
    return y
def ok_n4(x):
    if x > 0:
        y = 1
    else:
        raise ValueError
    for i in range(3):
        u = i
    return y + u
def n5(x):
    try:
        y = int(x)
    except TypeError:
        print("no")
    return y
def m1(x):
    return np.no_such_function_(x)
def ok_m1(x):
    return np.sum(x) + scipy.linalg.svd(x)[0]
class A:
    def __init__(self):
        self.a = 1
    def ok_a(self):
        return self.a + self.f(1, b=2)
    def a1(self):
        return self.aa
    def f(self, x, b=3):
        return x, b
    def c1(self):
        return self.f()
    def c2(self):
        return self.f(1, c=2)
    def u1(self):
        x, y, z = self.f(1)
        return x
    def ok_u1(self):
        x, y = self.f(1)
        return x
"""


def selftest(ctx):
    from ..testkit import tiny
    p, _ = tiny(SRC)
    bad = {f.key.split("|")[1].split(".")[-1] for f in static(p).findings.values()}
    names = [f.name for f in p.all_functions() if f.name not in ("__init__", "f")]
    return {n: (n in bad) == (not n.startswith("ok_")) for n in names}
