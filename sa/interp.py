"""Abstract interpreter: flow-sensitive may-alias / effect / dependence analysis with
inlining of resolved project callees (context sensitive, memoised), receiver-class
dispatch, conditional constant propagation and must-facts.

Values are abstracted by: the set of abstract locations they may be (ident), may share a
data buffer with (buf), the possible types, a finite constant set, data/control dependence
labels, tuple components, possible callables and rule tags.
"""
import ast
import itertools
from .project import ClassInfo, FuncInfo, Module, Project, dotted, ext_property, AnalysisBroken

EMPTY = frozenset()
MAXCONST = 12


class Val:
    __slots__ = ("ident", "buf", "types", "const", "deps", "elems", "fn", "tags", "_h")

    def __init__(self, ident=EMPTY, buf=EMPTY, types=EMPTY, const=None, deps=EMPTY,
                 elems=None, fn=(), tags=EMPTY):
        self.ident, self.buf, self.types, self.const = ident, buf, types, const
        self.deps, self.elems, self.fn, self.tags = deps, elems, fn, tags
        self._h = None

    def key(self):
        return (self.ident, self.buf, self.types,
                None if self.const is None else frozenset((type(c).__name__, c) for c in self.const),
                self.deps, None if self.elems is None else tuple(e.key() for e in self.elems),
                tuple(sorted(map(repr, self.fn))), self.tags)

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def repl(self, **kw):
        d = dict(ident=self.ident, buf=self.buf, types=self.types, const=self.const,
                 deps=self.deps, elems=self.elems, fn=self.fn, tags=self.tags)
        d.update(kw)
        return Val(**d)

    def plus(self, deps):
        if not deps or deps <= self.deps:
            return self
        return self.repl(deps=self.deps | deps)

    @property
    def mem(self):
        return self.ident | self.buf

    def __repr__(self):
        s = []
        for k in ("ident", "buf", "types", "const", "deps", "elems", "fn", "tags"):
            v = getattr(self, k)
            if v:
                s.append(f"{k}={v}")
        return "Val(" + ", ".join(s) + ")"


UNK = Val()


def const(*cs, deps=EMPTY):
    ts = frozenset(type(c).__name__ for c in cs)
    return Val(const=frozenset(cs), types=ts, deps=deps)


NAN = float("nan")  # the value nan takes part in constant folding, everywhere the same object


def is_nan(v):
    return v is not None and v.const is not None and len(v.const) == 1 and next(iter(v.const)) is NAN


def simple(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return "self." + e.attr
    return None


INDEXER = {"loc", "iloc", "at", "iat"}  # an overridden indexer reads and writes the frame as the one of pandas does
META = {"columns", "shape", "index", "dtypes", "dtype", "n_features",
        "feature_names_in_", "n_features_in_", "feature_names_out_", "n_features_out_",
        "delta_time", "n_timesteps", "n_timeseries", "ids"}
METACALL = {"is_const_delta_time", "is_equal_length", "is_same_time_values", "is_normalized_time", "has_degenerate", "time_values",
            "is_finite", "is_datetime_index", "get_level_values"}
OTHER = frozenset(["~other"])
MAYBENONE = frozenset(["maybenone"])


def given(v):
    """certainly not None"""
    if v.const is not None:
        return None not in v.const
    if "!notnone" in v.tags:
        return True
    if "maybenone" in v.tags:
        return False
    return bool(v.elems is not None or v.ident and all(l[0] in ("F", "S", "C") for l in v.ident)
                or v.fn and not any(isinstance(f, LibMethod) for f in v.fn))


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    c = None
    if a.const is not None and b.const is not None:
        # True/1 collapse is harmless here
        c = a.const | b.const
        if len(c) > MAXCONST:
            c = None
    el = None
    if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
        el = tuple(join(x, y) for x, y in zip(a.elems, b.elems))
    # a type set is "exact" only if both are known
    ty = a.types | b.types if (a.types and b.types) else EMPTY
    # tags starting with '!' are must-tags (intersection), others may-tags (union)
    tg = frozenset(t for t in a.tags | b.tags
                   if not (isinstance(t, str) and t.startswith("!")) or (t in a.tags and t in b.tags))
    if a.const is not None and b.const is None and a.const == frozenset([None]):
        ty = b.types | frozenset(["NoneType"]) if b.types else EMPTY
    elif b.const is not None and a.const is None and b.const == frozenset([None]):
        ty = a.types | frozenset(["NoneType"]) if a.types else EMPTY
    if c is None and (a.const is not None and None in a.const or b.const is not None and None in b.const):
        tg |= MAYBENONE
    if "!notnone" not in tg and ("!notnone" in a.tags or "!notnone" in b.tags) and given(a) and given(b):
        tg |= {"!notnone"}
    if bool(a.ident) != bool(b.ident) and (b if a.ident else a).const != frozenset([None]):
        tg |= OTHER  # may also be an object without identity
    fn = a.fn if a.fn == b.fn else tuple({id(f) if not isinstance(f, tuple) else f: f for f in a.fn + b.fn}.values())
    return Val(a.ident | b.ident, a.buf | b.buf, ty, c, a.deps | b.deps, el, fn, tg)


class State:
    __slots__ = ("env", "heap", "facts", "pc")

    def __init__(self, env, heap, facts, pc=EMPTY):
        self.env, self.heap, self.facts, self.pc = env, heap, facts, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.pc)

    def same(self, o):
        return self.env == o.env and self.heap == o.heap and self.facts == o.facts


class Interp:
    """one analysis run; `hooks` is a list of objects with optional on_<event>(interp, **info)"""

    def __init__(self, proj, lib, hooks=(), max_depth=14, assume=None, opaque=None, inline=True,
                 prune=True, meta=False, nonempty=False, stubs=None, flow=False, alloc=False):
        self.alloc = alloc  # every computed array is an object of its own (per call chain)
        self.flow = flow  # track what was written into arrays and containers in place (heap slot '#d')
        self.call_deps = EMPTY
        self.nonempty = nonempty  # for-loops run at least once
        self.stubs = stubs or {}  # (class, method or property) -> what it returns
        self.stub_passed = set()  # stubs whose value let a guard pass
        self.p, self.lib = proj, lib
        self.hooks = list(hooks)
        self.max_depth = max_depth
        self.stack = []       # Frame list
        self.memo = {}
        self.assume = assume or {}
        self.opaque = opaque or (lambda f: False)
        self.inline = inline
        self.prune = prune
        self.meta = meta      # label what of a container a value was derived from (its columns, shape, finiteness)
        self.nsteps = 0
        self.visited = set()  # FuncInfo analysed
        self.ncalls = 0
        self._ev = {}
        self.loc_types = {}
        for ev in ("mutate", "setattr", "delattr", "readattr", "call", "raise_", "return_",
                   "branch", "guard", "assign", "expr", "enter", "unresolved", "store", "leave"):
            self._ev[ev] = [getattr(h, "on_" + ev) for h in self.hooks if hasattr(h, "on_" + ev)]

    # ------------------------------------------------------------------ events
    def emit(self, ev, **kw):
        for f in self._ev[ev]:
            f(self, **kw)

    @property
    def frame(self):
        return self.stack[-1]

    def chain(self):
        return [f.func for f in self.stack]

    # ------------------------------------------------------------------ entry
    def run(self, func, args, recv_cls=None, heap=None, facts=EMPTY):
        """analyse func with mapping name->Val; returns (Val|None, exit_state|None, raises)"""
        st = State({}, dict(heap or {}), facts)
        return self.exec_func(func, args, st, recv_cls, None)

    def exec_func(self, func, env, st, recv_cls, node, closure=None):
        fr = Frame(func, recv_cls, node, closure)
        self.visited.add(func)
        self.stack.append(fr)
        self.emit("enter", func=func, env=env, state=st, node=node)
        try:
            s = State(dict(env), dict(st.heap), st.facts, st.pc)
            out = self.block(func.node.body, s)
            if out is not None:
                rv = const(None)
                self.emit("return_", func=func, val=rv, node=None, state=out)
                fr.returns.append((rv.plus(out.pc - st.pc), out))
            if fr.is_gen:
                g = self.fresh(func.node, "generator", elem=fr.yields, deps=fr.yield_deps)
                fr.returns = [(g, s2) for _, s2 in fr.returns]
        finally:
            self.stack.pop()
        rv, rs = None, None
        for v, s2 in fr.returns:
            rv = join(rv, v)
            rs = s2 if rs is None else self.join_states(rs, s2)
        if rs is not None:
            rs = State(st.env, rs.heap, rs.facts, st.pc)
        return rv, rs, fr.raises

    # ------------------------------------------------------------------ states
    def join_states(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k), b.env.get(k)
            env[k] = join(x, y) if x is not None and y is not None else (x or y)
        heap, opened = {}, set()
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                z = x or y
                if k[1] == "closed":
                    continue
                if isinstance(k[1], tuple) and k[1][0] == "k":
                    # present on one path only: the keys are no longer known
                    opened.add(k[0])
                    continue
                # on the other path the slot still holds its entry content
                if k[0][0] in ("S", "F", "N"):
                    z = join(z, self.initial_slot(k))
                heap[k] = z
            else:
                heap[k] = join(x, y)
        for l in opened:
            if not any(k[0] == l for k in a.heap) or not any(k[0] == l for k in b.heap):
                # created on one path only
                for s in (a, b):
                    heap.update({k: v for k, v in s.heap.items() if k[0] == l})
            else:
                heap.pop((l, "closed"), None)
        return State(env, heap, a.facts & b.facts, a.pc & b.pc)

    @staticmethod
    def open_dict(l, st):
        """the keys of the dict are no longer known"""
        st.heap.pop((l, "closed"), None)
        for k in [k for k in st.heap if k[0] == l and isinstance(k[1], tuple)]:
            del st.heap[k]

    def closed_keys(self, v, st):
        """{key: value} of a dict whose keys are all known, else None"""
        if len(v.ident) != 1 or v.buf or v.types != frozenset(["dict"]):
            return None
        l = next(iter(v.ident))
        c = st.heap.get((l, "closed"))
        if c is None or c.const != frozenset([True]):
            return None
        return {k[1][1]: x for k, x in st.heap.items() if k[0] == l and isinstance(k[1], tuple) and k[1][0] == "k"}

    def truth(self, v, st):
        ks = self.closed_keys(v, st)
        return self.lib.truth(v) if ks is None else bool(ks)

    def initial_slot(self, k):
        loc, attr = k
        if isinstance(attr, str) and attr.startswith("has:"):
            return Val(types=frozenset(["bool"]), deps=frozenset([("attr", attr[4:])]) if loc[0] == "S" else EMPTY)
        if loc[0] in ("S",):
            return self.entry_attr(loc, attr)
        return UNK

    def entry_attr(self, loc, attr):
        t = self.assume.get(("attr", attr))
        if t is not None:
            return t
        ty = self.lib.attr_types(self.p, self.loc_cls(loc), attr) if self.loc_cls(loc) else EMPTY
        fn = self.lib.handles(self.p, self.loc_cls(loc), attr) if self.loc_cls(loc) else ()
        return Val(ident=frozenset([("A", loc, attr)]), deps=frozenset([("attr", attr)]), types=ty, fn=fn)

    def loc_cls(self, loc):
        return self.loc_types.get(loc)

    def site(self):
        if not self.alloc:
            return self.frame.func.qual
        return (self.frame.func.qual,) + tuple((getattr(f.node, "lineno", 0), getattr(f.node, "col_offset", 0)) for f in self.stack[1:])

    def fresh(self, node, typ=None, elem=None, st=None, deps=EMPTY, buf=EMPTY, key=None):
        loc = ("F", self.site() if self.stack else "?", getattr(node, "lineno", 0),
               getattr(node, "col_offset", 0), key)
        types = frozenset([typ]) if typ else EMPTY
        if elem is not None and st is not None:
            self.heap_join(st, (loc, "[]"), elem)
        v = Val(ident=frozenset([loc]), types=types, deps=deps, buf=buf)
        if elem is not None and st is None:
            v = v.repl(elems=None, tags=frozenset(), buf=buf | elem.mem)
        return v

    def heap_join(self, st, k, v):
        old = st.heap.get(k)
        st.heap[k] = v if old is None else join(old, v)

    # ------------------------------------------------------------------ blocks
    def block(self, stmts, st):
        for i, s in enumerate(stmts):
            if st is None:
                return None
            if isinstance(s, ast.If) and self.frame.nsplit < 3 and self.flag_names(s, stmts, i):
                # trace partitioning: a flag is set to different constants and tested later on
                ra, rb, r = self.if_parts(s, st)
                if ra is not None and rb is not None and any(
                        self.flag_val(ra, v) != self.flag_val(rb, v) for v in self.flag_names(s, stmts, i)):
                    self.frame.nsplit += 1
                    try:
                        outs = []
                        for x in (ra, rb):
                            x.pc = st.pc
                            outs.append(self.block(stmts[i + 1:], x))
                    finally:
                        self.frame.nsplit -= 1
                    return self.join_states(*outs)
                st = r() if r is not None else None
                continue
            st = self.stmt(s, st)
        return st

    _flags = {}

    def flag_names(self, n, stmts, i):
        """names/attributes of self set to different constants in the branches, or tested by n itself,
        that are tested again later on in the same block"""
        k = id(n)
        r = self._flags.get(k)
        if r is None or r[0] is not n:
            setn, stores = set(), False
            for b in n.body + n.orelse:
                for x in ast.walk(b):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            nm = simple(t)
                            if nm and nm.startswith("self."):
                                stores = True
                            if nm and isinstance(x.value, ast.Constant) and (
                                    x.value.value is None or isinstance(x.value.value, bool)):
                                setn.add(nm)
            if stores:
                # a correlated test of the same variable
                t = n.test
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t = t.operand
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
                    t = t.left
                nm = simple(t)
                if nm:
                    setn.add(nm)
            tested = set()
            if setn:
                for b in stmts[i + 1:]:
                    for x in ast.walk(b):
                        if isinstance(x, (ast.If, ast.IfExp, ast.Assert)):
                            tested |= {simple(y) for y in ast.walk(x.test) if isinstance(y, (ast.Name, ast.Attribute))}
            r = (n, setn & tested)
            self._flags[k] = r
        return r[1]

    _unstable = {}

    def stable_truth(self, nm):
        """the object bound to the name cannot change its truth value within the function: it is never the
        receiver or the argument of a call nor the target of an item assignment"""
        node = self.frame.func.node
        r = self._unstable.get(id(node))
        if r is None or r[0] is not node:
            bad = set()
            for b in body_of(node):
                for x in ast.walk(b):
                    if isinstance(x, ast.Call):
                        if isinstance(x.func, ast.Attribute):
                            bad.add(simple(x.func.value))
                        if not (isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr", "len", "type", "print", "str", "callable")):
                            for y in list(x.args) + [k.value for k in x.keywords]:
                                bad.add(simple(y.value if isinstance(y, ast.Starred) else y))
                    elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        bad.add(simple(x.value))
                    elif isinstance(x, ast.AugAssign):
                        bad.add(simple(x.target))
            r = (node, bad)
            self._unstable[id(node)] = r
        return nm is not None and nm not in r[1]

    def flag_val(self, st, nm):
        if nm.startswith("self."):
            base = st.env.get("self")
            if base is None or len(base.ident) != 1:
                return None
            return st.heap.get((next(iter(base.ident)), nm[5:]))
        return st.env.get(nm)

    def stmt(self, n, st):
        self.nsteps += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return st
        try:
            return m(n, st)
        except Dead:
            return None

    def s_Expr(self, n, st):
        self.ev(n.value, st)
        return st

    def s_Pass(self, n, st):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n)
        return st

    def s_AugAssign(self, n, st):
        t = n.target
        rhs = self.ev(n.value, st)
        self.call_deps = rhs.deps
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            self.inplace(old, n, st, "augassign")
            res = self.lib.binop(self, n.op, old, rhs, n, inplace=True)
            if not self.lib.immutable(old):
                res = res.repl(ident=old.ident | res.ident, buf=old.buf | res.buf,
                               types=old.types or res.types)
            st.env[t.id] = res.plus(st.pc)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            old = self.read_attr(base, t.attr, t, st)
            self.inplace(old, n, st, "augassign")
            res = self.lib.binop(self, n.op, old, rhs, n, inplace=True)
            if not self.lib.immutable(old):
                res = res.repl(ident=old.ident | res.ident, buf=old.buf | res.buf)
            self.store_attr(base, t.attr, res, t, st, aug=True)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            ix = self.ev(t.slice, st)
            self.inplace(base, n, st, "setitem", index=ix, value=rhs)
        return st

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else const(None)
        v = v.plus(st.pc)
        self.emit("return_", func=self.frame.func, val=v, node=n, state=st)
        self.frame.returns.append((v, st))
        return None

    def s_Raise(self, n, st):
        if n.exc is not None:
            v = self.ev(n.exc, st)
        else:
            v = UNK
        self.emit("raise_", node=n, val=v, state=st)
        self.frame.do_raise(n, v, st, self)
        return None

    def s_Assert(self, n, st):
        t, a, b = self.cond(n.test, st)
        if self.stubs and t is True:
            self.stub_passed |= {d[1] for d in self.cond_deps(n.test, st) if d[0] == "stub"}
        if b is not None:
            self.frame.do_raise(n, Val(types=frozenset(["AssertionError"])), b, self)
            if a is not None and self._ev["guard"]:
                self.emit("guard", node=n, deps=self.guard_deps(n.test, st, False), state=a)
        return a

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.emit("delattr", base=base, attr=t.attr, node=n, state=st)
                self.del_attr(base, t.attr, st)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                ix = self.ev(t.slice, st)
                self.inplace(base, n, st, "delitem", index=ix)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_If(self, n, st):
        ra, rb, r = self.if_parts(n, st)
        s = r()
        if self._ev["guard"] and s is not None and (ra is None) != (rb is None) and r.both \
                and not self.exits_normally(n.body if ra is None else n.orelse):
            self.emit("guard", node=n, deps=self.guard_deps(n.test, st, ra is None), state=s)
        return s

    def if_parts(self, n, st):
        try:
            t, a, b = self.cond(n.test, st)
        except Dead:
            def none():
                return None
            none.both = False
            return None, None, none
        self.emit("branch", node=n, truth=t, state=st)
        if self.stubs and t is not None and any(isinstance(b, ast.Raise) for b in (n.orelse if t else n.body)):
            self.stub_passed |= {d[1] for d in self.cond_deps(n.test, st) if d[0] == "stub"}
        pc = st.pc
        pcd = pc | self.cond_deps(n.test, st)
        ra = rb = None
        if a is not None:
            a.pc = pcd
            ra = self.block(n.body, a)
        if b is not None:
            b.pc = pcd
            if self._ev["guard"] and a is not None and ra is None and n.orelse and not self.exits_normally(n.body):
                self.emit("guard", node=n, deps=self.guard_deps(n.test, st, True), state=b)
            rb = self.block(n.orelse, b)

        def joined():
            # if one branch exits, the continuation is control dependent on the test
            if ra is None or rb is None:
                r = ra if rb is None else rb
                if r is not None:
                    if a is None or b is None:
                        r.pc = pc
                    elif self.exits_normally(n.body if ra is None else n.orelse):
                        r.pc = pcd
                    else:
                        r.pc = pc
                return r
            r = self.join_states(ra, rb)
            r.pc = pc
            return r
        joined.both = a is not None and b is not None
        return ra, rb, joined

    def exits_normally(self, body):
        return any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for b in body for x in ast.walk(b))

    def s_While(self, n, st):
        return self.loop(n, st, None)

    def s_For(self, n, st):
        it = self.ev(n.iter, st)
        return self.loop(n, st, it)

    s_AsyncFor = s_For

    def loop(self, n, st, it):
        fr = self.frame
        pre = st
        out = None
        fr.loops.append([])
        brk_all = []
        fixed_exit = None
        pc = st.pc
        static = None
        if it is not None and isinstance(n.iter, (ast.Tuple, ast.List)) and it.elems and len(it.elems) <= 4:
            static = it.elems
        elif it is not None and self.nonempty:
            static = True
        early = EMPTY  # what decides about leaving the loop early (flow mode)
        for k in range(3):
            cur = pre.copy()
            fr.loops[-1] = []
            if it is None:
                t, a, b = self.cond(n.test, cur)
                fixed_exit = self.join_states(fixed_exit, b) if b is not None else fixed_exit
                if a is None:
                    break
                a.pc = pc | self.cond_deps(n.test, a) | early
                body_in = a
            else:
                body_in = cur
                self.assign(n.target, self.lib.element(self, it, n, cur), body_in, n)
                body_in.pc = pc | it.deps | early
                fixed_exit = self.join_states(fixed_exit, pre)
            # snapshots of break/continue states
            res = self.block(n.body, body_in)
            brk = [s for kd, s in fr.loops[-1] if kd == "break"]
            cont = [s for kd, s in fr.loops[-1] if kd == "continue"]
            for s in cont:
                res = self.join_states(res, s) if res is not None else s
            brk_all += brk
            if res is None:
                break
            more = early.union(*(s.pc for s in brk + cont)) if self.flow else early
            grew, early = more != early, more
            res.pc = pc
            nxt = self.join_states(pre, res)
            nxt.pc = pc
            if nxt.same(pre) and not grew:
                pre = nxt
                break
            pre = nxt
        fr.loops.pop()
        if it is not None:
            if static and (pre is not None):
                # statically non-empty iteration: the body ran at least once
                exit_st = res if res is not None else None
                if exit_st is not None:
                    exit_st = self.join_states(exit_st, exit_st)
                if exit_st is None and not brk_all:
                    exit_st = None
            else:
                exit_st = pre if fixed_exit is None else self.join_states(fixed_exit, pre)
        else:
            exit_st = fixed_exit
        if exit_st is not None and n.orelse:
            exit_st.pc = pc
            exit_st = self.block(n.orelse, exit_st)
        for s in brk_all:
            exit_st = self.join_states(exit_st, s)
        if exit_st is not None:
            exit_st.pc = pc
        return exit_st

    def s_Break(self, n, st):
        if self.frame.loops:
            self.frame.loops[-1].append(("break", st))
        return None

    def s_Continue(self, n, st):
        if self.frame.loops:
            self.frame.loops[-1].append(("continue", st))
        return None

    def s_With(self, n, st):
        for i in n.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, n)
        return self.block(n.body, st)

    s_AsyncWith = s_With

    def s_Try(self, n, st):
        fr = self.frame
        pc = st.pc
        h = TryCtx(n)
        fr.tries.append(h)
        snaps = [st.copy()]
        cur = st
        for s in n.body:
            if cur is None:
                break
            cur = self.stmt(s, cur)
            if cur is not None:
                snaps.append(cur.copy())
        fr.tries.pop()
        exc = None
        for s in snaps[:-1] if cur is not None else snaps:
            exc = self.join_states(exc, s)
        if exc is None:
            exc = snaps[0]
        for s in h.states:
            exc = self.join_states(exc, s)
        if cur is not None and n.orelse:
            cur = self.block(n.orelse, cur)
        outs = [cur] if cur is not None else []
        for hd in n.handlers:
            hs = exc.copy()
            hs.pc = pc
            if hd.name:
                hs.env[hd.name] = Val(types=frozenset(["Exception"]))
            o = self.block(hd.body, hs)
            if o is not None:
                outs.append(o)
        if not n.handlers:
            exc2 = exc.copy()
            self.block(n.finalbody, exc2)
        r = None
        for o in outs:
            r = self.join_states(r, o)
        if n.finalbody:
            if r is None:
                self.block(n.finalbody, exc.copy())
            else:
                r = self.block(n.finalbody, r)
        if r is not None:
            r.pc = pc
        return r

    s_TryStar = s_Try

    def s_FunctionDef(self, n, st):
        fi = FuncInfo(self.frame.func.module, n, outer=self.frame.func)
        cv = Closure(fi, st, self.frame)
        st.env[n.name] = Val(fn=(cv,), types=frozenset(["function"]))
        return st

    def s_ClassDef(self, n, st):
        v = UNK
        if self.flow:
            # its methods read the variables of the enclosing function
            names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            v = v.plus(st.pc.union(*(st.env[x].deps for x in names if x in st.env)))
        st.env[n.name] = v
        return st

    def s_Match(self, n, st):
        sub = self.ev(n.subject, st)
        r = None
        for c in n.cases:
            s2 = st.copy()
            r2 = self.block(c.body, s2)
            r = self.join_states(r, r2) if r is not None else r2
        return self.join_states(r, st)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            v = v.plus(st.pc)
            st.env[t.id] = v
            self.emit("assign", name=t.id, val=v, node=node, state=st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = any(isinstance(e, ast.Starred) for e in t.elts)
            if v.elems is not None and not stars and len(v.elems) == len(t.elts):
                for e, x in zip(t.elts, v.elems):
                    self.assign(e, x.plus(v.deps), st, node)
            else:
                el = self.lib.element(self, v, node, st)
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, el, st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.store_attr(base, t.attr, v.plus(st.pc), t, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            ix = self.ev(t.slice, st)
            self.inplace(base, t, st, "setitem", index=ix, value=v)
            for l in base.ident:
                if l[0] == "F":
                    self.heap_join(st, (l, "[]"), v)
                    if ix.const and len(ix.const) == 1:
                        k = ("k", next(iter(ix.const)))
                        st.heap[(l, k)] = v
                    elif (l, "closed") in st.heap:
                        self.open_dict(l, st)
            # writing array data makes the container depend on v
            if isinstance(t.value, ast.Name) and t.value.id in st.env:
                b = st.env[t.value.id]
                st.env[t.value.id] = b.plus(v.deps | ix.deps | st.pc)
            elif isinstance(t.value, ast.Attribute):
                bb = self.ev(t.value.value, st)
                for l in bb.ident:
                    k = (l, t.value.attr)
                    if k in st.heap:
                        st.heap[k] = st.heap[k].plus(v.deps | ix.deps | st.pc)
                if isinstance(t.value.value, ast.Name) and t.value.value.id in st.env:
                    nm = t.value.value.id
                    if nm != "self":
                        st.env[nm] = st.env[nm].plus(v.deps | ix.deps | st.pc)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def store_attr(self, base, attr, v, node, st, aug=False):
        # property setter?
        for c in self.classes_of(base):
            f = self.p.find_method(c, attr, setter=True)
            if isinstance(f, FuncInfo):
                self.emit("setattr", base=base, attr=attr, val=v, node=node, state=st, prop=f)
                ps = f.args
                env = {ps[0]: base, ps[1]: v} if len(ps) > 1 else {}
                self.inline_call(f, env, st, c, node)
                return
        self.emit("setattr", base=base, attr=attr, val=v, node=node, state=st, prop=None)
        strong = len(base.ident) == 1
        for l in base.ident:
            k = (l, attr)
            if strong and l[0] in ("S", "F", "A", "P", "N"):
                st.heap[k] = v
                if (l, "has:" + attr) in st.heap:
                    st.heap[(l, "has:" + attr)] = const(True)
            else:
                self.heap_join(st, k, v)

    def del_attr(self, base, attr, st):
        for l in base.ident:
            if len(base.ident) == 1:
                st.heap[(l, attr)] = Val(tags=frozenset(["!deleted"]))
                st.heap[(l, "has:" + attr)] = const(False)
            else:
                st.heap.pop((l, "has:" + attr), None)

    def inplace(self, base, node, st, how, **kw):
        if self.lib.immutable(base):
            return
        if base.types and base.types <= {"list", "dict", "set"}:
            base = base.repl(buf=EMPTY)  # the container changes, not the objects it refers to
        self.emit("mutate", val=base, how=how, node=node, state=st, **kw)
        if self.flow:
            d = st.pc
            for v in kw.values():
                if isinstance(v, Val):
                    d |= v.deps
            if isinstance(node, (ast.Call, ast.AugAssign)):
                d |= self.call_deps
            if d:
                for l in base.ident | base.buf:
                    self.heap_join(st, (l, "#d"), Val(deps=d))

    def deep(self, v, st, stop=()):
        """labels of a value and of everything reachable from it"""
        slots = {}
        for (l, a), x in st.heap.items():
            if not (isinstance(a, str) and a.startswith("has:")):
                slots.setdefault(l, []).append(x)
        out, seen, todo = set(), set(stop), [v]
        while todo:
            x = todo.pop()
            out |= x.deps
            todo += list(x.elems or ())
            for l in x.ident | x.buf:
                if l in seen:
                    continue
                seen.add(l)
                todo += slots.get(l, ())
        return frozenset(out)

    # ------------------------------------------------------------------ conditions
    def cond_deps(self, test, st):
        # control dependence labels of the condition: evaluated silently
        hs, self._ev = self._ev, {k: [] for k in self._ev}
        try:
            return self.ev(test, st.copy()).deps
        except Dead:
            return EMPTY
        finally:
            self._ev = hs

    def guard_deps(self, test, st, when):
        """sources that decide about the refusal of a guard (which refuses if the test is `when`): if several
        conditions have to hold for it, only what all of them test is tested on every path"""
        hs, self._ev = self._ev, {k: [] for k in self._ev}
        try:
            return self._guard_deps(test, st.copy(), when)
        except Dead:
            return EMPTY
        finally:
            self._ev = hs

    def _guard_deps(self, test, st, when):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self._guard_deps(test.operand, st, not when)
        if not isinstance(test, ast.BoolOp):
            return self.ev(test, st).deps
        is_and, out, cur = isinstance(test.op, ast.And), None, st
        for v in test.values:
            if cur is None:
                break
            d = self._guard_deps(v, cur.copy(), when)
            t, a, b = self.cond(v, cur)
            cur = a if is_and else b
            if is_and == when:
                if t is when:
                    continue  # holds anyway
                out = d if out is None else out & d
            else:
                out = d if out is None else out | d
        return EMPTY if out is None else out

    def cond(self, test, st):
        """evaluate condition: (truth, state_if_true|None, state_if_false|None)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, a, b = self.cond(test.operand, st)
            return (None if t is None else not t), b, a
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            cur, done = st, None
            truth = True if is_and else False
            for v in test.values:
                if cur is None:
                    break
                t, a, b = self.cond(v, cur)
                if is_and:
                    done = self.join_states(done, b)
                    cur = a
                    truth = False if t is False else (None if t is None or truth is None else truth)
                    if t is False:
                        truth = False
                        break
                else:
                    done = self.join_states(done, a)
                    cur = b
                    if t is True:
                        truth = True
                        break
                    truth = None if t is None or truth is None else truth
            if is_and:
                return truth, cur, done
            return truth, done, cur
        v = self.ev(test, st)
        t = self.truth(v, st)
        if not self.prune:
            t = None
        a = b = None
        if t is not False:
            a = st.copy()
            self.narrow(test, a, True)
        if t is not True:
            b = st.copy()
            self.narrow(test, b, False)
        return t, a, b

    def narrow(self, test, st, pos):
        def setv(expr, f):
            if isinstance(expr, ast.Name) and expr.id in st.env:
                v = st.env[expr.id] = f(st.env[expr.id])
                if "!notnone" in v.tags and len(v.ident) == 1 and not v.const:
                    st.facts |= {("nn", next(iter(v.ident)))}  # holds for every name of the object
            elif isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
                base = st.env.get(expr.value.id)
                if base is not None and len(base.ident) == 1:
                    k = (next(iter(base.ident)), expr.attr)
                    v = st.heap.get(k)
                    if v is None and k[0][0] == "S":
                        v = self.initial_slot(k)
                    if v is not None and self.slot_is_plain(base, expr.attr):
                        st.heap[k] = f(v)
            elif isinstance(expr, ast.NamedExpr):
                setv(expr.target, f)

        if isinstance(test, (ast.Name, ast.Attribute)):
            def f(v):
                if v.const is not None:
                    return v.repl(const=frozenset(c for c in v.const if bool(c) == pos))
                if v.const is None and self.stable_truth(simple(test)):
                    v = v.repl(tags=v.tags | {"!truthy" if pos else "!falsy"})
                if pos:
                    return v.repl(tags=v.tags - MAYBENONE | {"!notnone"})
                return v
            setv(test, f)
        elif isinstance(test, ast.NamedExpr):
            self.narrow(test.target, st, pos)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, rhs = test.ops[0], test.comparators[0]
            isn = isinstance(rhs, ast.Constant) and rhs.value is None
            if isinstance(op, (ast.Is, ast.Eq)) and isn or isinstance(op, (ast.IsNot, ast.NotEq)) and isn:
                want_none = isinstance(op, (ast.Is, ast.Eq)) == pos

                def f(v):
                    if want_none:
                        return Val(const=frozenset([None]), types=frozenset(["NoneType"]), deps=v.deps)
                    c = v.const
                    if c is not None:
                        c = c - {None}
                    return v.repl(const=c, types=v.types - {"NoneType"}, tags=v.tags - MAYBENONE | {"!notnone"})
                setv(test.left, f)
            elif isinstance(op, (ast.Eq, ast.Is)) and isinstance(rhs, ast.Constant) or \
                    isinstance(op, (ast.NotEq, ast.IsNot)) and isinstance(rhs, ast.Constant):
                eq = isinstance(op, (ast.Eq, ast.Is)) == pos

                def f(v):
                    if eq:
                        return v.repl(const=frozenset([rhs.value]))
                    if v.const is not None:
                        return v.repl(const=v.const - {rhs.value})
                    return v
                setv(test.left, f)
            elif isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and isinstance(test.left, ast.Call) \
                    and dotted(test.left.func) == "type" and len(test.left.args) == 1:
                eq = isinstance(op, (ast.Eq, ast.Is)) == pos
                ts = self.lib.type_names(self, rhs, self.frame.func.module)
                if ts and eq:
                    setv(test.left.args[0], lambda v: v.repl(types=frozenset(ts), const=None,
                                                             tags=v.tags - MAYBENONE | {"!notnone"}))
                elif ts and not eq and not isinstance(rhs, ast.Tuple):
                    # only exact classes are excluded; frames stay possible (subclasses)
                    setv(test.left.args[0], lambda v: v.repl(types=v.types - frozenset(ts) if len(v.types - frozenset(ts)) else v.types))
            elif isinstance(op, (ast.In, ast.NotIn)):
                rv = self._silent(rhs, st)
                if rv is not None and rv.elems is not None and all(
                        e.const is not None and len(e.const) == 1 for e in rv.elems):
                    cs = frozenset(next(iter(e.const)) for e in rv.elems)
                    inn = isinstance(op, ast.In) == pos

                    def f(v):
                        if inn:
                            return v.repl(const=cs if v.const is None else v.const & cs)
                        if v.const is not None:
                            return v.repl(const=v.const - cs)
                        return v
                    setv(test.left, f)
        elif isinstance(test, ast.Call):
            fn = dotted(test.func)
            if fn == "hasattr" and len(test.args) == 2 and isinstance(test.args[1], ast.Constant):
                bv = self._silent(test.args[0], st)
                if bv is not None and len(bv.ident) == 1 and next(iter(bv.ident))[0] == "S":
                    k = (next(iter(bv.ident)), "has:" + str(test.args[1].value))
                    st.heap[k] = const(pos, deps=st.heap[k].deps if k in st.heap else frozenset([("attr", k[1][4:])]))
            if fn == "isinstance" and len(test.args) == 2:
                ts = self.lib.type_names(self, test.args[1], self.frame.func.module)
                if ts:
                    def f(v):
                        if pos:
                            keep = frozenset(t for t in v.types if self.lib.subtype(self.p, t, ts) is not False)
                            v = v.repl(types=keep or frozenset(ts), tags=v.tags - MAYBENONE | {"!notnone"})
                            if v.const is not None:
                                v = v.repl(const=frozenset(c for c in v.const if c is not None) or None)
                            return v
                        if v.types:
                            left = frozenset(t for t in v.types if not self.lib.subtype(self.p, t, ts))
                            return v.repl(types=left)
                        return v
                    setv(test.args[0], f)

    def slot_is_plain(self, base, attr):
        for c in self.classes_of(base):
            f = self.p.find_method(c, attr)
            if f is not None:
                return False
        return True

    def _silent(self, e, st):
        hs, self._ev = self._ev, {k: [] for k in self._ev}
        try:
            return self.ev(e, st.copy())
        except Dead:
            return None
        finally:
            self._ev = hs

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        v = m(n, st) if m else self.generic(n, st)
        if self.flow and isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)) and (v.ident or v.buf):
            d = EMPTY
            for l in v.ident | v.buf:
                g = st.heap.get((l, "#d"))
                if g is not None:
                    d |= g.deps
            v = v.plus(d)
        if self.alloc and not v.ident and not v.buf and not v.fn and v.const is None and v.elems is None \
                and isinstance(n, (ast.BinOp, ast.UnaryOp, ast.Call)) and self.stack and not self.lib.immutable(v):
            v = v.repl(ident=frozenset([("F", self.site(), n.lineno, n.col_offset, "value")]))
        if self._ev["expr"]:
            self.emit("expr", node=n, val=v, state=st)
        return v

    def generic(self, n, st):
        d = EMPTY
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                d |= self.ev(c, st).deps
        return Val(deps=d)

    def e_Constant(self, n, st):
        try:
            return const(n.value)
        except TypeError:
            return UNK

    def e_JoinedStr(self, n, st):
        d = EMPTY
        for c in n.values:
            d |= self.ev(c, st).deps
        return Val(deps=d, types=frozenset(["str"]))

    def e_FormattedValue(self, n, st):
        return Val(deps=self.ev(n.value, st).deps, types=frozenset(["str"]))

    def e_Name(self, n, st):
        if n.id in st.env:
            v = st.env[n.id]
            if st.facts and len(v.ident) == 1 and "!notnone" not in v.tags and v.const is None \
                    and ("nn", next(iter(v.ident))) in st.facts:
                v = v.repl(tags=v.tags - MAYBENONE | {"!notnone"})
            return v
        fr = self.frame
        c = fr.closure
        while c is not None:
            if n.id in c.state.env:
                return c.state.env[n.id]
            c = c.frame.closure
        return self.global_name(n.id, fr.func.module, n, st)

    def global_name(self, name, module, n, st):
        r = self.p.resolve(module, name)
        return self.ref(r, name, n, st)

    def ref(self, r, name, n, st):
        if isinstance(r, ClassInfo):
            return Val(fn=(r,), types=frozenset(["type"]), ident=frozenset([("C", r.qual)]))
        if isinstance(r, FuncInfo):
            return Val(fn=(r,), types=frozenset(["function"]))
        if isinstance(r, Module):
            return Val(fn=(r,), types=frozenset(["module"]))
        if isinstance(r, tuple) and r[0] == "global":
            v = r[1].globals.get(r[2])
            g = ("G", r[1].name, r[2])
            if r[2] in r[1].multi:
                return Val(ident=frozenset([g]))
            if isinstance(v, ast.Constant):
                return const(v.value)
            if isinstance(v, (ast.List, ast.Tuple)):
                el = []
                for e in v.elts:
                    if isinstance(e, ast.Constant):
                        el.append(const(e.value))
                    else:
                        el = None
                        break
                return Val(ident=frozenset([g]), elems=tuple(el) if el is not None else None)
            return Val(ident=frozenset([g]))
        if isinstance(r, str):
            return Val(fn=("lib:" + r,), types=EMPTY)
        if name in BUILTINS:
            if name in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[name])
            return Val(fn=("lib:builtins." + name,))
        return UNK

    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        if self.meta and n.attr in META:
            return self.labelled(self.read_attr(base, n.attr, n, st), n.attr)
        return self.read_attr(base, n.attr, n, st)

    def classes_of(self, v):
        """project classes the value may be an instance of"""
        out = []
        for t in v.types:
            if isinstance(t, ClassInfo):
                out.append(t)
        return out

    def read_attr(self, base, attr, n, st):
        # module / lib dotted
        outs = []
        for f in base.fn:
            if isinstance(f, Module):
                r = self.p.resolve(f, attr)
                if r is None:
                    r = self.p.modules.get(f"{f.name}.{attr}")
                outs.append(self.ref(r, attr, n, st))
            elif isinstance(f, str):
                outs.append(Val(fn=(f"{f}.{attr}",)))
            elif isinstance(f, ClassInfo):
                m = self.p.find_method(f, attr)
                if isinstance(m, FuncInfo):
                    outs.append(Val(fn=(Bound(m, base if m.kind == "class" else None, f),)))
                elif isinstance(m, str):
                    outs.append(Val(fn=(f"lib:{m[4:]}.{attr}",)))
                else:
                    ca = self.p.class_attr(f, attr)
                    if ca is not None:
                        outs.append(self.class_attr_val(ca, st))
            elif isinstance(f, Super):
                r = self.p.find_method(f.cls, attr, after=f.after)
                if isinstance(r, FuncInfo):
                    if r.is_property:
                        return self.inline_call(r, {r.args[0]: f.recv}, st, f.cls, n)
                    outs.append(Val(fn=(Bound(r, f.recv, f.cls),)))
                else:
                    ext = r[4:] if isinstance(r, str) else "object"
                    outs.append(Val(fn=(LibMethod(f.recv, attr, ext),)))
        if outs:
            r = None
            for o in outs:
                r = join(r, o)
            return r
        if self._ev["readattr"]:
            self.emit("readattr", base=base, attr=attr, node=n, state=st)
        if attr == "__class__":
            cs = self.classes_of(base)
            return Val(fn=tuple(cs), deps=base.deps)
        if attr == "__dict__":
            return Val(ident=base.ident, deps=base.deps, types=frozenset(["dict"]), tags=frozenset(["objdict"]))
        res = None
        plain_checked = False
        clss = self.classes_of(base)
        for c in clss:
            m = self.p.find_method(c, attr)
            if isinstance(m, FuncInfo) and attr in INDEXER and self.p.is_sub(c, "DataFrame"):
                res = join(res, self.lib.attr(self, base, attr, n, st))
                plain_checked = True
            elif isinstance(m, FuncInfo):
                if m.is_property:
                    r = self.inline_call(m, {m.args[0]: base}, st, c, n)
                    res = join(res, r)
                else:
                    bv = Val(fn=(Bound(m, base if m.kind == "method" else (Val(fn=(c,)) if m.kind == "class" else None), c),),
                             deps=base.deps)
                    res = join(res, bv)
                plain_checked = True
            elif attr in self.p.accessors and self.p.is_sub(c, "DataFrame"):
                res = join(res, self.accessor(attr, base, n, st))
                plain_checked = True
            elif isinstance(m, str) and attr in self.lib.METHODY:
                res = join(res, Val(fn=(LibMethod(base, attr, m[4:]),), deps=base.deps))
                plain_checked = True
        if plain_checked and res is not None and len(clss) == len(base.types):
            return res
        if attr in self.p.accessors and (plain_checked and res is not None or not clss):
            return res if res is not None else self.accessor(attr, base, n, st)
        # heap slots
        hv, known = None, False
        for l in base.ident:
            k = (l, attr)
            if k in st.heap:
                hv = join(hv, st.heap[k])
                known = True
            elif l[0] == "S":
                cls = self.loc_cls(l)
                ca = self.p.class_attr(cls, attr) if cls else None
                if ca is not None:
                    hv = join(hv, self.class_attr_val(ca, st))
                elif cls is not None and isinstance(self.p.find_method(cls, attr), str) \
                        and not ext_property(self.p.find_method(cls, attr)[4:], attr):
                    hv = join(hv, Val(fn=(LibMethod(base, attr, self.p.find_method(cls, attr)[4:]),)))
                else:
                    hv = join(hv, self.initial_slot(k))
                known = True
        if known:
            other = [l for l in base.ident if (l, attr) not in st.heap and l[0] != "S"]
            if other:
                hv = join(hv, self.lib.attr(self, base.repl(ident=frozenset(other)), attr, n, st))
            if attr in ("index", "columns") and not hv.types:
                hv = hv.repl(types=frozenset(["index"]))
            return join(res, hv).plus(base.deps) if res is not None else hv.plus(base.deps)
        if clss and len(clss) == len(base.types):
            cas = [self.p.class_attr(c, attr) for c in clss]
            if all(x is not None for x in cas):
                for x in cas:
                    res = join(res, self.class_attr_val(x, st))
                return res.plus(base.deps)
        return join(res, self.lib.attr(self, base, attr, n, st))

    def accessor(self, attr, base, n, st):
        c = self.p.accessors[attr]
        o = self.fresh(n, c, key="acc" + str(hash(base.mem) % 100003))
        loc = next(iter(o.ident))
        self.loc_types[loc] = c
        init = c.methods.get("__init__")
        if init and len(init.args) == 2:
            b = base if base.types else base.repl(types=frozenset([self.p.cls("TSCDataFrame")]))
            # assignments in accessor __init__ only (validation of a foreign frame may run)
            for s in init.node.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute):
                    st.heap[(loc, s.targets[0].attr)] = b
        return o.plus(base.deps)

    def class_attr_val(self, ca, st):
        k, v = ca
        loc = ("CA", k.qual, "")
        if isinstance(v, ast.Constant):
            try:
                return const(v.value)
            except TypeError:
                return UNK
        if isinstance(v, (ast.List, ast.Tuple)):
            el = []
            for e in v.elts:
                if isinstance(e, ast.Constant):
                    el.append(const(e.value))
                else:
                    el = None
                    break
            return Val(ident=frozenset([("CA", k.qual, ast.unparse(v)[:40])]),
                       elems=tuple(el) if el is not None else None)
        return Val(ident=frozenset([("CA", k.qual, ast.unparse(v)[:40])]))

    def e_Subscript(self, n, st):
        base = self.ev(n.value, st)
        ix = self.ev(n.slice, st)
        return self.lib.subscript(self, base, ix, n, st)

    def e_Slice(self, n, st):
        d = EMPTY
        for c in (n.lower, n.upper, n.step):
            if c is not None:
                d |= self.ev(c, st).deps
        return Val(deps=d, types=frozenset(["slice"]))

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Tuple(self, n, st):
        els = tuple(self.ev(e, st) for e in n.elts)
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.container(n, els, st, "tuple" if isinstance(n, ast.Tuple) else "list")
        d = EMPTY
        for e in els:
            d |= e.deps
        if isinstance(n, ast.Tuple):
            return Val(elems=els, types=frozenset(["tuple"]), deps=d)
        v = self.container(n, els, st, "list")
        return v.repl(elems=els)

    e_List = e_Tuple

    def container(self, n, els, st, typ):
        d, el = EMPTY, None
        for e in els:
            d |= e.deps
            el = join(el, e)
        v = self.fresh(n, typ, deps=d)
        if el is not None:
            for l in v.ident:
                self.heap_join(st, (l, "[]"), el)
        return v

    def e_Set(self, n, st):
        els = tuple(self.ev(e, st) for e in n.elts)
        v = self.container(n, els, st, "set")
        return v.repl(elems=els)

    def e_Dict(self, n, st):
        els, d = [], EMPTY
        v = self.fresh(n, "dict")
        loc = next(iter(v.ident))
        vals = [self.ev(x, st) for x in n.values]
        for k in [k for k in st.heap if k[0] == loc]:
            del st.heap[k]
        closed = True
        for k, xv in zip(n.keys, vals):
            if k is not None:
                kv = self.ev(k, st)
                d |= kv.deps
                if kv.const and len(kv.const) == 1:
                    st.heap[(loc, ("k", next(iter(kv.const))))] = xv
                else:
                    closed = False
                els.append(xv)
            else:
                closed = False
                els.append(self.lib.element(self, xv, n, st))
            d |= xv.deps
        if closed:
            st.heap[(loc, "closed")] = const(True)
        el = None
        for e in els:
            el = join(el, e)
        if el is not None:
            self.heap_join(st, (loc, "[]"), el)
        return v.plus(d)

    def comp(self, n, st, elts):
        s2 = State(dict(st.env), st.heap, st.facts, st.pc)
        d = EMPTY
        for g in n.generators:
            it = self.ev(g.iter, s2)
            d |= it.deps
            self.assign(g.target, self.lib.element(self, it, g.iter, s2), s2, n)
            for c in g.ifs:
                d |= self.ev(c, s2).deps
                t, a, b = self.cond(c, State(dict(s2.env), dict(s2.heap), s2.facts, s2.pc))
                if a is not None:
                    s2.env = a.env
        vs = [self.ev(e, s2) for e in elts]
        return vs, d

    def e_ListComp(self, n, st):
        vs, d = self.comp(n, st, [n.elt])
        v = self.container(n, vs, st, "list" if not isinstance(n, ast.SetComp) else "set")
        return v.plus(d)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        vs, d = self.comp(n, st, [n.key, n.value])
        v = self.container(n, [vs[1]], st, "dict")
        return v.plus(d | vs[0].deps)

    def e_Lambda(self, n, st):
        fi = LambdaInfo(self.frame.func.module, n, self.frame.func)
        return Val(fn=(Closure(fi, st, self.frame),), types=frozenset(["function"]))

    def e_IfExp(self, n, st):
        t, a, b = self.cond(n.test, st)
        cd = self.cond_deps(n.test, st)
        va = vb = None
        if a is not None:
            va = self.ev(n.body, a)
        if b is not None:
            vb = self.ev(n.orelse, b)
        r = join(va, vb)
        if r is None:
            raise Dead()
        # merge heap effects
        for s in (a, b):
            if s is not None:
                for k, v in s.heap.items():
                    if k not in st.heap:
                        st.heap[k] = v
                    elif st.heap[k] is not v:
                        st.heap[k] = join(st.heap[k], v)
        return r.plus(cd)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        r, d = None, EMPTY
        cur = st
        for i, e in enumerate(n.values):
            v = self.ev(e, cur if cur is not None else st)
            d |= v.deps
            t = self.truth(v, st)
            last = i == len(n.values) - 1
            if last:
                r = join(r, v)
            elif is_and:
                if t is False:
                    return join(r, v).plus(d)
                if t is not True:
                    vf = v if v.const is None else v.repl(const=frozenset(c for c in v.const if not c))
                    if v.const is None and "bool" in v.types:
                        vf = const(False)
                    r = join(r, vf)
                s2 = cur.copy()
                self.narrow(e, s2, True)
                cur = s2
            else:
                if t is True:
                    return join(r, v).plus(d)
                if t is not False:
                    vt = v if v.const is None else v.repl(const=frozenset(c for c in v.const if c))
                    r = join(r, vt)
                s2 = cur.copy()
                self.narrow(e, s2, False)
                cur = s2
        return r.plus(d)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            t = self.truth(v, st)
            if t is not None:
                return const(not t, deps=v.deps)
            return Val(deps=v.deps, types=frozenset(["bool"]))
        if v.const is not None:
            try:
                f = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)]
                return Val(const=frozenset(f(c) for c in v.const), deps=v.deps, types=v.types)
            except Exception:
                pass
        return Val(deps=v.deps, types=frozenset(t for t in v.types if t in ARR))

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        r = self.lib.binop(self, n.op, a, b, n)
        return r if r.const is not None else r.repl(tags=r.tags - MAYBENONE | {"!notnone"})

    def e_Compare(self, n, st):
        vs = [self.ev(n.left, st)] + [self.ev(c, st) for c in n.comparators]
        d = EMPTY
        for v in vs:
            d |= v.deps
        if len(n.ops) == 1:
            r = self.lib.compare(self, n.ops[0], vs[0], vs[1])
            if r is not None:
                return const(r, deps=d)
        else:
            rs = [self.lib.compare(self, o, x, y) for o, x, y in zip(n.ops, vs, vs[1:])]
            if all(r is True for r in rs):
                return const(True, deps=d)
            if any(r is False for r in rs):
                return const(False, deps=d)
        if any(t in ARR or isinstance(t, ClassInfo) for v in vs for t in v.types):
            return Val(deps=d)
        return Val(deps=d, types=EMPTY)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else const(None)
        fr = self.frame
        fr.is_gen = True
        if self.flow:
            fr.yield_deps |= self.deep(v, st) | st.pc
        fr.yields = join(fr.yields, v.plus(st.pc)) if fr.yields is not None else v
        fr.yield_list.append((v, n))
        return UNK

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        fr = self.frame
        fr.is_gen = True
        el = self.lib.element(self, v, n, st)
        if self.flow:
            fr.yield_deps |= self.deep(v, st) | st.pc
        fr.yields = join(fr.yields, el) if fr.yields is not None else el
        return UNK

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        self.ncalls += 1
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self.super_val(n, st)
        fv = self.ev(n.func, st)
        args, kwargs, star, dstar = [], {}, None, None
        for a in n.args:
            v = self.ev(a, st)
            if isinstance(a, ast.Starred):
                if v.elems is not None and star is None:
                    args += list(v.elems)
                else:
                    star = join(star, self.lib.element(self, v, n, st))
            else:
                args.append(v)
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                ks = self.closed_keys(v, st)
                if ks is not None and all(isinstance(x, str) for x in ks):
                    kwargs.update({x: y for x, y in ks.items() if x not in kwargs})
                    continue
                dstar = join(dstar, v)
            else:
                kwargs[k.arg] = v
        r = self.call(fv, args, kwargs, n, st, star=star, dstar=dstar)
        if self.meta and isinstance(n.func, ast.Attribute) and n.func.attr in METACALL:
            r = self.labelled(r, n.func.attr)
        return r

    @staticmethod
    def labelled(v, name):
        """the label of the outermost property replaces those of the properties it is computed from"""
        return v.repl(deps=frozenset(d for d in v.deps if d[0] != "via" or d[1] == "finite") | {("via", name)})

    def super_val(self, n, st):
        fr = self.frame
        f = fr.func
        recv_cls = fr.recv_cls
        fn = f
        while fn.outer is not None and fn.cls is None:
            fn = fn.outer
        c = fn.cls
        self_v = None
        if n.args and len(n.args) == 2:
            self_v = self.ev(n.args[1], st)
            a0 = self.ev(n.args[0], st)
            for x in a0.fn:
                if isinstance(x, ClassInfo):
                    c = x
        if self_v is None and fn.args:
            self_v = st.env.get(fn.args[0])
            cl = fr.closure
            while self_v is None and cl is not None:
                self_v = cl.state.env.get(fn.args[0])
                cl = cl.frame.closure
        if c is None:
            return UNK
        rc = recv_cls or c
        if c not in self.p.mro(rc):
            rc = c
        return Val(fn=(Super(rc, c, self_v or UNK),))

    def call(self, fv, args, kwargs, n, st, star=None, dstar=None):
        d = fv.deps
        for a in args:
            d |= a.deps
        for a in kwargs.values():
            d |= a.deps
        for s in (star, dstar):
            if s is not None:
                d |= s.deps
        res = None
        if not fv.fn:
            # callable instance?
            for c in self.classes_of(fv):
                m = self.p.find_method(c, "__call__")
                if isinstance(m, FuncInfo):
                    res = join(res, self.call_one(Bound(m, fv, c), args, kwargs, n, st, star, dstar, d))
            if res is None:
                self.emit("call", target=None, fv=fv, args=args, kwargs=kwargs, node=n, state=st, star=star, dstar=dstar)
                self.emit("unresolved", node=n, fv=fv, args=args, kwargs=kwargs, state=st)
                res = self.lib.unknown_call(self, fv, args, kwargs, n, st)
            return res.plus(d)
        dead = 0
        base_heap = dict(st.heap) if len(fv.fn) > 1 else None
        base_facts = st.facts
        acc = None
        for f in fv.fn:
            # several candidates: the choice between them is a control dependence
            s2 = st if len(fv.fn) == 1 else State(st.env, dict(base_heap), base_facts, st.pc | fv.deps if self.flow else st.pc)
            try:
                r = self.call_one(f, args, kwargs, n, s2, star, dstar, d)
                if self.flow and len(fv.fn) > 1:
                    r = r.plus(fv.deps)
                res = join(res, r)
                acc = s2 if acc is None else self.join_states(acc, s2)
            except Dead:
                dead += 1
        if dead == len(fv.fn):
            raise Dead()
        if acc is not st:
            st.heap, st.facts = acc.heap, acc.facts
        return res

    def call_one(self, f, args, kwargs, n, st, star, dstar, d):
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs, n, st, star, dstar).plus(d)
        if isinstance(f, FuncInfo):
            return self.call_project(f, None, None, args, kwargs, n, st, star, dstar).plus(EMPTY)
        if isinstance(f, Bound):
            return self.call_project(f.func, f.recv, f.cls, args, kwargs, n, st, star, dstar)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs, n, st, star, dstar)
        if isinstance(f, LibMethod):
            self.emit("call", target=f"{f.ext}.{f.name}", fv=f, args=args, kwargs=kwargs, node=n, state=st, star=star, dstar=dstar)
            self.call_deps = d
            if self.flow and any(l[0] == "S" for l in f.recv.ident):
                d = d | {("attr", "*")}  # a library base class reads the options of the object
                self.call_deps = d
            return self.lib.method(self, f.recv, f.name, f.ext, args, kwargs, n, st, star, dstar).plus(d | f.recv.deps)
        if isinstance(f, Partial):
            a2 = list(f.args) + list(args)
            k2 = dict(f.kwargs)
            k2.update(kwargs)
            return self.call(f.fv, a2, k2, n, st, star, dstar)
        if isinstance(f, str):
            name = f[4:]
            self.emit("call", target=name, fv=f, args=args, kwargs=kwargs, node=n, state=st, star=star, dstar=dstar)
            self.call_deps = d
            return self.lib.function(self, name, args, kwargs, n, st, star, dstar).plus(d)
        return Val(deps=d)

    def bind(self, f, recv, args, kwargs, star, dstar, n, st, bound_self):
        """bind to parameters -> env (name -> Val), explicit set of passed names"""
        env, passed = {}, set()
        pos = list(f.args)
        a = list(args)
        if bound_self:
            a = [recv] + a
        for name, v in zip(pos, a):
            env[name] = v
            passed.add(name)
        extra = a[len(pos):]
        if f.vararg:
            v = self.container(n, extra + ([star] if star is not None else []), st, "tuple")
            env[f.vararg] = v.repl(elems=tuple(extra)) if star is None else v
        elif star is not None:
            for name in pos[len(a):]:
                if name not in kwargs:
                    env[name] = join(star, self.default(f, name, st)) if name in f.defaults else star
                    passed.add(name)
        kw_extra = {}
        for k, v in kwargs.items():
            if k in pos or k in f.kwonly:
                env[k] = v
                passed.add(k)
            else:
                kw_extra[k] = v
        known_keys, open_keys, dloc = {}, False, None
        if dstar is not None:
            for l in dstar.ident:
                ks = {k[1][1]: v for k, v in st.heap.items() if k[0] == l and isinstance(k[1], tuple)}
                known_keys.update(ks)
                if l[0] != "F" or self.flow and (l, "closed") not in st.heap:
                    open_keys = True
                elif (l, "[]") in st.heap and not ks:
                    open_keys = True
            if not dstar.ident:
                open_keys = dstar.const != frozenset([None])
            for k, v in known_keys.items():
                if k in pos or k in f.kwonly:
                    if k not in passed:
                        env[k] = v
                        passed.add(k)
                elif isinstance(k, str):
                    kw_extra.setdefault(k, v)
            if open_keys:
                el = self.lib.element(self, dstar, n, st)
                if not f.kwarg:
                    for name in pos + f.kwonly:
                        if name not in passed and name in f.defaults and not (bound_self and name == pos[0]):
                            env[name] = join(el.plus(dstar.deps), self.default(f, name, st))
                            passed.add(name)
        for name in pos + f.kwonly:
            if name not in env:
                env[name] = self.default(f, name, st) if name in f.defaults else UNK
        if f.kwarg:
            if dstar is not None and not kw_extra and open_keys:
                # a ** copy is a new dict with the same elements
                el = self.lib.element(self, dstar, n, st)
                v = self.fresh(n, "dict", key="kw:" + f.kwarg, deps=dstar.deps)
                for l in v.ident:
                    st.heap[(l, "[]")] = el
                env[f.kwarg] = v
            else:
                v = self.fresh(n, "dict", key="kw:" + f.kwarg)
                loc = next(iter(v.ident))
                for k in [k for k in st.heap if k[0] == loc]:
                    del st.heap[k]
                el, dd = None, EMPTY
                for k, x in kw_extra.items():
                    st.heap[(loc, ("k", k))] = x
                    el = join(el, x)
                    dd |= x.deps
                if open_keys:
                    el = join(el, self.lib.element(self, dstar, n, st))
                    dd |= dstar.deps
                if el is not None:
                    st.heap[(loc, "[]")] = el
                if not open_keys:
                    st.heap[(loc, "closed")] = const(True)
                env[f.kwarg] = v.plus(dd)
        return env, passed

    def default(self, f, name, st):
        dn = f.defaults[name]
        if isinstance(dn, ast.Constant):
            return const(dn.value)
        if isinstance(dn, ast.UnaryOp) and isinstance(dn.operand, ast.Constant) and isinstance(dn.op, ast.USub):
            return const(-dn.operand.value)
        if isinstance(dn, ast.Tuple) and all(isinstance(e, ast.Constant) for e in dn.elts):
            return Val(elems=tuple(const(e.value) for e in dn.elts), types=frozenset(["tuple"]))
        if isinstance(dn, (ast.Name, ast.Attribute)):
            d = dotted(dn)
            r = self.p.resolve(f.module, d) if d else None
            if isinstance(r, (ClassInfo, FuncInfo)) or isinstance(r, str):
                return self.ref(r, d, dn, st)
        typ = {ast.Dict: "dict", ast.List: "list", ast.Set: "set"}.get(type(dn))
        if isinstance(dn, ast.Call) and isinstance(dn.func, ast.Name):
            r = self.p.resolve(f.module, dn.func.id)
            if isinstance(r, ClassInfo):
                typ = r
        loc = ("D", f.qual, name)
        return Val(ident=frozenset([loc]), types=frozenset([typ]) if typ else EMPTY)

    def call_project(self, f, recv, cls, args, kwargs, n, st, star, dstar):
        bound = f.kind in ("method", "class") and recv is not None
        env, passed = self.bind(f, recv, args, kwargs, star, dstar, n, st, bound)
        self.emit("call", target=f, fv=recv, args=args, kwargs=kwargs, node=n, state=st, star=star, dstar=dstar,
                  env=env, passed=passed)
        rv = self.inline_call(f, env, st, cls, n)
        if self.meta and rv.const and rv.const <= {True, False} and not rv.deps:
            # a verdict reached by branches or caught exceptions depends on what was examined
            d = frozenset([("via", f.name)])
            for v in list(args) + list(kwargs.values()):
                d |= v.deps
            rv = rv.plus(d)
        return rv

    def inline_call(self, f, env, st, cls, n, closure=None):
        if self.stubs and f.cls is not None and (f.cls.name, f.name) in self.stubs:
            d = EMPTY
            for v in env.values():
                d |= v.deps
            v = self.stubs[(f.cls.name, f.name)]
            if callable(v):
                v = v(self, env)
            if v is not None:
                return v.plus(d | {("stub", f.name)})
        for k, v in list(env.items()):
            if not v.types and k in f.annotations:
                ts = self.lib.annotation_types(self.p, f.module, f.annotations[k])
                if ts:
                    env[k] = v.repl(types=ts)
        rec = sum(1 for fr in self.stack if fr.func is f or (fr.func.node is f.node))
        d = EMPTY
        for v in env.values():
            d |= v.deps
        if rec >= 1 or len(self.stack) >= self.max_depth or self.opaque(f) or not self.inline or (
                f.abstract and self.stack and not self.exact(env.get(f.args[0]) if f.args else None, cls)):
            return self.lib.opaque_project(self, f, env, st, n).plus(d)
        # context-manager / experimental-decorated functions are transparent
        key = None
        if closure is None and not self.alloc:
            try:
                key = (f.node, cls, tuple(sorted((k, v) for k, v in env.items())) if False else
                       frozenset(env.items()), frozenset(st.heap.items()), st.facts, st.pc,
                       tuple(sorted(self.memo_ctx())))
                if key in self.memo:
                    rv, heap, facts = self.memo[key]
                    if heap is None:
                        raise Dead()
                    st.heap, st.facts = dict(heap), facts
                    return rv
            except TypeError:
                key = None
        rv, rs, raises = self.exec_func(f, env, st, cls, n, closure)
        for node, v, s in raises:
            # propagate exceptional states to an enclosing try
            self.frame.propagate(node, v, s, self) if self.stack else None
        if rs is None:
            if key is not None:
                self.memo[key] = (None, None, None)
            raise Dead()
        if key is not None:
            self.memo[key] = (rv, dict(rs.heap), rs.facts)
        st.heap, st.facts = rs.heap, rs.facts
        return rv

    @staticmethod
    def exact(v, cls):
        """the class of the object is known exactly: the analysed receiver or an object created here"""
        return v is not None and bool(v.ident) and all(
            l[0] == "S" or l[0] == "F" and cls is not None and l[4] == "new:" + cls.name for l in v.ident)

    def memo_ctx(self):
        return ()

    def call_closure(self, c, args, kwargs, n, st, star, dstar):
        f = c.func
        if isinstance(f, LambdaInfo):
            names = f.args
            env = {}
            for nm, v in zip(names, args):
                env[nm] = v
            for nm, v in kwargs.items():
                env[nm] = v
            for nm in names + f.kwonly:
                if nm not in env:
                    dn = f.defaults.get(nm)
                    env[nm] = self.ev(dn, State(c.state.env, st.heap, st.facts, st.pc)) if dn is not None else UNK
            if len([1 for fr in self.stack if fr.func is f or getattr(fr.func, "node", None) is f.node]) >= 1 \
                    or len(self.stack) >= self.max_depth:
                return UNK
            fr = Frame(f, self.frame.recv_cls, n, c)
            fr.closure = c
            self.stack.append(fr)
            try:
                s = State(env, st.heap, st.facts, st.pc)
                r = self.ev(f.node.body, s)
                st.facts = s.facts
                return r
            finally:
                self.stack.pop()
        env, passed = self.bind(f, None, args, kwargs, star, dstar, n, st, False)
        return self.inline_call(f, env, st, c.frame.recv_cls, n, closure=c)

    def instantiate(self, c, args, kwargs, n, st, star, dstar):
        v = self.fresh(n, c, key="new:" + c.name)
        loc = next(iter(v.ident))
        self.loc_types[loc] = c
        exts = self.p.ext_bases(c)
        isframe = any("pandas" in e for e in exts)
        isarr = any("numpy" in e for e in exts)
        if isframe or isarr:
            src = args[0] if args else kwargs.get("data")
            if isarr:
                src = args[0] if args else kwargs.get("data")
            buf, dd = EMPTY, EMPTY
            if src is not None:
                cp = kwargs.get("copy")
                if not (cp is not None and cp.const == frozenset([True])):
                    buf = src.mem
            for a in list(args) + list(kwargs.values()):
                dd |= a.deps
            v = v.repl(buf=buf, deps=dd)
            for nm in ("index", "columns"):
                if nm in kwargs:
                    st.heap[(loc, nm)] = kwargs[nm]
                else:
                    st.heap.pop((loc, nm), None)
        new = self.p.find_method(c, "__new__")
        if isinstance(new, FuncInfo):
            r = self.call_project(new, Val(fn=(c,)), c, [Val(fn=(c,))] + list(args) if new.kind != "class" else args,
                                  kwargs, n, st, star, dstar) if False else None
            env, passed = self.bind(new, None, [Val(fn=(c,), types=frozenset(["type"]))] + list(args), kwargs, star, dstar, n, st, False)
            self.emit("call", target=new, fv=None, args=args, kwargs=kwargs, node=n, state=st, star=star, dstar=dstar, env=env, passed=passed)
            r = self.inline_call(new, env, st, c, n)
            v = v.repl(buf=v.buf | r.mem, deps=v.deps | r.deps)
            if r.ident and not isarr:
                v = r.repl(types=r.types or frozenset([c]))
            for l in r.ident:
                for k, x in list(st.heap.items()):
                    if k[0] == l:
                        st.heap[(loc, k[1])] = x
        init = self.p.find_method(c, "__init__")
        if isinstance(init, FuncInfo):
            env, passed = self.bind(init, v, args, kwargs, star, dstar, n, st, True)
            self.emit("call", target=init, fv=v, args=args, kwargs=kwargs, node=n, state=st, star=star, dstar=dstar,
                      env=env, passed=passed)
            self.inline_call(init, env, st, c, n)
        else:
            self.emit("call", target="ext-init:" + (init or c.qual), fv=v, args=args, kwargs=kwargs, node=n, state=st,
                      star=star, dstar=dstar)
        return v


ARR = {"ndarray", "frame", "series", "sparse"}
import builtins as _b
BUILTINS = set(dir(_b))


class Dead(Exception):
    pass


class TryCtx:
    def __init__(self, node):
        self.node, self.states = node, []


class Frame:
    def __init__(self, func, recv_cls, node, closure):
        self.func, self.recv_cls, self.node, self.closure = func, recv_cls, node, closure
        self.returns, self.raises, self.loops, self.tries = [], [], [], []
        self.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in body_of(func.node)
                          for x in walk_no_nested(b))
        self.yields = UNK if self.is_gen else None
        self.yield_deps = EMPTY
        self.yield_list = []
        self.nsplit = 0

    def do_raise(self, n, v, st, interp):
        if self.tries:
            self.tries[-1].states.append(st)
            if not self.tries[-1].node.handlers:
                self.raises.append((n, v, st))
        else:
            self.raises.append((n, v, st))

    def propagate(self, n, v, st, interp):
        s = State(dict(interp.frame_env(self)) if hasattr(interp, "frame_env") else {}, st.heap, st.facts, st.pc)
        if self.tries:
            # environment of the caller at the call is a superset of pre-try snapshot:
            # only the heap part is relevant
            self.tries[-1].heap_states = getattr(self.tries[-1], "heap_states", [])
            self.tries[-1].heap_states.append(s)
        else:
            self.raises.append((n, v, st))


def body_of(n):
    return n.body if isinstance(n.body, list) else [n.body]


def walk_no_nested(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
        return
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        yield from walk_no_nested(c)


class LambdaInfo:
    def __init__(self, module, node, outer):
        self.module, self.node, self.outer, self.cls = module, node, outer, None
        self.name = "<lambda>"
        self.kind = "function"
        a = node.args
        self.args = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.args[len(self.args) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.annotations = {}
        self.qual = f"{outer.qual}.<lambda>"
        self.short = f"{outer.short}.<lambda>"

    all_params = property(lambda s: s.args + s.kwonly)

    def loc(self, node=None):
        return f"{self.module.rel}:{(node or self.node).lineno}"


class Bound:
    def __init__(self, func, recv, cls):
        self.func, self.recv, self.cls = func, recv, cls

    def __repr__(self):
        return f"Bound({self.func.qual},{self.cls.name if self.cls else None},{self.recv})"

    def __eq__(self, o):
        return isinstance(o, Bound) and (self.func, self.recv, self.cls) == (o.func, o.recv, o.cls)

    def __hash__(self):
        return hash((self.func, self.recv, self.cls))


class Super:
    def __init__(self, cls, after, recv):
        self.cls, self.after, self.recv = cls, after, recv

    def __repr__(self):
        return f"Super({self.cls.name},{self.after.name})"


class LibMethod:
    def __init__(self, recv, name, ext):
        self.recv, self.name, self.ext = recv, name, ext

    def __repr__(self):
        return f"LibMethod({self.ext}.{self.name},{self.recv})"

    def __eq__(self, o):
        return isinstance(o, LibMethod) and (self.recv, self.name, self.ext) == (o.recv, o.name, o.ext)

    def __hash__(self):
        return hash((self.recv, self.name, self.ext))


class Partial:
    def __init__(self, fv, args, kwargs):
        self.fv, self.args, self.kwargs = fv, args, kwargs

    def __repr__(self):
        return f"Partial({self.fv})"


class Closure:
    def __init__(self, func, state, frame):
        self.func, self.state, self.frame = func, state, frame

    def __repr__(self):
        return f"Closure({self.func.qual})"
