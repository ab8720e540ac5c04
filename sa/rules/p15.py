"""Options and arguments take effect.

Label flow (data and control dependence, including in-place writes): every constructor option and every argument carries
a label. For every option/fit-argument configuration of a class (see P08) the labels are propagated through the
constructor, fit and the set-up operations into the fitted attributes and from there into the result of every query.
(1) every option reaches the results of the queries it configures,
(2) every argument of a public method or function reaches its result, the state it leaves or a refusal of the argument as
such (an argument that is only validated and then dropped has no effect).
The label flow over-approximates: an option that really influences a result is never reported as ineffective.
"""
import ast
import re
from ..core import Finding, Result
from ..project import FuncInfo
from ..interp import const, Val, EMPTY
from .. import entry as E
from . import common as C
from . import p07, p08

RULE = "per configuration: label flow from every option to the results it configures and from every argument to result, state or refusal"
ASSUMPTIONS = ["library calls depend on all their arguments", "configurations as in P08"]
SYSTEMS = False  # the example systems keep results of their last run, their signatures follow one scheme
MINIMUM = {"configurations": 150, "option_flows": 700, "argument_flows": 2000, "functions": 10}
RESULTS = ("transform", "inverse_transform", "predict", "reconstruct", "score", "gradient", "fit_transform", "fit_predict", "split", "__call__",
           "control_sequence", "generate_control_signal", "control_sequence_horizon", "koopman_modes", "koopman_eigenfunction",
           "pseudospectrum", "spectral_measure", "dmd_modes", "is_stop", "adapt_model", "compute_E0")


def labels(it, v, rs):
    """labels of a result: ('attr', a) also for objects that are (part of) an attribute"""
    out = set(it.deep(v, rs, stop=(E.SELF,)))
    for l in locs(it, v, rs):
        while l[0] == "A":
            if l[1] == E.SELF:
                out.add(("attr", l[2]))
            l = l[1]
        if l[0] == "P":
            out.add(("param", l[1]))
    return out


def locs(it, v, rs):
    slots = {}
    for (l, a), x in rs.heap.items():
        if not (isinstance(a, str) and a.startswith("has:")):
            slots.setdefault(l, []).append(x)
    seen, todo = {E.SELF}, [v]
    while todo:
        x = todo.pop()
        todo += list(x.elems or ())
        for l in x.ident | x.buf:
            if l not in seen:
                seen.add(l)
                todo += slots.get(l, ())
    return seen - {E.SELF}


def state(it, rs, before=()):
    return {a: labels(it, v, rs) for (l, a), v in rs.heap.items()
            if l == E.SELF and isinstance(a, str) and not a.startswith("has:") and (l, a) not in before}


def close(D):
    ch = True
    while ch:
        ch = False
        for a, l in D.items():
            n = set(l)
            for x in l:
                if x[0] == "attr" and x[1] in D:
                    n |= D[x[1]]
            if n != l:
                D[a] = n
                ch = True


def add(D, st, tag):
    for a, l in st.items():
        D.setdefault(a, set()).update((tag, x[1]) if x[0] == "param" else x for x in l)


def reader(ctx, read):
    """stubs: _read_fit_params(attrs=[(key, default), ...]) returns one value per key, labelled with the key"""
    def go(it, env):
        at = env.get("attrs")
        if at is None or not at.elems or not all(e.elems and e.elems[0].const and len(e.elems[0].const) == 1 for e in at.elems):
            return None
        ks = [next(iter(e.elems[0].const)) for e in at.elems]
        src = sorted({d[1] for d in env["fit_params"].deps if d[0] == "param"}) if "fit_params" in env else []
        read.update(f"{s}.{k}" for s in src for k in ks)
        for h in it.hooks:
            h.deps |= {("param", s) for s in src}  # other keys are refused
            h.hard |= {("param", s) for s in src}
        vs = tuple(Val(deps=frozenset([("param", f"{s}.{k}") for s in src])) for k in ks)
        return vs[0] if len(vs) == 1 else Val(elems=vs, types=frozenset(["list"]))
    return {(c.name, "_read_fit_params"): go for c in ctx.p.all_classes() if "_read_fit_params" in c.methods}


def presence(t):
    """the condition only tells whether something is given, or of which kind it is"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return presence(t.operand)
    if isinstance(t, ast.BoolOp):
        return (any if isinstance(t.op, ast.Or) else all)(presence(v) for v in t.values)
    if isinstance(t, ast.Compare):
        return all(isinstance(c, ast.Constant) and not (type(c.value) in (int, float) and c.value) for c in t.comparators)
    if isinstance(t, ast.Call):
        return getattr(t.func, "id", "") in ("isinstance", "callable", "hasattr", "bool")
    return isinstance(t, (ast.Name, ast.Attribute))


class Guards:
    """deps: everything that refusals depend on; hard: refusals of the argument as such (not of certain values of it)"""
    def __init__(self):
        self.deps, self.hard = set(), set()

    def on_guard(self, it, node, deps, state):
        self.deps |= set(deps)
        if presence(node.test):
            self.hard |= set(deps)

    def on_raise_(self, it, node, val, state):
        self.deps |= state.pc | val.deps
        for fr in it.stack:
            if any(x is node for x in ast.walk(fr.func.node)):
                ts = [n.test for n in ast.walk(fr.func.node) if isinstance(n, ast.If) and any(x is node for x in ast.walk(n))]
                self.hard |= EMPTY.union(*(it.cond_deps(t, state) for t in ts if presence(t))) - EMPTY.union(
                    *(it.cond_deps(t, state) for t in ts if not presence(t)))


def answers(ctx, cn, m, conf):
    """query -> (labels of the result | None, labels of refusals and state, its FuncInfo) after m under conf"""
    p, c = ctx.p, ctx.cls(cn)
    ms = E.public_methods(p, c, extra=("__call__",))
    opts = C.ctor_params(p, c)
    heap = p08.ctor_consts(ctx, c, conf) if m is not None else {}
    if heap is None:
        return None
    heap |= {(E.SELF, k[1]): v.repl(deps=frozenset([("attr", k[1])])) for k, v in conf.items() if k[0] == "opt"}
    D = {}
    f0 = C.init_of(p, c)
    if f0 is not None:
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f0, c, [], overrides={k[1]: v.repl(deps=frozenset([("param", k[1])]))
                                                                      for k, v in conf.items() if k[0] == "opt"}, flow=True)
        if rs is None:
            return None
        add(D, {a: l for a, l in state(it, rs).items() if a not in opts}, "attr")
        if m is None and conf:
            # the constructor decides what the queries do
            heap |= {(l, a): v.repl(deps=frozenset([("attr", a)])) for (l, a), v in rs.heap.items() if l == E.SELF and isinstance(a, str)
                     and not a.startswith("has:") and (v.fn or v.const is not None and len(v.const) == 1)}
    if m is not None:
        over = {k[1]: v.repl(deps=frozenset([("param", k[1])])) for k, v in conf.items() if k[0] == "arg"}
        g, keys = Guards(), set()
        it, rv, rs, ra = E.run_entry(p, ctx.lib, ms[m], c, [g], heap=dict(heap), overrides=over, flow=True, stubs=reader(ctx, keys))
        if rs is None:
            return None
        st = state(it, rs)
        own = (labels(it, rv, rs), g, set().union(*(labels(it, v, rs) for (l, a), v in rs.heap.items()
                                                  if l[0] in ("S", "P", "A") and not (isinstance(a, str) and a.startswith("has:")))), ms[m], keys)
        add(D, {a: l for a, l in st.items() if a not in opts}, "fit")
        for (l, a), v in rs.heap.items():
            if l == E.SELF and isinstance(a, str) and not a.startswith("has:") and a not in opts and v.const is not None and len(v.const) == 1:
                heap[(l, a)] = Val(const=v.const, types=v.types, deps=frozenset([("attr", a)]))
    for q, f in ms.items():
        if f.kind == "method" and q in C.CONFIGURE and q != "set_params":
            it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], heap=dict(heap), flow=True)
            if rs is not None:
                add(D, {a: l for a, l in state(it, rs, heap).items() if a not in opts}, "cfg")
    close(D)
    out = {m: own} if m in ("fit", "partial_fit") else {}
    for q, f in ms.items():
        if f.kind != "method" or f.abstract or q in ("fit", "partial_fit") and m is not None:
            continue
        g = Guards()
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [g], heap=dict(heap), flow=True)
        if rs is None:
            out[q] = (None, g, None, f, ())
            continue
        n = labels(it, rv, rs)
        for x in list(n):
            if x[0] == "attr":
                n |= D.get(x[1], set())
        s = set()
        for (l, a), v in rs.heap.items():
            if l[0] in ("S", "P", "A") and heap.get((l, a)) is not v:
                s |= it.deep(v, rs) | ({("param", x[1]) for x in locs(it, v, rs) if x[0] == "P"})
        out[q] = (n, g, s, f, ())
    return out


def unread(p, c):
    """options that only the library base class reads"""
    names = set()
    for k in p.mro(c):
        if not isinstance(k, str):
            names |= {n.attr for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
                      and isinstance(n.value, ast.Name) and n.value.id == "self"}
    return set(C.ctor_params(p, c)) - names


# options that by their documentation change no result
NO_RESULT = {"verbose": "progress messages", "n_jobs": "parallel execution", "pre_dispatch": "parallel execution",
             "memory": "caching of transformers"}
# options that matter for some queries only: (class, option) -> queries whose result does not depend on it
NOT_FOR = {
    ("AffineKgMPC", "cost_state"): {"generate_control_signal": "enters through the cost function passed to the optimiser"},
    ("AffineKgMPC", "cost_input"): {"generate_control_signal": "enters through the cost function passed to the optimiser"},
    ("AffineKgMPC", "interpolation"): {"generate_control_signal": "enters through the cost function passed to the optimiser"},
    ("AffineKgMPC", "ivp_method"): {"generate_control_signal": "enters through the cost function passed to the optimiser"},
    ("DMDStandard", "compute_pseudospectrum"): {"*": "stores matrices for the pseudospectrum", "not": ("pseudospectrum", "spectral_measure")},
    ("DMDStandard", "approx_generator"): {"pseudospectrum": "of the transition matrix", "spectral_measure": "of the transition matrix"},
    ("DMDStandard", "diagonalize"): {"pseudospectrum": "scaling of eigenvectors", "spectral_measure": "scaling of eigenvectors"},
    ("DMDStandard", "reconstruct_mode"): {"pseudospectrum": "only modes", "spectral_measure": "only modes"},
    ("DMDStandard", "rcond"): {"pseudospectrum": "computed from the Gram matrices", "spectral_measure": "computed from the Gram matrices"},
    ("EDMD", "dict_steps"): {"*": "stored as pipeline step"},
    ("EDMD", "dmd_model"): {"*": "stored as pipeline step"},
    ("EDMD", "stepwise_transform"): {"*": "prediction only", "not": ("predict", "fit_predict", "reconstruct", "score")},
    ("EDMD", "use_transform_inverse"): {"transform": "inverse map only", "fit_transform": "inverse map only",
                                        "koopman_eigenfunction": "inverse map only"},
    ("EDMD", "sort_koopman_triplets"): {"transform": "eigenpairs only", "fit_transform": "eigenpairs only", "inverse_transform": "eigenpairs only",
                                        "koopman_eigenfunction": "sorts the stored eigenvectors of the DMD model"},
    ("GeometricHarmonicsInterpolator", "n_eigenpairs"): {"gradient": "documented: computed from the kernel alone"},
    ("TSCTakensEmbedding", "kappa"): {"inverse_transform": "the undelayed states have weight one"},
}
DMD_MODES = {"sys_type", "is_controlled", "is_control_affine", "is_time_invariant"}
# options that take effect only with certain values of another option
ONLY_IF = {("LocalRegressionSelection", "intrinsic_dim"): ("strategy", ("dim",)),
           ("LocalRegressionSelection", "regress_threshold"): ("strategy", ("threshold",)),
           ("TSCRadialBasis", "n_samples"): ("center_type", ("random",)),
           ("DMDStandard", "rcond"): ("rank", (None,))}
# not analysed: unfinished or optional packages, results do not flow through the analysed program
SKIP = {"MultiScaleGeometricHarmonicsInterpolator": "unfinished, the constructor raises NotImplementedError",
        "FeedforwardNN": "training by torch optimisers", "DMDDictLearning": "unfinished, queries are delegated to torch models",
        "DictLearningMethod": "abstract", "HAVOK": "prototype", "EDMDPostObservable": "search by scikit-learn", "EDMDCV": "search by scikit-learn"}
# documented as ignored: (method, argument) -> classes ("*" all)
IGNORED = {("*", "y"): "not supervised / API consistency", ("*", "groups"): "API consistency", ("*", "P"): "reserved",
           ("get_feature_names_out", "input_features"): "API consistency", ("get_feature_names_out", "feature_names_in"): "API consistency",
           ("evolve_system", "time_delta"): "only for flow maps", ("score_", "X"): "scores the fitted model",
           ("TSCIncrementalPCA.partial_fit", "check_input"): "required by the base class of scikit-learn",
           # keyword arguments without any documented key, accepted for consistency with the other models
           **{(k, "fit_params"): "no keys" for k in ("LaplacianPyramidsInterpolator.fit", "OnlineDMD.fit", "StreamingDMD.fit",
                                                     "OnlineDMD.fit_predict", "StreamingDMD.fit_predict", "TSCPrincipalComponent.fit_transform",
                                                     "TSCIncrementalPCA.partial_fit_transform")},
           ("PretrainedDMD.fit", "U"): "the system is given, fit only reads names and time values of X",
           ("TSCPredictMixin.reconstruct", "U"): "generic implementation for uncontrolled models",
           ("TSCDataFrame.__init__", "kwargs"): "passed to the constructor of pandas"}
# documented to have no effect with certain values of an option
IGNORED_IF = {("TSCMetric", "multioutput"): ("mode", ("feature",)),  # "ignored for mode=feature"
              ("TSCMetric", "sample_weight"): ("metric", ("max",))}  # "both have no effect"
USED_Y = {("GeometricHarmonicsInterpolator", "score", "y"), ("GeometricHarmonicsInterpolator", "fit", "y"), ("EDMD", "fit", "y")}


# keys of fit parameters that take effect with certain values of an option only
KEY_IF = {("TSCRadialBasis", "fit_params.centers"): ("center_type", ("fit_params",)),
          ("DMDStandard", "fit_params.store_system_matrix"): ("sys_mode", ("spectral",)),
          ("gDMDFull", "fit_params.store_generator_matrix"): ("sys_mode", ("spectral",))}


def documented_ignored(f, x):
    """the documentation of the method says that the argument is not used"""
    doc = (ast.get_docstring(f.node) or "").splitlines()
    for i, line in enumerate(doc):
        if re.match(rf"\*{{0,2}}{x}\s*(:.*)?$", line):
            text = []
            for t in doc[i + 1:]:
                if t.strip() and not t.startswith((" ", "\t")):
                    break
                text.append(t.strip())
            text = " ".join(text).strip().lower().strip("`.")
            return text == "none" or text.startswith(("ignored", "reserved", "not used", "unused"))
    return False


def exempt(cn, q, o, conf):
    if o in NO_RESULT or q == "dmd_modes" and o in DMD_MODES:
        return True
    e = NOT_FOR.get((cn, o), {})
    if q in e or "*" in e and q not in e.get("not", ()):
        return True
    return not only_if(ONLY_IF, cn, o, conf)


def only_if(table, cn, o, conf):
    if (cn, o) in table:
        other, vals = table[(cn, o)]
        v = conf.get(("opt", other))
        return v is None or bool(v.const and next(iter(v.const)) in vals)
    return True


def one(ctx, item):
    cn, m, conf = item
    res = Result()
    if (cn, m) in p08.INITIAL:
        return res
    a = answers(ctx, cn, m, conf)
    if a is None:
        return res
    p, c = ctx.p, ctx.cls(cn)
    opts = C.ctor_params(p, c)
    res.count("configurations")
    lib_opts = unread(p, c)
    for q, (n, g, s, f, keys) in a.items():
        if n is None:
            continue
        if ("attr", "*") in n:
            n = n | {("attr", o) for o in lib_opts}
        if q in RESULTS and cn not in SKIP:
            for o in opts:
                if ("opt", o) in conf or exempt(cn, q, o, conf):
                    continue
                res.count("option_flows")
                if ("attr", o) not in n:
                    res.add(Finding(f"option|{cn}.{q}|{o}", f"the option '{o}' of {cn} does not influence the result of {q}"
                                    + (f" after {m} for {p08.show(conf)}" if m else ""), f"{f.module.rel}:{f.node.lineno}", "P15-option", [f.short]))
        # an argument with a given value has no effect that could be seen
        given = [k[1] for k, v in conf.items() if k[0] == "arg" and v.const] if q == m else []
        given += [x for k, x in IGNORED_IF if k == cn and conf and only_if(IGNORED_IF, cn, x, conf)]
        used(res, f"{cn}.{q}", cn, q, f, n, g, s, p08.show(conf), [k for k in keys if only_if(KEY_IF, cn, k, conf)], given)
    return res


CHECK = ("check_", "assert_", "is_", "validate_")  # functions whose purpose is to check the arguments


def used(res, name, cn, q, f, n, g, s, conf, keys=(), given=()):
    for x in list(f.user_params) + ([f.kwarg] if f.kwarg else []) + sorted(keys):
        if x in given or ((q, x) in IGNORED or ("*", x) in IGNORED or (name, x) in IGNORED or documented_ignored(f, x)) and (cn, q, x) not in USED_Y \
                or cn in SKIP or cn and cn.endswith(("Exception", "Error")):
            continue
        res.count("argument_flows")
        d = ("param", x)
        if d not in n and d not in s and d in g.deps and d not in g.hard and x != f.kwarg and not q.startswith(CHECK) and not x.startswith(("validate", "check", "ensure")):
            res.add(Finding(f"argument|{name}|{x}", f"the argument '{x}' of {name} is examined but has no influence on the result or the state"
                            + (f" (after fitting with {conf})" if conf != "any" else ""), f"{f.module.rel}:{f.node.lineno}", "P15-only-examined", [f.short]))
        if d not in n and d not in s and d not in g.deps:
            res.add(Finding(f"argument|{name}|{x}", f"the argument '{x}' of {name} has no influence on the result, the state or a refusal"
                            + (f" (after fitting with {conf})" if conf != "any" else ""), f"{f.module.rel}:{f.node.lineno}", "P15-argument", [f.short]))


def func(ctx, name):
    f = next(x for x in ctx.public_functions() if x.qual == name)
    res = Result()
    g = Guards()
    it, rv, rs, ra = E.run_entry(ctx.p, ctx.lib, f, None, [g], flow=True)
    if rs is None:
        return res
    res.count("functions")
    n = labels(it, rv, rs)
    s = set()
    for (l, a), v in rs.heap.items():
        if l[0] == "P":
            s |= it.deep(v, rs)
    used(res, f.name, None, f.name, f, n, g, s, "any")
    return res


def fitargs(ctx, item):
    """arguments of fit, partial_fit and the constructor reach the state"""
    cn, m = item
    p, c = ctx.p, ctx.cls(cn)
    f = E.public_methods(p, c, extra=("__init__",))[m]
    res = Result()
    g, keys = Guards(), set()
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [g], flow=True, stubs=reader(ctx, keys))
    if rs is None:
        return res
    s = set()
    for (l, a), v in rs.heap.items():
        if l[0] in ("S", "P", "A") and not (isinstance(a, str) and a.startswith("has:")):
            s |= labels(it, v, rs)
    used(res, f"{cn}.{m}", cn, m, f, labels(it, rv, rs), g, s, "any", keys)
    return res


def numbers(p, c):
    """option -> regular values on both sides of the numeric constants that the class compares it with"""
    out = {}
    opts = set(C.ctor_params(p, c))
    for k in p.mro(c):
        for n in ast.walk(k.node) if not isinstance(k, str) else ():
            if not isinstance(n, ast.Compare) or any(isinstance(s, ast.Raise) for i in parents(k, n) for s in i.body):
                continue
            es = [n.left] + [e for x in n.comparators for e in (x.elts if isinstance(x, (ast.Tuple, ast.List, ast.Set)) else [x])]
            at = {e.attr for e in es if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self"} & opts
            cs = {e.value for e in es if isinstance(e, ast.Constant) and type(e.value) in (int, float)}
            for o in at:
                # zero often switches something off
                out.setdefault(o, set()).update(v for x in cs for v in (x, x + 1) if v > 0)
    return out


def parents(k, n):
    return [i for i in ast.walk(k.node) if isinstance(i, ast.If) and any(x is n for x in ast.walk(i.test))]


def prep(ctx, cn):
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    number = numbers(p, c)
    ms = E.public_methods(p, c)
    cs = res.cov.setdefault("confs", set())
    fits = [m for m in ("fit", "partial_fit") if m in ms and not ms[m].abstract] or [m for m in ("fit_transform",) if m in ms and not ms[m].abstract]
    for m in fits:
        cs.add((cn, m, ()))
        for conf in p08.configurations(ctx, c, m, ms[m]):
            cs.add((cn, m, tuple(sorted(conf.items(), key=lambda x: x[0]))))
    for m in fits or [None]:
        if not fits:
            cs.add((cn, None, ()))
            f0 = C.init_of(p, c)
            for conf in p08.configurations(ctx, c, None, f0) if f0 is not None and any(q in RESULTS for q in E.public_methods(p, c, extra=('__call__',))) else ():
                cs.add((cn, None, tuple(sorted(((("opt", k[1]), v) for k, v in conf.items()), key=lambda x: x[0]))))
        cs |= {(cn, m, ((("opt", o), const(v)),)) for o, vs in number.items() for v in vs}
    return res


def run(ctx):
    cs = ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER})
    r = ctx.pmap(prep, sorted((c.name for c in cs), key=p07.heavy))
    items = sorted(((cn, m, dict(conf)) for cn, m, conf in r.cov["confs"]), key=lambda i: (p07.heavy(i[0]), i[1] or "", repr(i[2])))
    res = ctx.pmap(one, items)
    fa = [(c.name, m) for c in cs for m, f in E.public_methods(ctx.p, c, extra=("__init__",)).items()
          if m in ("fit", "partial_fit", "__init__") and f.kind == "method" and not f.abstract]
    res.merge(ctx.pmap(fitargs, sorted(fa, key=lambda i: p07.heavy(i[0]))))
    res.merge(ctx.pmap(func, sorted(f.qual for f in ctx.public_functions())))
    return res


SRC = '''
import numpy as np
class BaseEstimator: pass
class A(BaseEstimator):
    def __init__(self, scale=1.0, mode="a", extra=None):
        self.scale = scale
        self.mode = mode
        self.extra = extra
    def fit(self, X, y=None, weight=None):
        self.w_ = X * self.scale
        self._more(weight)
        return self
    def _more(self, weight):
        if weight is not None:
            self.w_ = self.w_ * weight
        if self.mode == "a":
            self.e_ = {}
            self.e_.update(v=self.extra)
        else:
            self.e_ = {"v": self.extra}
    def predict(self, X, qois=None):
        out = X @ self.w_ + self.e_["v"]
        if self.mode == "b":
            out = -out
        if qois is not None:
            out = out[qois]
        return out
class B(A):
    def _more(self, weight):
        self.e_ = {"v": self.extra}
class C(A):
    def _more(self, weight):
        self.w_ = self.w_ * weight
        if self.mode == "a":
            self.e_ = {"v": 1}
        else:
            self.e_ = {"v": self.extra}
class D(A):
    def predict(self, X, qois=None):
        return X @ self.w_ + self.e_["v"] + (self.mode == "b")
class G(A):
    def predict(self, X, qois=None):
        if qois is not None and len(qois) > 3:
            raise ValueError("too many")
        return [x @ self.w_ + self.e_.get("v") for x in X] if self.mode == "a" else self.e_["v"] * X.dot(self.w_)
class I(A):
    def predict(self, X, qois=None, sample=None):
        if qois is not None:
            raise ValueError("not supported")
        if sample is not None and len(sample) > 3:
            raise ValueError("too many")
        return [x @ self.w_ + self.e_.get("v") for x in X[sample]] if self.mode == "a" else self.e_["v"] * X[sample].dot(self.w_)
class H(A):
    def fit(self, X, y=None, weight=None):
        self.w_ = X
        for _ in range(3):
            self.w_ = self.w_ + 1
            if weight > 0:
                break
        self.e_ = dict(v=self.extra)
        return self
'''


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    t = Ctx.__new__(Ctx)
    t.p, t.lib = tiny(SRC)
    want = {"A": set(), "B": {"argument|B.fit|weight"}, "C": {"option|C.predict|extra"}, "D": {"argument|D.predict|qois"}, "G": {"argument|G.predict|qois"}, "I": set(),
            "H": {"option|H.predict|scale"}}
    out = {}
    for cn, keys in want.items():
        found = Result()
        for _, m, conf in prep(t, cn).cov["confs"]:
            found.merge(one(t, (cn, m, dict(conf))))
        found.merge(fitargs(t, (cn, "fit")))
        out[cn] = set(found.findings) == keys
    return out
