"""Results are reproducible.

Every function of the package is interpreted.  (1) Every random generator / randomised routine gets a seed that
is not None: a constant, or a value that depends on a `random_state`/`seed`-like option.  (2) Iterative
eigen/singular value solvers get a start vector or a seed.  (3) No draws from the process-wide generators.
(4) No value of the clock, of identity/hash functions or of OS randomness decides a branch, seeds a generator or
is stored in an attribute that is not a timing record.  (5) No ordered result is built by iterating over a set.
(6) Every option or parameter named random_state/seed reaches the seed of a generator.
"""
import ast
from ..core import Finding, Result
from ..project import FuncInfo, ClassInfo, dotted
from ..interp import EMPTY
from ..lib import CLOCK, NOW
from .. import entry as E
from . import common as C

RULE = "all sources of randomness are seeded by a constant or by the user's option; no clock/hash/set-order dependence of results"
ASSUMPTIONS = ["the tables below list the randomised library routines; LAPACK/BLAS are deterministic for fixed inputs"]
MINIMUM = {"functions": 500, "random_sources": 6, "seed_options": 5}

GEN = {  # name -> (position, keyword) of the seed
    "numpy.random.default_rng": (0, ("seed",)), "numpy.random.RandomState": (0, ("seed",)),
    "numpy.random.Generator": (0, ("bit_generator",)), "numpy.random.SeedSequence": (0, ("entropy",)),
    "numpy.random.PCG64": (0, ("seed",)), "numpy.random.MT19937": (0, ("seed",)), "numpy.random.Philox": (0, ("seed",)),
    "random.Random": (0, ("x",)), "sklearn.utils.check_random_state": (0, ("seed",)),
    "sklearn.utils.resample": (None, ("random_state",)), "sklearn.utils.shuffle": (None, ("random_state",)),
    "sklearn.model_selection.train_test_split": (None, ("random_state",)),
    "sklearn.utils.extmath.randomized_svd": (None, ("random_state",)),
    "sklearn.utils.extmath.randomized_range_finder": (None, ("random_state",)),
    "scipy.sparse.linalg.svds": (None, ("random_state", "rng", "v0")),
    "scipy.sparse.linalg.eigs": (None, ("v0", "rng")), "scipy.sparse.linalg.eigsh": (None, ("v0", "rng")),
    "scipy.sparse.random": (None, ("random_state", "rng", "data_rvs")), "scipy.sparse.rand": (None, ("random_state",)),
    "scipy.linalg.interpolative.svd": (None, ("rng",)), "scipy.optimize.differential_evolution": (None, ("seed", "rng")),
    "scipy.optimize.dual_annealing": (None, ("seed", "rng")), "scipy.optimize.basinhopping": (None, ("seed", "rng")),
    "scipy.linalg.clarkson_woodruff_transform": (None, ("seed", "rng")),
}
SK = {"KMeans", "MiniBatchKMeans", "BisectingKMeans", "TruncatedSVD", "FastICA", "NMF", "SpectralEmbedding", "TSNE", "GaussianMixture",
      "RandomForestRegressor", "RandomForestClassifier", "MLPRegressor", "MLPClassifier", "RBFSampler", "Nystroem", "SkewedChi2Sampler",
      "GaussianRandomProjection", "SparseRandomProjection", "ShuffleSplit", "StratifiedShuffleSplit", "GroupShuffleSplit", "QuantileTransformer",
      "DictionaryLearning", "MiniBatchDictionaryLearning", "SparsePCA", "RandomizedSearchCV", "ExtraTreesRegressor", "IsolationForest"}
SPLIT = {"KFold", "StratifiedKFold", "GroupKFold"}
NPGEN = {k.split(".")[-1] for k in GEN if k.startswith("numpy.random")} | {"BitGenerator"}
SEEDNAMES = ("random_state", "seed", "rng", "generator")


def seedname(n):
    return isinstance(n, str) and any(s in n.lower() for s in SEEDNAMES)


class Hook:
    def __init__(self, res, f):
        self.res, self.f, self.reached = res, f, set()

    def add(self, it, key, msg, node):
        fn = it.frame.func
        self.res.add(Finding(f"{key}|{fn.short}".replace(" ", "_"), f"{fn.short}: {msg}", C.where(it, node), "P06-" + key.split("|")[0], C.chain(it)))

    def on_call(self, it, target, node, args, kwargs, state, star=None, dstar=None, **k):
        if isinstance(target, FuncInfo) or target is None:
            return
        if target.startswith("ext-init:"):
            return
        if target in NOW:
            if not getattr(node, "_label", None):
                self.add(it, f"clock|{target}", f"uses the current date/time ({target})", node)
            return
        last = target.split(".")[-1]
        seedv, kind = None, None
        if target in GEN:
            pos, kws = GEN[target]
            kind = "seed"
        elif target.startswith("sklearn.") and last in SK:
            pos, kws, kind = None, ("random_state",), "seed"
        elif target.startswith("sklearn.") and last in SPLIT:
            sh = kwargs.get("shuffle") or (args[1] if len(args) > 1 else None)
            if sh is not None and it.lib.truth(sh) is not False:
                v = kwargs.get("random_state") or (args[2] if len(args) > 2 else None)
                self.res.count("random_sources")
                self.seed(it, target, v, node, strict=False)
            return
        elif target.startswith("scipy.stats.") and last in ("rvs",):
            pos, kws, kind = None, ("random_state",), "seed"
        elif target.startswith("numpy.random.") and last not in NPGEN:
            self.add(it, f"process-rng|{target}", f"draws from the process-wide generator ({target})", node)
            return
        elif target.startswith("random.") and target.count(".") == 1:
            self.add(it, f"process-rng|{target}", f"draws from the process-wide generator ({target})", node)
            return
        elif target.startswith("secrets."):
            self.add(it, f"process-rng|{target}", f"draws OS randomness ({target})", node)
            return
        elif target in ("builtins.list", "builtins.tuple", "builtins.enumerate", "numpy.array", "numpy.asarray", "numpy.fromiter",
                        "pandas.Index", "builtins.iter", "builtins.zip") and args and is_set(args[0]):
            self.add(it, f"set-order|{target}", f"builds an ordered result from a set ({ast.unparse(node)[:60]})", node)
            return
        if kind is None:
            return
        self.res.count("random_sources")
        v = next((kwargs[q] for q in kws if q in kwargs), None)
        if v is None and pos is not None and len(args) > pos:
            v = args[pos]
        if v is None and dstar is not None:
            ks = {}
            for l in dstar.ident:
                for (loc, kk), x in state.heap.items():
                    if loc == l and isinstance(kk, tuple):
                        ks[kk[1]] = x
            v = next((ks[q] for q in kws if q in ks), None)
            if v is None and (not dstar.ident or any(l[0] != "F" for l in dstar.ident)) and not ks:
                return  # open options of the caller
            if v is None and "emptydict" not in dstar.tags and not ks:
                v = None
        self.seed(it, target, v, node)

    def seed(self, it, target, v, node, strict=True):
        if v is None:
            self.add(it, f"unseeded|{target}", f"{target.split('.')[-1]} is called without a seed or start vector", node)
            return
        for d in v.deps:
            if d[0] in ("param", "attr") and seedname(d[1]):
                self.reached.add(d[1])
        if v.const is not None and None in v.const and not any(seedname(d[1]) for d in v.deps if d[0] in ("param", "attr")):
            # default values of parameters named random_state are the choice of the caller
            if not self.param_default(it, node, v):
                self.add(it, f"unseeded|{target}", f"{target.split('.')[-1]} may be seeded with None", node)
        if ("clock",) in v.deps:
            self.add(it, f"clock|{target}", "the seed depends on the clock, the process or object identities", node)

    def param_default(self, it, node, v):
        """the seed expression is a parameter of an enclosing call that carries a seed name"""
        names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}
        return any(seedname(n) for n in names) and (any(seedname(p) for p in it.frame.func.all_params)
                                                    or any(isinstance(x, ast.Attribute) and seedname(x.attr) and isinstance(x.value, ast.Name)
                                                           and x.value.id == "self" for x in ast.walk(node)))

    def on_branch(self, it, node, truth, state):
        if isinstance(node, ast.If) and self.clocked(it, node.test, state):
            self.add(it, "clock|branch", f"the branch '{ast.unparse(node.test)[:60]}' depends on the clock or on object identities", node)

    def clocked(self, it, e, state):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in state.env and ("clock",) in state.env[n.id].deps:
                return True
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d and resolve(it, d) in CLOCK - {"builtins.id", "builtins.hash"}:
                    return True
        return False

    def on_setattr(self, it, base, attr, val, node, state, prop):
        if prop is None and ("clock",) in val.deps and "time" not in attr and E.SELF in base.ident:
            self.add(it, f"clock|{attr}", f"the attribute '{attr}' depends on the clock or on object identities", node)

    def on_expr(self, it, node, val, state):
        if isinstance(node, (ast.ListComp,)) and not getattr(node, "_ok", None):
            g = node.generators[0]
            v = it._silent(g.iter, state)
            if v is not None and is_set(v):
                self.add(it, "set-order|comprehension", f"builds an ordered result from a set ({ast.unparse(node)[:60]})", node)


def is_set(v):
    return bool(v.types) and v.types <= {"set", "frozenset"} and (v.elems is None or len(v.elems) > 1)


def resolve(it, d):
    h, _, t = d.partition(".")
    m = it.frame.func.module
    r = m.imports.get(h)
    if r is None:
        return "builtins." + d if not t else d
    return r + ("." + t if t else "")


def order_free(tree):
    """comprehensions whose consumer does not depend on the order"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and n.args:
            if (dotted(n.func) or "").endswith("datetime64"):
                for a in n.args:
                    a._label = True  # reference time label of data without time values
            f = (dotted(n.func) or "").split(".")[-1]
            if f in ("sorted", "set", "frozenset", "sum", "any", "all", "min", "max", "len", "unique", "sort", "isin"):
                for a in n.args:
                    a._ok = True


def one(ctx, item):
    c, f = item
    res = Result()
    res.count("functions")
    h = Hook(res, f)
    E.run_entry(ctx.p, ctx.lib, f, c, [h])
    res.cov["reached"] = {(f.cls.name if f.cls else f.name, n) for n in h.reached}
    # loops over sets that build an ordered result
    return res


def seed_options(ctx):
    """(owner name, parameter) of all options that promise a seed"""
    out = []
    for f in ctx.p.all_functions():
        for n in f.user_params:
            if n in ("random_state", "seed") and not (f.cls is not None and f.cls.name.startswith("_")) and not f.name.startswith("_"):
                out.append((f, n))
            elif n in ("random_state", "seed") and f.name == "__init__":
                out.append((f, n))
    return out


def run(ctx):
    for m in ctx.p.modules.values():
        order_free(m.tree)
    res = ctx.pmap(one, [(f.cls, f) for f in ctx.p.all_functions()])
    reached = res.cov.pop("reached", set())
    for f, n in seed_options(ctx):
        if f.cls is not None and f.cls.name in OPTIONAL:
            continue
        res.count("seed_options")
        owner = f.cls.name if f.cls is not None and f.name == "__init__" else (f.cls.name if f.cls else f.name)
        names = {owner} | ({k.name for k in ctx.p.subclasses(f.cls)} if f.cls is not None else set())
        if not any((o, n) in reached for o in names) and not forwards(ctx, f, n):
            res.add(Finding(f"ignored|{f.short}|{n}", f"the option '{n}' of {f.short} does not reach the seed of any generator",
                            f.loc(), "P06-seed-ignored"))
    return res


OPTIONAL = {"FeedforwardNN": "seeds the generator of the optional package torch"}


def forwards(ctx, f, n):
    """the option is handed to the constructor of an external base class / object under the same name"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == n and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(k.value)):
                    return True
    return False


SRC = """
import numpy as np
import time
import scipy.sparse.linalg
from sklearn.utils import resample
class A:
    def __init__(self, random_state=None):
        self.random_state = random_state
    def m1(self, x):
        return np.random.rand(3)
    def m2(self, x):
        return np.random.default_rng().random(3)
    def m3(self, x):
        return np.random.default_rng(1).random(3)
    def m4(self, x):
        return np.random.default_rng(self.random_state).random(3)
    def m5(self, x):
        return draw(x, self.random_state)
    def m6(self, x):
        return resample(x, n_samples=3)
    def m7(self, x):
        return scipy.sparse.linalg.eigs(x, k=3)
    def m8(self, x):
        kw = {"k": 3, "v0": np.ones(3)}
        return scipy.sparse.linalg.eigs(x, **kw)
    def m9(self, x):
        return list(set(x))
    def m10(self, x):
        return sorted(set(x))
    def m11(self, x):
        t = time.time()
        x = x + 1
        self.fit_time_ = time.time() - t
        return x
    def m12(self, x):
        return np.random.default_rng(int(time.time())).random(3)
    def m13(self, x):
        s = None
        return np.random.default_rng(s).random(3)
    def m14(self, x, random_state=None):
        rng = np.random.default_rng(random_state)
        return rng.permutation(x)
    def m15(self, x):
        return [i for i in {a for a in x}]
    def m16(self, x):
        t = time.time()
        while x > 1:
            x = x / 2
            if time.time() - t > 3:
                break
        return x
    def m17(self, x):
        kw = {"k": 3}
        return scipy.sparse.linalg.eigs(x, **kw)
def draw(x, random_state=None):
    return np.random.default_rng(random_state).random(3)
"""


def selftest(ctx):
    from ..testkit import tiny
    p, lib = tiny(SRC)
    for m in p.modules.values():
        order_free(m.tree)
    c = p.cls("A")
    out = {}
    bad = {"m1", "m2", "m6", "m7", "m9", "m12", "m13", "m15", "m16", "m17"}
    for m in c.methods:
        r = Result()
        E.run_entry(p, lib, c.methods[m], c, [Hook(r, c.methods[m])])
        out[m] = bool(r.findings) == (m in bad)
    return out
