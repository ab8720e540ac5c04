"""Invalid values of options and arguments are refused.

The table lists, per class and operation, options/arguments and values outside their documented domain. The operation is
interpreted with exactly this value bound to the argument (or stored in the option attribute) and everything else
unknown; it must not have a normal exit. In return the documented good values, all defaults and every Literal choice
must have one.
"""
import ast
from ..core import Finding, Result
from ..project import AnalysisBroken, FuncInfo, dotted
from ..interp import const
from .. import entry as E
from . import common as C

RULE = ("with the listed value bound to the option/argument (everything else unknown) the operation has no path to a normal exit; "
        "with the listed good value it has one")
ASSUMPTIONS = ["sklearn.utils.check_scalar raises as documented", "options are not changed between construction and fit (P02)"]
MINIMUM = {"obligations": 250, "accepted": 30}

STR = ["?invalid", None]            # choice options
NUM = [-1, "?invalid", None]        # numbers > 0 or >= 0
POS = NUM + [0]                     # numbers > 0
INT = POS + [1.5]                   # integers > 0
EPS = [-1, -0.5, 0]                 # bandwidths (may also be callables or arrays)
ALPHA = [-1, -0.5, 1.5]             # numbers in [0, 1]

# (class, operation, "opt"|"arg", name, refused values, accepted values)
TABLE = [
    # --- dynamical systems and DMD
    ("LinearDynamicalSystem", "__init__", "arg", "sys_type", STR, ["differential", "flowmap"]),
    ("LinearDynamicalSystem", "__init__", "arg", "sys_mode", STR, ["matrix", "spectral"]),
    ("LinearDynamicalSystem", "__init__", "arg", "is_time_invariant", [False], [True]),
    ("DMDBase", "__init__", "arg", "sys_mode", STR, ["matrix", "spectral"]),
    ("DMDBase", "__init__", "arg", "sys_type", STR, ["differential", "flowmap"]),
    ("DMDStandard", "__init__", "arg", "sys_mode", STR, ["matrix", "spectral"]),
    ("DMDStandard", "fit", "opt", "sys_mode", STR, ["matrix", "spectral"]),
    ("DMDStandard", "fit", "opt", "reconstruct_mode", STR, ["exact", "project"]),
    ("DMDStandard", "fit", "opt", "rank", [-1, 0, "?invalid", 1.5], [None, 2]),
    ("DMDControl", "__init__", "arg", "sys_mode", STR, ["matrix", "spectral"]),
    ("gDMDFull", "__init__", "arg", "sys_mode", STR, ["matrix", "spectral"]),
    ("gDMDFull", "fit", "opt", "sys_mode", STR, ["matrix", "spectral"]),
    ("OnlineDMD", "fit", "opt", "weighting", ["?invalid", None, -1, 0, 1.5], [1.0, 0.9]),
    ("PretrainedDMD", "__init__", "arg", "sys_mode", STR, ["matrix", "spectral"]),
    ("PretrainedDMD", "__init__", "arg", "sys_type", STR, ["differential", "flowmap"]),
    ("PretrainedDMD", "from_available_system_matrix", "arg", "sys_mode", STR, ["matrix"]),
    ("PretrainedDMD", "from_available_system_matrix", "arg", "sys_type", STR, ["differential", "flowmap"]),
    ("PyDMDWrapper", "fit", "opt", "method", STR, ["dmd"]),
    ("EDMD", "fit", "opt", "dict_preserves_id_state", STR, ["infer", True, False]),
    ("EDMDCV", "fit", "opt", "cv", STR, []),
    ("EDMDCV", "fit", "opt", "estimator", STR, []),
    ("DMDDictLearning", "fit", "opt", "sys_mode", STR, ["matrix"]),
    ("FeedforwardNN", "fit", "opt", "n_dict_elements", INT, [3]),
    ("FeedforwardNN", "fit", "opt", "n_epochs", INT, [3]),
    ("FeedforwardNN", "fit", "opt", "sys_regularization", NUM, [0.5]),
    ("FeedforwardNN", "fit", "opt", "loss_regularization", NUM, [0.5]),
    # --- control
    ("KMPC", "__init__", "arg", "horizon", POS + [1, 1.5], [2]),
    ("StreamingDMD", "partial_fit", "opt", "max_rank", [-1, 0, 1.5, "?invalid"], [None, 3]),
    ("StreamingDMD", "partial_fit", "opt", "ngram", INT, [1, 5]),
    ("EDMDWindowPrediction", "adapt_model", "opt", "window_size", [-1, 0, 1.5, "?invalid"], [10]),
    ("EDMDWindowPrediction", "adapt_model", "opt", "offset", [-1, 0, 1.5, "?invalid"], [10]),
    ("EDMDPostObservable", "fit_transform", "opt", "observable", STR, ["abserr", "std"]),
    ("LinearDynamicalSystem", "setup_spectral_system", "opt", "sys_mode", ["matrix"], ["spectral"]),
    ("LinearDynamicalSystem", "compute_spectral_system_states", "opt", "sys_mode", ["matrix"], ["spectral"]),
    (None, "random_subsample", "arg", "n_samples", [-1, 0, 1.5, None], [2]),
    ("KMPC", "__init__", "arg", "cost_running", NUM, [1.0]),
    ("KMPC", "__init__", "arg", "cost_input", NUM, [1.0]),
    ("LQR", "__init__", "arg", "cost_running", NUM, []),
    ("LQR", "__init__", "arg", "cost_input", NUM, []),
    # --- kernels and distances
    ("GaussianKernel", "__call__", "opt", "epsilon", EPS, [1.0, 0.1]),
    ("GaussianKernel", "evaluate", "opt", "epsilon", EPS, [1.0]),
    ("MultiquadricKernel", "__call__", "opt", "epsilon", EPS, [1.0]),
    ("MultiquadricKernel", "evaluate", "opt", "epsilon", EPS, [1.0]),
    ("InverseMultiquadricKernel", "__call__", "opt", "epsilon", EPS, [1.0]),
    ("InverseMultiquadricKernel", "evaluate", "opt", "epsilon", EPS, [1.0]),
    ("InverseQuadraticKernel", "__call__", "opt", "epsilon", EPS, [1.0]),
    ("InverseQuadraticKernel", "evaluate", "opt", "epsilon", EPS, [1.0]),
    ("ConeKernel", "__call__", "opt", "zeta", ALPHA + [1, 1.0], [0, 0.0, 0.5]),
    ("ConeKernel", "__call__", "opt", "epsilon", [-1, -0.5], [1.0]),
    ("ConeKernel", "__call__", "opt", "fd_accuracy", INT, [4]),
    ("ContinuousNNKernel", "__init__", "arg", "k_neighbor", [-1, 0], [2]),
    ("ContinuousNNKernel", "__init__", "arg", "delta", [-1, 0, -0.5], [0.5]),
    ("DmapKernelFixed", "__init__", "arg", "alpha", ALPHA, [0, 0.5, 1, 1.0]),
    ("RoselandKernel", "__init__", "arg", "alpha", ALPHA, [0, 0.5, 1]),
    ("DistanceAlgorithm", "__init__", "arg", "cut_off", [-1, -0.5, 0], [None, 1.0]),
    ("DistanceAlgorithm", "__init__", "arg", "k", [-1, 0], [None, 2]),
    ("BruteForceDist", "__init__", "arg", "cut_off", [-1, -0.5], [None, 1.0]),
    ("GuessOptimalDist", "__init__", "arg", "cut_off", [-1, -0.5, 0], [None, 1.0]),
    ("GuessOptimalDist", "__init__", "arg", "k", [-1, 0], [None, 2]),
    ("RDist", "__init__", "arg", "metric", STR, ["euclidean", "sqeuclidean"]),
    ("RDist", "__init__", "arg", "cut_off", [-1, -0.5, 0], [1.0]),
    ("ScipyKdTreeDist", "__init__", "arg", "metric", STR, ["euclidean", "sqeuclidean"]),
    ("ScipyKdTreeDist", "__init__", "arg", "cut_off", [-1, -0.5], [1.0]),
    ("ScipyKdTreeDist", "__init__", "arg", "kmin", [-1, 0], [None, 2]),
    ("SklearnBalltreeDist", "__init__", "arg", "metric", STR, ["euclidean", "sqeuclidean"]),
    ("SklearnBalltreeDist", "__init__", "arg", "cut_off", [-1, -0.5], [1.0]),
    ("SklearnKNN", "__init__", "arg", "k", [-1, 0], [2]),
    # --- manifold learning
    ("DiffusionMaps", "fit", "opt", "n_eigenpairs", INT, [2, 10]),
    ("DiffusionMaps", "fit", "opt", "time_exponent", ["?invalid", None], [0, 1, 0.5]),
    ("Roseland", "fit", "opt", "time_exponent", ["?invalid", None], [0, 1, 0.5]),
    ("DiffusionMaps", "fit", "opt", "alpha", ALPHA, [0, 0.5, 1]),
    ("GeometricHarmonicsInterpolator", "fit", "opt", "n_eigenpairs", INT, [2]),
    ("GeometricHarmonicsInterpolator", "gradient", "arg", "vcol", [-1], [None, 0]),
    ("JointlySmoothFunctions", "fit", "opt", "n_kernel_eigenvectors", INT, [3]),
    ("JointlySmoothFunctions", "fit", "opt", "n_jointly_smooth_functions", INT, [3]),
    ("JointlySmoothFunctions", "fit", "opt", "kernel_eigenvalue_cut_off", NUM, [0.0, 0.5]),
    ("LaplacianPyramidsInterpolator", "fit", "opt", "mu", EPS + [1, 1.0, 0.5], [2, 1.5]),
    ("LaplacianPyramidsInterpolator", "fit", "opt", "residual_tol", [-1, -0.5], [0.5, None]),
    ("LocalRegressionSelection", "fit", "opt", "strategy", STR, ["dim", "threshold"]),
    ("LocalRegressionSelection", "fit", "opt", "bandwidth_type", STR, ["median"]),
    ("LocalRegressionSelection", "fit", "opt", "eps_med_scale", [-1, -0.5], [5]),
    ("LocalRegressionSelection", "fit", "opt", "n_subsample", [-1, 0, 1.5], []),
    ("Roseland", "fit", "opt", "n_svdtriplet", INT, [2]),
    ("Roseland", "fit", "opt", "landmarks", STR + [-1, 0, 1.5, 0.0], [0.25, 1.0, 10]),
    ("Roseland", "fit", "opt", "alpha", ALPHA, [0, 1]),
    # --- transformers
    ("TSCFeaturePreprocess", "from_name", "arg", "name", STR, ["center", "min-max", "standard"]),
    ("TSCFeatureSelect", "fit", "opt", "features", STR, []),
    ("TSCTakensEmbedding", "fit", "opt", "lag", [-1, 1.5, "?invalid", None], [0, 1]),
    ("TSCTakensEmbedding", "fit", "opt", "delays", INT, [1, 10]),
    ("TSCTakensEmbedding", "fit", "opt", "frequency", INT, [1]),
    ("TSCTakensEmbedding", "fit", "opt", "kappa", [-1, "?invalid", None], [0, 0.5]),
    ("TSCFiniteDifference", "fit", "opt", "diff_order", INT, [1]),
    ("TSCFiniteDifference", "fit", "opt", "accuracy", INT, [2]),
    ("TSCFiniteDifference", "fit", "opt", "spacing", [-1, 0, "?invalid", None], ["dt", 1.0]),
    ("TSCMovingAverage", "fit", "opt", "window", INT, [5]),
    ("TSCRadialBasis", "fit", "opt", "center_type", STR, ["all_data", "random", "initial_condition", "fit_params"]),
    # --- time series collections
    ("TSCDataFrame", "initial_states", "arg", "n_samples", [-1, 0], [1, 2]),
    ("TSCDataFrame", "final_states", "arg", "n_samples", [-1, 0], [1, 2]),
    ("TSCAccessor", "iter_timevalue_window", "arg", "window_size", [-1, 0], [2]),
    ("TSCAccessor", "iter_timevalue_window", "arg", "offset", [-1, 0], [2]),
    ("TSCAccessor", "shift_matrices", "arg", "snapshot_orientation", STR, ["col", "row"]),
    ("TSCAccessor", "time_derivative", "arg", "scheme", STR, ["forward", "backward", "center"]),
    ("InitialCondition", "from_tsc", "arg", "n_samples_ic", [-1, 0], [1]),
    ("TSCMetric", "__init__", "arg", "mode", STR, ["timeseries", "timestep", "feature"]),
    ("TSCMetric", "__init__", "arg", "scaling", STR, ["id", "min-max", "standard", "l2_normalize"]),
    ("TSCMetric", "__init__", "arg", "metric", STR, ["rmse", "rrmse", "mse", "mae", "max", "l2"]),
    ("TSCWindowFoldTime", "__init__", "arg", "test_window_length", [-1, 0, None, 1.5], [1, 2]),
    ("TSCWindowFoldTime", "__init__", "arg", "train_min_timesteps", [-1, 0, 1.5], [2, None]),
    ("TSCWindowFoldTime", "__init__", "arg", "window_offset", [-1, None, 1.5], [0, 2]),
    # --- options that depend on another option
    ("LocalRegressionSelection", "fit", "opt", "intrinsic_dim", [-1, 0, 1.5, None], [2], {"strategy": "dim"}),
    ("LocalRegressionSelection", "fit", "opt", "regress_threshold", [-1, 0, 1, 1.5, None], [0.5], {"strategy": "threshold"}),
    # --- functions
    (None, "compute_kernel_eigenpairs", "arg", "backend", STR, ["scipy"]),
    (None, "compute_kernel_svd", "arg", "backend", STR, ["scipy"]),
    (None, "pcm_remove_outlier", "arg", "kmin", POS, [2]),
]


def interp(ctx, cn, m, kind, name, value, with_):
    p = ctx.p
    c = ctx.cls(cn) if cn else None
    f = E.public_methods(p, c, extra=("__init__", "__call__")).get(m) if c else next((g for g in p.all_functions() if g.name == m and g.cls is None), None)
    if f is None:
        raise AnalysisBroken(f"P11: {cn or ''} {m} not found")
    v = const(value)
    if kind == "defaults":
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], heap={(E.SELF, k): const(w) for k, w in value})
    elif kind == "arg":
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], overrides={name: v})
    else:
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], heap={(E.SELF, k): const(w) for k, w in [*with_, (name, value)]})
    return f, rs


def one(ctx, item):
    cn, m, kind, name, value, good = item[:6]
    res = Result()
    f, rs = interp(ctx, cn, m, kind, name, value, item[6] if len(item) > 6 else ())
    res.count("entry_runs")
    n = f"{cn}.{m}" if cn else m
    if good:
        res.count("accepted")
        if rs is None and kind != "arg" and cn and E.run_entry(ctx.p, ctx.lib, f, ctx.cls(cn), [])[2] is None:
            pass  # the operation is not offered at all by this class
        elif rs is None:
            res.add(Finding(f"accepts|{n}|{name}|{value!r}".replace(" ", ""), f"{n} refuses the documented value {value!r} of '{name}'",
                            f"{f.module.rel}:{f.node.lineno}", "P11-accept", [f.short]))
    else:
        res.count("obligations")
        if rs is not None:
            res.add(Finding(f"refuses|{n}|{name}|{value!r}".replace(" ", ""),
                            f"a path through {n} accepts {value!r} for the {'option' if kind == 'opt' else 'argument'} '{name}'",
                            f"{f.module.rel}:{f.node.lineno}", "P11-refuse", [f.short]))
    return res


def items(ctx):
    out = []
    for cn, m, kind, name, bad, good, *w in TABLE:
        w = tuple(w[0].items()) if w else ()
        out += [(cn, m, kind, name, v, False, w) for v in bad] + [(cn, m, kind, name, v, True, w) for v in good]
    return out + generic(ctx)


def literal(p, f, name):
    """documented choices of a parameter annotated with Literal[...]"""
    a = next((x.annotation for x in f.node.args.args + f.node.args.kwonlyargs if x.arg == name), None)
    return [e.value for n in ast.walk(a) if isinstance(n, ast.Subscript) and (dotted(n.value) or "").endswith("Literal")
            for e in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]) if isinstance(e, ast.Constant)] if a is not None else []


# documented: the caller has to choose between two options that are both unset by default
REQUIRED = {"LaplacianPyramidsInterpolator": "residual_tol or auto_adaptive"}
OPERATIONS = {"fit", "partial_fit", "fit_transform", "fit_predict", "transform", "inverse_transform", "predict", "reconstruct", "score",
              "__call__", "evaluate"}


def generic(ctx):
    """every class works with the default values of its options, and with every choice listed in an annotation"""
    out = []
    for c in ctx.p.all_classes():
        if not C.has_params(ctx.p, c) or c.name.startswith("_") or any(k.arg == "metaclass" for k in c.node.keywords):
            continue  # abstract bases are covered through their subclasses
        i = C.init_of(ctx.p, c)
        if not isinstance(i, FuncInfo):
            continue
        defs = {}
        for n, d in i.defaults.items():
            try:
                defs[n] = ast.literal_eval(d) if d is not None else None
            except ValueError:
                continue
            if isinstance(defs[n], (list, dict, set)):
                del defs[n]
        opts = [n for n in C.ctor_params(ctx.p, c) if n in i.defaults]
        ms = E.public_methods(ctx.p, c, extra=("__call__",))
        for m, f in sorted(ms.items()):
            if m not in OPERATIONS or f.kind != "method" or f.abstract or f.is_property:
                continue
            if c.name not in REQUIRED:
                out.append((c.name, m, "defaults", "all options at their default", tuple((k, v) for k, v in defs.items() if k in opts), True, ()))
            for o in C.ctor_params(ctx.p, c):
                for v in literal(ctx.p, i, o):
                    out.append((c.name, m, "opt", o, v, True, ()))
        for o in C.ctor_params(ctx.p, c):
            for v in literal(ctx.p, i, o):
                out.append((c.name, "__init__", "arg", o, v, True, ()))
    return out


def run(ctx):
    return ctx.pmap(one, items(ctx))


SRC = """
from sklearn.utils.validation import check_scalar
class A:
    def __init__(self, eps): self.eps = eps
    def fit(self, X):
        if self.eps <= 0:
            raise ValueError("eps")
        return self
class B(A):
    def fit(self, X):
        check_scalar(self.eps, "eps", (int, float), min_val=0)
        return self
class D(A):
    def fit(self, X):
        check_scalar(self.eps, "eps", (int, float), min_val=0, include_boundaries="right")
        return self
class F(A):
    def fit(self, X):
        if self.eps <= 0:
            ValueError("eps")
        return self
class G(A):
    def _c(self, e):
        return e > 0
    def fit(self, X):
        ok = self._c(self.eps)
        if not ok:
            raise ValueError()
        return self
class H(A):
    def fit(self, X):
        if X is not None and not self.eps > 0:
            raise ValueError()
        return self
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    t = Ctx.__new__(Ctx)
    t.p, t.lib = tiny(SRC)
    return {c: bool(one(t, (c, "fit", "opt", "eps", 0, False)).findings) == bad
            for c, bad in (("A", False), ("B", True), ("D", False), ("F", True), ("G", False), ("H", True))}
