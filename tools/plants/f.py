exec(open("/verif/tools/plants/a.py").read().split("bugs = [")[0])
NP = "import numpy as np, pandas as pd\nfrom datafold import *\n"
bugs = [
 dict(id="P15-weights-residual", property="P15", needs="DMDStandard.fit with sample_weights and a residual_filter",
      breaks="the sample weights are dropped when the residual filter is active",
      edits=[("datafold/dynfold/dmd.py", """        if sample_weights is None:
            # assume uniform sample weights
            G = shift""", """        if self.residual_filter is not None:
            # the residuals are defined for uniform weights
            sample_weights = None

        if sample_weights is None:
            # assume uniform sample weights
            G = shift""")],
      demo=TSC + '''
import warnings; warnings.simplefilter("ignore")
from datafold.dynfold.dmd import DMDStandard
X = tsc(20, 1, 3)
X.iloc[:, :] += np.random.default_rng(0).normal(size=X.shape) * 1e-1
w = np.linspace(0.01, 5, 19)
a = DMDStandard(residual_filter=1e5).fit(X, sample_weights=w)
b = DMDStandard(residual_filter=1e5).fit(X)
if np.allclose(np.sort(np.abs(a.eigenvalues_)), np.sort(np.abs(b.eigenvalues_))):
    raise SystemExit("sample weights have no effect")
'''),
 dict(id="P15-fd-accuracy", property="P15", needs="TSCFiniteDifference with diff_order=2 and an accuracy other than the default",
      breaks="the option accuracy only takes effect for first derivatives",
      edits=[("datafold/dynfold/transform.py", """            diff_order=self.diff_order,
            accuracy=self.accuracy,
            shift_index=True,""", """            diff_order=self.diff_order,
            # higher orders need wide stencils already
            accuracy=self.accuracy if self.diff_order == 1 else 2,
            shift_index=True,""")],
      demo=TSC + '''
X = tsc(30)
a = TSCFiniteDifference(diff_order=2, accuracy=2).fit_transform(X)
b = TSCFiniteDifference(diff_order=2, accuracy=4).fit_transform(X)
if a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12):
    raise SystemExit("accuracy has no effect")
'''),
 dict(id="P16-rbf-memo", property="P16", needs="TSCRadialBasis.fit_transform on an array, then writing into the result, then inverse_transform",
      breaks="fit_transform keeps the kernel matrix of the centers for inverse_transform and hands out the very same array",
      edits=[("datafold/dynfold/transform.py", """            rbf_coeff = self.kernel(X)
        else:""", """            rbf_coeff = self.kernel(X)
            # evaluated again in inverse_transform
            self.center_kernel_ = rbf_coeff
        else:"""), ("datafold/dynfold/transform.py", """            center_kernel = self.kernel(self.centers_)
            self.inv""", """            center_kernel = getattr(self, "center_kernel_", None)
            if center_kernel is None:
                center_kernel = self.kernel(self.centers_)
            self.inv"""), ("datafold/dynfold/transform.py", """        self.inv_coeff_matrix_ = None  # computed in inverse_transform
        self._setup_feature_attrs_fit(X)
""", """        self.inv_coeff_matrix_ = None  # computed in inverse_transform
        self.center_kernel_ = None
        self._setup_feature_attrs_fit(X)
""")],
      demo=NP + '''
from datafold.pcfold import GaussianKernel
X = np.random.default_rng(0).normal(size=(12, 2))
m = TSCRadialBasis(GaussianKernel(1.0))
r = m.fit_transform(X.copy())
keep = r.copy()
r[:] = 0.0
if not np.allclose(m.inverse_transform(keep), X, atol=1e-4):
    raise SystemExit("writing into the result of fit_transform changed the model")
'''),
 dict(id="P17-partial-timing", property="P17", needs="EDMD.partial_fit",
      breaks="each update prints a timing message although verbose is False",
      edits=[("datafold/appfold/edmd.py", """        with _print_elapsed_time("Pipeline", self._log_message(len(self.steps) - 1)):
            self.dmd_model.partial_fit""", """        with _print_elapsed_time("Pipeline", f"(update) {self.steps[-1][0]}"):
            self.dmd_model.partial_fit""")],
      demo=TSC + '''
import io, contextlib
from datafold.dynfold.dmd import OnlineDMD
X = tsc()
e = EDMD([("id", TSCIdentity())], dmd_model=OnlineDMD(), include_id_state=True)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    e.partial_fit(X.loc[[0]])
if out.getvalue():
    raise SystemExit("printed: " + out.getvalue())
'''),
 dict(id="P17-spectral-print", property="P17", needs="DMDStandard with a residual_filter that keeps every component",
      breaks="the information is printed instead of being issued as a warning",
      edits=[("datafold/dynfold/dmd.py", """            warnings.warn(
                "No system component was removed as spectral pollution.\\n"
                f"{min_res=:.3e}, {max_res=:.3e} and {median_res=:.3e}",
                stacklevel=2,
            )
""", """            import sys

            sys.stderr.write(
                "No system component was removed as spectral pollution.\\n"
                f"{min_res=:.3e}, {max_res=:.3e} and {median_res=:.3e}\\n"
            )
""")],
      demo=TSC + '''
import io, contextlib, warnings
warnings.simplefilter("ignore")
from datafold.dynfold.dmd import DMDStandard
out = io.StringIO()
with contextlib.redirect_stderr(out):
    DMDStandard(residual_filter=1e5).fit(tsc(20, 1, 2))
if out.getvalue():
    raise SystemExit("printed: " + out.getvalue())
'''),
 dict(id="P18-takens-delays", property="P18", needs="set_params(delays=...) or set_params(lag=...) on an existing TSCTakensEmbedding (grid search), then fit",
      breaks="the delay indices are computed in the constructor only, changed options are used for some quantities and not for others",
      edits=[("datafold/dynfold/transform.py", """        self.kappa = kappa

    def _more_tags(self):
        return dict(tsc_contains_orig_states=True)
""", """        self.kappa = kappa
        # smallest distance between two delayed samples
        self._spacing = self.frequency if self.delays > 1 else 1

    def _more_tags(self):
        return dict(tsc_contains_orig_states=True)
"""), ("datafold/dynfold/transform.py", """            np.arange(1, (self.delays * self.frequency) + 1, self.frequency)
""", """            np.arange(1, (self.delays * self._spacing) + 1, self._spacing)
""")],
      demo=TSC + '''
X = tsc()
a = TSCTakensEmbedding(delays=3, frequency=2).fit_transform(X)
b = TSCTakensEmbedding(delays=3).set_params(frequency=2).fit_transform(X)
if a.shape != b.shape or not np.allclose(a, b):
    raise SystemExit("set_params is not like a new object")
'''),
 dict(id="P18-ghi-operator", property="P18", needs="set_params on an existing GeometricHarmonicsInterpolator, then fit",
      breaks="the configuration of the kernel is assembled once in the constructor, options changed later are ignored by fit",
      edits=[("datafold/dynfold/outofsample.py", """        self.alpha = alpha
        self.symmetrize_kernel = symmetrize_kernel

    def _precompute_aux(self) -> None:
""", """        self.alpha = alpha
        self.symmetrize_kernel = symmetrize_kernel
        self._kernel_options = dict(
            is_stochastic=is_stochastic,
            alpha=alpha,
            symmetrize_kernel=symmetrize_kernel,
        )

    def _precompute_aux(self) -> None:
"""), ("datafold/dynfold/outofsample.py", """            is_stochastic=self.is_stochastic,
            alpha=self.alpha,
            symmetrize_kernel=self.symmetrize_kernel,
        )

        self.X_fit_ = X
        self.y_ = y""", """            **self._kernel_options,
        )

        self.X_fit_ = X
        self.y_ = y""")],
      demo=NP + '''
from datafold.pcfold import GaussianKernel
X = np.random.default_rng(0).normal(size=(30, 2))
y = np.sin(X[:, 0])
kw = dict(n_eigenpairs=5)
a = GeometricHarmonicsInterpolator(GaussianKernel(1.0), is_stochastic=True, alpha=0.0, **kw).fit(X, y).predict(X[:5] + .01)
b = GeometricHarmonicsInterpolator(GaussianKernel(1.0), **kw).set_params(is_stochastic=True, alpha=0.0).fit(X, y).predict(X[:5] + .01)
if not np.allclose(a, b):
    raise SystemExit("set_params is not like a new object")
'''),
]
