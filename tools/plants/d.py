exec(open("/verif/tools/plants/a.py").read().split("bugs = [")[0])
NP = "import numpy as np, pandas as pd\nfrom datafold import *\n"
bugs = [
 dict(id="P09-roseland-names", property="P09", needs="out-of-sample transform of a frame with permuted columns",
      breaks="Roseland.transform no longer compares the features of the query points with those of the fit",
      edits=[("datafold/dynfold/dmap.py", """        X = self._validate_datafold_data(X)
        self._validate_feature_input(X, direction="transform")

        kernel_matrix_cdist = self.rose_kernel_(self.landmarks_, X)
""", """        X = self._validate_datafold_data(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError(
                f"Required number of features {self.n_features_in_=}, got {X.shape[1]=}."
            )

        kernel_matrix_cdist = self.rose_kernel_(self.landmarks_, X)
""")],
      demo=NP + '''
X = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 2)), columns=["a", "b"])
m = Roseland(landmarks=0.5, n_svdtriplet=3, random_state=1).fit(X)
try:
    m.transform(X[["b", "a"]])
except ValueError:
    pass
else:
    raise SystemExit("permuted features accepted")
'''),
 dict(id="P09-inf-lambda", property="P09", needs="data with an infinite value given to TSCTakensEmbedding.transform as time series collection",
      breaks="only missing values are refused in time series collections, infinite values are accepted",
      edits=[("datafold/pcfold/timeseries/accessor.py", "        if not self._tsc_df.is_finite():\n            raise TSCException.not_finite()\n",
              "        if self._tsc_df.isnull().to_numpy().any():\n            raise TSCException.not_finite()\n")],
      demo=TSC + '''
from datafold.dynfold.transform import TSCTakensEmbedding
X = tsc(10, 2, 2)
t = TSCTakensEmbedding(delays=2).fit(X)
Y = X.copy(); Y.iloc[3, 0] = np.inf
try:
    t.transform(Y)
except Exception:
    pass
else:
    raise SystemExit("infinite value accepted")
'''),
 dict(id="P11-cone-zeta", property="P11", needs="ConeKernel(zeta=1.0) on data whose velocities are not parallel",
      breaks="the excluded boundary zeta=1 is accepted (the kernel then divides by zero for parallel directions)",
      edits=[("datafold/pcfold/kernels.py", """            min_val=0.0,
            max_val=1.0,
            include_boundaries="left",
""", """            min_val=0.0,
            max_val=1.0,
""")],
      demo=TSC + '''
from datafold.pcfold.kernels import ConeKernel
X = TSCDataFrame.from_single_timeseries(pd.DataFrame(np.random.default_rng(1).normal(size=(30, 3)), index=np.arange(30.) , columns=list("abc")))
try:
    ConeKernel(zeta=1.0)(X)
except ValueError:
    pass
else:
    raise SystemExit("zeta=1 accepted")
'''),
 dict(id="P11-takens-kappa", property="P11", needs="TSCTakensEmbedding(kappa=-1, delays=1)",
      breaks="a negative weight is only refused if there is more than one delay",
      edits=[("datafold/dynfold/transform.py", """        check_scalar(
            self.kappa,
            name="kappa",
""", """        if self.delays > 1 or self.kappa is None:
          check_scalar(
            self.kappa,
            name="kappa",
""")],
      demo=TSC + '''
from datafold.dynfold.transform import TSCTakensEmbedding
try:
    TSCTakensEmbedding(delays=1, kappa=-1.0).fit(tsc(10, 1, 1))
except ValueError:
    pass
else:
    raise SystemExit("kappa=-1 accepted")
'''),
 dict(id="P04-takens-dt", property="P04", needs="fit on data with one sampling interval, then fit of the same object on data with another one",
      breaks="the sampling interval of the first fit is kept, later transforms are checked against it",
      edits=[("datafold/dynfold/transform.py", """        self.delta_time_fit_ = X.delta_time
        self._setup_feature_attrs_fit(X)

        return self

    def partial_fit(""", """        if not hasattr(self, "delta_time_fit_"):
            # the sampling interval does not change in further batches
            self.delta_time_fit_ = X.delta_time
        self._setup_feature_attrs_fit(X)

        return self

    def partial_fit(""")],
      demo=TSC + '''
from datafold.dynfold.transform import TSCTakensEmbedding
X = tsc(10, 1, 1)
Y = TSCDataFrame.from_single_timeseries(pd.DataFrame(X.to_numpy(), index=np.arange(10) * 0.5, columns=X.columns))
t = TSCTakensEmbedding(delays=2).fit(X)
t.fit(Y).transform(Y)
'''),
]
