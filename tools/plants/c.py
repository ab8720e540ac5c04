exec(open("/verif/tools/plants/a.py").read().split("bugs = [")[0])
NP = "import numpy as np, pandas as pd\nfrom datafold import *\n"
bugs = [
 dict(id="P07-koopman-modes", property="P07", needs="reading koopman_modes before the EDMD model is fitted",
      breaks="an unfitted EDMD answers None for its Koopman modes instead of raising a not-fitted error",
      edits=[("datafold/appfold/edmd.py", """        check_is_fitted(self, attributes=["_koopman_modes"])
""", """        if getattr(self, "_koopman_modes", None) is None:
            # no modes (e.g. no spectral components available)
            return None
""")],
      demo=TSC + '''
from sklearn.exceptions import NotFittedError
try:
    EDMD([("id", TSCIdentity())]).koopman_modes
except NotFittedError:
    pass
else:
    raise SystemExit("unfitted model answered")
'''),
 dict(id="P07-preprocess-vacuous", property="P07", needs="inverse_transform of an unfitted TSCFeaturePreprocess whose scikit-learn object is already fitted",
      breaks="the not-fitted check tests an attribute that the constructor sets, so the unfitted wrapper answers with the user's own transformer",
      edits=[("datafold/dynfold/transform.py", """        check_is_fitted(self, "sklearn_transformer_fit_")

        values = self.sklearn_transformer_fit_.inverse_transform(X)
        return self._same_type_X(
            X=X, values=values, feature_names=self.feature_names_in_
        )
""", """        check_is_fitted(self, "sklearn_transformer")

        transformer = getattr(
            self, "sklearn_transformer_fit_", self.sklearn_transformer
        )
        values = transformer.inverse_transform(X)
        return self._same_type_X(
            X=X,
            values=values,
            feature_names=getattr(self, "feature_names_in_", None),
        )
""")],
      demo=NP + '''
from sklearn.preprocessing import StandardScaler
from sklearn.exceptions import NotFittedError
from datafold.dynfold.transform import TSCFeaturePreprocess
X = np.random.default_rng(0).normal(size=(10, 2))
t = TSCFeaturePreprocess(StandardScaler().fit(X))
try:
    t.inverse_transform(X)
except NotFittedError:
    pass
else:
    raise SystemExit("unfitted model answered")
'''),
 dict(id="P09-inverse-frame-names", property="P09", needs="inverse_transform of a plain DataFrame (not a time series collection) whose columns are permuted",
      breaks="the names of a plain pandas frame are no longer compared with the output features of the fit",
      edits=[("datafold/dynfold/base.py", """            if self._has_feature_names(X):
                should_features = self.get_feature_names_out()
                try:""", """            if isinstance(X, TSCDataFrame):
                should_features = self.get_feature_names_out()
                try:""")],
      demo=NP + '''
from datafold.dynfold.transform import TSCPrincipalComponent
X = pd.DataFrame(np.random.default_rng(0).normal(size=(10, 2)), columns=["a", "b"])
t = TSCPrincipalComponent(n_components=2).fit(X)
Y = t.transform(X)
try:
    t.inverse_transform(Y[Y.columns[::-1]])
except ValueError:
    pass
else:
    raise SystemExit("permuted components accepted")
'''),
 dict(id="P10-delta-nan", property="P10", needs="predicting or updating with a collection whose sampling interval is not constant (delta_time is nan)",
      breaks="the comparison with the sampling interval of the fit is false for nan, so irregularly sampled series pass",
      edits=[("datafold/dynfold/base.py", """        if not np.abs(delta_time - self.dt_) <= 1e-14:
            raise TSCException(""", """        if np.abs(delta_time - self.dt_) > 1e-14:
            raise TSCException(""")],
      demo=TSC + '''
from datafold.dynfold.dmd import OnlineDMD
m = OnlineDMD().partial_fit(tsc(12, 1, 2))
Y = tsc(6, 1, 2)
t = np.array([0, .1, .2, .5, .6, 1.7])
Y = TSCDataFrame.from_single_timeseries(pd.DataFrame(Y.to_numpy(), index=t, columns=Y.columns))
try:
    m.partial_fit(Y)
except Exception:
    pass
else:
    raise SystemExit("irregular sampling accepted")
'''),
 dict(id="P10-control-start", property="P10", needs="several initial conditions and control input that starts later than the state",
      breaks="the comparison of the last state time with the first control time became dependent on the number of samples per initial condition",
      edits=[("datafold/pcfold/timeseries/collection.py", "        if (last_state_time != first_control_time).any():\n", "        if X_ic.n_timeseries == 1 and (last_state_time != first_control_time).any():\n")],
      demo=TSC + '''
from datafold.pcfold import InitialCondition
X = tsc(1, 2, 2)
U = tsc(5, 2, 1)
U.index = pd.MultiIndex.from_arrays([U.index.get_level_values(0), U.index.get_level_values(1) + 3.0], names=U.index.names)
try:
    InitialCondition.validate_control(X_ic=X, U=U)
except Exception:
    pass
else:
    raise SystemExit("control input at other times accepted")
'''),
 dict(id="P12-names-swallowed", property="P12", needs="a model fitted with numpy integer feature names or any mismatch of the names in predict",
      breaks="the mismatch of feature names found by _validate_feature_names is only reported as a warning",
      edits=[("datafold/dynfold/dmd.py", """        self._validate_delta_time(X.delta_time)
        self._validate_feature_names(X)

        Xm, Xp = X.tsc.shift_matrices(validate=False)
""", """        self._validate_delta_time(X.delta_time)
        try:
            self._validate_feature_names(X)
        except ValueError:
            warnings.warn("The feature names differ from the previous data.")

        Xm, Xp = X.tsc.shift_matrices(validate=False)
""")],
      demo=TSC + '''
from datafold.dynfold.dmd import OnlineDMD
m = OnlineDMD().partial_fit(tsc(12, 1, 2))
Y = tsc(12, 1, 2); Y = Y[Y.columns[::-1]]
try:
    m.partial_fit(Y)
except ValueError:
    pass
else:
    raise SystemExit("permuted features accepted")
'''),
 dict(id="P12-unraised", property="P12", needs="all spectral components removed as pollution or control_matrix given to an uncontrolled system",
      breaks="the error object is built but no longer raised",
      edits=[("datafold/dynfold/dynsystem.py", """                raise ValueError(
                    f"If {self.is_controlled=}, no control matrix should be provided!"
                )
        return self
""", """                ValueError(
                    f"If {self.is_controlled=}, no control matrix should be provided!"
                )
        return self
""")],
      demo=NP + '''
from datafold.dynfold.dynsystem import LinearDynamicalSystem
s = LinearDynamicalSystem(sys_type="flowmap", sys_mode="matrix")
try:
    s.setup_matrix_system(np.eye(2), control_matrix=np.ones((2, 1)))
except ValueError:
    pass
else:
    raise SystemExit("control matrix accepted")
'''),
 dict(id="P13-stationary-name", property="P13", needs="residual filter set by quantile",
      breaks="a name that is only bound in one branch of the residual filter is read in all of them",
      edits=[("datafold/dynfold/dmd.py", """        if residual_filter.get("threshold", False):
            mask_keep = residuals <= residual_filter["threshold"]
        elif""", """        if residual_filter.get("threshold", False):
            threshold = residual_filter["threshold"]
            mask_keep = residuals <= threshold
        elif"""), ("datafold/dynfold/dmd.py", """        if np.all(~mask_keep):
            raise ValueError(
                "All system components are removed as spectral pollution. "
                f"Consider setting a higher threshold (currently {self.residual_filter=}).\\n"
                f"{min_res=:.3e}, {max_res=:.3e} and {median_res=:.3e}"
            )
""", """        if np.all(~mask_keep):
            raise ValueError(
                "All system components are removed as spectral pollution. "
                f"Consider setting a higher threshold (currently {self.residual_filter=}).\\n"
                f"{min_res=:.3e}, {max_res=:.3e} and {median_res=:.3e}"
            )
        elif max_res <= threshold and "keep_n" not in residual_filter:
            warnings.warn("No system component was removed as spectral pollution.")
""")],
      demo=TSC + '''
from datafold.dynfold.dmd import DMDStandard
X = tsc(40, 2, 4)
DMDStandard(residual_filter=dict(quantile=0.9)).fit(X)
'''),
 dict(id="P13-affine-attr", property="P13", needs="AffineKgMPC with a model that is not a differential system / rare branch",
      breaks="an attribute is read under a name that no class defines",
      edits=[("datafold/dynfold/dynsystem.py", "                if self.control_matrix_.shape[:2] != self.sys_matrix_.shape:\n", "                if self.control_matrix_.shape[:2] != self.system_matrix.shape:\n")],
      demo=NP + '''
from datafold.dynfold.dynsystem import LinearDynamicalSystem
s = LinearDynamicalSystem(sys_type="differential", sys_mode="matrix", is_controlled=True, is_control_affine=True)
s.setup_matrix_system(np.eye(2), control_matrix=np.ones((2, 2, 1)))
'''),
]
