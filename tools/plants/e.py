exec(open("/verif/tools/plants/a.py").read().split("bugs = [")[0])
NP = "import numpy as np, pandas as pd\nfrom datafold import *\n"
bugs = [
 dict(id="P08-streaming-none", property="P08", needs="StreamingDMD.partial_fit called for the first time with exactly two samples",
      breaks="the update returns None instead of the model if the first batch contains only the samples of the initial fit",
      edits=[("datafold/dynfold/dmd.py", """            if X.empty:
                return self
        else:
            self._validate_feature_names(X)""", """            if X.empty:
                # nothing left to update
                return None
        else:
            self._validate_feature_names(X)""")],
      demo=NP + '''
from datafold.dynfold.dmd import StreamingDMD
X = TSCDataFrame.from_array(np.random.default_rng(0).normal(size=(2, 2)), feature_names=["a", "b"])
m = StreamingDMD()
if m.partial_fit(X) is not m:
    raise SystemExit("partial_fit did not return the model")
'''),
 dict(id="P08-partial-inverse", property="P08", needs="EDMD.partial_fit with use_transform_inverse=True followed by predict",
      breaks="the update of an EDMD that maps back through the dictionary stores no marker for it, predictions fail with AttributeError",
      edits=[("datafold/appfold/edmd.py", """        else:
            # Indicator to use `ìnverse_transform` of dictionary and not linear map of
            # Koopman modes.
            self._inverse_map, self._koopman_modes = None, None

        return self

    def transform(""", """        elif not initial_fit:
            # Indicator to use `ìnverse_transform` of dictionary and not linear map of
            # Koopman modes.
            self._inverse_map, self._koopman_modes = None, None

        return self

    def transform(""")],
      demo=TSC + '''
from datafold.dynfold.dmd import OnlineDMD
X = tsc()
e = EDMD([("id", TSCIdentity())], dmd_model=OnlineDMD(), include_id_state=False, use_transform_inverse=True)
try:
    e.partial_fit(X.loc[[0]])
except NotImplementedError:
    e = EDMD([("id", TSCIdentity())], dmd_model=OnlineDMD(), include_id_state=True, use_transform_inverse=True)
    e.partial_fit(X.loc[[0]])
e.predict(X.loc[[0]].initial_states(), time_values=X.time_values())
'''),
]
