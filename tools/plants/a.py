TSC = '''
import numpy as np, pandas as pd
from datafold import *
def tsc(n=20, ids=2, f=2):
    t = np.arange(n) * 0.1
    return TSCDataFrame.from_frame_list([pd.DataFrame(np.column_stack([np.sin(t * (k + 1) + i) + 2 for k in range(f)]), index=t, columns=[f"x{k}" for k in range(f)]) for i in range(ids)])
'''
bugs = [
 dict(id="P01-streaming-residual", property="P01", needs="partial_fit of StreamingDMD: the snapshot rows passed to _gram_schmidt are orthogonalised in place",
      breaks="the residual is no longer computed on a copy; the shift matrices / the caller's observable vectors passed to the update are overwritten, so the caller's data changes",
      edits=[("datafold/dynfold/dmd.py", "        em = xm.copy()\n        ep = xp.copy()\n", "        em = np.asarray(xm)\n        ep = np.asarray(xp)\n"),
             ("datafold/dynfold/dmd.py", """        (
            Xm,
            Xp,
        ) = X.tsc.shift_matrices(snapshot_orientation="row")

        norm_m = np.linalg.norm(Xm, axis=1)""", """        if X.n_timeseries == 1:
            # no boundaries between time series, no need to allocate new memory
            Xm, Xp = X.to_numpy()[:-1, :], X.to_numpy()[1:, :]
        else:
            Xm, Xp = X.tsc.shift_matrices(snapshot_orientation="row")

        norm_m = np.linalg.norm(Xm, axis=1)""")],
      demo=TSC + '''
from datafold.dynfold.dmd import StreamingDMD
X = tsc(12, 1, 2)
m = StreamingDMD().partial_fit(X.copy())
Y = tsc(12, 1, 2)
old = Y.to_numpy().copy()
m.partial_fit(Y)
assert np.array_equal(old, Y.to_numpy()), "caller data changed"
'''),
 dict(id="P01-mpc-sysmatrix", property="P01", needs="horizon >= 2 and a later use of the EDMD model that was handed to LinearKMPC",
      breaks="LinearKMPC multiplies the power of the system matrix in place into the matrix of the user's EDMD model",
      edits=[("datafold/appfold/mpc.py", "        A_last = A.copy()\n", "        A_last = A\n")],
      demo=TSC + '''
from datafold.appfold.mpc import LinearKMPC
from datafold.dynfold.dmd import DMDControl
import numpy as np
X = tsc(20, 1, 2)
U = pd.DataFrame(np.cos(np.arange(19) * .3)[:, None], index=X.time_values()[:-1], columns=["u"])
U = TSCDataFrame.from_single_timeseries(U)
e = EDMD([("id", TSCIdentity())], dmd_model=DMDControl(), include_id_state=False).fit(X, U=U)
A = e.dmd_model.sys_matrix_.copy()
LinearKMPC(edmd=e, horizon=3, state_bounds=np.array([[-9, 9], [-9, 9]]), input_bounds=np.array([[-1, 1]]), qois=["x0", "x1"], cost_running=1.0, cost_terminal=1.0, cost_input=1.0)
assert np.array_equal(A, e.dmd_model.sys_matrix_), "model of the user changed"
'''),
 dict(id="P02-rbf-samples", property="P02", needs="center_type='random' with more samples requested than in the data, then get_params/clone or a refit with more data",
      breaks="TSCRadialBasis.fit overwrites its constructor option n_samples",
      edits=[("datafold/dynfold/transform.py", """            rng = np.random.default_rng(1)  # TODO: possibly make a parameter
            idx_samples = rng.choice(
                range(X.shape[0]), size=self.n_samples, replace=False
            )""", """            rng = np.random.default_rng(1)  # TODO: possibly make a parameter
            n_unique = np.unique(self._X_to_numpy(X), axis=0).shape[0]
            setattr(self, "n_samples", min(self.n_samples, n_unique))
            idx_samples = rng.choice(
                range(X.shape[0]), size=self.n_samples, replace=False
            )""")],
      demo=TSC + '''
from datafold.pcfold import GaussianKernel
X = np.repeat(np.arange(6.).reshape(3, 2), 4, axis=0)
r = TSCRadialBasis(GaussianKernel(1.0), center_type="random", n_samples=7)
r.fit(X)
assert r.get_params()["n_samples"] == 7
'''),
 dict(id="P03-rbf-inverse-cache", property="P03", needs="two inverse_transform calls with different numbers of rows or a later transform",
      breaks="a query normalizes the fitted spectral components in place: eigenvectors of the fitted model change with each call",
      edits=[("datafold/dynfold/outofsample.py", """        kernel_matrix_ = self._dmap_kernel(self.X_fit_, X)
        return np.squeeze(kernel_matrix_ @ self._aux)

    @warn_known_bug""", """        kernel_matrix_ = self._dmap_kernel(self.X_fit_, X)
        if X.shape[0] > self.X_fit_.shape[0]:
            # more queries than training points: project on the normalized targets
            aux, scale = self._aux, np.max(np.abs(self._aux), axis=0)
            aux /= scale
            return np.squeeze((kernel_matrix_ @ aux) * scale)
        return np.squeeze(kernel_matrix_ @ self._aux)

    @warn_known_bug""")],
      demo=TSC + '''
from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator as G
from datafold.pcfold import GaussianKernel
X = np.random.default_rng(0).normal(size=(15, 2)); y = 10 * X.sum(axis=1)
g = G(GaussianKernel(1.0), n_eigenpairs=8).fit(X, y)
a = g.predict(X)
g.predict(np.vstack([X, X]))
assert np.allclose(a, g.predict(X)), "query changed the model"
'''),
 dict(id="P04-rbf-stale-inverse", property="P04", needs="fit, inverse_transform, fit on other data, inverse_transform",
      breaks="the lazily computed inverse coefficients survive a refit",
      edits=[("datafold/dynfold/transform.py", "        self.inv_coeff_matrix_ = None  # computed in inverse_transform\n", "        # inv_coeff_matrix_ is computed in inverse_transform\n"),
             ("datafold/dynfold/transform.py", "        if self.inv_coeff_matrix_ is None:\n", "        if getattr(self, \"inv_coeff_matrix_\", None) is None:\n")],
      demo=TSC + '''
from datafold.pcfold import GaussianKernel
X = tsc(6, 1, 2); Y = tsc(6, 1, 2) * 3 + 1
r = TSCRadialBasis(GaussianKernel(1.0)).fit(X)
r.inverse_transform(r.transform(X))
r.fit(Y)
a = r.inverse_transform(r.transform(Y))
f = TSCRadialBasis(GaussianKernel(1.0)).fit(Y)
b = f.inverse_transform(f.transform(Y))
assert np.allclose(a.to_numpy(), b.to_numpy())
'''),
 dict(id="P05-errstate", property="P05", needs="a kernel normalization with zeros in the user's process that relies on numpy warnings/errors afterwards",
      breaks="np.seterr changes the error state of the whole process instead of a local np.errstate",
      edits=[("datafold/pcfold/estimators.py", "    est_cutoff = np.max(k_smallest_values)\n", "    np.seterr(invalid=\"ignore\")  # duplicates in the data\n    est_cutoff = np.max(k_smallest_values)\n")],
      demo='''
import numpy as np
from datafold.pcfold.estimators import estimate_cutoff
from datafold.pcfold import PCManifold
np.seterr(all="raise")
before = np.geterr()
estimate_cutoff(PCManifold(np.random.default_rng(1).normal(size=(50, 2))))
assert np.geterr() == before
'''),
 dict(id="P06-rbf-centers", property="P06", needs="center_type='random', compare two fits",
      breaks="the sub-sampled centers differ between runs",
      edits=[("datafold/dynfold/transform.py", "            rng = np.random.default_rng(1)  # TODO: possibly make a parameter\n            idx_samples", "            rng = np.random.default_rng([X.shape[0], id(X) % 2**31])\n            idx_samples")],
      demo='''
import numpy as np
from datafold import *
from datafold.pcfold import GaussianKernel
X = np.random.default_rng(0).normal(size=(60, 2))
keep = [X.copy() for _ in range(6)]
c = [TSCRadialBasis(GaussianKernel(1.0), center_type="random", n_samples=20).fit(x).centers_ for x in keep]
assert all(np.array_equal(c[0], k) for k in c)
'''),
]
