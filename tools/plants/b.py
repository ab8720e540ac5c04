exec(open("/verif/tools/plants/a.py").read().split("bugs = [")[0])
bugs = [
 dict(id="P01-sparse-distance", property="P01", needs="evaluating a kernel on a sparse distance matrix (cut-off) that the caller uses again",
      breaks="the kernel values are written into the caller's sparse distance matrix",
      edits=[("datafold/pcfold/kernels.py", "        distance_matrix = distance_matrix.copy()\n        expr_dict[\"D\"]", "        distance_matrix = distance_matrix.asfptype()\n        expr_dict[\"D\"]")],
      demo='''
import numpy as np
from datafold.pcfold import GaussianKernel
from datafold.pcfold.distance import compute_distance_matrix
X = np.random.default_rng(0).normal(size=(15, 2))
D = compute_distance_matrix(X, metric="sqeuclidean", cut_off=1.0)
d = D.copy()
GaussianKernel(epsilon=0.3).evaluate(D)
assert np.array_equal(D.toarray(), d.toarray()), "distance matrix of the caller changed"
'''),
 dict(id="P01-mpc-sysmatrix", property="P01", needs="horizon >= 2 and a later use of the EDMD model that was handed to KMPC",
      breaks="KMPC multiplies the power of the system matrix in place into the matrix of the user's EDMD model",
      edits=[("datafold/appfold/mpc.py", "        A_last = A.copy()\n", "        A_last = A\n")],
      demo='''
import sys, types
sys.modules.setdefault("qpsolvers", types.SimpleNamespace(available_solvers=["quadprog"], solve_qp=None, __spec__=None))
''' + TSC + '''
from datafold.appfold.mpc import KMPC
from datafold.dynfold.dmd import DMDControl
X = tsc(20, 1, 2)
U = pd.DataFrame(np.cos(np.arange(19) * .3)[:, None], index=X.time_values()[:-1], columns=["u"])
U = TSCDataFrame.from_single_timeseries(U)
e = EDMD([("id", TSCIdentity())], dmd_model=DMDControl(), include_id_state=False).fit(X, U=U)
A = e.dmd_model.sys_matrix_.copy()
KMPC(edmd=e, horizon=3, state_bounds=np.array([[-9, 9], [-9, 9]]), input_bounds=np.array([[-1, 1]]), qois=["x0", "x1"])
assert np.array_equal(A, e.dmd_model.sys_matrix_), "model of the user changed"
'''),
]
