prop("P01", "Caller-owned data and options are never modified",
     "No public operation changes the arrays, frames, indexes, dictionaries or other objects that the caller passes in, nor anything sharing memory with them. "
     "Query methods of the data structures likewise leave the object they are called on unchanged, apart from the operations documented as relabelling it in place.",
     ["inputs", "configurations"],
     "every public class method and function, every argument, every option combination and every type of container (array, frame, time series collection, sparse matrix)",
     "a test observes a few containers and option combinations; whether a write reaches the caller depends on view/copy behaviour along each branch",
     ["datafold/pcfold/timeseries/collection.py", "datafold/pcfold/timeseries/accessor.py", "datafold/pcfold/kernels.py",
      "datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/dynfold/transform.py", "datafold/appfold/edmd.py"],
     [("defensive copies before in-place numerics", "datafold/pcfold/kernels.py"),
      ("validation that builds new index objects", "datafold/pcfold/timeseries/collection.py"),
      ("same-indices constructors", "datafold/utils/general.py")],
     observe=["argument objects after any public call"],
     technique=A + "flow-sensitive may-alias/effect analysis with a view-vs-copy library model; any write effect reaching a caller-owned location is reported",
     note="sound for the modelled library operations over all branches; library behaviour is modelled in sa/lib.py, user supplied callables are assumed pure")
prop("P02", "Constructor options are kept exactly as given and never overwritten",
     "Every option passed to the constructor of an estimator, kernel or model is stored unchanged under its own name, so get_params, set_params and clone reproduce the object. "
     "No later operation (fitting, transforming, predicting, scoring, evaluating a kernel, configuring coordinates) rebinds, deletes or modifies it in place; derived values live in other attributes.",
     ["configurations", "histories"],
     "every class with the scikit-learn parameter protocol, every constructor option, every public method and every option/data combination",
     "tests clone a few default-configured objects; the effect of an operation on an option depends on the branch taken for the option values and data types",
     ["datafold/dynfold/dmd.py", "datafold/dynfold/dmap.py", "datafold/dynfold/transform.py", "datafold/dynfold/jsf.py",
      "datafold/dynfold/outofsample.py", "datafold/pcfold/kernels.py", "datafold/appfold/edmd.py", "datafold/appfold/mpc.py"],
     [("constructors store, fit derives", "datafold/dynfold/dmd.py"), ("kernel options", "datafold/pcfold/kernels.py"),
      ("deepcopy of user kernels", "datafold/dynfold/dmap.py")],
     observe=["get_params() before and after any public call"],
     technique=A + "abstract location of every option tracked through the constructor; effect analysis of all other public methods on the option attributes",
     note="all branches of all public methods; value-preserving conversions to builtin numbers are recognised; one documented conversion (distance dictionaries of kernels)")
prop("P03", "Applying a fitted object leaves it unchanged",
     "Transforming, inverse transforming, predicting, reconstructing, scoring, simulating a system or evaluating a kernel at query points does not change the state of the object it is called on: no attribute is rebound or deleted and nothing reachable from an attribute is modified in place. "
     "The only permitted effect is filling a missing cache with a value computed from the fitted state alone.",
     ["histories", "inputs"],
     "every public method that neither fits nor configures, every receiver class, every option and input type, any number and order of calls",
     "a test calls a method once and compares the returned value; a hidden effect shows only in a later call on other data",
     ["datafold/dynfold/dmd.py", "datafold/dynfold/dynsystem.py", "datafold/dynfold/dmap.py", "datafold/dynfold/transform.py",
      "datafold/dynfold/outofsample.py", "datafold/dynfold/jsf.py", "datafold/appfold/edmd.py", "datafold/pcfold/kernels.py"],
     [("kernel attributes set only in the pairwise evaluation", "datafold/pcfold/kernels.py"),
      ("linear system evolution", "datafold/dynfold/dynsystem.py"), ("lazy inverse maps", "datafold/dynfold/dmap.py")],
     state=[("fitted attributes", "everything a later call reads", "attributes with trailing underscore")],
     observe=["attributes of the object before and after the call"],
     technique=A + "flow-sensitive may-alias/effect analysis of all query methods with the receiver as protected location; guarded write-once caches recognised",
     note="sound for the modelled library operations; user supplied kernels/callables are assumed not to modify the model")
prop("P04", "Fitting again forgets the previous fit",
     "Calling fit on an object that was fitted or used before gives the same model as calling fit on a fresh clone with the same data. "
     "No attribute left by an earlier fit or query is read by fit before it is newly set, and when fit returns no fitted attribute or lazily filled cache still holds a value of the earlier data.",
     ["histories", "inputs"],
     "every estimator with fit, every earlier sequence of fits and queries, every pair of data sets (array or time series, different sizes and features) and every option combination",
     "tests fit an object once; a stale attribute shows only for particular pairs of data types or options in consecutive fits",
     ["datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/dynfold/dmap.py", "datafold/dynfold/transform.py",
      "datafold/dynfold/outofsample.py", "datafold/dynfold/jsf.py", "datafold/appfold/edmd.py"],
     [("feature attributes reset at fit", "datafold/dynfold/base.py"), ("linear system setup", "datafold/dynfold/dynsystem.py"),
      ("caches of inverse maps", "datafold/dynfold/dmap.py")],
     state=[("fitted attributes", "results of fit", "attributes set by fit"), ("caches", "attributes filled by queries", "dmap.py, outofsample.py")],
     observe=["attributes after the second fit"],
     technique=A + "liveness (upward-exposed reads) of fitted attributes at fit entry and must-define analysis of fitted attributes and caches at fit exit",
     note="all branches of all fit methods with path conditions; sub-estimators supplied by the user are assumed to refit correctly")
prop("P05", "Objects share no hidden state through globals, classes or defaults",
     "Importing the package and calling any function or method changes nothing outside the objects involved: no module variable, class attribute, default-argument object or registry is modified, and process-wide settings (numpy error state and generators, warnings filters, pandas, matplotlib and scikit-learn options) stay as they were. "
     "Two objects therefore never influence each other unless one was given to the other.",
     ["histories", "schedules", "configurations"],
     "every function and method, also private ones and import-time code, every interleaving of uses of several objects",
     "tests use one object at a time in a fresh process; interference needs a second object or an unrelated later computation",
     ["datafold/pcfold/distance.py", "datafold/pcfold/kernels.py", "datafold/pcfold/timeseries/collection.py",
      "datafold/pcfold/timeseries/accessor.py", "datafold/dynfold/base.py", "datafold/dynfold/dictlearning.py", "datafold/appfold/edmd.py"],
     [("class level constants", "datafold/pcfold/timeseries/collection.py"), ("backend registries", "datafold/pcfold/distance.py")],
     observe=["module, class and default-argument objects; process-wide settings"],
     technique=A + "effect analysis of every function; write effects whose location is rooted in a module, class or default argument, calls of process-wide setters and returned mutable defaults are reported",
     note="all functions of the package analysed individually; library setters are listed in a table")
prop("P06", "Results are reproducible",
     "The same operations on the same data and options give the same result in every run: every random generator and randomised or iterative solver is seeded by a constant or by the user's seed option, and every seed option reaches a generator. "
     "No result depends on the clock, on draws from process-wide generators, on object identities or on the iteration order of sets.",
     ["inputs", "histories"],
     "every function and method, every option combination, every process and every number of earlier calls",
     "a test compares within tolerance in one process and one order of calls; an unseeded path is usually close to the expected value",
     ["datafold/pcfold/eigsolver.py", "datafold/pcfold/estimators.py", "datafold/dynfold/dmd.py", "datafold/dynfold/jsf.py",
      "datafold/dynfold/transform.py", "datafold/dynfold/outofsample.py", "datafold/dynfold/dictlearning.py", "datafold/pcfold/pointcloud.py"],
     [("fixed start vectors and seeds", "datafold/pcfold/eigsolver.py"), ("random_state options", "datafold/dynfold/dictlearning.py")],
     observe=["repeated calls in two processes"],
     technique=A + "taint analysis of clock, hash, set-order and generator values and of the seed arguments of all randomised library calls",
     note="tables list the randomised library routines; floating-point nondeterminism of BLAS is out of scope")
prop("P07", "A model that is not fitted refuses to answer",
     "Every query of an estimator (transform, inverse transform, predict, reconstruct, score, gradients, spectral quantities) that needs the fitted model raises a not-fitted error when no fit has run, before it reads fitted state or returns a result. "
     "The refusal can work: the attributes it tests for are set by fit and not already by the constructor, so a fitted model is never refused.",
     ["histories", "inputs", "configurations"],
     "every estimator with fit or partial_fit, every public query, every path through it and every option combination",
     "tests call a query on an unfitted object for few classes and with default options; a path that skips the check returns plausible values or fails with an unrelated error",
     ["datafold/dynfold/base.py", "datafold/dynfold/transform.py", "datafold/dynfold/dmap.py", "datafold/dynfold/outofsample.py",
      "datafold/dynfold/jsf.py", "datafold/dynfold/dmd.py", "datafold/dynfold/dynsystem.py", "datafold/appfold/edmd.py"],
     [("check_is_fitted in queries", "datafold/dynfold/transform.py"), ("is_linear_system_setup", "datafold/dynfold/dynsystem.py")],
     state=[("fitted attributes", "set by fit, not by the constructor", "attributes assigned in fit/partial_fit")],
     observe=["outcome of a query on an object on which only the constructor has run"],
     technique=A + "typestate/must-pass-through analysis: each query is interpreted on an object in constructor state, a refusal must lie on every path before fitted state is read or the exit is reached",
     note="names of classes and queries are found from the source; name-only queries (get_feature_names_out) are excluded; refusals of components of the model count")
prop("P08", "A fitted object is complete",
     "Fitting, updating and set-up operations return the very object they were called on, and after fitting with any combination of options every query finds each fitted attribute it reads: whatever an attribute that some configurations store, it is stored by every configuration under which a query can reach its use. "
     "Transforming, inverse transforming, predicting, reconstructing and scoring therefore never end in an attribute error or a not-fitted refusal on a fitted model.",
     ["configurations", "histories"],
     "every class with fit or partial_fit, all combinations of its branching options and optional fit arguments (pairwise for large option sets), every query, all paths",
     "tests fit a few configurations and call the common queries; a missing attribute appears only for one combination of an option in fit and a branch in a query",
     ["datafold/dynfold/dmd.py", "datafold/dynfold/dynsystem.py", "datafold/dynfold/transform.py", "datafold/dynfold/dmap.py",
      "datafold/dynfold/outofsample.py", "datafold/dynfold/jsf.py", "datafold/appfold/edmd.py", "datafold/appfold/mpc.py"],
     [("fit stores what queries read", "datafold/appfold/edmd.py"), ("set-up of linear systems", "datafold/dynfold/dynsystem.py"),
      ("feature attributes set during fit", "datafold/dynfold/base.py")],
     state=[("fitted attributes", "everything a query reads", "attributes with trailing underscore and private attributes set by fit")],
     observe=["return value of fit", "result of the first query after fit"],
     technique=A + "typestate of fitted attributes per option valuation: must-set facts at the exits of fit carried into every query; value identity of the returned object",
     note="options of other objects (dictionary steps, kernels) are arbitrary; above 24 combinations all pairs of option values are analysed; attributes of scikit-learn base classes are out of scope")
prop("P09", "Invalid data are refused",
     "Fitting, transforming and predicting refuse data with missing or infinite values, in every supported container (array, frame, time series collection). "
     "Transform, inverse transform and predict refuse data whose number of features differs from the fit, and frames and collections with other feature names.",
     ["inputs", "configurations"],
     "every estimator, every container type of the data argument, every option combination and every path through the method",
     "tests pass NaN or wrong features to a few classes; a branch for one container type or option that skips the test computes on the bad data silently",
     ["datafold/dynfold/base.py", "datafold/dynfold/transform.py", "datafold/dynfold/dmap.py", "datafold/dynfold/outofsample.py",
      "datafold/dynfold/jsf.py", "datafold/dynfold/dmd.py", "datafold/appfold/edmd.py", "datafold/dynfold/feature_selection.py"],
     [("_validate_datafold_data", "datafold/dynfold/base.py"), ("_validate_feature_input", "datafold/dynfold/base.py"),
      ("check_tsc", "datafold/pcfold/timeseries/accessor.py")],
     observe=["outcome of fit/transform/predict on data with NaN or wrong features"],
     technique=A + "must-facts left by guards (branches that always raise) and validation routines on the data argument, per container type, joined over all paths",
     note="what is tested is decided by provenance labels of the guard (finiteness, columns, shape); the comparison itself is not evaluated; data handed whole to a component count as tested there")
prop("P10", "Time series and control requirements are enforced",
     "Operations that need a constant sampling interval, identical time values, a minimum number of time steps or the sampling interval of the fit refuse time series collections that violate this, and operations on time series refuse containers without time values. "
     "Control input and requested time values that do not match the initial conditions are refused, as are a missing control input of a controlled model and control input for a model without control.",
     ["inputs", "configurations"],
     "every dynamical model and every time-series transformer, every operation, every path and option combination",
     "tests violate a few requirements on single models; a dropped requirement shows only for irregular collections on the affected path and then gives plausible numbers",
     ["datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/dynfold/transform.py", "datafold/dynfold/dynsystem.py",
      "datafold/appfold/edmd.py", "datafold/pcfold/timeseries/accessor.py", "datafold/pcfold/timeseries/collection.py"],
     [("check_tsc options per operation", "datafold/dynfold/dmd.py"), ("InitialCondition.validate", "datafold/pcfold/timeseries/collection.py"),
      ("control input validation", "datafold/dynfold/base.py")],
     observe=["outcome of fit/predict/transform on irregular collections and mismatching control input"],
     technique=A + "must-facts left by guards on properties of the time series, control input and time values against a reviewed table of requirements; refusal of container types and of missing/surplus control input by unreachability of every normal exit",
     note="requirement table in sa/rules/p10.py; predicates of the collection are trusted by name; loops over the series of a collection run at least once")
prop("P11", "Invalid option and argument values are refused",
     "Options and arguments outside their documented domain (unknown choices, negative or zero sizes, tolerances and bandwidths, fractions outside [0, 1], wrong types) are refused with an error when the object is constructed, fitted or used, whatever the other options and the data are. "
     "They are never silently ignored or replaced by a default, and every documented choice and value is accepted.",
     ["configurations", "inputs"],
     "every option and argument with a documented domain of every estimator, kernel, distance algorithm, metric, splitter and data structure method, combined with every value of the other options",
     "tests pass one bad value to some options with default settings of the others; a check that is skipped for another option value or container computes with the bad value",
     ["datafold/dynfold/base.py", "datafold/dynfold/transform.py", "datafold/dynfold/dmap.py", "datafold/dynfold/dmd.py",
      "datafold/dynfold/outofsample.py", "datafold/dynfold/jsf.py", "datafold/dynfold/feature_selection.py",
      "datafold/pcfold/kernels.py", "datafold/pcfold/distance.py", "datafold/pcfold/timeseries/metric.py", "datafold/appfold/mpc.py"],
     [("_validate_parameter(s) methods", "datafold/dynfold/transform.py"), ("check_scalar calls", "datafold/dynfold/dmd.py"),
      ("constructor checks", "datafold/pcfold/kernels.py")],
     observe=["outcome of constructor/fit/call for the value"],
     technique=A + "conditional constant propagation: the operation is interpreted with the bad value bound and everything else unknown; no normal exit may be reachable (and one must be for the good values)",
     note="the table of domains in sa/rules/p11.py is written from the documentation; values are representatives of each class of bad values")
prop("P12", "Detected errors reach the caller",
     "When the library detects an error (it raises, asserts or calls a checking routine) the caller receives an exception. "
     "No error object is built without being raised, no verdict of a checking routine is dropped, and no exception handler continues with a result after catching an error raised on purpose, apart from the documented fallbacks.",
     ["inputs", "fault_sequences"],
     "every function of the package, every raise statement, assertion and exception handler, every call chain between them",
     "tests provoke few error paths and mostly check that some exception appears; a swallowed error turns into a plausible result on inputs no test uses",
     ["datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/pcfold/timeseries/collection.py",
      "datafold/pcfold/timeseries/accessor.py", "datafold/pcfold/kernels.py", "datafold/appfold/edmd.py", "datafold/utils/general.py"],
     [("try/except blocks", "datafold/appfold/edmd.py"), ("raise sites", "datafold/dynfold/base.py")],
     observe=["exception seen by the caller"],
     technique="custom lint over the syntax trees plus a call-graph based exception-flow (effect) analysis: for each handler with a normally continuing path, the set of explicit errors raised below its try block must be empty or a reviewed fallback",
     note="method calls are resolved by name (over-approximation); errors raised by third-party code inside try blocks are only covered by the reviewed list of handlers")
prop("P13", "No operation stops at something that does not exist",
     "No public operation fails with a programming error of the library itself: every name it reads is bound on every path, every attribute of its object is defined in the class family, every member of an imported module exists in the installed version, and every internal call fits the signature of its target and the number of returned values. "
     "Every public operation can return normally.",
     ["inputs", "configurations"],
     "every function and method of the package (also private ones), every path through it, every class it can be called on",
     "Python binds names at run time, so such a failure stays invisible until the branch is executed; tests execute few option combinations and error branches",
     ["datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/dynfold/dictlearning.py", "datafold/dynfold/transform.py",
      "datafold/pcfold/kernels.py", "datafold/pcfold/timeseries/collection.py", "datafold/appfold/edmd.py", "datafold/appfold/mpc.py",
      "datafold/utils/general.py"],
     [("branches for rarely used options", "datafold/dynfold/dmd.py"), ("mixin methods calling subclass methods", "datafold/dynfold/base.py")],
     observe=["NameError, UnboundLocalError, AttributeError, TypeError of the library's own code"],
     technique="name resolution, path-sensitive definite-assignment dataflow, member resolution over class families and installed modules, call/signature compatibility over the resolved call graph, reachability of a normal exit by abstract interpretation",
     note="attributes of objects of unknown type are not resolved; arguments passed through * and ** are assumed to fit; for-loops are assumed to run at least once")
prop("P14", "Results keep the container and the row labels of the data",
     "Transforming and inverse transforming (also while fitting) gives an array for an array, a frame for a frame and a time series collection for a collection, whatever the options and the branch taken; predictions and reconstructions are time series collections. "
     "Frames built from arrays on the way get explicit row labels, so ids, time values and frame indices are never replaced by a default numbering.",
     ["inputs", "configurations"],
     "every transformer and model, its transform, inverse transform, predict and reconstruct operations, every container type and every option combination",
     "tests use one or two container types per model; a branch for an option or a container that returns the bare values is only seen when exactly this combination is run",
     ["datafold/dynfold/base.py", "datafold/dynfold/dmap.py", "datafold/dynfold/jsf.py", "datafold/dynfold/transform.py", "datafold/dynfold/dmd.py",
      "datafold/appfold/edmd.py", "datafold/utils/general.py"],
     [("conversion to the type of the input", "datafold/dynfold/base.py"), ("frames with the same indices", "datafold/utils/general.py")],
     observe=["type and index of results"],
     technique=A + "flow-sensitive container type inference per container type of the data; types of all returned values and row label arguments of constructed frames",
     note="definite mismatches only: a returned value whose type the inference does not know is counted as untyped and not reported")
prop("P15", "Options and arguments take effect",
     "Every constructor option influences the results of the operations it is documented for, under every combination of the other options. "
     "Every argument of a public method, constructor or function influences its result, the state it leaves or a refusal: none is silently dropped, in particular sample weights, selections of quantities, control input, time values and fit parameters.",
     ["configurations", "inputs"],
     "every estimator, kernel and model class, each option against each query, every option/fit-argument configuration and every argument of every public method and function",
     "a dropped option still gives a plausible result; tests compare results for few options in few configurations",
     ["datafold/dynfold/dmd.py", "datafold/dynfold/base.py", "datafold/dynfold/dmap.py", "datafold/dynfold/transform.py",
      "datafold/dynfold/outofsample.py", "datafold/dynfold/jsf.py", "datafold/appfold/edmd.py", "datafold/appfold/mpc.py",
      "datafold/pcfold/kernels.py", "datafold/pcfold/distance.py"],
     [("options read in fit and queries", "datafold/dynfold/dmd.py"), ("forwarding of arguments to base classes and helpers", "datafold/dynfold/base.py"),
      ("alternative branches of fit", "datafold/appfold/edmd.py")],
     state=[("fitted attributes", "carry the options from fit to the queries", "attributes set by fit")],
     observe=["results of two calls that differ in one option or argument only"],
     technique=A + "label (information-flow) analysis: data and control dependence including in-place writes, composed over constructor, fit and query per option valuation; a missing flow is reported",
     note="proves a missing influence, not the right one: an option that flows but with a wrong meaning is not detected; documented exemptions in tables of sa/rules/p15.py")
prop("P16", "Results do not expose the state of the model",
     "The arrays, frames and containers that an operation of an estimator, kernel, distance algorithm, controller or time series collection returns share no memory with the attributes of the object it was called on. "
     "Writing into a result never changes the options, fitted attributes or caches of the object, and a result never changes when the object is used again.",
     ["histories", "inputs"],
     "every public operation of every class, each array reachable from its result against everything reachable from the object at exit",
     "a shared array only shows when the caller writes into a result and uses the model again, a sequence no test runs",
     ["datafold/dynfold/dmap.py", "datafold/dynfold/jsf.py", "datafold/dynfold/dmd.py", "datafold/dynfold/outofsample.py",
      "datafold/dynfold/transform.py", "datafold/pcfold/kernels.py", "datafold/pcfold/distance.py", "datafold/appfold/edmd.py"],
     [("fit_transform returning the training embedding", "datafold/dynfold/dmap.py"), ("views and np.asarray on fitted arrays", "datafold/dynfold/jsf.py")],
     state=[("fitted attributes and caches", "arrays kept between calls", "attributes of the object")],
     observe=["fitted attributes and later results after writing into a returned array"],
     technique=A + "ownership/alias analysis with one abstract location per allocation and call chain: locations of the result and locations reachable from self at exit are disjoint",
     note="whether a library call returns a view or a copy comes from sa/lib.py; in-place operations of the collection accessor that return the collection itself by documentation are exempt")
prop("P17", "The library keeps to itself",
     "Importing and using the library has no effect outside the memory of the process unless it is the documented purpose of the operation or requested with a verbosity option. "
     "Nothing is printed, no file is read, written or deleted, no process, thread, window or network connection is opened, no environment variable is changed and the interpreter is never ended, for any data and options.",
     ["inputs", "configurations"],
     "every function reachable from a public operation and every statement executed on import, each call with an external effect",
     "tests do not look at the standard output or global settings, and the branches in question run for few options",
     ["datafold/pcfold/kernels.py", "datafold/pcfold/eigsolver.py", "datafold/appfold/edmd.py", "datafold/appfold/mpc.py", "datafold/dynfold/dmd.py",
      "datafold/dynfold/base.py", "datafold/pcfold/timeseries/collection.py", "datafold/utils/general.py"],
     [("verbose switches", "datafold/appfold/edmd.py"), ("debug output", "datafold/pcfold/kernels.py")],
     observe=["standard output, files, processes and environment after a call"],
     technique=A + "effect analysis: external effects of every reachable call site, allowed only under a verbose guard (control dependence), or in the reviewed table of documented effects",
     note="effects inside third-party libraries are not followed (joblib/sklearn parallel backends)")
prop("P18", "Changing options with set_params equals constructing anew",
     "An object whose options are changed with set_params behaves like a new object constructed with these options, from the next fit on (immediately for objects without fit). "
     "No operation relies on a value that only the constructor derived from the options.",
     ["histories", "configurations"],
     "every class with the scikit-learn parameter protocol, every attribute the constructor derives from options, every operation that may read it",
     "tests construct objects with the wanted options; grid searches and pipelines change options of existing objects, and a stale value still gives a plausible result",
     ["datafold/dynfold/dmd.py", "datafold/dynfold/dynsystem.py", "datafold/dynfold/dmap.py", "datafold/dynfold/transform.py", "datafold/dynfold/jsf.py",
      "datafold/pcfold/kernels.py", "datafold/appfold/edmd.py"],
     [("selection of the solver of a linear system", "datafold/dynfold/dynsystem.py"), ("derived options of kernels", "datafold/pcfold/kernels.py")],
     state=[("derived attributes", "computed from options in the constructor", "attributes of the object")],
     observe=["results after set_params and fit against a new object"],
     technique=A + "label flow through the constructor (data and control dependence) and read-before-rederive analysis of every operation",
     note="nested options of contained estimators are covered by the contained class; refusals of the constructor are not required to be repeated by fit")
NUM = "Decided by floating point values computed at run time in compiled libraries; no static argument over the source bounds them, and a run-time comparison would be another technique. "
prop("P19", "Spectral decompositions and regressions are accurate",
     "The eigenpairs, singular triples and least-squares solutions that kernels, diffusion maps, DMD variants and geometric harmonics return satisfy their defining equations up to the solver tolerance. "
     "Dense, sparse and symmetric solvers, batch and online fits agree on the same data.",
     ["inputs", "configurations"], "every data set, kernel, truncation and solver",
     "tests compare a few well conditioned examples with stored values",
     ["datafold/pcfold/eigsolver.py", "datafold/dynfold/dmd.py", "datafold/dynfold/dmap.py", "datafold/dynfold/outofsample.py"],
     [("choice of the eigensolver", "datafold/pcfold/eigsolver.py"), ("least squares of DMD", "datafold/dynfold/dmd.py")],
     na=NUM + "The structural parts (options reach the solver, start vectors, no stale state) are P06, P15 and P18.")
prop("P20", "Inverse transformations undo transformations",
     "For every transformer with an exact inverse, inverse_transform(transform(X)) returns X including labels; approximating inverses return X up to their documented accuracy. fit_transform equals fit followed by transform.",
     ["inputs", "configurations"], "every transformer, option combination, container and data set",
     "tests sample few data sets and options",
     ["datafold/dynfold/transform.py", "datafold/dynfold/dmap.py", "datafold/appfold/edmd.py"],
     [("pairs of transform and inverse_transform", "datafold/dynfold/transform.py")],
     na=NUM + "Container and labels of both directions are decided by P14, the dependence on the options by P15.")
prop("P21", "Kernel matrices are what their formulas say",
     "Kernels are symmetric and positive where documented, cut-offs and nearest neighbour restrictions remove exactly the documented entries, sparse and dense evaluation and all distance backends agree.",
     ["inputs", "configurations"], "every kernel, metric, backend, cut-off and point cloud",
     "tests compare few point clouds",
     ["datafold/pcfold/kernels.py", "datafold/pcfold/distance.py"],
     [("distance backends", "datafold/pcfold/distance.py"), ("kernel formulas", "datafold/pcfold/kernels.py")],
     na=NUM + "The formulas are the specification themselves, an independent statement of them could only be compared by text.")
prop("P22", "Predictions of linear systems form a semigroup",
     "Predicting to t1 and from there to t2 equals predicting to t1+t2, shifting all time values shifts the prediction, and spectral and matrix mode as well as continuous and discrete (flow) form agree.",
     ["inputs", "configurations"], "every fitted linear system, initial condition and set of time values",
     "tests check few systems and horizons",
     ["datafold/dynfold/dynsystem.py", "datafold/dynfold/dmd.py", "datafold/appfold/edmd.py"],
     [("evolution of linear systems", "datafold/dynfold/dynsystem.py")],
     na=NUM + "Matrix powers and exponentials of run-time matrices would have to be compared; labels and time indices are P14, time values as arguments P10 and P15.")
prop("P23", "Time series in a collection do not influence each other",
     "Operations on a collection act on each time series separately where documented (delays, finite differences, windows, interpolation), results do not depend on the order of the series, and the folds of time series cross validation are disjoint and complete.",
     ["inputs", "histories"], "every collection with any number, length and order of time series",
     "tests use few small collections",
     ["datafold/pcfold/timeseries/collection.py", "datafold/pcfold/timeseries/metric.py", "datafold/dynfold/transform.py"],
     [("delay embedding per series", "datafold/dynfold/transform.py"), ("splitters", "datafold/pcfold/timeseries/metric.py")],
     na="Needs reasoning over index arithmetic on run-time sized arrays (which rows of a concatenated block belong to which id); no available static domain represents per-row provenance, and approximations raise alarms on correct code.")
prop("P24", "Controllers return optimal and feasible inputs",
     "Model predictive and linear quadratic controllers return inputs inside the given bounds that minimise the stated cost for the lifted model.",
     ["inputs"], "every model, horizon, cost, bound and reference",
     "tests run few closed-loop examples with loose tolerances",
     ["datafold/appfold/mpc.py"],
     [("assembly of the quadratic programme", "datafold/appfold/mpc.py")],
     na=NUM + "Refusals of malformed bounds and references are P11, use of the options P15.")
prop("P25", "Iterations terminate and converge",
     "Interpolators, kernel bandwidth searches, online updates and simulations end after finitely many steps for all finite data and converge at the documented rate.",
     ["inputs", "schedules"], "every data set and tolerance",
     "a test cannot observe non-termination on other inputs",
     ["datafold/dynfold/outofsample.py", "datafold/pcfold/kernels.py", "datafold/dynfold/dmd.py", "datafold/utils/_systems.py"],
     [("Laplacian pyramid levels", "datafold/dynfold/outofsample.py")],
     na="The loops stop on floating point residuals of data dependent quantities; a ranking function does not exist without numerical assumptions. Domains of the parameters that guarantee it (for example mu > 1) are enforced and decided by P11.")
