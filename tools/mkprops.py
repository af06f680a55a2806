"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
OK, UK, OK3, UK3 = "src/pykrige/ok.py", "src/pykrige/uk.py", "src/pykrige/ok3d.py", "src/pykrige/uk3d.py"
CORE, VM = "src/pykrige/core.py", "src/pykrige/variogram_models.py"
COK, CVM = "src/pykrige/lib/cok.pyx", "src/pykrige/lib/variogram_models.pyx"
KT, COMPAT, RK, CK = "src/pykrige/kriging_tools.py", "src/pykrige/compat.py", "src/pykrige/rk.py", "src/pykrige/ck.py"
GST = "src/pykrige/compat_gstools.py"

def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

EX = ["execute() return values"]
p("C01", "Ordinary kriging returns the solution of the ordinary kriging system",
  "For any measured data set, variogram model and parameters, and any evaluation point, the estimate and variance returned by 2D and 3D ordinary kriging equal, up to rounding, the solution of the ordinary kriging system (semivariogram matrix with zero diagonal, bordered by ones for unbiasedness) set up with distances in the anisotropy-adjusted coordinates. This holds for every style, backend, input container and numeric type, data size, and coordinate scale or offset.",
  ["inputs", "configurations"], "all data sets, variograms, anisotropies, request styles and backends whose system is not numerically singular",
  "The tests compare a handful of fixed data sets with stored answers; nothing covers arbitrary sizes, scales, models, 3D anisotropy or unusual input containers.",
  [OK, OK3, CORE, COK, VM, CVM], [("kriging matrix", "OrdinaryKriging._get_kriging_matrix"), ("solvers", "_exec_vector/_exec_loop/_c_exec_loop"), ("coordinate adjustment", "core._adjust_for_anisotropy")], EX)
p("C02", "Universal kriging returns the solution of the system with all drift terms",
  "The estimate and variance of 2D and 3D universal kriging equal, up to rounding, the solution of the kriging system extended with one unbiasedness condition per active drift term: regional linear, external grid (bilinear value at the original coordinates), point logarithm (minus strength times log distance in adjusted coordinates), user-specified arrays, and user functions of the adjusted coordinates. Any combination and number of drift terms, any style and any backend gives that solution, each evaluation point using its own drift values. With the class attribute UNBIAS switched off, the system has no row for the constant.",
  ["inputs", "configurations"], "all data sets and all combinations of drift terms, styles, grid shapes, masks, backends and anisotropies",
  "Tests exercise single drift kinds on one data set; combinations, anisotropy with drifts, masked and transposed arrays are not enumerated.",
  [UK, UK3], [("extended matrix", "UniversalKriging._get_kriging_matrix"), ("right hand side", "_exec_vector/_exec_loop"), ("external drift", "_calculate_data_point_zscalars")], EX)
p("C03", "Kriging honours the data: exact values, or nugget smoothing when asked",
  "With exact values requested (the default), evaluating at a measurement location (including duplicates of it in one request, on grids, behind masks, in moving windows and with any nugget) returns the measured value with zero variance. With exact values switched off the same point is treated like any other point, i.e. its semivariance to the coincident measurement is the nugget; without a nugget both settings give the same results everywhere.",
  ["inputs", "configurations"], "all classes, backends, nuggets, styles, window sizes and sets of coincident points",
  "Tests check exactness for a single layout and backend; the coincidence bookkeeping differs per backend and per number of coincidences in a request.",
  [OK, UK, OK3, UK3, COK], [("zero-distance handling", "zero_index / check_b_vect"), ("exact_values flag", "__init__")], EX)
p("C04", "All backends return the same estimates and variances",
  "For the same object and the same request, the vectorized, loop and compiled backends return the same estimates and variances up to rounding, with the same shape and the same mask, globally and with a moving window. This includes pseudo-inverse solving, geographic coordinates, exact and non-exact values, masked cells that could not be evaluated, and any drift terms the class supports.",
  ["inputs", "configurations"], "every supported pair of backends over all objects and requests",
  "Tests compare backends on one data set per class with default settings.",
  [OK, UK, OK3, UK3, COK, CVM], [("three separate implementations", "_exec_vector, _exec_loop, _c_exec_loop"), ("C variograms", "lib/variogram_models.pyx")], EX)
p("C05", "A point's result does not depend on how the request is phrased",
  "The result at a point is the same whether it is requested through a grid, a list of points or a masked grid, alone or in a batch, in any order, repeated, as integers, lists or column arrays, and whatever the other points are. Grid results have one row per y (and z) and one column per x coordinate, also for axes with a single value or in descending order; masks given in either orientation exclude exactly the flagged cells and change nothing elsewhere.",
  ["inputs", "configurations"], "all partitions, orders and encodings of a set of evaluation points",
  "Tests use a few fixed requests; the equivalence quantifies over all encodings of the same request, including degenerate axes.",
  [OK, UK, OK3, UK3], [("request normalisation", "execute: squeeze/meshgrid/flatten/mask transpose"), ("reshape of results", "execute tail")], EX)
p("C06", "The moving window uses exactly the nearest data points",
  "With n_closest_points=k each estimate and variance equals ordinary kriging using only the k data points nearest to that evaluation point (in adjusted coordinates, or by great-circle distance), for every backend, style and dimension. With k at least the number of data points the result equals the one without a window.",
  ["inputs", "configurations"], "all data sets, k from 2 to beyond the data size, backends loop and C, 2D, 3D and geographic",
  "Tests use one k on one data set and mostly compare backends with each other.",
  [OK, OK3, COK], [("neighbour search", "cKDTree query in execute"), ("window systems", "_exec_loop_moving_window, _c_exec_loop_moving_window")], EX)
p("C07", "Estimates are linear and unbiased in the values and reproduce the drift",
  "With a fixed variogram, replacing the values v by a*v+b replaces every estimate e by a*e+b, estimates for a sum of value sets are the sum of the estimates, and variances do not change at all. Values that are exactly a constant (ordinary) or any combination of the drift terms and a constant (universal) are reproduced at every evaluation point.",
  ["inputs", "configurations"], "all data sets, coefficients, drift combinations, classes and backends",
  "Metamorphic relations over all inputs; no test states them.",
  [OK, UK, OK3, UK3], [("unbiasedness rows", "_get_kriging_matrix"), ("weights applied to values", "_exec_*")], EX)
p("C08", "Results respect coordinate symmetries and the definition of anisotropy",
  "Reordering the data, translating, reflecting or rotating data and evaluation points together (isotropic case), or rescaling all coordinates along with the range of the variogram leaves estimates and variances unchanged. Anisotropic kriging equals isotropic kriging of coordinates rotated clockwise by the angle about the centre of the data range and stretched by the scaling along the rotated second (and third) axis, in 3D with the angles applied about x, then y, then z; turning the data and the angle together changes nothing.",
  ["inputs", "configurations"], "all data sets, rigid motions, scalings and angles, 2D and 3D, ordinary and universal",
  "Tests check the adjustment function for a couple of hand-picked angles.",
  [CORE, OK, UK, OK3, UK3], [("rotation and stretch", "core._adjust_for_anisotropy"), ("centre", "XCENTER/YCENTER/ZCENTER")], EX)
p("C09", "Geographic kriging uses great-circle distances on a periodic sphere",
  "With geographic coordinates the results equal ordinary kriging with great-circle distances in degrees, do not change when 360 degrees are added to any longitude, when everything is shifted in longitude, or when data sit on the date line or at a pole. The great-circle distance is symmetric, between 0 and 180, accurate for tiny and antipodal separations, and the conversion from chord length agrees with it.",
  ["inputs", "configurations"], "all points on the sphere, all longitudes conventions, moving windows included",
  "Tests cover a few pairs and one data set.",
  [CORE, OK], [("distance", "core.great_circle_distance"), ("chord conversion", "core.euclid3_to_great_circle"), ("sphere embedding for windows", "ok.execute")], EX + ["great_circle_distance()"])
p("C10", "The experimental semivariogram bins every data pair exactly once",
  "The lags and semivariances an object exposes are, for each of nlags equal-width distance classes between the smallest and largest pair distance, the mean distance and mean half squared difference of exactly the pairs in that class, empty classes being left out. Every pair counts in exactly one class (the largest distance included), in adjusted or great-circle distance, and the variogram points returned are the fitted model at those lags.",
  ["inputs", "configurations"], "all data sets, numbers of lags, anisotropies and coordinate types, on construction and on update",
  "Tests check two small data sets with the default number of lags.",
  [CORE, OK, UK, OK3, UK3], [("binning", "core._initialize_variogram_model")], ["lags, semivariance attributes", "get_variogram_points()"])
p("C11", "Automatic variogram estimation is feasible and cannot be locally improved",
  "When no parameters are given, the parameters used are within the documented bounds (non-negative sill or slope, range no longer than the largest lag, nugget no larger than the largest semivariance, exponent strictly between 0 and 2) and the robust (soft L1) misfit to the experimental semivariogram, weighted toward small lags if requested, is no worse than at the starting guess and cannot be reduced noticeably by small feasible changes. The parameters reported are the ones used for kriging and statistics.",
  ["inputs", "configurations"], "all data sets for which the fit is defined, all built-in models, weighted or not, 2D/3D/geographic",
  "Tests fit two data sets and compare stored parameters.",
  [CORE], [("fit", "core._calculate_variogram_model"), ("weights", "core._variogram_residuals")], ["variogram_model_parameters", "execute()"])
p("C12", "Every variogram model follows its formula, however its parameters are given",
  "The six variogram models give the documented value for every distance and parameter set, as functions and as used by each backend. Parameter lists (full sill), dictionaries with sill and dictionaries with partial sill, of integers or floats, describe the same model and give the same results.",
  ["inputs", "configurations"], "all distances from 0 to beyond the range and all admissible parameters",
  "Tests check a few values per model and only the Python versions.",
  [VM, CVM, CORE], [("formulas", "variogram_models.py / lib/variogram_models.pyx"), ("formats", "core._make_variogram_parameter_list")], ["variogram functions", "execute()"])
p("C13", "Updating the variogram equals building a new object; a failed update is a no-op",
  "After any history of executes and update_variogram_model calls, an object behaves exactly like one freshly constructed with the last successful model, parameters and anisotropy: same experimental semivariogram, parameters, statistics, estimates and variances. An update that raises leaves the object as it was.",
  ["histories", "inputs", "fault_sequences"], "all sequences of updates (valid and rejected) and executes on all four classes",
  "The tests do one update per class; the property quantifies over histories.",
  [OK, UK, OK3, UK3], [("update", "update_variogram_model"), ("rollback", "core._restore_on_error"), ("re-adjustment of drift locations", "UniversalKriging._adjust_point_log")], EX + ["lags/semivariance/parameters", "get_statistics()"])
p("C14", "Kriging is pure: no aliasing, no hidden state, no side effects",
  "Constructing, executing and updating never modify the arrays, lists or dictionaries passed in; later changes to those, or to returned arrays, never affect the object; results handed out are never changed by later calls; and repeating a request returns identical results, whatever was executed in between, including executions that failed in a user callback. Verbose mode changes nothing but the printed output.",
  ["inputs", "histories", "fault_sequences"], "all call histories, argument containers and failure points in callbacks",
  "Tests never mutate inputs or outputs and run each request once.",
  [OK, UK, OK3, UK3, COMPAT], [("copies of inputs", "__init__ and execute np.array(copy=True)"), ("no state written by execute", "execute")], EX + ["argument objects before and after"])
p("C15", "Objects may be used concurrently and re-entered from callbacks",
  "Several threads executing requests on the same object or on different objects at the same time each get the result the request gives when run alone. The same is true for a request issued from inside a user-supplied variogram or drift function while another request is in progress.",
  ["schedules", "histories"], "all interleavings of concurrent execute calls, shared or separate objects, all backends",
  "The tests are single-threaded.",
  [OK, UK, OK3, UK3, COK], [("no shared scratch state", "execute and compiled loops use locals only")], EX)
p("C16", "Fit statistics are those of sequential leave-the-rest-out kriging",
  "The residuals exposed for a fitted variogram are, for the data in the given order from the second on, the difference between each value and its ordinary kriging estimate from all earlier data, divided by the kriging standard deviation, points with zero variance (to rounding: below 1e-10 times the largest semivariance in the system) being left out, whatever the units of the values. With m such residuals Q1 = |sum|/(m-1), Q2 = sum of squares/(m-1) and cR = Q2 times the geometric mean of the variances.",
  ["inputs", "configurations"], "all data sets, orders, models, coordinate types and classes",
  "Tests compare one data set with stored numbers.",
  [CORE, OK, UK, OK3, UK3], [("statistics", "core._find_statistics, _krige, calcQ1/calcQ2/calc_cR")], ["get_statistics()", "get_epsilon_residuals()", "delta/sigma"])
p("C17", "The compiled backend never accesses memory outside its arrays",
  "No request through the public interface, valid or invalid, makes the compiled backend read or write outside the arrays involved, use uninitialised or freed memory, or execute undefined behaviour; it either returns results or raises a Python exception. This holds for any data size, window size, mask, model and request shape, and under concurrency.",
  ["inputs", "configurations"], "all requests reaching the compiled backend",
  "Out-of-bounds accesses usually do not change test results; only instrumentation sees them.",
  [COK, CVM, OK], [("buffer sizes", "_c_exec_loop, _c_exec_loop_moving_window"), ("window size limit", "ok.execute")], ["sanitizer reports", "process exit"])
p("C18", "ASCII grid files round-trip",
  "Writing a grid as an ASCII raster and reading it back returns the same values (to the two decimals written), orientation, coordinates, cell size and no-data value, for both header styles, any rectangular shape, negative and large values, and masked grids whose masked cells come back as the no-data value, whatever the numeric locale of the process. Header variants in the format (corner or centre, cell size or dx/dy, any order or letter case, trailing footer lines) are read as what they mean.",
  ["inputs"], "all grid shapes of at least 2x2, spacings, origins, values, masks and header variants",
  "Tests read one file and round-trip one grid.",
  [KT], [("writer", "kriging_tools.write_asc_grid"), ("reader", "kriging_tools.read_asc_grid")], ["file contents", "read_asc_grid()"])
p("C19", "ZMAP grid files round-trip",
  "Writing a grid in ZMAP format and reading it back returns the same values (to the digits written), orientation, coordinates, cell size, no-data value and coordinate system text, for any rectangular shape, and with masked and NaN cells returned as the no-data value, whatever the numeric locale of the process. Files with any number of values per line are read the same way.",
  ["inputs"], "all grid shapes of at least 2x2, spacings, origins, values, masks and coordinate system strings",
  "Tests round-trip one grid.",
  [KT], [("writer", "kriging_tools.write_zmap_grid"), ("reader", "kriging_tools.read_zmap_grid")], ["file contents", "read_zmap_grid()"])
p("C20", "Damaged grid files are rejected, never half read",
  "Reading a grid file that was cut off anywhere before its last number, or has values missing or added, a header that contradicts the body or (zmap) cells that are no numbers, raises an exception or returns exactly the complete original data; it never returns wrong, shifted or uninitialised values. Writing a grid that cannot be represented (non-constant spacing in whatever unit, unequal spacing with a single cell size, unknown style) raises instead of producing a wrong file.",
  ["crash_points", "inputs"], "every truncation point of a file, and every deletion or duplication of a value or line",
  "No test damages a file.",
  [KT], [("consistency checks", "read_asc_grid, read_zmap_grid"), ("spacing checks", "write_asc_grid, write_zmap_grid")], ["reader return values and exceptions"])
p("C21", "The scikit-learn wrapper gives what the wrapped kriging class gives",
  "For each of the four methods, fitting and predicting or executing through the wrapper returns what the corresponding kriging class returns for the same data, parameters, anisotropy, drifts, style and number of closest points. Parameters set at construction or later, clones, and grid search see and use exactly those parameter values, refitting forgets earlier data, and arrays and dictionaries passed in are left as they were.",
  ["inputs", "configurations", "histories"], "all methods, parameter settings, fit/predict/set_params histories",
  "Tests run a grid search per method and check that it works, not what it returns.",
  [COMPAT], [("parameter forwarding", "Krige.fit"), ("execution", "Krige.execute")], ["Krige.predict/execute"])
p("C22", "Regression kriging adds kriged residuals to the regression prediction",
  "A regression kriging prediction is the regression model's prediction plus the kriging, with the configured options, of the training residuals; hence it returns the training target at training locations with the training predictors, and its score is the R-squared of its predictions (with weights if given). The kriged residual does not depend on the predictors, instances are independent of each other, and refitting forgets earlier data.",
  ["inputs", "configurations", "histories"], "all regressors, kriging options, data sets and call histories",
  "Tests check that the score is above a threshold on one data set.",
  [RK, COMPAT], [("decomposition", "RegressionKriging.fit/predict/krige_residual/score")], ["predict/krige_residual/score"])
p("C23", "Classification kriging kriges log-ratio residuals and returns valid labels",
  "The isometric log-ratio transform is an isometry with its inverse on compositions, and a predicted label is the most probable class after adding the kriged log-ratio residuals of one-hot training labels to the classifier's transformed probabilities. So training points keep their labels, predictions are always among the training labels whatever their type, and the score is the (weighted) accuracy of the predictions.",
  ["inputs", "configurations"], "all probability classifiers, label types and numbers of classes, kriging options and data sets",
  "Tests check the score on one data set and one transform round trip.",
  [CK], [("transforms", "ilr_transformation/inverse_ilr_transformation/closure"), ("residual kriging", "ClassificationKriging.fit/predict")], ["predict/krige_residual/score", "ilr functions"])
p("C24", "Invalid requests are rejected with an exception",
  "A call with an unknown model, style, backend, coordinate or pseudo-inverse type, a wrong number or form of parameters, mismatched array, mask or drift dimensions, missing drift inputs, a window of fewer than two points or an unsupported combination raises a Python exception and returns no numbers. This holds on construction, update and execution, for every class, and the object stays usable with unchanged results.",
  ["inputs", "configurations"], "all classes and every documented kind of invalid argument, alone or after valid calls",
  "Tests cover part of the error paths for some classes.",
  [OK, UK, OK3, UK3, CORE, COMPAT], [("argument checks", "__init__, update_variogram_model, execute, _make_variogram_parameter_list")], ["exceptions"])
p("C25", "The pseudo-inverse handles redundant data and changes nothing otherwise",
  "With the pseudo-inverse switched on, repeated measurement locations are handled as if their values had been averaged, both pseudo-inverse types and all backends agree, and results stay finite. Without redundant data the results equal those of direct solving.",
  ["inputs", "configurations"], "all data sets with any pattern of repeated locations, all classes, models with and without nugget",
  "Tests cover one layout of repeated points.",
  [OK, UK, OK3, UK3, COK], [("pseudo inverse", "P_INV, pseudo_inv branches")], EX)
p("C26", "External drift grids are interpolated bilinearly in any orientation",
  "The external drift value used at any location inside the given grid is the bilinear interpolation of the grid there (the node value at nodes), whatever the order of the axes or orientation of the array. A location outside the grid, among data or requested points, raises an error instead of being extrapolated.",
  ["inputs", "configurations"], "all grids (including irregular spacing), axis orders, array orientations and locations including edges and corners",
  "Tests check a few positions of one grid.",
  [UK], [("interpolation", "UniversalKriging._calculate_data_point_zscalars")], EX)
p("C27", "Kriging variances are consistent as variances",
  "For valid variogram models the ordinary kriging variance is never negative (beyond rounding), is zero only where the data determine the value, does not depend on the measured values, and never increases when a measurement is added. Adding drift terms never decreases it, and it is multiplied by c when sill and nugget (or slope/scale and nugget) are multiplied by c, estimates staying the same.",
  ["inputs", "configurations"], "all data sets, additional points, valid models and classes",
  "Properties over pairs of problems; no test compares problems.",
  [OK, UK, OK3, UK3], [("variance formula", "_exec_*")], EX)
p("C28", "GSTools covariance models act as their variogram",
  "Kriging with a GSTools covariance model, on construction or update, equals kriging with that model's variogram as a custom function and the model's anisotropy, in 2D, 3D and (ordinary kriging, models with the default geo_scale) geographic coordinates. Models of the wrong dimension, latitude-longitude models with Euclidean coordinates or in universal kriging, and objects that are not covariance models are rejected.",
  ["inputs", "configurations"], "all CovModel classes with a finite variogram, parameters, anisotropies and classes",
  "Tests use one model per class.",
  [GST, OK, UK, OK3, UK3], [("model unpacking", "__init__/update_variogram_model pykrige_kwargs branch"), ("validation", "compat_gstools.validate_gstools")], EX)
p("C29", "The four kriging classes agree where their problems coincide",
  "Universal kriging without drift terms equals ordinary kriging; 3D kriging of data and points in one plane equals 2D kriging (with z anisotropy irrelevant); regional linear drift equals the coordinates given as specified or functional drift; a specified drift equals the same function given as functional drift. Custom variogram functions equal to a built-in model give the results of that model.",
  ["inputs", "configurations"], "all data sets, variograms and requests expressible in more than one class",
  "Tests compare two of these pairs on one data set.",
  [OK, UK, OK3, UK3], [("parallel implementations", "ok.py, uk.py, ok3d.py, uk3d.py")], EX)
p("C30", "The automatic variogram fit is the global optimum",
  "When no parameters are given, no parameter set within the bounds has a smaller misfit to the experimental semivariogram than the one chosen.",
  ["inputs"], "all data sets and models",
  "A statement about all of parameter space.",
  [CORE], [("fit", "core._calculate_variogram_model")], ["variogram_model_parameters"])
p("C31", "Copied and pickled objects work like the original, independently of it",
  "A kriging object of any class, or a fitted scikit-learn wrapper, regression or classification kriging object, that is deep-copied, pickled (any protocol), or stored with joblib or cloudpickle, before or after executes and updates, gives a copy with the same attributes that answers every request exactly as the original does, in the same or another process, also as a copy of a copy or when the original is gone. Updating, refitting or damaging one never shows in the other.",
  ["inputs", "histories", "configurations"], "all classes, drifts, models, ways of copying, points of the history at which the copy is made, and later histories of either",
  "No test copies or pickles an object.",
  [OK, UK, OK3, UK3, COMPAT, RK, CK], [("all state lives in attributes of the object", "__init__, update_variogram_model, execute")], EX)
p("C32", "Printed and plotted reports show the variogram and statistics in use",
  "After construction and any history of updates, verbose output names the model in use and prints exactly its parameters (slope, nugget, scale, exponent, partial sill, full sill, range) and Q1, Q2 and cR; display_variogram_model and enable_plotting plot the experimental semivariogram at its lags and the current model; get_variogram_points returns the current model at the lags; plot_epsilon_residuals, print_statistics and get_statistics give the current values. The kriging classes print and plot nothing unasked, the switch methods toggle exactly that, and reports change neither state nor results.",
  ["inputs", "histories", "configurations"], "all classes, models, parameter sources, switches and update histories",
  "Tests never look at output or figures.",
  [OK, UK, OK3, UK3], [("reports", "__init__, update_variogram_model, display_variogram_model, get_variogram_points, plot_epsilon_residuals, print_statistics, switch_verbose, switch_plotting")],
  ["standard output", "matplotlib figures", "get_* return values"])
p("C33", "Without an optional package only what needs it fails, cleanly",
  "When scikit-learn, matplotlib, GSTools, the compiled extension (absent or failing to load) or the version file is missing, alone or together, the package imports, and kriging with every class, updates, statistics, the Krige wrapper's fit, predict and execute, and grid file functions give exactly the results of the complete installation; the C backend, with or without moving window, announces and uses the loop backend. Only what needs the missing package fails: regression and classification kriging with SklearnException, GSTools models with GSToolsException, plots with ImportError, and the objects involved stay as they were.",
  ["configurations", "fault_sequences", "inputs"], "all subsets of missing packages, all classes, backends and requests",
  "Tests skip what is not installed and run in a complete installation.",
  ["src/pykrige/__init__.py", COMPAT, GST, RK, CK, OK], [("guards", "compat.validate_sklearn, compat_gstools.validate_gstools, ok.OrdinaryKriging.execute (import of the extension), __init__")],
  ["results and exceptions in processes whose imports fail"])
p("C34", "Process-wide settings are neither changed nor relied on",
  "Importing and using the package, including calls that fail, leaves everything that belongs to the process as it was: the random generators of NumPy and Python, NumPy's error handling and print options, warning filters, locale, working directory, environment, import path, hooks and signal handlers, standard streams, threads and child processes, open files, matplotlib's settings; grid writers create the named file and touch no other, readers touch none. Results and files do not depend on random state, print options, ignored or reported floating-point errors, warning filters or working directory.",
  ["inputs", "configurations", "histories"], "all calls, succeeding and failing, under all settings of the process",
  "Tests look at results only.",
  [OK, UK, OK3, UK3, CORE, KT, COMPAT, RK, CK], [("no global state", "all modules")], ["process-wide settings before and after every call"])
p("C35", "Repeated use holds on to no memory, and dropped objects are freed",
  "Repeating executes (any class, backend, style or window), constructions, updates, reports, rejected or failing calls, wrapper, regression and classification calls and grid file reads and writes, with the same or different arguments, keeps the memory in use bounded. Once an object and its results are no longer referenced, it and the data arrays, callbacks and models given to it are freed.",
  ["histories", "inputs"], "call histories of any length",
  "Tests make few calls and never look at memory.",
  [OK, UK, OK3, UK3, COK, CORE, KT, COMPAT, RK, CK], [("no caches outside objects, buffers released", "execute, lib/cok.pyx")], ["allocator statistics, Python block counts, weak references"])
p("C36", "An interrupted call leaves everything as it was",
  "When a construction, an update, an execute or a wrapper's fit or predict is interrupted at any point (Ctrl-C, SystemExit, MemoryError, a cancellation raised by a signal handler or inside a user's drift or variogram function), the interruption reaches the caller unchanged, and the kriging object keeps every (public) attribute it had before the call: the arguments, the results handed out earlier and process-wide settings are as they were, the next request gives the results it gave before, and repeating the interrupted update ends in the state of an object that was never interrupted.",
  ["fault_sequences", "histories", "inputs"], "every point of every call at which an exception can arrive",
  "Tests never interrupt a call.",
  [OK, UK, OK3, UK3, CORE, COMPAT], [("all or nothing", "core (restoring decorator of update_variogram_model), execute, Krige.fit")], ["attributes and results before and after the interruption"])
p("C37", "Not-a-number input is never turned into a number, and stays where it is",
  "If a data value, data or evaluation coordinate, drift value at data or points, external drift cell, well, value of a user's drift or variogram function, variogram parameter or anisotropy setting is not a number, then every finite estimate or variance that is reported is one that does not depend on it (any ordinary number in its place gives the same result); whatever depends on it is not a number, or the call raises. A bad evaluation point (not a number or infinite), if accepted, leaves the results of all other points as they were. Cells that are not numbers do not come back from a grid file as numbers. (The automatic fit may leave out lag bins without a mean; this concerns the fitted curve only.)",
  ["inputs", "configurations"], "all places a bad number can be, all classes, models, backends and windows",
  "Tests use clean data.",
  [OK, UK, OK3, UK3, CORE, VM, COK, KT], [("arithmetic that keeps NaN", "variogram_models, lib/variogram_models.pyx, _exec_vector, _exec_loop, _get_kriging_matrix")], ["results of execute with and without the bad number"])
p("C38", "What cannot take effect is announced, and everything else is silent",
  "A setting that is accepted but cannot take effect is announced by a warning each time it is given, and the results are those without it: anisotropy scaling with geographic coordinates (UserWarning at construction and update), drift arrays given to execute of an object without a specified drift (RuntimeWarning). Writing a grid whose axes do not fit the array, or are not in ascending order, is announced (RuntimeWarning) or refused. Where the caller turns warnings into exceptions the object stays as it was. Calls whose settings all take effect issue no warning, apart from what NumPy and SciPy report about floating-point operations and ill-conditioned matrices.",
  ["inputs", "histories"], "all classes, settings and grids",
  "Tests do not record warnings.",
  [OK, UK, UK3, KT], [("warnings.warn", "ok.OrdinaryKriging.__init__, update_variogram_model; uk.UniversalKriging.execute; uk3d; kriging_tools.write_asc_grid")], ["warnings issued by every call, results"])
p("C39", "Arguments mean the same by position, by name or left out",
  "For every constructor, update_variogram_model, execute, the scikit-learn wrapper, regression and classification kriging, the grid file readers and writers, the variogram model and distance functions: leaving an argument out, giving its documented default by name, and giving the arguments by position in the documented order are the same call - same state, results, printed text, figures and files, exactly.",
  ["inputs", "configurations"], "all public calls, all choices of arguments left out, named or given by position",
  "Tests call with names and a handful of defaults.",
  [OK, UK, OK3, UK3, CORE, KT, VM, COMPAT, RK, CK], [("signatures and defaults", "__init__, update_variogram_model, execute, write_asc_grid, write_zmap_grid, read_asc_grid, read_zmap_grid, Krige, RegressionKriging, ClassificationKriging")], ["results and state of equivalent calls"])
p("C40", "What counts is the numbers, not the container they come in",
  "The same numbers given as arrays of any other integer or floating type that holds them exactly, another byte order, memory order or stride, read-only, memory-mapped, as masked arrays without masked cells, subclasses of ndarray, nested lists and tuples, objects with __array__, and settings given as numpy scalars, integers or numpy strings, give the same kriging objects, estimates, variances (of float64), wrapper predictions, files and model values as plain float64 arrays and Python numbers do (to rounding), and the given containers stay as they were.",
  ["inputs", "types"], "all data, coordinates, drifts, masks, settings, variogram parameters and grids whose numbers the other type holds exactly",
  "Tests pass float64 arrays in row-major order nearly everywhere.",
  [OK, UK, OK3, UK3, CORE, KT, VM, COMPAT, RK, CK], [("conversion of the arguments", "__init__, execute, update_variogram_model, _adjust_for_anisotropy, write_asc_grid, write_zmap_grid")], ["state, results, files"])
p("C41", "User functions are called as documented, and what they return stays theirs",
  "A user variogram function is always called with the list of parameters in use and double precision distances that occur between points of the problem (data, evaluation points, lags); a drift function with the adjusted coordinates of its points; a regression or classification model with the given features. Whatever kind of array with the same numbers they return - read-only, integers, single precision, their own argument, a reused buffer, a remembered array, masked arrays, subclasses - state and results are the same, and no returned array is ever modified. Their exceptions come out as they are.",
  ["inputs", "callbacks"], "all user functions and models, all classes, backends and styles",
  "Tests use a few plain functions that return fresh float arrays.",
  [OK, UK, OK3, UK3, CORE, COMPAT, RK, CK], [("calls of user functions", "_get_kriging_matrix, _exec_vector, _exec_loop, _exec_loop_moving_window, _krige, RegressionKriging.fit/predict, ClassificationKriging.fit/predict")], ["calls seen by the functions", "results"])
p("C42", "A call gives what it gives in a fresh process",
  "Whatever was called before in the process - the same call with one argument changed, the same arrays with other numbers in them, objects updated, reused or dropped, calls that failed, files rewritten with the same size and time stamp - every call of kriging, the wrappers, file and model functions has the same outcome (state, results or type of exception) as in a process that has done nothing but import the package.",
  ["histories"], "all sequences of calls",
  "Tests run in a fixed order, and never compare with a process of its own.",
  [OK, UK, OK3, UK3, CORE, KT, VM, COMPAT, RK], [("state kept between calls", "module globals, attributes, files")], ["outcomes of calls with and without a history"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
