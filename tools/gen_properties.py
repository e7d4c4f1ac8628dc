"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, pathlib
P = []
S = "src/pykrige/"
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
KR = ["ok.py", "uk.py", "ok3d.py", "uk3d.py"]
p("P01", "Kriging reproduces the data, with zero variance, at data locations",
  "With exact_values left on, kriging (ordinary or universal, 2D or 3D, global or moving window, every backend) evaluated at a data location returns the datum measured there and a kriging variance of zero, whatever the nugget. This holds whenever the data locations are distinct and the kriging system is nonsingular. With exact_values off, the nugget enters the right-hand side at data locations like anywhere else.",
  ["inputs", "configurations"], "all data sets, data sizes, variogram models and parameters, drift terms, anisotropies, backends, styles",
  "Tests check exactness on one or two small data sets with one model; it must hold for every data set, nugget and backend.",
  KR + ["lib/cok.pyx"], [("zero right-hand-side entry where the distance to a datum is below the cut-off", "_exec_vector/_exec_loop/_exec_loop_moving_window and check_b_vect")], ["execute"])
p("P02", "Kriging weights sum to one: estimates are linear and unbiased in the data",
  "The estimate at any point is a fixed linear combination of the data values whose weights sum to one and depend only on locations, variogram and drift. Hence a constant field is reproduced, adding a constant to the data adds it to the estimate, scaling the data scales the estimate, and the kriging variance does not depend on the data values at all.",
  ["inputs", "configurations"], "all data values, locations, evaluation points, classes, backends and moving windows with fixed variogram parameters and nonsingular systems",
  "Tests compare a few stored numbers; linearity and unbiasedness quantify over all data values and sizes.",
  KR + ["lib/cok.pyx", "core.py"], [("unbiasedness row and column of ones", "_get_kriging_matrix and right-hand side")], ["execute"])
p("P03", "Universal kriging reproduces every field spanned by its drift terms",
  "If the data values are an exact linear combination of the configured drift functions (regional linear, point logarithmic, external, specified, functional) plus a constant, universal kriging returns that same combination at every evaluation point. The drift values used for the evaluation points are the ones that belong to these points, in the same frame as for the data.",
  ["inputs", "configurations"], "all data locations, drift configurations, evaluation points, backends, styles with nonsingular systems",
  "Tests exercise single drift terms on one data set and mostly one backend; the guarantee is for any combination, ordering and number of drift terms.",
  ["uk.py", "uk3d.py"], [("drift columns of the matrix and matching right-hand-side entries", "_get_kriging_matrix, _exec_vector, _exec_loop")], ["execute"])
p("P04", "All backends and solver options compute the same kriging result",
  "For the same model and points the vectorized, loop and C backends return the same estimates and variances, for every style, mask, variogram model they support, exact_values setting and drift. Selecting the pseudo-inverse (either type) changes nothing when the kriging matrix is invertible.",
  ["inputs", "configurations"], "all inputs and configurations accepted by two backends",
  "Tests compare backends on one data set with linear or exponential variograms; equivalence is for all inputs and configurations.",
  KR + ["lib/cok.pyx", "lib/variogram_models.pyx"], [("three separate implementations of the same solve", "_exec_vector, _exec_loop, _c_exec_loop")], ["execute"])
p("P05", "Grid, masked and points styles agree point by point",
  "Entry [row, column] (or [layer, row, column] in 3D) of a grid result equals the result of evaluating the single point (x[column], y[row], z[layer]). A masked grid equals the unmasked grid wherever the mask is False, carries exactly the given mask (a mask given with reversed axis order is accepted as its transpose), and results keep the grid's shape.",
  ["inputs", "configurations"], "all grid sizes, coordinates, masks, classes and backends",
  "Tests use fixed small grids; orientation must be right for every rectangular grid shape and every mask.",
  KR, [("meshgrid / flatten / reshape and mask handling", "execute")], ["execute"])
p("P06", "Moving-window kriging is kriging with exactly the k nearest data points",
  "With n_closest_points=k the result at each point equals global kriging using only the k data points nearest to it (in adjusted coordinates, or on the sphere), and the loop and C implementations agree. With k equal to the number of data it equals global kriging; a k below two or above the number of data is refused.",
  ["inputs", "configurations"], "all data, points, window sizes, backends and coordinate types (ties in distance excluded)",
  "Tests compare a handful of points against stored values; the window logic must be right for every k and geometry.",
  ["ok.py", "ok3d.py", "lib/cok.pyx"], [("nearest-neighbour query and sub-matrix selection", "execute, _exec_loop_moving_window, _c_exec_loop_moving_window")], ["execute"])
p("P07", "Updating the variogram model is the same as building a new object",
  "After any sequence of variogram-model updates (also interleaved with executions), the object estimates exactly like a newly constructed one given the original data, drift and coordinate options and the arguments of the last update: same adjusted coordinates, variogram, parameters, lags, semivariances, drift and results. Nothing from earlier models or anisotropies leaks in.",
  ["histories", "inputs"], "all sequences of update and execute calls with any arguments, for all four classes",
  "Tests update once and check a few attributes; the guarantee is over all histories.",
  KR, [("re-adjustment of coordinates and re-initialisation of the variogram", "update_variogram_model")], ["update_variogram_model", "execute"])
p("P08", "All variogram parameter formats mean the same model, bad ones are rejected",
  "A dict with the full sill, a dict with the partial sill and a list [sill, range, nugget] describing the same variogram give the same internal parameters in the documented order, for each built-in model; linear and power parameters are taken in their documented order; custom parameter lists are passed unchanged. Missing dict keys, lists of wrong length, wrong container types and unknown model names raise an error instead of producing a model.",
  ["inputs", "configurations"], "all models, all parameter values, all key sets and list lengths",
  "Tests check one or two sets of numbers per model.",
  ["core.py"], [("parameter normalisation", "_make_variogram_parameter_list")], ["constructor", "update_variogram_model"])
p("P09", "Variogram models have their documented form and shape",
  "Each built-in variogram equals its documented formula: at distance zero it equals the nugget, it never falls below the nugget and (hole-effect aside) does not decrease with distance, and bounded models never exceed the sill (spherical attains it from the range on). The compiled versions compute the same functions as the Python ones.",
  ["inputs"], "all admissible parameters (nonnegative psill/slope/scale/nugget, positive range, exponent in (0,2)) and all distances >= 0",
  "Tests check a handful of values at one parameter set.",
  ["variogram_models.py", "lib/variogram_models.pyx"], [("model formulas", "variogram_models")], ["variogram functions", "get_variogram_points"])
p("P10", "The experimental semivariogram uses every data pair exactly once",
  "Lags and semivariances are bin means over all pairs of distinct data points: each pair contributes its distance and half its squared value difference to exactly one of the nlags equal-width bins between the smallest and largest distance, and empty bins are dropped in both arrays alike. Distances are taken in the adjusted coordinates, or along the great circle for geographic data.",
  ["inputs", "configurations"], "all data sets with at least two distinct locations, all nlags, both coordinate types, 2D and 3D",
  "Tests check one data set with stored values.",
  ["core.py"], [("pair distances, bin edges, bin means", "_initialize_variogram_model")], ["lags", "semivariance"])
p("P11", "Anisotropy is one fixed linear map applied alike to data and points",
  "Data, evaluation points and drift locations pass through the same map about the centre of the data: a counter-clockwise rotation by the given angle(s) followed by the given axis stretching. With unit scaling the map preserves all distances, with unit scaling and zero angles it is the identity, the centre is fixed, and results do not change when the angles change under unit scaling.",
  ["inputs", "configurations"], "all points, centres, angles and scalings in 2D and 3D",
  "Tests check a few angles on fixed points.",
  ["core.py"] + KR, [("rotation and stretch matrices", "_adjust_for_anisotropy")], ["execute", "constructor"])
p("P12", "Great-circle distances are true, symmetric and 360-degree periodic",
  "The great-circle distance is the angle in degrees between the two directions: symmetric, zero for equal points, between 0 and 180, and unchanged when 360 degrees are added to a longitude. Geographic kriging uses this distance everywhere, so results are invariant under shifting longitudes by 360 degrees, and the moving window selects neighbours in this same distance.",
  ["inputs"], "all longitudes and latitudes, scalars and arrays",
  "Tests compare a few point pairs.",
  ["core.py", "ok.py"], [("arctan2 form of the great-circle formula; chord conversion", "great_circle_distance, euclid3_to_great_circle, execute")], ["great_circle_distance", "execute"])
p("P13", "Inputs are never modified and evaluating never changes the model",
  "Constructing, updating and executing leave every array, list and dict passed by the caller unchanged, and later changes to these inputs by the caller do not affect an already constructed object. Executing has no effect on later executions: repeating a call, in any order with other calls, returns the same result, and each result is a fresh array.",
  ["histories", "inputs"], "all call sequences and all inputs, all classes and backends",
  "Tests never compare inputs before and after, nor interleave executions.",
  KR + ["core.py", "compat.py"], [("copies on entry; no stores to the model in execute", "constructors, execute, _adjust_for_anisotropy")], ["constructor", "execute"])
p("P14", "External drift is bilinear interpolation of the supplied raster",
  "For ascending raster axes the external drift at a point is the bilinear interpolation of the four surrounding raster nodes, equal to the node value at a node and exact for bilinear rasters; a raster given with transposed axes is recognised. A point outside the raster raises an error instead of extrapolating.",
  ["inputs"], "all rasters, all points inside, on edges, on nodes or outside",
  "Tests check a few interior points.",
  ["uk.py"], [("bracketing index search and interpolation", "_calculate_data_point_zscalars")], ["execute", "constructor"])
p("P15", "The scikit-learn wrapper is the kriging class with the same options",
  "Fitting and predicting with the scikit-learn style wrapper gives exactly the result of constructing the corresponding kriging class with the same options on the same columns and executing it at the given points. Every wrapper option that the class supports reaches it, with each component of the anisotropy tuples in its place; points of the wrong dimension and prediction before fitting are refused.",
  ["configurations", "inputs"], "all four methods and all option values",
  "Tests only check scores on random data with default-like options.",
  ["compat.py"], [("option forwarding", "Krige.__init__, fit, predict, execute")], ["Krige.fit", "Krige.predict"])
p("P16", "Regression kriging is the regression prediction plus the kriged residual",
  "Regression kriging fits the supplied regressor on the features, kriges the residuals (target minus fitted value) at the training locations with the given kriging options, and predicts the regression prediction plus the kriged residual. With exact kriging it therefore returns the training targets at the training points.",
  ["inputs", "configurations"], "all regressors, data, kriging options",
  "Tests check R2 thresholds only.",
  ["rk.py"], [("residual kriging", "RegressionKriging.fit/predict")], ["RegressionKriging.predict"])
p("P17", "Classification kriging predicts labels by kriging log-ratio residuals",
  "The isometric log-ratio transform and its inverse are mutually inverse on positive compositions, inverse-transformed rows are positive and sum to one, and the transform is an isometry on log-ratios. Predictions are the class labels (as passed to fit) with the largest probability after adding the kriged ilr residuals to the classifier's ilr probabilities.",
  ["inputs", "configurations"], "all compositions, all classifiers, all label sets with at least two classes, all kriging options",
  "Tests check an accuracy threshold with labels 0..K-1 only.",
  ["ck.py"], [("ilr transform pair and residual kriging", "ClassificationKriging, ilr_transformation, inverse_ilr_transformation")], ["ClassificationKriging.predict"])
p("P18", "Writing an ASCII grid and reading it back returns the same grid",
  "A regularly spaced grid written with the ASC writer (either style) and read with the ASC reader yields the same values in the same orientation, the same coordinates, cell size and no-data value, to the two decimals the format stores; masked cells come back as the no-data value. Irregular spacing, non-square cells in the square-cell style and malformed shapes are refused.",
  ["inputs"], "all regular ascending grids with at least two rows and columns and any finite values",
  "Tests round-trip one stored file.",
  ["kriging_tools.py"], [("row order, header fields, corner/centre convention", "write_asc_grid, read_asc_grid")], ["write_asc_grid", "read_asc_grid"])
p("P19", "Writing a ZMAP grid and reading it back returns the same grid",
  "A regularly spaced grid written with the ZMAP writer and read with the ZMAP reader yields the same values in the same orientation to the precision of the format, the same coordinates and cell sizes, the coordinate-system label and the no-data value; masked and NaN cells come back as the no-data value. This holds for any number of rows, including counts that do not fill the last line of a column. Irregular spacing is refused.",
  ["inputs"], "all regular ascending grids with at least two rows and columns and any finite values",
  "Tests round-trip one grid.",
  ["kriging_tools.py"], [("column-wise layout, nodes per line, header", "write_zmap_grid, read_zmap_grid")], ["write_zmap_grid", "read_zmap_grid"])
p("P20", "Cross-validation statistics are computed from the preceding data only",
  "delta, sigma and epsilon are the sequential cross-validation residuals: datum i is kriged from data 0..i-1 with the model variogram, its standardised residual is residual over kriging standard deviation, and data with vanishing variance are left out of all three alike. Q1, Q2 and cR are the documented functions of epsilon and sigma.",
  ["inputs", "configurations"], "all data sets and variograms, both coordinate types, with or without pseudo-inverse",
  "Tests compare three stored numbers.",
  ["core.py"], [("sequential kriging and filtering", "_krige, _find_statistics, calcQ1, calcQ2, calc_cR")], ["get_statistics", "epsilon"])
p("P21", "Automatic variogram fitting is a bounded, weighted fit of the documented model",
  "When no parameters are given, the model parameters minimise the soft-L1 loss of model minus experimental semivariance over the experimental lags within the documented bounds, starting from a feasible point. So the fitted parameters are always within the bounds (nonnegative, nugget no larger than the largest semivariance, exponent in (0, 2), range within the largest lag), and with weighting on residuals carry logistic weights that sum to one and decrease with lag.",
  ["inputs", "configurations"], "all experimental variograms with at least two distinct lags and non-constant data, all fitted models, weighted or not",
  "Tests check the fit on one data set.",
  ["core.py"], [("residual function, start values and bounds", "_calculate_variogram_model, _variogram_residuals")], ["variogram_model_parameters"])
p("P22", "Unsupported requests raise an error instead of returning wrong numbers",
  "An unknown style, backend, variogram model, coordinate type, pseudo-inverse type or non-boolean exact_values, a missing or mis-shaped mask, point arrays of different length, missing drift inputs or drift values whose count or shape does not match, and parameters for a model that needs others, all raise an error. Every valid combination of these options is accepted.",
  ["configurations", "inputs"], "all option values and all array shapes, all four classes",
  "Tests check some error cases on one class each.",
  KR + ["core.py"], [("validation on entry", "constructors, update_variogram_model, execute")], ["constructor", "execute"])
p("P23", "The compiled kernels never access memory outside their buffers",
  "For every request the public interface accepts, the compiled kernels (which run without bounds checks) read and write only inside the arrays they were given or allocated, for any number of data, points and window size. Every entry of the result for an unmasked point is written.",
  ["inputs"], "all sizes, masks, window sizes and neighbour indices the interface can produce",
  "Tests run a few sizes without memory checking.",
  ["lib/cok.pyx", "lib/variogram_models.pyx", "ok.py"], [("buffer sizes and loop bounds", "_c_exec_loop, _c_exec_loop_moving_window, check_b_vect")], ["execute(backend='C')"])
p("P24", "Estimates and variances solve the documented kriging equations",
  "The result at each point is that of the kriging system with entries minus the variogram of the data distances (zero on the diagonal), a column of ones and one column per drift term, mirrored in the rows, and a right-hand side of minus the variogram of the distances to the point, the drift values there and one. The estimate is the weights times the data values and the variance is minus the inner product of solution and right-hand side.",
  ["inputs", "configurations"], "all data, points, variograms (also custom), drifts, anisotropies, coordinate types with nonsingular systems",
  "Tests compare with stored outputs of another program for a few data sets.",
  KR + ["core.py", "lib/cok.pyx"], [("assembly and solution", "_get_kriging_matrix, _exec_*")], ["execute"])
p("P25", "A GSTools covariance model is used exactly as it defines itself",
  "Passing a GSTools covariance model, at construction or update, makes kriging use that model's own variogram, anisotropy ratios and rotation angles, equal to passing these as a custom variogram with explicit anisotropy. Models of the wrong dimension or with a coordinate type that does not fit are refused.",
  ["configurations", "histories"], "all covariance models, dimensions, anisotropies, all four classes, construction and update",
  "Tests run one or two models.",
  KR + ["compat_gstools.py"], [("model branch of constructor and update", "__init__, update_variogram_model, validate_gstools")], ["constructor", "update_variogram_model"])
if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(q) + "\n" for q in P))
    print(len(P), "properties")
