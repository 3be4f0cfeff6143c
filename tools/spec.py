#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says of their checks. Run it to rewrite
properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "Hypothesis property-based testing: "
PROC = "pycomlink/processing/"

# id, title, statement, over, quantifier, why tests can't, files, mechanisms,
# technique, level_note
P = [
 ("C01", "Functions applied to labelled arrays work link by link, matched by label",
  "A processing function called with labelled arrays (any set and order of dimensions besides time, parameters given per link, as scalars, by position or by keyword) returns, for every link, exactly what it returns for the plain arrays of that link alone, with the dimensions and coordinates of the input kept and the input unmodified. "
  "Parameters of other links are never used: labels are matched, not positions. "
  "A call with an unknown, missing, surplus or repeated argument is rejected as it would be for plain arrays.",
  ["inputs", "configurations"], "all functions offered for labelled arrays x dimensions, dimension orders, mixtures of per-link and scalar parameters, positional and keyword arguments, labels in another order",
  "The tests call three functions with one layout (time, channel) of one example file; the space of layouts and argument mixtures is combinatorial.",
  [PROC+"xarray_wrapper.py", PROC+"baseline.py", PROC+"wet_antenna.py", PROC+"k_R_relation.py", PROC+"nearby_rain_retrival.py", PROC+"blackout_gap_detection.py"],
  [("xarray_apply_along_time_dim", PROC+"xarray_wrapper.py"), ("_get_new_args_dict", PROC+"xarray_wrapper.py")],
  "differential: labelled array against each link on its own", ""),
 ("C02", "Power-law coefficients are those of the ITU recommendations",
  "For every frequency from 1 to 100 GHz and both polarizations, the coefficients of the k-R power law equal the cubic interpolation of the tables of ITU-R P.838-3 (the default) or of P.838-2 (2003), independently per element, in the shape and with the labels of the input, whatever spelling of the polarization is used. "
  "Frequencies outside of 1 to 100 GHz, unknown polarizations or approximations, and polarizations whose shape does not fit are rejected with an error.",
  ["inputs"], "all frequencies x polarizations (scalar, list, arrays of any shape, labelled arrays) x both tables",
  "The tests look at a few frequencies; a wrong table entry or interpolation elsewhere goes unseen.",
  [PROC+"k_R_relation.py"], [("a_b", PROC+"k_R_relation.py")],
  "comparison with an independent copy of the ITU tables and with the ITU regression formula", "The tables were copied once from the repository and checked against the ITU formula."),
 ("C03", "Rain rate from attenuation inverts the k-R power law",
  "For every non-negative path attenuation, link length and coefficients (given directly or by frequency and polarization) the rain rate R satisfies attenuation = a R^b length. "
  "A rain rate below the minimum and any negative attenuation give 0, a rain rate equal to or above the minimum is kept, NaN stays NaN, the input is unmodified, and rain rates grow with attenuation. "
  "Exactly one of the pairs (frequency, polarization) and (a, b) has to be given, any other combination is rejected.",
  ["inputs"], "all attenuations (including 0, negative, NaN, arrays and scalars), lengths, coefficients, minimal rain rates",
  "The tests check a handful of attenuations for one link.",
  [PROC+"k_R_relation.py"], [("calc_R_from_A", PROC+"k_R_relation.py")],
  "round trip through the forward power law, metamorphic relations", ""),
 ("C04", "Min/max data give the documented attenuation and rain rate",
  "From the minima and maxima of transmitted and received levels, the maximal attenuation at each time step is the maximal path loss minus the lowest minimal path loss of this and the preceding time steps of the window, both corrected by half of the sum of the quantization steps, never negative, NaN before the first complete window, with missing losses replaced by their rounded mean. "
  "The rain rate from such an attenuation is the one of the power law divided by ln(k) + 0.57721566, 0 for negative attenuation or below the minimum, and NaN for NaN. Inputs are not modified.",
  ["inputs"], "all series of min/max levels with gaps, windows, quantization steps; all attenuations, lengths, frequencies, k",
  "There are no tests of it in the repository.",
  [PROC+"min_max.py", PROC+"k_R_relation.py"], [("_calc_A_min_max", PROC+"min_max.py"), ("calc_R_from_A_min_max", PROC+"k_R_relation.py")],
  "reference model of the published equations", ""),
 ("C05", "Constant baseline: level before the event, causal, NaN-safe",
  "The constant baseline equals the signal level in dry time steps and, throughout a wet period, the mean of the last n baseline values before the period; the first n values are the signal levels themselves. "
  "Where the classification is NaN the baseline is NaN, and it stays NaN until the next dry time step. "
  "It depends on no later value, shifts with the signal level, and does not modify its inputs.",
  ["inputs", "histories"], "all series of levels and classifications (with NaN in both), all averaging lengths, compiled and uncompiled",
  "The tests run one measured series; starts of events near the averaging length, NaN runs and back-to-back events are not in it.",
  [PROC+"baseline.py"], [("baseline_constant", PROC+"baseline.py"), ("_numba_baseline_constant", PROC+"baseline.py")],
  "reference model, causality and shift relations, with and without compilation", ""),
 ("C06", "Linear baseline: straight line between the dry levels around an event",
  "The linear baseline equals the signal level in dry time steps and, in a wet period, the straight line from the last dry level before to the first dry level after it; a wet period which has not ended has the baseline NaN. "
  "A NaN in the classification makes the baseline NaN in the affected wet period or time step, unless NaNs are to be ignored, in which case the last known state counts. "
  "Reversing the series in time reverses the baseline, and inputs are not modified.",
  ["inputs", "histories"], "all series of levels and classifications with NaN, both NaN modes, compiled and uncompiled",
  "There is no test of it in the repository.",
  [PROC+"baseline.py"], [("baseline_linear", PROC+"baseline.py"), ("_numba_baseline_linear", PROC+"baseline.py")],
  "reference model, time reversal, with and without compilation", ""),
 ("C07", "Blackout gaps are exactly the NaN gaps next to levels below the threshold",
  "A sample is marked as start (end) of a blackout gap if and only if it is below the threshold and the next (previous) sample is NaN; there are no neighbours beyond the ends of the series. "
  "The mask built from start and end markers covers completely every NaN gap directly preceded by a marked start (read backwards: directly followed by a marked end), masks other gaps not at all, never a part of a gap, and never a valid sample.",
  ["inputs"], "all series of received levels with gaps, all thresholds, compiled and uncompiled",
  "Three hand-made series are tested.",
  [PROC+"blackout_gap_detection.py"], [("get_blackout_start_and_end", PROC+"blackout_gap_detection.py"), ("created_blackout_gap_mask_from_start_end_markers", PROC+"blackout_gap_detection.py")],
  "reference model, mirror relation, with and without compilation", "One known finding (C07-F1)."),
 ("C08", "Wet antenna attenuation of Schleiss et al. follows its recurrence and limits",
  "The wet antenna attenuation starts at 0, is never above the observed attenuation nor above the given maximum, grows in wet time steps by at most (maximum - previous value) * 3 * dt / tau, and equals the smallest of these limits; in dry time steps it is the smaller of attenuation and maximum. "
  "It depends on the difference of level and baseline only and on no later value, is NaN where the attenuation is, and inputs are not modified.",
  ["inputs", "histories"], "all series of levels, baselines, classifications and parameters, compiled and uncompiled",
  "The tests compare one example series with stored values.",
  [PROC+"wet_antenna.py"], [("_numba_waa_schleiss_2013", PROC+"wet_antenna.py"), ("waa_schleiss_2013", PROC+"wet_antenna.py")],
  "recurrence as oracle, metamorphic relations, with and without compilation", ""),
 ("C09", "Wet antenna attenuation from rain rate equals the physical model",
  "For every rain rate, frequency, temperature, film and antenna parameters, the attenuation of Leijnse et al. equals the loss by a water film of thickness gamma R^delta on the antenna cover relative to the dry cover, computed from the transmission through the layers, and is 0 without rain; the one of Pastorek et al. equals Amax (1 - exp(-d R^zeta)). "
  "The permittivity of water is the one of Liebe et al. (1991). Scalars and arrays give the same values, NaN stays NaN, and inputs are not modified.",
  ["inputs"], "all rain rates, frequencies (scalar or array, one of both), temperatures, parameters",
  "Stored values for a few rain rates and frequencies are tested.",
  [PROC+"wet_antenna.py"], [("waa_leijnse_2008", PROC+"wet_antenna.py"), ("waa_pastorek_2021", PROC+"wet_antenna.py"), ("eps_water", PROC+"wet_antenna.py")],
  "independent transfer-matrix model and formulas as oracle", ""),
 ("C10", "Wet antenna attenuation from observed attenuation solves the implicit relation",
  "For every observed attenuation, the wet antenna attenuation W satisfies: W is the wet antenna attenuation of the rain rate that belongs to the rest of the attenuation (observed minus W) by the k-R power law, within 2 percent. "
  "W lies between 0 and the observed attenuation, grows with it as does the rest, is 0 for 0 and NaN for NaN, and each element and link is independent of the others. "
  "Negative observed attenuation is rejected.",
  ["inputs"], "all observed attenuations up to 500 dB, frequencies, polarizations, lengths, parameters of both models",
  "Stored values for one link and few attenuations are tested.",
  [PROC+"wet_antenna.py"], [("waa_leijnse_2008_from_A_obs", PROC+"wet_antenna.py"), ("waa_pastorek_2021_from_A_obs", PROC+"wet_antenna.py")],
  "exact solution by bisection as oracle, monotonicity", ""),
 ("C11", "Distances are great circle distances between the right points",
  "The distance of two points is their great circle distance on a sphere of 6367 km radius: symmetric, 0 only for the same point, with the triangle inequality. "
  "The distance matrices of links hold at (i, j) the distance from the stated end of link i to the stated end of link j, with 0 for a link to itself, under the labels of the links, for any order of links.",
  ["inputs"], "all pairs of coordinates; all sets of links",
  "One small set of links is tested.",
  ["pycomlink/spatial/helper.py", PROC+"wet_dry/nearby_wetdry.py"], [("haversine", "pycomlink/spatial/helper.py"), ("calc_distance_between_cml_endpoints", PROC+"wet_dry/nearby_wetdry.py")],
  "vector formula of the great circle as oracle", ""),
 ("C12", "Nearby-link wet/dry classification follows the published rules",
  "A time step of a link is wet if and only if more than the minimum number of nearby links (all end points closer than the radius, the link included) have data and the medians of their level drop below the period's maximum, and of this drop per km, are both below their thresholds; with too few it is NaN; a wet time step whose own drop exceeds 2 dB makes the two time steps before and the one after wet, if they are classified. "
  "A drop is known only with the minimum of samples in the period, and the outlier measure is the sum over the period of the difference of the own drop per km and the median, times the interval in hours. "
  "Results do not depend on the order of links or dimensions, and inputs are not modified.",
  ["inputs", "configurations"], "all networks, level series with gaps, intervals, periods, radii, thresholds, minimum numbers",
  "One network of a few links with stored results is tested.",
  [PROC+"wet_dry/nearby_wetdry.py"], [("nearby_wetdry", PROC+"wet_dry/nearby_wetdry.py")],
  "reference model written from the rules", "One known finding (C12-F1)."),
 ("C13", "Nearby-link reference level and corrected levels",
  "The reference level at each time step is the median of the means of minimal and maximal level over the dry time steps among the last n, NaN with fewer than the minimum number; wet and unclassified time steps never enter. "
  "The corrected minimum is the minimal level where it is wet and below the reference, else the reference; the corrected maximum is the maximal level where additionally it is below the reference, else the reference. "
  "Each link is independent of the others and inputs are not modified.",
  ["inputs"], "all series of levels, classifications with NaN, window lengths and minimum numbers, orders of dimensions",
  "One series with stored results is tested.",
  [PROC+"nearby_rain_retrival.py"], [("nearby_determine_reference_level", PROC+"nearby_rain_retrival.py"), ("nearby_correct_received_signals", PROC+"nearby_rain_retrival.py")],
  "reference model", ""),
 ("C14", "Nearby-link rain rate is the weighted mean of both retrievals",
  "The rain rate is alpha times the rain rate of the maximal plus (1 - alpha) times the one of the minimal attenuation, each being the reference minus the corrected level minus the wet antenna attenuation, not below 0, inverted by the k-R power law with the parameters of the link. "
  "It is NaN where the outlier measure is at or below its threshold (unless there is none) or a level is NaN. "
  "Exactly one of the pairs (frequency, polarization) and (a, b) has to be given, and inputs are not modified.",
  ["inputs"], "all levels, outlier measures, lengths, coefficients or frequencies, weights, thresholds",
  "One series with stored results is tested.",
  [PROC+"nearby_rain_retrival.py"], [("nearby_rainfall_retrival", PROC+"nearby_rain_retrival.py")],
  "reference model", ""),
 ("C15", "MLP wet/dry probabilities come from the window around the time step",
  "For each of the four models, the probabilities at a time step are those of the model for the 40 values of each channel that belong to it (increments up to it for the online models, deviations from the rolling median around it for the others), and NaN if the window is incomplete or holds a NaN. "
  "Probabilities lie between 0 and 1, do not change when a constant is added to a channel, and those of online models do not depend on later values. "
  "Unknown model names are rejected and inputs are not modified.",
  ["inputs"], "all pairs of series with gaps, all models",
  "Stored results for one short series are tested.",
  [PROC+"wet_dry/mlp.py"], [("mlp_wet_dry", PROC+"wet_dry/mlp.py"), ("get_model_file_path", PROC+"wet_dry/mlp.py")],
  "windows built independently, evaluated with the stored models; offset and causality relations", ""),
 ("C16", "Spectral wet/dry classification equals the windowed Fourier analysis",
  "A time step is wet if and only if the mean normalised power at frequencies up to the dividing frequency minus the one above it exceeds the threshold, where the power is that of the Fourier transform of the window around the time step, normalised by its mean over the dry period; without a complete window it is not wet (with mirroring, the last half window is completed by its mirror image). "
  "The dry period is the given one or the one of the given length with the lowest standard deviation, and exactly one of the two has to be given. Inputs are not modified.",
  ["inputs", "configurations"], "all series with gaps, window lengths and shapes, sampling and dividing frequencies, thresholds, dry periods, mirroring, given spectrograms",
  "There is no test of it in the repository.",
  [PROC+"wet_dry/stft.py"], [("stft_classification", PROC+"wet_dry/stft.py"), ("find_lowest_std_dev_period", PROC+"wet_dry/stft.py")],
  "DFT from its definition as oracle", ""),
 ("C17", "Inverse distance interpolation gives the weighted mean of the nearest stations",
  "At each grid point the result is the mean of the values of the nearest n stations with data within the maximum distance, weighted by the distance to the power -p; the value of a station at its own place; NaN without a station in reach. "
  "Stations without data (NaN) have no influence, the order of stations does not matter, results lie between the smallest and largest value used, and inputs are not modified. "
  "A grid made from a resolution covers the stations.",
  ["inputs", "configurations"], "all sets of stations and values with NaN, grids, numbers of neighbours, exponents, maximum distances, compiled and uncompiled",
  "A few stations with stored results are tested.",
  ["pycomlink/spatial/idw.py", "pycomlink/spatial/interpolator.py"], [("Invdisttree.__call__", "pycomlink/spatial/idw.py"), ("_numba_idw_loop", "pycomlink/spatial/idw.py"), ("PointsToGridInterpolator.__call__", "pycomlink/spatial/interpolator.py")],
  "brute-force reference, metamorphic relations, with and without compilation", ""),
 ("C18", "Interpolators give the same result whatever they were used for before",
  "A call of an interpolator gives the same result as the same call of a new one, after any sequence of earlier calls with other values, stations, sets of missing values, grids, numbers of neighbours or maximum distances, also if the caller changes arrays or settings in place between calls. "
  "Earlier results and the arrays of the caller stay as they are.",
  ["histories"], "all histories of calls of inverse distance and kriging interpolators and of in-place changes between them",
  "Tests check reuse for one fixed sequence of two calls.",
  ["pycomlink/spatial/idw.py", "pycomlink/spatial/interpolator.py"], [("reuse of the tree and of distances", "pycomlink/spatial/idw.py Invdisttree.__call__"), ("reuse of the tree", "pycomlink/spatial/interpolator.py IdwKdtreeInterpolator._interpol_func")],
  "stateful: histories of calls against a new object per call, with and without compilation", ""),
 ("C19", "Ordinary kriging solves the kriging system",
  "At each grid point the result is the weighted mean of the station values with the weights that solve the ordinary kriging system of the given (or default) variogram, over all stations with data or the given number of nearest ones; it equals the value of a station at its place, and the kriging variance (`sigma`) is that of the same system. Without given parameters, the variogram is the one fitted to the stations with data with the given number of lags and weighting. "
  "Stations without data have no influence, the order of stations does not matter, scaling and shifting values scales and shifts the result, and inputs are not modified.",
  ["inputs", "configurations"], "all sets of stations and values with NaN, grids, variogram models and parameters, numbers of nearest points",
  "One set of stations with stored results is tested.",
  ["pycomlink/spatial/interpolator.py"], [("OrdinaryKrigingInterpolator._interpol_func", "pycomlink/spatial/interpolator.py")],
  "kriging system built and solved independently", ""),
 ("C20", "Climatological variogram parameters follow the published formula",
  "For every date and time scale, range and sill are those of the formulas of Van de Beek et al. for the day of the year and the time scale in hours, range in km, the nugget is a tenth of the sill, and all are positive; only the date matters, not its spelling.",
  ["inputs"], "all dates (leap years included), time scales, date formats",
  "One date is tested.",
  ["pycomlink/spatial/interpolator.py"], [("clim_var_param", "pycomlink/spatial/interpolator.py")],
  "formula as oracle", ""),
 ("C21", "Wet/dry metrics equal their definitions on the valid pairs",
  "All wet/dry metrics (counts of true and false wet, missed wet and true dry, of wet and dry reference, the rates of each relative to the reference class, the Matthews correlation) equal their definitions on the pairs in which neither value is NaN; the counts of all pairs, of pairs with a NaN, and of NaNs in reference and predicted values are exact. "
  "They do not depend on the order of pairs or the shape and type of the arrays, rates of a class with no member are NaN, the Matthews correlation is 0 if wet is never predicted, series of different length are rejected, and inputs are not modified.",
  ["inputs"], "all pairs of series of classes (float with NaN, bool, int, 1-D and 2-D)",
  "Two small series with stored results are tested.",
  ["pycomlink/validation/stats.py", "pycomlink/validation/validator.py"], [("calc_wet_dry_performance_metrics", "pycomlink/validation/stats.py"), ("calc_wet_error_rates", "pycomlink/validation/stats.py"), ("calc_wet_dry_error", "pycomlink/validation/validator.py")],
  "definitions recomputed from single pairs", ""),
 ("C22", "Rain error metrics equal their definitions; wet is at or above the threshold",
  "All rain error metrics (Pearson correlation, coefficient of variation as standard deviation of the difference over mean reference, root mean square and mean absolute error, sums and means, rates and mean rain of false and missed wet pairs) equal their definitions on the pairs without NaN, with a value counting as wet if it is at or above the threshold; all counts are exact. "
  "They do not depend on the order of pairs, scale with the data, series of different length are rejected, and inputs are not modified.",
  ["inputs"], "all pairs of rain series with NaN, 1-D and 2-D, all thresholds",
  "Two small series with stored results are tested.",
  ["pycomlink/validation/stats.py"], [("calc_rain_error_performance_metrics", "pycomlink/validation/stats.py")],
  "definitions recomputed from single pairs, metamorphic relations", ""),
 ("C23", "Aggregation puts every value into exactly one bin with the right label",
  "Aggregating a time series onto another time index puts each value between the common start and end of both into the bin of the next label at or after it (label right) or the last label at or before it (label left), and returns for each non-empty bin the aggregate of exactly its values, for every method. "
  "Time zones are respected: time stamps without a zone mean UTC or the stated zone. Other label names are rejected, inputs are not modified, columns and the index name are kept.",
  ["inputs"], "all pairs of regular and irregular time indices, time zones (with changes of the clock), labels, methods, series and frames",
  "It is tested only indirectly, for one regular index.",
  ["pycomlink/util/temporal.py"], [("aggregate_df_onto_DatetimeIndex", "pycomlink/util/temporal.py")],
  "reference model in integer minutes", ""),
 ("C24", "The coverage mask marks exactly the grid points close to a path",
  "A grid point is covered if and only if its distance to the straight path of at least one link, in the units of the coordinates, is at most the given distance; the mask has the shape of the grid and does not depend on the order of links or the direction of a path.",
  ["inputs"], "all sets of links, grids, distances",
  "There is no test of it in the repository.",
  ["pycomlink/spatial/coverage.py"], [("calc_coverage_mask", "pycomlink/spatial/coverage.py")],
  "point to segment distance as oracle", ""),
 ("C25", "Validation against gridded data uses the path average and matching times",
  "The gridded series along a path is, for each grid time step strictly within the period of the link data, the mean of the cells weighted by the part of the path in each cell; weights sum to 1 and do not depend on the direction of the path or on earlier use of the object. "
  "Link data resampled to the grid are the means of the values between grid time steps, and the statistics are the correlation of the pairs with the same time stamp. Inputs are not modified.",
  ["inputs", "histories"], "all regular grids, paths, periods, time zones, series",
  "One grid and one path are tested.",
  ["pycomlink/validation/validator.py"], [("GridValidator.get_time_series", "pycomlink/validation/validator.py"), ("GridValidator.resample_to_grid_time_series", "pycomlink/validation/validator.py"), ("Validator.calc_stats", "pycomlink/validation/validator.py")],
  "clipping of the path at the cells as oracle", ""),
 ("C26", "Reading a cmlh5 file reproduces its content",
  "Reading a file gives one dataset per link, in the order of the names of the links in the file, with its ID, site coordinates and great circle length in km, and per channel the frequency in GHz, the polarization and exactly the stored transmitted and received levels at their time stamps, NaN where a channel has no sample. "
  "Datasets read earlier are not affected by later changes of the file.",
  ["inputs", "histories"], "all files with any links, channels, time stamps per channel, gaps; the example files",
  "The number of links of the example files is tested.",
  ["pycomlink/io/cmlh5_to_xarray.py", "pycomlink/io/examples.py"], [("read_cmlh5_file_to_xarray", "pycomlink/io/cmlh5_to_xarray.py")],
  "round trip of generated files", "One known finding (C26-F1)."),
 ("C27", "CNN (PyTorch) predictions come from the right window of the right link",
  "The prediction of a PyTorch model at time t of a link is the output of the model, in inference mode, for the window of that link alone whose end is half the reference length after t, with channels and time in order; time steps without a complete window are NaN. "
  "Results do not depend on the batch size, the order of dimensions, the shape of the model output (n or n x 1), or other links; the result holds the unmodified input and the predictions. "
  "Sources which are no model file or URL are rejected.",
  ["inputs", "configurations"], "all data sets (links, channels, gaps), window lengths, reference lengths, batch sizes, models",
  "The only test needs a download and checks one link.",
  [PROC+"pytorch_utils/run_inference.py", PROC+"pytorch_utils/pytorch_utils.py", PROC+"pytorch_utils/inference_utils.py"],
  [("rolling_window", PROC+"pytorch_utils/run_inference.py"), ("redistribute_results", PROC+"pytorch_utils/run_inference.py"), ("load_model", PROC+"pytorch_utils/pytorch_utils.py")],
  "generated linear models, whose output is known for every window", ""),
 ("C28", "A model cache serves complete files, downloads once, and survives faults",
  "A model is downloaded once per URL and cache directory, and again only on request; what is returned is always the complete content of that very URL, also for URLs which end in the same name. "
  "A download that fails, is cut or whose process is killed raises an error (or ends), leaves the earlier cached file as it was, and is never taken for a cached model. "
  "Listing shows exactly the cached models, clearing removes them from this directory only, and files given as local paths are used as they are.",
  ["histories", "fault_sequences", "crash_points"], "all histories of downloads (forced or not), changes on the server, listings, clearings, with HTTP errors, connections cut after any part, and kills at any point of a download, for both model caches",
  "The tests have no faults and no second URL.",
  [PROC+"pytorch_utils/inference_utils.py", PROC+"tensorflow_utils/inference_utils.py"],
  [("download_and_cache_model", PROC+"pytorch_utils/inference_utils.py"), ("download_and_cache", PROC+"tensorflow_utils/inference_utils.py"), ("clear_model_cache, list_cached_models", PROC+"pytorch_utils/inference_utils.py")],
  "stateful with injected faults and kills against a local server, model of the cache as oracle", "Faults: HTTP errors, dropped connections, cut bodies, SIGKILL; one process at a time."),
 ("C29", "CNN (TensorFlow) predictions come from complete windows of the right link",
  "The probability of a TensorFlow model at time t of a link is the output of the model for the window of the given length ending at t, of that link, with each variable standardised over all windows that are used; it is NaN where the window is incomplete or not finite, and for links which were not asked for. "
  "Unknown links are skipped, results do not depend on batch size or order of dimensions, and the data set returned holds the unmodified input and the probabilities. "
  "A missing link coordinate and predictions whose lengths do not match are rejected.",
  ["inputs", "configurations"], "all data sets (links, variables, gaps), window lengths, selections of links, names of the link coordinate, models",
  "The only test needs a download and checks one data set.",
  [PROC+"tensorflow_utils/inference_utils.py", PROC+"tensorflow_utils/run_inference.py"],
  [("create_samples", PROC+"tensorflow_utils/inference_utils.py"), ("scale_features", PROC+"tensorflow_utils/inference_utils.py"), ("store_predictions", PROC+"tensorflow_utils/inference_utils.py"), ("wet_dry_1d_cnn", PROC+"tensorflow_utils/run_inference.py")],
  "generated models, whose output is known for every window", ""),
 ("C30", "From signal levels to rain: known rain is recovered, links and times stay apart",
  "The chain baseline, wet antenna correction, power law recovers the rain rates of a synthetic event from the signal levels they cause (within the accuracy of the wet antenna correction), gives 0 in dry time steps, NaN where there is no level, and never a negative rain rate. "
  "Rain rates do not change when a constant is added to the levels, with the other channels processed together or their order, or with later data; correcting for the wet antenna never adds rain.",
  ["inputs", "configurations"], "all rain events, levels, gaps, frequencies, polarizations, lengths, wet antenna models, layouts",
  "No test runs the chain against known rain.",
  [PROC+"baseline.py", PROC+"wet_antenna.py", PROC+"k_R_relation.py", PROC+"xarray_wrapper.py"],
  [("baseline_constant", PROC+"baseline.py"), ("waa_*_from_A_obs", PROC+"wet_antenna.py"), ("calc_R_from_A", PROC+"k_R_relation.py")],
  "end-to-end round trip with a synthetic forward model, metamorphic relations", ""),
 ("C31", "Results depend on the values only, not on compilation or storage",
  "The same values give the same results whether the functions are compiled or not, and whether the arrays are contiguous, strided, reversed views, read-only, big-endian, integer, bool or single precision (within its accuracy), or pandas Series, whatever their index, or lists where the functions take them.",
  ["inputs", "configurations"], "all inputs of the functions with compiled parts and of the main retrieval functions x ways to store them x compilation on and off",
  "The tests use contiguous double arrays, in one mode.",
  [PROC+"baseline.py", PROC+"wet_antenna.py", PROC+"blackout_gap_detection.py", "pycomlink/spatial/idw.py", PROC+"k_R_relation.py"],
  [("numba compilation", "pycomlink/spatial/idw.py, " + PROC + "baseline.py, wet_antenna.py, blackout_gap_detection.py")],
  "differential: compiled against uncompiled process, ways of storage", ""),
 ("C32", "Calls do not depend on earlier or concurrent calls",
  "Every function of the processing, spatial, validation and io parts gives, in whatever sequence of calls, with whatever parameters and data were used before, the result which it gives as the first call of a program. "
  "This also holds when the caller reuses the same arrays with new values, when the caller changes the arrays of earlier inputs or results, and when several threads call at the same time. "
  "Results already returned do not change through later calls, inputs are not modified, and global settings (numpy's error handling, random states, environment, working directory, options and warning filters) are left as they are.",
  ["histories", "schedules"], "all histories of calls of all functions with parameters and data changing, arrays reused in place, results and inputs overwritten by the caller, up to 4 threads",
  "Each test calls a function once or twice with fixed data; hidden state between calls (caches, shared buffers, changed defaults) needs a particular history.",
  [PROC+"k_R_relation.py", PROC+"wet_antenna.py", PROC+"baseline.py", PROC+"wet_dry/stft.py", PROC+"wet_dry/nearby_wetdry.py", PROC+"wet_dry/mlp.py", PROC+"nearby_rain_retrival.py", "pycomlink/spatial/interpolator.py", "pycomlink/spatial/helper.py", "pycomlink/spatial/coverage.py", "pycomlink/util/temporal.py", "pycomlink/validation/stats.py", "pycomlink/validation/validator.py"],
  [("module-level tables and look-up tables", PROC+"k_R_relation.py, wet_antenna.py"), ("model loading", PROC+"wet_dry/mlp.py"), ("interpolators", "pycomlink/spatial/interpolator.py")],
  "histories of calls and threads, against the same call as the first one of a process", ""),
 ("C33", "Deprecated functions keep working and warn at the place of the call",
  "Every call of a deprecated function emits one DeprecatedWarning (a UserWarning) which names the function and the instructions and is attributed to the file and line of the caller; with warnings turned into errors, it is raised before the function runs. "
  "Otherwise the call is that of the function itself: the same arguments, positional and by keyword, reach it once, and its return value or exception comes back; name, documentation and attributes stay. "
  "The deprecated error rates are the shares of missed wet (of all wet) and false wet (of all dry) time steps.",
  ["inputs", "configurations"], "all functions, methods and arguments, instructions, places of the call, nested deprecation, repeated calls; all pairs of wet/dry series",
  "The tests call one deprecated function and do not look at the warning.",
  ["pycomlink/util/maintenance.py", "pycomlink/validation/stats.py", "pycomlink/validation/validator.py"],
  [("deprecated", "pycomlink/util/maintenance.py"), ("calc_wet_error_rates", "pycomlink/validation/stats.py"), ("calc_wet_dry_error", "pycomlink/validation/validator.py")],
  "generated functions and places of calls, against the undecorated function; definitions", ""),
 ("C34", "TensorFlow is loaded on demand and installed only with consent",
  "When TensorFlow is needed and there, it is used as it is. When it is missing, it is installed only if the call asks for it (auto_install / install_tensorflow) or the environment variable ALLOW_TF_AUTOINSTALL is exactly 1: then by one pip install with the running Python, of the package with CUDA if and only if nvidia-smi works, and a failed installation is reported. "
  "Otherwise an ImportError names the package to install, and no process but nvidia-smi is started and nothing downloaded. A module once loaded is reused, an installation made in the meantime is found. "
  "pycomlink can be imported without TensorFlow and PyTorch, and importing it loads neither.",
  ["histories", "configurations"], "all histories of requests with consent given or not, environment values, GPU present or not, failing and useless installations, installations by the user in between",
  "The tests run with TensorFlow present or not at all; none looks at what is started.",
  ["pycomlink/processing/tensorflow_utils/lazy_tf.py", "pycomlink/processing/tensorflow_utils/run_inference.py", "pycomlink/processing/tensorflow_utils/__init__.py"],
  [("get_tf, ensure_tensorflow_installed", "pycomlink/processing/tensorflow_utils/lazy_tf.py"), ("install_tensorflow", "pycomlink/processing/tensorflow_utils/run_inference.py")],
  "histories with stand-ins for processes and downloads, against a model", ""),
 ("C35", "The nearby link approach: known rain is recovered, links do not interfere",
  "From the minimum and maximum levels of a network, the chain distances, wet/dry classification, reference level, corrected levels, rain rate finds the rain rates of a synthetic event for links with enough neighbours, zero in the dry time before and after, and no rain rates (NaN) for links with too few neighbours. "
  "The rain rates are never negative, and do not depend on the level of each link, the order of the links in the levels or the distances, on which end of a link is called a, on links beyond the radius, on links without data, on the date, nor (but for two time steps) on later data; there is no rain where it is not wet.",
  ["inputs", "configurations"], "all networks, levels, gaps, rain events, frequencies, polarizations, lengths, parameters of the approach",
  "The tests check the steps one by one on one data set; nothing says that they fit together for other networks.",
  [PROC+"wet_dry/nearby_wetdry.py", PROC+"nearby_rain_retrival.py", "pycomlink/spatial/helper.py", PROC+"xarray_wrapper.py"],
  [("calc_distance_between_cml_endpoints, nearby_wetdry", PROC+"wet_dry/nearby_wetdry.py"), ("nearby_determine_reference_level, nearby_correct_received_signals, nearby_rainfall_retrival", PROC+"nearby_rain_retrival.py")],
  "end-to-end round trip with a synthetic forward model, metamorphic relations", ""),
 ("C36", "From rain rates to maps and back: places, times and missing links fit together",
  "Maps made time step by time step with one interpolator hold, at each grid point, the value of that place: they are the maps of the links with data alone, in whatever order, move and turn with the coordinates, stay (inverse distance) between the rain rates of the links, and add up over time. The coverage mask of the same grid covers the surroundings of the links and nothing else. "
  "Averaged along the path of a link, a map gives the mean weighted by the part of the path in each cell (the rain rate itself if it is the same everywhere), at the same time steps; a link series aggregated to these steps is compared with them one to one, and a perfect estimate has no error.",
  ["inputs", "configurations", "histories"], "all networks, rain rates, gaps, grids, interpolation parameters, paths, time steps",
  "The tests check interpolation, mask, path average, aggregation and metrics one by one with one grid each.",
  ["pycomlink/spatial/interpolator.py", "pycomlink/spatial/idw.py", "pycomlink/spatial/coverage.py", "pycomlink/validation/validator.py", "pycomlink/util/temporal.py", "pycomlink/validation/stats.py"],
  [("IdwKdtreeInterpolator, OrdinaryKrigingInterpolator", "pycomlink/spatial/interpolator.py"), ("calc_coverage_mask", "pycomlink/spatial/coverage.py"), ("GridValidator", "pycomlink/validation/validator.py"), ("aggregate_df_onto_DatetimeIndex", "pycomlink/util/temporal.py")],
  "metamorphic relations over the whole chain, weighted mean reference", ""),
]

LEVEL = {"C28": "fault_enumeration"}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i, title, stmt, over, text, why, files, mech, _, _ in P:
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({
                "id": i, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None},
            }) + "\n")
    checks = []
    for i, title, *_, tech, note in P:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": PB + tech,
            "level": LEVEL.get(i, "exploration"),
            "level_note": ("No counterexample among the generated cases counted in the evidence; not a proof. Trusts the oracle, "
                           "written independently of the code, and Hypothesis. " + note).strip(),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 run_check.py C20",
        "checks": checks,
        "not_applicable": [],
        "notes": "Checks import pycomlink from /repo's working tree (nothing to build). Known findings and fixes: known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
