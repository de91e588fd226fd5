#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are edited here)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


U = "pyowc/utilities.py"; F = "pyowc/core/finders.py"; S = "pyowc/core/stats.py"
D = "pyowc/data/fetchers.py"; W = "pyowc/data/wrangling.py"; C = "pyowc/calibration.py"
H = "pyowc/helper.py"; K = "pyowc/configuration.py"; PL = "pyowc/plot/plots.py"

p("C01", "Longitudes are normalised to one continuous range around the float",
  """For every list of historical longitudes, normalisation adds 360 to each negative value and then, only if at least
  one resulting longitude is 320 or more, adds 360 to every longitude that is 40 or less; all other values are unchanged.
  Length and order are kept, so each output equals its input modulo 360.""",
  ["inputs"], "all lists of longitudes in [-180, 360) (also with missing values), of every length up to the stated bound",
  "The tests try three hand-picked lists; the rule couples every element to the presence of any other element near 360, at exact thresholds.",
  [U, D], [("sign shift then conditional wrap past 360", "wrap_longitude")], ["wrap_longitude", "get_region_hist_locations", "get_region_data"])

p("C02", "Calendar dates become decimal years, bad dates become zero and stay isolated",
  """Every date written YYYYMMDD, YYYYMMDDHH, YYYYMMDDHHMM or YYYYMMDDHHMMSS with month 1-12 and day 1-31 converts to
  year + (day-of-year - 1 + hour/24 + minute/1440)/365, where the day-of-year uses a 365-day calendar.
  A date whose month or day is out of range or that cannot be parsed yields 0, and whatever one entry contains never changes
  the value, position or number of the others.""",
  ["inputs"], "all digit strings of 1 to 14 digits, given as integers or floating-point numbers, in lists of every mix of good and bad entries up to the stated length",
  "Tests convert a handful of dates; the rule must hold for every month boundary, every optional field and every mixture with malformed entries.",
  [U], [("field slicing and range check", "change_dates"), ("cumulative month table", "cal2dec")], ["change_dates", "cal2dec"])

p("C03", "A position selects the 25 surrounding 10-degree boxes",
  """For every float position with longitude in [0, 360) and latitude in (-90, 90), the box lookup returns 25 rows of the box table: the box
  containing the position (a position on a box edge belongs to the box east/north of it) and the boxes up to two steps away in each direction, wrapping
  in longitude across 0/360 and repeating the polar row instead of going past a pole.
  Each row is the complete table row of that box number; if the longitude or latitude is missing all 25 rows are missing.""",
  ["inputs"], "all real longitudes in [0, 360) and latitudes in [-90, 90] (excluding the 0.01 degree margin the lookup uses at box edges), with arbitrary box-table contents",
  "Tests look up two positions; 648 boxes, the dateline wrap and the two poles are all different cases of the arithmetic.",
  [F], [("offsets, longitude wrap and nearest grid node", "find_25boxes"), ("nearest node", "nearest_neighbour")], ["find_25boxes"])

p("C04", "The depth grid is the relief file's window, correctly georeferenced",
  """For every requested longitude/latitude window the returned elevations are exactly the relief file's cells (first row at 90N, 12 cells per degree,
  first column at 0E) at the returned longitudes and latitudes, also when the window crosses Greenwich, lies at negative longitudes or beyond 360.
  Longitudes ascend and latitudes descend in steps of 1/12 degree, the three arrays have one shape, and the window covers the request clipped at the poles.""",
  ["inputs"], "all windows of the stated sizes with corners anywhere in longitude [-180, 360] and latitude [-91, 91], for any file content",
  "The tests need the real 18 MB file, try a few windows, and compare only shapes and a few sums.",
  [D], [("index arithmetic, wrap and two-part read", "get_topo_grid")], ["get_topo_grid"])

p("C05", "Casts are ranked by the documented separation formulas",
  """The ellipse measure is the square root of the sum of squared longitude and latitude separations, each divided by three times its scale, plus the squared relative
  potential-vorticity difference divided by its scale; the space-time measure is the same kind of sum with unscaled lengths and the age term, without the root.
  The vorticity term is included exactly when both vorticities are given and non-zero; both measures are symmetric in the two points and vanish when the points coincide.
  Vorticity itself is twice the earth's rotation rate times the sine of latitude over depth, with 1e-5 in place of zero.""".replace("coincide.\n  Vorticity", "coincide, and vorticity"),
  ["inputs"], "all real positions, dates, positive scales and vorticities",
  "Tests evaluate a few points only, mostly without vorticity or with one missing.",
  [F, U], [("ellipse", "find_ellipse"), ("space-time separation", "spatial_correlation"), ("planetary vorticity", "potential_vorticity")], ["find_ellipse", "spatial_correlation", "potential_vorticity"])

p("C06", "Historical cast selection is in-ellipse, duplicate-free, capped and best-first",
  """The selected historical casts are distinct, all lie inside the large-scale ellipse around the profile, and are all of those when they do not exceed the configured maximum; otherwise exactly
  the maximum number is selected.
  When capped, at most a third (rounded up) is drawn pseudo-randomly, the large-scale share (topped up for repeated draws) is the closest of the rest by large scales, and the remainder the closest of what is left
  by small scales.
  The same inputs always give the same selection, regardless of earlier use of random numbers.""",
  ["inputs", "histories", "configurations"], "all cast positions and dates up to the stated number of casts and every maximum, every outcome of the random draw, any previous state of the global random generator, with and without vorticity",
  "Tests use one random cloud with fixed limits and only compare counts; the bookkeeping of indices into indices must hold for every ordering and every draw.",
  [F], [("ellipse filter and three-stage draw", "find_besthist")], ["find_besthist"])

p("C07", "A float is never calibrated against its own profiles",
  """Historical Argo profiles whose source label contains the name of the float being analysed are left out, and every other profile of that file is kept, with its position, date and measurements together and in
  file order.
  This holds for each float analysed in a session in any order and is independent of which files were read before.""",
  ["inputs", "histories"], "all placements of the float's own profiles in a file of up to the stated size, and all orders of up to three successive requests for different floats and files",
  "Tests load one file for one float; results are cached between calls, so the guarantee is about histories of calls.",
  [D], [("filter on source label", "read_mat_argo"), ("per-file, per-float caching", "read_mat_argo / get_data")], ["get_data", "get_region_hist_locations", "get_region_data"])

p("C08", "Cast indices chosen from locations address the same casts' profiles",
  """The historical locations are the casts of every enabled box and data type, in one fixed order.
  Selecting casts by index from the locations and then fetching their profiles yields for each selected cast the profile whose latitude, longitude and date are the ones listed at that index, for any combination of enabled boxes and types,
  missing files and excluded own profiles; a selected cast without any measurement is left out of all of them.""",
  ["inputs", "configurations", "fault_sequences"], "all enable-flag combinations and missing-file patterns over the stated boxes, all casts contents and all index subsets",
  "Tests use one set of boxes and index lists and check only lengths or a few values; the two passes over the files must agree for every selection.",
  [D], [("running start index over boxes and types", "get_region_data"), ("concatenation order", "get_region_hist_locations")], ["get_region_hist_locations", "get_region_data"])

p("C09", "Fetched profiles keep exactly the valid levels down to the depth limit",
  """For each fetched cast the returned column holds, in order and without shifting between variables, the levels whose pressure is present and not deeper than the float's deepest pressure plus the configured margin, padded with missing values to the longest column.
  A level missing in any one of salinity, temperature or pressure is missing in all three, and a cast without any usable level is removed together with its position and date and disturbs no other cast.""",
  ["inputs"], "all pressure/salinity/temperature values with any pattern of missing entries for the stated number of casts and levels, any float pressures and any margin",
  "Tests only look at shapes for one data set without such patterns.",
  [D], [("level filter, padding and growth", "get_region_data"), ("missing-value synchronisation", "_sync_nans")], ["get_region_data"])

p("C10", "The frontal filter keeps casts on the float's side of the front only",
  """For profiles north of or at 30S the subantarctic filter returns the historical data unchanged.
  Otherwise the float is placed north, south or undecided from its temperature at 300 dbar (above 5, below 3, or between, then by the envelope test), each historical cast likewise by its temperature at 300 dbar, and exactly the casts in the float's class are returned, each
  with its own position, date, depth and profile; an undecided float keeps every cast.
  Profiles that do not span 300 dbar, have fewer than three valid levels or repeat a pressure are undecided.""",
  ["inputs"], "all float and historical profiles of the stated number of levels, any latitude",
  "Tests run two recorded profiles; thresholds, missing levels and alignment across seven outputs are not sampled.",
  [D], [("float criterion, cast criterion, selection", "frontal_constraint_saf")], ["frontal_constraint_saf"])

p("C11", "Climatology is interpolated linearly on the float's temperature surfaces",
  """For each float level with valid data and each historical cast, the interpolated pressure and salinity come from one pair of vertically adjacent valid levels of differing temperature that brackets the float temperature, both interpolated linearly with the same weight, and of all such crossings the one closest in pressure to the float level is used (either of two equally close ones).
  Where no valid pair brackets the temperature, or the float level has missing data, both results are missing; other casts, other levels and rows with missing data never influence the result.""",
  ["inputs"], "all temperature, salinity and pressure profiles with any pattern of missing values for the stated number of levels and casts",
  "Tests compare one recorded station; inversions, flat segments, ties and missing-value patterns are combinatorial.",
  [W], [("compaction of valid levels", "_get_cleaned_grid_data"), ("crossing search and weights", "calculate_interpolation_weights"), ("closest crossing", "interp_climatology")], ["interp_climatology"])

p("C12", "Signal and noise variances follow their definitions",
  """The signal variance is the population variance of the valid salinities, is never negative, and does not change when a constant is added or the casts are reordered.
  The noise variance is half the mean squared difference between each cast and a cast at the smallest non-zero horizontal distance from it (the first such cast listed), zero when all casts coincide; the signal variance reports an error when no value is valid.""",
  ["inputs"], "all salinities and positions of the stated number of casts, including coinciding positions",
  "Tests use random lists with loose bounds; nearest-neighbour choice and coincident casts need all configurations.",
  [S], [("population variance of valid values", "signal_variance"), ("nearest distinct cast", "noise_variance")], ["signal_variance", "noise_variance"])

p("C13", "Point covariance is the squared-exponential of the scaled separations",
  """The covariance between any two points is exp of minus the sum of squared separations in the two horizontal coordinates, time and vorticity (relative difference), each divided by its own scale (the first coordinate of a point by the scale passed as long, the second by the one passed as lat, the order every caller uses); entry (i, j) depends only on point i of the first and point j of the second list.
  It lies in (0, 1], is 1 for identical points, symmetric, and the time term is omitted exactly when the age scale is zero and the vorticity term exactly when vorticity is off.""",
  ["inputs", "configurations"], "all point coordinates for the stated list sizes, all positive scales, age scale zero or not, vorticity on or off",
  "Tests evaluate one small configuration.",
  [S], [("separation terms and exponential", "covar_xyt_pv")], ["covar_xyt_pv"])

p("C14", "Objective mapping is an unbiased linear estimate with data-independent errors",
  """The mapped salinity and the estimates at the data locations are the objective-analysis solution: the weighted mean with weights from the inverse of (signal variance times covariance plus noise variance on the diagonal), plus covariance times that inverse times the residuals.
  Scaling and offsetting all salinities scales and offsets every estimate identically, the error estimates do not depend on the salinities, and reordering the historical casts reorders the data-location results and leaves the mapped value unchanged.""",
  ["inputs"], "all salinities, over the stated cast numbers and geometries (symbolic covariance for small numbers)",
  "Tests pin four numbers of one data set.",
  [W], [("inverse, weighted mean, weights, errors", "map_data_grid")], ["map_data_grid"])

p("C15", "Level-wise historical data stay aligned through window and outlier removal",
  """At each float level the historical values used are exactly those casts whose interpolated salinity is present and whose interpolated pressure differs from the float's by less than the configured window; each keeps its own pressure, longitude, latitude, date and depth.
  Removing outliers removes exactly the flagged casts from all of these and nothing else.""",
  ["inputs"], "all interpolated values with any missing pattern, any window, any outlier subset for the stated number of casts",
  "No direct test of this selection; misalignment of one of six parallel lists changes no shape.",
  [H], [("window and gather", "process_profile_hist_variables"), ("deletion", "remove_statical_outliers")], ["process_profile_hist_variables", "remove_statical_outliers"])

p("C16", "Selected reference points are recorded once per location",
  """Every historical cast used for a profile is represented in the recorded list by a point within 1/60 degree in both coordinates, points already recorded are kept unchanged and in order, and no point is added that lies within 1/60 degree in both coordinates of a point already recorded.
  Each added point carries the location of a used cast and the number of the profile being processed.""",
  ["inputs", "histories"], "all locations for the stated number of casts and of previously recorded points",
  "Not tested directly; the proximity rule couples each cast with everything recorded before.",
  [H], [("near-duplicate search", "selected_historical_points")], ["selected_historical_points"])

p("C17", "Mapping results are stored per profile, sorted, with their settings",
  """After mapping, the saved file has one column per float profile sorted by profile number; each column's mapped salinity, error, signal, noise, temperature and parameter settings are the ones computed for that profile, whatever the order of profiles in the source.
  Values exist only at levels with valid salinity at or below the exclusion pressure and with more than five historical casts; mapped salinities outside 30 to 40 are missing.
  A profile without position or pressure, or without historical casts in range, keeps missing values and does not stop the others; the float and its casts are compared on one longitude branch.""",
  ["inputs", "configurations"], "all orders of profile numbers, level pressures and missing levels for the stated numbers of profiles and levels, with the per-level mapping abstracted",
  "The end-to-end test runs one float and only checks shapes; it cannot run here at all.",
  [C, H], [("profile loop and per-level mapping", "update_salinity_mapping"), ("sorting of columns", "sort_numpy_array"), ("column initialisation", "process_profiles_la_variables")], ["saved mapping file"])

p("C18", "Mapping can be resumed: earlier profiles are kept, only new ones are computed",
  """Re-running the mapping on a float whose earlier profiles are already mapped computes only the missing profiles and leaves the stored values of the others unchanged, extending them with missing values if new profiles are deeper.
  The mapped fields and settings in the final file equal those obtained by mapping all profiles at once, and running again without new profiles changes nothing.""",
  ["histories", "inputs"], "all splits of the profiles into an earlier and a later run for the stated number of profiles and levels",
  "No test maps a float twice.",
  [C, H], [("loading of earlier results", "load_varibales_from_file"), ("missing-profile detection", "update_salinity_mapping")], ["saved mapping file"])

p("C19", "Calibration series settings cover every profile and are preserved between runs",
  """After setting up the calibration series there is exactly one entry per float profile, sorted by profile number; settings saved earlier are kept, profiles added since inherit the series of the previous entry, and a profile is flagged 0 exactly when it was flagged before or has no valid salinity, temperature or pressure at all.
  A bound given more than once is dropped, and repeating the set-up changes nothing.""",
  ["inputs", "histories"], "all missing-value patterns, all profile orders and all earlier files covering any subset of the profiles, for the stated number of profiles",
  "Tests only check that files are read and written for one float.",
  [K], [("defaults, reload, extension and flags", "set_calseries")], ["saved calibration-series file"])

p("C20", "The ten fitting surfaces are the least variable admissible temperature levels",
  """At most ten levels are returned, all different, ordered by non-decreasing salinity variance, and no admissible level with smaller variance is left out; each reported index is the profile sample closest in temperature to that level.
  Samples that are unmapped or outside the configured temperature and pressure bounds are never used, and levels seen in too small a fraction of profiles are never chosen.""",
  ["inputs", "configurations"], "all profiles of the stated size with any missing pattern, all bound combinations",
  "Tests pin one data set (and fail here); bound combinations and missing patterns are combinatorial.",
  [F], [("masking, level search and selection", "find_10thetas")], ["find_10thetas"])

p("C21", "Piecewise-linear fitting at given breaks is the weighted least-squares solution",
  """For prescribed break points the fit returns intercept and slopes of a continuous piecewise-linear function minimising the weighted squared residuals, together with data minus fit; with no break it is the weighted regression line.
  Mismatched or degenerate inputs return zero parameters and the unchanged observations as residual, and each point is assigned to the segment between the breaks that enclose it.""",
  ["inputs"], "all observations and positive weights, all abscissae relative to the breaks for the stated numbers of points and breaks",
  "Tests fit one data set.",
  [S, U], [("design matrix and normal equations", "brk_pt_fit"), ("segment search", "sorter")], ["brk_pt_fit", "sorter"])

p("C22", "The error covariance has unit diagonal and separates vertical and lateral scales",
  """Entry between two samples is the lateral correlation of their profiles times the vertical correlation between their two levels in the row sample's profile: exp(-(dT/L)^2) of the temperatures there, with the scale L interpolated from the water-mass table at the row sample's temperature, downward scale above the diagonal and upward below it; missing temperatures give vertical correlation 1.
  The lateral correlation is exp of minus squared latitude and longitude separation over the small latitude and longitude scales respectively (plus the vorticity term when enabled), 1 for coinciding profiles.""",
  ["inputs", "configurations"], "all temperatures in the table's range and float coordinates for the stated numbers of levels and profiles",
  "Tests compare one matrix.",
  [S], [("vertical tile, lateral weights, assembly", "build_cov"), ("lateral correlation", "covarxy_pv")], ["build_cov", "covarxy_pv"])

p("C23", "The fit of the conductivity ratio is weighted least squares and equivariant",
  """With the model fixed (offset, line, or line with prescribed breaks, given enough degrees of freedom) the fitted correction is the weighted (1/error^2) least-squares estimate over the valid samples, evaluated at each distinct profile, also at profiles without valid samples; of the models tried (offset, line, one break, as far as the degrees of freedom allow) the one with the smallest corrected Akaike criterion is taken; the change per profile is the slope of the profile's segment (0 for an offset), with its rms error; break points found by the optimiser lie between the second and the last but one profile with data.
  Multiplying all ratios and their errors by a positive factor multiplies fit and errors by it, adding a constant shifts the fit only, the order of the profiles does not matter, and the error of an offset is that of the weighted mean of samples correlated as given.
  Prescribed breaks fewer than the maximum are kept while more are searched for. The per-profile mean and spread are computed from that profile's own valid samples, and data without any valid sample give an all-missing result.""",
  ["inputs"], "all ratios with any missing pattern, for the stated numbers of profiles and levels and fixed abscissae and errors",
  "Tests pin one data set with few loose asserts.",
  [S], [("scaling, weighting, model choice and unscaling", "fit_cond")], ["fit_cond"])

p("C24", "Calibrated salinity is the float's salinity with the fitted conductivity factor",
  """For each profile in a calibration series the saved calibrated conductivity is the measured conductivity times that profile's fitted factor and the calibrated salinity is recomputed from it at the profile's own temperature; the error is the change caused by adding the factor's error.
  Profiles outside any series stay missing, and each series uses only its own profiles, breaks and limits.""",
  ["inputs", "configurations"], "all assignments of profiles to series, all factors and profiles of the stated size, with fitting and level choice abstracted",
  "The end-to-end test cannot run here and checks only existence of outputs.",
  [C], [("series loop and application of factors", "calc_piecewisefit")], ["saved calibration file"])

DB = "pyowc/plot/dashboard.py"; PU = "pyowc/plot/utils.py"

p("C25", "Salinity time series show values interpolated at the chosen temperature levels",
  """For every chosen level plotted, the float's uncalibrated, mapped and calibrated salinity and the errors of the latter two shown for a profile are that profile's own values interpolated linearly in potential temperature between the sample closest to the level and the adjacent sample on the other side of it (the closest sample's own value where that neighbour or its value is missing).
  Only samples that are mapped and within the configured temperature and pressure bounds are used; profiles whose admissible temperatures do not enclose the level show nothing, and the mapped and calibrated salinities carry bars and a band of exactly one error.""",
  ["inputs", "configurations"], "all temperatures, salinities, errors, bounds and missing patterns for the stated numbers of profiles and levels, and all level temperatures",
  "No test can run this plot here; a wrong neighbour or excluded sample changes no file and raises no error.",
  [PL], [("bounds, nearest sample, neighbour and interpolation", "sal_var_plot")], ["figures saved by sal_var_plot"])

p("C26", "The calibration curve shows factors and mean corrections with their errors",
  """When a calibration exists, the saved figure shows in one panel each profile's conductivity factor and the profile's own mean factor, in the other the mean over the valid levels of calibrated minus uncalibrated salinity and of the per-profile salinity minus uncalibrated salinity, all at the profile numbers; error bars of exactly one and two errors (the factor's error, and the mean error of the calibrated salinity) are drawn at the fit.
  The figure holds nothing else, also when other figures are still open; without any calibrated value nothing is plotted.""",
  ["inputs", "configurations"], "all salinities, factors, errors and missing patterns of the stated sizes, with or without other open figures",
  "The test only checks that the function returns.",
  [PL], [("vertical means and the two panels", "cal_sal_curve_plot")], ["figure saved by cal_sal_curve_plot"])

p("C27", "Salinity anomalies are differences from the median at the same temperature",
  """At each potential temperature from 0.1 to 30 in steps of 0.1, the anomaly plotted for a profile is its salinity, interpolated linearly in temperature between its valid samples, minus the median of the interpolated salinities of all profiles that have one at that temperature.
  A profile with fewer than three valid samples, or a temperature outside the range of its valid samples, has no anomaly and does not influence the median; one figure is saved per configured temperature range.""",
  ["inputs"], "all salinities of chosen samples, all positions of single temperatures and all missing patterns of the stated sizes, at all 300 temperatures",
  "Tests draw one float and look at nothing.",
  [PL], [("interpolation, median, anomaly", "sal_anom_plot")], ["figures saved by sal_anom_plot"])

p("C28", "Salinity-temperature diagrams show each profile and its mapped values",
  """The salinity-temperature diagram shows every profile's salinity against its own temperature and, for exactly the samples of the chosen levels, the mapped salinity at the mapped temperature with its own error.
  The plot of the chosen levels shows salinity variance against temperature, and each profile's salinity and temperature against temperature or negative pressure, with lines at exactly the chosen temperatures (upper panels) and pressures (lower panels); neither figure holds anything else, also when other figures are open.""",
  ["inputs"], "all values and missing patterns and all sample indices for the stated sizes",
  "Tests only check that the functions return.",
  [PL], [("profiles and error bars", "theta_sal_plot"), ("four panels", "t_s_profile_plot")], ["figures saved by theta_sal_plot, t_s_profile_plot"])

p("C29", "The diagnostic plots show the saved data of the requested float",
  """For the float and directory requested, the plots are drawn from that float's source, mapped, calibration and settings files as the earlier steps saved them: each plot shows what it shows when given exactly those data (calibrated plots the calibrated, uncalibrated plots the measured salinity), whatever was plotted before and whether or not shown figures are closed, and every figure is saved once under the float's name.
  The map shows every float profile and every recorded historical point at its position with longitudes from -180 to 180, profile numbers standing at their own profiles (the first, every third and the last); the files are left as they are and plotting again gives the same figures.""",
  ["inputs", "histories", "configurations"], "all positions and all values of chosen samples for the stated numbers of profiles and points; repeated runs in one session",
  "The dashboard test cannot run here and would only check that nothing is raised.",
  [DB, PL, PU], [("file names, longitude shift, copies handed to each plot", "plot_diagnostics"), ("tables of positions", "create_dataframe"), ("map", "trajectory_plot")], ["figures saved by plot_diagnostics"])

p("C30", "A failing or interrupted step leaves the stored results as they were",
  """Each step for a float - mapping, default calibration settings, calibration fit - writes only its own result file, leaves its inputs, other files and the given configuration as they are, and writes it once its results are complete.
  If an input file (source, boxes, relief, the earlier result, the mapped data, the settings) cannot be read, the result cannot be written, or the run is interrupted at any line it prints, the step reports an error with every stored file as before the run; if it reports none, the result is that of an undisturbed run.
  Repeating the step, in the same session or a new one, then gives the result of an undisturbed run.""",
  ["fault_sequences", "crash_points", "histories"], "every single unreadable input, refused write and interruption at a printed line of each step, with and without earlier results of any value, for the stated sizes",
  "Tests run each step once to its end; none makes a file unreadable or interrupts a run.",
  [C, K, F, H, D], [("mapping loop and final save", "update_salinity_mapping"), ("defaults, completion and save", "set_calseries"), ("series loop and save", "calc_piecewisefit")],
  ["stored files before and after a failing step and after its repetition"])

p("C31", "Results do not depend on what ran before in the session",
  """The mapping, the default calibration settings and the calibration fit of a float give the same stored results as in a new session, whatever was computed earlier in the same session: another float, a float of the same name in another directory, the same float with other parameters, other historical data or other tables and relief in other directories, an earlier state of the float's source or settings, or a run that failed - and whatever the state of the random number generator.""",
  ["histories", "inputs"], "every listed kind of earlier use before each step, all missing patterns of the stated sizes and all listed states of the generator",
  "Tests run one float in a process; what one run leaves behind for the next is invisible to them.",
  [C, K, F, D, W], [("caches and module state", "fetchers"), ("mapping", "update_salinity_mapping"), ("settings", "set_calseries"), ("fit", "calc_piecewisefit")],
  ["stored files of the float"])

p("C32", "The reference values do not depend on the float's salinity or on data layout",
  """The mapped salinities, their errors and the recorded reference points of a float are the same whatever its own measured salinities are (only which are missing counts; without the frontal filter), so that the reference is independent of the sensor being judged.
  Mapping and calibration also do not depend on how the data are laid out: longitudes of profiles or historical casts given from -180 to 180, from 0 to 360 or mixed, also across Greenwich and the date line; rows without data in the float's file (for the calibration: above or below its data) or in historical files; the order of the profiles in the source and, when all casts are used, of the casts in their files.
  A profile mapped on its own is mapped as together with the others.""",
  ["inputs", "configurations"], "all salinities, every listed change of layout of the stated sizes, all missing patterns of chosen samples",
  "Tests compare one run with stored numbers; relations between two runs of different inputs are not tested at all.",
  [C, F, D, W, H], [("mapping", "update_salinity_mapping"), ("longitudes", "get_region_hist_locations, find_25boxes, get_topo_grid"), ("fit", "calc_piecewisefit")],
  ["saved mapping and calibration files"])

p("C33", "A constant conductivity error of the float is removed by its calibration",
  """If the float measures every conductivity of a calibration series too high or too low by one constant factor, then - with the same mapped data, settings and chosen levels - the fitted factors are the ones without that error divided by it, and calibrated salinity and conductivity are the same as without it, with the same errors for offset fits.
  Each series is freed of its own factor, profiles outside any series stay missing.""",
  ["inputs"], "all conductivity factors between 0.9 and 1.1, one per series, and all missing patterns of chosen samples, for the stated numbers of profiles",
  "A relation between runs with and without a sensor error; tests run one float with its one error.",
  [C, S], [("ratios, errors and application of the factors", "calc_piecewisefit"), ("scaling in the fit", "fit_cond")], ["saved calibration file"])

p("C34", "Historical data that must not be used have no influence on the mapping",
  """Only historical data that may be used influence a mapping: casts outside the large ellipse of every profile, the float's own profiles among the reference data, files of types
  that are switched off for their box or of boxes elsewhere, and levels further below the float's deepest level than the pressure window change no stored result, whatever values (or missing values) they hold.""",
  ["inputs", "configurations"], "all salinities, temperatures and pressures (some missing) of what is added, at every listed place in the files, with and without vorticity and with more casts in reach than the maximum",
  "A relation between two runs on different data; tests map one float with one data set.",
  [C, D, F, H], [("selection", "find_besthist"), ("own profiles, levels below the limit", "read_mat_argo, get_region_data"), ("switches", "get_data")],
  ["saved mapping file"])

p("C35", "What must not matter for mapping and calibration does not; shifts carry through",
  """Only differences count where only differences should: adding one constant to all historical salinities adds it to the mapped salinities and changes no error, noise or signal; stretching them about a value stretches the mapped
  salinities, errors and noise alike (as long as they stay between 30 and 40); moving the dates of the float and the historical data by the same number of years changes nothing; profile numbers only name profiles (moving all numbers
  moves the stored numbers and the corrections stay). Without potential vorticity neither the relief nor the cross-isobath scales matter; without frontal filter the in-situ temperatures of the float do not; nor do in-situ temperatures
  and dates of the profiles in a calibration.""",
  ["inputs", "configurations"], "all constants, factors, heights, scales, temperatures and dates of the stated ranges, all missing patterns of chosen samples",
  "Relations between two runs with different inputs; tests compare single runs with stored numbers.",
  [C, F, D, W, H], [("mapping", "update_salinity_mapping"), ("selection", "find_besthist"), ("fit", "calc_piecewisefit")], ["saved mapping and calibration files"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for q in P:
        fh.write(json.dumps(q) + "\n")
print(len(P))
