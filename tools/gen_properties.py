#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; checks never run it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b) for a, b in state],
                     observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ API
p("P01", "Neighbour queries agree with exhaustive search",
  "For any set of points, geodetic or Cartesian, nearest-point, k-closest and within-radius queries, neighbour counts and the reported distances on trees, point sets and grids are those an exhaustive comparison of all point distances gives (straight-line distance for ranking; any of several equally near points may be returned). "
  "Queries told to exclude matches never return a point at the query location, and grid queries return the row and column of such a point. "
  "The tree, a point set and a grid built from the same coordinates, and any copy of them, answer identically. The distance formulas are symmetric in their arguments and agree with the great-circle, straight-line and planar distances they compute; a point exactly at the radius may be in or out.",
  ["inputs"], "all layouts of up to a few points drawn from a coordinate alphabet with duplicates, poles, dateline and exact-radius pairs; every query kind, radius, count and match flag",
  "Tests query a handful of fixed layouts; an index can be wrong only for particular arrangements (dateline, poles, duplicates, ties, query on a data point).",
  ["src/api/kdtree.cpp", "src/api/points.cpp", "src/api/grid.cpp", "src/api/distance.cpp", "src/api/count.cpp"],
  [("R-tree queries with box prefilter", "src/api/kdtree.cpp"), ("row/column unflattening", "src/api/grid.cpp")],
  [("tree", "spatial index over 3D coordinates")], ["KDTree", "Points", "Grid", "distance()", "count()"])

p("P02", "Statistics and quantiles follow their definitions",
  "Mean, sum, count, min, max, median, standard deviation, variance and any quantile of a list are computed over its valid values only, exactly as defined (quantiles interpolate linearly between order statistics and accept levels 0 to 1), regardless of the order of the values, and the row-wise and cube-wise versions equal the one-list version applied to each row. "
  "A list without valid values gives a missing result (count gives 0), and a quantile level outside [0,1] is rejected. "
  "Statistic names map to the statistic they name.",
  ["inputs"], "all lists up to a small length over an alphabet with missing, infinite, repeated, negative and large values; all statistics; a grid of quantile levels",
  "Tests check a few lists; the definition must hold for every list, order, and missing pattern.",
  ["src/api/util.cpp"], [("calc_statistic / calc_quantile", "src/api/util.cpp")], [], ["calc_statistic", "calc_quantile", "get_statistic"])

p("P03", "Neighbourhood filters equal a direct window computation",
  "Every neighbourhood filter (any statistic, any halfwidth, any field shape, with or without an ensemble dimension, fast or brute force, and the quantile filter) gives at each cell the statistic of the valid values in the square window around the cell clipped to the field, across all members. "
  "A window without valid values gives missing (count gives 0), a halfwidth of zero reduces to the cell itself, and cells never depend on values outside their window.",
  ["inputs"], "all small field shapes, halfwidths including ones larger than the field, statistics, and value/missing patterns over a small alphabet",
  "Summed-area and sliding shortcuts are only wrong for particular shapes, halfwidths, missing patterns or magnitudes that example tests do not combine.",
  ["src/api/neighbourhood.cpp"], [("summed-area tables and van Herk style min/max", "src/api/neighbourhood.cpp")], [], ["neighbourhood", "neighbourhood_brute_force", "neighbourhood_quantile"])

p("P04", "Fast quantile filter is the threshold-interpolated window quantile",
  "The threshold-based fast neighbourhood quantile gives at each cell the value obtained by interpolating the empirical cumulative fractions of the valid window values at the given thresholds to the requested quantile level, for constant and spatially varying levels, with and without ensemble (the members of a cell are first averaged within the cell, so that cells count equally). "
  "Generated threshold lists are sorted, unique, lie within the range of the data and include its extremes, and degenerate inputs (all missing, few values) give a well-formed result.",
  ["inputs"], "all small fields, halfwidths, quantile levels (uniform and per cell), and threshold lists over small alphabets",
  "The approximation is tested only for a few fixed arrays.",
  ["src/api/neighbourhood.cpp", "src/api/util.cpp"], [("per-threshold neighbourhood means then interpolation", "src/api/neighbourhood.cpp"), ("even quantile selection", "src/api/util.cpp")], [], ["neighbourhood_quantile_fast", "get_neighbourhood_thresholds"])

p("P05", "Temporal window statistics equal a direct computation",
  "The moving-window operation gives, at each position of each row, the statistic of the values in the window (centred, or ending at the position) over that row, with missing values skipped or propagated as requested and incomplete edge windows missing or truncated as requested (the count statistic counts the valid values irrespective of these flags). "
  "This holds for every window length, row length and statistic, rows never influence each other, and an even centred length is rejected.",
  ["inputs"], "all row lengths up to a bound, window lengths, flags, statistics and missing patterns",
  "Tests sample few combinations of length, flags, statistic and missing pattern.",
  ["src/api/window.cpp"], [("cumulative sums and per-window statistics", "src/api/window.cpp")], [], ["window"])

p("P06", "Fill, doping and gap filling touch exactly the cells they should",
  "Filling inside or outside circles around points, and doping observations into squares or circles, changes exactly the cells whose distance (or index offset) to a point satisfies the criterion, to exactly the given value, and leaves all other cells as in the input; doping honours the elevation difference limit. "
  "Gap filling keeps every valid value and replaces a missing value lying between valid ones in a row or column by the linear interpolation in these directions (their average when both exist).",
  ["inputs"], "all small grids, point placements, radii/halfwidths, elevation limits and missing patterns within the bound",
  "Tests cover a few placements; boundaries, several points overlapping, and missing patterns are combinatorial.",
  ["src/api/fill.cpp", "src/api/doping.cpp"], [("neighbour query driven fill", "src/api/fill.cpp"), ("square/circle doping", "src/api/doping.cpp")], [], ["fill", "fill_missing", "doping_square", "doping_circle"])

p("P07", "Gridding aggregates exactly the points belonging to each cell",
  "Gridding gives in each output cell the requested statistic of exactly the valid observations within the radius of the cell, and nearest gridding the statistic of exactly the observations whose nearest cell it is, with missing where fewer than the minimum number of observations (valid or not) are in reach; observations exactly at the radius may be in or out. "
  "The grid and point versions agree for the same locations, and the result does not depend on the order of the observations.",
  ["inputs"], "all small sets of observations over a coordinate alphabet, radii, minimum counts, statistics and missing patterns",
  "Tests use a few fixed observation sets.",
  ["src/api/gridding.cpp"], [("radius neighbours per cell", "src/api/gridding.cpp"), ("nearest cell assignment", "src/api/gridding.cpp")], [], ["gridding", "gridding_nearest"])

p("P08", "Nearest and bilinear downscaling are exact interpolations",
  "Nearest downscaling gives each output location the value of its nearest input location; bilinear downscaling reproduces the bilinear interpolation of the four surrounding grid cells (hence reproduces input values at grid points, reproduces fields linear in the coordinates on regular grids, and stays within the range of the four corners), falling back to the nearest value outside the grid or when a corner is missing. Cells are quadrilaterals in latitude and longitude; cells crossing the dateline, and positions whose cell does not touch their nearest grid point, are not specified. "
  "All overloads (grid or points to grid or points, single or stacked fields, generic method selector) agree for the same locations and values.",
  ["inputs"], "all small input grids (regular, irregular, rotated, descending), output positions on, between and outside cells, and value/missing patterns within the bound",
  "Tests use a few grids; geometry (orientation, degenerate edges, irregular cells, dateline) matters.",
  ["src/api/nearest.cpp", "src/api/bilinear.cpp", "src/api/downscaling.cpp", "src/api/grid.cpp"], [("get_box + calc_coefficients", "src/api/bilinear.cpp"), ("nearest neighbour lookup", "src/api/nearest.cpp")], [], ["nearest", "bilinear", "downscaling", "Grid::get_box"])

p("P09", "Gradient downscaling applies the stated elevation/land corrections",
  "Simple and full gradient downscaling give, at each output location, the nearest/bilinear value plus gradient times elevation difference (and land-area-fraction gradient times fraction difference), for grids, points, and stacked fields alike. Where elevation or land fraction is missing the full version drops that correction and the simple version gives missing; a missing gradient gives missing. "
  "A computed local gradient equals the value/base regression slope or max-min slope within the window over valid pairs, with the default used when there are too few points or the range (for the regression: the standard deviation of the base) is too small.",
  ["inputs"], "all small grids, elevation/laf patterns incl. missing, gradients incl. missing, halfwidths, minimum counts and ranges within the bound",
  "Only a few field combinations are tested.",
  ["src/api/simple_gradient.cpp", "src/api/gradient.cpp", "src/api/calc_gradient.cpp", "src/api/downscaling.cpp"], [("elevation correction", "src/api/simple_gradient.cpp"), ("moving-window regression", "src/api/calc_gradient.cpp")], [], ["simple_gradient", "full_gradient", "calc_gradient"])

p("P10", "Ensemble-threshold downscaling equals per-member evaluation",
  "Downscaled exceedance probability is the fraction of valid members of the nearest input cell that satisfy the comparison with the output threshold; masked consensus and quantile downscaling give the statistic/quantile of the members after choosing for each member the true or false field by the same comparison. "
  "Smart downscaling averages the prescribed number of neighbours with the highest structure-function correlation to the output location; a missing value among them gives missing. Missing thresholds are not specified.",
  ["inputs"], "all small grids, member counts, comparison operators, statistics and missing patterns within the bound",
  "Tests sample few combinations.",
  ["src/api/downscale_probability.cpp", "src/api/mask_threshold_downscale_consensus.cpp", "src/api/smart.cpp"], [("per-member comparison at nearest cell", "src/api/downscale_probability.cpp")], [], ["downscale_probability", "mask_threshold_downscale_consensus", "mask_threshold_downscale_quantile", "smart"])

p("P11", "Calibration curves are fitted and applied as specified",
  "Applying a curve interpolates linearly between its points, leaves missing values missing, and outside the curve extrapolates with the requested policy (slope one, mean slope, nearest slope, constant, unchanged; slopes of vertical segments are not specified) at each end; field and per-cell versions equal the scalar version cell by cell. "
  "A quantile-mapping curve consists of matching sorted values or quantiles of reference and forecast, and a monotonized curve is a strictly increasing sub-curve of the input that is unchanged if clearly increasing already (by more than the tolerance of 0.1). Quantiles of the sample are its order statistic at the level times the number of values minus one.",
  ["inputs"], "all small curves over a small alphabet (incl. plateaus, decreasing parts and missing), all policies on both ends, all forecast positions",
  "Tests check few curves and positions.",
  ["src/api/curve.cpp", "src/api/quantile_mapping.cpp", "src/api/util.cpp"], [("apply_curve", "src/api/curve.cpp"), ("monotonize_curve", "src/api/curve.cpp"), ("interpolate", "src/api/util.cpp")], [], ["apply_curve", "quantile_mapping_curve", "monotonize_curve", "interpolate"])

p("P12", "Verification scores and optimal thresholds follow the contingency table",
  "Scores are the stated function of the 2x2 contingency table of paired forecast and reference exceedances, missing pairs excluded, and degenerate tables give missing. "
  "The optimal threshold found for a reference threshold gives a score at least as high as each of ten evenly spaced thresholds between the lowest and highest forecast, or is missing when no threshold gives a positive score that differs from the score at both ends; metric-optimised curves pair each threshold with its optimum. The bias score of an empty table is not specified.",
  ["inputs"], "all small contingency tables; all small paired samples over a small alphabet; all metrics",
  "Tests check few tables and series.",
  ["src/api/metric_optimizer.cpp", "src/api/util.cpp"], [("calc_score", "src/api/metric_optimizer.cpp"), ("candidate threshold scan", "src/api/metric_optimizer.cpp")], [], ["calc_score", "get_optimal_threshold", "metric_optimizer_curve"])

p("P13", "Structure functions are consistent correlation models",
  "Every structure function gives correlation 1 for identical locations and otherwise its stated function of horizontal, vertical and land-fraction distance, within [0,1], symmetric for spatially constant scales, and zero beyond its hard distance limit. "
  "Evaluating one pair, one-to-many and a copy of the function gives identical numbers; missing elevation or land fraction does not contribute; products and cross-validation wrappers behave as product and as exclusion of nearby points. "
  "The localization distance is the hard distance limit when there is one and otherwise the distance at which the horizontal correlation reaches the configured minimum. The linear structure function is only defined at zero horizontal distance.",
  ["inputs"], "all structure types, scale parameters over an alphabet, and point pairs over a coordinate/elevation/laf alphabet",
  "Tests sample few points and scales.",
  ["src/api/structure.cpp"], [("corr / corr_background / localization_distance", "src/api/structure.cpp")], [], ["StructureFunction::corr", "corr_background", "localization_distance", "clone"])

p("P14", "Optimal interpolation equals the textbook analysis",
  "The analysis at each location equals the background plus the optimal weights times innovations, using only valid observations with positive background correlation, the strongest-correlated ones first up to the point limit; the analysis variance, when requested, equals the textbook reduced variance and never exceeds the background variance. "
  "Locations no observation reaches keep the background value, missing observations act as if absent, observation order is irrelevant, and without extrapolation the increment is clipped to the range of the innovations used. "
  "Grid and point versions agree at the same locations.",
  ["inputs"], "all small background/observation layouts, values and variances over alphabets, structure functions, point limits and the extrapolation flag",
  "Tests check one to three observations at few values.",
  ["src/api/oi.cpp"], [("local observation selection + matrix solve", "src/api/oi.cpp")], [], ["optimal_interpolation", "optimal_interpolation_full"])

p("P15", "Ensemble optimal interpolation equals the local ensemble analysis",
  "The ensemble analysis at each location equals the reference local ensemble transform computed from valid observations within reach (strongest first, up to the limit) and valid members (a member is used when valid everywhere in the background; an observation when it and the background of all used members at it are valid); locations no observation reaches keep the background members. "
  "Missing observations act as if absent, members missing in the background are left unchanged, observation order is irrelevant, and grid and point versions agree.",
  ["inputs"], "all small layouts, ensembles up to a few members with missing members, observation errors, point limits and the extrapolation flag",
  "Tests check very few ensembles.",
  ["src/api/oi_ensi.cpp"], [("local ensemble transform", "src/api/oi_ensi.cpp")], [], ["optimal_interpolation_ensi"])

p("P16", "Multi-scale ensemble interpolation equals its member-wise analysis",
  "The member-by-member (and common-covariance and utem) ensemble schemes give at each location and member the reference analysis computed from the same local observations, correlations and ratios; locations without usable observations keep the background. "
  "A member is used when valid everywhere in the background and at the observation points. Missing members do not shift the increments of other members, and results are defined for any number of observations relative to background locations.",
  ["inputs"], "all small layouts (including more observations than background points), member counts and missing members",
  "Tests are few and use one layout.",
  ["src/api/oi_ensi_multi.cpp"], [("ebe / ebesc / utem analyses", "src/api/oi_ensi_multi.cpp")], [], ["optimal_interpolation_ensi_multi_*"])

p("P17", "Local searches and local distributions use exactly their neighbourhood",
  "The neighbourhood search replaces a value, where the search value is valid and the apply mask allows it, by the mean of the valid values in the window (clipped to the field) whose search value lies in the target range, else by the valid value closest to the range when that is within search_delta of it, and otherwise leaves it unchanged. "
  "Local distribution correction maps each background value through the quantile curves of observations and background at the observation points, pooled over time, using only valid non-negative pairs within reach, weighted by their correlation and truncated at the quantile limits; cells without any weighted observation (or fewer than min_points) keep their values; surplus observations are ignored. "
  "The neighbourhood score is the metric of the contingency table of the window around each cell, between the forecast and the mean of the observations nearest to each cell; mismatching sizes are rejected.",
  ["inputs"], "all small arrays, windows, target ranges, deltas, apply masks, observation sets and quantile limits within the bound",
  "Tests cover few arrays.",
  ["src/api/neighbourhood_search.cpp", "src/api/local_distribution_correction.cpp", "src/api/neighbourhood_score.cpp"], [("search rule", "src/api/neighbourhood_search.cpp")], [], ["neighbourhood_search", "local_distribution_correction", "neighbourhood_score"])

p("P18", "Transforms are invertible, monotone and missing-safe",
  "Each transform's backward operation inverts its forward operation on its domain (and conversely), forward is non-decreasing, missing values (including infinities) stay missing, and transforming 1D, 2D and 3D arrays equals transforming each element. "
  "The gamma inverse gives the quantile whose cumulative gamma probability is the requested level (infinite for level 1); invalid levels, shapes, scales and mismatching sizes are rejected.",
  ["inputs"], "all transform types, parameters and values over an alphabet including bounds, zero, negatives and missing",
  "Tests sample few values.",
  ["src/api/transform.cpp", "src/api/distribution.cpp"], [("forward/backward", "src/api/transform.cpp")], [], ["Transform::forward", "Transform::backward", "gamma_inv"])

p("P19", "Diagnosed meteorological quantities follow their formulas",
  "Dew point, relative humidity, wet bulb, pressure at another altitude, sea level pressure, QNH, wind speed and wind direction follow their documented formulas, stay within physical limits (humidity between 0 and 1, dew point at most temperature, direction between 0 and 360 degrees and 180 for calm wind), and are mutually consistent (dew point and humidity invert each other to within the accuracy of the formulas; pressure adjustment there and back is the identity; speed and direction give back the components). "
  "Missing input gives missing output (dew point and wet bulb of completely dry air are missing too), except that sea level pressure rejects missing altitude or temperature and unphysical values with an error; the array versions equal the scalar version element by element and reject mismatching sizes.",
  ["inputs"], "all combinations of inputs over physical alphabets including limits, zero and missing",
  "Tests sample few values.",
  ["src/api/humidity.cpp", "src/api/pressure.cpp", "src/api/qnh.cpp", "src/api/wind.cpp"], [("scalar formulas wrapped by array loops", "src/api/humidity.cpp")], [], ["dewpoint", "relative_humidity", "wetbulb", "pressure", "sea_level_pressure", "qnh", "wind_speed", "wind_direction"])

p("P20", "Results do not depend on thread count or schedule",
  "Every library operation that runs in parallel gives bit-for-bit the same result for every number of threads, every assignment of iterations to threads and every interleaving of their steps, equal to the single-threaded result.",
  ["schedules"], "all interleavings of conflicting accesses of 2-3 threads, every chunk assignment, small workloads for every parallel operation",
  "Tests run one uncontrolled schedule; races manifest only under particular interleavings.",
  ["src/api/*.cpp"], [("OpenMP parallel loops with private variables", "src/api/*.cpp")], [("shared accumulators", "variables declared outside but written inside parallel loops")], ["all parallel operations"])

p("P21", "Malformed input is rejected with an error, never by crashing",
  "Library operations given inconsistent sizes, out-of-range parameters (negative halfwidths, radii, counts, quantile levels, scales) or mismatching coordinate types raise a catchable error; they never terminate the process or read outside their inputs, and empty inputs give empty or missing output.",
  ["inputs", "configurations"], "every public operation with each single argument replaced by each malformed variant (empty, too short, too long, ragged-free mismatch, negative, missing)",
  "Tests check a few malformed arguments of a few functions.",
  ["src/api/*.cpp"], [("size and parameter checks at function entry", "src/api/*.cpp")], [], ["all public operations"])

p("P22", "Location metadata is preserved by construction, copying and subsetting",
  "Point sets and grids return exactly the latitudes, longitudes, elevations, land fractions and coordinate type they were built with; copies, subsets, domain selections and grid-to-points conversion keep the association between location and metadata in order. "
  "Coordinate conversion places geodetic points on a sphere of the earth's radius and Cartesian points at their x and y, and an optional omitted field reads as missing of the right size.",
  ["inputs"], "all small point sets/grids over alphabets, all index subsets, all in-domain masks",
  "Tests check one set.",
  ["src/api/points.cpp", "src/api/grid.cpp", "src/api/point.cpp", "src/api/kdtree.cpp"], [("subset / to_points / get_in_domain", "src/api/points.cpp")], [], ["Points", "Grid", "Point", "convert_coordinates"])

# ------------------------------------------------------------------ client
p("P23", "Option strings parse to the values written in them",
  "An option string of whitespace-separated key=value pairs yields exactly the written keys and values (the last one wins when a key is repeated, a key without '=' means 1, an entry with an empty key or value adds nothing), with the requested conversion (number, text, comma-separated list), the caller's default for absent keys, and failed mandatory lookups rejected with an error; options render back to an equivalent string. "
  "Unused-key reporting lists exactly the keys never read, and copies or later additions do not disturb existing keys.",
  ["inputs", "histories"], "all short sequences of parse/add/get/clear operations over a small alphabet of keys, values and separators",
  "Tests try few strings and sequences.",
  ["src/client/Options.cpp", "src/client/Util.cpp"], [("token parsing", "src/client/Options.cpp")], [("key/value list and accessed keys", "parser state")], ["Options"])

p("P24", "The command line is interpreted as the usage text says",
  "A command line of input/output options, variables, each with its downscaler, calibrators, parameter files and options is interpreted so that every option attaches to exactly the component it follows; options or parameter files never leak from one component or variable to the next. "
  "Unknown schemes, missing arguments and misplaced flags are rejected with an error, and the order of the variables and calibrators is preserved.",
  ["histories"], "all token sequences up to a depth from a small vocabulary of flags and arguments",
  "Tests try a few dozen command lines; the parser is a state machine whose transitions interact over several tokens.",
  ["src/client/Setup.cpp", "src/client/Variable.cpp"], [("argument state machine", "src/client/Setup.cpp")], [("parser state", "expecting variable/downscaler/calibrator/...")], ["Setup"])

p("P25", "Parameter files store and return the right parameters",
  "Parameters written to a parameter file are read back unchanged for every location and lead time; lookups return the entry of the nearest location and of the requested time, falling back for location-independent and time-independent files as documented. "
  "Setting or overwriting one entry never changes another, and lookups without an entry give parameters without values.",
  ["histories", "inputs"], "all short sequences of set/get/write/read over a few locations and times",
  "Tests check one file layout each.",
  ["src/client/ParameterFile/*.cpp", "src/client/Parameters.cpp", "src/client/Location.cpp", "src/client/KDTree.cpp"], [("map keyed on location", "src/client/ParameterFile/ParameterFile.cpp"), ("text and netcdf readers/writers", "src/client/ParameterFile/*.cpp")], [("location to parameters map", "contents")], ["ParameterFile::getParameters", "setParameters", "write"])

p("P26", "Forecast file contents survive the file abstraction",
  "A field set on a file object is returned by later reads of that variable and time and no other, and writing then reopening the file gives back the same values, missing values, times, coordinates and metadata, also with scaling, unlimited or permuted dimensions, and without touching variables not written. "
  "Fields in derived variables and cached reads always reflect the last written state.",
  ["histories"], "all short sequences of get/add/set/clear/write/reopen operations over a few variables and times, across file formats",
  "Tests run one sequence per format.",
  ["src/client/File/*.cpp"], [("field cache", "src/client/File/File.cpp"), ("netcdf scaling and missing value translation", "src/client/File/Netcdf.cpp")], [("field cache", "fields per variable and time")], ["File", "FileNetcdf", "FilePoint", "FileText"])

p("P27", "Client downscalers pick and combine the right grid points",
  "Each command-line downscaler gives each output location the value its definition prescribes from the input grid (nearest, bilinear of the surrounding four, nearest plus elevation/land gradient, mean of best-matching neighbours, mean of inputs nearest to the cell, pressure adjusted), for every member and time, with missing values handled as defined. "
  "Nearest lookups equal an exhaustive search and are not affected by earlier lookups on other grids.",
  ["inputs", "histories"], "all small input/output grids, value/missing patterns, and sequences of lookups on alternating grids",
  "Tests use a few fixtures; the neighbour cache and geometry matter only for particular sequences and layouts.",
  ["src/client/Downscaler/*.cpp", "src/client/KDTree.cpp"], [("neighbour cache keyed on grid identity", "src/client/Downscaler/Downscaler.cpp")], [("neighbour cache", "per grid pair lookup tables")], ["Downscaler::downscale"])

p("P28", "Point-wise client calibrators transform each value as defined",
  "Quality control, thresholding, sorting, phase, cloud, altitude, wind and humidity diagnosis, regression, quantile mapping and similar calibrators change each value only as their definition prescribes from the same location, time and member, and missing values stay missing. "
  "Values of other variables, locations, times and members are left untouched.",
  ["inputs", "configurations"], "all values/missing patterns over small alphabets on tiny grids with all option combinations",
  "Tests use a few values per calibrator.",
  ["src/client/Calibrator/*.cpp"], [("calibrateCore loops", "src/client/Calibrator/*.cpp")], [], ["Calibrator::calibrate"])

p("P29", "Window, neighbourhood and accumulation calibrators use the right cells",
  "Temporal windows, accumulation, deaccumulation, spatial neighbourhood statistics and masks computed by the command-line calibrators equal the direct computation over exactly the prescribed times, cells and members, with edges truncated and missing values skipped as defined; deaccumulating an accumulated field gives the field back.",
  ["inputs", "configurations"], "all values/missing patterns over small alphabets on small grids and time axes, with all window sizes and statistics",
  "Tests use a few fixtures.",
  ["src/client/Calibrator/Window.cpp", "src/client/Calibrator/Neighbourhood.cpp", "src/client/Calibrator/Accumulate.cpp", "src/client/Calibrator/Deaccumulate.cpp", "src/client/Calibrator/Mask.cpp", "src/client/Calibrator/Override.cpp"], [("window loops", "src/client/Calibrator/*.cpp")], [], ["Calibrator::calibrate"])

p("P30", "Probabilistic calibration keeps ensemble ranks and valid quantiles",
  "Distribution-based calibrators give each member a value consistent with the prescribed distribution at the member's rank, so members keep their rank order across calibration, results are non-decreasing in rank, lie in the variable's valid range and are unchanged or missing where parameters or members are invalid. "
  "Rank shuffling reorders the new values so that their rank order is that of the original members.",
  ["inputs"], "all small ensembles over an alphabet with ties and missing values, and parameter alphabets",
  "Tests sample few ensembles.",
  ["src/client/Calibrator/Zaga.cpp", "src/client/Calibrator/Gaussian.cpp", "src/client/Calibrator/Bct.cpp", "src/client/Calibrator/Calibrator.cpp", "src/client/Calibrator/Sort.cpp"], [("shuffle", "src/client/Calibrator/Calibrator.cpp"), ("quantile functions", "src/client/Calibrator/*.cpp")], [], ["Calibrator::shuffle", "calibrate"])

p("P31", "The command-line run applies the requested chain to the output file",
  "Running the command-line program writes to the output file exactly the result of downscaling each requested variable from the input and then applying its calibrators in order, honouring write flags, aliases, units and time selection; other variables in the output stay untouched. "
  "An erroneous invocation ends with a non-zero status and an error message.",
  ["configurations", "histories"], "all short chains of downscaler and calibrators over tiny files",
  "Tests never run the program end to end.",
  ["src/client/Driver/Gridpp.cpp", "src/client/Setup.cpp", "src/client/File/*.cpp"], [("driver loop", "src/client/Driver/Gridpp.cpp")], [], ["gridpp executable"])

p("P32", "Date, time, number and text utilities are mutually consistent",
  "Converting between calendar dates/times and seconds since epoch is a bijection consistent with the calendar, date arithmetic agrees with it, and text splitting, number formatting, logit/inverse logit, sorting and interpolation helpers of the command-line tool follow their definitions for every input, with missing input giving missing output.",
  ["inputs"], "all dates in a range including leap days and year ends, all hours; all small lists/strings over alphabets",
  "Tests sample a few dates and strings.",
  ["src/client/Util.cpp"], [("date conversion and helpers", "src/client/Util.cpp")], [], ["Util"])

p("P33", "Python bindings pass arrays through without changing them",
  "Calling any operation through the Python module with lists, arrays of any floating or integer type, memory order, strides or slices gives the same result as with a contiguous single-precision array, never modifies the caller's arrays, and returns arrays with the shape and values the library produced. "
  "Wrong dimensionality or type raises an exception rather than returning garbage or ending the process; results belong to the caller, objects outlive the arrays and objects they were made from, and calls do not lose memory.",
  ["inputs", "histories"], "all combinations of dtype, memory layout, slicing, and shapes (including empty) for each argument pattern; histories of creating, changing and dropping objects, arrays and results",
  "Tests pass mostly contiguous arrays.",
  ["swig/vector.i", "swig/gridpp.i"], [("numpy typemaps", "swig/vector.i")], [], ["python module"])

p("P34", "Client optimal interpolation and kriging spread corrections as specified",
  "The command-line optimal interpolation writes, at every cell, the analysis that the optimal-interpolation equations give from the background, the observations with their error ratios and the correlation of distance, elevation and land fraction, using exactly the observations within reach and limits; kriging spreads the correction of each parameter location with kriging weights and applies it by the chosen operator. "
  "Invalid observations and background values never count as numbers, and cells without usable information keep their value.",
  ["inputs", "configurations"], "all small grids, station layouts, missing patterns and option combinations over small alphabets",
  "Tests check few fixtures and mostly one station.",
  ["src/client/Calibrator/Oi.cpp", "src/client/Calibrator/Kriging.cpp"], [("observation selection and solve", "src/client/Calibrator/Oi.cpp"), ("weights and operators", "src/client/Calibrator/Kriging.cpp")], [], ["CalibratorOi::calibrate", "CalibratorKriging::calibrate"])

p("P35", "Training of calibrators estimates what the calibration then uses",
  "Training a calibrator from pairs of observations and ensemble forecasts gives the parameters defined by its method: least-squares coefficients for regression and coastal, sorted pairs or quantiles for quantile mapping, the mean bias for kriging, and for distribution-based methods parameters whose likelihood is not noticeably below the best. "
  "Pairs with missing observations or forecasts have no influence and never end the program; without valid data training is refused or gives no correction.",
  ["inputs"], "all data sets of up to 3 (4) pairs over an alphabet with missing values, all options; larger data sets with deviations",
  "Tests do not exercise training.",
  ["src/client/Calibrator/Regression.cpp", "src/client/Calibrator/Qq.cpp", "src/client/Calibrator/Kriging.cpp", "src/client/Calibrator/Coastal.cpp", "src/client/Calibrator/Gaussian.cpp", "src/client/Calibrator/Zaga.cpp", "src/client/Calibrator/Calibrator.cpp"], [("train", "src/client/Calibrator/*.cpp")], [], ["Calibrator::train"])

p("P36", "Shape checks, lookups and coordinate helpers follow their definitions",
  "Compatibility checks accept exactly arrays of equal shape, sorted lookups return the nearest enclosing entries, coordinates convert to earth-centred positions and are refused exactly when invalid, a point is reported inside a rectangle exactly when it is, and initialised arrays have the requested shape and value.",
  ["inputs"], "all shapes, sorted arrays, coordinates and rectangles of small alphabets",
  "Tests try a handful of shapes and points.",
  ["src/api/util.cpp"], [("helpers", "src/api/util.cpp")], [], ["compatible_size", "get_lower_index", "get_upper_index", "convert_coordinates", "point_in_rectangle"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
