"""The registered checks: property id -> how to build and run its harness."""
CHECKS = {}
NOT_APPLICABLE = {}

def api(pid, harness, needs, assumptions=(), flags=(), libs=()):
    CHECKS[pid] = dict(build=lambda m: m.build_api(pid, harness, needs, flags, libs), assumptions=list(assumptions))

def sched(pid, harness, assumptions=()):
    CHECKS[pid] = dict(build=lambda m: m.build_sched(pid, harness), assumptions=list(assumptions))

def client(pid, harness, assumptions=(), flags=(), libs=()):
    CHECKS[pid] = dict(build=lambda m: m.build_client(pid, harness, flags, libs), assumptions=list(assumptions))

FLOAT = "results are compared with a double-precision reference within a single-precision tolerance"
ONE = "functional harnesses run with one OpenMP thread; schedules are covered by P20"

api("P01", "p01.cpp", ["distance", "count"], [FLOAT, ONE, "locations closer than 3 m are not distinguished in geodetic coordinates (single-precision earth-centred coordinates)"])
api("P02", "p02.cpp", [], [FLOAT])
api("P03", "p03.cpp", ["neighbourhood"], [FLOAT, ONE])
api("P05", "p05.cpp", ["window"], [FLOAT, ONE])
api("P04", "p04.cpp", ["neighbourhood"], [FLOAT, ONE, "members of an ensemble cell are weighted within the cell, cells equally within the window"])
api("P06", "p06.cpp", ["fill", "doping"], [FLOAT, ONE, "cells within 3 m of a circle edge and equidistant nearest cells are not judged"])
api("P07", "p07.cpp", ["gridding"], [FLOAT, ONE, "observations within 3 m of the radius and equidistant nearest cells are not judged"])
api("P08", "p08.cpp", ["nearest", "bilinear", "downscaling"], [FLOAT, ONE, "positions whose containing cell does not touch their nearest grid point are not judged for bilinear", "positions within single-precision accuracy of the outer boundary may count as outside", "cells are quadrilaterals in latitude/longitude; grids crossing the dateline are outside the bound"])
api("P09", "p09.cpp", ["simple_gradient", "gradient", "calc_gradient", "downscaling", "nearest", "bilinear", "neighbourhood"], [FLOAT, ONE, "either of several cells with the same extreme base value may be used by the max-min gradient", "the regression range is the standard deviation of the base (documented in the code); ranges within 0.1% of the limit are not judged"])
api("P10", "p10.cpp", ["downscale_probability", "mask_threshold_downscale_consensus", "smart", "structure", "corr_points"], [FLOAT, ONE, "outputs equally near two cells, and smart neighbours with equal correlation at the cut, are not judged", "missing thresholds are unspecified"])
api("P11", "p11.cpp", ["curve", "quantile_mapping"], [FLOAT, ONE, "forecast values of a curve are sorted; slope policies are unspecified where the slope is vertical", "monotonize: values closer than the 0.1 tolerance of the code may or may not count as increasing"])
api("P12", "p12.cpp", ["metric_optimizer"], [FLOAT, "the score is piecewise constant in the threshold: the optimum is only required to be at least as good as ten evenly spaced candidates, and thresholds within single-precision accuracy of a forecast value are judged on either side of it", "the bias score of an empty table is unspecified"])
api("P13", "p13.cpp", ["structure", "corr_points"], [FLOAT, ONE, "distances within 1% of the truncation distance are not judged", "horizontal scale 0 is only judged for spatial fields"])
api("P14", "p14.cpp", ["oi", "structure"], [FLOAT, ONE, "correlations are those of the structure function (checked by P13)", "ill-conditioned systems, ties at the point limit and observations at the edge of the localization distance are not judged", "a clipped increment equals the innovation it is clipped to"])
api("P15", "p15.cpp", ["oi_ensi", "structure"], [FLOAT, ONE, "correlations are those of the structure function (checked by P13)", "ties at the point limit and observations at the edge of the localization distance are not judged", "a member is used when it is valid everywhere in the background; an observation when it and the background of all used members there are valid"])
api("P16", "p16.cpp", ["oi_ensi_multi", "structure"], [FLOAT, ONE, "correlations are those of the structure function (checked by P13)", "ties at the point limit, observations at the edge of the localization distance and ill-conditioned systems are not judged", "utem with a single usable member is unspecified"])
api("P17", "p17.cpp", ["neighbourhood_search", "local_distribution_correction", "neighbourhood_score", "structure"], [FLOAT, ONE, "correlations are those of the structure function (checked by P13)", "quantile limits that leave no pair are not judged; equal values with different weights at a cut are not judged", "the bias score of an empty table is unspecified"])
api("P18", "p18.cpp", ["distribution", "transform"], [FLOAT, ONE, "values whose transformed value is infinite (0 for log) are not judged, and gamma variables only up to 600 scales", "inverses are judged within the single-precision conditioning of the transform"])
api("P19", "p19.cpp", ["humidity", "pressure", "qnh", "wind"], [FLOAT, ONE, "temperatures below 150 K are not judged by the humidity formulas (except where wet bulb is documented as missing)", "the table of relative_humidity and the formula of dewpoint agree within 8%"])
sched("P20", "p20.cpp", ["memory accesses are those of the library's own code as compiled at -O1 (accesses inside the C library, BLAS and LAPACK other than memory copies are not seen)", "interleavings are explored at the conflicting accesses with at most two preemptions and 100 scheduling points; without conflicting accesses all interleavings are equivalent", "the random choice statistic is excluded"])
api("P21", "p21.cpp", ["oi"], [ONE], flags=["-fsanitize=address"], libs=["-fsanitize=address"])
api("P22", "p22.cpp", ["points"], [ONE])
CLIENT = "the client is compiled without OpenMP (an error inside a parallel loop could not be intercepted); its schedules are not explored"
NC = ["-Wl,--wrap=nc_open,--wrap=nc_create,--wrap=nc_close"]
client("P23", "p23.cpp", [CLIENT, "text that is not a number has an unspecified numeric value"])
client("P24", "p24.cpp", [CLIENT, "errors inside a variable that is ignored because it was given before may or may not be reported", "the options of a downscaler can only be observed through its debug flag"], libs=NC)
client("P25", "p25.cpp", [CLIENT, "locations whose distances differ by less than 5 m may be confused", "an entry that holds missing values is an entry; absent entries of a NetCDF parameter file are stored as missing values", "lookups follow recomputeTree, as documented"], libs=NC)
client("P26", "p26.cpp", [CLIENT, "files in the classic NetCDF format", "a variable without an ensemble dimension holds the first member only", "point files are read by row, text files hold one variable"], libs=NC)
client("P27", "p27.cpp", [CLIENT, FLOAT, "either of several grid points within 5 m of the smallest distance may be the nearest", "grids across the dateline are only judged for lookups, not for interpolation", "either of several neighbours with the same elevation difference (smart) or land fraction (gradient) may be used"], libs=NC)
client("P28", "p28.cpp", [CLIENT, FLOAT, "parameter tables in which a location lacks parameters at one time may be used or rejected", "diagnosed humidity variables are judged to within the differences between common approximations (0.5 K and more for dewpoint, 0.03 for relative humidity)", "the slope of quantile mapping is unspecified where the points that give it have identical forecasts"], libs=NC)
client("P29", "p29.cpp", [CLIENT, FLOAT, "approximate medians and quantiles (approx=1) are only judged to lie within the range of the neighbourhood", "where several points override one cell either value is accepted", "mask radii within 5 m + 0.2 % of a distance are not judged"], libs=NC)
client("P30", "p30.cpp", [CLIENT, FLOAT, "for extreme distribution parameters (far outside what training gives) only range, order and keeping the raw values are judged"], libs=NC)
client("P31", "p31.cpp", [CLIENT, FLOAT, "NetCDF files of two layouts; the calibrators in the chains are qc, sort, regression, neighbourhood, accumulate and diagnoseWind"], libs=NC)
client("P32", "p32.cpp", [CLIENT, FLOAT, "years 1601 to 2600 (thorough 1401 to 9998)", "regression without a unique solution must only not crash"], libs=NC)
CHECKS["P33"] = dict(build=lambda m: m.build_py("P33", "p33.py"), assumptions=["numbers inside lists are Python numbers or numpy doubles; other number objects must give the same result or be refused", "values that numpy itself converts (dates, complex numbers, objects) may be accepted", "one-shot iterators are not sequences and not judged"])
client("P34", "p34.cpp", [CLIENT, FLOAT, "ties at the point limit, observations at the edge of the localization distance and ill-conditioned systems are not judged", "transformed (Box-Cox) single mode is only judged for range and missing values", "members missing in some cells only are not judged in ensemble mode", "the options bias, delta and number of observations as variables and saveDiff are not covered"], libs=NC)
client("P35", "p35.cpp", [CLIENT, FLOAT, "data sets without a unique least-squares solution or with an unbounded likelihood are only judged for not failing", "the likelihood may be below the best by 0.05 per pair (the optimiser of the code stops at a tolerance)"], libs=NC)
api("P36", "p36.cpp", ["points"], [ONE])
