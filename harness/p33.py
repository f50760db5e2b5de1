"""P33: the Python module hands values over faithfully in both directions."""
import ctypes, gc, sys, warnings
import numpy as np
import gridpp
from mcpy import *

warnings.simplefilter("ignore")
np.seterr(all="ignore")
libc = ctypes.CDLL(None)
class Mallinfo2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc.mallinfo2.restype = Mallinfo2

# ---------------------------------------------------------------------------------------------- fixtures and functions
F = np.float32
GLA = [[0., 0, 0], [1, 1, 1]]; GLO = [[0., 1, 2], [0, 1, 2]]
HLA = [[0., 0], [1, 1], [2, 2]]; HLO = [[0., 1], [0, 1], [0, 1]]
PLA = [0., 1, 1]; PLO = [0., 0, 2]
EL2 = [[0., 1, 2], [3, 1, 0]]; LF2 = [[0., 1, 1], [0, 0, 1]]
f32 = lambda x: np.array(x, F)
GRID = gridpp.Grid(f32(GLA), f32(GLO), f32(EL2), f32(LF2))
OGRID = gridpp.Grid(f32(HLA), f32(HLO), f32([[0, 1], [2, 1], [0, 3]]), f32([[0, 1], [1, 1], [0, 0]]))
POINTS = gridpp.Points(f32(PLA), f32(PLO), f32([1, 2, 3]), f32([0, 1, 1]))
STRUCT = gridpp.BarnesStructure(200000.0)
V1 = [2., 0, 1]; V1b = [3., 1, 0]; SORTED = [0., 1, 3]; V2 = [[1., 0, 2], [3, 1, 0]]; V2b = [[0., 1, 1], [2, 0, 1]]; V2e = [[1., 0], [2, 3], [0, 1]]
V3 = [[[1., 0], [2, 1], [0, 3]], [[3., 1], [1, 1], [2, 0]]]
V3t = [[[1., 0, 2], [3, 1, 0]], [[0., 1, 1], [2, 0, 3]]]; V3tb = [[[0., 1, 1], [0, 2, 0]], [[1., 3, 0], [0, 1, 2]]]
V3b = [[[0., 1], [1, 0], [2, 1]], [[1., 3], [0, 0], [1, 2]]]
V3r = [[[0., 1, 2]] * 3] * 2; V3f = [[[1., 0, 2]] * 3] * 2
class A:  # an array argument
    def __init__(s, vals, kind="f"):
        s.vals = vals; s.kind = kind; s.nd = np.ndim(vals)
def f1(v=V1): return A(v)
def f2(v=V2): return A(v)
def f3(v=V3): return A(v)
def i1(v): return A(v, "i")
def i2(v): return A(v, "i")
def pts(o):
    if isinstance(o, gridpp.Grid):
        return [o.get_lats(), o.get_lons(), o.get_elevs(), o.get_lafs(), list(o.size())]
    return [o.get_lats(), o.get_lons(), o.get_elevs(), o.get_lafs(), o.size()]
SPECS = [
    ("Points", lambda *a: pts(gridpp.Points(*a)), [f1([0., 1, 2]), f1([1., 0, 3]), f1([3., 2, 1]), f1([0., 1, 0])], lambda a: [a[0], a[1], a[2], a[3], 3]),
    ("Points.short", lambda *a: pts(gridpp.Points(*a))[:2], [f1([0., 1, 2]), f1([1., 0, 3])], lambda a: [a[0], a[1]]),
    ("Points.tree", lambda a, b: pts(gridpp.Points(gridpp.KDTree(a, b)))[:2], [f1([0., 1, 2]), f1([1., 0, 3])], lambda a: [a[0], a[1]]),
    ("Grid", lambda *a: pts(gridpp.Grid(*a))[:4], [f2(GLA), f2(GLO), f2(EL2), f2(LF2)], lambda a: a),
    ("KDTree", lambda *a: (lambda t: [t.get_lats(), t.get_lons()])(gridpp.KDTree(*a)), [f1(PLA), f1(PLO)], lambda a: a),
    ("KDTree.cart", lambda a, b: gridpp.KDTree(a, b, gridpp.Cartesian).get_neighbours_with_distance(0, 0, 1.5), [f1(PLA), f1(PLO)], None),
    ("Points.neigh", lambda a, b: gridpp.Points(a, b).get_closest_neighbours(1, 1.1, 2), [f1(PLA), f1(PLO)], None),
    ("Points.subset", lambda i: pts(POINTS.subset(i)), [i1([2, 0, 1])], None),
    ("Grid.neigh", lambda a, b: gridpp.Grid(a, b).get_closest_neighbours(1, 1.1, 3), [f2(GLA), f2(GLO)], None),
    ("nearest.gg2", lambda v: gridpp.nearest(GRID, GRID, v), [f2()], lambda a: a[0]),
    ("nearest.gg3", lambda v: gridpp.nearest(GRID, GRID, v), [f3(V3t)], lambda a: a[0]),
    ("nearest.gp2", lambda v: gridpp.nearest(GRID, POINTS, v), [f2()], lambda a: np.array(a[0])[[0, 1, 1], [0, 0, 2]]),
    ("nearest.gp3", lambda v: gridpp.nearest(GRID, POINTS, v), [f3(V3t)], lambda a: np.array(a[0])[:, [0, 1, 1], [0, 0, 2]]),
    ("nearest.pp1", lambda v: gridpp.nearest(POINTS, POINTS, v), [f1()], lambda a: a[0]),
    ("nearest.pp2", lambda v: gridpp.nearest(POINTS, POINTS, v), [f2([[1., 2, 3], [0, 1, 2]])], lambda a: a[0]),
    ("nearest.pg1", lambda v: gridpp.nearest(POINTS, GRID, v), [f1()], None),
    ("nearest.pg2", lambda v: gridpp.nearest(POINTS, GRID, v), [f2([[1., 2, 3], [0, 1, 2]])], None),
    ("downscaling.gg2", lambda v: gridpp.downscaling(GRID, OGRID, v, gridpp.Bilinear), [f2()], None),
    ("bilinear.gg3", lambda v: gridpp.bilinear(GRID, OGRID, v), [f3(V3t)], None),
    ("bilinear.gp2", lambda v: gridpp.bilinear(GRID, POINTS, v), [f2()], None),
    ("simple_gradient", lambda v: gridpp.simple_gradient(GRID, OGRID, v, 0.5), [f2()], None),
    ("full_gradient.gg2", lambda v, e, l: gridpp.full_gradient(GRID, OGRID, v, e, l), [f2(), f2(V2b), f2([[1., 1, 0], [0, 2, 1]])], None),
    ("full_gradient.gp3", lambda v, e, l: gridpp.full_gradient(GRID, POINTS, v, e, l), [f3(V3t), f3(V3tb), f3(V3tb)], None),
    ("full_gradient_debug", lambda v, e, l: gridpp.full_gradient_debug(GRID, OGRID, v, e, l), [f2(), f2(V2b), f2([[1., 1, 0], [0, 2, 1]])], None),
    ("smart", lambda v: gridpp.smart(GRID, OGRID, v, 3, STRUCT), [f2()], None),
    ("neighbourhood.2", lambda v: gridpp.neighbourhood(v, 0, gridpp.Mean), [f2()], lambda a: a[0]),
    ("neighbourhood.3", lambda v: gridpp.neighbourhood(v, 1, gridpp.Max), [f3()], None),
    ("neighbourhood_quantile_fast.22", lambda v, q, t: gridpp.neighbourhood_quantile_fast(v, q, 1, t), [f2(), f2([[0., 1, 1], [1, 0, 1]]), f1(SORTED)], None),
    ("neighbourhood_quantile_fast.3", lambda v, t: gridpp.neighbourhood_quantile_fast(v, 0.5, 1, t), [f3(), f1(SORTED)], None),
    ("get_neighbourhood_thresholds", lambda v: gridpp.get_neighbourhood_thresholds(v, 3), [f2()], None),
    ("neighbourhood_search", lambda a, s, m: gridpp.neighbourhood_search(a, s, 1, 1, 3, 0.1, m), [f2(), f2(V2b), i2([[1, 0, 1], [1, 1, 0]])], None),
    ("calc_gradient", lambda a, b: gridpp.calc_gradient(a, b, gridpp.MinMax, 1), [f2(), f2(V2b)], None),
    ("fill", lambda v, r: gridpp.fill(GRID, v, POINTS, r, 2, False), [f2(), f1([1., 0, 2])], None),
    ("fill_missing", lambda v: gridpp.fill_missing(v), [f2()], lambda a: a[0]),
    ("doping_square", lambda v, o, h: gridpp.doping_square(GRID, v, POINTS, o, h), [f2(), f1(V1b), i1([0, 1, 0])], None),
    ("doping_circle", lambda v, o, h: gridpp.doping_circle(GRID, v, POINTS, o, h), [f2(), f1(V1b), f1([1., 0, 2])], None),
    ("gridding", lambda v: gridpp.gridding(GRID, POINTS, v, 150000, 1, gridpp.Mean), [f1()], None),
    ("gridding.points", lambda v: gridpp.gridding(POINTS, POINTS, v, 150000, 1, gridpp.Mean), [f1()], None),
    ("gridding_nearest", lambda v: gridpp.gridding_nearest(GRID, POINTS, v, 1, gridpp.Mean), [f1()], None),
    ("optimal_interpolation", lambda b, o, r, p: gridpp.optimal_interpolation(GRID, b, POINTS, o, r, p, STRUCT, 3), [f2(), f1(V1), f1([1., 2, 1]), f1(V1b)], None),
    ("optimal_interpolation.points", lambda b, o, r, p: gridpp.optimal_interpolation(POINTS, b, POINTS, o, r, p, STRUCT, 3), [f1(SORTED), f1(V1), f1([1., 2, 1]), f1(V1b)], None),
    ("optimal_interpolation_full", lambda b, v, o, ov, p, pv: gridpp.optimal_interpolation_full(GRID, b, v, POINTS, o, ov, p, pv, STRUCT, 3), [f2(), f2([[1., 1, 2], [1, 3, 1]]), f1(V1), f1([1., 2, 1]), f1(V1b), f1([1., 1, 2])], None),
    ("optimal_interpolation_full.points", lambda b, v, o, ov, p, pv: gridpp.optimal_interpolation_full(POINTS, b, v, POINTS, o, ov, p, pv, STRUCT, 3), [f1(SORTED), f1([1., 3, 1]), f1(V1), f1([1., 2, 1]), f1(V1b), f1([1., 1, 2])], None),
    ("optimal_interpolation_ensi", lambda b, o, r, p: gridpp.optimal_interpolation_ensi(GRID, b, POINTS, o, r, p, STRUCT, 3), [f3(), f1(V1), f1([1., 2, 1]), f2(V2e)], None),
    ("ensi_multi_ebe", lambda br, b, bc, po, pr, pb, pc: gridpp.optimal_interpolation_ensi_multi_ebe(POINTS, br, b, bc, POINTS, po, pr, pb, pc, STRUCT, 3), [f1([1., 1, 2]), f2(V2e), f2(V2e), f2(V2e), f1([1., 2, 1]), f2(V2e), f2(V2e)], None),
    ("staticcorr", lambda la, lo: gridpp.staticcorr_points(gridpp.Points(la, lo), POINTS, STRUCT, 3), [f1(PLA), f1([0., 1, 2])], None),
    ("local_distribution_correction", lambda b, o, p: gridpp.local_distribution_correction(GRID, b, POINTS, o, p, STRUCT, 0.1, 0.9), [f2(), f1(V1), f1(V1b)], None),
    ("local_distribution_correction.2", lambda b, o, p: gridpp.local_distribution_correction(GRID, b, POINTS, o, p, STRUCT, 0.1, 0.9), [f2(), f2([[1., 2, 3], [0, 1, 2]]), f2([[1., 1, 3], [2, 1, 2]])], None),
    ("gamma_inv", lambda l, a, b: gridpp.gamma_inv(l, a, b), [f1([0., 0, 0]), f1([1., 2, 3]), f1([1., 1, 2])], None),
    ("quantile_mapping_curve", lambda r, f: gridpp.quantile_mapping_curve(r, f), [f1(V1), f1(V1b)], lambda a: [sorted(a[0]), sorted(a[1])]),
    ("quantile_mapping_curve.q", lambda r, f, q: gridpp.quantile_mapping_curve(r, f, q), [f1(V1), f1(V1b), f1([0., 1])], None),
    ("metric_optimizer_curve", lambda r, f, t: gridpp.metric_optimizer_curve(r, f, t, gridpp.Ets), [f1([0., 1, 3, 2, 0]), f1([0., 2, 3, 1, 1]), f1([1., 2])], None),
    ("apply_curve.1", lambda v, r, f: gridpp.apply_curve(v, r, f, gridpp.OneToOne, gridpp.Zero), [f1(V1), f1([0., 2, 3]), f1(SORTED)], None),
    ("apply_curve.2", lambda v, r, f: gridpp.apply_curve(v, r, f, gridpp.OneToOne, gridpp.Zero), [f2(), f1([0., 2, 3]), f1(SORTED)], None),
    ("apply_curve.3", lambda v, r, f: gridpp.apply_curve(v, r, f, gridpp.OneToOne, gridpp.Zero), [f2(), f3(V3r), f3(V3f)], None),
    ("apply_curve.0", lambda r, f: gridpp.apply_curve(1.5, r, f, gridpp.OneToOne, gridpp.Zero), [f1([0., 2, 3]), f1(SORTED)], None),
    ("monotonize_curve", lambda r, f: gridpp.monotonize_curve(r, f), [f1(SORTED), f1([0., 2, 3])], None),
    ("get_optimal_threshold", lambda r, f: gridpp.get_optimal_threshold(r, f, 1.5, gridpp.Ets), [f1([0., 1, 3, 2, 0]), f1([0., 2, 3, 1, 1])], None),
    ("calc_score", lambda r, f: gridpp.calc_score(r, f, 1, gridpp.Ets), [f1([0., 1, 3, 2, 0]), f1([0., 2, 3, 1, 1])], None),
    ("downscale_probability", lambda v, t: gridpp.downscale_probability(GRID, OGRID, v, t, gridpp.Gt), [f3(), f2(V2e)], None),
    ("mask_consensus", lambda a, b, c, t: gridpp.mask_threshold_downscale_consensus(GRID, OGRID, a, b, c, t, gridpp.Gt, gridpp.Mean), [f3(), f3(V3b), f3(), f2(V2e)], None),
    ("neighbourhood_score", lambda f, r: gridpp.neighbourhood_score(GRID, POINTS, f, r, 1, gridpp.Ets, 0.5), [f2(), f1(V1)], None),
    ("dewpoint", lambda t, h: gridpp.dewpoint(t, h), [f1([270., 280, 290]), f1([1., 1, 0])], None),
    ("pressure", lambda *a: gridpp.pressure(*a), [f1([0., 10, 20]), f1([5., 5, 5]), f1([100., 101, 102]), f1([280., 281, 282])], None),
    ("wind_speed", lambda x, y: gridpp.wind_speed(x, y), [f1([3., 0, 1]), f1([4., 2, 0])], lambda a: [5., 2, 1]),
    ("wetbulb", lambda *a: gridpp.wetbulb(*a), [f1([270., 280, 290]), f1([100., 101, 102]), f1([1., 1, 0])], None),
    ("calc_statistic.1", lambda v: gridpp.calc_statistic(v, gridpp.Sum), [f1()], lambda a: sum(a[0])),
    ("calc_statistic.2", lambda v: gridpp.calc_statistic(v, gridpp.Sum), [f2()], lambda a: [sum(r) for r in a[0]]),
    ("calc_quantile.1", lambda v: gridpp.calc_quantile(v, 0.5), [f1()], lambda a: sorted(a[0])[1]),
    ("calc_quantile.3", lambda v, q: gridpp.calc_quantile(v, q), [f3(), f2([[0., 1, 1], [1, 0, 0]])], None),
    ("convert_coordinates", lambda a, b: gridpp.convert_coordinates(a, b, gridpp.Cartesian), [f1(PLA), f1(PLO)], None),
    ("num_missing_values", lambda v: gridpp.num_missing_values(v), [f2()], lambda a: 0),
    ("get_lower_index", lambda v: gridpp.get_lower_index(1.5, v), [f1(SORTED)], lambda a: 1),
    ("interpolate.1", lambda x, a, b: gridpp.interpolate(x, a, b), [f1(V1), f1(SORTED), f1([0., 2, 3])], None),
    ("interpolate.0", lambda a, b: gridpp.interpolate(1.5, a, b), [f1(SORTED), f1([0., 2, 3])], None),
    ("calc_even_quantiles", lambda v: gridpp.calc_even_quantiles(v, 2), [f1()], None),
    ("window", lambda v: gridpp.window(v, 1, gridpp.Mean), [f2()], lambda a: a[0]),
    ("compatible_size.g2", lambda v: gridpp.compatible_size(GRID, v), [f2()], lambda a: True),
    ("compatible_size.g3", lambda v: gridpp.compatible_size(GRID, v), [f3([V3[0], V3[1]])], None),
    ("compatible_size.23", lambda a, b: gridpp.compatible_size(a, b), [f2(), f3()], None),
    ("Identity.1", lambda v: gridpp.Identity().forward(v), [f1()], lambda a: a[0]),
    ("Identity.2", lambda v: gridpp.Identity().backward(v), [f2()], lambda a: a[0]),
    ("Identity.3", lambda v: gridpp.Identity().forward(v), [f3()], lambda a: a[0]),
    ("Log.2", lambda v: gridpp.Log().forward(v), [f2([[1., 2, 3], [4, 5, 6]])], None),
    ("BoxCox.3", lambda v: gridpp.BoxCox(0.5).backward(v), [f3()], None),
    ("Gamma.1", lambda v: gridpp.Gamma(2, 1).forward(v), [f1()], None),
    ("BarnesStructure.grid", lambda h, v, w: gridpp.BarnesStructure(GRID, h, v, w).corr(GRID.to_points().get_point(0), GRID.to_points().get_point(1)), [f2([[1e5, 2e5, 1e5], [3e5, 1e5, 1e5]]), f2([[1., 2, 3], [1, 2, 3]]), f2([[1., 2, 1], [2, 1, 1]])], None),
    ("test_vec_input", lambda v: gridpp.test_vec_input(v), [f1()], lambda a: sum(a[0])),
    ("test_ivec_input", lambda v: gridpp.test_ivec_input(v), [i1([2, 0, 1])], lambda a: sum(a[0])),
    ("test_vec2_input", lambda v: gridpp.test_vec2_input(v), [f2()], lambda a: np.sum(a[0])),
    ("test_vec3_input", lambda v: gridpp.test_vec3_input(v), [f3()], lambda a: np.sum(a[0])),
]

# ---------------------------------------------------------------------------------------------- representations
def is01(v): return np.all((v == 0) | (v == 1))
def small(v, lo, hi): return v.size == 0 or (np.all(v == np.floor(v)) and v.min() >= lo and v.max() <= hi)
DT = ["f4", "f8", "f2", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "bool", "longdouble", ">f4", ">f8", ">i2", ">i4", ">i8"]
def dtype_ok(d, v):
    if d == "bool": return bool(is01(v))
    if d in ("f4", "f8", "longdouble", ">f4", ">f8"): return True
    if d == "f2": return bool(np.all(np.abs(v) < 2000) and np.all(v == v.astype("f2")))
    i = np.iinfo(d)
    return bool(small(v, i.min, i.max))
def c_layout(v, d): return np.array(v, dtype=d, order="C")
def f_layout(v, d): return np.array(v, dtype=d, order="F")
def strided(v, d):
    w = np.full([2 * n for n in v.shape], 0, dtype=d)
    w[...] = 1
    x = w[tuple(slice(None, None, 2) for _ in v.shape)]
    x[...] = v
    return x
def negative(v, d):
    w = np.array(v, dtype=d)[tuple(slice(None, None, -1) for _ in v.shape)].copy()
    return w[tuple(slice(None, None, -1) for _ in v.shape)]
def inner(v, d):
    w = np.full([n + 2 for n in v.shape], 1, dtype=d)
    x = w[tuple(slice(1, -1) for _ in v.shape)]
    x[...] = v
    return x
def readonly(v, d):
    x = np.array(v, dtype=d)
    x.flags.writeable = False
    return x
def unaligned(v, d):
    n = v.size * np.dtype(d).itemsize
    b = np.zeros(n + 1, np.uint8)
    x = b[1:].view(d).reshape(v.shape) if n else np.zeros(v.shape, d)
    x[...] = v
    return x
def swapped(v, d):  # axes stored in the opposite order
    return np.ascontiguousarray(np.array(v, dtype=d).transpose()).transpose()
class Sub(np.ndarray): pass
def subclass(v, d): return np.array(v, dtype=d).view(Sub)
LAYOUTS = [c_layout, f_layout, strided, negative, inner, readonly, unaligned, swapped, subclass]
def nested(v, f): return [nested(x, f) for x in v] if isinstance(v, np.ndarray) and v.ndim > 0 else f(v)
def as_list(v, k): return nested(v, int if k == "i" else float)
def as_ints(v, k): return nested(v, int)
def as_tuple(v, k):
    def t(x): return tuple(t(y) for y in x) if isinstance(x, list) else x
    return t(as_list(v, k))
def as_mixed(v, k):
    n = [0]
    def f(x):
        n[0] += 1
        return int(x) if n[0] % 2 and x == int(x) else float(x)
    return nested(v, f)
def as_bools(v, k): return nested(v, bool)
def as_f8s(v, k): return nested(v, np.float64)
def as_f4s(v, k): return nested(v, np.float32)
def as_i4s(v, k): return nested(v, np.int32)
def as_rows(v, k): return [np.array(r, "f4") for r in v] if v.ndim > 1 else [np.array(r, "f4") for r in v]
def wrapped(v, k):
    if k == "i":
        return [None, gridpp.IntVector, gridpp.IntVector2][v.ndim](as_list(v, k))
    return [None, gridpp.FloatVector, gridpp.FloatVector2, gridpp.FloatVector3][v.ndim](as_list(v, k))
def gen(v, k): return (x for x in as_list(v, k))
def rng(v, k): return range(int(v[0]), int(v[0]) + len(v))
def objects(v, k): return np.array(as_list(v, k), dtype=object)
def masked(v, k): return np.ma.array(np.array(v, "f4"))
def strings(v, k): return np.array(v).astype(str)
def cplx(v, k): return np.array(v, complex)
# (builder, must give the same result)
CONT = [(as_list, True), (as_tuple, True), (as_mixed, True), (wrapped, True), (as_f8s, True), (as_ints, "int"), (as_bools, "bool"), (as_f4s, False), (as_i4s, False), (as_rows, False), (objects, False), (masked, True), (strings, False), (cplx, False)]

def reps(a):
    """all ways to hand over the values of an argument: (name, build, must be accepted)"""
    v = np.array(a.vals, dtype="f8")
    out = []
    for d in DT:
        if not dtype_ok(d, v):
            continue
        for l in LAYOUTS:
            if d in ("u2", "u4", "u8", "longdouble", "i1", "u1", ">i2", ">i8", ">f8") and l not in (c_layout, strided, unaligned) and not thorough():
                continue
            out.append(("%s/%s" % (d, l.__name__), lambda v=v, d=d, l=l: l(v, d), True))
    for c, must in CONT:
        if must == "int":
            if not small(v, -1e6, 1e6): continue
            must = True
        if must == "bool":
            if not is01(v): continue
            must = False
        if a.kind == "i" and c in (as_f8s, as_mixed):
            must = False
        if c is as_mixed and a.kind == "i":
            continue
        out.append((c.__name__, lambda v=v, c=c, k=a.kind: c(v, k), must))
    # the first one is the plain array
    return out
REPS = {}
def repsof(a):
    k = (id(a), thorough())
    if k not in REPS:
        REPS[k] = reps(a)
    return REPS[k]

def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    return x
def same(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes() or (
            isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and bool(np.all((x == y) | ((x != x) & (y != y)))))
    return type(x) == type(y) and (x == y or (x != x and y != y))
def show(x):
    return repr(x).replace("\n", " ")[:200]
def call(f, args):
    try:
        return ("ok", norm(f(*args)))
    except SystemError as e:
        # an error was set while a result was returned, or none while there was no result
        return ("broken", "SystemError: %s" % e)
    except Exception as e:
        return ("raise", type(e).__name__ + ": " + str(e)[:80].replace("\n", " "))
def plain(a):
    return np.array(a.vals, "f4" if a.kind == "f" else "i4")
def snapshot(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype, x.strides, x.tobytes(), x.flags.writeable)
    if type(x).__name__ in ("generator", "range"):
        return None
    if type(x).__name__.endswith(("Vector", "Vector2", "Vector3")):
        return repr([repr(tuple(r) if hasattr(r, "__len__") else r) for r in x])
    return repr(x)

BASE = {}
def baseline(i):
    if i not in BASE:
        name, f, args, expect = SPECS[i]
        BASE[i] = call(f, [plain(a) for a in args])
    return BASE[i]

@harness
def arrays():
    """every way to hand over the same values gives the same result, and the arguments stay as they are"""
    i = choose(len(SPECS))
    name, f, args, expect = SPECS[i]
    budget(2 if len(args) <= 2 or thorough() else 1)
    built, names, must, fresh = [], [], True, []
    for a in args:
        r = repsof(a)
        n, b, m = r[dev(len(r))]
        names.append(n); must = must and m
        built.append(b()); fresh.append((n, b, a))
    note(name + "(" + ", ".join(names) + ")")
    before = [snapshot(x) for x in built]
    rc = [sys.getrefcount(x) for x in built]
    op()
    kind, res = call(f, built)
    outcome(kind + show(res))
    after = [snapshot(x) for x in built]
    base = baseline(i)
    check(base[0] == "ok", "plain call fails", lambda: str(base))
    if kind == "ok":
        check(same(res, base[1]), "result depends on the representation of the arguments", lambda: "%s instead of %s" % (show(res), show(base[1])))
    else:
        check(kind != "broken", "call fails without a proper exception", lambda: res)
        check(not must, "arguments are refused", lambda: res)
    check(before == after, "argument is changed", lambda: "%s -> %s" % (before, after))
    del res
    check(rc == [sys.getrefcount(x) for x in built], "reference count of an argument changes", lambda: "%s -> %s" % (rc, [sys.getrefcount(x) for x in built]))
    if expect is not None and not any(S.trail[1:]):
        e = expect([a.vals for a in args])
        def close(x, y):
            if isinstance(x, list):
                return len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
            return np.shape(x) == np.shape(y) and bool(np.allclose(x, y, rtol=1e-5))
        check(close(base[1], e), "values do not arrive or return as they are", lambda: "%s instead of %s" % (show(base[1]), show(e)))
    # the memory of wrapped arguments stays valid
    for (n, b, a), x in zip(fresh, built):
        if n == "wrapped":
            check(np.array_equal(np.array([list(r) if hasattr(r, "__len__") and np.ndim(a.vals) == 2 else r for r in x]) if np.ndim(a.vals) < 3 else np.array([[list(q) for q in r] for r in x]), np.array(a.vals)), "wrapped argument is damaged", lambda: repr(x))

SPECIAL = [np.nan, np.inf, -np.inf, 0.1, 1e-40, 3.4e38, -0.0]
IDENT = [s for s in SPECS if s[3] is not None and s[0] in ("nearest.gg2", "nearest.gg3", "nearest.pp1", "nearest.pp2", "Points", "Identity.1", "Identity.2", "Identity.3", "nearest.gp2", "nearest.gp3")]
@harness
def values():
    """all positions and special values survive the way in and out, for every floating point type and layout"""
    name, f, args, expect = IDENT[choose(len(IDENT))]
    a = args[-1]
    d = pick(["f4", "f8", ">f4", "longdouble", "list", "tuple", "wrapped"])
    v = np.array(a.vals, "f8")
    l = pick(LAYOUTS) if d not in ("list", "tuple", "wrapped") else None
    k = choose(v.size)
    x = pick(SPECIAL if name != "Points" else SPECIAL[3:])
    v = v.copy()
    v.reshape(-1)[k] = x
    m = l(v, d) if l else as_list(v, "f") if d == "list" else as_tuple(v, "f") if d == "tuple" else wrapped(v, "f")
    note("%s %s %s value %s at %d" % (name, d, l.__name__ if l else "", x, k))
    others = [plain(b) for b in args[:-1]]
    op()
    kind, res = call(f, others + [m])
    check(kind == "ok", "refused", lambda: res)
    e = expect([b.vals for b in args[:-1]] + [v])
    r = res[-2] if name == "Points" else res
    e = e[-2] if name == "Points" else e
    e = np.array(e).astype("f4")
    check(np.array_equal(r, e, equal_nan=True), "value is changed on its way", lambda: "%s instead of %s" % (show(r), show(e)))

SCAL = [("float", lambda x: float(x), True), ("int", lambda x: int(x), True), ("float64", lambda x: np.float64(x), True), ("float32", lambda x: np.float32(x), False), ("int32", lambda x: np.int32(x), False), ("int64", lambda x: np.int64(x), False),
        ("bool", lambda x: bool(x), False), ("0-d", lambda x: np.array(float(x)), False), ("str", lambda x: str(x), False), ("none", lambda x: None, False), ("1-d", lambda x: np.array([float(x)], "f4"), False), ("float16", lambda x: np.float16(x), False), ("list", lambda x: [float(x)], False), ("enum", lambda x: gridpp.Mean, False), ("object", lambda x: object(), False)]
SF = [
    ("dewpoint", gridpp.dewpoint, [280, 1]), ("pressure", gridpp.pressure, [0, 10, 100000, 280]), ("sea_level_pressure", gridpp.sea_level_pressure, [100000, 10, 280, 1, 270]), ("qnh", gridpp.qnh, [100000, 10]), ("relative_humidity", gridpp.relative_humidity, [280, 270]),
    ("wetbulb", gridpp.wetbulb, [280, 100000, 1]), ("wind_speed", gridpp.wind_speed, [3, 4]), ("wind_direction", gridpp.wind_direction, [3, 4]), ("calc_score", lambda a, b, c, d: gridpp.calc_score(a, b, c, d, gridpp.Ets), [5, 1, 2, 3]),
    ("Point", lambda a, b, c, d: [gridpp.Point(a, b, c, d).lat, gridpp.Point(a, b, c, d).lon, gridpp.Point(a, b, c, d).elev, gridpp.Point(a, b, c, d).laf], [1, 2, 3, 0]), ("is_valid_lat", lambda x: gridpp.is_valid_lat(x, gridpp.Geodetic), [1]), ("is_valid", gridpp.is_valid, [1]),
    ("convert_coordinates", lambda a, b: gridpp.convert_coordinates(a, b, gridpp.Geodetic), [1, 2]), ("KDTree.calc_distance", lambda a, b, c, d: gridpp.KDTree.calc_distance(a, b, c, d), [1, 2, 3, 4]), ("get_nearest", lambda a, b: POINTS.get_nearest_neighbour(a, b), [1, 2]),
    ("get_box", lambda a, b: GRID.get_box(a, b), [0.5, 0.5]), ("Log.forward", lambda x: gridpp.Log().forward(x), [2]), ("BoxCox.backward", lambda x: gridpp.BoxCox(0.5).backward(x), [2]), ("Barnes", lambda h, v, w: gridpp.BarnesStructure(h, v, w).corr(POINTS.get_point(0), POINTS.get_point(1)), [100000, 100, 1]),
    ("init_vec2", lambda a, b, c: gridpp.init_vec2(int(a), int(b), c), [2, 3, 4]),
]
@harness
def scalars():
    """numbers of every kind give the result of their value or are refused"""
    name, f, args = SF[choose(len(SF))]
    budget(2)
    a, names, must = [], [], True
    for x in args:
        n, b, m = SCAL[dev(len(SCAL))]
        names.append(n); must = must and m
        a.append((n, b(x), x))
    note(name + "(" + ", ".join(names) + ")")
    op()
    base = call(f, [float(x) for x in args])
    kind, res = call(f, [y for _, y, _ in a])
    check(kind != "broken", "call fails without a proper exception", lambda: res)
    check(base[0] == "ok", "plain call fails", lambda: str(base))
    if any(n in ("str", "none", "object") for n, _, _ in a) and name != "init_vec2":
        check(kind == "raise", "not a number but accepted", lambda: show(res))
    elif kind == "raise":
        check(not must, "number is refused", lambda: res)
    elif not any(n in ("bool", "enum", "1-d", "list", "0-d") for n, _, _ in a):
        check(same(res, base[1]), "result depends on the kind of number", lambda: "%s instead of %s" % (show(res), show(base[1])))

BAD = [("0-d", lambda a: np.array(1.0, "f4")), ("1-d", lambda a: np.zeros(3, "f4")), ("2-d", lambda a: np.zeros([2, 3], "f4")), ("3-d", lambda a: np.zeros([2, 3, 2], "f4")), ("4-d", lambda a: np.zeros([1, 2, 1, 2], "f4")),
       ("1-d f8", lambda a: np.zeros(3)), ("2-d f8", lambda a: np.zeros([2, 3])), ("3-d f8", lambda a: np.zeros([2, 3, 2])), ("None", lambda a: None), ("number", lambda a: 1.0), ("str", lambda a: "abc"), ("bytes", lambda a: b"abc"), ("dict", lambda a: {1: 2}), ("set", lambda a: {1.0, 2.0}),
       ("list of str", lambda a: ["a", "b"]), ("str array", lambda a: np.full(np.shape(a.vals), "x")), ("object array", lambda a: np.full(np.shape(a.vals), None, dtype=object)), ("object array of str", lambda a: np.full(np.shape(a.vals), "x", dtype=object)), ("dates", lambda a: np.zeros(np.shape(a.vals), "M8[s]")), ("durations", lambda a: np.zeros(np.shape(a.vals), "m8[s]")),
       ("complex", lambda a: np.zeros(np.shape(a.vals), complex)), ("records", lambda a: np.zeros(np.shape(a.vals), [("a", "f4"), ("b", "i4")])), ("void", lambda a: np.zeros(np.shape(a.vals), "V3")), ("ragged", lambda a: [[1.0, 2.0], [3.0]]), ("deep ragged", lambda a: [[[1.0], [2.0]], [[3.0]]]), ("mixed list", lambda a: [1.0, None]), ("nested mixed", lambda a: [[1.0], 2.0]),
       ("empty list", lambda a: []), ("list of empty", lambda a: [[]]), ("lists of lists of empty", lambda a: [[[]]]), ("too deep", lambda a: [[[[1.0]]]]), ("points", lambda a: POINTS), ("empty 1-d", lambda a: np.zeros(0, "f4")), ("empty 2-d", lambda a: np.zeros([0, 3], "f4")), ("empty rows", lambda a: np.zeros([3, 0], "f4")), ("empty 3-d", lambda a: np.zeros([0, 0, 0], "f4")), ("empty cells", lambda a: np.zeros([2, 3, 0], "f4")),
       ("empty 1-d f8", lambda a: np.zeros(0)), ("empty 2-d i8", lambda a: np.zeros([0, 3], "i8")), ("huge int", lambda a: [2 ** 70]), ("nan int", lambda a: np.full(np.shape(a.vals), np.nan)), ("other vector", lambda a: gridpp.FloatVector([1.0]) if a.nd != 1 else gridpp.FloatVector2([[1.0]])), ("int vector", lambda a: gridpp.IntVector([1, 2, 3])), ("double vector", lambda a: gridpp.DoubleVector([1.0, 2.0, 3.0])), ("class", lambda a: dict), ("long 1-d", lambda a: np.zeros(7, "f4")), ("long 2-d", lambda a: np.zeros([7, 7], "f4"))]
# what cannot be a valid argument wherever an array of n dimensions is needed
WRONG = {"0-d": {1, 2, 3}, "1-d": {2, 3}, "2-d": {1, 3}, "3-d": {1, 2}, "4-d": {1, 2, 3}, "1-d f8": {2, 3}, "2-d f8": {1, 3}, "3-d f8": {1, 2}, "None": {1, 2, 3}, "number": {1, 2, 3}, "str": {1, 2, 3}, "dict": {2, 3}, "list of str": {1, 2, 3}, "str array": {1, 2, 3}, "object array of str": {1, 2, 3},
         "records": {1, 2, 3}, "void": {1, 2, 3}, "mixed list": {1, 2, 3}, "nested mixed": {1, 2, 3}, "too deep": {1, 2, 3}, "points": {1, 2, 3}, "class": {1, 2, 3}, "other vector": {1, 2, 3}}
# functions where other overloads take over with another number of dimensions
OVERLOADED = ("nearest", "downscaling", "bilinear", "simple_gradient", "neighbourhood", "get_neighbourhood", "apply_curve", "calc_statistic", "calc_quantile", "compatible_size", "local_distribution", "Identity", "Log", "BoxCox", "Gamma", "interpolate", "dewpoint", "pressure", "wind", "wetbulb", "full_gradient", "optimal", "ensi", "gridding", "convert", "calc_score")
@harness
def errors():
    """arguments that cannot be what is needed give an exception, never a crash or an arbitrary result"""
    i = choose(len(SPECS))
    name, f, args, expect = SPECS[i]
    k = choose(len(args))
    budget(2 if thorough() else 1)
    b = choose(len(BAD))
    built = [plain(a) for a in args]
    built[k] = BAD[b][1](args[k])
    names = ["."] * len(args); names[k] = BAD[b][0]
    for j in range(len(args)):
        if j > k:
            c = dev(len(BAD) + 1)
            if c:
                built[j] = BAD[c - 1][1](args[j]); names[j] = BAD[c - 1][0]
    note(name + "(" + ", ".join(names) + ")")
    op()
    snap = [snapshot(x) for x in built]
    kind, res = call(f, built)
    outcome(kind + show(res))
    check(kind != "broken", "call fails without a proper exception", lambda: res)
    if args[k].nd in WRONG.get(BAD[b][0], ()) and not (name.startswith(OVERLOADED) and ("-d" in BAD[b][0] or BAD[b][0] in ("number", "other vector", "dict", "points"))):
        check(kind == "raise", "unusable argument is accepted", lambda: show(res))
    check(snap == [snapshot(x) for x in built], "argument is changed", "")
    # the module still works
    op()
    c = call(f, [plain(a) for a in args])
    check(same(c[1], baseline(i)[1]), "later calls give another result", lambda: show(c))

@harness
def leaks():
    """calls do not lose memory, whether they succeed or raise"""
    i = choose(len(SPECS))
    name, f, args, expect = SPECS[i]
    k = choose(len(args))
    bad = flip()
    if bad:
        n, bb = BAD[choose(len(BAD))]
        if n == "records":
            skip()     # numpy itself loses an object when it refuses these
        x = bb(args[k])
    else:
        r = repsof(args[k])
        n, bb, m = r[choose(len(r))]
        if n.startswith(">") or n == "gen" or ("/" in n and n.split("/")[1] not in ("c_layout", "strided", "unaligned")):
            skip()
        x = bb()
    built = [plain(a) for a in args]
    built[k] = x
    note("%s argument %d: %s" % (name, k, n))
    def rounds(m):
        for _ in range(m):
            try:
                f(*built)
            except Exception:
                pass
    # python objects of a call are collected first
    N = 40
    rounds(3)
    best = [1e9, 1e9]
    for attempt in range(8):
        gc.collect()
        m0 = libc.mallinfo2(); b0 = sys.getallocatedblocks()
        rounds(N)
        gc.collect()
        b1 = sys.getallocatedblocks(); m1 = libc.mallinfo2()
        op(N)
        best = [min(best[0], (m1.uordblks + m1.hblkhd - m0.uordblks - m0.hblkhd) / N), min(best[1], (b1 - b0) / N)]
        if best[0] < 8 and best[1] < 0.9:
            break
    check(best[0] < 8 and best[1] < 0.9, "memory is lost in every call", lambda: "%.1f bytes, %.2f objects per call" % tuple(best))

# ---------------------------------------------------------------------------------------------- histories
def junk():
    return [np.random.default_rng(1).random(n).astype("f4") for n in (3, 6, 12, 3, 6)]
EXACT = lambda x, y: isinstance(x, np.ndarray) and np.array_equal(x, np.array(y, x.dtype)) and x.shape == np.shape(y)
@harness
def histories():
    """results belong to the caller and objects to the module: whatever is done to one leaves the others alone"""
    depth = 6 if thorough() else 5
    la = np.array([0, 1, 2], "f4"); lo = np.array([1, 0, 3], "f4"); el = np.array([5, 6, 7], "f4")
    st = dict(p=None, g=None, t=None, s=None, pt=None)
    true = dict(p=None, g=None, t=None, pt=None)
    kept = []     # (description, object, expected values, reader)
    hist = []
    def keep(what, x, e):
        kept.append([what, x, e])
    for step in range(depth):
        o = choose(17)
        op()
        if o == 0:
            st["p"] = gridpp.Points(la, lo, el); true["p"] = (la.copy(), lo.copy(), el.copy()); hist.append("points")
        elif o == 1:
            la += 1; lo *= 2; el -= 1; hist.append("change inputs")
        elif o == 2:
            if st["p"] is None: skip()
            keep("lats of points", st["p"].get_lats(), true["p"][0]); keep("elevs", st["p"].get_elevs(), true["p"][2]); hist.append("get from points")
        elif o == 3:
            if not kept: skip()
            for k in kept:
                if isinstance(k[1], np.ndarray):
                    k[1] += 10; k[2] = np.array(k[2]) + 10
            hist.append("change results")
        elif o == 4:
            if st["p"] is None: skip()
            st["p"] = None; true["p"] = None; hist.append("drop points")
        elif o == 5:
            gc.collect(); junk(); hist.append("gc")
        elif o == 6:
            a, b = np.meshgrid(la, lo)
            st["g"] = gridpp.Grid(b, a, a * 2 + b); true["g"] = (b.copy(), a.copy(), a * 2 + b); hist.append("grid")
        elif o == 7:
            if st["g"] is None: skip()
            st["p"] = st["g"].to_points(); true["p"] = tuple(x.reshape(-1) for x in true["g"]); hist.append("points of grid")
        elif o == 8:
            if st["g"] is None: skip()
            keep("lats of grid", st["g"].get_lats(), true["g"][0]); keep("elevs of grid", st["g"].get_elevs(), true["g"][2]); hist.append("get from grid")
        elif o == 9:
            if st["g"] is None: skip()
            st["g"] = None; true["g"] = None; hist.append("drop grid")
        elif o == 10:
            st["t"] = gridpp.KDTree(la, lo, gridpp.Cartesian); true["t"] = (la.copy(), lo.copy()); hist.append("tree")
        elif o == 11:
            if st["t"] is None: skip()
            keep("x of tree", st["t"].get_x(), true["t"][1]); keep("lats of tree", st["t"].get_lats(), true["t"][0]); hist.append("get from tree")
        elif o == 12:
            if st["t"] is None: skip()
            st["p"] = gridpp.Points(st["t"]); true["p"] = (true["t"][0], true["t"][1], np.full(3, np.nan)); hist.append("points of tree")
        elif o == 13:
            if st["t"] is None: skip()
            st["t"] = None; true["t"] = None; hist.append("drop tree")
        elif o == 14:
            if st["p"] is None: skip()
            st["pt"] = st["p"].get_point(1); true["pt"] = (true["p"][0][1], true["p"][1][1]); hist.append("point")
        elif o == 15:
            s = st["s"]
            st["s"] = gridpp.BarnesStructure(1000.0) if s is None else gridpp.CrossValidation(s, 100.0) if type(s).__name__ == "BarnesStructure" else gridpp.MultipleStructure(s, s, s) if type(s).__name__ == "CrossValidation" else s
            hist.append("structure")
        elif o == 16:
            if st["p"] is None or len(true["p"][0]) < 2: skip()
            x = st["p"].subset([1, 0]); st["p"] = x; true["p"] = tuple(np.array(v)[[1, 0]] for v in true["p"]); hist.append("subset")
        note(hist[-1])
        # everything that is alive has the values it should have
        for what, x, e in kept:
            v = np.array(list(x), "f4") if not isinstance(x, np.ndarray) else x
            check(np.array_equal(v, np.array(e, "f4"), equal_nan=True), "an earlier result changed", lambda: "%s: %s instead of %s" % (what, show(v), show(e)))
        if st["p"] is not None:
            p, t = st["p"], true["p"]
            check(p.size() == len(t[0]) and np.array_equal(p.get_lats(), np.array(t[0], "f4")) and np.array_equal(p.get_lons(), np.array(t[1], "f4")) and np.array_equal(p.get_elevs(), np.array(t[2], "f4"), equal_nan=True), "points changed", lambda: show([p.get_lats(), p.get_elevs(), t]))
            if len(t[0]) == 3:
                check(p.get_nearest_neighbour(float(t[0][2]), float(t[1][2])) == 2, "points: search broken", "")
        if st["g"] is not None:
            g, t = st["g"], true["g"]
            check(np.array_equal(g.get_lats(), np.array(t[0], "f4")) and np.array_equal(g.get_lons(), np.array(t[1], "f4")) and np.array_equal(g.get_elevs(), np.array(t[2], "f4")), "grid changed", "")
        if st["t"] is not None:
            t = true["t"]
            check(np.array_equal(st["t"].get_lats(), np.array(t[0], "f4")), "tree changed", "")
        if st["pt"] is not None:
            check(st["pt"].lat == true["pt"][0] and st["pt"].lon == true["pt"][1], "point changed", "")
        if st["s"] is not None:
            a = gridpp.Point(0, 0, 0, 0, gridpp.Cartesian, 0, 0, 0); b = gridpp.Point(0, 1, 0, 0, gridpp.Cartesian, 1000, 0, 0)
            c = st["s"].corr(a, b)
            check(abs(c - np.exp(-0.5)) < 1e-4, "structure changed", lambda: repr(c))
            check(st["s"].corr_background(a, a) == 1 if type(st["s"]).__name__ == "BarnesStructure" else True, "structure changed", "")

EXC = [
    ("bad grid sizes", lambda: gridpp.Grid(np.zeros([2, 2], "f4"), np.zeros([2, 3], "f4")), ValueError), ("bad points sizes", lambda: gridpp.Points(np.zeros(2, "f4"), np.zeros(3, "f4")), ValueError),
    ("bad tree sizes", lambda: gridpp.KDTree(np.zeros(2, "f4"), np.zeros(3, "f4")), ValueError), ("nearest size", lambda: gridpp.nearest(GRID, OGRID, np.zeros([3, 3], "f4")), ValueError), ("bilinear size", lambda: gridpp.bilinear(GRID, OGRID, np.zeros([3, 3], "f4")), ValueError),
    ("negative halfwidth", lambda: gridpp.neighbourhood(np.zeros([2, 2], "f4"), -1, gridpp.Mean), ValueError), ("quantile outside", lambda: gridpp.neighbourhood_quantile(np.zeros([2, 2], "f4"), 1.5, 1), ValueError), ("quantile outside 2", lambda: gridpp.calc_quantile(np.zeros(2, "f4"), 2.0), ValueError),
    ("oi sizes", lambda: gridpp.optimal_interpolation(GRID, np.zeros([2, 2], "f4"), POINTS, f32(V1), f32(V1), f32(V1), STRUCT, 3), ValueError), ("oi max points", lambda: gridpp.optimal_interpolation(GRID, f32(V2), POINTS, f32(V1), f32([1, 1, 1]), f32(V1), STRUCT, -1), ValueError), ("curve sizes", lambda: gridpp.apply_curve(f32(V1), f32([1, 2]), f32([1, 2, 3]), gridpp.OneToOne, gridpp.OneToOne), ValueError),
    ("not implemented", lambda: gridpp.test_not_implemented_exception(), RuntimeError), ("wind sizes", lambda: gridpp.wind_speed(f32([1]), f32([1, 2])), ValueError), ("fill sizes", lambda: gridpp.fill(GRID, f32(V2), POINTS, f32([1]), 1, False), ValueError), ("gridding min", lambda: gridpp.gridding(GRID, POINTS, f32([1]), 1000, 1, gridpp.Mean), ValueError),
    ("quantile mapping sizes", lambda: gridpp.quantile_mapping_curve(f32([1]), f32([1, 2])), ValueError), ("structure negative", lambda: gridpp.BarnesStructure(-1.0), ValueError), ("soar negative", lambda: gridpp.SoarStructure(-1.0), ValueError), ("gamma", lambda: gridpp.Gamma(-1.0, 1.0), ValueError), ("interpolate sizes", lambda: gridpp.interpolate(1.0, f32([1, 2]), f32([1])), ValueError), ("window even", lambda: gridpp.window(f32(V2), -1, gridpp.Mean), ValueError), ("score sizes", lambda: gridpp.calc_score(f32([1]), f32([1, 2]), 1, gridpp.Ets), ValueError),
    ("wrong type", lambda: gridpp.nearest(1, 2, 3), TypeError), ("missing argument", lambda: gridpp.nearest(GRID, OGRID), TypeError), ("unknown name", lambda: gridpp.no_such_function, AttributeError),
]
@harness
def exceptions():
    """errors arrive as exceptions of the documented kind, after any other error and before any other call"""
    for i in range(3):
        n, f, e = EXC[choose(len(EXC))]
        note(n)
        op()
        try:
            r = f()
            fail("no exception", "%s gives %s" % (n, show(r)))
        except Fail:
            raise
        except Exception as x:
            check(type(x) == e, "wrong kind of exception", lambda: "%s: %s instead of %s (%s)" % (n, type(x).__name__, e.__name__, x))
        check(np.array_equal(gridpp.nearest(GRID, GRID, f32(V2)), f32(V2)), "calls after an exception differ", "")
        if not thorough() and i == 1:
            break

def emptyok(): pass

if __name__ == "__main__":
    main()
