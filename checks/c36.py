"""C36 from rain rates of links to rain maps, and back to the path of a link"""
import math

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import dyadic, or_nan

import pycomlink as pycml  # noqa: F401
from pycomlink.spatial.coverage import calc_coverage_mask
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex
from pycomlink.validation import stats
from pycomlink.validation.validator import GridValidator

from checks.c17 import brute, compare
from checks.c24 import Cml as CoverageCml, distance
from checks.c25 import Cml as ValidatorCml, T0, part_in_cell


def centre(l):
    return (l[0] + l[2]) / 2, (l[1] + l[3]) / 2


@st.composite
def case(draw):
    co = st.floats(0, 4, allow_nan=False).map(lambda v: round(v, 3))
    # centres apart from each other
    links = []
    for l in draw(st.lists(st.tuples(co, co, co, co).map(list), min_size=2, max_size=9)):
        if math.hypot(l[0] - l[2], l[1] - l[3]) > 0.05 and all(
            math.hypot(centre(l)[0] - centre(m)[0], centre(l)[1] - centre(m)[1]) > 0.05 for m in links
        ):
            links.append(l)
    while len(links) < 2:
        k = len(links)
        links.append([0.5 + k, 0.3, 1.5 + 2 * k, 2.6])
    nt = draw(st.integers(2, 6))
    full = draw(st.integers(0, 2)) == 0
    rate = st.one_of(dyadic(0, 40), dyadic(0, 2))
    rain = [draw(st.lists(rate if full else or_nan(rate, 4), min_size=len(links), max_size=len(links))) for _ in range(nt)]
    if draw(st.booleans()):
        # the same links are there again later on, and gaps in between
        rain.append([rain[0][0]] + [None if rain[0][i] is None else 2 * rain[0][i] for i in range(1, len(links))])
    return {
        "links": links, "rain": rain, "kind": draw(st.sampled_from(["idw", "idw", "idw", "ok"])),
        "kw": {"nnear": draw(st.sampled_from([2, 4, 8, 15])), "p": draw(st.sampled_from([1, 2, 2, 3])),
               "max_distance": draw(st.sampled_from([None, 0.71, 1.37]))},
        "resolution": draw(st.sampled_from([None, 0.5, 0.37])),
        "grid": [draw(st.integers(2, 9)), draw(st.integers(2, 9)), draw(st.sampled_from([0.5, 0.43]))],
        "move": [draw(dyadic(-8, 8)), draw(dyadic(-8, 8))], "limit": draw(st.sampled_from([0.31, 0.71, 1.37])),
        "perm": list(draw(st.permutations(range(len(links))))),
        "off": [round(draw(st.floats(-0.5, 0.5)), 3), round(draw(st.floats(-0.5, 0.5)), 3)],
    }


def interpolator(c):
    if c["kind"] == "ok":
        return OrdinaryKrigingInterpolator(variogram_parameters={"sill": 0.9, "range": 3.0, "nugget": 0.1})
    return IdwKdtreeInterpolator(**c["kw"])


def maps(c, x, y, rain, ip=None, **grid):
    """what a user does: one interpolator, time step by time step"""
    ip = interpolator(c) if ip is None else ip
    out = [np.array(call(ip, x, y, z, **grid)) for z in rain]
    return np.array(out), ip


def body(c, ctx):
    links, rain = c["links"], arr(c["rain"]).reshape(-1, len(c["links"]))
    if c["kind"] == "ok":
        rain = rain[(~np.isnan(rain)).sum(axis=1) != 1]  # kriging needs two links
        if not len(rain):
            return False
    x, y = (np.array([centre(l)[k] for l in links]) for k in (0, 1))
    if c["resolution"] is None:
        xg, yg = np.meshgrid(c["off"][0] + c["grid"][2] * np.arange(c["grid"][0]), c["off"][1] + c["grid"][2] * np.arange(c["grid"][1]))
        grid = {"xgrid": xg, "ygrid": yg}
    else:
        grid = {"resolution": c["resolution"]}
    fr = Frozen(x=x, y=y, rain=rain, **{k: v for k, v in grid.items() if isinstance(v, np.ndarray)})
    m, ip = maps(c, x, y, rain, **grid)
    fr.check("the interpolation")
    xg, yg = np.asarray(ip.xgrid), np.asarray(ip.ygrid)
    require(m.shape[1:] == xg.shape == yg.shape, "maps of shape %s on a grid of shape %s", m.shape[1:], xg.shape)
    # every grid point holds the value of its place
    lim = c["kw"]["max_distance"] if c["kind"] == "idw" else None
    enough = [(~np.isnan(z)).sum() >= 2 for z in rain]
    for t, z in enumerate(rain):
        ok = ~np.isnan(z)
        if c["kind"] == "idw":
            if ok.any():
                compare(m[t], brute(x, y, z, xg.ravel(), yg.ravel(), c["kw"]["nnear"], c["kw"]["p"], lim, True), xg.shape, "map %d" % t)
            else:
                require(np.isnan(m[t]).all(), "map without any link")
            v = m[t][~np.isnan(m[t])]
            if ok.any() and v.size:
                require(v.min() >= z[ok].min() - 1e-9 and v.max() <= z[ok].max() + 1e-9,
                        "rain of %s to %s from links with %s to %s", v.min(), v.max(), z[ok].min(), z[ok].max())
        # a link without data is like no link, and the maps before do not matter
        if enough[t]:
            g = {"xgrid": xg, "ygrid": yg}
            alone, _ = maps(c, x[ok], y[ok], [z[ok]], **g)
            same(alone[0], m[t], "map %d of the links with data alone" % t, 1e-9, 1e-9)
            p = [i for i in c["perm"]]
            other, _ = maps(c, x[p], y[p], [z[p]], **g)
            tie = brute(x, y, z, xg.ravel(), yg.ravel(), c["kw"]["nnear"], 2, lim, True) if c["kind"] == "idw" else [0] * xg.size
            k = np.array([e is not None for e in tie]).reshape(xg.shape)
            same(other[0][k], m[t][k], "map %d with the links in another order" % t, 1e-7, 1e-7)
            # the same interpolator, for links which are elsewhere now
            p2 = p if p != sorted(p) else p[::-1]
            for zz, what in ((z[p2], "the links"), (z, "the places of the links")):
                used, _ = maps(c, x[p2], y[p2], [zz], ip=ip, **g)
                new, _ = maps(c, x[p2], y[p2], [zz], **g)
                same(used[0], new[0], "map %d of a used interpolator after %s changed their order" % (t, what), 1e-9, 1e-9)
            # the place on earth
            dx, dy = c["move"]
            moved, _ = maps(c, x + dx, y + dy, [z], xgrid=xg + dx, ygrid=yg + dy)
            same(moved[0][k], m[t][k], "map %d somewhere else" % t, 1e-6, 1e-6)
            turned, _ = maps(c, y, x, [z], xgrid=yg.T, ygrid=xg.T)
            same(turned[0].T[k], m[t][k], "map %d with x and y exchanged" % t, 1e-7, 1e-7)
    # the mask belongs to the same grid
    mask = np.asarray(call(calc_coverage_mask, [CoverageCml(l) for l in links], xg, yg, c["limit"]))
    require(mask.shape == xg.shape, "mask of shape %s", mask.shape)
    for i in np.ndindex(xg.shape):
        d = np.hypot(x - xg[i], y - yg[i]).min()
        if d < 0.98 * c["limit"]:
            require(mask[i], "grid point at a distance of %s from the middle of a link is not covered", d)
        if mask[i]:
            require(min(distance(l, xg[i], yg[i]) for l in links) <= c["limit"] * (1 + 1e-6), "covered without a link")
    ctx.label(c["kind"])
    ctx.label("gap", np.isnan(rain).any())
    return m.shape[0] > 1 and np.isfinite(m).any()


@st.composite
def case_back(draw):
    c = draw(case())
    c["kind"], c["resolution"], c["limit"] = "idw", None, 0.31
    c["grid"] = [draw(st.integers(10, 13)), draw(st.integers(10, 13)), 0.5]
    c["off"] = [-0.5, -0.5]
    c["kw"]["max_distance"] = None
    c["rain"] = [[0.5 if v is None else v for v in r] for r in c["rain"]]
    if draw(st.booleans()):
        c["rain"] = [[r[0]] * len(r) for r in c["rain"]]  # the same rain everywhere
    c["which"] = draw(st.integers(0, len(c["links"]) - 1))
    c["minutes"] = draw(st.sampled_from([5, 15, 60]))
    return c


def body_back(c, ctx):
    """the rain maps are compared with the link, along its path"""
    links, rain = c["links"], arr(c["rain"])
    l = links[c["which"]]
    x, y = (np.array([centre(q)[k] for q in links]) for k in (0, 1))
    gx, gy = c["off"][0] + 0.5 * np.arange(c["grid"][0]), c["off"][1] + 0.5 * np.arange(c["grid"][1])
    for v in (l[0], l[2], l[1], l[3]):
        if abs(v * 4 - round(v * 4)) < 1e-6:
            return False  # along the border of two cells
    xg, yg = np.meshgrid(gx, gy)
    m, _ = maps(c, x, y, rain, xgrid=xg, ygrid=yg)
    step = pd.Timedelta(minutes=c["minutes"])
    time = T0 + np.arange(len(m)) * step
    ds = xr.Dataset(
        {"R": (("time", "y", "x"), m)},
        coords={"time": time, "longitudes": (("y", "x"), xg), "latitudes": (("y", "x"), yg)},
    )
    index = pd.date_range(T0 - step, time[-1] + step, freq="1min")
    cml = ValidatorCml(l, index)
    gv = GridValidator(xr_ds=ds)
    path = call(gv.get_time_series, cml, "R")["R"]
    w = np.array([[part_in_cell(l, u - 0.25, u + 0.25, v - 0.25, v + 0.25) for u in gx] for v in gy])
    require(abs(w.sum() - 1) < 1e-9, "the path is inside of the grid")
    exp = (m * w).sum(axis=(1, 2))
    require(list(path.index) == list(time), "time steps of the series along the path")
    same(path.values, exp, "rain along the path", 1e-9, 1e-9)
    if (rain == rain[:, :1]).all():
        same(path.values, rain[:, 0], "the same rain everywhere, along the path", 1e-9, 1e-9)
    # the sum over time is the map of the sums
    total, _ = maps(c, x, y, [rain.sum(axis=0)], xgrid=xg, ygrid=yg)
    same(m.sum(axis=0), total[0], "sum of the maps", 1e-7, 1e-7)
    # minute values of the link which are what the maps say, aggregated to the steps of the maps
    fine = pd.DataFrame({"R": np.repeat(exp, c["minutes"])},
                        index=pd.date_range(T0 - step + pd.Timedelta(minutes=1), periods=len(m) * c["minutes"], freq="1min", tz="utc"))
    agg = call(aggregate_df_onto_DatetimeIndex, fine, pd.DatetimeIndex(time, tz="utc"), np.mean)
    same(agg["R"].values, exp, "aggregated series", 1e-9, 1e-9)
    require(list(agg.index.tz_localize(None)) == list(time), "time steps of the aggregated series")
    e = call(stats.calc_rain_error_performance_metrics, path.values, agg["R"].values, 0.05 + 1e-4)
    require(e.root_mean_square_error < 1e-9 and e.mean_absolute_error < 1e-9, "error of a perfect estimate: %s", e)
    require(e.N_all_pairs == len(m) and e.N_nan_pairs == 0, "numbers of pairs")
    same([e.R_sum_reference, e.R_sum_predicted], [exp.sum()] * 2, "rain sums", 1e-9, 1e-9)
    if exp.min() < 0.05:
        ctx.label("dry")
    wet = exp >= 0.05 + 1e-4
    q = call(stats.calc_wet_dry_performance_metrics, path.values >= 0.05 + 1e-4, wet)
    near = (np.abs(exp - 0.05 - 1e-4) < 1e-8).any()
    require(near or (q.N_false_wet == q.N_missed_wet == 0 and q.N_true_wet == wet.sum()), "wet/dry: %s", q)
    return not (rain == rain[:, :1]).all()


SUBS = [
    Sub("maps", case(), body, 60, 700, rule="more than one map with values"),
    Sub("back", case_back(), body_back, 60, 700, rule="rain which is not the same everywhere"),
]
ASSUMPTIONS = [
    "grid points with several equally near links are not compared between orders of the links",
    "kriging: at least two links with data",
]
