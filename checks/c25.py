"""C25 validation of a CML with gridded data"""
import math
from collections import namedtuple

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, fill

from pycomlink.validation.validator import GridValidator, Validator

Coords = namedtuple("Coords", ["lon_a", "lat_a", "lon_b", "lat_b"])
T0 = pd.Timestamp("2021-06-01")


class Channel:
    def __init__(self, index):
        self.data = pd.DataFrame({"txrx_nf": np.zeros(len(index))}, index=index)


class Cml:
    def __init__(self, line, index, index2=None):
        self.line = line
        self.channel_1 = Channel(index)
        self.channel_2 = Channel(index if index2 is None else index2)
        self.data = self.channel_1.data

    def get_coordinates(self):
        return Coords(*self.line)

    def plot_line(self, ax):
        ax.plot([self.line[0], self.line[2]], [self.line[1], self.line[3]])


def part_in_cell(line, x0, x1, y0, y1):
    """part of the line within the rectangle (Liang-Barsky)"""
    ax, ay, bx, by = line
    lo, hi = 0.0, 1.0
    for p, q0, q1, a in ((bx - ax, x0, x1, ax), (by - ay, y0, y1, ay)):
        if p == 0:
            if not q0 < a < q1:
                return 0.0
            continue
        u, v = (q0 - a) / p, (q1 - a) / p
        lo, hi = max(lo, min(u, v)), min(hi, max(u, v))
    return max(0.0, hi - lo)


@st.composite
def case(draw, large=False):
    nx, ny = draw(st.integers(3, 7)), draw(st.integers(3, 7))
    if large:
        nx, ny = draw(st.integers(5, 18)), draw(st.integers(5, 18))
    dx, dy = draw(st.sampled_from([[1.0, 1.0], [0.5, 0.5], [1.0, 0.5], [0.25, 0.25]]))
    # inside of the grid and not along the border of two cells
    fx, fy = st.floats(0.05, nx - 0.05), st.floats(0.05, ny - 0.05)
    line = [draw(fx), draw(fy), draw(fx), draw(fy)]
    nt = draw(st.integers(3, 12))
    a = draw(st.integers(-30, 90))
    b = a + draw(st.integers(1, 240))
    if large:
        nt = draw(st.integers(30, 120))
        b = a + draw(st.integers(400, 2000))
    return {
        "nx": nx, "ny": ny, "dx": dx, "dy": dy, "line": line, "nt": nt, "seed": draw(st.integers(0, 10**6)),
        "period": [a, b], "shift": draw(st.sampled_from([0, 0, 15, 40])),
        "on_step": draw(st.booleans()), "y_down": draw(st.booleans()),
        "label": draw(st.sampled_from(["right", "left"])),
        "tz": draw(st.sampled_from([None, "utc"])),
        "step": draw(st.sampled_from([1, 5, 7])),
        "nan": draw(st.sampled_from([0, 0, 1, 3, 100])),
        "line2": [draw(fx), draw(fy), draw(fx), draw(fy)],
    }


def make(c, key="line"):
    nx, ny, nt = c["nx"], c["ny"], c["nt"]
    r = np.random.RandomState(c["seed"])
    x = 10 + c["dx"] * (np.arange(nx) + 0.5)
    y = 48 + c["dy"] * (np.arange(ny) + 0.5)
    if c["y_down"]:
        y = y[::-1]
    lon, lat = np.meshgrid(x, y)
    rain = np.round(r.uniform(0, 20, (nt, ny, nx)) * 8) / 8
    ds = xr.Dataset(
        {"rainfall_amount": (("time", "y", "x"), rain.copy()), "other": (("time", "y", "x"), -rain)},
        coords={
            "time": T0 + pd.to_timedelta(np.arange(nt) * 15, unit="min"),
            "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat),
        },
    )
    q = c[key]
    line = [10 + c["dx"] * q[0], 48 + c["dy"] * q[1], 10 + c["dx"] * q[2], 48 + c["dy"] * q[3]]
    w = np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            cx, cy = x[j], y[i]
            w[i, j] = part_in_cell(
                line, cx - c["dx"] / 2, cx + c["dx"] / 2, cy - c["dy"] / 2, cy + c["dy"] / 2
            )
    if c["nan"]:
        # gaps of the grid where the path is not
        off = np.argwhere(w == 0)
        for i, j in off[r.permutation(len(off))[: c["nan"]]]:
            ds.rainfall_amount[r.randint(0, 2) :, i, j] = np.nan
    return ds, line, w, rain


def body(c, ctx):
    ds, line, w, rain = make(c)
    L = math.hypot(line[0] - line[2], line[1] - line[3])
    if L < 0.05 or abs(w.sum() - 1) > 1e-6:
        return False
    a, b = c["period"]
    if c["on_step"]:
        a, b = a // 15 * 15, a // 15 * 15 + max(15, (b - a) // 15 * 15)
    start, stop = T0 + pd.Timedelta(minutes=a), T0 + pd.Timedelta(minutes=b)
    idx = pd.date_range(start, stop, periods=max(2, (b - a) // c["step"] + 1))
    # the second channel starts at another time, but ends last
    idx2 = idx.insert(0, start - pd.Timedelta(minutes=c["shift"])) if c["shift"] else idx
    cml = Cml(line, idx, idx2)
    v = GridValidator(xr_ds=ds)
    fr = Frozen(ds=ds)
    got = call(v.get_time_series, cml, "rainfall_amount")
    fr.check("get_time_series")
    times = [t for t in pd.DatetimeIndex(ds.time.values) if start < t < stop]
    require(list(pd.DatetimeIndex(got.index)) == times, "time steps %s, expected %s", list(got.index), times)
    exp = np.array([(rain[list(ds.time.values).index(np.datetime64(t))] * w).sum() for t in times])
    same(got["rainfall_amount"].values, exp.reshape(len(times)), "path average", 1e-6, 1e-6)
    same(np.asarray(v.intersect_weights), w, "weights of the grid cells", 1e-6, 1e-6)
    # a line of one rain rate everywhere has this rain rate
    ones = ds.copy()
    ones["rainfall_amount"] = xr.full_like(ds.rainfall_amount, 3.5)
    g1 = call(GridValidator(xr_ds=ones).get_time_series, cml, "rainfall_amount")
    same(g1["rainfall_amount"].values, np.full(len(times), 3.5), "path average of constant rain", 1e-6, 1e-6)
    # the other direction of the path
    g2 = call(GridValidator(xr_ds=ds).get_time_series, Cml(line[2:] + line[:2], idx, idx2), "rainfall_amount")
    same(g2["rainfall_amount"].values, exp.reshape(len(times)), "path from b to a", 1e-6, 1e-6)
    # the same object, with another variable and CML, and again
    g3 = call(v.get_time_series, cml, "other")
    same(g3["other"].values, -exp.reshape(len(times)), "other variable", 1e-6, 1e-6)
    if len(times):
        resample(c, v, idx, times)
    # the place of the CML, or the grid, is corrected
    c2 = dict(c, nan=0, seed=c["seed"] + 7)
    ds2, line2, w2, rain2 = make(c2, "line2")
    if math.hypot(line2[0] - line2[2], line2[1] - line2[3]) > 0.05 and abs(w2.sum() - 1) < 1e-6:
        cml.line = line2
        v.xr_ds = ds2
        g4 = call(v.get_time_series, cml, "rainfall_amount")
        exp2 = np.array([(rain2[list(ds.time.values).index(np.datetime64(t))] * w2).sum() for t in times])
        same(g4["rainfall_amount"].values, exp2.reshape(len(times)), "after a correction of the CML", 1e-6, 1e-6)
        cml.line = line
        v.xr_ds = ds2.assign_coords(
            longitudes=ds2.longitudes + 200, latitudes=ds2.latitudes - 2
        )
        cml.line = [line[0] + 200, line[1] - 2, line[2] + 200, line[3] - 2]
        g5 = call(v.get_time_series, cml, "rainfall_amount")
        exp3 = np.array([(rain2[list(ds.time.values).index(np.datetime64(t))] * w).sum() for t in times])
        same(g5["rainfall_amount"].values, exp3.reshape(len(times)), "with another grid", 1e-6, 1e-6)
    ctx.label("gaps off the path", bool(c["nan"]))
    ctx.label("no time step", not times)
    ctx.label("several cells", int((w > 1e-6).sum()) > 1)
    return len(times) > 0 and int((w > 1e-6).sum()) > 1


def resample(c, v, idx, times):
    r = np.random.RandomState(c["seed"] + 1)
    vals = np.round(r.uniform(0, 10, len(idx)) * 8) / 8
    df = pd.DataFrame({"R": vals}, index=idx if c["tz"] is None else idx.tz_localize(c["tz"]))
    fr = Frozen(df=df)
    kw = {} if c["tz"] is None else {"grid_time_zone": c["tz"]}
    got = call(v.resample_to_grid_time_series, df, c["label"], **kw)
    fr.check("resample_to_grid_time_series")
    bins = {}
    for t, x in zip(idx, vals):
        cand = [g for g in times if (g >= t if c["label"] == "right" else g <= t)]
        if cand:
            bins.setdefault(min(cand) if c["label"] == "right" else max(cand), []).append(x)
    labels = sorted(bins)
    require(list(pd.DatetimeIndex(got.index)) == labels, "labels %s, expected %s", list(got.index), labels)
    same(got["R"].values, np.array([np.mean(bins[k]) for k in labels]), "mean per grid time step")
    must_raise(NotImplementedError, v.resample_to_grid_time_series, df, "center", **kw)


@st.composite
def case_stats(draw):
    large = draw(st.integers(0, 5)) == 0
    n, m = draw(st.integers(2, 25)), draw(st.integers(2, 25))
    if large:
        n, m = draw(st.integers(50, 300)), draw(st.integers(50, 300))
    v = dyadic(-10, 30, 4)
    return {
        "cml": fill(draw, v, n, large), "grid": fill(draw, v, m, large),
        "offset": draw(st.integers(-6, 6)), "dt": draw(st.sampled_from([900, 900, 60, 10, 1, 86400])), "tz": draw(st.sampled_from([None, "UTC"])),
    }


def body_stats(c, ctx):
    idx = T0 + pd.to_timedelta(np.arange(len(c["cml"])) * c["dt"], unit="s")
    gt = T0 + pd.to_timedelta((c["offset"] + np.arange(len(c["grid"]))) * c["dt"], unit="s")
    cml = Cml([0, 0, 1, 1], pd.DatetimeIndex(idx, tz=c["tz"]))
    cml.data = pd.DataFrame({"txrx_nf": arr(c["cml"])}, index=pd.DatetimeIndex(idx, tz=c["tz"]))
    ts = xr.DataArray(arr(c["grid"]), dims="time", coords={"time": gt})
    fr = Frozen(data=cml.data, time_series=ts)
    got = call(Validator().calc_stats, cml, ts)
    fr.check("calc_stats")
    a = dict(zip(idx, c["cml"]))
    pairs = [(a[t], g) for t, g in zip(gt, c["grid"]) if t in a]
    if len(pairs) < 2:
        require(np.isnan(got), "correlation of less than two pairs")
        return False
    x, y = np.array(pairs).T
    if x.std() < 1e-6 or y.std() < 1e-6:
        return False
    exp = ((x - x.mean()) * (y - y.mean())).mean() / x.std() / y.std()
    same(float(got), exp, "correlation", 1e-7, 1e-7)
    same(float(call(Validator().calc_stats, cml, ts)), exp, "correlation, second call", 1e-7, 1e-7)
    return True


SUBS = [
    Sub("grid", case(), body, 150, rule="grid time steps within the period, path in several cells"),
    Sub("large", case(True), body, 12, 200, rule="grid time steps within the period, path in several cells"),
    Sub("stats", case_stats(), body_stats, 150, rule="at least two pairs which are not constant"),
]
ASSUMPTIONS = ["regular grids of at least 3 x 3 cells (cells not higher than wide), no gaps in the cells of the path, path inside of the grid"]
