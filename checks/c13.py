"""C13 reference level and corrected signal levels of the nearby link approach"""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import dyadic, long_case, long_states, long_values, runs, series

from pycomlink.processing.nearby_rain_retrival import (
    nearby_correct_received_signals as correct,
    nearby_determine_reference_level as reference,
)

CH = ["x", "y", "z"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 30))
    m = draw(st.integers(1, 3))
    n_av = draw(st.integers(1, 12))
    lev = st.one_of(dyadic(-60, -40, 2), st.floats(-60, -40))
    return {
        "pmin": [draw(series(n, lev)) for _ in range(m)],
        "pmax": [draw(series(n, lev)) for _ in range(m)],
        "wet": [
            draw(runs(states=(0, 0, 1, None), min_n=n, max_n=n, max_run=8)) for _ in range(m)
        ],
        "same": draw(st.integers(0, 4)) == 0,
        "n_average_dry": n_av,
        "min_periods": draw(st.integers(1, n_av)),
        "dims": draw(st.sampled_from(["ct", "tc"])),
    }


def long_model(r, n):
    N = int(r.choice([96, 96, 24, 400]))
    p = r.choice([0, 0.3])
    return {
        "pmin": [long_values(r, n, -60, -40, p) for _ in range(2)],
        "pmax": [long_values(r, n, -60, -40, p) for _ in range(2)],
        "wet": [long_states(r, n, (0, 0, 1, None)) for _ in range(2)],
        "same": False, "n_average_dry": N, "min_periods": int(r.choice([1, N // 2, N])), "dims": "ct",
    }


def make(c, name):
    da = xr.DataArray(
        arr(c[name]), dims=("cml_id", "time"),
        coords={"cml_id": CH[: len(c["wet"])], "time": np.arange(len(c["wet"][0])) * 15},
    )
    return da if c["dims"] == "ct" else da.transpose("time", "cml_id")


def body(c, ctx):
    pmin, pmax, wet = (make(c, k) for k in ("pmin", "pmax", "wet"))
    if c["same"]:
        pmax = pmin
    N, k = c["n_average_dry"], c["min_periods"]
    fr = Frozen(pmin=pmin, pmax=pmax, wet=wet)
    pref = call(reference, pmin, pmax, wet, n_average_dry=N, min_periods=k)
    fr.check("nearby_determine_reference_level")
    require(pref.dims == pmin.dims, "dimensions of the reference level")
    lo, hi, w = (x.transpose("cml_id", "time").values.astype(float) for x in (pmin, pmax, wet))
    mean = (lo + hi) / 2
    exp = np.full(mean.shape, np.nan)
    for i in range(mean.shape[0]):
        for t in range(mean.shape[1]):
            s = slice(max(0, t - N + 1), t + 1)
            v = mean[i, s][w[i, s] == 0]
            v = v[~np.isnan(v)]
            if len(v) >= k:
                exp[i, t] = np.median(v)
    same(pref.transpose("cml_id", "time").values, exp, "reference level", atol=1e-9)
    return bool(((w == 1) & ~np.isnan(exp)).any())


@st.composite
def case_def(draw):
    """default parameters: 96 time steps"""
    n = draw(st.sampled_from([110, 130, 98]))
    seed = draw(st.integers(0, 10**6))
    return {"n": n, "seed": seed}


def body_def(c, ctx):
    r = np.random.RandomState(c["seed"])
    p = xr.DataArray(np.round(r.uniform(-60, -40, c["n"]) * 4) / 4, dims="time")
    q = p + np.round(r.uniform(0, 3, c["n"]) * 4) / 4
    wet = xr.DataArray((r.rand(c["n"]) < r.choice([0.1, 0.5, 0.95])).astype(float), dims="time")
    got = call(reference, p, q, wet).values
    exp = np.full(c["n"], np.nan)
    for t in range(c["n"]):
        s = slice(max(0, t - 95), t + 1)
        v = ((p + q) / 2).values[s][wet.values[s] == 0]
        if len(v):
            exp[t] = np.median(v)
    same(got, exp, "reference level with the default parameters")
    return True


@st.composite
def case_c(draw):
    c = draw(case())
    n, m = len(c["wet"][0]), len(c["wet"])
    lev = dyadic(-60, -40, 2)
    c["pref"] = [draw(series(n, lev)) for _ in range(m)]
    return c


def body_c(c, ctx):
    pmin, pmax, wet, pref = (make(c, k) for k in ("pmin", "pmax", "wet", "pref"))
    if c["same"]:
        pmax = pmin
    fr = Frozen(pmin=pmin, pmax=pmax, wet=wet, pref=pref)
    gmin, gmax = call(correct, pmin, pmax, wet, pref)
    fr.check("nearby_correct_received_signals")
    lo, hi, w, r = (
        x.transpose("cml_id", "time").values.astype(float) for x in (pmin, pmax, wet, pref)
    )
    emin, emax = r.copy(), r.copy()
    for i in np.ndindex(r.shape):
        if w[i] == 1 and lo[i] < r[i]:
            emin[i] = lo[i]
            if hi[i] < r[i]:
                emax[i] = hi[i]
    same(gmin.transpose("cml_id", "time").values, emin, "corrected minimum", 0, 0)
    same(gmax.transpose("cml_id", "time").values, emax, "corrected maximum", 0, 0)
    if c["same"]:
        same(gmax.values, gmin.values, "without own maximum", 0, 0)
    return bool((emin < r).any())


SUBS = [
    Sub("long_series", long_case(long_model, (300, 800)), body, 10, 60, rule="a wet time step has a reference level"),
    Sub("reference", case(), body, 350, rule="a wet time step has a reference level"),
    Sub("defaults", case_def(), body_def, 15, 40, rule="all cases"),
    Sub("correction", case_c(), body_c, 350, rule="a minimum below the reference is kept"),
]
