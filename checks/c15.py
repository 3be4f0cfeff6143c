"""C15 wet-dry classification with the MLP models"""
import os
import pickle

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, call, must_raise, require, same

import pycomlink
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry

DIR = os.path.join(os.path.dirname(pycomlink.__file__), "processing/wet_dry/mlp_model_files")
MODELS = {}
for _name in ("rg", "rad", "rg_online", "rad_online"):
    with open(os.path.join(DIR, "model_%s.pkl" % _name), "rb") as fh:
        MODELS[_name] = pickle.load(fh)

W = 40


def signal(seed, n, nan):
    """noise, drift, a rain event; multiples of 1/1024 so that offsets are exact"""
    r = np.random.RandomState(seed)
    x = 50 + 2 * np.sin(np.arange(n) / (50 + 200 * r.rand())) + 0.3 * r.randn(n)
    a = r.randint(0, n)
    b = min(n, a + r.randint(5, 80))
    x[a:b] += 15 * r.rand() * np.sin(np.linspace(0, np.pi, b - a))
    if seed % 3 == 0:
        x += np.cumsum(r.randn(n)) * 0.2
    x = np.round(x * 1024) / 1024
    for i, k in nan:
        if k < 0:  # only a short part has data
            x[:i] = np.nan
            x[i - k :] = np.nan
        else:
            x[i : i + k] = np.nan
    return x


def window_of(sel, x):
    """rows with the 40 values of one channel used for each time step, NaN if
    there are less"""
    n = len(x)
    rows = np.full((n, W), np.nan)
    if sel.endswith("online"):
        for t in range(W, n):
            rows[t] = x[t - W + 1 : t + 1] - x[t - W : t]
        return rows
    d = np.full(n, np.nan)
    for t in range(n):
        w = x[max(0, t - 360) : t + 360]
        w = w[~np.isnan(w)]
        if len(w) >= 120:
            d[t] = x[t] - np.median(w)
    for t in range(20, n - 19):  # nothing for less than 40 time steps
        rows[t] = d[t - 20 : t + 20]
    return rows


def expected(sel, x, y):
    rows = np.hstack([window_of(sel, x), window_of(sel, y)])
    ok = ~np.isnan(rows).any(axis=1)
    out = np.full((len(x), 2), np.nan)
    if ok.any():
        out[ok] = MODELS[sel].predict_proba(rows[ok])
    return out


def nan_runs(n):
    if n > 400:
        part = st.tuples(st.integers(0, n - 60), st.integers(-240, -60)).map(lambda v: [v])
        return st.one_of(short_runs(n), part.map(lambda v: [list(v[0])]), long_run(n))
    return short_runs(n)


def long_run(n):
    return st.tuples(st.integers(0, n - 1), st.integers(100, 700)).map(lambda v: [list(v)])


def short_runs(n):
    return st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 8)).map(list), max_size=3)


@st.composite
def case_of(draw, sels, lengths):
    sel = draw(st.sampled_from(sels))
    n = draw(lengths)
    return {
        "sel": sel, "n": n,
        "seeds": [draw(st.integers(0, 10**6)), draw(st.integers(0, 10**6))],
        "nan": [draw(nan_runs(n)), draw(nan_runs(n))],
        "offset": draw(st.sampled_from([0, 10, -30, 64])),
        "default": draw(st.booleans()),
        "jump": draw(st.sampled_from([None, None, None, [40, 70], [-60, 90], [300, -100]])),
    }


def signals(c):
    out = []
    for i, (s, m) in enumerate(zip(c["seeds"], c["nan"])):
        x = signal(s, c["n"], m)
        if c["jump"] and s % 2 == 0:  # e.g. another transmit power
            x[c["n"] // 2 :] += c["jump"][i]
        out.append(x)
    return out


def da(x):
    return xr.DataArray(x, dims="time", coords={"time": np.arange(len(x))})


def body(c, ctx):
    sel = c["sel"]
    x, y = signals(c)
    dx, dy = da(x), da(y)
    fr = Frozen(trsl_channel_1=dx, trsl_channel_2=dy)
    if sel == "rad_online" and c["default"]:
        got = call(mlp_wet_dry, dx, dy)
    else:
        got = call(mlp_wet_dry, dx, dy, model_sel=sel)
    fr.check("mlp_wet_dry")
    got = np.asarray(got)
    exp = expected(sel, x, y)
    same(got, exp, "probabilities of model %s" % sel, rtol=1e-7, atol=1e-9)
    ok = ~np.isnan(got[:, 0])
    require((got[ok] >= 0).all() and (got[ok] <= 1).all(), "not probabilities")
    # the level of a channel does not matter
    got2 = np.asarray(call(mlp_wet_dry, da(x + c["offset"]), da(y - c["offset"]), model_sel=sel))
    same(got2, got, "with an offset", atol=1e-9)
    ctx.label(sel)
    ctx.label("no prediction at all", not ok.any())
    return bool(ok.any())


@st.composite
def case_causal(draw):
    c = draw(case_of(["rg_online", "rad_online"], st.integers(60, 160)))
    c["k"] = draw(st.integers(41, c["n"]))
    return c


def body_causal(c, ctx):
    x, y = signals(c)
    k = c["k"]
    full = np.asarray(call(mlp_wet_dry, da(x), da(y), model_sel=c["sel"]))
    part = np.asarray(call(mlp_wet_dry, da(x[:k]), da(y[:k]), model_sel=c["sel"]))
    same(part, full[:k], "online model, with and without the future", atol=1e-9)
    return bool((~np.isnan(part)).any())


names = st.sampled_from(["", "RG", "rg ", "radar", "online", "rg_offline", "rad-online", "mlp"])


def body_name(c, ctx):
    x = da(signal(1, 100, []))
    must_raise(ValueError, mlp_wet_dry, x, x, model_sel=c["sel"])
    return True


SUBS = [
    Sub("long", case_of(["rg_online", "rad_online", "rg", "rad"], st.sampled_from([2000, 3100, 4500])), body, 3, 30,
        rule="at least one time step is classified"),
    Sub("online", case_of(["rg_online", "rad_online"], st.one_of(st.integers(41, 200), st.integers(1, 42))), body, 150,
        rule="at least one time step is classified"),
    Sub("offline", case_of(["rg", "rad"], st.one_of(st.integers(40, 400), st.integers(1, 42), st.sampled_from([760, 900, 1100, 1440]))),
        body, 40, 250, rule="at least one time step is classified"),
    # about as many values as the median needs
    Sub("short", case_of(["rg", "rad"], st.integers(118, 124)), body, 24, 150, rule="at least one time step is classified"),
    Sub("causality", case_causal(), body_causal, 60, rule="at least one time step is classified"),
    Sub("names", st.fixed_dictionaries({"sel": names}), body_name, 16, 30, rule="all cases"),
]
ASSUMPTIONS = ["models as pickled in the repository"]
