"""C30 from signal levels to rain rates: the whole processing chain"""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, call, require, same
from pbt.gen import dyadic, pos, runs

import pycomlink as pycml

from checks.c02 import H, V, expected as ab_expected
from checks.c10 import TOL, model as waa_model

P = pycml.processing
WAA = ["none", "schleiss", "leijnse", "pastorek"]


def chain(trsl, wet, f, pol, L, waa, n_avg, R_min=0.1):
    """What the notebooks do, all channels at once"""
    base = P.baseline.baseline_constant(trsl=trsl, wet=wet, n_average_last_dry=n_avg)
    A = trsl - base
    if waa == "schleiss":
        w = P.wet_antenna.waa_schleiss_2013(rsl=trsl, baseline=base, wet=wet, waa_max=2.3, delta_t=1, tau=15)
        return P.k_R_relation.calc_R_from_A(A=A - w, L_km=L, f_GHz=f, pol=pol, R_min=R_min)
    A = A.where(A.isnull() | (A >= 0), 0)
    if waa == "leijnse":
        w = P.wet_antenna.waa_leijnse_2008_from_A_obs(A_obs=A, f_Hz=f * 1e9, pol=pol, L_km=L)
    elif waa == "pastorek":
        w = P.wet_antenna.waa_pastorek_2021_from_A_obs(A_obs=A, f_Hz=f * 1e9, pol=pol, L_km=L)
    else:
        w = A * 0
    return P.k_R_relation.calc_R_from_A(A=A - w, L_km=L, f_GHz=f, pol=pol, R_min=R_min)


def ds_of(c, cols=None, rows=None):
    """time x channel arrays of the case"""
    x = np.array([[np.nan if v is None else v for v in r] for r in c["trsl"]], dtype=float)
    cols = list(range(x.shape[1])) if cols is None else cols
    rows = slice(rows)
    ch = ["ch%d" % i for i in cols]
    time = np.datetime64("2020-06-01", "ns") + np.arange(len(x)) * np.timedelta64(60, "s")
    ds = xr.Dataset(
        {
            "trsl": (("time", "channel_id"), x[rows][:, cols]),
            "wet": (("time", "channel_id"), np.array(c["wet"], dtype=bool)[rows][:, cols]),
        },
        coords={
            "time": time[rows], "channel_id": ch, "length": float(c["L"]),
            "frequency": ("channel_id", [c["f"][i] for i in cols]),
            "polarization": ("channel_id", [c["pol"][i] for i in cols]),
        },
    )
    return ds.transpose("channel_id", "time") if c["t_last"] else ds


def run(c, ds, R_min=0.1):
    fr = Frozen(ds=ds)
    R = call(chain, ds.trsl, ds.wet, ds.frequency, ds.polarization, ds.length, c["waa"], c["n_avg"], R_min)
    fr.check("the processing")
    require(set(R.dims) == {"time", "channel_id"}, "dimensions %s", R.dims)
    require(np.array_equal(R.time.values, ds.time.values) and list(R.channel_id.values) == list(ds.channel_id.values),
            "coordinates")
    return R.transpose("time", "channel_id").values


def near(a, b, what, R_min=0.1, rtol=1e-6):
    """like same, but at the detection limit the rain rate may be zero or not"""
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    edge = (np.abs(np.maximum(a, b) - R_min) < 1e-6) & ((a == 0) | (b == 0))
    a[edge] = b[edge]
    same(a, b, what, rtol, 1e-6)


def below_level(ds, n):
    b = P.baseline.baseline_constant(trsl=ds.trsl, wet=ds.wet, n_average_last_dry=n)
    return b.transpose("time", "channel_id").values


@st.composite
def case(draw):
    m = draw(st.integers(1, 3))
    n = draw(st.integers(2, 30))
    cols, wets = [], []
    for _ in range(m):
        wet = draw(runs(min_n=n, max_n=n, max_run=8))
        level = draw(dyadic(40, 70))
        x = [level + (draw(dyadic(-1, 25)) if w else draw(dyadic(-0.5, 0.5))) for w in wet]
        for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
            x[i] = None
        cols.append(x)
        wets.append(wet)
    return {
        "trsl": [list(r) for r in zip(*cols)], "wet": [list(r) for r in zip(*wets)],
        "f": [draw(st.floats(7, 80)) for _ in range(m)], "pol": [draw(st.sampled_from(H + V)) for _ in range(m)],
        "L": draw(pos(0.3, 30)), "waa": draw(st.sampled_from(WAA)), "n_avg": draw(st.sampled_from([1, 1, 2, 4])),
        "offset": draw(dyadic(-60, 60)), "k": draw(st.integers(1, n)), "perm": draw(st.permutations(range(m))),
        "t_last": draw(st.booleans()),
    }


def body(c, ctx):
    ds = ds_of(c)
    R = run(c, ds)
    x, wet = ds.trsl.transpose("time", "channel_id").values, np.array(c["wet"], dtype=bool)
    n = c["n_avg"]
    nan = np.isnan(x)
    require(np.isnan(R[nan]).all(), "rain rate where there is no signal level")
    dry = ~wet & ~nan
    dry[:n] = False
    require((R[dry] == 0).all(), "rain in a dry period: %s", R[dry])
    ok = ~np.isnan(R)
    require((R[ok] >= 0).all() and ((R[ok] == 0) | (R[ok] >= 0.1)).all(), "rain rates %s", R[ok])
    # the signal level itself does not matter
    near(run(c, ds.assign(trsl=ds.trsl + c["offset"])), R, "rain rates with an offset of %s dB" % c["offset"])
    # a channel does not depend on the others
    for i in range(R.shape[1]):
        near(run(c, ds_of(c, [i]))[:, 0], R[:, i], "channel %d alone" % i)
    perm = list(c["perm"])
    near(run(c, ds_of(c, perm)), R[:, perm], "channels in another order")
    # nor on what comes later
    near(run(c, ds_of(c, None, c["k"])), R[: c["k"]], "only the first %d time steps" % c["k"])
    # taking the wet antenna attenuation into account means less rain. The model
    # of Schleiss et al. is for levels which are never below the baseline
    below = c["waa"] == "schleiss" and (x < call(below_level, ds, n)).any()
    if c["waa"] != "none" and not below:
        R0 = run(dict(c, waa="none"), ds)
        both = ok & ~np.isnan(R0)
        require((R[both] <= R0[both] * (1 + 1e-9)).all(), "more rain with WAA correction than without")
    ctx.label(c["waa"])
    return bool((R[ok] > 0).any())


@st.composite
def case_inv(draw):
    n_dry = draw(st.integers(1, 6))
    rain = draw(st.lists(st.one_of(pos(0.2, 200), dyadic(1, 100)), min_size=1, max_size=10))
    m = draw(st.integers(1, 2))
    return {
        "level": [draw(dyadic(30, 80)) for _ in range(m)], "n_dry": n_dry, "rain": rain,
        "after": draw(st.integers(0, 3)),
        "f": [draw(st.floats(7, 80)) for _ in range(m)], "pol": [draw(st.sampled_from(H + V)) for _ in range(m)],
        "L": draw(pos(0.3, 30)), "waa": draw(st.sampled_from(["none", "leijnse", "pastorek"])),
        "n_avg": draw(st.integers(1, n_dry)), "t_last": draw(st.booleans()),
    }


def body_inv(c, ctx):
    """a rain event with known rain rates is found again"""
    rain = [0.0] * c["n_dry"] + c["rain"] + [0.0] * c["after"]
    wet = [r > 0 for r in rain]
    m = len(c["f"])
    lo, hi, trsl = (np.zeros((len(rain), m)) for _ in range(3))
    for j in range(m):
        a, b = ab_expected(c["f"][j], c["pol"][j], "ITU_2005")
        f = waa_model(c["waa"], c["f"][j] * 1e9, c["pol"][j], c["L"], {}) if c["waa"] != "none" else (lambda A: 0.0)
        for i, r in enumerate(rain):
            A = a * r**b * c["L"]
            w = f(A) if r else 0.0
            if A + w > 100:
                return False  # the tables of the WAA end there
            trsl[i, j] = c["level"][j] + A + w
            tol = TOL * w + 1e-7
            lo[i, j] = (max(0.0, A - tol) / (a * c["L"])) ** (1 / b)
            hi[i, j] = ((A + tol) / (a * c["L"])) ** (1 / b)
    c = dict(c, trsl=trsl.tolist(), wet=[[w] * m for w in wet])
    R = run(c, ds_of(c), R_min=0)
    bad = (R < lo * (1 - 1e-6)) | (R > hi * (1 + 1e-6) + 1e-9) | np.isnan(R)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        require(False, "rain rate %s came out as %s, allowed is %s to %s", rain[i], R[i, j], lo[i, j], hi[i, j])
    require((R[~np.array(wet)] == 0).all(), "rain in the dry period")
    ctx.label(c["waa"])
    return len(c["rain"]) > 1


SUBS = [
    Sub("chain", case(), body, 130, 900, rule="some rain"),
    Sub("known_rain", case_inv(), body_inv, 150, 1500, rule="a rain event of more than one time step"),
]
ASSUMPTIONS = [
    "observed attenuation up to 100 dB, 7-80 GHz, 0.3-30 km",
    "the chain is the one of the notebooks: constant baseline, WAA correction, k-R power law",
]
