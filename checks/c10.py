"""C10 wet antenna attenuation from observed attenuation"""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, grown, or_nan, pos

from pycomlink.processing import wet_antenna as wa

from checks.c02 import H, V, expected as ab_expected
from checks.c09 import leijnse_ref

FUNCS = {
    "leijnse": wa.waa_leijnse_2008_from_A_obs,
    "pastorek": wa.waa_pastorek_2021_from_A_obs,
}


def model(kind, f_Hz, pol, L, kw):
    """rain attenuation -> WAA"""
    a, b = ab_expected(f_Hz / 1e9, pol, "ITU_2005")

    def waa(A_rain):
        R = (A_rain / (a * L)) ** (1 / b)
        if kind == "pastorek":
            p = dict(A_max=14, zeta=0.55, d=0.1)
            p.update(kw)
            return -p["A_max"] * math.expm1(-p["d"] * R ** p["zeta"])
        p = dict(kw)
        if "n_antenna" in p:
            p["n_ant"] = complex(*p.pop("n_antenna"))
        if "l_antenna" in p:
            p["l_ant"] = p.pop("l_antenna")
        return leijnse_ref(R, f_Hz, **p)

    return waa


def solve(waa, A_obs):
    """WAA with A_rain + WAA(A_rain) = A_obs, by bisection of log A_rain"""
    if A_obs == 0:
        return 0.0
    lo, hi = -320.0, math.log10(A_obs)
    for _ in range(70):
        mid = (lo + hi) / 2
        if 10**mid + waa(10**mid) > A_obs:
            hi = mid
        else:
            lo = mid
    return A_obs - 10**lo


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(FUNCS)))
    opt = (
        {"A_max": pos(1, 20), "zeta": st.floats(0.2, 1.0), "d": pos(0.05, 0.5)}
        if kind == "pastorek"
        else {
            "T_K": st.floats(273, 303),
            "gamma": pos(1e-5, 4e-5),
            "delta": st.floats(0.15, 0.4),
            "n_antenna": st.tuples(st.floats(1.6, 1.9), st.floats(0.005, 0.03)).map(list),
            "l_antenna": st.floats(0.0005, 0.002),
        }
    )
    return {
        "kind": kind,
        "A": draw(
            st.lists(
                or_nan(st.one_of(pos(1e-3, 100), pos(1e-3, 500), dyadic(0, 60), st.just(0.0)), 10),
                min_size=1, max_size=8,
            )
        ),
        "f": draw(st.floats(6, 90)) * 1e9,
        "pol": draw(st.sampled_from(H + V)),
        "L": draw(pos(0.1, 50)),
        "kw": draw(st.one_of(st.just({}), st.fixed_dictionaries({}, optional=opt))),
    }


def body(c, ctx):
    func = FUNCS[c["kind"]]
    A = arr(c["A"])
    waa = model(c["kind"], c["f"], c["pol"], c["L"], c["kw"])
    known = {x: np.nan if x is None else solve(waa, float(x)) for x in set(c["A"])}
    exp = np.array([known[x] for x in c["A"]])
    fr = Frozen(A=A)
    kw = dict(c["kw"])
    if "n_antenna" in kw:
        kw["n_antenna"] = complex(*kw["n_antenna"])
    args = dict(f_Hz=c["f"], pol=c["pol"], L_km=c["L"], **kw)
    got = np.asarray(call(func, A, **args), dtype=float)
    fr.check(func.__name__)
    # the code interpolates in a table: compare within its resolution
    same(got, exp, "%s WAA of A_obs=%s" % (c["kind"], A), rtol=TOL, atol=1e-9)
    require((got[A == 0] == 0).all(), "WAA without attenuation")
    ok = ~np.isnan(A)
    require((got[ok] >= 0).all() and (got[ok] <= A[ok] + 1e-12).all(),
            "WAA %s not between 0 and the attenuation %s", got, A)
    o = np.argsort(A[ok])
    require((np.diff(got[ok][o]) >= -1e-9).all(), "WAA not increasing with A_obs")
    require((np.diff((A - got)[ok][o]) >= -1e-9).all(), "rain attenuation not increasing with A_obs")
    # the WAA of the rain which is left is the WAA that was removed
    for x, w, e in zip(A, got, exp):
        if x > 0 and x - e >= 1e-9:
            same(waa(x - w) if x > w else 0.0, w, "%s: WAA of the rain attenuation left" % c["kind"], TOL, 1e-9)
    # same result per element, in another shape, as DataArray
    i = len(A) // 2
    same(call(func, A[i : i + 1], **args), got[i : i + 1], "single element")
    same(call(func, A[::-1], **args), got[::-1], "reversed")
    for x, w in zip(c["A"][:2], got):
        if x is not None:
            same(float(call(func, float(x), **args)), w, "scalar")
    da = xr.DataArray(np.stack([A, A[::-1]]), dims=("channel_id", "time"),
                      coords={"channel_id": ["a", "b"]})
    d = call(func, da, **args)
    same(d.transpose("channel_id", "time").values, np.stack([got, got[::-1]]), "DataArray")
    # one link parameter per channel
    p2 = "V" if c["pol"] in H else "H"
    d = call(
        func, da,
        f_Hz=xr.DataArray([c["f"], c["f"] / 2], dims="channel_id", coords={"channel_id": ["a", "b"]}),
        pol=xr.DataArray([c["pol"], p2], dims="channel_id", coords={"channel_id": ["a", "b"]}),
        L_km=c["L"], **kw,
    ).transpose("channel_id", "time")
    same(d.values[0], got, "first channel of two different ones")
    args.update(f_Hz=c["f"] / 2, pol=p2)
    same(d.values[1], call(func, A[::-1], **args), "second channel of two different ones")
    ctx.label(c["kind"])
    return bool((exp[ok] > 0.01).any())


TOL = 0.02


@st.composite
def case_neg(draw):
    A = draw(st.lists(or_nan(dyadic(0, 20)), min_size=0, max_size=6))
    A.insert(draw(st.integers(0, len(A))), -draw(st.one_of(pos(1e-6, 10), dyadic(0.125, 4))))
    return {"kind": draw(st.sampled_from(sorted(FUNCS))), "A": A}


def body_neg(c, ctx):
    must_raise(ValueError, FUNCS[c["kind"]], arr(c["A"]), f_Hz=2e10, pol="H", L_km=2.0)
    return True


SUBS = [
    Sub("large", grown(case(), "A", sizes=(60, 150, 1000)), body, 15, 100, rule="WAA above 0.01 dB"),
    Sub("implicit", case(), body, 250, rule="WAA above 0.01 dB"),
    Sub("negative", case_neg(), body_neg, 60, 200, rule="all cases"),
]
ASSUMPTIONS = [
    "A_obs <= 500 dB, 6-90 GHz, 0.1-50 km; compared with the exact solution within 2 %"
]
