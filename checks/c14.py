"""C14 rain rate of the nearby link approach"""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, grown, pos, series

from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival as retrieve

from checks.c02 import H, V, expected as ab_expected

CH = ["x", "y", "z"] + ["link %d" % i for i in range(100)]


@st.composite
def case(draw):
    n = draw(st.integers(1, 15))
    m = draw(st.integers(1, 3))
    use = draw(st.sampled_from(["ab", "fpol"]))
    kw = draw(
        st.fixed_dictionaries(
            {},
            optional={
                "waa_max": st.one_of(dyadic(0, 4), st.floats(0, 5)),
                "alpha": st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5])),
                "F_value_threshold": st.one_of(st.none(), st.sampled_from([-32.5, -10.0, 0.0, -2.5])),
            },
        )
    )
    c = {
        "pref": [draw(series(n, dyadic(-50, -40))) for _ in range(m)],
        "amin": [draw(series(n, st.one_of(dyadic(-1, 20), st.just(0.0)))) for _ in range(m)],
        "amax": [draw(series(n, dyadic(0, 20))) for _ in range(m)],
        "F": [
            draw(series(n, st.one_of(dyadic(-60, 20, 2), st.sampled_from([-32.5, -10.0, -2.5, 0.0, -32.0, -33.0]))))
            for _ in range(m)
        ],
        "L": draw(st.lists(pos(0.1, 50), min_size=m, max_size=m)),
        "use": use, "kw": kw,
        "per_cml": draw(st.booleans()),
        "a": draw(st.lists(pos(1e-3, 3), min_size=m, max_size=m)),
        "b": draw(st.lists(st.floats(0.6, 1.4), min_size=m, max_size=m)),
        "f": draw(st.lists(st.floats(2, 90), min_size=m, max_size=m)),
        "pol": draw(st.lists(st.sampled_from(H + V), min_size=m, max_size=m)),
        "table": draw(st.sampled_from([None, "ITU_2003", "ITU_2005"])),
    }
    return c


def body(c, ctx):
    pref, amin, amax, F = (arr(c[k]) for k in ("pref", "amin", "amax", "F"))
    m = len(pref)
    p_min, p_max = pref - amax, pref - amin
    kw = dict(c["kw"])
    waa, alpha = kw.get("waa_max", 2.3), kw.get("alpha", 0.33)
    thr = kw.get("F_value_threshold", -32.5)
    if c["use"] == "fpol":
        ab = [ab_expected(f, p, c["table"] or "ITU_2005") for f, p in zip(c["f"], c["pol"])]
        if c["table"]:
            kw["a_b_approximation"] = c["table"]
    else:
        ab = list(zip(c["a"], c["b"]))
    L = list(c["L"])
    if not c["per_cml"]:
        ab, L = [ab[0]] * m, [L[0]] * m
    exp = np.full(pref.shape, np.nan)
    for i in range(m):
        a, b = ab[i]
        x_min = np.maximum(pref[i] - p_max[i] - waa, 0)
        x_max = np.maximum(pref[i] - p_min[i] - waa, 0)
        exp[i] = alpha * (x_max / (a * L[i])) ** (1 / b) + (1 - alpha) * (
            x_min / (a * L[i])
        ) ** (1 / b)
    if thr is not None:
        exp[F <= thr] = np.nan
    # DataArrays
    co = {"cml_id": CH[:m], "time": np.arange(pref.shape[1])}
    da = [xr.DataArray(x, dims=("cml_id", "time"), coords=co) for x in (pref, p_min, p_max, F)]

    def per(x):
        if c["per_cml"]:
            return xr.DataArray(x, dims="cml_id", coords={"cml_id": CH[:m]})
        return x[0]

    par = (
        {"f_GHz": per(c["f"]), "pol": per(c["pol"])}
        if c["use"] == "fpol"
        else {"a": per(c["a"]), "b": per(c["b"])}
    )
    fr = Frozen(pref=da[0], p_c_min=da[1], p_c_max=da[2], F=da[3])
    got = call(retrieve, *da, length=per(c["L"]), **par, **kw)
    fr.check("nearby_rainfall_retrival")
    same(got.transpose("cml_id", "time").values, exp, "rain rate", rtol=1e-6, atol=1e-10)
    # numpy, one CML
    one = {k: (v.values[0].item() if c["per_cml"] else v) for k, v in par.items()}
    fr = Frozen(pref=pref, p_c_min=p_min, p_c_max=p_max, F=F)
    got = call(retrieve, pref[0], p_min[0], p_max[0], F[0], length=L[0], **one, **kw)
    fr.check("nearby_rainfall_retrival")
    same(got, exp[0], "rain rate of one CML", rtol=1e-6, atol=1e-10)
    ctx.label("outlier", bool(thr is not None and (F <= thr).any()))
    ctx.label("no threshold", thr is None)
    return bool((exp > 0).any())


@st.composite
def case_reject(draw):
    return {"given": draw(st.sets(st.sampled_from(["f_GHz", "pol", "a", "b"]), max_size=4).map(sorted))}


def body_reject(c, ctx):
    vals = {"f_GHz": 20.0, "pol": "H", "a": 0.1, "b": 1.0}
    kw = {k: vals[k] for k in c["given"]}
    x = np.array([-40.0, -42.0])
    args = (x, x - 5, x - 4, x * 0)
    if set(kw) in ({"f_GHz", "pol"}, {"a", "b"}):
        call(retrieve, *args, length=2.0, **kw)
        return False
    must_raise(ValueError, retrieve, *args, length=2.0, **kw)
    return True


ROWS = ("pref", "amin", "amax", "F", "L", "a", "b", "f", "pol")
many = grown(case(), ROWS, sizes=(2, 13, 40))
SUBS = [
    Sub("large", grown(many, ROWS[:4], sizes=(30, 200, 600), axis=1), body, 20, 100,
        rule="rain in at least one time step"),
    Sub("model", case(), body, 400, rule="rain in at least one time step"),
    Sub("reject", case_reject(), body_reject, 30, 60, rule="forbidden combination"),
]
