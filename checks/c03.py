"""C03 rain rate from attenuation"""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, grown, num, or_nan, pos

from pycomlink.processing.k_R_relation import a_b, calc_R_from_A

from checks.c02 import H, V, expected as ab_expected


INF = float("inf")


def R_values():
    return or_nan(st.one_of(pos(1e-4, 500), st.sampled_from([0.0, 0.1, 0.05, 1.0])), 9)


@st.composite
def case_round(draw):
    n = draw(st.integers(1, 12))
    return {
        "R": draw(st.lists(R_values(), min_size=n, max_size=n)),
        "a": draw(pos(1e-4, 5)), "b": draw(st.floats(0.5, 1.5)),
        "L": draw(pos(0.05, 60)),
        "R_min": draw(st.one_of(st.none(), pos(1e-3, 5), st.just(0.0))),
        "ndim": draw(st.sampled_from([1, 1, 2])),
    }


def body_round(c, ctx):
    R = arr(c["R"])
    A = c["a"] * R ** c["b"] * c["L"]
    if c["ndim"] == 2:
        A, R = np.stack([A, A[::-1]]), np.stack([R, R[::-1]])
    kw = {} if c["R_min"] is None else {"R_min": c["R_min"]}
    R_min = 0.1 if c["R_min"] is None else c["R_min"]
    fr = Frozen(A=A)
    got = call(calc_R_from_A, A, c["L"], a=c["a"], b=c["b"], **kw)
    fr.check("calc_R_from_A")
    got = np.asarray(got)
    require(got.shape == A.shape, "shape %s, expected %s", got.shape, A.shape)
    near = np.abs(R - R_min) <= 1e-9 * np.maximum(1, R)
    exp = np.where(R < R_min, 0.0, R)
    exp = np.where(near, got, exp)  # the round trip is not exact at the threshold
    require(
        (~near | (got == 0) | (np.abs(got - R) < 1e-7 * np.maximum(1, R))).all(),
        "rain rate at the threshold",
    )
    same(got, exp, "rain rate", rtol=1e-9, atol=0)
    ctx.label("R_min default", c["R_min"] is None)
    return bool((R > R_min).any())


@st.composite
def case_exact(draw):
    """a = b = 1: exact arithmetic, values exactly at the minimum"""
    n = draw(st.integers(1, 15))
    return {
        "A": draw(st.lists(or_nan(st.one_of(
            dyadic(-4, 4), dyadic(-4, 4), st.sampled_from([INF, -INF, 0.0, -0.0, 1e6, 1e-6]),
        )), min_size=n, max_size=n)),
        "L": draw(st.sampled_from([0.5, 1.0, 2.0, 4.0])),
        "a": draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])),
        "R_min": draw(dyadic(0, 3, 4)),
    }


def body_exact(c, ctx):
    A = arr(c["A"])
    R = A / (c["a"] * c["L"])
    exp = np.where(np.isnan(A), np.nan, np.where(R >= c["R_min"], R, 0.0))
    exp = np.where(A < 0, 0.0, exp)
    got = call(calc_R_from_A, A, c["L"], a=c["a"], b=1.0, R_min=c["R_min"])
    same(got, exp, "rain rate", rtol=1e-12, atol=0)
    ctx.label("at the minimum", bool((R == c["R_min"]).any()))
    ctx.label("infinite", bool(np.isinf(A).any()))
    ctx.label("negative", bool((A < 0).any()))
    return bool((R == c["R_min"]).any() or (A < 0).any() or np.isnan(A).any())


@st.composite
def case_fpol(draw):
    n = draw(st.integers(1, 8))
    per = draw(st.booleans())
    m = n if per else 1
    return {
        "A": draw(st.lists(or_nan(num(-5, 60)), min_size=n, max_size=n)),
        "f": draw(st.lists(num(1, 100), min_size=m, max_size=m)),
        "pol": draw(st.lists(st.sampled_from(H + V), min_size=m, max_size=m)),
        "one_pol": draw(st.booleans()), "L": draw(pos(0.05, 60)),
        "table": draw(st.sampled_from([None, "ITU_2005", "ITU_2003"])),
        "R_min": draw(st.one_of(st.none(), pos(1e-3, 5))),
    }


def body_fpol(c, ctx):
    A = arr(c["A"])
    f, pol = c["f"], list(c["pol"])
    if c["one_pol"]:
        pol = [pol[0]] * len(f)
    ab = np.array(
        [ab_expected(x, p, c["table"] or "ITU_2005") for x, p in zip(f, pol)]
    )
    a, b = ab[:, 0], ab[:, 1]
    R_min = 0.1 if c["R_min"] is None else c["R_min"]
    with np.errstate(all="ignore"):
        R = (np.where(A > 0, A, 0) / (a * c["L"])) ** (1 / b)
    exp = np.where(np.isnan(A), np.nan, np.where(R < R_min, 0, R))
    kw = {} if c["R_min"] is None else {"R_min": c["R_min"]}
    if c["table"]:
        kw["a_b_approximation"] = c["table"]
    fa = f[0] if len(f) == 1 else np.array(f)
    pa = pol[0] if len(f) == 1 or c["one_pol"] else np.array(pol)
    got = call(calc_R_from_A, A, c["L"], f_GHz=fa, pol=pa, **kw)
    # at the threshold, rounding of the interpolation decides
    near = np.abs(R - R_min) < 1e-6 * np.maximum(1, R)
    got = np.where(near & ~np.isnan(A), exp, got)
    same(got, exp, "rain rate from frequency", rtol=1e-6, atol=1e-12)
    # the same with a and b
    if len(f) == 1:
        aa, bb = call(a_b, f[0], pol[0], **({"approx_type": c["table"]} if c["table"] else {}))
        kw.pop("a_b_approximation", None)
        got2 = call(calc_R_from_A, A, c["L"], a=float(np.ravel(aa)[0]), b=float(np.ravel(bb)[0]), **kw)
        got2 = np.where(near & ~np.isnan(A), exp, got2)
        same(got2, got, "rain rate from a and b", rtol=1e-6, atol=1e-12)
    ctx.label("frequency per element", len(f) > 1)
    return bool((exp > 0).any())


@st.composite
def case_mono(draw):
    n = draw(st.integers(2, 15))
    return {
        "A": sorted(draw(st.lists(num(-10, 80), min_size=n, max_size=n))),
        "f": draw(num(1, 100)), "pol": draw(st.sampled_from(H + V)),
        "L": draw(pos(0.1, 50)), "R_min": draw(pos(1e-3, 10)),
    }


def body_mono(c, ctx):
    A = arr(c["A"])
    R = np.asarray(
        call(calc_R_from_A, A, c["L"], f_GHz=c["f"], pol=c["pol"], R_min=c["R_min"])
    )
    require((np.diff(R) >= -1e-12 * R[1:]).all(), "rain rate decreases with attenuation")
    require((R >= 0).all(), "negative rain rate")
    require(((R == 0) | (R >= c["R_min"])).all(), "rain rate below the minimum")
    # longer path, less rain; scalar input
    R2 = np.asarray(
        call(calc_R_from_A, A, 2 * c["L"], f_GHz=c["f"], pol=c["pol"], R_min=c["R_min"])
    )
    require((R2 <= R * (1 + 1e-12)).all(), "more rain on a longer path")
    s = call(calc_R_from_A, float(A[-1]), c["L"], f_GHz=c["f"], pol=c["pol"], R_min=c["R_min"])
    same(np.ravel(s), R[-1:], "scalar attenuation")
    return bool((R > 0).any())


@st.composite
def case_reject(draw):
    return {
        "given": draw(
            st.sets(st.sampled_from(["f_GHz", "pol", "a", "b"]), max_size=4).map(sorted)
        ),
        "xr": draw(st.booleans()),
    }


def body_reject(c, ctx):
    vals = {"f_GHz": 20.0, "pol": "H", "a": 0.1, "b": 1.0}
    given = c["given"]
    kw = {k: vals[k] for k in given}
    A = np.array([1.0, 2.0])
    if c["xr"]:
        A = xr.DataArray(A, dims="time")
    if set(given) in ({"f_GHz", "pol"}, {"a", "b"}):
        call(calc_R_from_A, A, 1.0, **kw)
        return False
    must_raise(ValueError, calc_R_from_A, A, 1.0, **kw)
    return True


def large_fpol(c, n, r):
    if len(c["f"]) > 1:
        idx = r.randint(0, len(c["f"]), n)
        c["f"], c["pol"] = [c["f"][i] for i in idx], [c["pol"][i] for i in idx]
    return c


SUBS = [
    Sub("large_round_trip", grown(case_round(), "R"), body_round, 25, rule="rain above the minimum"),
    Sub("large_exact", grown(case_exact(), "A"), body_exact, 25,
        rule="a value at the minimum, negative or NaN"),
    Sub("large_f_pol", grown(case_fpol(), "A", note=large_fpol), body_fpol, 25, rule="rain above the minimum"),
    Sub("round_trip", case_round(), body_round, 500, rule="rain above the minimum"),
    Sub("exact", case_exact(), body_exact, 400,
        rule="a value at the minimum, negative or NaN"),
    Sub("f_pol", case_fpol(), body_fpol, 300, rule="rain above the minimum"),
    Sub("monotone", case_mono(), body_mono, 200, rule="rain above the minimum"),
    Sub("reject", case_reject(), body_reject, 60, 100, rule="forbidden combination"),
]
