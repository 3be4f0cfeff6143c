"""C04 min/max data"""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import dyadic, long_case, long_values, num, or_nan, pos, series

from pycomlink.processing.k_R_relation import calc_R_from_A_min_max
from pycomlink.processing.min_max import _calc_A_min_max

from checks.c02 import H, V, expected as ab_expected

GAMMA = 0.57721566


@st.composite
def case_A(draw):
    n = draw(st.integers(1, 30))
    v = draw(st.sampled_from(["dyadic", "float"]))
    tx = dyadic(0, 30) if v == "dyadic" else num(0, 30)
    rx = dyadic(-80, -30) if v == "dyadic" else num(-80, -30)
    c = {
        "tx_min": draw(series(n, tx)), "tx_max": draw(series(n, tx)),
        "rx_min": draw(series(n, rx)), "rx_max": draw(series(n, rx)),
    }
    c["window"] = draw(st.one_of(st.none(), st.integers(1, 9)))
    c["gT"] = draw(st.one_of(st.none(), dyadic(0, 3)))
    c["gR"] = draw(st.one_of(st.none(), dyadic(0, 3)))
    return c


def long_A(r, n):
    p = r.choice([0, 0, 0.5])
    return {
        "tx_min": long_values(r, n, 0, 30, p), "tx_max": long_values(r, n, 0, 30, p),
        "rx_min": long_values(r, n, -80, -30, p), "rx_max": long_values(r, n, -80, -30, p),
        "window": int(r.choice([1, 7, 30, 200])), "gT": None, "gR": 0.25,
    }


def model_A(txmin, txmax, rxmin, rxmax, gT, gR, w):
    bias = (gT + gR) / 2
    amax = [a - b - bias for a, b in zip(txmax, rxmin)]
    amin = [a - b + bias for a, b in zip(txmin, rxmax)]
    out = []
    means = []
    for s in (amax, amin):
        ok = [x for x in s if x == x]
        m = float(np.rint(sum(ok) / len(ok))) if ok else np.nan
        means.append(sum(ok) / len(ok) if ok else np.nan)
        for i, x in enumerate(s):
            if x != x:
                s[i] = m
    for i in range(len(amax)):
        if i < w:
            out.append(np.nan)
        else:
            d = amax[i] - min(amin[i - w : i + 1])
            out.append(max(d, 0.0))
    return np.array(out), means


def body_A(c, ctx):
    ins = {k: arr(c[k]) for k in ("tx_min", "tx_max", "rx_min", "rx_max")}
    if any(
        np.isnan(x).all()
        for x in (ins["tx_max"] - ins["rx_min"], ins["tx_min"] - ins["rx_max"])
    ):
        return False
    kw = {k: c[k] for k in ("gT", "gR", "window") if c[k] is not None}
    exp, means = model_A(
        ins["tx_min"], ins["tx_max"], ins["rx_min"], ins["rx_max"],
        1.0 if c["gT"] is None else c["gT"], 0.6 if c["gR"] is None else c["gR"],
        7 if c["window"] is None else c["window"],
    )
    has_nan = any(np.isnan(x).any() for x in ins.values())
    if has_nan and any(abs(m - np.floor(m) - 0.5) < 1e-6 for m in means):
        return False  # the rounded mean is a matter of rounding errors
    fr = Frozen(**ins)
    got = call(_calc_A_min_max, **ins, **kw)
    fr.check("the min/max attenuation")
    same(got, exp, "min/max attenuation", atol=1e-7)
    ctx.label("NaN", has_nan)
    return bool((exp > 0).any())


@st.composite
def case_R(draw):
    n = draw(st.integers(1, 12))
    return {
        "A": draw(st.lists(or_nan(st.one_of(num(-5, 60), pos(1e-3, 60))), min_size=n, max_size=n)),
        "L": draw(pos(0.1, 50)),
        "how": draw(st.sampled_from(["f", "f_pol", "ab"])),
        "f": draw(num(1, 100)), "pol": draw(st.sampled_from(H + V)),
        "a": draw(pos(1e-3, 5)), "b": draw(st.floats(0.6, 1.4)),
        "k": draw(st.one_of(st.none(), st.integers(2, 500))),
        "R_min": draw(st.one_of(st.none(), pos(1e-3, 5))),
    }


def body_R(c, ctx):
    A = arr(c["A"])
    kw = {k: c[k] for k in ("k", "R_min") if c[k] is not None}
    if c["how"] == "ab":
        a, b = c["a"], c["b"]
        kw.update(a=a, b=b)
    else:
        pol = "H" if c["how"] == "f" else c["pol"]
        a, b = ab_expected(c["f"], pol, "ITU_2005")
        kw.update(f_GHz=c["f"])
        if c["how"] == "f_pol":
            kw["pol"] = pol
    k = 90 if c["k"] is None else c["k"]
    R_min = 0.1 if c["R_min"] is None else c["R_min"]
    fr = Frozen(A=A)
    got = np.asarray(call(calc_R_from_A_min_max, A, c["L"], **kw))
    fr.check("calc_R_from_A_min_max")
    with np.errstate(all="ignore"):
        R = (np.where(A > 0, A, 0) / (a * c["L"])) ** (1 / b) / (np.log(k) + GAMMA)
    exp = np.where(np.isnan(A), np.nan, np.where(R < R_min, 0, R))
    near = np.abs(R - R_min) < 1e-6 * np.maximum(1, R)
    same(np.where(near & ~np.isnan(A), exp, got), exp, "rain rate", rtol=1e-6, atol=1e-12)
    require(
        (np.isnan(A) | (got == 0) | (got >= R_min)).all(), "rain rate below the minimum"
    )
    # a rain rate equal to the minimum is kept
    for i in np.argwhere(got > 0).ravel()[:1]:
        kw["R_min"] = float(got[i])
        again = np.asarray(call(calc_R_from_A_min_max, A, c["L"], **kw))
        require(again[i] == got[i], "a rain rate of exactly R_min became %r", again[i])
    if not np.isnan(A).any():
        whole = np.trunc(A)
        kw["R_min"] = 0
        same(call(calc_R_from_A_min_max, whole.astype(int), c["L"], **kw),
             call(calc_R_from_A_min_max, whole, c["L"], **kw), "rain rate from integers")
    return bool((exp > 0).any())


SUBS = [
    Sub("long_series", long_case(long_A), body_A, 15, 150, rule="some attenuation above zero"),
    Sub("attenuation", case_A(), body_A, 500, rule="some attenuation above zero"),
    Sub("rain_rate", case_R(), body_R, 400, rule="rain above the minimum"),
]
