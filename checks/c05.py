"""C05 constant baseline"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import long_case, long_states, long_values, num, runs, series

import pycomlink.processing.baseline as bl


@st.composite
def case(draw, nan_wet=True):
    states = draw(
        st.sampled_from([(0, 1), (0, 0, 1), (0, 1, None), (0, 1, 1, None)])
        if nan_wet
        else st.just((0, 1))
    )
    wet = draw(runs(states=states, min_n=1, max_n=40, max_run=7))
    trsl = draw(series(len(wet)))
    n = draw(st.integers(1, 6))
    return {"trsl": trsl, "wet": wet, "n": n}


def model(trsl, wet, n):
    """Straight from the docs, one sample after the other"""
    out = []
    for i in range(len(trsl)):
        w = wet[i]
        if w is None:
            out.append(np.nan)
        elif i < n or not w:
            out.append(trsl[i])
        elif wet[i - 1] is not None and not wet[i - 1]:
            out.append(sum(out[i - n : i]) / n)
        else:
            out.append(out[i - 1])
    return np.array(out)


def long_model(r, n):
    return {
        "trsl": long_values(r, n, 30, 90, r.choice([0, 0.3])), "n": int(r.choice([1, 2, 5, 60])),
        "wet": long_states(r, n, [(0, 1), (0, 0, 1), (0, 1, None)][r.randint(3)]),
    }


def wet_array(wet, kind):
    if kind == "bool" and None not in wet:
        return np.array(wet, dtype=bool)
    if kind == "int" and None not in wet:
        return np.array(wet, dtype=int)
    return arr(wet)


def body(c, ctx):
    trsl, wet, n = arr(c["trsl"]), c["wet"], c["n"]
    expected = model(trsl, wet, n)
    for kind in ("float", "bool", "int"):
        if kind != "float" and None in wet:
            continue
        w = wet_array(wet, kind)
        fr = Frozen(trsl=trsl, wet=w)
        got = call(bl.baseline_constant, trsl, w, n_average_last_dry=n)
        fr.check("baseline_constant")
        same(got, expected, "constant baseline (wet as %s)" % kind)
    i = pd.date_range("2020-01-01", periods=len(trsl), freq="min")
    got = call(bl.baseline_constant, pd.Series(trsl, index=i), pd.Series(arr(wet), index=i), n)
    same(got, expected, "constant baseline of pandas Series")
    if n == 1:
        same(call(bl.baseline_constant, trsl, arr(wet)), expected, "default averaging")
    ctx.label("nan in wet", None in wet)
    ctx.label("nan in trsl", None in c["trsl"])
    # at least one wet period that starts after n samples
    return any(
        wet[i] == 1 and wet[i - 1] == 0 for i in range(max(n, 1), len(wet))
    )


def body_more(c, ctx):
    """then other parameters for the same data, other levels with the same wet periods"""
    found = body(c, ctx)
    body(dict(c, n=c["n"] + 1), ctx)
    body(dict(c, trsl=c["trsl"][::-1]), ctx)
    return found


@st.composite
def case_causal(draw):
    c = draw(case())
    k = draw(st.integers(0, len(c["wet"]) - 1))
    m = len(c["wet"]) - k
    c["k"] = k
    c["trsl2"] = c["trsl"][:k] + draw(series(m))
    c["wet2"] = c["wet"][:k] + draw(
        st.lists(st.sampled_from([0, 1, None]), min_size=m, max_size=m)
    )
    return c


def body_causal(c, ctx):
    n, k = c["n"], c["k"]
    a = call(bl.baseline_constant, arr(c["trsl"]), arr(c["wet"]), n)
    b = call(bl.baseline_constant, arr(c["trsl2"]), arr(c["wet2"]), n)
    same(np.asarray(b)[:k], np.asarray(a)[:k], "baseline before the changed samples")
    return k > n and 1 in c["wet"][:k]


@st.composite
def case_shift(draw):
    c = draw(case())
    c["offset"] = draw(num(-50, 50))
    return c


def body_shift(c, ctx):
    trsl, wet = arr(c["trsl"]), arr(c["wet"])
    a = call(bl.baseline_constant, trsl, wet, c["n"])
    b = call(bl.baseline_constant, trsl + c["offset"], wet, c["n"])
    same(b, np.asarray(a) + c["offset"], "baseline of the shifted level", atol=1e-6)
    dry = (wet == 0)
    same(np.asarray(a)[dry], trsl[dry], "baseline of dry samples")
    return dry.any() and (wet == 1).any()


SUBS = [
    Sub("long_series", long_case(long_model), body, 20, 200, rule="a wet period starts after the averaging span"),
    Sub("model", case(), body_more, 300, rule="a wet period starts after the averaging span"),
    Sub("causal", case_causal(), body_causal, 200, rule="wet samples before the change"),
    Sub("shift", case_shift(), body_shift, 150, rule="has wet and dry samples"),
]
JIT = True
