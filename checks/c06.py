"""C06 linear baseline"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, Violation, arr, call, require, same
from pbt.gen import long_case, long_states, long_values, num, runs, series

import pycomlink.processing.baseline as bl


@st.composite
def case(draw, first_dry=False):
    states = draw(
        st.sampled_from([(0, 1), (0, 0, 1), (0, 1, 1), (0, 1, None), (0, 1, 0, 1, None)])
    )
    wet = draw(runs(states=states, min_n=1, max_n=35, max_run=6))
    ignore = draw(st.booleans())
    if ignore or first_dry:
        wet = [0] + wet
    rsl = draw(series(len(wet)))
    return {
        "rsl": rsl, "wet": wet, "ignore": ignore,
        "kind": draw(st.sampled_from(["np", "series", "dated", "permuted", "default"])),
    }


def long_model(r, n):
    return {
        "rsl": long_values(r, n, -80, -30, r.choice([0, 0.3])), "ignore": bool(r.randint(2)),
        "wet": [0] + long_states(r, n, [(0, 1), (0, 0, 1), (0, 1, 0, 1, None)][r.randint(3)])[1:],
        "kind": ["np", "series", "default"][r.randint(3)],
    }


def resolve(wet, ignore):
    """State per sample: 0 dry, 1 wet, None unknown; the first one counts as dry"""
    w = [0] + list(wet[1:])
    if ignore:
        for i in range(1, len(w)):
            if w[i] is None:
                w[i] = w[i - 1]
    return w


def periods(w):
    """Index of the dry sample before and after (None at the end) each period"""
    out = []
    i = 1
    while i < len(w):
        if w[i] != 0:
            j = i
            while j < len(w) and w[j] != 0:
                j += 1
            out.append((i - 1, j if j < len(w) else None))
            i = j
        i += 1
    return out


def body(c, ctx):
    rsl, wet = arr(c["rsl"]), arr(c["wet"])
    fr = Frozen(rsl=rsl, wet=wet)
    if c["kind"] in ("series", "dated", "permuted"):
        i = {"dated": pd.date_range("2020-01-01", periods=len(rsl), freq="min"),
             "permuted": np.arange(len(rsl))[::-1]}.get(c["kind"])
        got = call(bl.baseline_linear, pd.Series(rsl, index=i), pd.Series(wet, index=i), c["ignore"])
    elif c["kind"] == "default" and not c["ignore"]:
        got = call(bl.baseline_linear, rsl, wet)
    else:
        got = call(bl.baseline_linear, rsl, wet, ignore_nan=c["ignore"])
    fr.check("baseline_linear")
    got = np.asarray(got, dtype=float)
    require(got.shape == rsl.shape, "shape changed")
    w = resolve(c["wet"], c["ignore"])
    exp = rsl.copy()
    open_ends = np.zeros(len(rsl), dtype=bool)  # dry samples which may be NaN
    for i, j in periods(w):
        if j is None:
            exp[i + 1 :] = np.nan
            if None in w[i + 1 :]:
                open_ends[i] = True
            continue
        if None in w[i + 1 : j] or np.isnan(rsl[i]) or np.isnan(rsl[j]):
            exp[i + 1 : j] = np.nan
            open_ends[i] = open_ends[j] = True
        else:
            for k in range(i + 1, j):
                exp[k] = rsl[i] + (rsl[j] - rsl[i]) * (k - i) / (j - i)
    got = np.where(open_ends & np.isnan(got), exp, got)
    same(got, exp, "linear baseline", atol=1e-7)
    ctx.label("unknown states", None in c["wet"])
    ctx.label("ends wet", w[-1] != 0)
    return any(j is not None and j - i > 2 for i, j in periods(w))


def body_both(c, ctx):
    """the same data with the other treatment of NaN, and once more"""
    found = body(c, ctx)
    body(dict(c, ignore=not c["ignore"]), ctx)
    return found


@st.composite
def case_sym(draw):
    wet = [0] + draw(runs(states=(0, 1), min_n=1, max_n=25)) + [0]
    return {
        "rsl": draw(series(len(wet), nan="no")), "wet": wet, "offset": draw(num(-50, 50)),
        "scale": draw(st.sampled_from([-2.0, 0.5, 3.0])),
    }


def body_sym(c, ctx):
    rsl, wet = arr(c["rsl"]), arr(c["wet"])
    a = np.asarray(call(bl.baseline_linear, rsl, wet))
    b = np.asarray(call(bl.baseline_linear, rsl[::-1].copy(), wet[::-1].copy()))
    same(b[::-1], a, "baseline of the reversed series", atol=1e-7)
    d = call(bl.baseline_linear, rsl * c["scale"] + c["offset"], wet)
    same(d, a * c["scale"] + c["offset"], "baseline of the rescaled level", atol=1e-6)
    e = call(bl.baseline_linear, rsl, wet.astype(bool))
    same(e, a, "wet as bool")
    require((a[wet == 0] == rsl[wet == 0]).all(), "baseline of a dry sample differs")
    # what happens inside of wet periods does not matter
    r2 = np.where(wet == 1, 7.5, rsl)
    r2[0] = rsl[0]
    same(call(bl.baseline_linear, r2, wet), a, "level during wet periods")
    return 1 in c["wet"]


SUBS = [
    Sub("long_series", long_case(long_model), body, 20, 200, rule="a closed wet period of two or more samples"),
    Sub("model", case(), body_both, 600, rule="a closed wet period of two or more samples"),
    Sub("symmetry", case_sym(), body_sym, 250, rule="has a wet period"),
]
JIT = True
