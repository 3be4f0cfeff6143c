"""C22 rain rate performance metrics"""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, or_nan

from pycomlink.validation.stats import calc_rain_error_performance_metrics as metrics


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["np", "np", "series", "2d", "int"]))
    n = draw(st.integers(1, 30)) * (2 if kind == "2d" else 1)
    v = st.one_of(st.just(0.0), dyadic(0, 4, 4), st.floats(0, 80, width=32), st.sampled_from([0.1, 0.1001, 0.0999, 0.1049]))
    if kind == "int":
        v = st.integers(0, 12)
    elif draw(st.booleans()):
        v = or_nan(v, 6)
    ref = draw(st.lists(v, min_size=n, max_size=n))
    pre = draw(st.lists(v, min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        pre = [p if draw(st.booleans()) else r for r, p in zip(ref, pre)]
    return {
        "kind": kind, "ref": ref, "pre": pre,
        "thr": draw(st.one_of(dyadic(0, 3, 4), st.sampled_from([0.1, 0.25, 1.0, 0.1, 0.1001, 0.0999, 0.1049]))),
        "factor": draw(st.sampled_from([0.5, 2.0, 4.0])),
        "times": draw(st.sampled_from([1] * 9 + [997, 6007])),
    }


def mean(v):
    return math.fsum(v) / len(v) if v else math.nan


def body(c, ctx):
    times = c["times"]
    a, b = np.repeat(arr(c["ref"]), times), np.repeat(arr(c["pre"]), times)
    thr = c["thr"]
    if c["kind"] == "2d":
        a, b = a.reshape(2, -1), b.reshape(2, -1)
    elif c["kind"] == "int":
        a, b = a.astype(int), b.astype(int)
    elif c["kind"] == "series":
        a, b = pd.Series(a), pd.Series(b)
    fr = Frozen(reference=a, predicted=b)
    m = call(metrics, a, b, thr)
    fr.check("calc_rain_error_performance_metrics")
    pairs = [(r, p) for r, p in zip(c["ref"], c["pre"]) if r is not None and p is not None]
    r = [x for x, _ in pairs]
    p = [x for _, x in pairs]
    d = [y - x for x, y in pairs]
    nan = len(c["ref"]) - len(pairs)
    exp = {
        "N_all_pairs": len(c["ref"]), "N_nan_pairs": nan,
        "N_nan_reference_only": sum(x is None for x in c["ref"]),
        "N_nan_predicted_only": sum(x is None for x in c["pre"]),
        "rainfall_threshold_wet": thr,
        "R_sum_reference": math.fsum(r), "R_sum_predicted": math.fsum(p),
        "R_mean_reference": mean(r), "R_mean_predicted": mean(p),
        "mean_absolute_error": mean([abs(x) for x in d]),
        "root_mean_square_error": math.sqrt(mean([x * x for x in d])) if d else math.nan,
    }
    wet_r = [x >= thr for x in r]
    wet_p = [x >= thr for x in p]
    false = [y for y, u, v in zip(p, wet_r, wet_p) if v and not u]
    missed = [x for x, u, v in zip(r, wet_r, wet_p) if u and not v]
    n_wet = sum(wet_r)
    n_dry = len(r) - n_wet
    exp["false_wet_rate"] = len(false) / n_dry if n_dry else math.nan
    exp["missed_wet_rate"] = len(missed) / n_wet if n_wet else math.nan
    exp["false_wet_precipitation_rate"] = mean(false)
    exp["missed_wet_precipitation_rate"] = mean(missed)
    for k, v in exp.items():
        if k.startswith("N_") or k.startswith("R_sum"):
            v *= times
        same(float(getattr(m, k)), v, k, rtol=1e-9, atol=1e-9)
    if d and mean(r) > 1e-9:
        std = math.sqrt(max(0, mean([(x - mean(d)) ** 2 for x in d])))
        same(float(m.coefficient_of_variation), std / mean(r), "coefficient of variation", 1e-7, 1e-9)
    if d:
        cov = mean([(x - mean(r)) * (y - mean(p)) for x, y in pairs])
        va = mean([(x - mean(r)) ** 2 for x in r])
        vb = mean([(x - mean(p)) ** 2 for x in p])
        if va > 1e-6 and vb > 1e-6:
            same(float(m.pearson_correlation), cov / math.sqrt(va * vb), "Pearson correlation", 1e-6, 1e-7)
    must_raise(AssertionError, metrics, a, np.append(np.asarray(b).ravel(), 1.0), thr)
    ctx.label("value at the threshold", any(x == thr for x in r + p))
    return bool(false and missed)


def body_scale(c, ctx):
    """other units: errors and amounts scale, rates and correlation stay"""
    a, b = arr(c["ref"]), arr(c["pre"])
    f = c["factor"]
    m, s = call(metrics, a, b, c["thr"]), call(metrics, a * f, b * f, c["thr"] * f)
    for k in m._fields:
        x, y = float(getattr(m, k)), float(getattr(s, k))
        if k.startswith("R_") or k in (
            "root_mean_square_error", "mean_absolute_error", "false_wet_precipitation_rate",
            "missed_wet_precipitation_rate", "rainfall_threshold_wet",
        ):
            x *= f
        if k in ("pearson_correlation", "coefficient_of_variation"):
            if not (np.isfinite(x) and np.nanstd(a) > 1e-3 and np.nanstd(b) > 1e-3 and np.nanmean(a) > 1e-6):
                continue
        same(y, x, "%s in other units" % k, 1e-6, 1e-9)
    # swapped: symmetric measures stay, others are exchanged
    w = call(metrics, b, a, c["thr"])
    for k, l in (
        ("root_mean_square_error",) * 2, ("mean_absolute_error",) * 2,
        ("R_sum_reference", "R_sum_predicted"), ("R_mean_predicted", "R_mean_reference"),
        ("N_nan_pairs",) * 2, ("N_nan_reference_only", "N_nan_predicted_only"),
        ("false_wet_precipitation_rate", "missed_wet_precipitation_rate"),
    ):
        same(float(getattr(w, k)), float(getattr(m, l)), "%s after swapping" % k, 1e-9, 1e-9)
    return True


SUBS = [
    Sub("metrics", case(), body, 500, rule="false and missed wet pairs"),
    Sub("metamorphic", case(), body_scale, 150, rule="all cases"),
]
