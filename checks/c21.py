"""C21 wet-dry performance metrics"""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same

from pycomlink.validation import stats, validator


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["float", "bool", "int", "int8", "float32", "mixed", "rain", "series", "2d"]))
    n = draw(st.integers(1, 60)) * (2 if kind == "2d" else 1)
    # all combinations, or only some of them (no wet reference, never predicted wet, ...)
    vals = [(0, 0), (0, 1), (1, 0), (1, 1)]
    if draw(st.booleans()):
        vals = draw(st.lists(st.sampled_from(vals), min_size=1, max_size=3, unique=True))
    if kind in ("float", "float32", "series", "rain", "2d") and draw(st.booleans()):
        vals = vals + [(None, 0), (1, None), (None, None)]
    pairs = draw(st.lists(st.sampled_from(vals).map(list), min_size=n, max_size=n))
    return {"kind": kind, "pairs": pairs, "amount": draw(st.sampled_from([0.01, 1.0, 7.5])),
            "times": draw(st.sampled_from([1] * 9 + [997, 6007]))}


def body(c, ctx):
    times = c["times"]
    ref = np.repeat(arr([p[0] for p in c["pairs"]]), times)
    pre = np.repeat(arr([p[1] for p in c["pairs"]]), times)
    kind = c["kind"]
    a, b = ref, pre
    if kind == "bool":
        a, b = ref.astype(bool), pre.astype(bool)
    elif kind in ("int", "int8", "float32"):
        a, b = ref.astype(kind), pre.astype(kind)
    elif kind == "mixed":
        a, b = ref.astype(bool), pre.astype("float32")
    elif kind == "rain":
        a, b = ref * c["amount"], pre * c["amount"]
    elif kind == "series":
        a, b = pd.Series(ref), pd.Series(pre)
    elif kind == "2d":
        a, b = ref.reshape(2, -1), pre.reshape(2, -1)
    fr = Frozen(reference=a, predicted=b)
    m = call(stats.calc_wet_dry_performance_metrics, a, b)
    fr.check("calc_wet_dry_performance_metrics")
    tp = tn = fp = fn = nan = 0
    for r, p in c["pairs"]:
        if r is None or p is None:
            nan += 1
        elif r and p:
            tp += 1
        elif r:
            fn += 1
        elif p:
            fp += 1
        else:
            tn += 1
    tp, tn, fp, fn, nan = (int(v) * times for v in (tp, tn, fp, fn, nan))
    counts = {
        "N_true_wet": tp, "N_true_dry": tn, "N_false_wet": fp, "N_missed_wet": fn,
        "N_wet_reference": tp + fn, "N_dry_reference": tn + fp,
        "N_all_pairs": len(c["pairs"]) * times, "N_nan_pairs": nan,
        "N_nan_reference_only": sum(r is None for r, _ in c["pairs"]) * times,
        "N_nan_predicted_only": sum(p is None for _, p in c["pairs"]) * times,
    }
    for k, v in counts.items():
        require(int(getattr(m, k)) == v, "%s is %s, expected %s", k, getattr(m, k), v)

    def ratio(x, y):
        return x / y if y else math.nan

    for k, v in {
        "true_wet_rate": ratio(tp, tp + fn), "missed_wet_rate": ratio(fn, tp + fn),
        "true_dry_rate": ratio(tn, tn + fp), "false_wet_rate": ratio(fp, tn + fp),
    }.items():
        same(getattr(m, k), v, k, atol=1e-12)
    mcc = float(m.matthews_correlation)
    den = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    if den:
        same(mcc, (tp * tn - fp * fn) / math.sqrt(den), "Matthews correlation", atol=1e-9)
    elif tp + fp == 0:
        require(mcc == 0, "never predicted wet, Matthews correlation %s", mcc)
    else:
        require(math.isnan(mcc), "undefined Matthews correlation (0 / 0) is %s", mcc)
    # the order of the pairs does not matter
    if kind not in ("series", "2d"):
        m2 = call(stats.calc_wet_dry_performance_metrics, a[::-1], b[::-1])
        same(np.array(m2, dtype=float), np.array(m, dtype=float), "reversed", atol=1e-12)
    must_raise(AssertionError, stats.calc_wet_dry_performance_metrics, a, np.append(pre, 1.0))
    ctx.label(kind)
    ctx.label("many pairs", times > 1)
    return min(tp, tn, fp, fn) > 0


@st.composite
def case_old(draw):
    n = draw(st.integers(1, 40))
    return {
        "truth": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "wet": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "series": draw(st.booleans()),
    }


def body_old(c, ctx):
    t, w = np.array(c["truth"]), np.array(c["wet"])
    dry, wet = int((~t).sum()), int(t.sum())
    if not dry or not wet:
        return False
    false = sum(1 for x, y in zip(c["truth"], c["wet"]) if not x and y) / dry
    missed = sum(1 for x, y in zip(c["truth"], c["wet"]) if x and not y) / wet
    if c["series"]:
        t, w = pd.Series(t), pd.Series(w)
    r = call(stats.calc_wet_error_rates, t, w)
    same(r.false, false, "false wet rate")
    same(r.missed, missed, "missed wet rate")
    r = call(validator.calc_wet_dry_error, t, w)
    same(r[0], missed, "wet error")
    same(r[1], false, "dry error")
    return True


SUBS = [
    Sub("metrics", case(), body, 500, rule="all four kinds of pairs are there"),
    Sub("deprecated", case_old(), body_old, 120, rule="wet and dry in the reference"),
]
