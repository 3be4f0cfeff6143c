"""C23 aggregation of a time series onto another time index"""
import bisect
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, or_nan

from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as aggregate

T0 = pd.Timestamp("2021-03-27 20:00")  # a day before the clocks change in Europe
TZ = [None, "UTC", "Europe/Berlin", "America/New_York"]
METHODS = {
    "mean": lambda v: float("nan") if not v else math.fsum(v) / len(v),
    "sum": lambda v: math.fsum(v),
    "max": lambda v: max(v) if v else float("nan"),
    "min": lambda v: min(v) if v else float("nan"),
    "count": lambda v: len(v),
}


@st.composite
def case(draw):
    span = draw(st.sampled_from([60, 200, 1500]))
    regular = draw(st.booleans())
    if regular:
        step = draw(st.sampled_from([1, 5, 7, 15]))
        t = [draw(st.integers(0, 30)) + step * i for i in [0]]
        n = draw(st.integers(1, 40))
        t = [t[0] + step * i for i in range(n)]
    else:
        t = sorted(draw(st.lists(st.integers(0, span), min_size=1, max_size=30, unique=True)))
    if draw(st.booleans()):
        s, k = draw(st.integers(-20, 40)), draw(st.integers(1, 12))
        dt = draw(st.sampled_from([5, 15, 30, 60, 11]))
        new = [s + dt * i for i in range(k)]
    else:
        new = sorted(draw(st.lists(st.integers(-20, span + 20), min_size=1, max_size=12, unique=True)))
    order = draw(st.sampled_from(["sorted", "sorted", "reversed", "shuffled", "new reversed", "new shuffled"]))
    if draw(st.integers(0, 4)) == 0:
        # several values of the same time
        t = sorted(t + draw(st.lists(st.sampled_from(t), max_size=4)))
    if order == "reversed":
        t = t[::-1]
    elif order == "shuffled":
        t = list(draw(st.permutations(t)))
    elif order == "new reversed":
        new = new[::-1]
    elif order == "new shuffled":
        new = list(draw(st.permutations(new)))
    return {
        "t": t, "new": new, "order": order,
        "v": draw(st.lists(or_nan(dyadic(-10, 60, 4), 8), min_size=len(t), max_size=len(t))),
        "label": draw(st.sampled_from(["right", "left", None])),
        "method": draw(st.sampled_from(sorted(METHODS))),
        "df_tz": draw(st.sampled_from(TZ)),
        "new_tz": draw(st.sampled_from(TZ)),
        "naive_tz": draw(st.sampled_from([None, "utc", "Europe/Berlin"])),
        "kind": draw(st.sampled_from(["df", "series", "df2"])),
        "name": draw(st.sampled_from([None, "t", "time"])),
        # length of one step
        "unit": draw(st.sampled_from([60000, 60000, 60000, 1000, 10, 1, 3600000])),
    }


def longer(v):
    c, seed, n, m = v
    r = np.random.RandomState(seed)
    c = dict(c)
    span = 2 * max(n, m)
    c["t"] = r.choice(span, n, replace=False)
    c["new"] = r.choice(np.arange(-20, span + 20), m, replace=False)
    for k, keep in (("t", "new shuffled"), ("new", "shuffled")):
        if c["order"] in ("sorted", "reversed", "new reversed", keep):
            c[k] = np.sort(c[k])
        c[k] = c[k].tolist()
    c["v"] = [c["v"][i] for i in r.randint(0, len(c["v"]), n)]
    return c


case_long = st.tuples(
    case(), st.integers(0, 10**6), st.sampled_from([80, 300, 1500]), st.sampled_from([10, 80, 300]),
).map(longer)


def utc(idx):
    if idx.tz is None:
        return idx.tz_localize("UTC")
    return idx.tz_convert("UTC")


def stamps(steps, tz, unit=60000):
    """time stamps in tz, of steps in UTC since T0 (unit: length of a step in ms)"""
    i = pd.DatetimeIndex([T0 + pd.Timedelta(milliseconds=m * unit) for m in steps])
    return i if tz is None else i.tz_localize("UTC").tz_convert(tz)


def body(c, ctx):
    idx = stamps(c["t"], c["df_tz"], c["unit"])
    idx.name = c["name"]
    v = arr(c["v"])
    kw = {}
    new_minutes = list(c["new"])
    new = stamps(c["new"], c["new_tz"], c["unit"])
    if c["new_tz"] is None and c["naive_tz"] is not None:
        kw["new_index_tz"] = c["naive_tz"]
        if c["naive_tz"] != "utc":
            # the same instants, given as local wall time
            loc = new.tz_localize("UTC").tz_convert(c["naive_tz"])
            wall = loc.tz_localize(None)
            if wall.has_duplicates or not wall.sort_values().equals(loc.sort_values().tz_localize(None)):
                return False
            try:
                if list(wall.tz_localize(c["naive_tz"])) != list(loc):
                    return False
            except Exception:  # ambiguous wall time
                return False
            new = wall
    if c["label"]:
        kw["label"] = c["label"]
    label = c["label"] or "right"
    if c["kind"] == "series":
        df = pd.Series(v, index=idx, name="R")
    elif c["kind"] == "df":
        df = pd.DataFrame({"R": v}, index=idx)
    else:
        df = pd.DataFrame({"R": v, "Q": 2 * v + 1}, index=idx)
    fr = Frozen(df=df)
    before = new.copy()
    got = call(aggregate, df, new, method=c["method"], **kw)
    fr.check("aggregate_df_onto_DatetimeIndex")
    require(new.equals(before), "the new index was modified")
    # model, in minutes
    lo, hi = max(min(c["t"]), min(new_minutes)), min(max(c["t"]), max(new_minutes))
    ok = sorted(m for m in new_minutes if lo <= m <= hi)
    bins = {}
    for t, x in zip(c["t"], c["v"]):
        if not lo <= t <= hi:
            continue
        # first label which is not before, or last one which is not after the value
        k = bisect.bisect_left(ok, t) if label == "right" else bisect.bisect_right(ok, t) - 1
        if 0 <= k < len(ok):
            bins.setdefault(ok[k], []).append(x)
    labels = sorted(bins)
    require(len(got) == len(labels), "%d bins, expected %d", len(got), len(labels))
    if labels:
        e = utc(stamps(labels, None, c["unit"]))
        g = utc(pd.DatetimeIndex(got.index))
        require(list(g) == list(e), "labels %s, expected %s", list(g), list(e))
        for col, f in (("R", lambda x: x), ("Q", lambda x: 2 * x + 1)):
            if col in got.columns:
                exp = [METHODS[c["method"]]([f(x) for x in bins[m] if x is not None]) for m in labels]
                same(got[col].values, np.array(exp, dtype=float), "%s of %s" % (c["method"], col))
        require(list(got.columns) == (["R", "Q"] if c["kind"] == "df2" else ["R"]), "columns %s", list(got.columns))
        require(got.index.name == c["name"], "name of the index is %s", got.index.name)
    ctx.label("time zones differ", c["df_tz"] != c["new_tz"])
    ctx.label(c["order"])
    ctx.label("naive new index", c["new_tz"] is None)
    ctx.label("left", label == "left")
    return len(labels) > 1 and max(len(b) for b in bins.values()) > 1


def body_label(c, ctx):
    i = stamps([0, 1, 2], None)
    must_raise(NotImplementedError, aggregate, pd.Series([1.0, 2, 3], index=i), i, method="mean", label=c["label"])
    return True


SUBS = [
    Sub("bins", case(), body, 900, rule="more than one bin, one of them with several values"),
    Sub("long", case_long, body, 40, 600, rule="more than one bin, one of them with several values"),
    Sub("label", st.fixed_dictionaries({"label": st.sampled_from(["center", "Right", "", "both"])}), body_label,
        8, 10, rule="all cases"),
]
ASSUMPTIONS = ["time indices in any order, the new one without duplicates"]
