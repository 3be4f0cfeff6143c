"""C12 nearby link wet-dry classification"""
import math

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, Violation, arr, call, require, same
from pbt.gen import dyadic, grown, pick, runs

from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry


@st.composite
def case(draw):
    n_cml = draw(st.sampled_from([5, 6, 4, 7, 3, 5, 1]))
    n_t = draw(st.sampled_from([24, 30, 16, 36, 26, 18, 40, 10, 5]))
    ids = ["c%d" % i for i in range(n_cml)]
    # clusters of links in a plane, integer km; distances like 3-4-5 hit the radius
    spread = draw(st.sampled_from([1, 1, 2, 2, 3, 6]))
    pt = st.integers(-spread, spread)
    sites = draw(
        st.lists(st.tuples(pt, pt, pt, pt).map(list), min_size=n_cml, max_size=n_cml)
    )
    event = draw(runs(states=(0, 4, 0, 8, 2), min_n=n_t, max_n=n_t, max_run=8))
    levels = []
    for _ in range(n_cml):
        base = draw(st.sampled_from([-40.0, -45.0, -50.5]))
        kind = draw(st.sampled_from(["event", "event", "event", "event", "own", "flat"]))
        if kind == "own":
            ev = draw(runs(states=(0, 0, 1, 2, 6), min_n=n_t, max_n=n_t, max_run=8))
        elif kind == "flat":
            ev = [0] * n_t
        else:
            ev = event
        f = draw(st.sampled_from([1.0, 0.5, 2.0, 1.0]))
        noise = draw(st.lists(st.sampled_from([0.0, 0.0, 0.0, 0.5, -0.5]), min_size=n_t, max_size=n_t))
        x = [base - f * e + z for e, z in zip(ev, noise)]
        if draw(st.integers(0, 2)) == 0:
            m = draw(runs(states=(0, 0, 0, 1), min_n=n_t, max_n=n_t, max_run=5))
            x = [None if k else v for v, k in zip(x, m)]
        levels.append(x)
    interval = draw(st.sampled_from([15, 30, 60, 20, 15, 10]))
    timeperiod = draw(st.sampled_from([1, 2, 3])) * max(1, interval // 15)
    min_hours = draw(st.sampled_from([1, 1, timeperiod, 2 * interval / 60]))
    if draw(st.integers(0, 5)) == 0:
        # intervals which are no part of an hour
        interval, timeperiod, min_hours = draw(st.sampled_from(
            [[45, 3, 1.5], [45, 6, 3], [90, 6, 3], [40, 4, 2], [120, 8, 2], [25, 5, 2.5], [90, 4.5, 1.5]]))
    return {
        "ids": ids, "sites": sites, "pmin": levels,
        "length": draw(st.lists(st.sampled_from([1.0, 0.5, 2.0, 1.0, 4.0, 8.0, 3.0, 0.05, 30.0]), min_size=n_cml, max_size=n_cml)),
        "kw": {
            "radius": draw(st.sampled_from([5, 10, 15, 3, 2])),
            "thresh_median_P": draw(st.sampled_from([-1.4, -1.0, -0.5, -2.0])),
            "thresh_median_PL": draw(st.sampled_from([-0.7, -0.5, -0.25, -1.0])),
            "min_links": draw(st.sampled_from([2, 1, 3, 0, 4, 2, 1])),
            "interval": interval,
            "timeperiod": timeperiod,
            "min_hours": min_hours,
        },
        "order": list(draw(st.permutations(range(n_cml)))),
        "extra": draw(st.integers(0, 1)),
        "dims": draw(st.sampled_from(["ct", "tc"])),
        "int": draw(st.integers(0, 7)) == 0,
    }


DEFAULTS = {
    "radius": 15, "thresh_median_P": -1.4, "thresh_median_PL": -0.7, "min_links": 3,
    "interval": 15, "timeperiod": 24, "min_hours": 6,
}


@st.composite
def case_long(draw):
    """most parameters left at their documented defaults, series of more than a day"""
    n_cml = draw(st.sampled_from([5, 4, 6, 7]))
    n_t = draw(st.sampled_from([110, 130, 101, 160, 97]))
    pt = st.sampled_from([[0, 0], [0, 0], [5, 5], [9, 12], [8, 12], [14, 4], [15, 0], [0, 16], [3, 1]])
    sites = [draw(pt) + draw(pt) for _ in range(n_cml)]
    drop = st.sampled_from([0.0, 0.0, 1.375, 1.4375, 1.25, 2.0, 2.25, 0.0, 4.0, 0.6875, 0.75])
    event = draw(runs(states=(0.0, 1.375, 0.0, 1.4375, 4.0, 2.25, 0.0), min_n=n_t, max_n=n_t, max_run=40))
    levels = []
    for _ in range(n_cml):
        base = draw(st.sampled_from([-40.0, -45.0]))
        own = draw(st.integers(0, 4)) == 0
        ev = draw(runs(states=(0.0, 1.375, 0.0, 2.25), min_n=n_t, max_n=n_t, max_run=30)) if own else list(event)
        for k in draw(st.lists(st.integers(0, n_t - 1), max_size=4)):
            ev[k] = draw(drop)
        x = [base - e for e in ev]
        # one high level: it is the maximum for one period
        if draw(st.integers(0, 2)) == 0:
            x[draw(st.integers(0, n_t // 4))] += draw(st.sampled_from([1.5, 3.0]))
        if draw(st.integers(0, 2)) == 0:
            k = draw(st.sampled_from([22, 23, 24, 25, 10, 60, 73, 72]))
            x[:k] = [None] * k
        levels.append(x)
    kw = {}
    for k, v in {
        "radius": [16, 10], "thresh_median_P": [-1.0], "thresh_median_PL": [-0.5],
        "min_links": [2, 4], "interval": [30], "timeperiod": [12], "min_hours": [3],
    }.items():
        if draw(st.integers(0, 5)) == 0:
            kw[k] = draw(st.sampled_from(v))
    return {
        "ids": ["c%d" % i for i in range(n_cml)], "sites": sites, "pmin": levels,
        "length": draw(st.lists(st.sampled_from([1.0, 2.0, 0.5, 2.0, 1.0]), min_size=n_cml, max_size=n_cml)),
        "kw": kw, "order": list(draw(st.permutations(range(n_cml)))),
        "extra": 0, "dims": draw(st.sampled_from(["ct", "tc"])), "int": False,
    }


def make(c):
    ids = c["ids"]
    n_t = len(c["pmin"][0])
    vals = arr(c["pmin"]).reshape(len(ids), n_t)
    if c["int"] and not np.isnan(vals).any():
        vals = np.floor(vals).astype(int)
    pmin = xr.DataArray(
        vals, dims=("cml_id", "time"),
        coords={
            "cml_id": ids,
            "time": pd.date_range("2020-01-01", periods=n_t, freq="%dmin" % c["kw"].get("interval", 15)),
            "length": ("cml_id", arr(c["length"])),
        },
    )
    if c["dims"] == "tc":
        pmin = pmin.transpose("time", "cml_id")
    # distances, in another order of the CMLs, maybe with one more CML
    s = arr(c["sites"])
    all_ids = list(ids)
    if c["extra"]:
        s = np.vstack([s, s[:1]])
        all_ids.append("zz")
    order = list(c["order"]) + list(range(len(ids), len(all_ids)))
    all_ids = [all_ids[i] for i in order]
    s = s[order]
    ends = {"a": s[:, :2], "b": s[:, 2:]}
    ds = xr.Dataset(
        {
            "%s_to_all_%s" % (x, y): (
                ("cml_id1", "cml_id2"),
                np.array(
                    [
                        [
                            0.0 if i == j else math.hypot(*(ends[x][i] - ends[y][j]))
                            for j in range(len(s))
                        ]
                        for i in range(len(s))
                    ]
                ),
            )
            for x in "ab" for y in "ab"
        },
        coords={"cml_id1": all_ids, "cml_id2": all_ids},
    )
    return pmin, ds


def model(pmin, sites, length, kw):
    """pmin: (cml, time). Returns wet, F"""
    n, T = pmin.shape
    period = int(kw["timeperiod"] * 60 / kw["interval"])
    need = int(kw["min_hours"] * 60 / kw["interval"])
    dP = np.full((n, T), np.nan)
    for i in range(n):
        for t in range(T):
            w = pmin[i, max(0, t - period + 1) : t + 1]
            w = w[~np.isnan(w)]
            if len(w) >= need:
                dP[i, t] = pmin[i, t] - w.max()
    dPL = dP / length[:, None]

    def near(i, j):
        if i == j:
            return kw["radius"] > 0
        return all(
            math.hypot(p[0] - q[0], p[1] - q[1]) < kw["radius"]
            for p in (sites[i][:2], sites[i][2:])
            for q in (sites[j][:2], sites[j][2:])
        )

    wet = np.full((n, T), np.nan)
    F = np.full((n, T), np.nan)
    stats = {"classified": 0, "wet": 0, "extended": 0}
    for i in range(n):
        nb = [j for j in range(n) if near(i, j)]
        if len(nb) <= kw["min_links"]:
            continue
        first = np.full(T, np.nan)
        med = np.full(T, np.nan)
        for t in range(T):
            x = dP[nb, t]
            if (~np.isnan(x)).sum() > kw["min_links"]:
                mP = np.median(x[~np.isnan(x)])
                y = dPL[nb, t]
                med[t] = np.median(y[~np.isnan(y)])
                first[t] = float(
                    mP < kw["thresh_median_P"] and med[t] < kw["thresh_median_PL"]
                )
        out = first.copy()
        for t in range(T):
            if first[t] == 1 and dP[i, t] < -2:
                for u in (t - 2, t - 1, t + 1):
                    if 0 <= u < T and out[u] == 0:
                        out[u] = 1
                        stats["extended"] += 1
        wet[i] = out
        d = dPL[i] - med
        for t in range(period - 1, T):
            F[i, t] = d[t - period + 1 : t + 1].sum() * kw["interval"] / 60
        stats["classified"] += int((~np.isnan(first)).sum())
        stats["wet"] += int((first == 1).sum())
    return wet, F, stats


def body(c, ctx):
    kw = dict(DEFAULTS, **c["kw"])
    need = int(kw["min_hours"] * 60 / kw["interval"])
    period = int(kw["timeperiod"] * 60 / kw["interval"])
    if need < 1 or need > period:
        return False
    pmin, ds = make(c)
    fr = Frozen(pmin=pmin, ds_dist=ds)
    wet, F = call(nearby_wetdry, pmin, ds, **c["kw"])
    fr.check("nearby_wetdry")
    require(wet.dims == pmin.dims and F.dims == pmin.dims, "dimensions changed")
    require(wet.cml_id.values.tolist() == c["ids"], "CMLs in another order")
    p = pmin.transpose("cml_id", "time").values.astype(float)
    exp_wet, exp_F, stats = model(p, arr(c["sites"]), arr(c["length"]), kw)
    got = wet.transpose("cml_id", "time").values.astype(float)
    compare_wet(got, exp_wet, ctx)
    same(F.transpose("cml_id", "time").values, exp_F, "F", rtol=1e-9, atol=1e-7)
    for k, v in stats.items():
        ctx.label(k, v > 0)
    return stats["wet"] > 0


def compare_wet(got, exp, ctx):
    require(got.shape == exp.shape, "shape of wet")
    T = exp.shape[1]
    for i, t in np.argwhere(~((got == exp) | (np.isnan(got) & np.isnan(exp)))):
        if got[i, t] == 1 and exp[i, t] == 0 and (t == 0 or t >= T - 2):
            ctx.finding("C12-F1")
            continue
        raise Violation(
            "wet of CML %d at step %d of %d: got %r, expected %r" % (i, t, T, got[i, t], exp[i, t])
        )


def large(c, n, r):
    """many links and many time steps (the same events again and again)"""
    idx = r.randint(0, len(c["ids"]), n)
    for k in ("sites", "pmin", "length"):
        c[k] = pick(c[k], idx)
    c["ids"] = ["c%d" % i for i in r.permutation(n)]
    c["order"] = r.permutation(n).tolist()
    t = len(c["pmin"][0])
    T = int(r.choice([t, 60, 230]))
    out = []
    for row in c["pmin"]:
        s = r.randint(0, 3)
        out.append((row[s:] + row * (T // t + 1))[:T])
    c["pmin"] = out
    return c


SUBS = [
    Sub("large", grown(case(), sizes=(14, 8, 22), note=large), body, 6, 60,
        rule="at least one time step is wet before the extension"),
    Sub("model", case(), body, 170, 1500, rule="at least one time step is wet before the extension"),
    Sub("defaults", case_long(), body, 60, 500, rule="at least one time step is wet before the extension"),
]
SHARDS_QUICK = 3
ASSUMPTIONS = ["min_hours corresponds to at least one and at most `timeperiod` time steps"]
