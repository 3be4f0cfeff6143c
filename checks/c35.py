"""C35 the nearby link approach as a whole: from minimum and maximum levels of a network to rain rates"""
import math

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, quiet, require, same
from pbt.gen import dyadic, pos, runs

import pycomlink as pycml  # noqa: F401
from pycomlink.processing import nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import nearby_wetdry as nw

from checks.c02 import H, V, expected as ab_expected

EARTH = 6371.0


def site(centre, p):
    """km east and north of the centre -> latitude, longitude"""
    lat = centre[0] + math.degrees(p[1] / EARTH)
    return lat, centre[1] + math.degrees(p[0] / EARTH / math.cos(math.radians(centre[0])))


def network(c):
    """what a user has: minimum and maximum levels of every link and where the links are"""
    links = c["links"]
    a = [site(c["centre"], l["a"]) for l in links]
    b = [site(c["centre"], l["b"]) for l in links]
    n_t = len(links[0]["pmin"])
    return xr.Dataset(
        {k: (("cml_id", "time"), arr([l[k] for l in links]).reshape(len(links), n_t)) for k in ("pmin", "pmax")},
        coords={
            "cml_id": [l["id"] for l in links],
            "time": pd.date_range("2021-07-01", periods=n_t, freq="%dmin" % c["kw"].get("interval", 15)),
            "length": ("cml_id", [float(l["length"]) for l in links]),
            "frequency": ("cml_id", [float(l["f"]) for l in links]),
            "polarization": ("cml_id", [l["pol"] for l in links]),
            "site_a_latitude": ("cml_id", [p[0] for p in a]), "site_a_longitude": ("cml_id", [p[1] for p in a]),
            "site_b_latitude": ("cml_id", [p[0] for p in b]), "site_b_longitude": ("cml_id", [p[1] for p in b]),
        },
    )


def chain(ds, kw, ref=None, rain=None, dist=None):
    """the steps of the documentation, the whole network at once"""
    dist = ds if dist is None else dist
    ds_dist = nw.calc_distance_between_cml_endpoints(
        dist.cml_id.values, dist.site_a_latitude, dist.site_a_longitude,
        dist.site_b_latitude, dist.site_b_longitude,
    )
    wet, F = nw.nearby_wetdry(ds.pmin, ds_dist, **kw)
    pref = nr.nearby_determine_reference_level(ds.pmin, ds.pmax, wet, **(ref or {}))
    lo, hi = nr.nearby_correct_received_signals(ds.pmin, ds.pmax, wet, pref)
    R = nr.nearby_rainfall_retrival(
        pref, lo, hi, F, ds.length, f_GHz=ds.frequency, pol=ds.polarization, **(rain or {}))
    return R, wet


def run(c, ds=None, dist=None):
    ds = network(c) if ds is None else ds
    if c["t_first"]:
        ds = ds.transpose("time", "cml_id")
    fr = Frozen(ds=ds)
    R, wet = call(chain, ds, c["kw"], c.get("ref"), c.get("rain_kw"), dist)
    fr.check("the nearby link approach")
    require(set(R.dims) == {"cml_id", "time"}, "dimensions %s", R.dims)
    require(list(R.cml_id.values) == list(ds.cml_id.values) and np.array_equal(R.time.values, ds.time.values),
            "coordinates of the rain rate")
    return R.transpose("cml_id", "time").values, wet.transpose("cml_id", "time").values


@st.composite
def place(draw, spread):
    pt = st.floats(-spread, spread, allow_nan=False)
    return [round(draw(pt), 3), round(draw(pt), 3)]


@st.composite
def link(draw, name, event, spread, shift=0.0):
    n = len(event)
    base = draw(dyadic(-60, -35))
    kind = draw(st.sampled_from(["event", "event", "event", "own"]))
    ev = event if kind == "event" else draw(runs(states=(0, 0, 1, 6), min_n=n, max_n=n, max_run=8))
    f = draw(st.sampled_from([1.0, 0.5, 2.0]))
    pmin = [base - f * e + z for e, z in zip(ev, draw(st.lists(st.sampled_from([0.0, 0.0, 0.5, -0.5]), min_size=n, max_size=n)))]
    up = draw(st.lists(st.sampled_from([0.0, 0.5, 0.25, 2.0]), min_size=n, max_size=n))
    pmax = [x + u for x, u in zip(pmin, up)]
    if draw(st.integers(0, 2)) == 0:
        for i in draw(st.lists(st.integers(0, n - 1), max_size=5)):
            pmin[i] = pmax[i] = None
    a, b = draw(place(spread)), draw(place(spread))
    return {
        "id": name, "a": [a[0] + shift, a[1]], "b": [b[0] + shift, b[1]], "pmin": pmin, "pmax": pmax,
        "length": draw(st.sampled_from([1.0, 0.5, 2.0, 4.0, 8.0])), "f": draw(st.floats(7, 80)),
        "pol": draw(st.sampled_from(H + V)),
    }


@st.composite
def case(draw):
    n = draw(st.integers(4, 7))
    n_far = draw(st.sampled_from([0, 1, 4]))
    n_t = draw(st.integers(14, 36))
    event = draw(runs(states=(0, 4, 0, 8, 2), min_n=n_t, max_n=n_t, max_run=8))
    spread = draw(st.sampled_from([3.0, 3.0, 6.0, 10.0]))
    names = list(draw(st.permutations(["k%d" % i for i in range(n + n_far)])))
    links = [draw(link(names[i], event, spread)) for i in range(n)]
    links += [draw(link(names[n + i], event[::-1], 3.0, 300.0)) for i in range(n_far)]
    return {
        "centre": [draw(st.floats(-60, 65)), draw(st.floats(-170, 170))], "links": links, "n_far": n_far,
        "kw": {
            "radius": draw(st.sampled_from([15, 10, 8])), "interval": 15, "timeperiod": draw(st.sampled_from([2, 3, 1])),
            "min_hours": 1, "min_links": draw(st.sampled_from([3, 2, 1])),
        },
        "ref": draw(st.sampled_from([{}, {"n_average_dry": 12}, {"n_average_dry": 8, "min_periods": 3}])),
        "rain_kw": draw(st.sampled_from([{}, {"waa_max": 1.0, "alpha": 0.5}, {"F_value_threshold": -3.03}, {"F_value_threshold": None}])),
        "offset": [draw(dyadic(-40, 40)) for _ in range(n + n_far)],
        "perm": list(draw(st.permutations(range(n + n_far)))), "dist_perm": list(draw(st.permutations(range(n + n_far)))),
        "swap": [draw(st.booleans()) for _ in range(n + n_far)], "k": draw(st.integers(8, n_t)),
        "dead": draw(st.integers(0, n + n_far)), "t_first": draw(st.booleans()),
    }


def close(a, b, what):
    same(a, b, what, 1e-7, 1e-7)


def body(c, ctx):
    links = c["links"]
    n = len(links)
    ds = network(c)
    R, wet = run(c, ds)
    ok = ~np.isnan(R)
    require((R[ok] >= 0).all(), "negative rain rate")
    require((R[ok & (wet != 1)] == 0).all(), "rain where it is not wet")
    # the reference level is what counts, not the level
    off = xr.DataArray(c["offset"], dims="cml_id", coords={"cml_id": ds.cml_id})
    close(run(c, ds.assign(pmin=ds.pmin + off, pmax=ds.pmax + off))[0], R, "rain rates with other offsets of the levels")
    # order of the links, in the data and in the distances
    p = c["perm"]
    close(run(c, ds.isel(cml_id=p))[0], R[p], "rain rates with the links in another order")
    close(run(c, ds, dist=ds.isel(cml_id=c["dist_perm"]))[0], R, "rain rates with the distances in another order")
    # which end is called a
    sw = dict(c, links=[dict(l, a=l["b"], b=l["a"]) if s else l for l, s in zip(links, c["swap"])])
    close(run(sw)[0], R, "rain rates with the ends of links exchanged")
    # links far away, and dead ones
    m = n - c["n_far"]
    if c["n_far"]:
        close(run(c, ds.isel(cml_id=slice(m)))[0], R[:m], "rain rates without the links far away")
        close(run(c, ds.isel(cml_id=slice(m, None)))[0], R[m:], "rain rates of the links far away alone")
    i = c["dead"]
    dead = dict(links[i % n], id="dead", pmin=[None] * ds.sizes["time"], pmax=[None] * ds.sizes["time"])
    more = dict(c, links=links[:i] + [dead] + links[i:])
    with_dead = run(more)[0]
    require(np.isnan(with_dead[i]).all(), "rain rates of a link without data")
    close(np.delete(with_dead, i, axis=0), R, "rain rates with one more link which has no data")
    # later data: the wet periods reach two steps back, as does the end of the series
    k = c["k"]
    close(run(c, ds.isel(time=slice(k)))[0][:, : k - 2], R[:, : k - 2], "rain rates without the data after step %d" % k)
    # the time itself
    close(run(c, ds.assign_coords(time=ds.time + np.timedelta64(12345, "m")))[0], R, "rain rates at another time")
    ctx.label("far", c["n_far"] > 0)
    ctx.label("nan", not ok.all())
    return bool((R[ok] > 0).any())


@st.composite
def case_rain(draw):
    n_t = draw(st.integers(1, 12))
    out, groups = [], []
    for g in range(draw(st.sampled_from([1, 1, 2, 2]))):
        m = draw(st.sampled_from([4, 5, 6, 4, 3, 1]))
        wet = draw(st.booleans()) or g == 0
        top = [draw(st.one_of(pos(0.3, 150), dyadic(1, 60))) for _ in range(n_t)]
        for _ in range(m):
            groups.append(g)
            a, b = draw(place(3.0)), draw(place(3.0))
            r_max = [t * draw(st.sampled_from([1.0, 0.5, 1.5])) if wet else 0.0 for t in top]
            out.append({
                "id": "q%d" % len(out), "a": [a[0] + 250.0 * g, a[1]], "b": [b[0] + 250.0 * g, b[1]],
                "level": draw(dyadic(-60, -35)), "r_max": r_max,
                "r_min": [r * draw(st.sampled_from([1.0, 0.0, 0.25, 0.5])) for r in r_max],
                "length": draw(pos(0.3, 12)), "f": draw(st.floats(7, 80)), "pol": draw(st.sampled_from(H + V)),
                "wet": wet,
            })
    order = list(draw(st.permutations(range(len(out)))))
    return {
        "centre": [draw(st.floats(-60, 65)), draw(st.floats(-170, 170))],
        "links": [out[i] for i in order], "groups": [groups[i] for i in order],
        "before": draw(st.integers(26, 34)), "after": draw(st.integers(3, 6)),
        "kw": {}, "rain_kw": draw(st.sampled_from([{}, {"alpha": 0.5}, {"waa_max": 1.5}, {"alpha": 0.0}])),
        "t_first": draw(st.booleans()),
    }


def body_rain(c, ctx):
    """known rain at a group of links, everything at its default"""
    w = c["rain_kw"].get("waa_max", 2.3)
    alpha = c["rain_kw"].get("alpha", 0.33)
    n0, n1 = c["before"], c["after"]
    links, dP, true = [], [], []
    for l in c["links"]:
        a, b = ab_expected(l["f"], l["pol"], "ITU_2005")
        drop = [[a * r**b * l["length"] + w if l["wet"] else 0.0 for r in l[k]] for k in ("r_max", "r_min")]
        pmin, pmax = ([l["level"]] * n0 + [l["level"] - x for x in d] + [l["level"]] * n1 for d in drop)
        links.append(dict(l, pmin=pmin, pmax=pmax))
        dP.append([0.0] * n0 + [-x for x in drop[0]] + [0.0] * n1)
        true.append([0.0] * n0 + [alpha * x + (1 - alpha) * y for x, y in zip(l["r_max"], l["r_min"])] + [0.0] * n1)
    R, wet = run(dict(c, links=links))
    dP, true, g = np.array(dP), np.array(true), np.array(c["groups"])
    dPL = dP / np.array([l["length"] for l in links])[:, None]
    found = False
    for k in set(c["groups"]):
        rows = g == k
        if rows.sum() <= 3:
            require(np.isnan(R[rows]).all() and np.isnan(wet[rows]).all(), "rain rates of a group of %d links", rows.sum())
            ctx.label("too_few")
            continue
        mP, mPL = np.median(dP[rows], axis=0), np.median(dPL[rows], axis=0)
        if (np.abs(mP + 1.4) < 1e-9).any() or (np.abs(mPL + 0.7) < 1e-9).any():
            return False
        is_wet = (mP < -1.4) & (mPL < -0.7)
        for i in np.flatnonzero(rows):
            require(np.isnan(R[i, :23]).all() or (R[i, :23] == 0).all() or np.isnan(R[i, 0]), "rain before the event")
            strong = is_wet & (dP[i] < -2)
            if (np.abs(dP[i] + 2) < 1e-9).any():
                return False
            w_i = is_wet.copy()
            w_i[:-1] |= strong[1:]
            w_i[:-2] |= strong[2:]
            w_i[1:] |= strong[:-1]
            exp = np.where(w_i, true[i], 0.0)
            same(R[i, 24:], exp[24:], "rain rate of link %s (of a group of %d)" % (links[i]["id"], rows.sum()), 1e-6, 1e-6)
            found |= bool((exp > 0).any())
    ctx.label("two_groups", len(set(c["groups"])) > 1)
    return found


SUBS = [
    Sub("network", case(), body, 16, 250, rule="some rain"),
    Sub("known_rain", case_rain(), body_rain, 50, 700, rule="a group of links sees rain"),
]
SHARDS_QUICK = 3
ASSUMPTIONS = [
    "no link crosses the date line or a pole; distances are not equal to the radius",
    "levels in steps of 1/8 dB for the metamorphic relations",
]
