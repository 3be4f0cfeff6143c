"""C11 great circle distances and distances between CML endpoints"""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import dyadic, grown

from pycomlink.processing.wet_dry.nearby_wetdry import (
    calc_distance_between_cml_endpoints as calc,
)
from pycomlink.spatial.helper import haversine

R = 6367.0


def ref(lon1, lat1, lon2, lat2):
    """angle between the two position vectors"""

    def vec(lon, lat):
        lo, la = math.radians(lon), math.radians(lat)
        return np.array(
            [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]
        )

    a, b = vec(lon1, lat1), vec(lon2, lat2)
    return R * math.atan2(np.linalg.norm(np.cross(a, b)), float(np.dot(a, b)))


lon = st.one_of(st.floats(-180, 180), dyadic(-180, 180), st.sampled_from([0.0, 179.999, -179.999]))
lat = st.one_of(st.floats(-89.9, 89.9), dyadic(-89, 89), st.just(0.0))


@st.composite
def point2(draw):
    """two points, often close to each other"""
    a = [draw(lon), draw(lat)]
    if draw(st.booleans()):
        d = draw(st.sampled_from([1e-6, 1e-5, 1e-4, 1e-2, 0.3]))
        b = [a[0] + d * draw(dyadic(-4, 4)), a[1] + d * draw(dyadic(-4, 4))]
        b[1] = max(-90.0, min(90.0, b[1]))
    else:
        b = [draw(lon), draw(lat)]
    return a + b


@st.composite
def case_h(draw):
    return {"p": draw(st.lists(point2(), min_size=1, max_size=6))}


def body_h(c, ctx):
    p = arr(c["p"])
    exp = np.array([ref(*r) for r in c["p"]])
    keep = exp < R * 3.1  # formula looses precision at antipodal points
    fr = Frozen(p=p)
    got = np.asarray(call(haversine, p[:, 0], p[:, 1], p[:, 2], p[:, 3]))
    fr.check("haversine")
    same(got[keep], exp[keep], "distance", rtol=1e-7, atol=1e-7)
    back = np.asarray(call(haversine, p[:, 2], p[:, 3], p[:, 0], p[:, 1]))
    same(back, got, "distance back", rtol=1e-9, atol=1e-9)
    require((got >= 0).all() and (got <= math.pi * R + 1e-6).all(), "out of range: %s", got)
    one = call(haversine, *c["p"][0])
    same(one, got[0], "scalar distance")
    zero = np.asarray(call(haversine, p[:, 0], p[:, 1], p[:, 0], p[:, 1]))
    require((zero == 0).all(), "distance to itself %s", zero)
    # broadcasting: one point to all others
    b = np.asarray(call(haversine, p[0, 0], p[0, 1], p[:, 2], p[:, 3]))
    e = np.array([ref(p[0, 0], p[0, 1], r[2], r[3]) for r in p])
    k = e < R * 3.1
    same(b[k], e[k], "one to many", rtol=1e-7, atol=1e-7)
    return bool((exp > 0).any())


@st.composite
def case_d(draw, n=st.integers(1, 7)):
    n = draw(n)
    clon, clat = draw(st.floats(-170, 170)), draw(st.floats(-70, 70))
    off = dyadic(-1, 1)
    sites = draw(st.lists(st.tuples(off, off, off, off).map(list), min_size=n, max_size=n))
    # some sites shared or close to each other, down to about a metre
    scale = draw(st.lists(st.sampled_from([1, 1, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5]), min_size=n, max_size=n))
    sites = [[v * f for v in s] for s, f in zip(sites, scale)]
    ids = draw(
        st.one_of(
            st.permutations(["id%d" % i for i in range(n)]),
            st.lists(st.integers(0, 1000), min_size=n, max_size=n, unique=True),
        )
    )
    return {
        "ids": list(ids), "sites": [[clon + a, clat + b, clon + x, clat + y] for a, b, x, y in sites],
        "kind": draw(st.sampled_from(["list", "np", "da"])),
        "perm": list(draw(st.permutations(range(n)))),
    }


def run_d(ids, s, kind):
    import xarray as xr

    cols = [s[:, 1], s[:, 0], s[:, 3], s[:, 2]]
    if kind == "list":
        cols = [x.tolist() for x in cols]
    elif kind == "da":
        cols = [xr.DataArray(x, dims="cml_id", coords={"cml_id": ids}) for x in cols]
    else:
        ids = np.array(ids)
    return call(calc, ids, *cols)


def body_d(c, ctx):
    s = arr(c["sites"])
    n = len(s)
    ids = c["ids"]
    ds = run_d(ids, s, c["kind"])
    ends = {"a": s[:, :2], "b": s[:, 2:]}
    for x in "ab":
        for y in "ab":
            v = ds["%s_to_all_%s" % (x, y)].transpose("cml_id1", "cml_id2")
            require(v.cml_id1.values.tolist() == ids and v.cml_id2.values.tolist() == ids,
                    "labels of the distances")
            exp = np.array(
                [
                    [
                        0.0 if i == j else ref(*ends[x][i], *ends[y][j])
                        for j in range(n)
                    ]
                    for i in range(n)
                ]
            ).reshape(n, n)
            same(v.values, exp, "%s to %s" % (x, y), rtol=1e-7, atol=1e-7)
    # another order of the CMLs: the same distances
    perm = c["perm"]
    ds2 = run_d([ids[i] for i in perm], s[perm], c["kind"])
    for name in ds.data_vars:
        same(
            ds2[name].sel(cml_id1=ids, cml_id2=ids).transpose("cml_id1", "cml_id2").values,
            ds[name].transpose("cml_id1", "cml_id2").values,
            "%s after reordering" % name, atol=1e-9,
        )
    return n > 1


SUBS = [
    Sub("large_haversine", grown(case_h(), "p"), body_h, 15, rule="different points"),
    Sub("many_cmls", case_d(st.sampled_from([15, 24, 33])), body_d, 6, 30, rule="at least two CMLs"),
    Sub("haversine", case_h(), body_h, 500, rule="different points"),
    Sub("endpoints", case_d(), body_d, 150, rule="at least two CMLs"),
]
ASSUMPTIONS = ["points which are not antipodal (distance below 3.1 radians)"]
