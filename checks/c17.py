"""C17 IDW interpolation: values"""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, must_raise, require, same
from pbt.gen import dyadic, or_nan

from pycomlink.spatial.idw import Invdisttree
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator


def brute(x, y, z, xi, yi, nnear, p, max_distance, exclude_nan):
    """value, or None where it is not determined (ties, distance at the limit)"""
    x, y, z = (np.asarray(v, dtype=float) for v in (x, y, z))
    if exclude_nan:
        k = ~np.isnan(z)
        x, y, z = x[k], y[k], z[k]
    lim = math.inf if max_distance is None else max_distance
    out = []
    for u, v in zip(xi, yi):
        d = np.hypot(x - u, y - v)
        o = np.argsort(d, kind="stable")
        d, zz = d[o], z[o]
        if np.isfinite(lim) and (np.abs(d - lim) <= 1e-9 * max(1, lim)).any():
            out.append(None)
            continue
        if len(d) > nnear and d[nnear] - d[nnear - 1] <= 1e-9 * max(1, d[nnear]):
            out.append(None)
            continue
        d, zz = d[:nnear], zz[:nnear]
        zz, d = zz[d < lim], d[d < lim]
        if len(d) == 0:
            out.append(math.nan)
        elif d[0] == 0:
            out.append(float(zz[0]))
        elif d[0] < 1e-8:
            out.append(None)
        else:
            w = (d[0] / d) ** p
            out.append(float((w * zz).sum() / w.sum()))
    return out


def compare(got, exp, shape, what):
    got = np.asarray(got, dtype=float)
    require(got.shape == shape, "%s: shape %s, expected %s", what, got.shape, shape)
    n = 0
    for i, (g, e) in enumerate(zip(got.ravel(), exp)):
        if e is None:
            continue
        if math.isnan(e) or math.isnan(g):
            require(math.isnan(e) and math.isnan(g), "%s: at %d got %r, expected %r", what, i, g, e)
            continue
        n += 1
        require(abs(g - e) <= 1e-8 * (1 + abs(e)), "%s: at %d got %r, expected %r", what, i, g, e)
    return n


@st.composite
def stations(draw, min_n=1, max_n=14):
    co = st.one_of(dyadic(-4, 4, 2), st.floats(-4, 4, width=32))
    n = draw(st.integers(min_n, max_n))
    pts = draw(st.lists(st.tuples(co, co).map(list), min_size=n, max_size=n, unique_by=lambda q: (q[0] + 0.0, q[1] + 0.0)))
    z = draw(st.lists(or_nan(st.one_of(dyadic(0, 20), st.floats(-50, 50)), 6), min_size=n, max_size=n))
    return pts, z


@st.composite
def params(draw):
    opts = {
        "nnear": st.sampled_from([2, 3, 5, 8, 20]),
        "p": st.sampled_from([1, 2, 3, 0.5, 1.5]),
        "exclude_nan": st.booleans(),
        "max_distance": st.sampled_from([1.1, None, 0.3, 0.6, 2.3, 5.0]),
    }
    keys = draw(st.sampled_from([["max_distance"], ["nnear"], ["nnear", "p", "max_distance"], [],
                                 sorted(opts), ["exclude_nan", "max_distance"], ["p", "exclude_nan"]]))
    return {k: draw(opts[k]) for k in keys}


@st.composite
def grid(draw):
    nx, ny = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    x0, y0 = draw(dyadic(-4, 2, 2)), draw(dyadic(-4, 2, 2))
    step = draw(st.sampled_from([0.5, 1.0, 0.7, 1.3]))
    xg, yg = np.meshgrid(x0 + step * np.arange(nx), y0 + step * np.arange(ny))
    return [xg.tolist(), yg.tolist()]


@st.composite
def case(draw):
    pts, z = draw(stations())
    g = draw(grid())
    kw = draw(params())
    if draw(st.integers(0, 3)) == 0:
        # e.g. projected coordinates in m
        ox, oy, f = draw(st.sampled_from([[4.2e6, 5.1e6, 1.0], [4.2e5, 5.3e6, 1024.0], [11.0, 48.0, 1 / 64]]))
        pts = [[f * a + ox, f * b + oy] for a, b in pts]
        g = [[[f * a + o for a in row] for row in v] for v, o in zip(g, (ox, oy))]
        if kw.get("max_distance"):
            kw["max_distance"] *= f
        if len({tuple(q) for q in pts}) < len(pts):
            pts = [[f * (a + i) + ox, oy] for i, (a, b) in enumerate(pts)]
    return {
        "pts": pts, "z": z, "kw": kw, "grid": g,
        "input": draw(st.sampled_from(["np", "np", "series", "list"])),
    }


def many_stations(v):
    """many stations, neighbours and grid points"""
    seed, n, nnear, size, input_ = v
    r = np.random.RandomState(seed)
    pts = np.unique(np.round(r.uniform(-4, 4, (n, 2)) * 512) / 512, axis=0)
    pts = pts[r.permutation(len(pts))]
    z = np.round(r.uniform(-5, 20, len(pts)) * 8) / 8
    z[r.rand(len(pts)) < r.choice([0, 0.1, 0.6])] = np.nan
    xg, yg = np.meshgrid(np.linspace(-4, 4, size), np.linspace(-4.3, 4.1, max(1, size - 1)))
    xg[0, 0], yg[0, 0] = pts[0]
    kw = {"nnear": nnear, "max_distance": [None, 0.7, 2.5][seed % 3]}
    return {
        "pts": pts.tolist(), "z": [None if np.isnan(q) else q for q in z], "kw": kw,
        "grid": [xg.tolist(), yg.tolist()], "input": input_,
    }


case_large = st.tuples(
    st.integers(0, 10**6), st.integers(15, 300), st.sampled_from([2, 8, 16, 25, 60]),
    st.sampled_from([3, 11, 16, 33]), st.sampled_from(["np", "series"]),
).map(many_stations)


def defaults(kw):
    d = {"nnear": 8, "p": 2, "exclude_nan": True, "max_distance": None}
    d.update(kw)
    return d


def body(c, ctx):
    pts, z = arr(c["pts"]), arr(c["z"])
    x, y = pts[:, 0].copy(), pts[:, 1].copy()
    xg, yg = arr(c["grid"][0]), arr(c["grid"][1])
    k = defaults(c["kw"])
    exp = brute(x, y, z, xg.ravel(), yg.ravel(), **k)
    if np.isnan(z).all():
        exp = [math.nan] * xg.size
    fr = Frozen(x=x, y=y, z=z, xgrid=xg, ygrid=yg)
    a = (x, y, z)
    if c["input"] == "series":
        idx = np.arange(len(x)) + 10
        a = tuple(pd.Series(v, index=idx) for v in a)
    elif c["input"] == "list":
        a = (x.tolist(), y.tolist(), z.tolist())
    ip = IdwKdtreeInterpolator(**c["kw"])
    got = call(ip, *a, xgrid=xg, ygrid=yg)
    fr.check("IDW")
    n = compare(got, exp, xg.shape, "IDW")
    g = np.asarray(got)[~np.isnan(np.asarray(got))]
    zz = z[~np.isnan(z)]
    if len(g):
        require(
            g.min() >= zz.min() - 1e-9 * (1 + abs(zz.min())) and g.max() <= zz.max() + 1e-9 * (1 + abs(zz.max())),
            "interpolated values outside of the range of the data",
        )
    # another order of the stations
    got2 = call(IdwKdtreeInterpolator(**c["kw"]), x[::-1], y[::-1], z[::-1], xgrid=xg, ygrid=yg)
    compare(got2, exp, xg.shape, "IDW with reordered stations")
    ctx.label("NaN station", bool(np.isnan(z).any()))
    ctx.label("max_distance", k["max_distance"] is not None)
    ctx.label("on a station", any(e is not None and (np.hypot(x - u, y - v) == 0).any()
                                  for e, u, v in zip(exp, xg.ravel(), yg.ravel())))
    ctx.label("more stations than nnear", len(zz) > k["nnear"])
    return n > 0 and len(zz) > 1


@st.composite
def case_tree(draw):
    pts, z = draw(stations())
    co = dyadic(-5, 5, 4)
    return {
        "pts": pts, "z": [0.5 if v is None else v for v in z],
        "q": draw(st.lists(st.tuples(co, co).map(list), min_size=1, max_size=5)),
        "kw": draw(
            st.fixed_dictionaries(
                {},
                optional={
                    "nnear": st.sampled_from([2, 3, 6, 9]),
                    "p": st.sampled_from([1, 2, 3]),
                    "max_distance": st.sampled_from([0.3, 1.1, 2.3]),
                },
            )
        ),
        "bad": draw(st.sampled_from([1, 0, -1])),
    }


def body_tree(c, ctx):
    pts, z, q = arr(c["pts"]), arr(c["z"]), arr(c["q"])
    k = {"nnear": 6, "p": 1, "max_distance": None}
    k.update(c["kw"])
    exp = brute(pts[:, 0], pts[:, 1], z, q[:, 0], q[:, 1], exclude_nan=True, **k)
    fr = Frozen(X=pts, z=z, q=q)
    tree = Invdisttree(pts)
    n = compare(call(tree, q, z, **c["kw"]), exp, (len(q),), "tree")
    compare(np.atleast_1d(call(Invdisttree(pts), q[0], z, **c["kw"])), exp[:1], (1,), "single point")
    fr.check("Invdisttree")
    kw = dict(c["kw"], nnear=c["bad"])
    must_raise(ValueError, tree, q, z, **kw)
    must_raise(AssertionError, tree, q, np.append(z, 1.0), **c["kw"])
    return n > 0


@st.composite
def case_res(draw):
    pts, z = draw(stations(min_n=2))
    return {"pts": pts, "z": z, "resolution": draw(st.sampled_from([0.5, 1.0, 0.75, 2.0])),
            "half": draw(st.integers(0, 3))}


def body_res(c, ctx):
    pts, z = arr(c["pts"]), arr(c["z"])
    x, y = pts[:, 0], pts[:, 1]
    res = c["resolution"]
    ip = IdwKdtreeInterpolator()
    got = np.asarray(call(ip, x, y, z, resolution=res))
    gx = np.arange(x.min() - res, x.max() + res, res)
    gy = np.arange(y.min() - res, y.max() + res, res)
    xg, yg = np.meshgrid(gx, gy)
    same(ip.xgrid, xg, "generated xgrid")
    same(ip.ygrid, yg, "generated ygrid")
    exp = brute(x, y, z, xg.ravel(), yg.ravel(), 8, 2, None, True)
    if np.isnan(z).all():
        exp = [math.nan] * xg.size
    compare(got, exp, xg.shape, "on the generated grid")
    require(got is ip.zgrid or np.array_equal(got, ip.zgrid, equal_nan=True), "zgrid is another one")
    must_raise(ValueError, IdwKdtreeInterpolator(), x, y, z)
    if c["half"] == 1:
        must_raise(ValueError, IdwKdtreeInterpolator(), x, y, z, xgrid=xg)
    if c["half"] == 2:
        must_raise(ValueError, IdwKdtreeInterpolator(), x, y, z, ygrid=yg)
    must_raise(AssertionError, IdwKdtreeInterpolator(), x[1:], y, z, resolution=res)
    must_raise(AssertionError, IdwKdtreeInterpolator(), x, y, z[1:], resolution=res)
    return True


SUBS = [
    Sub("grid", case(), body, 500, rule="at least two stations with data and a determined value"),
    Sub("large", case_large, body, 15, 300, rule="at least two stations with data and a determined value"),
    Sub("tree", case_tree(), body_tree, 250, rule="a determined value"),
    Sub("resolution", case_res(), body_res, 80, rule="all cases"),
]
ASSUMPTIONS = ["stations at different places; grid points with a tie for the last neighbour, or a "
               "neighbour exactly at max_distance, are not judged"]
JIT = True
