"""C18 interpolators: results do not depend on what was interpolated before"""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, arr, call, require, same
from pbt.gen import dyadic, or_nan

from pycomlink.spatial.idw import Invdisttree
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator

from checks.c17 import brute, compare

# irregular places, without ties
PLACES = [(0.13, 0.41), (1.07, 0.29), (0.53, 1.31), (1.71, 1.13), (2.17, 0.37), (0.23, 2.03), (1.43, 2.39)]
GRIDS = [
    (np.array([[0.0, 1.0], [0.0, 1.0]]), np.array([[0.0, 0.0], [1.1, 1.1]])),
    (np.array([[0.5, 1.5], [0.5, 1.5]]), np.array([[0.3, 0.3], [1.3, 1.3]])),
    (np.array([[0.0, 1.0, 2.0]]), np.array([[0.9, 0.9, 0.9]])),
]


@st.composite
def op(draw, n):
    kind = draw(
        st.sampled_from(
            ["call", "call", "call", "z_inplace", "x_inplace", "y_inplace", "grid_inplace", "grid_y_inplace", "swap",
                 "swap_y", "swap_x", "param", "scribble"]
        )
    )
    return {
        "op": kind,
        "z": draw(st.lists(or_nan(dyadic(0, 10), 5), min_size=n, max_size=n)),
        "keep_z": draw(st.booleans()),
        "i": draw(st.integers(0, n - 1)),
        "j": draw(st.integers(0, n - 1)),
        "d": draw(st.sampled_from([0.17, -0.31, 0.5, 2e-6, -1e-5])),
        "grid": draw(st.integers(0, len(GRIDS) - 1)),
        # the grid follows from the stations
        "resolution": draw(st.sampled_from([None, None, None, 0.7, 0.43])),
        "param": draw(
            st.sampled_from(
                [["nnear", 2], ["nnear", 4], ["nnear", 8], ["p", 1], ["p", 2],
                 ["max_distance", None], ["max_distance", 0.61], ["max_distance", 1.27],
                 ["exclude_nan", True], ["exclude_nan", False]]
            )
        ),
    }


@st.composite
def case(draw, min_ops=2, max_ops=8):
    n = draw(st.integers(2, len(PLACES)))
    return {
        "n": n,
        # e.g. projected coordinates in m
        "offset": draw(st.sampled_from([0, 0, [4.2e6, 5.1e6]])),
        "kw": {
            "nnear": draw(st.sampled_from([2, 3, 8])),
            "max_distance": draw(st.sampled_from([None, 0.7, 1.3])),
        },
        "ops": draw(st.lists(op(n), min_size=min_ops, max_size=max_ops)),
    }


def body(c, ctx):
    n = c["n"]
    x = np.array([p[0] for p in PLACES[:n]])
    y = np.array([p[1] for p in PLACES[:n]])
    z = np.arange(n, dtype=float)
    ox, oy = c["offset"] or (0, 0)
    x, y = x + ox, y + oy
    grids = [(a + ox, b + oy) for a, b in GRIDS]
    ip = IdwKdtreeInterpolator(**c["kw"])
    cfg = {"nnear": 8, "p": 2, "exclude_nan": True, "max_distance": None}
    cfg.update(c["kw"])
    results = []
    calls = 0
    g = 0
    for o in c["ops"]:
        k = o["op"]
        if k == "call":
            g = o["grid"]
            if not o["keep_z"]:
                z = arr(o["z"])
        elif k == "z_inplace":
            z[o["i"]] = o["d"] * 10
        elif k == "x_inplace":
            x[o["i"]] += o["d"]
        elif k == "y_inplace":
            y[o["i"]] += o["d"]
        elif k == "grid_inplace":
            v = grids[g][0]
            v[np.unravel_index(o["i"] % v.size, v.shape)] += o["d"]
        elif k == "grid_y_inplace":
            v = grids[g][1]
            v[np.unravel_index(o["i"] % v.size, v.shape)] += o["d"]
        elif k in ("swap_x", "swap_y"):
            v = x if k == "swap_x" else y
            v[[o["i"], o["j"]]] = v[[o["j"], o["i"]]]
        elif k == "swap":
            i, j = o["i"], o["j"]
            x[[i, j]], y[[i, j]] = x[[j, i]], y[[j, i]]
        elif k == "param":
            name, v = o["param"]
            setattr(ip, name, v)
            cfg[name] = v
        elif k == "scribble" and results:
            # the caller may do with a result what he wants
            results[-1][0][...] = -999
            results.pop()
        if len({(a, b) for a, b in zip(x, y)}) < n:
            return calls > 1
        xg, yg = grids[g]
        fresh_ip = IdwKdtreeInterpolator(**cfg)
        if o["resolution"]:
            got = np.asarray(call(ip, x, y, z, resolution=o["resolution"]))
            fresh = call(fresh_ip, x.copy(), y.copy(), z.copy(), resolution=o["resolution"])
            xg, yg = (np.array(v) for v in (fresh_ip.xgrid, fresh_ip.ygrid))
        else:
            got = np.asarray(call(ip, x, y, z, xgrid=xg, ygrid=yg))
            fresh = call(fresh_ip, x.copy(), y.copy(), z.copy(), xgrid=xg.copy(), ygrid=yg.copy())
        require(np.array_equal(ip.xgrid, xg) and np.array_equal(ip.ygrid, yg), "grid of call %d", calls + 1)
        calls += 1
        if np.isnan(z).all():
            exp = [math.nan] * xg.size
        else:
            exp = brute(x, y, z, xg.ravel(), yg.ravel(), **cfg)
        compare(got, exp, xg.shape, "call %d (%s)" % (calls, k))
        same(got, fresh, "call %d (%s), compared with a new interpolator" % (calls, k), atol=1e-12)
        for r, copy in results:
            same(r, copy, "an earlier result, after call %d" % calls, 0, 0)
        results.append((got, got.copy()))
        ctx.label(k)
    return calls > 1


@st.composite
def case_tree(draw, min_ops=2, max_ops=6):
    n = draw(st.integers(2, len(PLACES)))
    call_ = st.fixed_dictionaries(
        {
            "z": st.lists(dyadic(0, 10), min_size=n, max_size=n),
            "q": st.integers(0, 2),
            "nnear": st.sampled_from([2, 3, 6]),
            "p": st.sampled_from([1, 2]),
            "max_distance": st.sampled_from([None, 0.7, 1.3]),
            "nudge": st.sampled_from([0, 0, 0.21, 3e-6]),
            "row": st.integers(0, 2),
        }
    )
    return {"n": n, "calls": draw(st.lists(call_, min_size=min_ops, max_size=max_ops))}


def body_tree(c, ctx):
    X = np.array(PLACES[: c["n"]])
    tree = Invdisttree(X)
    qs = [
        np.array([[0.5, 0.5], [1.0, 0.1]]), np.array([[0.5, 0.5], [1.0, 1.1]]),
        np.array([[0.5, 0.5], [1.0, 0.1], [2.0, 2.2]]),
    ]
    results = []
    for k, o in enumerate(c["calls"]):
        q = qs[o["q"]]
        q[o["row"] % len(q), 0] += o["nudge"]
        z = arr(o["z"])
        args = {m: o[m] for m in ("nnear", "p", "max_distance")}
        got = np.asarray(call(tree, q, z, **args))
        compare(got, brute(X[:, 0], X[:, 1], z, q[:, 0], q[:, 1], exclude_nan=True, **args), (len(q),), "call %d" % k)
        for r, copy in results:
            same(r, copy, "an earlier result, after call %d" % k, 0, 0)
        results.append((got, got.copy()))
    return True


@st.composite
def case_ok(draw, min_ops=2, max_ops=4):
    n = draw(st.integers(4, len(PLACES)))
    o = st.fixed_dictionaries(
        {
            "z": st.lists(or_nan(dyadic(0, 10), 8), min_size=n, max_size=n),
            "grid": st.integers(0, len(GRIDS) - 1),
            "i": st.integers(0, n - 1),
            "d": st.sampled_from([0, 0, 0.17]),
            "axis": st.integers(0, 1),
            "nudge": st.sampled_from([0, 0, 0.11]),
        }
    )
    return {"n": n, "range": draw(st.sampled_from([None, 1.5, 4.0, 1.75])), "factor": draw(st.sampled_from([1, 1, 500, 1e-3])), "ops": draw(st.lists(o, min_size=min_ops, max_size=max_ops))}


def body_ok(c, ctx):
    n = c["n"]
    x = np.array([p[0] for p in PLACES[:n]])
    y = np.array([p[1] for p in PLACES[:n]])
    kw = {}
    if c["range"]:
        kw["variogram_parameters"] = {"sill": 0.9, "range": c["range"], "nugget": 0.1}
    ip = OrdinaryKrigingInterpolator(**kw)
    grids = [(a.copy(), b.copy()) for a, b in GRIDS]
    results = []
    done = 0
    for o in c["ops"]:
        z = arr(o["z"]) * c["factor"]
        if (~np.isnan(z)).sum() < 3:
            continue
        (x, y)[o["axis"]][o["i"]] += o["d"]
        if len({(a, b) for a, b in zip(x, y)}) < n:
            return done > 1
        xg, yg = grids[o["grid"]]
        v = (xg, yg)[o["axis"]]
        v[np.unravel_index(o["i"] % v.size, v.shape)] += o["nudge"]
        got = np.asarray(call(ip, x, y, z, xgrid=xg, ygrid=yg))
        fresh = call(OrdinaryKrigingInterpolator(**kw), x.copy(), y.copy(), z.copy(), xgrid=xg, ygrid=yg)
        same(got, fresh, "kriging, compared with a new interpolator", atol=1e-9 * c["factor"])
        for r, copy in results:
            same(r, copy, "an earlier result", 0, 0)
        results.append((got, got.copy()))
        done += 1
    return done > 1


SUBS = [
    Sub("idw_history", case(), body, 400, rule="more than one call"),
    Sub("long_idw_history", case(25, 60), body, 12, 300, rule="more than one call"),
    Sub("long_tree_history", case_tree(25, 60), body_tree, 8, 200, rule="all cases"),
    Sub("long_kriging_history", case_ok(15, 30), body_ok, 4, 60, rule="more than one call"),
    Sub("tree_history", case_tree(), body_tree, 200, rule="all cases"),
    Sub("kriging_history", case_ok(), body_ok, 60, rule="more than one call"),
]
ASSUMPTIONS = ["one thread; stations at different places"]
JIT = True
