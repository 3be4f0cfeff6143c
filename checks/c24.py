"""C24 coverage mask"""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require
from pbt.gen import dyadic

from pycomlink.spatial.coverage import calc_coverage_mask


class Cml:
    def __init__(self, s):
        self.metadata = {
            "site_a_longitude": s[0], "site_a_latitude": s[1],
            "site_b_longitude": s[2], "site_b_latitude": s[3],
        }


def distance(s, u, v):
    return place(s, u, v)[0]


def place(s, u, v):
    """distance from the path, and whether its nearest point is not one of the ends"""
    ax, ay, bx, by = s
    dx, dy = bx - ax, by - ay
    q = dx * dx + dy * dy
    t = 0 if q == 0 else max(0, min(1, ((u - ax) * dx + (v - ay) * dy) / q))
    return math.hypot(u - ax - t * dx, v - ay - t * dy), 0.001 < t < 0.999


@st.composite
def rings(draw):
    """links around an area which may be large enough not to be covered"""
    k = draw(st.integers(3, 6))
    r = draw(st.sampled_from([1.0, 2.0, 2.7]))
    x0, y0, t = draw(dyadic(-1, 1, 4)), draw(dyadic(-1, 1, 4)), draw(st.floats(0, 1))
    p = [[x0 + r * math.cos(t + 2 * math.pi * i / k), y0 + r * math.sin(t + 2 * math.pi * i / k)] for i in range(k)]
    out = [p[i] + p[(i + 1) % k] for i in range(k)]
    if draw(st.booleans()):
        out.append([x0, y0, x0 + 0.1, y0 + 0.2])
    return draw(st.permutations(out))


@st.composite
def chains(draw):
    co = dyadic(-3, 3, 2)
    p = draw(st.lists(st.tuples(co, co).map(list), min_size=2, max_size=9, unique_by=tuple))
    return [a + b for a, b in zip(p[:-1], p[1:])]


@st.composite
def case(draw):
    co = st.one_of(dyadic(-3, 3, 4), st.floats(-3, 3))
    links = draw(
        st.one_of(rings(), chains(), st.lists(
            st.tuples(co, co, co, co).map(list).filter(lambda s: math.hypot(s[0] - s[2], s[1] - s[3]) > 1e-3),
            min_size=1, max_size=5,
        ))
    )
    nx, ny = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    x0, y0 = draw(dyadic(-4, 0, 4)), draw(dyadic(-4, 0, 4))
    sx, sy = draw(st.sampled_from([0.5, 0.9, 0.25])), draw(st.sampled_from([0.5, 0.7, 0.25]))
    xg, yg = np.meshgrid(x0 + sx * np.arange(nx), y0 + sy * np.arange(ny))
    dist = draw(st.sampled_from([0.25, 0.5, 1.0, 0.1, 0.73, 2.0]))
    if draw(st.booleans()):
        # some points just inside or outside of the limit
        for _ in range(draw(st.integers(1, 6))):
            ax, ay, bx, by = draw(st.sampled_from(links))
            t, f = draw(st.floats(0.1, 0.9)), draw(st.sampled_from([1 - 1e-5, 1 + 1e-5, 0.9995, 1.0005, 0.996, 1.004]))
            length = math.hypot(bx - ax, by - ay)
            f *= draw(st.sampled_from([1, -1])) * dist / length
            i, j = draw(st.integers(0, ny - 1)), draw(st.integers(0, nx - 1))
            xg[i, j], yg[i, j] = ax + t * (bx - ax) - f * (by - ay), ay + t * (by - ay) + f * (bx - ax)
    # degrees, km, m
    scale, ox, oy = draw(st.sampled_from([[1, 0, 0], [1, 0, 0], [0.01, 11, 48], [0.001, 11.5, 48.25], [1000, 4e5, 5.3e6]]))
    links = [[a * scale + o for a, o in zip(s, [ox, oy, ox, oy])] for s in links]
    return {
        "links": links, "grid": [(xg * scale + ox).tolist(), (yg * scale + oy).tolist()],
        "d": dist * scale,
        "kind": draw(st.sampled_from(["plain", "irregular"])),
    }


def body(c, ctx):
    xg, yg = arr(c["grid"][0]), arr(c["grid"][1])
    if c["kind"] == "irregular":
        xg = xg + 0.1 * yg
    cmls = [Cml(s) for s in c["links"]]
    fr = Frozen(xgrid=xg, ygrid=yg)
    got = call(calc_coverage_mask, cmls, xg, yg, c["d"])
    fr.check("calc_coverage_mask")
    got = np.asarray(got)
    require(got.shape == xg.shape, "shape of the mask")
    seen = set()
    for i in np.ndindex(xg.shape):
        d = min(distance(s, xg[i], yg[i]) for s in c["links"])
        # the round ends of the covered area are polygons, along the path it is exact
        side = [q for q, inner in (place(s, xg[i], yg[i]) for s in c["links"]) if inner]
        eps = 1e-6 * c["d"] + 1e-12 * (abs(xg[i]) + abs(yg[i]))
        if d < 0.99 * c["d"] or (side and min(side) < c["d"] - eps):
            e = True
        elif d > c["d"] + eps:
            e = False
        else:
            continue
        seen.add(e)
        require(bool(got[i]) == e, "grid point %s at distance %s of %s: %s", i, d, c["d"], got[i])
    # more links never cover less; order does not matter
    got2 = np.asarray(call(calc_coverage_mask, cmls[::-1], xg, yg, c["d"]))
    near = np.array(
        [abs(min(distance(s, u, v) for s in c["links"]) - c["d"]) < 0.03 * c["d"]
         for u, v in zip(xg.ravel(), yg.ravel())]
    ).reshape(xg.shape)
    require(((got == got2) | near).all(), "depends on the order of the links")
    if len(cmls) > 1:
        less = np.asarray(call(calc_coverage_mask, cmls[1:], xg, yg, c["d"]))
        require((~less.astype(bool) | got.astype(bool) | near).all(), "covers less with more links")
    # a larger distance covers at least the same
    for f in (0.5, 2.0):
        other = np.asarray(call(calc_coverage_mask, cmls, xg, yg, c["d"] * f)).astype(bool)
        for i in np.ndindex(xg.shape):
            d = min(distance(s, xg[i], yg[i]) for s in c["links"]) / (c["d"] * f)
            require(0.99 < d < 1.01 or other[i] == (d < 1), "grid point %s with the distance %s: %s", i, c["d"] * f, other[i])
    ctx.label("close to the limit", any(abs(distance(s, u, v) / c["d"] - 1) < 1e-3 for s in c["links"] for u, v in zip(xg.ravel(), yg.ravel())))
    return len(seen) == 2


def network(v):
    seed, k, size, dist, kind = v
    r = np.random.RandomState(seed)
    a = r.uniform(-3, 3, (k, 2))
    b = a + r.uniform(-1, 1, (k, 2)) * r.choice([0.3, 1])
    x0 = r.uniform(-4, -2, 2)
    xg, yg = np.meshgrid(x0[0] + np.linspace(0, 6, size), x0[1] + np.linspace(0, 6, max(2, size - 3)))
    return {"links": np.hstack([a, b]).tolist(), "grid": [xg.tolist(), yg.tolist()], "d": dist, "kind": kind}


case_large = st.tuples(
    st.integers(0, 10**6), st.integers(6, 60), st.sampled_from([9, 16, 22]),
    st.sampled_from([0.1, 0.25, 0.5]), st.sampled_from(["plain", "irregular"]),
).map(network)

SUBS = [
    Sub("mask", case(), body, 250, rule="covered and not covered grid points"),
    Sub("large", case_large, body, 12, 200, rule="covered and not covered grid points"),
]
ASSUMPTIONS = ["around the ends of a path, points between 99 % and 100 % of the distance are not judged (the buffer is a polygon)"]
