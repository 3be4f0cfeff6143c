"""C02 coefficients of the k-R power law"""
import json
import os

import numpy as np
import xarray as xr
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from pbt.core import Frozen, Sub, call, must_raise, require, same
from pbt.gen import dyadic, grown

from pycomlink.processing.k_R_relation import a_b

H = ["h", "H", "horizontal", "Horizontal"]
V = ["v", "V", "vertical", "Vertical"]
with open(os.path.join(os.path.dirname(__file__), "../refs/itu_tables.json")) as fh:
    TABLES = {k: np.array(v) for k, v in json.load(fh).items()}
SPLINES = {
    k: [CubicSpline(t[0], t[i], bc_type="not-a-knot") for i in range(1, 5)]
    for k, t in TABLES.items()
}

# P.838-3 gives the regression from which its table was made
P838 = {
    "kH": ([-5.33980, -0.35351, -0.23789, -0.94158], [-0.10008, 1.26970, 0.86036, 0.64552],
           [1.13098, 0.45400, 0.15354, 0.16817], -0.18961, 0.71147),
    "kV": ([-3.80595, -3.44965, -0.39902, 0.50167], [0.56934, -0.22911, 0.73042, 1.07319],
           [0.81061, 0.51059, 0.11899, 0.27195], -0.16398, 0.63297),
    "aH": ([-0.14318, 0.29591, 0.32177, -5.37610, 16.1721],
           [1.82442, 0.77564, 0.63773, -0.96230, -3.29980],
           [-0.55187, 0.19822, 0.13164, 1.47828, 3.43990], 0.67849, -1.95537),
    "aV": ([-0.07771, 0.56727, -0.20238, -48.2991, 48.5833],
           [2.33840, 0.95545, 1.14520, 0.791669, 0.791459],
           [-0.76284, 0.54039, 0.26809, 0.116226, 0.116479], -0.053739, 0.83433),
}


def p838(key, f):
    a, b, c, m, k = P838[key]
    lf = np.log10(f)
    v = sum(x * np.exp(-(((lf - y) / z) ** 2)) for x, y, z in zip(a, b, c)) + m * lf + k
    return 10**v if key[0] == "k" else v


def expected(f, pol, table):
    h = pol in H
    s = SPLINES[table]
    return float(s[0 if h else 1](f)), float(s[2 if h else 3](f))


def freq(table=None):
    nodes = sorted(set(TABLES["ITU_2005"][0]) | set(TABLES["ITU_2003"][0]))
    return st.one_of(
        st.floats(1, 100, allow_nan=False), dyadic(1, 100),
        st.sampled_from([float(x) for x in nodes]),
        st.sampled_from([1.0, 100.0, 1.25, 99.5]),
    )


@st.composite
def case(draw):
    shape = draw(st.sampled_from([[], [1], [2], [3], [5], [2, 3], [2, 2], [1, 4], [2, 1, 2]]))
    n = int(np.prod(shape)) if shape else 1
    integer = draw(st.integers(0, 3)) == 0
    f = draw(st.lists(st.integers(1, 100).map(float) if integer else freq(), min_size=n, max_size=n))
    pol_kind = draw(st.sampled_from(["str", "array"]))
    pol = (
        draw(st.sampled_from(H + V))
        if pol_kind == "str"
        else draw(st.lists(st.sampled_from(H + V), min_size=n, max_size=n))
    )
    return {
        "shape": shape, "f": f, "pol": pol, "integer": integer,
        "kind": draw(st.sampled_from(["py", "np", "list", "da", "da_coords"])),
        "table": draw(st.sampled_from([None, "ITU_2005", "ITU_2003"])),
    }


def make(c):
    shape = c["shape"]
    f = np.array(c["f"]).reshape(shape)
    if c.get("integer") and (f == np.round(f)).all():
        f = f.astype(int)
    p = c["pol"]
    pol = p if isinstance(p, str) else np.array(p).reshape(shape)
    if c["kind"] in ("da", "da_coords"):
        dims = ["d%d" % i for i in range(len(shape))]
        co = None
        if c["kind"] == "da_coords":
            # coordinates in another order than the dimensions
            co = {
                d: ["%s_%d" % (d, j) for j in range(s)]
                for d, s in reversed(list(zip(dims, shape)))
            }
            co["op"] = "x"
            if dims:
                co["len"] = (dims[0], [1.5 * j for j in range(shape[0])])
        f = xr.DataArray(f, dims=dims, coords=co)
        if not isinstance(p, str):
            pol = xr.DataArray(pol, dims=dims, coords=co)
    elif c["kind"] == "py" and not shape:
        f = f.item()
        pol = p if isinstance(p, str) else str(p[0])
    elif c["kind"] == "list" and len(shape) == 1:
        f = f.tolist()
        pol = p
    return f, pol


def body(c, ctx):
    f, pol = make(c)
    table = c["table"] or "ITU_2005"
    pols = [c["pol"]] * len(c["f"]) if isinstance(c["pol"], str) else c["pol"]
    exp = np.array([expected(x, p, table) for x, p in zip(c["f"], pols)])
    kw = {"approx_type": c["table"]} if c["table"] else {}
    fr = Frozen(f=f, pol=pol)
    out = call(a_b, f, pol, **kw)
    fr.check("a_b")
    require(len(out) == 2, "a_b does not return two values")
    shape = tuple(c["shape"])
    for got, e, what in zip(out, exp.T, "ab"):
        if c["kind"] in ("da", "da_coords"):
            require(isinstance(got, xr.DataArray), "no DataArray returned")
            require(got.dims == f.dims, "dims %s, expected %s", got.dims, f.dims)
            require(set(got.coords) == set(f.coords), "coordinates changed")
            for k in f.coords:
                require(got.coords[k].identical(f.coords[k]), "coordinate %s changed", k)
            same(got.values, e.reshape(shape), what, rtol=1e-8)
        else:
            g = np.asarray(got)
            if not shape:  # a scalar may come back as array with one element
                g = g.reshape(())
            same(g, e.reshape(shape), what, rtol=1e-8)
    ctx.label(c["kind"])
    return True


def body_p838(c, ctx):
    """The 2005 coefficients against the regression in the ITU recommendation"""
    f = c["f"]
    for pol, ka, kb in (("H", "kH", "aH"), ("V", "kV", "aV")):
        a, b = call(a_b, f, pol)
        # the table has 4 digits, interpolation below 5 GHz is a bit off
        tol = 0.03 if f < 6 else 0.005
        same(np.ravel(a), [p838(ka, f)], "k of %s at %r GHz" % (pol, f), rtol=tol)
        same(np.ravel(b), [p838(kb, f)], "alpha of %s at %r GHz" % (pol, f), rtol=tol)
    return True


@st.composite
def case_reject(draw):
    how = draw(st.sampled_from(["low", "high", "pol", "table", "shape"]))
    c = draw(case())
    c["how"] = how
    n = len(c["f"])
    c["i"] = draw(st.integers(0, n - 1))
    c["bad_f"] = draw(
        st.one_of(
            st.floats(-10, 0.999999), st.sampled_from([0.0, 0.5, 0.9999])
        )
        if how == "low"
        else st.one_of(st.floats(100.00001, 1e4), st.sampled_from([101.0, 100.01]))
    )
    c["bad_pol"] = draw(
        st.sampled_from(["", "x", "HV", "hor", "VERTICAL", "HORIZONTAL", "left", " H"])
    )
    c["bad_table"] = draw(
        st.sampled_from(["ITU", "ITU_2004", "itu_2005", "", "ITU_2007", "2005"])
    )
    return c


def body_reject(c, ctx):
    how = c["how"]
    kw = {"approx_type": c["table"]} if c["table"] else {}
    if how in ("low", "high"):
        c["f"][c["i"]] = c["bad_f"]
    elif how == "pol":
        if isinstance(c["pol"], str):
            c["pol"] = c["bad_pol"]
        else:
            c["pol"][c["i"]] = c["bad_pol"]
    elif how == "table":
        kw = {"approx_type": c["bad_table"]}
    f, pol = make(c)
    if how == "shape":
        if isinstance(pol, str):
            pol = np.array([pol] * (len(c["f"]) + 1))
        else:
            pol = np.array(list(np.ravel(c["pol"])) + ["H"])
        f = np.array(c["f"]).reshape(c["shape"])
    must_raise(ValueError, a_b, f, pol, **kw)
    ctx.label(how)
    return True


def large(c, n, r):
    k = int(r.choice([1, 1, 5, 20]))
    c["shape"] = [n] if k == 1 else [k, n // k] if r.rand() < 0.5 else [n // k, k]
    n = int(np.prod(c["shape"]))
    c["f"] = c["f"][:n]
    if not isinstance(c["pol"], str):
        c["pol"] = c["pol"][:n]
    return c


SUBS = [
    Sub("large", grown(case(), ("f", "pol"), note=large), body, 25, rule="every case"),
    Sub("table", case(), body, 500, rule="every case"),
    Sub("itu_formula", st.fixed_dictionaries({"f": freq()}), body_p838, 300,
        rule="every case"),
    Sub("reject", case_reject(), body_reject, 250, rule="every case"),
]
