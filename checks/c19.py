"""C19 ordinary kriging"""
import math

import numpy as np
from hypothesis import strategies as st

from pykrige.ok import OrdinaryKriging as reference

from pbt.core import Frozen, Sub, arr, call, quiet, require, same
from pbt.gen import dyadic, or_nan

from pycomlink.spatial.interpolator import OrdinaryKrigingInterpolator as OK


def gamma(model, par, h):
    if model == "linear":
        return par["slope"] * h + par["nugget"]
    psill, r, nugget = par["sill"] - par["nugget"], par["range"], par["nugget"]
    if model == "spherical":
        if h > r:
            return psill + nugget
        return psill * (1.5 * h / r - 0.5 * (h / r) ** 3) + nugget
    return psill * (1 - math.exp(-h / (r / 3))) + nugget


def brute(x, y, z, xi, yi, model, par, n_closest, var=None):
    """the ordinary kriging system, solved for every point. None: not determined"""
    k = ~np.isnan(z)
    x, y, z = x[k], y[k], z[k]
    out = []
    pairs = np.array([[gamma(model, par, math.hypot(a - c, b - d)) for c, d in zip(x, y)] for a, b in zip(x, y)])
    for u, v in zip(xi, yi):
        d0 = np.hypot(x - u, y - v)
        o = np.argsort(d0, kind="stable")
        if n_closest is not None and n_closest < len(o):
            if d0[o[n_closest]] - d0[o[n_closest - 1]] < 1e-9:
                out.append(None)
                continue
            o = o[:n_closest]
        m = len(o)
        if m == 1:
            out.append(float(z[o[0]]))
            continue
        A = np.zeros((m + 1, m + 1))
        b = np.zeros(m + 1)
        for i in range(m):
            for j in range(m):
                if i != j:
                    A[i, j] = pairs[o[i], o[j]]
            A[i, m] = A[m, i] = 1
            b[i] = 0 if d0[o[i]] < 1e-10 else gamma(model, par, d0[o[i]])
        b[m] = 1
        if np.linalg.cond(A) > 1e7:
            out.append(None)
            continue
        s = np.linalg.solve(A, b)
        out.append(float((s[:m] * z[o]).sum()))
        if var is not None:
            var[len(out) - 1] = float((s * b).sum())
    return out


@st.composite
def case(draw, large=False):
    n = draw(st.integers(3, 10)) if not large else draw(st.integers(18, 40))
    co = dyadic(-2, 2, 8)
    pts = draw(
        st.lists(st.tuples(co, co).map(list), min_size=n, max_size=n, unique_by=lambda q: (q[0] + 0.0, q[1] + 0.0))
    )
    z = draw(st.lists(or_nan(dyadic(0, 20), 8), min_size=n, max_size=n))
    m = draw(st.sampled_from([None, None, "spherical", "linear", "exponential"]))
    if m is None:
        par = None
    elif m == "linear":
        par = {"slope": draw(st.floats(0.1, 3)), "nugget": draw(st.floats(0, 1))}
    else:
        par = {"sill": draw(st.floats(0.5, 3)), "range": draw(st.floats(0.3, 5)), "nugget": draw(st.floats(0, 0.4))}
    integer = draw(st.integers(0, 3)) == 0
    if integer:
        whole = st.integers(-4, 4)
        pts = draw(st.lists(st.tuples(whole, whole).map(list), min_size=n, max_size=n, unique_by=tuple))
    nx, ny = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    if large:
        nx, ny = draw(st.sampled_from([[3, 3], [8, 8], [12, 9]]))
    x0, y0 = draw(dyadic(-2, 1, 8)), draw(dyadic(-2, 1, 8))
    xg, yg = np.meshgrid(x0 + 0.5 * np.arange(nx), y0 + 0.37 * np.arange(ny))
    if integer:
        xg, yg = np.meshgrid(int(x0) + np.arange(nx), int(y0) + np.arange(ny))
    if draw(st.booleans()):
        # grid points at stations
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3)):
            r, q = draw(st.integers(0, ny - 1)), draw(st.integers(0, nx - 1))
            xg[r, q], yg[r, q] = pts[i]
    kw = {}
    if m is not None:
        kw = {"variogram_model": m, "variogram_parameters": par}
    if draw(st.booleans()):
        kw["n_closest_points"] = draw(st.integers(2, n))
        kw["backend"] = draw(st.sampled_from(["C", "loop"]))
    elif draw(st.booleans()):
        kw["backend"] = draw(st.sampled_from(["C", "loop", "vectorized"]))
    if draw(st.integers(0, 3)) == 0:
        kw["nlags"] = draw(st.sampled_from([6, 20]))
    return {
        "pts": pts, "z": z, "kw": kw, "grid": [xg.tolist(), yg.tolist()],
        "perm": list(draw(st.permutations(range(n)))), "shift": draw(dyadic(-20, 20)),
        "integer": integer, "list": draw(st.booleans()), "factor": draw(st.sampled_from([-2.0, 0.5, 3.0])),
    }


def compare(got, exp, shape, what, scale):
    got = np.asarray(got, dtype=float)
    require(got.shape == shape, "%s: shape %s", what, got.shape)
    n = 0
    for i, (g, e) in enumerate(zip(got.ravel(), exp)):
        if e is None:
            continue
        n += 1
        require(abs(g - e) <= 1e-6 * scale, "%s: at %d got %r, expected %r", what, i, g, e)
    return n


def body(c, ctx):
    pts, z = arr(c["pts"]), arr(c["z"])
    if (~np.isnan(z)).sum() < 3:
        return False
    x, y = pts[:, 0].copy(), pts[:, 1].copy()
    xg, yg = arr(c["grid"][0]), arr(c["grid"][1])
    kw = c["kw"]
    if kw.get("n_closest_points") and kw["n_closest_points"] > (~np.isnan(z)).sum():
        kw = dict(kw, n_closest_points=int((~np.isnan(z)).sum()))
    model = kw.get("variogram_model", "spherical")
    par = kw.get("variogram_parameters", {"sill": 0.9, "range": 1, "nugget": 0.1})
    var = {}
    exp = brute(x, y, z, xg.ravel(), yg.ravel(), model, par, kw.get("n_closest_points"), var)
    fr = Frozen(x=x, y=y, z=z, xgrid=xg, ygrid=yg, par=par)
    ip = OK(**kw)
    got = call(ip, x, y, z, xgrid=xg, ygrid=yg)
    fr.check("kriging")
    if c["integer"]:
        xi, yi, gx, gy = (v.astype(int) for v in (x, y, xg, yg))
        same(call(OK(**kw), xi, yi, z, xgrid=gx, ygrid=gy), got, "kriging with integer coordinates", 1e-9, 1e-9)
    if c["list"]:
        same(call(OK(**kw), x.tolist(), y.tolist(), z.tolist(), xgrid=xg, ygrid=yg), got, "kriging of lists", 1e-9, 1e-9)
    scale = 1 + np.nanmax(np.abs(z))
    n = compare(got, exp, xg.shape, "kriging", scale)
    sigma = np.ravel(ip.sigma)
    require(sigma.size == xg.size, "%d kriging variances for %d points", sigma.size, xg.size)
    for i, s in var.items():
        require(abs(sigma[i] - s) <= 1e-6 * (1 + abs(s)), "kriging variance at %d: %r, expected %r", i, sigma[i], s)
    if not np.isnan(z).any():
        same(call(OK(exclude_nan=False, **kw), x, y, z, xgrid=xg, ygrid=yg), got, "exclude_nan without NaN", 1e-9, 1e-9)
    p = c["perm"]
    compare(call(ip, x[p], y[p], z[p], xgrid=xg, ygrid=yg), exp, xg.shape, "with reordered stations", scale)
    lin = [None if e is None else c["factor"] * e + c["shift"] for e in exp]
    compare(
        call(ip, x, y, c["factor"] * z + c["shift"], xgrid=xg, ygrid=yg), lin, xg.shape,
        "of scaled and shifted data", 3 * scale + 20,
    )
    k = ~np.isnan(z)
    compare(call(OK(**kw), x[k], y[k], z[k], xgrid=xg, ygrid=yg), exp, xg.shape, "without the NaN stations", scale)
    const = [None if e is None else 4.25 for e in exp]
    compare(call(ip, x, y, np.where(k, 4.25, np.nan), xgrid=xg, ygrid=yg), const, xg.shape, "of a constant field", 5)
    at = [(np.hypot(x[k] - u, y[k] - v) == 0).any() for u, v in zip(xg.ravel(), yg.ravel())]
    ctx.label("grid point at a station", any(at))
    ctx.label(model)
    ctx.label("n_closest_points", "n_closest_points" in kw)
    ctx.label("NaN station", not k.all())
    return n > 0


@st.composite
def case_fit(draw):
    n = draw(st.integers(6, 14))
    co = dyadic(-2, 2, 8)
    pts = draw(st.lists(st.tuples(co, co).map(list), min_size=n, max_size=n, unique_by=lambda q: (q[0] + 0.0, q[1] + 0.0)))
    kw = {"variogram_model": draw(st.sampled_from(["linear", "spherical", "exponential", "power", "gaussian"])),
          "variogram_parameters": None}
    if draw(st.booleans()):
        kw["nlags"] = draw(st.sampled_from([4, 6, 9, 12, 150, 230]))
    if draw(st.booleans()):
        kw["weight"] = draw(st.booleans())
    return {"pts": pts, "z": draw(st.lists(or_nan(dyadic(0, 20, 8), 10), min_size=n, max_size=n)), "kw": kw}


def body_fit(c, ctx):
    """the variogram is fitted to the stations with data, with the stated number of lags and weighting"""
    pts, z = arr(c["pts"]), arr(c["z"])
    x, y = pts[:, 0].copy(), pts[:, 1].copy()
    k = ~np.isnan(z)
    xg, yg = np.meshgrid([-1.0, 0.25, 1.5], [-0.5, 0.75])
    kw = dict({"nlags": 100, "weight": True}, **c["kw"])
    try:
        with quiet():
            exp = reference(x[k], y[k], z[k], **kw).execute("points", xg.ravel(), yg.ravel(), backend="loop")
    except Exception:  # noqa: BLE001
        return False
    got = call(OK(backend="loop", **c["kw"]), x, y, z, xgrid=xg, ygrid=yg)
    e = np.asarray(exp[0], dtype=float).reshape(xg.shape)
    if not np.isfinite(e).all() or np.abs(e).max() > 1e4:
        return False
    same(got, e, "kriging with a fitted variogram", 1e-5, 1e-5)
    ctx.label(c["kw"]["variogram_model"])
    return True


SUBS = [
    Sub("system", case(), body, 140, 900, rule="a well-conditioned kriging system"),
    Sub("large", case(large=True), body, 5, 60, rule="a well-conditioned kriging system"),
    Sub("fit", case_fit(), body_fit, 40, 300, rule="a variogram could be fitted"),
]
ASSUMPTIONS = ["at least three stations with data, at different places; variogram parameters given or default"]
