"""C08 wet antenna attenuation after Schleiss et al. 2013"""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import dyadic, long_case, long_states, long_values, num, pos, runs, series

from pycomlink.processing.wet_antenna import waa_schleiss_2013 as waa


@st.composite
def case(draw):
    wet = draw(runs(min_n=1, max_n=40, max_run=12))
    n = len(wet)
    if draw(st.booleans()):
        rsl = draw(series(n, dyadic(45, 70), nan="some"))
        baseline = draw(series(n, dyadic(45, 55), nan="no"))
    else:
        # attenuation mostly above the baseline, so that the film can build up
        baseline = [50.0] * n
        rsl = draw(series(n, num(49, 70), nan="some"))
    return {
        "rsl": rsl, "baseline": baseline, "wet": wet,
        "waa_max": draw(st.one_of(dyadic(0, 5), pos(0.1, 10))),
        "delta_t": draw(st.one_of(dyadic(1, 5), pos(0.1, 20))),
        "tau": draw(st.one_of(dyadic(10, 60), pos(1, 200))),
    }


def long_model(r, n):
    return {
        "rsl": long_values(r, n, 48, 75, r.choice([0, 0.3])), "baseline": long_values(r, n, 48, 52),
        "wet": long_states(r, n), "waa_max": float(r.choice([2.3, 5.0])),
        "delta_t": float(r.choice([1.0, 0.25, 15.0])), "tau": float(r.choice([15.0, 60.0, 600.0])),
    }


def body(c, ctx):
    rsl, base, wet = arr(c["rsl"]), arr(c["baseline"]), c["wet"]
    A = rsl - base
    m, dt, tau = c["waa_max"], c["delta_t"], c["tau"]
    w = arr(wet)
    fr = Frozen(rsl=rsl, baseline=base, wet=w)
    got = np.asarray(call(waa, rsl, base, w, m, dt, tau), dtype=float)
    fr.check("waa_schleiss_2013")
    require(got.shape == rsl.shape, "shape changed")
    require(got[0] == 0, "does not start at zero")
    limited = False
    for i in range(1, len(A)):
        if np.isnan(A[i]):
            require(np.isnan(got[i]), "step %d: NaN attenuation, WAA %r", i, got[i])
            continue
        exp = min(A[i], m)
        if wet[i]:
            if np.isnan(got[i - 1]):
                # what to continue from is unknown: only the limits are certain
                require(
                    np.isnan(got[i]) or got[i] <= exp + 1e-9,
                    "step %d: %r is above the limit %r", i, got[i], exp,
                )
                continue
            grow = got[i - 1] + (m - got[i - 1]) * 3 * dt / tau
            limited |= grow < exp
            exp = min(exp, grow)
        require(
            abs(got[i] - exp) <= 1e-9 * (1 + abs(exp)),
            "step %d: got %r, expected %r", i, float(got[i]), float(exp),
        )
    for kind in (bool, int):
        same(call(waa, rsl, base, np.array(wet, dtype=kind), m, dt, tau), got, "wet as %s" % kind)
    ctx.label("NaN", bool(np.isnan(A).any()))
    return bool(limited)


@st.composite
def case_meta(draw):
    c = draw(case())
    n = len(c["wet"])
    c["k"] = draw(st.integers(1, n))
    c["tail"] = draw(st.lists(dyadic(45, 70), min_size=n, max_size=n))
    c["offset"] = draw(dyadic(-100, 100))
    return c


def body_meta(c, ctx):
    rsl, base, wet = arr(c["rsl"]), arr(c["baseline"]), arr(c["wet"])
    p = (c["waa_max"], c["delta_t"], c["tau"])
    got = np.asarray(call(waa, rsl, base, wet, *p))
    k = c["k"]
    r2 = np.concatenate([rsl[:k], arr(c["tail"])[k:]])
    w2 = np.concatenate([wet[:k], 1 - wet[k:]])
    same(np.asarray(call(waa, r2, base, w2, *p))[:k], got[:k], "WAA before the change")
    same(
        call(waa, rsl + c["offset"], base + c["offset"], wet, *p), got,
        "WAA with level and baseline shifted", atol=1e-7,
    )
    ok = ~np.isnan(got)
    A = rsl - base
    require((got[ok][1:] <= np.maximum(A, 0)[ok][1:] + 1e-9).all() if ok.any() else True,
            "WAA above the attenuation")
    require((got[ok] <= p[0] + 1e-9).all(), "WAA above its maximum")
    return 1 in c["wet"] and k > 1


SUBS = [
    Sub("long_series", long_case(long_model), body, 20, 200, rule="the exponential approach limits a wet step"),
    Sub("recurrence", case(), body, 700, rule="the exponential approach limits a wet step"),
    Sub("metamorphic", case_meta(), body_meta, 250, rule="wet samples before the change"),
]
JIT = True
