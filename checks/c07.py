"""C07 blackout gaps"""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, Violation, arr, call, require, same
from pbt.gen import dyadic, long_case, long_states, long_values

import pycomlink.processing.blackout_gap_detection as bo


@st.composite
def case(draw):
    n = draw(st.integers(1, 35))
    thr = draw(dyadic(-70, -60, 2))
    v = st.one_of(
        st.sampled_from([thr, thr - 0.5, thr + 0.5]), dyadic(-80, -50, 2), dyadic(-130, 30, 2)
    )
    p_nan = draw(st.sampled_from([2, 3, 4]))
    out = []
    while len(out) < n:
        if draw(st.integers(0, p_nan - 1)) == 0:
            out += [None] * draw(st.integers(1, 4))
        else:
            k = draw(st.integers(1, 3))
            out += draw(st.lists(v, min_size=k, max_size=k))
    return {"rsl": out[:n], "thr": thr}


def long_model(r, n):
    x = long_values(r, n, -80, -50, 0.5, 2)
    for k in r.randint(0, n, r.choice([0, 3, n // 20])):
        x[k] = [None, -80.0, -50.0][r.randint(3)]
    return {"rsl": x, "thr": float(r.choice([-65, -70.5]))}


def gaps(nan):
    i, out = 0, []
    while i < len(nan):
        if nan[i]:
            j = i
            while j + 1 < len(nan) and nan[j + 1]:
                j += 1
            out.append((i, j))
            i = j
        i += 1
    return out


def body(c, ctx):
    rsl, thr = arr(c["rsl"]), c["thr"]
    n = len(rsl)
    nan = np.isnan(rsl)
    with np.errstate(invalid="ignore"):
        low = rsl < thr
    fr = Frozen(rsl=rsl)
    start, end = call(bo.get_blackout_start_and_end, rsl, thr)
    fr.check("get_blackout_start_and_end")
    same(
        start, [bool(low[i] and i + 1 < n and nan[i + 1]) for i in range(n)], "gap start"
    )
    same(end, [bool(low[i] and i > 0 and nan[i - 1]) for i in range(n)], "gap end")
    start, end = np.asarray(start), np.asarray(end)
    create = bo.created_blackout_gap_mask_from_start_end_markers
    fwd = np.asarray(call(create, rsl, start, end))
    rev = np.asarray(
        call(create, rsl[::-1].copy(), end[::-1].copy(), start[::-1].copy())
    )[::-1]
    fr.check("created_blackout_gap_mask_from_start_end_markers")
    mask = fwd | rev
    require(fwd.shape == rsl.shape, "shape of the mask")
    require(not (mask & ~nan).any(), "a valid sample is masked")
    interesting = False
    for i, j in gaps(nan):
        left = i > 0 and bool(low[i - 1])
        right = j < n - 1 and bool(low[j + 1])
        # known finding: a single low sample between two gaps only closes the first
        left_isolated = left and i > 1 and bool(nan[i - 2])
        right_isolated = right and j < n - 2 and bool(nan[j + 2])
        interesting |= left or right
        for m, want, listed, what in (
            (fwd, left, left_isolated, "forward mask"),
            (rev, right, right_isolated, "backward mask"),
            (
                mask, left or right,
                (not left or left_isolated) and (not right or right_isolated)
                and (left or right),
                "mask",
            ),
        ):
            got = m[i : j + 1]
            require(got.all() or not got.any(), "%s: gap %d-%d is masked in part", what, i, j)
            if bool(got.all()) != bool(want):
                if listed and want:
                    ctx.finding("C07-F1")
                else:
                    raise Violation(
                        "%s: gap %d-%d is %smasked" % (what, i, j, "not " if want else "")
                    )
    return interesting


def body_mirror(c, ctx):
    """Reversing the series swaps start and end markers"""
    rsl = arr(c["rsl"])
    s, e = call(bo.get_blackout_start_and_end, rsl, c["thr"])
    s2, e2 = call(bo.get_blackout_start_and_end, rsl[::-1].copy(), c["thr"])
    same(np.asarray(s2)[::-1], e, "start of the reversed series")
    same(np.asarray(e2)[::-1], s, "end of the reversed series")
    return None in c["rsl"]


SUBS = [
    Sub("long_series", long_case(long_model), body, 20, 200, rule="a gap next to a sample below the threshold"),
    Sub(
        "mask", case(), body, 900, rule="a gap next to a sample below the threshold",
        examples=[
            {"rsl": [-70, None, -70, None, -70, None, -70], "thr": -65},
            {"rsl": [-70, -70, None, -70, -70], "thr": -65},
            {"rsl": [None, -70, -50, -50, -70], "thr": -65},
        ],
    ),
    Sub("mirror", case(), body_mirror, 200, rule="has a gap"),
]
JIT = True
