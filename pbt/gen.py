"""Shared generators. All cases are JSON-able, NaN is None."""
import numpy as np
from hypothesis import strategies as st


def dyadic(lo, hi, den=8):
    """Multiples of 1/den in [lo, hi]: exact in binary, so sums and comparisons are"""
    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)


def num(lo, hi):
    """Any float in [lo, hi], half of the time a dyadic one (to hit equalities)"""
    return st.one_of(
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64),
        dyadic(lo, hi),
    )


def pos(lo, hi):
    """Positive floats, spread over the magnitudes between lo and hi"""
    import math

    a, b = math.log10(lo), math.log10(hi)
    return st.floats(a, b, allow_nan=False).map(lambda e: min(max(10.0**e, lo), hi))


def or_nan(strategy, p=8):
    """None about once in p"""
    return st.integers(0, p - 1).flatmap(lambda k: st.none() if k == 0 else strategy)


@st.composite
def runs(draw, states=(0, 1), min_n=1, max_n=40, max_run=6):
    """A sequence made of runs of states"""
    n = draw(st.integers(min_n, max_n))
    out = []
    while len(out) < n:
        s = draw(st.sampled_from(states))
        k = draw(st.integers(1, max_run))
        out += [s] * k
    return out[:n]


@st.composite
def series(draw, n, value=None, nan="some"):
    """List of n values; nan: 'no', 'some' (in runs, in about half of the cases)"""
    value = num(-80, 80) if value is None else value
    vals = draw(st.lists(value, min_size=n, max_size=n))
    if nan == "some" and draw(st.booleans()):
        mask = draw(runs(states=(0, 0, 0, 1), min_n=n, max_n=n, max_run=4))
        vals = [None if m else v for v, m in zip(vals, mask)]
    return vals


def levels(lo=-80, hi=80):
    """Values which often repeat: a few levels"""
    return dyadic(lo, hi, 2)


def long_states(r, n, states=(0, 1)):
    """n states in runs of very different length (r: RandomState)"""
    out = []
    if r.rand() < 0.3:
        # mostly one run, with something else before and after it
        k = r.randint(1, 20)
        a, b = states[0], states[r.randint(1, len(states))]
        if r.rand() < 0.5:
            a, b = b, a
        return ([a] * k + [b] * n)[: n - k] + [a] * min(k, n)
    while len(out) < n:
        out += [states[r.randint(len(states))]] * int(10 ** r.uniform(0, 3))
    return out[:n]


def long_values(r, n, lo, hi, nan=0.0, den=8):
    """n multiples of 1/den in [lo, hi]; nan: part of NaN, in gaps of any length"""
    step = r.choice([0.25, 1.0, 5.0])
    x = (lo + hi) / 2 + np.cumsum(r.uniform(-step, step, n))
    x = lo + np.abs((x - lo) % (2 * (hi - lo)) - (hi - lo))  # reflected at the limits
    x = (np.round(x * den) / den).tolist()
    if nan:
        m = long_states(r, n, (0, 1) if r.rand() < nan else (0, 0, 0, 1))
        x = [None if k else v for v, k in zip(x, m)]
    return x


def long_case(expand, sizes=(300, 1000, 3000)):
    """cases made from a seed: expand(r, n, seed) -> case"""
    return st.tuples(st.integers(0, 10**6), st.sampled_from(sizes), st.integers(-40, 40)).map(
        lambda v: expand(np.random.RandomState(v[0]), v[1] + v[2])
    )


def pick(v, idx, axis=0):
    """elements idx of a list (or of every row of a list of rows)"""
    return [v[i] for i in idx] if axis == 0 else [[row[i] for i in idx] for row in v]


def grown(strategy, *groups, sizes=(60, 250, 1000), axis=0, note=None):
    """Large cases: the lists under the keys of a group are drawn again, with
    repetition and the same indices for all keys of the group, to a large size"""

    def grow(v):
        c, seed, size = v
        r = np.random.RandomState(seed)
        c = dict(c)
        for g in groups:
            g = (g,) if isinstance(g, str) else g
            n = len(c[g[0]] if axis == 0 else c[g[0]][0])
            if n == 0:
                continue
            idx = r.randint(0, n, size)
            for k in g:
                if not isinstance(c[k], str):
                    c[k] = pick(c[k], idx, axis)
        return note(c, size, r) if note else c

    return st.tuples(strategy, st.integers(0, 10**6), st.sampled_from(sizes)).map(grow)


def fill(draw, s, n, large=False):
    """n values of a strategy; large: a few values, repeated at random"""
    if not large:
        return draw(st.lists(s, min_size=n, max_size=n))
    pool = draw(st.lists(s, min_size=3, max_size=8))
    r = np.random.RandomState(draw(st.integers(0, 10**6)))
    return [pool[i] for i in r.randint(0, len(pool), n)]
