"""C16 rolling Fourier transform wet-dry classification"""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, Violation, arr, call, must_raise, require, same
from pbt.gen import dyadic

from pycomlink.processing.wet_dry import stft


def signal(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    x = c["level"] + c["noise"] * r.randn(n)
    for a, k, amp in c["events"]:
        m = len(x[a : a + k])
        x[a : a + k] -= amp * np.sin(np.linspace(0, math.pi, m)) if m > 1 else amp
    for a, k in c["nan"]:
        x[a : a + k] = np.nan
    return x * c["scale"]


@st.composite
def case(draw, wins=st.integers(4, 20), max_n=90):
    win = draw(wins)
    n = draw(st.integers(win + 2, max_n))
    fs = draw(st.sampled_from([None, 1.0, 1 / 60, 0.25]))
    a = draw(st.integers(0, n - 2))
    c = {
        "n": n, "win": win, "seed": draw(st.integers(0, 10**6)),
        "level": draw(st.sampled_from([0.0, -40.0, -50.0])),
        "noise": draw(st.sampled_from([1.0, 0.3, 0.1])),
        # the measure does not depend on the unit of the levels
        "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-4, 1e-7, 1e4])),
        "events": draw(
            st.lists(
                st.tuples(st.integers(0, n - 1), st.integers(2, 25), st.floats(1, 20)).map(list),
                max_size=2,
            )
        ),
        "nan": draw(
            st.one_of(
                st.just([]),
                st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 3)).map(list), max_size=2),
            )
        ),
        "fs": fs,
        # between two frequencies of the DFT, or on one
        "divide": draw(
            st.one_of(
                st.integers(0, win // 2 - 1).map(float),
                st.integers(0, win // 2 - 1).map(lambda k: k + 0.5),
            )
        ),
        "threshold": draw(st.one_of(dyadic(0, 4), st.floats(-2, 10))),
        "dry": [a, draw(st.integers(a + 1, n))],
        "mirror": draw(st.booleans()),
        "window": draw(st.sampled_from([None, None, "hann", "box"])),
    }
    return c


def parts(c):
    x = signal(c)
    n_fft = c["win"] + (c["win"] % 2 if c["mirror"] else 0)
    fs = 1 / 60 if c["fs"] is None else c["fs"]
    # on a DFT frequency: computed as the FFT does it
    k = c["divide"]
    f_divide = np.fft.rfftfreq(n_fft, 1 / fs)[int(k)] if k == int(k) else k * fs / n_fft
    window = None
    if c["window"] == "hann":
        window = np.hanning(n_fft + 2)[1:-1]
    elif c["window"] == "box":
        window = np.ones(n_fft)
    kw = {} if c["fs"] is None else {"f_sampling": c["fs"]}
    return x, n_fft, fs, f_divide, window, kw


def spectra(x, n_fft, window, mirror):
    """power of the DFT of the window around every time step, (k, t), from the
    definition of the DFT"""
    n = len(x)
    w = np.array([0.54 - 0.46 * math.cos(2 * math.pi * i / (n_fft - 1)) for i in range(n_fft)])
    w = w if window is None else window
    K = n_fft // 2 + 1
    dft = np.array(
        [[cmath.exp(-2j * math.pi * k * i / n_fft) for i in range(n_fft)] for k in range(K)]
    )
    P = np.full((K, n), np.nan)
    off = (n_fft - 1) // 2
    for s in range(n - n_fft + 1):
        P[:, s + off] = np.abs(dft @ (x[s : s + n_fft] * w)) ** 2
    if mirror:
        h = n_fft // 2
        for i in range(n - h, n):
            half = x[i - h + 1 : i + 1]
            P[:, i] = np.abs(dft @ (np.concatenate([half, half[::-1]]) * w)) ** 2
    return P


def degenerate(P, dry):
    """zero power at a frequency in the whole dry period, up to rounding (e.g. at
    the Nyquist frequency, if it only has mirrored windows)"""
    cols = P[:, dry[0] : dry[1]]
    cols = cols[:, ~np.isnan(cols).any(axis=0)]
    return cols.shape[1] > 0 and (cols.mean(axis=1) < 1e-9 * cols.mean()).any()


def measure(P, n_fft, fs, f_divide, dry):
    cols = P[:, dry[0] : dry[1]]
    P_dry = np.full(len(P), np.nan)
    for k in range(len(P)):
        v = cols[k][~np.isnan(cols[k])]
        if len(v):
            P_dry[k] = v.mean()
    f = np.fft.rfftfreq(n_fft, 1 / fs)
    norm = P / P_dry[:, None]
    low, high = norm[f <= f_divide], norm[f > f_divide]
    return low.mean(axis=0) - high.mean(axis=0)


def compare(c, got, exp, threshold, n):
    wet, info = got
    wet = np.asarray(wet)
    require(wet.shape == (n,), "length of the classification %s", wet.shape)
    same(np.asarray(info["P_sum_diff"]), exp, "spectral measure", rtol=1e-5, atol=1e-6)
    nan = np.isnan(exp)
    require(not wet[nan].any(), "wet without a complete window")
    sure = ~nan & (np.abs(exp - threshold) > 1e-4 * (1 + np.abs(exp)))
    bad = sure & (wet.astype(bool) != (exp > threshold))
    require(not bad.any(), "wrong classification at %s", np.argwhere(bad).ravel()[:5])
    return wet.astype(bool)[sure]


def body(c, ctx):
    x, n_fft, fs, f_divide, window, kw = parts(c)
    if len(x) < n_fft:
        return False
    P = spectra(x, n_fft, window, c["mirror"])
    if degenerate(P, c["dry"]):
        return False
    exp = measure(P, n_fft, fs, f_divide, c["dry"])
    fr = Frozen(rsl=x)
    args = dict(
        window_length=c["win"], threshold=c["threshold"], f_divide=f_divide,
        t_dry_start=c["dry"][0], t_dry_stop=c["dry"][1], window=window, **kw,
    )
    got = call(stft.stft_classification, x, mirror=c["mirror"], **args)
    fr.check("stft_classification")
    wet = compare(c, got, exp, c["threshold"], len(x))
    # a measure equal to the threshold does not exceed it
    m = np.asarray(got[1]["P_sum_diff"])
    finite = np.argwhere(~np.isnan(m)).ravel()
    if len(finite):
        i = finite[c["seed"] % len(finite)]
        w2, info2 = call(stft.stft_classification, x, mirror=c["mirror"], **dict(args, threshold=float(m[i])))
        m2 = np.asarray(info2["P_sum_diff"])
        require(not (m2[i] == m[i] and np.asarray(w2)[i]), "wet although the measure %r equals the threshold", m2[i])
    f = np.fft.rfftfreq(n_fft, 1 / fs)
    same(np.asarray(got[1]["f"]), f, "frequencies", rtol=1e-9, atol=0)
    if not c["mirror"]:
        # a spectrogram given by the caller, in other units
        off = (n_fft - 1) // 2
        Pxx = 3.0 * P[:, off : off + len(x) - n_fft + 1]
        fr = Frozen(Pxx=Pxx, f=f)
        got2 = call(stft.stft_classification, x, Pxx=Pxx, f=f, **args)
        fr.check("stft_classification")
        compare(c, got2, exp, c["threshold"], len(x))
        must_raise(ValueError, stft.stft_classification, x, Pxx=Pxx, **args)
    else:
        off = (n_fft - 1) // 2
        Pxx = np.array(got[1]["Pxx"])[:, off : off + len(x) - n_fft + 1]
        got2 = call(stft.stft_classification, x, mirror=True, Pxx=Pxx, f=f, **args)
        compare(c, got2, exp, c["threshold"], len(x))
    ctx.label("mirror", c["mirror"])
    ctx.label("NaN", bool(c["nan"]))
    return bool(wet.any() and not wet.all())


@st.composite
def case_dry(draw, cases=case()):
    c = draw(cases)
    c["dry_length"] = draw(st.integers(2, c["n"]))
    return c


def body_dry(c, ctx):
    x, n_fft, fs, f_divide, window, kw = parts(c)
    d = c["dry_length"]
    std = [np.std(x[i : i + d]) for i in range(len(x) - d + 1)]
    if len(x) < n_fft or np.isnan(std).all():
        return False
    fr = Frozen(rsl=x)
    a, b = call(stft.find_lowest_std_dev_period, x, d)
    fr.check("find_lowest_std_dev_period")
    a, b = int(a), int(b)
    require(b - a == d and 0 <= a and b <= len(x), "period %d:%d of length %d", a, b, d)
    require(
        std[a] <= np.nanmin(std) + 1e-6 * (1 + abs(c["level"])) * c["scale"],
        "period %d:%d has std %s, the lowest is %s", a, b, std[a], np.nanmin(std),
    )
    args = dict(window_length=c["win"], threshold=c["threshold"], f_divide=f_divide,
                mirror=c["mirror"], window=window, **kw)
    P = spectra(x, n_fft, window, c["mirror"])
    if degenerate(P, [a, b]):
        return False
    exp = measure(P, n_fft, fs, f_divide, [a, b])
    got = call(stft.stft_classification, x, dry_length=d, **args)
    compare(c, got, exp, c["threshold"], len(x))
    # exactly one way to give the dry period
    S = stft.stft_classification
    must_raise(AttributeError, S, x, **args)
    must_raise(AttributeError, S, x, t_dry_start=1, **args)
    must_raise(AttributeError, S, x, t_dry_stop=1, **args)
    must_raise(AttributeError, S, x, t_dry_start=0, t_dry_stop=2, dry_length=d, **args)
    must_raise(AttributeError, S, x, t_dry_start=0, dry_length=d, **args)
    return len(std) > 1


def body_long(c, ctx):
    """the default length of the dry period is 600 time steps"""
    r = np.random.RandomState(c["seed"])
    x = r.randn(c["n"]) * np.repeat(r.choice([1, 2, 3], c["n"] // 100 + 1), 100)[: c["n"]]
    s = np.lib.stride_tricks.sliding_window_view(x, 600).std(axis=1)
    a, b = call(stft.find_lowest_std_dev_period, x)
    require(b - a == 600 and 0 <= a and b <= len(x), "period %d:%d", a, b)
    require(s[a] <= s.min() + 1e-9, "period %d:%d has std %s, the lowest is %s", a, b, s[a], s.min())
    return len(s) > 1


WIDE = case(st.sampled_from([64, 65, 120, 31, 9]), 600)
SUBS = [
    Sub("large", WIDE, body, 12, 100, rule="both wet and dry time steps"),
    Sub("large_dry_period", case_dry(WIDE), body_dry, 8, 60, rule="more than one possible dry period"),
    Sub("default_period", st.fixed_dictionaries({"seed": st.integers(0, 999), "n": st.integers(600, 1500)}), body_long,
        10, 50, rule="more than one possible dry period"),
    Sub("dft", case(), body, 350, rule="both wet and dry time steps"),
    Sub("dry_period", case_dry(), body_dry, 150, rule="more than one possible dry period"),
]
ASSUMPTIONS = ["rsl with noise, so that no spectrum of the dry period is zero"]
