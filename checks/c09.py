"""C09 wet antenna attenuation from rain rate: Leijnse 2008, Pastorek 2021"""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, arr, call, require, same
from pbt.gen import dyadic, grown, or_nan, pos

from pycomlink.processing import wet_antenna as wa

C = 299792458.0


def eps_ref(f_GHz, T_K):
    """Liebe et al. 1991, double Debye model, written as in the paper"""
    theta = 300.0 / T_K - 1
    s0 = 77.66 + 103.3 * theta
    s1 = 0.0671 * s0
    s2 = 3.52 - 7.52 * theta
    g1 = 20.2 - 146.4 * theta + 316 * theta**2
    g2 = 39.8 * g1
    return s2 + (s1 - s2) / complex(1, -f_GHz / g2) + (s0 - s1) / complex(1, -f_GHz / g1)


def transmitted(f_Hz, layers):
    """Power transmitted by a stack of layers (n, thickness) in air, from the
    characteristic matrices of the layers (normal incidence)"""
    k0 = 2 * math.pi * f_Hz / C
    m = np.eye(2, dtype=complex)
    for n, d in layers:
        ph = k0 * n * d
        m = m @ np.array(
            [[cmath.cos(ph), -1j * cmath.sin(ph) / n], [-1j * n * cmath.sin(ph), cmath.cos(ph)]]
        )
    t = 2 / (m[0, 0] + m[0, 1] + m[1, 0] + m[1, 1])
    return abs(t) ** 2


def leijnse_ref(R, f_Hz, T_K=293.0, gamma=2.06e-5, delta=0.24, n_ant=complex(1.73, 0.014), l_ant=0.001):
    if math.isnan(R):
        return math.nan
    if R == 0:
        return 0.0
    n_w = cmath.sqrt(eps_ref(f_Hz / 1e9, T_K))
    film = (n_w, gamma * R**delta)
    dry = transmitted(f_Hz, [(n_ant, l_ant)])
    wet = transmitted(f_Hz, [film, (n_ant, l_ant)])
    return 10 * math.log10(dry / wet)


rain = or_nan(st.one_of(st.just(0.0), pos(1e-4, 500), dyadic(0, 200), pos(1e-12, 1e5)), 10)
freq = pos(1, 120).map(lambda g: g * 1e9)


@st.composite
def case_l(draw):
    c = {
        "kind": draw(st.sampled_from(["R", "f", "scalar", "2d"])),
        "R": draw(st.lists(rain, min_size=1, max_size=12)),
        "f": draw(st.lists(freq, min_size=1, max_size=12)),
        "kw": {},
    }
    if draw(st.booleans()):
        c["kw"] = draw(
            st.fixed_dictionaries(
                {},
                optional={
                    "T_K": st.floats(268, 313),
                    "gamma": pos(1e-6, 1e-4),
                    "delta": st.floats(0.1, 1.0),
                    "l_antenna": st.floats(0.0, 0.005),
                    "n_antenna": st.tuples(st.floats(1.05, 3), st.floats(0, 0.05)).map(list),
                },
            )
        )
    return c


def body_l(c, ctx):
    kw = dict(c["kw"])
    if "n_antenna" in kw:
        kw["n_antenna"] = complex(*kw["n_antenna"])
    ref_kw = {
        {"n_antenna": "n_ant", "l_antenna": "l_ant"}.get(k, k): v for k, v in kw.items()
    }
    R, f = arr(c["R"]), arr(c["f"])
    if c["kind"] == "f":
        R = float(R[0])
        exp = np.array([leijnse_ref(R, float(x), **ref_kw) for x in f])
    elif c["kind"] == "scalar":
        R, f = float(R[0]), float(f[0])
        exp = np.array(leijnse_ref(R, f, **ref_kw))
    else:
        f = float(f[0])
        exp = np.array([leijnse_ref(float(x), f, **ref_kw) for x in R])
        if c["kind"] == "2d":
            R, exp = R.reshape(-1, 1), exp.reshape(-1, 1)
    fr = Frozen(R=R, f=f)
    got = call(wa.waa_leijnse_2008, R=R, f_Hz=f, **kw)
    fr.check("waa_leijnse_2008")
    same(got, exp, "waa_leijnse_2008 (%s)" % c["kind"], rtol=1e-6, atol=1e-8)
    if c["kind"] == "R":
        for i in range(min(len(R), 12)):
            same(
                np.asarray(call(wa.waa_leijnse_2008, R=float(R[i]), f_Hz=f, **kw)),
                exp[i], "scalar R", rtol=1e-6, atol=1e-8,
            )
    ctx.label(c["kind"])
    return bool(np.nanmax(np.atleast_1d(np.append(exp, 0))) > 1e-6)


@st.composite
def case_shape(draw):
    return {
        "f": draw(pos(5, 100)) * 1e9,
        "T": draw(st.floats(273, 303)),
        "R": draw(st.lists(st.one_of(st.just(0.0), pos(1e-3, 300)), min_size=2, max_size=20)),
        "A_max": draw(pos(0.5, 30)),
        "zeta": draw(st.floats(0.1, 1.2)),
        "d": draw(pos(0.01, 1)),
    }


def body_shape(c, ctx):
    R = np.sort(arr(c["R"]))
    for name, w in (
        ("Leijnse", call(wa.waa_leijnse_2008, R=R, f_Hz=c["f"])),
        ("Pastorek", call(wa.waa_pastorek_2021, R=R, A_max=c["A_max"], zeta=c["zeta"], d=c["d"])),
        ("Pastorek defaults", call(wa.waa_pastorek_2021, R=R)),
    ):
        w = np.asarray(w, dtype=float)
        require(np.isfinite(w).all(), "%s: not finite: %s", name, w)
        require((w[R == 0] == 0).all(), "%s: no rain, but WAA %s", name, w[R == 0])
        require((w >= 0).all(), "%s: negative WAA %s", name, w.min())
        require((np.diff(w) >= -1e-9).all(), "%s: not increasing with the rain rate", name)
    w = np.asarray(call(wa.waa_pastorek_2021, R=R, A_max=c["A_max"], zeta=c["zeta"], d=c["d"]))
    require((w <= c["A_max"]).all(), "Pastorek: above its upper limit")
    return len(set(R.tolist())) > 1


@st.composite
def case_p(draw):
    return {
        "R": draw(st.lists(rain, min_size=1, max_size=12)),
        "kw": draw(
            st.fixed_dictionaries(
                {},
                optional={
                    "A_max": pos(0.5, 30), "zeta": st.floats(0.1, 1.5), "d": pos(0.01, 1),
                },
            )
        ),
    }


def body_p(c, ctx):
    R = arr(c["R"])
    p = dict(A_max=14, zeta=0.55, d=0.1)
    p.update(c["kw"])
    exp = np.array(
        [
            math.nan if math.isnan(r) else -p["A_max"] * math.expm1(-p["d"] * r ** p["zeta"])
            for r in R
        ]
    )
    fr = Frozen(R=R)
    same(call(wa.waa_pastorek_2021, R=R, **c["kw"]), exp, "waa_pastorek_2021", atol=1e-12)
    fr.check("waa_pastorek_2021")
    for i in range(min(len(R), 12)):
        same(call(wa.waa_pastorek_2021, R=float(R[i]), **c["kw"]), exp[i], "scalar R", atol=1e-12)
    same(call(wa.waa_pastorek_2021, R=R.reshape(1, -1), **c["kw"]), exp.reshape(1, -1), "2-d R", atol=1e-12)
    return bool(np.nanmax(np.append(exp, 0)) > 0)


@st.composite
def case_eps(draw):
    return {
        "f": draw(st.lists(pos(0.5, 300), min_size=1, max_size=8)),
        "T": draw(st.floats(263, 318)),
    }


def body_eps(c, ctx):
    f = arr(c["f"])
    got = np.asarray(call(wa.eps_water, f * 1e9, c["T"]))
    exp = np.array([eps_ref(float(x), c["T"]) for x in f])
    same(got.real, exp.real, "real part of the permittivity", rtol=1e-9)
    same(got.imag, exp.imag, "imaginary part of the permittivity", rtol=1e-9)
    return True


SUBS = [
    Sub("large_leijnse", grown(case_l(), "R", "f"), body_l, 15, 150, rule="WAA above 1e-6 dB"),
    Sub("large_pastorek", grown(case_p(), "R"), body_p, 25, rule="WAA above 0"),
    Sub("large_permittivity", grown(case_eps(), "f"), body_eps, 15, rule="all cases"),
    Sub("leijnse", case_l(), body_l, 500, rule="WAA above 1e-6 dB"),
    Sub("shape", case_shape(), body_shape, 300, rule="at least two rain rates"),
    Sub("pastorek", case_p(), body_p, 300, rule="WAA above 0"),
    Sub("permittivity", case_eps(), body_eps, 200, rule="all cases"),
]
ASSUMPTIONS = ["R <= 500 mm/h, 1-120 GHz; growth with R: default film and antenna, 5-100 GHz"]
