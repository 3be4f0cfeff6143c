"""C32 calls do not depend on earlier or concurrent calls"""
import os
import pickle
import random
import struct
import subprocess
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Sub, Violation, quiet, require

import pycomlink as pycml
from pycomlink.processing import baseline as bl
from pycomlink.processing import blackout_gap_detection as bo
from pycomlink.processing import k_R_relation as kr
from pycomlink.processing import min_max as mm
from pycomlink.processing import nearby_rain_retrival as nr
from pycomlink.processing import wet_antenna as wa
from pycomlink.processing.wet_dry import mlp, nearby_wetdry as nw, stft
from pycomlink.spatial import coverage, helper, interpolator
from pycomlink.util import temporal
from pycomlink.validation import stats, validator

N = 48
IDS = ["c", "a", "b", "d"]
TIME = np.datetime64("2021-03-01", "ns") + np.arange(N) * np.timedelta64(15, "m")


def data(k):
    """data set k: arrays of the same names and shapes, with other values"""
    r = np.random.RandomState(k)
    wet = np.repeat(r.randint(0, 2, (4, N // 4)), 4, axis=1)
    level = 50 + np.round(r.uniform(-1, 1, (4, N)) * 8) / 8 + wet * np.round(r.uniform(0, 16, (4, N)) * 8) / 8
    gaps = -level.copy()
    for _ in range(6):
        i, t = r.randint(4), r.randint(N - 3)
        gaps[i, t : t + 3] = np.nan
    return {
        "level": level, "gaps": gaps, "wet": wet.astype(float), "A": np.maximum(level - 50, 0),
        "wet_nan": np.where(r.rand(4, N) < 0.05, np.nan, wet),
        "f": np.round(r.uniform(8, 40, 4) * 4) / 4, "L": np.round(r.uniform(1, 20, 4) * 4) / 4,
        "x": r.uniform(0, 4, 4), "y": r.uniform(0, 4, 4), "x2": r.uniform(0, 4, 4), "y2": r.uniform(0, 4, 4),
        "z": np.where(r.rand(4) < 0.2, np.nan, np.round(r.uniform(0, 9, 4), 2)),
    }


def da(x, d=None):
    return xr.DataArray(x, dims=("cml_id", "time"), coords={"cml_id": IDS, "time": TIME})


def per(x):
    return xr.DataArray(x, dims="cml_id", coords={"cml_id": IDS})


class Cml:
    def __init__(self, *s):
        self.metadata = dict(zip(["site_a_longitude", "site_a_latitude", "site_b_longitude", "site_b_latitude"], s))


GX, GY = np.meshgrid(np.linspace(0, 4, 5), np.linspace(0, 4, 4))
POL = [["H", "V", "h", "vertical"], ["V", "V", "H", "H"]]
LEN = [2.5, 10.0, 1.0]
FREQ = [10.0, 23.0, 38.0]
TAB = ["ITU_2005", "ITU_2003"]


def distances(d):
    return nw.calc_distance_between_cml_endpoints(IDS, d["y"], d["x"], d["y2"], d["x2"])


def wetdry(d, p, q):
    pm = da(-d["level"]).assign_coords(length=("cml_id", d["L"]))
    return nw.nearby_wetdry(pm, distances(d), radius=[500, 200][p % 2], min_links=[1, 2][q % 2], interval=15,
                            timeperiod=[3, 6][q % 2], min_hours=1)


def krig(d, p, q):
    ip = interpolator.OrdinaryKrigingInterpolator(
        **[{}, {"variogram_parameters": {"sill": 2.0, "range": 3, "nugget": 0.2}}, {"variogram_model": "exponential"}][p % 3])
    return ip(d["x"], d["y"], np.nan_to_num(d["z"], nan=1.0), xgrid=GX, ygrid=GY)


def aggregate(d, p, q):
    idx = pd.DatetimeIndex(TIME, tz=["UTC", None, "Europe/Berlin"][q % 3])
    new = pd.date_range("2021-03-01 00:30", periods=8, freq="1h")
    return temporal.aggregate_df_onto_DatetimeIndex(
        pd.DataFrame({"R": d["level"][0]}, index=idx), new, method=["mean", "sum", "max"][p % 3],
        label=["right", "left"][q % 2])


def grid_series(d, p, q):
    class Ch:
        data = pd.DataFrame({"txrx_nf": d["level"][0]}, index=pd.DatetimeIndex(TIME))

    class C:
        channel_1 = channel_2 = Ch

        def get_coordinates(self):
            from collections import namedtuple

            return namedtuple("C", "lon_a lat_a lon_b lat_b")(d["x"][0], d["y"][0], d["x2"][0], d["y2"][0])

    ds = xr.Dataset(
        {"r": (("time", "y", "x"), np.resize(d["level"], (6, 4, 5)))},
        coords={"time": TIME[::8], "longitudes": (("y", "x"), GX), "latitudes": (("y", "x"), GY)},
    )
    v = validator.GridValidator(xr_ds=ds)
    return v.get_time_series(C(), "r"), v.intersect_weights


def mlp_probability(d, p, q):
    sel = ["rg_online", "rad_online", "rg", "rad"][p % 4]
    a, b = np.tile(d["level"][0], 9), np.tile(d["level"][q % 4], 9)
    t = np.arange(len(a))
    return mlp.mlp_wet_dry(xr.DataArray(a, dims="time", coords={"time": t}),
                           xr.DataArray(b, dims="time", coords={"time": t}), model_sel=sel)


def spectral(d, p, q):
    kw = [{"t_dry_start": 0, "t_dry_stop": 20}, {"dry_length": 15}, {"t_dry_start": 10, "t_dry_stop": 40}][p % 3]
    w, info = stft.stft_classification(d["level"][0], window_length=[8, 12][q % 2], threshold=[0.5, 2.0][p % 2],
                                       f_divide=[1e-3, 4e-3][q % 2], **kw)
    return w, info["P_sum_diff"], info["f"]


def example(d, p, q):
    return pycml.io.examples.get_one_cml().isel(time=slice(10 * p, 10 * p + 50))


def other(p, /, **alternatives):
    """the p-th of the alternatives to the default arguments, or none"""
    names = sorted(alternatives)
    k = names[p % (len(names) + 1) - 1] if p % (len(names) + 1) else None
    return {k: alternatives[k]} if k else {}


LEI = dict(T_K=280.0, gamma=3e-5, delta=0.3, n_antenna=complex(1.5, 0.02), l_antenna=0.003)
PAS = dict(A_max=10, zeta=0.5, d=0.2)
IDW = dict(nnear=2, p=1, exclude_nan=False, max_distance=1.5)
OKR = dict(nlags=6, variogram_model="exponential", variogram_parameters={"sill": 2.0, "range": 3, "nugget": 0.2},
           n_closest_points=3, backend="loop", weight=False)
NWD = dict(radius=200, thresh_median_P=-1.0, thresh_median_PL=-0.3, min_links=2, interval=15, timeperiod=6, min_hours=1)
NRR = dict(waa_max=1.0, alpha=0.5, F_value_threshold=-31.0, F_values=None)


# name: f(data, p, q); p and q choose the parameters
OPS = {
    "a_b": lambda d, p, q: kr.a_b(FREQ[p % 3], "HV"[q % 2], approx_type=TAB[p % 2]),
    "a_b (array)": lambda d, p, q: kr.a_b(d["f"], np.array(POL[p % 2]), approx_type=TAB[q % 2]),
    "a_b (one pol)": lambda d, p, q: kr.a_b(d["f"], "HV"[p % 2], approx_type=TAB[q % 2]),
    "R": lambda d, p, q: kr.calc_R_from_A(d["A"][0], LEN[p % 3], f_GHz=FREQ[q % 3], pol="HV"[p % 2]),
    "R (a, b)": lambda d, p, q: kr.calc_R_from_A(d["A"][0], LEN[p % 3], a=[0.1, 0.2][q % 2], b=[1.0, 0.9][p % 2],
                                                 R_min=[0.1, 1.0, 0][q % 3]),
    "R (links)": lambda d, p, q: kr.calc_R_from_A(da(d["A"]), per(d["L"]), f_GHz=per(d["f"]), pol=per(POL[p % 2]),
                                                  R_min=[0.1, 1.0][q % 2]),
    "R (min/max)": lambda d, p, q: kr.calc_R_from_A_min_max(d["A"][0], LEN[p % 3], f_GHz=FREQ[q % 3], k=[90, 30][p % 2]),
    "A (min/max)": lambda d, p, q: mm._calc_A_min_max(d["level"][0], d["level"][1], -d["level"][2], -d["level"][3],
                                                      window=[7, 3][p % 2], gT=[1.0, 0.5][q % 2]),
    "baseline_constant": lambda d, p, q: bl.baseline_constant(d["level"][0], d["wet"][q % 4], [1, 2, 5][p % 3]),
    "baseline_constant (links)": lambda d, p, q: bl.baseline_constant(da(d["level"]), da(d["wet"]), [1, 2, 5][p % 3]),
    "baseline_linear": lambda d, p, q: bl.baseline_linear(d["level"][0], d["wet_nan"][q % 4], ignore_nan=False),
    "baseline_linear (ignore)": lambda d, p, q: bl.baseline_linear(d["level"][0], np.append(0, d["wet_nan"][q % 4][1:]),
                                                                   ignore_nan=True),
    "blackout": lambda d, p, q: bo.get_blackout_start_and_end(d["gaps"][q % 4], [-55, -52][p % 2]),
    "blackout (links)": lambda d, p, q: bo.get_blackout_start_and_end(da(d["gaps"]), [-55, -52][p % 2]),
    "schleiss": lambda d, p, q: wa.waa_schleiss_2013(d["level"][0], d["level"][1] * 0 + 50, d["wet"][0], [2.3, 4.0][p % 2],
                                                     1, [15, 60][q % 2]),
    "schleiss (links)": lambda d, p, q: wa.waa_schleiss_2013(da(d["level"]), da(d["level"] * 0 + 50), da(d["wet"]),
                                                             [2.3, 4.0][p % 2], 1, [15, 60][q % 2]),
    "leijnse": lambda d, p, q: wa.waa_leijnse_2008(d["A"][0], FREQ[p % 3] * 1e9, T_K=[293.0, 280.0][q % 2]),
    "leijnse (f)": lambda d, p, q: wa.waa_leijnse_2008([5.0, 20.0][p % 2], d["f"] * 1e9, gamma=[2e-5, 3e-5][q % 2]),
    "leijnse from A": lambda d, p, q: wa.waa_leijnse_2008_from_A_obs(
        d["A"][0], f_Hz=FREQ[p % 3] * 1e9, pol="HV"[q % 2], L_km=LEN[q % 3]),
    "leijnse from A (T)": lambda d, p, q: wa.waa_leijnse_2008_from_A_obs(
        d["A"][0], f_Hz=1e10, pol="H", L_km=2.5, T_K=[293.0, 280.0][p % 2], delta=[0.24, 0.3][q % 2]),
    "pastorek": lambda d, p, q: wa.waa_pastorek_2021(d["A"][0], A_max=[14, 10][p % 2], zeta=[0.55, 0.5][q % 2]),
    "pastorek from A": lambda d, p, q: wa.waa_pastorek_2021_from_A_obs(
        d["A"][0], f_Hz=FREQ[p % 3] * 1e9, pol="HV"[q % 2], L_km=LEN[q % 3]),
    "pastorek from A (links)": lambda d, p, q: wa.waa_pastorek_2021_from_A_obs(
        da(d["A"]), f_Hz=per(d["f"] * 1e9), pol=per(POL[p % 2]), L_km=per(d["L"]), A_max=[14, 10][q % 2]),
    "eps_water": lambda d, p, q: wa.eps_water(d["f"] * 1e9, [280.0, 293.0][p % 2]),
    "haversine": lambda d, p, q: helper.haversine(d["x"], d["y"], d["x2"], d["y2"]),
    "distances": lambda d, p, q: distances(d),
    "nearby_wetdry": wetdry,
    "reference level": lambda d, p, q: nr.nearby_determine_reference_level(
        da(-d["level"]), da(-d["level"] + 1), da(d["wet"]), n_average_dry=[96, 10][p % 2], min_periods=[1, 4][q % 2]),
    "corrected": lambda d, p, q: nr.nearby_correct_received_signals(
        da(-d["level"]), da(-d["level"] + 1), da(d["wet"]), da(d["level"] * 0 - 51)),
    "nearby rain": lambda d, p, q: nr.nearby_rainfall_retrival(
        da(d["level"] * 0 - 45), da(-d["level"] - 2), da(-d["level"]), da(d["gaps"] + 20), length=per(d["L"]),
        f_GHz=per(d["f"]), pol=per(POL[p % 2]), waa_max=[2.3, 1.0][q % 2], F_value_threshold=[-32.5, -31.0][p % 2]),
    "mlp": mlp_probability,
    "stft": spectral,
    "lowest std": lambda d, p, q: stft.find_lowest_std_dev_period(d["level"][q % 4], window_length=[10, 20][p % 2]),
    "idw": lambda d, p, q: interpolator.IdwKdtreeInterpolator(nnear=[8, 2][p % 2], p=[2, 1][q % 2])(
        d["x"], d["y"], d["z"], xgrid=GX, ygrid=GY),
    "idw (resolution)": lambda d, p, q: interpolator.IdwKdtreeInterpolator(max_distance=[None, 1.5][p % 2])(
        d["x"], d["y"], d["z"], resolution=[0.5, 1.0][q % 2]),
    "kriging": krig,
    "variogram": lambda d, p, q: sorted(interpolator.clim_var_param(
        ["20130404", "20131101", "20130101"][p % 3], time_scale_hours=[0.25, 1, 24][q % 3]).items()),
    "coverage": lambda d, p, q: coverage.calc_coverage_mask(
        [Cml(*s) for s in zip(d["x"], d["y"], d["x2"], d["y2"])][: [4, 2][p % 2]], GX, GY, [0.3, 1.0][q % 2]),
    "aggregate": aggregate,
    "wet metrics": lambda d, p, q: stats.calc_wet_dry_performance_metrics(d["wet_nan"][p % 4], d["wet"][q % 4]),
    "rain metrics": lambda d, p, q: stats.calc_rain_error_performance_metrics(d["A"][p % 4], d["A"][q % 4], [0.1, 3.0][p % 2]),
    "grid series": grid_series,
    "example data": example,
    "leijnse (any)": lambda d, p, q: wa.waa_leijnse_2008(d["A"][q % 4], 1.5e10, **other(p, **LEI)),
    "leijnse from A (any)": lambda d, p, q: wa.waa_leijnse_2008_from_A_obs(
        d["A"][q % 4], **dict(dict(f_Hz=1.5e10, pol="H", L_km=2.5), **other(p, f_Hz=2e10, pol="V", L_km=5, **LEI))),
    "pastorek (any)": lambda d, p, q: wa.waa_pastorek_2021(d["A"][q % 4], **other(p, **PAS)),
    "pastorek from A (any)": lambda d, p, q: wa.waa_pastorek_2021_from_A_obs(
        d["A"][q % 4], **dict(dict(f_Hz=1.5e10, pol="H", L_km=2.5), **other(p, f_Hz=2e10, pol="V", L_km=5, **PAS))),
    "R (any)": lambda d, p, q: kr.calc_R_from_A(d["A"][q % 4], **dict(dict(L_km=2, f_GHz=15, pol="H"), **other(
        p, L_km=3, f_GHz=16, pol="V", a_b_approximation="ITU_2003", R_min=2.0))),
    "idw (any)": lambda d, p, q: interpolator.IdwKdtreeInterpolator(**other(p, **IDW))(
        d["x"], d["y"], d["z"], xgrid=GX, ygrid=GY),
    "kriging (any)": lambda d, p, q: interpolator.OrdinaryKrigingInterpolator(**other(p, **{
        k: v for k, v in OKR.items() if k != "backend"}))(d["x"], d["y"], np.arange(4.0), xgrid=GX, ygrid=GY),
    "R (min/max, any)": lambda d, p, q: kr.calc_R_from_A_min_max(d["A"][q % 4], **dict(dict(L=2, f_GHz=15), **other(
        p, L=3, f_GHz=16, pol="V", R_min=2.0, k=30))),
    "A (min/max, any)": lambda d, p, q: mm._calc_A_min_max(
        d["level"][0], d["level"][1], -d["level"][2], -d["level"][3], **other(p, gT=0.5, gR=0.25, window=3)),
    "nearby_wetdry (any)": lambda d, p, q: nw.nearby_wetdry(
        da(-d["level"]).assign_coords(length=("cml_id", d["L"])), distances(d),
        **dict(dict(radius=500, min_links=1, interval=15, timeperiod=3, min_hours=1), **other(
            p, radius=200, thresh_median_P=-1.0, thresh_median_PL=-0.3, min_links=2, timeperiod=6, min_hours=2))),
}

def leaves(x, out):
    """the arrays of a result, writable where they are"""
    if isinstance(x, xr.Dataset):
        for k in sorted(x.variables, key=str):
            out.append(("variable " + str(k), x.variables[k].values))
    elif isinstance(x, xr.DataArray):
        out.append(("values", x.values))
        for k in sorted(x.coords, key=str):
            out.append(("coordinate " + str(k), x.coords[k].values))
    elif isinstance(x, (pd.DataFrame, pd.Series)):
        out.append(("values", x.values))
        out.append(("index", np.asarray(x.index.astype(str))))
    elif isinstance(x, dict):
        for k in sorted(x):
            leaves(x[k], out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            leaves(v, out)
    else:
        out.append(("value", np.asarray(x)))
    return out


def snapshot(x):
    return [(k, np.array(v, copy=True)) for k, v in leaves(x, [])]


def equal(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
    return bool(np.array_equal(a, b))


def run_op(o, d):
    return OPS[o["op"]](d, o["p"], o["q"])


class Zygote:
    """a process which has not called anything; each request runs in a fork of it"""

    def __init__(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = "import sys; sys.dont_write_bytecode = True; sys.path[:] = %r; from checks.c32 import serve; serve()"
        path = [here, os.environ.get("VERIF_REPO", "/repo")] + [p for p in sys.path if p]
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.p = subprocess.Popen([sys.executable, "-P", "-c", code % path], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.known = {}

    def ask(self, o):
        key = (o["op"], o["data"], o["p"], o["q"])
        if key not in self.known:
            b = pickle.dumps(o)
            self.p.stdin.write(struct.pack("<q", len(b)) + b)
            self.p.stdin.flush()
            (n,) = struct.unpack("<q", self.p.stdout.read(8))
            kind, val = pickle.loads(self.p.stdout.read(n))
            if kind == "error":
                raise Violation("%s, in a new process: %s" % (o["op"], val))
            self.known[key] = val
        return self.known[key]


def serve():
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    chan = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    src = os.fdopen(os.dup(0), "rb", buffering=0)
    while True:
        head = src.read(8)
        if len(head) < 8:
            return
        (n,) = struct.unpack("<q", head)
        body = b""
        while len(body) < n:
            body += src.read(n - len(body))
        pid = os.fork()
        if pid:
            os.waitpid(pid, 0)
            continue
        o = pickle.loads(body)
        try:
            out = ("ok", snapshot(run_op(o, data(o["data"]))))
        except BaseException as e:  # noqa: BLE001
            out = ("error", "%s: %s" % (type(e).__name__, str(e)[:300]))
        b = pickle.dumps(out)
        chan.write(struct.pack("<q", len(b)) + b)
        chan.flush()
        os._exit(0)


_zygote = []


def zygote():
    if not _zygote:
        _zygote.append(Zygote())
    return _zygote[0]


def compare(o, got, what):
    exp = zygote().ask(o)
    require(len(got) == len(exp), "%s: %d results, expected %d", what, len(got), len(exp))
    for (k, a), (l, b) in zip(got, exp):
        if not equal(a, b):
            raise Violation("%s: %s differ from those of a first call: %s, not %s" % (
                what, k, str(a.ravel()[:6]), str(b.ravel()[:6])))


one = st.fixed_dictionaries({
    "op": st.sampled_from(sorted(OPS)), "data": st.integers(0, 2), "p": st.integers(0, 9), "q": st.integers(0, 3),
    "scribble": st.booleans(),
})


@st.composite
def history(draw):
    """mostly calls of one or two functions"""
    names = draw(st.lists(st.sampled_from(sorted(OPS)), min_size=1, max_size=2))
    ops = draw(st.lists(one, min_size=2, max_size=7))
    for o in ops:
        if draw(st.integers(0, 4)):
            o["op"] = draw(st.sampled_from(names))
    return {"ops": ops, "inplace": draw(st.booleans())}


def scribble(x):
    for _, v in leaves(x, []):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fiub" and v.ndim:
            v[...] = True if v.dtype.kind == "b" else 77


def settings():
    """what a call must leave as it is for the rest of the program"""
    return {
        "numpy's error handling": np.geterr(), "numpy's random state": repr(np.random.get_state()),
        "Python's random state": random.getstate(), "the environment": dict(os.environ), "the directory": os.getcwd(),
        "pandas' options": [pd.get_option(k) for k in ("mode.copy_on_write", "display.max_rows", "compute.use_bottleneck")],
        "xarray's options": {k: xr.get_options()[k] for k in ("keep_attrs", "arithmetic_join", "use_bottleneck")},
        "the warning filters": list(warnings.filters),
    }


def body(c, ctx):
    buf = data(0)
    done = []
    for i, o in enumerate(c["ops"]):
        d = data(o["data"])
        if c["inplace"]:
            # the caller uses the same arrays again and again
            for k, v in d.items():
                buf[k][...] = v
            d = buf
        what = "call %d of %d (%s)" % (i + 1, len(c["ops"]), o["op"])
        try:
            with quiet(), np.errstate(all="warn"):
                before = settings()
                out = run_op(o, d)
                after = settings()
        except Exception as e:  # noqa: BLE001
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300])) from e
        snap = snapshot(out)
        compare(o, snap, what)
        for k, v in before.items():
            require(after[k] == v, "%s changed %s", what, k)
        ref = data(o["data"])
        for k in ref:
            require(np.array_equal(d[k], ref[k], equal_nan=True), "%s modified its input %s", what, k)
        if not c["inplace"]:
            for w, x, s in done:
                for (k, a), (_, b) in zip(leaves(x, []), s):
                    require(equal(a, b), "%s: the %s of %s changed", what, k, w)
            if o["scribble"]:
                scribble(out)
                for v in d.values():
                    v[...] = -5
            else:
                done.append((what, out, snap))
        ctx.label(o["op"])
    return len({o["op"] for o in c["ops"]}) < len(c["ops"])


@st.composite
def concurrent(draw):
    n = draw(st.integers(2, 4))
    names = draw(st.lists(st.sampled_from(sorted(set(OPS) - {"example data"})), min_size=1, max_size=2))
    ts = []
    for _ in range(n):
        ops = draw(st.lists(one, min_size=1, max_size=3))
        for o in ops:
            o["op"] = draw(st.sampled_from(names))
        ts.append(ops)
    return {"threads": ts}


def body_threads(c, ctx):
    results = [[] for _ in c["threads"]]
    barrier = threading.Barrier(len(c["threads"]))

    def work(ops, res):
        inputs = [data(o["data"]) for o in ops]
        barrier.wait()
        end = time.monotonic() + 0.15
        first = True
        while first or time.monotonic() < end:
            first = False
            for o, d in zip(ops, inputs):
                try:
                    res.append((o, "ok", snapshot(run_op(o, d))))
                except Exception as e:  # noqa: BLE001
                    res.append((o, "error", "%s: %s" % (type(e).__name__, str(e)[:300])))

    for ops in c["threads"]:
        for o in ops:
            zygote().ask(o)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with quiet():
            ts = [threading.Thread(target=work, args=a) for a in zip(c["threads"], results)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    for i, (ops, res) in enumerate(zip(c["threads"], results)):
        for o, kind, val in res:
            what = "%s in thread %d of %d" % (o["op"], i + 1, len(c["threads"]))
            require(kind == "ok", "%s raised %s", what, val)
            compare(o, val, what)
    return True


SUBS = [
    Sub("histories", history(), body, 220, 2500, rule="a function is called more than once"),
    Sub("threads", concurrent(), body_threads, 50, 500, rule="all cases"),
]
ASSUMPTIONS = [
    "reference: the same call as the first one of a process (a fork of one which has not called anything)",
    "neural networks (C27, C29) and interpolator objects (C18) have checks of their histories elsewhere",
]
