"""C31 results depend on the values only: not on compilation, not on how they are stored"""
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Sub, Violation, call, require, same
from pbt.gen import dyadic, runs

from pycomlink.processing import baseline as bl
from pycomlink.processing import blackout_gap_detection as bo
from pycomlink.processing import k_R_relation as kr
from pycomlink.processing import min_max as mm
from pycomlink.processing import wet_antenna as wa
from pycomlink.processing.wet_dry import stft
from pycomlink.spatial.helper import haversine
from pycomlink.spatial.idw import Invdisttree
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
from pycomlink.validation import stats

# name: (function, names of the array arguments)
FUNCS = {
    "baseline_constant": (bl.baseline_constant, ["trsl", "wet"]),
    "baseline_linear": (bl.baseline_linear, ["rsl", "wet"]),
    "waa_schleiss_2013": (wa.waa_schleiss_2013, ["rsl", "baseline", "wet"]),
    "gap_markers": (bo.get_blackout_start_and_end, ["rsl"]),
    "gap_mask": (None, ["rsl"]),
    "calc_R_from_A": (kr.calc_R_from_A, ["A"]),
    "waa_leijnse_2008": (wa.waa_leijnse_2008, ["R"]),
    "waa_pastorek_2021": (wa.waa_pastorek_2021, ["R"]),
    "waa_leijnse_2008_from_A_obs": (wa.waa_leijnse_2008_from_A_obs, ["A_obs"]),
    "idw": (None, ["x", "y", "z"]),
    "tree": (None, ["x", "y", "z"]),
}
FUNCS.update({
    "waa_pastorek_2021_from_A_obs": (wa.waa_pastorek_2021_from_A_obs, ["A_obs"]),
    "calc_R_from_A_min_max": (kr.calc_R_from_A_min_max, ["Ar_max"]),
    "A_min_max": (mm._calc_A_min_max, ["tx_min", "tx_max", "rx_min", "rx_max"]),
    "a_b": (kr.a_b, ["f_GHz"]),
    "haversine": (haversine, ["lon1", "lat1", "lon2", "lat2"]),
    "lowest_std": (stft.find_lowest_std_dev_period, ["rsl"]),
    "stft": (lambda rsl, **kw: stft.stft_classification(rsl, **kw)[0], ["rsl"]),
    "wet_metrics": (lambda *a, **kw: list(stats.calc_wet_dry_performance_metrics(*a, **kw)), ["reference", "predicted"]),
    "rain_metrics": (lambda *a, **kw: list(stats.calc_rain_error_performance_metrics(*a, **kw)), ["reference", "predicted"]),
})
STORE = ["plain", "float32", "int64", "int32", "int16", "strided", "reversed", "readonly", "fortran column",
         "series", "dated series", "permuted series", "list", "big-endian", "bool", "int8"]
SERIES = ("series", "dated series", "permuted series")
LISTS = ("baseline_constant", "waa_schleiss_2013", "calc_R_from_A", "waa_leijnse_2008", "waa_pastorek_2021", "haversine",
         "lowest_std", "stft", "idw", "a_b")
# what is not supported (documented as arrays only), or not to be expected (overflow of small integers)
NOT = {("gap_mask", "big-endian"), ("lowest_std", "big-endian"), ("haversine", "int8"), ("rain_metrics", "int8"),
       ("tree", "big-endian")}
NOT |= {(f, w) for f in ("gap_markers", "gap_mask", "A_min_max", "tree") for w in SERIES}
NOT |= {(f, "list") for f in FUNCS if f not in LISTS}


def stored(x, how):
    """the same values in another form; None if that is impossible"""
    if how == "float32":
        return x.astype("float32") if (np.isnan(x) | (x.astype("float32") == x)).all() else None
    if how.startswith("int"):
        ok = not np.isnan(x).any() and (x == np.round(x)).all() and (np.abs(x) < 127).all()
        return x.astype(how) if ok else None
    if how == "bool":
        return x.astype(bool) if ((x == 0) | (x == 1)).all() else None
    if how in SERIES:
        n = len(x)
        idx = {"series": None, "dated series": pd.date_range("2021-03-28", periods=n, freq="10min"),
               "permuted series": np.arange(n)[::-1]}[how]
        return pd.Series(x, index=idx)
    if how == "list":
        return x.tolist()
    if how == "big-endian":
        return x.astype(">f8")
    if how == "strided":
        y = np.full(2 * len(x), 77.0)
        y[::2] = x
        return y[::2]
    if how == "reversed":
        return x[::-1].copy()[::-1]
    if how == "fortran column":
        return np.stack([x, x * 0 + 5], axis=1)[:, 0]
    x = x.copy()
    if how == "readonly":
        x.flags.writeable = False
    return x


def evaluate(c, how):
    """list of result arrays, None if the values cannot be stored this way"""
    names = FUNCS[c["func"]][1]
    args = {}
    for k in names:
        v = np.array([np.nan if q is None else q for q in c["arrays"][k]], dtype=float)
        # all of them, or only some, are stored in another way
        args[k] = stored(v, how if c["which"] in ("all", k) else "plain")
        if args[k] is None:
            if how != "bool" and k != "wet" and len(names) > 1:
                args[k] = v
            else:
                return None
    if how in SERIES and len({type(v) for v in args.values()}) > 1 and c["func"].endswith("metrics"):
        return None
    kw = c["kw"]
    if c["func"] == "gap_mask":
        s, e = bo.get_blackout_start_and_end(args["rsl"], **kw)
        out = [bo.created_blackout_gap_mask_from_start_end_markers(args["rsl"], s, e)]
    elif c["func"] == "idw":
        g = np.arange(0, 4.1, 1.0)
        ip = IdwKdtreeInterpolator(nnear=kw["nnear"], p=kw["p"], max_distance=kw["max_distance"])
        xg, yg = np.meshgrid(g, g)
        out = [ip(args["x"], args["y"], args["z"], xgrid=xg, ygrid=yg)]
    elif c["func"] == "tree":
        g = np.arange(0, 4.1, 1.0)
        q = np.stack([v.ravel() for v in np.meshgrid(g, g)], axis=1)
        z = args["z"].astype(float) if np.isnan(args["z"]).any() else args["z"]
        if np.isnan(z).any():
            z[np.isnan(z)] = 3.0
        out = [Invdisttree(np.stack([args["x"], args["y"]], axis=1))(q, z, **kw)]
    else:
        out = FUNCS[c["func"]][0](*[args[k] for k in names], **kw)
        out = list(out) if isinstance(out, tuple) else [out]
    return [np.asarray(np.nan if o is None else o, dtype=float) for o in out]


class Worker:
    """a process in which numba compiles"""

    def __init__(self):
        env = dict(os.environ, NUMBA_DISABLE_JIT="0")
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = "import sys; sys.dont_write_bytecode = True; sys.path[:] = %r; from checks.c31 import serve; serve()"
        path = [here, os.environ.get("VERIF_REPO", "/repo")] + [p for p in sys.path if p]
        self.p = subprocess.Popen(
            [sys.executable, "-P", "-c", code % path], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, c, how):
        try:
            self.p.stdin.write(json.dumps([c, how]) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if not line:
            rc = self.p.wait()
            _worker.clear()
            raise Violation("the compiled code ended the process (%s) with %s stored as %s" % (rc, c["func"], how))
        d = json.loads(line)
        if "error" in d:
            raise Violation("%s, compiled, stored as %s: %s" % (c["func"], how, d["error"]))
        if d["out"] is None:
            return None
        return [np.array([np.nan if v is None else v for v in o["v"]], dtype=float).reshape(o["s"]) for o in d["out"]]


def serve():
    import warnings

    warnings.simplefilter("ignore")
    chan = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    np.seterr(all="ignore")
    for line in sys.stdin:
        c, how = json.loads(line)
        try:
            out = evaluate(c, how)
            d = {"out": None if out is None else [
                {"s": list(o.shape), "v": [None if np.isnan(v) else float(v) for v in o.ravel()]} for o in out]}
        except Exception as e:  # noqa: BLE001
            d = {"error": "%s: %s" % (type(e).__name__, str(e)[:300])}
        chan.write(json.dumps(d) + "\n")
        chan.flush()


_worker = []


def worker():
    if not _worker:
        _worker.append(Worker())
    return _worker[0]


@st.composite
def case(draw):
    func = draw(st.sampled_from(sorted(FUNCS)))
    n = draw(st.integers(1, 14))
    integer = draw(st.booleans())
    nan = draw(st.booleans()) and not integer

    def values(lo, hi):
        v = st.integers(lo, hi).map(float) if integer else dyadic(lo, hi, 4)
        out = draw(st.lists(v, min_size=n, max_size=n))
        if nan:
            for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
                out[i] = None
        return out

    arrays, kw = {}, {}
    if func in ("baseline_constant", "baseline_linear", "waa_schleiss_2013"):
        wet = [float(w) for w in draw(runs(min_n=n, max_n=n))]
        if nan and func != "waa_schleiss_2013":
            for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
                wet[i] = None
        arrays["wet"] = wet
    if func == "baseline_constant":
        arrays["trsl"] = values(-80, 80)
        kw["n_average_last_dry"] = draw(st.integers(1, 3))
    elif func == "baseline_linear":
        arrays["rsl"] = values(-80, 80)
        kw["ignore_nan"] = draw(st.booleans())
        if kw["ignore_nan"] and arrays["wet"][0] is None:
            arrays["wet"][0] = 0.0
    elif func == "waa_schleiss_2013":
        arrays["rsl"] = values(48, 70)
        arrays["baseline"] = values(45, 52)
        kw = {"waa_max": draw(dyadic(1, 5)), "delta_t": draw(st.integers(1, 3)), "tau": draw(st.integers(10, 30))}
    elif func in ("gap_markers", "gap_mask"):
        arrays["rsl"] = values(-70, -55)
        kw = {"rsl_threshold": -62}
    elif func == "calc_R_from_A":
        arrays["A"] = values(-3, 40)
        kw = {"L_km": draw(st.sampled_from([1, 2.5, 10])), "f_GHz": draw(st.sampled_from([10.0, 23.5, 38])),
              "pol": draw(st.sampled_from(["H", "V"]))}
    elif func == "waa_leijnse_2008_from_A_obs":
        arrays["A_obs"] = values(0, 40)
        kw = {"L_km": draw(st.sampled_from([1, 2.5, 10])), "f_Hz": draw(st.sampled_from([1e10, 2.35e10, 3.8e10])),
              "pol": draw(st.sampled_from(["H", "V"]))}
    elif func in ("waa_leijnse_2008", "waa_pastorek_2021"):
        arrays["R"] = values(0, 100)
        if func == "waa_leijnse_2008":
            kw = {"f_Hz": draw(st.sampled_from([1e10, 2.35e10]))}
    elif func == "waa_pastorek_2021_from_A_obs":
        arrays["A_obs"] = values(0, 40)
        kw = {"L_km": draw(st.sampled_from([1, 2.5, 10])), "f_Hz": draw(st.sampled_from([1e10, 2.35e10, 3.8e10])),
              "pol": draw(st.sampled_from(["H", "V"]))}
    elif func == "calc_R_from_A_min_max":
        arrays["Ar_max"] = values(-3, 40)
        kw = {"L": draw(st.sampled_from([1, 2.5, 10])), "f_GHz": draw(st.sampled_from([10.0, 23.5, 38]))}
    elif func == "A_min_max":
        arrays = {"tx_min": values(10, 15), "tx_max": values(15, 20), "rx_min": values(-80, -50), "rx_max": values(-50, -40)}
        kw = {"window": draw(st.integers(1, 4))}
    elif func == "a_b":
        nan = False
        arrays["f_GHz"] = values(1, 100)
        kw = {"pol": draw(st.sampled_from(["H", "V"])), "approx_type": draw(st.sampled_from(["ITU_2003", "ITU_2005"]))}
    elif func == "haversine":
        arrays = {"lon1": values(-120, 120), "lat1": values(-80, 80), "lon2": values(-120, 120), "lat2": values(-80, 80)}
    elif func in ("lowest_std", "stft"):
        nan = nan and func == "stft"
        n += 20
        arrays["rsl"] = values(-70, -30)
        kw = {"window_length": draw(st.integers(4, 10))}
        if func == "stft":
            kw.update(threshold=1.5, f_divide=1e-3, t_dry_start=0, t_dry_stop=draw(st.integers(12, n)))
    elif func == "wet_metrics":
        arrays = {"reference": [float(w) for w in draw(runs(min_n=n, max_n=n))],
                  "predicted": [float(w) for w in draw(runs(min_n=n, max_n=n))]}
        if nan:
            arrays["predicted"][0] = None
    elif func == "rain_metrics":
        arrays = {"reference": values(0, 20), "predicted": values(0, 20)}
        kw = {"rainfall_threshold_wet": draw(st.sampled_from([0.5, 1, 3.0]))}
    else:
        pts = draw(st.lists(st.tuples(st.integers(0, 16), st.integers(0, 16)), min_size=2, max_size=n + 1, unique=True))
        n = len(pts)
        den = 1 if integer else 4
        arrays = {"x": [p[0] / den for p in pts], "y": [p[1] / den for p in pts], "z": values(0, 50)}
        if all(v is None for v in arrays["z"][1:]):
            arrays["z"] = [float(i) for i in range(n)]
        kw = {"nnear": draw(st.integers(2, 8)), "p": draw(st.sampled_from([1, 2, 3])),
              "max_distance": draw(st.sampled_from([None, 2.5]))}
    if draw(st.booleans()):
        # some with integer, some with fractional values
        k = draw(st.sampled_from(sorted(arrays)))
        if k not in ("wet", "x", "y"):
            arrays[k] = [v if v is None else float(int(v)) for v in arrays[k]]
    return {"func": func, "arrays": arrays, "kw": kw, "how": draw(st.sampled_from([w for w in STORE if (func, w) not in NOT])),
            "which": draw(st.sampled_from(["all"] + sorted(arrays)))}


def body(c, ctx):
    name = c["func"]
    ref = call(evaluate, c, "plain")
    how = c["how"]
    todo = [("as it is, compiled", worker().ask(c, "plain"))]
    if how != "plain":
        todo.append(("stored as " + how, call(evaluate, c, how)))
        todo.append(("stored as %s, compiled" % how, worker().ask(c, how)))
    tol = 1e-4 if how == "float32" else 1e-9
    if name == "haversine" and how in ("float32", "int16"):
        tol = 1e-2  # numpy takes the radians of 16-bit integers in single precision
    n = 0
    for what, got in todo:
        if got is None:
            continue
        n += 1
        require(len(got) == len(ref), "%s: %d results", what, len(got))
        for a, b in zip(got, ref):
            same(a, b, "%s, %s" % (name, what), tol, tol)
    ctx.label(name)
    ctx.label(how, n > 1)
    return n > 1


SUBS = [
    Sub("values_only", case(), body, 500, 4500, rule="the values were also stored in another way"),
]
ASSUMPTIONS = ["functions with compiled parts, and the main retrieval functions"]
