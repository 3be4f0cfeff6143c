"""C01 functions applied to DataArrays"""
import itertools

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, Violation, arr, call, must_raise, require, same
from pbt.gen import dyadic, fill, num, or_nan

import pycomlink.processing.baseline as bl
import pycomlink.processing.blackout_gap_detection as bo
import pycomlink.processing.k_R_relation as kr
import pycomlink.processing.nearby_rain_retrival as nr
import pycomlink.processing.wet_antenna as wa
from pycomlink.processing.xarray_wrapper import xarray_apply_along_time_dim

POLS = ["H", "h", "horizontal", "Horizontal", "V", "v", "vertical", "Vertical"]
F = {
    # name: (function, number of outputs,
    #        time dependent args {name: value strategy}, required per-link args,
    #        optional per-link args, optional args which are never per link)
    "baseline_constant": (
        bl.baseline_constant, 1,
        {"trsl": or_nan(dyadic(20, 90)), "wet": or_nan(st.sampled_from([0.0, 1.0]))},
        {}, {"n_average_last_dry": st.integers(1, 4)}, {}, ["trsl", "wet"],
    ),
    "waa_schleiss_2013": (
        wa.waa_schleiss_2013, 1,
        {"rsl": dyadic(40, 70), "baseline": dyadic(40, 60),
         "wet": st.sampled_from([0.0, 1.0])},
        {"waa_max": dyadic(1, 5), "delta_t": dyadic(1, 2), "tau": dyadic(5, 30)},
        {}, {}, ["rsl", "baseline", "wet", "waa_max", "delta_t", "tau"],
    ),
    "waa_leijnse_2008_from_A_obs": (
        wa.waa_leijnse_2008_from_A_obs, 1, {"A_obs": or_nan(dyadic(0, 60))},
        {"f_Hz": dyadic(6, 80).map(lambda x: x * 1e9), "pol": st.sampled_from(POLS),
         "L_km": dyadic(1, 20)},
        {"T_K": dyadic(280, 300), "gamma": st.sampled_from([1e-5, 2.06e-5, 3e-5]),
         "delta": st.sampled_from([0.2, 0.24, 0.3])},
        {}, ["A_obs", "f_Hz", "pol", "L_km", "T_K", "gamma", "delta"],
    ),
    "waa_pastorek_2021_from_A_obs": (
        wa.waa_pastorek_2021_from_A_obs, 1, {"A_obs": or_nan(dyadic(0, 60))},
        {"f_Hz": dyadic(6, 80).map(lambda x: x * 1e9), "pol": st.sampled_from(POLS),
         "L_km": dyadic(1, 20)},
        {"A_max": dyadic(5, 15), "zeta": st.sampled_from([0.5, 0.55]),
         "d": st.sampled_from([0.1, 0.2])},
        {}, ["A_obs", "f_Hz", "pol", "L_km", "A_max", "zeta", "d"],
    ),
    "calc_R_from_A (f, pol)": (
        kr.calc_R_from_A, 1, {"A": or_nan(dyadic(-5, 40))},
        {"L_km": dyadic(1, 20), "f_GHz": dyadic(1, 100), "pol": st.sampled_from(POLS)},
        {"R_min": dyadic(0, 3)},
        {"a_b_approximation": st.sampled_from(["ITU_2003", "ITU_2005"])},
        ["A", "L_km", "f_GHz", "pol"],
    ),
    "calc_R_from_A (a, b)": (
        kr.calc_R_from_A, 1, {"A": or_nan(dyadic(-5, 40))},
        {"L_km": dyadic(1, 20), "a": dyadic(1, 3), "b": dyadic(1, 2)},
        {"R_min": dyadic(0, 3)}, {}, ["A", "L_km"],
    ),
    "nearby_rainfall_retrival (f, pol)": (
        nr.nearby_rainfall_retrival, 1,
        {"pref": or_nan(dyadic(-50, -40)), "p_c_min": dyadic(-70, -40),
         "p_c_max": dyadic(-60, -40), "F": or_nan(dyadic(-40, 0))},
        {"length": dyadic(1, 20), "f_GHz": dyadic(1, 100),
         "pol": st.sampled_from(POLS)},
        {"waa_max": dyadic(0, 4), "alpha": dyadic(0, 1),
         "F_value_threshold": dyadic(-40, -20)},
        {"a_b_approximation": st.sampled_from(["ITU_2003", "ITU_2005"])},
        ["pref", "p_c_min", "p_c_max", "F", "length", "f_GHz", "pol"],
    ),
    "nearby_rainfall_retrival (a, b)": (
        nr.nearby_rainfall_retrival, 1,
        {"pref": or_nan(dyadic(-50, -40)), "p_c_min": dyadic(-70, -40),
         "p_c_max": dyadic(-60, -40), "F": or_nan(dyadic(-40, 0))},
        {"length": dyadic(1, 20), "a": dyadic(1, 3), "b": dyadic(1, 2)},
        {"waa_max": dyadic(0, 4), "alpha": dyadic(0, 1),
         "F_value_threshold": dyadic(-40, -20)},
        {}, ["pref", "p_c_min", "p_c_max", "F", "length"],
    ),
    "get_blackout_start_and_end": (
        bo.get_blackout_start_and_end, 2, {"rsl": or_nan(dyadic(-80, -40), 3)},
        {"rsl_threshold": dyadic(-70, -50)}, {}, {}, ["rsl", "rsl_threshold"],
    ),
}
LABELS = {"cml_id": ["c", "a", "b"] + ["link %d" % i for i in range(60, 0, -1)],
          "channel_id": ["channel_2", "channel_1"] + ["channel_%d" % i for i in range(9, 2, -1)]}


@st.composite
def case(draw, large=False):
    name = draw(st.sampled_from(sorted(F)))
    _, _, time_args, req, opt, opt_plain, order = F[name]
    nt = draw(st.sampled_from([1, 3, 30, 400]) if large else st.integers(1, 7))
    dims = draw(
        st.sampled_from([[], ["cml_id"], ["cml_id"], ["cml_id", "channel_id"]])
    )
    top = {"cml_id": 3, "channel_id": 2}
    if large:
        dims = dims or ["cml_id"]
        top = {"cml_id": 9 if nt == 400 else 50, "channel_id": 3 if nt == 400 else 5}
    sizes = {d: draw(st.sampled_from([top[d], top[d] - 1, top[d] // 2 + 1]) if large else st.integers(1, top[d])) for d in dims}
    sizes["time"] = nt
    args = {}
    full = draw(st.sampled_from(sorted(time_args)))
    for a, s in time_args.items():
        sub = (
            list(dims)
            if a == full
            else [d for d in dims if draw(st.integers(0, 3)) > 0]
        )
        ds = draw(st.permutations(sub + ["time"]))
        n = int(np.prod([sizes[d] for d in ds]))
        args[a] = {"dims": ds, "v": fill(draw, s, n, large)}
    plain = {}
    for a, s in list(req.items()) + list(opt.items()):
        if a in opt and draw(st.booleans()):
            continue
        kind = draw(st.sampled_from(["scalar", "array", "array"])) if dims else "scalar"
        if kind == "array":
            sub = [d for d in dims if draw(st.integers(0, 3)) > 0] or [dims[0]]
            ds = draw(st.permutations(sub))
            n = int(np.prod([sizes[d] for d in ds]))
            args[a] = {"dims": ds, "v": fill(draw, s, n, large)}
        else:
            plain[a] = draw(s)
    for a, s in opt_plain.items():
        if draw(st.booleans()):
            plain[a] = draw(s)
    # number of leading args passed by position
    given_in_order = list(
        itertools.takewhile(lambda a: a in args or a in plain, order)
    )
    npos = draw(st.integers(0, len(given_in_order)))
    return {
        "f": name, "sizes": sizes, "full": full, "args": args, "plain": plain,
        "npos": npos, "coords": draw(st.booleans()),
    }


def coords_for(dims, sizes, extra):
    co = {}
    for d in dims:
        if d == "time":
            co["time"] = np.datetime64("2020-01-01", "ns") + np.arange(
                sizes["time"]
            ) * np.timedelta64(60, "s")
        else:
            co[d] = LABELS[d][: sizes[d]]
    if extra:
        co["operator"] = "X"
        if "cml_id" in dims:
            co["site"] = ("cml_id", [10.5 * i for i in range(sizes["cml_id"])])
    return co


def build(c):
    out = {}
    for a, d in c["args"].items():
        shape = [c["sizes"][k] for k in d["dims"]]
        if isinstance(d["v"][0], str):
            v = np.array(d["v"]).reshape(shape)
        elif all(isinstance(x, int) for x in d["v"]):
            v = np.array(d["v"]).reshape(shape)
        else:
            v = arr(d["v"]).reshape(shape)
        out[a] = xr.DataArray(
            v,
            dims=d["dims"],
            coords=coords_for(d["dims"], c["sizes"], c["coords"] and a == c["full"]),
        )
    return out


def body(c, ctx):
    func, n_out, time_args, req, opt, _, order = F[c["f"]]
    das = build(c)
    kw = dict(das)
    kw.update(c["plain"])
    pos = [kw.pop(a) for a in order[: c["npos"]]]
    fr = Frozen(**das)
    out = call(func, *pos, **kw)
    fr.check(c["f"])
    outs = out if n_out > 1 else (out,)
    require(len(outs) == n_out, "%s: wrong number of outputs", c["f"])
    dims = [d for d in c["args"][c["full"]]["dims"] if d != "time"]
    for o in outs:
        require(isinstance(o, xr.DataArray), "%s: no DataArray returned", c["f"])
        require(
            set(o.dims) == set(dims + ["time"]),
            "%s: dims %s of the result", c["f"], o.dims,
        )
        for k, v in das[c["full"]].coords.items():
            require(k in o.coords, "%s: coordinate %s is lost", c["f"], k)
            require(
                o.coords[k].dims == v.dims and (o.coords[k].values == v.values).all(),
                "%s: coordinate %s changed", c["f"], k,
            )
    # every link on its own, as numpy arrays
    for combo in itertools.product(*[range(c["sizes"][d]) for d in dims]):
        at = dict(zip(dims, combo))
        kws = dict(c["plain"])
        for a, da in das.items():
            v = da.isel({d: i for d, i in at.items() if d in da.dims}).values
            kws[a] = v if v.ndim else v.item()
        ref = call(func, **kws)
        refs = ref if n_out > 1 else (ref,)
        for k, (o, r) in enumerate(zip(outs, refs)):
            same(
                o.isel(at).values, r,
                "%s, output %d, link %s" % (c["f"], k, at), atol=1e-12,
            )
    ctx.label(c["f"])
    n_links = int(np.prod([c["sizes"][d] for d in dims])) if dims else 1
    return n_links > 1


# --- arguments which have to be rejected, and parameters with other labels ---


@st.composite
def case_reject(draw):
    c = draw(case())
    c["how"] = draw(st.sampled_from(["unknown", "missing", "surplus", "twice"]))
    c["pick"] = draw(st.integers(0, 9))
    return c


def body_reject(c, ctx):
    func, n_out, time_args, req, opt, _, order = F[c["f"]]
    das = build(c)
    kw = dict(das)
    kw.update(c["plain"])
    base = {
        "calc_R_from_A": ["A", "L_km"],
        "nearby_rainfall_retrival": ["pref", "p_c_min", "p_c_max", "F", "length"],
    }
    required = base.get(func.__name__, list(time_args) + list(req))
    if c["how"] == "unknown":
        kw[["L", "n_average", "wett", "R_minimum", "f", "threshold"][c["pick"] % 6]] = 1
        must_raise(TypeError, func, **kw)
    elif c["how"] == "missing":
        left = [a for a in required if a != required[c["pick"] % len(required)]]
        # a DataArray with a time dimension has to remain
        if not any("time" in getattr(kw[a], "dims", ()) for a in left):
            return False
        gone = (set(required) - set(left)).pop()
        kw.pop(gone)
        must_raise(TypeError, func, **kw)
    elif c["how"] == "surplus":
        must_raise(TypeError, func, *([kw[required[0]]] * 30))
    else:
        must_raise(TypeError, func, kw[required[0]], **kw)
    return True


@st.composite
def case_labels(draw):
    c = draw(case())
    if "cml_id" not in c["sizes"] or c["sizes"]["cml_id"] < 2:
        c["sizes"]["cml_id"] = 2
        c = {"skip": True}
    else:
        c["what"] = draw(st.sampled_from(["reversed", "subset", "renamed"]))
    return c


def body_labels(c, ctx):
    """Parameters whose link labels differ are matched by label or rejected"""
    if c.get("skip"):
        return False
    func, n_out, time_args, req, opt, _, order = F[c["f"]]
    das = build(c)
    victims = [
        a for a in sorted(das)
        if a != c["full"] and "cml_id" in das[a].dims
    ]
    if not victims:
        return False
    a = victims[0]
    bad = das[a]
    if c["what"] == "reversed":
        bad = bad.isel(cml_id=slice(None, None, -1))
    elif c["what"] == "subset":
        bad = bad.isel(cml_id=slice(1, None))
    else:
        bad = bad.assign_coords(cml_id=["x%d" % i for i in range(bad.cml_id.size)])
    kw = dict(das)
    kw.update(c["plain"])
    good = call(func, **kw)
    kw[a] = bad
    from pbt.core import quiet

    try:
        with quiet():
            out = func(**kw)
    except Exception:
        return True  # rejected
    outs = out if n_out > 1 else (out,)
    goods = good if n_out > 1 else (good,)
    for o, g in zip(outs, goods):
        if o.cml_id.size == 0 and c["what"] != "reversed":
            continue
        for k in o.cml_id.values:
            require(k in g.cml_id.values, "%s: invented link %s", c["f"], k)
            x, y = o.sel(cml_id=k), g.sel(cml_id=k)
            if np.isnan(x.values.astype(float)).all():
                continue  # no parameter for this link
            require(
                c["what"] != "renamed",
                "%s: parameter %s of other links was used", c["f"], a,
            )
            same(
                x.transpose(*y.dims).values, y.values,
                "%s: parameter %s by label" % (c["f"], a),
            )
    return True


# --- functions of the user, made to work on labelled arrays with the decorator ---


@st.composite
def user_function(draw):
    n = draw(st.integers(1, 4))
    names = list(draw(st.permutations(["rsl", "tsl", "x", "y"])))[:n]
    first_default = draw(st.integers(1, n))
    par = []
    for i, name in enumerate(names):
        kind = "time" if i == 0 else draw(st.sampled_from(["time", "link", "number", "text"]))
        par.append({
            "name": name, "kind": kind,
            "default": draw(st.sampled_from([1.5, None, 2.0])) if i >= first_default else "required",
            "given": i < first_default or draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6)),
        })
    return {"par": par, "n_out": draw(st.integers(1, 3)), "npos": draw(st.integers(0, n)),
            "scale": draw(st.integers(1, 9))}


@st.composite
def case_user(draw):
    return {"functions": draw(st.lists(user_function(), min_size=2, max_size=3)), "nt": draw(st.integers(1, 5)),
            "nl": draw(st.integers(1, 3)), "order": draw(st.lists(st.integers(0, 2), min_size=2, max_size=5))}


def make_function(f, seen):
    """def func(rsl, x, y=1.5) as a user would write it"""
    def work(*values):
        seen.append(values)
        out = []
        for k in range(f["n_out"]):
            y = np.zeros(np.shape(values[0]))
            for i, v in enumerate(values):
                w = {"H": 100.0, "V": 200.0, None: 300.0}.get(v) if v is None or isinstance(v, str) else np.asarray(v)
                y = y + (i + 1) ** 2 * (k + 1) * w
            out.append(y * f["scale"])
        return out[0] if f["n_out"] == 1 else tuple(out)

    sig = ", ".join(p["name"] if p["default"] == "required" else "%s=%r" % (p["name"], p["default"]) for p in f["par"])
    space = {"work": work}
    exec("def func(%s):\n    return work(%s)\n" % (sig, ", ".join(p["name"] for p in f["par"])), space)
    return space["func"]


def body_user(c, ctx):
    made = []
    for f in c["functions"]:
        raw = make_function(f, [])
        made.append((f, raw, xarray_apply_along_time_dim(n_outputs=f["n_out"])(raw)))
    for k in c["order"]:
        f, raw, wrapped = made[k % len(made)]
        kw = {}
        for p in f["par"]:
            if not p["given"]:
                continue
            r = np.random.RandomState(p["seed"])
            links = ["l%d" % i for i in range(c["nl"])]
            if p["kind"] == "time":
                kw[p["name"]] = xr.DataArray(
                    r.randint(-9, 9, (c["nt"], c["nl"])) / 2, dims=("time", "cml_id"),
                    coords={"time": np.arange(c["nt"]), "cml_id": links})
            elif p["kind"] == "link":
                kw[p["name"]] = xr.DataArray(r.randint(-9, 9, c["nl"]) / 2, dims="cml_id", coords={"cml_id": links})
            else:
                kw[p["name"]] = "HV"[p["seed"] % 2] if p["kind"] == "text" else p["seed"] / 8
        names = [p["name"] for p in f["par"]]
        lead = list(itertools.takewhile(lambda n: n in kw, names))[: f["npos"]]
        rest = {n: v for n, v in kw.items() if n not in lead}
        out = call(wrapped, *[kw[n] for n in lead], **rest)
        outs = out if f["n_out"] > 1 else (out,)
        require(len(outs) == f["n_out"], "%d outputs", len(outs))
        for i in range(c["nl"]):
            at = {n: (v.isel(cml_id=i).values if "time" in v.dims else v.isel(cml_id=i).item())
                  if isinstance(v, xr.DataArray) else v for n, v in kw.items()}
            ref = raw(**at)
            for j, (o, e) in enumerate(zip(outs, ref if f["n_out"] > 1 else (ref,))):
                require(set(o.dims) == {"time", "cml_id"}, "dimensions %s", o.dims)
                same(o.isel(cml_id=i).values, e, "func(%s), output %d of link %d" % (", ".join(names), j, i))
    return len({tuple(p["name"] for p in f["par"]) for f in c["functions"]}) > 1


SUBS = [
    Sub("decorator", case_user(), body_user, 60, 600, rule="functions with different arguments"),
    Sub("large", case(large=True), body, 25, 150, rule="more than one link"),
    Sub("per_link", case(), body, 600, 3000, rule="more than one link"),
    Sub("reject", case_reject(), body_reject, 120, 800, rule="invalid call made"),
    Sub("labels", case_labels(), body_labels, 300, 1500, rule="labels differ"),
]
