"""C27 wet-dry classification with PyTorch models"""
import os
import tempfile

import numpy as np
import torch
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, call, must_raise, require, same
from pbt.gen import dyadic, or_nan

from pycomlink.processing.pytorch_utils import run_inference as ri
from pycomlink.processing.pytorch_utils.inference_utils import get_model

torch.set_num_threads(1)


class Linear(torch.nn.Module):
    """sum of w * x over channels and window; w depends on the channel and the
    position in the window. Parameters need gradients, drops out in training"""

    def __init__(self, w, column: bool):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w, dtype=torch.float32))
        self.drop = torch.nn.Dropout(0.5)
        self.column = column

    def forward(self, x):
        y = (self.drop(x) * self.w).sum(dim=2).sum(dim=1)
        if self.column:
            return y.unsqueeze(1)
        return y


def weights(seed, channels, window):
    r = np.random.RandomState(seed)
    return r.randint(-8, 9, size=(channels, window)) / 8.0


@st.composite
def case_of(draw, window, max_extra=14, large=False):
    W = draw(window)
    n = W + draw(st.integers(0, max_extra))
    if draw(st.integers(0, 9)) == 0:
        n = draw(st.integers(1, W))
    k = draw(st.integers(1, 4))
    if large:
        n = W + draw(st.sampled_from([10, 120, 500]))
        k = draw(st.sampled_from([2, 8, 24]))
    ids = draw(st.sampled_from([
        ["0", "1", "2", "3"], ["b", "a", "d", "c"], [3, 1, 2, 0], [10, 20, 5, 7],
        ["cml_10", "cml_1", "cml_2", "cml_100"],
    ] if not large else [["cml_%d" % (3 * i) for i in range(k)], list(range(k)), list(range(k, 0, -1))]))[:k]
    return {
        "W": W, "n": n, "ids": ids,
        "channels": draw(st.integers(1, 3)),
        "seed": draw(st.integers(0, 10**6)),
        "reflength": draw(st.one_of(
            st.integers(2, 2 * W), st.sampled_from([r for r in (2, 3, 60, 2 * W) if r <= 2 * W]))) if W > 1 else 2,
        "column": draw(st.booleans()),
        "batch": draw(st.one_of(st.integers(1, 9), st.sampled_from([32, 1000]))),
        "dims": draw(st.sampled_from([
            ["time", "channel_id", "cml_id"], ["cml_id", "time", "channel_id"], ["time", "cml_id", "channel_id"],
        ])),
        "nan": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2), st.integers(0, 3)).map(list), max_size=2)),
        "dtype": draw(st.sampled_from(["float64", "float32"])),
        "t": draw(st.sampled_from(["datetime", "int", "gaps"])),
    }


def make(c):
    r = np.random.RandomState(c["seed"])
    n, k, m = c["n"], len(c["ids"]), c["channels"]
    x = r.randint(-40, 41, size=(n, m, k)) / 8.0
    for t, ch, i in c["nan"]:
        x[t, ch % m, i % k] = np.nan
    if c["t"] == "int":
        time = np.arange(n) * 3 + 5
    elif c["t"] == "datetime":
        time = np.datetime64("2021-05-01T00:00", "ns") + np.arange(n) * np.timedelta64(60, "s")
    else:
        time = np.datetime64("2021-05-01T00:00", "ns") + np.cumsum(r.randint(1, 5, n)) * np.timedelta64(60, "s")
    da = xr.DataArray(
        x.astype(c["dtype"]), dims=["time", "channel_id", "cml_id"],
        coords={"time": time, "channel_id": ["c%d" % i for i in range(m)], "cml_id": c["ids"]}, name="tl",
    ).transpose(*c["dims"])
    return x, da


def expected(c, x, w):
    n, k, W = c["n"], len(c["ids"]), c["W"]
    out = np.full((n, k), np.nan)
    for i in range(k):
        for s in range(n - W + 1):
            out[s + W - c["reflength"] // 2, i] = (x[s : s + W, :, i] * w.T).sum()
    return out


def check_ds(ds, da, exp, what):
    require(set(ds.data_vars) == {"TL", "predictions"}, "%s: variables %s", what, list(ds.data_vars))
    require(ds.TL.rename("tl").identical(da), "%s: TL is not the input data", what)
    p = ds.predictions
    require(set(p.dims) == {"time", "cml_id"}, "%s: dims %s", what, p.dims)
    for d in ("time", "cml_id"):
        require(np.array_equal(p[d].values, da[d].values), "%s: coordinate %s", what, d)
    same(p.transpose("time", "cml_id").values, exp, what, 1e-5, 1e-4)


def body_run(c, ctx):
    x, da = make(c)
    w = weights(c["seed"], c["channels"], c["W"])
    model = Linear(w, c["column"]).eval()
    if c["W"] != 180 or c["seed"] % 2:
        model.window_size = c["W"]
    fr = Frozen(data=da)
    res = call(ri.run_inference, model, da, c["batch"], c["reflength"])
    ds = call(ri.redistribute_results, res, da.to_dataset(name="TL"))
    fr.check("run_inference")
    exp = expected(c, x, w)
    check_ds(ds, da, exp, "predictions")
    ctx.label("several batches", len(res["cml_ids"]) > c["batch"])
    ctx.label("column output", c["column"])
    ctx.label("NaN in the data", bool(c["nan"]))
    return c["n"] > c["W"] and len(c["ids"]) > 1


def body_file(c, ctx):
    x, da = make(c)
    w = weights(c["seed"], c["channels"], 180)
    fr = Frozen(data=da)
    with tempfile.TemporaryDirectory(prefix="verif-c27-") as d:
        path = os.path.join(d, "model.pt")
        m = torch.jit.script(Linear(w, c["column"]))
        m.train()
        m.save(path)
        kw = {"batch_size": c["batch"]}
        if c["reflength"] != 60:
            kw["reflength"] = c["reflength"]
        ds = call(ri.cnn_wd, path, da, **kw)
    fr.check("cnn_wd")
    check_ds(ds, da, expected(c, x, w), "predictions of cnn_wd")
    ctx.label("default reflength", c["reflength"] == 60)
    return c["n"] > 180 and len(c["ids"]) > 1


@st.composite
def case_redist(draw):
    k = draw(st.integers(1, 4))
    n = draw(st.integers(1, 8))
    ids = ["a", "b", "c", "d"][:k]
    # time stamps of the data; there are predictions for others, too
    at = sorted(draw(st.one_of(st.just(range(n)), st.sets(st.integers(0, n + 1), min_size=n, max_size=n))))
    cells = draw(st.lists(st.tuples(st.integers(0, n + 1), st.sampled_from(ids + ["zz"])).map(list), max_size=12,
                          unique_by=tuple))
    return {
        "n": n, "at": list(at), "ids": draw(st.permutations(ids)), "cells": cells,
        "vals": draw(st.lists(or_nan(dyadic(0, 1, 16)), min_size=len(cells), max_size=len(cells))),
        "shape": draw(st.sampled_from(["1d", "column", "row"])),
    }


def body_redist(c, ctx):
    n, ids = c["n"], c["ids"]
    time = np.datetime64("2020-01-01", "ns") + np.arange(n + 2) * np.timedelta64(1, "h")
    v = np.array([np.nan if q is None else q for q in c["vals"]], dtype="float32")
    v = {"1d": v, "column": v[:, None], "row": v[:, None, None]}[c["shape"]]
    res = {
        "predictions": v,
        "cml_ids": np.array([i for _, i in c["cells"]], dtype="<U2"),
        "times": time[[t for t, _ in c["cells"]]] if c["cells"] else time[:0],
    }
    ds = xr.Dataset({"TL": (("time", "cml_id"), np.zeros((n, len(ids))))}, coords={"time": time[c["at"]], "cml_id": list(ids)})
    fr = Frozen(data=ds)
    out = call(ri.redistribute_results, res, ds)
    fr.check("redistribute_results")
    exp = np.full((n, len(ids)), np.nan)
    for (t, i), q in zip(c["cells"], c["vals"]):
        if t in c["at"] and i in ids and q is not None:
            exp[c["at"].index(t), list(ids).index(i)] = q
    same(out.predictions.transpose("time", "cml_id").values, exp, "redistributed", 0, 0)
    require(out.TL.identical(ds.TL), "TL changed")
    return len(c["cells"]) > 1


@st.composite
def case_window(draw):
    n = draw(st.integers(1, 20))
    return {"n": n, "W": draw(st.integers(1, 22)), "r": draw(st.integers(2, 50)), "off": draw(st.integers(0, 5))}


def body_window(c, ctx):
    n, W = c["n"], c["W"]
    ts = np.arange(n) * 7 + 1
    tt = np.arange(n) + 100
    r = min(c["r"], 2 * W)
    if r < 2:
        r = 2
    win, idx = call(ri.rolling_window, ts, tt, W, r)
    m = max(0, n - W + 1)
    require(len(win) == m and len(idx) == m, "%d windows, expected %d", len(win), m)
    for s in range(m):
        require(list(win[s]) == list(ts[s : s + W]), "window %d is %s", s, list(win[s]))
        require(idx[s] == tt[s + W - r // 2], "time of window %d is %s, expected %s", s, idx[s], tt[s + W - r // 2])
    must_raise(Exception, ri.rolling_window, ts, tt, 0 if c["off"] % 2 else -W, r)
    must_raise(Exception, ri.rolling_window, ts, np.arange(n + 1 + c["off"]), W, r)
    return m > 1


def body_name(c, ctx):
    with tempfile.TemporaryDirectory(prefix="verif-c27-") as d:
        name = c["name"].replace("@", d + "/")
        if c["exists"] and "@" in c["name"]:
            with open(name, "wb") as f:
                f.write(b"not a model")
        must_raise(Exception, get_model, name)
    return True


case_name = st.fixed_dictionaries({
    "name": st.sampled_from(["model.pth", "model.pt2", "model", "resnet", "@missing.pt", "@garbage.pt", "@dir/x.pt",
                             "missing-model.pt", "ftp", ""]),
    "exists": st.booleans(),
}).filter(lambda c: c["name"] != "@dir/x.pt" or not c["exists"])

SUBS = [
    Sub("inference", case_of(st.one_of(st.integers(1, 12), st.sampled_from([180]))), body_run, 120, 900,
        rule="more than one window per CML and more than one CML"),
    Sub("large", case_of(st.one_of(st.integers(1, 12), st.sampled_from([60, 180])), large=True), body_run, 10, 120,
        rule="more than one window per CML and more than one CML"),
    Sub("large_cnn_wd", case_of(st.just(180), large=True), body_file, 4, 60,
        rule="more than one window per CML and more than one CML"),
    Sub("cnn_wd", case_of(st.just(180)), body_file, 40, 300, rule="more than one window per CML and more than one CML"),
    Sub("redistribute", case_redist(), body_redist, 150, 1500, rule="more than one prediction"),
    Sub("windows", case_window(), body_window, 200, 2000, rule="more than one window"),
    Sub("names", case_name, body_name, 25, 60, rule="all cases"),
]
ASSUMPTIONS = [
    "reflength between 2 and twice the window; CPU only",
    "models are linear in the window with weights of their own for each channel and position, so that every "
    "misplaced or exchanged value changes the output",
]
