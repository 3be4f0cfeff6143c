"""C29 wet-dry classification with TensorFlow models"""
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, call, must_raise, quiet, require, same
from pbt.gen import dyadic, fill, or_nan

from pycomlink.processing.tensorflow_utils import inference_utils as iu
from pycomlink.processing.tensorflow_utils import run_inference as ri

IDS = [["a", "b", "c", "d"], ["d", "a", "c", "b"], [4, 3, 2, 1], [10, 2, 33, 7], ["cml_1", "cml_10", "cml_2", "x"]]


@st.composite
def data_case(draw, seq=st.integers(1, 8), max_extra=14, large=False):
    L = draw(seq)
    n = max(1, L + draw(st.integers(-1, max_extra)))
    if large:
        n = L + draw(st.sampled_from([150, 400, 900]))
    ids = draw(st.sampled_from(IDS))
    k = draw(st.integers(1, 4))
    if not large and draw(st.integers(0, 9)) == 0:
        # many CMLs
        k = draw(st.sampled_from([101, 130, 257]))
        ids = draw(st.sampled_from([["l%d" % i for i in range(k)], list(range(5, k + 5)), list(range(k, 0, -1))]))
        n = min(n, L + 2)
    m = draw(st.integers(1, 3))
    return {
        "L": L, "n": n, "ids": ids[:k], "vars": draw(st.sampled_from([["tl1", "tl2", "tl3"], ["z", "a", "m"]]))[:m],
        "seed": draw(st.integers(0, 10**6)),
        "const": draw(st.sampled_from([0, 0, 0, 1, 2])),  # variables without any variation
        "bad": draw(st.lists(
            st.tuples(st.integers(0, n - 1), st.integers(0, k - 1), st.integers(0, 2), st.sampled_from(["nan", "nan", "inf", "-inf"])).map(list),
            max_size=4)),
        "select": draw(st.sampled_from(["all", "all", "reversed", "some", "unknown"])),
        "dims": draw(st.sampled_from([["time", "ID"], ["ID", "time"]])),
        "id_coord": draw(st.sampled_from(["cml_id", "cml_id", "sublink", "link"])),
        "dtype": draw(st.sampled_from(["float64", "float32"])),
    }


def make(c):
    r = np.random.RandomState(c["seed"])
    n, k = c["n"], len(c["ids"])
    x = {}
    for j, v in enumerate(c["vars"]):
        a = r.randint(-80, 81, size=(n, k)) / 8.0 + 8 * j
        if j < c["const"]:
            a[:] = 3.5
        for t, i, jj, what in c["bad"]:
            if jj % len(c["vars"]) == j:
                a[t, i % k] = float(what)
        x[v] = a
    dims = [c["id_coord"] if d == "ID" else d for d in c["dims"]]
    ds = xr.Dataset(
        {v: (("time", c["id_coord"]), a.astype(c["dtype"])) for v, a in x.items()},
        coords={"time": np.datetime64("2022-01-01", "ns") + np.arange(n) * np.timedelta64(60, "s"), c["id_coord"]: c["ids"]},
        attrs={"note": "kept"},
    ).transpose(*dims)
    ds["other"] = ("time", np.arange(n))
    return x, ds


def selected(c):
    ids = list(c["ids"])
    if c["select"] == "reversed":
        return ids[::-1]
    if c["select"] == "some":
        return ids[1:] or ids
    if c["select"] == "unknown":
        u = "nope" if isinstance(ids[0], str) else 999
        return [u] + ids[:2] + [u]
    return ids


def ref_samples(c, x):
    L, out = c["L"], []
    for i in selected(c):
        if i not in c["ids"]:
            continue
        j = c["ids"].index(i)
        s = np.stack([x[v][:, j] for v in c["vars"]], axis=-1)
        for t in range(L - 1, c["n"]):
            w = s[t - L + 1 : t + 1]
            if np.isfinite(w).all():
                out.append((w, i, t))
    return out


def ref_scale(X):
    X = np.asarray(X, dtype=float)
    m = X.mean(axis=(0, 1))
    s = X.std(axis=(0, 1))
    return (X - m) / np.where(s < 1e-6, 1, s)


def body_samples(c, ctx):
    x, ds = make(c)
    fr = Frozen(ds=ds)
    X, ids, t = call(iu.create_samples, ds, selected(c), c["vars"], seq_len=c["L"], cml_dim=c["id_coord"])
    fr.check("create_samples")
    exp = ref_samples(c, x)
    require(len(X) == len(ids) == len(t) == len(exp), "%d samples, expected %d", len(X), len(exp))
    got = {}
    for a, b, d in zip(X, ids, t):
        got[(b.item() if hasattr(b, "item") else b, int(d))] = a
    require(len(got) == len(exp), "samples of the same CML and time")
    for w, i, k in exp:
        require((i, k) in got, "no sample of CML %s at time step %d", i, k)
        same(got[(i, k)], w, "sample of CML %s at time step %d" % (i, k), 0, 0)
    if exp:
        fr = Frozen(X=X)
        sc = call(iu.scale_features, X, c["vars"])
        fr.check("scale_features")
        same(sc, ref_scale(X), "scaled", 1e-4, 1e-4)
    ctx.label("windows left out", len(exp) < len(selected(c)) * max(0, c["n"] - c["L"] + 1))
    ctx.label("no variation", bool(c["const"]))
    return len(exp) > 1


@st.composite
def case_store(draw, large=False):
    n = draw(st.integers(1, 8)) if not large else draw(st.sampled_from([60, 300, 1500]))
    ids = draw(st.sampled_from(IDS))[: draw(st.integers(1, 4))]
    unknown = "nope" if isinstance(ids[0], str) else 999
    cells = draw(st.lists(st.tuples(st.sampled_from(ids + [unknown]), st.integers(0, n + 2)).map(list), min_size=1, max_size=12,
                          unique_by=tuple))
    if large:
        cells += [[i, k] for i in ids for k in range(n) if [i, k] not in cells]
    return {
        "n": n, "ids": ids, "cells": cells,
        "p": fill(draw, or_nan(dyadic(0, 1, 64)), len(cells), large),
        "use": draw(st.one_of(st.none(), st.lists(st.sampled_from(ids + [unknown]), unique=True))),
        "name": draw(st.sampled_from([None, "wet_prob"])), "model": draw(st.sampled_from([None, "m1"])),
        "dims": draw(st.sampled_from([None, ["t", "link"]])), "column": draw(st.booleans()),
        "short": draw(st.sampled_from([0, 1, 2])),
    }


def body_store(c, ctx):
    td, cd = c["dims"] or ["time", "cml_id"]
    time = np.datetime64("2022-01-01", "ns") + np.arange(c["n"]) * np.timedelta64(60, "s")
    ds = xr.Dataset(coords={td: time, cd: c["ids"]})
    p = np.array([np.nan if q is None else q for q in c["p"]])
    ids = np.array([i for i, _ in c["cells"]])
    t = np.array([k for _, k in c["cells"]])
    kw = {}
    if c["dims"]:
        kw.update(time_dim=td, cml_dim=cd)
    if c["use"] is not None:
        kw["cml_ids_to_use"] = c["use"]
    if c["name"]:
        kw["var_name"] = c["name"]
    if c["model"]:
        kw["model_name"] = c["model"]
    fr = Frozen(ds=ds, p=p, ids=ids, t=t)
    out = call(iu.store_predictions, ds, p[:, None] if c["column"] else p, ids, t, **kw)
    fr.check("store_predictions")
    exp = np.full((c["n"], len(c["ids"])), np.nan)
    for (i, k), q in zip(c["cells"], p):
        if i in c["ids"] and k < c["n"] and (c["use"] is None or i in c["use"]):
            exp[k, c["ids"].index(i)] = q
    same(out.transpose(td, cd).values, exp, "stored predictions", 0, 0)
    require(np.array_equal(out[td].values, time) and list(out[cd].values) == list(c["ids"]), "coordinates")
    require(out.name == (c["name"] or "cnn_prob_" + (c["model"] or "model")), "name %s", out.name)
    must_raise(ValueError, iu.store_predictions, ds,
               *[a[:-1] if k == c["short"] else a for k, a in enumerate((p, ids, t))], **kw)
    return len(c["cells"]) > 1


_json = {}


def model_files(d, L, m, seed, deep):
    import keras

    keras.utils.set_random_seed(0)
    key = (L, m, deep)
    if key not in _json:
        lay = [keras.layers.Input((L, m))]
        if deep:
            lay += [keras.layers.Dropout(0.5), keras.layers.BatchNormalization(momentum=0.1)]
        lay += [keras.layers.Flatten(), keras.layers.Dense(1, activation="sigmoid")]
        _json[key] = keras.Sequential(lay)
    mod = _json[key]
    r = np.random.RandomState(seed)
    w, b = r.randint(-8, 9, size=(L * m, 1)) / 8.0, r.randint(-4, 5, size=1) / 4.0
    ws = [w, b]
    if deep:
        ws = [np.ones(m), np.zeros(m), np.full(m, 0.25), np.full(m, 4.0 - 0.001)] + ws
    mod.set_weights(ws)
    with open(os.path.join(d, "m.json"), "w") as f:
        f.write(mod.to_json())
    mod.save_weights(os.path.join(d, "m.weights.h5"))
    if deep:
        return lambda X: 1 / (1 + np.exp(-(((X - 0.25) / 2).reshape(len(X), -1) @ w + b)[:, 0]))
    return lambda X: 1 / (1 + np.exp(-(X.reshape(len(X), -1) @ w + b)[:, 0]))


@st.composite
def case_cnn(draw, large=False):
    c = draw(data_case(st.one_of(st.integers(1, 6), st.sampled_from([180])), 12, large))
    c["batch"] = draw(st.sampled_from([None, 1, 3, 7, 200]))
    c["name"] = draw(st.sampled_from([None, "p_wet"]))
    c["ds"] = draw(st.booleans())
    c["deep"] = draw(st.booleans())
    c["np_ids"] = draw(st.booleans())
    return c


def body_cnn(c, ctx):
    x, ds = make(c)
    S = ref_samples(c, x)
    kw = {}
    if c["vars"] != ["tl1", "tl2"] or c["seed"] % 2:
        kw["input_vars"] = c["vars"]
    if c["L"] != 180 or c["seed"] % 2:
        kw["seq_len"] = c["L"]
    if c["id_coord"] != "cml_id":
        kw["id_coord"] = c["id_coord"]
        must_raise(KeyError, ri.wet_dry_1d_cnn, ds, json_url="m.json", weights_url="m.weights.h5")
    if c["batch"]:
        kw["batch_size"] = c["batch"]
    if c["name"]:
        kw["prob_name"] = c["name"]
    if c["select"] != "all":
        kw["cml_ids"] = np.array(selected(c)) if c["np_ids"] else selected(c)
    if not c["ds"]:
        kw["return_ds"] = False
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif-c29-") as d:
        try:
            os.chdir(d)
            with quiet():
                f = model_files(d, c["L"], len(c["vars"]), c["seed"], c["deep"])
            fr = Frozen(ds=ds)
            out = call(ri.wet_dry_1d_cnn, ds, json_url=os.path.join(d, "m.json"),
                       weights_url=os.path.join(d, "m.weights.h5"), **kw)
            fr.check("wet_dry_1d_cnn")
        finally:
            os.chdir(cwd)
    name = c["name"] or "CNN"
    if c["ds"]:
        require(set(out.data_vars) == set(ds.data_vars) | {name}, "variables %s", list(out.data_vars))
        for v in ds.variables:
            require(out[v].equals(ds[v]), "variable %s changed", v)
        out = out[name]
    else:
        require(isinstance(out, xr.DataArray) and out.name == name, "returned %s", type(out))
    p = f(ref_scale(np.array([w for w, _, _ in S]))) if S else []
    exp = np.full((c["n"], len(c["ids"])), np.nan)
    for q, (_, i, t) in zip(p, S):
        exp[t, c["ids"].index(i)] = q
    require(set(out.dims) == {"time", c["id_coord"]}, "dims %s", out.dims)
    require(list(out[c["id_coord"]].values) == list(c["ids"]), "IDs %s", out[c["id_coord"]].values)
    require(np.array_equal(out.time.values, ds.time.values), "time stamps")
    same(out.transpose("time", c["id_coord"]).values, exp, "probabilities", 1e-3, 2e-4)
    ctx.label("some windows have no prediction", bool(np.isnan(exp[c["L"] - 1 :]).any()))
    ctx.label("no complete window at all", not S)
    ctx.label("several batches", bool(c["batch"]) and len(S) > c["batch"])
    return len(S) > 1


case_predict = st.fixed_dictionaries({
    "n": st.sampled_from([1, 2, 7, 128, 129, 300]), "batch": st.sampled_from([None, 1, 3, 128, 1000]),
    "dtype": st.sampled_from(["float32", "float64", "int64"]), "shape": st.sampled_from(["1d", "column"]),
    "seed": st.integers(0, 999),
})


class Model:
    """stands for a Keras model with a linear output"""

    def __init__(self, c):
        self.c = c

    def predict(self, x, batch_size=32, **kw):
        x = np.asarray(x)
        y = np.concatenate([x[i : i + batch_size].sum(axis=(1, 2)) for i in range(0, len(x), batch_size)])
        return y[:, None] if self.c["shape"] == "column" else y


def body_predict(c, ctx):
    X = np.random.RandomState(c["seed"]).randint(-9, 10, size=(c["n"], 3, 2)).astype(c["dtype"])
    fr = Frozen(X=X)
    kw = {"batch_size": c["batch"]} if c["batch"] else {}
    y = call(iu.run_inference, Model(c), X, **kw)
    fr.check("run_inference")
    require(np.shape(y) == (c["n"],) and np.asarray(y).dtype == np.float32, "output %s %s", np.shape(y), np.asarray(y).dtype)
    same(np.asarray(y), X.sum(axis=(1, 2)), "output of the model", 0, 0)
    return c["n"] > 1


SUBS = [
    Sub("predict", case_predict, body_predict, 60, 300, rule="more than one window"),
    Sub("samples", data_case(), body_samples, 200, 2500, rule="more than one complete window"),
    Sub("store", case_store(), body_store, 200, 2500, rule="more than one prediction"),
    Sub("large_samples", data_case(large=True), body_samples, 10, 200, rule="more than one complete window"),
    Sub("large_store", case_store(True), body_store, 10, 200, rule="more than one prediction"),
    Sub("large", case_cnn(True), body_cnn, 4, 60, rule="more than one complete window"),
    Sub("classification", case_cnn(), body_cnn, 50, 400, rule="more than one complete window"),
]
ASSUMPTIONS = [
    "CPU only",
    "models: one dense layer with weights of its own for each position and variable, in half of the cases behind "
    "dropout and batch normalisation, which have to be inactive",
]
