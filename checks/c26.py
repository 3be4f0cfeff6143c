"""C26 reading cmlh5 files"""
import math
import os
import tempfile

import h5py
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Sub, Violation, arr, call, quiet, require, same
from pbt.gen import dyadic, fill, or_nan

from pycomlink.io import examples
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as read

from checks.c11 import ref as great_circle

SITES = ["site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"]


@st.composite
def channel(draw, base, large=False):
    kind = draw(st.sampled_from(["common", "common", "own"]))
    t = base
    if kind == "own":
        t = sorted(
            draw(st.lists(st.integers(1_400_000_000, 1_400_000_000 + 5000), min_size=1, max_size=12, unique=True))
        )
    v = or_nan(st.one_of(dyadic(-90, 30, 4), st.floats(-99, 30, width=32), st.floats(-99, 30)), 7)
    return {
        "t": t,
        "tx": fill(draw, v, len(t), large),
        "rx": fill(draw, v, len(t), large),
        "f": draw(st.one_of(st.sampled_from([22.5e9, 18.0e9, 38.1e9]), st.floats(1e9, 9e10))),
        "pol": draw(st.sampled_from(["H", "V", "Vertical"])),
    }


@st.composite
def cml(draw, name, large=False):
    n = draw(st.integers(1, 12))
    if large:
        n = draw(st.sampled_from([5, 80, 400]))
    t0 = draw(st.integers(1_300_000_000, 1_900_000_000))
    base = [t0 + 60 * i for i in range(n)]
    k = draw(st.integers(1, 3))
    lat, lon = st.floats(-80, 80), st.floats(-179, 179)
    a = [draw(lat), draw(lon)]
    if draw(st.booleans()):
        d = dyadic(-1, 1, 16)
        b = [a[0] + draw(d), a[1] + draw(d)]
    else:
        b = [draw(lat), draw(lon)]
    names = draw(st.sampled_from([["channel_1", "channel_2", "channel_3"], ["b", "a", "c"], ["2", "10", "1"]]))
    if large:
        k = draw(st.sampled_from([1, 2, 6, 11]))
        names = ["channel_%d" % (i + 1) for i in range(k)]
    return {
        "group": name, "id": draw(st.sampled_from([name, "id-" + name])),
        "a": a, "b": b,
        "channels": {names[i]: draw(channel(base, large)) for i in range(k)},
        "time_type": draw(st.sampled_from(["int", "float"])),
    }


@st.composite
def case(draw):
    names = draw(st.lists(st.sampled_from(["cml_0001", "cml_0002", "cml_10", "x", "MY1", "57"]), min_size=1, max_size=4, unique=True))
    return {
        "files": [
            [draw(cml(n)) for n in names],
            [draw(cml(n)) for n in names[:1]],
        ]
    }


@st.composite
def case_large(draw):
    k = draw(st.sampled_from([2, 9, 25]))
    pool = [draw(cml("x", True)) for _ in range(3)]
    first = []
    for i in range(k):
        c = dict(pool[i % 3], group="cml_%d" % i, id="cml_%d" % (1000 - i))
        c["a"] = [c["a"][0] + 0.01 * i, c["a"][1]]
        first.append(c)
    return {"files": [first, [draw(cml("x"))]]}


def write(path, cmls):
    with h5py.File(path, "w") as f:
        for c in cmls:
            g = f.create_group(c["group"])
            g.attrs["cml_id"] = c["id"]
            for k, v in zip(SITES, (c["a"][0], c["b"][0], c["a"][1], c["b"][1])):
                g.attrs[k] = v
            for name, ch in c["channels"].items():
                h = g.create_group(name)
                h["time"] = np.array(ch["t"], dtype="int64" if c["time_type"] == "int" else float)
                h["tx"], h["rx"] = arr(ch["tx"]), arr(ch["rx"])
                h.attrs["frequency"] = ch["f"]
                h.attrs["polarization"] = ch["pol"]


def verify(ds_list, cmls):
    require(len(ds_list) == len(cmls), "%d CMLs, expected %d", len(ds_list), len(cmls))
    by = {str(ds.cml_id.values): ds for ds in ds_list}
    require(set(by) == {c["id"] for c in cmls}, "IDs %s", sorted(by))
    require([str(d.cml_id.values) for d in ds_list] == [c["id"] for c in sorted(cmls, key=lambda c: c["group"])],
            "order of the CMLs")
    for c in cmls:
        ds = by[c["id"]]
        for k, v in zip(SITES, (c["a"][0], c["b"][0], c["a"][1], c["b"][1])):
            require(float(ds[k]) == v, "%s is %r, expected %r", k, ds[k].values, v)
        L = great_circle(c["a"][1], c["a"][0], c["b"][1], c["b"][0])
        if L < 6367 * 3.1:
            same(float(ds.length), L, "length", 1e-6, 1e-5)
        require(sorted(ds.channel_id.values.tolist()) == sorted(c["channels"]), "channels %s", ds.channel_id.values)
        union = sorted({t for ch in c["channels"].values() for t in ch["t"]})
        times = pd.DatetimeIndex(ds.time.values)
        require(list(times) == [pd.Timestamp(t, unit="s") for t in union], "time stamps %s", list(times)[:5])
        for name, ch in c["channels"].items():
            s = ds.sel(channel_id=name)
            same(float(s.frequency), ch["f"] / 1e9, "frequency in GHz", 1e-12, 0)
            require(str(s.polarization.values) == ch["pol"], "polarization %s", s.polarization.values)
            for var, key in (("tsl", "tx"), ("rsl", "rx")):
                d = dict(zip(ch["t"], ch[key]))
                e = [math.nan if d.get(t) is None else d[t] for t in union]
                same(s[var].values, np.array(e, dtype=float), "%s of channel %s" % (var, name), 0, 0)


def body(c, ctx):
    with tempfile.TemporaryDirectory(prefix="verif-c26-") as d:
        path = os.path.join(d, "data.h5")
        write(path, c["files"][0])
        first = call(read, path)
        verify(first, c["files"][0])
        # another file of the same name, the first data stay as they are
        write(path, c["files"][1])
        verify(call(read, path), c["files"][1])
        os.remove(path)
        verify(first, c["files"][0])
    k = c["files"][0]
    ctx.label("several channels", any(len(x["channels"]) > 1 for x in k))
    ctx.label("channels with other time stamps", any(
        len({tuple(ch["t"]) for ch in x["channels"].values()}) > 1 for x in k))
    return any(len(x["channels"]) > 1 for x in k)


DATA = os.path.join(os.path.dirname(examples.__file__), "example_data")
_cache = {}


def example(name):
    if name not in _cache:
        _cache[name] = call(examples.get_one_cml) if name == "one_cml.h5" else call(examples.get_75_cmls)
    return _cache[name]


@st.composite
def case_ex(draw):
    return {
        "file": draw(st.sampled_from(["75_cmls.h5", "75_cmls.h5", "one_cml.h5"])),
        "i": draw(st.integers(0, 74)), "channel": draw(st.integers(0, 1)), "from": draw(st.integers(0, 5000)),
    }


def body_ex(c, ctx):
    with h5py.File(os.path.join(DATA, c["file"]), "r") as f:
        groups = sorted(f)
        i = c["i"] % len(groups)
        g = f[groups[i]]
        names = sorted(g)
        name = names[c["channel"] % len(names)]
        ds = example(c["file"])
        ds = ds if c["file"] == "one_cml.h5" else ds[i]
        s = ds.sel(channel_id=name)
        require(str(ds.cml_id.values) == str(g.attrs["cml_id"]), "ID")
        for k in SITES:
            require(float(ds[k]) == float(g.attrs[k]), k)
        same(float(s.frequency), g[name].attrs["frequency"] / 1e9, "frequency", 1e-12, 0)
        sl = slice(c["from"], c["from"] + 500)
        t = pd.to_datetime(np.round(g[name]["time"][sl] * 1000).astype("int64"), unit="ms")
        if len(t):
            d = {k: s[k].to_series().reindex(t, method="nearest", tolerance="1ms") for k in ("rsl", "tsl")}
            same(d["rsl"].values, g[name]["rx"][sl], "rsl", 0, 0)
            same(d["tsl"].values, g[name]["tx"][sl], "tsl", 0, 0)
    return len(t) > 0


def body_minmax(c, ctx):
    with quiet():
        try:
            got = examples.get_75_cmls_min_max()
        except KeyError:
            ctx.finding("C26-F1")
            return True
    with h5py.File(os.path.join(DATA, "75_cmls_min_max.h5"), "r") as f:
        require(len(got) == len(f), "CMLs with min/max data")
    return True


SUBS = [
    Sub("round_trip", case(), body, 60, 500, rule="a CML with several channels"),
    Sub("large", case_large(), body, 5, 80, rule="a CML with several channels"),
    Sub("examples", case_ex(), body_ex, 60, 300, rule="samples in the range"),
    Sub("min_max", st.just({}), body_minmax, 1, 1, rule="all cases"),
]
ASSUMPTIONS = ["time stamps in whole seconds, each channel sorted and without duplicates"]
