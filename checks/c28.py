"""C28 caches of downloaded models, with faults, and kills during a download

The server runs on the loopback interface; caches, working directory and HOME
are in a temporary directory.
"""
import http.server
import os
import signal
import tempfile
import threading
import time
import zlib
from pathlib import Path

import numpy as np
import torch
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Sub, call, must_raise, quiet, require

from pycomlink.processing.pytorch_utils import inference_utils as pt
from pycomlink.processing.pytorch_utils import run_inference as pt_run
from pycomlink.processing.tensorflow_utils import inference_utils as tf

LEVEL = "fault_enumeration"
torch.set_num_threads(1)


class Server:
    """content of each path, and how the next request is answered"""

    def __init__(self):
        self.content = {}
        self.fault = None
        self.requests = []
        self.stalled = threading.Event()
        self.release = threading.Event()
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                outer.requests.append(self.path)
                fault = outer.fault
                if self.path not in outer.content or fault == "404":
                    self.send_error(404)
                    return
                if fault == "drop":  # no answer at all
                    self.close_connection = True
                    return
                if fault == "500":
                    self.send_error(500)
                    return
                body = outer.content[self.path]
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                if fault == "meet":  # halfway, wait for the other requests
                    self.wfile.write(body[: len(body) // 2])
                    self.wfile.flush()
                    try:
                        outer.meet.wait(0.7)
                    except threading.BrokenBarrierError:
                        pass
                    time.sleep(outer.late.get(self.path, 0) * outer.rank())
                    self.wfile.write(body[len(body) // 2 :])
                    return
                if isinstance(fault, list):  # ["cut", fraction] or ["stall", fraction]
                    k = max(0, min(len(body) - 1, int(len(body) * fault[1])))
                    self.wfile.write(body[:k])
                    self.wfile.flush()
                    if fault[0] == "stall":
                        outer.stalled.set()
                        outer.release.wait(20)
                    self.close_connection = True
                    return
                self.wfile.write(body)

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.httpd = S(("127.0.0.1", 0), H)
        self.base = "http://127.0.0.1:%d" % self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()

    def reset(self):
        self.content, self.fault, self.requests = {}, None, []
        self.stalled.clear()
        self.release.clear()
        self.late, self.n = {}, 0

    def rank(self):
        self.n += 1
        return self.n


_server = []


def server():
    if not _server:
        for k in ("http_proxy", "HTTP_PROXY", "https_proxy", "all_proxy", "ALL_PROXY"):
            os.environ.pop(k, None)
        os.environ["no_proxy"] = "*"
        _server.append(Server())
    _server[0].reset()
    return _server[0]


PATHS = [
    "/a/model.pt", "/b/model.pt", "/model.pt", "/a/model.json", "/b/model.json", "/a/model.pt?v=1", "/a/model.pt?v=2",
    "/A/model.pt", "/a/model.PT", "/a/model.pt?", "/a/model.pt/", "/a/model.pt.gz", "/a/model.pt?V=1", "/a%20b/model.pt", "/a%2Fmodel.pt", "/a/w.weights.h5", "/b/w.weights.h5", "/x/best_model_jit.pt", "/amodel.pt",
]


def blob(path, version, size):
    if size < 0:
        return b""
    r = np.random.RandomState(zlib.crc32(("%s:%d" % (path, version)).encode()))
    return b"%s %d " % (path.encode(), version) + r.bytes(size)


class World:
    """temporary HOME and working directory"""

    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="verif-c28-")
        self.dir = os.path.realpath(self.tmp.name)
        self.home, self.cwd = os.environ.get("HOME"), os.getcwd()
        os.makedirs(os.path.join(self.dir, "home"))
        os.makedirs(os.path.join(self.dir, "work"))
        os.environ["HOME"] = os.path.join(self.dir, "home")
        os.chdir(os.path.join(self.dir, "work"))
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        if self.home is not None:
            os.environ["HOME"] = self.home
        self.tmp.cleanup()


FAULTS = st.one_of(
    st.none(), st.none(), st.sampled_from(["404", "500", "drop"]),
    st.floats(0, 0.99).map(lambda x: ["cut", round(x, 2)]),
)


@st.composite
def case_history(draw):
    some = st.sampled_from(PATHS)
    if draw(st.booleans()):
        # nearly the same
        some = st.sampled_from([p for p in PATHS if "/a/model.pt" in p or p.lower() == "/a/model.pt"])
    paths = draw(st.lists(some, min_size=1, max_size=3, unique=True))
    op = st.one_of(
        st.fixed_dictionaries({
            "op": st.just("get"), "path": st.sampled_from(paths), "force": st.sampled_from([False, False, True]),
            "dir": st.integers(0, 1), "fault": FAULTS,
        }),
        st.fixed_dictionaries({"op": st.just("publish"), "path": st.sampled_from(paths), "size": st.sampled_from([-1, 0, 10, 9000, 70000])}),
        st.fixed_dictionaries({"op": st.just("clear"), "dir": st.integers(0, 1)}),
    )
    return {
        "which": draw(st.sampled_from(["torch", "tf"])), "paths": paths,
        "ops": draw(st.lists(op, min_size=1, max_size=10)),
        "kind": draw(st.sampled_from(["abs", "path", "default"])),
    }


def dirs(w, c):
    if c["kind"] == "default" and c["which"] == "torch":
        return [None, os.path.join(w.dir, "work", "second", "cache")]
    d = [os.path.join(w.dir, "work", "first"), os.path.join(w.dir, "work", "second", "cache")]
    return [Path(x) for x in d] if c["kind"] == "path" else d


def default_dir(w):
    return os.path.join(w.dir, "home", ".cml_wd_pytorch", "models")


def get(c, url, d, force):
    kw = {"force_download": True} if force else {}
    if c["which"] == "tf":
        return tf.download_and_cache(url, d, **kw)
    if d is None:
        return pt.download_and_cache_model(url, **kw)
    return pt.download_and_cache_model(url, d, **kw)


def body_history(c, ctx):
    s = server()
    version = {p: 0 for p in c["paths"]}
    for p in c["paths"]:
        s.content[p] = blob(p, 0, 20)
    faults = hits = 0
    with World() as w:
        ds = dirs(w, c)
        cached = [{}, {}]  # per directory: path on the server -> (file, content)
        for n, o in enumerate(c["ops"]):
            if o["op"] == "publish":
                version[o["path"]] += 1
                s.content[o["path"]] = blob(o["path"], version[o["path"]], o["size"])
                continue
            k = o["dir"]
            if o["op"] == "clear":
                if c["which"] == "torch":
                    call(pt.clear_model_cache, *([] if ds[k] is None else [ds[k]]))
                    for f, _ in cached[k].values():
                        require(not os.path.exists(f), "step %d: %s is there after the cache was cleared", n, f)
                    cached[k] = {}
                    root = default_dir(w) if ds[k] is None else ds[k]
                    left = os.listdir(root) if os.path.isdir(root) else []
                    require(not left, "step %d: %s left in a cache which was cleared", n, left)
            else:
                p, m = o["path"], cached[k]
                fetch = o["force"] or p not in m
                s.fault = o["fault"]
                s.requests = []
                url = s.base + p
                broken = o["fault"] is not None and not (isinstance(o["fault"], list) and not s.content[p])
                try:
                    if fetch and broken:
                        must_raise(Exception, get, c, url, ds[k], o["force"])
                        faults += 1
                    else:
                        f = call(get, c, url, ds[k], o["force"])
                        require(os.path.isfile(f), "step %d: %s does not exist", n, f)
                        root = os.path.join(w.dir, "home") if ds[k] is None else str(ds[k])
                        require(os.path.realpath(f).startswith(os.path.realpath(root) + os.sep),
                                "step %d: %s is not in the cache directory %s", n, f, root)
                        if fetch:
                            m[p] = (str(f), s.content[p])
                            require(len(s.requests) == 1, "step %d: %d requests instead of one", n, len(s.requests))
                        else:
                            hits += 1
                            require(not s.requests, "step %d: cached, but downloaded again", n)
                            require(str(f) == m[p][0], "step %d: other file %s than before", n, f)
                finally:
                    s.fault = None
            verify(c, ds, cached, n)
    ctx.label(c["which"])
    ctx.label("failed downloads", faults > 0)
    ctx.label("cache hits", hits > 0)
    return faults + hits > 0


def verify(c, ds, cached, n):
    for k in range(2):
        for p, (f, content) in cached[k].items():
            require(os.path.isfile(f), "step %d: cached file of %s is gone", n, p)
            with open(f, "rb") as fh:
                got = fh.read()
            require(got == content, "step %d: cached file of %s has other content (%d bytes, expected %d)",
                    n, p, len(got), len(content))
        files = [f for f, _ in cached[k].values()]
        require(len(set(files)) == len(files), "step %d: two URLs share a file", n)
        if c["which"] == "torch":
            got = call(pt.list_cached_models, *([] if ds[k] is None else [ds[k]]))
            require(sorted(map(str, got)) == sorted(files), "step %d: list of cached models %s, expected %s",
                    n, sorted(map(str, got)), sorted(files))
            if ds[k] is not None and os.path.isdir(ds[k]):
                # files of another kind are listed by their ending
                other = os.path.join(str(ds[k]), "other.pth")
                with open(other, "wb"):
                    pass
                got = call(pt.list_cached_models, ds[k], suffix=".pth")
                require([str(x) for x in got] == [other], "step %d: files with the ending .pth: %s", n, got)
                got = call(pt.list_cached_models, ds[k])
                require(sorted(map(str, got)) == sorted(files), "step %d: list of cached models %s", n, got)
                os.remove(other)


# ---- a process killed in the middle of a download
case_kill = st.fixed_dictionaries({
    "which": st.sampled_from(["torch", "tf"]),
    "path": st.sampled_from(PATHS),
    "size": st.sampled_from([100, 30000, 200000]),
    "at": st.floats(0, 0.999).map(lambda x: round(x, 3)),
    "cached": st.booleans(),
    "kind": st.sampled_from(["abs", "default"]),
    "delay_ms": st.integers(0, 30),
})


def body_kill(c, ctx):
    s = server()
    p = c["path"]
    url = s.base + p
    s.content[p] = old = blob(p, 0, c["size"])
    with World() as w:
        d = dirs(w, c)[0]
        if c["cached"]:
            call(get, c, url, d, False)
        s.content[p] = new = blob(p, 1, c["size"])
        s.fault = ["stall", c["at"]]
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(20)
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                get(c, url, d, c["cached"])
            finally:
                os._exit(0)
        reached = s.stalled.wait(10)
        time.sleep(c["delay_ms"] / 1000)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        s.release.set()
        s.fault = None
        s.requests = []
        f = call(get, c, url, d, False)
        with open(f, "rb") as fh:
            got = fh.read()
        expect = [old, new] if c["cached"] else [new]
        require(got in expect, "after a killed download the cached file has %d bytes, complete are %d", len(got), len(new))
        require(got == old or len(s.requests) == 1, "%d requests after the killed download", len(s.requests))
        if c["which"] == "torch":
            got = call(pt.list_cached_models, *([] if d is None else [d]))
            require([str(x) for x in got] == [str(f)], "list of cached models %s", got)
            call(pt.clear_model_cache, *([] if d is None else [d]))
            left = os.listdir(default_dir(w) if d is None else d)
            require(not left, "%s left in a cache which was cleared", left)
    ctx.label("killed with an older version in the cache", c["cached"])
    return reached


# ---- downloads at the same time
@st.composite
def case_concurrent(draw):
    paths = draw(st.lists(st.sampled_from(PATHS), min_size=1, max_size=3, unique=True))
    return {
        "which": draw(st.sampled_from(["torch", "tf"])), "kind": draw(st.sampled_from(["abs", "path"])),
        "get": draw(st.lists(st.sampled_from(paths), min_size=2, max_size=4)),
        "size": draw(st.sampled_from([20, 5000, 300000])),
        "late": draw(st.sampled_from([0, 0.005, 0.03])),
        "force": draw(st.booleans()), "cached": draw(st.booleans()),
    }


def body_concurrent(c, ctx):
    """several users of a cache, each gets the complete content of his URL"""
    s = server()
    for p in set(c["get"]):
        s.content[p] = blob(p, 0, c["size"])
        s.late[p] = c["late"]
    with World() as w:
        d = dirs(w, c)[0]
        if c["cached"]:
            for p in set(c["get"]):
                call(get, c, s.base + p, d, False)
        out = {}

        def user(i, p):
            try:
                f = get(c, s.base + p, d, c["force"])
                with open(f, "rb") as fh:
                    out[i] = (str(f), fh.read())
            except BaseException as e:  # noqa: BLE001
                out[i] = e

        s.fault, s.meet = "meet", threading.Barrier(len(c["get"]))
        s.requests = []
        threads = [threading.Thread(target=user, args=a) for a in enumerate(c["get"])]
        with quiet():
            for t in threads:
                t.start()
            for t in threads:
                t.join(60)
        s.fault = None
        for i, p in enumerate(c["get"]):
            require(not isinstance(out[i], BaseException), "download of %s together with others raised %r", p, out[i])
            require(out[i][1] == s.content[p], "%s, downloaded together with others, has %d bytes instead of %d, or other ones",
                    p, len(out[i][1]), len(s.content[p]))
        require(not (c["cached"] and not c["force"]) or not s.requests, "cached, but downloaded again")
        s.requests = []
        files = {}
        for p in set(c["get"]):
            files[p] = str(call(get, c, s.base + p, d, False))
            with open(files[p], "rb") as fh:
                require(fh.read() == s.content[p], "content of %s after concurrent downloads", p)
        require(not s.requests, "downloaded again after concurrent downloads")
        if c["which"] == "torch":
            got = call(pt.list_cached_models, d)
            require(sorted(map(str, got)) == sorted(files.values()), "list of cached models %s", got)
    ctx.label("the same URL", len(set(c["get"])) < len(c["get"]))
    return c["force"] or not c["cached"]


# ---- many URLs, all of them nearly the same
case_many = st.fixed_dictionaries({
    "which": st.sampled_from(["torch", "tf"]), "kind": st.sampled_from(["abs", "path"]),
    "base": st.sampled_from(["/a/model.pt", "/x/y/best_model.json", "/w.h5"]),
    "numbers": st.sampled_from([0, 0, 300]), "order": st.integers(0, 999),
})


def body_many(c, ctx):
    s = server()
    b = c["base"]
    paths = [
        b, b + "/", b.upper(), b + "?", b + "?v=1", b + "?v=2", b + "?V=1", b + "?v=1&w=1", b + "%20", b + ".gz", b + "_", "/z" + b,
        b.replace("/", "/v1/", 1), b.replace("/", "/v2/", 1), b.replace("/", "/V1/", 1), "/q/" + b, b.replace("/", "/./", 1),
        b.replace("m", "%6d"), b.replace("e", "E"), b.replace("/", "%2F").replace("%2F", "/", 1), b + "?url=http://h/x", b[:-1],
    ] + ["/%d%s" % (i, b) for i in range(c["numbers"])]
    paths = list(dict.fromkeys(paths))
    np.random.RandomState(c["order"]).shuffle(paths)
    for p in paths:
        s.content[p] = blob(p, 0, 20)
    with World() as w:
        d = dirs(w, c)[0]
        files = {}
        for p in paths:
            files[p] = str(call(get, c, s.base + p, d, False))
        for p in paths:
            with open(files[p], "rb") as fh:
                require(fh.read() == s.content[p], "%s has the content of another URL", p)
        require(len(s.requests) == len(paths), "%d requests for %d URLs", len(s.requests), len(paths))
        for p in paths:
            require(str(call(get, c, s.base + p, d, False)) == files[p], "another file for %s", p)
        require(len(s.requests) == len(paths), "cached, but downloaded again")
    return True


# ---- loading models by URL
class Tiny(torch.nn.Module):
    def __init__(self, b: float):
        super().__init__()
        self.b = b

    def forward(self, x):
        return x.mean(dim=2).mean(dim=1) * 0 + self.b


_pt = {}


def tiny(b):
    if b not in _pt:
        with tempfile.TemporaryDirectory(prefix="verif-c28-") as d:
            f = os.path.join(d, "m.pt")
            torch.jit.script(Tiny(b)).save(f)
            with open(f, "rb") as fh:
                _pt[b] = fh.read()
    return _pt[b]


case_load = st.fixed_dictionaries({
    "ops": st.lists(
        st.tuples(st.sampled_from(["/a/m.pt", "/b/m.pt", "/c/model"]), st.sampled_from([0.25, 0.5, 0.75]), st.booleans(),
                  st.sampled_from([None, None, None, "404", ["cut", 0.5]])).map(list),
        min_size=1, max_size=5),
    "cnn": st.booleans(),
})


def body_load(c, ctx):
    s = server()
    data = xr.DataArray(np.zeros((181, 1, 1)), dims=["time", "channel_id", "cml_id"],
                        coords={"time": np.arange(181), "cml_id": ["x"]}, name="tl")
    have = {}
    with World():
        for p, b, force, fault in c["ops"]:
            s.content[p] = tiny(b)
            s.fault = fault
            s.requests = []
            fetch = force or p not in have
            f = (lambda *a: pt_run.cnn_wd(a[0], data, force_download=a[1])) if c["cnn"] else pt.get_model
            if fetch and fault:
                must_raise(Exception, f, s.base + p, force)
                continue
            out = call(f, s.base + p, force)
            if fetch:
                have[p] = b
            require(len(s.requests) == (1 if fetch else 0), "%d requests, expected %d", len(s.requests), int(fetch))
            if c["cnn"]:
                v = out.predictions.values
                v = v[~np.isnan(v)]
            else:
                with quiet():
                    v = out(torch.zeros((2, 1, 180))).detach().numpy()
            require(len(v) == 2 and (v == have[p]).all(), "model %s of %s is not the one expected (%s)", v, p, have[p])
    return len(c["ops"]) > 1


# ---- model files of the TensorFlow part
SRC = st.one_of(
    st.sampled_from(PATHS).map(lambda p: ["url", p]),
    st.sampled_from(["m.json", "dir/m.json", "/abs/w.h5", "httpdir/x", "https.json", "ftp/x"]).map(lambda p: ["file", p]),
)
case_resolve = st.fixed_dictionaries({
    "json": SRC, "weights": SRC, "dir": st.sampled_from([None, "cache", "deep/er"]), "force": st.booleans(),
    "again": st.booleans(),
})


def body_resolve(c, ctx):
    s = server()
    with World() as w:
        kw = {} if c["dir"] is None else {"cache_dir": c["dir"]}
        root = os.path.join(w.dir, "work", c["dir"] or "model_cnn")
        src = []
        for k in ("json", "weights"):
            kind, p = c[k]
            if kind == "url":
                s.content[p] = blob(p, 0, 10)
                src.append(s.base + p)
            else:
                src.append(p)
            require(call(tf.is_url, src[-1]) == (kind == "url"), "is_url(%r)", src[-1])
        require(call(tf.is_url, "https://x.org/a"), "is_url of https")
        for n in range(2):
            force = bool(n and c["force"])
            if n:
                for k in ("json", "weights"):
                    if c[k][0] == "url":
                        s.content[c[k][1]] = blob(c[k][1], 1, 20)
            s.requests = []
            out = call(tf.resolve_model_paths, src[0], src[1], force_download=force, **kw)
            require(len(out) == 2 and all(isinstance(x, str) for x in out), "returned %r", out)
            urls = set()
            for k, path in zip(("json", "weights"), out):
                kind, p = c[k]
                if kind == "file":
                    require(os.path.normpath(path) == os.path.normpath(p), "path %s instead of %s", path, p)
                    continue
                urls.add(p)
                require(os.path.realpath(path).startswith(os.path.realpath(root) + os.sep), "%s is not in %s", path, root)
                with open(path, "rb") as fh:
                    got = fh.read()
                v = 1 if force else 0
                require(got == blob(p, v, 20 if v else 10), "content of %s", path)
            require((n == 1 and not force and not s.requests) or set(s.requests) == urls, "requests %s", s.requests)
    return c["json"][0] == "url" or c["weights"][0] == "url"


SUBS = [
    Sub("history", case_history(), body_history, 150, 1200, rule="a download failed or a cached file was used"),
    Sub("kill", case_kill, body_kill, 30, 250, rule="the process was killed while it was downloading"),
    Sub("many", case_many, body_many, 10, 40, rule="all cases"),
    Sub("concurrent", case_concurrent(), body_concurrent, 40, 300, rule="there are downloads at the same time"),
    Sub("load", case_load, body_load, 40, 250, rule="more than one model loaded"),
    Sub("resolve", case_resolve, body_resolve, 60, 600, rule="at least one source is a URL"),
]
ASSUMPTIONS = [
    "several threads, but one process at a time, use a cache; the server tells the length of a file",
    "faults: HTTP errors, connections closed without an answer, connections cut after any part of the file, SIGKILL during a download",
]
