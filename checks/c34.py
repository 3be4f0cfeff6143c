"""C34 optional packages: TensorFlow is loaded on demand, and installed only with consent

No process is started: subprocess.Popen is a stand-in which records the command.
"""
import contextlib
import os
import subprocess
import sys
import types
import urllib.request

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from pbt.core import Sub, Violation, quiet, require

from pycomlink.processing.tensorflow_utils import lazy_tf, run_inference

REAL_POPEN = subprocess.Popen


class World:
    """what is installed, what the processes do"""

    def __init__(self, c):
        self.c = c
        self.commands = []
        self.downloads = []
        self.module = types.ModuleType("tensorflow")
        self.module.config = types.SimpleNamespace(
            list_physical_devices=lambda kind=None: ["gpu"] if c["tf_gpu"] else []
        )
        self.set_available(c["available"])

    def set_available(self, on):
        self.available = on
        sys.modules["tensorflow"] = self.module if on else None

    def run(self, args):
        """exit code of a command, None: no such program"""
        args = [args] if isinstance(args, str) else [str(a) for a in args]
        self.commands.append(args)
        if "pip" in " ".join(args):
            if self.c["pip"] == "fails":
                return 1
            if self.c["pip"] == "works":
                self.set_available(True)
            return 0
        if "nvidia-smi" in args[0]:
            return {"gpu": 0, "broken": 9, "none": None}[self.c["smi"]]
        return None

    def pip(self):
        return [a for a in self.commands if "pip" in " ".join(a)]


def fake_popen(world):
    class Popen:
        def __init__(self, args, *a, **k):
            self.args = args
            self.stdin = self.stdout = self.stderr = None
            self.pid = 0
            self.returncode = world.run(args)
            if self.returncode is None:
                raise FileNotFoundError(2, "No such file or directory", str(args))
            self.text = k.get("text") or k.get("universal_newlines") or k.get("encoding")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def communicate(self, *a, **k):
            return ("", "") if self.text else (b"", b"")

        def wait(self, *a, **k):
            return self.returncode

        def poll(self):
            return self.returncode

        def kill(self):
            pass

        terminate = kill

    return Popen


@contextlib.contextmanager
def world_of(c):
    saved = {k: v for k, v in sys.modules.items() if k == "tensorflow"}
    saved_tf, env = lazy_tf.tf, os.environ.get("ALLOW_TF_AUTOINSTALL")
    saved_calls = os.system, urllib.request.urlretrieve, urllib.request.urlopen
    lazy_tf.tf = None
    try:
        w = World(c)
        subprocess.Popen = fake_popen(w)
        os.system = lambda cmd: w.run(cmd) or 0

        def download(*a, **k):
            w.downloads.append(a)
            raise OSError("no network")

        urllib.request.urlretrieve = urllib.request.urlopen = download
        yield w
    finally:
        subprocess.Popen = REAL_POPEN
        os.system, urllib.request.urlretrieve, urllib.request.urlopen = saved_calls
        lazy_tf.tf = saved_tf
        sys.modules.pop("tensorflow", None)
        sys.modules.update(saved)
        set_env(env)


def set_env(value):
    if value is None:
        os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
    else:
        os.environ["ALLOW_TF_AUTOINSTALL"] = value


op = st.fixed_dictionaries(
    {
        "env": st.sampled_from([None, None, None, "1", "0", "", "false"]),
        "auto": st.sampled_from([None, False, None, False, True]),
        "how": st.sampled_from(["get_tf", "get_tf", "ensure", "cnn"]),
        "change": st.sampled_from([None, None, None, True]),
    }
)
case = st.fixed_dictionaries(
    {
        "available": st.sampled_from([False, False, False, True]),
        "pip": st.sampled_from(["works", "works", "fails", "useless"]),
        "smi": st.sampled_from(["none", "gpu", "broken"]),
        "tf_gpu": st.booleans(),
        "ops": st.lists(op, min_size=1, max_size=5),
    }
)


def body(c, ctx):
    asked = False
    with world_of(c) as w:
        loaded = None
        for o in c["ops"]:
            if o["change"] and not w.available:
                w.set_available(True)  # the user installed it
            set_env(o["env"])
            before = len(w.pip())
            had = w.available
            consent = bool(o["auto"]) or o["env"] == "1"
            reuse = loaded is not None and o["how"] != "ensure"
            result = error = None
            try:
                with quiet():
                    result = act(o)
            except Exception as e:  # noqa: BLE001
                error = e
            ran = w.pip()[before:]
            what = "%s(auto_install=%s) with ALLOW_TF_AUTOINSTALL=%r, TensorFlow %savailable" % (
                o["how"], o["auto"], o["env"], "" if had else "not ")
            for a in w.commands:
                require("pip" in " ".join(a) or "nvidia-smi" in a[0], "%s started %s", what, a)
            if had or reuse:
                require(not ran, "%s ran %s", what, ran)
                check_loaded(o, w, result, error, what)
                loaded = w.module if o["how"] != "ensure" else loaded
                continue
            asked = True
            pkg = "tensorflow[and-cuda]" if c["smi"] == "gpu" else "tensorflow"
            if not consent:
                require(not ran, "%s: installation without consent, %s", what, ran)
                require(isinstance(error, ImportError), "%s: %r instead of ImportError", what, error)
                require(pkg in str(error), "%s: %r does not name %s", what, str(error), pkg)
                require(not w.downloads, "%s downloaded %s", what, w.downloads)
                require(lazy_tf.tf is None or loaded is not None, "%s left %r", what, lazy_tf.tf)
                continue
            require(len(ran) == 1, "%s: installations %s", what, ran)
            require(ran[0][0] == sys.executable and ran[0][-1] == pkg and "install" in ran[0],
                    "%s ran %s, expected pip install %s", what, ran[0], pkg)
            if c["pip"] == "works":
                check_loaded(o, w, result, error, what)
                loaded = w.module if o["how"] != "ensure" else loaded
            else:
                require(error is not None, "%s: failed installation not reported", what)
                require(not w.downloads, "%s downloaded %s", what, w.downloads)
    ctx.label("asked for a missing package", asked)
    ctx.label("consent", any(o["auto"] or o["env"] == "1" for o in c["ops"]))
    return asked


def act(o):
    kw = {} if o["auto"] is None else {"auto_install": o["auto"]}
    if o["how"] == "get_tf":
        return lazy_tf.get_tf(**kw)
    if o["how"] == "ensure":
        return lazy_tf.ensure_tensorflow_installed(**kw)
    ds = xr.Dataset(
        {k: (("time", "cml_id"), np.zeros((3, 1))) for k in ("tl1", "tl2")},
        coords={"time": np.arange(3), "cml_id": ["a"]},
    )
    kw = {} if o["auto"] is None else {"install_tensorflow": o["auto"]}
    try:
        return run_inference.wet_dry_1d_cnn(
            ds, json_url="http://localhost/m.json", weights_url="http://localhost/w.h5",
            cache_dir="/proc/no-such-folder", **kw,
        )
    except OSError:
        return "loaded"  # TensorFlow is there, the model is not


def check_loaded(o, w, result, error, what):
    require(error is None, "%s raised %r", what, error)
    if o["how"] == "cnn":
        require(result == "loaded", "%s returned %r", what, result)
    else:
        require(result is w.module, "%s returned %r", what, result)


case_import = st.fixed_dictionaries(
    {
        "missing": st.lists(st.sampled_from(["tensorflow", "torch"]), max_size=2, unique=True).map(sorted),
        "tf_utils": st.booleans(),
        "torch_utils": st.booleans(),
    }
)


def body_import(c, ctx):
    """pycomlink can be imported without the optional packages, and does not load them"""
    import pycomlink

    repo = os.path.dirname(os.path.dirname(os.path.abspath(pycomlink.__file__)))
    src = "import sys; sys.path.insert(0, %r)\n" % repo
    src += "from importlib.machinery import PathFinder as P\nfind = P.find_spec\n"
    src += "P.find_spec = staticmethod(lambda n, *a, **k: None if n in %r else find(n, *a, **k))\n" % (c["missing"],)
    src += "import pycomlink, pycomlink.processing.k_R_relation, pycomlink.processing.nearby_rain_retrival\n"
    if c["tf_utils"]:
        src += "import pycomlink.processing.tensorflow_utils\n"
    if c["torch_utils"] and "torch" not in c["missing"]:
        src += "import pycomlink.processing.pytorch_utils.run_inference\n"
    src += "import os\nprint('CONSENT', 'ALLOW_TF_AUTOINSTALL' in os.environ)\n"
    src += "sys.modules.pop('torch', None)\n" if c["torch_utils"] else ""
    src += "print('LOADED', [m for m in ('tensorflow', 'torch') if sys.modules.get(m) is not None])\n"
    r = subprocess.run([sys.executable, "-c", src], capture_output=True, text=True, cwd="/", timeout=100,
                       env={k: v for k, v in os.environ.items() if k != "ALLOW_TF_AUTOINSTALL"})
    require(r.returncode == 0, "import without %s failed: %s", c["missing"], r.stderr[-300:])
    require("CONSENT False" in r.stdout, "importing pycomlink gives consent to installations")
    require("LOADED []" in r.stdout, "importing pycomlink loads %s", r.stdout.strip()[-80:])
    return bool(c["missing"])


SUBS = [
    Sub("tensorflow", case, body, 300, 3000, rule="TensorFlow is asked for while it is missing"),
    Sub("import", case_import, body_import, 3, 10, rule="an optional package is missing"),
]
ASSUMPTIONS = ["subprocess.Popen, os.system and urllib are stand-ins which record; nothing is installed"]
