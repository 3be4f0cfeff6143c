"""C33 deprecated functions keep working, and say so at the place of the call"""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Frozen, Sub, Violation, arr, require, same

from pycomlink.util.maintenance import DeprecatedWarning, deprecated
from pycomlink.validation.stats import calc_wet_error_rates
from pycomlink.validation.validator import calc_wet_dry_error

names = st.from_regex(r"[a-z][a-z0-9_]{0,7}", fullmatch=True).filter(
    lambda s: s.isidentifier() and s not in ("def", "if", "in", "is", "or", "as", "not", "and",
                                             "for", "try", "del", "pass", "from", "else", "elif",
                                             "with", "while", "class", "return", "import", "yield",
                                             "lambda", "global", "raise", "assert", "async",
                                             "await", "break", "except", "finally", "continue",
                                             "nonlocal", "self")
)
values = st.one_of(st.integers(-5, 5), st.text(max_size=4), st.none(), st.lists(st.integers(), max_size=2))
places = st.tuples(
    st.sampled_from(["/some/where/user.py", "script.py", "<stdin>", "/a b/c.py", "nb.ipynb"]),
    st.integers(4, 400),
).map(list)


@st.composite
def case(draw):
    return {
        "name": draw(names),
        "doc": draw(st.one_of(st.none(), st.text(max_size=20))),
        "text": draw(st.one_of(st.just("Use {} instead."), st.text(max_size=20), st.sampled_from(["100 %", "%s", "{0}"]))),
        "place": draw(places),
        "args": draw(st.lists(values, max_size=3)),
        "kwargs": draw(st.dictionaries(st.one_of(names, st.sampled_from(["func", "instructions", "args", "kwargs", "message"])), values, max_size=3)),
        "kind": draw(st.sampled_from(["func", "func", "method", "static", "class", "nested", "raises", "raises", "generator"])),
        "n": draw(st.integers(1, 3)),
        "error": draw(st.sampled_from(["own", "own", "StopIteration", "KeyError", "SystemExit", "KeyboardInterrupt", "Warning"])),
        "from": draw(st.sampled_from(["module", "function", "method", "class", "lambda", "comprehension"])),
    }


def call_at(place, func, args, kwargs, how="module"):
    """call func from code that stands at a given place"""
    env = {"func": func, "args": args, "kwargs": kwargs}
    if how == "module":
        src = "\n" * (place[1] - 1) + "result = func(*args, **kwargs)\n"
        exec(compile(src, place[0], "exec"), env)
        return env["result"]
    # from within a function or method; called from here, another place
    src = {
        "function": "def g(): %sreturn func(*args, **kwargs)\n",
        "method": "class K:\n def g(self): %sreturn func(*args, **kwargs)\ng = K().g\n",
        "class": "class K:\n @classmethod\n def g(cls): %sreturn func(*args, **kwargs)\ng = K.g\n",
        "lambda": "g = lambda: (%sfunc(*args, **kwargs))\n",
        "comprehension": "g = lambda: [%sfunc(*args, **kwargs) for i in [0]][0]\n",
    }[how]
    at = src[: src.index("%s")].count("\n") + 1
    src = "\n" * (place[1] - at) + src % ""
    exec(compile(src, place[0], "exec"), env)
    return env["g"]()


class Special(Exception):
    pass


def body(c, ctx):
    seen = []

    def func(*args, **kwargs):
        seen.append((args, kwargs))
        if c["kind"] == "raises":
            raise err
        return out

    def generator(*args, **kwargs):
        seen.append((args, kwargs))
        yield 1
        yield 2

    kinds = {"own": Special, "StopIteration": StopIteration, "KeyError": KeyError, "SystemExit": SystemExit,
             "KeyboardInterrupt": KeyboardInterrupt, "Warning": DeprecatedWarning}
    out, err = object(), kinds[c["error"]]("x")
    if c["kind"] == "generator":
        func = generator
    func.__name__, func.__doc__ = c["name"], c["doc"]
    func.some_attribute = out
    wrapped = deprecated(c["text"])(func)
    require(wrapped.__name__ == c["name"], "name %r became %r", c["name"], wrapped.__name__)
    require(wrapped.__doc__ == c["doc"], "documentation changed")
    require(getattr(wrapped, "some_attribute", None) is out, "attribute of the function lost")
    target, first = wrapped, ()
    if c["kind"] in ("method", "static", "class"):
        wrap = {"static": staticmethod, "class": classmethod}.get(c["kind"], lambda f: f)
        cls = type("K", (), {"m": wrap(wrapped)})
        obj = cls()
        target = obj.m
        first = {"method": (obj,), "static": (), "class": (cls,)}[c["kind"]]
    elif c["kind"] == "nested":
        target = deprecated("outer")(wrapped)
    args, kwargs = list(c["args"]), dict(c["kwargs"])
    for i in range(c["n"]):
        place = [c["place"][0], c["place"][1] + (i % 2)]
        del seen[:]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                got = call_at(place, target, args, kwargs, c["from"])
            except BaseException as e:  # noqa: BLE001
                if c["kind"] == "raises":
                    while e is not err and isinstance(e, RuntimeError) and e.__cause__ is not None:
                        e = e.__cause__  # a StopIteration which passes through a generator
                    require(e is err, "raised %r", e)
                elif isinstance(e, Exception):
                    raise Violation("call of a deprecated function raised %s: %s" % (type(e).__name__, e)) from e
                else:
                    raise
            else:
                require(c["kind"] != "raises", "exception swallowed")
                if c["kind"] == "generator":
                    require(not seen and iter(got) is got, "generator function returned %r", got)
                    require(list(got) == [1, 2], "values of the generator")
                else:
                    require(got is out, "returned %r instead of the value of the function", got)
        require(len(seen) == 1, "function called %d times", len(seen))
        require(seen[0][0] == first + tuple(args) and seen[0][1] == kwargs,
                "called with %s, passed %s", seen[0], (first + tuple(args), kwargs))
        w = [x for x in w if issubclass(x.category, DeprecatedWarning)]
        require(len(w) == (2 if c["kind"] == "nested" else 1), "%d warnings for one call", len(w))
        require(issubclass(w[0].category, UserWarning), "not a UserWarning")
        text = [str(x.message) for x in w]
        require(all(c["name"] in t for t in text) and any(c["text"] in t for t in text),
                "warning %r without function %r or instructions %r", text, c["name"], c["text"])
        require((w[0].filename, w[0].lineno) == tuple(place), "warning at %s, called at %s",
                (w[0].filename, w[0].lineno), tuple(place))
    # as error: raised before the function runs
    del seen[:]
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        try:
            call_at(c["place"], target, args, kwargs)
        except DeprecatedWarning:
            pass
        except Exception as e:  # noqa: BLE001
            raise Violation("raised %s instead of the warning" % type(e).__name__) from e
        else:
            raise Violation("no warning with warnings as errors")
    require(not seen, "function ran although the warning is an error")
    ctx.label(c["kind"])
    return bool(args or kwargs)


@st.composite
def case_rates(draw):
    n = draw(st.integers(1, 20))
    b = st.lists(st.booleans(), min_size=n, max_size=n)
    return {
        "truth": draw(b), "wet": draw(b), "place": draw(places),
        "kind": draw(st.sampled_from(["series", "np", "dated"])),
        "times": draw(st.sampled_from([1, 1, 1, 300])),
    }


def body_rates(c, ctx):
    t, w = np.repeat(c["truth"], c["times"]), np.repeat(c["wet"], c["times"])
    if c["kind"] != "np":
        idx = pd.date_range("2020-01-01", periods=len(t), freq="min") if c["kind"] == "dated" else None
        t, w = pd.Series(t, index=idx), pd.Series(w, index=idx)
    pairs = list(zip(c["truth"], c["wet"]))
    n_wet = sum(x for x, _ in pairs)
    n_dry = len(pairs) - n_wet
    if not n_wet or not n_dry:
        return False
    missed = sum(x and not y for x, y in pairs) / n_wet
    false = sum(y and not x for x, y in pairs) / n_dry
    fr = Frozen(truth=t, wet=w)
    for func in (calc_wet_dry_error, calc_wet_error_rates):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                r = call_at(c["place"], func, (t, w), {})
            except Exception as e:  # noqa: BLE001
                raise Violation("%s raised %s: %s" % (func.__name__, type(e).__name__, e)) from e
        fr.check(func.__name__)
        rec = [x for x in rec if issubclass(x.category, DeprecatedWarning)]
        require(len(rec) == 1 and (rec[0].filename, rec[0].lineno) == tuple(c["place"]),
                "%s: warnings %s", func.__name__, [(str(x.message), x.filename, x.lineno) for x in rec])
        require(func.__name__ in str(rec[0].message), "warning without the name of the function")
        if func is calc_wet_dry_error:
            same(np.array(r, dtype=float), [missed, false], "(wet error, dry error)")
        else:
            same([float(r.false), float(r.missed)], [false, missed], "rates")
    return bool(missed and false)


SUBS = [
    Sub("decorator", case(), body, 400, rule="called with arguments"),
    Sub("rates", case_rates(), body_rates, 200, rule="false and missed wet"),
]
ASSUMPTIONS = ["for the rates: wet and dry time steps in the reference"]
