"""Vocabulary of the checks: Sub (one executable property) and its helpers."""
import contextlib
import io
import math
import warnings

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    """One generated check.

    strategy: hypothesis strategy of JSON-able cases
    body(case, ctx): raises Violation if the property does not hold on the case;
        returns True if the case was non-trivial
    quick, thorough: number of cases (thorough: per shard)
    rule: when a case counts as non-trivial
    examples: hand-written cases, always run first
    """

    def __init__(
        self, name, strategy, body, quick, thorough=None, rule="", examples=()
    ):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough or quick * 15
        self.rule = rule
        self.examples = list(examples)


class Ctx:
    """What a body can report besides failing."""

    def __init__(self, known):
        self.known = known  # finding id -> description
        self.seen_findings = {}
        self.labels = {}

    def finding(self, fid):
        """Note that the listed known finding was met. Unlisted: a violation"""
        if fid not in self.known:
            raise Violation("behaviour of finding %s, which is not listed" % fid)
        self.seen_findings[fid] = self.seen_findings.get(fid, 0) + 1

    def label(self, name, on=True):
        if on:
            self.labels[name] = self.labels.get(name, 0) + 1


@contextlib.contextmanager
def quiet():
    """Silence warnings, prints and numpy errors of the code under test"""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
            io.StringIO()
        ):
            yield


def call(func, *args, **kwargs):
    """Call code under test with valid input: an exception is a violation"""
    try:
        with quiet():
            return func(*args, **kwargs)
    except Exception as e:  # noqa: BLE001
        raise Violation(
            "%s raised %s: %s"
            % (getattr(func, "__name__", func), type(e).__name__, str(e)[:300])
        ) from e


def must_raise(exc, func, *args, **kwargs):
    """Call code under test with input it has to reject with `exc`"""
    try:
        with quiet():
            out = func(*args, **kwargs)
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(
            "%s raised %s instead of %s: %s"
            % (getattr(func, "__name__", func), type(e).__name__, exc, str(e)[:200])
        ) from e
    raise Violation(
        "%s did not reject invalid input, returned %s"
        % (getattr(func, "__name__", func), str(out)[:200])
    )


def arr(x, dtype=float):
    """JSON list -> array, None -> NaN"""
    if dtype is float:
        return np.array(
            [[np.nan if v is None else v for v in r] for r in x]
            if len(x) and isinstance(x[0], (list, tuple))
            else [np.nan if v is None else v for v in x],
            dtype=float,
        )
    return np.array(x, dtype=dtype)


def same(actual, expected, what, rtol=1e-9, atol=1e-9):
    """Equal shape, NaNs at the same places, other values equal within tolerance"""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, e.shape))
    a = a.astype(float)
    e = e.astype(float)
    nan_a, nan_e = np.isnan(a), np.isnan(e)
    if (nan_a != nan_e).any():
        i = tuple(int(k) for k in np.argwhere(nan_a != nan_e)[0])
        raise Violation(
            "%s: at %s got %r, expected %r" % (what, i, float(a[i]), float(e[i]))
        )
    with np.errstate(all="ignore"):
        ok = nan_e | (a == e) | (np.abs(a - e) <= atol + rtol * np.abs(e))
    if not ok.all():
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        raise Violation(
            "%s: at %s got %r, expected %r" % (what, i, float(a[i]), float(e[i]))
        )


def same_bits(actual, expected, what):
    same(actual, expected, what, rtol=0, atol=0)


class Frozen:
    """Remember inputs to see whether a call modified them"""

    def __init__(self, **objs):
        self.objs = objs
        self.copies = {k: _copy(v) for k, v in objs.items()}

    def check(self, what):
        for k, v in self.objs.items():
            if not _identical(v, self.copies[k]):
                raise Violation("%s modified its input `%s`" % (what, k))


def _copy(v):
    import copy

    if hasattr(v, "copy") and hasattr(v, "dims"):
        return v.copy(deep=True)
    return copy.deepcopy(v)


def _identical(a, b):
    if hasattr(a, "identical"):
        return a.identical(b)
    if hasattr(a, "equals"):
        return a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc":
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    return a == b
