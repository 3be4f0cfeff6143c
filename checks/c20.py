"""C20 climatological variogram parameters"""
import datetime as dt
import math

from hypothesis import strategies as st

from pbt.core import Sub, call, require
from pbt.gen import pos

from pycomlink.spatial.interpolator import clim_var_param


@st.composite
def case(draw):
    d = draw(st.dates(dt.date(1990, 1, 1), dt.date(2035, 12, 31)))
    if draw(st.integers(0, 5)) == 0:
        d = draw(st.sampled_from([dt.date(2020, 12, 31), dt.date(2020, 2, 29), dt.date(2019, 1, 1), dt.date(2019, 12, 31)]))
    return {
        "date": d.isoformat(),
        "format": draw(st.sampled_from(["%Y%m%d", "%Y-%m-%d", "%Y-%m-%d %H:%M", "%Y-%m-%dT%H:%M:%S", "%Y%m%d %H%M", "%d %b %Y"])),
        "time": draw(st.one_of(st.just([0, 0]), st.tuples(st.integers(0, 23), st.integers(0, 59)).map(list))),
        "hours": draw(st.one_of(pos(0.08, 30), st.sampled_from([0.25, 1, 24, 0.5]))),
        "kind": draw(st.sampled_from(["kw", "pos"])),
    }


def body(c, ctx):
    d = dt.date.fromisoformat(c["date"])
    D = c["hours"]
    t = (d - dt.date(d.year, 1, 1)).days + 1
    # Van de Beek et al. 2012, eqs. for range and sill as in RAINLINK
    w = 2 * math.pi / 365
    rng = (15.51 * D**0.09 + 2.06 * D**-0.12 * math.cos(w * (t - 7.37 * D**0.22))) ** 4 / 1000
    sill = (0.84 * D**-0.25 + 0.20 * D**-0.37 * math.cos(w * (t - 162 * D**-0.03))) ** 4
    s = dt.datetime(d.year, d.month, d.day, *c["time"]).strftime(c["format"])
    got = call(clim_var_param, date_str=s, time_scale_hours=D) if c["kind"] == "kw" else call(clim_var_param, s, D)
    require(set(got) == {"sill", "range", "nugget"}, "keys %s", sorted(got))
    for k, e in (("range", rng), ("sill", sill), ("nugget", sill / 10)):
        require(abs(got[k] - e) <= 1e-9 * abs(e), "%s on %s, %s h: %r, expected %r", k, s, D, got[k], e)
        require(got[k] > 0, "%s is not positive", k)
    if D == 0.25:
        got = call(clim_var_param, s)
        require(abs(got["range"] - rng) <= 1e-9 * rng and abs(got["sill"] - sill) <= 1e-9 * sill, "default time scale")
    return True


SUBS = [Sub("formula", case(), body, 500, rule="all cases")]
