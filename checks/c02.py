"""Lag grid. Exactly representable grids must match the model value for value; others are held to the structure of the grid."""
import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C02"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 4500, "seconds": 80}, "thorough": {"cases": 30000, "seconds": 780}}
GUIDED = "series"
RULE = ("series x window/resolution (zero, negative, off-grid, beyond the span, inverted, single-lag, much finer/wider than default, up to "
        "thousands of lags) x selection x weight; non-trivial: more than one lag, a zero lag inserted, or an empty grid from an explicit option")
ASSUMES = ["on grids whose steps are not exactly representable, a lag may drift by rounding from min_lag + i*lag_resolution"]


@st.composite
def cases(draw, tier):
    mode = draw(st.integers(0, 9))
    if draw(st.integers(0, 299)) == 171:   # a great many lags, compiled route
        n = draw(st.integers(2, 3))
        t = draw(gens.times(n, exact=True))
        return {"t": t, "x": draw(gens.rows(n, 1, 1)), "opts": draw(gens.many_options(t, True, [32766, 32768, 33000, 65535, 65537, 70000])),
                "sel": "natural", "w": "fractional"}
    if mode < 5:
        c = draw(gens.series_case(tier, limit=120, exact=True, hi=3, big=mode == 0))
    elif mode < 8:
        c = draw(gens.series_case(tier, limit=120, hi=3, big=False))
    else:   # many lags on a short series
        n = draw(st.integers(2, 5))
        t = draw(gens.times(n, exact=True))
        c = {"t": t, "x": draw(gens.rows(n, 1, 3)), "opts": draw(gens.options(t, limit=2500 if tier == "quick" else 20000, exact=True))}
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional", "gaussian", "fractional_squared"]))
    return c


def structure(lags, lo, hi, res):
    """Checks lags against the grid rules with rounding slack; returns True if decided."""
    if not lo <= hi:
        need(not lags, "min_lag %r > max_lag %r gave %d lags", lo, hi, len(lags))
        return
    big = max(abs(lo), abs(hi))
    need(lags, "no lags for min_lag %r <= max_lag %r", lo, hi)
    need(lags[0] == lo or (lo == 0 and lags[0] == 0), "first lag is %r, not min_lag %r", lags[0], lo)
    for a, b in zip(lags, lags[1:]):
        need(a < b, "lags do not increase: %r, %r", a, b)
    need(lags[-1] <= hi, "last lag %r above max_lag %r", lags[-1], hi)
    slack = 2 * 2.0 ** -52 * (big + abs(res)) * (len(lags) + 2)
    zeros = [i for i, k in enumerate(lags) if k == 0]
    stepped = list(lags)
    if zeros and lo < 0:
        # a zero lag is either a grid point or inserted
        z = zeros[0]
        on_grid = abs(lo + round(-lo / res) * res) <= slack and z == round(-lo / res)
        if not on_grid:
            del stepped[z]
            need(z < len(lags) - 1, "zero lag %d inserted although the grid does not reach a positive lag", z)
        elif z + 1 < len(lags) and abs(lags[z + 1]) <= slack:
            del stepped[z]  # the grid meets zero only up to rounding: zero inserted just before a tiny positive lag
    elif lo > 0:
        need(not zeros, "zero lag although min_lag %r is positive", lo)
    elif lo < 0:
        need(not (lags[-1] > slack), "grid passes from negative to positive lags without lag 0")
    for i, k in enumerate(stepped):
        need(abs(k - (lo + i * res)) <= slack, "lag %d is %r, expected %r", i, k, lo + i * res)
    need(stepped[-1] + res > hi - slack, "grid stops at %r although %r is within max_lag %r", stepped[-1], stepped[-1] + res, hi)


def adapt(g):
    yield from guided_uses(g)


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    e = ref.effective(t, o)
    prog = [sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o, selection_function=c["sel"], weight_function=c["w"], return_correlator=True)}]
    r = ok(ctx.run(prog)[1], "autocorrelation(%r)" % o)
    lags, rows = r["lags"], corr_rows(r["corr"], len(xr))
    for row in rows:
        need(len(row) == len(lags), "%d correlations for %d lags", len(row), len(lags))
    need(ref.same_list(r["c"]["lags"], lags), "returned correlator reports other lags than the call returned")
    need(len(r["c"]["corr"]) == len(xr) and all(len(v) == len(lags) for v in r["c"]["corr"]), "correlator's correlations have another shape")
    lo, hi, res = e["min_lag"], e["max_lag"], e["lag_resolution"]
    exact = gens.exact_case(t, o)
    labels = ["exact" if exact else "rounded", c["sel"], "fractional" if c["w"] == "fractional" else "otherweight"]
    inserted = False
    if exact:
        want = ref.grid(lo, hi, res)
        need(len(lags) == len(want), "%d lags, expected %d for min %r max %r resolution %r", len(lags), len(want), lo, hi, res)
        for i, (a, b) in enumerate(zip(lags, want)):
            need(a == b, "lag %d is %r, expected %r", i, a, b)
        inserted = lo < 0 and any(k == 0 for k in want) and (-lo / res) != int(-lo / res)
    structure(lags, lo, hi, res)
    if inserted:
        labels.append("zero inserted")
    if not lags:
        labels.append("empty")
    if len(lags) > 300:
        labels.append(">300 lags")
    if len(lags) == 1:
        labels.append("single")
    d = ref.defaults(t)
    if len(lags) > 2 * gens.count(d["min_lag"], d["max_lag"], d["lag_resolution"]):
        labels.append("finer/wider than default")
    return Info(len(lags) > 1 or inserted or not lags, labels)
