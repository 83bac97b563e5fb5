import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C12"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3000, "seconds": 80}, "thorough": {"cases": 16000, "seconds": 780}}
GUIDED = "series"
RULE = ("series with NaN at one, some, many, first, last positions next to complete and all-NaN series x options x selection x weight; "
        "non-trivial: a judged lag that touches a NaN and a judged lag that does not, in series with NaN")
ASSUMES = ["where a selection decision lies within rounding error, either choice is accepted", "alpha > 0"]


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 2))
    t = draw(gens.times(n))
    m = draw(st.integers(1, 3))
    rows = []
    for j in range(m):
        nan = j == 0 or draw(st.booleans())
        r = draw(gens.values(n, nan=nan))
        if draw(st.integers(0, 19)) == 0 and m > 1:
            r = [math.nan] * n
        rows.append(r)
    if draw(st.booleans()):
        rows.reverse()
    # lags beyond half the span often miss an early/late NaN
    o = draw(gens.options(t, limit=50))
    if draw(st.booleans()):
        span = t[-1] - t[0]
        o = {"min_lag": span * draw(st.sampled_from([-1.0, 0.0, 0.5])), "max_lag": span, "lag_resolution": span / draw(st.integers(3, 24))}
    return {"t": t, "x": rows if m > 1 or draw(st.booleans()) else rows[0], "opts": o,
            "sel": draw(st.sampled_from(["natural", "natural", "fast"])), "w": draw(st.sampled_from(["fractional", "fractional"] + gens.WEIGHTS))}


def adapt(g):
    if any(v != v for r in g["x"][:8] for v in r):
        yield from guided_uses(g, nan=True)


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    out = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o, selection_function=c["sel"], weight_function=c["w"])},
                   {"op": "get", "on": "s", "attr": "data", "as": "d"}, {"op": "ds", "on": "d"}])
    r = ok(out[1], "autocorrelation")
    d = ok(out[3], "dataset")
    for j, row in enumerate(xr):
        need(ref.same_list(d["x"][j], row), "series %d does not read back unchanged", j)
        ser = ref.Series(row)
        if ser.present:
            mx = max(abs(v) for v in ser.present)
            need(abs(d["mean"][j] - ser.m) <= (len(row) + 4) * ref.EPS * mx, "mean of series %d is %r, expected %r over the present values", j,
                 d["mean"][j], ser.m)
        for v, y in zip(row, d["nx"][j]):
            need((v != v or d["mean"][j] != d["mean"][j]) == (y != y), "normalised value of %r is %r", v, y)
    st_ = judge_lags(t, xr, r["lags"], corr_rows(r["corr"], len(xr)), c["w"], ref.effective(t, o)["alpha"], c["sel"])
    finite = 0
    rows = corr_rows(r["corr"], len(xr))
    for j, row in enumerate(xr):
        if any(v != v for v in row) and ref.Series(row).ok:
            finite += any(v == v and v != 0 for v in rows[j])
    # a series without any value has no numbers to give
    for j, row in enumerate(xr):
        if all(v != v for v in row):
            for i in lag_subset(r["lags"]):
                p = ref.select(t, r["lags"][i], c["sel"])
                if p.items and not p.ambiguous and len(p.alts) < len(p.items):
                    need(rows[j][i] != rows[j][i], "an all-NaN series has correlation %r at lag %r", rows[j][i], r["lags"][i])
    labels = stat_labels(st_) + [c["sel"], c["w"]] + ["number next to NaN"] * (finite > 0)
    return Info(st_["nan"] > 0 and finite > 0, labels, st_["judged"])
