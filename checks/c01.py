from lib import gens
from lib.common import *

ID = "C01"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2700, "seconds": 80}, "thorough": {"cases": 20000, "seconds": 780}}
GUIDED = "series"
RULE = ("series (regular/gappy/bursty/multi-scale/jittered/non-dyadic times, offset/scaled/spiky values, 1-4 rows) with random lag "
        "windows, resolutions and alphas; non-trivial: at least one judged lag pairs a point with a sample at distance > 0 "
        "in a non-constant series")
ASSUMES = ["where a selection decision lies within rounding error of a tie or of the series end, either choice is accepted",
           "alpha > 0; values between 1e-60 and 1e60 in magnitude or 0"]


def cases(tier):
    return gens.series_case(tier, huge=True, many=True)


def adapt(g):
    for c in guided_uses(g):
        yield {"t": c["t"], "x": c["x"], "opts": c["opts"]}


def judge(c, ctx):
    t, x = c["t"], c["x"]
    out = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": kw(c["opts"])}])
    ok(out[0], "SACF(t, x)")
    r = ok(out[1], "autocorrelation(%r)" % c["opts"])
    xr = as_rows(x)
    rows = corr_rows(r["corr"], len(xr))
    st = judge_lags(t, xr, r["lags"], rows, "fractional", ref.effective(t, c["opts"])["alpha"])
    return Info(st["judged"] > 0 and st["weighted"] > 0, stat_labels(st) + ["rows>1"] * (len(xr) > 1) + ["n>=200"] * (len(t) >= 200),
                st["judged"])
