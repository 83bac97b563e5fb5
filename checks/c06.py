import math
from fractions import Fraction

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C06"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3300, "seconds": 80}, "thorough": {"cases": 20000, "seconds": 780}}
GUIDED = "series"
RULE = ("series x options x selection x weight, with the data replaced by a*x+b (a of either sign from 1e-20 to 1e20, offsets to 1e12 times the "
        "spread) and a request for lag 0; non-trivial: a varying series whose a*x+b resolves it, a != 1 or b != 0, at least 2 lags")
ASSUMES = ["where a*x+b is rounded, the rounding of the data enters the tolerance"]


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=40, hi=3, big=draw(st.integers(0, 5)) == 0))
    c["sel"] = draw(st.sampled_from(gens.SELECTIONS))
    c["w"] = draw(st.sampled_from(gens.WEIGHTS))
    c["a"] = draw(st.sampled_from([1.0, -1.0, 2.0, -0.5, 3.0, -7.0, 1024.0, 0.1, -1e-3, 1e6, 1e-20, 1e20, 2.0 ** -40]))
    c["b"] = draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, 100.0, -1e6, 16777216.0, 2.0 ** 30, 1e9, -123456.789, 1e12]))
    c["rel"] = draw(st.booleans())   # offset in units of a
    return c


def adapt(g):
    for c in guided_uses(g):
        yield dict(c, a=-2.0, b=3.0, rel=True)


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    a, b = c["a"], c["b"]
    if c["rel"] and abs(a * b) < 1e100:
        b = a * b
    yr = [[a * v + b for v in r] for r in xr]
    y = yr if isinstance(x[0], list) else yr[0]
    k = kw(o, selection_function=c["sel"], weight_function=c["w"])
    zero = kw({"alpha": o.get("alpha")}, selection_function=c["sel"], weight_function=c["w"], min_lag=0.0, max_lag=0.0, lag_resolution=1.0)
    out = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": k}, {"op": "acf", "on": "s", "kw": zero},
                   sacf(t, y, name="y"), {"op": "acf", "on": "y", "kw": k}, {"op": "acf", "on": "y", "kw": zero}])
    r, z, q, zq = (ok(out[i], "autocorrelation") for i in (1, 2, 4, 5))
    need(ref.same_list(r["lags"], q["lags"]), "lags changed with the values")
    need(z["lags"] == [0.0] and zq["lags"] == [0.0], "lag 0 request gave %r", z["lags"])
    alpha = ref.effective(t, o)["alpha"]
    s1 = [ref.Series(v) for v in xr]
    s2 = []
    for u, v in zip(xr, yr):
        err = max(abs(float(Fraction(w) - (Fraction(a) * Fraction(p) + Fraction(b)))) for p, w in zip(u, v))
        s2.append(ref.Series(v, err))
    n = 0
    p0 = ref.select(t, 0.0)
    for s, res, full, who in ((s1, z, r, "x"), (s2, zq, q, "a*x+b")):
        for j, ser in enumerate(s):
            if not ser.ok:
                continue
            tol = ser.corr(p0, c["w"], alpha)[2]
            got = corr_rows(res["corr"], len(xr))[j][0]
            n += 1
            need(abs(got - 1) <= tol, "correlation at lag 0 of %s (series %d) is %r", who, j, got)
            row = corr_rows(full["corr"], len(xr))[j]
            for i, lag in enumerate(full["lags"]):
                if lag == 0:
                    need(abs(row[i] - 1) <= tol, "correlation at lag 0 of %s (series %d) is %r in the grid", who, j, row[i])
    usable = [i for i in range(len(xr)) if s1[i].ok and s2[i].ok]
    lags = r["lags"]
    r1, r2 = corr_rows(r["corr"], len(xr)), corr_rows(q["corr"], len(xr))
    if usable:
        n += same_corr(t, [s1[i] for i in usable], lags, [r1[i] for i in usable], [r2[i] for i in usable], c["w"], alpha,
                       "x vs %r*x+%r" % (a, b), c["sel"], tol2=[s2[i] for i in usable])
    labels = [c["sel"], c["w"]] + ["zero in grid"] * (0.0 in lags) + ["negative a"] * (a < 0)
    return Info(bool(usable) and len(lags) > 1 and (a != 1 or b != 0), labels, n)
