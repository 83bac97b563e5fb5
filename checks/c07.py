from fractions import Fraction as F

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C07"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3900, "seconds": 80}, "thorough": {"cases": 20000, "seconds": 780}}
RULE = ("series with exactly representable times x options x selection x weight; the times shifted by s and/or scaled by c (powers of two, "
        "integers such as 24, 60, 86400, 1440, and their mixtures), all results exactly representable; non-trivial: s != 0 or c != 1, a "
        "varying series and at least 2 lags")
ASSUMES = ["only shifts and scales under which times and lags stay exactly representable are compared"]


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=50, hi=2, exact=True, many=True))
    c["sel"] = draw(st.sampled_from(gens.SELECTIONS))
    c["w"] = draw(st.sampled_from(gens.WEIGHTS))
    c["c"] = draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 1024.0, 2.0 ** -30, 2.0 ** 40, 3.0, 24.0, 60.0, 1440.0, 86400.0, 2.0 ** 300, 2.0 ** -300]))
    gap = ref.min_gap(c["t"]) if len(c["t"]) > 1 else 1.0
    c["s"] = draw(st.sampled_from([0.0, 1.0, -1.0, 3.0, 7.0, -64.0, 1000.0, 1e6, -2454833.0, 2.0 ** 28])) * \
        draw(st.sampled_from([1.0, gap, gap, gap / 2])) - (c["t"][0] if draw(st.integers(0, 3)) == 0 else 0.0)
    return c


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    s, m = c["s"], c["c"]
    u = [(v + s) * m for v in t]
    exact = all(F(a) == (F(b) + F(s)) * F(m) for a, b in zip(u, t))
    oo = {k: v * m for k, v in o.items() if v is not None}
    exact = exact and all(F(oo[k]) == F(o[k]) * F(m) for k in oo if k != "alpha")
    exact = exact and gens.exact_case(t, o) and gens.exact_case(u, oo)
    e, e2 = ref.effective(t, o), ref.effective(u, oo)
    exact = exact and ref.scaled(t + [max(e["max_lag"], 0), min(e["min_lag"], 0)])[2]
    if not exact:
        return Info(False, ["inexact"], 0)
    k1 = kw(o, selection_function=c["sel"], weight_function=c["w"], return_correlator=True)
    k2 = kw(oo, selection_function=c["sel"], weight_function=c["w"], return_correlator=True)
    out = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": k1}, sacf(u, x, name="u"), {"op": "acf", "on": "u", "kw": k2}])
    r, q = ok(out[1], "autocorrelation"), ok(out[3], "autocorrelation of the shifted and scaled series")
    need(len(r["lags"]) == len(q["lags"]), "%d lags became %d after shift %r and scale %r", len(r["lags"]), len(q["lags"]), s, m)
    for a, b in zip(r["lags"], q["lags"]):
        need(a * m == b, "lag %r became %r after shift %r and scale %r", a, b, s, m)
    series = [ref.Series(v) for v in xr]
    n = same_corr(t, series, r["lags"], corr_rows(r["corr"], len(xr)), corr_rows(q["corr"], len(xr)), c["w"], e["alpha"],
                  "times t vs (t+%r)*%r" % (s, m), c["sel"])
    labels = [c["sel"], c["w"]] + ["shift"] * (s != 0) + ["scale"] * (m != 1)
    return Info((s != 0 or m != 1) and moving(series, r["lags"]) and len(r["lags"]) > 1, labels, n)
