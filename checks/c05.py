from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C05"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2700, "seconds": 80}, "thorough": {"cases": 15000, "seconds": 780}}
GUIDED = "series"
RULE = ("series (with NaN rows and constant rows at times) x options, computed by calculateStandardCorrelation, by SACF.find_correlation with "
        "natural/fractional, by the individual public steps, and by autocorrelation(); non-trivial: a varying series and at least 2 lags, or an "
        "explicitly requested empty or single-lag grid")
ASSUMES = ["correlations may differ by rounding; lags must be identical"]


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=60, hi=4, many=True, huge=True, exact=draw(st.sampled_from([True, None, None])), nan=draw(st.integers(0, 4)) == 4))
    c["order"] = draw(st.integers(0, 1))
    return c


def adapt(g):
    for c in guided_uses(g, nan=True):
        yield {"t": c["t"], "x": c["x"], "opts": c["opts"], "order": 0}


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    sets = lambda n: [{"op": "set", "on": n, "attr": a, "v": v} for a, v in o.items() if v is not None]
    fc = {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "b"}, "natural", "fractional"]}
    if c["order"]:
        fc = {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "b"}]}
    prog = [ds(t, x), {"op": "new", "cls": "Correlator", "as": "a", "args": [{"ref": "d"}]},
            {"op": "new", "cls": "Correlator", "as": "b", "args": [{"ref": "d"}]}]
    prog += sets("a") + sets("b") + [{"op": "call", "on": "a", "meth": "calculateStandardCorrelation"}, fc,
                                     {"op": "corr", "on": "a"}, {"op": "corr", "on": "b"}]
    prog += [sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o)}]
    out = ctx.run(prog)
    for st_, r in zip(prog, out):
        ok(r, "%s %s" % (st_["op"], st_.get("meth", st_.get("attr", ""))))
    a, b, r = out[-4]["ok"], out[-3]["ok"], out[-1]["ok"]
    for k in ("max_lag", "min_lag", "res", "alpha", "N", "M"):
        need(ref.same(a[k], b[k]), "%s is %r on one route and %r on the other", k, a[k], b[k])
    need(ref.same_list(a["lags"], b["lags"]), "lags differ: compiled %d lags, stepwise %d lags", len(a["lags"]), len(b["lags"]))
    need(ref.same_list(a["lags"], r["lags"]), "autocorrelation() gives other lags than the compiled route")
    series = [ref.Series(v) for v in xr]
    alpha = ref.effective(t, o)["alpha"]
    lags = a["lags"]
    n = 0
    if len(t) > 1 or o.get("alpha"):
        n += same_corr(t, series, lags, a["corr"], b["corr"], "fractional", alpha, "compiled vs stepwise")
        n += same_corr(t, series, lags, a["corr"], corr_rows(r["corr"], len(xr)), "fractional", alpha, "compiled vs autocorrelation()")
    # one lag through the individual steps, compared at its place in the grid
    if lags:
        i = len(lags) // 2
        k = lags[i]
        p2 = [ds(t, x), {"op": "new", "cls": "Correlator", "as": "b", "args": [{"ref": "d"}]}] + sets("b")
        p2 += [{"op": "new", "cls": "CorrelationIterator", "as": "i", "args": [k, len(xr)]}]
        for m in ("naturalSelectionFunctionIdx", "deltaT", "getFractionWeights", "findCorrelation"):
            p2.append({"op": "call", "on": "b", "meth": m, "args": [{"ref": "i"}]})
        p2 += [{"op": "call", "on": "b", "meth": "addCorrelationData", "args": [{"ref": "i"}, 0]},
               {"op": "call", "on": "b", "meth": "cleanCorrelationData", "args": [1]}, {"op": "lags", "on": "b"}]
        o2 = ctx.run(p2)
        for st_, q in zip(p2, o2):
            ok(q, "%s %s" % (st_["op"], st_.get("meth", "")))
        q = o2[-1]["ok"]
        need(q["lags"] == [k], "the single stepped lag reads back as %r, not %r", q["lags"], k)
        n += same_corr(t, series, [k], [[v[i]] for v in a["corr"]], q["corr"], "fractional", alpha, "compiled vs single steps")
    labels = ["rows>1"] * (len(xr) > 1) + ["empty"] * (not lags) + ["single"] * (len(lags) == 1) + ["zero lag"] * (0.0 in lags)
    return Info((moving(series, lags) and len(lags) > 1) or len(lags) < 2, labels, n)
