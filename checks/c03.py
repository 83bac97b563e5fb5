from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C03"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2100, "seconds": 80}, "thorough": {"cases": 15000, "seconds": 780}}
GUIDED = "series"
RULE = ("series and option sets as for C01, evaluated under all three weight names with natural selection, plus an undocumented name; "
        "non-trivial: some judged lag has a pair at distance > 0, so the three weights differ")
ASSUMES = ["where a selection decision lies within rounding error of a tie or of the series end, either choice is accepted (fast selection: not judged if it is the first point's)",
           "alpha > 0", "a selection name or a weight name of the other kind ('fast' as a weight) is not used as an undocumented name"]

names = st.one_of(st.sampled_from(["", "Gaussian", "fractional ", "frac", "squared", "linear", "none", "GAUSSIAN", "fractionalsquared",
                                   "exponential", "default", "naturals", "Fast", "fast_selection", "gauss"]),
                  st.text(max_size=8).filter(lambda s: s not in ("fast", "natural", "gaussian", "fractional", "fractional_squared")))


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=50, many=True))
    c["bad"] = [draw(names), draw(st.booleans())] if draw(st.integers(0, 3)) == 0 else None
    return c


def adapt(g):
    for c in guided_uses(g):
        yield {"t": c["t"], "x": c["x"], "opts": c["opts"], "bad": None}


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    prog = [sacf(t, x)] + [{"op": "acf", "on": "s", "kw": kw(o, weight_function=w)} for w in gens.WEIGHTS]
    prog.append({"op": "acf", "on": "s", "kw": kw(o, weight_function="gaussian", selection_function="natural")})
    if c["bad"]:
        name, sel = c["bad"]
        # lags 0..gap only: the grid is never empty, so the named function is needed
        prog.append({"op": "acf", "on": "s", "kw": {"min_lag": 0.0, "max_lag": 0.0, "lag_resolution": 1.0,
                                                    "selection_function" if sel else "weight_function": name}})
    out = ctx.run(prog)
    labels, judged, weighted = set(), 0, 0
    alpha = ref.effective(t, o)["alpha"]
    first = None
    for w, step in zip(gens.WEIGHTS + ["gaussian"], out[1:5]):
        r = ok(step, "autocorrelation(weight_function=%r)" % w)
        first = first or r["lags"]
        need(ref.same_list(first, r["lags"]), "lags differ between weight functions")
        st_ = judge_lags(t, xr, r["lags"], corr_rows(r["corr"], len(xr)), w, alpha, what="%s: " % w, most=32)
        labels.update(stat_labels(st_))
        judged += st_["judged"]
        weighted += st_["weighted"]
    if c["bad"]:
        need("exc" in out[5], "undocumented name %r was accepted", c["bad"][0])
        labels.add("bad name")
    return Info(judged > 0 and weighted > 0, labels, judged)
