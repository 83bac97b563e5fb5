from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C04"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 1800, "seconds": 80}, "thorough": {"cases": 18000, "seconds": 780}}
GUIDED = "series"
RULE = ("series and option sets as for C01 under fast selection with each weight, and evenly sampled series compared with natural selection at "
        "0, dt, 2dt, ...; non-trivial: a judged lag where fast selection takes other pairs than natural selection or truncates at the series "
        "end, or an evenly sampled comparison with at least 3 lags")
ASSUMES = ["where a selection decision lies within rounding error of a tie or of the series end, either choice is accepted (fast selection: not judged if it is the first point's)", "alpha > 0"]


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        n = draw(gens.length(tier, 2))
        t = draw(gens.times(n, exact=True, modes=["reg"]))
        m = draw(st.integers(1, 30 if n < 700 else 4))
        gap = t[1] - t[0]
        a = draw(st.integers(0, n))
        return {"t": t, "x": draw(gens.rows(n, 1, 2)), "opts": {"min_lag": a * gap, "max_lag": (a + m) * gap}, "w": draw(st.sampled_from(gens.WEIGHTS)),
                "even": True}
    c = draw(gens.series_case(tier, limit=50, many=True, huge=True))
    c["w"] = draw(st.sampled_from(gens.WEIGHTS))
    c["even"] = False
    return c


def adapt(g):
    for c in guided_uses(g):
        yield {"t": c["t"], "x": c["x"], "opts": c["opts"], "w": c["w"], "even": False}


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    prog = [sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o, selection_function="fast", weight_function=c["w"])}]
    if c["even"]:
        prog.append({"op": "acf", "on": "s", "kw": kw(o, weight_function=c["w"])})
    out = ctx.run(prog)
    r = ok(out[1], "autocorrelation(selection_function='fast', weight_function=%r, %r)" % (c["w"], o))
    rows = corr_rows(r["corr"], len(xr))
    alpha = ref.effective(t, o)["alpha"]
    s = judge_lags(t, xr, r["lags"], rows, c["w"], alpha, "fast")
    labels = set(stat_labels(s)) | {c["w"]}
    nontrivial = False
    if c["even"]:
        q = ok(out[2], "autocorrelation (natural)")
        need(ref.same_list(q["lags"], r["lags"]), "lags differ between selection functions")
        for j, (a, b) in enumerate(zip(rows, corr_rows(q["corr"], len(xr)))):
            ser = ref.Series(xr[j])
            if not ser.ok:
                continue
            for i in lag_subset(r["lags"], 40):
                tol = 2 * ser.corr(ref.select(t, r["lags"][i]), c["w"], alpha)[2]
                need(abs(a[i] - b[i]) <= tol, "even sampling: fast %r but natural %r at lag %r", a[i], b[i], r["lags"][i])
        labels.add("even")
        nontrivial = len(r["lags"]) >= 3
    elif s["judged"]:
        for i in lag_subset(r["lags"], 12):
            f, nat = ref.select(t, r["lags"][i], "fast"), ref.select(t, r["lags"][i])
            if not f.ambiguous and [p[:2] for p in f.items] != [p[:2] for p in nat.items]:
                nontrivial = True
                labels.add("differs from natural")
                if len(f.items) < len(nat.items):
                    labels.add("truncated")
    return Info(nontrivial, labels, s["judged"])
