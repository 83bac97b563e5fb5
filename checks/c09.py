from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C09"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2700, "seconds": 80}, "thorough": {"cases": 15000, "seconds": 780}}
GUIDED = "series"
RULE = ("series x base grid x selection x weight, then for sampled lags of that grid: single-lag requests, windows starting or ending there, finer "
        "(1/2, 1/4, 1/16), coarser and wider grids that hit it, and zero both as grid point and inserted; non-trivial: at least 3 values at the "
        "same lag from different grids in a varying series")
ASSUMES = ["values may differ by rounding between grids; only bit-identical lags are compared"]


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=50, hi=2, exact=draw(st.sampled_from([True, True, None])), big=draw(st.integers(0, 7)) == 0))
    if c["opts"].get("alpha") is None and len(c["t"]) > 1:
        c["opts"]["alpha"] = ref.median(c["t"]) if draw(st.booleans()) else None
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional", "gaussian", "fractional_squared"]))
    c["probes"] = draw(st.lists(st.tuples(st.integers(0, 63), st.sampled_from(["single", "single_big", "from", "to", "fine2", "fine16", "coarse",
                                                                              "wide", "huge", "zero", "inserted"])), min_size=1, max_size=5))
    c["probes"] = [list(p) for p in c["probes"]]
    return c


def adapt(g):
    for c in guided_uses(g):
        yield dict(c, probes=[[i, k] for i, k in ((0, "single"), (5, "from"), (17, "fine2"), (40, "to"), (11, "wide"))])


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    base_kw = kw(o, selection_function=c["sel"], weight_function=c["w"])
    out = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": base_kw}])
    base = ok(out[1], "autocorrelation")
    lags = base["lags"]
    e = ref.effective(t, o)
    res = e["lag_resolution"]
    if not res < 1e300:
        res = 1.0
    probes = []
    for p, kind in c["probes"]:
        if not lags:
            break
        i = p * len(lags) // 64
        k = lags[i]
        w = {"single": (k, k, res), "single_big": (k, k, max(abs(k), 1.0) * 1e6), "from": (k, k + 3 * res, res), "to": (k - 3 * res, k, res),
             "fine2": (k - 2 * res, k + res, res / 2), "fine16": (k - res, k + res, res / 16), "coarse": (k - 4 * res, k + 4 * res, res * 4),
             "huge": (k - res * (1200 if len(t) < 30 else 60), k + res, res), "wide": (k - 40 * res, k + 20 * res, res), "zero": (0.0, 0.0, res), "inserted": (-res * 0.75, res, res)}[kind]
        big = max(abs(w[0]), abs(w[1]))
        if big + w[2] > big and all(abs(v) < 1e300 for v in w):
            probes.append((kind, w))
    prog = [sacf(t, x)]
    for kind, (lo, hi, r) in probes:
        prog.append({"op": "acf", "on": "s", "kw": dict(base_kw, min_lag=lo, max_lag=hi, lag_resolution=r)})
    out = ctx.run(prog)
    seen = {}
    for i, k in enumerate(lags):
        seen[k] = (i, [row[i] for row in corr_rows(base["corr"], len(xr))], "base grid")
    series = [ref.Series(v) for v in xr]
    n = hits = 0
    labels = {c["sel"], c["w"]}
    for (kind, w), step in zip(probes, out[1:]):
        r = ok(step, "autocorrelation(min_lag=%r, max_lag=%r, lag_resolution=%r)" % w)
        rows = corr_rows(r["corr"], len(xr))
        need(all(len(v) == len(r["lags"]) for v in rows), "%s: correlations and lags differ in number", kind)
        if kind.startswith("single") or kind == "zero":
            need(r["lags"] == [w[0]], "request for the single lag %r gave lags %r", w[0], r["lags"][:5])
        if kind == "inserted":
            need(0.0 in r["lags"], "no zero lag in a grid from %r to %r", w[0], w[1])
        for i, k in enumerate(r["lags"]):
            v = [row[i] for row in rows]
            if k in seen:
                hits += 1
                labels.add(kind)
                n += same_corr(t, series, [k], [[u] for u in seen[k][1]], [[u] for u in v], c["w"], e["alpha"],
                               "%s vs %s %r" % (seen[k][2], kind, w), c["sel"])
            else:
                seen[k] = (i, v, "%s %r" % (kind, w))
    return Info(hits >= 3 and moving(series, lags), labels, n)
