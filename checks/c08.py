from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C08"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 1800, "seconds": 80}, "thorough": {"cases": 15000, "seconds": 780}}
GUIDED = "series"
RULE = ("2 to 40 series (values of different scale, constant rows, NaN rows, duplicated rows) on one time axis x options x selection x weight, "
        "computed together, each alone (as one row and flat) and in another order; non-trivial: at least two different varying series and at "
        "least one lag")
ASSUMES = ["values may differ by rounding between the joint and the separate computation"]


@st.composite
def cases(draw, tier):
    big = draw(st.integers(0, 11)) == 0
    n = draw(gens.length(tier, 2, big=not big))
    t = draw(gens.times(n))
    rows = []
    m = draw(st.integers(2, 5)) if not big else draw(st.integers(6, 40))
    for _ in range(m):
        kind = draw(st.integers(0, 9))
        if kind == 9 and rows:
            rows.append(list(rows[draw(st.integers(0, len(rows) - 1))]))
        elif kind == 8:
            rows.append([draw(st.sampled_from([0.0, 1.0, -2.5, 1e9, 1e30]))] * n)
        else:
            rows.append(draw(gens.values(n, nan=kind in (6, 7))))
    c = {"t": t, "x": rows, "opts": draw(gens.options(t, limit=30))}
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional", "gaussian", "fractional_squared"]))
    c["ret"] = draw(st.booleans())
    c["perm"] = draw(st.permutations(range(m))) if m < 12 else list(range(m))[::-1]
    return c


def adapt(g):
    for c in guided_uses(g, nan=True, most_rows=64):
        if len(g["x"]) > 1:
            yield dict(c, perm=list(range(len(c["x"])))[::-1])


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    k = kw(o, selection_function=c["sel"], weight_function=c["w"], return_correlator=True if c.get("ret") else None)
    acf = lambda n: {"op": "acf", "on": n, "kw": k}
    probe = list(range(len(x))) if len(x) <= 6 else [0, 1, len(x) // 2, len(x) - 2, len(x) - 1]
    prog = [sacf(t, x), acf("s"), {"op": "get", "on": "s", "attr": "data", "as": "d"}, {"op": "ds", "on": "d"}]
    prog += [sacf(t, [x[i] for i in c["perm"]], name="p"), acf("p")]
    for i in probe:
        prog += [sacf(t, x[i], name="f"), acf("f"), {"op": "get", "on": "f", "attr": "data", "as": "d"}, {"op": "ds", "on": "d"},
                 sacf(t, [x[i]], name="g"), acf("g")]
    out = ctx.run(prog)
    for st_, r in zip(prog, out):
        ok(r, st_["op"])
    whole, perm, d = out[1]["ok"], out[5]["ok"], out[3]["ok"]
    rows = corr_rows(whole["corr"], len(x))
    lags = whole["lags"]
    series = [ref.Series(v) for v in x]
    alpha = ref.effective(t, o)["alpha"]
    n = 0

    def cmp(a, b, j, what):
        nonlocal n
        n += same_corr(t, [series[j]], lags, [a], [b], c["w"], alpha, what, c["sel"], most=20)
        if not series[j].ok and series[j].present and len(set(series[j].present)) == 1 and series[j].present[0] in (0.0, 1.0, -2.5):
            for u, v in zip(a, b):
                need((u != u) == (v != v), "%s: constant series %d gives %r and %r", what, j, u, v)

    prow = corr_rows(perm["corr"], len(x))
    need(ref.same_list(perm["lags"], lags), "lags depend on the order of the series")
    for pos, j in enumerate(c["perm"]):
        cmp(rows[j], prow[pos], j, "series in another order")
    for m, j in enumerate(probe):
        base = 6 + 6 * m
        flat, dd, one = out[base + 1]["ok"], out[base + 3]["ok"], out[base + 5]["ok"]
        for r, what in ((flat, "alone, flat"), (one, "alone, as one row")):
            need(ref.same_list(r["lags"], lags), "series %d %s: lags differ from the joint ones", j, what)
            cmp(rows[j], corr_rows(r["corr"], 1)[0], j, "together vs " + what)
        need(ref.same_list(flat["corr"], one["corr"]), "series %d given flat and as one row differ", j)
        need(dd["x"] == [] or ref.same_list(dd["x"][0], d["x"][j]), "series %d data differ", j)
        if series[j].present:
            need(abs(dd["mean"][0] - d["mean"][j]) <= 2 * series[j].merr or ref.same(dd["mean"][0], d["mean"][j]), "series %d: mean %r alone, %r together",
                 j, dd["mean"][0], d["mean"][j])
    good = [tuple(x[j]) for j in range(len(x)) if series[j].ok]
    labels = [c["sel"], c["w"]] + ["many rows"] * (len(x) > 6) + ["constant row"] * any(s.present and not s.ok for s in series) + \
        ["nan row"] * any(len(s.present) < len(t) for s in series) + ["empty"] * (not lags)
    return Info(len(set(good)) > 1 and len(lags) > 0, labels, n)
