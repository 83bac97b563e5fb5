import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C22"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3000, "seconds": 80}, "thorough": {"cases": 16000, "seconds": 780}}
GUIDED = "series"
RULE = ("for a correlator with random alpha, 1 to 6 iterators with lags in and around the series (on samples, midpoints, near the ends), each run "
        "through selection, distances, weights and correlation with every intermediate read, then stored at random indices and read back; weight "
        "functions also evaluated directly on sorted distances from 0 to 1e300; non-trivial: an iterator whose selection is not empty and has a "
        "pair at distance > 0")
ASSUMES = ["where a decision lies within rounding error, either neighbour is accepted", "alpha > 0",
           "weights may differ from the exact function by a few units in the last place"]

STEP = {"fractional": "getFractionWeights", "fractional_squared": "getFractionSquaredWeights", "gaussian": "getGaussianWeights"}
DIRECT = {"fractional": "fractionWeightFunction", "fractional_squared": "fractionSquaredWeightFunction", "gaussian": "gaussianWeightFunction"}


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 2, big=draw(st.integers(0, 7)) == 0))
    t = draw(gens.times(n))
    x = draw(gens.rows(n, 1, 3))
    span, gap = t[-1] - t[0], ref.min_gap(t)
    its = []
    for _ in range(draw(st.integers(1, 6))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        base = t[i] - t[j]
        k = draw(st.sampled_from([base, base, base + gap / 2, base - gap / 4, base + gap / 8, 0.0, span, -span, span + gap, -span - gap, gap / 2, -gap / 2,
                                  span * 3, -span * 3]))
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.floats(-span, span)) + 0.1 * gap
        its.append([k, draw(st.sampled_from(gens.WEIGHTS)), draw(st.sampled_from(["natural", "natural", "natural", "fast"])), draw(st.booleans())])
    alpha = draw(st.sampled_from([None, None, gap, span, gap / 64, span * 1000, gap / 3]))
    order = draw(st.permutations(range(len(its))))
    shift = draw(st.integers(0, 3)) if draw(st.integers(0, 11)) else draw(st.sampled_from([255, 1023, 1024, 4097, 33000, 70000]))
    dist = sorted(draw(st.lists(st.one_of(st.floats(0, 1e300), st.sampled_from([0.0, gap, gap / 3, span, 5e-324, 1e300])), min_size=2, max_size=12)))
    at = [p + shift for p in order]
    if len(at) > 1 and draw(st.integers(0, 2)) == 0:    # stored over an earlier one
        at[draw(st.integers(1, len(at) - 1))] = at[0]
    later = [draw(st.sampled_from([None, None, 0.0, -span, span + 0.3])) for _ in its]
    return {"t": t, "x": x, "its": its, "alpha": alpha, "at": at, "dist": dist, "later": later}


def adapt(g):
    u = g["uses"][-1]
    e = ref.effective(g["t"], u["opts"])
    if e["min_lag"] <= e["max_lag"] and not any(v != v for r in g["x"][:8] for v in r):
        m = int((e["max_lag"] - e["min_lag"]) / e["lag_resolution"])
        its = [[e["min_lag"] + i * e["lag_resolution"], u["w"], u["sel"], False] for i in sorted({0, 1, m // 3, m // 2, m - 1, m}) if 0 <= i <= m]
        yield {"t": g["t"], "x": g["x"][:8], "its": its, "alpha": u["opts"].get("alpha"), "at": list(range(len(its))), "dist": [0.0, 1.0]}


def judge(c, ctx):
    t, x = c["t"], c["x"]
    prog = [ds(t, x), {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}]
    if c["alpha"] is not None:
        prog.append({"op": "set", "on": "c", "attr": "alpha", "v": c["alpha"]})
    prog.append({"op": "get", "on": "c", "attr": "alpha"})
    head = len(prog)
    for q, (k, w, sel, late) in enumerate(c["its"]):
        n = "i%d" % q
        prog.append({"op": "new", "cls": "CorrelationIterator", "as": n, "args": [k if not late else 0.5, len(x)]})
        prog.append({"op": "set", "on": n, "attr": "k", "v": k} if late else {"op": "get", "on": n, "attr": "k"})
        call = lambda m, *a: {"op": "call", "on": "c", "meth": m, "args": [{"ref": n}] + list(a)}
        it = {"op": "it", "on": n}
        prog += [call(sel + "SelectionFunctionIdx"), it, call("deltaT"), it, call(STEP[w]), it, call("findCorrelation"), it]
    later = {q: v for q, v in enumerate(c.get("later", [])[:len(c["its"])]) if v is not None}     # lags given other names after the steps
    prog += [{"op": "set", "on": "i%d" % q, "attr": "k", "v": v} for q, v in later.items()]
    body = len(prog)
    for q in range(len(c["its"])):
        prog.append({"op": "call", "on": "c", "meth": "addCorrelationData", "args": [{"ref": "i%d" % q}, c["at"][q]]})
    prog.append({"op": "lags", "on": "c"})
    for w in gens.WEIGHTS:
        prog.append({"op": "weights", "on": "c", "meth": DIRECT[w], "v": c["dist"]})
    prog.append({"op": "call", "on": "c", "meth": "cleanCorrelationData", "args": [max(c["at"]) + 1]})
    prog.append({"op": "lags", "on": "c"})
    out = ctx.run(prog)
    for st_, r in zip(prog, out):
        ok(r, "%s %s" % (st_["op"], st_.get("meth", "")))
    alpha = out[head - 1]["ok"]
    series = [ref.Series(v) for v in x]
    labels, nontrivial, n = set(), False, 0
    results = []
    for q, (k, w, sel, late) in enumerate(c["its"]):
        o = [s["ok"] for s in out[head + 10 * q: head + 10 * q + 10]]
        s1, s2, s3, s4 = o[3], o[5], o[7], o[9]
        what = "lag %r (%s): " % (k, sel)
        p = ref.select(t, k, sel)
        need(s1["k"] == k and s4["k"] == k, "%siterator's k reads %r", what, s1["k"])
        results.append((later.get(q, k), s4["corr"]))
        need(len(s4["corr"]) == len(x), "%s%d correlations for %d series", what, len(s4["corr"]), len(x))
        if p.ambiguous:
            labels.add("ambiguous")
            continue
        got = s1["sel"]
        size = len(p.items)
        optional = sum(1 for a in p.alts.values() if None in a)
        need(size - optional <= len(got) <= size, "%s%d points selected, expected %d", what, len(got), size)
        if len(s1["shifted"]) >= len(got):
            for i in range(len(got)):
                need(abs(s1["shifted"][i] - (t[i] - t[0] + k)) <= 4 * ref.EPS * (abs(t[i]) + abs(t[0]) + abs(k)), "%sshifted time %d is %r", what, i,
                     s1["shifted"][i])
        need(len(s2["dt"]) == len(got), "%s%d distances for %d points", what, len(s2["dt"]), len(got))
        need(s2["sel"] == got and s3["sel"] == got, "%sselection changed by a later step", what)
        need(len(s3["w"]) == len(got), "%s%d weights for %d points", what, len(s3["w"]), len(got))
        for i, s in enumerate(got):
            opts = [p.items[i]] + [a for a in p.alts.get(i, []) if a]
            m = [a for a in opts if a[1] == s]
            need(m, "%spoint %d paired with sample %d, expected %s", what, i, s, [a[1] for a in opts])
            d = m[0][2]
            tol = 2 * p.dtol if p.inexact else 0.0
            need(abs(s2["dt"][i] - d) <= tol, "%sdistance of point %d is %r, expected %r", what, i, s2["dt"][i], d)
            need(s2["dt"][i] >= 0, "%snegative distance", what)
            wt = s3["w"][i]
            need(abs(wt - ref.weight(w, s2["dt"][i], alpha)) <= 8 * ref.EPS, "%s%s weight of distance %r is %r, expected %r", what, w, s2["dt"][i], wt,
                 ref.weight(w, s2["dt"][i], alpha))
            need(0 <= wt <= 1, "%sweight %r", what, wt)
            n += 1
            nontrivial = nontrivial or d > 0
        for j, ser in enumerate(series):
            if ser.ok:
                lo, hi, tol, miss = ser.corr(p, w, alpha)
                need(lo - tol <= s4["corr"][j] <= hi + tol, "%scorrelation of series %d is %r, expected %r (tolerance %.3g)", what, j, s4["corr"][j], lo, tol)
        labels.update([sel, w] + ["ties"] * (p.ties > 0) + ["edge"] * (p.edge > 0) + ["before"] * (p.before > 0) + ["empty"] * (not p.items))
    for pos in (body + len(c["its"]), len(prog) - 1):
        r = out[pos]["ok"]
        need(len(r["corr"]) == len(x), "stored rows")
        for q, (k, corr) in enumerate(results):
            i = c["at"][q]
            if i in c["at"][q + 1:]:    # the last one stored there counts
                continue
            need(len(r["lags"]) > i and r["lags"][i] == k, "lag stored at index %d reads back as %r, expected %r", i,
                 r["lags"][i] if len(r["lags"]) > i else None, k)
            for j in range(len(x)):
                need(len(r["corr"][j]) > i and ref.same(r["corr"][j][i], corr[j]), "correlation of series %d stored at index %d reads back wrong", j, i)
    r = out[-1]["ok"]
    need(len(r["lags"]) == max(c["at"]) + 1, "cleaned to %d lags, has %d", max(c["at"]) + 1, len(r["lags"]))
    for w, s in zip(gens.WEIGHTS, out[body + len(c["its"]) + 1:]):
        v = s["ok"]
        for d, got in zip(c["dist"], v):
            try:
                e = ref.weight(w, d, alpha)
            except OverflowError:
                e = 0.0
            need(abs(got - e) <= 8 * ref.EPS and 0 <= got <= 1, "%s weight of %r is %r, expected %r", w, d, got, e)
            if d == 0:
                need(got == 1, "%s weight of 0 is %r", w, got)
        for (a, p), (b, q) in zip(zip(c["dist"], v), list(zip(c["dist"], v))[1:]):
            need(q <= p + 2 * ref.EPS * p, "%s weight increases from %r to %r between distances %r and %r", w, p, q, a, b)
    return Info(nontrivial, labels, n)
