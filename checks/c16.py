import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C16"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3300, "seconds": 80}, "thorough": {"cases": 15000, "seconds": 780}}
RULE = ("valid series and options with one defect injected (times out of order, repeated, NaN, infinite; resolution zero, negative, NaN, too small, "
        "too many lags; non-finite limits) or none (controls, with infinite/huge resolutions, inverted limits and tiny or huge units), on four "
        "routes: autocorrelation default / stepwise, Correlator with setters and compiled / stepwise computation; non-trivial: a defect, or a "
        "control with unusual but valid options")
ASSUMES = ["times that are strictly increasing but no longer so after subtracting t_0, and time spans that overflow, may be rejected or accepted",
           "grids of between 6 million and 2^32 lags are only asked about (checkLagSteps), not computed"]


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 2, big=False)) if draw(st.integers(0, 5)) else draw(st.sampled_from([49, 64, 65, 100, 128, 200, 257, 300, 600, 1025, 2100]))
    t = draw(gens.times(n, wide=False))
    x = draw(gens.rows(n, 1, 2))
    o = draw(gens.options(t, limit=40))
    e = ref.effective(t, o)
    d = draw(st.sampled_from(["swap", "dup", "nan", "inf", "-inf", "reverse", "equal", "res0", "res-", "resnan", "tiny", "tiny2", "many", "maxinf", "maxnan",
                              "mininf", "minnan", "none", "none", "none", "c:inf", "c:huge", "c:inverted", "c:unit", "c:ulp", "c:-res-max", "c:denorm", "c:count", "w:collapse", "w:overflow"]))
    i = draw(st.integers(0, n - 1))
    j = draw(st.integers(0, n - 1))
    i = draw(st.sampled_from([i, i, i, n - 1, n // 2]))
    bad_t = False
    if d == "swap":
        j = draw(st.sampled_from([j, max(i - 1, 0)]))
        i, j = (i, j) if i != j else (0, n - 1)
        t[i], t[j] = t[j], t[i]
    elif d == "dup":
        i = max(i, 1)
        t[i] = t[i - 1]
    elif d in ("nan", "inf", "-inf"):
        t[i] = float(d)
    elif d == "reverse":
        t = t[::-1]
    elif d == "equal":
        t = [t[0]] * n
    bad_t = d in ("swap", "dup", "nan", "inf", "-inf", "reverse", "equal")
    if bad_t:
        o = {k: v for k, v in o.items() if draw(st.booleans())}
        if d not in ("nan", "inf", "-inf") and draw(st.booleans()):
            o = {"min_lag": 0.0, "max_lag": 1.0, "lag_resolution": 0.25, "alpha": 1.0}
    big = max(abs(e["min_lag"]), abs(e["max_lag"]), 2.0 ** -30)
    if d == "res0":
        o["lag_resolution"] = draw(st.sampled_from([0.0, -0.0]))
    elif d == "res-":
        o["lag_resolution"] = -draw(st.sampled_from([e["lag_resolution"], 1e-300, 5e-324, math.inf, 1.0]))
    elif d == "resnan":
        o["lag_resolution"] = math.nan
    elif d == "tiny":       # cannot change the largest lag
        o.update(min_lag=-big * draw(st.sampled_from([0.0, 1.0, 0.5])), max_lag=big, lag_resolution=big * 2.0 ** -draw(st.integers(54, 200)))
    elif d == "tiny2":      # short window far from zero
        s = draw(st.sampled_from([1.0, -1.0]))
        a = s * 2.0 ** draw(st.integers(20, 100))
        o.update(min_lag=a, max_lag=a + abs(a) * 2.0 ** -50 * draw(st.integers(0, 2)), lag_resolution=abs(a) * 2.0 ** -draw(st.integers(55, 90)))
    elif d == "many":
        o.update(min_lag=-big, max_lag=big, lag_resolution=big * 2.0 ** -draw(st.integers(32, 48)))
    elif d in ("maxinf", "maxnan", "mininf", "minnan"):
        o[d[:3] + "_lag"] = math.nan if d.endswith("nan") else draw(st.sampled_from([math.inf, -math.inf]))
    elif d == "c:inf":
        o["lag_resolution"] = math.inf
    elif d == "c:huge":
        o["lag_resolution"] = draw(st.sampled_from([1e300, 1.7e308, big * 2.0 ** 60]))
    elif d == "c:inverted":
        o.update(min_lag=big, max_lag=draw(st.sampled_from([-big, 0.0, big / 2])), lag_resolution=big / draw(st.sampled_from([1, 3, 10, 50, 2.0 ** 40, 2.0 ** 60])))
    elif d == "c:unit":
        s = 2.0 ** draw(st.sampled_from([-600, -300, 300, 600]))
        t = [v * s for v in t]
        o = {k: v * s for k, v in o.items()}
    elif d == "c:ulp":      # smallest step that still changes the lags
        a = 2.0 ** draw(st.integers(-3, 60))
        o.update(min_lag=a, max_lag=a * (1 + 8 * ref.EPS), lag_resolution=a * ref.EPS * draw(st.sampled_from([1.0, 2.0])))
    elif d == "c:-res-max":
        o.update(min_lag=-1.7e308, max_lag=-1.7e308, lag_resolution=1e300)
    elif d == "c:denorm":
        o.update(min_lag=0.0, max_lag=2e-320, lag_resolution=5e-324 * draw(st.integers(200, 4000)))
    elif d == "c:count":    # many lags, but countable
        m = draw(st.floats(1e3, 2e9))
        if draw(st.integers(0, 20)) == 0:
            m = draw(st.sampled_from([1.3e6, 2.1e6, 4.2e6]))
        o.update(min_lag=-big * draw(st.sampled_from([0.0, 1.0, 0.25])), max_lag=big)
        o["lag_resolution"] = (o["max_lag"] - o["min_lag"]) / m
    elif d == "w:collapse":     # increasing, but not after subtracting the first time
        g = ref.min_gap(t)
        t = [-g * 2.0 ** draw(st.integers(54, 300))] + [v - t[0] for v in t[1:]]
    elif d == "w:overflow":     # finite, but not their span
        t = [-1.7e308] + [float(v) for v in range(n - 2)] + [1.7e308]
    if d.startswith("w:"):
        o = {k: v for k, v in o.items() if k == "alpha"}
    return {"t": t, "x": x, "opts": o, "d": d, "route": draw(st.sampled_from(["acf", "acf", "acfpy", "cpp", "py"])),
            "w": draw(st.sampled_from(gens.WEIGHTS)), "sel": draw(st.sampled_from(["fast", "natural"])), "first": draw(st.booleans())}


def tag(v):
    return {"float": repr(v)} if not math.isfinite(v) else v


def judge(c, ctx):
    t, x, o, d = c["t"], c["x"], c["opts"], c["d"]
    valid = d == "none" or d.startswith("c:")
    prog = []
    args = [[tag(v) for v in t] if not all(map(math.isfinite, t)) else t, x]
    route = c["route"]
    labels = [d, route]
    what = "%s with times %s, options %r on route %s" % (d, t[:6], o, route)
    if d == "c:count":      # computed for few of them, and then only the first lags are read
        some = any(abs((o["max_lag"] - o["min_lag"]) / o["lag_resolution"] - m) < 1 for m in (1.3e6, 2.1e6, 4.2e6))
        prog = [ds([0.0, t[-1] - t[0]], [1.0, 2.0]), {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}]
        prog += [{"op": "set", "on": "c", "attr": a, "v": v} for a, v in o.items()] + [{"op": "call", "on": "c", "meth": "checkLagSteps"}]
        if some:
            prog += [{"op": "call", "on": "c", "meth": "calculateStandardCorrelation"}, {"op": "call", "on": "c", "meth": "cleanCorrelationData", "args": [3]}, {"op": "lags", "on": "c"}]
        for s in ctx.run(prog):
            ok(s, what)
        return Info(some, labels + ["computed"] * some)
    if route in ("acf", "acfpy"):
        k = {a: tag(v) for a, v in o.items()}
        if route == "acfpy":
            k.update(weight_function=c["w"], selection_function=c["sel"])
        prog = [sacf(*args), {"op": "acf", "on": "s", "kw": k}, {"op": "acf", "on": "s", "kw": {"min_lag": 0.0, "max_lag": 0.0, "lag_resolution": 1.0}}]
        out = ctx.run(prog)
        ok(out[0], "SACF(t, x)")
        steps = [out[1]]
        if d in ("swap", "dup", "nan", "inf", "-inf", "reverse", "equal"):
            steps.append(out[2])
    else:
        prog = [ds(*args), {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}]
        names = list(o)
        if not c["first"]:
            names.reverse()
        reads = []
        for a in names:
            prog += [{"op": "get", "on": "c", "attr": a}, {"op": "set", "on": "c", "attr": a, "v": tag(o[a])}, {"op": "get", "on": "c", "attr": a}]
            reads.append((a, len(prog) - 3))
        call = ({"op": "call", "on": "c", "meth": "calculateStandardCorrelation"} if route == "cpp" else
                {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "c"}, c["sel"], c["w"]]})
        if d.startswith(("res", "max", "min")):     # when a setting is rejected, the others may make a grid too long to compute here
            call = {"op": "guard", "on": "c", "how": "cpp" if route == "cpp" else [c["sel"], c["w"]], "limit": 300}
        prog.append(call)
        prog.append({"op": "lags", "on": "c"})
        out = ctx.run(prog)
        ok(out[0], "DataStructure(t, x)")
        steps = []
        if "exc" in out[1]:
            steps = [out[1]]
        else:
            rejected = False
            for a, i in reads:
                before, s, after = out[i]["ok"], out[i + 1], ok(out[i + 2], "reading " + a)
                if "exc" in s:
                    rejected = True
                    steps.append(s)
                    need(ref.same(before, after), "rejected %s = %r changed the setting from %r to %r", a, o[a], before, after)
                else:
                    need(ref.same(after, float(o[a])), "%s = %r reads back as %r", a, o[a], after)
            if not rejected:
                steps.append(out[-2])
        for s in steps:
            if not valid and "exc" in s:
                break
    excs = [s for s in steps if "exc" in s]
    if valid:
        for s in excs:
            raise Violation("valid %s raised %s: %s" % (what, s["exc"], s["msg"]))
        r = steps[0]["ok"] if route in ("acf", "acfpy") else out[-1]["ok"]
        if d == "c:inf" and not ref.effective(t, o)["min_lag"] > ref.effective(t, o)["max_lag"]:
            e = ref.effective(t, o)
            need(r["lags"] == [e["min_lag"]], "infinite resolution gave %d lags", len(r["lags"]))
        if d == "c:inverted":
            need(r["lags"] == [], "inverted limits gave lags")
        return Info(d != "none", labels)
    if d.startswith("w:"):      # either reading of "increasing" is fine, as long as it ends
        for s in excs:
            need("ValueError" in s.get("mro", [s["exc"]]), "%s raised %s (%s), expected ValueError", what, s["exc"], s["msg"])
        return Info(True, labels)
    need(excs, "%s was accepted", what)
    for s in excs:
        need("ValueError" in s.get("mro", [s["exc"]]), "%s raised %s (%s), expected ValueError", what, s["exc"], s["msg"])
    if len(steps) > 1 and route in ("acf", "acfpy"):
        need(len(excs) == len(steps), "%s was accepted", what)
    return Info(True, labels)
