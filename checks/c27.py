"""A call that fails leaves everything else as it was. Histories with failing calls inserted against the same histories without them."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *
from .c22 import STEP
from .c26 import same_out

ID = "C27"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2100, "seconds": 80}, "thorough": {"cases": 12000, "seconds": 780}}
RULE = ("histories of 3 to 16 calls (settings, computations by either route, clears, lags stored by hand, analyses, datasets built, reads) on an analysis object and two "
        "correlators of one dataset, with 1 to 10 failing calls inserted (rejected settings, computations that cannot start, unknown function names, "
        "iterators of the wrong size, bad lag indices and counts, inputs of wrong shape or type, unreadable files, wrong arguments); oracle: every "
        "inserted call raises, and every other call gives bit for bit what it gives in the history without them; non-trivial: results computed before "
        "a failing call are read or built on after it")
ASSUMES = ["the iterator passed to a failing call is not used again", "SACF.set_up_correlation is not among the failing calls: it applies its settings one by one"]

BADVAL = [0.0, -1.0, -0.0, {"float": "nan"}, {"float": "-inf"}, "x", None, [1.0]]
BADLIM = [{"float": "nan"}, {"float": "inf"}, {"float": "-inf"}, "x", None]


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 3, big=False))
    t = draw(gens.times(n, wide=False))
    x = draw(gens.rows(n, 1, 3, nan=draw(st.integers(0, 5)) == 0))
    e = x if draw(st.booleans()) else None
    base = []
    for _ in range(draw(st.integers(3, 16 if tier == "quick" else 40))):
        c = "c%d" % draw(st.integers(0, 1))
        kind = draw(st.sampled_from(["all", "all", "one", "cpp", "cpp", "py", "clear", "read", "read", "hand", "hand", "acf", "acf", "ds", "clean", "build", "build"]))
        o = draw(gens.options(t, limit=40))
        w, s = draw(st.sampled_from(gens.WEIGHTS)), draw(st.sampled_from(gens.SELECTIONS))
        if kind in ("all", "one"):
            f = ref.effective(t, o)
            base.append([kind, c, f if kind == "all" else {a: f[a] for a in [draw(st.sampled_from(sorted(f)))]}])
        elif kind == "py":
            base.append([kind, c, [s, w]])
        elif kind == "hand":
            k = t[draw(st.integers(0, n - 1))] - t[draw(st.integers(0, n - 1))]
            base.append([kind, c, [k, s, w, draw(st.sampled_from([0, 0, 1, 2, 3, 7, 20, 33]))]])
        elif kind == "acf":
            base.append([kind, c, kw(o, weight_function=draw(st.sampled_from([None, w])), selection_function=draw(st.sampled_from([None, s])))])
        elif kind == "clean":
            base.append([kind, c, draw(st.integers(0, 9))])
        elif kind == "build":
            base.append([kind, c, draw(st.sampled_from(["rows", "rows", "flat", "errors", "flat errors", "file", "array", "both"]))])
        else:
            base.append([kind, c, None])
    bad = []
    for _ in range(draw(st.integers(1, 10))):
        c = "c%d" % draw(st.integers(0, 1))
        kind = draw(st.sampled_from(["set", "set", "start", "start", "name", "name", "short", "short", "short", "index", "count", "args", "build", "load", "acf", "acf",
                                     "iterator", "none", "readonly"]))
        if kind == "set":
            a = draw(st.sampled_from(["lag_resolution", "lag_resolution", "max_lag", "min_lag", "alpha"]))
            arg = [a, draw(st.sampled_from({"l": BADVAL, "m": BADLIM, "a": ["x", None, [1.0]]}[a[0]]))]
        elif kind == "start":   # a resolution that cannot be stepped through, and back
            arg = [draw(st.sampled_from([5e-324, 1e-300])), draw(st.sampled_from(["cpp", "py"]))]
        elif kind in ("name", "acf"):
            arg = draw(st.sampled_from([["x", "fractional"], ["fast", "x"], ["natural", "Gaussian"], ["", "gaussian"], ["fast", ""], ["x", "x"], ["fast", 3],
                                        ["natural", ["gaussian"]]]))
            if kind == "acf" and draw(st.booleans()):
                arg = draw(st.sampled_from([{"lag_resolution": 0.0}, {"lag_resolution": -1.0}, {"max_lag": {"float": "inf"}}, {"min_lag": {"float": "nan"}}, {"alpha": "x"},
                                            {"lag_resolution": 5e-324, "max_lag": 1.0, "min_lag": 0.0}, {"nothing": 1}, {"max_lag": "1"}]))
        elif kind == "short":   # iterator for fewer series than there are
            arg = [draw(st.integers(0, len(x) - 1)), draw(st.sampled_from([0, 0, 1, 2, 5, 50])), draw(st.sampled_from([0.0, 1.5, t[1] - t[0]])), draw(st.booleans())]
        elif kind == "index":
            arg = draw(st.sampled_from([-1, -2, 2 ** 31 - 1, 2 ** 40, -2 ** 31, "x", None, 1.5]))
        elif kind == "count":
            arg = draw(st.sampled_from([-1, -5, "x", None, 2 ** 40, 1.5]))
        elif kind == "args":
            arg = draw(st.sampled_from([["calculateStandardCorrelation", 1], ["correlations", 0], ["clearCorrelation", 1], ["values", 1], ["deltaT"], ["checkLagSteps", 1],
                                        ["addCorrelationData", 3], ["findCorrelation", "x"], ["nothing"], ["lag_timeseries", 1]]))
        elif kind == "build":
            arg = draw(st.sampled_from(["short", "ragged", "longer", "longer", "empty", "text", "errors", "long errors", "none", "times", "flat", "mixed"]))
        elif kind == "load":
            arg = draw(st.sampled_from(["missing", "empty", "text", "directory"]))
        elif kind == "iterator":
            arg = draw(st.sampled_from([[1.0, -1], ["x", 2], [1.0], [None, 2], [1.0, 2.0 ** 62]]))
        elif kind == "none":
            arg = draw(st.sampled_from(["naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT", "getFractionWeights", "findCorrelation", "getGaussianWeights"]))
        else:
            arg = draw(st.sampled_from(["N_datasets", "M_datapoints"]))
        bad.append([draw(st.integers(0, len(base))), kind, c, arg])
    return {"t": t, "x": x, "e": e, "base": base, "bad": bad}


def call(on, meth, *args):
    return {"op": "call", "on": on, "meth": meth, "args": list(args)}


def good(q, kind, c, arg, t, x):
    if kind in ("all", "one"):
        return [{"op": "set", "on": c, "attr": a, "v": v} for a, v in arg.items()]
    if kind in ("cpp", "py"):
        return [{"op": "guard", "on": c, "how": "cpp" if kind == "cpp" else arg, "limit": 300}]
    if kind == "clear":
        return [call(c, "clearCorrelation")]
    if kind == "hand":
        k, s, w, h = arg
        i = {"ref": "i%d" % q}
        return ([{"op": "get", "on": c, "attr": "N_datasets", "as": "n%d" % q},
                 {"op": "new", "cls": "CorrelationIterator", "as": i["ref"], "args": [k, {"ref": "n%d" % q}]}] +
                [call(c, m, i) for m in (s + "SelectionFunctionIdx", "deltaT", STEP[w], "findCorrelation")] +
                [{"op": "it", "on": i["ref"]}, call(c, "addCorrelationData", i, h), {"op": "lags", "on": c}])
    if kind == "acf":
        return [{"op": "acf", "on": "s", "kw": arg}]
    if kind == "build":
        y = [[v / 2 for v in r] for r in x]
        a = {"rows": [t, y], "flat": [t, y[0]], "errors": [t, x, y], "flat errors": [t, x[0], y[0]], "file": ["good-in"],
             "array": [{"np": "float64", "v": t}, {"np": "float64", "v": y}], "both": [t, x + y, y + x]}[arg]
        w = [{"op": "write", "path": "good-in", "hex": "".join("%r %r\n" % (u, v) if v == v else "%r 7\n" % u for u, v in zip(t, x[0])).encode().hex()}] * (arg == "file")
        return w + [{"op": "new", "cls": "DataStructure", "as": "g%d" % q, "args": a}, {"op": "ds", "on": "g%d" % q}]
    if kind == "clean":
        return [call(c, "cleanCorrelationData", arg), {"op": "lags", "on": c}]
    return [{"op": "ds", "on": "d"}] if kind == "ds" else [{"op": "corr", "on": c}]


def failing(q, kind, c, arg, t, x):
    """(steps, indices of those that must raise)"""
    z = "z%d" % q
    if kind == "set":
        return [{"op": "set", "on": c, "attr": arg[0], "v": arg[1]}], [0]
    if kind == "start":
        how = call(c, "calculateStandardCorrelation") if arg[1] == "cpp" else {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": c}]}
        r = []
        for a, v in (("lag_resolution", arg[0]), ("min_lag", 0.0), ("max_lag", 1e9)):
            r += [{"op": "get", "on": c, "attr": a, "as": z + a}, {"op": "set", "on": c, "attr": a, "v": v}]
        return r + [how] + [{"op": "set", "on": c, "attr": a, "v": {"ref": z + a}} for a in ("lag_resolution", "min_lag", "max_lag")], [6]
    if kind == "name":
        r = []
        for a, v in (("min_lag", 0.0), ("max_lag", 0.0), ("lag_resolution", 1.0)):     # with an empty grid, names are not looked up
            r += [{"op": "get", "on": c, "attr": a, "as": z + a}, {"op": "set", "on": c, "attr": a, "v": v}]
        r.append({"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": c}] + arg})
        return r + [{"op": "set", "on": c, "attr": a, "v": {"ref": z + a}} for a in ("lag_resolution", "min_lag", "max_lag")], [6]
    if kind == "acf":
        if isinstance(arg, dict):
            return [{"op": "acf", "on": "s", "kw": arg}], [0]
        return [{"op": "acf", "on": "s", "kw": {"min_lag": 0.0, "max_lag": 1.0, "lag_resolution": 0.5, "selection_function": arg[0], "weight_function": arg[1]}}], [0]
    if kind == "short":
        size, h, k, steps = arg
        r = [{"op": "new", "cls": "CorrelationIterator", "as": z, "args": [k, size]}]
        must = []
        if steps and k >= 0:
            r += [call(c, m, {"ref": z}) for m in ("naturalSelectionFunctionIdx", "deltaT", "getFractionWeights", "findCorrelation")]
            must.append(4)
        return r + [call(c, "addCorrelationData", {"ref": z}, h)], must + [len(r)]
    if kind == "index":
        return [{"op": "new", "cls": "CorrelationIterator", "as": z, "args": [0.0, len(x)]}, call(c, "addCorrelationData", {"ref": z}, arg)], [1]
    if kind == "count":
        return [call(c, "cleanCorrelationData", arg)], [0]
    if kind == "args":
        return [call(c, *arg)], [0]
    if kind == "build":
        a = {"short": [t, [r[:-1] for r in x]], "ragged": [t, x + [x[0][:-1]]], "empty": [[], []], "text": [t, "x"], "errors": [t, x, x + x], "longer": [t, x + [x[0] + [1.0]]],
             "long errors": [t, x, x[:-1] + [x[-1] + [2.0]]], "flat": [t, x[0] + [3.0]], "mixed": [t, x + ["x"]], "none": [None, None],
             "times": [t[::-1], x]}[arg]
        r = [{"op": "new", "cls": "DataStructure", "as": z, "args": a}]
        return (r, [0]) if arg != "times" else (r + [{"op": "new", "cls": "Correlator", "as": z + "c", "args": [{"ref": z}]}], [1])
    if kind == "load":
        p = {"missing": "no such file", "directory": "."}.get(arg, "bad-in")
        w = [{"op": "write", "path": p, "hex": ("# a\nb c\n" if arg == "text" else "").encode().hex()}] if p == "bad-in" else []
        return w + [{"op": "new", "cls": "DataStructure", "as": z, "args": [p]}], [len(w)]
    if kind == "iterator":
        return [{"op": "new", "cls": "CorrelationIterator", "as": z, "args": arg}], [0]
    if kind == "none":
        return [call(c, arg, None)], [0]
    return [{"op": "set", "on": c, "attr": arg, "v": 7}], [0]


def judge(c, ctx):
    t, x = c["t"], c["x"]
    start = [sacf(t, x, c["e"]), {"op": "get", "on": "s", "attr": "data", "as": "d"}] + [{"op": "new", "cls": "Correlator", "as": "c%d" % i, "args": [{"ref": "d"}]} for i in (0, 1)]
    end = [{"op": "corr", "on": "c0"}, {"op": "corr", "on": "c1"}, {"op": "ds", "on": "d"}, {"op": "acf", "on": "s", "kw": {"min_lag": 0.0, "max_lag": 0.0, "lag_resolution": 1.0}}]
    blocks = [good(q, *b, t, x) for q, b in enumerate(c["base"])]
    plain = start + sum(blocks, []) + end
    mixed, where, must = list(start), list(range(len(start))), []
    has, rich = False, False
    for q in range(len(blocks) + 1):
        for r, (at, kind, on, arg) in enumerate(c["bad"]):
            if at == q:
                steps, idx = failing(r, kind, on, arg, t, x)
                must += [(len(mixed) + i, kind, arg) for i in idx]
                mixed += steps
                rich = rich or has
        b = blocks[q] if q < len(blocks) else end
        has = has or (q < len(blocks) and c["base"][q][0] in ("cpp", "py", "hand"))
        where += range(len(mixed), len(mixed) + len(b))
        mixed += b
    out = ctx.run(mixed)
    for i, kind, arg in must:
        need("exc" in out[i], "failing call %s %r succeeded: %s", kind, arg, str(out[i])[:200])
    alone = ctx.run(plain)
    need(len(where) == len(plain), "harness")
    for s, a, i in zip(plain, alone, where):
        b = out[i]
        a, b = ({k: v for k, v in r.items() if k != "mro"} for r in (a, b))
        need(same_out(a, b), "%s %s gives %s after failing calls, %s without them", s["op"], s.get("meth", s.get("attr", "")), str(b)[:300], str(a)[:300])
    return Info(rich, {b[1] for b in c["bad"]} | {"after results"} if rich else {b[1] for b in c["bad"]}, len(plain))
