"""Random call sequences, valid and misused, on a build with address and undefined-behaviour sanitizers."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C15"
BUILDS = ("san", "release")
BUDGET = {"quick": {"cases": 1200, "seconds": 80}, "thorough": {"cases": 20000, "seconds": 780}}
RULE = ("sequences of 5 to 60 calls on pools of datasets, correlators and iterators of different sizes: every exposed method, steps in and out of "
        "order, shared iterators, special floats for lags/options/sizes, indices from -2^31 to 10^5, None and wrong types, copies and pickles of objects, computations between; "
        "run with ASan, UBSan and checked containers; a share with huge sizes on the plain build; non-trivial: at least 3 successful step calls and "
        "at least one call that raised")
ASSUMES = ["objects made by bypassing their constructors (__new__ alone, subclasses that do not call __init__, unbound methods on None) are pybind11's own matter and not generated",
           "valid grids of more than 400 lags are skipped", "sizes above 10^5 only on the plain build, with 3 GB of address space"]

SPECIAL = ["nan", "inf", "-inf", "0.0", "-0.0", "5e-324", "1e308", "-1e308", "1e-300", "4294967296.0", "-1.0"]
METHODS = ["naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT", "findCorrelation", "getFractionWeights", "getFractionSquaredWeights",
           "getGaussianWeights"]


@st.composite
def cases(draw, tier):
    mode = "huge" if draw(st.integers(0, 24)) == 7 else "san"
    nd = draw(st.integers(1, 3))
    data = []
    for _ in range(nd):
        n = draw(st.integers(1, 9)) if draw(st.integers(0, 4)) else draw(st.integers(10, 70))
        bad = draw(st.integers(0, 14))
        t = draw(gens.times(n, wide=False))
        if bad == 7:
            t = t[::-1]
        x = draw(gens.rows(n, 1, 4, nan=bad in (1, 2)))
        if bad == 5:
            x[0] = x[0][:-1]
        e = draw(gens.rows(n, len(x), len(x))) if draw(st.booleans()) else None
        data.append([t, x[0] if len(x) == 1 and draw(st.booleans()) else x, e if e is None or len(x) > 1 else None])
    t0 = data[0][0]
    span = abs(t0[-1] - t0[0]) or 1.0

    def number():
        if draw(st.integers(0, 4)) == 0:
            return gens.rejected(float(draw(st.sampled_from(SPECIAL))))
        return draw(st.sampled_from([0.0, span / 2, -span / 2, span / 3, span, -span, span * 2, -span * 2, t0[0] - t0[-1], span / 7, 1.0, -1.0, 0.25]))

    nc, ni = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    prog = []
    for i, (t, x, e) in enumerate(data):
        prog.append(ds(t, x, e, "d%d" % i))
    prog.append(sacf(data[0][0], data[0][1]))
    for i in range(nc):
        prog.append({"op": "new", "cls": "Correlator", "as": "c%d" % i, "args": [{"ref": "d%d" % draw(st.integers(0, nd - 1))}]})

    def size():
        w = draw(st.integers(0, 11))
        if w < 8:
            return draw(st.integers(0, 6))
        if w == 8:
            return draw(st.sampled_from([0.5, 1.5, 2.999, -0.5]))
        if w == 9:
            return draw(st.sampled_from([100, 10 ** 5]))
        if w == 10:
            return gens.rejected(float(draw(st.sampled_from(["nan", "inf", "-1.0", "1e19", "-1e300"]))))
        return draw(st.sampled_from([10 ** 9, 2 ** 40])) if mode == "huge" else 3

    def index():
        w = draw(st.integers(0, 11))
        if w < 7:
            return draw(st.integers(0, 12))
        if w < 9:
            return draw(st.sampled_from([-1, -2, -(2 ** 31), 100, 500]))
        if w == 9:
            return draw(st.sampled_from([2 ** 31 - 1, 2 ** 31 - 2, 2 ** 31, 2 ** 63, -(2 ** 40)]))
        if w == 10:
            return draw(st.sampled_from([10 ** 5, 4097]))
        return draw(st.sampled_from([10 ** 9, 2 ** 30, 2 ** 29])) if mode == "huge" else 7

    def new_it(i):
        prog.append({"op": "new", "cls": "CorrelationIterator", "as": "i%d" % i, "args": [number(), size()]})
    for i in range(ni):
        new_it(i)
    m = draw(st.integers(5, 40 if tier == "quick" else 90))
    for _ in range(m):
        c = "c%d" % draw(st.integers(0, nc - 1))
        i = draw(st.integers(0, ni - 1))
        it = {"ref": "i%d" % i}
        w = draw(st.integers(0, 99))
        if w < 40:
            prog.append({"op": "call", "on": c, "meth": draw(st.sampled_from(METHODS)), "args": [it]})
        elif w < 45:      # the steps in order
            for meth in (draw(st.sampled_from(METHODS[:2])), "deltaT", draw(st.sampled_from(METHODS[4:])), "findCorrelation"):
                prog.append({"op": "call", "on": c, "meth": meth, "args": [it]})
        elif w < 55:
            prog.append({"op": "call", "on": c, "meth": "addCorrelationData", "args": [it, index()]})
        elif w < 61:
            v = index()
            if mode != "huge" and isinstance(v, int) and 2 ** 28 < v < 2 ** 31:
                v = 33      # an allowed size of many gigabytes
            prog.append({"op": "call", "on": c, "meth": "cleanCorrelationData", "args": [v]})
        elif w < 66:
            prog.append({"op": "guard", "on": c, "how": "cpp" if draw(st.booleans()) else
                         [draw(st.sampled_from(gens.SELECTIONS)), draw(st.sampled_from(gens.WEIGHTS + ["nope"]))]})
        elif w < 72:
            prog.append({"op": "set", "on": c, "attr": draw(st.sampled_from(["min_lag", "max_lag", "lag_resolution", "alpha"])), "v": number()})
        elif w < 78:
            new_it(i)
        elif w < 80:
            prog.append({"op": "set", "on": "i%d" % i, "attr": "k", "v": number()})
        elif w < 83:
            prog.append({"op": "call", "on": c, "meth": "clearCorrelation"})
        elif w < 88:
            prog.append(draw(st.sampled_from([{"op": "corr", "on": c}, {"op": "it", "on": "i%d" % i}, {"op": "call", "on": c, "meth": "values"},
                                              {"op": "ds", "on": "d0"}, {"op": "call", "on": c, "meth": "checkLagSteps"}])))
        elif w < 90:
            prog.append({"op": "weights", "on": c, "meth": draw(st.sampled_from(["fractionWeightFunction", "gaussianWeightFunction",
                                                                                 "fractionSquaredWeightFunction"])), "v": [1.0, 1e308]})
        elif w < 93:
            prog.append({"op": "gacf", "on": "s", "kw": {a: number() for a in ("min_lag", "max_lag", "lag_resolution", "alpha") if draw(st.booleans())}})
        elif w < 95:
            j = draw(st.integers(0, nc - 1))
            prog.append({"op": "new", "cls": "Correlator", "as": "c%d" % j, "args": [{"ref": "d%d" % draw(st.integers(0, nd - 1))}]})
        elif w < 97:
            j = draw(st.integers(0, nd - 1))
            d = data[draw(st.integers(0, nd - 1))]
            prog.append(ds(d[0], d[1], d[2], "d%d" % j))
        elif w < 98 and draw(st.booleans()):
            o = draw(st.sampled_from(["d0", c, "i%d" % i, "s"]))
            prog.append({"op": "copy", "on": o, "how": draw(st.sampled_from(["copy", "deepcopy", "0", "2", "4"])), "as": o})
            prog.append({"s": {"op": "acf", "on": "s", "kw": {"min_lag": 0.0, "max_lag": 2.0, "lag_resolution": 0.5}}, "d": {"op": "ds", "on": o}, "c": {"op": "guard", "on": o, "how": "cpp"}, "i": {"op": "it", "on": o}}[o[0]])
        elif w < 98:
            prog.append({"op": "del", "names": [draw(st.sampled_from(["d0", "s", "d1", "c0", "i0"]))]})
            prog.append({"op": "gc", "n": 1})
        else:
            wrong = draw(st.sampled_from([None, "x", 1.0, [], {"obj": 1}, {"ref": c}]))
            prog.append(draw(st.sampled_from([
                {"op": "call", "on": c, "meth": draw(st.sampled_from(METHODS)), "args": [wrong]},
                {"op": "call", "on": c, "meth": "addCorrelationData", "args": [wrong, 0]},
                {"op": "new", "cls": "Correlator", "as": "z", "args": [wrong]},
                {"op": "new", "cls": "CorrelationIterator", "as": "z", "args": [wrong if not isinstance(wrong, float) else None, 1]},
                {"op": "new", "cls": "DataStructure", "as": "z", "args": [[1.0, 2.0], wrong if not isinstance(wrong, list) else None]},
                {"op": "set", "on": c, "attr": "max_lag", "v": wrong if not isinstance(wrong, float) else None}])))
    prog += [{"op": "corr", "on": "c%d" % i} for i in range(nc)] + [{"op": "it", "on": "i%d" % i} for i in range(ni)]
    return {"mode": mode, "prog": prog}


def judge(c, ctx):
    out = ctx.run(c["prog"], "san" if c["mode"] == "san" else "release")
    steps = sum(1 for s, r in zip(c["prog"], out) if "ok" in r and s["op"] in ("call", "guard", "gacf") and r["ok"] != "skipped")
    raised = [r["exc"] for r in out if "exc" in r]
    labels = {c["mode"]} | {"raised " + e for e in raised}
    if any(s["op"] == "guard" and r.get("ok") == "computed" for s, r in zip(c["prog"], out)):
        labels.add("computed")
    return Info(steps >= 3 and bool(raised), labels, len(out))
