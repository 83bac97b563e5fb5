import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C17"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 1400, "seconds": 80}, "thorough": {"cases": 10000, "seconds": 780}}
RULE = ("a computation repeated after other computations (whose returned correlators are used further), after mutating the caller's lists or arrays, the returned lists and the accessors' lists, "
        "with and without errors, from a second analysis object and (1 case in 25) in a new process; oracle: bit-identical results and dataset; "
        "non-trivial: a varying series with at least 2 lags and at least one mutation or other computation in between")
ASSUMES = []


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=40, hi=3, big=draw(st.integers(0, 7)) == 0, nan=draw(st.integers(0, 6)) == 0))
    n = len(c["t"])
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional"] + gens.WEIGHTS))
    c["others"] = [[draw(gens.options(c["t"], limit=40)), draw(st.sampled_from(gens.SELECTIONS)), draw(st.sampled_from(gens.WEIGHTS)),
                    draw(st.sampled_from(["", "", "cor", "recompute", "reset", "clear"]))]
                   for _ in range(draw(st.integers(0, 3)))]
    c["np"] = draw(st.integers(0, 2)) == 0 and n > 1
    er = draw(gens.rows(n, len(as_rows(c["x"])), len(as_rows(c["x"])), nan=draw(st.booleans())))
    c["e"] = er if isinstance(c["x"][0], list) else er[0]
    c["mut"] = [draw(st.sampled_from(["in_t", "in_x", "in_e", "lags", "corr", "data", "errors", "timeseries", "normalised_data", "clear_lags", "clear_corr"]))
                for _ in range(draw(st.integers(0, 5)))]
    c["at"] = draw(st.integers(0, n - 1))
    c["fresh"] = draw(st.integers(0, 24)) == 7
    return c


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    rows = isinstance(x[0], list)
    k = kw(o, selection_function=c["sel"], weight_function=c["w"])
    box = (lambda v: {"np": "float64", "v": v}) if c["np"] else (lambda v: v)
    if c["at"] % 4 == 1:    # input that a computation rejects is left alone as well
        back = t[::-1]
        r = ctx.run([{"op": "let", "as": "T", "v": box(back)}, {"op": "let", "as": "X", "v": box(x)}, sacf({"ref": "T"}, {"ref": "X"}),
                     {"op": "acf", "on": "s", "kw": {}}, {"op": "val", "on": "T"}, {"op": "val", "on": "X"}])
        need(ref.same_list(ok(r[4]), back) and all(map(ref.same_list, as_rows(ok(r[5])), as_rows(x))), "the caller's descending times or their values were changed")
    prog = [{"op": "let", "as": "T", "v": box(t)}, {"op": "let", "as": "X", "v": box(x)}, {"op": "let", "as": "E", "v": box(c["e"])},
            sacf({"ref": "T"}, {"ref": "X"}, {"ref": "E"}), {"op": "get", "on": "s", "attr": "data", "as": "d"},
            {"op": "ds", "on": "d"}, {"op": "acf", "on": "s", "kw": k, "as": "R"}, {"op": "ds", "on": "d"}]
    prog += [{"op": "val", "on": v} for v in "TXE"]
    marks = {"ds": [5, 7], "acf": [6], "in": [8, 9, 10]}
    for q, s, w, how in c["others"]:
        prog.append({"op": "acf", "on": "s", "kw": kw(q, selection_function=s, weight_function=w, return_correlator=True if how else None), "as": "O"})
        if how == "recompute":    # go on using the correlator that came back
            prog.append({"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "O.c"}, c["sel"], w]})
        elif how == "reset":
            prog += [{"op": "set", "on": "O.c", "attr": a, "v": v} for a, v in (("alpha", 0.375), ("min_lag", 0.0), ("max_lag", 0.0), ("lag_resolution", 7.0))]
        elif how == "clear":
            prog.append({"op": "call", "on": "O.c", "meth": "clearCorrelation"})
    prog.append({"op": "acf", "on": "s", "kw": k})
    marks["acf"].append(len(prog) - 1)
    i = c["at"]
    nl = None
    for m in c["mut"]:
        if m.startswith("in_"):
            name = m[3].upper()
            idx = [i] if name == "T" or not rows else [0, i]
            prog.append({"op": "setitem", "on": name, "idx": idx, "v": 12345.678})
        elif m in ("lags", "corr"):
            prog.append({"op": "setitem", "on": "R", "idx": [0 if m == "lags" else 1, 0], "v": 99.0})
        elif m.startswith("clear"):
            prog.append({"op": "clearlist", "on": "R", "idx": [0 if m == "clear_lags" else 1]})
        else:
            prog += [{"op": "call", "on": "d", "meth": m, "as": "L"},
                     {"op": "setitem", "on": "L", "idx": [i] if m == "timeseries" else [0, i], "v": -777.0}]
    prog += [{"op": "ds", "on": "d"}, {"op": "acf", "on": "s", "kw": k}]
    marks["ds"].append(len(prog) - 2)
    marks["acf"].append(len(prog) - 1)
    # again from equal inputs, without errors, and with the correlator
    prog += [sacf(t, x, name="s2"), {"op": "acf", "on": "s2", "kw": k}, {"op": "acf", "on": "s2", "kw": dict(k, return_correlator=True)}]
    marks["acf"] += [len(prog) - 2, len(prog) - 1]
    out = ctx.run(prog)
    for st_, r in zip(prog, out):
        if st_["op"] in ("setitem", "clearlist"):
            continue   # results may be empty
        ok(r, "%s %s" % (st_["op"], st_.get("meth", "")))
    # inputs unchanged by building and computing
    for pos, v in zip(marks["in"], (t, x, c["e"])):
        got = out[pos]["ok"]
        a, b = as_rows(got), as_rows(v)
        need(len(a) == len(b) and all(map(ref.same_list, a, b)), "the caller's input was changed")
    first = out[6]["ok"]
    fr = corr_rows(first["corr"], len(as_rows(x)))

    def equal(r, what):
        need(ref.same_list(first["lags"], r["lags"]), "%s: lags differ", what)
        q = corr_rows(r["corr"], len(fr))
        for a, b in zip(fr, q):
            need(ref.same_list(a, b), "%s: correlations differ: %r and %r", what, a[:6], b[:6])

    names = ["", "repeated after other computations", "repeated after mutations %s" % c["mut"], "from a new object without errors",
             "with the correlator returned"]
    for pos, what in list(zip(marks["acf"], names))[1:]:
        equal(out[pos]["ok"], what)
    d0 = out[marks["ds"][0]]["ok"]
    for pos, what in zip(marks["ds"][1:], ("computing", "mutating returned lists and inputs")):
        d1 = out[pos]["ok"]
        for key in d0:
            a, b = d0[key], d1[key]
            flat = lambda v: [z for r in v for z in (r if isinstance(r, list) else [r])] if isinstance(v, list) else [v]
            need(ref.same_list(flat(a), flat(b)), "dataset's %s changed by %s", key, what)
    labels = ["mut:" + m for m in set(c["mut"])] + ["other:" + h for h in {v[3] for v in c["others"]} if h] + ["np"] * c["np"]
    if c["fresh"]:
        r = ctx.fresh([sacf(t, x, c["e"]), {"op": "acf", "on": "s", "kw": k}])
        equal(ok(r[1], "autocorrelation in a new process"), "in a new process")
        labels.append("new process")
    series = [ref.Series(v) for v in as_rows(x)]
    return Info(moving(series, first["lags"]) and len(first["lags"]) > 1 and bool(c["mut"] or c["others"]), labels, len(marks["acf"]))
