"""Repeated use does not accumulate memory. Exact live-allocation counts after each round of repetitions."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *
from . import c15

ID = "C25"
BUILDS = ("count",)
BATCH = 40
BUDGET = {"quick": {"cases": 180, "seconds": 80}, "thorough": {"cases": 3000, "seconds": 780}}
RULE = ("call sequences (typical analyses with random series, options, routes, returned correlators, files, steps by hand, rejected inputs, options and "
        "names; or the misuse sequences of C15) repeated in rounds, on new objects or on objects kept throughout, everything made in a repetition dropped; oracle: "
        "live C++ allocations (counted exactly by a preloaded operator new), live Python objects, the items in Python containers and open files do not grow round after round; non-trivial: at "
        "least one computation or one rejected call in the repeated part")
ASSUMES = ["growth in the first three rounds (caches of bounded size) is allowed"]


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 2)) == 0:
        p = draw(c15.cases(tier))["prog"]
        p = [s for s in p if s["op"] not in ("corr", "it") and "1000000000" not in str(s) and "1099511627776" not in str(s) and "100000" not in str(s)]
        keep = draw(st.integers(0, 1))
        k = next(i for i, s in enumerate(p) if s.get("cls") == "CorrelationIterator" or i == len(p) - 1) if keep else 0   # iterators gather steps
        return {"kind": "misuse", "base": p[:k], "body": p[k:]}
    n = draw(gens.length(tier, 2, big=False))
    t = draw(gens.times(n, wide=False))
    x = draw(gens.rows(n, 1, 3, nan=draw(st.integers(0, 5)) == 0))
    e = x if draw(st.booleans()) else None
    np = draw(st.booleans())
    o = [draw(gens.options(t, limit=40)) for _ in range(2)]
    make = [sacf({"np": "float64", "v": t} if np else t, {"np": "float64", "v": x} if np else x, e),
            {"op": "get", "on": "s", "attr": "data", "as": "d"},
            {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}]
    acts = []
    for _ in range(draw(st.integers(1, 6))):
        a = draw(st.sampled_from(["acf", "acf+", "acfpy", "acfpy", "acfpy+", "cor", "corpy", "corclear", "steps", "file", "badfile", "badshape", "badtimes", "badopt",
                                  "badname", "badset", "read", "new"]))
        oo = o[draw(st.integers(0, 1))]
        w, s = draw(st.sampled_from(gens.WEIGHTS)), draw(st.sampled_from(gens.SELECTIONS))
        rc = True if a.endswith("+") else None
        v = draw(st.integers(0, 4))
        by = draw(st.integers(1, 1 << 20)) / (1 << 24)
        d = dict(ref.defaults(t), **kw(oo))
        if v < 2 and d["alpha"] > 0:    # another length scale every time
            oo = dict(oo, alpha={"vary": d["alpha"], "by": d["alpha"] * by})
        if v == 2 and d["max_lag"] > 0:     # another lag window every time
            oo = dict(oo, max_lag={"vary": d["max_lag"], "by": -d["max_lag"] * by / 2 ** 30})
        if a in ("acf", "acf+"):
            acts.append({"op": "acf", "on": "s", "kw": kw(oo, return_correlator=rc), "as": "r"})
        elif a in ("acfpy", "acfpy+"):
            acts.append({"op": "acf", "on": "s", "kw": kw(oo, return_correlator=rc, weight_function=w, selection_function=s), "as": "r"})
        elif a in ("cor", "corpy", "corclear"):
            acts += [{"op": "set", "on": "c", "attr": k, "v": v} for k, v in dict(ref.effective(t, o[0]), **kw(dict(oo))).items()]
            acts.append({"op": "call", "on": "c", "meth": "calculateStandardCorrelation"} if a != "corpy" else
                        {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "c"}, s, w]})
            acts.append({"op": "lags", "on": "c"})
            if a == "corclear":
                acts.append({"op": "call", "on": "c", "meth": "clearCorrelation"})
        elif a == "steps":
            acts.append({"op": "new", "cls": "CorrelationIterator", "as": "i", "args": [draw(st.sampled_from([0.0, t[1] - t[0], t[0] - t[-1], 1e9])), len(x)]})
            for m in (draw(st.sampled_from(c15.METHODS[:2])), "deltaT", draw(st.sampled_from(c15.METHODS[4:])), "findCorrelation"):
                acts.append({"op": "call", "on": "c", "meth": m, "args": [{"ref": "i"}]})
            acts.append({"op": "call", "on": "c", "meth": "addCorrelationData", "args": [{"ref": "i"}, draw(st.integers(0, 5))]})
            acts.append({"op": "it", "on": "i"})
        elif a in ("file", "badfile"):
            body = "".join("%r %r\n" % p for p in zip(t, x[0])) if a == "file" else "# nothing\n"
            acts += [{"op": "write", "path": "leak-in", "hex": body.encode().hex()},
                     {"op": "new", "cls": "DataStructure", "as": "f", "args": [draw(st.sampled_from(["leak-in", {"path": "leak-in"}, "no such file"]))]}]
            if draw(st.booleans()):
                acts[-1] = {"op": "new", "cls": "SACF", "as": "f", "args": [], "kw": {"filename": acts[-1]["args"][0]}}
        elif a == "badshape":
            acts.append(ds(t, draw(st.sampled_from([x[0][:-1], [], [x[0], x[0][1:]], "text", None])), name="q"))
        elif a == "badtimes":
            acts += [ds(t[::-1], x, name="q"), {"op": "new", "cls": "Correlator", "as": "qc", "args": [{"ref": "q"}]}]
        elif a == "badopt":
            acts.append({"op": "acf", "on": "s", "kw": draw(st.sampled_from([{"lag_resolution": 0.0}, {"lag_resolution": -1.0}, {"max_lag": "x"}]))})
        elif a == "badname":
            acts.append({"op": "acf", "on": "s", "kw": draw(st.sampled_from([{"weight_function": "x"}, {"selection_function": "x"}]))})
        elif a == "badset":
            acts.append({"op": "set", "on": "c", "attr": "lag_resolution", "v": draw(st.sampled_from([0.0, "x"]))})
        elif a == "read":
            acts += [{"op": "corr", "on": "c"}, {"op": "ds", "on": "d"}]
        else:
            acts += make
    keep = draw(st.booleans())
    return {"kind": "typical", "base": make if keep else [], "body": acts if keep else make + acts}


def judge(c, ctx):
    made = {s["as"] for s in c["body"] if "as" in s} - {s.get("as") for s in c["base"]}    # else a rejected call would let an older object be used
    once = c["base"] + c["body"] + [{"op": "del", "names": sorted(made)}]

    def rounds(sizes):
        out = ctx.run(once + [{"op": "repeat", "prog": c["body"], "rounds": sizes}], "count")
        h = ok(out[-1], "repeating")
        return out, [h[i::5] for i in range(5)]
    out, held = rounds([2] * 5)
    if any(h[-1] > h[1] for h in held):     # suspicious: rounds of growing size
        sizes = [4, 8, 16, 32]
        held = rounds([4] + sizes)[1]
        for what, h in zip(("live C++ allocations", "bytes in live C++ allocations", "live Python objects", "open files", "items in Python containers"), held):
            least = sizes if "Python" in what else [1] * 4     # the interpreter's own objects come and go
            need(not all(b - a >= m for a, b, m in zip(h, h[1:], least)), "%s grow with every round of repetitions: %s", what, h)
    body = out[len(c["base"]):-2]
    did = [s for s, r in zip(c["body"], body) if "ok" in r and (s["op"] == "acf" or s.get("meth") in ("calculateStandardCorrelation", "find_correlation"))]
    raised = [r["exc"] for r in body if "exc" in r]
    return Info(bool(did or raised), [c["kind"], "kept objects" if c["base"] else "new objects"] + ["raised " + e for e in set(raised)] + ["computes"] * bool(did))
