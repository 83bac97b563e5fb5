"""Running out of memory raises MemoryError and damages nothing. Every large allocation of a call fails in turn."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *
from .c22 import STEP
from .c26 import same_out

ID = "C29"
BUILDS = ("count",)
BATCH = 60
BUDGET = {"quick": {"cases": 900, "seconds": 80}, "thorough": {"cases": 4000, "seconds": 780}}
RULE = ("one call (building a dataset from lists, arrays or a file, an analysis by either route with or without the correlator, a computation on a new or used "
        "correlator, the steps of a lag, storing a lag, resizing, reading results) on series of 50 to 260 samples, repeated with its n-th allocation of 400 bytes "
        "or more failing, n swept over the call; oracle: the call either raises MemoryError or gives the undisturbed result, and then the dataset and the "
        "settings are as before, there are as many lags as correlations (after storing or resizing: those of before), and the same call repeated gives the undisturbed result; non-trivial: at least one "
        "failure inside the call raised")
ASSUMES = ["allocations below 400 bytes, mostly the binding layer's own, are not failed", "an iterator whose step failed is not used again"]


@st.composite
def cases(draw, tier):
    n = draw(st.integers(52, 150)) if draw(st.integers(0, 3)) else draw(st.integers(150, 260))
    t = draw(gens.times(n))
    x = draw(gens.rows(n, 1, 3, modes=["small", "dyadic", "offset", "messy"]))
    lags = [draw(gens.options(t, limit=90)) for _ in range(2)]
    kind = draw(st.sampled_from(["build", "build", "buildnp", "file", "acf", "acf", "acfpy", "acf+", "compute", "compute", "recompute", "computepy", "correlator", "steps", "store", "store",
                                 "resize", "resize", "read", "readds", "readds"]))
    return {"t": t, "x": x, "errors": draw(st.booleans()), "kind": kind, "opts": lags, "w": draw(st.sampled_from(gens.WEIGHTS)), "sel": draw(st.sampled_from(gens.SELECTIONS)),
            "flat": draw(st.booleans()), "h": draw(st.sampled_from([0, 3, 51, 64, 100, 150])), "size": draw(st.sampled_from([0, 1, 20, 51, 60, 120, 200])),
            "pick": draw(st.integers(0, 8)), "at": sorted(draw(st.lists(st.integers(0, 1000), min_size=4, max_size=12)))}


def judge(c, ctx):
    t, x, kind = c["t"], c["x"], c["kind"]
    e = x if c["errors"] else None
    v = x[0] if len(x) == 1 and c["flat"] else x
    base = [sacf(t, x, e), {"op": "get", "on": "s", "attr": "data", "as": "d"}, {"op": "write", "path": "memory-in", "hex": "".join("%r %r %r\n" % (a, b, b) for a, b in
                                                                                                                             zip(t, x[0])).encode().hex()}]
    call = lambda m, *a: {"op": "call", "on": "c", "meth": m, "args": list(a)}
    options = lambda o: [{"op": "set", "on": "c", "attr": a, "v": b} for a, b in ref.effective(t, o).items()]
    find = {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "c"}, c["sel"], c["w"]]}
    cor = [{"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}]
    it = {"ref": "i"}
    itn = [{"op": "new", "cls": "CorrelationIterator", "as": "i", "args": [t[3] - t[0], len(x)]}]
    steps = [call(m, it) for m in (c["sel"] + "SelectionFunctionIdx", "deltaT", STEP[c["w"]], "findCorrelation")]
    make, after = [], []      # after: reads whose result must be as without a fault
    loose = []                # and whose lags only have to be as many as the correlations
    settings = [{"op": "get", "on": "c", "attr": a} for a in ("min_lag", "max_lag", "lag_resolution", "alpha")]
    if kind in ("build", "buildnp"):
        wrap = (lambda a: {"np": "float64", "v": a}) if kind == "buildnp" else (lambda a: a)
        act = ds(wrap(t), wrap(v), wrap(v) if c["errors"] else None, name="n")
        after = [act, {"op": "ds", "on": "n"}]
    elif kind == "file":
        act = {"op": "new", "cls": "DataStructure", "as": "n", "args": ["memory-in"]}
        after = [act, {"op": "ds", "on": "n"}]
    elif kind.startswith("acf"):
        act = {"op": "acf", "on": "s", "kw": kw(c["opts"][0], return_correlator=True if kind == "acf+" else None, weight_function=c["w"] if kind == "acfpy" else None,
                                                selection_function=c["sel"] if kind == "acfpy" else None)}
        after = [act]
    elif kind == "correlator":
        act = cor[0]
        after = [act] + settings
    elif kind in ("compute", "recompute", "computepy"):
        make = cor + options(c["opts"][1]) + ([call("calculateStandardCorrelation")] if kind != "compute" else []) + options(c["opts"][0])
        act = call("calculateStandardCorrelation") if kind != "computepy" else find
        loose = [{"op": "lags", "on": "c"}]
        after = settings + [act, {"op": "lags", "on": "c"}]
    else:
        make = cor + options(c["opts"][0]) + [call("calculateStandardCorrelation")] + itn
        loose = [{"op": "lags", "on": "c"}]
        if kind == "steps":
            k = c["pick"] % 4
            make += steps[:k]
            act = steps[k]
            loose, after = [], settings + [{"op": "lags", "on": "c"}] + itn + steps + [{"op": "it", "on": "i"}]
        elif kind == "store":
            make += steps
            act = call("addCorrelationData", it, c["h"])
            after = settings + [{"op": "it", "on": "i"}, act, {"op": "lags", "on": "c"}]
        elif kind == "resize":
            act = call("cleanCorrelationData", c["size"])
            after = settings + [act, {"op": "lags", "on": "c"}]
        elif kind == "read":
            act = [call(m) for m in ("lag_timeseries", "correlations", "values", "normalised_timeseries")]
            loose, after = [], settings + [{"op": "lags", "on": "c"}] + act
        else:
            act = [{"op": "call", "on": "d", "meth": m} for m in ("data", "errors", "timeseries", "normalised_data", "normalised_timeseries")]
            loose, after = [], act
    check = loose + [{"op": "ds", "on": "d"}] + after
    acts = act if isinstance(act, list) else [act]
    at = [0.0] + [p / 1001 for p in (c["at"] if len(acts) < 2 else c["at"][:2])]
    out = ctx.run(base + [{"op": "faults", "what": "memory", "make": make, "act": a, "check": check, "at": at} for a in acts])
    hit, n = False, 0
    for act, r in zip(acts, out[len(base):]):
        total, plain, got = ok(r, "sweeping")
        hit = sweep(c, ctx, act, check, loose, base + make, total, plain, got) or hit
        n += max(1, len(got))
    return Info(hit, [kind] + ["raised"] * hit, n)


def sweep(c, ctx, act, check, loose, before, total, plain, got):
    kind = c["kind"]
    for o, s in zip(plain, [act] + check):
        need("ok" in o, "%s raised %s without a fault", s["op"], o.get("exc"))
    stored = ok(ctx.run(before + loose)[-1], "reading the lags before") if kind in ("store", "resize") else None
    hit = False
    for where, r in got:
        what = "allocations %s of %d of %s failing" % (where, total, kind)
        need("ok" in r[0] or r[0]["exc"] == "MemoryError" or (kind == "file" and r[0]["exc"] == "BadDataFileReadException"), "%s raised %s: %s", what, r[0].get("exc"), r[0].get("msg"))
        hit = hit or "exc" in r[0]
        first = 1 + len(loose)
        if "ok" in r[0]:
            first = 0
        elif loose:
            l = ok(r[1], "reading the lags after a failure")
            need(all(len(row) == len(l["lags"]) for row in l["corr"]), "%s: %d lags but %s correlations", what, len(l["lags"]), [len(row) for row in l["corr"]])
            need(stored is None or same_out(stored, l), "%s changed the stored lags to %s", what, str(l)[:200])
        for s, a, b in list(zip([act] + check, plain, r))[first:]:
            need(same_out(a, b), "after %s, %s %s gives %s, undisturbed %s", what, s["op"], s.get("meth", s.get("attr", "")), str(b)[:200], str(a)[:200])
    return hit
