"""An interrupted call leaves nothing behind: KeyboardInterrupt at every line of package code of a call, then everything is used again."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *
from lib.engine import dumps

ID = "C31"
BUILDS = ("release",)
BATCH = 100
BUDGET = {"quick": {"cases": 500, "seconds": 70}, "thorough": {"cases": 8000, "seconds": 780}}
RULE = ("one call (analysis by either route with random options, with or without the correlator; computation on a kept correlator; construction of an analysis "
        "object; setting options) interrupted by KeyboardInterrupt at the n-th executed line of package code, n over the whole call, then the same call and others "
        "repeated on the same objects; oracle: the interrupt reaches the caller or the call gives the undisturbed result, the dataset is as before and all later calls "
        "give bit for bit what they give without the interruption; non-trivial: at least 3 points of interruption in a call that computes")
ASSUMES = ["interrupts reach Python code between lines; the compiled calls run to their end", "the correlator an interrupted computation was storing to is not read before it is "
           "computed again or cleared"]


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 2, big=False))
    t = draw(gens.times(n))
    x = draw(gens.rows(n, 1, 3, nan=draw(st.integers(0, 7)) == 0))
    opts = [draw(gens.options(t, limit=25)) for _ in range(3)]
    routes = [[draw(st.sampled_from(["natural", "fast"])), draw(st.sampled_from(gens.WEIGHTS))] for _ in range(3)]
    return {"t": t, "x": x, "e": draw(st.booleans()), "opts": opts, "routes": routes, "kind": draw(st.sampled_from(["acf", "acf", "acf+", "find", "find", "again", "setup", "new"])),
            "at": draw(st.lists(st.integers(0, 400), min_size=4, max_size=12, unique=True))}


def judge(c, ctx):
    t, x, o, routes = c["t"], c["x"], c["opts"], c["routes"]
    corrs = [ref.effective(t, v) for v in o]
    sets = lambda e: [{"op": "set", "on": "c", "attr": k, "v": e[k]} for k in ("min_lag", "max_lag", "lag_resolution", "alpha")]
    acf = lambda i, **k: {"op": "acf", "on": "s", "kw": kw(o[i], selection_function=routes[i][0], weight_function=routes[i][1], **k)}
    find = lambda i: {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": "c"}] + routes[i]}
    base = [sacf(t, x, x if c["e"] else None), {"op": "get", "on": "s", "attr": "data", "as": "d"}, {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}] + sets(corrs[0])
    if c["kind"] == "again":
        base += [find(1), {"op": "lags", "on": "c"}]
    act = {"acf": acf(0), "acf+": acf(0, return_correlator=True), "find": find(0), "again": find(0), "new": sacf(t, x, x, name="q"),
           "setup": {"op": "call", "cls": "SACF", "meth": "set_up_correlation", "args": [{"ref": "c"}], "kw": kw(o[1])}}[c["kind"]]
    then = [{"op": "ds", "on": "d"}]
    if c["kind"] == "setup":     # the settings it had applied already stay
        then += sets(corrs[0])
    then += [{"op": "corr", "on": "c"}] if c["kind"] in ("acf", "acf+", "new") else [{"op": "get", "on": "c", "attr": a} for a in ("min_lag", "max_lag", "lag_resolution", "alpha")]
    probe = [find(0), {"op": "corr", "on": "c"}, {"op": "call", "on": "c", "meth": "clearCorrelation"}, {"op": "corr", "on": "c"}, acf(0), acf(1), act] + sets(corrs[0]) + \
        [{"op": "call", "on": "c", "meth": "calculateStandardCorrelation"}, {"op": "corr", "on": "c"}, sacf(t, x, name="q"),
         dict(acf(2), on="q"), {"op": "ds", "on": "d"}, {"op": "call", "on": "c", "meth": "clearCorrelation"}]
    then += probe
    want = ctx.run(base + [{"op": "interrupted", "act": act, "at": [1 << 50], "then": then}])
    for s, r in zip(base, want):
        ok(r, s["op"])
    (full, left, after), = ok(want[-1], "undisturbed call")
    ok(full, "undisturbed call")
    for s, r in zip(then, after):
        ok(r, "%s after the call" % s["op"])
    lines = (1 << 50) - left
    at = sorted({a % (lines + 1) for a in c["at"]} | {0, max(lines - 1, 0)})
    out = ctx.run(base + [{"op": "interrupted", "act": act, "at": at, "then": then}])
    fired = 0
    for n, (r, left, got) in zip(at, ok(out[-1], "interrupted calls")):
        what = "%s interrupted at line event %d of %d: " % (act.get("meth", act["op"]), n, lines)
        if left > 1 << 49:
            fired += 1
        if "ok" in r:
            need(r == full or dumps(r) == dumps(full), what + "it gave another result")
        else:
            need(r["exc"] == "KeyboardInterrupt" and left > 1 << 49, what + "it raised %s: %s", r["exc"], r.get("msg"))
        for i, (s, a, b) in enumerate(zip(then, after, got)):
            need(dumps(a) == dumps(b), what + "%s (call %d after it) gives %s instead of %s", s.get("meth") or s.get("attr") or s["op"], i, dumps(b)[:300], dumps(a)[:300])
    return Info(fired > 2 and len(t) > 2, [c["kind"], "%s/%s" % tuple(routes[0])], fired)
