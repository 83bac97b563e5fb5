"""Time and memory grow in proportion to the work: measured at two sizes of the same generated task."""
from hypothesis import strategies as st

from lib.common import *

ID = "C30"
BUILDS = ("count",)
BATCH = 20
BUDGET = {"quick": {"cases": 150, "seconds": 60, "shards": 4}, "thorough": {"cases": 1500, "seconds": 780, "shards": 4}}
RULE = ("one kind of call (an analysis by the compiled or the stepwise route, a repeated computation on one correlator, constructing a correlator, building or "
        "loading a dataset, reading results, storing lags by hand) at two sizes, one of samples, lags, series or number of earlier calls being 32 times larger (or samples and lags 8 times), on "
        "generated series (even, jittered, with gaps, crowded at the front); oracle: CPU time (least of several runs, exceeded three times in a row) and bytes asked for "
        "grow at most 4 times as much as the work (samples x lags x series, samples with a logarithm), and the bytes held at a time by the compiled calls stay "
        "within a fixed multiple of the input plus the results; non-trivial: the larger call takes at least a millisecond or 100 kB")
ASSUMES = ["the stepwise route's iterators are freed when the interpreter collects them, so its peak memory is not judged",
           "cost is judged at the sizes generated, not asymptotically"]
FACTOR = 32
SLACK = 4
NAMES = {"n": "32 times the samples", "both": "8 times the samples, 8 times the lags", "lags": "32 times the lags", "rows": "32 times the series", "uses": "32 times the earlier calls"}


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["acf", "acf", "again", "again", "steps", "read", "store", "new", "build", "file"]))
    dims = {"acf": ["n", "both", "lags", "rows", "uses"], "again": ["n", "both", "lags", "rows", "uses"], "steps": ["n", "both", "lags", "rows", "uses"], "read": ["n", "lags", "rows", "uses"],
            "store": ["lags", "rows", "uses"], "new": ["n", "rows", "uses"], "build": ["n", "rows", "uses"], "file": ["n", "uses"]}[kind]
    dim = draw(st.sampled_from(dims))
    c = {"kind": kind, "dim": dim, "pattern": draw(st.sampled_from(["even", "jitter", "gaps", "front"])), "from": draw(st.sampled_from(["zero", "neg", "late", "before"])),
         "start": draw(st.sampled_from([0.0, -100.0, 2454833.0])), "values": draw(st.sampled_from(["bits", "gauss"])), "seed": draw(st.integers(0, 1 << 30)),
         "w": draw(st.sampled_from(["fractional", "fractional_squared", "gaussian"])), "sel": draw(st.sampled_from(["natural", "fast"])),
         "n": draw(st.integers(60, 200)), "rows": draw(st.integers(1, 3)), "lags": draw(st.integers(20, 60)), "uses": 2, "reps": 3}
    if c["w"] == "fractional" and c["sel"] == "natural":
        c["sel"] = "fast"
    if dim == "n":
        c.update(n=draw(st.integers(400, 600)), lags=draw(st.integers(3, 30)), rows=1)
    elif dim == "both":
        c.update(n=draw(st.integers(200, 250)), lags=draw(st.integers(15, 20)), rows=1)
    elif dim == "lags":
        c.update(n=draw(st.integers(3, 6)), lags=draw(st.integers(150, 200) if kind == "steps" else st.integers(600, 800)), rows=draw(st.integers(1, 2)))
    elif dim == "rows":
        c.update(n=draw(st.integers(30, 60)), lags=draw(st.integers(10, 20)), rows=draw(st.integers(2, 4)))
    return c


def judge(c, ctx):
    dim = c["dim"]
    big = dict(c, n=c["n"] * 8, lags=c["lags"] * 8) if dim == "both" else dict(c, **{dim: c[dim] * FACTOR})
    work = {"uses": 1, "n": FACTOR * 1.7, "both": 64 * 1.5}.get(dim, FACTOR)

    def measure(reps):
        a, b = [ok(s, "the measured call") for s in ctx.run([dict(c, op="cost", reps=reps), dict(big, op="cost", reps=reps)], "count")]
        return a, b
    small, large = measure(c["reps"])
    for attempt in range(3):
        if large[0] <= SLACK * work * max(small[0], 3e-4) + 0.02:
            break
        if attempt == 2:
            need(False, "%s: more (%s) takes %.3g s of CPU time instead of %.3g s", c["kind"], NAMES[dim], large[0], small[0])
        small, large = measure(7)
    need(large[1] <= (1.5 if dim == "uses" else SLACK) * work * small[1] + 100000, "%s: more (%s) asks for %d bytes in total instead of %d", c["kind"], NAMES[dim], large[1],
         small[1])
    if c["kind"] != "steps":
        for m, s in ((c, small), (big, large)):
            n, lags = m["n"], 0 if c["kind"] in ("new", "build", "file") else m["lags"]
            room = 250 * (m["rows"] * (n + lags) + n + lags) + 131072
            need(s[2] <= room, "%s of %d samples, %d lags, %d series holds %d bytes at a time", c["kind"], n, lags, m["rows"], s[2])
    return Info(large[0] > 1e-3 or large[1] > 1e5, [c["kind"], "by " + dim, c["pattern"]])
