from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C24"
VARIANTS = ("gxx-O0", "clang-O2", "gxx-Os")
BUILDS = ("release",) + VARIANTS
BUDGET = {"quick": {"cases": 1400, "seconds": 80}, "thorough": {"cases": 10000, "seconds": 780}}
GUIDED = "series"
RULE = ("series (NaN, constant, several rows, gaps below 1, lags between samples) x options x routes, run on the project's own build (g++ -O3, "
        "Python headers first) and on three builds without Python headers in front of the engine: g++ -O0 with pattern-filled locals, clang++ -O2, "
        "g++ -Os; oracle: same lags, same correlations up to rounding, same dataset, same outcome for rejected options; non-trivial: a "
        "varying series with a lag that pairs points at a fractional distance")
ASSUMES = ["x86-64 without fused multiply-add", "compilers g++ 13 and clang++ 18"]


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=40, hi=3, nan=draw(st.integers(0, 5)) == 0, big=draw(st.integers(0, 7)) == 0))
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional"] + gens.WEIGHTS))
    c["bad"] = draw(st.sampled_from([None, None, None, {"lag_resolution": 0.0}, {"lag_resolution": 1e-300}, {"max_lag": 1e300}]))
    c["file"] = draw(st.integers(0, 5)) == 0
    return c


def adapt(g):
    for c in guided_uses(g, nan=True):
        yield dict(c, bad=None, file=False)


def plain_constant(v):
    """Equal values whose sum and mean are exact in any order of additions: nothing is left to rounding."""
    return all(z == v[0] for z in v) and v[0] * 1024 == int(v[0] * 1024) and abs(v[0]) <= 2.0**30 if all(abs(z) < 1e300 for z in v) else False


def judge(c, ctx):
    t, x, o = c["t"], c["x"], c["opts"]
    xr = as_rows(x)
    prog = [sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o)},
            {"op": "acf", "on": "s", "kw": kw(o, selection_function=c["sel"], weight_function=c["w"])},
            {"op": "get", "on": "s", "attr": "data", "as": "d"}, {"op": "ds", "on": "d"},
            {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}, {"op": "corr", "on": "c"},
            {"op": "acf", "on": "s", "kw": dict(kw(o), **c["bad"])} if c["bad"] else {"op": "ds", "on": "d"}]
    if c["file"]:
        path = ctx.tmp + "/v.dat"
        text = "# t x e\n" + "".join("%r,%r %r\n" % (a, b, 0.5) if b == b else "%r\n" % a for a, b in zip(t, xr[0]))
        prog += [{"op": "write", "path": path, "hex": text.encode().hex()}, {"op": "new", "cls": "DataStructure", "as": "f", "args": [path]}, {"op": "ds", "on": "f"}]
    base = ctx.run(prog, "release")
    series = [ref.Series(v) for v in xr]
    alpha = ref.effective(t, o)["alpha"]
    n = 0
    flat = lambda v: [z for r in v for z in (r if isinstance(r, list) else [r])] if isinstance(v, list) else [v]
    for kind in VARIANTS:
        out = ctx.run(prog, kind)
        for i, (st_, a, b) in enumerate(zip(prog, base, out)):
            what = "%s on %s" % (st_["op"], kind)
            need(a.get("exc") == b.get("exc"), "%s: %r, but %r on the project's build", what, b.get("exc", "accepted"), a.get("exc", "accepted"))
            if "exc" in a:
                continue
            p, q = a["ok"], b["ok"]
            if st_["op"] == "acf":
                need(ref.same_list(p["lags"], q["lags"]), "%s: lags differ (%d and %d)", what, len(p["lags"]), len(q["lags"]))
                if "exc" not in base[0]:
                    w = c["w"] if i == 2 else "fractional"
                    s = c["sel"] if i == 2 else "natural"
                    if alpha > 0:
                        n += same_corr(t, series, p["lags"], corr_rows(p["corr"], len(xr)), corr_rows(q["corr"], len(xr)), w, alpha,
                                       "project's build vs " + kind, s, most=24)
                    for j, v in enumerate(xr):
                        if plain_constant(v):
                            u, z = corr_rows(p["corr"], len(xr))[j], corr_rows(q["corr"], len(xr))[j]
                            n += len(u)
                            need(ref.same_list(u, z), "constant series %d on %s: correlations differ from the project's build", j, kind)
            elif st_["op"] in ("ds", "corr"):
                for key in p:
                    u, v = flat(p[key]), flat(q[key])
                    need(len(u) == len(v), "%s: %s has other length", what, key)
                    if key in ("mean", "nx"):
                        m = max((abs(z) for r in p.get("x", []) for z in r if z == z), default=0.0)
                        good = all(ref.same(y, z) or abs(y - z) <= 4 * (len(t) + 4) * ref.EPS * m for y, z in zip(u, v))
                    else:
                        good = ref.same_list(u, v)
                    need(good, "%s: %s differs from the project's build", what, key)
    lags = base[1]["ok"]["lags"] if "ok" in base[1] else []
    frac = any(d % 1 for k in lag_subset(lags, 8) for _, _, d in ref.select(t, lags[k]).items) if len(t) < 200 else False
    labels = [c["sel"], c["w"]] + ["rejected option"] * bool(c["bad"]) + ["file"] * c["file"]
    return Info(bool(frac) and moving(series, lags), labels, n)
