from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C19"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3600, "seconds": 80}, "thorough": {"cases": 18000, "seconds": 780}}
RULE = ("series x a random subset of options (0 included), by keyword or position, None for omitted ones; options read back from the returned "
        "correlator and from a plain Correlator; values that cannot be used (0, NaN) are refused rather than replaced; omitted ones replaced by the documented values must change nothing; non-trivial: at least one "
        "option given and one omitted, or all omitted on a series of 3 or more points")
ASSUMES = ["defaults may differ from the reference by rounding of t - t_0; explicit defaults are the values read back"]


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=50, hi=2, lo_n=2, many=True))
    t = c["t"]
    d = ref.defaults(t)
    o = c["opts"]
    for a in ("min_lag", "max_lag"):
        if draw(st.integers(0, 5)) == 0:
            q = dict(o, **{a: 0.0})
            e = ref.effective(t, q)
            if gens.count(e["min_lag"], e["max_lag"], e["lag_resolution"]) < 80:
                o = q
    if draw(st.integers(0, 3)) == 0:   # drop options, keeping the grid small
        for a in list(o):
            q = {k: v for k, v in o.items() if k != a}
            e = ref.effective(t, q)
            if gens.count(e["min_lag"], e["max_lag"], e["lag_resolution"]) < 80:
                o = q
    if draw(st.integers(0, 11)) == 7:
        o = dict(o, alpha=draw(st.sampled_from([0.0, 0.0, 5e-324, -1.0])))
    c["opts"] = o
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional"] + gens.WEIGHTS))
    c["positional"] = draw(st.integers(0, 7))
    c["none"] = draw(st.booleans())
    if draw(st.integers(0, 7)) == 3:    # a value that cannot be used, though as false as an omitted one
        c["unusable"] = draw(st.sampled_from([["lag_resolution", 0.0], ["lag_resolution", 0.0], ["lag_resolution", 0], ["lag_resolution", -0.0], ["lag_resolution", -1.0],
                                              ["lag_resolution", float("nan")], ["min_lag", float("nan")], ["max_lag", float("nan")], ["max_lag", float("inf")],
                                              ["min_lag", float("-inf")]]))
    return c


ORDER = ["min_lag", "max_lag", "lag_resolution", "alpha", "selection_function", "weight_function", "return_correlator"]
KEY = {"min_lag": "min_lag", "max_lag": "max_lag", "lag_resolution": "res", "alpha": "alpha"}


def judge(c, ctx):
    t, x, o = c["t"], c["x"], {k: v for k, v in c["opts"].items() if v is not None}
    xr = as_rows(x)
    full = dict(o, selection_function=c["sel"], weight_function=c["w"], return_correlator=True)
    pos = [full.get(a) for a in ORDER[:c["positional"]]]
    rest = {a: full[a] for a in ORDER[c["positional"]:] if a in full}
    if c["none"]:
        rest.update({a: None for a in ORDER[c["positional"]:4] if a not in full})
    prog = [sacf(t, x), {"op": "acf", "on": "s", "args": pos, "kw": rest}, {"op": "get", "on": "s", "attr": "data", "as": "d"},
            {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}, {"op": "corr", "on": "c"}]
    # defaults when everything is omitted, on the same analysis object afterwards
    d = ref.defaults(t)
    small = gens.count(d["min_lag"], d["max_lag"], d["lag_resolution"]) < 200
    if small:
        prog.append({"op": "acf", "on": "s", "kw": {"return_correlator": True}})
    out = ctx.run(prog)
    for st_, r in zip(prog, out):
        ok(r, st_["op"])
    r, plain = out[1]["ok"], out[4]["ok"]
    need(r["n"] == 3, "return_correlator gave %d results", r["n"])
    got = r["c"]
    exact = ref.scaled(t + [t[-1] - t[0]])[2]
    span = max(abs(v) for v in t)
    tol = 0.0 if exact else 8 * ref.EPS * span
    for a in KEY:
        v = got[KEY[a]]
        need(abs(plain[KEY[a]] - d[a]) <= tol, "default %s of a correlator is %r, expected %r", a, plain[KEY[a]], d[a])
        if a in o:
            need(v == o[a], "%s=%r reads back as %r", a, o[a], v)
        else:
            need(abs(v - d[a]) <= tol, "omitted %s is %r, documented default %r (given: %r)", a, v, d[a], o)
            need(v == plain[KEY[a]], "omitted %s is %r, but %r on a plain correlator", a, v, plain[KEY[a]])
    if small:
        for a in KEY:
            need(out[5]["ok"]["c"][KEY[a]] == plain[KEY[a]], "default %s after a call with options is %r", a, out[5]["ok"]["c"][KEY[a]])
    explicit = {a: got[KEY[a]] for a in KEY}
    q = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": dict(explicit, selection_function=c["sel"], weight_function=c["w"])},
                 {"op": "acf", "on": "s", "kw": {k: v for k, v in rest.items() if k != "return_correlator"}, "args": pos[:6]}])
    ok(q[0], "SACF")
    if "unusable" in c:
        a, v = c["unusable"]
        z = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": dict(full, **{a: v})}])[1]
        need(z.get("exc") == "ValueError", "%s=%r was given and %s", a, v, "raised " + z["exc"] if "exc" in z else "not used")
    for what, z in (("explicit defaults", ok(q[1], "explicit defaults")), ("without the correlator", ok(q[2], "same call"))):
        need(z["n"] == 2, "%d results without return_correlator", z["n"])
        need(ref.same_list(z["lags"], r["lags"]), "%s: lags differ", what)
        for a, b in zip(corr_rows(z["corr"], len(xr)), corr_rows(r["corr"], len(xr))):
            need(ref.same_list(a, b), "%s: correlations differ", what)
    need(ref.same_list(got["lags"], r["lags"]), "returned correlator holds other lags")
    for a, b in zip(got["corr"], corr_rows(r["corr"], len(xr))):
        need(ref.same_list(a, b), "returned correlator holds other correlations")
    given = len(o)
    labels = ["given:" + a for a in o] + ["positional"] * (c["positional"] > 0) + ["zero option"] * (0.0 in o.values()) + ["exact"] * exact
    return Info((0 < given < 4) or (given == 0 and len(t) > 2), labels)
