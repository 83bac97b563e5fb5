import math
import struct

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C23"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2700, "seconds": 80}, "thorough": {"cases": 14000, "seconds": 780}}
RULE = ("the same numbers as lists, tuples, numpy arrays (float64; integer/float32 where exact; strided, reversed, Fortran, transposed, read-only), "
        "numpy or Python scalars and mixtures, for times, values, errors and options; oracle: bit-identical to the plain-list result; non-trivial: "
        "at least one argument in another representation, 2 or more points")
ASSUMES = ["rows of one element in numpy arrays (which numpy itself converts to numbers) are not generated"]

ROW = ["list", "tuple", "np", "np:strided", "np:reversed", "np:readonly", "int", "npint", "np32", "nps", "mix", "npobj"]
MAT = ["list", "tuple", "np", "np:strided", "np:reversed", "np:fortran", "np:transposed", "np:readonly", "npint", "np32", "rows", "rowmix", "tuplerows"]
SCALAR = ["float", "int", "np.float64", "np.float32", "np.int64", "np.int32"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["any", "int", "int", "f32"]))
    if kind == "any":
        c = draw(gens.series_case(tier, limit=30, hi=3, lo_n=2, big=draw(st.integers(0, 9)) == 0))
    else:
        c = draw(gens.series_case(tier, limit=30, hi=3, lo_n=2, exact=True, integer=True, big=False,
                                  tmodes=["int", "reg", "bursty"] if kind == "int" else None))
        if kind == "int" and not all(v == int(v) for v in c["t"]):
            n = len(c["t"])
            b = draw(st.binary(min_size=n, max_size=n))
            t, a = [], float(draw(st.integers(-50, 50)))
            for v in b:
                t.append(a)
                a += 1.0 + v % 4
            c["t"] = t
            c["opts"] = draw(gens.options(t, limit=30, exact=True))
    xr = as_rows(c["x"])
    n = len(c["t"])
    c["e"] = None
    if draw(st.booleans()):
        e = draw(gens.rows(n, len(xr), len(xr), integer=draw(st.booleans())))
        c["e"] = e if c["x"] is xr else e[0]
    if draw(st.integers(0, 11)) == 5:    # a dataset may hold times in any order, only computing rejects them
        c["t"] = c["t"][::-1]
    c["rt"] = draw(st.sampled_from(ROW))
    mat = c["x"] is xr
    c["rx"] = draw(st.sampled_from(MAT if mat else ROW))
    c["re"] = draw(st.sampled_from(MAT if mat else ROW))
    c["ro"] = [draw(st.sampled_from(SCALAR)) for _ in range(4)]
    c["seed"] = draw(st.integers(0, 10 ** 6))
    c["sel"] = draw(st.sampled_from(["natural", "natural", "fast"]))
    c["w"] = draw(st.sampled_from(["fractional", "fractional", "gaussian", "fractional_squared"]))
    return c


def is_int(v, bits=53):
    return v == v and abs(v) < 2.0 ** bits and v == int(v) and math.copysign(1, v) * (v or 1) == (v or 1)


def is_f32(v):
    try:
        return struct.unpack("f", struct.pack("f", v))[0] == v
    except (OverflowError, ValueError):
        return False


def scalar(v, how):
    if how == "int" and is_int(v):
        return {"int": str(int(v))}
    if how in ("np.int64", "np.int32") and is_int(v, 31 if how.endswith("32") else 53):
        return {"nps": how[3:], "v": int(v)}
    if how == "np.float32" and is_f32(v):
        return {"nps": "float32", "v": v}
    if how == "np.float64":
        return {"nps": "float64", "v": v}
    return v


def row(v, how, seed):
    """(encoded, representation really used)"""
    if how == "tuple":
        return {"tuple": v}, how
    if how.startswith("np:"):
        return {"np": "float64", "v": v, "how": how[3:]}, how
    if how == "int" and all(is_int(a) for a in v):
        return {"list": [int(a) for a in v]}, how
    if how == "npint" and all(is_int(a) for a in v):
        small = all(is_int(a, 15) for a in v)
        return {"np": ["int64", "int32", "int16"][seed % 3] if small else "int64", "v": [int(a) for a in v]}, how
    if how == "np32" and all(is_f32(a) for a in v):
        return {"np": "float32", "v": v}, how
    if how == "nps":
        return {"list": [scalar(a, "np.float64") for a in v]}, how
    if how == "mix":
        return {"list": [scalar(a, SCALAR[(seed + i * 7) % len(SCALAR)]) for i, a in enumerate(v)]}, how
    if how in ("np", "npobj"):
        return {"np": "float64" if how == "np" else "object", "v": v}, how
    return v, "list"


def matrix(m, how, seed):
    if not isinstance(m[0], list):
        return row(m, how, seed)
    if how == "tuple":
        return {"tuple": [{"tuple": r} for r in m]}, how
    if how == "tuplerows":
        return {"list": [{"tuple": r} for r in m]}, how
    if how == "rows":
        return {"list": [{"np": "float64", "v": r} for r in m]}, how
    if how == "rowmix":
        return {"list": [row(r, ROW[(seed + 5 * i) % len(ROW)], seed + i)[0] for i, r in enumerate(m)]}, how
    flat = [a for r in m for a in r]
    if how == "npint" and all(is_int(a) for a in flat):
        return {"np": "int64", "v": [[int(a) for a in r] for r in m]}, how
    if how == "np32" and all(is_f32(a) for a in flat):
        return {"np": "float32", "v": m}, how
    if how == "np" or how.startswith("np:"):
        return {"np": "float64", "v": m, "how": how[3:] or None}, how
    return m, "list"


def judge(c, ctx):
    t, x, e, o = c["t"], c["x"], c["e"], c["opts"]
    T, u1 = row(t, c["rt"], c["seed"])
    X, u2 = matrix(x, c["rx"], c["seed"])
    E, u3 = matrix(e, c["re"], c["seed"]) if e is not None else (None, "list")
    O, used = {}, {u1, u2, u3}
    for (a, v), how in zip(sorted((a, v) for a, v in o.items() if v is not None), c["ro"]):
        O[a] = scalar(v, how)
        if O[a] is not v:
            used.add("option " + how)
    f = {"selection_function": c["sel"], "weight_function": c["w"]}
    prog = []
    for name, (tt, xx, ee, oo) in (("a", (t, x, e, kw(o))), ("b", (T, X, E, O))):
        prog += [sacf(tt, xx, ee, name=name), {"op": "get", "on": name, "attr": "data", "as": name + "d"}, {"op": "ds", "on": name + "d"},
                 {"op": "acf", "on": name, "kw": dict(oo, return_correlator=True, **f)}]
    prog += [ds(T, X, E, name="z"), {"op": "ds", "on": "z"}]
    out = ctx.run(prog)
    what = "times as %s, values as %s, errors as %s, options as %s" % (u1, u2, u3, sorted(u for u in used if u.startswith("option")))
    turned = len(t) > 1 and t[0] > t[1]
    for st_, r in zip(prog, out):
        if turned and st_["op"] == "acf":
            need(r.get("exc") == "ValueError", "descending times are %s (%s)", r.get("exc", "accepted"), what)
        else:
            ok(r, "%s (%s)" % (st_["op"], what))
    flat = lambda v: [z for r in v for z in (r if isinstance(r, list) else [r])] if isinstance(v, list) else [v]
    for d1, d2 in ((out[2]["ok"], out[6]["ok"]), (out[2]["ok"], out[9]["ok"])):
        for k in d1:
            need(ref.same_list(flat(d1[k]), flat(d2[k])) and (not isinstance(d1[k], list) or len(d1[k]) == len(d2[k])), "dataset's %s differs with %s", k, what)
    if turned:
        return Info(False, ["descending times"])
    r, q = out[3]["ok"], out[7]["ok"]
    need(ref.same_list(r["lags"], q["lags"]), "lags differ with %s", what)
    need(ref.same_list(flat(r["corr"]), flat(q["corr"])), "correlations differ with %s", what)
    for k in ("max_lag", "min_lag", "res", "alpha"):
        need(ref.same(r["c"][k], q["c"][k]), "%s differs with %s", k, what)
    return Info(used != {"list"} and len(t) > 1, sorted("t:" + u if u == u1 else u for u in used))
