import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C11"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3600, "seconds": 80}, "thorough": {"cases": 20000, "seconds": 780}}
GUIDED = "series"
RULE = ("shapes from 1x1 to 40 rows and thousands of points, values of any magnitude including subnormal, -0.0, NaN, infinities (data and errors), "
        "times of any order, errors absent/present, flat or as rows; non-trivial: at least 2 points and 2 distinct values")
ASSUMES = ["mean and normalised values may carry accumulated rounding; mean not judged for series with infinities or sums that overflow"]

odd = st.sampled_from([0.0, -0.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-300, 0.1, 1 / 3,
                       9007199254740993.0, 16777217.0, 1e16, 123456789.123456789])


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, huge=True))
    m = draw(st.sampled_from([1, 1, 1, 2, 3, 5, 40])) if n < 200 else draw(st.sampled_from([1, 2]))
    unordered = draw(st.integers(0, 4)) == 0
    t = draw(gens.values(n)) if unordered else draw(gens.times(n))
    kind = draw(st.sampled_from(["plain", "plain", "plain", "nan", "odd", "inf"]))
    x = [draw(gens.values(n, nan=kind == "nan" and draw(st.booleans()))) for _ in range(m)]
    if kind in ("odd", "inf"):
        for _ in range(draw(st.integers(1, 4))):
            x[draw(st.integers(0, m - 1))][draw(st.integers(0, n - 1))] = draw(odd) if kind == "odd" else \
                draw(st.sampled_from([math.inf, -math.inf]))
    e = None
    if draw(st.booleans()):
        e = [draw(gens.values(n, nan=draw(st.integers(0, 3)) == 0)) for _ in range(m)]
        em = draw(st.integers(0, 9))
        if em == 0:
            c = draw(st.sampled_from([0.0, -0.0, 1.0, -1.0, math.nan, math.inf]))
            e = [[c] * n for _ in range(m)]
        elif em == 1:
            e = [list(r) for r in x]
        elif em == 2:
            e = [[-abs(v) for v in r] for r in e]
        elif em < 6:
            e[0][draw(st.integers(0, n - 1))] = draw(odd)
    flat = m == 1 and draw(st.booleans())
    return {"t": t, "x": x[0] if flat else x, "e": (e[0] if flat else e) if e else None, "via": draw(st.sampled_from(["ds", "sacf", "sacfkw"]))}


def bits(a, b):
    """same float bits, NaN matched with NaN"""
    return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)


def allbits(a, b):
    return len(a) == len(b) and all(map(bits, a, b))


def adapt(g):
    rows, er = g["x"], g["e"]
    flat = len(rows) == 1
    yield {"t": g["t"], "x": rows[0] if flat else rows, "e": (er[0] if flat else er) if er else None, "via": "ds"}


def judge(c, ctx):
    t, x, e = c["t"], c["x"], c["e"]
    xr = as_rows(x)
    er = as_rows(e) if e else None
    n = len(t)
    if c["via"] == "ds":
        prog = [ds(t, x, e)]
    else:
        prog = [sacf(t, x, e) if c["via"] == "sacf" else
                {"op": "new", "cls": "SACF", "as": "s", "args": [], "kw": dict({"timeseries": t, "values": x}, **({"errors": e} if e else {}))},
                {"op": "get", "on": "s", "attr": "data", "as": "d"}]
    prog.append({"op": "ds", "on": "d"})
    inc = all(a < b for a, b in zip(t, t[1:])) and all(a - t[0] < b - t[0] for a, b in zip(t, t[1:]))
    if inc:
        prog += [{"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}, {"op": "corr", "on": "c"},
                 {"op": "call", "on": "c", "meth": "values"}, {"op": "call", "on": "c", "meth": "normalised_timeseries"}]
    prog.append({"op": "ds", "on": "d"})
    out = ctx.run(prog)
    for st_, r in zip(prog, out):
        ok(r, "%s %s" % (st_["op"], st_.get("cls", st_.get("meth", ""))))
    base = len(prog) - 2 - (4 if inc else 0)
    for d in (out[base]["ok"], out[-1]["ok"]):
        need(d["N"] == len(xr) and d["M"] == n, "reports %r series of %r points for %d of %d", d["N"], d["M"], len(xr), n)
        need(allbits(d["t"], t), "times are not those given")
        need(len(d["x"]) == len(xr) and all(map(allbits, d["x"], xr)), "values are not those given")
        if er is None:
            need(d["e"] == [], "errors reported although none were given")
        else:
            need(len(d["e"]) == len(er) and all(map(allbits, d["e"], er)), "errors are not those given")
        nt = [v - t[0] for v in t]
        need(all(map(ref.same, d["nt"], nt)) and len(d["nt"]) == n, "normalised times differ from t - t_0")
        need(bits(d["max"], t[-1]), "last time is %r", d["max"])
        mid = nt[n // 2] if n % 2 else (nt[n // 2 - 1] + nt[n // 2]) / 2
        alt = nt[n // 2] if n % 2 else nt[n // 2 - 1] / 2 + nt[n // 2] / 2
        lo, hi = min(mid, alt), max(mid, alt)
        need(ref.same(d["med"], mid) or lo - 2 * ref.EPS * abs(lo) <= d["med"] <= hi + 2 * ref.EPS * abs(hi),
             "middle normalised time is %r, expected %r", d["med"], mid)
        need(len(d["mean"]) == len(xr) and len(d["nx"]) == len(xr), "number of means or normalised rows")
        for j, row in enumerate(xr):
            p = [v for v in row if v == v]
            mean = d["mean"][j]
            if p and max(map(abs, p)) < 1e308 / len(p):   # sums cannot overflow
                mx = max(abs(v) for v in p)
                want = math.fsum(p) / len(p)
                need(abs(mean - want) <= (len(p) + 4) * ref.EPS * mx + 1e-320, "mean of series %d is %r, expected %r", j, mean, want)
            f = [abs(v) for v in p if not math.isinf(v)]
            if len(f) < len(p) and (not f or max(f) < 1e308 / len(f)):     # infinities are values, only NaN is missing
                pos, neg = math.inf in p, -math.inf in p
                need(mean != mean if pos and neg else mean == (math.inf if pos else -math.inf), "mean of series %d with infinite values is %r", j, mean)
            for v, y in zip(row, d["nx"][j]):
                if v == v and mean == mean and not math.isinf(v) and not math.isinf(mean) and not math.isinf(v - mean):
                    need(abs(y - (v - mean)) <= 2 * ref.EPS * (abs(v) + abs(mean)), "normalised value of %r is %r with mean %r", v, y, mean)
                elif v != v:
                    need(y != y, "normalised value of NaN is %r", y)
            need(len(d["nx"][j]) == n, "normalised row has %d points", len(d["nx"][j]))
    if inc:
        k, v, nt2 = (out[base + 2 + i]["ok"] for i in range(3))
        need(k["N"] == len(xr) and k["M"] == n, "correlator reports %r series of %r points", k["N"], k["M"])
        need(len(v) == len(xr) and all(map(allbits, v, xr)), "correlator's values are not those given")
        need(allbits(nt2, out[-1]["ok"]["nt"]), "correlator's normalised times are not the dataset's")
    distinct = len({v for r in xr for v in r}) > 1
    labels = ["rows>1"] * (len(xr) > 1) + ["errors"] * (e is not None) + ["flat"] * (x is not xr) + ["unordered"] * (not inc) + \
        ["even"] * (n % 2 == 0) + ["n=1"] * (n == 1)
    return Info(n > 1 and distinct, labels)
