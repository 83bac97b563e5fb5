import math
from fractions import Fraction

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C18"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3000, "seconds": 80}, "thorough": {"cases": 16000, "seconds": 780}}
RULE = ("evenly sampled series (exactly representable t_0 + i*dt) x alpha x selection x weight, lags 0..n-1 by the default grid (natural), an "
        "explicit one or single requests; oracle: the direct textbook sums; non-trivial: a varying series with at least 3 lags")
ASSUMES = ["up to rounding"]


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 2, huge=True))
    dt = draw(st.sampled_from([1.0, 0.5, 2.0, 3.0, 0.125, 30.0, 1024.0, 2.0 ** -20, 86400.0, 7.0, 2.0 ** 80, 2.0 ** -100]))
    t0 = dt * draw(st.sampled_from([0.0, 0.0, 1.0, -5.0, 100.0, 2.0 ** 20, -n + 1.0]))
    t = [t0 + i * dt for i in range(n)]
    m = draw(st.integers(1, 3 if n < 200 else 1))
    sel = draw(st.sampled_from(gens.SELECTIONS))
    kind = draw(st.sampled_from(["grid", "grid", "default", "default", "part"])) if n < 2400 else "part"
    o = {}
    if kind == "grid":
        o = {"min_lag": 0.0, "max_lag": (n - 1) * dt}
        if draw(st.booleans()):
            o["lag_resolution"] = dt
    elif kind == "part":
        a = draw(st.integers(0, n - 1))
        s = draw(st.sampled_from([1, 2, 3, 7]))
        o = {"min_lag": a * dt, "max_lag": min(n - 1, a + (40 if n < 2400 else 4)) * dt, "lag_resolution": s * dt}
    al = draw(st.sampled_from([None, None, dt, dt / 100, dt * 1000, dt / 3, dt * n]))
    if al is not None:
        o["alpha"] = al
    return {"n": n, "dt": dt, "t": t, "x": draw(gens.rows(n, m, m)), "opts": o, "sel": sel, "w": draw(st.sampled_from(gens.WEIGHTS))}


def judge(c, ctx):
    t, x, o, n, dt = c["t"], c["x"], c["opts"], c["n"], c["dt"]
    r = ctx.run([sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o, selection_function=c["sel"], weight_function=c["w"])}])
    ok(r[0], "SACF")
    r = ok(r[1], "autocorrelation")
    rows = corr_rows(r["corr"], len(x))
    lags = r["lags"]
    hs = [(i, int(k / dt)) for i, k in enumerate(lags) if 0 <= k <= (n - 1) * dt]
    for i, h in hs:
        need(lags[i] == h * dt, "lag %r is not a multiple of dt %r", lags[i], dt)
    if "min_lag" not in o:
        need([h for _, h in hs] == list(range(n)), "default grid does not visit the lags 0..%d dt: %r", n - 1, [h for _, h in hs][:20])
    elif "lag_resolution" not in o or o["lag_resolution"] == dt:
        a, b = int(o["min_lag"] / dt), int(o["max_lag"] / dt)
        need([h for _, h in hs] == list(range(a, b + 1)), "grid does not visit the lags %d..%d dt", a, b)
    count = 0
    keep = hs if len(hs) <= 40 else [hs[q] for q in lag_subset([h for _, h in hs], 40)]
    for j, row in enumerate(x):
        s = ref.Series(row)
        if not s.ok:
            continue
        y = s.y
        for i, h in keep:
            terms = [y[q] * y[q + h] for q in range(n - h)]
            want = math.fsum(terms) / s.N
            mag = math.fsum(map(abs, terms))
            err = math.fsum((abs(y[q]) + abs(y[q + h]) + s.ey) * s.ey for q in range(n - h))
            tol = 2 * ((err + (n + 24) * ref.EPS * mag) / s.N + abs(want) * s.nerr) + 1e-300
            count += 1
            need(abs(rows[j][i] - want) <= tol, "series %d at lag %d*dt: %r, textbook value %r (tolerance %.3g; %s, %s)", j, h, rows[j][i], want, tol,
                 c["sel"], c["w"])
    return Info(count >= 3, [c["sel"], c["w"]] + ["default grid"] * ("min_lag" not in o) + ["n>=200"] * (n >= 200), count)
