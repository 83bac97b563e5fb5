"""Hypothesis strategies for series, option sets and call sequences. Bulk numbers are drawn as bytes (fast, shrink well)."""
import random

from hypothesis import strategies as st

from . import ref

POW = [1.0, 1.0, 1.0, 0.5, 2.0, 0.25, 0.125, 4.0, 2.0 ** -10, 2.0 ** 10, 2.0 ** -20, 2.0 ** 17]


def pick(draw, seq):
    return seq[draw(st.integers(0, len(seq) - 1))]


def blob(draw, n):
    """n bytes: drawn one by one for short series (they shrink), expanded from a drawn seed for long ones."""
    if n <= 160:
        return draw(st.binary(min_size=n, max_size=n))
    return random.Random(draw(st.integers(0, 2 ** 32))).randbytes(n)


HUGE = [2500, 4097, 5000, 9000, 17000, 33000, 40000, 66000]


@st.composite
def length(draw, tier="quick", lo=1, big=True, huge=False):
    w = draw(st.integers(0, 99))
    if huge and w == 53 and draw(st.integers(0, 2 if tier == "quick" else 5)) == 1:
        return draw(st.sampled_from(HUGE))
    if w == 7 or w == 0:
        n = draw(st.integers(1, 2))
    elif w < 12:
        n = draw(st.integers(2, 4))
    elif w < 62 or not big:
        n = draw(st.integers(3, 14))
    elif w < 86:
        n = draw(st.integers(10, 48))
    elif w < 96:
        n = draw(st.integers(49, 160))
    else:
        n = draw(st.sampled_from([200, 255, 256, 257, 300, 511, 513, 700, 1001, 1024, 1025, 1500, 2049] if tier == "quick" else
                                 [255, 257, 512, 700, 1025, 2049, 3000, 4097, 6000]))
    return max(lo, n)


@st.composite
def times(draw, n, exact=None, modes=None, wide=True):
    """n strictly increasing finite times. exact: only values whose sums/differences are exact in double."""
    if n > 48 and not modes and draw(st.integers(0, 2)) == 1:
        modes = ["blocks"]
    mode = draw(st.sampled_from(modes or ["reg", "int", "int", "bursty", "multi", "blocks", "tiny", "jitter", "messy", "messy2", "messyreg"]))
    if exact and mode.startswith("messy"):
        mode = "int"
    unit = pick(draw, POW)
    if wide and draw(st.integers(0, 49)) == 31:   # far from the usual time scales, squares out of range
        unit = draw(st.sampled_from([2.0 ** -600, 2.0 ** -530, 2.0 ** 530, 2.0 ** 600]))
    b = blob(draw, n)
    if mode == "reg":
        k = draw(st.integers(1, 12))
        g = [float(k)] * n
    elif mode == "int":
        w = draw(st.sampled_from([2, 3, 4, 9, 30]))
        g = [1.0 + v % w for v in b]
    elif mode == "bursty":
        g = [1.0 if v < 200 else float((v - 199) * 7) for v in b]
    elif mode == "blocks":   # stretches of different cadence with gaps between
        g = []
        while len(g) < n:
            m = draw(st.integers(1 + n // 20, n // 2 + 1))
            g += [draw(st.sampled_from([1.0, 3.0, 20.0, 100.0]))] + [draw(st.sampled_from([1.0, 0.125, 0.015625, 0.25]))] * m
        g = g[:n]
    elif mode == "multi":
        g = [2.0 ** (v % 13) for v in b]
    elif mode == "tiny":
        g = [1.0 if v % 5 else 0.00390625 * (1 + v // 5) for v in b]
    elif mode == "jitter":
        g = [16.0 + (v % 16 - 8) for v in b]
        unit = unit / 16
    elif mode == "messy":
        g = [(1 + v) * 0.1 for v in b]
    elif mode == "messyreg":
        g = [draw(st.sampled_from([0.1, 1 / 3, 0.7, 0.0208333, 1.1]))] * n
    else:
        g = [((1 + v) ** 1.5) / 7.0 for v in b]
    t0 = draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -3.0, 1000.0, -4096.0, 2.0 ** 21, 2454833.0])) * (unit if draw(st.booleans()) else 1.0)
    if mode.startswith("messy") and draw(st.booleans()):
        t0 += 0.123456
    out = [t0]
    for v in g[1:]:
        out.append(out[-1] + v * unit)
    if mode == "messyreg":
        out = [t0 + i * (g[0] * unit) for i in range(n)]
    # rounding may merge neighbours when t0 dwarfs the gaps
    nt = [v - out[0] for v in out]
    if any(not a < c for a, c in zip(nt, nt[1:])) or any(not a < c for a, c in zip(out, out[1:])):
        out = [float(i) for i in range(n)]
    if exact:
        _, _, e = ref.scaled(out + [out[-1] - out[0]])
        if not e:
            out = [float(i) for i in range(n)]
    return out


@st.composite
def values(draw, n, nan=False, integer=False, modes=None):
    mode = draw(st.sampled_from(modes or ["small", "small", "bits", "dyadic", "offset", "offset", "messy", "scale", "spike", "walk", "floats"]))
    if integer and mode in ("messy", "scale", "floats", "dyadic"):
        mode = "small"
    if mode == "floats" and n > 24:
        mode = "messy"
    if mode == "floats":
        x = draw(st.lists(st.floats(-1e40, 1e40, allow_nan=False).map(lambda v: v if abs(v) > 1e-40 else 0.0), min_size=n, max_size=n))
    else:
        b = blob(draw, n)
        if mode == "small":
            x = [float(v - 128 if v > 127 else v) for v in b]
            w = draw(st.sampled_from([0, 3, 7]))
            if w:
                x = [float(v % w) for v in b]
        elif mode == "bits":
            x = [float(v & 1) for v in b]
        elif mode == "dyadic":
            x = [(v - 100) / 16.0 for v in b]
        elif mode == "offset":
            off = draw(st.sampled_from([1e3, 2.0 ** 24, -2.0 ** 24, 16777217.0, 1e9, -2.0 ** 30, 123456.789]))
            s = draw(st.sampled_from([1.0, 0.125, 1.0, 3.0]))
            if integer:
                off, s = float(int(off)), 1.0
            x = [off + (v % 64) * s for v in b]
        elif mode == "messy":
            x = [(v - 127) * 0.1 + 1 / 3 for v in b]
        elif mode == "scale":
            s = draw(st.sampled_from([1e-30, 1e-12, 1e12, 1e30, 1e60, 1e-60, 3e-45, 1e39]))
            x = [(v - 77) * s for v in b]
        elif mode == "spike":
            x = [0.0] * n
            for _ in range(draw(st.integers(1, 3))):
                x[draw(st.integers(0, n - 1))] = float(draw(st.integers(-100, 100)))
        else:
            x, a = [], 0.0
            for v in b:
                a += float(v % 9 - 4)
                x.append(a)
    if n > 1 and max(x) == min(x) and draw(st.integers(0, 7)) != 7:   # mostly avoid constant series
        x[n // 2] += 1.0 if abs(x[0]) < 2.0 ** 50 else x[0]
    if nan:
        m = draw(st.sampled_from(["one", "some", "first", "last", "many"]))
        if m == "one":
            x[draw(st.integers(0, n - 1))] = float("nan")
        elif m == "first":
            x[0] = float("nan")
        elif m == "last":
            x[-1] = float("nan")
        else:
            b = blob(draw, n)
            x = [float("nan") if v % (7 if m == "some" else 2) == 1 else u for u, v in zip(x, b)]
    return x


@st.composite
def rows(draw, n, lo=1, hi=5, **kw):
    return [draw(values(n, **kw)) for _ in range(draw(st.integers(lo, hi)))]


def count(lo, hi, res):
    if not hi >= lo:
        return 0
    return (hi - lo) / res + 2


@st.composite
def options(draw, t, limit=70, exact=None, alpha=True, force=()):
    """Option set for the series t with at most about `limit` lags. Keys omitted or None: defaults."""
    d = ref.defaults(t)
    span, gap = d["max_lag"], d["lag_resolution"]
    o = {}
    single = len(t) == 1
    if single:
        span, gap = 1.0, 1.0
    w = draw(st.integers(0, 99))
    if w < 30 and count(d["min_lag"], d["max_lag"], d["lag_resolution"]) <= limit:
        pass
    else:
        kinds = ["gap", "gap/2", "gap/4", "gap*2", "gap*1.5", "span/8", "span/2", "span*3", "step"]
        if not exact:
            kinds += ["gap/3", "gap*0.7", "span/7", "span/10"]
        kind = draw(st.sampled_from(kinds))
        res = {"gap": gap, "gap/2": gap / 2, "gap/4": gap / 4, "gap*2": gap * 2, "gap*1.5": gap * 1.5, "span/8": span / 8,
               "span/2": span / 2, "span*3": span * 3, "step": t[1] - t[0] if len(t) > 1 else 1.0, "gap/3": gap / 3, "gap*0.7": gap * 0.7,
               "span/7": span / 7, "span/10": span / 10}[kind]
        if kind != "gap" or draw(st.booleans()):
            o["lag_resolution"] = res
        if single:
            o["lag_resolution"] = res
        steps = draw(st.integers(0, min(limit - 3, 40) if draw(st.integers(0, 9)) else limit - 3))
        lo = draw(st.sampled_from(["default", "zero", "neg", "negoff", "pos", "posoff", "tail", "beyond", "gapaligned"]))
        if lo == "default":
            lov = -span if not single else 0.0
        elif lo == "zero":
            lov = o["min_lag"] = 0.0
        elif lo == "neg":
            lov = o["min_lag"] = -res * draw(st.integers(1, 12))
        elif lo == "negoff":
            lov = o["min_lag"] = -res * (draw(st.integers(0, 6)) + draw(st.sampled_from([0.5, 0.25, 0.75])))
        elif lo == "pos":
            lov = o["min_lag"] = res * draw(st.integers(1, 12))
        elif lo == "posoff":
            lov = o["min_lag"] = res * (draw(st.integers(0, 6)) + draw(st.sampled_from([0.5, 0.25, 0.75])))
        elif lo == "tail":
            lov = o["min_lag"] = span - res * draw(st.integers(0, 4))
        elif lo == "gapaligned":
            lov = o["min_lag"] = (t[draw(st.integers(0, len(t) - 1))] - t[draw(st.integers(0, len(t) - 1))])
        else:
            lov = o["min_lag"] = draw(st.sampled_from([-1.0, 1.0])) * (span + res * draw(st.integers(0, 6)))
        hi = draw(st.sampled_from(["steps", "steps", "steps", "frac", "frac", "default", "default", "zero", "below", "equal"]))
        if hi == "steps":
            o["max_lag"] = lov + steps * res
        elif hi == "frac":
            o["max_lag"] = lov + (steps + draw(st.sampled_from([0.5, 0.25]))) * res
        elif hi == "zero":
            o["max_lag"] = 0.0
        elif hi == "below":
            o["max_lag"] = lov - draw(st.sampled_from([0.0, 1.0, 0.5])) * res
        elif hi == "equal":
            o["max_lag"] = lov
        e = ref.effective(t, o)
        if count(e["min_lag"], e["max_lag"], e["lag_resolution"]) > limit:
            o["max_lag"] = e["min_lag"] + steps * e["lag_resolution"]
            if count(e["min_lag"], o["max_lag"], e["lag_resolution"]) > limit:
                o["lag_resolution"] = max(span, abs(e["min_lag"])) / 4
                o["max_lag"] = e["min_lag"] + 6 * o["lag_resolution"]
    e = ref.effective(t, o)
    big = max(abs(e["min_lag"]), abs(e["max_lag"]))
    if not big + e["lag_resolution"] > big:   # cannot be stepped through: C16's subject
        o["lag_resolution"] = big / 4
    if alpha:
        a = draw(st.sampled_from([None, None, None, "med*2", "med/2", "gap", "span", "tiny", "huge", "third"]))
        m = d["alpha"] if not single else 1.0
        v = {"med*2": m * 2, "med/2": m / 2, "gap": gap, "span": span, "tiny": gap / 64, "huge": span * 4096, "third": m / 3}.get(a)
        if v is not None or single:
            o["alpha"] = v or 1.0
        if v is None and single and draw(st.booleans()):
            o["alpha"] = 0.5
    return o


MANY = [1022, 1023, 1024, 1025, 1026, 1100, 1500, 2047, 2049, 3000, 4097, 5000]


@st.composite
def many_options(draw, t, exact=None, numbers=MANY):
    """Option set with more than a thousand lags for a (short) series."""
    gap, span = (ref.min_gap(t), t[-1] - t[0]) if len(t) > 1 else (1.0, 1.0)
    res = draw(st.sampled_from([gap, gap / 2, gap / 8, span / 64, span / 1024] + ([] if exact else [span / 1000, gap * 0.7])))
    big = max(abs(t[0]), abs(t[-1]), span)
    n = draw(st.sampled_from(numbers))
    lo = -res * draw(st.sampled_from([0, 1, n // 2, n - 3, n, n // 3 + 0.5, n // 2 + 0.25]))
    if not big + res > big or abs(lo) > 1e300:
        res, lo = 1.0, -float(n // 2)
    o = {"min_lag": lo, "max_lag": lo + n * res, "lag_resolution": res}
    a = draw(st.sampled_from([None, gap, span]))
    if a is not None or len(t) == 1:
        o["alpha"] = a or 1.0
    return o


def exact_case(t, opts, x=None):
    """True if every lag decision for these times and options is exact in double arithmetic."""
    e = ref.effective(t, opts)
    vals = list(t) + [e["min_lag"], e["max_lag"]]
    if abs(e["lag_resolution"]) < 1e300:
        vals.append(e["lag_resolution"])
    ints, _, ex = ref.scaled(vals)
    return ex


@st.composite
def series_case(draw, tier="quick", limit=70, exact=None, nan=False, hi=3, big=True, lo_n=1, alpha=True, integer=False, flat=None,
                tmodes=None, xmodes=None, huge=False, many=False):
    if many and draw(st.integers(0, 39)) == 17:
        n = draw(st.integers(max(2, lo_n), 9))
        t = draw(times(n, exact=exact, modes=tmodes))
        x = draw(rows(n, 1, 2, nan=nan, integer=integer, modes=xmodes))
        return {"t": t, "x": x if len(x) > 1 or draw(st.booleans()) else x[0], "opts": draw(many_options(t, exact))}
    n = draw(length(tier, lo_n, big, huge=huge))
    t = draw(times(n, exact=exact, modes=tmodes))
    lim = limit if n < 200 else max(8, limit // 4) if n < 700 else 8 if n < 2400 else 4
    opts = draw(options(t, limit=lim, exact=exact, alpha=alpha))
    k = hi if n < 200 else min(hi, 2)
    x = draw(rows(n, 1, k if draw(st.integers(0, 2)) == 0 else 1, nan=nan, integer=integer, modes=xmodes))
    if len(x) == 1 and (draw(st.booleans()) if flat is None else flat):
        x = x[0]
    return {"t": t, "x": x, "opts": opts}


def as_rows(x):
    return [x] if not x or not isinstance(x[0], list) else x


WEIGHTS = ["fractional", "fractional_squared", "gaussian"]
SELECTIONS = ["natural", "fast"]


def rejected(v):
    """Tagged JSON for a float that JSON-over-programs should carry exactly (inf, nan included)."""
    return {"float": repr(v)}
