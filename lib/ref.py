"""Reference models. Decisions (which pairs, which neighbour) are made in exact integer arithmetic; sums carry an error bound."""
import math
from bisect import bisect_left

EPS = 2.0 ** -52


def scaled(vals):
    """Exact common-scale integers of finite floats: returns (ints, denominator as power of two, exact?)

    exact: every sum/difference of two of them is computed without rounding in double precision."""
    rat = [float(v).as_integer_ratio() for v in vals]
    d = max(q for _, q in rat)
    ints = [p * (d // q) for p, q in rat]
    g = 0
    for i in ints:
        g |= i
    z = (g & -g) if g else 1
    m = max((abs(i) for i in ints), default=0) // z
    return ints, d, m < 2 ** 51


def ratio(num, den):
    """num/den for ints as the nearest float (Python int division is correctly rounded)."""
    return num / den


class Pairs:
    """Pairs selected at one lag: list of (i, s, d).

    alts: position in items -> other readings (i, s', d') or None (point dropped) within rounding error.
    ambiguous: the whole pairing hangs on a decision within rounding error."""
    __slots__ = ("items", "alts", "ambiguous", "dtol", "inexact", "ties", "edge", "before")

    def __init__(self):
        self.items, self.alts, self.ambiguous, self.dtol, self.inexact = [], {}, False, 0.0, False
        self.ties = self.edge = self.before = 0


def select(t, k, selection="natural"):
    n = len(t)
    ints, den, exact = scaled(list(t) + [k])
    T, K = ints[:n], ints[n]
    r = Pairs()
    tol = 0
    if not exact:
        r.inexact = True
        mag = max(abs(v) for v in T) + abs(K)
        tol = mag * 16 // (2 ** 52) + 1
        r.dtol = ratio(tol, den)
    last = T[-1]
    first_idx = None
    for i in range(n):
        u = T[i] + K
        m = last - u
        if m < -tol:
            break
        maybe_dropped = abs(m) <= tol and not exact
        if m == 0:
            r.edge += 1
        other = []
        if selection == "natural" or first_idx is None:
            j = bisect_left(T, u)
            if j >= n:
                j = n - 1
            if j > 0:
                dl, dr = abs(u - T[j - 1]), abs(T[j] - u)
                if abs(dl - dr) <= 2 * tol and not exact:
                    other.append(j if dl < dr else j - 1)
                if dl == dr:
                    r.ties += 1
                if dl < dr:
                    j -= 1
            first_idx = j if first_idx is None else first_idx
            s = j
        if selection == "fast":
            if i == 0 and (other or maybe_dropped):
                r.ambiguous = True
            s = first_idx + i
            if s >= n:
                break
        if u < T[0]:
            r.before += 1
        if maybe_dropped:
            r.alts[len(r.items)] = [None]
        elif other and selection == "natural":
            r.alts[len(r.items)] = [(i, s2, ratio(abs(T[s2] - u), den)) for s2 in other]
        r.items.append((i, s, ratio(abs(T[s] - u), den)))
    return r


def weight(name, d, alpha):
    if name == "fractional":
        return 1 / (1 + d / alpha)
    if name == "fractional_squared":
        q = d / alpha
        return 1 / (1 + q * q)
    if name == "gaussian":
        q = d / alpha
        return math.exp(-(q * q) / 2)
    raise KeyError(name)


class Series:
    """Statistics of one data series, with error bounds for any reasonable double evaluation."""

    def __init__(self, x, extra=0.0):
        """extra: absolute error already in the values themselves"""
        x = [float(v) for v in x]
        self.present = [v for v in x if not math.isnan(v)]
        n = len(self.present)
        self.x = x
        if not n:
            self.ok, self.N, self.m = False, math.nan, math.nan
            return
        self.m = m = math.fsum(self.present) / n
        mx = max(abs(v) for v in self.present)
        self.ey = ey = (n + 8) * EPS * mx + 2 * extra
        self.y = [v - m for v in x]
        yp = [v - m for v in self.present]
        self.N = math.fsum(v * v for v in yp)
        self.n = n
        self.merr = (n + 4) * EPS * mx
        if not (self.N > 0) or math.isinf(self.N):
            self.ok = False
            return
        self.nerr = math.fsum(2 * abs(v) * ey + ey * ey for v in yp) / self.N + (n + 8) * EPS
        self.ok = self.nerr < 1e-3

    def corr(self, pairs, wname, alpha):
        """(lowest, highest, tolerance, missing) of the correlation; missing: 0 no pair touches NaN, 1 some does, 2 either."""
        y, ey, n = self.y, self.ey, len(self.x)
        ew = 16 * EPS + (pairs.dtol / abs(alpha) if pairs.inexact else 0.0)
        terms, extra_lo, extra_hi, err, mag, werr = [], [], [], 0.0, 0.0, 0.0
        nan_sure = nan_maybe = False
        for pos, item in enumerate(pairs.items):
            vals = []
            for it in [item] + pairs.alts.get(pos, []):
                if it is None:
                    vals.append(0.0)
                    continue
                i, s, d = it
                a, b = y[i], y[s]
                w = weight(wname, d, alpha)
                v = w * a * b
                vals.append(v)
                if v == v:
                    mag += abs(v)
                    werr += abs(a * b) * ew
                    err += w * (abs(a) + abs(b) + ey) * ey
            nans = sum(v != v for v in vals)
            if nans == len(vals):
                nan_sure = True
            elif nans:
                nan_maybe = True
            elif len(vals) == 1:
                terms.append(vals[0])
            else:
                extra_lo.append(min(vals))
                extra_hi.append(max(vals))
        if nan_sure:
            return 0.0, 0.0, 0.0, 1
        lo = math.fsum(terms + extra_lo) / self.N
        hi = math.fsum(terms + extra_hi) / self.N
        tol = 2 * ((err + werr + (n + 8) * EPS * mag) / self.N + max(abs(lo), abs(hi)) * self.nerr) + 1e-300
        return lo, hi, tol, 2 if nan_maybe else 0


def grid(lo, hi, res, limit=10 ** 7):
    """The lag grid by repeated addition, as documented by the lag loops."""
    out = []
    k = lo
    positive = lo > 0
    while k <= hi:
        if k == 0:
            positive = True
        if k > 0 and not positive:
            positive = True
            out.append(0.0)
        out.append(k)
        k += res
        if len(out) > limit:
            raise OverflowError
    return out


def min_gap(t):
    nt = [v - t[0] for v in t]
    return min((b - a for a, b in zip(nt, nt[1:])), default=1.7976931348623157e308)


def median(t):
    nt = [v - t[0] for v in t]
    n = len(nt)
    return nt[n // 2] if n % 2 else (nt[n // 2 - 1] + nt[n // 2]) / 2


def defaults(t):
    span = t[-1] - t[0]
    return {"min_lag": -span, "max_lag": span, "lag_resolution": min_gap(t), "alpha": median(t)}


def effective(t, opts):
    e = defaults(t)
    for k in e:
        if opts.get(k) is not None:
            e[k] = float(opts[k])
    return e


def same(a, b):
    """bitwise-equal floats up to NaN payload (0.0 and -0.0 equal)."""
    return a == b or (a != a and b != b)


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
