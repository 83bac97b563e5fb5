"""Program builders and result helpers shared by the property modules."""
import math

from . import ref
from .engine import Info, Violation, need, ok  # noqa: F401
from .gens import as_rows


def sacf(t, x, e=None, name="s"):
    st = {"op": "new", "cls": "SACF", "as": name, "args": [t, x]}
    if e is not None:
        st["args"].append(e)
    return st


def ds(t, x, e=None, name="d"):
    st = {"op": "new", "cls": "DataStructure", "as": name, "args": [t, x]}
    if e is not None:
        st["args"].append(e)
    return st


def kw(opts, **more):
    k = {n: v for n, v in opts.items() if v is not None}
    k.update({n: v for n, v in more.items() if v is not None})
    return k


def corr_rows(corr, nrows):
    """Result of autocorrelation as one list per series; checks the documented shape."""
    if nrows == 1:
        need(isinstance(corr, list) and not any(isinstance(v, list) for v in corr),
             "one series must give a flat list of correlations")
        return [corr]
    need(isinstance(corr, list) and len(corr) == nrows and all(isinstance(r, list) for r in corr),
         "%d series gave %s rows", nrows, len(corr) if isinstance(corr, list) else corr)
    return corr


def lag_subset(lags, most=48):
    """Indices of lags to judge: all, or an even spread including ends and the neighbourhood of 0."""
    n = len(lags)
    if n <= most:
        return list(range(n))
    idx = {0, 1, n - 2, n - 1}
    z = min(range(n), key=lambda i: abs(lags[i]))
    idx.update(i for i in (z - 1, z, z + 1) if 0 <= i < n)
    step = n / (most - 7)
    idx.update(int(i * step) for i in range(most - 7))
    return sorted(i for i in idx if i < n)


def judge_lags(t, xrows, lags, rows, wname, alpha, selection="natural", most=48, what=""):
    """Compare correlations at the returned lags with the reference. Returns a dict of counts."""
    series = [ref.Series(x) for x in xrows]
    st = {"judged": 0, "weighted": 0, "ties": 0, "edge": 0, "before": 0, "ambiguous": 0, "either": 0, "illcond": 0, "empty": 0, "nan": 0}
    for x in rows:
        need(len(x) == len(lags), "%s%d correlations for %d lags", what, len(x), len(lags))
    if not any(s.ok for s in series):
        st["illcond"] += 1
        return st
    for li in lag_subset(lags, most):
        k = lags[li]
        p = ref.select(t, k, selection)
        if p.ambiguous:
            st["ambiguous"] += 1
            continue
        st["ties"] += p.ties > 0
        st["either"] += bool(p.alts)
        st["edge"] += p.edge > 0
        st["before"] += p.before > 0
        st["empty"] += not p.items
        if any(d > 0 for _, _, d in p.items):
            st["weighted"] += 1
        for j, s in enumerate(series):
            if not s.ok:
                st["illcond"] += 1
                continue
            lo, hi, tol, miss = s.corr(p, wname, alpha)
            got = rows[j][li]
            st["judged"] += 1
            if miss:
                st["nan"] += 1
                need(miss == 2 or math.isnan(got), "%scorrelation of series %d at lag %r is %r although a pair touches a missing value",
                     what, j, k, got)
            else:
                need(lo - tol <= got <= hi + tol, "%scorrelation of series %d at lag %r is %r, expected %s (tolerance %.3g)",
                     what, j, k, got, repr(lo) if lo == hi else "%r to %r" % (lo, hi), tol)
    return st


def stat_labels(st):
    return [k for k, v in st.items() if v]


def same_corr(t, series, lags, a, b, wname, alpha, what, selection="natural", most=40, shifted=None, tol2=None):
    """Correlation rows a and b of the same analysis agree up to rounding. Returns number of compared values.

    shifted: lags of b if they differ from a's in unit. tol2: second Series per row, whose tolerance is added."""
    n = 0
    need(len(a) == len(b), "%s: %d and %d series", what, len(a), len(b))
    for j, (ra, rb) in enumerate(zip(a, b)):
        need(len(ra) == len(rb) == len(lags), "%s: series %d has %d and %d correlations for %d lags", what, j, len(ra), len(rb), len(lags))
    for i in lag_subset(lags, most):
        p = ref.select(t, lags[i], selection)
        for j, s in enumerate(series):
            va, vb = a[j][i], b[j][i]
            if ref.same(va, vb):
                n += s.ok
                continue
            if not s.ok or (tol2 and not tol2[j].ok):
                continue
            tol = s.corr(p, wname, alpha)[2] * 2
            if tol2:
                tol += tol2[j].corr(p, wname, alpha)[2]
            n += 1
            need(abs(va - vb) <= tol, "%s: series %d at lag %r: %r and %r differ (tolerance %.3g)", what, j, lags[i], va, vb, tol)
    return n


def moving(series, lags):
    """A comparison says something: some series varies and there is a lag."""
    return any(s.ok for s in series) and len(lags) > 0


def guided_uses(g, nan=False, most_rows=8):
    """Cases {t, x, opts, sel, w} of a coverage-guided series (lib/guided.py), one per use of it."""
    rows = g["x"][:most_rows]
    if not nan and any(v != v for r in rows for v in r):
        return
    for u in g["uses"]:
        yield {"t": g["t"], "x": rows if len(rows) > 1 else rows[0], "opts": dict(u["opts"]), "sel": u["sel"], "w": u["w"]}
