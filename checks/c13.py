import math

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C13"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 3000, "seconds": 80}, "thorough": {"cases": 16000, "seconds": 780}}
RULE = ("records in random layouts (separators, blanks, LF/CRLF, comments, titles, blank lines, number formats, extra columns, missing or unreadable "
        "errors, missing final newline, lines of up to 66000 characters); oracle: the same columns given in memory, and Python's float() of the texts; non-trivial: at least 2 "
        "records and at least one layout feature beyond plain 't x' lines")
ASSUMES = ["numbers are finite decimal texts in double range", "lines end in LF or CRLF"]

FMT = ["repr", "repr", "repr", "g17", "e", "plus", "int", "g6", "long", "E", "dotless", "pad"]


def fmt(v, f):
    if f == "repr":
        return repr(v)
    if f == "g17":
        return "%.17g" % v
    if f == "e":
        return "%.20e" % v
    if f == "E":
        return "%.9E" % v
    if f == "g6":
        return "%g" % v
    if f == "long":
        return "%.40g" % v
    if f == "plus":
        return ("+" if math.copysign(1, v) > 0 else "") + repr(v)
    if f == "int":
        return "%d" % v if abs(v) < 1e15 else repr(v)
    if f == "dotless":
        s = "%.3f" % v if abs(v) < 1e15 else repr(v)
        return s.replace("0.", ".", 1) if s.startswith(("0.", "-0.")) else s
    return ("-" if v < 0 or (v == 0 and math.copysign(1, v) < 0) else "") + "00" + repr(abs(v))


NOISE = ["# comment", "#", "#1 2 3", "# 1, 2, 3", "", "   ", "\t", "time flux error", "time,flux", "t", "1.5", "2.5 nothing", "3.5,flux,7", "-", "abc 1 2",
         "#\t5\t6", " # indented 1 2", "nan 1.0", "---- ----", "12 x 3", "BJD-2454833,flux", "1.0,", "4\t"]
SEPS = [" ", ",", "\t", ", ", " ,", "  ", " , ", "\t\t", ",\t", " \t ", ",,", ",,,,,,,", ", , , , , ", "\t,\t,\t,\t,", " " * 40]
BAD = ["-", "n/a", "none", "x", "*", "", "flag"]
TAIL = ["", "", "", " 9", ",1,2,3", "\tflag", " good 5", ", 0.5 text", " #c", " 1 2"]


@st.composite
def cases(draw, tier):
    n = draw(gens.length(tier, 1, huge=True))
    t = draw(gens.times(n))
    if draw(st.integers(0, 6)) == 0:
        t = draw(gens.values(n))
    x = draw(gens.values(n))
    e = draw(gens.values(n))
    for v in (x, e):    # numbers at the ends of the range
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 3]))):
            v[draw(st.integers(0, n - 1))] = draw(st.sampled_from([1.5e308, -1.7e308, -1e305, 5e-324, -1e-320, 2.2250738585072014e-308, 1e-300, -0.0, 0.0, 1e22, 9007199254740993.0, -1e16]))
    errs = draw(st.sampled_from(["none", "none", "all", "all", "some", "firstonly", "notfirst"]))
    b = draw(st.binary(min_size=n, max_size=n))
    has = [{"none": False, "all": True, "some": i == 0 or b[i] % 3 > 0, "firstonly": i == 0, "notfirst": i > 0}[errs] for i in range(n)]
    fs = draw(st.lists(st.sampled_from(FMT), min_size=1, max_size=4))
    seps = draw(st.lists(st.sampled_from(SEPS), min_size=1, max_size=4))
    tails = draw(st.lists(st.sampled_from(TAIL), min_size=1, max_size=3)) if draw(st.booleans()) else [""]
    eol = draw(st.sampled_from(["\n", "\n", "\r\n", "mixed"]))
    noise = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(NOISE)), max_size=6)) if draw(st.integers(0, 2)) else []
    lead = draw(st.lists(st.sampled_from(["", "", " ", "\t", "   "]), min_size=1, max_size=3))
    trail = draw(st.lists(st.sampled_from(["", "", " ", "\t "]), min_size=1, max_size=2))
    bad = draw(st.lists(st.sampled_from(BAD), min_size=1, max_size=2)) if draw(st.booleans()) else [""]
    lines, rec, errcol = [], [], []
    feature = bool(noise) or eol != "\n"
    for i in range(n):
        for p, s in noise:
            if p == i:
                lines.append(s)
        q = b[i]
        tx, xx, ex = fmt(t[i], fs[q % len(fs)]), fmt(x[i], fs[(q // 4) % len(fs)]), fmt(e[i], fs[(q // 16) % len(fs)])
        s1, s2 = seps[q % len(seps)], seps[(q // 8) % len(seps)]
        line = lead[q % len(lead)] + tx + s1 + xx
        if has[i]:
            line += s2 + ex + tails[(q // 2) % len(tails)]
        else:
            w = bad[(q // 2) % len(bad)]
            if w:
                line += s2 + w + tails[q % len(tails)]
            elif q % 5 == 1:
                line += ","
        line += trail[(q // 3) % len(trail)]
        lines.append(line)
        rec.append([float(tx), float(xx)])
        errcol.append(float(ex) if has[i] else math.nan)
    for p, s in noise:
        if p == n:
            lines.append(s)
    long = None
    if draw(st.integers(0, 7)) == 5:    # one very long line
        size = draw(st.sampled_from([70, 130, 260, 530, 1030, 2100, 4200, 8300, 33000, 66000]))
        kind = draw(st.sampled_from(["lead", "trail", "columns", "comment", "title"]))
        at = draw(st.integers(0, len(lines) - 1))
        if kind == "comment":
            lines.insert(at, "#" + " 1 2" * (size // 4))
        elif kind == "title":
            lines.insert(at, "flux, " * (size // 6) + "1 2")
        else:
            first = next((k for k in range(at, len(lines)) if lines[k] not in NOISE), None)
            if first is not None and kind == "lead":
                lines[first] = " " * size + lines[first]
            elif first is not None and kind == "trail":
                lines[first] += " " * size
            elif first is not None and has[0] and all(has):
                lines[first] += " 7" * (size // 2)
        long = kind
        feature = True
    feature = feature or len(fs) > 1 or len(seps) > 1 or errs != "none" or tails != [""]
    text = ""
    final = draw(st.integers(0, 2)) > 0
    for i, l in enumerate(lines):
        end = eol if eol != "mixed" else ("\r\n" if i % 3 == 1 else "\n")
        text += l + (end if i + 1 < len(lines) or final else "")
    return {"text": text, "t": [r[0] for r in rec], "x": [r[1] for r in rec], "e": errcol if has[0] else None, "feature": feature,
            "name": draw(st.sampled_from(["f.dat", "light curve.csv", "fl\u00fbx.txt", "noext", "a.b.c.TXT", "#1.dat", "%41 (2).csv", "-", "~t.fits", "n" * 200, "1,2.txt", "x\\ty.dat"])),
            "via": draw(st.sampled_from(["ds", "sacf", "sacfkw"])), "labels": [errs] + ["long " + str(long)] * (long is not None) + ["noise"] * bool(noise) + ["crlf"] * (eol != "\n")
            + ["no final newline"] * (not final)}


def judge(c, ctx):
    path = ctx.tmp + "/" + c["name"]
    t, x, e = c["t"], c["x"], c["e"]
    prog = [{"op": "write", "path": path, "hex": c["text"].encode().hex()}]
    if c["via"] == "ds":
        prog += [{"op": "new", "cls": "DataStructure", "as": "f", "args": [path]}, {"op": "let", "as": "x", "v": 0}]
    else:
        prog += [{"op": "new", "cls": "SACF", "as": "S", "args": [], "kw": {"filename": path}}, {"op": "get", "on": "S", "attr": "data", "as": "f"}]
    prog += [{"op": "ds", "on": "f"}, ds(t, x, e), {"op": "ds", "on": "d"}]
    inc = all(a < b for a, b in zip(t, t[1:])) and all(a - t[0] < b - t[0] for a, b in zip(t, t[1:]))
    acf = inc and c["via"] != "ds" and len(t) > 1 and (t[-1] - t[0]) / ref.min_gap(t) < 60
    if acf:
        prog += [{"op": "acf", "on": "S", "kw": {}}, sacf(t, x), {"op": "acf", "on": "s", "kw": {}}]
    out = ctx.run(prog)
    ok(out[0], "write")
    ok(out[1], "loading the file")
    f, d = ok(out[3], "file dataset"), ok(out[5], "dataset from lists")
    want = {"t": t, "x": [x], "e": [e] if e is not None else []}
    for k, what in (("t", "times"), ("x", "values"), ("e", "errors")):
        a = f[k] if k != "t" else [f[k]]
        w = want[k] if k != "t" else [want[k]]
        need(len(a) == len(w), "file gives %d rows of %s, expected %d", len(a), what, len(w))
        for p, q in zip(a, w):
            need(len(p) == len(q), "file gives %d %s, expected %d", len(p), what, len(q))
            for i, (u, v) in enumerate(zip(p, q)):
                need(ref.same(u, v), "%s of record %d read as %r, expected %r", what, i, u, v)
    for k in ("N", "M", "med", "max"):
        need(f[k] == d[k], "%s is %r from file and %r from lists", k, f[k], d[k])
    for k in ("nt", "mean"):
        need(ref.same_list(f[k], d[k]), "%s differs between file and lists", k)
    need(ref.same_list(f["nx"][0], d["nx"][0]), "normalised values differ between file and lists")
    if acf:
        r, q = ok(out[6], "autocorrelation"), ok(out[8], "autocorrelation")
        need(ref.same_list(r["lags"], q["lags"]) and ref.same_list(r["corr"], q["corr"]), "autocorrelation differs between file and lists")
    return Info(len(t) > 1 and c["feature"], c["labels"] + ["acf"] * acf)
