"""Fuzzing of file content: structured token soup, damaged good files and raw bytes, on the sanitized build."""
import math
import re

from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C21"
BUILDS = ("san",)
BUDGET = {"quick": {"cases": 4800, "seconds": 80}, "thorough": {"cases": 30000, "seconds": 780}}
GUIDED = "file"
RULE = ("raw bytes, token soup (numbers, near-numbers, separators, control bytes, UTF-8, comments) and good files with bytes deleted, inserted, "
        "repeated or replaced, very long lines and numbers; oracle: a line parser where every token is plainly a number or plainly not, otherwise "
        "the records must be numbers found in distinct lines in order; non-trivial: content with a separator or line break that is not a plain "
        "good file, or that holds at least one record")
ASSUMES = ["how near-numbers such as '1e', '0x1F', 'nan' or '1.5abc' are read is not specified beyond coming from the line itself"]

TOK = ["1", "2.5", "-3", "+4", "1e5", "-1E-3", ".5", "5.", "0", "00012", "1e400", "-1e400", "1e-400", "1e", "1e+", "+", "-", ".", "e5", "0x1F", "nan", "NaN",
       "inf", "-inf", "INFINITY", "1.5abc", "abc", "#", "# 1 2", "1_000", "1,5", "1;2", "--1", "+-1", "1-2", "1+2", "1.2.3", "\u0661", "\u00e9", "\ufeff", "\x00",
       "1\x002", "'1'", "\"2\"", "1f", "1d5", "99999999999999999999999", "0.1000000000000000055511151231257827", "4.9e-324", "1.7976931348623157e308",
       "1.7976931348623159e308", "time", "flux", "\x0b", "\x0c", "\x1a", "\x7f", "9" * 400, "1" + "0" * 350, "0." + "0" * 400 + "1"]
SEP = [" ", " ", ",", "\t", "\n", "\n", "\n", "\r\n", "\r", ", ", "", ";", "\n\n", "\n#", "  ", "\x0b", ",,"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["raw", "soup", "soup", "soup", "tame", "tame", "damaged", "damaged", "long"]))
    if kind == "raw":
        b = draw(st.binary(max_size=200))
    elif kind in ("soup", "tame"):
        toks = TOK if kind == "soup" else TOK[:10] + ["abc", "#", "# 1 2", "time", "flux", "x9", "*"]
        seps = SEP if kind == "soup" else [" ", " ", ",", "\t", "\n", "\n", "\n", "\r\n", ", ", "\n\n", "\n#"]
        p = draw(st.lists(st.tuples(st.sampled_from(toks), st.sampled_from(seps)), max_size=60))
        b = "".join(a + s for a, s in p).encode()
    elif kind == "damaged":
        n = draw(st.integers(1, 12))
        cols = draw(st.integers(2, 4))
        v = draw(st.binary(min_size=n * cols, max_size=n * cols))
        sep = draw(st.sampled_from([" ", ",", "\t"]))
        b = "\n".join(sep.join("%g" % (v[i * cols + j] / 4.0 - (8 if j else 0)) for j in range(cols)) for i in range(n)).encode() + b"\n"
        for _ in range(draw(st.integers(1, 5))):
            if not b:
                break
            i = draw(st.integers(0, len(b) - 1))
            j = draw(st.integers(0, len(b) - 1))
            how = draw(st.integers(0, 4))
            if how == 0:
                b = b[:i] + b[i + 1:]
            elif how == 1:
                b = b[:i] + bytes([draw(st.sampled_from(b"\x00\n\r\t ,#.-+eE0x9\xff\x80\x0b"))]) + b[i:]
            elif how == 2:
                b = b[:i] + bytes([draw(st.integers(0, 255))]) + b[i + 1:]
            elif how == 3:
                b = b[:j] + b[min(i, j):max(i, j)] + b[j:]
            else:
                b = b[:i]
    else:
        unit = draw(st.sampled_from([b"1 2 ", b"1,", b"7", b" ", b",", b"#", b"1 2 3\n", b"1 2\n", b"\n", b"-", b"e", b"1e5 ", b"1 2 3 4 5 6 7 8 9 ", b"\x00", b"1 2\r"]))
        pre = draw(st.sampled_from([b"", b"1 2\n", b"1 2 3\n", b"#", b"3 "]))
        b = pre + unit * draw(st.sampled_from([1, 100, 1000, 5000, 20000 if tier == "quick" else 200000]))
        b += draw(st.sampled_from([b"", b"\n1 2\n", b"\n9 8 7"]))
        if len(b) > 2000:
            return {"kind": kind, "pre": pre.hex(), "unit": unit.hex(), "n": (len(b) - len(pre)) // len(unit), "post": b[len(pre) + len(unit) * ((len(b) - len(pre)) // len(unit)):].hex()}
    return {"kind": kind, "hex": b.hex()}


PLAIN = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d{1,3})?$")
NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def tame(line):
    """Tokens of a line where each is plainly a number or plainly none; None if some token is neither."""
    if any(ch in line for ch in "\x00\x0b\x0c"):
        return None
    toks = re.split(r"[ \t,\r]+", line.strip(" \t,\r"))
    out = []
    for k in toks:
        if PLAIN.match(k) and len(k) < 60:
            v = float(k)
            if math.isinf(v) or (v == 0 and re.search("[1-9]", k.lower().split("e")[0])):
                return None
            out.append(v)
        elif k == "":
            pass
        elif re.match(r"[^0-9+\-.iInN]", k):
            out.append(None)
        else:
            return None
    return out


def numbers(line):
    """All numbers that could be read somewhere in a line; None: too many to list."""
    s = line
    if len(s) > 400:
        return None
    got = set()
    for i in range(len(s)):
        if not (s[i].isdigit() or s[i] in "+-."):
            continue
        m = NUM.match(s, i)
        if not m:
            continue
        if m.end() - i > 40:
            return None
        for j in range(i + 1, m.end() + 1):
            try:
                got.add(float(s[i:j]))
            except ValueError:
                pass
    low = s.lower()
    if "0x" in low:
        return None
    return got


def adapt(g):
    yield {"kind": "guided", "hex": g["hex"]}


def judge(c, ctx):
    b = bytes.fromhex(c["hex"]) if "hex" in c else bytes.fromhex(c["pre"]) + bytes.fromhex(c["unit"]) * c["n"] + bytes.fromhex(c["post"])
    path = ctx.tmp + "/fuzz.dat"
    out = ctx.run([{"op": "write", "path": path, "hex": b.hex()}, {"op": "new", "cls": "DataStructure", "as": "d", "args": [path]}, {"op": "ds", "on": "d"},
                   {"op": "call", "on": "d", "meth": "timeseries"}])
    ok(out[0], "write")
    text = b.decode("latin-1")
    lines = text.split("\n")
    labels = [c["kind"]]
    sep = any(s in text for s in "\n, \t")
    # what is certain
    recs, certain = [], True
    for l in lines:
        if l.startswith("#"):
            continue
        if "\r" in l[:-1]:
            certain = False
            break
        k = tame(l)
        if k is None:
            certain = False
            break
        if len(k) >= 2 and k[0] is not None and k[1] is not None:
            recs.append((k[0], k[1], k[2] if len(k) > 2 and k[2] is not None else math.nan))
    if "exc" in out[1]:
        need(out[1]["exc"] == "EmptyDataStructureException", "loading raised %s: %s", out[1]["exc"], out[1]["msg"])
        need(not (certain and recs), "a file with %d records was reported as empty", len(recs))
        labels.append("empty")
        return Info(sep, labels + ["certain"] * certain)
    d = ok(out[2], "reading the dataset")
    n = len(d["t"])
    need(n >= 1 and d["N"] == 1 and d["M"] == n, "%r series, %r points, %d times", d["N"], d["M"], n)
    need(len(d["x"]) == 1 and len(d["x"][0]) == n and len(d["nt"]) == n and len(d["nx"]) == 1 and len(d["nx"][0]) == n and len(d["mean"]) == 1,
         "accessors disagree about the number of points")
    need(d["e"] == [] or (len(d["e"]) == 1 and len(d["e"][0]) == n), "%d errors for %d points", len(d["e"][0]) if d["e"] else 0, n)
    need(ref.same(d["max"], d["t"][-1]), "last time is %r", d["max"])
    labels.append("records")
    if certain:
        labels.append("certain")
        need(len(recs) == n, "%d records read from a file with %d", n, len(recs))
        has_e = not math.isnan(recs[0][2])
        for i, r in enumerate(recs):
            need(d["t"][i] == r[0] and d["x"][0][i] == r[1], "record %d read as (%r, %r), expected %r", i, d["t"][i], d["x"][0][i], r[:2])
            if has_e:
                need(d["e"] and ref.same(d["e"][0][i], r[2]), "error of record %d read as %r, expected %r", i, d["e"][0][i] if d["e"] else None, r[2])
        need(has_e or d["e"] == [], "errors reported although the first record has none")
        return Info(sep, labels, n)
    need(n <= len(lines), "%d records from %d lines", n, len(lines))
    pos = 0
    for i in range(n):
        want = [d["t"][i], d["x"][0][i]] + ([d["e"][0][i]] if d["e"] else [])
        while pos < len(lines):
            l = lines[pos]
            pos += 1
            if l.startswith("#"):
                continue
            nums = numbers(l.replace(",", " "))
            low = l.lower()
            if nums is None or all(v in nums or (v != v and (q == 2 or "nan" in low)) or (math.isinf(v) if v == v else False) and ("inf" in low or v in nums)
                                   for q, v in enumerate(want)):
                break
        else:
            raise Violation("record %d (%r) does not come from a line of its own" % (i, want))
    return Info(True, labels, n)
