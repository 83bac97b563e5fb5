"""Loading a file is all or nothing. Reads that fail, are interrupted or return little, at any point of the file."""
import errno

from hypothesis import strategies as st

from lib import gens
from lib.common import *
from .c26 import same_out

ID = "C28"
BUILDS = ("count",)
BATCH = 100
BUDGET = {"quick": {"cases": 520, "seconds": 80}, "thorough": {"cases": 5000, "seconds": 780}}
RULE = ("files of 1 to 6000 records (up to about 300 KB, several reads of the operating system each) in several layouts, loaded while the n-th read fails "
        "with an input error, is interrupted, or this and all later reads return only few bytes, n swept over the whole load; oracle: a load that returns gives the "
        "dataset of the undisturbed file bit for bit, a failed read may otherwise only raise BadDataFileReadException, interrupted and short reads must not matter; "
        "after it the same file loads undisturbed; non-trivial: the fault is inside the file (not at its first or last read) or reads are short")
ASSUMES = ["reads go through read() of the C library (checked: the sweep must see the reads of the file)"]

ERRS = [errno.EIO, errno.EIO, errno.ESTALE, errno.ETIMEDOUT, errno.EISDIR, errno.EINTR]


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([1, 2, 5, 40, 200, 300, 500, 700, 1000, 1500, 2500] + [4000, 6000, 12000] * (tier != "quick")))
    n += draw(st.integers(0, 9)) * (n > 5)
    wide = draw(st.integers(0, 2))
    style = draw(st.sampled_from(["%r %r", "%r,%r", "%.17e\t%.17e", "%r %r #"]))
    b = list(draw(st.binary(min_size=16, max_size=16)))
    return {"n": n, "errors": draw(st.sampled_from(["none", "all", "some"])), "style": style, "b": b, "pad": wide * draw(st.integers(1, 40)), "comment": draw(st.integers(0, 3)),
            "what": draw(st.sampled_from(["read", "read", "read", "short"])), "errno": draw(st.sampled_from(ERRS)), "few": draw(st.integers(0, 9)),
            "at": sorted(draw(st.lists(st.integers(0, 1000), min_size=2, max_size=6))), "last": draw(st.booleans()), "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "via": draw(st.sampled_from(["DataStructure", "DataStructure", "SACF"]))}


def content(c):
    b, out = c["b"], []
    t = float(b[0])
    for i in range(c["n"]):
        t += 1 + b[i % 16] / 64.0
        line = c["style"] % (t, (i * 37 + b[(i // 16) % 16]) % 101 / 8.0)
        if c["errors"] == "all" or (c["errors"] == "some" and b[i % 13] % 2):
            line += (" " if "," not in line else ",") + "0.%d" % (i % 97 + 1)
        if c["comment"] and i % (c["comment"] * 50) == 7:
            out.append("# comment %d %d" % (i, i))
        out.append(line + " " * c["pad"])
    return c["eol"].join(out) + (c["eol"] if c["last"] else "")


def judge(c, ctx):
    text = content(c).encode()
    arg = c["errno"] if c["what"] == "read" else (c["few"] if c["few"] < 7 else 100 * c["few"])
    new = {"op": "new", "cls": c["via"], "as": "f", "args": ["fault-in"] if c["via"] != "SACF" else []}
    if c["via"] == "SACF":
        new["kw"] = {"filename": "fault-in"}
    describe = [{"op": "get", "on": "f", "attr": "data", "as": "g"}, {"op": "ds", "on": "g"}] if c["via"] == "SACF" else [{"op": "ds", "on": "f"}]
    again = [{"op": "new", "cls": "DataStructure", "as": "h", "args": ["fault-in"]}, {"op": "ds", "on": "h"}]
    hole = len(describe)
    at = [p / 1001 for p in c["at"]] + [0.0]
    out = ctx.run([{"op": "write", "path": "fault-in", "hex": text.hex()},
                   {"op": "faults", "what": c["what"], "make": [], "act": new, "check": [dict(s) for s in describe] + again, "at": at, "arg": arg}])
    total, plain, got = ok(out[1], "loading")
    need("ok" in plain[0], "loading undisturbed raised %s", plain[0].get("exc"))
    if total < 1:
        raise RuntimeError("no reads seen")
    deep = False
    for where, r in got:
        inside = any(0 < w < total - 1 for w in where)
        deep = deep or inside or c["what"] == "short"
        what = "%s of reads %s of %d while loading %d bytes" % ("errno %d" % arg if c["what"] == "read" else "shortness from", where, total, len(text))
        if "ok" in r[0]:
            need(same_out(plain[1:1 + hole], r[1:1 + hole]), "%s gave another dataset: %s of %d records", what,
                 (r[hole].get("ok") or {}).get("M"), plain[hole]["ok"]["M"])
        else:
            need(c["what"] == "read" and arg != errno.EINTR, "%s raised %s: %s", what, r[0]["exc"], r[0]["msg"])
            need(r[0]["exc"] == "BadDataFileReadException", "%s raised %s: %s", what, r[0]["exc"], r[0]["msg"])
        need(same_out(plain[1 + hole:], r[1 + hole:]), "after %s the file loads differently", what)
    return Info(deep, [c["what"], "errno %d" % arg if c["what"] == "read" else "few"] + ["complete" if "ok" in r[0] else r[0]["exc"] for _, r in got], len(got))
