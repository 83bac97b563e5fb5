from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C14"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 4500, "seconds": 80}, "thorough": {"cases": 20000, "seconds": 780}}
RULE = ("shape combinations of times, values and errors (flat/rows, lists/arrays, empty, short, long, ragged with equal totals, extra or missing "
        "rows, errors flat for rows), file cases (missing, directory, empty, comments only, no records, name with a null character) and wrong types, through DataStructure and "
        "SACF; model: the shape rules; non-trivial: an input the rules reject, or a well-shaped one with several rows or errors")
ASSUMES = ["where two rules apply at once (e.g. empty times and ragged rows) either dedicated error is accepted",
           "an empty error list counts as no errors; error rows that are all empty are not judged",
           "numpy arrays with rows of one element (which numpy itself converts to numbers) are not judged"]

EMPTY, BADIN, BADFILE = "EmptyDataStructureException", "BadDataInputException", "BadDataFileReadException"


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["shape"] * 8 + ["file", "type"]))
    via = draw(st.sampled_from(["ds", "sacf"]))
    if kind == "file":
        return {"kind": "file", "via": via, "what": draw(st.sampled_from(["missing", "dir", "empty", "comments", "titles", "blank", "onenumber", "good",
                                                                         "missingdir", "nul", "nulname"]))}
    if kind == "type":
        return {"kind": "type", "via": via, "arg": draw(st.integers(0, 2)),
                "v": draw(st.sampled_from([{"map": {"a": 1}}, "abc-not-a-list", 3.5, 7, None, ["a", "b"], [1.0, None], [[1.0], "x"], {"obj": 1},
                                           [1.0, [2.0]], [[[1.0]]], {"v": [1, 2], "np": "complex128"} if False else {"obj": 2}]))}
    n = draw(st.integers(1, 6)) if draw(st.integers(0, 9)) else draw(st.sampled_from([0, 30, 300, 3000]))
    how = draw(st.sampled_from(["good", "good", "good", "short", "long", "ragged", "raggedsame", "extra", "empty_x", "empty_t", "norows", "one_empty",
                                "transposed", "dbl"]))
    m = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6]))
    flat = draw(st.booleans()) if m == 1 else False
    lens = [n] * m
    tn = n
    if how == "short":
        lens = [max(0, n - draw(st.integers(1, 3)))] * m
    elif how == "long":
        lens = [n + draw(st.integers(1, 3))] * m
    elif how == "ragged":
        lens[draw(st.integers(0, m - 1))] += draw(st.sampled_from([-1, 1, 2]))
    elif how == "raggedsame" and m > 1:
        lens[draw(st.integers(0, m - 1))] += 1
        lens[draw(st.integers(0, m - 1))] -= 1
    elif how == "empty_x":
        lens = [0] * m
    elif how == "empty_t":
        tn = 0
    elif how == "norows":
        lens, flat = [], False
    elif how == "one_empty":
        lens[draw(st.integers(0, m - 1))] = 0
    elif how == "transposed":
        lens = [m] * n
        m = n
        flat = False
    elif how == "dbl":    # total matches a multiple
        lens = [2 * n] * m
    lens = [max(0, l) for l in lens]
    elens = None
    ehow = draw(st.sampled_from(["none", "none", "same", "same", "short", "long", "raggedsame", "fewer", "more", "flat", "empty", "rowed", "joined"]))
    eflat = flat
    if ehow != "none":
        elens = list(lens)
        if ehow == "short":
            elens = [max(1, l - 1) for l in elens]
        elif ehow == "long":
            elens = [l + 1 for l in elens]
        elif ehow == "raggedsame" and len(elens) > 1:
            up, down = draw(st.integers(0, len(elens) - 1)), draw(st.integers(0, len(elens) - 1))
            elens[up] += 1
            elens[down] = max(elens[down] - 1, 0)
        elif ehow == "fewer":
            elens = elens[:-1] if len(elens) > 1 else elens
        elif ehow == "more":
            elens = elens + elens[-1:] if not flat else elens
        elif ehow == "flat":
            eflat = True
            elens = [sum(elens)]
        elif ehow == "joined" and len(elens) > 1:   # same number of values in another arrangement
            elens, eflat = [sum(elens)], False
        elif ehow == "empty":
            elens, eflat = [], flat
        elif ehow == "rowed":
            eflat = False
    return {"kind": "shape", "via": via, "tn": tn, "lens": lens, "flat": flat, "elens": elens, "eflat": eflat,
            "arr": draw(st.sampled_from(["list", "list", "np", "tuple"])), "seed": draw(st.integers(0, 50)), "how": how, "ehow": ehow}


def vals(k, n):
    return [float((i * 7 + k * 3) % 11) for i in range(n)]


def classify(c):
    """('ok',), or the set of acceptable exception names. None: not judged."""
    tn, lens, el = c["tn"], c["lens"], c["elens"]
    bad = set()
    total = sum(lens)
    if tn == 0 or total == 0:
        bad.add(EMPTY)
    if (bad and len(set(lens)) > 1) or (not bad and any(l != tn for l in lens)):
        bad.add(BADIN)
    if el is not None:
        if c["eflat"] != c["flat"]:
            if not (c["eflat"] is True and not el) and not (sum(el) == 0):
                bad.add("TypeError")
                bad.add(BADIN)
        if sum(el) == 0 and el and total:
            return None
        if sum(el) > 0 and (len(el) != len(lens) or any(a != b for a, b in zip(el, lens))):
            bad.add(BADIN)
    # dedicated errors overlap: any is accepted
    return bad


def judge_shape(c, ctx):
    want = classify(c)
    one = lambda l, flat: not flat and len(l) > 0 and set(l) == {1}
    if c["arr"] == "np" and (one(c["lens"], c["flat"]) or (c["elens"] and one(c["elens"], c["eflat"]))):
        want = None   # numpy converts rows of one element to numbers itself
    if want is None:
        return Info(False, ["not judged"], 0)

    def box(rows, flat):
        r = [vals(c["seed"] + i, n) for i, n in enumerate(rows)]
        ragged = len({len(v) for v in r}) > 1
        if flat:
            r = r[0] if r else []
            if c["arr"] == "np" and r:
                return {"np": "float64", "v": r}
            return {"tuple": r} if c["arr"] == "tuple" else r
        if c["arr"] == "np" and not ragged and r and r[0]:
            return {"np": "float64", "v": r}
        if c["arr"] == "np":
            return {"list": [{"np": "float64", "v": v} for v in r]}
        return {"tuple": [{"tuple": v} for v in r]} if c["arr"] == "tuple" else r
    # an empty flat list and an empty list of rows are the same value
    args = [[float(i) for i in range(c["tn"])], box(c["lens"], c["flat"])]
    if c["elens"] is not None:
        args.append(box(c["elens"], c["eflat"]))
    cls = "DataStructure" if c["via"] == "ds" else "SACF"
    prog = [{"op": "new", "cls": cls, "as": "o", "args": args}]
    if not want:
        prog += [{"op": "get", "on": "o", "attr": "data", "as": "d"} if cls == "SACF" else {"op": "let", "as": "d", "v": {"ref": "o"}}, {"op": "ds", "on": "d"}]
    else:
        prog += [{"op": "val", "on": "o"}]
    out = ctx.run(prog)
    shape = "times %d, values %s%s, errors %s%s" % (c["tn"], c["lens"], " flat" if c["flat"] else "", c["elens"], " flat" if c["eflat"] else "")
    if not want:
        ok(out[0], "well-shaped input (%s)" % shape)
        d = ok(out[2], "dataset")
        need(d["N"] == len(c["lens"]) and d["M"] == c["tn"], "%s: dataset of %r series and %r points", shape, d["N"], d["M"])
        need([len(v) for v in d["x"]] == c["lens"], "%s: dataset reports other shape", shape)
        need([len(v) for v in d["e"]] == (c["elens"] or []), "%s: errors have another shape", shape)
    else:
        exc = out[0].get("exc")
        need(exc is not None, "%s was accepted", shape)
        need(exc in want, "%s raised %s (%s), expected %s", shape, exc, out[0].get("msg"), " or ".join(sorted(want)))
        need(out[1].get("exc") == "KeyError", "an object resulted from rejected input")
    return Info(bool(want) or len(c["lens"]) > 1 or c["elens"] is not None, [c["how"], "e:" + c["ehow"], "rejected" if want else "accepted"])


FILES = {"empty": b"", "comments": b"# a\n# 1 2\n", "titles": b"time,flux\nabc\n", "blank": b"\n\n  \n", "onenumber": b"1.0\n2.0\n3\n",
         "good": b"1 2\n2 3\n", "nul": b"\0\0\0\n\0"}


def judge(c, ctx):
    if c["kind"] == "shape":
        return judge_shape(c, ctx)
    cls = "DataStructure" if c["via"] == "ds" else "SACF"
    if c["kind"] == "file":
        w = c["what"]
        prog = []
        path = ctx.tmp + "/in.dat"
        if w == "missing":
            path, want = ctx.tmp + "/does not exist", {BADFILE}
        elif w == "missingdir":
            path, want = ctx.tmp + "/none/none.dat", {BADFILE}
        elif w == "dir":
            path, want = ctx.tmp, {BADFILE, EMPTY}   # a directory can be opened but not read
        elif w == "nulname":   # no file has such a name; a good file has the name that precedes the null
            prog.append({"op": "write", "path": path, "hex": FILES["good"].hex()})
            path, want = path + "\0.txt", {BADFILE}
        else:
            prog.append({"op": "write", "path": path, "hex": FILES[w].hex()})
            want = set() if w == "good" else {EMPTY}
        prog.append({"op": "new", "cls": cls, "as": "o", "args": [path]} if cls == "DataStructure" else
                    {"op": "new", "cls": cls, "as": "o", "args": [], "kw": {"filename": path}})
        prog.append({"op": "let", "as": "p", "v": {"ref": "o"}})
        out = ctx.run(prog)
        exc = out[-2].get("exc")
        if want:
            need(exc in want, "file case %r gave %r, expected %s", w, exc or "a dataset", sorted(want))
            need(out[-1].get("exc") == "KeyError", "an object resulted from a rejected file")
        else:
            ok(out[-2], "loading a good file")
        return Info(True, ["file " + w])
    args = [[1.0, 2.0], [3.0, 5.0], [0.1, 0.2]]
    args[c["arg"]] = c["v"]
    if cls == "SACF" and c["arg"] == 2 and c["v"] is None:
        return Info(False, ["errors=None"], 0)
    out = ctx.run([{"op": "new", "cls": cls, "as": "o", "args": args}, {"op": "val", "on": "o"}])
    exc = out[0]
    # a list of rows with the wrong nesting for its place is a type error or bad input, never accepted
    need("exc" in exc, "argument %d of wrong type %r was accepted", c["arg"], c["v"])
    need(exc["exc"] == "TypeError", "argument %d of wrong type %r raised %s", c["arg"], c["v"], exc["exc"])
    return Info(True, ["type arg%d" % c["arg"]])
