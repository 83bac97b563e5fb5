from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C20"
BUILDS = ("san", "release")
BUDGET = {"quick": {"cases": 700, "seconds": 80}, "thorough": {"cases": 6000, "seconds": 780}}
RULE = ("1 to 4 analysis objects, datasets and correlators (own or returned, sharing datasets); random drops of references, collections, and creation "
        "and destruction of up to 60 other objects between uses, and of new datasets and correlators that are analysed and dropped in turn; the same uses "
        "with everything kept alive are the oracle; run with ASan, and without it (where freed addresses are reused at once); "
        "non-trivial: a correlator is used after its dataset or analysis object was dropped and collected")
ASSUMES = []


@st.composite
def cases(draw, tier):
    n = draw(st.integers(2, 24))
    sources = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(2, 24))
        t = draw(gens.times(n))
        sources.append({"t": t, "x": draw(gens.rows(n, 1, 3)), "kind": draw(st.sampled_from(["ds", "ds2", "sacf", "sacf2", "file"])),
                        "opts": draw(gens.options(t, limit=30)), "np": draw(st.booleans())})
    acts = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["drop", "drop", "gc", "mass", "mass", "use", "use", "use", "usepy", "read", "lists", "fresh", "fresh",
                                                                      "dropcor", "acc", "set", "newcor"]), st.integers(1, 60)), min_size=3, max_size=16))
    return {"sources": sources, "acts": [list(a) for a in acts]}


def program(c, ctx, keep):
    prog, uses = [], []
    dropped, used_after = set(), False
    for i, s in enumerate(c["sources"]):
        on, x = "o%d" % i, s["x"]
        T, X = ({"np": "float64", "v": s["t"]}, {"np": "float64", "v": x}) if s["np"] else (s["t"], x)
        if s["kind"].startswith("ds"):
            prog.append(ds(T, X, name=on))
        elif s["kind"] == "file":
            path = ctx.tmp + "/l%d" % i
            prog.append({"op": "write", "path": path, "hex": "".join("%r %r\n" % p for p in zip(s["t"], x[0])).encode().hex()})
            prog.append({"op": "new", "cls": "SACF", "as": on, "args": [], "kw": {"filename": path}})
        else:
            prog.append(sacf(T, X, name=on))
        if s["kind"].startswith("ds"):
            prog.append({"op": "new", "cls": "Correlator", "as": "c%d" % i, "args": [{"ref": on}]})
            if s["kind"] == "ds2":
                prog.append({"op": "new", "cls": "Correlator", "as": "e%d" % i, "args": [{"ref": on}]})
            prog += [{"op": "set", "on": "c%d" % i, "attr": a, "v": v} for a, v in s["opts"].items() if v is not None]
            prog.append({"op": "call", "on": on, "meth": "data", "as": "L%d" % i})
        else:
            prog.append({"op": "acf", "on": on, "kw": kw(s["opts"], return_correlator=True), "as": "R%d" % i})
            prog.append({"op": "let", "as": "c%d" % i, "v": {"ref": "R%d.c" % i}})
            prog.append({"op": "let", "as": "L%d" % i, "v": {"ref": "R%d" % i, "idx": [1]}})
            if s["kind"] == "sacf2":
                prog.append({"op": "get", "on": on, "attr": "data", "as": "dd%d" % i})
                prog.append({"op": "new", "cls": "Correlator", "as": "e%d" % i, "args": [{"ref": "dd%d" % i}]})
    for pos, (k, act, m) in enumerate(c["acts"]):
        i = k % len(c["sources"])
        s = c["sources"][i]
        cor = "c%d" % i
        if act == "drop":
            if not keep:
                prog.append({"op": "del", "names": ["o%d" % i, "R%d" % i, "R%d.c" % i, "dd%d" % i]})
                prog.append({"op": "gc", "n": 2})
            dropped.add(i)
        elif act == "dropcor":
            if not keep:
                prog += [{"op": "del", "names": ["e%d" % i]}, {"op": "gc", "n": 1}]
        elif act == "gc":
            prog.append({"op": "gc", "n": 1})
        elif act == "fresh":     # new objects, perhaps where old ones were
            X = [[v * (m + 1) for v in r] for r in s["x"]]
            on, cn = ("f%d" % pos, "fc%d" % pos) if keep else ("f", "fc")
            if m % 2:
                prog.append(sacf(s["t"], X, name=on))
                prog.append({"op": "acf", "on": on, "kw": kw(s["opts"])})
            else:
                prog.append(ds(s["t"], X, name=on))
                prog.append({"op": "new", "cls": "Correlator", "as": cn, "args": [{"ref": on}]})
                prog += [{"op": "set", "on": cn, "attr": a, "v": v} for a, v in s["opts"].items() if v is not None]
                prog.append({"op": "call", "on": cn, "meth": "calculateStandardCorrelation"})
                prog.append({"op": "lags", "on": cn})
            uses.append(len(prog) - 1)
            if not keep:
                prog += [{"op": "del", "names": [on, cn]}, {"op": "gc", "n": 1 + m % 3}]
        elif act == "mass":
            if not keep:
                prog.append({"op": "mass", "n": m})
        else:
            used_after = used_after or i in dropped
            if act == "use":
                prog.append({"op": "call", "on": cor, "meth": "calculateStandardCorrelation"})
                prog.append({"op": "corr", "on": cor})
            elif act == "usepy":
                prog.append({"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": cor}, "natural", gens.WEIGHTS[m % 3]]})
                prog.append({"op": "corr", "on": cor})
            elif act == "read":
                prog.append({"op": "corr", "on": cor})
            elif act == "set":
                prog.append({"op": "set", "on": cor, "attr": "alpha", "v": float(m)})
                prog.append({"op": "corr", "on": cor})
            elif act == "lists":
                prog.append({"op": "val", "on": "L%d" % i})
            elif act == "newcor":    # several correlators of one dataset, one of them dropped
                if s["kind"] in ("ds", "ds2") and i not in dropped:
                    prog.append({"op": "new", "cls": "Correlator", "as": "t", "args": [{"ref": "o%d" % i}]})
                    if not keep:
                        prog += [{"op": "del", "names": ["t"]}, {"op": "gc", "n": 1}]
                    continue
                prog.append({"op": "call", "on": cor, "meth": "values"})
            else:
                prog.append({"op": "call", "on": cor, "meth": "normalised_timeseries" if m % 2 else "values"})
            uses.append(len(prog) - 1)
    return prog, uses, used_after


def flat(v):
    if isinstance(v, dict):
        v = [v[k] for k in sorted(v)]
    if isinstance(v, list):
        return [z for u in v for z in flat(u)] + ["|"]
    return [v]


def judge(c, ctx):
    p1, u1, after = program(c, ctx, True)
    p2, u2, _ = program(c, ctx, False)
    out1, out2, out3 = ctx.run(p1, "release"), ctx.run(p2, "san"), ctx.run(p2, "release")
    for p, out in ((p1, out1), (p2, out2), (p2, out3)):
        for st_, r in zip(p, out):
            ok(r, "%s %s" % (st_["op"], st_.get("meth", "")))
    for a, b, o in [(a, b, o) for o in (out3, out2) for a, b in zip(u1, u2)]:
        x, y = flat(out1[a]["ok"]), flat(o[b]["ok"])
        need(ref.same_list(x, y), "%s %s differs once other objects are gone: %r, kept alive: %r", p2[b]["op"], p2[b].get("meth", ""), y[:8], x[:8])
    labels = {s["kind"] for s in c["sources"]} | {a[1] for a in c["acts"]} | ({"used after drop"} if after else set())
    return Info(after, labels, len(u1))
