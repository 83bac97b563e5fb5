"""Interleaved and concurrent analyses do not affect each other. Every task against the same task run alone."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *
from .c22 import STEP

ID = "C26"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 800, "seconds": 80}, "thorough": {"cases": 9000, "seconds": 780}}
RULE = ("2 to 5 tasks (an analysis by any route, a correlator configured and computed in pieces, the steps of single lags by hand, datasets built from "
        "lists or files) over 1 to 3 datasets and correlators, own or shared, in a random interleaving of their calls, and (1 case in 3) in threads "
        "switching as often as the interpreter can; oracle: each task's outcomes are bit-identical to those of the task run alone in its own program; "
        "non-trivial: at least two tasks compute non-empty results and their calls overlap")
ASSUMES = ["threads share datasets, analysis objects and correlators used for steps only; a correlator that stores results belongs to one thread"]


@st.composite
def cases(draw, tier):
    data = []
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.sampled_from(["other", "same length", "scaled", "moved", "same times"])) if data else "other"
        t = data[0][0] if data else None
        n = draw(gens.length(tier, 2, big=False)) if how == "other" else len(t)
        if how == "scaled":     # everything alike but the unit
            t = [v * 2 for v in t]
        elif how == "moved":    # one sample elsewhere
            i = draw(st.integers(1, n - 1))
            t = t[:i] + [(t[i] + (t[i + 1] if i + 1 < n else t[i] + 1.0)) / 2] + t[i + 1:]
            if any(not a < b for a, b in zip(t, t[1:])):
                t = data[0][0]
        elif how != "same times":
            t = draw(gens.times(n))
        data.append([t, draw(gens.rows(n, 1, 3, nan=draw(st.integers(0, 7)) == 0))])
    alike = draw(st.booleans())     # tasks that use the same functions, lags and options
    tasks = []
    for q in range(draw(st.integers(2, 5))):
        i = draw(st.integers(0, len(data) - 1))
        t, x = data[i]
        span, gap = t[-1] - t[0], ref.min_gap(t)
        kind = draw(st.sampled_from(["top", "cor", "steps", "steps", "stepwise", "load"]))
        o = draw(gens.options(t, limit=30))
        w, sel = draw(st.sampled_from(gens.WEIGHTS)), draw(st.sampled_from(gens.SELECTIONS))
        lags = []
        for _ in range(draw(st.integers(1, 4))):
            a, b = draw(st.integers(0, len(t) - 1)), draw(st.integers(0, len(t) - 1))
            lags.append(t[a] - t[b] + draw(st.sampled_from([0.0, 0.0, gap / 2, gap / 8, -gap / 4])))
        if alike and tasks:
            _, _, p, w, sel, lags, _ = tasks[0]
            e = ref.effective(t, p)
            if gens.count(e["min_lag"], e["max_lag"], e["lag_resolution"]) <= 60:
                o = p
        tasks.append([kind, i, o, w, sel, lags, draw(st.booleans())])
    return {"data": data, "tasks": tasks, "order": list(draw(st.binary(min_size=20, max_size=120))), "threads": draw(st.integers(0, 2)) == 0}


def task(q, spec, data):
    """(steps of the task, whether it needs the shared objects) with names private to the task."""
    kind, i, o, w, sel, lags, shared = spec
    t, x = data[i]
    n = lambda s: "%s%d" % (s, q)
    own = [] if shared else [ds(t, x, name=n("d"))]
    d = "D%d" % i if shared else n("d")
    mk = lambda m, *a: {"op": "call", "on": n("c"), "meth": m, "args": list(a)}
    if kind == "top":
        s = "S%d" % i if shared else n("s")
        return ([] if shared else [sacf(t, x, name=s)]) + [{"op": "acf", "on": s, "kw": kw(o, weight_function=w, selection_function=sel), "as": n("r")},
                                                           {"op": "acf", "on": s, "kw": kw(o), "as": n("q")}]
    if kind == "load":
        body = "".join("%r %r\n" % p for p in zip(t, x[0])).encode().hex()
        return [{"op": "write", "path": n("in"), "hex": body}, {"op": "new", "cls": "DataStructure", "as": n("f"), "args": [n("in")]},
                {"op": "ds", "on": n("f")}, ds(t, x, name=n("g")), {"op": "ds", "on": n("g")}]
    new = own + [{"op": "new", "cls": "Correlator", "as": n("c"), "args": [{"ref": d}]}]
    if kind == "steps" and shared:      # the steps of several tasks on one correlator
        new = []
        mk = lambda m, *a: {"op": "call", "on": "C%d" % i, "meth": m, "args": list(a)}
    elif o.get("alpha") is not None or kind != "steps":
        new += [{"op": "set", "on": n("c"), "attr": k, "v": v} for k, v in ref.effective(t, o).items()]
    if kind == "cor":
        return new + [mk("calculateStandardCorrelation"), {"op": "corr", "on": n("c")},
                      {"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": n("c")}, sel, w]}, {"op": "corr", "on": n("c")}]
    if kind == "stepwise":
        r = new
        for h, k in enumerate(lags):
            it = {"ref": n("i")}
            r += [{"op": "new", "cls": "CorrelationIterator", "as": n("i"), "args": [k, len(x)]}, mk(sel + "SelectionFunctionIdx", it), mk("deltaT", it),
                  mk(STEP[w], it), mk("findCorrelation", it), mk("addCorrelationData", it, h), {"op": "lags", "on": n("c")}]
        return r + [mk("cleanCorrelationData", len(lags)), {"op": "corr", "on": n("c")}]
    r = new
    for h, k in enumerate(lags):
        r.append({"op": "new", "cls": "CorrelationIterator", "as": n("i%d-" % h), "args": [k, len(x)]})
    for m in (sel + "SelectionFunctionIdx", "deltaT", STEP[w], "findCorrelation"):
        for h in range(len(lags)):
            r += [mk(m, {"ref": n("i%d-" % h)}), {"op": "it", "on": n("i%d-" % h)}]
    return r


def judge(c, ctx):
    data = c["data"]
    base = []
    for i, (t, x) in enumerate(data):
        base += [ds(t, x, name="D%d" % i), sacf(t, x, name="S%d" % i), {"op": "new", "cls": "Correlator", "as": "C%d" % i, "args": [{"ref": "D%d" % i}]}]
    tasks = [task(q, s, data) for q, s in enumerate(c["tasks"])]
    alone = [ctx.run(base + p)[len(base):] for p in tasks]
    rounds = []
    if c["threads"]:
        for _ in range(2):
            out = ctx.run(base + [{"op": "threads", "progs": [p * 3 for p in tasks]}])
            got = ok(out[-1], "computing in threads")
            rounds += [("in threads", [g[k * len(p):(k + 1) * len(p)] for g, p in zip(got, tasks)]) for k in range(3)]
    else:
        left = [list(range(len(p))) for p in tasks]
        seq = []
        order = c["order"] * (1 + sum(map(len, tasks)) // len(c["order"]))
        for b in order:
            live = [q for q in range(len(tasks)) if left[q]]
            if not live:
                break
            q = live[b % len(live)]
            seq.append((q, left[q].pop(0)))
        for q in range(len(tasks)):
            seq += [(q, s) for s in left[q]]
        out = ctx.run(base + [tasks[q][s] for q, s in seq])[len(base):]
        got = [[None] * len(p) for p in tasks]
        for (q, s), r in zip(seq, out):
            got[q][s] = r
        rounds.append(("interleaved with other analyses", got))
    n = 0
    for what, got in rounds:
        for q, p in enumerate(tasks):
            need(len(got[q]) == len(p), "task %d gave %d outcomes", q, len(got[q]))
            for st_, a, b in zip(p, alone[q], got[q]):
                n += 1
                a, b = ({k: v for k, v in r.items() if k != "mro"} for r in (a, b))
                need(same_out(a, b), "%s, %s %s of a %s task gives %s, alone %s", what, st_["op"], st_.get("meth", ""), c["tasks"][q][0],
                     str(b)[:200], str(a)[:200])
    some = sum(any(isinstance(r.get("ok"), dict) and (r["ok"].get("lags") or r["ok"].get("sel") or r["ok"].get("nt")) for r in a) for a in alone)
    labels = [s[0] + (" shared" if s[6] else "") for s in c["tasks"]] + ["threads" if c["threads"] else "interleaved"]
    labels += ["raised"] * any("exc" in r for a in alone for r in a)
    return Info(some > 1, set(labels), n)


def same_out(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_out(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same_out, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return ref.same(a, b)
    return type(a) == type(b) and a == b
