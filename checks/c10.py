"""Model-based: histories of option changes, computations, clears and reads on several correlators of one or two datasets."""
from hypothesis import strategies as st

from lib import gens
from lib.common import *

ID = "C10"
BUILDS = ("release",)
BUDGET = {"quick": {"cases": 2100, "seconds": 80}, "thorough": {"cases": 12000, "seconds": 780}}
GUIDED = "series"
RULE = ("histories of 4 to 30 operations (set one option or all, rejected set, compute by the compiled or a stepwise route, failing compute, "
        "clear, read, drop) on 1 to 4 correlators over 1 or 2 datasets; model: option values and the result of a fresh correlator with them; "
        "non-trivial: some correlator computes at least twice, with an option change or clear between, and is read afterwards")
ASSUMES = ["after a computation that raised, results are not read before the next computation or clear",
           "compared bit for bit with a fresh correlator using the same route"]

ATTRS = {"lo": "min_lag", "hi": "max_lag", "res": "lag_resolution", "alpha": "alpha"}


@st.composite
def cases(draw, tier):
    nd = draw(st.integers(1, 2))
    data = []
    for _ in range(nd):
        n = draw(gens.length(tier, 2, big=False))
        t = draw(gens.times(n, wide=False))
        data.append({"t": t, "x": draw(gens.rows(n, 1, 3, nan=draw(st.integers(0, 6)) == 6))})
    nc = draw(st.integers(1, 4))
    cors = [draw(st.integers(0, nd - 1)) for _ in range(nc)]
    small = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(4, 30 if tier == "quick" else 60))):
        c = draw(st.integers(0, nc - 1))
        kind = draw(st.sampled_from(["all", "all", "all", "one", "one", "cpp", "cpp", "cpp", "py", "py", "clear", "read", "read", "bad", "badset", "fail"]))
        t = data[cors[c]]["t"]
        if kind in ("all", "one"):
            if len(t) < 8 and draw(st.integers(0, 19)) == 11:
                o = draw(gens.many_options(t, None, [1023, 1025, 1500, 2100]))
            else:
                o = draw(gens.options(t, limit=40 if small else 150))
            e = ref.effective(t, o)
            if kind == "all":
                ops.append([c, "all", e])
            else:
                a = draw(st.sampled_from(sorted(e)))
                ops.append([c, "one", {a: e[a]}])
        elif kind == "py":
            ops.append([c, "py", [draw(st.sampled_from(gens.SELECTIONS)), draw(st.sampled_from(gens.WEIGHTS))]])
        elif kind == "badset":
            ops.append([c, "badset", draw(st.sampled_from([["lag_resolution", "0.0"], ["lag_resolution", "-1.0"], ["lag_resolution", "nan"],
                                                          ["max_lag", "inf"], ["min_lag", "nan"], ["min_lag", "-inf"]]))])
        else:
            ops.append([c, kind, None])
    ops.append([draw(st.integers(0, nc - 1)), "cpp", None])
    return {"data": data, "cors": cors, "ops": ops}


def guard(o, n):
    """The model only computes grids of moderate size that can be stepped through."""
    lo, hi, res = o["min_lag"], o["max_lag"], o["lag_resolution"]
    big = max(abs(lo), abs(hi))
    return gens.count(lo, hi, res) < (600 if n > 8 else 2600) and big + res > big


def adapt(g):
    ops = []
    for u in g["uses"]:
        ops += [[0, "all", ref.effective(g["t"], u["opts"])], [0, "py", [u["sel"], u["w"]]] if u["steps"] else [0, "cpp", None], [0, "read", None]]
    yield {"data": [{"t": g["t"], "x": g["x"][:8]}], "cors": [0], "ops": ops + [[0, "cpp", None]]}


def judge(c, ctx):
    prog, expect = [], []
    for i, d in enumerate(c["data"]):
        prog.append(ds(d["t"], d["x"], name="d%d" % i))
    model = []
    for i, d in enumerate(c["cors"]):
        prog.append({"op": "new", "cls": "Correlator", "as": "c%d" % i, "args": [{"ref": "d%d" % d}]})
        t = c["data"][d]["t"]
        model.append({"o": ref.defaults(t), "d": d, "state": "new", "computed": 0, "changed": False})
    rich = False
    fresh = 0

    def read(i):
        m = model[i]
        if m["state"] == "unknown":
            return
        prog.append({"op": "corr", "on": "c%d" % i})
        expect.append((len(prog) - 1, "read", i, dict(m["o"]), m["state"]))

    for i, kind, arg in c["ops"]:
        m = model[i]
        on = "c%d" % i
        if kind in ("all", "one"):
            for a, v in arg.items():
                prog.append({"op": "set", "on": on, "attr": a, "v": v})
                expect.append((len(prog) - 1, "ok", i, None, None))
                m["o"][a] = v
            m["changed"] = True
        elif kind == "badset":
            prog.append({"op": "set", "on": on, "attr": arg[0], "v": {"float": arg[1]}})
            expect.append((len(prog) - 1, "ValueError", i, None, None))
        elif kind in ("cpp", "py"):
            if not guard(m["o"], len(c["data"][c["cors"][i]]["t"])):
                continue
            st_ = [{"op": "call", "on": on, "meth": "calculateStandardCorrelation"}] if kind == "cpp" else \
                [{"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": on}] + arg}]
            prog.extend(st_)
            expect.append((len(prog) - 1, "ok", i, None, None))
            f = "f%d" % fresh
            fresh += 1
            prog.append({"op": "new", "cls": "Correlator", "as": f, "args": [{"ref": "d%d" % m["d"]}]})
            for a, v in m["o"].items():
                prog.append({"op": "set", "on": f, "attr": a, "v": v})
            s2 = dict(st_[0])
            if kind == "cpp":
                s2["on"] = f
            else:
                s2["args"] = [{"ref": f}] + arg
            prog += [s2, {"op": "lags", "on": f}, {"op": "del", "names": [f]}]
            m["state"] = len(prog) - 2
            if m["computed"] and m["changed"]:
                rich = True
            m["computed"] += 1
            m["changed"] = False
            read(i)
        elif kind == "clear":
            prog.append({"op": "call", "on": on, "meth": "clearCorrelation"})
            expect.append((len(prog) - 1, "ok", i, None, None))
            m["state"] = "cleared"
            m["changed"] = True
            read(i)
        elif kind == "read":
            read(i)
        elif kind == "fail":
            if not guard(m["o"], len(c["data"][c["cors"][i]]["t"])) or not m["o"]["min_lag"] <= m["o"]["max_lag"]:
                continue
            prog.append({"op": "call", "cls": "SACF", "meth": "find_correlation", "args": [{"ref": on}, "natural", "no such weight"]})
            expect.append((len(prog) - 1, "raise", i, None, None))
            m["state"] = "unknown"
        elif kind == "bad":   # grid rejected at computation, then restored
            old = dict(m["o"])
            prog += [{"op": "set", "on": on, "attr": "max_lag", "v": 1e18}, {"op": "set", "on": on, "attr": "lag_resolution", "v": 1e-3},
                     {"op": "call", "on": on, "meth": "calculateStandardCorrelation"}]
            expect.append((len(prog) - 1, "ValueError", i, None, None))
            if old["min_lag"] > 1e18:
                continue
            prog += [{"op": "set", "on": on, "attr": a, "v": v} for a, v in old.items()]
            m["state"] = "unknown"
    for i in range(len(model)):
        read(i)
    out = ctx.run(prog)
    n = 0
    for i, d in enumerate(c["data"]):
        ok(out[i], "DataStructure")
    for pos, what, i, o, state in expect:
        r = out[pos]
        desc = "step %d (%s on c%d)" % (pos, prog[pos].get("meth", prog[pos]["op"]), i)
        if what == "ok":
            ok(r, desc)
        elif what == "raise":
            need("exc" in r, "%s did not raise", desc)
        elif what == "ValueError":
            need(r.get("exc") == "ValueError", "%s gave %r, expected ValueError", desc, r)
        else:
            v = ok(r, desc)
            n += 1
            for a, k in (("min_lag", "min_lag"), ("max_lag", "max_lag"), ("lag_resolution", "res"), ("alpha", "alpha")):
                need(v[k] == o[a], "%s: %s reads %r, was set to %r", desc, a, v[k], o[a])
            d = c["data"][model[i]["d"]]
            need(v["N"] == len(d["x"]) and v["M"] == len(d["t"]), "%s: N, M = %r, %r", desc, v["N"], v["M"])
            if state in ("new", "cleared"):
                need(v["lags"] == [] and not any(v["corr"]), "%s: %s correlator holds %d lags", desc, state, len(v["lags"]))
            else:
                w = ok(out[state], "fresh correlator")
                need(ref.same_list(v["lags"], w["lags"]), "%s: lags differ from a fresh correlator's (%d and %d lags)", desc, len(v["lags"]),
                     len(w["lags"]))
                need(len(v["corr"]) == len(w["corr"]) == len(d["x"]), "%s: number of rows", desc)
                for a, b in zip(v["corr"], w["corr"]):
                    need(ref.same_list(a, b), "%s: correlations differ from a fresh correlator's: %r and %r", desc, a[:8], b[:8])
    kinds = {k for _, k, _ in c["ops"]}
    return Info(rich and n > 1, sorted(kinds) + ["shared dataset"] * (len(set(c["cors"])) < len(c["cors"])), n)
