"""The process around the calls: the same program in processes set up differently, and called from elsewhere in the process. Its state is compared before and after."""
import functools
import json
import os
import re
import subprocess

from hypothesis import strategies as st

from lib import build, gens
from lib.client import Client, WorkerGone
from lib.common import *
from .c22 import STEP

ID = "C32"
BUILDS = ("release",)
BATCH = 150
BUDGET = {"quick": {"cases": 500, "seconds": 80}, "thorough": {"cases": 6000, "seconds": 780}}
RULE = ("a program of loads, analyses by every route, steps of lags and rejected calls on random series, files and options, run once plainly and then in two of eleven "
        "differently set up processes (optimising interpreter, warnings as errors, decimal-comma locales, small stack, closed standard streams, removed working "
        "directory, few descriptors, other environment variables, and variables of many names including those that occur in the code) and from one of thirteen other places in the process (threads, forked child, signal handler, finaliser, "
        "under tracing, amid signals, ...); oracle: every outcome is bit-identical to the plain one, and locale, rounding, working directory, environment, umask, signal "
        "handlers, timers, random generators, logging, children, limits, open files, listed directories and what was written to the standard streams are as before; non-trivial: the "
        "program computes at least two non-empty results that vary")
ASSUMES = ["the C library's rand() is not observed: the interpreter's own compiler draws from it", "PyPy on x86-64 Linux with glibc; localedef and the locale sources for de_DE and fr_FR for the decimal comma (left out otherwise)"]

WAYS = ["thread", "small thread", "fork", "signal", "del", "except", "deep", "generator", "nogc", "traced", "ticking", "executed", "callback"]
SETUPS = {
    "optimised": {"flags": ["-O"], "env": {"LANG": "C", "PYTHONHASHSEED": "7"}},
    "strict": {"flags": ["-OO", "-bb", "-W", "error"], "env": {"PYTHONHASHSEED": "random", "LANG": None, "HOME": None}},
    "german": {"mods": ["locale"], "env": {"LC_ALL": "de_DE.UTF-8", "TZ": "Asia/Kathmandu", "OMP_NUM_THREADS": "3"}},
    "french": {"mods": ["locale"], "env": {"LC_NUMERIC": "fr_FR.UTF-8", "LANG": "C", "MALLOC_PERTURB_": "119"}},
    "small stack": {"limits": {"STACK": 384 << 10}, "env": {"OMP_NUM_THREADS": None}},
    "no streams": {"mods": ["closed"]},
    "nowhere": {"cwd": "removed", "env": {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "PATH": None}},
    "few files": {"limits": {"NOFILE": 16}, "env": {"MALLOC_ARENA_MAX": "1", "MALLOC_PERTURB_": "34"}},
    "dev": {"flags": ["-X", "faulthandler", "-W", "error", "-q", "-u", "-b"], "env": {"PYTHONHASHSEED": "3", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}},
}
NAMED = set("""DEBUG VERBOSE QUIET LOG LOGLEVEL LOG_LEVEL LOGGING TRACE PROFILE TEST TESTING CI ENV SEED RANDOM_SEED THREADS NUM_THREADS NTHREADS NPROC
    OMP_NUM_THREADS MKL_NUM_THREADS OPENBLAS_NUM_THREADS NUMEXPR_NUM_THREADS PRECISION FAST CACHE CACHE_DIR NO_COLOR TERM COLUMNS HOSTNAME USER LOGNAME SHELL EDITOR
    SACF SACF_DEBUG SACF_VERBOSE SACF_LOG SACF_LOG_LEVEL SACF_THREADS SACF_NUM_THREADS SACF_FAST SACF_CACHE SACF_PRECISION SACF_TOLERANCE SACF_SELECTION SACF_WEIGHT
    SACF_ALPHA SACF_DATA SACF_DIR GACF GACF_DEBUG SOURCE_DATE_EPOCH POSIXLY_CORRECT""".split())
NOT_NAMED = re.compile("LD_|PY|GLIBC|MALLOC|LC_|LOCPATH|LANG|NLSPATH|GCONV|RES_|HOME$|PATH$|TMPDIR$|TZ")      # these have meanings to the interpreter and the C library


@functools.lru_cache()
def named(value):
    """Environment variables of common names and of those that occur in the code (a dictionary for the search), all with the same value."""
    found = set(NAMED)
    for base, _, files in os.walk(os.path.join(build.REPO, "sacf")):
        for f in files:
            if f.endswith((".py", ".cpp", ".h", ".hpp")) and "pybind11" not in base:
                with open(os.path.join(base, f), errors="replace") as g:
                    found.update(re.findall(r"""["']([A-Z][A-Z0-9_]{1,40})["']""", g.read()))
    return {n: value for n in sorted(found) if not NOT_NAMED.match(n)}


SETUPS["named 1"] = {"env": named("1")}
SETUPS["named 16"] = {"env": named("16")}


@st.composite
def cases(draw, tier):
    c = draw(gens.series_case(tier, limit=30, hi=3, nan=draw(st.integers(0, 5)) == 0, big=draw(st.integers(0, 5)) == 0))
    c["big"] = draw(st.integers(0, 15)) == 7
    if c["big"]:    # more than a small stack holds
        n = draw(st.integers(30000, 60000))
        c.update(t=[n, draw(st.integers(1, 9))], x=[n, draw(st.integers(2, 9))], opts={"min_lag": 0.0, "max_lag": 2.0, "lag_resolution": draw(st.sampled_from([1.0, 0.0001]))})
    if not c["big"] and draw(st.integers(0, 4)) == 3 and len(c["t"]) < 60:    # many series
        c["x"] = (as_rows(c["x"]) * 40)[:draw(st.sampled_from([4, 5, 8, 9, 12, 16, 17, 33]))]
    c["sel"], c["w"] = draw(st.sampled_from(gens.SELECTIONS)), draw(st.sampled_from(gens.WEIGHTS))
    c["sep"] = draw(st.sampled_from([" ", ",", "\t", ", "]))
    c["way"] = draw(st.sampled_from(WAYS))
    c["setups"] = draw(st.lists(st.sampled_from(sorted(SETUPS) + ["german", "french"]), min_size=2, max_size=2, unique=True))
    c["order"] = draw(st.integers(0, 5))
    return c


def expand(c):
    """Times, rows and options of the case."""
    if not c["big"]:
        return c["t"], c["x"], c["opts"]
    (n, a), (_, b) = c["t"], c["x"]
    o = dict(c["opts"])
    if o["lag_resolution"] < 1:     # many lags of few samples
        n = 12
    return [float(i) + 0.01 * (i * a % 7) for i in range(n)], [float(i * b % 11) for i in range(n)], o


def program(c, path):
    t, x, o = expand(c)
    xr = as_rows(x)
    text = "# t x e\n" + "".join("%r%s%r%s\n" % (a, c["sep"], b, c["sep"] + "0.125" if i % 3 else "") for i, (a, b) in enumerate(zip(t, xr[0])) if b == b)
    call = lambda on, m, *a: {"op": "call", "on": on, "meth": m, "args": list(a)}
    it = {"ref": "i"}
    lag = t[len(t) // 2] - t[0]
    blocks = [
        [{"op": "new", "cls": "DataStructure", "as": "f", "args": [path]}, {"op": "ds", "on": "f"}],
        [sacf(t, x), {"op": "acf", "on": "s", "kw": kw(o)}, {"op": "acf", "on": "s", "kw": kw(o, selection_function=c["sel"], weight_function=c["w"])}],
        [ds(t, x, x, name="d"), {"op": "ds", "on": "d"}, {"op": "new", "cls": "Correlator", "as": "c", "args": [{"ref": "d"}]}]
        + [{"op": "set", "on": "c", "attr": a, "v": v} for a, v in o.items() if v is not None] + [call("c", "calculateStandardCorrelation"), {"op": "corr", "on": "c"},
           {"op": "new", "cls": "CorrelationIterator", "as": "i", "args": [lag, len(xr)]}, call("c", c["sel"] + "SelectionFunctionIdx", it), call("c", "deltaT", it),
           call("c", STEP[c["w"]], it), call("c", "findCorrelation", it), {"op": "it", "on": "i"}],
        [{"op": "new", "cls": "DataStructure", "as": "g", "args": [path + ".none"]}, {"op": "new", "cls": "DataStructure", "as": "g", "args": [[], []]},
         {"op": "new", "cls": "SACF", "as": "g", "args": [t, [1.0, 2.0] + list(xr[0])]}, {"op": "new", "cls": "SACF", "as": "g", "args": ["no", 7]},
         sacf([0.0, 1.0], [1.0, 2.0], name="g"), {"op": "acf", "on": "g", "kw": {"lag_resolution": -1.0}}, {"op": "acf", "on": "g", "kw": {"max_lag": 1e300}},
         {"op": "acf", "on": "g", "kw": {"selection_function": "none"}}, {"op": "acf", "on": "g", "kw": {"weight_function": "none"}},
         {"op": "acf", "on": "g", "kw": {"alpha": "1,5"}}, {"op": "acf", "on": "g", "kw": {"lag_resolution": 1e-300}},
         {"op": "acf", "on": "g", "kw": {"lag_resolution": 1e-300, "selection_function": "fast"}}, {"op": "acf", "on": "g", "kw": {"max_lag": 1e300, "weight_function": "gaussian"}},
         {"op": "get", "on": "g", "attr": "data", "as": "gd"}, {"op": "new", "cls": "Correlator", "as": "gc", "args": [{"ref": "gd"}]}, call("gc", "cleanCorrelationData", -1),
         {"op": "new", "cls": "CorrelationIterator", "as": "gi", "args": [0.0, 0]}, call("gc", "addCorrelationData", {"ref": "gi"}, 0), call("gc", "findCorrelation", {"ref": "gi"}),
         sacf([0.0, 1.0, 1.0], [1.0, 2.0, 3.0], name="u"), {"op": "acf", "on": "u", "kw": {}}, {"op": "acf", "on": "u", "kw": {"selection_function": "fast"}}],
    ]
    k = c["order"] % 4
    return text, [s for b in blocks[k:] + blocks[:k] for s in b]


_locales = {}


def locales(ctx):
    """Directory of compiled locales with a decimal comma, or None."""
    if "dir" not in _locales:
        d = ctx.tmp + "/locales"
        os.makedirs(d)
        for n in ("de_DE", "fr_FR"):
            try:
                subprocess.run(["localedef", "-c", "-i", n, "-f", "UTF-8", "%s/%s.UTF-8" % (d, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except (OSError, subprocess.TimeoutExpired):
                pass
        _locales["dir"] = d if all(os.path.exists("%s/%s.UTF-8/LC_NUMERIC" % (d, n)) for n in ("de_DE", "fr_FR")) else None
    return _locales["dir"]


def client(name, ctx):
    recent = ctx.__dict__.setdefault("recent", [])
    if name in recent:
        recent.remove(name)
    recent.append(name)
    if len(recent) > 6:     # each takes memory
        ctx.clients["around " + recent.pop(0)].close()
    if "around " + name not in ctx.clients:
        a = json.loads(json.dumps(SETUPS[name]))
        here = ctx.tmp + "/at-" + name.replace(" ", "-")
        os.makedirs(here, exist_ok=True)
        if "locale" in a.get("mods", []):
            a["env"]["LOCPATH"] = locales(ctx)
        a["cwd"] = here
        if name not in ("nowhere", "strict"):
            a["env"] = dict(a.get("env", {}), HOME=here, TMPDIR=here, XDG_CACHE_HOME=here)
        k = Client(ctx.builds["release"], "release", ctx.tmp, around=a)
        k.here, k.gone = here, SETUPS[name].get("cwd") == "removed"
        ctx.clients["around " + name] = k
    return ctx.clients["around " + name]


def run(k, prog, what):
    try:
        if k.gone and not os.path.isdir(k.here):
            os.makedirs(k.here)      # for a worker that has to be started; it is removed again
        if k.p is None:
            k.run([{"op": "gc"}])
            if k.gone:
                os.rmdir(k.here)
        before = os.path.getsize(k.errpath)
        out = k.run(prog)
        after = os.path.getsize(k.errpath)
    except WorkerGone as e:
        raise Violation("%s: the interpreter running the calls was lost: %s" % (what, e))
    need(after == before, "%s: something was written to the standard streams: %s", what, k.err_tail()[-200:])
    return out


def judge(c, ctx):
    look = ctx.tmp + "/looked-at"
    os.makedirs(look, exist_ok=True)
    path = look + "/f.dat"
    text, steps = program(c, path)
    with open(path, "w") as f:
        f.write(text)
    state = {"op": "state", "dirs": [look]}
    plain = ctx.client()
    if not hasattr(plain, "here"):
        plain.here, plain.gone = ctx.tmp, False
    want = run(plain, [state] + steps + [state], "plain process")

    def compare(got, what):
        for s, a, b in zip(steps, want[1:-1], got):
            need(a.get("exc") == b.get("exc"), "%s: %s: %s, but %s in a plain process", what, s["op"], b.get("exc", "accepted"), a.get("exc", "accepted"))
            if "ok" in a:
                need(alike(a["ok"], b["ok"]), "%s: %s gives other results than in a plain process", what, s["op"])

    def kept(a, b, what):
        a, b = ok(a, "state"), ok(b, "state")
        for key in a:
            if key in b and (key != "warnings" or a["numpy loaded"] == b["numpy loaded"]) and key != "numpy loaded":
                need(a[key] == b[key], "%s: %s of the process changed from %r to %r", what, key, a[key], b[key])
    kept(want[0], want[-1], "plain process")
    out = run(plain, [state, {"op": "within", "how": c["way"], "prog": steps}, state], "in " + c["way"])
    got = ok(out[1], "in " + c["way"])
    need(isinstance(got, list) and len(got) == 1, "in %s: %r", c["way"], got)
    compare(got[0], "in " + c["way"])
    kept(out[0], out[2], "in " + c["way"])
    labels = ["in " + c["way"]] + ["large"] * c["big"]
    for name in c["setups"]:
        if name in ("german", "french") and not locales(ctx):
            continue
        k = client(name, ctx)
        state = {"op": "state", "dirs": [look] if k.gone else [look, k.here]}
        out = run(k, [state] + steps + [state], name)
        compare(out[1:-1], "process '%s'" % name)
        kept(out[0], out[-1], "process '%s'" % name)
        labels.append(name)
        if c["big"]:
            k.close()
    if c["big"]:        # all these processes would keep the memory
        plain.close()
    results = [v["ok"] for s, v in zip(steps, want[1:-1]) if s["op"] in ("acf", "corr") and "ok" in v]
    vary = [r for r in results if len({v for q in r["corr"] for v in (q if isinstance(q, list) else [q])}) > 1]
    return Info(len(vary) >= 2, labels, len(steps) * (2 + len(c["setups"])))


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return ref.same(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(alike, a, b))
    return a == b and type(a) is type(b)
