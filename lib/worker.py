"""Runs in PyPy with the package under test on sys.path.

Reads one JSON program per line on stdin, writes one JSON list of step outcomes per line on stdout.
A program is a list of steps; every step yields {"ok": value} or {"exc": type name, "msg": text}.
The environment (named objects) lives for one program only.
"""
import gc
import json
import math
import os
import sys

OUT = os.fdopen(os.dup(1), "w", encoding="utf-8", newline="\n")
os.dup2(2, 1)  # nothing else may write to the protocol stream
IN = sys.stdin
AROUND = sys.argv[1:]      # settings of this process, see checks/c32.py
if "locale" in AROUND:
    import locale
    locale.setlocale(locale.LC_ALL, "")
if "closed" in AROUND:     # no standard streams
    IN = os.fdopen(os.dup(0))
    for _i in range(3):
        os.close(_i)
    sys.stdin = sys.stdout = sys.stderr = None

import sacf  # noqa: E402
from sacf import SACF  # noqa: E402
from sacf.correlator import Correlator, CorrelationIterator  # noqa: E402
from sacf.datastructure import DataStructure  # noqa: E402

np = None


def numpy():
    global np
    if np is None:
        import numpy
        np = numpy
    return np


def dec(v, env):
    """JSON argument -> Python object. Dicts are tagged values."""
    if isinstance(v, dict):
        if "ref" in v:
            o = env[v["ref"]]
            for i in v.get("idx", ()):
                o = o[i]
            return o
        if "tuple" in v:
            return tuple(dec(x, env) for x in v["tuple"])
        if "list" in v:
            return [dec(x, env) for x in v["list"]]
        if "np" in v:
            a = numpy().array([dec(x, env) for x in v["v"]] if isinstance(v["v"], list) else v["v"], dtype=v["np"])
            how = v.get("how")
            if how == "strided":
                b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
                b[...] = 77
                b[..., ::2] = a
                a = b[..., ::2]
            elif how == "reversed":
                a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
            elif how == "fortran":
                a = np.asfortranarray(a)
            elif how == "transposed":
                a = np.ascontiguousarray(a.T).T
            elif how == "readonly":
                a.flags.writeable = False
            return a
        if "nps" in v:  # numpy scalar
            return getattr(numpy(), v["nps"])(v["v"])
        if "bytes" in v:
            return bytes.fromhex(v["bytes"])
        if "float" in v:
            return float(v["float"])
        if "int" in v:
            return int(v["int"])
        if "vary" in v:  # a number that differs in every repetition
            return v["vary"] + v["by"] * env.get(" n", 0)
        if "path" in v:     # the same file by another name in every repetition
            return "./" * (env.get(" n", 0) % 1500) + v["path"]
        if "obj" in v:
            return object()
        if "map" in v:
            return {k: dec(x, env) for k, x in v["map"].items()}
        raise ValueError("bad tagged value %r" % (v,))
    if isinstance(v, list):
        return [dec(x, env) if isinstance(x, (dict, list)) else x for x in v]
    return v


def enc(v):
    """Python result -> JSON value."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return float(v)
    if isinstance(v, (list, tuple)):
        if all(type(x) is float for x in v):
            return list(v)
        return [enc(x) for x in v]
    t = type(v).__name__
    if t == "ndarray" or hasattr(v, "tolist"):
        return enc(v.tolist())
    return {"obj": t}


def ctor(cls, st, env):
    a = [dec(x, env) for x in st.get("args", [])]
    k = {n: dec(x, env) for n, x in st.get("kw", {}).items()}
    return cls(*a, **k)


CLASSES = {"SACF": SACF, "DataStructure": DataStructure, "Correlator": Correlator,
           "CorrelationIterator": CorrelationIterator}


def describe_ds(d):
    return {"N": d.N_datasets, "M": d.M_datapoints, "t": enc(d.timeseries()), "x": enc(d.data()), "e": enc(d.errors()),
            "nt": enc(d.normalised_timeseries()), "nx": enc(d.normalised_data()), "mean": enc(d.mean_data),
            "med": d.median_time, "max": d.max_time}


def describe_corr(c):
    return {"lags": enc(c.lag_timeseries()), "corr": enc(c.correlations()), "max_lag": c.max_lag, "min_lag": c.min_lag,
            "res": c.lag_resolution, "alpha": c.alpha, "N": c.N_datasets, "M": c.M_datapoints}


def step(st, env):
    op = st["op"]
    if op == "new":
        env[st["as"]] = ctor(CLASSES[st["cls"]], st, env)
        return True
    if op == "let":
        env[st["as"]] = dec(st["v"], env)
        return True
    if op == "acf":
        k = {n: dec(x, env) for n, x in st.get("kw", {}).items()}
        a = [dec(x, env) for x in st.get("args", [])]
        r = env[st["on"]].autocorrelation(*a, **k)
        if "as" in st:
            env[st["as"]] = r
        res = {"n": len(r), "lags": enc(r[0]), "corr": enc(r[1])}
        if len(r) > 2:
            if "as" in st:
                env[st["as"] + ".c"] = r[2]
            res["c"] = describe_corr(r[2])
        return res
    if op == "get":
        o = getattr(dec({"ref": st["on"]}, env), st["attr"])
        if "as" in st:
            env[st["as"]] = o
        return enc(o)
    if op == "set":
        setattr(env[st["on"]], st["attr"], dec(st["v"], env))
        return True
    if op == "call":
        o = env[st["on"]] if "on" in st else {"SACF": SACF}[st["cls"]]
        a = [dec(x, env) for x in st.get("args", [])]
        k = {n: dec(x, env) for n, x in st.get("kw", {}).items()}
        r = getattr(o, st["meth"])(*a, **k)
        if "as" in st:
            env[st["as"]] = r
        return enc(r)
    if op == "ds":
        return describe_ds(env[st["on"]])
    if op == "corr":
        return describe_corr(env[st["on"]])
    if op == "lags":
        c = env[st["on"]]
        return {"lags": enc(c.lag_timeseries()), "corr": enc(c.correlations())}
    if op == "it":
        i = env[st["on"]]
        return {"k": i.k, "sel": enc(i.selection_indices), "dt": enc(i.delta_t), "w": enc(i.weights),
                "corr": enc(i.correlation), "shifted": enc(i.shifted_timeseries)}
    if op == "val":
        return enc(dec({"ref": st["on"], "idx": st.get("idx", [])}, env))
    if op == "setitem":  # mutate a list/array in place
        o = env[st["on"]]
        for i in st["idx"][:-1]:
            o = o[i]
        o[st["idx"][-1]] = dec(st["v"], env)
        return True
    if op == "copy":
        import copy
        import pickle
        o = dec({"ref": st["on"]}, env)
        how = st["how"]
        r = copy.copy(o) if how == "copy" else copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o, int(how)))
        if "as" in st:
            env[st["as"]] = r
        return type(r).__name__
    if op == "clearlist":
        o = env[st["on"]]
        for i in st.get("idx", []):
            o = o[i]
        del o[:]
        return True
    if op == "del":
        for n in st["names"]:
            env.pop(n, None)
        return True
    if op == "gc":
        for _ in range(st.get("n", 2)):
            gc.collect()
        return True
    if op == "mass":  # many differently sized temporary objects, to reuse freed memory
        for i in range(st["n"]):
            d = DataStructure([float(j) for j in range(2 + i % 7)], [float(j * i) for j in range(2 + i % 7)])
            c = Correlator(d)
            c.calculateStandardCorrelation()
        return True
    if op == "write":
        with open(st["path"], "wb") as f:
            f.write(bytes.fromhex(st["hex"]))
        return True
    if op == "cost":
        return cost(st, env)
    if op == "interrupted":
        return interrupted(st, env)
    if op == "faults":   # the step `act`, with one of its large allocations or reads of a file failing, at each of several points
        return faults(st, env)
    if op == "threads":  # sub-programs at the same time, switching as often as possible
        return threads(st["progs"], env, st.get("timeout", 120))
    if op == "repeat":  # a sub-program again and again, its own objects dropped each time; what is held after each round
        held()
        global repetitions
        res = [0] * (5 * len(st["rounds"]))     # no objects of its own
        for r, size in enumerate(st["rounds"]):
            for _ in range(size):
                repetitions += 1
                repeat(st["prog"], dict(env, **{" n": repetitions}))
            held(res, 5 * r)
        return res
    if op == "weights":  # direct evaluation of a weight function
        c = env[st["on"]]
        return [getattr(c, st["meth"])(x) for x in st["v"]]
    if op == "guard":  # a computation, unless its grid would be long
        c = env[st["on"]]
        if not feasible(c.min_lag, c.max_lag, c.lag_resolution, st.get("limit", 400)):
            return "skipped"
        if st["how"] == "cpp":
            c.calculateStandardCorrelation()
        else:
            SACF.find_correlation(c, *st["how"])
        return "computed"
    if op == "gacf":
        d = env[st["on"]].data
        k = {n: dec(x, env) for n, x in st["kw"].items()}
        nt = d.normalised_timeseries()
        lo, hi, res = k.get("min_lag"), k.get("max_lag"), k.get("lag_resolution")
        lo = -nt[-1] if lo is None else lo
        hi = nt[-1] if hi is None else hi
        res = min([b - a for a, b in zip(nt, nt[1:])] or [1e308]) if res is None else res
        if not feasible(float(lo), float(hi), float(res), st.get("limit", 400)):
            return "skipped"
        r = env[st["on"]].autocorrelation(**k)
        if "as" in st:
            env[st["as"]] = r
        return [len(r), len(r[0])]
    if op == "within":      # the steps of a sub-program, made from somewhere else than the main program
        return within(st["how"], st["prog"], env)
    if op == "state":
        return process_state(st.get("dirs", []))
    raise ValueError("bad op %r" % op)


def within(how, prog, env):
    got = []

    def work(*_):
        got.append(outcomes(prog, env))
    if how == "thread" or how == "small thread":
        import threading
        old = threading.stack_size(256 << 10 if how == "small thread" else 0)
        try:
            t = threading.Thread(target=work, daemon=True)
            t.start()
        finally:
            threading.stack_size(old)
        t.join(120)
    elif how == "fork":
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                work()
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(got))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        status = os.waitpid(pid, 0)[1]
        if status:
            return {"child ended with": status}
        got = json.loads(text)
    elif how == "signal":
        import signal
        old = signal.signal(signal.SIGUSR1, work)
        os.kill(os.getpid(), signal.SIGUSR1)
        for _ in range(1000):
            if got:
                break
        signal.signal(signal.SIGUSR1, old)
    elif how == "del":
        class Dying:
            __del__ = work
        d = Dying()
        del d
        for _ in range(5):
            if not got:
                gc.collect()
    elif how == "except":
        try:
            raise RuntimeError("on its way")
        except RuntimeError:
            work()
    elif how == "deep":
        def down(n):
            if n:
                down(n - 1)
            else:
                work()
        down(300)
    elif how == "generator":
        def gen():
            yield 1
            try:
                yield 2
            finally:
                work()
        g = gen()
        next(g), next(g), g.close()
    elif how == "nogc":
        gc.disable()
        work()
        gc.enable()
    elif how == "traced":
        def trace(frame, event, arg):
            return trace
        sys.settrace(trace)
        sys.setprofile(lambda *a: None)
        try:
            work()
        finally:
            sys.setprofile(None)
            sys.settrace(None)
    elif how == "ticking":      # signals arrive all the time
        import signal
        old = signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, 0.0005, 0.0005)
        try:
            work()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    elif how == "executed":
        exec(compile("work()", "<string>", "exec"), {"work": work, "__name__": "other"})
    elif how == "callback":
        sorted([0], key=work)
    else:
        raise ValueError("bad way %r" % how)
    return got


def process_state(dirs):
    """Everything process-wide that a call could change for others."""
    import ctypes
    import hashlib
    import locale
    import random
    import resource
    import signal
    import threading
    import warnings
    c = ctypes.CDLL(None)
    c.setlocale.restype = ctypes.c_char_p
    tiny = float.fromhex("0x1p-1040")
    try:
        children = os.waitpid(-1, os.WNOHANG)[0] == 0
    except ChildProcessError:
        children = False
    import faulthandler
    import logging
    mask = os.umask(0)
    os.umask(mask)
    try:
        here = os.getcwd()
    except OSError:
        here = None
    hashed = lambda v: hashlib.sha1(repr(v).encode()).hexdigest()[:12]
    r = {"locale": [c.setlocale(i, None).decode() for i in range(7)], "decimal point": locale.localeconv()["decimal_point"], "rounding": c.fegetround(), "traps": c.fegetexcept(),
         "children": children, "faulthandler": faulthandler.is_enabled(),
         "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions],
         "scheduling": [os.nice(0), os.getpgrp(), os.getsid(0)],
         "rounded": [float("1e16") + float("0.7"), float("-1e16") - float("0.7"), sys.float_info.epsilon / 3 + 1.0], "denormals": [tiny / float("2")],
         "cwd": here, "environment": hashed(sorted(os.environ.items())), "umask": mask,
         "signals": hashed([(s, signal.getsignal(s)) for s in sorted(signal.valid_signals()) if s not in (9, 19)]),
         "blocked": hashed(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))), "timers": [signal.getitimer(i) for i in range(3)],
         "random": hashed(random.getstate()), "path": list(sys.path), "argv": list(sys.argv), "recursion": sys.getrecursionlimit(), "gc": gc.isenabled(),
         "trace": sys.gettrace() is None and sys.getprofile() is None, "threads": threading.active_count(), "switch": sys.getswitchinterval(),
         "streams": [sys.stdin is None, sys.stdout is None, sys.stderr is None], "hooks": [sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__],
         "limits": [resource.getrlimit(i) for i in range(16)], "files": sorted(os.listdir("/proc/self/fd"), key=int), "listed": [sorted(os.listdir(d)) for d in dirs]}
    if "numpy" in sys.modules:
        r["numpy"] = [hashed(numpy().random.get_state()), sorted(np.geterr().items())]
        np_loaded = True
    else:
        np_loaded = False
        r["warnings"] = hashed([str(f) for f in warnings.filters])
    r["numpy loaded"] = np_loaded
    return r


def outcomes(prog, env):
    out = []
    for s in prog:
        try:
            out.append({"ok": step(s, env)})
        except Exception as e:
            out.append({"exc": type(e).__name__, "msg": str(e)[:300]})
    return out


def preload():
    """Functions of lib/newcount.cpp."""
    import ctypes
    global counters
    if counters is None:
        c = ctypes.CDLL(None)
        for f in (c.sacfv_blocks, c.sacfv_bytes, c.sacfv_left, c.sacfv_peak, c.sacfv_total):
            f.restype = ctypes.c_long
        c.sacfv_fail.argtypes = [ctypes.c_int] + [ctypes.c_long] * 2
        counters = c
    return counters


def faults(st, env):
    """[number of fault points, outcomes without a fault, [[points, outcomes], ..] with one, equal ones together]"""
    c = preload()
    what = {"memory": 0, "read": 1, "short": 2}[st["what"]]

    def once(n):
        own = dict(env)
        outcomes(st["make"], own)
        c.sacfv_fail(what, n, st.get("arg", 0))
        try:
            try:
                r = {"ok": step(st["act"], own)}
            except Exception as e:
                r = {"exc": type(e).__name__, "msg": str(e)[:300]}
        finally:
            left = c.sacfv_left()
            c.sacfv_fail(what, -1, 0)
        return left, [r] + outcomes(st["check"], own)
    total = 1 << 40
    left, plain = once(total)
    total -= left
    seen = {}
    for p in st["at"]:
        n = min(int(p * total), total - 1)
        if n >= 0:
            seen.setdefault(json.dumps(once(n)[1]), []).append(n)
    return [total, plain, [[v, json.loads(k)] for k, v in seen.items()]]


def threads(progs, env, timeout):
    import threading
    res = [None] * len(progs)
    gate = threading.Barrier(len(progs))

    def work(i):
        own = dict(env)
        gate.wait()
        res[i] = outcomes(progs[i], own)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise TimeoutError("threads did not end")
    return res


def cost(st, env):
    """CPU seconds (least of several runs), bytes asked for in total and most bytes held at a time by one call, for generated data."""
    import random
    import resource
    counters = preload()
    kind, n, rows, lags, uses = st["kind"], st["n"], st["rows"], st["lags"], st["uses"]
    rng = random.Random(st["seed"])
    gap = {"even": lambda i: 1.0, "jitter": lambda i: 0.5 + rng.random(), "gaps": lambda i: 40.0 if i % 97 == 96 else 0.25,
           "front": lambda i: 0.001 if i < n * 0.9 else 100.0}[st["pattern"]]
    t, now = [], st["start"]
    for i in range(n):
        t.append(now)
        now += gap(i)
    x = [[rng.choice((0.0, 1.0)) if st["values"] == "bits" else rng.gauss(5, 2) for _ in range(n)] for _ in range(rows)]
    span = t[-1] - t[0]
    lo = {"zero": 0.0, "neg": -span / 2, "late": span / 4, "before": -span}[st["from"]]
    res = span / 2 / lags
    kw = {"min_lag": lo, "max_lag": lo + (lags - 1) * res, "lag_resolution": res}
    if kind == "file":
        with open("cost-in", "w") as f:
            f.writelines("%r %r 0.5\n" % p for p in zip(t, x[0]))
        act = lambda: DataStructure("cost-in")
    elif kind == "build":
        act = lambda: DataStructure(t, x, x)
    else:
        s = SACF(t, x)
        c = Correlator(s.data)
        SACF.set_up_correlation(c, **kw)
        if kind == "acf":
            act = lambda: s.autocorrelation(**kw)
        elif kind == "steps":
            act = lambda: s.autocorrelation(selection_function=st["sel"], weight_function=st["w"], **kw)
        elif kind == "again":
            act = c.calculateStandardCorrelation
        elif kind == "read":
            c.calculateStandardCorrelation()
            act = lambda: (c.lag_timeseries(), c.correlations(), c.values(), s.data.data(), s.data.normalised_data(), s.data.errors())
        elif kind == "new":
            act = lambda: Correlator(s.data)
        elif kind == "store":
            it = CorrelationIterator(1.0, rows)

            def act():
                k = Correlator(s.data)
                for i in range(lags):
                    k.addCorrelationData(it, i)
        else:
            raise ValueError(kind)
    gc.collect()
    before = counters.sacfv_bytes()
    for _ in range(uses):
        act()
    best = None
    for _ in range(st["reps"]):
        gc.collect()
        gc.collect()
        counters.sacfv_mark()
        a = resource.getrusage(resource.RUSAGE_SELF)
        r = act()
        b = resource.getrusage(resource.RUSAGE_SELF)
        cpu = b.ru_utime - a.ru_utime + b.ru_stime - a.ru_stime
        m = [cpu, counters.sacfv_total(), counters.sacfv_peak() - before]
        best = m if best is None else [min(p) for p in zip(best, m)]
        del r
    return best


def interrupted(st, env):
    """The step `act`, ended by KeyboardInterrupt at its n-th line of package code, for each n, with the steps `then` after each."""
    here = os.path.dirname(os.path.abspath(sacf.__file__))
    left = [0]

    def line(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                left[0] = 1 << 60
                raise KeyboardInterrupt
        return line

    def call(frame, event, arg):
        return line if os.path.abspath(frame.f_code.co_filename).startswith(here) else None
    res = []
    for n in st["at"]:
        left[0] = n
        try:
            sys.settrace(call)
            try:
                out = {"ok": step(st["act"], env)}
            finally:
                sys.settrace(None)
        except KeyboardInterrupt:
            out = {"exc": "KeyboardInterrupt", "msg": ""}
        except Exception as e:
            out = {"exc": type(e).__name__, "msg": str(e)[:300]}
        res.append([out, left[0], outcomes(st["then"], env)])
    return res


def repeat(prog, env):
    for s in prog:
        try:
            step(s, env)
        except Exception:
            pass


def held(res=None, at=0):
    """Live C++ allocations (blocks, bytes; needs lib/newcount.cpp), Python objects and open files, after collecting."""
    counters = preload()
    for _ in range(3):
        gc.collect()
    if res is not None:
        res[at] = counters.sacfv_blocks()
        res[at + 1] = counters.sacfv_bytes()
        objects = gc.get_objects()
        res[at + 2] = len(objects)
        res[at + 3] = len(os.listdir("/proc/self/fd"))
        res[at + 4] = items(objects)


SIZED = {tuple, list, dict, set, str, bytes, bytearray}


def items(objects):
    """What all plain Python containers and strings hold together."""
    n = 0
    for o in objects:
        if type(o) in SIZED:
            n += len(o)
    return n - len(objects)


counters = None
repetitions = 0     # never the same varied number twice in a process


def feasible(lo, hi, res, limit):
    """False for grids that are valid but too long to compute here; rejected ones are fine."""
    if lo > hi or res != res or lo != lo or hi != hi or res <= 0:
        return True
    n = (hi - lo) / res
    return n < limit or n > 2.0 ** 32 or n != n


def resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


collect_above = 500 << 20
written = 0


def tidy(size):
    """PyPy does not see how much memory the objects made by the extension modules hold: collect before the limit is reached."""
    global collect_above, written
    written += size
    big = resident() > collect_above
    if written > 1 << 20 or big:
        for _ in range(4 if big else 1):
            gc.collect()
        written = 0
        if big:
            collect_above = resident() + (300 << 20)


def run(line):
    prog = json.loads(line)
    env, out = {}, []
    for st in prog:
        try:
            out.append({"ok": step(st, env)})
        except MemoryError as e:
            out.append({"exc": "MemoryError", "msg": str(e)[:200]})
        except Exception as e:
            if isinstance(e, (KeyError, ValueError)) and st.get("op") == "bad":
                raise
            out.append({"exc": type(e).__name__, "msg": str(e)[:300], "mro": [c.__name__ for c in type(e).__mro__]})
            e = None
    env.clear()
    text = json.dumps(out)
    OUT.write(text + "\n")
    OUT.flush()
    return len(text)


def main():
    OUT.write(json.dumps({"ready": sacf.__file__}) + "\n")
    OUT.flush()
    for line in IN:
        tidy(run(line))


main()
