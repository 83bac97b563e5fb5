"""Runs one property check: build, replay regressions, sharded Hypothesis search, evidence, verdict."""
import ctypes
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import queue
import random
import signal
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from . import guided as G
from .client import Client, HarnessError, WorkerGone

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


_libc = ctypes.CDLL(None)


class Violation(Exception):
    pass


class Info:
    """What judge() reports about a case that held."""
    __slots__ = ("nontrivial", "labels", "n")

    def __init__(self, nontrivial, labels=(), n=1):
        self.nontrivial, self.labels, self.n = nontrivial, labels, n


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def dumps(case):
    return json.dumps(case, sort_keys=True)


def case_key(case):
    return hashlib.sha1(dumps(case).encode()).hexdigest()


class Ctx:
    """Access to workers for judge()."""

    def __init__(self, builds, tmp):
        self.builds, self.tmp, self.clients = builds, tmp, {}

    def client(self, kind=None):
        kind = kind or next(iter(self.builds))
        if kind not in self.clients:
            self.clients[kind] = Client(self.builds[kind], "san" if kind == "san" else kind, self.tmp)
        return self.clients[kind]

    def run(self, prog, kind=None):
        try:
            return self.client(kind).run(prog)
        except WorkerGone as e:
            raise Violation("the interpreter running the calls was lost: %s" % e)

    def fresh(self, prog, kind=None):
        """Run in a newly started worker process."""
        c = Client(self.builds[kind or next(iter(self.builds))], "release", self.tmp)
        try:
            return c.run(prog)
        except WorkerGone as e:
            raise Violation("the interpreter running the calls was lost: %s" % e)
        finally:
            c.close()

    def close(self):
        for c in self.clients.values():
            c.close()


def ok(step, what="call"):
    if "exc" in step:
        raise Violation("%s raised %s: %s" % (what, step["exc"], step["msg"]))
    return step["ok"]


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def shard_main(pid, shard, seed, tier, builds, tmp, q, regress, guided):
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, signal.SIG_DFL)
    _libc.prctl(1, signal.SIGKILL)   # do not outlive the check
    try:
        _shard(pid, shard, seed, tier, builds, tmp, q, regress, guided)
    except BaseException as e:
        q.put(("error", shard, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])))


def _shard(pid, shard, seed, tier, builds, tmp, q, regress, guided):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    mod = load(pid)
    tmp = os.path.join(tmp, "s%d" % shard)
    os.makedirs(tmp)
    ctx = Ctx(builds, tmp)
    ctx.tier = tier
    t0 = time.time()
    stats = {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "programs": 0, "inner": 0}
    fails = {}       # key -> (size, case, message)
    state = {"first_fail": None}
    budget = dict(mod.BUDGET[tier])
    if guided and tier == "thorough":
        budget["seconds"] = max(300, budget["seconds"] - 270)   # what the coverage-guided stage takes
    batch = getattr(mod, "BATCH", 300)
    shrink_s = 45 if tier == "quick" else 180

    def one(case):
        key = case_key(case)
        if key in fails:
            raise Violation(fails[key][2])
        if state["first_fail"] and time.time() - state["first_fail"] > shrink_s:
            return
        if time.time() - t0 > budget["seconds"] and not state["first_fail"]:
            return
        stats["evaluations"] += 1
        try:
            info = mod.judge(case, ctx)
        except Violation as e:
            size = len(dumps(case))
            fails[key] = (size, case, str(e))
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
                q.put(("fail", shard, None, fails[key]))   # known even if shrinking it takes too long
                for c in ctx.clients.values():
                    c.cpu_limit = min(c.cpu_limit, 10.0)
            raise
        stats["inner"] += info.n
        for l in info.labels:
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if info.nontrivial:
            h = int(key[:15], 16)
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                if len(stats["samples"]) < 2 and len(dumps(case)) < 1500:
                    stats["samples"].append(case)

    def simplify(g):
        again = "t" in g
        while again and time.time() - state["first_fail"] < shrink_s:
            again = False
            for h in G.smaller(g):
                if time.time() - state["first_fail"] > shrink_s:
                    break
                try:
                    for case in mod.adapt(h):
                        one(case)
                except Violation:
                    g, again = h, True
                    break

    try:
        for name, case in regress:
            try:
                one(case)
            except Violation:
                break
        limit = time.time() + (12 if tier == "quick" else 150)
        for g in guided:
            if fails or time.time() > limit:
                break
            try:
                for case in mod.adapt(g):
                    one(case)
                    stats["labels"]["coverage-guided"] = stats["labels"].get("coverage-guided", 0) + 1
            except Violation:
                simplify(g)
        t0 = time.time()
        done = 0
        b = 0
        while not fails and done < budget["cases"] and time.time() - t0 < budget["seconds"]:
            n = min(batch, budget["cases"] - done)
            strat = mod.cases(tier)

            @hypothesis.seed((seed * 1000003 + shard * 1009 + b) & 0x7FFFFFFF)
            @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
            @hypothesis.given(strat)
            def test(case):
                one(case)
            try:
                test()
            except (HarnessError, B.BuildError):
                raise
            except Exception:
                if not fails:
                    raise
            done += n
            b += 1
    finally:
        stats["programs"] = sum(c.programs for c in ctx.clients.values())
        ctx.close()
    best = min(fails.values(), key=lambda f: f[0]) if fails else None
    stats["nontrivial"] = list(stats["nontrivial"])
    q.put(("done", shard, stats, best))


def regressions(pid):
    d = os.path.join(VERIF, "regress", pid)
    if not os.path.isdir(d):
        return []
    return [(f, json.load(open(os.path.join(d, f)))["case"]) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def jsonable(o):
    if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):
        return repr(o)
    if isinstance(o, dict):
        return {k: jsonable(v) for k, v in o.items()}
    if isinstance(o, list):
        return [jsonable(v) for v in o]
    return o


def run_check(pid, tier, seed, replay=None):
    t0 = time.time()
    mod = load(pid)
    builds = {}
    try:
        B.scratch_root()
        with ThreadPoolExecutor(4) as ex:
            builds = dict(zip(mod.BUILDS, ex.map(B.build, mod.BUILDS)))
    except B.BuildError as e:
        print("ERROR: build of the working tree failed: %s" % e)
        return 2
    tmp = os.path.join(B.scratch_root(), "work")
    os.makedirs(tmp)
    if replay:
        case = json.load(open(replay))["case"]
        ctx = Ctx(builds, tmp)
        ctx.tier = tier
        try:
            info = mod.judge(case, ctx)
            print("case holds (labels: %s)" % ", ".join(info.labels))
            return 0
        except Violation as e:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            print("  " + str(e))
            return 1
        finally:
            ctx.close()
    reg = regressions(pid)
    found, ginfo = [], None
    if hasattr(mod, "GUIDED"):
        found, ginfo = G.collect(mod.GUIDED, seed, 10 if tier == "quick" else 120, 480 if tier == "quick" else 3000)
    q = mp.get_context("fork").Queue()
    shards = min(SHARDS, mod.BUDGET[tier].get("shards", SHARDS))
    procs = [mp.get_context("fork").Process(target=shard_main, args=(pid, i, seed, tier, builds, tmp, q, reg if i == 0 else [], found[i::shards]))
             for i in range(shards)]
    for p in procs:
        p.start()
    waiting = set(range(shards))
    stats, best, errors = [], None, []
    grace = None
    b = mod.BUDGET[tier]
    stuck = time.time() + b["seconds"] + 240 + (200 if found else 0)
    while waiting:
        if time.time() > stuck:
            if not best:
                errors.append("no answer from shards %s" % sorted(waiting))
            break
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            for i in list(waiting):
                if not procs[i].is_alive() and procs[i].exitcode is not None:
                    try:
                        m = q.get(timeout=2)
                        break
                    except queue.Empty:
                        waiting.discard(i)
                        if grace is None:
                            errors.append("shard %d ended with status %s without a report" % (i, procs[i].exitcode))
            else:
                if grace and time.time() > grace:
                    break
                continue
        if m[0] == "fail":
            if best is None or m[3][0] < best[0]:
                best = m[3]
            grace = grace or time.time() + (70 if tier == "quick" else 240)
            continue
        waiting.discard(m[1])
        if m[0] == "error":
            errors.append("shard %d: %s" % (m[1], m[2]))
        else:
            stats.append(m[2])
            if m[3]:
                if best is None or m[3][0] < best[0]:
                    best = m[3]
                grace = min(grace or math.inf, time.time() + 20)  # let other shards finish a shrink, briefly
        if grace and time.time() > grace:
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join(5)
    nontrivial = set()
    labels = {}
    for s in stats:
        nontrivial.update(s["nontrivial"])
        for l, c in s["labels"].items():
            labels[l] = labels.get(l, 0) + c
    evals = sum(s["evaluations"] for s in stats)
    samples = [c for s in stats for c in s["samples"]][:6]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
                       "samples": jsonable(samples), "comparisons": sum(s["inner"] for s in stats),
                       "programs_run_in_worker": sum(s["programs"] for s in stats),
                       "class_counts": dict(sorted(labels.items())), "shards": len(stats), "regressions_replayed": len(reg), **({"coverage_guided": ginfo} if ginfo else {}),
                       "source_hash": B.tree_hash()},
          "assumptions": list(getattr(mod, "ASSUMES", [])), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if best else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if best:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (pid, case_key(best[1])[:12]))
        with open(path, "w") as f:
            json.dump({"property": pid, "message": best[2], "case": best[1]}, f)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + best[2][:1500])
        print("  case: " + dumps(best[1])[:1500])
        return 1
    if errors:
        print("ERROR in the harness:\n" + "\n".join(errors)[:6000])
        return 2
    if evals and len(nontrivial) * 50 < evals and not getattr(mod, "LOW_NONTRIVIAL_OK", False):
        print("ERROR: only %d of %d cases were non-trivial" % (len(nontrivial), evals))
        return 2
    print("OK property=%s tier=%s seed=%d: %d cases (%d distinct non-trivial) held, %.1f s" %
          (pid, tier, seed, evals, len(nontrivial), time.time() - t0))
    return 0
