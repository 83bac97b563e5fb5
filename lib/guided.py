"""Coverage-guided cases: libFuzzer drives the compiled engine over structured inputs (lib/guided.cpp); the inputs that reached new code or looked
wrong there become cases of the property's own judge, which alone decides. If the engine cannot be built this way, the check goes on without."""
import json
import os
import subprocess
import time

from . import build as B
from . import ref

HERE = os.path.dirname(os.path.abspath(__file__))
JOBS = 8
DICT = ['"#"', '","', '"\\x0a"', '"\\x0d\\x0a"', '" "', '"\\x09"', '"1"', '"-2.5"', '"1e5"', '"nan"', '"inf"', '"1e400"', '"0x1p3"', '"1,2,3\\x0a"', '"4 5 6\\x0a"', '"# c\\x0a"']


def _sources():
    inc, src = set(), []
    for base, dirs, files in os.walk(os.path.join(B.REPO, "sacf")):
        dirs[:] = sorted(d for d in dirs if d not in ("pybind11", "tests", "docs", "build", "__pycache__"))
        for f in sorted(files):
            if f.endswith((".h", ".hpp")):
                inc.add(base)
            elif f.endswith(".cpp") and "pybind11" not in open(os.path.join(base, f), errors="replace").read():
                src.append(os.path.join(base, f))
    return sorted(inc), src


def _build(d, san):
    inc, src = _sources()
    flags = ["-w", "-std=c++14", "-g0", "-O1" if san else "-O2"] + ["-I" + i for i in inc] + (["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"] if san else [])
    ps = []
    for i, s in enumerate(src + [os.path.join(HERE, "guided.cpp")]):
        own = s.endswith("guided.cpp")
        ps.append(subprocess.Popen(["clang++"] + flags + ([] if own else ["-fsanitize=fuzzer-no-link"]) + ["-c", s, "-o", os.path.join(d, "o%d.o" % i)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in ps:
        err = p.communicate(timeout=240)[1]
        if p.returncode:
            raise OSError("does not compile: " + err.decode(errors="replace")[:300])
    exe = os.path.join(d, "guided")
    r = subprocess.run(["clang++", "-fsanitize=fuzzer" + (",address,undefined" if san else "")] + [os.path.join(d, "o%d.o" % i) for i in range(len(src) + 1)] + ["-o", exe],
                       capture_output=True, timeout=240)
    if r.returncode:
        raise OSError("does not link: " + r.stderr.decode(errors="replace")[:300])
    return exe


def collect(kind, seed, seconds, limit):
    """kind: series or file. Returns (list of decoded cases, information for the evidence)."""
    d = os.path.join(B.scratch_root(), "guided")
    os.makedirs(d)
    t0 = time.time()
    try:
        exe = _build(d, kind == "file")
    except (OSError, subprocess.SubprocessError) as e:
        return [], {"skipped": str(e)[:400]}
    dic = os.path.join(d, "dict")
    with open(dic, "w") as f:
        f.write("\n".join(DICT) + "\n")
    built = time.time() - t0
    ps = []
    for i in range(JOBS):
        w = os.path.join(d, "w%d" % i)
        for s in ("corpus", "cand", "art"):
            os.makedirs(os.path.join(w, s))
        env = dict(os.environ, GUIDED_CAND=os.path.join(w, "cand"), ASAN_OPTIONS="abort_on_error=1:detect_leaks=0")
        env.pop("LD_PRELOAD", None)
        args = [exe, os.path.join(w, "corpus"), "-seed=%d" % (seed * 97 + i + 1), "-max_total_time=%d" % seconds, "-artifact_prefix=" + os.path.join(w, "art") + "/", "-timeout=20",
                "-rss_limit_mb=2048", "-max_len=%d" % ((160, 160, 400, 60) if kind == "series" else (200, 60, 2000, 8000))[i % 4]]
        if i % 2 and kind == "series":
            args.append("-use_value_profile=1")
        if kind == "file":
            env["GUIDED_FILE"] = os.path.join(w, "input.dat")
            args.append("-dict=" + dic)
        ps.append(subprocess.Popen(args, env=env, cwd=w, stdout=subprocess.DEVNULL, stderr=open(os.path.join(w, "log"), "w")))
    end = time.time() + seconds + 40
    for p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    runs, pick = 0, [[], [], []]
    for i in range(JOBS):
        w = os.path.join(d, "w%d" % i)
        last = 0
        for l in open(os.path.join(w, "log"), errors="replace"):
            if l.startswith("#"):
                try:
                    last = int(l[1:].split()[0])
                except ValueError:
                    continue
        runs += last
        for q, s in enumerate(("art", "cand", "corpus")):
            fs = [os.path.join(w, s, f) for f in os.listdir(os.path.join(w, s))]
            pick[q] += sorted(fs, key=os.path.getsize) if q < 2 else sorted(fs, key=os.path.getmtime, reverse=True)[: 2 * limit // JOBS]
    pick[1].sort(key=os.path.getsize)
    cands = len(pick[1])
    pick[2].sort(key=os.path.getmtime, reverse=True)
    files = (pick[0] + pick[1][:96] + pick[2])[:limit]
    info = {"engine_runs": runs, "candidates": cands, "crashes": len(pick[0]), "corpus": len(pick[2]), "judged_at_most": len(files), "build_s": round(built, 1), "fuzz_s": seconds}
    if kind == "file":
        return [{"hex": open(f, "rb").read().hex()} for f in files], info
    lst = os.path.join(d, "list")
    with open(lst, "w") as f:
        f.write("\n".join(files) + "\n")
    r = subprocess.run([exe], env=dict(os.environ, GUIDED_DECODE=lst), capture_output=True, timeout=300)
    seen, out = set(), []
    for l in r.stdout.decode().splitlines():
        if l not in seen:
            seen.add(l)
            out.append(json.loads(l))
    return out, info


def smaller(g):
    """Simpler versions of a decoded series case, big steps first."""
    if len(g["uses"]) > 1:
        for i in range(len(g["uses"])):
            yield dict(g, uses=g["uses"][:i] + g["uses"][i + 1:])
    for j in range(len(g["x"])) if len(g["x"]) > 1 else ():
        yield dict(g, x=g["x"][:j] + g["x"][j + 1:], e=g["e"][:j] + g["e"][j + 1:])
    n = len(g["t"])
    size = n // 2
    while size:
        for a in range(0, n, size):
            if n - min(size, n - a) >= 2:
                cut = lambda r: r[:a] + r[a + size:]
                yield dict(g, t=cut(g["t"]), x=[cut(r) for r in g["x"]], e=[cut(r) for r in g["e"]])
        size //= 2
    if g["e"]:
        yield dict(g, e=[])
    for k in list(g["uses"][-1]["opts"]):
        u = dict(g["uses"][-1])
        u["opts"] = {a: v for a, v in u["opts"].items() if a != k}
        ef = ref.effective(g["t"], u["opts"])
        if (ef["max_lag"] - ef["min_lag"]) / ef["lag_resolution"] < 300:
            yield dict(g, uses=g["uses"][:-1] + [u])
