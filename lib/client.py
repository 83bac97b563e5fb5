"""Client side of lib/worker.py: run programs, turn worker deaths into outcomes."""
import ctypes
import json
import os
import resource
import select
import signal
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = "/opt/venv-pypy/bin/python"
_libc = ctypes.CDLL(None)
_TICK = os.sysconf("SC_CLK_TCK")


class WorkerGone(Exception):
    """The worker died or used up its CPU budget while running a program."""

    def __init__(self, kind, detail):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    pass


def _lib(cc, name):
    return subprocess.run([cc, "-print-file-name=" + name], capture_output=True, text=True).stdout.strip()


class Client:
    def __init__(self, srcdir, kind="release", scratch=None, cpu_limit=40.0, mem_gb=4, around=None):
        """around: settings of the process the calls are made in (checks/c32.py)"""
        self.around = around or {}
        self.src, self.kind, self.scratch = srcdir, kind, scratch or "/tmp"
        self.cpu_limit, self.mem_gb = cpu_limit, mem_gb
        self.p = None
        self.programs = self.steps = self.restarts = 0
        self.errfile = None

    def start(self):
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": self.scratch, "LANG": "C.UTF-8", "PYTHONPATH": self.src,
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
        if self.kind not in ("san", "release", "count"):
            env["MALLOC_PERTURB_"] = "165"   # fresh memory is not zero
        if self.kind == "count":
            env["LD_PRELOAD"] = os.path.join(self.src, "newcount.so")
        if self.kind == "san":
            env["LD_PRELOAD"] = " ".join(_lib("gcc", "lib%s.so" % n) for n in ("asan", "ubsan", "stdc++"))
            env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:"
                                   "max_allocation_size_mb=2000:detect_container_overflow=1")
            env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
        for k, v in self.around.get("env", {}).items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        limits = [(getattr(resource, "RLIMIT_" + k), v) for k, v in self.around.get("limits", {}).items()]
        cwd = self.around.get("cwd", self.scratch)
        mem = self.mem_gb << 30
        san = self.kind == "san"

        def pre():
            _libc.prctl(1, signal.SIGKILL)  # do not outlive the shard
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            for k, v in limits:
                resource.setrlimit(k, (v, v))
            if not san:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        self.errpath = os.path.join(self.scratch, "err-%d" % id(self))
        self.errfile = open(self.errpath, "wb")
        self.p = subprocess.Popen([PYPY] + self.around.get("flags", []) + [os.path.join(HERE, "worker.py")] + self.around.get("mods", []), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errfile, env=env, preexec_fn=pre, cwd=cwd)
        self.buf = b""
        try:
            hello = json.loads(self._readline(120))
        except WorkerGone as e:
            err = self.err_tail()
            self.close()
            raise HarnessError("worker did not start: %s\n%s" % (e, err))
        if not hello["ready"].startswith(self.src):
            raise HarnessError("worker imported %s" % hello["ready"])
        self.restarts += 1
        self.since = 0

    def err_tail(self):
        try:
            with open(self.errpath, errors="replace") as f:
                return f.read()[-4000:]
        except OSError:
            return ""

    def _cpu(self):
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / _TICK
        except (OSError, IndexError):
            return 0.0

    def _rss_gb(self):
        try:
            return int(open("/proc/%d/statm" % self.p.pid).read().split()[1]) * 4096 / 2**30
        except (OSError, IndexError):
            return 0.0

    def _readline(self, limit):
        fd = self.p.stdout.fileno()
        start = None
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], 0.5)
            if not r:
                cpu = self._cpu()
                if start is None:
                    start = cpu
                elif cpu - start > limit:
                    self.kill()
                    raise WorkerGone("hang", "more than %g s of CPU time in one program" % limit)
                if self._rss_gb() > max(6.0, self.mem_gb + 3):
                    self.kill()
                    raise WorkerGone("memory", "memory exhausted")
                continue
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                rc = self.p.wait()
                raise WorkerGone("crash", "worker ended with %s" % (("signal %s" % signal.Signals(-rc).name) if rc < 0 else "status %d" % rc))
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def run(self, prog):
        for left in (2, 1, 0):
            try:
                out = self._run(prog)
                break
            except WorkerGone as e:
                if not left or "signal SIGKILL" not in e.detail:
                    raise
                time.sleep(3)    # killed from outside, when the machine's memory is short; the code itself has no reason to
        if self.kind != "san" and self.since > 1 and any(r.get("exc") == "MemoryError" for r in out):
            self.close()     # perhaps only because of what earlier programs left uncollected
            out = self._run(prog)
        return out

    def _run(self, prog):
        if self.p is None or self.p.poll() is not None or (self.kind != "san" and self._rss_gb() > 1.5):   # short of memory for reasons of its own
            self.close()
            self.start()
        self.programs += 1
        self.since += 1
        self.steps += len(prog)
        try:
            self.p.stdin.write((json.dumps(prog) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        try:
            out = json.loads(self._readline(self.cpu_limit))
        except WorkerGone as e:
            e.err = self.err_tail()
            if self.kind == "san":
                for l in e.err.splitlines():
                    if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "Assertion" in l:
                        e.detail += " [" + l.strip()[:300] + "]"
                        break
            self.close()
            raise
        if len(out) != len(prog):
            raise HarnessError("worker answered %d steps of %d" % (len(out), len(prog)))
        return out

    def kill(self):
        if self.p and self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def close(self):
        self.kill()
        if self.p:
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
        if self.errfile:
            self.errfile.close()
        self.p = None
