"""Client of worker.py: starts the project's interpreter and sends it calls."""
import os
import select
import shutil
import subprocess
import tempfile
import zlib

import numpy as np

import codec
from codec import Arr, Enum_, Ref, RemoteError

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TIMEOUT = 200

MONTHLY = Enum_("compute.Periodicity.monthly")
DAILY = Enum_("compute.Periodicity.daily")
GAMMA = Enum_("indices.Distribution.gamma")
PEARSON = Enum_("indices.Distribution.pearson")


class HarnessError(Exception):
    """Something other than the code under test went wrong."""


class WorkerDied(Exception):
    """The interpreter running the code under test ended without an answer."""


def vary_layout(a):
    """The same array in a memory layout chosen from its content (most often the plain one)."""
    if type(a) is not np.ndarray or a.dtype != np.float64 or a.size < 2 or a.ndim > 2:
        return a
    k = zlib.crc32(np.ascontiguousarray(a).tobytes()[:2048], a.ndim) % 100
    if k < 60:
        return a
    if k < 70:
        return Arr(a, "C", True)
    if k < 80:
        return Arr(a, "strided")
    if k < 85 or a.ndim == 1:
        return Arr(a, "reversed")
    return Arr(a, "F")


class Worker:
    def __init__(self, cli=False):
        self.cli_mode = cli
        self.proc = None
        self.calls = 0

    def start(self):
        self.base = tempfile.mkdtemp(prefix="climverif.")
        env = dict(os.environ)
        env.update(
            HOME="/root",
            LC_ALL="C.UTF-8",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            OPENBLAS_NUM_THREADS="1",
            VERIF_SCRATCH=self.base,
        )
        env.pop("PYTHONPATH", None)
        if self.cli_mode:
            env["VERIF_CLI"] = "1"
        self.proc = subprocess.Popen(
            [PYTHON, os.path.join(HERE, "worker.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL,
            env=env,
            cwd=self.base,
        )
        try:
            ready = self._recv(120)
        except WorkerDied:
            raise HarnessError("the code under test cannot be imported")
        if ready != "ready":
            raise HarnessError("unexpected greeting %r" % (ready,))

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc.stdout.close()
            self.proc = None
            shutil.rmtree(self.base, ignore_errors=True)

    def _recv(self, timeout):
        r, _, _ = select.select([self.proc.stdout], [], [], timeout)
        if not r:
            self.proc.kill()
            raise WorkerDied("no answer from the code under test within %d s" % timeout)
        try:
            return codec.recv(self.proc.stdout)
        except EOFError:
            raise WorkerDied("interpreter of the code under test ended")

    def request(self, kind, payload):
        if self.proc is None:
            self.start()
        self.calls += 1
        try:
            codec.send(self.proc.stdin, (kind, payload))
            answer = self._recv(TIMEOUT)
        except (WorkerDied, BrokenPipeError) as e:
            self.stop()
            raise WorkerDied("interpreter of the code under test ended during a call (%s)" % e)
        if isinstance(answer, dict) and "harness_error" in answer:
            raise HarnessError(answer["harness_error"])
        return answer

    # -------------------------------------------------------------- conveniences
    def batch(self, ops):
        out = self.request("batch", ops)
        for r in out:
            if "missing" in r:
                raise HarnessError("not in the public API: " + r["missing"])
        return out

    def isolated(self, batches):
        out = self.request("isolated", batches)
        for b in out:
            if isinstance(b, dict) and "died" in b:
                raise WorkerDied("a process running library calls ended (status %s)" % b["died"])
            if isinstance(b, dict) and "harness_error" in b:
                raise HarnessError(b["harness_error"])
            for r in b:
                if "missing" in r:
                    raise HarnessError("not in the public API: " + r["missing"])
        return out

    def call(self, fn, *args, **kwargs):
        """Value of the call, or the RemoteError it raised. Array arguments come in any memory layout."""
        r = self.batch([{"fn": fn, "args": [vary_layout(a) for a in args], "kwargs": kwargs}])[0]
        return r["error"] if "error" in r else r["value"]

    def cli(self, steps):
        out = self.request("cli", {"steps": steps})
        if isinstance(out, dict) and "died" in out:
            raise WorkerDied("a process running the command ended (status %s)" % out["died"])
        if isinstance(out, dict) and "harness_error" in out:
            raise HarnessError(out["harness_error"])
        return out
