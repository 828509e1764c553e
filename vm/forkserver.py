"""A process that forks one disposable child per request.

Trainer runs keep global state (accelerate singletons, RNG, dynamo) and some of
them are killed on purpose, so every run gets its own fork of a warm parent.
"""
import importlib
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import boot
from .core import Violation


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd, deadline=None):
    def exact(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(exact(struct.unpack("<Q", exact(8))[0]))


class Outcome:
    """status: ok | exc | died | timeout"""

    def __init__(self, status, **kw):
        self.status = status
        self.value = self.type = self.message = self.trace = self.site = None
        self.wait = None
        self.__dict__.update(kw)

    @property
    def ok(self):
        return self.status == "ok"

    def __repr__(self):
        return f"<{self.status} {self.type or ''} {str(self.message or '')[:300]} {self.wait if self.wait is not None else ''}>"


class Server:
    def __init__(self, ctx, preload=None, env=None, imports=("vm.train",)):
        self.ctx = ctx
        e = dict(os.environ, **(env or {}))
        if preload:
            e["LD_PRELOAD"] = str(preload)
        self.log = open(ctx.scratch / f"server-{id(self)}.log", "ab")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.p = subprocess.Popen([boot.PY, "-m", "vm.forkserver", str(r1), str(w2), ",".join(imports)],
                                  cwd=str(boot.VERIF), env=e, stdout=self.log, stderr=self.log, pass_fds=(r1, w2))
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def call(self, module, func, *args, timeout=120, kill=None):
        """Run module.func(*args) in a fork. kill=(signal, seconds) signals it from outside."""
        _send(self.w, (module, func, args, timeout, kill))
        out = _recv(self.r, time.monotonic() + timeout + 60)
        return Outcome(**out)

    def value(self, module, func, *args, what="run", **kw):
        o = self.call(module, func, *args, **kw)
        if o.ok:
            return o.value
        self.blame(o, what)

    @staticmethod
    def blame(o, what="run"):
        if o.status == "exc" and o.site:
            raise Violation(f"unexpected-exception:{o.type}@{o.site}", f"{what}: {o.type}: {o.message}", trace=o.trace)
        if o.status == "died":
            raise Violation(f"process-crash:{o.wait}", f"{what}: the process ended with status {o.wait}")
        if o.status == "timeout":
            raise Violation("no-progress", f"{what}: no result before the time limit")
        raise RuntimeError(f"{what}: {o!r}\n{o.trace}")

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
        self.log.close()


def describe(e):
    site = None
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        if fr.filename.startswith(str(boot.REPO) + os.sep):
            site = f"{os.path.relpath(fr.filename, boot.REPO)}:{fr.name}"
            break
        if fr.filename.startswith(str(boot.VERIF) + os.sep):
            break
    return dict(status="exc", type=type(e).__name__, message=str(e)[:4000], site=site,
                trace="".join(traceback.format_exception(e))[-5000:])


def _child(module, func, args, wfd):
    try:
        out = dict(status="ok", value=getattr(importlib.import_module(module), func)(*args))
    except BaseException as e:  # noqa: BLE001
        out = describe(e)
    try:
        try:
            _send(wfd, out)
        except Exception as e:  # unpicklable result
            _send(wfd, dict(status="exc", type="Harness", message=repr(e), site=None, trace=traceback.format_exc()))
        sys.stdout.flush()
    finally:
        os._exit(0)


def serve(rfd, wfd):
    while True:
        try:
            module, func, args, timeout, kill = _recv(rfd)
        except EOFError:
            return
        cr, cw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(cr)
            os.close(rfd)
            os.close(wfd)
            os.setpgid(0, 0)
            _child(module, func, args, cw)
        os.close(cw)
        t0 = time.monotonic()
        out, killed = None, False
        try:
            if kill is not None:
                sig, after = kill
                if not select.select([cr], [], [], after)[0]:
                    os.kill(pid, sig)
                    killed = True
            out = _recv(cr, t0 + timeout)
        except EOFError:
            pass
        except TimeoutError:
            out = dict(status="timeout")
            os.kill(pid, signal.SIGKILL)
        os.close(cr)
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if out is None:
            out = dict(status="died", wait=os.waitstatus_to_exitcode(st))
        out["killed"] = killed
        _send(wfd, out)


def _warm():
    """Names of every module a training run imports on the way."""
    import random
    import shutil
    import tempfile
    from pathlib import Path
    from . import train
    before = set(sys.modules)
    d = Path(tempfile.mkdtemp(dir=os.environ.get("VM_SCRATCH")))
    try:
        rng = random.Random(1)
        cfg, _ = train.config(rng, d, kind="raw", iterations=2, optim=("muon-adamw", {}))
        train.run(cfg, d / "run")
    except BaseException:  # noqa: BLE001  the real runs will report it
        pass
    shutil.rmtree(d, ignore_errors=True)
    return [m for m in sys.modules if m not in before and m not in ("__main__",)]


def preimport():
    """Learn lazy imports from a throw-away child, so that forks start warm."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child("vm.forkserver", "_warm", (), w)
    os.close(w)
    try:
        out = _recv(r, time.monotonic() + 120)
    except (EOFError, TimeoutError):
        out = {}
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    for m in out.get("value") or ():
        try:
            importlib.import_module(m)
        except BaseException:  # noqa: BLE001
            pass


if __name__ == "__main__":
    rfd, wfd, imports = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    boot.install_paths(os.environ["VM_EXTDIR"])
    import torch
    torch.set_num_threads(1)
    for m in imports.split(","):
        importlib.import_module(m)
    if "vm.train" in imports:
        preimport()
    serve(rfd, wfd)
