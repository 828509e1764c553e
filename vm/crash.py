"""Training runs under planned file-system faults (executed in forks of a shim-preloaded server)."""
import ctypes
import os
import subprocess
from pathlib import Path

from . import boot, digest, train

MODES = {"kill-before": 1, "kill-after": 2, "kill-partial": 3, "fail": 4, "short": 5}


def shim():
    """Compiled from source beside this file on first use."""
    src = Path(__file__).with_name("native") / "fsfault.c"
    import hashlib
    out = boot.BUILD / f"fsfault-{hashlib.sha256(src.read_bytes()).hexdigest()[:16]}.so"
    if not out.exists():
        boot.BUILD.mkdir(parents=True, exist_ok=True)
        tmp = out.with_suffix(f".{os.getpid()}")
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", str(tmp), str(src), "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr)
        os.replace(tmp, out)
    return out


def oplog(lib):
    lib.vm_op.restype = lib.vm_name.restype = ctypes.c_char_p
    lib.vm_op.argtypes = lib.vm_name.argtypes = [ctypes.c_long]
    return [(lib.vm_op(i).decode(), lib.vm_name(i).decode()) for i in range(lib.vm_count())]


def run(cfg, rundir, arm=None, progress=None):
    """One training process; arm = (mode, op, errno, persistent) or None (count only)."""
    lib = ctypes.CDLL(None)
    lib.vm_count.restype = ctypes.c_long
    watch = str(Path(rundir) / "ckpts")
    mode, k, err, keep = arm or ("off", -1, 0, 0)
    trace = []

    def plan(point, tr, data):
        if point == "after":
            trace[-1]["files"] = {n: digest.of(dict(tr._unwrap(m).state_dict())) for n, m in tr.models.items()}
        if point == "before" and progress and int(os.environ.get("RANK", 0)) == 0:
            with open(progress, "a") as f:
                f.write(f"{start['iteration'] + len(trace)}\n")
        return None

    with train.quiet(os.environ.get("VM_QUIET")):
        t = train.build(cfg, rundir, plan, trace)
        start = dict(train.snapshot(t), iteration=t.state.iteration, epoch=t.state.epoch)
        lib.vm_arm(watch.encode(), MODES.get(mode, 0), ctypes.c_long(k), err, keep)
        error = None
        try:
            t.run()
        except BaseException as e:  # noqa: BLE001
            if arm is None:
                raise
            error = f"{type(e).__name__}: {e}"[:1000]
        fired = lib.vm_fired()
        log = oplog(lib)
        lib.vm_arm(b"", 0, ctypes.c_long(-1), 0, 0)
        end = dict(train.snapshot(t), iteration=t.state.iteration, epoch=t.state.epoch)
    return dict(start=start, trace=trace, end=end, error=error, vals=getattr(t, "vm_vals", []), log=log, fired=fired)


def inspect(rundir):
    """{final-named file: (kind, iteration, digest or error)} without using repository code."""
    import torch
    out = {}
    d = Path(rundir) / "ckpts"
    for n in train.listing(rundir):
        if not n.endswith(".pt") or n.startswith("."):
            continue
        try:
            o = torch.load(d / n, map_location="cpu", weights_only=True)
            if n.startswith("ckpt_"):
                out[n] = ("model", int(n.rsplit("_", 1)[1][:-3]), digest.of(dict(o["model"])), None)
            elif n.startswith("state_"):
                out[n] = ("state", int(n.rsplit("_", 1)[1][:-3]), "", None)
            else:
                out[n] = ("companion", int(n.split("_")[1]), "", None)
        except Exception as e:  # noqa: BLE001
            out[n] = (n.split("_")[0], -1, None, f"{type(e).__name__}: {e}"[:300])
    return out


def run_ranks(cfg, rundir, world, arm, progress, victim=0):
    return train.run_ranks(cfg, rundir, world, arm, victim, target="vm.crash:run", extra=(progress,))
