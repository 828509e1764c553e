"""Run `module.function(*args)` in a new interpreter (pickled in and out)."""
import importlib
import os
import pickle
import subprocess
import sys

from . import boot


def call(ctx, module, func, *args, env=None, timeout=300, hashseed=None):
    d = ctx.tmp("fresh")
    (d / "in.pkl").write_bytes(pickle.dumps((module, func, args)))
    e = dict(os.environ, **(env or {}))
    e["VM_SCRATCH"] = str(d)
    if hashseed is not None:
        e["PYTHONHASHSEED"] = str(hashseed)
    r = subprocess.run([boot.PY, "-m", "vm.fresh", str(d)], cwd=str(boot.VERIF), env=e, capture_output=True,
                       text=True, timeout=timeout)
    out = d / "out.pkl"
    if not out.exists():
        raise RuntimeError(f"fresh process rc={r.returncode}: {r.stdout[-1500:]} {r.stderr[-2500:]}")
    return pickle.loads(out.read_bytes())


def slim(scen):
    from .scenario import Scenario
    return Scenario(scen.kind, scen.type, list(scen.paths), scen.kw, [], {})


if __name__ == "__main__":
    from vm import boot as b
    b.install_paths(os.environ["VM_EXTDIR"])
    d = sys.argv[1]
    with open(os.path.join(d, "in.pkl"), "rb") as f:
        module, func, args = pickle.load(f)
    res = getattr(importlib.import_module(module), func)(*args)
    tmp = os.path.join(d, "out.tmp")
    with open(tmp, "wb") as f:
        pickle.dump(res, f)
    os.replace(tmp, os.path.join(d, "out.pkl"))
    sys.stdout.flush()
    os._exit(0)
