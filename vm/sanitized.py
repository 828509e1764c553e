"""Run `module.function(*args)` in an interpreter whose extension modules carry AddressSanitizer and UBSan."""
import fcntl
import os
import pickle
import re
import subprocess
import time

from . import boot

_REPORT = re.compile(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*|LeakSanitizer[^\n]*|Assertion '[^\n]*)")


def env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True, check=True).stdout.strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True, check=True).stdout.strip()
    cpp = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True, check=True).stdout.strip()
    return {
        "LD_PRELOAD": " ".join(os.path.realpath(p) for p in (lib, ub, cpp)),
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
        "PYTHONMALLOC": "malloc",
    }


def call(ctx, module, func, *args, timeout=400):
    """Result of the call; a sanitizer report or crash is a violation."""
    d = ctx.tmp("asan")
    (d / "in.pkl").write_bytes(pickle.dumps((module, func, args)))
    e = dict(os.environ, **env())
    e["VM_SCRATCH"] = str(d)
    t = time.monotonic()
    with open(boot.scratch_root() / "asan.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)        # one shard compiles, the others wait
        e["VM_EXTDIR"] = str(boot.build_exts("asan"))
    ctx.t0 += time.monotonic() - t              # compiling is not exploration time
    r = subprocess.run([boot.PY, "-m", "vm.fresh", str(d)], cwd=str(boot.VERIF), env=e, capture_output=True, text=True,
                       timeout=timeout)
    text = r.stdout + r.stderr
    m = _REPORT.search(text)
    if m or r.returncode == 99 or r.returncode < 0:
        what = m.group(1) if m else f"exit {r.returncode}"
        ctx.fail("sanitizer:" + re.sub(r"[^A-Za-z-]+", "-", what)[:60], f"{what}", report=text[-5000:])
    out = d / "out.pkl"
    if not out.exists():
        raise RuntimeError(f"sanitized process rc={r.returncode}: {text[-3000:]}")
    ctx.count("sanitized_processes")
    return pickle.loads(out.read_bytes())
