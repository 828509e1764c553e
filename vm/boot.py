"""Environment and build bootstrap.

Everything is compiled from /repo's current working tree into a private build
directory that shadows the in-place extension modules of /repo, so a check never
depends on build products that were made from an older tree.
"""
import fcntl
import hashlib
import importlib.abc
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get("VM_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
PY = os.environ.get("VM_PYTHON", "/opt/venv/bin/python")
BUILD = VERIF / ".build"

EXTS = {
    "line_encoding_cpp": ["dataset/pipeline/line_encoding_cpp"],
    "forbidden_point_cpp": ["dataset/pipeline/forbidden_point_cpp"],
    "dataset_planner_cpp": ["dataset/planner_cpp"],
}


def scratch_root() -> Path:
    root = os.environ.get("VM_SCRATCH")
    if root:
        return Path(root)
    root = tempfile.mkdtemp(prefix="vm-")
    os.environ["VM_SCRATCH"] = root
    return Path(root)


def base_env(scratch: Path) -> dict:
    keep = {k: v for k, v in os.environ.items()
            if k.startswith(("VERIF_", "VM_")) or k in ("HOME", "TMPDIR", "TERM", "LANG")}
    env = dict(keep)
    env.setdefault("HOME", "/root")
    env.setdefault("LANG", "C.UTF-8")
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=os.environ.get("VM_HASHSEED", "0"),
        PYTHONNOUSERSITE="1",
        CUDA_VISIBLE_DEVICES="",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        ATEN_CPU_CAPABILITY="avx2",
        MKL_CBWR="COMPATIBLE",
        ONEDNN_MAX_CPU_ISA="AVX2",
        HF_HUB_OFFLINE="1",
        MPLBACKEND="Agg",
        ACCELERATE_USE_CPU="true",
        VM_SCRATCH=str(scratch),
        KEOPS_CACHE_FOLDER=str(scratch / "keops"),
        TORCHINDUCTOR_CACHE_DIR=str(scratch / "inductor"),
        MPLCONFIGDIR=str(scratch / "mpl"),
        KMP_WARNINGS="0",
    )
    return env


def _sources(dirs):
    out = []
    for d in dirs:
        out += sorted(p for p in (REPO / d).iterdir() if p.suffix in (".cpp", ".cc", ".cxx", ".h", ".hpp"))
    return out


def _tree_hash(dirs, flags):
    h = hashlib.sha256()
    for p in _sources(dirs):
        h.update(str(p.relative_to(REPO)).encode() + b"\0" + p.read_bytes() + b"\0")
    h.update(repr(flags).encode())
    return h.hexdigest()[:20]


FLAVOURS = {
    "opt": ["-O2", "-g0"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-shared-libasan"],
}


class BuildError(RuntimeError):
    pass


def build_exts(flavour="opt", names=None) -> Path:
    """Compile the extension modules; returns one directory to put on sys.path."""
    flags = FLAVOURS[flavour]
    names = list(names or EXTS)
    inc = subprocess.run([PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());"
                          "print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True, check=True).stdout.split()
    pyb, pyinc, suffix = inc
    key = hashlib.sha256("|".join(f"{n}:{_tree_hash(EXTS[n], flags)}" for n in names).encode()).hexdigest()[:16]
    outdir = BUILD / f"{flavour}-{key}"
    stamp = outdir / "ok"
    if stamp.exists():
        return outdir
    outdir.mkdir(parents=True, exist_ok=True)
    cc = "g++"
    cflags = [f for f in flags if f != "-shared-libasan"]

    def one(name):
        srcs = [str(p) for p in _sources(EXTS[name]) if p.suffix != ".h" and p.suffix != ".hpp"]
        tmp = outdir / f".{name}.{os.getpid()}.so"
        cmd = [cc, "-shared", "-fPIC", "-std=c++17", "-fvisibility=hidden", *cflags,
               f"-I{pyb}", f"-I{pyinc}", *srcs, "-o", str(tmp)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{name}: {r.stderr[-4000:]}")
        os.replace(tmp, outdir / f"{name}{suffix}")

    with ThreadPoolExecutor(len(names)) as ex:
        list(ex.map(one, names))
    stamp.write_text("ok")
    return outdir


def install_paths(extdir):
    """Make the current process import /repo with the freshly built extensions."""
    for p in (str(REPO), str(extdir)):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, str(REPO))
    sys.path.insert(0, str(extdir))
    if not any(isinstance(f, _Serialise) for f in sys.meta_path) and _Serialise.name not in sys.modules:
        sys.meta_path.insert(0, _Serialise())


class _Serialise(importlib.abc.MetaPathFinder):
    """KeOps writes each compiled search under its final name: processes sharing the cache
    must not build or load the same one at once. (Third-party behaviour, not under test.)"""

    name = "pykeops.common.keops_io.LoadKeOps_cpp"

    def find_spec(self, name, path=None, target=None):
        if name != self.name:
            return None
        sys.meta_path.remove(self)
        spec = importlib.util.find_spec(name)
        run = spec.loader.exec_module

        def exec_module(module):
            run(module)
            cls = module.LoadKeOps_cpp_class
            init = cls.__init__

            def locked(obj, *args, **kw):
                key = hashlib.sha256(repr(getattr(args[0], "tag", 0) if kw.get("fast_init") else args).encode()).hexdigest()[:16]
                folder = os.environ.get("KEOPS_CACHE_FOLDER", "/nonexistent")
                if not os.path.isdir(folder):
                    return init(obj, *args, **kw)
                with open(os.path.join(folder, f"search-{key}.lock"), "w") as f:
                    fcntl.flock(f, fcntl.LOCK_EX)
                    return init(obj, *args, **kw)

            cls.__init__ = locked

        spec.loader.exec_module = exec_module
        return spec
