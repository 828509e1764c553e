"""Create or check planted bugs.

plant.py new SPEC.py      SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python text)
plant.py demo [ID...]     run each demo on /repo (must pass) and on a patched copy (must fail)
plant.py vet [ID...]      apply to /repo, build, stable tests, demo, revert; remembers the result in /tmp/vet.json
plant.py matrix [ID...]   run the check of the bug's property against a patched copy; /tmp/matrix.json
"""
import json, os, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path("/verif")
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def copy(tag):
    d = Path(f"/tmp/rx-{tag}")
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", str(d)])
    return d


def edit(path, pairs):
    raw = open(path, newline="").read()
    crlf = "\r\n" in raw
    s = raw.replace("\r\n", "\n")
    for old, new in pairs:
        assert s.count(old) == 1, (path, s.count(old), old)
        s = s.replace(old, new)
    open(path, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def patched(i):
    d = copy(i)
    r = sh(["git", "-C", str(d), "apply", str(SEEDED / i / "patch.diff")])
    assert r.returncode == 0, r.stderr
    return d


def build(d):
    return sh([PY, "setup.py", "build_ext", "--inplace"], cwd=d)


def demo(i, d, timeout=300):
    t = time.time()
    try:
        r = sh(["bash", str(SEEDED / i / "demo.sh")], cwd=d, timeout=timeout)
        return r.returncode, time.time() - t, (r.stdout + r.stderr)[-1500:]
    except subprocess.TimeoutExpired:
        return -99, timeout, "timeout"


def new(spec):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    i = g["ID"]
    out = SEEDED / i
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    d = copy(i)
    files = {}
    for f, old, nw in g["EDITS"]:
        files.setdefault(f, []).append((old, nw))
    for f, pairs in files.items():
        edit(d / f, pairs)
    diff = subprocess.run(["git", "-C", str(d), "diff", "--binary"], capture_output=True).stdout
    (out / "patch.diff").write_bytes(diff)
    (out / "demo.py").write_text(g["DEMO"].lstrip("\n"))
    (out / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (out / "meta.json").write_text(json.dumps(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), indent=1) + "\n")
    if "kit" in g["DEMO"]:
        (out / "kit").mkdir()
        for n in ("__init__", "gen", "drive", "scenario", "digest", "train"):
            shutil.copy(VERIF / "vm" / f"{n}.py", out / "kit" / f"{n}.py")
    if any(f.endswith((".cpp", ".h", ".hpp")) for f in files):
        b = build(d)
        assert b.returncode == 0, b.stderr[-2000:]
    a = demo(i, "/repo")
    b = demo(i, d)
    print(i, "clean rc", a[0], f"{a[1]:.0f}s", "patched rc", b[0], f"{b[1]:.0f}s", "OK" if a[0] == 0 and b[0] not in (0,) else "BAD")
    print("   ", b[2].strip().splitlines()[-1:] )
    if a[0]:
        print(a[2])
    shutil.rmtree(d)


def demos(ids):
    for i in ids:
        d = patched(i)
        if ".cpp" in (SEEDED / i / "patch.diff").read_text(errors="replace"):
            build(d)
        a, b = demo(i, "/repo"), demo(i, d)
        print(i, a[0], b[0], "OK" if a[0] == 0 and b[0] else "BAD", flush=True)
        shutil.rmtree(d)


def vet(ids):
    p = Path("/tmp/vet.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        done = json.loads(p.read_text()) if p.exists() else {}
        key = sh(["sha1sum", str(SEEDED / i / "patch.diff")]).stdout[:12]
        if done.get(i, {}).get("key") == key and done[i]["ok"]:
            continue
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        try:
            r = sh(["git", "-C", "/repo", "apply", str(SEEDED / i / "patch.diff")])
            assert r.returncode == 0, r.stderr
            b = sh(["bash", "/opt/vp/build.sh"])
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/vet_out.json"])
            lost = sorted(base - set(json.load(open("/tmp/vet_out.json"))["passed"]))
            dm = demo(i, "/repo")
        finally:
            sh("git -C /repo checkout -- .")
        done[i] = dict(key=key, ok=b.returncode == 0 and not lost and dm[0] != 0, build=b.returncode, lost=lost[:5], demo=dm[0])
        p.write_text(json.dumps(done, indent=1))
        print(i, done[i], flush=True)
    sh(["bash", "/opt/vp/build.sh"])


def matrix(ids, seeds=("1",)):
    p = Path("/tmp/matrix.json")
    for i in ids:
        prop = json.load(open(SEEDED / i / "meta.json"))["property"]
        if not (VERIF / "vm" / "checks" / f"{prop.lower()}.py").exists():
            print(i, prop, "no check yet")
            continue
        d = patched(i)
        for s in seeds:
            t = time.time()
            r = sh(["./run.sh", prop], cwd=VERIF, env=dict(os.environ, VM_REPO=str(d), VERIF_SEED=s, VERIF_TIER="quick"))
            out = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith(("  [", "VIOLATION"))]
            caught = r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in out)
            done = json.loads(p.read_text()) if p.exists() else {}
            done[f"{i}/{s}"] = dict(caught=caught, rc=r.returncode, wall=round(time.time() - t), first=(out or [""])[0][:200])
            p.write_text(json.dumps(done, indent=1))
            print(i, prop, "seed", s, "CAUGHT" if caught else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", (out or [""])[0][:160], flush=True)
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for a in args:
            new(a)
    else:
        ids = args or sorted(q.name for q in SEEDED.iterdir() if (q / "patch.diff").exists())
        dict(demo=demos, vet=vet, matrix=matrix)[cmd](ids)
