"""Driver: runs one check in child processes (shards), decides the verdict, writes evidence.

usage: main.py PROPERTY [--tier quick|thorough] [--only CASE] [--shards N]
exit 0 held / 1 violation / 3 inconclusive / 2 harness error
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vm import boot  # noqa: E402

CRASH = {int(s) for s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)}
EMPTY = {"evaluations": 0, "keys": [], "rule": "", "samples": [], "counters": {}, "violations": [], "errors": [],
         "n_errors": 0, "skipped": {}, "required": {}, "min_nontrivial": 1, "assumptions": [], "extra": {},
         "level": "exploration", "wall": 0}


def load_known(prop):
    p = boot.VERIF / "known_findings.json"
    if not p.exists():
        return {}
    return {e["mechanism"]: e for e in json.loads(p.read_text())
            if e["property"] == prop and e.get("status") == "known"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--timeout", type=float)
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop, tier = a.property, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.monotonic()
    scratch = Path(tempfile.mkdtemp(prefix=f"vm-{prop}-"))
    rc = 2
    try:
        rc = run(prop, tier, seed, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def merge(states):
    st = json.loads(json.dumps(EMPTY))
    counters, skipped, keys = Counter(), Counter(), set()
    for s in states:
        counters.update(s["counters"])
        skipped.update(s["skipped"])
        keys.update(s["keys"])
        st["evaluations"] += s["evaluations"]
        st["violations"] += s["violations"]
        st["errors"] += s["errors"]
        st["n_errors"] += s["n_errors"]
        st["samples"] += s["samples"][: max(2, 12 // len(states))]
        st["required"].update(s["required"])
        st["extra"].update(s["extra"])
        for k in ("rule", "assumptions", "min_nontrivial", "level"):
            st[k] = s[k] or st[k]
    st["counters"], st["skipped"], st["distinct"] = dict(counters), dict(skipped), len(keys)
    st["samples"] = st["samples"][:12]
    return st


def run(prop, tier, seed, a, scratch, t0):
    evdir = boot.VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    try:
        extdir = boot.build_exts("opt")
    except boot.BuildError as e:
        print(f"ERROR building extensions: {e}")
        return 2
    env = boot.base_env(scratch)
    env["VM_EXTDIR"] = str(extdir)
    shards = 1 if a.only else (a.shards or (4 if tier == "quick" else 6))
    timeout = a.timeout or (480 if tier == "quick" else 3000)
    procs = []
    for k in range(shards):
        out = scratch / f"result{k}.json"
        e = dict(env, VM_SCRATCH=str(scratch / f"s{k}"))
        os.makedirs(e["VM_SCRATCH"], exist_ok=True)
        cmd = [boot.PY, "-X", "faulthandler", "-u", "-m", "vm.child", prop, tier, str(seed), str(out), str(k), str(shards)]
        if a.only:
            cmd.append(a.only)
        log = open(scratch / f"log{k}.txt", "w+")
        procs.append((subprocess.Popen(cmd, cwd=str(boot.VERIF), env=e, stdout=log, stderr=subprocess.STDOUT,
                                       start_new_session=True), out, log))
    states, dead, timed_out, cur = [], [], False, None
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1.0, timeout - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            timed_out = True
        stalled = p.poll() is None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        log.flush()
        log.seek(0)
        text = log.read()
        if os.environ.get("VM_VERBOSE"):
            print(text[-8000:])
        c = None
        if os.path.exists(str(out) + ".cur"):
            try:
                c = json.loads(Path(str(out) + ".cur").read_text())
            except ValueError:
                pass
        st = json.loads(out.read_text()) if out.exists() else dict(EMPTY)
        states.append(st)
        cur = c or cur
        if stalled and c and time.time() - c.get("since", time.time()) > 300:
            # cases take seconds: one that makes no progress for five minutes never ends
            st["violations"] = st["violations"] + [{
                "mechanism": "no-progress", "case": c.get("case"), "params": c.get("params"),
                "message": f"the execution made no progress for {time.time() - c['since']:.0f} s", "detail": {"log": text[-3000:]}}]
        elif p.returncode != 0 and not stalled:
            if -p.returncode in CRASH:
                st["violations"] = st["violations"] + [{
                    "mechanism": "process-crash", "case": (c or {}).get("case"), "params": (c or {}).get("params"),
                    "message": f"interpreter died with signal {-p.returncode}", "detail": {"log": text[-3000:]}}]
            else:
                dead.append((p.returncode, c, text[-4000:]))
    st = merge(states)
    known = load_known(prop)
    new, old = [], {}
    for v in st["violations"]:
        if v["mechanism"] in known:
            old.setdefault(v["mechanism"], v)
        else:
            new.append(v)
    nontriv = st["distinct"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": st["level"],
        "coverage": {
            "evaluations": st["evaluations"], "distinct_nontrivial": nontriv,
            "rule": st["rule"], "samples": st["samples"] or [cur or {}],
            "monitor_counters": st["counters"], "undecided_cases": st["skipped"],
            **({"detail": st["extra"]} if st["extra"] else {}),
        },
        "assumptions": st["assumptions"],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(new),
    }
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for m, e in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    print(f"{prop} tier={tier} seed={seed} evaluations={st['evaluations']} "
          f"distinct_nontrivial={nontriv} counters={st['counters']} wall={ev['wall_s']}s")
    if new:
        rd = evdir / "replay"
        rd.mkdir(exist_ok=True)
        seen = set()
        for v in new:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            path = rd / f"{prop}-{len(seen)}.json"
            path.write_text(json.dumps({
                "property": prop, "seed": seed, "tier": tier, **v,
                "replay_cmd": f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} ./run.sh {prop} --only '{v.get('case')}'",
            }, indent=1))
            print(f"  [{v['mechanism']}] case={v.get('case')} {v['message'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
            if len(seen) >= 8:
                break
        return 1
    if dead or st["n_errors"]:
        print(f"ERROR property={prop}: harness failure")
        for e in st["errors"][:5]:
            print(json.dumps(e)[:400])
            print(e["trace"])
        for rc, c, text in dead[:2]:
            print(rc, c)
            print(text)
        return 2
    if timed_out:
        print(f"INCONCLUSIVE property={prop}: watchdog of {timeout}s fired in {cur}")
        return 3
    if a.only:
        return 0
    for name, need in st["required"].items():
        if st["counters"].get(name, 0) < need:
            print(f"INCONCLUSIVE property={prop}: monitor counter {name}={st['counters'].get(name, 0)} < {need}")
            return 3
    if nontriv < st["min_nontrivial"]:
        print(f"INCONCLUSIVE property={prop}: only {nontriv} non-trivial observations")
        return 3
    return 0


if __name__ == "__main__":
    main()
