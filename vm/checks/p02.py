"""Delivery is a pure function of configuration, seed and epoch."""
import json
import os
import subprocess
import time

from vm import boot, digest, drive, interleave, scenario


def sequence(scen, rt, epochs, pace=None, **over):
    ds = scen.build(rt, **over)
    out = []
    for _ in range(epochs):
        for env in drive.epoch(ds):
            out.append(digest.envelope(env))
            if pace:
                pace()
        out.append("|")
    return out


TUNE = {"enabled": True}


def variants(rng):
    obs = [False, True]
    out = []
    for _ in range(6):
        v = dict(prefetch_threads=rng.choice([0, 1, 2, 3, 6]), prefetch_batches=rng.choice([1, 2, 3, 8, 40]))
        v["observability"] = rng.choice(obs)
        out.append(v)
    out.append(dict(prefetch_threads=rng.choice([1, 2]), prefetch_batches=rng.choice([2, 8]), autotune=True))
    return out


CHILD = r"""
import json, sys, pickle
sys.path.insert(0, sys.argv[2])
from vm import boot
import os
boot.install_paths(os.environ["VM_EXTDIR"])
from vm.checks import p02
from vm import drive
spec = json.load(open(sys.argv[1]))
class S: pass
def tup(v): return [tuple(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v
kw = spec["kw"]
kw["boardsizes"] = [tuple(x) for x in kw["boardsizes"]]
if "fixed_board_size" in kw: kw["fixed_board_size"] = tuple(kw["fixed_board_size"])
from vm.scenario import Scenario
s = Scenario("x", spec["type"], spec["paths"], kw, [], {})
print("SEQ " + json.dumps(p02.sequence(s, drive.runtime(spec["B"], seed=spec["seed"], mode=spec["mode"]), spec["epochs"])))
"""


def fresh_process(ctx, scen, B, seed, mode, epochs, hashseed):
    spec = ctx.tmp("spec") / "s.json"
    spec.write_text(json.dumps(dict(type=scen.type, paths=scen.paths, kw=scen.kw, B=B, seed=seed, mode=mode, epochs=epochs)))
    script = spec.with_name("c.py")
    script.write_text(CHILD)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TZ="Asia/Tokyo")
    r = subprocess.run([boot.PY, str(script), str(spec), str(boot.VERIF)], capture_output=True, text=True,
                       cwd=str(boot.VERIF), env=env, timeout=300)
    for line in r.stdout.splitlines():
        if line.startswith("SEQ "):
            return json.loads(line[4:])
    raise RuntimeError(r.stderr[-2000:])


def run(ctx):
    ctx.rule = ("random configuration replayed under different worker counts, prefetch depths, telemetry/autotune "
                "settings, random task delays, consumer pacing and fresh interpreters; byte digests of every batch, mask "
                "and sample key must coincide. Non-trivial: distinct (configuration, completion order) pairs")
    ctx.require("sequences_compared", 60)
    for name, rng in ctx.cases("threads", 22, 300, share=0.5):
        d = ctx.tmp()
        scen = scenario.make(rng, d, "batched", total=rng.randint(30, 160), sample_rate=rng.choice([1.0, 1.0, 0.7]))
        B = max(1, (scenario.batch_for(rng, scen, cap=12) or 1) // (1 if scen.kw["sample_rate"] == 1.0 else 3))
        seed, mode = rng.randrange(1 << 40), rng.choice(["train", "train", "validate"])
        with ctx.case(name, dict(scen.desc, B=B, mode=mode)):
            base = sequence(scen, drive.runtime(B, seed=seed, mode=mode), 2, prefetch_threads=0)
            for v in variants(rng):
                slow = rng.random() < 0.4
                pace = (lambda: time.sleep(rng.random() * 0.002)) if slow else None
                with interleave.shaken(rng) as tr:
                    got = sequence(scen, drive.runtime(B, seed=seed, mode=mode), 2, pace, **v)
                ctx.check(got == base, "determinism:timing",
                          lambda: f"delivery differs from the synchronous run under {v}: first at "
                                  f"{next((i for i, (a, b) in enumerate(zip(got, base)) if a != b), min(len(got), len(base)))}",
                          variant=v)
                ctx.count("sequences_compared")
                ctx.count("pool_tasks", tr.submitted)
                if tr.done != sorted(tr.done):
                    ctx.count("reordered_completions")
                ctx.seen(tuple(base[:3]), tuple(tr.done), str(v))
    for name, rng in ctx.cases("rebuild", 40, 500, share=0.3):
        d = ctx.tmp()
        kind = scenario.ALL_KINDS[int(name.split("#")[1]) % 7]
        scen = scenario.make(rng, d, kind, sample_rate=rng.choice([1.0, 0.8]), total=rng.randint(20, 90))
        B = max(1, (scenario.batch_for(rng, scen, cap=9) or 1) // (1 if scen.kw["sample_rate"] == 1.0 else 4))
        seed, mode = rng.randrange(1 << 40), rng.choice(["train", "train", "test"])
        with ctx.case(name, dict(scen.desc, B=B, mode=mode)):
            import random as pyrandom

            import numpy as np
            import torch
            a = sequence(scen, drive.runtime(B, seed=seed, mode=mode), 3)
            pyrandom.seed(rng.random()); np.random.seed(rng.randrange(1 << 30)); torch.manual_seed(rng.randrange(1 << 30))
            b = sequence(scen, drive.runtime(B, seed=seed, mode=mode), 3)
            ctx.check(a == b, "determinism:rebuild", "two runs of one configuration in one process differ")
            ctx.count("sequences_compared")
            ctx.seen("rebuild", tuple(a[:4]))
            if scen.kw["shuffle"] and mode == "train" and scen.kw["shuffle_window_size"] > 4 and len(scen.shape_of) > 12 and len(a) > 6:
                c = sequence(scen, drive.runtime(B, seed=seed ^ 0x5DEECE66D, mode=mode), 3)
                ctx.count("other_seed_differs", int(c != a))
                ctx.count("other_seed_runs")
    for name, rng in ctx.cases("process", 4, 40):
        d = ctx.tmp()
        kind = scenario.ALL_KINDS[int(name.split("#")[1]) % 7] if ctx.thorough else rng.choice(scenario.ALL_KINDS)
        scen = scenario.make(rng, d, kind, sample_rate=1.0)
        B = scenario.batch_for(rng, scen, cap=9)
        seed = rng.randrange(1 << 40)
        with ctx.case(name, dict(scen.desc, B=B)):
            a = sequence(scen, drive.runtime(B, seed=seed), 2)
            b = fresh_process(ctx, scen, B, seed, "train", 2, rng.randrange(1, 1 << 31))
            ctx.check(a == b, "determinism:process", "a fresh interpreter delivers a different sequence")
            ctx.count("sequences_compared")
            ctx.count("fresh_processes")
            ctx.seen("process", tuple(a[:4]))
    if ctx.counters["other_seed_runs"] >= 5 and not ctx.only:
        with ctx.case("seed-sensitivity", dict(ctx.counters)):
            ctx.check(ctx.counters["other_seed_differs"] > 0, "determinism:seed-ignored",
                      "changing the seed never changed the delivery order")
