"""Exactly-once delivery per epoch for every planned source."""
from collections import Counter

import numpy as np

from vm import drive, scenario


def check_epoch(ctx, scen, idx, envs, B, mode, tag):
    got = Counter()
    fake = 0
    per_shape_last = {}
    seen_batches = 0
    for env in envs:
        rows = drive.identify(ctx, env, idx)
        ctx.check(len(rows) == B, "exactly-once:batch-size", f"{tag}: batch of {len(rows)} rows, expected {B}")
        shapes = {scen.shape_of[r] for r, _, _ in rows}
        ctx.check(len(shapes) == 1, "exactly-once:mixed-shapes", f"{tag}: one batch mixes shapes {shapes}")
        real = [r for r, _, m in rows if m]
        ctx.check(real, "exactly-once:empty-batch", f"{tag}: batch without any real row")
        if mode == "train":
            ctx.check(len(real) == B, "exactly-once:train-padding", f"{tag}: training batch has padded rows")
        fake += B - len(real)
        got.update(real)
        seen_batches += 1
        ctx.count("batches")
    dup = [r for r, c in got.items() if c > 1]
    ctx.check(not dup, "exactly-once:duplicate", lambda: f"{tag}: records delivered more than once: {dup[:10]}")
    want = set(scen.rids())
    alien = set(got) - want
    ctx.check(not alien, "exactly-once:alien", lambda: f"{tag}: records that must be filtered were delivered: {sorted(alien)[:10]}")
    per = Counter(scen.shape_of[r] for r in want)
    have = Counter(scen.shape_of[r] for r in got)
    for shp, n in per.items():
        exp = n - n % B if mode == "train" else n
        ctx.check(have[shp] == exp, "exactly-once:loss",
                  f"{tag}: shape {shp} has {n} records, delivered {have[shp]}, expected {exp} (batch {B}, mode {mode})")
    if mode != "train":
        exp_fake = sum((-n) % B for n in per.values())
        ctx.check(fake == exp_fake, "exactly-once:pad-count", f"{tag}: {fake} padded rows, expected {exp_fake}")
    return got


def run(ctx):
    ctx.rule = ("random corpus (record format, file split, board sizes, filters, symmetry, padding, window, streams, "
                "prefetch) driven for 1-3 epochs in train or evaluation mode; every delivered row is identified by "
                "content against records generated independently. Non-trivial: distinct delivered batch sequences "
                "with at least two batches")
    ctx.require("batches", 200)
    ctx.require("samples_identified", 1000)
    kinds = scenario.ALL_KINDS
    for name, rng in ctx.cases("epoch", 220, 2500, share=0.5):
        d = ctx.tmp()
        kind = kinds[int(name.split("#")[1]) % len(kinds)]
        mode = rng.choice(["train", "train", "validate", "test"])
        scen = scenario.make(rng, d, kind)
        B = scenario.batch_for(rng, scen)
        if mode != "train" and rng.random() < 0.3:
            B = rng.randint(1, len(scen.shape_of) + 9)
        params = dict(scen.desc, B=B, mode=mode)
        with ctx.case(name, params):
            idx = scen.index()
            rt = drive.runtime(B, seed=rng.randrange(1 << 40), mode=mode)
            ds = scen.build(rt)
            orders = []
            for ep in range(rng.choice([1, 2, 3])):
                envs = list(drive.epoch(ds))
                order = check_epoch(ctx, scen, idx, envs, B, mode, f"epoch {ep}")
                orders.append(tuple(order))
                ctx.check(bool(envs), "exactly-once:no-batch", "epoch produced nothing")
                toks = [e.token for e in envs]
                ctx.check([t.batch_index for t in toks] == list(range(len(toks))), "exactly-once:token-order",
                          f"batch indices {[t.batch_index for t in toks][:20]}")
                ctx.check([t.batch.is_last for t in toks] == [False] * (len(toks) - 1) + [True],
                          "exactly-once:terminal-flag", "last-batch flag is not exactly on the final batch")
                keys = [k for e in envs for k, m in zip(e.sample_keys, np.asarray(e.is_real)) if m]
                ctx.check(len(set(keys)) == len(keys), "exactly-once:sample-key",
                          "two different deliveries of one epoch share a sample key")
                if len(envs) > 1:
                    ctx.seen(kind, mode, orders[-1])
            if len(set(orders)) > 1:
                ctx.count("reshuffled_epochs")
    # a step budget only truncates: exactly min(budget, available) batches, still without repeats
    for name, rng in ctx.cases("budget", 70, 800, share=0.25):
        d = ctx.tmp()
        kind = kinds[int(name.split("#")[1]) % len(kinds)]
        scen = scenario.make(rng, d, kind)
        B = scenario.batch_for(rng, scen)
        per = Counter(scen.shape_of.values())
        natural = sum(n // B for n in per.values())
        steps = rng.randint(1, natural + 3)
        with ctx.case(name, dict(scen.desc, B=B, steps=steps, natural=natural)):
            idx = scen.index()
            ds = scen.build(drive.runtime(B, seed=rng.randrange(1 << 40)), steps_per_epoch=steps)
            union = Counter()
            for ep in range(3):
                envs = list(drive.epoch(ds))
                ctx.check(len(envs) == min(steps, natural), "exactly-once:step-budget",
                          f"epoch {ep}: {len(envs)} steps, budget {steps}, available {natural}")
                ctx.check([e.token.batch.is_last for e in envs] == [False] * (len(envs) - 1) + [True],
                          "exactly-once:terminal-flag", "last-batch flag is not exactly on the final budgeted batch")
                c = Counter()
                for e in envs:
                    rows = drive.identify(ctx, e, idx)
                    ctx.check(all(m for _, _, m in rows) and len(rows) == B, "exactly-once:budget-batch", "short batch")
                    c.update(r for r, _, _ in rows)
                    ctx.count("batches")
                dup = [r for r, k in c.items() if k > 1]
                ctx.check(not dup, "exactly-once:duplicate", f"epoch {ep}: repeated records {dup[:10]}")
                union.update(c)
                ctx.seen("budget", kind, ep, tuple(c))
    # more records than any internal chunk, reservoir or queue holds
    for name, rng in ctx.cases("bulk", 7, 48, share=0.3):
        d = ctx.tmp()
        kind = ["processed", "batched", "composite", "raw", "simple", "composite", "sparse"][int(name.split("#")[1]) % 7]
        mode = rng.choice(["train", "validate"])
        scen = scenario.make(rng, d, kind, total=rng.randint(2300, 3300), nfiles=rng.randint(2, 4), sizes=[(9, 9)],
                             symmetry=False, options=False, shuffle=True, lz4=False)
        scen.kw["shuffle_window_size"] = rng.choice([100, 1024, 1025, 2000])
        B = rng.randint(50, 700)
        with ctx.case(name, dict(scen.desc, B=B, mode=mode)):
            idx = scen.index()
            ds = scen.build(drive.runtime(B, seed=rng.randrange(1 << 40), mode=mode))
            for ep in range(2):
                order = check_epoch(ctx, scen, idx, list(drive.epoch(ds)), B, mode, f"bulk epoch {ep}")
                ctx.seen("bulk", kind, tuple(order))
                ctx.count("bulk_records", sum(order.values()))
