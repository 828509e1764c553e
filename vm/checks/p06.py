"""Multi-rank delivery: rank slices of the global plan, and sharded file ownership."""
from collections import Counter, defaultdict

import numpy as np

from vm import digest, drive, gen, scenario
from vm.checks.p03 import roundtrip

GLOBAL_KINDS = ["processed", "batched", "raw", "sparse", "composite"]
SHARDED_KINDS = ["simple", "packed"]


def batch_rows(env):
    """Per-row digests (content, mask, sample key)."""
    rows = gen.rows_of(env.data)
    return [(digest.of(r), bool(m), digest.tuple_tree(k)) for r, m, k in zip(rows, np.asarray(env.is_real), env.sample_keys)]


def log_rank(scen, rt, epochs, limit=None, **over):
    """Delivery log of one rank: (rows, coordination view, state digest) per batch."""
    ds = scen.build(rt, **over)
    pl = drive.planner_of(ds)
    log, signature = [], digest.of(digest.tuple_tree(pl.signature_state()))
    for ep in range(epochs):
        n = 0
        for env in ds:
            view = None
            if rt.mode == "train":
                prepared = pl.prepare_commit([env.token])
                view = digest.tuple_tree(prepared.coordination_descriptor)
                pl.commit_prepared(prepared)
            log.append((ep, batch_rows(env), view, env.token.batch.is_last, env))
            n += 1
            if limit and n >= limit:
                break
    state = None
    if rt.mode == "train" and scen.resumable and not limit:
        state = roundtrip(pl.state_dict())
    return log, signature, state, pl


def global_case(ctx, name, rng, i):
    kind = GLOBAL_KINDS[i % len(GLOBAL_KINDS)]
    d = ctx.tmp()
    world = rng.choice([2, 2, 3, 4, 5])
    for _ in range(30):
        rate = rng.choice([1.0, 1.0, 0.7])
        if kind == "composite":
            scen = scenario.make_composite(rng, d, total=rng.randint(12, 90), sample_rate=rate,
                                           kind=rng.choice(["processed", "raw", "sparse", "mixproc"]))
        else:
            scen = scenario.make(rng, d, kind, total=rng.randint(8, 90), sample_rate=rate)
        B = scenario.batch_for(rng, scen, world)
        if rate < 1.0:
            if B and len(scen.rids()) < 40:
                continue
            B = world
        if B:
            break
    else:
        return
    mode = rng.choice(["train", "train", "validate", "test"])
    if mode != "train" and rng.random() < 0.4:
        B = world * rng.randint(1, 12)
    over = {"steps_per_epoch": rng.randint(1, 6)} if mode == "train" and rng.random() < 0.3 else {}
    seed = rng.randrange(1 << 40)
    with ctx.case(name, dict(scen.desc, world=world, B=B, mode=mode, over=over)):
        ref, _, _, _ = log_rank(scen, drive.runtime(B, seed=seed, mode=mode), 2, **over)
        logs, sigs, states = [], [], []
        for rank in range(world):
            o = dict(over)
            if kind == "batched":
                o.update(prefetch_threads=rng.choice([0, 1, 3]), prefetch_batches=rng.choice([1, 2, 5]))
            log, sig, st, _ = log_rank(scen, drive.runtime(B, world=world, rank=rank, seed=seed, mode=mode), 2, **o)
            logs.append(log)
            sigs.append(sig)
            states.append(None if st is None else digest.of(st))
        for rank, log in enumerate(logs):
            ctx.check(len(log) == len(ref), "ranks:step-count",
                      f"rank {rank} of {world} delivered {len(log)} batches, a single process {len(ref)}")
        for k, (ep, rows, _, last, _) in enumerate(ref):
            joined = []
            for rank, log in enumerate(logs):
                mine = log[k]
                ctx.check(mine[0] == ep and mine[3] == last, "ranks:epoch-boundary", f"rank {rank} batch {k}: epoch/last differs")
                ctx.check(len(mine[1]) == B // world, "ranks:local-size", f"rank {rank} batch {k}: {len(mine[1])} rows")
                joined += mine[1]
            ctx.check(Counter(joined) == Counter(rows), "ranks:partition",
                      lambda: f"batch {k}: ranks together deliver other rows than the global batch "
                              f"(missing {len(Counter(rows) - Counter(joined))}, extra {len(Counter(joined) - Counter(rows))})")
            ctx.check(joined == rows, "ranks:order", f"batch {k}: rank slices are not the contiguous slices of the global batch")
            if mode == "train":
                ctx.check(len({repr(log[k][2]) for log in logs}) == 1, "ranks:coordination",
                          f"batch {k}: ranks describe the committed step differently")
            ctx.count("global_batches")
            ctx.seen(name, k, tuple(r[0] for r in rows))
        ctx.check(len(set(sigs)) == 1, "ranks:signature", "stream signature differs between ranks")
        ctx.check(len(set(states)) == 1, "ranks:state", "ranks save different positions of the same global plan")
        if mode != "train":
            idx = scen.index()
            real = [r for log in logs for _, rows, _, _, env in log if env is not None
                    for (r, _, m) in drive.identify(ctx, env, idx) if m]
            if scen.kw.get("sample_rate", 1.0) == 1.0:
                ctx.check(Counter(real) == Counter({r: 2 for r in scen.rids()}), "ranks:eval-coverage",
                          "evaluation across ranks is not exactly once per epoch")


def sharded_case(ctx, name, rng, i):
    kind = SHARDED_KINDS[i % 2]
    d = ctx.tmp()
    world = rng.choice([2, 2, 3, 4])
    nfiles = rng.randint(world, world + 4)
    scen = scenario.make(rng, d, kind, total=rng.randint(8 * nfiles, 16 * nfiles) if kind == "packed" else rng.randint(2 * nfiles, 60),
                         nfiles=nfiles, options=False, sizes=scenario.SIZE_SETS[rng.choice(["one", "two"])],
                         lz4=rng.random() < 0.15)
    if len(scen.paths) < world:
        return
    B = world * rng.randint(1, 4)
    L = B // world
    per_rank_need = 3 * len(scen.rids()) // L + 2
    steps = rng.choice([rng.randint(1, 6), min(60, per_rank_need)])
    seed = rng.randrange(1 << 40)
    file_of = {r.rid: r.file for r in scen.corpora[0].recs}
    in_file = defaultdict(set)
    for r in scen.rids():
        in_file[file_of[r]].add(r)
    with ctx.case(name, dict(scen.desc, world=world, B=B, steps=steps)):
        idx = scen.index()
        owner, descr, cover, sigs = {}, [], set(), []
        done_full = True
        for rank in range(world):
            rt = drive.runtime(B, world=world, rank=rank, seed=seed)
            log, sig, _, pl = log_rank(scen, rt, 2, steps_per_epoch=steps)
            sigs.append(sig)
            per_epoch = Counter(ep for ep, *_ in log)
            ctx.check(per_epoch == Counter({0: steps, 1: steps}), "ranks:budget", f"rank {rank}: steps per epoch {dict(per_epoch)}, want {steps}")
            descr.append([digest.tuple_tree(v) for _, _, v, _, _ in log])
            seqs = defaultdict(list)      # (epoch, shape) -> rids in delivery order
            for ep, rows, _, _, env in log:
                got = drive.identify(ctx, env, idx)
                ctx.check(len(got) == L and all(m for *_, m in got), "ranks:local-size", f"rank {rank}: batch with {len(got)} rows")
                ctx.check(len({scen.shape_of[r] for r, _, _ in got}) == 1, "ranks:mixed-shapes", "a batch mixes board shapes")
                for r, _, _ in got:
                    ctx.check(owner.setdefault(file_of[r], rank) == rank, "ranks:overlap",
                              f"file {file_of[r]} is read by ranks {owner[file_of[r]]} and {rank}")
                    cover.add(r)
                    seqs[ep, scen.shape_of[r]].append(r)
                ctx.count("sharded_batches")
                ctx.seen(name, rank, ep, tuple(r for r, _, _ in got))
            mine = {f for f, o in owner.items() if o == rank}
            for (ep, shp), s in seqs.items():
                # each pass over the shard is a permutation of the shard's records of that shape
                n = len(set(s))
                for j in range(0, len(s), n):
                    part = s[j:j + n]
                    ctx.check(len(set(part)) == len(part), "ranks:pass-repeat",
                              f"rank {rank} epoch {ep}: a record repeats before the shard's other records were delivered")
                if len(s) > n:
                    shard = {r for f in mine for r in in_file[f] if scen.shape_of[r] == shp}
                    ctx.check(set(s) == shard, "ranks:shard-loss",
                              f"rank {rank} epoch {ep}: second pass began before {len(shard - set(s))} owned records of shape {shp} were delivered")
                else:
                    done_full = False
            if not all(len(v) >= 2 * len(set(v)) for v in seqs.values()):
                done_full = False
            if scen.resumable:
                descr[-1].append(digest.of(digest.tuple_tree(pl.coordination_state_dict())))
        ctx.check(all(v == descr[0] for v in descr), "ranks:coordination", "ranks describe the same committed steps differently")
        ctx.check(len(set(sigs)) == 1, "ranks:signature", "stream signature differs between ranks")
        if done_full:
            # every rank wrapped around its shard: together the ranks must own every file
            ctx.check(set(owner) == set(in_file), "ranks:unowned-file", f"files {sorted(set(in_file) - set(owner))} are read by no rank")
            ctx.check(cover == set(scen.rids()), "ranks:coverage", "records of owned files never delivered")
            ctx.count("full_shard_coverage")


def composite_case(ctx, name, rng, i):
    """Blends with a file-sharded child: every record belongs to one rank, budgets hold, steps agree."""
    world = rng.choice([2, 2, 3])
    scen = scenario.make_composite(rng, ctx.tmp(), total=rng.randint(60, 140), kind=["simple", "packed", "blend"][i % 3],
                                   sizes=scenario.SIZE_SETS[rng.choice(["one", "two"])], nfiles=rng.randint(world, world + 2))
    if scen is None:
        return
    L, steps = rng.randint(1, 3), rng.randint(2, 30)
    B = world * L
    seed = rng.randrange(1 << 40)
    seq_files = {r.rid: (ci, r.file) for ci, c in enumerate(scen.corpora) for r in c.recs if c.kind in ("simple", "packed")}
    with ctx.case(name, dict(scen.desc, world=world, B=B, steps=steps)):
        idx = scen.index()
        owner, fowner, descr, sigs = {}, {}, [], []
        for rank in range(world):
            log, sig, _, pl = log_rank(scen, drive.runtime(B, world=world, rank=rank, seed=seed), 2, steps_per_epoch=steps)
            sigs.append(sig)
            ctx.check(Counter(ep for ep, *_ in log) == Counter({0: steps, 1: steps}), "ranks:budget",
                      f"rank {rank}: {len(log)} batches for 2 epochs of {steps}")
            descr.append([digest.tuple_tree(v) for _, _, v, _, _ in log])
            for ep, rows, _, _, env in log:
                got = drive.identify(ctx, env, idx)
                ctx.check(len(got) == L and all(m for *_, m in got), "ranks:local-size", f"rank {rank}: batch with {len(got)} rows")
                for r, _, _ in got:
                    ctx.check(owner.setdefault(r, rank) == rank, "ranks:overlap", f"record {r} is delivered by ranks {owner[r]} and {rank}")
                    if r in seq_files:
                        f = seq_files[r]
                        ctx.check(fowner.setdefault(f, rank) == rank, "ranks:overlap", f"file {f} is read by two ranks")
                ctx.count("blend_sharded_batches")
                ctx.seen(name, rank, ep, tuple(r for r, _, _ in got))
        ctx.check(all(v == descr[0] for v in descr), "ranks:coordination", "ranks describe the same committed steps differently")
        ctx.check(len(set(sigs)) == 1, "ranks:signature", "stream signature differs between ranks")


def refusal_case(ctx, name, rng, i):
    kind = SHARDED_KINDS[i % 2]
    world = rng.choice([2, 3, 4])
    nfiles = rng.randint(world, world + 2)
    scen = scenario.make(rng, ctx.tmp(), kind, total=16 * nfiles, nfiles=nfiles, options=False, sizes=[(9, 9)])
    B = world * 2
    with ctx.case(name, dict(scen.desc, world=world)):
        rank = rng.randrange(world)

        def attempt(what, mech, paths=None, mode="train", **over):
            s = scen
            try:
                ds = drive.build(s.type, paths or s.paths, drive.runtime(B, world=world, rank=rank, mode=mode), **{**s.kw, **over})
                n = len(list(drive.epoch(ds)))
            except (ValueError, RuntimeError, TypeError):
                ctx.count("refused")
                return
            ctx.fail(mech, f"{what} was accepted and delivered {n} batches")
        attempt("a sharded stream without a step budget", "ranks:no-budget-accepted")
        attempt("evaluation of a format that cannot split batches", "ranks:sharded-eval-accepted", mode=rng.choice(["validate", "test"]),
                steps_per_epoch=3)
        attempt("fewer files than ranks", "ranks:few-files-accepted", paths=scen.paths[:world - 1], steps_per_epoch=3)


def run(ctx):
    ctx.rule = ("random corpus driven once in a single process and once per rank (2-5 ranks, different prefetch settings per rank); an "
                "offline checker compares the concatenated rank logs with the global log, and for file-sharded formats checks "
                "ownership, per-pass permutations, step budgets and coverage. Non-trivial: distinct delivered batches")
    ctx.require("global_batches", 200)
    ctx.require("sharded_batches", 200)
    ctx.require("full_shard_coverage", 5)
    ctx.require("blend_sharded_batches", 50)
    ctx.require("refused", 20)
    for name, rng in ctx.cases("global", 120, 2000, share=0.5):
        global_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("sharded", 70, 1200, share=0.4):
        sharded_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("blend", 18, 300, share=0.2):
        composite_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("refusal", 12, 100, share=0.1):
        refusal_case(ctx, name, rng, int(name.split("#")[1]))
