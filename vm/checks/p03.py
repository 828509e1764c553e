"""Exact resume: interrupted + restored delivery equals the uninterrupted one."""
import io

import torch

from vm import digest, drive, fresh, pipes, scenario


def roundtrip(state):
    """The state as it comes back from a checkpoint file."""
    buf = io.BytesIO()
    torch.save(state, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


def stamp(env):
    return digest.envelope(env) + ("|" if env.token.batch.is_last else "")


def baseline(scen, rt, epochs, **over):
    ds = scen.build(rt, **over)
    out = []
    for _ in range(epochs):
        out += [stamp(e) for e in drive.epoch(ds)]
    return out


def follow(scen, rt, state, want, over):
    """Restore (if state) and deliver until `want` batches were committed."""
    pipes.register()
    ds = scen.build(rt, **over)
    pl = drive.planner_of(ds)
    if state is not None:
        pl.load_state_dict(state)
    out = []
    while len(out) < want:
        for e in ds:
            pl.commit_batch(e.token)
            out.append(stamp(e))
            if len(out) >= want:
                break
    return out


def topo(rng, kind):
    """(world, rank, extra kwargs) realistic for a source family."""
    if rng.random() < 0.65 or kind == "composite":
        return 1, 0, {}
    w = rng.choice([2, 3])
    if kind in ("simple", "packed"):
        return w, rng.randrange(w), {"steps_per_epoch": rng.randint(2, 7)}
    return w, rng.randrange(w), ({"steps_per_epoch": rng.randint(2, 5)} if rng.random() < 0.3 else {})


def setup(ctx, rng, i, kinds):
    kind = kinds[i % len(kinds)]
    world, rank, over = topo(rng, kind)
    for _ in range(20):
        scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(14, 80), lz4=False,
                             options=not (world > 1 and kind in ("simple", "packed")),
                             nfiles=rng.randint(max(1, world), 5), sample_rate=rng.choice([1.0, 1.0, 0.8]))
        sharded = world > 1 and kind in ("simple", "packed")
        if not sharded or len(scen.paths) >= world:
            break
    else:
        world, rank, over = 1, 0, {}
    B = scenario.batch_for(rng, scen, world, cap=9)
    if B is None:
        world, rank, over, B = 1, 0, {}, 1
    if scen.kw.get("sample_rate", 1.0) < 1.0:
        B = world
    if world > 1 and kind in ("simple", "packed"):
        B = world * rng.choice([1, 1, 2])
        scen.kw["sample_rate"] = 1.0
    if rng.random() < 0.4 and kind in ("processed", "batched", "composite", "raw", "simple"):
        over["pipeline_args"] = {"vm_counter": {"start": rng.randrange(5)}}
    return scen, world, rank, B, over


def bulk_setup(ctx, rng, i):
    kind = ["composite", "simple", "processed", "batched", "composite", "raw", "sparse"][i % 7]
    shuffle = rng.random() < 0.75
    total = rng.randint(1500, 3400)
    if kind == "composite":
        scen = scenario.make_composite(rng, ctx.tmp(), total=total, sync=rng.random() < 0.4, children=2, shuffle=shuffle,
                                       kind=rng.choice(["processed", "simple", "sparse", "mixproc"]), sizes=[(7, 7)],
                                       symmetry=False, lz4=False, nfiles=rng.randint(1, 2),
                                       ratios=[rng.choice([1, 2, 3]) for _ in range(2)])
    else:
        scen = scenario.make(rng, ctx.tmp(), kind, total=total, nfiles=rng.randint(2, 4), sizes=[(7, 7)], symmetry=False,
                             options=False, shuffle=shuffle, lz4=False)
    if shuffle:
        scen.kw["shuffle_window_size"] = [4096, 1024, 1500, 64, 4096, 1025, 1000, 4096][(i + i // 7) % 8]
    world, rank, over = 1, 0, {}
    if kind in ("processed", "batched", "raw", "sparse") and rng.random() < 0.3:
        world, rank = 2, rng.randrange(2)
    return scen, world, rank, 2 * rng.randint(10, 90), over


def variant(rng, kind):
    out = {"loader_window": rng.choice(["early", "late"])} if rng.random() < 0.25 else {}
    if kind == "batched":
        out.update(prefetch_threads=rng.choice([0, 1, 2, 4]), prefetch_batches=rng.choice([1, 2, 5, 16]))
    return out


def run(ctx):
    ctx.rule = ("random configuration delivered once uninterrupted and again through a chain of interruptions: random "
                "commit groups, abandoned or closed iterators, in-process rollback, checkpoints taken mid-prefetch, older "
                "checkpoints reused, positions inside corpora larger than one planner chunk, restore into a rebuilt stream (other prefetch depth) or a fresh process. "
                "Non-trivial: distinct (configuration, restore-point) pairs")
    ctx.require("restores", 150)
    ctx.require("batches_replayed", 300)
    ctx.require("fresh_processes", 2)
    ctx.require("bulk_restores", 6)
    pipes.register()
    kinds = scenario.ALL_KINDS
    for name, rng in ctx.cases("chain", 160, 2600, share=0.75):
        i = int(name.split("#")[1])
        scen, world, rank, B, over = setup(ctx, rng, i, kinds)
        mode = "train" if rng.random() < 0.8 or world > 1 else "validate"
        seed = rng.randrange(1 << 40)
        with ctx.case(name, dict(scen.desc, B=B, mode=mode, world=world, rank=rank, over=over)):
            rt = drive.runtime(B, world=world, rank=rank, seed=seed, mode=mode)
            base = baseline(scen, rt, 3, **over)
            saved = [(None, 0)]
            done, state, rounds = [], None, 0
            while len(done) < len(base) and rounds < 40:
                rounds += 1
                o = dict(over, **variant(rng, scen.kind))
                ds = scen.build(rt, **o)
                pl = drive.planner_of(ds)
                if state is not None:
                    pl.load_state_dict(roundtrip(state))
                    ctx.count("restores")
                    ctx.seen(name, len(done), rounds)
                    ctx.check(digest.of(roundtrip(pl.state_dict())) == digest.of(roundtrip(state)),
                              "resume:state-not-idempotent", "restoring a saved state and saving again changes it")
                budget = rng.randint(1, max(2, len(base)))
                style = rng.choice(["abandon", "close", "reiterate"])
                run_out = False
                while budget > 0 and not run_out and len(done) < len(base):
                    pend = []
                    group = rng.choice([1, 1, 1, 2, 3])
                    it = iter(ds)
                    stop = False
                    for env in it:
                        pend.append(env)
                        budget -= 1
                        if mode != "train":
                            done.append(stamp(env))
                            ctx.count("batches_replayed")
                            if rng.random() < 0.3:
                                saved.append((pl.state_dict(), len(done)))
                        else:
                            if rng.random() < 0.15:
                                saved.append((pl.state_dict(), len(done)))
                            if len(pend) >= group or env.token.batch.is_last:
                                pl.commit_prepared(pl.prepare_commit([e.token for e in pend]))
                                done += [stamp(e) for e in pend]
                                ctx.count("batches_replayed", len(pend))
                                pend = []
                                if rng.random() < 0.5:
                                    saved.append((pl.state_dict(), len(done)))
                        ctx.check(done == base[: len(done)], "resume:diverged",
                                  lambda: f"batch {len(done) - 1} after {rounds} restores differs from the uninterrupted run")
                        if budget <= 0 or len(done) >= len(base):
                            stop = True
                            break
                    if stop and style != "abandon":
                        it.close()
                        if style == "reiterate" and mode == "train":
                            ctx.count("rollbacks")
                            budget, style = rng.randint(1, 4), "close"
                            continue
                    if stop:
                        run_out = True
                if rng.random() < 0.25:
                    state, n = rng.choice([s for s in saved if s[1] <= len(done)])
                    done = done[:n]
                else:
                    state = pl.state_dict()
            ctx.check(done == base, "resume:diverged", f"only {len(done)} of {len(base)} batches after {rounds} rounds")
    # more records than one planner chunk, so positions are saved part-way through buffered chunks
    for name, rng in ctx.cases("bulk", 18, 200, share=0.4):
        i = int(name.split("#")[1])
        scen, world, rank, B, over = bulk_setup(ctx, rng, i)
        seed = rng.randrange(1 << 40)
        with ctx.case(name, dict(scen.desc, B=B, world=world, rank=rank, over=over)):
            rt = drive.runtime(B, world=world, rank=rank, seed=seed)
            base = baseline(scen, rt, 2, **over)
            ctx.count("bulk_batches", len(base))
            saved, done = [], 0
            ds = scen.build(rt, **over)
            pl = drive.planner_of(ds)
            while done < len(base):
                for e in ds:
                    pl.commit_batch(e.token)
                    done += 1
                    saved.append((done, pl.state_dict()))
                    if done >= len(base):
                        break
            L = len(saved) - 1
            for n, state in [saved[k] for k in sorted({rng.randrange(L), rng.randrange(max(1, L // 4)), rng.randrange(L // 2, L), min(L - 1, 1)})]:
                want = base[n:n + rng.randint(3, 12)]
                got = follow(scen, rt, roundtrip(state), len(want), dict(over, **variant(rng, scen.kind)))
                ctx.check(got == want, "resume:diverged", f"a position saved after {n} batches of up to {B} delivers other batches")
                ctx.count("restores")
                ctx.count("bulk_restores")
                ctx.seen(name, n)
    for name, rng in ctx.cases("process", 6, 60):
        i = int(name.split("#")[1])
        scen, world, rank, B, over = setup(ctx, rng, rng.randrange(7), kinds)
        seed = rng.randrange(1 << 40)
        with ctx.case(name, dict(scen.desc, B=B, world=world, rank=rank, over=over)):
            rt = drive.runtime(B, world=world, rank=rank, seed=seed)
            base = baseline(scen, rt, 2, **over)
            cut = rng.randint(0, len(base) - 1)
            ds = scen.build(rt, **over)
            pl = drive.planner_of(ds)
            n = 0
            while n < cut:
                for env in ds:
                    pl.commit_batch(env.token)
                    n += 1
                    if n >= cut:
                        break
            got = fresh.call(ctx, "vm.checks.p03", "follow", fresh.slim(scen), rt, roundtrip(pl.state_dict()),
                             len(base) - cut, dict(over, **variant(rng, scen.kind)), hashseed=rng.randrange(1, 1 << 31))
            ctx.check(got == base[cut:], "resume:process", f"a fresh process restored at batch {cut} delivers other batches")
            ctx.count("fresh_processes")
            ctx.count("restores")
            ctx.seen(name, cut)
