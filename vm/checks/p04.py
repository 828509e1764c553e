"""Commit protocol: model-based random operation sequences on the two commit coordinators."""
import dataclasses
import pickle

from vm import digest, drive, pipes, scenario
from vm.checks.p03 import roundtrip

REFUSED = (RuntimeError, ValueError)


def refused(ctx, what, fn):
    try:
        fn()
    except REFUSED:
        ctx.count(f"refused:{what}")
        return
    ctx.fail("commit:accepted-invalid", f"{what} was accepted")


def fold(token):
    return digest.of([digest.tuple_tree(e.record_key) for e in token.batch.envelopes] + list(token.batch.is_real))


def plan_all(ds_builder):
    """Reference delivery of one epoch: ordered record lists."""
    pl = drive.planner_of(ds_builder())
    out = []
    while True:
        r = pl.next_transactional_batch()
        if r is None:
            break
        out.append(fold(r[1]))
    return out


def planner_case(ctx, rng, scen, rt, over, ops):
    build = lambda: scen.build(rt, **over)
    ref = {0: plan_all(build)}
    ds = build()
    pl = drive.planner_of(ds)
    epoch, committed, planned = 0, 0, []      # planned: tokens after the committed prefix
    finished = False
    old_tokens, stale, states = [], [], []
    snap = digest.of(roundtrip(pl.state_dict()))
    trace = []
    for _ in range(ops):
        op = rng.choice(["plan"] * 4 + ["commit"] * 3 + ["group", "skip", "again", "rollback", "load", "advance", "prepare",
                        "stale", "alien", "empty", "reversed", "tampered"])
        trace.append(op)
        before = digest.of(roundtrip(pl.state_dict()))
        ctx.check(before == snap, "commit:state-moved", f"checkpoint state moved without a commit (after {trace[-6:]})")
        if op == "plan":
            r = pl.next_transactional_batch()
            pos = committed + len(planned)
            if r is None:
                finished = True
                ctx.check(pos == len(ref[epoch]), "commit:early-end", f"epoch ended at batch {pos} of {len(ref[epoch])}")
            else:
                ctx.check(pos < len(ref[epoch]), "commit:late-end", "planner delivered beyond the epoch")
                ctx.check(fold(r[1]) == ref[epoch][pos], "commit:replay-differs",
                          f"batch {pos} differs from the plan (ops {trace[-8:]})")
                ctx.check((r[1].epoch, r[1].batch_index) == (epoch, pos), "commit:token-identity",
                          f"token says {(r[1].epoch, r[1].batch_index)}, expected {(epoch, pos)}")
                planned.append(r[1])
                finished = bool(r[1].batch.is_last)
        elif op in ("commit", "group") and planned:
            n = 1 if op == "commit" else rng.randint(1, len(planned))
            toks = planned[:n]
            cand = pl.prepare_commit(toks)
            ctx.check(cand.token_count == n, "commit:token-count", f"{cand.token_count} != {n}")
            ctx.check(digest.of(roundtrip(pl.state_dict())) == snap, "commit:prepare-mutates", "preparing a commit changed the state")
            pl.commit_prepared(cand)
            committed += n
            planned = planned[n:]
            old_tokens += toks
            stale.append(cand)
            snap = digest.of(roundtrip(pl.state_dict()))
            ctx.check(snap != before, "commit:no-effect", "a commit did not change the checkpoint state")
            states.append((pickle.dumps(pl.state_dict()), epoch, committed))
            ctx.count("commits")
        elif op == "skip" and len(planned) >= 2:
            refused(ctx, "skip", lambda: pl.commit_batch(planned[1]))
        elif op == "reversed" and len(planned) >= 2:
            refused(ctx, "reversed", lambda: pl.commit_prepared(pl.prepare_commit([planned[1], planned[0]])))
        elif op == "again" and old_tokens:
            t = rng.choice(old_tokens)
            refused(ctx, "again", lambda: pl.commit_batch(t))
        elif op == "stale" and stale:
            c = rng.choice(stale)
            refused(ctx, "stale", lambda: pl.commit_prepared(c))
        elif op == "tampered" and planned:
            t, how = planned[0], rng.choice(["before_digest", "batch_index", "epoch", "before_state", "before_pipeline_blob", "after_pipeline_blob", "after_digest"])
            bad = {"before_digest": "0" * 64, "batch_index": t.batch_index + rng.choice([1, -1]), "epoch": t.epoch + 1,
                   "before_state": t.after_state, "before_pipeline_blob": t.before_pipeline_blob + b"x",
                   "after_pipeline_blob": t.after_pipeline_blob + b"x", "after_digest": rng.choice(["", None, "ab", 7])}[how]
            if how != "before_state" or t.before_state is not None:
                refused(ctx, "tampered", lambda: pl.commit_batch(dataclasses.replace(t, **{how: bad})))
        elif op == "empty":
            refused(ctx, "empty", lambda: pl.prepare_commit([]))
        elif op == "prepare" and planned:
            a, b = pl.prepare_commit(planned[:1]), pl.prepare_commit(planned[: rng.randint(1, len(planned))])
            if rng.random() < 0.5:
                pl.commit_prepared(a)
                committed += 1
                old_tokens.append(planned.pop(0))
                snap = digest.of(roundtrip(pl.state_dict()))
                refused(ctx, "prepared-twice", lambda: pl.commit_prepared(b))
                states.append((pickle.dumps(pl.state_dict()), epoch, committed))
        elif op == "alien":
            other = drive.planner_of(scen.build(drive.runtime(rt.global_batch_size, world=rt.world_size, rank=rt.rank,
                                                              seed=rt.seed + 1), **over))
            r = other.next_transactional_batch()
            if r is not None and (committed > 0 or epoch > 0):
                refused(ctx, "alien", lambda: pl.commit_batch(r[1]))
        elif op == "rollback":
            pl.rollback_uncommitted()
            planned = []
            finished = bool(pl.finished)
            ctx.count("rollbacks")
        elif op == "load" and states and rng.random() < 0.6:
            blob, e, c = rng.choice(states[-4:])
            if rng.random() < 0.5:
                pl = drive.planner_of(build())
            pl.load_state_dict(roundtrip(pickle.loads(blob)))
            epoch, committed, planned = e, c, []
            finished = bool(pl.finished)
            old_tokens, stale = [], []
            snap = digest.of(roundtrip(pl.state_dict()))
            ctx.count("restores")
        elif op == "advance":
            if not pl.finished:
                refused(ctx, "advance-unfinished", pl.begin_next_epoch)
            elif finished and not planned:
                pl.begin_next_epoch()
                epoch, committed, finished = epoch + 1, 0, False
                old_tokens, stale, states = [], [], []
                snap = digest.of(roundtrip(pl.state_dict()))
                ctx.count("epochs")
                if epoch not in ref:
                    q = drive.planner_of(build())
                    q.load_state_dict(roundtrip(pl.state_dict()))
                    out = []
                    while True:
                        r = q.next_transactional_batch()
                        if r is None:
                            break
                        out.append(fold(r[1]))
                    ref[epoch] = out
        ctx.seen("planner", scen.kind, epoch, committed, len(planned), tuple(trace[-4:]))
        ctx.check(pl.committed_epoch == epoch, "commit:epoch", f"committed epoch {pl.committed_epoch}, model {epoch}")


def window_case(ctx, rng, scen, rt, over):
    """Commit transactions of several batches (accumulation windows) that may span epoch boundaries."""
    build = lambda: scen.build(rt, **over)

    def batches(ds):
        while True:
            yield from ds

    # reference: one commit per batch, checkpoint state after each
    ds = build()
    pl = drive.planner_of(ds)
    ref, states, total, alt = [], [pl.state_dict()], rng.randint(6, 20), {}
    for env in batches(ds):
        alt[len(ref)] = digest.of(roundtrip(pl.state_dict()))   # an end of epoch reads as the next start once advanced
        pl.commit_batch(env.token)
        ref.append(digest.envelope(env))
        states.append(pl.state_dict())
        if len(ref) >= total:
            break
    canon = [digest.of(roundtrip(s)) for s in states]
    ds = build()
    pl = drive.planner_of(ds)
    pos, window, k = 0, [], rng.randint(2, 4)
    src = batches(ds)
    for _ in range(60):
        if pos + len(window) >= total - 4:
            break
        env = next(src)
        ctx.check(digest.envelope(env) == ref[pos + len(window)], "window:delivery",
                  f"batch {pos + len(window)} differs when commits are grouped (window of {k})")
        window.append(env.token)
        ctx.check(digest.of(roundtrip(pl.state_dict())) in (canon[pos], alt.get(pos)), "window:state-moved",
                  f"checkpoint state moved with {len(window)} uncommitted batches after batch {pos}")
        if len({t.epoch for t in window}) > 1:
            ctx.count("windows_spanning_epochs")
        if len(window) == k:
            if k > 1 and rng.random() < 0.2:
                refused(ctx, "window-gap", lambda: pl.prepare_commit(window[:1] + window[2:]) if k > 2 else pl.prepare_commit(window[1:]))
            if rng.random() < 0.3:      # commit the window in two transactions
                c = rng.randint(1, k - 1)
                pl.commit_prepared(pl.prepare_commit(window[:c]))
                ctx.check(digest.of(roundtrip(pl.state_dict())) == canon[pos + c], "window:committed-state",
                          f"state after committing {c} of a window of {k} at batch {pos} differs from per-batch commits")
                pl.commit_prepared(pl.prepare_commit(window[c:]))
            else:
                pl.commit_prepared(pl.prepare_commit(window))
            pos += k
            window = []
            k = rng.randint(2, 4)
            ctx.check(digest.of(roundtrip(pl.state_dict())) == canon[pos], "window:committed-state",
                      f"state after batch {pos} differs from per-batch commits")
            ctx.count("windows_committed")
            ctx.seen("window", scen.kind, pos, k)
        op = rng.random()
        if op < 0.15 or (len({t.epoch for t in window}) > 1 and op < 0.4):
            if op < 0.08:
                st = roundtrip(pl.state_dict())
                src.close()
                ds = build()
                pl = drive.planner_of(ds)
                pl.load_state_dict(st)
                ctx.count("window_restores")
            else:
                src.close()
                pl.rollback_uncommitted()
                ctx.count("window_rollbacks")
            src, window = batches(ds), []


class Data:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return i


def order_of(n, shuffle, seed, epoch, world, rank):
    from utils.training_utils import ResumableSampler
    s = ResumableSampler(Data(n), shuffle=shuffle, seed=seed, rank=rank, world_size=world)
    out = []
    for e in range(epoch + 1):
        out = list(iter(s))
        s.advance_yield_epoch()
    return out


def sampler_case(ctx, rng, ops):
    from utils.training_utils import ResumableSampler
    n, world, seed = rng.randint(1, 40), rng.choice([1, 1, 2, 3]), rng.randrange(1 << 20)
    if n < world:
        n = world
    rank, shuffle = rng.randrange(world), rng.random() < 0.8
    mk = lambda: ResumableSampler(Data(n), shuffle=shuffle, seed=seed, rank=rank, world_size=world)
    L = n // world
    s = mk()
    it = None
    com = (0, 0)             # committed epoch, offset
    stg = (0, 0)
    yld = (0, 0)
    toks, old, states = [], [], []
    orders = {}
    trace = []
    for _ in range(ops):
        op = rng.choice(["take"] * 4 + ["stage"] * 3 + ["commit"] * 3 + ["advance", "rollback", "load", "again", "skip", "over", "empty"])
        trace.append(op)
        st0 = dict(s.state_dict())
        ctx.check((st0["epoch"], st0["offset"]) == com, "sampler:state-moved",
                  f"checkpoint cursor {(st0['epoch'], st0['offset'])}, model {com} after {trace[-6:]}")
        if op == "take":
            k = rng.randint(1, 6)
            if it is None:
                it = iter(s)
            e, o = yld
            if e not in orders:
                orders[e] = order_of(n, shuffle, seed, e, world, rank)
                ctx.check(len(orders[e]) == L == len(set(orders[e])), "sampler:partition-size", f"{len(orders[e])} of {L}")
            for _ in range(k):
                v = next(it, None)
                if o >= L:
                    ctx.check(v is None, "sampler:overrun", "sampler yielded beyond its partition")
                    it = None
                    break
                ctx.check(v == orders[e][o], "sampler:order", f"position {o} of epoch {e} gave {v}, expected {orders[e][o]}")
                o += 1
                ctx.count("indices")
            yld = (e, o)
        elif op == "stage":
            k = rng.randint(1, 5)
            e, o = stg
            if yld[0] == e + 1:
                ne, no = e + 1, 0
            else:
                ne, no = e, o
            d = min(k, L - no)
            if d <= 0 or no + d > yld[1]:
                # an invalid request must be refused; the staging epoch may have advanced
                refused(ctx, "stage", lambda: s.stage_batch(k))
                stg = (ne, no)
                if ne != e:
                    # unknown to the client: restart from the committed point
                    s.rollback_uncommitted()
                    yld = stg = com
                    toks, it = [], None
            else:
                t = s.stage_batch(k)
                ctx.check((t.before_epoch, t.before_offset, t.after_epoch, t.after_offset) == (e, o, ne, no + d),
                          "sampler:token", f"token {t} for {(e, o)} -> {(ne, no + d)}")
                stg = (ne, no + d)
                toks.append(t)
        elif op == "commit" and toks:
            k = rng.randint(1, len(toks))
            c = s.prepare_commit(toks[:k])
            s.commit_prepared(c)
            com = (toks[k - 1].after_epoch, toks[k - 1].after_offset)
            old += toks[:k]
            toks = toks[k:]
            states.append((dict(s.state_dict()), com))
            refused(ctx, "sampler-stale", lambda: s.commit_prepared(c))
            ctx.count("commits")
        elif op == "again" and old:
            t = rng.choice(old)
            refused(ctx, "sampler-again", lambda: s.commit_prepared(s.prepare_commit([t])))
        elif op == "skip" and len(toks) > 1:
            refused(ctx, "sampler-skip", lambda: s.commit_prepared(s.prepare_commit([toks[1]])))
        elif op == "empty":
            refused(ctx, "sampler-empty", lambda: s.prepare_commit([]))
        elif op == "over":
            refused(ctx, "sampler-zero", lambda: s.stage_batch(0))
        elif op == "advance":
            if yld[1] < L:
                refused(ctx, "sampler-advance", s.advance_yield_epoch)
            elif stg == (yld[0], L):
                s.advance_yield_epoch()
                yld = (yld[0] + 1, 0)
                it = None
                ctx.count("epochs")
        elif op == "rollback":
            s.rollback_uncommitted()
            yld = stg = com
            toks, it = [], None
            ctx.count("rollbacks")
        elif op == "load" and states:
            st, c = rng.choice(states)
            s = mk() if rng.random() < 0.5 else s
            s.load_state_dict(roundtrip(st))
            com = yld = stg = c
            toks, old, it = [], [], None
            states = [x for x in states if x[1] <= c]
            ctx.count("restores")
        ctx.seen("sampler", n, world, com, yld, op)
        ctx.check(len(s) == max(0, L - yld[1]), "sampler:remaining", f"len {len(s)}, model {L - yld[1]}")


def run(ctx):
    ctx.rule = ("random operation sequences (plan, commit one/many, out-of-order, repeated, stale, foreign, empty commits, "
                "rollback, restore, epoch advance) on the stream planner and the map-style sampler against a sequential "
                "model. Non-trivial: distinct (model state, recent operations) pairs")
    for k, n in {"commits": 300, "rollbacks": 50, "restores": 30, "epochs": 20, "refused:skip": 5, "refused:again": 20,
                 "refused:stale": 10, "refused:tampered": 20, "refused:prepared-twice": 3, "refused:advance-unfinished": 5,
                 "windows_committed": 40, "windows_spanning_epochs": 20, "window_rollbacks": 5, "window_restores": 3}.items():
        ctx.require(k, n)
    pipes.register()
    kinds = scenario.ALL_KINDS
    for name, rng in ctx.cases("planner", 110, 1500, share=0.55):
        kind = kinds[int(name.split("#")[1]) % len(kinds)]
        scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(6, 40), lz4=False, nfiles=rng.randint(1, 3))
        world = rng.choice([1, 1, 1, 2]) if kind in ("processed", "batched", "raw", "sparse") else 1
        B = scenario.batch_for(rng, scen, world, cap=6)
        if B is None:
            world, B = 1, 1
        over = {"steps_per_epoch": rng.randint(1, 4)} if rng.random() < 0.25 else {}
        with ctx.case(name, dict(scen.desc, B=B, world=world, over=over)):
            planner_case(ctx, rng, scen, drive.runtime(B, world=world, rank=rng.randrange(world),
                                                       seed=rng.randrange(1 << 40)), over, ctx.n(60, 120))
    for name, rng in ctx.cases("window", 70, 900, share=0.3):
        kind = kinds[int(name.split("#")[1]) % len(kinds)]
        scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(4, 24), lz4=False, nfiles=rng.randint(1, 3))
        B = scenario.batch_for(rng, scen, 1, cap=6)
        over = {"steps_per_epoch": rng.randint(1, 4)} if rng.random() < 0.25 else {}
        if rng.random() < 0.4:
            over["pipeline_args"] = {"vm_counter": {"start": rng.randrange(5)}}
        with ctx.case(name, dict(scen.desc, B=B, over=over)):
            window_case(ctx, rng, scen, drive.runtime(B, seed=rng.randrange(1 << 40)), over)
    for name, rng in ctx.cases("sampler", 160, 4000):
        with ctx.case(name, {}, sample=False):
            sampler_case(ctx, rng, 80)
