"""Bounded memory, handles and read-ahead of the streaming path."""
import gc
import os
import threading

from vm import drive, pipes, scenario


def open_data_files(d):
    """Data files of directory d currently open in this process."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(str(d) + os.sep):
            out.append(t)
    return out


def settle(before, tries=200):
    """Threads started since `before` that are still alive (after a short grace period)."""
    import time
    for _ in range(tries):
        extra = [t for t in threading.enumerate() if t not in before]
        if not extra:
            return []
        time.sleep(0.005)
    return extra


# ---------------------------------------------------------------- shuffle buffer against a conservation model
def reservoir_case(ctx, name, rng):
    from dataset.shuffle import StreamingShuffleReservoir
    cap = rng.choice([1, 2, 3, 7, 32])
    limit = rng.choice([None, None, 10, 64, 500])
    kw = dict(seed=rng.randrange(1 << 50), epoch=rng.randrange(5), stream_key=("k", rng.randrange(9)), max_bytes=limit)
    with ctx.case(name, dict(cap=cap, limit=limit)):
        res = StreamingShuffleReservoir(cap, **kw)
        held, sizes, offered, emitted, peak, peakb = {}, {}, 0, 0, 0, 0
        order = []

        def verify(when):
            st = res.stats
            nbytes = sum(held.values())
            ctx.check(len(held) <= cap and st.occupancy == len(held) == len(res), "bounds:occupancy",
                      f"{when}: reported {st.occupancy}, holds {len(held)}, capacity {cap}")
            ctx.check(st.resident_bytes == nbytes and (limit is None or nbytes <= limit), "bounds:bytes",
                      f"{when}: reported {st.resident_bytes} bytes, holds {nbytes}, limit {limit}")
            ctx.check((st.offered, st.emitted) == (offered, emitted), "bounds:counters",
                      f"{when}: stats {st.offered}/{st.emitted}, observed {offered}/{emitted}")
            ctx.check(st.peak_occupancy == peak and st.peak_resident_bytes == peakb, "bounds:peak",
                      f"{when}: peaks {st.peak_occupancy}/{st.peak_resident_bytes}, observed {peak}/{peakb}")

        def take(out):
            nonlocal emitted
            for x in out:
                ctx.check(x in held, "bounds:conservation", f"emitted {x}, which the buffer does not hold")
                del held[x]
                order.append(x)
                emitted += 1
        n = rng.randint(5, 120)
        todo = [(i, 0 if limit is None else rng.randint(0, max(1, limit // rng.choice([1, 2, 5])))) for i in range(n)]
        pos = 0
        while pos < n:
            k = min(n - pos, rng.choice([1, 1, 2, 5, 40]))
            part = todo[pos:pos + k]
            how = rng.choice(["one", "many", "zero"])
            if how == "zero" and any(s for _, s in part):
                how = "many"
            if how == "one":
                for x, s in part:
                    out = res.offer(x, size_bytes=s)
                    held[x] = s
                    offered += 1
                    take(out)
                    ctx.check(x in held, "bounds:conservation", "the offered item itself was evicted")
                    peak, peakb = max(peak, len(held)), max(peakb, sum(held.values()))
                    verify("offer")
            else:
                before = dict(held)
                out = res.offer_many(part) if how == "many" else res.offer_zero_sized([x for x, _ in part])
                # replay one by one: which item leaves at which step is fixed by the byte and slot limits
                it = iter(out)
                for x, s in part:
                    while held and (len(held) >= cap or (limit is not None and sum(held.values()) + s > limit)):
                        y = next(it, None)
                        ctx.check(y is not None and y in held, "bounds:conservation",
                                  f"{how}: capacity or byte limit exceeded while admitting {x} (held {len(before)})")
                        take([y])
                    held[x] = s
                    offered += 1
                    peak, peakb = max(peak, len(held)), max(peakb, sum(held.values()))
                ctx.check(next(it, None) is None, "bounds:early-eviction", f"{how}: evicted more than the limits require")
                verify(how)
            pos += k
            if limit is not None and rng.random() < 0.1:
                st0 = res.stats
                for bad in (lambda: res.offer("big", size_bytes=limit + 1), lambda: res.offer_many([("big", limit + 1)]),
                            lambda: res.offer("neg", size_bytes=-1)):
                    try:
                        bad()
                    except ValueError:
                        ctx.count("oversize_refused")
                    else:
                        ctx.fail("bounds:oversize-accepted", "an item larger than the byte limit was admitted")
                ctx.check(res.stats == st0, "bounds:refusal-changed-state", "a refused item changed the buffer")
            if rng.random() < 0.1:
                other = StreamingShuffleReservoir(cap, **kw)
                other.restore(res.state())
                res = other
                verify("restore")
                ctx.count("reservoir_restores")
        take(res.drain())
        verify("drain")
        ctx.check(sorted(order) == list(range(n)), "bounds:conservation", "offered and emitted items differ after draining")
        for f in (lambda: res.offer(1), lambda: res.offer_many([(1, 0)]), lambda: res.offer_zero_sized([1])):
            try:
                f()
            except RuntimeError:
                ctx.count("closed_refused")
            else:
                ctx.fail("bounds:offer-after-drain", "a drained buffer accepted an item")
        ctx.count("reservoir_histories")
        ctx.seen("reservoir", cap, limit, tuple(order))


# ---------------------------------------------------------------- whole streams
def stream_case(ctx, name, rng, i):
    kinds = scenario.ALL_KINDS
    kind = kinds[i % len(kinds)]
    d = ctx.tmp()
    scen = scenario.make(rng, d, kind, total=rng.randint(20, 120))
    B = scenario.batch_for(rng, scen, cap=8)
    over = {}
    sequential = kind in ("simple", "packed") or (kind == "composite" and scen.corpora[0].kind in ("simple", "packed"))
    limit = None
    if sequential and rng.random() < 0.6:
        limit = rng.choice([20_000, 60_000, 200_000])
        over["shuffle_buffer_bytes"] = limit
    pre = None
    if kind == "batched":
        pre = scen.kw["prefetch_batches"] if scen.kw["prefetch_threads"] else None
    window = scen.kw.get("shuffle_window_size") if scen.kw.get("shuffle") else None
    mode = rng.choice(["train", "train", "validate"])
    with ctx.case(name, dict(scen.desc, B=B, limit=limit, mode=mode)):
        threads0 = set(threading.enumerate())
        ds = scen.build(drive.runtime(B, seed=rng.randrange(1 << 40), mode=mode), **over)
        pl = drive.planner_of(ds)
        try:
            nchild = len(scen.kw["dataset_dict"]) if kind == "composite" else 1
            streams = (scen.kw.get("sequential_active_streams") or 8) if kind != "composite" else 8 * nchild
            if kind == "composite":
                streams = sum(min(8, len(c["data_paths"])) for c in scen.kw["dataset_dict"].values())

            def sample(where, delivered=None):
                st = pl.reservoir_stats
                cap = window if window else pl.shuffle_window_size
                ctx.check(st.occupancy <= cap and st.peak_occupancy <= cap, "bounds:window",
                          f"{where}: {st.occupancy} records (peak {st.peak_occupancy}) in a window of {cap}")
                ctx.check(st.offered == st.emitted + st.occupancy, "bounds:counters", f"{where}: {st}")
                if limit:
                    ctx.check(st.peak_resident_bytes <= limit and st.resident_bytes <= limit, "bounds:bytes",
                              f"{where}: {st.peak_resident_bytes} bytes resident, limit {limit}")
                    if st.occupancy:
                        ctx.check(st.resident_bytes >= st.occupancy * 30, "bounds:bytes-uncounted",
                                  f"{where}: {st.occupancy} decoded records accounted with {st.resident_bytes} bytes")
                        ctx.count("byte_samples")
                files = open_data_files(d)
                if sequential:
                    ctx.check(len(files) <= streams, "bounds:open-files", f"{where}: {len(files)} data files open, at most {streams} readers")
                    if files:
                        ctx.count("open_file_samples")
                else:    # memory-mapped archives stay mapped in a bounded cache
                    ctx.check(len(set(files)) <= 24, "bounds:open-files", f"{where}: {len(set(files))} array files kept open")
                if delivered is not None and pre:
                    ahead = pl.batch_index - delivered
                    # decoded or queued batches plus the one-batch look-ahead that finds the epoch end
                    ctx.check(ahead <= pre + 1, "bounds:read-ahead", f"{where}: {ahead} batches planned ahead, prefetch depth {pre}")
                    ctx.count("readahead_samples")
                ctx.count("resource_samples")
                ctx.seen(name, where, st, len(files))

            for ep in range(2):
                fate = rng.choice(["end", "end", "abandon", "fail"]) if ep == 0 else "end"
                n, stop = 0, rng.randint(1, 6)
                it = iter(ds)
                try:
                    for env in it:
                        if mode == "train":
                            pl.commit_batch(env.token)
                        n += 1
                        sample(f"epoch {ep} batch {n}", env.token.batch_index + 1)
                        if fate != "end" and n >= stop:
                            if fate == "fail":
                                it.throw(OSError("injected consumer failure"))
                            break
                except OSError:
                    ctx.count("failed_epochs")
                it.close() if hasattr(it, "close") else None
                del it
                left = settle(threads0)
                ctx.check(not left, "bounds:threads", f"worker threads {left} survive the end of an epoch ({fate})")
                if pl.finished and fate == "end" and sequential:
                    files = open_data_files(d)
                    ctx.check(not files, "bounds:leaked-files", f"data files {files} still open after a complete epoch")
                    ctx.count("complete_epochs")
                else:
                    sample(f"after {fate}")
                if mode != "train" and fate != "end":
                    break
                if not scen.resumable and fate != "end":
                    break
        finally:
            ds = pl = env = it = None
        gc.collect()
        files = open_data_files(d)
        ctx.check(not files, "bounds:leaked-files", f"data files {files} still open after the stream was dropped")


def pressure_case(ctx, name, rng, i):
    """A slow consumer must not let decoded batches pile up."""
    import time
    scen = scenario.make(rng, ctx.tmp(), "batched", total=rng.randint(80, 160), sizes=[(9, 9)])
    pre, workers, B = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4]), rng.randint(1, 4)
    with ctx.case(name, dict(scen.desc, pre=pre, workers=workers)):
        ds = scen.build(drive.runtime(B, seed=rng.randrange(1 << 40)), prefetch_threads=workers, prefetch_batches=pre)
        pl = drive.planner_of(ds)
        src = ds._partitioned_stream.source
        lock, decoded, worst = threading.Lock(), [0], [0]
        delivered = [0]
        names = [n for n in ("materialize_batches_with_keys", "materialize_batches", "materialize_batch_with_keys", "materialize_batch")
                 if hasattr(src, n)]
        depth = threading.local()
        for n in names:
            def wrap(f, many):
                def g(arg):
                    if getattr(depth, "on", False):
                        return f(arg)
                    depth.on = True
                    try:
                        k = len(arg) if many else 1
                        with lock:
                            decoded[0] += k
                            worst[0] = max(worst[0], decoded[0] - delivered[0])
                        return f(arg)
                    finally:
                        depth.on = False
                return g
            setattr(src, n, wrap(getattr(src, n), "batches" in n))
        n = 0
        for env in ds:
            if n % 7 == 0:
                time.sleep(0.004)
            with lock:
                delivered[0] += 1
                ahead = decoded[0] - delivered[0]
            ctx.check(ahead <= pre, "bounds:read-ahead", f"{ahead} batches decoded ahead of the consumer, prefetch depth {pre}")
            pl.commit_batch(env.token)
            n += 1
            ctx.count("pressure_samples")
        ctx.check(worst[0] <= pre + 1, "bounds:read-ahead", f"up to {worst[0]} batches decoded ahead, prefetch depth {pre}")
        if decoded[0] != n:
            ctx.count("decode_unobservable")
        ctx.seen("pressure", pre, workers, worst[0])


def cache_case(ctx, name, rng, i):
    """Many archives: the decoded-array cache stays within the limits it reports."""
    from dataset.decoder import ProcessedNpzDecoder  # noqa: F401  (public class of the decoder module)
    d = ctx.tmp()
    scen = scenario.make(rng, d, rng.choice(["processed", "batched"]), total=rng.randint(60, 100), nfiles=rng.randint(26, 40),
                         sizes=[(9, 9)], shuffle=True)
    B = rng.randint(1, 4)
    entries, nbytes = rng.choice([1, 2, 4]), rng.choice([5_000, 40_000, 1 << 30])
    with ctx.case(name, dict(scen.desc, entries=entries, nbytes=nbytes)):
        ds = scen.build(drive.runtime(B, seed=rng.randrange(1 << 40)))
        pl = drive.planner_of(ds)
        dec = next((getattr(o, n) for o in (pl.source, ds) for n in ("decoder", "_record_decoder", "_decoder")
                    if hasattr(getattr(o, n, None), "configure_cache")), None)
        if dec is None:
            ctx.count("cache_unobservable")
            return
        dec.configure_cache(entries=entries, byte_capacity=nbytes)
        idx = scen.index()
        for env in drive.epoch(ds):
            drive.identify(ctx, env, idx)
            st = dec.cache_state()
            ctx.check(st["entries"] <= entries, "bounds:cache-entries", f"{st}")
            ctx.check(st["entries"] <= 1 or st["bytes"] <= nbytes, "bounds:cache-bytes", f"{st}")
            ctx.check(len(set(open_data_files(d))) <= 24, "bounds:open-files",
                      f"{len(set(open_data_files(d)))} of {len(scen.paths)} archives kept open")
            ctx.count("cache_samples")
            if rng.random() < 0.05:
                entries = rng.choice([1, 2, 3, 6])
                dec.configure_cache(entries=entries, byte_capacity=nbytes)


def run(ctx):
    ctx.rule = ("shuffle buffers driven step by step against a conservation model; whole streams sampled at every delivery for "
                "reservoir statistics, open data files (/proc/self/fd), live worker threads, planned and decoded read-ahead, array cache "
                "contents; epochs end, are abandoned or fail. Non-trivial: distinct samples")
    ctx.require("reservoir_histories", 40)
    ctx.require("resource_samples", 500)
    ctx.require("open_file_samples", 50)
    ctx.require("byte_samples", 30)
    ctx.require("readahead_samples", 20)
    ctx.require("pressure_samples", 100)
    ctx.require("complete_epochs", 10)
    pipes.register()
    for name, rng in ctx.cases("reservoir", 120, 3000, share=0.2):
        reservoir_case(ctx, name, rng)
    for name, rng in ctx.cases("stream", 105, 1500, share=0.5):
        stream_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("pressure", 16, 200, share=0.15):
        pressure_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("cache", 12, 150, share=0.15):
        cache_case(ctx, name, rng, int(name.split("#")[1]))
