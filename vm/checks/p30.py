"""P30: telemetry counts exactly what happened and never changes what is delivered; auto-tuning stays bounded."""
import copy
import json
import math
import os
import random
import sys
import threading
import time

import numpy as np

from .. import digest, drive, forkserver, interleave, scenario, train

EDGES_MS = [0.01, 0.025, 0.05, 0.1, 0.25, 0.5, 1, 2.5, 5, 10, 25, 50, 100, 250, 500, 1000]


def close(a, b, rel=1e-9, tol=1e-6):
    return math.isclose(a, b, rel_tol=rel, abs_tol=tol)


def telemetry():
    from dataset import telemetry as t
    return t


# ---------------------------------------------------------------- counters
def nearest_rank(values_ns, p):
    """Upper bound of the histogram bucket that holds the nearest-rank percentile, in ms."""
    if not values_ns:
        return 0.0
    v = sorted(values_ns)[max(1, math.ceil(len(values_ns) * p - 1e-9)) - 1]
    for e in EDGES_MS:
        if v <= e * 1e6 + 0.5:
            return e
    return max(values_ns) / 1e6


def snap(st, **kw):
    kw.setdefault("active_workers", 2)
    kw.setdefault("prefetch_batches", 8)
    return st.snapshot(**kw)


def latency(rng):
    return rng.choice([rng.randint(0, 30_000), int(rng.choice(EDGES_MS) * 1e6) + rng.choice([-1, 0, 1]),
                       rng.randint(10 ** 5, 10 ** 8), rng.randint(10 ** 9, 5 * 10 ** 9), 0])


def interval_case(ctx, name, rng):
    """Every interval reports exactly what was recorded since the previous one."""
    st = telemetry().PipelineStats()
    with ctx.case(name, dict()):
        for interval in range(rng.randint(2, 6)):
            dec, pre, src, h2d, cuda, queue, cache = [], [], [], [], [], [], []
            for _ in range(rng.choice([0, 1, 3, 20, 21, 60])):
                k = rng.randrange(7)
                if k == 0:
                    dec.append((latency(rng), rng.randint(0, 500), rng.randint(1, 4)))
                    st.record_decode(*dec[-1])
                elif k == 1:
                    pre.append(latency(rng))
                    st.record_prefetch_wait(pre[-1])
                elif k == 2:
                    src.append(latency(rng))
                    st.record_source_wait(src[-1])
                elif k == 3:
                    h2d.append((latency(rng), rng.randint(0, 1 << 24)))
                    st.record_h2d(*h2d[-1])
                elif k == 4:
                    cuda.append((latency(rng) / 1e6, latency(rng) / 1e6))
                    st.record_cuda_prefetch(*cuda[-1])
                elif k == 5:
                    queue.append((rng.randint(0, 64), rng.randint(0, 5), rng.randint(0, 1)))
                    st.record_queue(queue[-1][0], submitted=queue[-1][1], completed=queue[-1][2])
                else:
                    kind = rng.choice(["hit", "miss", "wait"])
                    cache.append((kind, latency(rng), kind == "miss" and rng.random() < 0.5, rng.randint(0, 2) if kind == "miss" else 0))
                    st.record_cache_access(kind, cache[-1][1], reload=cache[-1][2], evictions=cache[-1][3])
            workers, depth = rng.randint(1, 6), rng.randint(1, 64)
            cs = rng.choice([None, dict(entries=3, bytes=17, capacity_entries=6, capacity_bytes=99)])
            s = snap(st, active_workers=workers, prefetch_batches=depth, cache_state=cs)
            mean = lambda x: sum(x) / len(x) / 1e6 if x else 0.0
            rows = sum(d[1] for d in dec)
            dt = sum(d[0] for d in dec)
            kinds = [c[0] for c in cache]
            sec = s["interval/seconds"]
            want = {
                "throughput/decoded_rows_s": rows / sec,
                "latency/decode_mean_ms": mean([d[0] for d in dec]), "latency/decode_p95_ms": nearest_rank([d[0] for d in dec], .95),
                "latency/prefetch_wait_mean_ms": mean(pre), "latency/prefetch_wait_p95_ms": nearest_rank(pre, .95),
                "latency/source_wait_mean_ms": mean(src), "latency/source_wait_p95_ms": nearest_rank(src, .95),
                "transfer/h2d_launch_mean_ms": mean([h[0] for h in h2d]), "transfer/h2d_launch_p95_ms": nearest_rank([h[0] for h in h2d], .95),
                "transfer/h2d_device_mean_ms": mean([c[0] * 1e6 for c in cuda]), "transfer/h2d_device_p95_ms": nearest_rank([round(c[0] * 1e6) for c in cuda], .95),
                "latency/cuda_prefetch_exposed_wait_mean_ms": mean([c[1] * 1e6 for c in cuda]),
                "latency/cuda_prefetch_exposed_wait_p95_ms": nearest_rank([round(c[1] * 1e6) for c in cuda], .95),
                "transfer/h2d_bytes": sum(h[1] for h in h2d), "interval/h2d_batches": len(h2d),
                "prefetch/queue_depth_mean": sum(q[0] for q in queue) / max(1, len(queue)), "prefetch/queue_depth_max": max([q[0] for q in queue] or [0]),
                "prefetch/submitted_batches": sum(q[1] for q in queue), "prefetch/completed_batches": sum(q[2] for q in queue),
                "prefetch/starvation_ratio": sum(p >= 100_000 for p in pre) / max(1, len(pre)),
                "prefetch/active_workers": workers, "prefetch/configured_batches": depth,
                "cache/hits": kinds.count("hit"), "cache/misses": kinds.count("miss"), "cache/waits": kinds.count("wait"),
                "cache/reloads": sum(c[2] for c in cache), "cache/evictions": sum(c[3] for c in cache),
                "cache/hit_ratio": kinds.count("hit") / max(1, len(kinds)),
                "cache/load_mean_ms": mean([c[1] for c in cache if c[0] == "miss"]),
                "interval/decoded_batches": sum(d[2] for d in dec), "interval/cuda_prefetch_batches": len(cuda),
            }
            if dt > 0:
                want["throughput/producer_capacity_rows_s"] = rows * workers * 1e9 / dt
            ht = sum(h[0] for h in h2d)
            if ht > 0:
                want["transfer/h2d_submit_gib_s"] = sum(h[1] for h in h2d) * 1e9 / ht / 2 ** 30
            if cs:
                want.update({"cache/resident_entries": 3, "cache/resident_bytes": 17, "cache/capacity_entries": 6, "cache/capacity_bytes": 99})
            for k, v in want.items():
                ctx.check(k in s, "stats:missing", f"no {k} in the snapshot")
                ctx.check(close(s[k], v, 1e-6), f"stats:{k}", lambda: f"interval {interval}: {k} = {s[k]!r}, recorded values give {v!r}")
            ctx.check(all(isinstance(v, float) and math.isfinite(v) for v in s.values()), "stats:not-a-number",
                      lambda: f"{ {k: v for k, v in s.items() if not isinstance(v, float) or not math.isfinite(v)} }")
            ctx.count("intervals_checked")
            ctx.seen("interval", len(dec), len(pre), len(src), len(h2d), len(cache))


def stress_case(ctx, name, rng):
    """Nothing is lost or counted twice, whichever threads record and whenever snapshots are taken."""
    n = rng.choice([2, 3, 4])
    per = rng.choice([200, 500])
    with ctx.case(name, dict(threads=n, per=per)):
        born0 = time.perf_counter()
        st = telemetry().PipelineStats()
        born1 = time.perf_counter()
        plans = []
        for t in range(n):
            r = random.Random(rng.getrandbits(40))
            plans.append([(r.randrange(5), r.randint(1, 10 ** 6), r.randint(1, 99), r.randint(0, 3)) for _ in range(per)])
        snaps, spans = [], []
        stop = threading.Event()
        errors = []

        def worker(p):
            try:
                for k, ns, a, b in p:
                    if k == 0:
                        st.record_decode(ns, a, b)
                    elif k == 1:
                        st.record_h2d(ns, a)
                    elif k == 2:
                        st.record_queue(a, submitted=b, completed=1)
                    elif k == 3:
                        st.record_cache_access(("hit", "miss", "wait", "miss")[b], ns, reload=b == 3, evictions=b if b == 3 else 0)
                    else:
                        st.record_cuda_prefetch(ns / 1e6, a)
            except Exception as e:
                errors.append(e)

        def snapper():
            try:
                while not stop.is_set():
                    t0 = time.perf_counter()
                    snaps.append(snap(st))
                    spans.append((t0, time.perf_counter()))
                    time.sleep(0)
            except Exception as e:
                errors.append(e)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=worker, args=(p,)) for p in plans]
            sn = threading.Thread(target=snapper)
            [t.start() for t in ts + [sn]]
            [t.join(120) for t in ts]
            stop.set()
            sn.join(120)
        finally:
            sys.setswitchinterval(old)
        ctx.check(not errors, "stress:error", lambda: f"{type(errors[0]).__name__}: {errors[0]}")
        t0 = time.perf_counter()
        snaps.append(snap(st))
        spans.append((t0, time.perf_counter()))
        total = lambda f: sum(f(s) for s in snaps)
        ev = [x for p in plans for x in p]
        of = lambda k: [x for x in ev if x[0] == k]
        want = {
            "decoded batches": (sum(x[3] for x in of(0)), total(lambda s: s["interval/decoded_batches"])),
            "decoded rows": (sum(x[2] for x in of(0)), total(lambda s: s["throughput/decoded_rows_s"] * s["interval/seconds"])),
            "h2d batches": (len(of(1)), total(lambda s: s["interval/h2d_batches"])),
            "h2d bytes": (sum(x[2] for x in of(1)), total(lambda s: s["transfer/h2d_bytes"])),
            "h2d time": (sum(x[1] for x in of(1)), total(lambda s: s["transfer/h2d_launch_mean_ms"] * s["interval/h2d_batches"]) * 1e6),
            "submitted": (sum(x[3] for x in of(2)), total(lambda s: s["prefetch/submitted_batches"])),
            "completed": (len(of(2)), total(lambda s: s["prefetch/completed_batches"])),
            "deepest queue": (max([x[2] for x in of(2)] or [0]), max(s["prefetch/queue_depth_max"] for s in snaps)),
            "cache hits": (sum(x[3] == 0 for x in of(3)), total(lambda s: s["cache/hits"])),
            "cache misses": (sum(x[3] in (1, 3) for x in of(3)), total(lambda s: s["cache/misses"])),
            "cache waits": (sum(x[3] == 2 for x in of(3)), total(lambda s: s["cache/waits"])),
            "cache reloads": (sum(x[3] == 3 for x in of(3)), total(lambda s: s["cache/reloads"])),
            "cache evictions": (3 * sum(x[3] == 3 for x in of(3)), total(lambda s: s["cache/evictions"])),
            "load time": (sum(x[1] for x in of(3) if x[3] in (1, 3)), total(lambda s: s["cache/load_mean_ms"] * s["cache/misses"]) * 1e6),
            "device copies": (len(of(4)), total(lambda s: s["interval/cuda_prefetch_batches"])),
            "copy time": (sum(x[1] for x in of(4)), total(lambda s: s["transfer/h2d_device_mean_ms"] * s["interval/cuda_prefetch_batches"]) * 1e6),
            "exposed wait": (sum(x[2] for x in of(4)), total(lambda s: s["latency/cuda_prefetch_exposed_wait_mean_ms"] * s["interval/cuda_prefetch_batches"])),
        }
        for k, (a, b) in want.items():
            ctx.check(close(a, b, 1e-6, 1e-3), "stress:conservation", lambda: f"{n} threads, {len(snaps)} snapshots: {k}: {a} recorded, {b} reported")
        covered = total(lambda s: s["interval/seconds"])
        lo, hi = spans[-1][0] - born1, spans[-1][1] - born0
        ctx.check(lo - 1e-3 <= covered <= hi + 1e-3, "stress:time", f"intervals add up to {covered} s, {lo}..{hi} s passed")
        ctx.count("records_stressed", len(ev))
        ctx.count("snapshots_under_stress", len(snaps))
        ctx.seen("stress", n, per, len(snaps) // 4)


def ranks_case(ctx, name, rng):
    """The distributed summary uses the slowest producer and the largest exposed wait."""
    t = telemetry()
    with ctx.case(name, dict()):
        snaps = []
        for _ in range(rng.randint(1, 5)):
            st = t.PipelineStats()
            for _ in range(rng.randint(0, 8)):
                st.record_decode(rng.randint(1, 10 ** 8), rng.randint(1, 300), 1)
                st.record_source_wait(rng.randint(0, 10 ** 8))
                st.record_h2d(rng.randint(0, 10 ** 8), rng.randint(0, 10 ** 6))
            if rng.random() < 0.4:
                st.record_cuda_prefetch(rng.random(), rng.choice([0.0, rng.random() * 50]))
            snaps.append(snap(st))
        rate, rows = rng.choice([0.5, 3.7, 1000.0]), rng.choice([1, 8, 4096])
        agg = t.aggregate_pipeline_snapshots(copy.deepcopy(snaps), consumer_batches_s=rate, rows_per_batch=rows)
        for k in snaps[0]:
            ctx.check(close(agg[k], sum(s[k] for s in snaps) / len(snaps)), "ranks:mean", lambda: f"{k}: {agg[k]} for {[s[k] for s in snaps]}")
        cap = min(s["throughput/producer_capacity_rows_s"] for s in snaps)
        wait = max(s["latency/source_wait_p95_ms"] + (s["latency/cuda_prefetch_exposed_wait_p95_ms"] if s["interval/cuda_prefetch_batches"] > 0
                                                       else s["transfer/h2d_launch_p95_ms"]) for s in snaps)
        for k, v in (("producer_headroom", cap / (rate * rows)), ("data_wait_fraction", wait * rate / 1000), ("throughput/consumer_rows_s", rate * rows),
                     ("distributed/rank_count", len(snaps)), ("distributed/producer_capacity_min_rows_s", cap),
                     ("distributed/exposed_data_wait_p95_max_ms", wait)):
            ctx.check(close(agg[k], v), f"ranks:{k}", lambda: f"{k} = {agg[k]}, the ranks' values give {v}")
        if len(snaps) > 1:
            bad = [dict(s) for s in snaps]
            bad[-1].pop("cache/hits")
            try:
                t.aggregate_pipeline_snapshots(bad, consumer_batches_s=rate, rows_per_batch=rows)
            except ValueError:
                pass
            else:
                ctx.fail("ranks:schema", "ranks that report different metrics are aggregated")
        ctx.count("summaries_checked")
        ctx.seen("ranks", len(snaps), rate, rows)


# ---------------------------------------------------------------- delivery
class Loads:
    """Counts what the decoder really loads, per data set built while it is active."""

    def __init__(self):
        self.lock = threading.Lock()
        self.calls = self.loads = self.active = self.max_active = 0
        self.paths = set()

    def __enter__(self):
        from dataset.decoder import ProcessedNpzDecoder
        self.cls, self.obs = ProcessedNpzDecoder, getattr(telemetry(), "ObservedProcessedNpzDecoder", None)
        self.ok = hasattr(self.cls, "_load_uncached") and self.obs is not None and hasattr(self.obs, "_load")
        if not self.ok:
            return self
        self.o1, self.o2 = self.cls._load_uncached, self.obs._load
        self.own = "_load" in vars(self.obs)

        def uncached(dec, path, *a, **k):
            with self.lock:
                self.active += 1
                self.max_active = max(self.max_active, self.active)
            try:
                time.sleep(random.random() * 0.002)
                out = self.o1(dec, path, *a, **k)
            finally:
                with self.lock:
                    self.active -= 1
            with self.lock:
                self.loads += 1
                self.paths.add(os.path.abspath(path))
            return out

        def load(dec, *a, **k):
            with self.lock:
                self.calls += 1
            return self.o2(dec, *a, **k)
        self.cls._load_uncached = uncached
        self.obs._load = load
        return self

    def __exit__(self, *exc):
        if self.ok:
            self.cls._load_uncached = self.o1
            if self.own:
                self.obs._load = self.o2
            else:
                del self.obs._load


def sums(acc, s):
    for k in ("interval/decoded_batches", "prefetch/submitted_batches", "prefetch/completed_batches", "cache/hits", "cache/misses", "cache/waits",
              "cache/reloads", "cache/evictions"):
        acc[k] = acc.get(k, 0) + s[k]
    acc["rows"] = acc.get("rows", 0) + s["throughput/decoded_rows_s"] * s["interval/seconds"]
    acc["depth"] = max(acc.get("depth", 0), s["prefetch/queue_depth_max"])
    return acc


def metrics(rng):
    return {"producer_headroom": rng.choice([0.0, 0.5, 1.4, 1.6, 3.5, 100.0]), "data_wait_fraction": rng.choice([0.0, 0.01, 0.5, 3.0]),
            "prefetch/queue_depth_mean": rng.choice([0.0, 3.0, 40.0]), "cache/reloads": rng.choice([0.0, 0.0, 2.0])}


def delivery_case(ctx, name, rng):
    d = ctx.tmp()
    scen = scenario.make(rng, d, "batched", total=rng.randint(30, 160), sample_rate=rng.choice([1.0, 1.0, 0.7]), nfiles=rng.randint(2, 9))
    B = max(1, (scenario.batch_for(rng, scen, cap=12) or 1) // (1 if scen.kw["sample_rate"] == 1.0 else 3))
    seed, mode = rng.randrange(1 << 40), rng.choice(["train", "train", "validate"])

    def consume(ds, act=None):
        out = []
        for e in range(2):
            if hasattr(ds, "set_epoch"):
                ds.set_epoch(e)
            elif hasattr(ds, "_partitioned_stream") and hasattr(ds._partitioned_stream, "set_epoch"):
                ds._partitioned_stream.set_epoch(e)
            for env in drive.epoch(ds):
                out.append((digest.envelope(env), int(np.asarray(env.is_real).sum()), len(env.is_real)))
                if act:
                    act(len(out))
        return out

    with ctx.case(name, dict(scen.desc, B=B, mode=mode)):
        base = consume(scen.build(drive.runtime(B, seed=seed, mode=mode), prefetch_threads=0))
        # metrics only: every counter is accounted for
        with Loads() as loads, interleave.shaken(rng):
            v = dict(prefetch_threads=rng.choice([0, 1, 2, 4, 6]), prefetch_batches=rng.choice([1, 2, 7, 40]), observability=rng.choice([True, {"enabled": True}]))
            ds = scen.build(drive.runtime(B, seed=seed, mode=mode), **v)
            drive.planner_of(ds)
            acc = sums({}, ds.pipeline_metrics_snapshot())
            dec = getattr(ds, "_record_decoder", None)
            cap = rng.choice([1, 2, 3, 6])
            dropped = 0
            if dec is not None and hasattr(dec, "_array_cache_values"):
                before = len(dec._array_cache_values)
                dec.configure_cache(entries=cap, byte_capacity=rng.choice([1, 5000, 1 << 30]))
                dropped = before - len(dec._array_cache_values)
            slow = rng.random() < 0.5

            def act(i):
                if slow and rng.random() < 0.3:
                    time.sleep(0.002)
                if rng.random() < 0.3:
                    sums(acc, ds.pipeline_metrics_snapshot())
            got = consume(ds, act)
            sums(acc, ds.pipeline_metrics_snapshot())
        ctx.check(got == base, "delivery:observed", lambda: f"metrics change what is delivered under {v}")
        what = f"{v}, cache of {cap} files, {len(scen.paths)} files"
        ctx.check(acc["interval/decoded_batches"] == len(got), "delivery:decoded", f"{what}: {acc['interval/decoded_batches']} batches reported decoded, {len(got)} delivered")
        ctx.check(close(acc["rows"], sum(g[2] for g in got), 1e-6, 1e-3) or close(acc["rows"], sum(g[1] for g in got), 1e-6, 1e-3), "delivery:rows",
                  f"{what}: {acc['rows']} rows reported decoded, {sum(g[2] for g in got)} delivered")
        if v["prefetch_threads"] and not scen.kw.get("batch_pipelines"):
            ctx.check(acc["prefetch/submitted_batches"] == acc["prefetch/completed_batches"] == len(got), "delivery:queue",
                      f"{what}: {acc['prefetch/submitted_batches']} submitted, {acc['prefetch/completed_batches']} completed, {len(got)} delivered")
            ctx.check(acc["depth"] <= v["prefetch_batches"], "delivery:depth", f"{what}: {acc['depth']} batches queued")
            ctx.count("queues_accounted")
        if loads.ok and loads.calls:
            ctx.check(acc["cache/hits"] + acc["cache/misses"] + acc["cache/waits"] == loads.calls, "delivery:cache-accesses",
                      f"{what}: {acc} for {loads.calls} accesses")
            ctx.check(acc["cache/misses"] == loads.loads, "delivery:cache-misses", f"{what}: {acc['cache/misses']} misses, {loads.loads} files loaded")
            ctx.check(acc["cache/reloads"] == loads.loads - len(loads.paths), "delivery:cache-reloads",
                      f"{what}: {acc['cache/reloads']} reloads, {loads.loads} loads of {len(loads.paths)} files")
            if dec is not None and hasattr(dec, "_array_cache_values"):
                left = len(dec._array_cache_values)
                ctx.check(acc["cache/evictions"] == loads.loads - left - dropped, "delivery:cache-evictions",
                          f"{what}: {acc['cache/evictions']} evictions, {loads.loads} loads, {left} files resident, {dropped} dropped by a new limit")
            ctx.count("cache_accounted")
            ctx.count("cache_evictions", int(acc["cache/evictions"]))
            ctx.count("concurrent_loads", int(loads.max_active > 1))
        else:
            ctx.count("unobservable_cache")
        # auto-tuning with erratic measurements
        lim = dict(max_prefetch_threads=rng.choice([1, 3, 5]), max_prefetch_batches=rng.choice([1, 4, 24]),
                   host_cache_budget_bytes=rng.choice([1, 6000, 1 << 20, 1 << 31]), warmup_iterations=rng.choice([0, 2]), verify_iterations=rng.choice([0, 1]),
                   decision_interval=rng.choice([1, 1, 3]), freeze_after=rng.choice([5, 10 ** 6]), cache_dir=str(d / "profiles"),
                   respect_explicit=False, reuse=rng.choice(["off", "exact", "compatible"]))
        v = dict(prefetch_threads=rng.choice([1, 2, 4]), prefetch_batches=rng.choice([1, 2, 8]), autotune=lim)
        broken = rng.random() < 0.3
        if broken:
            (d / "file").write_text("x")
            lim["cache_dir"] = rng.choice([str(d / "file"), str(d / "file" / "below")])
        with interleave.shaken(rng):
            ds = scen.build(drive.runtime(B, seed=seed, mode=mode), **v)
            drive.planner_of(ds)
            old = []
            settings = []
            rec = d / "rec"
            if hasattr(ds, "attach_pipeline_run_dir"):
                ds.attach_pipeline_run_dir(str(rec))
            acc = sums({}, ds.pipeline_metrics_snapshot())

            def act(i):
                state = ds.pipeline_tuning_update(metrics(rng), i)
                cur = ds.pipeline_tuning_state_dict()
                settings.append(cur["settings"])
                if state is not None and rng.random() < 0.5:
                    old.append(json.loads(json.dumps(cur)))
                if old and rng.random() < 0.1:
                    ds.load_pipeline_tuning_state_dict(rng.choice(old))
                    settings.append(ds.pipeline_tuning_state_dict()["settings"])
                if rng.random() < 0.2:
                    sums(acc, ds.pipeline_metrics_snapshot())
            got = consume(ds, act)
            sums(acc, ds.pipeline_metrics_snapshot())
        ctx.check(got == base, "delivery:tuned", lambda: f"auto-tuning changes what is delivered under {v}")
        for s in settings:
            ctx.check(1 <= s["prefetch_threads"] <= lim["max_prefetch_threads"] and 1 <= s["prefetch_batches"] <= lim["max_prefetch_batches"]
                      and s["cache_entries"] >= 1 and 1 <= s["cache_bytes"] <= lim["host_cache_budget_bytes"], "delivery:limits", f"{s} outside {lim}")
        ctx.check(acc["interval/decoded_batches"] == acc["prefetch/submitted_batches"] == acc["prefetch/completed_batches"] == len(got), "delivery:tuned-count",
                  f"{acc} for {len(got)} delivered batches under {v}")
        ctx.check(acc["depth"] <= lim["max_prefetch_batches"], "delivery:tuned-depth", f"{acc['depth']} batches queued, {lim}")
        r = json.loads((rec / "pipeline_tuning.json").read_text())
        cur = ds.pipeline_tuning_state_dict()
        ctx.check(r["resolved"] == cur["settings"] and r["decisions"] == cur["decisions"] and r["frozen"] == cur["frozen"], "delivery:record",
                  lambda: f"the run record {r} differs from the state {cur}")
        if broken and cur["frozen"]:
            ctx.count("frozen_without_cache")
        ctx.count("deliveries_compared", 2)
        ctx.count("settings_seen", len({str(s) for s in settings}))
        ctx.seen(scen.kind, B, str(v), len({str(s) for s in settings}))


def gate_case(ctx, name, rng):
    """The concurrency gate never lets more calls run than its limit and never forgets to wake a caller."""
    t = telemetry()
    if not hasattr(t, "_AdjustableConcurrencyGate"):
        ctx.count("unobservable_gate")
        return
    with ctx.case(name, dict()):
        first = rng.randint(1, 4)
        gate = t._AdjustableConcurrencyGate(first)
        lock = threading.Lock()
        limits, active, over = [first], [0], []
        total = rng.randint(20, 60)
        done = []

        def call(i, fail):
            with lock:
                active[0] += 1
                # a limit lowered since admission only binds later calls: admissible is the largest limit in force since this call was made
                if active[0] > max(limits[starts[i]:]):
                    over.append((active[0], limits[starts[i]:]))
            time.sleep(random.random() * 0.001)
            with lock:
                active[0] -= 1
            if fail:
                raise KeyError(i)
            return i * 3

        starts = {}

        def worker(items):
            for i in items:
                with lock:
                    starts[i] = len(limits) - 1
                fail = i % 7 == 3
                try:
                    r = gate.run(call, i, fail)
                    done.append((i, r == i * 3 and not fail))
                except KeyError:
                    done.append((i, fail))
        n = rng.randint(3, 6)
        ts = [threading.Thread(target=worker, args=(range(k, total, n),), daemon=True) for k in range(n)]
        [x.start() for x in ts]
        while any(x.is_alive() for x in ts) and len(limits) < 400:
            v = rng.randint(1, 5)
            with lock:
                limits.append(v)
            gate.set_limit(v)
            with lock:
                # only from here on does the new limit bind
                limits.append(v)
            time.sleep(rng.random() * 0.002)
        [x.join(60) for x in ts]
        ctx.check(not any(x.is_alive() for x in ts), "gate:stuck", f"{len(done)} of {total} calls finished, limits {limits[-6:]}")
        ctx.check(not over, "gate:limit", lambda: f"{over[0][0]} calls ran at once, limits in force {over[0][1]}")
        ctx.check(sorted(i for i, ok in done if ok) == list(range(total)), "gate:result", "a call's result or failure was changed")
        ctx.count("gate_calls", total)
        ctx.seen("gate", n, total, len(limits) // 8)


# ---------------------------------------------------------------- tuner
def make_tuner(ctx, rng, cache_dir, **over):
    t = telemetry()
    cfg = dict(reuse=rng.choice(["off", "exact", "compatible"]), warmup_iterations=rng.choice([0, 5, 20]), verify_iterations=rng.choice([0, 4, 9]),
               decision_interval=rng.choice([1, 3, 10]), freeze_after=rng.choice([1, 30, 80, 10 ** 6]), target_producer_headroom=rng.choice([0.5, 1.5, 4]),
               max_data_wait_fraction=rng.choice([0, 0.02, 1]), max_prefetch_threads=rng.choice([1, 2, 6]), max_prefetch_batches=rng.choice([1, 5, 64]),
               host_cache_budget_bytes=rng.choice([1, 10 ** 6, 2 ** 31]), cache_dir=cache_dir)
    cfg.update(over)
    kw = dict(initial_workers=rng.randint(1, cfg["max_prefetch_threads"]), initial_prefetch_batches=rng.randint(1, cfg["max_prefetch_batches"]),
              initial_cache_entries=rng.choice([1, 6]), initial_cache_bytes=rng.choice([1, 1152 * 2 ** 20]), exact_key="e" * 64, compatible_key="c" * 64,
              locked_options=rng.choice([(), ("prefetch_threads",), ("prefetch_batches",), ("prefetch_threads", "prefetch_batches")]))
    return cfg, kw, lambda: t.PipelineAutotuner(t.PipelineAutotuneConfig.parse(dict(cfg)), **kw)


def within(s, cfg):
    return (1 <= s["prefetch_threads"] <= cfg["max_prefetch_threads"] and 1 <= s["prefetch_batches"] <= cfg["max_prefetch_batches"]
            and s["cache_entries"] >= 1 and 1 <= s["cache_bytes"] <= cfg["host_cache_budget_bytes"] and all(type(v) is int for v in s.values()))


def state_of(tn):
    return json.loads(json.dumps(tn.state_dict()))


def groups(s):
    return {"prefetch_threads": s["prefetch_threads"], "prefetch_batches": s["prefetch_batches"], "cache": (s["cache_entries"], s["cache_bytes"])}


def tuner_case(ctx, name, rng):
    d = ctx.tmp()
    cfg, kw, mk = make_tuner(ctx, rng, str(d / "cache"))
    with ctx.case(name, dict(cfg={k: v for k, v in cfg.items() if k != "cache_dir"}, locked=kw["locked_options"])):
        if rng.random() < 0.6:
            seeded = dict(prefetch_threads=rng.choice([1, 3, 50]), prefetch_batches=rng.choice([1, 9, 500]), cache_entries=rng.choice([1, 4]), cache_bytes=rng.choice([1, 2 ** 40]))
            telemetry().PipelineProfileStore(str(d / "cache")).save(dict(schema=telemetry().PIPELINE_TUNING_SCHEMA, exact_key=rng.choice(["e", "f"]) * 64,
                                                                         compatible_key="c" * 64, resolved=seeded))
        tn = mk()
        locked = set(kw["locked_options"])
        first = dict(prefetch_threads=kw["initial_workers"], prefetch_batches=kw["initial_prefetch_batches"])
        tn.attach_run_dir(str(d / "run"))
        twin = None
        it = rng.choice([0, 0, 777])
        start = it
        changed_at = None
        prev = state_of(tn)
        ctx.check(within(prev["settings"], cfg), "tuner:limits", f"initially {prev['settings']}")
        reused = prev["reused"]
        health = rng.choice([None, True, False, False])
        still = 0
        for step in range(rng.choice([10, 60, 150])):
            if prev["frozen"]:
                still += 1
                if still > 8:
                    break
            m = metrics(rng)
            if rng.random() < 0.06:
                health = rng.choice([None, True, False])
            if health is not None:
                m.update(producer_headroom=rng.choice([cfg["target_producer_headroom"], 1000.0]) if health else 0.0, data_wait_fraction=0.0 if health else 5.0)
            out = tn.update(dict(m), it)
            cur = state_of(tn)
            what = f"iteration {it} (started {start}), {m}: {prev['settings']} -> {cur['settings']}"
            if out is not None:
                ctx.check(json.loads(json.dumps(out)) == cur, "tuner:returned", f"{what}: update returns another state")
            ctx.check(within(cur["settings"], cfg), "tuner:limits", what)
            for o in locked:
                ctx.check(cur["settings"][o] == first[o], "tuner:locked", f"{what}: {o} is explicit ({first[o]})")
            a, b = groups(prev["settings"]), groups(cur["settings"])
            diff = [k for k in a if a[k] != b[k]]
            ctx.check(len(diff) <= 1, "tuner:one-option", what)
            new = cur["decisions"][len(prev["decisions"]):]
            ctx.check(cur["decisions"][:len(prev["decisions"])] == prev["decisions"], "tuner:history", f"{what}: earlier decisions were rewritten")
            ctx.check(all(n["iteration"] == it for n in new), "tuner:decision-time", f"{what}: {new}")
            healthy = m["producer_headroom"] >= cfg["target_producer_headroom"] and m["data_wait_fraction"] <= cfg["max_data_wait_fraction"]
            if diff:
                ctx.count("adjustments")
                ctx.check(not prev["frozen"], "tuner:frozen", f"{what}: settings move after the freeze")
                ctx.check(changed_at is None or it - changed_at >= cfg["decision_interval"], "tuner:cooldown", f"{what}: previous change at {changed_at}")
                ctx.check(it - start >= (cfg["verify_iterations"] if reused else cfg["warmup_iterations"]), "tuner:warmup", what)
                up = all(cur["settings"][k] >= prev["settings"][k] for k in cur["settings"])
                ctx.check(up != healthy, "tuner:direction", f"{what}: {'healthy' if healthy else 'unhealthy'} yet the settings went {'up' if up else 'down'}")
                if healthy:
                    ctx.check(m["producer_headroom"] >= 2 * cfg["target_producer_headroom"], "tuner:margin", what)
                if "cache" in diff:
                    ctx.check(m["cache/reloads"] > 0, "tuner:cache", what)
                adj = [n for n in new if n["action"] == "adjust"]
                ctx.check(len(adj) == 1 and adj[0]["before"] == prev["settings"] and adj[0]["after"] == cur["settings"] and adj[0]["reason"], "tuner:decision", f"{what}: {new}")
                changed_at = it
            if prev["frozen"]:
                ctx.check(cur == prev, "tuner:frozen", f"{what}: the state moves after the freeze")
            elif cur["frozen"]:
                fz = [n for n in new if n["action"] == "freeze"]
                ctx.check(len(fz) == 1 and fz[0]["reason"], "tuner:freeze", f"{what}: {new}")
                ctx.check(healthy or it - start >= cfg["freeze_after"], "tuner:freeze", f"{what}: frozen without reason")
                ctx.count("freezes")
                if cfg["reuse"] != "off":
                    rec, kind = telemetry().PipelineProfileStore(str(d / "cache")).load("e" * 64, "x", "exact")
                    ctx.check(kind == "exact" and rec["resolved"] == cur["settings"] and rec["frozen"] is True, "tuner:profile", f"{what}: saved profile {rec}")
            due = prev["last_decision_iteration"] is None or it - prev["last_decision_iteration"] >= cfg["decision_interval"]
            obs = cfg["verify_iterations"] if prev["reused"] else cfg["warmup_iterations"]
            if not prev["frozen"] and due and it - start >= max(cfg["freeze_after"], obs):
                ctx.check(cur["frozen"], "tuner:bounded", f"{what}: still tuning after freeze_after {cfg['freeze_after']}")
            if prev["reused"] and not cur["reused"]:
                ctx.check(not healthy, "tuner:invalidated", f"{what}: a healthy profile was given up")
            if new:
                rec = json.loads((d / "run" / "pipeline_tuning.json").read_text())
                if any(n["action"] in ("adjust", "freeze") for n in new):
                    ctx.check(rec["resolved"] == cur["settings"] and rec["decisions"] == cur["decisions"] and rec["frozen"] == cur["frozen"], "tuner:record", f"{what}: run record {rec}")
            if twin is not None:
                t2 = twin.update(dict(m), it)
                ctx.check((t2 is None) == (out is None) and state_of(twin) == cur, "tuner:restore",
                          lambda: f"{what}: a restored controller is at {state_of(twin)}")
                ctx.count("twin_steps")
            elif rng.random() < 0.1:
                cfg2, kw2, _ = make_tuner(ctx, rng, str(d / "other"), **{k: v for k, v in cfg.items() if k != "cache_dir"})
                t = telemetry()
                kw2.update(locked_options=kw["locked_options"])
                twin = t.PipelineAutotuner(t.PipelineAutotuneConfig.parse(cfg2), **kw2)
                for bad in (dict(cur, exact_key="z"), dict(cur, compatible_key="z"), dict(cur, schema="pipeline-tuning-v0"), [], dict(cur, settings={}),
                            dict(cur, settings=dict(cur["settings"], extra=1))):
                    was = state_of(twin)
                    try:
                        twin.load_state_dict(copy.deepcopy(bad))
                    except ValueError:
                        ctx.count("states_refused")
                    else:
                        ctx.fail("tuner:foreign-state", f"{bad} accepted")
                    ctx.check(state_of(twin) == was, "tuner:partial-state", "a refused state changed the controller")
                twin.load_state_dict(copy.deepcopy(cur))
                ctx.check(state_of(twin) == cur, "tuner:restore", lambda: f"restoring {cur} gives {state_of(twin)}")
                ctx.count("states_restored")
            prev = cur
            it += rng.choice([1, 1, 2, 7, 25])
        ctx.count("tuner_steps", step + 1)
        ctx.seen("tuner", str(prev["settings"]), len(prev["decisions"]), prev["frozen"], reused)


# ---------------------------------------------------------------- profile store
def rec_for(rng, exact, compat):
    return dict(schema=telemetry().PIPELINE_TUNING_SCHEMA, exact_key=exact, compatible_key=compat,
                resolved=dict(prefetch_threads=rng.randint(1, 9), prefetch_batches=rng.randint(1, 99)), tag=rng.getrandbits(40))


JUNK = [b"", b"{", b"[]", b"null", b'{"schema": 1}', b"\xff\xfe", b'"x"', b"{}" * 3]


def store_case(ctx, name, rng):
    t = telemetry()
    d = ctx.tmp()
    cap = rng.choice([1, 3, 5])
    with ctx.case(name, dict(cap=cap)):
        st = t.PipelineProfileStore(str(d / "a" / "b"), max_entries=cap)
        home = d / "a" / "b"
        keys = ["%064x" % rng.getrandbits(256) for _ in range(7)]
        compats = ["c0", "c1"]
        have = {}       # key -> (mtime, record or None when damaged)
        foreign = {}
        clock = [10 ** 9]

        def stamp(k):
            clock[0] += 10
            os.utime(home / f"{k}.json", (clock[0], clock[0]))
            return clock[0]

        for _ in range(60):
            op = rng.choice(["save", "save", "load", "load", "load", "junk", "drop", "foreign", "badsave"])
            k = rng.choice(keys)
            if op == "save":
                r = rec_for(rng, k, rng.choice(compats))
                st.save(copy.deepcopy(r))
                keep = sorted((x for x in have if x != k), key=lambda x: -have[x][0])[:cap - 1]
                have = {x: have[x] for x in keep}
                ctx.check((home / f"{k}.json").exists(), "store:lost", "the profile just saved is gone")
                have[k] = (stamp(k), r)
            elif op == "junk" and k in have:
                rr = rng.choice(JUNK + [json.dumps(dict(have[k][1] or {}, schema="v0")).encode(), json.dumps(dict(have[k][1] or {}, resolved=[])).encode()])
                (home / f"{k}.json").write_bytes(rr)
                have[k] = (stamp(k), None)
            elif op == "drop" and k in have:
                (home / f"{k}.json").unlink()
                del have[k]
            elif op == "foreign" and home.is_dir():
                f = rng.choice(["notes.txt", "abc.json", keys[0][:-1] + ".json", "x" * 64 + ".json"])
                foreign[f] = json.dumps(rec_for(rng, k, "c0"))
                (home / f).write_text(foreign[f])
            elif op == "badsave":
                try:
                    st.save(rng.choice([{}, dict(rec_for(rng, k, "c0"), schema="v0"), dict(rec_for(rng, k, "c0"), resolved=None)]))
                except ValueError:
                    pass
                else:
                    ctx.fail("store:bad-record", "an invalid profile was saved")
            elif op == "load":
                mode = rng.choice(["off", "exact", "compatible"])
                c = rng.choice(compats + ["c9"])
                rec, kind = st.load(k, c, mode)
                ctx.count("loads")
                whole = k in have and have[k][1] is not None
                if mode == "off":
                    ctx.check(rec is None, "store:off", f"reuse off returns {rec}")
                elif whole:
                    ctx.check(kind == "exact" and rec == have[k][1], "store:exact", f"{kind} {rec} instead of {have[k][1]}")
                elif mode == "exact":
                    ctx.check(rec is None, "store:exact", f"{kind} {rec} for a key that was not saved")
                else:
                    fits = sorted((x for x in have if have[x][1] is not None and have[x][1]["compatible_key"] == c), key=lambda x: -have[x][0])
                    if k not in have:
                        want = have[fits[0]][1] if fits else None
                        ctx.check(rec == want and kind == ("compatible" if fits else None), "store:compatible", f"{kind} {rec} instead of {want}")
                    else:
                        ctx.check(rec is None or (kind == "compatible" and rec in [have[x][1] for x in fits]), "store:compatible", f"{kind} {rec}")
            if home.is_dir():
                names = set(os.listdir(home))
                ctx.check(names == {f"{x}.json" for x in have} | set(foreign), "store:files",
                          lambda: f"after {op}: {sorted(names ^ ({f'{x}.json' for x in have} | set(foreign)))} differ (limit {cap})")
                for f, txt in foreign.items():
                    ctx.check((home / f).read_text() == txt, "store:foreign", f"{f} was changed")
            ctx.count("store_ops")
        ctx.seen("store", cap, len(have), len(foreign))


def damaged_case(ctx, name, rng):
    """A damaged, foreign or hostile profile never keeps a controller from being built within its limits."""
    t = telemetry()
    d = ctx.tmp()
    cfg, kw, mk = make_tuner(ctx, rng, str(d), reuse=rng.choice(["exact", "compatible"]))
    junk = [None, "x", "3", "", [], {}, float("inf"), float("nan"), -5, 0, 10 ** 30, 2.7, True, {"a": 1}]
    with ctx.case(name, dict(locked=kw["locked_options"])):
        res = {k: rng.choice(junk + [2, 3]) for k in ("prefetch_threads", "prefetch_batches", "cache_entries", "cache_bytes") if rng.random() < 0.9}
        if rng.random() < 0.3:
            res["unknown"] = rng.choice(junk)
        rec = dict(schema=t.PIPELINE_TUNING_SCHEMA, exact_key="e" * 64, compatible_key="c" * 64, resolved=res)
        (d / ("e" * 64 + ".json")).write_text(json.dumps(rec))
        try:
            tn = mk()
        except Exception as e:
            ctx.fail("store:damaged-profile", f"a cached profile with {res} stops the data set: {type(e).__name__}: {e}")
        s = state_of(tn)
        ctx.check(within(s["settings"], cfg) and set(s["settings"]) == {"prefetch_threads", "prefetch_batches", "cache_entries", "cache_bytes"},
                  "store:damaged-limits", f"profile {res}: {s['settings']}")
        for i in range(5):
            tn.update(metrics(rng), i * 1000)
        ctx.check(within(state_of(tn)["settings"], cfg), "store:damaged-limits", f"profile {res}: {s['settings']}")
        ctx.count("damaged_profiles")
        ctx.seen("damaged", str(res))


def shared_case(ctx, name, rng):
    """Several runs use one profile directory at the same time."""
    t = telemetry()
    d = ctx.tmp() / "shared"
    n = rng.choice([2, 3, 4])
    errors, loaded = [], [0]
    with ctx.case(name, dict(threads=n)):
        keys = [["%064x" % rng.getrandbits(256) for _ in range(4)] for _ in range(n)]
        seeds = [rng.getrandbits(40) for _ in range(n)]
        old = sys.getswitchinterval()

        def run(i):
            r = random.Random(seeds[i])
            st = t.PipelineProfileStore(str(d), max_entries=2)
            for _ in range(40):
                k = r.choice(keys[i])
                try:
                    if r.random() < 0.5:
                        st.save(rec_for(r, k, "c"))
                    else:
                        rec, kind = st.load(k if r.random() < 0.5 else "0" * 64, "c", "compatible")
                        if rec is not None:
                            loaded[0] += 1
                            if not (rec["compatible_key"] == "c" and kind in ("exact", "compatible") and isinstance(rec["tag"], int)):
                                errors.append(f"loaded {kind} {rec}")
                except Exception as e:
                    errors.append(f"{type(e).__name__}: {e}")
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
            [x.start() for x in ts]
            [x.join(120) for x in ts]
        finally:
            sys.setswitchinterval(old)
        ctx.check(not errors, "store:shared", lambda: f"{n} users of one profile directory: {errors[0]}")
        left = [f for f in os.listdir(d) if f.endswith(".tmp")]
        ctx.check(not left, "store:leftover", f"temporary files left: {left}")
        ctx.count("shared_operations", n * 40)
        ctx.count("shared_loads", loaded[0])
        ctx.seen("shared", n, loaded[0] // 10)


# ---------------------------------------------------------------- options and keys
def config_case(ctx, name, rng):
    """Whatever options are accepted, a controller built from them works."""
    t = telemetry()
    d = ctx.tmp()
    vals = {"enabled": [True, False, "yes", 1, None], "reuse": ["off", "exact", "compatible", "no", None, True], "warmup_iterations": [0, 3, -1, 1.5, "3", True, None],
            "verify_iterations": [0, 3, -1, "3"], "decision_interval": [1, 4, 0, -2, "1"], "freeze_after": [1, 9, 0, 2.5],
            "target_producer_headroom": [1.5, 2, 0, -1, float("nan"), float("inf"), "1.5", "2e0", "x", None],
            "max_data_wait_fraction": [0, 0.02, 1, 1.1, -0.1, float("nan"), "2e-2", "x", None], "max_prefetch_threads": [1, 3, 0, "2"],
            "max_prefetch_batches": [1, 9, 0, None], "host_cache_budget_bytes": [1, 2 ** 20, 0, 1.5], "respect_explicit": [True, False, "no", 1],
            "cache_dir": [str(d / "c"), 5, ["x"]], "unknown": [1]}
    good = {"enabled": 2, "reuse": 3, "warmup_iterations": 2, "verify_iterations": 2, "decision_interval": 2, "freeze_after": 2, "target_producer_headroom": 2,
            "max_data_wait_fraction": 3, "max_prefetch_threads": 2, "max_prefetch_batches": 2, "host_cache_budget_bytes": 2, "respect_explicit": 2, "cache_dir": 1, "unknown": 0}
    with ctx.case(name, dict()):
        for _ in range(25):
            opts = {k: rng.choice(v[:good[k]]) for k, v in vals.items() if good[k] and rng.random() < 0.7}
            opts["cache_dir"] = str(d / "c")
            wrong = None
            if rng.random() < 0.7:
                wrong = rng.choice(list(vals))
                opts[wrong] = rng.choice(vals[wrong])
            odd = wrong is not None and wrong != "cache_dir" and not any(opts[wrong] == x and type(opts[wrong]) is type(x) for x in vals[wrong][:good[wrong]])
            odd = odd or (wrong == "cache_dir" and not isinstance(opts[wrong], str))
            try:
                c = t.PipelineAutotuneConfig.parse(dict(opts))
            except (TypeError, ValueError):
                ctx.check(odd, "config:refused", f"{opts} refused")
                ctx.count("options_refused")
                continue
            if odd and not isinstance(opts[wrong], str):
                ctx.fail("config:accepted", f"{wrong}={opts[wrong]!r} accepted")
            try:
                tn = t.PipelineAutotuner(c, initial_workers=1, initial_prefetch_batches=1, initial_cache_entries=1, initial_cache_bytes=1,
                                         exact_key="e" * 64, compatible_key="c" * 64)
                for i in range(4):
                    tn.update(metrics(rng), i * 50)
                json.dumps(tn.state_dict())
            except Exception as e:
                ctx.fail("config:unusable", f"accepted options {opts} fail while training: {type(e).__name__}: {e}")
            ctx.count("options_used")
        ctx.seen("config", str(sorted(opts)))


def keys_case(ctx, name, rng):
    """The fingerprint separates runtimes and forgets where the data lies."""
    import shutil
    d = ctx.tmp()
    (d / "data").mkdir()
    scen = scenario.make(rng, d / "data", "batched", total=rng.randint(20, 60), nfiles=rng.randint(1, 3), sample_rate=1.0)
    B = scenario.batch_for(rng, scen, cap=6)
    tune = dict(respect_explicit=False, cache_dir=str(d / "cache"), freeze_after=1, warmup_iterations=0, decision_interval=1)

    def state(B=B, paths=None, world=1, at=None, **kw):
        kw = dict(dict(prefetch_threads=2, prefetch_batches=4), **kw)
        s = copy.copy(scen)
        s.paths = paths or scen.paths
        ds = s.build(drive.runtime(B * world, seed=3, world=world), autotune=dict(tune, **(at or {})), **kw)
        drive.planner_of(ds)
        return ds, ds.pipeline_tuning_state_dict()

    with ctx.case(name, dict(B=B)):
        ds, a = state()
        _, again = state()
        ctx.check((a["exact_key"], a["compatible_key"]) == (again["exact_key"], again["compatible_key"]), "keys:unstable", "two builds of one configuration differ")
        diff = dict(batch=lambda: state(B=B + 1 if B > 1 else 2), limit=lambda: state(at=dict(max_prefetch_threads=7)), depth=lambda: state(prefetch_batches=5),
                    threads=lambda: state(prefetch_threads=3), budget=lambda: state(at=dict(host_cache_budget_bytes=12345)), world=lambda: state(world=2),
                    queue=lambda: state(at=dict(max_prefetch_batches=9)), explicit=lambda: state(at=dict(respect_explicit=True)))
        for k in rng.sample(sorted(diff), 3):
            try:
                _, o = diff[k]()
            except ValueError as e:
                ctx.count("variant_refused")
                continue
            ctx.check(o["exact_key"] != a["exact_key"] and o["compatible_key"] != a["compatible_key"], "keys:blind", f"another {k} has the same fingerprint")
            ctx.count("keys_compared")
        # one number of one file
        alt = d / "alt"
        alt.mkdir()
        paths = []
        for p in scen.paths:
            q = alt / os.path.basename(str(p))
            shutil.copyfile(p, q)
            paths.append(str(q))
        with np.load(paths[0]) as z:
            arr = {k: z[k] for k in z.files}
        k = "valueTargetsNCHW" if "valueTargetsNCHW" in arr else next(x for x in arr if arr[x].dtype.kind == "f")
        arr[k] = arr[k].copy()
        raw = arr[k].view(np.uint8).reshape(-1)
        raw[0] ^= 1
        import zipfile
        st0 = zipfile.ZipFile(paths[0]).infolist()[0].compress_type
        (np.savez if st0 == 0 else np.savez_compressed)(paths[0], **arr)
        try:
            _, o = state(paths=paths)
        except (ValueError, TypeError):
            o = None
        if o is not None:
            ctx.check(o["exact_key"] != a["exact_key"], "keys:content", "changed data has the same exact fingerprint")
        # a frozen profile holds no paths, and an incompatible state is ignored
        ds.attach_pipeline_run_dir(str(d / "run"))
        for i in range(4):
            ds.pipeline_tuning_update({"producer_headroom": 0.0, "data_wait_fraction": 1.0}, i * 10)
        files = list((d / "cache").glob("*.json"))
        ctx.check(len(files) == 1, "keys:profile", f"{len(files)} profiles saved")
        for f in files + [d / "run" / "pipeline_tuning.json"]:
            txt = f.read_text()
            for bad in [str(d)] + [os.path.basename(str(p)) for p in scen.paths]:
                ctx.check(bad not in txt, "keys:leak", f"{f.name} mentions {bad}")
        before = ds.pipeline_tuning_state_dict()
        other = dict(before, exact_key="0" * 64, settings={k: 1 for k in before["settings"]})
        ctx.check(ds.restore_pipeline_tuning_state_dict(other) is False and ds.pipeline_tuning_state_dict() == before, "keys:foreign-state",
                  "the tuning state of another runtime was restored")
        ds2, s2 = state()
        ctx.check(s2["reused"] == "exact" and s2["settings"] == before["settings"], "keys:reuse", f"{s2['reused']} {s2['settings']} instead of {before['settings']}")
        ctx.check(ds2.restore_pipeline_tuning_state_dict(json.loads(json.dumps(before))) is True and ds2.pipeline_tuning_state_dict() == before,
                  "keys:restore", lambda: f"{ds2.pipeline_tuning_state_dict()} after restoring {before}")
        ctx.count("fingerprints")
        ctx.seen("keys", B, len(scen.paths))


# ---------------------------------------------------------------- training
def training(ctx, srv, name, rng):
    d = ctx.tmp()
    cfg, _ = train.config(rng, d, kind="batched", kd=False, val=False)
    cfg["log_interval"] = rng.choice([1, 2])
    cfg["dataset_args"] = dict(cfg["dataset_args"], prefetch_threads=2, prefetch_batches=4)
    cache = d / "cache"
    bad = rng.choice(["none", "file", "below", "junk"])
    if bad != "none":
        (d / "f").write_text("x")
    if bad == "junk":
        cache.mkdir()
        for _ in range(3):
            (cache / ("%064x.json" % rng.getrandbits(256))).write_bytes(rng.choice(JUNK))
    at = dict(respect_explicit=False, warmup_iterations=rng.choice([0, 1]), verify_iterations=0, decision_interval=1, freeze_after=rng.choice([2, 10 ** 6]),
              reuse="compatible", cache_dir=str({"file": d / "f", "below": d / "f" / "x"}.get(bad, cache)))
    with ctx.case(name, dict(batch=cfg["batch_size"], iterations=cfg["iterations"], cache=bad)):
        def go(run, extra, stop=None):
            c = dict(cfg, dataset_args=dict(cfg["dataset_args"], **extra))
            o = srv.call("vm.maps", "run", c, str(d / run), stop, timeout=200)
            if not o.ok:
                srv.blame(o, f"{name} {run}")
            return o.value
        base = go("plain", {})
        obs = go("metrics", {"observability": True})
        stop = rng.choice([None, rng.randint(1, cfg["iterations"])])
        tuned = go("tuned", {"autotune": at}, stop)
        log = list(tuned["log"])
        if stop is not None:
            more = go("tuned", {"autotune": at})
            log = [x for x in log if x[0] <= more["start"]] + more["log"]
        ref = [(i, digest.of(b)) for i, b in base["log"]]
        ctx.check([(i, digest.of(b)) for i, b in obs["log"]] == ref, "training:metrics", f"{name}: metrics change the training batches")
        ctx.check([(i, digest.of(b)) for i, b in log] == ref, "training:tuned", f"{name}: auto-tuning changes the training batches (stopped at {stop})")

        def rows(run):
            f = [x for x in os.listdir(d / run) if x.endswith(".jsonl")]
            return [json.loads(x) for x in open(d / run / f[0])]
        a = {r["it"]: r.get("train_loss") for r in rows("plain")}
        for run in ("metrics",) if stop is not None else ("metrics", "tuned"):
            seen = {r["it"]: r.get("train_loss") for r in rows(run)}
            ctx.check(a == seen, "training:losses", lambda: f"{name}: {run} run logs other losses")
        m = [r["data_pipeline"] for r in rows("metrics") if r.get("data_pipeline")]
        ctx.check(len(m) == len(rows("metrics")), "training:published", f"{len(m)} pipeline records in {len(rows('metrics'))} log rows")
        ctx.check(sum(x["interval/decoded_batches"] for x in m) >= len(m), "training:published", f"{m[:2]}")
        last = max(r["it"] for r in rows("metrics"))
        done = sum(x["prefetch/completed_batches"] for x in m)
        ctx.check(last <= done * 1.0 + 1e-6, "training:completed", f"{done} batches completed after {last} iterations")
        rec = json.loads((d / "tuned" / "pipeline_tuning.json").read_text())
        ctx.check(within(rec["resolved"], dict(max_prefetch_threads=4, max_prefetch_batches=64, host_cache_budget_bytes=2 << 30)), "training:limits", f"{rec['resolved']}")
        if rec["frozen"] and bad in ("file", "below"):
            ctx.check(any(x["action"] == "profile_cache_write_failed" for x in rec["decisions"]), "training:cache-failure", f"{rec['decisions']}")
            ctx.count("unwritable_caches")
        ctx.count("trainings_compared", 2)
        ctx.count("decisions_in_training", len(rec["decisions"]))
        ctx.seen("train", bad, stop is None, len(rec["decisions"]))


def run(ctx):
    ctx.rule = ("the pipeline counters are driven by random records, by racing threads and by real prefetching data sets, and must add up to what was "
                "recorded, delivered and loaded; the tuning controller is observed step by step against its documented limits; the profile store "
                "against a model under damage and sharing; delivered batches are compared with the uninstrumented run. Non-trivial: distinct histories")
    ctx.require("intervals_checked", 40)
    ctx.require("records_stressed", 3000)
    ctx.require("deliveries_compared", 8)
    ctx.require("cache_evictions", 20)
    ctx.require("gate_calls", 60)
    ctx.require("tuner_steps", 800)
    ctx.require("twin_steps", 200)
    ctx.require("adjustments", 50)
    ctx.require("freezes", 8)
    ctx.require("store_ops", 300)
    ctx.require("damaged_profiles", 20)
    ctx.require("shared_loads", 20)
    ctx.require("options_used", 30)
    ctx.require("fingerprints", 2)
    ctx.require("trainings_compared", 2)
    for name, rng in ctx.cases("interval", 24, 400, share=0.1):
        interval_case(ctx, name, rng)
    for name, rng in ctx.cases("stress", 12, 200, share=0.2):
        stress_case(ctx, name, rng)
    for name, rng in ctx.cases("ranks", 16, 200, share=0.1):
        ranks_case(ctx, name, rng)
    for name, rng in ctx.cases("tuner", 240, 4000, share=0.3):
        tuner_case(ctx, name, rng)
    for name, rng in ctx.cases("store", 12, 200, share=0.2):
        store_case(ctx, name, rng)
    for name, rng in ctx.cases("damaged", 60, 600, share=0.2):
        damaged_case(ctx, name, rng)
    for name, rng in ctx.cases("config", 8, 100, share=0.2):
        config_case(ctx, name, rng)
    for name, rng in ctx.cases("shared", 8, 100, share=0.2):
        shared_case(ctx, name, rng)
    for name, rng in ctx.cases("gate", 8, 100, share=0.2):
        gate_case(ctx, name, rng)
    for name, rng in ctx.cases("keys", 8, 80, share=0.3):
        keys_case(ctx, name, rng)
    for name, rng in ctx.cases("delivery", 16, 300, share=0.6):
        delivery_case(ctx, name, rng)
    work = list(ctx.cases("training", 4, 40))
    if work:
        srv = forkserver.Server(ctx, imports=("vm.train", "vm.maps"))
        try:
            for name, rng in work:
                training(ctx, srv, name, rng)
        finally:
            srv.close()
