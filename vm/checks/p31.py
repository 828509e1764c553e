"""P31: event logs hold every scalar once, in order, and stay readable."""
import json
import math
import os
import struct
import threading
import time

import numpy as np

from .. import forkserver, tb, train


def f32(v):
    with np.errstate(all="ignore"):
        return struct.pack("<f", np.float32(v))


def same(a, b):
    x, y = struct.unpack("<f", a)[0], struct.unpack("<f", b)[0]
    return a == b or (math.isnan(x) and math.isnan(y)) or x == y == 0


def equal(got, want):
    return len(got) == len(want) and all(g[:2] == w[:2] and same(g[2], w[2]) for g, w in zip(got, want))


def differs(got, want):
    if len(got) != len(want):
        extra = f"{len(got)} scalars in the log, {len(want)} written"
    else:
        extra = "same number"
    k = next((i for i, (g, w) in enumerate(zip(got, want)) if g[:2] != w[:2] or not same(g[2], w[2])), min(len(got), len(want)))
    return f"{extra}; first difference at {k}: {got[k:k + 2]} instead of {want[k:k + 2]}"


def parse(ctx, d, where, tail=False):
    try:
        return tb.read(d, tail)
    except tb.Bad as e:
        ctx.fail("log:unreadable", f"{where}: {e}")


def value(rng):
    return rng.choice([rng.uniform(-1, 1), rng.uniform(-1e6, 1e6), 0.0, -0.0, 1e-40, 3e38, float("inf"), float("-inf"), float("nan"), 5, True,
                       np.float32(rng.random()), np.int64(7), 10 ** 12])


def ordered(ctx, rng, label):
    """One thread, the trainer's own logging helper and writer."""
    from utils.misc_utils import log_value_dict
    from utils.tb_writer import buffer_tensorboard_writer, create_summary_writer
    from torch.utils.tensorboard import SummaryWriter
    d = str(ctx.tmp())
    plain = rng.random() < 0.4
    w = create_summary_writer(d) if plain else buffer_tensorboard_writer(SummaryWriter(d, flush_secs=rng.choice([0.001, 0.05, 120])),
                                                                         capacity=rng.choice([1, 37, 200, 5000, 1 << 20]))
    want = []
    flushed = 0
    step = rng.choice([0, 0, 10 ** 9, 1 << 40])
    tags = ["a", "loss/total", "数据", "x" * rng.choice([1, 200, 3000]), "it/s", "a b"]
    for _ in range(rng.randint(1, 40)):
        vals = {rng.choice(tags): value(rng) for _ in range(rng.randint(1, 6))}
        step += rng.choice([0, 1, 1, 100])
        rows = step * rng.choice([1, 64])
        log_value_dict(w, "train", vals, step, rows)
        for n, v in vals.items():
            want += [(f"train/{n}", step, f32(v)), (f"train_rows/{n}", rows, f32(v))]
        ctx.count("scalars_written", 2 * len(vals))
        if rng.random() < 0.15:
            w.flush()
            got = parse(ctx, d, "after a flush")
            ctx.check(equal(got, want), "log:flush", lambda: f"after a flush: {differs(got, want)}")
            flushed += 1
            ctx.count("flushes_checked")
    (w.close if rng.random() < 0.8 else w.flush)()
    got = parse(ctx, d, "after the end")
    ctx.check(equal(got, want), "log:end", lambda: f"after the end: {differs(got, want)}")
    w.close()
    again = parse(ctx, d, "after a second close")
    ctx.check(equal(again, want), "log:close", lambda: f"after a second close: {differs(again, want)}")
    ctx.count("logs_read")
    ctx.seen("ordered", plain, min(flushed, 4), len(want) // 20)


def threads(ctx, rng, label):
    """Several threads write, flush and close through a slow file."""
    from torch.utils.tensorboard import SummaryWriter
    from utils.tb_writer import buffer_tensorboard_writer
    d = str(ctx.tmp())
    n = rng.choice([1, 1, 2, 3, 5])
    secs, cap = rng.choice([0.0001, 0.001, 0.005, 0.02, 120]), rng.choice([1, 300, 3000, 256 * 1024])
    w = SummaryWriter(d, flush_secs=secs, max_queue=rng.choice([1, 10, 50]))
    scale = rng.choice([0.0003, 0.001, 0.003])
    slow = None
    try:
        rw = w.file_writer.event_writer._async_writer._writer
        slow = rw._writer = tb.Slow(rw._writer, rng.getrandbits(30), scale)
    except AttributeError:
        ctx.count("unobservable_writer")
    buffer_tensorboard_writer(w, capacity=cap)
    per = rng.randint(3, 25)
    plans = []
    for t in range(n):
        plans.append([rng.choice(["w", "w", "w", "w", "f", "p", "wf", "wf"]) for _ in range(per)])
    done = [[] for _ in range(n)]
    errors = []
    where = f"{n} threads, {cap} bytes of buffer, periodic flush {secs}s"

    def work(t):
        try:
            k = 0
            for op in plans[t]:
                if "w" in op:
                    w.add_scalar(f"th{t}", t * 1000 + k, k)
                    k += 1
                    done[t].append(k)
                if "f" in op:
                    before = [len(x) for x in done]
                    w.flush()
                    got = tb.read(d, True)
                    have = [sum(1 for g in got if g[0] == f"th{i}") for i in range(n)]
                    if have[t] < before[t]:
                        errors.append(("log:flush", f"{where}: after its flush thread {t} finds {have[t]} of {before[t]} scalars"))
                    ctx.count("flushes_checked")
                if op == "p":
                    time.sleep(plans_rng[t].random() * 0.004)
        except tb.Bad as e:
            errors.append(("log:unreadable", f"{where}: {e}"))
        except Exception as e:
            errors.append(("log:error", f"{where}: thread {t}: {type(e).__name__}: {e}"))

    import random
    plans_rng = [random.Random(rng.getrandbits(30)) for _ in range(n)]
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    ctx.check(not any(t.is_alive() for t in ts), "log:stuck", f"{where}: a writer does not return")
    for m, e in errors[:1]:
        ctx.fail(m, e)
    w.close()
    got = parse(ctx, d, where)
    for t in range(n):
        mine = [g for g in got if g[0] == f"th{t}"]
        want = [(f"th{t}", k, f32(t * 1000 + k)) for k in range(len(done[t]))]
        ctx.check(equal(mine, want), "log:thread", lambda: f"{where}: thread {t}: {differs(mine, want)}")
    total = sum(map(len, done))
    ctx.check(len(got) == total, "log:count", f"{where}: {len(got)} scalars in the log, {total} written")
    ctx.count("scalars_written", total)
    ctx.count("logs_read")
    if slow is not None:
        ctx.count("slow_writes", slow.writes)
    ctx.seen("threads", n, secs, cap, slow.writes if slow else 0)


def killed(ctx, srv, rng, label):
    d = str(ctx.tmp())
    srv.call("vm.tb", "doomed", d, rng.getrandbits(30), rng.choice([5, 60, 400]), timeout=60)
    j = [int(x) for x in open(os.path.join(d, "journal")).read().split()] if os.path.exists(os.path.join(d, "journal")) else []
    n = j[-1] if j else 0
    got = parse(ctx, d, f"killed after {n} flushed scalars", tail=True)
    full = [(f"t{i % 3}", i, f32(i)) for i in range(len(got))]
    ctx.check(len(got) >= n, "killed:lost", f"{n} scalars were flushed, {len(got)} are in the log")
    ctx.check(equal(got, full), "killed:content", lambda: f"a killed writer left {differs(got, full)}")
    ctx.count("killed_writers")
    ctx.seen("killed", n > 0, len(got) // 20)


def nested(v, pre=""):
    return {k: x for k, x in v.items() if isinstance(x, (int, float))}


def training(ctx, srv, rng, label):
    """The event log of a training run holds what the JSON log holds."""
    d = ctx.tmp()
    cfg, _ = train.config(rng, d, val=rng.random() < 0.6)
    run = str(d / "run")
    stops = sorted(rng.sample(range(1, cfg["iterations"]), 1)) if rng.random() < 0.5 and cfg["iterations"] > 1 else []
    for stop in stops + [None]:
        o = srv.call("vm.maps", "run", cfg, run, stop, timeout=200)
        if not o.ok:
            srv.blame(o, label)
    names = [f for f in os.listdir(run) if f.endswith(".jsonl")]
    ctx.check(len(names) == 1, "training:log", f"log files {names}")
    rows = [json.loads(x) for x in open(os.path.join(run, names[0]))]
    want = []
    groups = {"train_loss": "train", "train_aux": "train_aux", "running_stat": "running_stat", "data_pipeline": "data_pipeline",
              "val_loss": "validation", "val_aux": "validation_aux"}
    for r in rows:
        for k, tag in groups.items():
            for n, v in (r.get(k) or {}).items():
                want.append((f"{tag}/{n}", r["it"], f32(v)))
    got = parse(ctx, os.path.join(run, "log"), label)
    main = [g for g in got if g[0].split("/")[0] in groups.values()]
    key = lambda x: (x[0], x[1], x[2])
    ctx.check(sorted(main, key=key) == sorted(want, key=key), "training:scalars",
              lambda: f"{label}, stops {stops}: event log and training log differ: {sorted(set(map(key, main)) ^ set(map(key, want)))[:6]}")
    byrows = [g for g in got if g[0].split("/")[0].endswith("_rows")]
    ctx.check(sorted((t.replace("_rows/", "/", 1), v) for t, _, v in byrows) == sorted((t, v) for t, _, v in main), "training:rows",
              f"{label}: the scalars by rows differ from the scalars by iteration")
    order = [g[1] for g in main]
    ctx.check(order == sorted(order) or stops, "training:order", f"{label}: iterations in the log are {order[:40]}")
    ctx.count("training_scalars", len(main))
    ctx.seen("training", bool(stops), len(rows))


def run(ctx):
    ctx.rule = ("writers driven by one thread (own helper, buffer sizes, flush periods, special values, long and non-ASCII tags), by 1-5 "
                "threads through a file with random delays while the periodic flush fires, by processes killed after flushes, and by "
                "training runs; every log is read by an independent parser that verifies record checksums. Non-trivial: distinct "
                "(threads, buffer, flush period, number of physical writes)")
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.maps", "vm.tb", "trainer", "model", "utils.tb_writer"), env={"VM_SCRATCH": str(ctx.scratch)})
    try:
        for name, rng in ctx.cases("ordered", 120, 3000, share=0.25):
            with ctx.case(name, sample=False):
                ordered(ctx, rng, name)
        for name, rng in ctx.cases("threads", 300, 12000, share=0.6):
            with ctx.case(name, sample=False):
                threads(ctx, rng, name)
        for name, rng in ctx.cases("killed", 30, 600, share=0.4):
            with ctx.case(name, sample=False):
                killed(ctx, srv, rng, name)
        for name, rng in ctx.cases("training", 12, 300):
            with ctx.case(name, sample=False):
                training(ctx, srv, rng, name)
    finally:
        srv.close()
    ctx.require("scalars_written", 2000)
    ctx.require("flushes_checked", 200)
    ctx.require("logs_read", 100)
    ctx.require("killed_writers", 6)
    ctx.require("training_scalars", 100)
