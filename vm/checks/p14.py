"""Blended streams: exact ratios per cycle, exact ends, own content and identity."""
import math
from collections import Counter, defaultdict
from decimal import Decimal
from fractions import Fraction
from functools import reduce

import numpy as np

from vm import drive, scenario

KINDS = ["processed", "raw", "sparse", "simple", "packed", "mixproc", "blend", "batched"]
SMALL = [1, 2, 3, 4, 5, 7]
ODD = [0.5, 1.5, 0.25, 0.1, 0.2, 0.75, 1.25, 2.5, 0.3, 0.7, 10, 0.05, 1e-1, 3.0, 0.125, 1.1]


def weights_of(ratios):
    fr = [Fraction(Decimal(repr(r))) for r in ratios]
    den = reduce(lambda a, b: a * b // math.gcd(a, b), [f.denominator for f in fr], 1)
    w = [int(f * den) for f in fr]
    g = reduce(math.gcd, w)
    return [x // g for x in w]


def owners(scen):
    own = {}
    for ci, (child, rids) in enumerate(scen.per_child.items()):
        for r in rids:
            own[r] = ci
    return own


def draw(rng, ctx, kind, k=None, sync=None, shuffle=None, sizes=None, nfiles=None, total=None, world=1):
    k = k or rng.choice([2, 2, 3, 4] if kind != "blend" else [2, 3])
    while True:
        pool = SMALL if rng.random() < 0.5 else SMALL + ODD
        ratios = [rng.choice(pool) for _ in range(k)]
        if sum(weights_of(ratios)) <= 60:
            break
    if sync is None:
        sync = rng.random() < 0.5
    return scenario.make_composite(rng, ctx.tmp(), total=total or rng.randint(20, 160), sync=sync, children=k, shuffle=shuffle,
                                   kind=kind, ratios=ratios, sizes=sizes, nfiles=nfiles)


def stream(ctx, scen, idx, rt, **over):
    """Real records in delivery order with their sample keys."""
    ds = scen.build(rt, **over)
    out = []
    for env in drive.epoch(ds):
        rows = drive.identify(ctx, env, idx, mech="blend:content")
        for (rid, s, real), key in zip(rows, env.sample_keys):
            if real:
                out.append((rid, key))
                ctx.count("blended_records")
    return ds, out


def cycles_ok(ctx, seq, w, upto, tag):
    W = sum(w)
    for c in range(upto):
        win = seq[c * W:(c + 1) * W]
        if len(win) < W:
            return
        have = Counter(win)
        ctx.check([have[i] for i in range(len(w))] == w, "blend:ratio",
                  lambda: f"{tag}: cycle {c} holds {[have[i] for i in range(len(w))]} records per child, requested {w}")
        ctx.count("cycles_checked")


def ratio_case(ctx, name, rng, i):
    kind = KINDS[i % len(KINDS)]
    mode = rng.choice(["test", "test", "train"])
    scen = draw(rng, ctx, kind, shuffle=False, sizes=scenario.SIZE_SETS[rng.choice(["one", "one15"])])
    own = owners(scen)
    w = weights_of(scen.ratios)
    W = sum(w)
    n = [len(v) for v in scen.per_child.values()]
    sync = scen.desc["sync"]
    full = min(a // b for a, b in zip(n, w))
    total = full * W if sync else sum(n)
    B = rng.choice([1, 2, 3, 7, 16, W, 2 * W])
    with ctx.case(name, dict(scen.desc, B=B, mode=mode, weights=w, cycles=full)):
        if total < B and mode == "train" or total == 0:
            try:
                got = stream(ctx, scen, scen.index(), drive.runtime(B, mode=mode))[1]
            except (ValueError, RuntimeError):
                got = []
            ctx.check(not got, "blend:end", f"{len(got)} records although no complete cycle or batch exists")
            ctx.count("empty_blends")
            return
        idx = scen.index()
        _, got = stream(ctx, scen, idx, drive.runtime(B, mode=mode, seed=rng.randrange(1 << 40)))
        want = total - total % B if mode == "train" else total
        ctx.check(len(got) == want, "blend:end", f"{len(got)} records delivered, expected {want} (children {n}, weights {w}, sync {sync})")
        ctx.check(len({r for r, _ in got}) == len(got), "blend:repeat", "a record was delivered twice")
        ctx.check(len({k for _, k in got}) == len(got), "blend:identity", "two records share one sample identity")
        seq = [own[r] for r, _ in got]
        cycles_ok(ctx, seq, w, full, f"{kind} {mode}")
        if mode == "test":
            cnt = Counter(seq)
            exp = [full * x for x in w] if sync else n
            ctx.check([cnt[j] for j in range(len(n))] == exp, "blend:end", f"children contributed {dict(cnt)}, expected {exp}")
        ctx.seen(kind, mode, tuple(w), sync, B, tuple(seq[:200]))


def shuffled_case(ctx, name, rng, i):
    kind = KINDS[i % len(KINDS)]
    mode = rng.choice(["train", "validate"])
    one = rng.random() < 0.6
    scen = draw(rng, ctx, kind, shuffle=True, sizes=scenario.SIZE_SETS["one" if one else rng.choice(["two", "three"])], total=rng.randint(60, 260))
    own = owners(scen)
    w = weights_of(scen.ratios)
    W = sum(w)
    n = [len(v) for v in scen.per_child.values()]
    sync = scen.desc["sync"]
    full = min(a // b for a, b in zip(n, w))
    if full == 0:
        return
    window = scen.kw["shuffle_window_size"]
    B = rng.choice([1, 2, 5, 8])
    with ctx.case(name, dict(scen.desc, B=B, mode=mode, weights=w, cycles=full)):
        idx = scen.index()
        ds = scen.build(drive.runtime(B, mode=mode, seed=rng.randrange(1 << 40)))
        ident = {}
        for ep in range(2):
            got = []
            for env in drive.epoch(ds):
                for (rid, s, real), key in zip(drive.identify(ctx, env, idx, mech="blend:content"), env.sample_keys):
                    if real:
                        got.append(rid)
                        ctx.check(ident.setdefault(rid, repr(key)) == repr(key), "blend:identity",
                                  f"record {rid} had identity {ident[rid]}, now {key!r}")
            ctx.count("blended_records", len(got))
            ctx.check(len(set(got)) == len(got), "blend:repeat", "a record was delivered twice in one epoch")
            cnt = Counter(own[r] for r in got)
            top = [full * x for x in w] if sync else n
            if mode != "train":
                ctx.check([cnt[j] for j in range(len(n))] == top, "blend:end", f"epoch {ep}: children contributed {dict(cnt)}, expected {top}")
            else:
                ctx.check(all(cnt[j] <= top[j] for j in range(len(n))), "blend:end", f"epoch {ep}: children contributed {dict(cnt)}, at most {top}")
                groups = Counter(scen.shape_of[r] for r in got)
                ctx.check(all(v % B == 0 for v in groups.values()), "blend:end", "short training batch")
                lost = sum(top) - len(got)
                shapes = len(set(scen.shape_of.values()))
                ctx.check(0 <= lost <= shapes * (B - 1), "blend:end", f"epoch {ep}: {lost} records missing, at most {shapes * (B - 1)} may not fill a batch")
            if one:
                run = Counter()
                for k, r in enumerate(got):
                    run[own[r]] += 1
                    upper = [x * (-(-(k + 1 + window + B) // W)) for x in w]
                    if k + 1 + window + B <= full * W:
                        ctx.check(all(run[j] <= upper[j] for j in range(len(w))), "blend:ratio",
                                  f"epoch {ep}: {dict(run)} of the first {k + 1} records although the window holds {window} (weights {w})")
                        ctx.count("prefixes_checked")
            ctx.seen(kind, mode, tuple(w), sync, tuple(own[r] for r in got[:300]))
        ctx.check(len(set(ident.values())) == len(ident), "blend:identity", "two records share one sample identity")


def sharded_case(ctx, name, rng, i):
    kind = ["simple", "packed", "blend"][i % 3]
    world = rng.choice([2, 3])
    scen = draw(rng, ctx, kind, k=2, sync=rng.random() < 0.5, shuffle=False, sizes=[(9, 9)], nfiles=rng.randint(world, world + 1),
                total=rng.randint(60, 200))
    own = owners(scen)
    w = weights_of(scen.ratios)
    W = sum(w)
    per_file = defaultdict(Counter)
    for ci, c in enumerate(scen.corpora):
        for r in c.recs:
            if r.rid in own:
                per_file[ci][r.file] += 1
    least = [min(per_file[ci].values()) for ci in range(len(w))]
    sure = min(a // b for a, b in zip(least, w))
    if sure == 0:
        return
    L = rng.choice([1, 2, 3])
    steps = max(1, sure * W // L)
    with ctx.case(name, dict(scen.desc, world=world, weights=w, steps=steps)):
        idx = scen.index()
        ids = {}
        for rank in range(world):
            _, got = stream(ctx, scen, idx, drive.runtime(L * world, world=world, rank=rank, seed=rng.randrange(9)), steps_per_epoch=steps)
            ctx.check(len(got) == steps * L, "blend:end", f"rank {rank} delivered {len(got)} of {steps * L}")
            cycles_ok(ctx, [own[r] for r, _ in got], w, len(got) // W, f"rank {rank} of {world}")
            for r, k in got:
                ctx.check(ids.setdefault(repr(k), r) == r, "blend:identity", "ranks use one identity for different records")
            ctx.count("sharded_blends")
            ctx.seen("sharded", kind, tuple(w), rank, tuple(own[r] for r, _ in got))


def weight_case(ctx, name, rng):
    """Requested ratios with many decimal forms against a tiny stream."""
    k = rng.choice([2, 3])
    scale = rng.choice([1, 10, 100, 0.1, 0.01, 1e3])
    base = [rng.randint(1, 6) for _ in range(k)]
    ratios = [round(b * scale, 6) for b in base]
    if all(float(r).is_integer() for r in ratios) and rng.random() < 0.5:
        ratios = [int(r) for r in ratios]
    scen = scenario.make_composite(rng, ctx.tmp(), total=40 * k, sync=True, children=k, shuffle=False, kind="processed",
                                   ratios=ratios, sizes=[(7, 7)], nfiles=1)
    own = owners(scen)
    w = weights_of(ratios)
    g = reduce(math.gcd, base)
    n = [len(v) for v in scen.per_child.values()]
    full = min(a // b for a, b in zip(n, w))
    with ctx.case(name, dict(ratios=ratios, weights=w, children=n)):
        ctx.check(w == [b // g for b in base], "blend:harness", "oracle weights")
        _, got = stream(ctx, scen, scen.index(), drive.runtime(1, mode="test"))
        ctx.check(len(got) == full * sum(w), "blend:end", f"ratios {ratios}: {len(got)} records, expected {full * sum(w)}")
        cycles_ok(ctx, [own[r] for r, _ in got], w, full, f"ratios {ratios}")
        ctx.count("decimal_ratios")
        ctx.seen("decimal", tuple(ratios))


def bad_ratio_case(ctx, name, rng):
    scen = scenario.make_composite(rng, ctx.tmp(), total=40, sync=rng.random() < 0.5, children=2, shuffle=False, kind=rng.choice(["processed", "simple"]),
                                   ratios=[1, 2], sizes=[(7, 7)], nfiles=1)
    for bad in (0, -1, 0.0, -0.5, float("nan"), float("inf"), -float("inf"), "x", [1], "nan"):
        with ctx.case(f"{name}.{bad!r}", dict(ratio=repr(bad)), sample=False):
            dd = {k: dict(v) for k, v in scen.kw["dataset_dict"].items()}
            dd[rng.choice(sorted(dd))]["blend_ratio"] = bad
            n = 0
            try:
                for _ in drive.epoch(scen.build(drive.runtime(1), dataset_dict=dd)):
                    n += 1
            except Exception:       # noqa: BLE001 - refusal
                ctx.check(n == 0, "blend:late-rejection", f"{n} batches before ratio {bad!r} was refused")
                ctx.count("ratios_refused")
                continue
            ctx.fail("blend:bad-ratio-accepted", f"blend_ratio {bad!r} was accepted and delivered {n} batches")


def shared_case(ctx, name, rng):
    """Children with byte-identical records keep separate identities; one file twice is refused."""
    import shutil
    scen = scenario.make_composite(rng, ctx.tmp(), total=30, sync=False, children=2, shuffle=rng.random() < 0.5,
                                   kind=rng.choice(["processed", "raw", "sparse", "simple", "packed"]), ratios=[1, 1], sizes=[(9, 9)], nfiles=1)
    with ctx.case(name, scen.desc):
        dd = {k: dict(v) for k, v in scen.kw["dataset_dict"].items()}
        a, b = sorted(dd)
        dd[b] = dict(dd[a])
        src = dd[a]["data_paths"][0]
        ext = src[src.index("."):] if "." in src.rsplit("/", 1)[1] else ""
        copy = str(ctx.tmp("copy") / src.rsplit("/", 1)[1])
        shutil.copy(src, copy)
        dd[b]["data_paths"] = [copy]
        n = len(scen.per_child[a])
        ds = scen.build(drive.runtime(1, mode="test"), dataset_dict=dd)
        keys, rows = [], 0
        for env in ds:
            keys += [repr(k) for k, r in zip(env.sample_keys, np.asarray(env.is_real)) if r]
            rows += int(np.asarray(env.is_real).sum())
        ctx.check(rows == 2 * n, "blend:end", f"{rows} rows from two copies of {n} records ({ext})")
        ctx.check(len(set(keys)) == rows, "blend:identity", "records of two children share one sample identity")
        for how in ("same", "symlink", "hardlink"):
            p = src
            if how != "same":
                p = str(ctx.tmp("ln") / src.rsplit("/", 1)[1])
                (__import__("os").symlink if how == "symlink" else __import__("os").link)(src, p)
            dd[b]["data_paths"] = [p]
            got = 0
            try:
                for _ in drive.epoch(scen.build(drive.runtime(1), dataset_dict=dd)):
                    got += 1
            except ValueError:
                ctx.check(got == 0, "blend:late-rejection", "batches before the duplicate file was refused")
                ctx.count("shared_files_refused")
                continue
            ctx.fail("blend:shared-file-accepted", f"one file in two children ({how}) was accepted, {got} batches")
        ctx.seen("copies", scen.desc["child_kind"])


def run(ctx):
    ctx.rule = ("random blends of 2-4 children (every format, decimal ratios, synchronised or draining, several board shapes, shuffled, "
                "file-sharded over ranks); rows are attributed to their child by content and counted per cycle of exact integer weights. "
                "Non-trivial: distinct child sequences")
    ctx.require("cycles_checked", 300)
    ctx.require("blended_records", 2000)
    ctx.require("prefixes_checked", 100)
    ctx.require("sharded_blends", 8)
    ctx.require("decimal_ratios", 5)
    ctx.require("ratios_refused", 20)
    ctx.require("shared_files_refused", 6)
    for name, rng in ctx.cases("ratio", 160, 3000, share=0.4):
        ratio_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("shuffled", 64, 1200, share=0.25):
        shuffled_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("sharded", 36, 500, share=0.12):
        sharded_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("weights", 32, 400, share=0.1):
        weight_case(ctx, name, rng)
    for name, rng in ctx.cases("bad", 6, 40, share=0.05):
        bad_ratio_case(ctx, name, rng)
    for name, rng in ctx.cases("shared", 10, 80, share=0.08):
        shared_case(ctx, name, rng)
