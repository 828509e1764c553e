"""P33: map-style evaluation delivers every sample once; collation keeps rows together."""
from collections import Counter

import numpy as np
import torch

from .. import drive, gen, scenario


def children(rng, d, label):
    """One map-style data set, or several joined, with its content oracle: (build, lookup, shape_of, desc)."""
    if rng.random() < 0.5:
        s = scenario.make(rng, d, rng.choice(["map_processed", "map_raw"]))
        return s.build, [s.index()], s.shape_of, s.desc, [s]
    k = rng.choice([1, 2, 3, 4])
    mk = gen.Maker(rng)
    fixed_side, square = rng.random() < 0.4, rng.random() < 0.7
    pool = [[(9, 9)], [(7, 7)], [(8, 8)], [(15, 15)]] if square else [[(7, 9)], [(9, 7)], [(9, 9)]]
    symmetry = rng.choice([False, False, True, "rotate", "flip"]) if square else rng.choice([False, True])
    sizes = [rng.choice(pool) for _ in range(k)]
    fixed = (max(max(z[0]) for z in sizes) + rng.randint(0, 2),) * 2 if rng.random() < 0.3 else None
    hp = rng.random() < 0.3
    subs, dd, shape = [], {}, {}
    for i in range(k):
        kind = rng.choice(["map_processed", "map_raw"]) if sizes[i][0][0] == sizes[i][0][1] else "map_processed"
        sub = scenario.make(rng, d, kind, total=rng.randint(1, 40), nfiles=rng.randint(1, 2), sizes=sizes[i],
                            symmetry=symmetry, fixed_side=fixed_side, fixed_board=fixed or False, mk=mk, options=False,
                            has_pass=hp, prefix=f"c{i}", pad_ok=False, shuffle=False)
        kw = {a: b for a, b in sub.kw.items() if a not in ("fixed_side_input", "shuffle", "apply_symmetry", "fixed_board_size")}
        dd[f"ch{i}"] = dict(dataset_type=sub.type, data_paths=[str(p) for p in sub.paths], **kw)
        subs.append(sub)
        shape.update(sub.shape_of)
    kw = dict(dataset_dict=dd, fixed_side_input=fixed_side, apply_symmetry=symmetry, boardsizes=sorted({z[0] for z in sizes}))
    if fixed:
        kw["fixed_board_size"] = fixed
    desc = dict(kind="multi", sizes=sizes, fixed=fixed, symmetry=symmetry, rows=[len(s.shape_of) for s in subs])
    return (lambda rt, **o: drive.build("multi", [], rt, **dict(kw, **o))), [s.index() for s in subs], shape, desc, subs


def ident(ctx, env, idxs, where):
    out = []
    rows = gen.rows_of(env.data)
    real = np.asarray(env.is_real)
    ctx.check(len(rows) == len(real) == len(env.sample_keys), "eval:lengths", f"{where}: {len(rows)} rows, {len(real)} mask entries, {len(env.sample_keys)} keys")
    for i, row in enumerate(rows):
        whys = []
        for x in idxs:
            rid, s = x.lookup(row)
            if rid is not None:
                break
            whys.append(s)
        if rid is None:
            ctx.fail("eval:unknown-sample", f"{where}: row {i}: {[w for w in whys if 'no record' not in w] or whys[:1]}")
        ctx.count("rows_identified")
        out.append((rid, s, bool(real[i]), env.sample_keys[i]))
    return out


def piped(ctx, env, args, where):
    """Each row carries the features of its own board."""
    from dataset.pipeline import build_data_pipeline
    new = {"line_encoding": ("line_encoding", "line_encoding_total_num"), "forbidden_point": ("forbidden_point",)}
    for name, kw in args.items():
        pl = build_data_pipeline({name: kw})[0]
        for i, row in enumerate(gen.rows_of(env.data)):
            one = pl.process({"board_input": np.asarray(row["board_input"]), "stm_input": np.asarray(row["stm_input"])})
            for k in new[name]:
                ctx.check(k in row, "eval:feature-missing", f"{where}: field {k} is missing")
                ctx.check(np.array_equal(np.asarray(row[k]).reshape(np.shape(one[k])), np.asarray(one[k])), "eval:feature-row",
                          f"{where}: {k} of row {i} does not belong to its board")
            ctx.count("features_checked")


def evaluate(ctx, rng, label):
    from utils.training_utils import build_data_loader
    d = ctx.tmp()
    build, idxs, shape, desc, subs = children(rng, d, label)
    world = rng.choice([1, 1, 2, 3, 4])
    B = world * rng.randint(1, rng.choice([2, 8, max(1, len(shape)), len(shape) + 9]))
    mode, seed = rng.choice(["validate", "test"]), rng.randrange(1 << 40)
    args, wide = {}, any(len(s.kw.get("board_input_channels") or (0, 1)) > 2 for s in subs)
    if rng.random() < 0.3 and not wide:
        if rng.random() < 0.7:
            args["line_encoding"] = dict(line_length=rng.choice([3, 5, 7, 11]), raw_code=rng.random() < 0.3)
        if rng.random() < 0.5 or not args:
            args["forbidden_point"] = dict(fixed_side_input=bool(rng.random() < 0.5))
    params = dict(desc, world=world, B=B, mode=mode, pipelines=args)
    with ctx.case(label, params):
        over = dict(pipeline_args=args) if args else {}
        where = f"{B} rows over {world} ranks"
        ranks = []
        for r in range(world):
            ds = build(drive.runtime(B, world=world, rank=r, seed=seed, mode=mode), **over)
            via = rng.random() < 0.4
            if via:      # loader settings never change what is evaluated
                it = build_data_loader(ds, batch_size=rng.choice([1, B]), shuffle=rng.random() < 0.3, num_workers=rng.choice([0, 2]), drop_last=rng.random() < 0.5,
                                       batch_by_boardsize=rng.random() < 0.5)
                ctx.count("loader_runs")
            else:
                it = ds
            envs = list(it)
            rows = [ident(ctx, e, idxs, f"{where}: rank {r} batch {i}") for i, e in enumerate(envs)]
            if rng.random() < 0.3:
                again = [ident(ctx, e, idxs, f"{where}: second pass of rank {r}") for e in it]
                ctx.check(again == rows, "eval:not-repeatable", f"{where}: a second pass over rank {r} delivers something else")
            for e in envs:
                piped(ctx, e, args, where)
                shapes = {tuple(np.asarray(x["board_input"]).shape[-2:]) for x in gen.rows_of(e.data)}
                ctx.check(len(shapes) == 1, "eval:mixed-shapes", f"{where}: a batch mixes board shapes {shapes}")
            ranks.append((envs, rows))
        steps = {len(e) for e, _ in ranks}
        ctx.check(len(steps) == 1, "eval:rank-steps", f"{where}: ranks deliver {[len(e) for e, _ in ranks]} batches")
        per = Counter(shape.values())
        want = sum(-(-n // B) for n in per.values())
        ctx.check(steps == {want}, "eval:batches", f"{where}: {steps} batches for {dict(per)} rows by shape, expected {want}")
        seen, keys, filler = Counter(), {}, 0
        for k in range(want):
            group = [ranks[r][1][k] for r in range(world)]
            ctx.check(all(len(g) == B // world for g in group), "eval:rank-rows", f"{where}: batch {k} has {[len(g) for g in group]} rows per rank")
            flat = [x for g in group for x in g]
            kinds = {shape[x[0]] for x in flat if x[0] in shape}
            ctx.check(len(kinds) == 1, "eval:mixed-shapes", f"{where}: ranks evaluate shapes {kinds} in one step")
            real = [x for x in flat if x[2]]
            ctx.check(real, "eval:empty-batch", f"{where}: batch {k} has no real row on any rank")
            for rid, s, m, key in flat:
                if m:
                    seen[rid] += 1
                    old = keys.setdefault(key, rid)
                    ctx.check(old == rid, "eval:key-shared", f"{where}: samples {old} and {rid} share the key {key!r}")
                else:
                    filler += 1
                    ctx.check(any(rid == x[0] for x in real), "eval:filler", f"{where}: filler row of batch {k} is {rid}, not one of its real rows")
            toks = [ranks[r][0][k].token for r in range(world)]
            ctx.check({t.batch_index for t in toks} == {k}, "eval:batch-index", f"{where}: batch {k} is numbered {[t.batch_index for t in toks]}")
            ctx.check({bool(t.is_last) for t in toks} == {k == want - 1}, "eval:last-flag", f"{where}: batch {k} of {want} has last flags {[t.is_last for t in toks]}")
            ctx.count("batches")
        twice = [r for r, n in seen.items() if n > 1]
        ctx.check(not twice, "eval:repeated", f"{where}: samples counted more than once: {twice[:10]}")
        lost = set(shape) - set(seen)
        ctx.check(not lost, "eval:lost", f"{where}: {len(lost)} of {len(shape)} samples are never evaluated as real rows")
        ctx.check(set(seen) <= set(shape), "eval:alien", f"{where}: samples that are filtered out were evaluated")
        ctx.check(len(keys) == len(seen), "eval:keys", f"{where}: {len(seen)} samples have {len(keys)} different keys")
        ctx.check(filler == sum(-n % B for n in per.values()), "eval:filler-count", f"{where}: {filler} filler rows for {dict(per)}")
        ctx.count("filler_rows", filler)
        ctx.seen("eval", desc["kind"], world, len(per), filler > 0, desc.get("symmetry"), tuple(seen)[:5])


def access(ctx, rng, label):
    """Random access, references and evaluation agree about every index."""
    d = ctx.tmp()
    build, idxs, shape, desc, subs = children(rng, d, label)
    with ctx.case(label, desc):
        ds = build(drive.runtime(4, mode="train"))
        ctx.check(len(ds) == len(shape), "access:length", f"{len(ds)} samples, expected {len(shape)}")
        got = {}
        order = list(range(len(ds)))
        rng.shuffle(order)
        for i in order:
            row = ds[i]
            hit = [x.lookup(row) for x in idxs]
            rid = next((r for r, _ in hit if r is not None), None)
            ctx.check(rid is not None, "access:unknown-sample", lambda: f"index {i}: {[w for _, w in hit]}")
            ref = ds.map_record_ref(i)
            ctx.check(ref.index == i, "access:reference", f"the reference of index {i} names {ref.index}")
            ctx.check(tuple(ref.output_shape) == tuple(np.asarray(row["board_input"]).shape[-2:]), "access:shape",
                      f"index {i} is announced as {ref.output_shape} and has {np.asarray(row['board_input']).shape[-2:]}")
            ctx.check(ref.sample_key not in got, "access:key-shared", f"index {i} shares its key with another index")
            got[ref.sample_key] = rid
            ctx.count("indices_read")
        ctx.check(sorted(map(str, got.values())) == sorted(map(str, shape)), "access:coverage", "the indices do not cover every sample once")
        for bad in (len(ds), len(ds) + 7):
            try:
                ds[bad]
                ok = False
            except IndexError:
                ok = True
            ctx.check(ok, "access:range", f"index {bad} of {len(ds)} samples was accepted")
        ctx.seen("access", desc["kind"], len(idxs))


# ------------------------------------------------------------------ collation
def sample(rng, g, H, W, opt, flat, pad):
    tens = rng.random() < 0.5
    ph, pw = H + pad, W + pad
    s = {"board_size": np.array([H, W], dtype=np.int8), "board_input": g.integers(0, 2, (2, ph, pw)).astype(np.int8),
         "stm_input": g.standard_normal(1).astype(np.float32), "value_target": g.random(3).astype(np.float32),
         "policy_target": g.random(ph * pw + 1 if flat else (ph, pw)).astype(np.float32)}
    if "rule_index" in opt:
        s["rule_index"] = np.array(g.integers(0, 3), dtype=np.int64)
    if "ply" in opt:
        s["ply"] = int(g.integers(0, 200))
    if "raw_eval" in opt:
        s["raw_eval"] = float(g.standard_normal())
    if "sparse_feature_input" in opt:
        s["sparse_feature_input"] = g.integers(0, 900, (12, ph, pw)).astype(np.int32)
        s["sparse_feature_dim"] = np.array([7, 8, 9], dtype=np.int32)
    if "last_move" in opt:
        s["last_move"] = g.integers(-1, H, 2).astype(np.int64)
    if "forbidden_point" in opt:
        s["forbidden_point"] = g.integers(0, 2, (ph, pw)).astype(np.int8)
    if "line_encoding" in opt:
        s["line_encoding"] = g.integers(0, 99, (4, ph, pw)).astype(np.int64)
        s["line_encoding_total_num"] = np.array(99, dtype=np.int64)
    if "position_string" in opt:
        s["position_string"] = "".join(f"{chr(97 + int(x))}{int(y) + 1}" for x, y in g.integers(0, H, (int(g.integers(0, 9)), 2)))
    return s


OPT = ["rule_index", "ply", "raw_eval", "sparse_feature_input", "last_move", "forbidden_point", "line_encoding", "position_string"]


def collation(ctx, rng, label):
    from dataset.stream import collate_sample_dicts
    g = np.random.default_rng(rng.getrandbits(60))
    H, W = rng.choice([(5, 5), (9, 9), (7, 9), (15, 15)])
    opt = [o for o in OPT if rng.random() < 0.4]
    flat, pad, n = rng.random() < 0.4, rng.choice([0, 0, 1, 3]), rng.randint(1, 20)
    rows = [sample(rng, g, H, W, opt, flat, pad) for _ in range(n)]
    tens = rng.choice(["np", "torch", "torch"])
    if tens == "torch":
        rows = [{k: torch.from_numpy(np.ascontiguousarray(v)) if isinstance(v, np.ndarray) else v for k, v in r.items()} for r in rows]
    keep = [{k: np.array(v) if not isinstance(v, (str, int, float)) else v for k, v in r.items()} for r in rows]
    if rng.random() < 0.5:
        for r in rows[1:]:       # field order within a sample is no part of its content
            items = list(r.items())
            rng.shuffle(items)
            r.clear()
            r.update(items)
    b = collate_sample_dicts(rows, validate_core_fields=rng.random() < 0.6)
    ctx.check(set(b) == set(keep[0]), "collate:fields", f"fields {sorted(set(b) ^ set(keep[0]))} differ after collation")
    for k in keep[0]:
        ctx.check(len(b[k]) == n, "collate:rows", f"field {k} has {len(b[k])} rows, expected {n}")
        for i in range(n):
            v, w = b[k][i], keep[i][k]
            same = v == w if isinstance(w, str) else np.array_equal(np.asarray(v).reshape(np.shape(w)) if np.size(v) == np.size(w) else v, np.asarray(w))   # scalars may carry a unit axis
            ctx.check(same, "collate:row", f"row {i} of field {k} is not the sample's value")
            if not isinstance(w, (str, int, float)):
                ctx.check(np.asarray(v).dtype == w.dtype, "collate:dtype", f"field {k} changes from {w.dtype} to {np.asarray(v).dtype}")
            ctx.count("fields_compared")
    # a sample changed later does not reach the batch
    snap = {k: np.array(b[k]) if not isinstance(b[k], list) else list(b[k]) for k in b}
    for r in rows:
        for k, v in r.items():
            if isinstance(v, (np.ndarray, torch.Tensor)) and v.ndim:
                v += 1
    ctx.check(all(np.array_equal(snap[k], np.asarray(b[k])) if not isinstance(b[k], list) else snap[k] == b[k] for k in b), "collate:aliased",
              "changing a sample after collation changes the batch")
    ctx.seen("collate", H, W, tuple(opt), flat, pad, tens)
    # samples that do not belong together are refused
    rows = [dict(r) for r in keep]
    if n < 2:
        return
    j = rng.randrange(n)
    bad = rng.choice(["missing", "extra", "shape", "shared", "kind", "policy", "required"])
    v = True
    if bad == "missing":
        k = rng.choice([o for o in keep[0]])
        del rows[j][k]
    elif bad == "extra":
        k = "ply2"
        rows[j][k] = 1
    elif bad == "shape":
        k = "board_input"
        rows[j][k] = g.integers(0, 2, (3, H + pad, W + pad)).astype(np.int8)
    elif bad == "shared":
        k = rng.choice([x for x in ("sparse_feature_dim", "line_encoding_total_num") if x in keep[0]] or [None])
        if k is None:
            return
        rows[j][k] = rows[j][k] + 1
    elif bad == "kind":
        k = "value_target"
        for r in rows:
            r[k] = np.array([1, 2, 3], dtype=np.int64)
    elif bad == "policy":
        k = "policy_target"
        rows[j][k] = g.random((H + pad) * (W + pad) + 2).astype(np.float32)
    else:
        k = rng.choice(["board_size", "board_input", "stm_input", "value_target", "policy_target"])
        for r in rows:
            del r[k]
    try:
        collate_sample_dicts(rows, validate_core_fields=True)
        ok = False
    except (ValueError, TypeError):
        ok = True
    ctx.check(ok, "collate:accepted", f"samples with {bad} trouble in field {k} (row {j}) were collated")
    ctx.count("refusals")


def run(ctx):
    ctx.rule = ("random map-style data sets (one format or several joined, mixed board shapes, padding, symmetries, side inputs) evaluated by "
                "every rank of 1-4, directly and through a loader; rows are identified by content against records generated "
                "independently; random access and references per index; generated samples collated and ill-matched samples refused. "
                "Non-trivial: distinct (format, ranks, shapes, tail, delivered rows)")
    for name, rng in ctx.cases("eval", 220, 6000, share=0.5):
        evaluate(ctx, rng, name)
    for name, rng in ctx.cases("access", 60, 1500, share=0.4):
        access(ctx, rng, name)
    for name, rng in ctx.cases("collate", 400, 20000):
        with ctx.case(name, sample=False):
            collation(ctx, rng, name)
    ctx.require("batches", 150)
    ctx.require("rows_identified", 1500)
    ctx.require("filler_rows", 100)
    ctx.require("indices_read", 300)
    ctx.require("loader_runs", 20)
    ctx.require("refusals", 80)
    ctx.require("features_checked", 100)
