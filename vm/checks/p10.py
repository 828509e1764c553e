"""Augmentation: one symmetry for every field, lossless, in place of nothing else."""
import hashlib
from collections import Counter, defaultdict

import numpy as np

from vm import digest, drive, gen, scenario

TYPES = [False, None, True, "default", "rotate", "flip", "flip_diag_rotate180"]
SPARSE_SIDE = [4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]


def fields(rng, H, W, mk, plane=None):
    """Random valid sample; plane = physical (padded) size."""
    from utils.data_utils import Move
    npr = mk.np
    ph, pw = plane or (H, W)
    b = mk.board(H, W)
    bd = rng.choice([np.int8, np.int8, np.int16, np.uint8])
    chans = rng.choice([2, 2, 3]) if rng.random() < 0.2 else 2
    board = np.zeros((chans, ph, pw), bd)
    board[:2, :H, :W] = b
    if chans == 3:
        board[2, :H, :W] = npr.integers(0, 2, (H, W))
    vt = npr.integers(0, 512, rng.choice([3, 3, 3, 5])).astype(rng.choice([np.float32, np.float32, np.float64])) / 512
    pd = rng.choice([np.float32, np.float32, np.int8, np.int16])
    p = np.zeros((ph, pw), pd)
    p[:H, :W] = npr.integers(0, 100, (H, W))
    flat = rng.random() < 0.5
    if flat:
        p = np.concatenate([p.reshape(-1), npr.integers(0, 100, 1).astype(pd)])
    data = {
        "board_size": np.array([H, W], rng.choice([np.int8, np.int64])),
        "board_input": board,
        "stm_input": np.array([rng.choice([-1.0, 1.0, 1.0, 0.0])], np.float32),
        "value_target": vt, "policy_target": p,
    }
    if rng.random() < 0.5:
        s = npr.integers(0, 2000, (12, ph, pw)).astype(rng.choice([np.int32, np.uint16, np.float32]))
        s[:, H:, :] = 0
        s[:, :, W:] = 0
        data["sparse_feature_input"] = s
        data["sparse_feature_dim"] = npr.integers(1, 3000, 12).astype(np.int32)
    if rng.random() < 0.5:
        k = rng.randint(0, 12)
        pos = [None if rng.random() < 0.12 else (rng.randrange(W), rng.randrange(H)) for _ in range(k)]
        data["position"] = [Move.PASS if m is None else Move(*m) for m in pos]
    for k, v in (("rule_index", np.array(rng.randrange(3))), ("ply", np.array(rng.randrange(200))),
                 ("raw_eval", np.array(rng.random(), np.float32))):
        if rng.random() < 0.4:
            data[k] = v
    return data


def expect(data, s, fixed_side, fixed_board, drop_extra):
    """Independent statement of the augmentation."""
    H, W = (int(v) for v in data["board_size"])
    e = {k: (list(v) if isinstance(v, list) else np.array(v)) for k, v in data.items()}
    if fixed_side and float(e["stm_input"][0]) > 0:
        e["board_input"] = e["board_input"][::-1].copy()
        v = e["value_target"].copy()
        v[0], v[1] = e["value_target"][1], e["value_target"][0]
        e["value_target"] = v
        if "sparse_feature_input" in e:
            e["sparse_feature_input"] = e["sparse_feature_input"][SPARSE_SIDE].copy()

    def sp(a):
        out = a.copy()
        out[..., :H, :W] = gen.sym_plane(s, np.ascontiguousarray(a[..., :H, :W]), H, W)
        return out

    def grow(a):
        if fixed_board is None:
            return a
        z = np.zeros((*a.shape[:-2], *fixed_board), a.dtype)
        z[..., : a.shape[-2], : a.shape[-1]] = a
        return z

    ph, pw = e["board_input"].shape[-2:]
    for k in ("board_input", "sparse_feature_input"):
        if k in e:
            e[k] = grow(sp(e[k]))
    p = e["policy_target"]
    if p.ndim == 1:
        e["policy_target"] = np.concatenate([grow(sp(p[:-1].reshape(ph, pw))).reshape(-1), p[-1:]])
    else:
        e["policy_target"] = grow(sp(p))
    if "position" in e:
        pos = [None if m.is_pass else (m.x, m.y) for m in e.pop("position")]
        pos = [m if m is None else gen.sym_move(s, *m, H, W) for m in pos]
        e["position_string"] = "".join(gen.move_str(m) for m in pos)
        last = pos[-1] if pos else None
        e["last_move"] = np.array(last if last is not None else (-1, -1))
    if drop_extra:
        core = ("board_size", "board_input", "stm_input", "value_target", "policy_target")
        e = {k: e[k] for k in core}
    return e


def differs(e, g, types=True):
    if set(e) != set(g):
        return f"fields {sorted(g)} instead of {sorted(e)}"
    for k, a in e.items():
        b = g[k]
        if isinstance(a, (str, list)):
            if a != b:
                return f"{k}: {b!r} != {a!r}"
            continue
        a, b = np.asarray(a), np.asarray(b)
        if k in ("rule_index", "ply", "raw_eval"):      # scalar metadata may carry a unit axis
            a, b = a.reshape(-1), b.reshape(-1)
        if a.shape != b.shape:
            return f"{k}: shape {b.shape} != {a.shape}"
        if not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            return f"{k}: values differ at {np.argwhere(a != b)[:4].tolist()}"
        if types and k in ("board_input", "policy_target", "value_target", "sparse_feature_input") and a.dtype != b.dtype:
            return f"{k}: dtype {b.dtype} != {a.dtype}"
    return None


def freeze(data):
    for v in data.values():
        if isinstance(v, np.ndarray):
            v.setflags(write=False)
    return data


def content(data):
    return digest.of({k: ([str(m) for m in v] if isinstance(v, list) else v) for k, v in data.items()})


def dims(rng):
    H = rng.choice([5, 6, 7, 9, 10, 13, 15, 19, 20, 22])
    return (H, H) if rng.random() < 0.65 else (H, rng.choice([4, 6, 8, 9, 11, 15, 22]))


def unit_case(ctx, name, rng):
    from utils.data_utils import post_process_data
    mk = gen.Maker(rng)
    H, W = dims(rng)
    padded = rng.random() < 0.25
    plane = (H + rng.randint(0, 4), W + rng.randint(0, 4)) if padded else (H, W)
    data = freeze(fields(rng, H, W, mk, plane))
    sym = rng.choice(TYPES)
    fs = rng.random() < 0.5
    fb = None
    if rng.random() < 0.4:
        fb = (plane[0] + rng.randint(0, 5), plane[1] + rng.randint(0, 5))
        if data["policy_target"].ndim == 1 and plane != (H, W):
            fb = None       # flat policies are padded from the logical board only
    drop = rng.random() < 0.3
    opts = dict(fixed_side_input=fs, fixed_board_size=fb, symmetry_type=sym, drop_extra=drop)
    with ctx.case(name, dict(H=H, W=W, plane=plane, stm=float(data["stm_input"][0]), fields=sorted(data), **opts), sample=False):
        before = content(data)
        if sym and sym not in (True, "default") and H != W:
            try:
                post_process_data(dict(data), symmetry_index=0, **opts)
            except ValueError:
                ctx.count("refused_nonsquare")
            else:
                ctx.fail("augment:shape-changing-symmetry", f"{sym} accepted for a {H}x{W} board")
            return
        allowed = gen.allowed_syms(sym, H, W)
        images = [expect(data, s, fs, fb, drop) for s in allowed]
        got = []
        for i in range(len(allowed)):
            g = post_process_data(dict(data), symmetry_index=i if sym else None, **opts)
            hit = [s for s, e in zip(allowed, images) if differs(e, g) is None]
            ctx.check(hit, "augment:wrong-sample",
                      lambda: f"result is not the sample under any allowed symmetry; closest: "
                              f"{[(gen.SYM_NAMES[s], differs(e, g)) for s, e in zip(allowed, images)][:8]}")
            got.append(hit[0])
            ctx.check(content(data) == before, "augment:input-modified", "post-processing changed its input arrays")
            out = [v for v in g.values() if isinstance(v, np.ndarray) and v.ndim > 1]
            ctx.check(all(min(v.strides) >= 0 for v in out), "augment:strides", "delivered array has negative strides")
            ctx.count("samples_checked")
            if not sym:
                break
        if sym:
            ctx.check(sorted(got) == sorted(allowed), "augment:choice-map",
                      f"{sym}: choices select {[gen.SYM_NAMES[s] for s in got]}, allowed {[gen.SYM_NAMES[s] for s in allowed]}")
            a = post_process_data(dict(data), **opts)
            copy = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in data.items()}
            b = post_process_data(copy, **opts)
            ctx.check(any(differs(e, a) is None for e in images), "augment:wrong-sample", "keyless augmentation is not an allowed image")
            ctx.check(differs(a, b) is None, "augment:keyless-unstable", "the same sample gets different keyless augmentations")
            for s, e in zip(allowed, images):
                if differs(e, a) is None:
                    ctx.extra.setdefault("keyless", Counter())[gen.SYM_NAMES[s]] += 1
                    ctx.count(f"keyless_{gen.SYM_NAMES[s]}")
                    break
            for bad in (len(allowed), 99):
                try:
                    post_process_data(dict(data), symmetry_index=bad, **opts)
                except (IndexError, ValueError):
                    ctx.count("refused_index")
                else:
                    ctx.fail("augment:index-range", f"symmetry index {bad} of {len(allowed)} accepted")
        ctx.seen(H, W, plane, str(sym), fs, fb, drop, tuple(sorted(data)))
        if fb and rng.random() < 0.5 and (H > 1 and W > 1):
            try:
                post_process_data(dict(data), fixed_board_size=(plane[0] - 1, fb[1]))
            except (ValueError, RuntimeError):
                ctx.count("refused_small_padding")
            else:
                ctx.fail("augment:cropped", "padding to a smaller board accepted")
        try:
            post_process_data(dict(data), symmetry_type=rng.choice(["rot", "Default", "none", "flips"]))
        except ValueError:
            ctx.count("refused_type")
        else:
            ctx.fail("augment:unknown-symmetry", "unknown symmetry type accepted")


def batch_case(ctx, name, rng):
    from utils.data_utils import post_process_batch, post_process_data
    mk = gen.Maker(rng)
    H, W = dims(rng)
    n = rng.randint(1, 9)
    proto = fields(rng, H, W, mk)
    proto.pop("position", None)
    flat = proto["policy_target"].ndim == 1
    rows = []
    while len(rows) < n:
        r = fields(rng, H, W, mk)
        r = {k: v for k, v in r.items() if k in proto}
        if set(r) != set(proto) or (r["policy_target"].ndim == 1) != flat or r["board_input"].shape != proto["board_input"].shape \
                or r["value_target"].shape != proto["value_target"].shape:
            r = {k: v.copy() for k, v in proto.items()}
            b = mk.board(H, W)
            r["board_input"][:2] = b
            r["stm_input"] = np.array([rng.choice([-1.0, 1.0])], np.float32)
            r["policy_target"] = mk.np.permutation(r["policy_target"])
        r = {k: v.astype(proto[k].dtype) for k, v in r.items()}
        if "sparse_feature_dim" in r:
            r["sparse_feature_dim"] = proto["sparse_feature_dim"]
        rows.append(r)
    batch = {k: np.stack([r[k] for r in rows]) for k in proto}
    freeze(batch)
    sym = rng.choice(TYPES if H == W else [False, True])
    fs = rng.random() < 0.5
    allowed = gen.allowed_syms(sym, H, W)
    keyed = rng.random() < 0.6
    with ctx.case(name, dict(H=H, W=W, n=n, sym=sym, fixed_side=fs, keyed=keyed), sample=False):
        idx = [rng.randrange(len(allowed)) for _ in range(n)] if sym and keyed else None
        before = digest.of(batch)
        g = post_process_batch(dict(batch), fixed_side_input=fs, symmetry_type=sym, symmetry_indices=idx)
        ctx.check(digest.of(batch) == before, "augment:input-modified", "batched post-processing changed its input")
        for i in range(n):
            row = {k: (v if k == "sparse_feature_dim" and np.asarray(v).ndim == 1 else v[i]) for k, v in g.items()}
            one = post_process_data({k: v[i] for k, v in batch.items()}, fixed_side_input=fs, symmetry_type=sym,
                                    symmetry_index=None if idx is None else idx[i])
            why = differs({k: np.asarray(v) for k, v in one.items()}, {k: np.asarray(v) for k, v in row.items()})
            ctx.check(why is None, "augment:batch-differs", lambda: f"row {i} of a batch differs from the single sample: {why}")
            ctx.check(any(differs(expect({k: v[i] for k, v in batch.items()}, s, fs, None, False), row) is None for s in allowed),
                      "augment:wrong-sample", f"row {i} of a batch is not an allowed image of the sample")
            ctx.count("samples_checked")
        if sym:
            try:
                post_process_batch(dict(batch), symmetry_type=sym, symmetry_indices=[0] * (n + 1))
            except ValueError:
                ctx.count("refused_index")
            else:
                ctx.fail("augment:index-length", "symmetry index list of the wrong length accepted")


def group_case(ctx, name, rng):
    """Moves and planes transform alike for every board size; symmetries are permutations closed under inverse."""
    from utils.data_utils import Move, Symmetry
    H, W = dims(rng)
    with ctx.case(name, dict(H=H, W=W), sample=False):
        plane = np.arange(H * W).reshape(H, W)
        images = {}
        for sy in Symmetry.available_symmetries((H, W)):
            t = sy.apply_to_array(plane.copy())
            ctx.check(t.shape == (H, W), "augment:shape", f"{sy} turns {H}x{W} into {t.shape}")
            ctx.check(sorted(t.reshape(-1)) == list(range(H * W)), "augment:lossy", f"{sy} loses cells")
            for y in range(H):
                for x in range(W):
                    m = sy.apply_to_move(Move(x, y), (H, W))
                    ctx.check(t[m.y, m.x] == plane[y, x], "augment:move-plane",
                              f"{sy}: move ({x},{y}) goes to ({m.x},{m.y}) but its cell does not")
            p = sy.apply_to_move(Move.PASS, (H, W))
            ctx.check(p.is_pass, "augment:pass", f"{sy} moves the pass move to {p!r}")
            images[sy] = t.tobytes()
            # axis arguments
            a = np.arange(2 * H * W).reshape(H, 2, W)
            t2 = sy.apply_to_array(a, y_dim=0, x_dim=2)
            ctx.check(np.array_equal(np.moveaxis(t2, 1, 0), sy.apply_to_array(np.ascontiguousarray(np.moveaxis(a, 1, 0)))),
                      "augment:axes", f"{sy}: axis arguments change the result")
            for bad in (Move(W, 0), Move(0, H)):
                try:
                    sy.apply_to_move(bad, (H, W))
                except ValueError:
                    ctx.count("refused_move")
                else:
                    ctx.fail("augment:off-board", f"{sy} accepts a move outside the board")
            ctx.count("symmetries_checked")
        ctx.check(len(set(images.values())) == len(images), "augment:duplicate-symmetry", "two symmetries are the same map")
        ctx.check(len(images) == (8 if H == W else 4), "augment:group-size", f"{len(images)} symmetries for {H}x{W}")
        if H != W:
            for sy in Symmetry:
                if sy not in images:
                    try:
                        sy.apply_to_move(Move(0, 0), (H, W))
                    except ValueError:
                        ctx.count("refused_nonsquare")
                    else:
                        ctx.fail("augment:shape-changing-symmetry", f"{sy} accepted on {H}x{W}")


def file_digests(paths):
    return [hashlib.sha256(open(p, "rb").read()).hexdigest() for p in paths]


def stream_case(ctx, name, rng, i):
    """Delivered rows of every source are allowed images of their records; the source stays as it was."""
    kinds = scenario.ITER_KINDS + ["map_processed", "map_raw"]
    kind = kinds[i % len(kinds)]
    sym = rng.choice([True, True, "rotate", "flip", "flip_diag_rotate180", False])
    sizes = scenario.SIZE_SETS[rng.choice(["one", "two", "one15"] if not kind.startswith("map_") else ["one", "one15"])]
    if sym in (True, False) and kind in ("processed", "batched", "map_processed") and rng.random() < 0.5:
        sizes = scenario.SIZE_SETS["rect"]
    fixed_side = rng.random() < 0.6
    scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(30, 70), sizes=sizes, symmetry=sym, fixed_side=fixed_side,
                         lz4=False)
    if not kind.startswith("map_"):
        B = scenario.batch_for(rng, scen, cap=12)
    else:
        B = 1
    seed = rng.randrange(1 << 40)
    with ctx.case(name, dict(scen.desc, B=B)):
        idx = scen.index()
        paths = [p for c in scen.corpora for p in c.files]
        before = file_digests(paths)
        seen = defaultdict(set)
        got_syms = Counter()
        if kind.startswith("map_"):
            ds = scen.build(drive.runtime(1, seed=seed))
            n = len(ds)
            for ep in range(3):
                for j in range(n):
                    row = ds[j]
                    rid, s = idx.lookup({k: np.asarray(v) if not isinstance(v, str) else v for k, v in row.items()})
                    if rid is None:
                        ctx.fail("augment:wrong-sample", f"index {j}: {s}")
                    seen[j].add(rid)
                    got_syms[s] += 1
                    ctx.count("delivered_rows")
            ctx.check(all(len(v) == 1 for v in seen.values()), "augment:record-changes", "an index delivers different records")
        else:
            ds = scen.build(drive.runtime(B, seed=seed))
            for ep in range(3):
                for env in drive.epoch(ds):
                    for rid, s, m in drive.identify(ctx, env, idx, mech="augment"):
                        got_syms[s] += 1
                        ctx.count("delivered_rows")
        ctx.check(file_digests(paths) == before, "augment:source-modified", "reading changed a data file")
        H, W = sizes[0]
        allowed = set().union(*[gen.allowed_syms(sym, *s) for s in sizes])
        ctx.check(set(got_syms) <= allowed, "augment:disallowed", f"symmetries {sorted(got_syms)} delivered, allowed {sorted(allowed)}")
        n = sum(got_syms.values())
        if n >= 60 * len(allowed) / 4 and n >= 60:
            ctx.check(set(got_syms) == allowed, "augment:never-chosen",
                      f"after {n} samples only {sorted(got_syms)} of {sorted(allowed)} were chosen")
        ctx.seen(name, tuple(sorted(got_syms.items())))


def run(ctx):
    ctx.rule = ("random samples of every board size (square and rectangular, padded or not, flat or spatial policy, sparse "
                "features, move lists) and streams of every format are augmented under each symmetry setting and compared "
                "field by field with an independent cell-permutation model. Non-trivial: distinct option combinations "
                "and delivered symmetry histograms")
    ctx.require("samples_checked", 800)
    ctx.require("delivered_rows", 1000)
    ctx.require("symmetries_checked", 100)
    for name, rng in ctx.cases("unit", 700, 20000, share=0.3):
        unit_case(ctx, name, rng)
    for name, rng in ctx.cases("batch", 160, 4000, share=0.15):
        batch_case(ctx, name, rng)
    for name, rng in ctx.cases("group", 60, 300, share=0.1):
        group_case(ctx, name, rng)
    for name, rng in ctx.cases("stream", 64, 900, share=0.4):
        stream_case(ctx, name, rng, int(name.split("#")[1]))
