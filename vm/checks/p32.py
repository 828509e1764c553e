"""P32: configuration mistakes are refused before anything is delivered; valid configurations work."""
import math
import os
import random
import shutil

import numpy as np

from .. import digest, drive, gen

NAN, INF = float("nan"), float("inf")
RAW, PROC, BATCH, SPARSE, SIMPLE, PACKED = ("iterative_katago_numpy", "iterative_processed_katago_numpy", "batched_processed_katago_numpy",
                                            "iterative_sparse_numpy", "simple_binary", "packed_binary")
MRAW, MPROC = "katago_numpy", "processed_katago_numpy"
STREAMS = [RAW, PROC, BATCH, SPARSE, SIMPLE, PACKED]
MAPS = [MRAW, MPROC]
KINDS = STREAMS + MAPS
DENSE = {MPROC, PROC, BATCH}
SEQ = {SIMPLE, PACKED}

_AT = ["warmup_iterations", "verify_iterations", "decision_interval", "freeze_after", "max_prefetch_threads", "max_prefetch_batches",
       "host_cache_budget_bytes"]


def bad_int(r):
    return r.choice([-1, -r.randint(2, 10**6), 2.5, "3", True, [4], NAN, 0, 0])


def bad_autotune(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice(["safe", 3, [1], 1.5])
    if k == 1:
        return {r.choice(["warmup", "freeze", "reuse_mode", "max_threads"]): 1}
    if k == 2:
        return {"reuse": r.choice(["maybe", "Exact", None, True])}
    if k == 3:
        return {"max_data_wait_fraction": r.choice([-0.01, 1.01, NAN, INF, "x"])}
    if k == 4:
        return {"target_producer_headroom": r.choice([0, -1.0, NAN, INF, "x"])}
    if k == 5:
        return {r.choice(["respect_explicit", "enabled"]): r.choice([1, "yes", None, 0])}
    if k == 6:
        return {"cache_dir": r.choice([3, ["x"], 1.5])}
    name = r.choice(_AT)
    return {name: r.choice([-1, 2.5, "3", True] + ([] if name in ("warmup_iterations", "verify_iterations") else [0]))}


# name -> (formats, valid value, invalid value); a None generator is not probed
def table(H):
    return {
        "sample_rate": (STREAMS, lambda r: r.choice([1, 1.0, 0.95, 0.75]), lambda r: r.choice([-0.1, 1.5, NAN, INF, -INF, "0.5", None, -r.random() - 1e-6, 1 + 1e-6 + r.random()])),
        "shuffle_window_size": (STREAMS, lambda r: r.choice([1, 2, 7, 40, 10**6]), bad_int),
        "shuffle_buffer_bytes": (STREAMS, lambda r: r.choice([None, 200_000, 1 << 30]), bad_int),
        "steps_per_epoch": (STREAMS, lambda r: r.choice([None, 1, 3, 50]), bad_int),
        "shuffle": (STREAMS, lambda r: r.random() < 0.5, lambda r: r.choice([1, "yes", None, 0, 2.0])),
        "apply_symmetry": (KINDS, lambda r: r.choice([True, False, "rotate", "flip", "flip_diag_rotate180", "default", None]),
                           lambda r: r.choice(["bogus", "Rotate", "flips", 2, ["flip"], "rotate90 "])),
        "rules": (KINDS, lambda r: r.choice([None, [], ["freestyle", "standard", "renju"], ("renju", "standard", "freestyle")]),
                  lambda r: r.choice([["freestyle", "standrad"], "freestyle", ["freestyle", "standard", "Renju"], ["gomoku"], ["renju", ""], ["freestyle", None]])),
        "boardsizes": (KINDS, lambda r: r.choice([None if H >= 9 else H, H, (H, H), [(H, H)], [(H, H), (H + 1, H + 1)]]),
                       lambda r: r.choice(["9", {H: H}, {(H, H)}, [[H, H]], float(H), object()])),
        "fixed_board_size": (KINDS, lambda r: r.choice([None, H, (H, H), (H + 3, H + 3), H + 1]),
                             lambda r: r.choice([H - 1, (H,), [H, H], 0, -H, str(H), (H + 0.5, H), (H, H, H), (H, H - 1), (H - 1, H + 4)])),
        "fixed_side_input": (KINDS, lambda r: r.random() < 0.5, None),
        "has_pass_move": ([RAW, PROC, BATCH, MRAW, MPROC, PACKED], lambda r: r.random() < 0.5, None),
        "filter_stm": ([RAW, MRAW], lambda r: r.choice([None, 1, -1]), lambda r: r.choice([0, 2, -2, "black", 1.5, [1], 100])),
        "filter_stm ": ([PROC, BATCH, MPROC], lambda r: r.choice([None, 1, -1]), lambda r: r.choice(["black", 1.5, [1]])),
        "value_td_level": ([RAW, MRAW], lambda r: r.choice([0, 1, 3, 4]), lambda r: r.choice([-1, -2, -5, 2.5, "1", 9, 1000, None])),
        "filter_condition": ([RAW, MRAW, PROC, BATCH, MPROC], None, lambda r: r.choice(["1", "(", "nosuch > 1", "1/0", 3, "", "__import__('os')"])),
        "board_input_channels": (list(DENSE), lambda r: r.choice([None, [0, 1], [1, 0]]), lambda r: r.choice([[0, 5], "01", [0, -3], [0.5, 1], [99, 0]])),
        "stm_input_channel": (list(DENSE), lambda r: r.choice([None, 0]), lambda r: r.choice([3, -3, "0", 0.5, 99])),
        "value_target_channels": (list(DENSE), lambda r: r.choice([None, [0, 1, 2], [2, 1, 0]]), lambda r: r.choice([[0, 1, 7], [-4, 0, 1], [0, 1.5, 2], "012"])),
        "drop_extra": ([SPARSE, SIMPLE, PACKED], lambda r: r.random() < 0.6, None),
        "sequential_active_streams": (list(SEQ), lambda r: r.choice([1, 2, 5]), bad_int),
        "sequential_read_quantum": (list(SEQ), lambda r: r.choice([1, 3, 256]), bad_int),
        "value_td_lambda": ([PACKED], lambda r: r.choice([0, 0.0, 0.3, 1, 1.0]), lambda r: r.choice([-0.1, 1.1, NAN, INF, "0.5", -1e-9, 2, None])),
        "dynamic_value_lambda": ([PACKED], lambda r: r.random() < 0.5, None),
        "multipv_temperature": ([PACKED], lambda r: r.choice([0, 0.05, 1.0]), lambda r: r.choice([-0.05, -1, NAN, INF, -INF, "0.1", None])),
        "use_mate_multipv": ([PACKED], lambda r: r.random() < 0.5, None),
        "winrate_model_args": ([PACKED], lambda r: r.choice([None, {}]), lambda r: r.choice([{"bogus": 1}, 3, "x", {"scale": 2}])),
        "prefetch_threads": ([BATCH], lambda r: r.choice([0, 1, 3]), lambda r: r.choice([-1, 2.5, "3", [4], -7])),
        "prefetch_batches": ([BATCH], lambda r: r.choice([1, 4, 16]), lambda r: r.choice([0, -1, 2.5, "3", [4]])),
        "observability": ([BATCH], lambda r: r.choice([None, True, False, {}, {"enabled": True}]),
                          lambda r: r.choice([{"bogus": 1}, "full", 3, {"enabled": "yes"}, {"enabled": 1}, [True], {"enable": True}])),
        "autotune": ([BATCH], lambda r: r.choice([None, False, {"enabled": False}, {"reuse": "off", "decision_interval": 5}]), bad_autotune),
    }


DEPRECATED = ["max_partition_per_file"]
INTERNAL = ["batch_size", "batch_pipelines", "file_list", "pipeline_stats", "seed", "epoch", "num_workers"]


def corpus(ctx, rng, kind, d, mk=None, prefix="x", nfiles=None):
    mk = mk or gen.Maker(rng)
    H = rng.choice([7, 9, 11])
    rows = [rng.randint(8, 14) for _ in range(nfiles or rng.randint(2, 4))]
    z = [(H, H)]
    if kind in (RAW, MRAW):
        c = gen.make_raw(mk, d, rows, z, prefix=prefix)
    elif kind in DENSE:
        c = gen.make_processed(mk, d, rows, z, prefix=prefix)
    elif kind == SPARSE:
        c = gen.make_sparse(mk, d, rows, z, prefix=prefix)
    elif kind == SIMPLE:
        c = gen.make_simple(mk, d, rows, z, prefix=prefix)
    else:
        c = gen.make_packed(mk, d, rows, z, prefix=prefix)
    return c, H


def attempt(kind, paths, kw, mode="train", batch=2, boards=None, exhaust=False):
    """(delivered anything?, error): the whole life of a configuration up to its first batch."""
    rt = drive.runtime(batch, mode=mode)
    kw = {k.strip(): v for k, v in kw.items()}
    kw.setdefault("boardsizes", boards)
    from dataset import build_dataset
    try:
        ds = build_dataset(kind, paths, runtime_context=rt, **kw)
        if hasattr(ds, "__iter__"):
            it = iter(ds)
            try:
                first = next(it)
                if exhaust:
                    for _ in it:
                        pass
                return first, None
            except StopIteration:
                return None, None
            finally:
                if hasattr(it, "close"):
                    it.close()
        if len(ds) == 0:
            return None, None
        return ds[0], None
    except Exception as e:  # noqa: BLE001 - any refusal counts
        return None, e


def show(kw):
    return {k: (repr(v) if not isinstance(v, (int, float, str, bool, list, tuple, dict, type(None))) else v) for k, v in kw.items()}


def must_accept(ctx, kind, paths, kw, where, mode="train", boards=None):
    got, err = attempt(kind, paths, kw, mode, boards=boards)
    ctx.check(err is None, "accept", lambda: f"{where}: valid configuration of {kind} refused: {type(err).__name__}: {err}; options {show(kw)}")
    ctx.check(got is not None, "accept:empty", lambda: f"{where}: valid configuration of {kind} delivers nothing; options {show(kw)}")
    ctx.count("valid_configurations_accepted")
    return got


def must_reject(ctx, kind, paths, kw, what, mode="train", boards=None, mech="reject"):
    # a composite may draw from its other children first
    got, err = attempt(kind, paths, kw, mode, boards=boards, exhaust=kind == "iterative_multi")
    ctx.check(err is not None, mech, lambda: f"{kind} ({mode}) accepted {what}" + (" and delivered data" if got is not None else " (nothing delivered)")
              + f"; options {show(kw)}")
    ctx.count("mistakes_rejected")
    ctx.count("rejected_by_" + ("value" if isinstance(err, ValueError) else "type" if isinstance(err, TypeError) else "other"))
    return err


def typo(r, name):
    for _ in range(20):
        s = list(name)
        k, i = r.randrange(5), r.randrange(len(s))
        if k == 0:
            del s[i]
        elif k == 1:
            s.insert(i, s[i])
        elif k == 2 and i + 1 < len(s):
            s[i], s[i + 1] = s[i + 1], s[i]
        elif k == 3:
            s[i] = r.choice("abcdefghijklmnopqrstuvwxyz_")
        else:
            s = list(name.upper() if r.random() < 0.3 else name.replace("_", "", 1) if "_" in name else name + "s")
        s = "".join(s)
        if s != name and s:
            return s
    return name + "_"


def options_case(ctx, p):
    rng = random.Random(p["seed"])
    kind = p["kind"]
    mode = rng.choice(["train", "train", "validate"]) if kind in STREAMS else rng.choice(["train", "validate"])
    if kind in SEQ and mode == "validate":
        mode = "train"
    d = ctx.tmp("opt")
    c, H = corpus(ctx, rng, kind, d)
    T = table(H)
    mine = [n for n, (ks, _, _) in T.items() if kind in ks]
    boards = [(H, H)]

    def valid_config():
        kw = {}
        for n in mine:
            ok = T[n][1]
            if ok is not None and rng.random() < 0.35:
                kw[n] = ok(rng)
        if kw.get("autotune") and isinstance(kw["autotune"], dict):
            kw["autotune"] = dict(kw["autotune"], cache_dir=str(d / "cache"))
            kw["prefetch_threads"] = max(1, kw.get("prefetch_threads", 1))      # tuning needs a worker
        return kw

    base = valid_config()
    if kind == SPARSE and rng.random() < 0.5:
        base["drop_extra"] = True
    got = must_accept(ctx, kind, [str(f) for f in c.files], base, "base", mode, boards)
    paths = [str(f) for f in c.files]
    data = got.data if hasattr(got, "data") else got
    ctx.check({"board_input", "stm_input", "value_target"} <= set(data), "accept:fields", lambda: f"{kind}: delivered fields {sorted(data)}")
    ctx.seen(kind, mode, tuple(sorted(base)))
    for n in rng.sample(mine, min(len(mine), 6)):
        bad = T[n][2]
        if bad is None:
            continue
        kw = dict(base)
        v = bad(rng)
        kw[n] = v
        if n.startswith("prefetch_"):
            kw.pop("autotune", None)        # tuning clamps its starting point into its own limits
        if n == "boardsizes" or n.strip() != n or n == "filter_stm":
            kw.pop("filter_condition", None)
        must_reject(ctx, kind, paths, kw, f"{n.strip()}={v!r}", mode, boards, mech="reject:value:" + n.strip())
        ctx.seen("bad", kind, n, repr(v)[:12])
        ctx.count("invalid_values_rejected")
    every = sorted({k.strip() for k in T})
    own = {k.strip() for k in mine} | {"pin_memory", "rules", "boardsizes", "fixed_side_input", "fixed_board_size", "apply_symmetry", "shuffle"}
    own.discard("sample_rate" if kind in MAPS else "")
    for _ in range(4):
        k = rng.randrange(4)
        if k == 0:
            name = typo(rng, rng.choice(sorted(own)))
        elif k == 1:
            others = [e for e in every if e not in own] + ["dataset_dict", "sync_length"]
            name = rng.choice(others)
        elif k == 2:
            name = rng.choice(DEPRECATED + INTERNAL)
        else:
            name = "".join(rng.choice("abcdefgh_") for _ in range(rng.randint(1, 12))).lstrip("_") or "q"
        if name in own or name in ("runtime_context", "pipeline_args", "dataset_type", "data_paths"):
            continue
        kw = dict(base)
        # a value that would be valid where the option exists
        v = T[name][1](rng) if name in T and T[name][1] is not None else rng.choice([None, True, False, 0, 1, 0.5, "x"])
        kw[name] = v
        err = must_reject(ctx, kind, paths, kw, f"unsupported option {name}={v!r}", mode, boards, mech="reject:unknown")
        ctx.check(name in str(err), "reject:unnamed", lambda: f"{kind}: the refusal of option {name!r} does not name it: {type(err).__name__}: {err}")
        ctx.count("unknown_options_rejected")
    # the refused attempts must not disturb a later valid one
    if rng.random() < 0.3:
        must_accept(ctx, kind, paths, base, "again", mode, boards)
    shutil.rmtree(d)


def alias(rng, f, d, i):
    """Another name for the same file, and what kind of alias it is."""
    f = str(f)
    base = os.path.basename(f)
    ext = os.path.splitext(base)[1]
    sub = d / f"alias{i}"
    sub.mkdir()
    k = rng.choice(["same", "dot", "dotdot", "slashes", "relative", "symlink", "symlink_chain", "symlink_dir", "hardlink", "directory", "linked_directory", "hardlink_of_symlink"])
    par = os.path.dirname(f)
    if k == "same":
        return f, k
    if k == "dot":
        return os.path.join(par, ".", base), k
    if k == "dotdot":
        return os.path.join(par, "..", os.path.basename(par), base), k
    if k == "slashes":
        return par + "//" + base, k
    if k == "relative":
        return os.path.relpath(f), k
    if k == "symlink":
        os.symlink(f, sub / ("other" + ext))
        return str(sub / ("other" + ext)), k
    if k == "symlink_chain":
        os.symlink(f, sub / ("a" + ext))
        os.symlink(sub / ("a" + ext), sub / ("b" + ext))
        return str(sub / ("b" + ext)), k
    if k == "symlink_dir":
        os.symlink(par, sub / "dir")
        return str(sub / "dir" / base), k
    if k == "hardlink":
        os.link(f, sub / ("hard" + ext))
        return str(sub / ("hard" + ext)), k
    if k == "directory":
        return par, k
    if k == "linked_directory":
        os.symlink(par, sub / "dir")
        return str(sub / "dir"), k
    os.link(f, sub / ("hard" + ext))
    os.symlink(sub / ("hard" + ext), sub / ("soft" + ext))
    return str(sub / ("soft" + ext)), k


def files_case(ctx, p):
    rng = random.Random(p["seed"])
    kind = p["kind"]
    d = ctx.tmp("files")
    (d / "data").mkdir()
    c, H = corpus(ctx, rng, kind, d / "data")
    boards = [(H, H)]
    mode = "train" if kind in SEQ else rng.choice(["train", "validate"])
    files = [str(f) for f in c.files]
    as_dir = rng.random() < 0.3
    plain = [str(d / "data")] if as_dir else list(files)
    # distinct files, one of them with the same content as another, are fine
    (d / "copies").mkdir()
    src = rng.choice(files)
    copy = str(d / "copies" / os.path.basename(src))
    shutil.copy(src, copy)
    must_accept(ctx, kind, plain + [copy], {}, "a copy of a file is a different file", mode, boards)
    kept = [f for f in files]
    for i in range(3):
        target = rng.choice(kept)
        other, k = alias(rng, target, d, i)
        paths = list(plain)
        paths.insert(rng.randrange(len(paths) + 1), other)
        if rng.random() < 0.3:
            paths.append(copy)
        must_reject(ctx, kind, paths, {}, f"the file {os.path.basename(target)} twice (second name: {k})", mode, boards, mech="reject:duplicate")
        ctx.count("duplicate_lists_rejected")
        ctx.seen("alias", kind, k)
        # one name alone, of whatever kind, is a valid way to point at data
        if k not in ("same",) and rng.random() < 0.4:
            must_accept(ctx, kind, [other], {}, f"files named through {k}", mode, boards)
    # missing paths
    missing = rng.choice([files[0] + ".gone" + os.path.splitext(files[0])[1], str(d / "nowhere"), str(d / "data" / "x" / "y.npz"), ""])
    os.symlink(d / "not-there", d / "dangling")
    missing = rng.choice([missing, str(d / "dangling")])
    paths = list(plain)
    paths.insert(rng.randrange(len(paths) + 1), missing)
    must_reject(ctx, kind, paths, {}, f"missing path {missing!r}", mode, boards, mech="reject:missing")
    must_reject(ctx, kind, [], {}, "an empty file list", mode, boards, mech="reject:no-files")
    (d / "empty").mkdir()
    (d / "empty" / "readme.md").write_text("nothing here")
    must_reject(ctx, kind, [str(d / "empty")], {}, "a directory without data files", mode, boards, mech="reject:no-files")
    shutil.rmtree(d)


def composite_case(ctx, p):
    rng = random.Random(p["seed"])
    d = ctx.tmp("comp")
    mk = gen.Maker(rng)
    kind = p["kind"]
    k = rng.randint(2, 3)
    kids, H = {}, None
    files = []
    for i in range(k):
        (d / f"c{i}").mkdir()
        seed = p["seed"] * 7 + 1
        # every child shares the board size of the first
        r2 = random.Random(seed)
        c, H = corpus(ctx, r2, kind, d / f"c{i}", mk=mk, prefix=f"c{i}", nfiles=2)
        files.append([str(f) for f in c.files])
        kids[f"k{i}"] = {"dataset_type": kind, "data_paths": list(files[-1])}
    boards = [(H, H)]
    T = table(H)
    kids["k0"]["blend_ratio"] = rng.choice([1, 2, 0.5, 1.5])

    def variant(**over):
        out = {n: dict(v) for n, v in kids.items()}
        for n, o in over.items():
            out[n].update(o)
        return out

    def run_bad(dd, what, mech, **common):
        ctx.count("composite_mistakes")
        must_reject(ctx, "iterative_multi", [], dict(common, dataset_dict=dd), what, "train", boards, mech="composite:" + mech)

    common = {n: T[n][1](rng) for n in ("sample_rate", "shuffle_window_size", "shuffle", "apply_symmetry", "fixed_side_input", "fixed_board_size")
              if rng.random() < 0.4}
    if rng.random() < 0.4:
        common["sync_length"] = rng.random() < 0.5
    must_accept(ctx, "iterative_multi", [], dict(common, dataset_dict=kids), "composite", "train", boards)
    victim = f"k{rng.randrange(k)}"
    other = rng.choice([n for n in kids if n != victim])
    target = rng.choice(kids[other]["data_paths"])
    name, how = alias(rng, target, d, 0)
    dup = variant(**{victim: {"data_paths": kids[victim]["data_paths"] + [name]}})
    run_bad(dup, f"a file of child {other} again in child {victim} ({how})", "duplicate", **common)
    ctx.count("duplicate_lists_rejected")
    ratio = rng.choice([0, -1, -0.5, NAN, INF, -INF, "x", None, 1e-9, 1 / 3, [1]])
    run_bad(variant(**{victim: {"blend_ratio": ratio}}), f"blend_ratio={ratio!r}", "ratio", **common)
    opt = rng.choice([n for n in ("fixed_side_input", "has_pass_move", "drop_extra", "fixed_board_size") if kind in T[n][0]])
    if opt not in common:
        v = (H + 2, H + 2) if opt == "fixed_board_size" else True
        run_bad(variant(**{victim: {opt: v}}), f"children that disagree on {opt}", "structure", **common)
        ctx.count("structural_conflicts")
    bad = rng.choice([n for n in T if kind in T[n][0] and T[n][2] is not None])
    v = T[bad][2](rng)
    while isinstance(v, set):     # a set of sizes is how a composite hands its own sizes down
        v = T[bad][2](rng)
    run_bad(variant(**{victim: {bad.strip(): v}}), f"child option {bad.strip()}={v!r}", "child-value:" + bad.strip())
    tn = typo(rng, rng.choice(["shuffle_window_size", "sample_rate", "fixed_side_input", "blend_ratio", "data_paths"]))
    if tn not in ("dataset_type",):
        run_bad(variant(**{victim: {tn: 1}}), f"unknown child option {tn}", "child-unknown", **common)
    t2 = rng.choice(["no_such_format", "", "Simple_binary", None, MRAW, MPROC])
    run_bad(variant(**{victim: {"dataset_type": t2}}), f"child type {t2!r}", "child-type", **common)
    gone = variant()
    del gone[victim]["dataset_type"]
    run_bad(gone, "a child without a type", "child-type", **common)
    v = rng.choice([tuple(files[0]), {files[0][0]: 1}, 3])
    run_bad(variant(**{victim: {"data_paths": v}}), f"data_paths of type {type(v).__name__}", "child-paths", **common)
    run_bad({}, "no children", "no-children", **common)
    run_bad(variant(), f"unknown option {tn} on the composite", "unknown", **dict(common, **{tn: 1}))
    shutil.rmtree(d)


def runtime_case(ctx, p):
    from dataset.core import DatasetRuntimeContext
    rng = random.Random(p["seed"])
    for _ in range(200):
        world = rng.choice([-1, 0, 1, 1, 2, 3, 8])
        rank = rng.choice([-1, 0, 0, 1, world - 1, world, world + 1])
        local = rng.choice([-4, -1, 0, 1, 2, 5, 128])
        g = rng.choice([local * world, local * world, local * world + 1, local, 0, -local * world])
        mode = rng.choice(["train", "validate", "test", "export", "visualize", "Train", "eval", "", None])
        seed = rng.choice([0, 1, -1, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 2**64, 12345])
        ok = (world >= 1 and 0 <= rank < world and local > 0 and g > 0 and local * world == g
              and mode in ("train", "validate", "test", "export", "visualize") and -2**63 <= seed < 2**63)
        args = dict(global_batch_size=g, local_batch_size=local, world_size=world, rank=rank, seed=seed, mode=mode)
        try:
            rt = DatasetRuntimeContext(**args)
            err = None
        except Exception as e:  # noqa: BLE001
            err = e
        if ok:
            ctx.check(err is None, "runtime:accept", lambda: f"valid runtime refused: {args}: {err}")
            ctx.check((rt.global_batch_size, rt.local_batch_size, rt.world_size, rt.rank, rt.seed, rt.mode) == (g, local, world, rank, seed, mode),
                      "runtime:fields", lambda: f"{args} became {rt}")
            ctx.count("runtimes_accepted")
        else:
            ctx.check(err is not None, "runtime:reject", lambda: f"invalid runtime accepted: {args}")
            ctx.count("runtimes_rejected")


def loader_case(ctx, p):
    """The loader refuses what a resumable stream cannot honour."""
    import torch
    from utils.training_utils import build_data_loader
    rng = random.Random(p["seed"])
    kind = p["kind"]
    d = ctx.tmp("ld")
    mk = gen.Maker(rng)
    many = rng.random() < 0.4 and kind in (RAW, PROC, BATCH, SPARSE)
    z = [(7, 7), (9, 9)] if many else [(9, 9)]
    make = {RAW: gen.make_raw, PROC: gen.make_processed, BATCH: gen.make_processed, SPARSE: gen.make_sparse, SIMPLE: gen.make_simple,
            PACKED: gen.make_packed}[kind]
    c = make(mk, d, [10, 10], z)
    paths = [str(f) for f in c.files]
    mode = "train" if kind in SEQ else rng.choice(["train", "train", "validate"])

    def attempt_loader(dkw, lkw, loader_shuffle=None, built=None):
        try:
            ds = drive.build(kind, paths, drive.runtime(2, mode=mode), **dkw)
            if built:
                ds._build_partitioned_stream()
            kw = dict(batch_size=2, drop_last=mode == "train", batch_by_boardsize=many)
            kw.update(lkw)
            if loader_shuffle is not None:
                kw["shuffle"] = loader_shuffle
            ld = build_data_loader(ds, **kw)
            it = iter(ld)
            n = next(it, None)
            return n, None
        except Exception as e:  # noqa: BLE001
            return None, e

    good = [({}, {}, None), ({"shuffle": True}, {}, True), ({"shuffle": True}, {"shuffle_buffer_size": rng.choice([1, 5, 500])}, True),
            ({"shuffle_window_size": 17, "shuffle": True}, {"shuffle_buffer_size": 17}, True), ({}, {"batch_by_boardsize": True}, None),
            ({}, {"num_workers": 0, "persistent_workers": False}, False)]
    if mode == "validate":
        good.append(({}, {"drop_last": True}, None))
    if mode == "train":         # a window given to the loader is the window given to the data set
        w = rng.choice([1, 2, 3, 7])
        run = []
        for how in ("data set", "loader", "loader of a built data set"):
            dkw = {"shuffle": True, **({"shuffle_window_size": w} if how == "data set" else {})}
            ds = drive.build(kind, paths, drive.runtime(2, mode=mode), **dkw)
            if "built" in how:
                drive.planner_of(ds)
            if how != "data set":
                build_data_loader(ds, batch_size=2, shuffle=True, shuffle_buffer_size=w, batch_by_boardsize=True)
            run.append([digest.envelope(e) for e in drive.epoch(ds)])
            ctx.check(run[-1] == run[0], "loader:window", lambda: f"{kind}: shuffle_buffer_size {w} given to the {how} delivers other batches than shuffle_window_size {w}")
            ctx.count("loader_windows")
    for dkw, lkw, sh in good:
        n, err = attempt_loader(dkw, lkw, sh)
        ctx.check(err is None and n is not None, "loader:accept", lambda: f"{kind} ({mode}): data set {dkw}, loader {lkw}, shuffle {sh}: {type(err).__name__}: {err}")
        ctx.count("loaders_accepted")
    bad = [
        ({}, {"num_workers": rng.choice([1, 2, 8])}, None), ({}, {"sampler": [0, 1]}, None), ({}, {"batch_sampler": [[0]]}, None),
        ({}, {"generator": torch.Generator()}, None), ({}, {"worker_init_fn": print}, None), ({}, {"persistent_workers": True}, None),
        ({}, {"in_order": False}, None), ({}, {"shuffle_buffer_size": rng.choice([0, -1, -100])}, None),
        ({"shuffle_window_size": 17}, {"shuffle_buffer_size": rng.choice([16, 18, 1, 32768])}, None),
        ({}, {typo(rng, "pin_memory"): True}, None),
    ]
    if mode == "train":
        bad.append(({}, {"drop_last": False}, None))
    if many:
        bad.append(({}, {"batch_by_boardsize": False}, None))
        bad.append(({}, {"batch_by_boardsize": False}, None))
    for dkw, lkw, sh in rng.sample(bad, 6) + bad[-1:]:
        # the shapes of a stream are known once its files were catalogued
        n, err = attempt_loader(dkw, lkw, sh, built=lkw.get("batch_by_boardsize") is False or rng.random() < 0.3)
        if "in_order" in lkw and isinstance(err, TypeError):
            continue
        ctx.check(err is not None, "loader:reject", lambda: f"{kind} ({mode}): accepted data set {dkw}, loader {lkw}, shuffle {sh}, shapes {z}")
        ctx.count("loader_mistakes_rejected")
        ctx.seen("loader", kind, tuple(dkw), tuple(lkw), sh)
    shutil.rmtree(d)


def pipelines_case(ctx, p):
    """Pipelines without a deterministic batch descriptor, or unknown ones, are refused by streams."""
    from dataset.pipeline import PIPELINES, BasePipeline
    rng = random.Random(p["seed"])
    d = ctx.tmp("pp")
    kind = p["kind"]
    c, H = corpus(ctx, rng, kind, d)
    paths = [str(f) for f in c.files]
    from .. import pipes
    pipes.register()
    if "vm_plain" not in PIPELINES:
        @PIPELINES.register("vm_plain")
        class VmPlain(BasePipeline):
            def process(self, data):
                return data
    boards = [(H, H)]
    must_accept(ctx, kind, paths, {"pipeline_args": {"vm_counter": {}}}, "a batch pipeline", "train", boards)
    name = typo(rng, "vm_counter")
    for args, what in (({"vm_plain": {}}, "a per-sample pipeline"), ({name: {}}, f"unknown pipeline {name!r}"),
                       ({"vm_counter": {"begin": 2}}, "an unknown pipeline option"), ({"vm_counter": {}, "vm_plain": {}}, "one unsupported pipeline among two")):
        must_reject(ctx, kind, paths, {"pipeline_args": args}, what, "train", boards, mech="reject:pipeline")
        ctx.count("pipeline_mistakes_rejected")
    shutil.rmtree(d)


def provenance_case(ctx, p):
    import yaml
    from utils.config_utils import parse_run_provenance
    rng = random.Random(p["seed"])
    fields = ["git_commit", "torch_version", "cuda_version", "accelerate_version"]
    for _ in range(60):
        val = {f: rng.choice([None, "", "abc", "2.1", "'quoted'", "ünï", "null", "1e5"]) for f in fields}
        ok = True
        k = rng.randrange(7)
        if k == 0:
            del val[rng.choice(fields)]
            ok = False
        elif k == 1:
            val[typo(rng, rng.choice(fields))] = "x"
            ok = False
        elif k == 2:
            val[rng.choice(fields)] = rng.choice([1, 2.5, True, ["a"], {"a": 1}])
            ok = False
        elif k == 3:
            f = rng.choice(fields)
            val[typo(rng, f)] = val.pop(f)
            ok = False
        arg = val
        if rng.random() < 0.5:
            arg = yaml.safe_dump(val, allow_unicode=rng.random() < 0.5)
        elif not ok and rng.random() < 0.1:
            arg = rng.choice([None, 3, [], list(val), "just text", "- a\n- b", ""])
        try:
            got, err = parse_run_provenance(arg), None
        except Exception as e:  # noqa: BLE001
            got, err = None, e
        if ok:
            ctx.check(err is None and got == val, "provenance:accept", lambda: f"{arg!r} gave {got!r} / {err}")
        else:
            ctx.check(err is not None, "provenance:reject", lambda: f"accepted {arg!r}")
        ctx.count("provenance_records")


def run(ctx):
    ctx.rule = ("random valid configurations of every data set format must deliver data, and each of their options set to a value outside its range, "
                "every misspelt, foreign or removed option, every second name of a listed file (relative, linked, hard-linked, by directory), missing "
                "paths, conflicting or malformed composite children, runtime shapes, loader options and pipelines must be refused before anything is "
                "delivered. Non-trivial: distinct (format, options) configurations, mistakes and file aliases")
    ctx.budget = ctx.n(60, 600)
    plan = [("options", options_case, KINDS, 640, 12000, 0.4), ("files", files_case, STREAMS, 144, 3000, 0.2), ("composite", composite_case, STREAMS, 120, 2500, 0.2),
            ("loader", loader_case, STREAMS, 48, 900, 0.2), ("pipelines", pipelines_case, STREAMS, 12, 200, 0.1), ("runtime", runtime_case, [""], 12, 300, 0.1),
            ("provenance", provenance_case, [""], 12, 300, 0.1)]
    for label, fn, kinds, q, t, share in plan:
        for name, rng in ctx.cases(label, q, t, share=share):
            p = {"kind": kinds[int(name.split("#")[1]) % len(kinds)], "seed": rng.getrandbits(40)}
            with ctx.case(name, p):
                fn(ctx, p)
    for k, n in (("valid_configurations_accepted", 100), ("mistakes_rejected", 500), ("invalid_values_rejected", 100), ("unknown_options_rejected", 100),
                 ("duplicate_lists_rejected", 30), ("composite_mistakes", 60), ("structural_conflicts", 3), ("loaders_accepted", 20), ("loader_mistakes_rejected", 20),
                 ("runtimes_accepted", 20), ("runtimes_rejected", 200), ("pipeline_mistakes_rejected", 8), ("provenance_records", 100)):
        ctx.require(k, n)
