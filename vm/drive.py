"""Client-side drivers over the public dataset API."""
import numpy as np

from . import gen


def runtime(batch, *, world=1, rank=0, seed=7, mode="train", local=None):
    from dataset.core import DatasetRuntimeContext
    return DatasetRuntimeContext(
        global_batch_size=batch, local_batch_size=batch // world if local is None else local,
        world_size=world, rank=rank, seed=seed, mode=mode)


def build(kind, paths, rt, **kw):
    from dataset import build_dataset
    kw.setdefault("boardsizes", [(s, s) for s in range(5, 23)])
    return build_dataset(kind, paths, runtime_context=rt, **kw)


def planner_of(ds):
    """The committed-stream coordinator of a dataset (public to the trainer)."""
    if getattr(ds, "_partitioned_stream", None) is None:
        ds._build_partitioned_stream()
    return ds._partitioned_stream


def epoch(ds, *, commit=True, limit=None):
    """One pass; yields envelopes, committing train transactions in order."""
    train = ds.runtime_context.mode == "train"
    n = 0
    for env in ds:
        yield env
        if train and commit:
            ds._partitioned_stream.commit_batch(env.token)
        n += 1
        if limit is not None and n >= limit:
            return


def identify(ctx, env, index, *, mech="content"):
    """[(rid, sym, is_real)] for one delivered envelope."""
    out = []
    rows = gen.rows_of(env.data)
    real = np.asarray(env.is_real)
    ctx.check(len(rows) == len(real), f"{mech}:mask-length", f"{len(rows)} rows but {len(real)} mask entries")
    for i, row in enumerate(rows):
        rid, s = index.lookup(row)
        if rid is None:
            ctx.fail(f"{mech}:unknown-sample", f"row {i} of batch {getattr(env.token, 'batch_index', '?')}: {s}")
        ctx.count("samples_identified")
        out.append((rid, s, bool(real[i])))
    return out
