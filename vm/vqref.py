"""Vector quantizer histories: inputs, a float64 transition reference, and a multi-rank worker."""
import os

import numpy as np

from . import zoo


def options(rng, dim, world=1):
    """Keyword arguments of one quantizer."""
    o = dict(codebook_size=rng.choice([4, 8, 16, 24]), dim_feature=dim, use_cosine_sim=rng.random() < 0.4,
             kmeans_init=rng.random() < 0.6, kmeans_sample_multiplier=rng.choice([1, 1, 2, 4]), kmeans_iter=rng.choice([1, 3, 10]),
             ema_update=rng.random() < 0.7, ema_decay=rng.choice([0.5, 0.8, 0.9, 0.97, 0.995]),
             threshold_ema_dead_code=rng.choice([0, 5e-3, 0.02, 0.1, 0.3]), reset_cluster_size=rng.choice([None, 1, 2, 0.5]),
             commitment_weight=rng.choice([0.25, 0.0, 1.0]), learnable_codebook=rng.random() < 0.7,
             rotation_trick=rng.random() < 0.4, stochastic_sampling=rng.random() < 0.2, sampling_temp=rng.choice([1.0, 0.1]),
             entropy_reg_weight=rng.choice([0.0, 0.0, 0.5]), entropy_reg_temp=rng.choice([0.1, 1.0]), use_simvq=rng.random() < 0.15)
    return o


class Source:
    """Inputs from shifting clusters: some disappear, duplicates and far outliers appear."""

    def __init__(self, rng, dim, scale=None):
        self.r = np.random.default_rng(rng.randrange(1 << 60))
        self.rng, self.dim = rng, dim
        self.scale = scale or rng.choice([0.05, 1.0, 1.0, 20.0])
        self.centres = self.r.normal(0, 1, (rng.choice([2, 5, 12, 40]), dim))
        self.live = np.arange(len(self.centres))

    def __call__(self, n):
        if self.rng.random() < 0.25:
            self.live = self.r.choice(len(self.centres), self.rng.randint(1, len(self.centres)), replace=False)
        x = self.centres[self.r.choice(self.live, n)] + self.r.normal(0, self.rng.choice([0.0, 0.05, 0.3]), (n, self.dim))
        if self.rng.random() < 0.2:
            x[self.r.integers(0, n)] *= 50
        if self.rng.random() < 0.2:
            x[self.r.integers(0, n)] = 0
        return (x * self.scale).astype(np.float32)


def unit(x, eps=1e-7):
    return x / np.maximum(np.linalg.norm(x, axis=-1, keepdims=True), eps)


def state_of(vq):
    return {k: v.detach().cpu().numpy().copy() for k, v in vq.state_dict().items()}


def seen_by(vq, x):
    """The rows the search works on, as float64."""
    x = np.asarray(x, np.float32).astype(np.float64)
    return unit(x) if vq["use_cosine_sim"] else x


def expired(o, size):
    """Codes whose normalised usage is under the limit, and whether any is too close to call."""
    limit = 0 if o["use_simvq"] else o["threshold_ema_dead_code"]
    norm = size.astype(np.float64) * len(size) / size.astype(np.float64).sum()
    if not limit:
        return np.zeros(len(size), bool), False
    return norm < limit, bool((np.abs(norm - limit) < 1e-4 * limit).any())


def codebook(o, embed, transform=None):
    """Codebook rows a forward looks up, from stored embeddings."""
    c = np.asarray(embed, np.float64)
    if transform is not None:
        c = c @ np.asarray(transform, np.float64).T
    if o["use_cosine_sim"] and not (o["ema_update"] and not o["use_simvq"]):
        c = unit(c)
    return c


def replaced(ctx, where, o, s0, s1, rows, idx, ex, distinct=True):
    """Input rows that took the place of expired codes, recovered from the state after the step."""
    ema = o["ema_update"] and not o["use_simvq"]
    reset = 1 if o["reset_cluster_size"] is None else o["reset_cluster_size"]
    d = o["ema_decay"]
    which = np.flatnonzero(ex)
    got = np.zeros((len(which), rows.shape[1]))
    for j, k in enumerate(which):
        if ema:
            got[j] = (s1["embed_avg"][k].astype(np.float64) - (1 - d) * rows[idx == k].sum(0)) / (d * reset)
        else:
            got[j] = s1["embed"][k]
    span = np.abs(rows).max() + 1e-9
    chosen, used = np.zeros_like(got), []
    for j in range(len(which)):
        err = np.abs(rows - got[j]).max(1)
        i = int(err.argmin())
        tol = 1e-5 * span * (1 + (idx == which[j]).sum() / reset) + 1e-7
        if not ctx.check(err[i] <= tol, "vq:replacement-not-input", lambda: f"{where}: dead code {which[j]} was replaced by a vector that is no input row (nearest differs by {err[i]:.3g})"):
            return None
        chosen[j] = rows[i]
        used.append(tuple(np.round(rows[i] / span, 4)))
    if distinct and len(which) <= len(rows):
        need = {}
        for r in rows:
            t = tuple(np.round(r / span, 4))
            need[t] = need.get(t, 0) + 1
        if all(used.count(t) <= need.get(t, len(used)) for t in set(used)):
            ctx.count("distinct_replacements")
        else:
            ctx.fail("vq:replacement-repeated", f"{where}: dead codes were replaced by the same input row although enough rows were there")
    ctx.count("replaced_codes", len(which))
    return chosen


def transition(ctx, where, o, s0, s1, rows, idx, count=None, transform=None, enough=None):
    """One training step of an initialised quantizer. Returns the codebook that was searched."""
    ex, close = expired(o, s0["cluster_size"])
    if close:
        ctx.count("undecided_expiry")
        return None
    if count is not None and not ctx.check(int(count) == int(ex.sum()), "vq:expired-count",
                                           lambda: f"{where}: {int(count)} codes were replaced, {int(ex.sum())} are under the limit {o['threshold_ema_dead_code']} "
                                                   f"(usage {np.sort(s0['cluster_size'] * len(ex) / s0['cluster_size'].sum())[:5]})"):
        return None
    ctx.count("steps_with_expiry" if ex.any() else "steps_without_expiry")
    embed, avg, size = (s0[k].astype(np.float64) for k in ("embed", "embed_avg", "cluster_size"))
    if ex.any():
        new = replaced(ctx, where, o, s0, s1, rows, idx, ex, enough is None or enough(int(ex.sum())))
        if new is None:
            return None
        reset = 1 if o["reset_cluster_size"] is None else o["reset_cluster_size"]
        embed[ex], avg[ex], size[ex] = new, new * reset, reset
    c = codebook(o, embed, transform)
    k, d = len(size), o["ema_decay"]
    size = d * size + (1 - d) * np.bincount(idx, minlength=k)
    ok = close_to(s1["cluster_size"], size, 1e-5, 1e-7)
    ctx.check(ok.all(), "vq:usage", lambda: f"{where}: usage of code {int((~ok).argmax())} is {s1['cluster_size'][(~ok).argmax()]}, expected {size[(~ok).argmax()]}")
    if o["ema_update"] and not o["use_simvq"]:
        sums = np.zeros_like(avg)
        np.add.at(sums, idx, rows)
        mag = np.zeros_like(avg)
        np.add.at(mag, idx, np.abs(rows))
        mag = d * np.abs(avg) + (1 - d) * mag
        want = d * avg + (1 - d) * sums
        bad = np.abs(s1["embed_avg"] - want) > 2e-5 * mag + 1e-7
        ctx.check(not bad.any(), "vq:moving-sum", lambda: f"{where}: the moving sum of code {int(bad.any(1).argmax())} differs from decayed sum plus new rows")
        total = size.sum()
        smooth = total * (size + 1e-5) / (total + k * 1e-5)
        e = s1["embed_avg"].astype(np.float64) / smooth[:, None]
        if o["use_cosine_sim"]:
            short = np.linalg.norm(e, axis=1) < 1e-5
            e = unit(e)
        else:
            short = np.zeros(k, bool)
        bad = (np.abs(s1["embed"] - e) > 2e-4 * (np.abs(e).max(1, keepdims=True) + 1e-7)).any(1) & ~short
        ctx.check(not bad.any(), "vq:codebook-mean", lambda: f"{where}: code {int(bad.argmax())} is not the mean of what it represents")
    else:
        bad = np.abs(s1["embed"] - embed) > 1e-6 * np.abs(embed).max() + 1e-12
        ctx.check(not bad.any(), "vq:codebook-moved", lambda: f"{where}: code {int(bad.any(1).argmax())} changed without an update rule")
    ctx.count("transitions")
    return c


def close_to(a, b, rel, floor):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return np.abs(a - b) <= rel * np.abs(b) + floor


def nearest(ctx, where, o, rows, c, idx, search=True):
    ctx.check(idx.shape == (len(rows),) and (idx >= 0).all() and (idx < len(c)).all(), "vq:index-range", lambda: f"{where}: indices of shape {idx.shape} in [{idx.min()}, {idx.max()}]")
    if not search:
        return
    if o["use_cosine_sim"]:
        d = 1 - rows @ c.T
        tol = np.full(len(rows), 5e-6)
    else:
        d = ((rows[:, None, :] - c[None]) ** 2).sum(-1)
        tol = 2e-5 * d.min(1) + 1e-6 * (np.abs(rows).max(1) ** 2) * 1e-4 + 1e-12
    bad = d[np.arange(len(rows)), idx] > d.min(1) + tol
    ctx.check(not bad.any(), "vq:not-nearest", lambda: f"{where}: row {int(bad.argmax())} got code {idx[bad.argmax()]} at {d[bad.argmax(), idx[bad.argmax()]]:.6g}, "
              f"nearest is {d[bad.argmax()].argmin()} at {d[bad.argmax()].min():.6g}")
    srt = np.sort(d, 1)
    ctx.count("decided_rows", int((srt[:, 1] - srt[:, 0] > 2 * tol).sum()))


def init_checks(ctx, where, o, samples, s1):
    """The codebook right after its warm-up."""
    k = o["codebook_size"]
    if len(samples) == k:
        ctx.check(np.allclose(s1["embed"], samples, rtol=1e-6, atol=1e-7) and np.allclose(s1["embed_avg"], samples, rtol=1e-6, atol=1e-7) and (s1["cluster_size"] == 1).all(),
                  "vq:init-samples", f"{where}: the first {k} rows did not become the codebook")
    else:
        n = s1["cluster_size"].astype(np.float64)
        ctx.check((n == np.round(n)).all() and (n >= 0).all() and n.sum() == len(samples), "vq:init-counts", f"{where}: clusters hold {n.sum()} of {len(samples)} warm-up rows")
        ctx.check(np.allclose(s1["embed_avg"], s1["embed"] * n[:, None].astype(np.float32), rtol=1e-5, atol=1e-6), "vq:init-sums", f"{where}: cluster sums differ from mean times size")
        if not o["use_cosine_sim"]:
            tot, want = s1["embed_avg"].astype(np.float64).sum(0), samples.sum(0)
            ctx.check((np.abs(tot - want) <= 1e-4 * np.abs(samples).sum(0) + 1e-6).all(), "vq:init-mass", f"{where}: cluster sums add up to {tot[:3]}, warm-up rows to {want[:3]}")
            u = n > 0
            span = np.abs(samples).max() * 1e-5 + 1e-7
            ctx.check((s1["embed"][u] <= samples.max(0) + span).all() and (s1["embed"][u] >= samples.min(0) - span).all(), "vq:init-range", f"{where}: a code lies outside the warm-up rows")
        else:
            ln = np.linalg.norm(s1["embed"].astype(np.float64), axis=1)
            ctx.check(((np.abs(ln - 1) < 1e-4) | (ln < 1e-4)).all(), "vq:init-norm", f"{where}: codes of a cosine codebook are not unit vectors")
    ctx.count("warm_ups")


def perplexity(counts):
    p = counts[counts > 0] / counts.sum()
    return float(np.exp(-(p * np.log(p)).sum()))


# ---- several ranks ------------------------------------------------------------

def ranks(cfg, rundir, fault, *extra):
    """One rank of a shared training history; returns what it did, step by step."""
    import torch
    import torch.distributed as dist
    from accelerate.state import PartialState
    PartialState(cpu=True)
    r, world = int(os.environ["RANK"]), int(os.environ["WORLD_SIZE"])
    from model.vq import VectorQuantize
    torch.manual_seed(cfg["seed"])
    o = dict(cfg["options"])
    if cfg.get("differ") and r == world - 1:
        o.update(cfg["differ"])
    out = dict(states=[], idx=[], count=[], error=None)
    try:
        vq = VectorQuantize(**o)
        for s, rows in enumerate(cfg["batches"]):
            torch.manual_seed(cfg["seed"] * 100 + s * 10 + r)
            x = torch.from_numpy(rows[r])
            mode = cfg["modes"][s]
            vq.train(mode)
            out["states"].append(state_of(vq))
            _, info = vq(x)
            out["idx"].append(None if info is None else info["embed_indices"].numpy())
            out["count"].append(None if info is None else float(info["num_expired_codes"]))
        out["states"].append(state_of(vq))
    except Exception as e:  # noqa: BLE001
        out["error"] = f"{type(e).__name__}: {e}"
    finally:
        if dist.is_initialized():
            try:
                dist.destroy_process_group()
            except Exception:  # noqa: BLE001
                pass
    return out
