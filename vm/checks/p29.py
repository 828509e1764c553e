"""P29: vector quantisation assigns nearest codes and keeps its codebook consistent."""
import copy

import numpy as np

from .. import forkserver, vqref

DIM = 8


def sofiles():
    import os
    return {f for _, _, fs in os.walk(os.environ["KEOPS_CACHE_FOLDER"]) for f in fs if f.endswith(".so")}


def warm(ctx):
    """Build the compiled searches, every shard starting with another one (see boot._Serialise)."""
    import torch
    base = dict(codebook_size=8, kmeans_init=False, threshold_ema_dead_code=0)

    def forward(n, training, dim=DIM, **o):
        vq = make(dict(base, dim_feature=dim, **o)).train(training)
        vq(torch.randn(n, dim))

    def kmeans(cos):
        vq = make(dict(base, dim_feature=DIM, use_cosine_sim=cos, kmeans_iter=1) | dict(kmeans_init=True, kmeans_sample_multiplier=2))
        vq(torch.randn(40, DIM))

    jobs = []
    for cos in (False, True):
        jobs += [lambda cos=cos, t=t: forward(20, True, use_cosine_sim=cos, stochastic_sampling=True, sampling_temp=t) for t in (1.0, 0.1)]
        jobs += [lambda cos=cos, t=t: forward(20, True, use_cosine_sim=cos, entropy_reg_weight=0.5, entropy_reg_temp=t) for t in (1.0, 0.1)]
        jobs += [
                 lambda cos=cos: forward(1, False, use_cosine_sim=cos),
                 lambda cos=cos: kmeans(cos),
                 lambda cos=cos: forward(20, False, dim=32, use_cosine_sim=cos)]
    jobs += [lambda: forward(20, False, use_cosine_sim=False), lambda: forward(20, False, use_cosine_sim=True)]
    off = ctx.shard * len(jobs) // max(1, ctx.shards)
    for i in [(off + k) % len(jobs) for k in range(len(jobs))]:
        jobs[i]()


def f64(t):
    return t.detach().cpu().double().numpy()


def make(o):
    from model.vq import VectorQuantize
    return VectorQuantize(**o)


def tensor(rng, a):
    """The same rows in another memory layout or precision."""
    import torch
    t = torch.from_numpy(np.ascontiguousarray(a))
    k = rng.randrange(8)
    if k == 0:
        t = torch.from_numpy(np.ascontiguousarray(a.T)).t()
    elif k == 1:
        t = torch.cat([t, t * 3], 1)[:, : t.shape[1]]
    elif k == 2:
        t = t.double()
    elif k == 3:
        t = t.half() if np.abs(a).max() < 6e4 else t
    return t


def pending(vq):
    f = getattr(vq, "_vq_init_continuation_state", None)
    return None if f is None else f()


def same(ctx, where, a, b, mechanism, what):
    bad = [k for k in a if a[k].tobytes() != b[k].tobytes()]
    return ctx.check(not bad, mechanism, lambda: f"{where}: {what}: {bad} differ")


def reload(ctx, rng, o, vq, where, used=None):
    """The quantizer saved and restored into a fresh object (or one that has already trained)."""
    import io
    import torch
    buf = io.BytesIO()
    torch.save(vq.state_dict(), buf)
    buf.seek(0)
    p = pending(vq)
    if p is not None:
        b2 = io.BytesIO()
        torch.save(p, b2)
        b2.seek(0)
        p = torch.load(b2)
    new = make(o) if used is None else used
    new.load_state_dict(torch.load(buf))
    if p is not None:
        new._load_vq_init_continuation_state(p)
        q = pending(new)
        ctx.check(q["samples"].numpy().tobytes() == p["samples"].numpy().tobytes() and q["count"] == p["count"], "vq:reload-pending", f"{where}: pending warm-up rows differ after a reload")
    new.train(vq.training)
    same(ctx, where, vqref.state_of(vq), vqref.state_of(new), "vq:reload", "state after a reload")
    ctx.count("reloads")
    return new


def tampered(ctx, rng, o, vq, where):
    """A damaged continuation payload must be refused and change nothing."""
    import torch
    p = pending(vq)
    if p is None:
        return
    target, count = p["descriptor"].get("target_samples", 0), p["count"]
    kinds = ["version", "extra", "missing", "descriptor", "inited", "count", "dtype", "type", "shape"] + (["nan"] if count else [])
    kind = rng.choice(kinds)
    t = copy.deepcopy(p)
    if kind == "version":
        t["version"] = rng.choice([0, 99, "1", None])
    elif kind == "extra":
        t["more"] = 1
    elif kind == "missing":
        del t[rng.choice(sorted(t))]
    elif kind == "descriptor":
        k = rng.choice(sorted(t["descriptor"]))
        v = t["descriptor"][k]
        t["descriptor"][k] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else "torch.float16"
    elif kind == "inited":
        t["inited"] = not t["inited"]
    elif kind == "count":
        t["count"] = rng.choice([count + 1, -1, target + 5, "3", float(count)])
    elif kind == "dtype":
        t["dtype"] = "torch.float64"
    elif kind == "type":
        t = rng.choice([None, [], "state", 3])
    elif kind == "shape":
        t["samples"] = torch.zeros(count + 1, p["samples"].shape[1])
    elif kind == "nan":
        t["samples"][rng.randrange(count), 0] = rng.choice([float("nan"), float("inf")])
    before, pb = vqref.state_of(vq), pending(vq)
    try:
        vq._load_vq_init_continuation_state(t)
        refused = False
    except (ValueError, TypeError, KeyError):
        refused = True
    ctx.check(refused, "vq:continuation-accepted", f"{where}: a continuation state with a damaged {kind} was accepted")
    pa = pending(vq)
    same(ctx, where, before, vqref.state_of(vq), "vq:refused-changed", "state after a refused continuation")
    ctx.check(pa["count"] == pb["count"] and pa["samples"].numpy().tobytes() == pb["samples"].numpy().tobytes(), "vq:refused-changed", f"{where}: pending rows changed by a refused continuation")
    ctx.count("refused")


def entropy_reference(o, rows, c):
    """Regulariser: minus the entropy of the mean soft assignment."""
    d = 1 - rows @ c.T if o["use_cosine_sim"] else np.sqrt(((rows[:, None] - c[None]) ** 2).sum(-1))
    z = -d / o["entropy_reg_temp"]
    z = np.exp(z - z.max(1, keepdims=True))
    p = (z / z.sum(1, keepdims=True)).mean(0)
    return float((p * np.log(np.maximum(p, 1e-7))).sum())


def outputs(ctx, where, o, vq, x, rows, c, xq, info, mask=None):
    """What a forward reports, against direct computation."""
    idx = info["embed_indices"].numpy()
    q = c[idx]
    span = np.abs(rows) + np.abs(q)
    bad = np.abs(f64(xq) - q) > 2e-5 * (np.linalg.norm(rows, axis=1) + np.linalg.norm(q, axis=1))[:, None] + 1e-7
    if o["rotation_trick"]:
        bad &= (np.linalg.norm(rows, axis=1) > 1e-5)[:, None]      # the zero vector has no direction to rotate
    ctx.check(not bad.any(), "vq:output-not-code", lambda: f"{where}: row {int(bad.any(1).argmax())} is not code {idx[bad.any(1).argmax()]}")
    keep = np.ones(len(rows), bool) if mask is None else mask
    counts = np.bincount(idx[keep], minlength=len(c))
    if keep.any():
        per = vqref.perplexity(counts)
        ctx.check(abs(float(info["perplexity"]) - per) <= 1e-3 * per, "vq:perplexity", lambda: f"{where}: perplexity {float(info['perplexity'])}, expected {per}")
        ctx.check(abs(float(info["normalized_perplexity"]) - per / len(c)) <= 1e-3, "vq:normalized-perplexity", lambda: f"{where}: normalised perplexity {float(info['normalized_perplexity'])}, expected {per / len(c)}")
        mse = float(((q - rows)[keep] ** 2).mean())
        noise = 1e-5 * float((span[keep] ** 2).mean()) * 1e-2 + 1e-9
        terms = {"loss_embed": mse, "loss_commitment": mse, "loss": (1 + o["commitment_weight"]) * mse}
        if o["entropy_reg_weight"] > 0:
            e = entropy_reference(o, rows[keep], c)
            terms["loss_entropy"] = e
            terms["loss"] += o["entropy_reg_weight"] * e
        for k, v in terms.items():
            t = 2e-4 * abs(v) + noise + (2e-3 if o["entropy_reg_weight"] > 0 and k in ("loss", "loss_entropy") else 0)
            ctx.check(k in info and abs(float(info[k].detach()) - v) <= t, "vq:loss-" + k, lambda: f"{where}: {k} is {float(info[k].detach()) if k in info else None}, expected {v}")
        ctx.count("loss_terms", len(terms))
    else:
        ctx.check(float(info["loss"].detach()) == 0, "vq:empty-loss", f"{where}: no real entries, but a loss of {float(info['loss'].detach())}")
        ctx.count("empty_masks")
    st = info.get("loss_stats")
    if st is not None:
        sq = float(((q - rows)[keep] ** 2).sum())
        ctx.check(st["elements"] == int(keep.sum()) * rows.shape[1] and st["vectors"] == int(keep.sum()), "vq:stats-size", f"{where}: statistics over {st['vectors']} vectors, {int(keep.sum())} are real")
        for k in ("embed_sum", "commit_sum"):
            ctx.check(abs(float(st[k].detach()) - sq) <= 2e-4 * sq + 1e-6 * float((span[keep] ** 2).sum()) + 1e-9, "vq:stats-sum", lambda: f"{where}: {k} {float(st[k].detach())}, expected {sq}")
        if "probability_sum" in st:
            ctx.check(abs(float(st["probability_sum"].sum()) - keep.sum()) <= 1e-3 * max(1, keep.sum()), "vq:stats-probability", f"{where}: soft assignments of {int(keep.sum())} entries add up to {float(st['probability_sum'].sum())}")
    ctx.count("forwards")


def gradients(ctx, where, o, vq, rng, rows, c, x, xq, info, mask):
    """What reaches the encoder and the codebook, against the plain formulas (input already normalised)."""
    import torch
    r = np.random.default_rng(rng.randrange(1 << 60))
    idx, q = info["embed_indices"].numpy(), c[info["embed_indices"].numpy()]
    g = r.normal(0, 1, rows.shape).astype(np.float32)
    x.grad = None
    vq.embed.grad = None
    (xq * torch.from_numpy(g)).sum().backward(retain_graph=True)
    got = f64(x.grad)
    if not o["rotation_trick"]:
        ctx.check(np.array_equal(got, g.astype(np.float64)), "vq:straight-through", lambda: f"{where}: the gradient through the quantizer differs by {np.abs(got - g).max():.3g}")
    else:
        nu, nq = (np.linalg.norm(v, axis=1, keepdims=True) for v in (rows, q))
        u, e = rows / np.maximum(nu, 1e-6), q / np.maximum(nq, 1e-6)
        w = vqref.unit(u + e)
        gg = g.astype(np.float64)
        want = gg - 2 * w * (gg * w).sum(1, keepdims=True) + 2 * u * (gg * e).sum(1, keepdims=True)
        want *= nq / np.maximum(nu, 1e-6)
        use = (nu[:, 0] > 1e-5) & (np.linalg.norm(u + e, axis=1) > 1e-2)
        bad = (np.abs(got - want) > 1e-3 * np.abs(want).max(1, keepdims=True) + 1e-5).any(1) & use
        ctx.check(not bad.any(), "vq:rotated-gradient", lambda: f"{where}: row {int(bad.argmax())}: the rotated gradient differs by {np.abs(got - want)[bad.argmax()].max():.3g}")
        # a rotation with rescaling: lengths are preserved up to the ratio of norms
        ln = np.linalg.norm(got, axis=1) * nu[:, 0] / np.maximum(nq[:, 0], 1e-6)
        bad = (np.abs(ln - np.linalg.norm(gg, axis=1)) > 1e-2 * np.linalg.norm(gg, axis=1)) & use & (nq[:, 0] > 1e-5)
        ctx.check(not bad.any(), "vq:rotation-length", lambda: f"{where}: row {int(bad.argmax())}: the rotated gradient changed its length")
    ctx.check(vq.embed.grad is None or not vq.embed.grad.abs().sum() or o["use_simvq"], "vq:task-gradient-in-codebook", f"{where}: the task gradient reaches the codebook")
    if o["entropy_reg_weight"] > 0:
        return
    x.grad = None
    info["loss"].backward()
    keep = np.ones(len(rows), bool) if mask is None else mask
    size = max(1, int(keep.sum())) * rows.shape[1]
    want = 2 * o["commitment_weight"] * (rows - q) / size * keep[:, None]
    tol = 1e-4 * np.abs(want).max() + 1e-6 * (np.abs(rows).max() + np.abs(q).max()) / size
    ctx.check(np.abs(f64(x.grad) - want).max() <= tol, "vq:commitment-gradient", lambda: f"{where}: commitment gradient differs by {np.abs(f64(x.grad) - want).max():.3g}")
    if vq.embed.requires_grad and not o["use_simvq"] and not o["use_cosine_sim"]:
        want = np.zeros_like(c)
        np.add.at(want, idx, 2 * (q - rows) / size * keep[:, None])
        got = np.zeros_like(c) if vq.embed.grad is None else f64(vq.embed.grad)
        ctx.check(np.abs(got - want).max() <= 1e-4 * np.abs(want).max() + 1e-6 * (np.abs(rows).max() + np.abs(q).max()) / size, "vq:codebook-gradient", lambda: f"{where}: codebook gradient differs by {np.abs(got - want).max():.3g}")
        ctx.count("codebook_gradients")
    elif not vq.embed.requires_grad:
        ctx.check(vq.embed.grad is None, "vq:frozen-gradient", f"{where}: a codebook that follows averages received a gradient")
    ctx.count("gradients")


def history(ctx, rng, label):
    """One quantizer through training, evaluation, reloads and damage."""
    import torch
    dim = DIM
    o = vqref.options(rng, dim)
    torch.manual_seed(rng.randrange(1 << 30))
    vq = make(o)
    src = vqref.Source(rng, dim)
    where0 = f"{label}: {o}"
    target = o["codebook_size"] * o["kmeans_sample_multiplier"]
    waiting, ready = [], not o["kmeans_init"]
    usage, collecting = None, True
    spare = None
    for step in range(rng.randint(6, 26)):
        where = f"{where0}: step {step}"
        act = rng.random()
        if act < 0.1:
            fresh = reload(ctx, rng, o, vq, where, spare if ready and spare is not None and rng.random() < 0.5 else None)
            if ready:
                spare = vq
            vq, usage, collecting = fresh, None, True
            if getattr(vq, "_eval_cluster_size", None) is not None:
                vq.reset_eval_perplexity_stats()
            continue
        if act < 0.16:
            tampered(ctx, rng, o, vq, where)
            continue
        if act < 0.2 and ready and hasattr(vq, "reset_eval_perplexity_stats"):
            vq.reset_eval_perplexity_stats()
            usage, collecting = np.zeros(o["codebook_size"], int), True
            continue
        if act < 0.24 and ready and usage is not None:
            collecting = rng.random() < 0.5
            vq.set_eval_perplexity_stats_enabled(collecting)
            continue
        training = rng.random() < 0.75
        vq.train(training)
        soft = o["entropy_reg_weight"] > 0 or o["stochastic_sampling"]
        a = src(rng.choice([2 if soft else 1, 2, 5, 17, 40, 90, 160]) if rng.random() < 0.9 else rng.randint(2, 300))
        pre = rng.random() < 0.5 or not o["use_cosine_sim"]
        t = tensor(rng, a)
        a = t.float().numpy()
        if o["use_cosine_sim"] and pre:
            a = vqref.unit(a.astype(np.float64)).astype(np.float32)
            t = torch.from_numpy(a.copy())
        rows = vqref.seen_by(o, a)
        if o["use_cosine_sim"] and pre:
            rows = a.astype(np.float64)
        mask = None
        if not training and hasattr(vq, "set_eval_entry_mask"):
            if rng.random() < 0.4:
                mask = np.array([rng.random() < 0.6 for _ in rows]) if rng.random() < 0.85 else np.zeros(len(rows), bool)
                if soft and mask.sum() == 1:
                    mask[:2] = True
            vq.set_eval_entry_mask(None if mask is None else torch.from_numpy(mask))
        with_grad = ready and (pre or not o["use_cosine_sim"]) and t.dtype == torch.float32 and rng.random() < 0.5
        x = t.clone(memory_format=torch.preserve_format).requires_grad_() if with_grad else t
        s0, kept = vqref.state_of(vq), t.clone()
        where = f"{where} ({'train' if training else 'eval'}, {len(rows)} rows)"
        xq, info = vq(x, input_normalized=True) if o["use_cosine_sim"] and pre else vq(x)
        s1 = vqref.state_of(vq)
        ctx.check(torch.equal(t, kept), "vq:input-mutated", f"{where}: the forward changed its input")
        if not training:
            same(ctx, where, s0, s1, "vq:eval-changed", "evaluation changed the codebook state")
        if not ready:
            ctx.check(info is None and np.abs(f64(xq) - rows).max() <= 1e-6 * (1 + np.abs(rows).max()), "vq:warm-up-output", f"{where}: a quantizer without a codebook does not pass its input on")
            if training:
                waiting.append(rows[: target - sum(map(len, waiting))])
            n = sum(map(len, waiting))
            if n >= target:
                ctx.check(bool(s1["inited"]), "vq:not-initialised", f"{where}: {n} warm-up rows seen, {target} needed")
                vqref.init_checks(ctx, where, o, np.concatenate(waiting), s1)
                ready = True
            else:
                ctx.check(not bool(s1["inited"]), "vq:early-init", f"{where}: initialised after {n} of {target} rows")
                p = pending(vq)
                if p is not None:
                    w = np.concatenate(waiting) if waiting else np.zeros((0, dim))
                    ctx.check(p["count"] == n and np.allclose(p["samples"].numpy(), w, rtol=1e-6, atol=1e-6), "vq:pending-rows", f"{where}: the warm-up rows kept are not the first ones seen")
                    ctx.count("pending_states")
            continue
        if not ctx.check(info is not None, "vq:no-info", f"{where}: an initialised quantizer returned no information"):
            return
        idx = info["embed_indices"].numpy()
        w = f64(vq.code_transform.weight) if o["use_simvq"] and hasattr(vq, "code_transform") else None
        if training:
            c = vqref.transition(ctx, where, o, s0, s1, rows, idx, float(info["num_expired_codes"]), w)
            if c is None:
                continue
        else:
            c = vqref.codebook(o, s0["embed"], w)
            ctx.check(float(info["num_expired_codes"]) == 0, "vq:eval-expired", f"{where}: evaluation reports replaced codes")
        search = not (training and o["stochastic_sampling"])
        vqref.nearest(ctx, where, o, rows, c, idx, search)
        outputs(ctx, where, o, vq, x, rows, c, xq, info, mask)
        if with_grad:
            gradients(ctx, where, o, vq, rng, rows, c, x, xq, info, mask)
        if not training:
            if collecting:
                usage = np.zeros(o["codebook_size"], int) if usage is None else usage
                usage += np.bincount(idx if mask is None else idx[mask], minlength=len(c))
            got = getattr(vq, "_eval_cluster_size", None)
            if usage is not None and got is not None:
                ctx.check(np.array_equal(got.numpy(), usage), "vq:eval-usage", lambda: f"{where}: usage counts {got.numpy()[:6]}, expected {usage[:6]}")
                ctx.count("usage_counts")
            back = f64(vq.from_indices(info["embed_indices"]))
            ctx.check(np.abs(back - c[idx]).max() <= 1e-5 * (np.abs(c).max() + 1e-9), "vq:from-indices", f"{where}: looking up indices gives other vectors")
            if mask is None and rng.random() < 0.3:
                # every row for itself: the code does not depend on the rest of the batch
                perm = torch.randperm(len(t))
                _, i2 = vq(t[perm], input_normalized=True) if o["use_cosine_sim"] and pre else vq(t[perm])
                j = i2["embed_indices"].numpy()
                vqref.nearest(ctx, where + " reordered", o, rows[perm.numpy()], c, j)
                if usage is not None and collecting:
                    usage += np.bincount(j, minlength=len(c))
        ctx.seen("step", training, ready, tuple(sorted((k, str(v)) for k, v in o.items() if isinstance(v, bool))), bool((s0["cluster_size"] != s1["cluster_size"]).any()), min(len(rows), 6))
    # two copies of one state go on identically
    if ready:
        other = reload(ctx, rng, o, vq, where0)
        for k in range(2):
            a = torch.from_numpy(src(rng.randint(3, 60)))
            res = []
            for m in (vq, other):
                torch.manual_seed(5 + k)
                m.train()
                if hasattr(m, "set_eval_entry_mask"):
                    m.set_eval_entry_mask(None)
                q, i = m(a)
                res.append((q.detach().numpy().tobytes(), i["embed_indices"].numpy().tobytes()))
            ctx.check(res[0] == res[1], "vq:reload-diverges", f"{where0}: a restored quantizer answers differently")
            same(ctx, where0, vqref.state_of(vq), vqref.state_of(other), "vq:reload-diverges", "training after a reload")


def product(ctx, rng, label):
    """Groups of a product quantizer are independent quantizers."""
    import torch
    from model.vq import ProductVectorQuantize
    g = rng.choice([1, 2, 3])
    o = vqref.options(rng, 8)
    o.pop("dim_feature")
    o["stochastic_sampling"] = False
    torch.manual_seed(rng.randrange(1 << 30))
    pq = ProductVectorQuantize(dim_feature=8 * g, num_codebooks=g, **o)
    parts = [make(dict(o, dim_feature=8)) for _ in range(g)]
    src = vqref.Source(rng, 8 * g)
    # a group that replaces codes draws rows at random: keep that out of the comparison
    for m in list(pq.vq_modules) + parts:
        m.threshold_ema_dead_code = 0
    for m, s in zip(pq.vq_modules, parts):
        s.load_state_dict(m.state_dict())
    where = f"{label}: {g} groups, {o}"
    for step in range(rng.randint(3, 8)):
        x = torch.from_numpy(src(rng.randint(2, 120)))
        train = rng.random() < 0.7
        pq.train(train)
        seed = rng.randrange(1 << 30)
        torch.manual_seed(seed)
        q, info, raw = pq(x)
        torch.manual_seed(seed)
        qs, infos = [], []
        for j, s in enumerate(parts):
            s.train(train)
            a, b = s(x[:, 8 * j:8 * (j + 1)].contiguous())
            qs.append(a)
            infos.append(b)
        ctx.check(torch.equal(q.detach(), torch.cat([t.detach() for t in qs], 1)), "product:output", f"{where}: step {step}: the groups' outputs are not the parts' outputs side by side")
        ctx.check((info is None) == any(i is None for i in infos), "product:ready", f"{where}: step {step}: information while a group has no codebook")
        if info is not None:
            idx = torch.stack([i["embed_indices"] for i in infos], 1)
            ctx.check(torch.equal(info["embed_indices"], idx), "product:indices", f"{where}: step {step}: indices of the groups differ")
            for k in ("perplexity", "normalized_perplexity", "loss", "loss_embed", "loss_commitment"):
                want = np.mean([float(i[k].detach()) for i in infos])
                ctx.check(abs(float(info[k].detach()) - want) <= 1e-5 * abs(want) + 1e-9, "product:mean-" + k, lambda: f"{where}: step {step}: {k} {float(info[k].detach())}, mean of the groups {want}")
            if not train:
                use = (x.view(len(x), g, 8).norm(dim=2) > 1e-5).all(1).numpy() | (not o["rotation_trick"])
                ctx.check(np.allclose(f64(pq.from_indices(idx))[use], f64(q)[use], rtol=1e-4, atol=1e-4 * float(x.abs().max())), "product:from-indices", f"{where}: step {step}: looking up indices gives other vectors")
            ctx.count("product_forwards")
        for m, s in zip(pq.vq_modules, parts):
            same(ctx, where, vqref.state_of(m), vqref.state_of(s), "product:state", f"step {step}: a group's state")
    ctx.seen("product", g, tuple(sorted((k, str(v)) for k, v in o.items() if isinstance(v, bool))))


def lines(ctx, rng, label):
    """Quantising every distinct line once equals quantising every position."""
    import torch
    from model.mixnet import Mix9sVQNet
    if not hasattr(Mix9sVQNet, "_quantize_line_feature"):
        ctx.count("unobservable_lines")
        return
    o = vqref.options(rng, 16)
    for k in ("codebook_size", "dim_feature", "use_simvq", "stochastic_sampling"):
        o.pop(k)
    o["entropy_reg_weight"] = 0.0
    o["kmeans_init"] = False
    books, size = rng.choice([1, 2]), rng.choice([8, 16])
    torch.manual_seed(rng.randrange(1 << 30))
    dim = 32 * books
    net = Mix9sVQNet(dim_middle=16, dim_feature=dim, dim_policy=16, dim_value=32, dim_dwconv=16, codebook_size=size, num_codebooks=books, **o).eval()
    layer = rng.randrange(2)
    b, n, h, w = rng.randint(1, 4), rng.choice([1, 2]), rng.randint(2, 7), rng.randint(2, 7)
    r = np.random.default_rng(rng.randrange(1 << 60))
    enc = r.integers(0, rng.choice([3, 40, 4000]), (b, n, h, w)).astype(np.int32) * 7 + 11
    enc[:, 0, 0, 0], enc[:, 0, 0, 1] = 11, 18
    table = r.normal(0, 1, (enc.max() + 1, dim)).astype(np.float32)
    feat = torch.from_numpy(np.moveaxis(table[enc], -1, 2).copy())
    real = rng.random() < 0.5 and np.array([rng.random() < 0.6 for _ in range(b)])
    pq = net.vq_layers[layer]
    with torch.no_grad():
        got, info = net._quantize_line_feature(feat, torch.from_numpy(enc), layer, None if real is False else torch.from_numpy(real))[:2]
        for m in pq.vq_modules:
            m.set_eval_entry_mask(None)
        flat = torch.from_numpy(table[enc].reshape(-1, dim))
        want, winfo, _ = pq(flat)
    want = np.moveaxis(f64(want).reshape(b, n, h, w, dim), -1, 2)
    ctx.check(np.allclose(f64(got), want, rtol=1e-4, atol=1e-4), "lines:features", f"{label}: quantising distinct lines differs from quantising every position")
    u = np.unique(enc)
    if real is not False:
        u = np.unique(enc[real])
    c = f64(pq.codebook)
    for j in range(c.shape[0]):
        rows = table[u].astype(np.float64)[:, j * c.shape[2]:(j + 1) * c.shape[2]]
        rows = vqref.unit(rows) if o["use_cosine_sim"] else rows
        if len(u):
            d = 1 - rows @ c[j].T if o["use_cosine_sim"] else ((rows[:, None] - c[j][None]) ** 2).sum(-1)
            counts = np.bincount(d.argmin(1), minlength=size)
            e = pq.vq_modules[j]
            st = info["loss_stats"][j]
            ctx.check(st["vectors"] == len(u), "lines:counted", f"{label}: {st['vectors']} lines entered the statistics, {len(u)} distinct real ones exist")
            per = vqref.perplexity(counts)
            p = [float(x) for x in np.atleast_1d(info["perplexity"])]
            if c.shape[0] == 1:
                ctx.check(abs(p[0] - per) < 2e-3 * per, "lines:perplexity", f"{label}: perplexity {p[0]}, expected {per}")
    ctx.count("line_layers")
    ctx.seen("lines", b, n, real is not False, tuple(sorted((k, str(v)) for k, v in o.items() if isinstance(v, bool))))


def distributed(ctx, srv, rng, label):
    """Two or three ranks share one codebook that follows the global batch."""
    dim, world = 8, rng.choice([2, 2, 3])
    o = vqref.options(rng, dim)
    o["stochastic_sampling"], o["entropy_reg_weight"] = False, 0.0
    o["codebook_size"] = rng.choice([6, 12])
    if o["use_simvq"]:
        o["kmeans_init"] = False
    src = vqref.Source(rng, dim)
    steps = rng.randint(4, 9)
    batches = [[src(rng.randint(4, 30)) for _ in range(world)] for _ in range(steps)]
    modes = [rng.random() < 0.8 for _ in range(steps)]
    differ = None
    if rng.random() < 0.25:
        differ = rng.choice([dict(kmeans_sample_multiplier=o["kmeans_sample_multiplier"] + 1), dict(codebook_size=o["codebook_size"] + 2), dict(kmeans_iter=o["kmeans_iter"] + 1),
                             dict(threshold_ema_dead_code=0.4)])
        if "threshold_ema_dead_code" in differ and o["use_simvq"]:
            differ = None
    cfg = dict(seed=rng.randrange(10000), options=o, batches=batches, modes=modes, differ=differ)
    where0 = f"{label}: {world} ranks, {o}"
    outs = srv.call("vm.train", "run_ranks", cfg, "", world, None, 0, "vm.vqref:ranks", timeout=200)
    if not outs.ok:
        srv.blame(outs, "process group")
    for v in outs.value:
        if v["status"] != "ok":
            srv.blame(forkserver.Outcome(**v), "rank")
    outs = [v["value"] for v in outs.value]
    if differ:
        ctx.check(all(v["error"] and "RuntimeError" in v["error"] for v in outs), "ranks:mismatch-accepted", f"{where0}: a rank built with {differ} was not refused: {[v['error'] for v in outs]}")
        ctx.count("rank_mismatches")
        ctx.seen("mismatch", tuple(differ), world)
        return
    if not ctx.check(not any(v["error"] for v in outs), "ranks:error", f"{where0}: {[v['error'] for v in outs]}"):
        return
    ready = not o["kmeans_init"]
    for s in range(steps):
        where = f"{where0}: step {s}"
        for r in range(1, world):
            same(ctx, where, outs[0]["states"][s + 1], outs[r]["states"][s + 1], "ranks:codebooks-differ", f"state of rank {r} against rank 0")
        s0, s1 = outs[0]["states"][s], outs[0]["states"][s + 1]
        if not modes[s]:
            same(ctx, where, s0, s1, "vq:eval-changed", "evaluation changed the codebook state")
        if not bool(s0["inited"]):
            if bool(s1["inited"]):
                per = -(-o["codebook_size"] * o["kmeans_sample_multiplier"] // world)
                samples = np.concatenate([np.concatenate([vqref.seen_by(o, batches[k][r]) for k in range(s + 1) if modes[k]])[:per] for r in range(world)])
                if len(samples) >= o["codebook_size"]:
                    vqref.init_checks(ctx, where, o, samples, s1)
                ready = True
            continue
        rows = np.concatenate([vqref.seen_by(o, batches[s][r]) for r in range(world)])
        idx = np.concatenate([outs[r]["idx"][s] for r in range(world)])
        w = s0.get("code_transform.weight")
        if modes[s]:
            n = min(len(b) for b in batches[s])
            c = vqref.transition(ctx, where, o, s0, s1, rows, idx, outs[0]["count"][s], w, enough=lambda e: -(-e // world) <= n)
            if c is None:
                continue
        else:
            c = vqref.codebook(o, s0["embed"], w)
        vqref.nearest(ctx, where, o, rows, c, idx)
        ctx.count("rank_steps")
    ctx.count("rank_histories")
    ctx.seen("ranks", world, ready, tuple(sorted((k, str(v)) for k, v in o.items() if isinstance(v, bool))))


def run(ctx):
    ctx.rule = ("A trajectory of one real quantizer (training and evaluation forwards, reloads, damaged states, masks, statistics resets) is followed step by step; "
                "distinct by mode, batch size class and the boolean options in force.")
    import torch
    torch.set_num_threads(1)
    if not ctx.thorough:
        ctx.budget = 100.0
    warm(ctx)
    built = sofiles()
    ctx.extra["warm_up_s"] = round(ctx.elapsed(), 1)
    for label, rng in ctx.cases("vq", 600, share=0.45):
        with ctx.case(label, {}, sample=False):
            history(ctx, rng, label)
    for label, rng in ctx.cases("product", 48, share=0.15):
        with ctx.case(label, {}, sample=False):
            product(ctx, rng, label)
    for label, rng in ctx.cases("lines", 40, share=0.1):
        with ctx.case(label, {}, sample=False):
            lines(ctx, rng, label)
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.vqref", "model.vq"))
    try:
        for label, rng in ctx.cases("ranks", 12, 60, share=0.25):
            with ctx.case(label, {}, sample=False):
                distributed(ctx, srv, rng, label)
    finally:
        srv.close()
    for what, least in (("forwards", 800), ("transitions", 300), ("steps_with_expiry", 30), ("replaced_codes", 60), ("decided_rows", 8000), ("warm_ups", 40),
                        ("reloads", 60), ("refused", 20), ("pending_states", 20), ("gradients", 60), ("codebook_gradients", 4), ("usage_counts", 40),
                        ("loss_terms", 2000), ("empty_masks", 3), ("product_forwards", 40), ("line_layers", 8), ("rank_histories", 1), ("rank_steps", 3)):
        ctx.require(what, least)
    ctx.count("late_builds", len(sofiles() - built))
    ctx.min_nontrivial = 150
