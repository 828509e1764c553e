"""P28: predictions depend on the position alone."""
import copy

from .. import zoo

D4 = [(k, t) for k in range(4) for t in (0, 1)]


def symmetries(family, kw):
    """(value invariance, policy equivariance) a family promises by construction."""
    if family in ("linear", "linear_threat", "linear_p4countmlp"):
        return D4, D4
    if family in ("flat_ladder7x7_nnue_v1", "patnnuev1", "patnnuev2"):
        return D4, []
    if family == "patnetbaseline":
        return (D4 if kw["embedding_type"] != "pcode-board" else []), []
    if family in ("flat_ladder7x7_nnue_v2", "flat_hash7x7_nnue_v1", "flat_square7x7_nnue_v4", "flat_square7x7_nnue_v4_vq"):
        return [(k, 0) for k in range(4)], []
    return [], []


def turn(x, k, t):
    import torch
    return torch.rot90(x.transpose(-1, -2) if t else x, k, (-2, -1)).contiguous()


def leaves(out, prefix=""):
    for k, v in out.items():
        if hasattr(v, "shape"):
            yield prefix + k, v
        elif isinstance(v, dict):
            yield from leaves(v, prefix + k + ".")
        elif isinstance(v, (tuple, list)):
            for i, w in enumerate(v):
                if hasattr(w, "shape"):
                    yield f"{prefix}{k}.{i}", w
                elif isinstance(w, dict):
                    yield from leaves(w, f"{prefix}{k}.{i}.")


def keys(out):
    return tuple(sorted((k, tuple(sorted(v)) if isinstance(v, dict) else "") for k, v in out.items()))


def bits(t):
    return t.detach().cpu().contiguous().numpy().tobytes()


def snapshot(model):
    return {k: bits(v) for k, v in list(model.state_dict().items()) + [("buffer:" + n, b) for n, b in model.named_buffers()]}


class Wide:
    """Evaluate under float64 so that rounding cannot flip a quantised step."""

    def __init__(self, model):
        self.model = model

    def __call__(self, data):
        import torch
        torch.set_default_dtype(torch.float64)
        try:
            with torch.no_grad():
                return self.model(data)
        finally:
            torch.set_default_dtype(torch.float32)


def close(ctx, got, want, tol, mechanism, where):
    if got.shape != want.shape:
        return ctx.check(False, mechanism, f"{where}: shape {tuple(got.shape)}, expected {tuple(want.shape)}")
    d = float((got - want).abs().max()) if got.numel() else 0.0
    lim = tol * max(1.0, float(want.abs().max()) if want.numel() else 1.0)
    ctx.check(d <= lim, mechanism, f"{where}: outputs differ by {d}")
    ctx.count("compared_outputs", got.numel())


class Trial:
    """Collects what a comparison would report."""

    def __init__(self):
        self.failed, self.n = [], 0

    def check(self, cond, mech, msg):
        if not cond:
            self.failed.append((mech, msg() if callable(msg) else msg))

    def count(self, what, k=1):
        self.n += k


def batches(ctx, rng, run, data, base, size, lines, tol, where):
    """Rows of ``data`` reordered, alone, repeated, dropped and among other positions."""
    n = len(data["stm_input"])
    order = list(range(n))
    rng.shuffle(order)
    for name, idx in (("order", order), ("single", [rng.randrange(n)]), ("repeated", [rng.randrange(n)] * rng.choice([2, 5])), ("subset", order[:max(1, n - 1)])):
        got = zoo.flat(run(zoo.select(data, idx)))
        for k in ("value", "policy"):
            close(ctx, got[k], base[k][idx], tol, f"batch:{name}", f"{where}: {k} of rows {idx} on {size}")
    mates = zoo.batch(rng, [size] * n, lines=lines)
    keep = rng.randrange(n)
    for k in data:
        mates[k][keep] = data[k][keep]
    got = zoo.flat(run(mates))
    for k in ("value", "policy"):
        close(ctx, got[k][keep], base[k][keep], tol, "batch:companions", f"{where}: {k} of row {keep} among other positions")


def family_case(ctx, rng, label, family):
    import torch
    kw, sizes = zoo.FAMILIES[family](rng)
    seed = rng.randrange(10000)
    model = zoo.build(family, kw, seed)
    zoo.shake(model, rng)
    where = f"{label}: {family} {kw}"
    lines = zoo.wants_lines(family)
    size = rng.choice(sizes)
    n = rng.choice([2, 3, 4, 6])
    data = zoo.batch(rng, [size] * n, lines=lines)
    before_in = {k: bits(v) for k, v in data.items()}
    model.eval()
    state = snapshot(model)
    with torch.no_grad():
        out = model(data)
        again = model(data)
    # shapes, finiteness, key set
    ctx.check("value" in out and "policy" in out and all(v is not None for v in out.values()), "output:keys", f"{where}: output keys {list(out)}")
    value, policy = out["value"], out["policy"]
    draws = kw.get("value_no_draw") or kw.get("has_draw_value") is False or "nodraw" in str(kw.get("head_type"))
    ctx.check(tuple(value.shape) == (n, 1 if draws else 3), "output:value-shape", f"{where}: value shape {tuple(value.shape)} for {n} positions")
    ctx.check(policy.shape[0] == n and policy.numel() == n * size[0] * size[1], "output:policy-shape", f"{where}: policy shape {tuple(policy.shape)} for {n} boards {size}")
    for k, v in leaves(out):
        ctx.check(bool(torch.isfinite(v).all()) if v.is_floating_point() else True, "output:finite", f"{where}: {k} is not finite")
    ctx.check(all(bits(a) == bits(b) for (_, a), (_, b) in zip(leaves(out), leaves(again))), "eval:repeat", f"{where}: the same batch evaluates differently the second time")
    ctx.check({k: bits(v) for k, v in data.items()} == before_in, "eval:input-changed", f"{where}: evaluation changes its input")
    after = snapshot(model)
    ctx.check(after == state, "eval:state-changed", lambda: f"{where}: evaluation changes {[k for k in after if after[k] != state.get(k)]}")
    # observation does not interfere
    if hasattr(model, "forward_debug_print"):
        from model.trace import model_trace
        seen = []
        with torch.no_grad(), model_trace(model, lambda name, t: seen.append(name)):
            traced = model(data)
        ctx.check(all(bits(a) == bits(b) for (_, a), (_, b) in zip(leaves(out), leaves(traced))), "trace:output", f"{where}: tracing changes the output")
        ctx.count("traced_tensors", len(seen))
    # another storage form of the same input
    other = dict(data)
    b = data["board_input"]
    other["board_input"] = rng.choice([b.transpose(2, 3).contiguous().transpose(2, 3), b.float(), b.to(torch.int32), torch.cat([b, b])[:n]])
    with torch.no_grad():
        q = model(other)
    for k in ("value", "policy"):
        if q[k].dtype == out[k].dtype:
            ctx.check(bits(q[k]) == bits(out[k]), "eval:input-form", f"{where}: {k} depends on how the board is stored")
    # training pass: same keys, finite gradients, input untouched
    train_where = where
    model.train()
    g = model(zoo.select(data, list(range(n))))
    ctx.check(set(g) == set(out) or set(g) - {"aux_losses", "aux_outputs"} == set(out) - {"aux_losses", "aux_outputs"}, "output:keys-by-mode", f"{train_where}: keys {list(g)} in training, {list(out)} in evaluation")
    loss = g["value"].square().mean() + g["policy"].square().mean()
    loss.backward()
    bad = [nm for nm, p in model.named_parameters() if p.grad is not None and not torch.isfinite(p.grad).all()]
    ctx.check(not bad, "gradient:finite", f"{train_where}: gradients of {bad[:3]} are not finite")
    got = sum(p.grad is not None for p in model.parameters() if p.requires_grad)
    ctx.check(got > 0, "gradient:none", f"{train_where}: no parameter receives a gradient")
    ctx.check({k: bits(v) for k, v in data.items()} == before_in, "train:input-changed", f"{train_where}: a training pass changes its input")
    ctx.check("vq" in family or keys(model(data)) == keys(g), "output:keys-vary", f"{train_where}: the key set changes between batches")
    # saved state is the whole model
    model.eval()
    twin = zoo.build(family, kw, seed + 1)
    twin.load_state_dict(copy.deepcopy(model.state_dict()))
    twin.eval()
    with torch.no_grad():
        a, c = model(data), twin(data)
    ctx.check(all(bits(a[k]) == bits(c[k]) for k in ("value", "policy")), "state:reload", f"{where}: a model rebuilt from the saved state predicts differently")
    # batch composition, in float64
    precise = "vq" not in family       # its nearest-code search is compiled per type
    handles = zoo.widen(model) if precise else []
    run = Wide(model)
    try:
        try:
            base = zoo.flat(run(data))
        except (RuntimeError, ValueError):
            if not precise:
                raise
            ctx.count("float32_only")
            precise = False
            for h in handles:
                h.remove()
            model.float()
            base = zoo.flat(run(data))
        if precise:
            batches(ctx, rng, run, data, base, size, lines, 1e-9, where)
        else:
            # float32 noise may flip a quantised step on one batch, a real dependence fails on every batch
            for attempt in range(3):
                trial = Trial()
                batches(trial, rng, run, data, base, size, lines, 1e-3, where)
                if not trial.failed:
                    break
                if attempt < 2:
                    data = zoo.batch(rng, [size] * n, lines=lines)
                    base = zoo.flat(run(data))
            for mech, msg in trial.failed[:1]:
                ctx.check(False, mech, msg)
            ctx.count("compared_outputs", trial.n)
        ctx.count("batch_relations")
        # declared symmetry
        tol = 1e-9
        values, policies = symmetries(family, kw)
        if precise and values and size[0] == size[1]:
            k, t = rng.choice(values)
            moved = {a: (turn(b, k, t) if a in ("board_input", "sparse_feature_input") else b) for a, b in data.items()}
            got = zoo.flat(run(moved))
            close(ctx, got["value"], base["value"], tol, "symmetry:value", f"{where}: value of a board turned {k} times, transposed {t}")
            if (k, t) in policies:
                close(ctx, got["policy"], turn(base["policy"], k, t), tol, "symmetry:policy", f"{where}: policy of a board turned {k} times, transposed {t}")
            ctx.count("symmetry_relations")
        # board sizes in succession leave nothing behind
        if len(sizes) > 1 and precise:
            run(zoo.batch(rng, [rng.choice(sizes)] * rng.randint(1, 3), lines=lines))
            got = zoo.flat(run(data))
            for k in ("value", "policy"):
                close(ctx, got[k], base[k], 0, "eval:history", f"{where}: {k} after a batch of another size")
            ctx.count("size_changes")
    finally:
        for h in handles:
            h.remove()
    # metadata that contradicts the model
    if any(str(kw.get(k, "")).startswith(("pcode", "combpat", "linepat")) for k in ("input_type", "embedding_type")) or family.startswith(("linear", "patnn")):
        wrong = {k: v.clone() for k, v in data.items()}
        wrong["sparse_feature_dim"][rng.randrange(n)] += rng.choice([-1, 1])
        model.float()
        try:
            model(wrong)
            ctx.check(False, "metadata:accepted", f"{where}: a batch whose pattern-code size differs from the model's is accepted")
        except ValueError:
            ctx.count("metadata_rejected")
    ctx.seen("family", family, str(sorted(kw.items(), key=str)), size)
    ctx.count("models")


def masked(ctx, rng, label):
    """Mixed board sizes in one padded batch."""
    import torch
    kw, _ = zoo.FAMILIES["resnetv3"](rng)
    kw["drop_mask"] = False
    model = zoo.build("resnetv3", kw, rng.randrange(1000))
    zoo.shake(model, rng)
    twin = copy.deepcopy(model)
    sizes = [(rng.randint(5, 12), rng.randint(5, 12)) for _ in range(rng.randint(2, 5))]
    H, W = max(s[0] for s in sizes), max(s[1] for s in sizes)
    data = zoo.batch(rng, sizes, pad=(H, W))
    grow = (rng.randint(0, 4), rng.randint(1, 4))
    wide = {**data, "board_input": torch.nn.functional.pad(data["board_input"], (0, grow[1], 0, grow[0])),
            "sparse_feature_input": torch.nn.functional.pad(data["sparse_feature_input"], (0, grow[1], 0, grow[0]))}
    where = f"{label}: resnetv3 {kw} boards {sizes} padded to {H}x{W}, then by {grow}"
    handles = zoo.widen(model) + zoo.widen(twin)
    try:
        model.eval()
        torch.set_default_dtype(torch.float64)
        with torch.no_grad():
            base, more = model(data), model(wide)
        mask = base["board_mask"]
        for i, (h, w) in enumerate(sizes):
            want = torch.zeros(H, W)
            want[:h, :w] = 1
            ctx.check(bool((mask[i].double() == want).all()), "padding:mask", f"{where}: the board mask of row {i} is not {h}x{w}")
            one = {k: v[i:i + 1] for k, v in data.items()}
            one["board_input"] = one["board_input"][..., :h, :w]
            with torch.no_grad():
                alone = model(one)
            close(ctx, base["value"][i], alone["value"][0], 1e-9, "padding:value", f"{where}: value of row {i} padded and alone")
            close(ctx, base["policy"][i, :h, :w], alone["policy"][0], 1e-9, "padding:policy", f"{where}: policy of row {i} padded and alone")
            close(ctx, more["policy"][i, :h, :w], alone["policy"][0], 1e-9, "padding:policy-more", f"{where}: policy of row {i} with more padding")
        # a training step: statistics and gradients ignore the padding as well
        res = []
        for m, d in ((model, data), (twin, wide)):
            m.train()
            o = m(d)
            pol = torch.stack([o["policy"][i, :h, :w].square().sum() for i, (h, w) in enumerate(sizes)]).sum()
            (pol + o["value"].square().sum()).backward()
            res.append((o["value"].detach(), {n: p.grad for n, p in m.named_parameters()}, {n: b.clone() for n, b in m.named_buffers()}))
        close(ctx, res[0][0], res[1][0], 1e-9, "padding:train-value", where)
        for what in (1, 2):
            for n, g in res[0][what].items():
                if g is not None and g.is_floating_point():
                    close(ctx, res[1][what][n], g, 1e-8, "padding:train-" + ("gradient", "statistics")[what - 1], f"{where}: {n}")
        ctx.count("padded_batches")
        ctx.seen("masked", tuple(sizes), grow)
    finally:
        torch.set_default_dtype(torch.float32)
        for h in handles:
            h.remove()


def run(ctx):
    ctx.rule = ("every registered model family over generated configurations, board sizes and batches: outputs under reordering, "
                "other companions, other batch sizes, padding, tracing, storage form, reload and declared symmetry (in float64, so "
                "that quantised steps cannot flip), and state and input bytes before and after. Non-trivial: distinct (family, configuration, size)")
    import torch
    from model import MODELS
    torch.set_num_threads(2)
    names = list(zoo.FAMILIES)
    try:
        extra = [m for m in MODELS.keys() if m not in names]
    except (AttributeError, TypeError):
        extra = []
    ctx.count("unknown_families", len(extra))
    for name, rng in ctx.cases("model", 10 * len(names), 200 * len(names), share=0.8):
        with ctx.case(name, sample=False):
            k = int(name.split("#")[1])
            family = names[k % len(names)]
            if "vq" in family and k // len(names) % 3:
                family = rng.choice([f for f in names if "vq" not in f])
            family_case(ctx, rng, name, family)
    for name, rng in ctx.cases("masked", 60, 2000):
        with ctx.case(name, sample=False):
            masked(ctx, rng, name)
    for what, least in (("models", 100), ("batch_relations", 100), ("symmetry_relations", 15), ("size_changes", 30), ("metadata_rejected", 15),
                        ("padded_batches", 15), ("traced_tensors", 50), ("compared_outputs", 20000)):
        ctx.require(what, least)
