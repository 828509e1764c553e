"""P25: optimizers, schedules and clipping follow their definitions."""
import io
import math
import random

from .. import forkserver, optref, scenario, train


# ---------------------------------------------------------------- stand-alone
SHAPES = [(1,), (7,), (3, 5), (5, 3), (4, 4), (1, 6), (6, 1), (4, 2, 3, 3), (2, 5, 1, 1), (3, 4, 3), (2, 3, 2, 2, 2), (), (16, 16), (8, 3)]


def module(rng, torch):
    """A module whose parameters have assorted shapes and names."""
    names = ["weight", "bias", "kernel", "w_emb", "pos_embed", "embedding", "scale", "gate", "memb"]

    class Block(torch.nn.Module):
        def __init__(self, depth):
            super().__init__()
            for n in rng.sample(names, rng.randint(1, 5)):
                s = rng.choice(SHAPES)
                p = torch.nn.Parameter(torch.randn(s) * rng.choice([1e-3, 0.1, 1.0, 30.0]), requires_grad=rng.random() < 0.9)
                if len(s) == 4 and rng.random() < 0.3:
                    p.data = p.data.contiguous(memory_format=torch.channels_last)
                setattr(self, n, p)
            if rng.random() < 0.4:
                self.tab = torch.nn.Embedding(rng.randint(1, 5), rng.randint(1, 4))
            if depth:
                self.sub = torch.nn.ModuleList(Block(depth - 1) for _ in range(rng.randint(0, 2)))

    return Block(rng.randint(1, 2))


def hyper_args(rng, kind):
    a = {}
    if kind in ("adamw", "adamw-ams"):
        if rng.random() < 0.5:
            a["betas"] = rng.choice([(0.9, 0.99), (0.0, 0.9), (0.5, 0.5), (0.95, 0.9)])
        if rng.random() < 0.5:
            a["eps"] = rng.choice([1e-8, 1e-4, 1e-2])
        if rng.random() < 0.2:
            a["foreach"] = rng.choice([True, False])
    elif kind == "sgd":
        if rng.random() < 0.4:
            a["momentum"] = rng.choice([0.0, 0.5, 0.99])
    elif kind == "sgd-momentum":
        if rng.random() < 0.5:
            a.update(momentum=rng.choice([0.2, 0.95]), dampening=rng.choice([0.0, 0.1, 0.7]))
    elif kind == "sgd-nesterov":
        if rng.random() < 0.5:
            a["momentum"] = rng.choice([0.2, 0.95])
    else:
        if rng.random() < 0.6:
            m = {}
            if rng.random() < 0.5:
                m["momentum"] = rng.choice([0.0, 0.5, 0.9])
            if rng.random() < 0.5:
                m["nesterov"] = rng.choice([True, False])
            if rng.random() < 0.4:
                m["ns_steps"] = rng.choice([1, 2, 3, 5, 6])
            if rng.random() < 0.3:
                m["weight_decay"] = rng.choice([0.0, 0.2])
            if rng.random() < 0.3:
                m["use_baddbmm"] = False
            a["muon_args"] = m
        if rng.random() < 0.5:
            a["adamw_args"] = rng.choice([dict(betas=(0.8, 0.9)), dict(eps=1e-3), dict(weight_decay=0.3), dict(betas=(0.5, 0.7), weight_decay=0.0)])
    return a


def gradient(rng, torch, p, mode):
    if mode == "none":
        return None
    g = torch.randn(p.shape) * (10.0 ** rng.randint(-4, 2))
    if mode == "zero":
        g = g * 0
    elif mode == "sparse":
        g = g * (torch.rand(p.shape) < 0.3)
    elif mode == "rank1" and p.dim() == 2:
        g = g[:, :1] @ g[:1, :]
    if p.dim() == 4 and rng.random() < 0.3:
        g = g.contiguous(memory_format=torch.channels_last)
    elif p.dim() == 2 and rng.random() < 0.2:
        g = g.t().contiguous().t()
    return g


def far(torch, got, want, before, rule, hist):
    """Largest deviation of an update, relative to what rounding allows."""
    got, want, before = got.double(), want.double(), before.double()
    if not torch.isfinite(got).all():
        return math.inf
    size = float((want - before).abs().max()) if want.numel() else 0.0
    tol = (6e-3 if rule == "muon" else 2e-4) * max(size, hist) + 4e-6 * (float(before.abs().max()) if before.numel() else 0.0) + 1e-12
    return float((got - want).abs().max()) / tol if want.numel() else 0.0


def standalone(ctx, rng, label):
    import torch
    from utils.training_utils import build_lr_scheduler, build_optimizer
    torch.manual_seed(rng.randrange(1 << 30))
    kind = rng.choice(["adamw", "adamw-ams", "sgd", "sgd-momentum", "sgd-nesterov", "muon-adamw", "muon-adamw"])
    models = [module(rng, torch) for _ in range(rng.choice([1, 1, 2]))]
    names = {}
    wd = rng.choice([0.0, 0.01, 0.3])
    args = hyper_args(rng, kind)
    hp = optref.settings(kind, {k: v for k, v in args.items() if k != "foreach"}, wd)
    refs = {}
    for i, m in enumerate(models):
        h = optref.assign(m, hp)
        for n, p in m.named_parameters():
            names[f"{i}/{n}"] = p
            if p.requires_grad:
                refs[f"{i}/{n}"] = optref.Reference(p, h[n])
    if not refs or (kind == "muon-adamw" and len({r.h["rule"] for r in refs.values()}) < 2):
        return      # every network has both kinds of parameters
    frozen = {n: p.detach().clone() for n, p in names.items() if n not in refs}
    lr0 = rng.choice([1e-4, 1e-2, 0.3])
    sk = rng.choice(["constant", "step", "cosine"])
    steps = rng.randint(2, 12)
    total = rng.choice([steps, steps, steps + 5])
    sa = {} if sk == "constant" or rng.random() < 0.2 else ({"step_size": rng.randint(1, 4), "step_gamma": rng.choice([0.1, 0.9])} if sk == "step"
                                                             else {"eta_min": rng.choice([0.0, 1e-5, lr0 / 2])})
    target = models if len(models) > 1 or rng.random() < 0.3 else models[0]
    where = f"{label} {kind} {args} wd={wd} lr={lr0} {sk}{sa}/{total}"

    def make():
        o = build_optimizer(kind, target, lr=lr0, weight_decay=wd, **{k: (dict(v) if isinstance(v, dict) else v) for k, v in args.items()})
        return o, build_lr_scheduler(o, sk, total, **sa)

    opt, sched = make()
    hist = {n: 0.0 for n in refs}
    modes = {n: rng.choice(["full", "full", "full", "sometimes", "zero", "sparse", "rank1"]) for n in refs}
    reload_at = rng.randrange(steps) if rng.random() < 0.5 else None
    for k in range(steps):
        lr = optref.lr_at(sk, sa, lr0, total, k)
        got = [g["lr"] for g in opt.param_groups]
        ctx.check(all(abs(x - lr) <= 1e-9 + 1e-6 * abs(lr) for x in got), "schedule:value", f"{where}: learning rate {got} before step {k + 1}, expected {lr}")
        if k == reload_at:
            buf = io.BytesIO()
            torch.save({"o": opt.state_dict(), "s": sched.state_dict()}, buf)
            buf.seek(0)
            st = torch.load(buf, weights_only=True)
            opt, sched = make()
            opt.load_state_dict(st["o"])
            sched.load_state_dict(st["s"])
            for g, x in zip(opt.param_groups, got):
                g["lr"] = x
            ctx.count("reloads")
        before, wants = {}, {}
        for n, r in refs.items():
            p = names[n]
            g = gradient(rng, torch, p, "none" if modes[n] == "sometimes" and rng.random() < 0.5 else modes[n])
            p.grad = g
            before[n] = p.detach().clone()
            r.p = before[n].double()        # rounding does not accumulate
            wants[n] = r.step(None if g is None else g.detach().clone(), lr)
        opt.step()
        sched.step()
        for n, r in refs.items():
            p = names[n].detach()
            dev = far(torch, p, wants[n], before[n], r.h["rule"], hist[n])
            ctx.check(dev <= 1, f"optimizer:{r.h['rule']}", lambda: f"{where}: step {k + 1}, parameter {n} {tuple(p.shape)} ({modes[n]}) deviates from its definition "
                      f"{dev:.1f} times more than rounding allows; rule {r.h}")
            if names[n].grad is None:
                ctx.check(torch.equal(p, before[n]), "optimizer:moved-without-gradient", f"{where}: {n} has no gradient but moved")
            ctx.count("updates_compared")
        opt.zero_grad(set_to_none=True)
        ctx.check(all(p.grad is None for n, p in names.items() if n in refs), "optimizer:zero-grad", f"{where}: gradients remain after zero_grad")
    for n, v in frozen.items():
        ctx.check(torch.equal(names[n].detach(), v), "optimizer:frozen-moved", f"{where}: frozen parameter {n} moved")
    ctx.seen(kind, sk, tuple(sorted(map(str, args.items()))), wd > 0, len(models), reload_at is not None)
    ctx.count("optimizers_followed")


def clipping(ctx, rng, label):
    import torch
    from utils.training_utils import apply_weight_clipping, clip_grad_norm, resolve_weight_clipping
    torch.manual_seed(rng.randrange(1 << 30))
    dts = [torch.float32] if rng.random() < 0.7 else [torch.float32, torch.float64]
    ps = []
    for _ in range(rng.randint(0, 6)):
        p = torch.nn.Parameter(torch.zeros(rng.choice(SHAPES), dtype=rng.choice(dts)))
        if rng.random() < 0.85:
            p.grad = (torch.randn(p.shape) * 10.0 ** rng.randint(-8, 6)).to(p.dtype)
            if rng.random() < 0.15:
                p.grad.zero_()
        ps.append(p)
    limit = rng.choice([0.1, 1.0, 10.0, 1e-3, float("inf"), 1e6])
    nt = rng.choice([2.0, 2.0, 2.0, 1.0, float("inf")])
    gs = [p.grad.detach().double().clone() for p in ps if p.grad is not None]
    want = optref.norm(gs, nt) if gs else 0.0
    got = float(clip_grad_norm(iter(ps) if False else ps, limit, nt))
    where = f"{label}: limit {limit}, norm type {nt}, norms {[float(g.norm()) for g in gs]}"
    ctx.check(abs(got - want) <= 1e-5 * want + 1e-12, "clip:norm-reported", f"{where}: reported {got}, expected {want}")
    c = min(1.0, limit / (want + 1e-6)) if limit != math.inf else 1.0
    for g, p in zip(gs, [p for p in ps if p.grad is not None]):
        d = float((p.grad.double() - g * c).abs().max()) if g.numel() else 0.0
        ctx.check(d <= 2e-5 * float((g * c).abs().max() if g.numel() else 0) + 1e-30, "clip:gradient", f"{where}: gradients are not scaled by {c}")
        if c == 1.0:
            ctx.check(bool((p.grad.double() == g).all()), "clip:unclipped-changed", f"{where}: gradients changed although the norm is below the limit")
    after = optref.norm([p.grad for p in ps if p.grad is not None], nt) if gs else 0.0
    ctx.check(after <= limit * (1 + 1e-4), "clip:exceeds", f"{where}: norm {after} after clipping")
    ctx.count("norm_clips")
    ctx.seen("clip", limit, nt, len(gs), c < 1)
    # weight clipping, plain and relative to shared weights
    named, groups, before = {}, [], {}
    for i in range(rng.randint(1, 4)):
        lo = rng.choice([-1.0, -0.5, 0.0, -2.0])
        hi = lo + rng.choice([0.5, 1.0, 4.0])
        g = dict(params=[], min_weight=lo, max_weight=hi)
        virt = rng.random() < 0.4
        if virt:
            g["virtual_params"] = []
        for j in range(rng.randint(1, 3)):
            n = f"m{i}.p{j}"
            s = rng.choice([(4,), (4, 6), (2, 4, 2)])
            named[n] = torch.nn.Parameter(torch.randn(s) * 2)
            g["params"].append(n)
            if virt:
                vs = tuple(x // rng.choice([d for d in (1, 2, x) if x % d == 0]) for x in s)
                named[n + "v"] = torch.nn.Parameter(torch.randn(vs))
                g["virtual_params"].append(n + "v")
        groups.append(g)
    named["free"] = torch.nn.Parameter(torch.randn(5) * 9)
    before = {n: p.detach().clone() for n, p in named.items()}
    apply_weight_clipping(resolve_weight_clipping(named.items(), groups))
    held = {n for g in groups for n in g["params"]}
    for g in groups:
        for i, n in enumerate(g["params"]):
            b, a = before[n].double(), named[n].detach().double()
            v = 0.0
            if "virtual_params" in g:
                w = before[g["virtual_params"][i]].double()
                v = w.repeat(*[b.shape[d] // w.shape[d] for d in range(b.dim())])
            want = torch.clamp(b + v, g["min_weight"], g["max_weight"]) - v
            ctx.check(bool(((a - want).abs() <= 1e-5).all()), "clip:weights", f"{label}: weights outside [{g['min_weight']}, {g['max_weight']}] or moved without need: {n}")
            inside = ((b + v) > g["min_weight"] + 1e-5) & ((b + v) < g["max_weight"] - 1e-5)
            ctx.check(bool((a[inside] == b[inside]).all()), "clip:weights-inside-moved", f"{label}: weights inside the range were changed: {n}")
    for n, p in named.items():
        if n not in held:
            ctx.check(torch.equal(p.detach(), before[n]), "clip:other-weights", f"{label}: {n} is in no clipping group but changed")
    ctx.count("weight_clips")


# ---------------------------------------------------------------- in training
def training(ctx, srv, rng, name, n):
    import numpy as np
    import torch
    d = ctx.tmp()
    world = 2 if n % 6 == 3 else 1
    model = rng.choice(list(train.CLIPPED)) if n % 3 == 1 else None
    cfg, s = train.config(rng, d, kind=rng.choice(scenario.ALL_KINDS + list(train.MAPS)), model=model, world=world,
                          optim=train.OPTIMS[n % len(train.OPTIMS)], iterations=rng.randint(3, 7), total=16)
    cfg.update(val_interval=1000, save_interval=1000, temp_save_interval=1000, clip_grad_norm=rng.choice([None, 0.3, 2.0, 50.0]),
               clip_grad_value=rng.choice([None, None, 0.005]), weight_decay=rng.choice([0.0, 0.05, 0.3]))
    if model:
        cfg["learning_rate"] = rng.choice([1e-2, 0.3])      # so that weights reach their limits
    label = f"{s.kind}/{cfg['model_type']}/{cfg['optim_type']}/{cfg['lr_scheduler_type']}/acc{cfg['gradient_accumulation_steps']}/w{world}"
    if world == 1:
        outs = [srv.call("vm.optref", "observe", cfg, str(d / "run"), timeout=150)]
    else:
        o = srv.call("vm.optref", "observe_ranks", cfg, str(d / "run"), world, timeout=200)
        if not o.ok:
            srv.blame(o, label)
        outs = [forkserver.Outcome(**r) for r in o.value]
    for o in outs:
        if not o.ok:
            srv.blame(o, label)
    recs = [o.value[0] for o in outs]
    hyper = outs[0].value[1]
    ctx.check(all(len(r) == cfg["iterations"] for r in recs), "training:steps", f"{label}: {[len(r) for r in recs]} steps observed of {cfg['iterations']}")
    T = lambda a: torch.from_numpy(np.asarray(a))
    refs = {k: optref.Reference(T(recs[0][0]["p"][k]), h) for k, h in hyper.items()}
    hist = {}
    for it in range(cfg["iterations"]):
        r0 = recs[0][it]
        lr = optref.lr_at(cfg["lr_scheduler_type"], cfg["lr_scheduler_args"], cfg["learning_rate"], cfg["iterations"], it)
        ctx.check(all(abs(x - lr) <= 1e-9 + 1e-6 * lr for x in r0["lr"]), "schedule:training", f"{label}: iteration {it + 1} runs at learning rate {r0['lr']}, expected {lr}")
        for nme, lo, hi, mn, mx in r0["range"]:
            ctx.check(lo >= mn - 1e-5 and hi <= mx + 1e-5, "clip:training-range", f"{label}: iteration {it + 1}: {nme} spans [{lo}, {hi}], declared [{mn}, {mx}]")
            ctx.count("ranges_checked")
            if lo <= mn + 1e-6 or hi >= mx - 1e-6:
                ctx.count("ranges_at_limit")
        for r in recs[1:]:
            for k in hyper:
                ctx.check(np.array_equal(r[it]["q"][k], r0["q"][k]), "training:ranks-diverge", f"{label}: iteration {it + 1}: ranks hold different {k}")
        gs = {}
        for k in hyper:
            have = [T(r[it]["g"][k]) for r in recs if k in r[it]["g"]]
            if have:
                gs[k] = sum(have) / len(recs)
        tot = scale = optref.norm(list(gs.values()))
        if cfg["clip_grad_norm"]:
            c = min(1.0, cfg["clip_grad_norm"] / (tot + 1e-6))
            gs, scale = {k: g * c for k, g in gs.items()}, tot * c
            ctx.count("norm_clipped" if c < 1 else "norm_unclipped")
        if cfg["clip_grad_value"]:
            v = cfg["clip_grad_value"]
            gs = {k: g.clamp(-v, v) for k, g in gs.items()}
        for k, ref in refs.items():
            p, q = T(r0["p"][k]), T(r0["q"][k])
            ref.p = p.double()
            g = gs.get(k)
            want = ref.step(g, lr)
            if g is None:
                continue
            rule = ref.h["rule"]
            noise = 3e-6 * scale       # of gradients that cancel to zero
            if rule == "muon" and float(g.norm()) < 3e-4 * scale:
                ctx.count("ill_conditioned")
                continue
            dev = (q.double() - want).abs()
            step = (want - p.double()).abs()
            size = max(float(step.max()), hist.get(k, 0.0)) if step.numel() else 0.0
            hist[k] = size * 0.5
            tol = (2e-2 if rule == "muon" else 2e-3) * size + (20 * lr * noise if rule == "sgd" else 0) + 4e-6 * float(p.double().abs().max()) + 1e-10
            bad = dev > tol
            if rule == "adam":      # the direction of a vanishing gradient is rounding
                amp = (ref.s["m"].abs() > 50 * noise) & (ref.s["v"].sqrt() > 50 * noise * (1 - ref.h["betas"][1]) ** 0.5)
                ctx.count("elements_followed", int(amp.sum()))
                bad = bad & amp
            ctx.check(not bool(bad.any()), f"training:{rule}", lambda: f"{label}: iteration {it + 1}: {k} {tuple(p.shape)} moved by up to {float(step.max()):.3g} "
                      f"but deviates by {float(dev.max()):.3g} from the update its gradients and settings define (lr {lr}, {ref.h}, clip "
                      f"{cfg['clip_grad_norm']}/{cfg['clip_grad_value']}, norm {tot:.3g})")
            ctx.count("training_updates")
        ctx.seen("training", s.kind, cfg["optim_type"], cfg["gradient_accumulation_steps"], world, cfg["clip_grad_norm"], cfg["clip_grad_value"], model)
    ctx.count("training_runs")


def run(ctx):
    ctx.rule = ("random modules, gradients (absent, zero, sparse, rank one, strided), hyper-parameters and schedules stepped next to a double-"
                "precision reference, with state saved and reloaded on the way; gradient and weight clipping on random tensors; and training "
                "runs whose per-step updates are re-derived from independently computed micro-step gradients. Non-trivial: distinct (optimizer, "
                "settings, schedule) and training configurations")
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.optref", "trainer", "model"), env={"VM_SCRATCH": str(ctx.scratch)})
    try:
        for name, rng in ctx.cases("optimizer", 160, 6000, share=0.3):
            with ctx.case(name, sample=False):
                standalone(ctx, rng, name)
        for name, rng in ctx.cases("clipping", 200, 6000, share=0.15):
            with ctx.case(name, sample=False):
                clipping(ctx, rng, name)
        for name, rng in ctx.cases("training", 60, 1200):
            with ctx.case(name, sample=False):
                training(ctx, srv, rng, name, int(name.split("#")[1]))
    finally:
        srv.close()
    ctx.require("updates_compared", 500)
    ctx.require("reloads", 10)
    ctx.require("norm_clips", 40)
    ctx.require("weight_clips", 40)
    ctx.require("training_updates", 500)
    ctx.require("ranges_at_limit", 3)
