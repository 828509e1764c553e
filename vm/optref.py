"""Optimizers, schedules and clipping from their definitions, in double precision (no repository code)."""
import math


def norm(gs, p=2.0):
    import torch
    if p == math.inf:
        return max((float(g.abs().max()) if g.numel() else 0.0) for g in gs)
    return float(torch.stack([(g.double().abs() ** p).sum() for g in gs]).sum() ** (1 / p))


def lr_at(kind, args, base, total, k):
    """Learning rate used by step k+1 (k steps taken)."""
    if kind == "constant":
        return base
    if kind == "step":
        return base * args.get("step_gamma", 0.9) ** (k // args.get("step_size", 50000))
    if kind == "cosine":
        m = args.get("eta_min", 1e-5)
        return m + (base - m) * (1 + math.cos(math.pi * k / total)) / 2
    raise KeyError(kind)


def orthogonalise(g, steps):
    """Quintic Newton-Schulz on the last two dimensions."""
    a, b, c = 3.4445, -4.7750, 2.0315
    x = g.mT if g.shape[-2] > g.shape[-1] else g
    x = x / max(float((x * x).sum() ** 0.5), 1e-7)
    for _ in range(steps):
        m = x @ x.mT
        x = a * x + (b * m + c * (m @ m)) @ x
    return x.mT if g.shape[-2] > g.shape[-1] else x


def settings(kind, args, wd):
    """One hyper-parameter set, or (matrix set, other set) for the mixed optimizer."""
    if kind in ("adamw", "adamw-ams"):
        return dict(dict(rule="adam", betas=(0.9, 0.999), eps=1e-8, weight_decay=wd, amsgrad=kind == "adamw-ams"), **args)
    if kind.startswith("sgd"):
        d = {"sgd": (0, 0, False), "sgd-momentum": (0.9, 0.1, False), "sgd-nesterov": (0.9, 0, True)}[kind]
        return dict(dict(rule="sgd", momentum=d[0], dampening=d[1], nesterov=d[2], weight_decay=wd), **args)
    m = dict(dict(rule="muon", momentum=0.95, nesterov=True, ns_steps=5, weight_decay=wd), **args.get("muon_args", {}))
    a = dict(dict(rule="adam", betas=(0.9, 0.999), eps=1e-8, weight_decay=wd, amsgrad=False), **args.get("adamw_args", {}))
    return m, a


class Reference:
    """One parameter's trajectory."""

    def __init__(self, p, hyper):
        self.p = p.detach().double().clone()
        self.h, self.s, self.t = hyper, {}, 0

    def step(self, g, lr):
        h, s = self.h, self.s
        if g is None:
            return self.p
        g = g.double().clone()
        self.t += 1
        getattr(self, h["rule"])(g, lr, h, s)
        return self.p

    def sgd(self, g, lr, h, s):
        g = g + h["weight_decay"] * self.p
        if h["momentum"]:
            s["b"] = g.clone() if "b" not in s else h["momentum"] * s["b"] + (1 - h["dampening"]) * g
            g = g + h["momentum"] * s["b"] if h["nesterov"] else s["b"]
        self.p = self.p - lr * g

    def adam(self, g, lr, h, s):
        b1, b2 = h["betas"]
        s["m"] = b1 * s.get("m", 0 * g) + (1 - b1) * g
        s["v"] = b2 * s.get("v", 0 * g) + (1 - b2) * g * g
        v = s["v"]
        if h["amsgrad"]:
            import torch
            s["vm"] = v = torch.maximum(s.get("vm", 0 * v), v)
        self.p = self.p * (1 - lr * h["weight_decay"])
        den = (v / (1 - b2 ** self.t)) ** 0.5 + h["eps"]
        self.p = self.p - lr * (s["m"] / (1 - b1 ** self.t)) / den

    def muon(self, g, lr, h, s):
        mu = h["momentum"]
        s["b"] = mu * s.get("b", 0 * g) + (1 - mu) * g
        u = (1 - mu) * g + mu * s["b"] if h["nesterov"] else s["b"]
        flat = u.reshape(u.shape[0], -1) if u.dim() >= 3 else u
        o = orthogonalise(flat, h["ns_steps"])
        self.p = self.p * (1 - lr * max(h["weight_decay"], 0))
        self.p = self.p - lr * max(flat.shape) ** 0.5 * o.reshape(self.p.shape)


def is_matrix(module, name, p):
    """Whether the mixed optimizer treats a parameter as a matrix."""
    import torch
    return p.dim() >= 2 and not isinstance(module, torch.nn.Embedding) and not name.endswith(("emb", "embed", "embedding"))


def assign(model, hyper):
    """{full name: hyper-parameters} for every trainable parameter."""
    out = {}
    for mn, mod in model.named_modules():
        for n, p in mod.named_parameters(recurse=False):
            if p.requires_grad:
                out[(mn + "." if mn else "") + n] = hyper if isinstance(hyper, dict) else hyper[0 if is_matrix(mod, n, p) else 1]
    return out


def observe(cfg, rundir, capture=False):
    """A training run recording, per step, what went in and what came out (in a forked child)."""
    import os
    import torch
    from . import train
    rec, cur = [], {}

    def named(tr):
        return {f"{mn}/{n}": p for mn, m in tr.models.items() for n, p in tr._unwrap(m).named_parameters() if p.requires_grad}

    def plan(point, tr, data):
        if point == "before":
            if "p" not in cur:
                cur["p"] = {n: p.detach().clone() for n, p in named(tr).items()}
                cur["g"], cur["lr"], cur["range"] = {}, [g["lr"] for g in tr.optimizers["main"].param_groups], []
                for m in tr.models.values():
                    u = tr._unwrap(m)
                    byname = dict(u.named_parameters())
                    for grp in getattr(u, "weight_clipping", ()):
                        virt = grp.get("virtual_params")
                        for i, pn in enumerate(grp["params"]):
                            p = byname[pn].detach().double()
                            if virt:
                                v = byname[virt[i]].detach().double()
                                p = p + v.repeat(*[p.shape[d] // v.shape[d] for d in range(v.dim())])
                            cur["range"].append((pn, float(p.min()), float(p.max()), float(grp["min_weight"]), float(grp["max_weight"])))
        elif point == "forward":
            def alter(loss, ld, ad):
                ps = named(tr)
                gs = torch.autograd.grad(loss, list(ps.values()), retain_graph=True, allow_unused=True)
                for n, g in zip(ps, gs):
                    if g is not None:
                        cur["g"][n] = cur["g"].get(n, 0) + g.detach().double() / cfg["gradient_accumulation_steps"]
                return loss, ld, ad
            return alter
        elif point == "after":
            cur["q"] = {n: p.detach().clone() for n, p in named(tr).items()}
            rec.append(dict(cur))
            cur.clear()
        return None

    with train.quiet(os.environ.get("VM_QUIET")):
        t = train.build(cfg, rundir, plan, None)
        hyper = {}
        for mn, m in t.models.items():
            u = t._unwrap(m)
            for n, h in assign(u, settings(cfg["optim_type"], cfg["optim_args"], cfg["weight_decay"])).items():
                hyper[f"{mn}/{n}"] = h
        t.run()
    import numpy as np
    pack = lambda d: {n: (v.numpy() if hasattr(v, "numpy") else v) for n, v in d.items()}
    return [dict(p=pack(r["p"]), q=pack(r["q"]), g=pack(r["g"]), lr=r["lr"], range=r["range"]) for r in rec], hyper


def observe_ranks(cfg, rundir, world):
    from . import train
    return train.run_ranks(cfg, rundir, world, False, 0, target="vm.optref:observe")
