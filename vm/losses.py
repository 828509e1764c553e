"""Random loss problems and an independent definition of the expected values."""
import torch

VALUE = ["KL", "CE", "MSE"]
POLICY = ["KL", "CE", "MSE", "NONE"]


def distinct(gen, *shape):
    """Positive distributions over the last flattened axes without ties."""
    b = shape[0]
    x = torch.rand(shape, generator=gen, dtype=torch.float64) + 1e-3
    return (x.reshape(b, -1) / x.reshape(b, -1).sum(1, keepdim=True)).reshape(shape)


class Problem:
    """One global batch of network outputs and targets, in float64."""

    def __init__(self, rng, *, vq=True, kd=None, rows=None, train=False):
        g = torch.Generator().manual_seed(rng.getrandbits(40))
        self.g, self.rng = g, rng
        self.B = B = rows or rng.randint(2, 9)
        self.H, self.W = H, W = rng.choice([(3, 3), (4, 5), (5, 4), (6, 6)])
        self.C = C = rng.choice([1, 3, 3])
        n = lambda *s: torch.randn(s, generator=g, dtype=torch.float64) * rng.choice([0.3, 1.0, 4.0])
        self.loss_type = f"{rng.choice(VALUE)}+{rng.choice(POLICY)}"
        self.kw = {"value_policy_ratio": rng.choice([1, 1, 0.5, 2, 3.7])}
        self.data = {"value_target": distinct(g, B, 3), "policy_target": distinct(g, B, H, W)}
        self.results = {"value": n(B, C), "policy": n(B, H, W)}
        if rng.random() < 0.15 and C == 1:
            self.data["value_target"] = torch.rand((B, 1), generator=g, dtype=torch.float64)
        if rng.random() < 0.5:
            m = torch.zeros(B, H, W, dtype=torch.float64)
            for i in range(B):
                m[i, : rng.randint(2, H), : rng.randint(2, W)] = 1
            self.results["board_mask"] = m
            t = self.data["policy_target"] * m
            self.data["policy_target"] = t / t.sum((1, 2), keepdim=True)
        if rng.random() < 0.35:
            self.kw["ignore_forbidden_point_policy"] = True
            self.data["forbidden_point"] = (torch.rand((B, H, W), generator=g) < 0.15).to(torch.int8)
        vt, pt = self.loss_type.split("+")
        if vt == "CE" and rng.random() < 0.5:
            self.kw["value_focal_gamma"] = rng.choice([1.0, 2.0, 0.5])
        if pt == "CE" and rng.random() < 0.5:
            self.kw["policy_focal_gamma"] = rng.choice([1.0, 2.0, 1.5])
        if rng.random() < 0.5:
            self.kw["policy_reg_lambda"] = rng.choice([0.1, 1e-3, 2, "0.5"])
        self.kd = None
        if kd if kd is not None else rng.random() < 0.45:
            tc = 3 if C == 3 or rng.random() < 0.5 else 1
            self.kd = {"value": n(B, tc), "policy": n(B, H, W)}
            if "board_mask" in self.results and rng.random() < 0.5:
                self.kd["board_mask"] = self.results["board_mask"]
            self.kw["kd_T"] = rng.choice([1.0, 2.0, 0.7, 4.0])
            self.kw["kd_alpha"] = rng.choice([1.0, 0.0, 0.5, 0.3])
        # auxiliary heads
        aux = {}
        for i in range(rng.choice([0, 0, 1, 2, 3])):
            kind = rng.choice(["value_loss", "policy_loss", "value_uncertainty_loss", "value_relative_uncertainty_loss",
                               "policy_reg"] + (["vq_loss"] if vq else []) + (["plain"] if train else []))
            name = f"aux{i}"
            if kind == "value_loss":
                aux[name] = (kind, n(B, rng.choice([1, C])) if self.data["value_target"].shape[1] == 3 and
                             (self.kd is None or self.kd["value"].shape[1] == 3) else n(B, 1))
            elif kind == "policy_loss":
                aux[name] = (kind, n(B, H, W))
            elif kind == "value_uncertainty_loss":
                flat = rng.random() < 0.5
                v, t = (n(B), torch.rand((B,), generator=g, dtype=torch.float64)) if flat else (n(B, 3), distinct(g, B, 3))
                aux[name] = (kind, (torch.rand((B,), generator=g, dtype=torch.float64) * rng.choice([0.3, 4]), v, t))
            elif kind == "value_relative_uncertainty_loss":
                flat = rng.random() < 0.5
                if flat:
                    aux[name] = (kind, (torch.rand((B,), generator=g, dtype=torch.float64), n(B), n(B),
                                        torch.rand((B,), generator=g, dtype=torch.float64)))
                else:
                    aux[name] = (kind, (torch.rand((B,), generator=g, dtype=torch.float64), n(B, 3), n(B, 3), distinct(g, B, 3)))
            elif kind == "policy_reg":
                aux[name] = (kind, n(B, H, W))
            elif kind == "vq_loss":
                slots = []
                for j in range(rng.randint(1, 2)):
                    slots.append(dict(id=f"s{j}", w=rng.choice([1.0, 0.5]), cw=rng.choice([0.25, 1.0]), ew=rng.choice([0, 0.1]),
                                      k=rng.choice([2, 5, B]), per=rng.randint(1, 3), dim=rng.randint(1, 4)))
                rows_ = [dict(embed=torch.rand((B, s["per"]), generator=g, dtype=torch.float64),
                              commit=torch.rand((B, s["per"]), generator=g, dtype=torch.float64),
                              prob=distinct(g, B * s["per"], s["k"]).reshape(B, s["per"], s["k"])) for s in slots]
                aux[name] = (kind, VQ(slots, rows_))
            else:
                aux[name] = n()
            if rng.random() < 0.5:
                self.kw[f"{name}_lambda"] = rng.choice([0.25, 2, "1.5", 0])
        if aux:
            self.results["aux_losses"] = aux

    # ---- views ----------------------------------------------------------
    def rows(self, idx, dtype=torch.float64, pad=0):
        """(data, results, kd) restricted to rows, optionally followed by padding garbage."""
        idx = list(idx)
        real = len(idx)
        rng = self.rng
        fill = [rng.randrange(self.B) for _ in range(pad)]
        order = list(range(real + pad))
        rng.shuffle(order)
        src = torch.tensor([(idx + fill)[i] for i in order], dtype=torch.long)
        is_real = torch.tensor([i < real for i in order], dtype=torch.bool)
        self.order = [idx[i] for i in order if i < real]      # source row of every real row, in delivery order

        def cut(v):
            if isinstance(v, VQ):
                return v.payload(idx, dtype)
            if isinstance(v, torch.Tensor):
                if v.ndim == 0:
                    return v.to(dtype)
                t = v[src]
                t = t.to(dtype) if t.dtype.is_floating_point else t
                if pad and t.dtype.is_floating_point:
                    t = t.clone()
                    bad = ~is_real
                    t[bad] = t[bad] * 3 + 1
                return t
            if isinstance(v, dict):
                return {k: cut(x) for k, x in v.items()}
            if isinstance(v, tuple):
                return tuple(cut(x) for x in v)
            return v
        data, res, kd = cut(self.data), cut(self.results), cut(self.kd) if self.kd else None
        if pad or rng.random() < 0.3:
            data["is_real"] = is_real
        if "board_mask" in res:
            src_mask = self.results["board_mask"][src].to(dtype)
            res["board_mask"] = src_mask
            if kd and "board_mask" in kd:
                kd["board_mask"] = src_mask
        return data, res, kd

    def describe(self):
        return dict(loss=self.loss_type, B=self.B, size=(self.H, self.W), C=self.C, kd=self.kd is not None,
                    masked="board_mask" in self.results, kw={k: v for k, v in self.kw.items()},
                    aux=[v[0] if isinstance(v, tuple) else "plain" for v in self.results.get("aux_losses", {}).values()])


class VQ:
    def __init__(self, slots, rows):
        self.slots, self.rows = slots, rows

    def value(self, idx):
        total = 0
        for s, r in zip(self.slots, self.rows):
            e = len(idx) * s["per"] * s["dim"]
            v = (r["embed"][idx].sum() + s["cw"] * r["commit"][idx].sum()) / e
            if s["ew"]:
                p = r["prob"][idx].reshape(-1, s["k"]).mean(0)
                v = v + s["ew"] * (p * p.clamp_min(1e-7).log()).sum()
            total = total + s["w"] * v
        return total

    def payload(self, idx, dtype):
        out = []
        for s, r in zip(self.slots, self.rows):
            d = {"slot_id": s["id"], "slot_weight": s["w"], "embed_sum": r["embed"][idx].sum().to(dtype),
                 "commit_sum": r["commit"][idx].sum().to(dtype), "elements": len(idx) * s["per"] * s["dim"],
                 "vectors": len(idx) * s["per"], "commitment_weight": s["cw"], "entropy_weight": s["ew"]}
            if s["ew"]:
                d["probability_sum"] = r["prob"][idx].reshape(-1, s["k"]).sum(0).to(dtype)
            out.append(d)
        return {"value": torch.as_tensor(self.value(idx) if len(idx) else 0.0, dtype=dtype), "slots": out}


# ---------------------------------------------------------------- definitions
def soft_ce(logits, target, *, kl=False, gamma=0.0, weight=None):
    """Per-row soft-label cross entropy from its textbook formula."""
    if logits.ndim > 1:
        lp = logits - torch.logsumexp(logits, 1, keepdim=True)
        t = target if weight is None else target * weight
        out = []
        q = (1 - lp.exp()) ** gamma if gamma else torch.ones_like(lp)
        out = -(t * lp * q).sum(1)
        if kl:
            out = out + (t * torch.log(torch.where(t < 1e-8, torch.full_like(t, 1e-8), t))).sum(1)
        return out
    sp = torch.nn.functional.softplus
    out = target * sp(-logits) + (1 - target) * sp(logits)
    if gamma:
        p = torch.sigmoid(logits)
        out = out * (1 - (target * p + (1 - target) * (1 - p))) ** gamma
    if kl:
        fl = lambda x: torch.log(torch.where(x < 1e-8, torch.full_like(x, 1e-8), x))
        out = out + target * fl(target) + (1 - target) * fl(1 - target)
    return out


def winrate(v, logits=True):
    if v.ndim == 1:
        return torch.sigmoid(v) if logits else v
    p = torch.softmax(v, 1) if logits else v
    return (p[:, 0] - p[:, 1] + 1) / 2


def value_rows(kind, v, t, kw):
    """v (B,C) logits, t (B,K) probabilities -> per-row loss."""
    if v.shape[1] == 1:
        v = v[:, 0]
        t = t[:, 0] if t.shape[1] == 1 else (t[:, 0] - t[:, 1] + 1) / 2
    if kind == "MSE":
        return (winrate(v) - winrate(t, False)) ** 2
    return soft_ce(v, t, kl=kind == "KL", gamma=kw.get("value_focal_gamma", 0) if kind == "CE" else 0)


def policy_value(kind, p, t, weight, kw):
    """Mean policy loss of a batch."""
    if kind == "NONE":
        return p.sum() * 0
    if kind == "MSE":
        d = (torch.softmax(p, 1) - t) ** 2
        return (d if weight is None else d * weight).mean()
    return soft_ce(p, t, kl=kind == "KL", gamma=kw.get("policy_focal_gamma", 0) if kind == "CE" else 0, weight=weight).mean()


def branch(prob, res, kd):
    """(terms, parts) of one target source; all rows real, float64."""
    vk, pk = prob.loss_type.split("+")
    kw = prob.kw
    B = res["value"].shape[0]
    T = kw.get("kd_T", 1.0)
    mask = res.get("board_mask")
    off = None if mask is None else mask.reshape(B, -1) == 0
    v, p = res["value"], res["policy"].reshape(B, -1)
    if off is not None:
        p = p.masked_fill(off, -1e6)
    if kd is None:
        vt, pt = prob.data["value_target"], prob.data["policy_target"].reshape(B, -1)
        if off is not None:
            pt = pt.masked_fill(off, 0)
        scale = 1.0
    else:
        tv, tp = kd["value"], kd["policy"].reshape(B, -1)
        vt = torch.softmax(tv / T, 1) if tv.shape[1] > 1 else torch.sigmoid(tv / T)
        if off is not None:
            tp = tp.masked_fill(off, -1e6)
        pt = torch.softmax(tp / T, 1)
        scale = T
    w = None
    if kw.get("ignore_forbidden_point_policy"):
        w = 1.0 - prob.data["forbidden_point"].reshape(B, -1).to(torch.float64)
    r = kw.get("value_policy_ratio", 1)
    vl, pl = 2 * r / (r + 1), 2 / (r + 1)
    parts = {"value_loss": value_rows(vk, v / scale, vt, kw).mean(), "policy_loss": policy_value(pk, p / scale, pt, w, kw)}
    dep = vl * parts["value_loss"] + pl * parts["policy_loss"]
    indep = None

    def reg(x):
        x = x.reshape(B, -1)
        m = torch.ones_like(x) if off is None else (~off).to(x.dtype)
        return ((x * m).sum() / m.sum()) ** 2
    lam = float(kw.get("policy_reg_lambda", 0))
    add = lambda a, b: b if a is None else a + b
    if lam > 0:
        parts["policy_reg"] = reg(res["policy"])
        indep = add(indep, lam * parts["policy_reg"])
    for name, a in (res.get("aux_losses") or {}).items():
        weight = kw.get(f"{name}_lambda")
        kind, x = a if isinstance(a, tuple) else ("plain", a)
        key, d = f"{name}_loss", False
        if kind == "value_loss":
            val, d, default = value_rows(vk, x / scale, vt, kw).mean(), True, vl
        elif kind == "policy_loss":
            if pk == "NONE":
                continue
            x = x.reshape(B, -1)
            if off is not None:
                x = x.masked_fill(off, -1e6)
            val, d, default = policy_value(pk, x / scale, pt, w, kw), True, pl
        elif kind == "value_uncertainty_loss":
            u, vv, tt = x
            gt = ((winrate(vv) - winrate(tt, False)) ** 2).detach()
            e = (u - gt).abs()
            val, default = torch.where(e <= 1, 0.5 * e * e, e - 0.5).mean(), 1.0
        elif kind == "value_relative_uncertainty_loss":
            u, a1, a2, tt = x
            g1 = ((winrate(a1) - winrate(tt, False)) ** 2).detach()
            g2 = ((winrate(a2) - winrate(tt, False)) ** 2).detach()
            val, default = ((u - torch.clamp(g2 / g1, max=1.0)) ** 2).mean(), 1.0
        elif kind == "policy_reg":
            if weight is None and lam == 0:
                continue
            val, default, key = reg(x), lam, name
        elif kind == "vq_loss":
            val, default = x["value"], 1.0
        else:
            val, default = x, 1.0
        term = float(default if weight is None else weight) * val
        parts[key] = val
        if d:
            dep = dep + term
        else:
            indep = add(indep, term)
    return dep, indep, parts


def expected(prob, res, kd):
    """{name: value} including total_loss, for a batch of all-real rows."""
    dep, indep, parts = branch(prob, res, None)
    if kd is None:
        total = dep if indep is None else dep + indep
        return {**parts, "total_loss": total}
    kdep, _, kparts = branch(prob, res, kd)
    a, T = prob.kw.get("kd_alpha", 1.0), prob.kw.get("kd_T", 1.0)
    total = a * T * T * kdep + (1 - a) * dep
    if indep is not None:
        total = total + indep
    return {**parts, **{f"kd_{k}": v for k, v in kparts.items()}, "total_loss": total}


def metrics(prob, res, cross):
    """Test metrics of a batch of all-real rows."""
    B = res["value"].shape[0]
    mask = res.get("board_mask")
    off = None if mask is None else mask.reshape(B, -1) == 0
    p, t = res["policy"].reshape(B, -1), prob.data["policy_target"].reshape(B, -1)
    if off is not None:
        p, t = p.masked_fill(off, -1e6), t.masked_fill(off, 0)
    out = {}
    top = lambda x, k: [set(sorted(range(x.shape[1]), key=lambda j: -float(x[i, j]))[:k]) for i in range(B)]
    for k, name in ((1, "bestmove_acc"), (2, "top2move_acc"), (3, "top3move_acc")):
        out[name] = sum(len(a & b) for a, b in zip(top(p, k), top(t, k))) / (k * B)
    v, vt = res["value"], prob.data["value_target"]
    if v.shape[1] == 1:
        pr = torch.sigmoid(v[:, 0])
        tt = vt[:, 0] if vt.shape[1] == 1 else (vt[:, 0] - vt[:, 1] + 1) / 2
        out["winrate_acc"] = float((((pr - .5) * (tt - .5)) >= 0).double().mean())
        out["winrate_mse"] = float(((pr - tt) ** 2).mean())
        prob_all, t_all = pr, tt
    else:
        pr = torch.softmax(v, 1)
        out["winrate_acc"] = float(((pr[:, 0] >= pr[:, 1]) == (vt[:, 0] >= vt[:, 1])).double().mean())
        out["winrate_mse"] = float(((winrate(v) - winrate(vt, False)) ** 2).mean())
        out["drawrate_acc"] = float(((pr.argmax(1) == 2) == (vt.argmax(1) == 2)).double().mean())
        out["drawrate_mse"] = float(((pr[:, 2] - vt[:, 2]) ** 2).mean())
        prob_all, t_all = pr, vt
    if cross:
        e = (prob_all - t_all).abs()
        rel = e / (prob_all.abs() + 1e-4)
        out.update(value_abserr_mean=float(e.mean()), value_abserr_max=float(e.max()),
                   value_relerr_mean=float(rel.mean()), value_relerr_max=float(rel.max()))
    return out
