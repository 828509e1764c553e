"""Losses, gradients and metrics against independently written definitions."""
import math

import torch

from vm import losses
from vm.checks.p18 import close


def leaves(res):
    out = {"value": res["value"], "policy": res["policy"]}
    for k, v in (res.get("aux_losses") or {}).items():
        if isinstance(v, torch.Tensor):
            out[k] = v
        elif isinstance(v[1], torch.Tensor):
            out[k] = v[1]
        elif v[0] == "vq_loss":
            out[k] = v[1]["value"]
        else:
            for i, x in enumerate(v[1][:-1]):       # the last input is the target
                out[f"{k}.{i}"] = x
    return out


def train_case(ctx, rng):
    """Training loss, its parts and its gradients."""
    from trainer.loss.supervised import compute_supervised_losses
    prob = losses.Problem(rng, train=True)
    data, res, kd = prob.rows(range(prob.B), pad=rng.choice([0, 0, 2]))
    clean = prob.results
    ref_res = {k: (v if k != "aux_losses" else {n: _plain(a, prob.B) for n, a in v.items()}) for k, v in clean.items()}
    ins_ref, ins = leaves(ref_res), leaves(res)
    for t in list(ins_ref.values()) + list(ins.values()):
        t.requires_grad_(True)
    aux_out = rng.random() < 0.3
    if aux_out:
        res["aux_outputs"] = {"extra": torch.tensor(2.5, dtype=torch.float64)}
    want = losses.expected(prob, ref_res, prob.kd)
    total, parts, aux = compute_supervised_losses(prob.loss_type, data, res, kd, **prob.kw)
    ctx.check(set(parts) == set(want), "loss:names", lambda: f"reported losses {sorted(parts)}, defined {sorted(want)}: {prob.describe()}")
    for k, w in want.items():
        ctx.check(close(parts[k], w, 1e-8), "loss:value", lambda: f"{k} = {float(parts[k])!r}, definition gives {float(w)!r}: {prob.describe()}")
        ctx.check(not parts[k].requires_grad, "loss:attached", f"logged {k} keeps the graph alive")
        ctx.count("losses_compared")
    ctx.check(close(total, want["total_loss"], 1e-8), "loss:total", "returned total differs from the reported one")
    ctx.check(set(aux) == ({"extra"} if aux_out else set()), "loss:aux-outputs", f"auxiliary outputs {sorted(aux)}")
    # gradients
    pos = prob.order
    names = list(ins_ref)
    g_ref = torch.autograd.grad(want["total_loss"], [ins_ref[n] for n in names], allow_unused=True)
    g = torch.autograd.grad(total, [ins[n] for n in names], allow_unused=True)
    for n, a, b in zip(names, g_ref, g):
        a = torch.zeros_like(ins_ref[n]) if a is None else a
        b = torch.zeros_like(ins[n]) if b is None else b
        if b.ndim and "is_real" in data:
            ctx.check(not bool(b[~data["is_real"]].any()), "loss:padding-gradient", f"padding rows of {n} receive a gradient")
            b = b[data["is_real"]]
        if a.ndim:
            a = a[pos]
        err = float((a - b).abs().max()) if a.numel() else 0.0
        scale = max(1.0, float(a.abs().max()) if a.numel() else 0.0)
        ctx.check(err <= 1e-7 * scale, "loss:gradient", lambda: f"gradient of total loss w.r.t. {n} off by {err}: {prob.describe()}")
        ctx.count("gradients_compared")
    d = prob.describe()
    ctx.seen("train", d["loss"], d["kd"], d["masked"], d["C"], tuple(d["aux"]), tuple(sorted(prob.kw)))


def _plain(a, B):
    if isinstance(a, tuple) and isinstance(a[1], losses.VQ):
        return (a[0], a[1].payload(list(range(B)), torch.float64))
    return a


def eval_case(ctx, rng):
    """Evaluation statistics finalised over one batch equal the training definition."""
    from trainer.loss.supervised import compute_supervised_loss_statistics
    prob = losses.Problem(rng)
    data, res, kd = prob.rows(range(prob.B), pad=rng.choice([0, 0, 2]))
    ref_res = {k: (v if k != "aux_losses" else {n: _plain(a, prob.B) for n, a in v.items()}) for k, v in prob.results.items()}
    want = losses.expected(prob, ref_res, prob.kd)
    st, aux = compute_supervised_loss_statistics(prob.loss_type, data, res, kd, **prob.kw)
    ctx.check(set(st) == set(want), "eval:names", lambda: f"statistics {sorted(st)}, defined {sorted(want)}: {prob.describe()}")
    for k, w in want.items():
        v = st[k].finalize()
        ctx.check(close(v, w, 1e-8), "eval:value", lambda: f"{k} = {float(v)!r}, definition gives {float(w)!r}: {prob.describe()}")
        ctx.count("losses_compared")
    d = prob.describe()
    ctx.seen("eval", d["loss"], d["kd"], d["masked"], d["C"], tuple(d["aux"]))


def metric_case(ctx, rng):
    from trainer.metric.supervised import compute_supervised_metric_statistics
    prob = losses.Problem(rng, kd=False, vq=False)
    if rng.random() < 0.3:      # agreeing predictions, so that accuracies reach both ends
        prob.results["policy"] = prob.data["policy_target"].log().nan_to_num(neginf=-50)
        if prob.C == 3 and prob.data["value_target"].shape[1] == 3:
            prob.results["value"] = prob.data["value_target"].log()
    cross = rng.random() < 0.5
    data, res, _ = prob.rows(range(prob.B), pad=rng.choice([0, 0, 3]))
    st = compute_supervised_metric_statistics(data, res, do_cross_eval=cross)
    want = losses.metrics(prob, prob.results, cross)
    ce = losses.Problem.__new__(losses.Problem)
    ce.__dict__.update(prob.__dict__)
    ce.loss_type, ce.kw = "CE+CE", {}
    exp = losses.expected(ce, prob.results, None)
    want.update({f"lossCE_{k}": float(v) for k, v in exp.items()})
    ctx.check(set(st) == set(want), "metric:names", lambda: f"metrics {sorted(st)}, defined {sorted(want)}")
    for k, w in want.items():
        v = st[k].finalize()
        ctx.check(close(v, w, 1e-6), "metric:value", lambda: f"{k} = {float(v)!r}, definition gives {w!r}: {prob.describe()}")
        ctx.count("metrics_compared")
    ctx.seen("metric", prob.C, prob.H, prob.W, cross, "board_mask" in prob.results)


def limits_case(ctx, rng):
    """Known values: perfect predictions, uniform predictions, extreme logits stay finite."""
    from trainer.loss.supervised import compute_supervised_loss_statistics, compute_supervised_losses
    g = torch.Generator().manual_seed(rng.getrandbits(40))
    B, n = rng.randint(1, 6), rng.randint(2, 6)
    for dt in (torch.float32, torch.float64):
        pt = losses.distinct(g, B, n, n).to(dt)
        vt = losses.distinct(g, B, 3).to(dt)
        data = {"policy_target": pt, "value_target": vt}
        res = {"policy": pt.log() + 3, "value": vt.log() - 2}
        for lt in ("KL+KL", "MSE+MSE"):
            total, parts, _ = compute_supervised_losses(lt, data, res)
            ctx.check(abs(float(total)) < 1e-5, "limit:perfect", lambda: f"{lt} of a perfect prediction is {float(total)}")
        ent = float(-(vt * vt.log()).sum(1).mean() - (pt * pt.log()).reshape(B, -1).sum(1).mean())
        total, _, _ = compute_supervised_losses("CE+CE", data, res)
        ctx.check(close(total, ent, 1e-4), "limit:entropy", lambda: f"cross entropy of a perfect prediction {float(total)} != entropy {ent}")
        flat = {"policy": torch.zeros(B, n, n, dtype=dt), "value": torch.zeros(B, 3, dtype=dt)}
        total, _, _ = compute_supervised_losses("CE+CE", data, flat)
        ctx.check(close(total, math.log(3) + math.log(n * n), 1e-5), "limit:uniform", f"uniform prediction has cross entropy {float(total)}")
        big = rng.choice([1e3, 1e4, 3e4])
        ext = {"policy": (torch.rand(B, n, n, generator=g).to(dt) - .5) * big, "value": (torch.rand(B, 3, generator=g).to(dt) - .5) * big}
        one = torch.zeros(B, n * n, dtype=dt)
        one[:, 0] = 1
        hard = {"policy_target": one.reshape(B, n, n), "value_target": torch.eye(3, dtype=dt)[torch.zeros(B, dtype=torch.long)]}
        for lt in ("KL+KL", "CE+CE", "MSE+MSE", "CE+NONE"):
            e = {k: v.clone().requires_grad_(True) for k, v in ext.items()}
            total, parts, _ = compute_supervised_losses(lt, hard, e, policy_reg_lambda=1e-3)
            total.backward()
            ctx.check(bool(torch.isfinite(total)) and all(bool(torch.isfinite(x.grad).all()) for x in e.values() if x.grad is not None),
                      "limit:finite", f"{lt}: extreme logits gave a non-finite loss or gradient")
            ctx.check(float(total) >= -1e-5, "limit:negative", f"{lt} is negative: {float(total)}")
            st, _ = compute_supervised_loss_statistics(lt, hard, ext, policy_reg_lambda=1e-3)
            ctx.check(close(st["total_loss"].finalize(), total, 1e-4), "limit:eval-train", f"{lt}: evaluation and training totals differ")
        # one-logit heads: a confident correct answer costs nothing, a wrong one its margin
        v1 = {"policy": flat["policy"], "value": torch.full((B, 1), 50.0, dtype=dt)}
        win = {"policy_target": pt, "value_target": torch.tensor([[1., 0, 0]], dtype=dt).repeat(B, 1)}
        lose = {"policy_target": pt, "value_target": torch.tensor([[0., 1, 0]], dtype=dt).repeat(B, 1)}
        a = compute_supervised_losses("CE+NONE", win, v1)[1]["value_loss"]
        b = compute_supervised_losses("CE+NONE", lose, v1)[1]["value_loss"]
        ctx.check(float(a) < 1e-6 and close(b, 50.0, 1e-4), "limit:binary", f"confident value loss right {float(a)}, wrong {float(b)}")
        ctx.count("limits")
    # an all-padding batch is worth zero but keeps its schema and graph
    prob = losses.Problem(rng, train=True)
    data, res, kd = prob.rows([], pad=rng.randint(1, 3))
    if not any(isinstance(v, tuple) and v[0] == "vq_loss" for v in res.get("aux_losses", {}).values()):
        res["value"].requires_grad_(True)
        total, parts, _ = compute_supervised_losses(prob.loss_type, data, res, kd, **prob.kw)
        ctx.check(float(total) == 0 and all(float(v) == 0 for v in parts.values()), "limit:padding", "an all-padding batch has a loss")
        full = compute_supervised_losses(prob.loss_type, *prob.rows(range(prob.B)), **prob.kw)[1]
        ctx.check(set(parts) == set(full), "limit:padding-schema", f"all-padding losses {sorted(parts)} vs {sorted(full)}")
        total.backward()
        ctx.check(not bool(res["value"].grad.any()), "limit:padding-gradient", "an all-padding batch produces a gradient")
        ctx.count("all_padding")
    ctx.seen("limit", B, n)


def run(ctx):
    ctx.rule = "differential monitor: losses, gradients and metrics of random problems against independently written formulas in float64"
    ctx.assumptions = ["float64 agreement to 1e-8 relative (1e-6 for metrics)", "no ties among policy cells"]
    for k, n in (("losses_compared", 400), ("gradients_compared", 300), ("metrics_compared", 300), ("limits", 10), ("all_padding", 3)):
        ctx.require(k, n)
    for name, rng in ctx.cases("train", 600, 12000, share=0.4):
        with ctx.case(name):
            train_case(ctx, rng)
    for name, rng in ctx.cases("eval", 400, 8000, share=0.25):
        with ctx.case(name):
            eval_case(ctx, rng)
    for name, rng in ctx.cases("metric", 400, 8000, share=0.25):
        with ctx.case(name):
            metric_case(ctx, rng)
    for name, rng in ctx.cases("limit", 40, 600):
        with ctx.case(name):
            limits_case(ctx, rng)
