"""Loss and metric statistics are independent of how a batch is partitioned."""
import math
from dataclasses import replace

import torch

from vm import losses
from vm.core import Skip

REFUSED = (ValueError, TypeError, RuntimeError)


def parts_of(rng, n):
    idx = list(range(n))
    rng.shuffle(idx)
    k = rng.randint(1, min(n, 4))
    cuts = sorted(rng.sample(range(1, n), k - 1)) if n > 1 else []
    out = [idx[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.insert(rng.randrange(len(out) + 1), [])
    return out


def fold(rng, stats):
    """Combine in a random tree."""
    items = list(stats)
    while len(items) > 1:
        i = rng.randrange(len(items) - 1)
        a, b = items.pop(i), items.pop(i)
        items.insert(i, b.combine(a) if rng.random() < 0.5 else a.combine(b))
    return items[0]


def close(a, b, rtol):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= rtol * max(1.0, abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))


def stats_of(what, prob, data, res, kd, cross):
    from trainer.loss.supervised import compute_supervised_loss_statistics
    from trainer.metric.supervised import compute_supervised_metric_statistics
    if what == "loss":
        out, _ = compute_supervised_loss_statistics(prob.loss_type, data, res, kd, **prob.kw)
        return out
    return compute_supervised_metric_statistics(data, res, do_cross_eval=cross)


def split_case(ctx, rng, what):
    prob = losses.Problem(rng, kd=None if what == "loss" else False)
    dtype = torch.float64 if rng.random() < 0.7 else torch.float32
    rtol = 1e-9 if dtype == torch.float64 else 3e-4
    cross = rng.random() < 0.5 and prob.data["value_target"].shape[1] in (1, 3)
    has_vq = "vq_loss" in prob.describe()["aux"]
    whole = stats_of(what, prob, *prob.rows(range(prob.B), dtype), cross)
    if not any(k.startswith("value_abserr") for k in whole):
        cross = False
    want = {k: v.finalize() for k, v in whole.items()}
    for _ in range(3):
        parts = parts_of(rng, prob.B)
        got = []
        for p in parts:
            pad = rng.choice([0, 1, 3]) if p else rng.randint(1, 3)
            st = stats_of(what, prob, *prob.rows(p, dtype, pad), cross)
            ctx.check(set(st) == set(whole), "split:keys", lambda: f"statistics {sorted(st)} for part {p}, {sorted(whole)} for the whole")
            got.append(st)
            ctx.count("parts")
            if not p:
                ctx.count("all_padding_parts")
            # padding rows alone never contribute
            for k, v in st.items():
                if not p:
                    c = [getattr(v, n) for n in ("count", "valid_count") if hasattr(v, n)] or \
                        [x for n, x in v.counts.items() if "replicas" not in n]
                    ctx.check(not any(c), "split:padding-counted", f"{k}: padding rows counted {c}")
        for k in whole:
            comb = fold(rng, [g[k] for g in got])
            v = comb.finalize()
            ctx.check(close(v, want[k], rtol), "split:value",
                      lambda: f"{what} {k}: {float(v)!r} from parts {[len(p) for p in parts]} but {float(want[k])!r} on the whole "
                              f"({prob.describe()})")
            ctx.check(type(comb) is type(whole[k]) and comb.scope == whole[k].scope, "split:type", f"{k} changed type when combined")
            for n in ("count", "valid_count"):
                if hasattr(comb, n):
                    ctx.check(getattr(comb, n) == getattr(whole[k], n), "split:count",
                              lambda: f"{k}: {getattr(comb, n)} != {getattr(whole[k], n)}")
            ctx.count("values_compared")
        ctx.seen(what, prob.loss_type, prob.kd is not None, tuple(len(p) for p in parts), has_vq, tuple(prob.describe()["aux"]))


def eval_loop_case(ctx, rng):
    """The trainer's own accumulator over a long run of evaluation batches."""
    from dataset.core import Maximum, SufficientStats, SumCount
    from trainer.base import BaseTrainer
    acc_fn = getattr(BaseTrainer, "_accumulate_evaluation_metrics", None)
    zero = getattr(BaseTrainer, "_zero_evaluation_stat", None)
    if acc_fn is None or zero is None:
        ctx.count("unobservable:accumulator")
        return
    n = rng.choice([1, 5, 150, 400, 1500])
    c = torch.tensor(rng.uniform(0.01, 500), dtype=torch.float32)
    xs = [rng.uniform(-3, 3) for _ in range(n)]
    cs = [rng.randint(1, 50) for _ in range(n)]
    totals = {}
    order = list(range(n))
    rng.shuffle(order)
    first = rng.random() < 0.5
    for pos, i in enumerate(order):
        st = {"s": SumCount("evaluation", torch.tensor(xs[i] * cs[i], dtype=torch.float64), cs[i]),
              "m": Maximum("evaluation", torch.tensor(xs[i], dtype=torch.float64), cs[i]),
              "const": SufficientStats("evaluation", "replicated_constant_v1", {"sum": c, "square_sum": c.square()}, {"replicas": 1}),
              "mean": SufficientStats("evaluation", "mean_v1", {"sum": torch.tensor(xs[i], dtype=torch.float64)}, {"count": 1})}
        if pos == 0 and first:
            z = {k: zero(v) for k, v in st.items()}     # a replayed batch opens the totals
            acc_fn(totals, z)
        acc_fn(totals, st)
    want = {"s": sum(x * k for x, k in zip(xs, cs)) / sum(cs), "m": max(xs), "const": float(c), "mean": sum(xs) / n}
    for k, w in want.items():
        try:
            v = totals[k].finalize()
        except ValueError as e:
            ctx.fail(f"split:{'constant' if k == 'const' else 'accumulate'}", f"{k} over {n} batches cannot be finalised: {e} (constant {float(c)})")
        ctx.check(close(v, w, 1e-3 if k == "const" else 1e-9), "split:accumulate", lambda: f"{k} over {n} batches: {float(v)} != {w}")
        ctx.count("accumulated")
    ctx.seen("eval", n, first)
    # a replica that really differs is refused
    d = c * rng.choice([1.5, 0.5, -1.0])
    k = rng.randint(1, 6)
    s = None
    for i in range(k + 1):
        v = d if i == k else c
        one = SufficientStats("evaluation", "replicated_constant_v1", {"sum": v, "square_sum": v.square()}, {"replicas": 1})
        s = one if s is None else s.combine(one)
    if abs(float(c)) > 1:
        try:
            s.finalize()
        except ValueError:
            ctx.count("refused:differing-constant")
        else:
            ctx.fail("split:differing-constant", f"constants {float(c)} and {float(d)} were averaged")


def refuse_case(ctx, rng):
    """Incompatible, malformed and empty statistics are refused; algebra laws hold."""
    from dataset.core import Maximum, SufficientStats, SumCount
    t = lambda *a, **k: torch.tensor(*a, **k)
    f32, f64 = torch.float32, torch.float64
    x = rng.uniform(-2, 2)
    sc = lambda scope="global_batch", v=x, n=3, dt=f32, shape=(): SumCount(scope, torch.full(shape, v, dtype=dt), n)
    mx = lambda v=x, n=3, dt=f32, shape=(): Maximum("evaluation", torch.full(shape, v, dtype=dt), n)
    ms = lambda scope="global_batch", fid="policy_mean_square_v1", v=x, n=4, dt=f32, shape=(): SufficientStats(
        scope, fid, {"valid_logit_sum": torch.full(shape, v, dtype=dt)}, {"valid_cells": n})
    mean = lambda scope="global_batch", v=x, n=4, dt=f32: SufficientStats(scope, "mean_v1", {"sum": t(v, dtype=dt)}, {"count": n})
    vq = lambda slot="a", ew=None: _vq(x, slot, ew)

    def _vq(v, slot, ew):
        tt = {f"{n}:{slot}": t(abs(v) + 1.0) for n in ("embed_sum", "commit_sum", "slot_weight_sum", "slot_weight_square_sum",
                                                      "commit_weight_sum", "commit_weight_square_sum")}
        tt[f"slot_weight_square_sum:{slot}"] = tt[f"slot_weight_sum:{slot}"] ** 2
        tt[f"commit_weight_square_sum:{slot}"] = tt[f"commit_weight_sum:{slot}"] ** 2
        if ew:
            tt |= {f"probability_sum:{slot}": torch.ones(ew) / ew, f"entropy_weight_sum:{slot}": t(.5),
                   f"entropy_weight_square_sum:{slot}": t(.25)}
        return SufficientStats("global_batch", "vq_composition_v1", tt,
                               {f"elements:{slot}": 4, f"vectors:{slot}": 1, f"constant_replicas:{slot}": 1})
    clash = [(sc(), sc("evaluation")), (sc(), sc(dt=f64)), (sc(), sc(shape=(2,))), (mx(), mx(dt=f64)), (mx(), mx(shape=(1,))),
             (ms(), ms("evaluation")), (ms(), mean()), (ms(), ms(dt=f64)), (ms(), ms(shape=(3,))), (vq("a"), vq("b")),
             (vq("a", 3), vq("a", 4)), (vq("a", 3), vq("a"))]
    for a, b in clash:
        for p, q in ((a, b), (b, a)):
            try:
                r = p.combine(q)
            except REFUSED:
                ctx.count("refused:incompatible")
            else:
                ctx.fail("refuse:incompatible", f"{p} combined with {q} gave {r}")
    for e in (sc(n=0), mx(n=0), ms(n=0), mean(n=0), SufficientStats("evaluation", "replicated_constant_v1", {"sum": t(0.), "square_sum": t(0.)}, {"replicas": 0}),
              sc(n=0).combine(sc(n=0)), mx(n=0).combine(mx(n=0)), ms(n=0).combine(ms(n=0))):
        try:
            r = e.finalize()
        except REFUSED:
            ctx.count("refused:empty")
        else:
            ctx.fail("refuse:empty", f"empty statistic {e} finalised to {r}")
    good = {"valid_logit_sum": t(1.)}
    for make in (lambda: SumCount("batch", t(1.), 1), lambda: SumCount("global_batch", 1.0, 1), lambda: SumCount("global_batch", t(1.), -1),
                 lambda: SumCount("global_batch", t(1.), 1.0), lambda: SumCount("global_batch", t(1.), True),
                 lambda: Maximum("global_batch", t(1.), 1), lambda: Maximum("evaluation", 1.0, 1), lambda: Maximum("evaluation", t(1.), -2),
                 lambda: SufficientStats("x", "policy_mean_square_v1", good, {"valid_cells": 1}),
                 lambda: SufficientStats("evaluation", "nope", good, {"valid_cells": 1}),
                 lambda: SufficientStats("evaluation", "policy_mean_square_v1", {"valid_logit_sum": 1.0}, {"valid_cells": 1}),
                 lambda: SufficientStats("evaluation", "policy_mean_square_v1", good, {"valid_cells": -1}),
                 lambda: SufficientStats("evaluation", "policy_mean_square_v1", good, {"cells": 1}),
                 lambda: SufficientStats("evaluation", "policy_mean_square_v1", {**good, "x": t(1.)}, {"valid_cells": 1}),
                 lambda: SufficientStats("evaluation", "policy_mean_square_v1", good, {"valid_cells": 1, "y": 0}),
                 lambda: SufficientStats("evaluation", "mean_v1", good, {"count": 1}),
                 lambda: SufficientStats("evaluation", "vq_composition_v1", {}, {}),
                 lambda: SufficientStats("evaluation", "loss_composition_v1", {}, {}),
                 lambda: replace(vq("a", 3), tensors={k: v for k, v in vq("a", 3).tensors.items() if not k.startswith("entropy_weight_sum")}),
                 lambda: replace(vq("a"), counts={**vq("a").counts, "vectors:b": 1})):
        try:
            r = make()
        except REFUSED:
            ctx.count("refused:malformed")
        else:
            ctx.fail("refuse:malformed", f"malformed statistic accepted: {r}")
    # empty contributions are neutral
    for e, v in ((sc(v=0.0, n=0), sc()), (mx(v=99.0, n=0), mx()), (ms(v=0.0, n=0), ms())):
        for r in (e.combine(v), v.combine(e)):
            ctx.check(torch.equal(r.finalize(), v.finalize()), "refuse:neutral", f"an empty contribution changed {v} to {r}")
    a, b = mx(1.0, 2), mx(-1.0, 3)
    ctx.check(float(a.combine(b).value) == 1.0 and a.combine(b).valid_count == 5, "refuse:maximum", "maximum of 1 and -1")
    ctx.seen("refuse", round(x, 2))


def payload_case(ctx, rng):
    """Auxiliary payloads an exact combination cannot be built from are refused."""
    from trainer.loss.supervised import compute_supervised_loss_statistics
    for _ in range(200):
        prob = losses.Problem(rng, kd=False)
        if any(isinstance(v, tuple) and v[0] == "vq_loss" for v in prob.results.get("aux_losses", {}).values()):
            break
    else:
        raise Skip("no VQ problem drawn")
    name = next(k for k, v in prob.results["aux_losses"].items() if v[0] == "vq_loss")

    def broken(edit):
        data, res, kd = prob.rows(range(prob.B))
        kind, pay = res["aux_losses"][name]
        r = edit(pay)
        res["aux_losses"][name] = (kind, pay if r is None else r)
        return data, res
    s0 = lambda p: p["slots"][0]
    edits = {"no slots": lambda p: p["slots"].clear(), "extra key": lambda p: p.update(x=1), "plain value": lambda p: p.update(value=1.0),
             "bad id": lambda p: s0(p).update(slot_id="a:b"), "empty id": lambda p: s0(p).update(slot_id=""),
             "duplicate id": lambda p: p["slots"].append(dict(s0(p))), "vector sum": lambda p: s0(p).update(embed_sum=torch.ones(2)),
             "float sum": lambda p: s0(p).update(commit_sum=1.0), "negative": lambda p: s0(p).update(elements=-1),
             "float count": lambda p: s0(p).update(vectors=1.5), "missing": lambda p: s0(p).pop("commitment_weight") and None,
             "unexpected": lambda p: s0(p).update(zzz=1),
             "entropy without probabilities": lambda p: (s0(p).update(entropy_weight=0.5), s0(p).pop("probability_sum", None)) and None,
             "probabilities without entropy": lambda p: s0(p).update(entropy_weight=0, probability_sum=torch.ones(3)),
             "opaque": lambda p: p["value"]}
    for what, e in edits.items():
        data, res = broken(e)
        if what == "opaque":
            res["aux_losses"][name] = torch.tensor(1.0, dtype=torch.float64)
        try:
            compute_supervised_loss_statistics(prob.loss_type, data, res, None, **prob.kw)
        except REFUSED:
            ctx.count("refused:payload")
        else:
            ctx.fail("refuse:payload", f"VQ payload with defect '{what}' was accepted")
    for bad in (torch.ones(prob.B + 1, dtype=torch.bool), torch.ones(prob.B, 1, dtype=torch.bool)):
        data, res, _ = prob.rows(range(prob.B))
        data["is_real"] = bad
        try:
            stats_of("loss", prob, data, res, None, False)
        except REFUSED + (IndexError,):
            ctx.count("refused:mask")
        else:
            ctx.fail("refuse:mask", f"is_real of shape {tuple(bad.shape)} accepted for {prob.B} rows")


def run(ctx):
    ctx.rule = ("metamorphic monitor: statistics of random partitions of a batch, with padding rows and random combination trees, "
                "against those of the undivided batch; non-trivial: distinct (loss, heads, partition) combinations")
    ctx.assumptions = ["values agree to 1e-9 (float64) or 3e-4 (float32)"]
    for k, n in (("parts", 200), ("all_padding_parts", 30), ("values_compared", 500), ("accumulated", 20), ("refused:incompatible", 40),
                 ("refused:empty", 20), ("refused:malformed", 40), ("refused:payload", 20)):
        ctx.require(k, n)
    for name, rng in ctx.cases("loss", 400, 8000, share=0.4):
        with ctx.case(name):
            split_case(ctx, rng, "loss")
    for name, rng in ctx.cases("metric", 240, 5000, share=0.3):
        with ctx.case(name):
            split_case(ctx, rng, "metric")
    for name, rng in ctx.cases("accumulate", 24, 400, share=0.2):
        with ctx.case(name):
            eval_loop_case(ctx, rng)
    for name, rng in ctx.cases("refuse", 16, 100):
        with ctx.case(name):
            refuse_case(ctx, rng)
    for name, rng in ctx.cases("payload", 16, 100):
        with ctx.case(name):
            payload_case(ctx, rng)
