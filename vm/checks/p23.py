"""P23: a failing or non-finite step never reaches a checkpoint, a validation or the data position."""
from .. import forkserver, scenario, train
from .p20 import Golden
from .p22 import compare, diff, states

NUMERIC = ["loss-nan", "loss-inf", "loss-ninf", "metric-nan", "metric-inf", "aux-nan", "grad-nan", "grad-inf", "onegrad-nan", "onegrad-inf",
           "onegrad-ninf"]
STRUCTURAL = ["raise", "raise-before", "raise-after", "opt-raise", "sched-raise", "detached", "vector", "notensor", "drop"]


def launch(srv, cfg, d, world, spec, victim=0):
    if world == 1:
        return [srv.call("vm.fault", "run", cfg, str(d), spec, timeout=150)]
    o = srv.call("vm.fault", "run_ranks", cfg, str(d), world, spec, victim, timeout=200)
    if not o.ok:
        srv.blame(o, "process group")
    return [forkserver.Outcome(**r) for r in o.value]


def on_disk(ctx, srv, d, golds, limit, before, where):
    """Every finished checkpoint not in `before` belongs to an iteration below the failing one and holds the golden weights."""
    files = srv.value("vm.crash", "inspect", str(d), what=where)
    for n, (kind, it, dg, err) in files.items():
        ctx.check(err is None, "failed-step:damaged-file", f"{where}: {n}: {err}")
        ctx.check(limit is None or it < limit or n in before, "failed-step:checkpointed", f"{where}: {n} was written although iteration {limit} failed")
        if kind == "model":
            want = golds[0].by[it]["files"].get(n[len("ckpt_"):].rsplit("_", 1)[0])
            ctx.check(want is not None and dg == want, "failed-step:wrong-content", f"{where}: {n} does not hold the weights of iteration {it}")
        ctx.count("files_examined")
    return sorted(it for kind, it, _, _ in files.values() if kind == "state")


def periodic(cfg):
    """Iterations after which a training state is written."""
    ss = cfg.get("state_save_interval")
    return [i for i in range(1, cfg["iterations"] + 1)
            if (i % cfg["save_interval"] == 0 or i % cfg["temp_save_interval"] == 0 or (ss and i % ss == 0)) and (not ss or i % ss == 0)]


def history(ctx, srv, rng, cfg, d, golds, label, world):
    total = cfg["iterations"]
    acc = cfg["gradient_accumulation_steps"]
    safe, n, sched = 0, rng.choice([1, 1, 2]), []
    for k in range(n + 1):
        spec, victim = None, rng.randrange(world)
        if k < n:
            kind = rng.choice(NUMERIC + STRUCTURAL + (["interrupt"] * 5 if world == 1 else []))
            spec = dict(kind=kind, it=rng.randint(1, total), micro=rng.randrange(acc), index=rng.randrange(50))
            if kind in ("interrupt",):
                spec["lines"] = int(rng.choice([30, 150, 600, 2500]) * rng.random())
                if rng.random() < 0.3:
                    spec.update(lines=rng.randrange(40), within="run")
                elif rng.random() < 0.4:
                    spec["files"] = ("trainer/base.py", "utils/training_utils.py", "utils/file_utils.py", "dataset/planner.py", "utils/async_checkpoint.py")
            elif kind in NUMERIC and world == 1 and rng.random() < 0.35:
                spec["lines"] = rng.randrange(400)      # and an interrupt some lines later
                if rng.random() < 0.6:
                    spec.update(lines=rng.randrange(40), within="run")
            if world > 1 and kind == "drop" and victim != 0:
                spec["kind"] = kind = "raise"
        sched.append((spec, victim))
        where = f"{label}, process {k} of {sched}"
        before = set(train.listing(d))
        outs = launch(srv, cfg, d, world, spec, victim)
        ctx.count("processes")
        hit = False
        for r, o in enumerate(outs):
            if not o.ok:
                srv.blame(o, where)
            seg = o.value
            compare_upto(ctx, golds[r], seg, where, spec)
            at = seg["start"]["iteration"]
            ctx.check(at >= safe, "failed-step:position-lost", f"{where}: started at {at} although {safe} was saved")
            hit = hit or seg["hit"]
        bad = spec["it"] if hit and spec["kind"] != "interrupt" else None
        for r, o in enumerate(outs):
            seg = o.value
            if seg["where"]:
                ctx.count("interrupts")
                ctx.seen("interrupt", seg["where"])
                ctx.check(seg["error"] is not None, "failed-step:not-reported", f"{where}: the interrupt at {seg['where']} was swallowed")
            if bad is not None:
                ctx.check(seg["error"] is not None, "failed-step:not-reported", f"{where}: rank {r} finished without an error")
                ctx.count("failures:" + spec["kind"])
                ctx.seen(spec["kind"], spec["micro"], acc, world, r == victim, cfg["optim_type"], cfg["clip_grad_norm"], cfg["clip_grad_value"])
                late = [i for i in seg["after"] if i > bad + (1 if spec["kind"] in NUMERIC and world == 1 else 0)]
                ctx.check(not late, "failed-step:training-continued", f"{where}: rank {r} completed steps {late} after iteration {bad} failed")
                vals = sorted({i for i, _ in seg["vals"] if i >= bad})
                ctx.check(not vals, "failed-step:validated", f"{where}: rank {r} validated at iterations {vals}")
            elif not seg["where"]:
                ctx.check(seg["error"] is None, "failed-step:spurious-error", f"{where}: {seg['error']}")
                ctx.check(seg["end"]["iteration"] == total, "failed-step:ended-early", f"{where}: ended at {seg['end']['iteration']}")
                dd = diff(seg["end"], golds[r].out["end"], golds[r].state_keys)
                ctx.check(not dd, "failed-step:end-differs", f"{where}: final state differs in {dd}")
                ctx.count("clean_ends")
        have = on_disk(ctx, srv, d, golds, bad, before, where)
        due = [i for i in periodic(cfg) if bad is not None and i < bad and i > outs[0].value["start"]["iteration"]]
        ctx.check(not due or (have and have[-1] >= due[-1]), "failed-step:earlier-checkpoint-lost",
                  f"{where}: the state of iteration {due[-1:]} was due before the failure, states on disk: {have}")
        safe = have[-1] if have else 0
        if safe:
            ctx.count("resumable_failures")


def compare_upto(ctx, gold, seg, where, spec):
    """Golden equality for every step before the failing one."""
    if spec and seg["hit"] and spec["kind"] != "interrupt" :
        seg = dict(seg, trace=[s for s in seg["trace"] if s["iteration"] < spec["it"]], vals=[v for v in seg["vals"] if v[0] < spec["it"]])
    compare(ctx, gold, seg, where)


def run(ctx):
    ctx.rule = ("training runs in which one micro-step of one rank raises, returns a malformed or non-finite loss, metric or gradient, or "
                "an optimizer or scheduler step or hook raises, sometimes with a keyboard interrupt at an arbitrary later line of "
                "the trainer, and runs interrupted at an arbitrary line; the directory is then examined and training resumed and "
                "compared with an uninterrupted run. Non-trivial: distinct (failure, micro-step, configuration) and interrupt locations")
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.fault", "vm.crash", "trainer", "model"), env={"VM_SCRATCH": str(ctx.scratch)})
    kinds = scenario.ALL_KINDS + list(train.MAPS)
    try:
        for name, rng in ctx.cases("failing", 40, 800):
            with ctx.case(name, sample=False):
                d = ctx.tmp()
                n = int(name.split("#")[1])
                world = 2 if n % 8 == 4 else 1
                cfg, s = train.config(rng, d, kind=kinds[n % len(kinds)], world=world, iterations=rng.randint(4, 8), total=14)
                cfg.update(save_interval=rng.choice([1, 2, 3, 100]), temp_save_interval=rng.choice([1, 2, 2, 3]), num_keep_states=rng.choice([1, 2, -1]),
                           val_interval=rng.choice([1, 2, 3]))
                if rng.random() < 0.2:
                    cfg["state_save_interval"] = rng.choice([1, 2, 3])
                label = f"{s.kind}/{cfg['model_type']}/{cfg['optim_type']}/acc{cfg['gradient_accumulation_steps']}/w{world}"
                golds = []
                for o in launch(srv, cfg, d / "gold", world, None):
                    if not o.ok:
                        srv.blame(o, f"{label}: uninterrupted run")
                    golds.append(Golden(o.value, not cfg["dataset_args"].get("apply_symmetry"), len(golds)))
                ctx.sample({"case": label, "cfg": {k: v for k, v in cfg.items() if k not in ("train_datas", "val_datas")}})
                for h in range(ctx.n(6, 20)):
                    if h >= 2 and ctx.left() < 0:
                        break
                    history(ctx, srv, rng, cfg, d / f"h{h}", golds, label, world)
                    ctx.count("histories")
    finally:
        srv.close()
    ctx.require("histories", 20)
    ctx.require("files_examined", 60)
    ctx.require("clean_ends", 20)
    ctx.require("interrupts", 10)
