"""P22: interrupted and resumed training follows the uninterrupted trace exactly."""
import json
import random
import signal

from .. import forkserver, scenario, train


def diff(a, b, keys):
    return [k for k in keys if a[k] != b[k]]


class Golden:
    def __init__(self, out, exact_vals, rank=0):
        self.exact_vals = exact_vals
        self.out = out
        self.by = {s["iteration"]: s for s in out["trace"]}
        self.vals = {}
        for it, dg in out["vals"]:
            self.vals.setdefault(it, []).append(dg)

        # normalisation statistics are kept by rank 0 only
        self.model = "params" if rank == 0 else "weights"
        self.state_keys = (self.model, "optim", "sched", "lr", "rows")

    def state(self, it):
        return self.out["start"] if it == 0 else self.by[it]


def compare(ctx, gold, seg, where):
    """One segment of an interrupted run against the golden trace."""
    it = seg["start"]["iteration"]
    g = gold.state(it)
    keys = [k for k in gold.state_keys if it or k != "optim"]
    bad = diff(seg["start"], g, keys)
    ctx.check(not bad, "resume:state-differs", lambda: f"{where}: state restored at iteration {it} differs in {bad} "
              f"(lr {seg['start']['lr']} expected {g['lr']}, rows {seg['start']['rows']} expected {g['rows']})")
    for s in seg["trace"]:
        it += 1
        ctx.check(s["iteration"] == it, "resume:iteration-skipped", f"{where}: step {s['iteration']} follows {it - 1}")
        g = gold.by[it]
        bad = diff(s, g, gold.state_keys + ("batches",))
        ctx.count("steps_compared")
        ctx.check(not bad, "resume:trace-differs",
                  lambda: f"{where}: after iteration {it} these differ from the uninterrupted run: {bad}; lr {s['lr']} expected {g['lr']}")
        ctx.seen(s["params"], s["optim"])
    per = {}
    for i, dg in seg["vals"]:
        per.setdefault(i, []).append(dg)
    done = {s["iteration"] for s in seg["trace"][:-1]}
    for i in per:
        if i in done or not seg["error"]:
            # augmented validation data depends on how many validation epochs this process ran
            same = per[i] == gold.vals.get(i) if gold.exact_vals else len(per[i]) == len(gold.vals.get(i, ()))
            ctx.check(same, "resume:validation-differs",
                      f"{where}: validation at iteration {i} saw {len(per[i])} batches, expected {len(gold.vals.get(i, []))} or different contents")
            ctx.count("validations_compared")
    return it


def fault(rng, total):
    it = rng.randrange(total)
    where = rng.choice(["before", "forward", "after", "after", "validate"])
    if where in ("after", "validate"):
        it += 1
    return (rng.choice(["raise", "kill", "kill", "sigint"]), where, it, rng.choice([0, 0, 1]) if where in ("before", "forward") else 0)


def launch(srv, cfg, d, world, f=None, kill=None, victim=0):
    """Outcomes per rank of one training process group."""
    if world == 1:
        return [srv.call("vm.train", "run", cfg, str(d), f, timeout=150, kill=kill)]
    o = srv.call("vm.train", "run_ranks", cfg, str(d), world, f, victim, timeout=200)
    if not o.ok:
        srv.blame(o, "process group")
    return [forkserver.Outcome(**r) for r in o.value]


def history(ctx, srv, rng, cfg, d, golds, label, world):
    total = cfg["iterations"]
    pos, k = 0, 0
    segs = rng.randint(1, 4)
    while True:
        f = fault(rng, total) if k < segs else None
        victim = rng.randrange(world)
        where = f"{label}, start {k} with fault {f} on rank {victim} of {world}"
        kill = None
        if f and world == 1 and rng.random() < 0.2:
            kill, f = (rng.choice([signal.SIGKILL, signal.SIGINT]), rng.uniform(0.05, 0.5)), None
            where = f"{label}, start {k} with signal {kill}"
        outs = launch(srv, cfg, d, world, f, kill, victim)
        ctx.count("starts")
        clean = True
        for r, o in enumerate(outs):
            if o.ok:
                seg = o.value
                if k and seg["start"]["iteration"]:
                    ctx.count("resumes")
                if seg["error"]:
                    ctx.count("faults:" + f[0])
                    ctx.count("fault_at:" + f[1])
                    clean = False
                compare(ctx, golds[r], seg, where)
                ctx.check(seg["start"]["iteration"] >= pos, "resume:position-lost",
                          f"{where}: started at {seg['start']['iteration']} although iteration {pos} was saved")
                # nothing reported a failure: the run must have reached its end
                if not seg["error"]:
                    ctx.check(seg["end"]["iteration"] == total, "resume:ended-early", f"{where}: ended at {seg['end']['iteration']} of {total}")
                    bad = diff(seg["end"], golds[r].out["end"], golds[r].state_keys)
                    ctx.check(not bad, "resume:end-differs", f"{where}: final state differs in {bad}")
                    ctx.count("ends_compared")
                continue
            clean = False
            if o.status == "died" and (kill or (f and f[0] == "kill" and r == victim)):
                ctx.count("killed")
            elif kill and kill[0] == signal.SIGINT and o.status in ("exc", "died"):
                ctx.count("interrupted")
            elif f and r != victim and o.status in ("exc", "died"):
                ctx.count("peers_stopped")
            else:
                srv.blame(o, where)
        if clean and f is None and kill is None:
            return
        on_disk = states(d)
        if on_disk:
            pos = max(on_disk)
        k += 1


def states(d):
    return [int(n[6:-3]) for n in train.listing(d) if n.startswith("state_") and n.endswith(".pt") and n[6:-3].isdigit()]


INERT = {"log_interval": [1, 2, 5], "show_interval": [1, 3, 50], "save_interval": [1, 3, 1000], "temp_save_interval": [1, 2, 1000],
         "num_keep_states": [1, 2, -1]}


def inert(ctx, srv, rng, cfg, d, golds, label, world):
    """Logging, saving and retention settings do not influence training."""
    c = dict(cfg)
    for k, v in INERT.items():
        c[k] = rng.choice(v)
    for gold, o in zip(golds, launch(srv, c, d, world)):
        if not o.ok:
            srv.blame(o, label)
        seg = o.value
        compare(ctx, gold, seg, f"{label}: run with other intervals {[c[k] for k in INERT]}")
        ctx.check(not diff(seg["end"], gold.out["end"], gold.state_keys), "inert:end-differs",
                  f"{label}: final state depends on logging or saving intervals")
    ctx.count("inert_runs")


def fast_server(ctx):
    return forkserver.Server(ctx, imports=("vm.train", "trainer", "model"), env={"VM_SCRATCH": str(ctx.scratch)})


def run(ctx):
    srv = fast_server(ctx)
    kinds = scenario.ALL_KINDS + list(train.MAPS)
    try:
        for name, rng in ctx.cases("resume", 14, 400):
            with ctx.case(name, sample=False):
                d = ctx.tmp()
                n = int(name.split("#")[1])
                model, world = None, 1
                if n % 8 == 0:       # k-means kernels compile once; in the quick tier in one shard only
                    model = ["flat-vq", "mix-vq"][n // 8 % 2]
                    world = 2 if n % 5 == 3 else 1
                elif n % 5 == 1:
                    model = rng.choice(list(train.CLIPPED))
                if n % 4 == 2:
                    world = 2
                cfg, s = train.config(rng, d, kind=kinds[n % len(kinds)] if rng.random() < 0.8 else None, model=model, world=world,
                                      optim=train.OPTIMS[n % len(train.OPTIMS)] if rng.random() < 0.7 else None)
                label = f"{s.kind}/{cfg['model_type']}/{cfg['optim_type']}/acc{cfg['gradient_accumulation_steps']}"
                if n % 3 == 0:
                    cfg["temp_save_interval"] = 1
                golds = []
                for o in launch(srv, cfg, d / "gold", world):
                    if not o.ok:
                        srv.blame(o, f"{label}: uninterrupted run")
                    g = Golden(o.value, not cfg["dataset_args"].get("apply_symmetry"), len(golds))
                    golds.append(g)
                    ctx.count("golden_steps", len(g.by))
                    ctx.check(g.out["end"]["iteration"] == cfg["iterations"] == len(g.by), "resume:ended-early",
                              f"{label}: {g.out['end']['iteration']} of {cfg['iterations']} iterations")
                    ctx.check(all(g.by[k]["weights"] == golds[0].by[k]["weights"] for k in g.by), "ranks:parameters-diverge",
                              f"{label}: ranks hold different parameters")
                ctx.count("kind:" + s.kind)
                ctx.count("optim:" + cfg["optim_type"])
                ctx.count("model:" + cfg["model_type"])
                ctx.count(f"world:{world}")
                ctx.sample({"case": label, "cfg": {k: v for k, v in cfg.items() if k not in ("train_datas", "val_datas")}})
                for h in range(ctx.n(2, 4)):
                    history(ctx, srv, rng, cfg, d / f"h{h}", golds, label, world)
                if n % 2 == 0:
                    inert(ctx, srv, rng, cfg, d / "inert", golds, label, world)
    finally:
        srv.close()
    ctx.require("resumes", 10)
    ctx.require("steps_compared", 100)
    ctx.require("ends_compared", 8)
    ctx.require("killed", 2)
    ctx.require("inert_runs", 2)
