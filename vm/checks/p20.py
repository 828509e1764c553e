"""P20: a crash or I/O failure at any file operation of a save leaves a complete checkpoint."""
import errno

from .. import crash, forkserver, scenario, train
from .p22 import Golden, compare, diff, states

WEIGHT = {"rename": 12, "link": 12, "unlink": 10, "open": 6, "mkdir": 4, "fsync": 8, "truncate": 6}


WRITES = ("write", "writev", "pwrite")


def pick_op(rng, log, writes):
    """A file operation of the dry run, favouring the ones that publish or delete files."""
    ops = list(range(len(log)))
    w = [WEIGHT.get(op, 1) if not writes else int(op in WRITES) for op, _ in log]
    # the last write to a file before it is published is where a short file would appear
    for i in range(1, len(log)):
        if log[i][0] in ("rename", "link") and log[i - 1][0] in WRITES:
            w[i - 1] = 12 if not writes else 4
    return rng.choices(ops, w)[0]


def arm(rng, log):
    mode = rng.choice(["kill-before", "kill-after", "kill-partial", "kill-before", "kill-after", "kill-partial", "fail", "fail", "short"])
    k = pick_op(rng, log, mode in ("kill-partial", "short") and any(op in WRITES for op, _ in log))
    return mode, k, rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]), int(mode == "fail" and rng.random() < 0.5)


def launch(srv, cfg, d, world, a, progress, victim=0):
    if world == 1:
        return [srv.call("vm.crash", "run", cfg, str(d), a, str(progress), timeout=150)]
    o = srv.call("vm.crash", "run_ranks", cfg, str(d), world, a, str(progress), victim, timeout=200)
    if not o.ok:
        srv.blame(o, "process group")
    return [forkserver.Outcome(**r) for r in o.value]


def progressed(path):
    try:
        return [int(x) for x in open(path).read().split()]
    except OSError:
        return []


def examine(ctx, srv, d, golds, saves, safe, where):
    """The directory between death and restart; returns complete state iterations."""
    files = srv.value("vm.crash", "inspect", str(d), what=where)
    for n, (kind, it, dg, err) in files.items():
        ctx.check(err is None, "crash:partial-file", f"{where}: {n} has its final name but cannot be loaded: {err}")
        if kind == "model":
            name = n[len("ckpt_"):].rsplit("_", 1)[0]
            want = golds[0].by[it]["files"].get(name)
            ctx.check(want is not None and dg == want, "crash:wrong-content", f"{where}: {n} does not hold the weights of iteration {it}")
        ctx.count("files_examined")
    have = sorted(it for kind, it, _, _ in files.values() if kind == "state")
    for it in have:
        ctx.check(it in saves, "crash:unexpected-state", f"{where}: a state for iteration {it}, which is not a save point")
        models = {n[len("ckpt_"):].rsplit("_", 1)[0] for n, f in files.items() if f[0] == "model" and f[1] == it}
        ctx.check(models == set(golds[0].by[it]["files"]), "crash:incomplete-set",
                  f"{where}: state {it} is present with model files {sorted(models)}")
    ctx.check(not safe or (have and have[-1] >= safe), "crash:checkpoint-lost",
              f"{where}: the checkpoint of iteration {safe} was complete, but the directory now holds states {have}")
    return have


def history(ctx, srv, rng, cfg, d, golds, saves, log, label, world):
    """A chain of faulty processes, then a clean one; everything compared with the golden run."""
    d.mkdir(parents=True, exist_ok=True)
    safe, k, sched = 0, 0, []
    n = rng.choice([1, 1, 2, 3])
    while True:
        a = arm(rng, log) if k < n else None
        victim = 0 if rng.random() < 0.75 else rng.randrange(world)
        sched.append((a, victim))
        where = f"{label}, process {k} of schedule {sched}"
        progress = d / f"progress{k}"
        outs = launch(srv, cfg, d / "run", world, a, progress, victim)
        ctx.count("processes")
        clean = True
        for r, o in enumerate(outs):
            if o.ok:
                seg = o.value
                compare(ctx, golds[r], seg, where)
                at = seg["start"]["iteration"]
                if k:
                    ctx.count("restarts")
                    ctx.check(at >= safe, "crash:position-lost", f"{where}: restarted at iteration {at} although {safe} was complete")
                if seg["error"]:
                    clean = False
                    ctx.check(a is not None, "crash:restart-fails", f"{where}: {seg['error']}")
                    ctx.count("failures_reported")
                    ctx.check(seg["fired"] or world > 1, "crash:restart-fails", f"{where}: failed before the planned fault: {seg['error']}")
                else:
                    ctx.check(seg["end"]["iteration"] == cfg["iterations"], "crash:ended-early", f"{where}: ended at {seg['end']['iteration']}")
                    bad = diff(seg["end"], golds[r].out["end"], golds[r].state_keys)
                    ctx.check(not bad, "crash:end-differs", f"{where}: final state differs in {bad}")
                    if seg["fired"]:
                        ctx.count("faults_absorbed")
                if seg["fired"]:
                    ctx.count("fired:" + a[0])
                    ctx.count("at:" + seg["log"][a[1]][0])
                    ctx.seen(a[0], seg["log"][a[1]][0], seg["log"][a[1]][1][:5], at)
            else:
                clean = False
                if o.status == "died" and a and a[0].startswith("kill") and (r == victim):
                    ctx.count("killed")
                    ctx.count("fired:" + a[0])
                    ctx.seen(a[0], a[1], at_log(log, a[1]))
                elif a and r != victim and o.status in ("exc", "died"):
                    ctx.count("peers_stopped")
                elif a and k and o.status == "exc" and a[0] == "fail":
                    srv.blame(o, where)
                else:
                    srv.blame(o, where)
        # a save is complete once the following step has begun
        seen = progressed(progress)
        done = [s for s in saves if seen and s <= max(seen)]
        safe = max([safe] + done)
        if clean:
            safe = max(saves)
        have = examine(ctx, srv, d / "run", golds, saves, safe, where)
        if clean and a is None:
            keep = cfg["num_keep_states"] if outs[0].value["trace"] else -1     # a run with nothing left to do prunes nothing
            ctx.check(have[-1] == cfg["iterations"], "crash:final-missing", f"{where}: states {have} after a completed run")
            ctx.check(keep < 0 or len(have) <= max(keep, 1), "crash:retention", f"{where}: {len(have)} states kept, limit {keep}")
            ctx.count("histories")
            return
        if have:
            safe = have[-1]
        k += 1


def at_log(log, k):
    return log[k][0], log[k][1][:5]


def run(ctx):
    ctx.rule = ("random training configurations whose every file mutation below ckpts/ is counted by a preloaded shim; a process "
                "is killed before, after or half-way through a chosen mutation, or the call fails with ENOSPC/EIO/EDQUOT "
                "once or from then on, or writes short; then the directory is examined, training restarted, "
                "possibly faulted again, and finished. Non-trivial: distinct (fault kind, operation, file kind, position)")
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.crash", "trainer", "model"), preload=crash.shim(),
                            env={"VM_SCRATCH": str(ctx.scratch)})
    kinds = scenario.ALL_KINDS + list(train.MAPS)
    try:
        for name, rng in ctx.cases("crash", 24, 600):
            with ctx.case(name, sample=False):
                d = ctx.tmp()
                n = int(name.split("#")[1])
                model, world = None, 1
                if n % 8 == 0:
                    model = ["flat-vq", "mix-vq"][n // 8 % 2]
                elif n % 8 == 4:
                    world = 2
                cfg, s = train.config(rng, d, kind=kinds[n % len(kinds)], model=model, world=world, iterations=rng.randint(3, 6), total=12)
                cfg.update(save_interval=rng.choice([1, 2, 3, 100]), temp_save_interval=rng.choice([1, 2, 3]),
                           num_keep_states=rng.choice([1, 1, 2, 3, -1]))
                if rng.random() < 0.25:
                    cfg["state_save_interval"] = rng.choice([1, 2, 3])
                label = f"{s.kind}/{cfg['model_type']}/w{world}/keep{cfg['num_keep_states']}"
                golds, log = [], []
                for o in launch(srv, cfg, d / "gold", world, None, d / "goldprogress"):
                    if not o.ok:
                        srv.blame(o, f"{label}: uninterrupted run")
                    golds.append(Golden(o.value, not cfg["dataset_args"].get("apply_symmetry"), len(golds)))
                    log = log or o.value["log"]
                ctx.check(len(log) > 0, "harness:no-operations", "the shim saw no file operation")
                ctx.count("operations_observed", len(log))
                # save points: what a run that keeps every state leaves behind
                c2 = dict(cfg, num_keep_states=-1)
                for o in launch(srv, c2, d / "all", world, None, d / "allprogress"):
                    if not o.ok:
                        srv.blame(o, f"{label}: run keeping everything")
                saves = states(d / "all")
                ctx.check(bool(saves) and max(saves) == cfg["iterations"], "crash:final-missing", f"{label}: states {saves} after a completed run")
                ctx.sample({"case": label, "operations": len(log), "saves": saves})
                for h in range(ctx.n(6, 16)):
                    if h >= 2 and ctx.left() < 0:
                        break
                    history(ctx, srv, rng, cfg, d / f"h{h}", golds, saves, log, label, world)
    finally:
        srv.close()
    ctx.require("histories", 20)
    ctx.require("killed", 10)
    ctx.require("failures_reported", 5)
    ctx.require("files_examined", 60)
