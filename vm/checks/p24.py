"""P24: a training checkpoint is restored only into a matching run."""
import copy
import os
import shutil
from pathlib import Path

from .. import forkserver, scenario, tamper, train
from .p22 import Golden, compare, diff
from .p23 import launch


def dataset_changes(rng, cfg, s):
    kw = cfg["dataset_args"]
    comp = s.kind == "composite"
    big = [b for b in ([7, 7], [8, 8], [9, 9], [11, 11], [15, 15]) if tuple(b) not in {tuple(x) for x in kw["boardsizes"]}]
    out = [("fixed_side_input", not kw["fixed_side_input"]), ("boardsizes", [list(b) for b in kw["boardsizes"]] + [rng.choice(big)]),
           ("apply_symmetry", "rotate180" if not kw["apply_symmetry"] else False), ("fixed_board_size", 19)]
    if s.kind not in train.MAPS:
        out.append(("sample_rate", 0.5))
        if not cfg["no_shuffle"]:
            out.append(("shuffle_window_size", kw.get("shuffle_window_size", 32768) + 3))
    if s.kind in ("processed", "batched", "raw"):
        out += [("filter_stm", 1), ("filter_condition", "policy_target.sum() > 1.5")]
    if s.kind in ("processed", "batched"):
        out.append(("value_target_channels", [1, 0, 2]))
    if s.kind in ("simple", "packed"):
        out += [("sequential_read_quantum", kw.get("sequential_read_quantum", 1) + 1), ("drop_extra", not kw.get("drop_extra", False))]
        if "sequential_active_streams" in kw:
            out.append(("sequential_active_streams", kw["sequential_active_streams"] + 1))
    if s.kind == "packed":
        out += [("value_td_lambda", 0.77), ("multipv_temperature", 0.9)]
    if comp:
        d = copy.deepcopy(kw["dataset_dict"])
        k = rng.choice(sorted(d))
        d[k]["blend_ratio"] = d[k]["blend_ratio"] * 2
        out.append(("dataset_dict", d))
        if len(d) > 2:
            e = copy.deepcopy(kw["dataset_dict"])
            e.pop(k)
            out.append(("dataset_dict", e))
    return [("data:" + k, dict(dataset_args=dict(kw, **{k: v}))) for k, v in out]


def option_changes(rng, cfg, s, world):
    """(label, overrides, verdict) of settings that change the run."""
    o = [("optim_type", dict(optim_type="sgd-momentum" if cfg["optim_type"] != "sgd-momentum" else "adamw", optim_args={})),
         ("learning_rate", dict(learning_rate=cfg["learning_rate"] * rng.choice([2, 0.5, 1.0001]))),
         ("weight_decay", dict(weight_decay=cfg["weight_decay"] + 0.003)),
         ("lr_scheduler_type", dict(lr_scheduler_type="linear_warmup_with_cosine" if cfg["lr_scheduler_type"] == "x" else
                                    ("constant" if cfg["lr_scheduler_type"] != "constant" else "cosine"), lr_scheduler_args={})),
         ("iterations", dict(iterations=cfg["iterations"] + rng.choice([1, 3]))),
         ("batch_size", dict(batch_size=cfg["batch_size"] + world)),
         ("accumulation", dict(gradient_accumulation_steps=cfg["gradient_accumulation_steps"] + 1)),
         ("shuffle", dict(no_shuffle=not cfg["no_shuffle"])),
         ("width", dict(model_args=dict(cfg["model_args"], dim_feature=cfg["model_args"]["dim_feature"] * 2))),
         ("type", dict(model_type="resnetv2" if cfg["model_type"] == "resnet" else "resnet", model_args=dict(num_blocks=1, dim_feature=4),
                       data_pipelines={}))]
    if cfg["optim_type"] in ("adamw", "adamw-ams"):
        o.append(("optim_args", dict(optim_args=dict(cfg["optim_args"], betas=[0.7, 0.9]))))
    if cfg["lr_scheduler_type"] == "step":
        o.append(("lr_scheduler_args", dict(lr_scheduler_args={"step_size": 3, "step_gamma": 0.6})))
    if cfg["train_datas"]:
        o.append(("files-fewer", dict(train_datas=cfg["train_datas"][:-1])) if len(cfg["train_datas"]) > 1 else
                 ("files-replaced", dict(train_datas=["COPY"])))
        o.append(("files-more", dict(train_datas=cfg["train_datas"] + ["COPY"])))
    o += dataset_changes(rng, cfg, s)
    out = [(a, b, "refuse") for a, b in o]
    # either refused, or without any influence on what follows
    out += [("random_seed", dict(random_seed=cfg["random_seed"] + 1), "either"),
            ("num_worker", dict(num_worker=1), "either"),
            ("files-reordered", dict(train_datas=cfg["train_datas"][::-1]), "either")]
    if s.kind == "batched":
        out.append(("prefetch", dict(dataset_args=dict(cfg["dataset_args"], prefetch_batches=3, prefetch_threads=2)), "either"))
    out += [("intervals", dict(log_interval=cfg["log_interval"] + 1, show_interval=50, save_interval=cfg["save_interval"] + 1,
                               temp_save_interval=cfg["temp_save_interval"] + 1), "accept"),
            ("nothing", {}, "accept"), ("retention", dict(num_keep_states=2), "accept")]
    return out


def data_files(s):
    return sorted({str(p) for c in s.corpora for p in c.files})


class Tampered:
    """Data files with one change; contents and times are restored on exit."""

    def __init__(self, paths, timed):
        # formats read front to back are identified by path, size and time instead of their contents
        self.paths, self.timed, self.saved = paths, timed, {}

    def __enter__(self):
        for p in self.paths:
            st = os.stat(p)
            self.saved[p] = (Path(p).read_bytes(), (st.st_atime_ns, st.st_mtime_ns))
        return self

    def write(self, p, b):
        with open(p, "r+b") as f:
            f.write(b)
            f.truncate()
        t = self.saved[p][1]
        os.utime(p, ns=(t[0], t[1] + 1000000) if self.timed and b != self.saved[p][0] else t)

    def __exit__(self, *a):
        for p, (b, t) in self.saved.items():
            if Path(p).read_bytes() != b:
                self.write(p, b)
        return False


class Run:
    def __init__(self, ctx, srv, rng, cfg, s, d, golds, label, world):
        self.__dict__.update(ctx=ctx, srv=srv, rng=rng, cfg=cfg, s=s, d=d, golds=golds, label=label, world=world)

    def attempt(self, rundir, cfg, world=None):
        """(refused, outcomes): refused when every rank failed before a step and nothing on disk changed."""
        ctx, w = self.ctx, world or self.world
        before = tamper.digests(Path(rundir) / "ckpts")
        if w == 1:
            outs = [self.srv.call("vm.fault", "run", cfg, str(rundir), None, True, timeout=150)]
        else:
            o = self.srv.call("vm.train", "run_ranks", cfg, str(rundir), w, None, 0, "vm.fault:run", (True,), timeout=250)
            if not o.ok:
                self.srv.blame(o, "process group")
            outs = [forkserver.Outcome(**r) for r in o.value]
        errs = [("%s: %s" % (o.type, o.message)) if o.status == "exc" else
                (o.status if o.status != "ok" else o.value["error"]) for o in outs]
        steps = [len(o.value["trace"]) if o.ok else 0 for o in outs]
        return errs, steps, outs, before

    def judge(self, verdict, what, rundir, cfg, world=None):
        ctx = self.ctx
        errs, steps, outs, before = self.attempt(rundir, cfg, world)
        where = f"{self.label}: {what}"
        after = tamper.digests(Path(rundir) / "ckpts")
        for o in outs:
            ctx.check(o.status not in ("timeout", "died"), "restore:hangs", f"{where}: a rank ended as {o.status}")
        refused = any(e is not None for e in errs)
        ctx.count(f"{verdict}:{'refused' if refused else 'accepted'}")
        if refused:
            ctx.check(verdict != "accept", "restore:valid-refused", f"{where}: {errs}")
            ctx.check(all(e is not None for e in errs), "restore:rank-missed", f"{where}: some ranks went on: {errs}")
            ctx.check(not any(steps), "restore:late", f"{where}: refused only after steps were taken: {steps}, {errs}")
            changed = [n for n in before if after.get(n) != before[n]] + [n for n in after if n not in before]
            ctx.check(not changed, "restore:refusal-writes", f"{where}: the refused run changed {changed}")
            return errs
        ctx.check(verdict != "refuse", "restore:mismatch-accepted",
                  f"{where}: training went on from iteration {outs[0].value['start']['iteration']}")
        for r, o in enumerate(outs):
            compare(ctx, self.golds[r], o.value, where)
            dd = diff(o.value["end"], self.golds[r].out["end"], self.golds[r].state_keys)
            ctx.check(not dd, "restore:differs", f"{where}: accepted, but the final state differs in {dd}")
        return None


def one_case(ctx, srv, rng, cfg, s, d, label, world):
    golds = []
    for o in launch(srv, cfg, d / "gold", world, None):
        if not o.ok:
            srv.blame(o, f"{label}: uninterrupted run")
        golds.append(Golden(o.value, not cfg["dataset_args"].get("apply_symmetry"), len(golds)))
    stop = rng.randint(cfg["temp_save_interval"] + 1, cfg["iterations"] - 1)
    spec = dict(kind="raise-after", it=stop, micro=0, index=0)
    base = d / "base"
    for o in launch(srv, cfg, base, world, spec):
        if not o.ok:
            srv.blame(o, f"{label}: interrupted run")
    R = Run(ctx, srv, rng, cfg, s, d, golds, label, world)
    if not list((base / "ckpts").glob("state_*")):
        return
    # settings
    opts = option_changes(rng, cfg, s, world)
    rng.shuffle(opts)
    for k, (name, over, verdict) in enumerate(opts[:ctx.n(9, 40)]):
        if k >= 3 and ctx.left() < 0:
            break
        c = dict(copy.deepcopy(cfg), **copy.deepcopy(over))
        if "COPY" in c["train_datas"]:
            src = Path(cfg["train_datas"][-1])
            dst = src.with_name("vmcopy" + src.name)
            shutil.copy(src, dst)
            c["train_datas"] = [str(dst) if p == "COPY" else p for p in c["train_datas"]]
        w = d / f"opt{k}"
        shutil.copytree(base, w)
        err = R.judge(verdict, f"resumed with another {name} ({over})"[:400], w, c)
        ctx.count("option_changes")
        ctx.seen("option", name, err is not None, s.kind, cfg["optim_type"])
        if err and verdict == "refuse" and rng.random() < 0.5:
            # the mistake is the mismatch, not the setting
            fresh = [o for o in launch(srv, dict(c, iterations=1), d / f"fresh{k}", world, None)]
            ctx.count("fresh_ok" if all(o.ok for o in fresh) else "fresh_refused")
            if all(o.ok for o in fresh):
                ctx.seen("proper", name)
            shutil.rmtree(d / f"fresh{k}", ignore_errors=True)
        shutil.rmtree(w)
    # world size
    if rng.random() < 0.3 and s.kind not in ("simple", "packed", "composite"):
        other = 3 - world
        c = dict(copy.deepcopy(cfg), batch_size=cfg["batch_size"] * (2 if world == 1 else 1))
        w = d / "world"
        shutil.copytree(base, w)
        R.judge("refuse", f"resumed by {other} ranks", w, c, other)
        ctx.count("world_changes")
        shutil.rmtree(w)
    # data files
    paths = data_files(s)
    with Tampered(paths, bool({p for p in paths if not p.endswith(".npz")})) as t:
        for k in range(ctx.n(2, 6)):
            if k >= 1 and ctx.left() < 0:
                break
            p = rng.choice(paths)
            b = t.saved[p][0]
            others = [q for q in paths if t.saved[q][0] != b and Path(q).suffix == Path(p).suffix]
            how = rng.choice(["flip", "flip", "swap" if others else "flip", "truncate"])
            if how == "swap":
                q = rng.choice(others)
                t.write(p, t.saved[q][0])
                t.write(q, b)
            elif how == "flip":
                i = rng.randrange(len(b))
                t.write(p, b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:])
            else:
                t.write(p, b[:rng.randrange(len(b))])
            w = d / f"data{k}"
            shutil.copytree(base, w)
            err = R.judge("refuse", f"resumed after a {how} of {Path(p).name}", w, cfg)
            ctx.count("data_changes")
            ctx.seen("data", how, err is not None, s.kind)
            shutil.rmtree(w)
            t.__exit__()
    # checkpoint files
    for k in range(ctx.n(7, 30)):
        if k >= 3 and ctx.left() < 0:
            break
        w = d / f"file{k}"
        shutil.copytree(base, w)
        pool = tamper.kinds(w, world)
        kind = rng.choice([x for x in pool if x.startswith("sidecar")] if rng.random() < 0.4 and any(x.startswith("sidecar") for x in pool) else pool)
        done = srv.value("vm.tamper", "apply", str(w), kind, rng.random(), what=f"{label}: {kind}")
        if done:
            R.judge("refuse", f"resumed after {done}", w, cfg)
            ctx.count("file_changes")
            ctx.seen("file", kind, done.split(" ")[1] if " " in done else "", s.kind, world)
        shutil.rmtree(w)
    errs, steps, outs, _ = R.attempt(base, cfg)
    for r, o in enumerate(outs):
        ctx.check(o.ok and o.value["error"] is None, "restore:valid-refused", f"{label}: the unchanged run does not resume: {errs}")
        compare(ctx, golds[r], o.value, label)


def run(ctx):
    ctx.rule = ("training runs stopped at a checkpoint and resumed with one setting, data file, number of ranks or checkpoint file "
                "changed: the restart must fail on every rank before a step and leave the directory alone, or, where the "
                "change may be harmless, continue exactly like the uninterrupted run. Non-trivial: distinct (change, outcome, data format)")
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.fault", "vm.tamper", "trainer", "model"), env={"VM_SCRATCH": str(ctx.scratch)})
    kinds = scenario.ALL_KINDS + list(train.MAPS)
    try:
        for name, rng in ctx.cases("mismatch", 28, 600):
            with ctx.case(name, sample=False):
                d = ctx.tmp()
                n = int(name.split("#")[1])
                world = 2 if n % 8 == 4 else 1
                model = ["flat-vq", "mix-vq"][n // 8 % 2] if n % 8 == 0 else None
                cfg, s = train.config(rng, d, kind=kinds[n % len(kinds)], model=model, world=world, iterations=rng.randint(4, 7), total=16)
                cfg.update(save_interval=rng.choice([1, 2, 3]), temp_save_interval=rng.choice([1, 1, 2]), num_keep_states=rng.choice([1, 2, -1]))
                label = f"{s.kind}/{cfg['model_type']}/{cfg['optim_type']}/w{world}"
                ctx.sample({"case": label, "cfg": {k: v for k, v in cfg.items() if k not in ("train_datas", "val_datas")}})
                one_case(ctx, srv, rng, cfg, s, d, label, world)
    finally:
        srv.close()
    ctx.require("option_changes", 30)
    ctx.require("data_changes", 8)
    ctx.require("file_changes", 20)
    ctx.require("fresh_ok", 3)
