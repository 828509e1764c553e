"""Random training configurations and traced trainer runs (executed in forked children)."""
import contextlib
import hashlib
import io
import os
import random
import signal
from pathlib import Path

from . import digest, scenario

MAPS = ("map_processed", "map_raw")
MODELS = {
    "resnet": ("resnet", dict(num_blocks=1, dim_feature=4)),
    "resnetv2": ("resnetv2", dict(num_blocks=1, dim_feature=4)),
    "resnet-nodraw": ("resnet", dict(num_blocks=1, dim_feature=4, head_type="v0-nodraw")),
}
VQ = {
    "flat-vq": ("flat_square7x7_nnue_v4_vq", dict(dim_middle=8, dim_feature=4)),
    "mix-vq": ("mix9svq", dict(dim_middle=16, dim_feature=4, dim_policy=4, dim_value=8, dim_dwconv=4)),
}
CLIPPED = {
    "mix9s": ("mix9s", dict(dim_middle=16, dim_feature=8, dim_policy=4, dim_value=8, dim_dwconv=4)),
    "mix6": ("mix6", dict(dim_middle=8, dim_policy=4, dim_value=4)),
}
PIPELINES = {"line_encoding": dict(line_length=11, raw_code=True)}
OPTIMS = [
    ("adamw", {}), ("adamw", {"betas": [0.8, 0.95], "eps": 1e-6}), ("adamw-ams", {}), ("sgd", {}),
    ("sgd-momentum", {}), ("sgd-nesterov", {}), ("muon-adamw", {}), ("muon-adamw", {"muon_args": {"momentum": 0.9}}),
]
SCHEDS = [("constant", {}), ("step", {"step_size": 3, "step_gamma": 0.7}), ("cosine", {"eta_min": 1e-5}), ("cosine", {})]


def config(rng, d, *, kind=None, model=None, iterations=None, optim=None, shuffle=None, val=None, accum=None, kd=None,
           total=None, world=1, **over):
    """Keyword arguments of SupervisedTrainer over a generated data set (plus its scenario)."""
    kind = kind or rng.choice(scenario.ALL_KINDS + list(MAPS))
    shuffle = rng.random() < 0.75 if shuffle is None else shuffle
    d = Path(d)
    nosym = dict(symmetry=rng.choice([False, True]))
    mk = dict(total=total or rng.randint(10, 40), shuffle=shuffle, sizes=[(9, 9)] if rng.random() < 0.6 else None,
              lz4=False, **nosym)
    if kind == "composite":
        s = scenario.make(rng, d, "composite", total=mk["total"], shuffle=shuffle, sizes=mk["sizes"], lz4=False, nfiles=world if world > 1 else None,
                          symmetry=nosym["symmetry"], has_pass=False)
    else:
        if world > 1 and kind in ("simple", "packed"):
            mk["nfiles"] = rng.randint(world, 5)
        s = scenario.make(rng, d, kind, options=False, has_pass=False, fixed_board=False, **mk)
    kw = dict(s.kw)
    kw.pop("shuffle", None)
    if not s.resumable or scenario.batch_for(random.Random(0), s, world) is None:
        return config(rng, d, kind=kind, model=model, iterations=iterations, optim=optim, shuffle=shuffle, val=val,
                      accum=accum, kd=kd, total=total, world=world, **over)
    b = scenario.batch_for(rng, s, world, cap=6)
    if model in VQ and b < 2 * world:       # batch normalisation needs two values
        return config(rng, d, kind=kind, model=model, iterations=iterations, optim=optim, shuffle=shuffle, val=val,
                      accum=accum, kd=kd, total=total, world=world, **over)
    if world > 1 and kind in ("simple", "packed", "composite"):
        kw["steps_per_epoch"] = rng.randint(1, 4)
    opt, oargs = optim or rng.choice(OPTIMS)
    sch, sargs = rng.choice(SCHEDS)
    if model in VQ or model in CLIPPED:
        name, model = model, (VQ.get(model) or CLIPPED[model])
        model = (model[0], dict(model[1]))
        if name in VQ:
            # sometimes initialised at once, sometimes after several steps
            model[1].update(codebook_size=rng.choice([4, 40, 400 if name == "mix-vq" else 900]),
                            kmeans_sample_multiplier=rng.choice([1, 2]), ema_decay=rng.choice([0.5, 0.9]),
                            threshold_ema_dead_code=rng.choice([5e-3, 0.3]))
        if name == "mix-vq":
            over.setdefault("data_pipelines", dict(PIPELINES))
    mt, margs = MODELS[model or rng.choice(list(MODELS))] if not isinstance(model, tuple) else model
    it = iterations or rng.randint(5, 11)
    cfg = dict(
        use_cpu=True, performance_level=0, random_seed=rng.randrange(1 << 20), iterations=it, batch_size=b,
        gradient_accumulation_steps=accum or rng.choice([1, 1, 2, 3]),
        dataset_type=s.type, train_datas=[str(p) for p in s.paths], dataset_args=kw, num_worker=0, no_shuffle=not shuffle,
        model_type=mt, model_args=dict(margs), optim_type=opt, optim_args=dict(oargs),
        learning_rate=rng.choice([1e-3, 1e-2]), weight_decay=rng.choice([0.0, 1e-2, 0.1]),
        lr_scheduler_type=sch, lr_scheduler_args=dict(sargs),
        clip_grad_norm=rng.choice([None, None, 0.5, 10.0]), clip_grad_value=rng.choice([None, None, 0.01]),
        loss_type=rng.choice(["KL+KL", "CE+CE", "MSE+KL", "KL+MSE"]),
        log_interval=rng.choice([1, 2, 3, 100]), show_interval=100, save_interval=rng.choice([2, 3, 4, 100]),
        temp_save_interval=rng.choice([1, 2, 3]), val_interval=rng.choice([2, 3, 5, 1000]),
        num_keep_states=rng.choice([1, 1, 2, 3, -1]),
    )
    if kind not in MAPS and (len({tuple(x) for x in s.desc["sizes"]}) > 1 or rng.random() < 0.3):
        cfg["dataloader_args"] = {"batch_by_boardsize": True}
    if val if val is not None else (kind not in ("composite",) and rng.random() < 0.4 and not (world > 1 and kind in ("simple", "packed"))):
        cfg["val_datas"] = list(cfg["train_datas"])
        if kind in MAPS or rng.random() < 0.5:
            cfg["eval_bs_multipler"] = rng.choice([1, 2])
    if kd or (kd is None and rng.random() < 0.2 and not isinstance(model, tuple)):
        cfg.update(kd_model_type="resnetv2", kd_model_args=dict(num_blocks=1, dim_feature=4), kd_checkpoint=str(d / "teacher.pt"),
                   kd_T=rng.choice([1.0, 2.0]), kd_alpha=rng.choice([0.3, 1.0]), kd_use_train_mode=rng.random() < 0.3)
    cfg.update(over)
    return cfg, s


def _params(trainer):
    return {n: trainer._unwrap(m).state_dict() for n, m in trainer.models.items()}


def snapshot(trainer):
    """Everything a later step depends on, as digests."""
    return dict(
        params=digest.of(_params(trainer)),
        weights=digest.of({n: dict(trainer._unwrap(m).named_parameters()) for n, m in trainer.models.items()}),
        optim=digest.of({k: o.state_dict() for k, o in trainer.optimizers.items()}),
        sched=digest.of({k: {a: b for a, b in s.state_dict().items() if not a.startswith("_get_lr")} for k, s in trainer.schedulers.items()}),
        lr={k: [g["lr"] for g in o.param_groups] for k, o in trainer.optimizers.items()},
        rows=trainer.state.rows)


class Stop(Exception):
    pass


def make_traced(base=None):
    from trainer import SupervisedTrainer

    class Traced(base or SupervisedTrainer):
        vm_trace = None
        vm_plan = None      # callable(point, trainer, data) hooking faults in

        def vm_at(self, point, data=None):
            if self.vm_plan is not None:
                return self.vm_plan(point, self, data)

        def on_before_step(self, data):
            self.vm_at("before", data)
            self.vm_batches = getattr(self, "vm_batches", []) + [digest.of(dict(data))]
            return super().on_before_step(data)

        def train_step(self, data, **kw):
            # a rank that fails before its own collective forward strands its peers in
            # the buffer broadcast (bounded by the group's timeout): not exercised
            alone = self.accelerator.num_processes == 1
            alt = self.vm_at("forward", data) if alone else None
            out = super().train_step(data, **kw)
            if not alone:
                alt = self.vm_at("forward", data)
            return alt(*out) if callable(alt) else out

        def on_after_step(self, data):
            super().on_after_step(data)
            t = self.vm_trace
            if t is not None:
                s = snapshot(self)
                s["iteration"] = self.state.iteration
                s["batches"] = self.vm_batches
                t.append(s)
            self.vm_batches = []
            self.vm_at("after", data)

        def validate_step(self, data, **kw):
            if self.vm_trace is not None:
                self.vm_vals = getattr(self, "vm_vals", []) + [(self.state.iteration, digest.of({k: v for k, v in data.items()}))]
            out = super().validate_step(data, **kw)
            self.vm_at("validate", data)
            return out

    return Traced


@contextlib.contextmanager
def quiet(path=None):
    with open(path or os.devnull, "a") as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        yield


def build(cfg, rundir, plan=None, trace=None, base=None):
    os.makedirs(rundir, exist_ok=True)
    cls = make_traced(base)
    kd = cfg.get("kd_checkpoint")
    if kd and not os.path.exists(kd):
        import torch
        from model import build_model
        with torch.random.fork_rng():
            torch.manual_seed(17)
            m = build_model(cfg["kd_model_type"], **cfg["kd_model_args"])
            tmp = f"{kd}.{os.getpid()}"
            torch.save({"model": m.state_dict()}, tmp)
            os.replace(tmp, kd)
    cls.vm_plan = staticmethod(plan) if plan else None
    cls.vm_trace = trace
    return cls(rundir=str(rundir), **cfg)


def run(cfg, rundir, fault=None):
    """One training process: build, run to the end or to the planned fault.

    fault: None | ("raise"|"kill"|"sigint", point, iteration, micro)"""
    trace = []
    state = {"n": 0}

    def plan(point, tr, data):
        if fault is None:
            return None
        how, where, it, skip = fault
        if point != where or tr.state.iteration != it:
            return None
        state["n"] += 1
        if state["n"] <= skip:
            return None
        if how == "raise":
            raise Stop("planned stop")
        if how == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        if how == "sigint":
            raise KeyboardInterrupt
        return None

    with quiet(os.environ.get("VM_QUIET")):
        t = build(cfg, rundir, plan, trace)
        start = dict(snapshot(t), iteration=t.state.iteration, epoch=t.state.epoch)
        err = None
        try:
            t.run()
        except BaseException as e:  # noqa: BLE001
            if fault is None:
                raise
            err = f"{type(e).__name__}: {e}"
        end = dict(snapshot(t), iteration=t.state.iteration, epoch=t.state.epoch)
    return dict(start=start, trace=trace, end=end, error=err, vals=getattr(t, "vm_vals", []))


def run_ranks(cfg, rundir, world, fault=None, victim=0, target="run", extra=()):
    """The same run on several gloo ranks; the fault hits one of them."""
    import socket
    from .forkserver import _child, _recv
    with socket.socket() as k:
        k.bind(("127.0.0.1", 0))
        port = k.getsockname()[1]
    pids, fds = [], []
    for r in range(world):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.environ.update(RANK=str(r), LOCAL_RANK=str(r), WORLD_SIZE=str(world), LOCAL_WORLD_SIZE=str(world),
                              MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), GLOO_SOCKET_IFNAME="lo", OMP_NUM_THREADS="1")
            _child(*(target.split(":") if ":" in target else ("vm.train", target)), (cfg, rundir, fault if r == victim else None, *extra), wfd)
        os.close(wfd)
        pids.append(pid)
        fds.append(rfd)
    out = []
    for rfd, pid in zip(fds, pids):
        try:
            o = _recv(rfd)
        except EOFError:
            o = dict(status="died")
        os.close(rfd)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if o["status"] == "died":
            o["wait"] = st
        out.append(o)
    return out


def listing(rundir):
    d = Path(rundir) / "ckpts"
    return sorted(p.name for p in d.iterdir()) if d.is_dir() else []


def load_all(rundir):
    """{name: digest} of every file that looks like a finished checkpoint."""
    import torch
    out = {}
    for n in listing(rundir):
        if n.endswith(".pt") and not n.startswith("."):
            o = torch.load(Path(rundir) / "ckpts" / n, map_location="cpu", weights_only=True)
            out[n] = digest.of(o["model"]) if n.startswith("ckpt_") else "state"
    return out
