"""P21: which checkpoint files remain after each save, and which one a restart picks."""
import hashlib
import os
import re
import shutil
from pathlib import Path

from .. import forkserver, scenario, train

EXACT = re.compile(r"state_(\d+)\.pt")


def session(cfg, rundir, steps):
    """One training process, stopped after some steps: the directory before every step and at the end."""
    seen, trace = [], []

    def plan(point, tr, data):
        if point == "after":
            seen.append(None)
        elif point == "before" and (not seen or seen[-1] is None):
            seen and seen.pop()
            seen.append((start["iteration"] + len(trace), train.listing(rundir)))
            if steps is not None and len(trace) >= steps:
                raise train.Stop
        return None

    with train.quiet(os.environ.get("VM_QUIET")):
        t = train.build(cfg, rundir, plan, trace)
        start = dict(train.snapshot(t), iteration=t.state.iteration)
        names = list(t.models)
        try:
            t.run()
        except BaseException:  # noqa: BLE001
            if not seen or seen[-1] is None or steps is None or len(trace) < steps:
                raise
    views = [v for v in seen if v is not None]
    views.append((start["iteration"] + len(trace), train.listing(rundir)))
    return dict(start=start, views=views, names=names, params={s["iteration"]: s["params"] for s in trace})


def select(directory, prefix, exts=None):
    from utils.file_utils import find_latest_ckpt
    p = find_latest_ckpt(str(directory), prefix, **({} if exts is None else {"exts": exts}))
    return None if p is None else os.path.basename(p)


def stray(rng, d, names):
    """Files a user may keep beside checkpoints; none may be touched, none may be taken for a checkpoint."""
    model = names[0]
    pool = ["notes.txt", "state_old.pt", "state_.pt", ".state_0000999.pt", "state_0000998.pt.tmp", "state_99_notes.txt",
            "state_0000002_backup.pt", "state_0000997_old.pt", f"ckpt_{model}_0000001_best.pt", f"ckpt_{model}_0000002_best.pt",
            f"ckpt_{model}_9999999_x.pt", "ckpt_best.pt", "ckpt_other_model_0000001.pt", "ckpt_other_model_0000003.pt",
            "xstate_0000100.pt", "state_0000100.pt.bak", "optimizer_0000005.pt", "metrics_0000001.json", "state-0000996.pt",
            f"ckpt_{model}_copy_0000002.pt", "state_final_0000995.txt", "state_0000994.npz"]
    out = {}
    for n in rng.sample(pool, rng.randint(2, 9)):
        (d / n).write_bytes(rng.randbytes(rng.randint(0, 200)))
    if rng.random() < 0.4:
        (d / "state_0000993.pt").mkdir(exist_ok=True)
        (d / "state_0000993.pt" / "keep").write_bytes(b"x")
    if rng.random() < 0.3:
        (d / "old").mkdir(exist_ok=True)
        (d / "old" / "state_0000990.pt").write_bytes(b"y")
    out = {n: tree(d / n) for n in os.listdir(d)}
    return out


def tree(p):
    p = Path(p)
    if p.is_dir():
        return tuple((n, tree(p / n)) for n in sorted(os.listdir(p)))
    return hashlib.sha256(p.read_bytes()).hexdigest()


def states_of(names):
    return sorted(int(m.group(1)) for n in names if (m := EXACT.fullmatch(n)))


def models_of(names, model):
    pat = re.compile(rf"ckpt_{re.escape(model)}_(\d+)\.pt")
    return sorted(int(m.group(1)) for n in names if (m := pat.fullmatch(n)))


class Expected:
    """The documented retention rule as a small state machine."""

    def __init__(self):
        self.states, self.models = set(), set()

    def begin(self, cfg):
        self.cfg, self.temp = cfg, set()

    def save(self, it, force=False):
        c = self.cfg
        ss = c.get("state_save_interval")
        due = it % c["save_interval"] == 0 or it % c["temp_save_interval"] == 0 or (ss is not None and it % ss == 0)
        if not (due or force):
            return False
        has_state = force or ss is None or it % ss == 0
        self.models.add(it)
        if it % c["save_interval"]:
            self.temp.add(it)
        if has_state:
            self.states.add(it)
        k = c["num_keep_states"]
        if k >= 0:
            self.states = set(sorted(self.states)[-k:])
        last = max(self.models)
        for t in list(self.temp):
            if t != last and t not in self.states:
                self.models.discard(t)
                self.temp.discard(t)
        return True


def sessions(ctx, srv, rng, d, kind, label):
    total = rng.randint(8, 14)
    cfg, s = train.config(rng, d, kind=kind, iterations=total, total=12, kd=False, val=False)
    run = d / "run"
    ck = run / "ckpts"
    exp = Expected()
    at, strays, params = 0, {}, {}
    nsess = rng.randint(2, 4)
    for k in range(nsess):
        steps = None if k == nsess - 1 else rng.randint(1, max(1, (total - at) // 2))
        if steps is not None and at + steps >= total:
            steps = None
        cfg = dict(cfg, save_interval=rng.choice([1, 2, 3, 100]), temp_save_interval=rng.choice([1, 1, 2, 3]),
                   num_keep_states=rng.choice([1, 1, 2, 3, -1]))
        cfg.pop("state_save_interval", None)
        if rng.random() < 0.3:
            cfg["state_save_interval"] = rng.choice([1, 2, 3])
        exp.begin(cfg)
        where = f"{label}: session {k} {({x: cfg.get(x) for x in ('iterations', 'save_interval', 'temp_save_interval', 'state_save_interval', 'num_keep_states')})}"
        o = srv.call("vm.checks.p21", "session", cfg, str(run), steps, timeout=150)
        if not o.ok:
            if strays:
                ctx.fail("retention:stray-breaks-run", f"{where}: with stray files {sorted(strays)}: {o.type}: {o.message}")
            srv.blame(o, where)
        v = o.value
        names = v["names"]
        ctx.count("sessions")
        ctx.check(v["start"]["iteration"] == at, "selection:not-newest", f"{where}: started at {v['start']['iteration']}, newest checkpoint is {at}")
        if at:
            ctx.check(v["start"]["params"] == params[at], "selection:wrong-weights", f"{where}: weights are not those of iteration {at}")
        params.update(v["params"])
        pos = at
        for i, (it, listing) in enumerate(v["views"]):
            while pos < it:
                pos += 1
                exp.save(pos)
            if i == len(v["views"]) - 1 and it == total and (total not in exp.states):
                exp.save(total, force=True)
            listing = [x for x in listing if x not in strays]
            have = states_of(listing)
            want = sorted(exp.states)
            ctx.check(have == want, "retention:states", lambda: f"{where}: after iteration {it} states {have} remain, expected {want}")
            hm, wm = models_of(listing, names[0]), sorted(exp.models)
            ctx.check(hm == wm, "retention:models", lambda: f"{where}: after iteration {it} model files {hm} remain, expected {wm}")
            ctx.count("views_checked")
            ctx.seen(tuple(have), tuple(hm), cfg["num_keep_states"], len(strays))
        for n, h in strays.items():
            ctx.check((ck / n).exists() and tree(ck / n) == h, "retention:stray-touched",
                      f"{where}: unrelated {n!r} was {'changed' if (ck / n).exists() else 'deleted'}")
            ctx.count("strays_checked")
        # what lies beside the checkpoints before the next session
        if steps is None:
            return
        at = max(exp.states, default=0)
        ck.mkdir(exist_ok=True)
        before = set(os.listdir(ck))
        if rng.random() < 0.75:
            tmp = ctx.tmp("stray")
            new = stray(rng, tmp, names)
            for n, h in new.items():
                # with no checkpoint at all, refusing to guess about such a file is as good as ignoring it
                if n not in before and not (at == 0 and n.startswith("state_") and n.endswith(".pt")):
                    (shutil.copytree if (tmp / n).is_dir() else shutil.copyfile)(tmp / n, ck / n)
                    strays[n] = h
        if rng.random() < 0.3 and exp.states:
            src = rng.choice(sorted(x for x in os.listdir(ck) if EXACT.fullmatch(x) and x not in strays))
            c = src[:-3] + "_copy.pt"
            shutil.copyfile(ck / src, ck / c)
            strays[c] = tree(ck / c)
        real = sorted(exp.states)
        if len(real) > 1 and rng.random() < 0.5:
            for it in real[rng.randint(1, len(real) - 1):]:
                for x in os.listdir(ck):
                    if (m := EXACT.fullmatch(x)) and int(m.group(1)) == it:
                        os.remove(ck / x)
                exp.states.discard(it)
            at = max(exp.states)
            if at not in exp.models:
                raise RuntimeError("state without model")
            ctx.count("newest_removed")
        if rng.random() < 0.25 and at:
            src = next(x for x in os.listdir(ck) if (m := EXACT.fullmatch(x)) and int(m.group(1)) == at)
            os.rename(ck / src, ck / f"state_{at:0{rng.choice([1, 3, 9])}d}.pt")
            ctx.count("padding_changed")
        for p in ck.iterdir():
            if not p.is_dir():
                ns = rng.randrange(10**18, 17 * 10**17)
                os.utime(p, ns=(ns, ns))
        # a later session would overwrite snapshots of iterations it repeats
        exp.models = set(models_of([x for x in os.listdir(ck) if (ck / x).is_file()], names[0]))


def directory(ctx, srv, rng, d):
    """find_latest_ckpt on generated directories."""
    prefix = rng.choice(["state_", "ckpt_m", "ckpt_m_v2"])
    sep = "" if prefix.endswith("_") else "_"
    best = {}
    for _ in range(rng.randint(0, 8)):
        it = rng.choice([rng.randint(0, 30), rng.randint(9_999_990, 10_000_020), rng.randint(0, 10**9)])
        ext = rng.choice([".pt", ".pt", ".pth", ".sft", ".safetensors"])
        n = f"{prefix}{sep}{it:0{rng.choice([1, 3, 7, 7, 7])}d}{ext}"
        (d / n).write_bytes(b"")
        best.setdefault(it, set()).add(n)
    junk = [f"{prefix}{sep}99999999999.pt.tmp", f"{prefix}{sep}99999999999.txt", f".{prefix}{sep}99999999999.pt", f"x{prefix}{sep}99999999999.pt",
            f"{prefix}{sep}99999999999_backup.pt", f"{prefix}{sep}backup.pt", f"{prefix}2{sep or '_x_'}99999999998.pt", f"{prefix}{sep}99999999997.pt.bak"]
    for n in rng.sample(junk, rng.randint(0, len(junk))):
        if best or not n.endswith(".pt") or not n.startswith(prefix):
            (d / n).write_bytes(b"")
    if rng.random() < 0.5:
        (d / f"{prefix}{sep}88888888888.pt").mkdir()
    for p in d.iterdir():
        ns = rng.randrange(10**18, 17 * 10**17)
        os.utime(p, ns=(ns, ns))
    got = select(d, prefix)
    want = best[max(best)] if best else {None}
    ctx.check(got in want, "selection:wrong-file", f"among {sorted(os.listdir(d))} with prefix {prefix!r}, {got} was selected, expected {sorted(map(str, want))}")
    ctx.count("selections")
    ctx.seen(prefix, len(best), got)


def run(ctx):
    ctx.rule = ("chains of training sessions in one run directory with changing intervals and retention settings, stray files, renamed "
                "and removed states and scrambled file times in between; the directory is listed before every step and compared "
                "with a model of the documented retention rule. Non-trivial: distinct (states, models, setting) views")
    for name, rng in ctx.cases("directory", 400, 6000, share=0.15):
        with ctx.case(name, sample=False):
            directory(ctx, None, rng, ctx.tmp())
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.checks.p21", "trainer", "model"), env={"VM_SCRATCH": str(ctx.scratch)})
    kinds = scenario.ALL_KINDS + list(train.MAPS)
    try:
        for name, rng in ctx.cases("sessions", 96, 1500):
            i = int(name.split("#")[1])
            d = ctx.tmp()
            with ctx.case(name):
                sessions(ctx, srv, rng, d, kinds[i % len(kinds)], kinds[i % len(kinds)])
            shutil.rmtree(d, ignore_errors=True)
    finally:
        srv.close()
    ctx.require("selections", 100)
    ctx.require("sessions", 40)
    ctx.require("views_checked", 200)
    ctx.require("strays_checked", 60)
    ctx.require("newest_removed", 3)
