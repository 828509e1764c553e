"""Training runs with planned step failures and interrupts (executed in forked children)."""
import os
import sys

from . import boot, digest, train


def _nan_grad(torch, bad):
    class Poison(torch.autograd.Function):
        @staticmethod
        def forward(ctx, x):
            return x.clone()

        @staticmethod
        def backward(ctx, g):
            return g * bad
    return Poison


class Lines:
    """Raises KeyboardInterrupt at the n-th executed line of the trainer after arming."""

    def __init__(self, files, n, within=None):
        self.files, self.n, self.within, self.armed, self.where = files, n, within, False, None

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files or (self.within and frame.f_code.co_name != self.within):
            return None
        return self.local

    def local(self, frame, event, arg):
        if self.armed and event == "line":
            self.n -= 1
            if self.n < 0 and self.where is None:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                self.armed = False
                raise KeyboardInterrupt("planned interrupt")
        return self.local


def poison(kind, tr, out, rng_index):
    """The outcome of a failing forward pass in place of the real one."""
    import torch
    loss, ld, ad = out
    params = [p for m in tr.models.values() for p in tr._unwrap(m).parameters() if p.requires_grad]
    bad = {"nan": float("nan"), "inf": float("inf"), "ninf": float("-inf")}[kind.split("-")[1]] if "-" in kind else 0.0
    if kind.startswith("loss-"):
        return loss * bad, ld, ad
    if kind.startswith("metric-"):
        k = sorted(ld)[rng_index % len(ld)]
        return loss, dict(ld, **{k: ld[k] * 0 + bad}), ad
    if kind.startswith("aux-"):
        if not ad:
            return loss * bad, ld, ad
        k = sorted(ad)[rng_index % len(ad)]
        return loss, ld, dict(ad, **{k: torch.as_tensor(ad[k]) * 0 + bad})
    if kind.startswith("grad-"):        # every gradient
        return _nan_grad(torch, bad).apply(loss), ld, ad
    if kind.startswith("onegrad-"):     # one element of one parameter
        p = params[rng_index % len(params)]
        return loss + _nan_grad(torch, bad).apply(p.reshape(-1)[-1]) * 1e-20, ld, ad
    if kind == "detached":
        return loss.detach(), ld, ad
    if kind == "vector":
        return loss.reshape(1), ld, ad
    if kind == "notensor":
        return float(loss), ld, ad
    if kind == "drop":
        ld = dict(ld)
        ld.pop(sorted(ld)[-1])
        return loss, ld, ad
    raise KeyError(kind)


def run(cfg, rundir, spec=None, capture=False):
    """spec: dict(kind, it, micro, index, lines=None) or None; capture: report errors also without one."""
    trace, note = [], {"done": 0, "hit": False, "after": []}
    spec = spec or {}
    kind, it = spec.get("kind"), spec.get("it")
    lines = None
    if spec.get("lines") is not None:
        files = {str(boot.REPO / f) for f in spec.get("files", ("trainer/base.py",))}
        lines = Lines(files, spec["lines"], spec.get("within"))
    count = {"before": 0, "forward": 0}

    def arm():
        note["hit"] = True
        if lines is not None:
            lines.armed = True

    def plan(point, tr, data):
        cur = start["iteration"] + note["done"] + 1
        if point == "after":
            note["done"] += 1
            note["after"].append(cur)
            count["before"] = count["forward"] = 0
            trace[-1]["files"] = {n: digest.of(dict(tr._unwrap(m).state_dict())) for n, m in tr.models.items()}
            if kind == "raise-after" and cur == it:
                arm()
                raise train.Stop("planned failure after the step")
            return None
        if point not in count:
            return None
        count[point] += 1
        if kind == "drop" and not note["done"]:
            return None     # the first step of a process defines the keys
        if cur != it or count[point] != spec.get("micro", 0) + 1:
            return None
        if point == "before":
            if kind == "interrupt":
                arm()
            if kind == "raise-before":
                arm()
                raise train.Stop("planned failure before the step")
            if kind in ("opt-raise", "sched-raise"):
                arm()
                objs = list((tr.optimizers if kind == "opt-raise" else tr.schedulers).values())

                def boom(*a, **k):
                    raise train.Stop("planned failure in " + kind)
                objs[-1].step = boom
            return None
        if kind in (None, "raise-before", "raise-after", "opt-raise", "sched-raise", "interrupt"):
            return None
        if kind == "raise":
            arm()
            raise train.Stop("planned failure in the step")

        def alter(*out):
            arm()
            return poison(kind, tr, out, spec.get("index", 0))
        return alter

    with train.quiet(os.environ.get("VM_QUIET")):
        t = train.build(cfg, rundir, plan, trace)
        start = dict(train.snapshot(t), iteration=t.state.iteration, epoch=t.state.epoch)
        error = None
        if lines is not None:
            sys.settrace(lines.trace)
        try:
            t.run()
        except BaseException as e:  # noqa: BLE001
            if not spec and not capture:
                raise
            error = f"{type(e).__name__}: {e}"[:1500]
        finally:
            sys.settrace(None)
        end = dict(train.snapshot(t), iteration=t.state.iteration, epoch=t.state.epoch)
    return dict(start=start, trace=trace, end=end, error=error, vals=getattr(t, "vm_vals", []), hit=note["hit"],
                after=note["after"], where=lines.where if lines else None)


def run_ranks(cfg, rundir, world, spec, victim=0):
    return train.run_ranks(cfg, rundir, world, spec, victim, target="vm.fault:run", extra=(spec is not None,))
