"""Map-style training runs that log the rows each step received (in forked children)."""
import os

from . import train


def run(cfg, rundir, stop=None):
    """[(iteration, batch)] of one process; stop: iteration during which it fails."""
    log = []

    def plan(point, tr, data):
        if point == "before":
            cur = start + sum(1 for x in log if x is None) + 1
            if cur == stop:
                raise train.Stop("planned stop")
            log.append((cur, {k: (v.numpy().copy() if hasattr(v, "numpy") else v) for k, v in dict(data).items()}))
        elif point == "after":
            log.append(None)

    with train.quiet(os.environ.get("VM_QUIET")):
        t = train.build(cfg, rundir, plan, None)
        start, epoch = t.state.iteration, t.state.epoch
        try:
            t.run()
        except train.Stop:
            if stop is None:
                raise
        except RuntimeError as e:
            if stop is None or "planned stop" not in str(e):
                raise
    return dict(start=start, epoch=epoch, end=t.state.iteration, end_epoch=t.state.epoch, log=[x for x in log if x is not None])


def run_ranks(cfg, rundir, world, stop):
    return train.run_ranks(cfg, rundir, world, stop, 0, target="vm.maps:all_stop", extra=(stop,))


def all_stop(cfg, rundir, _, stop):
    return run(cfg, rundir, stop)
