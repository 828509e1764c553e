"""Schedule perturbation: random delays in front of pool tasks and slow consumers."""
import contextlib
import random
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor


class Trace:
    def __init__(self):
        self.lock = threading.Lock()
        self.submitted = 0
        self.inflight = 0
        self.max_inflight = 0
        self.done = []


@contextlib.contextmanager
def shaken(rng, max_delay=0.003):
    """Delay every thread-pool task by a random amount; records completion order."""
    trace = Trace()
    orig = ThreadPoolExecutor.submit
    local = random.Random(rng.getrandbits(64))

    def submit(self, fn, /, *args, **kw):
        with trace.lock:
            n = trace.submitted
            trace.submitted += 1
            delay = local.random() ** 2 * max_delay if local.random() < 0.8 else 0.0

        def run(*a, **k):
            with trace.lock:
                trace.inflight += 1
                trace.max_inflight = max(trace.max_inflight, trace.inflight)
            try:
                if delay:
                    time.sleep(delay)
                return fn(*a, **k)
            finally:
                with trace.lock:
                    trace.inflight -= 1
                    trace.done.append(n)
        return orig(self, run, *args, **kw)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ThreadPoolExecutor.submit = submit
    try:
        yield trace
    finally:
        ThreadPoolExecutor.submit = orig
        sys.setswitchinterval(old)
