"""Monitor runtime: cases, verdicts, counters, evidence."""
import contextlib
import hashlib
import json
import os
import random
import time
import traceback
from collections import Counter
from pathlib import Path

from . import boot


class Violation(Exception):
    def __init__(self, mechanism, message, **detail):
        super().__init__(message)
        self.mechanism = mechanism
        self.message = message
        self.detail = detail


UNREADABLE = (KeyError, IndexError, AttributeError, TypeError, ValueError)


class Skip(Exception):
    """A case that cannot be decided (counted, never folded into a verdict)."""


def _jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:400]


class Ctx:
    def __init__(self, prop, tier, seed, level="exploration", only=None, outfile=None, shard=0, shards=1):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.only = only
        self.shard, self.shards = shard, shards
        self.main = shard == 0
        self.t0 = time.monotonic()
        self.thorough = tier == "thorough"
        self.budget = 600.0 if self.thorough else 36.0
        self.counters = Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.evaluations = 0
        self.skipped = Counter()
        self.rule = ""
        self.assumptions = []
        self.min_nontrivial = 1
        self.required = {}
        self.extra = {}
        self.current = None
        self.outfile = outfile
        self.scratch = boot.scratch_root() / f"{prop}-{shard}"
        self.scratch.mkdir(parents=True, exist_ok=True)
        self._dirn = 0

    # ---- time -----------------------------------------------------------
    def elapsed(self):
        return time.monotonic() - self.t0

    def left(self):
        return self.budget - self.elapsed()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- randomness / scratch ------------------------------------------
    def rng(self, *label):
        return random.Random(f"{self.seed}/{self.prop}/" + "/".join(map(str, label)))

    def nprng(self, *label):
        import numpy as np
        h = hashlib.sha256(f"{self.seed}/{self.prop}/{label!r}".encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    def tmp(self, name="d"):
        self._dirn += 1
        d = self.scratch / f"{name}{self._dirn}"
        d.mkdir(parents=True, exist_ok=True)
        return d

    # ---- observation ----------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=12).digest())

    def sample(self, obj):
        if len(self.samples) < 12:
            self.samples.append(_jsonable(obj))

    def require(self, name, n=1):
        """A counter that must be reached for a 'held' verdict."""
        self.required[name] = n

    # ---- verdicts -------------------------------------------------------
    def fail(self, mechanism, message, **detail):
        raise Violation(mechanism, message, **detail)

    def check(self, cond, mechanism, message, **detail):
        self.count("oracle_evaluations")
        if not cond:
            raise Violation(mechanism, message() if callable(message) else message, **detail)
        return True

    def record(self, v: Violation, label, params):
        self.violations.append({
            "mechanism": v.mechanism, "message": v.message[:3000],
            "case": label, "params": _jsonable(params), "detail": _jsonable(v.detail),
        })
        self.flush()

    @contextlib.contextmanager
    def case(self, label, params=None, sample=True):
        """One monitored execution; exceptions escaping /repo code on inputs the
        harness knows to be valid are violations, harness failures are errors."""
        self.current = {"case": label, "params": _jsonable(params), "since": time.time()}
        self.flush(light=True)
        self.evaluations += 1
        try:
            yield
            if sample:
                self.sample({"case": label, "params": params})
        except Violation as v:
            self.record(v, label, params)
        except Skip as s:
            self.skipped[str(s)] += 1
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            # attribute the failure to the deepest frame that is either the
            # code under test or this harness
            owner, site = None, None
            for fr in reversed(tb):
                if fr.filename.startswith(str(boot.REPO) + os.sep):
                    owner, site = "repo", f"{os.path.relpath(fr.filename, boot.REPO)}:{fr.name}"
                    break
                if fr.filename.startswith(str(boot.VERIF) + os.sep):
                    owner = "harness"
                    break
            text = "".join(traceback.format_exception(e))[-4000:]
            if owner == "harness" and isinstance(e, UNREADABLE) and not str(getattr(e, "name", "")).startswith("_"):
                # the oracle could not interpret what the code returned
                self.record(Violation(f"uninterpretable-result:{type(e).__name__}", f"{type(e).__name__}: {e}",
                                      trace=text), label, params)
            elif owner == "repo":
                self.record(Violation(f"unexpected-exception:{type(e).__name__}@{site}",
                                      f"{type(e).__name__}: {e}", trace=text), label, params)
            else:
                self.errors.append({"case": label, "params": _jsonable(params), "trace": text})
                self.flush()
        finally:
            self.current = None

    def cases(self, label, quick, thorough=None, share=None):
        """Yield (name, rng) pairs, stopping at the time budget."""
        total = self.n(quick, quick * 8 if thorough is None else thorough)
        start = self.elapsed()
        limit = None if share is None else share * self.budget
        for i in range(total):
            name = f"{label}#{i}"
            if self.only:
                if self.only != name:
                    continue
            elif i % self.shards != self.shard:
                continue
            if self.only:
                pass
            elif i < 0.3 * quick and self.elapsed() < 400:
                pass        # a slow machine still runs the first part of every workload
            elif self.elapsed() > self.budget or (limit is not None and self.elapsed() - start > limit):
                self.count(f"truncated:{label}")
                break
            if len(self.violations) >= 25:
                break
            yield name, self.rng(name)

    # ---- output ---------------------------------------------------------
    def state(self):
        return {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "evaluations": self.evaluations, "keys": sorted(k.hex() for k in self.keys), "rule": self.rule,
            "samples": self.samples, "counters": dict(self.counters),
            "violations": self.violations, "errors": self.errors[:10], "n_errors": len(self.errors),
            "skipped": dict(self.skipped), "required": self.required,
            "min_nontrivial": self.min_nontrivial, "assumptions": self.assumptions,
            "extra": _jsonable(self.extra), "wall": self.elapsed(), "current": self.current,
        }

    _last = 0.0

    def flush(self, light=False):
        if not self.outfile:
            return
        if light:
            try:
                with open(str(self.outfile) + ".cur", "w") as f:
                    json.dump(self.current, f)
            except OSError:
                pass
            return
        tmp = f"{self.outfile}.tmp"
        Path(tmp).write_text(json.dumps(self.state()))
        os.replace(tmp, self.outfile)
