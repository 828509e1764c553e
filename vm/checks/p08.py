"""Native shuffle reservoir: reference equivalence, refusal atomicity and memory safety."""
import random
from collections import deque
from dataclasses import replace

import numpy as np

from vm import sanitized

M = (1 << 64) - 1
ALGO = "streaming-shuffle-reservoir-v2"


class Model:
    """Independent reservoir: splitmix counter stream, eviction by swap with the last slot."""

    def __init__(self, cap, base):
        self.cap, self.base = cap, base
        self.slots, self.ctr, self.offered, self.emitted, self.peak, self.closed = [], 0, 0, 0, 0, False

    def draw(self, upper):
        limit = (1 << 64) // upper * upper
        while True:
            v = (self.base + self.ctr * 0x9E3779B97F4A7C15) & M
            self.ctr += 1
            v = ((v ^ (v >> 30)) * 0xBF58476D1CE4E5B9) & M
            v = ((v ^ (v >> 27)) * 0x94D049BB133111EB) & M
            v ^= v >> 31
            if v < limit:
                return v % upper

    def offer(self, items):
        out = []
        for x in items:
            if len(self.slots) >= self.cap:
                i = self.draw(len(self.slots))
                out.append(self.slots[i])
                last = self.slots.pop()
                if i < len(self.slots):
                    self.slots[i] = last
            self.slots.append(x)
            self.peak = max(self.peak, len(self.slots))
        self.offered += len(items)
        self.emitted += len(out)
        return out

    def view(self):
        return (list(self.slots), self.ctr, self.offered, self.emitted, self.peak, self.closed)


class Bad(Exception):
    pass


def view(core):
    return ([int(x) for x in core.slots()], core.rng_counter, core.offered, core.emitted, core.peak_occupancy, core.closed)


def need(cond, mech, msg):
    if not cond:
        raise Bad((mech, msg))


def native_history(seed):
    """Random call history on the extension class against the model; returns counters or (mechanism, message)."""
    from dataset_planner_cpp import PackedUInt64Reservoir
    rng = random.Random(seed)
    n = {"calls": 0, "refused": 0, "restores": 0, "emitted": 0}
    cap = rng.choice([1, 2, 3, 5, 8, 17, 64, 257, 1000])
    base = rng.getrandbits(64)
    core, mod = PackedUInt64Reservoir(cap, base), Model(cap, base)
    token = [0]

    def fresh(k):
        token[0] += k
        if rng.random() < 0.5:
            return [rng.getrandbits(64) for _ in range(k)]
        return list(range(token[0] - k, token[0]))

    def refuse(what, f, *kinds):
        before = view(core)
        try:
            f()
        except (kinds or (ValueError, RuntimeError, TypeError)):
            n["refused"] += 1
        else:
            raise Bad(("native:accepted-misuse", what))
        need(view(core) == before, "native:refusal-changed-state", f"{what} changed the reservoir before it was refused")
    try:
        for _ in range(rng.randint(3, 40)):
            n["calls"] += 1
            op = rng.choice(["offer"] * 6 + ["restore", "restore", "misuse", "clone", "limit"])
            if op == "offer":
                items = fresh(rng.choice([0, 1, 1, 2, 7, cap, cap + 1, 3 * cap]))
                arr = np.array(items, dtype=np.uint64)
                if rng.random() < 0.2 and len(items):        # a non-contiguous view of the same values
                    wide = np.zeros(2 * len(items), np.uint64)
                    wide[::2] = arr
                    arr = wide[::2]
                if rng.random() < 0.3:
                    arr.flags.writeable = False
                got = core.offer(arr)
                want = mod.offer(items)
                need(got.dtype == np.uint64 and [int(x) for x in got] == want, "native:sequence",
                     f"capacity {cap}: emitted {[int(x) for x in got][:6]} expected {want[:6]}")
                n["emitted"] += len(want)
                got[...] = 0xDEAD                             # results must be private copies
                need(view(core) == mod.view(), "native:state", f"state {view(core)[1:]} expected {mod.view()[1:]}")
            elif op == "restore":
                s, c, o, e, p, cl = view(core)
                core = PackedUInt64Reservoir(cap, base)
                arr = np.array(s, dtype=np.uint64)
                core.restore(arr, c, o, e, p, cl)
                if len(arr):
                    arr[...] = 1
                need(view(core) == mod.view(), "native:restore", "restored reservoir differs from the saved one")
                n["restores"] += 1
            elif op == "clone":
                s = core.slots()
                if len(s):
                    s[...] = 0
                need(view(core) == mod.view(), "native:alias", "writing to the returned slots changed the reservoir")
            elif op == "limit":
                # the draw counter is bounded: exceeding it is refused before anything moves
                c2 = PackedUInt64Reservoir(cap, base)
                full = np.arange(cap, dtype=np.uint64)
                near = (1 << 63) - rng.choice([1, 2, 3])
                c2.restore(full, near, cap, 0, cap, False)
                before = view(c2)
                try:
                    c2.offer(np.arange(cap + 10, dtype=np.uint64))
                except RuntimeError:
                    n["refused"] += 1
                else:
                    raise Bad(("native:counter-overflow", "the draw counter passed its limit"))
                need(view(c2) == before, "native:refusal-changed-state", "counter overflow changed the reservoir")
            else:
                s, c, o, e, p, cl = view(core)
                arr = np.array(s, dtype=np.uint64)
                one = np.zeros(1, np.uint64)
                pick = rng.choice(range(9))
                if pick == 0:
                    refuse("two-dimensional offer", lambda: core.offer(np.zeros((2, 2), np.uint64)))
                elif pick == 1:
                    refuse("zero-dimensional offer", lambda: core.offer(np.zeros((), np.uint64)))
                elif pick == 2:
                    refuse("drain order of wrong length", lambda: core.drain(np.arange(len(s) + 1, dtype=np.uint64)))
                elif pick == 3 and len(s):
                    bad = np.arange(len(s), dtype=np.uint64)
                    bad[rng.randrange(len(s))] = rng.choice([len(s), M, 1 << 63])
                    refuse("drain order out of range", lambda: core.drain(bad))
                elif pick == 4 and len(s) > 1:
                    bad = np.arange(len(s), dtype=np.uint64)
                    bad[0] = bad[1]
                    refuse("drain order with duplicates", lambda: core.drain(bad))
                elif pick == 5:
                    refuse("restore above capacity", lambda: core.restore(np.zeros(cap + 1, np.uint64), 0, cap + 1, 0, cap + 1, False))
                elif pick == 6:
                    refuse("restore with inconsistent counters", lambda: core.restore(arr, c, o + 1, e, p, cl))
                    refuse("restore with a draw counter beyond its range", lambda: core.restore(arr, 1 << 63, o, e, p, cl))
                elif pick == 7:
                    refuse("restore with an impossible peak", lambda: core.restore(arr, c, o, e, cap + 1, cl))
                    if len(s):
                        refuse("restore with a peak below occupancy", lambda: core.restore(arr, c, o, e, len(s) - 1, cl))
                else:
                    refuse("restore from a matrix", lambda: core.restore(one.reshape(1, 1), 0, 1, 0, 1, False))
                    refuse("zero capacity", lambda: PackedUInt64Reservoir(0, 1))
        order = list(range(len(mod.slots)))
        rng.shuffle(order)
        got = [int(x) for x in core.drain(np.array(order, dtype=np.uint64))]
        need(got == [mod.slots[i] for i in order], "native:drain", "drained items differ from the requested order")
        need(core.closed and core.occupancy == 0 and core.emitted == core.offered, "native:drain-state", str(view(core)[1:]))
        refuse("offer after drain", lambda: core.offer(np.zeros(1, np.uint64)), RuntimeError)
        need(len(core.drain(np.zeros(0, np.uint64))) == 0, "native:drain-twice", "second drain emitted items")
    except Bad as b:
        return b.args[0]
    return n


def native_batch(seeds):
    return [native_history(s) for s in seeds]


def fold(ctx, results, seeds):
    for s, r in zip(seeds, results):
        if isinstance(r, tuple):
            ctx.fail(r[0], f"history {s}: {r[1]}")
        for k, v in r.items():
            ctx.count(f"native_{k}", v)
        ctx.seen("native", s, tuple(r.values()))


# ---------------------------------------------------------------- python wrapper against portable algorithm
def wrapper_case(ctx, name, rng):
    from dataset.core import deterministic_permutation, rng_u64
    from dataset.packed import PackedRecordBlock, PackedUInt64ShuffleReservoir
    from dataset.shuffle import StreamingShuffleReservoir
    cap = rng.choice([1, 2, 3, 16, 100])
    kw = dict(seed=rng.getrandbits(rng.choice([3, 40, 62])), epoch=rng.randrange(9), stream_key=("m", rng.randrange(5), "x" * rng.randrange(3)))
    n = rng.randint(0, 6 * cap + 20)
    with ctx.case(name, dict(cap=cap, n=n, **kw)):
        ids = np.array([rng.getrandbits(64) for _ in range(n)], dtype=np.uint64)
        nat, port = PackedUInt64ShuffleReservoir(cap, **kw), StreamingShuffleReservoir(cap, **kw)
        mod = Model(cap, rng_u64(kw["seed"], "shuffle_reservoir", (ALGO, kw["epoch"], kw["stream_key"])))
        a, b, c, pos, saves = [], [], [], 0, []
        while pos < n:
            k = min(n - pos, rng.choice([1, 2, 3, 10, cap, 4 * cap]))
            part = np.ascontiguousarray(ids[pos:pos + k])
            got = nat.offer_block(PackedRecordBlock(part.copy()))
            ctx.check(not got.flags.writeable, "wrapper:writable", "emitted ids are writable")
            a += [int(x) for x in got]
            b += [int(x) for x in port.offer_many([(int(x), 0) for x in part])]
            c += mod.offer([int(x) for x in part])
            pos += k
            ctx.check(a == b == c, "wrapper:sequence", f"after {pos} offers native, portable and reference emit different sequences")
            st = nat.stats
            ctx.check((st.offered, st.emitted, st.occupancy, st.peak_occupancy) == (mod.offered, mod.emitted, len(mod.slots), mod.peak)
                      and st == port.stats, "wrapper:stats", f"{st} vs {port.stats}")
            if rng.random() < 0.3:
                state = nat.state()
                saves.append((state, len(a), pos))
                other = PackedUInt64ShuffleReservoir(cap, **kw)
                other.restore(state)
                ctx.check(other.state() == state, "wrapper:state-roundtrip", "restored state differs")
                nat = other
                pstate = port.state()
                other = StreamingShuffleReservoir(cap, **kw)
                other.restore(pstate)
                port = other
                ctx.count("wrapper_restores")
        tail = [int(x) for x in nat.drain()]
        order = deterministic_permutation(len(mod.slots), kw["seed"], "shuffle_reservoir_drain",
                                          (ALGO, kw["epoch"], kw["stream_key"], mod.offered, mod.ctr))
        ctx.check(tail == [int(x) for x in port.drain()] == [mod.slots[i] for i in order], "wrapper:drain",
                  "native, portable and reference drains differ")
        a += tail
        ctx.check(sorted(a) == sorted(int(x) for x in ids), "wrapper:conservation", "emitted ids are not the offered ids")
        ctx.check(nat.closed and port.closed and len(nat) == 0, "wrapper:closed", "not closed after drain")
        ctx.check(len(nat.drain()) == 0, "wrapper:drain-twice", "second drain emitted items")
        for st, emitted, p in saves[-2:]:                         # continue once more from an older save
            other = PackedUInt64ShuffleReservoir(cap, **kw)
            other.restore(st)
            out = a[:emitted] + [int(x) for x in other.offer_block(PackedRecordBlock(np.ascontiguousarray(ids[p:])))]
            out += [int(x) for x in other.drain()]
            ctx.check(out == a, "wrapper:resume", "continuing from a saved state emits another sequence")
        if saves:
            st = rng.choice(saves)[0]
            occ = len(st.slots_le) // 8
            bad = [replace(st, algorithm="other"), replace(st, seed=st.seed + 1), replace(st, epoch=st.epoch + 1),
                   replace(st, stream_key=("z",)), replace(st, capacity=cap + 1), replace(st, slots_le=st.slots_le + b"x"),
                   replace(st, slots_le=b"\0" * 8 * (cap + 1), offered=st.emitted + cap + 1, peak_occupancy=cap + 1),
                   replace(st, offered=st.offered + 1), replace(st, emitted=-1, offered=occ - 1), replace(st, rng_counter=-1),
                   replace(st, rng_counter=1 << 63), replace(st, peak_occupancy=cap + 1), replace(st, peak_occupancy=occ - 1)]
            if occ:
                bad += [replace(st, closed=True), replace(st, slots_le=st.slots_le[:-8]), replace(st, slots_le=st.slots_le[:-1])]
            for i, s in enumerate(bad):
                other = PackedUInt64ShuffleReservoir(cap, **kw)
                before = other.state()
                try:
                    other.restore(s)
                except (ValueError, TypeError, RuntimeError, OverflowError):
                    ctx.count("bad_states_refused")
                    ctx.check(other.state() == before, "wrapper:refusal-changed-state", f"refused state {i} changed the reservoir")
                else:
                    ctx.fail("wrapper:accepted-bad-state", f"malformed state {i} accepted: {str(s)[:200]}")
        ctx.seen("wrapper", tuple(a))
        ctx.count("wrapper_histories")


def buffer_case(ctx, name, rng):
    from dataset.packed import PackedEnvelopeBatch, PackedRecordBlock, PackedUInt64ReadyBuffer
    with ctx.case(name):
        buf, mod = PackedUInt64ReadyBuffer(), deque()
        for _ in range(rng.randint(5, 60)):
            op = rng.choice(["ext", "ext", "pop", "pop", "state", "over", "clear"])
            if op == "ext":
                v = [rng.getrandbits(64) for _ in range(rng.choice([0, 1, 3, 20]))]
                buf.extend(np.array(v, dtype=np.uint64))
                mod.extend(v)
            elif op == "pop":
                k = rng.randint(0, len(mod))
                got = [int(x) for x in buf.pop(k)]
                ctx.check(got == [mod.popleft() for _ in range(k)], "ready:fifo", f"pop({k}) returned other ids")
                ctx.count("fifo_pops")
            elif op == "state":
                st = buf.state()
                ctx.check(len(st) == len(mod) and [int(x) for x in st.record_ids()] == list(mod), "ready:state", "saved ids differ")
                buf = PackedUInt64ReadyBuffer()
                buf.restore(st)
            elif op == "over":
                for k in (len(mod) + 1, -1):
                    try:
                        buf.pop(k)
                    except ValueError:
                        ctx.count("bad_pops_refused")
                    else:
                        ctx.fail("ready:overrun", f"pop({k}) of {len(mod)} accepted")
            elif rng.random() < 0.2:
                buf.clear()
                mod.clear()
            ctx.check(len(buf) == len(mod), "ready:length", f"{len(buf)} != {len(mod)}")
        ids = np.array([rng.getrandbits(64) for _ in range(rng.randint(2, 30))], dtype=np.uint64)
        calls = []
        batch = PackedEnvelopeBatch(ids.copy(), lambda r: calls.append(len(r)) or tuple(int(x) * 2 for x in r), "src")
        ref = [int(x) * 2 for x in ids]
        ctx.check(list(batch) == ref and len(batch) == len(ref), "batch:iter", "iteration differs")
        for _ in range(8):
            i = rng.randint(-len(ref), len(ref) - 1)
            ctx.check(batch[i] == ref[i], "batch:index", f"batch[{i}]")
            sl = slice(rng.choice([None, rng.randint(-9, 30)]), rng.choice([None, rng.randint(-9, 30)]), rng.choice([None, 1, 2, -1]))
            ctx.check(list(batch[sl]) == ref[sl], "batch:slice", f"batch[{sl}]")
        for i in (len(ref), -len(ref) - 1):
            try:
                batch[i]
            except IndexError:
                pass
            else:
                ctx.fail("batch:overrun", f"index {i} of {len(ref)} accepted")
        other = ids.copy()
        other[rng.randrange(len(other))] ^= np.uint64(1)
        ctx.check(batch == PackedEnvelopeBatch(ids.copy(), lambda r: (), "src") and batch != PackedEnvelopeBatch(other, lambda r: (), "src")
                  and batch != PackedEnvelopeBatch(ids.copy(), lambda r: (), "other"), "batch:equality", "equality is not by ids and source")
        for f, err in ((lambda: PackedRecordBlock(ids.astype(np.int64)), TypeError), (lambda: PackedRecordBlock(ids.reshape(1, -1)), ValueError),
                       (lambda: PackedRecordBlock(np.repeat(ids, 2)[::2]), ValueError), (lambda: PackedRecordBlock(ids, default_cycle=-1), ValueError),
                       (lambda: PackedRecordBlock(ids, cycles=np.zeros(len(ids) + 1, np.uint32)), ValueError)):
            try:
                f()
            except (ValueError, TypeError):
                ctx.count("bad_blocks_refused")
            else:
                ctx.fail("block:accepted", "malformed record block accepted")


def run(ctx):
    ctx.rule = ("random call histories (offers of any chunking, save/restore, drain, misuse, counter limits) on the extension, once in the "
                "plain build and once in an AddressSanitizer+UBSan build, against an independent model; the Python wrapper, the portable "
                "buffer and the model in lock step. Non-trivial: distinct histories")
    ctx.require("native_calls", 1000)
    ctx.require("native_refused", 100)
    ctx.require("sanitized_processes", 1)
    ctx.require("wrapper_histories", 50)
    ctx.require("bad_states_refused", 100)
    for name, rng in ctx.cases("asan", 4, 36, share=0.4):
        with ctx.case(name):
            seeds = [rng.getrandbits(40) for _ in range(ctx.n(120, 1200))]
            fold(ctx, sanitized.call(ctx, "vm.checks.p08", "native_batch", seeds), seeds)
    for name, rng in ctx.cases("native", 40, 800, share=0.2):
        with ctx.case(name):
            seeds = [rng.getrandbits(40) for _ in range(10)]
            fold(ctx, native_batch(seeds), seeds)
    for name, rng in ctx.cases("wrapper", 120, 3000, share=0.3):
        wrapper_case(ctx, name, rng)
    for name, rng in ctx.cases("buffers", 60, 1000, share=0.1):
        buffer_case(ctx, name, rng)
