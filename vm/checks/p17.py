"""Batch pipelines: isolated state, declared fields only, canonical state encoding."""
import copy
import math
import struct

import numpy as np
import torch

from vm import digest, drive, pipes, scenario
from vm.core import Skip
from vm.checks.p03 import roundtrip

DTYPES = [torch.bool, torch.uint8, torch.uint16, torch.uint32, torch.uint64, torch.int8, torch.int16, torch.int32,
          torch.int64, torch.float16, torch.float32, torch.float64, torch.bfloat16]
REFUSED = (ValueError, TypeError, RuntimeError, OverflowError)


# ---------------------------------------------------------------- codec
def rand_tensor(rng):
    dt = rng.choice(DTYPES)
    shape = tuple(rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    item = torch.empty((), dtype=dt).element_size()
    raw = rng.randbytes(max(1, math.prod(shape)) * item)
    if dt == torch.bool:
        t = torch.tensor([b & 1 for b in raw], dtype=torch.bool)[: math.prod(shape)].reshape(shape)
    else:
        t = torch.frombuffer(bytearray(raw), dtype=dt)[: math.prod(shape)].reshape(shape).clone()
    if t.ndim >= 2 and rng.random() < 0.4:
        t = t.transpose(0, t.ndim - 1)
    elif t.ndim >= 1 and t.shape[0] > 2 and rng.random() < 0.4:
        t = t[::2]
    return t


def rand_value(rng, depth=0):
    k = rng.randrange(11 if depth < 3 else 7)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.choice([0, 1, -1, (1 << 63) - 1, -(1 << 63), rng.getrandbits(63), -rng.getrandbits(40), 10 ** 15 + 1])
    if k == 2:
        return rng.choice([0.0, -0.0, 1.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, rng.uniform(-1, 1),
                           struct.unpack("<d", struct.pack("<Q", rng.getrandbits(62)))[0], 0.1, 1e22])
    if k == 3:
        return rng.choice(["", "a", "\u4e2d\u6587", "\U0001f600", "\x00\n\"\\", "$bytes", "null", "1", "é" * 5,
                           "".join(chr(rng.randrange(32, 1000)) for _ in range(6))])
    if k == 4:
        return rng.randbytes(rng.choice([0, 1, 7, 64]))
    if k in (5, 6):
        return rand_tensor(rng)
    if k in (7, 8):
        v = [rand_value(rng, depth + 1) for _ in range(rng.randrange(4))]
        return tuple(v) if rng.random() < 0.5 else v
    out = {}
    for _ in range(rng.randrange(4)):
        out[rng.choice(["a", "b", "zz", "", "k k", "\u00e9", "$", "$x", "bytes", "1", "_"])] = rand_value(rng, depth + 1)
    return out


def same(a, b):
    """b is a with lists turned into tuples; exact types and bits."""
    if isinstance(a, torch.Tensor):
        if not isinstance(b, torch.Tensor) or a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
            return False
        x, y = a.contiguous(), b.contiguous()
        if x.numel() == 0:
            return True
        return x.reshape(-1).view(torch.uint8).equal(y.reshape(-1).view(torch.uint8))
    if isinstance(a, (list, tuple)):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return type(b) is dict and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if type(a) is float:
        return type(b) is float and struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is type(b) and a == b


def norm(v):
    """A hashable form that equals exactly for values that must encode alike."""
    if isinstance(v, torch.Tensor):
        c = v.contiguous()
        raw = bytes(c.reshape(-1).view(torch.uint8).tolist()) if c.numel() else b""
        return ("t", str(v.dtype), tuple(v.shape), raw)
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple(sorted((k, norm(x)) for k, x in v.items()))
    if type(v) is float:
        return ("f", struct.pack("<d", v))
    return (type(v).__name__, v)


def reordered(rng, v):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: reordered(rng, v[k]) for k in ks}
    if isinstance(v, (list, tuple)):
        out = [reordered(rng, x) for x in v]
        return tuple(out) if rng.random() < 0.5 else out
    if isinstance(v, torch.Tensor) and v.ndim >= 2:
        return v.transpose(0, 1).contiguous().transpose(0, 1)       # same values, other memory layout
    return v


def bad_values(rng):
    p = torch.nn.Parameter(torch.ones(2))
    out = [1 << 63, -(1 << 63) - 1, 1 << 200, float("nan"), float("inf"), -float("inf"), {1: 2}, {None: 1}, {("a",): 1},
           {b"a": 1}, {"$bytes": "00"}, {"$f64": "0" * 16}, {"$tensor": {}}, {"$tensor": 1, "a": 2}, {1, 2}, frozenset([1]), object(),
           1j, torch.ones(2, requires_grad=True), p, torch.eye(2).to_sparse(), torch.empty(2, device="meta"),
           torch.ones(2, dtype=torch.complex64), np.ones(2), np.float32(1), np.int64(3), bytearray(b"a"),
           lambda: 1, range(3), torch.quantize_per_tensor(torch.ones(2), 0.1, 0, torch.quint8)]
    v = rng.choice(out)
    w = rng.randrange(4)
    return v if w == 0 else [1, v] if w == 1 else {"k": v} if w == 2 else {"k": (1, {"z": [v]})}


def codec_case(ctx, rng, book):
    from dataset.core import canonical_pipeline_state_bytes as enc, decode_canonical_pipeline_state as dec
    for _ in range(40):
        v = rand_value(rng)
        blob = enc(v)
        ctx.check(isinstance(blob, bytes), "codec:type", f"encoding is {type(blob).__name__}")
        back = dec(blob)
        ctx.check(same(v, back), "codec:roundtrip", lambda: f"{v!r} came back as {back!r}")
        ctx.check(enc(back) == blob, "codec:reencode", lambda: f"re-encoding {v!r} gave other bytes")
        ctx.check(enc(reordered(rng, v)) == blob, "codec:order", lambda: f"encoding depends on dict order or memory layout: {v!r}")
        n = norm(v)
        old = book["fwd"].setdefault(blob, n)
        ctx.check(old == n, "codec:collision", lambda: f"two different values share one encoding: {old!r} / {n!r}")
        was = book["back"].setdefault(n, blob)
        ctx.check(was == blob, "codec:nondeterministic", "one value had two encodings")
        # decoded copies share nothing
        if isinstance(back, torch.Tensor) and back.numel():
            back.zero_()
            ctx.check(same(v, dec(blob)), "codec:aliased", "a decoded tensor aliases later decodes")
        ctx.count("codec_values")
        ctx.seen("codec", type(v).__name__, str(getattr(v, "dtype", "")), len(blob) // 16)
        # damage
        if blob:
            d = bytearray(blob)
            op = rng.randrange(4)
            if op == 0:
                d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
            elif op == 1:
                d.insert(rng.randrange(len(d) + 1), rng.choice(b" \n0,1af"))
            elif op == 2:
                del d[rng.randrange(len(d))]
            else:
                d[rng.randrange(len(d))] = rng.randrange(256)
            d = bytes(d)
            try:
                w = dec(d)
            except MemoryError:
                raise
            except Exception:
                ctx.count("damaged_refused")
            else:
                ctx.check(enc(w) == d, "codec:non-canonical", lambda: f"non-canonical bytes {d[:120]!r} were accepted")
                ctx.count("damaged_valid")
    for _ in range(12):
        v = bad_values(rng)
        try:
            blob = enc(v)
        except REFUSED:
            ctx.count("unsupported_refused")
            continue
        ctx.fail("codec:accepted-unsupported", f"{v!r} was encoded as {blob[:100]!r}")


NONCANON = [b'{"a":1,"b":2} ', b' 1', b'1.5', b'1e3', b'NaN', b'Infinity', b'{"b":1,"a":2}', b'{"a":1,"a":1}', b'"\\u0061"',
            b'{"$bytes":"0A"}', b'{"$bytes":"0"}', b'{"$bytes":5}', b'{"$bytes":"zz"}', b'{"$f64":"7ff0000000000000"}',
            b'{"$f64":"7ff8000000000000"}', b'{"$f64":"00"}', b'{"$f64":"3FF0000000000000"}', b'{"$bytes":"00","x":1}',
            b'{"$tensor":{"dtype":"int8","shape":[2],"data_le":"00"}}', b'{"$tensor":{"dtype":"int8","shape":[-1],"data_le":"00"}}',
            b'{"$tensor":{"dtype":"complex64","shape":[1],"data_le":"0000000000000000"}}',
            b'{"$tensor":{"dtype":"int8","shape":[1.0],"data_le":"00"}}', b'{"$tensor":{"dtype":"int8","shape":[true],"data_le":"00"}}',
            b'{"$tensor":{"dtype":"int8","shape":["1"],"data_le":"00"}}', b'{"$tensor":{"dtype":"int16","shape":[1],"data_le":"00"}}',
            b'{"$tensor":{"dtype":"int8","shape":[1],"data_le":"00","x":1}}', b'{"$tensor":{"dtype":"int8","shape":[1]}}',
            b'9223372036854775808', b'-9223372036854775809', b'', b'{', b'[1,]', b'\xff', b'01', b'-0', b'[1, 2]',
            b'{"$tensor":{"dtype":"bool","shape":[1],"data_le":"02"}}']


# ---------------------------------------------------------------- composer
def fs(name, required=True, scope="per_sample", spatial=None, side=None, collate="stack", kinds=("b", "i", "u", "f"), transform="plain"):
    from dataset.core import FieldSpec
    return FieldSpec(name, required, scope, spatial, side, collate, kinds, transform)


def rand_batch(rng, nprng, n, size):
    h, w = size
    b = {
        "board_size": np.tile(np.array([h, w], np.int16), (n, 1)),
        "board_input": nprng.integers(0, 2, (n, 2, h, w)).astype(np.int8),
        "stm_input": nprng.choice([-1.0, 1.0], (n, 1)).astype(np.float32),
        "value_target": nprng.random((n, 3)).astype(np.float32),
        "policy_target": nprng.random((n, h, w)).astype(np.float32),
        "ply": nprng.integers(0, 50, (n,)).astype(np.int16),
        "sparse_feature_dim": np.tile(np.array([3, 5], np.int32), (n, 1)),
        "position": [[(int(a), int(c)) for a, c in nprng.integers(0, 5, (int(nprng.integers(0, 4)), 2))] for _ in range(n)],
        "position_string": [f"p{i}" for i in range(n)],
    }
    if rng.random() < 0.5:
        b["board_input"] = torch.from_numpy(b["board_input"])
    if rng.random() < 0.5:
        b["value_target"] = torch.from_numpy(b["value_target"])
    if rng.random() < 0.3:
        b["policy_target"] = np.asfortranarray(b["policy_target"])
    for k in ("ply", "position_string", "position", "sparse_feature_dim"):
        if rng.random() < 0.3:
            del b[k]
    return b


def total(v):
    """A content measure of one field that any honest pipeline can compute."""
    if isinstance(v, torch.Tensor):
        v = v.numpy()
    a = np.asarray(v, dtype=object) if isinstance(v, list) else v
    if a.dtype == object:
        return np.array([len(str(x)) for x in v], np.int64)
    return np.asarray(a, np.float64).reshape(a.shape[0], -1).sum(1)


class Pipe:
    """One synthetic pipeline; `misdeed` runs inside the call on the chosen step."""

    def __init__(self, rng, idx, stateful, inputs, misdeed=None, at=0):
        self.pipeline_id, self.schema_version = f"vm.p{idx}", rng.randint(1, 4)
        self.idx, self.stateful, self.misdeed, self.at = idx, stateful, misdeed, at
        self.cfg = {"k": rng.randrange(100), "t": torch.arange(3)}
        self.inputs = inputs
        self.input_fields = tuple(fs(n, kinds=("b", "i", "u", "f", "O", "U"), collate="list" if n.startswith("pos") else "stack",
                                     transform="moves" if n == "position" else "plain") for n in inputs)
        self.out = f"vm_out{idx}"
        self.output_fields = (fs(self.out, kinds=("f",)),)
        self.calls = 0
        self.kept = []
        self.saw = []
        if not stateful:
            self.initial_state = None
            del self.initial_state

    def signature_state(self):
        return self.cfg

    def compute(self, data, n, s):
        acc = np.zeros((n,), np.float64)
        for name in self.inputs:
            acc = acc + total(data[name])
        return (acc + s + self.cfg["k"]).astype(np.float64).reshape(n, 1)

    def process_batch(self, data, *, sample_keys, rng_keys):
        out = dict(data)
        out[self.out] = self.compute(data, len(sample_keys), 0)
        out, _ = self.act(data, out, None, None, sample_keys)
        return out

    def act(self, data, out, state, nxt, keys):
        if self.misdeed and self.calls == self.at:
            r = self.misdeed(self, data, out, state, nxt, len(keys))
            if r is not None:
                out, nxt = r
        self.calls += 1
        return out, nxt


class StatefulPipe(Pipe):
    def initial_state(self):
        st = {"rows": self.cfg["k"], "hist": [], "t": torch.zeros(2, dtype=torch.int64), "f": 0.5}
        self.kept.append(st)
        return st

    def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
        from dataset.core import PreparedPipelineResult
        self.saw.append(copy.deepcopy(current_state))
        out = dict(data)
        out[self.out] = self.compute(data, len(sample_keys), current_state["rows"])
        nxt = self.next_state(current_state, len(sample_keys), rng_keys)
        self.kept.append(nxt)
        r, nxt2 = self.act(data, out, current_state, nxt, sample_keys)
        if r == "RAW":
            return out
        return PreparedPipelineResult(r, nxt2)

    @staticmethod
    def next_state(s, n, rng_keys):
        return {"rows": s["rows"] + n, "hist": (list(s["hist"]) + [n, str(rng_keys[0]) if rng_keys else ""])[-6:],
                "t": s["t"] + torch.tensor([n, 1]), "f": s["f"] / 2 + 0.25}


def poke(rng, v):
    """A modified copy (or in-place edit) of a field value; None when it cannot be changed."""
    inplace = rng.random() < 0.5
    if isinstance(v, torch.Tensor):
        t = v if inplace else v.clone()
        if t.numel() == 0:
            return None
        i = rng.randrange(t.numel())
        k = rng.randrange(4)
        if k == 0 and t.dtype != torch.float64:
            return t.double() if t.dtype.is_floating_point else t.int()
        if k == 1 and t.ndim > 1 and t.shape[-1] > 1:
            return t.reshape(t.shape[0], -1, 1)
        idx = np.unravel_index(i, tuple(t.shape))
        t[idx] = t[idx] + 1
        return t
    if isinstance(v, np.ndarray):
        a = v if inplace else v.copy()
        if a.size == 0:
            return None
        k = rng.randrange(5)
        if k == 0 and a.dtype.kind in "iu":
            return a.view(a.dtype.str.replace("i", "u") if a.dtype.kind == "i" else a.dtype.str.replace("u", "i"))
        if k == 1 and a.ndim > 2:
            return a.reshape(a.shape[0], -1)
        if k == 2 and a.dtype.kind == "f":
            idx = np.unravel_index(rng.randrange(a.size), a.shape)
            a[idx] = np.nextafter(a[idx], np.array(2, a.dtype))
            return a
        idx = np.unravel_index(rng.randrange(a.size), a.shape)
        a[idx] = a[idx] + 1
        return a
    if isinstance(v, list) and v:
        a = v if inplace else copy.deepcopy(v)
        i = rng.randrange(len(a))
        if isinstance(a[i], str):
            a[i] = a[i] + "x"
        elif isinstance(a[i], list):
            if a[i] and rng.random() < 0.5:
                a[i][-1] = (9, 9)
            else:
                a[i].append((9, 9))
        return a
    return None


def misdeeds(rng):
    """name -> (needs stateful, function). Each breaks the contract in exactly one way."""
    def field(data, own):
        names = [k for k in data if k != own]
        return rng.choice(names)

    def mutate(p, data, out, s, nxt, n):
        for _ in range(20):
            k = field(data, p.out)
            before = digest.of(data[k])
            v = poke(rng, out[k])
            if v is not None and digest.of(v) != before:
                out[k] = v
                return None
        raise AssertionError("no mutable field")

    def remove(p, data, out, s, nxt, n):
        del out[field(data, p.out)]

    def remove_self(p, data, out, s, nxt, n):
        del out[p.out]

    def undeclared(p, data, out, s, nxt, n):
        out["vm_sneaky"] = np.zeros((n, 1), np.float32)

    def swap(p, data, out, s, nxt, n):
        k = field(data, p.out)
        out["vm_moved"] = out.pop(k)

    def wrong_rows(p, data, out, s, nxt, n):
        out[p.out] = np.zeros((n + rng.choice([-1, 1]), 1), np.float64)

    def scalar(p, data, out, s, nxt, n):
        out[p.out] = np.float64(1)

    def dtype(p, data, out, s, nxt, n):
        out[p.out] = out[p.out].astype(rng.choice([np.int64, np.complex128, "U8", object, np.bool_]))

    def not_dict(p, data, out, s, nxt, n):
        return rng.choice([list(out.items()), None, tuple(out)]), nxt

    def raw(p, data, out, s, nxt, n):
        return "RAW", nxt

    def state(p, data, out, s, nxt, n):
        k = rng.randrange(4)
        if k == 0:
            s["rows"] += 1
        elif k == 1:
            s["t"][0] += 1
        elif k == 2:
            s["new"] = None
        else:
            del s["f"]

    def signature(p, data, out, s, nxt, n):
        if rng.random() < 0.5:
            p.cfg["t"][1] += 1
        else:
            p.cfg["k"] += 1

    def bad_state(p, data, out, s, nxt, n):
        return out, {**nxt, "x": bad_values(rng)}

    return {"mutate": (False, mutate), "remove": (False, remove), "remove-own": (False, remove_self), "undeclared": (False, undeclared),
            "rename": (False, swap), "rows": (False, wrong_rows), "scalar": (False, scalar), "dtype": (False, dtype),
            "not-dict": (False, not_dict), "raw": (True, raw), "state": (True, state), "signature": (False, signature),
            "bad-state": (True, bad_state)}


def chain(rng, batch, n_pipes, bad=None, at=0):
    # raw move lists never reach batches as declared inputs (streams turn them into strings first)
    pipes_, names = [], [k for k in batch if k != "position"]
    who = rng.randrange(n_pipes)
    for i in range(n_pipes):
        stateful = rng.random() < 0.6 or (bad is not None and i == who and bad[0])
        cls = StatefulPipe if stateful else Pipe
        ins = rng.sample(names, rng.randint(1, min(3, len(names))))
        p = cls(rng, i, stateful, ins, misdeed=bad[1] if bad is not None and i == who else None, at=at)
        pipes_.append(p)
        names.append(p.out)
    return pipes_, pipes_[who]


def keys_for(rng, n):
    return tuple(("s", rng.getrandbits(30), i) for i in range(n)), tuple((rng.getrandbits(60), i) for i in range(n))


def expected(pipes_, batch, states, n, rk):
    """Reference run of a well-behaved chain."""
    data, nxt = dict(batch), []
    for p, s in zip(pipes_, states):
        data[p.out] = p.compute(data, n, s["rows"] if p.stateful else 0)
        nxt.append(StatefulPipe.next_state(s, n, rk) if p.stateful else None)
    return data, nxt


def digest_batch(b):
    return {k: digest.of(v) for k, v in b.items()}


def good_case(ctx, rng, nprng):
    from dataset.core import PipelineStateComposer, PreparedPipelineResult
    n, size = rng.randint(1, 5), rng.choice([(3, 3), (4, 5), (5, 5)])
    batch = rand_batch(rng, nprng, n, size)
    ps, _ = chain(rng, batch, rng.randint(1, 4))
    comp = PipelineStateComposer(ps)
    states = []
    for p in ps:
        states.append(StatefulPipe.next_state({"rows": p.cfg["k"], "hist": [], "t": torch.zeros(2, dtype=torch.int64), "f": .5}, 0, ())
                      if p.stateful else None)
        if p.stateful:
            states[-1] = {"rows": p.cfg["k"], "hist": (), "t": torch.zeros(2, dtype=torch.int64), "f": 0.5}
            for k in p.kept:        # what the pipeline still holds of its initial state is not the state any more
                k["rows"] = -999
                k["t"].fill_(-9)
            p.kept.clear()
    blob, history = None, []
    for step in range(rng.randint(2, 5)):
        m = rng.randint(1, 5)
        b = rand_batch(rng, nprng, m, size)
        while set(b) != set(batch):
            b = {k: v for k, v in rand_batch(rng, nprng, m, size).items()}
            for k in set(batch) - set(b):
                b[k] = next(x for x in (rand_batch(rng, nprng, m, size) for _ in range(100)) if k in x)[k]
            for k in set(b) - set(batch):
                del b[k]
        sk, rk = keys_for(rng, m)
        want, nxt = expected(ps, b, states, m, rk)
        before, keys_before = digest_batch(b), list(b)
        res = comp.prepare_batch(b, sample_keys=sk, rng_keys=rk, current_blob=blob)
        ctx.check(digest_batch(b) == before and list(b) == keys_before, "compose:input-changed",
                  "preparing a batch changed the caller's batch")
        ctx.check(set(res.data) == set(want), "compose:fields", lambda: f"fields {sorted(res.data)} != {sorted(want)}")
        for k in want:
            ctx.check(digest.of(res.data[k]) == digest.of(want[k]), "compose:data", lambda: f"field {k} differs from the pipeline's result")
        for p, s in zip(ps, states):
            if p.stateful:
                ctx.check(same(s, p.saw[-1]), "compose:state-seen",
                          lambda: f"{p.pipeline_id} was shown {p.saw[-1]!r} instead of {s!r} at step {step}")
                for k in p.kept:        # a pipeline editing what it returned earlier must not reach the state
                    k["rows"] = -1
                    k["t"].fill_(77)
                p.kept.clear()
        # preparing the same batch twice is pure
        again = comp.prepare_batch(b, sample_keys=sk, rng_keys=rk, current_blob=blob)
        ctx.check(again.composite_blob == res.composite_blob and digest_batch(again.data) == digest_batch(res.data), "compose:impure",
                  "preparing the same batch from the same state gave another result")
        for p in ps:
            p.kept.clear()
        history.append((blob, b, sk, rk, res.composite_blob))
        ctx.count("good_batches")
        ctx.seen("good", len(ps), step, tuple(p.stateful for p in ps), m)
        if rng.random() < 0.7:
            blob, states = res.composite_blob, nxt
            states = [None if s is None else {**s, "hist": tuple(s["hist"])} for s in states]
    # replay from any retained state
    blob0, b, sk, rk, after = rng.choice(history)
    fresh_pipes = PipelineStateComposer(ps)
    r = fresh_pipes.prepare_batch(b, sample_keys=sk, rng_keys=rk, current_blob=blob0)
    ctx.check(r.composite_blob == after, "compose:replay", "replaying a batch from its recorded state gave another next state")
    # states of other chains are refused
    full = after
    others = [ps[:-1], list(ps) + [StatefulPipe(rng, 99, True, ["board_input"])]]
    if len(ps) > 1:
        others.append(list(reversed(ps)))
    q = copy.copy(ps[0])
    q.schema_version = ps[0].schema_version + 1
    others.append([q] + list(ps[1:]))
    q = copy.copy(ps[0])
    q.pipeline_id = "vm.other"
    others.append([q] + list(ps[1:]))
    for o in others:
        try:
            c = PipelineStateComposer(o)
        except REFUSED:
            continue
        try:
            c.prepare_batch(b, sample_keys=sk, rng_keys=rk, current_blob=full)
        except REFUSED:
            ctx.count("foreign_state_refused")
        else:
            ctx.fail("compose:foreign-state", f"state of {[p.pipeline_id for p in ps]} accepted by {[p.pipeline_id for p in o]} "
                                              f"(versions {[p.schema_version for p in o]})")
    for damaged in (full[:-1], full + b" ", b"[]", b"null", full.replace(b"vm.p0", b"vm.p9")):
        try:
            comp.prepare_batch(b, sample_keys=sk, rng_keys=rk, current_blob=damaged)
        except Exception:
            ctx.count("damaged_state_refused")
        else:
            ctx.fail("compose:damaged-state", f"damaged pipeline state {damaged[:60]!r} was accepted")
    for a, c in ((sk, rk[:-1]), (sk + (1,), rk), (sk[:-1], rk[:-1])):
        try:
            comp.prepare_batch(b, sample_keys=a, rng_keys=c, current_blob=full)
        except REFUSED:
            ctx.count("key_mismatch_refused")
        else:
            ctx.fail("compose:keys", f"{len(a)} sample keys and {len(c)} rng keys accepted for {len(sk)} rows")


def bad_case(ctx, rng, nprng, cover):
    from dataset.core import PipelineStateComposer
    n, size = rng.randint(1, 5), (4, 4)
    batch = rand_batch(rng, nprng, n, size)
    names = list(misdeeds(rng))
    name = names[cover % len(names)]
    bad = misdeeds(rng)[name]
    at = rng.choice([0, 0, 1, 2])
    ps, who = chain(rng, batch, rng.randint(1, 3), bad, at)
    comp = PipelineStateComposer(ps)
    blob = None
    for step in range(at + 1):
        b = copy.deepcopy(batch)
        sk, rk = keys_for(rng, n)
        names_before = list(b)
        try:
            res = comp.prepare_batch(b, sample_keys=sk, rng_keys=rk, current_blob=blob)
        except REFUSED as e:
            ctx.check(step == at, "misdeed:false-alarm", f"a well-behaved batch was refused: {type(e).__name__}: {e}")
            ctx.check(list(b) == names_before, "misdeed:batch-keys", "a refused pipeline changed the caller's batch dictionary")
            ctx.count(f"misdeed:{name}")
            ctx.seen("misdeed", name, at, len(ps), who.stateful, type(e).__name__)
        else:
            ctx.check(step < at, f"misdeed:{name}", lambda: f"pipeline {who.pipeline_id} ({'stateful' if who.stateful else 'stateless'}, "
                                                           f"{len(ps)} in chain, call {at}) got away with '{name}'")
            blob = res.composite_blob
    # late misdeed: signature changed between batches
    if name != "signature":
        ps, _ = chain(rng, batch, rng.randint(1, 3))
        comp = PipelineStateComposer(ps)
        sk, rk = keys_for(rng, n)
        r = comp.prepare_batch(copy.deepcopy(batch), sample_keys=sk, rng_keys=rk)
        rng.choice(ps).cfg["k"] += 1
        try:
            comp.prepare_batch(copy.deepcopy(batch), sample_keys=sk, rng_keys=rk, current_blob=r.composite_blob)
        except REFUSED:
            ctx.count("misdeed:late-signature")
        else:
            ctx.fail("misdeed:late-signature", "configuration changed between two batches and was not noticed")


def spec_case(ctx, rng, nprng):
    """Declared output shapes and kinds are enforced; correct ones are accepted."""
    from dataset.core import PipelineStateComposer
    n, size = rng.randint(2, 4), rng.choice([(4, 4), (3, 5)])
    batch = rand_batch(rng, nprng, n, size)
    h, w = size
    one = lambda *s: nprng.random((n,) + s).astype(np.float32)
    table = [
        # spec kwargs, good values, bad values
        (dict(spatial=(-2, -1), side=0), [one(2, h, w), one(2, h + 2, w + 1), torch.ones(n, 2, h, w)],
         [one(2, h - 1, w), one(2, h, w - 1), one(h,), np.ones((n, 0, h, w), np.float32)]),
        (dict(spatial=(0, 1)), [one(h, w), one(h, w, 3)], [one(h), one(h - 1, w, 9)]),
        (dict(spatial=(-2, -1)), [one(h, w)], [one(h, w - 1)]),
        (dict(side=0), [one(2), one(1, 3)], [one(), one(0)]),
        (dict(scope="batch_shared", collate="broadcast"), [np.tile(np.float32([1, 2]), (n, 1)), torch.ones(n, 3), np.full(n, 2.0)],
         [np.arange(n, dtype=np.float32), np.float32([[1, 2]] * (n - 1) + [[1, 3]]), np.ones((n + 1, 2), np.float32), np.float32(3)]),
        (dict(kinds=("i",)), [np.ones((n, 2), np.int64), torch.ones(n, dtype=torch.int32)],
         [np.ones((n, 2), np.uint8), one(2), torch.ones(n), torch.ones(n, dtype=torch.bool)]),
        (dict(collate="list", kinds=("O", "U")), [["a"] * n, tuple("b" * n)], [np.array(["a"] * n), ["a"] * (n - 1), ["a"] * (n + 1)]),
        (dict(transform="board_policy"), [one(h, w), one(h * w), one(h * w + 1)],
         [one(h * w + 2), one(h + 1, w + 1), one(h * w - 1), one(2, h, w)]),
        (dict(transform="flat_policy_with_pass"), [one(h * w + 1)], [one(h * w), one(h * w + 2), one(h, w)]),
    ]
    for kw, good, badv in table:
        for val, ok in [(v, True) for v in good] + [(v, False) for v in badv]:
            p = Pipe(rng, 0, False, ["board_input"])
            p.output_fields = (fs(p.out, **kw),)
            p.compute = lambda data, n_, s, v=val: v
            comp = PipelineStateComposer([p])
            sk, rk = keys_for(rng, n)
            try:
                r = comp.prepare_batch(copy.deepcopy(batch), sample_keys=sk, rng_keys=rk)
            except REFUSED as e:
                ctx.check(not ok, "shape:refused-valid", f"{kw}: value of shape {np.shape(val)} refused: {e}")
                ctx.count("shapes_refused")
            else:
                ctx.check(ok, "shape:accepted-invalid", lambda: f"{kw}: value of shape {np.shape(val)} "
                          f"kind {getattr(getattr(val, 'dtype', None), 'kind', getattr(val, 'dtype', type(val)))} accepted on board {size}")
                ctx.check(digest.of(r.data[p.out]) == digest.of(val), "shape:changed", "the produced value was altered")
                ctx.count("shapes_accepted")
    # optional output may be absent, input requirements are enforced
    p = Pipe(rng, 0, False, ["board_input"])
    p.output_fields = (fs(p.out, required=False),)
    p.process_batch = lambda data, **k: dict(data)
    sk, rk = keys_for(rng, n)
    r = PipelineStateComposer([p]).prepare_batch(copy.deepcopy(batch), sample_keys=sk, rng_keys=rk)
    ctx.check(set(r.data) == set(batch), "shape:optional", "an absent optional output was invented")
    for what in ("missing", "kind", "rows"):
        b = copy.deepcopy(batch)
        if what == "missing":
            del b["stm_input"]
        elif what == "kind":
            b["stm_input"] = b["stm_input"].astype(np.int64)
        else:
            b["stm_input"] = b["stm_input"][:-1]
        p = Pipe(rng, 0, False, [])
        p.input_fields = (fs("stm_input", kinds=("f",)),)
        ran = []
        orig = p.compute
        p.compute = lambda *a: ran.append(1) or orig(*a)
        try:
            PipelineStateComposer([p]).prepare_batch(b, sample_keys=sk, rng_keys=rk)
        except REFUSED:
            ctx.check(not ran, "shape:ran-on-invalid-input", f"pipeline ran although its input was invalid ({what})")
            ctx.count("inputs_refused")
        else:
            ctx.fail("shape:accepted-invalid-input", f"pipeline input with defect '{what}' was accepted")


def wiring_case(ctx, rng, nprng):
    """Chains whose declarations conflict are refused at construction."""
    from dataset.core import PipelineStateComposer
    mk = lambda i, outs=None, ins=("board_input",), st=True: _mk(rng, i, outs, ins, st)

    def _mk(rng, i, outs, ins, st):
        p = (StatefulPipe if st else Pipe)(rng, i, st, list(ins))
        if outs is not None:
            p.output_fields = tuple(fs(o, kinds=("f",)) for o in outs)
        return p

    def no(attr, value):
        p = mk(0, st=rng.random() < 0.5)
        setattr(p, attr, value)
        return [p]

    twin = mk(1)
    twin.pipeline_id = "vm.p0"
    unenc = mk(0)
    unenc.initial_state = lambda: {"x": bad_values(rng)}
    unsig = mk(0)
    unsig.signature_state = lambda: {"x": bad_values(rng)}
    bad = {
        "duplicate id": [mk(0), twin], "duplicate output": [mk(0, ["a", "a"])], "output collision": [mk(0, ["a"]), mk(1, ["a"])],
        "collision across": [mk(0, ["a", "b"]), mk(1, ["c"]), mk(2, ["b"])], "overwrites input": [mk(0, ["board_input"])],
        "no id": no("pipeline_id", ""), "no version": no("schema_version", None), "text version": no("schema_version", "1"),
        "unencodable state": [unenc], "unencodable signature": [unsig],
    }
    for what, ps in bad.items():
        try:
            PipelineStateComposer(ps)
        except REFUSED:
            ctx.count("wiring_refused")
        else:
            ctx.fail("wiring:accepted", f"conflicting pipelines accepted: {what}")
    PipelineStateComposer([mk(0, ["a"]), mk(1, ["b"], ins=("a",)), mk(2, [], st=False)])
    ctx.count("wiring_accepted")


# ---------------------------------------------------------------- streams
def stream_case(ctx, rng):
    """vm_counter through a real stream: state follows committed batches only."""
    for _ in range(20):
        scen = scenario.make(rng, ctx.tmp("s"), rng.choice(scenario.ALL_KINDS), total=rng.randint(20, 70), lz4=False)
        B = scenario.batch_for(rng, scen, cap=9)
        if B is not None and scen.kw.get("sample_rate", 1.0) >= 1.0:
            break
    else:
        raise Skip("no usable stream")
    start = rng.randrange(50)
    args = {"vm_counter": {"start": start}}
    rt = drive.runtime(B, seed=rng.randrange(1000))
    over = lambda: dict(prefetch_threads=rng.choice([0, 2]), prefetch_batches=rng.choice([1, 4])) if scen.kind == "batched" else {}
    base = [digest_batch(e.data) for e in drive.epoch(scen.build(rt))]
    ds = scen.build(rt, pipeline_args=args, **over())
    pl = drive.planner_of(ds)
    rows_before = {0: start}
    committed, planned, states = 0, [], [(roundtrip(pl.state_dict()), 0)]
    it = iter(ds)
    for _ in range(ctx.n(40, 80)):
        op = rng.choice(["next"] * 6 + ["commit"] * 3 + ["close", "load", "fresh"])
        pos = committed + len(planned)
        if op == "next":
            if pos == len(base):
                ctx.check(next(it, None) is None, "stream:length", f"more than {len(base)} batches")
                if committed == pos:
                    break
                continue
            env = next(it, None)
            ctx.check(env is not None, "stream:length", f"the stream ended at {pos} of {len(base)}")
            m = len(np.asarray(env.is_real))
            got = np.asarray(env.data["vm_counter"]).reshape(-1).tolist()
            want = list(range(rows_before[pos], rows_before[pos] + m))
            ctx.check(got == want, "stream:state", f"{scen.kind}: batch {pos} was prepared from state {got[:1]} instead of {want[:1]} "
                                                   f"(committed {committed}, planned {len(planned)})")
            rest = digest_batch({k: v for k, v in env.data.items() if k != "vm_counter"})
            ctx.check(rest == base[pos], "stream:fields", f"{scen.kind}: adding a pipeline changed other fields of batch {pos}")
            rows_before[pos + 1] = rows_before[pos] + m
            planned.append(env.token)
            ctx.count("stream_batches")
        elif op == "commit" and planned:
            k = rng.randint(1, len(planned))
            pl.commit_prepared(pl.prepare_commit(planned[:k]))
            planned = planned[k:]
            committed += k
            states.append((roundtrip(pl.state_dict()), committed))
        elif op == "close" and committed < len(base):
            it.close()
            pl.rollback_uncommitted()
            it, planned = iter(ds), []
            ctx.count("stream_rollbacks")
        elif op in ("load", "fresh") and committed < len(base):
            st, c = rng.choice(states)
            if c == len(base):
                continue
            it.close()
            ds = scen.build(rt, pipeline_args=args, **over())
            pl = drive.planner_of(ds)
            pl.load_state_dict(st)
            committed, planned, it = c, [], iter(ds)
            ctx.count("stream_restores")
        ctx.seen("stream", scen.kind, op, committed, len(planned))


def bad_stream_case(ctx, rng, i):
    for _ in range(20):
        scen = scenario.make(rng, ctx.tmp("b"), rng.choice(scenario.ALL_KINDS), total=rng.randint(20, 50), lz4=False)
        B = scenario.batch_for(rng, scen, cap=7)
        if B is not None and scen.kw.get("sample_rate", 1.0) >= 1.0:
            break
    else:
        raise Skip("no usable stream")
    rt = drive.runtime(B, seed=rng.randrange(1000))
    mode = pipes.BAD_MODES[i % len(pipes.BAD_MODES)]
    ref = [digest_batch(e.data) for e in drive.epoch(scen.build(rt))]
    after = rng.randrange(min(3, len(ref)))
    over = dict(prefetch_threads=2) if scen.kind == "batched" and rng.random() < 0.5 else {}
    ds = scen.build(rt, pipeline_args={"vm_bad": {"mode": mode, "after": after}}, **over)
    pl = drive.planner_of(ds)
    done, mark = 0, after + 1
    for attempt in range(2):
        got = done
        it = iter(ds)
        snap = digest.of(roundtrip(pl.state_dict()))
        try:
            while got < mark:
                env = next(it)
                ctx.check(got < after, f"stream:{mode}",
                          f"{scen.kind}: batch {got} was delivered although its pipeline broke the contract ({mode})")
                d1 = digest_batch({k: v for k, v in env.data.items() if k != "vm_bad"})
                ctx.check(d1 == ref[got], "stream:fields", "fields differ from the stream without pipelines")
                got += 1
                if got == done + 1 and rng.random() < 0.5:
                    pl.commit_batch(env.token)
                    done = got
                    snap = digest.of(roundtrip(pl.state_dict()))
        except REFUSED as e:
            ctx.check(got == after or (mode == "signature" and attempt), "stream:false-alarm",
                      f"well-behaved batch {got} refused ({mode} after {after}): {e}")
            ctx.count(f"stream-misdeed:{mode}")
            ctx.seen("badstream", mode, scen.kind, after, attempt)
        # a changed signature is itself part of the saved state
        ctx.check(mode == "signature" or digest.of(roundtrip(pl.state_dict())) == snap, "stream:state-moved", "a refused batch moved the checkpoint state")


def run(ctx):
    ctx.rule = ("contract monitor: scripted honest and misbehaving pipelines through the composer and through real streams; "
                "exact round-trip and canonicity of the state encoding")
    ctx.assumptions = ["pipelines misbehave one way at a time", "arrays a misbehaving pipeline edits in place before being refused are not restored"]
    for name, k in [("codec_values", 400), ("damaged_refused", 100), ("unsupported_refused", 100), ("good_batches", 30),
                    ("foreign_state_refused", 20), ("shapes_refused", 20), ("shapes_accepted", 20), ("wiring_refused", 10),
                    ("stream_batches", 30), ("stream_restores", 5), ("misdeed:mutate", 1)]:
        ctx.require(name, k)
    pipes.register()
    pipes.register_bad()
    from dataset.core import decode_canonical_pipeline_state as dec
    book = {"fwd": {}, "back": {}}
    if ctx.main:
        with ctx.case("noncanonical"):
            for blob in NONCANON:
                try:
                    v = dec(blob)
                except Exception:
                    ctx.count("noncanonical_refused")
                else:
                    ctx.fail("codec:non-canonical", f"{blob!r} decoded to {v!r}")
    for name, rng in ctx.cases("codec", 120, 2000, share=0.25):
        with ctx.case(name):
            codec_case(ctx, rng, book)
    for name, rng in ctx.cases("good", 160, 3000, share=0.2):
        with ctx.case(name):
            good_case(ctx, rng, ctx.nprng(name))
    for name, rng in ctx.cases("bad", 520, 8000, share=0.2):
        with ctx.case(name):
            bad_case(ctx, rng, ctx.nprng(name), int(name.split("#")[1]) // ctx.shards)
    for name, rng in ctx.cases("spec", 24, 300, share=0.1):
        with ctx.case(name):
            spec_case(ctx, rng, ctx.nprng(name))
    for name, rng in ctx.cases("wiring", 16, 100, share=0.05):
        with ctx.case(name):
            wiring_case(ctx, rng, ctx.nprng(name))
    for name, rng in ctx.cases("stream", 48, 900, share=0.3):
        with ctx.case(name):
            stream_case(ctx, rng)
    for name, rng in ctx.cases("badstream", 52, 700):
        with ctx.case(name):
            bad_stream_case(ctx, rng, int(name.split("#")[1]))
