"""Workload generators and independent content oracles for every record format.

Records are generated as semantic values first; files are an encoding of those
values, and the expected decoded sample is computed from the values, never from
the bytes, so the code under test is the only decoder involved.
"""
import struct
from dataclasses import dataclass, field
from pathlib import Path

import numpy as np

# ---------------------------------------------------------------- symmetry
# order of the public enumeration: identity, rot90, rot180, rot270, flip x,
# flip y, transpose, anti-transpose; (x, y) -> new (x, y) with H rows, W columns
SYM_NAMES = ["id", "r90", "r180", "r270", "fx", "fy", "t", "at"]


def sym_move(s, x, y, H, W):
    return [
        (x, y), (y, W - 1 - x), (W - 1 - x, H - 1 - y), (H - 1 - y, x),
        (x, H - 1 - y), (W - 1 - x, y), (y, x), (H - 1 - y, W - 1 - x),
    ][s]


_PERM = {}


def sym_perm(s, H, W):
    """perm with new.flat = old.flat[perm]"""
    key = (s, H, W)
    if key not in _PERM:
        nh, nw = (W, H) if s in (1, 3, 6, 7) else (H, W)
        perm = np.zeros(nh * nw, dtype=np.int64)
        for y in range(H):
            for x in range(W):
                nx, ny = sym_move(s, x, y, H, W)
                perm[ny * nw + nx] = y * W + x
        _PERM[key] = (perm, nh, nw)
    return _PERM[key]


def sym_plane(s, a, H, W):
    a = np.asarray(a)
    perm, nh, nw = sym_perm(s, H, W)
    return a.reshape(*a.shape[:-2], H * W)[..., perm].reshape(*a.shape[:-2], nh, nw)


def allowed_syms(kind, H, W):
    if not kind:
        return [0]
    if kind is True or kind == "default":
        return list(range(8)) if H == W else [0, 2, 4, 5]
    return {"rotate": [0, 1, 2, 3], "flip": [0, 4, 5, 6, 7], "flip_diag_rotate180": [0, 2, 6, 7]}[kind]


# ---------------------------------------------------------------- samples
def flip_side(e):
    e = dict(e)
    e["board_input"] = e["board_input"][::-1]
    v = e["value_target"].copy()
    v[[0, 1]] = v[[1, 0]]
    e["value_target"] = v
    if "sparse_feature_input" in e:
        e["sparse_feature_input"] = e["sparse_feature_input"][[4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]]
    return e


def transform(e, s):
    """Symmetry s on an unpadded sample."""
    H, W = (int(v) for v in e["board_size"])
    e = dict(e)
    for k in ("board_input", "sparse_feature_input"):
        if k in e:
            e[k] = sym_plane(s, e[k], H, W)
    p = e["policy_target"]
    if p.ndim == 1:
        e["policy_target"] = np.concatenate([sym_plane(s, p[:-1].reshape(H, W), H, W).reshape(-1), p[-1:]])
    else:
        e["policy_target"] = sym_plane(s, p, H, W)
    if "_position" in e:
        e["_position"] = [m if m is None else sym_move(s, *m, H, W) for m in e["_position"]]
    return e


def pad(e, fixed):
    if fixed is None:
        return e
    ph, pw = fixed
    e = dict(e)
    for k in ("board_input", "sparse_feature_input"):
        if k in e:
            a = e[k]
            z = np.zeros((a.shape[0], ph, pw), a.dtype)
            z[:, : a.shape[1], : a.shape[2]] = a
            e[k] = z
    p = e["policy_target"]
    H, W = (int(v) for v in e["board_size"])
    if p.ndim == 1:
        z = np.zeros((ph, pw), p.dtype)
        z[:H, :W] = p[:-1].reshape(H, W)
        e["policy_target"] = np.concatenate([z.reshape(-1), p[-1:]])
    else:
        z = np.zeros((ph, pw), p.dtype)
        z[: p.shape[0], : p.shape[1]] = p
        e["policy_target"] = z
    return e


def move_str(m):
    return "pass" if m is None else chr(m[0] + ord("a")) + str(m[1] + 1)


def finish(e):
    """Position list -> published move fields."""
    e = dict(e)
    if "_position" in e:
        pos = e.pop("_position")
        e["position_string"] = "".join(move_str(m) for m in pos)
        last = pos[-1] if pos else None
        e["last_move"] = np.array(last if last is not None else (-1, -1))
    return e


@dataclass
class Rec:
    rid: int
    file: int
    order: int          # position inside the file (logical row / subrecord)
    e: dict             # expected sample before side flip / symmetry / padding


@dataclass
class Corpus:
    kind: str
    files: list
    recs: list
    rules: list = field(default_factory=lambda: ["freestyle", "standard", "renju"])
    sizes: list = field(default_factory=list)
    opts: dict = field(default_factory=dict)

    def expected(self, fixed_side=False, keep=None):
        out = []
        for r in self.recs:
            if keep is not None and not keep(r):
                continue
            e = r.e
            if fixed_side and float(np.asarray(e["stm_input"]).reshape(-1)[0]) > 0:
                e = flip_side(e)
            out.append((r, e))
        return out


def _board_key(board_size, board_input):
    return (tuple(int(v) for v in board_size), board_input.shape[-2:], np.ascontiguousarray(board_input, dtype=np.int16).tobytes())


class Index:
    """Content index: maps a delivered sample back to (record, symmetry)."""

    CORE = ("board_size", "board_input", "stm_input", "value_target", "policy_target",
            "rule_index", "ply", "raw_eval", "position_string", "last_move",
            "sparse_feature_input", "sparse_feature_dim")

    def __init__(self, corpora, symmetry=False, fixed_side=False, fixed_board=None, keep=None, drop_extra=False):
        self.table = {}
        self.recs = []
        self.drop_extra = drop_extra
        for c in corpora if isinstance(corpora, (list, tuple)) else [corpora]:
            for r, e in c.expected(fixed_side, keep):
                self.recs.append(r)
                H, W = (int(v) for v in e["board_size"])
                for s in allowed_syms(symmetry, H, W):
                    t = finish(pad(transform(e, s), fixed_board))
                    self.table.setdefault(_board_key(t["board_size"], t["board_input"]), []).append((r.rid, s, t))

    @property
    def rids(self):
        return [r.rid for r in self.recs]

    def lookup(self, sample):
        """sample: dict of per-row arrays -> (rid, sym) or (None, why)."""
        cand = self.table.get(_board_key(np.asarray(sample["board_size"]), np.asarray(sample["board_input"])))
        if not cand:
            return None, "board content matches no record"
        why = None
        for rid, s, t in cand:
            why = self.compare(t, sample)
            if why is None:
                return rid, s
        return None, f"record {cand[0][0]} ({SYM_NAMES[cand[0][1]]}): {why}"

    def compare(self, t, sample):
        for k in self.CORE:
            if k not in t:
                continue
            if k not in sample:
                if self.drop_extra and k in ("rule_index", "ply", "raw_eval", "position_string", "last_move"):
                    continue
                return f"field {k} missing"
            a, b = t[k], sample[k]
            if isinstance(a, str):
                if a != b:
                    return f"{k}: {b!r} != {a!r}"
                continue
            a = np.asarray(a)
            b = np.asarray(b)
            if a.ndim == 0:  # scalar fields may carry a trailing unit axis
                a, b = a.reshape(1), b.reshape(-1)
            if a.shape != b.shape:
                return f"{k}: shape {b.shape} != {a.shape}"
            if a.dtype.kind == "f":
                if not np.allclose(a, b, rtol=2e-5, atol=2e-6, equal_nan=True):
                    return f"{k}: values differ by {np.nanmax(np.abs(a - b))}"
            elif not np.array_equal(a, b):
                return f"{k}: values differ"
        return None


def rows_of(data):
    """Split a delivered (collated) batch into per-row dicts of numpy values."""
    import torch
    keys = list(data.keys())
    n = len(data["board_input"])
    cols = {}
    for k in keys:
        v = data[k]
        if isinstance(v, torch.Tensor):
            v = v.detach().cpu().numpy()
        cols[k] = v
    return [{k: cols[k][i] for k in keys} for i in range(n)]


# ---------------------------------------------------------------- semantic content
class Maker:
    def __init__(self, rng, size_pool=((9, 9),)):
        self.rng = rng
        self.np = np.random.default_rng(rng.getrandbits(63))
        self.used = set()
        self.next_rid = 0
        self.size_pool = list(size_pool)

    def rid(self):
        self.next_rid += 1
        return self.next_rid - 1

    def board(self, H, W, stones=None):
        for _ in range(1000):
            n = self.rng.randint(6, min(40, H * W - 2)) if stones is None else stones
            cells = self.np.permutation(H * W)[:n]
            b = np.zeros((2, H * W), np.int8)
            half = (n + 1) // 2
            b[0, cells[:half]] = 1
            b[1, cells[half:]] = 1
            b = b.reshape(2, H, W)
            if self.claim(b):
                return b
        raise RuntimeError("cannot make a unique board")

    def claim(self, b):
        """Unique up to symmetry, swapped sides, and asymmetric itself."""
        H, W = b.shape[-2:]
        syms = range(8) if H == W else (0, 2, 4, 5)
        imgs = set()
        for x in (b, b[::-1]):
            for s in syms:
                t = sym_plane(s, x, H, W)
                imgs.add((t.shape, t.tobytes()))
        # the 8 images of each side must be pairwise distinct
        if len(imgs) != 2 * len(list(syms)) or imgs & self.used:
            return False
        self.used |= imgs
        return True

    def value(self):
        a = self.np.integers(0, 512, 3).astype(np.float32) / 512
        return a

    def policy_counts(self, n, high=60):
        p = np.zeros(n, np.int16)
        k = self.rng.randint(1, min(n, 12))
        idx = self.np.permutation(n)[:k]
        p[idx] = self.np.integers(1, high, k)
        return p


def make_processed(mk, d, n_rows_per_file, sizes, *, with_gf=True, with_pt=True, pass_col=True, stored=None,
                   channels=2, prefix="p", bf_dtype=np.int8, vt_cols=3, gf_cols=1):
    d = Path(d)
    files, recs = [], []
    for fi, n in enumerate(n_rows_per_file):
        H, W = sizes[fi % len(sizes)]
        bf = np.zeros((n, channels, H, W), bf_dtype)
        gf = np.zeros((n, gf_cols), np.float32)
        vt = np.zeros((n, vt_cols), np.float32)
        pt = np.zeros((n, H * W + (1 if pass_col else 0)), np.float32)
        rr = []
        for i in range(n):
            b = mk.board(H, W)
            bf[i, :2] = b
            if channels > 2:
                bf[i, 2:] = mk.np.integers(0, 2, (channels - 2, H, W))
            gf[i] = mk.np.integers(-3, 4, gf_cols)
            gf[i, 0] = mk.rng.choice([-1.0, 1.0])
            vt[i] = mk.np.integers(0, 512, vt_cols) / 512.0
            pt[i] = mk.policy_counts(pt.shape[1]) / 64.0
            rr.append(i)
        arrays = {"bf": bf, "vt": vt}
        if with_gf:
            arrays["gf"] = gf
        if with_pt:
            arrays["pt"] = pt
        path = d / f"{prefix}{fi:02d}.npz"
        use_stored = mk.rng.random() < 0.5 if stored is None else stored
        (np.savez if use_stored else np.savez_compressed)(path, **arrays)
        files.append(str(path))
        for i in rr:
            e = {
                "board_size": np.array([H, W]),
                "board_input": bf[i].astype(np.int8),
                "stm_input": gf[i].astype(np.float32) if with_gf else np.zeros(1, np.float32),
                "value_target": vt[i].copy(),
                "policy_target": pt[i].copy() if with_pt else None,
            }
            e["_raw"] = {k: v[i] for k, v in arrays.items()}
            recs.append(Rec(mk.rid(), fi, i, e))
    c = Corpus("processed", files, recs, sizes=sorted({tuple(s) for s in sizes}))
    return c


def resolve_processed(c, has_pass=False, bc=None, sc=None, vc=None):
    """Expected samples of a processed corpus under dataset options."""
    out = []
    for r in c.recs:
        raw = r.e["_raw"]
        H, W = (int(v) for v in r.e["board_size"])
        b = raw["bf"].astype(np.int8)
        if bc is not None:
            b = b[bc]
        g = raw["gf"].astype(np.float32) if "gf" in raw else np.zeros(1, np.float32)
        if sc is not None:
            g = g[[sc]]
        v = raw["vt"].astype(np.float32)
        if vc is not None:
            v = v[vc]
        if "pt" in raw:
            p = raw["pt"].astype(np.float32)
            if not has_pass:
                p = p[: H * W].reshape(H, W)
        else:
            p = np.zeros(H * W + 1, np.float32) if has_pass else np.zeros((H, W), np.float32)
        out.append(Rec(r.rid, r.file, r.order, {
            "board_size": np.array([H, W]), "board_input": b, "stm_input": g,
            "value_target": v, "policy_target": p}))
    return Corpus("processed", c.files, out, sizes=c.sizes)


def make_raw(mk, d, n_rows_per_file, sizes, *, global_cols=19, has_pass=False, td_level=0, prefix="r", compressed=True):
    d = Path(d)
    files, recs = [], []
    for fi, n in enumerate(n_rows_per_file):
        H, W = sizes[fi % len(sizes)]
        assert H == W
        cells = H * W
        C = 5
        bits = np.zeros((n, C, cells), np.uint8)
        gi = mk.np.integers(-2, 3, (n, global_cols)).astype(np.float32)
        gt = (mk.np.integers(0, 512, (n, 24)) / 512.0).astype(np.float32)
        pol = np.zeros((n, 2, cells + 1), np.int16)
        rr = []
        for i in range(n):
            b = mk.board(H, W)
            bits[i, 0] = 1
            bits[i, 1:3] = b.reshape(2, -1)
            bits[i, 3:] = mk.np.integers(0, 2, (C - 3, cells))
            stm = mk.rng.choice([-1.0, 1.0])
            if global_cols == 1:
                gi[i, 0] = stm
            else:
                gi[i, 5] = stm * mk.rng.choice([0.5, 1.0, 2.0])
            pol[i, 0] = mk.policy_counts(cells + 1)
            pol[i, 0, mk.rng.randrange(cells)] += 3
            pol[i, 1] = mk.policy_counts(cells + 1)
            ncol = cells + (1 if has_pass else 0)
            p = pol[i, 0, :ncol].astype(np.float64)
            p = (p / p.sum()).astype(np.float32)
            e = {
                "board_size": np.array([H, W]),
                "board_input": b,
                "stm_input": np.array([stm], np.float32),
                "value_target": gt[i, td_level * 4: td_level * 4 + 3].copy(),
                "policy_target": p if has_pass else p.reshape(H, W),
            }
            rr.append(e)
        path = d / f"{prefix}{fi:02d}.npz"
        packed = np.packbits(bits, axis=2, bitorder="big")
        (np.savez_compressed if compressed else np.savez)(
            path, binaryInputNCHWPacked=packed, globalInputNC=gi, globalTargetsNC=gt, policyTargetsNCMove=pol)
        files.append(str(path))
        for i, e in enumerate(rr):
            recs.append(Rec(mk.rid(), fi, i, e))
    return Corpus("raw", files, recs, sizes=sorted({tuple(s) for s in sizes}))


def make_sparse(mk, d, n_rows_per_file, sizes, prefix="s", compressed=True):
    d = Path(d)
    dims = np.array([2380] * 8 + [60, 60, 70, 70], np.int64)[:12].astype(np.uint32)
    files, recs = [], []
    for fi, n in enumerate(n_rows_per_file):
        H, W = sizes[fi % len(sizes)]
        cells = H * W
        bits = np.zeros((n, 3, cells), np.uint8)
        gi = np.zeros((n, 2), np.float32)
        gt = (mk.np.integers(0, 512, (n, 5)) / 512.0).astype(np.float32)
        pol = np.zeros((n, 1, cells), np.int16)
        u8 = mk.np.integers(0, 256, (n, 10, cells)).astype(np.uint8)
        u16 = mk.np.integers(0, 2380, (n, 2, cells)).astype(np.uint16)
        rr = []
        for i in range(n):
            b = mk.board(H, W)
            bits[i, 0] = 1
            bits[i, 1:3] = b.reshape(2, -1)
            stm = mk.rng.choice([-1.0, 1.0])
            gi[i] = [stm, mk.rng.random()]
            pol[i, 0] = mk.policy_counts(cells)
            p = pol[i, 0].astype(np.float64)
            rr.append({
                "board_size": np.array([H, W]), "board_input": b,
                "stm_input": np.array([stm], np.float32),
                "value_target": gt[i, :3].copy(),
                "policy_target": (p / p.sum()).astype(np.float32).reshape(H, W),
                "sparse_feature_input": np.concatenate([u8[i].astype(np.int32), u16[i].astype(np.int32)]).reshape(12, H, W),
                "sparse_feature_dim": dims.astype(np.int32),
            })
        path = d / f"{prefix}{fi:02d}.npz"
        (np.savez_compressed if compressed else np.savez)(
            path, binaryInputNCHWPacked=np.packbits(bits, axis=2, bitorder="big"), globalInputNC=gi,
            globalTargetsNC=gt, policyTargetsNCHW=pol, sparseInputNCHWU8=u8, sparseInputNCHWU16=u16,
            sparseInputDim=dims)
        files.append(str(path))
        for i, e in enumerate(rr):
            recs.append(Rec(mk.rid(), fi, i, e))
    return Corpus("sparse", files, recs, sizes=sorted({tuple(s) for s in sizes}))


RULE_CODE = {"freestyle": 0, "standard": 1, "renju": 4}
RULE_INDEX = {"freestyle": 0, "standard": 1, "renju": 2}


def _write_maybe_lz4(path, blob, mk, lz4_on):
    if lz4_on:
        import lz4.frame
        # several blocks so that readers see short reads
        blob = lz4.frame.compress(blob, block_size=lz4.frame.BLOCKSIZE_MAX64KB)
    Path(path).write_bytes(blob)


def make_simple(mk, d, n_per_file, sizes, *, lz4=False, rules=("freestyle", "standard", "renju"), prefix="b", odd=()):
    d = Path(d)
    files, recs = [], []
    for fi, n in enumerate(n_per_file):
        blob = b""
        for i in range(n):
            S = mk.rng.choice(sizes)[0]
            rule = mk.rng.choice(rules)
            while True:
                ply = mk.rng.randint(6, min(S * S - 1, 60))
                cells = [int(v) for v in mk.np.permutation(S * S)[: ply + 1]]
                pos = [(c % S, c // S) for c in cells[:ply]]
                stm = -1.0 if ply % 2 == 0 else 1.0
                b = np.zeros((2, S, S), np.int8)
                for j, (x, y) in enumerate(pos):
                    b[0 if (j % 2 == 0) == (stm < 0) else 1, y, x] = 1
                if mk.claim(b):
                    break
            mv = (cells[ply] % S, cells[ply] // S)
            res = mk.rng.randint(0, 2)
            h1 = res | (ply << 2) | (S << 11)
            h2 = RULE_CODE[rule] | (((mv[0] << 5) | mv[1]) << 3)
            blob += struct.pack("<HH", h1, h2) + b"".join(struct.pack("<H", (x << 5) | y) for x, y in pos)
            p = np.zeros((S, S), np.float32)
            p[mv[1], mv[0]] = 1
            e = {
                "board_size": np.array([S, S]), "board_input": b,
                "stm_input": np.array([stm], np.float32),
                "value_target": np.array([res == 2, res == 0, res == 1], np.float32),
                "policy_target": p, "rule_index": np.array(RULE_INDEX[rule]), "ply": np.array(ply),
                "_position": pos, "_rule": rule,
            }
            recs.append(Rec(mk.rid(), fi, i, e))
        path = d / f"{prefix}{fi:02d}.{'bin.lz4' if lz4 else 'bin'}"
        _write_maybe_lz4(path, blob, mk, lz4)
        files.append(str(path))
    return Corpus("simple", files, recs, sizes=sorted({tuple(s) for s in sizes}), rules=list(rules))


def winrate(ev, scale=200.0, mate=29000, soft=False):
    if not soft:
        if ev >= mate:
            return 1.0
        if ev <= -mate:
            return 0.0
    return 1.0 / (1.0 + np.exp(-np.float64(ev) / scale))


def make_packed(mk, d, n_games_per_file, sizes, *, lz4=False, rules=("freestyle", "standard", "renju"), prefix="g",
                td_lambda=0.0, dynamic=True, temperature=0.05, use_mate=False, has_pass=False, passes=False, wr=None):
    """Games whose every move group is one training record."""
    wr = wr or {}
    d = Path(d)
    files, recs = [], []
    for fi, n in enumerate(n_games_per_file):
        blob = b""
        order = 0
        for _ in range(n):
            S = mk.rng.choice(sizes)[0]
            rule = mk.rng.choice(rules)
            while True:
                init = mk.rng.randint(5, 9)
                groups = mk.rng.randint(1, 8)
                cells = [int(v) for v in mk.np.permutation(S * S)]
                pos = [(c % S, c // S) for c in cells[:init]]
                if passes and mk.rng.random() < 0.4:
                    pos[mk.rng.randrange(init)] = None
                # init positions never hold pass on disk in this format
                pos = [p if p is not None else (cells[init + groups] % S, cells[init + groups] // S) for p in pos]
                avail = [(c % S, c // S) for c in cells[init + groups + 1:]]
                line = [(c % S, c // S) for c in cells[init: init + groups]]
                result = mk.rng.randint(0, 2)
                black = np.zeros((2, S, S), np.int8)
                for j, (x, y) in enumerate(pos):
                    black[j % 2, y, x] = 1
                cur = list(pos)
                out, body, ok = [], [], True
                res = result
                for g in range(groups):
                    best = line[g]
                    if passes and mk.rng.random() < 0.15:
                        best = None
                    npv = mk.rng.choice([1, 1, 2, 3, 5])
                    others = mk.rng.sample(avail, min(npv - 1, len(avail)))
                    if passes and has_pass and len(others) and best is not None and mk.rng.random() < 0.2:
                        others[-1] = None
                    mvs = [best, *others]
                    evs = []
                    for m in mvs:
                        r = mk.rng.random()
                        if r < 0.08:
                            evs.append(None)
                        elif r < 0.16:
                            evs.append(mk.rng.choice([29500, -29500, 29000, -29000, 32767, -32768]))
                        else:
                            evs.append(mk.rng.randint(-900, 900))
                    if evs[0] is not None:
                        rest = sorted([e for e in evs if e is not None], reverse=True)
                        evs = [rest.pop(0) if e is not None else None for e in evs]
                    stm = -1.0 if (len(cur) % 2 == 0) else 1.0
                    b = (black if stm < 0 else black[::-1]).copy()
                    if not mk.claim(b):
                        ok = False
                        break
                    hard = np.array([res == 2, res == 0, res == 1], np.float64)
                    if td_lambda == 0 or evs[0] is None:
                        vt = hard
                    else:
                        w, l = winrate(evs[0], **wr), winrate(-evs[0], **wr)
                        soft = np.array([w, l, max(1 - w - l, 0.0)])
                        lam = td_lambda * ((1 - min(max(g / max(groups - 1, 1), 0), 1)) if dynamic else 1)
                        vt = hard * (1 - lam) + soft * lam
                    p = np.zeros(S * S + (1 if has_pass else 0), np.float64)
                    mate = wr.get("mate", 29000)
                    single = (len(mvs) == 1 or temperature == 0 or any(e is None for e in evs)
                              or (not use_mate and evs[0] >= mate))
                    dist = [1.0] if single else None
                    if dist is None:
                        ws = np.array([winrate(e, **wr) for e in evs])
                        z = np.exp((ws - ws.max()) / temperature)
                        dist = z / z.sum()
                    for m, q in zip(mvs, dist):
                        if m is None:
                            if has_pass:
                                p[-1] = q
                        else:
                            p[m[1] * S + m[0]] = q
                    e = {
                        "board_size": np.array([S, S]), "board_input": b,
                        "stm_input": np.array([stm], np.float32),
                        "value_target": vt.astype(np.float32),
                        "policy_target": (p if has_pass else p.reshape(S, S)).astype(np.float32),
                        "rule_index": np.array(RULE_INDEX[rule]), "ply": np.array(len(cur)),
                        "raw_eval": np.array(np.nan if evs[0] is None else evs[0], np.float32),
                        "_position": list(cur), "_rule": rule,
                    }
                    out.append(e)
                    for j, (m, ev) in enumerate(zip(mvs, evs)):
                        w0 = (1 if j == 0 else 0) | ((1 if j == len(mvs) - 1 else 0) << 1)
                        w0 |= (1 if ev is None else 0) << 2
                        w0 |= (1 if m is None else 0) << 3
                        w0 |= (0 if m is None else ((m[0] << 5) | m[1])) << 6
                        body.append(struct.pack("<Hh", w0, 0 if ev is None else ev))
                    res = 2 - res
                    cur.append(best)
                    if best is not None:
                        black[0 if stm < 0 else 1, best[1], best[0]] = 1
                if ok:
                    break
            w1 = S | (RULE_CODE[rule] << 5) | (result << 8) | (min(init + groups, 1023) << 12) | (init << 22)
            w2 = (mk.rng.randrange(1 << 14)) | (len(body) << 14)
            blob += struct.pack("<II", w1, w2)
            blob += b"".join(struct.pack("<H", (x << 5) | y) for x, y in pos) + b"".join(body)
            for e in out:
                recs.append(Rec(mk.rid(), fi, order, e))
                order += 1
        path = d / f"{prefix}{fi:02d}.{'binpack.lz4' if lz4 else 'binpack'}"
        _write_maybe_lz4(path, blob, mk, lz4)
        files.append(str(path))
    return Corpus("packed", files, recs, sizes=sorted({tuple(s) for s in sizes}), rules=list(rules))
