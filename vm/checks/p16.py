"""Line codes: a consistent, injective, bounded function of the surrounding line."""
import itertools
import threading

import numpy as np

from vm import drive, scenario

WALL = -1
STEP = ((1, 0), (0, 1), (1, -1), (1, 1))     # (dx, dy) from the low to the high end of a line
LENGTHS = [1, 3, 5, 7, 9, 11, 13, 15, 17]


# ---------------------------------------------------------------- reference
def windows(b, L):
    """[4, H, W, L] cell states around every point: -1 wall, 0 empty, 1 self, 2 oppo."""
    _, H, W = b.shape
    half = L // 2
    pad = np.full((H + 2 * half, W + 2 * half), WALL, np.int64)
    pad[half:half + H, half:half + W] = np.where(b[0] != 0, 1, np.where(b[1] != 0, 2, 0))
    out = np.empty((4, H, W, L), np.int64)
    for d, (dx, dy) in enumerate(STEP):
        for k in range(L):
            o = k - half
            out[d, :, :, k] = pad[half + dy * o: half + dy * o + H, half + dx * o: half + dx * o + W]
    return out


def border(L, left, right):
    half = L // 2
    l, r = half - left, half - right
    if l == 0 and r == 0:
        return 0
    if r == 0:
        return 2 * 3 ** L + sum(3 ** (L - i) for i in range(1, l))
    hi = min(l, r - 1)
    lo = min(l, r)
    code = 3 ** L
    code += 2 * sum(3 ** i for i in range(lo)) + 2 * sum(3 ** (L - 1 - i) for i in range(hi))
    code += sum(3 ** i for i in range(lo, r - 1)) + sum(3 ** (L - 1 - i) for i in range(hi, l - 1))
    return code


_BT = {}


def codes_of(win, L):
    """Compressed code of every window (last axis)."""
    half = L // 2
    if L not in _BT:
        _BT[L] = np.array([[border(L, a, c) for c in range(half + 1)] for a in range(half + 1)], np.int64)
    on = win >= 0
    left = on[..., :half].sum(-1)
    right = on[..., half + 1:].sum(-1)
    w = np.array([3 ** (L - 1 - k) for k in range(L)], np.int64)
    return _BT[L][left, right] + (np.where(on, win, 0) * w).sum(-1)


def raw_of(win, L):
    bits = np.where(win < 0, 0, np.where(win == 1, 1, np.where(win == 2, 2, 3)))
    return (bits * (4 ** np.arange(L, dtype=np.int64))).sum(-1)


def total_of(L):
    half = L // 2
    m = 2 * 3 ** L + 2 * sum(3 ** i for i in range(half + 1)) + sum(3 ** i for i in range(half + 2, L))
    return m + 1


class Book:
    """Every (window -> code) pair ever observed, both directions."""

    def __init__(self):
        self.fwd, self.back = {}, {}

    def add(self, ctx, win, code, tag):
        flat = (win + 1).reshape(-1, win.shape[-1])
        keys = (flat * (4 ** np.arange(flat.shape[1], dtype=np.int64))).sum(-1)
        cs = np.asarray(code, np.int64).reshape(-1)
        uniq, first = np.unique(keys, return_index=True)
        for k, c in zip(uniq.tolist(), cs[first].tolist()):
            old = self.fwd.setdefault(k, c)
            ctx.check(old == c, "line:unstable", f"{tag}: one line has codes {old} and {c}")
            other = self.back.setdefault(c, k)
            ctx.check(other == k, "line:collision", f"{tag}: two different lines share code {c}")
        order = np.searchsorted(uniq, keys)
        ctx.check(np.array_equal(cs[first][order], cs), "line:unstable", f"{tag}: equal lines of one board get different codes")


def make_board(rng, H, W):
    nprng = np.random.default_rng(rng.randrange(1 << 60))
    den = rng.choice([0.0, 0.1, 0.4, 0.8, 1.0])
    c = np.where(nprng.random((H, W)) < den, nprng.integers(1, 3, (H, W)), 0)
    if rng.random() < 0.1:
        c[:] = rng.choice([1, 2])
    return np.stack([c == 1, c == 2]).astype(np.int8)


def shape_for(rng, L):
    top = 32 - L // 2
    return rng.choice([(15, 15), (top, top), (1, top), (top, 1), (1, 1), (rng.randint(1, top), rng.randint(1, top)), (20, 20), (7, 13)])


def check_codes(ctx, b, L, raw, got, tag, book=None):
    win = windows(b, L)
    want = raw_of(win, L) if raw else codes_of(win, L)
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, "line:shape", f"{tag}: {got.shape}")
    bad = np.argwhere(got != want)
    ctx.check(not len(bad), "line:wrong-code", lambda: f"{tag} L={L} raw={raw} board {b.shape[1:]}: direction,y,x {bad[0].tolist()} got {got[tuple(bad[0])]} "
              f"expected {want[tuple(bad[0])]} for line {win[tuple(bad[0])].tolist()}")
    limit = 4 ** L if raw else total_of(L)
    ctx.check(got.min() >= 0 and got.max() < limit, "line:range", f"{tag}: code {got.max()} with table size {limit}")
    if book is not None:
        book.add(ctx, win, got, tag)
    ctx.count("codes_compared", want.size)


def boards_case(ctx, name, rng):
    from dataset.pipeline.line_encoding import LineEncodingPipeline, get_total_num_encoding
    L = rng.choice(LENGTHS)
    raw = rng.random() < 0.35 and L <= 15
    H, W = shape_for(rng, L)
    n = rng.randint(1, 5)
    boards = [make_board(rng, H, W) for _ in range(n)]
    with ctx.case(name, dict(L=L, raw=raw, H=H, W=W, n=n)):
        book = Book()
        pl = LineEncodingPipeline(line_length=L, raw_code=raw)
        x = np.stack(boards)
        form = rng.choice(["int8", "uint8", "bool", "fortran", "strided", "values"])
        x = {"int8": x, "uint8": x.astype(np.uint8), "bool": x.astype(bool), "fortran": np.asfortranarray(x), "strided": np.repeat(x, 2, axis=3)[..., ::2],
             "values": x * np.int8(rng.choice([3, -1, 127]))}[form]
        x.flags.writeable = False
        keep = x.copy()
        stm = np.ones((n, 1), np.float32)
        data = {"board_input": x, "stm_input": stm}
        res = pl.process_batch(data)
        ctx.check(set(data) == {"board_input", "stm_input"} and set(res) == {"board_input", "stm_input", "line_encoding", "line_encoding_total_num"},
                  "line:fields", f"{sorted(res)} from {sorted(data)}")
        limit = 4 ** L if raw else total_of(L)
        ctx.check(np.asarray(res["line_encoding_total_num"]).shape == (n,) and set(np.asarray(res["line_encoding_total_num"]).tolist()) == {limit},
                  "line:table-size", f"batch reports {res['line_encoding_total_num']!r}, table has {limit}")
        if not raw:
            ctx.check(get_total_num_encoding(L) == limit, "line:table-size", f"get_total_num_encoding({L}) = {get_total_num_encoding(L)}, expected {limit}")
        for i, b in enumerate(boards):
            check_codes(ctx, b, L, raw, res["line_encoding"][i], f"batch {form} row {i}", book)
            one = pl.process({"board_input": x[i], "extra": 1})
            ctx.check(set(one) == {"board_input", "extra", "line_encoding", "line_encoding_total_num"} and one["line_encoding_total_num"] == limit,
                      "line:fields", f"{sorted(one)}")
            check_codes(ctx, b, L, raw, one["line_encoding"], f"single {form}", book)
        ctx.check(np.array_equal(x, keep), "line:input-modified", "the boards were modified")
        # mirror images carry the codes of the mirrored lines
        b = boards[0]
        m = np.ascontiguousarray(b[:, :, ::-1])
        got = pl.process({"board_input": m})["line_encoding"]
        check_codes(ctx, m, L, raw, got, "mirror", book)
        t = np.ascontiguousarray(b.transpose(0, 2, 1))
        got = pl.process({"board_input": t})["line_encoding"]
        check_codes(ctx, t, L, raw, got, "transpose", book)
        a = np.asarray(pl.process({"board_input": b})["line_encoding"])
        ctx.check(np.array_equal(got[0], a[1].T) and np.array_equal(got[1], a[0].T) and np.array_equal(got[3], a[3].T), "line:symmetry",
                  "transposing the board does not transpose the codes")
        ctx.seen(L, raw, H, W, form, boards[0].tobytes())
        ctx.count("boards")


def lines_case(ctx, name, rng):
    """Batched one-dimensional lines agree with a one-row board."""
    from dataset.pipeline.line_encoding import transform_lines_to_line_encoding
    L = rng.choice(LENGTHS)
    n, size = rng.randint(1, 40), rng.choice([1, 2, 32 - L // 2, rng.randint(1, 32 - L // 2)])
    nprng = np.random.default_rng(rng.randrange(1 << 60))
    lines = nprng.integers(0, 3, (n, size)).astype(np.int8)
    with ctx.case(name, dict(L=L, n=n, size=size)):
        src = lines.copy()
        got = transform_lines_to_line_encoding(lines, L)
        ctx.check(np.array_equal(lines, src), "line:input-modified", "lines modified")
        for i in range(n):
            b = np.stack([lines[i] == 1, lines[i] == 2]).astype(np.int8)[:, None, :]
            want = codes_of(windows(b, L), L)[0, 0]
            ctx.check(np.array_equal(got[i], want), "line:wrong-code", lambda: f"line {lines[i].tolist()} L={L}: {got[i].tolist()} expected {want.tolist()}")
            ctx.count("codes_compared", size)
        ctx.seen("lines", L, n, size)


def exhaustive_case(ctx, name, L):
    """Every line of one length: injective, bounded, and the usage table lists exactly the codes that occur."""
    from dataset.pipeline.line_encoding import get_encoding_usage_flags, get_total_num_encoding, transform_lines_to_line_encoding
    half = L // 2
    with ctx.case(name, dict(L=L)):
        total = get_total_num_encoding(L)
        seen = np.zeros(total, np.int64)
        for left in range(half + 1):
            for right in range(half + 1):
                m = left + 1 + right
                lines = np.indices((3,) * m).reshape(m, -1).T.astype(np.int8)
                code = transform_lines_to_line_encoding(np.ascontiguousarray(lines), L)[:, left]
                ctx.check(code.min() >= 0 and code.max() < total, "line:range", f"L={L}: code {code.max()} of {total}")
                np.add.at(seen, code, 1)
                ctx.count("exhaustive_lines", len(lines))
                ctx.seen("all", L, left, right)
        dup = np.nonzero(seen > 1)[0]
        ctx.check(not len(dup), "line:collision", lambda: f"L={L}: {len(dup)} codes shared by different lines, e.g. {dup[:5].tolist()}")
        flags = np.asarray(get_encoding_usage_flags(L))
        ctx.check(flags.shape == (total,) and np.array_equal(flags != 0, seen > 0), "line:usage",
                  lambda: f"L={L}: usage flags differ from occurring codes at {np.nonzero((flags != 0) != (seen > 0))[0][:5].tolist()}")


def reject_case(ctx, name, rng):
    from dataset.pipeline.line_encoding import LineEncodingPipeline, transform_lines_to_line_encoding
    from line_encoding_cpp import get_encoding_usage_flag, get_total_num_encoding, transform_board_to_line_encoding as T1, transform_boards_to_line_encoding as TB, \
        transform_lines_to_line_encoding as TL
    L = rng.choice(LENGTHS)
    top = 32 - L // 2
    H, W = rng.randint(1, top), rng.randint(1, top)
    big = rng.randint(top + 1, 45)
    z = np.zeros
    b, o = z((2, H, W), np.int8), z((4, H, W), np.int32)
    ro = o.copy()
    ro.flags.writeable = False
    bad = {
        "tall": lambda: T1(z((2, big, W), np.int8), z((4, big, W), np.int32), L), "wide": lambda: T1(z((2, H, big), np.int8), z((4, H, big), np.int32), L),
        "batch-tall": lambda: TB(z((2, 2, big, W), np.int8), z((2, 4, big, W), np.int32), L),
        "channels": lambda: T1(z((3, H, W), np.int8), o, L), "channels1": lambda: T1(z((1, H, W), np.int8), o, L), "rank": lambda: T1(z((H, W), np.int8), o, L),
        "out-small": lambda: T1(b, z((4, H, W - 1 if W > 1 else 2), np.int32), L), "out-dirs": lambda: T1(b, z((3, H, W), np.int32), L),
        "out-dtype": lambda: T1(b, z((4, H, W), np.int64), L), "out-readonly": lambda: T1(b, ro, L),
        "out-layout": lambda: T1(z((2, 4, 5), np.int8), np.asfortranarray(z((4, 4, 5), np.int32)), L),
        "batch-count": lambda: TB(z((3, 2, H, W), np.int8), z((2, 4, H, W), np.int32), L), "batch-channels": lambda: TB(z((3, 1, H, W), np.int8), z((3, 4, H, W), np.int32), L),
        "even": lambda: T1(b, o, rng.choice([2, 4, 10, 16])), "zero": lambda: T1(b, o, 0), "negative": lambda: T1(b, o, -3), "long": lambda: T1(z((2, 9, 9), np.int8), z((4, 9, 9), np.int32), rng.choice([19, 21, 33])),
        "raw-long": lambda: T1(z((2, 9, 9), np.int8), z((4, 9, 9), np.int32), 17, raw_code=True), "total-even": lambda: get_total_num_encoding(rng.choice([0, 2, 18, 19, -1])),
        "usage-size": lambda: get_encoding_usage_flag(z(10, np.int8), 7), "usage-dtype": lambda: get_encoding_usage_flag(z(total_of(7), np.int32), 7),
        "lines-long": lambda: TL(z((3, big), np.int8), z((3, big), np.int32), L), "lines-out": lambda: TL(z((3, 5), np.int8), z((2, 5), np.int32), 5),
        "lines-value": lambda: transform_lines_to_line_encoding(np.full((2, 5), rng.choice([3, -1, 100]), np.int8), 5),
        "lines-dtype": lambda: transform_lines_to_line_encoding(z((2, 5), np.int64), 5), "lines-rank": lambda: transform_lines_to_line_encoding(z(5, np.int8), 5),
        "cfg-even": lambda: LineEncodingPipeline(line_length=6), "cfg-zero": lambda: LineEncodingPipeline(line_length=0), "cfg-long": lambda: LineEncodingPipeline(line_length=19),
        "cfg-raw": lambda: LineEncodingPipeline(line_length=17, raw_code=True), "cfg-negative": lambda: LineEncodingPipeline(line_length=-3),
    }
    for kind, fn in bad.items():
        with ctx.case(f"{name}.{kind}", dict(kind=kind, L=L, H=H, W=W), sample=False):
            try:
                fn()
            except Exception:       # noqa: BLE001
                ctx.count("refused_calls")
                continue
            ctx.fail("line:accepted-malformed", f"{kind} (L={L}, H={H}, W={W}) was accepted")


def asan_run(jobs):
    """Sanitized interpreter: encoders are created here for the first time, from several threads."""
    from line_encoding_cpp import transform_board_to_line_encoding as T1, transform_boards_to_line_encoding as TB, transform_lines_to_line_encoding as TL
    res = [None] * len(jobs)

    def one(i):
        kind, x, L, raw = jobs[i]
        try:
            if kind == "board":
                out = np.full((4, *x.shape[1:]), -7, np.int32)
                T1(x, out, L, raw_code=raw)
            elif kind == "batch":
                out = np.full((len(x), 4, *x.shape[2:]), -7, np.int32)
                TB(x, out, L, raw_code=raw)
            else:
                out = np.full(x.shape, -7, np.int32)
                TL(x, out, L)
            res[i] = out
        except Exception as e:      # noqa: BLE001
            res[i] = type(e).__name__
    ts = [threading.Thread(target=lambda t=t: [one(i) for i in range(t, len(jobs), 8)]) for t in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def asan_case(ctx, name, rng):
    from vm import sanitized
    jobs = []
    for _ in range(ctx.n(160, 900)):
        L = rng.choice(LENGTHS)
        raw = rng.random() < 0.3 and L <= 15
        H, W = shape_for(rng, L) if rng.random() < 0.85 else (rng.randint(1, 40), rng.randint(28, 40))
        kind = rng.choice(["board", "board", "batch", "line"])
        if kind == "board":
            x = make_board(rng, H, W)
        elif kind == "batch":
            x = np.stack([make_board(rng, H, W) for _ in range(rng.randint(1, 3))])
        else:
            raw = False
            x = np.random.default_rng(rng.randrange(1 << 40)).integers(0, 3, (rng.randint(1, 9), W)).astype(np.int8)
        jobs.append((kind, x, L, raw))
    with ctx.case(name, dict(jobs=len(jobs))):
        res = sanitized.call(ctx, "vm.checks.p16", "asan_run", jobs)
        for (kind, x, L, raw), got in zip(jobs, res):
            size = max(x.shape[-2:]) if kind != "line" else x.shape[-1]
            if size > 32 - L // 2:
                ctx.check(isinstance(got, str), "line:accepted-malformed", f"{kind} of size {size} accepted for L={L}")
                ctx.count("refused_calls")
                continue
            ctx.check(not isinstance(got, str), "line:refused-valid", f"{kind} of size {size} refused for L={L}: {got}")
            if kind == "board":
                check_codes(ctx, x, L, raw, got, "sanitized board")
            elif kind == "batch":
                for r in range(len(x)):
                    check_codes(ctx, x[r], L, raw, got[r], "sanitized batch")
            else:
                for r in range(len(x)):
                    b = np.stack([x[r] == 1, x[r] == 2]).astype(np.int8)[:, None, :]
                    ctx.check(np.array_equal(got[r], codes_of(windows(b, L), L)[0, 0]), "line:wrong-code", f"sanitized line {x[r].tolist()} L={L}")
            ctx.count("sanitized_jobs")


def stream_case(ctx, name, rng, i):
    kind = ["processed", "raw", "simple", "batched", "sparse", "composite", "packed"][i % 7]
    scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(8, 40))
    L = rng.choice([3, 5, 11, 15])
    raw = rng.random() < 0.3
    B = rng.choice([1, 3, 8])
    with ctx.case(name, dict(scen.desc, L=L, raw=raw, B=B)):
        ds = scen.build(drive.runtime(B, mode="test", seed=rng.randrange(1 << 30)), pipeline_args={"line_encoding": {"line_length": L, "raw_code": raw}})
        for env in ds:
            bi, le = np.asarray(env.data["board_input"]), np.asarray(env.data["line_encoding"])
            ctx.check(len(bi) == len(le), "line:stream", f"{len(le)} encodings for {len(bi)} rows")
            tot = set(np.asarray(env.data["line_encoding_total_num"]).reshape(-1).tolist())
            ctx.check(tot == {4 ** L if raw else total_of(L)}, "line:table-size", f"stream reports {tot}")
            for r in range(len(bi)):
                check_codes(ctx, bi[r][:2], L, raw, le[r], f"{kind} stream row {r}")
                ctx.count("stream_rows")
        ctx.seen("stream", kind, L, raw)


def run(ctx):
    ctx.rule = ("random boards of every shape up to the limit and every line length, in every array form, single and batched, compared with windows cut "
                "from a padded board; every observed (line, code) pair must be consistent and one to one; all lines enumerated for short lengths; the same "
                "under ASan+UBSan with cold encoders and eight threads. Non-trivial: distinct boards, line sets and streams")
    ctx.require("codes_compared", 100000)
    ctx.require("exhaustive_lines", 5000)
    ctx.require("sanitized_jobs", 100)
    ctx.require("refused_calls", 60)
    ctx.require("stream_rows", 60)
    for name, rng in ctx.cases("asan", 4, 16, share=0.35):
        asan_case(ctx, name, rng)
    for name, rng in ctx.cases("exhaustive", 6, 7, share=0.3):
        exhaustive_case(ctx, name, LENGTHS[int(name.split("#")[1])])
    for name, rng in ctx.cases("reject", 8, 80, share=0.05):
        reject_case(ctx, name, rng)
    for name, rng in ctx.cases("stream", 28, 400, share=0.2):
        stream_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("lines", 80, 3000, share=0.15):
        lines_case(ctx, name, rng)
    for name, rng in ctx.cases("boards", 200, 20000, share=0.4):
        boards_case(ctx, name, rng)
