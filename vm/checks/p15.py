"""Renju forbidden points against the rule text, under sanitizers and from many threads."""
import threading
from collections import Counter

import numpy as np

from vm import boot, drive, scenario
from vm.core import Violation
from vm.renju import DIRS, Position

THREES = ["_OO_", "_O_O_", "_OO__", "__OO_", "_O__O_", "O_OO", "_OOX", "XOO__", "__O_OO__", "_OOO_", "OO_O", "O_O_O"]
FOURS = ["OOO_", "XOOO_", "OO_O", "O_OO", "OOO_O", "O_OOO_O", "OO_OO_OO", "OOO_O_OOO", "O_OO_O", "XOOO_X", "OOOO", "OO_O_OO"]
OVERS = ["OOO_OO", "OOOO_O", "OO_OOO", "OOO_OOO", "O_OOOO", "OOOO_OOO"]
FIVES = ["OOOO_", "OO_OO", "O_OOO", "OOO_O", "_OOOO"]


def stamp(rng, cell, H, W, p, d, text, skip=None):
    """Write a line fragment so that it passes through p."""
    at = skip if skip is not None else rng.randrange(len(text))
    for i, ch in enumerate(text):
        q = (p[0] + d[0] * (i - at), p[1] + d[1] * (i - at))
        if 0 <= q[0] < W and 0 <= q[1] < H and q != p:
            cell[q] = {"O": 1, "X": 2, "_": 0}[ch]


def board(rng, H, W, style):
    cell = {}
    if style == "random":
        db, dw = rng.choice([.05, .12, .2, .35, .6, .9]), rng.choice([0, .02, .08, .2, .4])
        for y in range(H):
            for x in range(W):
                u = rng.random()
                if u < db + dw:
                    cell[x, y] = 1 if u < db else 2
    else:
        for _ in range(rng.randint(1, max(1, H * W // 60))):
            p = (rng.randrange(W), rng.randrange(H))
            for d in rng.sample(DIRS, rng.randint(2, 4)):
                s = rng.choice([1, -1])
                pool = {"threes": THREES, "fours": FOURS, "overs": OVERS + FIVES, "mixed": THREES + FOURS + OVERS + FIVES}[style]
                text = rng.choice(pool)
                blanks = [i for i, ch in enumerate(text) if ch == "_"]
                stamp(rng, cell, H, W, p, (d[0] * s, d[1] * s), text, rng.choice(blanks) if blanks and rng.random() < 0.8 else None)
            cell[p] = 0
            if rng.random() < 0.5:      # a second layer of shapes on the extension points
                d = rng.choice(DIRS)
                q = (p[0] + d[0] * rng.randint(-2, 2), p[1] + d[1] * rng.randint(-2, 2))
                for e in rng.sample(DIRS, 2):
                    if e != d:
                        stamp(rng, cell, H, W, q, e, rng.choice(THREES + FOURS + OVERS))
        for _ in range(rng.choice([0, 0, 2, 5])):
            cell[rng.randrange(W), rng.randrange(H)] = rng.choice([0, 1, 2])
    b = np.zeros((2, H, W), np.int8)
    for (x, y), v in cell.items():
        if v and 0 <= x < W and 0 <= y < H:
            b[v - 1, y, x] = 1
    return b


def expected(b):
    P = Position(b.shape[1], b.shape[2], b[0].tolist(), b[1].tolist())
    m = P.map()
    return np.array([[k is not None for k in row] for row in m], bool).reshape(b.shape[1:]), Counter(k for row in m for k in row if k), P


def native(b):
    from forbidden_point_cpp import transform_board_to_forbidden_point
    out = np.full(b.shape[1:], 77, np.int8)
    transform_board_to_forbidden_point(b, out)
    return out


def describe(b, want, got):
    y, x = [int(v[0]) for v in np.nonzero(np.asarray(want) != np.asarray(got))]
    rows = ["".join("X" if b[0, j, i] else "O" if b[1, j, i] else "." for i in range(b.shape[2])) for j in range(b.shape[1])]
    return f"({x},{y}) reported {int(got[y, x])}, rules say {int(want[y, x])} on board (X black)\n" + "\n".join(rows)


def compare(ctx, b, want, got, mech, tag=""):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape and set(np.unique(got)) <= {0, 1}, "renju:output", f"{tag}: shape {got.shape}, values {np.unique(got)[:6]}")
    ctx.check(np.array_equal(got.astype(bool), want), mech, lambda: tag + " " + describe(b, want, got))
    ctx.count("boards_compared")
    ctx.count("points_compared", want.size)


def rules_case(ctx, name, rng):
    from dataset.pipeline.forbidden_point import ForbiddenPointPipeline
    style = rng.choice(["random", "random", "threes", "threes", "fours", "overs", "mixed"])
    H, W = rng.choice([(15, 15), (rng.randint(5, 22), rng.randint(5, 22)), (rng.randint(1, 8), rng.randint(1, 22)), (22, 22)])
    n = 6
    boards = [board(rng, H, W, style) for _ in range(n)]
    wants = []
    with ctx.case(name, dict(style=style, H=H, W=W)):
        for b in boards:
            want, kinds, P = expected(b)
            wants.append(want)
            for k, v in kinds.items():
                ctx.count(f"forbidden_{k}", v)
            ctx.count("suppressed_threes", P.depth_hits)
            ctx.count("five_points", sum(1 for p, v in P.cell.items() if v == 0 and P.five(p)) if P.H * P.W < 300 else 0)
            src = b.copy()
            frozen = b.copy()
            frozen.flags.writeable = False
            got = native(frozen)
            compare(ctx, b, want, got, "renju:wrong-point", "native")
            ctx.check(np.array_equal(frozen, src), "renju:input-modified", "the board was modified")
            ctx.seen(b.tobytes(), H) if kinds else None
        # symmetric images
        b = boards[0]
        k = rng.randrange(8)
        img = np.rot90(b, k % 4, axes=(1, 2))
        wimg = np.rot90(wants[0], k % 4)
        if k >= 4:
            img, wimg = img[:, :, ::-1], wimg[:, ::-1]
        compare(ctx, np.ascontiguousarray(img), wimg, native(img), "renju:symmetry", f"image {k}")
        # pipeline: sides, layouts, single and batched
        for fixed in (False, True):
            pl = ForbiddenPointPipeline(fixed)
            stm = np.array([[rng.choice([-1.0, 1.0])] for _ in boards], np.float32)
            # without a fixed side channel 0 is the side to move
            planes = [b if fixed or s[0] < 0 else b[::-1] for b, s in zip(boards, stm)]
            kind = rng.choice(["int8", "uint8", "bool", "fortran", "strided"])
            x = np.stack(planes)
            x = {"int8": x, "uint8": x.astype(np.uint8), "bool": x.astype(bool), "fortran": np.asfortranarray(x),
                 "strided": np.repeat(x, 2, axis=3)[..., ::2]}[kind]
            x.flags.writeable = False
            stm.flags.writeable = False
            extra = np.arange(n)
            data = {"board_input": x, "stm_input": stm, "other": extra}
            keep = dict(data)
            res = pl.process_batch(data)
            ctx.check(set(data) == set(keep) and all(data[k] is keep[k] for k in keep), "renju:input-modified", "the batch dictionary changed")
            ctx.check(set(res) == set(keep) | {"forbidden_point"} and all(np.array_equal(res[k], keep[k]) for k in keep), "renju:fields",
                      f"returned fields {sorted(res)}")
            for i in range(n):
                compare(ctx, boards[i], wants[i], res["forbidden_point"][i], "renju:batch", f"batch fixed={fixed} {kind} stm={stm[i, 0]}")
            i = rng.randrange(n)
            one = pl.process({"board_input": x[i], "stm_input": stm[i], "other": 5})
            ctx.check(set(one) == {"board_input", "stm_input", "other", "forbidden_point"}, "renju:fields", f"{sorted(one)}")
            compare(ctx, boards[i], wants[i], one["forbidden_point"], "renju:single", f"single fixed={fixed} {kind}")
            ctx.count("pipeline_calls", 2)


def threads_case(ctx, name, rng):
    """Concurrent and interleaved calls do not influence each other."""
    boards = [board(rng, *rng.choice([(15, 15), (9, 13), (22, 22), (6, 6)]), rng.choice(["threes", "fours", "random"])) for _ in range(12)]
    wants = [expected(b)[0] for b in boards]
    order = [rng.sample(range(12), 12) for _ in range(6)]
    bad = []
    with ctx.case(name, dict(boards=12, threads=6)):
        go = threading.Barrier(6)

        def work(t):
            go.wait()
            for rep in range(4):
                for i in order[t]:
                    got = native(boards[i])
                    if not np.array_equal(got.astype(bool), wants[i]):
                        bad.append((t, i))
        ts = [threading.Thread(target=work, args=(t,)) for t in range(6)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        ctx.check(not bad, "renju:concurrent", f"{len(bad)} results differ under concurrent calls")
        ctx.count("concurrent_calls", 6 * 4 * 12)


def reject_case(ctx, name, rng):
    from forbidden_point_cpp import transform_board_to_forbidden_point as T
    H, W = rng.randint(1, 22), rng.randint(1, 22)
    b = np.zeros((2, H, W), np.int8)
    big = rng.randint(23, 40)
    bad = {
        "large-h": (np.zeros((2, big, W), np.int8), np.zeros((big, W), np.int8)),
        "large-w": (np.zeros((2, H, big), np.int8), np.zeros((H, big), np.int8)),
        "channels": (np.zeros((rng.choice([1, 3]), H, W), np.int8), np.zeros((H, W), np.int8)),
        "rank-2": (np.zeros((H, W), np.int8), np.zeros((H, W), np.int8)),
        "rank-4": (np.zeros((1, 2, H, W), np.int8), np.zeros((H, W), np.int8)),
        "out-shape": (b, np.zeros((H, W + 1), np.int8)), "out-shape2": (b, np.zeros((H + 1, W), np.int8)),
        "out-dtype": (b, np.zeros((H, W), np.int32)), "out-bool": (b, np.zeros((H, W), np.float32)),
        "out-rank": (b, np.zeros((1, H, W), np.int8)), "out-layout": (b, np.zeros((H, W * 2), np.int8)[:, ::2] if W > 1 else None),
    }
    ro = np.zeros((H, W), np.int8)
    ro.flags.writeable = False
    bad["out-readonly"] = (b, ro)
    for kind, (x, out) in bad.items():
        if out is None or (kind == "out-layout" and out.flags.c_contiguous):
            continue
        with ctx.case(f"{name}.{kind}", dict(kind=kind, H=H, W=W), sample=False):
            before = out.copy()
            try:
                T(x, out)
            except Exception:       # noqa: BLE001
                ctx.check(np.array_equal(out, before), "renju:late-rejection", f"{kind}: output written before the refusal")
                ctx.count("refused_calls")
                continue
            ctx.fail("renju:accepted-malformed", f"{kind}: accepted board {x.shape} output {out.shape} {out.dtype}")


def asan_run(boards):
    """Inside the sanitized interpreter: no torch, extension only."""
    from forbidden_point_cpp import transform_board_to_forbidden_point as T
    res = []
    for b in boards:
        out = np.full(b.shape[1:], 77, np.int8)
        try:
            T(b, out)
            res.append(out)
        except Exception as e:      # noqa: BLE001
            res.append(type(e).__name__)
    return res


def asan_case(ctx, name, rng):
    from vm import sanitized
    boards = []
    for k in range(ctx.n(220, 900)):
        H, W = rng.choice([(rng.randint(1, 22), rng.randint(1, 22)), (22, 22), (1, 22), (22, 1), (15, 15), (rng.randint(20, 36), rng.randint(1, 36))])
        b = board(rng, H, W, rng.choice(["random", "threes", "fours", "overs", "mixed"]))
        if rng.random() < 0.2:
            b[:] = 1        # everything black
            b[0][tuple(rng.randrange(v) for v in (H, W))] = 0
            b[1][:] = 0
        boards.append(b)
    with ctx.case(name, dict(boards=len(boards))):
        got = sanitized.call(ctx, "vm.checks.p15", "asan_run", boards)
        for b, g in zip(boards, got):
            if max(b.shape[1:]) > 22:
                ctx.check(isinstance(g, str), "renju:accepted-malformed", f"board {b.shape} beyond the supported size accepted")
                ctx.count("refused_calls")
            else:
                ctx.check(not isinstance(g, str), "renju:refused-valid", f"board {b.shape}: {g}")
                if b.shape[1] * b.shape[2] <= 240:
                    compare(ctx, b, expected(b)[0], g, "renju:wrong-point", "sanitized")
                ctx.count("sanitized_boards")
        ctx.seen("asan", len(boards))


def stream_case(ctx, name, rng, i):
    kind = ["processed", "raw", "simple", "batched", "packed", "composite"][i % 6]
    fixed = rng.random() < 0.5
    scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(8, 30)) if kind == "composite" else \
        scenario.make(rng, ctx.tmp(), kind, total=rng.randint(8, 30), fixed_side=fixed, options=False, fixed_board=False, pad_ok=False)
    fixed = scen.kw["fixed_side_input"]
    B = rng.choice([1, 3, 8])
    with ctx.case(name, dict(scen.desc, B=B)):
        ds = scen.build(drive.runtime(B, mode="test", seed=rng.randrange(1 << 30)), pipeline_args={"forbidden_point": {"fixed_side_input": fixed}})
        for env in ds:
            bi, stm = np.asarray(env.data["board_input"]), np.asarray(env.data["stm_input"])
            fp = np.asarray(env.data["forbidden_point"])
            ctx.check(len(fp) == len(bi), "renju:stream", f"{len(fp)} results for {len(bi)} rows")
            for r in range(len(bi)):
                b = bi[r][:2]
                if not fixed and not stm[r].reshape(-1)[0] < 0:
                    b = b[::-1]
                compare(ctx, b, expected(b)[0], fp[r], "renju:stream", f"{kind} row {r}")
                ctx.count("stream_rows")
        ctx.seen("stream", kind, fixed, B)


def run(ctx):
    ctx.rule = ("random and constructed boards of every supported size (crossing threes, fours, overlines, fives and second-level shapes) "
                "compared point by point with a solver written from the rule text; same calls under ASan+UBSan, from six threads, in every "
                "pipeline form and through delivered streams. Non-trivial: distinct boards with a forbidden point")
    ctx.assumptions = ["Renju rules as published by RIF: exact five wins over any simultaneous forbidden shape; recursion on the straight-four point",
                       "the board is the plane handed to the transform (padding added by fixed_board_size counts as board)"]
    ctx.require("boards_compared", 400)
    ctx.require("forbidden_overline", 100)
    ctx.require("forbidden_four", 100)
    ctx.require("forbidden_three", 50)
    ctx.require("suppressed_threes", 50)
    ctx.require("sanitized_boards", 100)
    ctx.require("concurrent_calls", 288)
    ctx.require("refused_calls", 20)
    ctx.require("stream_rows", 40)
    for name, rng in ctx.cases("asan", 4, 12, share=0.4):
        asan_case(ctx, name, rng)
    for name, rng in ctx.cases("reject", 8, 80, share=0.05):
        reject_case(ctx, name, rng)
    for name, rng in ctx.cases("threads", 4, 40, share=0.1):
        threads_case(ctx, name, rng)
    for name, rng in ctx.cases("stream", 24, 300, share=0.2):
        stream_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("rules", 160, 20000, share=0.4):
        rules_case(ctx, name, rng)
