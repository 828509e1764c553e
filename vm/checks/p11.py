"""Binary game formats: exact decoding, damage always reported."""
import shutil
import struct
from collections import Counter
from pathlib import Path

import numpy as np

from vm import drive, gen, scenario
from vm.core import Violation

RULES = ["freestyle", "standard", "renju"]


def pack_lz4(blob, rng, how=None):
    import lz4.frame as L
    how = how or rng.choice(["plain", "linked", "checksum", "frames"])
    if how == "frames":
        k = rng.randint(0, len(blob))
        return L.compress(blob[:k]) + L.compress(blob[k:])
    return L.compress(blob, block_size=L.BLOCKSIZE_MAX64KB, block_linked=how == "linked",
                      content_checksum=how == "checksum", store_size=rng.random() < 0.5,
                      compression_level=rng.choice([0, 3, 9]))


def winrate_args(rng):
    if rng.random() < 0.5:
        return {}, {}
    a = dict(scaling_factor=rng.choice([50, 137.5, 200, 400]), eval_mate_threshold=rng.choice([500, 20000, 29000]),
             soft_mate_winrate=rng.random() < 0.4)
    return a, dict(scale=a["scaling_factor"], mate=a["eval_mate_threshold"], soft=a["soft_mate_winrate"])


def deliver(ds, mode):
    for env in ds:
        yield env
        if mode == "train":
            ds._partitioned_stream.commit_batch(env.token)


def exact_case(ctx, name, rng, i):
    kind = ["simple", "packed"][i % 2]
    mk = gen.Maker(rng)
    pool = [(s, s) for s in range(6, 23)]
    sizes = rng.sample(pool, rng.randint(1, 4))
    nfiles = rng.randint(1, 3)
    d = ctx.tmp()
    fs, lz = rng.random() < 0.5, rng.random() < 0.4
    kw = dict(fixed_side_input=fs, boardsizes=sizes, shuffle=rng.random() < 0.5, drop_extra=rng.random() < 0.25,
              sequential_active_streams=rng.choice([1, 2, 8]), sequential_read_quantum=rng.choice([1, 3, 256]))
    fb = None
    if rng.random() < 0.3:
        m = max(s[0] for s in sizes)
        fb = kw["fixed_board_size"] = (m + rng.randint(0, 2), m + rng.randint(0, 2))
    sym = rng.choice([False, False, True, "rotate"])
    kw["apply_symmetry"] = sym
    opt = {}
    if kind == "simple":
        corpus = gen.make_simple(mk, d, [rng.randint(1, 20) for _ in range(nfiles)], sizes)
    else:
        wa, wr = winrate_args(rng)
        opt = dict(td_lambda=rng.choice([0.0, 0.25, 0.5, 1.0]), dynamic=rng.random() < 0.5, temperature=rng.choice([0.0, 0.02, 0.3, 2.0]),
                   use_mate=rng.random() < 0.5, has_pass=rng.random() < 0.5, passes=rng.random() < 0.6, wr=wr)
        corpus = gen.make_packed(mk, d, [rng.randint(1, 5) for _ in range(nfiles)], sizes, **opt)
        kw.update(value_td_lambda=opt["td_lambda"], dynamic_value_lambda=opt["dynamic"], multipv_temperature=opt["temperature"],
                  use_mate_multipv=opt["use_mate"], has_pass_move=opt["has_pass"])
        if wa:
            kw["winrate_model_args"] = wa
    keep = None
    if rng.random() < 0.3:
        rules = rng.sample(RULES, rng.randint(1, 2))
        kw["rules"] = rules
        keep = lambda r: r.e["_rule"] in rules          # noqa: E731
    if lz:
        new = []
        for p in corpus.files:
            q = p + ".lz4"
            Path(q).write_bytes(pack_lz4(Path(p).read_bytes(), rng))
            Path(p).unlink()
            new.append(q)
        corpus.files[:] = new
    want = [r for r in corpus.recs if keep is None or keep(r)]
    if not want:
        return
    B = rng.choice([1, 2, 5, 8])
    with ctx.case(name, dict(kind=kind, sizes=sizes, lz4=lz, records=len(want), B=B, kw=kw, opt=opt)):
        idx = gen.Index([corpus], symmetry=sym, fixed_side=fs, fixed_board=fb, keep=keep, drop_extra=kw["drop_extra"])
        ds = drive.build(scenario.TYPE[kind], [str(p) for p in corpus.files], drive.runtime(B, seed=rng.randrange(1 << 30), mode="test"), **kw)
        got = Counter()
        for env in ds:
            for rid, s, real in drive.identify(ctx, env, idx, mech="decode"):
                got[rid] += real
                ctx.count("records_decoded", int(real))
        ctx.check(got == Counter(r.rid for r in want), "decode:coverage",
                  lambda: f"decoded {sum(got.values())} of {len(want)} records; wrong {[k for k in got if got[k] != 1][:5]}")
        ctx.seen(kind, tuple(sizes), lz, str(kw), str(opt))


# ------------------------------------------------------------- corner positions
def simple_blob(S, rule, res, pos, mv):
    h1 = res | (len(pos) << 2) | (S << 11)
    h2 = gen.RULE_CODE[rule] | (((mv[0] << 5) | mv[1]) << 3)
    return struct.pack("<HH", h1, h2) + b"".join(struct.pack("<H", (x << 5) | y) for x, y in pos)


def move_word(m, ev, first, last):
    w = int(first) | (int(last) << 1) | ((ev is None) << 2) | ((m is None) << 3) | (0 if m is None else ((m[0] << 5) | m[1]) << 6)
    return struct.pack("<Hh", w, 0 if ev is None else ev)


def packed_blob(S, rule, res, init, groups, tag=0):
    body = b"".join(move_word(m, ev, j == 0, j == len(g) - 1) for g in groups for j, (m, ev) in enumerate(g))
    n = sum(len(g) for g in groups)
    w1 = S | (gen.RULE_CODE[rule] << 5) | (res << 8) | (min(1023, len(init) + len(groups)) << 12) | (len(init) << 22)
    return struct.pack("<II", w1, tag | (n << 14)) + b"".join(struct.pack("<H", (x << 5) | y) for x, y in init) + body


def read_rows(ctx, path, kind, **kw):
    ds = drive.build(scenario.TYPE[kind], [str(path)], drive.runtime(1, mode="test"), shuffle=False, sequential_active_streams=1, **kw)
    out = []
    for env in ds:
        out += [r for r, real in zip(gen.rows_of(env.data), np.asarray(env.is_real)) if real]
    return out


def same(ctx, row, **want):
    for k, v in want.items():
        got = row[k]
        if isinstance(v, str):
            ctx.check(got == v, f"decode:{k}", f"{k} is {got!r}, encoded {v!r}")
        else:
            a, b = np.asarray(v), np.asarray(got)
            if a.ndim == 0:
                b = b.reshape(())
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=2e-5, atol=2e-6, equal_nan=True), f"decode:{k}",
                      f"{k} is {b.tolist() if b.size < 12 else b.shape}, encoded {a.tolist() if a.size < 12 else np.argwhere(a).tolist()[:6]}")
    ctx.count("records_decoded")


def corner_case(ctx, name, rng, i):
    """Empty boards, full boards, long games, first-move passes: outside the random corpus."""
    d = ctx.tmp()
    S = rng.choice([5, 6, 9, 15, 19, 20, 22])
    rule, res = rng.choice(RULES), rng.randrange(3)
    cells = [(c % S, c // S) for c in gen.np.random.default_rng(rng.getrandbits(40)).permutation(S * S).tolist()]
    lz = rng.random() < 0.3
    with ctx.case(name, dict(i=i % 6, S=S, rule=rule, res=res, lz4=lz)):
        if i % 2 == 0:
            ply = rng.choice([0, 1, 2, S * S - 1, min(S * S - 1, 500), rng.randrange(S * S)])
            ply = min(ply, 511)
            pos, mv = cells[:ply], cells[ply]
            blob = simple_blob(S, rule, res, pos, mv)
            p = d / ("a.bin.lz4" if lz else "a.bin")
            p.write_bytes(pack_lz4(blob, rng) if lz else blob)
            rows = read_rows(ctx, p, "simple")
            ctx.check(len(rows) == 1, "decode:coverage", f"{len(rows)} rows from one record")
            b = np.zeros((2, S, S))
            for j, (x, y) in enumerate(pos):
                b[(ply - j) % 2, y, x] = 1
            pol = np.zeros((S, S))
            pol[mv[1], mv[0]] = 1
            same(ctx, rows[0], board_size=[S, S], board_input=b, stm_input=[1.0 if ply % 2 else -1.0], policy_target=pol,
                 value_target=[res == 2, res == 0, res == 1], rule_index=gen.RULE_INDEX[rule], ply=ply,
                 position_string="".join(gen.move_str(m) for m in pos), last_move=list(pos[-1]) if pos else [-1, -1])
            ctx.seen("simple", S, ply, rule, res)
        else:
            ninit = rng.choice([0, 0, 1, 2, 3, 4])
            init = cells[:ninit]
            ngroups = rng.choice([1, 2, S * S - ninit, rng.randint(1, min(40, S * S - ninit))])
            hp = rng.random() < 0.5
            groups, k = [], ninit
            for _ in range(ngroups):
                best = None if rng.random() < 0.1 else cells[k]
                k += 1
                groups.append([(best, rng.choice([None, 0, 100, -3]))])
            blob = packed_blob(S, rule, res, init, groups, tag=rng.randrange(1 << 14))
            p = d / ("a.binpack.lz4" if lz else "a.binpack")
            p.write_bytes(pack_lz4(blob, rng) if lz else blob)
            rows = read_rows(ctx, p, "packed", has_pass_move=hp)
            ctx.check(len(rows) == ngroups, "decode:coverage", f"{len(rows)} rows from {ngroups} move groups")
            by_ply = {int(np.asarray(r["ply"]).reshape(())): r for r in rows}
            ctx.check(sorted(by_ply) == list(range(ninit, ninit + ngroups)), "decode:ply", f"plies {sorted(by_ply)[:20]}")
            black = np.zeros((2, S, S))
            for j, (x, y) in enumerate(init):
                black[j % 2, y, x] = 1
            pos = list(init)
            step = max(1, ngroups // 25)
            for g, [(best, ev)] in enumerate(groups):
                side = len(pos) % 2
                r = res if g % 2 == 0 else 2 - res
                if g % step == 0 or g == ngroups - 1:
                    pol = np.zeros(S * S + 1)
                    pol[S * S if best is None else best[1] * S + best[0]] = 1
                    pol = pol if hp else pol[:-1].reshape(S, S)
                    same(ctx, by_ply[len(pos)], board_size=[S, S], board_input=black if side == 0 else black[::-1],
                         stm_input=[1.0 if side else -1.0], policy_target=pol, value_target=[r == 2, r == 0, r == 1],
                         rule_index=gen.RULE_INDEX[rule], raw_eval=np.nan if ev is None else float(ev),
                         position_string="".join(gen.move_str(m) for m in pos),
                         last_move=list(pos[-1]) if pos and pos[-1] is not None else [-1, -1])
                pos.append(best)
                if best is not None:
                    black[side, best[1], best[0]] = 1
            ctx.seen("packed", S, ninit, ngroups, hp)


# --------------------------------------------------------------------- damage
def walk(blob, kind):
    """Entry boundaries of a clean file."""
    out, o = [0], 0
    while o < len(blob):
        if kind == "simple":
            h1, = struct.unpack_from("<H", blob, o)
            o += 4 + 2 * ((h1 >> 2) & 511)
        else:
            w1, w2 = struct.unpack_from("<II", blob, o)
            o += 8 + 2 * (w1 >> 22) + 4 * (w2 >> 14)
        out.append(o)
    return out


def run_damaged(ctx, kind, path, idx, kw, B, mode):
    """(rows identified before the error, error or None); every delivered row must be in the file."""
    got = []
    try:
        ds = drive.build(scenario.TYPE[kind], [str(path)], drive.runtime(B, mode=mode), **kw)
        for env in ds:
            for row, real in zip(gen.rows_of(env.data), np.asarray(env.is_real)):
                rid, s = idx.lookup(row)
                if rid is None:
                    ctx.fail("damage:invented-sample", f"a damaged file yields a sample that is not in it: {s}")
                if real:
                    got.append(rid)
            if mode == "train":
                ds._partitioned_stream.commit_batch(env.token)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001  any refusal is good
        return got, e
    return got, None


def damage_case(ctx, name, rng, i):
    kind = ["simple", "packed"][i % 2]
    mk = gen.Maker(rng)
    S = rng.choice([6, 9, 12, 15])
    d = ctx.tmp()
    if kind == "simple":
        corpus = gen.make_simple(mk, d, [rng.randint(2, 6)], [(S, S)], rules=("freestyle",))
    else:
        corpus = gen.make_packed(mk, d, [rng.randint(2, 4)], [(S, S)], rules=("freestyle",))
    src = Path(corpus.files[0])
    blob = src.read_bytes()
    ends = walk(blob, kind)
    ctx.check(ends[-1] == len(blob), "harness:walk", "generator layout")
    lz = rng.random() < 0.25
    bad = d / ("bad" + ("".join(src.suffixes)) + (".lz4" if lz else ""))
    kw = dict(shuffle=rng.random() < 0.3, sequential_active_streams=1, sequential_read_quantum=rng.choice([1, 256]))
    mode = rng.choice(["test", "validate"])
    B = rng.choice([1, 1, 3])
    with ctx.case(name, dict(kind=kind, S=S, lz4=lz, entries=len(ends) - 1)):
        idx = gen.Index([corpus])
        cuts = sorted({rng.randrange(1, len(blob)) for _ in range(6)} | {rng.choice(ends[1:-1]), ends[-2] + 1, ends[-2] + 3, len(blob) - 1}
                      | {rng.choice(ends[:-1]) + rng.randint(1, 8)})
        if lz:
            comp = pack_lz4(blob, rng, rng.choice(["plain", "linked", "checksum"]))
            for cut in sorted({rng.randrange(1, len(comp)) for _ in range(6)} | {len(comp) - 1, len(comp) - 4, 8}):
                bad.write_bytes(comp[:cut])
                got, err = run_damaged(ctx, kind, bad, idx, kw, B, mode)
                ctx.check(err is not None, "damage:truncation-ignored", f"lz4 file cut at byte {cut} of {len(comp)} read without an error")
                ctx.count("damage_reported")
        for cut in cuts:
            if cut >= len(blob):
                continue
            raw = blob[:cut]
            bad.write_bytes(pack_lz4(raw, rng) if lz else raw)
            got, err = run_damaged(ctx, kind, bad, idx, kw, B, mode)
            if cut in ends:
                n = len(Counter(got))
                ctx.check(err is None and n == len(got) and n > 0, "damage:clean-prefix",
                          f"a file that ends at an entry boundary fails or repeats: {err!r}")
                ctx.count("clean_prefix")
            else:
                ctx.check(err is not None, "damage:truncation-ignored",
                          f"file cut inside an entry (byte {cut} of {len(blob)}) read without an error, {len(got)} samples")
                ctx.count("damage_reported")
        # trailing bytes that are not an entry
        tail = bytes([rng.choice([S & 31, 0, 255])] * rng.randint(1, 3))
        bad.write_bytes(pack_lz4(blob + tail, rng) if lz else blob + tail)
        got, err = run_damaged(ctx, kind, bad, idx, kw, B, mode)
        ctx.check(err is not None, "damage:trailing-garbage", f"{len(tail)} trailing bytes ignored")
        ctx.count("damage_reported")
        ctx.seen(name)


def malformed_case(ctx, name, rng, i):
    """Well-delimited entries whose content is impossible."""
    d = ctx.tmp()
    S = rng.choice([6, 9, 12, 15, 20])
    cells = [(x, y) for x in range(S) for y in range(S)]
    rng.shuffle(cells)
    off = rng.choice([(S, rng.randrange(S)), (rng.randrange(S), S), (31, 31), (31, 0), (0, 31), (S, 0), (min(31, S + 3), rng.randrange(S - 1))])
    flavour = ["simple-stone", "simple-move", "simple-rule", "simple-result", "packed-init", "packed-best", "packed-pv",
               "packed-first", "packed-rule", "packed-result"][i % 10]
    rule, res = rng.choice(RULES), rng.randrange(3)
    with ctx.case(name, dict(flavour=flavour, S=S, off=off)):
        pos = cells[: rng.randint(1, 12)]
        mv = cells[20]
        kw = {}
        if flavour.startswith("simple"):
            good = simple_blob(S, rule, res, pos, mv)
            if flavour == "simple-stone":
                pos2 = list(pos)
                pos2[rng.randrange(len(pos2))] = off
                bad = simple_blob(S, rule, res, pos2, mv)
            elif flavour == "simple-move":
                bad = simple_blob(S, rule, res, pos, off)
            elif flavour == "simple-rule":
                bad = bytearray(good)
                bad[2] = (bad[2] & ~7) | rng.choice([2, 3, 5, 6, 7])
            else:
                bad = simple_blob(S, rule, 3, pos, mv)
            kind, ext = "simple", "bin"
        else:
            kw = dict(has_pass_move=rng.random() < 0.5, multipv_temperature=rng.choice([0.0, 0.1]),
                      use_mate_multipv=rng.random() < 0.5)
            groups = [[(c, rng.randint(-300, 300))] for c in cells[20: 20 + rng.randint(1, 6)]]
            groups[0] += [(cells[27], -400), (cells[28], -500)]
            init = pos
            good = packed_blob(S, rule, res, init, groups)
            g2 = [list(g) for g in groups]
            bad = None
            if flavour == "packed-init":
                init2 = list(init)
                init2[rng.randrange(len(init2))] = off
                bad = packed_blob(S, rule, res, init2, groups)
            elif flavour == "packed-best":
                g2[rng.randrange(len(g2))][0] = (off, 5)
                bad = packed_blob(S, rule, res, init, g2)
            elif flavour == "packed-pv":
                g2[0][rng.choice([1, 2])] = (off, -450)
                bad = packed_blob(S, rule, res, init, g2)
                kw["multipv_temperature"] = 0.1
            elif flavour == "packed-first":
                bad = bytearray(good)
                o = 8 + 2 * len(init)
                starts = [0]
                for g in groups[:-1]:
                    starts.append(starts[-1] + 4 * len(g))
                bad[o + rng.choice(starts)] &= ~1
            elif flavour == "packed-rule":
                bad = bytearray(good)
                bad[0] = (bad[0] & 31) | (rng.choice([2, 3, 5, 6, 7]) << 5)
            else:
                bad = packed_blob(S, rule, rng.choice([3, 5, 15]), init, groups)
            kind, ext = "packed", "binpack"
        p = d / f"x.{ext}"
        p.write_bytes(good)
        want = 1 if kind == "simple" else len(groups)
        rows = read_rows(ctx, p, kind, **kw)
        ctx.check(len(rows) == want, "decode:coverage", f"{len(rows)} rows, expected {want}")
        p.write_bytes(bytes(bad))
        try:
            rows = read_rows(ctx, p, kind, **kw)
        except Exception:  # noqa: BLE001
            ctx.count("malformed_reported")
            ctx.seen(flavour, S, off)
        else:
            ctx.fail(f"malformed:{flavour}", f"impossible {flavour} accepted on a {S}x{S} board (bad point {off}): {len(rows)} samples")


def run(ctx):
    ctx.rule = ("random games encoded in both binary formats (sizes 6-22, rules, lz4 framings, option grid), corner records "
                "(empty, full, pass-only, longest), files cut at chosen bytes, and entries with impossible content. "
                "Non-trivial: distinct option tuples and distinct damaged files")
    ctx.require("records_decoded", 600)
    ctx.require("damage_reported", 80)
    ctx.require("malformed_reported", 12)
    for name, rng in ctx.cases("exact", 120, 3000, share=0.35):
        exact_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("corner", 80, 1200, share=0.25):
        corner_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("damage", 40, 900, share=0.25):
        damage_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("malformed", 60, 900, share=0.15):
        malformed_case(ctx, name, rng, int(name.split("#")[1]))
