"""Keyed choices: admission, symmetry, permutations, bounded draws."""
import math
from collections import Counter, defaultdict

import numpy as np

from vm import drive, gen, scenario

NSYM = {True: 8, "default": 8, "rotate": 4, "flip": 4, "flip_diag_rotate180": 4}


def profile(ctx, scen, idx, rt, epochs=2, **over):
    """{(epoch, record): symmetry} of everything one stream delivers as real rows."""
    ds = scen.build(rt, **over)
    out = {}
    for ep in range(epochs):
        for env in drive.epoch(ds):
            for rid, s, real in drive.identify(ctx, env, idx):
                if real:
                    ctx.check(out.setdefault((ep, rid), s) == s, "keyed:two-symmetries",
                              f"record {rid} appears with symmetries {out[ep, rid]} and {s} in one epoch")
    return out


def compare(ctx, what, ref, got, complete):
    bad = [(k, ref[k], got[k]) for k in got if k in ref and ref[k] != got[k]]
    ctx.check(not bad, f"keyed:symmetry-depends-on-{what}", lambda: f"{what}: (epoch, record), expected, got: {bad[:4]}")
    extra = [k for k in got if k not in ref]
    ctx.check(not extra, f"keyed:admission-depends-on-{what}", lambda: f"{what}: admitted only here: {extra[:5]}")
    if complete:
        lost = [k for k in ref if k not in got]
        ctx.check(not lost, f"keyed:admission-depends-on-{what}", lambda: f"{what}: admitted only in the reference: {lost[:5]}")
    ctx.count("profiles_compared")
    ctx.count("choices_compared", len(got))


def chi2_ok(counts, expected, z=9.0):
    """Very conservative upper bound (Wilson-Hilferty) of a chi-square statistic."""
    x = sum((c - e) ** 2 / e for c, e in zip(counts, expected))
    k = len(counts) - 1
    if k <= 0:
        return True, x
    bound = k * (1 - 2 / (9 * k) + z * math.sqrt(2 / (9 * k))) ** 3
    return x <= bound, x


def metamorphic_case(ctx, name, rng, i):
    kind = scenario.ALL_KINDS[i % len(scenario.ALL_KINDS)]
    rate = rng.choice([1.0, 0.8, 0.5])
    sym = rng.choice([True, True, "rotate", "flip", "flip_diag_rotate180", False])
    if kind == "composite":
        sym = bool(sym)
    scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(30, 70), sample_rate=rate, symmetry=sym, shuffle=True, lz4=False,
                         **({} if kind == "composite" else {"sizes": scenario.SIZE_SETS[rng.choice(["one", "two", "three"])]}))
    seed = rng.randrange(1 << 40)
    with ctx.case(name, dict(scen.desc, rate=rate)):
        if len(scen.shape_of) < 25:
            return
        idx = scen.index()
        ref = profile(ctx, scen, idx, drive.runtime(1, seed=seed, mode="train"))
        ctx.seen(name, tuple(sorted(ref.items())))
        n = len(scen.rids())
        for ep in range(2):
            k = sum(1 for e, _ in ref if e == ep)
            if rate == 1.0:
                ctx.check(k == n, "keyed:rate-one-drops", f"rate 1 admitted {k} of {n}")
        todo = ["batch", "mode", "noshuffle", "window", "budget"]
        if kind in ("simple", "packed"):
            todo += ["readers"]
        elif kind == "batched":
            todo += ["prefetch", "ranks"]
        else:
            todo += ["ranks"]
        for what in rng.sample(todo, 3):
            if what == "batch":
                B = rng.randint(2, 6)
                compare(ctx, what, ref, profile(ctx, scen, idx, drive.runtime(B, seed=seed)), False)
            elif what == "mode":
                compare(ctx, what, ref, profile(ctx, scen, idx, drive.runtime(rng.randint(1, 7), seed=seed, mode="validate")), True)
            elif what == "noshuffle":
                s2 = scenario.Scenario(scen.kind, scen.type, scen.paths, {**scen.kw, "shuffle": False}, scen.corpora, scen.index_kw,
                                       shape_of=scen.shape_of)
                s2.kw.pop("shuffle_window_size", None)
                compare(ctx, what, ref, profile(ctx, s2, idx, drive.runtime(1, seed=seed)), True)
            elif what == "window":
                compare(ctx, what, ref, profile(ctx, scen, idx, drive.runtime(1, seed=seed), shuffle_window_size=rng.choice([1, 3, 9, 500])), True)
            elif what == "budget":
                compare(ctx, what, ref, profile(ctx, scen, idx, drive.runtime(1, seed=seed), steps_per_epoch=rng.randint(1, 12)), False)
            elif what == "readers":
                compare(ctx, what, ref, profile(ctx, scen, idx, drive.runtime(1, seed=seed), sequential_active_streams=rng.randint(1, 5),
                                                sequential_read_quantum=rng.choice([1, 4, 100])), True)
            elif what == "prefetch":
                compare(ctx, what, ref, profile(ctx, scen, idx, drive.runtime(1, seed=seed), prefetch_threads=rng.choice([0, 1, 4]),
                                                prefetch_batches=rng.choice([1, 4, 16])), True)
            else:
                if kind == "composite" and scen.corpora[0].kind in ("simple", "packed"):
                    continue
                w = rng.choice([2, 3])
                got = {}
                for r in range(w):
                    got.update(profile(ctx, scen, idx, drive.runtime(w, world=w, rank=r, seed=seed)))
                compare(ctx, what, ref, got, False)
        # another seed or epoch makes other choices
        other = profile(ctx, scen, idx, drive.runtime(1, seed=seed + 1), epochs=1)
        m = NSYM.get(sym, 1)
        for what, a, b in (("seed", {r: s for (e, r), s in ref.items() if e == 0}, {r: s for (e, r), s in other.items()}),
                           ("epoch", {r: s for (e, r), s in ref.items() if e == 0}, {r: s for (e, r), s in ref.items() if e == 1})):
            both = [r for r in a if r in b]
            if rate < 1.0 and n >= 25:
                ctx.check(set(a) != set(b), f"keyed:admission-ignores-{what}", f"the same {len(a)} of {n} records were admitted for two {what}s")
            if m > 1 and len(both) >= 20:
                same = sum(a[r] == b[r] for r in both)
                ctx.check(same < len(both), f"keyed:symmetry-ignores-{what}", f"all {same} records kept their symmetry for another {what}")
                ctx.count("stream_pairs")
        ctx.count("streams")


def subset_case(ctx, name, rng, i):
    kind = ["processed", "raw", "simple", "packed", "batched", "sparse"][i % 6]
    scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(60, 120), symmetry=False, lz4=False, options=False, sizes=[(9, 9)])
    seed = rng.randrange(1 << 40)
    rates = sorted(rng.sample([0.2, 0.35, 0.5, 0.65, 0.8, 0.93, 1.0], 4))
    with ctx.case(name, dict(scen.desc, rates=rates)):
        idx = scen.index()
        sets = []
        for r in rates:
            s2 = scenario.Scenario(scen.kind, scen.type, scen.paths, {**scen.kw, "sample_rate": r}, scen.corpora, scen.index_kw, shape_of=scen.shape_of)
            sets.append(set(profile(ctx, s2, idx, drive.runtime(1, seed=seed), epochs=2)))
        n = len(scen.rids()) * 2
        for (ra, a), (rb, b) in zip(zip(rates, sets), zip(rates[1:], sets[1:])):
            ctx.check(a <= b, "keyed:not-nested", f"{len(a - b)} records admitted at rate {ra} but not at {rb}")
            ctx.count("nested_pairs")
        for r, s in zip(rates, sets):
            sd = math.sqrt(max(1e-9, n * r * (1 - r)))
            ctx.check(abs(len(s) - n * r) <= 7 * sd + 1e-6, "keyed:rate", f"rate {r}: admitted {len(s)} of {n}")
        ctx.seen(name, tuple(len(s) for s in sets))


def big_case(ctx, name, rng, i):
    """Frequencies over many records: symmetry uniform and independent, admission at the requested rate."""
    kind = ["batched", "processed", "simple"][i % 3]
    rate = rng.choice([1.0, 0.7])
    scen = scenario.make(rng, ctx.tmp(), kind, total=1500, nfiles=rng.randint(1, 3), symmetry=True, shuffle=rng.random() < 0.5,
                         fixed_side=False, fixed_board=False, lz4=False, options=False, sizes=[(7, 7)], sample_rate=rate)
    with ctx.case(name, dict(kind=kind, rate=rate)):
        idx = scen.index()
        epochs = 2
        got = profile(ctx, scen, idx, drive.runtime(1 if kind == "simple" else 10, seed=rng.randrange(1 << 40), mode="validate"), epochs=epochs)
        n = len(scen.rids()) * epochs
        sd = math.sqrt(max(1e-9, n * rate * (1 - rate)))
        ctx.check(abs(len(got) - n * rate) <= 8 * sd + 1e-6, "keyed:rate", f"rate {rate}: admitted {len(got)} of {n}")
        c = Counter(got.values())
        ok, x = chi2_ok([c[s] for s in range(8)], [len(got) / 8] * 8)
        ctx.check(ok and set(c) <= set(range(8)), "keyed:symmetry-biased", f"symmetry counts {dict(c)} (chi2 {x:.1f})")
        # neighbouring records and the two epochs choose independently
        where = {r.rid: (r.file, r.order) for cp in scen.corpora for r in cp.recs}
        at = {v: k for k, v in where.items()}
        pairs, cross = Counter(), Counter()
        for (ep, rid), s in got.items():
            f, o = where[rid]
            nb = at.get((f, o + 1))
            if (ep, nb) in got:
                pairs[s, got[ep, nb]] += 1
            if ep == 0 and (1, rid) in got:
                cross[s, got[1, rid]] += 1
        for what, t in (("neighbour", pairs), ("epoch", cross)):
            tot = sum(t.values())
            if tot >= 640:
                ok, x = chi2_ok([t[a, b] for a in range(8) for b in range(8)], [tot / 64] * 64)
                ctx.check(ok, f"keyed:symmetry-correlated-{what}", f"joint symmetry counts deviate from uniform (chi2 {x:.0f}, {tot} pairs)")
                ctx.count("joint_tables")
        ctx.seen("big", kind, tuple(sorted(c.items())))


def view_case(ctx, name, rng, i):
    """The same file and row gets the same symmetry whichever other board sizes are selected with it."""
    kind = ["processed", "batched"][i % 2]     # game files key records by the whole selection, arrays by file content and row
    sizes = scenario.SIZE_SETS["two" if i % 4 < 2 else "three"]
    scen = scenario.make(rng, ctx.tmp(), kind, total=60, sizes=sizes, symmetry=True, fixed_board=False, options=False, lz4=False,
                         nfiles=rng.randint(2, 4))
    seed = rng.randrange(1 << 40)
    with ctx.case(name, dict(scen.desc)):
        idx = scen.index()
        ref = profile(ctx, scen, idx, drive.runtime(1, seed=seed))
        one = rng.choice(sizes)
        sub = {r for r in scen.rids() if scen.shape_of[r] == one}
        if not sub:
            return
        s2 = scenario.Scenario(scen.kind, scen.type, scen.paths, {**scen.kw, "boardsizes": [one]}, scen.corpora, scen.index_kw, shape_of=scen.shape_of)
        got = profile(ctx, s2, idx, drive.runtime(1, seed=seed))
        compare(ctx, "selection", {k: v for k, v in ref.items() if k[1] in sub}, got, True)
        ctx.count("views")


def primitives(ctx, name, rng):
    from dataset.core import deterministic_permutation, rng_u64, sample_is_admitted, uniform_below
    with ctx.case(name):
        seed = rng.randrange(1 << 62)
        # distinct keys never share a stream, equal keys always do
        parts = [None, True, False, 0, 1, -1, 2, "", "0", "1", "a", "ab", "b", "bc", "c", b"", b"0", b"a", b"ab", (), (0,), (1,), ("a",), (b"a",),
                 ((),), (None,), ("a", "b"), ("ab",), (0, 0), ((0,), 0), 1 << 62, -(1 << 63)]
        keys = [(a,) for a in parts] + [(a, b) for a in parts for b in parts]
        vals = {}
        for dom in ("symmetry", "sample"):
            for k in keys:
                v = rng_u64(seed, dom, k)
                ctx.check(v == rng_u64(seed, dom, k) and 0 <= v < 1 << 64, "keyed:not-a-function", f"{dom} {k}")
                ctx.check(vals.setdefault(v, (dom, k)) == (dom, k), "keyed:collision", f"{(dom, k)} and {vals[v]} share a value")
        for c in range(200):
            v = rng_u64(seed, "symmetry", ("k",), c)
            ctx.check(v not in vals, "keyed:collision", f"counter {c} repeats a value")
            vals[v] = c
        ctx.count("keys_compared", len(vals))
        # bounded draws: in range, unbiased, the counter moves forward
        for n in [1, 2, 3, 5, 7, 10, 100, 3 << 62, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, rng.getrandbits(60) + 1]:
            bins = min(n, 10) if n < 1000 else 3
            hist = Counter()
            m = 600
            for j in range(m):
                v, c = uniform_below(n, seed, "u", (n % (1 << 62), j))
                ctx.check(0 <= v < n, "keyed:draw-range", f"draw {v} below {n}")
                ctx.check(c > 0, "keyed:draw-counter", "a draw did not consume its counter")
                hist[v * bins // n if n > 1000 else v % bins] += 1
            ok, x = chi2_ok([hist[b] for b in range(bins)], [m / bins] * bins)
            ctx.check(ok, "keyed:draw-biased", f"bound {n}: counts {dict(hist)} (chi2 {x:.1f})")
            ctx.count("draw_tables")
        for n in (0, -1, (1 << 64) + 1):
            try:
                uniform_below(n, seed, "u", ())
            except ValueError:
                ctx.count("bounds_refused")
            else:
                ctx.fail("keyed:bad-bound", f"uniform_below({n}) accepted")
        # permutations
        hist = Counter()
        for j in range(900):
            p = tuple(deterministic_permutation(3, seed, "perm", (j,)))
            hist[p] += 1
        ok, x = chi2_ok([hist[p] for p in hist] + [0] * (6 - len(hist)), [150] * 6)
        ctx.check(ok and len(hist) == 6, "keyed:permutation-biased", f"{dict(hist)}")
        first, last = Counter(), Counter()
        for j in range(400):
            n = rng.choice([0, 1, 2, 5, 10, 37])
            p = deterministic_permutation(n, seed, "perm", ("n", n, j))
            ctx.check(sorted(p) == list(range(n)), "keyed:not-a-permutation", f"length {n}: {p}")
            ctx.check(list(p) == list(deterministic_permutation(n, seed, "perm", ("n", n, j))), "keyed:not-a-function", "permutation")
            if n == 10:
                first[p[0]] += 1
                last[p[-1]] += 1
        ctx.count("permutations", 1300)
        # admission: monotone in the rate, at the requested frequency
        ks = [("root", bytes([j % 256]) * 32, "npz-row", (j,)) for j in range(1500)]
        prev = set()
        for r in (0.0, 0.01, 0.1, 0.5, 0.9, 0.999, 1.0):
            cur = {j for j, k in enumerate(ks) if sample_is_admitted(r, seed, 3, k)}
            ctx.check(prev <= cur, "keyed:not-nested", f"rate {r} loses records")
            ctx.check(abs(len(cur) - 1500 * r) <= 8 * math.sqrt(1500 * r * (1 - r)) + 1e-6, "keyed:rate", f"rate {r}: {len(cur)} of 1500")
            prev = cur
        a = {j for j, k in enumerate(ks) if sample_is_admitted(0.5, seed, 4, k)}
        b = {j for j, k in enumerate(ks) if sample_is_admitted(0.5, seed, 5, k)}
        ctx.check(abs(len(a & b) - 375) < 8 * math.sqrt(1500 * 0.25 * 0.75), "keyed:admission-ignores-epoch", f"{len(a & b)} of 1500 in both epochs")
        for r in (-0.1, 1.1, float("nan")):
            try:
                sample_is_admitted(r, seed, 0, ks[0])
            except ValueError:
                ctx.count("rates_refused")
            else:
                ctx.fail("keyed:bad-rate", f"sample_rate {r} accepted")
        ctx.seen(name, seed)


def run(ctx):
    ctx.rule = ("every delivered record is identified with the symmetry it received; the resulting (epoch, record) -> symmetry map is "
                "compared across shuffling, windows, batch sizes, readers, prefetch, ranks, modes and size selections, and tested for "
                "uniformity and independence. Thresholds are about 9 sigma. Non-trivial: distinct maps")
    ctx.require("profiles_compared", 60)
    ctx.require("choices_compared", 3000)
    ctx.require("nested_pairs", 10)
    ctx.require("joint_tables", 2)
    ctx.require("draw_tables", 10)
    for name, rng in ctx.cases("metamorphic", 56, 900, share=0.5):
        metamorphic_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("subset", 18, 200, share=0.2):
        subset_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("views", 10, 150, share=0.15):
        view_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("big", 4, 36, share=0.3):
        big_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("primitives", 4, 60, share=0.1):
        primitives(ctx, name, rng)
