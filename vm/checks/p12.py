"""Array datasets: identical contents through every access mode; bad archives refused."""
import io
import threading
import zipfile
from collections import Counter
from pathlib import Path

import numpy as np

from vm import drive, gen, scenario
from vm.core import Violation

TYPE = scenario.TYPE


def npy(a, version=(1, 0), fortran=False):
    f = io.BytesIO()
    np.lib.format.write_array(f, np.asfortranarray(a) if fortran else np.ascontiguousarray(a), version=version)
    return f.getvalue()


def write_npz(path, arrays, rng=None, *, method=None, version=None, fortran=False, extra=()):
    """Archive with a chosen encoding per member."""
    with zipfile.ZipFile(path, "w", allowZip64=True) as z:
        names = list(arrays)
        if rng:
            rng.shuffle(names)
        for k in names:
            m = method if method is not None else zipfile.ZIP_STORED
            if m == "mixed":
                m = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            v = version or (rng.choice([(1, 0), (1, 0), (2, 0), (3, 0)]) if rng else (1, 0))
            data = npy(arrays[k], v, fortran and rng.random() < 0.5)
            if rng and rng.random() < 0.3:      # local extra field, as numpy's zip64 members have
                info = zipfile.ZipInfo(f"{k}.npy")
                info.compress_type = m
                with z.open(info, "w", force_zip64=True) as f:
                    f.write(data)
            else:
                z.writestr(zipfile.ZipInfo(f"{k}.npy"), data, compress_type=m)
        for k, b in extra:
            z.writestr(k, b)


def recode(rng, corpus, allow_fortran=True):
    """Rewrite every archive with other dtypes and layouts that keep the values."""
    kinds = []
    for p in corpus.files:
        with np.load(p) as z:
            arrays = {k: z[k] for k in z.files}
        casts = {"bf": ["int8", "uint8", "bool", "int16", "float32", ">i2"], "gf": ["float32", "float64", "float16", "int8"],
                 "vt": ["float32", "float64", "float16", ">f4"], "pt": ["float32", "float64", "float16"]}
        new = {}
        for k, a in arrays.items():
            t = rng.choice(casts.get(k, [a.dtype.str]))
            b = a.astype(t)
            new[k] = b if np.array_equal(b.astype(a.dtype), a) else a
        method = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, "mixed"])
        extra = [("meta.txt", b"x")] if rng.random() < 0.3 else []
        write_npz(p, new, rng, method=method, fortran=allow_fortran and rng.random() < 0.3, extra=extra)
        kinds.append((str(method), {k: v.dtype.str for k, v in new.items()}))
    return kinds


def decoder_of(ds):
    pl = drive.planner_of(ds)
    return next((getattr(o, n) for o in (getattr(pl, "source", None), ds) for n in ("decoder", "_record_decoder", "_decoder")
                 if hasattr(getattr(o, n, None), "configure_cache")), None)


def read_all(ctx, ds, idx, batch_kind):
    """rid -> content of the delivered row."""
    out = {}
    for env in ds:
        for row, real in zip(gen.rows_of(env.data), np.asarray(env.is_real)):
            rid, s = idx.lookup(row)
            if rid is None:
                ctx.fail("array:wrong-content", f"{batch_kind}: {s}")
            if real:
                ctx.check(rid not in out, "array:duplicate-record", f"{batch_kind}: record {rid} twice")
                out[rid] = {k: np.asarray(v) for k, v in row.items()}
                ctx.count("rows_read")
    return out


def agree(ctx, a, b, la, lb):
    ctx.check(set(a) == set(b), "array:modes-differ", lambda: f"{la} and {lb} deliver other records: {sorted(set(a) ^ set(b))[:6]}")
    for rid in a:
        ra, rb = a[rid], b[rid]
        for k in ("board_size", "board_input", "stm_input", "value_target", "policy_target"):
            x, y = np.asarray(ra[k]), np.asarray(rb[k])
            ctx.check(x.shape == y.shape and np.array_equal(x, y), "array:modes-differ",
                      f"{la} and {lb}: field {k} of record {rid} differs")
    ctx.count("mode_comparisons")


def map_all(ctx, ds, idx):
    out = {}
    for i in range(len(ds)):
        row = ds[i]
        rid, s = idx.lookup({k: np.asarray(v) for k, v in row.items()})
        if rid is None:
            ctx.fail("array:wrong-content", f"map index {i}: {s}")
        ctx.check(rid not in out, "array:duplicate-record", f"map: record {rid} twice")
        out[rid] = row
        ctx.count("rows_read")
    return out


def processed_case(ctx, name, rng):
    mk = gen.Maker(rng)
    d = ctx.tmp()
    size = rng.choice([(6, 6), (7, 9), (9, 9), (15, 15), (10, 5)])
    sizes = [size] + ([(8, 8)] if rng.random() < 0.4 else [])
    nfiles = rng.randint(1, 6)
    ch, vc, gc = rng.choice([2, 2, 4]), rng.choice([3, 3, 6]), rng.choice([1, 1, 3])
    corpus0 = gen.make_processed(mk, d, [rng.randint(1, 20) for _ in range(nfiles)], sizes, with_gf=rng.random() < 0.85,
                                 with_pt=rng.random() < 0.9, channels=ch, vt_cols=vc, gf_cols=gc)
    enc = recode(rng, corpus0) if rng.random() < 0.8 else []
    raw0 = corpus0.recs[0].e["_raw"]
    hp, fs = rng.random() < 0.4, rng.random() < 0.4
    kw = dict(fixed_side_input=fs, has_pass_move=hp)
    bc = sc = vch = None
    if ch > 2:
        bc = kw["board_input_channels"] = [0, 1] if fs or rng.random() < 0.5 else [0, 1, 3]
    if vc > 3:
        vch = kw["value_target_channels"] = rng.choice([[0, 1, 2], [3, 4, 5], [2, 0, 5]])
    if "gf" in raw0 and gc > 1:
        sc = kw["stm_input_channel"] = 0
    corpus = gen.resolve_processed(corpus0, has_pass=hp, bc=bc, sc=sc, vc=vch)
    rawof = {r.rid: r.e["_raw"] for r in corpus0.recs}
    keep = lambda r: tuple(int(v) for v in r.e["board_size"]) == tuple(size)      # noqa: E731
    flt = []
    if "gf" in raw0 and rng.random() < 0.35:
        stm = kw["filter_stm"] = rng.choice([-1, 1])
        flt.append(lambda w, stm=stm: w["gf"][0] == stm)
    if rng.random() < 0.35:
        expr, f = rng.choice([("vt[:, 0] > 0.4", lambda w: w["vt"][0] > 0.4),
                              ("np.logical_or(vt[:, 1] < 0.3, bf[:, 0, 0, 0] == 1)", lambda w: w["vt"][1] < 0.3 or w["bf"][0, 0, 0] == 1),
                              ("(vt[:, 0] + vt[:, 2] >= 1) | (vt[:, 1] <= 0.5)", lambda w: w["vt"][0] + w["vt"][2] >= 1 or w["vt"][1] <= 0.5)])
        kw["filter_condition"] = expr
        flt.append(f)
    keep2 = lambda r: keep(r) and all(bool(f(rawof[r.rid])) for f in flt)          # noqa: E731
    want = sorted(r.rid for r in corpus.recs if keep2(r))
    fb = None
    if rng.random() < 0.25:
        fb = kw["fixed_board_size"] = (size[0] + rng.randint(0, 3), size[1] + rng.randint(0, 3))
    with ctx.case(name, dict(size=size, nfiles=nfiles, kw=kw, enc=enc[:3], records=len(want))):
        if not want:
            return
        idx = gen.Index([corpus], fixed_side=fs, fixed_board=fb, keep=keep2)
        sets = {}
        for mode in ("map", "iter", "batched"):
            kind = {"map": "map_processed", "iter": "processed", "batched": "batched"}[mode]
            over = dict(kw)
            if mode == "batched":
                over.update(prefetch_threads=rng.choice([0, 1, 2, 8]), prefetch_batches=rng.choice([1, 3, 16]), pin_memory=False)
            if mode == "map":
                # map loading concatenates files of one layout
                ds = drive.build(TYPE[kind], list(corpus.files), drive.runtime(1), boardsizes=[size], shuffle=False, **over)
                ctx.check(len(ds) == len(want), "array:length", f"map data set has {len(ds)} rows, {len(want)} match")
                sets[mode] = map_all(ctx, ds, idx)
            else:
                ds = drive.build(TYPE[kind], list(corpus.files), drive.runtime(rng.choice([1, 3, 7, 16]), seed=rng.randrange(1 << 30), mode="test"),
                                 boardsizes=[size], shuffle=rng.random() < 0.5, **over)
                dec = decoder_of(ds)
                if dec is not None and rng.random() < 0.7:
                    dec.configure_cache(entries=rng.choice([1, 1, 2, 16]), byte_capacity=rng.choice([1, 3000, 1 << 30]))
                    ctx.count("cache_limited")
                sets[mode] = read_all(ctx, ds, idx, mode)
            ctx.check(sorted(sets[mode]) == want, "array:coverage",
                      lambda: f"{mode} delivers {len(sets[mode])} of {len(want)} matching records")
        agree(ctx, sets["map"], sets["iter"], "map", "iterative")
        agree(ctx, sets["iter"], sets["batched"], "iterative", "batched")
        ctx.seen(name, tuple(want), str(kw))


def raw_padded(mk, d, rng, n_files, plane, has_pass):
    """Raw archives whose logical boards are smaller than their planes."""
    files, recs = [], []
    for fi in range(n_files):
        n = rng.randint(2, 8)
        cells = plane * plane
        bits = np.zeros((n, 3, plane, plane), np.uint8)
        gi = np.zeros((n, 19), np.float32)
        gt = (mk.np.integers(0, 512, (n, 24)) / 512.0).astype(np.float32)
        pol = np.zeros((n, 1, cells + 1), np.int16)
        for i in range(n):
            H = rng.randint(5, plane)
            W = H if rng.random() < 0.6 else rng.randint(5, plane)
            b = mk.board(H, W)
            bits[i, 0, :H, :W] = 1
            bits[i, 1:3, :H, :W] = b
            stm = rng.choice([-1.0, 1.0])
            gi[i, 5] = stm
            inner = mk.np.integers(0, 9, (H, W)).astype(np.int16)
            inner[0, 0] += 1
            full = np.zeros((plane, plane), np.int16)
            full[:H, :W] = inner
            pol[i, 0, :cells] = full.reshape(-1)
            pol[i, 0, -1] = rng.randint(0, 9)
            tot = float(inner.sum()) + (float(pol[i, 0, -1]) if has_pass else 0.0)
            p = (inner / tot).astype(np.float32)
            if has_pass:
                p = np.concatenate([p.reshape(-1), [np.float32(pol[i, 0, -1] / tot)]]).astype(np.float32)
            recs.append(gen.Rec(mk.rid(), fi, i, {"board_size": np.array([H, W]), "board_input": b,
                                                  "stm_input": np.array([stm], np.float32),
                                                  "value_target": gt[i, :3].copy(), "policy_target": p}))
        path = Path(d) / f"rp{fi}.npz"
        np.savez(path, binaryInputNCHWPacked=np.packbits(bits.reshape(n, 3, cells), axis=2), globalInputNC=gi, globalTargetsNC=gt,
                 policyTargetsNCMove=pol)
        files.append(str(path))
    return gen.Corpus("raw", files, recs)


def raw_case(ctx, name, rng):
    mk = gen.Maker(rng)
    d = ctx.tmp()
    hp, fs = rng.random() < 0.4, rng.random() < 0.4
    padded = rng.random() < 0.4
    kw = dict(fixed_side_input=fs, has_pass_move=hp)
    keep, fb, bs = None, None, None
    if padded:
        plane = rng.choice([9, 11, 15])
        corpus = raw_padded(mk, d, rng, rng.randint(1, 3), plane, hp)
        fb = (plane, plane)
        allsizes = sorted({tuple(int(v) for v in r.e["board_size"]) for r in corpus.recs})
        bs = allsizes if rng.random() < 0.5 else [allsizes[0], (6, 6)]
        per_file = Counter(r.file for r in corpus.recs if tuple(int(v) for v in r.e["board_size"]) in bs)
        keep = lambda r: tuple(int(v) for v in r.e["board_size"]) in bs               # noqa: E731
        if len(per_file) < len(corpus.files):
            bs = allsizes
    else:
        S = rng.choice([6, 9, 15])
        td = rng.choice([0, 1, 4])
        corpus = gen.make_raw(mk, d, [rng.randint(2, 20) for _ in range(rng.randint(1, 4))], [(S, S)], has_pass=hp, td_level=td,
                              global_cols=rng.choice([1, 19]), compressed=rng.random() < 0.5)
        kw["value_td_level"] = td
        bs = [(S, S)]
        if rng.random() < 0.4:
            stm = rng.choice([-1, 1])
            per_file = Counter(r.file for r in corpus.recs if float(r.e["stm_input"][0]) == stm)
            if len(per_file) == len(corpus.files):
                kw["filter_stm"] = stm
                keep = lambda r: float(r.e["stm_input"][0]) == stm                    # noqa: E731
    want = sorted(r.rid for r in corpus.recs if keep is None or keep(r))
    with ctx.case(name, dict(padded=padded, kw=kw, boardsizes=bs, records=len(want))):
        idx = gen.Index([corpus], fixed_side=fs, fixed_board=fb, keep=keep)
        ds = drive.build(TYPE["map_raw"], list(corpus.files), drive.runtime(1), boardsizes=bs, shuffle=False, **kw)
        ctx.check(len(ds) == len(want), "array:length", f"{len(ds)} rows, {len(want)} match")
        a = map_all(ctx, ds, idx)
        ctx.check(sorted(a) == want, "array:coverage", f"map delivers {len(a)} of {len(want)}")
        ds = drive.build(TYPE["raw"], list(corpus.files), drive.runtime(rng.choice([1, 4, 9]), mode="test"), boardsizes=bs,
                         shuffle=rng.random() < 0.5, **kw)
        b = read_all(ctx, ds, idx, "iterative raw")
        agree(ctx, a, b, "map raw", "iterative raw")
        ctx.seen(name, tuple(want), str(kw))


def sparse_case(ctx, name, rng):
    mk = gen.Maker(rng)
    d = ctx.tmp()
    S = rng.choice([6, 9, 12, 15])
    corpus = gen.make_sparse(mk, d, [rng.randint(1, 12) for _ in range(rng.randint(1, 4))], [(S, S)], compressed=rng.random() < 0.5)
    fs = rng.random() < 0.5
    with ctx.case(name, dict(S=S, fixed_side=fs, records=len(corpus.recs))):
        idx = gen.Index([corpus], fixed_side=fs)
        ds = drive.build(TYPE["sparse"], list(corpus.files), drive.runtime(rng.choice([1, 3, 8]), mode="test"), boardsizes=[(S, S)],
                         shuffle=rng.random() < 0.5, fixed_side_input=fs)
        got = read_all(ctx, ds, idx, "sparse")
        ctx.check(sorted(got) == sorted(r.rid for r in corpus.recs), "array:coverage", f"{len(got)} of {len(corpus.recs)} records")
        ctx.seen(name, S, fs, len(got))


def thread_case(ctx, name, rng):
    """Concurrent decoding through one shared cache while its limits move."""
    mk = gen.Maker(rng)
    d = ctx.tmp()
    nfiles = rng.randint(3, 8)
    corpus = gen.resolve_processed(gen.make_processed(mk, d, [rng.randint(3, 10) for _ in range(nfiles)], [(9, 9)]))
    with ctx.case(name, dict(nfiles=nfiles, records=len(corpus.recs))):
        idx = gen.Index([corpus])
        ds = drive.build(TYPE["batched"], list(corpus.files), drive.runtime(4, mode="train", seed=rng.randrange(1 << 30)), boardsizes=[(9, 9)],
                         shuffle=True, prefetch_threads=8, prefetch_batches=32, pin_memory=False)
        dec = decoder_of(ds)
        if dec is None:
            ctx.count("cache_unobservable")
            return
        stop = threading.Event()
        errs = []

        def shake():
            r = rng.__class__(1)
            while not stop.is_set():
                try:
                    dec.configure_cache(entries=r.choice([1, 2, 6]), byte_capacity=r.choice([1, 5000, 1 << 28]))
                    dec.cache_state()
                except Exception as e:  # noqa: BLE001
                    errs.append(e)
                    return

        th = threading.Thread(target=shake)
        th.start()
        try:
            for _ in range(ctx.n(3, 8)):
                seen = Counter()
                for env in drive.epoch(ds):
                    for rid, _, real in drive.identify(ctx, env, idx, mech="array"):
                        seen[rid] += 1
                        ctx.count("rows_read")
                ctx.check(not seen or max(seen.values()) == 1, "array:duplicate-record", "a record was decoded twice in one epoch")
        finally:
            stop.set()
            th.join()
        ctx.check(not errs, "array:cache-race", f"cache reconfiguration failed: {errs[:1]!r}")
        ctx.count("concurrent_epochs")
        ctx.seen(name)


# ---------------------------------------------------------------------- damage
def attempt(ctx, kinds, path, idx, bs, **kw):
    """Reads the archive in each mode; returns modes that accepted it without error. Rows must always be genuine."""
    ok = []
    for kind in kinds:
        try:
            if kind.startswith("map_"):
                ds = drive.build(TYPE[kind], [str(path)], drive.runtime(1), boardsizes=bs, shuffle=False, **kw)
                rows = [{k: np.asarray(v) for k, v in ds[i].items()} for i in range(len(ds))]
            else:
                over = dict(prefetch_threads=2, prefetch_batches=2, pin_memory=False) if kind == "batched" else {}
                ds = drive.build(TYPE[kind], [str(path)], drive.runtime(2, mode="test"), boardsizes=bs, shuffle=False, **over, **kw)
                rows = []
                for env in ds:
                    rows += gen.rows_of(env.data)
        except Violation:
            raise
        except Exception:  # noqa: BLE001
            ctx.count("damage_refused")
            continue
        ok.append((kind, rows))
    return ok


def damage_case(ctx, name, rng, i):
    mk = gen.Maker(rng)
    d = ctx.tmp()
    S = rng.choice([6, 9])
    family = ["processed", "raw", "sparse"][i % 3]
    n = rng.randint(3, 8)
    bs = [(S, S)]
    kw = {}
    if family == "processed":
        corpus = gen.make_processed(mk, d, [n], [(S, S)], stored=True)
        index_corpus = gen.resolve_processed(corpus)
        kinds = ["map_processed", "processed", "batched"]
    elif family == "raw":
        corpus = index_corpus = gen.make_raw(mk, d, [n], [(S, S)])
        kinds = ["map_raw", "raw"]
    else:
        corpus = index_corpus = gen.make_sparse(mk, d, [n], [(S, S)])
        kinds = ["sparse"]
    idx = gen.Index([index_corpus])
    with np.load(corpus.files[0]) as z:
        arrays = {k: z[k] for k in z.files}
    keys = [k for k in arrays if k not in ("gf", "pt", "sparseInputDim")]
    rowkeys = [k for k in arrays if k != "sparseInputDim"]
    method = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
    p = d / "bad.npz"

    def put(a, **k):
        write_npz(p, a, rng, method=method, version=(1, 0), **k)

    put(arrays)
    clean = p.read_bytes()
    with ctx.case(name, dict(family=family, S=S, n=n, method=method)):
        got = attempt(ctx, kinds, p, idx, bs, **kw)
        ctx.check(len(got) == len(kinds), "array:valid-refused", "an intact archive is refused")

        def must_refuse(label):
            for kind, rows in attempt(ctx, kinds, p, idx, bs, **kw):
                ctx.fail(f"damage:{label}", f"{family} archive with {label} accepted by {kind}: {len(rows)} rows")
            ctx.seen(family, label, method)

        # missing member
        a = dict(arrays)
        a.pop(rng.choice(keys))
        put(a)
        must_refuse("missing-field")
        # row counts differ, either way
        for sign in (-1, 1):
            k = rng.choice(rowkeys)
            a = dict(arrays)
            a[k] = a[k][:-1] if sign < 0 else np.concatenate([a[k], a[k][:1]])
            put(a)
            must_refuse("unequal-rows")
        # no rows at all
        a = {k: (v[:0] if k in rowkeys else v) for k, v in arrays.items()}
        put(a)
        for kind, rows in attempt(ctx, kinds, p, idx, bs, **kw):
            ctx.check(not rows, "damage:rows-from-nothing", f"{len(rows)} rows from an empty archive")
        # object arrays are never unpickled
        k = rng.choice(keys)
        a = dict(arrays)
        a[k] = np.array([Bomb()] * n, dtype=object)
        with zipfile.ZipFile(p, "w") as z:
            for kk, v in a.items():
                f = io.BytesIO()
                np.lib.format.write_array(f, v, allow_pickle=True)
                z.writestr(f"{kk}.npy", f.getvalue(), compress_type=method)
        Bomb.fired.clear()
        must_refuse("object-field")
        ctx.check(not Bomb.fired, "damage:unpickled", "reading an archive executed pickled code")
        # wrong ranks / cell counts
        k = {"processed": "bf", "raw": "binaryInputNCHWPacked", "sparse": "binaryInputNCHWPacked"}[family]
        a = dict(arrays)
        a[k] = a[k].reshape(n, -1)
        put(a)
        must_refuse("wrong-rank")
        pk = {"processed": "pt", "raw": "policyTargetsNCMove", "sparse": "policyTargetsNCHW"}[family]
        a = dict(arrays)
        a[pk] = np.concatenate([a[pk], a[pk][..., :3]], axis=-1)
        put(a)
        must_refuse("policy-width")
        # header claims more rows than stored
        k = rng.choice(keys)
        member = npy(arrays[k])
        fake = npy(np.concatenate([arrays[k]] * 2))
        hl = 10 + int.from_bytes(fake[8:10], "little")
        body = fake[:hl] + member[10 + int.from_bytes(member[8:10], "little"):]
        with zipfile.ZipFile(p, "w") as z:
            for kk, v in arrays.items():
                z.writestr(f"{kk}.npy", body if kk == k else npy(v), compress_type=method)
        must_refuse("header-overclaims")
        # truncated and bit-flipped archives
        for _ in range(4):
            p.write_bytes(clean[: rng.randrange(1, len(clean))])
            must_refuse("truncation")
        with zipfile.ZipFile(io.BytesIO(clean)) as z:
            spans = []
            for info in z.infolist():
                if info.filename[:-4] in rowkeys:
                    o = info.header_offset
                    start = o + 30 + int.from_bytes(clean[o + 26:o + 28], "little") + int.from_bytes(clean[o + 28:o + 30], "little")
                    spans.append((start, start + info.compress_size))
        for _ in range(6):
            lo, hi = rng.choice(spans)
            pos = rng.randrange(lo, hi)
            b = bytearray(clean)
            b[pos] ^= 1 << rng.randrange(8)
            p.write_bytes(bytes(b))
            # unused bits of a compressed stream may change without harm
            for kind, rows in attempt(ctx, kinds, p, idx, bs, **kw):
                ids = [idx.lookup(r)[0] for r in rows]
                ctx.check(None not in ids and len(set(ids)) == n, "damage:bit-flip",
                          f"{family} archive with a flipped bit at byte {pos} delivers other data through {kind}")
                ctx.count("harmless_flips")


class Bomb:
    fired = []

    def __reduce__(self):
        return (_boom, ())


def _boom():
    Bomb.fired.append(1)
    return 0


def per_file_case(ctx, name, rng):
    """Rows missing in one file and spare in another must not cancel out."""
    mk = gen.Maker(rng)
    d = ctx.tmp()
    S = 6
    with ctx.case(name, {}):
        corpus = gen.make_processed(mk, d, [5, 6, 4], [(S, S)], stored=rng.random() < 0.5)
        k = rng.choice(["vt", "pt", "gf"])
        i, j = rng.sample(range(3), 2)
        for f, sign in ((i, -1), (j, 1)):
            with np.load(corpus.files[f]) as z:
                a = {x: z[x] for x in z.files}
            a[k] = a[k][:-1] if sign < 0 else np.concatenate([a[k][:1], a[k]])
            write_npz(corpus.files[f], a, None, method=zipfile.ZIP_DEFLATED)
        for kind in ("map_processed", "processed", "batched"):
            over = dict(prefetch_threads=2, prefetch_batches=2, pin_memory=False) if kind == "batched" else {}
            try:
                ds = drive.build(TYPE[kind], list(corpus.files), drive.runtime(1, mode="train" if kind == "map_processed" else "test"), boardsizes=[(S, S)], shuffle=False, **over)
                n = sum(1 for _ in ds) if kind != "map_processed" else len(ds)
            except Exception:  # noqa: BLE001
                ctx.count("damage_refused")
            else:
                ctx.fail("damage:unequal-rows", f"{kind} accepts files whose {k} rows are shifted against each other ({n} rows)")
        ctx.seen(k, i, j)


def run(ctx):
    ctx.rule = ("array corpora in every family re-encoded with other dtypes, byte orders, layouts, NPY versions and zip members, read "
                "through map, iterative and batched access under small caches, threads, filters and channel selections, compared "
                "row by row with the generated content and with each other; plus archives damaged in known ways. "
                "Non-trivial: distinct delivered record sets and distinct kinds of damage")
    ctx.require("rows_read", 2500)
    ctx.require("mode_comparisons", 60)
    ctx.require("damage_refused", 200)
    ctx.require("concurrent_epochs", 2)
    for name, rng in ctx.cases("processed", 110, 3000, share=0.3):
        processed_case(ctx, name, rng)
    for name, rng in ctx.cases("raw", 60, 1500, share=0.15):
        raw_case(ctx, name, rng)
    for name, rng in ctx.cases("sparse", 30, 600, share=0.1):
        sparse_case(ctx, name, rng)
    for name, rng in ctx.cases("threads", 8, 120, share=0.15):
        thread_case(ctx, name, rng)
    for name, rng in ctx.cases("damage", 30, 600, share=0.2):
        damage_case(ctx, name, rng, int(name.split("#")[1]))
    for name, rng in ctx.cases("perfile", 8, 60, share=0.1):
        per_file_case(ctx, name, rng)
