"""Randomised dataset configurations with their content oracle."""
from dataclasses import dataclass, field

from . import drive, gen

ITER_KINDS = ["processed", "batched", "raw", "sparse", "simple", "packed"]
TYPE = {"processed": "iterative_processed_katago_numpy", "batched": "batched_processed_katago_numpy",
        "raw": "iterative_katago_numpy", "sparse": "iterative_sparse_numpy",
        "simple": "simple_binary", "packed": "packed_binary", "composite": "iterative_multi",
        "map_processed": "processed_katago_numpy", "map_raw": "katago_numpy"}
ALL_KINDS = ITER_KINDS + ["composite"]
SIZE_SETS = {
    "one": [(9, 9)], "one15": [(15, 15)], "two": [(7, 7), (9, 9)], "three": [(7, 7), (8, 8), (11, 11)],
    "rect": [(7, 9)],
}


@dataclass
class Scenario:
    kind: str
    type: str
    paths: list
    kw: dict
    corpora: list
    index_kw: dict
    desc: dict = field(default_factory=dict)
    shape_of: dict = field(default_factory=dict)   # rid -> planner shape group

    def index(self):
        return gen.Index(self.corpora, **self.index_kw)

    def rids(self):
        return list(self.shape_of)

    def build(self, rt, **over):
        kw = dict(self.kw)
        kw.update(over)
        loader = kw.pop("loader_window", None)      # set the shuffle window through the data loader instead
        if loader is None or "shuffle_window_size" not in kw:
            return drive.build(self.type, self.paths, rt, **kw)
        from utils.training_utils import build_data_loader
        window = kw.pop("shuffle_window_size")
        ds = drive.build(self.type, self.paths, rt, **kw)
        if loader == "late":
            drive.planner_of(ds)
        build_data_loader(ds, batch_size=rt.global_batch_size, shuffle=True, shuffle_buffer_size=window, batch_by_boardsize=True)
        return ds

    @property
    def resumable(self):
        return not any(str(p).endswith("lz4") for c in self.corpora for p in c.files)


def rows_split(rng, total, nfiles):
    cuts = sorted(rng.randint(1, total) for _ in range(nfiles - 1))
    out, prev = [], 0
    for c in cuts + [total]:
        out.append(max(1, c - prev))
        prev = c
    return out


def make(rng, d, kind=None, *, total=None, nfiles=None, sizes=None, shuffle=None, sample_rate=1.0,
         symmetry=None, fixed_side=None, fixed_board=None, lz4=None, sub=False, mk=None, options=True, drop_extra=None,
         prefix="", has_pass=None, pad_ok=True):
    kind = kind or rng.choice(ITER_KINDS)
    if kind == "composite":
        return make_composite(rng, d, total=total, shuffle=shuffle, sample_rate=sample_rate, sizes=sizes,
                              symmetry=symmetry, lz4=lz4, nfiles=nfiles, has_pass=has_pass)
    total = total or rng.randint(5, 90)
    nfiles = nfiles or rng.randint(1, 5)
    if kind in ("simple", "packed") or kind in ("raw", "sparse", "map_raw"):
        opts = ["one", "two", "three", "one15"]
    else:
        opts = ["one", "two", "three", "rect", "one15"]
    if kind.startswith("map_"):
        opts = ["one", "rect", "one15"] if kind == "map_processed" else ["one", "one15"]
    sizes = sizes or SIZE_SETS[rng.choice(opts)]
    square = all(h == w for h, w in sizes)
    if symmetry is None:
        symmetry = rng.choice([False, False, True, "rotate", "flip", "flip_diag_rotate180"]) if square else rng.choice([False, True])
    if fixed_side is None:
        fixed_side = rng.random() < 0.4
    if fixed_board is None and pad_ok and rng.random() < 0.25:
        m = max(max(s) for s in sizes)
        fixed_board = (m + rng.randint(0, 3),) * 2
    fixed_board = fixed_board or None
    if shuffle is None:
        shuffle = rng.random() < 0.75
    mk = mk or gen.Maker(rng)
    kw = dict(fixed_side_input=fixed_side, shuffle=shuffle, apply_symmetry=symmetry, boardsizes=list(sizes))
    if fixed_board:
        kw["fixed_board_size"] = fixed_board
    if not kind.startswith("map_"):
        kw["sample_rate"] = sample_rate
        if shuffle and not sub:
            kw["shuffle_window_size"] = rng.choice([1, 2, 5, 16, 64, 4096])
    keep = None
    index_kw = dict(symmetry=symmetry, fixed_side=fixed_side, fixed_board=fixed_board)
    desc = {}
    split = rows_split(rng, total, nfiles)
    if kind in ("processed", "batched", "map_processed"):
        hp = rng.random() < 0.4 if has_pass is None else has_pass
        full = options and rng.random() < 0.6
        with_gf = not full or rng.random() < 0.8
        c0 = gen.make_processed(mk, d, split, sizes, prefix=prefix + "p", with_gf=with_gf,
                                with_pt=rng.random() < 0.9, channels=rng.choice([2, 2, 4]) if full else 2,
                                vt_cols=rng.choice([3, 5]) if full else 3, gf_cols=rng.choice([1, 3]) if full else 1)
        r0 = c0.recs[0].e["_raw"]
        bc = vc = sc = None
        if r0["bf"].shape[0] > 2:
            bc = rng.choice([[0, 1], [0, 1, 2]])
            if fixed_side:
                bc = [0, 1]
        if r0["vt"].shape[0] > 3:
            vc = rng.choice([[0, 1, 2], [2, 1, 0], [3, 4, 0]])
        if "gf" in r0 and r0["gf"].shape[0] > 1:
            sc = 0
        corpus = gen.resolve_processed(c0, has_pass=hp, bc=bc, sc=sc, vc=vc)
        if hp:
            kw["has_pass_move"] = True
        if bc:
            kw["board_input_channels"] = bc
        if vc:
            kw["value_target_channels"] = vc
        if sc is not None:
            kw["stm_input_channel"] = sc
        if kind == "batched":
            kw["prefetch_threads"] = rng.choice([0, 1, 2, 4])
            kw["prefetch_batches"] = rng.choice([1, 2, 7, 32])
            kw["pin_memory"] = False
    elif kind in ("raw", "map_raw"):
        hp = rng.random() < 0.4 if has_pass is None else has_pass
        td = rng.choice([0, 0, 1, 3])
        corpus = gen.make_raw(mk, d, split, sizes, has_pass=hp, td_level=td, global_cols=rng.choice([1, 19]),
                              prefix=prefix + "r", compressed=rng.random() < 0.5)
        if hp:
            kw["has_pass_move"] = True
        if td:
            kw["value_td_level"] = td
    elif kind == "sparse":
        corpus = gen.make_sparse(mk, d, split, sizes, prefix=prefix + "s", compressed=rng.random() < 0.5)
    elif kind == "simple":
        corpus = gen.make_simple(mk, d, split, sizes, lz4=rng.random() < 0.25 if lz4 is None else lz4, prefix=prefix + "b")
    elif kind == "packed":
        hp = rng.random() < 0.3 if has_pass is None else has_pass
        o = dict(td_lambda=rng.choice([0.0, 0.4, 1.0]), dynamic=rng.random() < 0.5,
                 temperature=rng.choice([0.0, 0.05, 0.3]), use_mate=rng.random() < 0.5)
        split = rows_split(rng, max(2, total // 4), min(nfiles, max(2, total // 4)))
        corpus = gen.make_packed(mk, d, split, sizes, lz4=rng.random() < 0.25 if lz4 is None else lz4,
                                 has_pass=hp, passes=rng.random() < 0.5, prefix=prefix + "g", **o)
        kw.update(value_td_lambda=o["td_lambda"], dynamic_value_lambda=o["dynamic"],
                  multipv_temperature=o["temperature"], use_mate_multipv=o["use_mate"], has_pass_move=hp)
    else:
        raise ValueError(kind)
    if kind in ("simple", "packed"):
        de = (rng.random() < 0.4) if drop_extra is None else drop_extra
        if de:
            kw["drop_extra"] = True
            index_kw["drop_extra"] = True
        if not sub:
            kw["sequential_active_streams"] = rng.choice([1, 2, 3, 8])
            kw["sequential_read_quantum"] = rng.choice([1, 2, 5, 256])
        if options and rng.random() < 0.3:
            rules = rng.sample(["freestyle", "standard", "renju"], 2)
            kw["rules"] = rules
            keep = (lambda rs: lambda r: r.e["_rule"] in rs)(rules)
        if options and len(sizes) > 1 and rng.random() < 0.3 and kind in ("simple", "packed"):
            ban = sizes[0]
            kw["boardsizes"] = [s for s in sizes if s != ban]
            k0 = keep
            keep = lambda r, k0=k0, ban=ban: (k0 is None or k0(r)) and tuple(int(v) for v in r.e["board_size"]) != ban
    index_kw["keep"] = keep
    shape = {}
    for r in corpus.recs:
        if keep is None or keep(r):
            shape[r.rid] = tuple(fixed_board) if fixed_board else tuple(int(v) for v in r.e["board_size"])
    desc.update(kind=kind, split=split, sizes=sizes, kw={k: v for k, v in kw.items()}, records=len(shape))
    s = Scenario(kind, TYPE[kind], corpus.files, kw, [corpus], index_kw, desc, shape)
    if not shape:
        return make(rng, d, kind, total=total, nfiles=nfiles, sizes=sizes, options=False, prefix=prefix + "z", mk=mk,
                    shuffle=shuffle, sample_rate=sample_rate, symmetry=symmetry, fixed_side=fixed_side,
                    fixed_board=fixed_board, lz4=lz4, sub=sub, drop_extra=drop_extra, has_pass=has_pass, pad_ok=pad_ok)
    return s


def batch_for(rng, scen, world=1, cap=None):
    """A batch size for which at least one full global batch exists."""
    from collections import Counter
    biggest = max(Counter(scen.shape_of.values()).values())
    hi = max(1, min(biggest, cap or 24))
    b = rng.randint(1, hi)
    b -= b % world
    return max(world, b) if biggest >= world else None


def make_composite(rng, d, *, total=None, sync=False, children=None, sample_rate=1.0, shuffle=None, kind=None,
                   ratios=None, sizes=None, symmetry=None, lz4=None, nfiles=None, has_pass=None):
    """iterative_multi over 2-3 children with exact integer ratios."""
    kind = kind or rng.choice(["processed", "raw", "sparse", "simple", "packed", "mixproc"])
    k = children or rng.choice([2, 2, 3])
    fixed_side = rng.random() < 0.4
    hp = rng.random() < 0.3
    has_pass = hp if has_pass is None else has_pass
    sizes = sizes or SIZE_SETS[rng.choice(["one", "two", "three"])]
    fixed_board = (max(max(s) for s in sizes) + rng.randint(0, 2),) * 2 if rng.random() < 0.25 else None
    shuffle = (rng.random() < 0.7) if shuffle is None else shuffle
    drop = rng.random() < 0.4 if kind in ("simple", "packed") else None
    if kind == "blend":
        drop, has_pass = True, False
    symmetry = rng.choice([False, True]) if symmetry is None else symmetry
    mk = gen.Maker(rng)
    ratios = ratios or [rng.choice([1, 2, 3, 0.5, 1.5]) for _ in range(k)]
    dd, corpora, shape, per_child, subs = {}, [], {}, {}, []
    total = total or rng.randint(12, 90)
    for i in range(k):
        ck = rng.choice(["processed", "batched"]) if kind == "mixproc" else kind
        if kind == "blend":     # two binary game formats together
            ck = ["simple", "packed", "simple"][i]
        sub = make(rng, d, ck, total=max(3, total // k + rng.randint(-2, 4)), nfiles=nfiles or rng.randint(1, 2), sizes=sizes,
                   shuffle=shuffle, sample_rate=sample_rate, symmetry=symmetry, fixed_side=fixed_side,
                   fixed_board=fixed_board or False, sub=True, mk=mk, options=False, has_pass=has_pass,
                   drop_extra=drop, prefix=f"c{i}", pad_ok=False, lz4=False if lz4 is None else lz4)
        kw = {a: b for a, b in sub.kw.items()
              if a not in ("fixed_side_input", "shuffle", "apply_symmetry", "boardsizes", "fixed_board_size", "sample_rate")}
        name = f"ch{i}"
        dd[name] = dict(dataset_type=sub.type, data_paths=[str(p) for p in sub.paths], blend_ratio=ratios[i], **kw)
        corpora += sub.corpora
        shape.update(sub.shape_of)
        per_child[name] = sorted(sub.shape_of)
        subs.append(sub)
    kw = dict(dataset_dict=dd, sync_length=sync, fixed_side_input=fixed_side, shuffle=shuffle, apply_symmetry=symmetry,
              boardsizes=list(sizes), sample_rate=sample_rate)
    if fixed_board:
        kw["fixed_board_size"] = fixed_board
    if shuffle:
        kw["shuffle_window_size"] = rng.choice([1, 5, 16, 4096])
    index_kw = dict(symmetry=symmetry, fixed_side=fixed_side, fixed_board=fixed_board,
                    keep=None, drop_extra=bool(drop))
    s = Scenario("composite", TYPE["composite"], [], kw, corpora, index_kw,
                 dict(kind="composite", child_kind=kind, ratios=ratios, sync=sync, sizes=sizes,
                      children={n: len(v) for n, v in per_child.items()}, kw=kw), shape)
    s.per_child = per_child
    s.ratios = ratios
    return s
