"""A saved stream position is honoured exactly or refused, never silently bent."""
import copy
import os
import shutil
from pathlib import Path

import numpy as np

from vm import digest, drive, gen, pipes, scenario
from vm.checks.p03 import baseline, roundtrip, stamp

REFUSED = (RuntimeError, ValueError, TypeError, KeyError)


def resume(scen, rt, state, n, over, late=False):
    """('refused', error) or ('served', stamps)."""
    try:
        ds = scen.build(rt, **over)
        pl = drive.planner_of(ds)
        pl.load_state_dict(state)
    except REFUSED as e:
        return "refused", e
    out = []
    try:
        while len(out) < n:
            k = len(out)
            for e in ds:
                pl.commit_batch(e.token)
                out.append(stamp(e))
                if len(out) >= n:
                    break
            if len(out) == k:
                break
    except Exception as e:
        if not late:
            raise
        return "failed", out
    return "served", out


def config_changes(rng, scen, B):
    """(label, runtime kwargs, dataset kwargs) that alter what is delivered."""
    kw = scen.kw
    out = [("seed", dict(seed=1), {}), ("batch", dict(batch=B + 1), {}), ("mode", dict(mode="validate"), {}),
           ("shuffle", {}, dict(shuffle=not kw["shuffle"])),
           ("sample_rate", {}, dict(sample_rate=0.5 if kw.get("sample_rate", 1.0) == 1.0 else 1.0)),
           ("steps", {}, dict(steps_per_epoch=1)),
           ("fixed_side", {}, dict(fixed_side_input=not kw["fixed_side_input"])),
           ("fixed_board", {}, dict(fixed_board_size=(19, 19) if "fixed_board_size" not in kw else None)),
           ("boardsizes", {}, dict(boardsizes=[(20, 20)])),
           ("symmetry", {}, dict(apply_symmetry="rotate180" if kw["apply_symmetry"] is False else False)),
           ("pipeline", {}, dict(pipeline_args={"vm_counter": {"start": 3}}))]
    if kw["shuffle"]:
        out.append(("window", {}, dict(shuffle_window_size=kw.get("shuffle_window_size", 32768) + 3)))
        out.append(("bytes", {}, dict(shuffle_buffer_bytes=1500)))
    if scen.kind in ("simple", "packed"):
        out.append(("streams", {}, dict(sequential_active_streams=kw["sequential_active_streams"] + 1)))
        out.append(("quantum", {}, dict(sequential_read_quantum=kw["sequential_read_quantum"] + 1)))
        out.append(("drop_extra", {}, dict(drop_extra=not kw.get("drop_extra", False))))
        out.append(("rules", {}, dict(rules=["renju"])))
    if scen.kind == "packed":
        out += [("td_lambda", {}, dict(value_td_lambda=0.77)), ("temperature", {}, dict(multipv_temperature=0.9)),
                ("mate", {}, dict(use_mate_multipv=not kw["use_mate_multipv"])),
                ("dynamic", {}, dict(dynamic_value_lambda=not kw["dynamic_value_lambda"])),
                ("has_pass", {}, dict(has_pass_move=not kw["has_pass_move"])),
                ("winrate", {}, dict(winrate_model_args={"scaling_factor": 111.0}))]
    if scen.kind in ("processed", "batched", "raw"):
        out += [("has_pass", {}, dict(has_pass_move=not kw.get("has_pass_move", False))),
                ("filter_stm", {}, dict(filter_stm=1)),
                ("filter", {}, dict(filter_condition="policy_target.sum() > 1.5"))]
    if scen.kind == "raw":
        out.append(("td_level", {}, dict(value_td_level=2 if kw.get("value_td_level") != 2 else 4)))
    if scen.kind in ("processed", "batched"):
        out.append(("value_channels", {}, dict(value_target_channels=[1, 0, 2])))
        out.append(("board_channels", {}, dict(board_input_channels=[1, 0])))
    return out


def clone(d, paths):
    out = []
    for p in paths:
        q = Path(d) / Path(p).name
        shutil.copyfile(p, q)
        out.append(str(q))
    return out


def file_changes(ctx, rng, scen):
    """(label, new paths, guaranteed_to_matter) variations of the corpus."""
    out = []
    if len(scen.paths) > 1:
        out.append(("drop-file", scen.paths[:-1]))
        out.append(("drop-first", scen.paths[1:]))
        # same names, contents exchanged
        d = ctx.tmp("swap")
        new = clone(d, scen.paths)
        a, b = rng.sample(range(len(new)), 2)
        if Path(scen.paths[a]).read_bytes() != Path(scen.paths[b]).read_bytes():
            shutil.copyfile(scen.paths[a], new[b])
            shutil.copyfile(scen.paths[b], new[a])
            out.append(("swap-contents", new))
    # one record altered in place (same length, same name, same mtime)
    d = ctx.tmp("edit")
    new = clone(d, scen.paths)
    i = rng.randrange(len(new))
    if new[i].endswith(".npz"):
        with np.load(new[i]) as z:
            arrs = {k: z[k].copy() for k in z.files}
        key = next((k for k in ("vt", "valueTargetsNCHW", "globalTargetsNC", "globalTargetsNC") if k in arrs), None)
        if key is None:
            cands = [k for k in arrs if arrs[k].dtype.kind == "f" and arrs[k].size]
            key = cands[0] if cands else None
        if key is not None:
            r = rng.randrange(len(arrs[key]))
            arrs[key][r] = arrs[key][r][..., ::-1] if arrs[key][r].size > 1 and not np.array_equal(
                arrs[key][r], arrs[key][r][..., ::-1]) else 1 - arrs[key][r]
            np.savez_compressed(new[i], **arrs)
            out.append(("edit-row", new))
    else:
        b = bytearray(Path(new[i]).read_bytes())
        out_paths = new
        # flip one bit of the last byte (a move coordinate / evaluation field)
        b[-1] ^= 1
        Path(new[i]).write_bytes(bytes(b))
        out.append(("edit-byte", out_paths))
    for label, paths in out:
        for p, q in zip(paths, scen.paths):
            if str(p) not in map(str, scen.paths):      # copies only: the corpus itself stays untouched
                st = os.stat(q)
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    return out


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield path + (k,)
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))


def put(x, path, fn):
    if len(path) == 1:
        if isinstance(x, tuple):
            x = list(x)
        fn(x, path[0])
        return x
    if isinstance(x, tuple):
        x = list(x)
    x[path[0]] = put(x[path[0]], path[1:], fn)
    return x


def run(ctx):
    ctx.rule = ("a position saved in one configuration is restored after one change: a sampling/decoding option, the seed, "
                "batch or topology, corpus contents (reordered, edited, removed files), or a damaged field of the saved "
                "state; the restore must be refused, or continue byte-identically. Non-trivial: distinct (format, change)")
    ctx.require("refusals", 150)
    ctx.require("damage_trials", 100)
    pipes.register()
    kinds = scenario.ITER_KINDS
    for name, rng in ctx.cases("change", 42, 500, share=0.6):
        kind = kinds[int(name.split("#")[1]) % len(kinds)]
        scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(12, 50), lz4=False, nfiles=rng.randint(2, 4))
        B = scenario.batch_for(rng, scen, cap=6)
        with ctx.case(name, dict(scen.desc, B=B)):
            rt = drive.runtime(B, seed=99)
            base = baseline(scen, rt, 2)
            cut = rng.randint(0, len(base) - 1)
            ds = scen.build(rt)
            pl = drive.planner_of(ds)
            n = 0
            while n < cut:
                for e in ds:
                    pl.commit_batch(e.token)
                    n += 1
                    if n >= cut:
                        break
            state = roundtrip(pl.state_dict())
            want = base[cut:]
            kindname, got = resume(scen, rt, copy.deepcopy(state), len(want), {})
            ctx.check(kindname == "served" and got == want, "restore:self", f"an unchanged restore was {kindname}: {got if kindname == 'refused' else ''}")
            trials = []
            for label, rk, dk in config_changes(rng, scen, B):
                a = dict(batch=B, seed=99, mode="train")
                a.update(rk)
                trials.append((label, scen, drive.runtime(a["batch"], seed=a["seed"], mode=a["mode"]), dk))
            for w, lb in ((2, None),):
                if B % 2 == 0:
                    trials.append(("world", scen, drive.runtime(B, world=2, rank=1, seed=99), {}))
            for label, paths in file_changes(ctx, rng, scen):
                s2 = scenario.Scenario(scen.kind, scen.type, paths, scen.kw, scen.corpora, scen.index_kw)
                trials.append((label, s2, rt, {}))
            for label, sc, r2, dk in [("self", scen, rt, {})] + trials + [("self", scen, rt, {})]:
                kindname, got = resume(sc, r2, copy.deepcopy(state), len(want), dk)
                if kindname == "refused":
                    ctx.count("refusals")
                    ctx.count(f"refused:{label}")
                    ctx.check(label != "self", "restore:self", f"an unchanged restore was refused: {got!r}")
                else:
                    ctx.check(got == want, "restore:silently-different",
                              f"{kind}: restore accepted after changing {label} {dk} and then delivered other batches", change=label)
                    ctx.count(f"unaffected:{label}")
                ctx.seen(kind, label, kindname)
    # damaged state: must be refused, or the damaged field must be irrelevant
    for name, rng in ctx.cases("damage", 42, 600):
        kind = scenario.ALL_KINDS[int(name.split("#")[1]) % 7]
        scen = scenario.make(rng, ctx.tmp(), kind, total=rng.randint(12, 40), lz4=False, nfiles=rng.randint(1, 3))
        B = scenario.batch_for(rng, scen, cap=6)
        over = {"pipeline_args": {"vm_counter": {}}} if rng.random() < 0.5 else {}
        with ctx.case(name, dict(scen.desc, B=B)):
            rt = drive.runtime(B, seed=5)
            ds = scen.build(rt, **over)
            pl = drive.planner_of(ds)
            for i, e in enumerate(ds):
                pl.commit_batch(e.token)
                if i >= rng.randint(0, 3):
                    break
            state = roundtrip(pl.state_dict())
            # these two fields are optional in the format (absent means none / zero)
            paths = [p for p in leaves(state) if p and p[-1] not in ("pending", "source_cycle")]
            for _ in range(ctx.n(10, 24)):
                p = rng.choice(paths)
                how = rng.choice(["delete", "type"])

                def fn(c, k):
                    if how == "delete" and isinstance(c, dict):
                        del c[k]
                    else:
                        c[k] = {"vm": 1} if how == "type" else None
                bad = put(copy.deepcopy(state), p, fn)
                kindname, got = resume(scen, rt, bad, 3, over, late=True)
                ctx.count("damage_trials")
                ctx.count(f"damage_{kindname}")
                ctx.seen("damage", kind, p[:4], how, kindname)
                if kindname != "refused":
                    ok = resume(scen, rt, copy.deepcopy(state), 3, over)[1]
                    ctx.check(got == ok[:len(got)] and (kindname == "failed" or len(got) == len(ok)), "restore:damaged-state-served",
                              f"state with {how} at {p} was accepted and delivered other batches", path=p)
            for k in ("version", "planner_algorithm", "signature", "cursor", "cursor_digest"):
                bad = copy.deepcopy(state)
                bad[k] = "tampered" if not isinstance(bad[k], int) else bad[k] + 1
                ctx.check(resume(scen, rt, bad, 1, over)[0] == "refused", "restore:tampered-header", f"tampered {k!r} accepted")
                ctx.count("refusals")
            neg = copy.deepcopy(state)
            neg["cursor"]["batch_index"] = -1
            ctx.check(resume(scen, rt, neg, 1, over)[0] == "refused", "restore:negative-position", "negative batch index accepted")
