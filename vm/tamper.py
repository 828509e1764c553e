"""Damage to a run directory, applied in a forked child (needs torch to rewrite state files)."""
import copy
import hashlib
import os
import random
import shutil
from pathlib import Path


def digests(d):
    """{relative name: sha256} of every regular file in the checkpoint directory."""
    d = Path(d)
    return {str(p.relative_to(d)): hashlib.sha256(p.read_bytes()).hexdigest() for p in sorted(d.rglob("*")) if p.is_file()}


def files(ckpts):
    out = {"model": [], "state": [], "sidecar": []}
    for p in sorted(Path(ckpts).iterdir()):
        for kind, pre in (("model", "ckpt_"), ("state", "state_"), ("sidecar", "runtime_")):
            if p.name.startswith(pre) and p.name.endswith(".pt"):
                out[kind].append(p)
    return out


def iteration(p):
    return int(p.name.split("_")[1]) if p.name.startswith("runtime_") else int(p.name.rsplit("_", 1)[1][:-3])


def leaves(o, path=()):
    if isinstance(o, dict):
        for k in o:
            yield from leaves(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    else:
        yield path, o


def put(o, path, v):
    """o with the leaf replaced (tuples rebuilt)."""
    if not path:
        return v
    k = path[0]
    if isinstance(o, tuple):
        o = list(o)
        o[k] = put(o[k], path[1:], v)
        return tuple(o)
    o[k] = put(o[k], path[1:], v)
    return o


def change(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 7])
    if isinstance(v, float):
        return v + 0.5
    if isinstance(v, str):
        return v[:-1] + chr(ord(v[-1]) ^ 1) if v else "x"
    if isinstance(v, (bytes, bytearray)) and v:
        b = bytearray(v)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if v is None:
        return 0
    return None


STATE_KEYS = ["format_version", "optimizer_config", "scheduler_config", "resume", "metadata", "optimizers", "schedulers"]


def kinds(rundir, world):
    f = files(Path(rundir) / "ckpts")
    top = max((iteration(p) for p in f["state"]), default=None)
    if top is None:
        return []
    out = ["state-truncate", "state-garbage", "state-empty", "model-truncate", "model-garbage", "model-empty", "model-missing",
           "model-foreign", "state-renumber", "drop-key", "rank-missing", "rank-extra", "world", "version", "rank-leaf", "rank-leaf", "rank-leaf",
           "rank-slot", "optim-config-leaf", "sched-config-leaf", "metadata-iteration", "rank-string", "optimizer-missing", "unsupported"]
    if any(iteration(p) != top for p in f["model"]):
        out.append("model-other-iteration")
    if any(iteration(p) != top for p in f["state"]):
        out.append("state-other-iteration")
    if [p for p in f["sidecar"] if iteration(p) == top]:
        out += ["sidecar-truncate", "sidecar-flip", "sidecar-missing", "sidecar-empty", "sidecar-flip", "sidecar-swap", "sidecar-link"]
    return out


def apply(rundir, kind, seed):
    """Tamper with the newest checkpoint; returns what was done."""
    import torch
    rng = random.Random(seed)
    ck = Path(rundir) / "ckpts"
    f = files(ck)
    top = max(iteration(p) for p in f["state"])
    state = next(p for p in f["state"] if iteration(p) == top)
    cur = [p for p in f["model"] if iteration(p) == top]
    side = [p for p in f["sidecar"] if iteration(p) == top]
    what, _, how = kind.partition("-")
    pick = {"state": [state], "model": cur, "sidecar": side}.get(what)
    if pick and how in ("truncate", "garbage", "empty", "missing", "flip", "link"):
        p = rng.choice(pick)
        b = bytearray(p.read_bytes())
        if how == "truncate":
            p.write_bytes(b[:rng.choice([len(b) - 1, len(b) // 2, rng.randrange(1, len(b))])])
        elif how == "garbage":
            n = min(len(b), 64)
            p.write_bytes(bytes(rng.randrange(256) for _ in range(n)) + b[n:])
            if b[:n] == p.read_bytes()[:n]:
                raise AssertionError
            # both ends, so that an archive directory does not survive
            c = bytearray(p.read_bytes())
            c[-n:] = bytes(rng.randrange(256) for _ in range(n))
            p.write_bytes(c)
        elif how == "empty":
            p.write_bytes(b"")
        elif how == "missing":
            p.unlink()
        elif how == "flip":
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
            p.write_bytes(b)
            return f"{kind} {p.name} byte {i}"
        elif how == "link":
            keep = ck / "elsewhere.bin"
            p.rename(keep)
            p.symlink_to(rng.choice([keep, ck / "nowhere"]))
        return f"{kind} {p.name}"
    if kind == "sidecar-swap":
        other = [p for p in f["sidecar"] if p.read_bytes() != side[0].read_bytes()]
        if not other:
            return None
        side[0].write_bytes(rng.choice(other).read_bytes())
        return kind
    if kind == "model-other-iteration":
        p = rng.choice(cur)
        stem = p.name.rsplit("_", 1)[0]
        src = [q for q in f["model"] if q.name.rsplit("_", 1)[0] == stem and iteration(q) != top]
        if not src:
            return None
        p.write_bytes(rng.choice(src).read_bytes())
        return kind
    if kind == "state-other-iteration":
        state.write_bytes(rng.choice([p for p in f["state"] if p != state]).read_bytes())
        return kind
    if kind == "state-renumber":    # as if the newest checkpoint were a later one
        for p in cur + [state]:
            shutil.copy(p, p.with_name(p.name.rsplit("_", 1)[0] + f"_{top + 1:07d}.pt"))
        return kind
    if kind == "model-foreign":
        p = rng.choice(cur)
        o = torch.load(p, map_location="cpu", weights_only=True)
        sd = o["model"]
        keys = [k for k, v in sd.items() if v.dim() >= 1]
        k = rng.choice(keys)
        how = rng.choice(["shape", "missing", "extra"])
        if how == "shape":
            sd[k] = torch.cat([sd[k], sd[k]])
        elif how == "missing":
            del sd[k]
        else:
            sd["vm_" + k] = sd[k].clone()
        torch.save(o, p)
        return f"{kind} {how} {k}"
    o = torch.load(state, map_location="cpu", weights_only=True)
    what = kind
    ranks = o["resume"]["ranks"]
    if kind == "drop-key":
        k = rng.choice([k for k in STATE_KEYS if k in o])
        del o[k]
        what = f"{kind} {k}"
    elif kind == "rank-missing":
        ranks.pop(rng.randrange(len(ranks)))
    elif kind == "rank-extra":
        ranks.append(copy.deepcopy(rng.choice(ranks)))
    elif kind == "world":
        o["resume"]["world_size"] += rng.choice([1, -1])
    elif kind == "version":
        k = rng.choice(["format_version", "resume"])
        if k == "resume":
            o["resume"]["version"] = rng.choice([0, 3, None, "2"])
        else:
            o["format_version"] = rng.choice([0, 1, 3, None])
        what = f"{kind} {k}"
    elif kind in ("rank-leaf", "rank-slot", "rank-string", "unsupported"):
        r = rng.randrange(len(ranks))
        if kind == "rank-slot":
            k = rng.choice(["slot", "rank"])
            if k not in ranks[r]:
                return None
            ranks[r][k] = rng.choice([len(ranks), -1, None, "0", (r + 1) % max(2, len(ranks))])
        elif kind == "unsupported":
            ranks[r]["supported"] = False
        elif kind == "rank-string":
            k = rng.choice(["local_digest", "global_digest", "cursor_kind"])
            if k not in ranks[r]:
                return None
            ranks[r][k] = rng.choice(["", None, "0" * 64])
        else:
            all_ = [(p, v) for p, v in leaves(ranks[r]) if change(random.Random(0), v) is not None]
            # spread over the sections of the state, not over its bulk
            tops = sorted({p[0] for p, _ in all_}, key=str)
            t = rng.choice(tops)
            p, v = rng.choice([x for x in all_ if x[0][0] == t])
            new = change(rng, v)
            ranks[r] = put(ranks[r], p, new)
            what = f"{kind} {p} {str(v)[:40]} -> {str(new)[:40]}"
    elif kind in ("optim-config-leaf", "sched-config-leaf"):
        k = {"o": "optimizer_config", "s": "scheduler_config"}[kind[0]]
        p, v = rng.choice([(p, v) for p, v in leaves(o[k]) if change(random.Random(0), v) is not None])
        o[k] = put(o[k], p, change(rng, v))
        what = f"{kind} {p}"
    elif kind == "metadata-iteration":
        o["metadata"]["iteration"] += rng.choice([1, -1])
    elif kind == "optimizer-missing":
        k = rng.choice(["optimizers", "schedulers"])
        o[k].pop(rng.choice(sorted(o[k])))
        what = f"{kind} {k}"
    else:
        raise KeyError(kind)
    torch.save(o, state)
    return what
