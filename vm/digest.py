"""Order-sensitive digests of delivered batches."""
import hashlib

import numpy as np


def update(h, v):
    import torch
    if isinstance(v, torch.Tensor):
        v = v.detach().cpu().numpy()
    if isinstance(v, np.ndarray):
        h.update(f"A{v.dtype.str}{v.shape}".encode())
        h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, dict):
        h.update(b"D")
        for k in sorted(v, key=str):
            h.update(str(k).encode() + b"=")
            update(h, v[k])
    elif isinstance(v, (list, tuple)):
        h.update(b"L")
        for x in v:
            update(h, x)
    elif isinstance(v, (bytes, bytearray)):
        h.update(b"B" + bytes(v))
    else:
        h.update(repr(v).encode())
    h.update(b";")


def of(v):
    h = hashlib.blake2b(digest_size=12)
    update(h, v)
    return h.hexdigest()


def envelope(env):
    return of([dict(env.data), np.asarray(env.is_real), [tuple_tree(k) for k in env.sample_keys]])


def tuple_tree(k):
    if isinstance(k, (tuple, list)):
        return tuple(tuple_tree(x) for x in k)
    if isinstance(k, (np.integer,)):
        return int(k)
    return k
