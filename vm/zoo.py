"""Model configurations of every registered family, and batches to feed them."""
import numpy as np

ANY = [(5, 5), (6, 6), (7, 7), (8, 8), (9, 9), (11, 11), (13, 13), (15, 15), (7, 9), (10, 6), (12, 15), (20, 20)]
SEVEN = [(7, 7)]


def _inp(rng, stm=True):
    kinds = ["basic-nostm", "basicns", "basic", "basic", "pcode4", "pcode3-nostm", "combpat4", "combpat3-nostm", "linepat2", "linepat2-nostm"]
    return rng.choice(kinds)


def _flat(rng):
    return {"input_type": rng.choice(["basic-nostm", "basicns", "basic"]), "value_no_draw": rng.random() < 0.4}


def _m(rng):
    return rng.choice([8, 16, 24])


def _vq(rng):
    return {"codebook_size": rng.choice([8, 16, 32]), "use_cosine_sim": rng.random() < 0.4}


def _mix9(rng):
    f = rng.choice([32, 48, 64])
    return {"dim_middle": _m(rng), "dim_feature": f, "dim_policy": 16, "dim_value": rng.choice([32, 64]),
            "dim_dwconv": rng.choice([16, 32]), "input_type": _inp(rng)}


FAMILIES = {
    "flat_nnue_v1": lambda r: ({"flat_board_size": [7, 7], "dim_policy": r.choice([0, 8, 16]), "dim_value": r.choice([8, 32]),
                                "input_type": _inp(r)}, SEVEN),
    "flat_ladder7x7_nnue_v1": lambda r: ({"dim_middle": _m(r), "dim_policy": r.choice([0, 8, 16]), "dim_value": 32, **_flat(r)}, SEVEN),
    "flat_ladder7x7_nnue_v2": lambda r: ({"dim_middle": _m(r), "dim_policy": r.choice([0, 8, 16]), "dim_value": 32, **_flat(r)}, SEVEN),
    "flat_ladder7x7_nnue_v3": lambda r: ({"dim_middle": _m(r), "dim_global_feature": r.choice([16, 32]), "dim_conv_feature": r.choice([16, 32]), **_flat(r)}, SEVEN),
    "flat_posconv3x3_nnue": lambda r: ({"dim_middle": _m(r), "dim_feature": r.choice([8, 32]), **_flat(r)}, SEVEN),
    "flat_posconv3x4_4x3_nnue": lambda r: ({"dim_middle": _m(r), "dim_feature": r.choice([8, 32]), **_flat(r)}, SEVEN),
    "flat_hashconv_nnue": lambda r: ({"kernel_size": r.choice([2, 3]), "hash_logsize": r.choice([8, 12]), "dim_feature": r.choice([16, 32]), **_flat(r), "input_type": "basicns"}, [(5, 5), (6, 6), (7, 7), (7, 6)]),
    "flat_hash7x7_nnue_v1": lambda r: ({"hash_logsize": r.choice([8, 12]), "dim_feature": 32, "sub_features": r.choice([1, 1, 2, 3]), "sub_divisor": r.choice([2, 4]), **_flat(r), "input_type": "basicns"}, SEVEN),
    "flat_square7x7_nnue_v1": lambda r: ({"dim_middle": _m(r), "dim_feature": r.choice([4, 8]), "quant_int4": r.random() < .5, **_flat(r)}, SEVEN),
    "flat_square7x7_nnue_v2": lambda r: ({"dim_middle": _m(r), "dim_feature": r.choice([16, 32]), "quant_int4": r.random() < .5, **_flat(r)}, SEVEN),
    "flat_square7x7_nnue_v3": lambda r: ({"dim_middle": _m(r), "dim_feature": r.choice([16, 32]), "quant_int4": r.random() < .5, **_flat(r)}, SEVEN),
    "flat_square7x7_nnue_v4": lambda r: ({"dim_middle": _m(r), "dim_feature": r.choice([16, 32]), "unit_feature_vector": r.random() < .5, **_flat(r)}, SEVEN),
    "flat_square7x7_nnue_v4_vq": lambda r: ({"dim_middle": _m(r), "dim_feature": 16, **_vq(r), **_flat(r)}, SEVEN),
    "linear": lambda r: ({"has_draw_value": r.random() < .5, "two_side": r.random() < .5, "fixed_side_input": r.random() < .5}, ANY),
    "linear_threat": lambda r: ({"has_draw_value": r.random() < .5, "two_side": r.random() < .5, "fixed_side_input": r.random() < .5}, ANY),
    "linear_p4countmlp": lambda r: ({"has_draw_value": r.random() < .5, "two_side": r.random() < .5, "fixed_side_input": r.random() < .5}, ANY),
    "linennuev1": lambda r: ({"dim_feature": 32, "dim_policy": 16, "dim_value": 32, "dim_dwconv": r.choice([16, 32])}, ANY),
    "mix6": lambda r: ({"dim_middle": _m(r), "dim_policy": r.choice([8, 16]), "dim_value": r.choice([16, 32]), "map_max": r.choice([0, 30]), "input_type": _inp(r)}, ANY),
    "mix7": lambda r: ({"dim_middle": _m(r), "dim_policy": r.choice([16, 32]), "dim_value": r.choice([16, 32]), "dim_dwconv": r.choice([None, 8, 16]),
                        "map_max": r.choice([0, 30]), "input_type": _inp(r), "dwconv_kernel_size": r.choice([3, 5])}, ANY),
    "mix8": lambda r: ({"dim_middle": _m(r), "dim_policy": 16, "dim_value": 32, "dim_value_group": 16, "dim_dwconv": r.choice([None, 16, 32]), "input_type": _inp(r)}, ANY),
    "mix9": lambda r: ({**_mix9(r), "one_mapping": r.random() < .5, "no_star_block": r.random() < .4, "no_dynamic_pwconv": r.random() < .4,
                        "no_value_group": r.random() < .4, "use_channel_last": r.random() < .5}, ANY),
    "mix9s": lambda r: (_mix9(r), ANY),
    "mix9svq": lambda r: ({**_mix9(r), **_vq(r), "input_type": "basicns", "dim_feature": 32, "dim_value": 32, "num_codebooks": r.choice([1, 2])}, ANY),
    "mix10": lambda r: ({"dim_middle": _m(r), "dim_feature": 64, "dim_dwconv": 32, "dim_value": 64, "input_type": _inp(r),
                         "spherical_feature": r.random() < .4}, ANY),
    "mobilenetv1": lambda r: ({"num_blocks": r.choice([1, 2]), "dim_feature": 16, "head_type": r.choice(["v0", "v0-nodraw"]), "input_type": _inp(r)}, ANY),
    "mobilenetv2": lambda r: ({"num_blocks": r.choice([1, 2]), "dim_feature": 16, "expand_ratio": r.choice([2, 6]), "head_type": r.choice(["v0", "v0-nodraw"]), "input_type": _inp(r)}, ANY),
    "patnetbaseline": lambda r: _pat(r, map_max=r.choice([0, 30]), dim_policy=8, dim_value=16),
    "patnetv1": lambda r: _pat(r, dim_policy=8, dim_value=16),
    "patnetv2": lambda r: _pat(r, dim_policy=8, dim_value=16, channels_last=r.random() < .5),
    "patnnuev1": lambda r: ({"dim_policy": 4, "dim_value": r.choice([4, 8])}, ANY),
    "patnnuev2": lambda r: ({"dim_policy": 4, "dim_value": r.choice([4, 8])}, ANY),
    "resnet": lambda r: ({"num_blocks": r.choice([1, 2]), "dim_feature": 16, "head_type": r.choice(["v0", "v0-nodraw"]), "input_type": _inp(r), "use_channel_last": r.random() < .5}, ANY),
    "resnetv2": lambda r: ({"num_blocks": r.choice([1, 2]), "dim_feature": 16, "head_type": r.choice(["v0", "v0-nodraw"]), "input_type": _inp(r), "use_channel_last": r.random() < .5}, ANY),
    "resnetv3": lambda r: ({"num_blocks": r.choice([1, 2]), "dim_feature": 16, "head_type": r.choice(["v0", "v0-nodraw"]), "input_type": r.choice(["mask", "maskns", "mask-nostm"]),
                            "drop_mask": r.random() < .3, "use_channel_last": r.random() < .3}, ANY),
}


def _pat(r, **kw):
    size = r.choice([7, 9, 15, 6])
    return ({**kw, "board_size": size, "embedding_type": r.choice(["pcode", "pcode-twoside", "pcode-board", "pcode-symboard"])}, [(size, size)])


def build(family, kwargs, seed):
    import torch
    from model import build_model
    torch.manual_seed(seed)
    return build_model(family, **kwargs)


def shake(model, rng, scale=1.0):
    """Give zero-initialised and constant parameters and statistics something to do."""
    import torch
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    with torch.no_grad():
        for n, p in model.named_parameters():
            if p.is_floating_point() and p.numel() and float(p.max()) == float(p.min()):
                p.add_(torch.randn(p.shape, generator=g) * 0.1 * scale)
        for m in model.modules():
            if hasattr(m, "running_mean") and m.running_mean is not None and not isinstance(m.running_mean, (int, float)):
                m.running_mean.copy_(torch.randn(m.running_mean.shape, generator=g) * 0.2)
                if getattr(m, "running_var", None) is not None:
                    m.running_var.copy_(torch.rand(m.running_var.shape, generator=g) + 0.5)


def wants_lines(model):
    return model == "mix9svq" or model == "linennuev1"


def batch(rng, sizes, pad=None, lines=False):
    """Synthetic positions; one board size per entry, padded to ``pad`` when they differ."""
    import torch
    r = np.random.default_rng(rng.randrange(1 << 62))
    H, W = pad or (max(s[0] for s in sizes), max(s[1] for s in sizes))
    B = len(sizes)
    board = np.zeros((B, 2, H, W), np.int8)
    sparse = np.zeros((B, 12, H, W), np.int32)
    dims = np.array([14] * 10 + [2380, 2380], np.int64)
    for i, (h, w) in enumerate(sizes):
        fill = r.choice([0, .1, .3, .6, 1])
        c = r.random((h, w))
        board[i, 0, :h, :w] = c < fill / 2
        board[i, 1, :h, :w] = (c >= fill / 2) & (c < fill)
        for k in range(12):
            sparse[i, k, :h, :w] = r.integers(0, dims[k], (h, w))
    out = {"board_size": torch.tensor(sizes, dtype=torch.int8 if rng.random() < .5 else torch.int64),
           "board_input": torch.from_numpy(board),
           "stm_input": torch.from_numpy(r.choice([-1., 1.], (B, 1)).astype(np.float32)),
           "sparse_feature_input": torch.from_numpy(sparse),
           "sparse_feature_dim": torch.from_numpy(dims).expand(B, 12).clone()}
    if lines:
        from dataset.pipeline.line_encoding import LineEncodingPipeline
        got = LineEncodingPipeline(line_length=11).process_batch({"board_input": board})
        out["line_encoding"] = torch.from_numpy(got["line_encoding"])
        out["line_encoding_total_num"] = torch.from_numpy(got["line_encoding_total_num"])
    return out


def select(data, idx):
    import torch
    return {k: v[idx] for k, v in data.items()}


def flat(out):
    """Every tensor of a model's per-position output."""
    return {k: v for k, v in out.items() if hasattr(v, "shape")}


def widen(model):
    """Evaluate in float64 so that rounding noise cannot flip a quantised step; returns the hook handles."""
    import torch
    model.double()

    def up(_m, _a, out):
        if isinstance(out, tuple):
            return tuple(o.double() if o.dtype == torch.float32 else o for o in out)
        return out.double() if out.dtype == torch.float32 else out

    from model import input as planes
    kinds = tuple(c for c in vars(planes).values() if isinstance(c, type) and issubclass(c, torch.nn.Module))
    return [m.register_forward_hook(up) for m in model.modules() if isinstance(m, kinds)]

