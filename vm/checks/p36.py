"""P36: the hand-optimised operators and layers compute their plain definitions, forward and backward."""
import itertools
import math

import numpy as np


def t64(rng, *shape, scale=1.0, req=True):
    import torch
    g = torch.Generator().manual_seed(rng.getrandbits(40))
    x = torch.randn(*shape, generator=g, dtype=torch.float64) * scale
    return x.requires_grad_() if req else x


def fill(rng, mod, scale=0.7):
    """Random parameters and buffers-as-they-are, in double precision."""
    import torch
    mod.double()
    with torch.no_grad():
        for p in mod.parameters():
            if p.dtype.is_floating_point:
                p.copy_(t64(rng, *p.shape, scale=scale, req=False))
    return mod


def grads(out, ins, seed):
    import torch
    outs = [o for o in (out if isinstance(out, (tuple, list)) else [out]) if o is not None]
    g = torch.Generator().manual_seed(seed)
    ws = [torch.randn(o.shape, generator=g, dtype=torch.float64).to(o.dtype) for o in outs]
    return torch.autograd.grad(sum((o * w).sum() for o, w in zip(outs, ws)), ins, allow_unused=True, retain_graph=True)


def same(ctx, a, b, mech, what, tol=1e-9):
    import torch
    a = torch.zeros(()) if a is None else a
    b = torch.zeros(()) if b is None else b
    if a.shape != b.shape and (a.ndim == 0 or b.ndim == 0):
        a, b = torch.broadcast_tensors(a, b)
    ctx.check(a.shape == b.shape, mech + ":shape", lambda: f"{what}: shape {tuple(a.shape)}, definition gives {tuple(b.shape)}")
    a, b = a.detach().double(), b.detach().double()
    bad = ~torch.isclose(a, b, rtol=tol, atol=tol)
    ctx.check(not bool(bad.any()), mech, lambda: f"{what}: differs from the definition at {bad.nonzero()[0].tolist()}: {a[bad][0].item()!r} instead of "
                                                 f"{b[bad][0].item()!r} ({int(bad.sum())} of {a.numel()})")
    ctx.count("tensors_compared")


def both(ctx, got, want, ins, rng, mech, what, tol=1e-9, gtol=None):
    """Outputs and gradients of two computations over the same leaves."""
    gs, ws = (got if isinstance(got, (tuple, list)) else [got]), (want if isinstance(want, (tuple, list)) else [want])
    ctx.check(len(gs) == len(ws), mech, f"{what}: {len(gs)} outputs instead of {len(ws)}")
    for k, (a, b) in enumerate(zip(gs, ws)):
        ctx.check((a is None) == (b is None), mech, f"{what}: output {k} missing")
        if a is not None:
            same(ctx, a, b, mech, f"{what} output {k}", tol)
    seed = rng.getrandbits(30)
    for k, (a, b) in enumerate(zip(grads(gs, ins, seed), grads(ws, ins, seed))):
        same(ctx, a, b, mech + ":gradient", f"{what} gradient of input {k}", gtol or tol)


# ---------------------------------------------------------------- definitions
def line_conv(x, w, b, step, fill_value):
    """Three taps along one direction: out[y, x] = b + sum_k w[:, :, k] in[(y, x) + (k - 1) * step]."""
    import torch
    n, c, h, wd = x.shape
    p = torch.full((n, c, h + 2, wd + 2), float(fill_value), dtype=x.dtype)
    p[:, :, 1:-1, 1:-1] = x
    out = b.view(1, -1, 1, 1)
    for k in range(3):
        dy, dx = (k - 1) * step[0], (k - 1) * step[1]
        out = out + torch.einsum("oi,nihw->nohw", w[:, :, k], p[:, :, 1 + dy:1 + dy + h, 1 + dx:1 + dx + wd])
    return out


def quant(x, scale, bits, floor=False, signed=True, zero=0):
    """Clamp, then the nearest (or next lower) step; gradient 1 inside the range."""
    import torch
    if bits is not None:
        lo, hi = ((-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1))
        x = torch.clamp(x, lo / scale, hi / scale)
    q = x.detach() * scale + zero
    q = (torch.floor(q) if floor else torch.round(q)) - zero
    return (x - x.detach()) + q / scale


def safe(x, scale, eps=1e-6):
    """Moves values away from rounding ties and range limits so that one ulp decides nothing."""
    import torch
    with torch.no_grad():
        f = (x * scale * 2) % 1
        x += torch.where((f < eps) | (f > 1 - eps), torch.full_like(x, 0.21 / scale), torch.zeros_like(x))
    return x


STEPS = {False: [(0, 1), (1, 0), (1, 1), (-1, 1)], True: [(0, 1), (1, 0), (-1, 1), (1, 1)]}


def directional_case(ctx, name, rng):
    from model.layers.directional import DirectionalConvLayer
    nz, last, fix = rng.random() < 0.3, rng.random() < 0.5, rng.random() < 0.5
    ci, co = rng.choice([1, 2, 5]), rng.choice([1, 3, 4])
    h, w = rng.choice([(1, 1), (1, 4), (3, 3), (5, 7), (6, 2), (9, 9)])
    with ctx.case(name, dict(nonzero=nz, channel_last=last, fixed=fix, shape=(ci, co, h, w))):
        m = fill(rng, DirectionalConvLayer(ci, co, use_nonzero_padding=nz, use_channel_last=last, fix_direction_order=fix))
        xs = [t64(rng, 2, ci, h, w) if rng.random() < 0.85 else None for _ in range(4)]
        if all(x is None for x in xs):
            xs[1] = t64(rng, 2, ci, h, w)
        use = [x if x is None or rng.random() < 0.5 else x * 1.0 for x in xs]
        wt = m.weight if last else m.weight.permute(1, 2, 0)
        want = [None if x is None else line_conv(x, wt, m.bias, STEPS[fix][k], 1 if nz else 0) for k, x in enumerate(xs)]
        both(ctx, m(use), want, [x for x in xs if x is not None] + [m.weight, m.bias], rng, "directional", f"{name} pad {int(nz)} last {last} fixed {fix}")
        ctx.seen("dir", nz, last, fix, ci, co, h, w)


def pointwise_case(ctx, name, rng):
    import torch
    import torch.nn.functional as F
    from model.layers.convolution import PointwiseConv2d, pointwise_matmul
    from model.ops import dynamic_pointwise_conv2d
    n, ci, co, h, w = rng.choice([1, 3]), rng.choice([1, 2, 5]), rng.choice([1, 4]), rng.choice([1, 5]), rng.choice([1, 4, 7])
    with ctx.case(name, dict(shape=(n, ci, co, h, w))):
        x = t64(rng, n, ci, h, w)
        v = x
        lay = rng.choice(["plain", "last", "slice", "flip"])
        if lay == "last":
            v = x.contiguous(memory_format=torch.channels_last)
        elif lay == "slice":
            v = torch.cat([x, x], 3)[..., :w]
        elif lay == "flip":
            v = x.flip(3).flip(3)
        m = fill(rng, PointwiseConv2d(ci, co, bias=rng.random() < 0.7))
        ps = [x] + list(m.parameters())
        ref = torch.einsum("oi,nihw->nohw", m.weight[:, :, 0, 0], x)
        if m.bias is not None:
            ref = ref + m.bias.view(1, -1, 1, 1)
        both(ctx, m(v), ref, ps, rng, "pointwise", f"{name} {lay}")
        both(ctx, pointwise_matmul(v, m.weight.flatten(1), m.bias), F.conv2d(x, m.weight, m.bias), ps, rng, "pointwise", f"{name} {lay} against conv2d")
        wd = t64(rng, n, co * ci) if rng.random() < 0.5 else t64(rng, n, co, ci)
        both(ctx, dynamic_pointwise_conv2d(v, wd), torch.einsum("noi,nihw->nohw", wd.reshape(n, co, ci), x), [x, wd], rng, "dynamic-pointwise", name)
        ctx.seen("pw", lay, n, ci, co, h, w)


def mask_for(rng, n, h, w):
    import torch
    m = torch.zeros(n, 1, h, w, dtype=torch.float64)
    for i in range(n):
        m[i, :, :rng.randint(1, h), :rng.randint(1, w)] = 1
    return m


def plain_bn(x, mask, weight, bias, scale, eps):
    import torch
    c = x.shape[1]
    m = torch.ones_like(x[:, :1]) if mask is None else mask
    cnt = m.sum()
    v = lambda q: q.view(1, c, 1, 1)
    mean = (x * m).sum((0, 2, 3)) / cnt
    var = ((x - v(mean)) ** 2 * m).sum((0, 2, 3)) / cnt
    y = (x - v(mean)) / torch.sqrt(v(var) + eps)
    if scale is not None:
        y = y * scale
    if weight is not None:
        y = y * v(weight) + v(bias)
    return y * m, mean, var


def batchnorm_case(ctx, name, rng):
    import torch
    from model.layers.normalization import build_norm2d_layer, masked_batch_norm
    n, c, h, w = rng.choice([1, 2, 4]), rng.choice([1, 3]), rng.choice([2, 5]), rng.choice([3, 6])
    masked, affine = rng.random() < 0.7, rng.random() < 0.6
    with ctx.case(name, dict(masked=masked, affine=affine, shape=(n, c, h, w))):
        off = rng.choice([0.0, 3.0, -10.0])
        x = (t64(rng, n, c, h, w, scale=rng.choice([0.1, 1.0, 5.0]), req=False) + off).requires_grad_()
        mask = mask_for(rng, n, h, w) if masked else None
        wt, bs = (t64(rng, c), t64(rng, c)) if affine else (None, None)
        sc = torch.tensor(rng.choice([0.5, 1.7]), dtype=torch.float64) if rng.random() < 0.3 else None
        eps = rng.choice([1e-4, 1e-2])
        ins = [x] + ([wt, bs] if affine else [])
        got, want = masked_batch_norm(x, mask, wt, bs, sc, eps), plain_bn(x, mask, wt, bs, sc, eps)
        if mask is not None and int(mask.sum()) < 2:
            ctx.count("degenerate_masks")
            return
        both(ctx, got[0], want[0], ins, rng, "masked-bn", f"{name} offset {off}", tol=1e-7, gtol=1e-6)
        same(ctx, got[1], want[1], "masked-bn:moments", name, 1e-8)
        same(ctx, got[2], want[2], "masked-bn:moments", name, 1e-8)
        ctx.check(not got[1].requires_grad and not got[2].requires_grad, "masked-bn:moments", "the batch statistics carry gradients")
        # the layer: running statistics, evaluation
        kind = rng.choice(["maskbn", "maskbn-noaffine", "mask", "mask-affine"])
        m = fill(rng, build_norm2d_layer(kind, c))
        if kind.startswith("maskbn"):
            rm, rv = m.running_mean.clone(), m.running_var.clone()
            mom = m.running_avg_momentum
            for _ in range(rng.randint(1, 4)):
                z = (t64(rng, n, c, h, w, scale=2.0, req=False) + off).requires_grad_()
                mk = mask_for(rng, n, h, w) if masked else None
                w0, b0 = getattr(m, "weight", None), getattr(m, "bias", None)
                y, mean, var = plain_bn(z, mk, w0, b0, None, m.epsilon)
                keep = m.training
                if rng.random() < 0.25:
                    m.eval()
                    rs = lambda q: q.view(1, c, 1, 1)
                    y = (z - rs(rm)) / torch.sqrt(rs(rv) + m.epsilon)
                    if w0 is not None:
                        y = y * rs(w0) + rs(b0)
                    y = y if mk is None else y * mk
                    both(ctx, m(z, mk), y, [z] + list(m.parameters()), rng, "masknorm:eval", f"{name} {kind}", 1e-8)
                    m.train(keep)
                else:
                    if mk is not None and int(mk.sum()) < 2:
                        continue
                    both(ctx, m(z, mk), y, [z] + list(m.parameters()), rng, "masknorm:train", f"{name} {kind}", 1e-7, 1e-6)
                    rm = rm + mom * (mean.detach() - rm)
                    rv = rv + mom * (var.detach() - rv)
                same(ctx, m.running_mean, rm, "masknorm:running", f"{name} mean", 1e-8)
                same(ctx, m.running_var, rv, "masknorm:running", f"{name} variance", 1e-8)
        else:
            z, mk = t64(rng, n, c, h, w), mask_for(rng, n, h, w) if masked else None
            y = z
            if kind == "mask-affine":
                y = y * m.weight.view(1, c, 1, 1) + m.bias.view(1, c, 1, 1)
            both(ctx, m(z, mk), y if mk is None else y * mk, [z] + list(m.parameters()), rng, "masknorm:fixup", f"{name} {kind}")
        if rng.random() < 0.5:
            # half precision inputs: statistics in float32, output in the input's type
            lo = rng.choice([torch.bfloat16, torch.float16])
            xh = (t64(rng, 4, c, 6, 6, req=False) * 2).to(lo).requires_grad_()
            y, mean, var = masked_batch_norm(xh, None, None, None, None, 1e-4)
            r = plain_bn(xh.detach().double(), None, None, None, None, 1e-4)
            ctx.check(y.dtype == lo and mean.dtype == torch.float32, "masked-bn:dtype", f"{y.dtype} {mean.dtype}")
            same(ctx, mean, r[1], "masked-bn:half", name, 1e-5)
            same(ctx, y, r[0], "masked-bn:half", name, 0.02)
            ctx.count("half_precision")
        ctx.seen("bn", masked, affine, kind, n, c, h, w)


def embedding_case(ctx, name, rng):
    import torch
    from model.ops.embedding import small_table_embedding
    rows, dim = rng.choice([1, 3, 40]), rng.choice([1, 4])
    shape = rng.choice([(5,), (3, 4), (2, 2, 3, 3), (1,)])
    dt = rng.choice([torch.int64, torch.int32])
    with ctx.case(name, dict(rows=rows, dim=dim, shape=shape)):
        g = torch.Generator().manual_seed(rng.getrandbits(40))
        idx = torch.randint(0, rows, shape, generator=g).to(dt)
        w = t64(rng, rows, dim)
        ref = torch.nn.functional.one_hot(idx.long(), rows).double() @ w
        both(ctx, small_table_embedding(idx, w), ref, [w], rng, "embedding", name)
        op = getattr(torch.ops.nnue, "small_table_embedding_backward", None)
        if op is not None:
            go = t64(rng, *shape, dim, req=False)
            want = torch.zeros(rows, dim, dtype=torch.float64).index_add_(0, idx.reshape(-1).long(), go.reshape(-1, dim))
            same(ctx, op(go, idx, rows), want, "embedding:backward-op", name)
            meta = op(go.to("meta"), idx.to("meta"), rows)
            ctx.check(tuple(meta.shape) == (rows, dim) and meta.dtype == go.dtype, "embedding:meta", f"{tuple(meta.shape)} {meta.dtype}")
            ctx.count("backward_ops")
        else:
            ctx.count("unobservable_op")
        if int(name.split("#")[1]) % 4 == 0:
            f = torch.compile(lambda i, q: small_table_embedding(i, q) * 2, backend="aot_eager")
            w2 = w.detach().clone().requires_grad_()
            r2 = torch.nn.functional.one_hot(idx.long(), rows).double() @ w2 * 2
            both(ctx, f(idx, w2), r2, [w2], rng, "embedding:compiled", name)
            torch._dynamo.reset()
            ctx.count("compiled_embeddings")
        ctx.seen("emb", rows, dim, shape, str(dt))


def dwconv_case(ctx, name, rng):
    import torch
    import torch.nn.functional as F
    from model.layers.convolution import Conv2dBlock
    from model.ops.quantized import product_quantization_has_linear_gradient as linear
    c, k, pad, st, dil = rng.choice([1, 3]), rng.choice([1, 3, (3, 5)]), rng.choice([0, 1, 2, (0, 2)]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    h, w = rng.choice([(9, 9), (10, 9), (15, 15)])
    mode = rng.choice(["pixel-dwconv", "pixel-dwconv-floor", True])
    si, sw, bits, sp = rng.choice([(128, 128, 16, 128 * 128), (32, 64, 16, 512), (128, 128, 8, 128), (100, 32, 32, None), (32, 32, 8, 1024), (128, 128, 9, 128)])
    with ctx.case(name, dict(c=c, k=str(k), pad=str(pad), st=st, dil=dil, mode=str(mode), scales=(si, sw, sp, bits))):
        m = fill(rng, Conv2dBlock(c, c, ks=k, st=st, padding=pad, dilation=dil, groups=c, activation="none", bias=rng.random() < 0.6, quant=mode,
                                  input_quant_scale=si, weight_quant_scale=sw, bias_quant_scale=sp, bias_quant_bits=bits), 0.8)
        sp = sp or si * sw
        x = t64(rng, 2, c, h, w, scale=rng.choice([0.3, 1.5]))
        for p, s in [(x, si), (m.conv.weight, sw)] + ([(m.conv.bias, sp)] if m.conv.bias is not None else []):
            safe(p.data, s)
        xq, wq = quant(x, si, 8), quant(m.conv.weight, sw, 8)
        bq = None if m.conv.bias is None else quant(m.conv.bias, sp, bits)
        floor = mode == "pixel-dwconv-floor"

        def definition():
            if mode is True:
                return F.conv2d(xq, wq, bq, st, pad, dil, c)
            kh, kw = wq.shape[-2:]
            ph, pw = pad if isinstance(pad, tuple) else (pad, pad)
            p = F.pad(xq, (pw, pw, ph, ph))
            ho, wo = (h + 2 * ph - dil * (kh - 1) - 1) // st + 1, (w + 2 * pw - dil * (kw - 1) - 1) // st + 1
            out = 0
            for i in range(kh):
                for j in range(kw):
                    tap = p[:, :, i * dil:i * dil + (ho - 1) * st + 1:st, j * dil:j * dil + (wo - 1) * st + 1:st]
                    out = out + quant(tap * wq[:, 0, i, j].view(1, -1, 1, 1), sp, bits, floor)
            return out if bq is None else out + bq.view(1, -1, 1, 1)
        ps = [x] + list(m.parameters())
        ref = definition()
        both(ctx, m.train()(x), ref, ps, rng, "dwconv:train", f"{name} {mode}")
        both(ctx, m.eval()(x), ref, ps, rng, "dwconv:eval", f"{name} {mode}")
        with torch.no_grad():
            same(ctx, m.train()(x), ref, "dwconv:no-grad", name)
        # the shortcut is taken only where no product can leave its range
        for _ in range(20):
            a = dict(input_scale=rng.choice([16, 32, 100, 128]), input_bits=rng.choice([4, 8, 16]), weight_scale=rng.choice([16, 64, 128]),
                     weight_bits=rng.choice([4, 8, 16]), product_scale=rng.choice([128, 1024, 16384]), product_bits=rng.choice([8, 9, 16, 17, 32]))
            ends = lambda s, b: [-(2 ** (b - 1)) / s, (2 ** (b - 1) - 1) / s]
            prod = [p * q for p in ends(a["input_scale"], a["input_bits"]) for q in ends(a["weight_scale"], a["weight_bits"])]
            lo, hi = ends(a["product_scale"], a["product_bits"])
            fits = min(prod) >= lo and max(prod) <= hi
            got = linear(*a.values())
            ctx.check(not got or fits, "dwconv:shortcut", f"{a}: products up to {max(map(abs, prod))} are said to fit {lo}..{hi}")
            ctx.count("range_decisions")
        ctx.seen("dw", str(mode), c, str(k), str(pad), st, dil, bits)


ACT = {
    "relu": lambda x: x * (x > 0), "lrelu": lambda x: x * ((x > 0) + 0.1 * (x <= 0)), "lrelu/3": lambda x: x * ((x > 0) + (x <= 0).double() / 3.0),
    "lrelu/16": lambda x: x * ((x > 0) + (x <= 0) / 16.0), "crelu": lambda x: x.clamp(0, 1), "tanh": lambda x: x.tanh(),
    "sigmoid": lambda x: 1 / (1 + (-x).exp()), "silu": lambda x: x / (1 + (-x).exp()),
    "gelu": lambda x: x * 0.5 * (1 + (x / math.sqrt(2)).erf()), "mish": lambda x: x * (1 + x.exp()).log().tanh(),
}


def activation_case(ctx, name, rng):
    import torch
    from model.layers import activation as A
    from utils.quant_utils import fake_quant
    with ctx.case(name, {}):
        shape = rng.choice([(3, 4), (2, 4, 5, 5), (2, 4, 3)])
        for k, f in ACT.items():
            x = t64(rng, *shape, scale=2.0)
            inplace = rng.random() < 0.3
            layer = A.build_activation_layer(k, inplace)
            both(ctx, layer(x * 1.0), f(x), [x], rng, "activation", k, 1e-8)
        ctx.check(A.build_activation_layer("none") is None, "activation", "none")
        for bad in ("Relu", "", "lrelu/x", "elu"):
            try:
                A.build_activation_layer(bad)
            except ValueError:
                pass
            else:
                ctx.fail("activation:unknown", f"activation {bad!r} accepted")
        bound, bias = rng.choice([0, 1, 6]), rng.random() < 0.6
        m = fill(rng, A.ChannelWiseLeakyReLU(4, bias=bias, bound=bound), 2.0)
        x = t64(rng, *shape)
        keep = x.detach().clone()
        sh = [1, 4] + [1] * (len(shape) - 2)
        s = m.neg_slope if bound == 0 else bound * (m.neg_slope / bound).tanh()
        y = torch.where(x > 0, x, x * s.view(sh))
        if bias:
            y = y + m.bias.view(sh)
        both(ctx, m(x), y, [x] + list(m.parameters()), rng, "channel-lrelu", f"bound {bound}")
        ctx.check(torch.equal(x, keep), "channel-lrelu:input", "the input was changed")
        mx = rng.choice([1, 4, 0.5])
        both(ctx, A.ClippedReLU(max=mx)(x * 1.0), torch.where(x < 0, 0 * x, torch.where(x > mx, 0 * x + mx, x)), [x], rng, "crelu", f"max {mx}")
        sc, bits, sg = rng.choice([(128, 8, True), (32, 8, True), (16, 6, True), (255, 8, False)])
        q = fill(rng, A.QuantPReLU(rng.choice([1, 4]), input_quant_scale=128, weight_quant_scale=sc, weight_quant_bits=bits, weight_signed=sg))
        x = safe(t64(rng, *shape).data, 128).requires_grad_()
        safe(q.weight.data, sc)
        a, wq = quant(x, 128, 8), quant(q.weight, sc, bits, signed=sg)
        y = torch.where(a > 0, a, a * (wq.view(sh) if wq.numel() > 1 else wq))
        both(ctx, q(x), y, [x, q.weight], rng, "quant-prelu", f"scale {sc}")
        # fake quantisation itself
        for _ in range(6):
            sc, bits, sg, fl = rng.choice([1, 7, 128, 16384, 0.5]), rng.choice([None, 4, 8, 16, 32]), rng.random() < 0.7, rng.random() < 0.5
            x = safe(t64(rng, 200, scale=rng.choice([0.3, 2.0, 300.0])).data, sc).requires_grad_()
            both(ctx, fake_quant(x, sc, num_bits=bits, signed=sg, floor=fl), quant(x, sc, bits, fl, sg), [x], rng, "fake-quant", f"scale {sc} bits {bits} floor {fl} signed {sg}")
        ctx.seen("act", shape, bound, bias, sc)


def norm_case(ctx, name, rng):
    import torch
    from model.layers.normalization import LocalLayerNorm, build_norm2d_layer
    n, c = rng.choice([1, 3]), rng.choice([2, 4, 8])
    sp = rng.choice([(5, 5), (3, 7), (4,)])
    with ctx.case(name, dict(c=c, spatial=sp)):
        last = rng.random() < 0.5
        aff = rng.random() < 0.7
        m = fill(rng, LocalLayerNorm(c, eps=rng.choice([1e-5, 1e-2]), channelwise_affine=aff, data_format="channels_last" if last else "channels_first"))
        x = t64(rng, n, c, *sp)
        mean = x.mean(1, keepdim=True)
        y = (x - mean) / (((x - mean) ** 2).mean(1, keepdim=True) + m.eps).sqrt()
        if aff:
            y = y * m.weight.view(1, c, *[1] * len(sp)) + m.bias.view(1, c, *[1] * len(sp))
        perm = [0] + list(range(2, x.ndim)) + [1]
        got = m(x.permute(perm)).permute([0, x.ndim - 1] + list(range(1, x.ndim - 1))) if last else m(x)
        both(ctx, got, y, [x] + list(m.parameters()), rng, "layer-norm", f"last {last} affine {aff}", 1e-8)
        g = rng.choice([x for x in (1, 2, c) if c % x == 0])
        gn = fill(rng, build_norm2d_layer(f"gn-{g}", c))
        z = t64(rng, n, c, 4, 5)
        r = z.view(n, g, -1)
        mu = r.mean(2, keepdim=True)
        r = ((r - mu) / (((r - mu) ** 2).mean(2, keepdim=True) + gn.eps).sqrt()).view(z.shape) * gn.weight.view(1, c, 1, 1) + gn.bias.view(1, c, 1, 1)
        both(ctx, gn(z, mask=None), r, [z] + list(gn.parameters()), rng, "group-norm", f"{g} groups", 1e-8)
        bn = fill(rng, build_norm2d_layer("bn", c))
        if n * 20 > 1:
            ref = plain_bn(z, None, bn.weight, bn.bias, None, bn.eps)
            both(ctx, bn(z), ref[0], [z] + list(bn.parameters()), rng, "batch-norm", "bn", 1e-8, 1e-7)
        ctx.check(build_norm2d_layer("none", c) is None, "norm:none", "none")
        try:
            build_norm2d_layer("xyz", c)
        except ValueError:
            pass
        else:
            ctx.fail("norm:unknown", "an unknown normalisation was accepted")
        ctx.seen("norm", last, aff, n, c, sp)


def block_case(ctx, name, rng):
    """Convolution and linear blocks are the composition they document."""
    import torch
    import torch.nn.functional as F
    from model.layers.convolution import Conv2dBlock
    from model.layers.linear import LinearBlock
    ci, co, k, pad = rng.choice([2, 3]), rng.choice([2, 4]), rng.choice([1, 3, (1, 3), (3, 1)]), rng.choice([0, 1, (0, 1), (1, 0)])
    (kh, kw), (ph, pw) = [v if isinstance(v, tuple) else (v, v) for v in (k, pad)]
    first, q = rng.random() < 0.4, rng.random() < 0.4
    norm = rng.choice(["none", "ln", "maskbn", "mask-affine", "bn"])
    act = rng.choice(["relu", "none", "lrelu", "crelu", "silu"])
    h, w = rng.choice([(5, 6), (9, 9)])
    if first:
        co = ci
    with ctx.case(name, dict(first=first, quant=q, norm=norm, act=act, k=str(k), pad=str(pad))):
        # ties are decided before anything but a clean input: quantise only unnormalised inputs
        if first and (norm != "none" or act in ("silu", "lrelu")):
            q = False
        m = fill(rng, Conv2dBlock(ci, co, ks=k, st=1, padding=pad, norm=norm, activation=act, bias=rng.random() < 0.7, activation_first=first, quant=q))
        x = safe(t64(rng, 2, ci, h, w).data, 128).requires_grad_()
        if q:
            safe(m.conv.weight.data, 128)
            if m.conv.bias is not None:
                safe(m.conv.bias.data, 128 * 128)
        mask = mask_for(rng, 2, h, w) if rng.random() < 0.5 and norm != "bn" else None
        if mask is not None and int(mask[:, :, 2:, 2:].sum()) < 3:
            mask = None
        dh, dw = kh - 1 - 2 * ph, kw - 1 - 2 * pw
        mo = mask if mask is None or min(dh, dw) < 0 else mask[:, :, dh:, dw:]

        def norm_act(v, mk):
            c = v.shape[1]
            s = lambda p: p.view(1, c, 1, 1)
            if norm == "ln":
                mu = v.mean(1, keepdim=True)
                v = (v - mu) / (((v - mu) ** 2).mean(1, keepdim=True) + m.norm.eps).sqrt() * s(m.norm.weight) + s(m.norm.bias)
            elif norm == "maskbn":
                v = plain_bn(v, mk, m.norm.weight, m.norm.bias, None, m.norm.epsilon)[0]
            elif norm == "bn":
                v = plain_bn(v, None, m.norm.weight, m.norm.bias, None, m.norm.eps)[0]
            elif norm == "mask-affine":
                v = v * s(m.norm.weight) + s(m.norm.bias)
                v = v if mk is None else v * mk
            return v if act == "none" else ACT[act](v)

        def conv(v):
            wt, b = m.conv.weight, m.conv.bias
            if q:
                v, wt, b = quant(v, 128, 8), quant(wt, 128, 8), None if b is None else quant(b, 128 * 128, 32)
            return F.conv2d(v, wt, b, 1, pad)
        if mo is not None and tuple(mo.shape[2:]) != (h - dh, w - dw):
            mask = mo = None
        want = conv(norm_act(x, mask)) if first else norm_act(conv(x), mo)
        got = m(x, mask)
        if mask is not None:
            got, gm = got
            same(ctx, gm, mo, "conv-block:mask", name)
        ps = [x] + [p for p in m.parameters()]
        both(ctx, got, want, ps, rng, "conv-block", f"{name} norm {norm} act {act} first {first} quant {q}", 1e-7, 1e-6)
        fi, fo = rng.choice([1, 5]), rng.choice([2, 3])
        q2, n2 = rng.random() < 0.5, rng.choice(["none", "none", "bn"])
        lin = fill(rng, LinearBlock(fi, fo, activation=act, bias=rng.random() < 0.7, norm=n2, quant=q2))
        z = safe(t64(rng, 6, fi).data, 128).requires_grad_()
        wt, b, v = lin.fc.weight, lin.fc.bias, z
        if q2:
            safe(wt.data, 128)
            v, wt = quant(z, 128, 8, True), quant(wt, 128, 8)
            if b is not None:
                safe(b.data, 128 * 128)
                b = quant(b, 128 * 128, 32)
        y = v @ wt.T
        y = y if b is None else y + b
        if n2 == "bn":
            mu = y.mean(0)
            y = (y - mu) / (((y - mu) ** 2).mean(0) + lin.norm.eps).sqrt() * lin.norm.weight + lin.norm.bias
        y = y if act == "none" else ACT[act](y)
        both(ctx, lin(z), y, [z] + list(lin.parameters()), rng, "linear-block", f"{name} quant {q2} norm {n2}", 1e-7, 1e-6)
        ctx.seen("block", norm, act, first, q, str(k), str(pad), n2, q2)


def region_case(ctx, name, rng):
    import torch
    from model.ops import aggregation as G
    h, w = rng.randint(3, 20), rng.randint(3, 20)
    with ctx.case(name, dict(h=h, w=w)):
        cell = torch.arange(h * w, dtype=torch.float64).view(1, 1, h, w)
        regs = G.split_3x3_regions(cell)
        got = [sorted(int(v) for v in r.flatten()) for r in regs]
        ctx.check(sorted(itertools.chain(*got)) == list(range(h * w)), "regions:partition", f"{h}x{w}: the nine regions do not cover every cell once")

        def cuts(n):
            third = n // 3
            mid = third + (n % 3 == 1)
            side = third + (n % 3 == 2)
            return [(0, side), (side, side + mid), (side + mid, n)]
        want = [sorted(y * w + x for y in range(*a) for x in range(*b)) for a in cuts(h) for b in cuts(w)]
        ctx.check(got == want, "regions:bounds", f"{h}x{w}: regions {[len(g) for g in got]}, thirds give {[len(g) for g in want]}")
        x = t64(rng, 2, 3, h, w)
        sel = [torch.tensor([1.0 if i in set(r) else 0.0 for i in range(h * w)], dtype=torch.float64).view(h, w) for r in want]
        both(ctx, list(G.sum_3x3_regions(x)), [(x * s).sum((2, 3)) for s in sel], [x], rng, "regions:sum", f"{h}x{w}")
        both(ctx, list(G.mean_3x3_regions(x)), [(x * s).sum((2, 3)) / s.sum() for s in sel], [x], rng, "regions:mean", f"{h}x{w}")
        ints = torch.randint(-32768, 32767, (2, 3, h, w), generator=torch.Generator().manual_seed(rng.getrandbits(30))).double()
        qs = G.quantized_sum_3x3_regions(ints / 128)
        for k, (a, s) in enumerate(zip(qs, sel)):
            n = (ints * s).sum((2, 3))
            same(ctx, a * 128, torch.floor(n / 32), "regions:quantized-sum", f"{h}x{w} region {k}")
        q = [torch.randint(-160, 160, (50,), generator=torch.Generator().manual_seed(rng.getrandbits(30))) for _ in range(4)]
        c = [v.clamp(-128, 127) for v in q]
        avg = lambda a, b: torch.div(a + b + 1, 2, rounding_mode="floor").clamp(-128, 127)
        same(ctx, G.quantized_avg4(*[v.double() / 128 for v in q]) * 128, avg(avg(c[0], c[1]), avg(c[2], c[3])).double(), "regions:avg4", name)
        ctx.seen("region", h, w)


def input_case(ctx, name, rng):
    """Input planes and the simple output head."""
    import torch
    from model.head import build_head
    from model.input import build_input_plane
    n, H, W = rng.choice([1, 3]), rng.choice([5, 9]), rng.choice([5, 7])
    with ctx.case(name, dict(n=n, H=H, W=W)):
        r = np.random.default_rng(rng.getrandbits(40))
        occ = r.integers(0, 3, (n, H, W))
        board = np.stack([occ == 1, occ == 2], 1).astype(np.int8)
        stm = r.choice([-1.0, 1.0, 0.0], (n, 1)).astype(np.float32)
        size = np.stack([r.integers(1, H + 1, n), r.integers(1, W + 1, n)], 1).astype(np.int64)
        sparse = np.concatenate([r.integers(0, 14, (n, 10, H, W)), r.integers(0, 2380, (n, 2, H, W))], 1).astype(rng.choice([np.int32, np.uint16]))
        sdim = np.tile([14] * 10 + [2380] * 2, (n, 1))
        data = dict(board_input=torch.tensor(board), stm_input=torch.tensor(stm), board_size=torch.tensor(size),
                    sparse_feature_input=torch.tensor(sparse.astype(np.int32)), sparse_feature_dim=torch.tensor(sdim))
        keep = {k: v.clone() for k, v in data.items()}
        inv = rng.random() < 0.4
        b = board[:, ::-1] if inv else board
        s = -stm if inv else stm
        for kind in ("basic", "basic-nostm", "basicns", "mask", "mask-nostm", "maskns", "pcode4", "pcode4-nostm", "combpat3", "combpat3-nostm", "linepat2", "linepat2-nostm"):
            m = build_input_plane(kind)
            got = m(data, inv_side=inv)
            base = [b.astype(np.float64)] + ([] if "ns" in kind or "nostm" in kind else [np.broadcast_to(s.reshape(n, 1, 1, 1), (n, 1, H, W)).astype(np.float64)])
            if kind.startswith("mask"):
                got, mp = got
                mk = np.zeros((n, 1, H, W))
                for i in range(n):
                    mk[i, :, :size[i, 0], :size[i, 1]] = 1
                same(ctx, mp, torch.tensor(mk), "input:mask", kind)
                want = np.concatenate(base, 1) * mk
            elif kind.startswith("basic"):
                want = np.concatenate(base, 1)
            else:
                emb = next(m.parameters()).detach().double().numpy()
                free = (occ == 0)[:, None]
                if kind.startswith("linepat"):
                    f = [emb[sparse[:, d]] + emb[sparse[:, d + 4]] for d in range(4)]
                    f = np.concatenate(f, -1)
                else:
                    a, c = (10, 11) if kind.startswith("pcode") else (8, 9)
                    f = emb[sparse[:, a]] + emb[sparse[:, c]]
                want = np.concatenate(base + [f.transpose(0, 3, 1, 2) * free], 1)
            ctx.check(m.dim_plane == want.shape[1], "input:dim", f"{kind}: dim_plane {m.dim_plane}, {want.shape[1]} planes")
            same(ctx, got, torch.tensor(want), "input:planes", f"{kind} inverted {inv}", 1e-6)
            ctx.check(all(torch.equal(data[k], keep[k]) for k in data), "input:changed", f"{kind} changes its input")
            ctx.count("planes_compared")
        for bad in ("Basic", "pcodex", "xyz"):
            try:
                build_input_plane(bad)
            except ValueError:
                pass
            else:
                ctx.fail("input:unknown", f"input {bad!r} accepted")
        for t in ("v0", "v0-nodraw"):
            m = fill(rng, build_head(t, 3))
            f = t64(rng, n, 3, H, W)
            mk = torch.tensor(np.stack([[(np.arange(H)[:, None] < a) & (np.arange(W)[None] < c)] for a, c in size]).astype(np.float64)) if rng.random() < 0.6 else None
            out = m(f, mk) if mk is not None else m(f)
            pool = f.mean((2, 3)) if mk is None else torch.stack([f[i, :, :size[i, 0], :size[i, 1]].mean((1, 2)) for i in range(n)])
            ps = list(m.parameters())
            both(ctx, [out["value"], out["policy"]], [pool @ m.value_head.fc.weight.T, torch.einsum("c,nchw->nhw", m.policy_head.conv.weight[0, :, 0, 0], f)],
                 [f] + ps, rng, "head", f"{t} mask {mk is not None}")
            ctx.check(out["value"].shape[1] == (1 if "nodraw" in t else 3), "head:value", t)
        ctx.seen("input", n, H, W, inv)


def hash_case(ctx, name, rng):
    import torch
    from model.layers.hashing import HashLayer
    perfect = rng.random() < 0.6
    size, level = rng.choice([(4, 2), (3, 3), (6, 2)])
    log = rng.choice([7, 9]) if perfect else rng.choice([2, 3])
    sub, div = rng.choice([(1, 2), (2, 2), (2, 3)])
    with ctx.case(name, dict(perfect=perfect, size=size, level=level, log=log, sub=sub, div=div)):
        m = HashLayer(size, level, log, dim_feature=4, quant_int8=rng.random() < 0.5, sub_features=sub, sub_divisor=div)
        ctx.check(m.perfect_hash == (2 ** log >= level ** size), "hash:kind", f"{m.perfect_hash}")
        xs = torch.tensor(list(itertools.product(range(level), repeat=size)))
        table = m.features.weight.detach()
        if m.perfect_hash:
            idx = [sum(int(v) * level ** i for i, v in enumerate(x)) for x in xs]
            ctx.check(len(set(idx)) == len(xs), "hash:perfect", "two inputs share an entry")
            n0 = level ** size
        else:
            h = m.hashs.detach().long()
            idx = [int(sum(int(h[i, int(v)]) for i, v in enumerate(x)) % (2 ** log)) for x in xs]
            n0 = 2 ** log
        ns = [math.ceil(n0 / div ** i) for i in range(sub)]
        cols = []
        cur = list(idx)
        for i in range(sub):
            cols.append(table[[sum(ns[:i]) + c for c in cur]])
            cur = [c // div for c in cur]
        want = torch.cat(cols, 1)
        if sub > 1:
            want = want @ m.feature_mapping.weight.T + m.feature_mapping.bias
        want = want.detach()
        if m.quant_int8:
            want = torch.round(want.double().clamp(-1, 127 / 128) * 128) / 128
        tol = 1 / 128 + 1e-6 if m.quant_int8 and sub > 1 else 1e-5
        got = m(None, xs)
        same(ctx, got, want, "hash:features", f"{name} levels", tol)
        same(ctx, m(xs.float() / (level - 1)), got, "hash:float-input", name, 1e-7)
        for bad in (xs[:2] + level, xs[:2] - level):
            try:
                out = m(None, bad)
            except (IndexError, RuntimeError):
                ctx.count("invalid_hash_inputs")
            else:
                ctx.fail("hash:invalid", f"levels outside 0..{level - 1} give features {out.flatten()[:3].tolist()}")
        ctx.seen("hash", perfect, size, level, log, sub, div)


CASES = [("directional", directional_case, 48, 600), ("pointwise", pointwise_case, 32, 400), ("batchnorm", batchnorm_case, 60, 900), ("embedding", embedding_case, 24, 200),
         ("dwconv", dwconv_case, 48, 600), ("activation", activation_case, 16, 200), ("norm", norm_case, 32, 400), ("block", block_case, 80, 1200),
         ("region", region_case, 32, 324), ("input", input_case, 16, 200), ("hash", hash_case, 24, 200)]


def run(ctx):
    ctx.rule = ("every operator is evaluated in double precision on random shapes, layouts, masks and options, and its outputs and the gradients of all "
                "inputs and parameters are compared with the plain definition; running statistics are followed over several steps. Non-trivial: distinct configurations")
    ctx.require("tensors_compared", 1500)
    ctx.require("range_decisions", 150)
    ctx.require("planes_compared", 40)
    ctx.require("half_precision", 5)
    ctx.require("compiled_embeddings", 1)
    ctx.require("backward_ops", 4)
    ctx.require("invalid_hash_inputs", 8)
    for label, f, quick, thorough in CASES:
        for name, rng in ctx.cases(label, quick, thorough, share=0.3):
            f(ctx, name, rng)
