"""P35: fake-quantised operators agree with integer arithmetic."""
import math

import numpy as np

from .. import zoo

POW2 = [1, 2, 8, 16, 32, 64, 128, 256, 1024, 4096, 16384, 65536]


def bounds(bits, signed):
    return (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)


def codes(x, scale, bits, signed=True, floor=False):
    """Integer codes of float values, computed in float64 (exact for power-of-two scales)."""
    v = np.asarray(x, np.float64) * float(scale)
    c = np.floor(v) if floor else np.rint(v)
    if bits is not None:
        lo, hi = bounds(bits, signed)
        c = np.clip(c, lo, hi)
    return c


def f64(t):
    return t.detach().cpu().double().numpy()


def values(rng, r, n, scale, bits):
    """Values on, between and beyond the grid points, ties and limits included."""
    span = 2.0 ** ((bits or 10) - 1)
    parts = [r.uniform(-1.5 * span, 1.5 * span, n), np.rint(r.uniform(-1.3 * span, 1.3 * span, n)),
             np.rint(r.uniform(-1.3 * span, 1.3 * span, n)) + 0.5, r.normal(0, 2, n),
             np.array([0.0, -0.0, 0.5, -0.5, 1.5, -1.5, span, -span, span - 1, span - 0.5, -span - 0.5, -span + 0.5, 2 * span - 1, 2 * span, 1e30, -1e30, 1e-30, -1e-30])]
    x = (np.concatenate(parts) / scale).astype(np.float32)
    r.shuffle(x)
    return x


def scalar(ctx, rng, label):
    import torch
    from utils.quant_utils import fake_quant
    r = np.random.default_rng(rng.randrange(1 << 60))
    exact = rng.random() < 0.8
    scale = rng.choice(POW2) if exact else rng.choice([255, 1000, 100, 127, 3])
    bits = rng.choice([None, 2, 3, 4, 5, 6, 7, 8, 8, 8, 10, 12, 16, 16, 20, 24])
    signed, floor = rng.random() < 0.7, rng.random() < 0.5
    if not signed and bits and bits > 23:
        bits = 16
    x = values(rng, r, 40, scale, bits)
    if bits is None:
        x = x[np.abs(x) * scale < 2 ** 22]
    where = f"{label}: scale {scale}, bits {bits}, signed {signed}, floor {floor}"
    t = torch.from_numpy(x).requires_grad_()
    y = fake_quant(t, scale, num_bits=bits, signed=signed, floor=floor)
    got = f64(y)
    c = codes(x, scale, bits, signed, floor)
    if exact:
        bad = np.flatnonzero(got != c / scale)
    else:
        v = x.astype(np.float64) * scale
        near = np.abs((v - np.floor(v)) - (0 if floor else 0.5))
        near = np.minimum(near, np.abs(1 - near)) if floor else near
        if floor and bits is not None:      # a limit may sit just below its grid point
            lo, hi = bounds(bits, signed)
            near[(v > hi - 1) | (v < lo + 1)] = 0
        tie = near < np.maximum(1e-4, np.abs(v) * 1e-6)
        bad = np.flatnonzero((np.abs(got * scale - c) > np.where(tie, 1.001, 0) + 1e-5 * np.maximum(1, np.abs(c))))
    ctx.check(not len(bad), "quant:value", lambda: f"{where}: {x[bad[0]]!r} became {got[bad[0]]!r} ({got[bad[0]] * scale} steps), expected {c[bad[0]]} steps")
    if bits is not None:
        lo, hi = bounds(bits, signed)
        k = got * scale
        ctx.check(k.min() >= lo - 1e-4 * abs(lo) * (not exact) and k.max() <= hi + 1e-4 * abs(hi) * (not exact), "quant:range", f"{where}: codes {k.min()}..{k.max()} outside {lo}..{hi}")
        ctx.count("saturated", int((c == lo).sum() + (c == hi).sum()))
    if exact:
        again = f64(fake_quant(y.detach(), scale, num_bits=bits, signed=signed, floor=floor))
        ctx.check((again == got).all(), "quant:idempotent", f"{where}: quantising twice changes the value")
    g = torch.from_numpy(r.normal(0, 1, x.shape).astype(np.float32))
    y.backward(g)
    gx = f64(t.grad)
    if bits is None:
        inside, edge = np.ones(len(x), bool), np.zeros(len(x), bool)
    else:
        lo, hi = (np.float32(b / scale) for b in bounds(bits, signed))
        inside, edge = (x > lo) & (x < hi), (x == lo) | (x == hi)
    want = np.where(inside, g.double().numpy(), 0)
    bad = np.flatnonzero((gx != want) & ~edge)
    ctx.check(not len(bad), "quant:gradient", lambda: f"{where}: gradient at {x[bad[0]]!r} is {gx[bad[0]]}, expected {want[bad[0]]}")
    ctx.check(t.detach().numpy().tobytes() == x.tobytes(), "quant:mutates", f"{where}: the input was changed in place")
    ctx.count("values", len(x))
    ctx.count("clipped_gradients", int((~inside & ~edge).sum()))
    ctx.seen("scalar", scale, bits, signed, floor)


# ---------------------------------------------------------------- layers

def activate(name, v):
    if name == "none":
        return v
    if name == "relu":
        return np.maximum(v, 0)
    if name == "crelu":
        return np.clip(v, 0, 1)
    if name.startswith("lrelu/"):
        return np.where(v > 0, v, v / int(name[6:]))
    raise KeyError(name)


def linear_ref(x, w, b, o):
    """(pre-activation output, largest accumulator in product units)."""
    si, sw = o["input_quant_scale"], o["weight_quant_scale"]
    xi, wi = codes(x, si, o["input_quant_bits"], floor=True), codes(w, sw, o["weight_quant_bits"])
    bi = 0 if b is None else codes(b, si * sw, o["bias_quant_bits"])
    top = (np.abs(xi) @ np.abs(wi).T + np.abs(bi)).max() if xi.size else 0
    return (xi @ wi.T + bi) / (si * sw), top


def conv_ref(x, w, b, o, mode, stride, padding, dilation, groups):
    import torch
    import torch.nn.functional as F
    si, sw = o["input_quant_scale"], o["weight_quant_scale"]
    sb = o.get("bias_quant_scale") or si * sw
    xi, wi = codes(x, si, o["input_quant_bits"]), codes(w, sw, o["weight_quant_bits"])
    bi = None if b is None else codes(b, sb, o["bias_quant_bits"])
    T = torch.from_numpy
    if mode is True:
        acc = F.conv2d(T(xi), T(wi), None, stride, padding, dilation, groups).numpy() / (si * sw)
        top = F.conv2d(T(np.abs(xi)), T(np.abs(wi)), None, stride, padding, dilation, groups).numpy().max() + (0 if b is None else np.abs(bi).max() * si * sw / sb)
        if b is not None:
            acc = acc + (bi / sb)[None, :, None, None]
        return acc, top, 0
    B, C, H, W = x.shape
    kh, kw = w.shape[-2:]
    Ho = 1 + (H + 2 * padding[0] - dilation[0] * (kh - 1) - 1) // stride[0]
    Wo = 1 + (W + 2 * padding[1] - dilation[1] * (kw - 1) - 1) // stride[1]
    xp = np.pad(xi, ((0, 0), (0, 0), (padding[0],) * 2, (padding[1],) * 2))
    out = np.zeros((B, C, Ho, Wo))
    top, wide = np.zeros((B, C, Ho, Wo)), np.zeros((B, C, Ho, Wo))
    for i in range(kh):
        for j in range(kw):
            y0, x0 = i * dilation[0], j * dilation[1]
            tap = xp[:, :, y0:y0 + (Ho - 1) * stride[0] + 1:stride[0], x0:x0 + (Wo - 1) * stride[1] + 1:stride[1]]
            raw = tap * wi[None, :, 0, i, j][:, :, None, None]
            p = codes(raw / (si * sw), sb, o["bias_quant_bits"], floor=mode == "pixel-dwconv-floor")
            wide += np.abs(raw) >= 2 ** 24       # not representable in float32: its rounding may go either way
            out += p
            top += np.abs(p)
    if b is not None:
        out = out + bi[None, :, None, None]
    return out / sb, top.max() if top.size else 0, wide / sb


def same(ctx, got, want, exact, mechanism, where, slack=0):
    if got.shape != want.shape:
        return ctx.fail(mechanism, f"{where}: shape {got.shape}, expected {want.shape}")
    tol = slack + (0 if exact else 1e-5 * max(1.0, float(np.abs(want).max()) if want.size else 1.0))
    bad = np.flatnonzero(~(np.abs(got - want) <= tol).ravel())
    ctx.check(not len(bad), mechanism, lambda: f"{where}: element {bad[0]} is {got.ravel()[bad[0]]!r}, integer arithmetic gives {want.ravel()[bad[0]]!r} ({len(bad)} of {got.size} differ)")
    ctx.count("exact_outputs" if exact else "close_outputs", got.size)


def spread(r, shape, scale, bits, wide):
    """Layer operands: mostly inside the range, some beyond it, some on ties."""
    top = 2.0 ** (bits - 1) / scale
    x = r.uniform(-wide * top, wide * top, shape)
    k = r.random(shape)
    x = np.where(k < 0.2, np.rint(x * scale) / scale, np.where(k < 0.3, (np.floor(x * scale) + 0.5) / scale, x))
    return x.astype(np.float32)


def weights(module, w, b):
    import torch
    with torch.no_grad():
        module.weight.copy_(torch.from_numpy(w))
        if b is not None:
            module.bias.copy_(torch.from_numpy(b))


def quants(rng, product=False):
    o = rng.choice([(128, 8, 128, 8), (128, 8, 128, 8), (64, 8, 64, 8), (32, 6, 16, 5), (128, 16, 128, 8), (16, 4, 128, 8), (256, 10, 128, 8)])
    return dict(input_quant_scale=o[0], input_quant_bits=o[1], weight_quant_scale=o[2], weight_quant_bits=o[3], bias_quant_bits=rng.choice([32, 32, 16, 20]))


def linear(ctx, rng, label):
    import torch
    from model.layers.linear import LinearBlock
    r = np.random.default_rng(rng.randrange(1 << 60))
    o, act = quants(rng), rng.choice(["none", "relu", "crelu", "lrelu/8"])
    i, n, bias = rng.choice([1, 3, 16, 32, 64]), rng.choice([1, 3, 32]), rng.random() < 0.8
    layer = LinearBlock(i, n, activation=act, bias=bias, quant=True, **o)
    w = spread(r, (n, i), o["weight_quant_scale"], o["weight_quant_bits"], rng.choice([0.5, 1.4]))
    b = spread(r, (n,), o["input_quant_scale"] * o["weight_quant_scale"], min(o["bias_quant_bits"], 21), rng.choice([0.3, 1.5])) if bias else None
    weights(layer.fc, w, b)
    lead = rng.choice([(5,), (1,), (2, 3)])
    x = spread(r, lead + (i,), o["input_quant_scale"], o["input_quant_bits"], rng.choice([0.6, 1.4]))
    want, top = linear_ref(x.reshape(-1, i), w, b, o)
    want = activate(act, want).reshape(lead + (n,))
    where = f"{label}: linear {i}->{n} {act} bias {bias} {o}"
    outs = []
    for training in (True, False):
        layer.train(training)
        t = torch.from_numpy(x).requires_grad_()
        y = layer(t)
        exact = top < 2 ** 24 and act != "lrelu/8"
        same(ctx, f64(y), want, exact, "linear:value", where + f" train {training}")
        outs.append(f64(y))
    if act == "none":
        g = torch.from_numpy(r.normal(0, 1, y.shape).astype(np.float32))
        layer.zero_grad()
        y.backward(g)
        gg = g.double().numpy().reshape(-1, n)
        si, sw = o["input_quant_scale"], o["weight_quant_scale"]
        xq, wq = codes(x.reshape(-1, i), si, o["input_quant_bits"], floor=True) / si, codes(w, sw, o["weight_quant_bits"]) / sw
        gradient(ctx, f64(t.grad).reshape(-1, i), gg @ wq, x.reshape(-1, i), si, o["input_quant_bits"], "linear:input-gradient", where)
        gradient(ctx, f64(layer.fc.weight.grad), gg.T @ xq, w, sw, o["weight_quant_bits"], "linear:weight-gradient", where)
        if bias:
            gradient(ctx, f64(layer.fc.bias.grad), gg.sum(0), b, si * sw, o["bias_quant_bits"], "linear:bias-gradient", where)
    ctx.seen("linear", act, bias, *o.values())


def gradient(ctx, got, want, x, scale, bits, mechanism, where):
    lo, hi = (np.float32(v / scale) for v in bounds(bits, True))
    clipped, edge = (x < lo) | (x > hi), (x == lo) | (x == hi)
    want = np.where(clipped, 0, want)
    tol = 1e-4 * max(1.0, float(np.abs(want).max()))
    bad = np.flatnonzero(((np.abs(got - want) > tol) & ~edge).ravel())
    ctx.check(not len(bad), mechanism, lambda: f"{where}: gradient {bad[0]} is {got.ravel()[bad[0]]}, expected {want.ravel()[bad[0]]} (clipped: {clipped.ravel()[bad[0]]})")
    ctx.count("clipped_gradients", int(clipped.sum()))
    ctx.count("gradients", got.size)


def conv(ctx, rng, label):
    import torch
    import torch.nn.functional as F
    from model.layers.convolution import Conv2dBlock
    r = np.random.default_rng(rng.randrange(1 << 60))
    mode = rng.choice([True, "pixel-dwconv", "pixel-dwconv", "pixel-dwconv-floor", "pixel-dwconv-floor"])
    if mode is True:
        o = quants(rng)
        o["bias_quant_scale"] = rng.choice([None, None, 128, 1024])
        groups = rng.choice([1, 1, 2, 4])
        ci, co = groups * rng.choice([1, 2, 4]), groups * rng.choice([1, 2])
    else:
        o = rng.choice([dict(input_quant_scale=128, input_quant_bits=16, weight_quant_scale=65536, weight_quant_bits=16, bias_quant_scale=128, bias_quant_bits=16),
                        dict(input_quant_scale=128, input_quant_bits=8, weight_quant_scale=128, weight_quant_bits=8, bias_quant_scale=128, bias_quant_bits=8),
                        dict(input_quant_scale=128, input_quant_bits=8, weight_quant_scale=64, weight_quant_bits=8, bias_quant_scale=128, bias_quant_bits=8),
                        dict(input_quant_scale=16, input_quant_bits=8, weight_quant_scale=128, weight_quant_bits=8, bias_quant_scale=256, bias_quant_bits=10),
                        dict(input_quant_scale=128, input_quant_bits=16, weight_quant_scale=32768, weight_quant_bits=16, bias_quant_scale=64, bias_quant_bits=16)])
        o = dict(o)
        groups = ci = co = rng.choice([1, 3, 8])
    ks, st, di = rng.choice([(1, 1), (3, 3), (3, 3), (5, 5), (3, 1), (2, 2)]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    pad = rng.choice([0, ks[0] // 2, 2])
    bias, act = rng.random() < 0.7, rng.choice(["none", "none", "relu", "crelu"])
    layer = Conv2dBlock(ci, co, ks=ks, st=st, padding=pad, dilation=di, groups=groups, activation=act, bias=bias, quant=mode, **o)
    w = spread(r, (co, ci // groups) + ks, o["weight_quant_scale"], o["weight_quant_bits"], rng.choice([0.5, 1.0, 1.4]))
    sb = o["bias_quant_scale"] or o["input_quant_scale"] * o["weight_quant_scale"]
    b = spread(r, (co,), sb, min(o["bias_quant_bits"], 20), rng.choice([0.3, 1.4])) if bias else None
    weights(layer.conv, w, b)
    H, W = rng.randint(5, 9), rng.randint(5, 9)
    if 1 + (min(H, W) + 2 * pad - di * (max(ks) - 1) - 1) // st < 1:
        return
    x = spread(r, (2, ci, H, W), o["input_quant_scale"], o["input_quant_bits"], rng.choice([0.05, 0.6, 1.4]))
    args = ((st, st), (pad, pad), (di, di), groups)
    want, top, slack = conv_ref(x, w, b, o, mode, *args)
    want = activate(act, want)
    where = f"{label}: conv {mode} {ci}->{co} groups {groups} kernel {ks} stride {st} pad {pad} dilation {di} bias {bias} {act} {o}"
    outs, grads = [], []
    g = torch.from_numpy(r.normal(0, 1, want.shape).astype(np.float32))
    for training in (True, False):
        layer.train(training)
        layer.zero_grad()
        t = torch.from_numpy(x).requires_grad_()
        y = layer(t)
        outs.append(f64(y))
        same(ctx, f64(y), want, top < 2 ** 24, "conv:value", where + f" train {training}", slack)
        y.backward(g)
        grads.append([f64(t.grad), f64(layer.conv.weight.grad)] + ([f64(layer.conv.bias.grad)] if bias else []))
    with torch.no_grad():
        y = layer(torch.from_numpy(x))
    ctx.check((outs[0] == outs[1]).all() and (f64(y) == outs[0]).all(), "conv:path", f"{where}: training and evaluation paths give different outputs")
    for kind, p, q in zip(("input", "weight", "bias"), *grads):
        tol = 2e-5 * max(1.0, float(np.abs(q).max()))
        ctx.check(np.abs(p - q).max() <= tol, "conv:path-gradient", f"{where}: {kind} gradients of the training and evaluation paths differ by {np.abs(p - q).max()}")
    if act == "none":
        si, sw = o["input_quant_scale"], o["weight_quant_scale"]
        gg, T = g.double(), torch.from_numpy
        xq, wq = T(codes(x, si, o["input_quant_bits"]) / si), T(codes(w, sw, o["weight_quant_bits"]) / sw)
        xq.requires_grad_(), wq.requires_grad_()
        if mode is True:
            z = F.conv2d(xq, wq, None, *args)
            ambiguous = False
        else:
            cols = F.unfold(xq, ks, di, pad, st).reshape(2, ci, ks[0] * ks[1], -1)
            p = cols * wq.reshape(1, ci, -1, 1)
            lo, hi = (v / sb for v in bounds(o["bias_quant_bits"], True))
            ambiguous = bool(((p == lo) | (p == hi)).any())
            z = p.clamp(lo, hi).sum(2).reshape(want.shape)
            ctx.count("saturated_products", int(((p < lo) | (p > hi)).sum()))
        if not ambiguous:
            z.backward(gg)
            gradient(ctx, grads[0][0], xq.grad.numpy(), x, si, o["input_quant_bits"], "conv:input-gradient", where)
            gradient(ctx, grads[0][1], wq.grad.numpy(), w, sw, o["weight_quant_bits"], "conv:weight-gradient", where)
            if bias:
                gradient(ctx, grads[0][2], gg.sum((0, 2, 3)).numpy(), b, sb, o["bias_quant_bits"], "conv:bias-gradient", where)
    ctx.seen("conv", mode, ks, st, di, pad, *o.values())


def guard(ctx, rng, label):
    """The shortcut's admission test against every corner and every code product."""
    from model.ops import product_quantization_has_linear_gradient as linear_gradient
    for _ in range(20):
        ib, wb, pb = rng.randint(2, 7), rng.randint(2, 7), rng.randint(2, 12)
        si, sw, sp = (2.0 ** rng.randint(0, 7) for _ in range(3))
        lo, hi = bounds(pb, True)
        a, b = bounds(ib, True), bounds(wb, True)
        fits = all(lo * si * sw <= p * q * sp <= hi * si * sw for p in range(a[0], a[1] + 1) for q in range(b[0], b[1] + 1))
        got = linear_gradient(si, ib, sw, wb, sp, pb)
        ctx.check(bool(got) == fits, "guard", f"{label}: input {si}/{ib} weight {sw}/{wb} product {sp}/{pb}: admitted {got}, products fit {fits}")
        ctx.count("guards_" + ("fit" if fits else "overflow"))


def regions(ctx, rng, label):
    import torch
    from model import ops
    H, W = rng.randint(3, 22), rng.randint(3, 22)
    r = np.random.default_rng(rng.randrange(1 << 60))
    ids = torch.arange(H * W).reshape(1, 1, H, W)
    parts = ops.split_3x3_regions(ids)
    cells = [p.flatten().tolist() for p in parts]
    flat = [c for p in cells for c in p]
    where = f"{label}: board {H}x{W}"
    ctx.check(sorted(flat) == list(range(H * W)), "regions:partition", f"{where}: nine regions do not hold every cell once")
    cut = lambda n: [n // 3 + (n % 3 == 2), n // 3 + (n % 3 == 1), n // 3 + (n % 3 == 2)]
    shape = [(h, w) for h in cut(H) for w in cut(W)]
    ctx.check([tuple(p.shape[-2:]) for p in parts] == shape, "regions:shape", f"{where}: region shapes {[tuple(p.shape[-2:]) for p in parts]}")
    k = r.integers(0, 1 << 12, (2, 3, H, W))
    x = torch.from_numpy((k / 128).astype(np.float32))
    for name, fn in (("sum", getattr(ops, "sum_3x3_regions", None)), ("mean", getattr(ops, "mean_3x3_regions", None))):
        if fn:
            ref = [k.reshape(2, 3, -1)[:, :, c].sum(-1) / 128 / (len(c) if name == "mean" else 1) for c in cells]
            for i, got in enumerate(fn(x)):
                ctx.check(np.allclose(f64(got), ref[i], rtol=1e-5), f"regions:{name}", f"{where}: {name} of region {i}")
    for i, got in enumerate(ops.quantized_sum_3x3_regions(x)):
        want = (k.reshape(2, 3, -1)[:, :, cells[i]].sum(-1) >> 5) / 128
        same(ctx, f64(got), want, True, "regions:shifted-sum", f"{where}: region {i}")
    n = 300
    q = [np.concatenate([r.integers(-128, 128, n), [-128, -128, 127, 127]]) for _ in range(4)]
    x = [torch.from_numpy(((v + r.uniform(0, 0.9, v.shape) * (rng.random() < .5)) / 128).astype(np.float32)) for v in q]
    half = lambda a, b: (a + b + 1) >> 1
    same(ctx, f64(ops.quantized_avg4(*x)), half(half(q[0], q[1]), half(q[2], q[3])) / 128, True, "regions:avg4", label)
    big = [t * 3 for t in x]
    q = [codes(t.numpy(), 128, 8, floor=True).astype(np.int64) for t in big]
    same(ctx, f64(ops.quantized_avg4(*big)), half(half(q[0], q[1]), half(q[2], q[3])) / 128, True, "regions:avg4-saturated", label)
    ctx.seen("regions", H % 3, W % 3, H, W)


def dynamic(ctx, rng, label):
    import torch
    from model.ops import dynamic_pointwise_conv2d
    r = np.random.default_rng(rng.randrange(1 << 60))
    B, C, O, H, W = rng.randint(1, 6), rng.randint(1, 8), rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 6)
    x, w = r.integers(-50, 50, (B, C, H, W)), r.integers(-50, 50, (B, O, C))
    tw = torch.from_numpy(w.astype(np.float32))
    got = f64(dynamic_pointwise_conv2d(torch.from_numpy(x.astype(np.float32)), tw if rng.random() < .5 else tw.reshape(B, -1)))
    want = np.einsum("boc,bchw->bohw", w, x).astype(np.float64)
    same(ctx, got, want, True, "dynamic", f"{label}: {B}x{C}->{O} on {H}x{W}")
    ctx.seen("dynamic", B, C, O)


def star(ctx, rng, label):
    import torch
    from model.layers.star import StarBlock
    r = np.random.default_rng(rng.randrange(1 << 60))
    i, n, e = rng.choice([4, 16, 32]), rng.choice([4, 16, 32]), rng.choice([1, 2])
    block = StarBlock(i, n, e)
    o = dict(input_quant_scale=128, input_quant_bits=8, weight_quant_scale=128, weight_quant_bits=8, bias_quant_bits=32)
    p = {}
    for name in ("up1", "up2", "down"):
        fc = getattr(block, name).fc
        p[name] = (spread(r, tuple(fc.weight.shape), 128, 8, rng.choice([0.2, 1.2])), spread(r, tuple(fc.bias.shape), 16384, 15, 1))
        weights(fc, *p[name])
    x = spread(r, (7, i), 128, 8, rng.choice([0.5, 1.3]))
    a, b = np.maximum(linear_ref(x, *p["up1"], o)[0], 0), linear_ref(x, *p["up2"], o)[0]
    a, b = codes(a, 128, 8, floor=True), codes(b, 128, 8, floor=True)
    z = codes((a * b).reshape(7, -1, 2).sum(-1) / 16384, 128, 8, floor=True) / 128
    want = np.maximum(linear_ref(z, *p["down"], o)[0], 0)
    same(ctx, f64(block(torch.from_numpy(x))), want, True, "star", f"{label}: star {i}->{n} expand {e}")
    ctx.seen("star", i, n, e)


def prelu(ctx, rng, label):
    import torch
    from model.layers.activation import QuantPReLU
    r = np.random.default_rng(rng.randrange(1 << 60))
    n, si, ib, sw, wb, signed = rng.choice([1, 5]), rng.choice([32, 128]), rng.choice([8, 16]), rng.choice([128, 32768]), rng.choice([8, 16]), rng.random() < .5
    m = QuantPReLU(n, input_quant_scale=si, input_quant_bits=ib, weight_quant_scale=sw, weight_quant_bits=wb, weight_signed=signed)
    w = spread(r, (n,), sw, wb, 1.5)
    with torch.no_grad():
        m.weight.copy_(torch.from_numpy(w))
    x = spread(r, (6, 5, 3), si, ib, 1.4)
    xi, wi = codes(x, si, ib), codes(w, sw, wb, signed)
    want = np.where(xi > 0, xi / si, xi * wi.reshape(1, -1, 1) / (si * sw))
    same(ctx, f64(m(torch.from_numpy(x))), want, ib + wb <= 24, "prelu", f"{label}: prelu input {si}/{ib} weight {sw}/{wb} signed {signed}")
    ctx.seen("prelu", n, si, ib, sw, wb, signed)


def hashing(ctx, rng, label):
    import torch
    from model.layers.hashing import HashLayer
    r = np.random.default_rng(rng.randrange(1 << 60))
    size, level, log = rng.choice([1, 4, 6, 18, 49]), rng.choice([2, 2, 3]), rng.choice([4, 7, 10])
    subs, div, dim, quant = rng.choice([1, 1, 2, 3]), rng.choice([2, 4]), rng.choice([6, 12]), rng.random() < .7
    torch.manual_seed(rng.randrange(1 << 30))
    m = HashLayer(size, level, log, dim, quant, subs, div)
    sd = m.state_dict()
    if quant and rng.random() < .5:
        with torch.no_grad():
            m.features.weight.mul_(3)
    table = f64(m.features.weight)
    n = 20
    k = r.integers(0, level, (n, size))
    perfect = 2 ** log >= level ** size
    where = f"{label}: hash of {size} inputs with {level} levels into 2^{log}, {subs} tables, divisor {div}, dim {dim}, quant {quant}"
    if perfect:
        idx = (k * level ** np.arange(size)).sum(1)
        rows = level ** size
        ctx.check("hashs" not in sd, "hash:perfect", f"{where}: a table that holds every input is still hashed")
    else:
        h = sd["hashs"].numpy().astype(np.int64)
        idx = h[np.arange(size)[None], k].sum(1) % 2 ** log
        rows = 2 ** log
    parts, off = [], 0
    for s in range(subs):
        parts.append(table[off + idx // div ** s])
        off += math.ceil(rows / div ** s)
    ctx.check(table.shape[0] == off, "hash:rows", f"{where}: the table has {table.shape[0]} rows, expected {off}")
    want = np.concatenate(parts, 1)
    if subs > 1:
        want = want @ f64(m.feature_mapping.weight).T + f64(m.feature_mapping.bias)
    if quant:
        v = np.clip(want, -1, 127 / 128)
        tie = np.abs(v * 128 - np.floor(v * 128) - .5) < 1e-4
        want = np.rint(v * 128) / 128
    xf = torch.from_numpy((k / max(1, level - 1)).astype(np.float32))
    for got in (m(xf), m(None, torch.from_numpy(k))):
        g = f64(got)
        if subs > 1 and quant:
            ctx.check((np.abs(g - want) <= np.where(tie, 1.01 / 128, 1e-6)).all(), "hash:value", where)
        else:
            same(ctx, g, want, subs == 1, "hash:value", where)
    for bad in (xf + 2, xf - 3):
        try:
            m(bad)
            ctx.check(False, "hash:invalid", f"{where}: inputs outside [0, 1] are accepted")
        except (IndexError, RuntimeError, ValueError):
            ctx.count("rejected")
    if perfect and level ** size <= 1024 and subs == 1 and quant is False:
        every = torch.from_numpy(np.stack(np.meshgrid(*[np.arange(level)] * size), -1).reshape(-1, size))
        ctx.check(len(np.unique(f64(m(None, every)), axis=0)) == level ** size, "hash:collision", f"{where}: two inputs share a row of a perfect table")
    ctx.seen("hash", size, level, log, subs, quant, perfect)


# ---------------------------------------------------------------- live models

def model_case(ctx, rng, label, n):
    """Every quantised operation of a whole model, recomputed in integers as it runs."""
    import sys
    import torch
    from model.layers.convolution import Conv2dBlock
    from model.layers.linear import LinearBlock
    from utils import quant_utils
    from utils.training_utils import apply_weight_clipping, resolve_weight_clipping
    families = [f for f in zoo.FAMILIES if f.startswith(("mix", "flat", "line")) and f != "flat_nnue_v1" and "svq" not in f]
    family = families[n % len(families)]
    kw, sizes = zoo.FAMILIES[family](rng)
    model = zoo.build(family, kw, rng.randrange(1000))
    zoo.shake(model, rng)
    scale = rng.choice([0.3, 1, 1, 3, 30])
    with torch.no_grad():
        for p in model.parameters():
            if p.is_floating_point():
                p.mul_(scale)
    where = f"{label}: {family} {kw} weights x{scale}"
    clipped = {}
    groups = getattr(model, "weight_clipping", None)
    if groups is not None:
        apply_weight_clipping(resolve_weight_clipping(model.named_parameters(), groups))
        names = {id(p): nm for nm, p in model.named_parameters()}
        for g in groups:
            for nm in g["params"]:
                if not g.get("virtual_param"):
                    clipped[nm] = True
    original = quant_utils.fake_quant
    faults = []

    def watch(x, scale=128, zero_point=0, num_bits=8, signed=True, floor=False):
        y = original(x, scale, zero_point, num_bits, signed, floor)
        if isinstance(scale, (int, float)) and math.log2(scale).is_integer() and not zero_point:
            v, c = f64(y), codes(f64(x), scale, num_bits, signed, floor)
            small = np.abs(c) < 2 ** 24
            if not np.isfinite(f64(x)).all():
                faults.append(("model:not-finite", "a quantised tensor is not finite"))
            elif ((v * scale != c) & small).any():
                faults.append(("model:quant", f"a value is {(v * scale)[(v * scale != c) & small][0]} steps instead of {c[(v * scale != c) & small][0]} (scale {scale}, bits {num_bits})"))
            ctx.count("watched_values", v.size)
            if isinstance(x, torch.nn.Parameter) and num_bits is not None and clipped.get(names.get(id(x))):
                lo, hi = bounds(num_bits, signed)
                k = f64(x) * scale
                if k.min() < lo - 1.001 or k.max() > hi + 1.001:      # limits of exactly +-1 are one step wide
                    faults.append(("model:weight-saturated", f"{names[id(x)]} reaches {k.min()}..{k.max()} after clipping; {num_bits} bits hold {lo}..{hi}"))
                ctx.count("clipped_weights")
        return y

    def hook(m, args, out):
        x = f64(args[0])
        y = f64(out[0] if isinstance(out, tuple) else out)
        slack = 0
        o = {k: getattr(m, k, None) for k in ("input_quant_scale", "input_quant_bits", "weight_quant_scale", "weight_quant_bits", "bias_quant_scale", "bias_quant_bits")}
        if isinstance(m, LinearBlock):
            w, b = f64(m.fc.weight), None if m.fc.bias is None else f64(m.fc.bias)
            want, top = linear_ref(x.reshape(-1, x.shape[-1]), w, b, o)
            want = want.reshape(x.shape[:-1] + (-1,))
        else:
            c = m.conv
            want, top, slack = conv_ref(x, f64(c.weight), None if c.bias is None else f64(c.bias), o, m.quant, c.stride, c.padding, c.dilation, c.groups)
        t = torch.from_numpy(want)
        if m.activation is not None:
            t = m.activation(t)
        want = t.numpy()
        tol = slack + (0 if top < 2 ** 24 else 1e-5 * max(1.0, np.abs(want).max()))
        if y.shape != want.shape or not (np.abs(y - want) <= tol).all():
            faults.append(("model:layer", f"{type(m).__name__} differs from integer arithmetic by {np.abs(y - want).max() if y.shape == want.shape else 'shape'}"))
        ctx.count("live_layers")
        ctx.count("live_exact" if not np.any(tol) else "live_close")

    handles = []
    for m in model.modules():
        if isinstance(m, (LinearBlock, Conv2dBlock)) and getattr(m, "quant", False) and not getattr(m, "activation_first", False) and m.norm is None:
            handles.append(m.register_forward_hook(hook))
    swapped = [mod for nm, mod in list(sys.modules.items()) if nm.startswith(("model", "utils")) and getattr(mod, "fake_quant", None) is original]
    data = zoo.batch(rng, [rng.choice(sizes)] * rng.randint(1, 3), lines=zoo.wants_lines(family))
    for mod in swapped:
        mod.fake_quant = watch
    try:
        for training in (False, True):
            model.train(training)
            if training and len(data["stm_input"]) < 2:
                continue
            model(data)
    finally:
        for mod in swapped:
            mod.fake_quant = original
        for h in handles:
            h.remove()
    for mech, text in faults[:3]:
        ctx.check(False, mech, f"{where}: {text}")
    ctx.check(True, "model", where)
    ctx.seen("model", family, str(kw))


def run(ctx):
    ctx.rule = ("fake quantisation of generated values (grid points, ties, limits, far outside), quantised linear, convolution, star, "
                "activation, hashing and region operators, and every quantised operation inside whole models, against integer "
                "references; gradients against clipped straight-through references. Non-trivial: distinct (operator, scales, bits, shape)")
    import torch
    torch.set_num_threads(2)
    for name, rng in ctx.cases("scalar", 1200, 40000, share=0.15):
        with ctx.case(name, sample=False):
            scalar(ctx, rng, name)
    kinds = [linear, linear, conv, conv, conv, guard, regions, dynamic, star, prelu, hashing]
    for name, rng in ctx.cases("layer", 2500, 60000, share=0.5):
        with ctx.case(name, sample=False):
            kinds[int(name.split("#")[1]) % len(kinds)](ctx, rng, name)
    for name, rng in ctx.cases("model", 300, 6000):
        with ctx.case(name, sample=False):
            model_case(ctx, rng, name, int(name.split("#")[1]))
    for what, least in (("values", 4000), ("saturated", 500), ("clipped_gradients", 500), ("gradients", 4000), ("exact_outputs", 10000),
                        ("saturated_products", 100), ("guards_fit", 20), ("guards_overflow", 20), ("rejected", 10),
                        ("live_layers", 60), ("watched_values", 20000), ("clipped_weights", 20)):
        ctx.require(what, least)
