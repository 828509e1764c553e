"""Independent readers of exported weight files and the lookup networks they describe.

Every reader follows the published struct layout of its family, turns the integer fields back into
parameters by the scales of that layout, and returns the mapping tables separately.  A lookup network
is a copy of the model in which those parameters are loaded and every learned line or patch mapping
is replaced by a table lookup, which is how an inference engine evaluates the file.
"""
import copy
import struct
import zlib

import numpy as np


class Malformed(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.data, self.at = memoryview(data), 0

    def take(self, dtype, *shape):
        dt = np.dtype(dtype)
        n = int(np.prod(shape)) if shape else 1
        end = self.at + n * dt.itemsize
        if end > len(self.data):
            raise Malformed(f"ends at byte {len(self.data)}, a field of {n} {dt.str} starts at {self.at}")
        out = np.frombuffer(self.data[self.at:end], dt).reshape(shape)
        self.at = end
        return out

    def i8(self, *s):
        return self.take("<i1", *s)

    def i16(self, *s):
        return self.take("<i2", *s)

    def i32(self, *s):
        return self.take("<i4", *s)

    def f32(self, *s):
        return self.take("<f4", *s)

    def pad(self, n):
        if self.take("<i1", n).any():
            raise Malformed(f"padding before byte {self.at} is not zero")

    def packed(self, rows, dim, bits=10):
        n = rows * dim
        words = self.take("<u8", (n * bits + 63) // 64)
        bit = np.arange(n, dtype=np.int64) * bits
        w, off = bit >> 6, (bit & 63).astype(np.uint64)
        v = words[w] >> off
        over = np.flatnonzero(off > 64 - bits)
        v[over] |= words[w[over] + 1] << (np.uint64(64) - off[over])
        v = (v & np.uint64(2 ** bits - 1)).astype(np.int64)
        used = n * bits & 63
        if used and int(words[-1]) >> used:
            raise Malformed("bits after the last packed feature are set")
        v[v >= 2 ** (bits - 1)] -= 2 ** bits
        return v.reshape(rows, dim).astype(np.int16)

    def done(self):
        if self.at != len(self.data):
            raise Malformed(f"{len(self.data) - self.at} bytes follow the last field")


class Tokens:
    """The text variant: a name line, then a line of values."""

    def __init__(self, text):
        self.lines, self.at = text.splitlines(), 0

    def line(self):
        while self.at < len(self.lines) and not self.lines[self.at].strip():
            self.at += 1
        if self.at >= len(self.lines):
            raise Malformed("text ends early")
        self.at += 1
        return self.lines[self.at - 1]

    def name(self, want):
        got = self.line().strip()
        if got != want:
            raise Malformed(f"line {self.at} reads {got[:40]!r}, expected {want!r}")

    def values(self, name, *shape):
        self.name(name)
        v = np.array(self.line().split(), np.float64)
        n = int(np.prod(shape)) if shape else 1
        if v.size != n:
            raise Malformed(f"{name} has {v.size} values instead of {n}")
        return v.reshape(shape)

    def table(self, name, rows, dim):
        self.name(name)
        count = int(self.line())
        table = np.zeros((rows, dim), np.int16)
        used = np.zeros(rows, bool)
        block = np.array([x for _ in range(count) for x in self.line().split()], np.int64).reshape(count, dim + 1)
        table[block[:, 0]] = block[:, 1:]
        used[block[:, 0]] = True
        if used.sum() != count:
            raise Malformed(f"{name} lists a row twice")
        return table, used

    def done(self):
        rest = [x for x in self.lines[self.at:] if x.strip()]
        if rest:
            raise Malformed(f"text continues with {rest[0][:40]!r}")


MAGIC = zlib.crc32(b"gomoku network weight version 1")


def header(r):
    magic, arch, rules, sizes, n = struct.unpack("<5I", r.take("<u1", 20).tobytes())
    if magic != MAGIC:
        raise Malformed(f"magic is {magic:#x}")
    return arch, rules, sizes, r.take("<u1", n).tobytes().decode("utf-8")


def arch_hash(model_type, kwargs):
    """The published identification of every headered family."""
    k = kwargs
    c = lambda s: zlib.crc32(s.encode())
    if model_type == "mix6":
        return c("mix6net") ^ c(k["input_type"]) ^ ((k["dim_policy"] << 16) | k["dim_value"])
    if model_type == "mix7":
        dw = k.get("dim_dwconv") or max(k["dim_policy"], k["dim_value"])
        return c("Mix7Net") ^ c(k["input_type"]) ^ zlib.crc32(k.get("dwconv_kernel_size", 3).to_bytes(4, "little")) ^ ((dw << 24) | (k["dim_policy"] << 16) | k["dim_value"])
    if model_type == "mix8":
        f, dw = max(k["dim_policy"], k["dim_value"]), k.get("dim_dwconv") or k["dim_policy"]
        return c("Mix8Net") ^ c(k["input_type"]) ^ (f // 8 | k["dim_policy"] // 8 << 8 | k["dim_value"] // 8 << 14 | k["dim_value_group"] // 8 << 20 | dw // 8 << 26)
    if model_type in ("mix9", "mix9s", "mix9svq"):
        name = {"mix9": "Mix9Net", "mix9s": "Mix9sNet", "mix9svq": "Mix9sVQNet"}[model_type]
        return c(name) ^ c(k["input_type"]) ^ (k["dim_feature"] // 8 | k["dim_policy"] // 8 << 8 | k["dim_value"] // 8 << 14 | k["dim_dwconv"] // 8 << 20)
    if model_type == "mix10":
        return c("Mix10Net") ^ c(k["input_type"]) ^ (k["dim_feature"] // 8 | k["dim_dwconv"] // 8 << 8 | k["dim_value"] // 8 << 16)
    raise KeyError(model_type)


class Decoded:
    def __init__(self):
        self.params = {}      # name -> (values, half width of the step around them, representable low, high)
        self.tables = {}      # mapping module -> codes
        self.scale = {}       # mapping module -> codes per unit
        self.set = {}         # attributes of the lookup network that differ from the model
        self.index = None     # "lines" | "runs" | "ladder" | "square"
        self.exact = True
        self.ratio = []       # parameters known up to one positive factor: (name, half step, reciprocal)

    def put(self, name, codes, scale, low=None, high=None, slack=0.5):
        self.params[name] = (np.asarray(codes, np.float64) / scale, slack / scale, None if low is None else low / scale, None if high is None else high / scale)

    def fc(self, name, w, b, scale=128, bias=128 * 128):
        self.put(name + ".fc.weight", w, scale, -128, 127)
        self.put(name + ".fc.bias", b, bias, -2 ** 31, 2 ** 31 - 1)


def conv3(w, c):
    """[9][C] -> [C, 1, 3, 3]"""
    return np.asarray(w, np.float64).T.reshape(c, 1, 3, 3)


def _mix9_head(r, d, k, text):
    F, P, V, D = k["dim_feature"], k["dim_policy"], k["dim_value"], k["dim_dwconv"]
    M = 16

    def linear(label, name, o, i, wt="i1"):
        if text:
            w, b = r.values(f"{label}_weight", o, i), r.values(f"{label}_bias", o)
        else:
            w, b = r.take("<" + wt, o, i), r.i32(o)
        return w, b

    def fc(label, name, o, i):
        d.fc(name, *linear(label, name, o, i))

    def star(name, o, i):
        for part, po, pi in (("up1", o * 2, i), ("up2", o * 2, i), ("down", o, o)):
            fc(f"{name}_{part}", f"{name}.{part}", po, pi)

    w = r.values("feature_dwconv_weight", 9, D) if text else r.i16(9, D)
    b = r.values("feature_dwconv_bias", D) if text else r.i16(D)
    d.put("feature_dwconv.conv.weight", conv3(w, D), 65536, -32768, 32767)
    d.put("feature_dwconv.conv.bias", b, 128, -64 * 128, 64 * 128)
    if k.get("no_dynamic_pwconv"):
        w, b = linear("policy_pwconv", "policy_pwconv", M, P, "i2")
        d.put("policy_pwconv.conv.weight", w.reshape(M, P, 1, 1), 128 * 128, -32768, 32767)
        d.put("policy_pwconv.conv.bias", b, 128 ** 3, -2 ** 31, 2 ** 31 - 1)
    else:
        fc("policy_pwconv_layer_l1", "policy_pwconv_weight_linear.0", P * 2, F)
        fc("policy_pwconv_layer_l2", "policy_pwconv_weight_linear.1", M * P + M, P * 2)
    vin = F
    if not k.get("no_value_group"):
        vin = F + 4 * V
        for name, i in (("value_corner", F), ("value_edge", F), ("value_center", F), ("value_quad", V)):
            if k.get("no_star_block"):
                fc(name, name, V, i)
            else:
                star(name, V // 1, i)
    fc("value_l1", "value_linear.0", V, vin)
    fc("value_l2", "value_linear.1", V, V)
    if text:
        fc("value_l3", "value_linear.2", 3, V)
        d.params["policy_output.weight"] = (r.values("policy_output_weight", M).reshape(1, M, 1, 1) * 128.0 ** 3, "rel", None, None)
        d.params["policy_output.bias"] = (r.values("policy_output_bias", 1), "rel", None, None)
    else:
        _padded(r, d, "value_linear.2", V)
        d.params["policy_output.weight"] = (r.f32(M).astype(np.float64).reshape(1, M, 1, 1) * 128.0 ** 3, "rel", None, None)
        d.params["policy_output.bias"] = (r.f32(1), "rel", None, None)
        r.pad(44)


def _padded(r, d, name, width, rows=3, total=4, scale=128, bias=128 * 128):
    w, b = r.i8(total, width), r.i32(total)
    if w[rows:].any() or b[rows:].any():
        raise Malformed(f"the padding rows of {name} are not zero")
    d.fc(name, w[:rows], b[:rows], scale, bias)


def mix9(r, k, text=False, rows=442503, model_type="mix9"):
    d, F = Decoded(), k["dim_feature"]
    d.index = "lines"
    names = ["mapping0"] if k.get("one_mapping") else ["mapping1", "mapping2"]
    if model_type == "mix9svq":
        K, size = k.get("num_codebooks", 1), k["codebook_size"]
        books = [r.packed(K * size, F // K).reshape(K, size, F // K) for _ in names]
        d.vq = {}
        for n, book in zip(names, books):
            idx = r.take("<u2", rows, K)
            if idx.max() >= size:
                raise Malformed(f"code index {idx.max()} of {size}")
            d.vq[n] = (book, idx)
            d.tables[n] = np.concatenate([book[j][idx[:, j]] for j in range(K)], axis=1)
    else:
        for n in names:
            d.tables[n] = r.table("feature" + n.replace("mapping", "map"), rows, F)[0] if text else r.packed(rows, F)
    d.scale = {n: 32.0 for n in names}
    _mix9_head(r, d, k, text)
    r.done()
    return d


def mix10(r, k, rows=442503):
    d, F, D, V = Decoded(), k["dim_feature"], k["dim_dwconv"], k["dim_value"]
    d.index, d.set = "lines", {"spherical_feature": False}
    for n in ("mapping1", "mapping2"):
        d.tables[n], d.scale[n] = r.packed(rows, F), 32.0
    d.put("feature_dwconv.conv.weight", conv3(r.i16(9, D), D), 65536, -32768, 32767)
    d.put("feature_dwconv.conv.bias", r.i16(D), 128, -64 * 128, 64 * 128)
    si, so = max(D // 2, 16), max(D // 4, 16)
    li, lm, lo = max(D, 16), max(D // 2, 16), max(D // 4, 16)

    def fc(name, o, i):
        w, b = r.i8(o, i), r.i32(o)
        d.fc(name, w, b)
    fc("policy_small_pwconv_weight.0", V, V)
    fc("policy_small_pwconv_weight.1", so * (si + 1), V)
    fc("policy_large_pwconv_weight_0", V, V)
    fc("policy_large_pwconv_weight_1", lm * (li + 1), V)
    fc("policy_large_pwconv_weight_2", lo * (lm + 1), V)
    fc("value_linear_small.0", V, F)
    fc("value_linear_small.1", V, V)
    _padded(r, d, "value_small_output", V)
    r.pad(48)
    fc("value_gate", F * 2, V)
    for n, i in (("value_corner", F), ("value_edge", F), ("value_center", F), ("value_quad", V)):
        fc(n, V, i)
    fc("value_linear_large.0", V, V * 5)
    fc("value_linear_large.1", V, V)
    _padded(r, d, "value_large_output", V)
    r.pad(48)
    ws, wl = r.f32(so), r.f32(lo)
    d.params["policy_small_output.weight"] = (ws.astype(np.float64).reshape(1, so, 1, 1) * 128.0 ** 3, "rel", None, None)
    d.params["policy_large_output.weight"] = (wl.astype(np.float64).reshape(1, lo, 1, 1) * 128.0 ** 3, "rel", None, None)
    d.params["policy_small_output.bias"] = (r.f32(1), "rel", None, None)
    d.params["policy_large_output.bias"] = (r.f32(1), "rel", None, None)
    r.pad(56)
    r.done()
    return d


def _floats(r, d, name, o, i):
    w, b = r.f32(i, o), r.f32(o)
    d.params[name + ".fc.weight"] = (w.T, "rel", None, None)
    d.params[name + ".fc.bias"] = (b, "rel", None, None)


def mix6(r, k, text=False, L=11):
    d, P, V = Decoded(), k["dim_policy"], k["dim_value"]
    d.index, d.exact, C = "runs", False, P + V
    if text:
        table, _ = r.table("featuremap", 4 * 3 ** L, C)
        slope, bias = r.values("map_lr_slope_sub1div8", C), r.values("map_lr_bias", C)
        cw, cb = r.values("policyConvWeight", 9, P), r.values("policyConvBias", P)
        pw = r.values("policyFinalConv", P)
        neg, pos = r.values("policy_neg_slope"), r.values("policy_pos_slope")
        s = float(r.values("scale_beforemlp"))
        vs = r.values("value_lr_slope_sub1", V)
        fcs = [(n, r.values(f"mlp_w{i}", V, o).T, r.values(f"mlp_b{i}", o)) for n, i, o in (("value_linear.0", 1, V), ("value_linear.1", 2, V), ("value_linear_final", 3, 3))]
    else:
        table = r.i16(4 * 3 ** L, C)
        slope, bias = r.i16(C), r.i16(C)
        cw, cb, pw = r.i16(9, P), r.i16(P), r.i16(P)
        neg, pos = r.f32(2)
        s = float(r.f32(1)[0])
        vs = r.f32(V)
        fcs = [("value_linear.0", r.f32(V, V).T, r.f32(V)), ("value_linear.1", r.f32(V, V).T, r.f32(V))]
        w3 = r.f32(V, 3).T
        r.pad(20)
        fcs.append(("value_linear_final", w3, r.f32(3)))
        r.pad(20)
    neg, pos = float(neg), float(pos)
    d.tables["mapping"], d.scale["mapping"] = table, 1 / s
    d.set = {"map_max": 0, "mapping_activation.bound": 0}
    d.put("mapping_activation.neg_slope", 2.0 ** 15 / 8 + np.asarray(slope, np.float64), 2.0 ** 15 / 8, slack=1.01)
    d.put("mapping_activation.bias", bias, 1 / s, slack=1.01)
    # integer convolution over feature codes, then the final slopes restore the unit
    d.params["policy_conv.conv.weight"] = (conv3(cw, P) / 2 ** 15 / s, None, None, None)
    d.params["policy_conv.conv.bias"] = (np.asarray(cb, np.float64), None, None, None)
    d.params["policy_linear.conv.weight"] = (np.asarray(pw, np.float64).reshape(1, P, 1, 1) / 2 ** 15 * pos, None, None, None)
    d.params["policy_activation.neg_slope"] = (np.array([neg / pos]), 1e-5, None, None)
    d.ratio = [("policy_conv.conv.weight", 1.01 / 2 ** 15 / s, False), ("policy_conv.conv.bias", 1.01, False),
               ("policy_linear.conv.weight", 1.01 * abs(pos) / 2 ** 15, True)]
    d.params["value_activation.neg_slope"] = (np.asarray(vs, np.float64) + 1, 1e-6, None, None)
    for n, w, b in fcs:
        d.params[n + ".fc.weight"] = (w, "rel", None, None)
        d.params[n + ".fc.bias"] = (b, "rel", None, None)
    r.done()
    return d


def mix7(r, k, text=False, L=11):
    d, P, V = Decoded(), k["dim_policy"], k["dim_value"]
    d.index, d.exact, C = "runs", False, max(P, V)
    D = k.get("dim_dwconv") or C
    if k.get("dwconv_kernel_size", 3) != 3:
        raise KeyError("kernel")
    table = r.i16(4 * 3 ** L, C)
    prelu = r.i16(C)
    cw, cb = r.i16(9, D), r.i16(D)
    pw = r.i16(P)
    fcs = [(n, r.f32(V, o).T, r.f32(o)) for n, o in (("value_linear.0", V), ("value_linear.1", V), ("value_linear.2", 3))]
    neg, pos = map(float, r.f32(2))
    after, direct = map(float, r.f32(2))
    r.pad(4)
    d.tables["mapping"], d.scale["mapping"] = table, 1 / (direct * 4)
    d.set = {"map_max": 0}
    d.put("mapping_activation.weight", prelu, 2.0 ** 15, -2 ** 15, 2 ** 15 - 1, slack=1.01)
    d.put("feature_dwconv.conv.weight", conv3(cw, D), 2.0 ** 15 * direct / after, slack=1.01)
    d.put("feature_dwconv.conv.bias", cb, 1 / after, slack=1.01)
    d.put("policy_pwconv.conv.weight", pw.reshape(1, P, 1, 1), 2.0 ** 15 * after / pos, slack=1.01)
    d.params["policy_activation.weight"] = (np.array([neg / pos]), 1e-5, None, None)
    for n, w, b in fcs:
        d.params[n + ".fc.weight"] = (w, "rel", None, None)
        d.params[n + ".fc.bias"] = (b, "rel", None, None)
    r.done()
    return d


def mix8(r, k, L=11):
    d, P, V, G = Decoded(), k["dim_policy"], k["dim_value"], k["dim_value_group"]
    d.index, d.exact, C = "runs", False, max(P, V)
    D = k.get("dim_dwconv") or P
    table, prelu = r.i16(4 * 3 ** L, C), r.i16(C)
    cw, cb = r.i16(9, D), r.i16(D)
    after, direct = map(float, r.f32(2))
    buckets = int(r.i32(1)[0])
    if buckets != 1:
        raise Malformed(f"{buckets} head buckets")
    r.pad(52)
    d.tables["mapping"], d.scale["mapping"] = table, 1 / (direct * 4)
    d.put("mapping_activation.weight", prelu, 2.0 ** 15, -2 ** 15, 2 ** 15 - 1, slack=0.51)
    d.put("feature_dwconv.conv.weight", conv3(cw, D), 2.0 ** 15 * direct / after, slack=0.51)
    d.put("feature_dwconv.conv.bias", cb, 1 / after, slack=0.51)
    one = lambda name, *s: d.params.__setitem__(name, (r.f32(*s), "rel", None, None))
    _floats(r, d, "policy_pwconv_weight_linear.0", P, C)
    one("policy_pwconv_weight_linear.1.weight", P)
    _floats(r, d, "policy_pwconv_weight_linear.2", 4 * P, P)
    for n, i in (("corner", C), ("edge", C), ("center", C), ("quad", G)):
        _floats(r, d, f"value_{n}_linear", G, i)
        one(f"value_{n}_act.weight", G)
    _floats(r, d, "value_linear.0", V, C + 4 * G)
    _floats(r, d, "value_linear.1", V, V)
    _floats(r, d, "value_linear.2", 3, V)
    pos, neg = r.f32(4).astype(np.float64), r.f32(4).astype(np.float64)
    d.params["policy_output.1.weight"] = (pos.reshape(1, 4, 1, 1) / after, "rel", None, None)
    d.params["policy_output.0.weight"] = (neg / pos, 1e-4, None, None)
    d.params["policy_output.1.bias"] = (r.f32(1), "rel", None, None)
    r.pad(16)
    r.done()
    return d


def ladder(r, k, maps):
    d, V = Decoded(), k["dim_value"] + k["dim_policy"]
    d.index = "ladder"
    for n in maps:
        d.tables[n], d.scale[n] = r.i8(3 ** 10, V), 128.0
    vh = 1 if k["value_no_draw"] else 3
    for i, (o, w) in enumerate(((32, k["dim_value"]), (32, 32), (32, 32))):
        wt, b = r.i8(o, w), r.i32(o)
        d.fc(f"value_linears.{i}", wt, b)
    _padded(r, d, "value_linears.3", 32, vh)
    r.done()
    return d


def square(r, k, version):
    d, F = Decoded(), k["dim_feature"]
    d.index = "square"
    int4 = k.get("quant_int4", False)

    def table(name, rows, packed, offset):
        if packed:
            b = r.take("<u1", rows, F // 2)
            t = np.empty((rows, F), np.int8)
            t[:, 0::2] = (b & 15).astype(np.int8) - 8
            t[:, 1::2] = (b >> 4).astype(np.int8) - 8
            d.tables[name], d.scale[name] = t, 8.0
        elif offset:
            d.tables[name], d.scale[name] = (r.take("<u1", rows, F).astype(np.int16) - 128).astype(np.int8), 128.0
        else:
            d.tables[name], d.scale[name] = r.i8(rows, F), 128.0
    if version == 2:
        table("mapping4x4", 3 ** 16, int4, False)
        table("mapping4x3", 3 ** 12, False, False)
        widths = (32, F * 4), (32, 32)
    else:
        for j, n in enumerate(("mapping3x4_corner1", "mapping3x4_corner2", "mapping3x4_middle")):
            table(n, 3 ** 12, int4, j < 2)
        widths = (64, F * 4), (32, 64)
    for i, (o, w) in enumerate(widths):
        wt, b = r.i8(o, w), r.i32(o)
        s = 256 if i == 0 else 128
        d.fc(f"value_linears.{i}", wt, b, s, s * 128)
    _padded(r, d, "value_linears.2", widths[1][0], 1 if k["value_no_draw"] else 3)
    r.done()
    return d


def read(model_type, kwargs, r, text=False):
    if model_type in ("mix9", "mix9s", "mix9svq"):
        return mix9(r, kwargs, text, model_type=model_type)
    if model_type == "mix6":
        return mix6(r, kwargs, text)
    return {"mix7": mix7, "mix8": mix8, "mix10": mix10,
            "flat_ladder7x7_nnue_v1": lambda r, k: ladder(r, k, ["mapping"]),
            "flat_ladder7x7_nnue_v2": lambda r, k: ladder(r, k, ["mapping1", "mapping2"]),
            "flat_square7x7_nnue_v2": lambda r, k: square(r, k, 2),
            "flat_square7x7_nnue_v3": lambda r, k: square(r, k, 3)}[model_type](r, kwargs)


# ---- what the learned mappings should produce (before quantisation), in the unit of the tables

def limited(model_type, kwargs, feature):
    """Documented limits of a family's directional features; ``feature`` is float64 [..., C]."""
    f = np.asarray(feature, np.float64)
    if model_type in ("mix6", "mix7"):
        m = kwargs.get("map_max", 30)
        return m * np.tanh(f / m) if m else f
    if model_type == "mix8":
        return np.clip(f, -32, 32)
    if model_type == "mix10" and kwargs.get("spherical_feature"):
        n = np.sqrt((f * f).sum(-1, keepdims=True))
        f = f / np.maximum(n, 1e-12) * (511 / 32)
    if model_type in ("mix9s", "mix9svq", "mix10"):
        f = np.clip(f, -511 / 32, 511 / 32)
    if model_type in ("mix9", "mix9s", "mix9svq", "mix10"):
        return np.clip(f, -16, 511 / 32)
    if model_type.startswith("flat_square"):
        return np.clip(f, -1, 7 / 8 if kwargs.get("quant_int4") and not kwargs.get("_wide") else 127 / 128)
    return np.clip(f, -1, 127 / 128)


STEPS = ((0, 1), (1, 0), (1, 1), (-1, 1))


def runs(plane, L=11):
    """Index of every cell's line in the run-of-cells tables: [B, 4, H, W]."""
    B, _, H, W = plane.shape
    cell = plane[:, 0] + 2 * plane[:, 1]
    half = L // 2
    out = np.zeros((B, 4, H, W), np.int64)
    p3 = [3 ** i for i in range(L + 1)]
    for d, (dy, dx) in enumerate(STEPS):
        for y in range(H):
            for x in range(W):
                inside = [0 <= y + j * dy < H and 0 <= x + j * dx < W for j in range(-half, half + 1)]
                left, right = inside.index(True), inside[::-1].index(True)
                base = 0
                if left and right:
                    base = 3 * p3[L] + sum(p3[:left - 1]) + sum(p3[L + 1 - right:L])
                elif left:
                    base = 2 * p3[L] + sum(p3[:left - 1])
                elif right:
                    base = sum(p3[L + 1 - right:L + 1])
                # a run keeps its cells at the digits they have when the border is on the right side
                idx = np.full(B, base, np.int64)
                for j in range(left, L - right):
                    idx += cell[:, y + (j - half) * dy, x + (j - half) * dx].astype(np.int64) * p3[j]
                out[:, d, y, x] = idx
    return out


def lines(plane):
    from dataset.pipeline.line_encoding import LineEncodingPipeline
    return LineEncodingPipeline(line_length=11).process_batch({"board_input": np.ascontiguousarray(plane.astype(np.int8))})["line_encoding"].astype(np.int64)


def patch(index, x):
    """Table row of a patch given as planes [B, 2, h, w]."""
    cell = (x[:, 0] + 2 * x[:, 1]).astype(np.int64)
    if index == "ladder":
        seq = [cell[:, y, c] for y in range(4) for c in range(y + 1)][::-1]
    else:
        seq = [cell[:, y, c] for y in range(x.shape[2]) for c in range(x.shape[3])]
    return sum(v * 3 ** i for i, v in enumerate(seq))


def lookup(decoded, model, widths):
    """A copy of the model that evaluates the tables; parameters as decoded, or the model's own."""
    import torch

    class Table(torch.nn.Module):
        def __init__(self, name):
            super().__init__()
            self.name_, self.codes, self.current = name, decoded.tables[name], None

        def forward(self, x, mask=None, dirs=(0, 1, 2, 3)):
            if decoded.index in ("lines", "runs"):
                idx = self.current
                f = self.codes[idx].astype(np.float64) / decoded.scale[self.name_]      # [B, 4, H, W, C]
                f = torch.from_numpy(f.transpose(0, 1, 4, 2, 3).astype(np.float32))
                return f[:, list(dirs)]
            idx = patch(decoded.index, x.numpy())
            f = torch.from_numpy((self.codes[idx] / decoded.scale[self.name_]).astype(np.float32))
            return f[:, :, None, None]

    def make(with_params):
        net = copy.deepcopy(model)
        for n in decoded.tables:
            setattr(net, n, Table(n))
        if hasattr(decoded, "vq"):
            net.do_feature_quantization = lambda feature, data: (feature, {}, {})     # the tables hold the chosen codes
        for path, v in decoded.set.items():
            if not with_params and "." in path:
                continue
            *head, last = path.split(".")
            o = net
            for h in head:
                o = getattr(o, h)
            setattr(o, last, v)
        if with_params:
            own = dict(net.named_parameters())
            with torch.no_grad():
                for n, (v, *_x) in decoded.params.items():
                    own[n].copy_(torch.from_numpy(np.array(v, np.float32)).reshape(own[n].shape))
        return net.eval()
    return make


def aim(net, decoded, plane):
    for n in decoded.tables:
        if decoded.index == "lines":
            getattr(net, n).current = lines(plane)
        elif decoded.index == "runs":
            getattr(net, n).current = runs(plane)
