"""P27: exported weights reproduce the model and identify it correctly."""
import contextlib
import datetime
import io
import itertools
import os
import time

import numpy as np

from .. import expref as E
from .. import zoo

RULES = ("freestyle", "standard", "renju")
HEADERED = ("mix6", "mix7", "mix8", "mix9", "mix9s", "mix9svq", "mix10")
FLAT = ("flat_ladder7x7_nnue_v1", "flat_ladder7x7_nnue_v2", "flat_square7x7_nnue_v3")
# the order spreads the expensive families over the shards
TURN = ("mix9", "mix10", "mix9s", "mix9svq", "flat_ladder7x7_nnue_v2", "flat_square7x7_nnue_v3", "mix7", "mix6",
        "mix8", "flat_ladder7x7_nnue_v1", "mix9", "mix10")
TEXT = ("mix6", "mix9", "mix9s")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def configuration(rng, family):
    two = lambda: rng.choice(["basicns", "basic-nostm"])
    if family == "mix6":
        return dict(dim_middle=rng.choice([8, 16]), dim_policy=rng.choice([8, 16]), dim_value=rng.choice([16, 32]), map_max=rng.choice([0, 30, 20]), input_type=two())
    if family == "mix7":
        p, v = rng.choice([8, 16]), rng.choice([16, 32])
        return dict(dim_middle=rng.choice([8, 16]), dim_policy=p, dim_value=v, dim_dwconv=rng.choice([None, p, 16, v]), map_max=rng.choice([0, 30, 20]),
                    input_type="basic-nostm", dwconv_kernel_size=3)
    if family == "mix8":
        return dict(dim_middle=rng.choice([8, 16]), dim_policy=16, dim_value=rng.choice([16, 32]), dim_value_group=rng.choice([8, 16]), dim_dwconv=rng.choice([None, 16]), input_type=two())
    if family.startswith("flat_ladder"):
        return dict(dim_middle=rng.choice([8, 16]), dim_policy=0, dim_value=32, input_type=two(), value_no_draw=rng.random() < .5)
    if family.startswith("flat_square"):
        return dict(dim_middle=rng.choice([8, 16]), dim_feature=rng.choice([8, 16]), input_type=two(), value_no_draw=rng.random() < .5, quant_int4=rng.random() < .4)
    k = dict(dim_middle=rng.choice([8, 16]), dim_feature=rng.choice([16, 16, 24]), dim_value=rng.choice([16, 32]), dim_dwconv=16, input_type=two())
    if family == "mix10":
        k.update(dim_value=16, spherical_feature=rng.random() < .4, mapping_norm=rng.choice(["none", "none", "bn"]))
        if rng.random() < .2:
            k["feature_norm"] = "bn"
        return k
    k["dim_policy"] = rng.choice([8, 16])
    if family == "mix9":
        for o in ("one_mapping", "no_star_block", "no_dynamic_pwconv", "no_value_group"):
            k[o] = rng.random() < .4
    if family == "mix9svq":
        k.update(dim_feature=16, codebook_size=rng.choice([8, 32]), num_codebooks=rng.choice([1, 2]), kmeans_iter=2)
    return k


def clip(model):
    """What training does after every step."""
    import torch
    own = dict(model.named_parameters())
    with torch.no_grad():
        for g in getattr(model, "weight_clipping", []):
            if "virtual_param" in g:
                continue
            for n in g["params"]:
                own[n].clamp_(g["min_weight"], g["max_weight"])


def train_codebook(model, rng):
    import torch
    model.train()
    with torch.no_grad():
        for _ in range(60):
            model(zoo.batch(rng, [(15, 15)] * 4, lines=True))
            if all(bool(b) for n, b in model.named_buffers() if n.endswith("inited")):
                break
    model.eval()


def network(rng, family, kwargs):
    import torch
    model = zoo.build(family, kwargs, rng.randrange(1 << 30))
    zoo.shake(model, rng)
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    with torch.no_grad():
        for n, p in model.named_parameters():
            if n.startswith("mapping") and "final_conv" in n and rng.random() < .5:
                p.mul_(rng.choice([.5, 2, 4] if family.startswith("mix") and family not in ("mix6", "mix7") else [.5, 1.5]))      # reach the limits of the features
            elif family in ("mix9", "mix9s", "mix9svq", "mix10") and not n.startswith(("mapping", "vq")) and rng.random() < .25:
                p.add_(torch.randn(p.shape, generator=g) * (.02 if "bias" in n else .4))
    if family == "mix9svq":
        train_codebook(model, rng)
    clip(model)
    return model.eval()


def run_export(checkpoint, output, family, kwargs, kind, args, **over):
    import export
    with quiet():
        call = dict(checkpoint=checkpoint, output=output, rundir=None, export_type=kind, model_type=family, model_args=dict(kwargs), export_model_args={},
                    export_args=dict(args), use_cpu=True, datas=None, train_datas=None, dataset_type=None, dataset_args={}, dataloader_args={})
        call.update(over)
        export.export(**call)


def request(rng):
    """Export arguments and what the header should say about them."""
    rules = rng.sample(RULES, rng.randint(1, 3))
    args = {}
    if len(rules) == 1 and rng.random() < .6:
        args["rule"] = rules[0]
    else:
        args[rng.choice(["rule_list", "rules"])] = list(rules)
    how = rng.randrange(5)
    if how == 0:
        sizes = [rng.randint(1, 32)]
        args["board_size"] = sizes[0]
    elif how == 1:
        a, b = sorted(rng.randint(1, 32) for _ in range(2))
        sizes = list(range(a, b + 1))
        args["min_board_size"], args["max_board_size"] = a, b
    elif how in (2, 3):
        sizes = rng.sample(range(1, 33), rng.randint(1, 10))
        args[("board_size_list", "boardsizes")[how - 2]] = list(sizes)
    else:
        sizes = list(range(1, 33))
    d = rng.choice([None, "", "net 7", "重み: küçük ✓", "x" * 300, "a; b=c\n"])
    if d is not None:
        args["description"] = d
    mask = sum({"freestyle": 1, "standard": 2, "renju": 4}[r] for r in rules)
    return args, mask, sum(1 << (s - 1) for s in sizes), d or ""


def check_header(ctx, where, r, family, kwargs, model, mask, sizes, desc):
    try:
        arch, got_rules, got_sizes, text = E.header(r)
    except (E.Malformed, UnicodeDecodeError) as e:
        ctx.fail("export:header", f"{where}: {e}")
    ctx.check(arch == E.arch_hash(family, kwargs) & 0xffffffff, "export:arch", lambda: f"{where}: header names architecture {arch:#x}, the model is {E.arch_hash(family, kwargs):#x}")
    ctx.check(got_rules == mask, "export:rules", lambda: f"{where}: header rules {got_rules:#b}, requested {mask:#b}")
    ctx.check(got_sizes == sizes, "export:boardsizes", lambda: f"{where}: header board sizes {got_sizes:#x}, requested {sizes:#x}")
    ctx.check(text.startswith(f"model={model.name}; {desc}"), "export:description", lambda: f"{where}: header says {text[:80]!r} for model {model.name} described as {desc[:40]!r}")
    ctx.count("headers")


def decode(ctx, where, family, kwargs, r, text=False):
    try:
        return E.read(family, kwargs, r, text=text)
    except E.Malformed as e:
        ctx.fail("export:layout", f"{where}: the file does not follow the documented layout: {e}")


def true_params(model):
    own = {n: p.detach().numpy().astype(np.float64) for n, p in model.named_parameters()}
    a = getattr(model, "mapping_activation", None)
    if a is not None and getattr(a, "bound", 0):
        own["mapping_activation.neg_slope"] = np.tanh(own["mapping_activation.neg_slope"] / a.bound) * a.bound
    return own


def check_params(ctx, where, d, own):
    lost = [n for n in own if n not in d.params and not n.startswith(tuple(t + "." for t in d.tables) + ("vq_layers.",))]
    ctx.check(not lost, "export:dropped", lambda: f"{where}: the file has no place for {lost[:5]} and the export did not refuse")
    for n, (v, slack, lo, hi) in d.params.items():
        if n not in own:
            ctx.count("unobservable:" + n)
            continue
        if slack is None:
            continue
        p = own[n] if lo is None else np.clip(own[n], lo, hi)
        e = np.abs(np.asarray(v, np.float64).reshape(p.shape) - p)
        s = 2e-6 * np.abs(p) + 1e-12 if slack == "rel" else slack * 1.001 + 1e-6 * np.abs(p)
        bad = e > s
        ctx.check(not bad.any(), "export:parameter", lambda: f"{where}: {n} decodes to {np.asarray(v).reshape(p.shape)[bad][0]:.8g} for {p[bad][0]:.8g} ({int(bad.sum())} of {p.size})")
        ctx.count("parameters", p.size)
    lo, hi = 0.0, np.inf
    for n, step, inverse in d.ratio:       # parameters that share one unknown positive scale
        p, v = own[n].ravel(), np.asarray(d.params[n][0], np.float64).ravel()
        big = np.abs(p) > 1e-9
        flat = ~big
        ctx.check((np.abs(v[flat]) <= step).all(), "export:parameter", lambda: f"{where}: {n} is zero in the model but not in the file")
        with np.errstate(divide="ignore"):
            a, b = (np.sign(p[big]) * v[big] - step) / np.abs(p[big]), (np.sign(p[big]) * v[big] + step) / np.abs(p[big])
            ctx.check((b > 0).all(), "export:parameter", lambda: f"{where}: {n} changes sign")
            if inverse:
                a, b = 1 / b, np.where(a > 0, 1 / np.maximum(a, 1e-300), np.inf)
        lo, hi = max(lo, a.max(initial=0)), min(hi, b.min(initial=np.inf))
        ctx.check(lo <= hi * 1.0001, "export:parameter", lambda: f"{where}: {n} is not the model's up to a common scale ({lo:.6g} > {hi:.6g})")
        ctx.count("parameters", p.size)


def capture(model, names):
    got, hooks = {n: [] for n in names}, []
    for n in names:
        def note(mod, a, kw, out, n=n):
            got[n].append((a, dict(kw), out.detach().numpy().astype(np.float64)))
        hooks.append(getattr(model, n).register_forward_hook(note, with_kwargs=True))
    return got, lambda: [h.remove() for h in hooks]


def check_features(ctx, where, family, kwargs, d, model, data, got):
    """Every directional feature of real boards against the row of the table an engine would fetch."""
    plane = data["board_input"].numpy()
    idx = E.lines(plane) if d.index == "lines" else E.runs(plane) if d.index == "runs" else None
    tolerance = 0.5 if d.exact or family == "mix8" else 1.0
    for n, calls in got.items():
        codes, scale = d.tables[n].astype(np.float64), d.scale[n]
        for a, kw, o in calls:
            if idx is None:
                x = a[0].numpy()
                rows = E.patch(d.index, x.reshape(len(x), 2, *x.shape[-2:]))
                f = E.limited(family, kwargs, o.reshape(len(x), -1)) * scale
                e = np.abs(codes[rows] - f)
                ctx.check((e <= tolerance + 2e-3).all(), "export:feature", lambda: f"{where}: {n} of a patch is {f.ravel()[e.argmax()]:.4f} steps in the model, {codes[rows].ravel()[e.argmax()]:.0f} in the file")
                ctx.count("features", e.size)
                continue
            dirs = list(kw.get("dirs", a[2] if len(a) > 2 else (0, 1, 2, 3)))
            f = [E.limited(family, kwargs, o[:, j].transpose(0, 2, 3, 1)) * scale for j in range(len(dirs))]
            if family == "mix9svq":
                check_codes(ctx, f"{where} {n}", d, model, n, [idx[:, c] for c in dirs], [x / scale for x in f])
                continue
            worst = None
            for perm in itertools.permutations(dirs):
                e = max(float(np.abs(codes[idx[:, c]] - x).max()) for c, x in zip(perm, f))
                if worst is None or e < worst:
                    worst = e
                if worst <= tolerance + 2e-3 + 2e-6 * scale * np.abs(o).max():
                    break
            ctx.check(worst <= tolerance + 2e-3 + 2e-6 * scale * np.abs(o).max(), "export:feature", lambda: f"{where}: a line feature of {n} differs by {worst:.4g} steps between the model and the file")
            ctx.count("features", o.size)
            ctx.count("feature-limits", int(sum((np.abs(x) >= 511).sum() for x in f)) if d.index == "lines" else 0)


def check_codes(ctx, where, d, model, n, idx, f):
    book, codes = d.vq[n]
    layer = model.vq_layers[int(n[-1]) - 1]
    real = layer.codebook.detach().numpy().astype(np.float64).reshape(book.shape)
    used = np.zeros(book.shape[:2], bool)
    for j in range(book.shape[0]):
        used[j, np.unique(codes[:, j])] = True
    e = np.abs(book - np.clip(real, -16, 511 / 32) * 32)[used]
    ctx.check(e.max(initial=0) <= .5001, "export:codebook", lambda: f"{where}: a codebook entry is off by {e.max():.4g} steps")
    ctx.count("parameters", e.size)
    ok = False
    for perm in itertools.permutations(range(len(idx))):
        bad = 0.0
        for c, x in zip(perm, f):
            rows = x.reshape(-1, x.shape[-1])
            chosen = codes[idx[c].reshape(-1)]
            for j in range(book.shape[0]):
                part = rows[:, j * book.shape[2]:(j + 1) * book.shape[2]]
                dist = ((part[:, None] - real[j][None]) ** 2).sum(-1)
                best = dist.min(1)
                bad = max(bad, float(((dist[np.arange(len(part)), chosen[:, j]] - best) / (best + 1e-3 * (part ** 2).sum(1) + 1e-6)).max()))
        ok |= bad <= 1e-3
    ctx.check(ok, "export:code-index", lambda: f"{where}: a line is stored with a code that is not the nearest one (excess {bad:.4g})")
    ctx.count("features", sum(x.size for x in f))


def check_outputs(ctx, where, family, d, model, data):
    import torch
    make = E.lookup(d, model, None)
    plane = data["board_input"].numpy()
    with torch.no_grad():
        outs = []
        for with_params in (False, True):
            net = make(with_params)
            E.aim(net, d, plane)
            outs.append(net(data))
    for key in ("value", "policy"):
        a, b = outs[0].get(key), outs[1].get(key)
        if a is None:
            continue
        a, b = a.numpy(), b.numpy()
        tol = 1e-6 * np.abs(a).max() if d.exact else .01 + .01 * np.abs(a).max()
        e = float(np.abs(a - b).max())
        ctx.check(e <= tol, "export:prediction", lambda: f"{where}: {key} computed from the file differs by {e:.4g} from the trained parameters on the same features (magnitude {np.abs(a).max():.3g})")
        ctx.count("predictions", a.size)
        if np.unique(a).size > 2:
            ctx.count("varied-predictions")


def read_back(path, kind):
    if "lz4" in kind:
        import lz4.frame
        with lz4.frame.open(path, "rb") as f:
            return f.read()
    with open(path, "rb") as f:
        return f.read()


def model_case(ctx, rng, label, family):
    import torch
    from utils.file_utils import save_torch_ckpt
    torch.set_num_threads(2)
    kwargs = configuration(rng, family)
    wild = rng.random() < .2
    model = network(rng, family, kwargs)
    params = {"family": family, "kwargs": kwargs, "wild": wild}
    with ctx.case(label, params, sample=True):
        where = f"{label} {family} {kwargs}"
        if wild:
            pool = [n for n, p in model.named_parameters() if not n.startswith(("mapping", "vq", "feature_dwconv.conv.bias"))]
            victim = rng.choice(pool)
            with torch.no_grad():
                dict(model.named_parameters())[victim].mul_(rng.choice([20., 300., 1e5]))
            where += f" with an enlarged {victim}"
        tmp = ctx.tmp()
        ckpt, out = str(tmp / "ck.pt"), str(tmp / "weights.bin")
        with quiet():
            save_torch_ckpt(ckpt, model.state_dict())
        args, mask, sizes, desc = request(rng)
        kind = rng.choice(["bin", "bin", "bin-lz4", "bin-noheader", "bin-lz4-noheader"])
        if family in TEXT and rng.random() < (.15 if family == "mix6" else .4):
            kind = "txt"
        where += f" {kind}"
        before = b"the previous good export" * 5
        with open(out, "wb") as f:
            f.write(before)
        try:
            run_export(ckpt, out, family, kwargs, kind, args)
        except Exception as e:
            with open(out, "rb") as f:
                kept = f.read() == before
            ctx.check(kept, "export:clobbered", lambda: f"{where}: a failed export ({e!r}) replaced the previous file")
            ctx.check(wild or refused(family, kwargs, e), "export:refused", lambda: f"{where}: export fails with {e!r}")
            ctx.count("refused-exports")
            return
        raw = read_back(out, kind)
        if kind == "txt":
            r = E.Tokens(raw.decode())
        else:
            r = E.Reader(raw)
            if family in HEADERED and "noheader" not in kind:
                check_header(ctx, where, r, family, kwargs, model, mask, sizes, desc)
        d = decode(ctx, where, family, kwargs, r, text=kind == "txt")
        ctx.count("exports")
        ctx.count(f"family:{family}")
        ctx.seen(family, tuple(sorted((k, str(v)) for k, v in kwargs.items())), kind)
        check_params(ctx, where, d, true_params(model))
        sane = not wild
        for _ in range(2 if family in ("mix6", "mix7", "mix8") else 3):
            sz = (7, 7) if family.startswith("flat") else rng.choice(zoo.ANY)
            data = zoo.batch(rng, [sz] * rng.choice([1, 3]), lines=zoo.wants_lines(family))
            got, undo = capture(model, d.tables)
            with torch.no_grad():
                model(data)
            undo()
            check_features(ctx, f"{where} on {sz}", family, kwargs, d, model, data, got)
            if sane or d.exact:
                check_outputs(ctx, f"{where} on {sz}", family, d, model, data)


def refused(family, kwargs, e):
    """A layout has no place for some options; families without quantisation-aware training may hold values no file can represent."""
    if family == "mix10" and kwargs.get("feature_norm", "none") != "none":
        return True
    return family in ("mix6", "mix7", "mix8") and isinstance(e, AssertionError) and "overflow" in str(e)


# ---- identification and failure handling, with a cheap body

class Boom(RuntimeError):
    pass


def meta_case(ctx, rng, label):
    from model.serialization import SERIALIZERS
    from utils.file_utils import save_torch_ckpt
    family = rng.choice(HEADERED)
    kwargs = configuration(rng, family)
    with ctx.case(label, {"family": family, "kwargs": kwargs}, sample=True):
        where = f"{label} {family}"
        model = zoo.build(family, kwargs, 1).eval()
        tmp = ctx.tmp()
        ckpt, out = str(tmp / "ck.pt"), str(tmp / "weights.bin")
        with quiet():
            save_torch_ckpt(ckpt, model.state_dict())
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 7, 5000])))
        cls = SERIALIZERS[family]
        boom = None

        def stub(self, f, m, device):
            for i in range(0, len(body), 64):
                if boom is not None and i >= boom:
                    raise Boom("mid-stream")
                f.write(body[i:i + 64])
            if boom is not None:
                raise Boom("at the end")
        old = cls.__dict__.get("serialize")
        cls.serialize = stub
        try:
            previous = None
            for turn in range(6):
                args, mask, sizes, desc = request(rng)
                kind = rng.choice(["bin", "bin-lz4", "bin-noheader", "bin-lz4-noheader"])
                boom = rng.choice([None, None, None, None, 0, len(body) // 2, len(body)])
                spoil = rng.choice([None] * 5 + ["norule", "badrule", "badsize", "badkind", "missing"]) if boom is None else None
                over, want = {}, None
                if spoil:
                    for k in ("rule", "rules", "rule_list"):
                        if spoil in ("norule", "badrule"):
                            args.pop(k, None)
                    if spoil == "badrule":
                        args[rng.choice(["rules", "rule_list"])] = rng.choice([[], ["gomoku"], ["freestyle", "Renju"], ["standard", None]])
                    if spoil == "badsize":
                        for k in ("board_size", "min_board_size", "max_board_size", "board_size_list", "boardsizes"):
                            args.pop(k, None)
                        args.update(rng.choice([{"board_size": 0}, {"board_size": 33}, {"board_size_list": [15, 40]}, {"boardsizes": [-1]}, {"boardsizes": [7.5]}, {"min_board_size": 0, "max_board_size": 9},
                                                {"min_board_size": 20, "max_board_size": 33}, {"board_size": "15"}]))
                    if spoil == "badkind":
                        kind = rng.choice(["binary", "", "bin-zip"])
                    if spoil == "missing":
                        over["checkpoint"] = str(tmp / "no such.pt")
                w = f"{where} turn {turn} {kind} {args} boom={boom} spoil={spoil}"
                try:
                    run_export(ckpt, out, family, kwargs, kind, args, **over)
                    error = None
                except Exception as e:
                    error = e
                now = open(out, "rb").read() if os.path.exists(out) else None
                if boom is not None or spoil:
                    ctx.check(error is not None, "export:accepted", lambda: f"{w}: the export reports success")
                    ctx.check(now == previous, "export:clobbered", lambda: f"{w}: the failed export changed the existing output")
                    ctx.count("failed-exports-contained")
                    continue
                ctx.check(error is None, "export:refused", lambda: f"{w}: {error!r}")
                previous = now
                data = read_back(out, kind)
                r = E.Reader(data)
                if "noheader" not in kind:
                    check_header(ctx, w, r, family, kwargs, model, mask, sizes, desc)
                ctx.check(data[r.at:] == body, "export:body", lambda: f"{w}: the body is {len(data) - r.at} bytes, the serializer wrote {len(body)}")
                ctx.count("metadata-exports")
        finally:
            if old is None:
                del cls.serialize
            else:
                cls.serialize = old


def choice_case(ctx, rng, label):
    """Which checkpoint an export without an explicit one takes, and where its output goes."""
    from model.serialization import SERIALIZERS
    from utils.file_utils import save_torch_ckpt
    family = rng.choice(["mix7", "mix8", "mix10"])
    kwargs = configuration(rng, family)
    with ctx.case(label, {"family": family}, sample=True):
        tmp = ctx.tmp()
        rundir = tmp / "run"
        new = rng.random() < .7
        os.makedirs(rundir / "ckpts" if new else rundir)
        model = zoo.build(family, kwargs, 1)
        at = rng.sample([1, 9, 10, 99, 100, 5000, 123456, 9999999, 10000000], rng.randint(1, 4))
        import torch
        own = dict(model.named_parameters())
        name, p = next(iter(own.items()))
        with quiet():
            for i in at:
                with torch.no_grad():
                    p.fill_(float(i))
                save_torch_ckpt(str((rundir / "ckpts" if new else rundir) / f"ckpt_{model.name}_{i:07d}.pt"), model.state_dict())
        cls, seen = SERIALIZERS[family], []
        old = cls.__dict__.get("serialize")

        def stub(self, f, m, device):
            seen.append(float(dict(m.named_parameters())[name].flatten()[0]))
            f.write(b"body")
        cls.serialize = stub
        try:
            given = rng.random() < .5
            out = str(tmp / "w.bin") if given else None
            chosen = None
            if rng.random() < .3:
                chosen = rng.choice(at)
            ck = None if chosen is None else str((rundir / "ckpts" if new else rundir) / f"ckpt_{model.name}_{chosen:07d}.pt")
            kind = rng.choice(["bin", "bin-lz4"])
            run_export(ck, out, family, kwargs, kind, {"rule": "renju", "board_size": 15}, rundir=str(rundir))
        finally:
            if old is None:
                del cls.serialize
            else:
                cls.serialize = old
        want = float(max(at) if chosen is None else chosen)
        ctx.check(seen == [want], "export:checkpoint", lambda: f"{label}: exported the weights of iteration {seen}, expected {want:.0f} of {sorted(at)}")
        path = out or str((rundir / "ckpts" if new else rundir) / f"ckpt_{model.name}_{int(want):07d}_export.{'bin.lz4' if 'lz4' in kind else 'bin'}")
        ctx.check(os.path.exists(path), "export:output-name", lambda: f"{label}: nothing was written to {path}")
        ctx.count("checkpoint-choices")


TRACED = ("resnet", "resnetv2", "mobilenetv1", "mobilenetv2", "mix6", "mix7", "mix8", "mix9", "mix9s", "mix10")
NO_ONNX = ("mix9", "mix9s", "mix10")        # an operator torch's ONNX export does not translate


def traced_case(ctx, rng, label):
    """Graphs exported by tracing one sample batch predict like the model on every batch and board size."""
    import torch
    from .. import gen
    from utils.file_utils import save_torch_ckpt
    torch.set_num_threads(2)
    family = TRACED[int(label.split("#")[1]) * 3 % len(TRACED)] if rng.random() < .7 else rng.choice(TRACED)
    kwargs = configuration(rng, family) if family.startswith("mix") else zoo.FAMILIES[family](rng)[0]
    if not family.startswith("mix"):
        kwargs.update(head_type="v0", input_type=rng.choice(["basic", "basicns", "basic-nostm"]))
    kind = rng.choice(["torch-jit", "onnx"])
    with ctx.case(label, {"family": family, "kwargs": kwargs, "kind": kind}, sample=True):
        where = f"{label} {family} {kwargs} {kind}"
        model = zoo.build(family, kwargs, rng.randrange(1 << 30))
        zoo.shake(model, rng)
        model.eval()
        tmp = ctx.tmp()
        ckpt, out = str(tmp / "ck.pt"), str(tmp / "graph")
        sample = rng.choice([(15, 15), (13, 13), (10, 10)])
        os.makedirs(tmp / "data")
        gen.make_simple(gen.Maker(rng, [sample]), tmp / "data", [6], [sample])
        with quiet():
            save_torch_ckpt(ckpt, model.state_dict())
        args, mask, sizes, _ = request(rng)
        args.pop("description", None)
        soft = rng.random() < .3
        if soft:
            args["apply_policy_softmax"] = True
        before = b"an older graph"
        with open(out, "wb") as f:
            f.write(before)
        over = dict(datas=[str(tmp / "data")], dataset_type="simple_binary", dataset_args={"boardsizes": sample[0]})
        if rng.random() < .3:
            over["datas"], over["train_datas"] = None, over["datas"]
        spoil = rng.choice([None] * 6 + ["norule", "nodata"])
        if spoil == "norule" and kind == "onnx":
            for k in ("rule", "rules", "rule_list"):
                args.pop(k, None)
        elif spoil == "nodata":
            over["datas"], over["train_datas"] = [str(tmp / "nowhere")], None
        else:
            spoil = None
        try:
            run_export(ckpt, out, family, kwargs, kind, args, **over)
        except Exception as e:
            with open(out, "rb") as f:
                kept = f.read() == before
            ctx.check(kept, "export:clobbered", lambda: f"{where}: a failed export ({e!r}) changed the previous file")
            ctx.check(spoil or kind == "onnx" and family in NO_ONNX, "export:refused", lambda: f"{where}: export fails with {e!r}"[:600])
            ctx.count("failed-exports-contained")
            return
        ctx.check(not spoil, "export:accepted", lambda: f"{where}: an export with {spoil} reports success")
        if kind == "onnx":
            import onnx
            import export
            from onnx.reference import ReferenceEvaluator
            m = onnx.load(out)
            v = m.model_version
            ctx.check((v >> 32 & 0xffff, v & 0xffffffff, v >> 48) == (mask, sizes, 1), "export:onnx-version", lambda: f"{where}: model version {v:#x} for rules {mask:#x}, sizes {sizes:#x}")
            names = [i.name for i in m.graph.input], [o.name for o in m.graph.output]
            ctx.check(names[0] in (["board_input", "global_input"], ["board_input"]) and names[1] == ["value", "policy"], "export:onnx-names", lambda: f"{where}: inputs and outputs {names}")
            run_ = ReferenceEvaluator(m)
            graph = lambda b, g: run_.run(None, {k: x for k, x in (("board_input", b.numpy()), ("global_input", g.numpy())) if k in names[0]})
        else:
            loaded = torch.jit.load(out)
            graph = lambda b, g: [x.detach().numpy() for x in loaded(b, g)]
        for i in range(4):
            sz, B = (sample if i == 0 else rng.choice(zoo.ANY)), rng.choice([1, 1, 2, 5])
            data = zoo.batch(rng, [sz] * B)
            data = {k: data[k] for k in ("board_input", "stm_input")}
            with torch.no_grad():
                want = model(data)
            value, policy = want["value"].numpy(), want["policy"].numpy().reshape(B, *sz)
            if soft:
                p = policy.reshape(B, -1).astype(np.float64)
                p = np.exp(p - p.max(1, keepdims=True))
                policy = (p / p.sum(1, keepdims=True)).reshape(policy.shape)
            got = graph(data["board_input"], data["stm_input"])
            for name, a, b in (("value", value, got[0]), ("policy", policy, got[1])):
                ctx.check(a.shape == b.shape, "export:graph", lambda: f"{where} on {B}x{sz}: {name} has shape {b.shape}, the model gives {a.shape}")
                e = float(np.abs(a - b).max())
                ctx.check(e <= 2e-3 * max(np.abs(a).max(), .1), "export:graph", lambda: f"{where} on {B}x{sz}: {name} of the exported graph differs by {e:.4g} (magnitude {np.abs(a).max():.3g})")
                ctx.count("graph-outputs", a.size)
        ctx.count(f"graphs:{kind}")


def onnx_version_case(ctx, rng, label):
    import export
    if not hasattr(export, "make_onnx_model_version"):
        ctx.count("unobservable:make_onnx_model_version")
        return
    with ctx.case(label, sample=False):
        for _ in range(200):
            io_v = rng.choice([1, 2, 0x7fff, rng.randint(1, 0x7fff)])
            rules = [r for r in RULES if rng.random() < .6]
            sizes = sorted(rng.sample(range(1, 33), rng.randint(0, 32)))
            v = export.make_onnx_model_version(io_v, list(rules), list(sizes))
            ctx.check(0 < v < 1 << 63, "export:onnx-version", lambda: f"model version {v:#x} does not fit the field")
            got = export.parse_onnx_model_version(v)
            ctx.check((got[0], list(got[1]), list(got[2])) == (io_v, rules, sizes), "export:onnx-version", lambda: f"{(io_v, rules, sizes)} reads back as {got}")
            ctx.count("onnx-versions")


def run(ctx):
    import torch
    ctx.budget = 1500.0 if ctx.thorough else 150.0
    ctx.rule = ("exports of randomly configured, perturbed and clipped models are decoded by an independent reader of the published layouts; every directional feature of random boards, every parameter, "
                "and the predictions computed from the decoded file are compared with the model")
    for label, rng in ctx.cases("onnx-version", 4):
        onnx_version_case(ctx, rng, label)
    for label, rng in ctx.cases("meta", 60, 1200, share=.15):
        meta_case(ctx, rng, label)
    for label, rng in ctx.cases("choice", 24, 300, share=.25):
        choice_case(ctx, rng, label)
    for label, rng in ctx.cases("traced", 40, 600, share=.3):
        traced_case(ctx, rng, label)
    for label, rng in ctx.cases("model", 24, 400):
        i = int(label.split("#")[1])
        model_case(ctx, rng, label, TURN[i % len(TURN)])
    ctx.require("exports", 4)
    ctx.require("features", 100000)
    ctx.require("parameters", 10000)
    ctx.require("headers", 15)
    ctx.require("failed-exports-contained", 15)
    ctx.require("metadata-exports", 10)
    ctx.require("varied-predictions", 2)
    ctx.require("checkpoint-choices", 3)
    ctx.require("graphs:torch-jit", 3)
    ctx.require("graphs:onnx", 2)
    ctx.require("graph-outputs", 3000)
