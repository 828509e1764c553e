"""Filter expressions: exact selection, nothing else ever runs."""
import os
import shutil
import sys
import tracemalloc
import warnings
from collections import Counter

import numpy as np

from vm import drive, digest, fresh, gen, scenario
from vm.core import Violation

TYPE = scenario.TYPE
PREC = {"|": 2, "^": 3, "&": 4, "+": 5, "-": 5, "*": 6, "/": 6, "//": 6, "%": 6}
CMP = {"==": np.equal, "!=": np.not_equal, "<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal}
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
       "//": lambda a, b: a // b, "%": lambda a, b: a % b, "|": lambda a, b: a | b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b}


class N:
    """Expression node: text, precedence of the outermost operator, value."""
    def __init__(self, text, prec, val):
        self.text, self.prec, self.val = text, prec, val

    def at(self, p, rng):
        if self.prec < p:
            return f"({self.text})"
        return f"({self.text})" if rng.random() < 0.12 else self.text


def kind_of(v):
    k = v.dtype.kind if isinstance(v, (np.ndarray, np.generic)) else ("b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f")
    return {"u": "i"}.get(k, k)


class Gen:
    """Random whole-array expressions with a value computed alongside."""

    def __init__(self, rng, arrays, limit=None):
        self.rng, self.arrays = rng, arrays
        self.n = len(next(iter(arrays.values())))
        self.limit = limit or max(4096, 8 * self.n)

    def index(self, a, name):
        """A subscripted field that yields one vector over the records."""
        rng = self.rng
        text, val = name, a
        while val.ndim > 1:
            form = rng.randrange(6)
            rest = val.shape[1:]
            if form == 0:
                ix = [rng.randrange(-s, s) for s in rest]
                text, val = f"{text}[:, {', '.join(map(str, ix))}]", val[(slice(None), *ix)]
            elif form == 1:
                c = rng.randrange(-rest[-1], rest[-1])
                text, val = f"{text}[..., {c}]", val[..., c]
            elif form == 2:
                c = rng.randrange(rest[0])
                text, val = f"{text}[:, {c}, ...]", val[:, c, ...]
            elif form == 3 and val.size <= self.limit:
                a0 = rng.randrange(rest[0])
                st = rng.choice([None, 1, 2])
                text = f"{text}[:, {a0}:{'' if st is None else f':{st}'}]"
                val = val[:, a0::st]
            elif form == 4 and val.size <= self.limit:
                text, val = f"{text}[:, ::-1]", val[:, ::-1]
            elif form == 5:
                k = rng.randrange(1, 4)
                cols = [rng.randrange(rest[0]) for _ in range(k)]
                if val.size // rest[0] * k > self.limit // 2 or val.size // max(1, len(val)) * k > self.limit // 2:
                    continue
                text, val = f"{text}[:, [{', '.join(map(str, cols))}]]", val[:, cols]
            if len(text) > 120:
                return self.direct(a, name)
            if val.ndim > 1 and val.size > self.limit:      # a view may not exceed the work limit
                return self.direct(a, name)
        return N(text, 20, val)

    def direct(self, a, name):
        ix = [self.rng.randrange(-s, s) for s in a.shape[1:]]
        return N(f"{name}[:, {', '.join(map(str, ix))}]", 20, a[(slice(None), *ix)])

    def leaf(self, want=None):
        rng = self.rng
        if rng.random() < 0.3:
            if rng.random() < 0.5:
                v = rng.choice([0, 1, 2, 3, 5, 7, 10, 100, -1, -2])
            else:
                v = rng.choice([0.0, 0.5, 0.25, 1.0, 1.5, -0.5, 1e-3, 2.5e2])
            return N(repr(v), 20 if v >= 0 and not str(v).startswith("-") else 7, v)
        name = rng.choice(sorted(self.arrays))
        return self.index(self.arrays[name], name)

    def arith(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.2:
            return self.leaf()
        r = rng.random()
        if r < 0.1:
            a = self.arith(depth - 1)
            if kind_of(a.val) == "b":
                return a
            op = rng.choice("-+")
            return N(op + a.at(7, rng), 7, -a.val if op == "-" else +a.val)
        if r < 0.2:
            a = self.arith(depth - 1)
            if not isinstance(a.val, np.ndarray):
                return a
            return N(f"{rng.choice(['', 'np.'])}abs({a.text})", 20, np.abs(a.val))
        if r < 0.3:
            a = self.arith(depth - 1)
            e = rng.randint(0, 4)
            if not isinstance(a.val, np.ndarray):
                return a
            return N(f"{a.at(9, rng)}**{e}", 8, a.val ** e)
        if r < 0.36:
            a = self.arith(depth - 1)
            if kind_of(a.val) != "i" or not isinstance(a.val, np.ndarray):
                return a
            return N(f"~{a.at(7, rng)}", 7, ~a.val)
        op = rng.choice(["+", "-", "*", "/", "//", "%", "+", "-", "*"])
        a, b = self.arith(depth - 1), self.arith(depth - 1)
        if kind_of(a.val) == "b" or kind_of(b.val) == "b":
            return a
        if not isinstance(a.val, np.ndarray) and not isinstance(b.val, np.ndarray):
            return a
        p = PREC[op]
        sp = rng.choice([" ", ""])
        return N(f"{a.at(p, rng)}{sp}{op}{sp}{b.at(p + 1, rng)}", p, BIN[op](a.val, b.val))

    def boolean(self, depth):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.45:
            k = rng.choice([1, 1, 1, 2, 3])
            parts = [self.arith(rng.randint(0, 2)) for _ in range(k + 1)]
            if not isinstance(parts[0].val, np.ndarray):
                parts[0] = self.index(*self.pick())
            if k > 1:       # every link of a chain yields a vector
                parts = [p if isinstance(p.val, np.ndarray) else self.index(*self.pick()) if i % 2 == 0 else p
                         for i, p in enumerate(parts)]
            text, val = parts[0].at(2, rng), None
            for a, b in zip(parts, parts[1:]):
                op = rng.choice(sorted(CMP))
                text += f" {op} {b.at(2, rng)}"
                link = CMP[op](a.val, b.val)
                val = link if val is None else val & link
            return N(text, 1, val)
        if r < 0.6:
            f = rng.choice(["isfinite", "isnan", "logical_not", "logical_and", "logical_or"])
            fn = getattr(np, f)
            if fn.nin == 1:
                a = self.boolean(depth - 1) if f == "logical_not" and rng.random() < 0.6 else self.arith(1)
                if not isinstance(a.val, np.ndarray):
                    a = self.index(*self.pick())
                return N(f"{rng.choice(['', 'np.'])}{f}({a.text})", 20, fn(a.val))
            a, b = self.boolean(depth - 1), self.boolean(depth - 1)
            return N(f"{rng.choice(['', 'np.'])}{f}({a.text}, {b.text})", 20, fn(a.val, b.val))
        if r < 0.7:
            a = self.boolean(depth - 1)
            return N(f"~{a.at(7, rng)}", 7, ~a.val)
        op = rng.choice("&|^")
        a, b = self.boolean(depth - 1), self.boolean(depth - 1)
        return N(f"{a.at(PREC[op], rng)} {op} {b.at(PREC[op] + 1, rng)}", PREC[op], BIN[op](a.val, b.val))

    def pick(self):
        name = self.rng.choice(sorted(self.arrays))
        return self.arrays[name], name

    def expr(self, depth=3):
        import ast
        for _ in range(60):
            try:
                with np.errstate(all="ignore"), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    e = self.boolean(self.rng.randint(0, depth))
            except (LookupError, OverflowError, TypeError, ZeroDivisionError):
                continue
            if not isinstance(e.val, np.ndarray) or e.val.shape != (self.n,) or e.val.dtype != np.bool_:
                continue
            if len(e.text) > 3000:
                continue
            t = ast.parse(e.text, mode="eval")
            if sum(1 for _ in ast.walk(t)) > 120 or height(t) > 15:
                continue
            return e
        raise LookupError("no expression")


def height(t):
    import ast
    return 1 + max([height(c) for c in ast.iter_child_nodes(t)], default=0)


def fields(rng, n):
    """Field dictionaries of varied rank and type, with special float values."""
    nprng = np.random.default_rng(rng.randrange(1 << 60))
    H, W = rng.randint(1, 7), rng.randint(1, 7)
    out = {}
    out["bf"] = nprng.integers(0, 2, (n, rng.randint(1, 3), H, W)).astype(rng.choice([np.int8, np.uint8]))
    g = nprng.integers(-3, 4, (n, rng.randint(1, 6))).astype(rng.choice([np.float32, np.float64, np.float16]))
    if rng.random() < 0.4:
        g.reshape(-1)[nprng.integers(0, g.size, max(1, g.size // 5))] = rng.choice([np.nan, np.inf, -np.inf])
    out["gf"] = g
    if rng.random() < 0.7:
        out["vt"] = (nprng.integers(0, 9, (n, 3)) / 8).astype(np.float32)
    if rng.random() < 0.5:
        out["flag"] = nprng.integers(0, 2, (n, 2)).astype(bool)
    if rng.random() < 0.5:
        out["k"] = nprng.integers(-40, 40, n).astype(rng.choice([np.int16, np.int32, np.int64, np.uint16]))
    return out


def apply(expr, arrays):
    from dataset.filter import evaluate_filter_condition
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return evaluate_filter_condition(expr, arrays)


def exact_case(ctx, name, rng):
    n = rng.choice([1, 2, 3, 17, 64, 300, 2000])
    arrays = fields(rng, n)
    ro = rng.random() < 0.5
    for a in arrays.values():
        a.flags.writeable = not ro
    for j in range(8):
        e = Gen(rng, arrays).expr()
        with ctx.case(f"{name}.{j}", dict(expr=e.text, n=n, fields={k: (v.dtype.str, v.shape) for k, v in arrays.items()}), sample=j == 0):
            before = digest.of({k: v.tobytes() for k, v in arrays.items()})
            got = apply(e.text, arrays)
            ctx.check(isinstance(got, np.ndarray) and got.dtype == np.bool_ and got.shape == (n,), "filter:result-shape",
                      lambda: f"{e.text!r} gave {type(got)}")
            ctx.check(np.array_equal(got, e.val), "filter:wrong-selection",
                      lambda: f"{e.text!r}: rows {np.nonzero(got != e.val)[0][:8].tolist()} decided wrongly of {n}")
            ctx.check(digest.of({k: v.tobytes() for k, v in arrays.items()}) == before, "filter:field-modified", f"{e.text!r} changed a field")
            ctx.count("expressions_compared")
            ctx.count("rows_decided", n)
            if 0 < e.val.sum() < n:
                ctx.seen(e.text)


# ---------------------------------------------------------------- hostile
WRAPS = [
    "(lambda: {x})()", "(lambda q: q)({x})", "{x}.T", "({x}).sum()", "({x}).__class__", "({x}).any()", "({x}).tofile(1)", "({x}).base",
    "np.sum({x})", "np.where({x}, {x}, {x})", "np.add({x}, {x})", "np.linalg.norm({x})", "np.abs.reduce({x})", "np.frompyfunc({x}, 1, 1)",
    "np.abs.__call__({x})", "np.logical_and.at({x}, 0, 1)", "np.load({x})", "np.ndarray.tofile({x}, 0)", "np.lib({x})", "np.copyto({x}, 0)",
    "[{x} for _ in (0,)][0]", "({x} for _ in (0,))", "{{0: {x}}}[0]", "{{*{x}}}", "({x} if True else {x})", "({x} and {x})", "({x} or {x})",
    "(not {x})", "({x} @ {x})", "({x} << 1)", "({x} >> 1)", "({x} is {x})", "({x} is not {x})", "({x} in {x})", "({x} not in {x})", "(q := {x})",
    "f'{{{x}}}'", "{x}[None]", "({x})[True]", "({x})[gf[:, 0]]", "({x})[1.0]", "({x})['a']", "({x})[abs]", "({x})[1 + 1]", "({x})[{x}]", "{x} ** 9", "{x} ** -1", "{x} ** 2.0",
    "{x} ** True", "{x} ** {x}", "{x} ** (1 + 1)", "np.abs({x}, out=gf)", "np.abs({x}, where={x})", "np.abs({x}, dtype=int)", "np.abs(*{x})", "np.abs(**{{}})", "np.abs({x}, gf[:, 0])",
    "abs({x}, gf[:, 0])", "np.logical_and({x}, {x}, gf[:, 0])", "np.isnan({x}, gf[:, 0])", "np.logical_not({x}, gf[:, 0])", "max({x})", "print({x})", "len({x})", "int({x})", "sum({x})", "eval({x})", "exec({x})",
    "open({x})", "getattr({x}, {x})", "vars({x})", "type({x})", "dir({x})", "globals()", "locals()", "__import__({x})", "__builtins__", "__name__", "__loader__", "os", "sys",
    "({x} * 1j)", "({x} == 'a')", "({x} == b'a')", "({x} * 1e999)", "({x} + 9223372036854775808)", "({x} * 123456789012345678901234567890)", "({x} == None[0])",
    "[*{x}]", "(*{x},)", "(yield {x})", "(await {x})", "np.abs", "np", "abs", "missing[:, 0]", "(1, 2)[0] + {x}", "[1, 2][0] + {x}", "{x}[::gf[0, 0]]", "({x})[..., ...]", "np.logical_and.outer({x}, {x})",
    "np.abs.types + {x}", "np.__class__", "np.__dict__", "abs.__self__", "abs.__class__", "logical_not.__doc__", "np.ctypeslib({x})", "np.save({x}, {x})",
]
TOPLEVEL = [
    "", " ", "import os", "gf[:, 0] > 0; 1", "x = 1", "del gf", "pass", "gf[:, 0] >", "(gf[:, 0] > 0", "gf[:, 0] > 0\nopen", "None", "True", "1", "1.5", "...", "()", "(True,)", "[True, False]",
    "gf", "gf[:, 0]", "gf[:, :1] > 0", "gf > 0", "gf[:, 0] + 0", "gf[0, 0] > 0", "gf[:-1, 0] > 0", "gf[0] > 0", "bf[:, 0] > 0", "bf", "np.abs(gf[:, 0])", "1 < 2", "1 / 0", "1 // 0", "5 % 0",
    "gf[:, 99] > 0", "gf[:, -99] > 0", "gf[:, 0, 0, 0] > 0", "(gf[:, 0] > 0) + (gf[:, 0] > 0) * 2", "2 ** 8 ** 8 ** 8", "-(2 ** 8)", "lambda: 0", "exit()", "quit", "exit", "breakpoint()", "input()", "help", "copyright",
    "open", "eval", "os.system", "np.os.system", "np.f2py", "np.testing", "np.lib.npyio", "np.core", "np.fromfile", "np.load", "np.memmap",
]
DANGEROUS = ("open", "os.", "subprocess.", "socket.", "shutil.", "ctypes.", "code.__new__", "tempfile.", "signal.", "urllib.", "builtins.input", "cpython.run")
_audit = []
_armed = [False]


def arm_audit():
    if not getattr(arm_audit, "done", False):
        def hook(event, args):
            if _armed[0] and event.startswith(DANGEROUS):
                _audit.append((event, repr(args)[:200]))
        sys.addaudithook(hook)
        arm_audit.done = True


def reject(ctx, expr, arrays, canary, mech="filter:accepted-forbidden"):
    before = {k: v.tobytes() for k, v in arrays.items()}
    names = sorted(os.listdir(canary))
    del _audit[:]
    _armed[0] = True
    tracemalloc.start()
    err = got = None
    try:
        got = apply(expr, arrays)
    except Exception as e:      # noqa: BLE001 - any error is a refusal
        err = e
    finally:
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
        _armed[0] = False
    events = list(_audit)
    ctx.count("hostile_expressions")
    ctx.check(err is not None, mech, lambda: f"{expr[:300]!r} was accepted and gave {got!r:.120}")
    ctx.check({k: v.tobytes() for k, v in arrays.items()} == before, "filter:field-modified", f"rejected {expr[:300]!r} changed a field")
    ctx.check(not events, "filter:side-effect", f"{expr[:300]!r} caused {events[:3]}")
    ctx.check(sorted(os.listdir(canary)) == names, "filter:side-effect", f"{expr[:300]!r} changed the file system")
    ctx.check(peak < 96 << 20, "filter:work-limit", f"{expr[:300]!r} allocated {peak >> 20} MiB before it was refused")
    return err


def hostile_case(ctx, name, rng):
    n = rng.choice([11, 20, 200])
    arrays = fields(rng, n)
    canary = ctx.tmp("canary")
    cwd = os.getcwd()
    os.chdir(canary)
    try:
        for j in range(14):
            g = Gen(rng, arrays)
            e = g.expr(2)
            if rng.random() < 0.25:
                expr, how = rng.choice(TOPLEVEL), "top"
            else:
                how = rng.choice(WRAPS)
                x = g.index(*g.pick()).text if rng.random() < 0.7 else "gf[:, 0]"
                bad = how.format(x=x)
                spot = rng.randrange(8)
                expr = [bad, f"({bad}) > 0", f"({e.text}) & ({bad})", f"({bad}) | ({e.text})", f"np.abs({bad}) >= 0",
                        f"~({bad} == 1)", f"0 < ({bad}) < 2", f"({e.text}) == (0 + {bad})"][spot]
                if how in ("np", "abs", "np.abs") and spot != 0:
                    continue        # comparing a documented function name is plain array comparison
            with ctx.case(f"{name}.{j}", dict(expr=expr[:500], construct=how), sample=j == 0):
                reject(ctx, expr, arrays, canary)
                ctx.seen("hostile", how, n)
    finally:
        os.chdir(cwd)


def limit_case(ctx, name, rng):
    """Size and work limits: clearly inside accepted, clearly outside refused."""
    n = rng.choice([30, 80])
    arrays = fields(rng, n)
    arrays["gf"] = np.asarray(rng.choices(range(4), k=n * 3), np.float32).reshape(n, 3)
    arrays["wide"] = np.ones((n, 60, 20, 20), np.int8)
    big = {"a": np.ones((4000, 1), np.float64), "b": np.ones(4000, np.float64)}
    canary = ctx.tmp("canary")
    t = "gf[:, 0] > 0"
    v = arrays["gf"][:, 0] > 0
    ok = {
        "nodes": (" & ".join([f"({t})"] * 7), v), "depth": ("~" * 6 + f"({t})", v),
        "bytes": (t + " " * 3000, v), "negation": ("-" * 4 + "gf[:, 0] > 0", v),
    }
    k = rng.randrange(10, 50)
    over = {
        "nodes": " & ".join([f"({t})"] * 40), "depth": "~" * 40 + f"({t})", "depth2": "(" + "-" * 30 + "gf[:, 0]) > 0",
        "deep-tree": "~(" * 30 + t + ")" * 30, "bytes": t + " " * 5000, "bytes-utf8": t + " # " + "\u00e9" * 3000,
        "parens": "(" * 3000 + t + ")" * 3000, "unary": "-" * 90000 + "1 > gf[:, 0]", "digits": "9" * 4000 + " > gf[:, 0]",
        "literal-list": f"gf[[{', '.join(['0'] * 100)}], 0] > 0", "fan-out": f"(wide[[{', '.join(['0'] * k)}]] > 0)[0, 0, 0]",
        "wide-copy": "(wide + 1)[:, 0, 0, 0] > 0", "wide-abs": "np.abs(wide)[:, 0, 0, 0] > 0", "wide-not": "(-wide)[:, 0, 0, 0] > 0",
        "wide-cmp": "(wide > 0)[:, 0, 0, 0]", "wide-and": "np.logical_and(wide, wide)[:, 0, 0, 0]", "wide-pow": "(wide ** 2)[:, 0, 0, 0] > 0",
        "many-terms": " + ".join(["gf[:, 0]"] * 80) + " > 0",
    }
    outer = {"outer-add": "(a + b)[:, 0] > 0", "outer-cmp": "(a > b)[:, 0]", "outer-and": "np.logical_and(a, b)[:, 0]", "outer-mul": "(a * b * a)[:, 0] > 0",
             "outer-pow": "((a * b) ** 2)[:, 0] > 0", "outer-div": "(b / a)[0] > 0"}
    for kind, (expr, want) in ok.items():
        with ctx.case(f"{name}.ok-{kind}", dict(kind=kind, n=n), sample=False):
            try:
                got = apply(expr, arrays)
            except ValueError as e:
                raise Violation("filter:rejected-valid", f"an expression inside every limit was refused: {e}")
            ctx.check(np.array_equal(got, want), "filter:wrong-selection", f"{kind}: wrong rows")
            ctx.count("limit_expressions")
    for kind, expr in over.items():
        with ctx.case(f"{name}.over-{kind}", dict(kind=kind, n=n), sample=False):
            reject(ctx, expr, arrays, canary, "filter:limit-ignored")
            ctx.count("limit_expressions")
            ctx.seen("limit", kind, n)
    for kind, expr in outer.items():
        with ctx.case(f"{name}.over-{kind}", dict(kind=kind), sample=False):
            reject(ctx, expr, big, canary, "filter:limit-ignored")
            ctx.count("limit_expressions")
    for dt in ("complex64", "U3", "S3", "M8[s]", "O", "V4"):
        with ctx.case(f"{name}.dtype-{dt}", dict(dtype=dt), sample=False):
            weird = dict(arrays, odd=np.zeros(n, dt))
            weird.pop("wide")
            reject(ctx, "odd == odd", weird, canary, "filter:dtype-accepted")
    with ctx.case(f"{name}.dunder-field", None, sample=False):
        reject(ctx, "gf[:, 0] > 0", {"gf": arrays["gf"], "__x": arrays["gf"]}, canary)


def burn(exprs):
    """Evaluate in a process with hard resource limits; returns outcomes."""
    import resource
    import time
    sys.path.insert(0, str(boot_repo()))
    from dataset.filter import evaluate_filter_condition
    resource.setrlimit(resource.RLIMIT_CPU, (40, 40))
    arrays = {"gf": np.arange(30, dtype=np.float32).reshape(10, 3)}
    used = int(open("/proc/self/statm").read().split()[0]) * 4096
    resource.setrlimit(resource.RLIMIT_AS, (used + (1 << 30),) * 2)
    out = []
    for e in exprs:
        t = time.perf_counter()
        try:
            evaluate_filter_condition(e, arrays)
            r = "accepted"
        except MemoryError:
            r = "memory"
        except Exception as x:      # noqa: BLE001
            r = type(x).__name__
        out.append((r, time.perf_counter() - t))
    return out


def boot_repo():
    from vm import boot
    return boot.REPO


def burn_case(ctx, name, rng):
    base = rng.choice(["2", "3", "7", "9", "255", "9223372036854775807"])
    exprs = []
    for depth in (3, 6, 10, 12):
        e = base
        for _ in range(depth):
            e = f"({e}) ** {rng.choice([7, 8])}"
        exprs.append(f"gf[:, 0] > {e}")
    e = "9" * 18
    exprs.append("gf[:, 0] > " + " * ".join([e] * 60))
    sq = "9" * 18
    for _ in range(5):
        sq = f"({sq} * {sq})"
    exprs.append(f"gf[:, 0] > {sq}"[:4000])
    exprs.append("gf[:, 0] > -(" + exprs[3][11:] + ")")
    exprs.append(exprs[2][11:] + " % 7 > gf[:, 0]")
    with ctx.case(name, dict(base=base)):
        try:
            res = fresh.call(ctx, "vm.checks.p13", "burn", exprs, timeout=90)
        except Exception as e:      # noqa: BLE001
            raise Violation("filter:work-limit", f"evaluating constant towers exhausted the process limits: {str(e)[-300:]}")
        for ex, (r, dt) in zip(exprs, res):
            ctx.check(r not in ("accepted", "memory"), "filter:work-limit", f"{ex[:200]!r}: {r}")
            ctx.check(dt < 20, "filter:work-limit", f"{ex[:200]!r} took {dt:.1f} s before it was refused")
            ctx.count("towers_refused")
        ctx.seen("burn", base, tuple(r for r, _ in res))


# ------------------------------------------------------------ dataset level
def file_arrays(path, keys):
    with np.load(path) as z:
        return {k: z[k] for k in keys if k in z}


PKEYS = ("bf", "gf", "vt", "pt")
RKEYS = ("binaryInputNCHWPacked", "globalInputNC", "globalTargetsNC", "policyTargetsNCMove")


def stream_case(ctx, name, rng, i):
    kind = ["processed", "batched", "raw", "map_processed", "map_raw"][i % 5]
    mk = gen.Maker(rng)
    d = ctx.tmp()
    S = rng.choice([6, 7, 9])
    sizes = [(S, S)] + ([(S + 1, S + 1)] if kind in ("processed", "batched", "raw") and rng.random() < 0.4 else [])
    split = [rng.randint(4, 25) for _ in range(rng.randint(1, 4))]
    kw = dict(boardsizes=sizes, shuffle=rng.random() < 0.5)
    if "processed" in kind or kind == "batched":
        gc = rng.choice([1, 3])
        c0 = gen.make_processed(mk, d, split, sizes, with_gf=True, with_pt=True, gf_cols=gc, stored=rng.choice([True, False]),
                                vt_cols=rng.choice([3, 5]))
        keys = PKEYS
        sc = 0 if gc > 1 else None
        if sc is not None:
            kw["stm_input_channel"] = 0
        vc = None
        if c0.recs[0].e["_raw"]["vt"].shape[0] > 3:
            vc = kw["value_target_channels"] = [2, 0, 4]
        corpus = gen.resolve_processed(c0, sc=sc, vc=vc)
    else:
        corpus = gen.make_raw(mk, d, split, sizes, global_cols=rng.choice([1, 19]))
        keys = RKEYS
    per_file = [file_arrays(p, keys) for p in corpus.files]
    stm = rng.choice([None, None, 1, -1])
    for _ in range(30):
        # a record survives iff the expression holds on its own row: generate on the joined rows
        same = len({tuple(v.shape[1:] for v in a.values()) for a in per_file}) == 1
        probe = max(per_file, key=lambda a: len(a[keys[0]])) if same else min(per_file, key=lambda a: a[keys[0]].shape[-1])
        e = Gen(rng, probe, limit=300).expr(2)
        masks = []
        try:
            for a in per_file:
                masks.append(evaluate_own(e.text, a))
        except Exception:       # noqa: BLE001 - an index that other shapes do not have
            continue
        full = []
        for a, m in zip(per_file, masks):
            if stm is not None:
                g = a[keys[1]]
                s = g[:, 0] == stm if keys is PKEYS or g.shape[1] == 1 else (g[:, 5] > 0 if stm == 1 else g[:, 5] < 0)
                m = m & s
            full.append(m)
        tot = sum(int(m.sum()) for m in full)
        if 0 < tot and (kind not in ("raw", "map_raw") or all(m.any() for m in full)) and (tot < sum(split) or rng.random() < 0.1):
            break
    else:
        return
    by_file = Counter()
    kept = {}
    for r in corpus.recs:
        kept[r.rid] = bool(full[r.file][by_file[r.file]])
        by_file[r.file] += 1
    kw["filter_condition"] = e.text
    if stm is not None:
        kw["filter_stm"] = stm
    want = {r for r, k in kept.items() if k}
    B = rng.choice([1, 3, 8])
    with ctx.case(name, dict(kind=kind, expr=e.text, stm=stm, split=split, sizes=sizes, kept=len(want), B=B)):
        idx = gen.Index([corpus], keep=lambda r: kept[r.rid])
        got = Counter()
        if kind.startswith("map_"):
            ds = drive.build(TYPE[kind], list(corpus.files), drive.runtime(1), **kw)
            for j in range(len(ds)):
                rid, s = idx.lookup({k: np.asarray(v) for k, v in ds[j].items()})
                ctx.check(rid is not None, "filter:delivered-excluded", f"map index {j}: {s}")
                got[rid] += 1
        else:
            ds = drive.build(TYPE[kind], list(corpus.files), drive.runtime(B, mode="test", seed=rng.randrange(1 << 30)), **kw)
            for env in ds:
                for rid, s, real in drive.identify(ctx, env, idx, mech="filter:delivered-excluded"):
                    got[rid] += int(real)
        ctx.check(set(k for k in got if got[k]) == want, "filter:wrong-delivery",
                  lambda: f"{e.text!r}: missing {sorted(want - set(got))[:5]}, extra {sorted(set(got) - want)[:5]}")
        ctx.count("stream_filters")
        ctx.count("records_filtered", sum(split))
        ctx.seen("stream", kind, e.text, stm)
    # the same stream refuses a hostile condition before it delivers anything
    bad = rng.choice(WRAPS).format(x=f"{keys[1]}[:, 0]").replace("gf", keys[1])
    bad = f"({e.text}) & (({bad}) > 0)"
    canary = ctx.tmp("canary")
    with ctx.case(name + ".hostile", dict(kind=kind, expr=bad)):
        cwd = os.getcwd()
        os.chdir(canary)
        delivered = 0
        try:
            if ") > 0)" in bad and any(bad.endswith(f"(({f}) > 0)") for f in ("np", "abs", "np.abs")):
                return
            ds = drive.build(TYPE[kind], list(corpus.files), drive.runtime(1, mode="train" if kind.startswith("map_") else "test"),
                             **dict(kw, filter_condition=bad))
            if kind.startswith("map_"):
                delivered = len(ds)
            else:
                for _ in ds:
                    delivered += 1
            raise Violation("filter:accepted-forbidden", f"{kind} accepted {bad!r} and delivered {delivered} items")
        except Violation:
            raise
        except Exception:       # noqa: BLE001
            ctx.check(delivered == 0, "filter:late-rejection", f"{kind} delivered {delivered} batches before it refused {bad!r}")
            ctx.count("stream_refusals")
        finally:
            os.chdir(cwd)
        ctx.check(not os.listdir(canary), "filter:side-effect", f"{bad!r} left files")
    shutil.rmtree(d, ignore_errors=True)


def evaluate_own(text, arrays):
    """Generated expressions only: Python's own operators, comparison chains split."""
    import ast

    class Chain(ast.NodeTransformer):
        def visit_Compare(self, node):
            self.generic_visit(node)
            lefts = [node.left] + node.comparators[:-1]
            parts = [ast.Compare(a, [o], [b]) for a, o, b in zip(lefts, node.ops, node.comparators)]
            e = parts[0]
            for p in parts[1:]:
                e = ast.BinOp(e, ast.BitAnd(), p)
            return e
    tree = ast.fix_missing_locations(Chain().visit(ast.parse(text, mode="eval")))
    env = dict(arrays, np=np, **{k: getattr(np, k) for k in ("abs", "isfinite", "isnan", "logical_and", "logical_or", "logical_not")})
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = eval(compile(tree, "own", "eval"), {"__builtins__": {}}, env)
    n = len(next(iter(arrays.values())))
    if not isinstance(out, np.ndarray) or out.shape != (n,):
        raise LookupError
    return out


def run(ctx):
    arm_audit()
    ctx.rule = ("random typed expressions over random fields compared row by row with a value computed alongside the text; "
                "forbidden constructs inserted at random places, refused without field, file-system or audit-hook effects; "
                "limit probes on both sides; streams of every NPZ format filtered and refused. Non-trivial: distinct "
                "expressions that split the rows, hostile constructs per size, stream filters")
    ctx.require("expressions_compared", 300)
    ctx.require("hostile_expressions", 400)
    ctx.require("stream_filters", 8)
    ctx.require("stream_refusals", 8)
    ctx.require("limit_expressions", 20)
    ctx.require("towers_refused", 8)
    for name, rng in ctx.cases("burn", 4, 24, share=0.15):
        burn_case(ctx, name, rng)
    for name, rng in ctx.cases("limit", 8, 60, share=0.1):
        limit_case(ctx, name, rng)
    for name, rng in ctx.cases("exact", 240, 20000, share=0.25):
        exact_case(ctx, name, rng)
    for name, rng in ctx.cases("hostile", 160, 8000, share=0.2):
        hostile_case(ctx, name, rng)
    for name, rng in ctx.cases("stream", 80, 1500, share=0.28):
        stream_case(ctx, name, rng, int(name.split("#")[1]))
