"""P26: map-style sampling covers the data set once per epoch across ranks."""
from .. import forkserver, gen, scenario, train


def order(cls, n, shuffle, seed, rank, world, epoch):
    """What a fresh sampler yields in one epoch."""
    s = cls(list(range(n)), shuffle=shuffle, seed=seed, rank=rank, world_size=world)
    for _ in range(epoch):
        for _ in s:
            pass
        s.advance_yield_epoch()
    return list(s)


def split_epoch(ctx, cls, rng, label):
    """All ranks of one configuration, epoch by epoch."""
    n, world, seed, shuffle = rng.choice([0, 1, 2, 3, 7, 16, rng.randint(0, 300)]), rng.randint(1, 6), rng.randrange(1 << 31), rng.random() < 0.7
    where = f"{label}: {n} samples, {world} ranks, seed {seed}, shuffle {shuffle}"
    each = n // world
    per = {}
    for e in (0, 1, 2):
        ranks = [order(cls, n, shuffle, seed, r, world, e) for r in range(world)]
        flat = [i for r in ranks for i in r]
        ctx.check(all(len(r) == each for r in ranks), "sampler:unequal", f"{where}: epoch {e}: ranks yield {[len(r) for r in ranks]} indices, expected {each}")
        ctx.check(len(set(flat)) == len(flat), "sampler:repeated", f"{where}: epoch {e}: indices are visited twice")
        ctx.check(all(0 <= i < n for i in flat), "sampler:range", f"{where}: epoch {e}: an index outside the data set")
        if not shuffle:
            ctx.check(all(r == sorted(r) for r in ranks), "sampler:unshuffled-order", f"{where}: epoch {e}: the unshuffled order is not ascending")
            ctx.check(set(flat) == set(range(each * world)), "sampler:unshuffled-remainder", f"{where}: epoch {e}: not the first {each * world} samples")
        per[e] = tuple(map(tuple, ranks))
        again = tuple(tuple(order(cls, n, shuffle, seed, r, world, e)) for r in range(world))
        ctx.check(again == per[e], "sampler:not-reproducible", f"{where}: epoch {e}: a second pass yields another order")
        ctx.count("epochs_covered")
    if shuffle and each * world >= 12:
        ctx.check(per[0] != per[1] and per[1] != per[2], "sampler:same-order", f"{where}: two epochs have the same order")
        other = tuple(tuple(order(cls, n, shuffle, seed + 12345, r, world, 0)) for r in range(world))
        ctx.check(other != per[0], "sampler:seed-ignored", f"{where}: another seed gives the same order")
    ctx.seen("epoch", min(n, 20), world, shuffle)


def history(ctx, cls, rng, label):
    """Reads, commits, failures, restarts and damaged states against a position model."""
    n, world = rng.choice([1, 3, 8, 20, rng.randint(1, 120)]), rng.randint(1, 4)
    rank, seed, shuffle = rng.randrange(world), rng.randrange(10000), rng.random() < 0.7
    each = n // world
    if not each:
        return
    src = list(range(n))
    make = lambda **o: cls(src, **dict(dict(shuffle=shuffle, seed=seed, rank=rank, world_size=world), **o))
    orders = {}

    def want(e):
        if e not in orders:
            orders[e] = order(cls, n, shuffle, seed, rank, world, e)
        return orders[e]

    s, it, b = make(), None, rng.randint(1, max(1, min(each, 9)))
    where = f"{label}: {n} samples, rank {rank} of {world}, seed {seed}, batch {b}, shuffle {shuffle}"
    epoch, off = 0, 0            # committed
    re, ro = 0, 0                # read
    staged = []                  # tokens with the position after each
    se, so = 0, 0
    trail = []
    for _ in range(rng.randint(5, 60)):
        op = rng.choice(["read", "read", "read", "stage", "stage", "commit", "commit", "rollback", "restart", "refuse", "stale"])
        trail.append(op)
        if op == "read":
            k = rng.randint(1, b + 2)
            for _ in range(k):
                if ro >= each:
                    if (se, so) != (re, ro) and so < each and se == re:
                        break      # the loader drops an incomplete tail only after delivering it
                    if se < re:
                        break
                    s.advance_yield_epoch()
                    re, ro, it = re + 1, 0, None
                if it is None:
                    it = iter(s)
                i = next(it)
                ctx.check(i == want(re)[ro], "sampler:position", f"{where}: after {trail}: index {ro} of epoch {re} is {i}, expected {want(re)[ro]}")
                ro += 1
                ctx.count("indices_followed")
        elif op == "stage":
            e2, o2 = (se, so)
            if re == se + 1 and so >= each:
                e2, o2 = re, 0
            k = min(b, each - o2)
            have = (ro if e2 == re else each) - o2
            if k <= 0 or have < k or e2 not in (re,):
                continue
            t = s.stage_batch(b)
            se, so = e2, o2 + k
            staged.append((t, se, so))
        elif op == "commit" and staged:
            k = rng.randint(1, len(staged))
            c = s.prepare_commit([t for t, _, _ in staged[:k]])
            if rng.random() < 0.15:
                continue        # failed between preparation and commit
            s.commit_prepared(c)
            _, epoch, off = staged[k - 1]
            staged = staged[k:]
            ctx.count("commits")
        elif op == "rollback":
            s.rollback_uncommitted()
            re, ro, se, so, staged, it = epoch, off, epoch, off, [], None
        elif op == "restart":
            st = s.state_dict()
            s = make()
            s.load_state_dict(dict(st))
            re, ro, se, so, staged, it = epoch, off, epoch, off, [], None
            ctx.count("restores")
        elif op == "refuse":
            st = s.state_dict()
            bad = rng.choice(["seed", "shuffle", "world", "rank", "length", "offset", "version"])
            o, k = {}, dict(st)
            if bad == "seed":
                o = dict(seed=seed + 1)
            elif bad == "shuffle":
                o = dict(shuffle=not shuffle)
            elif bad == "world":
                o = dict(world_size=world + 1)
            elif bad == "rank" and world > 1:
                o = dict(rank=(rank + 1) % world)
            elif bad == "length":
                o = dict(data_source=src + [n])
            elif bad == "offset":
                k["offset"] = rng.choice([-1, each + 1, each + 100])
            elif bad == "version":
                k["version"] = rng.choice([0, 3, None])
            else:
                continue
            f = cls(o.pop("data_source", src), **dict(dict(shuffle=shuffle, seed=seed, rank=rank, world_size=world), **o))
            try:
                f.load_state_dict(k)
                ok = False
            except (RuntimeError, ValueError, KeyError, TypeError):
                ok = True
            ctx.check(ok, "sampler:mismatch-accepted", f"{where}: a position saved with another {bad} was restored")
            ctx.count("refusals")
        elif op == "stale" and len(staged) >= 2:
            # tokens out of order, or skipping one, never move the position
            try:
                c = s.prepare_commit([t for t, _, _ in staged[1:]])
                s.commit_prepared(c)
                bad = True
            except (RuntimeError, ValueError):
                bad = False
            ctx.check(not bad, "sampler:gap-committed", f"{where}: a commit that skips a batch was accepted")
        st = s.state_dict()
        ctx.check((st["epoch"], st["offset"]) == (epoch, off), "sampler:saved-position",
                  f"{where}: after {trail} the saved position is {(st['epoch'], st['offset'])}, committed {(epoch, off)}")
    ctx.seen("history", world, shuffle, epoch, off > 0, b)
    ctx.count("histories")


def training(ctx, srv, rng, name, n):
    d = ctx.tmp()
    world = [1, 2, 1, 3][n % 4]
    cfg, s = train.config(rng, d, kind=rng.choice(train.MAPS), world=world, iterations=rng.randint(5, 12), total=rng.randint(8, 30), val=False)
    cfg.update(save_interval=1000, temp_save_interval=1, num_keep_states=1, val_interval=1000)
    each, lb = sum(len(c.recs) for c in s.corpora) // world, cfg["batch_size"] // world
    label = f"{s.kind}: {each * world}+ samples, batch {cfg['batch_size']}, accumulation {cfg['gradient_accumulation_steps']}, {world} ranks"
    logs, start, stops = [[] for _ in range(world)], 0, []
    while start < cfg["iterations"]:
        stop = rng.randint(start + 2, cfg["iterations"]) if start + 2 <= cfg["iterations"] and len(stops) < 2 and rng.random() < 0.7 else None
        stops.append(stop)
        if world == 1:
            outs = [srv.call("vm.maps", "run", cfg, str(d / "run"), stop, timeout=150)]
        else:
            o = srv.call("vm.maps", "run_ranks", cfg, str(d / "run"), world, stop, timeout=200)
            if not o.ok:
                srv.blame(o, label)
            outs = [forkserver.Outcome(**r) for r in o.value]
        for r, o in enumerate(outs):
            if not o.ok:
                srv.blame(o, f"{label}, stops {stops}")
            ctx.check(o.value["start"] == start, "training:position", f"{label}: rank {r} starts at iteration {o.value['start']}, expected {start}")
            logs[r] += [(it, b) for it, b in o.value["log"] if stop is None or it < stop]
        start = outs[0].value["end"]
        if stop is None:
            break
    index = s.index()
    per = each // lb             # whole batches per epoch and rank
    epochs = {}
    for r in range(world):
        steps = [it for it, _ in logs[r]]
        ctx.check(steps == [i for i in range(1, cfg["iterations"] + 1) for _ in range(cfg["gradient_accumulation_steps"])], "training:steps",
                  f"{label}, stops {stops}: rank {r} took micro-steps {steps}")
        for k, (it, b) in enumerate(logs[r]):
            rows = gen.rows_of(b)
            ctx.check(len(rows) == lb, "training:batch", f"{label}: micro-step {k} of rank {r} has {len(rows)} rows, expected {lb}")
            for row in rows:
                rid, why = index.lookup(row)
                ctx.check(rid is not None, "training:row", f"{label}: micro-step {k} of rank {r}: {why}")
                epochs.setdefault(k // per, []).append((rid, r, k))
                ctx.count("rows_identified")
    for e, got in epochs.items():
        ids = [g[0] for g in got]
        twice = sorted({i for i in ids if ids.count(i) > 1})
        ctx.check(not twice, "training:repeated", f"{label}, stops {stops}: epoch {e} trains on samples {twice} more than once")
        full = len(got) == per * lb * world
        if full:
            ctx.count("full_epochs")
    es = sorted(epochs)
    if not cfg["no_shuffle"] and each * world >= 12 and len(es) > 1:
        seqs = [[g[0] for g in epochs[e] if g[1] == 0] for e in es[:2]]
        m = min(map(len, seqs))
        ctx.check(m < 6 or seqs[0][:m] != seqs[1][:m], "training:same-order", f"{label}: two epochs have the same order")
    ctx.seen("training", s.kind, world, cfg["no_shuffle"], cfg["gradient_accumulation_steps"], len(stops))
    ctx.count("training_runs")


def run(ctx):
    ctx.rule = ("the map-style sampler of every rank over random lengths, seeds and epochs; histories of reads, staged and committed "
                "batches, failures, restarts and damaged positions against a position model; and training runs, stopped and resumed, "
                "whose rows are identified by content. Non-trivial: distinct (size, ranks, order, history shape)")
    from utils.training_utils import ResumableSampler
    srv = forkserver.Server(ctx, imports=("vm.train", "vm.maps", "trainer", "model"), env={"VM_SCRATCH": str(ctx.scratch)})
    try:
        for name, rng in ctx.cases("split", 120, 4000, share=0.2):
            with ctx.case(name, sample=False):
                split_epoch(ctx, ResumableSampler, rng, name)
        for name, rng in ctx.cases("history", 600, 20000, share=0.3):
            with ctx.case(name, sample=False):
                history(ctx, ResumableSampler, rng, name)
        for name, rng in ctx.cases("training", 40, 800):
            with ctx.case(name, sample=False):
                training(ctx, srv, rng, name, int(name.split("#")[1]))
    finally:
        srv.close()
    ctx.require("epochs_covered", 60)
    ctx.require("commits", 100)
    ctx.require("restores", 50)
    ctx.require("rows_identified", 300)
    ctx.require("full_epochs", 5)
