"""B01-B03: the progress bitset. Specification: Ranges.tla, Bitset.tla."""
import json, collections
from vf import *

KIND = {"B01": {"new", "set", "unset", "fill", "copy", "union", "inter", "getfar", "unsetfar"},
        "B02": {"overlap", "first"}, "B03": {"restore", "badform", "oddform"}}


def _run(ctx, nrand, nsim):
    prop = ctx.prop
    drv = build_driver(ctx)
    bfs = generate(ctx, "GenBitset")            # one sequence per transition, bounded model
    sim = generate(ctx, "SimBitset", simulate=nsim, depth=25)
    if ctx.quick:
        ctx.rng.shuffle(bfs)
        bfs = bfs[:1600]
    scripts = bfs + sim
    scripts = focus(ctx, scripts + large(ctx, 6 if ctx.quick else 120) + medium(ctx, 16 if ctx.quick else 400), prop)
    with open(ctx.path("scripts.json"), "w") as f:
        json.dump(scripts, f)
    st, o, e = drive(ctx, drv, ["bitset", ctx.path("scripts.json"), ctx.path("out.json"), str(ctx.seed), str(nrand)])
    if st != "ok":
        ctx.violation("crash in the bitset", e)
        return
    traces = json.load(open(ctx.path("out.json")))
    ctx.evaluations = sum(len(t) for t in traces)
    ops = collections.Counter(ev["op"] for t in traces for ev in t)
    ctx.extra["operations"] = dict(ops)
    for t in traces:
        ctx.nontrivial([[ev.get(k) for k in ("op", "r", "x", "d", "b", "q")] for ev in t])
    ctx.sample(slim(traces[0]))
    ctx.sample(slim(traces[-1]))
    rej = validate(ctx, "TraceBitset", traces, chunk=1500, timeout=400)
    for i, at in rej:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else None
        what = "operation %s after %d operations is not explained by the specification" % (
            json.dumps({k: v for k, v in (ev or {}).items() if k not in ("obs", "panic")}), at or 0)
        ctx.violation(what, {"trace": traces[i][:(at or 0) + 1]})


def slim(t):
    return [{k: v for k, v in e.items() if k != "obs"} for e in t[:12]]


def focus(ctx, scripts, prop):
    """Appends operations of the property's own kind to generated sequences, so that they are exercised
    in every state that was generated."""
    r = ctx.rng
    for s in scripts:
        if prop == "B03":
            for k in range(2):
                s.append({"op": "restore", "r": r.randint(1, 2), "d": 3})
                s.append({"op": "badform", "r": r.randint(1, 2), "x": r.randint(0, 9999)})
                s.append({"op": "oddform", "r": r.randint(1, 2), "x": r.randint(0, 9999)})
            s.append({"op": r.choice(["set", "unset"]), "r": 3, "x": r.choice([0, 2, 63, 64, 130])})
            s.append({"op": "fill", "r": 3})
        if prop == "B02":
            for k in range(3):
                a = r.choice([0, 0, 1, 60, 63, 64, 100]); b = a + r.choice([0, 1, 3, 63, 64, 200])
                c = b + r.choice([1, 2, 64]); d = c + r.choice([0, 5, 70])
                s.append({"op": "overlap", "r": r.randint(1, 2), "q": r.choice([[a, b], [a, b, c, d], [b, a], [a, b, c], []])})
                s.append({"op": "first", "r": r.randint(1, 2), "x": r.choice([0, 1, 2, 5, 64, 300])})
    return scripts


def large(ctx, n):
    """Sequences on bitsets as large as they get, almost empty or almost full."""
    r = ctx.rng
    res = []
    for k in range(n):
        size = r.choice([65536, 65535, 65537 - 64, 40000, 33000, 32768, 4097, r.randint(5000, 65536)])
        s = [{"op": "new", "r": 1, "x": size}]
        full = k % 2 == 1
        if full:
            s.append({"op": "fill", "r": 1})
        lo = r.choice([0, 0, size - 200])
        for j in range(r.randint(1, 3)):
            s.append({"op": "unset" if full else "set", "r": 1, "x": r.randint(lo, lo + 199)})
        s += [{"op": "restore", "r": 1, "d": 2}, {"op": "overlap", "r": 2, "q": r.choice([[0, 65535], [lo, lo + 100], [0, lo + 63, lo + 128, 65535]])},
              {"op": "first", "r": 2, "x": r.choice([1, 5, 300])}, {"op": r.choice(["union", "inter"]), "r": 1, "b": 2, "d": 2}]
        res.append(s)
    return res


def medium(ctx, n):
    """Sequences on sets of some dozens of words, changed after copies, unions and so on were made of them."""
    r = ctx.rng
    res = []
    for k in range(n):
        size = r.choice([520, 1024, 1025, 1500, 2048, 3000, r.randint(300, 4000)])
        at = lambda: r.choice([0, size - 1, r.randrange(size), r.choice([63, 64, 127, 128, 255, 256])])
        s = [{"op": "new", "r": 1, "x": size}]
        if r.random() < 0.5:
            s.append({"op": "fill", "r": 1})
        for j in range(r.randint(4, 9)):
            a, d = r.randint(1, 3), r.randint(1, 3)
            s.append(r.choice([{"op": "set", "r": a, "x": at()}, {"op": "unset", "r": a, "x": at()}, {"op": "set", "r": a, "x": size + r.randint(0, 300)},
                               {"op": "copy", "r": a, "d": d}, {"op": "copy", "r": 1, "d": r.choice([2, 3])}, {"op": r.choice(["union", "inter"]), "r": a, "b": r.randint(1, 3), "d": d},
                               {"op": "restore", "r": a, "d": d}, {"op": "fill", "r": a}]))
        res.append(s)
    return res


RULE = ("operation sequences on three bitset registers: one per transition of the bounded TLC state graph "
        "(2 registers, indices 0..2), TLC-simulated ones over word-boundary indices, and seeded random ones up to "
        "index 65535; after every operation the full projection (size, count, fullness, members, filled and "
        "unfilled ranges) of every register is validated by TLC. Distinct = distinct operation sequences.")


def B01(ctx):
    _run(ctx, 400 if ctx.quick else 4000, 150 if ctx.quick else 1500)
    return "model_checking", RULE


B02 = B03 = B01
