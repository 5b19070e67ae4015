"""S02: what is over leaves nothing behind. Specifications: Rest.tla, RestMC.tla"""
import json, os, collections
from vf import *
from p_disc import in_parallel, short

SLOW = {("download", "silent")}     # others wait for it, four times five seconds


def run_rest(ctx, drv, flu, nodes, name="rest", wait=24):
    work = ctx.path(name)
    os.makedirs(work, exist_ok=True)
    with open(work + ".job", "w") as f:
        json.dump({"Bin": flu, "Work": work, "Nodes": nodes, "Wait": wait}, f)
    st, o, e = drive(ctx, drv, ["rest", work + ".job", work + ".out"], timeout=600, cluster=len(nodes), work=work)
    if st != "ok":
        bad_end(ctx, st, e)
        return []
    res = json.load(open(work + ".out"))
    if res.get("crash"):
        ctx.violation("the daemon ended: " + (crash_report(res["crash"]) or res["crash"][-300:])[:300], res["crash"][:8000])
        return []
    return res["traces"]


def works(r, gen, n, most):
    """Pieces of work that overlap as TLC says: of every pair, the second begins while the first goes on, or after it."""
    res, slow = [], 0
    for _ in range(n):
        at = r.randrange(800)
        for g in gen.pop():
            k = g["kind"], g["way"]
            if k in SLOW:
                slow += 1
                if slow > most:
                    continue
            at += r.randrange(60) if g["over"] else 1200
            res.append({"Kind": k[0], "Way": k[1], "At": at, "Size": r.choice([3000, 40000, 120000]) if k[0] == "upload" else r.choice([30000, 1500000]) if k[0] == "download" else 2000})
    return res


def S02(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, flu, gen, _ = in_parallel([lambda: build_driver(ctx), lambda: build_repo(ctx), lambda: generate(ctx, "RestMC", "GenRest"), lambda: tlc(ctx, "RestMC", "RestMC")])
    gen = [g for g in gen if len(g) == 2]
    total = len(gen)
    traces = []
    used = 0
    for turn in range(1 if q else 8):
        r.shuffle(gen)
        # every kind and way in some node, at least
        gen.sort(key=lambda g: 0)
        seen, first = set(), []
        for g in gen:
            ks = {(x["kind"], x["way"]) for x in g}
            if not ks <= seen:
                first.append(g)
                seen |= ks
        pool = gen + first
        nodes = [{"Seed": r.randrange(1 << 40), "Times": 4, "Works": works(r, pool, 7, 0 if q else 1)} for _ in range(8)]
        used += 56
        traces += run_rest(ctx, drv, flu, nodes, "rest%d" % turn)
    ctx.extra["held"] = [[{k: v for k, v in e["has"].items() if k != "what"} for e in t if e["op"] in ("base", "rest")] for t in traces]
    for t in traces:
        last = t[-1]["has"].pop("what", "") if t[-1]["op"] == "rest" else ""
        for e in t:
            e.get("has", {}).pop("what", None)
        t[-1]["what"] = collections.Counter(last.split()).most_common(12)
        ctx.nontrivial([(e["kind"], e["way"]) for e in t if e["op"] == "begin"])
    ctx.evaluations += sum(e["op"] in ("rest", "clean", "end") for t in traces for e in t)
    for t in traces[:3]:
        ctx.sample([short(e) for e in t][:6] + [short(t[-1])])
    for i, at in sorted(validate(ctx, "TraceRest", traces), key=lambda x: x[0])[:10]:
        t = traces[i]
        ev = t[at] if at is not None and at < len(t) else {"op": "?"}
        base = [e["has"] for e in t if e["op"] == "base"]
        ctx.violation("what is over leaves something behind: event %s: %s; before: %s" % (at, json.dumps(short(ev))[:900], json.dumps(base)[:300]), t)
    return "model_checking", ("work of all kinds (chunks asked of real daemons, downloads, commands, datagrams) that ends in all ways (completed, refused, failed, abandoned, cut off), in the "
                              "overlapping pairs that TLC generates from RestMC.tla (%d of %d in this run), every piece four times at once, twice; between and after, when all is over and the time limits "
                              "have passed, goroutines, open files, sockets and memory of the daemon are counted, and TLC judges the counts against Rest.tla. Distinct = distinct schedules." % (min(used, total), total))
