"""D01-D03 and W02: what a node answers to datagrams. Specification: Daemon.tla, Discovery.tla."""
import json, os, threading, collections
from vf import *


def drive_daemon(ctx, drv, flu, name, **job):
    """One node, asked by several askers at once. Returns the recorded traces."""
    work = ctx.path(name)
    os.makedirs(work, exist_ok=True)
    job = dict({"Bin": "", "Seed": ctx.rng.randrange(1 << 40), "Lanes": 8, "Grams": 50, "Scale": 4, "Work": work, "Gen": []}, **job)
    if job["Bin"]:
        job["Bin"] = flu
    jf, of = ctx.path(name + ".job"), ctx.path(name + ".out")
    with open(jf, "w") as f:
        json.dump(job, f)
    kw = {"cluster": 1, "work": work} if job["Bin"] else {"netns": True}
    st, o, e = drive(ctx, drv, ["daemon", jf, of], **kw)
    if st != "ok":
        bad_end(ctx, st, e)
        return []
    res = json.load(open(of))
    if res.get("crash"):
        ctx.violation("the daemon ended: " + (crash_report(res["crash"]) or res["crash"][-300:])[:300], res["crash"][:8000])
        return []
    return res["traces"]


def in_parallel(fs):
    """Runs functions concurrently, returns their results; re-raises the first failure."""
    res, err = [None] * len(fs), []
    def go(i):
        try:
            res[i] = fs[i]()
        except BaseException as e:
            err.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def short(ev):
    return {k: (v if len(json.dumps(v)) < 200 else json.dumps(v)[:200] + "...") for k, v in ev.items()}


def judge(ctx, traces, what):
    traces = [t for t in traces if t]
    for t in traces:
        for e in t:
            if e["op"] not in ("register", "save", "unshare"):
                ctx.evaluations += 1
                ctx.nontrivial([e.get("b"), e.get("hash")])
    for t in traces[::max(1, len(traces) // 3)]:
        ctx.sample([short(e) for e in t if e["op"] != "register"][:2])
    for i, at in sorted(validate(ctx, "TraceDaemon", traces, timeout=500, heap="12g"))[:10]:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "?"}
        ctx.violation("%s: %s" % (what, json.dumps(short(ev))[:700]), traces[i])


def W02(ctx, parse_traces=None):
    drv, race, flu, frace = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True),
                                  lambda: build_repo(ctx), lambda: build_repo(ctx, race=True)])
    n = 1 if ctx.quick else 6
    jobs = []
    for k in range(n):
        jobs.append(("real%d" % k, drv, flu, dict(Bin="yes", Mode="flood", Grams=200 if ctx.quick else 500)))
        jobs.append(("race%d" % k, drv, frace, dict(Bin="yes", Mode="flood", Grams=120 if ctx.quick else 300)))
        jobs.append(("in%d" % k, race, None, dict(Mode="flood", Grams=120 if ctx.quick else 300)))
    traces = []
    for lo in range(0, len(jobs), 3):
        for r in in_parallel([lambda j=j: drive_daemon(ctx, j[1], j[2], j[0], **j[3]) for j in jobs[lo:lo + 3]]):
            traces += r
    judge(ctx, traces, "a datagram is not handled as specified")


def D01(ctx):
    gen = generate(ctx, "GenDaemon")
    drv, flu = in_parallel([lambda: build_driver(ctx), lambda: build_repo(ctx)])
    k = len(gen)
    pick = gen if not ctx.quick else ctx.rng.sample(gen, 2600)
    jobs = [("gen", dict(Mode="ask", Scale=5, Gen=pick, Grams=60)), ("real", dict(Bin="yes", Mode="ask", Scale=5, Grams=120, Gen=ctx.rng.sample(gen, 400)))]
    if not ctx.quick:
        jobs += [("r%d" % i, dict(Bin="yes" if i % 2 else "", Mode="ask", Grams=600)) for i in range(6)]
    traces = []
    for r in in_parallel([lambda j=j: drive_daemon(ctx, drv, flu, j[0], **j[1]) for j in jobs]):
        traces += r
    ctx.extra["generated_questions"] = k
    judge(ctx, traces, "a discovery request is not answered as specified")
    return "model_checking", (
        "discovery requests sent over UDP to a node whose catalogue is known: the (held chunks x question) combinations that TLC "
        "enumerates from GenDaemon.tla (%s of %d in this tier), plus random files (up to 65536 chunks, over 127 runs) and questions "
        "(well-formed and malformed, padded). Every reply is judged by TLC against Daemon.tla. Distinct = distinct datagrams."
        % (len(pick), k))


def D03(ctx):
    drv, flu = in_parallel([lambda: build_driver(ctx), lambda: build_repo(ctx)])
    scales = [0, 1, 7, 40, 450] if ctx.quick else [0, 1, 2, 3, 5, 10, 20, 30, 40, 49, 100, 224, 350, 450, 1000, 1400]
    jobs = [("n%d" % s, dict(Mode="list", Scale=s, Lanes=3, Grams=12, Bin="yes" if i % 2 else "")) for i, s in enumerate(scales)]
    traces = []
    for lo in range(0, len(jobs), 8):
        for r in in_parallel([lambda j=j: drive_daemon(ctx, drv, flu, j[0], **j[1]) for j in jobs[lo:lo + 8]]):
            traces += r
    judge(ctx, traces, "a listing is not as specified")
    ctx.extra["catalogue_sizes"] = scales
    return "model_checking", (
        "listings of catalogues of %s files (the largest fill a whole datagram), asked for with raw datagrams and with the code "
        "under test, entire or for one hash (known, unknown, blank); and hosts that stay silent, refuse, or answer garbage. "
        "Every reply is judged by TLC against Daemon.tla. Distinct = distinct requests and garbage answers." % scales)


def D02(ctx):
    drv, race, flu = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx)])
    tlc(ctx, "Discovery")
    def job(name, drv, bin, **job):
        work = ctx.path(name)
        os.makedirs(work, exist_ok=True)
        job = dict({"Bin": flu if bin else "", "Seed": ctx.rng.randrange(1 << 40), "Work": work, "Wrap": False}, **job)
        with open(work + ".job", "w") as f:
            json.dump(job, f)
        kw = {"cluster": 1, "work": work} if bin else {"netns": True}
        st, o, e = drive(ctx, drv, ["discover", work + ".job", work + ".out"], **kw)
        if st != "ok":
            bad_end(ctx, st, e)
            return []
        res = json.load(open(work + ".out"))
        if res.get("crash"):
            ctx.violation("the daemon ended", res["crash"][:8000])
            return []
        return res["traces"]
    n = 1 if ctx.quick else 5
    traces = []
    for k in range(n):
        for r in in_parallel([lambda: job("wrap%d" % k, drv, False, Nodes=1, Count=60, Wrap=True),
                              lambda: job("crowd%d" % k, drv, False, Nodes=1, Count=8, Crowd=400 if ctx.quick else 1000),
                              lambda: job("in%d" % k, drv, False, Nodes=3 if ctx.quick else 8, Count=30),
                              lambda: job("race%d" % k, race, False, Nodes=2, Count=25),
                              lambda: job("real%d" % k, drv, True, Nodes=1, Count=30)]):
            traces += r
    for t in traces:
        ctx.evaluations += sum(1 for e in t if e["op"] == "ret")
        for e in t:
            if e["op"] == "ret":
                ctx.nontrivial(e["res"])
    ctx.sample([short(e) for e in traces[0] if e["op"] != "send"][:6] if traces else [])
    ctx.extra["responses_sent"] = sum(e["n"] for t in traces for e in t if e["op"] == "send")
    for i, at in validate(ctx, "TraceDiscovery", traces, timeout=300):
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "end: a discovery never returned"}
        ctx.violation("a discovery does not behave as specified: %s" % json.dumps(short(ev))[:700], traces[i])
    return "model_checking", (
        "Discovery.tla checked for 3 overlapping discoveries; histories of up to 400 (1000) concurrent discoveries recorded from nodes (inside "
        "the driver, also with the race detector, and the real daemon), with peers that answer in time, repeatedly, late, to other ids, "
        "with other messages, and in bursts of hundreds at the end of the waiting time, ids wrapping around; each history is judged by "
        "TLC against TraceDiscovery.tla. Evaluations = discoveries, distinct = distinct results.")
